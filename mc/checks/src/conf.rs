//! Configuration files of the two programs.
use std::collections::BTreeMap;
use vstd::rt;

/// JSON texts by path ("udp_server.port").
#[derive(Clone, Debug)]
pub struct Json(pub Vec<(&'static str, String)>);
impl Json {
    pub fn set(&mut self, path: &str, v: impl ToString) -> &mut Self {
        let e = self.0.iter_mut().find(|e| e.0 == path).unwrap_or_else(|| panic!("no field {}", path));
        e.1 = v.to_string();
        self
    }
    pub fn str(&mut self, path: &str, v: &str) -> &mut Self {
        self.set(path, quote(v))
    }
    pub fn remove(&mut self, path: &str) -> &mut Self {
        self.0.retain(|e| e.0 != path && !e.0.starts_with(&format!("{}.", path)));
        self
    }
    pub fn get(&self, path: &str) -> &str {
        &self.0.iter().find(|e| e.0 == path).unwrap().1
    }
    pub fn text(&self) -> String {
        fn obj(items: &[(Vec<&str>, &str)]) -> String {
            let mut order: Vec<&str> = vec![];
            let mut by: BTreeMap<&str, Vec<(Vec<&str>, &str)>> = BTreeMap::new();
            for (p, v) in items {
                if !order.contains(&p[0]) {
                    order.push(p[0]);
                }
                by.entry(p[0]).or_default().push((p[1..].to_vec(), v));
            }
            let f: Vec<String> = order
                .iter()
                .map(|k| {
                    let l = &by[k];
                    let v = if l[0].0.is_empty() { l[0].1.to_string() } else { obj(l) };
                    format!("{}:{}", quote(k), v)
                })
                .collect();
            format!("{{{}}}", f.join(","))
        }
        let v: Vec<(Vec<&str>, &str)> = self.0.iter().map(|(p, v)| (p.split('.').collect(), v.as_str())).collect();
        obj(&v)
    }
    /// Give the text to the program's file system.
    pub fn store(&self, path: &str) {
        vstd::fs::set_file(path, self.text().as_bytes());
    }
}
pub fn quote(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn servers() -> Vec<(&'static str, String)> {
    vec![
        ("log_level", "\"Error\"".into()),
        ("udp_server.address", "\"127.0.0.1\"".into()),
        ("udp_server.port", "5300".into()),
        ("udp_server.write_timeout", "2".into()),
        ("udp_server.threads", "2".into()),
        ("tcp_server.address", "\"127.0.0.1\"".into()),
        ("tcp_server.port", "5300".into()),
        ("tcp_server.read_timeout", "2".into()),
        ("tcp_server.write_timeout", "2".into()),
        ("tcp_server.threads", "2".into()),
    ]
}
pub fn nameserver() -> Json {
    let mut v = servers();
    v.extend(vec![
        ("zone.zone", "\"example.\"".into()),
        ("zone.file", "\"main\"".into()),
        ("zone.starting_ttl", "1000".into()),
        ("zone.sub_zones", "[]".into()),
    ]);
    Json(v)
}
pub fn sub(zone: &str, file: &str, ttl: u64, min: u64) -> Json {
    Json(vec![("zone", quote(zone)), ("file", quote(file)), ("starting_ttl", ttl.to_string()), ("min_ttl", min.to_string())])
}
pub fn subs(v: &[Json]) -> String {
    format!("[{}]", v.iter().map(|s| s.text()).collect::<Vec<_>>().join(","))
}
pub fn resolver() -> Json {
    let mut v = servers();
    v.extend(vec![
        ("resolver.max_ns_queried", "5".into()),
        ("resolver.max_ns_retries", "3".into()),
        ("resolver.max_cname_redir", "10".into()),
        ("resolver.read_timeout", "2".into()),
        ("resolver.write_timeout", "2".into()),
        ("resolver.cache_conf.clean_period", "60".into()),
        ("resolver.cache_conf.entries_cleaned", "1000".into()),
        ("resolver.trace_conf.silent", "false".into()),
        ("resolver.trace_conf.verbose", "false".into()),
        ("resolver.trace_conf.color", "true".into()),
    ]);
    Json(v)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Program {
    Nameserver,
    Resolver,
}
pub const NAMESERVER: Program = Program::Nameserver;
pub const RESOLVER: Program = Program::Resolver;

/// What the language's runtime does with the result of `main`.
fn run_main<T: std::process::Termination>(main: fn() -> T) {
    let code = main().report();
    if format!("{:?}", code) != format!("{:?}", std::process::ExitCode::SUCCESS) {
        vstd::process::exit(1);
    }
}

/// Start a program with the given arguments in a thread of its own.
pub fn start(p: Program, args: &[&str]) -> usize {
    rt::k().args = std::iter::once("ariadne").chain(args.iter().copied()).map(|s| s.to_string()).collect();
    rt::spawn("program", move || match p {
        Program::Nameserver => run_main(ariadne_dns::bin_nameserver::main),
        Program::Resolver => run_main(ariadne_dns::bin_resolver::main),
    })
}
/// Run a program which has to end at once with an error status, having served nothing.
pub fn must_refuse(p: Program, args: &[&str], what: &str) -> ! {
    let done = {
        let what = what.to_string();
        move |code: Option<i32>| -> ! {
            match code {
                Some(0) => rt::fail("status 0", format!("the program ends with status 0 ({})", what)),
                None => rt::fail("no status", format!("the program returns from main as if all was well ({})", what)),
                _ => {}
            }
            if !rt::k().net.bound_log.is_empty() {
                rt::fail("served first", format!("{:?} were bound ({})", rt::k().net.bound_log, what));
            }
            rt::finish(rt::End::Done)
        }
    };
    let d2 = done.clone();
    rt::k().on_exit = Some(std::rc::Rc::new(move |c| {
        d2(Some(c));
    }));
    let t = start(p, args);
    rt::settle();
    if !rt::is_done(t) {
        rt::fail("runs", format!("the program runs although it must not ({}), bound: {:?}", what, rt::k().net.bound_log));
    }
    let code = if rt::panicked(t).is_some() { Some(101) } else { None };
    done(code)
}
