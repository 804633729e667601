//! C23: which configurations are accepted.
use checks::conf::{self, must_refuse, quote, resolver, start, sub, subs, Json, NAMESERVER, RESOLVER};
use checks::servers::*;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::cell::Cell;
use std::rc::Rc;
use vstd::mc;
use vstd::net::client;

#[derive(Clone, Copy, PartialEq)]
enum P {
    Ns,
    Rs,
}
fn sample(p: P) -> Json {
    match p {
        P::Ns => {
            let mut j = conf::nameserver();
            j.set("zone.sub_zones", subs(&[sub("sub.example.", "sub", 500, 60)]));
            j
        }
        P::Rs => resolver(),
    }
}
/// Load a configuration with the program's own loader; what it understood.
fn load(p: P, path: &str) -> Result<serde_json::Value, String> {
    match p {
        P::Ns => ariadne_dns::nameserver::conf::Conf::from_file(path).map(|c| serde_json::to_value(&c).unwrap()),
        P::Rs => ariadne_dns::resolver::conf::Conf::from_file(path).map(|c| serde_json::to_value(&c).unwrap()),
    }
}
/// The configuration is accepted exactly when `wrong` is empty, and understood.
fn judge(p: P, j: &Json, wrong: &[String]) {
    mc::note(|| j.text());
    j.store("conf");
    match (load(p, "conf"), wrong.is_empty()) {
        (Ok(_), false) => rt::fail(&format!("accepted: {}", wrong.join(", ")), format!("accepted although wrong: {}; {}", wrong.join(", "), j.text())),
        (Err(e), true) => rt::fail("rejected", format!("rejected ({}) although nothing is wrong: {}", e, j.text())),
        (Ok(mut v), true) => {
            let mut want: serde_json::Value = serde_json::from_str(&j.text()).unwrap();
            // the case of the level does not matter
            for x in [&mut v, &mut want] {
                x["log_level"] = x["log_level"].as_str().unwrap_or_default().to_lowercase().into();
            }
            if v != want {
                rt::fail("values", format!("understood as {}: {}", v, j.text()));
            }
            rt::count("accepted");
        }
        (Err(e), false) => {
            if e.is_empty() {
                rt::fail("no reason", format!("rejected without a reason: {}", j.text()));
            }
            rt::count("rejected");
        }
    }
    rt::sample(|| format!("{}: {}", if wrong.is_empty() { "accepted" } else { "rejected" }, j.text()));
}
/// Choose a number for the field.
fn num(j: &mut Json, f: &str, vals: &[u64], zero_ok: bool, wrong: &mut Vec<String>) {
    let v = *rt::pick_of(vals);
    j.set(f, v);
    if v == 0 && !zero_ok {
        wrong.push(format!("{} 0", f));
    }
}
fn text(j: &mut Json, f: &str, vals: &[(&str, bool)], wrong: &mut Vec<String>) {
    let (v, ok) = *rt::pick_of(vals);
    j.str(f, v);
    if !ok {
        wrong.push(format!("{} {:?}", f, v));
    }
}
const BIG: u64 = u64::MAX;
const ADDR: &[(&str, bool)] = &[
    ("127.0.0.1", true),
    ("::1", true),
    ("", false),
    ("localhost", false),
    ("0.0.0.0", true),
    ("::", true),
    ("255.255.255.255", true),
    ("2001:db8::1", true),
    ("::ffff:10.0.0.1", true),
    ("1:2:3:4:5:6:7:8", true),
    ("256.0.0.1", false),
    ("127.0.0", false),
    ("127.0.0.1.1", false),
    ("127.0.0.1:53", false),
    ("[::1]", false),
    ("[::1]:53", false),
    (" 127.0.0.1", false),
    ("127.0.0.1 ", false),
    ("127.0.0.01", false),
    ("0x7f.0.0.1", false),
    ("2130706433", false),
    ("127.1", false),
    ("1::2::3", false),
    ("1:2:3:4:5:6:7", false),
    ("1:2:3:4:5:6:7:8:9", false),
    ("::g", false),
    ("fe80::1%eth0", false),
    ("127.0.0.1\n", false),
    ("127.0.0.1\0", false),
    ("-1.0.0.0", false),
    ("1.2.3.", false),
    ("*", false),
    ("example.com", false),
    ("example.com.", false),
    ("\u{661}.0.0.1", false),
    (":", false),
    (":::", false),
    ("::12345", false),
];
const NAMES: &[(&str, bool)] = &[
    ("example.", true),
    (".", true),
    ("a.b.c.", true),
    ("", false),
    ("example", false),
    ("example..", false),
    (".example.", false),
    ("exa mple.", false),
    ("-a.example.", false),
    ("a-.example.", false),
    ("EXAMPLE.", true),
    ("1.2.3.", true),
    ("a_b.example.", false),
    ("\u{e9}.example.", false),
    ("..", false),
    ("@", false),
    ("example.\n", false),
    ("10.in-addr.arpa.", true),
];
/// Values of the wrong type for every kind of field.
const ODD: &[&str] = &["null", "\"\"", "\"1\"", "-1", "1.5", "1e1", "true", "false", "[]", "[1]", "{}", "65536", "4294967296", "18446744073709551616", "\"Info\"", "01", "nope"];

fn right(f: &str, v: &str) -> Option<bool> {
    let leaf = f.rsplit('.').next().unwrap();
    let n: Option<u128> = if v.bytes().all(|c| c.is_ascii_digit()) && (v == "0" || !v.starts_with('0')) { v.parse().ok() } else { None };
    Some(match leaf {
        "log_level" => return if v == "\"Info\"" { Some(true) } else { Some(false) },
        "address" => v == "\"127.0.0.1\"",
        "zone" => v == "\".\"",
        "file" => v.starts_with('"'),
        "silent" | "verbose" | "color" => v == "true" || v == "false",
        "sub_zones" => v == "[]",
        "port" => n.map_or(false, |n| n <= 65535),
        "starting_ttl" | "min_ttl" => n.map_or(false, |n| n <= u32::MAX as u128),
        _ => n.map_or(false, |n| n <= u64::MAX as u128 && n > 0),
    })
}
const LEVELS: &[(&str, bool)] = &[("Error", true), ("Warn", true), ("Info", true), ("Debug", true), ("Trace", true), ("", false), ("Loud", false), ("3", false)];

fn all_strings(alpha: &[&str], max: usize) -> String {
    let mut s = String::new();
    for _ in 0..max {
        match rt::pick(alpha.len() + 1) {
            0 => break,
            i => s.push_str(alpha[i - 1]),
        }
    }
    s
}

fn main() {
    let mut ck = Check::start("C23");
    let th = ck.thorough();
    ck.assume("thread counts for which the system has no resources, port 0 and addresses of other machines are not judged");
    let t2: &'static [u64] = &[0, 1];
    let t3: &'static [u64] = if th { &[0, 1, BIG] } else { &[0, BIG] };
    let na = ck.by(3, 6);

    ck.pure("nameserver: every combination of right and wrong values", opts().cap(ck.by(200.0, 1500.0)), move || {
        let mut w = vec![];
        let mut j = sample(P::Ns);
        text(&mut j, "udp_server.address", &ADDR[1..1 + na], &mut w);
        num(&mut j, "udp_server.port", &[0, 65535], true, &mut w);
        num(&mut j, "udp_server.write_timeout", t3, false, &mut w);
        num(&mut j, "udp_server.threads", t2, false, &mut w);
        text(&mut j, "tcp_server.address", &ADDR[1..1 + na], &mut w);
        num(&mut j, "tcp_server.read_timeout", t3, false, &mut w);
        num(&mut j, "tcp_server.write_timeout", t3, false, &mut w);
        num(&mut j, "tcp_server.threads", t2, false, &mut w);
        text(&mut j, "zone.zone", &NAMES[1..5], &mut w);
        num(&mut j, "zone.starting_ttl", &[0, u32::MAX as u64], true, &mut w);
        let mut s = vec![];
        for _ in 0..rt::pick(3) {
            let (z, ok) = *rt::pick_of(&NAMES[1..4]);
            if !ok {
                w.push(format!("sub zone {:?}", z));
            }
            s.push(sub(z, "", *rt::pick_of(&[0, u32::MAX as u64]), 0));
        }
        j.set("zone.sub_zones", subs(&s));
        judge(P::Ns, &j, &w);
    });
    ck.pure("resolver: every combination of right and wrong values", opts().cap(ck.by(200.0, 1500.0)), move || {
        let mut w = vec![];
        let mut j = sample(P::Rs);
        let na = if th { 3 } else { 2 };
        text(&mut j, "udp_server.address", &ADDR[1..1 + na], &mut w);
        num(&mut j, "udp_server.write_timeout", t2, false, &mut w);
        num(&mut j, "udp_server.threads", t2, false, &mut w);
        text(&mut j, "tcp_server.address", &ADDR[1..1 + na], &mut w);
        num(&mut j, "tcp_server.read_timeout", t2, false, &mut w);
        num(&mut j, "tcp_server.write_timeout", t2, false, &mut w);
        num(&mut j, "tcp_server.threads", t2, false, &mut w);
        for f in ["max_ns_queried", "max_ns_retries", "max_cname_redir", "read_timeout", "write_timeout", "cache_conf.clean_period", "cache_conf.entries_cleaned"] {
            num(&mut j, &format!("resolver.{}", f), &[0, BIG], false, &mut w);
        }
        if th {
            for f in ["silent", "verbose", "color"] {
                let v = rt::pick_bool();
                j.set(&format!("resolver.trace_conf.{}", f), v);
            }
        }
        judge(P::Rs, &j, &w);
    });
    ck.pure("every value of every single field", opts(), || {
        let p = *rt::pick_of(&[P::Ns, P::Rs]);
        let mut j = sample(p);
        let mut w = vec![];
        let i = rt::pick(j.0.len());
        let f = j.0[i].0;
        match f.rsplit('.').next().unwrap() {
            "log_level" => text(&mut j, f, LEVELS, &mut w),
            "address" => text(&mut j, f, ADDR, &mut w),
            "zone" => text(&mut j, f, NAMES, &mut w),
            "file" => text(&mut j, f, &[("", true), ("a/b c", true), ("..", true), ("\u{e9}\n", true)], &mut w),
            "silent" | "verbose" | "color" => {
                let v = rt::pick_bool();
                j.set(f, v);
            }
            "port" => num(&mut j, f, &[0, 1, 53, 5300, 65535], true, &mut w),
            "starting_ttl" => num(&mut j, f, &[0, 1, 1 << 31, u32::MAX as u64], true, &mut w),
            "sub_zones" => {
                let n = 1 + rt::pick(3);
                let k = rt::pick(n);
                let (z, ok) = *rt::pick_of(NAMES);
                let v: Vec<Json> = (0..n).map(|i| if i == k { sub(z, "f", 1, 2) } else { sub(&format!("s{}.example.", i), "", u32::MAX as u64, u32::MAX as u64) }).collect();
                j.set(f, subs(&v));
                if !ok {
                    w.push(format!("sub zone {:?}", z));
                }
            }
            _ => num(&mut j, f, &[0, 1, 2, 10, 65536, u32::MAX as u64 + 1, i64::MAX as u64, i64::MAX as u64 + 1, BIG], false, &mut w),
        }
        judge(p, &j, &w);
    });
    ck.pure("short texts as addresses", opts().cap(ck.by(60.0, 600.0)), move || {
        let p = *rt::pick_of(&[P::Ns, P::Rs]);
        let f = *rt::pick_of(&["udp_server.address", "tcp_server.address"]);
        let s = match rt::pick(3) {
            0 => all_strings(&["1", ".", ":", "a", "0", "256"], if th { 7 } else { 5 }),
            1 => format!("10.0.{}", all_strings(&["1", ".", "0", "25", "-", " "], 4)),
            _ => format!("::{}", all_strings(&["1", ".", ":", "f", "1.2.3.4"], 4)),
        };
        let mut j = sample(p);
        j.str(f, &s);
        let ok = s.parse::<std::net::IpAddr>().is_ok();
        judge(p, &j, &if ok { vec![] } else { vec![format!("{} is no address", f)] });
    });
    ck.pure("short texts as zone names", opts().cap(ck.by(60.0, 600.0)), move || {
        let s = match rt::pick(3) {
            0 => all_strings(&["a", ".", "-", "1", "_"], if th { 7 } else { 5 }),
            1 => {
                let n = *rt::pick_of(&[1usize, 62, 63, 64, 65]);
                format!("{}{}", "x".repeat(n), all_strings(&[".", "y"], 3))
            }
            _ => {
                let n = *rt::pick_of(&[60usize, 61, 62, 63]);
                format!("{}{}", format!("{}.", "x".repeat(62)).repeat(3), format!("{}.", "y".repeat(n)))
            }
        };
        let mut j = sample(P::Ns);
        if rt::pick_bool() {
            j.str("zone.zone", &s);
        } else {
            j.set("zone.sub_zones", subs(&[sub("a.example.", "f", 1, 1), sub(&s, "f", 1, 1)]));
        }
        let ok = name_of_text(&s).is_some();
        judge(P::Ns, &j, &if ok { vec![] } else { vec!["zone name".into()] });
    });
    ck.pure("values of the wrong type", opts(), || {
        let p = *rt::pick_of(&[P::Ns, P::Rs]);
        let mut j = sample(p);
        let n = j.0.len();
        let i = rt::pick(n + 4);
        let v = *rt::pick_of(ODD);
        let f = if i < n {
            let f = j.0[i].0;
            j.set(f, v);
            f
        } else if p == P::Ns {
            // in one of two subzones
            let mut s = sub("sub.example.", "f", 1, 1);
            let f = s.0[i - n].0;
            s.set(f, v);
            let ok = sub("b.example.", "f", 1, 1);
            j.set("zone.sub_zones", subs(&if rt::pick_bool() { [ok, s] } else { [s, ok] }));
            f
        } else {
            return;
        };
        match right(f, v) {
            Some(true) => judge(p, &j, &[]),
            Some(false) => judge(p, &j, &[format!("{} {}", f, v)]),
            None => {}
        }
    });
    ck.pure("missing fields", opts(), || {
        let p = *rt::pick_of(&[P::Ns, P::Rs]);
        let mut j = sample(p);
        let n = j.0.len();
        let mut gone = vec![];
        match rt::pick(3) {
            0 => {
                let k = 1 + rt::pick(2);
                for _ in 0..k {
                    gone.push(j.0[rt::pick(n)].0.to_string());
                }
            }
            1 => gone.push(rt::pick_of(&["udp_server", "tcp_server", "zone", "resolver", "resolver.cache_conf", "resolver.trace_conf"]).to_string()),
            _ => {
                if p == P::Ns {
                    let mut s = sub("sub.example.", "f", 1, 1);
                    let f = s.0[rt::pick(4)].0;
                    s.remove(f);
                    let ok = sub("b.example.", "f", 1, 1);
                    j.set("zone.sub_zones", subs(&if rt::pick_bool() { [ok, s] } else { [s, ok] }));
                    return judge(p, &j, &[format!("no {} of a sub zone", f)]);
                }
                return;
            }
        }
        let before = j.0.len();
        for g in &gone {
            j.remove(g);
        }
        if j.0.len() < before {
            judge(p, &j, &[format!("no {}", gone.join(" and "))]);
        }
    });
    ck.pure("files which are no configuration", opts(), || {
        let p = *rt::pick_of(&[P::Ns, P::Rs]);
        let j = sample(p);
        let t = j.text();
        let b: Option<Vec<u8>> = match rt::pick(5) {
            0 => None,
            1 => Some(t.as_bytes()[..rt::pick(t.len())].to_vec()),
            2 => Some(format!("{}{}", t, rt::pick_of(&["x", "}", "{}", ",", "\0", "//"])).into_bytes()),
            3 => Some(rt::pick_of(&["", " ", "null", "[]", "{}", "1", "\"\"", "true", "\u{feff}", "{\"udp_server\":{}}"]).as_bytes().to_vec()),
            _ => {
                // not UTF-8
                let mut b = t.as_bytes().to_vec();
                let i = rt::pick(b.len());
                b[i] = 0xff;
                Some(b)
            }
        };
        let path = match &b {
            Some(b) => {
                vstd::fs::set_file("conf", b);
                mc::note_bytes(b);
                "conf"
            }
            None => *rt::pick_of(&["nowhere", "", "a/b", "conf\0"]),
        };
        if load(p, path).is_ok() {
            rt::fail("accepted: no configuration", format!("{:?}: {:?}", path, b.map(|b| String::from_utf8_lossy(&b).to_string())));
        }
        rt::count("rejected");
    });

    // accepted configurations serve
    let addrs: &'static [&'static str] = &["127.0.0.1", "::1", "0.0.0.0", "::", "10.0.0.1"];
    ck.rt("accepted configurations serve", opts().env(ck.by(2, 4)).cap(ck.by(120.0, 1500.0)), move || {
        let p = *rt::pick_of(&[P::Ns, P::Rs]);
        let mut j = sample(p);
        let fresh = |j: &mut Json, f: &str, v: &[u64]| {
            j.set(f, *rt::deviate_of(v));
        };
        let ua = *rt::deviate_of(addrs);
        let ta = *rt::deviate_of(addrs);
        j.str("udp_server.address", ua).str("tcp_server.address", ta);
        j.str("log_level", rt::deviate_of(&["Error", "Trace", "Info"]));
        let to: &[u64] = &[2, 1, 0, u32::MAX as u64, i64::MAX as u64, BIG];
        let th: &[u64] = &[2, 1, 0, 64];
        fresh(&mut j, "udp_server.port", &[5300, 53, 65535]);
        fresh(&mut j, "tcp_server.port", &[5300, 1, 65535]);
        fresh(&mut j, "udp_server.write_timeout", to);
        fresh(&mut j, "udp_server.threads", th);
        fresh(&mut j, "tcp_server.read_timeout", to);
        fresh(&mut j, "tcp_server.write_timeout", to);
        fresh(&mut j, "tcp_server.threads", th);
        match p {
            P::Ns => {
                vstd::fs::set_file("main", b"@ IN SOA ns admin 1 2 3 4 0\n@ IN NS ns\nns IN A 192.0.2.1\nwww IN A 192.0.2.77\n");
                vstd::fs::set_file("sub", b"@ IN NS ns\nns IN A 192.0.2.9\n");
                fresh(&mut j, "zone.starting_ttl", &[1000, 0, 1, u32::MAX as u64]);
                let (ttl, min) = *rt::deviate_of(&[(500, 60), (0, 0), (u32::MAX as u64, u32::MAX as u64), (1, 1)]);
                let s = sub("sub.example.", "sub", ttl, min);
                let n = rt::deviate(2);
                j.set("zone.sub_zones", if n == 0 { subs(&[s]) } else { subs(&[]) });
            }
            P::Rs => {
                let lim: &[u64] = &[5, 1, 0, u32::MAX as u64, BIG];
                for f in ["max_ns_queried", "max_ns_retries", "max_cname_redir", "cache_conf.clean_period", "cache_conf.entries_cleaned"] {
                    fresh(&mut j, &format!("resolver.{}", f), lim);
                }
                fresh(&mut j, "resolver.read_timeout", to);
                fresh(&mut j, "resolver.write_timeout", to);
                for f in ["silent", "verbose", "color"] {
                    j.set(&format!("resolver.trace_conf.{}", f), *rt::deviate_of(&[true, false]));
                }
                rt::k().net.foreign = checks::upstream::ROOTS.iter().map(|r| (*r).into()).collect();
                rt::k().net.upstream = Some(Rc::new(universal_upstream));
            }
        }
        j.store("conf");
        let text = j.text();
        let taken = load(p, "conf").is_ok();
        let prog = match p {
            P::Ns => NAMESERVER,
            P::Rs => RESOLVER,
        };
        if !taken {
            must_refuse(prog, &["conf"], &text);
        }
        let t2 = text.clone();
        rt::k().on_exit = Some(Rc::new(move |c| rt::fail("exit", format!("the program ends with status {} ({})", c, t2))));
        let t = start(prog, &["conf"]);
        rt::settle();
        let up: u16 = j.get("udp_server.port").parse().unwrap();
        let tp: u16 = j.get("tcp_server.port").parse().unwrap();
        let reach = |a: &str| match a {
            "0.0.0.0" => "10.0.0.1".to_string(),
            "::" => "fd00::1".to_string(),
            a => a.to_string(),
        };
        let v6 = |a: &str, i: usize| if a.contains(':') { sa(&format!("[fd00::9:{}]:7000", i)) } else { cl(i) };
        let ud: std::net::SocketAddr = (reach(ua).parse::<std::net::IpAddr>().unwrap(), up).into();
        let td: std::net::SocketAddr = (reach(ta).parse::<std::net::IpAddr>().unwrap(), tp).into();
        let req = |id: u16| {
            let mut m = Msg { h: Hdr { id, rd: true, ..Default::default() }, q: vec![Q { name: nm("www.example."), qtype: A, class: 1 }], ..Default::default() };
            m.fix_counts();
            encode(&m, false)
        };
        let good = |b: &[u8], id: u16| {
            let d = decode(b);
            d.msg.h.id == id && d.msg.h.qr && d.msg.h.rcode == 0 && d.msg.an().iter().any(|r| matches!(r.data, RData::A([192, 0, 2, 77])))
        };
        // a few requests one after the other, and after a client which says nothing
        let idle = Rc::new(Cell::new(None));
        for round in 0..3u16 {
            let me = v6(ua, round as usize);
            client::send_udp(me, ud, &req(100 + round));
            rt::settle();
            let got = udp_replies(me);
            if got.len() != 1 || !good(&got[0], 100 + round) {
                rt::fail("a server with an accepted configuration does not serve", format!("udp: {} replies to request {} ({})", got.len(), round, text));
            }
            let me = v6(ta, round as usize);
            let c = match client::connect(me, td) {
                Some(c) => c,
                None => rt::fail("a server with an accepted configuration does not serve", format!("tcp: connection {} refused ({})", round, text)),
            };
            client::send(c, &framed(&req(200 + round)));
            rt::settle();
            let got = unframe(&client::recv(c)).unwrap_or_default();
            if got.len() != 1 || !good(&got[0], 200 + round) {
                rt::fail("a server with an accepted configuration does not serve", format!("tcp: {} replies to request {} ({})", got.len(), round, text));
            }
            if round == 1 {
                let mut m = v6(ta, 7);
                m.set_port(7100);
                let c = client::connect(m, td);
                rt::settle();
                if let Some(c) = c {
                    client::reset(c);
                    rt::settle();
                }
                idle.set(c);
            }
        }
        if rt::is_done(t) {
            rt::fail("exit", format!("the program ended ({})", text));
        }
        for p in &rt::k().panics {
            rt::fail("panic", format!("{} ({})", p.msg, text));
        }
        rt::count("served");
        rt::sample(|| text.clone());
    });
    ck.finish()
}
