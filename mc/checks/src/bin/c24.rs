//! C24: tracing only observes.
use ariadne_dns::resolver::*;
use checks::servers::*;
use checks::upstream::*;
use checks::wire::*;
use checks::{corpus, opts, rt, Check};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mv {
    Honest,
    Silence,
    Servfail,
    Garbage,
    WrongId,
    Nx,
    Empty,
    Odd,
    Loop,
    Refer,
    ReferOne,
    Alias,
    Down,
}
use Mv::*;
const MOVES: &[Mv] = &[Honest, Servfail, Silence, Odd, Refer, Garbage, WrongId, Nx, Empty, Loop, ReferOne, Alias, Down];

/// Lookups and waits; what the servers do differently is picked in the first
/// run and repeated in the others.
#[derive(Clone, Debug)]
enum Ev {
    Look(&'static str, u16),
    Wait(u64),
}
struct Script {
    events: Vec<Ev>,
    conf: ResolverParams,
    /// the same for every query, or picked for each
    all: Option<Mv>,
}
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    replies: Vec<Vec<u8>>,
    /// when, from the start of the run; whom; the query
    asked: Vec<(u64, Ip, Labels, u16)>,
}

fn respond(t: &Tree, x: &Asked, mv: Mv, n: usize) {
    let mut m = Msg { h: Hdr { qr: true, aa: true, ..Default::default() }, q: vec![x.q.clone()], ..Default::default() };
    let q = &x.q.name;
    let rec = |o: &Labels, ttl: u32, d: RData| RR { owner: o.clone(), class: 1, ttl, data: d };
    match mv {
        Honest => m = t.respond(x.ip, &x.q),
        Silence => return,
        Servfail => m.h.rcode = 2,
        Nx => {
            m.h.rcode = 3;
            m.s[1].push(rec(q, 60, soa("ns.com.", "admin.com.", [1, 2, 3, 4, 5])));
        }
        Empty => {}
        Odd => {
            // text which a terminal would obey
            let d = match x.q.qtype {
                TXT => RData::Txt(vec![b"\x1b[31mred\x07\0".to_vec().into(), b"".to_vec().into(), b"\xff\xfe{}".to_vec().into()]),
                A => RData::A([1, 2, 3, 4]),
                MX => RData::Mx(65535, vec![]),
                _ => RData::Ns(vec![]),
            };
            m.s[0].push(rec(q, u32::MAX, d));
            m.s[2].push(rec(q, 0, RData::Hinfo("\x1b[1m".into(), "".into())));
        }
        Loop => m.s[0].push(rec(q, 5, RData::Cname(q.clone()))),
        Alias => m.s[0].push(rec(q, 5, RData::Cname(nm(&format!("t{}.b.com.", n))))),
        Refer | ReferOne => {
            m.h.aa = false;
            for i in 0..if mv == Refer { 3 } else { 1 } {
                m.s[1].push(rec(q, 300, RData::Ns(nm(&format!("n{}.z{}.net.", n, i)))));
            }
        }
        // one label closer, with an address
        Down => {
            m.h.aa = false;
            let k = (n + 1).min(q.len());
            let o = q[q.len() - k..].to_vec();
            m.s[1].push(rec(&o, 300, RData::Ns(o.clone())));
            m.s[2].push(rec(&o, 300, RData::A([10, 77, 0, 1])));
        }
        Garbage | WrongId => m = t.respond(x.ip, &x.q),
    }
    let mut b = datagram(m, x.id);
    match mv {
        Garbage => b.truncate(b.len() - 2),
        WrongId => b[0] ^= 1,
        _ => {}
    }
    x.reply(&b)
}

fn play_it(t: Rc<Tree>, s: &Script, trace: TraceParams, moves: Rc<RefCell<Vec<Mv>>>, record: bool) -> (Seen, Vec<(Vec<String>, Log)>) {
    let t0 = rt::now();
    let k = Cell::new(0);
    let all = s.all;
    let log = play(move |x| {
        let i = k.get();
        k.set(i + 1);
        let mv = match all {
            Some(mv) => mv,
            None => {
                let mut v = moves.borrow_mut();
                if i >= v.len() {
                    if !record {
                        rt::fail("tracing changes the upstream traffic", format!("more than {} queries, the next for {}", v.len(), txt(&x.q.name)));
                    }
                    v.push(MOVES[rt::fault(MOVES.len())]);
                }
                v[i]
            }
        };
        respond(&t, x, mv, i);
    });
    let (_cache, rs) = rsv(s.conf.clone(), trace);
    let h = ResolverHandler(rs);
    let mut seen = Seen { replies: vec![], asked: vec![] };
    let mut per = vec![];
    rt::k().capture_logs = true;
    log::set_max_level(log::LevelFilter::Info);
    for e in &s.events {
        match e {
            Ev::Wait(n) => rt::sleep(Duration::from_secs(*n)),
            Ev::Look(n, ty) => {
                let from = log.borrow().len();
                rt::k().logs.clear();
                let v = checks::zones::ask(&h, &query_l(0x4321, &nm(n), *ty));
                seen.replies.extend(v.iter().map(|x| x.0.clone()));
                seen.replies.push(vec![]);
                let lines: Vec<String> = rt::k().logs.iter().map(|l| l.1.clone()).collect();
                let mine: Log = Rc::new(RefCell::new(log.borrow()[from..].to_vec()));
                per.push((lines, mine));
            }
        }
    }
    for x in log.borrow().iter() {
        seen.asked.push((x.at - t0, x.ip, x.q.name.clone(), x.q.qtype));
    }
    (seen, per)
}

fn settings() -> Vec<TraceParams> {
    let mut v = vec![];
    for silent in [true, false] {
        for verbose in [false, true] {
            for color in [false, true] {
                v.push(TraceParams { silent, verbose, color });
            }
        }
    }
    v
}
fn run(t: &Rc<Tree>, s: Script) {
    let moves: Rc<RefCell<Vec<Mv>>> = Default::default();
    rt::k().rng_const = Some(99);
    let story = |m: &Rc<RefCell<Vec<Mv>>>| format!("{:?} with {:?}, servers: {:?}{:?}", s.events, (s.conf.max_ns_queried, s.conf.max_upd_retries, s.conf.max_cname_redir), s.all.map_or(vec![], |x| vec![x]), m.borrow());
    let mut first: Option<Seen> = None;
    // what is logged with silenced traces
    let mut plain: Vec<Vec<String>> = vec![];
    for (i, tr) in settings().into_iter().enumerate() {
        let (seen, per) = play_it(t.clone(), &s, tr.clone(), moves.clone(), i == 0);
        match &first {
            None => first = Some(seen),
            Some(f) if f.replies != seen.replies => rt::fail("tracing changes the reply", format!("{:?}: {:02x?} instead of {:02x?}; {}", tr, seen.replies, f.replies, story(&moves))),
            Some(f) if f.asked != seen.asked => rt::fail("tracing changes the upstream traffic", format!("{:?}: {:?} instead of {:?}; {}", tr, seen.asked, f.asked, story(&moves))),
            _ => {}
        }
        if i == 0 {
            plain = per.iter().map(|p| p.0.clone()).collect();
        }
        for ((lines, log), plain) in per.iter().zip(&plain) {
            if tr.silent {
                if lines != plain {
                    rt::fail("a silenced trace is printed", format!("{:?} instead of {:?}; {}", lines, plain, story(&moves)));
                }
                continue;
            }
            let l = &lines.iter().filter(|l| !plain.contains(l)).cloned().collect::<Vec<_>>().join("\n");
            if l.is_empty() {
                rt::fail("a lookup is not traced", format!("{:?}; {}", tr, story(&moves)));
            }
            if l.contains('\x1b') && !tr.color {
                rt::fail("escape sequences although colours are disabled", format!("{:?}: {:?}; {}", tr, l.lines().find(|x| x.contains('\x1b')), story(&moves)));
            }
            let lower: Vec<String> = l.to_lowercase().lines().map(|x| x.to_string()).collect();
            for x in log.borrow().iter() {
                let n = txt(&x.q.name).to_lowercase();
                let ty = type_name(x.q.qtype).to_lowercase();
                let servers = names_of(t, x.ip);
                let ok = lower.iter().any(|l| l.contains(&n) && l.contains(&ty) && (servers.is_empty() || servers.iter().any(|s| l.contains(s))));
                if !ok {
                    rt::fail("an upstream query is not in the trace", format!("{} {} to {:?} {:?}; {}; {}", n, ty, servers, x.ip, story(&moves), l));
                }
            }
        }
    }
    let f = first.unwrap();
    rt::count(match f.asked.len() {
        0..=3 => "up to 3 queries",
        4..=9 => "up to 9 queries",
        _ => "10 queries and more",
    });
    rt::sample(|| format!("{} -> {} queries", story(&moves), f.asked.len()));
}
/// What the machine at `ip` is called in the tree.
fn names_of(t: &Tree, ip: Ip) -> Vec<String> {
    if let Some(i) = ROOTS.iter().position(|r| *r == ip) {
        return vec![format!("{}.root-servers.net.", (b'a' + i as u8) as char)];
    }
    t.zones.iter().flat_map(|z| z.recs.iter()).filter(|r| r.data == RData::A(ip)).map(|r| txt(&r.owner).to_lowercase()).collect()
}

/// The library's own interface: what is recorded.
fn direct(t: &Rc<Tree>, name: &str, ty: u16, mv: Mv) {
    let t2 = t.clone();
    let n = Cell::new(0);
    let log = play(move |x| {
        n.set(n.get() + 1);
        respond(&t2, x, mv, n.get() - 1)
    });
    for tr in settings() {
        log.borrow_mut().clear();
        let (_c, rs) = rsv(conf(2, 1), tr.clone());
        let (_res, trace) = rs.new_lookup(&to_name(&nm(name)), rtype_of(ty)).perform();
        let (a, b) = (format!("{}", trace), format!("{:?}", trace));
        if trace.is_empty() != tr.silent {
            rt::fail(if tr.silent { "a silenced trace is not empty" } else { "a lookup is not traced" }, format!("{} {} with {:?}: {}", name, type_name(ty), tr, a));
        }
        if a.contains('\x1b') && (!tr.color || tr.silent) || b.contains('\x1b') && !tr.color {
            rt::fail("escape sequences although colours are disabled", format!("{:?}: {:?}", tr, a));
        }
        rt::sample(|| format!("{} {} {:?} {:?}: {} queries, {} characters", name, type_name(ty), mv, tr, log.borrow().len(), a.len()));
    }
}
fn conf(ns: usize, tries: usize) -> ResolverParams {
    ResolverParams { max_ns_queried: ns, max_upd_retries: tries, max_cname_redir: 4, read_timeout: Duration::from_secs(1), write_timeout: Duration::from_secs(1), no_follow_cname: false }
}
const NAMES: &[(&str, u16)] = &[
    ("www.a.com.", A),
    ("long.a.com.", A),
    ("www.c.com.", A),
    ("ns1.a.com.", A),
    ("www.d.net.", TXT),
    ("nx.a.com.", A),
    ("loop.a.com.", A),
    ("a.com.", MX),
    ("x.y.z.sub.a.com.", A),
    ("www.e.com.", A),
    ("com.", NS),
    (".", NS),
];

fn main() {
    let mut ck = Check::start("C24");
    let th = ck.thorough();
    ck.assume("upstream query ids are the same in all runs which are compared");
    // what a terminal would get
    colored::control::set_override(true);
    std::env::set_var("CLICOLOR_FORCE", "1");
    let t2 = || Rc::new(world(3600, None, None));
    // answers with nameservers and addresses beside them
    let rich = |on: bool| {
        let mut t = world(3600, None, None);
        t.chase = on;
        t.extras = on;
        t.hints = on;
        // nameservers with several addresses, names with several records
        for z in &mut t.zones {
            if txt(&z.apex) == "a.com." && on {
                z.recs.push(rr("ns1.a.com.", 3600, a([10, 2, 0, 21])));
                z.recs.push(rr("ns1.a.com.", 3600, a([10, 2, 0, 22])));
                z.recs.push(rr("ns3.a.com.", 3600, a([10, 2, 0, 23])));
            }
        }
        Rc::new(t.link())
    };
    ck.rt("one lookup, one behaviour of all servers", opts(), move || {
        let (n, ty) = *rt::pick_of(NAMES);
        let mv = *rt::pick_of(MOVES);
        let c = *rt::pick_of(&[(1, 1, 1), (2, 1, 4), (3, 3, 10), (2, 2, 2)]);
        let mut cf = conf(c.0, c.1);
        cf.max_cname_redir = c.2;
        run(&rich(rt::pick_bool()), Script { events: vec![Ev::Look(n, ty)], conf: cf, all: Some(mv) });
    });
    ck.rt("one lookup, deviations of the servers", opts().fault(ck.by(2, 3)).cap(ck.by(100.0, 1500.0)), move || {
        let (n, ty) = *rt::pick_of(if th { NAMES } else { &NAMES[..7] });
        let c = *rt::pick_of(&[(2, 1), (1, 2)]);
        run(&t2(), Script { events: vec![Ev::Look(n, ty)], conf: conf(c.0, c.1), all: None });
    });
    ck.rt("histories", opts().fault(ck.by(1, 2)).cap(ck.by(100.0, 1500.0)), move || {
        let k = if th { NAMES.len() } else { 8 };
        let (a, ta) = NAMES[rt::pick(k)];
        let (b, tb) = NAMES[rt::pick(k)];
        let w = *rt::pick_of(&[0, 1, 3599, 3600, 4000]);
        run(&rich(true), Script { events: vec![Ev::Look(a, ta), Ev::Wait(w), Ev::Look(b, tb)], conf: conf(2, 1), all: None });
    });
    ck.rt("long ways", opts(), move || {
        let k = *rt::pick_of(&[3, 10, 20, 45, 75]);
        let (mut t, apex) = chain(k, 3600, if k > 45 { "" } else { "z" });
        t.extras = rt::pick_bool();
        t.hints = t.extras;
        let names = [format!("www.{}", apex), format!("al.{}", apex), format!("up.{}", apex), format!("nx.{}", apex)];
        let (i, j) = (rt::pick(4), rt::pick(4));
        let leak = |s: &String| -> &'static str { Box::leak(s.clone().into_boxed_str()) };
        run(&Rc::new(t), Script { events: vec![Ev::Look(leak(&names[i]), A), Ev::Look(leak(&names[j]), A)], conf: conf(2, 1), all: None });
    });
    let texts = corpus::texts(&ck.by(vec![0, 1, 2, 10, 31, 50, 64, 100, 128, 200, 255], (0..256).collect()));
    ck.rt("texts", opts(), move || {
        let s = rt::pick_of(&texts);
        let mut t = Tree::new();
        t.text(".", 3600, "@ NS a.root-servers.net.");
        let z = t.text("com.", 3600, "@ NS ns.com.\nns A 10.1.0.1");
        let (ty, d) = if rt::pick_bool() { (TXT, txts(&["y", s])) } else { (HINFO, RData::Hinfo(b"cpu".to_vec(), s.as_bytes().to_vec())) };
        z.recs.push(rr("t.com.", 3600, d));
        run(&Rc::new(t.link()), Script { events: vec![Ev::Look("t.com.", ty), Ev::Look("t.com.", ty)], conf: conf(2, 1), all: Some(Honest) });
    });
    ck.rt("long names", opts(), move || {
        let l = 5 + rt::pick(250);
        let k = 1 + rt::pick(3);
        let mut n = vec![];
        // labels of 63 characters, or of one, or of two
        let mut left = l - 5;
        while left > 1 {
            let m = [63, 1, 2][k - 1].min(left - 1);
            n.push(vec![b'n'; m]);
            left -= m + 1;
        }
        n.extend(nm("com."));
        let mut t = Tree::new();
        t.text(".", 3600, "@ NS a.root-servers.net.");
        let z = t.text("com.", 3600, "@ NS ns.com.\nns A 10.1.0.1");
        z.recs.push(RR { owner: n.clone(), class: 1, ttl: 3600, data: RData::A([10, 9, 0, 1]) });
        let leak: &'static str = Box::leak(txt(&n).into_boxed_str());
        run(&Rc::new(t.link()), Script { events: vec![Ev::Look(leak, A), Ev::Look(leak, MX)], conf: conf(2, 1), all: Some(Honest) });
    });
    ck.rt("what is recorded", opts(), move || {
        let (n, ty) = *rt::pick_of(NAMES);
        direct(&rich(rt::pick_bool()), n, ty, *rt::pick_of(MOVES));
    });
    ck.finish()
}
