//! C30: logging only observes: at every log level, with every setting of the
//! lookup trace, the programs do the same.
//!
//! Every execution runs the real program twice, one after the other, through
//! the same history: first with all logging switched off, then as configured.
//! Everything that can be seen from outside must be the same, to the nanosecond.
use checks::conf::{self, must_refuse, start, sub, subs, Json, Program, NAMESERVER, RESOLVER};
use checks::servers::{cl, framed, sa, universal_upstream};
use checks::upstream::*;
use checks::wire::*;
use checks::{corpus, opts, rt, Check};
use std::cell::Cell;
use std::rc::Rc;
use vstd::net::{client, Action, ConnId, Op};

const SEC: u64 = 1_000_000_000;
const LEVELS: [&str; 5] = ["Error", "Warn", "Info", "Debug", "Trace"];

const MAIN: &[u8] = b"@ IN SOA ns admin 1 2 3 4 0\n@ IN NS ns\nns IN A 192.0.2.1\nwww IN A 192.0.2.77\nalias IN CNAME www\n\
txt IN TXT \"some text\"\nbig IN TXT \"0xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\"\n\
big IN TXT \"1xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\"\n\
big IN TXT \"2xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\"\n";
const SUB: &[u8] = b"@ IN NS ns\nns IN A 192.0.2.9\n";

#[derive(Clone, Debug, PartialEq)]
enum After {
    Nothing,
    HalfClose,
    Close,
    Reset,
}
#[derive(Clone, Debug)]
enum Ev {
    Udp(Vec<u8>),
    Tcp(Vec<u8>, Option<usize>, After),
    Wait(u64),
}

fn show_ev(e: &Ev) -> String {
    match e {
        Ev::Udp(b) => format!("UDP {}", hex(b)),
        Ev::Tcp(b, w, a) => format!("TCP {} window {:?} then {:?}", hex(b), w, a),
        Ev::Wait(s) => format!("{} s", s),
    }
}

/// The settings which only concern what is logged.
fn level(p: Program, j: &mut Json) -> String {
    let l = *rt::pick_of(&LEVELS);
    j.str("log_level", l);
    if p == NAMESERVER {
        return l.into();
    }
    let t = *rt::pick_of(&["silent", "short", "verbose", "verbose colored"]);
    j.set("resolver.trace_conf.silent", t == "silent").set("resolver.trace_conf.verbose", t.starts_with("verbose")).set("resolver.trace_conf.color", t.ends_with("colored"));
    format!("{}, {}", l, t)
}
fn base(p: Program) -> Json {
    let mut j = if p == NAMESERVER { conf::nameserver() } else { conf::resolver() };
    j.set("udp_server.threads", 1).set("tcp_server.threads", 1);
    if p == NAMESERVER {
        vstd::fs::set_file("main", MAIN);
        vstd::fs::set_file("sub", SUB);
        j.set("zone.sub_zones", subs(&[sub("sub.example.", "sub", 1013, 19)]));
    } else {
        j.set("resolver.max_ns_queried", 2).set("resolver.max_ns_retries", 2);
        rt::k().net.foreign = ROOTS.iter().map(|r| (*r).into()).collect();
    }
    j
}

type Obs = Vec<(u64, String)>;

/// Run the program and the history; tell what could be seen.
/// `arm` is called when the program is ready.
fn observe(p: Program, j: &Json, port: u16, off: bool, evs: &[Ev], arm: &dyn Fn()) -> Obs {
    let mut j = j.clone();
    j.set("udp_server.port", port).set("tcp_server.port", port);
    j.store("conf");
    rt::k().rng_const = Some(0x1234_5678_9abc_def1);
    let what = j.text();
    rt::k().on_exit = Some(Rc::new(move |c| {
        if off {
            rt::prune()
        }
        rt::fail("exit", format!("the program ends with status {} ({})", c, what))
    }));
    let panics = rt::k().panics.len();
    let t = start(p, &["conf"]);
    rt::settle();
    if off {
        log::set_max_level(log::LevelFilter::Off);
    }
    let to = sa(&format!("127.0.0.1:{}", port));
    let t0 = rt::now();
    let mut obs: Obs = vec![];
    rt::k().net.sent.clear();
    arm();
    let mut conns: Vec<(usize, ConnId, (usize, bool))> = vec![];
    let look = |conns: &mut Vec<(usize, ConnId, (usize, bool))>, obs: &mut Obs| {
        for c in conns.iter_mut() {
            // what a client with a small window has not room for shows later
            let b = client::peek(c.1);
            let now = (b.len(), client::server_closed(c.1));
            if now != c.2 {
                c.2 = now;
                obs.push((rt::now() - t0, format!("TCP {}: {}{}", c.0, hex(&b), if now.1 { " closed" } else { "" })));
            }
        }
    };
    for (i, e) in evs.iter().enumerate() {
        match e {
            Ev::Udp(b) => {
                client::send_udp(cl(i), to, b);
            }
            Ev::Tcp(b, w, a) => match client::connect(cl(i), to) {
                None => obs.push((rt::now() - t0, "refused".into())),
                Some(c) => {
                    if let Some(w) = w {
                        client::set_window(c, *w);
                    }
                    client::send(c, b);
                    match a {
                        After::Nothing => {}
                        After::HalfClose => client::half_close(c),
                        After::Close => client::close(c),
                        After::Reset => client::reset(c),
                    }
                    conns.push((i, c, (0, false)));
                }
            },
            Ev::Wait(s) => rt::sleep_ns(s * SEC),
        }
        rt::settle();
        look(&mut conns, &mut obs);
    }
    for _ in 0..24 {
        rt::sleep_ns(SEC / 2);
        rt::settle();
        look(&mut conns, &mut obs);
    }
    for d in &rt::k().net.sent {
        let from = if d.from.port() == port { "server" } else { "client" };
        obs.push((d.at - t0, format!("{} -> {}: {}", from, d.to, hex(&d.data))));
    }
    rt::k().net.sent.clear();
    if rt::is_done(t) {
        obs.push((rt::now() - t0, "the program ended".into()));
    }
    for x in &rt::k().panics[panics..] {
        obs.push((0, format!("panic: {} at {}", x.msg, x.loc)));
    }
    obs
}

/// Both runs; `arm` is called before each.
fn both(p: Program, j: &Json, evs: &[Ev], arm: &dyn Fn()) {
    let quiet = {
        let mut q = j.clone();
        q.str("log_level", "Error");
        if p == RESOLVER {
            q.set("resolver.trace_conf.silent", true);
        }
        observe(p, &q, 5300, true, evs, arm)
    };
    rt::k().net.fault = None;
    // nothing of the first run may be going on
    rt::sleep_ns(60 * SEC);
    rt::settle();
    let loud = observe(p, j, 5301, false, evs, arm);
    rt::count(j.get("log_level"));
    if quiet != loud {
        let i = quiet.iter().zip(&loud).take_while(|x| x.0 == x.1).count();
        let sig = loud.get(i).or(quiet.get(i)).map_or("", |x| x.1.split(&[':', ' '][..]).next().unwrap_or("")).to_string();
        let at = |o: &Obs| o.get(i).map_or("nothing".into(), |x| format!("{} after {} ns", x.1, x.0));
        let evs: Vec<String> = evs.iter().map(show_ev).collect();
        rt::fail(&format!("logging matters ({})", sig), format!("{:?} {:?} with {}: {}; without logging: {}", p, evs, j.text(), at(&loud), at(&quiet)));
    }
    rt::sample(|| {
        let e: Vec<String> = evs.iter().map(show_ev).collect();
        format!("{:?} {}: {} observations", e, j.get("log_level"), loud.len())
    });
}

fn with_flags(mut b: Vec<u8>, f: u16) -> Vec<u8> {
    b[2] = (f >> 8) as u8;
    b[3] = f as u8;
    b
}
fn with_counts(mut b: Vec<u8>, c: [u16; 4]) -> Vec<u8> {
    for i in 0..4 {
        b[4 + 2 * i..6 + 2 * i].copy_from_slice(&c[i].to_be_bytes());
    }
    b
}
/// Requests of every kind.
fn requests() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for (i, n) in ["www.example.", "nx.example.", "alias.example.", "sub.example.", "x.sub.example.", "other.", ".", "big.example.", "silent.example.", "fail.example."].iter().enumerate() {
        for t in [A, NS, CNAME, SOA, TXT, 28, 255] {
            for f in [0, 0x0100] {
                v.push(with_flags(query(i as u16 * 0x1111, n, t), f));
            }
        }
    }
    let q = query(0x1234, "www.example.", A);
    v.extend((0..q.len() + 2).map(|n| {
        let mut b = q.clone();
        b.resize(n, 0);
        b
    }));
    for f in [0x8000, 0x0800, 0x1000, 0x1800, 0x7800, 0x0400, 0x0200, 0x0080, 0x0070, 0x0003, 0x000f, 0xffff] {
        v.push(with_flags(q.clone(), f));
    }
    for c in [[0, 0, 0, 0], [2, 0, 0, 0], [1, 1, 0, 0], [1, 0, 1, 0], [1, 0, 0, 1], [65535, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [1, 0, 0, 65535]] {
        v.push(with_counts(q.clone(), c));
    }
    let mut none = q[..12].to_vec();
    none[5] = 0;
    v.push(none);
    for (t, c) in [(1u16, 3u16), (1, 255), (41, 1), (65280, 1), (250, 1), (3, 1), (33, 1), (0, 0)] {
        let mut b = query(3, "www.example.", t);
        let l = b.len();
        b[l - 2..].copy_from_slice(&c.to_be_bytes());
        v.push(b);
    }
    // names which are none
    for name in [&b"\xc0\x0c"[..], b"\xc0\xff", b"\x40a\0", b"\x80a\0", b"\x01\xff\0", b"\x01.\0", b"\x01-\0", b"\x03a b\0", b"\x04\xf0\x9f\x98\x80\0", b"\x3f", b"\x02\xc3\xa9\0", b"\x01%\0", b"\x02{}\0"] {
        let mut b = q[..12].to_vec();
        b.extend_from_slice(name);
        b.extend_from_slice(&[0, 1, 0, 1]);
        v.push(b);
    }
    let mut m = Msg { h: Hdr { id: 8, rd: true, ..Default::default() }, ..Default::default() };
    m.q.push(corpus::q("www.example.", A));
    m.s[2].push(RR { owner: nm("."), class: 1232, ttl: 0, data: RData::Other(41, vec![]) });
    m.fix_counts();
    v.push(encode(&m, true));
    m.s[2][0] = rr("www.example.", 5, a([1, 2, 3, 4]));
    v.push(encode(&m, true));
    m.s[0].push(rr("www.example.", 5, txts(&["{}", "%s", "\u{7f}"])));
    m.fix_counts();
    v.push(encode(&m, true));
    let long = Q { name: corpus::name_of_len(255), qtype: TXT, class: 1 };
    m.s = Default::default();
    m.q = vec![long];
    m.fix_counts();
    v.push(encode(&m, true));
    // more than a datagram may carry
    let mut big = query(9, "www.example.", A);
    big.resize(700, 7);
    v.push(big);
    v.extend(corpus::large());
    v
}

/// What may happen to an upstream query.
const DEEDS: [&str; 14] = ["answer", "silence", "server failure", "name error", "garbage", "no bytes", "wrong id", "cut", "refused", "empty", "late", "twice", "lame", "odd records"];
fn deed(t: &Tree, x: &Asked, d: &str) {
    let good = || t.respond(x.ip, &x.q);
    let mut plain = Msg { h: Hdr { id: x.id, qr: true, ..Default::default() }, q: vec![x.q.clone()], ..Default::default() };
    match d {
        "silence" => {}
        "server failure" | "name error" | "refused" => {
            plain.h.rcode = match d {
                "refused" => 5,
                "name error" => 3,
                _ => 2,
            };
            x.reply(&datagram(plain, x.id));
        }
        "garbage" => x.reply(&[0xff; 40]),
        "no bytes" => x.reply(&[]),
        "wrong id" => x.reply(&datagram(good(), x.id ^ 1)),
        "cut" => {
            let b = datagram(good(), x.id);
            x.reply(&b[..b.len() - 3]);
        }
        "empty" => x.reply(&datagram(plain, x.id)),
        "late" => x.reply_later(3 * SEC, datagram(good(), x.id)),
        "twice" => {
            x.reply(&datagram(good(), x.id));
            x.reply(&datagram(good(), x.id));
        }
        "lame" => {
            plain.s[1].push(rr(".", 60, ns("a.nic.net.")));
            plain.fix_counts();
            x.reply(&datagram(plain, x.id));
        }
        "odd records" => {
            let mut m = good();
            m.s[2].push(rr("x.", 60, txts(&["", "{} %s \u{1b}[31m"])));
            m.s[2].push(rr("y.", 0, RData::Wks([1, 2, 3, 4], 6, vec![0, 65535])));
            m.s[2].push(rr("z.", 60, RData::Hinfo(b"cpu".to_vec(), b"".to_vec())));
            m.s[2].push(RR { owner: nm("."), class: 1232, ttl: 0, data: RData::Other(41, vec![1, 2]) });
            m.fix_counts();
            x.reply(&datagram(m, x.id));
        }
        _ => x.reply(&datagram(good(), x.id)),
    }
}

fn either() -> (Program, Json) {
    let p = if rt::pick_bool() { RESOLVER } else { NAMESERVER };
    if p == RESOLVER {
        rt::k().net.upstream = Some(Rc::new(universal_upstream));
    }
    (p, base(p))
}
fn send(b: &[u8], udp: bool) -> Ev {
    if udp {
        Ev::Udp(b.to_vec())
    } else {
        Ev::Tcp(framed(b), None, After::Nothing)
    }
}

fn main() {
    let mut ck = Check::start("C30");
    let th = ck.thorough();
    ck.assume("what is written to the log is not judged here, only that writing it changes nothing");
    let reqs = requests();
    let few: Vec<Vec<u8>> = vec![query(1, "www.example.", A), query(2, "nx.example.", A), query(3, "silent.example.", A), query(4, "alias.example.", A), with_flags(query(5, "www.example.", A), 0x1000), query(6, "www.example.", A)[..20].to_vec()];

    ck.rt("requests", opts().steps(500_000), || {
        let (p, mut j) = either();
        level(p, &mut j);
        let b = rt::pick_of(&reqs);
        let udp = rt::pick_bool();
        let mut evs = vec![send(b, udp)];
        match rt::pick(if th { few.len() + 1 } else { 2 }) {
            0 => evs.push(send(&few[0], true)),
            i => evs.push(send(&few[i - 1], !udp)),
        }
        both(p, &j, &evs, &|| {});
    });

    let (n, m) = ck.by((2, 3), (3, 4));
    ck.rt("several requests", opts().steps(1_000_000), || {
        let (p, mut j) = either();
        level(p, &mut j);
        j.set("udp_server.threads", *rt::pick_of(&[1, 2]));
        let k = 1 + rt::pick(m);
        let mut evs = vec![];
        for i in 0..k {
            if i > 0 && rt::pick_bool() {
                evs.push(Ev::Wait(*rt::pick_of(&[1, 61])));
            }
            let b = rt::pick_of(if i < n { &few[..] } else { &few[..1] });
            evs.push(send(b, (i + k) % 2 == 0));
        }
        both(p, &j, &evs, &|| {});
    });

    ck.rt("clients", opts().steps(500_000), || {
        let (p, mut j) = either();
        level(p, &mut j);
        let b = framed(rt::pick_of(&few));
        let cut = match rt::pick(6) {
            5 => b.len(),
            i => [0, 1, 2, 3, b.len() - 1][i],
        };
        let w = *rt::pick_of(&[None, Some(0), Some(1), Some(20)]);
        let a = rt::pick_of(&[After::Nothing, After::HalfClose, After::Close, After::Reset]).clone();
        let evs = vec![Ev::Tcp(b[..cut].to_vec(), w, a), send(&few[0], false), send(&few[0], true)];
        both(p, &j, &evs, &|| {});
    });

    let names: Vec<(&str, u16)> = vec![("www.a.com.", A), ("nx.a.com.", A), ("out.a.com.", A), ("www.c.com.", A), ("loop.a.com.", A), ("www.sub.a.com.", A), ("d.net.", NS), ("www.d.net.", TXT), ("www.e.com.", A), ("a.com.", MX), ("org.", SOA)];
    let t = Rc::new(world(60, None, None));
    let deep = ck.by(2, 3);
    ck.rt("upstream servers", opts().steps(1_000_000).cap(ck.by(80.0, 1500.0)), || {
        let mut j = base(RESOLVER);
        level(RESOLVER, &mut j);
        let (n, ty) = *rt::pick_of(&names);
        // what happens to the first queries, and to all others
        let from = rt::pick(if th { 6 } else { 4 });
        let deeds: Vec<&str> = (0..deep).map(|i| if i == 0 || th { DEEDS[rt::pick(DEEDS.len())] } else { *rt::pick_of(&["answer", "silence", "garbage"]) }).collect();
        let rest = *rt::pick_of(&["answer", "silence"]);
        let asked = Rc::new(Cell::new(0));
        let (t2, a2) = (t.clone(), asked.clone());
        play(move |x| {
            let i = a2.get();
            a2.set(i + 1);
            let d = if i < from {
                "answer"
            } else if i - from < deeds.len() {
                deeds[i - from]
            } else {
                rest
            };
            deed(&t2, x, d);
        });
        let q = with_flags(query(0x4321, n, ty), 0x0100);
        both(RESOLVER, &j, &[Ev::Udp(q.clone()), Ev::Wait(2), Ev::Udp(q)], &|| asked.set(0));
    });

    // what a nameserver sends is written out, whatever it is
    let texts = corpus::texts(&ck.by(vec![0, 1, 9, 10, 31, 50, 100, 255], (0..256).collect()));
    ck.rt("texts", opts().steps(500_000), || {
        let mut j = base(RESOLVER);
        level(RESOLVER, &mut j);
        let s = rt::pick_of(&texts).clone();
        let kind = rt::pick(3);
        play(move |x| {
            let mut m = Msg { h: Hdr { id: x.id, qr: true, aa: true, ..Default::default() }, q: vec![x.q.clone()], ..Default::default() };
            let data = if kind == 1 { RData::Hinfo(s.as_bytes().to_vec(), b"os".to_vec()) } else { txts(&[&s, "y"]) };
            let owner = if kind == 2 { nm("other.com.") } else { x.q.name.clone() };
            m.s[(kind == 2) as usize * 2].push(RR { owner, class: 1, ttl: 60, data });
            m.fix_counts();
            x.reply(&encode(&m, true));
        });
        let q = query(0x4321, "x.com.", if kind == 1 { HINFO } else { TXT });
        both(RESOLVER, &j, &[Ev::Udp(q.clone()), Ev::Udp(q)], &|| {});
    });
    let lens: Vec<usize> = ck.by(vec![1, 2, 3, 62, 63, 64, 65, 100, 126, 127, 128, 129, 190, 200, 240, 253, 254, 255], (1..256).collect());
    ck.rt("long names", opts().steps(500_000), || {
        let (p, mut j) = either();
        level(p, &mut j);
        let mut n = corpus::name_of_len(*rt::pick_of(&lens));
        if p == NAMESERVER && rt::pick_bool() {
            // below the zone or a subzone
            n.truncate(n.len().saturating_sub(3));
            n.extend(nm(*rt::pick_of(&["example.", "sub.example."])));
        }
        let q = query_l(0x4321, &n, *rt::pick_of(&[A, NS, SOA]));
        both(p, &j, &[Ev::Udp(q)], &|| {});
    });

    // many steps, deeply nested ones
    let lengths: Vec<usize> = ck.by(vec![1, 2, 4, 7, 8, 9, 12, 14, 15, 16, 17, 20], (1..40).collect());
    ck.rt("long lookups", opts().steps(3_000_000).cap(ck.by(60.0, 1000.0)), || {
        let mut j = base(RESOLVER);
        level(RESOLVER, &mut j);
        j.set("resolver.max_ns_queried", 3).set("resolver.max_cname_redir", 50);
        let n = *rt::pick_of(&lengths);
        let mut t = Tree::new();
        t.text(".", 3600, "@ NS a.root-servers.net.");
        let mut q = query(0x4321, "www.z0.com.", A);
        let mut bad = false;
        match rt::pick(4) {
            // zones whose nameservers are in the next one
            0 => {
                t.strict_glue = true;
                t.text("com.", 3600, "@ NS ns.com.\nns A 10.1.0.1");
                for i in 0..n {
                    let at = if i + 1 < n { i + 1 } else { i };
                    t.text(&format!("z{}.com.", i), 3600, &format!("@ NS ns.z{}.com.\nns A 10.3.0.{}\nwww A 192.0.2.1", at, (i + 1).min(n - 1) + 1));
                }
            }
            // zones below each other
            1 => {
                let (t2, apex) = chain(n, 3600, "z");
                t = t2;
                q = query(0x4321, &format!("www.{}", apex), A);
            }
            // aliases, with and without a nameserver which fails
            k => {
                bad = k == 3;
                let mut s = "@ NS ns.com.\n@ NS ns2.com.\nns A 10.1.0.1\nns2 A 10.1.0.2\n".to_string();
                for i in 0..n {
                    s += &format!("n{} CNAME n{}.com.\n", i, i + 1);
                }
                s += &format!("n{} A 192.0.2.77", n);
                t.text("com.", 3600, &s);
                q = query(0x4321, "n0.com.", A);
            }
        }
        let t = Rc::new(t.link());
        play(move |x| if bad && x.ip == [10, 1, 0, 1] { deed(&t, x, "server failure") } else { x.reply(&datagram(t.respond(x.ip, &x.q), x.id)) });
        q = with_flags(q, 0x0100);
        both(RESOLVER, &j, &[Ev::Udp(q.clone()), Ev::Wait(1), Ev::Udp(q)], &|| {});
    });

    // the memory which is given back is all that tells
    ck.rt("cleaning of the cache", opts().steps(1_000_000), || {
        let mut j = base(RESOLVER);
        level(RESOLVER, &mut j);
        rt::k().net.upstream = Some(Rc::new(universal_upstream));
        j.set("resolver.cache_conf.clean_period", 70);
        j.store("conf");
        let t = start(RESOLVER, &["conf"]);
        rt::settle();
        let live = || vstd::alloc_guard::LIVE.load(std::sync::atomic::Ordering::Relaxed);
        for round in 0..3 {
            let n = 100;
            for i in 0..n {
                client::send_udp(cl(0), sa("127.0.0.1:5300"), &query(i, &format!("h{}.n{}.example.", round, i), A));
                rt::settle();
            }
            rt::k().net.sent.clear();
            let full = live();
            rt::sleep_ns(70 * SEC);
            rt::settle();
            let given = full as i64 - live() as i64;
            rt::sample(|| format!("{}: {} bytes given back", j.get("log_level"), given));
            if given < 10_000 || rt::is_done(t) {
                rt::fail("logging matters (cache)", format!("with {}: {} bytes are given back when the entries of {} names are expired", j.text(), given, n));
            }
        }
        rt::count(j.get("log_level"));
    });

    ck.rt("failing calls", opts().steps(500_000), || {
        let (p, mut j) = either();
        level(p, &mut j);
        let kind = rt::pick(12);
        let at = rt::pick(if th { 8 } else { 5 });
        let err = *rt::pick_of(&[5, 11, 32, 104]); // EIO, EAGAIN, EPIPE, ECONNRESET
        let udp = rt::pick_bool();
        let evs = vec![send(&few[rt::pick(2) * 3], udp), send(&few[0], !udp), send(&few[0], udp)];
        both(p, &j, &evs, &|| {
            let n = Cell::new(0);
            rt::k().net.fault = Some(Rc::new(move |op| {
                let k = match op {
                    Op::UdpBind(_) => 0,
                    Op::UdpSend(..) => 1,
                    Op::UdpRecv(_) => 2,
                    Op::UdpClone(_) => 3,
                    Op::UdpConnect(..) => 4,
                    Op::SetTimeout => 5,
                    Op::ConnTimeout(_) => 6,
                    Op::Listen(_) => 7,
                    Op::Accept(_) => 8,
                    Op::Read(..) => 9,
                    Op::Write(..) => 10,
                    _ => 11,
                };
                if k != kind {
                    return None;
                }
                n.set(n.get() + 1);
                (n.get() == at + 1).then(|| Action::Err(std::io::Error::from_raw_os_error(err)))
            }));
        });
    });

    // what the zone file is made of
    let lines: Vec<&str> = vec![
        "x IN A 192.0.2.5",
        "x 5 IN CNAME www.example.",
        "x IN TXT \"{} %s\" \"\" \"a\\\"b\"",
        "x IN HINFO \"cpu\" \"os\"",
        "x IN MX 10 mail",
        "x IN PTR host.",
        "x IN WKS 192.0.2.5 6 0 25 65535",
        "x IN MB m\nx IN MG m\nx IN MR m\nx IN MINFO m m",
        "; no null",
        "$INCLUDE inc",
        "$INCLUDE inc other",
        "$ORIGIN other\nx A 192.0.2.6",
        "x IN ( A\n 192.0.2.5 ) ; comment {}",
        "",
        "; only a comment",
    ];
    ck.rt("zone files", opts().steps(500_000), || {
        let mut j = base(NAMESERVER);
        level(NAMESERVER, &mut j);
        let mut f = MAIN.to_vec();
        for _ in 0..1 + rt::pick(2) {
            f.extend_from_slice(rt::pick_of(&lines).as_bytes());
            f.push(b'\n');
        }
        vstd::fs::set_file("inc", b"y IN A 192.0.2.7\n");
        vstd::fs::set_file("main", &f);
        let evs: Vec<Ev> = ["x.example.", "y.example.", "x.other.example.", "y.other.example."].iter().flat_map(|n| [A, TXT, MX].iter().map(move |t| Ev::Udp(query(7, n, *t)))).collect();
        both(NAMESERVER, &j, &evs, &|| {});
    });

    let bad: Vec<&str> = vec!["x IN A 1.2.3", "x IN", "x IN A", "x IN FOO bar", "\"", "(", ")", "$FOO", "$INCLUDE", "$INCLUDE nowhere", "$ORIGIN", "a..b IN A 1.2.3.4", "x 99999999999 IN A 1.2.3.4", "\u{e9} IN A 1.2.3.4", "x IN TXT {}"];
    ck.rt("zone files to be refused", opts(), || {
        let mut j = base(NAMESERVER);
        let l = level(NAMESERVER, &mut j);
        let b = *rt::pick_of(&bad[..bad.len() - 1]);
        let in_sub = rt::pick_bool();
        let mut f = if in_sub { SUB.to_vec() } else { MAIN.to_vec() };
        f.extend_from_slice(b.as_bytes());
        f.push(b'\n');
        vstd::fs::set_file(if in_sub { "sub" } else { "main" }, &f);
        j.store("conf");
        rt::count(&l);
        must_refuse(NAMESERVER, &["conf"], &format!("{} at level {}", b, l));
    });
    ck.finish()
}
