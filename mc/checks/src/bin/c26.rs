//! C26: the configured parameters take effect in the running programs.
use checks::conf::{self, must_refuse, start, sub, subs, Json, Program, NAMESERVER, RESOLVER};
use checks::servers::{cl, framed, sa, udp_replies, unframe, universal_upstream};
use checks::upstream::*;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::net::SocketAddr;
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;
use vstd::net::{client, ConnId};

const SEC: u64 = 1_000_000_000;

const MAIN: &[u8] = b"@ IN SOA ns admin 1 2 3 4 0\n@ IN NS ns\nns IN A 192.0.2.1\nwww IN A 192.0.2.77\n";
const SUB: &[u8] = b"@ IN NS ns\nns IN A 192.0.2.9\n";

/// A configuration in which no two settings are equal.
fn base(p: Program) -> Json {
    let mut j = if p == NAMESERVER { conf::nameserver() } else { conf::resolver() };
    j.str("udp_server.address", "10.0.0.1").set("udp_server.port", 5301).set("udp_server.write_timeout", 11).set("udp_server.threads", 2);
    j.str("tcp_server.address", "10.0.0.2").set("tcp_server.port", 5302).set("tcp_server.read_timeout", 13).set("tcp_server.write_timeout", 17).set("tcp_server.threads", 3);
    if p == NAMESERVER {
        vstd::fs::set_file("main", MAIN);
        vstd::fs::set_file("sub", SUB);
        j.set("zone.starting_ttl", 1009).set("zone.sub_zones", subs(&[sub("sub.example.", "sub", 1013, 19)]));
    } else {
        j.set("resolver.max_ns_queried", 4).set("resolver.max_ns_retries", 5).set("resolver.max_cname_redir", 6);
        j.set("resolver.read_timeout", 23).set("resolver.write_timeout", 29);
        j.set("resolver.cache_conf.clean_period", 31).set("resolver.cache_conf.entries_cleaned", 1021);
        for f in ["silent", "verbose", "color"] {
            j.set(&format!("resolver.trace_conf.{}", f), f == "silent");
        }
        rt::k().net.foreign = ROOTS.iter().map(|r| (*r).into()).collect();
    }
    j
}
fn get(j: &Json, f: &str) -> u64 {
    j.get(f).parse().unwrap()
}
fn udp_at(j: &Json) -> SocketAddr {
    addr(j, "udp_server")
}
fn tcp_at(j: &Json) -> SocketAddr {
    addr(j, "tcp_server")
}
fn addr(j: &Json, s: &str) -> SocketAddr {
    let a: String = serde_json::from_str(j.get(&format!("{}.address", s))).unwrap();
    let a = match a.as_str() {
        "0.0.0.0" => "10.0.0.9",
        "::" => "fd00::9",
        a => a,
    };
    (a.parse::<std::net::IpAddr>().unwrap(), get(j, &format!("{}.port", s)) as u16).into()
}
/// A client for a server at `to`.
fn me(to: SocketAddr, i: usize) -> SocketAddr {
    if to.is_ipv4() {
        cl(i)
    } else {
        sa(&format!("[fd00::9:{}]:7000", i + 1))
    }
}
/// Start the program; it must keep running.
fn up(p: Program, j: &Json) -> usize {
    j.store("conf");
    let t = j.text();
    rt::k().on_exit = Some(Rc::new(move |c| rt::fail("exit", format!("the program ends with status {} ({})", c, t))));
    let t = start(p, &["conf"]);
    rt::settle();
    if rt::is_done(t) {
        rt::fail("exit", format!("the program ended ({})", j.text()));
    }
    t
}
fn ask_udp(j: &Json, i: usize, name: &str) -> Option<Msg> {
    let to = udp_at(j);
    client::send_udp(me(to, i), to, &query(0x4000 + i as u16, name, A));
    rt::settle();
    reply_udp(j, i)
}
fn reply_udp(j: &Json, i: usize) -> Option<Msg> {
    let v = udp_replies(me(udp_at(j), i));
    if v.len() > 1 {
        rt::fail("number of replies", format!("{} replies", v.len()));
    }
    v.first().map(|b| decode(b).msg)
}
fn open(j: &Json, i: usize) -> ConnId {
    let to = tcp_at(j);
    match client::connect(me(to, i), to) {
        Some(c) => c,
        None => rt::fail("no tcp listener", format!("a connection to {} is refused ({})", to, j.text())),
    }
}
fn ask_tcp(c: ConnId, i: usize, name: &str) {
    client::send(c, &framed(&query(0x5000 + i as u16, name, A)));
}
fn reply_tcp(c: ConnId) -> Option<Msg> {
    unframe(&client::peek(c)).ok().and_then(|v| v.first().map(|b| decode(b).msg))
}
fn served(m: &Option<Msg>) -> bool {
    m.as_ref().map_or(false, |m| m.h.rcode == 0 && m.an().iter().any(|r| r.data == RData::A([192, 0, 2, 77])))
}
fn either() -> (Program, Json) {
    let p = if rt::pick_bool() { RESOLVER } else { NAMESERVER };
    let j = base(p);
    if p == RESOLVER {
        rt::k().net.upstream = Some(Rc::new(universal_upstream));
    }
    (p, j)
}
fn fail(j: &Json, sig: &str, msg: String) -> ! {
    rt::fail(sig, format!("{} ({})", msg, j.text()))
}
fn threads() -> usize {
    rt::live_threads().len()
}

fn main() {
    let mut ck = Check::start("C26");
    let th = ck.thorough();
    ck.assume("'entries_cleaned' promises nothing observable: a cleaning removes whatever is expired");
    ck.assume("the number of workers for datagrams of the nameserver, whose requests never wait, is told by the number of threads");

    ck.rt("addresses", opts().cap(ck.by(100.0, 1000.0)), move || {
        let (p, mut j) = either();
        let menu: &[&str] = if th { &["127.0.0.1", "0.0.0.0", "::1", "::", "10.0.0.1", "192.168.7.7", "fd00::1"] } else { &["127.0.0.1", "0.0.0.0", "::1", "::", "10.0.0.1"] };
        let ua = *rt::pick_of(menu);
        let ta = *rt::pick_of(menu);
        j.str("udp_server.address", ua).str("tcp_server.address", ta);
        j.set("udp_server.port", *rt::pick_of(&[1, 53, 4000, 65535])).set("tcp_server.port", *rt::pick_of(&[1, 53, 4001, 65535]));
        up(p, &j);
        let bound: Vec<(bool, SocketAddr)> = rt::k().net.bound_log.iter().filter(|b| b.1.port() < 40000 || b.1.port() == 65535).cloned().collect();
        let lit = |a: &str, f: &str| SocketAddr::new(a.parse().unwrap(), get(&j, f) as u16);
        let mut want = vec![(true, lit(ua, "udp_server.port")), (false, lit(ta, "tcp_server.port"))];
        let mut b2 = bound.clone();
        want.sort();
        b2.sort();
        if b2 != want {
            fail(&j, "addresses", format!("listens on {:?}", bound));
        }
        if !served(&ask_udp(&j, 0, "www.example.")) {
            fail(&j, "no udp service", "no answer".into());
        }
        let c = open(&j, 1);
        ask_tcp(c, 1, "www.example.");
        rt::settle();
        if !served(&reply_tcp(c)) {
            fail(&j, "no tcp service", "no answer".into());
        }
        rt::count("served");
        rt::sample(|| format!("udp {}:{}, tcp {}:{}: {:?}", ua, j.get("udp_server.port"), ta, j.get("tcp_server.port"), bound));
    });

    let (mt, mk) = ck.by((4, 5), (6, 13));
    ck.rt("tcp workers and read timeout", opts().cap(ck.by(100.0, 1000.0)), move || {
        let (p, mut j) = either();
        let t = 1 + rt::pick(mt);
        let r = *rt::pick_of(&[1u64, 2, 7, 60, 3600]);
        let k = rt::pick(mk + 1);
        j.set("tcp_server.threads", t).set("tcp_server.read_timeout", r);
        up(p, &j);
        let t0 = rt::now();
        let part = *rt::pick_of(&[0usize, 1, 2, 3, 20]);
        let idle: Vec<ConnId> = (0..k)
            .map(|i| {
                let c = open(&j, i);
                client::send(c, &framed(&query(i as u16, "www.example.", A))[..part]);
                c
            })
            .collect();
        rt::settle();
        let c = open(&j, k);
        ask_tcp(c, k, "www.example.");
        rt::settle();
        // each of the idle connections occupies a worker for the timeout
        for round in 0..=(k / t) as u64 {
            if round > 0 {
                rt::sleep_ns(r * SEC - 1 - (rt::now() - t0 - (round - 1) * r * SEC));
                rt::settle();
            }
            if round > 0 && served(&reply_tcp(c)) {
                fail(&j, "tcp workers or read timeout", format!("{} idle clients: served after {} ns", k, rt::now() - t0));
            }
            for (i, x) in idle.iter().enumerate() {
                if client::server_closed(*x) != ((i / t) as u64 + 1 < round) && round > 0 {
                    fail(&j, "tcp read timeout", format!("the connection of the idle client {} of {} is {} after {} ns", i, k, if client::server_closed(*x) { "closed" } else { "open" }, rt::now() - t0));
                }
            }
            if round > 0 {
                rt::sleep_ns(1);
                rt::settle();
            }
            let now = served(&reply_tcp(c));
            if now != (round == (k / t) as u64) {
                fail(&j, "tcp workers or read timeout", format!("{} idle clients: {}served after {} ns", k, if now { "" } else { "not " }, rt::now() - t0));
            }
        }
        rt::count("served");
        rt::sample(|| format!("{} workers, timeout {} s, {} clients which send {} bytes", t, r, k, part));
    });

    ck.rt("tcp write timeout", opts(), || {
        let (p, mut j) = either();
        let w = *rt::pick_of(&[1u64, 2, 5, 60, 3600]);
        let t = 1 + rt::pick(3);
        j.set("tcp_server.write_timeout", w).set("tcp_server.threads", t);
        let room = rt::pick(4);
        up(p, &j);
        let t0 = rt::now();
        // clients which do not read
        let stuck: Vec<ConnId> = (0..t)
            .map(|i| {
                let c = open(&j, i);
                client::set_window(c, room);
                ask_tcp(c, i, "www.example.");
                rt::settle();
                c
            })
            .collect();
        let c = open(&j, t);
        ask_tcp(c, t, "www.example.");
        rt::sleep_ns(w * SEC - 1 - (rt::now() - t0));
        rt::settle();
        if served(&reply_tcp(c)) || stuck.iter().any(|c| client::server_closed(*c)) {
            fail(&j, "tcp write timeout", format!("given up before {} s", w));
        }
        rt::sleep_ns(1);
        rt::settle();
        if !served(&reply_tcp(c)) || stuck.iter().any(|c| !client::server_closed(*c)) {
            fail(&j, "tcp write timeout", format!("still writing after {} s", w));
        }
        rt::sample(|| format!("{} workers, timeout {} s, room for {} bytes", t, w, room));
    });

    ck.rt("udp workers and upstream timeout of the resolver", opts(), move || {
        let mut j = base(RESOLVER);
        rt::k().net.upstream = Some(Rc::new(universal_upstream));
        let t = 1 + rt::pick(mt);
        let r = *rt::pick_of(&[1u64, 2, 7, 60]);
        let k = rt::pick(mk + 1);
        j.set("udp_server.threads", t).set("resolver.read_timeout", r).set("resolver.max_ns_queried", 1).set("resolver.max_ns_retries", 1);
        up(RESOLVER, &j);
        let t0 = rt::now();
        for i in 0..k {
            let to = udp_at(&j);
            client::send_udp(me(to, i), to, &query(i as u16, "silent.", A));
            rt::settle();
        }
        let mut got = ask_udp(&j, k, "www.example.");
        for round in 0..=(k / t) as u64 {
            if round > 0 {
                rt::sleep_ns(r * SEC - 1);
                rt::settle();
                got = reply_udp(&j, k);
                if got.is_some() {
                    fail(&j, "udp workers or upstream timeout", format!("{} requests without answer: served after {} ns", k, rt::now() - t0));
                }
                rt::sleep_ns(1);
                rt::settle();
                got = reply_udp(&j, k);
            }
            if served(&got) != (round == (k / t) as u64) {
                fail(&j, "udp workers or upstream timeout", format!("{} requests without answer: {} after {} ns", k, if got.is_some() { "served" } else { "not served" }, rt::now() - t0));
            }
        }
        rt::sample(|| format!("{} workers, timeout {} s, {} requests without answer", t, r, k));
    });

    ck.rt("number of threads", opts(), || {
        let (p, j) = either();
        let sizes = [1, 2, 3, 4, 5, 6, 9, 17, 33, 130];
        let (u, t) = (*rt::pick_of(&sizes), *rt::pick_of(&sizes));
        let before = threads();
        let mut counts = vec![];
        for (i, (u, t)) in [(1, 1), (u, t)].into_iter().enumerate() {
            let mut j = j.clone();
            j.set("udp_server.threads", u).set("tcp_server.threads", t).set("udp_server.port", 6000 + i).set("tcp_server.port", 6000 + i);
            up(p, &j);
            // all workers have something to do
            for n in 0..8 {
                ask_udp(&j, n, "www.example.");
            }
            counts.push(threads());
        }
        let (one, many) = (counts[0] - before, counts[1] - counts[0]);
        if many != one + u - 1 + t - 1 {
            fail(&j, "number of threads", format!("{} threads with one worker each, {} with {} and {}", one, many, u, t));
        }
        rt::sample(|| format!("{} and {} workers: {} threads", u, t, many));
    });

    ck.rt("socket timeouts", opts(), || {
        let (p, mut j) = either();
        let vals = [1u64, 3, 10, u32::MAX as u64, 1 << 33];
        for f in ["udp_server.write_timeout", "tcp_server.read_timeout", "tcp_server.write_timeout"] {
            j.set(f, *rt::pick_of(&vals[..3]));
        }
        if rt::pick_bool() {
            j.set("udp_server.write_timeout", *rt::pick_of(&vals[3..]));
        }
        if p == RESOLVER {
            j.set("resolver.read_timeout", *rt::pick_of(&vals[..3])).set("resolver.write_timeout", *rt::pick_of(&vals[..4]));
        }
        up(p, &j);
        let want = |what: &'static str, f: &str, from: usize| {
            let v: Vec<Option<u64>> = rt::k().net.timeouts_log[from..].iter().filter(|x| x.0 == what).map(|x| x.1).collect();
            let s = get(&j, f) * SEC;
            if v.is_empty() || v.iter().any(|x| *x != Some(s)) {
                fail(&j, "socket timeout", format!("{} timeouts {:?} ns instead of {}", what, v, s));
            }
        };
        want("udp write", "udp_server.write_timeout", 0);
        let c = open(&j, 0);
        rt::settle();
        want("tcp read", "tcp_server.read_timeout", 0);
        want("tcp write", "tcp_server.write_timeout", 0);
        let n = rt::k().net.timeouts_log.len();
        if p == RESOLVER {
            ask_tcp(c, 0, "www.example.");
            rt::settle();
            want("udp read", "resolver.read_timeout", n);
            want("udp write", "resolver.write_timeout", n);
        }
    });

    ck.rt("nameservers, attempts and timeout of the resolver", opts(), move || {
        let mut j = base(RESOLVER);
        let n = *rt::pick_of(&[1u64, 2, 3, 5, 12, 13, 14, 100]);
        let a = *rt::pick_of(&[1u64, 2, 3, 7, 16, 17, 65]);
        let r = *rt::pick_of(&[1u64, 2, 5]);
        j.set("resolver.max_ns_queried", n).set("resolver.max_ns_retries", a).set("resolver.read_timeout", r);
        up(RESOLVER, &j);
        let log = play(|_| {});
        let tcp = rt::pick_bool();
        let t0 = rt::now();
        let c = if tcp {
            let c = open(&j, 0);
            ask_tcp(c, 0, "www.example.");
            Some(c)
        } else {
            ask_udp(&j, 0, "www.example.");
            None
        };
        let ns = n.min(13);
        rt::sleep_ns(ns * a * r * SEC - 1);
        rt::settle();
        let reply = |j: &Json| match c {
            Some(c) => reply_tcp(c),
            None => reply_udp(j, 0),
        };
        if reply(&j).is_some() {
            fail(&j, "limits", format!("given up after {} ns", rt::now() - t0));
        }
        rt::sleep_ns(1);
        rt::settle();
        match reply(&j) {
            Some(m) if m.h.rcode == 2 => {}
            m => fail(&j, "limits", format!("{:?} after {} ns", m.map(|m| m.h.rcode), rt::now() - t0)),
        }
        let l = log.borrow();
        let mut ips: Vec<Ip> = l.iter().map(|x| x.ip).collect();
        let all = ips.len() as u64;
        ips.sort();
        ips.dedup();
        if all != ns * a || ips.len() as u64 != ns {
            fail(&j, "limits", format!("{} requests to {} nameservers", all, ips.len()));
        }
        for (i, x) in l.iter().enumerate() {
            if x.at != t0 + i as u64 * r * SEC {
                fail(&j, "limits", format!("attempt {} after {} ns", i, x.at - t0));
            }
        }
        rt::sample(|| format!("{} nameservers, {} attempts, timeout {} s: {} requests", n, a, r, all));
    });

    ck.rt("aliases", opts(), move || {
        let mut j = base(RESOLVER);
        let c = 1 + rt::pick(12);
        let len = rt::pick(16);
        j.set("resolver.max_cname_redir", c);
        let mut t = Tree::new();
        t.text(".", 3600, "@ NS a.root-servers.net.");
        let mut s = "@ NS ns.com.\nns A 10.1.0.1\n".to_string();
        for i in 0..len {
            s += &format!("n{} CNAME n{}.com.\n", i, i + 1);
        }
        s += &format!("n{} A 192.0.2.77", len);
        t.text("com.", 3600, &s);
        honest(Rc::new(t.link()));
        up(RESOLVER, &j);
        for again in 0..2 {
            let m = ask_udp(&j, again, "n0.com.");
            let ok = served(&m);
            if ok != (len <= c) {
                fail(&j, "aliases", format!("{} aliases: {}", len, m.map_or("no reply".into(), |m| show(&m))));
            }
        }
        rt::sample(|| format!("limit {}, {} aliases", c, len));
    });

    ck.rt("many aliases", opts().steps(1_000_000), move || {
        let mut j = base(RESOLVER);
        let c = *rt::pick_of(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 99, 127, 128]);
        let len = c + rt::pick(4) - 1;
        j.set("resolver.max_cname_redir", c).set("tcp_server.read_timeout", 1000);
        let mut t = Tree::new();
        t.text(".", 3600, "@ NS a.root-servers.net.");
        let mut s = "@ NS ns.com.\nns A 10.1.0.1\n".to_string();
        for i in 0..len {
            s += &format!("n{} CNAME n{}.com.\n", i, i + 1);
        }
        s += &format!("n{} A 192.0.2.77", len);
        t.text("com.", 3600, &s);
        honest(Rc::new(t.link()));
        up(RESOLVER, &j);
        for again in 0..2 {
            let k = open(&j, again);
            ask_tcp(k, again, "n0.com.");
            rt::settle();
            let m = reply_tcp(k);
            if served(&m) != (len <= c) {
                fail(&j, "aliases", format!("{} aliases: {}", len, m.map_or("no reply".into(), |m| show(&m))));
            }
        }
        rt::sample(|| format!("limit {}, {} aliases", c, len));
    });

    ck.rt("cache cleaning", opts().steps(1_000_000), || {
        let mut j = base(RESOLVER);
        let p = *rt::pick_of(&[2u64, 3, 10, 60, 3600]);
        j.set("resolver.cache_conf.clean_period", p);
        rt::k().net.upstream = Some(Rc::new(|d| {
            if d.to.port() != 53 {
                return;
            }
            let q = decode(&d.data).msg;
            let mut m = Msg { h: Hdr { id: q.h.id, qr: true, aa: true, ..Default::default() }, q: q.q.clone(), ..Default::default() };
            let long = q.q[0].name[0][0] == b'l';
            m.s[0].push(RR { owner: q.q[0].name.clone(), class: 1, ttl: if long { 1_000_000 } else { 1 }, data: RData::A([192, 0, 2, 77]) });
            m.fix_counts();
            vstd::net::deliver(d.to, d.from, &encode(&m, true));
        }));
        let t0 = rt::now();
        up(RESOLVER, &j);
        let live = || vstd::alloc_guard::LIVE.load(Relaxed);
        let long = ask_udp(&j, 0, "long.example.");
        for round in 1..4 {
            for i in 0..100 {
                if !served(&ask_udp(&j, 1, &format!("short{}.{}.example.", i, round))) {
                    fail(&j, "no answer", format!("round {}", round));
                }
            }
            let full = live();
            rt::sleep_ns(t0 + round * p * SEC - 1 - rt::now());
            rt::settle();
            let before = live();
            rt::sleep_ns(1);
            rt::settle();
            let after = live();
            if full - before > 3000 {
                fail(&j, "cleaning period", format!("{} bytes released before the end of the period {}", full - before, round));
            }
            if before - after < 6000 {
                fail(&j, "cleaning period", format!("{} bytes released at the end of the period {}", before - after, round));
            }
            rt::log_line(|| format!("{} {} {}", full, before, after));
        }
        let n = rt::k().net.sent.len();
        let l2 = ask_udp(&j, 0, "long.example.");
        if !served(&long) || !served(&l2) || rt::k().net.sent.len() > n + 1 {
            fail(&j, "cleaning", "an entry which is not expired is gone".into());
        }
        rt::sample(|| format!("period {} s", p));
    });

    ck.rt("log level", opts(), || {
        let (p, mut j) = either();
        let (s, l) = *rt::pick_of(&[("Error", log::Level::Error), ("Warn", log::Level::Warn), ("Info", log::Level::Info), ("Debug", log::Level::Debug), ("Trace", log::Level::Trace)]);
        j.str("log_level", s);
        rt::k().capture_logs = true;
        up(p, &j);
        if log::max_level() != l.to_level_filter() {
            fail(&j, "log level", format!("{:?}", log::max_level()));
        }
        // the level is not known before the configuration is read; the nameserver
        // reads its zones next
        let reads = &rt::k().fs.reads;
        let known = reads.iter().find(|r| r.0 != reads[0].0).map_or(rt::k().logs.len(), |r| r.1);
        ask_udp(&j, 0, "www.example.");
        if let Some(x) = rt::k().logs[known..].iter().find(|x| x.0 > l) {
            fail(&j, "log level", format!("{:?}", x));
        }
        rt::count(s);
    });

    ck.rt("trace", opts(), || {
        let mut j = base(RESOLVER);
        colored::control::set_override(true);
        let (s, v, c) = (rt::pick_bool(), rt::pick_bool(), rt::pick_bool());
        j.str("log_level", "Info").set("resolver.trace_conf.silent", s).set("resolver.trace_conf.verbose", v).set("resolver.trace_conf.color", c);
        let mut t = Tree::new();
        t.text(".", 3600, "@ NS a.root-servers.net.");
        t.text("com.", 3600, "@ NS watched.com.\nwatched A 10.1.0.1\nwww A 192.0.2.77");
        let t = t.link();
        play(move |x| {
            let mut m = t.respond(x.ip, &x.q);
            // of no use to the lookup
            if m.an().is_empty() {
                m.s[2].push(rr("marker.org.", 3600, a([10, 77, 77, 77])));
            }
            x.reply(&datagram(m, x.id))
        });
        up(RESOLVER, &j);
        rt::k().capture_logs = true;
        if !served(&ask_udp(&j, 0, "www.com.")) {
            fail(&j, "no answer", String::new());
        }
        let text: String = rt::k().logs.iter().map(|l| format!("{}\n", l.1)).collect();
        let named = text.contains("watched.com.");
        if named == s {
            fail(&j, "trace", format!("the log {} the nameserver: {}", if named { "names" } else { "does not name" }, text));
        }
        if !s && text.contains("\x1b[") != c {
            fail(&j, "trace colours", text);
        }
        // the raw responses tell what is not part of the path
        if !s && text.contains("marker.org.") != v {
            fail(&j, "trace detail", text);
        }
        rt::count(&format!("silent {} verbose {} color {}", s, v, c));
        rt::sample(|| text.clone());
    });

    ck.rt("zone files and lifetimes", opts(), move || {
        let mut j = base(NAMESERVER);
        let ttl = *rt::pick_of(&[0u64, 1, 300, 1 << 31, u32::MAX as u64]);
        let zone = *rt::pick_of(&["example.", "a.b.c.", "."]);
        let n = rt::pick(4);
        let file = *rt::pick_of(&["main", "other/path", "a b"]);
        vstd::fs::set_file(file, MAIN);
        j.str("zone.zone", zone).str("zone.file", file).set("zone.starting_ttl", ttl);
        let mut v = vec![];
        for i in 0..n {
            let f = format!("file{}", i);
            vstd::fs::set_file(&f, format!("@ IN NS ns\nns IN A 192.0.2.{}\n", 100 + i).as_bytes());
            let (t, m) = *rt::pick_of(&[(7u64, 0u64), (300, 300), (u32::MAX as u64, 5)]);
            v.push((join(&format!("s{}", i), zone), f, t + i as u64 * (t < 1000) as u64, m));
        }
        j.set("zone.sub_zones", subs(&v.iter().map(|x| sub(&x.0, &x.1, x.2, x.3)).collect::<Vec<_>>()));
        up(NAMESERVER, &j);
        let ask = |i: usize, name: &str| match ask_udp(&j, i, name) {
            Some(m) => m,
            None => fail(&j, "no answer", name.into()),
        };
        let m = ask(0, &join("www", zone));
        if m.an().len() != 1 || m.an()[0].ttl as u64 != ttl || m.an()[0].data != RData::A([192, 0, 2, 77]) {
            fail(&j, "zone settings", show(&m));
        }
        for (i, x) in v.iter().enumerate() {
            let m = ask(1 + i, &join("host", &x.0));
            let ns_ok = m.s[1].len() == 1 && m.s[1][0].ttl as u64 == x.2 && m.s[1][0].owner == nm(&x.0);
            let glue_ok = m.s[2].len() == 1 && m.s[2][0].ttl as u64 == x.2 && m.s[2][0].data == RData::A([192, 0, 2, 100 + i as u8]);
            if !ns_ok || !glue_ok || !m.an().is_empty() {
                fail(&j, "sub zone settings", show(&m));
            }
        }
        rt::sample(|| j.text());
    });

    ck.rt("every lifetime and minimum of a subzone", opts(), || {
        let mut j = base(NAMESERVER);
        let menu = [0u64, 1, 2, 1008, 1009, 1010, u32::MAX as u64];
        let (ttl, min, main) = (*rt::pick_of(&menu), *rt::pick_of(&menu), *rt::pick_of(&menu));
        let other = rt::pick(3);
        let mut v = vec![sub("sub.example.", "sub", ttl, min)];
        if other > 0 {
            v.insert(other - 1, sub("b.example.", "sub", 5, 5));
        }
        j.set("zone.starting_ttl", main).set("zone.sub_zones", subs(&v));
        if ttl < min {
            j.store("conf");
            must_refuse(NAMESERVER, &["conf"], &format!("lifetime {} with the minimum {}", ttl, min));
        } else {
            up(NAMESERVER, &j);
            match ask_udp(&j, 0, "x.sub.example.") {
                Some(m) if m.s[1].len() == 1 && m.s[1][0].ttl as u64 == ttl => {}
                m => fail(&j, "sub zone settings", m.map_or("no reply".into(), |m| show(&m))),
            }
        }
        rt::sample(|| j.text());
    });

    ck.rt("nothing to work with", opts(), || {
        let p = if rt::pick_bool() { RESOLVER } else { NAMESERVER };
        let mut j = base(p);
        let mut args = vec!["conf"];
        let what: String = match rt::pick(if p == NAMESERVER { 6 } else { 4 }) {
            0 => {
                args = match rt::pick(4) {
                    0 => vec![],
                    1 => vec!["conf", "conf"],
                    2 => vec!["nowhere"],
                    _ => vec![""],
                };
                format!("arguments {:?}", args)
            }
            1 => {
                let i = rt::pick(j.0.len());
                let f = j.0[i].0;
                j.remove(f);
                format!("no {}", f)
            }
            2 => {
                let f = *rt::pick_of(&["udp_server.threads", "tcp_server.threads", "udp_server.write_timeout", "tcp_server.read_timeout", "tcp_server.write_timeout"]);
                j.set(f, 0);
                format!("{} 0", f)
            }
            3 => {
                let f = *rt::pick_of(&["udp_server.address", "tcp_server.address"]);
                j.str(f, rt::pick_of(&["", "localhost", "10.0.0.300"]));
                f.to_string()
            }
            4 => {
                // zones nobody can serve
                let (b, w): (&[u8], &str) = *rt::pick_of(&[
                    (b"" as &[u8], "an empty zone"),
                    (b"@ IN NS ns\nns IN A 192.0.2.1\n", "no SOA"),
                    (b"@ IN SOA ns admin 1 2 3 4 0\n@ IN NS ns\nns IN A 192.0.2.300\n", "a bad address"),
                    (b"@ IN SOA ns admin 1 2 3 4 0\nns IN A 192.0.2.1\n", "no nameserver"),
                    (b"@ IN SOA ns admin 1 2 3 4 5000\n@ IN NS ns\nns IN A 192.0.2.1\n", "lifetimes below the minimum"),
                    (b"@ IN SOA ns admin 1 2 3 4 0\n@ IN NS ns\nns IN A 192.0.2.1\n$INCLUDE nowhere\n", "a missing file"),
                    (b"\xff\xfe", "binary data"),
                ]);
                vstd::fs::set_file("main", b);
                w.to_string()
            }
            _ => match rt::pick(5) {
                0 => {
                    j.str("zone.file", "nowhere");
                    "no zone file".into()
                }
                1 => {
                    j.set("zone.sub_zones", subs(&[sub("sub.example.", "nowhere", 1, 1)]));
                    "no subzone file".into()
                }
                2 => {
                    j.set("zone.sub_zones", subs(&[sub("sub.example.", "sub", 1, 2)]));
                    "subzone lifetimes below the minimum".into()
                }
                3 => {
                    j.set("zone.sub_zones", subs(&[sub("a.example.", "sub", 1, 1), sub("sub.example.", "bad", 1, 1)]));
                    vstd::fs::set_file("bad", b"@ IN MX 1 ns\n");
                    "a subzone with other records".into()
                }
                _ => {
                    j.str("zone.zone", *rt::pick_of(&["", "example", "-.", "a..b."]));
                    "a zone which is no name".into()
                }
            },
        };
        j.store("conf");
        rt::sample(|| what.clone());
        must_refuse(p, &args, &what);
    });
    ck.finish()
}
