//! C28: what serving a request takes is given back.
use ariadne_dns::resolver::*;
use ariadne_dns::shared::net::DnsHandler;
use checks::corpus;
use checks::servers::*;
use checks::upstream::*;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::cell::{Cell, RefCell};
use std::io;
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;
use std::time::Duration;
use vstd::alloc_guard::LIVE;
use vstd::net::{client, Action, Op};

const SEC: u64 = 1_000_000_000;

/// What the program holds.
#[derive(Clone, Debug, PartialEq)]
struct Use {
    threads: usize,
    udp: usize,
    tcp: usize,
    listeners: usize,
}
impl Use {
    fn now() -> Use {
        let n = &rt::k().net;
        Use {
            threads: rt::live_threads().len(),
            udp: n.udp.iter().map(|s| s.refs).sum(),
            tcp: n.conns.iter().map(|c| if c.accepted { c.refs[1] } else { 0 }).sum(),
            listeners: n.lis.iter().map(|l| l.refs).sum(),
        }
    }
    fn grown(&self, old: &Use) -> Option<&'static str> {
        [(self.threads > old.threads, "threads"), (self.udp > old.udp, "UDP sockets"), (self.tcp > old.tcp, "connections"), (self.listeners > old.listeners, "listeners")].iter().find(|x| x.0).map(|x| x.1)
    }
}
/// Rounds of the same; the later ones need no more than the first.
fn rounds(n: usize, what: &dyn Fn() -> String, mut f: impl FnMut(usize)) {
    let mut first = None;
    for i in 0..n {
        f(i);
        let u = Use::now();
        match &first {
            None => first = Some(u),
            Some(a) => {
                if let Some(w) = u.grown(a) {
                    rt::fail(&format!("{} left behind", w), format!("{}: {:?} after the first round and {:?} after {}; {}", what(), a, u, i + 1, rt::describe_blocked()));
                }
            }
        }
    }
    rt::sample(|| format!("{}: {:?}", what(), first));
}

/// Live heap bytes but for what the harness keeps a record of.
fn memory() -> i64 {
    let n = &mut rt::k().net;
    n.sent = vec![];
    n.timeouts_log = vec![];
    n.bound_log = vec![];
    n.connects = vec![];
    rt::k().logs = vec![];
    for c in &mut n.conns {
        if c.refs == [0, 0] {
            c.served_by = vec![];
            for p in &mut c.pipes {
                p.buf = Default::default();
            }
        }
    }
    for s in &mut n.udp {
        if s.refs == 0 {
            s.q = Default::default();
        }
    }
    let kept = n.udp.capacity() * std::mem::size_of::<vstd::net::UdpSock>() + n.conns.capacity() * std::mem::size_of::<vstd::net::Conn>() + rt::k().threads.capacity() * std::mem::size_of_val(&rt::k().threads[0]);
    LIVE.load(Relaxed) - kept as i64
}

/// What a client does on its TCP connection.
#[derive(Clone, Copy, Debug)]
enum Tcp {
    Whole,
    /// nothing is sent
    Silent,
    /// the first bytes, then nothing
    Half(usize),
    HalfReset(usize),
    HalfClosed(usize),
    HalfFin(usize),
    /// gone before it is accepted
    Gone,
    WholeReset,
    WholeFin,
    /// room for so many bytes of the reply
    Window(usize),
    /// more than announced
    More,
}
const TCP: &[Tcp] = &[
    Tcp::Whole,
    Tcp::Silent,
    Tcp::Half(1),
    Tcp::Half(2),
    Tcp::Half(9),
    Tcp::HalfReset(1),
    Tcp::HalfReset(9),
    Tcp::HalfClosed(1),
    Tcp::HalfClosed(9),
    Tcp::HalfFin(0),
    Tcp::HalfFin(9),
    Tcp::Gone,
    Tcp::WholeReset,
    Tcp::WholeFin,
    Tcp::Window(0),
    Tcp::Window(1),
    Tcp::Window(20),
    Tcp::More,
];
fn tcp_client(n: &Net, me: std::net::SocketAddr, t: Tcp, req: &[u8]) -> vstd::net::ConnId {
    let c = tcp_open(n, me);
    let f = framed(req);
    let part = |k: usize| f[..k.min(f.len())].to_vec();
    match t {
        Tcp::Whole => client::send(c, &f),
        Tcp::Silent => {}
        Tcp::Half(k) => client::send(c, &part(k)),
        Tcp::HalfReset(k) => {
            client::send(c, &part(k));
            rt::settle();
            client::reset(c)
        }
        Tcp::HalfClosed(k) => {
            client::send(c, &part(k));
            rt::settle();
            client::close(c)
        }
        Tcp::HalfFin(k) => {
            client::send(c, &part(k));
            rt::settle();
            client::half_close(c)
        }
        Tcp::Gone => client::close(c),
        Tcp::WholeReset => {
            client::send(c, &f);
            client::reset(c)
        }
        Tcp::WholeFin => {
            client::send(c, &f);
            client::half_close(c)
        }
        Tcp::Window(k) => {
            client::set_window(c, k);
            client::send(c, &f)
        }
        Tcp::More => {
            client::send(c, &f);
            client::send(c, &f)
        }
    }
    c
}

fn start(kind: usize, n: &Net) {
    if kind == 0 {
        run(nameserver(&demo_zone()), n);
    } else {
        rt::k().net.upstream = Some(Rc::new(universal_upstream));
        let p = ResolverParams { read_timeout: Duration::new(1, 0), ..ResolverParams::default() };
        run(ResolverHandler(rsv(p, quiet()).1), n);
    }
    ready();
}

fn requests() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![
        ("answer".into(), query(0x0101, "www.example.", A)),
        ("name error".into(), query(0x0202, "nx.example.", A)),
        ("failure".into(), query(0x0203, "fail.example.", A)),
        ("no answer from upstream".into(), query(0x0204, "silent.example.", A)),
        ("alias".into(), query(0x0205, "alias.example.", A)),
        ("large answer".into(), query(0x0303, "big.example.", TXT)),
        ("malformed".into(), query(0x0404, "www.example.", A)[..20].to_vec()),
        ("empty".into(), vec![]),
        ("no header".into(), vec![1, 2, 3]),
    ];
    let mut r = query(0x0606, "www.example.", A);
    r[2] |= 0x80;
    v.push(("a response".into(), r.clone()));
    r[2] = 0x10;
    v.push(("operation code 2".into(), r));
    v.extend(corpus::large().into_iter().map(|b| (format!("{} bytes", b.len()), b)));
    v.extend(corpus::messages());
    v
}

fn serving(ck: &mut Check) {
    let reqs = requests();
    ck.rt("requests over UDP", opts(), || {
        let kind = rt::pick(2);
        let (name, req) = rt::pick_of(&reqs);
        let n = Net { udp_threads: 1 + rt::pick(2), ..Net::default() };
        let burst = *rt::pick_of(&[1, 3]);
        start(kind, &n);
        let what = || format!("{}, {} over UDP, {} at a time", ["nameserver", "resolver"][kind], name, burst);
        rounds(4, &what, |_| {
            for i in 0..burst {
                udp_send(&n, cl(i), req);
            }
            rt::sleep(Duration::new(40, 0));
            for i in 0..burst {
                udp_replies(cl(i));
            }
        });
    });
    let few: Vec<_> = reqs.iter().take(11).cloned().collect();
    let most: Vec<_> = reqs.iter().take(11).chain(reqs.iter().filter(|r| r.1.len() == 4200 || r.1.len() == 65535)).cloned().collect();
    let large: Vec<_> = reqs.iter().filter(|r| r.1.len() > 560).cloned().collect();
    let th = ck.thorough();
    ck.rt("requests over TCP", opts(), || {
        let kind = rt::pick(2);
        let (name, req) = if th { rt::pick_of(&reqs) } else { rt::pick_of(&most) };
        let t = *rt::pick_of(TCP);
        let n = Net { tcp_threads: 1 + rt::pick(2), ..Net::default() };
        let burst = *rt::pick_of(&[1, 3]);
        start(kind, &n);
        let what = || format!("{}, {} over TCP, client: {:?}, {} at a time", ["nameserver", "resolver"][kind], name, t, burst);
        rounds(4, &what, |_| {
            let cs: Vec<_> = (0..burst).map(|i| tcp_client(&n, cl(i), t, req)).collect();
            rt::sleep(Duration::new(60, 0));
            if let Some(c) = cs.iter().find(|c| client::conn(**c).refs[1] > 0) {
                rt::fail("connections left behind", format!("{}: connection {} is still held after a minute; {}", what(), c, rt::describe_blocked()));
            }
            for c in cs {
                client::close(c);
            }
        });
    });
    // one or two operations of the server fail
    ck.rt("failing operations", opts(), || {
        let kind = rt::pick(2);
        let udp = rt::pick_bool();
        let name = *rt::pick_of(&["www.example.", "nx.example.", "silent.example."]);
        let n = Net::default();
        start(kind, &n);
        let nth = rt::pick(if th { 60 } else { 30 });
        let pair = th && rt::pick_bool();
        let err = *rt::pick_of(&[libc::ECONNRESET, libc::EAGAIN, libc::EMFILE]);
        let count = Rc::new(Cell::new(0));
        let last = Rc::new(RefCell::new(String::new()));
        let (c2, l2) = (count.clone(), last.clone());
        rt::k().net.fault = Some(Rc::new(move |op| {
            // waiting for requests is no operation on a request
            match op {
                Op::UdpRecv(0) | Op::Accept(_) => return None,
                _ => {}
            }
            let i = c2.get();
            c2.set(i + 1);
            if i == nth || (pair && i == nth + 1) {
                *l2.borrow_mut() = format!("{:?}", op).split('(').next().unwrap().to_string();
                return Some(Action::Err(io::Error::from_raw_os_error(err)));
            }
            None
        }));
        let what = || format!("{}, {} over {}, operation {} ({}) fails with {}{}", ["nameserver", "resolver"][kind], name, if udp { "UDP" } else { "TCP" }, nth, last.borrow(), err, if pair { ", and the next" } else { "" });
        let hit = Cell::new(true);
        rounds(4, &what, |i| {
            // the first round shows what is held with no failure
            count.set(if i == 0 { 1000 } else { 0 });
            let req = query(0x0a00, name, A);
            if udp {
                udp_send(&n, cl(0), &req);
                rt::sleep(Duration::new(60, 0));
                udp_replies(cl(0));
            } else {
                let c = tcp_client(&n, cl(0), Tcp::Whole, &req);
                rt::sleep(Duration::new(60, 0));
                client::close(c);
            }
            if i > 0 && count.get() <= nth {
                hit.set(false);
            }
        });
        if hit.get() {
            rt::count(&format!("{} failed", last.borrow()));
        } else {
            rt::count("no operation failed");
        }
    });
    // what the heap holds
    ck.rt("memory of a server", opts().steps(60_000_000), || {
        let kind = rt::pick(2);
        let udp = rt::pick_bool();
        let (name, req) = rt::pick_of(&few);
        let t = if udp { Tcp::Whole } else { *rt::pick_of(&[Tcp::Whole, Tcp::HalfReset(9), Tcp::WholeReset, Tcp::Silent, Tcp::Window(1)]) };
        serve(kind, udp, name, req, t, EACH)
    });
    let modes = ck.by(2, 4);
    ck.rt("memory of a server, large requests", opts().steps(60_000_000), || {
        let kind = rt::pick(2);
        let (name, req) = rt::pick_of(&large);
        let t = [Tcp::Whole, Tcp::HalfReset(req.len() - 1), Tcp::Half(req.len() / 2), Tcp::Window(1)][rt::pick(modes)];
        serve(kind, false, name, req, t, EACH / 4)
    });
}
/// Rounds of `each` requests.
fn serve(kind: usize, udp: bool, name: &str, req: &[u8], t: Tcp, each: usize) {
    let n = Net { udp_threads: 2, tcp_threads: 2, ..Net::default() };
    start(kind, &n);
    let mut last = 0;
    let mut grown = vec![];
    for _ in 0..6 {
        for i in 0..each {
            if udp {
                udp_send(&n, cl(i % 5), req);
            } else {
                let c = tcp_client(&n, cl(i % 5), t, req);
                rt::settle();
                if !client::server_closed(c) {
                    rt::sleep(Duration::new(40, 0));
                }
                client::recv(c);
                client::close(c);
            }
            rt::settle();
            if udp && name.starts_with("no answer") {
                rt::sleep(Duration::new(40, 0));
            }
            udp_replies(cl(i % 5));
        }
        let m = memory();
        grown.push((m - last) / each as i64);
        last = m;
    }
    leak(&grown, &format!("{}, {} over {}, {:?}", ["nameserver", "resolver"][kind], name, if udp { "UDP" } else { "TCP" }, t));
}
fn leak(grown: &[i64], what: &str) {
    // the first round fills what is kept
    let what = format!("{}: {} bytes for each request", what, grown[1..].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
    if grown[1..].iter().sum::<i64>() > 5 * BYTES && grown[1..].iter().filter(|x| **x > 0).count() > 1 {
        rt::fail("memory left behind", what);
    }
    rt::sample(|| what.clone());
}
const EACH: usize = 100;
/// More than this for each request, on average, is no chance.
const BYTES: i64 = 4;

/// How the servers asked upstream behave.
#[derive(Clone, Copy, Debug)]
enum Up {
    Honest,
    Silent,
    Late,
    Garbage,
    WrongId,
    Drip,
    Servfail,
    Nx,
    Empty,
    Foreign,
    SendErr,
    RecvErr,
    BindErr,
    ConnectErr,
    TimeoutErr,
}
use Up::*;
const UPS: &[Up] = &[Honest, Silent, Late, Garbage, WrongId, Drip, Servfail, Nx, Empty, Foreign, SendErr, RecvErr, BindErr, ConnectErr, TimeoutErr];
const NAMES: &[&str] = &["www.a.com.", "nx.a.com.", "al.a.com.", "."];

/// The servers of the tree behave as `ups` says, one after the other; each of
/// them from so many queries after the one before on.
fn upstream(tree: Rc<Tree>, ups: Vec<(Up, usize)>) -> (Rc<Cell<usize>>, Log) {
    let seen = Rc::new(Cell::new(0));
    let now = {
        let seen = seen.clone();
        Rc::new(move || {
            let mut at = 0;
            let mut cur = ups[0].0;
            for (u, n) in &ups {
                at += n;
                if seen.get() >= at {
                    cur = *u
                }
            }
            cur
        })
    };
    let (n2, s2) = (now.clone(), seen.clone());
    let log = play(move |x: &Asked| {
        let cur = n2();
        s2.set(s2.get() + 1);
        let mut m = tree.respond(x.ip, &x.q);
        match cur {
            Silent => {}
            Late => x.reply_later(30 * SEC, datagram(m, x.id)),
            Garbage => x.reply(&datagram(m, x.id)[..11]),
            WrongId => x.reply(&datagram(m, x.id ^ 1)),
            Drip => drip(x.clone(), datagram(m, x.id ^ 1)),
            Servfail | Nx | Empty => {
                m.s = Default::default();
                m.h.rcode = match cur {
                    Servfail => 2,
                    Nx => 3,
                    _ => 0,
                };
                x.reply(&datagram(m, x.id))
            }
            Foreign => {
                vstd::net::deliver(sa("10.77.0.1:53"), x.from, &datagram(m.clone(), x.id));
            }
            _ => x.reply(&datagram(m, x.id)),
        }
    });
    let (n2, s2) = (now, seen.clone());
    rt::k().net.fault = Some(Rc::new(move |op| {
        let hit = matches!((n2(), op), (SendErr, Op::UdpSend(..)) | (RecvErr, Op::UdpRecv(..)) | (BindErr, Op::UdpBind(..)) | (ConnectErr, Op::UdpConnect(..)) | (TimeoutErr, Op::SetTimeout));
        if hit {
            s2.set(s2.get() + 1);
            return Some(Action::Err(io::Error::from_raw_os_error(libc::ENETUNREACH)));
        }
        None
    }));
    (seen, log)
}
fn conf() -> ResolverParams {
    ResolverParams { read_timeout: Duration::new(1, 0), ..ResolverParams::default() }
}

fn lookups(ck: &mut Check) {
    let q = ck.by(2, 3);
    ck.rt("lookups", opts(), || {
        let tree = Rc::new(world(*rt::pick_of(&[0, 300]), Some(300), Some(300)));
        let name = *rt::pick_of(NAMES);
        // the behaviour of the upstream servers changes once or twice
        let ups: Vec<(Up, usize)> = (0..q).map(|i| (*rt::pick_of(UPS), if i == 0 { 0 } else { 1 + rt::pick(4) })).collect();
        let what = || format!("lookups of {}, servers: {:?}", name, ups);
        let (seen, _) = upstream(tree, ups.clone());
        let h = ResolverHandler(rsv(conf(), quiet()).1);
        rounds(5, &what, |_| {
            seen.set(0);
            ask(&h, name);
            rt::sleep(Duration::new(40, 0));
        });
    });
    ck.rt("memory of lookups", opts().steps(60_000_000), || {
        let tree = Rc::new(world(*rt::pick_of(&[0, 300]), Some(300), Some(300)));
        let name = *rt::pick_of(NAMES);
        let ups = vec![(*rt::pick_of(UPS), 0), (*rt::pick_of(UPS), 2)];
        // a trace is printed, or not
        let trace = if rt::pick_bool() { TraceParams { silent: false, verbose: true, color: false } } else { quiet() };
        let (seen, log) = upstream(tree, ups.clone());
        let h = ResolverHandler(rsv(conf(), trace).1);
        let mut last = 0;
        let mut grown = vec![];
        for _ in 0..6 {
            for _ in 0..EACH / 5 {
                seen.set(0);
                ask(&h, name);
                rt::sleep(Duration::new(40, 0));
            }
            *log.borrow_mut() = vec![];
            let m = memory();
            grown.push((m - last) / (EACH / 5) as i64);
            last = m;
        }
        leak(&grown, &format!("lookups of {}, servers: {:?}", name, ups));
    });
    // long ways: aliases, zones below each other, nameservers in other zones
    let lens: Vec<usize> = ck.by(vec![1, 2, 3, 5, 6, 7, 8, 9, 12, 16, 20, 33], (1..50).collect());
    ck.rt("memory of long lookups", opts().steps(60_000_000), || {
        let kind = rt::pick(5);
        let n = *rt::pick_of(&lens);
        let ttl = *rt::pick_of(&[0, 60]);
        let fails = rt::pick_bool();
        let (t, name) = long(kind, n, ttl);
        let t = Rc::new(t);
        let log = play(move |x: &Asked| if !fails || !wire_is(&x.q, "www") { x.reply(&datagram(t.respond(x.ip, &x.q), x.id)) });
        let (cache, r) = rsv(ResolverParams { max_ns_queried: 3, max_cname_redir: 60, ..conf() }, quiet());
        cache.start_clean_routine();
        let h = ResolverHandler(r);
        let mut last = 0;
        let mut grown = vec![];
        let mut threads = vec![];
        for _ in 0..6 {
            for _ in 0..EACH / 10 {
                ask(&h, &name);
                rt::sleep(Duration::new(130, 0));
            }
            log.borrow_mut().clear();
            let m = memory();
            grown.push((m - last) / (EACH / 10) as i64);
            last = m;
            threads.push(rt::live_threads().len());
        }
        let what = format!("{} {} with a TTL of {} s{}", n, ["aliases", "aliases across zones", "zones below each other", "zones served from the next", "nameservers"][kind], ttl, if fails { ", without answer" } else { "" });
        if threads[5] > threads[0] {
            rt::fail("threads left behind", format!("{}: {:?}", what, threads));
        }
        leak(&grown, &what);
    });
    // thousands of names, which expire
    ck.rt("memory of a cache", opts().steps(100_000_000).mem(3000), || {
        let ttl = *rt::pick_of(&[1u32, 30]);
        let exists = rt::pick_bool();
        // names, how often, and the time the cleaner has; there may be more of
        // them in its period than it likes
        let (each, rounds, wait) = *rt::pick_of(&[(100usize, 10usize, 200), (100, 40, 200), (1000, 5, 61)]);
        let mut s = String::from("@ NS ns.a.com.\n ns A 10.2.0.1\n");
        if exists {
            for i in 0..each * rounds {
                s += &format!("n{} A 10.{}.{}.{}\n", i, 100 + i / 60_000, i / 250 % 250, i % 250);
            }
        }
        let mut t = Tree::new();
        t.text(".", 86400, "@ NS a.root-servers.net.");
        t.text("com.", 86400, "@ NS ns.com.\n ns A 10.1.0.1");
        t.text("a.com.", ttl, &s);
        let t = Rc::new(t.link());
        let log = honest(t);
        let (cache, r) = rsv(ResolverParams::default(), quiet());
        cache.start_clean_routine();
        let h = ResolverHandler(r);
        let mut mem = vec![];
        let mut socks = vec![];
        for r in 0..rounds {
            for i in 0..each {
                lookup(&h, &nm(&format!("n{}.a.com.", r * each + i)), A);
                log.borrow_mut().clear();
            }
            rt::sleep(Duration::new(wait, 0));
            mem.push(memory());
            socks.push(rt::k().net.udp.len() as i64);
        }
        // the first rounds may fill what is kept
        let from = rounds / 2;
        let n = ((rounds - 1 - from) * each) as i64;
        let per = (mem[rounds - 1] - mem[from]) / n;
        let what = format!("{} lookups of different names with a TTL of {} s: {} bytes for each of the last {}", rounds * each, ttl, per, n);
        if per > BYTES {
            rt::fail("memory left behind", what);
        }
        rt::sample(|| format!("{} {:?}", what, (socks[rounds - 1] - socks[from]) / n));
    });
}
fn wire_is(q: &Q, first: &str) -> bool {
    q.name.first().map_or(false, |l| l == first.as_bytes())
}
/// A tree, and a name whose lookup takes many steps.
fn long(kind: usize, n: usize, ttl: u32) -> (Tree, String) {
    let mut t = Tree::new();
    t.text(".", ttl, "@ NS a.root-servers.net.");
    match kind {
        0 | 1 => {
            let mut s = "@ NS ns.com.\nns A 10.1.0.1\n".to_string();
            let mut s2 = "@ NS ns.net.\nns A 10.1.0.2\n".to_string();
            let zone = |i: usize| if kind == 1 && i % 2 == 1 { "net" } else { "com" };
            for i in 0..=n {
                let l = if i < n { format!("n{} CNAME {}.{}.\n", i, if i + 1 < n { format!("n{}", i + 1) } else { "www".into() }, zone(i + 1)) } else { "www A 192.0.2.77\n".into() };
                if zone(i) == "com" {
                    s += &l
                } else {
                    s2 += &l
                }
            }
            t.text("com.", ttl, &s);
            t.text("net.", ttl, &s2);
            (t.link(), "n0.com.".into())
        }
        2 => {
            let (t2, apex) = chain(n, ttl, "z");
            (t2.link(), format!("www.{}", apex))
        }
        3 => {
            t.strict_glue = true;
            t.text("com.", ttl, "@ NS ns.com.\nns A 10.1.0.1");
            for i in 0..n {
                let at = if i + 1 < n { i + 1 } else { i };
                t.text(&format!("z{}.com.", i), ttl, &format!("@ NS ns.z{}.com.\nns A 10.3.0.{}\nwww A 192.0.2.1", at, (i + 1).min(n - 1) + 1));
            }
            (t.link(), "www.z0.com.".into())
        }
        _ => {
            let mut s = "www A 192.0.2.1\n".to_string();
            for i in 0..n {
                s += &format!("@ NS ns{}.com.\nns{} A 10.1.0.{}\n", i, i, i + 1);
            }
            t.text("com.", ttl, &s);
            (t.link(), "www.com.".into())
        }
    }
}
fn ask<H: DnsHandler>(h: &H, name: &str) {
    lookup(h, &nm(name), A);
}
fn drip(x: Asked, b: Vec<u8>) {
    rt::at(rt::now() + 500_000_000, move || {
        if vstd::net::deliver(x.to(), x.from, &b) {
            drip(x, b)
        }
    })
}

fn main() {
    let mut ck = Check::start("C28");
    serving(&mut ck);
    lookups(&mut ck);
    ck.finish();
}
