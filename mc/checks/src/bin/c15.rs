//! C15: one listener ends, and the whole service stops.
use ariadne_dns::nameserver::NameserverHandler;
use ariadne_dns::shared::dns;
use ariadne_dns::shared::net::{DnsHandler, DnsRead, DnsReadResult, DnsWrite};
use checks::servers::*;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::cell::{Cell, RefCell};
use std::io;
use std::net::SocketAddr;
use std::rc::Rc;
use std::time::Duration;
use vstd::net::{client, Action, Op};

fn os(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}
const SEC: u64 = 1_000_000_000;
/// The service has to return this long after the failure.
const RETURN: u64 = 30 * SEC;
/// Requests which need less than this are waited for.
const SHORT: u64 = 3 * SEC;

/// The nameserver, except that a query for "t<n>.example." takes n seconds.
struct Timed(NameserverHandler);
struct Pre(dns::Message);
impl DnsRead for Pre {
    fn read(self) -> DnsReadResult {
        DnsReadResult::FullMessage(self.0)
    }
}
impl DnsHandler for Timed {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        if let DnsReadResult::FullMessage(m) = req.read() {
            let first = m.questions.first().map(|q| q.node.as_ref().to_string()).unwrap_or_default();
            if let Some(n) = first.strip_prefix('t').and_then(|s| s.split('.').next()).and_then(|s| s.parse::<u64>().ok()) {
                if n > 0 {
                    rt::sleep(Duration::new(n, 0));
                }
            }
            self.0.handle_request(Pre(m), resp)
        }
    }
}

const ADDRS: [&str; 6] = ["127.0.0.1:5300", "0.0.0.0:5300", "[::1]:5300", "[::]:5300", "10.0.0.1:5300", "[fd00::1]:5300"];

/// Wait until the service has returned, and check how it did.
fn returned(svc: usize, failed_at: &dyn Fn() -> Option<u64>, what: &str) -> u64 {
    let ok = rt::block_on("service", &|| rt::is_done(svc), Some(rt::now() + RETURN + 60 * SEC));
    let at = failed_at().unwrap_or(1_000_000_000_000);
    if !ok {
        rt::fail("the service does not return", format!("{} s after the failure the service has not returned ({}): {}", (rt::now() - at) / SEC, what, rt::describe_blocked()));
    }
    if let Some(p) = rt::panicked(svc) {
        rt::fail("the service panics", format!("{}: {}", what, p));
    }
    if rt::now() > at + RETURN {
        rt::fail("the service returns late", format!("{} s after the failure ({})", (rt::now() - at) / SEC, what));
    }
    rt::now()
}
/// Nothing of the service is left, after the requests that took long.
fn gone(wait: u64, what: &str) {
    if wait > 0 {
        rt::sleep_ns(wait);
    } else {
        rt::settle();
    }
    let left: Vec<usize> = rt::live_threads().into_iter().filter(|t| *t != rt::cur()).collect();
    if !left.is_empty() {
        rt::fail("a thread of the service is left behind", format!("{} ({}): {}", left.len(), what, rt::describe_blocked()));
    }
    let n = &rt::k().net;
    let open: Vec<String> = n.udp.iter().filter(|s| s.refs > 0 && s.explicit_port).map(|s| format!("udp {}", s.local)).chain(n.lis.iter().filter(|l| l.refs > 0).map(|l| format!("tcp {}", l.local))).collect();
    if !open.is_empty() {
        rt::fail("a socket of the service is left open", format!("{:?} ({})", open, what));
    }
}

fn main() {
    let mut ck = Check::start("C15");
    ck.assume("the wake-up messages the service sends to itself are not lost");
    let th = ck.thorough();

    // how a listener can fail to start
    let inject = |udp_fails: bool, tcp_fails: bool, how: usize| {
        let f = move |op| match op {
            Op::UdpBind(a) if udp_fails && how == 0 && a.port() != 0 => Some(Action::Err(os(libc::EADDRINUSE))),
            Op::SetTimeout if udp_fails && how == 1 => Some(Action::Err(os(libc::EINVAL))),
            Op::Listen(_) if tcp_fails => Some(Action::Err(os(libc::EACCES))),
            _ => None,
        };
        rt::k().net.fault = Some(Rc::new(f));
    };

    let sched = ck.by(3, 5);
    ck.rt("start-up failures", opts().sched(sched).cap(ck.by(120.0, 1500.0)), || {
        let which = rt::pick(4);
        let how = if which == 1 { 0 } else { rt::pick(2) };
        let (uf, tf) = [(true, false), (false, true), (true, true), (true, false)][which];
        inject(uf, tf, how);
        let w = if which == 3 { 2 } else { 1 };
        let n = Net { udp_threads: w, tcp_threads: w, ..Net::default() };
        let svc = run(nameserver(&demo_zone()), &n);
        let what = format!("UDP {}, TCP {}, {} workers each", if uf { "fails" } else { "starts" }, if tf { "fails" } else { "starts" }, w);
        returned(svc, &|| None, &what);
        gone(0, &what);
        rt::count(&what);
        rt::sample(|| what.clone());
    });

    ck.rt("pools of every size", opts().steps(2_000_000), || {
        let sizes = [3usize, 4, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 129, 257];
        let (u, t) = (*rt::pick_of(&sizes), *rt::pick_of(&sizes));
        let which = rt::pick(3);
        let (uf, tf) = [(true, false), (false, true), (true, true)][which];
        inject(uf, tf, 0);
        let n = Net { udp_threads: u, tcp_threads: t, ..Net::default() };
        let svc = run(nameserver(&demo_zone()), &n);
        let what = format!("UDP {}, TCP {}, {} and {} workers", if uf { "fails" } else { "starts" }, if tf { "fails" } else { "starts" }, u, t);
        returned(svc, &|| None, &what);
        gone(0, &what);
        rt::sample(|| what.clone());
    });

    ck.rt("start-up failures, every address", opts().sched(ck.by(1, 2)).cap(ck.by(60.0, 600.0)), || {
        let u = *rt::pick_of(&ADDRS);
        let t = *rt::pick_of(&ADDRS);
        let uf = rt::pick_bool();
        let real = rt::pick_bool();
        let n = Net { udp: sa(u), tcp: sa(t), ..Net::default() };
        if real {
            // somebody else has the address
            let bad: SocketAddr = if uf { n.udp } else { n.tcp };
            if uf {
                std::mem::forget(vstd::net::UdpSocket::bind(bad).unwrap());
            } else {
                std::mem::forget(vstd::net::TcpListener::bind(bad).unwrap());
            }
        } else {
            inject(uf, !uf, 0);
        }
        let svc = run(nameserver(&demo_zone()), &n);
        let what = format!("{} fails, UDP at {}, TCP at {}", if uf { "UDP" } else { "TCP" }, u, t);
        returned(svc, &|| None, &what);
        if !real {
            gone(0, &what);
        } else {
            rt::settle();
            let left: Vec<usize> = rt::live_threads().into_iter().filter(|t| *t != rt::cur()).collect();
            if !left.is_empty() {
                rt::fail("a thread of the service is left behind", format!("{} ({}): {}", left.len(), what, rt::describe_blocked()));
            }
        }
        rt::sample(|| what.clone());
    });

    ck.rt("one address is of no use", opts().sched(ck.by(2, 3)).cap(ck.by(60.0, 600.0)), || {
        // no IPv6 on this machine, or an address of another one
        let bad = *rt::pick_of(&["[::1]:5300", "[::]:5300", "192.0.2.200:5300"]);
        let good = *rt::pick_of(&["127.0.0.1:5300", "0.0.0.0:5300"]);
        rt::k().net.no_ipv6 = true;
        rt::k().net.foreign = vec![sa("192.0.2.200:1").ip()];
        let n = if rt::pick_bool() { Net { udp: sa(bad), tcp: sa(good), ..Net::default() } } else { Net { udp: sa(good), tcp: sa(bad), ..Net::default() } };
        let svc = run(nameserver(&demo_zone()), &n);
        let what = format!("UDP at {}, TCP at {}", n.udp, n.tcp);
        returned(svc, &|| None, &what);
        gone(0, &what);
        rt::sample(|| what.clone());
    });

    ck.rt("requests in progress", opts().sched(ck.by(1, 2)).cap(ck.by(120.0, 1500.0)), || {
        // the failing listener takes its time to fail
        let udp_fails = rt::pick_bool();
        let open = Rc::new(Cell::new(false));
        let failed = Rc::new(Cell::new(None));
        let (o2, f2) = (open.clone(), failed.clone());
        rt::k().net.fault = Some(Rc::new(move |op| {
            let hit = match op {
                Op::UdpBind(a) => udp_fails && a.port() != 0,
                Op::Listen(_) => !udp_fails,
                _ => false,
            };
            if !hit {
                return None;
            }
            let o = o2.clone();
            rt::block_on("slow to fail", &move || o.get(), None);
            f2.set(Some(rt::now()));
            Some(Action::Err(os(libc::EADDRINUSE)))
        }));
        let w = 1 + rt::pick(2);
        let rt_s = *rt::pick_of(&[2u64, 10, 3600]);
        let addr = sa(*rt::pick_of(&ADDRS[..4]));
        let n = Net { udp: addr, tcp: addr, udp_threads: w, tcp_threads: w, read_timeout: rt_s, write_timeout: if rt_s > 10 { rt_s } else { 2 } };
        let svc = run(Timed(nameserver(&demo_zone())), &n);
        ready();
        let k = 1 + rt::pick(if th { 3 } else { 2 });
        let mut sent = vec![];
        let mut free = vec![0u64; w];
        let me = |i: usize| -> SocketAddr {
            if addr.is_ipv4() {
                cl(i)
            } else {
                SocketAddr::new(format!("fd00::{}", 100 + i).parse().unwrap(), 7000)
            }
        };
        let to = if addr.ip().is_unspecified() || addr.ip().is_loopback() { if addr.is_ipv4() { sa("127.0.0.1:5300") } else { sa("[::1]:5300") } } else { addr };
        let mut desc = vec![];
        for i in 0..k {
            // requests take 0, 1, 3 or 10 s; a TCP client may send nothing, half a request or not read
            let kind = [0, 1, 2, 3, 6, 4, 5][rt::pick(if udp_fails { 7 } else { 5 })];
            let secs = [0, 1, 2, 10, rt_s, rt_s, 100][kind];
            desc.push(["0 s", "1 s", "2 s", "10 s", "silent client", "half a request", "100 s"][kind]);
            let q = query(0x100 + i as u16, &format!("t{}.example.", [0, 1, 2, 10, 0, 0, 100][kind]), A);
            let slot = (0..w).min_by_key(|s| free[*s]).unwrap();
            free[slot] += secs * SEC;
            if udp_fails {
                let c = client::connect(me(i), to).unwrap_or_else(|| rt::fail("no tcp listener", format!("{} refuses", to)));
                match kind {
                    4 => {}
                    5 => client::send(c, &framed(&q)[..7]),
                    _ => client::send(c, &framed(&q)),
                }
                sent.push((i, Some(c), q, free[slot], kind));
            } else {
                client::send_udp(me(i), to, &q);
                sent.push((i, None, q, free[slot], kind));
            }
            rt::settle();
        }
        let start = rt::now();
        let delay = *rt::pick_of(&[0, 1]);
        if delay > 0 {
            rt::sleep(Duration::new(delay, 0));
        }
        open.set(true);
        let what = format!("{} fails, {}, {} workers, requests {:?}, failure after {} s", if udp_fails { "UDP" } else { "TCP" }, addr, w, desc, delay);
        let at = returned(svc, &|| failed.get(), &what);
        let _ = start;
        for (i, c, q, done, kind) in &sent {
            let secs = *done;
            if *kind == 4 || *kind == 5 || secs > SHORT {
                continue;
            }
            let got = match c {
                None => udp_replies(me(*i)).into_iter().next().unwrap_or_default(),
                Some(c) => client::recv(*c),
            };
            if Some(&got) != proper(q, c.is_none()).as_ref() {
                rt::fail("an accepted request is not answered", format!("request {} got {:?} when the service returned {} s after the failure ({})", i, hex(&got), (at - failed.get().unwrap()) as f64 / 1e9, what));
            }
        }
        gone((400 + 3 * rt_s) * SEC, &what);
        rt::count(if udp_fails { "TCP requests in progress" } else { "UDP requests in progress" });
        rt::sample(|| what.clone());
    });

    // the other listener has been at work for long
    ck.rt("after many requests", opts().steps(60_000_000), || {
        let udp_fails = rt::pick_bool();
        let total = *rt::pick_of(&[1usize, 255, 256, 300, 3000, 66_000]);
        let panics = rt::pick_bool();
        if total > 5000 && udp_fails {
            rt::prune();
        }
        let open = Rc::new(Cell::new(false));
        let failed = Rc::new(Cell::new(None));
        let (o2, f2) = (open.clone(), failed.clone());
        rt::k().net.fault = Some(Rc::new(move |op| {
            let hit = match op {
                Op::UdpBind(a) => udp_fails && a.port() != 0,
                Op::Listen(_) => !udp_fails,
                _ => false,
            };
            if !hit {
                return None;
            }
            let o = o2.clone();
            rt::block_on("slow to fail", &move || o.get(), None);
            f2.set(Some(rt::now()));
            if panics {
                panic!("a defect of the system");
            }
            Some(Action::Err(os(libc::EADDRINUSE)))
        }));
        let n = Net { udp_threads: 1 + rt::pick(2), tcp_threads: 2, ..Net::default() };
        let svc = run(nameserver(&demo_zone()), &n);
        ready();
        let q = query(0x300, "www.example.", A);
        let mut seen = 0;
        for i in 0..total {
            if udp_fails {
                let c = tcp_open(&n, cl(i % 5));
                client::send(c, &framed(&q));
                rt::settle();
                seen += (Some(client::recv(c)) == proper(&q, false)) as usize;
            } else {
                client::send_udp(cl(i % 5), n.udp, &q);
                rt::settle();
                seen += udp_replies(cl(i % 5)).iter().filter(|r| Some(*r) == proper(&q, true).as_ref()).count();
            }
        }
        let what = format!("{} {} after {} requests", if udp_fails { "UDP" } else { "TCP" }, if panics { "panics" } else { "fails" }, total);
        if seen != total {
            rt::fail("an accepted request is not answered", format!("{} of {} replies ({})", seen, total, what));
        }
        open.set(true);
        returned(svc, &|| failed.get(), &what);
        gone(0, &what);
        rt::sample(|| what.clone());
    });

    ck.rt("requests arriving around the failure", opts().sched(ck.by(2, 3)).cap(ck.by(120.0, 900.0)), || {
        let udp_fails = rt::pick_bool();
        inject(udp_fails, !udp_fails, 0);
        let n = Net::default();
        let svc = run(nameserver(&demo_zone()), &n);
        let k = 1 + rt::pick(2);
        for i in 0..k {
            let q = query(0x200 + i as u16, "www.example.", A);
            if udp_fails {
                if let Some(c) = client::connect(cl(i), n.tcp) {
                    client::send(c, &framed(&q));
                }
            } else {
                client::send_udp(cl(i), n.udp, &q);
            }
            rt::point();
        }
        let what = format!("{} fails, {} requests", if udp_fails { "UDP" } else { "TCP" }, k);
        returned(svc, &|| None, &what);
        for i in 0..k {
            let q = query(0x200 + i as u16, "www.example.", A);
            for r in udp_replies(cl(i)) {
                if Some(&r) != proper(&q, true).as_ref() {
                    rt::fail("wrong reply", format!("client {} got {} ({})", i, hex(&r), what));
                }
            }
        }
        gone(60 * SEC, &what);
        rt::sample(|| what.clone());
    });

    ck.rt("a listener with no workers", opts().sched(ck.by(2, 3)).cap(ck.by(60.0, 600.0)), || {
        let (u, t) = *rt::pick_of(&[(0, 1), (1, 0), (0, 0)]);
        let n = Net { udp_threads: u, tcp_threads: t, ..Net::default() };
        let svc = run(nameserver(&demo_zone()), &n);
        let what = format!("{} UDP workers, {} TCP workers", u, t);
        returned(svc, &|| None, &what);
        gone(0, &what);
        rt::sample(|| what.clone());
    });

    ck.rt("a listener without threads", opts().sched(ck.by(2, 3)).cap(ck.by(60.0, 600.0)), || {
        // the i-th worker cannot be created
        let w = 1 + rt::pick(2);
        let nth = rt::pick(2 * w);
        let count = Rc::new(RefCell::new(0));
        let svc_tid = Rc::new(Cell::new(usize::MAX));
        let s2 = svc_tid.clone();
        rt::k().spawn_fault = Some(Rc::new(move || {
            if rt::cur() == s2.get() {
                return false;
            }
            *count.borrow_mut() += 1;
            *count.borrow() == nth + 1
        }));
        let n = Net { udp_threads: w, tcp_threads: w, ..Net::default() };
        let svc = run(nameserver(&demo_zone()), &n);
        svc_tid.set(svc);
        let what = format!("worker {} of {} cannot be created", nth, 2 * w);
        returned(svc, &|| None, &what);
        // workers created before the failure may wait for the end of the process
        let n = &rt::k().net;
        rt::sleep_ns(60 * SEC);
        let open: Vec<String> = n.udp.iter().filter(|s| s.refs > 0 && s.explicit_port).map(|s| format!("udp {}", s.local)).chain(n.lis.iter().filter(|l| l.refs > 0).map(|l| format!("tcp {}", l.local))).collect();
        if !open.is_empty() {
            rt::fail("a socket of the service is left open", format!("{:?} ({})", open, what));
        }
        rt::sample(|| what.clone());
    });
    ck.finish()
}
