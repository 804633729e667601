//! C14: concurrent clients under every interleaving within the bounds.
use ariadne_dns::nameserver::NameserverHandler;
use ariadne_dns::shared::dns;
use ariadne_dns::shared::net::{DnsHandler, DnsRead, DnsReadResult, DnsWrite};
use checks::servers::*;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::cell::Cell;
use std::io;
use std::net::SocketAddr;
use std::rc::Rc;
use std::time::Duration;
use vstd::net::{client, Action, ConnId, Op};

fn os(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}

/// The nameserver, except that queries for names starting with "slow" wait for the gate.
struct Slow {
    inner: NameserverHandler,
    gate: Rc<Cell<bool>>,
    waiting: Rc<Cell<usize>>,
}
unsafe impl Send for Slow {}
unsafe impl Sync for Slow {}
struct Pre(dns::Message);
impl DnsRead for Pre {
    fn read(self) -> DnsReadResult {
        DnsReadResult::FullMessage(self.0)
    }
}
impl DnsHandler for Slow {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        match req.read() {
            DnsReadResult::FullMessage(m) => {
                if m.questions.first().map_or(false, |q| q.node.as_ref().starts_with("slow")) {
                    self.waiting.set(self.waiting.get() + 1);
                    let g = self.gate.clone();
                    rt::block_on("slow handler", &move || g.get(), None);
                }
                self.inner.handle_request(Pre(m), resp)
            }
            _ => {}
        }
    }
}

enum Sent {
    Udp(usize),
    Tcp(ConnId),
}

fn collect(sent: &[(Sent, Vec<u8>)], what: &str) {
    // UDP: everything a client got against everything it should get
    for i in 0..8 {
        let mut want: Vec<Vec<u8>> = sent.iter().filter(|(s, _)| matches!(s, Sent::Udp(c) if *c == i)).filter_map(|(_, b)| proper(b, true)).collect();
        let mut got = udp_replies(cl(i));
        want.sort();
        got.sort();
        if got != want {
            let sh = |v: &[Vec<u8>]| v.iter().map(|b| decode_strict(b).map_or_else(|_| hex(b), |m| show(&m))).collect::<Vec<_>>().join(" and ");
            let sig = if got.len() < want.len() {
                "reply missing"
            } else if got.len() > want.len() {
                "reply too many"
            } else {
                "foreign or wrong reply"
            };
            rt::fail(sig, format!("UDP client {} got [{}] instead of [{}]: {}", i, sh(&got), sh(&want), what));
        }
    }
    for (s, b) in sent {
        if let Sent::Tcp(c) = s {
            let got = client::recv(*c);
            let want = proper(b, false).unwrap_or_default();
            if got != want {
                rt::fail(if got.is_empty() { "reply missing" } else { "foreign or wrong reply" }, format!("TCP client got {} instead of {}: {}", hex(&got), hex(&want), what));
            }
        }
    }
    let stray: Vec<_> = rt::k().net.sent.iter().map(|d| d.to).collect();
    if !stray.is_empty() {
        rt::fail("datagram to nobody", format!("datagrams to {:?}: {}", stray, what));
    }
}

fn reqs() -> Vec<Vec<u8>> {
    vec![
        query(0x0001, "www.example.", A),
        query(0x0002, "nx.example.", TXT),
        query(0x0003, "big.example.", TXT),
        query(0x0004, "x.sub.example.", A),
        query(0x0005, "other.", A),
        query(0x0006, "alias.example.", MX),
        query(0x0007, "www.example.", 28),
        query(0x0008, "www.example.", A)[..21].to_vec(),
    ]
}

fn main() {
    let mut ck = Check::start("C14");
    let th = ck.thorough();
    let sched = ck.by(2, 3);
    let rs = reqs();
    let names = |v: &[usize]| format!("requests {:?}", v);

    ck.rt("clients of both transports", opts().sched(sched).cap(ck.by(200.0, 1500.0)), || {
        let k = 2 + rt::pick(2);
        let workers = 1 + rt::pick(2);
        let n = Net { udp_threads: workers, tcp_threads: workers, ..Net::default() };
        run(nameserver(&demo_zone()), &n);
        if rt::pick_bool() {
            ready();
        } else {
            // the listeners must at least be there
            rt::block_on("listeners", &|| rt::k().net.bound_log.len() == 2, None);
        }
        let mut sent = vec![];
        let mut which = vec![];
        let choice: &[usize] = if th { &[0, 1, 2, 3, 4, 7] } else { &[0, 1, 3] };
        for i in 0..k {
            let r = *rt::pick_of(choice);
            which.push(r);
            // distinct ids, so that mixed-up replies show
            let mut b = rs[r].clone();
            b[0] = 0x10 + i as u8;
            if rt::pick_bool() {
                client::send_udp(cl(i), n.udp, &b);
                sent.push((Sent::Udp(i), b));
            } else {
                let c = tcp_open(&n, cl(i));
                client::send(c, &framed(&b));
                sent.push((Sent::Tcp(c), b));
            }
            rt::point();
        }
        rt::sleep(Duration::new(5, 0));
        collect(&sent, &names(&which));
        rt::count(&format!("{} clients", k));
        rt::sample(|| names(&which));
    });

    let deep = ck.by(3, 4);
    ck.rt("two datagrams, more preemptions", opts().sched(deep).cap(ck.by(120.0, 1500.0)), || {
        let n = Net { udp_threads: 1 + rt::pick(2), ..Net::default() };
        run(nameserver(&demo_zone()), &n);
        ready();
        let same = rt::pick_bool();
        let mut sent = vec![];
        for i in 0..2 {
            let mut b = rs[[0, 1][i]].clone();
            b[0] = 0x20 + i as u8;
            let c = if same { 0 } else { i };
            client::send_udp(cl(c), n.udp, &b);
            sent.push((Sent::Udp(c), b));
            rt::point();
        }
        rt::sleep(Duration::new(5, 0));
        collect(&sent, "two datagrams");
        rt::sample(|| "two datagrams".into());
    });

    ck.rt("all sequences of datagrams", opts(), || {
        let k = 1 + rt::pick(if th { 5 } else { 4 });
        let n = Net { udp_threads: 1 + rt::pick(3), ..Net::default() };
        run(nameserver(&demo_zone()), &n);
        ready();
        let mut sent = vec![];
        let mut which = vec![];
        for i in 0..k {
            let r = rt::pick(rs.len());
            which.push(r);
            let mut b = rs[r].clone();
            b[0] = i as u8 + 1;
            client::send_udp(cl(i % 3), n.udp, &b);
            sent.push((Sent::Udp(i % 3), b));
            if rt::pick_bool() {
                rt::settle();
            }
        }
        rt::sleep(Duration::new(5, 0));
        collect(&sent, &names(&which));
        rt::sample(|| names(&which));
    });

    ck.rt("slow handlers block nobody while a worker is free", opts().sched(ck.by(1, 2)), || {
        let w = 2 + rt::pick(2);
        let slow = 1 + rt::pick(w - 1);
        let n = Net { udp_threads: w, tcp_threads: w, ..Net::default() };
        let gate = Rc::new(Cell::new(false));
        let waiting = Rc::new(Cell::new(0));
        run(Slow { inner: nameserver(&demo_zone()), gate: gate.clone(), waiting: waiting.clone() }, &n);
        ready();
        let udp = rt::pick_bool();
        let fast = 1 + rt::pick(3);
        // the slow ones among the first
        let mut sent: Vec<(Sent, Vec<u8>)> = vec![];
        let mut put = |i: usize, b: Vec<u8>, udp: bool| {
            if udp {
                client::send_udp(cl(i), n.udp, &b);
                sent.push((Sent::Udp(i), b));
            } else {
                let c = tcp_open(&n, cl(i));
                client::send(c, &framed(&b));
                sent.push((Sent::Tcp(c), b));
            }
        };
        let first_fast = rt::pick_bool();
        if first_fast {
            put(0, query(0x0100, "www.example.", A), udp);
        }
        for i in 0..slow {
            put(1 + i, query(0x0200 + i as u16, "slow.example.", A), udp);
        }
        if rt::pick_bool() {
            rt::settle();
        }
        for i in 0..fast {
            put(4 + i, query(0x0300 + i as u16, "www.example.", A), udp);
        }
        rt::settle();
        // no time has passed: the fast ones must be served
        let served = |s: &(Sent, Vec<u8>)| match s.0 {
            Sent::Udp(i) => rt::k().net.sent.iter().any(|d| d.to == cl(i)),
            Sent::Tcp(c) => !client::peek(c).is_empty(),
        };
        for s in &sent {
            let is_slow = s.1[0] == 2;
            if !is_slow && !served(s) {
                rt::fail("request waits although a worker is free", format!("{} workers, {} slow requests: a fast request is not served ({})", w, slow, if udp { "UDP" } else { "TCP" }));
            }
        }
        gate.set(true);
        rt::sleep(Duration::new(5, 0));
        collect(&sent, "slow handlers");
        rt::sample(|| format!("{} workers, {} slow", w, slow));
    });

    ck.rt("pools of every size", opts().steps(2_000_000), || {
        let w = *rt::pick_of(&[4usize, 5, 7, 8, 9, 12, 16, 17, 25, 32, 33, 50, 64, 65, 100, 128, 129, 257]);
        let udp = rt::pick_bool();
        let stuck = rt::pick_bool() && !udp;
        // the other transport has few workers
        let n = if udp { Net { udp_threads: w, tcp_threads: 1, ..Net::default() } } else { Net { udp_threads: 1, tcp_threads: w, ..Net::default() } };
        let gate = Rc::new(Cell::new(false));
        let waiting = Rc::new(Cell::new(0));
        run(Slow { inner: nameserver(&demo_zone()), gate: gate.clone(), waiting: waiting.clone() }, &n);
        ready();
        let mut sent: Vec<(Sent, Vec<u8>)> = vec![];
        let mut held: Vec<ConnId> = vec![];
        for i in 0..w - 1 {
            let b = query(0x0200 + i as u16, "slow.example.", A);
            if udp {
                client::send_udp(cl(i % 7), n.udp, &b);
                sent.push((Sent::Udp(i % 7), b));
            } else {
                let c = tcp_open(&n, cl(i % 7));
                if stuck {
                    held.push(c);
                } else {
                    client::send(c, &framed(&b));
                    sent.push((Sent::Tcp(c), b));
                }
            }
        }
        for round in 0..2u16 {
            let b = query(0x1000 + round, "www.example.", A);
            let ok = if udp {
                client::send_udp(cl(7), n.udp, &b);
                sent.push((Sent::Udp(7), b));
                rt::settle();
                rt::k().net.sent.iter().filter(|d| d.to == cl(7)).count() == 1 + round as usize
            } else {
                let c = tcp_open(&n, cl(7));
                client::send(c, &framed(&b));
                sent.push((Sent::Tcp(c), b));
                rt::settle();
                !client::peek(c).is_empty()
            };
            if !ok {
                rt::fail("request waits although a worker is free", format!("{} workers, {} of them busy: a request is not served ({})", w, w - 1, if udp { "UDP" } else { "TCP" }));
            }
        }
        gate.set(true);
        rt::sleep(Duration::new(30, 0));
        collect(&sent, "slow handlers");
        rt::sample(|| format!("{} workers", w));
    });

    ck.rt("clients of every address", opts(), || {
        let six = rt::pick_bool();
        let at = if six { *rt::pick_of(&["[fd00::9]:5300", "[fd00::9]:53"]) } else { *rt::pick_of(&["10.0.0.1:5300", "10.0.0.1:53"]) };
        let n = Net { udp: sa(at), tcp: sa(at), ..Net::default() };
        let ip = if six { *rt::pick_of(&["fd00::1", "::1", "fe80::1", "2001:db8::ffff", "::ffff:10.0.0.7", "ff::1"]) } else { *rt::pick_of(&["10.0.0.1", "10.0.0.2", "10.0.0.255", "10.255.255.255", "127.0.0.1", "127.0.0.53", "1.0.0.0", "169.254.1.1", "172.16.0.1", "192.168.1.1", "100.64.0.1", "8.8.8.8", "198.41.0.4", "223.255.255.255"]) };
        let port = *rt::pick_of(&[1u16, 7, 19, 22, 53, 123, 1023, 1024, 1025, 5353, 32767, 32768, 49151, 49152, 65535]);
        let me = SocketAddr::new(ip.parse().unwrap(), port);
        // it would answer its own answers for ever
        if me == n.udp {
            rt::prune();
        }
        run(nameserver(&demo_zone()), &n);
        ready();
        let good = query(0x0a0a, "www.example.", A);
        client::send_udp(me, n.udp, &good);
        let c = tcp_open(&n, me);
        client::send(c, &framed(&good));
        rt::settle();
        for (got, udp) in [(udp_replies(me).concat(), true), (client::recv(c), false)] {
            let want = proper(&good, udp).unwrap();
            if got != want {
                rt::fail(if got.is_empty() { "reply missing" } else { "foreign or wrong reply" }, format!("a {} client at {} got {} instead of {}", if udp { "UDP" } else { "TCP" }, me, hex(&got), hex(&want)));
            }
        }
        rt::sample(|| format!("{} asks {}", me, at));
    });
    ck.rt("long idle listeners", opts(), || {
        let n = Net { udp_threads: 1 + rt::pick(2), tcp_threads: 1 + rt::pick(2), ..Net::default() };
        run(nameserver(&demo_zone()), &n);
        let idle = [60, 3600, 86400 * 30];
        let mut desc = vec![];
        for round in 0..3 {
            let secs = *rt::pick_of(&idle);
            desc.push(secs);
            rt::sleep(Duration::new(secs, 0));
            let mut sent = vec![];
            for i in 0..2 {
                let b = query(0x4000 + round * 16 + i, "www.example.", A);
                client::send_udp(cl(i as usize), n.udp, &b);
                sent.push((Sent::Udp(i as usize), b));
                let b = query(0x5000 + round * 16 + i, "big.example.", TXT);
                let c = tcp_open(&n, cl(4 + i as usize));
                client::send(c, &framed(&b));
                sent.push((Sent::Tcp(c), b));
            }
            rt::sleep(Duration::new(5, 0));
            collect(&sent, &format!("idle for {:?} s", desc));
        }
        rt::sample(|| format!("idle for {:?} s", desc));
    });

    // one after the other, or as many waiting as there are while all workers are busy
    ck.rt("many requests", opts().steps(60_000_000), || {
        let w = 1 + rt::pick(2);
        let n = Net { udp_threads: w, tcp_threads: w, ..Net::default() };
        let udp = rt::pick_bool();
        let burst = *rt::pick_of(&[1usize, 2, 1500]);
        let total = if burst > 2 { burst } else if udp { 70_000 } else { *rt::pick_of(&[300, 3000]) };
        let what = format!("{} {} requests, {} at a time, {} workers", total, if udp { "UDP" } else { "TCP" }, burst, w);
        let gate = Rc::new(Cell::new(true));
        let waiting = Rc::new(Cell::new(0));
        run(Slow { inner: nameserver(&demo_zone()), gate: gate.clone(), waiting: waiting.clone() }, &n);
        ready();
        let good = query(0x0a0a, "www.example.", A);
        let want = proper(&good, udp).unwrap();
        let send = |i: usize, b: &[u8]| {
            if udp {
                client::send_udp(cl(i % 7), n.udp, b);
                None
            } else {
                let c = tcp_open(&n, cl(i % 7));
                client::send(c, &framed(b));
                Some(c)
            }
        };
        let mut seen = 0;
        let mut conns: Vec<ConnId> = vec![];
        for i in 0..total {
            if burst > 2 && i == 0 {
                // every worker is kept busy
                gate.set(false);
                for k in 0..w {
                    send(7, &query(0x0b00 + k as u16, "slow.example.", A));
                }
                rt::settle();
            }
            conns.extend(send(i, &good));
            if i % burst == burst - 1 {
                if burst > 2 {
                    rt::settle();
                    gate.set(true);
                }
                rt::settle();
                for c in conns.drain(..) {
                    seen += (client::recv(c) == want) as usize;
                    if !client::server_closed(c) {
                        rt::fail("a connection stays open", format!("after the reply to request {} the connection stays open ({})", i, what));
                    }
                }
                for k in 0..7 {
                    seen += udp_replies(cl(k)).iter().filter(|b| **b == want).count();
                }
                if seen != i + 1 {
                    rt::fail("reply missing", format!("{} of {} requests have been answered when nothing moves any more ({})", seen, i + 1, what));
                }
            }
        }
        rt::sample(|| what.clone());
    });

    ck.rt("stuck TCP clients", opts().sched(ck.by(1, 2)), || {
        let w = 1 + rt::pick(3);
        let stuck = rt::pick(w + 1);
        let n = Net { tcp_threads: w, ..Net::default() };
        run(nameserver(&demo_zone()), &n);
        ready();
        let good = query(0x0a0a, "www.example.", A);
        let how = rt::pick(4);
        let mut conns = vec![];
        for i in 0..stuck {
            let c = tcp_open(&n, cl(i));
            let f = framed(&query(0x0b00 + i as u16, "big.example.", TXT));
            match how {
                0 => {}
                1 => client::send(c, &f[..1]),
                2 => client::send(c, &f[..f.len() - 1]),
                _ => {
                    client::set_window(c, 5);
                    client::send(c, &f)
                }
            }
            conns.push(c);
        }
        if rt::pick_bool() {
            rt::settle();
        }
        client::send_udp(cl(6), n.udp, &good);
        let c = tcp_open(&n, cl(7));
        client::send(c, &framed(&good));
        rt::settle();
        // UDP has its own workers
        if !rt::k().net.sent.iter().any(|d| d.to == cl(6)) {
            rt::fail("request waits although a worker is free", format!("a UDP request waits for {} stuck TCP clients", stuck));
        }
        if stuck < w && client::peek(c).is_empty() {
            rt::fail("request waits although a worker is free", format!("a TCP request waits for {} stuck TCP clients with {} workers", stuck, w));
        }
        // later, when the stuck ones have timed out, everybody is served
        rt::sleep(Duration::new(10, 0));
        collect(&[(Sent::Udp(6), good.clone()), (Sent::Tcp(c), good.clone())], "stuck clients");
        rt::count(&format!("{} of {} stuck", stuck, w));
        rt::sample(|| format!("{} of {} workers stuck", stuck, w));
    });

    ck.rt("socket errors", opts().fault(ck.by(2, 3)), || {
        let n = Net::default();
        run(nameserver(&demo_zone()), &n);
        ready();
        let lost = Rc::new(Cell::new(0));
        let l2 = lost.clone();
        let conn_lost = Rc::new(Cell::new(false));
        let c2 = conn_lost.clone();
        let bad = cl(0);
        rt::k().net.fault = Some(Rc::new(move |op| match op {
            Op::UdpRecv(_) => match rt::fault(4) {
                0 => None,
                i => Some(Action::Err(os([libc::EINTR, libc::ECONNREFUSED, libc::ENOMEM][i - 1]))),
            },
            Op::UdpSend(_, to, _) if to == bad => match rt::fault(4) {
                0 => None,
                i => {
                    l2.set(l2.get() + 1);
                    Some(Action::Err(os([libc::EAGAIN, libc::EPERM, libc::ENETUNREACH][i - 1])))
                }
            },
            Op::UdpClone(_) => match rt::fault(2) {
                0 => None,
                _ => {
                    l2.set(l2.get() + 100);
                    Some(Action::Err(os(libc::EMFILE)))
                }
            },
            Op::Accept(_) => match rt::fault(3) {
                0 => None,
                i => Some(Action::Err(os([libc::ECONNABORTED, libc::EMFILE][i - 1]))),
            },
            // the connection whose set-up fails is lost, no other
            Op::ConnTimeout(_) | Op::Clone(_) => match rt::fault(2) {
                0 => None,
                _ => {
                    c2.set(true);
                    Some(Action::Err(os(libc::EINVAL)))
                }
            },
            _ => None,
        }));
        let b0 = query(0x0c00, "www.example.", A);
        let b1 = query(0x0d01, "nx.example.", A);
        let b2 = query(0x0e02, "alias.example.", A);
        client::send_udp(cl(0), n.udp, &b0);
        client::send_udp(cl(1), n.udp, &b1);
        let c = tcp_open(&n, cl(2));
        client::send(c, &framed(&b2));
        rt::sleep(Duration::new(5, 0));
        rt::k().net.fault = None;
        // what failed is lost, nothing else
        let r0 = udp_replies(cl(0));
        let r1 = udp_replies(cl(1));
        let w0 = proper(&b0, true).unwrap();
        let w1 = proper(&b1, true).unwrap();
        if r0.iter().any(|r| *r != w0) || r1.iter().any(|r| *r != w1) || r0.len() > 1 || r1.len() > 1 {
            rt::fail("foreign or wrong reply", format!("with socket errors, client 0 got {:?}, client 1 got {:?}", r0.iter().map(|b| hex(b)).collect::<Vec<_>>(), r1.iter().map(|b| hex(b)).collect::<Vec<_>>()));
        }
        let missing = 2 - r0.len() - r1.len();
        let allowed = (lost.get() % 100).min(1) + lost.get() / 100;
        if missing > allowed || (r1.is_empty() && lost.get() < 100) {
            rt::fail("reply missing", format!("{} UDP replies are missing, {} were made to fail", missing, allowed));
        }
        if !conn_lost.get() {
            collect(&[(Sent::Tcp(c), b2.clone())], "socket errors");
        } else {
            let got = client::recv(c);
            if !got.is_empty() && Some(&got) != proper(&b2, false).as_ref() {
                rt::fail("foreign or wrong reply", format!("on a connection whose set-up failed: {}", hex(&got)));
            }
        }
        let b3 = query(0x0f03, "www.example.", A);
        client::send_udp(cl(3), n.udp, &b3);
        let c = tcp_open(&n, cl(4));
        client::send(c, &framed(&b2));
        rt::sleep(Duration::new(5, 0));
        collect(&[(Sent::Udp(3), b3), (Sent::Tcp(c), b2)], "after socket errors");
        rt::sample(|| format!("{} replies lost", missing));
    });
    ck.finish()
}
