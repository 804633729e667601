//! C12: TCP framing under every segmentation, fault, stall and window.
use ariadne_dns::resolver::{ResolverHandler, ResolverParams};
use checks::servers::*;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::io;
use std::rc::Rc;
use std::time::Duration;
use vstd::mc;
use vstd::net::{client, Action, ConnId, Op};

const SEC: u64 = 1_000_000_000;

fn os(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}
/// Start the nameserver with one worker for each transport.
fn server(threads: usize) -> Net {
    let n = Net { tcp_threads: threads, ..Net::default() };
    run(nameserver(&demo_zone()), &n);
    ready();
    n
}
/// The proper reply to a request, framed.
fn proper(req: &[u8]) -> Vec<u8> {
    checks::servers::proper(req, false).unwrap_or_default()
}
/// A later client is served, within the time a stuck connection may hold the only worker.
fn still_serves(n: &Net, what: &str) {
    let c = tcp_open(n, cl(9));
    let q = query(0x5151, "www.example.", A);
    client::send(c, &framed(&q));
    rt::sleep(Duration::new(30, 0));
    let got = client::recv(c);
    let want = proper(&q);
    if got != want {
        rt::fail("later connection not served", format!("after {}: {} instead of {} for a good request on another connection", what, hex(&got), hex(&want)));
    }
    if !client::server_closed(c) {
        rt::fail("connection left open", format!("after {}: the connection of a served request is not closed", what));
    }
}
fn must_equal(c: ConnId, want: &[u8], what: &str) {
    let got = client::recv(c);
    if got != want {
        rt::fail("wrong reply bytes", format!("{}: {} instead of {}", what, hex(&got), hex(want)));
    }
}
fn must_prefix(c: ConnId, want: &[u8], what: &str) -> usize {
    let got = client::recv(c);
    if !want.starts_with(&got) {
        rt::fail("reply bytes that are no prefix of the reply", format!("{}: {} where only a prefix of {} may come", what, hex(&got), hex(want)));
    }
    got.len()
}
fn panicked(what: &str) {
    // a panic of a worker is not by itself forbidden here; it is recorded
    if let Some(p) = rt::k().panics.first() {
        rt::count(&format!("panic in the server ({})", p.loc.rsplit('/').next().unwrap_or("")));
        let _ = what;
    }
}

/// Requests which understand, reject and ignore.
fn requests() -> Vec<(&'static str, Vec<u8>)> {
    let mut v = vec![
        ("answer", query(0x0101, "www.example.", A)),
        ("name error", query(0x0202, "nx.example.", A)),
        ("large answer", query(0x0303, "big.example.", TXT)),
        ("malformed", query(0x0404, "www.example.", A)[..20].to_vec()),
        ("empty", vec![]),
        ("no header", vec![1, 2, 3]),
    ];
    let mut long = query(0x0505, "www.example.", A);
    long[11] = 20; // twenty records in the additional section
    for i in 0..20 {
        long.extend([0, 0, 16, 0, 1, 0, 0, 0, 1, 0, 31, 30]);
        long.extend([b'a' + i; 30]);
    }
    v.push(("longer than a datagram", long));
    v
}

fn segmentation(ck: &mut Check) {
    let reqs = requests();
    let th = ck.thorough();
    ck.rt("segments", opts(), || {
        let (name, req) = rt::pick_of(&reqs);
        let f = framed(req);
        // one, two or three pieces cut anywhere
        let step = if f.len() > 200 && !th { 7 } else { 1 };
        let a = rt::pick(f.len() / step + 1) * step;
        let b = a + rt::pick((f.len() - a) / step + 1) * step;
        let gap = *rt::pick_of(&[0, SEC / 10, 2 * SEC - 1]);
        if gap > 0 && a == 0 && b == 0 {
            rt::prune();
        }
        mc::note(|| format!("{} cut at {} and {} with gaps of {} ns", name, a, b, gap));
        let n = server(1);
        let c = tcp_open(&n, cl(0));
        for part in [&f[..a], &f[a..b], &f[b..]] {
            if !part.is_empty() {
                client::send(c, part);
                if gap > 0 {
                    rt::sleep_ns(gap);
                } else {
                    rt::settle();
                }
            }
        }
        rt::sleep(Duration::new(1, 0));
        must_equal(c, &proper(req), &format!("{} request cut at {} and {}", name, a, b));
        if !client::server_closed(c) {
            rt::fail("connection left open", format!("{} request: the server does not close the connection", name));
        }
        rt::sample(|| format!("{} ({} bytes) cut at {}, {}", name, f.len(), a, b));
    });
    // requests of every length, in segments of every size
    ck.rt("request sizes", opts().steps(2_000_000), || {
        let size = *rt::pick_of(&[40, 255, 256, 257, 511, 512, 513, 1024, 1025, 1460, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 60000, 65534, 65535]);
        let mut req = query(0x0707, *rt::pick_of(&["www.example.", "nx.example.", "big.example."]), *rt::pick_of(&[A, TXT]));
        let mut count = 0u16;
        while size - req.len() >= 12 {
            let k = (size - req.len() - 11).min(256);
            req.extend([0, 0, 16, 0, 1, 0, 0, 0, 1, (k >> 8) as u8, k as u8, (k - 1) as u8]);
            req.extend(vec![b't'; k - 1]);
            count += 1;
        }
        req[10..12].copy_from_slice(&count.to_be_bytes());
        // the last record, or some bytes behind it
        req.resize(size, 0);
        let f = framed(&req);
        let seg = *rt::pick_of(&[f.len(), 1, 2, 3, 512, 1460, 16384, 32768, 65535, 65536]);
        let first = rt::pick(3);
        if f.len() / seg > 5000 && !th || first > 0 && seg == f.len() {
            rt::prune();
        }
        let n = server(1);
        let c = tcp_open(&n, cl(0));
        let (a, b) = f.split_at(first);
        for part in [a].into_iter().chain(b.chunks(seg)).filter(|x| !x.is_empty()) {
            client::send(c, part);
            rt::settle();
        }
        rt::sleep(Duration::new(1, 0));
        must_equal(c, &proper(&req), &format!("request of {} bytes with {} records in segments of {} and {}", size, count, first, seg));
        if !client::server_closed(c) {
            rt::fail("connection left open", format!("request of {} bytes: the server does not close the connection", size));
        }
        rt::sample(|| format!("{} bytes in segments of {}", size, seg));
    });
    // every partition of a short request into segments
    ck.rt("every partition", opts(), || {
        let f = framed(&query(0x0606, ".", A));
        let k = if th { f.len() - 1 } else { 12 };
        let mask = rt::pick(1 << k);
        let n = server(1);
        let c = tcp_open(&n, cl(0));
        let mut seg = vec![];
        for (i, x) in f.iter().enumerate() {
            seg.push(*x);
            // thorough: any of the 18 places; otherwise the first twelve
            if i < k && mask >> i & 1 == 1 {
                client::send(c, &seg);
                seg.clear();
                rt::settle();
            }
        }
        client::send(c, &seg);
        rt::sleep(Duration::new(1, 0));
        must_equal(c, &proper(&f[2..]), &format!("partition {:b}", mask));
    });
    ck.rt("bytes after the request", opts(), || {
        let (_, req) = rt::pick_of(&reqs);
        let (_, extra) = rt::pick_of(&reqs);
        let n = server(1);
        let c = tcp_open(&n, cl(0));
        let mut all = framed(req);
        let cut = rt::pick(3);
        all.extend(&framed(extra)[..if cut == 0 { 1 } else if cut == 1 { 2 } else { extra.len() + 2 }]);
        client::send(c, &all);
        rt::sleep(Duration::new(5, 0));
        let got = client::recv(c);
        let first = proper(req);
        let mut both = first.clone();
        both.extend(proper(extra));
        // further requests on a connection may be served in order or not at all
        if got != first && got != both {
            rt::fail("wrong reply bytes", format!("{} for two requests in a row", hex(&got)));
        }
        still_serves(&n, "two requests on one connection");
    });
}

fn faults(ck: &mut Check) {
    let reqs = requests();
    let budget = ck.by(2, 3);
    ck.rt("read and write faults", opts().fault(budget), || {
        let (name, req) = rt::pick_of(&reqs);
        let n = server(1);
        let hit = Rc::new(std::cell::RefCell::new((false, String::new())));
        let h2 = hit.clone();
        rt::k().net.fault = Some(Rc::new(move |op| {
            let note = |fatal: bool, s: &str| {
                let mut h = h2.borrow_mut();
                h.0 |= fatal;
                h.1 += s;
                h.1 += "; ";
            };
            match op {
                Op::Read(0, 1, n) => match rt::fault(if n > 1 { 5 } else { 4 }) {
                    0 => None,
                    1 => {
                        note(false, "read interrupted");
                        Some(Action::Err(os(libc::EINTR)))
                    }
                    2 => {
                        note(true, "read reset");
                        Some(Action::Err(os(libc::ECONNRESET)))
                    }
                    3 => {
                        note(true, "read timed out");
                        Some(Action::Err(os(libc::EAGAIN)))
                    }
                    _ => {
                        note(false, "short read");
                        Some(Action::Short(1))
                    }
                },
                Op::Write(0, 1, n) => match rt::fault(if n > 1 { 6 } else { 4 }) {
                    0 => None,
                    1 => {
                        note(false, "write interrupted");
                        Some(Action::Err(os(libc::EINTR)))
                    }
                    2 => {
                        note(true, "write to a closed connection");
                        Some(Action::Err(os(libc::EPIPE)))
                    }
                    3 => {
                        note(true, "write timed out");
                        Some(Action::Err(os(libc::EAGAIN)))
                    }
                    4 => {
                        note(false, "short write");
                        Some(Action::Short(1))
                    }
                    _ => {
                        note(false, "write of half");
                        Some(Action::Short(n / 2))
                    }
                },
                Op::Clone(0) => match rt::fault(2) {
                    0 => None,
                    _ => {
                        note(true, "no descriptor for a clone");
                        Some(Action::Err(os(libc::EMFILE)))
                    }
                },
                Op::ConnTimeout(_) => match rt::fault(2) {
                    0 => None,
                    _ => {
                        note(true, "setting a timeout fails");
                        Some(Action::Err(os(libc::EINVAL)))
                    }
                },
                Op::Accept(_) => match rt::fault(4) {
                    0 => None,
                    i => {
                        note(false, "accept fails");
                        Some(Action::Err(os([libc::ECONNABORTED, libc::EMFILE, libc::EINTR][i - 1])))
                    }
                },
                _ => None,
            }
        }));
        let c = tcp_open(&n, cl(0));
        client::send(c, &framed(req));
        rt::sleep(Duration::new(5, 0));
        rt::k().net.fault = None;
        let (fatal, what) = hit.borrow().clone();
        let what = format!("{} request with {}", name, what);
        let want = proper(req);
        if fatal {
            must_prefix(c, &want, &what);
        } else {
            must_equal(c, &want, &what);
        }
        if !client::server_closed(c) {
            rt::fail("connection left open", format!("{}: the connection is not closed", what));
        }
        panicked(&what);
        rt::sample(|| what.clone());
        still_serves(&n, &what);
    });
}

fn clients(ck: &mut Check) {
    let reqs = requests();
    ck.rt("stalls, closes and resets", opts(), || {
        let (name, req) = rt::pick_of(&reqs);
        let f = framed(req);
        let step = if f.len() > 200 { 11 } else { 1 };
        let k = rt::pick((f.len() - 1) / step + 1) * step;
        let how = rt::pick(4);
        let delay = *rt::pick_of(&[0, SEC, 3 * SEC]);
        let n = server(1);
        let c = tcp_open(&n, cl(0));
        if rt::pick_bool() {
            rt::settle();
        }
        client::send(c, &f[..k]);
        let what = format!("{} request of which {} of {} bytes came, then {}", name, k, f.len(), ["nothing", "end of stream", "close", "reset"][how]);
        rt::sleep_ns(delay);
        match how {
            0 => {}
            1 => client::half_close(c),
            2 => client::close(c),
            _ => client::reset(c),
        }
        rt::sleep(Duration::new(10, 0));
        let got = client::recv(c);
        if !got.is_empty() {
            rt::fail("reply to an incomplete request", format!("{}: {}", what, hex(&got)));
        }
        if !client::server_closed(c) {
            rt::fail("connection left open", format!("{}: the connection is not closed", what));
        }
        rt::sample(|| what.clone());
        still_serves(&n, &what);
    });
    ck.rt("a complete request, then the client goes", opts(), || {
        let (name, req) = rt::pick_of(&reqs);
        let f = framed(req);
        let how = 1 + rt::pick(3);
        let settle = rt::pick_bool();
        let n = server(1);
        let c = tcp_open(&n, cl(0));
        client::send(c, &f);
        if settle {
            rt::settle();
        }
        match how {
            1 => client::half_close(c),
            2 => client::close(c),
            _ => client::reset(c),
        }
        rt::sleep(Duration::new(10, 0));
        let what = format!("{} request, then {}", name, ["", "end of stream", "close", "reset"][how]);
        let want = proper(req);
        if how == 1 {
            must_equal(c, &want, &what);
        } else {
            must_prefix(c, &want, &what);
        }
        still_serves(&n, &what);
    });
    let big = ck.by(1usize, 5);
    ck.rt("windows", opts().steps(400_000), || {
        let (name, req) = rt::pick_of(&reqs);
        let want = proper(req);
        // the client takes `w` bytes at a time, stops after `rounds` of them
        let w = match rt::pick(4) {
            0 => rt::pick(4),
            1 => want.len().saturating_sub(rt::pick(4)),
            2 => 1 + rt::pick(40 * big),
            _ => want.len() / (2 + rt::pick(3)),
        };
        let stop = rt::pick(4);
        let gap = *rt::pick_of(&[SEC / 100, 2 * SEC - 1]);
        let n = server(1);
        let c = tcp_open(&n, cl(0));
        client::set_window(c, w);
        client::send(c, &framed(req));
        let mut got = vec![];
        let mut rounds = 0;
        loop {
            rt::sleep_ns(gap);
            if client::server_closed(c) || (stop < 3 && rounds >= stop * 2) || w == 0 {
                break;
            }
            got.extend(client::recv(c));
            rounds += 1;
        }
        rt::sleep(Duration::new(10, 0));
        got.extend(client::recv(c));
        let what = format!("{} request with a window of {} bytes taken every {} ns, {} times", name, w, gap, rounds);
        if !want.starts_with(&got) {
            rt::fail("reply bytes that are no prefix of the reply", format!("{}: {} where only a prefix of {} may come", what, hex(&got), hex(&want)));
        }
        if stop == 3 && w > 0 && got != want {
            rt::fail("wrong reply bytes", format!("{}: {} instead of {}", what, hex(&got), hex(&want)));
        }
        if !client::server_closed(c) {
            rt::fail("connection left open", format!("{}: the connection is not closed", what));
        }
        rt::sample(|| format!("{}: {} of {} bytes", what, got.len(), want.len()));
        still_serves(&n, &what);
    });
    ck.rt("two connections", opts().sched(2), || {
        // both orders and every interleaving of their service
        let (na, ra) = rt::pick_of(&reqs);
        let (nb, rb) = rt::pick_of(&reqs);
        let n = server(1 + rt::pick(2));
        let c0 = tcp_open(&n, cl(0));
        let c1 = tcp_open(&n, cl(1));
        let (f0, f1) = (framed(ra), framed(rb));
        let half = f0.len() / 2;
        client::send(c0, &f0[..half]);
        client::send(c1, &f1);
        rt::sleep(Duration::new(1, 0));
        client::send(c0, &f0[half..]);
        rt::sleep(Duration::new(5, 0));
        must_equal(c0, &proper(ra), &format!("{} request beside a {} request", na, nb));
        must_equal(c1, &proper(rb), &format!("{} request beside a {} request", nb, na));
    });
}

fn sizes(ck: &mut Check) {
    // replies of every size around the limits
    let all: Vec<usize> = (0..=3).chain(500..=520).chain([4095, 4096, 16383, 16384, 32767, 32768]).chain(65525..=65545).chain([66000, 70000, 131072, 131080]).collect();
    ck.rt("reply sizes", opts().mem(2048), || {
        let total = *rt::pick_of(&all);
        let mut m = demo_zone();
        // a reply of `total` bytes, if it can be made so
        let owner = "x.example.";
        let head = 12 + wire_len(&nm(owner)) + 4;
        let per = 2 + 10; // owner compressed to a pointer or written out: found by trying
        let _ = (head, per);
        let build = |fill: usize| {
            let mut recs = vec![];
            let mut left = fill;
            while left > 0 {
                let l = left.min(60_000);
                let mut v: Vec<Vec<u8>> = vec![];
                let mut r = l;
                while r > 0 {
                    let k = r.min(256);
                    v.push(vec![b'a'; k - 1]);
                    r -= k;
                }
                recs.push(rr(owner, 3600, RData::Txt(v)));
                left -= l;
            }
            recs
        };
        // sizes grow by one with the filling, except where a record is added
        let size = |fill: usize| -> usize {
            let q = query(1, owner, TXT);
            let mut msg = decode(&q).msg;
            msg.s[0] = build(fill);
            msg.fix_counts();
            to_message(&msg).encode_to_bytes().unwrap().len()
        };
        let (mut lo, mut hi) = (1, total.max(2));
        while lo < hi {
            let mid = (lo + hi + 1) / 2;
            if size(mid) <= total {
                lo = mid
            } else {
                hi = mid - 1
            }
        }
        m.recs.extend(build(lo));
        let n = Net::default();
        run(nameserver(&m), &n);
        ready();
        let q = query(0x6161, owner, TXT);
        let c = tcp_open(&n, cl(0));
        client::send(c, &framed(&q));
        rt::sleep(Duration::new(5, 0));
        let got = client::recv(c);
        let len = size(lo);
        let msgs = match unframe(&got) {
            Ok(v) => v,
            Err(e) => rt::fail("badly framed reply", format!("a reply of {} bytes comes as {} bytes: {}", len, got.len(), e)),
        };
        if msgs.len() != 1 {
            rt::fail("number of replies", format!("{} messages where a reply of {} bytes is due", msgs.len(), len));
        }
        match decode_strict(&msgs[0]) {
            Err(e) => rt::fail("malformed reply", format!("a reply of {} bytes: {}", len, e)),
            Ok(r) => {
                let want = build(lo);
                if len <= 65535 && (r.h.tc || r.s[0] != want || r.h.rcode != 0) {
                    rt::fail("incomplete reply", format!("a reply of {} bytes comes with {} of {} records, truncation flag {}, response code {}", len, r.s[0].len(), want.len(), r.h.tc, r.h.rcode));
                }
                if len > 65535 && !(r.h.tc || r.h.rcode == 2) {
                    rt::fail("silently incomplete reply", format!("a reply of {} bytes comes with {} of {} records and no sign of it", len, r.s[0].len(), want.len()));
                }
            }
        }
        rt::count(if len <= 65535 { "fits" } else { "does not fit" });
        rt::sample(|| format!("{} bytes", len));
    });
}

fn resolver(ck: &mut Check) {
    ck.rt("resolver", opts().fault(1), || {
        let names = ["www.x.", "nx.x.", "big.x.", "alias.x.", "fail.x.", "silent.x."];
        let req = query(0x0909, *rt::pick_of(&names), A);
        rt::k().net.upstream = Some(Rc::new(universal_upstream));
        let conf = ResolverParams { max_ns_queried: 1, max_upd_retries: 1, max_cname_redir: 3, read_timeout: Duration::new(1, 0), write_timeout: Duration::new(1, 0), no_follow_cname: false };
        let (_, r) = rsv(conf, quiet());
        let n = Net::default();
        run(ResolverHandler(r), &n);
        ready();
        let serve = |i: usize, cut: usize| {
            let c = tcp_open(&n, cl(i));
            let f = framed(&req);
            client::send(c, &f[..cut]);
            rt::settle();
            client::send(c, &f[cut..]);
            rt::sleep(Duration::new(10, 0));
            c
        };
        let whole = serve(0, 0);
        let a = client::recv(whole);
        let cut = rt::pick(framed(&req).len());
        let fatal = Rc::new(std::cell::Cell::new(false));
        let f2 = fatal.clone();
        rt::k().net.fault = Some(Rc::new(move |op| match op {
            Op::Write(1, 1, _) => match rt::fault(3) {
                0 => None,
                1 => Some(Action::Short(1)),
                _ => {
                    f2.set(true);
                    Some(Action::Err(os(libc::EPIPE)))
                }
            },
            _ => None,
        }));
        let c = serve(1, cut);
        let b = client::recv(c);
        rt::k().net.fault = None;
        let strip = |x: &[u8]| unframe(x).ok().filter(|v| v.len() == 1).and_then(|v| decode_strict(&v[0]).ok()).map(|mut m| {
            for s in &mut m.s {
                for r in s {
                    r.ttl = 0
                }
            }
            m
        });
        let (ma, mb) = (strip(&a), strip(&b));
        if ma.is_none() {
            rt::fail("badly framed reply", format!("{} is the reply to {}", hex(&a), hex(&req)));
        }
        if fatal.get() {
            if b.len() > a.len() || !a.is_empty() && b.len() >= 2 && b[..2] != a[..2] {
                rt::fail("reply bytes that are no prefix of the reply", format!("{} where a prefix of {} is due", hex(&b), hex(&a)));
            }
        } else if ma != mb {
            rt::fail("segmentation changes the reply", format!("cut at {}: {} instead of {}", cut, hex(&b), hex(&a)));
        }
    });
}

fn main() {
    let mut ck = Check::start("C12");
    ck.assume("when a reply does not fit in 65535 bytes, a well-formed message with the truncation flag or a server failure is accepted");
    segmentation(&mut ck);
    faults(&mut ck);
    clients(&mut ck);
    sizes(&mut ck);
    resolver(&mut ck);
    ck.finish()
}
