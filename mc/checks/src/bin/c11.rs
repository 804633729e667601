//! C11: every request with a readable header gets exactly one proper reply.
use ariadne_dns::resolver::{ResolverHandler, ResolverParams};
use checks::servers::*;
use checks::wire::*;
use checks::{corpus, opts, rt, Check};
use std::rc::Rc;
use std::time::Duration;
use vstd::mc;
use vstd::net::client;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Ns,
    Rs,
}

/// Which replies a request may get.
struct Exp {
    min: usize,
    max: usize,
    rcodes: Vec<u8>,
    /// the reply must carry the question
    question: bool,
    why: &'static str,
}

fn expect(kind: Kind, b: &[u8], udp: bool) -> (Exp, Decoded) {
    let cut = udp && b.len() > 512;
    let d = decode(if cut { &b[..512] } else { b });
    let normal: Vec<u8> = if kind == Kind::Ns { vec![0, 3, 5] } else { vec![0, 2, 3] };
    let any: Vec<u8> = [&normal[..], &[1, 4]].concat();
    let e = |min, max, rcodes: &[u8], question, why| Exp { min, max, rcodes: rcodes.to_vec(), question, why };
    if b.len() < 12 {
        return (e(0, 0, &[], false, "no header"), d);
    }
    let h = d.header.clone().unwrap();
    if h.opcode > 2 || h.rcode > 5 {
        // no such operation or response code: whether the header counts as readable is left open
        return (e(0, 1, &any, false, "unknown operation or response code"), d);
    }
    if h.qr {
        return (e(0, 1, &any, false, "a response"), d);
    }
    if cut {
        return (e(1, 1, &any, false, "longer than a datagram may be"), d);
    }
    let exp = match &d.verdict {
        Verdict::Bad(_) if h.opcode != 0 => e(1, 1, &[1, 4], false, "malformed and unsupported"),
        Verdict::Bad(_) if d.skipped > 0 || d.unsupported => e(1, 1, &[1, 4], false, "malformed, perhaps unsupported"),
        Verdict::Bad(_) => e(1, 1, &[1], false, "malformed"),
        Verdict::Open(_) => e(1, 1, &any, false, "open"),
        Verdict::Unsupported(w) if *w != "unknown class" && h.counts[0] == 1 && h.counts[1] == 0 && h.counts[2] == 0 && d.trailing == 0 && d.skipped == 0 => {
            e(1, 1, &[4], false, "unsupported")
        }
        Verdict::Unsupported(_) => e(1, 1, &[1, 4], false, "unsupported and irregular"),
        Verdict::Good => {
            if d.skipped > 0 {
                e(1, 1, &any, false, "records of unknown type")
            } else if h.counts[0] != 1 || h.counts[1] != 0 || h.counts[2] != 0 {
                e(1, 1, &[1], false, "wrong counts")
            } else if d.trailing > 0 {
                e(1, 1, &any, false, "bytes after the message")
            } else {
                e(1, 1, &normal, true, "understood")
            }
        }
    };
    (exp, d)
}

fn conf() -> ResolverParams {
    ResolverParams {
        max_ns_queried: 1,
        max_upd_retries: 1,
        max_cname_redir: 3,
        read_timeout: Duration::new(1, 0),
        write_timeout: Duration::new(1, 0),
        no_follow_cname: false,
    }
}

fn judge(kind: Kind, udp: bool, req: &[u8], replies: &[Vec<u8>]) {
    let (e, d) = expect(kind, req, udp);
    let what = format!("{} request {} ({})", if udp { "UDP" } else { "TCP" }, hex(req), e.why);
    rt::count(e.why);
    if replies.len() < e.min || replies.len() > e.max {
        rt::fail(&format!("{} replies: {}", replies.len(), e.why), format!("{} replies to the {}", replies.len(), what));
    }
    for r in replies {
        let m = match decode_strict(r) {
            Ok(m) => m,
            Err(x) => rt::fail("malformed reply", format!("{} in the reply {} to the {}", x, hex(r), what)),
        };
        let h = d.header.clone().unwrap();
        let bad = |w: &str| -> ! { rt::fail(w, format!("{}: {} is the reply to the {}", w, show(&m), what)) };
        if !m.h.qr {
            bad("reply not marked as a response")
        }
        if m.h.id != h.id {
            bad("wrong id")
        }
        if m.h.opcode != h.opcode && h.opcode <= 2 {
            bad("wrong operation code")
        }
        if m.h.rd != h.rd {
            bad("wrong recursion-desired bit")
        }
        if m.h.z != 0 {
            bad("reserved bits set in the reply")
        }
        if m.h.ra != (kind == Kind::Rs) {
            bad("wrong recursion-available bit")
        }
        if kind == Kind::Rs && m.h.aa {
            bad("the resolver claims authority")
        }
        if !e.rcodes.contains(&m.h.rcode) {
            bad(&format!("response code {}: {}", m.h.rcode, e.why))
        }
        let big = d.msg.q.iter().any(|q| q.name.first().map_or(false, |l| l.eq_ignore_ascii_case(b"big")) || wire_len(&q.name) > 200);
        if m.h.tc && !(udp && big) {
            bad("truncation flag on a complete reply")
        }
        if e.question && m.q != d.msg.q {
            bad("the question is missing or changed")
        }
        if !m.q.is_empty() && m.q != d.msg.q && !m.h.tc {
            bad("a question which was not asked")
        }
        rt::count(&format!("rcode {}", m.h.rcode));
        rt::sample(|| format!("{} -> {}", what, show(&m)));
    }
}

fn start(kind: Kind, n: &Net) {
    rt::k().net.upstream = Some(Rc::new(universal_upstream));
    match kind {
        Kind::Ns => run(nameserver(&demo_zone()), n),
        Kind::Rs => {
            let (_, r) = rsv(conf(), quiet());
            run(ResolverHandler(r), n)
        }
    };
    ready();
}
/// The replies to one request of client `i`.
fn exchange(n: &Net, udp: bool, i: usize, b: &[u8]) -> Vec<Vec<u8>> {
    if udp {
        udp_send(n, cl(i), b);
        rt::sleep(Duration::new(5, 0));
        udp_replies(cl(i))
    } else {
        let c = tcp_open(n, cl(i));
        client::send(c, &framed(b));
        rt::sleep(Duration::new(5, 0));
        let got = client::recv(c);
        match unframe(&got) {
            Ok(v) => v,
            Err(x) => rt::fail("badly framed reply", format!("{} in the reply {} to the TCP request {}", x, hex(&got), hex(b))),
        }
    }
}

/// One request to a fresh server with a single worker, then a good one.
fn one(kind: Kind, udp: bool, req: &[u8]) {
    mc::note_bytes(req);
    let n = Net::default();
    start(kind, &n);
    let replies = exchange(&n, udp, 0, req);
    judge(kind, udp, req, &replies);
    let ok = query(0x7777, "www.example.", A);
    let r = exchange(&n, udp, 1, &ok);
    if r.len() != 1 {
        rt::fail("server no longer serves", format!("{} replies to a good query after the {} request {}", r.len(), if udp { "UDP" } else { "TCP" }, hex(req)));
    }
    judge(kind, udp, &ok, &r);
}

fn with_flags(mut b: Vec<u8>, f: u16) -> Vec<u8> {
    b[2] = (f >> 8) as u8;
    b[3] = f as u8;
    b
}
fn with_counts(mut b: Vec<u8>, c: [u16; 4]) -> Vec<u8> {
    for i in 0..4 {
        b[4 + 2 * i..6 + 2 * i].copy_from_slice(&c[i].to_be_bytes());
    }
    b
}

fn main() {
    let mut ck = Check::start("C11");
    ck.assume("a header with an operation code above 2 or a response code above 5 may or may not count as readable, and a message marked as a response may be ignored or answered");
    ck.assume("a question of a type or class the project does not know at all may be answered with a format error or with 'not implemented'");
    let th = ck.thorough();
    let names = ["www.example.", "nx.example.", "alias.example.", "sub.example.", "x.sub.example.", "other.", ".", "big.example.", "silent.example.", "fail.example."];
    // every name of interest with every supported type, in all four settings
    let kinds = [(Kind::Ns, "nameserver"), (Kind::Rs, "resolver")];
    for (kind, kn) in kinds {
        for udp in [true, false] {
            let tn = if udp { "udp" } else { "tcp" };
            ck.rt(&format!("{} {}: questions", kn, tn), opts(), || {
                let name = *rt::pick_of(&names);
                let t = *rt::pick_of(&SUPPORTED);
                let rd = rt::pick(2) as u8;
                let upper = rt::pick_bool();
                let id = *rt::pick_of(&[0u16, 0x1234, 0xffff]);
                let name = if upper { name.to_uppercase() } else { name.to_string() };
                let mut q = query(id, &name, t);
                q[2] = rd;
                one(kind, udp, &q);
            });
            ck.rt(&format!("{} {}: truncations", kn, tn), opts(), || {
                let q = match rt::pick(3) {
                    0 => query(0x0102, "www.example.", A),
                    1 => query(0x0102, "a.b.c.d.example.", MX),
                    _ => encode(&Msg { h: Hdr { id: 9, ..Default::default() }, q: vec![corpus::q("www.example.", A), corpus::q("nx.example.", TXT)], ..Default::default() }.with_counts(), true),
                };
                let n = rt::pick(q.len() + 3);
                let mut q = q;
                q.resize(n, 0);
                one(kind, udp, &q);
            });
            let flags: Vec<u16> = (0..=65535).collect();
            ck.rt(&format!("{} {}: header flags", kn, tn), opts(), || {
                let f = *rt::pick_of(&flags);
                one(kind, udp, &with_flags(query(0xabcd, "www.example.", A), f));
            });
            ck.rt(&format!("{} {}: counts", kn, tn), opts(), || {
                let vals = [0u16, 1, 2, 3, 255, 65535];
                let k = if th { 6 } else { 4 };
                let mut c = [0; 4];
                for x in &mut c {
                    *x = vals[rt::pick(k)];
                }
                // what actually follows
                let mut m = Msg { h: Hdr { id: 7, ..Default::default() }, ..Default::default() };
                for _ in 0..rt::pick(3) {
                    m.q.push(corpus::q("www.example.", A));
                }
                match rt::pick(4) {
                    0 => {}
                    1 => m.s[0].push(rr("www.example.", 5, a([1, 2, 3, 4]))),
                    2 => {
                        m.s[0].push(rr("www.example.", 5, a([1, 2, 3, 4])));
                        m.s[1].push(rr("example.", 5, ns("ns.example.")));
                    }
                    _ => m.s[2].push(RR { owner: nm("."), class: 1232, ttl: 0, data: RData::Other(41, vec![]) }),
                }
                m.fix_counts();
                let mut b = encode(&m, false);
                if rt::pick_bool() {
                    b = with_counts(b, c);
                } else if c != [0; 4] {
                    rt::prune();
                }
                one(kind, udp, &b);
            });
            // additional records do not matter, whatever the reply is
            ck.rt(&format!("{} {}: additional records", kn, tn), opts(), || {
                let mut m = Msg { h: Hdr { id: 8, rd: true, ..Default::default() }, ..Default::default() };
                m.q.push(corpus::q(*rt::pick_of(&names), *rt::pick_of(&[A, TXT, SOA, NS])));
                for _ in 0..1 + rt::pick(if th { 3 } else { 2 }) {
                    m.s[2].push(match rt::pick(5) {
                        0 => rr("www.example.", 5, a([1, 2, 3, 4])),
                        1 => rr("nx.example.", 0, txts(&["some", "text"])),
                        2 => rr(".", 70000, soa("a.b.", "c.", [1, 2, 3, 4, 5])),
                        3 => RR { owner: nm("."), class: 1232, ttl: 0, data: RData::Other(41, vec![]) },
                        _ => RR { owner: nm("x."), class: 255, ttl: 0, data: RData::Other(250, vec![1; 40]) },
                    });
                }
                m.fix_counts();
                let b = encode(&m, rt::pick_bool());
                one(kind, udp, &b);
            });
            // requests of every size, up to the longest the transport can carry
            ck.rt(&format!("{} {}: request sizes", kn, tn), opts(), || {
                let size = if udp { 40 + rt::pick(473) } else { *rt::pick_of(&[40, 511, 512, 513, 600, 1000, 1024, 1025, 1232, 2048, 4095, 4096, 4097, 8192, 8193, 16383, 16384, 16385, 30000, 32767, 32768, 32769, 49152, 60000, 65000, 65533, 65534, 65535]) };
                let mut b = query(0x0809, *rt::pick_of(&["www.example.", "nx.example.", "other."]), A);
                let mut count = 0u16;
                let unknown = rt::pick_bool();
                // the rest is no record, but bytes behind the message
                let behind = rt::pick_bool();
                while !behind && size - b.len() >= 12 {
                    let mut left = (size - b.len() - 11).min(256);
                    if (12..23).contains(&(size - b.len() - 11 - left + 11)) && left > 30 {
                        left -= 20;
                    }
                    b.extend([0, 0, if unknown { 99 } else { 16 }, 0, 1, 0, 0, 0, 1, (left >> 8) as u8, left as u8]);
                    b.push((left - 1) as u8);
                    b.extend(vec![b't'; left - 1]);
                    count += 1;
                }
                b[10..12].copy_from_slice(&count.to_be_bytes());
                if behind {
                    b.resize(size, 0);
                }
                one(kind, udp, &b);
            });
            let types: Vec<u16> = if th { (0..=65535).collect() } else { (0..=1200).chain([32768, 32769, 65280, 65534, 65535]).collect() };
            ck.rt(&format!("{} {}: types and classes", kn, tn), opts(), || {
                let (t, c) = match rt::pick(2) {
                    0 => (*rt::pick_of(&types), *rt::pick_of(&[1u16, 3])),
                    _ => (*rt::pick_of(&[A, TXT, 255]), *rt::pick_of(&types)),
                };
                let mut b = query(3, "www.example.", t);
                let l = b.len();
                b[l - 2..].copy_from_slice(&c.to_be_bytes());
                one(kind, udp, &b);
            });
            let good = [query(0x0102, "www.example.", A), with_flags(query(0x0102, "a-b.c.example.", MX), 0x0100)];
            ck.rt(&format!("{} {}: one byte changed", kn, tn), opts(), || {
                let q = rt::pick_of(&good);
                let i = rt::pick(q.len());
                let mut b = q.clone();
                b[i] = rt::pick(256) as u8;
                one(kind, udp, &b);
            });
            ck.rt(&format!("{} {}: two bytes changed", kn, tn), opts().cap(if th { 600.0 } else { 60.0 }), || {
                const V: [u8; 10] = [0, 1, 2, 12, 63, 64, 128, 192, 193, 255];
                let k = if th { V.len() } else { 4 };
                let step = if th { 1 } else { 3 };
                let q = &good[0];
                let i = rt::pick(q.len());
                let d = rt::pick((q.len() - i - 1) / step + 1) * step;
                let mut b = q.clone();
                b[i] = V[V.len() - 1 - rt::pick(k)];
                if d > 0 && i + d < b.len() {
                    b[i + d] = V[rt::pick(k)];
                }
                one(kind, udp, &b);
            });
            let some: Vec<Vec<u8>> = vec![
                query(1, "www.example.", A),
                query(2, "alias.example.", A),
                query(3, "nx.example.", A),
                query(4, "fail.example.", TXT),
                query(5, "sub.example.", NS),
                query(6, "big.example.", TXT),
                with_flags(query(7, "www.example.", A), 0x0a00),
                query(8, "www.example.", 28),
                query(9, "www.example.", 255),
                with_counts(query(10, "www.example.", A), [1, 1, 0, 0]),
                query(11, "www.example.", A)[..20].to_vec(),
                vec![0, 12, 0],
                vec![],
            ];
            ck.rt(&format!("{} {}: sequences", kn, tn), opts(), || {
                let k = 1 + rt::pick(if th { 4 } else { 3 });
                let reqs: Vec<Vec<u8>> = (0..k).map(|_| rt::pick_of(&some).clone()).collect();
                let n = Net::default();
                start(kind, &n);
                for (i, b) in reqs.iter().enumerate() {
                    let r = exchange(&n, udp, i, b);
                    judge(kind, udp, b, &r);
                }
            });
            let mut all: Vec<Vec<u8>> = corpus::messages().into_iter().map(|x| x.1).collect();
            all.extend(corpus::big_messages().into_iter().map(|x| x.1).filter(|b| b.len() <= 65535));
            ck.rt(&format!("{} {}: whole messages as requests", kn, tn), opts(), || {
                let b = rt::pick_of(&all);
                let mut b = b.clone();
                b[2] &= 0x79;
                if rt::pick_bool() {
                    b[3] = 0;
                }
                one(kind, udp, &b);
            });
        }
    }
    ck.finish()
}
