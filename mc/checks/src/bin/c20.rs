//! C20: only the response to the outstanding query from the asked server is used.
use ariadne_dns::resolver::*;
use checks::servers::*;
use checks::upstream::*;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::cell::{Cell, RefCell};
use std::net::{IpAddr, SocketAddr};
use std::rc::Rc;
use std::time::Duration;
use vstd::net;

const EVIL: Ip = [6, 6, 6, 6];
const MS: u64 = 1_000_000;

/// Where a datagram seems to come from.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Src {
    Asked,
    OtherAddress,
    OtherPort,
    /// another nameserver of the same zone, which was not asked
    Sibling,
    Local,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Id {
    Right,
    Next,
    Zero,
    /// the bytes exchanged
    Swapped,
    /// of the attempt before
    Old,
    /// one bit of it turned, or all of one byte
    Bit(u8),
    HighByte,
    LowByte,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Data {
    Answer,
    Delegation,
    Alias,
    Nx,
    Servfail,
    Garbage,
    /// an answer with the QR flag clear
    Query,
    /// an answer without AA, with every other flag
    Flags,
    /// an answer to another question, or to none
    OtherQuestion,
    NoQuestion,
    /// an answer which says it is cut
    Cut,
    /// the first bytes of an answer
    Short(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Dg {
    Genuine,
    Forged(Src, Id, Data),
}
use Dg::*;

fn forged(x: &Asked, id: u16, d: Data) -> Vec<u8> {
    let mut m = Msg { h: Hdr { qr: true, aa: true, ..Default::default() }, q: vec![x.q.clone()], ..Default::default() };
    let o = x.q.name.clone();
    let rec = |o: &Labels, d: RData| RR { owner: o.clone(), class: 1, ttl: 86400, data: d };
    match d {
        Data::Query => m.h.qr = false,
        Data::Flags => {
            m.h.aa = false;
            m.h.rd = true;
            m.h.ra = true;
        }
        Data::OtherQuestion => m.q[0].name = nm("other.forged.com."),
        Data::NoQuestion => m.q.clear(),
        Data::Cut => m.h.tc = true,
        _ => {}
    }
    match d {
        Data::Answer | Data::Query | Data::Flags | Data::OtherQuestion | Data::NoQuestion | Data::Cut | Data::Short(_) => m.s[0].push(rec(&o, if x.q.qtype == A { RData::A(EVIL) } else { txts(&["forged"]) })),
        Data::Delegation => {
            m.h.aa = false;
            m.s[1].push(rec(&o, RData::Ns(nm("ns.forged.com."))));
            m.s[2].push(rec(&nm("ns.forged.com."), RData::A(EVIL)));
        }
        Data::Alias => m.s[0].push(rec(&o, RData::Cname(nm("www.forged.com.")))),
        Data::Nx => m.h.rcode = 3,
        Data::Servfail => m.h.rcode = 2,
        Data::Garbage => return vec![(id >> 8) as u8, id as u8, 0x80, 0, 0, 1, 0],
    }
    let mut b = datagram(m, id);
    if let Data::Short(n) = d {
        b.truncate(n);
    }
    b
}

struct Stage {
    log: Log,
    /// forged datagrams sent and genuine ones lost so far
    forged: Rc<Cell<usize>>,
    /// the servers whose attempts they were
    bad: Rc<RefCell<Vec<Ip>>>,
    healed: Rc<Cell<bool>>,
    hist: Rc<RefCell<String>>,
}
/// The servers of `tree`, whose replies come in the order `order(attempt)`
/// gives, `gap` apart.
fn stage(tree: Rc<Tree>, order: impl Fn(&Asked, usize) -> (Vec<Dg>, u64) + 'static) -> Stage {
    let s = Stage { log: Default::default(), forged: Default::default(), bad: Default::default(), healed: Default::default(), hist: Default::default() };
    let bads = s.bad.clone();
    let (f, h, hist) = (s.forged.clone(), s.healed.clone(), s.hist.clone());
    let old: Cell<Option<Asked>> = Cell::new(None);
    let k = Cell::new(0);
    let log = play(move |x| {
        let good = datagram(tree.respond(x.ip, &x.q), x.id);
        if !tree.zones.iter().any(|z| z.ips.contains(&x.ip)) {
            rt::fail("a server is asked which only a forged datagram names", format!("{} for {}; {}", std::net::Ipv4Addr::from(x.ip), txt(&x.q.name), hist.borrow()));
        }
        if h.get() {
            return x.reply(&good);
        }
        let (list, gap) = order(x, k.get());
        k.set(k.get() + 1);
        *hist.borrow_mut() += &format!("{} asked for {}: {:?} every {} ms; ", std::net::Ipv4Addr::from(x.ip), txt(&x.q.name), list, gap / MS);
        if !list.contains(&Genuine) {
            f.set(f.get() + 1);
            bads.borrow_mut().push(x.ip);
        }
        let before = old.replace(Some(x.clone()));
        for (i, d) in list.iter().enumerate() {
            let (from, b) = match *d {
                Genuine => (x.to(), good.clone()),
                Forged(src, id, data) => {
                    f.set(f.get() + 1);
                    bads.borrow_mut().push(x.ip);
                    let from = match src {
                        Src::Asked => x.to(),
                        Src::OtherAddress => SocketAddr::new(IpAddr::from(EVIL), 53),
                        Src::OtherPort => SocketAddr::new(x.to().ip(), 5353),
                        Src::Sibling => SocketAddr::new(IpAddr::from([10, 2, 0, 3 - x.ip[3].min(2)]), 53),
                        Src::Local => SocketAddr::new(IpAddr::from([127, 0, 0, 1]), x.from.port()),
                    };
                    let v = match id {
                        Id::Right => x.id,
                        Id::Next => x.id.wrapping_add(1),
                        Id::Zero => if x.id == 0 { 1 } else { 0 },
                        Id::Swapped => if x.id.swap_bytes() == x.id { !x.id } else { x.id.swap_bytes() },
                        Id::Bit(b) => x.id ^ 1 << b,
                        Id::HighByte => x.id ^ 0xff00,
                        Id::LowByte => x.id ^ 0x00ff,
                        Id::Old => match &before {
                            Some(b) if b.id != x.id => b.id,
                            _ => !x.id,
                        },
                    };
                    (from, forged(x, v, data))
                }
            };
            let to = x.from;
            match gap * i as u64 {
                0 => {
                    net::deliver(from, to, &b);
                }
                g => rt::at(rt::now() + g, move || {
                    net::deliver(from, to, &b);
                }),
            }
        }
        old.set(Some(x.clone()));
    });
    Stage { log, ..s }
}
fn tree(n: usize) -> Tree {
    let mut t = Tree::new();
    t.text(".", 3600, "@ NS a.root-servers.net.");
    t.text("com.", 3600, "@ NS ns.com.\nns A 10.1.0.1");
    let mut s = "www A 10.9.9.9\nother A 10.9.9.8\nwww TXT true\n".to_string();
    for i in 0..n {
        s += &format!("@ NS ns{}.a.com.\nns{} A 10.2.0.{}\n", i, i, 1 + i);
    }
    t.text("a.com.", 3600, &s);
    // served by machines elsewhere; the other way round
    t.text("b.com.", 3600, "@ NS ns0.c.net.\n@ NS ns1.c.net.\nwww A 10.9.8.1\nal CNAME www.a.com.\nfar CNAME www.c.net.");
    t.text("net.", 3600, "@ NS ns.net.\nns A 10.1.0.2");
    t.text("c.net.", 3600, "@ NS ns0.c.net.\n@ NS ns1.c.net.\nns0 A 10.3.0.1\nns1 A 10.3.0.2\nwww A 10.9.8.2");
    t.text("forged.com.", 3600, "@ NS ns.forged.com.\nns A 10.7.0.1\nwww A 10.9.7.7");
    t.link()
}
fn conf(ns: usize, tries: usize) -> ResolverParams {
    ResolverParams { max_ns_queried: ns, max_upd_retries: tries, max_cname_redir: 5, read_timeout: Duration::from_millis(500), write_timeout: Duration::from_millis(500), no_follow_cname: false }
}
fn warm(cache: &RecordsCache, t: &Tree, z: &str) {
    use ariadne_dns::shared::dns::RecordType;
    let z = nm(z);
    let keep = |n: &Labels, ty: u16, k: RecordType| {
        cache.set((to_name(n), k), Duration::from_secs(3600), t.set(n, ty).iter().map(to_record).collect());
    };
    keep(&z, NS, RecordType::NS);
    for r in t.set(&z, NS) {
        if let RData::Ns(n) = &r.data {
            keep(n, A, RecordType::A);
        }
    }
}
/// The reply is true, or a failure when there were enough forgeries for that.
fn verdict(t: &Tree, s: &Stage, m: &Msg, name: &Labels, ty: u16, attempts: usize) {
    let hist = s.hist.borrow().clone();
    match judge(t, name, ty, m) {
        Ok(w) => rt::count(w),
        Err((sig, d)) => {
            if m.h.rcode == 2 && m.an().is_empty() {
                if s.forged.get() < attempts {
                    rt::fail("fewer forged and lost datagrams than attempts make the lookup fail", format!("{} of {} attempts; {}", s.forged.get(), attempts, hist));
                }
                rt::count("server failure");
            } else {
                rt::fail(&format!("a forged datagram is used: {}", sig), format!("{}; {}", d, hist));
            }
        }
    }
}
/// Lookups with honest servers afterwards.
fn aftermath(t: &Tree, s: &Stage, h: &ResolverHandler, names: &[(&str, u16)]) {
    s.healed.set(true);
    for (n, ty) in names {
        let m = lookup(h, &nm(n), *ty);
        if let Err((sig, d)) = judge(t, &nm(n), *ty, &m) {
            rt::fail(&format!("a forged datagram is remembered: {}", sig), format!("{}; {}", d, s.hist.borrow()));
        }
    }
}
const AFTER: &[(&str, u16)] = &[("www.a.com.", A), ("www.a.com.", TXT), ("other.a.com.", A), ("www.forged.com.", A), ("al.b.com.", A), ("www.c.net.", A)];
const SRCS: &[Src] = &[Src::OtherAddress, Src::OtherPort, Src::Sibling, Src::Local, Src::Asked];
const DATA: &[Data] = &[Data::Answer, Data::Delegation, Data::Alias, Data::Nx, Data::Servfail, Data::Garbage, Data::Query, Data::Flags, Data::OtherQuestion, Data::NoQuestion, Data::Cut];

/// Any forged datagram; from the asked server it never has the right id.
fn any() -> Dg {
    let s = *rt::pick_of(SRCS);
    let id = if s == Src::Asked { *rt::pick_of(&[Id::Next, Id::Zero, Id::Swapped, Id::Old]) } else { *rt::pick_of(&[Id::Right, Id::Next]) };
    Forged(s, id, *rt::pick_of(DATA))
}
const FEW: &[Dg] = &[
    Forged(Src::OtherAddress, Id::Right, Data::Answer),
    Forged(Src::OtherPort, Id::Right, Data::Nx),
    Forged(Src::Sibling, Id::Right, Data::Delegation),
    Forged(Src::Asked, Id::Next, Data::Answer),
    Forged(Src::Asked, Id::Old, Data::Alias),
    Forged(Src::OtherAddress, Id::Next, Data::Garbage),
    Forged(Src::Asked, Id::Swapped, Data::Query),
];

fn main() {
    let mut ck = Check::start("C20");
    let th = ck.thorough();
    ck.assume("a datagram from the asked address and port which carries the right id is the response, whoever sent it");
    let run = {
        let name = nm("www.a.com.");
        move |n: usize, k: usize, r: usize, ty: u16, order: Box<dyn Fn(&Asked, usize) -> (Vec<Dg>, u64)>| {
            let t = Rc::new(tree(n));
            let s = stage(t.clone(), order);
            let (cache, rs) = rsv(conf(k, r), quiet());
            warm(&cache, &t, "a.com.");
            let h = ResolverHandler(rs);
            let t0 = rt::now();
            let m = lookup(&h, &name, ty);
            let took = rt::now() - t0;
            if took > 500 * MS * s.log.borrow().len() as u64 {
                rt::fail("attempts last longer than configured", format!("{} ms for {} attempts; {}", took / MS, s.log.borrow().len(), s.hist.borrow()));
            }
            verdict(&t, &s, &m, &name, ty, n.min(k) * r);
            aftermath(&t, &s, &h, AFTER);
            rt::sample(|| format!("{}-> {}", s.hist.borrow(), show(&m)));
        }
    };
    let r1 = run.clone();
    ck.rt("one forged datagram in one attempt", opts(), move || {
        let (n, k, r) = *rt::pick_of(&[(1, 1, 1), (1, 1, 2), (2, 2, 1), (2, 2, 2)]);
        let ty = *rt::pick_of(&[A, TXT]);
        let d = any();
        let at = rt::pick(if n.min(k) * r > 1 { 2 } else { 1 });
        let first = rt::pick_bool();
        // the genuine one comes, or does not
        let lost = rt::pick_bool();
        let gap = *rt::pick_of(&[0, 1, 100 * MS]);
        r1(n, k, r, ty, Box::new(move |_, i| {
            if i != at {
                return if lost && i < at { (vec![], gap) } else { (vec![Genuine], gap) };
            }
            (if lost { vec![d] } else if first { vec![d, Genuine] } else { vec![Genuine, d] }, gap)
        }));
    });
    let r2 = run.clone();
    ck.rt("every attempt its forged datagrams", opts().cap(ck.by(120.0, 1500.0)), move || {
        let (n, k, r) = *rt::pick_of(&[(1, 1, 1), (1, 1, 2), (2, 2, 1), (2, 2, 2)]);
        let most = if th { 3 } else { 2 };
        // picked when the attempt is made
        let small = n.min(k) * r > 1 && !th || n.min(k) * r > 2;
        r2(n, k, r, A, Box::new(move |_, _| {
            let c = rt::pick(if small { 2 } else { most } + 1);
            let mut v: Vec<Dg> = (0..c).map(|_| *rt::pick_of(if small && c > 1 { &FEW[..3] } else { FEW })).collect();
            let p = rt::pick(c + 2);
            if p <= c {
                v.insert(p, Genuine);
            }
            (v, 50 * MS)
        }));
    });
    let r3 = run.clone();
    ck.rt("forged datagrams without end", opts(), move || {
        let (n, k, r) = *rt::pick_of(&[(1, 1, 1), (2, 2, 1), (1, 1, 3), (2, 2, 2)]);
        let d = any();
        let c = *rt::pick_of(&[10, 50]);
        let gap = *rt::pick_of(&[0, 40 * MS, 250 * MS, 499 * MS]);
        let end = rt::pick_bool();
        r3(n, k, r, A, Box::new(move |_, _| {
            let mut v = vec![d; c];
            if end {
                v.push(Genuine);
            }
            (v, gap)
        }));
    });

    // one unusable datagram, then another: the second is judged like the first
    let r4 = run.clone();
    ck.rt("pairs of datagrams from the asked server", opts().cap(ck.by(120.0, 1500.0)), move || {
        let ids = &[Id::Next, Id::Swapped, Id::HighByte, Id::LowByte, Id::Old];
        let short = &[0usize, 1, 2, 3, 11, 12, 13];
        let one = |datas: &[Data]| match rt::pick(datas.len() + short.len()) {
            i if i < datas.len() => Forged(Src::Asked, *rt::pick_of(ids), datas[i]),
            i => Forged(Src::Asked, *rt::pick_of(ids), Data::Short(short[i - datas.len()])),
        };
        let (a, b) = (one(DATA), one(&[Data::Answer, Data::Delegation, Data::Nx, Data::Alias]));
        let end = rt::pick_bool();
        let (n, k, r) = *rt::pick_of(&[(1, 1, 1), (2, 2, 1)]);
        r4(n, k, r, A, Box::new(move |_, _| (if end { vec![a, b, Genuine] } else { vec![a, b] }, MS)));
    });
    // every bit of the id counts
    let r5 = run.clone();
    ck.rt("ids which differ in one bit or one byte", opts(), move || {
        let id = match rt::pick(18) {
            16 => Id::HighByte,
            17 => Id::LowByte,
            b => Id::Bit(b as u8),
        };
        // what the generator gives
        if let c @ 1.. = rt::pick(6) {
            rt::k().rng_const = Some([0, 1, 0x00ff, 0xff00, 0xffff][c - 1]);
        }
        let d = *rt::pick_of(DATA);
        let (c, end) = (1 + rt::pick(3), rt::pick_bool());
        r5(1, 1, 2, A, Box::new(move |_, _| {
            let mut v = vec![Forged(Src::Asked, id, d); c];
            if end {
                v.push(Genuine);
            }
            (v, MS)
        }));
    });

    // late replies: to the attempt before, on whatever socket it has
    ck.rt("late replies to earlier attempts", opts(), || {
        let t = Rc::new(tree(2));
        let (k, r) = *rt::pick_of(&[(1, 2), (2, 1), (2, 2), (1, 3)]);
        let bad = *rt::pick_of(DATA);
        let same_id = rt::pick_bool();
        if same_id {
            rt::k().rng_const = Some(7);
        }
        let delay = *rt::pick_of(&[501 * MS, 600 * MS, 999 * MS, 1100 * MS]);
        let f = Rc::new(Cell::new(0usize));
        let healed: Rc<Cell<bool>> = Default::default();
        let (t2, h2, f2) = (t.clone(), healed.clone(), f.clone());
        let answered = rt::pick(k * r + 1);
        let n = Cell::new(0);
        // the reply to an abandoned attempt is forged data, so that any use shows
        let log = play(move |x| {
            if h2.get() {
                return x.reply(&datagram(t2.respond(x.ip, &x.q), x.id));
            }
            if n.get() == answered {
                x.reply_later(200 * MS, datagram(t2.respond(x.ip, &x.q), x.id));
            } else {
                f2.set(f2.get() + 1);
                x.reply_later(delay, forged(x, x.id, bad));
            }
            n.set(n.get() + 1);
        });
        let (cache, rs) = rsv(conf(k, r), quiet());
        warm(&cache, &t, "a.com.");
        let h = ResolverHandler(rs);
        let m = lookup(&h, &nm("www.a.com."), A);
        let s = Stage { log, forged: f, bad: Default::default(), healed, hist: Rc::new(RefCell::new(format!("attempt {} answered, others {} ms late with {:?}, limits {} x {}, ids equal: {}", answered, delay / MS, bad, k, r, same_id))) };
        if answered < k * r {
            if let Err((sig, d)) = judge(&t, &nm("www.a.com."), A, &m) {
                rt::fail(&format!("a late reply is used: {}", sig), format!("{}; {}", d, s.hist.borrow()));
            }
        } else if m.h.rcode != 2 {
            rt::fail("a late reply is used: answer", format!("{}; {}", show(&m), s.hist.borrow()));
        }
        rt::sleep(Duration::from_secs(3));
        aftermath(&t, &s, &h, AFTER);
        rt::sample(|| format!("{} -> {}", s.hist.borrow(), show(&m)));
    });

    // at every step of a cold lookup
    ck.rt("forged datagrams at the steps of a cold lookup", opts().fault(2).cap(ck.by(120.0, 1500.0)), move || {
        let t = Rc::new(tree(2));
        let name = nm(rt::pick_of(&["www.a.com.", "www.b.com.", "al.b.com.", "far.b.com."]));
        let (k, r) = *rt::pick_of(&[(1, 1), (1, 2), (2, 1)]);
        let s = stage(t.clone(), move |_, _| {
            let c = rt::fault(1 + FEW.len() * 3);
            if c == 0 {
                return (vec![Genuine], 0);
            }
            let d = FEW[(c - 1) / 3];
            (match (c - 1) % 3 {
                0 => vec![d, Genuine],
                1 => vec![d],
                _ => vec![d, d, Genuine],
            }, MS)
        });
        let (_cache, rs) = rsv(conf(k, r), quiet());
        let h = ResolverHandler(rs);
        let m = lookup(&h, &name, A);
        // the step which may have failed is the last one
        let ips = t.zones.iter().map(|z| z.ips.clone()).find(|v| v.contains(&s.log.borrow().last().unwrap().ip)).unwrap();
        // (a nameserver may be lost in the lookup of its address)
        let sub = within(&name, &nm("b.com."));
        let here: usize = s.bad.borrow().iter().filter(|i| sub || ips.contains(i)).count();
        s.forged.set(here);
        verdict(&t, &s, &m, &name, A, ips.len().min(k) * r);
        aftermath(&t, &s, &h, AFTER);
        rt::sample(|| format!("{}-> {}", s.hist.borrow(), show(&m)));
    });
    ck.finish()
}
