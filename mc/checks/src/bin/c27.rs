//! C27: what the resolver sends to nameservers.
use ariadne_dns::resolver::*;
use checks::servers::*;
use checks::upstream::*;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::net::IpAddr;
use std::rc::Rc;
use std::time::Duration;

/// Sixty-four bits whose every sixteen are `c`: however many of them a program
/// takes, and from which end, different values of `c` give different ids.
fn spread(c: u16) -> u64 {
    c as u64 * 0x0001_0001_0001_0001
}

/// What the resolver has been told so far.
#[derive(Default)]
struct Told {
    /// zone, name of its nameserver
    ns: Vec<(Labels, Labels)>,
    a: Vec<(Labels, Ip)>,
    alias: Vec<(Labels, Labels)>,
}
impl Told {
    fn new() -> Told {
        let mut t = Told::default();
        for (i, ip) in ROOTS.iter().enumerate() {
            let n = nm(&format!("{}.root-servers.net.", (b'a' + i as u8) as char));
            t.ns.push((vec![], n.clone()));
            t.a.push((n, *ip));
        }
        t
    }
    fn hear(&mut self, m: &Msg) {
        for r in m.s.iter().flatten() {
            match &r.data {
                RData::Ns(n) => self.ns.push((low(&r.owner), low(n))),
                RData::A(x) => self.a.push((low(&r.owner), *x)),
                RData::Cname(n) => self.alias.push((low(&r.owner), low(n))),
                _ => {}
            }
        }
    }
    /// The name of the lookup and the targets of the aliases which it leads to.
    fn chain(&self, n: &Labels) -> Vec<Labels> {
        let mut v = vec![low(n)];
        let mut i = 0;
        while i < v.len() {
            for (o, t) in &self.alias {
                if *o == v[i] && !v.contains(t) {
                    v.push(t.clone());
                }
            }
            i += 1;
        }
        v
    }
    fn server_of(&self, ip: Ip, n: &Labels) -> bool {
        self.ns.iter().any(|(z, s)| within(n, z) && self.a.iter().any(|(o, x)| o == s && *x == ip))
    }
}

/// What the servers do now and then instead of answering.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mv {
    Honest,
    Silence,
    Servfail,
    Garbage,
    WrongId,
    Empty,
    Far,
    Near,
    Alias,
    AliasWithServers,
}
use Mv::*;
const MOVES: &[Mv] = &[Honest, Silence, Servfail, Garbage, WrongId, Empty, Far, Near, Alias, AliasWithServers];

struct Stage {
    told: RefCell<Told>,
    /// name and type of the lookup
    cur: RefCell<(Labels, u16)>,
    /// the id of every query, and whether it is no repetition of the one before
    ids: RefCell<Vec<u16>>,
    first: RefCell<Vec<bool>>,
    last: RefCell<Option<(Ip, Q)>>,
    n: Cell<usize>,
}
impl Stage {
    fn check(&self, x: &Asked) {
        let told = self.told.borrow();
        let (n, t) = &*self.cur.borrow();
        let what = || format!("{} {} to {} in the lookup of {} {}", txt(&x.q.name), type_name(x.q.qtype), IpAddr::from(x.ip), txt(n), type_name(*t));
        if x.h.aa || x.h.tc || x.h.rd || x.h.ra || x.h.z != 0 || x.h.rcode != 0 {
            rt::fail("flags in a query", format!("{:?}: {}", x.h, what()));
        }
        let q = low(&x.q.name);
        let asked = x.q.qtype == *t && told.chain(n).contains(&q) || x.q.qtype == A && told.ns.iter().any(|(_, s)| *s == q);
        if !asked {
            rt::fail("a question which serves no purpose", what());
        }
        if !told.server_of(x.ip, &q) {
            rt::fail("a query to a server which is not known to serve the name", what());
        }
        self.ids.borrow_mut().push(x.id);
        let now = Some((x.ip, x.q.clone()));
        self.first.borrow_mut().push(*self.last.borrow() != now);
        *self.last.borrow_mut() = now;
    }
    fn play(self: &Rc<Stage>, t: Rc<Tree>, mv: impl Fn(usize) -> Mv + 'static) {
        let s = self.clone();
        play(move |x| {
            s.check(x);
            let i = s.n.get();
            s.n.set(i + 1);
            let q = &x.q.name;
            let rec = |o: &Labels, d: RData| RR { owner: o.clone(), class: 1, ttl: 300, data: d };
            let mut m = Msg { h: Hdr { qr: true, aa: true, ..Default::default() }, q: vec![x.q.clone()], ..Default::default() };
            let mv = mv(i);
            match mv {
                Silence => return,
                Servfail => m.h.rcode = 2,
                Empty => {}
                // a delegation to servers elsewhere, without addresses
                Far => {
                    m.h.aa = false;
                    m.s[1].push(rec(q, RData::Ns(nm("www.d.net."))));
                    m.s[1].push(rec(q, RData::Ns(nm("www.a.com."))));
                }
                // a delegation to servers with addresses
                Near => {
                    m.h.aa = false;
                    m.s[1].push(rec(q, RData::Ns(q.clone())));
                    m.s[2].push(rec(q, RData::A([10, 77, 0, 1 + i as u8])));
                }
                Alias | AliasWithServers => {
                    m.s[0].push(rec(q, RData::Cname(nm(&format!("t{}.d.net.", i)))));
                    if mv == AliasWithServers {
                        m.s[1].push(rec(&nm("d.net."), RData::Ns(nm("ns.d.net."))));
                        m.s[2].push(rec(&nm("ns.d.net."), RData::A([10, 78, 0, 1 + i as u8])));
                        m.s[1].push(rec(&nm("com."), RData::Ns(nm("www.b.com."))));
                        m.s[2].push(rec(&nm("www.b.com."), RData::A([10, 79, 0, 1 + i as u8])));
                    }
                }
                Honest | Garbage | WrongId => m = t.respond(x.ip, &x.q),
            }
            if mv != Garbage && mv != WrongId {
                s.told.borrow_mut().hear(&m);
            }
            let mut b = datagram(m, x.id);
            match mv {
                Garbage => b.truncate(b.len() - 2),
                WrongId => b[1] ^= 1,
                _ => {}
            }
            x.reply(&b);
        });
    }
    fn look(&self, h: &ResolverHandler, n: &Labels, t: u16) -> Msg {
        *self.cur.borrow_mut() = (n.clone(), t);
        lookup(h, n, t)
    }
    /// No id twice: the random values never repeat here.
    fn end(&self, what: &str) {
        for d in &rt::k().net.sent {
            if d.to.port() != 53 {
                rt::fail("a query to another port", format!("{} in {}", d.to, what));
            }
        }
        let ids: Vec<u16> = self.ids.borrow().iter().zip(self.first.borrow().iter()).filter(|x| *x.1).map(|x| *x.0).collect();
        let set: HashSet<u16> = ids.iter().cloned().collect();
        if set.len() != ids.len() {
            rt::fail("an id used twice", format!("{:?} in {}", ids, what));
        }
    }
}
fn stage() -> Rc<Stage> {
    rt::k().rng_queue = (1..6000u16).map(|i| spread(i.wrapping_mul(0x4e2b))).collect();
    Rc::new(Stage { told: RefCell::new(Told::new()), cur: Default::default(), ids: Default::default(), first: Default::default(), last: Default::default(), n: Cell::new(0) })
}

const NAMES: &[(&str, u16)] = &[
    ("www.a.com.", A),
    ("www.c.com.", A),
    ("long.a.com.", A),
    ("toup.a.com.", A),
    ("www.deep.sub.a.com.", A),
    ("www.f.com.", A),
    ("out.a.com.", TXT),
    ("nx.a.com.", MX),
    ("WWW.B.coM.", A),
    ("com.", NS),
    (".", NS),
    ("loop.a.com.", A),
    ("ns.d.net.", A),
    ("a.com.", NS),
    ("www.d.net.", TXT),
    ("x.y.z.sub.a.com.", A),
    ("www.a.com.", SOA),
    ("www.a.com.", PTR),
    ("www.a.com.", HINFO),
    ("www.a.com.", WKS),
    ("in.a.com.", CNAME),
];

fn main() {
    let mut ck = Check::start("C27");
    let th = ck.thorough();
    ck.assume("the random number generator of the rand crate is unpredictable");

    // ---------------------------------------------------------------- histories
    let run = move |names: &'static [(&'static str, u16)], depth: usize, waits: &'static [u64], moves: &'static [Mv], confs: &'static [(usize, usize)]| {
        let var = rt::pick(if moves.len() > 1 { 2 } else { 32 });
        let mut t = world(*rt::pick_of(&[3600, 60]), Some(3600), *rt::pick_of(&[Some(60), Some(3600)]));
        t.chase = var & 2 != 0;
        t.extras = var & 4 != 0;
        t.echo = var & 8 != 0;
        t.hints = var & 1 != 0;
        t.strict_glue = var & 16 != 0;
        let s = stage();
        let hist = Rc::new(RefCell::new(String::new()));
        let h2 = hist.clone();
        s.play(Rc::new(t), move |i| {
            let m = if i < 14 { moves[rt::fault(moves.len())] } else { moves[0] };
            if m != Honest {
                h2.borrow_mut().push_str(&format!("{:?} at query {}, ", m, i));
            }
            m
        });
        let (k, r) = *rt::pick_of(confs);
        let (_c, rs) = rsv(ResolverParams { max_ns_queried: k, max_upd_retries: r, ..Default::default() }, quiet());
        let h = ResolverHandler(rs);
        for i in 0..depth {
            if i > 0 {
                let w = *rt::pick_of(waits);
                rt::sleep(Duration::new(w, 0));
                hist.borrow_mut().push_str(&format!("{} s, ", w));
            }
            let (n, ty) = *rt::pick_of(names);
            let m = s.look(&h, &nm(n), ty);
            hist.borrow_mut().push_str(&format!("{} {}: {} records, ", n, type_name(ty), m.an().len()));
        }
        s.end(&hist.borrow());
        rt::state(rt::hash_of(&s.ids.borrow().len()));
        rt::sample(|| format!("{}{} queries", hist.borrow(), s.ids.borrow().len()));
    };
    ck.rt("one lookup", opts(), move || run(NAMES, 1, &[0], &[Honest], &[(3, 3)]));
    ck.rt("two lookups", opts(), move || run(NAMES, 2, &[0, 61, 3601], &[Honest], &[(3, 3)]));
    let few = if th { NAMES } else { &NAMES[..4] };
    ck.rt("three lookups", opts().cap(ck.by(120.0, 1500.0)), move || run(few, 3, &[0, 61, 3601], &[Honest], &[(3, 3)]));
    ck.rt("deviations of the servers", opts().fault(ck.by(2, 3)).cap(ck.by(120.0, 1500.0)), move || run(if th { NAMES } else { &NAMES[..5] }, 1, &[0], MOVES, &[(2, 2), (3, 1)]));
    ck.rt("deviations of the servers, two lookups", opts().fault(ck.by(1, 2)).cap(ck.by(120.0, 1500.0)), move || run(if th { &NAMES[..8] } else { &NAMES[..4] }, 2, &[0, 61], MOVES, &[(2, 2)]));

    // ---------------------------------------------------------------- root servers
    ck.rt("every root server", opts(), || {
        let silent = rt::pick(14);
        let how = *rt::pick_of(&[Silence, Servfail, Empty, Garbage]);
        let s = stage();
        s.play(Rc::new(world(3600, None, None)), move |i| if i < silent { how } else { Honest });
        let n = *rt::pick_of(&[13usize, 14, 50]);
        let (_c, rs) = rsv(ResolverParams { max_ns_queried: n, max_upd_retries: 1, ..Default::default() }, quiet());
        let h = ResolverHandler(rs);
        let (name, ty) = *rt::pick_of(NAMES);
        s.look(&h, &nm(name), ty);
        let first: HashSet<std::net::SocketAddr> = rt::k().net.sent.iter().take(silent + 1).map(|d| d.to).collect();
        if first.len() != (silent + 1).min(13) {
            rt::fail("a root server is left out", format!("{} servers asked when {} fail, looking up {}", first.len(), silent, name));
        }
        s.end(name);
    });

    // ---------------------------------------------------------------- names
    ck.rt("names of every shape", opts(), || {
        let s = stage();
        let mut t = Tree::new();
        t.text(".", 3600, "@ NS a.nic.net.");
        s.play(Rc::new(t.link()), |_| Honest);
        let (_c, rs) = rsv(ResolverParams::default(), quiet());
        let h = ResolverHandler(rs);
        // labels of one length and a last one of another
        let ll = *rt::pick_of(&[1usize, 2, 9, 31, 62, 63]);
        let count = 1 + rt::pick(127);
        let last = *rt::pick_of(&[1usize, 30, 61, 62, 63]);
        let ch = *rt::pick_of(&[b'a', b'Z', b'7']);
        let mut n: Labels = vec![vec![ch; ll]; count];
        n.push(vec![ch; last]);
        if n.iter().map(|l| l.len() + 1).sum::<usize>() + 1 > 255 {
            rt::prune();
        }
        s.look(&h, &n, *rt::pick_of(&[A, TXT, WKS, NS]));
        let sent = s.ids.borrow().len();
        if sent == 0 {
            rt::fail("nothing is asked", txt(&n));
        }
        s.end(&txt(&n));
    });

    // ---------------------------------------------------------------- ids
    ck.rt("every random value gives an id of its own", opts().steps(3_000_000).cap(120.0), || {
        let chunk = rt::pick(16) as u32;
        let mut t = Tree::new();
        t.text(".", 3600, "@ NS a.nic.net.");
        let t = Rc::new(t.link());
        let log = honest(t);
        let (_c, rs) = rsv(ResolverParams::default(), quiet());
        let h = ResolverHandler(rs);
        // neighbours, and values far from each other
        let step = *rt::pick_of(&[1u32, 16]);
        for i in 0..4096u32 {
            let c = if step == 1 { chunk * 4096 + i } else { i * 16 + chunk };
            // whatever else is drawn comes from the ordinary source
            rt::k().rng_queue = [spread(c as u16)].into();
            lookup(&h, &nm("x."), A);
        }
        let ids: Vec<u16> = log.borrow().iter().map(|x| x.id).collect();
        let set: HashSet<u16> = ids.iter().cloned().collect();
        if ids.len() != 4096 || set.len() < 4096 - 40 {
            rt::fail("random values wasted", format!("{} random values, {} queries, {} ids", 4096, ids.len(), set.len()));
        }
    });
    // the same values up to a query, others from then on
    ck.rt("ids do not follow from earlier ones", opts(), || {
        let (k, r) = *rt::pick_of(&[(1usize, 1usize), (1, 2), (2, 2), (3, 3)]);
        let (n, ty) = *rt::pick_of(NAMES);
        let silent = rt::pick(6);
        let at = rt::pick(12);
        let two = rt::pick_bool();
        let go = |other: bool| {
            let s = stage();
            let s2 = s.clone();
            s.play(Rc::new(world(3600, None, None)), move |i| {
                if other && i + 1 == at {
                    rt::k().rng_queue = (1..6000u16).map(|j| spread((j.wrapping_add(7777)).wrapping_mul(0x2e35))).collect();
                }
                let _ = &s2;
                if i < silent { Silence } else { Honest }
            });
            if other && at == 0 {
                rt::k().rng_queue = (1..6000u16).map(|j| spread((j.wrapping_add(7777)).wrapping_mul(0x2e35))).collect();
            }
            let (_c, rs) = rsv(ResolverParams { max_ns_queried: k, max_upd_retries: r, ..Default::default() }, quiet());
            let h = ResolverHandler(rs);
            s.look(&h, &nm(n), ty);
            if two {
                s.look(&h, &nm("www.xa.com."), A);
            }
            let v = (s.ids.borrow().clone(), s.first.borrow().clone());
            v
        };
        let (a, first) = go(false);
        let (b, _) = go(true);
        if at >= a.len() {
            rt::prune();
        }
        let what = || format!("{} {}, {} silent, {} nameservers, {} attempts: {:?} and {:?}, with other random values from query {} on", n, type_name(ty), silent, k, r, a, b, at);
        if a.len() != b.len() || a[..at] != b[..at] {
            rt::fail("runs which do not repeat", what());
        }
        for i in at..a.len() {
            if first[i] && a[i] == b[i] {
                rt::fail("an id which is not drawn anew", what());
            }
        }
    });
    ck.finish()
}
