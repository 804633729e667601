//! C18: failing nameservers are retried and bypassed up to the configured limits.
use ariadne_dns::resolver::*;
use checks::servers::*;
use checks::upstream::*;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Duration;
use vstd::net::{Action, Op};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Out {
    // usable
    Good,
    /// just before the attempt times out
    GoodLate,
    Nx,
    // to be retried
    Silence,
    TooLate,
    Garbage,
    Short,
    WrongId,
    /// just before the attempt times out
    WrongIdLate,
    GarbageLate,
    /// datagrams with a wrong id, one every half timeout
    Drip,
    SendErr,
    RecvErr,
    Interrupted,
    // the next nameserver's turn
    Servfail,
    Refused,
    FormErr,
    NxPlain,
    Empty,
    NoData,
    Upward,
    /// the zone is delegated to itself
    Lame,
    /// a delegation which does not lead to the name
    Aside,
    /// a delegation to a nameserver in the new zone, without its address
    NoGlue,
    /// an error response code next to an answer, or to a delegation
    ErrAnswer,
    ErrDeleg,
    NxAnswer,
    /// an error response code, authoritative or not, with data
    Err(u8, bool, With),
    /// the name is an alias
    Alias,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum With {
    Nothing,
    Answer,
    AliasOf,
    Soa,
    Deleg,
    Additional,
}
use Out::*;
const ALL: &[Out] = &[Good, Silence, Servfail, WrongId, Garbage, SendErr, Refused, Empty, GoodLate, TooLate, Short, RecvErr, Interrupted, FormErr, NxPlain, NoData, Upward, Nx, Lame, Aside, NoGlue, ErrAnswer, ErrDeleg, NxAnswer, WrongIdLate, GarbageLate, Drip];
impl Out {
    fn usable(self) -> bool {
        matches!(self, Good | GoodLate | Nx | Alias)
    }
    fn retried(self) -> bool {
        matches!(self, Silence | TooLate | Garbage | Short | WrongId | WrongIdLate | GarbageLate | Drip | SendErr | RecvErr | Interrupted)
    }
}

#[derive(Default, Debug, Clone)]
struct Step {
    asked: Vec<Ip>,
    attempts: usize,
    last: Option<Out>,
    at: u64,
    done: Option<Out>,
}
/// Follows one lookup attempt by attempt.
struct Judge {
    conf: ResolverParams,
    zones: Vec<(Labels, Vec<Ip>)>,
    steps: RefCell<BTreeMap<Labels, Step>>,
    hist: RefCell<String>,
}
impl Judge {
    fn zone(&self, ip: Ip) -> Labels {
        match self.zones.iter().find(|(_, v)| v.contains(&ip)) {
            Some((z, _)) => z.clone(),
            None => rt::fail("query to an address which serves nothing", std::net::Ipv4Addr::from(ip).to_string()),
        }
    }
    fn bad(&self, sig: &str, d: String) -> ! {
        rt::fail(sig, format!("{}; {} nameservers, {} attempts, history: {}", d, self.conf.max_ns_queried, self.conf.max_upd_retries, self.hist.borrow()))
    }
    fn attempt(&self, ip: Ip, o: Out) {
        let z = self.zone(ip);
        let who = std::net::Ipv4Addr::from(ip);
        *self.hist.borrow_mut() += &format!("{}:{:?} ", who, o);
        let mut g = self.steps.borrow_mut();
        if ip[..2] == [10, 3] {
            // the address of a nameserver of a.com. elsewhere is looked up
            let near = self.zones.iter().flat_map(|z| &z.1).filter(|i| i[..2] == [10, 2]).count();
            let asked = g.get(&nm("a.com.")).map_or(0, |s| s.asked.len());
            if asked < near.min(self.conf.max_ns_queried) {
                self.bad("a nameserver with an address waits for one without", txt(&z));
            }
        }
        let st = g.entry(z.clone()).or_default();
        if st.done.is_some() {
            self.bad("asked again after a usable response", txt(&z));
        }
        if st.asked.last() == Some(&ip) {
            if !st.last.unwrap().retried() {
                self.bad("asked again after an error response", who.to_string());
            }
            st.attempts += 1;
            if st.attempts > self.conf.max_upd_retries {
                self.bad("more attempts than configured", who.to_string());
            }
            if rt::now() - st.at > self.conf.read_timeout.as_nanos() as u64 {
                self.bad("an attempt takes longer than configured", format!("{} ns", rt::now() - st.at));
            }
        } else {
            if st.asked.contains(&ip) {
                self.bad("a nameserver is asked again after another one", who.to_string());
            }
            if let Some(l) = st.last {
                if l.retried() && st.attempts < self.conf.max_upd_retries {
                    self.bad("given up before the configured attempts", format!("{} after {}", st.attempts, who));
                }
            }
            st.asked.push(ip);
            st.attempts = 1;
            if st.asked.len() > self.conf.max_ns_queried {
                self.bad("more nameservers than configured", who.to_string());
            }
        }
        st.last = Some(o);
        st.at = rt::now();
        if o.usable() {
            st.done = Some(o);
        }
    }
    /// `m` is the reply; `chain` the zones on the way, `unresolved` the number
    /// of nameservers of the last one whose names could not be resolved.
    fn verdict(&self, m: &Msg, chain: &[Labels], tree: &Tree, name: &Labels, began: u64, subs: &dyn Fn(&BTreeMap<Labels, Step>) -> usize) {
        let g = self.steps.borrow();
        let max = self.conf.read_timeout.as_nanos() as u64 * (self.hist.borrow().split(' ').count() as u64);
        if rt::now() - began > max {
            self.bad("the lookup takes longer than its attempts", format!("{} ns", rt::now() - began));
        }
        let last = chain.last().unwrap();
        let end = chain.iter().find_map(|z| match g.get(z).and_then(|s| s.done) {
            Some(Nx) => Some(3),
            Some(_) if z == last => Some(0),
            _ => None,
        });
        match end {
            Some(3) => {
                if m.h.rcode != 3 {
                    self.bad("a usable response is not used", format!("response code {}", m.h.rcode));
                }
                rt::count("name error");
            }
            Some(_) => {
                if let Result::Err((s, d)) = judge(tree, name, A, m) {
                    self.bad("a usable response is not used", format!("{}: {}", s, d));
                }
                rt::count("answered");
            }
            None => {
                if m.h.rcode != 2 || !m.an().is_empty() {
                    self.bad("no failure although no attempt was successful", show(m));
                }
                // the step which failed
                let z = match chain.iter().find(|z| g.get(*z).map_or(true, |s| s.done.is_none())) {
                    Some(z) => z,
                    None => self.bad("failed without need", String::new()),
                };
                let st = g.get(z).cloned().unwrap_or_default();
                let n = self.zones.iter().find(|x| x.0 == *z).unwrap().1.len();
                let tried = st.asked.len() + if z == last { subs(&g) } else { 0 };
                if tried < n.min(self.conf.max_ns_queried) {
                    self.bad("given up before all nameservers were asked", format!("{} of {} for {}", tried, n, txt(z)));
                }
                if st.last.map_or(false, |l| l.retried()) && st.attempts < self.conf.max_upd_retries {
                    self.bad("given up before the configured attempts", format!("{} for {}", st.attempts, txt(z)));
                }
                rt::count("server failure");
            }
        }
    }
}

/// Plays the servers; the outcome of each attempt at a zone comes from `menu`.
fn stage(tree: Rc<Tree>, conf: ResolverParams, menu: impl Fn(&Labels) -> &'static [Out] + 'static) -> (Rc<Judge>, Rc<Cell<bool>>) {
    let zones = tree.zones.iter().map(|z| (z.apex.clone(), z.ips.clone())).collect();
    let j = Rc::new(Judge { conf: conf.clone(), zones, steps: Default::default(), hist: Default::default() });
    let healed = Rc::new(Cell::new(false));
    let pending: Rc<Cell<Option<Out>>> = Default::default();
    let recv: Rc<Cell<Option<Out>>> = Default::default();
    let (j2, p2, r2, h2) = (j.clone(), pending.clone(), recv.clone(), healed.clone());
    let unreach = |e: i32| Some(Action::Err(std::io::Error::from_raw_os_error(e)));
    rt::k().net.fault = Some(Rc::new(move |op: Op| {
        match op {
            Op::UdpSend(_, to, _) if to.port() == 53 => {
                let ip = match to.ip() {
                    std::net::IpAddr::V4(x) => x.octets(),
                    _ => return None,
                };
                if h2.get() {
                    p2.set(Some(Good));
                    return None;
                }
                let z = j2.zone(ip);
                let o = *rt::pick_of(menu(&z));
                j2.attempt(ip, o);
                p2.set(Some(o));
                r2.set(None);
                match o {
                    SendErr => return unreach(101),
                    RecvErr | Interrupted => r2.set(Some(o)),
                    _ => {}
                }
                None
            }
            Op::UdpRecv(_) => match r2.take() {
                Some(RecvErr) => unreach(111),
                Some(Interrupted) => unreach(4),
                _ => None,
            },
            _ => None,
        }
    }));
    let to = conf.read_timeout.as_nanos() as u64;
    play(move |x| {
        let o = match pending.take() {
            Some(o) => o,
            None => rt::fail("harness", "an attempt without outcome".into()),
        };
        let mut m = tree.respond(x.ip, &x.q);
        let err = |c: u8| {
            let mut m = Msg { h: Hdr { qr: true, ..Default::default() }, q: vec![x.q.clone()], ..Default::default() };
            m.h.rcode = c;
            m
        };
        match o {
            Good => x.reply(&datagram(m, x.id)),
            GoodLate => x.reply_later(to - 1, datagram(m, x.id)),
            TooLate => x.reply_later(to + 1, datagram(m, x.id)),
            Silence | SendErr | RecvErr | Interrupted => {}
            Garbage => {
                let b = datagram(m, x.id);
                x.reply(&b[..b.len() - 3])
            }
            Short => x.reply(&datagram(m, x.id)[..5]),
            WrongIdLate => x.reply_later(to - 1, datagram(m, x.id ^ 0x100)),
            GarbageLate => {
                let b = datagram(m, x.id);
                x.reply_later(to - 1, b[..b.len() - 3].to_vec())
            }
            Drip => {
                for i in 1..12 {
                    x.reply_later(to / 2 * i, datagram(m.clone(), x.id ^ 0x100))
                }
            }
            WrongId => x.reply(&datagram(m, x.id ^ 0x100)),
            Servfail => x.reply(&datagram(err(2), x.id)),
            Refused => x.reply(&datagram(err(5), x.id)),
            FormErr => x.reply(&datagram(err(1), x.id)),
            NxPlain => x.reply(&datagram(err(3), x.id)),
            Nx => {
                let mut m = err(3);
                m.h.aa = true;
                x.reply(&datagram(m, x.id))
            }
            Empty => x.reply(&datagram(err(0), x.id)),
            NoData => {
                m = err(0);
                m.h.aa = true;
                m.s[1].push(rr("com.", 60, soa("ns.com.", "admin.com.", [1, 2, 3, 4, 5])));
                x.reply(&datagram(m, x.id))
            }
            Lame | Aside | NoGlue => {
                m = err(0);
                let z = tree.zones.iter().find(|z| z.ips.contains(&x.ip)).unwrap();
                let (zone, host) = match o {
                    Lame => (z.apex.clone(), cat("ns9", &z.apex)),
                    Aside => (cat("aside", &z.apex), cat("ns", &cat("aside", &z.apex))),
                    _ => (x.q.name.clone(), cat("ns", &x.q.name)),
                };
                m.s[1].push(RR { owner: zone, class: 1, ttl: 60, data: RData::Ns(host.clone()) });
                if o != NoGlue {
                    m.s[2].push(RR { owner: host, class: 1, ttl: 60, data: a(x.ip) });
                }
                x.reply(&datagram(m, x.id))
            }
            Err(c, aa, with) => {
                m = err(c);
                m.h.aa = aa;
                let q = x.q.name.clone();
                let me = |n: &Labels, d| RR { owner: n.clone(), class: 1, ttl: 60, data: d };
                match with {
                    With::Nothing => {}
                    With::Answer => m.s[0].push(me(&q, a([6, 6, 6, 6]))),
                    With::AliasOf => m.s[0].push(me(&q, cname("other.a.com."))),
                    With::Soa => m.s[1].push(rr("a.com.", 60, soa("ns.com.", "admin.com.", [1, 2, 3, 4, 5]))),
                    With::Deleg => {
                        m.s[1].push(me(&q, RData::Ns(cat("ns", &q))));
                        m.s[2].push(me(&cat("ns", &q), a(x.ip)));
                    }
                    With::Additional => m.s[2].push(me(&q, a([6, 6, 6, 6]))),
                }
                x.reply(&datagram(m, x.id))
            }
            Alias => {
                m = err(0);
                m.h.aa = true;
                m.s[0].push(RR { owner: x.q.name.clone(), class: 1, ttl: 60, data: cname("ns.net.") });
                x.reply(&datagram(m, x.id))
            }
            ErrAnswer | ErrDeleg | NxAnswer => {
                m = err(if o == NxAnswer { 3 } else { 2 });
                let q = x.q.name.clone();
                if o == ErrDeleg {
                    m.s[1].push(RR { owner: q.clone(), class: 1, ttl: 60, data: RData::Ns(cat("ns", &q)) });
                    m.s[2].push(RR { owner: cat("ns", &q), class: 1, ttl: 60, data: a(x.ip) });
                } else {
                    m.s[0].push(RR { owner: q, class: 1, ttl: 60, data: a([6, 6, 6, 6]) });
                }
                x.reply(&datagram(m, x.id))
            }
            Upward => {
                m = err(0);
                m.s[1].push(rr(".", 60, ns("a.root-servers.net.")));
                m.s[2].push(rr("a.root-servers.net.", 60, a(ROOTS[0])));
                x.reply(&datagram(m, x.id))
            }
        }
    });
    (j, healed)
}

fn cat(l: &str, n: &Labels) -> Labels {
    let mut v = nm(&format!("{}.", l));
    v.extend(n.iter().cloned());
    v
}

/// com. with `c` nameservers, a.com. with `n` of its own and `g` elsewhere.
fn tree(c: usize, n: usize, g: usize) -> Tree {
    let mut t = Tree::new();
    t.text(".", 3600, "@ NS a.root-servers.net.");
    let mut s = String::new();
    for i in 0..c {
        s += &format!("@ NS ns{}.com.\nns{} A 10.1.0.{}\n", i, i, 1 + i);
    }
    t.text("com.", 3600, &s);
    let mut s = "www A 10.9.9.9\nother A 10.9.9.8\n".to_string();
    for i in 0..g {
        s += &format!("@ NS ns.d{}.net.\n", i);
    }
    for i in 0..n {
        s += &format!("@ NS ns{}.a.com.\nns{} A 10.2.0.{}\n", i, i, 1 + i);
    }
    t.text("a.com.", 3600, &s);
    if g > 0 {
        t.text("net.", 3600, "@ NS ns.net.\nns A 10.5.0.1");
    }
    for i in 0..g {
        // two machines with the names of nameservers elsewhere
        t.text(&format!("d{}.net.", i), 3600, &format!("@ NS x.d{}.net.\n@ NS y.d{}.net.\nx A 10.3.{}.1\ny A 10.3.{}.2\nns A 10.4.{}.1", i, i, i, i, i));
    }
    t.link()
}
fn conf(ns: usize, tries: usize) -> ResolverParams {
    conf_t(ns, tries, 700)
}
fn conf_t(ns: usize, tries: usize, ms: u64) -> ResolverParams {
    ResolverParams {
        max_ns_queried: ns,
        max_upd_retries: tries,
        max_cname_redir: 10,
        read_timeout: Duration::from_millis(ms),
        write_timeout: Duration::from_millis(300),
        no_follow_cname: false,
    }
}
/// A cache which knows the nameservers of the zone `z`, or nothing.
fn warm(cache: &RecordsCache, t: &Tree, z: &str) {
    let keep = |n: &Labels, ty: u16, rt_: ariadne_dns::shared::dns::RecordType| {
        let v: Vec<_> = t.set(n, ty).iter().map(|r| to_record(r)).collect();
        if !v.is_empty() {
            cache.set((to_name(n), rt_), Duration::from_secs(3600), v);
        }
    };
    let z = nm(z);
    keep(&z, NS, ariadne_dns::shared::dns::RecordType::NS);
    for r in t.set(&z, NS) {
        if let RData::Ns(n) = &r.data {
            if within(n, &z) {
                keep(n, A, ariadne_dns::shared::dns::RecordType::A);
            }
        }
    }
}

fn main() {
    let mut ck = Check::start("C18");
    let th = ck.thorough();
    ck.assume("an interrupted or failed system call on the socket counts as a failed attempt");
    let name = nm("www.a.com.");
    let chain: Vec<Labels> = [".", "com.", "a.com."].iter().map(|s| nm(s)).collect();

    let target = {
        let (name, chain) = (name.clone(), chain.clone());
        move |sizes: &[usize], limits: &[(usize, usize)], menu: &'static [Out]| {
            let n = *rt::pick_of(sizes);
            let (k, r) = *rt::pick_of(limits);
            let t = Rc::new(tree(1, n, 0));
            let c = conf_t(k, r, if menu.len() > 3 { 700 } else { *rt::pick_of(&[700, 1, 2000, 15000]) });
            let (j, healed) = stage(t.clone(), c.clone(), move |_| menu);
            let (cache, rs) = rsv(c, quiet());
            warm(&cache, &t, "a.com.");
            let h = ResolverHandler(rs);
            let t0 = rt::now();
            let m = lookup(&h, &name, A);
            j.verdict(&m, &chain[2..], &t, &name, t0, &|_| 0);
            rt::sample(|| format!("{} nameservers, limits {} x {}: {}-> {}", n, k, r, j.hist.borrow(), show(&m)));
            // nothing of it lasts
            healed.set(true);
            let m2 = lookup(&h, &nm("other.a.com."), A);
            if let Result::Err((s, d)) = judge(&t, &nm("other.a.com."), A, &m2) {
                j.bad("later lookups fail", format!("{}: {}", s, d));
            }
        }
    };
    let one = target.clone();
    ck.rt("one or two nameservers, every outcome", opts(), move || one(&[1, 2], &[(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 2)], ALL));
    let few = target.clone();
    ck.rt("three nameservers", opts(), move || few(&[3, 4, 5], &[(1, 3), (2, 2), (3, 1), (3, 2), (5, 1)], &[Good, Silence, Servfail, WrongId, Empty, SendErr]));
    let lim = target.clone();
    ck.rt("limits", opts(), move || lim(&[1, 2, 3, 4], &[(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (4, 2), (13, 1), (1, 5), (2, 4)], &[Good, Silence, Servfail]));
    {
        let one = target.clone();
        ck.rt("two nameservers, three attempts, every outcome", opts().cap(1500.0), move || one(&[2, 3], if th { &[(2, 3), (3, 2)] } else { &[(2, 3)] }, if th { &ALL[..13] } else { &ALL[..9] }));
        let many = target.clone();
        ck.rt("five nameservers", opts().cap(1500.0), move || many(&[5, 6], if th { &[(5, 2), (4, 3), (6, 1), (3, 4)] } else { &[(3, 3), (6, 1)] }, &[Good, Silence, Servfail, Garbage]));
    }

    let rs: Vec<usize> = ck.by(vec![5, 6, 8, 10, 16, 17, 33, 65, 129, 256, 300], vec![4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 500, 1001]);
    let second: &[Out] = if th { &[Silence, Garbage, SendErr, WrongId] } else { &[Silence, Garbage] };
    let name4 = name.clone();
    let chain4 = chain.clone();
    ck.rt("many attempts", opts().steps(50_000_000).cap(ck.by(100.0, 1500.0)), move || {
        let r = *rt::pick_of(&rs);
        let n = 1 + rt::pick(2);
        let tries: Vec<usize> = (0..ALL.len()).filter(|i| ALL[*i].retried()).collect();
        let a = *rt::pick_of(&tries);
        let b = *rt::pick_of(second);
        let b = ALL.iter().position(|x| *x == b).unwrap();
        let from = *rt::pick_of(&[1, r - 2]);
        // the attempt which succeeds: none, the last, the next nameserver's
        let good = *rt::pick_of(&[usize::MAX, r - 1, r, 2 * r - 1]);
        let i = Cell::new(0);
        let t = Rc::new(tree(1, n, 0));
        let c = conf(2, r);
        let (j, _) = stage(t.clone(), c.clone(), move |_| {
            let k = i.get();
            i.set(k + 1);
            if k == good {
                &[Good]
            } else if k < from {
                &ALL[a..a + 1]
            } else {
                &ALL[b..b + 1]
            }
        });
        let (cache, rs) = rsv(c, quiet());
        warm(&cache, &t, "a.com.");
        let h = ResolverHandler(rs);
        let t0 = rt::now();
        let m = lookup(&h, &name4, A);
        j.verdict(&m, &chain4[2..], &t, &name4, t0, &|_| 0);
        rt::sample(|| format!("{} nameservers, {} attempts each, {:?} up to attempt {}, then {:?}; attempt {} succeeds -> {}", n, r, ALL[a], from, ALL[b], good as isize, show(&m)));
    });

    // from the root servers on
    let (name2, chain2) = (name.clone(), chain.clone());
    ck.rt("all steps of a cold lookup", opts().cap(ck.by(200.0, 2000.0)), move || {
        let (k, r) = *rt::pick_of(&[(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)]);
        let menu: &'static [Out] = if r * k >= 4 && !th { &[Good, Silence, Servfail] } else { &[Good, Silence, Servfail, WrongId, Refused] };
        let t = Rc::new(tree(2, 2, 0));
        let c = conf(k, r);
        let (j, healed) = stage(t.clone(), c.clone(), move |_| menu);
        let (_cache, rs) = rsv(c, quiet());
        let h = ResolverHandler(rs);
        let t0 = rt::now();
        let m = lookup(&h, &name2, A);
        j.verdict(&m, &chain2, &t, &name2, t0, &|_| 0);
        rt::sample(|| format!("limits {} x {}: {}-> {}", k, r, j.hist.borrow(), show(&m)));
        healed.set(true);
        for n in ["other.a.com.", "www.a.com."] {
            let m2 = lookup(&h, &nm(n), A);
            if let Result::Err((s, d)) = judge(&t, &nm(n), A, &m2) {
                j.bad("later lookups fail", format!("{}: {}", s, d));
            }
        }
    });

    // an error response is one whatever comes with it
    let name5 = name.clone();
    ck.rt("error responses with data", opts(), move || {
        let t = Rc::new(tree(1, 2, 0));
        let (k, r) = *rt::pick_of(&[(2, 1), (1, 1), (2, 2)]);
        let c = conf(k, r);
        let errs: Vec<Out> = [1, 2, 3, 4, 5].iter().flat_map(|c| [false, true].into_iter().flat_map(move |aa| [With::Nothing, With::Answer, With::AliasOf, With::Soa, With::Deleg, With::Additional].into_iter().map(move |w| Err(*c, aa, w)))).filter(|e| !matches!(e, Err(3, true, _))).collect();
        let first = *rt::pick_of(&errs);
        let n = Cell::new(0);
        let (j, healed) = stage(t.clone(), c.clone(), move |_| {
            n.set(n.get() + 1);
            if n.get() == 1 {
                Box::leak(Box::new([first]))
            } else {
                &[Good, Silence]
            }
        });
        let (cache, rs) = rsv(c, quiet());
        warm(&cache, &t, "a.com.");
        let h = ResolverHandler(rs);
        let t0 = rt::now();
        let m = lookup(&h, &name5, A);
        j.verdict(&m, &[nm("a.com.")], &t, &name5, t0, &|_| 0);
        rt::sample(|| format!("limits {} x {}: {}-> {}", k, r, j.hist.borrow(), show(&m)));
        healed.set(true);
        for n in ["other.a.com.", "www.a.com."] {
            let m2 = lookup(&h, &nm(n), A);
            if let Result::Err((s, d)) = judge(&t, &nm(n), A, &m2) {
                j.bad("later lookups fail", format!("{}: {}", s, d));
            }
        }
    });

    // referrals with as many addresses as fit
    let (name2, chain2) = (name.clone(), chain.clone());
    ck.rt("many nameservers in the referrals", opts().cap(ck.by(200.0, 2000.0)), move || {
        let (c_, n) = *rt::pick_of(&[(2, 5), (4, 6), (5, 7), (7, 5), (6, 9)]);
        let (k, r) = *rt::pick_of(&[(1, 1), (4, 1), (5, 1), (5, 2), (6, 1), (7, 1), (9, 1), (13, 1)]);
        let t = Rc::new(tree(c_, n, 0));
        let c = conf(k, r);
        let (j, healed) = stage(t.clone(), c.clone(), move |z| if z.is_empty() { &[Good] } else if z.len() == 1 || k > 6 { &[Good, Servfail] } else { &[Good, Servfail, Silence] });
        let (_cache, rs) = rsv(c, quiet());
        let h = ResolverHandler(rs);
        let t0 = rt::now();
        let m = lookup(&h, &name2, A);
        j.verdict(&m, &chain2, &t, &name2, t0, &|_| 0);
        rt::sample(|| format!("{} and {} nameservers, limits {} x {}: {}-> {}", c_, n, k, r, j.hist.borrow(), show(&m)));
        healed.set(true);
        let m2 = lookup(&h, &nm("other.a.com."), A);
        if let Result::Err((s, d)) = judge(&t, &nm("other.a.com."), A, &m2) {
            j.bad("later lookups fail", format!("{}: {}", s, d));
        }
    });

    // nameservers whose addresses must be looked up first
    let (name3, chain3) = (name.clone(), chain.clone());
    ck.rt("nameservers without addresses", opts().cap(ck.by(200.0, 2000.0)), move || {
        let (n, g) = *rt::pick_of(&[(0, 1), (0, 2), (1, 1), (1, 2)]);
        let (k, r) = *rt::pick_of(&[(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (3, 2)]);
        let t = Rc::new(tree(1, n, g));
        let c = conf(k, r);
        let menu: &'static [Out] = if k * r >= 4 && !th { &[Good, Silence, Servfail] } else { &[Good, Silence, Servfail, WrongId, Empty, SendErr] };
        // the names of these may be of no use
        let far: &'static [Out] = if k * r >= 4 && !th { &[Good, Silence, Servfail, Nx, Alias] } else { &[Good, Silence, Servfail, WrongId, Empty, Nx, NoData, Alias] };
        let (j, healed) = stage(t.clone(), c.clone(), move |z| match z.last() {
            Some(l) if l == b"net" && z.len() == 2 => far,
            _ if z.len() == 2 => menu,
            _ => &[Good],
        });
        let (cache, rs) = rsv(c, quiet());
        for i in 0..g {
            warm(&cache, &t, &format!("d{}.net.", i));
        }
        // the parent zone answers honestly, it is asked for the names in a.com. only
        j.steps.borrow_mut().clear();
        let h = ResolverHandler(rs);
        let t0 = rt::now();
        let m = lookup(&h, &name3, A);
        let subs = move |g_: &BTreeMap<Labels, Step>| (0..g).filter(|i| g_.get(&nm(&format!("d{}.net.", i))).map_or(false, |s| s.done.map_or(true, |d| d == Nx || d == Alias))).count();
        j.verdict(&m, &chain3, &t, &name3, t0, &subs);
        rt::sample(|| format!("{} near, {} far, limits {} x {}: {}-> {}", n, g, k, r, j.hist.borrow(), show(&m)));
        healed.set(true);
        let m2 = lookup(&h, &nm("other.a.com."), A);
        if let Result::Err((s, d)) = judge(&t, &nm("other.a.com."), A, &m2) {
            j.bad("later lookups fail", format!("{}: {}", s, d));
        }
    });

    // a long way behind the lookup when nameservers begin to fail
    ck.rt("failures after a long way", opts(), move || {
        let deep = *rt::pick_of(&[0usize, 1, 7, 8, 9, 16, 17, 25, 60]);
        let aliases = *rt::pick_of(&[0usize, 1, 4, 10]);
        let every = rt::pick_bool();
        let out = *rt::pick_of(&["far", "far alias", "servfail", "silence", "refused", "garbage", "empty"]);
        let tries = 1 + rt::pick(2);
        // one bad nameserver, or as many as may be asked but one
        let limit = *rt::pick_of(&[2usize, 5]);
        let bad = 1 + rt::pick(2) * (limit - 2);
        // every nameserver asked counts; the limit on the work of one lookup is 200
        let per = bad + 2;
        if (deep + 3) * if every { per * 2 } else { 2 } + aliases * per > 180 {
            rt::prune();
        }
        let mut t = Tree::new();
        t.text(".", 3600, "@ NS a.root-servers.net.");
        t.text("com.", 3600, "@ NS ns.com.\nns A 10.1.0.1");
        let mut net = String::from("@ NS ns.net.\nns A 10.5.0.1\nali CNAME ns.net.\n");
        for i in 0..=deep {
            net += &format!("g{0} A 10.3.{0}.1\n", i);
        }
        t.text("net.", 3600, &net);
        // the good one, too, has to be looked up first
        let far = out.starts_with("far") && rt::pick_bool();
        let mut apex = String::from("com.");
        let mut z = 0;
        while z <= deep {
            apex = format!("z{}.{}", z, apex);
            let mut v = String::new();
            if z == deep || every {
                for i in 0..bad {
                    v += &match out {
                        "far" => format!("@ NS ns{}.dead.net.\n", i),
                        "far alias" => "@ NS ali.net.\n".to_string(),
                        _ => format!("@ NS bad{0}.{1}\nbad{0} A 10.66.{2}.{0}\n", i, apex, z),
                    };
                }
            }
            v += &match far && (z == deep || every) {
                true => format!("@ NS g{}.net.\n", z),
                false => format!("@ NS ns.{0}\nns A 10.3.{1}.1\n", apex, z),
            };
            v += &format!("www A 10.9.{}.9\n", z);
            for i in 0..aliases {
                v += &format!("al{} CNAME {}.{}\n", i, if i + 1 == aliases { "www".to_string() } else { format!("al{}", i + 1) }, apex);
            }
            t.text(&apex, 3600, &v);
            z += 1;
        }
        let t = Rc::new(t.link());
        let t2 = t.clone();
        let said: Rc<RefCell<Vec<String>>> = Default::default();
        let s2 = said.clone();
        play(move |x| {
            s2.borrow_mut().push(format!("{} at {}", txt(&x.q.name), std::net::Ipv4Addr::from(x.ip)));
            if x.ip[1] != 66 {
                return x.reply(&datagram(t2.respond(x.ip, &x.q), x.id));
            }
            let mut m = t2.respond([10, 3, x.ip[2], 1], &x.q);
            match out {
                "silence" => return,
                "garbage" => return x.reply(&[0; 40]),
                "servfail" => m.h.rcode = 2,
                "refused" => m.h.rcode = 5,
                _ => {}
            }
            m.s = Default::default();
            x.reply(&datagram(m, x.id))
        });
        let (_cache, rs) = rsv(ResolverParams { max_cname_redir: 10, ..conf(limit, tries) }, quiet());
        let h = ResolverHandler(rs);
        let name = nm(&format!("{}.{}", if aliases > 0 { "al0" } else { "www" }, apex));
        let what = format!("{} delegations, {} aliases, {} bad nameservers ({}) {}, {} may be asked {} times", deep + 2, aliases, bad, if far { "all far" } else { out }, if every { "everywhere" } else { "in the last zone" }, limit, tries);
        let m = lookup(&h, &name, A);
        if let Result::Err((s, d)) = judge(&t, &name, A, &m) {
            rt::fail("a working nameserver is not reached", format!("{}: {}: {}; asked: {:?}", what, s, d, said.borrow()));
        }
        rt::sample(|| format!("{}: {} queries", what, said.borrow().len()));
    });

    // no socket, or one that cannot be set up
    let name4 = name.clone();
    ck.rt("sockets which cannot be had", opts(), move || {
        let (k, r) = *rt::pick_of(&[(1, 1), (1, 2), (2, 1), (2, 2)]);
        let n = 1 + rt::pick(2);
        let t = Rc::new(tree(1, n, 0));
        let c = conf(k, r);
        let (j, _) = stage(t.clone(), c.clone(), |_| &[Good]);
        let old = rt::k().net.fault.clone().unwrap();
        let what = rt::pick(3);
        let left = Rc::new(Cell::new(1 + rt::pick(4)));
        let total = left.get();
        rt::k().net.fault = Some(Rc::new(move |op: Op| {
            let hit = match (&op, what) {
                (Op::UdpBind(_), 0) => true,
                (Op::SetTimeout, 1) => true,
                (Op::UdpConnect(_, _) | Op::UdpSend(..), 2) => true,
                _ => false,
            };
            if hit && left.get() > 0 {
                left.set(left.get() - 1);
                return Some(Action::Err(std::io::Error::from_raw_os_error(24)));
            }
            old(op)
        }));
        let (cache, rs) = rsv(c, quiet());
        warm(&cache, &t, "a.com.");
        let h = ResolverHandler(rs);
        let m = lookup(&h, &name4, A);
        let budget = n.min(k) * r;
        let ok = judge(&t, &name4, A, &m).is_ok();
        if ok != (total < budget) {
            j.bad("socket errors count for more or less than an attempt", format!("{} failures, {} attempts: {}", total, budget, show(&m)));
        }
        rt::count(if ok { "answered" } else { "server failure" });
        rt::sample(|| format!("{} failures of kind {}, {} attempts: {}", total, what, budget, show(&m)));
    });
    ck.finish()
}
