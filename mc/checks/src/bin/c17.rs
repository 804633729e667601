//! C17: every lookup ends, whatever the servers it asks do.
use ariadne_dns::resolver::*;
use checks::servers::*;
use checks::upstream::*;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

/// More upstream queries than this for one lookup are no fixed limit. (The
/// code's is 200 requests of up to 3 attempts.)
const LIMIT: usize = 3000;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mv {
    Answer(u32, usize),
    Nx,
    NxPlain,
    Empty,
    Code(u8),
    Silence,
    Garbage,
    WrongId,
    /// datagrams with a wrong id for as long as anyone listens
    Drip,
    Question,
    /// a referral one label down to `.0` nameservers, the first `.1` of them
    /// with addresses; the names are
    Refer(usize, usize, Where),
    /// the same straight to the zone with the queried name
    Leap(usize, usize, Where),
    /// referrals which lead nowhere
    Up,
    Same,
    Foreign,
    Fresh,
    FreshHint,
    Back,
    SelfAlias,
    LongAlias,
    RootAlias,
    OddAlias,
    Mixed,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Where {
    /// in zones never seen before
    Fresh,
    /// the same, many labels deep
    Deep,
    /// new names in the zone of the query
    Inside,
    /// the nameservers of two zones are in each other
    Cross,
    /// the queried name itself
    Itself,
    /// new names in one zone
    Sibling,
    Root,
}
use Mv::*;

/// What the referral of `q` at step `s` delegates.
fn owner(q: &Labels, s: usize) -> Labels {
    let n = (s + 1).min(q.len());
    q[q.len() - n..].to_vec()
}
struct St {
    fresh: Cell<usize>,
    steps: RefCell<HashMap<Labels, usize>>,
    main: Labels,
}
impl St {
    fn name(&self, w: Where, q: &Labels, own: &Labels) -> Labels {
        let c = self.fresh.get();
        self.fresh.set(c + 1);
        match w {
            Where::Fresh => nm(&format!("n{}.z{}.com.", c, c)),
            Where::Deep => nm(&format!("{}n{}.z{}.com.", "a.".repeat(110), c, c)),
            Where::Inside => {
                let mut v = nm(&format!("n{}.", c));
                v.extend(own.clone());
                v
            }
            Where::Cross => match within(q, &nm("cross1.com.")) {
                true => nm("ns.cross2.com."),
                false => nm("ns.cross1.com."),
            },
            Where::Itself => q.clone(),
            Where::Sibling => nm(&format!("n{}.hosts.com.", c)),
            Where::Root => nm("."),
        }
    }
    fn message(&self, x: &Asked, mv: Mv) -> Option<Msg> {
        let mut m = Msg { h: Hdr { id: x.id, qr: true, ..Default::default() }, q: vec![x.q.clone()], ..Default::default() };
        let q = &x.q.name;
        let s = {
            let mut st = self.steps.borrow_mut();
            let e = st.entry(low(q)).or_insert(0);
            *e += 1;
            *e - 1
        };
        let rec = |o: &Labels, ttl: u32, d: RData| RR { owner: o.clone(), class: 1, ttl, data: d };
        let refer = |m: &mut Msg, own: &Labels, k: usize, glued: usize, w: Where| {
            for i in 0..k {
                let n = self.name(w, q, own);
                m.s[1].push(rec(own, 300, RData::Ns(n.clone())));
                if i < glued {
                    m.s[2].push(rec(&n, 300, RData::A([10, 66, 0, 1 + i as u8])));
                }
            }
        };
        let alias = |m: &mut Msg, t: Labels| {
            m.h.aa = true;
            m.s[0].push(rec(q, 300, RData::Cname(t)));
        };
        match mv {
            Silence => return None,
            Answer(ttl, k) => {
                m.h.aa = true;
                for i in 0..k {
                    let d = match x.q.qtype {
                        A => RData::A([10, 66, 1, i as u8]),
                        TXT => txts(&["x"]),
                        _ => RData::Ns(nm("ns.com.")),
                    };
                    m.s[0].push(rec(q, ttl.wrapping_add(i as u32 % 2), d));
                }
            }
            Nx => {
                m.h.aa = true;
                m.h.rcode = 3;
            }
            NxPlain => m.h.rcode = 3,
            Empty => m.h.aa = true,
            Code(c) => m.h.rcode = c,
            Garbage | WrongId | Drip => {}
            Question => m.q.clear(),
            Refer(k, g, w) => refer(&mut m, &owner(q, s), k, g, w),
            Leap(k, g, w) => refer(&mut m, q, k, g, w),
            Up => refer(&mut m, &vec![], 2, 1, Where::Fresh),
            Same => refer(&mut m, &owner(q, 0), 1, 1, Where::Fresh),
            Foreign => refer(&mut m, &nm("elsewhere.org."), 2, 2, Where::Fresh),
            Fresh => alias(&mut m, self.name(Where::Fresh, q, q)),
            FreshHint => {
                let t = self.name(Where::Deep, q, q);
                alias(&mut m, t.clone());
                refer(&mut m, &t[t.len() - 2..].to_vec(), 3, 1, Where::Fresh);
            }
            Back => alias(&mut m, self.main.clone()),
            SelfAlias => alias(&mut m, q.clone()),
            LongAlias => alias(&mut m, nm(&format!("{}com.", "b.".repeat(125)))),
            RootAlias => alias(&mut m, vec![]),
            OddAlias => alias(&mut m, vec![b"a b*\\".to_vec(), b"com".to_vec()]),
            Mixed => {
                m.h.aa = true;
                refer(&mut m, &owner(q, s), 13, 0, Where::Fresh);
                m.s[0].push(rec(&nm("elsewhere.org."), 1, RData::A([1, 2, 3, 4])));
                m.s[2].push(rec(q, 1, RData::A([1, 2, 3, 4])));
                m.s[2].push(rec(q, 2, RData::A([1, 2, 3, 5])));
            }
        }
        Some(m)
    }
    fn reply(&self, x: &Asked, mv: Mv) {
        let b = match self.message(x, mv) {
            None => return,
            Some(m) => datagram(m, x.id),
        };
        match mv {
            Garbage => x.reply(&b[..b.len() - 3]),
            WrongId => {
                let mut b = b;
                b[0] ^= 0x55;
                x.reply(&b)
            }
            Drip => {
                let mut b = b;
                b[0] ^= 0x55;
                drip(x.clone(), b)
            }
            _ => x.reply(&b),
        }
    }
}
fn drip(x: Asked, b: Vec<u8>) {
    rt::at(rt::now() + 500_000_000, move || {
        if vstd::net::deliver(x.to(), x.from, &b) {
            drip(x, b)
        }
    })
}

const MOVES: &[Mv] = &[
    Answer(300, 1),
    Nx,
    Empty,
    Code(2),
    Silence,
    Garbage,
    Refer(1, 1, Where::Fresh),
    Refer(1, 0, Where::Fresh),
    Refer(3, 0, Where::Fresh),
    Refer(13, 0, Where::Fresh),
    Refer(3, 1, Where::Fresh),
    Leap(1, 0, Where::Fresh),
    Leap(3, 0, Where::Deep),
    Leap(2, 0, Where::Cross),
    Leap(1, 0, Where::Itself),
    Leap(3, 0, Where::Sibling),
    Refer(2, 1, Where::Inside),
    Fresh,
    FreshHint,
    Back,
    SelfAlias,
    Mixed,
    // the thorough tier adds these to the products
    Answer(0, 2),
    Answer(u32::MAX, 20),
    NxPlain,
    Code(5),
    WrongId,
    Drip,
    Question,
    Refer(13, 13, Where::Fresh),
    Refer(3, 0, Where::Deep),
    Refer(2, 0, Where::Inside),
    Refer(1, 0, Where::Cross),
    Refer(3, 0, Where::Sibling),
    Refer(1, 1, Where::Root),
    Refer(1, 0, Where::Root),
    Leap(1, 1, Where::Itself),
    Up,
    Same,
    Foreign,
    LongAlias,
    RootAlias,
    OddAlias,
];

fn ask(h: &ResolverHandler, log: &Log, name: &Labels, qt: u16, what: &dyn Fn() -> String) {
    log.borrow_mut().clear();
    let m = lookup(h, name, qt);
    rt::count(match m.h.rcode {
        0 => "answered",
        2 => "server failure",
        3 => "name error",
        _ => rt::fail("unexpected response code", format!("{} for {}: {}", m.h.rcode, txt(name), what())),
    });
    let n = log.borrow().len();
    rt::count(match n {
        0..=9 => "below 10 queries",
        10..=99 => "below 100 queries",
        100..=299 => "below 300 queries",
        _ => "300 queries and more",
    });
}

/// All servers follow `f(query, number of queries for that name before, total)`.
fn hostile(main: &Labels, f: impl Fn(&Asked, usize, usize) -> Mv + 'static) -> Log {
    let st = St { fresh: Cell::new(0), steps: Default::default(), main: main.clone() };
    let total = Cell::new(0usize);
    let cell: Rc<RefCell<Option<Log>>> = Default::default();
    let c2 = cell.clone();
    let log = play(move |x| {
        if c2.borrow().as_ref().unwrap().borrow().len() > LIMIT {
            rt::fail("no limit for the upstream queries of one lookup", format!("more than {}; the last is {} to {}", LIMIT, txt(&x.q.name), std::net::Ipv4Addr::from(x.ip)));
        }
        let s = st.steps.borrow().get(&low(&x.q.name)).copied().unwrap_or(0);
        let mv = f(x, s, total.get());
        total.set(total.get() + 1);
        st.reply(x, mv);
    });
    *cell.borrow_mut() = Some(log.clone());
    log
}

fn main() {
    let mut ck = Check::start("C17");
    let th = ck.thorough();
    ck.assume("the limits are the defaults (3 nameservers, 3 attempts, 10 aliases) except where stated");
    let main_names = ["www.evil.com.", "a.b.c.d.e.f.g.h.i.j.k.l.m.n.o.p.evil.com."];

    // every server the same two moves in turn for the name of the client, two
    // others for the names of nameservers
    let periodic = |mains: &[Mv], subs: &[Mv], two: bool, names: &[&str], conf: ResolverParams, again: bool| {
        let name = nm(rt::pick_of(names));
        let m1 = *rt::pick_of(mains);
        let m2 = if two { *rt::pick_of(mains) } else { m1 };
        let n1 = *rt::pick_of(subs);
        let n2 = if two { *rt::pick_of(subs) } else { n1 };
        let main = name.clone();
        let log = hostile(&name, move |x, s, _| {
            let mine = name_eq(&x.q.name, &main);
            match (mine, s % 2) {
                (true, 0) => m1,
                (true, _) => m2,
                (false, 0) => n1,
                _ => n2,
            }
        });
        let (_cache, r) = rsv(conf, quiet());
        let h = ResolverHandler(r);
        let what = || format!("{} {:?}/{:?}, others {:?}/{:?}", txt(&name), m1, m2, n1, n2);
        ask(&h, &log, &name, A, &what);
        if again {
            ask(&h, &log, &name, TXT, &what);
        }
        rt::sample(&what);
    };
    let d = ResolverParams::default();
    ck.rt("one strategy for the name, one for nameservers", opts(), || periodic(MOVES, MOVES, false, &main_names, d.clone(), true));
    let few = &MOVES[..22];
    ck.rt("alternating strategies", opts().cap(ck.by(200.0, 2000.0)), || periodic(if th { few } else { &few[5..14] }, if th { few } else { &few[2..12] }, true, &main_names[..1], d.clone(), false));
    ck.rt("one server, one attempt, one alias", opts(), || periodic(MOVES, MOVES, false, &main_names, ResolverParams { max_ns_queried: 1, max_upd_retries: 1, max_cname_redir: 1, ..d.clone() }, false));
    ck.rt("thirteen servers", opts(), || periodic(few, few, false, &main_names[..1], ResolverParams { max_ns_queried: 13, max_upd_retries: 1, ..d.clone() }, false));

    // names as deep as names get, one delegation for each label
    ck.rt("as many delegations as labels", opts(), || {
        let n = [1, 2, 3, 50, 126, 127][rt::pick(6)];
        let name = nm(&"a.".repeat(n));
        let mv = *rt::pick_of(MOVES);
        let last = *rt::pick_of(MOVES);
        let log = hostile(&name, move |x, s, _| if s + 1 < x.q.name.len() { mv } else { last });
        let (_cache, r) = rsv(ResolverParams::default(), quiet());
        ask(&ResolverHandler(r), &log, &name, A, &|| format!("{} labels, {:?} then {:?}", n, mv, last));
        rt::sample(|| format!("{} labels, {:?} then {:?}", n, mv, last));
    });

    // deep names, few answers on the way to each, and another one at the end
    ck.rt("long ways with failures to many names", opts().cap(ck.by(200.0, 2000.0)), || {
        let per = [1, 2, 3, 7, 9][rt::pick(5)];
        let fail = [Silence, Code(2), Garbage][rt::pick(3)];
        let aliases = [0, 1, 2, 9, 10][rt::pick(5)];
        // delegations without addresses: none, once for each name of the client, everywhere
        let unglued = rt::pick(4);
        let end = [Answer(300, 1), Nx, Silence, Back][rt::pick(4)];
        let sub_end = [Answer(300, 1), Fresh, Refer(3, 0, Where::Deep)][rt::pick(if unglued > 0 { 3 } else { 1 })];
        let name = nm(&format!("{}evil.com.", "a.".repeat(110)));
        let st = St { fresh: Cell::new(0), steps: Default::default(), main: name.clone() };
        let counts: RefCell<HashMap<Labels, usize>> = Default::default();
        let mine = RefCell::new(vec![low(&name)]);
        let cell: Rc<RefCell<Option<Log>>> = Default::default();
        let c2 = cell.clone();
        let log = play(move |x| {
            let q = low(&x.q.name);
            if c2.borrow().as_ref().unwrap().borrow().len() > LIMIT {
                rt::fail("no limit for the upstream queries of one lookup", format!("more than {}; the last is {} to {}", LIMIT, txt(&q), std::net::Ipv4Addr::from(x.ip)));
            }
            let c = {
                let mut k = counts.borrow_mut();
                let e = k.entry(q.clone()).or_insert(0);
                *e += 1;
                *e - 1
            };
            let step = c / per;
            st.steps.borrow_mut().insert(q.clone(), step);
            let main = mine.borrow().contains(&q);
            let mv = match step + 1 < q.len() {
                _ if c % per != per - 1 => fail,
                true if unglued == 1 && main && step == 5 || unglued == 2 && step == 5 || unglued == 3 => Refer(3, 0, Where::Deep),
                true => Refer(3, 3, Where::Fresh),
                false if main && mine.borrow().len() <= aliases => {
                    let t = nm(&format!("{}t{}.com.", "b.".repeat(110), mine.borrow().len()));
                    mine.borrow_mut().push(t.clone());
                    let mut m = Msg { h: Hdr { id: x.id, qr: true, aa: true, ..Default::default() }, q: vec![x.q.clone()], ..Default::default() };
                    m.s[0].push(RR { owner: x.q.name.clone(), class: 1, ttl: 300, data: RData::Cname(t) });
                    return x.reply(&datagram(m, x.id));
                }
                false if main => end,
                false => sub_end,
            };
            st.reply(x, mv);
        });
        *cell.borrow_mut() = Some(log.clone());
        let (_cache, r) = rsv(ResolverParams::default(), quiet());
        let what = || format!("every {}th query is answered, the others {:?}; {} aliases, delegations without addresses {}, {:?}/{:?} at the end", per, fail, aliases, unglued, end, sub_end);
        ask(&ResolverHandler(r), &log, &name, A, &what);
        rt::sample(&what);
    });

    // any sequence of moves for the first queries, a strategy for the rest
    let depth = ck.by(3, 4);
    ck.rt("every sequence of first moves", opts().cap(ck.by(200.0, 2000.0)), move || {
        let name = nm("www.evil.com.");
        let seq: Vec<Mv> = (0..depth).map(|_| *rt::pick_of(few)).collect();
        let rest = *rt::pick_of(&[Answer(300, 1), Refer(3, 0, Where::Fresh), Nx]);
        let s2 = seq.clone();
        let log = hostile(&name, move |_, _, t| s2.get(t).copied().unwrap_or(rest));
        let (_cache, r) = rsv(ResolverParams::default(), quiet());
        let h = ResolverHandler(r);
        let what = || format!("{:?} then {:?}", seq, rest);
        ask(&h, &log, &name, A, &what);
        // the same name and one of its neighbours with what is cached now
        ask(&h, &log, &name, A, &what);
        ask(&h, &log, &nm("evil.com."), NS, &what);
        rt::sample(&what);
    });
    // through the real listeners: the client gets its reply
    ck.rt("over the network", opts(), || {
        let name = nm("www.evil.com.");
        let m1 = *rt::pick_of(MOVES);
        let n1 = *rt::pick_of(MOVES);
        let main = name.clone();
        let _log = hostile(&name, move |x, _, _| if name_eq(&x.q.name, &main) { m1 } else { n1 });
        let (_cache, r) = rsv(ResolverParams { read_timeout: std::time::Duration::new(1, 0), ..Default::default() }, quiet());
        let n = Net::default();
        run(ResolverHandler(r), &n);
        ready();
        udp_send(&n, cl(0), &query_l(7, &name, A));
        rt::sleep(std::time::Duration::new(4000, 0));
        let v = udp_replies(cl(0));
        if v.len() != 1 || decode_strict(&v[0]).is_err() {
            rt::fail("number of replies", format!("{} replies with {:?}, others {:?}", v.len(), m1, n1));
        }
        if !rt::k().panics.is_empty() {
            rt::fail("panic", format!("{:?} with {:?}, others {:?}", rt::k().panics.len(), m1, n1));
        }
        rt::sample(|| format!("{:?} {:?}", m1, n1));
        rt::finish(rt::End::Done)
    });
    ck.finish()
}
