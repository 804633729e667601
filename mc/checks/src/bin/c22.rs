//! C22: lifetimes: every history of lookups and waits around expiry.
use ariadne_dns::resolver::*;
use checks::servers::*;
use checks::upstream::*;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Duration;
use vstd::sync::Arc;

const SEC: u64 = 1_000_000_000;

/// What upstream told last about a record set, and when.
#[derive(Clone, Debug)]
struct Learnt {
    at: u64,
    set: Vec<RR>,
}
impl Learnt {
    fn ttl(&self) -> u64 {
        self.set.iter().map(|r| r.ttl).min().unwrap() as u64
    }
    fn exp(&self) -> u128 {
        self.at as u128 + self.ttl() as u128 * SEC as u128
    }
}
type Know = Rc<RefCell<BTreeMap<(Labels, u16), Learnt>>>;

const NAMES: &[(&str, u16)] = &[("www.a.com.", A), ("mix.a.com.", A), ("al.a.com.", A), ("t.a.com.", A), ("zero.a.com.", A), ("wWw.a.Com.", A), ("max.a.com.", A), ("al.a.com.", CNAME), ("www.a.com.", TXT), ("half.a.com.", A)];

fn tree(infra: u32) -> Tree {
    let mut t = Tree::new();
    t.text(".", 86400, "@ NS a.root-servers.net.");
    let z = t.text("com.", infra, "@ NS ns.com.\n ns A 10.1.0.1");
    z.deleg_ttl = Some(infra);
    let z = t.text("a.com.", infra, "@ NS ns.a.com.\n ns A 10.2.0.1");
    let mut r = |n: &str, ttl, d| z.recs.push(rr(n, ttl, d));
    r("www.a.com.", 3, a([10, 9, 0, 0]));
    r("www.a.com.", 4, txts(&["text"]));
    r("mix.a.com.", 5, a([10, 9, 0, 0]));
    r("mix.a.com.", 2, a([10, 10, 0, 0]));
    r("mix.a.com.", 9, a([10, 11, 0, 0]));
    r("al.a.com.", 2, cname("t.a.com."));
    r("t.a.com.", 4, a([10, 9, 0, 0]));
    r("zero.a.com.", 0, a([10, 9, 0, 0]));
    r("half.a.com.", 0, a([10, 9, 0, 0]));
    r("half.a.com.", 3, a([10, 10, 0, 0]));
    r("max.a.com.", u32::MAX, a([10, 9, 0, 0]));
    t.link()
}

fn alive<'a>(know: &'a BTreeMap<(Labels, u16), Learnt>, n: &Labels, t: u16, at: u64) -> Option<&'a Learnt> {
    know.get(&(low(n), t)).filter(|l| l.exp() > at as u128)
}
/// The closest zone around `n` some nameserver of which has a known address.
fn closest(know: &BTreeMap<(Labels, u16), Learnt>, n: &Labels, at: u64) -> Option<Labels> {
    (0..n.len()).map(|i| n[i..].to_vec()).find(|z| {
        alive(know, z, NS, at).map_or(false, |l| l.set.iter().any(|r| matches!(&r.data, RData::Ns(h) if alive(know, h, A, at).is_some())))
    })
}

/// The servers of the tree, each answer for a.com. with new data; replies take `latency`.
fn serve(t: Rc<Tree>, know: Know, latency: u64) -> Log {
    let version = Cell::new(0u16);
    // the target of the last alias which came with nameservers to go on with
    let hinted = RefCell::new(None);
    play(move |x| {
        let mut m = t.respond(x.ip, &x.q);
        let follows = hinted.replace(None).map_or(false, |n| n == low(&x.q.name));
        if let (true, Some(RR { data: RData::Cname(c), .. })) = (m.s[1].iter().any(|r| r.data.rtype() == NS), m.s[0].last()) {
            hinted.replace(Some(low(c)));
        }
        // nameservers which are known and can be reached are used
        if let Some(z) = closest(&know.borrow(), &x.q.name, rt::now()) {
            if !follows && !t.zones.iter().any(|s| s.ips.contains(&x.ip) && within(&s.apex, &z)) {
                rt::fail("known nameservers are not used", format!("{} {} is asked of {} while nameservers of {} are cached", txt(&x.q.name), type_name(x.q.qtype), std::net::Ipv4Addr::from(x.ip), txt(&z)));
            }
        }
        let at = rt::now() + latency;
        if !m.h.aa {
            let mut k = know.borrow_mut();
            for r in &m.s[1] {
                if let RData::Ns(h) = &r.data {
                    let glue: Vec<RR> = m.s[2].iter().filter(|g| name_eq(&g.owner, h)).cloned().collect();
                    if !glue.is_empty() {
                        k.insert((low(h), A), Learnt { at, set: glue });
                    }
                }
            }
            if let Some(r) = m.s[1].first() {
                k.insert((low(&r.owner), NS), Learnt { at, set: m.s[1].clone() });
            }
        }
        if m.h.aa && !m.s[0].is_empty() {
            version.set(version.get() + 1);
            for r in &mut m.s[0] {
                match &mut r.data {
                    RData::A(d) if d[1] >= 9 => {
                        d[2] = (version.get() >> 8) as u8;
                        d[3] = version.get() as u8;
                    }
                    RData::Txt(v) => *v = vec![format!("version {}", version.get()).into_bytes()],
                    _ => {}
                }
            }
            let key = (low(&x.q.name), m.s[0][0].data.rtype());
            know.borrow_mut().insert(key, Learnt { at, set: m.s[0].clone() });
        }
        let b = datagram(m, x.id);
        if latency == 0 {
            x.reply(&b)
        } else {
            x.reply_later(latency, b)
        }
    })
}

fn bare(v: &[RR]) -> Vec<RData> {
    let mut v: Vec<RData> = v.iter().map(|r| r.data.clone()).collect();
    v.sort();
    v
}

/// One lookup, against what was learnt before it and during it.
fn check(h: &ResolverHandler, know: &Know, log: &Log, name: &str, qt: u16, hist: &str) {
    let before = know.borrow().clone();
    log.borrow_mut().clear();
    let start = rt::now();
    let m = lookup(h, &nm(name), qt);
    let end = rt::now();
    if m.h.rcode != 0 {
        rt::fail("an existing record set is not found", format!("{}: response code {} to {} {}", hist, m.h.rcode, name, type_name(qt)));
    }
    let asked: Vec<(Labels, u16)> = log.borrow().iter().map(|x| (low(&x.q.name), x.q.qtype)).collect();
    // follow the answer: groups of records with the same owner
    let mut want = low(&nm(name));
    let mut groups: Vec<Vec<RR>> = vec![];
    for r in m.an() {
        match groups.last_mut() {
            Some(g) if name_eq(&g[0].owner, &r.owner) && g[0].data.rtype() == r.data.rtype() => g.push(r.clone()),
            _ => groups.push(vec![r.clone()]),
        }
    }
    if groups.is_empty() {
        rt::fail("wrong answer", format!("{}: nothing for {}", hist, name));
    }
    for g in &groups {
        let t = g[0].data.rtype();
        let key = (low(&g[0].owner), t);
        if key.0 != want {
            rt::fail("wrong answer", format!("{}: {}", hist, show(&m)));
        }
        if let RData::Cname(c) = &g[0].data {
            want = low(c);
        }
        let l = match know.borrow().get(&key).cloned() {
            Some(l) => l,
            None => rt::fail("wrong answer", format!("{}: {} was never told by upstream", hist, show_rr(&g[0]))),
        };
        let was = before.get(&key).cloned();
        let fresh = was.as_ref().map_or(true, |w| w.at != l.at || w.set != l.set);
        let rest = |l: &Learnt, at: u64| l.exp().saturating_sub(at as u128);
        match was {
            Some(w) if rest(&w, start) > 0 => {
                // it had not expired when the lookup began
                let alive_to_the_end = rest(&w, end) > 0;
                if fresh && alive_to_the_end {
                    rt::fail("asked upstream although cached", format!("{}: {} {} was asked {} ns before the cached set expires", hist, txt(&key.0), type_name(t), rest(&w, start)));
                }
                let sets = if fresh { vec![&w, &l] } else { vec![&w] };
                let hits: Vec<&&Learnt> = sets.iter().filter(|s| bare(&s.set) == bare(g)).collect();
                if hits.is_empty() {
                    rt::fail("wrong answer", format!("{}: got {} instead of {}", hist, checks::zones::show_rrs(g), checks::zones::show_rrs(&w.set)));
                }
                let range = |s: &Learnt| ((rest(s, end) / SEC as u128) as u32, (rest(s, start) / SEC as u128) as u32);
                let fits = |s: &Learnt| {
                    let fetched_now = fresh && s.at == l.at;
                    let (lo, hi) = range(s);
                    g.iter().all(|r| fetched_now || r.ttl <= hi && r.ttl >= lo)
                };
                if !hits.iter().any(|s| fits(s)) {
                    let (lo, hi) = range(hits[0]);
                    rt::fail("wrong remaining lifetime", format!("{}: {} with between {} and {} s left", hist, checks::zones::show_rrs(g), lo, hi));
                }
            }
            _ => {
                // expired, or never known: it must have been fetched now
                if !fresh || !asked.contains(&key) && !asked.iter().any(|(n, _)| *n == key.0) {
                    rt::fail("expired data served", format!("{}: {} served although it expired", hist, checks::zones::show_rrs(g)));
                }
                if bare(&l.set) != bare(g) {
                    rt::fail("wrong answer", format!("{}: got {} instead of {}", hist, checks::zones::show_rrs(g), checks::zones::show_rrs(&l.set)));
                }
                for r in g {
                    let orig = l.set.iter().find(|o| o.data == r.data).unwrap().ttl;
                    if r.ttl > orig || (r.ttl as u64) < l.ttl() {
                        rt::fail("wrong lifetime", format!("{}: {} fetched with lifetime {}, the lowest of its set is {}", hist, show_rr(r), orig, l.ttl()));
                    }
                }
            }
        }
    }
}

fn run_in(t: Rc<Tree>, depth: usize, names: &[(&str, u16)], waits: &[u64], latency: u64, cleaner: bool) {
        let know: Know = Default::default();
        let log = serve(t, know.clone(), latency);
        let cache = Arc::new(Cache::new(CacheConf { clean_period: Duration::new(1, 0), max_cleaned: 500 }));
        let h = ResolverHandler(Resolver::new(&cache, ResolverParams::default(), quiet()));
        if cleaner {
            cache.start_clean_routine();
        }
        let mut hist = format!("latency {} ns, ", latency);
        let mut waited = true;
        for i in 0..depth {
            let k = if waited && i > 0 || i + 1 == depth { rt::pick(names.len()) } else { rt::pick(names.len() + waits.len()) };
            if k < names.len() {
                hist += &format!("{} {}, ", names[k].0, type_name(names[k].1));
                check(&h, &know, &log, names[k].0, names[k].1, &hist);
                waited = false;
            } else {
                let w = waits[k - names.len()];
                hist += &format!("{} s, ", w as f64 / 1e9);
                rt::sleep_ns(w);
                waited = true;
            }
        }
        rt::state(rt::hash_of(&know.borrow().iter().map(|(k, v)| (k.clone(), v.exp().saturating_sub(rt::now() as u128).min(1 << 40))).collect::<Vec<_>>()));
        rt::sample(|| hist.clone());
}

fn main() {
    let mut ck = Check::start("C22");
    let th = ck.thorough();
    let run = |depth: usize, names: &[(&str, u16)], waits: &[u64], infra: u32, latency: u64, cleaner: bool| run_in(Rc::new(tree(infra)), depth, names, waits, latency, cleaner);
    let waits: &[u64] = &[1, SEC / 2, SEC - 1, SEC, 2 * SEC - 1, 2 * SEC, 3 * SEC, 4 * SEC, 5 * SEC - 1];
    let some: &[u64] = &[SEC / 2, SEC, 2 * SEC - 1, 2 * SEC, 3 * SEC];
    ck.rt("a wait between two lookups", opts(), || {
        let infra = *rt::pick_of(&[86400, 1, 0, 3]);
        let lat = *rt::pick_of(&[0, 1, 700_000_000]);
        let cl = rt::pick_bool();
        run(3, NAMES, waits, infra, lat, cl)
    });
    ck.rt("histories", opts().cap(ck.by(150.0, 3000.0)), || {
        let lat = *rt::pick_of(&[0, 300_000_000]);
        if th {
            run(7, &NAMES[..6], some, 86400, lat, false)
        } else {
            run(5, &NAMES[..5], some, 86400, lat, false)
        }
    });
    ck.rt("histories around an instant", opts().cap(ck.by(150.0, 3000.0)), || run(ck_depth(th), &NAMES[..3], waits, 86400, 0, true));
    // zones served from elsewhere, aliases between zones, lookups of the nameservers themselves
    const WORLD: &[(&str, u16)] = &[("www.a.com.", A), ("www.c.com.", A), ("out.a.com.", A), ("ns1.a.com.", A), ("a.com.", NS), ("ns.d.net.", A), ("c.com.", NS), ("www.b.com.", A), ("ns3.a.com.", A), ("x.y.z.sub.a.com.", A), ("www.d.net.", TXT), ("a.com.", MX), ("a.com.", TXT), ("up.sub.a.com.", CNAME), ("toup.a.com.", A)];
    ck.rt("nameservers", opts().cap(ck.by(150.0, 3000.0)), || {
        let deleg = *rt::pick_of(&[2, 4, 86400]);
        let glue = *rt::pick_of(&[1, 3, 86400]);
        let own = *rt::pick_of(if th { &[1, 3, 86400][..] } else { &[3] });
        let t = Rc::new(world(own, Some(deleg), Some(glue)));
        let k = if th { WORLD.len() } else { 6 };
        run_in(t, if th { 5 } else { 4 }, &WORLD[..k], &[SEC, 2 * SEC, 3 * SEC], 0, false);
    });
    ck.rt("nameservers of every zone", opts().cap(ck.by(150.0, 3000.0)), || {
        let (deleg, glue) = *rt::pick_of(&[(86400, 86400), (2, 1), (1, 2), (3, 86400), (86400, 3), (0, 5)]);
        let own = *rt::pick_of(&[2, 86400]);
        let lat = *rt::pick_of(&[0, 300_000_000]);
        let mut t = world(own, Some(deleg), Some(glue));
        // aliases come with the nameservers to go on with
        t.hints = rt::pick_bool();
        run_in(Rc::new(t), 3, WORLD, &[SEC, 2 * SEC - 1, 3 * SEC], lat, false);
    });
    if th {
        ck.rt("histories with short-lived nameservers", opts().cap(2000.0), || {
            let infra = *rt::pick_of(&[1, 2, 3]);
            run(6, &NAMES[..4], some, infra, 0, false)
        });
    }

    // many aliases, many delegations on the way
    ck.rt("long ways", opts(), || {
        let k = *rt::pick_of(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10]);
        let spread = rt::pick(3);
        let slope = *rt::pick_of(&[0i32, 1, -1]);
        let home = |i: usize| match spread {
            0 => 0,
            1 => i % 2,
            _ => i,
        };
        let apex = |z: usize| if spread == 2 { format!("{}com.", (0..=z).rev().map(|j| format!("z{}.", j)).collect::<String>()) } else { format!("z{}.com.", z) };
        let mut t = Tree::new();
        t.text(".", 86400, "@ NS a.root-servers.net.");
        t.text("com.", 86400, "@ NS ns.com.\n ns A 10.1.0.1");
        for z in 0..=home(k).max(home(k - 1)) {
            let mut s = format!("@ NS ns.{0}\n ns A 10.3.0.{1}\n", apex(z), z + 1);
            for i in (0..k).filter(|i| home(*i) == z) {
                s += &format!("al{} CNAME al{}.{}\n", i, i + 1, apex(home(i + 1)));
            }
            if home(k) == z {
                s += &format!("al{} A 10.9.0.0\n", k);
            }
            t.text(&apex(z), 86400, &s);
        }
        let ttl = |i: usize| (1000 + slope * 10 * i as i32) as u32;
        for z in &mut t.zones {
            for r in &mut z.recs {
                let n = txt(&r.owner);
                if let Some(i) = n.strip_prefix("al").and_then(|n| n.split('.').next()).and_then(|n| n.parse::<usize>().ok()) {
                    r.ttl = ttl(i);
                }
            }
        }
        let names: Vec<String> = (0..=k).map(|i| format!("al{}.{}", i, apex(home(i)))).collect();
        let lat = *rt::pick_of(&[0u64, 300_000_000]);
        let know: Know = Default::default();
        let log = serve(Rc::new(t.link()), know.clone(), lat);
        let (_c, r) = rsv(ResolverParams::default(), quiet());
        let h = ResolverHandler(r);
        let mut hist = format!("{} aliases, {}, ", k, ["in one zone", "in two zones", "each in a zone below the one before"][spread]);
        let first = *rt::pick_of(&[0, k / 2, k - 1]);
        check(&h, &know, &log, &names[first], A, &hist);
        for _ in 0..2 {
            let w = *rt::pick_of(&[0u64, 899, 950, 990, 1001, 1050]);
            hist += &format!("{} s, ", w);
            rt::sleep(Duration::new(w, 0));
            check(&h, &know, &log, &names[0], A, &hist);
        }
        rt::sample(|| hist.clone());
    });

    // names many labels below the closest zone which is known
    let below: Vec<usize> = ck.by(vec![1, 2, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 122], (1..123).collect());
    ck.rt("names far below a known zone", opts().steps(5_000_000), || {
        let n = *rt::pick_of(&below);
        // delegations on the way
        let k = *rt::pick_of(&[0usize, 1, 2, 3, 8, 9, 10, 16, 20]);
        let (mut t, apex) = chain(k, 86400, "z");
        let z = t.zones.last_mut().unwrap();
        let deep: String = "x.".repeat(n) + &apex;
        if nm(&deep).iter().map(|l| l.len() + 1).sum::<usize>() > 254 {
            rt::prune()
        }
        z.recs.push(rr(&deep, *rt::pick_of(&[3, 86400]), a([10, 9, 0, 0])));
        z.recs.push(rr(&format!("b.{}", deep), 3, cname(&deep)));
        let know: Know = Default::default();
        let log = serve(Rc::new(t), know.clone(), 0);
        let (_c, r) = rsv(ResolverParams::default(), quiet());
        let h = ResolverHandler(r);
        // what is known of the way: part of it, all of it
        let known = *rt::pick_of(&[0, k / 2, k]);
        let parts: Vec<&str> = apex.split_inclusive('.').collect();
        let first = format!("www.{}", parts[k - known..].concat());
        let hist = format!("{} labels below zone {} after {}, ", n, k, first);
        check(&h, &know, &log, &first, A, &hist);
        let via = rt::pick_bool() && n < 120;
        let name = if via { format!("b.{}", deep) } else { deep.clone() };
        check(&h, &know, &log, &name, A, &hist);
        rt::sleep(Duration::new(3, 0));
        check(&h, &know, &log, &name, A, &(hist.clone() + "again after 3 s, "));
        rt::sample(|| hist.clone());
    });

    // a cache with thousands of entries
    ck.rt("many names", opts().steps(60_000_000).mem(3000), || {
        let n = *rt::pick_of(&[200usize, 3000]);
        let step = *rt::pick_of(&[0u64, SEC / 10]);
        let cleaner = rt::pick_bool();
        let what = format!("{} names, one every {} s", n, step as f64 / 1e9);
        let mut s = String::from("@ NS ns.a.com.\n ns A 10.2.0.1\n");
        for i in 0..n {
            s += &format!("n{} A 10.{}.{}.{}\n", i, 100 + i / 60_000, i / 250 % 250, i % 250);
        }
        let mut t = Tree::new();
        t.text(".", 86400, "@ NS a.root-servers.net.");
        t.text("com.", 86400, "@ NS ns.com.\n ns A 10.1.0.1");
        t.text("a.com.", 3600, &s);
        let t = Rc::new(t.link());
        let log = honest(t.clone());
        let (cache, r) = rsv(ResolverParams::default(), quiet());
        let h = ResolverHandler(r);
        if cleaner {
            cache.start_clean_routine();
        }
        for round in 0..2 {
            log.borrow_mut().clear();
            for i in 0..n {
                let q = format!("n{}.a.com.", i);
                let m = lookup(&h, &nm(&q), A);
                let want = RData::A([10, (100 + i / 60_000) as u8, (i / 250 % 250) as u8, (i % 250) as u8]);
                if m.h.rcode != 0 || m.s[0].len() != 1 || m.s[0][0].data != want {
                    rt::fail("wrong answer", format!("{}: {} in round {}: {}", what, q, round, show(&m)));
                }
                rt::sleep_ns(step);
            }
            let asked = log.borrow().len();
            if round == 1 && asked > 0 {
                rt::fail("a cached record set is fetched again", format!("{}: {} upstream queries for cached names", what, asked));
            }
            if round == 0 && asked > n + 3 {
                rt::fail("a parent is asked while a delegation lives", format!("{}: {} upstream queries", what, asked));
            }
        }
        // everything expires
        rt::sleep(Duration::new(3600, 0));
        log.borrow_mut().clear();
        let m = lookup(&h, &nm("n0.a.com."), A);
        if m.s[0].len() != 1 || log.borrow().is_empty() {
            rt::fail("expired data served", format!("{}: {} after an hour", what, show(&m)));
        }
        rt::sample(|| what.clone());
    });
    // The whole zone moves; the old server goes on with the old data.
    ck.rt("a delegation changes", opts(), || {
        let deleg = *rt::pick_of(&[0u32, 2, 5]);
        let glue = *rt::pick_of(&[0u32, 2, 5]);
        let own = *rt::pick_of(&[0u32, 2, 5]);
        let build = |ip: &str, data: &str, ns: &str| {
            let mut t = Tree::new();
            t.text(".", 86400, "@ NS a.root-servers.net.");
            t.text("com.", 86400, "@ NS ns.com.\n ns A 10.1.0.1");
            let z = t.text("a.com.", own, &format!("@ NS {}.a.com.\n {} A {}\n www A {}\n w2 A {}", ns, ns, ip, data, data));
            z.deleg_ttl = Some(deleg);
            z.glue_ttl = Some(glue);
            t.link()
        };
        let same_ns = rt::pick_bool();
        let old = build("10.2.0.1", "10.9.0.1", "ns");
        let new = build("10.2.0.2", "10.9.0.2", if same_ns { "ns" } else { "ns2" });
        let when = Rc::new(Cell::new(false));
        let w2 = when.clone();
        let (o2, n2) = (old.clone(), new.clone());
        let log = play(move |x| {
            let t = if !w2.get() || x.ip == [10, 2, 0, 1] { &o2 } else { &n2 };
            x.reply(&datagram(t.respond(x.ip, &x.q), x.id));
        });
        let (_c, r) = rsv(ResolverParams::default(), quiet());
        let h = ResolverHandler(r);
        let mut hist = format!("delegation {} s, addresses {} s, own {} s: ", deleg, glue, own);
        // look at it, at its nameservers and their addresses, in some order
        let n = 1 + rt::pick(2);
        for _ in 0..n {
            let (q, t) = *rt::pick_of(&[("www.a.com.", A), ("a.com.", NS), ("ns.a.com.", A), ("w2.a.com.", TXT)]);
            hist += &format!("{} {}, ", q, type_name(t));
            lookup(&h, &nm(q), t);
            let w = *rt::pick_of(&[0, 1, 3]);
            rt::sleep(Duration::new(w, 0));
            hist += &format!("{} s, ", w);
        }
        when.set(true);
        hist += "the zone moves, ";
        rt::sleep(Duration::new(5, 0));
        // everything learnt has expired
        log.borrow_mut().clear();
        let (q, t) = *rt::pick_of(&[("www.a.com.", A), ("w2.a.com.", A), ("a.com.", NS), ("ns.a.com.", A), ("ns2.a.com.", A)]);
        let m = lookup(&h, &nm(q), t);
        if let Some(x) = log.borrow().iter().find(|x| x.ip == [10, 2, 0, 1]) {
            rt::fail("expired nameservers used", format!("{}: {} was asked of the old server", hist, txt(&x.q.name)));
        }
        if let Err((_, e)) = judge(&new, &nm(q), t, &m) {
            rt::fail("expired data served", format!("{}: {}", hist, e));
        }
        rt::sample(|| hist.clone());
    });
    ck.finish()
}
fn ck_depth(th: bool) -> usize {
    if th {
        6
    } else {
        5
    }
}
