//! C25: lookups which share a cache at the same time.
use ariadne_dns::resolver::*;
use checks::servers::*;
use checks::upstream::*;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::Duration;
use vstd::net::client;
use vstd::sync::Arc;

type Q2 = (&'static str, u16);

fn small(ttl: u32, deleg: Option<u32>) -> Tree {
    let mut t = Tree::new();
    t.text(".", ttl, "@ NS ns.com.");
    t.text("com.", ttl, "@ NS ns.com.\nns A 10.1.0.1");
    t.text(
        "a.com.",
        ttl,
        "@ NS ns.a.com.
         @ NS ns2.a.com.
         @ MX 5 mail.a.com.
         ns A 10.2.0.1
         ns2 A 10.2.0.2
         www A 10.9.0.1
         www A 10.9.0.2
         www TXT some text
         al CNAME www.a.com.
         far CNAME www.b.com.
         loop CNAME loop2.a.com.
         loop2 CNAME loop.a.com.",
    );
    // its nameserver must be looked up
    t.text("b.com.", ttl, "@ NS ns.c.com.\nwww A 10.9.1.1\nother A 10.9.1.2");
    t.text("c.com.", ttl, "@ NS ns.c.com.\nns A 10.3.0.1\nwww A 10.9.2.1");
    for z in &mut t.zones {
        z.deleg_ttl = deleg;
        z.glue_ttl = deleg;
    }
    t.link()
}
/// Servers which answer after a while, b.com. without addresses in referrals.
fn serve(t: Rc<Tree>, delay: u64) -> Log {
    play(move |x| {
        let mut m = t.respond(x.ip, &x.q);
        if !m.h.aa {
            m.s[2].retain(|r| !name_eq(&r.owner, &nm("ns.c.com.")) || within(&x.q.name, &nm("c.com.")));
        }
        let b = datagram(m, x.id);
        match delay {
            0 => x.reply(&b),
            d => x.reply_later(d, b),
        }
    })
}
fn check(t: &Tree, q: Q2, m: &Msg, when: &str, hist: &str) {
    match judge(t, &nm(q.0), q.1, m) {
        Ok(w) => rt::count(w),
        Err((sig, d)) => rt::fail(&format!("{}: {}", when, sig), format!("{}; {}", d, hist)),
    }
}
/// The lookups `qs` at once, then the lookups `after` one by one.
fn together(t: &Rc<Tree>, h: &Arc<ResolverHandler>, qs: &[Q2], hist: &str) {
    let out: Rc<RefCell<Vec<Option<Msg>>>> = Rc::new(RefCell::new(vec![None; qs.len()]));
    let mut ts = vec![];
    for (i, q) in qs.iter().enumerate() {
        let (h, q, o) = (h.clone(), *q, out.clone());
        ts.push(rt::spawn(&format!("lookup of {}", q.0), move || {
            let m = lookup(&*h, &nm(q.0), q.1);
            o.borrow_mut()[i] = Some(m);
        }));
    }
    for i in &ts {
        rt::join(*i);
    }
    for (i, x) in ts.iter().enumerate() {
        if let Some(p) = rt::panicked(*x) {
            rt::fail("a lookup panics", format!("{} {}: {}; {}", qs[i].0, type_name(qs[i].1), p, hist));
        }
        let m = out.borrow_mut()[i].take();
        match m {
            Some(m) => check(t, qs[i], &m, "at the same time", hist),
            None => rt::fail("a lookup does not return", format!("{}; {}", qs[i].0, hist)),
        }
    }
}
fn params() -> ResolverParams {
    ResolverParams { max_ns_queried: 2, max_upd_retries: 1, max_cname_redir: 5, read_timeout: Duration::from_secs(20), write_timeout: Duration::from_secs(20), no_follow_cname: false }
}
fn resolver() -> (Arc<RecordsCache>, Arc<ResolverHandler>) {
    let cache = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(1), max_cleaned: 500 }));
    let h = Arc::new(ResolverHandler(Resolver::new(&cache, params(), quiet())));
    (cache, h)
}
/// Without exploration of schedules.
fn calm<R>(f: impl FnOnce() -> R) -> R {
    let old = std::mem::replace(&mut rt::k().sched_on, false);
    let r = f();
    rt::k().sched_on = old;
    r
}

const PAIRS: &[[Q2; 2]] = &[
    [("www.a.com.", A), ("www.a.com.", A)],
    [("www.a.com.", A), ("al.a.com.", A)],
    [("al.a.com.", A), ("al.a.com.", A)],
    [("www.b.com.", A), ("ns.c.com.", A)],
    [("far.a.com.", A), ("www.b.com.", A)],
    [("www.b.com.", A), ("other.b.com.", A)],
    [("a.com.", NS), ("www.a.com.", A)],
    [("a.com.", NS), ("ns.a.com.", A)],
    [("nx.a.com.", A), ("www.a.com.", TXT)],
    [("loop.a.com.", A), ("loop2.a.com.", A)],
    [("far.a.com.", A), ("loop.a.com.", A)],
    [("com.", NS), ("www.c.com.", A)],
];
const AFTER: &[Q2] = &[("www.a.com.", A), ("www.b.com.", A), ("al.a.com.", A), ("ns.c.com.", A), ("a.com.", NS), ("nx.a.com.", A)];

fn main() {
    let mut ck = Check::start("C25");
    let th = ck.thorough();
    ck.assume("the data of the servers does not change except where stated, so that every order of the lookups has the same results");
    let pair = move |pre: usize, delays: &[u64], ttl: u32, pairs: usize, cleaner: bool| {
        let mut t = small(ttl, None);
        // the nameservers beside the answers, where servers are slow
        t.hints = delays.len() > 1;
        let t = Rc::new(t);
        let qs = PAIRS[rt::pick(pairs)];
        let delay = *rt::pick_of(delays);
        let pre = rt::pick(pre);
        let _log = serve(t.clone(), delay);
        let (cache, h) = resolver();
        if cleaner {
            cache.start_clean_routine();
        }
        let mut hist = format!("{:?}, replies after {} ns", qs, delay);
        calm(|| match pre {
            0 => hist += ", nothing cached",
            // the way to the data
            1 => {
                lookup(&*h, &nm("nx.a.com."), A);
                lookup(&*h, &nm("nx.b.com."), A);
                hist += ", delegations cached";
            }
            // everything, about to expire
            k => {
                let t0 = rt::now();
                for q in qs {
                    lookup(&*h, &nm(q.0), q.1);
                }
                let used = rt::now() - t0;
                let w = ttl as u64 * 1_000_000_000 - if k == 2 { 1 } else { 0 };
                if w > used {
                    rt::sleep_ns(w - used);
                }
                hist += &format!(", looked up before, {} ns ago", w);
            }
        });
        together(&t, &h, &qs, &hist);
        calm(|| {
            for q in AFTER {
                check(&t, *q, &lookup(&*h, &nm(q.0), q.1), "afterwards", &hist);
            }
            rt::sleep(Duration::from_secs(ttl.min(10_000) as u64 + 1));
            for q in &AFTER[..3] {
                check(&t, *q, &lookup(&*h, &nm(q.0), q.1), "when everything has expired", &hist);
            }
        });
        rt::sample(|| hist.clone());
    };
    ck.rt("two lookups", opts().sched(ck.by(2, 4)).cap(ck.by(200.0, 2500.0)), move || pair(4, &[0], 5, PAIRS.len(), false));
    ck.rt("two lookups, slow servers", opts().sched(ck.by(2, 3)).cap(ck.by(100.0, 2500.0)), move || pair(3, &[1, 1_500_000_000], 5, PAIRS.len(), false));
    // lifetimes run out, and time passes, anywhere within a lookup
    ck.rt("two lookups, time jumps", opts().sched(ck.by(2, 3)).time_dev().cap(ck.by(150.0, 2500.0)), move || pair(2, &[1_500_000_000], 2, PAIRS.len(), false));
    ck.rt("two lookups of one name, time jumps", opts().sched(ck.by(2, 3)).time_dev().cap(ck.by(200.0, 2500.0)), move || pair(2, &[1_500_000_000], *rt::pick_of(&[1, 2, 5, u32::MAX]), if th { 3 } else { 1 }, false));
    ck.rt("beside the cleaning thread", opts().sched(ck.by(2, 3)).time_dev().cap(ck.by(150.0, 2000.0)), move || pair(2, &[700_000_000], 2, if th { PAIRS.len() } else { 6 }, true));

    ck.rt("three lookups", opts().sched(ck.by(1, 2)).cap(ck.by(150.0, 2500.0)), move || {
        let t = Rc::new(small(5, None));
        let names: &[Q2] = &[("www.a.com.", A), ("far.a.com.", A), ("www.b.com.", A), ("a.com.", NS), ("ns.c.com.", A)];
        let i = rt::pick(names.len());
        let j = i + rt::pick(names.len() - i);
        let k = j + rt::pick(names.len() - j);
        let qs = [names[i], names[j], names[k]];
        let delay = *rt::pick_of(&[0, 1]);
        let _log = serve(t.clone(), delay);
        let (_cache, h) = resolver();
        let hist = format!("{:?}, replies after {} ns", qs, delay);
        together(&t, &h, &qs, &hist);
        calm(|| {
            for q in AFTER {
                check(&t, *q, &lookup(&*h, &nm(q.0), q.1), "afterwards", &hist);
            }
        });
        rt::sample(|| hist.clone());
    });

    // as many as a busy server has
    ck.rt("many lookups", opts().steps(5_000_000).cap(ck.by(100.0, 600.0)), move || {
        let t = Rc::new(small(300, None));
        let n = *rt::pick_of(&[4usize, 8, 9, 16, 17, 33, 65, 130, 300]);
        let names: &[Q2] = &[("www.a.com.", A), ("far.a.com.", A), ("www.b.com.", A), ("a.com.", NS), ("ns.c.com.", A), ("nx.a.com.", A), ("al.a.com.", A)];
        let set = rt::pick(names.len() + 1);
        let qs: Vec<Q2> = (0..n).map(|i| if set == names.len() { names[i % names.len()] } else { names[set] }).collect();
        let delay = *rt::pick_of(&[0, 1, 700_000_000]);
        let cleaner = rt::pick_bool();
        let _log = serve(t.clone(), delay);
        let (cache, h) = resolver();
        if cleaner {
            cache.start_clean_routine();
        }
        let hist = format!("{} lookups of {:?}, replies after {} ns", n, if set == names.len() { names } else { &names[set..set + 1] }, delay);
        together(&t, &h, &qs, &hist);
        for q in AFTER {
            check(&t, *q, &lookup(&*h, &nm(q.0), q.1), "afterwards", &hist);
        }
        rt::sample(|| hist.clone());
        rt::finish(rt::End::Done)
    });

    // the data changes while they run: each sees one version, later ones the new
    ck.rt("changing data", opts().sched(ck.by(2, 3)).time_dev().cap(ck.by(150.0, 2000.0)), move || {
        let old = Rc::new(small(2, Some(50)));
        let mut new = (*old).clone();
        for z in &mut new.zones {
            for r in &mut z.recs {
                if let RData::A(ip) = &mut r.data {
                    if ip[1] == 9 {
                        ip[1] = 8;
                    }
                }
            }
        }
        let new = Rc::new(new);
        let qs = *rt::pick_of(&[PAIRS[0], PAIRS[1], PAIRS[2]]);
        let flip = Rc::new(Cell::new(1 + rt::pick(4)));
        let (o, n, f) = (old.clone(), new.clone(), flip.clone());
        let _log = play(move |x| {
            let t = if f.get() == 0 { &n } else { &o };
            if f.get() > 0 && within(&x.q.name, &nm("a.com.")) && t.auth(&nm("a.com.")).unwrap().ips.contains(&x.ip) {
                f.set(f.get() - 1);
            }
            x.reply_later(600_000_000, datagram(t.respond(x.ip, &x.q), x.id));
        });
        let (_cache, h) = resolver();
        let hist = format!("{:?}, changed after {} answers", qs, flip.get());
        let out: Rc<RefCell<Vec<Msg>>> = Default::default();
        let mut ts = vec![];
        for q in qs {
            let (h, o) = (h.clone(), out.clone());
            ts.push(rt::spawn("lookup", move || {
                let m = lookup(&*h, &nm(q.0), q.1);
                let m2 = lookup(&*h, &nm(q.0), q.1);
                o.borrow_mut().extend([m, m2]);
            }));
        }
        for x in &ts {
            rt::join(*x);
            if let Some(p) = rt::panicked(*x) {
                rt::fail("a lookup panics", format!("{}; {}", p, hist));
            }
        }
        for m in out.borrow().iter() {
            let mut ips: Vec<_> = m.an().iter().filter_map(|r| if let RData::A(x) = r.data { Some(x) } else { None }).collect();
            ips.sort();
            if ips != [[10, 9, 0, 1], [10, 9, 0, 2]] && ips != [[10, 8, 0, 1], [10, 8, 0, 2]] {
                rt::fail("at the same time: wrong answer", format!("{}; {}", show(m), hist));
            }
            if m.an().iter().any(|r| r.ttl > 2) {
                rt::fail("at the same time: lifetime grows", format!("{}; {}", show(m), hist));
            }
        }
        flip.set(0);
        calm(|| {
            rt::sleep(Duration::from_secs(2));
            for q in qs {
                check(&new, q, &lookup(&*h, &nm(q.0), q.1), "when the old data has expired", &hist);
            }
        });
        rt::sample(|| hist.clone());
    });

    // two clients of the whole server
    ck.rt("two clients", opts().sched(ck.by(2, 3)).cap(ck.by(150.0, 2000.0)), move || {
        let t = Rc::new(small(5, None));
        let qs = PAIRS[rt::pick(if th { PAIRS.len() } else { 5 })];
        let tcp = rt::pick_bool();
        let _log = serve(t.clone(), 1);
        let n = Net { udp_threads: 2, tcp_threads: 1, ..Default::default() };
        let (_cache, rs) = rsv(params(), quiet());
        calm(|| {
            run(ResolverHandler(rs), &n);
            ready();
        });
        udp_send(&n, cl(0), &query(11, qs[0].0, qs[0].1));
        let c = if tcp {
            let c = tcp_open(&n, cl(1));
            client::send(c, &framed(&query(22, qs[1].0, qs[1].1)));
            Some(c)
        } else {
            udp_send(&n, cl(1), &query(22, qs[1].0, qs[1].1));
            None
        };
        rt::sleep(Duration::from_secs(1));
        let hist = format!("{:?} {}", qs, if tcp { "second over TCP" } else { "both over UDP" });
        let replies = [udp_replies(cl(0)), match c {
            Some(c) => unframe(&client::recv(c)).unwrap_or_default(),
            None => udp_replies(cl(1)),
        }];
        for i in 0..2 {
            if replies[i].len() != 1 {
                rt::fail("number of replies", format!("{} for client {}; {}", replies[i].len(), i, hist));
            }
            match decode_strict(&replies[i][0]) {
                Ok(m) if m.h.id == [11, 22][i] => check(&t, qs[i], &m, "at the same time", &hist),
                x => rt::fail("wrong reply", format!("{:?}; {}", x.map(|m| show(&m)), hist)),
            }
        }
        rt::sample(|| hist.clone());
        rt::finish(rt::End::Done)
    });
    ck.finish()
}
