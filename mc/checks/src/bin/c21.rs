//! C21: the cache against a map model: all sequences, all interleavings.
use ariadne_dns::resolver::{Cache, CacheConf};
use checks::{opts, rt, Check};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Duration;
use vstd::sync::Arc;

const SEC: u64 = 1_000_000_000;

/// A value that tells how many of its kind exist.
struct Val(u32, Rc<Cell<i64>>);
impl Val {
    fn new(id: u32, n: &Rc<Cell<i64>>) -> Val {
        n.set(n.get() + 1);
        Val(id, n.clone())
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        Val::new(self.0, &self.1)
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        self.1.set(self.1.get() - 1)
    }
}
unsafe impl Send for Val {}
unsafe impl Sync for Val {}
type C = Cache<String, Val>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Set(usize, u64),
    Get(usize),
    Found(usize),
    Remove(usize),
    Clean,
    Wait(u64),
}
/// What an operation told: the entry before it, if it is said to exist.
type Seen = Option<(u128, u32)>;
type Map = BTreeMap<usize, (u128, u32)>;
const KEYS: [&str; 3] = ["a", "b", "A"];

fn new(n: &Rc<Cell<i64>>) -> (Arc<C>, Rc<Cell<i64>>) {
    (Arc::new(Cache::new(CacheConf { clean_period: Duration::new(2, 0), max_cleaned: 1 })), n.clone())
}

fn perform(c: &C, o: Op, id: u32, live: &Rc<Cell<i64>>) -> Seen {
    let key = |k: usize| KEYS[k].to_string();
    let out = |r: Option<(vstd::time::Instant, Val)>| r.map(|(t, v)| (t.as_virtual_ns(), v.0));
    match o {
        Op::Set(k, ttl) => out(c.set(key(k), Duration::from_nanos(ttl), Val::new(id, live))),
        Op::Get(k) => out(c.get_clone(&key(k))),
        Op::Remove(k) => out(c.remove(&key(k))),
        Op::Found(k) => {
            let mut seen = None;
            let mut runs = 0;
            let r = c.on_found(&key(k), |t, v| {
                runs += 1;
                seen = Some((t.as_virtual_ns(), v.0));
                v.0 = id;
            });
            if runs != r as i32 {
                rt::fail("callback runs", format!("on_found returned {} after running the callback {} times", r, runs));
            }
            seen
        }
        Op::Clean => {
            c.clean();
            None
        }
        Op::Wait(_) => None,
    }
}
/// The same on the model; `t` sets new lifetimes, `at` is when expiry is judged.
fn model(m: &mut Map, o: Op, id: u32, t: u128, at: u128) -> Seen {
    let live = |e: Option<(u128, u32)>| e.filter(|e| e.0 > at);
    match o {
        Op::Set(k, ttl) => live(m.insert(k, (t + ttl as u128, id))),
        Op::Get(k) => live(m.get(&k).copied()),
        Op::Remove(k) => live(m.remove(&k)),
        Op::Found(k) => {
            let r = live(m.get(&k).copied());
            if r.is_some() {
                m.get_mut(&k).unwrap().1 = id;
            }
            r
        }
        Op::Clean | Op::Wait(_) => None,
    }
}

struct Rec {
    op: Op,
    id: u32,
    inv: u64,
    resp: u64,
    t0: u128,
    t1: u128,
    seen: Seen,
}
/// Is there an order of the operations, respecting which ended before which
/// began, in which the model tells the same?
fn linearizable(h: &[Rec], done: u32, m: &Map, memo: &mut std::collections::HashSet<u64>) -> bool {
    if done.count_ones() as usize == h.len() {
        return true;
    }
    if !memo.insert(rt::hash_of(&(done, m))) {
        return false;
    }
    for (i, r) in h.iter().enumerate() {
        if done & (1 << i) != 0 || h.iter().enumerate().any(|(j, s)| done & (1 << j) == 0 && s.resp < r.inv) {
            continue;
        }
        // instants at which it could have happened: all that matter are those
        // of its interval that were read by somebody
        let mut ts = vec![r.t0, r.t1];
        ts.extend(h.iter().flat_map(|s| [s.t0, s.t1]).filter(|t| *t > r.t0 && *t < r.t1));
        ts.sort();
        ts.dedup();
        for t in &ts {
            for at in &ts {
                let mut m2 = m.clone();
                if model(&mut m2, r.op, r.id, *t, *at) == r.seen && linearizable(h, done | 1 << i, &m2, memo) {
                    return true;
                }
            }
        }
    }
    false
}
fn show(h: &[Rec]) -> String {
    h.iter()
        .map(|r| {
            let s = |t: u128| (t - 1_000_000_000_000) as f64 / 1e9;
            format!("{:?} id {} [{}..{}] at {}..{} s -> {:?}", r.op, r.id, r.inv, r.resp, s(r.t0), s(r.t1), r.seen.map(|(e, i)| (s(e), i)))
        })
        .collect::<Vec<_>>()
        .join("; ")
}

fn main() {
    let mut ck = Check::start("C21");
    ck.assume("lifetimes are below 2^32 seconds, as DNS lifetimes are");
    let th = ck.thorough();

    // ---------------------------------------------------------------- sequences
    let depth = ck.by(5, 6);
    let mut ops = vec![];
    for k in 0..2 {
        for ttl in [0, 1, SEC, 2 * SEC, (u32::MAX as u64) * SEC] {
            ops.push(Op::Set(k, ttl));
        }
        ops.extend([Op::Get(k), Op::Found(k), Op::Remove(k)]);
    }
    ops.extend([Op::Clean, Op::Wait(1), Op::Wait(SEC - 1), Op::Wait(SEC)]);
    ck.pure("sequences", opts().cap(ck.by(120.0, 3000.0)), || {
        let live = Rc::new(Cell::new(0));
        let (c, live) = new(&live);
        let mut m = Map::new();
        let mut done = vec![];
        for i in 0..depth {
            let o = *rt::pick_of(&ops);
            done.push(o);
            if let Op::Wait(d) = o {
                rt::advance(Duration::from_nanos(d));
            }
            let now = rt::now() as u128;
            let got = perform(&c, o, i as u32 + 1, &live);
            let want = model(&mut m, o, i as u32 + 1, now, now);
            if got != want {
                rt::fail("sequence", format!("{:?}: the last one told {:?} instead of {:?}", done, got, want));
            }
            if o == Op::Clean {
                let n = m.values().filter(|e| e.0 > now).count() as i64;
                if live.get() != n {
                    rt::fail("cleaning", format!("{:?}: {} entries remain instead of {}", done, live.get(), n));
                }
            }
            rt::state(rt::hash_of(&(&m, now, i)));
        }
        for k in 0..2 {
            let now = rt::now() as u128;
            let got = perform(&c, Op::Get(k), 0, &live);
            let want = model(&mut m, Op::Get(k), 0, now, now);
            if got != want {
                rt::fail("sequence", format!("{:?}: then {} is {:?} instead of {:?}", done, KEYS[k], got, want));
            }
        }
        drop(c);
        if live.get() != 0 {
            rt::fail("values", format!("{:?}: {} values outlive the cache", done, live.get()));
        }
        rt::sample(|| format!("{:?}", done));
    });

    // ---------------------------------------------------------------- many keys
    ck.pure("cleaning among many entries", opts(), || {
        let live = Rc::new(Cell::new(0));
        let (c, live) = new(&live);
        let n = *rt::pick_of(&[0usize, 1, 2, 7, 8, 100, 600, 3000]);
        let step = 1 + rt::pick(3) as u64;
        let at = rt::pick(5) as u64;
        for i in 0..n {
            c.set(format!("k{}", i), Duration::new(i as u64 % 4 * step, 0), Val::new(i as u32, &live));
        }
        rt::advance(Duration::new(at, 0));
        if rt::pick_bool() {
            c.clean();
            let want = (0..n).filter(|i| *i as u64 % 4 * step > at).count() as i64;
            if live.get() != want {
                rt::fail("cleaning", format!("of {} entries, {} remain instead of {}", n, live.get(), want));
            }
        }
        for i in 0..n {
            let want = i as u64 % 4 * step > at;
            let got = c.get_clone(&format!("k{}", i));
            if got.as_ref().map(|g| g.1 .0) != if want { Some(i as u32) } else { None } {
                rt::fail("sequence", format!("of {} entries, number {} is {:?} after {} s", n, i, got.map(|g| g.1 .0), at));
            }
        }
        rt::sample(|| format!("{} entries", n));
    });

    // ---------------------------------------------------------------- interleavings
    let run = |threads: usize, per: usize, alphabet: &[Op], keys_set: &[Op], cleaner: bool| {
        let live = Rc::new(Cell::new(0));
        let (c, live) = new(&live);
        let hist: Rc<RefCell<Vec<Rec>>> = Rc::new(RefCell::new(vec![]));
        let clock = Rc::new(Cell::new(0u64));
        let tick = {
            let clock = clock.clone();
            move || {
                clock.set(clock.get() + 1);
                clock.get()
            }
        };
        let mut id = 100;
        let act = |o: Op, id: u32| {
            let (inv, t0) = (tick(), rt::now() as u128);
            let seen = perform(&c, o, id, &live);
            let (resp, t1) = (tick(), rt::now() as u128);
            if matches!(o, Op::Clean | Op::Wait(_)) {
                return;
            }
            hist.borrow_mut().push(Rec { op: o, id, inv, resp, t0, t1, seen });
        };
        // what is there before
        let first = rt::pick(keys_set.len() + 1);
        if first < keys_set.len() {
            act(keys_set[first], 99);
        }
        if cleaner {
            c.start_clean_routine();
        }
        let mut all = vec![];
        let plans: Vec<Vec<Op>> = (0..threads).map(|_| (0..per).map(|_| *rt::pick_of(alphabet)).collect()).collect();
        for (t, plan) in plans.iter().enumerate() {
            let plan = plan.clone();
            let (c, live, hist, clock) = (c.clone(), live.clone(), hist.clone(), clock.clone());
            let base = id;
            id += 10;
            all.push(rt::spawn("user", move || {
                let _ = t;
                for (i, o) in plan.iter().enumerate() {
                    if let Op::Wait(d) = o {
                        rt::sleep_ns(*d);
                        continue;
                    }
                    clock.set(clock.get() + 1);
                    let (inv, t0) = (clock.get(), rt::now() as u128);
                    let seen = perform(&c, *o, base + i as u32, &live);
                    clock.set(clock.get() + 1);
                    let (resp, t1) = (clock.get(), rt::now() as u128);
                    if !matches!(o, Op::Clean) {
                        hist.borrow_mut().push(Rec { op: *o, id: base + i as u32, inv, resp, t0, t1, seen });
                    }
                }
            }));
        }
        for t in all {
            rt::join(t);
            if let Some(p) = rt::panicked(t) {
                rt::fail("a user panics", format!("{:?}: {}", plans, p));
            }
        }
        for k in 0..2 {
            act(Op::Get(k), 0);
        }
        let h = hist.borrow();
        if !linearizable(&h, 0, &Map::new(), &mut Default::default()) {
            rt::fail("not linearizable", show(&h));
        }
        drop(h);
        c.clean();
        let present = (0..2).filter(|k| c.get_clone(&KEYS[*k].to_string()).is_some()).count() as i64;
        if live.get() != present {
            rt::fail("values", format!("{} values exist, {} entries are present ({:?})", live.get(), present, plans));
        }
        rt::state(rt::hash_of(&hist.borrow().iter().map(|r| (r.op, r.seen)).collect::<Vec<_>>()));
        rt::sample(|| show(&hist.borrow()));
    };
    let all = [
        Op::Set(0, 0),
        Op::Set(0, SEC),
        Op::Set(0, 2 * SEC),
        Op::Get(0),
        Op::Found(0),
        Op::Remove(0),
        Op::Clean,
        Op::Wait(SEC),
    ];
    let small = [Op::Set(0, SEC), Op::Set(1, 2 * SEC), Op::Get(0), Op::Found(0), Op::Remove(0), Op::Clean, Op::Wait(SEC)];
    let before = [Op::Set(0, SEC), Op::Set(0, 3 * SEC)];
    ck.rt("two users, two operations each", opts().sched(ck.by(2, 4)).cap(ck.by(150.0, 1500.0)), || run(2, 2, &all, &before, false));
    ck.rt("two users, time jumps", opts().sched(ck.by(1, 2)).time_dev().cap(ck.by(150.0, 1500.0)), || run(2, 2, &all, &before, false));
    ck.rt("three users, one operation each", opts().sched(ck.by(2, 4)).cap(ck.by(150.0, 1500.0)), || run(3, 1, &all, &before, false));
    ck.rt("two users, three operations each", opts().sched(ck.by(1, 2)).cap(ck.by(150.0, 2500.0)), || run(2, 3, &small, &before, false));
    ck.rt("beside the cleaning thread", opts().sched(ck.by(1, 2)).cap(ck.by(150.0, 1500.0)), || run(2, 2, &all, &before, true));

    // ---------------------------------------------------------------- the cleaning thread
    ck.rt("the cleaning thread", opts().sched(1).cap(60.0), || {
        let live = Rc::new(Cell::new(0));
        let period = 1 + rt::pick(3) as u64;
        let c: Arc<C> = Arc::new(Cache::new(CacheConf { clean_period: Duration::new(period, 0), max_cleaned: 1 }));
        c.start_clean_routine();
        let mut total = 0;
        // entries come at once or late, and again after all earlier ones are gone
        for wave in 0..2 {
            let idle = *rt::pick_of(if wave == 0 { &[0u64, 9 * SEC][..] } else { &[0, 5 * SEC][..] });
            rt::sleep_ns(idle);
            let mut exps = vec![];
            let n = if wave == 0 { 1 + rt::pick(if th { 4 } else { 3 }) } else { rt::pick(2) };
            if n == 0 {
                break;
            }
            total += n;
            let start = rt::now();
            for i in 0..n {
                let ttl = *rt::pick_of(&[SEC / 2, 3 * SEC / 2, 7 * SEC / 2]);
                c.set(format!("k{}", i), Duration::from_nanos(ttl), Val::new(i as u32, &live));
                exps.push(rt::now() + ttl);
            }
            for s in 1..8u64 {
                rt::sleep_ns(SEC - if s == 1 { rt::now() - start } else { 0 });
                rt::settle();
                let now = rt::now();
                // what expired a period ago is gone, what has not expired is there
                let alive = exps.iter().filter(|e| **e > now).count() as i64;
                let may = exps.iter().filter(|e| **e + period * SEC > now).count() as i64;
                if live.get() < alive {
                    rt::fail("cleaning", format!("{} entries exist after {} s, {} have not expired", live.get(), s, alive));
                }
                if live.get() > may {
                    rt::fail("no periodic cleaning", format!("{} entries exist after {} s with a period of {} s, at most {} should", live.get(), s, period, may));
                }
            }
        }
        rt::sample(|| format!("period {} s, {} entries", period, total));
    });

    // ---------------------------------------------------------------- the cleaning thread and a slow user
    ck.rt("the cleaning thread and a slow user", opts().sched(1).cap(60.0), || {
        let live = Rc::new(Cell::new(0));
        let period = 2 + rt::pick(3) as u64;
        let c: Arc<C> = Arc::new(Cache::new(CacheConf { clean_period: Duration::new(period, 0), max_cleaned: 1 }));
        c.start_clean_routine();
        c.set("long".to_string(), Duration::new(1000, 0), Val::new(9, &live));
        let ttl = *rt::pick_of(&[SEC / 2, 3 * SEC / 2, 5 * SEC / 2]);
        c.set("short".to_string(), Duration::from_nanos(ttl), Val::new(0, &live));
        let exp = rt::now() + ttl;
        let from = rt::pick(10) as u64 * SEC / 2;
        let hold = 3 * SEC / 2;
        let c2 = c.clone();
        rt::spawn("slow", move || {
            rt::sleep_ns(from);
            c2.on_found(&"long".to_string(), |_, _| rt::sleep_ns(hold));
        });
        for s in 1..10u64 {
            rt::sleep_ns(SEC);
            rt::settle();
            let late = rt::now() >= exp + period * SEC + hold;
            if live.get() > if late { 1 } else { 2 } || live.get() < if rt::now() < exp { 2 } else { 1 } {
                rt::fail("no periodic cleaning", format!("{} entries exist after {} s with a period of {} s, the cache in use from {} to {} ns", live.get(), s, period, from, from + hold));
            }
        }
        rt::sample(|| format!("period {} s, in use from {} ns", period, from));
    });
    ck.finish()
}
