//! C13: the worker pool under every interleaving within the bounds.
use ariadne_dns::shared::thread_pool::ThreadPool;
use checks::{opts, rt, Check};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::Duration;
use vstd::sync::{Arc, Barrier, Mutex};

/// Shared bookkeeping of a scenario. Virtual threads all run on one real thread.
struct Book {
    runs: RefCell<Vec<u32>>,
    order: RefCell<Vec<usize>>,
    running: Cell<usize>,
    peak: Cell<usize>,
    dropped: Cell<bool>,
}
struct Shared(Rc<Book>);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Clone for Shared {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
impl Shared {
    fn new(n: usize) -> Self {
        Shared(Rc::new(Book { runs: RefCell::new(vec![0; n]), order: RefCell::new(vec![]), running: Cell::new(0), peak: Cell::new(0), dropped: Cell::new(false) }))
    }
    fn begin(&self, i: usize) {
        let b = &self.0;
        if b.dropped.get() {
            rt::fail("job runs after the shutdown returned", format!("job {} starts after the pool was shut down", i));
        }
        b.runs.borrow_mut()[i] += 1;
        b.order.borrow_mut().push(i);
        b.running.set(b.running.get() + 1);
        b.peak.set(b.peak.get().max(b.running.get()));
    }
    fn end(&self) {
        self.0.running.set(self.0.running.get() - 1);
        if self.0.dropped.get() {
            rt::fail("job outlives the shutdown", "a job is still running after the pool was shut down".into());
        }
    }
    fn check(&self, workers: usize, what: &str) {
        let b = &self.0;
        b.dropped.set(true);
        for (i, n) in b.runs.borrow().iter().enumerate() {
            if *n != 1 {
                rt::fail(&format!("job run {} times", n), format!("job {} ran {} times when the shutdown returned ({})", i, n, what));
            }
        }
        if b.running.get() != 0 {
            rt::fail("job outlives the shutdown", format!("{} jobs still running when the shutdown returned ({})", b.running.get(), what));
        }
        let o = b.order.borrow();
        if workers == 1 && o.windows(2).any(|w| w[0] > w[1]) {
            rt::fail("submission order", format!("a single worker started the jobs in the order {:?} ({})", o, what));
        }
        if b.peak.get() > workers {
            rt::fail("more jobs at a time than workers", format!("{} jobs ran at the same time on {} workers ({})", b.peak.get(), workers, what));
        }
        rt::state(rt::hash_of(&(&*o, b.peak.get(), what.to_string())));
        rt::count(&format!("{} workers, order {:?}, {} at a time", workers, o, b.peak.get()));
    }
}
fn no_thread_left(what: &str) {
    let left: Vec<usize> = rt::live_threads().into_iter().filter(|t| *t != rt::cur()).collect();
    if !left.is_empty() {
        rt::fail("worker left behind", format!("threads {:?} still live after the shutdown ({}): {}", left, what, rt::describe_blocked()));
    }
}

const KINDS: [&str; 6] = ["short", "panic", "sleep", "yield", "lock", "panic with a payload"];

/// A job of each kind.
fn job(kind: usize, i: usize, s: Shared, m: Arc<Mutex<u32>>) -> impl FnOnce() + Send + 'static {
    move || {
        let s = s;
        s.begin(i);
        match kind {
            0 => {}
            1 => {
                s.end();
                panic!("job {} fails", i);
            }
            2 => vstd::thread::sleep(Duration::new(1, 0)),
            3 => {
                vstd::thread::yield_now();
                rt::point();
            }
            4 => {
                let mut g = m.lock().unwrap_or_else(|e| e.into_inner());
                rt::point();
                *g += 1;
            }
            _ => {
                s.end();
                std::panic::panic_any(vec![i]);
            }
        }
        s.end();
    }
}

fn main() {
    let mut ck = Check::start("C13");
    let sched = ck.by(2, 3);
    let (mw, mj) = ck.by((3, 3), (3, 4));
    ck.rt("jobs of every kind, then shutdown", opts().sched(sched), || {
        let w = 1 + rt::pick(mw);
        let j = rt::pick(mj + 1);
        let kinds: Vec<usize> = (0..j).map(|_| rt::pick(KINDS.len())).collect();
        let pause = rt::pick_bool();
        let what = format!("{} workers, jobs {:?}", w, kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>());
        let s = Shared::new(j);
        let m = Arc::new(Mutex::new(0));
        let pool = ThreadPool::new(w, "p");
        for (i, k) in kinds.iter().enumerate() {
            pool.execute(job(*k, i, s.clone(), m.clone()));
            if pause && i == 0 {
                rt::settle();
            }
        }
        drop(pool);
        s.check(w, &what);
        no_thread_left(&what);
        rt::sample(|| what.clone());
    });
    let deep = ck.by(3, 5);
    ck.rt("few jobs, more preemptions", opts().sched(deep).cap(ck.by(60.0, 900.0)), || {
        let w = 1 + rt::pick(2);
        let j = 1 + rt::pick(2);
        let kinds: Vec<usize> = (0..j).map(|_| rt::pick(3)).collect();
        let what = format!("{} workers, jobs {:?}", w, kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>());
        let s = Shared::new(j);
        let m = Arc::new(Mutex::new(0));
        let pool = ThreadPool::new(w, "p");
        for (i, k) in kinds.iter().enumerate() {
            pool.execute(job(*k, i, s.clone(), m.clone()));
        }
        drop(pool);
        s.check(w, &what);
        no_thread_left(&what);
    });
    ck.rt("as many at a time as workers", opts().sched(sched), || {
        // failing jobs first: they must cost no worker
        let w = 1 + rt::pick(mw);
        let fails = rt::pick(4);
        let what = format!("{} workers, {} failing jobs, then {} jobs which wait for each other", w, fails, w);
        let s = Shared::new(fails + w);
        let m = Arc::new(Mutex::new(0));
        let pool = ThreadPool::new(w, "p");
        for i in 0..fails {
            pool.execute(job(1 + 4 * rt::pick(2), i, s.clone(), m.clone()));
        }
        if rt::pick_bool() {
            rt::settle();
        }
        let b = Arc::new(Barrier::new(w));
        for i in 0..w {
            let (s, b) = (s.clone(), b.clone());
            pool.execute(move || {
                let s = s;
                s.begin(fails + i);
                b.wait();
                s.end();
            });
        }
        drop(pool);
        s.check(w, &what);
        no_thread_left(&what);
        rt::sample(|| what.clone());
    });
    ck.rt("jobs proceed beside stuck ones", opts().sched(sched), || {
        let w = 2 + rt::pick(2);
        let stuck = 1 + rt::pick(w - 1);
        let n = 3;
        let what = format!("{} workers of which {} are stuck, {} jobs", w, stuck, n);
        let s = Shared::new(stuck + n);
        let m = Arc::new(Mutex::new(0));
        let gate: Rc<Cell<bool>> = Rc::new(Cell::new(false));
        struct G(Rc<Cell<bool>>);
        unsafe impl Send for G {}
        let pool = ThreadPool::new(w, "p");
        for i in 0..stuck {
            let (s, g) = (s.clone(), G(gate.clone()));
            pool.execute(move || {
                let (s, g) = (s, g);
                s.begin(i);
                rt::block_on("gate", &|| g.0.get(), None);
                s.end();
            });
        }
        if rt::pick_bool() {
            rt::settle();
        }
        for i in 0..n {
            pool.execute(job(if i == 0 { rt::pick(2) } else { 0 }, stuck + i, s.clone(), m.clone()));
        }
        rt::settle();
        for i in 0..n {
            if s.0.runs.borrow()[stuck + i] != 1 {
                rt::fail("job waits although a worker is free", format!("job {} has not run ({})", i, what));
            }
        }
        gate.set(true);
        drop(pool);
        s.check(w, &what);
        no_thread_left(&what);
        rt::sample(|| what.clone());
    });
    ck.rt("jobs submitted by several threads and by jobs", opts().sched(sched), || {
        let w = 1 + rt::pick(2);
        let s = Shared::new(4);
        let m = Arc::new(Mutex::new(0));
        let fail = rt::pick(2);
        let pool = Arc::new(ThreadPool::new(w, "p"));
        let mut hs = vec![];
        for t in 0..2 {
            let (p, s, m) = (pool.clone(), s.clone(), m.clone());
            hs.push(vstd::thread::spawn(move || {
                let s = s;
                p.execute(job(fail, t, s.clone(), m.clone()));
                p.execute(job(0, 2 + t, s.clone(), m.clone()));
            }));
        }
        for h in hs {
            h.join().unwrap();
        }
        match Arc::try_unwrap(pool) {
            Ok(p) => drop(p),
            Err(_) => rt::fail("pool still shared", "a submitting thread keeps the pool".into()),
        }
        s.check(usize::MAX, "two submitters");
        let o = s.0.order.borrow().clone();
        let pos = |i: usize| o.iter().position(|x| *x == i).unwrap();
        if w == 1 && (pos(0) > pos(2) || pos(1) > pos(3)) {
            rt::fail("submission order", format!("a single worker started jobs 0 and 2, 1 and 3, each submitted in this order, as {:?}", o));
        }
        no_thread_left("two submitters");
        rt::sample(|| format!("{:?}", o));
    });
    ck.rt("long idle workers, long jobs", opts().sched(1), || {
        let w = 1 + rt::pick(3);
        let rounds = 1 + rt::pick(3);
        let what = format!("{} workers, {} rounds of jobs with long pauses", w, rounds);
        let s = Shared::new(rounds * w + 1);
        let pool = ThreadPool::new(w, "p");
        let mut i = 0;
        for _ in 0..rounds {
            rt::sleep(Duration::new(*rt::pick_of(&[60, 7200, 86400 * 400]), 0));
            // as many as workers, which wait for each other
            let b = Arc::new(Barrier::new(w));
            for _ in 0..w {
                let (s, b, me) = (s.clone(), b.clone(), i);
                pool.execute(move || {
                    let s = s;
                    s.begin(me);
                    b.wait();
                    s.end();
                });
                i += 1;
            }
            rt::settle();
        }
        let last = s.clone();
        pool.execute(move || {
            let s = last;
            s.begin(rounds * w);
            vstd::thread::sleep(Duration::new(100_000, 0));
            s.end();
        });
        drop(pool);
        s.check(w, &what);
        no_thread_left(&what);
        rt::sample(|| what.clone());
    });
    // counters of every width pass their limits
    ck.rt("many jobs", opts().steps(20_000_000), || {
        let w = 1 + rt::pick(3);
        let n = *rt::pick_of(&[300usize, 1500, 70_000]);
        let failing = *rt::pick_of(&[0usize, 1, 2, 7]);
        let at_once = rt::pick_bool();
        let what = format!("{} workers, {} jobs, {}, submitted {}", w, n, if failing > 0 { format!("every {}. fails", failing) } else { "none fails".into() }, if at_once { "at once" } else { "in small groups" });
        let s = Shared::new(n);
        let pool = ThreadPool::new(w, "p");
        for i in 0..n {
            let job = s.clone();
            pool.execute(move || {
                let s = job;
                s.begin(i);
                s.end();
                if failing > 0 && i % failing == 0 {
                    panic!("job {} fails", i);
                }
            });
            if !at_once && i % 5 == 4 {
                rt::settle();
                let done = s.0.order.borrow().len();
                if done != i + 1 {
                    rt::fail("job waits for nothing", format!("{} of {} jobs are done when nothing moves any more ({})", done, i + 1, what));
                }
            }
        }
        drop(pool);
        if let Some(i) = s.0.runs.borrow().iter().position(|r| *r != 1) {
            rt::fail(&format!("job run {} times", s.0.runs.borrow()[i]), format!("job {} ran {} times ({})", i, s.0.runs.borrow()[i], what));
        }
        no_thread_left(&what);
        rt::sample(|| what.clone());
    });
    ck.rt("pools of every size", opts().steps(5_000_000), || {
        let sizes: Vec<usize> = (1..=40).chain([63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500]).collect();
        let w = *rt::pick_of(&sizes);
        let more = *rt::pick_of(&[0usize, 1, 3]);
        let fail_first = rt::pick_bool();
        let what = format!("{} workers, as many jobs which wait for each other{}, {} more of them at the shutdown", w, if fail_first { ", after as many which fail" } else { "" }, more);
        let s = Shared::new(2 * w + more);
        let pool = ThreadPool::new(w, "p");
        for i in 0..w {
            let job = s.clone();
            pool.execute(move || {
                job.begin(i);
                job.end();
                if fail_first {
                    panic!("job {} fails", i);
                }
            });
        }
        let b = Arc::new(Barrier::new(w));
        for i in w..2 * w {
            let (s, b) = (s.clone(), b.clone());
            pool.execute(move || {
                s.begin(i);
                b.wait();
                s.end();
            });
        }
        rt::settle();
        let done = s.0.order.borrow().len();
        if done != 2 * w {
            rt::fail("job waits for nothing", format!("{} of {} jobs are started when nothing moves any more ({})", done, 2 * w, what));
        }
        for i in 2 * w..2 * w + more {
            let s = s.clone();
            pool.execute(move || {
                s.begin(i);
                vstd::thread::sleep(Duration::new(1, 0));
                s.end();
            });
        }
        drop(pool);
        s.check(w, &what);
        no_thread_left(&what);
        rt::sample(|| what.clone());
    });
    ck.rt("shutdown of an idle pool", opts().sched(deep), || {
        let w = 1 + rt::pick(4);
        let pool = ThreadPool::new(w, "p");
        if rt::pick_bool() {
            rt::settle();
        }
        drop(pool);
        no_thread_left("idle pool");
        rt::sample(|| format!("{} workers", w));
    });
    ck.finish()
}
