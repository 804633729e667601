//! The kernel: virtual threads (coroutines), virtual time, choices.
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Duration;

type Co = Coroutine<(), (), (), DefaultStack>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Cat {
    Free = 0,
    Sched = 1,
    Fault = 2,
    Env = 3,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ch {
    pub c: u32,
    pub n: u32,
    pub cat: u8,
}

#[derive(Clone, Copy)]
enum St {
    Ready,
    Blocked {
        pred: *const (dyn Fn() -> bool),
        deadline: Option<u64>,
        idle: bool,
    },
    Done,
}

pub struct Th {
    pub name: Option<String>,
    pub what: &'static str,
    co: Option<Co>,
    yielder: *const Yielder<(), ()>,
    st: St,
    pub panicked: Option<String>,
    pub token: bool,
    pub tls: HashMap<usize, Box<dyn Any>>,
    streak: u32,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    /// The scenario waits for something that can never happen.
    Deadlock(String),
    /// The bound on scheduling steps was reached.
    Horizon,
    /// `process::exit` was called.
    Exit(i32),
    Violation,
    /// The scenario does not apply (pruned branch).
    Pruned,
    Diverged(String),
}

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub tid: usize,
    pub msg: String,
    pub loc: String,
}

pub struct Event {
    f: Box<dyn FnOnce()>,
}

pub struct K {
    pub rt: bool,
    pub threads: Vec<Th>,
    pub cur: usize,
    next: Option<usize>,
    pub now: u64,
    pub prefix: Vec<Ch>,
    pub trace: Vec<Ch>,
    pub used: [u32; 4],
    pub bound: [u32; 4],
    pub steps: u64,
    pub max_steps: u64,
    pub time_dev: bool,
    pub sched_on: bool,
    events: BTreeMap<(u64, u64), Event>,
    ev_seq: u64,
    pub end: Option<End>,
    pub on_exit: Option<Rc<dyn Fn(i32)>>,
    /// Whether the thread about to be created by the program cannot be.
    pub spawn_fault: Option<Rc<dyn Fn() -> bool>>,
    pub violation: Option<(String, String)>,
    pub panics: Vec<PanicRec>,
    pub verbose: bool,
    pub log: Vec<String>,
    pub capture_logs: bool,
    pub logs: Vec<(log::Level, String)>,
    rng: u64,
    pub rng_queue: VecDeque<u64>,
    pub rng_const: Option<u64>,
    pub hash_seed: u64,
    pub net: crate::net::Net,
    pub fs: crate::fs::Fs,
    pub args: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub samples: Vec<String>,
    pub digest: u64,
    pub main_what: String,
    pub unwinding: u32,
}

static mut KP: *mut K = std::ptr::null_mut();
static mut STACKS: Vec<DefaultStack> = Vec::new();
const STACK_SIZE: usize = 32 << 20;

// ---------------------------------------------------------------- statics

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
/// What synchronised statics held when the execution began.
static mut STATICS: Vec<(usize, Vec<u8>)> = Vec::new();

/// A lock, an atomic and the like is used: if it is a static, it gets back its
/// initial state before the next execution, as in a new process.
#[inline]
pub fn touch<T: ?Sized>(p: *const T) {
    let a = p as *const u8 as usize;
    unsafe {
        if a < &raw const __data_start as usize || a >= &raw const _end as usize {
            return;
        }
        let st = &mut *(&raw mut STATICS);
        if st.iter().any(|x| x.0 == a) {
            return;
        }
        let n = std::mem::size_of_val(&*p);
        st.push((a, std::slice::from_raw_parts(a as *const u8, n).to_vec()));
    }
}

fn restore_statics() {
    unsafe {
        for (a, b) in (&mut *(&raw mut STATICS)).drain(..).rev() {
            std::ptr::copy_nonoverlapping(b.as_ptr(), a as *mut u8, b.len());
        }
    }
}

pub fn k() -> &'static mut K {
    unsafe {
        if KP.is_null() {
            KP = Box::into_raw(Box::new(new_k()));
        }
        &mut *KP
    }
}

fn new_k() -> K {
    // Log lines are always written out: a log line which fails, or which does
    // something, must not go unnoticed. A scenario may set another level.
    log::set_max_level(log::LevelFilter::Trace);
    K {
        rt: false,
        threads: Vec::new(),
        cur: 0,
        next: None,
        now: 1_000_000_000_000,
        prefix: Vec::new(),
        trace: Vec::new(),
        used: [0; 4],
        bound: [0; 4],
        steps: 0,
        max_steps: 50_000,
        time_dev: false,
        sched_on: true,
        events: BTreeMap::new(),
        ev_seq: 0,
        end: None,
        on_exit: None,
        spawn_fault: None,
        violation: None,
        panics: Vec::new(),
        verbose: false,
        log: Vec::new(),
        capture_logs: false,
        logs: Vec::new(),
        rng: 0x1234_5678_9abc_def1,
        rng_queue: VecDeque::new(),
        rng_const: None,
        hash_seed: 0,
        net: Default::default(),
        fs: Default::default(),
        args: Vec::new(),
        counters: BTreeMap::new(),
        states: Vec::new(),
        samples: Vec::new(),
        digest: 0xcbf29ce484222325,
        main_what: String::new(),
        unwinding: 0,
    }
}

/// Thrown to leave the scenario from outside a virtual thread.
pub struct Control;

// ---------------------------------------------------------------- choices

pub fn choose(n: usize, cat: Cat) -> usize {
    let k = k();
    if n <= 1 {
        return 0;
    }
    let ci = cat as usize;
    if cat != Cat::Free && k.used[ci] >= k.bound[ci] {
        return 0;
    }
    let pos = k.trace.len();
    let c = if pos < k.prefix.len() {
        let p = k.prefix[pos];
        if p.n != n as u32 || p.cat != cat as u8 {
            let m = format!("at choice {}: recorded {} alternatives (cat {}), now {} (cat {})", pos, p.n, p.cat, n, cat as u8);
            finish(End::Diverged(m));
        }
        p.c as usize
    } else {
        0
    };
    if c != 0 && cat != Cat::Free {
        k.used[ci] += 1;
    }
    k.trace.push(Ch { c: c as u32, n: n as u32, cat: cat as u8 });
    c
}

/// Every alternative is explored.
pub fn pick(n: usize) -> usize {
    choose(n, Cat::Free)
}
pub fn pick_of<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[pick(xs.len())]
}
pub fn pick_bool() -> bool {
    pick(2) == 1
}
/// Alternative 0 is the default; at most `bound[Env]` others per execution.
pub fn deviate(n: usize) -> usize {
    choose(n, Cat::Env)
}
pub fn deviate_of<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[deviate(xs.len())]
}
pub fn fault(n: usize) -> usize {
    choose(n, Cat::Fault)
}

// ---------------------------------------------------------------- reports

/// Report a violation and end this execution.
pub fn fail(sig: &str, msg: String) -> ! {
    let k = k();
    if k.violation.is_none() {
        k.violation = Some((sig.to_string(), msg));
    }
    finish(End::Violation)
}

pub fn prune() -> ! {
    finish(End::Pruned)
}

/// End this execution now.
pub fn finish(e: End) -> ! {
    let k = k();
    if k.end.is_none() {
        k.end = Some(e);
    }
    if k.rt {
        loop {
            suspend();
        }
    }
    std::panic::panic_any(Control)
}

pub fn log_line(f: impl FnOnce() -> String) {
    let k = k();
    if k.verbose {
        let t = (k.now - 1_000_000_000_000) as f64 / 1e9;
        let cur = k.cur;
        let s = format!("[t={:.3}s thread {}] {}", t, cur, f());
        k.log.push(s);
    }
}

pub fn count(key: &str) {
    *k().counters.entry(key.to_string()).or_insert(0) += 1;
}
pub fn sample(f: impl FnOnce() -> String) {
    let k = k();
    if k.samples.is_empty() {
        k.samples.push(f());
    }
}
/// Register the fingerprint of an abstract state that was visited.
pub fn state(h: u64) {
    k().states.push(h);
}
pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- random

pub fn next_random() -> u64 {
    let k = k();
    if let Some(v) = k.rng_queue.pop_front() {
        return v;
    }
    if let Some(v) = k.rng_const {
        return v;
    }
    k.rng = k.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = k.rng;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

// ---------------------------------------------------------------- threads

fn suspend() {
    let k = k();
    let y = k.threads[k.cur].yielder;
    let was = std::thread::panicking();
    if was {
        k.unwinding += 1;
    }
    unsafe { (*y).suspend(()) };
    if was {
        crate::rt::k().unwinding -= 1;
    }
}

fn get_stack() -> DefaultStack {
    unsafe {
        let p = &mut *std::ptr::addr_of_mut!(STACKS);
        match p.pop() {
            Some(s) => s,
            None => DefaultStack::new(STACK_SIZE).expect("stack"),
        }
    }
}
fn put_stack(s: DefaultStack) {
    unsafe {
        let p = &mut *std::ptr::addr_of_mut!(STACKS);
        p.push(s);
    }
}

pub fn spawn_raw(name: Option<String>, f: Box<dyn FnOnce()>) -> usize {
    let k = k();
    let tid = k.threads.len();
    k.threads.push(Th {
        name,
        what: "",
        co: None,
        yielder: std::ptr::null(),
        st: St::Ready,
        panicked: None,
        token: false,
        tls: HashMap::new(),
        streak: 0,
    });
    let co: Co = unsafe {
        Coroutine::with_stack_unchecked(get_stack(), move |y: &Yielder<(), ()>, ()| {
            crate::rt::k().threads[tid].yielder = y as *const _;
            let r = catch_unwind(AssertUnwindSafe(f));
            let k = crate::rt::k();
            if r.is_err() {
                let m = k
                    .panics
                    .iter()
                    .rev()
                    .find(|p| p.tid == tid)
                    .map(|p| format!("{} ({})", p.msg, p.loc))
                    .unwrap_or_default();
                k.threads[tid].panicked = Some(m);
            }
            drop(r);
            let tls = std::mem::take(&mut crate::rt::k().threads[tid].tls);
            drop(tls);
            crate::rt::k().threads[tid].st = St::Done;
        })
    };
    crate::rt::k().threads[tid].co = Some(co);
    tid
}

/// Spawn a virtual thread for the scenario itself.
pub fn spawn(name: &str, f: impl FnOnce() + 'static) -> usize {
    spawn_raw(Some(name.to_string()), Box::new(f))
}

pub fn is_done(tid: usize) -> bool {
    matches!(k().threads[tid].st, St::Done)
}
pub fn panicked(tid: usize) -> Option<String> {
    k().threads[tid].panicked.clone()
}
pub fn cur() -> usize {
    k().cur
}
pub fn thread_count() -> usize {
    k().threads.len()
}
pub fn live_threads() -> Vec<usize> {
    (0..k().threads.len()).filter(|t| !is_done(*t)).collect()
}
pub fn in_rt() -> bool {
    k().rt
}
pub fn now() -> u64 {
    k().now
}
pub fn join(tid: usize) {
    block_on("join", &|| is_done(tid), None);
}
pub fn sleep(d: Duration) {
    sleep_ns(d.as_nanos().min(u64::MAX as u128 / 4) as u64)
}
pub fn sleep_ns(d: u64) {
    let dl = k().now.saturating_add(d);
    if !in_rt() {
        k().now = dl;
        return;
    }
    block_on("sleep", &|| false, Some(dl));
}
/// Wait until nothing else can run at the present virtual instant.
pub fn settle() {
    if in_rt() {
        block("settle", &|| true, None, true);
    }
}
/// Advance the virtual clock without running anything (pure scenarios).
pub fn advance(d: Duration) {
    k().now += d.as_nanos() as u64;
}

/// Run `f` in the driver when the clock reaches `at`.
pub fn at(at: u64, f: impl FnOnce() + 'static) {
    let k = k();
    k.ev_seq += 1;
    let key = (at.max(k.now), k.ev_seq);
    k.events.insert(key, Event { f: Box::new(f) });
}

fn runnable(tid: usize) -> bool {
    let k = k();
    let now = k.now;
    match k.threads[tid].st {
        St::Ready => true,
        St::Done => false,
        St::Blocked { idle: true, .. } => false,
        St::Blocked { pred, deadline, .. } => deadline.map_or(false, |d| d <= now) || unsafe { (*pred)() },
    }
}

fn fire_due() {
    loop {
        let k = k();
        match k.events.keys().next().copied() {
            Some(key) if key.0 <= k.now => {
                let e = k.events.remove(&key).unwrap();
                (e.f)();
            }
            _ => return,
        }
    }
}

fn next_time() -> Option<u64> {
    let k = k();
    let mut t = k.events.keys().next().map(|x| x.0);
    for th in &k.threads {
        if let St::Blocked { deadline: Some(d), .. } = th.st {
            t = Some(t.map_or(d, |x: u64| x.min(d)));
        }
    }
    t
}

fn others(cur: usize) -> Vec<usize> {
    let n = k().threads.len();
    let mut v = Vec::new();
    for i in 1..n {
        let t = (cur + i) % n;
        if runnable(t) {
            v.push(t);
        }
    }
    v
}

fn tick() {
    let k = k();
    k.steps += 1;
    if k.steps > k.max_steps {
        finish(End::Horizon);
    }
}

/// A scheduling point: any other runnable thread may run first.
pub fn point() {
    let kk = k();
    if !kk.rt || std::thread::panicking() {
        return;
    }
    if kk.end.is_some() {
        finish(End::Done);
    }
    tick();
    fire_due();
    let cur = kk.cur;
    let mut r = others(cur);
    if r.is_empty() && !kk.time_dev {
        return;
    }
    kk.threads[cur].streak += 1;
    if kk.threads[cur].streak > 300 && !r.is_empty() {
        // fairness: a thread that never blocks does not starve the others
        kk.threads[cur].streak = 0;
        kk.next = Some(r[0]);
        suspend();
        return;
    }
    if !kk.sched_on {
        return;
    }
    let time_alt = kk.time_dev && next_time().is_some();
    let n = 1 + r.len() + time_alt as usize;
    let c = choose(n, Cat::Sched);
    if c == 0 {
        return;
    }
    if time_alt && c == n - 1 {
        advance_time();
        return;
    }
    let t = r.swap_remove(c - 1);
    log_line(|| format!("preempted in favour of thread {}", t));
    kk.next = Some(t);
    suspend();
}

/// Let every other runnable thread go first (fair spinning).
pub fn yield_now() {
    let kk = k();
    if !kk.rt {
        return;
    }
    tick();
    fire_due();
    let r = others(kk.cur);
    if r.is_empty() {
        // spinning with nothing else to do: let time pass
        if let Some(t) = next_time() {
            kk.now = kk.now.max(t);
            fire_due();
        }
        return;
    }
    let c = if kk.sched_on { choose(r.len(), Cat::Sched) } else { 0 };
    kk.next = Some(r[c]);
    suspend();
}

/// Block until `pred` holds or the deadline passes; true if `pred` holds.
pub fn block_on(what: &'static str, pred: &dyn Fn() -> bool, deadline: Option<u64>) -> bool {
    block(what, pred, deadline, false)
}

fn block(what: &'static str, pred: &dyn Fn() -> bool, deadline: Option<u64>, idle: bool) -> bool {
    let kk = k();
    if !kk.rt {
        if pred() {
            return true;
        }
        if let Some(d) = deadline {
            kk.now = kk.now.max(d);
            return pred();
        }
        fail("deadlock", format!("blocked forever in {}", what));
    }
    let mut first = true;
    loop {
        let kk = k();
        if !(idle && first) {
            if pred() {
                return true;
            }
            if deadline.map_or(false, |d| d <= kk.now) {
                return false;
            }
        }
        first = false;
        let cur = kk.cur;
        let p: *const (dyn Fn() -> bool) = unsafe { std::mem::transmute(pred as *const (dyn Fn() -> bool + '_)) };
        kk.threads[cur].st = St::Blocked { pred: p, deadline, idle };
        kk.threads[cur].what = what;
        kk.threads[cur].streak = 0;
        kk.next = None;
        suspend();
        k().threads[cur].st = St::Ready;
        if idle {
            return true;
        }
    }
}

fn advance_time() -> bool {
    match next_time() {
        Some(t) => {
            let k = k();
            k.now = k.now.max(t);
            fire_due();
            true
        }
        None => false,
    }
}

pub fn describe_blocked() -> String {
    let mut s = String::new();
    for (i, t) in k().threads.iter().enumerate() {
        if let St::Blocked { deadline, .. } = t.st {
            s += &format!(
                "thread {} ({}) waits in {}{}; ",
                i,
                t.name.as_deref().unwrap_or("-"),
                t.what,
                if deadline.is_some() { " with deadline" } else { "" }
            );
        }
    }
    s
}
/// What a thread is blocked in, if it is blocked.
pub fn blocked_in(tid: usize) -> Option<&'static str> {
    match k().threads[tid].st {
        St::Blocked { .. } => Some(k().threads[tid].what),
        _ => None,
    }
}

fn schedule() -> Option<usize> {
    loop {
        fire_due();
        let kk = k();
        let n = kk.threads.len();
        let mut r = Vec::new();
        for i in 0..n {
            let t = (kk.cur + i) % n;
            if runnable(t) {
                r.push(t);
            }
        }
        if !r.is_empty() {
            tick_driver();
            if kk.end.is_some() {
                return None;
            }
            if !kk.sched_on {
                return Some(r[0]);
            }
            let time_alt = kk.time_dev && next_time().is_some();
            let n = r.len() + time_alt as usize;
            let c = driver_choose(n);
            if kk.end.is_some() {
                return None;
            }
            if time_alt && c == n - 1 && n > 1 {
                advance_time();
                continue;
            }
            return Some(r[c]);
        }
        for t in 0..n {
            if let St::Blocked { idle: true, .. } = kk.threads[t].st {
                return Some(t);
            }
        }
        if !advance_time() {
            kk.end = Some(End::Deadlock(describe_blocked()));
            return None;
        }
    }
}

fn tick_driver() {
    let k = k();
    k.steps += 1;
    if k.steps > k.max_steps && k.end.is_none() {
        k.end = Some(End::Horizon);
    }
}

// `choose` for the driver, which runs on no virtual thread.
fn driver_choose(n: usize) -> usize {
    let k = k();
    if n <= 1 || k.used[1] >= k.bound[1] {
        return 0;
    }
    let pos = k.trace.len();
    let c = if pos < k.prefix.len() {
        let p = k.prefix[pos];
        if p.n != n as u32 || p.cat != 1 {
            k.end = Some(End::Diverged(format!("at choice {}: recorded {} alternatives (cat {}), now {} (sched)", pos, p.n, p.cat, n)));
            return 0;
        }
        p.c as usize
    } else {
        0
    };
    if c != 0 {
        k.used[1] += 1;
    }
    k.trace.push(Ch { c: c as u32, n: n as u32, cat: 1 });
    c
}

fn drive() {
    loop {
        if k().end.is_some() {
            return;
        }
        if is_done(0) {
            k().end = Some(End::Done);
            return;
        }
        let t = match k().next.take() {
            Some(t) => t,
            None => match schedule() {
                Some(t) => t,
                None => return,
            },
        };
        let kk = k();
        kk.cur = t;
        let mut co = kk.threads[t].co.take().expect("coroutine");
        let r = co.resume(());
        let kk = k();
        match r {
            CoroutineResult::Yield(()) => {
                kk.threads[t].co = Some(co);
            }
            CoroutineResult::Return(()) => {
                put_stack(co.into_stack());
                kk.next = None;
            }
        }
    }
}

// ---------------------------------------------------------------- one execution

pub struct Setup {
    pub rt: bool,
    pub bound: [u32; 4],
    pub max_steps: u64,
    pub time_dev: bool,
}

/// Run one execution following `prefix`, then default choices. The kernel
/// afterwards holds the trace, the end and the violation.
pub fn execute(prefix: &[Ch], s: &Setup, verbose: bool, f: &dyn Fn()) {
    unsafe {
        if !KP.is_null() {
            let old = Box::from_raw(KP);
            KP = std::ptr::null_mut();
            drop_k(*old);
        }
    }
    restore_statics();
    let kk = k();
    kk.rt = s.rt;
    kk.bound = s.bound;
    kk.max_steps = s.max_steps;
    kk.time_dev = s.time_dev;
    kk.prefix = prefix.to_vec();
    kk.verbose = verbose;
    if s.rt {
        let fp: &'static dyn Fn() = unsafe { std::mem::transmute(f) };
        spawn_raw(Some("scenario".into()), Box::new(move || fp()));
        drive();
        let kk = k();
        if let Some(m) = kk.threads[0].panicked.clone() {
            if kk.violation.is_none() {
                kk.violation = Some((format!("panic: {}", strip_line(&m)), format!("panic in the scenario: {}{}", m, crate::mc::current_note())));
                kk.end = Some(End::Violation);
            }
        }
        match kk.end.clone() {
            Some(End::Deadlock(m)) => {
                if kk.violation.is_none() {
                    kk.violation = Some(("deadlock".into(), format!("deadlock: {}", m)));
                }
            }
            Some(End::Horizon) => {
                if kk.violation.is_none() {
                    kk.violation = Some(("horizon".into(), format!("no end after {} steps (livelock or unbounded work); {}", kk.steps, describe_blocked())));
                }
            }
            _ => {}
        }
        kk.rt = false;
    } else {
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        let kk = k();
        match r {
            Ok(()) => {
                if kk.end.is_none() {
                    kk.end = Some(End::Done)
                }
            }
            Err(p) => {
                if kk.end.is_none() {
                    let m = kk.panics.last().map(|p| format!("{} ({})", p.msg, p.loc)).unwrap_or_default();
                    kk.violation = Some((format!("panic: {}", strip_line(&m)), format!("panic: {}{}", m, crate::mc::current_note())));
                    kk.end = Some(End::Violation);
                }
                drop(p);
            }
        }
    }
}

/// "msg (file:line:col)" without line and column.
fn strip_line(m: &str) -> String {
    match m.rfind(".rs:") {
        Some(i) => m[..i + 3].to_string() + ")",
        None => m.to_string(),
    }
}

fn drop_k(mut old: K) {
    // Unfinished threads are abandoned: their stacks are reused, what they own leaks.
    for t in old.threads.iter_mut() {
        if let Some(mut co) = t.co.take() {
            if !co.done() {
                unsafe { co.force_reset() };
            }
            put_stack(co.into_stack());
        }
        std::mem::forget(std::mem::take(&mut t.tls));
    }
    // sockets and closures may refer to abandoned stacks
    std::mem::forget(std::mem::take(&mut old.net));
    std::mem::forget(std::mem::take(&mut old.events));
    std::mem::forget(old.on_exit.take());
    std::mem::forget(old.spawn_fault.take());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Control>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let k = k();
        let tid = k.cur;
        log_line(|| format!("panic: {} ({})", msg, loc));
        if k.panics.len() < 10_000 {
            k.panics.push(PanicRec { tid, msg, loc });
        }
    }));
}

struct SinkLogger;
impl log::Log for SinkLogger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if !r.target().starts_with("ariadne") && !r.target().starts_with("bin_") {
            return;
        }
        let s = format!("{}", r.args());
        let k = k();
        if k.verbose {
            log_line(|| format!("log {}: {}", r.level(), s));
        }
        if k.capture_logs {
            k.logs.push((r.level(), s));
        }
    }
    fn flush(&self) {}
}
static SINK: SinkLogger = SinkLogger;

pub fn install_logger() {
    let _ = log::set_logger(&SINK);
}

/// A place for thread-locals in scenarios without virtual threads.
pub fn spawn_tls_holder() {
    k().threads.push(Th {
        name: None,
        what: "",
        co: None,
        yielder: std::ptr::null(),
        st: St::Done,
        panicked: None,
        token: false,
        tls: HashMap::new(),
        streak: 0,
    });
}
