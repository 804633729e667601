//! The explorer: enumerates every choice sequence within the bounds, in worker
//! processes, and writes evidence.
use crate::rt::{self, Ch, Setup};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

// ---------------------------------------------------------------- shared slots

const SLOT_CH: usize = 16384;
#[repr(C)]
struct Slot {
    exec: AtomicU64,
    busy: AtomicU32,
    mem: AtomicU32,
    len: AtomicU32,
    note_len: AtomicU32,
    ch: [u64; SLOT_CH],
    note: [u8; 512],
}

static mut SLOT: *mut Slot = std::ptr::null_mut();

fn slot() -> Option<&'static mut Slot> {
    unsafe {
        if SLOT.is_null() {
            None
        } else {
            Some(&mut *SLOT)
        }
    }
}

pub fn memory_exceeded() {
    if let Some(s) = slot() {
        s.mem.store(1, SeqCst);
    }
    unsafe { libc::_exit(88) }
}

/// Describes the case being run, for reports about crashes and hangs.
pub fn note(f: impl FnOnce() -> String) {
    if let Some(s) = slot() {
        let t = f();
        let b = t.as_bytes();
        let n = b.len().min(512);
        s.note[..n].copy_from_slice(&b[..n]);
        s.note_len.store(n as u32, SeqCst);
    }
}
/// Like [`note`], for an input which is a byte string.
pub fn note_bytes(b: &[u8]) {
    if let Some(s) = slot() {
        let n = b.len().min(500);
        s.note[..4].copy_from_slice(b"\0\0\0\0");
        s.note[4..8].copy_from_slice(&(b.len() as u32).to_le_bytes());
        s.note[8..8 + n].copy_from_slice(&b[..n]);
        s.note_len.store(n as u32 + 8, SeqCst);
    }
}
fn read_note(s: &Slot) -> String {
    let n = s.note_len.load(SeqCst) as usize;
    if n >= 8 && s.note[..4] == *b"\0\0\0\0" {
        let len = u32::from_le_bytes(s.note[4..8].try_into().unwrap());
        let h: String = s.note[8..n].iter().map(|x| format!("{:02x}", x)).collect();
        format!("{} bytes: {}{}", len, h, if len > 500 { ".." } else { "" })
    } else {
        String::from_utf8_lossy(&s.note[..n]).into_owned()
    }
}
/// The note of the current execution, for messages.
pub fn current_note() -> String {
    match slot() {
        Some(s) if s.note_len.load(SeqCst) > 0 => format!(" [{}]", read_note(s)),
        _ => String::new(),
    }
}
/// Tell the watchdog that a long execution is making progress.
pub fn alive() {
    if let Some(s) = slot() {
        s.exec.fetch_add(1, SeqCst);
    }
}

// ---------------------------------------------------------------- messages

#[derive(Default)]
struct W(Vec<u8>);
impl W {
    fn u(&mut self, v: u64) {
        let mut v = v;
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                self.0.push(b);
                return;
            }
            self.0.push(b | 0x80);
        }
    }
    fn s(&mut self, s: &str) {
        self.u(s.len() as u64);
        self.0.extend_from_slice(s.as_bytes());
    }
    fn chs(&mut self, v: &[Ch]) {
        self.u(v.len() as u64);
        for c in v {
            self.u(c.c as u64);
            self.u(c.n as u64);
            self.u(c.cat as u64);
        }
    }
}
struct R<'a>(&'a [u8], usize);
impl R<'_> {
    fn u(&mut self) -> u64 {
        let mut v = 0u64;
        let mut sh = 0;
        loop {
            let b = self.0[self.1];
            self.1 += 1;
            v |= ((b & 0x7f) as u64) << sh;
            if b & 0x80 == 0 {
                return v;
            }
            sh += 7;
        }
    }
    fn s(&mut self) -> String {
        let n = self.u() as usize;
        let s = String::from_utf8_lossy(&self.0[self.1..self.1 + n]).into_owned();
        self.1 += n;
        s
    }
    fn chs(&mut self) -> Vec<Ch> {
        let n = self.u() as usize;
        (0..n).map(|_| Ch { c: self.u() as u32, n: self.u() as u32, cat: self.u() as u8 }).collect()
    }
}

fn write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n < 0 {
            if std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            return false;
        }
        b = &b[n as usize..];
    }
    true
}
fn read_exact(fd: i32, b: &mut [u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let n = unsafe { libc::read(fd, b[i..].as_mut_ptr() as *mut _, b.len() - i) };
        if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
            continue;
        }
        if n <= 0 {
            return false;
        }
        i += n as usize;
    }
    true
}
fn send_msg(fd: i32, b: &[u8]) -> bool {
    let mut m = (b.len() as u64).to_le_bytes().to_vec();
    m.extend_from_slice(b);
    write_all(fd, &m)
}
fn recv_msg(fd: i32) -> Option<Vec<u8>> {
    let mut l = [0u8; 8];
    if !read_exact(fd, &mut l) {
        return None;
    }
    let mut v = vec![0u8; u64::from_le_bytes(l) as usize];
    if !read_exact(fd, &mut v) {
        return None;
    }
    Some(v)
}

// ---------------------------------------------------------------- tasks

#[derive(Clone, Debug)]
struct Task {
    prefix: Vec<Ch>,
    // alternatives lo..hi of the choice after the prefix (None: the root)
    alt: Option<(u32, u32, u32, u8)>,
}
impl Task {
    fn put(&self, w: &mut W) {
        w.chs(&self.prefix);
        match self.alt {
            None => w.u(0),
            Some((lo, hi, n, cat)) => {
                w.u(1);
                w.u(lo as u64);
                w.u(hi as u64);
                w.u(n as u64);
                w.u(cat as u64);
            }
        }
    }
    fn get(r: &mut R) -> Task {
        let prefix = r.chs();
        let alt = if r.u() == 1 { Some((r.u() as u32, r.u() as u32, r.u() as u32, r.u() as u8)) } else { None };
        Task { prefix, alt }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Violation {
    pub scenario: String,
    pub sig: String,
    pub msg: String,
    pub choices: Vec<Ch>,
    pub log: Vec<String>,
}

/// What one execution left behind.
struct Out {
    end: rt::End,
    trace: Vec<Ch>,
    violation: Option<(String, String)>,
    steps: u64,
    counters: BTreeMap<String, u64>,
    states: Vec<u64>,
    samples: Vec<String>,
    log: Vec<String>,
}

fn run_inline(prefix: &[Ch], o: &Opts, rtmode: bool, verbose: bool, f: &dyn Fn()) -> Out {
    if let Some(s) = slot() {
        s.exec.fetch_add(1, SeqCst);
        let n = prefix.len().min(SLOT_CH);
        for i in 0..n {
            s.ch[i] = (prefix[i].c as u64) << 32 | (prefix[i].n as u64) << 3 | prefix[i].cat as u64;
        }
        s.len.store(n as u32, SeqCst);
        s.note_len.store(0, SeqCst);
    }
    crate::alloc_guard::LIMIT.store(crate::alloc_guard::LIVE.load(SeqCst) + ((o.mem_mb as i64) << 20), SeqCst);
    rt::execute(prefix, &Setup { rt: rtmode, bound: [u32::MAX, o.sched, o.fault, o.env], max_steps: o.max_steps, time_dev: o.time_dev }, verbose, f);
    crate::alloc_guard::LIMIT.store(i64::MAX, SeqCst);
    let k = rt::k();
    Out {
        end: k.end.clone().unwrap_or(rt::End::Done),
        trace: std::mem::take(&mut k.trace),
        violation: k.violation.take(),
        steps: k.steps,
        counters: std::mem::take(&mut k.counters),
        states: std::mem::take(&mut k.states),
        samples: std::mem::take(&mut k.samples),
        log: std::mem::take(&mut k.log),
    }
}

// One execution in a process of its own.
fn run_isolated(prefix: &[Ch], o: &Opts, rtmode: bool, verbose: bool, f: &dyn Fn()) -> Out {
    unsafe {
        let mut p = [0i32; 2];
        libc::pipe(p.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(p[0]);
            let r = run_inline(prefix, o, rtmode, verbose, f);
            let mut w = W::default();
            match &r.end {
                rt::End::Diverged(m) => {
                    w.u(1);
                    w.s(m)
                }
                rt::End::Pruned => w.u(2),
                _ => w.u(0),
            }
            w.chs(&r.trace);
            match &r.violation {
                None => w.u(0),
                Some((a, b)) => {
                    w.u(1);
                    w.s(a);
                    w.s(b)
                }
            }
            w.u(r.steps);
            w.u(r.counters.len() as u64);
            for (k, v) in &r.counters {
                w.s(k);
                w.u(*v);
            }
            w.u(r.states.len() as u64);
            for s in &r.states {
                w.u(*s)
            }
            w.u(r.samples.len() as u64);
            for s in &r.samples {
                w.s(s)
            }
            w.u(r.log.len() as u64);
            for s in &r.log {
                w.s(s)
            }
            send_msg(p[1], &w.0);
            libc::_exit(0);
        }
        libc::close(p[1]);
        let m = recv_msg(p[0]);
        libc::close(p[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let m = match m {
            Some(m) => m,
            None => libc::_exit(if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 99 }),
        };
        let mut r = R(&m, 0);
        let end = match r.u() {
            1 => rt::End::Diverged(r.s()),
            2 => rt::End::Pruned,
            _ => rt::End::Done,
        };
        let trace = r.chs();
        let violation = if r.u() == 1 { Some((r.s(), r.s())) } else { None };
        let steps = r.u();
        let counters = (0..r.u()).map(|_| (r.s(), r.u())).collect();
        let states = (0..r.u()).map(|_| r.u()).collect();
        let samples = (0..r.u()).map(|_| r.s()).collect();
        let log = (0..r.u()).map(|_| r.s()).collect();
        Out { end, trace, violation, steps, counters, states, samples, log }
    }
}

#[derive(Clone)]
pub struct Opts {
    pub sched: u32,
    pub fault: u32,
    pub env: u32,
    pub max_steps: u64,
    pub time_dev: bool,
    /// seconds without progress after which an execution counts as hung
    pub hang_s: f64,
    pub mem_mb: u64,
    /// wall-clock cap of the scenario in seconds
    pub cap_s: f64,
    pub isolate: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { sched: 0, fault: 0, env: 0, max_steps: 50_000, time_dev: false, hang_s: 25.0, mem_mb: 1024, cap_s: 300.0, isolate: false }
    }
}
impl Opts {
    pub fn sched(mut self, n: u32) -> Self {
        self.sched = n;
        self
    }
    pub fn fault(mut self, n: u32) -> Self {
        self.fault = n;
        self
    }
    pub fn env(mut self, n: u32) -> Self {
        self.env = n;
        self
    }
    pub fn steps(mut self, n: u64) -> Self {
        self.max_steps = n;
        self
    }
    pub fn cap(mut self, s: f64) -> Self {
        self.cap_s = s;
        self
    }
    pub fn mem(mut self, mb: u64) -> Self {
        self.mem_mb = mb;
        self
    }
    pub fn time_dev(mut self) -> Self {
        self.time_dev = true;
        self
    }
}
pub fn opts() -> Opts {
    Opts::default()
}

fn worker(fd: i32, o: &Opts, rtmode: bool, known: &HashSet<String>, scenario: &str, f: &dyn Fn()) -> ! {
    let mut seen: HashSet<u64> = HashSet::new();
    loop {
        let m = match recv_msg(fd) {
            Some(m) if !m.is_empty() => m,
            _ => unsafe { libc::_exit(0) },
        };
        let mut r = R(&m, 0);
        let isolate = r.u() == 1;
        let slice_ms = r.u();
        let task = Task::get(&mut r);
        if let Some(s) = slot() {
            s.busy.store(1, SeqCst);
        }
        let mut stack = task.prefix.clone();
        let fixed = stack.len();
        let mut hi = u32::MAX;
        if let Some((lo, h, n, cat)) = task.alt {
            stack.push(Ch { c: lo, n, cat });
            hi = h;
        }
        let t0 = Instant::now();
        let (mut execs, mut nodes, mut steps, mut pruned, mut maxlen) = (0u64, 0u64, 0u64, 0u64, 0u64);
        let mut counters: BTreeMap<String, u64> = BTreeMap::new();
        let mut states: Vec<u64> = Vec::new();
        let mut samples: Vec<String> = Vec::new();
        let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
        let mut viol: Option<Violation> = None;
        let mut diverged: Option<String> = None;
        let mut left: Vec<Task> = Vec::new();
        let run = |p: &[Ch], v: bool| if isolate { run_isolated(p, o, rtmode, v, f) } else { run_inline(p, o, rtmode, v, f) };
        loop {
            let len0 = stack.len();
            let out = run(&stack, false);
            execs += 1;
            nodes += (out.trace.len() + 1 - len0.min(out.trace.len())) as u64;
            steps += out.steps + out.trace.len() as u64;
            maxlen = maxlen.max(out.trace.len() as u64);
            if out.end == rt::End::Pruned {
                pruned += 1;
            }
            for (k, v) in out.counters {
                *counters.entry(k).or_insert(0) += v;
            }
            for s in out.states {
                if seen.insert(s) {
                    states.push(s);
                }
            }
            if samples.len() < 2 {
                samples.extend(out.samples);
            }
            if let rt::End::Diverged(m) = out.end {
                diverged = Some(m);
                break;
            }
            if out.trace.len() < len0 && out.violation.is_none() {
                diverged = Some(format!("only {} of {} choices were reached", out.trace.len(), len0));
                break;
            }
            if let Some((sig, msg)) = out.violation {
                if known.contains(&sig) {
                    let e = known_hits.entry(sig).or_insert((0, msg));
                    e.0 += 1;
                } else {
                    let again = run(&out.trace, true);
                    let msg = match &again.violation {
                        Some((s2, _)) if *s2 == sig => msg,
                        Some((_, m2)) => format!("{} [a second run gave: {}]", msg, m2),
                        None => format!("{} [a second run did not show it]", msg),
                    };
                    viol = Some(Violation { scenario: scenario.into(), sig, msg, choices: out.trace.clone(), log: again.log });
                    break;
                }
            }
            stack = out.trace;
            // next sibling, deepest first
            let mut i = stack.len();
            let mut found = false;
            while i > fixed {
                i -= 1;
                let lim = if i == fixed { hi.min(stack[i].n) } else { stack[i].n };
                if stack[i].c + 1 < lim {
                    found = true;
                    break;
                }
            }
            if !found {
                break;
            }
            stack.truncate(i + 1);
            stack[i].c += 1;
            if t0.elapsed().as_millis() as u64 >= slice_ms {
                for j in (fixed..stack.len()).rev() {
                    let lim = if j == fixed { hi.min(stack[j].n) } else { stack[j].n };
                    let lo = if j + 1 == stack.len() { stack[j].c } else { stack[j].c + 1 };
                    if lo < lim {
                        left.push(Task { prefix: stack[..j].to_vec(), alt: Some((lo, lim, stack[j].n, stack[j].cat)) });
                    }
                }
                break;
            }
        }
        if let Some(s) = slot() {
            s.busy.store(0, SeqCst);
        }
        let mut w = W::default();
        w.u(execs);
        w.u(nodes);
        w.u(steps);
        w.u(pruned);
        w.u(maxlen);
        w.u(counters.len() as u64);
        for (k, v) in &counters {
            w.s(k);
            w.u(*v);
        }
        w.u(states.len() as u64);
        for s in &states {
            w.u(*s);
        }
        w.u(samples.len() as u64);
        for s in &samples {
            w.s(s);
        }
        w.u(known_hits.len() as u64);
        for (k, v) in &known_hits {
            w.s(k);
            w.u(v.0);
            w.s(&v.1);
        }
        match &viol {
            None => w.u(0),
            Some(v) => {
                w.u(1);
                w.s(&v.sig);
                w.s(&v.msg);
                w.chs(&v.choices);
                w.u(v.log.len() as u64);
                for l in &v.log {
                    w.s(l);
                }
            }
        }
        match &diverged {
            None => w.u(0),
            Some(m) => {
                w.u(1);
                w.s(m);
            }
        }
        w.u(left.len() as u64);
        for t in &left {
            t.put(&mut w);
        }
        if !send_msg(fd, &w.0) {
            unsafe { libc::_exit(0) }
        }
        // abandoned threads leak: start afresh now and then
        if crate::alloc_guard::LIVE.load(SeqCst) > 1 << 30 {
            unsafe { libc::_exit(77) }
        }
    }
}

// ---------------------------------------------------------------- check driver

#[derive(Default, Clone)]
struct Stat {
    name: String,
    mode: String,
    execs: u64,
    nodes: u64,
    steps: u64,
    pruned: u64,
    maxlen: u64,
    states: u64,
    wall: f64,
    complete: bool,
    isolated: bool,
    left: usize,
    bounds: String,
}

pub struct Check {
    pub property: String,
    pub tier: String,
    pub seed: i64,
    stats: Vec<Stat>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: HashSet<String>,
    known_text: BTreeMap<String, String>,
    known_hits: BTreeMap<String, (u64, String)>,
    violations: Vec<Violation>,
    assumptions: Vec<String>,
    t0: Instant,
    only: Option<String>,
    replay: Option<(String, Vec<Ch>)>,
    jobs: usize,
    root: String,
    broken: Option<String>,
    keep_going: bool,
    cap_scale: f64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Processor time used by the process, in seconds.
fn cpu_s(pid: i32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let v: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| v.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (n(11) + n(12)) / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64
}

impl Check {
    pub fn start(property: &str) -> Check {
        let args: Vec<String> = std::env::args().collect();
        let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let mut only = None;
        let mut replay = None;
        let mut jobs = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) }.max(1) as usize;
        let mut keep_going = false;
        let mut i = 1;
        while i < args.len() {
            match args[i].as_str() {
                "quick" | "thorough" => tier = args[i].clone(),
                "--only" => {
                    only = Some(args[i + 1].clone());
                    i += 1;
                }
                "--keep-going" => keep_going = true,
                "-j" => {
                    jobs = args[i + 1].parse().unwrap();
                    i += 1;
                }
                "--replay" => {
                    let t = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                    let mut name = String::new();
                    let mut ch = Vec::new();
                    for l in t.lines() {
                        if let Some(x) = l.strip_prefix("scenario: ") {
                            name = x.to_string();
                        }
                        if let Some(x) = l.strip_prefix("choices: ") {
                            for c in x.split_whitespace() {
                                let p: Vec<u32> = c.split('/').map(|v| v.parse().unwrap()).collect();
                                ch.push(Ch { c: p[0], n: p[1], cat: p[2] as u8 });
                            }
                        }
                    }
                    replay = Some((name, ch));
                    i += 1;
                }
                x => panic!("unknown argument {}", x),
            }
            i += 1;
        }
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let mut known = HashSet::new();
        let mut known_text = BTreeMap::new();
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) {
            for l in t.lines() {
                // finding: property=C01 sig=<signature> :: <what fails>
                if let Some(x) = l.strip_prefix("finding: ") {
                    if let Some(rest) = x.strip_prefix(&format!("property={} sig=", property)) {
                        let (sig, text) = rest.split_once(" :: ").unwrap_or((rest, rest));
                        known.insert(sig.to_string());
                        known_text.insert(sig.to_string(), text.to_string());
                    }
                }
            }
        }
        rt::install_panic_hook();
        rt::install_logger();
        unsafe {
            libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        }
        Check {
            property: property.into(),
            tier,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            stats: Vec::new(),
            counters: BTreeMap::new(),
            samples: Vec::new(),
            known,
            known_text,
            known_hits: BTreeMap::new(),
            violations: Vec::new(),
            assumptions: Vec::new(),
            t0: Instant::now(),
            only,
            replay,
            jobs,
            root,
            broken: None,
            keep_going,
            cap_scale: std::env::var("MC_CAP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// `q` in the quick tier, `t` in the thorough tier.
    pub fn by<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    /// A scenario without virtual threads: `f` is called once per choice sequence.
    pub fn pure(&mut self, name: &str, o: Opts, f: impl Fn()) {
        self.scenario(name, o, false, &f);
    }
    /// A scenario whose threads are scheduled by the explorer.
    pub fn rt(&mut self, name: &str, o: Opts, f: impl Fn()) {
        self.scenario(name, o, true, &f);
    }

    fn scenario(&mut self, name: &str, o: Opts, rtmode: bool, f: &dyn Fn()) {
        if let Some((n, ch)) = self.replay.clone() {
            if n == name {
                let out = run_inline(&ch, &o, rtmode, true, f);
                for l in &out.log {
                    println!("{}", l);
                }
                println!("end: {:?}", out.end);
                match out.violation {
                    Some((sig, msg)) => {
                        println!("violation [{}]: {}", sig, msg);
                        std::process::exit(1);
                    }
                    None => std::process::exit(0),
                }
            }
            return;
        }
        if let Some(x) = &self.only {
            if !name.contains(x.as_str()) {
                return;
            }
        }
        if (!self.violations.is_empty() && !self.keep_going) || self.broken.is_some() {
            return;
        }
        let r = self.explore(name, &o, rtmode, f, o.isolate);
        if let Err(m) = r {
            eprintln!("note: {}: executions are not repeatable in one process ({}); running each in its own", name, m);
            if let Err(m) = self.explore(name, &o, rtmode, f, true) {
                self.broken = Some(format!("scenario {}: replay diverged: {}", name, m));
            }
        }
    }

    fn explore(&mut self, name: &str, o: &Opts, rtmode: bool, f: &dyn Fn(), isolate: bool) -> Result<(), String> {
        let t0 = Instant::now();
        let n = self.jobs;
        let slots = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Slot>() * n,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            ) as *mut Slot
        };
        struct Wk {
            pid: i32,
            fd: i32,
            task: Option<Task>,
            last_exec: u64,
            last_change: Instant,
            cpu: f64,
        }
        let known = self.known.clone();
        let spawn = |i: usize, others: &[i32]| -> Wk {
            unsafe {
                let s = &mut *slots.add(i);
                s.busy.store(0, SeqCst);
                s.mem.store(0, SeqCst);
                let mut p = [0i32; 2];
                assert_eq!(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM, 0, p.as_mut_ptr()), 0);
                let pid = libc::fork();
                assert!(pid >= 0, "fork");
                if pid == 0 {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    libc::close(p[0]);
                    for o in others {
                        libc::close(*o);
                    }
                    SLOT = slots.add(i);
                    worker(p[1], o, rtmode, &known, name, f)
                }
                libc::close(p[1]);
                Wk { pid, fd: p[0], task: None, last_exec: 0, last_change: Instant::now(), cpu: 0.0 }
            }
        };
        let mut ws: Vec<Wk> = Vec::new();
        for i in 0..n {
            let fds: Vec<i32> = ws.iter().map(|w| w.fd).collect();
            ws.push(spawn(i, &fds));
        }
        let mut queue: Vec<Task> = vec![Task { prefix: vec![], alt: None }];
        let mut st = Stat { name: name.into(), mode: if rtmode { "threads".into() } else { "sequential".into() }, isolated: isolate, ..Default::default() };
        st.bounds = format!(
            "scheduling deviations<={}{}, faults<={}, environment deviations<={}, steps<={}",
            o.sched,
            if o.time_dev { " (including early passage of time)" } else { "" },
            o.fault,
            o.env,
            o.max_steps
        );
        let mut states: HashSet<u64> = HashSet::new();
        let mut diverged = None;
        let mut viols: Vec<Violation> = Vec::new();
        let mut slice = 10u64;
        // a quick check must end in time on a slow machine too
        let left = if self.thorough() { f64::MAX } else { (620.0 - self.t0.elapsed().as_secs_f64()).max(5.0) };
        let cap = (o.cap_s * self.cap_scale).min(left);
        let mut stopped = false;
        let mut killed = 0;
        loop {
            // hand out work
            let expired = t0.elapsed().as_secs_f64() > cap;
            if expired {
                stopped = true;
            }
            if !stopped {
                let idle = ws.iter().filter(|w| w.task.is_none()).count();
                // split wide tasks when there is too little work
                while !queue.is_empty() && queue.len() < idle {
                    let j = queue.iter().enumerate().max_by_key(|(_, t)| t.alt.map_or(0, |a| a.1 - a.0)).unwrap().0;
                    match queue[j].alt {
                        Some((lo, hi, nn, cat)) if hi - lo > 1 => {
                            let mid = lo + (hi - lo) / 2;
                            let mut t2 = queue[j].clone();
                            queue[j].alt = Some((lo, mid, nn, cat));
                            t2.alt = Some((mid, hi, nn, cat));
                            queue.push(t2);
                        }
                        _ => break,
                    }
                }
                for w in ws.iter_mut() {
                    if w.task.is_none() {
                        if let Some(t) = queue.pop() {
                            let mut m = W::default();
                            m.u(isolate as u64);
                            m.u(slice);
                            t.put(&mut m);
                            w.task = Some(t);
                            w.last_change = Instant::now();
                            w.cpu = cpu_s(w.pid);
                            send_msg(w.fd, &m.0);
                        }
                    }
                }
            }
            if ws.iter().all(|w| w.task.is_none()) {
                break;
            }
            let mut pf: Vec<libc::pollfd> = ws.iter().map(|w| libc::pollfd { fd: w.fd, events: libc::POLLIN, revents: 0 }).collect();
            unsafe {
                libc::poll(pf.as_mut_ptr(), pf.len() as u64, 250);
            }
            for i in 0..ws.len() {
                if ws[i].task.is_none() {
                    continue;
                }
                let s = unsafe { &mut *slots.add(i) };
                let crash = |what: &str, sig: &str, s: &Slot| -> Violation {
                    let len = s.len.load(SeqCst) as usize;
                    let ch: Vec<Ch> = s.ch[..len].iter().map(|v| Ch { c: (v >> 32) as u32, n: ((v & 0xffff_ffff) >> 3) as u32, cat: (v & 7) as u8 }).collect();
                    let nl = s.note_len.load(SeqCst) as usize;
                    let note = read_note(s);
                    Violation { scenario: name.into(), sig: sig.into(), msg: format!("{}{}{}", what, if nl > 0 { "; case: " } else { "" }, note), choices: ch, log: vec![] }
                };
                if pf[i].revents != 0 {
                    match recv_msg(ws[i].fd) {
                        Some(m) => {
                            let mut r = R(&m, 0);
                            st.execs += r.u();
                            st.nodes += r.u();
                            st.steps += r.u();
                            st.pruned += r.u();
                            st.maxlen = st.maxlen.max(r.u());
                            for _ in 0..r.u() {
                                let k = r.s();
                                let v = r.u();
                                *self.counters.entry(k).or_insert(0) += v;
                            }
                            for _ in 0..r.u() {
                                let h = r.u();
                                states.insert(h);
                            }
                            for _ in 0..r.u() {
                                let s = r.s();
                                if self.samples.len() < 40 && self.samples.iter().filter(|x| x.starts_with(&format!("{}: ", name))).count() < 3 {
                                    let t = format!("{}: {}", name, s);
                                    if !self.samples.contains(&t) {
                                        self.samples.push(t);
                                    }
                                }
                            }
                            for _ in 0..r.u() {
                                let sig = r.s();
                                let c = r.u();
                                let msg = r.s();
                                let e = self.known_hits.entry(sig).or_insert((0, msg));
                                e.0 += c;
                            }
                            if r.u() == 1 {
                                let sig = r.s();
                                let msg = r.s();
                                let choices = r.chs();
                                let log = (0..r.u()).map(|_| r.s()).collect();
                                viols.push(Violation { scenario: name.into(), sig, msg, choices, log });
                                stopped = true;
                            }
                            if r.u() == 1 {
                                diverged = Some(r.s());
                                stopped = true;
                            }
                            for _ in 0..r.u() {
                                queue.push(Task::get(&mut r));
                            }
                            ws[i].task = None;
                        }
                        None => {
                            // the worker died
                            let mut status = 0;
                            unsafe {
                                libc::waitpid(ws[i].pid, &mut status, 0);
                                libc::close(ws[i].fd);
                            }
                            let done_recycle = libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 77;
                            // ended from outside, e.g. because the machine is short of memory
                            let outside = libc::WIFSIGNALED(status) && libc::WTERMSIG(status) == libc::SIGKILL && s.mem.load(SeqCst) != 1;
                            if outside {
                                killed += 1;
                                if killed > 8 {
                                    return Err("the workers are killed again and again".into());
                                }
                            } else if !done_recycle {
                                let (what, sig) = if s.mem.load(SeqCst) == 1 {
                                    (format!("memory use grew by more than {} MB", o.mem_mb), "memory")
                                } else if libc::WIFSIGNALED(status) {
                                    (format!("the process was killed by signal {}", libc::WTERMSIG(status)), "crash")
                                } else {
                                    (format!("the process ended with status {}", libc::WEXITSTATUS(status)), "crash")
                                };
                                viols.push(crash(&what, sig, s));
                                stopped = true;
                                ws[i].task = None;
                            }
                            let t = ws[i].task.take();
                            let fds: Vec<i32> = ws.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, w)| w.fd).collect();
                            ws[i] = spawn(i, &fds);
                            if let Some(t) = t {
                                queue.push(t);
                            }
                        }
                    }
                } else {
                    let e = s.exec.load(SeqCst);
                    if e != ws[i].last_exec {
                        ws[i].last_exec = e;
                        ws[i].last_change = Instant::now();
                        ws[i].cpu = cpu_s(ws[i].pid);
                    // a loop needs processor time, whatever else the machine does; a block does not
                    } else if ws[i].last_change.elapsed().as_secs_f64() > o.hang_s && (cpu_s(ws[i].pid) - ws[i].cpu > o.hang_s * 0.9 || ws[i].last_change.elapsed().as_secs_f64() > o.hang_s * 6.0) {
                        viols.push(crash(&format!("no progress for {} seconds (infinite loop)", o.hang_s), "hang", s));
                        stopped = true;
                        unsafe {
                            libc::kill(ws[i].pid, libc::SIGKILL);
                        }
                        ws[i].task = None;
                    }
                }
            }
            if !viols.is_empty() || diverged.is_some() {
                break;
            }
            if t0.elapsed().as_millis() > 300 {
                slice = 150;
            }
        }
        for w in &ws {
            unsafe {
                libc::close(w.fd);
                if w.task.is_some() {
                    libc::kill(w.pid, libc::SIGKILL);
                }
            }
        }
        for w in &ws {
            unsafe {
                libc::kill(w.pid, libc::SIGKILL);
                libc::waitpid(w.pid, std::ptr::null_mut(), 0);
            }
        }
        unsafe {
            libc::munmap(slots as *mut _, std::mem::size_of::<Slot>() * n);
        }
        if let Some(m) = diverged {
            if viols.is_empty() && !isolate {
                return Err(m);
            }
            if viols.is_empty() {
                return Err(m);
            }
        }
        st.left = queue.len();
        st.complete = queue.is_empty() && viols.is_empty();
        st.states = states.len() as u64;
        st.wall = t0.elapsed().as_secs_f64();
        eprintln!(
            "{} {}: {} executions, {} choice-tree nodes, {} steps, {} states, {:.1}s{}{}",
            self.property,
            name,
            st.execs,
            st.nodes,
            st.steps,
            st.states,
            st.wall,
            if st.complete { "" } else { " (not exhausted)" },
            if isolate { " (isolated)" } else { "" }
        );
        self.stats.push(st);
        if let Some(v) = viols.into_iter().min_by_key(|v| v.choices.len()) {
            if self.known.contains(&v.sig) {
                let e = self.known_hits.entry(v.sig.clone()).or_insert((0, v.msg.clone()));
                e.0 += 1;
            } else {
                self.violations.push(v);
            }
        }
        Ok(())
    }

    pub fn finish(mut self) -> ! {
        if self.replay.is_some() {
            println!("no such scenario");
            std::process::exit(2);
        }
        let mut replay_paths = Vec::new();
        for v in &self.violations {
            let dir = format!("{}/replays", self.root);
            let _ = std::fs::create_dir_all(&dir);
            let p = format!("{}/{}-{}.txt", dir, self.property, v.scenario.replace(|c: char| !c.is_ascii_alphanumeric(), "_"));
            let mut t = format!("property: {}\nscenario: {}\nsignature: {}\n", self.property, v.scenario, v.sig);
            t += &format!("message: {}\n", v.msg.replace('\n', "\n    "));
            t += "choices:";
            for c in &v.choices {
                t += &format!(" {}/{}/{}", c.c, c.n, c.cat);
            }
            t += "\nreplay with: ./run.sh ";
            t += &format!("{} --replay {}\n", self.property, p);
            t += "log:\n";
            for l in v.log.iter().take(5000) {
                t += &format!("  {}\n", l);
            }
            let _ = std::fs::write(&p, t);
            replay_paths.push(p);
        }
        let execs: u64 = self.stats.iter().map(|s| s.execs).sum();
        let steps: u64 = self.stats.iter().map(|s| s.steps).sum();
        let states: u64 = self.stats.iter().map(|s| if s.states > 0 { s.states } else { s.nodes }).sum();
        let transitions: u64 = steps;
        let complete = self.stats.iter().all(|s| s.complete);
        let mut sc = String::new();
        for s in &self.stats {
            if !sc.is_empty() {
                sc += ",\n    ";
            }
            sc += &format!(
                "{{\"scenario\": {}, \"mode\": {}, \"executions\": {}, \"choice_tree_nodes\": {}, \"steps\": {}, \"distinct_states\": {}, \"pruned\": {}, \"longest_choice_sequence\": {}, \"exhausted\": {}, \"unexplored_subtrees\": {}, \"isolated_processes\": {}, \"bounds\": {}, \"wall_s\": {:.2}}}",
                js(&s.name), js(&s.mode), s.execs, s.nodes, s.steps, s.states, s.pruned, s.maxlen, s.complete, s.left, s.isolated, js(&s.bounds), s.wall
            );
        }
        let samples: Vec<String> = self.samples.iter().map(|s| js(s)).collect();
        let counters: Vec<String> = self.counters.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        if self.assumptions.is_empty() {
            self.assumptions.push("bounds of each scenario as stated".into());
        }
        let assumptions: Vec<String> = self.assumptions.iter().map(|s| js(s)).collect();
        let mut ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"samples\": [{}],\n  \"events\": {{{}}},\n  \"scenarios\": [\n    {}\n  ]\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.2}",
            js(&self.property),
            js(&self.tier),
            self.seed,
            states,
            transitions,
            execs,
            complete,
            samples.join(", "),
            counters.join(", "),
            sc,
            assumptions.join(", "),
            self.violations.len(),
            self.t0.elapsed().as_secs_f64()
        );
        ev += "\n}\n";
        let dir = format!("{}/evidence", self.root);
        let _ = std::fs::create_dir_all(&dir);
        if self.only.is_none() {
            std::fs::write(format!("{}/{}.json", dir, self.property), ev).expect("evidence");
        }
        for (sig, (n, msg)) in &self.known_hits {
            println!("KNOWN-FINDING: property={} {} ({} executions, e.g. {})", self.property, self.known_text.get(sig).unwrap_or(sig), n, msg.lines().next().unwrap_or(""));
        }
        if !self.violations.is_empty() {
            for (v, p) in self.violations.iter().zip(&replay_paths) {
                println!("{} [{}]: {}", v.scenario, v.sig, v.msg);
                println!("VIOLATION property={} replay={}", self.property, p);
            }
            std::process::exit(1);
        }
        if let Some(b) = self.broken {
            println!("ERROR property={} {}", self.property, b);
            std::process::exit(2);
        }
        println!("OK property={} tier={} executions={} states={} exhausted={} wall={:.1}s", self.property, self.tier, execs, states, complete, self.t0.elapsed().as_secs_f64());
        std::process::exit(0)
    }
}
