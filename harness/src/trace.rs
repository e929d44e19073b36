//! Events, drop-tracked payloads, instrumented wakers, and the exploration loop.
use crate::sched::{self, Strategy};
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Instant;

// ---- events -------------------------------------------------------------------------------
#[derive(Clone)]
pub struct E(pub String);
impl E {
    pub fn new(e: &str) -> E { E(format!("{{\"e\":\"{}\"", e)) }
    pub fn n(mut self, k: &str, v: i64) -> E { self.0.push_str(&format!(",\"{}\":{}", k, v)); self }
    pub fn s(mut self, k: &str, v: &str) -> E { self.0.push_str(&format!(",\"{}\":\"{}\"", k, v)); self }
    pub fn b(mut self, k: &str, v: bool) -> E { self.0.push_str(&format!(",\"{}\":{}", k, v)); self }
    pub fn raw(mut self, k: &str, v: &str) -> E { self.0.push_str(&format!(",\"{}\":{}", k, v)); self }
    pub fn seq(self, k: &str, v: &[i64]) -> E { let s = format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")); self.raw(k, &s) }
    pub fn done(mut self) -> String { self.0.push('}'); self.0 }
    pub fn log(self) { sched::log(self.done()) }
}

/// Call/return logging of one thread's operation on the object under test.
pub struct Call { t: usize, id: u64 }
static CALLS: AtomicU64 = AtomicU64::new(0);
pub fn call(op: &'static str, f: impl FnOnce(E) -> E) -> Call {
    let t = sched::me().unwrap_or(99);
    sched::label(op);
    sched::point();
    let id = CALLS.fetch_add(1, Ordering::Relaxed);
    sched::log(format!("C{} {}", id, f(E::new("call").n("t", t as i64).s("op", op)).0));
    Call { t, id }
}
impl Call {
    pub fn ret(self, r: &str, v: i64) {
        sched::log(format!("R{} {} ,\"r\":\"{}\",\"v\":{}", self.id, self.t, r, v));
    }
}
/// Resolves call/return pairs into JSON lines.
pub fn resolve(log: &[String]) -> Vec<String> {
    let mut res: HashMap<&str, &str> = HashMap::new();
    for l in log { if l.starts_with('R') { let mut p = l.splitn(3, ' '); let id = &p.next().unwrap()[1..]; p.next(); res.insert(id, p.next().unwrap()); } }
    let mut op: HashMap<&str, &str> = HashMap::new();
    for l in log { if let Some(r) = l.strip_prefix('C') { let (id, e) = r.split_once(' ').unwrap(); if let Some(o) = e.split("\"op\":\"").nth(1).and_then(|x| x.split('"').next()) { op.insert(id, o); } } }
    log.iter().map(|l| {
        if let Some(r) = l.strip_prefix('C') { let (id, e) = r.split_once(' ').unwrap(); format!("{}{}}}", e, res.get(id).unwrap_or(&",\"r\":\"open\",\"v\":0")) }
        else if let Some(r) = l.strip_prefix('R') { let mut p = r.split(' '); let o = op.get(p.next().unwrap()).unwrap_or(&""); let t = p.next().unwrap(); format!("{{\"e\":\"ret\",\"t\":{},\"op\":\"{}\"}}", t, o) }
        else { l.clone() }
    }).collect()
}

// ---- payloads -----------------------------------------------------------------------------
#[derive(Default)]
pub struct Reg { made: HashMap<i64, (i64, i64)> }
static REG: Mutex<Option<Reg>> = Mutex::new(None);
pub fn reset_reg() { *REG.lock().unwrap() = Some(Reg::default()) }
fn reg(id: i64, m: i64, d: i64) { if let Some(r) = REG.lock().unwrap_or_else(|e| e.into_inner()).as_mut() { let e = r.made.entry(id).or_insert((0, 0)); e.0 += m; e.1 += d } }
/// (leaked ids, over-dropped ids)
pub fn drops() -> (Vec<i64>, Vec<i64>) {
    let g = REG.lock().unwrap();
    let (mut l, mut d) = (vec![], vec![]);
    if let Some(r) = g.as_ref() { for (k, (m, dd)) in &r.made { if dd < m { l.push(*k) } if dd > m { d.push(*k) } } }
    l.sort(); d.sort();
    (l, d)
}
/// A drop-tracked value that carries the point at which it was made.
pub struct Pay { pub id: i64, canary: u32, st: sched::Stamp }
const CANARY: u32 = 0x5afe_c0de;
impl Pay {
    pub fn new(id: i64) -> Pay { reg(id, 1, 0); Pay { id, canary: CANARY, st: sched::stamp() } }
    /// Reads the value; logs a race if its creation does not happen before this read.
    pub fn read(&self) -> i64 {
        if self.canary != CANARY { E::new("corrupt").n("v", self.id).log() }
        if !sched::hb(self.st) { E::new("race").s("what", "value").log() }
        self.id
    }
}
impl Clone for Pay { fn clone(&self) -> Pay { reg(self.id, 1, 0); Pay { id: self.id, canary: CANARY, st: self.st } } }
impl Drop for Pay { fn drop(&mut self) { if self.canary != CANARY { sched::log(E::new("corrupt").n("v", self.id).done()) } self.canary = 0xdead_0000; reg(self.id, 0, 1) } }
impl std::fmt::Debug for Pay { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Pay{}", self.id) } }
impl PartialEq for Pay { fn eq(&self, o: &Pay) -> bool { self.id == o.id } }

// ---- wakers -------------------------------------------------------------------------------
/// Never freed while its execution runs, so that misuse by the code under test is observable.
pub struct WInner { pub id: u64, refs: AtomicI64, made: Mutex<Vec<sched::Stamp>>, pub wakes: AtomicI64, quiet: bool, hook: Option<Box<dyn Fn() + Send + Sync>> }
static WAKERS: Mutex<Vec<&'static WInner>> = Mutex::new(Vec::new());
/// Scheduling points inside waker callbacks (off when the library's own locks are not hooked).
pub static WAKER_POINTS: AtomicBool = AtomicBool::new(true);
fn wpoint() { if WAKER_POINTS.load(Ordering::Relaxed) { sched::point() } }
unsafe fn inner(p: *const ()) -> &'static WInner { &*(p as *const WInner) }
static VT: RawWakerVTable = RawWakerVTable::new(
    |p| { let w = unsafe { inner(p) }; w.live(); wpoint(); w.refs.fetch_add(1, Ordering::SeqCst); { let s = sched::stamp(); w.made.lock().unwrap().push(s); } RawWaker::new(p, &VT) },
    |p| { let w = unsafe { inner(p) }; w.fire(); w.release() },
    |p| { let w = unsafe { inner(p) }; w.fire() },
    |p| { let w = unsafe { inner(p) }; wpoint(); w.release() },
);
impl WInner {
    fn live(&self) { if self.refs.load(Ordering::SeqCst) <= 0 { E::new("corrupt").s("what", "waker").log() } }
    fn fire(&self) {
        self.live();
        wpoint();
        let made = self.made.lock().unwrap().clone();
        // Some clone (or, without clones, the original) must have been handed over to this thread.
        if !made.iter().any(|m| sched::hb(*m)) && !made.is_empty() { E::new("race").s("what", "waker").log() }
        self.wakes.fetch_add(1, Ordering::SeqCst);
        if !self.quiet { sched::mark_woken(self.id) }
        if let Some(h) = &self.hook { h() }
    }
    fn release(&self) { if self.refs.fetch_sub(1, Ordering::SeqCst) <= 0 { E::new("corrupt").s("what", "waker").log() } }
}
pub struct W(pub &'static WInner);
impl W {
    pub fn new() -> W { W::with(None) }
    pub fn with(hook: Option<Box<dyn Fn() + Send + Sync>>) -> W {
        let w: &'static WInner = Box::leak(Box::new(WInner { id: sched::new_waker_id(), refs: AtomicI64::new(0), made: Mutex::new(vec![]), wakes: AtomicI64::new(0), quiet: false, hook }));
        WAKERS.lock().unwrap().push(w);
        W(w)
    }
    pub fn waker(&self) -> Waker { self.0.refs.fetch_add(1, Ordering::SeqCst); unsafe { Waker::from_raw(RawWaker::new(self.0 as *const WInner as *const (), &VT)) } }
    pub fn id(&self) -> u64 { self.0.id }
    pub fn wakes(&self) -> i64 { self.0.wakes.load(Ordering::SeqCst) }
    pub fn refs(&self) -> i64 { self.0.refs.load(Ordering::SeqCst) }
}
/// Number of wakers still referenced; frees the others.
pub fn sweep_wakers(free: bool) -> i64 {
    let mut v = WAKERS.lock().unwrap();
    let mut leaked = 0;
    for w in v.drain(..) {
        if w.refs.load(Ordering::SeqCst) != 0 { leaked += 1 } else if free { unsafe { drop(Box::from_raw(w as *const WInner as *mut WInner)) } }
    }
    leaked
}

/// Polls with a fresh waker until ready, blocking in between. None: given up at quiescence.
pub fn wait<R>(op: &'static str, v: i64, mut poll: impl FnMut(&mut Context<'_>) -> Poll<R>, show: impl Fn(&R) -> (&'static str, i64)) -> Option<R> {
    loop {
        let w = W::new();
        let wk = w.waker();
        let c = call(op, |e| e.n("a", v));
        match poll(&mut Context::from_waker(&wk)) {
            Poll::Ready(r) => { let (s, v) = show(&r); c.ret(s, v); return Some(r) }
            Poll::Pending => c.ret("pending", 0),
        }
        drop(wk);
        if !sched::wait_woken(w.id()) { return None }
    }
}
/// Keeps everything alive until nothing else can happen.
pub fn hold() { sched::label("hold"); let w = W::new(); sched::wait_woken(w.id()); }
/// The scenario with every thread holding on at its end, so that no final drop hides a missed wake-up.
pub fn held(p: &str) -> String { format!("{}h", p) }
/// One poll with a fresh waker, not waiting for it.
pub fn poll1<R>(op: &'static str, v: i64, poll: impl FnOnce(&mut Context<'_>) -> Poll<R>, show: impl Fn(&R) -> (&'static str, i64)) -> Option<R> {
    let w = W::new();
    let wk = w.waker();
    let c = call(op, |e| e.n("a", v));
    match poll(&mut Context::from_waker(&wk)) {
        Poll::Ready(r) => { let (s, v) = show(&r); c.ret(s, v); Some(r) }
        Poll::Pending => { c.ret("pending", 0); None }
    }
}

// ---- exploration --------------------------------------------------------------------------
pub struct Out { pub file: std::io::BufWriter<std::fs::File>, pub n: u64, pub execs: u64, pub steps: u64, pub stats: Vec<String>, pub samples: u64 }
pub type Prog = Box<dyn FnOnce(usize) + Send>;
pub struct Scn { pub threads: Vec<Prog>, pub fin: Option<Box<dyn FnOnce()>> }
#[derive(Clone, Copy)]
pub struct Budget { pub dfs: u64, pub bound: u32, pub rand: u64, pub stale: u64, pub secs: f64 }
pub struct Run { pub out: Out, pub seed: u64, pub budget: Budget, pub shard: (u64, u64), pub counter: u64, pub start: Instant, pub limit: f64, pub only: Option<String> }

/// Counts executions, for the watchdog.
static BEAT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn beat() { BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
/// Ends the process (77) when one execution never ends: 25 s of processor time or 150 s of time.
pub fn watchdog() {
    let cpu = || std::fs::read_to_string("/proc/self/stat").ok().and_then(|s| {
        let f: Vec<&str> = s.rsplit(')').next().unwrap().split_whitespace().collect();
        Some((f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?) / 100)
    }).unwrap_or(0);
    std::thread::spawn(move || {
        let (mut b, mut c, mut t) = (0, cpu(), Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let n = BEAT.load(std::sync::atomic::Ordering::Relaxed);
            if n != b { b = n; c = cpu(); t = Instant::now() }
            else if n > 0 && (cpu() - c > 25 || t.elapsed().as_secs() > 150) { println!("HANG: execution {} never ends", n); std::process::exit(77) }
        }
    });
}
impl Run {
    pub fn want(&mut self, name: &str) -> bool {
        if let Some(o) = &self.only { return o == name }
        self.counter += 1;
        self.counter % self.shard.1 == self.shard.0
    }
    pub fn out_of_time(&self) -> bool { self.start.elapsed().as_secs_f64() > self.limit }
    pub fn emit(&mut self, name: &str, cfg: &str, ev: &[String], extra: &str) {
        self.out.n += 1;
        writeln!(self.out.file, "{{\"id\":\"{}\",\"cfg\":{},\"x\":\"{}\",\"ev\":[{}]}}", name, cfg, extra, ev.join(",")).unwrap();
    }
    /// Explores one scenario: all schedules within the preemption bound (up to a cap), then
    /// random, PCT and weak-memory executions.
    pub fn explore(&mut self, name: &str, cfg: &str, mk: &dyn Fn() -> Scn) {
        if !self.want(name) || self.out_of_time() { return }
        std::fs::write(std::env::var("STATUS").unwrap_or("/dev/null".into()), name).ok();
        let mut seen: HashSet<(bool, Vec<String>)> = HashSet::new();
        let b = self.budget;
        let t0 = Instant::now();
        let mut bad = 0;
        let mut execs = 0u64;
        let mut exhausted = true;
        let mut one = |me: &mut Run, strat: Strategy, post: bool, dfs: sched::DfsStack| -> (sched::DfsStack, bool) {
            reset_reg();
            beat();
            let s = mk();
            let weak = matches!(&strat, Strategy::Rand { stale: 1.., .. } | Strategy::Pct { stale: 1.., .. });
            let what = match &strat { Strategy::Dfs { .. } => "dfs".to_string(), Strategy::Rand { seed, .. } => format!("rand:{}", seed), Strategy::Pct { seed, .. } => format!("pct:{}", seed) };
            let o = sched::run(strat, post, dfs, s.threads);
            let mut log = o.log;
            if o.leaked { std::mem::forget(s.fin) } else {
                if let Some(f) = s.fin { f() }
                if cfg.contains("\"pool\"") { log.push(E::new("end").done()) }
                let lw = sweep_wakers(true);
                let (l, d) = drops();
                if !d.is_empty() || !l.is_empty() || lw != 0 { log.push(E::new("drops").seq("leak", &l).seq("dbl", &d).n("wakers", lw).done()) }
            }
            if o.leaked { sweep_wakers(false); }
            let ev = resolve(&log);
            me.out.execs += 1;
            execs += 1;
            me.out.steps += o.steps as u64;
            let mut isbad = o.leaked;
            for l in &ev { if l.starts_with("{\"e\":\"panic\"") || l.starts_with("{\"e\":\"race\"") || l.starts_with("{\"e\":\"corrupt\"") || l.starts_with("{\"e\":\"drops\"") { isbad = true } }
            if seen.insert((weak, ev.clone())) {
                let x = format!("{} sched={}", what, o.sched.iter().map(|c| (b'a' + c) as char).collect::<String>());
                me.emit(name, &format!("{},\"weak\":{}}}", &cfg[..cfg.len() - 1], weak), &ev, &x);
            }
            (o.dfs, isbad)
        };
        for (bound, post) in (0..=b.bound).map(|b| (b, false)).chain((1..=b.bound).map(|b| (b, true))) {
            if post && !sched::HOOKED { break }
            let cap = if post { b.dfs / 2 } else { b.dfs };
            let tcap = if post { 1.5 } else { 1.0 } * b.secs;
            let mut dfs = sched::DfsStack::default();
            let mut n = 0;
            loop {
                let (d, isbad) = one(self, Strategy::Dfs { bound, stale: 0 }, post, dfs);
                dfs = d;
                n += 1;
                if isbad { bad += 1 }
                if bad > 4 { break }
                if !dfs.advance() { break }
                if n >= cap || self.out_of_time() || t0.elapsed().as_secs_f64() > tcap { exhausted = false; break }
            }
            if bad > 4 { break }
        }
        if !exhausted || b.rand > 0 {
            for i in 0..b.rand {
                if bad > 4 || self.out_of_time() || t0.elapsed().as_secs_f64() > 2.5 * b.secs { break }
                let seed = self.seed.wrapping_mul(1_000_003).wrapping_add(i * 7919 + name.bytes().fold(0u64, |h, c| h.wrapping_mul(31).wrapping_add(c as u64)));
                let strat = if i % 2 == 0 { Strategy::Rand { seed, switch: [5, 20, 50][(i / 4 % 3) as usize], stale: 0 } } else { Strategy::Pct { seed, depth: 1 + (i / 2 % 3) as u32, len: 120, stale: 0 } };
                let (_, isbad) = one(self, strat, i % 4 >= 2, Default::default());
                if isbad { bad += 1 }
            }
        }
        if b.stale > 0 && sched::HOOKED {
            for i in 0..b.stale {
                if bad > 4 || self.out_of_time() || t0.elapsed().as_secs_f64() > 3.5 * b.secs { break }
                let seed = self.seed.wrapping_mul(7_777_777).wrapping_add(i * 104729 + 13);
                let strat = if i % 2 == 0 { Strategy::Rand { seed, switch: [10, 30][(i / 4 % 2) as usize], stale: 3 } } else { Strategy::Pct { seed, depth: 1 + (i / 2 % 3) as u32, len: 120, stale: 2 } };
                let (_, isbad) = one(self, strat, i % 4 >= 2, Default::default());
                if isbad { bad += 1 }
            }
        }
        let line = format!("{{\"scenario\":\"{}\",\"execs\":{},\"traces\":{},\"exhausted\":{},\"nondet\":{},\"secs\":{:.2}}}", name, execs, seen.len(), exhausted, sched::NONDET.swap(false, Ordering::Relaxed), t0.elapsed().as_secs_f64());
        self.out.stats.push(line);
    }
}
pub fn arc<T>(t: T) -> Arc<T> { Arc::new(t) }
