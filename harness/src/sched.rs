//! Controlled scheduler: managed OS threads run one at a time; every hooked operation, every
//! waker operation and every harness step is a scheduling point. Also tracks happens-before
//! (vector clocks) and, on request, lets plain loads return stale values the memory model allows.
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Load, Store, Rmw, Fence, Lock, TryLock, Unlock, Send, Recv, User }

#[derive(Clone, Default)]
pub struct Clock { vc: Vec<u32>, view: BTreeMap<usize, usize> }
impl Clock {
    fn join(&mut self, o: &Clock) {
        if self.vc.len() < o.vc.len() { self.vc.resize(o.vc.len(), 0) }
        for (a, b) in self.vc.iter_mut().zip(&o.vc) { *a = (*a).max(*b) }
        for (k, v) in &o.view { let e = self.view.entry(*k).or_insert(0); *e = (*e).max(*v) }
    }
}
/// A point in one managed thread's execution.
#[derive(Clone, Copy, Debug)]
pub struct Stamp { tid: usize, t: u32, epoch: u64 }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Status { Runnable, Blocked(usize), Parked, Yielded, Waiting(u64), Finished }

struct Th {
    status: Status,
    go: Arc<AtomicBool>,
    handle: std::thread::Thread,
    token: bool,
    token_clk: Clock,
    clk: Clock,
    facq: Clock,
    frel: Option<Arc<Clock>>,
    cancelled: bool,
    spin: (usize, u64, u32),
    consec: u32,
    label: &'static str,
}

struct Entry { val: u64, clk: Option<Arc<Clock>> }
struct Loc { base: usize, hist: Vec<Entry> }

#[derive(Clone)]
pub enum Strategy {
    /// Depth first with at most `bound` preemptions (and `stale` stale reads).
    Dfs { bound: u32, stale: u32 },
    Rand { seed: u64, switch: u32, stale: u32 },
    Pct { seed: u64, depth: u32, len: u32, stale: u32 },
}

#[derive(Default)]
pub struct DfsStack { st: Vec<(u32, u32)>, pos: usize }
impl DfsStack {
    /// Moves to the next path; false when exhausted.
    pub fn advance(&mut self) -> bool {
        while let Some((n, i)) = self.st.pop() {
            if i + 1 < n { self.st.push((n, i + 1)); self.pos = 0; return true }
        }
        self.pos = 0;
        false
    }
    fn choose(&mut self, n: u32) -> u32 {
        let r = if self.pos < self.st.len() {
            let (m, i) = self.st[self.pos];
            // Non-deterministic replay would show as a different arity; fall back safely.
            if m != n { NONDET.store(true, Ordering::Relaxed); self.st.truncate(self.pos); self.st.push((n, 0)); 0 } else { i }
        } else { self.st.push((n, 0)); 0 };
        self.pos += 1;
        r
    }
}
pub static NONDET: AtomicBool = AtomicBool::new(false);

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u32) -> u32 { (self.next() % n.max(1) as u64) as u32 }
    pub fn chance(&mut self, num: u32, den: u32) -> bool { self.below(den) < num }
}

struct St {
    epoch: u64,
    active: bool,
    threads: Vec<Th>,
    current: usize,
    strat: Strategy,
    dfs: DfsStack,
    rng: Rng,
    prio: Vec<u64>,
    change: Vec<u32>,
    steps: u32,
    preempt: u32,
    stale: u32,
    /// Also (depth first: instead) switch right after an operation, so that unhooked accesses that
    /// follow it can be overtaken.
    post: bool,
    locs: HashMap<usize, Loc>,
    locks: HashMap<usize, Clock>,
    scfence: Clock,
    log: Vec<String>,
    quiesced: bool,
    done: bool,
    overflow: bool,
    woken: HashMap<u64, Clock>,
    next_waker: u64,
    sched_log: Vec<u8>,
}

struct Global { m: Mutex<Option<St>>, cv: Condvar }
static G: Global = Global { m: Mutex::new(None), cv: Condvar::new() };
static EPOCH: AtomicU64 = AtomicU64::new(0);
static STEPS_TOTAL: AtomicU64 = AtomicU64::new(0);
thread_local!(static ME: Cell<Option<(usize, u64)>> = const { Cell::new(None) });
pub const MAX_STEPS: u32 = 30_000;

fn lock() -> MutexGuard<'static, Option<St>> { G.m.lock().unwrap_or_else(|e| e.into_inner()) }
pub fn me() -> Option<usize> {
    ME.try_with(|m| m.get()).ok().flatten().and_then(|(t, e)| if e == EPOCH.load(Ordering::Relaxed) { Some(t) } else { stuck_forever() })
}
/// A managed thread of an abandoned execution never runs again.
/// Payload of the unwinding of a thread that was still parked at the end of a run.
pub struct Cancelled;
fn stuck_forever() -> ! { loop { std::thread::park() } }

fn wait_go(go: &AtomicBool) { while !go.swap(false, Ordering::Acquire) { std::thread::park() } }

impl St {
    fn enabled(&mut self) -> Vec<usize> {
        let v: Vec<usize> = (0..self.threads.len()).filter(|&i| self.threads[i].status == Status::Runnable).collect();
        if !v.is_empty() { return v }
        let y: Vec<usize> = (0..self.threads.len()).filter(|&i| self.threads[i].status == Status::Yielded).collect();
        for &i in &y { self.threads[i].status = Status::Runnable }
        y
    }
    fn pick(&mut self, me: usize) -> Option<usize> {
        let mut en = self.enabled();
        if en.is_empty() { return None }
        let cur = self.threads[me].status == Status::Runnable;
        if en.len() == 1 { return Some(en[0]) }
        let r = match self.strat.clone() {
            Strategy::Dfs { bound, .. } => {
                if cur {
                    if self.preempt >= bound { return Some(me) }
                    en.retain(|&x| x != me);
                    en.insert(0, me);
                }
                let i = self.dfs.choose(en.len() as u32) as usize;
                if cur && i > 0 { self.preempt += 1 }
                en[i]
            }
            Strategy::Rand { switch, .. } => {
                if cur && !self.rng.chance(switch, 100) { me } else { en[self.rng.below(en.len() as u32) as usize] }
            }
            Strategy::Pct { .. } => {
                while self.prio.len() < self.threads.len() { let p = self.rng.next() | 1 << 63; self.prio.push(p) }
                if self.change.first().map_or(false, |&c| self.steps >= c) {
                    self.change.remove(0);
                    self.prio[me] = self.change.len() as u64;
                }
                let mut best = en[0];
                for &t in &en { if self.prio[t] > self.prio[best] { best = t } }
                best
            }
        };
        Some(r)
    }
    fn tick(&mut self, me: usize) {
        let c = &mut self.threads[me].clk.vc;
        if c.len() <= me { c.resize(me + 1, 0) }
        c[me] += 1;
    }
    fn loc(&mut self, addr: usize, cur: u64) -> &mut Loc {
        let l = self.locs.entry(addr).or_insert_with(|| Loc { base: 0, hist: vec![Entry { val: cur, clk: None }] });
        if l.hist.last().unwrap().val != cur {
            // changed by an unmanaged access; start over
            let b = l.base + l.hist.len();
            *l = Loc { base: b, hist: vec![Entry { val: cur, clk: None }] };
        }
        l
    }
}

/// Runs the scheduler from managed thread `me`, which may or may not be runnable.
fn reschedule(me: usize, mut g: MutexGuard<'static, Option<St>>) {
    let st = g.as_mut().unwrap();
    match st.pick(me) {
        Some(n) if n == me => { st.threads[me].consec += 1; }
        Some(n) => {
            st.current = n;
            st.threads[n].consec = 0;
            st.sched_log.push(n as u8);
            let (go, h) = (st.threads[n].go.clone(), st.threads[n].handle.clone());
            let mygo = st.threads[me].go.clone();
            let fin = st.threads[me].status == Status::Finished;
            let epoch = st.epoch;
            drop(g);
            go.store(true, Ordering::Release);
            h.unpark();
            if !fin {
                wait_go(&mygo);
                if EPOCH.load(Ordering::Relaxed) != epoch { stuck_forever() }
            }
        }
        None => quiesce(me, g),
    }
}

fn quiesce(me: usize, mut g: MutexGuard<'static, Option<St>>) {
    let st = g.as_mut().unwrap();
    let fin = st.threads[me].status == Status::Finished;
    let all = st.threads.iter().all(|t| t.status == Status::Finished);
    if !all && !st.quiesced {
        st.quiesced = true;
        for i in 0..st.threads.len() {
            let t = &st.threads[i];
            let what = match t.status {
                Status::Finished => continue,
                Status::Waiting(_) => "wake",
                Status::Blocked(_) => "lock",
                Status::Parked => "park",
                _ => "other",
            };
            let l = format!("{{\"e\":\"blocked\",\"t\":{},\"k\":\"{}\",\"op\":\"{}\"}}", i, what, t.label);
            st.log.push(l);
        }
    }
    if !all {
        let mut any = false;
        for t in &mut st.threads {
            if matches!(t.status, Status::Waiting(_) | Status::Parked) && !t.cancelled { t.cancelled = true; t.status = Status::Runnable; any = true }
        }
        if any { return reschedule(me, g) }
        for i in 0..st.threads.len() {
            if st.threads[i].status != Status::Finished {
                let l = format!("{{\"e\":\"stuck\",\"t\":{}}}", i);
                st.log.push(l);
            }
        }
    }
    st.done = true;
    let go = st.threads[me].go.clone();
    let epoch = st.epoch;
    G.cv.notify_all();
    drop(g);
    if !fin { wait_go(&go); if EPOCH.load(Ordering::Relaxed) != epoch { stuck_forever() } }
}

/// A scheduling point. Returns false if the calling thread is not managed.
pub fn point_at(addr: usize, kind: Kind) -> bool {
    let Some(me) = me() else { return false };
    let mut g = lock();
    let Some(st) = g.as_mut() else { return false };
    if st.done { drop(g); stuck_forever() }
    st.steps += 1;
    STEPS_TOTAL.fetch_add(1, Ordering::Relaxed);
    if st.steps > MAX_STEPS {
        if !st.overflow {
            st.overflow = true;
            let l = format!("{{\"e\":\"livelock\",\"t\":{}}}", me);
            st.log.push(l);
        }
        st.done = true;
        G.cv.notify_all();
        drop(g);
        stuck_forever()
    }
    // A thread that keeps re-reading one location spins: let others run.
    let sp = &mut st.threads[me].spin;
    if kind == Kind::Load && sp.0 == addr { sp.2 += 1 } else if kind == Kind::Load { *sp = (addr, 0, 0) } else { sp.2 = 0; sp.0 = 0 }
    if sp.2 > 6 || st.threads[me].consec > 2000 {
        st.threads[me].spin = (0, 0, 0);
        st.threads[me].consec = 0;
        st.threads[me].status = Status::Yielded;
    }
    if st.post && matches!(kind, Kind::Load | Kind::Store | Kind::Rmw) && matches!(st.strat, Strategy::Dfs { .. }) && st.threads[me].status == Status::Runnable {
        st.tick(me);
        return true
    }
    reschedule(me, g);
    if let Some(st) = lock().as_mut() { if st.threads[me].status == Status::Yielded { st.threads[me].status = Status::Runnable } st.tick(me) }
    true
}
/// A scheduling point right after an operation.
fn after() {
    let Some(me) = me() else { return };
    let mut g = lock();
    let Some(st) = g.as_mut() else { return };
    if !st.post || st.done { return }
    st.steps += 1;
    STEPS_TOTAL.fetch_add(1, Ordering::Relaxed);
    reschedule(me, g);
}
pub fn point() { point_at(0, Kind::User); }

pub fn yield_now() -> bool {
    let Some(me) = me() else { return false };
    let mut g = lock();
    let st = g.as_mut().unwrap();
    st.steps += 1;
    st.threads[me].status = Status::Yielded;
    reschedule(me, g);
    if let Some(st) = lock().as_mut() { if st.threads[me].status == Status::Yielded { st.threads[me].status = Status::Runnable } }
    // count towards the step limit
    point();
    true
}
fn acq(o: Ordering) -> bool { matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) }
fn rel(o: Ordering) -> bool { matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) }

pub struct Rt;
pub mod ops {
    use super::*;
    pub fn load(addr: usize, ord: Ordering, actual: u64) -> u64 {
        let Some(me) = me() else { return actual };
        let mut g = lock();
        let st = g.as_mut().unwrap();
        let budget = match st.strat { Strategy::Dfs { stale, .. } | Strategy::Rand { stale, .. } | Strategy::Pct { stale, .. } => stale };
        let min = st.threads[me].clk.view.get(&addr).copied().unwrap_or(0);
        let used = st.stale;
        let l = st.loc(addr, actual);
        let last = l.base + l.hist.len() - 1;
        let lo = min.max(l.base);
        let mut idx = last;
        if ord != Ordering::SeqCst && used < budget && lo < last {
            let n = (last - lo + 1) as u32;
            let k = match st.strat {
                Strategy::Dfs { .. } => st.dfs.choose(n),
                _ => if st.rng.chance(1, 4) { st.rng.below(n) } else { 0 },
            };
            idx = last - k as usize;
            if k > 0 { st.stale += 1 }
        }
        let l = st.locs.get(&addr).unwrap();
        let e = &l.hist[idx - l.base];
        let (v, c) = (e.val, e.clk.clone());
        let t = &mut st.threads[me];
        let w = t.clk.view.entry(addr).or_insert(0);
        *w = (*w).max(idx);
        if let Some(c) = c { if acq(ord) { t.clk.join(&c) } else { t.facq.join(&c) } }
        v
    }
    fn push(st: &mut St, me: usize, addr: usize, ord: Ordering, old: u64, new: u64, rmw: bool) {
        let t = &st.threads[me];
        let mut c: Option<Arc<Clock>> = t.frel.clone();
        let l = st.loc(addr, old);
        let prev = l.hist.last().unwrap().clk.clone();
        let idx = l.base + l.hist.len();
        let t = &mut st.threads[me];
        t.clk.view.insert(addr, idx);
        if rel(ord) { c = Some(Arc::new(t.clk.clone())) }
        if rmw { if let Some(p) = prev {
            c = Some(match c { None => p, Some(c) => { let mut x = (*c).clone(); x.join(&p); Arc::new(x) } })
        } }
        let l = st.locs.get_mut(&addr).unwrap();
        l.hist.push(Entry { val: new, clk: c });
        if l.hist.len() > 4 { l.hist.remove(0); l.base += 1 }
    }
    pub fn store(addr: usize, ord: Ordering, old: u64, new: u64) {
        let Some(me) = me() else { return };
        let mut g = lock();
        push(g.as_mut().unwrap(), me, addr, ord, old, new, false);
    }
    pub fn rmw(addr: usize, ord: Ordering, old: u64, new: Option<u64>) {
        let Some(me) = me() else { return };
        let mut g = lock();
        let st = g.as_mut().unwrap();
        let l = st.loc(addr, old);
        let idx = l.base + l.hist.len() - 1;
        let c = l.hist.last().unwrap().clk.clone();
        let t = &mut st.threads[me];
        let w = t.clk.view.entry(addr).or_insert(0);
        *w = (*w).max(idx);
        if let Some(c) = c { if acq(ord) { t.clk.join(&c) } else { t.facq.join(&c) } }
        if let Some(n) = new { push(st, me, addr, ord, old, n, true) }
    }
    pub fn fence(ord: Ordering) {
        let Some(me) = me() else { return };
        let mut g = lock();
        let st = g.as_mut().unwrap();
        let t = &mut st.threads[me];
        if acq(ord) { let f = t.facq.clone(); t.clk.join(&f) }
        if ord == Ordering::SeqCst { let s = st.scfence.clone(); t.clk.join(&s); st.scfence.join(&t.clk) }
        if rel(ord) { t.frel = Some(Arc::new(t.clk.clone())) }
    }
    pub fn acquired(addr: usize) {
        let Some(me) = me() else { return };
        let mut g = lock();
        let st = g.as_mut().unwrap();
        if let Some(c) = st.locks.get(&addr).cloned() { st.threads[me].clk.join(&c) }
    }
    pub fn released(addr: usize) {
        let mut g = lock();
        let Some(st) = g.as_mut() else { return };
        if let Some(me) = me() {
            let c = st.threads[me].clk.clone();
            st.locks.entry(addr).or_default().join(&c);
        }
        for t in &mut st.threads { if t.status == Status::Blocked(addr) { t.status = Status::Runnable } }
    }
    pub fn block(addr: usize) {
        let Some(me) = me() else { std::thread::yield_now(); return };
        let mut g = lock();
        let st = g.as_mut().unwrap();
        st.threads[me].status = Status::Blocked(addr);
        reschedule(me, g);
    }
    pub fn park() -> bool {
        let Some(me) = me() else { return false };
        point();
        let mut g = lock();
        let st = g.as_mut().unwrap();
        if !st.threads[me].token {
            st.threads[me].status = Status::Parked;
            reschedule(me, g);
            g = lock();
            // The run is over: leave what the thread was doing.
            if g.as_ref().unwrap().threads[me].cancelled { drop(g); std::panic::resume_unwind(Box::new(Cancelled)) }
        }
        let st = g.as_mut().unwrap();
        let t = &mut st.threads[me];
        t.token = false;
        let c = std::mem::take(&mut t.token_clk);
        t.clk.join(&c);
        true
    }
    pub fn unpark(tid: u64) -> bool {
        point();
        let mut g = lock();
        let Some(st) = g.as_mut() else { return true };
        if (tid >> 16) != st.epoch { return true }
        let t = (tid & 0xffff) as usize;
        if let Some(me) = me() { let c = st.threads[me].clk.clone(); st.threads[t].token_clk.join(&c) }
        st.threads[t].token = true;
        if st.threads[t].status == Status::Parked { st.threads[t].status = Status::Runnable }
        true
    }
    pub fn current() -> Option<u64> { me().map(|t| EPOCH.load(Ordering::Relaxed) << 16 | t as u64) }
    pub fn spawn(f: Box<dyn FnOnce() + Send>) -> Result<(), Box<dyn FnOnce() + Send>> {
        if lock().as_ref().map_or(true, |s| !s.active) { return Err(f) }
        let parent = me();
        if parent.is_none() { return Err(f) }
        add_thread(parent, Box::new(move |_| f()));
        point();
        Ok(())
    }
    pub fn forget(addr: usize) {
        if me().is_none() { return }
        if let Some(st) = lock().as_mut() { st.locs.remove(&addr); for t in &mut st.threads { t.clk.view.remove(&addr); } }
    }
}

fn add_thread(parent: Option<usize>, f: Box<dyn FnOnce(usize) + Send>) -> usize {
    let (tx, rx) = std::sync::mpsc::channel();
    let epoch = EPOCH.load(Ordering::Relaxed);
    let go = Arc::new(AtomicBool::new(false));
    let go2 = go.clone();
    let jh = std::thread::Builder::new().stack_size(512 << 10).spawn(move || {
        let tid: usize = rx.recv().unwrap();
        wait_go(&go2);
        ME.with(|m| m.set(Some((tid, epoch))));
        let r = catch_unwind(AssertUnwindSafe(|| f(tid)));
        if EPOCH.load(Ordering::Relaxed) != epoch { stuck_forever() }
        if let Err(p) = r {
            let m = panic_text(&*p);
            log(format!("{{\"e\":\"panic\",\"t\":{},\"m\":{:?}}}", tid, m));
        }
        point();
        let mut g = lock();
        let st = g.as_mut().unwrap();
        st.threads[tid].status = Status::Finished;
        ME.with(|m| m.set(None));
        reschedule(tid, g);
    }).unwrap();
    let mut g = lock();
    let st = g.as_mut().unwrap();
    let tid = st.threads.len();
    let mut clk = parent.map(|p| st.threads[p].clk.clone()).unwrap_or_default();
    if clk.vc.len() <= tid { clk.vc.resize(tid + 1, 0) }
    clk.vc[tid] += 1;
    st.threads.push(Th { status: Status::Runnable, go, handle: jh.thread().clone(), token: false, token_clk: Clock::default(), clk, facq: Clock::default(), frel: None, cancelled: false, spin: (0, 0, 0), consec: 0, label: "" });
    tx.send(tid).unwrap();
    tid
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    let s = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() };
    s.chars().filter(|c| c.is_ascii() && *c != '"' && *c != '\\' && !c.is_control()).take(160).collect()
}

pub fn log(l: String) { if let Some(st) = lock().as_mut() { st.log.push(l) } }
pub fn label(l: &'static str) { if let Some(me) = me() { if let Some(st) = lock().as_mut() { st.threads[me].label = l } } }
pub fn stamp() -> Stamp {
    let Some(me) = me() else { return Stamp { tid: usize::MAX, t: 0, epoch: 0 } };
    let mut g = lock();
    let st = g.as_mut().unwrap();
    st.tick(me);
    Stamp { tid: me, t: st.threads[me].clk.vc[me], epoch: st.epoch }
}
/// Does the stamped point happen before this point of the calling thread?
pub fn hb(s: Stamp) -> bool {
    let Some(me) = me() else { return true };
    let g = lock();
    let st = g.as_ref().unwrap();
    s.epoch != st.epoch || st.threads[me].clk.vc.get(s.tid).copied().unwrap_or(0) >= s.t
}
/// A choice owned by the exploration strategy.
pub fn choose(n: u32) -> u32 {
    let mut g = lock();
    let Some(st) = g.as_mut() else { return 0 };
    match st.strat { Strategy::Dfs { .. } => st.dfs.choose(n), _ => st.rng.below(n) }
}
pub fn quiesced() -> bool { lock().as_ref().map_or(false, |s| s.quiesced) }

// ---- wakers -------------------------------------------------------------------------------
pub fn new_waker_id() -> u64 { let mut g = lock(); match g.as_mut() { Some(s) => { s.next_waker += 1; s.next_waker } None => 0 } }
pub fn mark_woken(id: u64) {
    let mut g = lock();
    let Some(st) = g.as_mut() else { return };
    let c = me().map(|m| st.threads[m].clk.clone()).unwrap_or_default();
    st.woken.entry(id).or_default().join(&c);
    for t in &mut st.threads { if t.status == Status::Waiting(id) { t.status = Status::Runnable } }
}
pub fn is_woken(id: u64) -> bool { lock().as_ref().map_or(false, |s| s.woken.contains_key(&id)) }
/// Blocks until waker `id` was woken. False: the execution is over, give up.
pub fn wait_woken(id: u64) -> bool {
    let Some(me) = me() else { return false };
    let mut g = lock();
    let st = g.as_mut().unwrap();
    if st.threads[me].cancelled { return false }
    // Already woken: back to the end of the run queue, as an executor would do.
    st.threads[me].status = if st.woken.contains_key(&id) { Status::Yielded } else { Status::Waiting(id) };
    reschedule(me, g);
    g = lock();
    let st = g.as_mut().unwrap();
    if st.threads[me].status == Status::Yielded { st.threads[me].status = Status::Runnable }
    let st = g.as_mut().unwrap();
    if st.threads[me].cancelled { return false }
    if let Some(c) = st.woken.get(&id).cloned() { st.threads[me].clk.join(&c) }
    true
}

pub struct Outcome { pub log: Vec<String>, pub dfs: DfsStack, pub steps: u32, pub leaked: bool, pub quiesced: bool, pub sched: Vec<u8> }

/// One execution. `threads` are the programs of the managed threads.
pub fn run(strat: Strategy, post: bool, dfs: DfsStack, threads: Vec<Box<dyn FnOnce(usize) + Send>>) -> Outcome {
    let epoch = EPOCH.fetch_add(1, Ordering::SeqCst) + 1;
    let (mut rng, mut change) = (Rng(0), vec![]);
    match strat {
        Strategy::Rand { seed, .. } => rng = Rng(seed),
        Strategy::Pct { seed, depth, len, .. } => {
            rng = Rng(seed);
            change = (0..depth).map(|_| rng.below(len)).collect();
            change.sort();
        }
        _ => {}
    }
    {
        let mut g = lock();
        *g = Some(St { epoch, active: true, threads: vec![], current: 0, strat, dfs, rng, prio: vec![], change, steps: 0, preempt: 0, stale: 0, post,
            locs: HashMap::new(), locks: HashMap::new(), scfence: Clock::default(), log: vec![], quiesced: false, done: false, overflow: false,
            woken: HashMap::new(), next_waker: 0, sched_log: vec![] });
    }
    for f in threads { add_thread(None, f); }
    // initial decision
    let (go, h) = {
        let mut g = lock();
        let st = g.as_mut().unwrap();
        let n = st.threads.len() as u32;
        let first = match st.strat { Strategy::Dfs { .. } => if n > 1 { st.dfs.choose(n) } else { 0 }, _ => st.rng.below(n) } as usize;
        st.current = first;
        st.sched_log.push(first as u8);
        (st.threads[first].go.clone(), st.threads[first].handle.clone())
    };
    go.store(true, Ordering::Release);
    h.unpark();
    let mut g = lock();
    let mut last = (0u64, Instant::now());
    while !g.as_ref().unwrap().done {
        let (g2, _) = G.cv.wait_timeout(g, Duration::from_millis(500)).unwrap_or_else(|e| e.into_inner());
        g = g2;
        let s = STEPS_TOTAL.load(Ordering::Relaxed);
        if s != last.0 { last = (s, Instant::now()) }
        if last.1.elapsed() > Duration::from_secs(20) {
            let st = g.as_mut().unwrap();
            let c = st.current;
            st.log.push(format!("{{\"e\":\"hang\",\"t\":{}}}", c));
            st.done = true;
        }
    }
    let st = g.take().unwrap();
    drop(g);
    let leaked = st.threads.iter().any(|t| t.status != Status::Finished);
    EPOCH.fetch_add(1, Ordering::SeqCst);
    Outcome { log: st.log, dfs: st.dfs, steps: st.steps, leaked, quiesced: st.quiesced, sched: st.sched_log }
}

#[cfg(futures_verif)]
mod glue {
    use super::*;
    use futures_core::__verif as v;
    impl v::Runtime for Rt {
        fn before(&self, addr: usize, kind: v::Kind) -> bool {
            let k = match kind { v::Kind::Load => Kind::Load, v::Kind::Store => Kind::Store, v::Kind::Rmw => Kind::Rmw, v::Kind::Fence => Kind::Fence,
                v::Kind::Lock => Kind::Lock, v::Kind::TryLock => Kind::TryLock, v::Kind::Unlock => Kind::Unlock, v::Kind::Send => Kind::Send, v::Kind::Recv => Kind::Recv };
            point_at(addr, k)
        }
        fn load(&self, addr: usize, ord: Ordering, actual: u64) -> u64 { let v = ops::load(addr, ord, actual); after(); v }
        fn store(&self, addr: usize, ord: Ordering, old: u64, new: u64) { ops::store(addr, ord, old, new); after() }
        fn rmw(&self, addr: usize, ord: Ordering, old: u64, new: Option<u64>) { ops::rmw(addr, ord, old, new); after() }
        fn fence(&self, ord: Ordering) { ops::fence(ord) }
        fn acquired(&self, addr: usize) { ops::acquired(addr) }
        fn released(&self, addr: usize) { ops::released(addr); after() }
        fn block(&self, addr: usize) { ops::block(addr) }
        fn yield_now(&self) -> bool { yield_now() }
        fn park(&self) -> bool { ops::park() }
        fn current(&self) -> Option<u64> { ops::current() }
        fn unpark(&self, t: u64) -> bool { ops::unpark(t) }
        fn spawn(&self, _: Option<String>, f: Box<dyn FnOnce() + Send>) -> Result<(), Box<dyn FnOnce() + Send>> { ops::spawn(f) }
        fn forget(&self, addr: usize) { ops::forget(addr) }
    }
    pub fn install() { v::install(&Rt) }
    pub const HOOKED: bool = true;
}
#[cfg(not(futures_verif))]
mod glue {
    pub fn install() {}
    pub const HOOKED: bool = false;
}
pub use glue::{install, HOOKED};
