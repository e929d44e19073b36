//! Wakers made from `ArcWake` objects, the counting / panicking / inert wakers, and recording spawners.
use super::*;
use futures_task::{noop_waker, noop_waker_ref, waker, waker_ref, ArcWake, FutureObj, LocalFutureObj, LocalSpawn, Spawn};
use futures_test::task::{new_count_waker, panic_waker, panic_waker_ref, AwokenCount, NoopSpawner, PanicSpawner, RecordSpawner};
use futures_util::compat::{Executor01CompatExt, Executor01Future, Future01CompatExt};
use futures_channel::{mpsc, oneshot};
use futures_util::future::{self, FutureExt, Shared, WeakShared};
use std::any::Any;
use std::sync::Weak;

/// Counts wakes; `B` overrides `wake` as well.
type Cnt = Arc<(AtomicI64, AtomicI64)>;
struct A1 { n: Cnt, _g: Pay }
impl ArcWake for A1 { fn wake_by_ref(s: &Arc<Self>) { s.n.0.fetch_add(1, Ordering::SeqCst); } }
struct B1 { n: Cnt, _g: Pay }
impl ArcWake for B1 { fn wake_by_ref(s: &Arc<Self>) { s.n.0.fetch_add(1, Ordering::SeqCst); } fn wake(self: Arc<Self>) { self.n.1.fetch_add(1, Ordering::SeqCst); } }
/// `AW`, `BW`: the maker has let go; only the wakers keep the object alive.
enum Obj { A(Arc<A1>), B(Arc<B1>), AW(Weak<A1>, Cnt), BW(Weak<B1>, Cnt), Count(AwokenCount), Std }
impl Obj {
    fn see(&self) -> (i64, i64, i64) { match self {
        Obj::A(a) => (Arc::strong_count(a) as i64 - 1, a.n.0.load(Ordering::SeqCst), a.n.1.load(Ordering::SeqCst)),
        Obj::B(a) => (Arc::strong_count(a) as i64 - 1, a.n.0.load(Ordering::SeqCst), a.n.1.load(Ordering::SeqCst)),
        Obj::AW(a, n) => (a.strong_count() as i64, n.0.load(Ordering::SeqCst), n.1.load(Ordering::SeqCst)),
        Obj::BW(a, n) => (a.strong_count() as i64, n.0.load(Ordering::SeqCst), n.1.load(Ordering::SeqCst)),
        Obj::Count(c) => (-1, c.get() as i64, (*c == c.get() && !(*c == c.get() + 1)) as i64 - 1), Obj::Std => (-1, 0, 0) } }
    fn tag(&self) -> &'static str { match self { Obj::A(_) | Obj::AW(..) => "a", Obj::B(_) | Obj::BW(..) => "b", Obj::Count(_) => "count", Obj::Std => "std" } }
}
/// Uses wakers in any order; one step is one operation.
struct User { obj: Vec<Option<Obj>>, h: Vec<Option<(usize, Waker)>>, left: u32 }
impl User {
    fn live(&self) -> Vec<usize> { self.h.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect() }
    /// What every object says.
    fn see(&self) { for (i, o) in self.obj.iter().enumerate() { if let Some(o) = o { let (c, r, v) = o.see(); log(E::new("see").n("o", i as i64).n("c", c).n("r", r).n("v", v)) } } }
    fn add(&mut self, o: usize, w: Waker) -> i64 { self.h.push(Some((o, w))); self.h.len() as i64 - 1 }
}
fn ev(op: &str, h: i64, o: i64, x: i64, r: bool) { log(E::new("op").s("op", op).n("h", h).n("o", o).n("x", x).b("r", r)) }
fn panics(f: impl FnOnce()) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
impl Ad for User {
    fn poll(&mut self, _: &mut Context<'_>) -> Poll<R> {
        if self.left == 0 {
            for h in 0..self.h.len() { if let Some((o, w)) = self.h[h].take() { drop(w); ev("drop", h as i64, o as i64, 0, false) } }
            self.see();
            for o in 0..self.obj.len() { self.obj[o] = None }
            return Poll::Ready(R { r: "none", v: vec![] });
        }
        self.left -= 1;
        let arcs: Vec<usize> = self.obj.iter().enumerate().filter(|x| matches!(x.1, Some(Obj::A(_) | Obj::B(_)))).map(|x| x.0).collect();
        let live = self.live();
        let mut ops = vec!["make"];
        if !arcs.is_empty() { ops.extend(["waker", "waker", "ref", "ref", "forget"]) }
        if !live.is_empty() { ops.extend(["clone", "clone", "wake", "wakeref", "wakeref", "drop", "will", "cfrom"]) }
        match ops[below(ops.len() as u32) as usize] {
            "make" => {
                if self.obj.len() > 4 { return Poll::Ready(R { r: "ok", v: vec![] }) }
                let o = self.obj.len();
                let (x, w) = match below(6) {
                    0 | 1 => (Obj::A(Arc::new(A1 { n: Default::default(), _g: pay() })), None), 2 | 3 => (Obj::B(Arc::new(B1 { n: Default::default(), _g: pay() })), None),
                    4 => { let (w, c) = new_count_waker(); (Obj::Count(c), Some(w)) }
                    _ => (Obj::Std, Some(if chance(10) { noop_waker() } else { noop_waker_ref().clone() })),
                };
                log(E::new("obj").n("o", o as i64).s("tag", x.tag()));
                self.obj.push(Some(x));
                if let Some(w) = w { let h = self.add(o, w); ev("waker", h, o as i64, 0, false) }
            }
            "waker" => { let o = arcs[below(arcs.len() as u32) as usize]; let w = match self.obj[o].as_ref().unwrap() { Obj::A(a) => waker(a.clone()), Obj::B(a) => waker(a.clone()), _ => unreachable!() }; let h = self.add(o, w); ev("waker", h, o as i64, 0, false) }
            "ref" => {
                let o = arcs[below(arcs.len() as u32) as usize];
                let x = self.obj[o].take().unwrap();
                let r = match &x { Obj::A(a) => waker_ref(a), Obj::B(a) => waker_ref(a), _ => unreachable!() };
                let (n, c) = (below(3), below(3));
                for _ in 0..n { r.wake_by_ref() }
                for _ in 0..n { ev("refwake", 0, o as i64, 0, false) }
                for _ in 0..c { let w = r.clone(); if chance(10) { let h = self.add(o, w); ev("waker", h, o as i64, 0, false) } else { w.wake_by_ref(); ev("refwake", 0, o as i64, 0, false) } }
                if chance(8) { let w: Waker = (*r).clone(); w.wake(); ev("refcw", 0, o as i64, 0, false) }
                drop(r);
                self.obj[o] = Some(x);
            }
            "forget" => { if chance(4) { let o = arcs[below(arcs.len() as u32) as usize]; let x = match self.obj[o].take() { Some(Obj::A(a)) => Obj::AW(Arc::downgrade(&a), a.n.clone()), Some(Obj::B(a)) => Obj::BW(Arc::downgrade(&a), a.n.clone()), _ => unreachable!() }; self.obj[o] = Some(x); ev("forget", 0, o as i64, 0, false) } }
            op => {
                let h = live[below(live.len() as u32) as usize];
                let o = self.h[h].as_ref().unwrap().0;
                match op {
                    "clone" => { let w = self.h[h].as_ref().unwrap().1.clone(); let x = self.add(o, w); ev("clone", h as i64, o as i64, x, false) }
                    "wake" => { let (_, w) = self.h[h].take().unwrap(); let r = panics(|| w.wake()); ev("wake", h as i64, o as i64, 0, r) }
                    "wakeref" => { let w = &self.h[h].as_ref().unwrap().1; let r = panics(|| w.wake_by_ref()); ev("wakeref", h as i64, o as i64, 0, r) }
                    "drop" => { let w = self.h[h].take(); let r = panics(|| drop(w)); ev("drop", h as i64, o as i64, 0, r) }
                    "will" => { let g = live[below(live.len() as u32) as usize]; let r = self.h[h].as_ref().unwrap().1.will_wake(&self.h[g].as_ref().unwrap().1); ev("will", h as i64, o as i64, g as i64, r) }
                    _ => { let g = live[below(live.len() as u32) as usize]; let w = self.h[g].as_ref().unwrap().1.clone(); let y = self.h[g].as_ref().unwrap().0; self.h[h].as_mut().unwrap().1.clone_from(&w); self.h[h].as_mut().unwrap().0 = y; drop(w); ev("cfrom", h as i64, y as i64, g as i64, false) }
                }
            }
        }
        self.see();
        Poll::Ready(R { r: "ok", v: vec![] })
    }
}
/// The spawners for tests.
struct Spawners { rec: RecordSpawner, n: i64, left: u32, fl: Vec<Arc<Pay>> }
struct Probe(i64, Arc<Pay>);
impl Future for Probe { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { log(E::new("ran").n("i", self.0)); let _ = &self.1; Poll::Ready(()) } }
impl Ad for Spawners {
    fn poll(&mut self, _: &mut Context<'_>) -> Poll<R> {
        if self.left == 0 { return Poll::Ready(R { r: "none", v: vec![] }) }
        self.left -= 1;
        let g = Arc::new(pay());
        let i = self.n;
        match below(5) {
            0 | 1 | 2 => {
                self.n += 1;
                let ok = self.rec.spawn_obj(FutureObj::new(Box::new(Probe(i, g.clone())))).is_ok() && self.rec.status().is_ok();
                log(E::new("spawned").s("to", "rec").b("ok", ok).n("n", self.rec.spawned().len() as i64).n("live", Arc::strong_count(&g) as i64 - 1));
                self.fl.push(g);
            }
            3 => { let mut s = NoopSpawner::new(); let ok = if chance(10) { s.spawn_obj(FutureObj::new(Box::new(Probe(-1, g.clone())))).is_ok() } else { let r: &mut dyn Spawn = &mut s; r.spawn_obj(FutureObj::new(Box::new(Probe(-1, g.clone())))).is_ok() }; log(E::new("spawned").s("to", "noop").b("ok", ok).n("n", 0).n("live", Arc::strong_count(&g) as i64 - 1)) }
            _ => { let s = PanicSpawner::new(); let p = panics(|| { let _ = s.spawn_obj(FutureObj::new(Box::new(Probe(-2, g.clone())))); }); log(E::new("spawned").s("to", "panic").b("ok", !p).n("n", 0).n("live", Arc::strong_count(&g) as i64 - 1)) }
        }
        Poll::Ready(R { r: "ok", v: vec![] })
    }
}
/// Spawning through every kind of reference reaches the spawner once, in order, and errors come back.
struct Via { q: Arc<std::sync::Mutex<Vec<LocalFutureObj<'static, ()>>>>, up: bool }
impl Spawn for Via { fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), futures_task::SpawnError> { if !self.up { return Err(futures_task::SpawnError::shutdown()) } self.q.lock().unwrap().push(f.into()); Ok(()) } fn status(&self) -> Result<(), futures_task::SpawnError> { if self.up { Ok(()) } else { Err(futures_task::SpawnError::shutdown()) } } }
impl LocalSpawn for Via { fn spawn_local_obj(&self, f: LocalFutureObj<'static, ()>) -> Result<(), futures_task::SpawnError> { if !self.up { return Err(futures_task::SpawnError::shutdown()) } self.q.lock().unwrap().push(f); Ok(()) } fn status_local(&self) -> Result<(), futures_task::SpawnError> { if self.up { Ok(()) } else { Err(futures_task::SpawnError::shutdown()) } } }
/// The same spawner as an executor of futures 0.1.
#[derive(Clone)]
struct Via01(Arc<Via>);
unsafe impl Send for Via01 {} // everything here stays on one thread
impl futures_01::future::Executor<Executor01Future> for Via01 { fn execute(&self, f: Executor01Future) -> Result<(), futures_01::future::ExecuteError<Executor01Future>> {
    if !self.0.up { return Err(futures_01::future::ExecuteError::new(if chance(10) { futures_01::future::ExecuteErrorKind::Shutdown } else { futures_01::future::ExecuteErrorKind::NoCapacity }, f)) }
    self.0.q.lock().unwrap().push(LocalFutureObj::new(Box::new(async move { let _ = f.compat().await; }))); Ok(()) } }
struct AVia { left: u32, n: i64, v: Option<Via> }
impl Ad for AVia {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        use futures::task::{LocalSpawnExt, SpawnExt};
        let v = self.v.as_mut().unwrap();
        if self.left == 0 {
            let q: Vec<_> = std::mem::take(&mut *v.q.lock().unwrap());
            for mut f in q { let _ = Pin::new(&mut f).poll(cx); }
            return Poll::Ready(R { r: "none", v: vec![] });
        }
        self.left -= 1;
        if chance(3) { v.up = !v.up }
        let g = Arc::new(pay());
        let (i, up) = (self.n, v.up);
        self.n += 1;
        let f = || Probe(i, g.clone());
        let mut st = true;
        let r: Result<(), futures_task::SpawnError> = match below(13) {
            0 => v.spawn_obj(FutureObj::new(Box::new(f()))), 1 => (&*v).spawn_obj(FutureObj::new(Box::new(f()))), 2 => (&mut *v).spawn_obj(FutureObj::new(Box::new(f()))),
            3 => { let s = Box::new(Via { q: v.q.clone(), up }); st = s.status().is_ok() == up; s.spawn_obj(FutureObj::new(Box::new(f()))) }
            4 => { let s = std::rc::Rc::new(Via { q: v.q.clone(), up }); st = s.status().is_ok() == up; s.spawn_obj(FutureObj::new(Box::new(f()))) }
            5 => { let s = Arc::new(Via { q: v.q.clone(), up }); st = s.status().is_ok() == up; s.spawn_obj(FutureObj::new(Box::new(f()))) }
            6 => { st = (&*v).status_local().is_ok() == up; (&*v).spawn_local_obj(LocalFutureObj::new(Box::new(f()))) }
            7 => { let s = std::rc::Rc::new(Via { q: v.q.clone(), up }); st = s.status_local().is_ok() == up; s.spawn_local_obj(LocalFutureObj::new(Box::new(f()))) }
            8 => { let s = Arc::new(Via { q: v.q.clone(), up }); st = s.status_local().is_ok() == up; s.spawn_local_obj(LocalFutureObj::new(Box::new(f()))) }
            9 => { let s = Box::new(Via { q: v.q.clone(), up }); st = s.status_local().is_ok() == up; s.spawn_local_obj(LocalFutureObj::new(Box::new(f()))) }
            10 => v.spawn(f()), 11 => v.spawn_local(f()),
            _ => { let s = Executor01CompatExt::compat(Via01(Arc::new(Via { q: v.q.clone(), up }))); s.spawn_obj(FutureObj::new(Box::new(f()))) }
        };
        let sd = r.as_ref().err().map_or(true, |e| e.is_shutdown());
        log(E::new("spawned").s("to", "via").b("ok", r.is_ok() == up && sd && st).n("n", if r.is_ok() { i } else { -1 }).n("live", Arc::strong_count(&g) as i64 - 1));
        Poll::Ready(R { r: "ok", v: vec![] })
    }
}
/// A waker that must not be used.
struct APan { w: Vec<Waker>, left: u32 }
impl Ad for APan {
    fn poll(&mut self, _: &mut Context<'_>) -> Poll<R> {
        if self.left == 0 || self.w.is_empty() { return Poll::Ready(R { r: "none", v: vec![] }) }
        self.left -= 1;
        let i = below(self.w.len() as u32) as usize;
        match below(4) {
            0 => { let (w, p) = { let x = &self.w[i]; let mut c = None; let p = panics(|| c = Some(x.clone())); (c, p) }; log(E::new("pw").s("op", "clone").b("p", p)); self.w.extend(w) }
            1 => { let w = self.w.remove(i); let p = panics(|| w.wake()); log(E::new("pw").s("op", "wake").b("p", p)) }
            2 => { let x = &self.w[i]; let p = panics(|| x.wake_by_ref()); log(E::new("pw").s("op", "wake").b("p", p)) }
            _ => { let w = self.w.remove(i); let p = panics(|| drop(w)); log(E::new("pw").s("op", "drop").b("p", p)) }
        }
        Poll::Ready(R { r: "ok", v: vec![] })
    }
}
fn p0() -> Vec<(&'static str, i64)> { vec![("n", 0)] }
/// Handles of channels and shared futures: which belong together, and how many there are.
enum Hd { B(mpsc::Sender<Pay>), U(mpsc::UnboundedSender<Pay>), RB(mpsc::Receiver<Pay>), RU(mpsc::UnboundedReceiver<Pay>), OS(oneshot::Sender<Pay>), OR(oneshot::Receiver<Pay>), Sh(Shared<future::Ready<Pay2>>), We(WeakShared<future::Ready<Pay2>>) }
#[derive(Clone)]
struct Pay2(Arc<Pay>);
struct Ident { h: Vec<Option<Hd>>, o: i64, left: u32, shared: bool }
fn idev(op: &str, h: usize, x: i64, o: i64, r: bool) { log(E::new("id").s("op", op).n("h", h as i64).n("x", x).n("o", o).b("r", r)) }
fn hash(f: impl FnOnce(&mut std::collections::hash_map::DefaultHasher)) -> u64 { use std::hash::Hasher; let mut h = Default::default(); f(&mut h); h.finish() }
impl Ident {
    fn add(&mut self, x: Hd, o: i64, op: &str, from: i64) { idev(op, self.h.len(), from, o, matches!(x, Hd::We(_))); self.h.push(Some(x)) }
}
impl Ad for Ident {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        let ok = Poll::Ready(R { r: "ok", v: vec![] });
        if self.left == 0 { self.h.clear(); return Poll::Ready(R { r: "none", v: vec![] }) }
        self.left -= 1;
        let live: Vec<usize> = (0..self.h.len()).filter(|i| self.h[*i].is_some()).collect();
        if live.is_empty() || (self.h.len() < 12 && chance(4)) {
            self.o += 1;
            let o = self.o;
            if self.shared { self.add(Hd::Sh(future::ready(Pay2(Arc::new(pay()))).shared()), o, "new", -1) } else {
                match below(3) {
                    0 => { let (a, b) = mpsc::channel(1); self.add(Hd::B(a), o, "new", -1); self.add(Hd::RB(b), o, "new", -1) }
                    1 => { let (a, b) = mpsc::unbounded(); self.add(Hd::U(a), o, "new", -1); self.add(Hd::RU(b), o, "new", -1) }
                    _ => { let (a, b) = oneshot::channel(); self.add(Hd::OS(a), o, "new", -1); self.add(Hd::OR(b), o, "new", -1) }
                }
            }
            return ok;
        }
        let a = live[below(live.len() as u32) as usize];
        let b = live[below(live.len() as u32) as usize];
        match below(if self.shared { 9 } else { 6 }) {
            0 => { let n = match self.h[a].as_ref().unwrap() { Hd::B(s) => Some(Hd::B(s.clone())), Hd::U(s) => Some(Hd::U(s.clone())), Hd::Sh(s) => Some(Hd::Sh(s.clone())), Hd::We(s) => Some(Hd::We(s.clone())), _ => None }; if let Some(n) = n { self.add(n, 0, "clone", a as i64) } }
            1 => { match self.h[a].as_mut().unwrap() { Hd::B(s) => s.disconnect(), Hd::U(s) => s.disconnect(), _ => { self.h[a] = None } } idev("gone", a, -1, 0, false) }
            2 if self.shared => { self.h[a] = None; idev("gone", a, -1, 0, false) }
            6 => { if let Some(Hd::Sh(s)) = &self.h[a] { match s.downgrade() { Some(w) => self.add(Hd::We(w), 0, "weak", a as i64), None => idev("noweak", a, -1, 0, false) } } }
            7 => { if let Some(Hd::We(s)) = &self.h[a] { match s.upgrade() { Some(w) => self.add(Hd::Sh(w), 0, "up", a as i64), None => idev("noup", a, -1, 0, false) } } }
            8 => { if let Some(Hd::Sh(s)) = &self.h[a] { let (n, w) = (s.strong_count(), s.weak_count()); idev("count", a, n.map_or(-1, |x| x as i64), w.map_or(-1, |x| x as i64), false) } }
            _ => {
                let r = match (self.h[a].as_ref().unwrap(), self.h[b].as_ref().unwrap()) {
                    (Hd::B(x), Hd::B(y)) => { idev("hash", a, b as i64, 0, hash(|h| x.hash_receiver(h)) == hash(|h| y.hash_receiver(h))); Some(x.same_receiver(y)) }
                    (Hd::U(x), Hd::U(y)) => { idev("hash", a, b as i64, 0, hash(|h| x.hash_receiver(h)) == hash(|h| y.hash_receiver(h))); Some(x.same_receiver(y)) }
                    (Hd::Sh(x), Hd::Sh(y)) => { idev("hash", a, b as i64, 0, hash(|h| x.ptr_hash(h)) == hash(|h| y.ptr_hash(h))); Some(x.ptr_eq(y)) }
                    (Hd::B(x), Hd::RB(y)) | (Hd::RB(y), Hd::B(x)) => Some(x.is_connected_to(y)),
                    (Hd::U(x), Hd::RU(y)) | (Hd::RU(y), Hd::U(x)) => Some(x.is_connected_to(y)),
                    (Hd::OS(x), Hd::OR(y)) | (Hd::OR(y), Hd::OS(x)) => Some(x.is_connected_to(y)),
                    _ => None,
                };
                if let Some(r) = r { idev("same", a, b as i64, 0, r) }
            }
        }
        let _ = cx;
        ok
    }
}
pub fn kinds() -> Vec<Kind> {
    let _: Option<Box<dyn Any>> = None;
    vec![
        ks("wakers", "wakers", || (Box::new(User { obj: vec![], h: vec![], left: 4 + below(20) }), p0())),
        ks("ident_chan", "ident", || (Box::new(Ident { h: vec![], o: 0, left: 6 + below(24), shared: false }), p0())),
        ks("ident_shared", "ident", || (Box::new(Ident { h: vec![], o: 0, left: 6 + below(24), shared: true }), p0())),
        ks("spawn_via", "via", || (Box::new(AVia { left: 2 + below(8), n: 0, v: Some(Via { q: Default::default(), up: chance(15) }) }), p0())),
        ks("test_spawners", "spawners", || (Box::new(Spawners { rec: RecordSpawner::new(), n: 0, left: 2 + below(8), fl: vec![] }), p0())),
        ks("test_panic_waker", "panicw", || (Box::new(APan { w: vec![panic_waker(), panic_waker_ref().clone()], left: 2 + below(8) }), p0())),
    ]
}
