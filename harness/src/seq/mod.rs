//! Single-threaded exploration of combinators: every input (stream, future, sink, I/O object,
//! closure) is scripted and logs what is asked of it; a driver polls the combinator.
pub mod io;
pub mod sinks;
pub mod futs;
pub mod merge;
pub mod st;
pub mod tst;
pub mod tasks;
use crate::sched::Rng;
use crate::trace::{drops, reset_reg, Pay, Run, E};
use futures_core::stream::FusedStream;
use futures_core::{future::FusedFuture, Stream};
use std::cell::RefCell;
use std::future::Future;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

// ---- environment ----------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T { Pend, Yield, Item, Err, End, Panic }
pub struct Inp { pub script: Vec<T>, pub pos: usize, pub waiting: bool, waker: Option<Waker>, pub over: bool, hint: u32, gone: bool, eager: bool, at: usize, inf: bool }
impl Inp { fn blew(&self) -> bool { self.over && self.pos > 0 && self.script.get(self.pos - 1) == Some(&T::Panic) } }
/// Probabilities (in 1/20) of one execution.
#[derive(Clone, Copy)]
pub struct Prof { pub pend: u32, pub yld: u32, pub err: u32, pub max: u32, pub panic: u32, pub truth: u32 }
pub struct Env { pub log: Vec<String>, pub rng: Rng, pub inp: Vec<Inp>, pub next: i64, pub prof: Prof, pub panicked: bool, movable: bool, stall: bool, wakers: Vec<Arc<OW>> }
thread_local!(static ENV: RefCell<Env> = RefCell::new(Env { log: vec![], rng: Rng(1), inp: vec![], next: 100, prof: Prof { pend: 3, yld: 2, err: 3, max: 4, panic: 0, truth: 10 }, panicked: false, movable: false, stall: false, wakers: vec![] }));
pub fn with<R>(f: impl FnOnce(&mut Env) -> R) -> R { ENV.with(|e| f(&mut e.borrow_mut())) }
pub fn log(e: E) {
    let s = e.done();
    let n = with(|v| { v.log.push(s); v.log.len() });
    // an endless loop inside one poll
    if n > 4000 && !std::thread::panicking() { with(|v| v.log.truncate(400)); std::panic::panic_any("livelock") }
}
pub fn below(n: u32) -> u32 { with(|e| e.rng.below(n)) }
pub fn chance(n: u32) -> bool { with(|e| e.rng.chance(n, 20)) }
pub fn fresh() -> i64 { with(|e| { e.next += 1; e.next }) }
pub fn pay() -> Pay { Pay::new(fresh()) }
/// Panic of user code.
pub fn user_panic() -> ! { with(|e| e.panicked = true); std::panic::panic_any("user panic") }

/// The outer task's waker.
pub struct OW { n: AtomicI64 }
impl Wake for OW { fn wake(self: Arc<Self>) { self.n.fetch_add(1, Ordering::SeqCst); } fn wake_by_ref(self: &Arc<Self>) { self.n.fetch_add(1, Ordering::SeqCst); } }
impl OW {
    pub fn new() -> Arc<OW> { let w = Arc::new(OW { n: AtomicI64::new(0) }); with(|e| e.wakers.push(w.clone())); w }
    pub fn woken(&self) -> bool { self.n.load(Ordering::SeqCst) > 0 }
}

// ---- inputs ---------------------------------------------------------------------------------
pub fn gen_pends(v: &mut Vec<T>) { loop { let p = with(|e| e.prof); let x = below(20); if x < p.pend { v.push(T::Pend) } else if x < p.pend + p.yld { v.push(T::Yield) } else { break } if v.len() > 24 { break } } }
pub fn gen_stream(tr: bool) -> Vec<T> {
    let p = with(|e| e.prof);
    let n = below(p.max + 1);
    let mut v = vec![];
    for _ in 0..n { gen_pends(&mut v); if chance(p.panic) { v.push(T::Panic); return v } v.push(if tr && chance(p.err) { T::Err } else { T::Item }) }
    gen_pends(&mut v);
    if chance(p.panic) { v.push(T::Panic); return v }
    v.push(T::End);
    v
}
pub fn gen_fut(tr: bool) -> Vec<T> {
    let p = with(|e| e.prof);
    let mut v = vec![];
    gen_pends(&mut v);
    if chance(p.panic) { v.push(T::Panic); return v }
    v.push(if tr && chance(p.err) { T::Err } else { T::Item });
    v
}
pub fn new_input(script: Vec<T>) -> i64 { with(|e| { let hint = e.rng.below(16); e.inp.push(Inp { script, pos: 0, waiting: false, waker: None, over: false, hint, gone: false, eager: false, at: 0, inf: false }); e.inp.len() as i64 - 1 }) }
/// The next scripted step of input k.
pub fn step(k: i64, cx: &mut Context<'_>) -> T {
    let mut old: Option<Waker> = None;
    let (t, w) = with(|e| {
        let i = &mut e.inp[k as usize];
        if i.waiting { old = i.waker.replace(cx.waker().clone()); return (T::Pend, None) }
        // an endless stream is cut short by stalling
        if i.inf && i.pos >= i.script.len() { i.waiting = true; old = i.waker.replace(cx.waker().clone()); e.stall = true; return (T::Pend, None) }
        let t = if i.pos < i.script.len() { i.script[i.pos] } else { T::End };
        i.pos += 1;
        let mut w = None;
        match t { T::Pend => { i.waiting = true; old = i.waker.replace(cx.waker().clone()) } T::Yield => { old = i.waker.take(); w = Some(cx.waker().clone()) } _ => old = i.waker.take() }
        (t, w)
    });
    drop(old);
    if let Some(w) = w { w.wake() }
    t
}
pub fn over(k: i64) -> bool { with(|e| e.inp[k as usize].over) }
pub fn set_over(k: i64) { with(|e| e.inp[k as usize].over = true) }
/// Once polled (hence pinned), an input stays where it is until it is dropped.
pub fn place<A>(k: i64, this: &A, last: bool) {
    if with(|e| e.movable) { return }
    let a = this as *const A as usize;
    let moved = with(|e| { let i = &mut e.inp[k as usize]; if i.at == 0 { if !last { i.at = a } false } else { i.at != a } });
    if moved { with(|e| e.inp[k as usize].at = a); log(E::new("moved").n("k", k).b("last", last)) }
}
/// The input was (legitimately) taken out.
pub fn unplace(k: i64) { with(|e| e.inp[k as usize].at = 0) }
/// Combinators that require their inputs (for flatten_unordered: the inner streams) to be Unpin.
const UNPIN: &[&str] = &["select_all_push", "select_all", "flatten_unordered", "flat_map_unordered", "try_flatten_unordered", "fselect_all", "select_ok", "fselect_rest", "ftry_select", "fselect", "fselect_flag", "into_future"];
pub fn gone(k: i64) { let w = with(|e| { let i = &mut e.inp[k as usize]; i.gone = true; i.waiting = false; i.waker.take() }); drop(w) }
/// Wakes input k as its event source would.
pub fn wake_input(k: i64) {
    let w = with(|e| { let i = &mut e.inp[k as usize]; i.waiting = false; i.waker.take() });
    if let Some(w) = w { if chance(10) { w.wake() } else { w.wake_by_ref(); drop(w) } }
}
pub fn waiting() -> Vec<i64> { with(|e| e.inp.iter().enumerate().filter(|(_, i)| i.waiting && !i.gone).map(|(k, _)| k as i64).collect()) }

/// What a scripted step becomes as a value.
pub trait Tok: Sized { const TRY: bool = false; fn ok() -> (Self, i64); fn err() -> (Self, i64) { unreachable!() } }
impl Tok for Pay { fn ok() -> (Pay, i64) { let p = pay(); let v = p.id; (p, v) } }
impl<A: Tok> Tok for Result<A, Pay> { const TRY: bool = true; fn ok() -> (Self, i64) { let (a, v) = A::ok(); (Ok(a), v) } fn err() -> (Self, i64) { let p = pay(); let v = p.id; (Err(p), v) } }
impl Tok for bool { fn ok() -> (bool, i64) { let b = chance(with(|e| e.prof.truth)); (b, b as i64) } }
/// state and item: the state's id is one more than the item's, which is logged
impl Tok for (Pay, Pay) { fn ok() -> (Self, i64) { let b = pay(); let a = pay(); let v = b.id; ((a, b), v) } }
impl Tok for () { fn ok() -> ((), i64) { ((), 0) } }
/// Some(v) or None (logged as 0).
impl<A: Tok> Tok for Option<A> { fn ok() -> (Self, i64) { if chance(with(|e| e.prof.truth)) { let (a, v) = A::ok(); (Some(a), v) } else { (None, 0) } } }
impl<A: Tok> Tok for Src<A> { fn ok() -> (Self, i64) { let s = src::<A>(); let k = s.k; (s, k) } }
impl<A: Tok> Tok for SF<A> { fn ok() -> (Self, i64) { let s = fut::<A>(); let k = s.k; (s, k) } }

pub struct Src<A> { pub k: i64, _g: Pay, _p: PhantomData<fn() -> A> }
pub fn src<A: Tok>() -> Src<A> { let s = src_of(gen_stream(A::TRY)); let g = chance(7); with(|e| e.inp[s.k as usize].eager = g); if chance(1) { with(|e| { let i = &mut e.inp[s.k as usize]; if i.script.last() == Some(&T::End) { i.script.pop(); i.inf = true } }) } s }
pub fn src_of<A: Tok>(s: Vec<T>) -> Src<A> { Src { k: new_input(s), _g: pay(), _p: PhantomData } }
impl<A: Tok> Stream for Src<A> {
    type Item = A;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<A>> {
        let k = self.k;
        place(k, &*self, false);
        if over(k) { log(E::new("src").n("k", k).s("r", "after").n("v", 0)); return Poll::Ready(None) }
        let t = step(k, cx);
        let l = |r: &str, v: i64| log(E::new("src").n("k", k).s("r", r).n("v", v));
        match t {
            T::Pend => { l("pend", 0); Poll::Pending }
            T::Yield => { l("pend", 1); Poll::Pending }
            T::Item => { let (a, v) = A::ok(); l("item", v); Poll::Ready(Some(a)) }
            T::Err => { let (a, v) = A::err(); l("err", v); Poll::Ready(Some(a)) }
            T::End => { set_over(k); l("end", 0); Poll::Ready(None) }
            T::Panic => { set_over(k); l("panic", 0); user_panic() }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        with(|e| {
            let i = &e.inp[self.k as usize];
            if i.blew() { return (1, Some(2)) } // it knows nothing of its panic
            let n = if i.over { 0 } else { i.script[i.pos.min(i.script.len())..].iter().filter(|t| matches!(t, T::Item | T::Err)).count() };
            if i.inf { return (usize::MAX - (i.hint % 3) as usize, None) }
            // a panic may be turned into one more item
            let m = n + if i.over { 0 } else { i.script.contains(&T::Panic) as usize };
            let lo = [n, n, n.saturating_sub(1), n / 2, 0][(i.hint % 5) as usize];
            let hi = [Some(m), Some(m), Some(m + 1), Some(2 * m + 1), None, Some(usize::MAX)][(i.hint / 3 % 6) as usize];
            (lo, hi)
        })
    }
}
/// Some sources (like `once`) report termination as soon as their last item is out.
impl<A: Tok> FusedStream for Src<A> { fn is_terminated(&self) -> bool { with(|e| { let i = &e.inp[self.k as usize]; (i.over && !i.blew()) || (i.eager && i.pos > 0 && i.script[i.pos - 1] == T::Item && i.script.get(i.pos) == Some(&T::End)) }) } }
impl<A> Drop for Src<A> { fn drop(&mut self) { place(self.k, &*self, true); gone(self.k) } }
impl<A> std::fmt::Debug for Src<A> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "src{}", self.k) } }

pub struct SF<A> { pub k: i64, _g: Pay, _p: PhantomData<fn() -> A> }
pub fn fut<A: Tok>() -> SF<A> { fut_of(gen_fut(A::TRY)) }
pub fn fut_of<A: Tok>(s: Vec<T>) -> SF<A> { SF { k: new_input(s), _g: pay(), _p: PhantomData } }
impl<A: Tok> Future for SF<A> {
    type Output = A;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<A> {
        let k = self.k;
        place(k, &*self, false);
        let l = |r: &str, v: i64| log(E::new("fut").n("k", k).s("r", r).n("v", v));
        if over(k) { l("after", 0); return Poll::Ready(A::ok().0) }
        match step(k, cx) {
            T::Pend => { l("pend", 0); Poll::Pending }
            T::Yield => { l("pend", 1); Poll::Pending }
            T::Err => { set_over(k); let (a, v) = A::err(); l("err", v); Poll::Ready(a) }
            T::Panic => { set_over(k); l("panic", 0); user_panic() }
            _ => { set_over(k); let (a, v) = A::ok(); l("ready", v); Poll::Ready(a) }
        }
    }
}
impl<A: Tok> FusedFuture for SF<A> { fn is_terminated(&self) -> bool { over(self.k) } }
impl<A> Drop for SF<A> { fn drop(&mut self) { place(self.k, &*self, true); gone(self.k) } }
impl<A> std::fmt::Debug for SF<A> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "fut{}", self.k) } }

// ---- closures -------------------------------------------------------------------------------
/// Logs a closure call and produces its (scripted) result.
pub fn ask<A: Tok>(f: &str, a: &[i64]) -> A {
    if chance(with(|e| e.prof.panic)) { log(E::new("call").s("f", f).seq("a", a).s("r", "panic").n("v", 0)); user_panic() }
    let err = A::TRY && chance(with(|e| e.prof.err));
    let (x, v) = if err { A::err() } else { A::ok() };
    log(E::new("call").s("f", f).seq("a", a).s("r", if err { "err" } else { "ok" }).n("v", v));
    x
}

// ---- observation ----------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct R { pub r: &'static str, pub v: Vec<i64> }
pub trait Show { fn show(&self) -> Vec<i64>; fn failed(&self) -> bool { false } }
impl Show for Pay { fn show(&self) -> Vec<i64> { vec![self.read()] } }
impl Show for bool { fn show(&self) -> Vec<i64> { vec![*self as i64] } }
impl Show for usize { fn show(&self) -> Vec<i64> { vec![*self as i64] } }
impl Show for i64 { fn show(&self) -> Vec<i64> { vec![*self] } }
impl Show for () { fn show(&self) -> Vec<i64> { vec![] } }
impl<A: Show, B: Show> Show for (A, B) { fn show(&self) -> Vec<i64> { let mut v = self.0.show(); v.extend(self.1.show()); v } }
impl<A: Show, B: Show, C: Show> Show for (A, B, C) { fn show(&self) -> Vec<i64> { let mut v = self.0.show(); v.extend(self.1.show()); v.extend(self.2.show()); v } }
impl<A: Show, B: Show, C: Show, D: Show> Show for (A, B, C, D) { fn show(&self) -> Vec<i64> { let mut v = self.0.show(); v.extend(self.1.show()); v.extend(self.2.show()); v.extend(self.3.show()); v } }
impl<A: Show, B: Show, C: Show, D: Show, F: Show> Show for (A, B, C, D, F) { fn show(&self) -> Vec<i64> { let mut v = self.0.show(); v.extend(self.1.show()); v.extend(self.2.show()); v.extend(self.3.show()); v.extend(self.4.show()); v } }
impl<A: Show> Show for Vec<A> { fn show(&self) -> Vec<i64> { self.iter().flat_map(|a| a.show()).collect() } }
impl<A: Show> Show for Option<A> { fn show(&self) -> Vec<i64> { match self { Some(a) => a.show(), None => vec![0] } } }
impl<A: Show, B: Show> Show for Result<A, B> { fn show(&self) -> Vec<i64> { match self { Ok(a) => a.show(), Err(e) => e.show() } } fn failed(&self) -> bool { self.is_err() } }
impl<A: Show> Show for &A { fn show(&self) -> Vec<i64> { (**self).show() } }
impl<A: Show> Show for &mut A { fn show(&self) -> Vec<i64> { (**self).show() } }
impl<A> Show for Src<A> { fn show(&self) -> Vec<i64> { vec![self.k] } }

/// The object under test as the driver sees it.
pub trait Ad {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R>;
    fn hint(&self) -> Option<(usize, Option<usize>)> { None }
    fn term(&self) -> Option<bool> { None }
    /// After the end: an operation to go on with (e.g. polling what select left), or false.
    fn again(&mut self) -> bool { false }
    fn op(&self) -> &'static str { "poll" }
}
pub fn item<A: Show>(a: A) -> R { R { r: if a.failed() { "err" } else { "item" }, v: a.show() } }
/// A stream.
pub struct ASt<S: Stream> { pub s: Pin<Box<S>>, term: fn(&S) -> Option<bool> }
impl<S: Stream> Ad for ASt<S> where S::Item: Show {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> { self.s.as_mut().poll_next(cx).map(|o| match o { Some(i) => item(i), None => R { r: "none", v: vec![] } }) }
    fn hint(&self) -> Option<(usize, Option<usize>)> { Some(self.s.size_hint()) }
    fn term(&self) -> Option<bool> { (self.term)(&self.s) }
}
pub fn fst<S: FusedStream + 'static>(s: S) -> Box<dyn Ad> where S::Item: Show { Box::new(ASt { s: Box::pin(s), term: |s| Some(s.is_terminated()) }) }
/// A stream without a termination flag.
pub fn ust<S: Stream + 'static>(s: S) -> Box<dyn Ad> where S::Item: Show { Box::new(ASt { s: Box::pin(s), term: |_| None }) }
/// A future.
pub struct AFu<F: Future> { f: Pin<Box<F>>, term: fn(&F) -> Option<bool> }
impl<F: Future> Ad for AFu<F> where F::Output: Show {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> { self.f.as_mut().poll(cx).map(|o| R { r: if o.failed() { "err" } else { "val" }, v: o.show() }) }
    fn term(&self) -> Option<bool> { (self.term)(&self.f) }
}
pub fn fu<F: Future + 'static>(f: F) -> Box<dyn Ad> where F::Output: Show { Box::new(AFu { f: Box::pin(f), term: |_| None }) }
pub fn ffu<F: FusedFuture + 'static>(f: F) -> Box<dyn Ad> where F::Output: Show { Box::new(AFu { f: Box::pin(f), term: |f| Some(f.is_terminated()) }) }

/// A future with its output converted; its own termination flag.
pub struct Via<F: Future, O>(pub F, pub fn(F::Output) -> O);
impl<F: Future + Unpin, O> Future for Via<F, O> { type Output = O; fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<O> { Pin::new(&mut self.0).poll(cx).map(self.1) } }
impl<F: FusedFuture + Unpin, O> FusedFuture for Via<F, O> { fn is_terminated(&self) -> bool { self.0.is_terminated() } }
/// Something and a future that borrows it.
pub struct Lent<T, F> { f: std::mem::ManuallyDrop<F>, t: *mut T }
impl<T: 'static, F> Lent<T, F> { pub fn new(t: T, mk: impl FnOnce(&'static mut T) -> F) -> Lent<T, F> { let t = Box::into_raw(Box::new(t)); Lent { f: std::mem::ManuallyDrop::new(mk(unsafe { &mut *t })), t } } }
impl<T, F> Drop for Lent<T, F> { fn drop(&mut self) { unsafe { std::mem::ManuallyDrop::drop(&mut self.f); drop(Box::from_raw(self.t)) } } }
impl<T, F: Future + Unpin> Future for Lent<T, F> { type Output = F::Output; fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> { Pin::new(&mut *self.f).poll(cx) } }
impl<T, F: FusedFuture + Unpin> FusedFuture for Lent<T, F> { fn is_terminated(&self) -> bool { self.f.is_terminated() } }
/// A short-lived future polled once: its flag before and after.
pub fn flagged<F: FusedFuture + Unpin>(mut f: F, cx: &mut Context<'_>) -> Poll<F::Output> {
    let t = |v: bool, rem: i64, aft: bool| log(E::new("term").b("v", v).n("rem", rem).b("aft", aft).s("last", ""));
    t(f.is_terminated(), 1, false);
    let r = Pin::new(&mut f).poll(cx);
    if r.is_ready() { t(f.is_terminated(), 0, true) } else { t(f.is_terminated(), 1, false) }
    r
}

// ---- driver ---------------------------------------------------------------------------------
/// A kind of combinator: its specification name, fixed parameters and how to make one.
pub type Made = (Box<dyn Ad>, Vec<(&'static str, i64)>);
pub struct Kind { pub name: &'static str, pub spec: &'static str, pub stream: bool, pub fused: bool, pub re: bool, pub mk: fn() -> Made }
/// like kf, and may be polled again after its end
pub fn kr(name: &'static str, spec: &'static str, mk: fn() -> Made) -> Kind { Kind { name, spec, stream: true, fused: true, re: true, mk } }
/// stream kind reporting termination once ended; stream kind; future kind
pub fn kf(name: &'static str, spec: &'static str, mk: fn() -> Made) -> Kind { Kind { name, spec, stream: true, fused: true, re: false, mk } }
pub fn ks(name: &'static str, spec: &'static str, mk: fn() -> Made) -> Kind { Kind { name, spec, stream: true, fused: false, re: false, mk } }
pub fn ku(name: &'static str, spec: &'static str, mk: fn() -> Made) -> Kind { Kind { name, spec, stream: false, fused: false, re: false, mk } }
pub fn kuf(name: &'static str, spec: &'static str, mk: fn() -> Made) -> Kind { Kind { name, spec, stream: false, fused: true, re: false, mk } }
pub fn is_final(r: &str, stream: bool) -> bool { r == "none" || r == "val" || (r == "err" && !stream) }

/// Runs one execution; returns (complete, final marker seen).
fn drive(mut ad: Box<dyn Ad>, stream: bool, re: bool, cancels: bool, maxpoll: u32) -> bool {
    let mut full = false;
    let dropat = if chance(2) { below(8) } else { 1000 };
    let mut after = 0;
    let mut n = 0;
    let obs = |ad: &Box<dyn Ad>| {
        if chance(10) { if let Some((lo, hi)) = catch_unwind(AssertUnwindSafe(|| ad.hint())).unwrap_or_else(|_| { log(E::new("panic")); None }) { log(E::new("hint").n("lo", lo.min(1000) as i64).n("hi", hi.map_or(-1, |h| h.min(1000) as i64)).raw("rem", "@")) } }
        if chance(10) { if let Some(t) = ad.term() { log(E::new("term").b("v", t).raw("rem", "@").raw("aft", "#")) } }
    };
    loop {
        obs(&ad);
        if n >= dropat || n > maxpoll { break }
        n += 1;
        let w = OW::new();
        let wk = Waker::from(w.clone());
        log(E::new("poll").s("op", ad.op()));
        let r = catch_unwind(AssertUnwindSafe(|| ad.poll(&mut Context::from_waker(&wk))));
        drop(wk);
        match r {
            Err(_) => {
                if with(|e| e.panicked) { log(E::new("ret").s("r", "panic").seq("v", &[]).b("sw", false)) } else { log(E::new("panic")) }
                break;
            }
            Ok(Poll::Ready(R { r, v })) => {
                log(E::new("ret").s("r", r).seq("v", &v).b("sw", false));
                // documented: the other futures are cancelled when one fails
                if cancels && r == "err" { let n = with(|e| e.inp.iter().filter(|i| !i.gone).count()); if n > 0 { log(E::new("kept").n("n", n as i64)) } }
                if is_final(r, stream) {
                    full = true;
                    if let Some(t) = ad.term() { log(E::new("term").b("v", t).raw("rem", "@").raw("aft", "#")) }
                    if ad.again() { full = false; continue }
                    if !re || after >= 2 || (!stream) { break }
                    after += 1;
                } else if after > 0 { break }
            }
            Ok(Poll::Pending) => {
                let sw = w.woken();
                log(E::new("ret").s("r", "pend").seq("v", &[]).b("sw", sw));
                if after > 0 || with(|e| e.stall) { break }
                if chance(2) { continue }
                let mut first = true;
                while !w.woken() || (first && chance(4)) {
                    let c = waiting();
                    if c.is_empty() { if !w.woken() { log(E::new("blocked").s("op", "poll")); let l = ad; drop(l); return false } break }
                    let k = c[below(c.len() as u32) as usize];
                    let before = w.n.load(Ordering::SeqCst);
                    wake_input(k);
                    let ok = w.n.load(Ordering::SeqCst) > before;
                    log(E::new("wake").n("k", k).b("ok", ok || !first || sw));
                    if ok { first = false }
                }
            }
        }
    }
    let bad = catch_unwind(AssertUnwindSafe(move || drop(ad))).is_err();
    if bad { log(E::new("panic")) }
    full
}

/// One execution of `kind`; emits its trace.
pub fn exec(kind: &Kind, seed: u64) -> (String, Vec<String>) {
    reset_reg();
    let mut g = Rng(seed);
    let prof = Prof { pend: [0, 3, 6, 9][g.below(4) as usize], yld: [0, 0, 2, 5][g.below(4) as usize], err: [0, 2, 6, 12][g.below(4) as usize], max: [2, 4, 4, 6][g.below(4) as usize], panic: if g.chance(1, 8) { 2 } else { 0 }, truth: [4, 10, 16, 18][g.below(4) as usize] };
    with(|e| { e.log.clear(); e.inp.clear(); e.next = 100; e.rng = g; e.prof = prof; e.panicked = false; e.stall = false; e.movable = UNPIN.contains(&kind.name); e.wakers.clear() });
    let (ad, cfg) = (kind.mk)();
    let full = drive(ad, kind.stream, kind.re, kind.name.starts_with("try_join_all"), 80);
    // inputs' wakers must not be needed any more
    let left = with(|e| { let v: Vec<Waker> = e.inp.iter_mut().filter_map(|i| i.waker.take()).collect(); v });
    drop(left);
    let lw = with(|e| e.wakers.iter().filter(|w| Arc::strong_count(w) > 1).count()) as i64;
    let stream = kind.stream;
    let (l, d) = drops();
    let mut lg = with(|e| std::mem::take(&mut e.log));
    if lw != 0 || !l.is_empty() || !d.is_empty() { lg.push(E::new("drops").seq("leak", &l).seq("dbl", &d).n("wakers", lw).done()) }
    // fill in the number of items still to come
    let isitem = |s: &String| s.starts_with("{\"e\":\"ret\",\"r\":\"item\"") || (stream && s.starts_with("{\"e\":\"ret\",\"r\":\"err\"")) || (!stream && (s.starts_with("{\"e\":\"ret\",\"r\":\"val\"") || s.starts_with("{\"e\":\"ret\",\"r\":\"err\"")));
    let isnone = |s: &String| s.starts_with("{\"e\":\"ret\",\"r\":\"none\"") || (!stream && isitem(s));
    let total = lg.iter().filter(|s| isitem(s)).count() as i64;
    let (mut seen, mut aft, mut last) = (0, false, "");
    let out = lg.iter().map(|s| {
        if isitem(s) { seen += 1 }
        if isnone(s) { aft = true }
        if s.starts_with("{\"e\":\"ret\"") { last = if s.contains("\"r\":\"err\"") { "err" } else { "" } }
        let rem = if full { total - seen } else if total > seen { 500 + total - seen } else { -1 };
        s.replace("\"rem\":@", &format!("\"rem\":{}", rem)).replace("\"aft\":#", &format!("\"aft\":{},\"last\":\"{}\"", aft, last))
    }).collect();
    let mut c = format!("{{\"k\":\"{}\",\"fused\":{},\"full\":{}", kind.spec, kind.fused, full);
    for (k, v) in cfg { c.push_str(&format!(",\"{}\":{}", k, v)) }
    c.push('}');
    (c, out)
}
/// All executions of the kinds of one suite.
pub fn suite(run: &mut Run, kinds: Vec<Kind>) {
    let per = run.budget.rand.max(1);
    for kind in &kinds {
        let mut seen = std::collections::HashSet::new();
        let mut n = 0;
        if !run.want(kind.name) { continue }
        std::fs::write(std::env::var("STATUS").unwrap_or("/dev/null".into()), kind.name).ok();
        for i in 0..per {
            let seed = run.seed.wrapping_mul(0x9e37_79b9).wrapping_add(i.wrapping_mul(0x1234_5677)).wrapping_add(kind.name.bytes().fold(7u64, |h, c| h.wrapping_mul(131).wrapping_add(c as u64)));
            crate::trace::beat();
            let (cfg, ev) = exec(kind, seed);
            n += 1;
            run.out.execs += 1;
            run.out.steps += ev.len() as u64;
            if seen.insert((cfg.clone(), ev.clone())) { run.emit(kind.name, &cfg, &ev, &format!("seed={}", seed)) }
            if run.out_of_time() { break }
        }
        run.out.stats.push(format!("{{\"scenario\":\"{}\",\"execs\":{},\"traces\":{},\"exhausted\":false}}", kind.name, n, seen.len()));
    }
}
