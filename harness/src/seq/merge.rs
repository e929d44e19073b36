//! Stream combinators with several or dynamically created inputs, limits, or several operations.
use super::*;
use futures::stream::{self, FuturesOrdered, FuturesUnordered, PollNext, StreamExt, TryStreamExt};
use futures_util::{FutureExt, TryFutureExt};

type RP = Result<Pay, Pay>;
fn s() -> Src<Pay> { src::<Pay>() }
fn p(n: i64) -> Vec<(&'static str, i64)> { vec![("n", n), ("init", 0)] }
/// A limit as given to the combinator, and as the specification sees it.
fn lim() -> (Option<usize>, i64) { let n = below(4); if n == 0 { (if chance(10) { None } else { Some(0) }, 1000) } else { (Some(n as usize), n as i64) } }
impl Show for Box<dyn std::any::Any + Send> { fn show(&self) -> Vec<i64> { vec![] } }
impl<A: Show> Show for Poll<A> { fn show(&self) -> Vec<i64> { match self { Poll::Ready(a) => a.show(), Poll::Pending => vec![0] } } }
impl<A: Show, B: Show> Show for futures::stream::TryReadyChunksError<A, B> { fn show(&self) -> Vec<i64> { let mut v = self.0.show(); v.extend(self.1.show()); v } }

/// A stream that can be cloned (from its beginning).
struct CSrc { inner: Src<Pay>, script: Vec<T> }
impl Clone for CSrc { fn clone(&self) -> CSrc { let inner = src_of(self.script.clone()); log(E::new("clone").n("k", inner.k)); CSrc { inner, script: self.script.clone() } } }
impl Stream for CSrc { type Item = Pay; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Pay>> { Pin::new(&mut self.inner).poll_next(cx) } fn size_hint(&self) -> (usize, Option<usize>) { self.inner.size_hint() } }

/// Peekable with all its operations, switching between them also while they are pending.
struct APeek { s: Pin<Box<stream::Peekable<Src<Pay>>>>, op: &'static str }
impl Ad for APeek {
    fn op(&self) -> &'static str { self.op }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        let op = self.op;
        let s = self.s.as_mut();
        let r = match op {
            "peek" => if chance(10) { flagged(s.peek(), cx).map(|o| R { r: "peek", v: o.show() }) } else { s.poll_peek(cx).map(|o| R { r: "peek", v: o.show() }) },
            "pmut" => {
                let f = |o: Option<&mut Pay>| match o { Some(x) => { let old = x.read(); *x = pay(); R { r: "pmut", v: vec![old, x.read()] } } None => R { r: "pmut", v: vec![0] } };
                if chance(10) { flagged(s.peek_mut(), cx).map(f) } else { s.poll_peek_mut(cx).map(f) }
            }
            "nif" => flagged(s.next_if(|x| ask::<bool>("f", &[x.read()])), cx).map(|o| match o { Some(x) => item(x), None => R { r: "nif", v: vec![0] } }),
            "nife" => {
                // compare with the peeked item, if there is one, or with something else
                let k = if chance(10) { with(|e| e.log.iter().rev().find(|l| l.starts_with("{\"e\":\"src\",\"k\":0,\"r\":\"item\"")).and_then(|l| l.rsplit(':').next().and_then(|x| x.trim_end_matches('}').parse::<i64>().ok()))).unwrap_or(1) } else { 1 };
                let x = Pay::new(-k);
                let want = Key(k);
                drop(x);
                flagged(s.next_if_eq(&want), cx).map(|o| match o { Some(x) => R { r: "item", v: vec![x.read(), k] }, None => R { r: "nif", v: vec![0, k] } })
            }
            _ => s.poll_next(cx).map(|o| match o { Some(i) => item(i), None => R { r: "none", v: vec![] } }),
        };
        self.op = ["next", "peek", "peek", "pmut", "nif", "nife"][below(6) as usize];
        r
    }
    fn hint(&self) -> Option<(usize, Option<usize>)> { Some(self.s.size_hint()) }
    fn term(&self) -> Option<bool> { Some(self.s.is_terminated()) }
}
struct Key(i64);
impl PartialEq<Key> for Pay { fn eq(&self, o: &Key) -> bool { self.id == o.0 } }

/// FuturesOrdered, FuturesUnordered and SelectAll with pushes, inspection and clearing between polls.
fn push(k: i64, front: bool) { log(E::new("push").n("k", k).b("front", front)) }
fn none<A: Show>(o: Option<A>) -> R { match o { Some(i) => item(i), None => R { r: "none", v: vec![] } } }
/// Walks an iterator to its end; a wrong announced length shows as a member 0.
fn walk<I: ExactSizeIterator>(mut it: I, f: impl Fn(&I::Item) -> i64) -> (Vec<i64>, Vec<I::Item>) {
    let (mut lens, mut ks, mut v) = (vec![it.len()], vec![], vec![]);
    while let Some(x) = it.next() { ks.push(f(&x)); v.push(x); lens.push(it.len()) }
    if lens.iter().enumerate().any(|(i, l)| *l != v.len() - i) || it.next().is_some() { ks.push(0) }
    (ks, v)
}
fn members(mut v: Vec<i64>) { v.sort(); log(E::new("members").seq("v", &v)) }
macro_rules! set_driver {
    ($t:ty, $put:expr, $see:expr) => {
        impl Ad for $t {
            fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
                while self.left > 0 && (chance(11) || (self.s.is_empty() && chance(14))) { self.left -= 1; let put: fn(&mut Self) = $put; put(self) }
                if self.left > 0 && chance(2) { log(E::new("clear")); self.s.clear() }
                log(E::new("len").n("v", self.s.len() as i64).b("e2", self.s.is_empty()));
                if chance(4) { let see: fn(&mut Self) = $see; see(self) }
                Pin::new(&mut self.s).poll_next(cx).map(none)
            }
            fn hint(&self) -> Option<(usize, Option<usize>)> { if self.left == 0 { Some(self.s.size_hint()) } else { None } }
            fn term(&self) -> Option<bool> { if self.left == 0 { Some(self.s.is_terminated()) } else { None } }
            fn again(&mut self) -> bool { self.left > 0 }
        }
    };
}
struct AOrd { s: FuturesOrdered<SF<Pay>>, left: u32 }
set_driver!(AOrd, |a| match below(10) {
    0 => { let v = vec![fut::<Pay>(), fut::<Pay>()]; for f in &v { push(f.k, false) } a.s.extend(v) }
    1..=3 => { let f = fut::<Pay>(); push(f.k, true); a.s.push_front(f) }
    _ => { let f = fut::<Pay>(); push(f.k, false); a.s.push_back(f) }
}, |_| ());
struct AUno { s: FuturesUnordered<SF<Pay>>, left: u32 }
set_driver!(AUno, |a| match below(10) {
    0 => { let v = vec![fut::<Pay>(), fut::<Pay>()]; for f in &v { push(f.k, false) } a.s.extend(v) }
    1 => {
        // take the set apart and put it together again
        let (ks, v) = walk(std::mem::take(&mut a.s).into_iter(), |f| f.k);
        members(ks);
        log(E::new("clear"));
        for f in &v { push(f.k, false); unplace(f.k) }
        a.s = v.into_iter().collect();
    }
    _ => { let f = fut::<Pay>(); push(f.k, false); a.s.push(f) }
}, |a| match below(4) { 0 => members(walk(Pin::new(&a.s).iter_pin_ref(), |f| f.k).0), 3 => members(walk(a.s.iter(), |f| f.k).0), 1 => members(walk(a.s.iter_mut(), |f| f.k).0), _ => members(walk(Pin::new(&mut a.s).iter_pin_mut(), |f| f.k).0) });
struct AAll { s: stream::SelectAll<Src<Pay>>, left: u32 }
set_driver!(AAll, |a| match below(10) {
    0 => { let v = vec![s(), s()]; for f in &v { push(f.k, false) } a.s.extend(v) }
    1 => {
        let (ks, v) = walk(std::mem::take(&mut a.s).into_iter(), |f| f.k);
        members(ks);
        log(E::new("clear"));
        for f in &v { push(f.k, false); unplace(f.k) }
        a.s = v.into_iter().collect();
    }
    _ => { let f = s(); push(f.k, false); a.s.push(f) }
}, |a| if chance(10) { members(walk(a.s.iter(), |f| f.k).0) } else { members(walk(a.s.iter_mut(), |f| f.k).0) });
/// take_until whose stopping future may be taken out.
struct AUntil { s: Pin<Box<stream::TakeUntil<Src<Pay>, SF<Pay>>>> }
impl Ad for AUntil {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        if chance(2) { let f = self.s.take_future(); if f.is_some() { unplace(1) } log(E::new("tfut").n("v", f.is_some() as i64)) }
        if chance(3) { let r = self.s.take_result(); log(E::new("tres").n("v", r.show()[0])) }
        if chance(4) { log(E::new("stopped").b("v", self.s.is_stopped())) }
        self.s.as_mut().poll_next(cx).map(none)
    }
    fn hint(&self) -> Option<(usize, Option<usize>)> { Some(self.s.size_hint()) }
    fn term(&self) -> Option<bool> { Some(self.s.is_terminated()) }
    fn again(&mut self) -> bool { log(E::new("stopped").b("v", self.s.is_stopped())); let r = self.s.take_result(); log(E::new("tres").n("v", r.show()[0])); false }
}

pub fn kinds() -> Vec<Kind> {
    vec![
        ks("zip", "zip", || (fst(s().zip(s())), p(2))),
        kf("chain", "chain", || (fst(s().chain(s())), p(2))),
        kr("take_until", "take_until", || { let a = s(); (fst(a.take_until(fut::<Pay>())), p(1)) }),
        kr("ready_chunks", "ready_chunks", || { let n = 1 + below(3); (fst(s().ready_chunks(n as usize)), p(n as i64)) }),
        kr("try_ready_chunks", "tready_chunks", || { let n = 1 + below(3); (fst(src::<RP>().try_ready_chunks(n as usize)), p(n as i64)) }),
        kr("peekable", "peek", || (Box::new(APeek { s: Box::pin(s().peekable()), op: "next" }), p(0))),
        ks("cycle", "cycle", || { let script = gen_stream(false); (fst(CSrc { inner: src_of(script.clone()), script }.cycle()), p(0)) }),
        kr("poll_immediate", "poll_imm", || (fst(stream::poll_immediate(s())), p(0))),
        kf("unfold", "unfold", || { let i = pay(); let n = i.id; (fst(stream::unfold(i, |a| { let x = ask::<SF<Option<(Pay, Pay)>>>("f", &[a.read()]); x.map(|o| o.map(|(t, i)| (i, t))) })), vec![("n", 0), ("init", n)]) }),
        ks("try_unfold", "tunfold", || { let i = pay(); let n = i.id; (ust(stream::try_unfold(i, |a| { let x = ask::<SF<Result<Option<(Pay, Pay)>, Pay>>>("f", &[a.read()]); x.map_ok(|o| o.map(|(t, i)| (i, t))) })), vec![("n", 0), ("init", n)]) }),
        kf("catch_unwind", "catch_unwind", || (fst(s().catch_unwind()), p(0))),
        kf("flatten", "flatten", || (fst(src::<Src<Pay>>().flatten()), p(0))),
        kf("flat_map", "flat_map", || (fst(s().flat_map(|x| ask::<Src<Pay>>("f", &[x.read()]))), p(0))),
        kf("try_flatten", "tflatten", || (fst(src::<Result<Src<RP>, Pay>>().try_flatten()), p(0))),
        kf("flatten_stream", "fstream", || (fst(fut::<Src<Pay>>().flatten_stream()), p(0))),
        kf("try_flatten_stream", "tfstream", || (fst(fut::<Result<Src<RP>, Pay>>().try_flatten_stream()), p(0))),
        kf("flatten_unordered", "funo", || { let (l, n) = lim(); (fst(src::<Src<Pay>>().flatten_unordered(l)), p(n)) }),
        kf("flat_map_unordered", "fmuno", || { let (l, n) = lim(); (fst(s().flat_map_unordered(l, |x| ask::<Src<Pay>>("f", &[x.read()]))), p(n)) }),
        kf("try_flatten_unordered", "tfuno", || { let (l, n) = lim(); (fst(src::<Result<Src<RP>, Pay>>().try_flatten_unordered(l)), p(n)) }),
        kf("buffered", "buffered", || { let (l, n) = lim(); (fst(src::<SF<Pay>>().buffered(l)), p(n)) }),
        kf("buffer_unordered", "bufun", || { let (l, n) = lim(); (fst(src::<SF<Pay>>().buffer_unordered(l)), p(n)) }),
        kf("try_buffered", "tbuffered", || { let (l, n) = lim(); (ust(src::<Result<SF<RP>, Pay>>().try_buffered(l)), p(n)) }),
        kf("try_buffer_unordered", "tbufun", || { let (l, n) = lim(); (ust(src::<Result<SF<RP>, Pay>>().try_buffer_unordered(l)), p(n)) }),
        kuf("for_each_concurrent", "fec", || { let (l, n) = lim(); (ffu(s().for_each_concurrent(l, |x| ask::<SF<()>>("f", &[x.read()]))), p(n)) }),
        kuf("try_for_each_concurrent", "tfec", || { let (l, n) = lim(); (ffu(s().try_for_each_concurrent(l, |x| ask::<SF<Result<(), Pay>>>("f", &[x.read()]))), p(n)) }),
        kr("select", "select", || (fst(stream::select(s(), s())), p(2))),
        kr("select_with_strategy", "strategy", || (fst(stream::select_with_strategy(s(), s(), |_: &mut ()| if ask::<bool>("f", &[]) { PollNext::Right } else { PollNext::Left })), p(2))),
        kr("select_all", "select_all", || { let n = below(5); (fst(stream::select_all((0..n).map(|_| s()))), p(n as i64)) }),
        ks("stream_select", "select_any", || (ust(futures::stream_select!(s(), s(), s())), p(3))),
        ks("futures_ordered", "ordered", || (Box::new(AOrd { s: FuturesOrdered::new(), left: 1 + below(5) }), p(0))),
        ks("futures_unordered", "unordered", || (Box::new(AUno { s: FuturesUnordered::new(), left: 1 + below(5) }), p(0))),
        ks("select_all_push", "sall", || (Box::new(AAll { s: stream::SelectAll::new(), left: 1 + below(4) }), p(0))),
        kr("take_until_free", "take_until", || { let a = s(); (Box::new(AUntil { s: Box::pin(a.take_until(fut::<Pay>())) }), p(1)) }),
    ]
}
