//! Future adapters, joins and selects.
use super::*;
use futures::future::{self, Either, FutureExt, MaybeDone, OptionFuture, TryFutureExt, TryMaybeDone};
use futures::stream::{self, StreamExt};
use futures_task::{FutureObj, LocalFutureObj};
use futures_test::{future::FutureTestExt, stream::StreamTestExt};
use futures_util::compat::{Compat, Compat01As03, Compat01As03Sink, Executor01CompatExt, Executor01Future, Future01CompatExt, Stream01CompatExt};

type RP = Result<Pay, Pay>;
fn f() -> SF<Pay> { fut::<Pay>() }
fn t() -> SF<RP> { fut::<RP>() }
fn p(n: i64) -> Vec<(&'static str, i64)> { vec![("n", n), ("init", 0)] }
fn p0() -> Vec<(&'static str, i64)> { p(0) }
impl<A: Show, B: Show> Show for Either<A, B> { fn show(&self) -> Vec<i64> { match self { Either::Left(a) => a.show(), Either::Right(b) => b.show() } } fn failed(&self) -> bool { match self { Either::Left(a) => a.failed(), Either::Right(b) => b.failed() } } }
impl<A> Show for SF<A> { fn show(&self) -> Vec<i64> { vec![self.k] } }
impl Show for std::convert::Infallible { fn show(&self) -> Vec<i64> { vec![] } }

/// Spawners that keep what is spawned.
#[derive(Clone)]
struct Mbox(Arc<std::sync::Mutex<Vec<FutureObj<'static, ()>>>>);
impl futures_task::Spawn for Mbox { fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), futures_task::SpawnError> { self.0.lock().unwrap().push(f); Ok(()) } }
#[derive(Clone)]
struct Mbox01(Arc<std::sync::Mutex<Vec<Executor01Future>>>);
impl futures_01::future::Executor<Executor01Future> for Mbox01 { fn execute(&self, f: Executor01Future) -> Result<(), futures_01::future::ExecuteError<Executor01Future>> { self.0.lock().unwrap().push(f); Ok(()) } }
/// Polled again after its output.
struct AFuse { f: Pin<Box<future::Fuse<SF<Pay>>>>, done: bool, more: u32 }
impl Ad for AFuse {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        match self.f.as_mut().poll(cx) {
            Poll::Ready(x) => { if self.done { return Poll::Ready(R { r: "again", v: x.show() }) } self.done = true; Poll::Ready(R { r: "val", v: x.show() }) }
            Poll::Pending if self.done => Poll::Ready(R { r: "dead", v: vec![] }),
            Poll::Pending => Poll::Pending,
        }
    }
    fn term(&self) -> Option<bool> { Some(self.f.is_terminated()) }
    fn again(&mut self) -> bool { self.more -= 1; self.more > 0 }
}
/// MaybeDone / TryMaybeDone with their accessors used at any time.
struct AMd { f: Pin<Box<MaybeDone<SF<Pay>>>>, op: &'static str, gone: bool, left: u32 }
impl Ad for AMd {
    fn op(&self) -> &'static str { self.op }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        let op = self.op;
        let r = match op {
            "take" => { let o = self.f.as_mut().take_output(); if o.is_some() { self.gone = true } Poll::Ready(R { r: "took", v: o.show() }) }
            "mut" => Poll::Ready(R { r: "saw", v: match self.f.as_mut().output_mut() { Some(x) => { let old = x.read(); *x = pay(); vec![old, x.read()] } None => vec![0] } }),
            _ => self.f.as_mut().poll(cx).map(|()| R { r: "unit", v: vec![] }),
        };
        self.left -= 1;
        if self.left == 0 { return Poll::Ready(R { r: "none", v: vec![] }) }
        self.op = if self.gone { ["take", "mut"][below(2) as usize] } else { ["poll", "poll", "poll", "take", "mut"][below(5) as usize] };
        r
    }
    fn term(&self) -> Option<bool> { if self.left == 0 { None } else { Some(self.f.is_terminated()) } }
}
struct ATmd { f: Pin<Box<TryMaybeDone<SF<RP>>>>, op: &'static str, gone: bool, left: u32 }
impl Ad for ATmd {
    fn op(&self) -> &'static str { self.op }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        let op = self.op;
        let r = match op {
            "take" => { let o = self.f.as_mut().take_output(); if o.is_some() { self.gone = true } Poll::Ready(R { r: "took", v: o.show() }) }
            "mut" => Poll::Ready(R { r: "saw", v: match self.f.as_mut().output_mut() { Some(x) => { let old = x.read(); *x = pay(); vec![old, x.read()] } None => vec![0] } }),
            _ => self.f.as_mut().poll(cx).map(|o| match o { Ok(()) => R { r: "unit", v: vec![] }, Err(e) => { self.gone = true; R { r: "err", v: e.show() } } }),
        };
        self.left -= 1;
        if self.left == 0 { return Poll::Ready(R { r: "none", v: vec![] }) }
        self.op = if self.gone { ["take", "mut"][below(2) as usize] } else { ["poll", "poll", "poll", "take", "mut"][below(5) as usize] };
        r
    }
    fn term(&self) -> Option<bool> { if self.left == 0 { None } else { Some(self.f.is_terminated()) } }
}
/// Never resolves: polled a few times.
struct ANever<F> { f: Pin<Box<F>>, n: u32, term: fn(&F) -> Option<bool> }
impl<F: Future> Ad for ANever<F> {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        let r = self.f.as_mut().poll(cx);
        self.n -= 1;
        Poll::Ready(if r.is_ready() { R { r: "again", v: vec![] } } else if self.n == 0 { R { r: "none", v: vec![] } } else { R { r: "dead", v: vec![] } })
    }
    fn term(&self) -> Option<bool> { (self.term)(&self.f) }
}
/// select, then what it left, and so on: each output is an item <<index, value, rest...>>.
enum ASel { Two(future::Select<SF<Pay>, SF<Pay>>), TTwo(future::TrySelect<SF<RP>, SF<RP>>), All(future::SelectAll<SF<Pay>>), Rest(SF<Pay>), TRest(SF<RP>), End }
impl Ad for ASel {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        let ord = |i: i64, x: Vec<i64>, rest: Vec<i64>| { let mut v = vec![i]; v.extend(x); v.extend(rest); v };
        let (n, r) = match self {
            ASel::Two(s) => match std::task::ready!(s.poll_unpin(cx)) {
                Either::Left((x, b)) => (0, (x, b)), Either::Right((x, a)) => (1, (x, a)),
            },
            ASel::TTwo(s) => {
                let (i, e, x, rest) = match std::task::ready!(s.poll_unpin(cx)) {
                    Ok(Either::Left((x, b))) => (0, false, x, b), Ok(Either::Right((x, a))) => (1, false, x, a),
                    Err(Either::Left((x, b))) => (0, true, x, b), Err(Either::Right((x, a))) => (1, true, x, a),
                };
                let v = ord(i, x.show(), vec![rest.k]);
                *self = ASel::TRest(rest);
                return Poll::Ready(R { r: if e { "err" } else { "item" }, v });
            }
            ASel::All(s) => {
                let (x, i, rest) = std::task::ready!(s.poll_unpin(cx));
                let v = ord(i as i64, x.show(), rest.iter().map(|f| f.k).collect());
                *self = if rest.is_empty() { ASel::End } else if chance(15) { ASel::All(future::select_all(rest)) } else { let n = future::select_all(rest).into_inner(); ASel::All(n.into_iter().collect()) };
                return Poll::Ready(R { r: "item", v });
            }
            ASel::Rest(f) => { let x = std::task::ready!(f.poll_unpin(cx)); *self = ASel::End; return Poll::Ready(R { r: "item", v: ord(0, x.show(), vec![]) }) }
            ASel::TRest(f) => { let x = std::task::ready!(f.poll_unpin(cx)); *self = ASel::End; return Poll::Ready(R { r: if x.is_err() { "err" } else { "item" }, v: ord(0, x.show(), vec![]) }) }
            ASel::End => return Poll::Ready(R { r: "none", v: vec![] }),
        };
        let v = ord(n, r.0.show(), vec![r.1.k]);
        *self = ASel::Rest(r.1);
        Poll::Ready(R { r: "item", v })
    }
}
struct Yield(bool);
impl Future for Yield { type Output = (); fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; cx.waker().wake_by_ref(); Poll::Pending } } }
fn arm(i: i64, v: i64) { log(E::new("arm").n("i", i).n("v", v)) }
/// Branch handlers sometimes wait.
async fn rest() { if chance(4) { Yield(false).await } }
macro_rules! sel_loop {
    ($m:ident) => {{
        let (mut a, mut b, mut s) = (f(), f(), src_of::<Pay>(gen_stream(false)));
        async move {
            loop {
                log(E::new("enter"));
                futures::$m! {
                    x = a => arm(0, x.read()),
                    x = b => arm(1, x.read()),
                    x = s.select_next_some() => arm(2, x.read()),
                    complete => { arm(-1, 0); break }
                }
                rest().await
            }
        }
    }};
}
macro_rules! sel_def {
    ($m:ident) => {{
        let (mut a, mut b, mut s) = (f().fuse(), f(), src_of::<Pay>(gen_stream(false)).fuse());
        async move {
            let mut n = 0;
            loop {
                log(E::new("enter"));
                n += 1;
                if n > 40 { arm(-3, 0); break }
                futures::$m! {
                    x = a => arm(0, x.read()),
                    x = b => arm(1, x.read()),
                    x = s.next() => arm(2, x.map_or(0, |x| x.read())),
                    complete => { arm(-1, 0); break }
                    default => {
                        arm(-2, 0);
                        Yield(false).await;
                        let c = waiting();
                        if !c.is_empty() && chance(12) { wake_input(c[below(c.len() as u32) as usize]) }
                    }
                }
                rest().await
            }
        }
    }};
}
/// One branch is an expression evaluated anew each time.
macro_rules! sel_expr {
    ($m:ident) => {{
        let (mut a, mut s) = (f().fuse(), src_of::<Pay>(gen_stream(false)));
        async move {
            loop {
                log(E::new("enter"));
                futures::$m! {
                    x = a => arm(0, x.read()),
                    x = s.next() => arm(1, x.map_or(0, |x| x.read())),
                    complete => { arm(-1, 0); break }
                }
            }
        }
    }};
}
/// A single branch; once it is over, `select!` without `complete` panics.
macro_rules! sel_one {
    ($m:ident, $i:ident) => {{
        let mut $i = f();
        async move {
            loop {
                log(E::new("enter"));
                let r = std::panic::AssertUnwindSafe(async { futures::$m! { x = $i => arm(0, x.read()) } }).catch_unwind().await;
                if let Err(e) = r {
                    let ours = e.downcast_ref::<&str>().map_or(false, |m| m.contains("were completed")) || e.downcast_ref::<String>().map_or(false, |m| m.contains("were completed"));
                    if !ours { std::panic::resume_unwind(e) }
                    arm(-1, 0);
                    break;
                }
            }
        }
    }};
}
macro_rules! sel_just {
    ($m:ident) => {{
        let mut s = src_of::<Pay>(gen_stream(false)).fuse();
        async move {
            loop {
                log(E::new("enter"));
                futures::$m! {
                    x = s.select_next_some() => arm(0, x.read()),
                    complete => { arm(-1, 0); break }
                }
                rest().await
            }
        }
    }};
}
macro_rules! sel_many {
    ($m:ident) => {{
        let (mut a, mut b, mut c, mut d, mut e) = (f(), f(), f().fuse(), f(), f());
        async move {
            loop {
                log(E::new("enter"));
                futures::$m! {
                    x = a => arm(0, x.read()),
                    x = b => arm(1, x.read()),
                    x = c => arm(2, x.read()),
                    x = d => arm(3, x.read()),
                    x = e => arm(4, x.read()),
                    complete => { arm(-1, 0); break }
                }
            }
        }
    }};
}
fn show_ok<F: Future + 'static>(f: F) -> Box<dyn Ad> where F::Output: Show { fu(f) }

pub fn kinds() -> Vec<Kind> {
    vec![
        ku("f_map", "map", || { let g = pay(); (fu(f().map(move |x| { let _ = &g; ask::<Pay>("f", &[x.read()]) })), p0()) }),
        kuf("f_map_fused", "map", || (ffu(f().map(|x| ask::<Pay>("f", &[x.read()]))), p0())),
        kuf("f_then", "then", || { let g = pay(); (ffu(f().then(move |x| { let _ = &g; ask::<SF<Pay>>("f", &[x.read()]) })), p0()) }),
        kuf("f_flatten", "flatten", || (ffu(fut::<SF<Pay>>().flatten()), p0())),
        kuf("f_inspect", "inspect", || { let g = pay(); (ffu(f().inspect(move |x| { let _ = &g; ask::<()>("f", &[x.read()]) })), p0()) }),
        kuf("f_either", "id", || (if chance(10) { ffu(f().left_future::<SF<Pay>>()) } else { ffu(f().right_future::<SF<Pay>>()) }, p0())),
        ku("f_boxed", "id", || (if chance(10) { fu(f().boxed()) } else { fu(f().boxed_local()) }, p0())),
        kuf("f_map_into", "id", || (ffu(f().map_into::<super::tst::Conv>()), p0())),
        ku("f_unit_error", "id", || (fu(f().unit_error()), p0())),
        ku("f_never_error", "id", || (fu(f().never_error()), p0())),
        ku("f_poll_fn", "id", || { let mut x = f(); (fu(future::poll_fn(move |cx| x.poll_unpin(cx))), p0()) }),
        kuf("f_into_future", "id", || (ffu(t().into_future()), p0())),
        kuf("f_err_into", "id", || (ffu(t().err_into::<super::tst::Conv>()), p0())),
        kuf("f_ok_into", "id", || (ffu(t().ok_into::<super::tst::Conv>()), p0())),
        kuf("f_map_ok", "map_ok", || (ffu(t().map_ok(|x| ask::<Pay>("f", &[x.read()]))), p0())),
        kuf("f_map_err", "map_err", || (ffu(t().map_err(|x| ask::<Pay>("f", &[x.read()]))), p0())),
        kuf("f_inspect_ok", "inspect_ok", || (ffu(t().inspect_ok(|x| ask::<()>("f", &[x.read()]))), p0())),
        kuf("f_inspect_err", "inspect_err", || (ffu(t().inspect_err(|x| ask::<()>("f", &[x.read()]))), p0())),
        kuf("f_and_then", "and_then", || { let g = pay(); (ffu(t().and_then(move |x| { let _ = &g; ask::<SF<RP>>("f", &[x.read()]) })), p0()) }),
        kuf("f_or_else", "or_else", || { let g = pay(); (ffu(t().or_else(move |x| { let _ = &g; ask::<SF<RP>>("f", &[x.read()]) })), p0()) }),
        kuf("f_unwrap_or_else", "unwrap_or_else", || (ffu(t().unwrap_or_else(|x| ask::<Pay>("f", &[x.read()]))), p0())),
        kuf("f_map_ok_or_else", "map_ok_or_else", || (ffu(t().map_ok_or_else(|e| ask::<Pay>("g", &[e.read()]), |x| ask::<Pay>("f", &[x.read()]))), p0())),
        kuf("f_try_flatten", "try_flatten", || (ffu(fut::<Result<SF<RP>, Pay>>().try_flatten()), p0())),
        ku("f_fuse", "fuse", || (Box::new(AFuse { f: Box::pin(f().fuse()), done: false, more: 4 }), p0())),
        kuf("f_option", "option", || { let o = if chance(12) { Some(f()) } else { None }; let n = o.is_some() as i64; (if n == 1 { ffu(OptionFuture::from(o)) } else { fu(OptionFuture::from(o)) }, p(n)) }),
        kr("f_into_stream", "into_stream", || (fst(f().into_stream()), p0())),
        kr("f_once", "into_stream", || (fst(stream::once(f())), p0())),
        ku("f_catch_unwind", "catch_unwind", || (fu(std::panic::AssertUnwindSafe(f()).catch_unwind()), p0())),
        ku("f_poll_immediate", "poll_imm", || (ffu(future::poll_immediate(f())), p0())),
        ks("f_poll_immediate_stream", "poll_imms", || (ust(future::poll_immediate(f())), p0())),
        ku("f_poll_macro", "poll_imm", || { let mut x = f(); (fu(async move { futures::poll!(&mut x) }), p0()) }),
        ku("f_now_or_never", "poll_imm", || { struct N(Option<SF<Pay>>); impl Ad for N { fn poll(&mut self, _: &mut Context<'_>) -> Poll<R> { Poll::Ready(R { r: "val", v: self.0.take().unwrap().now_or_never().show() }) } } (Box::new(N(Some(f()))), p0()) }),
        kuf("f_lazy", "lazy", || (ffu(future::lazy(|_| ask::<Pay>("f", &[]))), p0())),
        kuf("f_ready", "iter1", || { let x = pay(); let i = x.id; (ffu(future::ready(x)), vec![("n", 0), ("init", i)]) }),
        ku("f_ready_inner", "iter1", || { let x = pay(); let i = x.id; (fu(async move { future::ready(x).into_inner() }), vec![("n", 0), ("init", i)]) }),
        ks("f_maybe_done", "maybe_done", || (Box::new(AMd { f: Box::pin(future::maybe_done(f())), op: "poll", gone: false, left: 4 + below(8) }), p0())),
        ks("f_try_maybe_done", "maybe_done", || (Box::new(ATmd { f: Box::pin(future::try_maybe_done(t())), op: "poll", gone: false, left: 4 + below(8) }), p0())),
        ks("f_pending", "never", || (Box::new(ANever { f: Box::pin(future::pending::<Pay>()), n: 3, term: |f| Some(f.is_terminated()) }), p0())),
        ks("f_fuse_terminated", "never", || (Box::new(ANever { f: Box::pin(future::Fuse::<SF<Pay>>::terminated()), n: 3, term: |f| Some(f.is_terminated()) }), p0())),
        ks("s_pending", "never", || (Box::new(ANever { f: Box::pin(async { stream::pending::<Pay>().next().await }), n: 3, term: |_| { let s = stream::pending::<Pay>(); (s.size_hint().0 > 0).then_some(true).or(Some(s.is_terminated())) } }), p0())),
        ks("f_always_ready", "always", || { struct N(future::AlwaysReady<Pay, fn() -> Pay>, u32); impl Ad for N { fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> { self.1 -= 1; if self.1 == 0 { return Poll::Ready(R { r: "none", v: vec![] }) } if chance(10) { self.0 = self.0.clone() } self.0.poll_unpin(cx).map(item) } fn term(&self) -> Option<bool> { Some(self.1 == 0 || self.0.is_terminated()) } } (Box::new(N(future::always_ready(|| ask::<Pay>("f", &[])), 5)), p0()) }),
        ku("f_either_factor", "pair", || { let (a, b) = (pay(), pay()); let i = a.id; let e = || -> Either<(Pay, Pay), (Pay, Pay)> { if chance(10) { Either::Left((a, b)) } else { Either::Right((a, b)) } }; (match below(3) { 0 => fu(future::ready({ let (x, y) = e().factor_first(); (x, y) })), 1 => fu(future::ready({ let (x, y) = e().factor_second(); (x, y) })), _ => fu(future::ready(e().into_inner())) }, vec![("n", 0), ("init", i)]) }),
        ku("f_ok", "iter1", || { let x = pay(); let i = x.id; (fu(future::ok::<Pay, Pay>(x)), vec![("n", 0), ("init", i)]) }),
        ku("f_err", "iter1e", || { let x = pay(); let i = x.id; (fu(future::err::<Pay, Pay>(x)), vec![("n", 0), ("init", i)]) }),
        // boxed and borrowed future objects
        ku("f_obj", "id", || (match below(7) {
            0 => fu(FutureObj::new(Box::new(f()))), 1 => fu(FutureObj::new(Box::pin(f()))), 2 => fu(FutureObj::new({ let b: Box<dyn Future<Output = Pay> + Send> = Box::new(f()); b })),
            3 => fu(FutureObj::new({ let b: Pin<Box<dyn Future<Output = Pay> + Send>> = Box::pin(f()); b })), 4 => fu(LocalFutureObj::from(FutureObj::new(Box::new(f())))),
            5 => fu(unsafe { LocalFutureObj::new(Box::pin(f())).into_future_obj() }), _ => fu(Box::new(FutureObj::new(Box::new(f())))),
        }, p0())),
        ku("f_obj_local", "id", || (match below(5) {
            0 => fu(LocalFutureObj::new(Box::new(f()))), 1 => fu(LocalFutureObj::new(Box::pin(f()))), 2 => fu(LocalFutureObj::new({ let b: Box<dyn Future<Output = Pay>> = Box::new(f()); b })),
            3 => fu(LocalFutureObj::new({ let b: Pin<Box<dyn Future<Output = Pay>>> = Box::pin(f()); b })), _ => fu(LocalFutureObj::new(Box::new(LocalFutureObj::new(Box::new(f()))))),
        }, p0())),
        ku("f_obj_mut", "id", || { let mut x = f(); (match below(6) {
            0 => fu(async move { FutureObj::new(&mut x).await }), 1 => fu(async move { LocalFutureObj::new(&mut x).await }), 2 => fu(async move { FutureObj::new(Pin::new(&mut x)).await }),
            3 => fu(async move { LocalFutureObj::new(Pin::new(&mut x)).await }), 4 => fu(async move { let d: &mut (dyn Future<Output = Pay> + Unpin) = &mut x; LocalFutureObj::new(d).await }),
            _ => fu(async move { let y = Pin::new(&mut x); let d: Pin<&mut dyn Future<Output = Pay>> = y; LocalFutureObj::new(d).await }),
        }, p0()) }),
        ku("f_obj_unit", "id", || { let k = fut::<()>(); (match below(6) {
            0 => fu(FutureObj::from(Box::new(k)).map(|()| 0i64)), 1 => fu(FutureObj::from(Box::pin(k)).map(|()| 0i64)), 2 => fu(FutureObj::from({ let b: Box<dyn Future<Output = ()> + Send> = Box::new(k); b }).map(|()| 0i64)),
            3 => fu(LocalFutureObj::from(Box::new(k)).map(|()| 0i64)), 4 => fu(LocalFutureObj::from(Box::pin(k)).map(|()| 0i64)), _ => fu(LocalFutureObj::from({ let b: Pin<Box<dyn Future<Output = ()>>> = Box::pin(k); b }).map(|()| 0i64)),
        }, p0()) }),
        // to futures 0.1 and back
        ku("compat_future", "id", || (match below(4) { 0 => fu(Compat01As03::new(Compat::new(t()))), 1 => fu(Future01CompatExt::compat(TryFutureExt::compat(t()))), 2 => fu(Compat01As03::new(Compat::new(Compat01As03::new(Compat::new(t()))))), _ => fu(Compat01As03::new(Compat::new(Compat01As03::new(Compat::new(t())).into_inner().into_inner()))) }, p0())),
        ks("compat_stream", "strm", || (match below(3) { 0 => ust(Compat01As03::new(Compat::new(src::<RP>()))), 1 => ust(Stream01CompatExt::compat(futures::stream::TryStreamExt::compat(src::<RP>()))), _ => ust(Compat01As03::new(Compat::new(Compat01As03::new(Compat::new(src::<RP>()))))) }, p0())),
        ks("compat_sink_stream", "strm", || (ust(Compat01As03Sink::<_, Pay>::new(Compat::new(src::<RP>()))), p0())),
        ku("compat_spawn", "id", || {
            let m = Mbox(Default::default());
            let e = Compat::new(m.clone());
            futures_01::future::Executor::execute(&e, Compat::new(fut::<()>().unit_error())).ok().unwrap();
            let x = m.0.lock().unwrap().pop().unwrap();
            (fu(x.map(|()| 0i64)), p0())
        }),
        ku("compat_execute", "id", || {
            let m = Mbox01(Default::default());
            let s = Executor01CompatExt::compat(m.clone());
            futures_task::Spawn::spawn_obj(&s, FutureObj::new(Box::new(fut::<()>()))).unwrap();
            let x = m.0.lock().unwrap().pop().unwrap();
            (fu(Future01CompatExt::compat(x).map(|r| { r.unwrap(); 0i64 })), p0())
        }),
        // test helpers
        kuf("test_pending_once", "ponce", || (ffu(f().pending_once()), p0())),
        kuf("test_interleave_pending", "ilp", || (ffu(FutureTestExt::interleave_pending(f())), p0())),
        kuf("test_unmoved", "id", || (ffu(FutureTestExt::assert_unmoved(f())), p0())),
        kf("test_interleave_pending_stream", "ilps", || (fst(StreamTestExt::interleave_pending(src::<RP>())), p0())),
        kf("test_unmoved_stream", "strm", || (fst(StreamTestExt::assert_unmoved(src::<RP>())), p0())),
        // stream constructors
        ks("s_iter", "iter", || { let n = below(4) as i64; let v: Vec<Pay> = (0..n).map(|_| pay()).collect(); let i = v.first().map_or(0, |x| x.id); (ust(stream::iter(v)), vec![("n", n), ("init", i)]) }),
        kr("s_empty", "iter", || (fst(stream::empty::<Pay>()), vec![("n", 0), ("init", 0)])),
        ks("s_repeat", "repeat", || { let x = pay(); let i = x.id; (fst(stream::repeat(x)), vec![("n", 0), ("init", i)]) }),
        ks("s_repeat_with", "repeat_with", || (fst(stream::repeat_with(|| ask::<Pay>("f", &[]))), p0())),
        // the flags of the futures themselves, and through references
        ku("f_pending_macro", "ponce", || { let x = f(); (fu(async move { let w = std::future::poll_fn(|cx| Poll::Ready(cx.waker().clone())).await; w.wake(); futures::pending!(); x.await }), p0()) }),
        kuf("f_mut", "id", || (ffu(Lent::new(f().map(|x| x), |x| x)), p0())),
        kuf("f_pinned", "id", || (ffu(Via(Box::pin(f().map(|x| x)), |x| x)), p0())),
        kuf("fselect_flag", "sel1", || (ffu(Via(future::select(f(), f()), |e| match e { Either::Left((x, b)) => (0i64, x, b), Either::Right((x, a)) => (1i64, x, a) })), p(2))),
        // joins
        kuf("join2", "join", || (ffu(future::join(f(), f())), p(2))),
        ku("join_macro", "join", || { let (a, b, c) = (f(), f(), f()); (show_ok(async move { futures::join!(a, b, c) }), p(3)) }),
        ku("join_macro1", "join", || { let a = f(); (show_ok(async move { futures::join!(a).0 }), p(1)) }),
        ku("join_all", "join", || { let n = below(6); (fu(future::join_all((0..n).map(|_| f()).collect::<Vec<_>>())), p(n as i64)) }),
        ku("join_all_big", "join", || { let n = 31 + below(3); (fu(future::join_all((0..n).map(|_| f()).collect::<Vec<_>>())), vec![("n", n as i64), ("init", 1)]) }),
        ku("join_all_nohint", "join", || { let n = below(6); (fu((0..n).map(|_| f()).filter(|_| true).map(|x| x).take_while(|_| true).chain(std::iter::from_fn(|| None)).collect::<future::JoinAll<_>>()), vec![("n", n as i64), ("init", 1)]) }),
        ku("try_join2", "join", || (fu(future::try_join(t(), t())), p(2))),
        ku("try_join_macro", "join", || { let (a, b, c) = (t(), t(), t()); (show_ok(async move { futures::try_join!(a, b, c) }), p(3)) }),
        ku("try_join_all", "join", || { let n = below(6); (fu(future::try_join_all((0..n).map(|_| t()).collect::<Vec<_>>())), p(n as i64)) }),
        ku("try_join_all_big", "join", || { let n = 31 + below(3); (fu(future::try_join_all((0..n).map(|_| t()).collect::<Vec<_>>())), vec![("n", n as i64), ("init", 1)]) }),
        ku("try_join_all_nohint", "join", || { let n = below(6); (fu((0..n).map(|_| t()).chain(std::iter::from_fn(|| None)).collect::<future::TryJoinAll<_>>()), vec![("n", n as i64), ("init", 1)]) }),
        // selects
        kuf("fselect", "sel1", || (ffu(future::select(f(), f()).map(|e| match e { Either::Left((x, b)) => (0i64, x, b), Either::Right((x, a)) => (1i64, x, a) })), p(2))),
        ks("fselect_rest", "sel", || (Box::new(ASel::Two(future::select(f(), f()))), p(2))),
        ks("ftry_select", "sel", || (Box::new(ASel::TTwo(future::try_select(t(), t()))), p(2))),
        ks("fselect_all", "sel", || { let n = 1 + below(5); (Box::new(ASel::All(future::select_all((0..n).map(|_| f())))), p(n as i64)) }),
        ku("select_ok", "select_ok", || { let n = 1 + below(5); (fu(future::select_ok((0..n).map(|_| t())).map_ok(|(x, rest)| { let mut r: Vec<i64> = rest.iter().map(|f| f.k).collect(); r.sort(); (x, r) })), p(n as i64)) }),
        ku("select_macro", "selm", || (fu(sel_loop!(select)), vec![("n", 3), ("init", 0)])),
        ku("select_biased_macro", "selm", || (fu(sel_loop!(select_biased)), vec![("n", 3), ("init", 1)])),
        ku("select_default_macro", "selm", || (fu(sel_def!(select)), vec![("n", 3), ("init", 0)])),
        ku("select_biased_default_macro", "selm", || (fu(sel_def!(select_biased)), vec![("n", 3), ("init", 1)])),
        ku("select_expr_macro", "selm", || (fu(sel_expr!(select)), vec![("n", 2), ("init", 0)])),
        ku("select_biased_expr_macro", "selm", || (fu(sel_expr!(select_biased)), vec![("n", 2), ("init", 1)])),
        ku("select_one_macro", "selm", || (fu(sel_one!(select, a)), vec![("n", 1), ("init", 0)])),
        ku("select_biased_one_macro", "selm", || (fu(sel_one!(select_biased, a)), vec![("n", 1), ("init", 1)])),
        ku("select_just_macro", "selm", || (fu(sel_just!(select)), vec![("n", 1), ("init", 0)])),
        ku("select_biased_just_macro", "selm", || (fu(sel_just!(select_biased)), vec![("n", 1), ("init", 1)])),
        ku("select_many_macro", "selm", || (fu(sel_many!(select)), vec![("n", 5), ("init", 0)])),
        ku("select_biased_many_macro", "selm", || (fu(sel_many!(select_biased)), vec![("n", 5), ("init", 1)])),
    ]
}
