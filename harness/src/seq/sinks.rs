//! Sink adapters, and futures that drive sinks.
use super::*;
use futures::future::{FutureExt, TryFutureExt};
use futures::sink::{self, Sink, SinkExt};
use futures::stream::{StreamExt, TryStreamExt};
use futures_test::sink::SinkTestExt;
use futures_util::compat::{Compat01As03Sink, CompatSink, Sink01CompatExt};

use futures::future::ready;
fn once<A>(a: A) -> futures::stream::Once<futures::future::Ready<A>> { futures::stream::once(ready(a)) }
type RP = Result<Pay, Pay>;
fn p(n: i64) -> Vec<(&'static str, i64)> { vec![("n", n), ("init", 0)] }
fn p0() -> Vec<(&'static str, i64)> { p(0) }

/// A scripted sink.
pub struct Snk { pub k: i64, wait: &'static str, _g: Pay }
pub fn snk() -> Snk { Snk { k: new_input(vec![]), wait: "", _g: pay() } }
impl Tok for Snk { fn ok() -> (Self, i64) { let s = snk(); let k = s.k; (s, k) } }
impl Drop for Snk { fn drop(&mut self) { place(self.k, &*self, true); gone(self.k) } }
impl std::fmt::Debug for Snk { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "snk{}", self.k) } }
impl Snk {
    fn go(&mut self, op: &'static str, cx: &mut Context<'_>) -> Poll<RPU> {
        let k = self.k;
        place(k, &*self, false);
        let l = |r: &str, v: i64| log(E::new("snk").n("k", k).s("op", op).s("r", r).n("v", 0).n("x", v));
        let waiting = with(|e| e.inp[k as usize].waiting);
        let mut v = vec![];
        if !(waiting && self.wait == op) {
            let p = with(|e| e.prof);
            if chance(p.pend) { v.push(T::Pend) } else if chance(p.yld) { v.push(T::Yield) } else if chance(p.panic) { v.push(T::Panic) } else if below(40) < p.err { v.push(T::Err) } else { v.push(T::Item) }
            with(|e| { let i = &mut e.inp[k as usize]; i.script = v; i.pos = 0; i.waiting = false });
        }
        match step(k, cx) {
            T::Pend => { self.wait = op; l("pend", 0); Poll::Pending }
            T::Yield => { l("pend", 1); Poll::Pending }
            T::Err => { let e = pay(); l("err", e.id); Poll::Ready(Err(e)) }
            T::Panic => { l("panic", 0); user_panic() }
            _ => { l("ok", 0); Poll::Ready(Ok(())) }
        }
    }
}
type RPU = Result<(), Pay>;
/// A sink that is also a stream.
struct Duo(Snk);
impl Tok for Duo { fn ok() -> (Self, i64) { let s = snk(); let k = s.k; (Duo(s), k) } }
impl futures::Stream for Duo { type Item = Pay; fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Pay>> { Poll::Ready(None) } }
impl Sink<Pay> for Duo {
    type Error = Pay;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { Pin::new(&mut self.0).poll_ready(cx) }
    fn start_send(mut self: Pin<&mut Self>, item: Pay) -> RPU { Pin::new(&mut self.0).start_send(item) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { Pin::new(&mut self.0).poll_flush(cx) }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { Pin::new(&mut self.0).poll_close(cx) }
}
impl Sink<Pay> for Snk {
    type Error = Pay;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { self.go("ready", cx) }
    fn start_send(self: Pin<&mut Self>, item: Pay) -> RPU {
        let v = item.read();
        if below(60) < with(|e| e.prof.err) { let e = pay(); log(E::new("snk").n("k", self.k).s("op", "send").s("r", "err").n("v", v).n("x", e.id)); return Err(e) }
        log(E::new("snk").n("k", self.k).s("op", "send").s("r", "ok").n("v", v).n("x", 0));
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { self.go("flush", cx) }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { self.go("close", cx) }
}

/// A user of a sink: any sequence of operations the contract allows.
struct ASink<S> { s: Pin<Box<S>>, op: &'static str, left: u32 }
impl<S: Sink<Pay>> Ad for ASink<S> where S::Error: Show {
    fn op(&self) -> &'static str { self.op }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        let op = self.op;
        let s = self.s.as_mut();
        let r = match op {
            "ready" => s.poll_ready(cx),
            "send" => { let x = pay(); log(E::new("item").n("v", x.id)); self.left = self.left.saturating_sub(1); Poll::Ready(s.start_send(x)) }
            "flush" => s.poll_flush(cx),
            _ => s.poll_close(cx),
        };
        match r {
            Poll::Ready(Ok(())) => {
                self.op = match op { "ready" if chance(17) => "send", "close" => "close", _ if self.left == 0 => "close", _ => ["ready", "ready", "ready", "flush", "close"][below(if chance(2) { 5 } else { 4 }) as usize] };
                Poll::Ready(R { r: if op == "close" { "val" } else { "ok" }, v: vec![] })
            }
            Poll::Ready(Err(e)) => Poll::Ready(R { r: "err", v: e.show() }),
            Poll::Pending => { if op != "close" && chance(4) { self.op = ["ready", "flush", "close"][below(3) as usize] } Poll::Pending }
        }
    }
}
fn sk<S: Sink<Pay> + 'static>(s: S) -> Box<dyn Ad> where S::Error: Show { Box::new(ASink { s: Box::pin(s), op: "ready", left: below(7) }) }
struct E2(Pay);
impl From<Pay> for E2 { fn from(p: Pay) -> E2 { E2(p) } }
impl Show for E2 { fn show(&self) -> Vec<i64> { self.0.show() } }

/// Collections as sinks: what arrives is logged as for a scripted sink.
struct Watch<S> { s: S, last: fn(&S) -> (usize, i64) }
impl<S: Sink<Pay, Error = std::convert::Infallible> + Unpin> Sink<Pay> for Watch<S> {
    type Error = Pay;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { let r = Pin::new(&mut self.s).poll_ready(cx); log(E::new("snk").n("k", 0).s("op", "ready").s("r", if r.is_ready() { "ok" } else { "pend" }).n("v", 0).n("x", 0)); r.map(|_| Ok(())) }
    fn start_send(mut self: Pin<&mut Self>, item: Pay) -> RPU {
        let n = (self.last)(&self.s).0;
        let _ = Pin::new(&mut self.s).start_send(item);
        let (m, v) = (self.last)(&self.s);
        log(E::new("snk").n("k", 0).s("op", "send").s("r", "ok").n("v", if m == n + 1 { v } else { -1 }).n("x", 0));
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { let n = (self.last)(&self.s); let r = Pin::new(&mut self.s).poll_flush(cx); let ok = n == (self.last)(&self.s); log(E::new("snk").n("k", 0).s("op", "flush").s("r", if r.is_ready() && ok { "ok" } else { "pend" }).n("v", 0).n("x", 0)); r.map(|_| Ok(())) }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { let n = (self.last)(&self.s); let r = Pin::new(&mut self.s).poll_close(cx); let ok = n == (self.last)(&self.s); log(E::new("snk").n("k", 0).s("op", "close").s("r", if r.is_ready() && ok { "ok" } else { "pend" }).n("v", 0).n("x", 0)); r.map(|_| Ok(())) }
}
/// The *_unpin conveniences.
struct Unp(Snk);
impl Sink<Pay> for Unp {
    type Error = Pay;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { SinkExt::<Pay>::poll_ready_unpin(&mut self.0, cx) }
    fn start_send(mut self: Pin<&mut Self>, item: Pay) -> RPU { self.0.start_send_unpin(item) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { SinkExt::<Pay>::poll_flush_unpin(&mut self.0, cx) }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { SinkExt::<Pay>::poll_close_unpin(&mut self.0, cx) }
}
/// Compares `is_closed` with what the sink said.
struct Tc(futures_test::sink::TrackClosed<Snk>);
impl Tc { fn see<A>(&self, a: A) -> A { log(E::new("closed").b("v", self.0.is_closed())); a } }
impl Sink<Pay> for Tc {
    type Error = Pay;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { let r = Sink::<Pay>::poll_ready(Pin::new(&mut self.0), cx); self.see(r) }
    fn start_send(mut self: Pin<&mut Self>, item: Pay) -> RPU { let r = Pin::new(&mut self.0).start_send(item); self.see(r) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { let r = Sink::<Pay>::poll_flush(Pin::new(&mut self.0), cx); self.see(r) }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { let r = Sink::<Pay>::poll_close(Pin::new(&mut self.0), cx); self.see(r) }
}
/// Stream and sink in one, for adapters that pass the sink half through.
pub struct Both { a: Src<Pay>, b: Snk }
impl Stream for Both { type Item = Pay; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Pay>> { Pin::new(&mut self.a).poll_next(cx) } }
impl FusedStream for Both { fn is_terminated(&self) -> bool { self.a.is_terminated() } }
impl Sink<Pay> for Both {
    type Error = Pay;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { Pin::new(&mut self.b).poll_ready(cx) }
    fn start_send(mut self: Pin<&mut Self>, item: Pay) -> RPU { Pin::new(&mut self.b).start_send(item) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { Pin::new(&mut self.b).poll_flush(cx) }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RPU> { Pin::new(&mut self.b).poll_close(cx) }
}
/// A live stream with a sink nobody uses, for sink adapters that pass the stream half through.
pub fn streamy() -> Both { let a = src::<Pay>(); Both { a, b: snk() } }
fn both() -> Both { let b = snk(); Both { a: src_of(vec![T::End]), b } }

pub fn kinds() -> Vec<Kind> {
    vec![
        ku("sink_boxed", "id", || (sk(Box::new(snk())), p(1))),
        ku("sink_pinned", "id", || (sk(Box::pin(snk())), p(1))),
        ku("sink_either", "id", || (if chance(10) { sk(snk().left_sink::<Snk>()) } else { sk(snk().right_sink::<Snk>()) }, p(1))),
        ku("sink_err_into", "id", || (sk(snk().sink_err_into::<E2>()), p(1))),
        ku("sink_map_err", "map_err", || { let g = pay(); (sk(snk().sink_map_err(move |e| { let _ = &g; ask::<Pay>("f", &[e.read()]) })), p(1)) }),
        ku("sink_with", "with", || { let g = pay(); (sk(snk().with(move |x: Pay| { let _ = &g; ask::<SF<RP>>("f", &[x.read()]) })), p(1)) }),
        ku("sink_with_flat_map", "wfm", || { let g = pay(); (sk(snk().with_flat_map(move |x: Pay| { let _ = &g; ask::<Src<RP>>("f", &[x.read()]) })), p(1)) }),
        ku("sink_buffer", "buffer", || { let n = below(4); (sk(snk().buffer(n as usize)), p(n as i64)) }),
        ku("sink_fanout", "id", || { let a = snk(); let b = snk(); (sk(a.fanout(b)), p(2)) }),
        ku("sink_unfold", "unfold", || { let i = pay(); let n = i.id; (sk(sink::unfold(i, |a: Pay, x: Pay| ask::<SF<RP>>("f", &[a.read(), x.read()]))), vec![("n", 0), ("init", n)]) }),
        ku("sink_drain", "drain", || (sk(sink::drain()), p(0))),
        ku("sink_flatten_stream", "flatten", || (sk(fut::<Duo>().flatten_stream()), p(0))),
        ku("sink_flatten", "flatten", || (sk(fut::<Result<Snk, Pay>>().flatten_sink()), p(0))),
        // the sink half of stream adapters
        ku("sink_of_map", "id", || (sk(both().map(|x| x)), p(1))),
        ku("sink_of_fuse", "id", || (sk(both().fuse()), p(1))),
        ku("sink_of_buffered", "id", || (sk(both().map(|x| ready(x)).buffered(2)), p(1))),
        ku("sink_of_buffer_unordered", "id", || (sk(both().map(|x| ready(x)).buffer_unordered(2)), p(1))),
        ku("sink_of_chunks", "id", || (sk(both().chunks(2)), p(1))),
        ku("sink_of_ready_chunks", "id", || (sk(both().ready_chunks(2)), p(1))),
        ku("sink_of_peekable", "id", || (sk(both().peekable()), p(1))),
        ku("sink_of_then", "id", || (sk(both().then(|x| ready(x))), p(1))),
        ku("sink_of_filter", "id", || (sk(both().filter(|_| ready(true))), p(1))),
        ku("sink_of_filter_map", "id", || (sk(both().filter_map(|x| ready(Some(x)))), p(1))),
        ku("sink_of_flatten", "id", || (sk(both().map(|x| once(x)).flatten()), p(1))),
        ku("sink_of_flat_map", "id", || (sk(both().flat_map(|x| once(x))), p(1))),
        ku("sink_of_flatten_unordered", "id", || (sk(both().map(|x| once(x)).flatten_unordered(2)), p(1))),
        ku("sink_of_take", "id", || (sk(both().take(1)), p(1))),
        ku("sink_of_take_while", "id", || (sk(both().take_while(|_| ready(true))), p(1))),
        ku("sink_of_take_until", "id", || (sk(both().take_until(ready(()))), p(1))),
        ku("sink_of_skip", "id", || (sk(both().skip(1)), p(1))),
        ku("sink_of_skip_while", "id", || (sk(both().skip_while(|_| ready(true))), p(1))),
        ku("sink_of_enumerate", "id", || (sk(both().enumerate()), p(1))),
        ku("sink_of_inspect", "id", || (sk(both().inspect(|_| ())), p(1))),
        ku("sink_of_scan", "id", || (sk(both().scan((), |_, x| ready(Some(((), x))))), p(1))),
        ku("sink_of_map_ok", "id", || (sk(both().map(Ok::<Pay, Pay>).map_ok(|x| x)), p(1))),
        ku("sink_of_map_err", "id", || (sk(both().map(Ok::<Pay, Pay>).map_err(|x| x)), p(1))),
        ku("sink_of_inspect_ok", "id", || (sk(both().map(Ok::<Pay, Pay>).inspect_ok(|_| ())), p(1))),
        ku("sink_of_inspect_err", "id", || (sk(both().map(Ok::<Pay, Pay>).inspect_err(|_| ())), p(1))),
        ku("sink_of_err_into", "id", || (sk(both().map(Ok::<Pay, Pay>).err_into::<Pay>()), p(1))),
        ku("sink_of_and_then", "id", || (sk(both().map(Ok::<Pay, Pay>).and_then(|x| ready(Ok(x)))), p(1))),
        ku("sink_of_or_else", "id", || (sk(both().map(Ok::<Pay, Pay>).or_else(|x| ready(Err::<Pay, Pay>(x)))), p(1))),
        ku("sink_of_try_filter", "id", || (sk(both().map(Ok::<Pay, Pay>).try_filter(|_| ready(true))), p(1))),
        ku("sink_of_try_filter_map", "id", || (sk(both().map(Ok::<Pay, Pay>).try_filter_map(|x| ready(Ok(Some(x))))), p(1))),
        ku("sink_of_try_skip_while", "id", || (sk(both().map(Ok::<Pay, Pay>).try_skip_while(|_| ready(Ok(true)))), p(1))),
        ku("sink_of_try_take_while", "id", || (sk(both().map(Ok::<Pay, Pay>).try_take_while(|_| ready(Ok(true)))), p(1))),
        ku("sink_of_try_chunks", "id", || (sk(both().map(Ok::<Pay, Pay>).try_chunks(2)), p(1))),
        ku("sink_of_try_ready_chunks", "id", || (sk(both().map(Ok::<Pay, Pay>).try_ready_chunks(2)), p(1))),
        ku("sink_of_try_buffered", "id", || (sk(both().map(|x| Ok::<_, Pay>(ready(Ok::<Pay, Pay>(x)))).try_buffered(2)), p(1))),
        ku("sink_of_try_buffer_unordered", "id", || (sk(both().map(|x| Ok::<_, Pay>(ready(Ok::<Pay, Pay>(x)))).try_buffer_unordered(2)), p(1))),
        ku("sink_of_try_flatten", "id", || (sk(both().map(|x| Ok::<_, Pay>(once(Ok::<Pay, Pay>(x)))).try_flatten()), p(1))),
        ku("sink_of_try_flatten_unordered", "id", || (sk(both().map(|x| Ok::<_, Pay>(once(Ok::<Pay, Pay>(x)))).try_flatten_unordered(2)), p(1))),
        ku("sink_of_into_stream", "id", || (sk(both().map(Ok::<Pay, Pay>).into_stream()), p(1))),
        ku("sink_unpin", "id", || (sk(Unp(snk())), p(1))),
        ku("sink_dyn", "id", || { let b: Box<dyn Sink<Pay, Error = Pay> + Unpin> = Box::new(snk()); (sk(b), p(1)) }),
        ku("sink_vec", "id", || { new_input(vec![]); (sk(Watch { s: Vec::<Pay>::new(), last: |v| (v.len(), v.last().map_or(0, |x| x.read())) }), p(1)) }),
        ku("sink_deque", "id", || { new_input(vec![]); (sk(Watch { s: std::collections::VecDeque::<Pay>::new(), last: |v| (v.len(), v.back().map_or(0, |x| x.read())) }), p(1)) }),
        ku("compat_sink", "buffer", || (match below(2) { 0 => sk(Compat01As03Sink::new(CompatSink::new(snk()))), _ => sk(SinkExt::<Pay>::compat(snk()).sink_compat()) }, p(1))),
        ku("test_interleave_pending_sink", "id", || (sk(SinkTestExt::<Pay>::interleave_pending_sink(snk())), p(1))),
        ku("test_unmoved_sink", "id", || (sk(SinkTestExt::<Pay>::assert_unmoved_sink(snk())), p(1))),
        ku("test_track_closed_sink", "id", || (sk(Tc(SinkTestExt::<Pay>::track_closed(snk()))), p(1))),
        // futures that drive a sink
        ku("sink_feed", "feed", || { let mut s = snk(); let x = pay(); let i = x.id; (fu(async move { s.feed(x).await }), vec![("n", 1), ("init", i)]) }),
        ku("sink_send", "send", || { let mut s = snk(); let x = pay(); let i = x.id; (fu(async move { s.send(x).await }), vec![("n", 1), ("init", i)]) }),
        ku("sink_flush", "flush", || { let mut s = snk(); (fu(async move { SinkExt::<Pay>::flush(&mut s).await }), p(1)) }),
        ku("sink_close", "close", || { let mut s = snk(); (fu(async move { SinkExt::<Pay>::close(&mut s).await }), p(1)) }),
        ku("send_all", "send_all", || { let mut s = snk(); let mut a = src::<RP>(); (fu(async move { s.send_all(&mut a).await }), p(1)) }),
        kuf("forward", "forward", || { let s = snk(); let a = src::<Pay>(); (ffu(a.forward(s)), p(1)) }),
        kuf("try_forward", "forward", || { let s = snk(); let a = src::<RP>(); (ffu(a.try_forward(s)), p(1)) }),
    ]
}
