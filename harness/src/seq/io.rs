//! Readers, writers and the futures and adapters over them.
use super::*;
use futures::future::Either;
use futures::io::{self as fio, AllowStdIo, AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufReader, BufWriter, Cursor, IoSlice, IoSliceMut, LineWriter, SeekFrom};
use futures::sink::Sink;
use futures::stream::TryStreamExt;
use futures_test::io::{AsyncReadTestExt, AsyncWriteTestExt};
use futures_util::compat::{AsyncRead01CompatExt, AsyncWrite01CompatExt, Compat, Compat01As03};
use std::io;

// ---- errors and bytes -----------------------------------------------------------------------
#[derive(Debug)]
struct IoE(Pay);
impl std::fmt::Display for IoE { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0.id) } }
impl std::error::Error for IoE {}
fn fail() -> (io::Error, i64) { let p = pay(); let v = p.id; (io::Error::new(if chance(10) { io::ErrorKind::Other } else { io::ErrorKind::TimedOut }, IoE(p)), v) }
fn code(e: &io::Error) -> i64 {
    if let Some(x) = e.get_ref().and_then(|e| e.downcast_ref::<IoE>()) { return x.0.read() }
    match e.kind() { io::ErrorKind::WriteZero => -1, io::ErrorKind::UnexpectedEof => -2, io::ErrorKind::InvalidData => -3, _ => -4 }
}
fn byte() -> u8 { [97, 97, 98, 99, 10, 10, 13, 195, 169, 255][below(if chance(4) { 10 } else { 7 }) as usize] }
fn text() -> u8 { [97, 98, 99, 100, 10, 13][below(6) as usize] }
fn bytes(max: u32) -> Vec<u8> { let t = chance(10); let n = below(max + 1); let mut v: Vec<u8> = vec![]; for _ in 0..n { if t && chance(3) { v.extend([195, 169]) } else { v.push(if t { text() } else { byte() }) } } v }
fn nums(v: &[u8]) -> Vec<i64> { v.iter().map(|b| *b as i64).collect() }

// ---- scripted object ------------------------------------------------------------------------
/// Reads from `data`, writes nowhere; answers as scripted. Also a chunk source (`AsRef<[u8]>` items).
pub struct Dev { k: i64, data: Vec<u8>, pos: usize, vis: usize, wait: String, _g: Pay }
fn dev() -> Dev { dev_of(bytes(12)) }
fn dev_of(data: Vec<u8>) -> Dev { let d = Dev { k: new_input(vec![]), data, pos: 0, vis: 0, wait: String::new(), _g: pay() }; log(E::new("init").n("k", d.k).seq("data", &nums(&d.data))); d }
impl Drop for Dev { fn drop(&mut self) { place(self.k, &*self, true); gone(self.k) } }
impl std::fmt::Debug for Dev { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "dev{}", self.k) } }
impl Dev {
    fn lg(&self, op: &str, len: usize, r: &str, v: &[u8], x: i64) { log(E::new("io").n("k", self.k).s("op", op).n("len", len as i64).s("r", r).seq("v", &nums(v)).n("x", x)) }
    /// The scripted answer: None: go ahead.
    fn go(&mut self, op: &str, len: usize, cx: &mut Context<'_>) -> Option<Poll<io::Error>> {
        let k = self.k;
        place(k, &*self, false);
        let waiting = with(|e| e.inp[k as usize].waiting);
        if !(waiting && self.wait == op) {
            let p = with(|e| e.prof);
            let t = if chance(p.pend) { T::Pend } else if chance(p.yld) { T::Yield } else if below(60) < p.panic { T::Panic } else if below(60) < p.err { T::Err } else { T::Item };
            with(|e| { let i = &mut e.inp[k as usize]; i.script = vec![t]; i.pos = 0; i.waiting = false });
        }
        match step(k, cx) {
            T::Pend => { self.wait = op.into(); self.lg(op, len, "pend", &[], 0); Some(Poll::Pending) }
            T::Yield => { self.lg(op, len, "pend", &[], 1); Some(Poll::Pending) }
            T::Err => { let (e, v) = fail(); self.lg(op, len, "err", &[], v); Some(Poll::Ready(e)) }
            T::Panic => { self.lg(op, len, "panic", &[], 0); user_panic() }
            _ => None,
        }
    }
    fn some(&self, max: usize) -> usize { if max == 0 { 0 } else if chance(6) { max } else { 1 + below(max as u32) as usize } }
    fn take(&mut self, n: usize) -> Vec<u8> { let p = self.pos.min(self.data.len()); let v = self.data[p..p + n].to_vec(); self.pos += n; self.vis = 0; v }
    fn rest(&self) -> usize { self.data.len().saturating_sub(self.pos) }
    fn target(&self, to: SeekFrom) -> (i64, i64, i64) {
        let clamp = |o: i64| if o == i64::MIN { -99999 } else { o };
        match to { SeekFrom::Start(o) => (0, o as i64, o as i64), SeekFrom::Current(o) => (1, clamp(o), (self.pos as i64).saturating_add(o)), SeekFrom::End(o) => (2, clamp(o), (self.data.len() as i64).saturating_add(o)) }
    }
    fn rv(&mut self, bufs: &mut [IoSliceMut<'_>]) -> usize {
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        let n = self.some(total.min(self.rest()));
        let v = self.take(n);
        self.lg("read", total, "ok", &v, 0);
        let mut at = 0;
        for b in bufs { let m = b.len().min(n - at); b[..m].copy_from_slice(&v[at..at + m]); at += m }
        n
    }
    fn wv(&mut self, bufs: &[&[u8]]) -> usize {
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        let n = if below(60) < with(|e| e.prof.err) { 0 } else { self.some(total) };
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        self.lg("write", total, "ok", &all[..n], 0);
        n
    }
}
impl AsyncRead for Dev {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if let Some(r) = self.go("read", buf.len(), cx) { return r.map(Err) }
        Poll::Ready(Ok(self.rv(&mut [IoSliceMut::new(buf)])))
    }
    fn poll_read_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        if let Some(r) = self.go("read", bufs.iter().map(|b| b.len()).sum(), cx) { return r.map(Err) }
        Poll::Ready(Ok(self.rv(bufs)))
    }
}
impl AsyncBufRead for Dev {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.vis == 0 { if let Some(r) = this.go("fill", 0, cx) { return r.map(Err) } let n = this.rest().min(6); this.vis = this.some(n) }
        let p = this.pos.min(this.data.len());
        let v = &this.data[p..p + this.vis];
        this.lg("fill", 0, "ok", v, 0);
        Poll::Ready(Ok(v))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) { self.lg("consume", n, if n <= self.vis { "ok" } else { "bad" }, &[], 0); let n = n.min(self.vis); self.pos += n; self.vis -= n }
}
impl AsyncSeek for Dev {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<io::Result<u64>> {
        if let Some(r) = self.go("seek", 0, cx) { return r.map(Err) }
        let (_, _, t) = self.target(to);
        if t < 0 { let (e, v) = fail(); self.lg("seek", 0, "err", &[], v); return Poll::Ready(Err(e)) }
        self.pos = t as usize; self.vis = 0;
        self.lg("seek", 0, "ok", &[], t);
        Poll::Ready(Ok(t as u64))
    }
}
impl AsyncWrite for Dev {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if let Some(r) = self.go("write", buf.len(), cx) { return r.map(Err) }
        Poll::Ready(Ok(self.wv(&[buf])))
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        if let Some(r) = self.go("write", bufs.iter().map(|b| b.len()).sum(), cx) { return r.map(Err) }
        let v: Vec<&[u8]> = bufs.iter().map(|b| &b[..]).collect();
        Poll::Ready(Ok(self.wv(&v)))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if let Some(r) = self.go("flush", 0, cx) { return r.map(Err) }
        self.lg("flush", 0, "ok", &[], 0); Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if let Some(r) = self.go("close", 0, cx) { return r.map(Err) }
        self.lg("close", 0, "ok", &[], 0); Poll::Ready(Ok(()))
    }
}
/// The same as a blocking object, for AllowStdIo.
struct Sync(Dev);
impl Sync {
    fn go(&mut self, op: &str, len: usize) -> io::Result<()> {
        if chance(3) { self.0.lg(op, len, "intr", &[], 0); return Err(io::ErrorKind::Interrupted.into()) }
        if below(60) < with(|e| e.prof.err) { let (e, v) = fail(); self.0.lg(op, len, "err", &[], v); return Err(e) }
        Ok(())
    }
}
impl io::Read for Sync {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.go("read", b.len())?; Ok(self.0.rv(&mut [IoSliceMut::new(b)])) }
    fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> { self.go("read", b.iter().map(|b| b.len()).sum())?; Ok(self.0.rv(b)) }
}
impl io::BufRead for Sync {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.0.vis == 0 { self.go("fill", 0)?; let n = self.0.rest().min(6); self.0.vis = self.0.some(n) }
        let p = self.0.pos.min(self.0.data.len());
        let v = &self.0.data[p..p + self.0.vis];
        self.0.lg("fill", 0, "ok", v, 0);
        Ok(v)
    }
    fn consume(&mut self, n: usize) { Pin::new(&mut self.0).consume(n) }
}
impl io::Write for Sync {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.go("write", b.len())?; Ok(self.0.wv(&[b])) }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> { self.go("write", b.iter().map(|b| b.len()).sum())?; let v: Vec<&[u8]> = b.iter().map(|b| &b[..]).collect(); Ok(self.0.wv(&v)) }
    fn flush(&mut self) -> io::Result<()> { self.go("flush", 0)?; self.0.lg("flush", 0, "ok", &[], 0); Ok(()) }
}
impl io::Seek for Sync {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.go("seek", 0)?;
        let (_, _, t) = self.0.target(to);
        if t < 0 { let (e, v) = fail(); self.0.lg("seek", 0, "err", &[], v); return Err(e) }
        self.0.pos = t as usize; self.0.vis = 0;
        self.0.lg("seek", 0, "ok", &[], t);
        Ok(t as u64)
    }
}
/// A stream of chunks.
struct Chunks { k: i64, _g: Pay }
fn chunks() -> Chunks { Chunks { k: new_input(gen_stream(true)), _g: pay() } }
impl Drop for Chunks { fn drop(&mut self) { place(self.k, &*self, true); gone(self.k) } }
impl Stream for Chunks {
    type Item = io::Result<Vec<u8>>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let k = self.k;
        let l = |r: &str, v: &[u8], x: i64| log(E::new("io").n("k", k).s("op", "next").n("len", 0).s("r", r).seq("v", &nums(v)).n("x", x));
        if over(k) { l("after", &[], 0); return Poll::Ready(None) }
        match step(k, cx) {
            T::Pend => { l("pend", &[], 0); Poll::Pending }
            T::Yield => { l("pend", &[], 1); Poll::Pending }
            T::Item => { let v = bytes(4); l("ok", &v, 0); Poll::Ready(Some(Ok(v))) }
            T::Err => { let (e, x) = fail(); l("err", &[], x); Poll::Ready(Some(Err(e))) }
            T::End => { set_over(k); l("end", &[], 0); Poll::Ready(None) }
            T::Panic => { set_over(k); l("panic", &[], 0); user_panic() }
        }
    }
}

// ---- users ----------------------------------------------------------------------------------
type PR<A> = Poll<io::Result<A>>;
/// A user of a reader / writer: any sequence of operations on it.
type RelF = Pin<Box<dyn Future<Output = io::Result<()>>>>;
struct User<S> {
    fut: Option<RelF>, relf: Option<fn(Pin<&mut S>, i64) -> RelF>,
    s: Pin<Box<S>>, left: u32, op: &'static str, n: usize, lens: Vec<usize>, buf: Vec<u8>, wh: i64, off: i64, avail: usize, fresh: bool,
    rd: Option<fn(Pin<&mut S>, &mut Context<'_>, &mut [IoSliceMut<'_>], bool) -> PR<usize>>,
    fill: Option<fn(Pin<&mut S>, &mut Context<'_>) -> PR<Vec<u8>>>,
    cons: Option<fn(Pin<&mut S>, usize)>,
    seek: Option<fn(Pin<&mut S>, &mut Context<'_>, SeekFrom) -> PR<u64>>,
    rel: Option<fn(Pin<&mut S>, &mut Context<'_>, i64) -> PR<()>>,
    wr: Option<fn(Pin<&mut S>, &mut Context<'_>, &[IoSlice<'_>], bool) -> PR<usize>>,
    fc: Option<fn(Pin<&mut S>, &mut Context<'_>, bool) -> PR<()>>,
    look: Option<fn(&S) -> Vec<u8>>, lim: Option<fn(&mut S, Option<u64>) -> u64>,
}
fn user<S>(s: S) -> User<S> { User { fut: None, relf: None, s: Box::pin(s), left: 3 + below(14), op: "", n: 0, lens: vec![], buf: vec![], wh: 0, off: 0, avail: 0, fresh: true, rd: None, fill: None, cons: None, seek: None, rel: None, wr: None, fc: None, look: None, lim: None } }
impl<S> User<S> {
    fn r(mut self) -> Self where S: AsyncRead { self.rd = Some(|s, cx, b, v| if v { s.poll_read_vectored(cx, b) } else { s.poll_read(cx, &mut b[0]) }); self }
    fn b(mut self) -> Self where S: AsyncBufRead { self.fill = Some(|s, cx| s.poll_fill_buf(cx).map_ok(|v| v.to_vec())); self.cons = Some(|s, n| s.consume(n)); self }
    fn k(mut self) -> Self where S: AsyncSeek { self.seek = Some(|s, cx, to| s.poll_seek(cx, to)); self }
    fn w(mut self) -> Self where S: AsyncWrite { self.wr = Some(|s, cx, b, v| if v { s.poll_write_vectored(cx, b) } else { s.poll_write(cx, &b[0]) }); self.fc = Some(|s, cx, c| if c { s.poll_close(cx) } else { s.poll_flush(cx) }); self }
    fn look(mut self, f: fn(&S) -> Vec<u8>) -> Self { self.look = Some(f); self }
    fn lim(mut self, f: fn(&mut S, Option<u64>) -> u64) -> Self { self.lim = Some(f); self }
    fn rel(mut self, f: fn(Pin<&mut S>, &mut Context<'_>, i64) -> PR<()>) -> Self { self.rel = Some(f); self }
    fn relf(mut self, f: fn(Pin<&mut S>, i64) -> RelF) -> Self { self.relf = Some(f); self }
    fn boxed(self) -> Box<dyn Ad> where S: 'static { Box::new(self) }
    fn choose(&mut self) {
        self.fresh = false;
        self.fut = None;
        if self.left == 0 { self.op = if self.fc.is_some() { "close" } else { "end" }; return }
        self.left -= 1;
        let mut ops = vec![];
        if self.rd.is_some() { ops.extend(["read", "read", "readv"]) }
        if self.fill.is_some() { ops.extend(["fill", "fill"]); if self.avail > 0 { ops.extend(["consume", "consume", "consume"]) } }
        if self.seek.is_some() && chance(14) { ops.push("seek") }
        if self.rel.is_some() { ops.push("seekrel") }
        if self.wr.is_some() { ops.extend(["write", "write", "writev", "write", "flush"]) }
        if self.look.is_some() { ops.push("look") }
        if self.lim.is_some() && chance(6) { ops.push(if chance(10) { "limit" } else { "setlim" }) }
        self.op = ops[below(ops.len() as u32) as usize];
        let vec = matches!(self.op, "readv" | "writev");
        self.lens = if vec { (0..below(4)).map(|_| below(4) as usize).collect() } else { vec![below(if chance(6) { 12 } else { 6 }) as usize] };
        self.n = if self.op == "consume" { below(self.avail as u32 + 1) as usize } else if self.op == "setlim" { below(6) as usize } else { self.lens.iter().sum() };
        self.buf = (0..self.n).map(|_| byte()).collect();
        self.wh = below(3) as i64;
        self.off = if self.op == "seekrel" || self.wh == 1 { below(11) as i64 - 5 } else if self.wh == 0 { below(14) as i64 } else { -(below(8) as i64) };
        if self.op == "seekrel" { self.wh = 1 }
        if self.op == "seek" && self.wh == 1 && chance(2) { self.off = i64::MIN }
    }
}
fn done(r: &'static str, v: Vec<i64>) -> Poll<R> { Poll::Ready(R { r, v }) }
impl<S> Ad for User<S> {
    fn op(&self) -> &'static str { "io" }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        let started = self.fresh;
        if started { self.choose() }
        let op = self.op;
        log(E::new("arg").s("op", op).n("n", self.n as i64).seq("v", &nums(&self.buf)).n("wh", self.wh).n("o", if self.off == i64::MIN { -99999 } else { self.off }));
        let s = self.s.as_mut();
        let av = std::mem::take(&mut self.avail);
        let res: Poll<Result<Vec<i64>, io::Error>> = match op {
            "read" | "readv" => {
                let mut mem: Vec<Vec<u8>> = self.lens.iter().map(|n| vec![0; *n]).collect();
                let mut sl: Vec<IoSliceMut<'_>> = mem.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                let r = (self.rd.unwrap())(s, cx, &mut sl, op == "readv");
                r.map_ok(|n| { let all: Vec<u8> = mem.concat(); if n > all.len() { vec![-1] } else { nums(&all[..n]) } })
            }
            "fill" => (self.fill.unwrap())(s, cx).map_ok(|v| { self.avail = v.len(); nums(&v) }),
            "consume" => { (self.cons.unwrap())(s, self.n); self.avail = av - self.n; Poll::Ready(Ok(vec![])) }
            "seek" => { let to = match self.wh { 0 => SeekFrom::Start(self.off as u64), 1 => SeekFrom::Current(self.off), _ => SeekFrom::End(self.off) }; (self.seek.unwrap())(s, cx, to).map_ok(|p| vec![p as i64]) }
            "seekrel" => {
                if started && chance(10) { self.fut = self.relf.map(|f| f(s, self.off)) }
                match &mut self.fut { Some(f) => f.as_mut().poll(cx), None => (self.rel.unwrap())(self.s.as_mut(), cx, self.off) }.map_ok(|_| vec![])
            }
            "write" | "writev" => {
                let mut at = 0;
                let sl: Vec<IoSlice<'_>> = self.lens.iter().map(|n| { let x = IoSlice::new(&self.buf[at..at + n]); at += n; x }).collect();
                (self.wr.unwrap())(s, cx, &sl, op == "writev").map_ok(|n| vec![n as i64])
            }
            "flush" | "close" => (self.fc.unwrap())(s, cx, op == "close").map_ok(|_| vec![]),
            "look" => Poll::Ready(Ok(nums(&(self.look.unwrap())(&self.s)))),
            "limit" => { let f = self.lim.unwrap(); Poll::Ready(Ok(vec![f(unsafe { s.get_unchecked_mut() }, None) as i64])) }
            "setlim" => { let f = self.lim.unwrap(); f(unsafe { s.get_unchecked_mut() }, Some(self.n as u64)); Poll::Ready(Ok(vec![])) }
            _ => Poll::Ready(Ok(vec![])),
        };
        match res {
            Poll::Pending => { if chance(3) { self.fresh = true } Poll::Pending }
            Poll::Ready(Err(e)) => { self.fresh = true; done("err", vec![code(&e)]) }
            Poll::Ready(Ok(v)) => { self.fresh = true; done(if op == "close" || op == "end" { "val" } else { "ok" }, v) }
        }
    }
}
/// A user of a window onto a buffer: v = (kind of start bound, start, kind of end bound, end) or the bytes put into the window.
struct Win { w: fio::Window<Vec<u8>>, left: u32 }
impl Ad for Win {
    fn op(&self) -> &'static str { "io" }
    fn poll(&mut self, _: &mut Context<'_>) -> Poll<R> {
        use std::ops::Bound::*;
        let op = if self.left == 0 { "end" } else { ["set", "set", "set", "look", "put", "range"][below(6) as usize] };
        self.left = self.left.saturating_sub(1);
        let n = self.w.get_ref().len() as u32;
        let (ks, s, ke, e) = (below(3) as i64, below(n + 3) as usize, below(3) as i64, below(n + 3) as usize);
        let put: Vec<u8> = if op == "put" { (0..self.w.as_ref().len()).map(|_| byte()).collect() } else { vec![] };
        log(E::new("arg").s("op", op).n("n", 0).seq("v", &if op == "set" { vec![ks, s as i64, ke, e as i64] } else { nums(&put) }).n("wh", 0).n("o", 0));
        match op {
            "set" => {
                let b = |k, x| match k { 0 => Included(x), 1 => Excluded(x), _ => Unbounded };
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.w.set((b(ks, s), b(ke, e))))) { Ok(()) => done("ok", vec![]), Err(_) => done("err", vec![]) }
            }
            "put" => { self.w.as_mut().copy_from_slice(&put); done("ok", vec![]) }
            "range" => done("ok", vec![self.w.start() as i64, self.w.end() as i64]),
            "end" => { if chance(10) { done("val", nums(self.w.get_ref())) } else { let w = std::mem::replace(&mut self.w, fio::Window::new(vec![])); done("val", nums(&w.into_inner())) } }
            _ => done("ok", nums(self.w.as_ref())),
        }
    }
}
/// A user of a sink of byte blocks.
struct SinkUser<S> { s: Pin<Box<S>>, op: &'static str, left: u32 }
impl<S: Sink<Vec<u8>, Error = io::Error>> Ad for SinkUser<S> {
    fn op(&self) -> &'static str { "io" }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        let op = self.op;
        let x = if op == "send" { bytes(5) } else { vec![] };
        log(E::new("arg").s("op", op).n("n", x.len() as i64).seq("v", &nums(&x)).n("wh", 0).n("o", 0));
        let s = self.s.as_mut();
        let r = match op { "ready" => s.poll_ready(cx), "send" => { self.left = self.left.saturating_sub(1); Poll::Ready(s.start_send(x)) } "flush" => s.poll_flush(cx), _ => s.poll_close(cx) };
        match r {
            Poll::Ready(Ok(())) => {
                self.op = match op { "ready" if chance(17) => "send", "close" => "close", _ if self.left == 0 => "close", _ => ["ready", "ready", "flush"][below(3) as usize] };
                done(if op == "close" { "val" } else { "ok" }, vec![])
            }
            Poll::Ready(Err(e)) => { if op == "send" { self.op = "ready" } done("err", vec![code(&e)]) }
            Poll::Pending => { if op != "close" && chance(4) { self.op = ["ready", "flush"][below(2) as usize] } Poll::Pending }
        }
    }
}
/// A future; its output says how it ended and shows what it left behind.
struct Op<F> { f: Pin<Box<F>>, op: &'static str }
impl<F: Future<Output = (&'static str, Vec<i64>)>> Ad for Op<F> {
    fn op(&self) -> &'static str { "io" }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        log(E::new("arg").s("op", self.op).n("n", 0).seq("v", &[]).n("wh", 0).n("o", 0));
        self.f.as_mut().poll(cx).map(|(r, v)| R { r, v })
    }
}
fn op<F: Future<Output = (&'static str, Vec<i64>)> + 'static>(f: F) -> Box<dyn Ad> { Box::new(Op { f: Box::pin(f), op: "fut" }) }
/// Awaits `f`, or gives up on it while it is pending.
async fn cut<F: Future + Unpin>(mut f: F) -> Option<F::Output> {
    std::future::poll_fn(|cx| match Pin::new(&mut f).poll(cx) { Poll::Ready(x) => Poll::Ready(Some(x)), Poll::Pending if chance(1) => Poll::Ready(None), Poll::Pending => Poll::Pending }).await
}
fn end<A>(r: Option<io::Result<A>>, num: impl FnOnce(A) -> i64, rest: &[u8]) -> (&'static str, Vec<i64>) {
    let (k, h) = match r { Some(Ok(a)) => ("val", num(a)), Some(Err(e)) => ("err", code(&e)), None => ("val", -9) };
    let mut v = vec![h];
    v.extend(nums(rest));
    (k, v)
}
/// A stream of lines.
struct Lines<S> { s: Pin<Box<S>> }
impl<S: Stream<Item = io::Result<String>>> Ad for Lines<S> {
    fn op(&self) -> &'static str { "io" }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        log(E::new("arg").s("op", "line").n("n", 0).seq("v", &[]).n("wh", 0).n("o", 0));
        self.s.as_mut().poll_next(cx).map(|o| match o { None => R { r: "none", v: vec![] }, Some(Ok(l)) => R { r: "item", v: nums(l.as_bytes()) }, Some(Err(e)) => R { r: "err", v: vec![code(&e)] } })
    }
}
/// A waker that counts and forwards.
struct Fwd { n: AtomicI64, w: Waker }
impl Wake for Fwd { fn wake(self: Arc<Self>) { self.n.fetch_add(1, Ordering::SeqCst); self.w.wake_by_ref() } }
/// Polls `f` and sometimes aborts it while it is pending; the abort must wake it.
struct Abortable<F> { f: Pin<Box<F>>, h: futures::future::AbortHandle }
impl<F: Future<Output = (&'static str, Vec<i64>)>> Ad for Abortable<F> {
    fn op(&self) -> &'static str { "io" }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<R> {
        log(E::new("arg").s("op", "fut").n("n", 0).seq("v", &[]).n("wh", 0).n("o", 0));
        let fw = Arc::new(Fwd { n: AtomicI64::new(0), w: cx.waker().clone() });
        let r = self.f.as_mut().poll(&mut Context::from_waker(&Waker::from(fw.clone())));
        if r.is_pending() && chance(2) {
            let n = fw.n.load(Ordering::SeqCst);
            let first = !self.h.is_aborted();
            self.h.abort();
            if first { log(E::new("aborted").b("ok", fw.n.load(Ordering::SeqCst) > n)) }
        }
        r.map(|(r, v)| R { r, v })
    }
}

fn p(n: i64) -> Vec<(&'static str, i64)> { vec![("n", n), ("d", 0)] }
const UNL: i64 = 100000;
fn prefix(tx: bool) -> Vec<u8> { let v: Vec<u8> = (0..if chance(10) { 0 } else { below(4) }).map(|_| 120).collect(); log(E::new("prefix").seq("v", &nums(&v))); let _ = tx; v }
fn spfx() -> String { String::from_utf8(prefix(true)).unwrap() }
/// A writer that tracks closing: what it says, and that nothing gets through afterwards.
struct Tw(futures_test::sink::TrackClosed<Dev>);
impl Tw { fn say(&self, more: bool) { log(E::new("closed").b("v", self.0.is_closed() && more)) } }
impl AsyncWrite for Tw {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> PR<usize> { self.say(true); Pin::new(&mut self.0).poll_write(cx, b) }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[IoSlice<'_>]) -> PR<usize> { self.say(true); Pin::new(&mut self.0).poll_write_vectored(cx, b) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> PR<()> { let r = Pin::new(&mut self.0).poll_flush(cx); self.say(true); r }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> PR<()> {
        let r = Pin::new(&mut self.0).poll_close(cx);
        self.say(true);
        if let Poll::Ready(Ok(())) = &r {
            let mut s = Pin::new(&mut self.0);
            let no = matches!(s.as_mut().poll_write(cx, &[1]), Poll::Ready(Err(_))) && matches!(s.as_mut().poll_write_vectored(cx, &[IoSlice::new(&[1])]), Poll::Ready(Err(_))) && matches!(s.as_mut().poll_flush(cx), Poll::Ready(Err(_))) && matches!(s.as_mut().poll_close(cx), Poll::Ready(Err(_)));
            self.say(no);
        }
        r
    }
}
type BD = BufReader<Dev>;
fn rel(s: Pin<&mut BD>, cx: &mut Context<'_>, o: i64) -> PR<()> { s.poll_seek_relative(cx, o) }
fn relf(s: Pin<&mut BD>, o: i64) -> RelF { let s: Pin<&'static mut BD> = unsafe { Pin::new_unchecked(&mut *(s.get_unchecked_mut() as *mut BD)) }; Box::pin(s.seek_relative(o)) }
pub fn kinds() -> Vec<Kind> {
    vec![
        // reading objects: n = how many bytes they may hold back
        ks("rd_ref", "id", || { let b: &'static mut Dev = Box::leak(Box::new(dev())); struct L(*mut Dev); impl Drop for L { fn drop(&mut self) { unsafe { drop(Box::from_raw(self.0)) } } } struct W { d: &'static mut Dev, _l: L }
            impl AsyncRead for W { fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> PR<usize> { Pin::new(&mut self.d).poll_read(cx, b) } fn poll_read_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [IoSliceMut<'_>]) -> PR<usize> { Pin::new(&mut self.d).poll_read_vectored(cx, b) } }
            impl AsyncBufRead for W { fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> PR<&[u8]> { Pin::new(&mut self.get_mut().d).get_mut().poll_fill_buf_x(cx) } fn consume(mut self: Pin<&mut Self>, n: usize) { Pin::new(&mut self.d).consume(n) } }
            impl AsyncWrite for W { fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> PR<usize> { Pin::new(&mut self.d).poll_write(cx, b) } fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[IoSlice<'_>]) -> PR<usize> { Pin::new(&mut self.d).poll_write_vectored(cx, b) } fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> PR<()> { Pin::new(&mut self.d).poll_flush(cx) } fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> PR<()> { Pin::new(&mut self.d).poll_close(cx) } }
            impl AsyncSeek for W { fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> PR<u64> { Pin::new(&mut self.d).poll_seek(cx, to) } }
            let l = L(b as *mut Dev); (user(W { d: b, _l: l }).r().b().k().boxed(), p(0)) }),
        ks("rd_box", "id", || (user(Box::new(dev())).r().b().k().boxed(), p(0))),
        ks("rd_pin", "id", || (user(Box::pin(dev())).r().b().k().boxed(), p(0))),
        ks("rd_either", "id", || { let d = dev(); let e: Either<Dev, Dev> = if chance(10) { Either::Left(d) } else { Either::Right(d) }; (user(e).r().b().k().boxed(), p(0)) }),
        ks("rd_std", "id", || { let d = AllowStdIo::new(Sync(dev())); (if chance(6) { user(AllowStdIo::new(d)).r().b().k().boxed() } else { user(d).r().b().k().boxed() }, p(0)) }),
        ks("rd_bufwriter", "id", || (user(BufWriter::with_capacity(3, dev())).r().b().boxed(), p(0))),
        ks("rd_split", "id", || { let (r, w) = dev().split(); struct H(fio::ReadHalf<Dev>, #[allow(dead_code)] Option<fio::WriteHalf<Dev>>); impl AsyncRead for H { fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> PR<usize> { Pin::new(&mut self.0).poll_read(cx, b) } fn poll_read_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [IoSliceMut<'_>]) -> PR<usize> { Pin::new(&mut self.0).poll_read_vectored(cx, b) } } (user(H(r, if chance(10) { Some(w) } else { None })).r().boxed(), p(0)) }),
        ks("buf_reader", "bufreader", || { let n = 1 + below(5); (user(BufReader::with_capacity(n as usize, dev())).r().b().k().look(|s| s.buffer().to_vec()).rel(rel).relf(relf).boxed(), p(n as i64)) }),
        ks("take", "take", || { let n = below(10); (user(AsyncReadExt::take(dev(), n as u64)).r().b().look(|_| vec![]).lim(|s, n| { if let Some(n) = n { s.set_limit(n) } s.limit() }).boxed(), p(n as i64)) }),
        ks("take_buf", "takebuf", || { let n = below(10); let c = 1 + below(4); (user(AsyncReadExt::take(BufReader::with_capacity(c as usize, dev()), n as u64)).r().b().lim(|s, n| { if let Some(n) = n { s.set_limit(n) } s.limit() }).boxed(), vec![("n", n as i64), ("d", c as i64)]) }),
        ks("chain", "chain", || { let a = dev_of(bytes(6)); let b = dev_of(bytes(6)); (user(AsyncReadExt::chain(a, b)).r().b().boxed(), p(0)) }),
        ks("into_async_read", "chunks", || (user(chunks().into_async_read()).r().b().boxed(), p(UNL))),
        ks("compat_read", "id", || { let d = dev(); (if chance(10) { user(Compat01As03::new(Compat::new(d))).r().boxed() } else { user(AsyncRead01CompatExt::compat(AsyncReadExt::compat(d))).r().boxed() }, p(0)) }),
        ks("test_limited", "id", || { let n = 1 + below(4); (user(AsyncReadTestExt::limited(dev(), n as usize)).r().b().boxed(), vec![("n", 0), ("d", n as i64)]) }),
        ks("test_interleave_pending_read", "id", || (user(AsyncReadTestExt::interleave_pending(dev())).r().b().k().boxed(), p(0))),
        ks("test_unmoved_read", "id", || (user(AsyncReadTestExt::assert_unmoved(dev())).r().b().k().boxed(), p(0))),
        ks("window", "window", || { let d = bytes(6); log(E::new("init").n("k", 0).seq("data", &nums(&d))); (Box::new(Win { w: fio::Window::new(d), left: 4 + below(8) }), p(0)) }),
        // writing objects
        ks("compat_write", "idw", || { let d = dev(); (if chance(10) { user(Compat01As03::new(Compat::new(d))).w().boxed() } else { user(AsyncWrite01CompatExt::compat(AsyncWriteExt::compat_write(d))).w().boxed() }, p(0)) }),
        ks("test_limited_write", "idw", || { let n = 1 + below(4); (user(AsyncWriteTestExt::limited_write(dev(), n as usize)).w().boxed(), vec![("n", 0), ("d", n as i64)]) }),
        ks("test_interleave_pending_write", "idw", || (user(AsyncWriteTestExt::interleave_pending_write(dev())).w().boxed(), p(0))),
        ks("test_unmoved_write", "idw", || (user(AsyncWriteTestExt::assert_unmoved_write(dev())).w().boxed(), p(0))),
        ks("test_track_closed_write", "idw", || (user(Tw(AsyncWriteTestExt::track_closed(dev()))).w().boxed(), p(0))),
        ks("wr_box", "idw", || (user(Box::new(dev())).w().boxed(), p(0))),
        ks("wr_pin", "idw", || (user(Box::pin(dev())).w().boxed(), p(0))),
        ks("wr_either", "idw", || { let d = dev(); let e: Either<Dev, Dev> = if chance(10) { Either::Left(d) } else { Either::Right(d) }; (user(e).w().boxed(), p(0)) }),
        ks("wr_std", "stdw", || { let d = AllowStdIo::new(Sync(dev())); (if chance(6) { user(AllowStdIo::new(d)).w().boxed() } else { user(d).w().boxed() }, p(0)) }),
        ks("wr_bufreader", "idw", || (user(BufReader::with_capacity(3, dev())).w().boxed(), p(0))),
        ks("wr_split", "idw", || { let (r, w) = dev().split(); struct H(fio::WriteHalf<Dev>, #[allow(dead_code)] Option<fio::ReadHalf<Dev>>); impl AsyncWrite for H { fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> PR<usize> { Pin::new(&mut self.0).poll_write(cx, b) } fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[IoSlice<'_>]) -> PR<usize> { Pin::new(&mut self.0).poll_write_vectored(cx, b) } fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> PR<()> { Pin::new(&mut self.0).poll_flush(cx) } fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> PR<()> { Pin::new(&mut self.0).poll_close(cx) } } (user(H(w, if chance(10) { Some(r) } else { None })).w().boxed(), p(0)) }),
        ks("buf_writer", "bufwriter", || { let n = below(7); (user(BufWriter::with_capacity(n as usize, dev())).w().k().boxed(), p(n as i64)) }),
        ks("line_writer", "linewriter", || { let n = below(8); (user(LineWriter::with_capacity(n as usize, dev())).w().boxed(), p(n as i64)) }),
        ks("into_sink", "intosink", || { let w: fio::IntoSink<Dev, Vec<u8>> = dev().into_sink(); (Box::new(SinkUser { s: Box::pin(w), op: "ready", left: below(6) }), p(0)) }),
        // futures that read
        ku("read", "f_read", || { let mut d = dev(); let n = below(6) as usize; (op(async move { let mut b = vec![0; n]; match cut(d.read(&mut b)).await { Some(Ok(m)) => end(Some(Ok(m)), |m| m as i64, &b[..m]), r => end(r, |m| m as i64, &[]) } }), p(n as i64)) }),
        ku("read_vectored", "f_read", || { let mut d = dev(); let (x, y) = (below(4) as usize, below(4) as usize); (op(async move { let (mut b, mut c) = (vec![0; x], vec![0; y]); let r = { let mut sl = [IoSliceMut::new(&mut b), IoSliceMut::new(&mut c)]; cut(d.read_vectored(&mut sl)).await }; let all = [b, c].concat(); match r { Some(Ok(m)) => end(Some(Ok(m)), |m| m as i64, &all[..m]), r => end(r, |m| m as i64, &[]) } }), p((x + y) as i64)) }),
        ku("read_exact", "f_exact", || { let mut d = dev(); let n = below(10) as usize; (op(async move { let mut b = vec![0; n]; let r = cut(d.read_exact(&mut b)).await; let b = if matches!(r, Some(Ok(()))) { b } else { vec![] }; end(r, |_| 0, &b) }), p(n as i64)) }),
        ku("read_to_end", "f_all", || { let mut d = dev_of(if chance(4) { bytes(80) } else { bytes(12) }); let mut b = prefix(false); (op(async move { let r = cut(d.read_to_end(&mut b)).await; end(r, |n| n as i64, &b) }), p(0)) }),
        ku("read_to_string", "f_str", || { let mut d = dev(); let mut b = spfx(); (op(async move { let r = cut(d.read_to_string(&mut b)).await; end(r, |n| n as i64, b.as_bytes()) }), p(0)) }),
        ku("read_until", "f_until", || { let mut d = dev(); let c = text(); let mut b = prefix(false); (op(async move { let r = cut(d.read_until(c, &mut b)).await; end(r, |n| n as i64, &b) }), vec![("n", 0), ("d", c as i64)]) }),
        ku("read_line", "f_line", || { let mut d = dev(); let mut b = spfx(); (op(async move { let r = cut(d.read_line(&mut b)).await; end(r, |n| n as i64, b.as_bytes()) }), p(0)) }),
        ku("fill_buf", "f_fill", || { let mut d = dev(); (op(async move { match cut(d.fill_buf()).await { Some(Ok(b)) => { let b = b.to_vec(); end(Some(Ok(())), |_| 0, &b) } Some(Err(e)) => end::<()>(Some(Err(e)), |_| 0, &[]), None => end::<()>(None, |_| 0, &[]) } }), p(0)) }),
        ks("lines", "lines", || (Box::new(Lines { s: Box::pin(dev().lines()) }), p(0))),
        // futures that write
        ku("write", "f_write", || { let mut d = dev(); let b = bytes(6); log(E::new("prefix").seq("v", &nums(&b))); (op(async move { let r = cut(d.write(&b)).await; end(r, |n| n as i64, &[]) }), p(0)) }),
        ku("write_vectored", "f_write", || { let mut d = dev(); let (b, c) = (bytes(3), bytes(3)); log(E::new("prefix").seq("v", &nums(&[b.clone(), c.clone()].concat()))); (op(async move { let sl = [IoSlice::new(&b), IoSlice::new(&c)]; let r = cut(d.write_vectored(&sl)).await; end(r, |n| n as i64, &[]) }), p(0)) }),
        ku("write_all", "f_wall", || { let mut d = dev(); let b = bytes(8); log(E::new("prefix").seq("v", &nums(&b))); (op(async move { let r = cut(d.write_all(&b)).await; end(r, |_| 0, &[]) }), p(0)) }),
        ku("write_all_vectored", "f_wall", || { let mut d = dev(); let (a, b, c) = (bytes(3), bytes(3), bytes(3)); log(E::new("prefix").seq("v", &nums(&[a.clone(), b.clone(), c.clone()].concat()))); (op(async move { let mut sl = [IoSlice::new(&a), IoSlice::new(&b), IoSlice::new(&c)]; let r = cut(d.write_all_vectored(&mut sl)).await; end(r, |_| 0, &[]) }), p(0)) }),
        ku("flush", "f_flush", || { let mut d = dev(); (op(async move { end(cut(d.flush()).await, |_| 0, &[]) }), p(0)) }),
        ku("close", "f_close", || { let mut d = dev(); (op(async move { end(cut(AsyncWriteExt::close(&mut d)).await, |_| 0, &[]) }), p(0)) }),
        ku("seek", "f_seek", || { let mut d = dev(); let n = below(10); (op(async move { end(cut(d.seek(SeekFrom::Start(n as u64))).await, |p| p as i64, &[]) }), p(n as i64)) }),
        ku("stream_position", "f_seek", || { let mut d = dev(); (op(async move { end(cut(d.stream_position()).await, |p| p as i64, &[]) }), p(0)) }),
        // reading and writing
        ku("copy", "copy", || { let d = dev(); let mut w = dev_of(vec![]); (op(async move { end(cut(fio::copy(d, &mut w).boxed_local()).await, |n| n as i64, &[]) }), p(0)) }),
        ku("copy_buf", "copybuf", || { let d = dev(); let mut w = dev_of(vec![]); (op(async move { end(cut(fio::copy_buf(d, &mut w).boxed_local()).await, |n| n as i64, &[]) }), p(0)) }),
        ku("copy_buf_abortable", "copybuf", || {
            let d = dev();
            let w: &'static mut Dev = Box::leak(Box::new(dev_of(vec![])));
            struct L(*mut Dev);
            impl Drop for L { fn drop(&mut self) { unsafe { drop(Box::from_raw(self.0)) } } }
            let l = L(w as *mut Dev);
            let (f, h) = fio::copy_buf_abortable(d, w);
            let f = async move { let l = l; let r = { let f = f; f.await }; drop(l); match r { Ok(Ok(n)) => ("val", vec![n as i64]), Ok(Err(_)) => ("val", vec![-8]), Err(e) => ("err", vec![code(&e)]) } };
            (Box::new(Abortable { f: Box::pin(f), h }), p(0))
        }),
        // memory
        ks("cursor_vec", "mem", || { let b = bytes(8); log(E::new("init").n("k", 0).seq("data", &nums(&b))); (user(Cursor::new(b)).r().b().k().w().look(|c| c.get_ref().clone()).boxed(), vec![("n", 0), ("d", 0)]) }),
        ks("cursor_slice", "mem", || { let b = bytes(8).into_boxed_slice(); log(E::new("init").n("k", 0).seq("data", &nums(&b))); (user(Cursor::new(b)).r().b().k().w().look(|c| c.get_ref().to_vec()).boxed(), vec![("n", 1), ("d", 0)]) }),
        ks("vec_writer", "memv", || { let b = bytes(4); log(E::new("init").n("k", 0).seq("data", &nums(&b))); (user(b).w().look(|c| c.clone()).boxed(), vec![("n", 2), ("d", 0)]) }),
        ks("slice_reader", "mem", || { let b: &'static [u8] = Box::leak(bytes(8).into_boxed_slice()); log(E::new("init").n("k", 0).seq("data", &nums(b))); (user(b).r().b().boxed(), vec![("n", 1), ("d", 0)]) }),
        ks("empty", "mem", || { log(E::new("init").n("k", 0).seq("data", &[])); (user(fio::empty()).r().b().boxed(), vec![("n", 1), ("d", 0)]) }),
        ks("repeat", "rep", || { log(E::new("init").n("k", 0).seq("data", &[120])); (user(fio::repeat(120)).r().boxed(), p(0)) }),
        ks("sink", "memv", || { log(E::new("init").n("k", 0).seq("data", &[])); (user(fio::sink()).w().boxed(), vec![("n", 3), ("d", 0)]) }),
    ]
}
use futures::future::FutureExt;
impl Dev { fn poll_fill_buf_x(&mut self, cx: &mut Context<'_>) -> PR<&[u8]> { Pin::new(self).poll_fill_buf(cx) } }
