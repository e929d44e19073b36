//! Shared, abortable and remote-handle futures, and FuturesUnordered, with wake-ups from other threads.
use super::*;
use futures_util::future::{AbortHandle, Abortable, FutureExt, Shared};
use futures_util::stream::{FuturesUnordered, StreamExt};
use futures_core::{FusedFuture, FusedStream, Stream};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Drives a gate from its own thread: o open, w wake, W wake through older wakers.
fn gate_prog(g: &[Arc<Gate>], prog: &str) {
    let mut k = 0;
    for c in prog.chars() {
        match c {
            '0'..='9' => k = c as usize - '0' as usize,
            'o' => g[k].open(),
            'w' => g[k].wake(),
            'W' => g[k].wake_old(),
            _ => unreachable!(),
        }
    }
}
fn fin_gates(gs: Vec<Arc<Gate>>) -> Option<Box<dyn FnOnce()>> { Some(Box::new(move || for g in gs { g.forget_wakers() })) }
/// A poll that may panic.
fn pp<R>(f: impl FnOnce() -> Poll<R>) -> Poll<Result<R, String>> {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(p) => p.map(Ok), Err(e) => { let s = if e.is::<futures_channel::oneshot::Canceled>() { "canceled".into() } else { sched::panic_text(&*e) }; Poll::Ready(Err(s)) } }
}

// ---- Shared -------------------------------------------------------------------------------
fn sh_thread(s: Shared<GateFut>, prog: &str) {
    let mut s = Some(s);
    let show = |r: &Result<Pay, String>| match r { Ok(p) => ("item", p.read()), Err(_) => ("panic", 0) };
    for c in prog.chars() {
        let Some(f) = s.as_mut() else { return };
        if c == 'i' { let c = call("isterm", |e| e.n("a", 0)); let b = f.is_terminated(); c.ret(tf(b), 0); continue }
        if f.is_terminated() { if prog.contains('i') { continue } break }
        match c {
            'n' => { if wait("spoll", 0, |cx| pp(|| Pin::new(&mut *f).poll(cx)), show).is_none() { break } }
            'p' => { poll1("spoll", 0, |cx| pp(|| Pin::new(&mut *f).poll(cx)), show); }
            'k' => { let c = call("peek", |e| e.n("a", 0)); match catch_unwind(AssertUnwindSafe(|| f.peek().map(|p| p.read()))) { Ok(Some(v)) => c.ret("item", v), Ok(None) => c.ret("none", 0), Err(_) => c.ret("panic", 0) } }
            'c' => { let c = call("sclone", |e| e.n("a", 0)); let k = f.clone(); c.ret("ok", 0); let old = s.replace(k); let c = call("sdrop", |e| e.n("a", 0)); drop(old); c.ret("ok", 0) }
            'u' => { if let Some(w) = f.downgrade() { let c = call("upgrade", |e| e.n("a", 0)); match w.upgrade() { Some(k) => { c.ret("t", 0); let old = s.replace(k); let c = call("sdrop", |e| e.n("a", 0)); drop(old); c.ret("ok", 0) } None => c.ret("f", 0) } } }
            'v' => { // through a weak handle only
                if let Some(w) = f.downgrade() {
                    let c = call("sdrop", |e| e.n("a", 0)); drop(s.take()); c.ret("ok", 0);
                    let c = call("upgrade", |e| e.n("a", 0)); s = w.upgrade(); c.ret(tf(s.is_some()), 0)
                }
            }
            'S' => { let c = call("count", |e| e.n("a", 0)); match f.strong_count() { Some(n) => c.ret("ok", n as i64), None => c.ret("none", 0) } }
            'x' => { let c = call("sdrop", |e| e.n("a", 0)); drop(s.take()); c.ret("ok", 0) }
            _ => unreachable!(),
        }
    }
    if s.is_some() { let c = call(if s.as_ref().unwrap().is_terminated() { "tdrop" } else { "sdrop" }, |e| e.n("a", 0)); drop(s); c.ret("ok", 0) }
}
pub fn shared(run: &mut Run, thorough: bool) {
    let mut list: Vec<(Vec<String>, String, bool)> = vec![];
    let v = |s: &[&str]| s.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    for g in ["o", "wo", "wwo"] { for p in [&["n", "n"][..], &["px", "n"], &["pn", "n"], &["pcn", "n"], &["pk", "nk"], &["x", "n"], &["ppx", "n"], &["pux", "pn"], &["ipini", "n"], &["vn", "n"], &["pvpv", "pvn"], &["Sn", "xS"]] { list.push((v(p), g.to_string(), false)) } }
    for p in [&["n", "n", "n"][..], &["px", "n", "n"], &["pcx", "n", "px"]] { list.push((v(p), "wo".into(), false)) }
    for p in [&["n", "n"][..], &["pn", "pk"], &["n", "x"], &["nk"]] { list.push((v(p), "o".into(), true)) }
    let mut g = Rng(run.seed ^ 0x6666);
    for _ in 0..if thorough { 200 } else { 20 } {
        let n = 2 + g.below(2) as usize;
        let p = (0..n).map(|_| mkprog(&mut g, b"pppkcxuviS", 0, 3) + if g.chance(2, 3) { "n" } else { "x" }).collect();
        list.push((p, mkprog(&mut g, b"wW", 0, 2) + "o", g.chance(1, 8)))
    }
    for (p, gp, panics) in list {
        let cfg = format!("{{\"k\":\"shared\",\"n\":{},\"p\":{}}}", p.len() + 1, p.len());
        run.explore(&format!("shared/{}/{}{}", p.join("+"), gp, if panics { "/panic" } else { "" }), &cfg, &|| {
            let g = Gate::mk(1, false, panics);
            let s = GateFut::new(&g).shared();
            let mut th: Vec<Prog> = vec![];
            let mut ss: Vec<_> = (1..p.len()).map(|_| s.clone()).collect();
            ss.push(s);
            for (s, p) in ss.into_iter().zip(p.clone()) { th.push(Box::new(move |_| sh_thread(s, &p))) }
            let (g2, gp) = (vec![g.clone()], gp.clone());
            th.push(Box::new(move |_| gate_prog(&g2, &gp)));
            Scn { threads: th, fin: fin_gates(vec![g]) }
        });
    }
}

// ---- abortable ----------------------------------------------------------------------------
/// Yields the gate's value twice once open, then ends.
struct GateStream { g: Arc<Gate>, left: i64 }
impl Stream for GateStream {
    type Item = Pay;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Pay>> {
        match self.g.poll(cx) { Poll::Pending => Poll::Pending, Poll::Ready(()) => { self.left -= 1; Poll::Ready(if self.left >= 0 { Some(Pay::new(self.g.i)) } else { None }) } }
    }
}
fn ab_fut(mut f: Abortable<GateFut>, prog: &str) {
    let mut done = false;
    let show = |r: &Result<Pay, futures_util::future::Aborted>| match r { Ok(p) => ("item", p.read()), Err(_) => ("aborted", 0) };
    for c in prog.chars() {
        match c {
            'n' if !done => match wait("apoll", 0, |cx| Pin::new(&mut f).poll(cx), show) { None => break, Some(Ok(_)) => done = true, Some(Err(_)) => {} },
            'p' if !done => if let Some(Ok(_)) = poll1("apoll", 0, |cx| Pin::new(&mut f).poll(cx), show) { done = true },
            'q' => { let c = call("isab", |e| e.n("a", 0)); let b = f.is_aborted(); c.ret(tf(b), 0) }
            _ => {}
        }
    }
    sched::point();
}
fn ab_st(mut f: Abortable<GateStream>, prog: &str) {
    let show = |r: &Option<Pay>| match r { Some(p) => ("item", p.read()), None => ("none", 0) };
    for c in prog.chars() {
        match c {
            'n' => if wait("apoll", 0, |cx| Pin::new(&mut f).poll_next(cx), show).is_none() { break },
            'p' => { poll1("apoll", 0, |cx| Pin::new(&mut f).poll_next(cx), show); }
            'q' => { let c = call("isab", |e| e.n("a", 0)); let b = f.is_aborted(); c.ret(tf(b), 0) }
            _ => {}
        }
    }
    sched::point();
}
fn ab_handle(h: AbortHandle, prog: &str) {
    let mut h = h;
    for c in prog.chars() {
        match c {
            'a' => { let c = call("abort", |e| e.n("a", 0)); h.abort(); c.ret("ok", 0) }
            'q' => { let c = call("isab", |e| e.n("a", 0)); let b = h.is_aborted(); c.ret(tf(b), 0) }
            'c' => h = h.clone(),
            _ => {}
        }
    }
}
/// One byte once the gate is open, then the end.
struct GateRead { g: Arc<Gate>, left: u8 }
impl futures_util::io::AsyncRead for GateRead { fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<std::io::Result<usize>> { unreachable!() } }
impl futures_util::io::AsyncBufRead for GateRead {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        if self.left == 0 { return Poll::Ready(Ok(&[])) }
        match self.g.poll(cx) { Poll::Pending => Poll::Pending, Poll::Ready(()) => Poll::Ready(Ok(&b"x"[..])) }
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) { self.left -= n as u8 }
}
fn ab_copy(mut f: futures_util::io::CopyBufAbortable<'static, GateRead, futures_util::io::Sink>, prog: &str) {
    let mut done = false;
    let show = |r: &std::io::Result<Result<u64, futures_util::future::Aborted>>| match r { Ok(Ok(n)) => ("item", *n as i64), Ok(Err(_)) => ("aborted", 0), Err(_) => ("err", 0) };
    for c in prog.chars() {
        match c {
            'n' if !done => match wait("apoll", 0, |cx| Pin::new(&mut f).poll(cx), show) { None => break, Some(Ok(Ok(_))) => done = true, _ => {} },
            'p' if !done => if let Some(Ok(Ok(_))) = poll1("apoll", 0, |cx| Pin::new(&mut f).poll(cx), show) { done = true },
            _ => {}
        }
    }
    sched::point();
}
pub fn abort(run: &mut Run, thorough: bool) {
    let mut list: Vec<(String, Vec<String>, String)> = vec![];
    for f in ["n", "pn", "np", "pnqp", "ppn", "nn"] { for h in [&["a"][..], &["qaq"], &["a", "a"], &["ca", "q"]] { for g in ["", "o", "wo", "w"] { list.push((f.into(), h.iter().map(|s| s.to_string()).collect(), g.into())) } } }
    for f in ["p", "pqp", "n"] { list.push((f.into(), vec!["q".into()], "o".into())) }
    let mut g = Rng(run.seed ^ 0x7777);
    for _ in 0..if thorough { 100 } else { 10 } { list.push((mkprog(&mut g, b"pnq", 1, 4), vec![mkprog(&mut g, b"aqc", 0, 2) + "a", mkprog(&mut g, b"aqc", 0, 2)], mkprog(&mut g, b"wo", 0, 3))) }
    for (f, h, gp) in list {
        for kind in ["fut", "st", "copy"] {
            let st = kind == "st";
            let cfg = format!("{{\"k\":\"abort\",\"n\":{},\"stream\":{},\"copy\":{}}}", h.len() + 2, st, kind == "copy");
            run.explore(&format!("abort/{}/{}/{}/{}", kind, f, h.join("+"), gp), &cfg, &|| {
                let g = Gate::new(1);
                let (mut hd, reg) = AbortHandle::new_pair();
                let mut th: Vec<Prog> = vec![];
                let p = f.clone();
                if kind == "copy" { let (a, h) = futures_util::io::copy_buf_abortable(GateRead { g: g.clone(), left: 1 }, Box::leak(Box::new(futures_util::io::sink()))); hd = h; th.push(Box::new(move |_| ab_copy(a, &p))) }
                else if st { let a = Abortable::new(GateStream { g: g.clone(), left: 2 }, reg); th.push(Box::new(move |_| ab_st(a, &p))) } else { let a = Abortable::new(GateFut::new(&g), reg); th.push(Box::new(move |_| ab_fut(a, &p))) }
                for p in h.clone() { let k = hd.clone(); th.push(Box::new(move |_| ab_handle(k, &p))) }
                let (g2, gp) = (vec![g.clone()], gp.clone());
                th.push(Box::new(move |_| gate_prog(&g2, &gp)));
                Scn { threads: th, fin: fin_gates(vec![g]) }
            });
        }
    }
}

// ---- remote handle ------------------------------------------------------------------------
pub fn remote(run: &mut Run, thorough: bool) {
    use futures_util::future::RemoteHandle;
    fn rem<F: Future<Output = ()> + Unpin>(f: F, prog: &str) {
        let mut f = Some(f);
        for c in prog.chars() {
            let Some(r) = f.as_mut() else { return };
            let show = |r: &Result<(), String>| if r.is_ok() { ("done", 0) } else { ("weird", 0) };
            if c == 'h' { hold(); continue }
            let x = match c {
                'n' => match wait("rpoll", 0, |cx| pp(|| Pin::new(&mut *r).poll(cx)), show) { None => break, x => x },
                'p' => poll1("rpoll", 0, |cx| pp(|| Pin::new(&mut *r).poll(cx)), show),
                'x' => break,
                _ => unreachable!(),
            };
            if x.is_some() { if prog.ends_with('h') { hold() } break }
        }
        let c = call("rdrop", |e| e.n("a", 0));
        drop(f.take());
        c.ret("ok", 0);
    }
    fn hnd(h: RemoteHandle<Pay>, prog: &str) {
        let mut h = Some(h);
        for c in prog.chars() {
            let Some(r) = h.as_mut() else { return };
            let show = |r: &Result<Pay, String>| match r { Ok(p) => ("item", p.read()), Err(s) if s == "canceled" => ("canceled", 0), Err(_) => ("panic", 0) };
            match c {
                'n' => match wait("hpoll", 0, |cx| pp(|| Pin::new(&mut *r).poll(cx)), show) { None => break, Some(Ok(_)) => { h = None } _ => { h = None } },
                'p' => if poll1("hpoll", 0, |cx| pp(|| Pin::new(&mut *r).poll(cx)), show).is_some() { h = None },
                'f' => { let c = call("hforget", |e| e.n("a", 0)); h.take().unwrap().forget(); c.ret("ok", 0) }
                'h' => hold(),
                'x' => break,
                _ => unreachable!(),
            }
        }
        if h.is_some() { let c = call("hdrop", |e| e.n("a", 0)); drop(h); c.ret("ok", 0) }
    }
    let mut list: Vec<(String, String, String, bool)> = vec![];
    for r in ["n", "pn", "px", "x", "ppn"] { for h in ["n", "pn", "x", "f", "px", "pf"] { for g in ["o", "", "wo"] { list.push((r.into(), h.into(), g.into(), false)) } } }
    for r in ["n", "pn"] { for h in ["n", "x", "f", "pn"] { list.push((r.into(), h.into(), "o".into(), true)) } }
    let mut g = Rng(run.seed ^ 0x8888);
    for _ in 0..if thorough { 60 } else { 6 } { list.push((mkprog(&mut g, b"ppn", 1, 3), mkprog(&mut g, b"ppnfx", 1, 3), mkprog(&mut g, b"wwo", 0, 3), g.chance(1, 5))) }
    for i in 0..list.len() { let (r, h, g, p) = list[i].clone(); list.push((held(&r), held(&h), g, p)) }
    for (r, h, gp, panics) in list {
        run.explore(&format!("remote/{}/{}/{}{}", r, h, gp, if panics { "/panic" } else { "" }), "{\"k\":\"remote\",\"n\":3}", &|| {
            let g = Gate::mk(1, false, panics);
            let (f, k) = GateFut::new(&g).remote_handle();
            let f = Box::pin(f);
            let (r, h, gp, g2) = (r.clone(), h.clone(), gp.clone(), vec![g.clone()]);
            Scn { threads: vec![Box::new(move |_| rem(f, &r)), Box::new(move |_| hnd(k, &h)), Box::new(move |_| gate_prog(&g2, &gp))], fin: fin_gates(vec![g]) }
        });
    }
}

// ---- FuturesUnordered ---------------------------------------------------------------------
fn fu_owner(gs: Vec<Arc<Gate>>, prog: &str) {
    let mut s = Some(FuturesUnordered::new());
    let mut k = 0;
    let show = |r: &Result<Option<Pay>, String>| match r { Ok(Some(p)) => ("item", p.read()), Ok(None) => ("none", 0), Err(_) => ("panic", 0) };
    for c in prog.chars() {
        let Some(f) = s.as_mut() else { break };
        match c {
            'a' => { // add the next member
                let g = &gs[k];
                k += 1;
                let mut m = GateFut::new(g);
                m.logdrop = true;
                let c = call("push", |e| e.n("a", g.i)); f.push(m); c.ret("ok", 0)
            }
            'n' => { if wait("next", 0, |cx| pp(|| Pin::new(&mut *f).poll_next(cx)), show).is_none() { break } }
            'p' => { poll1("next", 0, |cx| pp(|| Pin::new(&mut *f).poll_next(cx)), show); }
            'l' => { let c = call("len", |e| e.n("a", 0)); let n = f.len(); if f.is_empty() != (n == 0) { c.ret("weird", 0) } else { c.ret("ok", n as i64) } }
            't' => { let c = call("isterm", |e| e.n("a", 0)); let b = f.is_terminated(); c.ret(tf(b), 0) }
            'i' => { let c = call("iter", |e| e.n("a", 0)); let v: Vec<i64> = f.iter().map(|m| m.g.i).collect(); let mut m = 0; for x in &v { m |= 1 << x } if v.len() != (m as i64).count_ones() as usize { c.ret("weird", 0) } else { c.ret("ok", m) } }
            'I' => { let c = call("iter", |e| e.n("a", 0)); let v: Vec<i64> = f.iter_mut().map(|m| m.g.i).collect(); let mut m = 0; for x in &v { m |= 1 << x } if v.len() != (m as i64).count_ones() as usize { c.ret("weird", 0) } else { c.ret("ok", m) } }
            'e' => { // take all members out and drop half of the iteration
                let c = call("clear", |e| e.n("a", 0)); let v = std::mem::take(f); let mut it = v.into_iter(); let mut a = it.next(); if let Some(a) = &mut a { a.free = true } drop(it); drop(a); c.ret("ok", 0)
            }
            'c' => { let c = call("clear", |e| e.n("a", 0)); f.clear(); c.ret("ok", 0) }
            'x' => break,
            _ => unreachable!(),
        }
    }
    if s.is_some() { let c = call("clear", |e| e.n("a", 0)); drop(s); c.ret("ok", 0) }
}
pub fn fu(run: &mut Run, thorough: bool) {
    // The queue's destructor relies on the reference count for ordering, which the clocks do not see.
    run.budget.stale = 0;
    let mut list: Vec<(String, Vec<String>, i64)> = vec![];
    let v = |s: &[&str]| s.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    for (o, w) in [("an", &["o"][..]), ("an", &["wo"]), ("apn", &["wo"]), ("aann", &["o", "1o"]), ("aann", &["o1o"]), ("aann", &["1wo", "w1o"]), ("apann", &["o", "1o"]), ("apan", &["wo1o"]), ("aanx", &["o1w"]), ("apx", &["wWo"]), ("apc", &["wo"]),
        ("apcn", &["wo"]), ("apcaln", &["wo", "1o"]), ("aplnlt", &["o"]), ("aanlnlnt", &["1o", "o"]), ("ap", &["w", "w"]), ("apn", &["w", "wo"]), ("aaannn", &["o", "1o", "2o"]), ("appn", &["wwo"]), ("apipin", &["wo"]), ("aaipIn", &["wo", "1w"]), ("aaep", &["w", "1w"]), ("anat", &["o"]), ("aapane", &["o", "1w2w"]), ("nan", &["o"]), ("tntat", &["o"]), ("antntat", &["o", "1o"]), ("nctat", &["o"]), ("apnn", &["wWo"])] { list.push((o.into(), v(w), -1)) }
    for (o, w) in [("ann", &["o"][..]), ("aannn", &["o", "1o"]), ("aanx", &["1o", "o"]), ("apnln", &["wo"])] { list.push((o.into(), v(w), 0)) }
    let mut g = Rng(run.seed ^ 0x9999);
    for i in 0..if thorough { 300 } else { 30 } {
        let nm = 1 + g.below(3) as usize;
        let mut o: Vec<char> = mkprog(&mut g, b"ppplnitxceI", 0, 4).chars().collect();
        for _ in 0..nm { let p = g.below(o.len() as u32 + 1) as usize; o.insert(p, 'a') }
        let mut o: String = o.into_iter().collect();
        if g.chance(2, 3) { o.push('n') }
        let nt = 1 + g.below(2) as usize;
        let mut w: Vec<String> = (0..nt).map(|_| { let mut s = String::new(); for _ in 0..1 + g.below(3) { s.push((b'0' + g.below(nm as u32) as u8) as char); s.push(*b"wwoW".get(g.below(4) as usize).unwrap() as char) } s }).collect();
        for k in 0..nm { w[k % nt].push_str(&format!("{}o", k)) }
        list.push((o, w, if i % 10 == 0 { 0 } else { -1 }));
    }
    for (o, w, panics) in list {
        let cfg = format!("{{\"k\":\"fu\",\"n\":{}}}", w.len() + 1);
        let nm = o.matches('a').count();
        run.explore(&format!("fu/{}/{}{}", o, w.join("+"), if panics >= 0 { "/panic" } else { "" }), &cfg, &|| {
            let gs: Vec<Arc<Gate>> = (0..nm.max(3)).map(|i| Gate::mk(i as i64 + 1, true, i as i64 == panics)).collect();
            let (o, g2) = (o.clone(), gs.clone());
            let mut th: Vec<Prog> = vec![Box::new(move |_| fu_owner(g2, &o))];
            for p in w.clone() { let g2 = gs.clone(); th.push(Box::new(move |_| gate_prog(&g2, &p))) }
            Scn { threads: th, fin: fin_gates(gs) }
        });
    }
}

// ---- limited combinators over gated inputs --------------------------------------------------
struct Src { gs: Vec<Arc<Gate>>, inner: Vec<Arc<Gate>>, k: usize, kind: usize, ended: bool }
impl Stream for Src {
    type Item = In;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<In>> {
        if self.k == self.gs.len() { if self.ended { E::new("corrupt").s("what", "polled again").log() } self.ended = true; E::new("srcend").log(); return Poll::Ready(None) }
        match self.gs[self.k].poll(cx) { Poll::Pending => Poll::Pending, Poll::Ready(()) => { let mut f = GateFut::new(&self.inner[self.k]); f.free = self.kind == 0; self.k += 1; Poll::Ready(Some(In { f, two: self.kind == 0, n: 0 })) } }
    }
}
/// As a future: the gate's value. As a stream: the gate's value, then the end.
struct In { f: GateFut, two: bool, n: u8 }
impl Future for In { type Output = Pay; fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Pay> { Pin::new(&mut self.f).poll(cx) } }
impl Stream for In {
    type Item = Pay;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Pay>> {
        match self.n {
            0 => match Pin::new(&mut self.f).poll(cx) { Poll::Pending => Poll::Pending, Poll::Ready(p) => { self.n = 1; Poll::Ready(Some(p)) } },
            1 => { self.n = 2; E::new("inend").n("i", self.f.g.i).log(); Poll::Ready(None) }
            _ => { E::new("corrupt").s("what", "polled again").log(); Poll::Ready(None) }
        }
    }
}
pub fn flat(run: &mut Run, thorough: bool) {
    run.budget.stale = 0;
    const KINDS: [&str; 4] = ["flat", "bufun", "buffered", "fec"];
    // owner program, limit, number of inputs, waking threads (gate 0..n: inputs, n..2n: the source's steps)
    let mut list: Vec<(String, usize, usize, Vec<String>)> = vec![];
    for (o, l, n, w) in [("a", 1, 2, &["2o0o3o1o"][..]), ("a", 1, 2, &["2o3o", "0o1o"]), ("a", 2, 2, &["2o3o", "1o0o"]), ("a", 1, 2, &["0o2o", "3o1o"]), ("pa", 1, 1, &["1w0o", "1o"]), ("pna", 2, 2, &["2o0w0o", "3o1o"]),
        ("na", 1, 3, &["3o4o5o", "0o1o2o"]), ("ppx", 1, 2, &["2o0o", "3o"]), ("a", 2, 3, &["3o0o4o", "5o1o2o"]), ("nn", 1, 2, &["2o3o0o"]), ("a", 1, 1, &["1w1w", "0o1o"]), ("px", 2, 2, &["2o0o3o1o"]), ("a", 9, 2, &["2w2o0w", "3o1o0o"])] { list.push((o.into(), l, n, w.iter().map(|s| s.to_string()).collect())) }
    let mut g = Rng(run.seed ^ 0xf1a7);
    for _ in 0..if thorough { 150 } else { 12 } {
        let n = 1 + g.below(3) as usize;
        let nt = 1 + g.below(2) as usize;
        let mut w: Vec<String> = (0..nt).map(|_| String::new()).collect();
        let mut ids: Vec<usize> = (0..2 * n).collect();
        for i in (1..ids.len()).rev() { let j = g.below(i as u32 + 1) as usize; ids.swap(i, j) }
        for i in ids { let t = g.below(nt as u32) as usize; if g.chance(1, 3) { w[t].push_str(&format!("{}w", g.below(2 * n as u32))) } w[t].push_str(&format!("{}o", i)) }
        list.push((mkprog(&mut g, b"pn", 0, 3) + if g.chance(1, 6) { "x" } else { "a" }, 1 + g.below(3) as usize, n, w));
    }
    for (o, limit, n, w) in list {
        for kind in 0..4 {
            if kind == 3 && o.contains('n') { continue }
            let cfg = format!("{{\"k\":\"{}\",\"n\":{},\"limit\":{},\"m\":{}}}", KINDS[kind], w.len() + 1, limit, n);
            run.explore(&format!("{}/{}/{}/{}/{}", KINDS[kind], o, limit, n, w.join("+")), &cfg, &|| {
                let gs: Vec<Arc<Gate>> = (0..2 * n).map(|i| Gate::new(if i < n { i as i64 + 1 } else { (i - n) as i64 + 11 })).collect();
                let src = Src { gs: gs[n..].to_vec(), inner: gs[..n].to_vec(), k: 0, kind, ended: false };
                let o = o.clone();
                let owner: Prog = Box::new(move |_| {
                    let mut s: Pin<Box<dyn Stream<Item = Pay>>> = match kind {
                        0 => Box::pin(src.flatten_unordered(limit)),
                        1 => Box::pin(src.buffer_unordered(limit)),
                        2 => Box::pin(src.buffered(limit)),
                        // completes with a single item, which stands for the end
                        _ => Box::pin(futures_util::stream::once(src.for_each_concurrent(limit, |f| async move { let p = f.await; p.read(); })).filter_map(|()| async { None })),
                    };
                    let show = |r: &Option<Pay>| match r { Some(p) => ("item", p.read()), None => ("none", 0) };
                    for c in o.chars() {
                        match c {
                            'n' => match wait("next", 0, |cx| s.as_mut().poll_next(cx), show) { None => break, Some(None) => break, _ => {} },
                            'p' => if let Some(None) = poll1("next", 0, |cx| s.as_mut().poll_next(cx), show) { break },
                            'a' => loop { match wait("next", 0, |cx| s.as_mut().poll_next(cx), show) { None | Some(None) => break, _ => {} } },
                            _ => break,
                        }
                    }
                    let c = call("drop", |e| e.n("a", 0)); drop(s); c.ret("ok", 0);
                });
                let mut th: Vec<Prog> = vec![owner];
                for p in w.clone() { let g2 = gs.clone(); th.push(Box::new(move |_| gate_prog(&g2, &p))) }
                Scn { threads: th, fin: fin_gates(gs) }
            });
        }
    }
}
