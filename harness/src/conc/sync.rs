//! AtomicWaker, the asynchronous mutex, the two-way lock and the split halves.
use super::*;
use crate::sched::Rng;
use futures_util::lock::{BiLock, Mutex as AMutex, MutexGuard};
use futures_util::task::AtomicWaker;
#[cfg(futures_verif)]
use futures_core::__verif::atomic::{AtomicBool, Ordering};
#[cfg(not(futures_verif))]
use std::sync::atomic::{AtomicBool, Ordering};

// ---- AtomicWaker --------------------------------------------------------------------------
static WID: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
fn logged_waker() -> (W, i64) {
    let id = WID.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1;
    (W::with(Some(Box::new(move || E::new("woke").n("w", id).log()))), id)
}
fn aw_waker(a: &AtomicWaker, flag: &AtomicBool, prog: &str) {
    for c in prog.chars() {
        match c {
            's' => { let c = call("set", |e| e.n("a", 0)); flag.store(true, Ordering::Relaxed); c.ret("ok", 0) }
            'w' => { let c = call("wake", |e| e.n("a", 0)); a.wake(); c.ret("ok", 0) }
            't' => {
                let c = call("take", |e| e.n("a", 0));
                let w = a.take();
                match w { None => c.ret("none", 0), Some(w) => { c.ret("item", 0); w.wake() } }
            }
            _ => unreachable!(),
        }
    }
}
fn aw_reg(a: &AtomicWaker, flag: &AtomicBool, prog: &str) {
    let mut same: Option<(W, i64)> = None;
    for c in prog.chars() {
        match c {
            'r' => { let (w, id) = logged_waker(); let k = w.waker(); let c = call("register", |e| e.n("a", id)); a.register(&k); c.ret("ok", 0) }
            'R' => { // the same waker again
                if same.is_none() { same = Some(logged_waker()) }
                let (w, id) = same.as_ref().unwrap();
                let k = w.waker();
                let c = call("register", |e| e.n("a", *id)); a.register(&k); c.ret("ok", 0)
            }
            'n' => loop {
                let (w, id) = logged_waker();
                let k = w.waker();
                let c = call("register", |e| e.n("a", id)); a.register(&k); c.ret("ok", 0);
                drop(k);
                let c = call("check", |e| e.n("a", 0));
                let b = flag.load(Ordering::Relaxed);
                c.ret(tf(b), 0);
                sched::label("n");
                if b || !sched::wait_woken(w.id()) { break }
            },
            _ => unreachable!(),
        }
    }
}
pub fn aw(run: &mut Run, thorough: bool) {
    let mut list: Vec<(String, Vec<String>)> = vec![];
    for r in ["n", "rn", "rrn", "r", "rr", "Rn", "RRn", "RRR", "rrr"] { for w in [&["sw"][..], &["w"], &["sw", "w"], &["wsw"], &["st"], &["sw", "t"], &["ww"], &["sw", "sw"], &["tsw"], &["stw", "w"], &["w", "wsw"]] {
        if r.contains('n') && !w.iter().any(|w| w.contains('s')) { continue }
        list.push((r.to_string(), w.iter().map(|s| s.to_string()).collect()))
    } }
    let mut g = Rng(run.seed ^ 0xa30);
    for _ in 0..if thorough { 200 } else { 20 } {
        let r = mkprog(&mut g, b"rrRn", 1, 3) + if g.chance(1, 2) { "n" } else { "r" };
        let mut w: Vec<String> = (0..1 + g.below(3)).map(|_| mkprog(&mut g, b"wwts", 1, 3)).collect();
        w[0].push_str("sw");
        list.push((r, w));
    }
    for (r, w) in list {
        let cfg = format!("{{\"k\":\"aw\",\"n\":{}}}", w.len() + 1);
        run.explore(&format!("aw/{}/{}", r, w.join("+")), &cfg, &|| {
            WID.store(0, std::sync::atomic::Ordering::Relaxed);
            let a = Arc::new((AtomicWaker::new(), AtomicBool::new(false)));
            let mut th: Vec<Prog> = vec![];
            let (r, a2) = (r.clone(), a.clone());
            th.push(Box::new(move |_| aw_reg(&a2.0, &a2.1, &r)));
            for w in w.clone() { let a2 = a.clone(); th.push(Box::new(move |_| aw_waker(&a2.0, &a2.1, &w))) }
            Scn { threads: th, fin: Some(Box::new(move || drop(a))) }
        });
    }
}

// ---- mutex --------------------------------------------------------------------------------
fn use_it(p: &mut Pay, t: usize) { p.read(); sched::point(); *p = Pay::new(100 + t as i64); }
fn mx_thread(m: &Arc<AMutex<Pay>>, t: usize, prog: &str) {
    enum G<'a> { B(MutexGuard<'a, Pay>), O(futures_util::lock::OwnedMutexGuard<Pay>), M(futures_util::lock::MappedMutexGuard<'a, Pay, Pay>) }
    let mut held: Option<G<'_>> = None;
    let unlock = |g: Option<G<'_>>| if let Some(mut g) = g {
        match &mut g { G::B(x) => use_it(x, t), G::O(x) => use_it(x, t), G::M(x) => use_it(x, t) }
        let c = call("unlock", |e| e.n("a", 0));
        drop(g);
        c.ret("ok", 0)
    };
    for c in prog.chars() {
        if c == 'm' { held = match held { Some(G::B(x)) => Some(G::M(MutexGuard::map(x, |p| p))), Some(G::M(x)) => Some(G::M(futures_util::lock::MappedMutexGuard::map(x, |p| p))), x => x }; continue }
        if c == 'h' { sched::point(); continue }
        unlock(held.take());
        match c {
            'u' => {}
            't' => { let c = call("trylock", |e| e.n("a", 0)); match m.try_lock() { Some(x) => { let v = x.read(); c.ret("ok", v); held = Some(G::B(x)) } None => c.ret("none", 0) } }
            'T' => { let c = call("trylock", |e| e.n("a", 0)); match m.try_lock_owned() { Some(x) => { let v = x.read(); c.ret("ok", v); held = Some(G::O(x)) } None => c.ret("none", 0) } }
            'l' => { let mut f = m.lock(); match wait("lock", 0, |cx| Pin::new(&mut f).poll(cx), |g| ("ready", g.read())) { Some(x) => held = Some(G::B(x)), None => { let c = call("droplock", |e| e.n("a", 0)); drop(f); c.ret("ok", 0); return } } }
            'L' => { let mut f = m.clone().lock_owned(); match wait("lock", 0, |cx| Pin::new(&mut f).poll(cx), |g| ("ready", g.read())) { Some(x) => held = Some(G::O(x)), None => { let c = call("droplock", |e| e.n("a", 0)); drop(f); c.ret("ok", 0); return } } }
            'd' => { let mut f = m.lock(); if let Some(x) = poll1("lock", 0, |cx| Pin::new(&mut f).poll(cx), |g| ("ready", g.read())) { held = Some(G::B(x)) } else { sched::point(); let c = call("droplock", |e| e.n("a", 0)); drop(f); c.ret("ok", 0) } }
            'D' => { let mut f = m.clone().lock_owned(); if let Some(x) = poll1("lock", 0, |cx| Pin::new(&mut f).poll(cx), |g| ("ready", g.read())) { held = Some(G::O(x)) } else { sched::point(); let c = call("droplock", |e| e.n("a", 0)); drop(f); c.ret("ok", 0) } }
            'I' | 'J' => { // is_terminated before, while waiting and after
                fn go<G: std::ops::Deref<Target = Pay>, F: Future<Output = G> + futures_core::FusedFuture + Unpin>(mut f: F) -> Option<G> {
                    let it = |f: &F| { let c = call("isterm", |e| e.n("a", 0)); let b = f.is_terminated(); c.ret(tf(b), 0) };
                    let c = call("droplock", |e| e.n("a", 0)); c.ret("ok", 0);
                    it(&f);
                    let mut g = poll1("lock", 0, |cx| Pin::new(&mut f).poll(cx), |g| ("ready", g.read()));
                    it(&f);
                    if g.is_none() { g = wait("lock", 0, |cx| Pin::new(&mut f).poll(cx), |g| ("ready", g.read())); if g.is_some() { it(&f) } }
                    let c = call("droplock", |e| e.n("a", 0)); drop(f); c.ret("ok", 0);
                    g
                }
                held = if c == 'I' { go(m.lock()).map(G::B) } else { go(m.clone().lock_owned()).map(G::O) };
                if held.is_none() { return }
            }
            'e' => { // polled twice (new waker the second time), then dropped
                let mut f = m.lock();
                let mut got = poll1("lock", 0, |cx| Pin::new(&mut f).poll(cx), |g| ("ready", g.read()));
                if got.is_none() { got = poll1("lock", 0, |cx| Pin::new(&mut f).poll(cx), |g| ("ready", g.read())) }
                match got { Some(x) => held = Some(G::B(x)), None => { let c = call("droplock", |e| e.n("a", 0)); drop(f); c.ret("ok", 0) } }
            }
            _ => unreachable!(),
        }
    }
    unlock(held);
}
pub fn mutex(run: &mut Run, thorough: bool) {
    let mut list: Vec<Vec<String>> = vec![];
    let a = ["l", "L", "t", "d", "D", "e", "lm", "tmm", "ll", "dl", "lhu", "I", "J"];
    for (i, x) in a.iter().enumerate() { for y in &a[i..] { list.push(vec![x.to_string(), y.to_string()]) } }
    for x in [["l", "l", "l"], ["l", "l", "d"], ["l", "d", "d"], ["L", "l", "d"], ["l", "l", "t"], ["ll", "l", "d"], ["l", "e", "l"], ["lmm", "L", "D"], ["t", "d", "l"], ["l", "l", "e"]] { list.push(x.iter().map(|s| s.to_string()).collect()) }
    let mut g = Rng(run.seed ^ 0x3333);
    for i in 0..if thorough { 300 } else { 30 } { list.push((0..2 + (i % 3) / 1).map(|_| mkprog(&mut g, b"llLtTdDemuIJ", 1, if i % 3 == 0 { 4 } else { 2 })).collect()) }
    for p in list {
        let cfg = format!("{{\"k\":\"mutex\",\"n\":{}}}", p.len());
        run.explore(&format!("mutex/{}", p.join("+")), &cfg, &|| {
            let m = Arc::new(AMutex::new(Pay::new(1)));
            let th = p.iter().cloned().map(|p| { let m = m.clone(); Box::new(move |t| mx_thread(&m, t, &p)) as Prog }).collect();
            Scn { threads: th, fin: Some(Box::new(move || drop(m))) }
        });
    }
}

// ---- two-way lock -------------------------------------------------------------------------
type Meet<T> = Arc<Mutex<Option<T>>>;
/// The first to arrive leaves its half, the second gets it.
fn meet<T>(m: &Meet<T>, x: T) -> Option<(T, T)> {
    sched::point();
    sched::ops::acquired(Arc::as_ptr(m) as *const () as usize);
    let mut g = m.lock().unwrap();
    let r = match g.take() { None => { *g = Some(x); None } Some(o) => Some((o, x)) };
    drop(g);
    sched::ops::released(Arc::as_ptr(m) as *const () as usize);
    r
}
fn bl_thread(b: BiLock<Pay>, t: usize, prog: &str, m: Meet<BiLock<Pay>>) {
    for c in prog.chars() {
        if c == 'U' {
            if let Some((mut a, mut b)) = meet(&m, b) {
                let (f1, f2) = BiLock::new(Pay::new(77));
                let c = call("pair", |e| e.n("a", 1)); let r = a.is_pair_of(&b); c.ret(tf(r), 0);
                let c = call("pair", |e| e.n("a", 0)); let r = a.is_pair_of(&f1); c.ret(tf(r), 0);
                let c = call("reunite", |e| e.n("a", 0));
                match a.reunite(f1) { Ok(_) => { c.ret("ok", 0); return } Err(e) => { c.ret("err", 0); a = e.0; drop(f2); drop(e.1) } }
                if t == 0 { std::mem::swap(&mut a, &mut b) }
                let c = call("reunite", |e| e.n("a", 1));
                match a.reunite(b) { Ok(p) => { let v = p.read(); c.ret("ok", v) } Err(_) => c.ret("err", 0) }
            }
            return
        }
        let g = match c {
            'l' => wait("lock", 0, |cx| b.poll_lock(cx), |g| ("ready", g.read())),
            'L' => { let mut f = b.lock(); wait("lock", 0, |cx| Pin::new(&mut f).poll(cx), |g| ("ready", g.read())) }
            'p' => poll1("lock", 0, |cx| b.poll_lock(cx), |g| ("ready", g.read())),
            'q' => { let mut g = poll1("lock", 0, |cx| b.poll_lock(cx), |g| ("ready", g.read())); if g.is_none() { g = poll1("lock", 0, |cx| b.poll_lock(cx), |g| ("ready", g.read())) } g }
            _ => unreachable!(),
        };
        if let Some(mut g) = g { use_it(&mut g, t); let c = call("unlock", |e| e.n("a", 0)); drop(g); c.ret("ok", 0) } else if c == 'l' || c == 'L' { break }
    }
    sched::label("drop");
    sched::point();
    drop(b);
}
pub fn bilock(run: &mut Run, thorough: bool) {
    let mut list: Vec<(String, String)> = vec![];
    let a = ["l", "p", "ll", "pl", "q", "ql", "lp", "L", "lll", "qq", "plp"];
    for (i, x) in a.iter().enumerate() { for y in &a[i..] { list.push((x.to_string(), y.to_string())) } }
    let mut g = Rng(run.seed ^ 0x4444);
    for _ in 0..if thorough { 100 } else { 10 } { list.push((mkprog(&mut g, b"lLpq", 1, 5), mkprog(&mut g, b"lLpq", 1, 5))) }
    for i in 0..list.len() { if i % 3 == 0 { let (x, y) = list[i].clone(); list.push((x + "U", y + "U")) } }
    for (x, y) in list {
        run.explore(&format!("bilock/{}+{}", x, y), "{\"k\":\"bilock\",\"n\":2}", &|| {
            let (a, b) = BiLock::new(Pay::new(1));
            let m: Meet<BiLock<Pay>> = Default::default();
            let m2 = m.clone();
            let (x, y) = (x.clone(), y.clone());
            Scn { threads: vec![Box::new(move |t| bl_thread(a, t, &x, m)), Box::new(move |t| bl_thread(b, t, &y, m2))], fin: None }
        });
    }
}
/// Split halves: exclusive use of the shared object, pass-through, wake-ups.
pub fn split(run: &mut Run, thorough: bool) {
    let mut g = Rng(run.seed ^ 0x5555);
    let mut list: Vec<(String, String)> = vec![];
    for x in ["r", "rr", "prr", "rrx"] { for y in ["w", "ww", "wf", "wfw", "pww", "wc", "wx"] { list.push((x.to_string(), y.to_string())) } }
    for _ in 0..if thorough { 100 } else { 10 } { list.push((mkprog(&mut g, b"rrp", 1, 4), mkprog(&mut g, b"wwfp", 1, 4))) }
    let mut list: Vec<(String, String, String)> = list.into_iter().map(|(x, y)| (x, y, String::new())).collect();
    for (x, y, o) in [("rU", "wU", ""), ("rrU", "wfU", ""), ("U", "wcU", ""), ("prU", "wwU", ""), ("r", "w", "ab"), ("rr", "ww", "aabb"), ("pr", "wf", "ba"), ("r", "wfw", "bba"), ("rr", "wc", "ba"), ("rr", "w", "b"), ("r", "ww", "a"), ("ppr", "pw", "abab"), ("rU", "wU", "ab"), ("rrr", "wwf", "abbaab")] { list.push((x.into(), y.into(), if o.is_empty() { o.into() } else { format!("g{}", o) })) }
    for _ in 0..if thorough { 100 } else { 8 } { list.push((mkprog(&mut g, b"rrp", 1, 3), mkprog(&mut g, b"wwfp", 1, 3), format!("g{}", mkprog(&mut g, b"ab", 1, 6)))) }
    for (x, y, o) in list {
        for io in [false, true] {
            run.explore(&format!("split/{}/{}+{}+{}", if io { "io" } else { "st" }, x, y, o), &format!("{{\"k\":\"split\",\"n\":{},\"gated\":{}}}", if o.is_empty() { 2 } else { 3 }, !o.is_empty()), &|| {
                let (x, y) = (x.clone(), y.clone());
                let d = Duplex::new(!o.is_empty());
                let (rg, wg) = (d.rg.clone(), d.wg.clone());
                let og = o.clone();
                let mut th: Vec<Prog> = vec![];
                if io {
                    let m: Meet<Half> = Default::default();
                    let m2 = m.clone();
                    let (r, w) = futures_util::io::AsyncReadExt::split(d);
                    th.push(Box::new(move |_| io_read(r, &x, m))); th.push(Box::new(move |_| io_write(w, &y, m2)));
                } else {
                    let (w, r) = futures_util::StreamExt::split(d);
                    let m: Meet<Half> = Default::default();
                    let m2 = m.clone();
                    th.push(Box::new(move |_| st_read(r, &x, m))); th.push(Box::new(move |_| st_write(w, &y, m2)));
                }
                if !og.is_empty() { th.push(Box::new(move |_| for c in og.chars() { match c { 'a' => if let Some(g) = &rg { g.grant() }, 'b' => if let Some(g) = &wg { g.grant() }, _ => {} } })) }
                Scn { threads: th, fin: None }
            });
        }
    }
}
/// An object usable by one thread at a time, as stream+sink and as reader+writer. Item k is k.
struct Duplex { busy: bool, k: i64, ready: bool, canary: Pay, rg: Option<Arc<Tok>>, wg: Option<Arc<Tok>> }
/// Permits granted by another thread.
struct Tok { k: i64, st: Mutex<(i64, Option<Waker>)> }
impl Tok {
    fn grant(&self) {
        let c = call("grant", |e| e.n("a", self.k));
        sched::ops::acquired(self as *const Tok as usize);
        let w = { let mut g = self.st.lock().unwrap(); g.0 += 1; g.1.take() };
        E::new("granted").n("k", self.k).log();
        sched::ops::released(self as *const Tok as usize);
        sched::point();
        if let Some(w) = w { w.wake() }
        c.ret("ok", 0)
    }
    fn take(&self, cx: &mut Context<'_>, n: i64) -> bool {
        let w = cx.waker().clone();
        sched::ops::acquired(self as *const Tok as usize);
        let mut g = self.st.lock().unwrap();
        let old;
        let ok = if g.0 > 0 { g.0 -= n; old = Some(w); true } else { old = g.1.replace(w); false };
        drop(g);
        sched::ops::released(self as *const Tok as usize);
        drop(old);
        ok
    }
}
enum Half { R(ReadHalf<Duplex>), W(WriteHalf<Duplex>), Si(SplitSink<Duplex, Pay>), St(SplitStream<Duplex>) }
fn reunite(a: Half, b: Half) {
    match (a, b) {
        (Half::R(r), Half::W(w)) | (Half::W(w), Half::R(r)) => {
            let (r2, w2) = futures_util::io::AsyncReadExt::split(Duplex::new(false));
            let c = call("pair", |e| e.n("a", 1)); let b = r.is_pair_of(&w) && w.is_pair_of(&r); c.ret(tf(b), 0);
            let c = call("pair", |e| e.n("a", 0)); let b = r2.is_pair_of(&w) || w2.is_pair_of(&r); c.ret(tf(b), 0);
            let c = call("reunite", |e| e.n("a", 0));
            let w = match r2.reunite(w) { Ok(_) => { c.ret("ok", 0); return } Err(e) => { c.ret("err", 0); drop(w2); e.1 } };
            let c = call("reunite", |e| e.n("a", 1));
            match w.reunite(r) { Ok(d) => { d.canary.read(); c.ret("ok", d.k) } Err(_) => c.ret("err", 0) }
        }
        (Half::Si(w), Half::St(r)) | (Half::St(r), Half::Si(w)) => {
            let (w2, r2) = futures_util::StreamExt::split::<Pay>(Duplex::new(false));
            let c = call("pair", |e| e.n("a", 1)); let b = r.is_pair_of(&w) && w.is_pair_of(&r); c.ret(tf(b), 0);
            let c = call("pair", |e| e.n("a", 0)); let b = r2.is_pair_of(&w) || w2.is_pair_of(&r); c.ret(tf(b), 0);
            let c = call("reunite", |e| e.n("a", 0));
            let w = match r2.reunite(w) { Ok(_) => { c.ret("ok", 0); return } Err(e) => { c.ret("err", 0); drop(w2); e.0 } };
            let c = call("reunite", |e| e.n("a", 1));
            match w.reunite(r) { Ok(d) => { d.canary.read(); c.ret("ok", d.k) } Err(_) => c.ret("err", 0) }
        }
        _ => unreachable!(),
    }
}
impl Duplex {
    fn new(gated: bool) -> Duplex { let g = |k| if gated { Some(Arc::new(Tok { k, st: Mutex::new((0, None)) })) } else { None }; Duplex { busy: false, k: 0, ready: false, canary: Pay::new(9), rg: g(0), wg: g(1) } }
    fn gate(&mut self, w: bool, n: i64, cx: &mut Context<'_>) -> bool {
        let ok = match if w { &self.wg } else { &self.rg } { None => true, Some(g) => g.take(cx, n) };
        if !ok { self.op("pend", 0) }
        ok
    }
    fn enter(&mut self) { self.canary.read(); if self.busy { E::new("overlap").n("t", me()).n("i", 0).log() } self.busy = true; sched::point(); }
    fn exit(&mut self) { self.busy = false; self.canary = Pay::new(9); }
    fn op(&mut self, op: &'static str, v: i64) { self.enter(); E::new("dup").n("t", me()).s("op", op).n("v", v).log(); self.exit() }
}
impl futures_core::Stream for Duplex {
    type Item = Pay;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Pay>> { if !self.gate(false, 1, cx) { return Poll::Pending } self.k += 1; let k = self.k; self.op("read", k); Poll::Ready(Some(Pay::new(k))) }
}
impl futures_util::sink::Sink<Pay> for Duplex {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> { if !self.ready && !self.gate(true, 1, cx) { return Poll::Pending } self.op("ready", 0); self.ready = true; Poll::Ready(Ok(())) }
    fn start_send(mut self: Pin<&mut Self>, p: Pay) -> Result<(), ()> { let v = p.read(); if !self.ready { E::new("overlap").n("t", me()).n("i", 1).log() } self.ready = false; self.op("write", v); Ok(()) }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> { self.op("flush", 0); Poll::Ready(Ok(())) }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> { self.op("close", 0); Poll::Ready(Ok(())) }
}
impl futures_util::io::AsyncRead for Duplex {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> { if !self.gate(false, 1, cx) { return Poll::Pending } self.k += 1; let k = self.k; self.op("read", k); buf[0] = k as u8; Poll::Ready(Ok(1)) }
}
impl futures_util::io::AsyncWrite for Duplex {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> { if !self.gate(true, 1, cx) { return Poll::Pending } self.op("write", b[0] as i64); Poll::Ready(Ok(1)) }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { self.op("flush", 0); Poll::Ready(Ok(())) }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { self.op("close", 0); Poll::Ready(Ok(())) }
}
use futures_util::io::{AsyncRead, AsyncWrite, ReadHalf, WriteHalf};
use futures_util::sink::Sink;
use futures_util::stream::{SplitSink, SplitStream};
fn io_read(mut r: ReadHalf<Duplex>, prog: &str, m: Meet<Half>) {
    let mut b = [0u8; 4];
    let show = |r: &(std::io::Result<usize>, u8)| match r.0 { Ok(1) => ("item", r.1 as i64), _ => ("weird", 0) };
    for c in prog.chars() {
        let mut f = |cx: &mut Context<'_>| match Pin::new(&mut r).poll_read(cx, &mut b) { Poll::Ready(x) => Poll::Ready((x, b[0])), Poll::Pending => Poll::Pending };
        match c { 'r' => { if wait("read", 0, &mut f, show).is_none() { break } } 'p' => { poll1("read", 0, &mut f, show); } _ => {} }
    }
    sched::point();
    if prog.ends_with('U') { if let Some((a, b)) = meet(&m, Half::R(r)) { reunite(a, b) } }
}
fn io_write(mut w: WriteHalf<Duplex>, prog: &str, m: Meet<Half>) {
    let ok = |r: &std::io::Result<()>| if r.is_ok() { ("ok", 0) } else { ("weird", 0) };
    let n1 = |r: &std::io::Result<usize>| if matches!(r, Ok(1)) { ("ok", 0) } else { ("weird", 0) };
    let mut v = 10u8;
    for c in prog.chars() {
        let r = match c {
            'w' => { v += 1; wait("write", v as i64, |cx| Pin::new(&mut w).poll_write(cx, &[v, 0]), n1).is_some() }
            'p' => { v += 1; poll1("write", v as i64, |cx| Pin::new(&mut w).poll_write(cx, &[v, 0]), n1); true }
            'f' => wait("flush", 0, |cx| Pin::new(&mut w).poll_flush(cx), ok).is_some(),
            'c' => wait("close", 0, |cx| Pin::new(&mut w).poll_close(cx), ok).is_some(),
            _ => true,
        };
        if !r { break }
    }
    sched::point();
    if prog.ends_with('U') { if let Some((a, b)) = meet(&m, Half::W(w)) { reunite(a, b) } }
}
fn st_read(mut r: SplitStream<Duplex>, prog: &str, m: Meet<Half>) {
    let show = |r: &Option<Pay>| match r { Some(p) => ("item", p.read()), None => ("weird", 0) };
    for c in prog.chars() {
        let mut f = |cx: &mut Context<'_>| futures_core::Stream::poll_next(Pin::new(&mut r), cx);
        match c { 'r' => { if wait("read", 0, &mut f, show).is_none() { break } } 'p' => { poll1("read", 0, &mut f, show); } _ => {} }
    }
    sched::point();
    if prog.ends_with('U') { if let Some((a, b)) = meet(&m, Half::St(r)) { reunite(a, b) } }
}
fn st_write(mut w: SplitSink<Duplex, Pay>, prog: &str, m: Meet<Half>) {
    let ok = |r: &Result<(), ()>| if r.is_ok() { ("ok", 0) } else { ("weird", 0) };
    let mut v = 10;
    for c in prog.chars() {
        let r = match c {
            'w' | 'p' => {
                if wait("ready", 0, |cx| Pin::new(&mut w).poll_ready(cx), ok).is_none() { false } else {
                    v += 1;
                    let c = call("ssend", |e| e.n("a", v)); let r = Pin::new(&mut w).start_send(Pay::new(v)); c.ret(if r.is_ok() { "ok" } else { "weird" }, 0);
                    true
                }
            }
            'f' => wait("flush", 0, |cx| Pin::new(&mut w).poll_flush(cx), ok).is_some(),
            'c' => wait("close", 0, |cx| Pin::new(&mut w).poll_close(cx), ok).is_some(),
            _ => true,
        };
        if !r { break }
    }
    // what is still held back must go out with a last flush
    wait("flush", 0, |cx| Pin::new(&mut w).poll_flush(cx), ok);
    sched::point();
    if prog.ends_with('U') { if let Some((a, b)) = meet(&m, Half::Si(w)) { reunite(a, b) } }
}
