//! Executors: LocalPool, block_on, ThreadPool.
use super::*;
use futures_executor::{block_on, block_on_stream, LocalPool, ThreadPool};
use futures_util::task::{LocalSpawnExt, SpawnExt};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn gate_prog(g: &[Arc<Gate>], prog: &str) {
    let mut k = 0;
    for c in prog.chars() {
        match c { '0'..='9' => k = c as usize - '0' as usize, 'o' => g[k].open(), 'w' => g[k].wake(), 'W' => g[k].wake_old(), 'h' => sched::point(), _ => unreachable!() }
    }
}
fn fin_gates(gs: Vec<Arc<Gate>>) -> Option<Box<dyn FnOnce()>> { Some(Box::new(move || for g in gs { g.forget_wakers() })) }
/// `next`: spawned when this one completes; `-next`: spawned at the second poll; `1000 + next`: at the first.
struct Task<S: Fn(i64)> { f: GateFut, spawn: S, next: i64, n: u32 }
impl<S: Fn(i64) + Unpin> Future for Task<S> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.n += 1;
        match Pin::new(&mut self.f).poll(cx) { Poll::Pending => { if self.n == 2 && self.next < 0 { (self.spawn)(-self.next) } if self.n == 1 && self.next >= 1000 { (self.spawn)(self.next - 1000) } Poll::Pending } Poll::Ready(p) => { p.read(); if self.next > 0 && self.next < 1000 { (self.spawn)(self.next) } Poll::Ready(()) } }
    }
}
fn gf(g: &Arc<Gate>) -> GateFut { let mut f = GateFut::new(g); f.logdrop = true; f }

/// A panic of a task, not the end of the run.
fn caught<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| if e.is::<sched::Cancelled>() { std::panic::resume_unwind(e) })
}

// ---- LocalPool ----------------------------------------------------------------------------
fn lp_owner(gs: Vec<Arc<Gate>>, prog: &str) {
    let mut pool = LocalPool::new();
    let mut k = 0usize;
    let mut it = prog.chars();
    fn spawn(sp: &futures_executor::LocalSpawner, gs: &Rc<Vec<Arc<Gate>>>, i: usize, next: i64, nested: bool) {
        E::new("spawn").n("t", me()).n("i", gs[i].i).b("nested", nested).log();
        let (sp2, gs2) = (sp.clone(), gs.clone());
        use futures_util::task::{LocalFutureObj, LocalSpawn, Spawn};
        let t = Task { f: gf(&gs[i]), spawn: move |n: i64| spawn(&sp2, &gs2, n as usize, 0, true), next, n: 0 };
        sp.status().unwrap();
        sp.status_local().unwrap();
        // every other one through the interface for sendable futures
        if i % 2 == 1 { sp.spawn_obj(unsafe { LocalFutureObj::new(Box::pin(t)).into_future_obj() }).unwrap() } else { sp.spawn_local(t).unwrap() }
    }
    use std::rc::Rc;
    let gr = Rc::new(gs.clone());
    let done = catch_unwind(AssertUnwindSafe(|| {
    while let Some(c) = it.next() {
        match c {
            's' => { let sp = pool.spawner(); spawn(&sp, &gr, k, 0, false); k += 1 }
            'S' => { // a task that spawns the next one when it completes
                let sp = pool.spawner(); spawn(&sp, &gr, k, k as i64 + 1, false); k += 2
            }
            'F' => { // a task that spawns the next one when it is first polled
                let sp = pool.spawner(); spawn(&sp, &gr, k, 1000 + k as i64 + 1, false); k += 2
            }
            'P' => { // a task that spawns the next one when it is polled again
                let sp = pool.spawner(); spawn(&sp, &gr, k, -(k as i64 + 1), false); k += 2
            }
            'r' => { let c = call("run", |e| e.n("a", 0)); let ok = caught(|| pool.run()).is_ok(); c.ret(if ok { "ok" } else { "panic" }, 0) }
            'M' => { // blocking iteration over two items
                let (a, b) = (gr[k].clone(), gr[k + 1].clone());
                k += 2;
                use futures_util::StreamExt;
                for g in [&a, &b] { E::new("spawn").n("t", me()).n("i", g.i).log() }
                let mut s = block_on_stream(Box::pin(futures_util::stream::iter([gf(&a), gf(&b)]).then(|f| f)));
                for g in [&a, &b] { let c = call("until", |e| e.n("a", g.i)); match s.next() { Some(p) => { let v = p.read(); c.ret("item", v) } None => c.ret("none", 0) } }
                let c = call("over", |e| e.n("a", 0)); let n = s.next().is_none(); c.ret(tf(n), 0)
            }
            'u' => { let g = gr[k].clone(); k += 1; E::new("spawn").n("t", me()).n("i", g.i).log(); let c = call("until", |e| e.n("a", g.i)); let p = pool.run_until(gf(&g)); let v = p.read(); c.ret("item", v) }
            'o' => { let c = call("one", |e| e.n("a", 0)); match caught(|| pool.try_run_one()) { Ok(b) => c.ret(tf(b), 0), Err(_) => c.ret("panic", 0) } }
            't' => { let c = call("stalled", |e| e.n("a", 0)); let ok = caught(|| pool.run_until_stalled()).is_ok(); c.ret(if ok { "ok" } else { "panic" }, 0) }
            'b' => { let g = gr[k].clone(); k += 1; E::new("spawn").n("t", me()).n("i", g.i).log(); let c = call("until", |e| e.n("a", g.i)); let p = block_on(gf(&g)); let v = p.read(); c.ret("item", v) }
            'B' => { let g = gr[k].clone(); k += 1; E::new("spawn").n("t", me()).n("i", g.i).log(); let c = call("until", |e| e.n("a", g.i)); let p = block_on_stream(Box::pin(futures_util::stream::once(gf(&g)))).next().unwrap(); let v = p.read(); c.ret("item", v) }
            'N' => { // nested blocking is refused and leaves the thread usable
                let c = call("nested", |e| e.n("a", 0));
                let r = caught(|| block_on(async { catch_unwind(|| block_on(async {})).is_err() }));
                let again = catch_unwind(|| block_on(async { 7 })).ok() == Some(7) && futures_executor::enter().is_ok();
                c.ret(tf(r.ok() == Some(true) && again), 0)
            }
            _ => unreachable!(),
        }
    }
    }));
    if let Err(e) = done { if e.is::<sched::Cancelled>() { drop(pool); return } std::panic::resume_unwind(e) }
    let sp = pool.spawner();
    let c = call("clear", |e| e.n("a", 0));
    drop(pool);
    c.ret("ok", 0);
    // nothing can be spawned on what is gone, and what is refused is dropped
    use futures_util::task::{LocalSpawn, Spawn, SpawnExt};
    let c = call("over", |e| e.n("a", 0));
    let p = Pay::new(55);
    let r = sp.spawn_local(async move { p.read(); });
    let p = Pay::new(56);
    let r2 = sp.spawn(async move { p.read(); });
    c.ret(tf(r.is_err_and(|e| e.is_shutdown()) && r2.is_err_and(|e| e.is_shutdown()) && sp.status_local().is_err() && sp.status().is_err()), 0);
}
pub fn local(run: &mut Run, thorough: bool) {
    run.budget.stale = 0; // as for FuturesUnordered
    let mut list: Vec<(String, Vec<String>)> = vec![];
    let v = |s: &[&str]| s.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    for (o, w) in [("b", &["o"][..]), ("b", &["wo"]), ("bb", &["o1o"]), ("bb", &["1o", "wo"]), ("B", &["wo"]), ("sr", &["o"]), ("ssr", &["o", "1o"]), ("ssr", &["1wo0o", "w1o"]), ("Sr", &["o1o"]), ("Sr", &["1o", "wo"]), ("su", &["1o"]), ("su", &["o1o"]), ("sur", &["1o", "o"]), ("so", &["o"]), ("ssoo", &["o1o"]),
        ("st", &["wo"]), ("stt", &["o"]), ("sttr", &["wo"]), ("Stor", &["o1o"]), ("stbr", &["wo", "1o"]), ("N", &[""]), ("sNr", &["wo"]), ("bsr", &["wW1o", "0o"]), ("ub", &["wo1o"]), ("ssst", &["o1o", "2o"]), ("ssou", &["2o", "w1o"]), ("Suo", &["w0o2o"]), ("str", &["w", "wo"]), ("M", &["o1o"]), ("M", &["1o", "wo"]), ("sMr", &["1o2o", "0wo"]),
        ("Psr", &["w"]), ("Psr", &["w2o", "1o"]), ("sPr", &["1w", "0o2o"]), ("Psto", &["w"]), ("Pstoo", &["w1o"]), ("Pstt", &["w"]), ("Psu", &["w"]), ("ssr", &["w1o"]), ("Psou", &["w3o"]), ("Pr", &["wo1o"]), ("Fo", &["1o"]), ("stFo", &["2o"]), ("soFo", &["2o"]), ("stFor", &["2o1o", "0o"]), ("sstFt", &["3o"]), ("stFu", &["3o", "2o"]), ("Foo", &["1o0o"]), ("For", &["o1o"]), ("Ft", &["1o"]), ("Ftr", &["wo", "1o"]), ("Fr", &["1o0o"]), ("Fu", &["2o", "1o0o"]), ("FPtor", &["w2w", "o2o1o3o"])] { list.push((o.into(), v(w))) }
    let mut g = Rng(run.seed ^ 0xbbbb);
    for _ in 0..if thorough { 200 } else { 20 } {
        let o = mkprog(&mut g, b"ssSPFubottBNrM", 1, 4) + "r";
        let nm = o.chars().map(|c| match c { 's' | 'u' | 'b' | 'B' => 1, 'S' | 'P' | 'F' | 'M' => 2, _ => 0 }).sum::<usize>();
        let nt = 1 + g.below(2) as usize;
        let mut w: Vec<String> = (0..nt).map(|_| { let mut s = String::new(); if nm > 0 { for _ in 0..g.below(3) { s.push((b'0' + g.below(nm as u32) as u8) as char); s.push(*b"wW".get(g.below(2) as usize).unwrap() as char) } } s }).collect();
        for k in 0..nm { if o.contains(|c| "bBM".contains(c)) || g.below(5) > 0 { w[k % nt].push_str(&format!("{}o", k)) } }
        if nm > 9 { continue }
        list.push((o, w));
    }
    let mut list: Vec<(String, Vec<String>, i64)> = list.into_iter().map(|(o, w)| (o, w, -1)).collect();
    for (o, w) in [("srr", &["o"][..]), ("ssrr", &["o1o"]), ("sstot", &["o", "1o"]), ("sur", &["0o", "1o"]), ("Srr", &["o1o"]), ("ssoor", &["1o0o"])] { if !o.contains('u') && !o.contains('S') { list.push((o.into(), v(w), 0)); } }
    for (o, w, pan) in list {
        let cfg = format!("{{\"k\":\"local\",\"n\":{}}}", w.len() + 1);
        run.explore(&format!("local/{}/{}{}", o, w.join("+"), if pan >= 0 { "/panic" } else { "" }), &cfg, &|| {
            // A main future may be polled without having been woken itself.
            let mut strict: Vec<bool> = vec![];
            for c in o.chars() { match c { 's' => strict.push(true), 'S' | 'P' | 'F' => strict.extend([true, true]), 'u' => strict.push(false), 'b' | 'B' => strict.push(o.len() == 1), 'M' => strict.extend([false, false]), _ => {} } }
            let gs: Vec<Arc<Gate>> = (0..10).map(|i| Gate::mk(i as i64 + 1, strict.get(i) == Some(&true), i as i64 == pan)).collect();
            let (o, g2) = (o.clone(), gs.clone());
            let mut th: Vec<Prog> = vec![Box::new(move |_| lp_owner(g2, &o))];
            for p in w.clone() { let g2 = gs.clone(); th.push(Box::new(move |_| gate_prog(&g2, &p))) }
            Scn { threads: th, fin: fin_gates(gs) }
        });
    }
}

// ---- ThreadPool ---------------------------------------------------------------------------
fn tp_spawn(pool: &ThreadPool, gs: &Arc<Vec<Arc<Gate>>>, i: usize, next: i64) {
    E::new("spawn").n("t", me()).n("i", gs[i].i).log();
    let (p2, gs2) = (pool.clone(), gs.clone());
    // The spawner is dropped with the task, so that it does not keep the pool alive.
    if next != 0 { pool.spawn_ok(Task { f: gf(&gs[i]), spawn: move |n: i64| tp_spawn(&p2, &gs2, n as usize, 0), next, n: 0 }) } else { drop(p2); pool.spawn_ok(Task { f: gf(&gs[i]), spawn: |_| {}, next: 0, n: 0 }) }
}
fn tp_owner(gs: Vec<Arc<Gate>>, size: usize, prog: &str) {
    let gr = Arc::new(gs);
    let pool = ThreadPool::builder().pool_size(size).name_prefix("w").after_start(|i| E::new("wstart").n("i", i as i64).log()).before_stop(|i| E::new("wstop").n("i", i as i64).log()).create().unwrap();
    let mut k = 0;
    for c in prog.chars() {
        match c {
            's' => { tp_spawn(&pool, &gr, k, 0); k += 1 }
            'S' => { tp_spawn(&pool, &gr, k, k as i64 + 1); k += 2 }
            'F' => { tp_spawn(&pool, &gr, k, 1000 + k as i64 + 1); k += 2 }
            'P' => { tp_spawn(&pool, &gr, k, -(k as i64 + 1)); k += 2 }
            'h' => { let g = gr[k].clone(); k += 1; E::new("spawn").n("t", me()).n("i", g.i).log(); let h = pool.spawn_with_handle(gf(&g)).unwrap(); let mut h = h; let r = wait("handle", g.i, |cx| Pin::new(&mut h).poll(cx), |p| ("item", p.read())); if r.is_none() { break } }
            'c' => { let p2 = pool.clone(); sched::point(); drop(p2) }
            _ => unreachable!(),
        }
    }
    sched::label("drop");
    sched::point();
    drop(pool);
}
pub fn pool(run: &mut Run, thorough: bool) {
    let mut list: Vec<(usize, String, Vec<String>)> = vec![];
    let v = |s: &[&str]| s.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    for (n, o, w) in [(1, "s", &["o"][..]), (1, "s", &["wo"]), (1, "ss", &["o", "1o"]), (2, "s", &["wo"]), (2, "s", &["w", "wo"]), (2, "ss", &["o1o"]), (2, "ss", &["1wo", "w0o"]), (1, "S", &["o1o"]), (1, "F", &["o1o"]), (2, "F", &["1o", "wo"]), (2, "S", &["1o", "wo"]), (1, "h", &["o"]), (2, "h", &["wo"]), (2, "hs", &["wo", "1o"]), (2, "s", &["wwwo"]), (1, "c", &[""]), (2, "csc", &["o"]), (2, "", &[""]), (2, "s", &["wWo"]), (1, "Ps", &["wo1o", "2o"]), (2, "P", &["wo", "1o"]), (3, "ss", &["wo", "1wo"])] { list.push((n, o.into(), v(w))) }
    let mut g = Rng(run.seed ^ 0xcccc);
    for _ in 0..if thorough { 100 } else { 10 } {
        let o = mkprog(&mut g, b"sssSPhc", 1, 3);
        let nm = o.chars().map(|c| match c { 's' | 'h' => 1, 'S' | 'P' | 'F' => 2, _ => 0 }).sum::<usize>();
        let nt = 1 + g.below(2) as usize;
        let mut w: Vec<String> = (0..nt).map(|_| { let mut s = String::new(); if nm > 0 { for _ in 0..g.below(3) { s.push((b'0' + g.below(nm as u32) as u8) as char); s.push(*b"wW".get(g.below(2) as usize).unwrap() as char) } } s }).collect();
        for k in 0..nm { w[k % nt].push_str(&format!("{}o", k)) }
        list.push((1 + g.below(2) as usize, o, w));
    }
    for (n, o, w) in list {
        let cfg = format!("{{\"k\":\"pool\",\"n\":{},\"size\":{}}}", w.len() + 1, n);
        run.explore(&format!("pool/{}/{}/{}", n, o, w.join("+")), &cfg, &|| {
            let gs: Vec<Arc<Gate>> = (0..10).map(|i| Gate::mk(i as i64 + 1, true, false)).collect();
            let (o, g2) = (o.clone(), gs.clone());
            let mut th: Vec<Prog> = vec![Box::new(move |_| tp_owner(g2, n, &o))];
            // Wakers keep the pool alive: the last waking thread gives them up.
            let left = Arc::new(std::sync::atomic::AtomicUsize::new(w.len()));
            for p in w.clone() {
                let (g2, left) = (gs.clone(), left.clone());
                th.push(Box::new(move |_| { gate_prog(&g2, &p); if left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst) == 1 { for g in &g2 { g.close() } } }))
            }
            Scn { threads: th, fin: fin_gates(gs) }
        });
    }
}
