//! One-shot and mpsc channels under the controlled scheduler.
use crate::sched::{self, Rng};
use crate::trace::*;
use futures_channel::{mpsc, oneshot};
use futures_core::Stream;
use futures_util::sink::Sink;
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;

// ---- oneshot ------------------------------------------------------------------------------
fn os_sender(tx: oneshot::Sender<Pay>, prog: &str) {
    let mut tx = Some(tx);
    for c in prog.chars() {
        let Some(s) = tx.as_mut() else { return };
        match c {
            's' => {
                let c = call("send", |e| e.n("a", 1));
                match tx.take().unwrap().send(Pay::new(1)) { Ok(()) => c.ret("ok", 0), Err(p) => { let v = p.read(); c.ret("err", v) } }
            }
            'x' => { let c = call("droptx", |e| e.n("a", 0)); drop(tx.take()); c.ret("ok", 0) }
            'q' => { let c = call("iscanceled", |e| e.n("a", 0)); let b = s.is_canceled(); c.ret(if b { "t" } else { "f" }, 0) }
            'p' => { poll1("pollcanceled", 0, |cx| s.poll_canceled(cx), |_| ("ready", 0)); }
            'w' => { if wait("pollcanceled", 0, |cx| s.poll_canceled(cx), |_| ("ready", 0)).is_none() { break } }
            'W' => { let mut f = s.cancellation(); if wait("pollcanceled", 0, |cx| Pin::new(&mut f).poll(cx), |_| ("ready", 0)).is_none() { break } }
            'h' => hold(),
            _ => unreachable!(),
        }
    }
    if tx.is_some() { let c = call("droptx", |e| e.n("a", 0)); drop(tx); c.ret("ok", 0) }
}
fn os_receiver(rx: oneshot::Receiver<Pay>, prog: &str) {
    use futures_core::FusedFuture;
    let mut rx = Some(rx);
    fn show(r: &Result<Pay, oneshot::Canceled>) -> (&'static str, i64) { match r { Ok(p) => ("item", p.read()), Err(_) => ("canceled", 0) } }
    for c in prog.chars() {
        let Some(r) = rx.as_mut() else { return };
        match c {
            'n' => { if wait("recv", 0, |cx| Pin::new(&mut *r).poll(cx), show).is_none() { break } }
            'p' => { poll1("recv", 0, |cx| Pin::new(&mut *r).poll(cx), show); }
            't' => {
                let c = call("tryrecv", |e| e.n("a", 0));
                match r.try_recv() { Ok(Some(p)) => { let v = p.read(); c.ret("item", v) } Ok(None) => c.ret("empty", 0), Err(_) => c.ret("canceled", 0) }
            }
            'i' => { let c = call("isterm", |e| e.n("a", 0)); let b = r.is_terminated(); c.ret(if b { "t" } else { "f" }, 0) }
            'c' => { let c = call("close", |e| e.n("a", 0)); r.close(); c.ret("ok", 0) }
            'x' => { let c = call("droprx", |e| e.n("a", 0)); drop(rx.take()); c.ret("ok", 0) }
            'h' => hold(),
            _ => unreachable!(),
        }
    }
    if rx.is_some() { let c = call("droprx", |e| e.n("a", 0)); drop(rx); c.ret("ok", 0) }
}
pub fn oneshot(run: &mut Run, thorough: bool) {
    let s = ["s", "x", "qs", "ps", "w", "W", "pw", "pqs", "ppx", "psq"];
    let r = ["n", "tn", "pn", "cn", "ct", "px", "x", "pcn", "ptct", "cp", "pc", "ppn", "ttx", "tcx", "pct", "itx", "cit", "pin"];
    let mut list: Vec<(String, String)> = vec![];
    for a in s { for b in r { list.push((a.into(), b.into())); list.push((held(a), held(b))) } }
    for (a, b) in list {
            run.explore(&format!("oneshot/{}/{}", a, b), "{\"k\":\"oneshot\",\"n\":2}", &|| {
                let (tx, rx) = oneshot::channel::<Pay>();
                let (a, b) = (a.to_string(), b.to_string());
                Scn { threads: vec![Box::new(move |_| os_sender(tx, &a)), Box::new(move |_| os_receiver(rx, &b))], fin: None }
            });
    }
    let mut g = Rng(run.seed ^ 0x1111);
    for i in 0..if thorough { 400 } else { 40 } {
        let mk = |g: &mut Rng, al: &[u8], n: u32| (0..1 + g.below(n)).map(|_| al[g.below(al.len() as u32) as usize] as char).collect::<String>();
        let a = mk(&mut g, b"qpppw", 3) + if g.chance(3, 4) { "s" } else { "x" };
        let b = mk(&mut g, b"ppttcnnix", 5);
        let (a, b) = if g.chance(1, 2) { (held(&a), held(&b)) } else { (a, b) };
        run.explore(&format!("oneshot/rand{}/{}/{}", i, a, b), "{\"k\":\"oneshot\",\"n\":2}", &|| {
            let (tx, rx) = oneshot::channel::<Pay>();
            let (a, b) = (a.clone(), b.clone());
            Scn { threads: vec![Box::new(move |_| os_sender(tx, &a)), Box::new(move |_| os_receiver(rx, &b))], fin: None }
        });
    }
}

// ---- mpsc ---------------------------------------------------------------------------------
enum Tx { B(mpsc::Sender<Pay>), U(mpsc::UnboundedSender<Pay>) }
impl Clone for Tx { fn clone(&self) -> Tx { match self { Tx::B(s) => Tx::B(s.clone()), Tx::U(s) => Tx::U(s.clone()) } } }
impl Tx {
    fn try_send(&mut self, p: Pay) -> (&'static str, i64) {
        let r = match self { Tx::B(s) => s.try_send(p), Tx::U(s) => s.unbounded_send(p) };
        match r { Ok(()) => ("ok", 0), Err(e) => { let d = e.is_disconnected(); let f = e.is_full(); let v = e.into_inner().read(); (if d && !f { "disc" } else if f && !d { "full" } else { "weird" }, v) } }
    }
    fn start_send(&mut self, p: Pay) -> (&'static str, i64) {
        let r = match self { Tx::B(s) => s.start_send(p), Tx::U(s) => s.start_send(p) };
        match r { Ok(()) => ("ok", 0), Err(e) => (if e.is_disconnected() { "disc" } else { "full" }, 0) }
    }
    fn sink_ready(&mut self, odd: bool, cx: &mut std::task::Context<'_>) -> Poll<Result<(), mpsc::SendError>> {
        match self { Tx::B(s) => Sink::poll_ready(Pin::new(s), cx), Tx::U(s) if odd => Sink::poll_ready(Pin::new(s), cx), Tx::U(s) => { let mut q = &*s; Sink::poll_ready(Pin::new(&mut q), cx) } }
    }
    fn sink_send(&mut self, odd: bool, p: Pay) -> (&'static str, i64) {
        let r = match self { Tx::B(s) => Sink::start_send(Pin::new(s), p), Tx::U(s) if odd => Sink::start_send(Pin::new(s), p), Tx::U(s) => { let mut q = &*s; Pin::new(&mut q).start_send(p) } };
        match r { Ok(()) => ("ok", 0), Err(e) => (if e.is_disconnected() { "disc" } else { "full" }, 0) }
    }
    fn poll_ready(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Result<(), mpsc::SendError>> { match self { Tx::B(s) => s.poll_ready(cx), Tx::U(s) => s.poll_ready(cx) } }
    fn poll_flush(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Result<(), mpsc::SendError>> { match self { Tx::B(s) => Pin::new(s).poll_flush(cx), Tx::U(s) => Pin::new(s).poll_flush(cx) } }
    fn poll_close(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Result<(), mpsc::SendError>> { match self { Tx::B(s) => Pin::new(s).poll_close(cx), Tx::U(s) => Pin::new(s).poll_close(cx) } }
}
enum Rx { B(mpsc::Receiver<Pay>), U(mpsc::UnboundedReceiver<Pay>) }
impl Rx {
    fn poll(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Option<Pay>> { match self { Rx::B(r) => Pin::new(r).poll_next(cx), Rx::U(r) => Pin::new(r).poll_next(cx) } }
    fn recv(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Option<Pay>> {
        match self { Rx::B(r) => Pin::new(&mut r.recv()).poll(cx).map(|x| x.ok()), Rx::U(r) => Pin::new(&mut r.recv()).poll(cx).map(|x| x.ok()) }
    }
    fn term(&self) -> bool { use futures_core::FusedStream; match self { Rx::B(r) => r.is_terminated(), Rx::U(r) => r.is_terminated() } }
}
fn showr(r: &Result<(), mpsc::SendError>) -> (&'static str, i64) { match r { Ok(()) => ("ready", 0), Err(e) if e.is_disconnected() => ("disc", 0), Err(_) => ("weird", 0) } }
fn tx_prog(tx: Tx, t: usize, sid0: i64, prog: &str) {
    let mut tx = Some(tx);
    let mut sid = sid0;
    let mut nextsid = sid0 * 10;
    let mut aside: Vec<(i64, Tx)> = vec![];
    let mut n = 0;
    for c in prog.chars() {
        let Some(s) = tx.as_mut() else { break };
        match c {
            't' => {
                n += 1;
                let v = (t as i64 + 1) * 10 + n;
                let k = call("trysend", |e| e.n("a", v).n("s", sid));
                let (r, w) = s.try_send(Pay::new(v));
                k.ret(r, w);
            }
            's' | 'S' => {
                match wait2("pollready", sid, |cx| if c == 'S' { s.sink_ready(sid % 2 == 1, cx) } else { s.poll_ready(cx) }, showr) { None => break, Some(Ok(())) => {
                    n += 1;
                    let v = (t as i64 + 1) * 10 + n;
                    let k = call("startsend", |e| e.n("a", v).n("s", sid));
                    let (r, w) = if c == 's' { s.start_send(Pay::new(v)) } else { s.sink_send(sid % 2 == 1, Pay::new(v)) };
                    k.ret(r, w);
                } Some(Err(_)) => {} }
            }
            'r' => { let _ = poll12("pollready", sid, |cx| s.poll_ready(cx), showr); }
            'w' => { // while waiting for capacity, a refused attempt in between
                let mut over = false;
                loop {
                    let w = W::new();
                    let wk = w.waker();
                    let k = call("pollready", |e| e.n("a", 0).n("s", sid));
                    match s.poll_ready(&mut std::task::Context::from_waker(&wk)) { Poll::Ready(r) => { let (s, v) = showr(&r); k.ret(s, v); break } Poll::Pending => k.ret("pending", 0) }
                    drop(wk);
                    n += 1;
                    let v = (t as i64 + 1) * 10 + n;
                    let k = call("trysend", |e| e.n("a", v).n("s", sid));
                    let (r, w2) = s.try_send(Pay::new(v));
                    k.ret(r, w2);
                    if r != "full" { break }
                    sched::label("pollready");
                    if !sched::wait_woken(w.id()) { over = true; break }
                }
                if over { break }
            }
            'f' => { if wait2("flush", sid, |cx| s.poll_flush(cx), |r| match r { Ok(()) => ("ready", 0), Err(_) => ("err", 0) }).is_none() { break } }
            'c' => { let c = call("closech", |e| e.n("a", 0).n("s", sid)); match s { Tx::B(s) => s.close_channel(), Tx::U(s) => s.close_channel() } c.ret("ok", 0) }
            'd' => { let c = call("disconnect", |e| e.n("a", 0).n("s", sid)); match s { Tx::B(s) => s.disconnect(), Tx::U(s) => s.disconnect() } c.ret("ok", 0) }
            'F' => { if wait2("flush", sid, |cx| match &mut *s { Tx::U(s) => { let mut q = &*s; Pin::new(&mut q).poll_flush(cx) } s => s.poll_flush(cx) }, |r| match r { Ok(()) => ("ready", 0), Err(_) => ("err", 0) }).is_none() { break } }
            'Z' => { // closing through a shared reference closes the channel
                let c = call("closech", |e| e.n("a", 0).n("s", sid)); let w = W::new(); let wk = w.waker();
                let r = match s { Tx::U(s) => { let mut q = &*s; Pin::new(&mut q).poll_close(&mut std::task::Context::from_waker(&wk)) } Tx::B(s) => { s.close_channel(); Poll::Ready(Ok(())) } };
                c.ret(match r { Poll::Ready(Ok(())) => "ok", _ => "weird" }, 0)
            }
            'D' => { let c = call("disconnect", |e| e.n("a", 0).n("s", sid)); let w = W::new(); let wk = w.waker(); let r = s.poll_close(&mut std::task::Context::from_waker(&wk)); c.ret(match r { Poll::Ready(Ok(())) => "ok", _ => "weird" }, 0) }
            'q' => { let c = call("isclosed", |e| e.n("a", 0).n("s", sid)); let b = match s { Tx::B(s) => s.is_closed(), Tx::U(s) => s.is_closed() }; c.ret(if b { "t" } else { "f" }, 0) }
            'k' => { // clone, drop the original, go on with the clone
                nextsid += 1;
                let c = call("clone", |e| e.n("a", nextsid).n("s", sid)); let k = s.clone(); c.ret("ok", 0);
                let c = call("droptx", |e| e.n("a", 0).n("s", sid)); drop(tx.take()); c.ret("ok", 0);
                tx = Some(k); sid = nextsid;
            }
            'K' => { // clone, keep the original aside
                nextsid += 1;
                let c = call("clone", |e| e.n("a", nextsid).n("s", sid)); let k = s.clone(); c.ret("ok", 0);
                aside.push((sid, std::mem::replace(s, k))); sid = nextsid;
            }
            'e' => { if let Some((i, k)) = aside.pop() { let o = std::mem::replace(s, k); aside.insert(0, (sid, o)); sid = i } }
            'G' => { if let Some((i, k)) = aside.last() { let c = call("same", |e| e.n("a", *i).n("s", sid)); let b = match (&*s, k) { (Tx::B(a), Tx::B(b)) => a.same_receiver(b), (Tx::U(a), Tx::U(b)) => a.same_receiver(b), _ => unreachable!() }; c.ret(if b { "t" } else { "f" }, 0) } }
            'l' => { if let Tx::U(s) = &*s { let c = call("len", |e| e.n("a", 0).n("s", sid)); let n = s.len(); c.ret("ok", n as i64) } }
            'L' => { if let Tx::U(s) = &*s { let c = call("isempty", |e| e.n("a", 0).n("s", sid)); let b = s.is_empty(); c.ret(if b { "t" } else { "f" }, 0) } }
            'x' => { let c = call("droptx", |e| e.n("a", 0).n("s", sid)); drop(tx.take()); c.ret("ok", 0) }
            'h' => hold(),
            _ => unreachable!(),
        }
    }
    if tx.is_some() { let c = call("droptx", |e| e.n("a", 0).n("s", sid)); drop(tx); c.ret("ok", 0) }
    for (i, k) in aside { let c = call("droptx", |e| e.n("a", 0).n("s", i)); drop(k); c.ret("ok", 0) }
}
fn wait2<R>(op: &'static str, sid: i64, mut poll: impl FnMut(&mut std::task::Context<'_>) -> Poll<R>, show: impl Fn(&R) -> (&'static str, i64)) -> Option<R> {
    loop {
        let w = W::new();
        let wk = w.waker();
        let c = call(op, |e| e.n("a", 0).n("s", sid));
        match poll(&mut std::task::Context::from_waker(&wk)) { Poll::Ready(r) => { let (s, v) = show(&r); c.ret(s, v); return Some(r) } Poll::Pending => c.ret("pending", 0) }
        drop(wk);
        if !sched::wait_woken(w.id()) { return None }
    }
}
fn poll12<R>(op: &'static str, sid: i64, mut poll: impl FnMut(&mut std::task::Context<'_>) -> Poll<R>, show: impl Fn(&R) -> (&'static str, i64)) -> Option<R> {
    let w = W::new();
    let wk = w.waker();
    let c = call(op, |e| e.n("a", 0).n("s", sid));
    match poll(&mut std::task::Context::from_waker(&wk)) { Poll::Ready(r) => { let (s, v) = show(&r); c.ret(s, v); Some(r) } Poll::Pending => { c.ret("pending", 0); None } }
}
fn rx_prog(rx: Rx, prog: &str) {
    let mut rx = Some(rx);
    fn show(r: &Option<Pay>) -> (&'static str, i64) { match r { Some(p) => ("item", p.read()), None => ("none", 0) } }
    for c in prog.chars() {
        let Some(r) = rx.as_mut() else { return };
        match c {
            'n' => { if wait("recv", 0, |cx| r.poll(cx), show).is_none() { break } }
            'N' => { if wait("recv", 0, |cx| r.recv(cx), show).is_none() { break } }
            'p' => { poll1("recv", 0, |cx| r.poll(cx), show); }
            'a' => { loop { match wait("recv", 0, |cx| r.poll(cx), show) { None | Some(None) => break, _ => {} } } }
            't' => {
                let c = call("tryrecv", |e| e.n("a", 0));
                let x = match r { Rx::B(r) => r.try_recv(), Rx::U(r) => r.try_recv() };
                match x { Ok(p) => { let v = p.read(); c.ret("item", v) } Err(e) => c.ret(if e.is_closed() { "none" } else { "empty" }, 0) }
            }
            'T' => {
                let c = call("tryrecv", |e| e.n("a", 0));
                #[allow(deprecated)]
                let x = match r { Rx::B(r) => r.try_next(), Rx::U(r) => r.try_next() };
                match x { Ok(Some(p)) => { let v = p.read(); c.ret("item", v) } Ok(None) => c.ret("none", 0), Err(_) => c.ret("empty", 0) }
            }
            'H' => {
                let c = call("hint", |e| e.n("a", 0));
                let (lo, hi) = match r { Rx::B(r) => r.size_hint(), Rx::U(r) => r.size_hint() };
                c.ret("ok", lo.min(98) as i64 * 100 + hi.map_or(99, |h| h.min(98)) as i64)
            }
            'c' => { let c = call("close", |e| e.n("a", 0)); match r { Rx::B(r) => r.close(), Rx::U(r) => r.close() } c.ret("ok", 0) }
            'I' => { use futures_core::FusedFuture; let c = call("isterm", |e| e.n("a", 0)); let b = match r { Rx::B(r) => r.recv().is_terminated(), Rx::U(r) => r.recv().is_terminated() }; c.ret(if b { "t" } else { "f" }, 0) }
            'i' => { let c = call("isterm", |e| e.n("a", 0)); let b = r.term(); c.ret(if b { "t" } else { "f" }, 0) }
            'x' => { let c = call("droprx", |e| e.n("a", 0)); drop(rx.take()); c.ret("ok", 0) }
            'h' => hold(),
            _ => unreachable!(),
        }
    }
    if rx.is_some() { let c = call("droprx", |e| e.n("a", 0)); drop(rx); c.ret("ok", 0) }
}
fn mpsc_scn(buf: i64, txp: &[String], rxp: &str) -> Scn {
    let (tx, rx) = if buf < 0 { let (a, b) = mpsc::unbounded(); (Tx::U(a), Rx::U(b)) } else { let (a, b) = mpsc::channel(buf as usize); (Tx::B(a), Rx::B(b)) };
    let mut threads: Vec<Prog> = vec![];
    let mut txs: Vec<Tx> = (1..txp.len()).map(|_| tx.clone()).collect();
    txs.insert(0, tx);
    for (i, (s, p)) in txs.into_iter().zip(txp.iter().cloned()).enumerate() { threads.push(Box::new(move |t| tx_prog(s, t, i as i64 + 1, &p))) }
    let rxp = rxp.to_string();
    threads.push(Box::new(move |_| rx_prog(rx, &rxp)));
    Scn { threads, fin: None }
}
pub fn mpsc(run: &mut Run, thorough: bool, kind: &str) {
    let mut list: Vec<(i64, Vec<&str>, &str)> = vec![];
    let ub: &[(&[&str], &str)] = &[
        (&["tt"], "nnn"), (&["t", "t"], "a"), (&["tt", "t"], "na"), (&["t"], "pna"), (&["tct"], "a"), (&["t", "qc"], "a"), (&["t", "t"], "cnn"),
        (&["tt"], "nct"), (&["tt"], "px"), (&["t", "tq"], "x"), (&["tkt"], "a"), (&["td", "t"], "a"), (&["x", "t"], "nn"), (&["x"], "n"),
        (&["tt", "tt"], "nnnn"), (&["tqt"], "tct"), (&["t"], "tta"), (&["x", "x"], "pn"), (&["ct", "t"], "nn"), (&["t", "x"], "NN"), (&["d", "tD"], "pni"), (&["t", "t"], "cx"), (&["tt"], "cia"), (&["tlt", "tL"], "HnHa"), (&["tt", "c"], "HnHTH"), (&["tKtext"], "HTHa"), (&["KGdG", "tl"], "nHn"), (&["tlx", "tt"], "nxH"), (&["lt", "lL"], "cHnH"), (&["tKdet"], "a"), (&["tt"], "HcHnHnH"), (&["rt", "ft"], "a"),
    ];
    let bd: &[(i64, &[&str], &str)] = &[
        (0, &["tt"], "nn"), (0, &["ss"], "a"), (0, &["s", "s"], "a"), (1, &["sss"], "a"), (0, &["ts", "s"], "na"), (1, &["tts"], "pa"), (0, &["ts"], "cn"), (0, &["ts"], "x"), (0, &["ts"], "nx"),
        (0, &["tst", "t"], "nna"), (1, &["ss", "ss"], "a"), (0, &["tr"], "n"), (0, &["trs"], "nn"), (1, &["ttt"], "tt"), (0, &["tkt"], "nn"), (0, &["tksk"], "a"), (0, &["ts", "c"], "na"), (0, &["t", "tx", "t"], "nt"),
        (0, &["tsx", "ts"], "nnn"), (0, &["SS"], "na"), (0, &["tf"], "n"), (1, &["ttf", "t"], "nn"), (0, &["ts", "d"], "a"), (0, &["tst"], "ntct"), (2, &["tttt"], "nn"), (0, &["ss"], "pcx"), (0, &["sx", "sx"], "a"), (1, &["tq", "s"], "cx"), (0, &["tD"], "a"), (0, &["trt"], "n"), (1, &["ttrs"], "nc"), (0, &["tw"], "na"), (1, &["tqs"], "HnHa"), (0, &["tKtet"], "na"), (0, &["tKsest"], "nHna"), (1, &["tKt", "s"], "HTHTa"), (0, &["tKGx", "ts"], "nTa"), (0, &["ts"], "HcHnHnH"), (0, &["tKses"], "nc"), (1, &["ttw", "s"], "a"), (0, &["tws"], "nnx"),
    ];
    if kind != "b" { for (t, r) in ub { list.push((-1, t.to_vec(), r)) } }
    if kind != "u" { for (b, t, r) in bd { list.push((*b, t.to_vec(), r)) } }
    for (b, t, r) in [(0, &["ts", "ts"][..], "c"), (0, &["ts", "ts", "ts"], "nc"), (-1, &["SF", "SZS"], "nIa"), (-1, &["SDS", "SFZ"], "aI"), (0, &["SS", "SF"], "Ina"), (1, &["tts", "ts"], "pc"), (0, &["tf", "tf"], "c")] { list.push((b, t.to_vec(), r)) }
    for i in 0..2 * list.len() {
        let (b, t, r) = &list[i / 2];
        let b = *b;
        let txp: Vec<String> = t.iter().map(|s| if i % 2 == 1 { held(s) } else { s.to_string() }).collect();
        let r = &if i % 2 == 1 { held(r) } else { r.to_string() };
        let cfg = format!("{{\"k\":\"mpsc\",\"n\":{},\"b\":{},\"live\":[{}]}}", t.len() + 1, b, (1..=t.len()).map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        run.explore(&format!("mpsc/{}/{}/{}", b, txp.join("+"), r), &cfg, &|| mpsc_scn(b, &txp, r));
    }
    let mut g = Rng(run.seed ^ 0x2222);
    for i in 0..if thorough { 600 } else { 60 } {
        let b = if kind == "u" { -1 } else if kind == "b" { g.below(3) as i64 } else { g.below(4) as i64 - 1 };
        let nt = 1 + g.below(if i % 5 == 0 { 3 } else { 2 }) as usize;
        let mk = |g: &mut Rng, al: &[u8], n: u32| (0..1 + g.below(n)).map(|_| al[g.below(al.len() as u32) as usize] as char).collect::<String>();
        let txp: Vec<String> = (0..nt).map(|_| mk(&mut g, b"tttsssSSrkqcdxfwKelLGFZ", if nt > 1 { 3 } else { 5 })).collect();
        let mut rxp = mk(&mut g, b"nnnpttciIxNTH", 4);
        if g.chance(1, 2) { rxp.push('a') }
        let (txp, rxp) = if g.chance(1, 2) { (txp.iter().map(|s| held(s)).collect(), held(&rxp)) } else { (txp, rxp) };
        let cfg = format!("{{\"k\":\"mpsc\",\"n\":{},\"b\":{},\"live\":[{}]}}", nt + 1, b, (1..=nt).map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        run.explore(&format!("mpsc/rand{}/{}/{}/{}", i, b, txp.join("+"), rxp), &cfg, &|| mpsc_scn(b, &txp, &rxp));
    }
}
