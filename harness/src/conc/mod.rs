pub mod chan;
pub mod exec;
pub mod fut;
pub mod sync;

use crate::sched::{self, Rng, Stamp};
use crate::trace::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub fn mkprog(g: &mut Rng, al: &[u8], lo: u32, hi: u32) -> String { (0..lo + g.below(hi - lo + 1)).map(|_| al[g.below(al.len() as u32) as usize] as char).collect() }
pub fn tf(b: bool) -> &'static str { if b { "t" } else { "f" } }
pub fn me() -> i64 { sched::me().unwrap_or(99) as i64 }

/// A future completed from outside. `open` completes and wakes it; `wake` wakes it only.
/// `strict`: it is only ever polled because it was woken, so a poll must see what some waking
/// thread did before its wake.
pub struct Gate { pub i: i64, pub strict: bool, panics: bool, st: Mutex<GateSt> }
#[derive(Default)]
struct GateSt { open: bool, waker: Option<Waker>, old: Vec<Waker>, polls: u64, stamps: Vec<WStamp>, next: u64, polling: bool, done: bool, closed: bool }
struct WStamp { id: u64, s: Stamp, ended: bool, seen_ended: bool }
impl Gate {
    pub fn mk(i: i64, strict: bool, panics: bool) -> Arc<Gate> { Arc::new(Gate { i, strict, panics, st: Mutex::new(GateSt::default()) }) }
    pub fn new(i: i64) -> Arc<Gate> { Gate::mk(i, false, false) }
    fn addr(&self) -> usize { self as *const Gate as usize }
    /// Takes the waker, as under a lock shared with `poll`.
    fn begin_wake(&self, open: bool) -> (u64, Option<Waker>) {
        let s = sched::stamp();
        sched::ops::acquired(self.addr());
        let mut g = self.st.lock().unwrap();
        if open { g.open = true }
        g.next += 1;
        let id = g.next;
        g.stamps.push(WStamp { id, s, ended: false, seen_ended: false });
        let w = g.waker.take();
        drop(g);
        if open { sched::ops::released(self.addr()) }
        (id, w)
    }
    fn end_wake(&self, id: u64) { for s in &mut self.st.lock().unwrap().stamps { if s.id == id { s.ended = true } } }
    /// Returns the waker to the slot: later wakes may use it again.
    fn give_back(&self, w: Waker) {
        let rest = { let mut g = self.st.lock().unwrap(); if g.done || g.closed { Some(w) } else if g.waker.is_none() { g.waker = Some(w); None } else { g.old.push(w); None } };
        drop(rest);
    }
    pub fn open(&self) {
        let c = call("open", |e| e.n("a", self.i));
        let (id, w) = self.begin_wake(true);
        sched::point();
        let n = w.is_some() as i64;
        if let Some(w) = w { w.wake() }
        self.end_wake(id);
        c.ret("ok", n)
    }
    pub fn wake(&self) {
        let c = call("wake", |e| e.n("a", self.i));
        let (id, w) = self.begin_wake(false);
        sched::point();
        let n = w.is_some() as i64;
        if let Some(w) = w { w.wake_by_ref(); self.give_back(w) }
        self.end_wake(id);
        c.ret("ok", n)
    }
    /// Wakes through every waker handed out earlier and still kept.
    pub fn wake_old(&self) {
        let v = { let mut g = self.st.lock().unwrap(); std::mem::take(&mut g.old) };
        for w in v {
            let c = call("wake", |e| e.n("a", self.i));
            let s = sched::stamp();
            sched::ops::acquired(self.addr());
            let id = { let mut g = self.st.lock().unwrap(); g.next += 1; let id = g.next; g.stamps.push(WStamp { id, s, ended: false, seen_ended: false }); id };
            w.wake();
            self.end_wake(id);
            c.ret("ok", 1)
        }
    }
    /// No more wakes will come.
    pub fn close(&self) { self.st.lock().unwrap().closed = true; self.forget_wakers() }
    pub fn forget_wakers(&self) { let v = { let mut g = self.st.lock().unwrap(); let mut v = std::mem::take(&mut g.old); v.extend(g.waker.take()); v }; drop(v) }
    pub fn poll(&self, cx: &mut Context<'_>) -> Poll<()> {
        let t = me();
        E::new("ipoll").n("t", t).n("i", self.i).log();
        {
            let mut g = self.st.lock().unwrap();
            if g.polling { drop(g); E::new("overlap").n("t", t).n("i", self.i).log(); g = self.st.lock().unwrap(); }
            g.polling = true;
            g.polls += 1;
            let seen: Vec<Stamp> = if g.polls > 1 { g.stamps.iter().map(|s| s.s).collect() } else { vec![] };
            g.stamps.retain(|s| !s.seen_ended);
            for s in &mut g.stamps { s.seen_ended = s.ended }
            drop(g);
            if self.strict && !seen.is_empty() && !seen.iter().any(|s| sched::hb(*s)) { E::new("race").s("what", "wake").log() }
        }
        sched::point();
        let w = cx.waker().clone();
        sched::point();
        sched::ops::acquired(self.addr());
        let (r, old) = {
            let mut g = self.st.lock().unwrap();
            g.polling = false;
            if g.open { g.done = true; (true, Some(w)) } else { let o = g.waker.replace(w); if g.closed { (false, o) } else { if let Some(o) = o { g.old.push(o) } (false, None) } }
        };
        sched::ops::released(self.addr());
        drop(old);
        if r && self.panics { E::new("ipanic").n("t", t).n("i", self.i).log(); std::panic::panic_any("gate panic") }
        E::new("iret").n("t", t).n("i", self.i).s("r", if r { "ready" } else { "pending" }).log();
        if r { Poll::Ready(()) } else { Poll::Pending }
    }
}
/// The future over a gate, with a drop-tracked output.
pub struct GateFut { pub g: Arc<Gate>, pub pay: Option<Pay>, pub logdrop: bool, pub at: usize, pub free: bool }
impl GateFut { pub fn new(g: &Arc<Gate>) -> GateFut { GateFut { g: g.clone(), pay: Some(Pay::new(g.i)), logdrop: false, at: 0, free: false } } }
impl Future for GateFut {
    type Output = Pay;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Pay> {
        let a = &*self as *const GateFut as usize;
        if self.at != 0 && self.at != a && !self.free { E::new("moved").n("i", self.g.i).log() }
        self.at = a;
        match self.g.poll(cx) { Poll::Pending => Poll::Pending, Poll::Ready(()) => { if self.pay.take().is_none() { E::new("corrupt").s("what", "polled again").log() } Poll::Ready(Pay::new(self.g.i)) } }
    }
}
impl Drop for GateFut { fn drop(&mut self) { if self.at != 0 && self.at != self as *const GateFut as usize && !self.free { E::new("moved").n("i", self.g.i).log() } if self.logdrop { E::new("futdrop").n("t", me()).n("i", self.g.i).log() } } }
