From b28920a98c90d9781f7be2c6d04eadb26306029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:41 +0000
Subject: [PATCH 01/15] verif: cfg(futures_verif) hooks for synchronisation
 primitives

---
 futures-channel/src/lib.rs                    |   1 +
 futures-channel/src/lock.rs                   |   5 +-
 futures-channel/src/mpsc/mod.rs               |   9 +-
 futures-channel/src/mpsc/queue.rs             |   8 +-
 futures-channel/src/oneshot.rs                |   5 +-
 futures-core/src/__verif.rs                   | 540 ++++++++++++++++++
 futures-core/src/lib.rs                       |   5 +
 .../src/task/__internal/atomic_waker.rs       |   6 +-
 futures-executor/src/lib.rs                   |   1 +
 futures-executor/src/local_pool.rs            |   8 +-
 futures-executor/src/thread_pool.rs           |  11 +-
 futures-executor/src/unpark_mutex.rs          |   5 +-
 futures-util/src/abortable.rs                 |   5 +-
 .../src/future/future/remote_handle.rs        |   5 +-
 futures-util/src/future/future/shared.rs      |  18 +-
 futures-util/src/lib.rs                       |   1 +
 futures-util/src/lock/bilock.rs               |   5 +-
 futures-util/src/lock/mutex.rs                |   8 +-
 .../src/stream/futures_unordered/mod.rs       |   6 +-
 .../src/stream/stream/flatten_unordered.rs    |   5 +-
 20 files changed, 635 insertions(+), 22 deletions(-)
 create mode 100644 futures-core/src/__verif.rs

diff --git a/futures-channel/src/lib.rs b/futures-channel/src/lib.rs
index c0def17..c41ca5a 100644
--- a/futures-channel/src/lib.rs
+++ b/futures-channel/src/lib.rs
@@ -11,6 +11,7 @@
 //! All items are only available when the `std` or `alloc` feature of this
 //! library is activated, and it is activated by default.
 
+#![allow(unexpected_cfgs)] // cfg(futures_verif)
 #![no_std]
 #![doc(test(no_crate_inject, attr(allow(dead_code, unused_assignments, unused_variables))))]
 #![warn(
diff --git a/futures-channel/src/lock.rs b/futures-channel/src/lock.rs
index 081d149..aa6d9df 100644
--- a/futures-channel/src/lock.rs
+++ b/futures-channel/src/lock.rs
@@ -7,8 +7,11 @@
 use core::{
     cell::UnsafeCell,
     ops::{Deref, DerefMut},
-    sync::atomic::{AtomicBool, Ordering::SeqCst},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering::SeqCst};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering::SeqCst};
 
 /// A "mutex" around a value, similar to `std::sync::Mutex<T>`.
 ///
diff --git a/futures-channel/src/mpsc/mod.rs b/futures-channel/src/mpsc/mod.rs
index c3e03e3..8624501 100644
--- a/futures-channel/src/mpsc/mod.rs
+++ b/futures-channel/src/mpsc/mod.rs
@@ -83,8 +83,12 @@ use core::{
     fmt,
     future::Future,
     pin::Pin,
-    sync::atomic::{AtomicUsize, Ordering::SeqCst},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicUsize, Ordering::SeqCst};
+#[cfg(not(futures_verif))]
 use std::{sync::Mutex, thread};
 
 use futures_core::{
@@ -93,6 +97,9 @@ use futures_core::{
     task::{__internal::AtomicWaker, Context, Poll, Waker},
 };
 
+#[cfg(futures_verif)]
+use futures_core::__verif::{Mutex, thread};
+
 use crate::mpsc::queue::Queue;
 
 mod queue;
diff --git a/futures-channel/src/mpsc/queue.rs b/futures-channel/src/mpsc/queue.rs
index c217513..79fd21a 100644
--- a/futures-channel/src/mpsc/queue.rs
+++ b/futures-channel/src/mpsc/queue.rs
@@ -45,8 +45,14 @@ use alloc::boxed::Box;
 use core::{
     cell::UnsafeCell,
     ptr,
-    sync::atomic::{AtomicPtr, Ordering},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicPtr, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicPtr, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::thread;
+#[cfg(not(futures_verif))]
 use std::thread;
 
 pub(super) use self::PopResult::*;
diff --git a/futures-channel/src/oneshot.rs b/futures-channel/src/oneshot.rs
index f2eb059..6e3beeb 100644
--- a/futures-channel/src/oneshot.rs
+++ b/futures-channel/src/oneshot.rs
@@ -6,8 +6,11 @@ use alloc::sync::Arc;
 use core::{
     fmt,
     pin::Pin,
-    sync::atomic::{AtomicBool, Ordering::SeqCst},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering::SeqCst};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering::SeqCst};
 
 use futures_core::{
     future::{FusedFuture, Future},
diff --git a/futures-core/src/__verif.rs b/futures-core/src/__verif.rs
new file mode 100644
index 0000000..fd0b5c4
--- /dev/null
+++ b/futures-core/src/__verif.rs
@@ -0,0 +1,540 @@
+//! Verification hooks, compiled only with `--cfg futures_verif`.
+//!
+//! Drop-in replacements for the synchronisation primitives this workspace uses. Every operation
+//! is reported to a process-wide [`Runtime`], which may run the calling thread under a controlled
+//! scheduler. Threads the runtime does not manage get the behaviour of the wrapped primitive.
+
+#![allow(missing_docs, missing_debug_implementations, unreachable_pub, single_use_lifetimes)]
+
+use std::boxed::Box;
+use std::sync::OnceLock;
+
+/// What kind of step is about to be taken.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Kind {
+    Load,
+    Store,
+    Rmw,
+    Fence,
+    Lock,
+    TryLock,
+    Unlock,
+    Send,
+    Recv,
+}
+
+pub trait Runtime: Sync {
+    /// Scheduling point, before the operation. Returns whether the calling thread is managed.
+    fn before(&self, addr: usize, kind: Kind) -> bool;
+    /// A managed load of `addr` that found `actual`; returns the value to be seen.
+    fn load(&self, addr: usize, ord: atomic::Ordering, actual: u64) -> u64;
+    /// A managed store.
+    fn store(&self, addr: usize, ord: atomic::Ordering, old: u64, new: u64);
+    /// A managed read-modify-write. `new` is `None` for a failed compare-exchange.
+    fn rmw(&self, addr: usize, ord: atomic::Ordering, old: u64, new: Option<u64>);
+    fn fence(&self, ord: atomic::Ordering);
+    /// The calling managed thread acquired / released the lock or channel at `addr`.
+    fn acquired(&self, addr: usize);
+    fn released(&self, addr: usize);
+    /// Blocks the calling managed thread until `released(addr)` is called.
+    fn block(&self, addr: usize);
+    /// Returns whether handled.
+    fn yield_now(&self) -> bool;
+    fn park(&self) -> bool;
+    fn current(&self) -> Option<u64>;
+    fn unpark(&self, thread: u64) -> bool;
+    fn spawn(&self, name: Option<std::string::String>, f: Box<dyn FnOnce() + Send>) -> Result<(), Box<dyn FnOnce() + Send>>;
+    /// The memory at `addr` is gone.
+    fn forget(&self, addr: usize);
+}
+
+static RT: OnceLock<&'static dyn Runtime> = OnceLock::new();
+
+pub fn install(rt: &'static dyn Runtime) {
+    let _ = RT.set(rt);
+}
+
+#[inline]
+fn rt() -> Option<&'static dyn Runtime> {
+    RT.get().copied()
+}
+
+#[inline]
+fn before(addr: usize, kind: Kind) -> Option<&'static dyn Runtime> {
+    rt().filter(|r| r.before(addr, kind))
+}
+
+pub mod atomic {
+    use super::{before, rt, Kind};
+    pub use core::sync::atomic::*;
+
+    #[inline]
+    pub fn fence(order: Ordering) {
+        let r = before(0, Kind::Fence);
+        core::sync::atomic::fence(order);
+        if let Some(r) = r {
+            r.fence(order);
+        }
+    }
+
+    macro_rules! common {
+        ($name:ident, [$($g:tt)*], $t:ty, $to:expr, $from:expr) => {
+            impl$($g)* $name$($g)* {
+                #[inline]
+                pub const fn new(v: $t) -> Self {
+                    Self(core::sync::atomic::$name::new(v))
+                }
+                #[inline]
+                fn addr(&self) -> usize {
+                    self as *const Self as *const () as usize
+                }
+                #[inline]
+                pub fn load(&self, order: Ordering) -> $t {
+                    match before(self.addr(), Kind::Load) {
+                        None => self.0.load(order),
+                        Some(r) => ($from)(r.load(self.addr(), order, ($to)(self.0.load(order)))),
+                    }
+                }
+                #[inline]
+                pub fn store(&self, v: $t, order: Ordering) {
+                    match before(self.addr(), Kind::Store) {
+                        None => self.0.store(v, order),
+                        Some(r) => {
+                            let old = self.0.swap(v, Ordering::SeqCst);
+                            r.store(self.addr(), order, ($to)(old), ($to)(v));
+                        }
+                    }
+                }
+                #[inline]
+                #[allow(dead_code)]
+                fn rmw(&self, order: Ordering, f: impl FnOnce(&core::sync::atomic::$name$($g)*) -> $t) -> $t {
+                    match before(self.addr(), Kind::Rmw) {
+                        None => f(&self.0),
+                        Some(r) => {
+                            let old = f(&self.0);
+                            r.rmw(self.addr(), order, ($to)(old), Some(($to)(self.0.load(Ordering::SeqCst))));
+                            old
+                        }
+                    }
+                }
+                #[inline]
+                pub fn swap(&self, v: $t, order: Ordering) -> $t {
+                    self.rmw(order, |a| a.swap(v, order))
+                }
+                #[inline]
+                pub fn compare_exchange(&self, cur: $t, new: $t, ok: Ordering, err: Ordering) -> Result<$t, $t> {
+                    match before(self.addr(), Kind::Rmw) {
+                        None => self.0.compare_exchange(cur, new, ok, err),
+                        Some(r) => {
+                            let res = self.0.compare_exchange(cur, new, ok, err);
+                            match res {
+                                Ok(o) => r.rmw(self.addr(), ok, ($to)(o), Some(($to)(new))),
+                                Err(o) => r.rmw(self.addr(), err, ($to)(o), None),
+                            }
+                            res
+                        }
+                    }
+                }
+                #[inline]
+                pub fn compare_exchange_weak(&self, cur: $t, new: $t, ok: Ordering, err: Ordering) -> Result<$t, $t> {
+                    self.compare_exchange(cur, new, ok, err)
+                }
+                #[inline]
+                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<$t, $t> {
+                    let mut prev = self.load(fetch);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange_weak(prev, next, set, fetch) {
+                            Ok(x) => return Ok(x),
+                            Err(x) => prev = x,
+                        }
+                    }
+                    Err(prev)
+                }
+                #[inline]
+                pub fn get_mut(&mut self) -> &mut $t {
+                    if let Some(r) = rt() {
+                        r.forget(self.addr());
+                    }
+                    self.0.get_mut()
+                }
+                #[inline]
+                pub fn into_inner(self) -> $t {
+                    self.0.load(Ordering::SeqCst)
+                }
+                #[inline]
+                pub fn as_ptr(&self) -> *mut $t {
+                    self.0.as_ptr()
+                }
+            }
+            impl$($g)* Drop for $name$($g)* {
+                #[inline]
+                fn drop(&mut self) {
+                    if let Some(r) = rt() {
+                        r.forget(self.addr());
+                    }
+                }
+            }
+            impl$($g)* core::fmt::Debug for $name$($g)* {
+                fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+                    self.0.fmt(f)
+                }
+            }
+            impl$($g)* From<$t> for $name$($g)* {
+                fn from(v: $t) -> Self {
+                    Self::new(v)
+                }
+            }
+        };
+    }
+    macro_rules! int {
+        ($($name:ident $t:ty;)*) => {$(
+            #[derive(Default)]
+            #[repr(transparent)]
+            pub struct $name(core::sync::atomic::$name);
+            common!($name, [], $t, |v: $t| v as u64, |v: u64| v as $t);
+            impl $name {
+                #[inline]
+                pub fn fetch_add(&self, v: $t, order: Ordering) -> $t { self.rmw(order, |a| a.fetch_add(v, order)) }
+                #[inline]
+                pub fn fetch_sub(&self, v: $t, order: Ordering) -> $t { self.rmw(order, |a| a.fetch_sub(v, order)) }
+                #[inline]
+                pub fn fetch_and(&self, v: $t, order: Ordering) -> $t { self.rmw(order, |a| a.fetch_and(v, order)) }
+                #[inline]
+                pub fn fetch_or(&self, v: $t, order: Ordering) -> $t { self.rmw(order, |a| a.fetch_or(v, order)) }
+                #[inline]
+                pub fn fetch_xor(&self, v: $t, order: Ordering) -> $t { self.rmw(order, |a| a.fetch_xor(v, order)) }
+                #[inline]
+                pub fn fetch_nand(&self, v: $t, order: Ordering) -> $t { self.rmw(order, |a| a.fetch_nand(v, order)) }
+                #[inline]
+                pub fn fetch_max(&self, v: $t, order: Ordering) -> $t { self.rmw(order, |a| a.fetch_max(v, order)) }
+                #[inline]
+                pub fn fetch_min(&self, v: $t, order: Ordering) -> $t { self.rmw(order, |a| a.fetch_min(v, order)) }
+            }
+        )*};
+    }
+    int! {
+        AtomicUsize usize; AtomicIsize isize;
+        AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64;
+        AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64;
+    }
+
+    #[derive(Default)]
+    #[repr(transparent)]
+    pub struct AtomicBool(core::sync::atomic::AtomicBool);
+    common!(AtomicBool, [], bool, |v: bool| v as u64, |v: u64| v != 0);
+    impl AtomicBool {
+        #[inline]
+        pub fn fetch_and(&self, v: bool, order: Ordering) -> bool { self.rmw(order, |a| a.fetch_and(v, order)) }
+        #[inline]
+        pub fn fetch_or(&self, v: bool, order: Ordering) -> bool { self.rmw(order, |a| a.fetch_or(v, order)) }
+        #[inline]
+        pub fn fetch_xor(&self, v: bool, order: Ordering) -> bool { self.rmw(order, |a| a.fetch_xor(v, order)) }
+        #[inline]
+        pub fn fetch_nand(&self, v: bool, order: Ordering) -> bool { self.rmw(order, |a| a.fetch_nand(v, order)) }
+        #[inline]
+        pub fn fetch_not(&self, order: Ordering) -> bool { self.rmw(order, |a| a.fetch_xor(true, order)) }
+    }
+
+    #[repr(transparent)]
+    pub struct AtomicPtr<T>(core::sync::atomic::AtomicPtr<T>);
+    common!(AtomicPtr, [<T>], *mut T, |v: *mut T| v as usize as u64, |v: u64| v as usize as *mut T);
+    impl<T> Default for AtomicPtr<T> {
+        fn default() -> Self {
+            Self::new(core::ptr::null_mut())
+        }
+    }
+}
+
+mod mutex {
+    use super::{before, rt, Kind};
+    use core::fmt;
+    use core::mem::ManuallyDrop;
+    use core::ops::{Deref, DerefMut};
+    use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
+
+    #[derive(Default)]
+    pub struct Mutex<T: ?Sized> {
+        inner: std::sync::Mutex<T>,
+    }
+    pub struct MutexGuard<'a, T: ?Sized> {
+        inner: ManuallyDrop<std::sync::MutexGuard<'a, T>>,
+        addr: usize,
+    }
+    impl<T> Mutex<T> {
+        pub const fn new(t: T) -> Self {
+            Self { inner: std::sync::Mutex::new(t) }
+        }
+        pub fn into_inner(self) -> LockResult<T> {
+            self.inner.into_inner()
+        }
+    }
+    impl<T> From<T> for Mutex<T> {
+        fn from(t: T) -> Self {
+            Self::new(t)
+        }
+    }
+    impl<T: ?Sized> Mutex<T> {
+        fn addr(&self) -> usize {
+            self as *const Self as *const () as usize
+        }
+        fn wrap<'a>(&self, r: LockResult<std::sync::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
+            let addr = self.addr();
+            if let Some(r) = rt() {
+                r.acquired(addr);
+            }
+            match r {
+                Ok(g) => Ok(MutexGuard { inner: ManuallyDrop::new(g), addr }),
+                Err(e) => Err(PoisonError::new(MutexGuard { inner: ManuallyDrop::new(e.into_inner()), addr })),
+            }
+        }
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            match before(self.addr(), Kind::Lock) {
+                None => {
+                    let r = self.inner.lock();
+                    self.wrap(r)
+                }
+                Some(r) => loop {
+                    match self.inner.try_lock() {
+                        Ok(g) => return self.wrap(Ok(g)),
+                        Err(TryLockError::Poisoned(e)) => return self.wrap(Err(e)),
+                        Err(TryLockError::WouldBlock) => r.block(self.addr()),
+                    }
+                },
+            }
+        }
+        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+            let _ = before(self.addr(), Kind::TryLock);
+            match self.inner.try_lock() {
+                Ok(g) => self.wrap(Ok(g)).map_err(TryLockError::Poisoned),
+                Err(TryLockError::Poisoned(e)) => self.wrap(Err(e)).map_err(TryLockError::Poisoned),
+                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+            }
+        }
+        pub fn is_poisoned(&self) -> bool {
+            self.inner.is_poisoned()
+        }
+        pub fn clear_poison(&self) {
+            self.inner.clear_poison()
+        }
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.inner.get_mut()
+        }
+    }
+    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            self.inner.fmt(f)
+        }
+    }
+    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            &self.inner
+        }
+    }
+    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            &mut self.inner
+        }
+    }
+    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            (**self).fmt(f)
+        }
+    }
+    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
+        fn drop(&mut self) {
+            let r = before(self.addr, Kind::Unlock);
+            // SAFETY: dropped once, here.
+            unsafe { ManuallyDrop::drop(&mut self.inner) };
+            if let Some(r) = r {
+                r.released(self.addr);
+            }
+        }
+    }
+}
+pub use mutex::{Mutex, MutexGuard};
+
+pub mod thread {
+    use super::rt;
+    use std::boxed::Box;
+    use std::io;
+    use std::string::String;
+    pub use std::thread::*;
+
+    pub fn yield_now() {
+        if !rt().map_or(false, |r| r.yield_now()) {
+            std::thread::yield_now()
+        }
+    }
+    pub fn park() {
+        if !rt().map_or(false, |r| r.park()) {
+            std::thread::park()
+        }
+    }
+    pub fn current() -> Thread {
+        Thread { id: rt().and_then(|r| r.current()), inner: std::thread::current() }
+    }
+
+    #[derive(Clone, Debug)]
+    pub struct Thread {
+        id: Option<u64>,
+        inner: std::thread::Thread,
+    }
+    impl Thread {
+        pub fn unpark(&self) {
+            if !self.id.map_or(false, |id| rt().map_or(false, |r| r.unpark(id))) {
+                self.inner.unpark()
+            }
+        }
+        pub fn id(&self) -> std::thread::ThreadId {
+            self.inner.id()
+        }
+        pub fn name(&self) -> Option<&str> {
+            self.inner.name()
+        }
+    }
+
+    #[derive(Debug)]
+    pub struct Builder {
+        name: Option<String>,
+        inner: std::thread::Builder,
+    }
+    impl Builder {
+        #[allow(clippy::new_without_default)]
+        pub fn new() -> Self {
+            Self { name: None, inner: std::thread::Builder::new() }
+        }
+        pub fn name(self, name: String) -> Self {
+            Self { name: Some(name.clone()), inner: self.inner.name(name) }
+        }
+        pub fn stack_size(self, size: usize) -> Self {
+            Self { name: self.name, inner: self.inner.stack_size(size) }
+        }
+        pub fn spawn<F: FnOnce() + Send + 'static>(self, f: F) -> io::Result<()> {
+            let f: Box<dyn FnOnce() + Send> = Box::new(f);
+            let f = match rt() {
+                Some(r) => match r.spawn(self.name, f) {
+                    Ok(()) => return Ok(()),
+                    Err(f) => f,
+                },
+                None => f,
+            };
+            self.inner.spawn(f).map(drop)
+        }
+    }
+}
+
+pub mod mpsc {
+    use super::{before, rt, Kind};
+    use std::collections::VecDeque;
+    use std::sync::{Arc, Condvar, Mutex};
+    pub use std::sync::mpsc::{RecvError, SendError, TryRecvError};
+
+    struct State<T> {
+        queue: VecDeque<T>,
+        senders: usize,
+        receiver: bool,
+    }
+    struct Shared<T> {
+        state: Mutex<State<T>>,
+        cv: Condvar,
+    }
+    impl<T> Shared<T> {
+        fn addr(&self) -> usize {
+            self as *const Self as usize
+        }
+        fn changed(&self) {
+            self.cv.notify_all();
+            if let Some(r) = rt() {
+                r.released(self.addr());
+            }
+        }
+    }
+    pub struct Sender<T>(Arc<Shared<T>>);
+    pub struct Receiver<T>(Arc<Shared<T>>);
+
+    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
+        let s = Arc::new(Shared {
+            state: Mutex::new(State { queue: VecDeque::new(), senders: 1, receiver: true }),
+            cv: Condvar::new(),
+        });
+        (Sender(s.clone()), Receiver(s))
+    }
+    impl<T> Sender<T> {
+        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
+            let _ = before(self.0.addr(), Kind::Send);
+            {
+                let mut s = self.0.state.lock().unwrap();
+                if !s.receiver {
+                    return Err(SendError(t));
+                }
+                s.queue.push_back(t);
+            }
+            self.0.changed();
+            Ok(())
+        }
+    }
+    impl<T> Clone for Sender<T> {
+        fn clone(&self) -> Self {
+            self.0.state.lock().unwrap().senders += 1;
+            Self(self.0.clone())
+        }
+    }
+    impl<T> Drop for Sender<T> {
+        fn drop(&mut self) {
+            let _ = before(self.0.addr(), Kind::Send);
+            self.0.state.lock().unwrap().senders -= 1;
+            self.0.changed();
+        }
+    }
+    impl<T> Drop for Receiver<T> {
+        fn drop(&mut self) {
+            let _ = before(self.0.addr(), Kind::Recv);
+            let q = {
+                let mut s = self.0.state.lock().unwrap();
+                s.receiver = false;
+                core::mem::take(&mut s.queue)
+            };
+            drop(q);
+        }
+    }
+    impl<T> Receiver<T> {
+        pub fn try_recv(&self) -> Result<T, TryRecvError> {
+            let r = before(self.0.addr(), Kind::Recv);
+            let mut s = self.0.state.lock().unwrap();
+            match s.queue.pop_front() {
+                Some(t) => {
+                    if let Some(r) = r {
+                        r.acquired(self.0.addr());
+                    }
+                    Ok(t)
+                }
+                None if s.senders == 0 => Err(TryRecvError::Disconnected),
+                None => Err(TryRecvError::Empty),
+            }
+        }
+        pub fn recv(&self) -> Result<T, RecvError> {
+            let r = before(self.0.addr(), Kind::Recv);
+            let mut s = self.0.state.lock().unwrap();
+            loop {
+                if let Some(t) = s.queue.pop_front() {
+                    if let Some(r) = r {
+                        r.acquired(self.0.addr());
+                    }
+                    return Ok(t);
+                }
+                if s.senders == 0 {
+                    return Err(RecvError);
+                }
+                s = match r {
+                    None => self.0.cv.wait(s).unwrap(),
+                    Some(r) => {
+                        drop(s);
+                        r.block(self.0.addr());
+                        self.0.state.lock().unwrap()
+                    }
+                };
+            }
+        }
+    }
+}
diff --git a/futures-core/src/lib.rs b/futures-core/src/lib.rs
index e881764..948c0e7 100644
--- a/futures-core/src/lib.rs
+++ b/futures-core/src/lib.rs
@@ -1,6 +1,7 @@
 //! Core traits and types for asynchronous operations in Rust.
 
 #![no_std]
+#![allow(unexpected_cfgs)] // cfg(futures_verif)
 #![doc(test(no_crate_inject, attr(allow(dead_code, unused_assignments, unused_variables))))]
 #![warn(
     missing_docs,
@@ -23,5 +24,9 @@ pub mod stream;
 #[doc(no_inline)]
 pub use self::stream::{FusedStream, Stream, TryStream};
 
+#[cfg(all(futures_verif, feature = "std"))]
+#[doc(hidden)]
+pub mod __verif;
+
 #[macro_use]
 pub mod task;
diff --git a/futures-core/src/task/__internal/atomic_waker.rs b/futures-core/src/task/__internal/atomic_waker.rs
index 4bc72e3..c6b3391 100644
--- a/futures-core/src/task/__internal/atomic_waker.rs
+++ b/futures-core/src/task/__internal/atomic_waker.rs
@@ -1,4 +1,4 @@
-#[cfg(not(feature = "portable-atomic"))]
+#[cfg(all(not(feature = "portable-atomic"), not(futures_verif)))]
 use core::sync::atomic;
 use core::{cell::UnsafeCell, fmt, task::Waker};
 
@@ -6,7 +6,9 @@ use atomic::{
     AtomicUsize,
     Ordering::{AcqRel, Acquire, Release},
 };
-#[cfg(feature = "portable-atomic")]
+#[cfg(futures_verif)]
+use crate::__verif::atomic;
+#[cfg(all(feature = "portable-atomic", not(futures_verif)))]
 use portable_atomic as atomic;
 
 /// A synchronization primitive for task wakeup.
diff --git a/futures-executor/src/lib.rs b/futures-executor/src/lib.rs
index 159e977..76491de 100644
--- a/futures-executor/src/lib.rs
+++ b/futures-executor/src/lib.rs
@@ -36,6 +36,7 @@
 //! [`spawn_obj`]: https://docs.rs/futures/0.3/futures/task/trait.Spawn.html#tymethod.spawn_obj
 //! [`spawn_local_obj`]: https://docs.rs/futures/0.3/futures/task/trait.LocalSpawn.html#tymethod.spawn_local_obj
 
+#![allow(unexpected_cfgs)] // cfg(futures_verif)
 #![no_std]
 #![doc(test(no_crate_inject, attr(allow(dead_code, unused_assignments, unused_variables))))]
 #![warn(
diff --git a/futures-executor/src/local_pool.rs b/futures-executor/src/local_pool.rs
index 37494a6..55e5161 100644
--- a/futures-executor/src/local_pool.rs
+++ b/futures-executor/src/local_pool.rs
@@ -7,8 +7,14 @@ use core::{
     cell::RefCell,
     ops::{Deref, DerefMut},
     pin::pin,
-    sync::atomic::{AtomicBool, Ordering},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::thread::{self, Thread};
+#[cfg(not(futures_verif))]
 use std::thread::{self, Thread};
 
 use futures_core::{
diff --git a/futures-executor/src/thread_pool.rs b/futures-executor/src/thread_pool.rs
index b9cfd92..14432fa 100644
--- a/futures-executor/src/thread_pool.rs
+++ b/futures-executor/src/thread_pool.rs
@@ -1,10 +1,14 @@
 use alloc::{boxed::Box, format, string::String, sync::Arc};
 use core::{
     fmt,
-    sync::atomic::{AtomicUsize, Ordering},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicUsize, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicUsize, Ordering};
+use std::io;
+#[cfg(not(futures_verif))]
 use std::{
-    io,
     sync::{Mutex, mpsc},
     thread,
 };
@@ -16,6 +20,9 @@ use futures_core::{
 use futures_task::{ArcWake, FutureObj, Spawn, SpawnError, waker_ref};
 use futures_util::future::FutureExt;
 
+#[cfg(futures_verif)]
+use futures_core::__verif::{Mutex, mpsc, thread};
+
 use crate::{enter, unpark_mutex::UnparkMutex};
 
 /// A general-purpose thread pool for scheduling tasks that poll futures to
diff --git a/futures-executor/src/unpark_mutex.rs b/futures-executor/src/unpark_mutex.rs
index ffe79d2..8560141 100644
--- a/futures-executor/src/unpark_mutex.rs
+++ b/futures-executor/src/unpark_mutex.rs
@@ -1,7 +1,10 @@
 use core::{
     cell::UnsafeCell,
-    sync::atomic::{AtomicUsize, Ordering::SeqCst},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicUsize, Ordering::SeqCst};
 
 /// A "lock" around data `D`, which employs a *helping* strategy.
 ///
diff --git a/futures-util/src/abortable.rs b/futures-util/src/abortable.rs
index 315df04..8187513 100644
--- a/futures-util/src/abortable.rs
+++ b/futures-util/src/abortable.rs
@@ -2,8 +2,11 @@ use alloc::sync::Arc;
 use core::{
     fmt,
     pin::Pin,
-    sync::atomic::{AtomicBool, Ordering},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering};
 
 use futures_core::{
     Stream,
diff --git a/futures-util/src/future/future/remote_handle.rs b/futures-util/src/future/future/remote_handle.rs
index 85b1f72..4a02ff7 100644
--- a/futures-util/src/future/future/remote_handle.rs
+++ b/futures-util/src/future/future/remote_handle.rs
@@ -4,8 +4,11 @@ use core::{
     fmt,
     panic::AssertUnwindSafe,
     pin::Pin,
-    sync::atomic::{AtomicBool, Ordering},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering};
 use std::{panic, thread};
 
 use futures_channel::oneshot::{self, Receiver, Sender};
diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index 6d1b7c5..e184e0f 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -5,10 +5,16 @@ use core::{
     hash::Hasher,
     pin::Pin,
     ptr,
-    sync::atomic::{
-        AtomicUsize,
-        Ordering::{Acquire, SeqCst},
-    },
+};
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{
+    AtomicUsize,
+    Ordering::{Acquire, SeqCst},
+};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{
+    AtomicUsize,
+    Ordering::{Acquire, SeqCst},
 };
 
 use futures_core::{
@@ -19,7 +25,9 @@ use slab::Slab;
 
 use crate::task::{ArcWake, waker_ref};
 
-#[cfg(feature = "std")]
+#[cfg(futures_verif)]
+type Mutex<T> = futures_core::__verif::Mutex<T>;
+#[cfg(all(feature = "std", not(futures_verif)))]
 type Mutex<T> = std::sync::Mutex<T>;
 #[cfg(not(feature = "std"))]
 type Mutex<T> = spin::Mutex<T>;
diff --git a/futures-util/src/lib.rs b/futures-util/src/lib.rs
index bc48863..6f822dc 100644
--- a/futures-util/src/lib.rs
+++ b/futures-util/src/lib.rs
@@ -1,6 +1,7 @@
 //! Combinators and utilities for working with `Future`s, `Stream`s, `Sink`s,
 //! and the `AsyncRead` and `AsyncWrite` traits.
 
+#![allow(unexpected_cfgs)] // cfg(futures_verif)
 #![no_std]
 #![doc(test(no_crate_inject, attr(allow(dead_code, unused_assignments, unused_variables))))]
 #![warn(
diff --git a/futures-util/src/lock/bilock.rs b/futures-util/src/lock/bilock.rs
index 1af0613..f0cd3fd 100644
--- a/futures-util/src/lock/bilock.rs
+++ b/futures-util/src/lock/bilock.rs
@@ -7,8 +7,11 @@ use core::{
     ops::{Deref, DerefMut},
     pin::Pin,
     ptr,
-    sync::atomic::{AtomicPtr, Ordering::SeqCst},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicPtr, Ordering::SeqCst};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicPtr, Ordering::SeqCst};
 
 #[cfg(feature = "bilock")]
 use futures_core::future::Future;
diff --git a/futures-util/src/lock/mutex.rs b/futures-util/src/lock/mutex.rs
index 9b1ccfa..70c8f9e 100644
--- a/futures-util/src/lock/mutex.rs
+++ b/futures-util/src/lock/mutex.rs
@@ -6,8 +6,14 @@ use core::{
     mem,
     ops::{Deref, DerefMut},
     pin::Pin,
-    sync::atomic::{AtomicUsize, Ordering},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicUsize, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicUsize, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::Mutex as StdMutex;
+#[cfg(not(futures_verif))]
 use std::sync::Mutex as StdMutex;
 
 use futures_core::{
diff --git a/futures-util/src/stream/futures_unordered/mod.rs b/futures-util/src/stream/futures_unordered/mod.rs
index b40b894..a1ab351 100644
--- a/futures-util/src/stream/futures_unordered/mod.rs
+++ b/futures-util/src/stream/futures_unordered/mod.rs
@@ -5,7 +5,7 @@
 
 #[cfg(not(feature = "portable-atomic-alloc"))]
 use alloc::sync::{Arc, Weak};
-#[cfg(not(feature = "portable-atomic"))]
+#[cfg(all(not(feature = "portable-atomic"), not(futures_verif)))]
 use core::sync::atomic;
 use core::{
     cell::UnsafeCell,
@@ -21,13 +21,15 @@ use atomic::{
     AtomicBool, AtomicPtr,
     Ordering::{AcqRel, Acquire, Relaxed, Release, SeqCst},
 };
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic;
 use futures_core::{
     future::Future,
     stream::{FusedStream, Stream},
     task::{Context, Poll},
 };
 use futures_task::{FutureObj, LocalFutureObj, LocalSpawn, Spawn, SpawnError};
-#[cfg(feature = "portable-atomic")]
+#[cfg(all(feature = "portable-atomic", not(futures_verif)))]
 use portable_atomic_crate as atomic;
 #[cfg(feature = "portable-atomic-alloc")]
 use portable_atomic_util::{Arc, Weak};
diff --git a/futures-util/src/stream/stream/flatten_unordered.rs b/futures-util/src/stream/stream/flatten_unordered.rs
index f15cf69..dc028b6 100644
--- a/futures-util/src/stream/stream/flatten_unordered.rs
+++ b/futures-util/src/stream/stream/flatten_unordered.rs
@@ -6,8 +6,11 @@ use core::{
     marker::PhantomData,
     num::NonZeroUsize,
     pin::Pin,
-    sync::atomic::{AtomicU8, Ordering},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicU8, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicU8, Ordering};
 
 use futures_core::{
     future::Future,
-- 
2.43.0


From 2bbc386a14a6c9a5ad4af782f3ab8e2b861e11f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:58 +0000
Subject: [PATCH 02/15] fix: Shared: wake clones that register after a wakeup
 while another clone is polling

---
 futures-util/src/future/future/shared.rs | 36 +++++++++++++++---------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index e184e0f..b582c06 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -102,6 +102,8 @@ const IDLE: usize = 0;
 const POLLING: usize = 1;
 const COMPLETE: usize = 2;
 const POISONED: usize = 3;
+// Being polled, and woken since that poll started
+const POLLING_WOKEN: usize = 4;
 
 const NULL_WAKER_KEY: usize = usize::MAX;
 
@@ -303,7 +305,7 @@ where
             IDLE => {
                 // Lock acquired, fall through
             }
-            POLLING => {
+            POLLING | POLLING_WOKEN => {
                 // Another task is currently polling, at this point we just want
                 // to ensure that the waker for this task is registered
                 this.inner = Some(inner);
@@ -348,15 +350,16 @@ where
 
             match poll_result {
                 Poll::Pending => {
-                    if inner.notifier.state.compare_exchange(POLLING, IDLE, SeqCst, SeqCst).is_ok()
-                    {
-                        // Success
-                        drop(reset);
-                        this.inner = Some(inner);
-                        return Poll::Pending;
-                    } else {
-                        unreachable!()
+                    match inner.notifier.state.swap(IDLE, SeqCst) {
+                        POLLING => {}
+                        // Tasks that registered while we were polling, but after that wakeup,
+                        // have not seen it, and we may be dropped instead of polled again.
+                        POLLING_WOKEN => inner.notifier.wake_all(),
+                        _ => unreachable!(),
                     }
+                    drop(reset);
+                    this.inner = Some(inner);
+                    return Poll::Pending;
                 }
                 Poll::Ready(output) => output,
             }
@@ -418,12 +421,12 @@ where
     }
 }
 
-impl ArcWake for Notifier {
-    fn wake_by_ref(arc_self: &Arc<Self>) {
+impl Notifier {
+    fn wake_all(&self) {
         #[cfg(feature = "std")]
-        let wakers = &mut *arc_self.wakers.lock().unwrap();
+        let wakers = &mut *self.wakers.lock().unwrap();
         #[cfg(not(feature = "std"))]
-        let wakers = &mut *arc_self.wakers.lock();
+        let wakers = &mut *self.wakers.lock();
 
         if let Some(wakers) = wakers.as_mut() {
             for (_key, opt_waker) in wakers {
@@ -435,6 +438,13 @@ impl ArcWake for Notifier {
     }
 }
 
+impl ArcWake for Notifier {
+    fn wake_by_ref(arc_self: &Arc<Self>) {
+        let _ = arc_self.state.compare_exchange(POLLING, POLLING_WOKEN, SeqCst, SeqCst);
+        arc_self.wake_all();
+    }
+}
+
 impl<Fut: Future> WeakShared<Fut> {
     /// Attempts to upgrade this [`WeakShared`] into a [`Shared`].
     ///
-- 
2.43.0


From 0880c1b6a9ef90e5881103881bb7bf2037a262a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:05 +0000
Subject: [PATCH 03/15] fix: mpsc: a refused try_send must not forget the task
 waiting for capacity

---
 futures-channel/src/mpsc/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/futures-channel/src/mpsc/mod.rs b/futures-channel/src/mpsc/mod.rs
index 8624501..f16094f 100644
--- a/futures-channel/src/mpsc/mod.rs
+++ b/futures-channel/src/mpsc/mod.rs
@@ -711,8 +711,10 @@ impl<T> BoundedSenderInner<T> {
             // the correct task will be notified.
             //
             // Update the task in case the `Sender` has been moved to another
-            // task
-            task.task = cx.map(|cx| cx.waker().clone());
+            // task. Without a task (`try_send`), whoever is waiting keeps waiting.
+            if let Some(cx) = cx {
+                task.task = Some(cx.waker().clone());
+            }
 
             Poll::Pending
         } else {
-- 
2.43.0


From b8a6038b9d956bde0dcab3b52f6bd0880727e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 04/15] fix: Scan::size_hint must not promise items the closure
 may cut off, and count the item in progress

---
 futures-util/src/stream/stream/scan.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/scan.rs b/futures-util/src/stream/stream/scan.rs
index b3623b7..447f2e8 100644
--- a/futures-util/src/stream/stream/scan.rs
+++ b/futures-util/src/stream/stream/scan.rs
@@ -100,7 +100,13 @@ where
         if self.is_done_taking() {
             (0, Some(0))
         } else {
-            self.stream.size_hint() // can't know a lower bound, due to the predicate
+            let future_len = usize::from(self.state.is_future());
+            let (_, upper) = self.stream.size_hint();
+            let upper = match upper {
+                Some(x) => x.checked_add(future_len),
+                None => None,
+            };
+            (0, upper) // can't know a lower bound, due to the predicate
         }
     }
 }
-- 
2.43.0


From 098a56dd2f0540ca9ab8da4534caffd7bd2bf5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 05/15] fix: TakeUntil::size_hint must not promise items while
 the stopping future may still resolve

---
 futures-util/src/stream/stream/take_until.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/take_until.rs b/futures-util/src/stream/stream/take_until.rs
index 82d18ab..14f642b 100644
--- a/futures-util/src/stream/stream/take_until.rs
+++ b/futures-util/src/stream/stream/take_until.rs
@@ -145,7 +145,10 @@ where
             return (0, Some(0));
         }
 
-        self.stream.size_hint()
+        let (lower, upper) = self.stream.size_hint();
+        // The stopping future may end the stream at any time.
+        let lower = if self.fut.is_some() { 0 } else { lower };
+        (lower, upper)
     }
 }
 
-- 
2.43.0


From 68755e3a2a735b164b62f8bb8fc253a04b0a1a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 06/15] fix: stream PollImmediate::size_hint must account for
 the items yielded for pending polls

---
 futures-util/src/stream/poll_immediate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/poll_immediate.rs b/futures-util/src/stream/poll_immediate.rs
index e153b81..a09c0b4 100644
--- a/futures-util/src/stream/poll_immediate.rs
+++ b/futures-util/src/stream/poll_immediate.rs
@@ -43,7 +43,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.stream.as_ref().map_or((0, Some(0)), Stream::size_hint)
+        // Every pending poll of the inner stream yields an additional item.
+        self.stream.as_ref().map_or((0, Some(0)), |stream| (stream.size_hint().0, None))
     }
 }
 
-- 
2.43.0


From dc3213cade288b57851efaf2e6a42229d2f7f321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 07/15] fix: stream_select! must not poll a finished stream
 again after another one yielded an item

---
 futures-macro/src/stream_select.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index a5d6498..4586c80 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -54,6 +54,7 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                         let mut #field_idents_2 = false;
                     )*
                     let mut any_pending = false;
+                    let mut next_item = None;
                     {
                         let mut stream_array = [#(#field_idents.as_mut().map(|f| StreamEnum::#generic_idents(f)).unwrap_or(StreamEnum::None)),*];
                         __futures_crate::async_await::shuffle(&mut stream_array);
@@ -63,8 +64,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                                 continue;
                             } else {
                                 match __futures_crate::stream::Stream::poll_next(::std::pin::Pin::new(&mut s), cx) {
-                                    r @ __futures_crate::task::Poll::Ready(Some(_)) => {
-                                        return r;
+                                    __futures_crate::task::Poll::Ready(Some(item)) => {
+                                        next_item = Some(item);
+                                        break;
                                     },
                                     __futures_crate::task::Poll::Pending => {
                                         any_pending = true;
@@ -86,7 +88,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                             *#field_idents = None;
                         }
                     )*
-                    if any_pending {
+                    if next_item.is_some() {
+                        __futures_crate::task::Poll::Ready(next_item)
+                    } else if any_pending {
                         __futures_crate::task::Poll::Pending
                     } else {
                         __futures_crate::task::Poll::Ready(None)
-- 
2.43.0


From a4fb5d03e2194d691f8e33987c28e20ba8027e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 08/15] fix: TrySkipWhile and TryTakeWhile must forget the item
 whose predicate failed

---
 futures-util/src/stream/try_stream/try_skip_while.rs | 2 +-
 futures-util/src/stream/try_stream/try_take_while.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/futures-util/src/stream/try_stream/try_skip_while.rs b/futures-util/src/stream/try_stream/try_skip_while.rs
index 2eea2e7..f9a059f 100644
--- a/futures-util/src/stream/try_stream/try_skip_while.rs
+++ b/futures-util/src/stream/try_stream/try_skip_while.rs
@@ -73,8 +73,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let skipped = res?;
                 let item = this.pending_item.take();
+                let skipped = res?;
                 if !skipped {
                     *this.done_skipping = true;
                     break item.map(Ok);
diff --git a/futures-util/src/stream/try_stream/try_take_while.rs b/futures-util/src/stream/try_stream/try_take_while.rs
index e2da18a..4222f84 100644
--- a/futures-util/src/stream/try_stream/try_take_while.rs
+++ b/futures-util/src/stream/try_stream/try_take_while.rs
@@ -76,8 +76,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let take = res?;
                 let item = this.pending_item.take();
+                let take = res?;
                 if take {
                     break item.map(Ok);
                 } else {
-- 
2.43.0


From 134da61c2737d91d55caa05ce154e1e509a0c013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:17 +0000
Subject: [PATCH 09/15] fix: TryCollect must report itself terminated after it
 returned an error

---
 futures-util/src/stream/try_stream/try_collect.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/futures-util/src/stream/try_stream/try_collect.rs b/futures-util/src/stream/try_stream/try_collect.rs
index a406a53..8dcc62b 100644
--- a/futures-util/src/stream/try_stream/try_collect.rs
+++ b/futures-util/src/stream/try_stream/try_collect.rs
@@ -16,12 +16,13 @@ pin_project! {
         #[pin]
         stream: St,
         items: C,
+        failed: bool,
     }
 }
 
 impl<St: TryStream, C: Default> TryCollect<St, C> {
     pub(super) fn new(s: St) -> Self {
-        Self { stream: s, items: Default::default() }
+        Self { stream: s, items: Default::default(), failed: false }
     }
 }
 
@@ -31,7 +32,7 @@ where
     C: Default + Extend<St::Ok>,
 {
     fn is_terminated(&self) -> bool {
-        self.stream.is_terminated()
+        self.failed || self.stream.is_terminated()
     }
 }
 
@@ -45,8 +46,12 @@ where
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let mut this = self.project();
         Poll::Ready(Ok(loop {
-            match ready!(this.stream.as_mut().try_poll_next(cx)?) {
-                Some(x) => this.items.extend(Some(x)),
+            match ready!(this.stream.as_mut().try_poll_next(cx)) {
+                Some(Ok(x)) => this.items.extend(Some(x)),
+                Some(Err(e)) => {
+                    *this.failed = true;
+                    return Poll::Ready(Err(e));
+                }
                 None => break mem::take(this.items),
             }
         }))
-- 
2.43.0


From 7eaec29d92b3c47ea0962d0617b64e790b2746cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:24 +0000
Subject: [PATCH 10/15] fix: try_join_all of many futures must return an error
 as soon as one fails

---
 futures-util/src/future/try_join_all.rs | 60 ++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/futures-util/src/future/try_join_all.rs b/futures-util/src/future/try_join_all.rs
index a998c38..42eb100 100644
--- a/futures-util/src/future/try_join_all.rs
+++ b/futures-util/src/future/try_join_all.rs
@@ -11,10 +11,15 @@ use core::{
     task::{Context, Poll},
 };
 
+#[cfg(target_has_atomic = "ptr")]
+use futures_core::{ready, stream::Stream};
+#[cfg(target_has_atomic = "ptr")]
+use pin_project_lite::pin_project;
+
 use super::{IntoFuture, TryFuture, TryMaybeDone, assert_future, join_all};
 use crate::TryFutureExt;
 #[cfg(target_has_atomic = "ptr")]
-use crate::stream::{FuturesOrdered, TryCollect, TryStreamExt};
+use crate::stream::FuturesUnordered;
 
 enum FinalState<E = ()> {
     Pending,
@@ -40,10 +45,31 @@ where
     },
     #[cfg(target_has_atomic = "ptr")]
     Big {
-        fut: TryCollect<FuturesOrdered<IntoFuture<F>>, Vec<F::Ok>>,
+        futs: FuturesUnordered<Indexed<IntoFuture<F>>>,
+        outputs: Box<[Option<F::Ok>]>,
     },
 }
 
+#[cfg(target_has_atomic = "ptr")]
+pin_project! {
+    // A future together with its position in the input
+    struct Indexed<F> {
+        index: usize,
+        #[pin]
+        fut: F,
+    }
+}
+
+#[cfg(target_has_atomic = "ptr")]
+impl<F: TryFuture> Future for Indexed<F> {
+    type Output = Result<(usize, F::Ok), F::Error>;
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+        let index = self.index;
+        self.project().fut.try_poll(cx).map_ok(|output| (index, output))
+    }
+}
+
 impl<F> fmt::Debug for TryJoinAll<F>
 where
     F: TryFuture + fmt::Debug,
@@ -57,7 +83,9 @@ where
                 f.debug_struct("TryJoinAll").field("elems", elems).finish()
             }
             #[cfg(target_has_atomic = "ptr")]
-            TryJoinAllKind::Big { ref fut, .. } => fmt::Debug::fmt(fut, f),
+            TryJoinAllKind::Big { ref futs, ref outputs } => {
+                f.debug_struct("TryJoinAll").field("futs", futs).field("outputs", outputs).finish()
+            }
         }
     }
 }
@@ -138,7 +166,12 @@ where
             Some(max) if max <= join_all::SMALL => TryJoinAllKind::Small {
                 elems: iter.map(TryMaybeDone::Future).collect::<Box<[_]>>().into(),
             },
-            _ => TryJoinAllKind::Big { fut: iter.collect::<FuturesOrdered<_>>().try_collect() },
+            _ => {
+                let futs: FuturesUnordered<_> =
+                    iter.enumerate().map(|(index, fut)| Indexed { index, fut }).collect();
+                let outputs = (0..futs.len()).map(|_| None).collect();
+                TryJoinAllKind::Big { futs, outputs }
+            }
         };
 
         assert_future::<Result<Vec<<I::Item as TryFuture>::Ok>, <I::Item as TryFuture>::Error>, _>(
@@ -185,7 +218,24 @@ where
                 }
             }
             #[cfg(target_has_atomic = "ptr")]
-            TryJoinAllKind::Big { fut } => Pin::new(fut).poll(cx),
+            TryJoinAllKind::Big { futs, outputs } => loop {
+                match ready!(Pin::new(&mut *futs).poll_next(cx)) {
+                    Some(Ok((index, output))) => outputs[index] = Some(output),
+                    Some(Err(e)) => {
+                        *futs = FuturesUnordered::new();
+                        *outputs = Box::default();
+                        return Poll::Ready(Err(e));
+                    }
+                    None => {
+                        let outputs = mem::take(outputs);
+                        return Poll::Ready(Ok(outputs
+                            .into_vec()
+                            .into_iter()
+                            .map(Option::unwrap)
+                            .collect()));
+                    }
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 89fec2b328b522634307ebf58d16a03647d889c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:24 +0000
Subject: [PATCH 11/15] fix: Forward and TryForward must report themselves
 terminated after they returned an error

---
 futures-util/src/stream/stream/forward.rs     | 58 ++++++++++++-------
 .../src/stream/try_stream/try_forward.rs      | 58 ++++++++++++-------
 2 files changed, 72 insertions(+), 44 deletions(-)

diff --git a/futures-util/src/stream/stream/forward.rs b/futures-util/src/stream/stream/forward.rs
index 42c7ad3..387a120 100644
--- a/futures-util/src/stream/stream/forward.rs
+++ b/futures-util/src/stream/stream/forward.rs
@@ -49,30 +49,44 @@ where
     type Output = Result<(), E>;
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
-        let ForwardProj { mut sink, mut stream, buffered_item } = self.project();
-        let mut si = sink.as_mut().as_pin_mut().expect("polled `Forward` after completion");
+        let ForwardProj { mut sink, stream, buffered_item } = self.project();
+        let si = sink.as_mut().as_pin_mut().expect("polled `Forward` after completion");
 
-        loop {
-            // If we've got an item buffered already, we need to write it to the
-            // sink before we can do anything else
-            if buffered_item.is_some() {
-                ready!(si.as_mut().poll_ready(cx))?;
-                si.as_mut().start_send(buffered_item.take().unwrap())?;
-            }
+        let result = ready!(poll_forward(si, stream, buffered_item, cx));
+        sink.set(None);
+        Poll::Ready(result)
+    }
+}
 
-            match stream.as_mut().poll_next(cx) {
-                Poll::Ready(Some(item)) => {
-                    *buffered_item = Some(item);
-                }
-                Poll::Ready(None) => {
-                    ready!(si.poll_close(cx))?;
-                    sink.set(None);
-                    return Poll::Ready(Ok(()));
-                }
-                Poll::Pending => {
-                    ready!(si.poll_flush(cx))?;
-                    return Poll::Pending;
-                }
+fn poll_forward<St, Si, Item, E>(
+    mut si: Pin<&mut Si>,
+    mut stream: Pin<&mut Fuse<St>>,
+    buffered_item: &mut Option<Item>,
+    cx: &mut Context<'_>,
+) -> Poll<Result<(), E>>
+where
+    Si: Sink<Item, Error = E>,
+    St: Stream<Item = Item>,
+{
+    loop {
+        // If we've got an item buffered already, we need to write it to the
+        // sink before we can do anything else
+        if buffered_item.is_some() {
+            ready!(si.as_mut().poll_ready(cx))?;
+            si.as_mut().start_send(buffered_item.take().unwrap())?;
+        }
+
+        match stream.as_mut().poll_next(cx) {
+            Poll::Ready(Some(item)) => {
+                *buffered_item = Some(item);
+            }
+            Poll::Ready(None) => {
+                ready!(si.poll_close(cx))?;
+                return Poll::Ready(Ok(()));
+            }
+            Poll::Pending => {
+                ready!(si.poll_flush(cx))?;
+                return Poll::Pending;
             }
         }
     }
diff --git a/futures-util/src/stream/try_stream/try_forward.rs b/futures-util/src/stream/try_stream/try_forward.rs
index fe34599..ee6afb5 100644
--- a/futures-util/src/stream/try_stream/try_forward.rs
+++ b/futures-util/src/stream/try_stream/try_forward.rs
@@ -48,30 +48,44 @@ where
     type Output = Result<(), E>;
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
-        let TryForwardProj { mut sink, mut stream, buffered_item } = self.project();
-        let mut si = sink.as_mut().as_pin_mut().expect("polled `TryForward` after completion");
+        let TryForwardProj { mut sink, stream, buffered_item } = self.project();
+        let si = sink.as_mut().as_pin_mut().expect("polled `TryForward` after completion");
 
-        loop {
-            // If we've got an item buffered already, we need to write it to the
-            // sink before we can do anything else
-            if buffered_item.is_some() {
-                ready!(si.as_mut().poll_ready(cx))?;
-                si.as_mut().start_send(buffered_item.take().unwrap())?;
-            }
+        let result = ready!(poll_forward(si, stream, buffered_item, cx));
+        sink.set(None);
+        Poll::Ready(result)
+    }
+}
 
-            match stream.as_mut().poll_next(cx)? {
-                Poll::Ready(Some(item)) => {
-                    *buffered_item = Some(item);
-                }
-                Poll::Ready(None) => {
-                    ready!(si.poll_close(cx))?;
-                    sink.set(None);
-                    return Poll::Ready(Ok(()));
-                }
-                Poll::Pending => {
-                    ready!(si.poll_flush(cx))?;
-                    return Poll::Pending;
-                }
+fn poll_forward<St, Si, Item, E>(
+    mut si: Pin<&mut Si>,
+    mut stream: Pin<&mut Fuse<IntoStream<St>>>,
+    buffered_item: &mut Option<Item>,
+    cx: &mut Context<'_>,
+) -> Poll<Result<(), E>>
+where
+    Si: Sink<Item, Error = E>,
+    St: TryStream<Ok = Item, Error = E>,
+{
+    loop {
+        // If we've got an item buffered already, we need to write it to the
+        // sink before we can do anything else
+        if buffered_item.is_some() {
+            ready!(si.as_mut().poll_ready(cx))?;
+            si.as_mut().start_send(buffered_item.take().unwrap())?;
+        }
+
+        match stream.as_mut().poll_next(cx)? {
+            Poll::Ready(Some(item)) => {
+                *buffered_item = Some(item);
+            }
+            Poll::Ready(None) => {
+                ready!(si.poll_close(cx))?;
+                return Poll::Ready(Ok(()));
+            }
+            Poll::Pending => {
+                ready!(si.poll_flush(cx))?;
+                return Poll::Pending;
             }
         }
     }
-- 
2.43.0


From 9674199767db9d660b3a81679e76f85f71d0fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:59 +0000
Subject: [PATCH 12/15] fix: Lines must not prepend the part of a line before
 an I/O error to a later line

---
 futures-util/src/io/lines.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/io/lines.rs b/futures-util/src/io/lines.rs
index 3e89f9e..60bb6cb 100644
--- a/futures-util/src/io/lines.rs
+++ b/futures-util/src/io/lines.rs
@@ -36,7 +36,14 @@ impl<R: AsyncBufRead> Stream for Lines<R> {
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         let this = self.project();
-        let n = ready!(read_line_internal(this.reader, cx, this.buf, this.bytes, this.read))?;
+        let n = match ready!(read_line_internal(this.reader, cx, this.buf, this.bytes, this.read)) {
+            Ok(n) => n,
+            Err(e) => {
+                // Discard the incomplete line, it must not become part of a later one.
+                this.buf.clear();
+                return Poll::Ready(Some(Err(e)));
+            }
+        };
         *this.read = 0;
         if n == 0 && this.buf.is_empty() {
             return Poll::Ready(None);
-- 
2.43.0


From 02645a5d8ea834c29a674c03ed4f0af8a7bd5bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:59 +0000
Subject: [PATCH 13/15] fix: IntoSink must report a writer that accepts no
 bytes instead of retrying forever

---
 futures-util/src/io/into_sink.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/futures-util/src/io/into_sink.rs b/futures-util/src/io/into_sink.rs
index 9fa2def..d680b10 100644
--- a/futures-util/src/io/into_sink.rs
+++ b/futures-util/src/io/into_sink.rs
@@ -50,6 +50,9 @@ impl<W: AsyncWrite, Item: AsRef<[u8]>> IntoSink<W, Item> {
                 if buffer.offset == bytes.len() {
                     break;
                 }
+                if written == 0 {
+                    return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
+                }
             }
         }
         *this.buffer = None;
-- 
2.43.0


From 08512be70eb232df28b189169482a8905ca20bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:50 +0000
Subject: [PATCH 14/15] fix: TakeUntil reports termination when its stream ends
 after take_future

---
 futures-util/src/stream/stream/take_until.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/futures-util/src/stream/stream/take_until.rs b/futures-util/src/stream/stream/take_until.rs
index 14f642b..0359598 100644
--- a/futures-util/src/stream/stream/take_until.rs
+++ b/futures-util/src/stream/stream/take_until.rs
@@ -135,6 +135,8 @@ where
             let item = ready!(this.stream.poll_next(cx));
             if item.is_none() {
                 this.fut.set(None);
+                // Also after `take_future`, an ended stream is not polled again.
+                *this.free = false;
             }
             Poll::Ready(item)
         }
-- 
2.43.0


From 3151bc2c1174c8dec84e1eb0277767f44d0f08c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:57 +0000
Subject: [PATCH 15/15] fix: stream_select!: no overflow when adding size hints

---
 futures-macro/src/stream_select.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index 4586c80..7212fa6 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -101,9 +101,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                     let mut s = (0, Some(0));
                     #(
                         if let Some(new_hint) = self.#field_indices.as_ref().map(|s| s.size_hint()) {
-                            s.0 += new_hint.0;
+                            s.0 = usize::saturating_add(s.0, new_hint.0);
                             // We can change this out for `.zip` when the MSRV is 1.46.0 or higher.
-                            s.1 = s.1.and_then(|a| new_hint.1.map(|b| a + b));
+                            s.1 = s.1.and_then(|a| new_hint.1.and_then(|b| usize::checked_add(a, b)));
                         }
                     )*
                     s
-- 
2.43.0

