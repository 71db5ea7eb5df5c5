From 9beb7a3330ed1ef2dba656b66ac54fe3ed06f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:30 +0000
Subject: [PATCH 01/20] Add verification hooks behind cfg(thingbuf_vp)

---
 src/lib.rs           |   3 +
 src/loom.rs          |  19 +-
 src/mpsc/blocking.rs |   3 +
 src/util/mutex.rs    |   8 +-
 src/vp.rs            | 788 +++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 819 insertions(+), 2 deletions(-)
 create mode 100644 src/vp.rs

diff --git a/src/lib.rs b/src/lib.rs
index 228ffe8..ee6d5fe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -10,6 +10,9 @@ mod loom;
 pub mod mpsc;
 pub mod recycling;
 mod util;
+#[cfg(thingbuf_vp)]
+#[doc(hidden)]
+pub mod vp;
 mod wait;
 
 pub use self::recycling::Recycle;
diff --git a/src/loom.rs b/src/loom.rs
index 7b67828..8c7e4cf 100644
--- a/src/loom.rs
+++ b/src/loom.rs
@@ -200,7 +200,24 @@ mod inner {
     }
 }
 
-#[cfg(not(all(loom, test)))]
+#[cfg(all(thingbuf_vp, not(all(loom, test))))]
+mod inner {
+    #![allow(dead_code)]
+    pub(crate) use crate::vp::{atomic, cell, hint, sync};
+
+    #[cfg(feature = "std")]
+    pub(crate) use crate::vp::thread;
+
+    #[cfg(feature = "std")]
+    pub(crate) fn traceln(args: std::fmt::Arguments) {
+        eprintln!("{}", args);
+    }
+
+    #[cfg(not(feature = "std"))]
+    pub(crate) fn traceln(_: core::fmt::Arguments) {}
+}
+
+#[cfg(not(any(thingbuf_vp, all(loom, test))))]
 mod inner {
     #![allow(dead_code)]
     pub(crate) mod sync {
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index cb6f037..ba8bc7b 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -16,6 +16,9 @@ use crate::{
 };
 use core::{fmt, pin::Pin};
 use errors::*;
+#[cfg(thingbuf_vp)]
+use crate::vp::time::{Duration, Instant};
+#[cfg(not(thingbuf_vp))]
 use std::time::{Duration, Instant};
 
 /// Returns a new synchronous multi-producer, single consumer (MPSC)
diff --git a/src/util/mutex.rs b/src/util/mutex.rs
index 944a4ca..5cbe573 100644
--- a/src/util/mutex.rs
+++ b/src/util/mutex.rs
@@ -5,7 +5,13 @@ pub(crate) use self::spin_impl::*;
 mod spin_impl;
 
 feature! {
-    #![all(feature = "std", not(all(loom, test)))]
+    #![all(feature = "std", thingbuf_vp, not(all(loom, test)))]
+    #[allow(unused_imports)]
+    pub(crate) use crate::vp::mutex::{Mutex, MutexGuard, const_mutex};
+}
+
+feature! {
+    #![all(feature = "std", not(thingbuf_vp), not(all(loom, test)))]
     #[allow(unused_imports)]
     pub(crate) use parking_lot::{Mutex, MutexGuard, const_mutex};
 }
diff --git a/src/vp.rs b/src/vp.rs
new file mode 100644
index 0000000..c2ad513
--- /dev/null
+++ b/src/vp.rs
@@ -0,0 +1,788 @@
+//! Verification hooks. Compiled only with `--cfg thingbuf_vp`; not part of the
+//! public API.
+//!
+//! Every synchronization primitive the crate uses (atomics, cells, locks,
+//! threads, the clock) goes through [`crate::loom`]. With this cfg set, that
+//! module re-exports the types below instead of the native ones. They behave
+//! like the native ones, except that an installed [`Runtime`] sees every
+//! operation, and may decide when it happens and (within the memory model) what
+//! a load returns.
+#![allow(missing_docs, dead_code, clippy::all)]
+
+use core::sync::atomic as native;
+use native::Ordering;
+
+/// Identity of an instrumented object, assigned lazily by the runtime. A new
+/// object always starts with an identity of 0, whatever its address.
+#[derive(Debug)]
+pub struct Obj(native::AtomicU64);
+
+impl Obj {
+    pub const fn new() -> Self {
+        Self(native::AtomicU64::new(0))
+    }
+
+    #[inline]
+    pub fn get(&self) -> u64 {
+        self.0.load(Ordering::Relaxed)
+    }
+
+    #[inline]
+    pub fn set(&self, id: u64) {
+        self.0.store(id, Ordering::Relaxed)
+    }
+}
+
+/// Controls the instrumented primitives.
+pub trait Runtime: Sync {
+    /// Whether operations on the calling thread are currently controlled.
+    fn active(&self) -> bool;
+
+    fn load(&self, obj: &Obj, val: &native::AtomicU64, order: Ordering) -> u64;
+    fn store(&self, obj: &Obj, val: &native::AtomicU64, new: u64, order: Ordering);
+    fn rmw(
+        &self,
+        obj: &Obj,
+        val: &native::AtomicU64,
+        f: &mut dyn FnMut(u64) -> Option<u64>,
+        success: Ordering,
+        failure: Ordering,
+        weak: bool,
+    ) -> Result<u64, u64>;
+    fn fence(&self, order: Ordering);
+
+    fn cell_id(&self, obj: &Obj) -> u64;
+    fn cell_access(&self, id: u64, write: bool);
+
+    fn lock(&self, obj: &Obj, locked: &native::AtomicBool);
+    fn try_lock(&self, obj: &Obj, locked: &native::AtomicBool) -> bool;
+    fn unlock(&self, obj: &Obj, locked: &native::AtomicBool);
+
+    fn arc_clone(&self, obj: &Obj);
+    fn arc_drop(&self, obj: &Obj, count: &dyn Fn() -> usize);
+
+    fn thread_current(&self) -> u64;
+    fn park(&self, timeout: Option<core::time::Duration>);
+    fn unpark(&self, thread: u64);
+    fn yield_now(&self);
+    fn spin_loop(&self);
+    fn now(&self) -> core::time::Duration;
+}
+
+static RUNTIME: native::AtomicPtr<&'static dyn Runtime> =
+    native::AtomicPtr::new(core::ptr::null_mut());
+
+/// Installs a runtime, for the rest of the process.
+pub fn set_runtime(rt: &'static &'static dyn Runtime) {
+    RUNTIME.store(rt as *const _ as *mut _, Ordering::SeqCst);
+}
+
+#[inline]
+fn rt() -> Option<&'static dyn Runtime> {
+    let ptr = RUNTIME.load(Ordering::Relaxed);
+    if ptr.is_null() {
+        return None;
+    }
+    let rt = unsafe { *ptr };
+    if rt.active() {
+        Some(rt)
+    } else {
+        None
+    }
+}
+
+pub mod atomic {
+    pub use core::sync::atomic::*;
+
+    use super::{native, rt, Obj};
+    use core::fmt;
+
+    #[inline]
+    pub fn fence(order: Ordering) {
+        match rt() {
+            Some(rt) => rt.fence(order),
+            None => native::fence(order),
+        }
+    }
+
+    macro_rules! atomic {
+        ($name:ident, $ty:ty, |$x:ident| $to:expr, |$y:ident| $from:expr) => {
+            pub struct $name {
+                obj: Obj,
+                val: native::AtomicU64,
+            }
+
+            impl $name {
+                #[inline(always)]
+                const fn to($x: $ty) -> u64 {
+                    $to
+                }
+
+                #[inline(always)]
+                const fn from($y: u64) -> $ty {
+                    $from
+                }
+
+                pub const fn new(v: $ty) -> Self {
+                    Self {
+                        obj: Obj::new(),
+                        val: native::AtomicU64::new(Self::to(v)),
+                    }
+                }
+
+                pub fn load(&self, order: Ordering) -> $ty {
+                    Self::from(match rt() {
+                        Some(rt) => rt.load(&self.obj, &self.val, order),
+                        None => self.val.load(order),
+                    })
+                }
+
+                pub fn store(&self, v: $ty, order: Ordering) {
+                    match rt() {
+                        Some(rt) => rt.store(&self.obj, &self.val, Self::to(v), order),
+                        None => self.val.store(Self::to(v), order),
+                    }
+                }
+
+                fn rmw(
+                    &self,
+                    mut f: impl FnMut($ty) -> Option<$ty>,
+                    success: Ordering,
+                    failure: Ordering,
+                    weak: bool,
+                ) -> Result<$ty, $ty> {
+                    match rt() {
+                        Some(rt) => rt.rmw(
+                            &self.obj,
+                            &self.val,
+                            &mut |v| f(Self::from(v)).map(Self::to),
+                            success,
+                            failure,
+                            weak,
+                        ),
+                        None => self
+                            .val
+                            .fetch_update(success, failure, |v| f(Self::from(v)).map(Self::to)),
+                    }
+                    .map(Self::from)
+                    .map_err(Self::from)
+                }
+
+                fn update(&self, mut f: impl FnMut($ty) -> $ty, order: Ordering) -> $ty {
+                    match self.rmw(|v| Some(f(v)), order, Ordering::Relaxed, false) {
+                        Ok(v) | Err(v) => v,
+                    }
+                }
+
+                pub fn swap(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(|_| v, order)
+                }
+
+                pub fn compare_exchange(
+                    &self,
+                    current: $ty,
+                    new: $ty,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$ty, $ty> {
+                    self.rmw(
+                        |v| if v == current { Some(new) } else { None },
+                        success,
+                        failure,
+                        false,
+                    )
+                }
+
+                pub fn compare_exchange_weak(
+                    &self,
+                    current: $ty,
+                    new: $ty,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$ty, $ty> {
+                    self.rmw(
+                        |v| if v == current { Some(new) } else { None },
+                        success,
+                        failure,
+                        true,
+                    )
+                }
+
+                pub fn fetch_update<F>(
+                    &self,
+                    set_order: Ordering,
+                    fetch_order: Ordering,
+                    mut f: F,
+                ) -> Result<$ty, $ty>
+                where
+                    F: FnMut($ty) -> Option<$ty>,
+                {
+                    let mut prev = self.load(fetch_order);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                            x @ Ok(_) => return x,
+                            Err(next_prev) => prev = next_prev,
+                        }
+                    }
+                    Err(prev)
+                }
+
+                pub fn fetch_and(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(|x| x & v, order)
+                }
+
+                pub fn fetch_nand(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(|x| !(x & v), order)
+                }
+
+                pub fn fetch_or(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(|x| x | v, order)
+                }
+
+                pub fn fetch_xor(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(|x| x ^ v, order)
+                }
+
+                pub fn get_mut(&mut self) -> &mut $ty {
+                    // Little-endian targets only: the low-order bytes hold the
+                    // value.
+                    unsafe { &mut *(self.val.get_mut() as *mut u64 as *mut $ty) }
+                }
+
+                pub fn into_inner(self) -> $ty {
+                    Self::from(self.val.into_inner())
+                }
+            }
+
+            impl fmt::Debug for $name {
+                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                    fmt::Debug::fmt(&self.load(Ordering::Relaxed), f)
+                }
+            }
+
+            impl Default for $name {
+                fn default() -> Self {
+                    Self::new(Default::default())
+                }
+            }
+
+            impl From<$ty> for $name {
+                fn from(v: $ty) -> Self {
+                    Self::new(v)
+                }
+            }
+        };
+    }
+
+    atomic!(AtomicUsize, usize, |x| x as u64, |y| y as usize);
+    atomic!(AtomicBool, bool, |x| x as u64, |y| y != 0);
+    atomic!(AtomicU8, u8, |x| x as u64, |y| y as u8);
+    atomic!(AtomicU32, u32, |x| x as u64, |y| y as u32);
+
+    macro_rules! arith {
+        ($($name:ident $ty:ty),*) => {
+            $(impl $name {
+                pub fn fetch_add(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(|x| x.wrapping_add(v), order)
+                }
+
+                pub fn fetch_sub(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(|x| x.wrapping_sub(v), order)
+                }
+
+                pub fn fetch_max(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(|x| x.max(v), order)
+                }
+
+                pub fn fetch_min(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(|x| x.min(v), order)
+                }
+            })*
+        };
+    }
+
+    arith!(AtomicUsize usize, AtomicU8 u8, AtomicU32 u32);
+
+    impl AtomicBool {
+        pub fn fetch_not(&self, order: Ordering) -> bool {
+            self.update(|x| !x, order)
+        }
+    }
+}
+
+pub mod hint {
+    #[inline]
+    pub fn spin_loop() {
+        match super::rt() {
+            Some(rt) => rt.spin_loop(),
+            None => core::hint::spin_loop(),
+        }
+    }
+}
+
+pub mod cell {
+    use super::{rt, Obj};
+
+    #[derive(Debug)]
+    pub struct UnsafeCell<T> {
+        obj: Obj,
+        data: core::cell::UnsafeCell<T>,
+    }
+
+    impl<T> UnsafeCell<T> {
+        pub const fn new(data: T) -> UnsafeCell<T> {
+            UnsafeCell {
+                obj: Obj::new(),
+                data: core::cell::UnsafeCell::new(data),
+            }
+        }
+
+        fn access(&self, write: bool) {
+            if let Some(rt) = rt() {
+                let id = rt.cell_id(&self.obj);
+                rt.cell_access(id, write);
+            }
+        }
+
+        #[inline(always)]
+        pub fn with<F, R>(&self, f: F) -> R
+        where
+            F: FnOnce(*const T) -> R,
+        {
+            self.access(false);
+            f(self.data.get())
+        }
+
+        #[inline(always)]
+        pub fn with_mut<F, R>(&self, f: F) -> R
+        where
+            F: FnOnce(*mut T) -> R,
+        {
+            self.access(true);
+            f(self.data.get())
+        }
+
+        #[inline(always)]
+        pub fn get_mut(&self) -> MutPtr<T> {
+            MutPtr {
+                id: rt().map(|rt| rt.cell_id(&self.obj)).unwrap_or(0),
+                ptr: self.data.get(),
+            }
+        }
+    }
+
+    #[derive(Debug)]
+    pub struct MutPtr<T: ?Sized> {
+        id: u64,
+        ptr: *mut T,
+    }
+
+    impl<T: ?Sized> MutPtr<T> {
+        fn access(&self) {
+            if let Some(rt) = rt() {
+                rt.cell_access(self.id, true);
+            }
+        }
+
+        #[inline(always)]
+        pub unsafe fn deref(&self) -> &mut T {
+            self.access();
+            &mut *self.ptr
+        }
+
+        #[inline(always)]
+        pub fn with<F, R>(&self, f: F) -> R
+        where
+            F: FnOnce(*mut T) -> R,
+        {
+            self.access();
+            f(self.ptr)
+        }
+    }
+}
+
+pub mod sync {
+    pub use core::sync::*;
+
+    #[cfg(feature = "alloc")]
+    pub use alloc::sync::*;
+
+    #[cfg(feature = "alloc")]
+    pub use self::arc::Arc;
+
+    pub use super::atomic;
+
+    #[cfg(feature = "alloc")]
+    mod arc {
+        use crate::vp::{rt, Obj};
+        use alloc::sync;
+        use core::{fmt, ops};
+
+        struct Counted<T> {
+            obj: Obj,
+            value: T,
+        }
+
+        pub struct Arc<T>(sync::Arc<Counted<T>>);
+
+        impl<T> Arc<T> {
+            pub fn new(value: T) -> Self {
+                Self(sync::Arc::new(Counted {
+                    obj: Obj::new(),
+                    value,
+                }))
+            }
+
+            pub fn ptr_eq(this: &Self, other: &Self) -> bool {
+                sync::Arc::ptr_eq(&this.0, &other.0)
+            }
+
+            pub fn strong_count(this: &Self) -> usize {
+                sync::Arc::strong_count(&this.0)
+            }
+
+            pub fn get_mut(this: &mut Self) -> Option<&mut T> {
+                sync::Arc::get_mut(&mut this.0).map(|c| &mut c.value)
+            }
+
+            pub fn as_ptr(this: &Self) -> *const T {
+                &this.0.value
+            }
+        }
+
+        impl<T> Clone for Arc<T> {
+            fn clone(&self) -> Self {
+                if let Some(rt) = rt() {
+                    rt.arc_clone(&self.0.obj);
+                }
+                Self(self.0.clone())
+            }
+        }
+
+        impl<T> Drop for Arc<T> {
+            fn drop(&mut self) {
+                if let Some(rt) = rt() {
+                    rt.arc_drop(&self.0.obj, &|| sync::Arc::strong_count(&self.0));
+                }
+            }
+        }
+
+        impl<T> ops::Deref for Arc<T> {
+            type Target = T;
+            #[inline]
+            fn deref(&self) -> &T {
+                &self.0.value
+            }
+        }
+
+        impl<T> AsRef<T> for Arc<T> {
+            fn as_ref(&self) -> &T {
+                &self.0.value
+            }
+        }
+
+        impl<T: fmt::Debug> fmt::Debug for Arc<T> {
+            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                self.0.value.fmt(f)
+            }
+        }
+    }
+}
+
+#[cfg(feature = "std")]
+pub mod thread {
+    use super::rt;
+    use core::time::Duration;
+    pub use std::thread::*;
+
+    #[derive(Clone, Debug)]
+    pub struct Thread(Inner);
+
+    #[derive(Clone, Debug)]
+    enum Inner {
+        Native(std::thread::Thread),
+        Virtual(u64),
+    }
+
+    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
+    pub struct ThreadId(Id);
+
+    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
+    enum Id {
+        Native(std::thread::ThreadId),
+        Virtual(u64),
+    }
+
+    impl Thread {
+        pub fn unpark(&self) {
+            match self.0 {
+                Inner::Native(ref t) => t.unpark(),
+                Inner::Virtual(id) => {
+                    if let Some(rt) = rt() {
+                        rt.unpark(id)
+                    }
+                }
+            }
+        }
+
+        pub fn id(&self) -> ThreadId {
+            ThreadId(match self.0 {
+                Inner::Native(ref t) => Id::Native(t.id()),
+                Inner::Virtual(id) => Id::Virtual(id),
+            })
+        }
+
+        pub fn name(&self) -> Option<&str> {
+            match self.0 {
+                Inner::Native(ref t) => t.name(),
+                Inner::Virtual(_) => None,
+            }
+        }
+    }
+
+    pub fn current() -> Thread {
+        Thread(match rt() {
+            Some(rt) => Inner::Virtual(rt.thread_current()),
+            None => Inner::Native(std::thread::current()),
+        })
+    }
+
+    pub fn park() {
+        match rt() {
+            Some(rt) => rt.park(None),
+            None => std::thread::park(),
+        }
+    }
+
+    pub fn park_timeout(timeout: Duration) {
+        match rt() {
+            Some(rt) => rt.park(Some(timeout)),
+            None => std::thread::park_timeout(timeout),
+        }
+    }
+
+    pub fn sleep(duration: Duration) {
+        match rt() {
+            Some(rt) => {
+                let end = rt.now().saturating_add(duration);
+                loop {
+                    let now = rt.now();
+                    if now >= end {
+                        return;
+                    }
+                    rt.park(Some(end - now));
+                }
+            }
+            None => std::thread::sleep(duration),
+        }
+    }
+
+    pub fn yield_now() {
+        match rt() {
+            Some(rt) => rt.yield_now(),
+            None => std::thread::yield_now(),
+        }
+    }
+}
+
+#[cfg(feature = "std")]
+pub mod mutex {
+    use super::{native, rt, Obj, Ordering};
+    use core::{cell::UnsafeCell, fmt, ops};
+
+    pub struct Mutex<T> {
+        obj: Obj,
+        locked: native::AtomicBool,
+        data: UnsafeCell<T>,
+    }
+
+    pub struct MutexGuard<'a, T> {
+        lock: &'a Mutex<T>,
+        _not_send: core::marker::PhantomData<*mut ()>,
+    }
+
+    pub const fn const_mutex<T>(data: T) -> Mutex<T> {
+        Mutex::new(data)
+    }
+
+    impl<T> Mutex<T> {
+        pub const fn new(data: T) -> Self {
+            Self {
+                obj: Obj::new(),
+                locked: native::AtomicBool::new(false),
+                data: UnsafeCell::new(data),
+            }
+        }
+
+        pub fn lock(&self) -> MutexGuard<'_, T> {
+            match rt() {
+                Some(rt) => rt.lock(&self.obj, &self.locked),
+                None => {
+                    while self.locked.swap(true, Ordering::Acquire) {
+                        std::thread::yield_now();
+                    }
+                }
+            }
+            MutexGuard {
+                lock: self,
+                _not_send: core::marker::PhantomData,
+            }
+        }
+
+        pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
+            let locked = match rt() {
+                Some(rt) => rt.try_lock(&self.obj, &self.locked),
+                None => !self.locked.swap(true, Ordering::Acquire),
+            };
+            if locked {
+                Some(MutexGuard {
+                    lock: self,
+                    _not_send: core::marker::PhantomData,
+                })
+            } else {
+                None
+            }
+        }
+
+        pub fn get_mut(&mut self) -> &mut T {
+            self.data.get_mut()
+        }
+
+        pub fn into_inner(self) -> T {
+            self.data.into_inner()
+        }
+    }
+
+    impl<T> ops::Deref for MutexGuard<'_, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            unsafe { &*self.lock.data.get() }
+        }
+    }
+
+    impl<T> ops::DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            unsafe { &mut *self.lock.data.get() }
+        }
+    }
+
+    impl<T> Drop for MutexGuard<'_, T> {
+        fn drop(&mut self) {
+            match rt() {
+                Some(rt) => rt.unlock(&self.lock.obj, &self.lock.locked),
+                None => self.lock.locked.store(false, Ordering::Release),
+            }
+        }
+    }
+
+    impl<T: fmt::Debug> fmt::Debug for Mutex<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            match self.try_lock() {
+                Some(guard) => f.debug_struct("Mutex").field("data", &*guard).finish(),
+                None => f
+                    .debug_struct("Mutex")
+                    .field("data", &format_args!("<locked>"))
+                    .finish(),
+            }
+        }
+    }
+
+    impl<T: fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            (**self).fmt(f)
+        }
+    }
+
+    impl<T: Default> Default for Mutex<T> {
+        fn default() -> Self {
+            Self::new(T::default())
+        }
+    }
+
+    unsafe impl<T: Send> Send for Mutex<T> {}
+    unsafe impl<T: Send> Sync for Mutex<T> {}
+    unsafe impl<T: Sync> Sync for MutexGuard<'_, T> {}
+}
+
+#[cfg(feature = "std")]
+pub mod time {
+    use super::rt;
+    use core::ops;
+    pub use std::time::*;
+
+    /// A point in time, as an offset from an arbitrary origin.
+    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
+    pub struct Instant(Duration);
+
+    impl Instant {
+        pub fn now() -> Self {
+            Self(match rt() {
+                Some(rt) => rt.now(),
+                None => {
+                    static ORIGIN: std::sync::OnceLock<std::time::Instant> =
+                        std::sync::OnceLock::new();
+                    ORIGIN.get_or_init(std::time::Instant::now).elapsed()
+                }
+            })
+        }
+
+        pub fn elapsed(&self) -> Duration {
+            Self::now().duration_since(*self)
+        }
+
+        pub fn duration_since(&self, earlier: Self) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+
+        pub fn saturating_duration_since(&self, earlier: Self) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+
+        pub fn checked_duration_since(&self, earlier: Self) -> Option<Duration> {
+            self.0.checked_sub(earlier.0)
+        }
+
+        pub fn checked_add(&self, d: Duration) -> Option<Self> {
+            self.0.checked_add(d).map(Self)
+        }
+
+        pub fn checked_sub(&self, d: Duration) -> Option<Self> {
+            self.0.checked_sub(d).map(Self)
+        }
+    }
+
+    impl ops::Add<Duration> for Instant {
+        type Output = Self;
+        fn add(self, d: Duration) -> Self {
+            self.checked_add(d)
+                .expect("overflow when adding duration to instant")
+        }
+    }
+
+    impl ops::AddAssign<Duration> for Instant {
+        fn add_assign(&mut self, d: Duration) {
+            *self = *self + d;
+        }
+    }
+
+    impl ops::Sub<Duration> for Instant {
+        type Output = Self;
+        fn sub(self, d: Duration) -> Self {
+            self.checked_sub(d)
+                .expect("overflow when subtracting duration from instant")
+        }
+    }
+
+    impl ops::SubAssign<Duration> for Instant {
+        fn sub_assign(&mut self, d: Duration) {
+            *self = *self - d;
+        }
+    }
+
+    impl ops::Sub<Instant> for Instant {
+        type Output = Duration;
+        fn sub(self, other: Instant) -> Duration {
+            self.duration_since(other)
+        }
+    }
+}
-- 
2.43.0


From 4b85d73a606ca78a72627c63faf05e2fef313bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:50 +0000
Subject: [PATCH 02/20] fix: don't wait for outstanding Refs in push_ref and
 pop_ref

If the slot at the tail or head still holds the previous lap's element
because a Ref to it exists, non-waiting operations span until that Ref
was dropped, which never happens when the calling thread owns it.
---
 src/lib.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ee6d5fe..6f317a6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -260,7 +260,12 @@ impl Core {
                 }
             }
 
-            if test_dbg!(state.wrapping_add(self.gen) == tail + 1) {
+            // Is the slot still occupied by the element of the previous lap? If
+            // so, its state is either the previous lap's tail (the element is
+            // still being written to) or that plus one (the element has been
+            // written, and is in the queue or still being read from).
+            let prev_lap = tail.wrapping_sub(self.gen);
+            if test_dbg!(state == prev_lap || state == prev_lap.wrapping_add(1)) {
                 // fake RMW op to placate loom. this should be equivalent to
                 // doing a relaxed load after a SeqCst fence (per Godbolt
                 // https://godbolt.org/z/zb15qfEa9), however, loom understands
@@ -274,6 +279,17 @@ impl Core {
                     return Err(TrySendError::Full(()));
                 }
 
+                // The previous lap's element has been dequeued, but a `Ref` to
+                // it still exists, possibly on this thread. Don't wait for it
+                // to be dropped: as long as the tail hasn't moved, there is no
+                // slot available.
+                if test_dbg!(backoff.done_spinning())
+                    && test_dbg!(self.tail.fetch_or(0, SeqCst) == tail)
+                {
+                    test_println!("tail slot still in use");
+                    return Err(TrySendError::Full(()));
+                }
+
                 backoff.spin();
             } else {
                 backoff.spin_yield();
@@ -337,7 +353,9 @@ impl Core {
                 }
             }
 
-            if test_dbg!(state == head) {
+            // Either the slot is vacant (or being written to), or the previous
+            // lap's element has been dequeued but a `Ref` to it still exists.
+            if test_dbg!(state == head || state.wrapping_add(self.gen) == head + 1) {
                 // fake RMW op to placate loom. this should be equivalent to
                 // doing a relaxed load after a SeqCst fence (per Godbolt
                 // https://godbolt.org/z/zb15qfEa9), however, loom understands
-- 
2.43.0


From e7434e72e7e1bc49204abc480ea75230254b8829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:34 +0000
Subject: [PATCH 03/20] fix: don't drop slots whose element was never created

If the recycling policy panics when a slot is first used, the slot has been
claimed but holds no element.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6f317a6..a15c28e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -419,7 +419,12 @@ impl Core {
         let tail = self.tail.load(SeqCst);
         let (idx, gen) = self.idx_gen(tail);
         let num_initialized = if gen > 0 { self.capacity() } else { idx };
-        for slot in &mut slots[..num_initialized] {
+        for (i, slot) in slots[..num_initialized].iter_mut().enumerate() {
+            // If the slot was claimed but its initial state was never advanced,
+            // the recycling policy panicked before making an element for it.
+            if slot.state.load(SeqCst) == i {
+                continue;
+            }
             unsafe {
                 slot.value
                     .with_mut(|value| ptr::drop_in_place((*value).as_mut_ptr()));
-- 
2.43.0


From dc1ae4c4c128d83a5c1f92a664bb6602ee74bf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:29 +0000
Subject: [PATCH 04/20] fix: reject a capacity of zero for static queues and
 channels

With a zero-sized slots array, every operation accessed it out of bounds.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index a15c28e..c07367d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -109,6 +109,7 @@ struct Slot<T> {
 impl Core {
     #[cfg(not(all(loom, test)))]
     const fn new(capacity: usize) -> Self {
+        assert!(capacity > 0);
         let closed = (capacity + 1).next_power_of_two();
         let idx_mask = closed - 1;
         let gen = closed << 1;
-- 
2.43.0


From d93c804c3ec5c5f67c36f9be7072de9cc6a9fecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:34 +0000
Subject: [PATCH 05/20] fix: require Sync to share a Ref, and Send to share a
 queue

A shared Ref hands out shared references to the element, and a shared queue
or channel moves elements between threads.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c07367d..6b71c5a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -537,7 +537,7 @@ impl<T: fmt::Write> fmt::Write for Ref<'_, T> {
 }
 
 unsafe impl<T: Send> Send for Ref<'_, T> {}
-unsafe impl<T: Send> Sync for Ref<'_, T> {}
+unsafe impl<T: Sync> Sync for Ref<'_, T> {}
 
 // === impl Slot ===
 
@@ -581,7 +581,7 @@ impl<T> Slot<T> {
     }
 }
 
-unsafe impl<T: Sync> Sync for Slot<T> {}
+unsafe impl<T: Send + Sync> Sync for Slot<T> {}
 
 // === impl Full ===
 
-- 
2.43.0


From aecb7854a912c6fa74edabd2488127cefb244d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:38 +0000
Subject: [PATCH 06/20] fix: is_closed on send errors matched the wrong variant

---
 src/mpsc/errors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/errors.rs b/src/mpsc/errors.rs
index a41df34..b4b127c 100644
--- a/src/mpsc/errors.rs
+++ b/src/mpsc/errors.rs
@@ -141,7 +141,7 @@ impl<T> SendTimeoutError<T> {
     /// [`send`]: super::blocking::Sender::send
     /// [`Receiver`]: super::blocking::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Timeout(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
@@ -208,7 +208,7 @@ impl<T> TrySendError<T> {
     /// [`send`]: super::Sender::send
     /// [`Receiver`]: super::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Full(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
-- 
2.43.0


From bb2a56520bc1e761ce19da517defe66dfe80bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:42 +0000
Subject: [PATCH 07/20] fix: Receiver::is_closed returned true while one sender
 was left

---
 src/mpsc/async_impl.rs | 4 ++--
 src/mpsc/blocking.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index 9f3431b..da198ed 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -579,7 +579,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1284,7 +1284,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index ba8bc7b..c2ea42b 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -876,7 +876,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1562,7 +1562,7 @@ impl<T, R> Receiver<T, R> {
     /// If this method returns `true`, no new messages will become available
     /// on this channel. Previously sent messages may still be available.
     pub fn is_closed(&self) -> bool {
-        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
     }
 }
 
-- 
2.43.0


From bdad2b8bae25c675c5c77f22611e944e5a0a0dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:32 +0000
Subject: [PATCH 08/20] fix: drop the elements of a static channel when it is
 dropped

---
 src/mpsc/async_impl.rs | 6 ++++++
 src/mpsc/blocking.rs   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index da198ed..ddfe26c 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -756,6 +756,12 @@ feature! {
         }
     }
 
+    impl<T, R, const CAPACITY: usize> Drop for StaticChannel<T, CAPACITY, R> {
+        fn drop(&mut self) {
+            self.core.core.drop_slots(&mut self.slots[..]);
+        }
+    }
+
     // === impl StaticSender ===
 
     impl<T, R> StaticSender<T, R>
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index c2ea42b..627b48c 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -243,6 +243,12 @@ feature! {
         }
     }
 
+    impl<T, R, const CAPACITY: usize> Drop for StaticChannel<T, CAPACITY, R> {
+        fn drop(&mut self) {
+            self.core.core.drop_slots(&mut self.slots[..]);
+        }
+    }
+
     // === impl StaticSender ===
 
     impl<T, R> StaticSender<T, R>
-- 
2.43.0


From 96a1959720836bad08296a36d292ac8971772973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:20 +0000
Subject: [PATCH 09/20] fix: close the channel when its last handle is dropped
 by a panic

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6b71c5a..95a4369 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -171,7 +171,8 @@ impl Core {
 
     fn close(&self) -> bool {
         test_println!("Core::close");
-        if crate::util::panic::panicking() {
+        // loom's atomics must not be used while unwinding.
+        if cfg!(all(loom, test)) && crate::util::panic::panicking() {
             return false;
         }
         test_dbg!(self.tail.fetch_or(self.closed, SeqCst) & self.closed == 0)
-- 
2.43.0


From efa1c6ec186c1a2358bf2784295304e426926e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:22 +0000
Subject: [PATCH 10/20] fix: don't touch a waiter after telling its owner it
 was dequeued

---
 src/wait/queue.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index f820a70..66cc8da 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -578,9 +578,6 @@ impl<T> List<T> {
         test_println!("List::dequeue({:?}) -> {:p}", new_state, last);
 
         let last = unsafe { last.as_mut() };
-        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
-        debug_assert_eq!(_prev_state, WAITING);
-
         let (prev, waiter) = last.with_node(self, |node| {
             node.next = None;
             (node.prev.take(), node.waiter.take())
@@ -595,6 +592,11 @@ impl<T> List<T> {
 
         self.tail = prev;
 
+        // This must come last: as soon as the new state is visible, the node's
+        // owner may stop waiting and deallocate it.
+        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
+        debug_assert_eq!(_prev_state, WAITING);
+
         waiter
     }
 
-- 
2.43.0


From 46039b056b218ad34fa2e7752ca33d761e216034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:27 +0000
Subject: [PATCH 11/20] fix: re-check the wait queue's state under the lock
 when notifying

---
 src/wait/queue.rs | 80 +++++++++++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 34 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 66cc8da..9382d19 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -388,55 +388,67 @@ impl<T: Notify + Unpin> WaitQueue<T> {
 
         // Slow path: there are waiters in the queue, so we must acquire the
         // lock and wake one of them.
-        self.notify_slow(state)
+        self.notify_slow()
     }
 
     /// Slow path for `notify`: acquire the lock on the linked list, dequeue a
     /// waiter, and notify it.
     #[cold]
     #[inline(never)]
-    fn notify_slow(&self, state: usize) -> bool {
-        test_println!("WaitQueue::notify_slow(state: {})", state);
+    fn notify_slow(&self) -> bool {
+        test_println!("WaitQueue::notify_slow");
 
         let mut list = self.list.lock();
-        match state {
-            EMPTY | WAKING => {
-                if let Err(actual) = self.state.compare_exchange(state, WAKING, SeqCst, SeqCst) {
-                    debug_assert!(actual == EMPTY || actual == WAKING);
-                    self.state.store(WAKING, SeqCst);
-                }
-            }
-            WAITING => {
-                let waiter = list.dequeue(WAKING);
-                debug_assert!(
-                    waiter.is_some(),
-                    "if we were in the `WAITING` state, there must be a waiter in the queue!\nself={:#?}",
-                    self,
-                );
+        // The state may have changed while we were waiting to lock the linked
+        // list: the last waiter may be gone, or the queue may be closed.
+        let mut state = self.state.load(Acquire);
 
-                // If we popped the last node, transition back to the empty
-                // state.
-                if test_dbg!(list.is_empty()) {
-                    self.state.store(EMPTY, SeqCst);
+        loop {
+            match test_dbg!(state) {
+                // There are no waiters (any more): assign the notification to
+                // the queue.
+                EMPTY | WAKING => {
+                    match test_dbg!(self.state.compare_exchange(state, WAKING, SeqCst, SeqCst)) {
+                        Ok(_) => return false,
+                        Err(actual) => state = actual,
+                    }
                 }
 
-                // drop the lock
-                drop(list);
+                WAITING => {
+                    let waiter = list.dequeue(WAKING);
+
+                    // If we popped the last node, transition back to the empty
+                    // state (unless the queue has been closed).
+                    if test_dbg!(list.is_empty()) {
+                        let _ = test_dbg!(self
+                            .state
+                            .compare_exchange(WAITING, EMPTY, SeqCst, SeqCst));
+                    }
 
-                // wake the waiter
-                if let Some(waiter) = waiter {
-                    waiter.notify();
-                    return true;
+                    if let Some(waiter) = waiter {
+                        // drop the lock
+                        drop(list);
+
+                        // wake the waiter
+                        waiter.notify();
+                        return true;
+                    }
+
+                    // If cloning the waiter panicked in `start_wait`, the state
+                    // is `WAITING`, but there is no one in the list.
+                    state = self.state.load(Acquire);
+                }
+
+                _state => {
+                    debug_assert_eq!(
+                        _state, CLOSED,
+                        "notify_slow: unexpected state value {:?}. this is a bug!",
+                        _state,
+                    );
+                    return false;
                 }
-            }
-            _weird => {
-                // huh, if `notify_slow` was called, we *probably* shouldn't be
-                // in the `closed` state...
-                #[cfg(debug_assertions)]
-                unreachable!("notify_slow: unexpected state value {:?}", _weird);
             }
         }
-        false
     }
 
     /// Close the queue, notifying all waiting tasks.
-- 
2.43.0


From d557eb2f60457aa11d3cc334f243875684f47786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:31 +0000
Subject: [PATCH 12/20] fix: pass on the notification of a cancelled send

---
 src/mpsc/async_impl.rs |  2 +-
 src/wait/queue.rs      | 23 ++++++++++++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index ddfe26c..25e7974 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -1501,7 +1501,7 @@ impl<T, R> PinnedDrop for SendRefFuture<'_, T, R> {
     fn drop(self: Pin<&mut Self>) {
         test_println!("SendRefFuture::drop({:p})", self);
         let this = self.project();
-        if test_dbg!(*this.state) == State::Waiting && test_dbg!(this.waiter.is_linked()) {
+        if test_dbg!(*this.state) == State::Waiting {
             this.waiter.remove(&this.core.tx_wait)
         }
     }
diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 9382d19..1094316 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -480,10 +480,30 @@ impl<T: Notify> Waiter<T> {
         }
     }
 
+    /// Stop waiting: remove this waiter from the queue. If it has been notified
+    /// already, the notification is passed on to the next waiter.
     #[inline(never)]
-    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>) {
+    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>)
+    where
+        T: Unpin,
+    {
         test_println!("Waiter::remove({:p})", self);
+        if test_dbg!(self.state.load(Acquire)) == CLOSED {
+            return;
+        }
+
         let mut list = q.list.lock();
+        // The waiter may have been dequeued while we were waiting for the lock.
+        match test_dbg!(self.state.load(Acquire)) {
+            WAITING => {}
+            WAKING => {
+                drop(list);
+                q.notify();
+                return;
+            }
+            _ => return,
+        }
+
         unsafe {
             // Safety: removing a node is unsafe even when the list is locked,
             // because there's no way to guarantee that the node is part of
@@ -497,6 +517,7 @@ impl<T: Notify> Waiter<T> {
         }
     }
 
+    #[cfg(test)]
     #[inline]
     pub(crate) fn is_linked(&self) -> bool {
         test_dbg!(self.state.load(Acquire)) == WAITING
-- 
2.43.0


From 700b61e43abf983cb3873f512b5451feac2ddf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:35 +0000
Subject: [PATCH 13/20] fix: leave the wait queue when a blocking send times
 out

---
 src/mpsc/blocking.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 627b48c..005cda7 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1728,7 +1728,7 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
     let mut boff = Backoff::new();
     let beginning_park = Instant::now();
     loop {
-        let node = unsafe {
+        let mut node = unsafe {
             // Safety: in this case, it's totally safe to pin the waiter, as
             // it is owned uniquely by this function, and it cannot possibly
             // be moved while this thread is parked.
@@ -1736,9 +1736,9 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
         };
 
         let wait = if unqueued {
-            test_dbg!(core.tx_wait.start_wait(node, &thread))
+            test_dbg!(core.tx_wait.start_wait(node.as_mut(), &thread))
         } else {
-            test_dbg!(core.tx_wait.continue_wait(node, &thread))
+            test_dbg!(core.tx_wait.continue_wait(node.as_mut(), &thread))
         };
 
         match wait {
@@ -1756,6 +1756,8 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
                 thread::park_timeout(timeout);
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
+                    // the node must not stay in the wait queue.
+                    node.remove(&core.tx_wait);
                     return Err(SendTimeoutError::Timeout(()));
                 }
             }
-- 
2.43.0


From 09887a986239d41faff8782aa66734f14faf2fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:39 +0000
Subject: [PATCH 14/20] fix: don't wait for the full timeout again after a
 spurious wakeup

---
 src/mpsc/blocking.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 005cda7..6547dbe 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1646,7 +1646,7 @@ fn recv_ref_timeout<'a, T>(
             }
             Poll::Pending => {
                 test_println!("park_timeout ({:?})", thread::current());
-                thread::park_timeout(timeout);
+                thread::park_timeout(timeout.saturating_sub(beginning_park.elapsed()));
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
                     return Err(RecvTimeoutError::Timeout);
@@ -1753,7 +1753,7 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
             }
             WaitResult::Wait => {
                 unqueued = false;
-                thread::park_timeout(timeout);
+                thread::park_timeout(timeout.saturating_sub(beginning_park.elapsed()));
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
                     // the node must not stay in the wait queue.
-- 
2.43.0


From fd0f75b87f2ee07af7b16908642cd1fddb882ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:42 +0000
Subject: [PATCH 15/20] fix: block again when a notified blocking send finds
 the channel full

---
 src/mpsc/blocking.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 6547dbe..bae6694 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1692,6 +1692,8 @@ fn send_ref<'a, T, R: Recycle<T>>(
             WaitResult::Closed => return Err(Closed(())),
             WaitResult::Notified => {
                 boff.spin_yield();
+                // we are no longer in the wait queue
+                unqueued = true;
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(Closed(())),
@@ -1745,6 +1747,8 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
             WaitResult::Closed => return Err(SendTimeoutError::Closed(())),
             WaitResult::Notified => {
                 boff.spin_yield();
+                // we are no longer in the wait queue
+                unqueued = true;
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(SendTimeoutError::Closed(())),
-- 
2.43.0


From fa511b834c2ded6cf154a06eee2ef7805c0850a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:51 +0000
Subject: [PATCH 16/20] fix: don't wake waiting senders while holding the wait
 queue's lock

When the receiver is dropped, waiting senders were woken with the wait
queue locked. A waker that drops another waiting send future (an
executor dropping a task, say) then deadlocked on that lock.
---
 src/wait/queue.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 1094316..36b222c 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -456,10 +456,13 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         test_println!("WaitQueue::close()");
 
         test_dbg!(self.state.swap(CLOSED, SeqCst));
-        let mut list = self.list.lock();
-        while !list.is_empty() {
-            if let Some(waiter) = list.dequeue(CLOSED) {
-                waiter.notify();
+        loop {
+            // Don't hold the lock while waking a waiter: the waker may drop
+            // other waiters.
+            let waiter = self.list.lock().dequeue(CLOSED);
+            match waiter {
+                Some(waiter) => waiter.notify(),
+                None => return,
             }
         }
     }
-- 
2.43.0


From d5bbcbd121d4b595a5b2fd0a62b97778c599d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:19 +0000
Subject: [PATCH 17/20] fix: don't drop a replaced waker while holding the wait
 queue's lock

Dropping the last waker of a task may drop a future of that task which is
itself waiting in the same queue; removing it locks the queue again, and
the thread deadlocks.
---
 src/wait/queue.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 36b222c..87c447f 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -347,17 +347,15 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // Okay, we were not woken and need to continue waiting. It may be
         // necessary to update the waiter with a new waiter (in practice, this
         // is only necessary in async).
-        node.with_node(&mut *list, |node| {
-            if let Some(ref mut waiter) = node.waiter {
-                if !waiter.same(my_waiter) {
-                    *waiter = my_waiter.clone();
-                }
-            } else {
-                // XXX(eliza): This branch should _probably_ never occur...
-                node.waiter = Some(my_waiter.clone());
-            }
+        let _prev = node.with_node(&mut *list, |node| match node.waiter {
+            Some(ref waiter) if waiter.same(my_waiter) => None,
+            _ => node.waiter.replace(my_waiter.clone()),
         });
 
+        // Don't hold the lock while dropping the previous waiter: dropping the
+        // last waker of a task may drop other waiters.
+        drop(list);
+
         WaitResult::Wait
     }
 
-- 
2.43.0


From 7d7efe13476a9ed6f465dc7e905475aefd555a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:43 +0000
Subject: [PATCH 18/20] fix: wake the registered receiver when making a new
 waker panics

If cloning the waker panics while the receiver is being notified, the
waiter taken from the cell is the one that was registered before. The
debug assertion lost its wakeup and replaced the caller's panic.
---
 src/wait/cell.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wait/cell.rs b/src/wait/cell.rs
index 19a1134..8ac9c84 100644
--- a/src/wait/cell.rs
+++ b/src/wait/cell.rs
@@ -129,8 +129,9 @@ impl<T: Notify> WaitCell<T> {
                     }));
                 }
 
+                // (If making the new waiter panicked, this is the one that was
+                // registered before.)
                 if let Some(waiter) = waiter {
-                    debug_assert!(panicked.is_none());
                     waiter.notify();
                 }
 
-- 
2.43.0


From 983fe202cb95ff7616b8e0732d064dc98f0f5758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:53 +0000
Subject: [PATCH 19/20] Let a cfg flag shorten the generation counter for
 verification

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 95a4369..7e42e79 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -113,6 +113,9 @@ impl Core {
         let closed = (capacity + 1).next_power_of_two();
         let idx_mask = closed - 1;
         let gen = closed << 1;
+        // Make the generation counter wrap around after a few laps.
+        #[cfg(thingbuf_vp_wrap)]
+        let gen = 1 << (usize::BITS - 5);
         let gen_mask = !(closed | idx_mask);
         Self {
             head: CachePadded(AtomicUsize::new(0)),
-- 
2.43.0


From 41da287cfea4bed266e96d3c91880bbd525d98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:00 +0000
Subject: [PATCH 20/20] fix: don't reinitialize slots when the generation
 counter wraps around

Generation 0 means that a slot has never been used. Once the counter
wraps around (after 2^30 laps of a queue of capacity 1 with 32 bit
indices), every slot's element was overwritten without being dropped,
and dropping the queue during that lap leaked the elements of all slots
the lap had not reached yet.
---
 src/lib.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7e42e79..a3196b1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -163,7 +163,21 @@ impl Core {
         } else {
             // We've reached the end of the current lap, wrap the index around
             // to 0.
-            gen.wrapping_add(self.gen)
+            self.next_lap(gen)
+        }
+    }
+
+    /// Returns the given index or slot state, one lap later.
+    ///
+    /// Generation 0 is the lap in which the slots are initialized, so it is
+    /// skipped when the generation counter wraps around.
+    #[inline]
+    fn next_lap(&self, val: usize) -> usize {
+        let next = val.wrapping_add(self.gen);
+        if next & self.gen_mask == 0 {
+            next.wrapping_add(self.gen)
+        } else {
+            next
         }
     }
 
@@ -269,8 +283,8 @@ impl Core {
             // so, its state is either the previous lap's tail (the element is
             // still being written to) or that plus one (the element has been
             // written, and is in the queue or still being read from).
-            let prev_lap = tail.wrapping_sub(self.gen);
-            if test_dbg!(state == prev_lap || state == prev_lap.wrapping_add(1)) {
+            let next_state = self.next_lap(state);
+            if test_dbg!(next_state == tail || next_state == tail + 1) {
                 // fake RMW op to placate loom. this should be equivalent to
                 // doing a relaxed load after a SeqCst fence (per Godbolt
                 // https://godbolt.org/z/zb15qfEa9), however, loom understands
@@ -279,7 +293,7 @@ impl Core {
                 // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
                 // load it gets reordered differently in the model checker lmao...
                 let head = test_dbg!(self.head.fetch_or(0, SeqCst));
-                if test_dbg!(head.wrapping_add(self.gen) == tail) {
+                if test_dbg!(self.next_lap(head) == tail) {
                     test_println!("channel full");
                     return Err(TrySendError::Full(()));
                 }
@@ -345,7 +359,7 @@ impl Core {
                     Ok(_) => {
                         test_println!("claimed head slot [{}]", idx);
                         return Ok(Ref {
-                            new_state: head.wrapping_add(self.gen),
+                            new_state: self.next_lap(head),
                             ptr: slot.value.get_mut(),
                             slot,
                         });
@@ -360,7 +374,7 @@ impl Core {
 
             // Either the slot is vacant (or being written to), or the previous
             // lap's element has been dequeued but a `Ref` to it still exists.
-            if test_dbg!(state == head || state.wrapping_add(self.gen) == head + 1) {
+            if test_dbg!(state == head || self.next_lap(state) == head + 1) {
                 // fake RMW op to placate loom. this should be equivalent to
                 // doing a relaxed load after a SeqCst fence (per Godbolt
                 // https://godbolt.org/z/zb15qfEa9), however, loom understands
-- 
2.43.0

