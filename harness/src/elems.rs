//! The same simple histories with many kinds of element: without size, without
//! drop code, over-aligned, large, owning memory. Nothing a queue or channel
//! does may depend on that.
use crate::engine::{chance, gen, weighted, Report};
use crate::vals::{run, Cx};
use std::cell::Cell;
use std::collections::VecDeque;
use std::fmt::Debug;
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};
#[cfg(feature = "full")]
use thingbuf::mpsc::blocking;
use thingbuf::mpsc::{self, errors::*};
use thingbuf::recycling::Recycle;
use thingbuf::StaticThingBuf;

pub trait Elem: Clone + Default + PartialEq + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    fn mk(v: u32) -> Self;
}

macro_rules! elem {
    ($($t:ty, $n:literal, |$v:ident| $e:expr;)*) => {
        $(impl Elem for $t {
            const NAME: &'static str = $n;
            #[allow(unused_variables)]
            fn mk($v: u32) -> Self { $e }
        })*
        fn each(k: usize, cx: &mut Cx) {
            let mut i = 0;
            $(if k == i { return kinds::<$t>(cx); } i += 1;)*
            let _ = i;
        }
        const N: u32 = [$($n),*].len() as u32;
    };
}

#[derive(Clone, Default, PartialEq, Debug)]
#[repr(align(64))]
pub struct Wide(u8);
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Unit;
#[derive(Clone, PartialEq, Debug)]
pub struct Big([u64; 40]);
impl Default for Big {
    fn default() -> Self {
        Big([0x55; 40])
    }
}
/// its default is not all zeros
#[derive(Clone, PartialEq, Debug)]
pub enum En {
    A,
    B(u32),
    C { x: u8, y: u64 },
}
impl Default for En {
    fn default() -> Self {
        En::C { x: 7, y: 9 }
    }
}

elem! {
    (), "()", |v| ();
    Unit, "a unit struct", |v| Unit;
    [u32; 0], "[u32; 0]", |v| [];
    bool, "bool", |v| v % 2 == 0;
    u8, "u8", |v| v as u8;
    u64, "u64", |v| v as u64 * 0x1_0000_0001;
    u128, "u128", |v| (v as u128) << 90 | v as u128;
    (u8, u16, u64), "(u8, u16, u64)", |v| (v as u8, v as u16, v as u64);
    [u8; 3], "[u8; 3]", |v| [v as u8, (v >> 8) as u8, 1];
    Wide, "a 64-aligned byte", |v| Wide(v as u8);
    Big, "320 bytes", |v| Big(std::array::from_fn(|i| v as u64 + i as u64));
    Option<std::num::NonZeroU32>, "Option<NonZeroU32>", |v| std::num::NonZeroU32::new(v);
    &'static str, "&str", |v| ["", "a", "bc", "def"][v as usize % 4];
    En, "an enum", |v| match v % 3 { 0 => En::A, 1 => En::B(v), _ => En::C { x: 1, y: v as u64 } };
    String, "String", |v| "x".repeat(v as usize % 40);
    Vec<u16>, "Vec<u16>", |v| (0..v as u16 % 20).collect();
    Option<Box<u32>>, "Option<Box<u32>>", |v| if v % 3 == 0 { None } else { Some(Box::new(v)) };
    std::sync::Arc<u32>, "Arc<u32>", |v| std::sync::Arc::new(v);
}

thread_local! {
    static NEWS: Cell<u32> = const { Cell::new(0) };
    static RECYCLES: Cell<u32> = const { Cell::new(0) };
}

/// Makes and restores a recognisable element.
#[derive(Debug)]
struct Count;
impl<T: Elem> Recycle<T> for Count {
    fn new_element(&self) -> T {
        NEWS.set(NEWS.get() + 1);
        T::mk(777)
    }
    fn recycle(&self, e: &mut T) {
        RECYCLES.set(RECYCLES.get() + 1);
        *e = T::mk(777);
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Why {
    Full,
    Empty,
    Closed,
    Pending,
}

trait Sub<T> {
    fn push(&mut self, how: u32, v: T) -> Result<(), (Why, Option<T>)>;
    fn push_in(&mut self, how: u32, f: &mut dyn FnMut(&mut T)) -> Result<(), Why>;
    fn pop(&mut self, how: u32) -> Result<T, Why>;
    fn pop_in(&mut self, how: u32, f: &mut dyn FnMut(&mut T)) -> Result<(), Why>;
    fn len(&mut self) -> Option<(usize, usize, usize, bool)> {
        None
    }
    fn end(&mut self, _tx: bool) -> bool {
        false
    }
}

macro_rules! queue {
    ([$($g:tt)*] $t:ty, $p:ty) => {
        impl<T: Elem, $($g)*> Sub<T> for $t {
            fn push(&mut self, _how: u32, v: T) -> Result<(), (Why, Option<T>)> {
                (**self).push(v).map_err(|e| (Why::Full, Some(e.into_inner())))
            }
            fn push_in(&mut self, how: u32, f: &mut dyn FnMut(&mut T)) -> Result<(), Why> {
                if how == 0 {
                    (**self).push_ref().map(|mut r| f(&mut r)).map_err(|_| Why::Full)
                } else {
                    (**self).push_with(|r| f(r)).map_err(|_| Why::Full)
                }
            }
            fn pop(&mut self, _how: u32) -> Result<T, Why> {
                (**self).pop().ok_or(Why::Empty)
            }
            fn pop_in(&mut self, how: u32, f: &mut dyn FnMut(&mut T)) -> Result<(), Why> {
                if how == 0 {
                    (**self).pop_ref().map(|mut r| f(&mut r)).ok_or(Why::Empty)
                } else {
                    (**self).pop_with(|r| f(r)).ok_or(Why::Empty)
                }
            }
            fn len(&mut self) -> Option<(usize, usize, usize, bool)> {
                let q = &**self;
                Some((q.len(), q.remaining(), q.capacity(), q.is_empty()))
            }
        }
    };
}
struct Q<X>(X);
impl<X> std::ops::Deref for Q<X> {
    type Target = X;
    fn deref(&self) -> &X {
        &self.0
    }
}
#[cfg(feature = "alloc")]
queue!([P: Recycle<T>] Q<thingbuf::ThingBuf<T, P>>, P);
queue!([const N: usize, P: Recycle<T>] Q<StaticThingBuf<T, N, P>>, P);

fn once<F: Future>(f: F) -> Option<F::Output> {
    let f = pin!(f);
    match f.poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}
fn why<T>(e: TrySendError<T>) -> (Why, Option<T>) {
    let w = if e.is_full() { Why::Full } else { Why::Closed };
    (w, Some(e.into_inner()))
}
fn rwhy(e: TryRecvError) -> Why {
    match e {
        TryRecvError::Empty => Why::Empty,
        _ => Why::Closed,
    }
}

struct A<S, R>(Option<S>, Option<R>, Option<usize>);

macro_rules! asyn {
    ([$($g:tt)*] $s:ty, $r:ty) => {
        impl<T: Elem, $($g)*> Sub<T> for A<$s, $r> {
            fn push(&mut self, how: u32, v: T) -> Result<(), (Why, Option<T>)> {
                let s = self.0.as_ref().unwrap();
                if how == 0 {
                    s.try_send(v).map_err(why)
                } else {
                    match once(s.send(v)) {
                        None => Err((Why::Pending, None)),
                        Some(r) => r.map_err(|e| (Why::Closed, Some(e.into_inner()))),
                    }
                }
            }
            fn push_in(&mut self, how: u32, f: &mut dyn FnMut(&mut T)) -> Result<(), Why> {
                let s = self.0.as_ref().unwrap();
                if how == 0 {
                    s.try_send_ref().map(|mut r| f(&mut r)).map_err(|e| why(e).0)
                } else {
                    match once(s.send_ref()) {
                        None => Err(Why::Pending),
                        Some(r) => r.map(|mut r| f(&mut r)).map_err(|_| Why::Closed),
                    }
                }
            }
            fn pop(&mut self, how: u32) -> Result<T, Why> {
                let r = self.1.as_ref().unwrap();
                match how {
                    0 => r.try_recv().map_err(rwhy),
                    1 => match once(r.recv()) {
                        None => Err(Why::Pending),
                        Some(x) => x.ok_or(Why::Closed),
                    },
                    _ => match r.poll_recv(&mut Context::from_waker(Waker::noop())) {
                        Poll::Pending => Err(Why::Pending),
                        Poll::Ready(x) => x.ok_or(Why::Closed),
                    },
                }
            }
            fn pop_in(&mut self, how: u32, f: &mut dyn FnMut(&mut T)) -> Result<(), Why> {
                let r = self.1.as_ref().unwrap();
                match how {
                    0 => r.try_recv_ref().map(|mut r| f(&mut r)).map_err(rwhy),
                    1 => match once(r.recv_ref()) {
                        None => Err(Why::Pending),
                        Some(x) => x.map(|mut r| f(&mut r)).ok_or(Why::Closed),
                    },
                    _ => match r.poll_recv_ref(&mut Context::from_waker(Waker::noop())) {
                        Poll::Pending => Err(Why::Pending),
                        Poll::Ready(x) => x.map(|mut r| f(&mut r)).ok_or(Why::Closed),
                    },
                }
            }
            fn end(&mut self, tx: bool) -> bool {
                if tx { self.0 = None } else { self.1 = None }
                true
            }
        }
    };
}
#[cfg(feature = "alloc")]
asyn!([P: Recycle<T>] mpsc::Sender<T, P>, mpsc::Receiver<T, P>);
asyn!([P: Recycle<T>] mpsc::StaticSender<T, P>, mpsc::StaticReceiver<T, P>);

#[cfg(feature = "full")]
mod bl {
    use super::*;
    use blocking::*;
    macro_rules! bloc {
        ([$($g:tt)*] $s:ty, $r:ty) => {
            impl<T: Elem, $($g)*> Sub<T> for A<$s, $r> {
                fn push(&mut self, _how: u32, v: T) -> Result<(), (Why, Option<T>)> {
                    self.0.as_ref().unwrap().try_send(v).map_err(why)
                }
                fn push_in(&mut self, _how: u32, f: &mut dyn FnMut(&mut T)) -> Result<(), Why> {
                    self.0.as_ref().unwrap().try_send_ref().map(|mut r| f(&mut r)).map_err(|e| why(e).0)
                }
                fn pop(&mut self, _how: u32) -> Result<T, Why> {
                    self.1.as_ref().unwrap().try_recv().map_err(rwhy)
                }
                fn pop_in(&mut self, _how: u32, f: &mut dyn FnMut(&mut T)) -> Result<(), Why> {
                    self.1.as_ref().unwrap().try_recv_ref().map(|mut r| f(&mut r)).map_err(rwhy)
                }
                fn end(&mut self, tx: bool) -> bool {
                    if tx { self.0 = None } else { self.1 = None }
                    true
                }
            }
        };
    }
    bloc!([P: Recycle<T>] Sender<T, P>, Receiver<T, P>);
    bloc!([P: Recycle<T>] StaticSender<T, P>, StaticReceiver<T, P>);
}

/// Memory of static channels, freed at the end of the case.
fn on_heap<C: 'static>(c: C, after: &mut Vec<Box<dyn FnOnce()>>) -> &'static C {
    let p = Box::into_raw(Box::new(c));
    after.push(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
    unsafe { &*p }
}

fn kinds<T: Elem>(cx: &mut Cx) {
    let mut after: Vec<Box<dyn FnOnce()>> = Vec::new();
    let stat = !cfg!(feature = "alloc") || chance(1, 3);
    let flavour = weighted(&[2, 2, if cfg!(feature = "full") { 1 } else { 0 }]);
    let counted = chance(1, 2) && !(stat && flavour > 0);
    let cap = if stat { [1, 3, 4][gen(3) as usize] } else { 1 + gen(9) as usize };
    cx.tr(|| {
        format!(
            "{} of {} with capacity {cap}{}{}",
            ["queue", "async channel", "blocking channel"][flavour],
            T::NAME,
            if stat { ", static" } else { "" },
            if counted { ", own policy" } else { "" }
        )
    });
    macro_rules! st {
        ($e:ident) => {{
            match cap { 1 => $e!(1), 3 => $e!(3), _ => $e!(4) }
        }};
    }
    let sub: Box<dyn Sub<T>> = match (flavour, stat) {
        (0, true) => {
            macro_rules! mk { ($c:literal) => {
                if counted {
                    Box::new(Q(StaticThingBuf::<T, $c, Count>::with_recycle(Count))) as Box<dyn Sub<T>>
                } else {
                    Box::new(Q(StaticThingBuf::<T, $c>::new()))
                }
            } }
            st!(mk)
        }
        (1, true) => {
            macro_rules! mk { ($c:literal) => {{
                let (s, r) = on_heap(mpsc::StaticChannel::<T, $c>::new(), &mut after).split();
                Box::new(A(Some(s), Some(r), None)) as Box<dyn Sub<T>>
            }} }
            st!(mk)
        }
        #[cfg(feature = "full")]
        (2, true) => {
            macro_rules! mk { ($c:literal) => {{
                let (s, r) = on_heap(blocking::StaticChannel::<T, $c>::new(), &mut after).split();
                Box::new(A(Some(s), Some(r), None)) as Box<dyn Sub<T>>
            }} }
            st!(mk)
        }
        #[cfg(feature = "alloc")]
        (0, false) => {
            if counted {
                Box::new(Q(thingbuf::ThingBuf::<T, Count>::with_recycle(cap, Count)))
            } else {
                Box::new(Q(thingbuf::ThingBuf::<T>::new(cap)))
            }
        }
        #[cfg(feature = "alloc")]
        (1, false) => {
            if counted {
                let (s, r) = mpsc::with_recycle::<T, Count>(cap, Count);
                Box::new(A(Some(s), Some(r), None))
            } else {
                let (s, r) = mpsc::channel::<T>(cap);
                Box::new(A(Some(s), Some(r), None))
            }
        }
        #[cfg(feature = "full")]
        (2, false) => {
            if counted {
                let (s, r) = blocking::with_recycle::<T, Count>(cap, Count);
                Box::new(A(Some(s), Some(r), None))
            } else {
                let (s, r) = blocking::channel::<T>(cap);
                Box::new(A(Some(s), Some(r), None))
            }
        }
        _ => unreachable!(),
    };
    history(sub, cap, flavour > 0, counted, cx);
    for f in after {
        f();
    }
    cx.note(flavour as u64 * 1000 + cap as u64 * 10 + stat as u64);
}

fn history<T: Elem>(mut sub: Box<dyn Sub<T>>, cap: usize, chan: bool, counted: bool, cx: &mut Cx) {
    NEWS.set(0);
    RECYCLES.set(0);
    let mut m: VecDeque<T> = VecDeque::new();
    let blank = || if counted { T::mk(777) } else { T::default() };
    let (mut tx, mut rx) = (true, true);
    let (mut claims, mut taken, mut popped) = (0u32, 0u32, 0u32);
    for step in 0..6 + gen(50) {
        let v = gen(1000);
        let how = gen(3);
        let room = m.len() < cap;
        // what a send and a receive report that cannot be done
        let no_tx = if !rx { Why::Closed } else { Why::Full };
        let no_rx = if tx { Why::Empty } else { Why::Closed };
        let waits = |w: Why| matches!(w, Why::Full | Why::Empty);
        match weighted(&[5, 5, 4, 4, 2, 1]) {
            0 if tx => {
                let r = sub.push(how, T::mk(v));
                cx.tr(|| format!("push {:?} -> {r:?}", T::mk(v)));
                let ok = match &r {
                    Ok(()) => room && rx,
                    Err((w, back)) => {
                        let good = back.as_ref().is_none_or(|b| *b == T::mk(v)) && (back.is_some() || *w == Why::Pending);
                        cx.ck(good, "giveback", || format!("{:?} came back as {back:?}", T::mk(v)));
                        !(room && rx) && (*w == no_tx || waits(no_tx) && *w == Why::Pending)
                    }
                };
                cx.ck(ok, if rx { "full" } else { "closed" }, || format!("step {step}: push with {} of {cap}: {r:?}", m.len()));
                if r.is_ok() {
                    m.push_back(T::mk(v));
                    claims += 1;
                }
            }
            1 if tx => {
                let mut shown = None;
                let keep = chance(1, 4);
                let r = sub.push_in(how, &mut |e: &mut T| {
                    shown = Some((e.clone(), e as *const T as usize % std::mem::align_of::<T>()));
                    if !keep {
                        *e = T::mk(v);
                    }
                });
                cx.tr(|| format!("push_ref {:?} -> {r:?}", T::mk(v)));
                let ok = match r {
                    Ok(()) => room && rx,
                    Err(w) => !(room && rx) && (w == no_tx || waits(no_tx) && w == Why::Pending),
                };
                cx.ck(ok, if rx { "full" } else { "closed" }, || format!("step {step}: push_ref with {} of {cap}: {r:?}", m.len()));
                if let Some((e, off)) = shown {
                    cx.ck(off == 0, "guard", || "misaligned element".into());
                    cx.ck(e == blank(), "recycle", || format!("a guard for writing shows {e:?}, the policy makes {:?}", blank()));
                }
                if r.is_ok() {
                    m.push_back(if keep { blank() } else { T::mk(v) });
                    claims += 1;
                }
            }
            2 if rx => {
                let r = sub.pop(how);
                cx.tr(|| format!("pop -> {r:?}"));
                let ok = match (&r, m.front()) {
                    (Ok(x), Some(y)) => x == y,
                    (Err(w), None) => *w == no_rx || waits(no_rx) && *w == Why::Pending,
                    _ => false,
                };
                cx.ck(ok, if r.is_ok() { "order" } else { "empty" }, || format!("step {step}: pop: {r:?}, expected {:?}", m.front()));
                if r.is_ok() {
                    m.pop_front();
                    taken += 1;
                    popped += 1;
                }
            }
            3 if rx => {
                let mut shown = None;
                let dirty = chance(1, 2);
                let r = sub.pop_in(how, &mut |e: &mut T| {
                    shown = Some(e.clone());
                    if dirty {
                        *e = T::mk(v);
                    }
                });
                cx.tr(|| format!("pop_ref -> {r:?} {shown:?}"));
                let ok = match (&r, m.front()) {
                    (Ok(()), Some(y)) => shown.as_ref() == Some(y),
                    (Err(w), None) => *w == no_rx || waits(no_rx) && *w == Why::Pending,
                    _ => false,
                };
                cx.ck(ok, if r.is_ok() { "order" } else { "empty" }, || format!("step {step}: pop_ref: {r:?} {shown:?}, expected {:?}", m.front()));
                if r.is_ok() {
                    m.pop_front();
                    popped += 1;
                }
            }
            5 if chan && tx && rx && chance(1, 3) => {
                let t = chance(2, 3);
                cx.tr(|| format!("drop the {}", if t { "sender" } else { "receiver" }));
                sub.end(t);
                if t {
                    tx = false
                } else {
                    rx = false
                }
            }
            _ => {}
        }
        if let Some((len, rem, c, empty)) = sub.len() {
            cx.ck(len == m.len() && rem == cap - len && c == cap && empty == m.is_empty(), "acct", || {
                format!("step {step}: {} of {cap}: len {len}, remaining {rem}, capacity {c}, is_empty {empty}", m.len())
            });
        }
        if counted {
            let first = claims.min(cap as u32);
            cx.ck(NEWS.get() == first + taken && RECYCLES.get() == claims - first, "recycle", || {
                format!("step {step}: {claims} reservations, {taken} taken: {} made, {} recycled", NEWS.get(), RECYCLES.get())
            });
        }
        if cx.fail.is_some() {
            return std::mem::forget(sub);
        }
    }
    cx.note(claims as u64 * 100 + popped as u64);
    cx.note(taken as u64);
    if popped > cap as u32 {
        cx.labels.push("wrapped");
        cx.nontrivial = true;
    }
}

pub fn elems(describe: bool) -> Report {
    run(describe, "panic", |cx| {
        let k = gen(N);
        cx.note(k as u64);
        each(k as usize, cx)
    })
}
