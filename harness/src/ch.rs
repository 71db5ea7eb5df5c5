//! Channel flavours behind one interface, instrumented wakers, and the pieces
//! shared by the channel suites.
use crate::engine::{chance, gen, weighted};
use crate::rt::{self, NoLib};
use crate::world::{self, lib, Pol, Tok};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;
use thingbuf::mpsc::{self, errors::*};
#[cfg(feature = "full")]
use thingbuf::mpsc::blocking;
use thingbuf::recycling::DefaultRecycle;

pub enum SG {
    A(mpsc::SendRef<'static, Tok>),
    #[cfg(feature = "full")]
    B(blocking::SendRef<'static, Tok>),
}
pub enum RG {
    A(mpsc::RecvRef<'static, Tok>),
    #[cfg(feature = "full")]
    B(blocking::RecvRef<'static, Tok>),
}
impl SG {
    pub fn get(&mut self) -> &mut Tok {
        match self {
            SG::A(g) => &mut **g,
            #[cfg(feature = "full")]
            SG::B(g) => &mut **g,
        }
    }
}
impl RG {
    pub fn get(&mut self) -> &mut Tok {
        match self {
            RG::A(g) => &mut **g,
            #[cfg(feature = "full")]
            RG::B(g) => &mut **g,
        }
    }
}

pub type BoxFut<T> = Pin<Box<dyn Future<Output = T>>>;

pub trait Tx {
    fn dup(&self) -> Box<dyn Tx>;
    fn try_send(&self, t: Tok) -> Result<(), TrySendError<Tok>>;
    fn try_send_ref(&'static self) -> Result<SG, TrySendError>;
    fn debug(&self) -> String;
    fn send_fut(&'static self, _t: Tok) -> BoxFut<Result<(), Closed<Tok>>> {
        unreachable!()
    }
    fn send_ref_fut(&'static self) -> BoxFut<Result<SG, Closed>> {
        unreachable!()
    }
    fn send(&self, _t: Tok) -> Result<(), Closed<Tok>> {
        unreachable!()
    }
    fn send_ref(&'static self) -> Result<SG, Closed> {
        unreachable!()
    }
    #[cfg(feature = "full")]
    fn send_timeout(&self, _t: Tok, _d: Duration) -> Result<(), SendTimeoutError<Tok>> {
        unreachable!()
    }
    #[cfg(feature = "full")]
    fn send_ref_timeout(&'static self, _d: Duration) -> Result<SG, SendTimeoutError> {
        unreachable!()
    }
}

pub trait Rx {
    fn try_recv(&self) -> Result<Tok, TryRecvError>;
    fn try_recv_ref(&'static self) -> Result<RG, TryRecvError>;
    fn is_closed(&self) -> bool;
    fn debug(&self) -> String;
    fn recv_fut(&'static self) -> BoxFut<Option<Tok>> {
        unreachable!()
    }
    fn recv_ref_fut(&'static self) -> BoxFut<Option<RG>> {
        unreachable!()
    }
    fn poll_recv(&self, _cx: &mut Context<'_>) -> Poll<Option<Tok>> {
        unreachable!()
    }
    fn poll_recv_ref(&'static self, _cx: &mut Context<'_>) -> Poll<Option<RG>> {
        unreachable!()
    }
    fn recv(&self) -> Option<Tok> {
        unreachable!()
    }
    fn recv_ref(&'static self) -> Option<RG> {
        unreachable!()
    }
    fn next(&'static self) -> Option<RG> {
        unreachable!()
    }
    #[cfg(feature = "full")]
    fn recv_timeout(&self, _d: Duration) -> Result<Tok, RecvTimeoutError> {
        unreachable!()
    }
    #[cfg(feature = "full")]
    fn recv_ref_timeout(&'static self, _d: Duration) -> Result<RG, RecvTimeoutError> {
        unreachable!()
    }
}

macro_rules! common_tx {
    ($v:ident) => {
        fn dup(&self) -> Box<dyn Tx> {
            let h = lib(|| self.clone());
            Box::new(h)
        }
        fn try_send(&self, t: Tok) -> Result<(), TrySendError<Tok>> {
            self.try_send(t)
        }
        fn try_send_ref(&'static self) -> Result<SG, TrySendError> {
            self.try_send_ref().map(SG::$v)
        }
        fn debug(&self) -> String {
            let _n = NoLib::new();
            format!("{:?} {:#?}", self, self)
        }
    };
}
macro_rules! common_rx {
    ($v:ident) => {
        fn try_recv(&self) -> Result<Tok, TryRecvError> {
            self.try_recv()
        }
        fn try_recv_ref(&'static self) -> Result<RG, TryRecvError> {
            self.try_recv_ref().map(RG::$v)
        }
        fn is_closed(&self) -> bool {
            self.is_closed()
        }
        fn debug(&self) -> String {
            let _n = NoLib::new();
            format!("{:?} {:#?}", self, self)
        }
    };
}
macro_rules! async_chan {
    ($tx:ty, $rx:ty) => {
        impl Tx for $tx {
            common_tx!(A);
            fn send_fut(&'static self, t: Tok) -> BoxFut<Result<(), Closed<Tok>>> {
                let _n = NoLib::new();
                Box::pin(self.send(t))
            }
            fn send_ref_fut(&'static self) -> BoxFut<Result<SG, Closed>> {
                let _n = NoLib::new();
                Box::pin(async move { self.send_ref().await.map(SG::A) })
            }
        }
        impl Rx for $rx {
            common_rx!(A);
            fn recv_fut(&'static self) -> BoxFut<Option<Tok>> {
                let _n = NoLib::new();
                Box::pin(self.recv())
            }
            fn recv_ref_fut(&'static self) -> BoxFut<Option<RG>> {
                let _n = NoLib::new();
                Box::pin(async move { self.recv_ref().await.map(RG::A) })
            }
            fn poll_recv(&self, cx: &mut Context<'_>) -> Poll<Option<Tok>> {
                self.poll_recv(cx)
            }
            fn poll_recv_ref(&'static self, cx: &mut Context<'_>) -> Poll<Option<RG>> {
                self.poll_recv_ref(cx).map(|o| o.map(RG::A))
            }
        }
    };
}
#[cfg(feature = "alloc")]
async_chan!(mpsc::Sender<Tok, Pol>, mpsc::Receiver<Tok, Pol>);
#[cfg(feature = "alloc")]
async_chan!(mpsc::Sender<Tok, DefaultRecycle>, mpsc::Receiver<Tok, DefaultRecycle>);
async_chan!(mpsc::StaticSender<Tok>, mpsc::StaticReceiver<Tok>);

#[cfg(feature = "full")]
macro_rules! block_chan {
    ($tx:ty, $rx:ty) => {
        impl Tx for $tx {
            common_tx!(B);
            fn send(&self, t: Tok) -> Result<(), Closed<Tok>> {
                self.send(t)
            }
            fn send_ref(&'static self) -> Result<SG, Closed> {
                self.send_ref().map(SG::B)
            }
            fn send_timeout(&self, t: Tok, d: Duration) -> Result<(), SendTimeoutError<Tok>> {
                self.send_timeout(t, d)
            }
            fn send_ref_timeout(&'static self, d: Duration) -> Result<SG, SendTimeoutError> {
                self.send_ref_timeout(d).map(SG::B)
            }
        }
        impl Rx for $rx {
            common_rx!(B);
            fn recv(&self) -> Option<Tok> {
                self.recv()
            }
            fn recv_ref(&'static self) -> Option<RG> {
                self.recv_ref().map(RG::B)
            }
            fn next(&'static self) -> Option<RG> {
                let mut me: &'static $rx = self;
                Iterator::next(&mut me).map(RG::B)
            }
            fn recv_timeout(&self, d: Duration) -> Result<Tok, RecvTimeoutError> {
                self.recv_timeout(d)
            }
            fn recv_ref_timeout(&'static self, d: Duration) -> Result<RG, RecvTimeoutError> {
                self.recv_ref_timeout(d).map(RG::B)
            }
        }
    };
}
#[cfg(feature = "full")]
block_chan!(blocking::Sender<Tok, Pol>, blocking::Receiver<Tok, Pol>);
#[cfg(feature = "full")]
block_chan!(blocking::Sender<Tok, DefaultRecycle>, blocking::Receiver<Tok, DefaultRecycle>);
#[cfg(feature = "full")]
block_chan!(blocking::StaticSender<Tok>, blocking::StaticReceiver<Tok>);

#[derive(Clone, Copy, Debug)]
pub struct Flv {
    pub asy: bool,
    pub stat: bool,
    pub pol: bool,
    pub cap: usize,
}

/// differential suites: the storage to use, whatever is generated
/// leaves out the formatting operations of a history
pub static mut SKIP_FMT: bool = false;
pub static mut FORCE_STAT: Option<bool> = None;
/// whether the case contains panics and unwinding
pub static mut FORCE_PANIC: Option<bool> = None;

/// Where in its life a queue or channel of that capacity is when the case
/// begins: how many elements have passed through it. In the build whose
/// generation counter wraps around after 32 laps, mostly shortly before that.
pub fn position(cap: usize) -> usize {
    let n = gen(2 * cap as u32 + 2) as usize;
    if cfg!(thingbuf_vp_wrap) && chance(7, 8) {
        32 * cap - n
    } else {
        n
    }
}

/// Whether user code panics in this case (builds without std do not unwind).
pub fn panics(den: u32) -> bool {
    let r = chance(1, den) && cfg!(feature = "full");
    unsafe { FORCE_PANIC }.unwrap_or(r)
}

pub const CAPS: [usize; 7] = [1, 2, 3, 4, 5, 8, 16];

pub fn gen_flv(big: bool, asy: Option<bool>) -> Flv {
    let a = gen(2) == 0;
    let asy = if cfg!(feature = "full") { asy.unwrap_or(a) } else { true };
    let stat = if cfg!(feature = "alloc") { chance(1, 3) } else { true };
    let stat = unsafe { FORCE_STAT }.unwrap_or(stat);
    let i = if big {
        weighted(&[6, 6, 5, 4, 2, 2, 1])
    } else {
        weighted(&[8, 6, 2, 1, 0, 0, 0])
    };
    // (static channels cannot be given a policy)
    let pol = if unsafe { FORCE_STAT.is_some() } { false } else { !stat && gen(3) < 2 };
    Flv {
        asy,
        stat,
        pol,
        cap: CAPS[i],
    }
}

/// The memory of a static channel, given back at the end of the case.
pub struct Storage(*mut u8, unsafe fn(*mut u8));

impl Storage {
    /// Drops the channel's storage (all handles are gone).
    pub unsafe fn release(self) {
        crate::alloc::quarantined(|| (self.1)(self.0))
    }
}

pub fn leak<T>(v: T) -> (&'static T, Storage) {
    unsafe fn free<T>(p: *mut u8) {
        drop(Box::from_raw(p as *mut T))
    }
    let p = Box::into_raw(Box::new(v));
    (unsafe { &*p }, Storage(p as *mut u8, free::<T>))
}

pub struct Chan {
    pub tx: H<dyn Tx>,
    pub rx: H<dyn Rx>,
    pub store: Option<Storage>,
}

/// An owned handle that can be used as if it were 'static.
pub struct H<T: ?Sized + 'static>(*mut T);
impl<T: ?Sized> H<T> {
    pub fn new(b: Box<T>) -> H<T> {
        H(Box::into_raw(b))
    }
    pub fn r(&self) -> &'static T {
        unsafe { &*self.0 }
    }
    /// Drops the handle. Its memory is poisoned, not reused.
    pub fn drop(self) {
        crate::alloc::quarantined(|| unsafe {
            // (the last handle frees the channel, but none may allocate)
            let f = crate::alloc::counters().1;
            lib(|| core::ptr::drop_in_place(self.0));
            crate::alloc::restore((crate::alloc::counters().0, f));
            let l = core::alloc::Layout::for_value(&*self.0);
            if l.size() > 0 {
                std::alloc::dealloc(self.0 as *mut u8, l);
            }
        })
    }
    pub fn drop_unwinding(self) {
        rt::settle();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            struct D<T: ?Sized + 'static>(Option<H<T>>);
            impl<T: ?Sized> Drop for D<T> {
                fn drop(&mut self) {
                    self.0.take().unwrap().drop()
                }
            }
            let _d = D(Some(self));
            world::inject()
        }));
        debug_assert!(r.is_err());
    }
}

pub fn make(f: Flv) -> Chan {
    macro_rules! stat {
        ($m:path, $($n:literal)*) => {{
            type Ch<const N: usize> = $m;
            match f.cap {
                $($n => {
                    let (c, s) = leak(Ch::<$n>::new());
                    let (tx, rx) = c.split();
                    Chan { tx: H::new(Box::new(tx)), rx: H::new(Box::new(rx)), store: Some(s) }
                })*
                _ => unreachable!(),
            }
        }};
    }
    macro_rules! dynm {
        ($($m:ident)::*) => {
            if f.pol {
                let (tx, rx) = $($m)::*::with_recycle(f.cap, Pol::new());
                Chan { tx: H::new(Box::new(tx)), rx: H::new(Box::new(rx)), store: None }
            } else {
                let (tx, rx) = $($m)::*::channel::<Tok>(f.cap);
                Chan { tx: H::new(Box::new(tx)), rx: H::new(Box::new(rx)), store: None }
            }
        };
    }
    if f.stat {
        if f.asy {
            return stat!(mpsc::StaticChannel<Tok, N>, 1 2 3 4 5 8 16 33 100);
        }
        #[cfg(feature = "full")]
        return stat!(blocking::StaticChannel<Tok, N>, 1 2 3 4 5 8 16 33 100);
    }
    #[cfg(feature = "alloc")]
    {
        if f.asy {
            return dynm!(mpsc);
        }
        #[cfg(feature = "full")]
        return dynm!(mpsc::blocking);
    }
    #[allow(unreachable_code)]
    {
        unreachable!()
    }
}

// --- wakers ---------------------------------------------------------------------

pub struct Wk {
    /// thread (task) it wakes
    pub task: usize,
    /// clones alive
    pub refs: i32,
    pub wakes: u32,
}

#[derive(Default)]
pub struct WkTable {
    pub w: Vec<Wk>,
    /// most recent waker of each task
    pub latest: Vec<usize>,
    pub sy: Vec<rt::Sy>,
    /// countdown to a panic in `clone` (0: never)
    pub clone_panic: u32,
    pub clone_panics: u32,
    /// tasks whose next clone panics (concurrent suites)
    pub panics: Vec<bool>,
    /// sequential suites: call back when this waker is dropped
    pub on_drop: Option<usize>,
    /// waker indices woken, in order (sequential suites)
    pub log: Vec<usize>,
    pub sequential: bool,
    /// sequential suites: call back on the next wakeup
    pub on_wake: bool,
    /// futures were forgotten, and their wakers with them
    pub leaky: bool,
}

static mut WT: Option<WkTable> = None;
pub fn wt() -> &'static mut WkTable {
    unsafe { WT.get_or_insert_with(Default::default) }
}
pub fn wakers_reset(tasks: usize, sequential: bool) {
    let t = wt();
    t.w.clear();
    t.latest.clear();
    t.leaky = false;
    t.latest.resize(tasks, usize::MAX);
    t.sy.clear();
    t.sy.resize(tasks, Default::default());
    t.clone_panic = 0;
    t.clone_panics = 0;
    t.panics.clear();
    t.panics.resize(tasks, false);
    t.on_drop = None;
    t.log.clear();
    t.sequential = sequential;
    t.on_wake = false;
}

// Waker `i` is told from others by its data (`i / KIND`) and its vtable (`i % KIND`).
const KIND: usize = 4;

fn data(i: usize) -> *const () {
    (0x5A00_0000_0000usize + i / KIND * 8) as *const ()
}
fn index(p: *const (), k: usize) -> usize {
    let x = p as usize;
    let i = (x & 0xFFFF_FFFF) / 8 * KIND + k;
    if x & 0xFFFF_0000_0000 != 0x5A00_0000_0000 || i >= wt().w.len() {
        rt::fail("dangling", format!("a waker with garbage contents ({x:#x}) was used"));
        return 0;
    }
    i
}
unsafe fn vt_clone<const K: usize>(p: *const ()) -> RawWaker {
    let _n = NoLib::new();
    let i = index(p, K);
    check_alive(i, "clone");
    rt::step();
    if wt().clone_panic > 0 {
        wt().clone_panic -= 1;
        if wt().clone_panic == 0 {
            wt().clone_panics += 1;
            crate::tr!("    waker clone panics");
            world::inject();
        }
    }
    let t = wt().w[i].task;
    if !wt().sequential && wt().panics[t] && wt().w[i].refs == 1 {
        wt().panics[t] = false;
        crate::tr!("    waker clone panics");
        world::inject();
    }
    wt().w[i].refs += 1;
    RawWaker::new(p, &VT[K])
}
unsafe fn vt_wake<const K: usize>(p: *const ()) {
    let _n = NoLib::new();
    let i = index(p, K);
    check_alive(i, "wake");
    wake(i);
    wt().w[i].refs -= 1;
}
unsafe fn vt_wake_by_ref<const K: usize>(p: *const ()) {
    let _n = NoLib::new();
    let i = index(p, K);
    check_alive(i, "wake");
    wake(i);
}
unsafe fn vt_drop<const K: usize>(p: *const ()) {
    let _n = NoLib::new();
    let i = index(p, K);
    check_alive(i, "drop");
    wt().w[i].refs -= 1;
    if wt().on_drop == Some(i) {
        wt().on_drop = None;
        crate::chs::on_drop();
    }
}
const fn vt<const K: usize>() -> RawWakerVTable {
    RawWakerVTable::new(vt_clone::<K>, vt_wake::<K>, vt_wake_by_ref::<K>, vt_drop::<K>)
}
static VT: [RawWakerVTable; KIND] = [vt::<0>(), vt::<1>(), vt::<2>(), vt::<3>()];
fn check_alive(i: usize, what: &str) {
    if wt().w[i].refs <= 0 {
        rt::fail("dangling", format!("{what} of a waker that was already dropped"));
    }
}
fn wake(i: usize) {
    let t = wt().w[i].task;
    wt().w[i].wakes += 1;
    crate::tr!("    wake task {t} through waker {i}");
    if wt().sequential {
        wt().log.push(i);
        if wt().on_wake {
            crate::chs::on_wake(i);
        }
        return;
    }
    rt::step();
    if wt().latest[t] == i {
        rt::hb_release(&mut wt().sy[t]);
        rt::task_wake(t);
    }
    rt::step();
    crate::chc::on_wake();
}
/// A new waker for `task`, which becomes its most recent one when polled.
pub fn new_waker(task: usize) -> (usize, Waker) {
    let i = wt().w.len();
    wt().w.push(Wk {
        task,
        refs: 1,
        wakes: 0,
    });
    (i, unsafe { Waker::from_raw(RawWaker::new(data(i), &VT[i % KIND])) })
}
/// Wakers must all be gone when the channel and its futures are.
pub fn check_wakers() {
    if wt().leaky {
        return;
    }
    for (i, w) in wt().w.iter().enumerate() {
        if w.refs != 0 {
            rt::fail("waker", format!("{} clones of waker {i} (task {}) were never dropped", w.refs, w.task));
            return;
        }
    }
}

/// Drops a future: its memory is poisoned and kept out of circulation.
pub fn drop_fut<T>(f: BoxFut<T>) {
    unsafe {
        let raw: *mut dyn Future<Output = T> = Box::into_raw(Pin::into_inner_unchecked(f));
        lib(|| core::ptr::drop_in_place(raw));
        let l = core::alloc::Layout::for_value(&*raw);
        if l.size() > 0 {
            rt::freed(raw as *const u8 as usize, raw as *const u8 as usize + l.size());
            crate::alloc::quarantined(|| std::alloc::dealloc(raw as *mut u8, l));
        }
    }
}

pub const DURS: [Duration; 6] = [
    Duration::from_millis(10),
    Duration::from_millis(100),
    Duration::from_secs(1),
    Duration::ZERO,
    Duration::from_nanos(1),
    Duration::MAX,
];
