//! Concurrent channel suite: generated sender and receiver programs in every
//! flavour under generated schedules, judged by the linearizability search and
//! by what must not be asleep when nothing can run any more.
use crate::ch::{self, wt, BoxFut, Flv, Rx, Storage, Tx, DURS, H, RG, SG};
use crate::engine::{chance, env, gen, weighted, Failure, Report};
use crate::lin::{judge, pt, Event, Params, Pt, K};
use crate::rt::{self, fail, Cfg, Outcome, St};
use crate::tr;
use crate::world::{self, behav, lib, w, PolEv, Tok};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::task::Context;
use std::time::Duration;
use thingbuf::mpsc::errors::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Role {
    None,
    Tx,
    Rx,
}

pub struct C {
    flv: Flv,
    ev: Vec<Event>,
    next_val: u64,
    serial: HashMap<u64, u32>,
    claims: u64,
    taken: u64,
    held_push: i32,
    held_pop: i32,
    published: i32,
    popped: i32,
    role: Vec<Role>,
    cancelling: Vec<bool>,
    opseq: Vec<u32>,
    gated: Vec<usize>,
    rx_dropped: bool,
    txs: i32,
    stall: Option<(Vec<(usize, u32)>, i32)>,
    stalls_checked: u32,
    ok: u32,
    cancelled: u32,
    clone_panics: u32,
    timeouts: u32,
    closed: u32,
    waited: u32,
    kicks: u32,
    unwound: u32,
    /// a second thread uses the receiver too
    helping: bool,
    shared: bool,
    /// `is_closed` has said yes
    known_closed: bool,
    joining: Option<usize>,
    joined: rt::Sy,
    /// what threads do inside wakeups: how many to skip first, what
    inside: std::collections::VecDeque<(u32, u32)>,
    inside_now: bool,
    inside_done: u32,
    mine: Vec<Mine>,
}

/// The handle a thread may use while it is inside a wakeup.
#[derive(Clone, Copy)]
enum Mine {
    None,
    Tx(&'static dyn Tx),
    Rx(&'static dyn Rx),
}

/// A waker was woken by the current thread, inside some operation.
pub fn on_wake() {
    let Some(cs) = (unsafe { (*CASE.0.get()).as_mut() }) else { return };
    if cs.inside.is_empty() || cs.inside_now || std::thread::panicking() {
        return;
    }
    let t = rt::cur();
    if let Mine::None = cs.mine[t] {
        return;
    }
    if cs.inside[0].0 > 0 {
        cs.inside[0].0 -= 1;
        return;
    }
    let (_, k) = cs.inside.pop_front().unwrap();
    cs.inside_now = true;
    cs.inside_done += 1;
    tr!("    inside the wakeup:");
    let (log, seq) = (world::log_len(), cs.opseq[t]);
    rt::nested(|| {
        let mut th = Thr { held: Vec::new() };
        match c().mine[t] {
            Mine::None => {}
            Mine::Tx(h) => match k {
                0 => send_val(h, How::Try),
                _ => send_ref(h, How::Try, &mut th),
            },
            Mine::Rx(h) => match k {
                0 => {
                    recv_val(h, How::Try);
                }
                1 => {
                    recv_ref(h, How::Try, &mut th);
                }
                _ => is_closed(h),
            },
        }
        th.release_all();
    });
    world::log_truncate(log);
    c().opseq[t] = seq;
    c().inside_now = false;
}

struct Glob(std::cell::UnsafeCell<Option<C>>);
unsafe impl Sync for Glob {}
static CASE: Glob = Glob(std::cell::UnsafeCell::new(None));
fn c() -> &'static mut C {
    unsafe { (*CASE.0.get()).as_mut().unwrap() }
}

fn ev(k: K, inv: Pt, resp: Pt) {
    behav(match k {
        K::Claim(v) => 1 + v * 16,
        K::Pub(v) => 2 + v * 16,
        K::Pop(v) => 3 + v * 16,
        K::Rel(v) => 4 + v * 16,
        K::Full => 5,
        K::Empty => 6,
        K::RxDrop => 7,
        K::SendClosed => 8,
        K::RecvClosed => 9,
        K::IsClosed(b) => 10 + b as u64 * 16,
        _ => 11,
    } + rt::cur() as u64 * 1000003);
    c().ev.push(Event { k, inv, resp });
}

fn fresh() -> u64 {
    c().next_val += 1;
    c().next_val
}

// --- programs ---------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cancel {
    Never,
    AtOnce,
    After(u32),
    Woken,
}

/// How a future is driven.
#[derive(Clone, Copy, Debug)]
struct M {
    new_waker: bool,
    repoll: u32,
    cancel: Cancel,
    /// the first poll that clones the waker panics there
    clone_panic: bool,
}

#[derive(Clone, Copy, Debug)]
enum How {
    Try,
    Wait(M),
    Timed(Duration),
    /// receivers: `poll_recv`, or the iterator of blocking receivers
    Alt(M),
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Val(How),
    Ref(How),
    Release(u32, bool),
    CloneSwap(bool),
    IsClosed,
    Steps(u32),
}

fn gen_m(unwind: bool) -> M {
    M {
        new_waker: chance(1, 3),
        repoll: if chance(1, 4) { 1 + gen(2) } else { 0 },
        cancel: match weighted(&[10, 1, 2, 2]) {
            0 => Cancel::Never,
            1 => Cancel::AtOnce,
            2 => Cancel::After(1 + gen(6)),
            _ => Cancel::Woken,
        },
        clone_panic: unwind && chance(1, 3),
    }
}

fn gen_how(asy: bool, rx: bool, unwind: bool) -> How {
    match weighted(&[4, 8, if asy { 0 } else { 5 }, if rx { 2 } else { 0 }]) {
        0 => How::Try,
        1 => How::Wait(gen_m(unwind && asy)),
        2 => How::Timed(DURS[gen(6) as usize]),
        _ => How::Alt(gen_m(unwind && asy)),
    }
}

fn gen_op(asy: bool, rx: bool, unwind: bool) -> Op {
    match weighted(&[7, 6, 3, if rx { 0 } else { 1 }, if rx { 1 } else { 0 }, 1]) {
        0 => Op::Val(gen_how(asy, rx, unwind)),
        1 => Op::Ref(gen_how(asy, rx, unwind)),
        2 => Op::Release(gen(4), unwind && chance(1, 3)),
        3 => Op::CloneSwap(unwind && chance(1, 3)),
        4 => Op::IsClosed,
        _ => Op::Steps(1 + gen(8)),
    }
}

/// Two threads that wait for messages at once: the channel wakes the one it has heard from last, so
/// neither may wait for ever.
fn bounded(ops: &mut [Op], asy: bool) {
    for op in ops {
        if let Op::Val(h) | Op::Ref(h) = op {
            match h {
                How::Wait(m) | How::Alt(m) if asy => {
                    if !matches!(m.cancel, Cancel::After(_)) {
                        m.cancel = Cancel::AtOnce;
                    }
                }
                How::Wait(m) | How::Alt(m) => *h = How::Timed(DURS[m.repoll as usize % 3]),
                How::Timed(d) if *d > DURS[2] => *d = DURS[0],
                _ => {}
            }
        }
    }
}

// --- driving futures --------------------------------------------------------------

fn drive<T>(mut f: BoxFut<T>, m: M) -> Option<T> {
    let t = rt::cur();
    let (mut wi, mut wk) = ch::new_waker(t);
    let mut repolls = m.repoll;
    loop {
        wt().latest[t] = wi;
        rt::task_clear();
        let r = {
            let mut cx = Context::from_waker(&wk);
            if m.clone_panic {
                wt().panics[t] = true;
                let r = catch_unwind(AssertUnwindSafe(|| lib(|| f.as_mut().poll(&mut cx))));
                wt().panics[t] = false;
                match r {
                    Ok(r) => r,
                    Err(p) if p.is::<world::Injected>() => {
                        c().clone_panics += 1;
                        wt().latest[t] = usize::MAX;
                        ch::drop_fut(f);
                        return None;
                    }
                    Err(p) => std::panic::resume_unwind(p),
                }
            } else {
                lib(|| f.as_mut().poll(&mut cx))
            }
        };
        if let std::task::Poll::Ready(v) = r {
            wt().latest[t] = usize::MAX;
            ch::drop_fut(f);
            return Some(v);
        }
        c().waited += 1;
        let quit = match m.cancel {
            Cancel::AtOnce => true,
            Cancel::After(k) => {
                for _ in 0..k {
                    rt::step();
                }
                true
            }
            _ if repolls > 0 => {
                repolls -= 1;
                rt::step();
                false
            }
            Cancel::Woken => {
                c().cancelling[t] = true;
                rt::task_wait();
                c().cancelling[t] = false;
                true
            }
            Cancel::Never => {
                rt::task_wait();
                rt::hb_acquire(&wt().sy[t]);
                false
            }
        };
        if quit {
            c().cancelled += 1;
            ch::drop_fut(f);
            wt().latest[t] = usize::MAX;
            return None;
        }
        if m.new_waker {
            let (i, k) = ch::new_waker(t);
            wi = i;
            wk = k;
        }
    }
}

struct Timer {
    d: Duration,
    start: Duration,
}
fn timer(d: Duration) -> Timer {
    rt::op_limit(d);
    Timer {
        d,
        start: rt::rt().now,
    }
}
impl Timer {
    fn timed_out(&self, what: &str) {
        c().timeouts += 1;
        let el = rt::rt().now - self.start;
        if el < self.d {
            fail("early", format!("{what} with limit {:?} timed out after {el:?}", self.d));
        }
    }
}

/// blocking calls: what is left on the stack must not be used again
fn blocking<R>(f: impl FnOnce() -> R) -> R {
    #[inline(never)]
    fn run<R>(f: impl FnOnce() -> R) -> R {
        lib(f)
    }
    let mark = 0u8;
    let r = run(f);
    let top = core::hint::black_box(&mark) as *const u8 as usize;
    rt::freed(top - 16384, top);
    crate::alloc::scrub();
    r
}

// --- operations -------------------------------------------------------------------

enum Held {
    S(SG, u64),
    R(RG, u64),
}

struct Thr {
    held: Vec<Held>,
}

impl Thr {
    fn release(&mut self, i: usize, unwind: bool) {
        let h = self.held.remove(i);
        if unwind {
            rt::settle();
            c().unwound += 1;
        }
        rt::op_begin("guard release", true);
        let i;
        let (push, v) = match h {
            Held::S(mut g, v) => {
                check_guard(g.get(), v, "send");
                c().held_push -= 1;
                i = pt();
                drop_guard(g, unwind);
                (true, v)
            }
            Held::R(mut g, v) => {
                check_guard(g.get(), v, "receive");
                c().held_pop -= 1;
                i = pt();
                drop_guard(g, unwind);
                (false, v)
            }
        };
        let e = pt();
        rt::op_end();
        tr!("release {} guard {v}{}", if push { "send" } else { "receive" }, if unwind { " while unwinding" } else { "" });
        if push {
            c().published += 1;
        }
        ev(if push { K::Pub(v) } else { K::Rel(v) }, i, e);
    }
    fn release_all(&mut self) {
        while !self.held.is_empty() {
            self.release(0, false);
        }
    }
}

fn check_guard(t: &Tok, v: u64, what: &str) {
    t.check("guard");
    if t.val != v {
        fail("torn", format!("element changed under a {what} guard: {v} became {}", t.val));
    }
    world::guard_off(t);
}

fn drop_guard<G>(g: G, unwind: bool) {
    if unwind {
        let r = catch_unwind(AssertUnwindSafe(|| {
            lib(move || {
                let _g = g;
                world::inject();
            })
        }));
        debug_assert!(r.is_err());
    } else {
        lib(move || drop(g));
    }
}

fn one_policy_call(from: usize, what: &str) {
    let evs = world::log_now()[from..].to_vec();
    if evs.len() != 1 {
        fail("recycle", format!("{what}: {} policy calls for one reservation: {:?}", evs.len(), evs));
    }
}

enum Sent {
    Ok,
    Full(Tok),
    Closed(Tok),
    Timeout(Tok),
    Cancelled,
}

fn send_val(tx: &'static dyn Tx, how: How) {
    let v = fresh();
    let tok = Tok::user(v);
    let serial = tok.serial;
    let from = world::log_len();
    let name = match how {
        How::Try => "try_send",
        How::Timed(_) => "send_timeout",
        _ => "send",
    };
    rt::op_begin(name, matches!(how, How::Try));
    let i = pt();
    let r = match how {
        How::Try => match lib(|| tx.try_send(tok)) {
            Ok(()) => Sent::Ok,
            Err(TrySendError::Full(t)) => Sent::Full(t),
            Err(TrySendError::Closed(t)) => Sent::Closed(t),
            Err(_) => unreachable!(),
        },
        How::Wait(m) | How::Alt(m) => {
            let r = if c().flv.asy {
                drive(tx.send_fut(tok), m)
            } else {
                Some(blocking(|| tx.send(tok)))
            };
            match r {
                None => Sent::Cancelled,
                Some(Ok(())) => Sent::Ok,
                Some(Err(e)) => Sent::Closed(e.into_inner()),
            }
        }
        #[cfg(feature = "full")]
        How::Timed(d) => {
            let tm = timer(d);
            match blocking(|| tx.send_timeout(tok, d)) {
                Ok(()) => Sent::Ok,
                Err(SendTimeoutError::Timeout(t)) => {
                    tm.timed_out(name);
                    Sent::Timeout(t)
                }
                Err(SendTimeoutError::Closed(t)) => Sent::Closed(t),
                Err(_) => unreachable!(),
            }
        }
        #[cfg(not(feature = "full"))]
        How::Timed(_) => unreachable!(),
    };
    let e = pt();
    rt::op_end();
    c().opseq[rt::cur()] += 1;
    let back = |t: Tok, why: &str| {
        tr!("{name}({v}) -> {why}");
        t.check("returned value");
        if t.serial != serial || t.val != v {
            fail("giveback", format!("{name}({v}) failed as {why} but returned {}", t.val));
        }
        world::check_no_policy(from, name);
    };
    match r {
        Sent::Ok => {
            tr!("{name}({v}) -> ok");
            c().ok += 1;
            c().claims += 1;
            c().serial.insert(v, serial);
            c().published += 1;
            ev(K::Claim(v), i, e);
            ev(K::Pub(v), i, e);
            one_policy_call(from, name);
        }
        Sent::Full(t) => {
            back(t, "full");
            ev(K::Full, i, e);
        }
        Sent::Timeout(t) => {
            back(t, "timeout");
            ev(K::Full, i, e);
        }
        Sent::Closed(t) => {
            back(t, "closed");
            c().closed += 1;
            ev(K::SendClosed, i, e);
        }
        Sent::Cancelled => {
            tr!("{name}({v}) -> cancelled");
            if w().toks[serial as usize].alive {
                fail("lifecycle", format!("{name}({v}): the future was dropped but not its value"));
            }
            world::check_no_policy(from, name);
        }
    }
}

enum SentRef {
    Ok(SG),
    Full,
    Closed,
    Timeout,
    Cancelled,
}

fn send_ref(tx: &'static dyn Tx, how: How, th: &mut Thr) {
    let from = world::log_len();
    let name = match how {
        How::Try => "try_send_ref",
        How::Timed(_) => "send_ref_timeout",
        _ => "send_ref",
    };
    rt::op_begin(name, matches!(how, How::Try));
    let i = pt();
    let r = match how {
        How::Try => match lib(|| tx.try_send_ref()) {
            Ok(g) => SentRef::Ok(g),
            Err(TrySendError::Full(())) => SentRef::Full,
            Err(TrySendError::Closed(())) => SentRef::Closed,
            Err(_) => unreachable!(),
        },
        How::Wait(m) | How::Alt(m) => {
            let r = if c().flv.asy {
                drive(tx.send_ref_fut(), m)
            } else {
                Some(blocking(|| tx.send_ref()))
            };
            match r {
                None => SentRef::Cancelled,
                Some(Ok(g)) => SentRef::Ok(g),
                Some(Err(_)) => SentRef::Closed,
            }
        }
        #[cfg(feature = "full")]
        How::Timed(d) => {
            let tm = timer(d);
            match blocking(|| tx.send_ref_timeout(d)) {
                Ok(g) => SentRef::Ok(g),
                Err(SendTimeoutError::Timeout(())) => {
                    tm.timed_out(name);
                    SentRef::Timeout
                }
                Err(SendTimeoutError::Closed(())) => SentRef::Closed,
                Err(_) => unreachable!(),
            }
        }
        #[cfg(not(feature = "full"))]
        How::Timed(_) => unreachable!(),
    };
    let e = pt();
    rt::op_end();
    c().opseq[rt::cur()] += 1;
    match r {
        SentRef::Ok(mut g) => {
            let v = fresh();
            tr!("{name} -> guard, writes {v}");
            c().ok += 1;
            c().claims += 1;
            c().held_push += 1;
            world::guard_on(g.get(), "send");
            world::check_reserved(g.get(), from, name);
            ev(K::Claim(v), i, e);
            rt::step();
            g.get().set(v);
            c().serial.insert(v, g.get().serial);
            th.held.push(Held::S(g, v));
            return;
        }
        SentRef::Full => {
            tr!("{name} -> full");
            ev(K::Full, i, e);
        }
        SentRef::Timeout => {
            tr!("{name} -> timeout");
            ev(K::Full, i, e);
        }
        SentRef::Closed => {
            tr!("{name} -> closed");
            c().closed += 1;
            ev(K::SendClosed, i, e);
        }
        SentRef::Cancelled => {
            tr!("{name} -> cancelled");
        }
    }
    world::check_no_policy(from, name);
}

enum Got<T> {
    Ok(T),
    Empty,
    Closed,
    Timeout,
    Cancelled,
}

fn received(t: &Tok, what: &str) {
    t.check(what);
    c().popped += 1;
    c().ok += 1;
    match c().serial.get(&t.val) {
        Some(&s) if s == t.serial => {}
        Some(&s) => fail("recycle", format!("{what}: value {} was written to element #{s} but is shown in #{}", t.val, t.serial)),
        None => {} // the order check names it
    }
}

fn finish_recv<T>(r: Got<T>, i: Pt, e: Pt, name: &str, from: usize) -> (Option<T>, bool) {
    // whoever has seen that all senders are gone also sees what they have sent, whatever the memory order
    if c().known_closed && !c().shared && matches!(r, Got::Empty | Got::Timeout) {
        let n = |f: fn(&K) -> bool| c().ev.iter().filter(|e| f(&e.k)).count();
        if n(|k| matches!(k, K::Pub(_))) > n(|k| matches!(k, K::Pop(_))) {
            fail("empty", format!("{name} finds nothing although the channel is known to be closed and a message is left"));
        }
    }
    match r {
        Got::Ok(t) => return (Some(t), false),
        Got::Empty => {
            tr!("{name} -> empty");
            ev(K::Empty, i, e);
        }
        Got::Timeout => {
            tr!("{name} -> timeout");
            ev(K::Empty, i, e);
        }
        Got::Closed => {
            tr!("{name} -> closed");
            c().closed += 1;
            ev(K::RecvClosed, i, e);
            world::check_no_policy(from, name);
            return (None, true);
        }
        Got::Cancelled => {
            tr!("{name} -> cancelled");
        }
    }
    world::check_no_policy(from, name);
    (None, false)
}

struct PollFut<F>(F);
impl<T, F: FnMut(&mut Context<'_>) -> std::task::Poll<T> + Unpin> std::future::Future for PollFut<F> {
    type Output = T;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut Context<'_>) -> std::task::Poll<T> {
        (self.0)(cx)
    }
}

/// Returns true if the channel reported its end.
fn recv_val(rx: &'static dyn Rx, how: How) -> bool {
    let from = world::log_len();
    let name = match how {
        How::Try => "try_recv",
        How::Timed(_) => "recv_timeout",
        How::Alt(_) => "poll_recv",
        _ => "recv",
    };
    rt::op_begin(name, matches!(how, How::Try));
    let i = pt();
    let opt = |r: Option<Option<Tok>>| match r {
        None => Got::Cancelled,
        Some(None) => Got::Closed,
        Some(Some(t)) => Got::Ok(t),
    };
    let r = match how {
        How::Try => match lib(|| rx.try_recv()) {
            Ok(t) => Got::Ok(t),
            Err(TryRecvError::Empty) => Got::Empty,
            Err(TryRecvError::Closed) => Got::Closed,
            Err(_) => unreachable!(),
        },
        How::Wait(m) if c().flv.asy => opt(drive(rx.recv_fut(), m)),
        How::Alt(m) if c().flv.asy => opt(drive(Box::pin(PollFut(move |cx: &mut Context<'_>| rx.poll_recv(cx))), m)),
        How::Wait(_) | How::Alt(_) => opt(Some(blocking(|| rx.recv()))),
        #[cfg(feature = "full")]
        How::Timed(d) => {
            let tm = timer(d);
            match blocking(|| rx.recv_timeout(d)) {
                Ok(t) => Got::Ok(t),
                Err(RecvTimeoutError::Timeout) => {
                    tm.timed_out(name);
                    Got::Timeout
                }
                Err(RecvTimeoutError::Closed) => Got::Closed,
                Err(_) => unreachable!(),
            }
        }
        #[cfg(not(feature = "full"))]
        How::Timed(_) => unreachable!(),
    };
    let e = pt();
    rt::op_end();
    c().opseq[rt::cur()] += 1;
    let (t, end) = finish_recv(r, i, e, name, from);
    if let Some(t) = t {
        tr!("{name} -> {} (#{})", t.val, t.serial);
        received(&t, name);
        if let world::Own::Guard = t.info().own {
            fail("alias", format!("{name} returned element #{} while a guard refers to it", t.serial));
        }
        c().taken += 1;
        ev(K::Pop(t.val), i, e);
        ev(K::Rel(t.val), i, e);
        match world::log_now()[from..] {
            [PolEv::New(_)] => {}
            ref o => fail("recycle", format!("{name}: policy calls {o:?}, expected one new element")),
        }
    }
    end
}

fn recv_ref(rx: &'static dyn Rx, how: How, th: &mut Thr) -> bool {
    let from = world::log_len();
    let name = match how {
        How::Try => "try_recv_ref",
        How::Timed(_) => "recv_ref_timeout",
        How::Alt(_) => "poll_recv_ref/next",
        _ => "recv_ref",
    };
    rt::op_begin(name, matches!(how, How::Try));
    let i = pt();
    let opt = |r: Option<Option<RG>>| match r {
        None => Got::Cancelled,
        Some(None) => Got::Closed,
        Some(Some(t)) => Got::Ok(t),
    };
    let r = match how {
        How::Try => match lib(|| rx.try_recv_ref()) {
            Ok(t) => Got::Ok(t),
            Err(TryRecvError::Empty) => Got::Empty,
            Err(TryRecvError::Closed) => Got::Closed,
            Err(_) => unreachable!(),
        },
        How::Wait(m) if c().flv.asy => opt(drive(rx.recv_ref_fut(), m)),
        How::Alt(m) if c().flv.asy => opt(drive(Box::pin(PollFut(move |cx: &mut Context<'_>| rx.poll_recv_ref(cx))), m)),
        How::Wait(_) => opt(Some(blocking(|| rx.recv_ref()))),
        How::Alt(_) => opt(Some(blocking(|| rx.next()))),
        #[cfg(feature = "full")]
        How::Timed(d) => {
            let tm = timer(d);
            match blocking(|| rx.recv_ref_timeout(d)) {
                Ok(t) => Got::Ok(t),
                Err(RecvTimeoutError::Timeout) => {
                    tm.timed_out(name);
                    Got::Timeout
                }
                Err(RecvTimeoutError::Closed) => Got::Closed,
                Err(_) => unreachable!(),
            }
        }
        #[cfg(not(feature = "full"))]
        How::Timed(_) => unreachable!(),
    };
    let e = pt();
    rt::op_end();
    c().opseq[rt::cur()] += 1;
    let (g, end) = finish_recv(r, i, e, name, from);
    if let Some(mut g) = g {
        world::guard_on(g.get(), "receive");
        received(g.get(), name);
        let v = g.get().val;
        tr!("{name} -> {v} (#{})", g.get().serial);
        ev(K::Pop(v), i, e);
        c().held_pop += 1;
        world::check_no_policy(from, name);
        th.held.push(Held::R(g, v));
    }
    end
}

fn is_closed(rx: &'static dyn Rx) {
    rt::op_begin("is_closed", true);
    let i = pt();
    let b = lib(|| rx.is_closed());
    let e = pt();
    rt::op_end();
    tr!("is_closed -> {b}");
    c().known_closed |= b;
    ev(K::IsClosed(b), i, e);
}

fn drop_tx(h: H<dyn Tx>, unwind: bool) {
    rt::op_begin("sender drop", true);
    let i = pt();
    if unwind {
        c().unwound += 1;
        h.drop_unwinding();
    } else {
        h.drop();
    }
    let e = pt();
    rt::op_end();
    tr!("sender dropped{}", if unwind { " while unwinding" } else { "" });
    c().txs -= 1;
    ev(K::TxCount, i, e);
    ev(K::TxClose, i, e);
}

fn drop_rx(h: H<dyn Rx>, unwind: bool) {
    rt::op_begin("receiver drop", true);
    let i = pt();
    if unwind {
        c().unwound += 1;
        h.drop_unwinding();
    } else {
        h.drop();
    }
    let e = pt();
    rt::op_end();
    tr!("receiver dropped{}", if unwind { " while unwinding" } else { "" });
    c().rx_dropped = true;
    ev(K::RxDrop, i, e);
}

fn gate() {
    c().gated.push(rt::cur());
    rt::gate_wait();
}

fn waits(how: How) -> bool {
    !matches!(how, How::Try)
}

fn sender(mut h: H<dyn Tx>, ops: Vec<Op>, hold: bool, unwind: bool) {
    let mut th = Thr { held: Vec::new() };
    c().mine[rt::cur()] = Mine::Tx(h.r());
    for op in ops {
        match op {
            Op::Val(how) => {
                if waits(how) {
                    th.release_all();
                }
                send_val(h.r(), how);
            }
            Op::Ref(how) => {
                if waits(how) {
                    th.release_all();
                }
                send_ref(h.r(), how, &mut th);
            }
            Op::Release(k, un) => {
                if !th.held.is_empty() {
                    let i = k as usize % th.held.len();
                    th.release(i, un);
                }
            }
            Op::CloneSwap(un) => {
                th.release_all();
                rt::op_begin("sender clone", true);
                let i = pt();
                let n = H::new(h.r().dup());
                let e = pt();
                rt::op_end();
                c().txs += 1;
                tr!("sender cloned");
                ev(K::TxClone, i, e);
                c().mine[rt::cur()] = Mine::None;
                drop_tx(std::mem::replace(&mut h, n), un);
                c().mine[rt::cur()] = Mine::Tx(h.r());
            }
            Op::IsClosed => {}
            Op::Steps(n) => (0..n).for_each(|_| rt::step()),
        }
    }
    if hold && !th.held.is_empty() {
        gate();
    }
    th.release_all();
    c().mine[rt::cur()] = Mine::None;
    drop_tx(h, unwind);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Drain(bool),
    /// asks whether the channel is closed, so many times, and empties it without waiting if it is
    Ask(u32),
    Drop,
}

/// Another thread that shares the receiver; it never waits for ever.
fn helper(rx: &'static dyn Rx, ops: Vec<Op>, two: bool) {
    let mut th = Thr { held: Vec::new() };
    for op in ops {
        match op {
            Op::Val(how) => {
                recv_val(rx, if two { how } else { How::Try });
            }
            Op::Ref(how) => {
                recv_ref(rx, if two { how } else { How::Try }, &mut th);
            }
            Op::Release(k, un) => {
                if !th.held.is_empty() {
                    let i = k as usize % th.held.len();
                    th.release(i, un);
                }
            }
            Op::IsClosed => is_closed(rx),
            Op::CloneSwap(_) => {}
            Op::Steps(n) => (0..n).for_each(|_| rt::step()),
        }
    }
    th.release_all();
    rt::hb_release(&mut c().joined);
    c().helping = false;
    if let Some(t) = c().joining {
        rt::gate_open(t);
    }
}

fn receiver(h: H<dyn Rx>, ops: Vec<Op>, rounds: Vec<u32>, end: End, unwind: bool) {
    let mut th = Thr { held: Vec::new() };
    let rx = h.r();
    c().mine[rt::cur()] = Mine::Rx(rx);
    for op in ops {
        match op {
            Op::Val(how) => {
                if waits(how) {
                    th.release_all();
                }
                recv_val(rx, how);
            }
            Op::Ref(how) => {
                if waits(how) {
                    th.release_all();
                }
                recv_ref(rx, how, &mut th);
            }
            Op::Release(k, un) => {
                if !th.held.is_empty() {
                    let i = k as usize % th.held.len();
                    th.release(i, un);
                }
            }
            Op::IsClosed => is_closed(rx),
            Op::CloneSwap(_) => {}
            Op::Steps(n) => (0..n).for_each(|_| rt::step()),
        }
    }
    th.release_all();
    for n in rounds {
        gate();
        for k in 0..n {
            if k % 2 == 0 {
                recv_ref(rx, How::Try, &mut th);
                th.release_all();
            } else {
                recv_val(rx, How::Try);
            }
        }
    }
    if let End::Ask(n) = end {
        for _ in 0..n {
            is_closed(rx);
            if c().known_closed {
                break;
            }
            (0..3).for_each(|_| rt::step());
        }
        // (the channel may still be closing: reports of its end come when they come)
        for _ in 0..8 {
            if !c().known_closed {
                break;
            }
            let fin = if n % 2 == 0 {
                let f = recv_ref(rx, How::Try, &mut th);
                th.release_all();
                f
            } else {
                recv_val(rx, How::Try)
            };
            if fin {
                break;
            }
        }
    }
    if let End::Drain(by_ref) = end {
        let m = M {
            new_waker: false,
            repoll: 0,
            cancel: Cancel::Never,
            clone_panic: false,
        };
        loop {
            let fin = if by_ref {
                let f = recv_ref(rx, How::Wait(m), &mut th);
                th.release_all();
                f
            } else {
                recv_val(rx, How::Wait(m))
            };
            if fin {
                break;
            }
        }
        is_closed(rx);
        recv_val(rx, How::Try);
    }
    if c().helping {
        c().joining = Some(rt::cur());
        rt::gate_wait();
    }
    rt::hb_acquire(&c().joined);
    c().mine[rt::cur()] = Mine::None;
    drop_rx(h, unwind);
}

/// Nothing can run and no timer is pending: who may still be waiting?
fn check_quiescent() -> Option<Failure> {
    let cs = c();
    let r = rt::rt();
    let desc = || {
        format!(
            "capacity {}, {} sent and not received, {} send guards and {} receive guards held, {} senders, receiver {}; threads: {}",
            cs.flv.cap,
            cs.published - cs.popped,
            cs.held_push,
            cs.held_pop,
            cs.txs,
            if cs.rx_dropped { "gone" } else { "there" },
            r.th.iter().enumerate().filter(|(_, t)| t.st != St::Done).map(|(i, t)| format!("{i}:{}:{:?}", t.op, t.st)).collect::<Vec<_>>().join(", ")
        )
    };
    let queued = cs.published - cs.popped;
    let mut tx_waiting = Vec::new();
    for (i, t) in r.th.iter().enumerate() {
        match t.st {
            St::Lock(_) => {
                return Some(Failure {
                    kind: "deadlock",
                    msg: format!("thread {i} waits for a lock forever: {}", desc()),
                })
            }
            St::Park(_) | St::Task => {
                if t.nonwaiting {
                    return Some(Failure {
                        kind: "hang",
                        msg: format!("`{}` waits: {}", t.op, desc()),
                    });
                }
                match cs.role[i] {
                    Role::Rx => {
                        if cs.cancelling[i] {
                            // about to give up, but it must have been woken too
                        }
                        if queued > 0 && cs.held_push == 0 {
                            return Some(Failure {
                                kind: "rxlost",
                                msg: format!("the receiver sleeps although a message is there: {}", desc()),
                            });
                        }
                        if cs.txs == 0 {
                            return Some(Failure {
                                kind: "rxlost",
                                msg: format!("the receiver sleeps although every sender is gone: {}", desc()),
                            });
                        }
                    }
                    Role::Tx => {
                        if cs.rx_dropped {
                            return Some(Failure {
                                kind: "closelost",
                                msg: format!("a sender sleeps although the receiver is gone: {}", desc()),
                            });
                        }
                        if queued == 0 && cs.held_push == 0 && cs.held_pop == 0 {
                            return Some(Failure {
                                kind: "txlost",
                                msg: format!("a sender sleeps although the channel is empty: {}", desc()),
                            });
                        }
                        if !cs.cancelling[i] {
                            tx_waiting.push((i, cs.opseq[i]));
                        }
                    }
                    Role::None => {}
                }
            }
            _ => {}
        }
    }
    if let Some((was, popped)) = cs.stall.take() {
        if cs.popped > popped && cs.held_pop == 0 && !cs.rx_dropped && ((queued + cs.held_push) as usize) < cs.flv.cap {
            cs.stalls_checked += 1;
            if was.iter().all(|x| tx_waiting.contains(x)) {
                return Some(Failure {
                    kind: "txstall",
                    msg: format!("{} messages were received from a full channel but no waiting sender went on: {}", cs.popped - popped, desc()),
                });
            }
        }
    }
    if queued as usize == cs.flv.cap && cs.held_push == 0 && cs.held_pop == 0 && !tx_waiting.is_empty() {
        cs.stall = Some((tx_waiting, cs.popped));
    }
    None
}

/// Lets one of the deliberately stopped threads go on.
fn kick() -> bool {
    let cs = c();
    let mut who: Vec<(usize, bool)> = cs.gated.iter().map(|&t| (t, true)).collect();
    for (i, t) in rt::rt().th.iter().enumerate() {
        if t.st == St::Task && cs.cancelling[i] {
            who.push((i, false));
        }
    }
    if who.is_empty() {
        return false;
    }
    let (t, is_gate) = who[env(who.len() as u32) as usize];
    cs.kicks += 1;
    if cs.role[t] != Role::Rx || !is_gate {
        cs.stall = None;
    }
    if is_gate {
        cs.gated.retain(|&x| x != t);
        rt::gate_open(t);
    } else {
        rt::task_wake(t);
    }
    true
}

fn begin_case(flv: Flv, describe: bool, cfg: Cfg) -> ch::Chan {
    world::reset(describe);
    ch::wakers_reset(rt::MAXT, false);
    crate::alloc::case_begin();
    rt::begin(cfg);
    let chan = ch::make(flv);
    unsafe {
        *CASE.0.get() = Some(C {
            flv,
            ev: Vec::new(),
            next_val: 0,
            serial: HashMap::new(),
            claims: 0,
            taken: 0,
            held_push: 0,
            held_pop: 0,
            published: 0,
            popped: 0,
            role: vec![Role::None; rt::MAXT],
            cancelling: vec![false; rt::MAXT],
            opseq: vec![0; rt::MAXT],
            gated: Vec::new(),
            rx_dropped: false,
            txs: 0,
            stall: None,
            stalls_checked: 0,
            ok: 0,
            cancelled: 0,
            clone_panics: 0,
            timeouts: 0,
            closed: 0,
            waited: 0,
            kicks: 0,
            unwound: 0,
            helping: false,
            shared: false,
            known_closed: false,
            joining: None,
            joined: Default::default(),
            inside: Default::default(),
            inside_now: false,
            inside_done: 0,
            mine: vec![Mine::None; rt::MAXT],
        });
    }
    chan
}

fn teardown(store: Option<Storage>) {
    rt::op_begin("channel drop", true);
    if let Some(s) = store {
        unsafe { s.release() };
    }
    rt::op_end();
    world::check_all_dropped();
    ch::check_wakers();
    let expect = c().claims.min(c().flv.cap as u64) + c().taken;
    if w().news != expect {
        fail(
            "recycle",
            format!("{} elements were made by the policy, expected {expect} ({} reservations, {} taken by value)", w().news, c().claims, c().taken),
        );
    }
}

/// How senders say that they are gone: short programs without waiting, and a receiver that asks.
pub fn chc_ends(describe: bool) -> Report {
    conc2(describe, true, None, true)
}

fn conc(describe: bool, weak: bool, asy: Option<bool>) -> Report {
    conc2(describe, weak, asy, false)
}

fn conc2(describe: bool, weak: bool, asy: Option<bool>, ends: bool) -> Report {
    let flv = ch::gen_flv(false, asy);
    let nth = if ends { 2 + gen(2) as usize } else { 1 + weighted(&[4, 5, 3]) };
    let unwind = ch::panics(8);
    let prefill = gen(flv.cap as u32 + 1) as usize;
    let prefill = if ends { prefill.min(1) } else { prefill };
    let base = ch::position(flv.cap);
    let mut progs = Vec::new();
    for _ in 0..nth {
        if ends {
            let p = (0..gen(3))
                .map(|_| match gen(6) {
                    0 => Op::CloneSwap(false),
                    1 => Op::Steps(1 + gen(4)),
                    k if k % 2 == 0 => Op::Val(How::Try),
                    _ => Op::Ref(How::Try),
                })
                .collect();
            progs.push((p, false, false));
            continue;
        }
        let n = 1 + gen(if nth == 1 { 5 } else if nth == 2 { 4 } else { 3 });
        let p: Vec<Op> = (0..n).map(|_| gen_op(flv.asy, false, unwind)).collect();
        progs.push((p, chance(1, 4), unwind && chance(1, 3)));
    }
    let n = gen(6);
    let mut rops: Vec<Op> = (0..n).map(|_| gen_op(flv.asy, true, unwind)).collect();
    let rounds: Vec<u32> = if chance(1, 2) {
        (0..1 + gen(3)).map(|_| 1 + gen(3)).collect()
    } else {
        Vec::new()
    };
    let mut end = match gen(3) {
        0 => End::Drain(false),
        1 => End::Drain(true),
        _ => End::Drop,
    };
    let rx_unwind = unwind && chance(1, 3);
    let mut hops: Vec<Op> = if chance(1, 6) {
        (0..1 + gen(4)).map(|_| gen_op(flv.asy, true, unwind)).collect()
    } else {
        Vec::new()
    };
    let shared = !hops.is_empty();
    let (shared, rounds) = if ends {
        hops.clear();
        rops = (0..gen(2)).map(|k| if k == 0 { Op::Ref(How::Try) } else { Op::Val(How::Try) }).collect();
        end = End::Ask(1 + gen(8));
        (false, Vec::new())
    } else {
        (shared, rounds)
    };
    let two = shared && chance(1, 2);
    if two {
        bounded(&mut hops, flv.asy);
        bounded(&mut rops, flv.asy);
        end = End::Drop;
    }
    let inside: std::collections::VecDeque<(u32, u32)> = if flv.asy && chance(1, 6) {
        (0..1 + gen(3)).map(|_| (gen(3), gen(3))).collect()
    } else {
        Default::default()
    };
    let cfg = Cfg {
        gap: [3, 6, 12, 30][gen(4) as usize],
        weak,
        spurious_cas: chance(1, 3),
        spurious_park: chance(1, 4),
        timejump: chance(1, 3),
        freeze: 0,
    };
    let chan = begin_case(flv, describe, cfg);
    rt::rt().cfg.gap = 0;
    let ch::Chan { tx, rx, store } = chan;
    let mut handles = vec![];
    let (txr, rxr) = (tx.r(), rx.r());
    // start some laps in, with some messages queued
    rt::spawn(move || {
        rt::rt().fair = true;
        let mut th = Thr { held: Vec::new() };
        for k in 0..base + prefill {
            send_val(txr, How::Try);
            if k < base {
                recv_ref(rxr, How::Try, &mut th);
                th.release_all();
            }
        }
    });
    let mut failed = matches!(rt::run(), Outcome::Failed);
    rt::rt().fair = false;
    rt::rt().cfg = cfg;
    rt::redraw();
    rt::rt().step_limit = rt::rt().steps + 6000;
    for _ in 1..nth {
        handles.push(H::new(txr.dup()));
    }
    handles.push(tx);
    c().txs = nth as i32;
    if !failed {
        for (p, hold, un) in progs {
            let h = handles.pop().unwrap();
            let id = rt::spawn(move || sender(h, p, hold, un));
            c().role[id] = Role::Tx;
        }
        if !hops.is_empty() {
            c().helping = true;
            c().shared = true;
            rt::spawn(move || helper(rxr, hops, two));
        }
        c().inside = inside;
        let id = rt::spawn(move || receiver(rx, rops, rounds, end, rx_unwind));
        c().role[id] = Role::Rx;
        loop {
            match rt::run() {
                Outcome::Done => break,
                Outcome::Failed => {
                    failed = true;
                    break;
                }
                Outcome::Quiescent => {
                    if let Some(f) = check_quiescent() {
                        rt::set_failure(f.kind, f.msg);
                    } else if !kick() {
                        rt::set_failure("txlost", "everybody waits".into());
                    }
                    if rt::rt().failure.is_some() {
                        failed = true;
                        break;
                    }
                }
            }
        }
    }
    let mut failure = None;
    if !failed {
        failure = judge(
            &c().ev,
            &Params {
                cap: flv.cap,
                base: 0,
                single: false,
                weak,
                txs: nth as i32,
            },
        );
        let (sw, st) = (rt::rt().switches_in_op, rt::rt().stale_reads);
        if failure.is_none() {
            rt::rt().fair = true;
            rt::rt().step_limit = rt::rt().steps + 20_000;
            rt::spawn(move || teardown(store));
            if let Outcome::Quiescent = rt::run() {
                rt::set_failure("deadlock", "dropping the channel blocks".into());
            }
        }
        rt::rt().switches_in_op = sw;
        rt::rt().stale_reads = st;
    }
    let (sw, st, parks) = (rt::rt().switches_in_op, rt::rt().stale_reads, rt::rt().park_count);
    let rtf = rt::end();
    crate::alloc::case_end();
    if failure.is_none() {
        failure = rtf;
    }
    // (catching and resuming a panic allocates in the panic runtime)
    if failure.is_none() && c().clone_panics == 0 {
        failure = crate::alloc::verdict();
    }
    let cs = c();
    let mut rep = Report::default();
    rep.sig = w().behav;
    let mut l = vec![
        if flv.asy { "async" } else { "blocking" },
        if flv.stat { "static" } else { "dynamic" },
    ];
    let mut lab = |b: bool, s: &'static str| {
        if b {
            l.push(s)
        }
    };
    lab(cs.waited > 0 || parks > 0, "waited");
    lab(shared, "shared receiver");
    lab(two, "two waiting on one receiver");
    lab(cs.inside_done > 0, "operation-inside-a-wakeup");
    lab(cs.clone_panics > 0, "waker clone panicked");
    lab(cs.cancelled > 0, "cancelled");
    lab(cs.timeouts > 0, "timed-out");
    lab(cs.closed > 0, "closed");
    lab(cs.stalls_checked > 0, "full-then-received");
    lab(cs.kicks > 0, "kicked");
    lab(cs.unwound > 0, "unwound");
    lab(sw > 0, "preempted-in-op");
    lab(cs.known_closed, "asked-and-closed");
    lab(st > 0, "stale-read");
    rep.nontrivial = cs.ok >= 2 && sw > 0 && (cs.waited > 0 || parks > 0 || cs.closed > 0);
    rep.labels = l;
    if describe {
        let mut s = format!("{flv:?} {nth} senders\n");
        s.push_str(&w().trace.join("\n"));
        if let Some(f) = &failure {
            s.push_str(&format!("\n=> {}: {}", f.kind, f.msg));
        }
        rep.desc = s;
    }
    rep.failure = failure;
    unsafe { *CASE.0.get() = None };
    rep
}

pub fn chc(describe: bool) -> Report {
    conc(describe, false, None)
}
pub fn chc_weak(describe: bool) -> Report {
    conc(describe, true, None)
}
pub fn chc_async(describe: bool) -> Report {
    let weak = chance(1, 3);
    conc(describe, weak, Some(true))
}
pub fn chc_block(describe: bool) -> Report {
    let weak = chance(1, 3);
    conc(describe, weak, Some(false))
}
