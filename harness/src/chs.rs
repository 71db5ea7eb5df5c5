//! Sequential suite for the async channels: futures are polled, abandoned and
//! given new wakers by hand, and every result, wakeup and policy call is
//! compared with an exact model of the channel and its line of waiting senders.
use crate::ch::{self, wt, BoxFut, Flv, Rx, Storage, Tx, H, RG, SG};
use crate::engine::{chance, gen, weighted, Report};
use crate::rt::{self, fail, Cfg, Outcome};
use crate::tr;
use crate::world::{self, behav, lib, w, Injected, PolEv, Tok};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use thingbuf::mpsc::errors::*;

enum SF {
    Val(BoxFut<Result<(), Closed<Tok>>>),
    Ref(BoxFut<Result<SG, Closed>>),
    /// a blocking send on an actor thread
    Blk(usize, &'static str),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum FS {
    New,
    /// in line
    Waiting,
    /// taken out of the line by a notification, not polled since
    Notified,
    /// woken by the receiver's drop, not polled since
    Closed,
}

struct Send {
    id: usize,
    f: SF,
    tx: usize,
    val: u64,
    serial: u32,
    st: FS,
    waker: Option<(usize, Waker)>,
    /// clones of wakers used so far
    mine: Vec<usize>,
    /// blocking: the time limit, and when it began
    limit: Option<Duration>,
    since: Option<Duration>,
}

enum RF {
    Val(BoxFut<Option<Tok>>),
    Ref(BoxFut<Option<RG>>),
    /// a blocking receive on the receiving actor
    Blk(&'static str),
}
struct Recv {
    id: usize,
    f: RF,
    waker: Option<(usize, Waker)>,
    limit: Option<Duration>,
    since: Option<Duration>,
}

enum Gd {
    S { g: SG, tx: usize, pos: usize, val: u64 },
    R { g: RG, pos: usize, val: u64, serial: u32 },
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ps {
    Writing,
    Pub(u64, u32),
    Popped,
    Free,
}

struct S {
    flv: Flv,
    txs: Vec<Option<H<dyn Tx>>>,
    rx: Option<H<dyn Rx>>,
    store: Option<Storage>,
    sends: Vec<Send>,
    recvs: Vec<Recv>,
    gds: Vec<Gd>,
    // model
    tail: usize,
    head: usize,
    pos: Vec<Ps>,
    elem: Vec<Option<u32>>,
    line: Vec<usize>,
    rx_gone: bool,
    /// waker of the last pending receive poll, its wakes at that time, future
    rx_wait: Option<(usize, u32, Option<usize>)>,
    rx_waker: Option<(usize, Waker)>,
    /// the policy panicked: only memory safety is judged
    lax: bool,
    /// an element's destructor panics in this operation
    arm: bool,
    seen: usize,
    next_val: u64,
    next_id: usize,
    taken: u64,
    claims: u64,
    nested: Option<usize>,
    nested_hit: bool,
    drop_id: usize,
    st: Stats,
    actors: Vec<Actor>,
    /// many waiters, many handles
    big: bool,
}

#[derive(Default)]
struct Stats {
    sent: u32,
    recvd: u32,
    waited: u32,
    cancelled: u32,
    cancelled_notified: u32,
    renewed: u32,
    clone_panics: u32,
    unwound: u32,
    forwarded: u32,
    closed: u32,
    nested: u32,
    line_max: usize,
    middle: u32,
    timeouts: u32,
    timeouts_notified: u32,
    spurious: u32,
}

struct Glob(std::cell::UnsafeCell<Option<Box<S>>>);
unsafe impl Sync for Glob {}
static CASE: Glob = Glob(std::cell::UnsafeCell::new(None));
fn s() -> &'static mut S {
    unsafe { (*CASE.0.get()).as_mut().unwrap() }
}

fn ck(ok: bool, kind: &'static str, msg: impl FnOnce() -> String) {
    if !ok && !s().lax {
        let m = msg();
        fail(kind, m);
    }
}

/// Runs `f`; `None` if it panicked because we made it.
fn guarded<R>(name: &'static str, f: impl FnOnce() -> R) -> Option<R> {
    rt::op_begin(name, true);
    let before = crate::alloc::counters();
    w().drop_panic = s().arm;
    let r = catch_unwind(AssertUnwindSafe(|| lib(f)));
    w().drop_panic = false;
    rt::op_end();
    match r {
        Ok(v) => Some(v),
        Err(p) if p.is::<Injected>() => {
            // catching and resuming a panic allocates in the panic runtime
            crate::alloc::restore(before);
            None
        }
        Err(p) => resume_unwind(p),
    }
}

fn open_txs() -> usize {
    s().txs.iter().filter(|t| t.is_some()).count()
}
fn room() -> bool {
    let c = s();
    c.tail < c.flv.cap || c.pos[c.tail - c.flv.cap] == Ps::Free
}
fn head_ready() -> Option<(u64, u32)> {
    let c = s();
    match c.pos.get(c.head) {
        Some(&Ps::Pub(v, e)) if c.head < c.tail => Some((v, e)),
        _ => None,
    }
}

/// One reservation was made; `shown` is the element in the guard.
fn m_reserve(from: usize, shown: Option<u32>, by_value: Option<u32>, name: &str) -> usize {
    let c = s();
    c.claims += 1;
    let p = c.tail;
    c.tail += 1;
    c.pos.push(Ps::Writing);
    if c.lax {
        return p;
    }
    let evs = world::log_now()[from..].to_vec();
    let slot = p % c.flv.cap;
    let ok = match (c.elem[slot], evs.as_slice()) {
        (None, [PolEv::New(x)]) => shown.map_or(true, |y| y == *x),
        (Some(o), [PolEv::Recycle(x)]) => o == *x && shown.map_or(true, |y| y == *x),
        _ => false,
    };
    ck(ok, "recycle", || {
        format!("{name}: slot {slot} held element {:?}, policy calls {evs:?}, guard shows {shown:?}", s().elem[slot])
    });
    c.elem[slot] = match evs.last() {
        Some(PolEv::New(x)) | Some(PolEv::Recycle(x)) => Some(*x),
        None => None,
    };
    if let Some(v) = by_value {
        c.elem[slot] = Some(v);
    }
    p
}

// --- wake accounting --------------------------------------------------------------

fn owner(wk: usize) -> Option<usize> {
    // task 0 is the receiver, task n+1 send future n
    let t = wt().w[wk].task;
    if t == 0 {
        None
    } else {
        Some(t - 1)
    }
}

fn latest_of(id: usize) -> Option<usize> {
    s().sends.iter().find(|f| f.id == id).and_then(|f| f.waker.as_ref().map(|w| w.0))
}

/// tx wakes since the last call
fn new_wakes() -> Vec<usize> {
    let c = s();
    let l: Vec<usize> = wt().log[c.seen..].iter().copied().filter(|&x| owner(x).is_some()).collect();
    c.seen = wt().log.len();
    l
}

fn no_wakes(what: &str) {
    let l = new_wakes();
    ck(l.is_empty(), "wake", || {
        format!("{what} woke {:?} although nothing was released", l.iter().map(|&x| owner(x).unwrap()).collect::<Vec<_>>())
    });
}

/// What a release (or a passed-on notification) must have done. `must`: it has
/// to wake somebody if somebody waits.
fn m_notify(what: &str, must: bool) {
    let got = new_wakes();
    if s().lax || s().rx_gone {
        return;
    }
    let c = s();
    // a future dropped from inside the wakeup
    let nested = if c.nested_hit { c.nested.take() } else { None };
    c.nested_hit = false;
    let mut exp: Vec<(usize, Option<usize>)> = Vec::new();
    if !c.line.is_empty() {
        let id = c.line[0];
        let lw = latest_of(id).or_else(|| got.first().copied().filter(|&g| owner(g) == Some(id)));
        if got.is_empty() {
            if must {
                ck(false, "txlost", || format!("{what}: sender {id} waits for room but was not woken"));
            }
            return;
        }
        exp.push((id, lw));
        c.line.remove(0);
        set_st(id, FS::Notified);
        if let Some(x) = nested {
            if x == id {
                // its notification goes to the next one
                if !c.line.is_empty() {
                    let n = c.line.remove(0);
                    exp.push((n, latest_of(n)));
                    set_st(n, FS::Notified);
                    c.st.forwarded += 1;
                }
            } else {
                c.line.retain(|&y| y != x);
            }
        }
    }
    let names = |l: &[usize]| l.iter().map(|&x| format!("{} (waker {x})", owner(x).unwrap())).collect::<Vec<_>>();
    let ok = got.len() == exp.len() && got.iter().zip(&exp).all(|(g, (id, lw))| owner(*g) == Some(*id) && (lw.is_none() || *lw == Some(*g)));
    if !ok {
        let kind = if got.len() < exp.len() { "txlost" } else { "wake" };
        ck(false, kind, || format!("{what}: woke {:?}, expected {exp:?} (sender, waker); in line: {:?}", names(&got), s().line));
    }
}

fn set_st(id: usize, st: FS) {
    if let Some(f) = s().sends.iter_mut().find(|f| f.id == id) {
        f.st = st;
    }
}

fn check_rx(what: &str) {
    let c = s();
    if c.lax {
        return;
    }
    if let Some((wk, n, _)) = c.rx_wait {
        let woken = wt().w[wk].wakes > n;
        if !woken && (head_ready().is_some() || open_txs() == 0) {
            ck(false, "rxlost", || {
                format!("{what}: the receiver waits with waker {wk}, {} but it was not woken", if head_ready().is_some() { "a message is there" } else { "every sender is gone" })
            });
        }
    }
}

// --- operations -------------------------------------------------------------------

fn fresh() -> u64 {
    s().next_val += 1;
    s().next_val
}

fn pick_tx() -> Option<usize> {
    let l: Vec<usize> = (0..s().txs.len()).filter(|&i| s().txs[i].is_some()).collect();
    if l.is_empty() {
        None
    } else {
        Some(l[gen(l.len() as u32) as usize])
    }
}
fn txr(i: usize) -> &'static dyn Tx {
    s().txs[i].as_ref().unwrap().r()
}
fn rxr() -> Option<&'static dyn Rx> {
    s().rx.as_ref().map(|r| r.r())
}
fn tx_borrowed(i: usize) -> bool {
    s().sends.iter().any(|f| f.tx == i) || s().gds.iter().any(|g| matches!(g, Gd::S { tx, .. } if *tx == i))
}
fn rx_borrowed() -> bool {
    !s().recvs.is_empty() || s().gds.iter().any(|g| matches!(g, Gd::R { .. }))
}

fn published(p: usize, v: u64, e: u32) {
    s().pos[p] = Ps::Pub(v, e);
    s().st.sent += 1;
    behav(p as u64 * 7 + 1);
}

fn after_policy_panic() {
    if w().pol_panics > 0 && !s().lax {
        tr!("(from here on only memory safety is judged)");
        s().lax = true;
    }
}

fn take_sg(mut g: SG, tx: usize, from: usize, name: &'static str) {
    world::guard_on(g.get(), "send");
    let p = m_reserve(from, Some(g.get().serial), None, name);
    if !s().lax {
        let t = g.get();
        ck(t.val == world::FRESH && t.info().clean, "recycle", || format!("{name}: the guard shows old contents ({})", t.val));
        t.info().clean = false;
    }
    let v = if chance(1, 10) { world::FRESH } else { fresh() };
    g.get().set(v);
    tr!("{name} -> guard at {p}, writes {v}");
    s().gds.push(Gd::S { g, tx, pos: p, val: v });
}

fn op_try_send() {
    let Some(i) = pick_tx() else { return };
    let v = fresh();
    let tok = Tok::user(v);
    let serial = tok.serial;
    let from = world::log_len();
    let tx = txr(i);
    let r = guarded("try_send", || tx.try_send(tok));
    after_policy_panic();
    match r {
        None => {
            tr!("try_send({v}) -> panicked");
            s().claims += 1;
        }
        Some(Ok(())) => {
            tr!("try_send({v}) -> ok");
            ck(!s().rx_gone, "closed", || "try_send succeeded although the receiver is gone".into());
            ck(room(), "full", || "try_send succeeded although every slot is in use".into());
            let p = m_reserve(from, None, Some(serial), "try_send");
            published(p, v, serial);
        }
        Some(Err(e)) => {
            let closed = matches!(e, TrySendError::Closed(_));
            tr!("try_send({v}) -> {e:?}");
            err_pred(&e, closed);
            let t = e.into_inner();
            t.check("returned value");
            ck(t.serial == serial && t.val == v, "giveback", || format!("try_send({v}) failed but returned {}", t.val));
            send_failed(closed, from, "try_send");
        }
    }
    no_wakes("try_send");
}

fn err_pred<T>(e: &TrySendError<T>, closed: bool) {
    ck(
        e.is_closed() == closed && e.is_full() == !closed,
        "errors",
        || format!("{e:?}: is_closed() = {}, is_full() = {}", e.is_closed(), e.is_full()),
    );
}

fn send_failed(closed: bool, from: usize, name: &str) {
    if !s().lax {
        world::check_no_policy(from, name);
    }
    if closed {
        s().st.closed += 1;
        ck(s().rx_gone, "closed", || format!("{name}: closed although the receiver exists"));
    } else {
        ck(!s().rx_gone, "closed", || format!("{name}: full although the receiver is gone"));
        ck(!room(), "full", || format!("{name}: full although a slot is free"));
    }
}

fn op_try_send_ref() {
    let Some(i) = pick_tx() else { return };
    let from = world::log_len();
    let tx = txr(i);
    let r = guarded("try_send_ref", || tx.try_send_ref());
    after_policy_panic();
    match r {
        None => {
            tr!("try_send_ref -> panicked");
            s().claims += 1;
        }
        Some(Ok(g)) => {
            ck(!s().rx_gone, "closed", || "try_send_ref succeeded although the receiver is gone".into());
            ck(room(), "full", || "try_send_ref succeeded although every slot is in use".into());
            take_sg(g, i, from, "try_send_ref");
        }
        Some(Err(e)) => {
            let closed = matches!(e, TrySendError::Closed(_));
            tr!("try_send_ref -> {e:?}");
            err_pred(&e, closed);
            send_failed(closed, from, "try_send_ref");
        }
    }
    no_wakes("try_send_ref");
}

fn m_pop(got: Option<(u64, u32)>, name: &str) -> usize {
    let exp = head_ready();
    ck(exp.is_some(), "empty", || format!("{name} returned a message although none is ready"));
    ck(exp == got, "order", || format!("{name} returned {got:?}, expected {exp:?} (value, element)"));
    let p = s().head;
    if !s().lax {
        s().pos[p] = Ps::Popped;
        s().head += 1;
    }
    s().st.recvd += 1;
    behav(got.map_or(0, |g| g.0) * 16 + 3);
    p
}

fn m_release(p: usize, what: &str) {
    if !s().lax {
        s().pos[p] = Ps::Free;
    }
    m_notify(what, true);
}

fn got_val(t: Tok, from: usize, name: &'static str) {
    tr!("{name} -> {} (#{})", t.val, t.serial);
    t.check(name);
    let p = m_pop(Some((t.val, t.serial)), name);
    s().taken += 1;
    if !s().lax {
        ck(t.info().own != world::Own::Guard, "alias", || format!("{name} returned element #{} while a guard refers to it", t.serial));
        match world::log_now()[from..] {
            [PolEv::New(n)] => s().elem[p % s().flv.cap] = Some(n),
            ref o => ck(false, "recycle", || format!("{name}: policy calls {o:?}, expected one new element")),
        }
    }
    drop(t);
    m_release(p, name);
}

fn got_ref(mut g: RG, from: usize, name: &'static str) {
    world::guard_on(g.get(), "receive");
    let (v, e) = (g.get().val, g.get().serial);
    tr!("{name} -> {v} (#{e})");
    let p = m_pop(Some((v, e)), name);
    if !s().lax {
        world::check_no_policy(from, name);
    }
    let v = if chance(1, 6) {
        // what the receiver writes is nobody's business
        let x = fresh() + 1_000_000;
        g.get().set(x);
        x
    } else {
        v
    };
    s().gds.push(Gd::R { g, pos: p, val: v, serial: e });
    no_wakes(name);
}

fn got_nothing(closed: bool, from: usize, name: &str) {
    tr!("{name} -> {}", if closed { "closed" } else { "empty" });
    if !s().lax {
        world::check_no_policy(from, name);
    }
    ck(head_ready().is_none(), "empty", || format!("{name} returned nothing although a message is ready"));
    let done = open_txs() == 0 && s().head == s().tail;
    ck(closed == done, "closed", || {
        format!(
            "{name} reported {} with {} senders and {} messages",
            if closed { "closed" } else { "empty" },
            open_txs(),
            s().tail - s().head
        )
    });
    if closed {
        s().st.closed += 1;
        if let Some(rx) = rxr() {
            let b = lib(|| rx.is_closed());
            ck(b, "isclosed", || format!("{name} reported the end of the channel but is_closed() is false"));
        }
    }
    no_wakes(name);
}

fn op_try_recv(by_ref: bool) {
    let Some(rx) = rxr() else { return };
    let from = world::log_len();
    if by_ref {
        match guarded("try_recv_ref", || rx.try_recv_ref()) {
            None => s().lax = true,
            Some(Ok(g)) => got_ref(g, from, "try_recv_ref"),
            Some(Err(e)) => got_nothing(e == TryRecvError::Closed, from, "try_recv_ref"),
        }
    } else {
        let r = guarded("try_recv", || rx.try_recv());
        after_policy_panic();
        match r {
            None => tr!("try_recv -> panicked"),
            Some(Ok(t)) => got_val(t, from, "try_recv"),
            Some(Err(e)) => got_nothing(e == TryRecvError::Closed, from, "try_recv"),
        }
    }
}

fn op_new_send(by_ref: bool) {
    let Some(i) = pick_tx() else { return };
    if s().sends.len() >= if s().big { 40 } else { 5 } {
        return;
    }
    let id = s().next_id;
    s().next_id += 1;
    let (f, val, serial) = if by_ref {
        (SF::Ref(txr(i).send_ref_fut()), 0, 0)
    } else {
        let v = fresh();
        let t = Tok::user(v);
        let e = t.serial;
        (SF::Val(txr(i).send_fut(t)), v, e)
    };
    tr!("new send{} future {id} (value {val})", if by_ref { "_ref" } else { "" });
    s().sends.push(Send {
        id,
        f,
        tx: i,
        val,
        serial,
        st: FS::New,
        waker: None,
        mine: Vec::new(),
        limit: None,
        since: None,
    });
}

fn op_poll_send(k: usize, renew: bool, clone_panic: bool, drop_other: bool) {
    let mut k = k;
    let c = s();
    let id = c.sends[k].id;
    let had = c.sends[k].waker.is_some();
    let old = if renew || !had {
        let (i, wk) = ch::new_waker(id + 1);
        c.sends[k].mine.push(i);
        if had {
            c.st.renewed += 1;
        }
        std::mem::replace(&mut c.sends[k].waker, Some((i, wk)))
    } else {
        None
    };
    let from = world::log_len();
    let (st0, tx, val, serial) = (c.sends[k].st, c.sends[k].tx, c.sends[k].val, c.sends[k].serial);
    let was_room = room();
    let others = c.line.iter().any(|&x| x != id);
    let panics0 = wt().clone_panics;
    if clone_panic {
        wt().clone_panic = 1;
    }
    if let (true, Some((o, _))) = (drop_other, &old) {
        arm_drop(*o, Some(id));
    }
    enum R {
        Val(Poll<Result<(), Closed<Tok>>>),
        Ref(Poll<Result<SG, Closed>>),
    }
    let r = {
        let snd = &mut s().sends[k];
        let wk = snd.waker.as_ref().unwrap().1.clone_quietly();
        let mut cx = Context::from_waker(&wk);
        match &mut snd.f {
            SF::Val(f) => guarded("send poll", || R::Val(f.as_mut().poll(&mut cx))),
            SF::Ref(f) => guarded("send_ref poll", || R::Ref(f.as_mut().poll(&mut cx))),
            SF::Blk(..) => unreachable!(),
        }
    };
    wt().clone_panic = 0;
    wt().on_drop = None;
    after_policy_panic();
    drop(old);
    let c = s();
    k = c.sends.iter().position(|f| f.id == id).unwrap();
    let name = if matches!(c.sends[k].f, SF::Val(_)) { "send" } else { "send_ref" };
    match r {
        None => {
            tr!("poll {name} future {id} -> panicked");
            if wt().clone_panics > panics0 {
                c.st.clone_panics += 1;
            } else {
                c.claims += 1;
            }
            // unwinding has dropped what the future held
            let snd = c.sends.remove(k);
            let was = c.line.contains(&id);
            c.line.retain(|&x| x != id);
            // (when the destructor of the element before it panics, the value is sent)
            free_send(snd, c.arm);
            if st0 == FS::Notified {
                m_notify("dropping a notified sender by a panic", false);
            } else {
                let _ = was;
                no_wakes("a panicking poll");
            }
            return;
        }
        Some(R::Val(Poll::Ready(Ok(())))) => {
            tr!("poll send({val}) future {id} -> sent");
            ck(!c.rx_gone, "closed", || "send succeeded although the receiver is gone".into());
            ck(was_room, "full", || "send succeeded although every slot is in use".into());
            let p = m_reserve(from, None, Some(serial), name);
            c.line.retain(|&x| x != id);
            let snd = c.sends.remove(k);
            free_send(snd, true);
            published(p, val, serial);
            no_wakes("a completed send");
        }
        Some(R::Ref(Poll::Ready(Ok(g)))) => {
            ck(!c.rx_gone, "closed", || "send_ref succeeded although the receiver is gone".into());
            ck(was_room, "full", || "send_ref succeeded although every slot is in use".into());
            c.line.retain(|&x| x != id);
            let snd = c.sends.remove(k);
            free_send(snd, true);
            take_sg(g, tx, from, "send_ref");
            no_wakes("a completed send_ref");
        }
        Some(R::Val(Poll::Ready(Err(e)))) => {
            tr!("poll send({val}) future {id} -> closed");
            ck(c.rx_gone, "closed", || "send: closed although the receiver exists".into());
            let t = e.into_inner();
            t.check("returned value");
            ck(t.serial == serial && t.val == val, "giveback", || format!("send({val}) failed but returned {}", t.val));
            drop(t);
            c.st.closed += 1;
            let snd = c.sends.remove(k);
            free_send(snd, true);
            no_wakes("a failed send");
        }
        Some(R::Ref(Poll::Ready(Err(_)))) => {
            tr!("poll send_ref future {id} -> closed");
            ck(c.rx_gone, "closed", || "send_ref: closed although the receiver exists".into());
            c.st.closed += 1;
            let snd = c.sends.remove(k);
            free_send(snd, true);
            no_wakes("a failed send_ref");
        }
        Some(R::Val(Poll::Pending)) | Some(R::Ref(Poll::Pending)) => {
            tr!("poll {name} future {id} -> pending");
            c.st.waited += 1;
            if !c.lax {
                world::check_no_policy(from, name);
            }
            ck(!c.rx_gone, "closelost", || format!("{name} waits although the receiver is gone"));
            if was_room && st0 != FS::Waiting && !others {
                ck(false, "txlost", || format!("{name} future {id} waits although a slot is free and nobody is before it"));
            }
            match st0 {
                FS::Waiting => {}
                _ => c.line.push(id),
            }
            c.sends[k].st = FS::Waiting;
            c.st.line_max = c.st.line_max.max(c.line.len());
            no_wakes("a pending poll");
        }
    }
    if clone_panic && wt().clone_panics == panics0 {
        // it did not clone: fine
    }
}

trait Quiet {
    fn clone_quietly(&self) -> Waker;
}
impl Quiet for Waker {
    /// a clone that never panics
    fn clone_quietly(&self) -> Waker {
        let p = std::mem::take(&mut wt().clone_panic);
        let w = self.clone();
        wt().clone_panic = p;
        w
    }
}

/// Destroys a send future (finished or not) and checks that the channel kept
/// nothing of it.
fn free_send(mut snd: Send, finished: bool) {
    let by_val = matches!(snd.f, SF::Val(_));
    match snd.f {
        SF::Val(f) => ch::drop_fut(f),
        SF::Ref(f) => ch::drop_fut(f),
        SF::Blk(..) => {}
    }
    snd.waker = None;
    for i in &snd.mine {
        let n = wt().w[*i].refs;
        // (inside a wakeup the clone being woken is still there)
        if n != 0 && !s().nested_hit {
            fail("waker", format!("send future {} is gone but {n} clones of its waker {i} are kept", snd.id));
        }
    }
    if by_val && !finished && w().toks[snd.serial as usize].alive {
        fail("lifecycle", format!("send future {} was dropped but not its value", snd.id));
    }
}

fn op_drop_send(k: usize, unwind: bool) {
    let c = s();
    let snd = c.sends.remove(k);
    let (id, st) = (snd.id, snd.st);
    let place = c.line.iter().position(|&x| x == id);
    if let Some(p) = place {
        if p > 0 && p + 1 < c.line.len() {
            c.st.middle += 1;
        }
    }
    c.line.retain(|&x| x != id);
    tr!("drop send future {id} ({st:?}){}", if unwind { " while unwinding" } else { "" });
    c.st.cancelled += 1;
    rt::op_begin("dropping a send future", true);
    if unwind {
        c.st.unwound += 1;
        let r = catch_unwind(AssertUnwindSafe(|| {
            struct D(Option<Send>);
            impl Drop for D {
                fn drop(&mut self) {
                    free_send(self.0.take().unwrap(), false)
                }
            }
            let _d = D(Some(snd));
            world::inject()
        }));
        let _: Result<(), _> = r;
    } else {
        free_send(snd, false);
    }
    rt::op_end();
    if st == FS::Notified && !s().rx_gone {
        s().st.cancelled_notified += 1;
        if !s().line.is_empty() {
            s().st.forwarded += 1;
        }
        // passing it on when there is no room is allowed, not required
        let must = room();
        m_notify("dropping a notified send future", must);
    } else {
        no_wakes("dropping a send future");
    }
}

fn op_new_recv(by_ref: bool) {
    let Some(rx) = rxr() else { return };
    if s().recvs.len() >= 3 {
        return;
    }
    let id = s().next_id;
    s().next_id += 1;
    tr!("new recv{} future {id}", if by_ref { "_ref" } else { "" });
    let f = if by_ref { RF::Ref(rx.recv_ref_fut()) } else { RF::Val(rx.recv_fut()) };
    s().recvs.push(Recv { id, f, waker: None, limit: None, since: None });
}

/// `k`: a receive future; `None`: `poll_recv` / `poll_recv_ref`
fn op_poll_recv(k: Option<usize>, by_ref: bool, renew: bool, clone_panic: bool, drop_other: bool) {
    let Some(rx) = rxr() else { return };
    let c = s();
    let slot = match k {
        Some(k) => &mut c.recvs[k].waker,
        None => &mut c.rx_waker,
    };
    let old = if renew || slot.is_none() {
        std::mem::replace(slot, Some(ch::new_waker(0)))
    } else {
        None
    };
    let wk = slot.as_ref().unwrap();
    let wi = wk.0;
    let wk = wk.1.clone_quietly();
    let mut cx = Context::from_waker(&wk);
    let from = world::log_len();
    let wakes0 = wt().w[wi].wakes;
    if clone_panic {
        wt().clone_panic = 1;
    }
    if let (true, Some((o, _))) = (drop_other, &old) {
        arm_drop(*o, None);
    }
    enum R {
        Val(Poll<Option<Tok>>),
        Ref(Poll<Option<RG>>),
    }
    let r = match k {
        Some(k) => match &mut c.recvs[k].f {
            RF::Val(f) => guarded("recv poll", || R::Val(f.as_mut().poll(&mut cx))),
            RF::Ref(f) => guarded("recv_ref poll", || R::Ref(f.as_mut().poll(&mut cx))),
            RF::Blk(_) => unreachable!(),
        },
        None if by_ref => guarded("poll_recv_ref", || R::Ref(rx.poll_recv_ref(&mut cx))),
        None => guarded("poll_recv", || R::Val(rx.poll_recv(&mut cx))),
    };
    wt().clone_panic = 0;
    wt().on_drop = None;
    after_policy_panic();
    drop(old);
    let fin = |k: Option<usize>| {
        s().rx_wait = None;
        if let Some(k) = k {
            let r = s().recvs.remove(k);
            free_recv(r);
        }
    };
    match r {
        None => {
            tr!("receive poll -> panicked");
            s().st.clone_panics += 1;
            s().rx_wait = None;
            if let Some(k) = k {
                let r = s().recvs.remove(k);
                free_recv(r);
            }
        }
        Some(R::Val(Poll::Ready(Some(t)))) => {
            fin(k);
            got_val(t, from, "recv");
        }
        Some(R::Ref(Poll::Ready(Some(g)))) => {
            fin(k);
            got_ref(g, from, "recv_ref");
        }
        Some(R::Val(Poll::Ready(None))) | Some(R::Ref(Poll::Ready(None))) => {
            fin(k);
            got_nothing(true, from, "recv");
        }
        Some(R::Val(Poll::Pending)) | Some(R::Ref(Poll::Pending)) => {
            tr!("receive poll with waker {wi} -> pending");
            s().rx_wait = Some((wi, wakes0, k.map(|k| s().recvs[k].id)));
            got_nothing(false, from, "recv (pending)");
        }
    }
}

fn free_recv(r: Recv) {
    match r.f {
        RF::Val(f) => ch::drop_fut(f),
        RF::Ref(f) => ch::drop_fut(f),
        RF::Blk(_) => {}
    }
}

fn op_drop_recv(k: usize) {
    let r = s().recvs.remove(k);
    tr!("drop recv future {}", r.id);
    if matches!(s().rx_wait, Some((_, _, Some(id))) if id == r.id) {
        s().rx_wait = None;
    }
    s().st.cancelled += 1;
    free_recv(r);
    no_wakes("dropping a recv future");
}

fn op_release(k: usize, unwind: bool) {
    let g = s().gds.remove(k);
    if unwind {
        s().st.unwound += 1;
    }
    let un = if unwind { " while unwinding" } else { "" };
    match g {
        Gd::S { mut g, pos, val, .. } => {
            check_guard(g.get(), val, "send");
            let e = g.get().serial;
            rt::op_begin("releasing a send guard", true);
            drop_guard(g, unwind);
            rt::op_end();
            tr!("release send guard {val} at {pos}{un}");
            if !s().lax {
                published(pos, val, e);
            }
            no_wakes("releasing a send guard");
        }
        Gd::R { mut g, pos, val, serial } => {
            check_guard(g.get(), val, "receive");
            ck(g.get().serial == serial, "torn", || "another element appeared under a receive guard".into());
            rt::op_begin("releasing a receive guard", true);
            drop_guard(g, unwind);
            rt::op_end();
            tr!("release receive guard {val} at {pos}{un}");
            m_release(pos, "releasing a receive guard");
        }
    }
}

fn check_guard(t: &Tok, v: u64, what: &str) {
    t.check("guard");
    if t.val != v {
        fail("torn", format!("element changed under a {what} guard: {v} became {}", t.val));
    }
    world::guard_off(t);
}
fn drop_guard<G>(g: G, unwind: bool) {
    if unwind {
        let r: Result<(), _> = catch_unwind(AssertUnwindSafe(|| {
            lib(move || {
                let _g = g;
                world::inject()
            })
        }));
        let _ = r;
    } else {
        lib(move || drop(g));
    }
}

fn op_clone_tx() {
    let Some(i) = pick_tx() else { return };
    if open_txs() >= if s().big { 600 } else { 4 } {
        return;
    }
    let n = if s().big { 1 + gen(300) } else { 1 };
    for _ in 0..n {
        rt::op_begin("sender clone", true);
        let h = H::new(txr(i).dup());
        rt::op_end();
        tr!("clone sender {i} -> {}", s().txs.len());
        s().txs.push(Some(h));
        no_wakes("cloning a sender");
    }
}

fn op_drop_tx(i: usize, unwind: bool) {
    let h = s().txs[i].take().unwrap();
    rt::op_begin("sender drop", true);
    if unwind {
        s().st.unwound += 1;
        h.drop_unwinding();
    } else {
        h.drop();
    }
    rt::op_end();
    tr!("drop sender {i}{}", if unwind { " while unwinding" } else { "" });
    no_wakes("dropping a sender");
}

fn op_drop_rx(unwind: bool) {
    let h = s().rx.take().unwrap();
    let expect: Vec<usize> = s().line.clone();
    rt::op_begin("receiver drop", true);
    if unwind {
        s().st.unwound += 1;
        h.drop_unwinding();
    } else {
        h.drop();
    }
    rt::op_end();
    tr!("drop receiver{}", if unwind { " while unwinding" } else { "" });
    let got = new_wakes();
    let c = s();
    c.rx_gone = true;
    c.rx_wait = None;
    let nested = if c.nested_hit { c.nested.take() } else { None };
    c.nested_hit = false;
    if !c.lax {
        let mut g: Vec<usize> = got.iter().map(|&x| owner(x).unwrap()).collect();
        g.sort_unstable();
        let dup = g.windows(2).any(|p| p[0] == p[1]);
        for id in &expect {
            if Some(*id) != nested && !g.contains(id) {
                ck(false, "closelost", || format!("the receiver is gone but waiting sender {id} was not woken"));
            }
            if let (Some(l), true) = (latest_of(*id), g.contains(id)) {
                ck(got.contains(&l), "closelost", || format!("the receiver is gone but sender {id} was woken through an old waker"));
            }
        }
        ck(!dup && g.iter().all(|x| expect.contains(x)), "wake", || format!("dropping the receiver woke {g:?}, waiting were {expect:?}"));
    }
    for id in &expect {
        set_st(*id, FS::Closed);
    }
    c.line.clear();
}

fn op_is_closed() {
    let Some(rx) = rxr() else { return };
    rt::op_begin("is_closed", true);
    let b = lib(|| rx.is_closed());
    rt::op_end();
    tr!("is_closed -> {b}");
    ck(b == (open_txs() == 0), "isclosed", || format!("is_closed() is {b} with {} senders", open_txs()));
}

fn op_debug() {
    let t = if let (Some(i), true) = (pick_tx(), chance(1, 2)) { Some(i) } else { None };
    if t.is_none() && rxr().is_none() {
        return;
    }
    tr!("format a handle");
    if unsafe { crate::ch::SKIP_FMT } {
        return;
    }
    rt::op_begin("fmt", true);
    let d = match t {
        Some(i) => lib(|| txr(i).debug()),
        None => lib(|| rxr().unwrap().debug()),
    };
    rt::op_end();
    ck(!d.is_empty(), "panic", || "empty debug output".into());
    no_wakes("formatting");
}

/// Arranges for the next wakeup of a sender to drop send future `k` from inside.
fn op_arm_nested(k: usize) {
    let id = s().sends[k].id;
    if s().nested.is_some() || s().sends[k].st != FS::Waiting {
        return;
    }
    tr!("the next sender that is woken drops send future {id} while it is being woken");
    s().nested = Some(id);
    wt().on_wake = true;
}

/// called by the wakers (sequential suites)
pub fn on_wake(wk: usize) {
    if owner(wk).is_none() {
        return;
    }
    wt().on_wake = false;
    let c = s();
    let Some(id) = c.nested else { return };
    let Some(k) = c.sends.iter().position(|f| f.id == id) else {
        c.nested = None;
        return;
    };
    c.nested_hit = true;
    c.st.nested += 1;
    let snd = c.sends.remove(k);
    w().drop_panic = false;
    tr!("    (inside the wakeup: drop send future {id})");
    free_send(snd, false);
}

/// Arranges for the channel's dropping of waker `o` to drop another waiting send
/// future from inside (as the last reference to a task does).
fn arm_drop(o: usize, not: Option<usize>) {
    let l: Vec<usize> = s().sends.iter().filter(|f| f.st == FS::Waiting && Some(f.id) != not && s().nested != Some(f.id)).map(|f| f.id).collect();
    if l.is_empty() || s().lax || s().nested.is_some() {
        return;
    }
    s().drop_id = l[gen(l.len() as u32) as usize];
    wt().on_drop = Some(o);
}

/// called by the wakers (sequential suites)
pub fn on_drop() {
    let c = s();
    let id = c.drop_id;
    let Some(k) = c.sends.iter().position(|f| f.id == id) else { return };
    c.st.nested += 1;
    w().drop_panic = false;
    tr!("    (the old waker, when dropped, drops send future {id})");
    let snd = c.sends.remove(k);
    c.line.retain(|&x| x != id);
    free_send(snd, false);
}

fn body(n: u32, unwind: bool, pol_panics: bool, clone_panics: bool, nested: bool) {
    let un = |d: u32| unwind && chance(1, d);
    for _ in 0..n {
        let mut arm = false;
        if pol_panics && chance(1, 12) {
            if chance(1, 3) {
                arm = true;
            } else {
                w().pol_panic = 1;
            }
        }
        s().arm = arm;
        let c = s();
        let ns = c.sends.len() as u32;
        let nr = c.recvs.len() as u32;
        let ng = c.gds.len() as u32;
        let rx = c.rx.is_some();
        let has = |n: u32, wgt: u32| if n > 0 { wgt } else { 0 };
        let on = |b: bool, wgt: u32| if b { wgt } else { 0 };
        match weighted(&[
            4,                            // 0 try_send
            3,                            // 1 try_send_ref
            on(rx, 4),                    // 2 try_recv
            on(rx, 4),                    // 3 try_recv_ref
            5,                            // 4 new send
            has(ns, 12),                  // 5 poll send
            has(ns, 3),                   // 6 drop send
            on(rx, 2),                    // 7 new recv
            has(nr, 5),                   // 8 poll recv
            has(nr, 1),                   // 9 drop recv
            on(rx, 2),                    // 10 poll_recv
            has(ng, 9),                   // 11 release
            1,                            // 12 clone
            1,                            // 13 drop tx
            on(rx, 1),                    // 14 drop rx
            on(rx, 1),                    // 15 is_closed
            1,                            // 16 debug
            on(nested && ns > 1, 2),      // 17 arm
        ]) {
            0 => op_try_send(),
            1 => op_try_send_ref(),
            2 => op_try_recv(false),
            3 => op_try_recv(true),
            4 => {
                let m = if s().big { 1 + gen(16) } else { 1 };
                for _ in 0..m {
                    let r = chance(1, 2);
                    op_new_send(r);
                    // usually start it at once
                    if chance(3, 4) && !s().sends.is_empty() {
                        op_poll_send(s().sends.len() - 1, false, clone_panics && chance(1, 6), false);
                    }
                }
            }
            5 => {
                let k = gen(ns) as usize;
                let renew = chance(1, 3);
                let pn = clone_panics && chance(1, 6);
                op_poll_send(k, renew, pn, renew && nested && !pn && chance(1, 2));
            }
            6 => {
                let k = gen(ns) as usize;
                op_drop_send(k, un(3));
            }
            7 => op_new_recv(chance(1, 2)),
            8 => {
                let k = gen(nr) as usize;
                op_poll_recv(Some(k), false, chance(1, 3), clone_panics && chance(1, 6), nested && chance(1, 4));
            }
            9 => op_drop_recv(gen(nr) as usize),
            10 => op_poll_recv(None, chance(1, 2), chance(1, 3), clone_panics && chance(1, 6), nested && chance(1, 4)),
            11 => {
                let k = gen(ng) as usize;
                op_release(k, un(3));
            }
            12 => op_clone_tx(),
            13 => {
                if let Some(i) = pick_tx() {
                    if !tx_borrowed(i) && (open_txs() > 1 || chance(1, 3)) {
                        op_drop_tx(i, un(2));
                    }
                }
                if s().big {
                    let m = gen(open_txs() as u32 + 1);
                    for _ in 0..m {
                        let Some(i) = pick_tx() else { break };
                        if !tx_borrowed(i) {
                            op_drop_tx(i, false);
                            check_rx("after dropping a sender");
                        }
                    }
                }
            }
            14 => {
                if !rx_borrowed() && chance(1, 4) {
                    op_drop_rx(un(2));
                }
            }
            15 => op_is_closed(),
            16 => op_debug(),
            _ => op_arm_nested(gen(ns) as usize),
        }
        w().pol_panic = 0;
        s().arm = false;
        check_rx("afterwards");
        world::check_allocs("operation");
    }
    wind_down(unwind);
}

/// Guards and futures that are never dropped.
fn forget() {
    let mut i = 0;
    while i < s().gds.len() {
        if chance(1, 2) {
            i += 1;
            continue;
        }
        s().lax = true;
        match s().gds.remove(i) {
            Gd::S { mut g, .. } => {
                w().forgotten.push(g.get().serial);
                world::guard_off(g.get());
                tr!("forget send guard");
                std::mem::forget(g);
            }
            Gd::R { mut g, .. } => {
                w().forgotten.push(g.get().serial);
                world::guard_off(g.get());
                tr!("forget receive guard");
                std::mem::forget(g);
            }
        }
    }
    let mut i = 0;
    while i < s().sends.len() {
        if matches!(s().sends[i].f, SF::Blk(..)) || chance(1, 2) {
            i += 1;
            continue;
        }
        s().lax = true;
        let f = s().sends.remove(i);
        s().line.retain(|&x| x != f.id);
        tr!("forget send future {}", f.id);
        w().forgotten.push(f.serial);
        std::mem::forget(f);
        wt().leaky = true;
    }
    while !s().recvs.is_empty() && s().flv.asy && chance(1, 4) {
        s().lax = true;
        let r = s().recvs.remove(0);
        tr!("forget receive future {}", r.id);
        std::mem::forget(r);
        wt().leaky = true;
    }
}

/// Lets everything finish: no message may be missing, nobody may be left.
fn wind_down(unwind: bool) {
    wt().on_wake = false;
    s().nested = None;
    tr!("-- winding down");
    if chance(1, 30) {
        forget();
    }
    while !s().gds.is_empty() {
        let k = gen(s().gds.len() as u32) as usize;
        op_release(k, false);
        check_rx("afterwards");
    }
    let how = gen(3);
    if s().rx.is_some() && how < 2 && !s().lax {
        // receive until nothing comes any more, polling only woken senders
        for round in 0..60 + 4 * (s().flv.cap + 80) {
            let mut progress = false;
            let k = s().sends.iter().position(|f| matches!(f.st, FS::New | FS::Notified | FS::Closed));
            if let Some(k) = k {
                op_poll_send(k, false, false, false);
                while !s().gds.is_empty() {
                    op_release(0, false);
                }
                progress = true;
            } else if head_ready().is_some() || round == 0 {
                op_try_recv(how == 1);
                while !s().gds.is_empty() {
                    op_release(0, false);
                }
                progress = true;
            }
            if !progress {
                break;
            }
        }
        if !s().sends.is_empty() {
            let l: Vec<usize> = s().sends.iter().map(|f| f.id).collect();
            ck(false, "txlost", || format!("everything was received but senders {l:?} still wait"));
        }
        ck(s().head == s().tail, "order", || format!("{} messages were sent but never received", s().tail - s().head));
    }
    while !s().sends.is_empty() {
        let k = gen(s().sends.len() as u32) as usize;
        op_drop_send(k, false);
    }
    while !s().recvs.is_empty() {
        op_drop_recv(0);
    }
    drop_handles(unwind);
}

fn drop_handles(unwind: bool) {
    // handles, in a generated order
    loop {
        let mut l: Vec<usize> = (0..s().txs.len()).filter(|&i| s().txs[i].is_some()).collect();
        if s().rx.is_some() {
            l.push(usize::MAX);
        }
        if l.is_empty() {
            break;
        }
        let i = l[gen(l.len() as u32) as usize];
        let un = unwind && chance(1, 4);
        if i == usize::MAX {
            if open_txs() == 0 && !s().lax {
                op_try_recv(false);
                if s().flv.asy {
                    op_poll_recv(None, false, false, false, false);
                }
                op_is_closed();
                while !s().gds.is_empty() {
                    op_release(0, false);
                }
            }
            op_drop_rx(un);
        } else {
            op_drop_tx(i, un);
            check_rx("after dropping a sender");
        }
    }
    s().rx_waker = None;
    rt::op_begin("channel drop", true);
    if let Some(st) = s().store.take() {
        unsafe { st.release() };
    }
    rt::op_end();
    world::check_all_dropped();
    ch::check_wakers();
    if !s().lax {
        let expect = s().claims.min(s().flv.cap as u64) + s().taken;
        ck(w().news == expect, "recycle", || {
            format!("{} elements were made by the policy, expected {expect} ({} reservations, {} taken by value)", w().news, s().claims, s().taken)
        });
    }
}

fn case(describe: bool, block: bool) -> Report {
    let mut flv = ch::gen_flv(true, Some(!block));
    let unwind = ch::panics(4);
    let calm = !cfg!(feature = "full") || unsafe { ch::FORCE_PANIC } == Some(false);
    let pol_panics = !block && chance(1, 12) && !calm;
    let clone_panics = !block && chance(1, 6) && !calm;
    let nested = !block && chance(1, 5);
    let mut n = [8, 16, 30, 60][weighted(&[3, 4, 4, 1])];
    let big = chance(1, 60) && !cfg!(thingbuf_vp_wrap);
    if big {
        n *= 2;
        let c = [flv.cap, 33, 100][weighted(&[3, 1, 1])];
        flv.cap = c;
    }
    let cfg = Cfg {
        gap: 0,
        weak: false,
        spurious_cas: chance(1, 4),
        spurious_park: false,
        timejump: false,
        freeze: 0,
    };
    world::reset(describe);
    ch::wakers_reset(rt::MAXT, true);
    crate::alloc::case_begin();
    rt::begin(cfg);
    let ch::Chan { tx, rx, store } = ch::make(flv);
    unsafe {
        *CASE.0.get() = Some(Box::new(S {
            flv,
            txs: vec![Some(tx)],
            rx: Some(rx),
            store,
            sends: Vec::new(),
            recvs: Vec::new(),
            gds: Vec::new(),
            tail: 0,
            head: 0,
            pos: Vec::new(),
            elem: vec![None; flv.cap],
            line: Vec::new(),
            rx_gone: false,
            rx_wait: None,
            rx_waker: None,
            lax: false,
            arm: false,
            seen: 0,
            next_val: 0,
            next_id: 0,
            taken: 0,
            claims: 0,
            nested: None,
            nested_hit: false,
            drop_id: 0,
            st: Stats::default(),
            actors: Vec::new(),
            big,
        }));
    }
    rt::rt().step_limit = if big { 400_000 } else { 60_000 };
    rt::spawn(move || {
        rt::rt().fair = true;
        // bring the channel to a generated position first
        let lap = ch::position(flv.cap);
        for _ in 0..lap {
            op_try_send();
            op_try_recv(false);
        }
        let fill = gen(flv.cap as u32 + 2);
        for _ in 0..fill {
            op_try_send();
        }
        #[cfg(feature = "full")]
        if block {
            return blocking::body(n, unwind);
        }
        body(n, unwind, pol_panics, clone_panics, nested)
    });
    #[cfg(feature = "full")]
    if block {
        blocking::actors();
    }
    if let Outcome::Quiescent = rt::run() {
        let t = &rt::rt().th[0];
        if t.st != rt::St::Done {
            let m = format!("`{}` does not return: {:?}", t.op, t.st);
            rt::set_failure("deadlock", m);
        }
    }
    let failed = rt::rt().failure.is_some();
    if failed {
        // leave what is there: it may be broken
        unsafe { std::mem::forget((*CASE.0.get()).take()) };
    }
    let mut failure = rt::end();
    crate::alloc::case_end();
    if failure.is_none() {
        failure = crate::alloc::verdict();
    }
    let mut rep = Report::default();
    rep.sig = w().behav;
    let mut l = vec![if flv.stat { "static" } else { "dynamic" }];
    if !failed {
        let st = &s().st;
        let mut lab = |b: bool, x: &'static str| {
            if b {
                l.push(x)
            }
        };
        lab(st.waited > 0, "waited");
        lab(st.line_max > 1, "several-in-line");
        lab(st.line_max > 8, "long-line");
        lab(big, "big");
        lab(st.middle > 0, "left-from-the-middle");
        lab(st.cancelled > 0, "cancelled");
        lab(st.cancelled_notified > 0, "cancelled-after-notification");
        lab(st.forwarded > 0, "notification-passed-on");
        lab(st.renewed > 0, "waker-replaced");
        lab(st.clone_panics > 0, "waker-clone-panic");
        lab(st.nested > 0, "dropped-inside-a-wakeup");
        lab(st.unwound > 0, "unwound");
        lab(st.closed > 0, "closed");
        lab(s().lax && w().forgotten.is_empty(), "policy-panic");
        lab(!w().forgotten.is_empty(), "guard-or-future-forgotten");
        lab(st.timeouts > 0, "timed-out");
        lab(st.timeouts_notified > 0, "timed-out-after-notification");
        lab(st.spurious > 0, "spurious-wakeup");
        rep.nontrivial = st.sent > 0 && st.recvd > 0 && st.waited > 0;
    }
    rep.labels = l;
    if describe {
        let mut x = format!("{flv:?}\n");
        x.push_str(&w().trace.join("\n"));
        if let Some(f) = &failure {
            x.push_str(&format!("\n=> {}: {}", f.kind, f.msg));
        }
        rep.desc = x;
    }
    rep.failure = failure;
    unsafe { *CASE.0.get() = None };
    rep
}

pub fn chs_async(describe: bool) -> Report {
    case(describe, false)
}

struct Actor {
    cmd: Option<Box<dyn FnOnce()>>,
    out: Option<Out>,
    /// the send it is busy with
    send: Option<usize>,
    /// stands for its thread in the wake log
    wk: Option<usize>,
}
impl Actor {
    fn new() -> Actor {
        Actor { cmd: None, out: None, send: None, wk: None }
    }
}

/// How a blocking operation ended
#[cfg_attr(not(feature = "full"), allow(dead_code))]
enum Out {
    Sent,
    SendGuard(SG),
    Closed(Option<Tok>),
    Timeout(Option<Tok>),
    Got(Tok),
    RecvGuard(RG),
    End,
}

/// A thread of a staged case was unparked.
pub fn on_unpark(t: usize) {
    if t == 0 {
        return;
    }
    if let Some(wk) = s().actors[t - 1].wk {
        wt().w[wk].wakes += 1;
        wt().log.push(wk);
    }
}

#[cfg(feature = "full")]
pub fn chs_block(describe: bool) -> Report {
    case(describe, true)
}

/// Staged blocking channels: each waiting operation runs on a thread of its own,
/// which runs only when the history says so.
#[cfg(feature = "full")]
mod blocking {
    use super::*;

    /// thread of the receives; sends use the ones after it
    const RX: usize = 1;
    const N: usize = 6;

    pub fn actors() {
        rt::rt().staged = true;
        rt::rt().manual_timers = true;
        for t in 1..=N {
            s().actors.push(Actor::new());
            let id = rt::spawn(move || loop {
                let Some(f) = s().actors[t - 1].cmd.take() else {
                    rt::gate_wait();
                    continue;
                };
                f();
                rt::op_end();
            });
            assert!(id == t);
            rt::rt().th[t].st = rt::St::Gate;
        }
    }

    fn gen_limit() -> Option<Duration> {
        match gen(8) {
            0 | 1 | 2 => None,
            3 => Some(Duration::ZERO),
            4 => Some(Duration::from_micros(500 + gen(3) as u64 * 400)),
            5 => Some(Duration::from_millis(1 + gen(50) as u64)),
            6 => Some(Duration::from_secs(1 + gen(3) as u64)),
            _ => Some([Duration::MAX, Duration::from_secs(u64::MAX / 4), Duration::from_secs(86_400 * 400)][gen(3) as usize]),
        }
    }

    fn due(limit: Option<Duration>, since: Option<Duration>) -> bool {
        match (limit, since) {
            (Some(l), Some(b)) => rt::rt().now - b >= l,
            _ => false,
        }
    }

    fn new_send() {
        let Some(i) = pick_tx() else { return };
        let Some(t) = (RX + 1..=N).find(|&t| s().actors[t - 1].send.is_none()) else { return };
        let id = s().next_id;
        s().next_id += 1;
        let limit = gen_limit();
        let tx = txr(i);
        let (name, val, serial, f): (&'static str, u64, u32, Box<dyn FnOnce()>);
        if chance(1, 2) {
            (val, serial) = (0, 0);
            name = if limit.is_some() { "send_ref_timeout" } else { "send_ref" };
            f = Box::new(move || {
                rt::op_begin(name, false);
                let r = match limit {
                    None => match lib(|| tx.send_ref()) {
                        Ok(g) => Out::SendGuard(g),
                        Err(_) => Out::Closed(None),
                    },
                    Some(d) => {
                        rt::op_limit(d);
                        match lib(|| tx.send_ref_timeout(d)) {
                            Ok(g) => Out::SendGuard(g),
                            Err(SendTimeoutError::Timeout(())) => Out::Timeout(None),
                            Err(_) => Out::Closed(None),
                        }
                    }
                };
                s().actors[t - 1].out = Some(r);
            });
        } else {
            val = fresh();
            let tok = Tok::user(val);
            serial = tok.serial;
            name = if limit.is_some() { "send_timeout" } else { "send" };
            f = Box::new(move || {
                rt::op_begin(name, false);
                let r = match limit {
                    None => match lib(|| tx.send(tok)) {
                        Ok(()) => Out::Sent,
                        Err(e) => Out::Closed(Some(e.into_inner())),
                    },
                    Some(d) => {
                        rt::op_limit(d);
                        match lib(|| tx.send_timeout(tok, d)) {
                            Ok(()) => Out::Sent,
                            Err(SendTimeoutError::Timeout(v)) => Out::Timeout(Some(v)),
                            Err(e) => Out::Closed(Some(e.into_inner())),
                        }
                    }
                };
                s().actors[t - 1].out = Some(r);
            });
        }
        tr!("thread {t}: {name} (sender {id}, value {val}, limit {limit:?})");
        let (wk, w) = ch::new_waker(id + 1);
        let a = &mut s().actors[t - 1];
        a.cmd = Some(f);
        a.send = Some(id);
        a.wk = Some(wk);
        s().sends.push(Send {
            id,
            f: SF::Blk(t, name),
            tx: i,
            val,
            serial,
            st: FS::New,
            waker: Some((wk, w)),
            mine: vec![wk],
            limit,
            since: None,
        });
        run_send(s().sends.len() - 1);
    }

    fn run_send(k: usize) {
        let from = world::log_len();
        let was_room = room();
        let c = s();
        let now = rt::rt().now;
        let snd = &mut c.sends[k];
        snd.since.get_or_insert(now);
        let SF::Blk(t, name) = snd.f else { unreachable!() };
        let (id, st0, tx, val, serial, limit) = (snd.id, snd.st, snd.tx, snd.val, snd.serial, snd.limit);
        let is_due = due(limit, snd.since);
        let others = c.line.iter().any(|&x| x != id);
        if st0 == FS::Waiting && !is_due {
            c.st.spurious += 1;
        }
        rt::stage_run(t);
        let out = c.actors[t - 1].out.take();
        let fin = |timed: bool| {
            let c = s();
            c.line.retain(|&x| x != id);
            let snd = c.sends.remove(k);
            let a = &mut c.actors[t - 1];
            a.send = None;
            free_send(snd, true);
            // (an unpark from now on would be somebody else's)
            let _ = timed;
        };
        match out {
            None => {
                ck(rt::is_parked(t), "deadlock", || format!("`{name}` neither returns nor waits: {:?}", rt::rt().th[t].st));
                tr!("{name} (sender {id}) waits");
                c.st.waited += 1;
                world::check_no_policy(from, name);
                ck(!is_due, "late", || format!("{name} goes on waiting although its limit {limit:?} has passed"));
                ck(!c.rx_gone, "closelost", || format!("{name} waits although the receiver is gone"));
                if was_room && st0 != FS::Waiting && !others {
                    ck(false, "txlost", || format!("{name} waits although a slot is free and nobody is before it"));
                }
                if st0 != FS::Waiting {
                    c.line.push(id);
                }
                c.sends[k].st = FS::Waiting;
                c.st.line_max = c.st.line_max.max(c.line.len());
                no_wakes("a waiting send");
            }
            Some(Out::Sent) => {
                tr!("{name}({val}) (sender {id}) -> sent");
                ck(!c.rx_gone, "closed", || format!("{name} succeeded although the receiver is gone"));
                ck(was_room, "full", || format!("{name} succeeded although every slot is in use"));
                let p = m_reserve(from, None, Some(serial), name);
                fin(false);
                published(p, val, serial);
                no_wakes("a completed send");
            }
            Some(Out::SendGuard(g)) => {
                ck(!c.rx_gone, "closed", || format!("{name} succeeded although the receiver is gone"));
                ck(was_room, "full", || format!("{name} succeeded although every slot is in use"));
                fin(false);
                take_sg(g, tx, from, name);
                no_wakes("a completed send_ref");
            }
            Some(Out::Closed(v)) => {
                tr!("{name} (sender {id}) -> closed");
                ck(c.rx_gone, "closed", || format!("{name}: closed although the receiver exists"));
                given_back(v, val, serial, name);
                world::check_no_policy(from, name);
                c.st.closed += 1;
                fin(false);
                no_wakes("a failed send");
            }
            Some(Out::Timeout(v)) => {
                tr!("{name} (sender {id}) -> timeout");
                ck(is_due, "early", || format!("{name} timed out after {:?}, its limit is {limit:?}", now - c.sends[k].since.unwrap()));
                ck(is_due || !c.rx_gone, "closed", || format!("{name} timed out before its limit when the receiver was gone"));
                ck(!(st0 == FS::New && c.rx_gone), "closed", || format!("{name} timed out although the receiver was gone from the beginning"));
                ck(!(st0 == FS::New && was_room && !others), "full", || format!("{name} timed out although a slot was free from the beginning"));
                given_back(v, val, serial, name);
                world::check_no_policy(from, name);
                c.st.timeouts += 1;
                fin(true);
                if st0 == FS::Notified && !c.rx_gone {
                    c.st.timeouts_notified += 1;
                    m_notify("a send that timed out after its notification", room());
                } else {
                    no_wakes("a send that timed out");
                }
            }
            Some(_) => unreachable!(),
        }
        // an unpark of this thread would now mean nobody
        if s().actors[t - 1].send.is_none() {
            s().actors[t - 1].wk = None;
        }
    }

    fn given_back(v: Option<Tok>, val: u64, serial: u32, name: &str) {
        if let Some(t) = v {
            t.check("returned value");
            ck(t.serial == serial && t.val == val, "giveback", || format!("{name}({val}) failed but returned {}", t.val));
        }
    }

    fn new_recv() {
        let Some(rx) = rxr() else { return };
        if !s().recvs.is_empty() {
            return;
        }
        let id = s().next_id;
        s().next_id += 1;
        let limit = gen_limit();
        let how = gen(3);
        let name = match (how, limit) {
            (0, None) => "recv",
            (0, _) => "recv_timeout",
            (1, Some(_)) | (2, Some(_)) => "recv_ref_timeout",
            (1, None) => "recv_ref",
            _ => "next",
        };
        let f: Box<dyn FnOnce()> = Box::new(move || {
            rt::op_begin(name, false);
            let val = |o: Option<Tok>| o.map_or(Out::End, Out::Got);
            let gd = |o: Option<RG>| o.map_or(Out::End, Out::RecvGuard);
            let r = match limit {
                None => match how {
                    0 => val(lib(|| rx.recv())),
                    1 => gd(lib(|| rx.recv_ref())),
                    _ => gd(lib(|| rx.next())),
                },
                Some(d) => {
                    rt::op_limit(d);
                    if how == 0 {
                        match lib(|| rx.recv_timeout(d)) {
                            Ok(t) => Out::Got(t),
                            Err(RecvTimeoutError::Timeout) => Out::Timeout(None),
                            Err(_) => Out::End,
                        }
                    } else {
                        match lib(|| rx.recv_ref_timeout(d)) {
                            Ok(g) => Out::RecvGuard(g),
                            Err(RecvTimeoutError::Timeout) => Out::Timeout(None),
                            Err(_) => Out::End,
                        }
                    }
                }
            };
            s().actors[RX - 1].out = Some(r);
        });
        tr!("thread {RX}: {name} (receive {id}, limit {limit:?})");
        let (wk, w) = ch::new_waker(0);
        s().actors[RX - 1].cmd = Some(f);
        s().actors[RX - 1].wk = Some(wk);
        s().recvs.push(Recv {
            id,
            f: RF::Blk(name),
            waker: Some((wk, w)),
            limit,
            since: None,
        });
        run_recv(true);
    }

    fn run_recv(first: bool) {
        let from = world::log_len();
        let c = s();
        let now = rt::rt().now;
        let r = &mut c.recvs[0];
        r.since.get_or_insert(now);
        let RF::Blk(name) = r.f else { unreachable!() };
        let (limit, since) = (r.limit, r.since.unwrap());
        let wi = r.waker.as_ref().unwrap().0;
        let is_due = due(limit, Some(since));
        if !first && c.rx_wait.map_or(false, |(w, n, _)| wt().w[w].wakes == n) && !is_due {
            c.st.spurious += 1;
        }
        // wakes that arrive after it waits count
        let ready = head_ready().is_some();
        rt::stage_run(RX);
        let wakes = wt().w[wi].wakes;
        let out = c.actors[RX - 1].out.take();
        let fin = || {
            s().rx_wait = None;
            let r = s().recvs.remove(0);
            free_recv(r);
        };
        match out {
            None => {
                ck(rt::is_parked(RX), "deadlock", || format!("`{name}` neither returns nor waits: {:?}", rt::rt().th[RX].st));
                ck(!is_due, "late", || format!("{name} goes on waiting although its limit {limit:?} has passed"));
                ck(!ready && open_txs() > 0, "rxlost", || format!("{name} waits although {}", if ready { "a message is there" } else { "every sender is gone" }));
                s().rx_wait = Some((wi, wakes, Some(s().recvs[0].id)));
                got_nothing(false, from, "a waiting receive");
            }
            Some(Out::Got(t)) => {
                fin();
                got_val(t, from, name);
            }
            Some(Out::RecvGuard(g)) => {
                fin();
                got_ref(g, from, name);
            }
            Some(Out::End) => {
                fin();
                got_nothing(true, from, name);
            }
            Some(Out::Timeout(_)) => {
                fin();
                tr!("{name} -> timeout");
                s().st.timeouts += 1;
                ck(is_due, "early", || format!("{name} timed out after {:?}, its limit is {limit:?}", now - since));
                ck(is_due || open_txs() > 0 || ready, "closed", || format!("{name} timed out before its limit when every sender was gone"));
                ck(is_due || !ready, "empty", || format!("{name} timed out before its limit with a message there"));
                if first {
                    ck(!ready, "empty", || format!("{name} timed out although a message was there from the beginning"));
                    ck(open_txs() > 0 || ready, "closed", || format!("{name} timed out although every sender was gone from the beginning"));
                }
                world::check_no_policy(from, name);
                no_wakes(name);
            }
            Some(_) => unreachable!(),
        }
    }

    /// Time passes: up to a waiting thread's limit, or part of the way.
    fn time(k: u32) {
        let c = s();
        let mut t: Vec<Duration> = (1..=N).filter_map(rt::timer_of).filter(|&d| d > rt::rt().now).collect();
        t.sort();
        let Some(&d) = t.first() else { return };
        // (huge limits never come)
        if d > Duration::from_secs(1 << 30) {
            return;
        }
        let left = d - rt::rt().now;
        let step = match k {
            0 => left / 4,
            1 => left / 2,
            2 => left.saturating_sub(Duration::from_nanos(1)),
            3 => left.saturating_sub(Duration::from_micros(1)),
            _ => left,
        };
        rt::rt().now += step;
        let _ = c;
        tr!("{step:?} pass");
    }

    pub fn body(n: u32, unwind: bool) {
        let un = |d: u32| unwind && chance(1, d);
        for _ in 0..n {
            let c = s();
            let ns = c.sends.len() as u32;
            let nr = c.recvs.len() as u32;
            let ng = c.gds.len() as u32;
            let rx = c.rx.is_some();
            let has = |n: u32, wgt: u32| if n > 0 { wgt } else { 0 };
            let on = |b: bool, wgt: u32| if b { wgt } else { 0 };
            match weighted(&[
                4,                         // 0 try_send
                3,                         // 1 try_send_ref
                on(rx, 4),                 // 2 try_recv
                on(rx, 4),                 // 3 try_recv_ref
                7,                         // 4 send
                has(ns, 10),               // 5 run a sender
                on(rx && nr == 0, 3),      // 6 receive
                has(nr, 5),                // 7 run the receiver
                has(ns + nr, 4),           // 8 time
                has(ng, 9),                // 9 release
                1,                         // 10 clone
                1,                         // 11 drop tx
                on(rx, 1),                 // 12 drop rx
                on(rx, 1),                 // 13 is_closed
                1,                         // 14 debug
            ]) {
                0 => op_try_send(),
                1 => op_try_send_ref(),
                2 => op_try_recv(false),
                3 => op_try_recv(true),
                4 => new_send(),
                5 => run_send(gen(ns) as usize),
                6 => new_recv(),
                7 => run_recv(false),
                8 => time(gen(7)),
                9 => op_release(gen(ng) as usize, un(3)),
                10 => op_clone_tx(),
                11 => {
                    if let Some(i) = pick_tx() {
                        if !tx_borrowed(i) && (open_txs() > 1 || chance(1, 3)) {
                            op_drop_tx(i, un(2));
                        }
                    }
                }
                12 => {
                    if !rx_borrowed() && chance(1, 4) {
                        op_drop_rx(un(2));
                    }
                }
                13 => op_is_closed(),
                _ => op_debug(),
            }
            check_rx("afterwards");
            world::check_allocs("operation");
        }
        wind_down(unwind);
    }

    fn release_all() {
        while !s().gds.is_empty() {
            let k = gen(s().gds.len() as u32) as usize;
            op_release(k, false);
            check_rx("afterwards");
        }
    }

    fn wind_down(unwind: bool) {
        tr!("-- winding down");
        if s().sends.is_empty() && s().recvs.is_empty() && chance(1, 20) {
            forget();
        }
        release_all();
        // the waiting receive first
        if !s().recvs.is_empty() {
            let woken = |_: ()| match s().rx_wait {
                Some((w, n, _)) => wt().w[w].wakes > n,
                None => true,
            };
            for _ in 0..20 {
                if s().recvs.is_empty() {
                    break;
                }
                // senders that were woken
                if let Some(k) = s().sends.iter().position(|f| matches!(f.st, FS::Notified | FS::Closed)) {
                    run_send(k);
                    release_all();
                } else if woken(()) {
                    run_recv(false);
                    release_all();
                } else if let Some(i) = (0..s().txs.len()).find(|&i| s().txs[i].is_some()) {
                    // nothing there: give it a message, or the end
                    if !tx_borrowed(i) && chance(1, 3) {
                        op_drop_tx(i, false);
                    } else {
                        op_try_send();
                    }
                    check_rx("winding down");
                }
            }
            ck(s().recvs.is_empty(), "rxlost", || "a receive never ended".into());
        }
        let how = gen(3);
        if s().rx.is_some() && how == 2 {
            op_drop_rx(false);
        }
        for round in 0..80 + 4 * s().flv.cap {
            if let Some(k) = s().sends.iter().position(|f| matches!(f.st, FS::Notified | FS::Closed)) {
                run_send(k);
                release_all();
            } else if s().rx.is_some() && (head_ready().is_some() || round == 0) {
                op_try_recv(how == 1);
                release_all();
            } else {
                break;
            }
        }
        if !s().sends.is_empty() {
            let l: Vec<usize> = s().sends.iter().map(|f| f.id).collect();
            let k = if s().rx_gone { "closelost" } else { "txlost" };
            ck(false, k, || format!("senders {l:?} still wait"));
        }
        if !s().rx_gone {
            ck(s().head == s().tail, "order", || format!("{} messages were sent but never received", s().tail - s().head));
        }
        drop_handles(unwind);
    }
}
