//! Queue suites: generated programs over `ThingBuf` / `StaticThingBuf`, run
//! sequentially or under generated schedules, judged by a ring-buffer model
//! through a linearizability search.
use crate::engine::{chance, gen, weighted, Failure, Report};
use crate::rt::{self, fail, Cfg, NoLib, Outcome};
use crate::tr;
use crate::world::{self, behav, lib, w, Injected, Pol, Tok};
use crate::lin::{judge, pt, Event, Params, Pt, K};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use thingbuf::{recycling::DefaultRecycle, Ref, StaticThingBuf};

type G = Ref<'static, Tok>;

pub trait Q {
    fn capacity(&self) -> usize;
    fn len(&self) -> usize;
    fn remaining(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn push(&self, t: Tok) -> Result<(), Tok>;
    fn push_ref(&'static self) -> Option<G>;
    fn push_with(&self, f: &mut dyn FnMut(&mut Tok)) -> bool;
    fn pop(&self) -> Option<Tok>;
    fn pop_ref(&'static self) -> Option<G>;
    fn pop_with(&self, f: &mut dyn FnMut(&mut Tok)) -> bool;
    fn debug(&self) -> String;
}

macro_rules! impl_q {
    ([$($g:tt)*] $ty:ty) => {
        impl<$($g)*> Q for $ty {
            fn capacity(&self) -> usize { self.capacity() }
            fn len(&self) -> usize { self.len() }
            fn remaining(&self) -> usize { self.remaining() }
            fn is_empty(&self) -> bool { self.is_empty() }
            fn push(&self, t: Tok) -> Result<(), Tok> { self.push(t).map_err(|e| e.into_inner()) }
            fn push_ref(&'static self) -> Option<G> { self.push_ref().ok() }
            fn push_with(&self, f: &mut dyn FnMut(&mut Tok)) -> bool { self.push_with(|t| f(t)).is_ok() }
            fn pop(&self) -> Option<Tok> { self.pop() }
            fn pop_ref(&'static self) -> Option<G> { self.pop_ref() }
            fn pop_with(&self, f: &mut dyn FnMut(&mut Tok)) -> bool { self.pop_with(|t| f(t)).is_some() }
            fn debug(&self) -> String { let _n = NoLib::new(); format!("{:?}", self) }
        }
    };
}

#[cfg(feature = "alloc")]
impl_q!([] thingbuf::ThingBuf<Tok, Pol>);
#[cfg(feature = "alloc")]
impl_q!([] thingbuf::ThingBuf<Tok, DefaultRecycle>);
impl_q!([const N: usize] StaticThingBuf<Tok, N, Pol>);
impl_q!([const N: usize] StaticThingBuf<Tok, N, DefaultRecycle>);

const STATIC_CAPS: [usize; 9] = [1, 2, 3, 4, 5, 7, 8, 15, 16];

fn mk_static(cap: usize, pol: bool) -> Box<dyn Q> {
    macro_rules! m {
        ($($n:literal)*) => {
            match cap {
                $($n => if pol {
                    Box::new(StaticThingBuf::<Tok, $n, Pol>::with_recycle(Pol::new()))
                } else {
                    Box::new(StaticThingBuf::<Tok, $n>::new())
                },)*
                _ => unreachable!(),
            }
        };
    }
    m!(1 2 3 4 5 7 8 15 16)
}

#[derive(Clone, Copy, Debug)]
pub struct Flavour {
    pub stat: bool,
    pub pol: bool,
    pub cap: usize,
}

pub fn make(f: Flavour) -> Box<dyn Q> {
    #[cfg(feature = "alloc")]
    if !f.stat {
        return if f.pol {
            Box::new(thingbuf::ThingBuf::with_recycle(f.cap, Pol::new()))
        } else {
            Box::new(thingbuf::ThingBuf::<Tok>::new(f.cap))
        };
    }
    mk_static(f.cap, f.pol)
}

pub fn gen_flavour(big: bool) -> Flavour {
    let pol = gen(3) < 2;
    let stat = if cfg!(feature = "alloc") { chance(1, 3) } else { true };
    let forced = unsafe { crate::ch::FORCE_STAT };
    let stat = forced.unwrap_or(stat);
    let i = if big {
        weighted(&[6, 6, 5, 4, 3, 3, 3, 1, 1])
    } else {
        weighted(&[6, 7, 4, 2, 1, 0, 0, 0, 0])
    };
    let mut cap = STATIC_CAPS[i];
    if !stat && forced.is_none() && big && chance(1, 12) {
        cap = 1 + gen(70) as usize;
    }
    Flavour { stat, pol, cap }
}

struct C {
    q: &'static dyn Q,
    cap: usize,
    flv: Flavour,
    ev: Vec<Event>,
    /// value -> serial of the element it was stored in
    serial: HashMap<u64, u32>,
    /// elements published without having been written: serial -> event key
    anon: HashMap<u32, u64>,
    next_val: u64,
    base: usize,
    taken: u64,
    claims: u64,
    expect_news: bool,
    /// sequential only: element in each slot
    slots: Option<Vec<Option<u32>>>,
    t: usize,
    h: usize,
    lenient: bool,
    single: bool,
    ops_ok: u32,
    ops_no: u32,
    held_max: u32,
    panics: u32,
    gated: Vec<usize>,
    behind: bool,
}

struct Glob(std::cell::UnsafeCell<Option<C>>);
unsafe impl Sync for Glob {}
static CASE: Glob = Glob(std::cell::UnsafeCell::new(None));
fn c() -> &'static mut C {
    unsafe { (*CASE.0.get()).as_mut().unwrap() }
}

struct Held {
    g: Option<G>,
    push: bool,
    val: u64,
}

fn ev(k: K, inv: Pt, resp: Pt) {
    behav(match k {
        K::Claim(v) => 1 + v * 8,
        K::Pub(v) => 2 + v * 8,
        K::Pop(v) => 3 + v * 8,
        K::Rel(v) => 4 + v * 8,
        K::Full => 5,
        K::Empty => 6,
        K::Len(n) => 7 + n as u64 * 8,
        _ => 0,
    } + rt::cur() as u64 * 1000003);
    c().ev.push(Event { k, inv, resp });
}

fn fresh() -> u64 {
    c().next_val += 1;
    c().next_val
}

/// bookkeeping after a reservation whose guard shows `t`
fn reserved(t: &Tok, from: usize, what: &str) {
    c().claims += 1;
    if c().lenient {
        t.check(what);
        return;
    }
    world::check_reserved(t, from, what);
    if let Some(s) = &mut c().slots {
        let i = c().t % c().cap;
        match s[i] {
            Some(x) if x != t.serial => fail(
                "recycle",
                format!("{what}: slot {i} held element #{x} but the guard shows #{}", t.serial),
            ),
            _ => {}
        }
        s[i] = Some(t.serial);
    }
    c().t += 1;
}

fn reserved_by_value(from: usize, serial: u32, what: &str) {
    c().claims += 1;
    if c().lenient {
        return;
    }
    let evs = world::log_now()[from..].to_vec();
    if evs.len() != 1 {
        fail("recycle", format!("{what}: {} policy calls for one reservation: {:?}", evs.len(), evs));
    }
    if let Some(s) = &mut c().slots {
        let i = c().t % c().cap;
        let ok = match (s[i], evs[0]) {
            (None, world::PolEv::New(_)) => true,
            (Some(x), world::PolEv::Recycle(y)) => x == y,
            _ => false,
        };
        if !ok {
            fail(
                "recycle",
                format!("{what}: slot {i} held {:?} but the policy call was {:?}", s[i], evs[0]),
            );
        }
        s[i] = Some(serial);
    }
    c().t += 1;
}

/// The key of a popped element in the history.
fn key(t: &Tok) -> u64 {
    if t.val == world::FRESH {
        match c().anon.get(&t.serial) {
            Some(&k) => k,
            None => u64::MAX - 1,
        }
    } else {
        t.val
    }
}

fn popped(t: &Tok, what: &str) {
    t.check(what);
    if let Some(&s) = c().serial.get(&t.val) {
        if s != t.serial {
            fail(
                "recycle",
                format!("{what}: value {} was written to element #{s} but is shown in #{}", t.val, t.serial),
            );
        }
    }
    if let (Some(s), false) = (&c().slots, c().lenient) {
        let i = c().h % c().cap;
        if s[i] != Some(t.serial) {
            fail(
                "recycle",
                format!("{what}: slot {i} held {:?} but element #{} was popped", s[i], t.serial),
            );
        }
    }
    c().h += 1;
}

fn popped_by_value(from: usize, what: &str) {
    c().taken += 1;
    if c().lenient {
        return;
    }
    let evs = world::log_now()[from..].to_vec();
    match evs.as_slice() {
        [world::PolEv::New(s)] => {
            if let Some(sl) = &mut c().slots {
                let i = (c().h + c().cap - 1) % c().cap;
                sl[i] = Some(*s);
            }
        }
        _ => fail("recycle", format!("{what}: policy calls {:?}, expected one new element", evs)),
    }
}

fn op_push() {
    let v = fresh();
    let tok = Tok::user(v);
    let serial = tok.serial;
    let from = world::log_len();
    rt::op_begin("push", true);
    let i = pt();
    let r = lib(|| c().q.push(tok));
    let e = pt();
    rt::op_end();
    match r {
        Ok(()) => {
            tr!("push({v}) -> ok");
            c().serial.insert(v, serial);
            c().ops_ok += 1;
            ev(K::Claim(v), i, e);
            ev(K::Pub(v), i, e);
            reserved_by_value(from, serial, "push");
        }
        Err(t) => {
            tr!("push({v}) -> full");
            c().ops_no += 1;
            ev(K::Full, i, e);
            t.check("refused push");
            if t.serial != serial || t.val != v {
                fail("giveback", format!("push: refused value {v} (#{serial}) came back as {} (#{})", t.val, t.serial));
            }
            world::check_no_policy(from, "push");
        }
    }
}

fn op_push_ref(held: &mut Vec<Held>) {
    let from = world::log_len();
    rt::op_begin("push_ref", true);
    let i = pt();
    let r = lib(|| c().q.push_ref());
    let e = pt();
    rt::op_end();
    match r {
        Some(mut g) => {
            let v = fresh();
            tr!("push_ref -> guard, writes {v}");
            world::guard_on(&g, "push");
            reserved(&g, from, "push_ref");
            c().ops_ok += 1;
            ev(K::Claim(v), i, e);
            rt::step();
            g.set(v);
            c().serial.insert(v, g.serial);
            held.push(Held {
                g: Some(g),
                push: true,
                val: v,
            });
        }
        None => {
            tr!("push_ref -> full");
            c().ops_no += 1;
            ev(K::Full, i, e);
            world::check_no_policy(from, "push_ref");
        }
    }
    c().held_max = c().held_max.max(held.len() as u32);
}

/// mode 0: normal, 1: the closure panics before writing, 2: after writing
fn op_push_with(mode: u32) {
    let v = fresh();
    let from = world::log_len();
    rt::op_begin("push_with", true);
    let i = pt();
    let mut mid = None;
    let mut f = |t: &mut Tok| {
        let _n = NoLib::new();
        let a = pt();
        reserved(t, from, "push_with");
        world::guard_on(t, "push");
        rt::step();
        if mode != 1 {
            t.set(v);
            c().serial.insert(v, t.serial);
        } else {
            c().anon.insert(t.serial, v);
        }
        world::guard_off(t);
        mid = Some((a, pt()));
        if mode != 0 {
            world::inject();
        }
    };
    let r = if mode == 0 {
        Ok(lib(|| c().q.push_with(&mut f)))
    } else {
        catch_unwind(AssertUnwindSafe(|| lib(|| c().q.push_with(&mut f))))
    };
    let e = pt();
    rt::op_end();
    let called = mid.is_some();
    match r {
        Ok(true) | Err(_) => {
            if r.is_err() {
                c().panics += 1;
            }
            let (a, b) = match mid {
                Some(m) => m,
                None => {
                    fail("panic", "push_with panicked by itself".into());
                    return;
                }
            };
            tr!("push_with({v}) -> {}", if r.is_ok() { "ok" } else { "panicked" });
            c().ops_ok += 1;
            ev(K::Claim(v), i, a);
            ev(K::Pub(v), b, e);
        }
        Ok(false) => {
            tr!("push_with -> full");
            c().ops_no += 1;
            if called {
                fail("giveback", "push_with reported full but ran its closure".into());
            }
            ev(K::Full, i, e);
            world::check_no_policy(from, "push_with");
        }
    }
}

fn op_pop() {
    let from = world::log_len();
    rt::op_begin("pop", true);
    let i = pt();
    let r = lib(|| c().q.pop());
    let e = pt();
    rt::op_end();
    match r {
        Some(t) => {
            tr!("pop -> {} (#{})", t.val, t.serial);
            popped(&t, "pop");
            if let world::Own::Guard = t.info().own {
                fail("alias", format!("pop returned element #{} while a guard refers to it", t.serial));
            }
            c().ops_ok += 1;
            ev(K::Pop(key(&t)), i, e);
            ev(K::Rel(key(&t)), i, e);
            popped_by_value(from, "pop");
        }
        None => {
            tr!("pop -> none");
            c().ops_no += 1;
            ev(K::Empty, i, e);
            world::check_no_policy(from, "pop");
        }
    }
}

fn op_pop_ref(held: &mut Vec<Held>, change: bool) {
    let from = world::log_len();
    rt::op_begin("pop_ref", true);
    let i = pt();
    let r = lib(|| c().q.pop_ref());
    let e = pt();
    rt::op_end();
    match r {
        Some(mut g) => {
            world::guard_on(&g, "pop");
            popped(&g, "pop_ref");
            let v = key(&g);
            tr!("pop_ref -> {v} (#{})", g.serial);
            c().ops_ok += 1;
            ev(K::Pop(v), i, e);
            world::check_no_policy(from, "pop_ref");
            if change {
                g.set(0xDEAD_0000 + v);
            }
            held.push(Held {
                g: Some(g),
                push: false,
                val: v,
            });
        }
        None => {
            tr!("pop_ref -> none");
            c().ops_no += 1;
            ev(K::Empty, i, e);
            world::check_no_policy(from, "pop_ref");
        }
    }
    c().held_max = c().held_max.max(held.len() as u32);
}

fn op_pop_with(mode: u32) {
    let from = world::log_len();
    rt::op_begin("pop_with", true);
    let i = pt();
    let mut mid = None;
    let mut f = |t: &mut Tok| {
        let _n = NoLib::new();
        let a = pt();
        world::guard_on(t, "pop");
        popped(t, "pop_with");
        let v = key(t);
        let seen = t.val;
        rt::step();
        if t.val != seen {
            fail("torn", "element changed under a pop guard".into());
        }
        world::guard_off(t);
        mid = Some((v, a, pt()));
        if mode != 0 {
            world::inject();
        }
    };
    let r = if mode == 0 {
        Ok(lib(|| c().q.pop_with(&mut f)))
    } else {
        catch_unwind(AssertUnwindSafe(|| lib(|| c().q.pop_with(&mut f))))
    };
    let e = pt();
    rt::op_end();
    match (r, mid) {
        (Ok(true), Some((v, a, b))) | (Err(_), Some((v, a, b))) => {
            tr!("pop_with -> {v}{}", if mode == 0 { "" } else { " (panicked)" });
            c().ops_ok += 1;
            ev(K::Pop(v), i, a);
            ev(K::Rel(v), b, e);
        }
        (Ok(false), None) => {
            tr!("pop_with -> none");
            c().ops_no += 1;
            ev(K::Empty, i, e);
        }
        _ => fail("giveback", "pop_with's result does not match whether its closure ran".into()),
    }
    if mode != 0 {
        c().panics += 1;
    }
    world::check_no_policy(from, "pop_with");
}

fn release(mut h: Held, unwind: bool) {
    let g = h.g.take().unwrap();
    g.check("guard");
    if h.push && g.val != h.val {
        fail("torn", format!("element changed under a push guard: wrote {}, now {}", h.val, g.val));
    }
    world::guard_off(&g);
    rt::op_begin("guard release", true);
    let i = pt();
    if unwind {
        let r = catch_unwind(AssertUnwindSafe(|| {
            lib(move || {
                let _g = g;
                world::inject();
            })
        }));
        c().panics += 1;
        debug_assert!(r.is_err());
    } else {
        lib(move || drop(g));
    }
    let e = pt();
    rt::op_end();
    tr!("release {} guard {}", if h.push { "push" } else { "pop" }, h.val);
    ev(if h.push { K::Pub(h.val) } else { K::Rel(h.val) }, i, e);
}

fn op_len(which: u32) {
    rt::op_begin("len", true);
    let i = pt();
    let cap = c().cap;
    let (n, name) = match which {
        0 => (Some(lib(|| c().q.len())), "len"),
        1 => {
            let r = lib(|| c().q.remaining());
            if r > cap {
                fail("acct", format!("remaining() = {r} exceeds the capacity {cap}"));
            }
            (Some(cap - r), "remaining")
        }
        2 => {
            let e = lib(|| c().q.is_empty());
            if e {
                (Some(0), "is_empty")
            } else {
                (None, "is_empty")
            }
        }
        _ => {
            let k = lib(|| c().q.capacity());
            if k != cap {
                fail("acct", format!("capacity() = {k} but the queue was made with {cap}"));
            }
            (None, "capacity")
        }
    };
    let e = pt();
    rt::op_end();
    tr!("{name} -> len {:?}", n);
    if let Some(n) = n {
        ev(K::Len(n), i, e);
    } else if which == 2 && c().single && c().t == c().h && !c().lenient {
        fail("acct", "is_empty() is false on an empty queue".into());
    }
}

#[derive(Clone, Debug)]
enum Op {
    Push,
    Pop,
    PushRef,
    PopRef(bool),
    PushWith(u32),
    PopWith(u32),
    Release(u32, bool),
    Len(u32),
    Debug,
    PolPanic(bool, u32),
}

fn gen_op(panics: bool, pol_panics: bool, seq: bool, bias: u32) -> Op {
    // bias 0: balanced, 1: mostly pushing, 2: mostly popping
    let (a, b) = match bias {
        1 => (3, 1),
        2 => (1, 3),
        _ => (2, 2),
    };
    match weighted(&[
        4 * a,
        4 * b,
        4 * a,
        4 * b,
        2 * a,
        2 * b,
        if seq { 8 } else { 6 },
        if seq { 5 } else { 2 },
        if seq { 1 } else { 0 },
        if pol_panics { 6 } else { 0 },
    ]) {
        0 => Op::Push,
        1 => Op::Pop,
        2 => Op::PushRef,
        3 => Op::PopRef(chance(1, 3)),
        4 => Op::PushWith(if panics { gen(3) } else { 0 }),
        5 => Op::PopWith(if panics { gen(2) } else { 0 }),
        6 => Op::Release(gen(8), panics && chance(1, 3)),
        7 => Op::Len(gen(4)),
        8 => Op::Debug,
        _ => Op::PolPanic(gen(2) == 0, gen(4)),
    }
}

fn exec(op: &Op, held: &mut Vec<Held>) {
    match *op {
        Op::Push => op_push(),
        Op::Pop => op_pop(),
        Op::PushRef => op_push_ref(held),
        Op::PopRef(ch) => op_pop_ref(held, ch),
        Op::PushWith(m) => op_push_with(m),
        Op::PopWith(m) => op_pop_with(m),
        Op::Release(k, unwind) => {
            if !held.is_empty() {
                let i = k as usize % held.len();
                let h = held.remove(i);
                release(h, unwind)
            }
        }
        Op::Len(k) => op_len(k),
        Op::Debug if unsafe { crate::ch::SKIP_FMT } => {}
        Op::Debug => {
            rt::op_begin("fmt", true);
            let s = lib(|| c().q.debug());
            rt::op_end();
            if !s.contains("ThingBuf") {
                fail("acct", format!("Debug output is {s:?}"));
            }
        }
        Op::PolPanic(push, kind) => op_pol_panic(push, kind, held),
    }
}

/// An operation during which the recycling policy panics. Afterwards only the
/// memory-safety part of the oracle applies.
fn op_pol_panic(push: bool, kind: u32, held: &mut Vec<Held>) {
    c().lenient = true;
    c().slots = None;
    c().expect_news = false;
    if kind > 2 {
        w().drop_panic = true;
    } else {
        w().pol_panic = 1;
    }
    rt::op_begin(if push { "push (policy panics)" } else { "pop (policy panics)" }, true);
    let before = w().pol_panics;
    let r = catch_unwind(AssertUnwindSafe(|| {
        lib(|| {
            if push {
                match kind {
                    0 | 3 => drop(c().q.push(Tok::user(fresh()))),
                    1 => drop(c().q.push_with(&mut |_| ())),
                    _ => drop(c().q.push_ref()),
                }
            } else {
                drop(c().q.pop())
            }
        })
    }));
    rt::op_end();
    w().pol_panic = 0;
    w().drop_panic = false;
    if let Err(p) = &r {
        if !p.is::<Injected>() {
            let m = rt::take_panic_message(&**p);
            fail("panic", format!("operation panicked: {m}"));
        }
    }
    if w().pol_panics > before {
        c().panics += 1;
        if r.is_ok() {
            tr!("policy panic was swallowed");
        }
    }
    tr!("policy panics in {}", if push { "push" } else { "pop" });
    let _ = held;
}

// --- cases --------------------------------------------------------------------

fn begin_case(flv: Flavour, describe: bool, single: bool, cfg: Cfg) -> bool {
    world::reset(describe);
    crate::alloc::case_begin();
    rt::begin(cfg);
    let q: &'static dyn Q = {
        let b = make(flv);
        Box::leak(b)
    };
    unsafe {
        *CASE.0.get() = Some(C {
            q,
            cap: flv.cap,
            flv,
            ev: Vec::new(),
            serial: HashMap::new(),
            anon: HashMap::new(),
            next_val: 0,
            base: 0,
            taken: 0,
            claims: 0,
            expect_news: true,
            slots: if single { Some(vec![None; flv.cap]) } else { None },
            t: 0,
            h: 0,
            lenient: false,
            single,
            ops_ok: 0,
            ops_no: 0,
            held_max: 0,
            panics: 0,
            gated: Vec::new(),
            behind: false,
        });
    }
    true
}

/// Final phase, run as a thread: everything has been released.
fn drain() {
    let mut held = Vec::new();
    let n = c().ev.len();
    let _ = n;
    op_len(0);
    loop {
        op_pop_ref(&mut held, false);
        match held.pop() {
            Some(h) => release(h, false),
            None => break,
        }
    }
    op_len(0);
}

/// After the history: an empty, idle queue holds exactly `capacity` elements.
fn fill_check() {
    let cap = c().cap;
    let q = c().q;
    if c().lenient {
        return;
    }
    if q.len() != 0 || !q.is_empty() || q.remaining() != cap {
        fail(
            "acct",
            format!("drained queue: len {}, is_empty {}, remaining {}, capacity {cap}", q.len(), q.is_empty(), q.remaining()),
        );
    }
    rt::op_begin("push", true);
    for k in 0..cap {
        if q.push(Tok::user(1_000_000 + k as u64)).is_err() {
            fail("full", format!("push refused with {k} of {cap} slots in use"));
        }
        c().claims += 1;
        if q.len() != k + 1 || q.remaining() != cap - k - 1 {
            fail("acct", format!("after {} pushes: len {}, remaining {}", k + 1, q.len(), q.remaining()));
        }
    }
    match q.push(Tok::user(77)) {
        Ok(()) => fail("full", format!("push accepted with all {cap} slots in use")),
        Err(t) => {
            t.check("refused push");
            if t.val != 77 {
                fail("giveback", "refused value changed".into());
            }
        }
    }
    let leave = c().next_val as usize % (cap + 1);
    for k in 0..leave {
        match q.pop() {
            Some(t) if t.val == 1_000_000 + k as u64 => c().taken += 1,
            o => fail("order", format!("expected {}, got {:?}", 1_000_000 + k, o.map(|t| t.val))),
        }
    }
    rt::op_end();
}

fn finish(run_failed: bool, weak: bool, describe: bool) -> Report {
    let mut failure = None;
    if !run_failed {
        failure = judge(
            &c().ev,
            &Params {
                cap: c().cap,
                base: c().base,
                single: c().single,
                weak,
                txs: 1,
            },
        );
    }
    let mut rep = Report::default();
    let cs = c();
    let (steps_pre, stale, frozen) = (rt::rt().switches_in_op, rt::rt().stale_reads, rt::rt().frozen_count);
    if !run_failed && failure.is_none() {
        // fill, empty and drop the queue on a fresh thread
        rt::spawn(|| {
            fill_check();
            let expect = (c().claims.min(c().cap as u64)) + c().taken;
            let q = c().q as *const dyn Q as *mut dyn Q;
            // first use of a slot or replacement, nothing else
            let first = c().claims.min(c().cap as u64) + (c().base.min(c().cap) as u64).saturating_sub(0) * 0;
            let _ = first;
            if c().expect_news && w().news != expect {
                fail(
                    "recycle",
                    format!("{} elements were made by the policy, expected {expect} ({} reservations, {} taken by value)", w().news, c().claims, c().taken),
                );
            }
            rt::op_begin("drop", true);
            drop(unsafe { Box::from_raw(q) });
            rt::op_end();
            world::check_all_dropped();
        });
        rt::rt().fair = true;
        rt::rt().step_limit = rt::rt().steps + 20_000 + c().cap as u64 * 400;
        if let Outcome::Quiescent = rt::run() {
            rt::set_failure("deadlock", "dropping the queue blocks".into());
        }
    }
    let rtf = rt::end();
    crate::alloc::case_end();
    if failure.is_none() {
        failure = rtf;
    }
    if failure.is_none() && unsafe { crate::alloc::LIB_ALLOCS + crate::alloc::LIB_FREES } > 0 {
        failure = Some(Failure {
            kind: "alloc",
            msg: format!(
                "queue operations called the allocator: {} allocations, {} frees, last size {}",
                unsafe { crate::alloc::LIB_ALLOCS },
                unsafe { crate::alloc::LIB_FREES },
                unsafe { crate::alloc::LAST_SIZE }
            ),
        });
    }
    rep.sig = w().behav;
    let mut l = Vec::new();
    l.push(if cs.flv.stat { "static" } else { "dynamic" });
    if cs.t > cs.cap || cs.claims as usize > cs.cap {
        l.push("wrapped");
    }
    if cs.ops_no > 0 {
        l.push("refused");
    }
    if cs.held_max > 1 {
        l.push("several-guards");
    }
    if cs.behind {
        l.push("guards-held-to-end");
    }
    if !w().forgotten.is_empty() {
        l.push("guard-forgotten");
    }
    if cs.panics > 0 {
        l.push("panic");
    }
    if steps_pre > 0 {
        l.push("preempted-in-op");
    }
    if stale > 0 {
        l.push("stale-read");
    }
    if frozen > 0 {
        l.push("frozen");
    }
    rep.nontrivial = if cs.single {
        cs.ops_ok >= 3 && (cs.ops_no > 0 || cs.claims as usize > cs.cap || cs.held_max > 1)
    } else {
        cs.ops_ok >= 2 && steps_pre > 0
    };
    rep.labels = l;
    if describe {
        let mut s = format!("{:?} base={}\n", cs.flv, cs.base);
        s.push_str(&w().trace.join("\n"));
        if let Some(f) = &failure {
            s.push_str(&format!("\n=> {}: {}", f.kind, f.msg));
        }
        rep.desc = s;
    }
    rep.failure = failure;
    unsafe { *CASE.0.get() = None };
    rep
}

fn plain_cfg() -> Cfg {
    Cfg {
        gap: 0,
        weak: false,
        spurious_cas: false,
        spurious_park: false,
        timejump: false,
        freeze: 0,
    }
}

fn seq_case(describe: bool, panics: bool, pol_panics: bool) -> Report {
    let flv = gen_flavour(true);
    let n = 4 + gen(if flv.cap > 16 { 220 } else { 70 });
    let mut bias = gen(3);
    let ops: Vec<Op> = (0..n)
        .map(|_| {
            if chance(1, 10) {
                bias = gen(3);
            }
            gen_op(panics, pol_panics && chance(1, 4), true, bias)
        })
        .collect();
    let mut cfg = plain_cfg();
    cfg.spurious_cas = chance(1, 4);
    begin_case(flv, describe, true, cfg);
    let leave = chance(1, 3);
    let forget = leave && chance(1, 4);
    rt::rt().step_limit = 60_000;
    let base = if cfg!(thingbuf_vp_wrap) { crate::ch::position(flv.cap) } else { 0 };
    rt::spawn(move || {
        let mut held = Vec::new();
        for _ in 0..base {
            op_push();
            op_pop();
        }
        for op in &ops {
            exec(op, &mut held);
        }
        while !held.is_empty() {
            let mut h = held.remove(0);
            if forget && chance(1, 2) {
                let g = h.g.take().unwrap();
                g.check("guard");
                tr!("forget {} guard {}", if h.push { "push" } else { "pop" }, h.val);
                w().forgotten.push(g.serial);
                world::guard_off(&g);
                std::mem::forget(g);
            } else {
                release(h, false);
            }
        }
        if !leave {
            drain();
        } else {
            // drop it with whatever it contains
            c().lenient = true;
        }
    });
    let failed = match rt::run() {
        Outcome::Done => false,
        Outcome::Failed => true,
        Outcome::Quiescent => {
            rt::set_failure("deadlock", "single thread blocked".into());
            true
        }
    };
    let was_lenient = c().lenient;
    let rep = {
        if was_lenient {
            // after a policy panic the exact history no longer applies
            if c().expect_news {
                let mut r = finish(failed, false, describe);
                r.labels.push("left-nonempty");
                r
            } else {
                c().ev.clear();
                finish(failed, false, describe)
            }
        } else {
            finish(failed, false, describe)
        }
    };
    rep
}

pub fn seqq(describe: bool) -> Report {
    seq_case(describe, false, false)
}
pub fn seqq_panic(describe: bool) -> Report {
    let p = chance(1, 2);
    seq_case(describe, true, p)
}

fn conc(describe: bool, weak: bool, freeze: bool, panics: bool) -> Report {
    let flv = gen_flavour(false);
    let nth = 2 + weighted(&[4, 4, 2]);
    let base = crate::ch::position(flv.cap);
    let prefill = gen(flv.cap as u32 + 1) as usize;
    let total = if nth == 2 { 5 } else { 4 };
    let mut progs = Vec::new();
    for _ in 0..nth {
        let bias = gen(3);
        let n = 1 + gen(total);
        let p: Vec<Op> = (0..n).map(|_| gen_op(panics, false, false, bias)).collect();
        let hold = chance(1, 4);
        progs.push((p, hold));
    }
    let cfg = Cfg {
        gap: [3, 6, 12, 30][gen(4) as usize],
        weak,
        spurious_cas: chance(1, 3),
        spurious_park: false,
        timejump: false,
        freeze: if freeze { 1 + gen(2) } else { 0 },
    };
    begin_case(flv, describe, false, cfg);
    // start several laps in
    rt::rt().cfg.gap = 0;
    rt::spawn(move || {
        rt::rt().fair = true;
        for _ in 0..base {
            let q = c().q;
            if q.push(Tok::user(u64::MAX)).is_err() {
                fail("full", "push refused on an empty queue".into());
            }
            c().claims += 1;
            match q.pop() {
                Some(_) => c().taken += 1,
                None => fail("order", "sequential push/pop lost an element".into()),
            }
        }
        c().base = base;
        for _ in 0..prefill {
            op_push();
        }
    });
    let mut failed = matches!(rt::run(), Outcome::Failed);
    rt::rt().fair = false;
    rt::rt().cfg = cfg;
    rt::redraw();
    rt::rt().step_limit = rt::rt().steps + 6000;
    if !failed {
        for (p, hold) in progs {
            let id = rt::spawn(move || {
                let mut held: Vec<Held> = Vec::new();
                for op in &p {
                    exec(op, &mut held);
                }
                if hold && !held.is_empty() {
                    c().behind = true;
                    c().gated.push(rt::cur());
                    rt::gate_wait();
                }
                while !held.is_empty() {
                    let h = held.remove(0);
                    release(h, false);
                }
            });
            rt::rt().th[id].freezable = freeze;
        }
        loop {
            match rt::run() {
                Outcome::Done => break,
                Outcome::Failed => {
                    failed = true;
                    break;
                }
                Outcome::Quiescent => {
                    // only stopped threads and guard holders are left
                    rt::thaw_all();
                    for t in std::mem::take(&mut c().gated) {
                        rt::gate_open(t);
                    }
                    if rt::rt().th.iter().all(|t| t.st != rt::St::Run) {
                        rt::set_failure("deadlock", "queue operation blocked".into());
                        failed = true;
                        break;
                    }
                }
            }
        }
    }
    if !failed {
        rt::rt().fair = true;
        rt::rt().step_limit = rt::rt().steps + 30_000;
        rt::spawn(drain);
        failed = !matches!(rt::run(), Outcome::Done);
    }
    finish(failed, weak, describe)
}

pub fn concq(describe: bool) -> Report {
    let panics = crate::ch::panics(8);
    conc(describe, false, false, panics)
}
pub fn concq_weak(describe: bool) -> Report {
    let panics = crate::ch::panics(8);
    conc(describe, true, false, panics)
}
pub fn concq_freeze(describe: bool) -> Report {
    let weak = chance(1, 4);
    conc(describe, weak, true, false)
}
