//! The controlled runtime behind `thingbuf::vp`: a deterministic scheduler over
//! coroutines, a view-based simulation of the C11 release/acquire memory model,
//! a vector-clock race detector, virtual time, and hang / deadlock detection.
//! All decisions come from the engine's ENV choice stream.

use crate::engine::{env, Failure};
use core::sync::atomic::{AtomicBool, AtomicU64, Ordering, Ordering::*};
use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};
use std::collections::VecDeque;
use std::rc::Rc;
use std::time::Duration;
use thingbuf::vp::{Obj, Runtime};

pub const MAXT: usize = 12;
const STACK: usize = 128 * 1024;
const MAGIC: u64 = 0x6B5D;

#[derive(Clone, Default)]
pub struct Sy {
    view: Vec<u32>,
    vc: [u32; MAXT],
}

impl Sy {
    fn join(&mut self, o: &Sy) {
        for i in 0..MAXT {
            if o.vc[i] > self.vc[i] {
                self.vc[i] = o.vc[i];
            }
        }
        self.join_view(&o.view);
    }
    fn join_view(&mut self, o: &[u32]) {
        if self.view.len() < o.len() {
            self.view.resize(o.len(), 0);
        }
        for (a, &b) in self.view.iter_mut().zip(o) {
            if b > *a {
                *a = b;
            }
        }
    }
    fn at(&self, loc: usize) -> u32 {
        self.view.get(loc).copied().unwrap_or(0)
    }
    fn set(&mut self, loc: usize, ts: u32) {
        if self.view.len() <= loc {
            self.view.resize(loc + 1, 0);
        }
        if self.view[loc] < ts {
            self.view[loc] = ts;
        }
    }
}

struct Msg {
    val: u64,
    sy: Option<Rc<Sy>>,
}

struct Loc {
    hist: VecDeque<Msg>,
    base: u32,
    /// each thread's last access
    acc: [u32; MAXT],
}

struct CellSt {
    w: (u8, u32),
    r: [u32; MAXT],
}

enum ObjSt {
    Loc(Loc),
    Cell(CellSt),
    /// lock or reference count: what its last release published
    Sync(Sy),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Run,
    Lock(u64),
    Park(Option<Duration>),
    Task,
    Gate,
    Frozen,
    Done,
}

pub struct Th {
    co: Option<Coroutine<(), (), (), DefaultStack>>,
    yielder: *const Yielder<(), ()>,
    pub st: St,
    sy: Sy,
    acq: Sy,
    rel: Sy,
    park_token: bool,
    park_sy: Sy,
    task_token: bool,
    pub steps: u64,
    stay: u32,
    stale: u32,
    /// what the harness says this thread is doing
    pub op: &'static str,
    /// operation is documented as not waiting
    pub nonwaiting: bool,
    pub op_start: u64,
    pub op_deadline_len: Option<Duration>,
    pub first_read: Option<Duration>,
    pub last_read: Option<Duration>,
    pub freezable: bool,
    pub spurious: u32,
}

/// Per-case configuration of the environment.
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    /// upper bound for the distance between preemptions; 0: none
    pub gap: u32,
    pub weak: bool,
    pub spurious_cas: bool,
    pub spurious_park: bool,
    pub timejump: bool,
    pub freeze: u32,
}

pub struct Rt {
    pub on: bool,
    epoch: u64,
    pub cfg: Cfg,
    pub th: Vec<Th>,
    cur: usize,
    next: Option<usize>,
    objs: Vec<ObjSt>,
    /// where they are, 0 once that memory is gone
    addrs: Vec<usize>,
    sc: Sy,
    gap_left: u32,
    pub steps: u64,
    pub step_limit: u64,
    pub fair: bool,
    pub now: Duration,
    pub failure: Option<Failure>,
    stacks: Vec<DefaultStack>,
    rr: usize,
    pub preemptions: u32,
    pub stale_reads: u32,
    pub frozen_count: u32,
    pub seq: u64,
    pub panics_expected: bool,
    pub switches_in_op: u32,
    pub park_count: u32,
    pub timeouts_fired: u32,
    pub hang_after_fair: u64,
    locks_held: u32,
    /// timers fire only through `fire_timer`
    pub manual_timers: bool,
    /// thread 0 decides who runs (`stage_run`): it goes on whenever nobody
    /// else can, and woken threads stay where they are
    pub staged: bool,
}

struct G(std::cell::UnsafeCell<Option<Rt>>);
unsafe impl Sync for G {}
static RT: G = G(std::cell::UnsafeCell::new(None));

pub const NONE: usize = usize::MAX;

/// Short-lived access only: never hold the result across a context switch.
#[inline]
pub fn rt() -> &'static mut Rt {
    unsafe { (*RT.0.get()).as_mut().unwrap_unchecked() }
}

// --- allocation accounting flag: true while library code is running ----------
pub static mut LIB: bool = false;

pub struct NoLib(bool);
impl NoLib {
    #[inline]
    pub fn new() -> Self {
        unsafe {
            let old = LIB;
            LIB = false;
            NoLib(old)
        }
    }
}
impl Drop for NoLib {
    #[inline]
    fn drop(&mut self) {
        unsafe { LIB = self.0 }
    }
}

struct Hooks;
static HOOKS: Hooks = Hooks;
static HOOKS_DYN: &'static dyn Runtime = &HOOKS;

pub fn install() {
    unsafe {
        *RT.0.get() = Some(Rt {
            on: false,
            epoch: 0,
            cfg: Cfg {
                gap: 0,
                weak: false,
                spurious_cas: false,
                spurious_park: false,
                timejump: false,
                freeze: 0,
            },
            th: Vec::new(),
            cur: NONE,
            next: None,
            objs: Vec::new(),
            addrs: Vec::new(),
            sc: Sy::default(),
            gap_left: 0,
            steps: 0,
            step_limit: 6000,
            fair: false,
            now: Duration::ZERO,
            failure: None,
            stacks: Vec::new(),
            rr: 0,
            preemptions: 0,
            stale_reads: 0,
            frozen_count: 0,
            seq: 0,
            panics_expected: false,
            switches_in_op: 0,
            park_count: 0,
            timeouts_fired: 0,
            hang_after_fair: 30_000,
            locks_held: 0,
            manual_timers: false,
            staged: false,
        });
    }
    thingbuf::vp::set_runtime(&HOOKS_DYN);
}

/// Starts a new execution.
pub fn begin(cfg: Cfg) {
    let r = rt();
    r.epoch = (r.epoch + 1) & 0xFF_FFFF;
    r.cfg = cfg;
    debug_assert!(r.th.is_empty());
    r.cur = NONE;
    r.next = None;
    r.objs.clear();
    r.addrs.clear();
    r.sc = Sy::default();
    r.steps = 0;
    r.step_limit = 6000;
    r.fair = false;
    r.now = Duration::from_secs(1000);
    r.failure = None;
    r.rr = 0;
    r.preemptions = 0;
    r.stale_reads = 0;
    r.frozen_count = 0;
    r.seq = 0;
    r.switches_in_op = 0;
    r.park_count = 0;
    r.timeouts_fired = 0;
    r.hang_after_fair = 30_000;
    r.locks_held = 0;
    r.manual_timers = false;
    r.staged = false;
    draw_gap();
    r.on = true;
}

/// Ends the execution; unfinished coroutines are abandoned without unwinding.
pub fn end() -> Option<Failure> {
    let r = rt();
    r.on = false;
    for mut t in r.th.drain(..) {
        if let Some(mut co) = t.co.take() {
            if !co.done() && co.started() {
                unsafe { co.force_reset() };
                r.stacks.push(co.into_stack());
            } else if co.done() {
                r.stacks.push(co.into_stack());
            }
        }
    }
    r.cur = NONE;
    r.failure.take()
}

fn draw_gap() {
    let r = rt();
    let g = r.cfg.gap;
    r.gap_left = if g == 0 { 0 } else { env(g + 1) };
}

pub fn spawn(f: impl FnOnce() + 'static) -> usize {
    let r = rt();
    let id = r.th.len();
    assert!(id < MAXT);
    let stack = r
        .stacks
        .pop()
        .unwrap_or_else(|| DefaultStack::new(STACK).expect("stack"));
    // join edges from everything that has finished
    let mut sy = Sy::default();
    for t in &r.th {
        if t.st == St::Done {
            sy.join(&t.sy);
        }
    }
    sy.vc[id] = 1;
    let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        rt().th[id].yielder = y;
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let _n = NoLib::new();
        if let Err(p) = res {
            let msg = take_panic_message(&*p);
            set_failure("panic", format!("thread {id} ({}) panicked: {msg}", rt().th[id].op));
        }
    });
    r.th.push(Th {
        co: Some(co),
        yielder: core::ptr::null(),
        st: St::Run,
        sy,
        acq: Sy::default(),
        rel: Sy::default(),
        park_token: false,
        park_sy: Sy::default(),
        task_token: false,
        steps: 0,
        stay: 0,
        stale: 0,
        op: "",
        nonwaiting: false,
        op_start: 0,
        op_deadline_len: None,
        first_read: None,
        last_read: None,
        freezable: false,
        spurious: 0,
    });
    id
}

pub static mut LAST_PANIC: String = String::new();

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _n = NoLib::new();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<payload>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        unsafe {
            LAST_PANIC = format!("{} at {}", msg.lines().next().unwrap_or(""), loc);
        }
        if rt_uninit() || !rt().on {
            if info.payload().downcast_ref::<crate::world::Injected>().is_none()
                && std::env::var_os("VH_QUIET").is_none()
                && !EXPECTED.load(std::sync::atomic::Ordering::Relaxed)
            {
                eprintln!("panic outside a case: {} at {}", msg, loc);
            }
        }
    }));
}

fn rt_uninit() -> bool {
    unsafe { (*RT.0.get()).is_none() }
}

pub fn take_panic_message(p: &(dyn std::any::Any + Send)) -> String {
    let _ = p;
    #[allow(static_mut_refs)]
    unsafe {
        std::mem::take(&mut LAST_PANIC)
    }
}

pub enum Outcome {
    /// every thread has finished
    Done,
    /// nothing can run any more: some threads are waiting
    Quiescent,
    /// a violation was recorded
    Failed,
}

/// The failure kinds this run decides (none: all of them).
pub static mut DECIDED: Option<Vec<String>> = None;
/// A failure of a kind this run does not decide, seen by a passive monitor.
pub static mut NOTED: Option<Failure> = None;

/// Monitors that only watch: if this run does not decide their kind, the case
/// goes on, so that the kinds it does decide are judged.
fn passed_over(kind: &'static str) -> bool {
    matches!(
        kind,
        "race" | "freerace" | "alias" | "recycle" | "alloc" | "waker" | "early" | "late" | "errors" | "isclosed" | "torn"
    ) && unsafe {
        match &*(&raw const DECIDED) {
            Some(l) => !l.iter().any(|k| k == kind || k == "all"),
            None => false,
        }
    }
}

pub fn set_failure(kind: &'static str, msg: String) {
    if passed_over(kind) {
        unsafe {
            if (*(&raw const NOTED)).is_none() {
                NOTED = Some(Failure { kind, msg });
            }
        }
        return;
    }
    let r = rt();
    if r.failure.is_none() {
        r.failure = Some(Failure { kind, msg });
    }
}

/// Records a violation. Inside a coroutine this never returns.
pub fn fail(kind: &'static str, msg: String) {
    let _n = NoLib::new();
    let over = passed_over(kind);
    set_failure(kind, msg);
    if over {
        return;
    }
    let r = rt();
    if std::thread::panicking() && !matches!(kind, "hang" | "spin") {
        // finish unwinding first: the panic count belongs to the whole process
        return;
    }
    if r.on && r.cur != NONE {
        loop {
            suspend();
        }
    }
}

fn runnable(except: usize) -> Vec<usize> {
    rt().th
        .iter()
        .enumerate()
        .filter(|(i, t)| t.st == St::Run && *i != except)
        .map(|(i, _)| i)
        .collect()
}

fn n_runnable(except: usize) -> usize {
    rt().th
        .iter()
        .enumerate()
        .filter(|(i, t)| t.st == St::Run && *i != except)
        .count()
}

fn nth_runnable(except: usize, n: usize) -> usize {
    rt().th
        .iter()
        .enumerate()
        .filter(|(i, t)| t.st == St::Run && *i != except)
        .nth(n)
        .unwrap()
        .0
}

fn rr_next(except: usize) -> Option<usize> {
    let r = rt();
    let n = r.th.len();
    for k in 1..=n {
        let i = (r.rr + k) % n;
        if i != except && r.th[i].st == St::Run {
            r.rr = i;
            return Some(i);
        }
    }
    None
}

fn earliest_timer() -> Option<(usize, Duration)> {
    if rt().manual_timers {
        return None;
    }
    rt().th
        .iter()
        .enumerate()
        .filter_map(|(i, t)| match t.st {
            St::Park(Some(d)) => Some((i, d)),
            _ => None,
        })
        .min_by_key(|&(i, d)| (d, i))
}

fn fire_earliest() -> bool {
    if let Some((i, d)) = earliest_timer() {
        let r = rt();
        if d > r.now {
            r.now = d;
        }
        r.th[i].st = St::Run;
        r.timeouts_fired += 1;
        true
    } else {
        false
    }
}

/// Runs until everything is finished or stuck.
pub fn run() -> Outcome {
    loop {
        let r = rt();
        if r.failure.is_some() {
            return Outcome::Failed;
        }
        let t = match r.next.take() {
            Some(t) if r.th[t].st == St::Run => t,
            _ => {
                let n = n_runnable(NONE);
                if n == 0 && r.staged && r.th[0].st == St::Gate {
                    r.th[0].st = St::Run;
                    continue;
                }
                if n == 0 {
                    // idle: let time pass
                    if let Some((_, d)) = earliest_timer() {
                        if rt().cfg.spurious_park && !rt().fair && env(8) == 7 {
                            // a spurious wakeup some time before the deadline
                            let r = rt();
                            let parked: Vec<usize> = r
                                .th
                                .iter()
                                .enumerate()
                                .filter(|(_, t)| matches!(t.st, St::Park(_)) && t.spurious < 3)
                                .map(|(i, _)| i)
                                .collect();
                            if !parked.is_empty() {
                                let i = parked[env(parked.len() as u32) as usize];
                                let frac = env(4);
                                let r = rt();
                                r.th[i].spurious += 1;
                                if d > r.now {
                                    let d = d - r.now;
                                    // avoid overflow with huge durations
                                    let d = d.min(Duration::from_secs(1 << 40));
                                    r.now += d / 4 * frac;
                                }
                                r.th[i].st = St::Run;
                                continue;
                            }
                        }
                        fire_earliest();
                        continue;
                    }
                    if rt().th.iter().all(|t| t.st == St::Done) {
                        return Outcome::Done;
                    }
                    return Outcome::Quiescent;
                }
                if rt().fair {
                    rr_next(NONE).unwrap()
                } else {
                    nth_runnable(NONE, env(n as u32) as usize)
                }
            }
        };
        let r = rt();
        r.cur = t;
        r.rr = t;
        let co: *mut Coroutine<_, _, _, _> = r.th[t].co.as_mut().unwrap();
        let res = unsafe { (*co).resume(()) };
        let r = rt();
        r.cur = NONE;
        unsafe { LIB = false };
        if let CoroutineResult::Return(()) = res {
            r.th[t].st = St::Done;
            let co = r.th[t].co.take().unwrap();
            r.stacks.push(co.into_stack());
        }
    }
}

pub fn cur() -> usize {
    rt().cur
}

fn suspend() {
    let r = rt();
    let y = r.th[r.cur].yielder;
    unsafe { (*y).suspend(()) };
}

fn switch_to(t: usize) {
    rt().next = Some(t);
    suspend();
}

fn block(st: St) {
    let r = rt();
    let c = r.cur;
    r.th[c].st = st;
    suspend();
}

/// A point at which the scheduler may preempt the current thread.
fn point() {
    let r = rt();
    if r.failure.is_some() && !std::thread::panicking() {
        // another context recorded a failure while we were unwinding
        loop {
            suspend();
        }
    }
    r.steps += 1;
    let c = r.cur;
    r.th[c].steps += 1;
    if r.steps > r.step_limit {
        if !r.fair {
            r.fair = true;
            r.step_limit += r.hang_after_fair;
        } else if r.steps % 512 == 0 {
            fire_earliest();
        }
        if rt().steps > rt().step_limit {
            let t = &rt().th[c];
            let kind = if t.nonwaiting { "hang" } else { "spin" };
            let (op, steps) = (t.op, t.steps);
            let who: Vec<String> = rt()
                .th
                .iter()
                .enumerate()
                .map(|(i, t)| format!("{i}:{}:{:?}", t.op, t.st))
                .collect();
            // blame the running thread's operation, unless another runnable
            // one is a non-waiting operation
            fail(
                kind,
                format!(
                    "thread {c} makes no progress in `{op}` ({steps} own steps); threads: {}",
                    who.join(", ")
                ),
            );
        }
    }
    let r = rt();
    if r.fair || std::thread::panicking() {
        return;
    }
    if r.cfg.freeze > 0 && r.th[c].freezable && r.frozen_count < r.cfg.freeze && r.th[c].op_start > 0 {
        if env(24) == 23 {
            let r = rt();
            r.frozen_count += 1;
            block(St::Frozen);
            return;
        }
    }
    let r = rt();
    if r.gap_left > 0 {
        r.gap_left -= 1;
        if r.gap_left == 0 {
            draw_gap();
            if rt().cfg.timejump && earliest_timer().is_some() && env(4) == 3 {
                fire_earliest();
            }
            let n = n_runnable(c);
            if n > 0 {
                let t = nth_runnable(c, env(n as u32) as usize);
                let r = rt();
                r.preemptions += 1;
                if r.th[c].op_start > 0 {
                    r.switches_in_op += 1;
                }
                switch_to(t);
            }
        }
    }
}

/// The current thread gives way (spin hint or yield).
fn give_way() {
    point();
    let r = rt();
    let c = r.cur;
    if std::thread::panicking() {
        return;
    }
    if r.fair {
        if let Some(t) = rr_next(c) {
            switch_to(t);
        }
        return;
    }
    if n_runnable(c) == 0 {
        // alone: let time pass now and then so timed waiters can run
        return;
    }
    if r.th[c].stay > 0 {
        r.th[c].stay -= 1;
        return;
    }
    match env(4) {
        0 | 1 => {
            if let Some(t) = rr_next(c) {
                switch_to(t)
            }
        }
        2 => {
            let n = n_runnable(c);
            let t = nth_runnable(c, env(n as u32) as usize);
            switch_to(t)
        }
        _ => rt().th[c].stay = 10,
    }
}

fn acquires(o: Ordering) -> bool {
    matches!(o, Acquire | AcqRel | SeqCst)
}
fn releases(o: Ordering) -> bool {
    matches!(o, Release | AcqRel | SeqCst)
}

fn obj_idx(obj: &Obj, what: &str, mk: impl FnOnce() -> ObjSt) -> usize {
    let r = rt();
    let id = obj.get();
    if id != 0 {
        if id >> 48 != MAGIC {
            fail(
                "dangling",
                format!("{what} at {:p} is not alive (identity {id:#x}): use after free or of uninitialised memory", obj),
            );
        }
        if (id >> 24) & 0xFF_FFFF == r.epoch {
            let i = (id & 0xFF_FFFF) as usize;
            if i < r.objs.len() {
                return i;
            }
            fail("dangling", format!("{what} at {:p} has a corrupt identity {id:#x}", obj));
        }
    }
    let i = r.objs.len();
    r.objs.push(mk());
    r.addrs.push(obj as *const Obj as usize);
    obj.set(MAGIC << 48 | r.epoch << 24 | i as u64);
    i
}

fn loc_idx(obj: &Obj, val: &AtomicU64) -> usize {
    let v = val.load(Relaxed);
    let i = obj_idx(obj, "atomic", || {
        ObjSt::Loc(Loc {
            hist: VecDeque::from(vec![Msg { val: v, sy: None }]),
            base: 1,
            acc: [0; MAXT],
        })
    });
    match &mut rt().objs[i] {
        ObjSt::Loc(l) => {
            if l.hist.back().unwrap().val != v {
                // modified outside the runtime (exclusive access)
                l.hist.push_back(Msg { val: v, sy: None });
            }
            while l.hist.len() > 8 {
                l.hist.pop_front();
                l.base += 1;
            }
        }
        _ => fail("dangling", "an atomic's identity belongs to another object".into()),
    }
    i
}

fn loc(i: usize) -> &'static mut Loc {
    match &mut rt().objs[i] {
        ObjSt::Loc(l) => l,
        _ => unreachable!(),
    }
}

fn sync_obj(i: usize) -> &'static mut Sy {
    match &mut rt().objs[i] {
        ObjSt::Sync(s) => s,
        _ => {
            fail("dangling", "a lock's identity belongs to another object".into());
            unreachable!()
        }
    }
}

fn me() -> &'static mut Th {
    let r = rt();
    let c = r.cur;
    &mut r.th[c]
}

fn read_msg(i: usize, ts: u32, order: Ordering) -> u64 {
    let l = loc(i);
    let m = &l.hist[(ts - l.base) as usize];
    let t = me();
    l.acc[rt().cur] = t.sy.vc[rt().cur];
    t.sy.set(i, ts);
    if let Some(sy) = &m.sy {
        if acquires(order) {
            t.sy.join(sy);
        } else {
            t.acq.join(sy);
        }
    }
    if order == SeqCst {
        rt().sc.set(i, ts);
    }
    m.val
}

/// Memory is given back by the current thread: everybody's use of what is in it
/// must be over.
pub fn freed(lo: usize, hi: usize) {
    let _n = NoLib::new();
    let r = rt();
    if !r.on || r.cur == NONE {
        return;
    }
    let c = r.cur;
    let vc = r.th[c].sy.vc;
    let mut bad = None;
    for (i, a) in r.addrs.iter_mut().enumerate() {
        if *a < lo || *a >= hi {
            continue;
        }
        *a = 0;
        match &r.objs[i] {
            ObjSt::Loc(l) => {
                if let Some(t) = (0..MAXT).find(|&t| l.acc[t] > vc[t]) {
                    bad = Some(("an atomic", t));
                }
            }
            ObjSt::Cell(l) => {
                if l.w.1 > vc[l.w.0 as usize] {
                    bad = Some(("a cell", l.w.0 as usize));
                }
                if let Some(t) = (0..MAXT).find(|&t| l.r[t] > vc[t]) {
                    bad = Some(("a cell", t));
                }
            }
            ObjSt::Sync(_) => {}
        }
    }
    if let Some((what, t)) = bad {
        fail(
            "freerace",
            format!(
                "data race: thread {c} ({}) gives back the memory of {what} and that is not ordered after its use by thread {t} ({})",
                r.th[c].op, r.th[t].op
            ),
        );
    }
}

fn tick() {
    let r = rt();
    let c = r.cur;
    r.th[c].sy.vc[c] += 1;
}

fn write_msg(i: usize, val: u64, order: Ordering, prev: Option<Rc<Sy>>) {
    let l = loc(i);
    let ts = l.base + l.hist.len() as u32;
    let c = rt().cur;
    l.acc[c] = me().sy.vc[c];
    me().sy.set(i, ts);
    let mut sy: Option<Sy> = prev.map(|p| (*p).clone());
    if releases(order) {
        match &mut sy {
            Some(s) => s.join(&rt().th[c].sy),
            None => sy = Some(rt().th[c].sy.clone()),
        }
    } else if rt().th[c].rel.vc.iter().any(|&x| x > 0) {
        match &mut sy {
            Some(s) => s.join(&rt().th[c].rel),
            None => sy = Some(rt().th[c].rel.clone()),
        }
    }
    l.hist.push_back(Msg {
        val,
        sy: sy.map(Rc::new),
    });
    if order == SeqCst {
        rt().sc.set(i, ts);
    }
    if releases(order) {
        tick();
    }
}

impl Runtime for Hooks {
    #[inline]
    fn active(&self) -> bool {
        let r = rt();
        r.on && r.cur != NONE
    }

    fn load(&self, obj: &Obj, val: &AtomicU64, order: Ordering) -> u64 {
        let _n = NoLib::new();
        point();
        let i = loc_idx(obj, val);
        let l = loc(i);
        let last = l.base + l.hist.len() as u32 - 1;
        let mut ts = last;
        let r = rt();
        if r.cfg.weak && !r.fair {
            let t = me();
            let mut lo = t.sy.at(i).max(l.base);
            if order == SeqCst {
                lo = lo.max(r.sc.at(i));
            }
            if lo < last && t.stale < 6 {
                let n = (last - lo + 1).min(4);
                // biased towards the latest value
                let k = env(2 * n);
                let k = if k < n { 0 } else { k - n };
                if k > 0 {
                    me().stale += 1;
                    rt().stale_reads += 1;
                } else {
                    me().stale = 0;
                }
                ts = last - k;
            } else {
                t.stale = 0;
            }
        }
        read_msg(i, ts, order)
    }

    fn store(&self, obj: &Obj, val: &AtomicU64, new: u64, order: Ordering) {
        let _n = NoLib::new();
        point();
        let i = loc_idx(obj, val);
        write_msg(i, new, order, None);
        val.store(new, Relaxed);
    }

    fn rmw(
        &self,
        obj: &Obj,
        val: &AtomicU64,
        f: &mut dyn FnMut(u64) -> Option<u64>,
        success: Ordering,
        failure: Ordering,
        weak: bool,
    ) -> Result<u64, u64> {
        let _n = NoLib::new();
        point();
        let i = loc_idx(obj, val);
        let l = loc(i);
        let last = l.base + l.hist.len() as u32 - 1;
        let old = l.hist.back().unwrap().val;
        match f(old) {
            Some(new) => {
                if weak && rt().cfg.spurious_cas && !rt().fair && env(12) == 11 {
                    return Err(read_msg(i, last, failure));
                }
                let prev = loc(i).hist.back().unwrap().sy.clone();
                read_msg(i, last, success);
                write_msg(i, new, success, prev);
                val.store(new, Relaxed);
                Ok(old)
            }
            None => Err(read_msg(i, last, failure)),
        }
    }

    fn fence(&self, order: Ordering) {
        let _n = NoLib::new();
        point();
        if acquires(order) {
            let t = me();
            let acq = std::mem::take(&mut t.acq);
            t.sy.join(&acq);
        }
        if order == SeqCst {
            let r = rt();
            let c = r.cur;
            let scv = r.sc.view.clone();
            r.th[c].sy.join_view(&scv);
            let v = r.th[c].sy.view.clone();
            r.sc.join_view(&v);
        }
        if releases(order) {
            let t = me();
            t.rel = t.sy.clone();
            tick();
        }
    }

    fn cell_id(&self, obj: &Obj) -> u64 {
        let _n = NoLib::new();
        point();
        obj_idx(obj, "cell", || {
            ObjSt::Cell(CellSt {
                w: (0, 0),
                r: [0; MAXT],
            })
        }) as u64
            + 1
            + (rt().epoch << 32)
    }

    fn cell_access(&self, id: u64, write: bool) {
        let _n = NoLib::new();
        let r = rt();
        if id == 0 || id >> 32 != r.epoch {
            return;
        }
        let c = r.cur;
        r.steps += 1;
        if r.fair && r.steps > r.step_limit {
            point();
        }
        let r = rt();
        let vc = r.th[c].sy.vc;
        let i = (id & 0xFFFF_FFFF) as usize - 1;
        let cell = match &mut r.objs[i] {
            ObjSt::Cell(cell) => cell,
            _ => {
                fail("dangling", "a cell's identity belongs to another object".into());
                return;
            }
        };
        let mut bad = None;
        if cell.w.1 > vc[cell.w.0 as usize] {
            bad = Some(("write", cell.w.0 as usize));
        }
        if write {
            for (t, &k) in cell.r.iter().enumerate() {
                if k > vc[t] {
                    bad = Some(("read", t));
                }
            }
            cell.w = (c as u8, vc[c]);
        } else {
            cell.r[c] = vc[c];
        }
        if let Some((what, t)) = bad {
            fail(
                "race",
                format!(
                    "data race: {} of a shared cell by thread {c} ({}) is not ordered after a {what} by thread {t} ({})",
                    if write { "write" } else { "read" },
                    rt().th[c].op,
                    rt().th[t].op
                ),
            );
        }
    }

    fn lock(&self, obj: &Obj, locked: &AtomicBool) {
        let _n = NoLib::new();
        point();
        let i = obj_idx(obj, "lock", || ObjSt::Sync(Sy::default()));
        let id = obj.get();
        while locked.load(Relaxed) {
            let r = rt();
            r.steps += 1;
            if std::thread::panicking() {
                fail("deadlock", "a lock is taken again by the thread that holds it".into());
                return;
            }
            block(St::Lock(id));
        }
        rt().locks_held += 1;
        locked.store(true, Relaxed);
        let sy = sync_obj(i).clone();
        me().sy.join(&sy);
    }

    fn try_lock(&self, obj: &Obj, locked: &AtomicBool) -> bool {
        let _n = NoLib::new();
        point();
        let i = obj_idx(obj, "lock", || ObjSt::Sync(Sy::default()));
        if locked.load(Relaxed) {
            return false;
        }
        rt().locks_held += 1;
        locked.store(true, Relaxed);
        let sy = sync_obj(i).clone();
        me().sy.join(&sy);
        true
    }

    fn unlock(&self, obj: &Obj, locked: &AtomicBool) {
        let _n = NoLib::new();
        let i = obj_idx(obj, "lock", || ObjSt::Sync(Sy::default()));
        let id = obj.get();
        let sy = me().sy.clone();
        *sync_obj(i) = sy;
        tick();
        locked.store(false, Relaxed);
        rt().locks_held = rt().locks_held.saturating_sub(1);
        for t in rt().th.iter_mut() {
            if t.st == St::Lock(id) {
                t.st = St::Run;
            }
        }
        point();
    }

    fn arc_clone(&self, obj: &Obj) {
        let _n = NoLib::new();
        point();
        obj_idx(obj, "Arc", || ObjSt::Sync(Sy::default()));
    }

    fn arc_drop(&self, obj: &Obj, count: &dyn Fn() -> usize) {
        let _n = NoLib::new();
        point();
        let i = obj_idx(obj, "Arc", || ObjSt::Sync(Sy::default()));
        let sy = me().sy.clone();
        sync_obj(i).join(&sy);
        tick();
        if count() == 1 {
            let sy = sync_obj(i).clone();
            me().sy.join(&sy);
        }
    }

    fn thread_current(&self) -> u64 {
        rt().cur as u64
    }

    fn park(&self, timeout: Option<Duration>) {
        let _n = NoLib::new();
        point();
        let r = rt();
        r.park_count += 1;
        // a timed operation must not sleep past its own deadline
        let t = me();
        if let (Some(limit), Some(d)) = (t.op_deadline_len, timeout) {
            let first = t.first_read.unwrap_or(r.now);
            let last = t.last_read.unwrap_or(r.now);
            let slack = slack(limit);
            if !d.is_zero() && last.saturating_add(d) > first.saturating_add(limit).saturating_add(slack) {
                let op = t.op;
                fail(
                    "late",
                    format!("`{op}` with limit {limit:?} goes to sleep for {d:?} when {:?} have already passed", last.saturating_sub(first)),
                );
            }
        }
        let t = me();
        if t.op_deadline_len.is_some() && timeout.is_none() {
            let op = t.op;
            fail("late", format!("`{op}` has a time limit but sleeps without one"));
        }
        if t.park_token {
            park_consume();
            return;
        }
        if rt().cfg.spurious_park && !rt().fair && me().spurious < 3 && env(10) == 9 {
            me().spurious += 1;
            return;
        }
        let deadline = timeout
            .filter(|d| d.as_secs() < 1 << 40)
            .map(|d| rt().now.saturating_add(d));
        if let Some(d) = timeout {
            if d.is_zero() {
                // (a little time passes all the same)
                rt().now = rt().now.saturating_add(Duration::from_nanos(1));
                return;
            }
        }
        block(St::Park(deadline));
        if me().park_token {
            park_consume();
        }
    }

    fn unpark(&self, thread: u64) {
        let _n = NoLib::new();
        point();
        // unpark releases, the park that consumes the token acquires
        let sy = me().sy.clone();
        tick();
        if thread as usize >= rt().th.len() {
            return;
        }
        let t = &mut rt().th[thread as usize];
        t.park_sy.join(&sy);
        t.park_token = true;
        if rt().staged {
            crate::chs::on_unpark(thread as usize);
            return;
        }
        let t = &mut rt().th[thread as usize];
        if matches!(t.st, St::Park(_)) {
            t.st = St::Run;
        }
    }

    fn yield_now(&self) {
        let _n = NoLib::new();
        give_way();
    }

    fn spin_loop(&self) {
        let _n = NoLib::new();
        give_way();
    }

    fn now(&self) -> Duration {
        let _n = NoLib::new();
        // time also passes while nobody sleeps
        if rt().cfg.timejump && !rt().fair && env(8) == 7 {
            let d = [1, 5_000_000, 60_000_000, 2_000_000_000][env(4) as usize];
            let r = rt();
            r.now = r.now.saturating_add(Duration::from_nanos(d));
        }
        let r = rt();
        let now = r.now;
        let t = me();
        if t.first_read.is_none() {
            t.first_read = Some(now);
        }
        t.last_read = Some(now);
        now
    }
}

fn park_consume() {
    let t = me();
    t.park_token = false;
    let sy = std::mem::take(&mut t.park_sy);
    t.sy.join(&sy);
}

pub fn slack(limit: Duration) -> Duration {
    (limit / 8).max(Duration::from_millis(1))
}

// --- primitives for the harness itself ---------------------------------------

/// Harness-level scheduling point (used between operations).
pub fn step() {
    if rt().on && rt().cur != NONE {
        let _n = NoLib::new();
        point();
    }
}

/// Waits until `wake_task` is called for this thread.
pub fn task_wait() {
    let _n = NoLib::new();
    point();
    if me().task_token {
        me().task_token = false;
        return;
    }
    block(St::Task);
    me().task_token = false;
}

pub fn task_wake(t: usize) {
    let th = &mut rt().th[t];
    th.task_token = true;
    if th.st == St::Task {
        th.st = St::Run;
    }
}

/// Happens-before edge from the current thread to whoever calls `hb_acquire`
/// with the same slot (used by wakers, which synchronize in real executors).
pub fn hb_release(slot: &mut Sy) {
    let sy = me().sy.clone();
    slot.join(&sy);
    tick();
}
pub fn hb_acquire(slot: &Sy) {
    me().sy.join(slot);
}

pub fn gate_wait() {
    let _n = NoLib::new();
    block(St::Gate);
}

pub fn gate_open(t: usize) {
    if rt().th[t].st == St::Gate {
        rt().th[t].st = St::Run;
    }
}

pub fn thaw_all() {
    let r = rt();
    r.cfg.freeze = 0;
    for t in r.th.iter_mut() {
        if t.st == St::Frozen {
            t.st = St::Run;
        }
    }
}

/// Sequence number, for real-time order.
pub fn stamp() -> u64 {
    let r = rt();
    r.seq += 1;
    r.seq
}

pub fn clock() -> [u32; MAXT] {
    let r = rt();
    if r.cur == NONE {
        [u32::MAX; MAXT]
    } else {
        me().sy.vc
    }
}

/// (thread, own component) identifying the current point for happens-before.
pub fn own_epoch() -> (usize, u32) {
    let r = rt();
    (r.cur, r.th[r.cur].sy.vc[r.cur])
}

pub fn op_begin(name: &'static str, nonwaiting: bool) {
    let s = stamp();
    let t = me();
    t.op = name;
    t.nonwaiting = nonwaiting;
    t.op_start = s;
    t.op_deadline_len = None;
    t.first_read = None;
    t.last_read = None;
}

/// Runs other operations in the middle of one.
pub fn nested<R>(f: impl FnOnce() -> R) -> R {
    let t = me();
    let s = (t.op, t.nonwaiting, t.op_start, t.op_deadline_len, t.first_read, t.last_read);
    let r = f();
    let t = me();
    (t.op, t.nonwaiting, t.op_start, t.op_deadline_len, t.first_read, t.last_read) = s;
    r
}

pub fn op_end() {
    let t = me();
    t.op_start = 0;
    t.op_deadline_len = None;
    t.nonwaiting = false;
}

#[allow(dead_code)]
fn _unused() {
    let _ = runnable;
}

pub fn redraw() {
    draw_gap();
}

/// Lets the time limit of thread `t` pass (other timers stay pending).
pub fn fire_timer(t: usize) -> bool {
    let r = rt();
    if let St::Park(Some(d)) = r.th[t].st {
        if d > r.now {
            r.now = d;
        }
        r.th[t].st = St::Run;
        true
    } else {
        false
    }
}

pub fn timer_of(t: usize) -> Option<Duration> {
    match rt().th[t].st {
        St::Park(Some(d)) => Some(d),
        _ => None,
    }
}

/// Called by thread 0 of a staged case: lets `t` run until it waits or is done.
pub fn stage_run(t: usize) {
    let _n = NoLib::new();
    // what the director did happens before, and what `t` did happens before
    // the director goes on
    let sy = me().sy.clone();
    tick();
    let r = rt();
    debug_assert!(r.cur == 0 && matches!(r.th[t].st, St::Park(_) | St::Gate));
    r.th[t].sy.join(&sy);
    r.th[t].st = St::Run;
    r.th[0].st = St::Gate;
    switch_to(t);
    let sy = rt().th[t].sy.clone();
    me().sy.join(&sy);
}

pub fn is_parked(t: usize) -> bool {
    matches!(rt().th[t].st, St::Park(_))
}

/// Wakes a parked thread for nothing.
pub fn spurious_unpark(t: usize) {
    let r = rt();
    if matches!(r.th[t].st, St::Park(_)) {
        r.th[t].st = St::Run;
    }
}

/// Waits until no library lock is held, so that the unwinding that follows
/// (which is never preempted) cannot need one.
pub fn settle() {
    let _n = NoLib::new();
    loop {
        point();
        if rt().locks_held == 0 {
            return;
        }
        give_way();
    }
}

/// Forgets a wakeup that arrived before the poll that is about to happen.
pub fn task_clear() {
    me().task_token = false;
}

/// The current operation has a time limit.
pub fn op_limit(d: Duration) {
    me().op_deadline_len = Some(d);
}

/// A panic of the library is expected now: its message need not be printed.
pub static EXPECTED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
