//! Instrumented element type, recycling policy and life-cycle registry.
use crate::engine::hash_str;
use crate::rt::{self, fail, NoLib};
use std::cell::Cell;

pub const MAGIC: u64 = 0x70C3_11AA_55EE_9D21;

/// Payload of injected panics.
pub struct Injected;

pub fn inject() -> ! {
    let _n = NoLib::new();
    std::panic::resume_unwind(Box::new(Injected))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Own {
    /// in the container
    Slot,
    /// behind a guard
    Guard,
    /// owned by the program
    User,
}

pub struct Info {
    pub alive: bool,
    /// made or recycled by the policy and not handed out since
    pub clean: bool,
    pub own: Own,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PolEv {
    New(u32),
    Recycle(u32),
}

pub struct World {
    pub toks: Vec<Info>,
    pub log: Vec<Vec<PolEv>>,
    pub guards: Vec<(usize, usize, &'static str)>,
    pub news: u64,
    pub recycles: u64,
    pub describe: bool,
    pub trace: Vec<String>,
    pub behav: u64,
    pub lenient: bool,
    /// countdown to an injected panic in the policy (0: never)
    pub pol_panic: i64,
    pub pol_panics: u32,
    /// the next element that the library drops panics
    pub drop_panic: bool,
    pub default_temp: bool,
    pub alloc_checked: bool,
    pub alloc_seen: u64,
    /// elements behind forgotten guards: may stay for ever
    pub forgotten: Vec<u32>,
}

struct G(std::cell::UnsafeCell<Option<World>>);
unsafe impl Sync for G {}
static W: G = G(std::cell::UnsafeCell::new(None));

#[inline]
pub fn w() -> &'static mut World {
    unsafe { (*W.0.get()).as_mut().unwrap() }
}

pub fn reset(describe: bool) {
    let nw = World {
        toks: Vec::with_capacity(64),
        log: (0..rt::MAXT + 1).map(|_| Vec::new()).collect(),
        guards: Vec::new(),
        news: 0,
        recycles: 0,
        describe,
        trace: Vec::new(),
        behav: hash_str("b"),
        lenient: false,
        pol_panic: 0,
        pol_panics: 0,
        drop_panic: false,
        default_temp: false,
        alloc_checked: false,
        alloc_seen: 0,
        forgotten: Vec::new(),
    };
    unsafe {
        match &mut *W.0.get() {
            Some(o) => {
                o.toks.clear();
                o.log.iter_mut().for_each(|l| l.clear());
                o.guards.clear();
                o.trace.clear();
                o.news = 0;
                o.recycles = 0;
                o.describe = describe;
                o.behav = nw.behav;
                o.lenient = false;
                o.pol_panic = 0;
                o.pol_panics = 0;
                o.drop_panic = false;
                o.alloc_checked = false;
                o.alloc_seen = 0;
                o.forgotten.clear();
            }
            x => *x = Some(nw),
        }
    }
}

pub fn behav(x: u64) {
    let b = &mut w().behav;
    *b = (*b ^ x).wrapping_mul(0x100000001b3).rotate_left(7);
}

#[macro_export]
macro_rules! tr {
    ($($a:tt)*) => {
        if $crate::world::w().describe {
            let _n = $crate::rt::NoLib::new();
            let c = $crate::rt::cur();
            let s = format!($($a)*);
            let line = if c == $crate::rt::NONE { format!("[main] {s}") } else { format!("[t{c}] {s}") };
            $crate::world::w().trace.push(line);
        }
    };
}

fn tid() -> usize {
    let c = rt::cur();
    if c == rt::NONE {
        rt::MAXT
    } else if rt::rt().staged {
        // one history, whoever runs
        0
    } else {
        c
    }
}

/// Element type with a registered identity.
pub struct Tok {
    magic: u64,
    pub serial: u32,
    pub val: u64,
    /// second word, always derived from `val`: detects torn or mixed contents
    pub chk: u64,
}

pub fn chk(v: u64) -> u64 {
    v.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x5bd1
}

impl Tok {
    pub fn make(val: u64, own: Own, clean: bool) -> Tok {
        let _n = NoLib::new();
        let serial = w().toks.len() as u32;
        w().toks.push(Info {
            alive: true,
            clean,
            own,
        });
        Tok {
            magic: MAGIC,
            serial,
            val,
            chk: chk(val),
        }
    }
    /// An element made by the program, to be passed by value.
    pub fn user(val: u64) -> Tok {
        Tok::make(val, Own::User, false)
    }
    pub fn check(&self, what: &str) {
        let _n = NoLib::new();
        if self.magic != MAGIC || self.serial as usize >= w().toks.len() {
            fail(
                "lifecycle",
                format!("{what}: element is not initialised (magic {:#x})", self.magic),
            );
        } else if !w().toks[self.serial as usize].alive {
            fail(
                "lifecycle",
                format!("{what}: element #{} was already dropped", self.serial),
            );
        } else if self.chk != chk(self.val) {
            fail(
                "torn",
                format!("{what}: element #{} has inconsistent contents", self.serial),
            );
        }
    }
    pub fn set(&mut self, v: u64) {
        self.val = v;
        self.chk = chk(v);
    }
    pub fn info(&self) -> &'static mut Info {
        &mut w().toks[self.serial as usize]
    }
}

impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.check("fmt");
        write!(f, "Tok({})", self.val)
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let inside = unsafe { rt::LIB };
        let _n = NoLib::new();
        if self.magic != MAGIC || self.serial as usize >= w().toks.len() {
            fail(
                "lifecycle",
                format!("dropping an element that was never initialised (magic {:#x})", self.magic),
            );
            return;
        }
        let i = &mut w().toks[self.serial as usize];
        if !i.alive {
            fail("lifecycle", format!("element #{} dropped twice", self.serial));
            return;
        }
        i.alive = false;
        tr!("    drop #{} (val {})", self.serial, self.val);
        if inside && w().drop_panic && !std::thread::panicking() {
            w().drop_panic = false;
            w().pol_panics += 1;
            tr!("    its destructor panics");
            inject();
        }
    }
}

impl Default for Tok {
    fn default() -> Tok {
        let t = Tok::make(0, Own::Slot, true);
        let _n = NoLib::new();
        w().news += 1;
        w().log[tid()].push(PolEv::New(t.serial));
        policy_panic();
        t
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.check("clone");
        Tok::make(self.val, Own::Slot, true)
    }
    fn clone_from(&mut self, src: &Tok) {
        let _n = NoLib::new();
        self.check("recycle");
        self.set(src.val);
        self.info().clean = true;
        w().recycles += 1;
        // the temporary default value is not a new element
        w().news = w().news.wrapping_sub(1);
        let l = &mut w().log[tid()];
        if l.last() == Some(&PolEv::New(src.serial)) {
            l.pop();
        }
        l.push(PolEv::Recycle(self.serial));
    }
}

fn policy_panic() {
    if w().pol_panic > 0 {
        w().pol_panic -= 1;
        if w().pol_panic == 0 {
            w().pol_panics += 1;
            tr!("    recycling policy panics");
            inject();
        }
    }
}

/// Recycling policy that logs its calls.
#[derive(Debug, Default)]
pub struct Pol(pub Cell<()>);
unsafe impl Sync for Pol {}

impl Pol {
    pub const fn new() -> Pol {
        Pol(Cell::new(()))
    }
}

pub const FRESH: u64 = 0;

impl thingbuf::Recycle<Tok> for Pol {
    fn new_element(&self) -> Tok {
        let _n = NoLib::new();
        policy_panic();
        let t = Tok::make(FRESH, Own::Slot, true);
        w().news += 1;
        w().log[tid()].push(PolEv::New(t.serial));
        tr!("    new_element -> #{}", t.serial);
        t
    }
    fn recycle(&self, e: &mut Tok) {
        let _n = NoLib::new();
        e.check("recycle");
        policy_panic();
        if e.info().own == Own::Guard {
            fail("alias", format!("element #{} recycled while a guard refers to it", e.serial));
        }
        e.set(FRESH);
        e.info().clean = true;
        w().recycles += 1;
        w().log[tid()].push(PolEv::Recycle(e.serial));
        tr!("    recycle #{}", e.serial);
    }
}

pub fn log_clear() {
    w().log[tid()].clear();
}
pub fn log_now() -> Vec<PolEv> {
    w().log[tid()].clone()
}
pub fn log_truncate(n: usize) {
    w().log[tid()].truncate(n)
}
pub fn log_len() -> usize {
    w().log[tid()].len()
}

/// Registers a live guard on the element at `addr`.
pub fn guard_on(t: &Tok, what: &'static str) {
    let _n = NoLib::new();
    t.check(what);
    let addr = t as *const Tok as usize;
    if let Some((_, o, ow)) = w().guards.iter().find(|g| g.0 == addr) {
        fail(
            "alias",
            format!("{what} guard refers to a slot to which thread {o} holds a {ow} guard"),
        );
    }
    w().guards.push((addr, tid(), what));
    t.info().own = Own::Guard;
}

pub fn guard_off(t: &Tok) {
    let _n = NoLib::new();
    t.check("guard release");
    let addr = t as *const Tok as usize;
    w().guards.retain(|g| g.0 != addr);
    t.info().own = Own::Slot;
}

/// A reservation succeeded and shows `t`: it must be fresh.
pub fn check_reserved(t: &Tok, log_from: usize, what: &str) {
    let _n = NoLib::new();
    let evs: Vec<PolEv> = w().log[tid()][log_from..].to_vec();
    let ok = matches!(evs.as_slice(), [PolEv::New(s)] | [PolEv::Recycle(s)] if *s == t.serial);
    if !ok {
        fail(
            "recycle",
            format!("{what}: reserved element #{} but policy calls were {:?}", t.serial, evs),
        );
    }
    if !t.info().clean || t.val != FRESH {
        fail(
            "recycle",
            format!("{what}: reserved element #{} still holds old contents ({})", t.serial, t.val),
        );
    }
    t.info().clean = false;
}

pub fn check_no_policy(log_from: usize, what: &str) {
    let _n = NoLib::new();
    let evs = &w().log[tid()][log_from..];
    if !evs.is_empty() {
        fail(
            "recycle",
            format!("{what} failed but invoked the recycling policy: {:?}", evs),
        );
    }
}

pub fn alive() -> Vec<u32> {
    w().toks
        .iter()
        .enumerate()
        .filter(|(_, i)| i.alive)
        .map(|(i, _)| i as u32)
        .collect()
}

pub fn check_all_dropped() {
    let mut a = alive();
    a.retain(|x| !w().forgotten.contains(x));
    if !a.is_empty() {
        fail("lifecycle", format!("elements leaked: {:?}", a));
    }
}

/// Runs library code with allocation accounting.
#[inline]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    struct L(bool);
    impl Drop for L {
        fn drop(&mut self) {
            unsafe { rt::LIB = self.0 }
        }
    }
    let _l = unsafe {
        let o = rt::LIB;
        rt::LIB = true;
        L(o)
    };
    let r = f();
    drop(_l);
    r
}

pub fn check_allocs(what: &str) {
    unsafe {
        let n = crate::alloc::LIB_ALLOCS + crate::alloc::LIB_FREES;
        if n > w().alloc_seen {
            let d = format!(
                "{what}: library code called the allocator ({} allocations, {} frees, last size {})",
                crate::alloc::LIB_ALLOCS,
                crate::alloc::LIB_FREES,
                crate::alloc::LAST_SIZE
            );
            w().alloc_seen = n;
            fail("alloc", d);
        }
    }
}
