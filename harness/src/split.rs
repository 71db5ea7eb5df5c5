//! Several threads try to split one static channel.
use crate::ch::{self, Rx, Storage, Tx, H};
use crate::engine::{chance, gen, Report};
use crate::rt::{self, fail, Cfg, Outcome};
use crate::tr;
use crate::world::{self, behav, w, Tok};
use std::panic::{catch_unwind, AssertUnwindSafe};
use thingbuf::mpsc::{self, errors::*};

use mpsc::StaticChannel as AsyncCh;
#[cfg(feature = "full")]
use mpsc::blocking::StaticChannel as BlockCh;

type Pair = (H<dyn Tx>, H<dyn Rx>);

trait Sp {
    /// `None`: refused
    fn split(&'static self, may_panic: bool) -> Option<Pair>;
}
macro_rules! sp {
    ($t:ty) => {
        impl<const N: usize> Sp for $t {
            fn split(&'static self, may_panic: bool) -> Option<Pair> {
                let p = if may_panic {
                    match catch_unwind(AssertUnwindSafe(|| self.split())) {
                        Ok(p) => Some(p),
                        Err(e) => {
                            let m = rt::take_panic_message(&*e);
                            if !m.contains("split") {
                                fail("split", format!("split() panicked with {m:?}"));
                            }
                            None
                        }
                    }
                } else {
                    self.try_split()
                };
                p.map(|(t, r)| (H::new(Box::new(t) as Box<dyn Tx>), H::new(Box::new(r) as Box<dyn Rx>)))
            }
        }
    };
}
sp!(mpsc::StaticChannel<Tok, N>);
#[cfg(feature = "full")]
sp!(mpsc::blocking::StaticChannel<Tok, N>);

struct S {
    ch: &'static dyn Sp,
    cap: usize,
    won: u32,
    refused: u32,
    attempts: u32,
}
static mut CASE: Option<S> = None;
fn s() -> &'static mut S {
    unsafe { (*(&raw mut CASE)).as_mut().unwrap() }
}

fn attempt(panics: bool) -> Option<Pair> {
    s().attempts += 1;
    let over = s().won > 0;
    rt::op_begin(if panics { "split" } else { "try_split" }, true);
    let r = s().ch.split(panics);
    rt::op_end();
    tr!("{} -> {}", if panics { "split" } else { "try_split" }, if r.is_some() { "pair" } else { "refused" });
    behav(r.is_some() as u64 + 2 * rt::cur() as u64);
    if r.is_some() {
        s().won += 1;
        if s().won > 1 {
            fail("split", format!("a static channel was split {} times", s().won));
        }
    } else {
        s().refused += 1;
    }
    let _ = over;
    r
}

/// The pair is a working channel, undisturbed by refused attempts.
fn use_pair((tx, rx): Pair, n: u32) {
    let cap = s().cap;
    let bad = |m: String| fail("split", format!("after split: {m}"));
    if rx.r().is_closed() {
        bad("is_closed() with a sender".into());
    }
    let (mut sent, mut got, mut queued) = (0u64, 0u64, 0usize);
    for k in 0..n {
        if k % 3 != 2 {
            match tx.r().try_send(Tok::user(1 + sent)) {
                Ok(()) if queued < cap => {
                    sent += 1;
                    queued += 1
                }
                Ok(()) => bad("a full channel took a message".into()),
                Err(TrySendError::Full(_)) if queued == cap => {}
                Err(e) => bad(format!("try_send: {e:?} with {queued} of {cap}")),
            }
        } else {
            match rx.r().try_recv() {
                Ok(t) if queued > 0 && t.val == got + 1 => {
                    got += 1;
                    queued -= 1
                }
                Ok(t) => bad(format!("received {} after {got}", t.val)),
                Err(TryRecvError::Empty) if queued == 0 => {}
                Err(e) => bad(format!("try_recv: {e:?} with {queued} messages")),
            }
        }
    }
    if chance(1, 2) {
        rx.drop();
        match tx.r().try_send(Tok::user(9)) {
            Err(TrySendError::Closed(t)) if t.val == 9 => {}
            _ => bad("the receiver is gone but try_send does not say so".into()),
        }
        tx.drop();
    } else {
        tx.drop();
        while queued > 0 {
            match rx.r().try_recv() {
                Ok(t) if t.val == got + 1 => {
                    got += 1;
                    queued -= 1
                }
                _ => {
                    bad("messages are missing".into());
                    break;
                }
            }
        }
        if !matches!(rx.r().try_recv(), Err(TryRecvError::Closed)) || !rx.r().is_closed() {
            bad("the end of the channel is not reported".into());
        }
        rx.drop();
    }
}

pub fn split(describe: bool) -> Report {
    let asy = gen(2) == 0 || !cfg!(feature = "full");
    let cap = 1 + gen(3) as usize;
    let nth = 1 + gen(3) as usize;
    let progs: Vec<(Vec<bool>, u32)> = (0..nth).map(|_| ((0..1 + gen(3)).map(|_| chance(1, 2)).collect(), gen(9))).collect();
    let late = gen(3);
    let none = chance(1, 16);
    let cfg = Cfg {
        gap: [3, 6, 12][gen(3) as usize],
        weak: chance(1, 2),
        spurious_cas: chance(1, 2),
        spurious_park: false,
        timejump: false,
        freeze: 0,
    };
    world::reset(describe);
    ch::wakers_reset(rt::MAXT, false);
    crate::alloc::case_begin();
    rt::begin(cfg);
    macro_rules! mk {
        ($t:ident, $($n:literal)*) => {
            match cap {
                $($n => {
                    let (c, s) = ch::leak($t::<Tok, $n>::new());
                    (c as &'static dyn Sp, s)
                })*
                _ => unreachable!(),
            }
        };
    }
    let (c, store): (&'static dyn Sp, Storage) = if asy {
        mk!(AsyncCh, 1 2 3)
    } else {
        #[cfg(feature = "full")]
        {
            mk!(BlockCh, 1 2 3)
        }
        #[cfg(not(feature = "full"))]
        unreachable!()
    };
    unsafe {
        CASE = Some(S {
            ch: c,
            cap,
            won: 0,
            refused: 0,
            attempts: 0,
        });
    }
    rt::rt().step_limit = 8000;
    if !none {
        for (p, n) in progs {
            rt::spawn(move || {
                for panics in p {
                    if let Some(pair) = attempt(panics) {
                        use_pair(pair, n);
                    }
                }
            });
        }
    }
    let mut ok = matches!(rt::run(), Outcome::Done);
    let sw = rt::rt().switches_in_op;
    if ok {
        rt::rt().fair = true;
        rt::rt().step_limit += 20_000;
        rt::spawn(move || {
            if s().attempts > 0 && s().won == 0 {
                fail("split", "nobody could split the channel".into());
            }
            for k in 0..late {
                if let Some(pair) = attempt(k % 2 == 1) {
                    use_pair(pair, 3);
                }
            }
            unsafe { store.release() };
            world::check_all_dropped();
        });
        ok = matches!(rt::run(), Outcome::Done);
    }
    if !ok && rt::rt().failure.is_none() {
        rt::set_failure("deadlock", "splitting blocks".into());
    }
    let failure = rt::end();
    crate::alloc::case_end();
    let mut rep = Report::default();
    rep.sig = w().behav;
    rep.nontrivial = s().refused > 0 && sw > 0;
    if s().refused > 0 {
        rep.labels.push("refused");
    }
    if sw > 0 {
        rep.labels.push("preempted-in-op");
    }
    if describe {
        rep.desc = format!("{} channel, capacity {cap}, {nth} threads\n{}", if asy { "async" } else { "blocking" }, w().trace.join("\n"));
        if let Some(f) = &failure {
            rep.desc.push_str(&format!("\n=> {}: {}", f.kind, f.msg));
        }
    }
    rep.failure = failure;
    unsafe { CASE = None };
    rep
}
