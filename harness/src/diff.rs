//! Differential suites: the same generated history on static and on dynamic
//! storage must give the same results.
#[cfg(feature = "full")]
use crate::ch::FORCE_PANIC;
use crate::ch::{FORCE_STAT, SKIP_FMT};
use crate::engine::{src, Failure, Report};
use crate::rt;
use crate::world::w;
use crate::{chc, chs, q};

struct Run {
    rep: Report,
    /// everything observed, in order
    trace: Vec<String>,
    /// elements dropped
    drops: Vec<String>,
}

fn run(second: bool, by: By, f: fn(bool) -> Report) -> Run {
    unsafe {
        match by {
            By::Storage => FORCE_STAT = Some(second),
            By::Fmt => SKIP_FMT = second,
        }
        rt::NOTED = None;
    }
    let mut rep = f(true);
    unsafe {
        FORCE_STAT = None;
        SKIP_FMT = false;
    }
    let noted = unsafe { (*(&raw mut rt::NOTED)).take() };
    if rep.failure.is_none() {
        rep.failure = noted;
    }
    let t = std::mem::take(&mut w().trace);
    // dynamic storage goes with the last handle, static storage by itself
    let (mut drops, trace): (Vec<_>, Vec<_>) = t.into_iter().partition(|l| l.contains("    drop #"));
    for d in drops.iter_mut() {
        *d = d.trim_start_matches(|c| c != '#').to_string();
    }
    drops.sort();
    Run { rep, trace, drops }
}

#[derive(Clone, Copy, PartialEq)]
enum By {
    /// dynamic, static
    Storage,
    /// with the formatting operations, without them
    Fmt,
}

fn diff(by: By, f: fn(bool) -> Report, describe: bool) -> Report {
    let old = unsafe { (*(&raw mut rt::DECIDED)).replace(Default::default()) };
    let a = run(false, by, f);
    let c = src().rec.clone();
    src().start_replay(&c);
    let b = run(true, by, f);
    src().rec = c;
    unsafe { rt::DECIDED = old };
    let (n1, n2) = match by {
        By::Storage => ("dynamic", "static"),
        By::Fmt => ("formatting", "not formatting"),
    };
    let failure = match (&a.rep.failure, &b.rep.failure) {
        (Some(_), Some(_)) => None,
        (Some(x), None) => Some(format!("the {n1} one fails ({}: {}), the {n2} one does not", x.kind, x.msg)),
        (None, Some(x)) => Some(format!("the {n2} one fails ({}: {}), the {n1} one does not", x.kind, x.msg)),
        (None, None) => {
            let n = a.trace.iter().zip(&b.trace).position(|(x, y)| x != y);
            if let Some(n) = n {
                Some(format!("step {n}: {n1} `{}`, {n2} `{}`", a.trace[n], b.trace[n]))
            } else if a.trace.len() != b.trace.len() {
                Some("one history is longer".into())
            } else if a.drops != b.drops {
                Some(format!("elements dropped: {n1} {:?}, {n2} {:?}", a.drops, b.drops))
            } else {
                None
            }
        }
    };
    let mut rep = a.rep.clone();
    if by == By::Storage {
        rep.labels.retain(|l| *l != "dynamic" && *l != "static");
    }
    rep.failure = failure.map(|msg| Failure { kind: if by == By::Fmt { "fmtdiff" } else { "differ" }, msg });
    if describe {
        rep.desc = format!("--- {n1}\n{}\n--- {n2}\n{}", a.rep.desc, b.rep.desc);
        if let Some(f) = &rep.failure {
            rep.desc.push_str(&format!("\n=> {}: {}", f.kind, f.msg));
        }
    }
    rep
}

pub fn diff_q(d: bool) -> Report {
    diff(By::Storage, q::seqq, d)
}
pub fn diff_async(d: bool) -> Report {
    diff(By::Storage, chs::chs_async, d)
}

#[cfg(feature = "full")]
pub fn diff_block(d: bool) -> Report {
    diff(By::Storage, chs::chs_block, d)
}
pub fn fmt_q(d: bool) -> Report {
    diff(By::Fmt, q::seqq, d)
}
pub fn fmt_async(d: bool) -> Report {
    diff(By::Fmt, chs::chs_async, d)
}

fn forced(stat: bool, f: fn(bool) -> Report, d: bool) -> Report {
    unsafe { FORCE_STAT = Some(stat) };
    let r = f(d);
    unsafe { FORCE_STAT = None };
    r
}
#[cfg(feature = "full")]
mod panics {
    use super::*;
    fn with_panics(yes: bool, f: fn(bool) -> Report, describe: bool) -> Report {
        unsafe { FORCE_PANIC = Some(yes) };
        let r = f(describe);
        unsafe { FORCE_PANIC = None };
        r
    }

    pub fn chc_panic(d: bool) -> Report {
        with_panics(true, chc::chc_weak, d)
    }
    pub fn chc_calm(d: bool) -> Report {
        with_panics(false, chc::chc_weak, d)
    }
    pub fn chs_panic(d: bool) -> Report {
        with_panics(true, chs::chs_async, d)
    }
    pub fn chs_calm(d: bool) -> Report {
        with_panics(false, chs::chs_async, d)
    }
    pub fn chs_block_panic(d: bool) -> Report {
        with_panics(true, chs::chs_block, d)
    }
    pub fn chs_block_calm(d: bool) -> Report {
        with_panics(false, chs::chs_block, d)
    }
    pub fn concq_panic(d: bool) -> Report {
        with_panics(true, q::concq_weak, d)
    }
    pub fn concq_calm(d: bool) -> Report {
        with_panics(false, q::concq_weak, d)
    }
}
#[cfg(feature = "full")]
pub use panics::*;

pub fn concq_stat(d: bool) -> Report {
    forced(true, q::concq, d)
}
pub fn concq_dyn(d: bool) -> Report {
    forced(false, q::concq, d)
}
pub fn chc_stat(d: bool) -> Report {
    forced(true, chc::chc, d)
}
pub fn chc_dyn(d: bool) -> Report {
    forced(false, chc::chc, d)
}
