//! Suites that need no schedule: what guards show and take (C20), what errors
//! say (C13), what the built-in policies do (C22), construction (C02).
use crate::engine::{chance, gen, weighted, Failure, Report};
use std::cell::RefCell;
use std::fmt::{self, Debug, Display, Write};
use std::sync::atomic::Ordering::Relaxed;
use std::panic::{catch_unwind, AssertUnwindSafe};
use thingbuf::mpsc::{self, errors::*};
#[cfg(feature = "full")]
use thingbuf::mpsc::blocking;
use thingbuf::{Ref, StaticThingBuf};

pub struct Cx {
    pub fail: Option<Failure>,
    trace: Vec<String>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    sig: u64,
    describe: bool,
}

impl Cx {
    fn bad(&mut self, kind: &'static str, msg: String) {
        if self.fail.is_none() {
            self.fail = Some(Failure { kind, msg });
        }
    }
    pub fn ck(&mut self, ok: bool, kind: &'static str, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            self.bad(kind, msg());
        }
        ok
    }
    pub fn tr(&mut self, m: impl FnOnce() -> String) {
        if self.describe {
            let m = m();
            self.trace.push(m);
        }
    }
    pub fn note(&mut self, x: u64) {
        self.sig = (self.sig ^ x).wrapping_mul(0x100000001b3).rotate_left(7);
    }
}

pub fn run(describe: bool, kind: &'static str, f: fn(&mut Cx)) -> Report {
    let mut cx = Cx {
        fail: None,
        trace: Vec::new(),
        labels: Vec::new(),
        nontrivial: false,
        sig: 1,
        describe,
    };
    crate::rt::EXPECTED.store(true, Relaxed);
    if let Err(p) = catch_unwind(AssertUnwindSafe(|| f(&mut cx))) {
        let m = crate::rt::take_panic_message(&*p);
        cx.bad(kind, format!("panicked: {m}"));
    }
    crate::rt::EXPECTED.store(false, Relaxed);
    let mut r = Report::default();
    if describe {
        r.desc = cx.trace.join("\n");
        if let Some(f) = &cx.fail {
            r.desc.push_str(&format!("\n=> {}: {}", f.kind, f.msg));
        }
    }
    cx.labels.sort_unstable();
    cx.labels.dedup();
    r.labels = cx.labels;
    r.nontrivial = cx.nontrivial;
    r.sig = cx.sig;
    r.failure = cx.fail;
    r
}

fn hash(s: &str) -> u64 {
    crate::engine::hash_str(s)
}

fn gen_str(max: u32) -> String {
    const P: [&str; 14] = ["", "a", "xyz", "ß", "→", "🦀", "0", " ", "\n", "{}", "hello", "\"q\"", "\u{0}", "long long text"];
    (0..gen(max + 1)).map(|_| P[gen(P.len() as u32) as usize]).collect()
}

// --- C20 ------------------------------------------------------------------------

/// An element whose formatting shows the flags it was given, may fail, and
/// whose writer records how it was called and may refuse.
#[derive(Clone, Default, PartialEq, Debug)]
struct Raw {
    id: u64,
    text: String,
    calls: Vec<String>,
    /// refuse writes beyond this many bytes
    limit: Option<usize>,
    /// 1: Debug fails, 2: Display fails
    fails: u32,
}
#[derive(Clone, Default, PartialEq)]
struct Fm(Raw);

fn flags(f: &fmt::Formatter<'_>, kind: &str, r: &Raw) -> String {
    format!(
        "{kind}#{}[{}]w{:?}p{:?}f{:?}a{}{}{}{}{}",
        r.id,
        r.text,
        f.width(),
        f.precision(),
        f.fill(),
        match f.align() {
            None => '-',
            Some(fmt::Alignment::Left) => '<',
            Some(fmt::Alignment::Right) => '>',
            Some(fmt::Alignment::Center) => '^',
        },
        if f.alternate() { "#" } else { "" },
        if f.sign_plus() { "+" } else { "" },
        if f.sign_minus() { "m" } else { "" },
        if f.sign_aware_zero_pad() { "0" } else { "" },
    )
}
impl Debug for Fm {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let s = flags(f, "D", &self.0);
        f.write_str(&s)?;
        // hexadecimal Debug flags show only through a number
        let _ = Debug::fmt(&self.0.id, f);
        if self.0.fails == 1 {
            return Err(fmt::Error);
        }
        Ok(())
    }
}
impl Display for Fm {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let s = flags(f, "d", &self.0);
        f.write_str(&s)?;
        if self.0.fails == 2 {
            return Err(fmt::Error);
        }
        f.pad(&self.0.text)
    }
}
impl Fm {
    fn put(&mut self, s: &str) -> fmt::Result {
        if let Some(l) = self.0.limit {
            if self.0.text.len() + s.len() > l {
                return Err(fmt::Error);
            }
        }
        self.0.text.push_str(s);
        Ok(())
    }
}
impl Write for Fm {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.calls.push(format!("s{s}"));
        self.put(s)
    }
    fn write_char(&mut self, c: char) -> fmt::Result {
        self.0.calls.push(format!("c{c}"));
        self.put(&c.to_string())
    }
    fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> fmt::Result {
        let s = a.to_string();
        self.0.calls.push(format!("f{s}"));
        self.put(&s)
    }
}

trait El: Default + Clone + PartialEq + Debug + Display + Send + Sync + 'static {
    fn some() -> Self;
    fn writes(_t: &mut dyn Guard<Self>, _o: &mut Self, _cx: &mut Cx) {}
    fn show(&self) -> String;
}
impl El for Fm {
    fn some() -> Fm {
        Fm(Raw {
            id: gen(300) as u64,
            text: gen_str(3),
            calls: vec![],
            limit: if chance(1, 3) { Some(gen(20) as usize) } else { None },
            fails: if chance(1, 4) { 1 + gen(2) } else { 0 },
        })
    }
    fn writes(t: &mut dyn Guard<Self>, o: &mut Self, cx: &mut Cx) {
        t.write_one(o, cx)
    }
    fn show(&self) -> String {
        format!("{:?}", self.0)
    }
}
impl El for String {
    fn some() -> String {
        gen_str(4)
    }
    fn writes(t: &mut dyn Guard<Self>, o: &mut Self, cx: &mut Cx) {
        t.write_one(o, cx)
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
}
impl El for f64 {
    fn some() -> f64 {
        [0.0, -0.0, 1.5, -2.25, 1e300, 1e-7, f64::INFINITY, 123456.789][gen(8) as usize]
    }
    fn show(&self) -> String {
        format!("{self:e}")
    }
}
impl El for i32 {
    fn some() -> i32 {
        [0, 1, -1, 255, -4096, i32::MAX, i32::MIN][gen(7) as usize]
    }
    fn show(&self) -> String {
        format!("{self:x}")
    }
}

/// A guard, whatever its flavour.
trait Guard<T>: std::ops::DerefMut<Target = T> + Debug + Display {
    fn write_one(&mut self, o: &mut T, cx: &mut Cx)
    where
        T: Write;
}
macro_rules! guard {
    ($($t:ty),*) => {$(
        impl<T: Debug + Display> Guard<T> for $t {
            fn write_one(&mut self, o: &mut T, cx: &mut Cx)
            where
                T: Write,
            {
                write_pair(self, o, cx)
            }
        }
    )*};
}
guard!(Ref<'_, T>, mpsc::SendRef<'_, T>, mpsc::RecvRef<'_, T>);
#[cfg(feature = "full")]
guard!(blocking::SendRef<'_, T>, blocking::RecvRef<'_, T>);

fn write_pair(g: &mut dyn Write, o: &mut dyn Write, cx: &mut Cx) {
    let s = gen_str(3);
    let (a, b, how) = match gen(4) {
        0 => (g.write_str(&s), o.write_str(&s), "write_str"),
        1 => {
            let c = ['x', 'é', '→', '🦀', '\0'][gen(5) as usize];
            (g.write_char(c), o.write_char(c), "write_char")
        }
        2 => {
            let n = gen(1000);
            (write!(g, "<{s}|{n:>5}>"), write!(o, "<{s}|{n:>5}>"), "write!")
        }
        _ => (g.write_fmt(format_args!("lit")), o.write_fmt(format_args!("lit")), "write_fmt"),
    };
    cx.tr(|| format!("{how}({s:?}) -> {a:?}"));
    cx.note(hash(how) ^ hash(&s));
    cx.ck(a == b, "guard", || format!("{how} through the guard returned {a:?}, on the element {b:?}"));
}

/// A sink that fails after some bytes.
struct Sink {
    s: String,
    left: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.chars() {
            if self.left == 0 {
                return Err(fmt::Error);
            }
            self.left -= 1;
            self.s.push(c);
        }
        Ok(())
    }
}

fn formats(i: u32, x: &dyn Fmtable, w: usize, p: usize, left: usize) -> (fmt::Result, String) {
    let mut k = Sink { s: String::new(), left };
    let r = match i {
        0 => write!(k, "{x}"),
        1 => write!(k, "{x:?}"),
        2 => write!(k, "{x:#?}"),
        3 => write!(k, "{x:+}"),
        4 => write!(k, "{x:08}"),
        5 => write!(k, "{x:w$}"),
        6 => write!(k, "{x:.p$}"),
        7 => write!(k, "{x:w$.p$}"),
        8 => write!(k, "{x:<w$}"),
        9 => write!(k, "{x:^w$}"),
        10 => write!(k, "{x:*>w$}"),
        11 => write!(k, "{x:→<w$.p$}"),
        12 => write!(k, "{x:+08.p$?}"),
        13 => write!(k, "{x:x?}"),
        14 => write!(k, "{x:#X?}"),
        15 => write!(k, "{x:#010}"),
        16 => write!(k, "{x:*^w$.p$?}"),
        17 => write!(k, "{x:-<w$?}"),
        18 => write!(k, "{x:#}"),
        _ => write!(k, "{x:+#w$.p$?}"),
    };
    (r, k.s)
}
const FORMATS: u32 = 20;
trait Fmtable: Debug + Display {}
impl<T: Debug + Display + ?Sized> Fmtable for T {}

/// Generated reads, writes and formattings, through the guard and on a copy.
fn exercise<T: El>(g: &mut dyn Guard<T>, o: &mut T, cx: &mut Cx, what: &str) {
    for _ in 0..1 + gen(4) {
        match gen(4) {
            0 => {
                let v = T::some();
                **g = v.clone();
                *o = v;
                cx.tr(|| format!("{what}: assigns {}", o.show()));
                cx.note(1);
            }
            1 => {
                T::writes(g, o, cx);
            }
            _ => {
                let (i, w, p) = (gen(FORMATS), gen(24) as usize, gen(8) as usize);
                let left = if chance(1, 3) { gen(12) as usize } else { usize::MAX };
                struct By<'a, T>(&'a dyn Guard<T>);
                impl<T> Debug for By<'_, T> {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        Debug::fmt(self.0, f)
                    }
                }
                impl<T> Display for By<'_, T> {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        Display::fmt(self.0, f)
                    }
                }
                let a = formats(i, &By(&*g), w, p, left);
                let b = formats(i, o, w, p, left);
                cx.tr(|| format!("{what}: format {i} width {w} precision {p} room {left}: {a:?}"));
                cx.note(i as u64 * 977 + w as u64 * 31 + p as u64);
                cx.ck(a == b, "guard", || format!("{what} guard formats as {a:?}, the element as {b:?} (format {i}, width {w}, precision {p})"));
            }
        }
        let same = (**g).show() == o.show();
        cx.ck(same, "guard", || format!("{what} guard shows {}, should be {}", (**g).show(), o.show()));
    }
}

fn fmt_on<T: El>(cx: &mut Cx) {
    const FLAVOURS: u32 = if cfg!(feature = "full") { 6 } else if cfg!(feature = "alloc") { 4 } else { 2 };
    let n = 1 + gen(4);
    macro_rules! q {
        ($name:literal, $q:expr) => {{
            let q = $q;
            cx.labels.push($name);
            cx.tr(|| $name.to_string());
            for _ in 0..n {
                let mut exp = Vec::new();
                for _ in 0..1 + gen(2) {
                    let Ok(mut g) = q.push_ref() else { break };
                    let mut o = (*g).clone();
                    exercise(&mut g, &mut o, cx, "push");
                    exp.push(o);
                    if chance(1, 3) {
                        dbg(&q, cx);
                    }
                }
                dbg(&q, cx);
                for mut o in exp {
                    let mut g = q.pop_ref().expect("element");
                    cx.ck((*g).show() == o.show(), "guard", || format!("wrote {}, popped {}", o.show(), (*g).show()));
                    exercise(&mut g, &mut o, cx, "pop");
                    cx.nontrivial = true;
                }
            }
        }};
    }
    macro_rules! c {
        ($name:literal, $c:expr) => {{
            let (tx, rx) = $c;
            cx.labels.push($name);
            cx.tr(|| $name.to_string());
            for _ in 0..n {
                let mut exp = Vec::new();
                for _ in 0..1 + gen(2) {
                    let Ok(mut g) = tx.try_send_ref() else { break };
                    let mut o = (*g).clone();
                    exercise(&mut g, &mut o, cx, "send");
                    exp.push(o);
                    dbg(&tx, cx);
                }
                dbg(&rx, cx);
                for mut o in exp {
                    let mut g = rx.try_recv_ref().expect("message");
                    cx.ck((*g).show() == o.show(), "guard", || format!("sent {}, received {}", o.show(), (*g).show()));
                    exercise(&mut g, &mut o, cx, "receive");
                    cx.nontrivial = true;
                    dbg(&rx, cx);
                }
            }
        }};
    }
    match gen(FLAVOURS) {
        0 => q!("static queue", StaticThingBuf::<T, 3>::new()),
        1 => c!("static async", Box::leak(Box::new(mpsc::StaticChannel::<T, 3>::new())).split()),
        #[cfg(feature = "alloc")]
        2 => q!("queue", thingbuf::ThingBuf::<T>::new(3)),
        #[cfg(feature = "alloc")]
        3 => c!("async", mpsc::channel::<T>(3)),
        #[cfg(feature = "full")]
        4 => c!("blocking", blocking::channel::<T>(3)),
        #[cfg(feature = "full")]
        _ => c!("static blocking", Box::leak(Box::new(blocking::StaticChannel::<T, 3>::new())).split()),
        #[cfg(not(feature = "full"))]
        _ => unreachable!(),
    }
}

/// Formatting succeeds and has a name in it.
fn dbg(x: &dyn Debug, cx: &mut Cx) {
    let mut s = String::new();
    let (a, b) = (write!(s, "{x:?}"), write!(s, "{x:#?}"));
    cx.ck(a.is_ok() && b.is_ok() && !s.is_empty(), "guard", || format!("Debug fails: {a:?} {b:?}"));
}

pub fn fmts(describe: bool) -> Report {
    run(describe, "guard", |cx| match gen(5) {
        0 | 1 => fmt_on::<Fm>(cx),
        2 => fmt_on::<String>(cx),
        3 => fmt_on::<f64>(cx),
        _ => fmt_on::<i32>(cx),
    })
}

// --- C13: errors ------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Why {
    Full,
    Closed,
    Timeout,
    Empty,
}

/// What the texts of an error say agrees with its variant.
#[cfg(feature = "full")]
fn texts(e: &(dyn std::error::Error + 'static), why: Why, cx: &mut Cx) {
    cx.ck(e.source().is_none(), "errors", || format!("{why:?}: has a source"));
    said(e, why, cx)
}
#[cfg(not(feature = "full"))]
fn texts<E: Debug + Display>(e: &E, why: Why, cx: &mut Cx) {
    said(e, why, cx)
}
fn said<E: Debug + Display + ?Sized>(e: &E, why: Why, cx: &mut Cx) {
    let (mut d, s) = (format!("{e:?}"), format!("{e}"));
    for ty in ["SendTimeoutError", "RecvTimeoutError"] {
        d = d.replace(ty, "");
    }
    let low = s.to_lowercase();
    let says = |w: Why| match w {
        Why::Full => low.contains("capacity") && !low.contains("time") || low.contains("full"),
        Why::Closed => low.contains("closed") || low.contains("disconnected"),
        Why::Timeout => low.contains("timed out") || low.contains("timeout"),
        Why::Empty => low.contains("empty"),
    };
    for w in [Why::Full, Why::Closed, Why::Timeout, Why::Empty] {
        cx.ck(says(w) == (w == why), "errors", || format!("{why:?} error has the message {s:?}"));
        let name = format!("{w:?}");
        cx.ck(d.contains(&name) == (w == why), "errors", || format!("{why:?} error shows as {d:?}"));
    }
    let (p, q) = (format!("{e:#?}"), format!("{e:>60}"));
    cx.ck(!p.is_empty() && q.contains(&s), "errors", || format!("{why:?}: {p:?} {q:?}"));
}

/// `e`: an error of the channel's `try_send` family
fn tse(e: TrySendError<Box<u64>>, v: u64, why: Why, cx: &mut Cx) {
    let var = match e {
        TrySendError::Full(_) => Why::Full,
        TrySendError::Closed(_) => Why::Closed,
        _ => return cx.bad("errors", format!("new variant {e:?}")),
    };
    cx.ck(var == why, "errors", || format!("try_send reports {var:?}, the channel is {why:?}"));
    cx.ck(e.is_full() == (why == Why::Full) && e.is_closed() == (why == Why::Closed), "errors", || {
        format!("{e:?}: is_full() {}, is_closed() {}", e.is_full(), e.is_closed())
    });
    texts(&e, why, cx);
    let f = match why {
        Why::Full => TrySendError::Full(Box::new(v)),
        _ => TrySendError::Closed(Box::new(v)),
    };
    let g = match why {
        Why::Full => TrySendError::Closed(Box::new(v)),
        _ => TrySendError::Full(Box::new(v)),
    };
    cx.ck(e == f && e != g, "errors", || format!("{e:?}: equality does not look at the variant"));
    let b = e.into_inner();
    cx.ck(*b == v, "giveback", || format!("sent {v}, came back as {b}"));
}
fn tse0(e: TrySendError, why: Why, cx: &mut Cx) {
    let var = match e {
        TrySendError::Full(()) => Why::Full,
        _ => Why::Closed,
    };
    cx.ck(
        var == why && e.is_full() == (why == Why::Full) && e.is_closed() == (why == Why::Closed),
        "errors",
        || format!("try_send_ref reports {e:?}, the channel is {why:?}"),
    );
    texts(&e, why, cx);
    e.into_inner()
}
fn tre(e: TryRecvError, why: Why, cx: &mut Cx) {
    let var = match e {
        TryRecvError::Empty => Why::Empty,
        TryRecvError::Closed => Why::Closed,
        _ => return cx.bad("errors", format!("new variant {e:?}")),
    };
    cx.ck(var == why, "errors", || format!("try_recv reports {var:?}, the channel is {why:?}"));
    texts(&e, why, cx);
}
fn cl(e: Closed<Box<u64>>, v: u64, cx: &mut Cx) {
    texts(&e, Why::Closed, cx);
    let b = e.into_inner();
    cx.ck(*b == v, "giveback", || format!("sent {v}, came back as {b}"));
}
#[cfg(feature = "full")]
fn ste(e: SendTimeoutError<Box<u64>>, v: u64, why: Why, cx: &mut Cx) {
    let var = match e {
        SendTimeoutError::Timeout(_) => Why::Timeout,
        SendTimeoutError::Closed(_) => Why::Closed,
        _ => return cx.bad("errors", format!("new variant {e:?}")),
    };
    cx.ck(var == why, "errors", || format!("send_timeout reports {var:?}, should be {why:?}"));
    cx.ck(e.is_timeout() == (why == Why::Timeout) && e.is_closed() == (why == Why::Closed), "errors", || {
        format!("{e:?}: is_timeout() {}, is_closed() {}", e.is_timeout(), e.is_closed())
    });
    texts(&e, why, cx);
    let b = e.into_inner();
    cx.ck(*b == v, "giveback", || format!("sent {v}, came back as {b}"));
}
#[cfg(feature = "full")]
fn rte(e: RecvTimeoutError, why: Why, cx: &mut Cx) {
    let var = match e {
        RecvTimeoutError::Timeout => Why::Timeout,
        RecvTimeoutError::Closed => Why::Closed,
        _ => return cx.bad("errors", format!("new variant {e:?}")),
    };
    cx.ck(var == why, "errors", || format!("recv_timeout reports {var:?}, should be {why:?}"));
    texts(&e, why, cx);
}

type V = Box<u64>;

/// Polls once; a full or empty channel leaves it pending.
fn once<F: std::future::Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => Some(v),
        std::task::Poll::Pending => None,
    }
}

/// How many messages there are, and whether each side is still there.
struct M {
    q: std::collections::VecDeque<u64>,
    cap: usize,
    next: u64,
}

macro_rules! chan_errors {
    ($fname:ident, $tx:ty, $rx:ty, $block:tt) => {
        fn $fname(tx: $tx, rx: $rx, cap: usize, cx: &mut Cx) {
            let mut m = M { q: Default::default(), cap, next: gen(1000) as u64 };
            let mut tx = Some(tx);
            let mut rx = Some(rx);
            let n = 3 + gen(14);
            let (ct, cr) = (gen(n + 4), gen(n + 4));
            for k in 0..n {
                if k == ct {
                    tx = None;
                    cx.tr(|| "drop sender".into());
                }
                if k == cr {
                    rx = None;
                    cx.tr(|| "drop receiver".into());
                }
                let send_why = if rx.is_none() { Some(Why::Closed) } else if m.q.len() == m.cap { Some(Why::Full) } else { None };
                let recv_why = if !m.q.is_empty() { None } else if tx.is_none() { Some(Why::Closed) } else { Some(Why::Empty) };
                let op = gen(10);
                cx.note(op as u64 + 16 * (send_why.map_or(0, |w| 1 + w as u64) + 8 * recv_why.map_or(0, |w| 1 + w as u64)));
                cx.tr(|| format!("op {op}: sending {send_why:?}, receiving {recv_why:?}, {} messages", m.q.len()));
                if let (Some(tx), true) = (&tx, op < 5) {
                    m.next += 1;
                    let v = m.next;
                    if send_why.is_some() {
                        cx.nontrivial = true;
                    }
                    let ok = match op {
                        0 | 1 => match (tx.try_send(Box::new(v)), send_why) {
                            (Ok(()), None) => true,
                            (Err(e), Some(w)) => { tse(e, v, w, cx); false }
                            (r, w) => { cx.bad("errors", format!("try_send: {r:?}, expected {w:?}")); return }
                        },
                        2 => match (tx.try_send_ref(), send_why) {
                            (Ok(mut g), None) => { *g = Box::new(v); true }
                            (Err(e), Some(w)) => { tse0(e, w, cx); false }
                            (r, w) => { cx.bad("errors", format!("try_send_ref: {:?}, expected {w:?}", r.err())); return }
                        },
                        _ => chan_errors!(@send $block, tx, v, send_why, op, cx),
                    };
                    if ok {
                        m.q.push_back(v);
                    }
                } else if let (Some(rx), true) = (&rx, op >= 5) {
                    if recv_why.is_some() {
                        cx.nontrivial = true;
                    }
                    let got = match op {
                        5 | 6 => match (rx.try_recv(), recv_why) {
                            (Ok(v), None) => Some(*v),
                            (Err(e), Some(w)) => { tre(e, w, cx); None }
                            (r, w) => { cx.bad("errors", format!("try_recv: {r:?}, expected {w:?}")); return }
                        },
                        7 => match (rx.try_recv_ref(), recv_why) {
                            (Ok(g), None) => Some(**g),
                            (Err(e), Some(w)) => { tre(e, w, cx); None }
                            (r, w) => { cx.bad("errors", format!("try_recv_ref: {:?}, expected {w:?}", r.err())); return }
                        },
                        _ => chan_errors!(@recv $block, rx, recv_why, op, cx),
                    };
                    let exp = m.q.pop_front();
                    cx.ck(got == exp, "order", || format!("received {got:?}, expected {exp:?}"));
                }
                if cx.fail.is_some() {
                    return;
                }
            }
        }
    };
    (@send async, $tx:ident, $v:ident, $why:ident, $op:ident, $cx:ident) => {
        if $op == 3 {
            match (once($tx.send(Box::new($v))), $why) {
                (Some(Ok(())), None) => true,
                (Some(Err(e)), Some(Why::Closed)) => { cl(e, $v, $cx); false }
                (None, Some(Why::Full)) => false,
                (r, w) => { $cx.bad("errors", format!("send: {r:?}, expected {w:?}")); return }
            }
        } else {
            match (once($tx.send_ref()), $why) {
                (Some(Ok(mut g)), None) => { *g = Box::new($v); true }
                (Some(Err(e)), Some(Why::Closed)) => { texts(&e, Why::Closed, $cx); false }
                (None, Some(Why::Full)) => false,
                (r, w) => { $cx.bad("errors", format!("send_ref: {:?}, expected {w:?}", r.map(|r| r.err()))); return }
            }
        }
    };
    (@recv async, $rx:ident, $why:ident, $op:ident, $cx:ident) => {
        if $op == 8 {
            match (once($rx.recv()), $why) {
                (Some(Some(v)), None) => Some(*v),
                (Some(None), Some(Why::Closed)) => None,
                (None, Some(Why::Empty)) => None,
                (r, w) => { $cx.bad("errors", format!("recv: {r:?}, expected {w:?}")); return }
            }
        } else {
            match (once($rx.recv_ref()), $why) {
                (Some(Some(g)), None) => Some(**g),
                (Some(None), Some(Why::Closed)) => None,
                (None, Some(Why::Empty)) => None,
                (_, w) => { $cx.bad("errors", format!("recv_ref does not report {w:?}")); return }
            }
        }
    };
    (@send block, $tx:ident, $v:ident, $why:ident, $op:ident, $cx:ident) => {{
        let d = std::time::Duration::from_nanos(gen(3000) as u64);
        let why = if $why == Some(Why::Full) { Some(Why::Timeout) } else { $why };
        if $op == 3 {
            if why == Some(Why::Closed) && chance(1, 2) {
                match $tx.send(Box::new($v)) {
                    Err(e) => cl(e, $v, $cx),
                    Ok(()) => { $cx.bad("errors", "send to a closed channel succeeds".into()); return }
                }
                false
            } else {
                match ($tx.send_timeout(Box::new($v), d), why) {
                    (Ok(()), None) => true,
                    (Err(e), Some(w)) => { ste(e, $v, w, $cx); false }
                    (r, w) => { $cx.bad("errors", format!("send_timeout: {r:?}, expected {w:?}")); return }
                }
            }
        } else {
            match ($tx.send_ref_timeout(d), why) {
                (Ok(mut g), None) => { *g = Box::new($v); true }
                (Err(e), Some(w)) => {
                    $cx.ck(e.is_timeout() == (w == Why::Timeout) && e.is_closed() == (w == Why::Closed), "errors", || format!("send_ref_timeout: {e:?}, expected {w:?}"));
                    texts(&e, w, $cx);
                    false
                }
                (r, w) => { $cx.bad("errors", format!("send_ref_timeout: {:?}, expected {w:?}", r.err())); return }
            }
        }
    }};
    (@recv block, $rx:ident, $why:ident, $op:ident, $cx:ident) => {{
        let d = std::time::Duration::from_nanos(gen(3000) as u64);
        let why = if $why == Some(Why::Empty) { Some(Why::Timeout) } else { $why };
        if $op == 8 {
            if why == Some(Why::Closed) && chance(1, 2) {
                if $rx.recv().is_some() { $cx.bad("errors", "recv from a finished channel gives a message".into()); return }
                None
            } else {
                match ($rx.recv_timeout(d), why) {
                    (Ok(v), None) => Some(*v),
                    (Err(e), Some(w)) => { rte(e, w, $cx); None }
                    (r, w) => { $cx.bad("errors", format!("recv_timeout: {r:?}, expected {w:?}")); return }
                }
            }
        } else {
            match ($rx.recv_ref_timeout(d), why) {
                (Ok(g), None) => Some(**g),
                (Err(e), Some(w)) => { rte(e, w, $cx); None }
                (r, w) => { $cx.bad("errors", format!("recv_ref_timeout: {:?}, expected {w:?}", r.err())); return }
            }
        }
    }};
}
#[cfg(feature = "alloc")]
chan_errors!(err_async, mpsc::Sender<V>, mpsc::Receiver<V>, async);
chan_errors!(err_sasync, mpsc::StaticSender<V>, mpsc::StaticReceiver<V>, async);
#[cfg(feature = "full")]
chan_errors!(err_block, blocking::Sender<V>, blocking::Receiver<V>, block);
#[cfg(feature = "full")]
chan_errors!(err_sblock, blocking::StaticSender<V>, blocking::StaticReceiver<V>, block);

fn err_queue(cx: &mut Cx) {
    let q = StaticThingBuf::<V, 2>::new();
    let mut n = 0usize;
    for k in 0..4 + gen(8) as u64 {
        if chance(1, 3) {
            let r = q.pop();
            cx.ck(r.is_some() == (n > 0), "empty", || format!("pop: {r:?} with {n} elements"));
            n -= (n > 0) as usize;
            continue;
        }
        match q.push(Box::new(k)) {
            Ok(()) => {
                cx.ck(n < 2, "full", || "push succeeds on a full queue".into());
                n += 1
            }
            Err(e) => {
                cx.nontrivial = true;
                cx.ck(n == 2, "full", || format!("push refused with {n} of 2"));
                texts(&e, Why::Full, cx);
                let b = e.into_inner();
                cx.ck(*b == k, "giveback", || format!("pushed {k}, came back as {b}"));
                if let Err(e) = q.push_ref() {
                    texts(&e, Why::Full, cx);
                    e.into_inner()
                } else {
                    cx.bad("full", "push_ref succeeds on a full queue".into());
                }
            }
        }
    }
}

pub fn errs(describe: bool) -> Report {
    run(describe, "errors", |cx| {
        const FLAVOURS: u32 = if cfg!(feature = "full") { 5 } else if cfg!(feature = "alloc") { 3 } else { 2 };
        match gen(FLAVOURS) {
            0 => {
                cx.labels.push("queue");
                err_queue(cx)
            }
            1 => {
                cx.labels.push("static async");
                let c = Box::leak(Box::new(mpsc::StaticChannel::<V, 2>::new()));
                let p: *mut _ = c;
                let (tx, rx) = c.split();
                err_sasync(tx, rx, 2, cx);
                drop(unsafe { Box::from_raw(p) });
            }
            #[cfg(feature = "alloc")]
            2 => {
                cx.labels.push("async");
                let cap = 1 + gen(3) as usize;
                let (tx, rx) = mpsc::channel::<V>(cap);
                err_async(tx, rx, cap, cx)
            }
            #[cfg(feature = "full")]
            3 => {
                cx.labels.push("blocking");
                let cap = 1 + gen(3) as usize;
                let (tx, rx) = blocking::channel::<V>(cap);
                err_block(tx, rx, cap, cx)
            }
            #[cfg(feature = "full")]
            _ => {
                cx.labels.push("static blocking");
                let c = Box::leak(Box::new(blocking::StaticChannel::<V, 2>::new()));
                let p: *mut _ = c;
                let (tx, rx) = c.split();
                err_sblock(tx, rx, 2, cx);
                drop(unsafe { Box::from_raw(p) });
            }
            #[cfg(not(feature = "full"))]
            _ => unreachable!(),
        }
    })
}

// --- C02: construction and large capacities ----------------------------------------

#[cfg(feature = "full")]
pub fn ctor(describe: bool) -> Report {
    run(describe, "acct", |cx| {
        if chance(1, 8) {
            // nothing can be built with capacity zero
            let k = gen(9);
            cx.tr(|| format!("capacity 0, constructor {k}"));
            let pol = || thingbuf::recycling::WithCapacity::new();
            let r = catch_unwind(|| match k {
                0 => drop(thingbuf::ThingBuf::<u8>::new(0)),
                1 => drop(thingbuf::ThingBuf::<String, _>::with_recycle(0, pol())),
                2 => drop(mpsc::channel::<u8>(0)),
                3 => drop(mpsc::with_recycle::<String, _>(0, pol())),
                4 => drop(blocking::channel::<u8>(0)),
                5 => drop(blocking::with_recycle::<String, _>(0, pol())),
                6 => drop(StaticThingBuf::<u8, 0>::new()),
                7 => drop(mpsc::StaticChannel::<u8, 0>::new()),
                _ => drop(blocking::StaticChannel::<u8, 0>::new()),
            });
            if let Err(p) = &r {
                crate::rt::take_panic_message(&**p);
            }
            cx.labels.push("zero");
            cx.note(k as u64);
            cx.nontrivial = true;
            cx.ck(r.is_err(), "acct", || format!("constructor {k} accepted capacity 0"));
            return;
        }
        let huge = chance(1, 300);
        let cap = match if huge { 3 } else { gen(3) } {
            3 => (1usize << (13 + gen(6))) + gen(6) as usize - 3,
            0 => 1 + gen(40) as usize,
            1 => {
                let p = 1usize << (1 + gen(10));
                (p + gen(5) as usize).saturating_sub(2).max(1)
            }
            _ => 1 + gen(2000) as usize,
        };
        let q = thingbuf::ThingBuf::<u64>::new(cap);
        let (mut h, mut t) = (0u64, 0u64);
        cx.tr(|| format!("capacity {cap}"));
        cx.note(cap as u64);
        for i in 0..if huge { 3 } else { 2 + gen(8) } {
            let push = if huge { i != 1 } else { chance(1, 2) };
            let n = match gen(4) {
                0 => 1,
                1 => gen(cap as u32 + 1) as usize,
                2 => cap,
                _ => cap + 1,
            };
            cx.tr(|| format!("{} {n}", if push { "push" } else { "pop" }));
            cx.note(n as u64 * 2 + push as u64);
            for _ in 0..n {
                let len = (t - h) as usize;
                if push {
                    let r = q.push(t);
                    cx.ck(r.is_ok() == (len < cap), "full", || format!("push with {len} of {cap}: {r:?}"));
                    match r {
                        Ok(()) => t += 1,
                        Err(e) => {
                            cx.labels.push("refused");
                            let v = e.into_inner();
                            cx.ck(v == t, "giveback", || format!("pushed {t}, came back as {v}"));
                        }
                    }
                } else {
                    let r = q.pop();
                    let e = if len > 0 { Some(h) } else { None };
                    cx.ck(r == e, "order", || format!("pop: {r:?}, expected {e:?}"));
                    h += r.is_some() as u64;
                }
                let len = (t - h) as usize;
                let ok = q.len() == len && q.remaining() == cap - len && q.is_empty() == (len == 0) && q.capacity() == cap;
                cx.ck(ok, "acct", || format!("{len} of {cap}: len {}, remaining {}, is_empty {}, capacity {}", q.len(), q.remaining(), q.is_empty(), q.capacity()));
                if cx.fail.is_some() {
                    return;
                }
            }
        }
        if t > cap as u64 {
            cx.labels.push("wrapped");
            cx.nontrivial = true;
        }
    })
}

// --- C22: policies --------------------------------------------------------------------

#[cfg(feature = "full")]
pub mod pol {
    use super::*;
    use crate::alloc;
    use crate::world::lib;
    use std::collections::*;
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    use std::sync::Arc;
    use thingbuf::recycling::{DefaultRecycle, Recycle, WithCapacity};

    /// A collection the capacity-bounding policy supports.
    trait Coll: Sized + 'static {
        const NAME: &'static str;
        fn build(cap: usize, n: usize) -> Self;
        fn cap(&self) -> usize;
        fn count(&self) -> usize;
        fn grow(&mut self, n: usize);
        /// what the standard library makes of it
        fn reference(&mut self, max: usize);
        fn address(&self) -> usize;
    }
    thread_local! {
        static DROPS: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    }
    /// An element that counts its drops.
    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct D(usize);
    impl D {
        fn new() -> D {
            DROPS.with(|d| {
                d.borrow_mut().push(0);
                D(d.borrow().len() - 1)
            })
        }
    }
    impl Drop for D {
        fn drop(&mut self) {
            DROPS.with(|d| d.borrow_mut()[self.0] += 1)
        }
    }
    macro_rules! coll {
        ($t:ty, $name:literal, |$s:ident| $addr:expr, |$g:ident, $n:ident| $grow:expr) => {
            impl Coll for $t {
                const NAME: &'static str = $name;
                fn build(cap: usize, n: usize) -> Self {
                    let mut s = <$t>::default();
                    if cap > 0 {
                        s.reserve(cap);
                    }
                    s.grow(n);
                    s
                }
                fn cap(&self) -> usize { self.capacity() }
                fn count(&self) -> usize { self.len() }
                fn grow(&mut self, $n: usize) { let $g = self; $grow }
                fn reference(&mut self, max: usize) { self.clear(); self.shrink_to(max) }
                fn address(&self) -> usize { let $s = self; $addr }
            }
        };
    }
    coll!(Vec<D>, "Vec", |s| s.as_ptr() as usize, |g, n| for _ in 0..n { g.push(D::new()) });
    coll!(String, "String", |s| s.as_ptr() as usize, |g, n| for _ in 0..n { g.push('x') });
    coll!(VecDeque<D>, "VecDeque", |_s| 0, |g, n| for k in 0..n {
        if k % 3 == 0 { g.push_front(D::new()) } else { g.push_back(D::new()) }
    });
    coll!(BinaryHeap<D>, "BinaryHeap", |s| s.as_slice().as_ptr() as usize, |g, n| for _ in 0..n { g.push(D::new()) });
    type HM = HashMap<u64, D>;
    type HS = HashSet<D>;
    coll!(HM, "HashMap", |_s| 0, |g, n| for k in 0..n { let x = g.len() as u64 + k as u64; g.insert(x, D::new()); });
    coll!(HS, "HashSet", |_s| 0, |g, n| for _ in 0..n { g.insert(D::new()); });
    impl Coll for Vec<()> {
        const NAME: &'static str = "Vec of nothing";
        fn build(_: usize, n: usize) -> Self {
            vec![(); n]
        }
        fn cap(&self) -> usize {
            self.capacity()
        }
        fn count(&self) -> usize {
            self.len()
        }
        fn grow(&mut self, n: usize) {
            self.resize(self.len() + n, ());
        }
        fn reference(&mut self, max: usize) {
            self.clear();
            self.shrink_to(max)
        }
        fn address(&self) -> usize {
            0
        }
    }

    fn size() -> usize {
        match gen(4) {
            0 => 0,
            1 => gen(9) as usize,
            2 => (1usize << gen(8)) + gen(3) as usize,
            _ => gen(300) as usize,
        }
    }

    fn gen_pol(cx: &mut Cx) -> (WithCapacity, usize, usize) {
        let (mut min, mut max) = (0, usize::MAX);
        let mut p = if chance(1, 2) { WithCapacity::new() } else { WithCapacity::default() };
        for _ in 0..gen(4) {
            let n = size();
            if chance(1, 2) {
                p = p.with_min_capacity(n);
                min = n;
            } else {
                p = p.with_max_capacity(n);
                max = n;
            }
        }
        if chance(1, 3) {
            p = p.clone();
        }
        cx.tr(|| format!("policy: min {min}, max {max}"));
        cx.ck(p.min_capacity() == min && p.max_capacity() == max, "policy", || {
            format!("configured {min}..{max}, says {}..{}", p.min_capacity(), p.max_capacity())
        });
        cx.note((min as u64).wrapping_mul(1009).wrapping_add(max as u64 & 0xFFFF));
        (p, min, max)
    }

    /// Capacity bounds and reuse of a recycled collection. `twin` had the same
    /// history and was cleared and shrunk by hand.
    fn check_recycled<C: Coll>(c: &C, before: (usize, usize), twin: usize, max: usize, calls: u64, cx: &mut Cx) {
        let after = c.cap();
        cx.ck(c.count() == 0, "policy", || format!("{}: {} items left after recycling", C::NAME, c.count()));
        if before.0 <= max {
            cx.ck(after == before.0 && calls == 0, "policy", || {
                format!("{}: capacity {} within the maximum {max}, but it was reallocated (now {after}, {calls} allocator calls)", C::NAME, before.0)
            });
            if C::NAME != "Vec of nothing" && before.1 != 0 {
                cx.ck(c.address() == before.1, "policy", || format!("{}: its allocation was replaced", C::NAME));
            }
        } else {
            cx.labels.push("shrunk");
            cx.ck(after >= max.min(before.0) && after <= twin.max(max), "policy", || {
                format!("{}: capacity {} over the maximum {max} became {after}, expected {max} to {twin}", C::NAME, before.0)
            });
        }
    }

    fn with_cap<C: Coll>(cx: &mut Cx)
    where
        WithCapacity: Recycle<C>,
    {
        let (p, min, max) = gen_pol(cx);
        let p = Arc::new(p);
        let shared = chance(1, 2);
        cx.labels.push(C::NAME);
        let mut c: C = if shared { p.new_element() } else { (*p).new_element() };
        cx.tr(|| format!("new {}: capacity {}", C::NAME, c.cap()));
        cx.ck(c.count() == 0 && c.cap() >= min, "policy", || format!("new {}: {} items, capacity {}, minimum {min}", C::NAME, c.count(), c.cap()));
        if chance(1, 3) {
            let (a, b) = (size(), size());
            c = C::build(a, b);
        }
        for _ in 0..1 + gen(4) {
            let n = size();
            c.grow(n);
            let items = c.count();
            let before = (c.cap(), c.address());
            // a twin with the same contents and capacity
            let mut twin = C::build(0, 0);
            if twin.cap() < c.cap() {
                twin = C::build(c.cap(), 0);
            }
            twin.grow(items);
            let twin_before = twin.cap();
            twin.reference(max);
            let a0 = alloc::counters();
            if shared {
                lib(|| p.recycle(&mut c));
            } else {
                lib(|| (*p).recycle(&mut c));
            }
            let a1 = alloc::counters();
            let calls = a1.0 + a1.1 - a0.0 - a0.1;
            cx.tr(|| format!("recycled {} with {items} items: capacity {} -> {}", C::NAME, before.0, c.cap()));
            cx.note((items as u64).wrapping_mul(31).wrapping_add(before.0 as u64));
            let t = if twin_before == before.0 { twin.cap() } else { before.0 - 1 };
            check_recycled(&c, before, t, max, calls, cx);
            if items > 0 {
                cx.nontrivial = true;
            }
            if cx.fail.is_some() {
                break;
            }
        }
        drop(c);
        DROPS.with(|d| {
            let d = d.borrow();
            if let Some(k) = d.iter().position(|&n| n != 1) {
                cx.bad("policy", format!("{}: item {k} was dropped {} times", C::NAME, d[k]));
            }
        });
    }

    /// An element that sees how the default policy treats it.
    #[derive(Debug, PartialEq)]
    struct Seen {
        v: u64,
        buf: Vec<u8>,
        from: u32,
    }
    static CLONES: AtomicU64 = AtomicU64::new(0);
    impl Default for Seen {
        fn default() -> Self {
            Seen { v: 7, buf: Vec::new(), from: 0 }
        }
    }
    impl Clone for Seen {
        fn clone(&self) -> Self {
            CLONES.fetch_add(1, Relaxed);
            Seen { v: self.v, buf: self.buf.clone(), from: self.from }
        }
        fn clone_from(&mut self, o: &Self) {
            self.v = o.v;
            self.buf.clone_from(&o.buf);
            self.from += 1;
        }
    }

    fn default_pol(cx: &mut Cx) {
        let p = Arc::new(if chance(1, 2) { DefaultRecycle::new() } else { DefaultRecycle::default() });
        let shared = chance(1, 2);
        macro_rules! on {
            ($t:ty, $name:literal, |$e:ident| $fill:expr, |$a:ident| $addr:expr) => {{
                cx.labels.push($name);
                let mut $e: $t = if shared { p.new_element() } else { (*p).new_element() };
                cx.ck($e == <$t>::default(), "policy", || format!("new {}: {:?}", $name, $e));
                for _ in 0..1 + gen(3) {
                    $fill;
                    let $a = &$e;
                    let before = $addr;
                    cx.tr(|| format!("{} at {before:?}", $name));
                    cx.note(hash($name) + gen(1) as u64);
                    if shared { p.recycle(&mut $e) } else { (*p).recycle(&mut $e) }
                    let $a = &$e;
                    let after = $addr;
                    cx.ck($e == <$t>::default(), "policy", || format!("recycled {}: {:?}", $name, $e));
                    cx.ck(before == after, "policy", || format!("{}: its allocation was not reused: {before:x?} became {after:x?}", $name));
                    cx.nontrivial = true;
                }
            }};
        }
        match gen(6) {
            0 => on!(String, "String", |e| e.push_str(&gen_str(8)), |a| (a.as_ptr() as usize * (a.capacity() > 0) as usize, a.capacity())),
            1 => on!(Vec<u32>, "Vec", |e| e.extend(0..gen(50)), |a| (a.as_ptr() as usize * (a.capacity() > 0) as usize, a.capacity())),
            2 => on!(Box<u64>, "Box", |e| *e = gen(50) as u64, |a| &**a as *const u64 as usize),
            3 => on!(u64, "u64", |e| e = 1 + gen(50) as u64, |_a| 0),
            4 => on!(VecDeque<u32>, "VecDeque", |e| e.extend(0..gen(50)), |a| a.capacity()),
            _ => {
                cx.labels.push("custom");
                let mut e: Seen = p.new_element();
                cx.ck(e == Seen::default(), "policy", || format!("new: {e:?}"));
                let n = CLONES.load(Relaxed);
                for k in 0..1 + gen(3) {
                    e.v = gen(100) as u64;
                    let m = gen(50) as usize;
                    e.buf.resize(m, 1);
                    let b = (e.buf.as_ptr() as usize, e.buf.capacity());
                    if shared { p.recycle(&mut e) } else { (*p).recycle(&mut e) }
                    cx.tr(|| format!("custom element with {m} bytes"));
                    cx.note(m as u64);
                    let ok = e.v == 7 && e.buf.is_empty() && e.from == k + 1 && CLONES.load(Relaxed) == n && (e.buf.as_ptr() as usize, e.buf.capacity()) == b;
                    cx.ck(ok, "policy", || format!("recycled custom element: {e:?}, not reused in place"));
                    cx.nontrivial = true;
                }
            }
        }
    }

    struct Counting {
        news: AtomicU64,
        recs: AtomicU64,
    }
    impl Recycle<u64> for Counting {
        fn new_element(&self) -> u64 {
            100 + self.news.fetch_add(1, Relaxed)
        }
        fn recycle(&self, e: &mut u64) {
            *e = *e * 2 + 1;
            self.recs.fetch_add(1, Relaxed);
        }
    }

    /// A shared policy calls the one it wraps, once, and returns what it returns.
    fn shared_pol(cx: &mut Cx) {
        cx.labels.push("shared");
        let r = Arc::new(Counting { news: AtomicU64::new(0), recs: AtomicU64::new(0) });
        let rr = Arc::new(r.clone());
        let (mut n, mut m) = (0, 0);
        let mut e = 5u64;
        for _ in 0..2 + gen(8) {
            let deep = chance(1, 2);
            if chance(1, 2) {
                let x: u64 = if deep { rr.new_element() } else { r.new_element() };
                cx.ck(x == 100 + n, "policy", || format!("shared policy made {x}, the wrapped one {}", 100 + n));
                n += 1;
                e = x;
            } else {
                let want = e.wrapping_mul(2).wrapping_add(1);
                if e > 1 << 60 {
                    continue;
                }
                if deep { rr.recycle(&mut e) } else { r.recycle(&mut e) }
                m += 1;
                cx.ck(e == want, "policy", || format!("shared policy recycled to {e}, the wrapped one to {want}"));
            }
            cx.note(e);
            let got = (r.news.load(Relaxed), r.recs.load(Relaxed));
            cx.ck(got == (n, m), "policy", || format!("{n} new and {m} recycle calls were passed on as {got:?}"));
        }
        cx.tr(|| format!("{n} new, {m} recycled"));
        cx.nontrivial = n > 0 && m > 0;
    }

    /// Strings in a queue: each slot keeps its own, bounded by the policy.
    fn pooled(cx: &mut Cx) {
        let (p, min, max) = gen_pol(cx);
        let cap = 1 + gen(4) as usize;
        cx.labels.push("pooled");
        let q = thingbuf::ThingBuf::<String, _>::with_recycle(cap, p);
        let mut slots: Vec<Option<(usize, usize)>> = vec![None; cap];
        let (mut h, mut t) = (0usize, 0usize);
        let mut sent: VecDeque<String> = VecDeque::new();
        for _ in 0..4 + gen(20) {
            if chance(1, 2) {
                let Ok(mut g) = q.push_ref() else { continue };
                let (a, c) = (g.as_ptr() as usize, g.capacity());
                cx.ck(g.is_empty(), "policy", || format!("a reserved string contains {:?}", *g));
                match slots[t % cap] {
                    None => cx.ck(c >= min, "policy", || format!("a new string has capacity {c}, minimum {min}")),
                    Some((oa, oc)) if oc <= max => cx.ck(c == oc && (oc == 0 || a == oa), "policy", || format!("slot {}: capacity {oc} became {c}", t % cap)),
                    Some((_, oc)) => {
                        cx.labels.push("shrunk");
                        cx.ck(c >= max && c < oc, "policy", || format!("slot {}: capacity {oc}, maximum {max}, became {c}", t % cap))
                    }
                };
                let s = gen_str(12);
                g.push_str(&s);
                sent.push_back(s);
                slots[t % cap] = Some((g.as_ptr() as usize, g.capacity()));
                t += 1;
            } else {
                let Some(g) = q.pop_ref() else { continue };
                let s = sent.pop_front().unwrap();
                cx.ck(*g == s, "policy", || format!("pushed {s:?}, popped {:?}", *g));
                cx.ck(slots[h % cap] == Some((g.as_ptr() as usize, g.capacity())), "policy", || "the popped string is not the one pushed".into());
                h += 1;
            }
            cx.note(t as u64 * 3 + h as u64);
            if cx.fail.is_some() {
                return;
            }
        }
        cx.tr(|| format!("{t} pushed, {h} popped"));
        if t > cap {
            cx.nontrivial = true;
        }
    }

    pub fn policies(describe: bool) -> Report {
        run(describe, "policy", |cx| {
            DROPS.with(|d| d.borrow_mut().clear());
            alloc::restore((0, 0));
            match weighted(&[2, 2, 2, 2, 2, 2, 1, 4, 1, 4]) {
                0 => with_cap::<Vec<D>>(cx),
                1 => with_cap::<String>(cx),
                2 => with_cap::<VecDeque<D>>(cx),
                3 => with_cap::<BinaryHeap<D>>(cx),
                4 => with_cap::<HM>(cx),
                5 => with_cap::<HS>(cx),
                6 => with_cap::<Vec<()>>(cx),
                7 => default_pol(cx),
                8 => shared_pol(cx),
                _ => pooled(cx),
            }
        })
    }
}
