//! Channels in bulk: capacities, numbers of handles and lines of waiting
//! senders that the exact histories are too slow for.
use crate::engine::{chance, gen, weighted, Report};
use crate::vals::{run, Cx};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
#[cfg(feature = "full")]
use thingbuf::mpsc::blocking;
use thingbuf::mpsc::{self, errors::*};

type Fut<'a> = Pin<Box<dyn Future<Output = Result<(), u64>> + 'a>>;

trait Tx: Clone {
    fn put(&self, by_ref: bool, v: u64) -> Result<(), (bool, u64)>;
    fn send(&self, _v: u64) -> Option<Fut<'_>> {
        None
    }
}

trait Rx {
    fn take(&self, by_ref: bool) -> Result<u64, bool>;
    fn closed(&self) -> bool;
}

macro_rules! flavour {
    ($tx:ty, $rx:ty, { $($send:tt)* }) => {
        impl Tx for $tx {
            fn put(&self, by_ref: bool, v: u64) -> Result<(), (bool, u64)> {
                if by_ref {
                    match self.try_send_ref() {
                        Ok(mut r) => {
                            *r = v;
                            Ok(())
                        }
                        Err(e) => Err((matches!(e, TrySendError::Closed(())), v)),
                    }
                } else {
                    self.try_send(v).map_err(|e| (matches!(e, TrySendError::Closed(_)), e.into_inner()))
                }
            }
            $($send)*
        }
        impl Rx for $rx {
            fn take(&self, by_ref: bool) -> Result<u64, bool> {
                let r = if by_ref { self.try_recv_ref().map(|r| *r) } else { self.try_recv() };
                r.map_err(|e| matches!(e, TryRecvError::Closed))
            }
            fn closed(&self) -> bool {
                self.is_closed()
            }
        }
    };
}

#[cfg(feature = "alloc")]
flavour!(mpsc::Sender<u64>, mpsc::Receiver<u64>, {
    fn send(&self, v: u64) -> Option<Fut<'_>> {
        Some(Box::pin(async move { mpsc::Sender::send(self, v).await.map_err(|e| e.into_inner()) }))
    }
});
flavour!(mpsc::StaticSender<u64>, mpsc::StaticReceiver<u64>, {
    fn send(&self, v: u64) -> Option<Fut<'_>> {
        Some(Box::pin(async move { mpsc::StaticSender::send(self, v).await.map_err(|e| e.into_inner()) }))
    }
});
#[cfg(feature = "full")]
flavour!(blocking::Sender<u64>, blocking::Receiver<u64>, {});
#[cfg(feature = "full")]
flavour!(blocking::StaticSender<u64>, blocking::StaticReceiver<u64>, {});

struct Bell(AtomicUsize);
impl Wake for Bell {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

fn size(cap: usize) -> usize {
    match gen(5) {
        0 => 1,
        1 => gen(cap as u32 + 1) as usize,
        2 => cap,
        3 => cap + 1,
        _ => 1 + gen(3) as usize,
    }
}

fn many() -> usize {
    match weighted(&[80, 8, 1]) {
        0 => 1 + gen(6) as usize,
        1 => 1 + gen(400) as usize,
        _ => 1 + gen(3000) as usize,
    }
}

struct M {
    cap: usize,
    q: VecDeque<u64>,
    next: u64,
}

fn hist<T: Tx, R: Rx>(tx: T, rx: R, cap: usize, cx: &mut Cx) {
    let mut m = M { cap, q: VecDeque::new(), next: 1 };
    let mut txs = vec![tx];
    let asy = txs[0].send(0).is_some();
    let n = 3 + gen(8);
    for _ in 0..n {
        if cx.fail.is_some() {
            return;
        }
        match weighted(&[4, 4, 2, 2, if asy { 3 } else { 0 }]) {
            0 => {
                let (n, by_ref) = (size(cap), chance(1, 2));
                cx.tr(|| format!("send {n}{}", if by_ref { " by reference" } else { "" }));
                cx.note(n as u64 * 8 + by_ref as u64);
                for i in 0..n {
                    let i = i % txs.len();
                    put(&txs[i], by_ref, &mut m, cx);
                    if cx.fail.is_some() {
                        return;
                    }
                }
            }
            1 => {
                let (n, by_ref) = (size(cap), chance(1, 2));
                cx.tr(|| format!("receive {n}{}", if by_ref { " by reference" } else { "" }));
                cx.note(n as u64 * 8 + 2 + by_ref as u64);
                for _ in 0..n {
                    take(&rx, by_ref, false, &mut m, cx);
                    if cx.fail.is_some() {
                        return;
                    }
                }
            }
            2 => {
                let n = if chance(1, 300) { 66_000 } else { many() };
                cx.tr(|| format!("clone {n} senders"));
                cx.note(n as u64 * 8 + 4);
                if n > 255 {
                    cx.labels.push("many senders");
                }
                for i in 0..n {
                    let c = txs[i % txs.len()].clone();
                    txs.push(c);
                    if rx.closed() {
                        cx.ck(false, "isclosed", || format!("closed with {} senders", txs.len()));
                        return;
                    }
                }
            }
            3 => {
                let n = many();
                cx.tr(|| format!("drop up to {n} senders"));
                cx.note(n as u64 * 8 + 5);
                for _ in 0..n {
                    if txs.len() > 1 {
                        let i = n % txs.len();
                        txs.swap_remove(i);
                    }
                    if rx.closed() {
                        cx.ck(false, "isclosed", || format!("closed with {} senders", txs.len()));
                        return;
                    }
                }
            }
            _ => {
                let k = many();
                if k > 40 {
                    cx.labels.push("long line");
                }
                let close = chance(1, 12);
                line(&txs, &rx, k, close, &mut m, cx);
                if close && cx.fail.is_none() {
                    cx.tr(|| "the receiver is dropped".into());
                    return closing(txs, rx, m, cx);
                }
            }
        }
    }
    if cx.fail.is_some() {
        return;
    }
    if m.next > cap as u64 {
        cx.nontrivial = true;
    }
    if chance(1, 4) {
        return closing(txs, rx, m, cx);
    }
    cx.tr(|| "drop all senders and receive the rest".into());
    let by_ref = chance(1, 2);
    while let Some(t) = txs.pop() {
        drop(t);
        let e = txs.is_empty();
        if rx.closed() != e {
            cx.ck(false, "isclosed", || format!("is_closed is {} with {} senders", !e, txs.len()));
            return;
        }
    }
    for _ in 0..m.q.len() + 2 {
        take(&rx, by_ref, true, &mut m, cx);
        cx.ck(rx.closed(), "isclosed", || "not closed without senders".into());
    }
}

fn put(tx: &impl Tx, by_ref: bool, m: &mut M, cx: &mut Cx) {
    let (v, len, cap) = (m.next, m.q.len(), m.cap);
    let r = tx.put(by_ref, v);
    cx.ck(r.is_ok() == (len < cap), "full", || format!("sending with {len} of {cap}: {r:?}"));
    match r {
        Ok(()) => {
            m.q.push_back(v);
            m.next += 1;
        }
        Err((closed, w)) => {
            cx.labels.push("refused");
            cx.ck(!closed, "closed", || "closed while there is a receiver".into());
            cx.ck(v == w, "giveback", || format!("sent {v}, came back as {w}"));
        }
    }
}

fn take(rx: &impl Rx, by_ref: bool, closed: bool, m: &mut M, cx: &mut Cx) -> bool {
    let r = rx.take(by_ref);
    match (r, m.q.pop_front()) {
        (Ok(v), Some(e)) => cx.ck(v == e, "order", || format!("received {v}, expected {e}")),
        (Ok(v), None) => cx.ck(false, "order", || format!("received {v} from an empty channel")),
        (Err(_), Some(e)) => cx.ck(false, "empty", || format!("received nothing, expected {e}")),
        (Err(c), None) => cx.ck(c == closed, "closed", || format!("reports {}", if c { "closed" } else { "empty" })),
    };
    r.is_ok()
}

/// A line of `k` waiting senders, some of which give up.
fn line<T: Tx, R: Rx>(txs: &[T], rx: &R, k: usize, close: bool, m: &mut M, cx: &mut Cx) {
    while m.q.len() < m.cap && cx.fail.is_none() {
        put(&txs[0], false, m, cx);
    }
    if cx.fail.is_some() {
        return;
    }
    let gone = [0, 2, 6][gen(3) as usize];
    let renew = chance(1, 2);
    let rounds = if close { gen(4) as usize } else { k + gen(3) as usize };
    cx.tr(|| format!("{k} waiting senders, {gone} of 8 give up, receive {rounds}{}", if renew { ", wakers change" } else { "" }));
    cx.note(k as u64 * 8 + 6 + gone as u64 * 100_000);
    let mut pend: VecDeque<(u64, Arc<Bell>, Fut<'_>)> = VecDeque::new();
    for i in 0..k {
        let v = m.next;
        m.next += 1;
        let b = Arc::new(Bell(AtomicUsize::new(0)));
        let mut f = txs[i % txs.len()].send(v).unwrap();
        match f.as_mut().poll(&mut Context::from_waker(&Waker::from(b.clone()))) {
            Poll::Pending => pend.push_back((v, b, f)),
            Poll::Ready(r) => {
                cx.ck(false, "full", || format!("send with a full channel: {r:?}"));
                return;
            }
        }
    }
    if gone > 0 {
        // few choices, many futures
        let s = gen(1 << 30) as u64;
        let mut i = 0u64;
        pend.retain(|_| {
            i += 1;
            (s.wrapping_add(i).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) % 8 >= gone
        });
    }
    if renew {
        for (v, b, f) in pend.iter_mut() {
            *b = Arc::new(Bell(AtomicUsize::new(0)));
            let r = f.as_mut().poll(&mut Context::from_waker(&Waker::from(b.clone())));
            if r.is_ready() {
                cx.ck(false, "full", || format!("send of {v} completed in a full channel: {r:?}"));
                return;
            }
        }
    }
    let by_ref = chance(1, 2);
    for _ in 0..rounds {
        if !take(rx, by_ref, false, m, cx) || cx.fail.is_some() {
            break;
        }
        let Some((v, b, mut f)) = pend.pop_front() else { continue };
        let n = b.0.load(SeqCst);
        cx.ck(n > 0, "txlost", || format!("the oldest sender (of {v}) is not woken"));
        cx.ck(n < 2, "wake", || format!("the sender of {v} is woken {n} times"));
        match f.as_mut().poll(&mut Context::from_waker(&Waker::from(b))) {
            Poll::Ready(Ok(())) => m.q.push_back(v),
            r => {
                cx.ck(false, "txlost", || format!("the woken sender of {v} gets {r:?}"));
            }
        }
    }
    if cx.fail.is_none() {
        for (v, b, _) in &pend {
            cx.ck(b.0.load(SeqCst) == 0, "wake", || format!("the sender of {v} is woken out of turn"));
        }
    }
}

/// The receiver goes while senders wait.
fn closing<T: Tx, R: Rx>(txs: Vec<T>, rx: R, mut m: M, cx: &mut Cx) {
    cx.labels.push("receiver dropped");
    let mut pend: Vec<(u64, Arc<Bell>, Fut<'_>)> = Vec::new();
    if txs[0].send(0).is_some() && chance(2, 3) {
        while m.q.len() < m.cap && cx.fail.is_none() {
            put(&txs[0], false, &mut m, cx);
        }
        let k = many();
        cx.tr(|| format!("{k} waiting senders"));
        for i in 0..k {
            let v = m.next;
            m.next += 1;
            let b = Arc::new(Bell(AtomicUsize::new(0)));
            let mut f = txs[i % txs.len()].send(v).unwrap();
            let r = f.as_mut().poll(&mut Context::from_waker(&Waker::from(b.clone())));
            cx.ck(r.is_pending(), "full", || format!("send with a full channel: {r:?}"));
            pend.push((v, b, f));
        }
    }
    if cx.fail.is_some() {
        return;
    }
    drop(rx);
    cx.tr(|| "the receiver is gone".into());
    for (v, b, mut f) in pend {
        let n = b.0.load(SeqCst);
        cx.ck(n > 0, "closelost", || format!("the sender of {v} is not woken by the end of the receiver"));
        let r = f.as_mut().poll(&mut Context::from_waker(&Waker::from(b)));
        cx.ck(r == Poll::Ready(Err(v)), "closelost", || format!("the sender of {v} gets {r:?}"));
    }
    for t in txs.iter().take(3) {
        for by_ref in [false, true] {
            let r = t.put(by_ref, 7);
            cx.ck(r == Err((true, 7)), "closed", || format!("a send after the receiver is gone: {r:?}"));
        }
    }
}

pub fn bulk(describe: bool) -> Report {
    run(describe, "panic", |cx| {
        const FLAVOURS: u32 = if cfg!(feature = "full") { 4 } else if cfg!(feature = "alloc") { 2 } else { 1 };
        macro_rules! stat {
            ($m:ident, $($n:literal)*) => {
                match [$($n),*][gen([$($n),*].len() as u32) as usize] {
                    $($n => {
                        cx.tr(|| format!(concat!(stringify!($m), "::StaticChannel of {}"), $n));
                        cx.note($n);
                        let c = Box::leak(Box::new($m::StaticChannel::<u64, $n>::new()));
                        let p: *mut _ = c;
                        let (tx, rx) = c.split();
                        hist(tx, rx, $n, cx);
                        drop(unsafe { Box::from_raw(p) });
                    })*
                    _ => unreachable!(),
                }
            };
        }
        #[cfg(feature = "alloc")]
        fn cap(cx: &mut Cx) -> usize {
            let c = match weighted(&[40, 20, 20, 1]) {
                0 => 1 + gen(12) as usize,
                1 => ((1usize << (1 + gen(9))) + gen(5) as usize).saturating_sub(2).max(1),
                2 => 1 + gen(700) as usize,
                _ => (1usize << (13 + gen(5))) + gen(6) as usize - 3,
            };
            cx.tr(|| format!("capacity {c}"));
            cx.note(c as u64);
            c
        }
        match gen(FLAVOURS) {
            0 => {
                cx.labels.push("static async");
                stat!(mpsc, 1 2 6 31 300 1025)
            }
            #[cfg(feature = "alloc")]
            1 => {
                cx.labels.push("async");
                let cap = cap(cx);
                let (tx, rx) = mpsc::channel::<u64>(cap);
                hist(tx, rx, cap, cx)
            }
            #[cfg(feature = "full")]
            2 => {
                cx.labels.push("blocking");
                let cap = cap(cx);
                let (tx, rx) = blocking::channel::<u64>(cap);
                hist(tx, rx, cap, cx)
            }
            #[cfg(feature = "full")]
            _ => {
                cx.labels.push("static blocking");
                stat!(blocking, 1 2 6 31 300 1025)
            }
            #[cfg(not(feature = "full"))]
            _ => unreachable!(),
        }
    })
}
