//! Histories, and the linearizability search against the ring / channel model.
use crate::engine::{mix, Failure};
use crate::rt::{self, MAXT};
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    /// a slot was reserved for element v
    Claim(u64),
    /// element v was published
    Pub(u64),
    /// element v was taken from the queue
    Pop(u64),
    /// element v's slot was released
    Rel(u64),
    Full,
    Empty,
    Len(usize),
    // channels
    TxClone,
    TxCount,
    TxClose,
    RxDrop,
    SendClosed,
    RecvClosed,
    IsClosed(bool),
}

#[derive(Clone, Copy)]
pub struct Pt {
    pub seq: u64,
    pub th: usize,
    pub ep: u32,
    pub vc: [u32; MAXT],
}

pub fn pt() -> Pt {
    let (th, ep) = rt::own_epoch();
    Pt {
        seq: rt::stamp(),
        th,
        ep,
        vc: rt::clock(),
    }
}

pub struct Event {
    pub k: K,
    pub inv: Pt,
    pub resp: Pt,
}

#[derive(Clone, Copy)]
struct El {
    val: u64,
    published: bool,
    released: bool,
}

pub struct Params {
    pub cap: usize,
    /// laps done before the history starts
    pub base: usize,
    /// the history is sequential, in order
    pub single: bool,
    pub weak: bool,
    /// sender handles at the start
    pub txs: i32,
}

/// Which observations constrain the search.
#[derive(Clone, Copy)]
struct Use {
    len: bool,
    full: bool,
    empty: bool,
    closed: bool,
}

struct Model<'a> {
    evs: &'a [Event],
    pred: Vec<u128>,
    cap: usize,
    base: usize,
    t: Vec<El>,
    h: usize,
    txs: i32,
    tx_closed: bool,
    rx_gone: bool,
    order: u64,
    u: Use,
    seen: HashSet<(u128, u64)>,
    nodes: u64,
}

impl Model<'_> {
    fn slot_free(&self) -> bool {
        self.t.len() < self.cap || self.t[self.t.len() - self.cap].released
    }
    /// Applies an event; `None` if the model does not allow it now.
    fn apply(&mut self, k: K) -> Option<u32> {
        let ok = |b: bool| if b { Some(0) } else { None };
        match k {
            K::Claim(v) => {
                if !self.slot_free() || self.rx_gone && self.u.closed {
                    return None;
                }
                self.t.push(El {
                    val: v,
                    published: false,
                    released: false,
                });
                Some(0)
            }
            K::Pub(v) => {
                let i = (0..self.t.len())
                    .rev()
                    .find(|&i| self.t[i].val == v && !self.t[i].published)?;
                self.t[i].published = true;
                Some(i as u32)
            }
            K::Pop(v) => {
                let e = self.t.get(self.h)?;
                if !e.published || e.val != v {
                    return None;
                }
                self.h += 1;
                Some(0)
            }
            K::Rel(v) => {
                let i = (0..self.h)
                    .rev()
                    .find(|&i| self.t[i].val == v && !self.t[i].released)?;
                self.t[i].released = true;
                Some(i as u32)
            }
            K::Full => ok(!self.u.full || !self.slot_free() && !self.rx_gone),
            K::Empty => ok(!self.u.empty
                || self.h == self.t.len() && !self.tx_closed
                || self.h < self.t.len() && !self.t[self.h].published),
            K::Len(n) => ok(!self.u.len || self.t.len() - self.h == n),
            K::TxClone => {
                self.txs += 1;
                Some(0)
            }
            K::TxCount => {
                self.txs -= 1;
                Some(0)
            }
            K::TxClose => {
                let old = self.tx_closed;
                if self.txs == 0 {
                    self.tx_closed = true;
                }
                Some(old as u32)
            }
            K::RxDrop => {
                self.rx_gone = true;
                Some(0)
            }
            K::SendClosed => ok(!self.u.closed || self.rx_gone),
            K::RecvClosed => ok(!self.u.closed || self.tx_closed && self.h == self.t.len()),
            K::IsClosed(b) => ok(!self.u.closed || (self.txs == 0) == b),
        }
    }
    fn undo(&mut self, k: K, tok: u32) {
        match k {
            K::Claim(_) => {
                self.t.pop();
            }
            K::Pub(_) => self.t[tok as usize].published = false,
            K::Pop(_) => self.h -= 1,
            K::Rel(_) => self.t[tok as usize].released = false,
            K::TxClone => self.txs -= 1,
            K::TxCount => self.txs += 1,
            K::TxClose => self.tx_closed = tok != 0,
            K::RxDrop => self.rx_gone = false,
            _ => {}
        }
    }
    fn search(&mut self, done: u128) -> bool {
        let n = self.evs.len();
        if done.count_ones() as usize == n {
            return true;
        }
        self.nodes += 1;
        if self.nodes > 300_000 {
            return true; // not decided
        }
        if !self.seen.insert((done, self.order)) {
            return false;
        }
        for i in 0..n {
            let b = 1u128 << i;
            if done & b != 0 || self.pred[i] & !done != 0 {
                continue;
            }
            let k = self.evs[i].k;
            if let Some(tok) = self.apply(k) {
                let old = self.order;
                match k {
                    K::Claim(v) => self.order = mix(old, v + 1),
                    K::TxClose if self.tx_closed && tok == 0 => self.order = mix(old, 0x77),
                    _ => {}
                }
                if self.search(done | b) {
                    return true;
                }
                self.order = old;
                self.undo(k, tok);
            }
        }
        false
    }
}

fn precedes(a: &Event, b: &Event, weak: bool) -> bool {
    if a.resp.seq >= b.inv.seq {
        return false;
    }
    if !weak {
        return true;
    }
    a.resp.ep <= b.inv.vc[a.resp.th]
}

/// Searches for a sequential order of the history that the model allows.
/// Failure kinds: "order" (elements), "full" / "empty" (refusals), "closed"
/// (closed reports), "acct" (lengths).
pub fn judge(evs: &[Event], p: &Params) -> Option<Failure> {
    let init = |u: Use| Model {
        evs,
        pred: Vec::new(),
        cap: p.cap,
        base: p.base,
        t: (0..p.base)
            .map(|_| El {
                val: u64::MAX,
                published: true,
                released: true,
            })
            .collect(),
        h: p.base,
        txs: p.txs,
        tx_closed: false,
        rx_gone: false,
        order: 0,
        u,
        seen: HashSet::new(),
        nodes: 0,
    };
    const ALL: Use = Use {
        len: true,
        full: true,
        empty: true,
        closed: true,
    };
    if p.single {
        let mut m = init(ALL);
        for e in evs.iter() {
            if m.apply(e.k).is_none() {
                let kind = match e.k {
                    K::Full => "full",
                    K::Len(_) => "acct",
                    K::Claim(_) => "full",
                    K::Empty => "empty",
                    K::SendClosed | K::RecvClosed | K::IsClosed(_) => "closed",
                    _ => "order",
                };
                return Some(Failure {
                    kind,
                    msg: format!(
                        "{:?} contradicts the model: {} reserved, {} popped, capacity {}, oldest {:?}, {} senders, receiver {}",
                        e.k,
                        m.t.len() - m.base,
                        m.h - m.base,
                        m.cap,
                        m.t.get(m.h).map(|e| (e.val, e.published)),
                        m.txs,
                        if m.rx_gone { "gone" } else { "there" },
                    ),
                });
            }
        }
        return None;
    }
    if evs.len() > 120 {
        return None;
    }
    let mut pred = vec![0u128; evs.len()];
    for (i, b) in evs.iter().enumerate() {
        for (j, a) in evs.iter().enumerate() {
            if i == j {
                continue;
            }
            let before = precedes(a, b, p.weak)
                || match (a.k, b.k) {
                    (K::Claim(x), K::Pub(y)) => x == y,
                    (K::Pop(x), K::Rel(y)) => x == y,
                    (K::TxCount, K::TxClose) => a.inv.seq == b.inv.seq,
                    _ => false,
                };
            if before {
                pred[i] |= 1 << j;
            }
        }
    }
    let none = Use {
        len: false,
        full: false,
        empty: false,
        closed: false,
    };
    // from strongest to weakest: the first that has a solution names the kind
    let ladder: &[(Use, &str)] = &[
        (ALL, "acct"),
        (Use { len: false, ..ALL }, "full"),
        (
            Use {
                len: false,
                full: false,
                ..ALL
            },
            "empty",
        ),
        (
            Use {
                len: true,
                closed: true,
                ..none
            },
            "acct",
        ),
        (
            Use {
                closed: true,
                ..none
            },
            "closed",
        ),
        (none, "order"),
    ];
    let lens = evs.iter().any(|e| matches!(e.k, K::Len(_)));
    let mut verdict = None;
    for (u, kind) in ladder {
        // refusals under stale loads need not fit a single order with the rest,
        // lengths do
        let weaker = !u.empty && u.len;
        if p.weak && u.empty || weaker && !(p.weak && lens) {
            continue;
        }
        let mut m = init(*u);
        m.pred = pred.clone();
        if m.search(0) {
            break;
        }
        verdict = Some(*kind);
    }
    verdict.map(|kind| Failure {
        kind,
        msg: format!(
            "no sequential order explains the history (capacity {}, {}): {}",
            p.cap,
            if p.weak { "happens-before order" } else { "real-time order" },
            evs.iter()
                .map(|e| format!("t{}:{:?}[{},{}]", e.inv.th, e.k, e.inv.seq, e.resp.seq))
                .collect::<Vec<_>>()
                .join(" ")
        ),
    })
}
