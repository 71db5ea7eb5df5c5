//! Which public types are Send and Sync, for generated element and policy
//! types. The generated file (gentypes.py) lists type expressions; each
//! is probed together with its parts, and judged by `rule`.
#![allow(dead_code, unused_imports, clippy::all)]
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::{Arc, MutexGuard};
use thingbuf::mpsc::{self, errors};
#[cfg(feature = "std")]
use thingbuf::mpsc::blocking;
use thingbuf::recycling::{DefaultRecycle, Recycle, WithCapacity};
use thingbuf::{Ref, StaticThingBuf, ThingBuf};

macro_rules! marker {
    ($($n:ident($t:ty);)*) => { $(
        pub struct $n(PhantomData<$t>);
        impl<T> Recycle<T> for $n {
            fn new_element(&self) -> T { unreachable!() }
            fn recycle(&self, _: &mut T) {}
        }
    )* };
}
marker! {
    SS(u8);
    SO(Cell<u8>);
    YO(MutexGuard<'static, u8>);
    NN(*const u8);
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tr {
    pub send: bool,
    pub sync: bool,
}

pub struct P<T: ?Sized>(PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> No for P<T> {}
impl<T: ?Sized + Send> P<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> P<T> {
    const SYNC: bool = true;
}
macro_rules! p {
    ($t:ty) => {
        Tr { send: P::<$t>::SEND, sync: P::<$t>::SYNC }
    };
}

/// the same for a value whose type has no name
pub struct V<T>(PhantomData<T>);
fn out_of<A, B>(_: impl FnOnce(A) -> B) -> V<B> {
    V(PhantomData)
}
trait SendNo {
    fn send(&self) -> bool {
        false
    }
}
impl<T> SendNo for &V<T> {}
trait SendYes {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Send> SendYes for V<T> {}
trait SyncNo {
    fn sync(&self) -> bool {
        false
    }
}
impl<T> SyncNo for &V<T> {}
trait SyncYes {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: Sync> SyncYes for V<T> {}
macro_rules! v {
    ($a:ty, $f:expr) => {{
        let v = out_of(|x: &'static $a| ($f)(x));
        Tr { send: (&v).send(), sync: (&v).sync() }
    }};
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    /// a queue or static channel: owns elements and policy
    Owner,
    /// shares a channel and may be the last to drop it; can be cloned by whoever sees it
    Sender,
    /// shares a channel and may be the last to drop it
    Handle,
    /// a static channel's handle: refers to elements and policy
    StaticHandle,
    /// exclusive access to one element
    Guard,
    /// refers to a channel, takes or makes elements
    Future,
    /// refers to a channel and carries an element to be sent
    Carrier,
    /// holds an element by value
    Value,
    /// no element, no policy
    Plain,
}

/// The most that is sound, given element and policy.
fn rule(k: K, t: Tr, r: Tr) -> Tr {
    match k {
        K::Owner => Tr { send: t.send && r.send, sync: t.send && r.sync },
        K::Sender => Tr { send: t.send && r.sync && r.send, sync: t.send && r.sync && r.send },
        K::Handle => Tr { send: t.send && r.sync && r.send, sync: t.send && r.sync },
        K::StaticHandle => Tr { send: t.send && r.sync, sync: t.send && r.sync },
        K::Guard => Tr { send: t.send, sync: t.sync },
        K::Future => Tr { send: t.send && r.sync, sync: t.send && r.sync },
        K::Carrier => Tr { send: t.send && r.sync, sync: t.send && r.sync },
        K::Value => t,
        K::Plain => Tr { send: true, sync: true },
    }
}

pub struct Row {
    pub name: &'static str,
    pub k: K,
    pub got: Tr,
    pub t: Tr,
    pub r: Tr,
}

include!(env!("VT_GEN"));

fn esc(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let dir = a.iter().position(|x| x == "--dir").map(|i| a[i + 1].clone());
    let rows = rows();
    let mut bad: Vec<String> = Vec::new();
    let (mut granted, mut refused) = (0, 0);
    for w in &rows {
        let most = rule(w.k, w.t, w.r);
        let good = Tr { send: true, sync: true };
        for (what, got, most) in [("Send", w.got.send, most.send), ("Sync", w.got.sync, most.sync)] {
            if got && !most {
                bad.push(format!("unsound: {} is {what} ({:?}), element {:?}, policy {:?}", w.name, w.k, w.t, w.r));
            }
            if !got && w.t == good && w.r == good {
                bad.push(format!("lost: {} is not {what} ({:?}), element {:?}, policy {:?}", w.name, w.k, w.t, w.r));
            }
            if got {
                granted += 1
            } else {
                refused += 1
            }
        }
    }
    bad.sort_by_key(|b| b.len());
    let mut viol = "null".to_string();
    if let (Some(d), false) = (&dir, bad.is_empty()) {
        std::fs::create_dir_all(d).unwrap();
        let f = format!("{d}/traits.replay");
        std::fs::write(&f, bad.join("\n") + "\n").unwrap();
        viol = format!("{{\"suite\":\"traits\",\"replay\":{}}}", esc(&f));
    }
    if dir.is_none() {
        for w in &rows {
            println!("{:?} {} {:?} element {:?} policy {:?}", w.k, w.name, w.got, w.t, w.r);
        }
    }
    let mut names: Vec<&str> = rows.iter().map(|r| r.name).collect();
    names.sort();
    names.dedup();
    let nt = rows.iter().filter(|r| r.t != r.r || !r.t.send || !r.t.sync).count();
    let s: Vec<String> = rows.iter().rev().take(3).map(|w| esc(&format!("{} is {:?}; element {:?}, policy {:?}", w.name, w.got, w.t, w.r))).collect();
    println!(
        "{{\"secs\":0,\"suites\":[{{\"suite\":\"traits\",\"cases\":{},\"nontrivial\":{nt},\"distinct\":{},\"secs\":0,\"labels\":{{\"granted\":{granted},\"refused\":{refused}}},\"other_kinds\":{{}},\"other_msg\":\"\",\"samples\":[{}]}}],\"violation\":{viol},\"error\":null}}",
        rows.len(),
        names.len(),
        s.join(",")
    );
    std::process::exit(!bad.is_empty() as i32);
}
