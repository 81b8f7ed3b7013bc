//! User code that the library calls back into: custom `Encode`, `Decode`, `Serialize`,
//! `Deserialize`, `Ord`, `Eq` and `Hash` implementations which, under a plan drawn by the
//! simulator, give up the processor, panic, or call the library again.

use std::cell::RefCell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use oasis_cbor as cbor;

use crate::calls::{Call, Out};
use crate::seam::{shielded, TL};
use crate::ty::{Ty, T};
use crate::zoo::{Hist, Zoo};

/// Payload of an injected panic.
pub struct CbPanic;

#[derive(Clone, Debug)]
pub enum Act {
    Panic,
    /// Make another library call (by index into the pool) from inside.
    Nest(usize),
}

#[derive(Default)]
struct State {
    on: bool,
    seen: u64,
    depth: u32,
    plan: Vec<(u64, Act)>,
    pool: Arc<Vec<Call>>,
    nested: Vec<(usize, Out)>,
    fired: bool,
    in_container: bool,
}

thread_local! {
    static CB: RefCell<State> = RefCell::new(State::default());
}

/// Arm the callbacks of this thread for one call.
pub fn arm(pool: Arc<Vec<Call>>, plan: Vec<(u64, Act)>) {
    CB.with(|c| {
        let mut c = c.borrow_mut();
        *c = State { on: true, plan, pool, ..State::default() };
    });
}

pub struct Seen {
    pub callbacks: u64,
    pub nested: Vec<(usize, Out)>,
    pub panicked: bool,
    pub in_container: bool,
}

pub fn disarm() -> Seen {
    CB.with(|c| {
        let mut c = c.borrow_mut();
        let s = std::mem::take(&mut *c);
        Seen { callbacks: s.seen, nested: s.nested, panicked: s.fired, in_container: s.in_container }
    })
}

/// From within a std container: what std loses when it is unwound here is not the library's.
fn in_container() {
    call_back(true)
}

pub fn callback() {
    call_back(false)
}

fn call_back(container: bool) {
    if TL.with(|t| t.shield.get()) > 0 {
        return;
    }
    let on = CB.with(|c| c.try_borrow().map_or(false, |c| c.on));
    if !on {
        return;
    }
    #[cfg(not(far))]
    if crate::seam::in_sim() {
        crate::sched::preempt(crate::sched::Point::Callback);
    }
    if std::thread::panicking() {
        return;
    }
    let act = shielded(|| {
        CB.with(|c| {
            let mut c = c.borrow_mut();
            c.seen += 1;
            let n = c.seen;
            let a = c.plan.iter().find(|(k, _)| *k == n).map(|(_, a)| a.clone());
            match a {
                Some(Act::Nest(_)) if c.depth >= 2 => None,
                Some(Act::Panic) => {
                    c.fired = true;
                    c.in_container |= container;
                    a
                }
                a => a.map(|a| {
                    c.depth += 1;
                    a
                }),
            }
        })
    });
    match act {
        None => {}
        Some(Act::Panic) => std::panic::panic_any(CbPanic),
        Some(Act::Nest(i)) => {
            let pool = CB.with(|c| c.borrow().pool.clone());
            let ready = shielded(|| pool[i].prepare());
            let out = ready.go();
            shielded(|| {
                drop(ready);
                CB.with(|c| {
                    let mut c = c.borrow_mut();
                    c.depth -= 1;
                    c.nested.push((i, out));
                })
            });
        }
    }
}

#[derive(Debug, Default, Clone)]
pub struct Cb(pub u64);

impl PartialEq for Cb {
    fn eq(&self, o: &Cb) -> bool {
        in_container();
        self.0 == o.0
    }
}
impl Eq for Cb {}
impl PartialOrd for Cb {
    fn partial_cmp(&self, o: &Cb) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Cb {
    fn cmp(&self, o: &Cb) -> Ordering {
        in_container();
        self.0.cmp(&o.0)
    }
}
impl Hash for Cb {
    fn hash<H: Hasher>(&self, h: &mut H) {
        in_container();
        self.0.hash(h)
    }
}
impl cbor::Encode for Cb {
    fn is_empty(&self) -> bool {
        callback();
        self.0.is_empty()
    }
    fn into_cbor_value(self) -> cbor::Value {
        callback();
        let v = self.0.into_cbor_value();
        callback();
        v
    }
}
impl cbor::Decode for Cb {
    fn try_default() -> Result<Self, cbor::DecodeError> {
        callback();
        Ok(Cb(0))
    }
    fn try_from_cbor_value(v: cbor::Value) -> Result<Self, cbor::DecodeError> {
        callback();
        let r = u64::try_from_cbor_value(v).map(Cb);
        callback();
        r
    }
}
impl serde::Serialize for Cb {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        callback();
        let r = s.serialize_u64(self.0);
        callback();
        r
    }
}
impl<'de> serde::Deserialize<'de> for Cb {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        callback();
        let r = u64::deserialize(d).map(Cb);
        callback();
        r
    }
}
impl Zoo for Cb {
    fn ty() -> Ty {
        Ty::U(64)
    }
    fn to_tree(&self) -> T {
        T::U(self.0 as u128)
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        Cb(u64::from_tree(t, h))
    }
}

/// Serialise a plain integer through user code.
pub fn enc_hook(n: &u64) -> u64 {
    callback();
    n.wrapping_add(1)
}
pub fn dec_hook(n: u64) -> Result<u64, cbor::DecodeError> {
    callback();
    Ok(n.wrapping_sub(1))
}
