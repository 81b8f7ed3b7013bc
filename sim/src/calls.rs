//! Single library calls as values: what the isolation and abort worlds schedule, repeat, nest and
//! cut short.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use oasis_cbor as cbor;
use oasis_cbor::Value;

use crate::ctx::hex;
use crate::model::{self, canon, strict, M};
use crate::seam::shielded;
use crate::src::Src;
use crate::ty::{Rej, T, VM};
use crate::types::Registry;
use crate::zoo::{show, shuffle, DecPath, EncOut, EncPath, Entry, Held, Hist, Ops};

#[derive(Clone)]
pub enum Call {
    Enc { entry: Entry, tree: T, hist: u64, path: EncPath },
    /// `rx`: the bytes arrive in the buffer the caller receives everything in.
    Dec { entry: Entry, bytes: Arc<Vec<u8>>, path: DecPath, rx: bool },
    /// Generic read and re-encoding of what was read.
    Gen { bytes: Arc<Vec<u8>>, strict: bool, nest: i8, rx: bool },
    Write { m: M, hist: u64, limit: Option<i8> },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Enc(EncOut),
    Dec(Result<T, String>),
    Gen(Result<(Option<M>, EncOut), String>),
    Write(Result<Vec<u8>, String>),
    Panic(String),
}

impl Out {
    /// The call did not deliver a result.
    pub fn failed(&self) -> bool {
        match self {
            Out::Enc(EncOut::Bytes(_) | EncOut::Omitted) => false,
            Out::Enc(_) => true,
            Out::Dec(r) => r.is_err(),
            Out::Gen(Ok((_, EncOut::Bytes(_)))) => false,
            Out::Gen(_) => true,
            Out::Write(r) => r.is_err(),
            Out::Panic(_) => true,
        }
    }
    /// The same outcome; refusals are not compared by their wording.
    pub fn same(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Enc(EncOut::Refused(_)), Out::Enc(EncOut::Refused(_))) => true,
            (Out::Gen(Ok((a, EncOut::Refused(_)))), Out::Gen(Ok((b, EncOut::Refused(_))))) => a == b,
            (a, b) => a == b,
        }
    }
}

/// A call with its arguments in place.
pub enum Ready {
    Enc(Box<dyn Held>, EncPath),
    Dec(Arc<dyn Ops>, Arc<Vec<u8>>, DecPath, bool),
    Gen(Arc<Vec<u8>>, bool, i8, bool),
    Write(Value, Option<i8>),
}

impl Call {
    pub fn prepare(&self) -> Ready {
        match self {
            Call::Enc { entry, tree, hist, path } => Ready::Enc(entry.ops.build(tree, *hist), *path),
            Call::Dec { entry, bytes, path, rx } => Ready::Dec(entry.ops.clone(), bytes.clone(), *path, *rx),
            Call::Gen { bytes, strict, nest, rx } => Ready::Gen(bytes.clone(), *strict, *nest, *rx),
            Call::Write { m, hist, limit } => Ready::Write(model::to_value(&shuffle(m, &mut Hist::new(*hist))), *limit),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Call::Enc { entry, tree, path, .. } => format!("encode {} via {path:?} of {}", entry.name, show(tree)),
            Call::Dec { entry, bytes, path, .. } => format!("decode {} via {path:?} from {}", entry.name, hex(bytes)),
            Call::Gen { bytes, strict, nest, .. } => {
                format!("{} generic read (limit {nest}) and rewrite of {}", if *strict { "strict" } else { "lenient" }, hex(bytes))
            }
            Call::Write { m, limit, .. } => format!("write (limit {limit:?}) of {}", show(m)),
        }
    }
    /// What the reference model says the outcome is, where it says so.
    pub fn expected(&self) -> Option<Out> {
        match self {
            Call::Enc { entry, tree, path, .. } => {
                let m = match path {
                    EncPath::Optional => return None,
                    _ => entry.enc(tree),
                };
                let d = if matches!(path, EncPath::InTuple | EncPath::InMap) { 126 } else { 127 };
                Some(Out::Enc(match canon(&m, d) {
                    Ok(b) => EncOut::Bytes(b),
                    Err(_) => EncOut::Refused(String::new()),
                }))
            }
            Call::Dec { entry, bytes, path, .. } => {
                let d = match path {
                    DecPath::Slice | DecPath::ReadValue => 64,
                    DecPath::Read127 => 127,
                    _ => return None,
                };
                let r = match strict(bytes, d) {
                    None => Err(Rej::No),
                    Some(m) => entry.dec(&m),
                };
                match r {
                    Ok(t) => Some(Out::Dec(Ok(t))),
                    // The wording is not modelled.
                    Err(_) => None,
                }
            }
            Call::Gen { bytes, strict: true, nest, .. } if *nest >= 0 => {
                let m = strict(bytes, *nest as usize)?;
                Some(Out::Gen(Ok((Some(m), EncOut::Bytes(bytes.to_vec())))))
            }
            Call::Gen { .. } => None,
            Call::Write { m, limit, .. } => {
                let lim = limit.unwrap_or(127);
                canon(m, lim.max(0) as usize).ok().filter(|_| lim >= 0).map(|b| Out::Write(Ok(b)))
            }
        }
    }
    /// A rejection is all the reference model allows.
    pub fn must_fail(&self) -> bool {
        match self {
            Call::Dec { entry, bytes, path, .. } => {
                let d = match path {
                    DecPath::Slice | DecPath::ReadValue => 64,
                    DecPath::Read127 => 127,
                    _ => return model::lenient(bytes, 64).is_none(),
                };
                match strict(bytes, d) {
                    None => true,
                    Some(m) => entry.dec(&m) == Err(Rej::No),
                }
            }
            Call::Gen { bytes, strict: st, nest, .. } => {
                *nest < 0 || if *st { strict(bytes, *nest as usize).is_none() } else { model::lenient(bytes, *nest as usize).is_none() }
            }
            Call::Write { m, limit, .. } => {
                let lim = limit.unwrap_or(127);
                lim < 0 || canon(m, lim as usize).is_err()
            }
            Call::Enc { .. } => false,
        }
    }
}

thread_local! {
    static RX: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]);
}

/// Hand the bytes over where they are, or in the thread's receive buffer (calls made from inside of
/// others have their own).
fn received<R>(b: &[u8], rx: bool, f: impl FnOnce(&[u8]) -> R) -> R {
    struct Back(Option<Vec<u8>>);
    impl Drop for Back {
        fn drop(&mut self) {
            if let Some(b) = self.0.take() {
                shielded(|| RX.with(|r| r.borrow_mut().push(b)));
            }
        }
    }
    if !rx || b.len() > 1 << 15 {
        return f(b);
    }
    let buf = Back(Some(shielded(|| {
        let mut v = RX.with(|r| r.borrow_mut().pop()).unwrap_or_else(|| Vec::with_capacity(1 << 15));
        v.clear();
        v.extend_from_slice(b);
        v
    })));
    f(buf.0.as_ref().unwrap())
}

impl Ready {
    /// Make the call. What the library hands out is copied off the books and given back, so that
    /// memory still accounted for afterwards is memory the library kept.
    pub fn go(&self) -> Out {
        let r = catch_unwind(AssertUnwindSafe(|| match self {
            Ready::Enc(h, p) => {
                let o = h.encode(*p);
                Out::Enc(shielded(|| o.clone()))
            }
            Ready::Dec(ops, b, p, rx) => {
                let r = received(b, *rx, |b| ops.decode(b, *p));
                Out::Dec(shielded(|| match &r {
                    Ok(h) => Ok(h.tree()),
                    Err(e) => Err(e.clone()),
                }))
            }
            Ready::Gen(b, strict, nest, rx) => {
                let r = received(b, *rx, |b| {
                    if *strict {
                        cbor::reader::read_nested(b, Some(*nest))
                    } else {
                        cbor::reader::read_nested_non_strict(b, Some(*nest))
                    }
                });
                match r {
                    Ok(v) => {
                        let m = shielded(|| model::of_value(&v));
                        let mut out = vec![];
                        let w = cbor::writer::write(v, &mut out);
                        shielded(|| {
                            let w = match w {
                                Ok(()) => EncOut::Bytes(out.clone()),
                                Err(e) => EncOut::Refused(format!("{e:?}")),
                            };
                            Out::Gen(Ok((m, w)))
                        })
                    }
                    Err(e) => shielded(|| Out::Gen(Err(format!("{e:?}")))),
                }
            }
            Ready::Write(v, limit) => {
                let v = crate::seam::calm(|| v.clone());
                let mut out = vec![];
                let r = match limit {
                    None => cbor::writer::write(v, &mut out),
                    n => cbor::writer::write_nested(v, &mut out, *n),
                };
                shielded(|| {
                    Out::Write(match r {
                        Ok(()) => Ok(out.clone()),
                        Err(e) => Err(format!("{e:?}")),
                    })
                })
            }
        }));
        match r {
            Ok(o) => o,
            Err(e) => Out::Panic(shielded(|| crate::panic_text(&*e))),
        }
    }
}

const ENC: &[EncPath] = &[
    EncPath::ToVec,
    EncPath::ToValueWrite,
    EncPath::Append,
    EncPath::InTuple,
    EncPath::InMap,
    EncPath::Optional,
    EncPath::Cloned,
    EncPath::InOption,
];
const DEC: &[DecPath] = &[DecPath::Slice, DecPath::ReadValue, DecPath::NonStrict, DecPath::ReadLenient, DecPath::Read127];

/// A handful of calls that have something to do with each other: few types, several values of
/// each, and the calls that fail next to those that succeed.
pub fn pool(s: &mut Src, reg: &Registry, n: usize, cb: u64) -> Vec<Call> {
    let kinds = 1 + s.usize(3);
    let entries: Vec<Entry> = (0..kinds)
        .map(|_| {
            let i = if s.chance(cb) {
                *s.pick(&reg.cb)
            } else {
                match s.weighted(&[5, 2, 2, 2, 1, 1]) {
                    0 => s.usize(reg.all.len()),
                    1 => *s.pick(&reg.hashed),
                    2 => *s.pick(&reg.recursive),
                    3 => *s.pick(&reg.serde),
                    4 => reg.generic,
                    _ => *s.pick(&reg.rows),
                }
            };
            reg.all[i].clone()
        })
        .collect();
    let mut seen: Vec<(usize, T)> = vec![];
    let mut out: Vec<Call> = vec![];
    let budget = *s.pick(&[6i64, 3, 14, 30]);
    for _ in 0..n {
        s.begin();
        let k = s.usize(kinds);
        let e = &entries[k];
        let olds: Vec<T> = seen.iter().filter(|(i, _)| *i == k).map(|(_, t)| t.clone()).collect();
        let t = match s.below(4) {
            1 if !olds.is_empty() => s.pick(&olds).clone(),
            2 if !olds.is_empty() => {
                let t = s.pick(&olds).clone();
                // Messages of one length are what receive buffers see again and again.
                let want = model::raw_bytes(&e.enc(&t)).len();
                let mut y = crate::ty::tweak(&e.ty, &t, s);
                for _ in 0..3 {
                    if y != t && model::raw_bytes(&e.enc(&y)).len() == want {
                        break;
                    }
                    y = crate::ty::tweak(&e.ty, &t, s);
                }
                y
            }
            _ => e.gen(s, budget),
        };
        seen.push((k, t.clone()));
        let again = out.iter().rposition(|c| matches!(c, Call::Dec { .. } | Call::Gen { .. }));
        let c = match s.weighted(&[4, 5, 2, 2, 2, 2]) {
            5 if again.is_some() => {
                // The next message in the same buffer: as long as an earlier one, little changed.
                let mut c = out[again.unwrap()].clone();
                if let Call::Dec { bytes, rx, .. } | Call::Gen { bytes, rx, .. } = &mut c {
                    let mut b = bytes.to_vec();
                    for _ in 0..1 + s.below(2) {
                        if !b.is_empty() {
                            let i = s.usize(b.len());
                            b[i] = match s.below(3) {
                                0 => b[i].wrapping_add(1),
                                1 => b[i].wrapping_sub(1),
                                _ => b[i] ^ 1 << s.below(8),
                            };
                        }
                    }
                    *bytes = Arc::new(b);
                    *rx = true;
                }
                if let Call::Dec { rx, .. } | Call::Gen { rx, .. } = &mut out[again.unwrap()] {
                    *rx = true;
                }
                c
            }
            0 => Call::Enc { entry: e.clone(), tree: t, hist: s.below(1 << 16), path: *s.pick(ENC) },
            1 if e.ops.can_decode() => {
                let m = e.enc(&t);
                let bytes = bytes_of(s, &m);
                Call::Dec { entry: e.clone(), bytes: Arc::new(bytes), path: *s.pick(DEC), rx: s.below(2) == 0 }
            }
            2 => {
                let m = match s.below(4) {
                    0 => {
                        let n = *s.pick(&[4usize, 64, 65, 127, 128]);
                        model::gen_chain(s, n)
                    }
                    _ => e.enc(&t),
                };
                let nest = match s.below(4) {
                    0 => s.below(128) as i8,
                    1 => 127,
                    _ => 64,
                };
                Call::Gen { bytes: Arc::new(bytes_of(s, &m)), strict: s.below(2) == 0, nest, rx: s.below(2) == 0 }
            }
            4 => {
                // What fails half way through: good content, then something the format refuses.
                let good = e.enc(&t);
                let bad = spoil(s, &good);
                let m = match s.below(3) {
                    0 => bad,
                    1 => M::A(vec![good, bad, M::U(1)]),
                    _ => M::Map(vec![(M::t("a"), good), (M::t("b"), bad)]),
                };
                let entry = reg.all[reg.generic].clone();
                match s.below(3) {
                    0 => Call::Write { m, hist: s.below(1 << 16), limit: None },
                    _ => Call::Enc { entry, tree: T::V(VM(m)), hist: s.below(1 << 16), path: *s.pick(ENC) },
                }
            }
            _ => {
                let mut m = match s.below(4) {
                    0 => {
                        let n = *s.pick(&[4usize, 126, 127, 128, 64]);
                        model::gen_chain(s, n)
                    }
                    _ => e.enc(&t),
                };
                if s.chance(250) {
                    m = spoil(s, &m);
                }
                let limit = match s.below(4) {
                    0 => Some(s.below(128) as i8),
                    1 => Some(s.below(5) as i8),
                    _ => None,
                };
                Call::Write { m, hist: s.below(1 << 16), limit }
            }
        };
        out.push(c);
        s.end();
    }
    out
}

/// The item with something in it that cannot be written: a repeated key or too many levels.
fn spoil(s: &mut Src, m: &M) -> M {
    let mut m = m.clone();
    let n = m.items();
    let mut at = s.usize(n);
    let k = M::U(s.below(30));
    let deep = if s.chance(250) { Some(model::gen_chain(s, 130)) } else { None };
    if let Some(x) = model::node_mut(&mut m, &mut at) {
        let y = x.clone();
        *x = match deep {
            Some(d) => M::A(vec![y, d]),
            None => M::Map(vec![(k.clone(), y), (M::t("z"), M::U(0)), (k, M::U(1))]),
        };
    }
    m
}

/// The canonical bytes of an item, or something near them.
fn bytes_of(s: &mut Src, m: &M) -> Vec<u8> {
    let sorted = m.sorted();
    match s.weighted(&[6, 2, 1, 1, 1]) {
        0 => model::raw_bytes(&sorted),
        1 => {
            let raw = model::raw_bytes(&sorted);
            model::corrupt(s, &raw, &[0xf6]).1
        }
        2 => model::byzantine(s, &sorted).1,
        3 => {
            let (_, f) = model::forge(s, &sorted);
            model::raw_bytes(&f.sorted())
        }
        _ => {
            let mut at = s.usize(sorted.items());
            let mut x = sorted.clone();
            let n = *s.pick(&[63usize, 64, 65, 70, 127, 200]);
            let deep = model::gen_chain(s, n);
            if let Some(y) = model::node_mut(&mut x, &mut at) {
                *y = deep;
            }
            model::raw_bytes(&x.sorted())
        }
    }
}
