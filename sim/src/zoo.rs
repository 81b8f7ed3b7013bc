//! Bridges between Rust types that go through the real library and trees of the reference model.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::Arc;

use oasis_cbor as cbor;
use oasis_cbor::Value;

use crate::model::{self, M};
use crate::src::Rng;
use crate::ty::{norm_map, norm_set, Ty, T, VM};

/// How a container came to hold what it holds: insertion order, removed ghosts, capacity.
pub struct Hist(Rng, bool);

impl Hist {
    pub fn new(seed: u64) -> Self {
        Hist(Rng::new(seed), false)
    }
    fn order(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            v.swap(i, self.0.below(i as u64 + 1) as usize);
        }
        v
    }
    fn below(&mut self, n: u64) -> u64 {
        self.0.below(n)
    }
}

pub trait Zoo: Sized + 'static {
    fn ty() -> Ty;
    fn to_tree(&self) -> T;
    fn from_tree(t: &T, h: &mut Hist) -> Self;
    fn vec_ty() -> Ty {
        Ty::Vec(Arc::new(Self::ty()))
    }
    fn arr_ty(n: usize) -> Ty {
        Ty::Arr(Arc::new(Self::ty()), n)
    }
    fn vec_to(xs: &[Self]) -> T {
        T::L(xs.iter().map(|x| x.to_tree()).collect())
    }
    fn vec_from(t: &T, h: &mut Hist) -> Vec<Self> {
        match t {
            T::L(xs) => {
                let mut out = match h.below(3) {
                    0 => Vec::new(),
                    1 => Vec::with_capacity(xs.len()),
                    _ => Vec::with_capacity(xs.len() + 17),
                };
                for x in xs {
                    out.push(Self::from_tree(x, h));
                }
                out
            }
            t => bad(t),
        }
    }
}

fn bad<X>(t: &T) -> X {
    panic!("harness: tree {t:?} does not fit")
}

macro_rules! zoo_int {
    ($($t:ty, $ty:expr, $v:ident, $w:ty);*) => { $(
        impl Zoo for $t {
            fn ty() -> Ty { $ty }
            fn to_tree(&self) -> T { T::$v(*self as $w) }
            fn from_tree(t: &T, _: &mut Hist) -> Self { match t { T::$v(n) => *n as $t, t => bad(t) } }
        }
    )* };
}
zoo_int!(u16, Ty::U(16), U, u128; u32, Ty::U(32), U, u128; u64, Ty::U(64), U, u128; u128, Ty::U128, U, u128;
    i8, Ty::I(8), I, i64; i16, Ty::I(16), I, i64; i32, Ty::I(32), I, i64; i64, Ty::I(64), I, i64);

impl Zoo for u8 {
    fn ty() -> Ty {
        Ty::U(8)
    }
    fn to_tree(&self) -> T {
        T::U(*self as u128)
    }
    fn from_tree(t: &T, _: &mut Hist) -> Self {
        match t {
            T::U(n) => *n as u8,
            t => bad(t),
        }
    }
    fn vec_ty() -> Ty {
        Ty::Bytes
    }
    fn arr_ty(n: usize) -> Ty {
        Ty::BytesN(n)
    }
    fn vec_to(xs: &[Self]) -> T {
        T::Y(xs.to_vec())
    }
    fn vec_from(t: &T, h: &mut Hist) -> Vec<Self> {
        match t {
            T::Y(b) => {
                let mut out = Vec::with_capacity(b.len() + 9 * h.below(2) as usize);
                out.extend_from_slice(b);
                out
            }
            t => bad(t),
        }
    }
}

impl Zoo for bool {
    fn ty() -> Ty {
        Ty::Bool
    }
    fn to_tree(&self) -> T {
        T::B(*self)
    }
    fn from_tree(t: &T, _: &mut Hist) -> Self {
        match t {
            T::B(b) => *b,
            t => bad(t),
        }
    }
}

impl Zoo for char {
    fn ty() -> Ty {
        Ty::Char
    }
    fn to_tree(&self) -> T {
        T::C(*self)
    }
    fn from_tree(t: &T, _: &mut Hist) -> Self {
        match t {
            T::C(b) => *b,
            t => bad(t),
        }
    }
}

impl Zoo for () {
    fn ty() -> Ty {
        Ty::Unit
    }
    fn to_tree(&self) -> T {
        T::Unit
    }
    fn from_tree(_: &T, _: &mut Hist) -> Self {}
}

impl Zoo for String {
    fn ty() -> Ty {
        Ty::Str
    }
    fn to_tree(&self) -> T {
        T::S(self.clone())
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        match t {
            T::S(s) => {
                let mut o = String::with_capacity(s.len() + 5 * h.below(2) as usize);
                o.push_str(s);
                o
            }
            t => bad(t),
        }
    }
}

impl Zoo for Value {
    fn ty() -> Ty {
        Ty::Value
    }
    fn to_tree(&self) -> T {
        match model::of_value(self) {
            Some(m) => T::V(VM(m.sorted())),
            // Not expressible in CBOR: no reference value equals this marker.
            None => T::V(VM(M::S(0))),
        }
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        match t {
            T::V(m) => model::to_value(&shuffle(&m.0, h)),
            t => bad(t),
        }
    }
}

/// Map entries in arbitrary order.
pub fn shuffle(m: &M, h: &mut Hist) -> M {
    match m {
        M::A(v) => M::A(v.iter().map(|x| shuffle(x, h)).collect()),
        M::Map(_) if h.1 => m.clone(),
        M::Map(v) => {
            let o = h.order(v.len());
            M::Map(o.into_iter().map(|i| (shuffle(&v[i].0, h), shuffle(&v[i].1, h))).collect())
        }
        M::Tag(t, x) => M::Tag(*t, Box::new(shuffle(x, h))),
        x => x.clone(),
    }
}

impl<X: Zoo> Zoo for Vec<X> {
    fn ty() -> Ty {
        X::vec_ty()
    }
    fn to_tree(&self) -> T {
        X::vec_to(self)
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        X::vec_from(t, h)
    }
}

impl<X: Zoo, const N: usize> Zoo for [X; N] {
    fn ty() -> Ty {
        X::arr_ty(N)
    }
    fn to_tree(&self) -> T {
        X::vec_to(self)
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        match X::vec_from(t, h).try_into() {
            Ok(x) => x,
            Err(_) => bad(t),
        }
    }
}

impl<X: Zoo> Zoo for Option<X> {
    fn ty() -> Ty {
        Ty::Opt(Arc::new(X::ty()))
    }
    fn to_tree(&self) -> T {
        match self {
            None => T::Non,
            Some(x) => T::Som(Box::new(x.to_tree())),
        }
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        match t {
            T::Non => None,
            T::Som(x) => Some(X::from_tree(x, h)),
            t => bad(t),
        }
    }
}

impl<X: Zoo> Zoo for Box<X> {
    fn ty() -> Ty {
        X::ty()
    }
    fn to_tree(&self) -> T {
        (**self).to_tree()
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        Box::new(X::from_tree(t, h))
    }
}

impl<K: Zoo + Ord, V: Zoo> Zoo for BTreeMap<K, V> {
    fn ty() -> Ty {
        Ty::Map { k: Arc::new(K::ty()), v: Arc::new(V::ty()), hash: false }
    }
    fn to_tree(&self) -> T {
        T::Mp(norm_map(self.iter().map(|(k, v)| (k.to_tree(), v.to_tree())).collect()))
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        let xs = match t {
            T::Mp(xs) => xs,
            t => bad(t),
        };
        let mut m = BTreeMap::new();
        let ghosts = h.below(3) == 0;
        for i in h.order(xs.len()) {
            m.insert(K::from_tree(&xs[i].0, h), V::from_tree(&xs[i].1, h));
            if ghosts && h.below(2) == 0 {
                let k = K::from_tree(&xs[i].0, h);
                if let Some(v) = m.remove(&k) {
                    m.insert(k, v);
                }
            }
        }
        m
    }
}

impl<K: Zoo + Eq + Hash, V: Zoo> Zoo for HashMap<K, V> {
    fn ty() -> Ty {
        Ty::Map { k: Arc::new(K::ty()), v: Arc::new(V::ty()), hash: true }
    }
    fn to_tree(&self) -> T {
        T::Mp(norm_map(self.iter().map(|(k, v)| (k.to_tree(), v.to_tree())).collect()))
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        let xs = match t {
            T::Mp(xs) => xs,
            t => bad(t),
        };
        let mut m = match h.below(3) {
            0 => HashMap::new(),
            1 => HashMap::with_capacity(xs.len()),
            _ => HashMap::with_capacity(100 + xs.len()),
        };
        let ghosts = h.below(3) == 0;
        for i in h.order(xs.len()) {
            m.insert(K::from_tree(&xs[i].0, h), V::from_tree(&xs[i].1, h));
            if ghosts && h.below(2) == 0 {
                let k = K::from_tree(&xs[i].0, h);
                if let Some(v) = m.remove(&k) {
                    m.insert(k, v);
                }
            }
        }
        if h.below(4) == 0 {
            m.shrink_to_fit();
        }
        m
    }
}

impl<X: Zoo + Ord> Zoo for BTreeSet<X> {
    fn ty() -> Ty {
        Ty::Set { e: Arc::new(X::ty()), hash: false }
    }
    fn to_tree(&self) -> T {
        T::L(norm_set(self.iter().map(|x| x.to_tree()).collect()))
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        match t {
            // Rust orders generic maps by their entries as listed, and the set by that order: the
            // listing of a map inside a set element is part of the logical value.
            T::L(xs) => {
                let was = std::mem::replace(&mut h.1, true);
                let r = h.order(xs.len()).into_iter().map(|i| X::from_tree(&xs[i], h)).collect();
                h.1 = was;
                r
            }
            t => bad(t),
        }
    }
}

impl<X: Zoo + Eq + Hash> Zoo for HashSet<X> {
    fn ty() -> Ty {
        Ty::Set { e: Arc::new(X::ty()), hash: true }
    }
    fn to_tree(&self) -> T {
        T::L(norm_set(self.iter().map(|x| x.to_tree()).collect()))
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        match t {
            T::L(xs) => {
                let mut m = match h.below(3) {
                    0 => HashSet::new(),
                    1 => HashSet::with_capacity(xs.len()),
                    _ => HashSet::with_capacity(100 + xs.len()),
                };
                for i in h.order(xs.len()) {
                    m.insert(X::from_tree(&xs[i], h));
                }
                if h.below(3) == 0 {
                    m.shrink_to_fit();
                }
                m
            }
            t => bad(t),
        }
    }
}

macro_rules! zoo_tuple {
    ($(($($n:ident $i:tt),+))*) => { $(
        impl<$($n: Zoo),+> Zoo for ($($n,)+) {
            fn ty() -> Ty { Ty::Tup(vec![$($n::ty()),+]) }
            fn to_tree(&self) -> T { T::L(vec![$(self.$i.to_tree()),+]) }
            fn from_tree(t: &T, h: &mut Hist) -> Self {
                match t { T::L(xs) => ($($n::from_tree(&xs[$i], h),)+), t => bad(t) }
            }
        }
    )* };
}
zoo_tuple! {
    (A 0)
    (A 0, B 1)
    (A 0, B 1, C 2)
    (A 0, B 1, C 2, D 3)
    (A 0, B 1, C 2, D 3, E 4)
    (A 0, B 1, C 2, D 3, E 4, F 5)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9)
}

/// `zoo_struct!(Name, ty, { field: Type, ... })` for any struct form (tuple fields by index).
#[macro_export]
macro_rules! zoo_struct {
    ($name:ty, $ty:expr, { $($f:tt : $t:ty),* $(,)? }) => {
        impl $crate::zoo::Zoo for $name {
            fn ty() -> $crate::ty::Ty { $ty }
            fn to_tree(&self) -> $crate::ty::T {
                $crate::ty::T::St(vec![$($crate::zoo::Zoo::to_tree(&self.$f)),*])
            }
            #[allow(unused)]
            fn from_tree(t: &$crate::ty::T, h: &mut $crate::zoo::Hist) -> Self {
                let xs = match t { $crate::ty::T::St(xs) => xs, t => panic!("harness: {t:?}") };
                let mut it = xs.iter();
                Self { $($f: <$t as $crate::zoo::Zoo>::from_tree(it.next().unwrap(), h)),* }
            }
        }
    };
}

/// `zoo_enum!(Name, ty, { 0 => Variant { field: bind as Type, ... }, ... })`
#[macro_export]
macro_rules! zoo_enum {
    ($name:ident, $ty:expr, { $($i:literal => $va:ident { $($f:tt : $b:ident as $t:ty),* $(,)? }),* $(,)? }) => {
        impl $crate::zoo::Zoo for $name {
            fn ty() -> $crate::ty::Ty { $ty }
            fn to_tree(&self) -> $crate::ty::T {
                match self {
                    $( $name::$va { $($f: $b),* } => $crate::ty::T::En($i, vec![$($crate::zoo::Zoo::to_tree($b)),*]), )*
                }
            }
            #[allow(unused)]
            fn from_tree(t: &$crate::ty::T, h: &mut $crate::zoo::Hist) -> Self {
                let (i, xs) = match t { $crate::ty::T::En(i, xs) => (*i, xs), t => panic!("harness: {t:?}") };
                let mut it = xs.iter();
                match i {
                    $( $i => $name::$va { $($f: <$t as $crate::zoo::Zoo>::from_tree(it.next().unwrap(), h)),* }, )*
                    i => panic!("harness: variant {i}"),
                }
            }
        }
    };
}

// ---------------------------------------------------------------------------------------------
// Type-erased access to the real library.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum EncPath {
    /// The one-call entry point.
    ToVec,
    /// To a generic value, then written.
    ToValueWrite,
    /// Written with an explicit limit behind bytes already in the buffer.
    Append,
    /// Through the optional form.
    Optional,
    /// Inside a one element tuple.
    InTuple,
    /// As value of a map entry.
    InMap,
    /// To a generic value, of which a copy is written after the original is gone.
    Cloned,
    /// As a present optional value.
    InOption,
    /// A type specific alternative (references, map form).
    Alt(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum DecPath {
    Slice,
    NonStrict,
    /// Generic read with the default limit, then typed.
    ReadValue,
    /// Generic read with the library's outer limit.
    Read127,
    /// Generic lenient read, then typed.
    ReadLenient,
}

#[derive(Debug, Clone, PartialEq)]
pub enum EncOut {
    Bytes(Vec<u8>),
    /// Optional form: left out.
    Omitted,
    /// The call reported an error or refused by panicking.
    Refused(String),
    /// Existing bytes of the output buffer were lost.
    Clobbered(String),
}

pub trait Held: Send {
    fn tree(&self) -> T;
    fn encode(&self, path: EncPath) -> EncOut;
}

pub trait Ops: Send + Sync {
    fn build(&self, t: &T, hist: u64) -> Box<dyn Held>;
    /// `Err` is a rejection.
    fn decode(&self, b: &[u8], path: DecPath) -> Result<Box<dyn Held>, String>;
    fn can_decode(&self) -> bool {
        true
    }
    /// Every value of the type can be encoded (as far as the format goes).
    fn total(&self) -> bool {
        true
    }
}

#[derive(Clone)]
pub struct Entry {
    pub name: &'static str,
    pub ty: Ty,
    pub serde: bool,
    pub alts: usize,
    pub ops: Arc<dyn Ops>,
}

impl Entry {
    pub fn enc(&self, t: &T) -> M {
        if self.serde {
            crate::ty::senc(&self.ty, t)
        } else {
            crate::ty::enc(&self.ty, t)
        }
    }
    /// A logical value of this type.
    pub fn gen(&self, s: &mut crate::src::Src, budget: i64) -> T {
        let mut b = budget;
        let t = crate::ty::gen(&self.ty, s, &mut b);
        match t {
            // What the serde data model can express.
            T::V(m) if self.serde => T::V(VM(serde_item(&m.0).sorted())),
            t => t,
        }
    }
    /// Meaning of a well-formed item delivered through `path`.
    pub fn dec(&self, m: &M) -> Result<T, crate::ty::Rej> {
        if self.serde {
            crate::ty::sdec(&self.ty, m)
        } else {
            crate::ty::dec_default(&self.ty, m)
        }
    }
}

fn serde_item(m: &M) -> M {
    match m {
        M::A(v) => M::A(v.iter().map(serde_item).collect()),
        M::Map(v) => M::Map(v.iter().map(|(a, b)| (serde_item(a), serde_item(b))).collect()),
        M::Tag(_, x) => serde_item(x),
        M::N(n) if *n > i64::MAX as u64 => M::N(n >> 1),
        M::S(23) => model::NULL,
        x => x.clone(),
    }
}

fn guarded(f: impl FnOnce() -> EncOut) -> EncOut {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => x,
        Err(e) => EncOut::Refused(crate::seam::shielded(|| format!("panic: {}", crate::panic_text(&*e)))),
    }
}

pub const PREFIX: &[u8] = b"\xffexisting\x00bytes\x9f";

pub fn write_out(v: Value, prefix: &[u8], nest: Option<i8>) -> EncOut {
    let mut out = prefix.to_vec();
    let r = match nest {
        Some(n) => cbor::writer::write_nested(v, &mut out, Some(n)),
        None => cbor::writer::write(v, &mut out),
    };
    if out.len() < prefix.len() || &out[..prefix.len()] != prefix {
        return EncOut::Clobbered(format!("{r:?}"));
    }
    match r {
        Ok(()) => EncOut::Bytes(out[prefix.len()..].to_vec()),
        Err(e) => EncOut::Refused(format!("{e:?}")),
    }
}

fn strip(out: Vec<u8>, head: &[u8]) -> EncOut {
    if out.len() >= head.len() && &out[..head.len()] == head {
        EncOut::Bytes(out[head.len()..].to_vec())
    } else {
        EncOut::Bytes(out)
    }
}

type Alt<X> = fn(X) -> Vec<u8>;

struct Native<X>(Vec<Alt<X>>);

struct HeldNative<X>(X, Vec<Alt<X>>);

impl<X: Zoo + cbor::Encode + Clone + Send> Held for HeldNative<X> {
    fn tree(&self) -> T {
        self.0.to_tree()
    }
    fn encode(&self, path: EncPath) -> EncOut {
        let x = crate::seam::calm(|| self.0.clone());
        guarded(|| match path {
            EncPath::ToVec => EncOut::Bytes(cbor::to_vec(x)),
            EncPath::ToValueWrite => write_out(cbor::to_value(x), &[], None),
            EncPath::Append => write_out(x.into_cbor_value(), PREFIX, Some(127)),
            EncPath::Optional => match x.into_optional_cbor_value() {
                Some(v) => write_out(v, &[], None),
                None => EncOut::Omitted,
            },
            EncPath::InTuple => strip(cbor::to_vec((x,)), &[0x81]),
            EncPath::InMap => {
                let mut m = BTreeMap::new();
                m.insert("k".to_string(), x);
                strip(cbor::to_vec(m), &[0xa1, 0x61, b'k'])
            }
            EncPath::Cloned => {
                let v = cbor::to_value(x);
                let c = v.clone();
                drop(v);
                write_out(c, &[], None)
            }
            EncPath::InOption => EncOut::Bytes(cbor::to_vec(Some(x))),
            EncPath::Alt(i) => EncOut::Bytes((self.1[i])(x)),
        })
    }
}

impl<X: Zoo + cbor::Encode + cbor::Decode + Clone + Send + Sync> Ops for Native<X> {
    fn build(&self, t: &T, hist: u64) -> Box<dyn Held> {
        Box::new(HeldNative(X::from_tree(t, &mut Hist::new(hist)), self.0.clone()))
    }
    fn decode(&self, b: &[u8], path: DecPath) -> Result<Box<dyn Held>, String> {
        let r: Result<X, cbor::DecodeError> = match path {
            DecPath::Slice => cbor::from_slice(b),
            DecPath::NonStrict => cbor::from_slice_non_strict(b),
            DecPath::ReadValue => {
                cbor::reader::read_nested(b, Some(64)).map_err(Into::into).and_then(cbor::from_value)
            }
            DecPath::Read127 => cbor::reader::read(b).map_err(Into::into).and_then(|v| cbor::from_value(v.clone())),
            DecPath::ReadLenient => {
                cbor::reader::read_nested_non_strict(b, Some(64)).map_err(Into::into).and_then(cbor::from_value)
            }
        };
        match r {
            Ok(x) => Ok(Box::new(HeldNative(x, self.0.clone()))),
            Err(e) => Err(e.to_string()),
        }
    }
}

/// Types that can only be encoded.
struct EncOnly<X>(Vec<Alt<X>>);

impl<X: Zoo + cbor::Encode + Clone + Send + Sync> Ops for EncOnly<X> {
    fn build(&self, t: &T, hist: u64) -> Box<dyn Held> {
        Box::new(HeldNative(X::from_tree(t, &mut Hist::new(hist)), self.0.clone()))
    }
    fn decode(&self, _: &[u8], _: DecPath) -> Result<Box<dyn Held>, String> {
        Err("encode only".into())
    }
    fn can_decode(&self) -> bool {
        false
    }
}

struct Serde<X>(std::marker::PhantomData<fn(X)>);

struct HeldSerde<X>(X);

impl<X: Zoo + serde::Serialize + Send> Held for HeldSerde<X> {
    fn tree(&self) -> T {
        self.0.to_tree()
    }
    fn encode(&self, path: EncPath) -> EncOut {
        let x = &self.0;
        guarded(|| {
            let r = match path {
                EncPath::ToVec | EncPath::Alt(_) => cbor::serde::to_vec(x).map(EncOut::Bytes),
                EncPath::ToValueWrite => cbor::serde::to_value(x).map(|v| write_out(v, &[], None)),
                EncPath::Append | EncPath::Optional => {
                    cbor::serde::to_value(x).map(|v| write_out(v, PREFIX, Some(127)))
                }
                EncPath::InTuple => cbor::serde::to_vec(&(x,)).map(|o| strip(o, &[0x81])),
                EncPath::InMap => {
                    let mut m = BTreeMap::new();
                    m.insert("k", x);
                    cbor::serde::to_vec(&m).map(|o| strip(o, &[0xa1, 0x61, b'k']))
                }
                EncPath::Cloned => cbor::serde::to_value(x).map(|v| {
                    let c = v.clone();
                    drop(v);
                    write_out(c, &[], None)
                }),
                EncPath::InOption => cbor::serde::to_vec(&Some(x)).map(EncOut::Bytes),
            };
            r.unwrap_or_else(|e| EncOut::Refused(e.to_string()))
        })
    }
}

impl<X: Zoo + serde::Serialize + serde::de::DeserializeOwned + Send> Ops for Serde<X> {
    fn build(&self, t: &T, hist: u64) -> Box<dyn Held> {
        Box::new(HeldSerde(X::from_tree(t, &mut Hist::new(hist))))
    }
    fn decode(&self, b: &[u8], path: DecPath) -> Result<Box<dyn Held>, String> {
        let read = |r: Result<Value, cbor::reader::DecoderError>| {
            r.map_err(|e| format!("{e:?}"))
                .and_then(|v| cbor::serde::from_value::<X>(v).map_err(|e| e.to_string()))
        };
        let r: Result<X, String> = match path {
            DecPath::Slice => cbor::serde::from_slice(b).map_err(|e| e.to_string()),
            DecPath::ReadValue => read(cbor::reader::read_nested(b, Some(64))),
            DecPath::Read127 => read(cbor::reader::read(b)),
            DecPath::NonStrict | DecPath::ReadLenient => read(cbor::reader::read_nested_non_strict(b, Some(64))),
        };
        r.map(|x| Box::new(HeldSerde(x)) as Box<dyn Held>)
    }
    fn total(&self) -> bool {
        // The serde data model has no integers below i64::MIN and no undefined.
        !std::any::type_name::<X>().ends_with("AnyItem")
    }
}

/// Interpreted nodes only execute; what is right is decided elsewhere.
fn model_of<X: Zoo>() -> Ty {
    if cfg!(far) {
        Ty::Unit
    } else {
        X::ty()
    }
}

pub fn native<X>(name: &'static str, alts: &[Alt<X>]) -> Entry
where
    X: Zoo + cbor::Encode + cbor::Decode + Clone + Send + Sync,
{
    Entry { name, ty: model_of::<X>(), serde: false, alts: alts.len(), ops: Arc::new(Native::<X>(alts.to_vec())) }
}

pub fn enc_only<X>(name: &'static str) -> Entry
where
    X: Zoo + cbor::Encode + Clone + Send + Sync,
{
    Entry { name, ty: model_of::<X>(), serde: false, alts: 0, ops: Arc::new(EncOnly::<X>(vec![])) }
}

pub fn serde_entry<X>(name: &'static str) -> Entry
where
    X: Zoo + serde::Serialize + serde::de::DeserializeOwned + Send,
{
    Entry { name, ty: model_of::<X>(), serde: true, alts: 0, ops: Arc::new(Serde::<X>(std::marker::PhantomData)) }
}

/// A type whose construction the simulator controls but that is only `Debug`ged in reports.
pub fn show<X: Debug>(x: &X) -> String {
    let s = format!("{x:?}");
    if s.len() > 400 {
        let mut e = 400;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} chars)", &s[..e], s.len())
    } else {
        s
    }
}

/// Direct use of the generic reader: structure as read, and what the real writer makes of it.
pub fn generic_read(b: &[u8], strict: bool, nest: Option<i8>) -> Result<(Option<M>, EncOut), String> {
    let r = if strict { cbor::reader::read_nested(b, nest) } else { cbor::reader::read_nested_non_strict(b, nest) };
    match r {
        Ok(v) => {
            let m = model::of_value(&v);
            Ok((m, guarded(|| write_out(v, &[], None))))
        }
        Err(e) => Err(format!("{e:?}")),
    }
}
