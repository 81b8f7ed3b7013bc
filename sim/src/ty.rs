//! Reference model of the typed layer: how Rust types map to CBOR items and what a CBOR item means
//! for a given type. Interpretive, written from the documented rules; shares no code with /repo.

use std::cmp::Ordering;
use std::sync::Arc;

use crate::model::{self, cmp_m, gen_m, raw_bytes, M, NULL, UNDEF};
use crate::src::Src;

/// A generic item ordered like the library orders generic values (bytewise order of encodings).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct VM(pub M);
impl PartialOrd for VM {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for VM {
    fn cmp(&self, o: &Self) -> Ordering {
        cmp_m(&self.0, &o.0)
    }
}

/// A logical value. The derived order coincides with Rust's order of the mirrored type.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum T {
    U(u128),
    I(i64),
    B(bool),
    S(String),
    Y(Vec<u8>),
    C(char),
    Unit,
    L(Vec<T>),
    Mp(Vec<(T, T)>),
    Non,
    Som(Box<T>),
    St(Vec<T>),
    En(usize, Vec<T>),
    V(VM),
}

#[derive(Clone)]
pub enum Ty {
    U(u32),
    I(u32),
    U128,
    Bool,
    Str,
    Char,
    Unit,
    Bytes,
    BytesN(usize),
    Vec(Arc<Ty>),
    Arr(Arc<Ty>, usize),
    Opt(Arc<Ty>),
    Value,
    Map { k: Arc<Ty>, v: Arc<Ty>, hash: bool },
    Set { e: Arc<Ty>, hash: bool },
    Tup(Vec<Ty>),
    Struct(Arc<StructDef>),
    Enum(Arc<EnumDef>),
    /// Always the same item.
    Const(M),
    Tagged(u64, Arc<Ty>),
    /// Recursive types.
    Rec(fn() -> Ty),
}

#[derive(Clone)]
pub struct With {
    pub enc_ty: Ty,
    pub enc: fn(&T) -> T,
    pub dec_ty: Ty,
    pub dec: fn(T) -> Option<T>,
}

#[derive(Clone)]
pub struct Field {
    pub key: M,
    pub ty: Ty,
    pub optional: bool,
    /// Never on the wire; reads as this value.
    pub skip: Option<T>,
    pub skip_if: Option<fn(&T) -> bool>,
    pub with: Option<With>,
    /// Holds the entry's item as found, or nothing if there is no such entry.
    pub found: bool,
}

pub fn f(key: &str, ty: Ty) -> Field {
    Field { key: M::t(key), ty, optional: false, skip: None, skip_if: None, with: None, found: false }
}
impl Field {
    pub fn opt(mut self) -> Self {
        self.optional = true;
        self
    }
    pub fn found(mut self) -> Self {
        self.found = true;
        self
    }
    pub fn skip(mut self, t: T) -> Self {
        self.skip = Some(t);
        self
    }
    pub fn skip_if(mut self, p: fn(&T) -> bool) -> Self {
        self.optional = true;
        self.skip_if = Some(p);
        self
    }
    pub fn with(mut self, w: With) -> Self {
        self.with = Some(w);
        self
    }
    pub fn key(mut self, k: u64) -> Self {
        self.key = M::U(k);
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    Map,
    Array,
    Unit,
    Transparent,
}

#[derive(Clone)]
pub struct StructDef {
    pub name: &'static str,
    pub shape: Shape,
    pub fields: Vec<Field>,
    pub default: Option<fn() -> T>,
    pub allow_unknown: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// Encoded as its key or discriminant.
    Unit,
    /// A unit variant encoded as an (empty) map body.
    UnitStruct,
    Newtype,
    Map,
    Array,
}

#[derive(Clone)]
pub struct Variant {
    pub key: M,
    pub disc: Option<M>,
    pub kind: Kind,
    pub fields: Vec<Field>,
    pub skip: bool,
    pub embed: bool,
    pub allow_unknown: bool,
    pub missing: bool,
}

pub fn v(key: &str, kind: Kind, fields: Vec<Field>) -> Variant {
    Variant { key: M::t(key), disc: None, kind, fields, skip: false, embed: false, allow_unknown: false, missing: false }
}
impl Variant {
    pub fn disc(mut self, d: i128) -> Self {
        self.disc = Some(M::int(d));
        self
    }
    pub fn key(mut self, k: u64) -> Self {
        self.key = M::U(k);
        self
    }
    pub fn skip(mut self) -> Self {
        self.skip = true;
        self
    }
    pub fn embed(mut self) -> Self {
        self.embed = true;
        self
    }
    pub fn unknown(mut self) -> Self {
        self.allow_unknown = true;
        self
    }
    pub fn missing(mut self) -> Self {
        self.missing = true;
        self
    }
}

#[derive(Clone)]
pub struct EnumDef {
    pub name: &'static str,
    pub tag: Option<M>,
    pub untagged: bool,
    pub variants: Vec<Variant>,
    pub default: Option<fn() -> T>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rej {
    /// Must be rejected.
    No,
    /// The rules leave the outcome open.
    Open,
}

type R<X> = Result<X, Rej>;

// ---------------------------------------------------------------------------------------------
// Encoding.

fn body_map(fields: &[Field], xs: &[T]) -> Vec<(M, M)> {
    let mut out = vec![];
    for (fd, x) in fields.iter().zip(xs) {
        if fd.skip.is_some() {
            continue;
        }
        if fd.found {
            if let T::Som(x) = x {
                out.push((fd.key.clone(), enc(&fd.ty, x)));
            }
            continue;
        }
        let (ty, x) = match &fd.with {
            Some(w) => (&w.enc_ty, (w.enc)(x)),
            None => (&fd.ty, x.clone()),
        };
        if fd.optional {
            match fd.skip_if {
                Some(p) => {
                    let orig = &xs[fields.iter().position(|g| std::ptr::eq(g, fd)).unwrap()];
                    if !p(orig) {
                        out.push((fd.key.clone(), enc(ty, &x)));
                    }
                }
                None => {
                    if let Some(m) = opt_enc(ty, &x) {
                        out.push((fd.key.clone(), m));
                    }
                }
            }
        } else {
            out.push((fd.key.clone(), enc(ty, &x)));
        }
    }
    out
}

fn body_arr(fields: &[Field], xs: &[T]) -> Vec<M> {
    let mut out = vec![];
    for (fd, x) in fields.iter().zip(xs) {
        if fd.skip.is_some() {
            continue;
        }
        match &fd.with {
            Some(w) => out.push(enc(&w.enc_ty, &(w.enc)(x))),
            None => out.push(enc(&fd.ty, x)),
        }
    }
    out
}

pub fn enc(ty: &Ty, t: &T) -> M {
    match (ty, t) {
        (Ty::U(_), T::U(n)) => M::U(*n as u64),
        (Ty::I(_), T::I(n)) => M::int(*n as i128),
        (Ty::U128, T::U(n)) => {
            let b = n.to_be_bytes();
            let z = b.iter().take_while(|x| **x == 0).count();
            M::B(b[z..].to_vec())
        }
        (Ty::Bool, T::B(b)) => M::S(if *b { 21 } else { 20 }),
        (Ty::Str, T::S(s)) => M::T(s.clone()),
        (Ty::Char, T::C(c)) => M::U(*c as u64),
        (Ty::Unit, _) => NULL,
        (Ty::Bytes | Ty::BytesN(_), T::Y(b)) => M::B(b.clone()),
        (Ty::Vec(e) | Ty::Arr(e, _), T::L(v)) => M::A(v.iter().map(|x| enc(e, x)).collect()),
        (Ty::Opt(_), T::Non) => NULL,
        (Ty::Opt(e), T::Som(x)) => enc(e, x),
        (Ty::Value, T::V(m)) => m.0.clone(),
        (Ty::Map { k, v, hash }, T::Mp(xs)) => {
            let mut out: Vec<(M, M)> = xs.iter().map(|(a, b)| (enc(k, a), enc(v, b))).collect();
            if *hash {
                out.sort_by_cached_key(|(a, b)| (raw_bytes(a), raw_bytes(b)));
            }
            M::Map(out)
        }
        (Ty::Set { e, hash }, T::L(xs)) => {
            let mut out: Vec<M> = xs.iter().map(|x| enc(e, x)).collect();
            if *hash {
                out.sort_by_cached_key(raw_bytes);
            }
            M::A(out)
        }
        (Ty::Tup(ts), T::L(xs)) => M::A(ts.iter().zip(xs).map(|(t, x)| enc(t, x)).collect()),
        (Ty::Struct(d), T::St(xs)) => match d.shape {
            Shape::Unit => NULL,
            Shape::Transparent => enc(&d.fields[0].ty, &xs[0]),
            Shape::Array => M::A(body_arr(&d.fields, xs)),
            Shape::Map => M::Map(body_map(&d.fields, xs)),
        },
        (Ty::Enum(d), T::En(i, xs)) => {
            let va = &d.variants[*i];
            if va.skip {
                return UNDEF;
            }
            if va.embed {
                return enc(&va.fields[0].ty, &xs[0]);
            }
            let body = match va.kind {
                Kind::Unit if d.tag.is_none() => return va.disc.clone().unwrap_or_else(|| va.key.clone()),
                Kind::Unit | Kind::UnitStruct => M::Map(vec![]),
                Kind::Newtype => enc(&va.fields[0].ty, &xs[0]),
                Kind::Map => M::Map(body_map(&va.fields, xs)),
                Kind::Array => M::A(body_arr(&va.fields, xs)),
            };
            if d.untagged || va.missing {
                body
            } else if let Some(tag) = &d.tag {
                match body {
                    M::Map(mut items) => {
                        items.push((tag.clone(), va.key.clone()));
                        M::Map(items)
                    }
                    x => x,
                }
            } else {
                M::Map(vec![(va.key.clone(), body)])
            }
        }
        (Ty::Const(m), _) => m.clone(),
        (Ty::Tagged(n, x), t) => M::Tag(*n, Box::new(enc(x, t))),
        (Ty::Rec(g), t) => enc(&g(), t),
        (_, t) => panic!("harness: tree {t:?} does not fit its type"),
    }
}

fn is_empty(ty: &Ty, t: &T) -> bool {
    match (ty, t) {
        (Ty::U(_) | Ty::U128, T::U(n)) => *n == 0,
        (Ty::I(_), T::I(n)) => *n == 0,
        (Ty::Bool, T::B(b)) => !*b,
        (Ty::Str, T::S(s)) => s.is_empty(),
        (Ty::Char, T::C(c)) => *c == '\0',
        (Ty::Unit, _) => true,
        (Ty::Bytes, T::Y(b)) => b.is_empty(),
        (Ty::Vec(_) | Ty::Set { .. }, T::L(v)) => v.is_empty(),
        (Ty::Map { .. }, T::Mp(v)) => v.is_empty(),
        (Ty::Opt(_), T::Non) => true,
        (Ty::Value, T::V(m)) => m.0 == NULL || m.0 == UNDEF,
        (Ty::Tup(ts), T::L(xs)) => ts.iter().zip(xs).all(|(t, x)| is_empty(t, x)),
        (Ty::Rec(g), t) => is_empty(&g(), t),
        _ => false,
    }
}

/// The item to write for an optional position, `None` to leave it out.
pub fn opt_enc(ty: &Ty, t: &T) -> Option<M> {
    match (ty, t) {
        (Ty::Struct(d), T::St(xs)) => match d.shape {
            Shape::Unit => None,
            Shape::Transparent => opt_enc(&d.fields[0].ty, &xs[0]),
            Shape::Array => Some(enc(ty, t)),
            Shape::Map => match enc(ty, t) {
                M::Map(m) if m.is_empty() => None,
                m => Some(m),
            },
        },
        (Ty::Enum(_), _) => Some(enc(ty, t)),
        (Ty::Rec(g), t) => opt_enc(&g(), t),
        _ => {
            if is_empty(ty, t) {
                None
            } else {
                Some(enc(ty, t))
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Decoding.

pub fn default(ty: &Ty) -> R<T> {
    Ok(match ty {
        Ty::U(_) | Ty::U128 => T::U(0),
        Ty::I(_) => T::I(0),
        Ty::Bool => T::B(false),
        Ty::Str => T::S(String::new()),
        Ty::Char => T::C('\0'),
        Ty::Unit => T::Unit,
        Ty::Bytes => T::Y(vec![]),
        Ty::BytesN(n) => T::Y(vec![0; *n]),
        Ty::Vec(_) | Ty::Set { .. } => T::L(vec![]),
        Ty::Map { .. } => T::Mp(vec![]),
        Ty::Arr(..) => return Err(Rej::No),
        Ty::Opt(_) => T::Non,
        Ty::Value => T::V(VM(NULL)),
        Ty::Tup(ts) => T::L(ts.iter().map(default).collect::<R<_>>()?),
        Ty::Struct(d) => d.default.ok_or(Rej::No)?(),
        Ty::Enum(d) => d.default.ok_or(Rej::No)?(),
        Ty::Const(_) | Ty::Tagged(..) => return Err(Rej::No),
        Ty::Rec(g) => default(&g())?,
    })
}

/// Null and undefined stand for the default, if there is one.
pub fn dec_default(ty: &Ty, m: &M) -> R<T> {
    if *m == NULL || *m == UNDEF {
        if matches!(ty, Ty::Value) && *m == UNDEF {
            return Err(Rej::Open);
        }
        default(ty)
    } else {
        dec(ty, m)
    }
}

fn field_dec(fd: &Field, m: &M) -> R<T> {
    match &fd.with {
        Some(w) => (w.dec)(dec_default(&w.dec_ty, m)?).ok_or(Rej::No),
        None => dec_default(&fd.ty, m),
    }
}

/// First failure wins, but a definite rejection beats an open one.
fn all(rs: Vec<R<T>>) -> R<Vec<T>> {
    if rs.iter().any(|r| *r == Err(Rej::No)) {
        return Err(Rej::No);
    }
    rs.into_iter().collect()
}

fn dup_keys(items: &[(M, M)]) -> bool {
    let mut ks: Vec<Vec<u8>> = items.iter().map(|(k, _)| raw_bytes(k)).collect();
    let n = ks.len();
    ks.sort();
    ks.dedup();
    n != ks.len()
}

fn dec_fields(fields: &[Field], array: bool, allow_unknown: bool, m: &M) -> R<Vec<T>> {
    if array {
        let xs = match m {
            M::A(xs) => xs,
            _ => return Err(Rej::No),
        };
        let wire = fields.iter().filter(|f| f.skip.is_none()).count();
        if xs.len() < wire || (xs.len() > wire && !allow_unknown) {
            return Err(Rej::No);
        }
        let mut it = xs.iter();
        all(fields
            .iter()
            .map(|fd| match &fd.skip {
                Some(d) => Ok(d.clone()),
                None => field_dec(fd, it.next().unwrap()),
            })
            .collect())
    } else {
        let items = match m {
            M::Map(items) => items,
            _ => return Err(Rej::No),
        };
        if dup_keys(items) {
            // Only lenient readers get here.
            return Err(Rej::Open);
        }
        let known = |k: &M| fields.iter().any(|f| f.skip.is_none() && f.key == *k);
        if !allow_unknown && items.iter().any(|(k, _)| !known(k)) {
            return Err(Rej::No);
        }
        all(fields
            .iter()
            .map(|fd| match &fd.skip {
                Some(d) => Ok(d.clone()),
                None if fd.found => Ok(match items.iter().find(|(k, _)| *k == fd.key) {
                    Some((_, x)) => T::Som(Box::new(dec(&fd.ty, x)?)),
                    None => T::Non,
                }),
                None => {
                    let x = items.iter().find(|(k, _)| *k == fd.key).map(|(_, v)| v).unwrap_or(&NULL);
                    field_dec(fd, x)
                }
            })
            .collect())
    }
}

fn uint_ok(n: u64, bits: u32) -> bool {
    bits >= 64 || n < (1u64 << bits)
}

pub fn norm_set(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v.dedup();
    v
}

pub fn norm_map(mut v: Vec<(T, T)>) -> Vec<(T, T)> {
    v.sort();
    v
}

fn dec_enum(d: &EnumDef, m: &M) -> R<T> {
    if d.untagged {
        return Err(Rej::Open);
    }
    let body = |i: usize, va: &Variant, x: &M| -> R<T> {
        Ok(T::En(
            i,
            match va.kind {
                Kind::Unit | Kind::UnitStruct => {
                    // A body without fields; content of any other form is not specified.
                    match x {
                        M::Map(items) if items.is_empty() => vec![],
                        _ => return Err(Rej::Open),
                    }
                }
                Kind::Newtype => vec![dec_default(&va.fields[0].ty, x)?],
                Kind::Map => dec_fields(&va.fields, false, va.allow_unknown, x)?,
                Kind::Array => dec_fields(&va.fields, true, va.allow_unknown, x)?,
            },
        ))
    };
    if let Some(tag) = &d.tag {
        let items = match m {
            M::Map(items) => items,
            _ => return Err(Rej::No),
        };
        if dup_keys(items) {
            return Err(Rej::Open);
        }
        let key = items.iter().find(|(k, _)| k == tag).map(|(_, v)| v.clone());
        let rest = M::Map(items.iter().filter(|(k, _)| k != tag).cloned().collect());
        for (i, va) in d.variants.iter().enumerate().filter(|(_, v)| !v.skip && !v.embed) {
            let hit = match &key {
                Some(k) => *k == va.key || (va.missing && *k == UNDEF),
                None => va.missing,
            };
            if hit {
                return body(i, va, &rest);
            }
        }
        return Err(Rej::No);
    }
    let embedded = |x: &M| -> R<T> {
        for (i, va) in d.variants.iter().enumerate().filter(|(_, v)| !v.skip && v.embed) {
            match dec_default(&va.fields[0].ty, x) {
                Ok(t) => return Ok(T::En(i, vec![t])),
                Err(Rej::Open) => return Err(Rej::Open),
                Err(Rej::No) => {}
            }
        }
        Err(Rej::No)
    };
    if let M::Map(items) = m {
        if items.len() == 1 {
            for (i, va) in d.variants.iter().enumerate().filter(|(_, v)| !v.skip && !v.embed && v.kind != Kind::Unit) {
                if items[0].0 == va.key {
                    return body(i, va, &items[0].1);
                }
            }
        }
        let own = d.variants.iter().any(|v| !v.skip && !v.embed && v.kind != Kind::Unit);
        if items.len() != 1 && own && d.variants.iter().any(|v| v.embed) {
            // Next to variants with data of its own, an enum embeds single-key enums only.
            return Err(Rej::Open);
        }
        return embedded(m);
    }
    for (i, va) in d.variants.iter().enumerate().filter(|(_, v)| !v.skip && !v.embed && v.kind == Kind::Unit) {
        if *m == *va.disc.as_ref().unwrap_or(&va.key) {
            return Ok(T::En(i, vec![]));
        }
    }
    embedded(m)
}

/// What item `m` means for type `ty` (the item itself being well-formed).
pub fn dec(ty: &Ty, m: &M) -> R<T> {
    const NO: Rej = Rej::No;
    match (ty, m) {
        (Ty::U(b), M::U(n)) if uint_ok(*n, *b) => Ok(T::U(*n as u128)),
        (Ty::I(b), M::U(n)) if uint_ok(*n, *b - 1) => Ok(T::I(*n as i64)),
        (Ty::I(b), M::N(n)) if uint_ok(*n, *b - 1) => Ok(T::I((-1 - *n as i128) as i64)),
        (Ty::U128, M::B(b)) => {
            if b.len() > 16 {
                return Err(NO);
            }
            let mut n = 0u128;
            for x in b {
                n = n << 8 | *x as u128;
            }
            Ok(T::U(n))
        }
        (Ty::Bool, M::S(20)) => Ok(T::B(false)),
        (Ty::Bool, M::S(21)) => Ok(T::B(true)),
        (Ty::Str, M::T(s)) => Ok(T::S(s.clone())),
        (Ty::Char, M::U(n)) => u32::try_from(*n).ok().and_then(char::from_u32).map(T::C).ok_or(NO),
        (Ty::Unit, M::S(22 | 23)) => Ok(T::Unit),
        (Ty::Bytes, M::B(b)) => Ok(T::Y(b.clone())),
        (Ty::BytesN(n), M::B(b)) if b.len() == *n => Ok(T::Y(b.clone())),
        (Ty::Vec(e), M::A(v)) => Ok(T::L(all(v.iter().map(|x| dec(e, x)).collect())?)),
        (Ty::Arr(e, n), M::A(v)) if v.len() == *n => Ok(T::L(all(v.iter().map(|x| dec(e, x)).collect())?)),
        (Ty::Opt(_), M::S(22)) => Ok(T::Non),
        (Ty::Opt(e), m) => Ok(T::Som(Box::new(dec(e, m)?))),
        (Ty::Value, m) => Ok(T::V(VM(m.sorted()))),
        (Ty::Map { k, v, .. }, M::Map(xs)) => {
            let ks = all(xs.iter().map(|(a, _)| dec(k, a)).collect());
            let vs = all(xs.iter().map(|(_, b)| dec(v, b)).collect());
            if ks == Err(NO) || vs == Err(NO) {
                return Err(NO);
            }
            let (ks, vs) = (ks?, vs?);
            let out = norm_map(ks.into_iter().zip(vs).collect());
            if out.windows(2).any(|w| w[0].0 == w[1].0) {
                return Err(Rej::Open);
            }
            Ok(T::Mp(out))
        }
        (Ty::Set { e, .. }, M::A(v)) => Ok(T::L(norm_set(all(v.iter().map(|x| dec(e, x)).collect())?))),
        (Ty::Tup(ts), M::A(v)) if ts.len() == v.len() => {
            Ok(T::L(all(ts.iter().zip(v).map(|(t, x)| dec(t, x)).collect())?))
        }
        (Ty::Struct(d), m) => match d.shape {
            Shape::Unit => {
                if *m == NULL {
                    Ok(T::St(vec![]))
                } else {
                    Err(Rej::Open)
                }
            }
            Shape::Transparent => Ok(T::St(vec![dec_default(&d.fields[0].ty, m)?])),
            Shape::Array => Ok(T::St(dec_fields(&d.fields, true, d.allow_unknown, m)?)),
            Shape::Map => Ok(T::St(dec_fields(&d.fields, false, d.allow_unknown, m)?)),
        },
        (Ty::Enum(d), m) => dec_enum(d, m),
        (Ty::Const(c), m) if c == m => Ok(T::Unit),
        (Ty::Tagged(n, x), M::Tag(k, y)) if n == k => dec(x, y),
        (Ty::Rec(g), m) => dec(&g(), m),
        _ => Err(NO),
    }
}

// ---------------------------------------------------------------------------------------------
// The serde layer.

pub fn senc(ty: &Ty, t: &T) -> M {
    match (ty, t) {
        (Ty::Vec(e) | Ty::Arr(e, _), T::L(v)) => M::A(v.iter().map(|x| senc(e, x)).collect()),
        (Ty::Opt(e), T::Som(x)) => senc(e, x),
        (Ty::Map { k, v, .. }, T::Mp(xs)) => M::Map(xs.iter().map(|(a, b)| (senc(k, a), senc(v, b))).collect()),
        (Ty::Set { e, .. }, T::L(xs)) => M::A(xs.iter().map(|x| senc(e, x)).collect()),
        (Ty::Tup(ts), T::L(xs)) => M::A(ts.iter().zip(xs).map(|(t, x)| senc(t, x)).collect()),
        (Ty::Struct(d), T::St(xs)) => match d.shape {
            Shape::Unit => NULL,
            Shape::Transparent => senc(&d.fields[0].ty, &xs[0]),
            Shape::Array => M::A(d.fields.iter().zip(xs).map(|(f, x)| senc(&f.ty, x)).collect()),
            Shape::Map => M::Map(
                d.fields
                    .iter()
                    .zip(xs)
                    .filter(|(f, x)| f.skip.is_none() && !f.skip_if.map_or(false, |p| p(x)))
                    .map(|(f, x)| (f.key.clone(), senc(&f.ty, x)))
                    .collect(),
            ),
        },
        (Ty::Enum(d), T::En(i, xs)) => {
            let va = &d.variants[*i];
            let body = match va.kind {
                Kind::Unit | Kind::UnitStruct => return va.key.clone(),
                Kind::Newtype => senc(&va.fields[0].ty, &xs[0]),
                Kind::Map => {
                    M::Map(va.fields.iter().zip(xs).map(|(f, x)| (f.key.clone(), senc(&f.ty, x))).collect())
                }
                Kind::Array => M::A(va.fields.iter().zip(xs).map(|(f, x)| senc(&f.ty, x)).collect()),
            };
            M::Map(vec![(va.key.clone(), body)])
        }
        (Ty::Rec(g), t) => senc(&g(), t),
        (ty, t) => enc(ty, t),
    }
}

fn contains_tag(m: &M) -> bool {
    match m {
        M::A(v) => v.iter().any(contains_tag),
        M::Map(v) => v.iter().any(|(a, b)| contains_tag(a) || contains_tag(b)),
        M::Tag(..) => true,
        _ => false,
    }
}

fn sfields(fields: &[Field], m: &M) -> R<Vec<T>> {
    let items = match m {
        M::Map(items) => items,
        _ => return Err(Rej::No),
    };
    if items.iter().any(|(k, _)| !matches!(k, M::T(_))) {
        // serde also accepts field indices and byte strings as identifiers.
        return Err(Rej::Open);
    }
    if dup_keys(items) {
        return Err(Rej::Open);
    }
    for (k, v) in items {
        if !fields.iter().any(|f| f.key == *k && f.skip.is_none()) && contains_tag(v) {
            return Err(Rej::Open);
        }
    }
    all(fields
        .iter()
        .map(|fd| match &fd.skip {
            Some(d) => Ok(d.clone()),
            None => match items.iter().find(|(k, _)| *k == fd.key) {
                Some((_, v)) => sdec(&fd.ty, v),
                None if fd.optional => default(&fd.ty),
                None => match &fd.ty {
                    Ty::Opt(_) => Ok(T::Non),
                    // serde offers "missing" to self-describing unit-like types as an error too.
                    _ => Err(Rej::No),
                },
            },
        })
        .collect())
}

/// What item `m` means for the serde-derived type `ty`.
pub fn sdec(ty: &Ty, m: &M) -> R<T> {
    const NO: Rej = Rej::No;
    match (ty, m) {
        (Ty::Str, M::B(b)) => {
            if std::str::from_utf8(b).is_ok() {
                Err(Rej::Open)
            } else {
                Err(NO)
            }
        }
        (Ty::Bytes, M::T(_)) => Err(Rej::Open),
        (Ty::Bytes, M::A(_)) => Err(Rej::Open),
        (Ty::Vec(e), M::A(v)) => Ok(T::L(all(v.iter().map(|x| sdec(e, x)).collect())?)),
        (Ty::Arr(e, n), M::A(v)) if v.len() == *n => Ok(T::L(all(v.iter().map(|x| sdec(e, x)).collect())?)),
        (Ty::Opt(_), M::S(22)) => Ok(T::Non),
        (Ty::Opt(e), m) => Ok(T::Som(Box::new(sdec(e, m)?))),
        (Ty::Map { k, v, .. }, M::Map(xs)) => {
            let ks = all(xs.iter().map(|(a, _)| sdec(k, a)).collect());
            let vs = all(xs.iter().map(|(_, b)| sdec(v, b)).collect());
            if ks == Err(NO) || vs == Err(NO) {
                return Err(NO);
            }
            let (ks, vs) = (ks?, vs?);
            let out = norm_map(ks.into_iter().zip(vs).collect());
            if out.windows(2).any(|w| w[0].0 == w[1].0) {
                return Err(Rej::Open);
            }
            Ok(T::Mp(out))
        }
        (Ty::Set { e, .. }, M::A(v)) => Ok(T::L(norm_set(all(v.iter().map(|x| sdec(e, x)).collect())?))),
        (Ty::Tup(ts), M::A(v)) if ts.len() == v.len() => {
            Ok(T::L(all(ts.iter().zip(v).map(|(t, x)| sdec(t, x)).collect())?))
        }
        (Ty::Struct(d), m) => match d.shape {
            Shape::Unit => match m {
                M::S(22 | 23) => Ok(T::St(vec![])),
                _ => Err(NO),
            },
            Shape::Transparent => Ok(T::St(vec![sdec(&d.fields[0].ty, m)?])),
            Shape::Array => match m {
                M::A(v) if v.len() == d.fields.len() => {
                    Ok(T::St(all(d.fields.iter().zip(v).map(|(f, x)| sdec(&f.ty, x)).collect())?))
                }
                _ => Err(NO),
            },
            Shape::Map => Ok(T::St(sfields(&d.fields, m)?)),
        },
        (Ty::Enum(d), m) => {
            let (key, body) = match m {
                M::Map(items) if items.len() == 1 => (items[0].0.clone(), items[0].1.clone()),
                M::T(s) => (M::T(s.clone()), NULL),
                _ => return Err(NO),
            };
            if !matches!(key, M::T(_)) {
                return Err(Rej::Open);
            }
            for (i, va) in d.variants.iter().enumerate() {
                if va.key == key {
                    return Ok(T::En(
                        i,
                        match va.kind {
                            Kind::Unit | Kind::UnitStruct => {
                                if body == NULL {
                                    vec![]
                                } else {
                                    return Err(NO);
                                }
                            }
                            Kind::Newtype => vec![sdec(&va.fields[0].ty, &body)?],
                            Kind::Map => sfields(&va.fields, &body)?,
                            Kind::Array => match &body {
                                M::A(v) if v.len() == va.fields.len() => {
                                    all(va.fields.iter().zip(v).map(|(f, x)| sdec(&f.ty, x)).collect())?
                                }
                                _ => return Err(NO),
                            },
                        },
                    ));
                }
            }
            Err(NO)
        }
        (Ty::Rec(g), m) => sdec(&g(), m),
        (Ty::Unit, M::S(22 | 23)) => Ok(T::Unit),
        (Ty::U(_) | Ty::I(_) | Ty::U128 | Ty::Bool | Ty::Str | Ty::Char | Ty::Bytes, m) => dec(ty, m),
        // The serde view of generic items: see zoo::AnyItem.
        (Ty::Value, m) => {
            if contains_tag(m) {
                Err(NO)
            } else {
                Ok(T::V(VM(undef_to_null(m).sorted())))
            }
        }
        _ => Err(NO),
    }
}

/// serde has a single unit value.
pub fn undef_to_null(m: &M) -> M {
    match m {
        M::A(v) => M::A(v.iter().map(undef_to_null).collect()),
        M::Map(v) => M::Map(v.iter().map(|(a, b)| (undef_to_null(a), undef_to_null(b))).collect()),
        M::Tag(t, x) => M::Tag(*t, Box::new(undef_to_null(x))),
        M::S(23) => NULL,
        x => x.clone(),
    }
}

// ---------------------------------------------------------------------------------------------
// Generation of logical values.

pub fn gen(ty: &Ty, s: &mut Src, budget: &mut i64) -> T {
    *budget -= 1;
    match ty {
        Ty::U(b) => {
            let n = model::gen_u64(s);
            let max = if *b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
            T::U((if n > max { max - (n & 3) } else { n }) as u128)
        }
        Ty::I(b) => {
            let n = model::gen_u64(s);
            let max = (1u64 << (b - 1)) - 1;
            let n = if n > max { max - (n & 3) } else { n };
            T::I(if s.chance(500) { -1 - n as i64 } else { n as i64 })
        }
        Ty::U128 => {
            let a = model::gen_u64(s) as u128;
            T::U(match s.below(4) {
                0 => a,
                1 => a << s.below(65),
                2 => {
                    let b = model::gen_u64(s) as u128;
                    a << 64 | b
                }
                _ => u128::MAX >> s.below(128),
            })
        }
        Ty::Bool => T::B(s.chance(500)),
        Ty::Str => T::S(model::gen_string(s, *budget > 0)),
        Ty::Char => T::C(model::gen_char(s)),
        Ty::Unit => T::Unit,
        Ty::Bytes => T::Y(model::gen_bytes(s, *budget > 0)),
        Ty::BytesN(n) => T::Y((0..*n).map(|_| *s.pick(&[0u8, 1, 24, 127, 255])).collect()),
        Ty::Vec(e) => {
            let n = glen(s, *budget);
            T::L((0..n).map(|_| gen(e, s, budget)).collect())
        }
        Ty::Arr(e, n) => T::L((0..*n).map(|_| gen(e, s, budget)).collect()),
        Ty::Opt(e) => {
            if s.chance(650) {
                T::Som(Box::new(gen(e, s, budget)))
            } else {
                T::Non
            }
        }
        Ty::Value => {
            let mut b = (*budget).clamp(1, 12);
            let m = gen_m(s, 3, &mut b);
            T::V(VM(m.sorted()))
        }
        Ty::Map { k, v, .. } => {
            let n = glen(s, *budget);
            let mut xs: Vec<(T, T)> = vec![];
            for _ in 0..n {
                let key = if !xs.is_empty() && s.chance(300) {
                    let i = s.usize(xs.len());
                    tweak(k, &xs[i].0, s)
                } else {
                    gen(k, s, budget)
                };
                xs.push((key, gen(v, s, budget)));
            }
            // Keys must be distinct on the wire too.
            let mut seen: Vec<M> = vec![];
            xs.retain(|(a, _)| {
                let m = enc(k, a).sorted();
                if seen.contains(&m) {
                    false
                } else {
                    seen.push(m);
                    true
                }
            });
            T::Mp(norm_map(xs))
        }
        Ty::Set { e, .. } => {
            let n = glen(s, *budget);
            let mut xs: Vec<T> = vec![];
            for _ in 0..n {
                if !xs.is_empty() && s.chance(300) {
                    let i = s.usize(xs.len());
                    let x = tweak(e, &xs[i], s);
                    xs.push(x);
                } else {
                    xs.push(gen(e, s, budget));
                }
            }
            T::L(norm_set(xs))
        }
        Ty::Tup(ts) => T::L(ts.iter().map(|t| gen(t, s, budget)).collect()),
        Ty::Struct(d) => T::St(
            d.fields
                .iter()
                .map(|fd| match &fd.skip {
                    Some(d) => d.clone(),
                    None => gen_field(fd, s, budget),
                })
                .collect(),
        ),
        Ty::Enum(d) => {
            let live: Vec<usize> = (0..d.variants.len()).filter(|i| !d.variants[*i].skip).collect();
            // Recursive enums end with their first variant when the budget is gone.
            let i = if *budget < -20 { live[0] } else { *s.pick(&live) };
            T::En(
                i,
                d.variants[i]
                    .fields
                    .iter()
                    .map(|fd| match &fd.skip {
                        Some(d) => d.clone(),
                        None => gen_field(fd, s, budget),
                    })
                    .collect(),
            )
        }
        Ty::Const(_) => T::Unit,
        Ty::Tagged(_, x) => gen(x, s, budget),
        Ty::Rec(g) => {
            if *budget <= 0 {
                if let Ok(t) = default(&g()) {
                    return t;
                }
            }
            gen(&g(), s, budget)
        }
    }
}

fn gen_field(fd: &Field, s: &mut Src, budget: &mut i64) -> T {
    if fd.found {
        return if s.chance(400) {
            T::Som(Box::new(if s.chance(200) { T::V(VM(M::S(22 + s.below(2) as u8))) } else { gen(&fd.ty, s, budget) }))
        } else {
            T::Non
        };
    }
    // Omitted fields are a case of their own, so draw the empty value often.
    if fd.optional && s.chance(400) {
        if let Ok(t) = default(&fd.ty) {
            return t;
        }
    }
    gen(&fd.ty, s, budget)
}

fn glen(s: &mut Src, budget: i64) -> usize {
    if budget <= 0 {
        return 0;
    }
    match s.weighted(&[30, if budget > 12 { 3 } else { 0 }, if budget > 25 { 1 } else { 0 }]) {
        0 => s.usize(6),
        1 => *s.pick(&[7, 8, 9, 12, 15, 16, 17, 23, 24, 25]),
        _ => *s.pick(&[32, 33, 64, 65, 255, 256, 257, 1000]),
    }
}

/// A close relative of `t`.
pub fn tweak(ty: &Ty, t: &T, s: &mut Src) -> T {
    match (ty, t) {
        (Ty::U(b), T::U(n)) => {
            let max = if *b >= 64 { u64::MAX as u128 } else { (1u128 << b) - 1 };
            T::U(match s.below(3) {
                0 => (n + 1).min(max),
                1 => n.saturating_sub(1),
                _ => (n << 8 | n & 0xff) & max,
            })
        }
        (Ty::I(_), T::I(n)) => match s.below(2) {
            0 => T::I(-1 - *n),
            _ => T::I(n / 2),
        },
        (Ty::Str, T::S(x)) => {
            let mut x = x.clone();
            match s.below(3) {
                0 => x.push('a'),
                1 => {
                    x.pop();
                }
                _ => {
                    x.pop();
                    x.push(model::gen_char(s));
                }
            }
            T::S(x)
        }
        (Ty::Bytes, T::Y(x)) => {
            let mut x = x.clone();
            match s.below(3) {
                0 => x.push(0),
                1 => {
                    x.pop();
                }
                _ => {
                    if let Some(b) = x.last_mut() {
                        *b = b.wrapping_add(1)
                    }
                }
            }
            T::Y(x)
        }
        (Ty::Value, T::V(m)) => T::V(VM(model::tweak(s, &m.0).sorted())),
        (Ty::Tup(ts), T::L(xs)) if !xs.is_empty() => {
            let mut xs = xs.clone();
            let i = s.usize(xs.len());
            xs[i] = tweak(&ts[i], &xs[i], s);
            T::L(xs)
        }
        (Ty::Vec(e), T::L(xs)) => {
            let mut xs = xs.clone();
            if xs.is_empty() || s.chance(500) {
                let mut b = 2;
                xs.push(gen(e, s, &mut b));
            } else {
                let i = s.usize(xs.len());
                xs[i] = tweak(e, &xs[i], s);
            }
            T::L(xs)
        }
        (ty, _) => {
            let mut b = 4;
            gen(ty, s, &mut b)
        }
    }
}
