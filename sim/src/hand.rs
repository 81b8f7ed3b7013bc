//! Record types whose codecs are written by hand with the construction and destructuring macros,
//! the way deployed users of the generic layer do.

use std::collections::BTreeMap;
use std::sync::Arc;

use oasis_cbor as cbor;
use oasis_cbor::{
    cbor_array, cbor_array_vec, cbor_bool, cbor_bytes, cbor_bytes_lit, cbor_false, cbor_int, cbor_map, cbor_map_collection,
    cbor_map_options, cbor_null, cbor_tagged, cbor_text, cbor_true, cbor_undefined, cbor_unsigned, destructure_cbor_map, DecodeError,
};

use crate::model::{M, NULL, UNDEF};
use crate::ty::{f, Field, Shape, StructDef, Ty, T};
use crate::zoo::{native, Entry, Hist, Zoo};
use crate::zoo_struct;

type Item = cbor::Value;

fn open(name: &'static str, fields: Vec<Field>) -> Ty {
    Ty::Struct(Arc::new(StructDef { name, shape: Shape::Map, fields, default: None, allow_unknown: true }))
}
fn row(name: &'static str, fields: Vec<Field>) -> Ty {
    Ty::Struct(Arc::new(StructDef { name, shape: Shape::Array, fields, default: None, allow_unknown: false }))
}
fn opt(t: Ty) -> Ty {
    Ty::Opt(Arc::new(t))
}
fn at(key: M, ty: Ty) -> Field {
    let mut x = f("", ty);
    x.key = key;
    x
}
fn b(x: &[u8]) -> M {
    M::B(x.to_vec())
}

/// Entries in the order the destructuring macro wants: lenient readers deliver any order.
fn entries(v: Item) -> Result<Vec<(Item, Item)>, DecodeError> {
    match v {
        Item::Map(mut m) => {
            if m.windows(2).any(|w| w[0].0 >= w[1].0) {
                m.sort_by(|a, b| a.0.cmp(&b.0));
            }
            Ok(m)
        }
        _ => Err(DecodeError::UnexpectedType),
    }
}
fn cells(v: Item, n: usize) -> Result<std::vec::IntoIter<Item>, DecodeError> {
    match v {
        Item::Array(v) if v.len() == n => Ok(v.into_iter()),
        _ => Err(DecodeError::UnexpectedType),
    }
}
fn field<X: cbor::Decode>(v: Option<Item>) -> Result<X, DecodeError> {
    X::try_from_cbor_value_default(v.unwrap_or_else(|| cbor_null!()))
}

macro_rules! codec {
    ($name:ty, |$s:ident| $enc:expr, |$v:ident| $dec:expr) => {
        codec!($name, |$s| $enc, |$v| $dec, Err(DecodeError::MissingField), |_x| false);
    };
    ($name:ty, |$s:ident| $enc:expr, |$v:ident| $dec:expr, $default:expr, |$e:ident| $empty:expr) => {
        const _: () = {
            // Outside of the impl, where the trait's own methods are not in scope.
            fn enc($s: $name) -> Item {
                $enc
            }
            impl cbor::Encode for $name {
                fn is_empty(&self) -> bool {
                    let $e = self;
                    $empty
                }
                fn into_cbor_value(self) -> Item {
                    enc(self)
                }
            }
            fn dec($v: Item) -> Result<$name, DecodeError> {
                $dec
            }
            impl cbor::Decode for $name {
                fn try_default() -> Result<Self, DecodeError> {
                    $default
                }
                fn try_from_cbor_value(v: Item) -> Result<Self, DecodeError> {
                    dec(v)
                }
            }
        };
    };
}

// ---- one record in several versions -----------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
pub struct CardV1 {
    id: u64,
    flag: bool,
    seq: i64,
    key: Vec<u8>,
    name: String,
}
zoo_struct!(CardV1, open("CardV1", vec![at(M::U(1), Ty::U(64)), at(M::U(24), Ty::Bool), at(M::int(-1), Ty::I(64)), at(b(b"k"), Ty::Bytes), f("name", Ty::Str)]),
    { id: u64, flag: bool, seq: i64, key: Vec<u8>, name: String });
codec!(CardV1,
    |s| cbor_map! { "name" => s.name, &b"k"[..] => s.key, -1 => s.seq, 1 => s.id, 24 => s.flag, },
    |v| {
        destructure_cbor_map! { let { 1 => id, 24 => flag, -1 => seq, &b"k"[..] => key, "name" => name, } = entries(v)?; }
        Ok(CardV1 { id: field(id)?, flag: field(flag)?, seq: field(seq)?, key: field(key)?, name: field(name)? })
    });

#[derive(Debug, Clone, PartialEq)]
pub struct CardV2 {
    id: u64,
    count: u64,
    flag: bool,
    seq: i64,
    low: i32,
    key: Vec<u8>,
    none: String,
    short: String,
    name: String,
    long: Option<u64>,
}
zoo_struct!(CardV2, open("CardV2", vec![at(M::U(1), Ty::U(64)), at(M::U(2), Ty::U(64)), at(M::U(24), Ty::Bool), at(M::int(-1), Ty::I(64)),
        at(M::int(-25), Ty::I(32)), at(b(b"k"), Ty::Bytes), f("", Ty::Str), f("a", Ty::Str), f("name", Ty::Str), f("a much longer name, past 24", opt(Ty::U(64))).opt()]),
    { id: u64, count: u64, flag: bool, seq: i64, low: i32, key: Vec<u8>, none: String, short: String, name: String, long: Option<u64> });
codec!(CardV2,
    |s| cbor_map_options! {
        1 => s.id, 2 => Some(s.count), 24 => s.flag, -1 => Some(s.seq), -25 => s.low, &b"k"[..] => &s.key[..],
        "" => s.none, "a" => Some(s.short.as_str()), "name" => s.name, "a much longer name, past 24" => s.long
    },
    |v| {
        destructure_cbor_map! {
            let {
                1 => id, 2 => count, 24 => flag, -1 => seq, -25 => low, &b"k"[..] => key,
                "" => none, "a" => short, "name" => name, "a much longer name, past 24" => long,
            } = entries(v)?;
        }
        Ok(CardV2 {
            id: field(id)?, count: field(count)?, flag: field(flag)?, seq: field(seq)?, low: field(low)?, key: field(key)?,
            none: field(none)?, short: field(short)?, name: field(name)?, long: field(long)?,
        })
    });

#[derive(Debug, Clone, PartialEq)]
pub struct CardV3 {
    id: u64,
    wide: Option<bool>,
    seq: i64,
    last: Option<Vec<u8>>,
    name: String,
}
zoo_struct!(CardV3, open("CardV3", vec![at(M::U(1), Ty::U(64)), at(M::U(300), opt(Ty::Bool)).opt(), at(M::int(-1), Ty::I(64)), at(b(&[0xff, 0]), opt(Ty::Bytes)).opt(), f("name", Ty::Str)]),
    { id: u64, wide: Option<bool>, seq: i64, last: Option<Vec<u8>>, name: String });
codec!(CardV3,
    |s| cbor_map_options! { 300 => s.wide, &[0xffu8, 0][..] => s.last, 1 => s.id, -1 => s.seq, "name" => s.name, },
    |v| {
        destructure_cbor_map! { let { 1 => id, 300 => wide, -1 => seq, &[0xffu8, 0][..] => last, "name" => name, } = entries(v)?; }
        Ok(CardV3 { id: field(id)?, wide: field(wide)?, seq: field(seq)?, last: field(last)?, name: field(name)? })
    });

// ---- keys of every kind, bound as found -------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
pub struct Bound {
    zero: Option<Item>,
    edge: Option<Item>,
    max: Option<Item>,
    neg: Option<Item>,
    min: Option<Item>,
    empty: Option<Item>,
    bytes: Option<Item>,
    text: Option<Item>,
    array: Option<Item>,
    map: Option<Item>,
    tag: Option<Item>,
    no: Option<Item>,
    mark: u64,
}
fn k_array() -> M {
    M::A(vec![M::U(1), M::t("x")])
}
fn k_map() -> M {
    M::Map(vec![(M::U(1), M::U(2))])
}
zoo_struct!(Bound, open("Bound", vec![
        at(M::U(0), Ty::Value).found(), at(M::U(23), Ty::Value).found(), at(M::U(u64::MAX), Ty::Value).found(), at(M::int(-1), Ty::Value).found(),
        at(M::int(i64::MIN as i128), Ty::Value).found(), at(b(b""), Ty::Value).found(), at(b(b"k"), Ty::Value).found(), f("z", Ty::Value).found(),
        at(k_array(), Ty::Value).found(), at(k_map(), Ty::Value).found(), at(M::Tag(7, Box::new(M::U(0))), Ty::Value).found(),
        at(M::S(20), Ty::Value).found(), at(M::S(21), Ty::U(64))]),
    { zero: Option<Item>, edge: Option<Item>, max: Option<Item>, neg: Option<Item>, min: Option<Item>, empty: Option<Item>, bytes: Option<Item>,
      text: Option<Item>, array: Option<Item>, map: Option<Item>, tag: Option<Item>, no: Option<Item>, mark: u64 });
codec!(Bound,
    |s| cbor_map_options! {
        0 => s.zero, 23 => s.edge, u64::MAX => s.max, -1 => s.neg, i64::MIN => s.min, &b""[..] => s.empty, b"k".to_vec() => s.bytes, "z" => s.text,
        cbor_array![1, "x"] => s.array, cbor_map! { 1 => 2 } => s.map, cbor_tagged!(7, cbor_int!(0)) => s.tag, false => s.no, true => s.mark,
    },
    |v| {
        destructure_cbor_map! {
            let {
                0 => zero, 23 => edge, u64::MAX => max, -1 => neg, i64::MIN => min, &b""[..] => empty, b"k".to_vec() => bytes, "z" => text,
                cbor_array![1, "x"] => array, cbor_map! { 1 => 2 } => map, cbor_tagged!(7, cbor_int!(0)) => tag, false => no, true => mark,
            } = entries(v)?;
        }
        Ok(Bound { zero, edge, max, neg, min, empty, bytes, text, array, map, tag, no, mark: field(mark)? })
    });

/// One key only.
#[derive(Debug, Clone, PartialEq)]
pub struct Single {
    it: Option<Item>,
    more: bool,
}
zoo_struct!(Single, open("Single", vec![f("it", Ty::Value).found(), f("more", Ty::Bool)]), { it: Option<Item>, more: bool });
codec!(Single,
    |s| match s.it {
        None => cbor_map! { "more" => s.more },
        Some(x) => cbor_map! { "it" => x, "more" => s.more, },
    },
    |v| {
        let m = entries(v)?;
        let again = m.clone();
        destructure_cbor_map! { let { "it" => it, } = m; }
        let it: Option<Item> = it;
        let more = {
            destructure_cbor_map! { let { "more" => more, } = again; }
            more
        };
        Ok(Single { it, more: field(more)? })
    });

// ---- values -----------------------------------------------------------------------------------

macro_rules! constant {
    ($name:ident, $m:expr, $v:expr) => {
        #[derive(Debug, Clone, PartialEq)]
        pub struct $name;
        impl Zoo for $name {
            fn ty() -> Ty {
                Ty::Const($m)
            }
            fn to_tree(&self) -> T {
                T::Unit
            }
            fn from_tree(_: &T, _: &mut Hist) -> Self {
                $name
            }
        }
        codec!($name, |_s| $v, |v| if v == $v { Ok($name) } else { Err(DecodeError::UnexpectedType) });
    };
}
constant!(Magic, b(b"magic\x00"), cbor_bytes_lit!(b"magic\x00"));
constant!(Null, NULL, cbor_null!());
constant!(Undefined, UNDEF, cbor_undefined!());
constant!(Nothing, M::Map(vec![]), cbor_map! {});
constant!(NoOptions, M::Map(vec![]), cbor_map_options! {});
constant!(NoCells, M::A(vec![]), cbor_array![]);
constant!(Fixed,
    M::Map(vec![(M::U(1), M::A(vec![M::t("x"), M::int(-7), M::S(21)])), (M::t("n"), M::Map(vec![(b(b"q"), M::S(23))]))]),
    cbor_map! { 1 => cbor_array!["x", -7, true,], "n" => cbor_map! { &b"q"[..] => cbor_undefined!() } });

#[derive(Debug, Clone, PartialEq)]
pub struct Cells {
    u: u64,
    i: i64,
    n: i32,
    flag: bool,
    text: String,
    bytes: Vec<u8>,
    nested: (u64, String),
}
zoo_struct!(Cells, row("Cells", vec![f("u", Ty::U(64)), f("i", Ty::I(64)), f("n", Ty::I(32)), f("flag", Ty::Bool), f("text", Ty::Str), f("bytes", Ty::Bytes),
        f("nested", <(u64, String)>::ty())]),
    { u: u64, i: i64, n: i32, flag: bool, text: String, bytes: Vec<u8>, nested: (u64, String) });
codec!(Cells,
    |s| cbor_array![s.u, s.i, s.n, s.flag, s.text, s.bytes, cbor_array![s.nested.0, s.nested.1.as_str()]],
    |v| {
        let mut it = cells(v, 7)?;
        Ok(Cells { u: field(it.next())?, i: field(it.next())?, n: field(it.next())?, flag: field(it.next())?, text: field(it.next())?,
            bytes: field(it.next())?, nested: field(it.next())? })
    });

#[derive(Debug, Clone, PartialEq)]
pub struct Scalars {
    u: u64,
    i: i64,
    flag: bool,
    again: bool,
    text: String,
    bytes: Vec<u8>,
    magic: Magic,
    unit: (),
}
zoo_struct!(Scalars, row("Scalars", vec![f("u", Ty::U(64)), f("i", Ty::I(64)), f("flag", Ty::Bool), f("again", Ty::Bool), f("text", Ty::Str), f("bytes", Ty::Bytes),
        f("magic", Magic::ty()), f("unit", Ty::Unit)]),
    { u: u64, i: i64, flag: bool, again: bool, text: String, bytes: Vec<u8>, magic: Magic, unit: () });
codec!(Scalars,
    |s| Item::Array(vec![
        cbor_unsigned!(s.u), cbor_int!(s.i), cbor_bool!(s.flag), if s.again { cbor_true!() } else { cbor_false!() }, cbor_text!(s.text.as_str()),
        cbor_bytes!(s.bytes), cbor_bytes_lit!(b"magic\x00"), cbor_null!(),
    ]),
    |v| {
        let mut it = cells(v, 8)?;
        let (u, i, flag, again) = (field(it.next())?, field(it.next())?, field(it.next())?, field(it.next())?);
        let (text, bytes) = (field(it.next())?, field(it.next())?);
        let magic = field(it.next())?;
        field::<()>(it.next())?;
        Ok(Scalars { u, i, flag, again, text, bytes, magic, unit: () })
    });

macro_rules! list {
    ($name:ident, $t:ty) => {
        #[derive(Debug, Clone, PartialEq)]
        pub struct $name(Vec<$t>);
        impl Zoo for $name {
            fn ty() -> Ty {
                Ty::Vec(Arc::new(<$t>::ty()))
            }
            fn to_tree(&self) -> T {
                T::L(self.0.iter().map(|x| x.to_tree()).collect())
            }
            fn from_tree(t: &T, h: &mut Hist) -> Self {
                match t {
                    T::L(v) => $name(v.iter().map(|x| <$t>::from_tree(x, h)).collect()),
                    t => panic!("harness: {t:?}"),
                }
            }
        }
        codec!($name, |s| cbor_array_vec!(s.0), |v| match v {
            Item::Array(v) => Ok($name(v.into_iter().map(<$t as cbor::Decode>::try_from_cbor_value).collect::<Result<_, _>>()?)),
            _ => Err(DecodeError::UnexpectedType),
        }, Ok($name(vec![])), |x| x.0.is_empty());
    };
}
list!(Numbers, i64);
list!(Texts, String);
list!(Blobs, Vec<u8>);
list!(Flags, bool);
list!(Items, Item);

#[derive(Debug, Clone, PartialEq)]
pub struct Pairs(BTreeMap<String, i64>);
impl Zoo for Pairs {
    fn ty() -> Ty {
        Ty::Map { k: Arc::new(Ty::Str), v: Arc::new(Ty::I(64)), hash: false }
    }
    fn to_tree(&self) -> T {
        self.0.to_tree()
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        Pairs(Zoo::from_tree(t, h))
    }
}
codec!(Pairs,
    |s| cbor_map_collection!(s.0.into_iter().rev().map(|(k, v)| (cbor_text!(k), cbor_int!(v))).collect::<Vec<(Item, Item)>>()),
    |v| <BTreeMap<String, i64> as cbor::Decode>::try_from_cbor_value(v).map(Pairs),
    Ok(Pairs(BTreeMap::new())), |x| x.0.is_empty());

macro_rules! tagged {
    ($name:ident, $tag:expr, $t:ty) => {
        #[derive(Debug, Clone, PartialEq)]
        pub struct $name($t);
        impl Zoo for $name {
            fn ty() -> Ty {
                Ty::Tagged($tag, Arc::new(<$t>::ty()))
            }
            fn to_tree(&self) -> T {
                self.0.to_tree()
            }
            fn from_tree(t: &T, h: &mut Hist) -> Self {
                $name(Zoo::from_tree(t, h))
            }
        }
        codec!($name, |s| cbor_tagged!($tag, cbor::to_value(s.0)), |v| match v {
            Item::Tag(t, x) if t == $tag => Ok($name(<$t as cbor::Decode>::try_from_cbor_value(*x)?)),
            _ => Err(DecodeError::UnexpectedType),
        });
    };
}
tagged!(Tag5, 5u64, CardV1);
tagged!(TagWide, 1u64 << 40, Numbers);
tagged!(TagZero, 0u64, String);

pub fn family() -> Vec<Entry> {
    vec![native::<CardV1>("CardV1", &[]), native::<CardV2>("CardV2", &[]), native::<CardV3>("CardV3", &[])]
}

macro_rules! n {
    ($($t:ty),* $(,)?) => { vec![$(native::<$t>(concat!("hand:", stringify!($t)), &[])),*] };
}
pub fn entries_list() -> Vec<Entry> {
    n![
        Bound, Single, Cells, Scalars, Numbers, Texts, Blobs, Flags, Items, Pairs, Tag5, TagWide, TagZero, Magic, Null, Undefined, Nothing, NoOptions, NoCells,
        Fixed, Vec<CardV2>, Option<Tag5>, Vec<Bound>, BTreeMap<String, CardV3>, (Bound, Single),
    ]
}
