//! Further derived forms: unusual keys, wide structs, attributes on the fields of enum variants, nested
//! embedding, and codecs over borrowed data.

use std::collections::BTreeMap;

use oasis_cbor as cbor;

use crate::model::M;
use crate::ty::{self, f, v, Kind, Shape, Ty, T};
use crate::types::{en, en_tag, halve, odd, opt, s, st, st_unknown, times_two, w_two};
use crate::types::{AsArray, E3, Embeds, IntKeys, Mode, Nested, NonTransparent, Tagged, Transparent, TransparentMap, Triple, Unit};
use crate::zoo::{native, Entry};
use crate::{zoo_enum, zoo_struct};

/// Keys at every boundary of their encoding.
#[derive(Debug, Default, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, cbor::Encode, cbor::Decode)]
pub struct Keys {
    #[cbor(rename = "é")]
    a: u64,
    #[cbor(rename = "日本")]
    b: u8,
    #[cbor(rename = "abc")]
    ascii3: u8,
    #[cbor(rename = "")]
    c: bool,
    #[cbor(rename = "name of twenty-five bytes")]
    d: u8,
    #[cbor(rename = "the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick br")]
    e: u8,
    #[cbor(rename = 23)]
    i23: u8,
    #[cbor(rename = 24)]
    i24: u8,
    #[cbor(rename = 255)]
    i255: u8,
    #[cbor(rename = 256)]
    i256: u8,
    #[cbor(rename = 65535)]
    i65535: u8,
    #[cbor(rename = 65536)]
    i65536: u8,
    #[cbor(rename = 4294967295)]
    iffff: u8,
    #[cbor(rename = 4294967296)]
    i1ffff: u8,
    #[cbor(rename = 9223372036854775808)]
    ihalf: u8,
    #[cbor(rename = 18446744073709551615)]
    imax: u8,
    #[cbor(rename = "zz")]
    zz: u8,
    #[cbor(rename = "aaaa", optional)]
    aaaa: u8,
    #[cbor(rename = 0, optional)]
    zero: Option<u8>,
}
zoo_struct!(Keys, st("Keys", Shape::Map, Some(|| T::St([vec![T::U(0), T::U(0), T::U(0), T::B(false)], vec![T::U(0); 14], vec![T::Non]].concat())),
    vec![f("é", Ty::U(64)), f("日本", Ty::U(8)), f("abc", Ty::U(8)), f("", Ty::Bool), f("name of twenty-five bytes", Ty::U(8)), f("the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick br", Ty::U(8)),
        f("", Ty::U(8)).key(23), f("", Ty::U(8)).key(24), f("", Ty::U(8)).key(255), f("", Ty::U(8)).key(256), f("", Ty::U(8)).key(65535),
        f("", Ty::U(8)).key(65536), f("", Ty::U(8)).key(4294967295), f("", Ty::U(8)).key(4294967296), f("", Ty::U(8)).key(1 << 63),
        f("", Ty::U(8)).key(u64::MAX), f("zz", Ty::U(8)), f("aaaa", Ty::U(8)).opt(), f("", opt(Ty::U(8))).key(0).opt()]),
    { a: u64, b: u8, ascii3: u8, c: bool, d: u8, e: u8, i23: u8, i24: u8, i255: u8, i256: u8, i65535: u8, i65536: u8, iffff: u8,
      i1ffff: u8, ihalf: u8, imax: u8, zz: u8, aaaa: u8, zero: Option<u8> });

/// Reads some of the fields of `Keys`, whatever else there is.
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(allow_unknown)]
pub struct KeysOpen {
    #[cbor(rename = 18446744073709551615)]
    imax: u8,
    #[cbor(rename = "the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick br")]
    e: u8,
    #[cbor(rename = "日本", optional)]
    b: u8,
    #[cbor(rename = 24, optional)]
    i24: u8,
    #[cbor(rename = 65536)]
    i65536: u8,
    #[cbor(rename = "é")]
    a: u64,
    #[cbor(rename = "the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick b", optional)]
    near: Option<u8>,
    #[cbor(rename = 4294967295)]
    iffff: u8,
}
zoo_struct!(KeysOpen, st_unknown("KeysOpen", Shape::Map, Some(|| T::St([vec![T::U(0); 6], vec![T::Non, T::U(0)]].concat())),
    vec![f("", Ty::U(8)).key(u64::MAX), f("the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick br", Ty::U(8)), f("日本", Ty::U(8)).opt(), f("", Ty::U(8)).key(24).opt(),
        f("", Ty::U(8)).key(65536), f("é", Ty::U(64)), f("the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick brown fox jumps over the lazy dog and the quick b", opt(Ty::U(8))).opt(), f("", Ty::U(8)).key(4294967295)]),
    { imax: u8, e: u8, b: u8, i24: u8, i65536: u8, a: u64, near: Option<u8>, iffff: u8 });

/// More fields than a one-byte header can count.
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct Wide {
    #[cbor(rename = 4000)] f0: u8,
    f1: Option<bool>,
    f2: i16,
    f3: bool,
    f4: u8,
    #[cbor(rename = 65)] f5: Option<bool>,
    f6: i16,
    #[cbor(optional)] f7: bool,
    f8: u8,
    f9: Option<bool>,
    #[cbor(rename = 3990)] f10: i16,
    f11: bool,
    f12: u8,
    f13: Option<bool>,
    #[cbor(optional)] f14: i16,
    #[cbor(rename = 195)] f15: bool,
    f16: u8,
    f17: Option<bool>,
    f18: i16,
    f19: bool,
    #[cbor(rename = 3980)] f20: u8,
    #[cbor(optional)] f21: Option<bool>,
    f22: i16,
    f23: bool,
    f24: u8,
    #[cbor(rename = 325)] f25: Option<bool>,
    f26: i16,
    f27: bool,
    #[cbor(optional)] f28: u8,
    f29: Option<bool>,
    #[cbor(rename = 3970)] f30: i16,
    f31: bool,
    f32: u8,
    f33: Option<bool>,
    f34: i16,
    #[cbor(rename = 455)] f35: bool,
    f36: u8,
    f37: Option<bool>,
    f38: i16,
    f39: bool,
}
zoo_struct!(Wide, st("Wide", Shape::Map, Some(|| T::St(vec![T::U(0), T::Non, T::I(0), T::B(false), T::U(0), T::Non, T::I(0), T::B(false), T::U(0), T::Non, T::I(0), T::B(false),
        T::U(0), T::Non, T::I(0), T::B(false), T::U(0), T::Non, T::I(0), T::B(false), T::U(0), T::Non, T::I(0), T::B(false),
        T::U(0), T::Non, T::I(0), T::B(false), T::U(0), T::Non, T::I(0), T::B(false), T::U(0), T::Non, T::I(0), T::B(false),
        T::U(0), T::Non, T::I(0), T::B(false)])),
    vec![f("", Ty::U(8)).key(4000), f("f1", opt(Ty::Bool)), f("f2", Ty::I(16)), f("f3", Ty::Bool), f("f4", Ty::U(8)),
        f("", opt(Ty::Bool)).key(65), f("f6", Ty::I(16)), f("f7", Ty::Bool).opt(), f("f8", Ty::U(8)), f("f9", opt(Ty::Bool)),
        f("", Ty::I(16)).key(3990), f("f11", Ty::Bool), f("f12", Ty::U(8)), f("f13", opt(Ty::Bool)), f("f14", Ty::I(16)).opt(),
        f("", Ty::Bool).key(195), f("f16", Ty::U(8)), f("f17", opt(Ty::Bool)), f("f18", Ty::I(16)), f("f19", Ty::Bool),
        f("", Ty::U(8)).key(3980), f("f21", opt(Ty::Bool)).opt(), f("f22", Ty::I(16)), f("f23", Ty::Bool), f("f24", Ty::U(8)),
        f("", opt(Ty::Bool)).key(325), f("f26", Ty::I(16)), f("f27", Ty::Bool), f("f28", Ty::U(8)).opt(), f("f29", opt(Ty::Bool)),
        f("", Ty::I(16)).key(3970), f("f31", Ty::Bool), f("f32", Ty::U(8)), f("f33", opt(Ty::Bool)), f("f34", Ty::I(16)),
        f("", Ty::Bool).key(455), f("f36", Ty::U(8)), f("f37", opt(Ty::Bool)), f("f38", Ty::I(16)), f("f39", Ty::Bool)]),
    { f0: u8, f1: Option<bool>, f2: i16, f3: bool, f4: u8, f5: Option<bool>, f6: i16, f7: bool,
        f8: u8, f9: Option<bool>, f10: i16, f11: bool, f12: u8, f13: Option<bool>, f14: i16, f15: bool,
        f16: u8, f17: Option<bool>, f18: i16, f19: bool, f20: u8, f21: Option<bool>, f22: i16, f23: bool,
        f24: u8, f25: Option<bool>, f26: i16, f27: bool, f28: u8, f29: Option<bool>, f30: i16, f31: bool,
        f32: u8, f33: Option<bool>, f34: i16, f35: bool, f36: u8, f37: Option<bool>, f38: i16, f39: bool });

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(as_array)]
pub struct WideRow {
    r0: u16,
    r1: u16,
    r2: u16,
    r3: u16,
    r4: u16,
    r5: u16,
    r6: u16,
    r7: u16,
    r8: u16,
    r9: u16,
    r10: u16,
    r11: u16,
    r12: u16,
    r13: u16,
    r14: u16,
    r15: u16,
    r16: u16,
    r17: u16,
    r18: u16,
    r19: u16,
    r20: u16,
    r21: u16,
    r22: u16,
    r23: u16,
    r24: u16,
    r25: u16,
}
zoo_struct!(WideRow, st("WideRow", Shape::Array, Some(|| T::St(vec![T::U(0); 26])),
    vec![f("r0", Ty::U(16)), f("r1", Ty::U(16)), f("r2", Ty::U(16)), f("r3", Ty::U(16)), f("r4", Ty::U(16)), f("r5", Ty::U(16)),
        f("r6", Ty::U(16)), f("r7", Ty::U(16)), f("r8", Ty::U(16)), f("r9", Ty::U(16)), f("r10", Ty::U(16)), f("r11", Ty::U(16)),
        f("r12", Ty::U(16)), f("r13", Ty::U(16)), f("r14", Ty::U(16)), f("r15", Ty::U(16)), f("r16", Ty::U(16)), f("r17", Ty::U(16)),
        f("r18", Ty::U(16)), f("r19", Ty::U(16)), f("r20", Ty::U(16)), f("r21", Ty::U(16)), f("r22", Ty::U(16)), f("r23", Ty::U(16)),
        f("r24", Ty::U(16)), f("r25", Ty::U(16))]),
    { r0: u16, r1: u16, r2: u16, r3: u16, r4: u16, r5: u16, r6: u16, r7: u16, r8: u16, r9: u16,
        r10: u16, r11: u16, r12: u16, r13: u16, r14: u16, r15: u16, r16: u16, r17: u16, r18: u16, r19: u16,
        r20: u16, r21: u16, r22: u16, r23: u16, r24: u16, r25: u16 });

/// Negative and wide discriminants, next to variants with data.
#[derive(Debug, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, cbor::Encode, cbor::Decode)]
#[repr(i64)]
pub enum Signed {
    Minus = -1,
    Low = -25,
    Lower = -70000,
    Zero = 0,
    High = 1000000,
    Named = 24,
    Data(i64) = 7,
    #[cbor(rename = 23)]
    Plain,
}
zoo_enum!(Signed, en("Signed", vec![v("Minus", Kind::Unit, vec![]).disc(-1), v("Low", Kind::Unit, vec![]).disc(-25),
    v("Lower", Kind::Unit, vec![]).disc(-70000), v("Zero", Kind::Unit, vec![]).disc(0), v("High", Kind::Unit, vec![]).disc(1000000),
    v("Named", Kind::Unit, vec![]).disc(24), v("Data", Kind::Newtype, vec![f("0", Ty::I(64))]), v("", Kind::Unit, vec![]).key(23)]),
    { 0 => Minus {}, 1 => Low {}, 2 => Lower {}, 3 => Zero {}, 4 => High {}, 5 => Named {}, 6 => Data { 0: a as i64 }, 7 => Plain {} });

/// Field attributes inside variants.
#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub enum Rich {
    Named {
        #[cbor(skip)]
        cached: u64,
        zeta: u64,
        #[cbor(optional)]
        b: Option<String>,
        #[cbor(serialize_with = "times_two", deserialize_with = "halve")]
        n: u64,
        #[cbor(optional, skip_serializing_if = "odd")]
        p: u64,
        #[cbor(optional, serialize_with = "times_two", deserialize_with = "halve", rename = 9)]
        q: u64,
        #[cbor(skip)]
        alpha: String,
    },
    #[cbor(as_array)]
    Row {
        a: u64,
        #[cbor(skip)]
        note: String,
        #[cbor(serialize_with = "times_two", deserialize_with = "halve")]
        n: u64,
    },
    Pair(u64, #[cbor(skip)] u64, String),
    #[cbor(rename = "", as_array, allow_unknown)]
    Open { a: i64 },
    #[cbor(rename = 24, allow_unknown)]
    OpenPair(i8, Option<u8>),
    #[cbor(skip)]
    Gone { x: u64 },
    AllOptional {
        #[cbor(optional)]
        x: u64,
        #[cbor(optional)]
        list: Vec<Nested>,
    },
    #[cbor(as_struct, rename = 0)]
    Bare,
    Nothing {},
}
zoo_enum!(Rich, en("Rich", vec![
    v("Named", Kind::Map, vec![f("cached", Ty::U(64)).skip(T::U(0)), f("zeta", Ty::U(64)), f("b", opt(Ty::Str)).opt(), f("n", Ty::U(64)).with(w_two()),
        f("p", Ty::U(64)).skip_if(|t| matches!(t, T::U(n) if n % 2 == 1)), f("", Ty::U(64)).key(9).opt().with(w_two()), f("alpha", Ty::Str).skip(s(""))]),
    v("Row", Kind::Array, vec![f("a", Ty::U(64)), f("note", Ty::Str).skip(s("")), f("n", Ty::U(64)).with(w_two())]),
    v("Pair", Kind::Array, vec![f("0", Ty::U(64)), f("1", Ty::U(64)).skip(T::U(0)), f("2", Ty::Str)]),
    v("", Kind::Array, vec![f("a", Ty::I(64))]).unknown(),
    v("", Kind::Array, vec![f("0", Ty::I(8)), f("1", opt(Ty::U(8)))]).key(24).unknown(),
    v("Gone", Kind::Map, vec![f("x", Ty::U(64))]).skip(),
    v("AllOptional", Kind::Map, vec![f("x", Ty::U(64)).opt(), f("list", <Vec<Nested>>::ty()).opt()]),
    v("", Kind::UnitStruct, vec![]).key(0), v("Nothing", Kind::Map, vec![])]),
    { 0 => Named { cached: a as u64, zeta: b as u64, b: c as Option<String>, n: d as u64, p: e as u64, q: g as u64, alpha: i as String },
      1 => Row { a: a as u64, note: b as String, n: c as u64 }, 2 => Pair { 0: a as u64, 1: b as u64, 2: c as String },
      3 => Open { a: a as i64 }, 4 => OpenPair { 0: a as i8, 1: b as Option<u8> }, 5 => Gone { x: a as u64 },
      6 => AllOptional { x: a as u64, list: b as Vec<Nested> }, 7 => Bare {}, 8 => Nothing {} });

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct TupSkip(
    u64,
    #[cbor(skip)] u64,
    String,
    #[cbor(serialize_with = "times_two", deserialize_with = "halve")] u64,
    #[cbor(optional)] Option<bool>,
);
zoo_struct!(TupSkip, st("TupSkip", Shape::Array, Some(|| T::St(vec![T::U(0), T::U(0), s(""), T::U(0), T::Non])),
    vec![f("0", Ty::U(64)), f("1", Ty::U(64)).skip(T::U(0)), f("2", Ty::Str), f("3", Ty::U(64)).with(w_two()), f("4", opt(Ty::Bool))]),
    { 0: u64, 1: u64, 2: String, 3: u64, 4: Option<bool> });

/// Releases of an array record, skipping fields the other knows.
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(as_array, allow_unknown)]
pub struct OpenRow {
    #[cbor(skip)]
    cache: u64,
    a: u64,
    #[cbor(skip)]
    note: String,
    b: Option<u64>,
}
zoo_struct!(OpenRow, st_unknown("OpenRow", Shape::Array, Some(|| T::St(vec![T::U(0), T::U(0), s(""), T::Non])),
    vec![f("cache", Ty::U(64)).skip(T::U(0)), f("a", Ty::U(64)), f("note", Ty::Str).skip(s("")), f("b", opt(Ty::U(64)))]),
    { cache: u64, a: u64, note: String, b: Option<u64> });
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct LongRow(u64, Option<u64>, u64, String, #[cbor(skip)] u64, u64);
zoo_struct!(LongRow, st("LongRow", Shape::Array, Some(|| T::St(vec![T::U(0), T::Non, T::U(0), s(""), T::U(0), T::U(0)])),
    vec![f("0", Ty::U(64)), f("1", opt(Ty::U(64))), f("2", Ty::U(64)), f("3", Ty::Str), f("4", Ty::U(64)).skip(T::U(0)), f("5", Ty::U(64))]),
    { 0: u64, 1: Option<u64>, 2: u64, 3: String, 4: u64, 5: u64 });
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(allow_unknown)]
pub struct OpenTuple(u64, #[cbor(skip)] u8, Option<u64>);
zoo_struct!(OpenTuple, st_unknown("OpenTuple", Shape::Array, Some(|| T::St(vec![T::U(0), T::U(0), T::Non])),
    vec![f("0", Ty::U(64)), f("1", Ty::U(8)).skip(T::U(0)), f("2", opt(Ty::U(64)))]), { 0: u64, 1: u8, 2: Option<u64> });

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct AllSkipped {
    #[cbor(skip)]
    a: u64,
    #[cbor(skip)]
    b: String,
}
zoo_struct!(AllSkipped, st("AllSkipped", Shape::Map, Some(|| T::St(vec![T::U(0), s("")])),
    vec![f("a", Ty::U(64)).skip(T::U(0)), f("b", Ty::Str).skip(s(""))]), { a: u64, b: String });

/// No variant of its own carries data: the whole item goes to the embedded enum.
#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub enum EmbedsUnit {
    Zero,
    #[cbor(embed)]
    Act(IntKeys),
    #[cbor(rename = 77)]
    Last,
}
zoo_enum!(EmbedsUnit, en("EmbedsUnit", vec![v("Zero", Kind::Unit, vec![]), v("Act", Kind::Newtype, vec![f("0", IntKeys::ty())]).embed(),
    v("", Kind::Unit, vec![]).key(77)]),
    { 0 => Zero {}, 1 => Act { 0: a as IntKeys }, 2 => Last {} });

/// Embedding through two levels.
#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub enum EmbedsDeep {
    #[cbor(embed)]
    Inner(Embeds),
    Other(String, u64),
    #[cbor(rename = "Lone")]
    One,
    #[cbor(embed)]
    Wide(Rich),
}
zoo_enum!(EmbedsDeep, en("EmbedsDeep", vec![v("Inner", Kind::Newtype, vec![f("0", Embeds::ty())]).embed(),
    v("Other", Kind::Array, vec![f("0", Ty::Str), f("1", Ty::U(64))]), v("Lone", Kind::Unit, vec![]),
    v("Wide", Kind::Newtype, vec![f("0", Rich::ty())]).embed()]),
    { 0 => Inner { 0: a as Embeds }, 1 => Other { 0: a as String, 1: b as u64 }, 2 => One {}, 3 => Wide { 0: a as Rich } });

/// Embeds an enum that is told apart by an entry of its own map.
#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[repr(u8)]
pub enum EmbedsTagged {
    Zero = 0,
    #[cbor(embed)]
    State(Tagged),
}
zoo_enum!(EmbedsTagged, en("EmbedsTagged", vec![v("Zero", Kind::Unit, vec![]).disc(0), v("State", Kind::Newtype, vec![f("0", Tagged::ty())]).embed()]),
    { 0 => Zero {}, 1 => State { 0: a as Tagged } });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(tag = "")]
pub enum TagSkips {
    #[cbor(rename = "a")]
    A {
        #[cbor(skip)]
        hidden: u64,
        #[cbor(optional)]
        x: Option<i8>,
        #[cbor(rename = "é")]
        y: u8,
    },
    #[cbor(skip)]
    B { x: u64 },
    #[cbor(rename = 300)]
    C(TransparentMap2),
    #[cbor(missing, rename = "dd")]
    D(Nested),
    E,
}
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct TransparentMap2 {
    #[cbor(optional)]
    m: BTreeMap<u64, i8>,
}
zoo_struct!(TransparentMap2, st("TransparentMap2", Shape::Map, Some(|| T::St(vec![T::Mp(vec![])])), vec![f("m", <BTreeMap<u64, i8>>::ty()).opt()]),
    { m: BTreeMap<u64, i8> });
zoo_enum!(TagSkips, en_tag("TagSkips", M::t(""), vec![
    v("a", Kind::Map, vec![f("hidden", Ty::U(64)).skip(T::U(0)), f("x", opt(Ty::I(8))).opt(), f("é", Ty::U(8))]),
    v("B", Kind::Map, vec![f("x", Ty::U(64))]).skip(), v("", Kind::Newtype, vec![f("0", TransparentMap2::ty())]).key(300),
    v("dd", Kind::Newtype, vec![f("0", Nested::ty())]).missing(), v("E", Kind::Unit, vec![])]),
    { 0 => A { hidden: a as u64, x: b as Option<i8>, y: c as u8 }, 1 => B { x: a as u64 }, 2 => C { 0: a as TransparentMap2 },
      3 => D { 0: a as Nested }, 4 => E {} });

/// Every form of type as an optional field.
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct OptForms {
    #[cbor(optional)]
    tr: TransparentMap,
    #[cbor(optional)]
    num: Transparent,
    #[cbor(optional)]
    row: AsArray,
    #[cbor(optional)]
    tup: NonTransparent,
    #[cbor(optional)]
    mode: Mode,
    #[cbor(optional)]
    e3: E3,
    #[cbor(optional)]
    unit: Unit,
    #[cbor(optional)]
    bytes: [u8; 4],
    #[cbor(optional)]
    pairs: (Transparent, Unit, Option<Nested>),
    #[cbor(optional)]
    opt_row: Option<AsArray>,
    #[cbor(optional)]
    hidden: AllSkipped,
    #[cbor(optional)]
    wide: Option<Triple>,
}
zoo_struct!(OptForms, st("OptForms", Shape::Map,
    Some(|| T::St(vec![T::St(vec![T::Mp(vec![])]), T::St(vec![T::U(0)]), ty::default(&AsArray::ty()).unwrap(), T::St(vec![T::U(0)]), T::En(0, vec![]),
        ty::default(&E3::ty()).unwrap(), T::St(vec![]), T::Y(vec![0; 4]), T::L(vec![T::St(vec![T::U(0)]), T::St(vec![]), T::Non]), T::Non,
        T::St(vec![T::U(0), s("")]), T::Non])),
    vec![f("tr", TransparentMap::ty()).opt(), f("num", Transparent::ty()).opt(), f("row", AsArray::ty()).opt(), f("tup", NonTransparent::ty()).opt(),
        f("mode", Mode::ty()).opt(), f("e3", E3::ty()).opt(), f("unit", Unit::ty()).opt(), f("bytes", Ty::BytesN(4)).opt(),
        f("pairs", <(Transparent, Unit, Option<Nested>)>::ty()).opt(), f("opt_row", opt(AsArray::ty())).opt(), f("hidden", AllSkipped::ty()).opt(),
        f("wide", opt(Triple::ty())).opt()]),
    { tr: TransparentMap, num: Transparent, row: AsArray, tup: NonTransparent, mode: Mode, e3: E3, unit: Unit, bytes: [u8; 4],
      pairs: (Transparent, Unit, Option<Nested>), opt_row: Option<AsArray>, hidden: AllSkipped, wide: Option<Triple> });

/// Written from borrowed data, read back as the owned form.
#[derive(cbor::Encode)]
struct TextRef<'a> {
    #[cbor(rename = 1)]
    n: &'a u64,
    text: &'a str,
    #[cbor(optional)]
    more: Option<&'a str>,
    list: Vec<&'a str>,
}
#[derive(cbor::Encode)]
enum TextCallRef<'a> {
    Say(&'a str),
    #[cbor(rename = 2)]
    Sum { a: &'a i64, b: &'a u128 },
}
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct TextOwned {
    #[cbor(rename = 1)]
    n: u64,
    text: String,
    #[cbor(optional)]
    more: Option<String>,
    list: Vec<String>,
}
zoo_struct!(TextOwned, st("TextOwned", Shape::Map, Some(|| T::St(vec![T::U(0), s(""), T::Non, T::L(vec![])])),
    vec![f("", Ty::U(64)).key(1), f("text", Ty::Str), f("more", opt(Ty::Str)).opt(), f("list", <Vec<String>>::ty())]),
    { n: u64, text: String, more: Option<String>, list: Vec<String> });
#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub enum TextCall {
    Say(String),
    #[cbor(rename = 2)]
    Sum { a: i64, b: u128 },
}
zoo_enum!(TextCall, en("TextCall", vec![v("Say", Kind::Newtype, vec![f("0", Ty::Str)]), v("", Kind::Map, vec![f("a", Ty::I(64)), f("b", Ty::U128)]).key(2)]),
    { 0 => Say { 0: a as String }, 1 => Sum { a: a as i64, b: b as u128 } });

fn text_ref(x: TextOwned) -> Vec<u8> {
    cbor::to_vec(TextRef { n: &x.n, text: &x.text, more: x.more.as_deref(), list: x.list.iter().map(|t| t.as_str()).collect() })
}
fn call_ref(x: TextCall) -> Vec<u8> {
    match &x {
        TextCall::Say(t) => cbor::to_vec(TextCallRef::Say(t)),
        TextCall::Sum { a, b } => cbor::to_vec(TextCallRef::Sum { a, b }),
    }
}

/// Without a default of its own, as a field that may be left out.
#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(no_default)]
pub struct Strictly {
    must: Triple,
    #[cbor(optional)]
    may: Option<Triple>,
    call: TextCall,
    rich: Vec<Rich>,
}
zoo_struct!(Strictly, st("Strictly", Shape::Map, None, vec![f("must", Triple::ty()), f("may", opt(Triple::ty())).opt(), f("call", TextCall::ty()),
    f("rich", <Vec<Rich>>::ty())]), { must: Triple, may: Option<Triple>, call: TextCall, rich: Vec<Rich> });

/// Releases of a record whose keys sort in every possible way.
pub fn rows() -> Vec<Entry> {
    vec![native::<OpenRow>("OpenRow", &[]), native::<LongRow>("LongRow", &[]), native::<OpenTuple>("OpenTuple", &[])]
}
pub fn family() -> Vec<Entry> {
    vec![native::<Keys>("Keys", &[]), native::<KeysOpen>("KeysOpen", &[]), native::<OptForms>("OptForms", &[])]
}

pub fn entries_list() -> Vec<Entry> {
    macro_rules! n {
        ($($t:ty),* $(,)?) => { vec![$(native::<$t>(stringify!($t), &[])),*] };
    }
    let mut out = n![
        Wide, WideRow, Signed, Rich, TupSkip, AllSkipped, EmbedsUnit, EmbedsDeep, EmbedsTagged, TagSkips, TransparentMap2, Strictly,
        Vec<Rich>, BTreeMap<Signed, Keys>, Option<Wide>, Vec<EmbedsUnit>, (Signed, Rich, TagSkips), BTreeMap<String, EmbedsDeep>, Vec<OptForms>,
        BTreeMap<Keys, u8>, Vec<(TextCall, Signed)>,
    ];
    out.push(native::<TextOwned>("TextOwned", &[text_ref]));
    out.push(native::<TextCall>("TextCall", &[call_ref]));
    out
}
