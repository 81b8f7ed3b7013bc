//! The types that travel through the simulated cluster.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

use oasis_cbor as cbor;
use oasis_cbor::Value;
use serde::{Deserialize, Serialize};

use crate::model::{M, NULL};
use crate::ty::{self, f, v, EnumDef, Field, Kind, Shape, StructDef, Ty, Variant, With, T, VM};
use crate::zoo::{enc_only, native, serde_entry, Entry, Hist, Zoo};
use crate::{zoo_enum, zoo_struct};

pub fn st(name: &'static str, shape: Shape, default: Option<fn() -> T>, fields: Vec<Field>) -> Ty {
    Ty::Struct(Arc::new(StructDef { name, shape, fields, default, allow_unknown: false }))
}
pub fn st_unknown(name: &'static str, shape: Shape, default: Option<fn() -> T>, fields: Vec<Field>) -> Ty {
    Ty::Struct(Arc::new(StructDef { name, shape, fields, default, allow_unknown: true }))
}
pub fn en(name: &'static str, variants: Vec<Variant>) -> Ty {
    Ty::Enum(Arc::new(EnumDef { name, tag: None, untagged: false, variants, default: None }))
}
pub fn en_tag(name: &'static str, tag: M, variants: Vec<Variant>) -> Ty {
    Ty::Enum(Arc::new(EnumDef { name, tag: Some(tag), untagged: false, variants, default: None }))
}
pub fn s(x: &str) -> T {
    T::S(x.to_string())
}
pub fn opt(t: Ty) -> Ty {
    Ty::Opt(Arc::new(t))
}

// ---- structs --------------------------------------------------------------------------------

#[derive(Debug, Default, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, cbor::Encode, cbor::Decode)]
pub struct Nested {
    foo: u64,
    bytes: Vec<u8>,
}
zoo_struct!(Nested, st("Nested", Shape::Map, Some(|| T::St(vec![T::U(0), T::Y(vec![])])),
    vec![f("foo", Ty::U(64)), f("bytes", Ty::Bytes)]), { foo: u64, bytes: Vec<u8> });

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct Record {
    foo: u64,
    bar: String,
    nested: Nested,
    #[cbor(optional)]
    optional: Option<bool>,
    always: Option<bool>,
    #[cbor(rename = "different")]
    renamed: bool,
}
zoo_struct!(Record, st("Record", Shape::Map,
    Some(|| T::St(vec![T::U(0), s(""), T::St(vec![T::U(0), T::Y(vec![])]), T::Non, T::Non, T::B(false)])),
    vec![f("foo", Ty::U(64)), f("bar", Ty::Str), f("nested", Nested::ty()), f("optional", opt(Ty::Bool)).opt(),
         f("always", opt(Ty::Bool)), f("different", Ty::Bool)]),
    { foo: u64, bar: String, nested: Nested, optional: Option<bool>, always: Option<bool>, renamed: bool });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(no_default)]
pub struct Triple(u64, String, bool);
zoo_struct!(Triple, st("Triple", Shape::Array, None, vec![f("0", Ty::U(64)), f("1", Ty::Str), f("2", Ty::Bool)]),
    { 0: u64, 1: String, 2: bool });

#[derive(Debug, Default, Clone, Eq, PartialEq, Hash, cbor::Encode, cbor::Decode)]
#[cbor(transparent)]
pub struct Transparent(u64);
zoo_struct!(Transparent, st("Transparent", Shape::Transparent, Some(|| T::St(vec![T::U(0)])), vec![f("0", Ty::U(64))]), { 0: u64 });

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(transparent)]
pub struct TransparentMap(BTreeMap<String, Vec<u8>>);
zoo_struct!(TransparentMap, st("TransparentMap", Shape::Transparent, Some(|| T::St(vec![T::Mp(vec![])])),
    vec![f("0", <BTreeMap<String, Vec<u8>>>::ty())]), { 0: BTreeMap<String, Vec<u8>> });

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct NonTransparent(u64);
zoo_struct!(NonTransparent, st("NonTransparent", Shape::Array, Some(|| T::St(vec![T::U(0)])), vec![f("0", Ty::U(64))]), { 0: u64 });

#[derive(Debug, Default, Clone, Eq, PartialEq, Ord, PartialOrd, cbor::Encode, cbor::Decode)]
pub struct Unit;
zoo_struct!(Unit, st("Unit", Shape::Unit, Some(|| T::St(vec![])), vec![]), {});

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct Empty {}
zoo_struct!(Empty, st("Empty", Shape::Map, Some(|| T::St(vec![])), vec![]), {});

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(as_array)]
pub struct AsArray {
    foo: u64,
    bytes: Vec<u8>,
    opt: Option<String>,
}
zoo_struct!(AsArray, st("AsArray", Shape::Array, Some(|| T::St(vec![T::U(0), T::Y(vec![]), T::Non])),
    vec![f("foo", Ty::U(64)), f("bytes", Ty::Bytes), f("opt", opt(Ty::Str))]), { foo: u64, bytes: Vec<u8>, opt: Option<String> });

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(as_array, allow_unknown)]
pub struct AsArrayOpen {
    a: i64,
    b: String,
}
zoo_struct!(AsArrayOpen, st_unknown("AsArrayOpen", Shape::Array, Some(|| T::St(vec![T::I(0), s("")])),
    vec![f("a", Ty::I(64)), f("b", Ty::Str)]), { a: i64, b: String });

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct AllOptional {
    #[cbor(optional)]
    u: u64,
    #[cbor(optional)]
    i: i32,
    #[cbor(optional)]
    big: u128,
    #[cbor(optional)]
    flag: bool,
    #[cbor(optional)]
    text: String,
    #[cbor(optional)]
    bytes: Vec<u8>,
    #[cbor(optional)]
    list: Vec<u64>,
    #[cbor(optional)]
    map: BTreeMap<u64, String>,
    #[cbor(optional)]
    set: BTreeSet<String>,
    #[cbor(optional)]
    pair: (u64, String),
    #[cbor(optional)]
    maybe: Option<u64>,
    #[cbor(optional)]
    nested: Nested,
    #[cbor(optional)]
    ch: char,
    #[cbor(optional)]
    hash: HashMap<String, u64>,
}
zoo_struct!(AllOptional, st("AllOptional", Shape::Map,
    Some(|| T::St(vec![T::U(0), T::I(0), T::U(0), T::B(false), s(""), T::Y(vec![]), T::L(vec![]), T::Mp(vec![]), T::L(vec![]),
        T::L(vec![T::U(0), s("")]), T::Non, T::St(vec![T::U(0), T::Y(vec![])]), T::C('\0'), T::Mp(vec![])])),
    vec![f("u", Ty::U(64)).opt(), f("i", Ty::I(32)).opt(), f("big", Ty::U128).opt(), f("flag", Ty::Bool).opt(), f("text", Ty::Str).opt(),
        f("bytes", Ty::Bytes).opt(), f("list", <Vec<u64>>::ty()).opt(), f("map", <BTreeMap<u64, String>>::ty()).opt(),
        f("set", <BTreeSet<String>>::ty()).opt(), f("pair", <(u64, String)>::ty()).opt(), f("maybe", opt(Ty::U(64))).opt(),
        f("nested", Nested::ty()).opt(), f("ch", Ty::Char).opt(), f("hash", <HashMap<String, u64>>::ty()).opt()]),
    { u: u64, i: i32, big: u128, flag: bool, text: String, bytes: Vec<u8>, list: Vec<u64>, map: BTreeMap<u64, String>,
      set: BTreeSet<String>, pair: (u64, String), maybe: Option<u64>, nested: Nested, ch: char, hash: HashMap<String, u64> });

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct OptNest {
    #[cbor(optional)]
    inner: AllOptional,
    #[cbor(optional)]
    unit: Unit,
    #[cbor(optional)]
    tr: Transparent,
    #[cbor(optional)]
    maybe: Option<Vec<u8>>,
}
zoo_struct!(OptNest, st("OptNest", Shape::Map,
    Some(|| T::St(vec![ty::default(&AllOptional::ty()).unwrap(), T::St(vec![]), T::St(vec![T::U(0)]), T::Non])),
    vec![f("inner", AllOptional::ty()).opt(), f("unit", Unit::ty()).opt(), f("tr", Transparent::ty()).opt(), f("maybe", opt(Ty::Bytes)).opt()]),
    { inner: AllOptional, unit: Unit, tr: Transparent, maybe: Option<Vec<u8>> });

pub fn odd(n: &u64) -> bool {
    n % 2 == 1
}
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct Skips {
    #[cbor(skip)]
    cached: u64,
    a: u32,
    #[cbor(optional, skip_serializing_if = "String::is_empty")]
    name: String,
    #[cbor(skip)]
    note: String,
    z: bool,
    #[cbor(optional, skip_serializing_if = "Vec::is_empty")]
    items: Vec<Nested>,
}
zoo_struct!(Skips, st("Skips", Shape::Map,
    Some(|| T::St(vec![T::U(0), T::U(0), s(""), s(""), T::B(false), T::L(vec![])])),
    vec![f("cached", Ty::U(64)).skip(T::U(0)), f("a", Ty::U(32)),
        f("name", Ty::Str).skip_if(|t| *t == T::S(String::new())), f("note", Ty::Str).skip(T::S(String::new())), f("z", Ty::Bool),
        f("items", <Vec<Nested>>::ty()).skip_if(|t| *t == T::L(vec![]))]),
    { cached: u64, a: u32, name: String, note: String, z: bool, items: Vec<Nested> });

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(as_array)]
pub struct SkipsArray {
    a: u32,
    #[cbor(skip)]
    cached: u64,
    b: String,
}
zoo_struct!(SkipsArray, st("SkipsArray", Shape::Array, Some(|| T::St(vec![T::U(0), T::U(0), s("")])),
    vec![f("a", Ty::U(32)), f("cached", Ty::U(64)).skip(T::U(0)), f("b", Ty::Str)]), { a: u32, cached: u64, b: String });

/// A type without Encode/Decode of its own.
#[derive(Debug, Default, Clone, Eq, PartialEq)]
pub struct Custom(String);
impl Custom {
    fn as_str(&self) -> &str {
        self.0.as_str()
    }
}
impl Zoo for Custom {
    fn ty() -> Ty {
        Ty::Str
    }
    fn to_tree(&self) -> T {
        T::S(self.0.clone())
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        Custom(String::from_tree(t, h))
    }
}
fn decode_custom(x: String) -> Result<Custom, cbor::DecodeError> {
    if x.starts_with('!') {
        return Err(cbor::DecodeError::UnexpectedType);
    }
    Ok(Custom(x))
}
pub fn times_two(n: &u64) -> u128 {
    *n as u128 * 2
}
pub fn halve(n: u128) -> Result<u64, cbor::DecodeError> {
    if n % 2 == 1 || n / 2 > u64::MAX as u128 {
        return Err(cbor::DecodeError::UnexpectedIntegerSize);
    }
    Ok((n / 2) as u64)
}
fn w_custom() -> With {
    With {
        enc_ty: Ty::Str,
        enc: |t| t.clone(),
        dec_ty: Ty::Str,
        dec: |t| match &t {
            T::S(x) if x.starts_with('!') => None,
            _ => Some(t),
        },
    }
}
pub fn w_two() -> With {
    With {
        enc_ty: Ty::U128,
        enc: |t| match t {
            T::U(n) => T::U(n * 2),
            t => t.clone(),
        },
        dec_ty: Ty::U128,
        dec: |t| match t {
            T::U(n) if n % 2 == 0 && n / 2 <= u64::MAX as u128 => Some(T::U(n / 2)),
            _ => None,
        },
    }
}
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct WithFns {
    #[cbor(serialize_with = "Custom::as_str", deserialize_with = "decode_custom")]
    foo: Custom,
    #[cbor(serialize_with = "times_two", deserialize_with = "halve")]
    n: u64,
    #[cbor(optional, serialize_with = "times_two", deserialize_with = "halve", rename = "opt")]
    o: u64,
    #[cbor(optional, skip_serializing_if = "odd")]
    p: u64,
}
zoo_struct!(WithFns, st("WithFns", Shape::Map, Some(|| T::St(vec![s(""), T::U(0), T::U(0), T::U(0)])),
    vec![f("foo", Ty::Str).with(w_custom()), f("n", Ty::U(64)).with(w_two()), f("opt", Ty::U(64)).opt().with(w_two()),
         f("p", Ty::U(64)).skip_if(|t| matches!(t, T::U(n) if n % 2 == 1))]),
    { foo: Custom, n: u64, o: u64, p: u64 });

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(as_array)]
pub struct WithFnsArray {
    #[cbor(serialize_with = "Custom::as_str", deserialize_with = "decode_custom")]
    foo: Custom,
    #[cbor(serialize_with = "times_two", deserialize_with = "halve")]
    n: u64,
}
zoo_struct!(WithFnsArray, st("WithFnsArray", Shape::Array, Some(|| T::St(vec![s(""), T::U(0)])),
    vec![f("foo", Ty::Str).with(w_custom()), f("n", Ty::U(64)).with(w_two())]), { foo: Custom, n: u64 });

/// Declaration order differs from every sensible key order; keys of mixed kinds.
#[derive(Debug, Default, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, cbor::Encode, cbor::Decode)]
pub struct Order {
    second: u64,
    first: u64,
    thirdd: u64,
    a: u8,
    #[cbor(rename = 300)]
    big: u8,
    #[cbor(rename = 7)]
    small: u8,
    #[cbor(rename = 24)]
    mid: u8,
}
zoo_struct!(Order, st("Order", Shape::Map, Some(|| T::St(vec![T::U(0); 7])),
    vec![f("second", Ty::U(64)), f("first", Ty::U(64)), f("thirdd", Ty::U(64)), f("a", Ty::U(8)), f("", Ty::U(8)).key(300),
         f("", Ty::U(8)).key(7), f("", Ty::U(8)).key(24)]),
    { second: u64, first: u64, thirdd: u64, a: u8, big: u8, small: u8, mid: u8 });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct CustomDefault {
    a: u64,
    b: String,
}
impl Default for CustomDefault {
    fn default() -> Self {
        CustomDefault { a: 42, b: "dflt".into() }
    }
}
zoo_struct!(CustomDefault, st("CustomDefault", Shape::Map, Some(|| T::St(vec![T::U(42), s("dflt")])),
    vec![f("a", Ty::U(64)), f("b", Ty::Str)]), { a: u64, b: String });

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct HoldsDefaults {
    c: CustomDefault,
    #[cbor(optional)]
    d: Option<CustomDefault>,
    e: E3,
    mode: Mode,
}
zoo_struct!(HoldsDefaults, st("HoldsDefaults", Shape::Map,
    Some(|| T::St(vec![T::St(vec![T::U(42), s("dflt")]), T::Non, ty::default(&E3::ty()).unwrap(), T::En(0, vec![])])),
    vec![f("c", CustomDefault::ty()), f("d", opt(CustomDefault::ty())).opt(), f("e", E3::ty()), f("mode", Mode::ty())]),
    { c: CustomDefault, d: Option<CustomDefault>, e: E3, mode: Mode });

/// Maps of many forms in one struct.
#[derive(Debug, Default, Clone, PartialEq, cbor::Encode, cbor::Decode)]
pub struct Ledger {
    accounts: HashMap<[u8; 4], u128>,
    names: HashMap<String, Nested>,
    index: BTreeMap<u64, HashSet<String>>,
    tags: HashSet<i64>,
    blob: Vec<u8>,
    meta: ValueBox,
}
impl Default for ValueBox {
    fn default() -> Self {
        ValueBox(Value::Simple(cbor::SimpleValue::NullValue))
    }
}
#[derive(Debug, Clone, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(transparent)]
pub struct ValueBox(Value);
zoo_struct!(ValueBox, st("ValueBox", Shape::Transparent, Some(|| T::St(vec![T::V(VM(NULL))])), vec![f("0", Ty::Value)]), { 0: Value });

// Value has no Default, so the field is wrapped by hand-written impls where one is needed.
#[derive(Debug, Clone, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(no_default)]
pub struct Envelope {
    #[cbor(rename = "id")]
    ident: u64,
    body: Value,
    #[cbor(optional)]
    sig: Option<Vec<u8>>,
    hops: Vec<(u8, String)>,
}
zoo_struct!(Envelope, st("Envelope", Shape::Map, None,
    vec![f("id", Ty::U(64)), f("body", Ty::Value), f("sig", opt(Ty::Bytes)).opt(), f("hops", <Vec<(u8, String)>>::ty())]),
    { ident: u64, body: Value, sig: Option<Vec<u8>>, hops: Vec<(u8, String)> });

// ---- enums ----------------------------------------------------------------------------------

#[derive(Debug, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, cbor::Encode, cbor::Decode)]
#[cbor(with_default)]
pub enum Mode {
    One = 1,
    Two = 2,
    Three = 300,
    Four,
    #[cbor(rename = "five")]
    Five,
}
impl Default for Mode {
    fn default() -> Self {
        Self::One
    }
}
zoo_enum!(Mode, Ty::Enum(Arc::new(EnumDef { name: "Mode", tag: None, untagged: false, default: Some(|| T::En(0, vec![])), variants: vec![
    v("One", Kind::Unit, vec![]).disc(1), v("Two", Kind::Unit, vec![]).disc(2), v("Three", Kind::Unit, vec![]).disc(300),
    v("Four", Kind::Unit, vec![]), v("five", Kind::Unit, vec![])] })),
    { 0 => One {}, 1 => Two {}, 2 => Three {}, 3 => Four {}, 4 => Five {} });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub enum Action {
    One,
    Two(u64),
    Three(u64, u64),
    #[cbor(rename = "four")]
    Four {
        foo: u64,
        #[cbor(rename = "ren")]
        bar: String,
        nested: Nested,
    },
    #[cbor(as_array)]
    Five { a: u64, b: String },
    #[cbor(allow_unknown)]
    Six { a: u64 },
    Seven(Option<u64>),
    Eight(Vec<u8>),
    #[cbor(skip)]
    Hidden,
    #[cbor(as_struct)]
    Nine,
    Ten(BTreeMap<String, u64>),
}
zoo_enum!(Action, en("Action", vec![
    v("One", Kind::Unit, vec![]), v("Two", Kind::Newtype, vec![f("0", Ty::U(64))]),
    v("Three", Kind::Array, vec![f("0", Ty::U(64)), f("1", Ty::U(64))]),
    v("four", Kind::Map, vec![f("foo", Ty::U(64)), f("ren", Ty::Str), f("nested", Nested::ty())]),
    v("Five", Kind::Array, vec![f("a", Ty::U(64)), f("b", Ty::Str)]),
    v("Six", Kind::Map, vec![f("a", Ty::U(64))]).unknown(),
    v("Seven", Kind::Newtype, vec![f("0", opt(Ty::U(64)))]),
    v("Eight", Kind::Newtype, vec![f("0", Ty::Bytes)]),
    v("Hidden", Kind::Unit, vec![]).skip(),
    v("Nine", Kind::UnitStruct, vec![]),
    v("Ten", Kind::Newtype, vec![f("0", <BTreeMap<String, u64>>::ty())])]),
    { 0 => One {}, 1 => Two { 0: a as u64 }, 2 => Three { 0: a as u64, 1: b as u64 },
      3 => Four { foo: a as u64, bar: b as String, nested: c as Nested }, 4 => Five { a: a as u64, b: b as String },
      5 => Six { a: a as u64 }, 6 => Seven { 0: a as Option<u64> }, 7 => Eight { 0: a as Vec<u8> }, 8 => Hidden {}, 9 => Nine {},
      10 => Ten { 0: a as BTreeMap<String, u64> } });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub enum IntKeys {
    #[cbor(rename = 1)]
    One(u64, u64),
    #[cbor(rename = 2)]
    Two,
    #[cbor(rename = 3)]
    Three {
        #[cbor(rename = 9)]
        foo: u64,
        #[cbor(rename = 1)]
        bar: String,
    },
    #[cbor(rename = 400)]
    Four(String),
}
zoo_enum!(IntKeys, en("IntKeys", vec![
    v("", Kind::Array, vec![f("0", Ty::U(64)), f("1", Ty::U(64))]).key(1), v("", Kind::Unit, vec![]).key(2),
    v("", Kind::Map, vec![f("", Ty::U(64)).key(9), f("", Ty::Str).key(1)]).key(3),
    v("", Kind::Newtype, vec![f("0", Ty::Str)]).key(400)]),
    { 0 => One { 0: a as u64, 1: b as u64 }, 1 => Two {}, 2 => Three { foo: a as u64, bar: b as String }, 3 => Four { 0: a as String } });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(tag = "v")]
pub enum Tagged {
    #[cbor(rename = 0, missing)]
    V0 { a: u64 },
    #[cbor(rename = 1)]
    V1 { a: u64, b: String },
    #[cbor(rename = 2, allow_unknown)]
    V2 {
        a: u64,
        #[cbor(optional)]
        zz: Option<u64>,
    },
    #[cbor(rename = 3)]
    V3(Nested),
    #[cbor(rename = 4)]
    V4,
}
zoo_enum!(Tagged, en_tag("Tagged", M::t("v"), vec![
    v("", Kind::Map, vec![f("a", Ty::U(64))]).key(0).missing(), v("", Kind::Map, vec![f("a", Ty::U(64)), f("b", Ty::Str)]).key(1),
    v("", Kind::Map, vec![f("a", Ty::U(64)), f("zz", opt(Ty::U(64))).opt()]).key(2).unknown(),
    v("", Kind::Newtype, vec![f("0", Nested::ty())]).key(3), v("", Kind::Unit, vec![]).key(4)]),
    { 0 => V0 { a: a as u64 }, 1 => V1 { a: a as u64, b: b as String }, 2 => V2 { a: a as u64, zz: z as Option<u64> },
      3 => V3 { 0: n as Nested }, 4 => V4 {} });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(tag = 1)]
pub enum TaggedNamed {
    Alpha {
        x: i64,
        #[cbor(rename = 0)]
        y: i64,
    },
    Beta {
        x: String,
    },
    Gamma(BTreeMap<u64, u64>),
}
zoo_enum!(TaggedNamed, en_tag("TaggedNamed", M::U(1), vec![
    v("Alpha", Kind::Map, vec![f("x", Ty::I(64)), f("", Ty::I(64)).key(0)]), v("Beta", Kind::Map, vec![f("x", Ty::Str)]),
    v("Gamma", Kind::Newtype, vec![f("0", <BTreeMap<u64, u64>>::ty())])]),
    { 0 => Alpha { x: x as i64, y: y as i64 }, 1 => Beta { x: x as String }, 2 => Gamma { 0: x as BTreeMap<u64, u64> } });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub enum Embeds {
    Zero,
    Own { a: u64 },
    #[cbor(embed)]
    Act(IntKeys),
    #[cbor(embed)]
    Rec(EmbeddedCall),
}
#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub enum EmbeddedCall {
    Ping,
    Call(String, u64),
}
zoo_enum!(EmbeddedCall, en("EmbeddedCall", vec![v("Ping", Kind::Unit, vec![]), v("Call", Kind::Array, vec![f("0", Ty::Str), f("1", Ty::U(64))])]),
    { 0 => Ping {}, 1 => Call { 0: a as String, 1: b as u64 } });
zoo_enum!(Embeds, en("Embeds", vec![v("Zero", Kind::Unit, vec![]), v("Own", Kind::Map, vec![f("a", Ty::U(64))]),
    v("Act", Kind::Newtype, vec![f("0", IntKeys::ty())]).embed(), v("Rec", Kind::Newtype, vec![f("0", EmbeddedCall::ty())]).embed()]),
    { 0 => Zero {}, 1 => Own { a: a as u64 }, 2 => Act { 0: a as IntKeys }, 3 => Rec { 0: a as EmbeddedCall } });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode)]
#[cbor(untagged)]
pub enum Untagged {
    First { a: u64, b: u64 },
    Second(String),
    Third(u64, Vec<u8>),
}
zoo_enum!(Untagged, Ty::Enum(Arc::new(EnumDef { name: "Untagged", tag: None, untagged: true, default: None, variants: vec![
    v("First", Kind::Map, vec![f("a", Ty::U(64)), f("b", Ty::U(64))]), v("Second", Kind::Newtype, vec![f("0", Ty::Str)]),
    v("Third", Kind::Array, vec![f("0", Ty::U(64)), f("1", Ty::Bytes)])] })),
    { 0 => First { a: a as u64, b: b as u64 }, 1 => Second { 0: a as String }, 2 => Third { 0: a as u64, 1: b as Vec<u8> } });

/// Struct with a non-trivial enum default.
#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(with_default)]
pub enum E3 {
    A { x: u64 },
    B(String),
}
impl Default for E3 {
    fn default() -> Self {
        E3::A { x: 7 }
    }
}
zoo_enum!(E3, Ty::Enum(Arc::new(EnumDef { name: "E3", tag: None, untagged: false, default: Some(|| T::En(0, vec![T::U(7)])), variants: vec![
    v("A", Kind::Map, vec![f("x", Ty::U(64))]), v("B", Kind::Newtype, vec![f("0", Ty::Str)])] })),
    { 0 => A { x: a as u64 }, 1 => B { 0: a as String } });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub enum Tree {
    Leaf(u64),
    Node(Vec<Tree>),
    Named { key: String, left: Box2, right: Box2 },
}
/// The library has no impl for Box, so recursion goes through a vector of at most one element.
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct Box2 {
    child: Vec<Tree>,
}
fn tree_ty() -> Ty {
    en("Tree", vec![v("Leaf", Kind::Newtype, vec![f("0", Ty::U(64))]), v("Node", Kind::Newtype, vec![f("0", Ty::Vec(Arc::new(Ty::Rec(tree_ty))))]),
        v("Named", Kind::Map, vec![f("key", Ty::Str), f("left", Ty::Rec(box_ty)), f("right", Ty::Rec(box_ty))])])
}
fn box_ty() -> Ty {
    st("Box2", Shape::Map, Some(|| T::St(vec![T::L(vec![])])), vec![f("child", Ty::Vec(Arc::new(Ty::Rec(tree_ty))))])
}
zoo_enum!(Tree, tree_ty(), { 0 => Leaf { 0: a as u64 }, 1 => Node { 0: a as Vec<Tree> },
    2 => Named { key: k as String, left: l as Box2, right: r as Box2 } });
zoo_struct!(Box2, box_ty(), { child: Vec<Tree> });

// Ledger holds a Value, which has no Default; give the struct its own.
zoo_struct!(Ledger, st("Ledger", Shape::Map,
    Some(|| T::St(vec![T::Mp(vec![]), T::Mp(vec![]), T::Mp(vec![]), T::L(vec![]), T::Y(vec![]), T::St(vec![T::V(VM(NULL))])])),
    vec![f("accounts", <HashMap<[u8; 4], u128>>::ty()), f("names", <HashMap<String, Nested>>::ty()),
        f("index", <BTreeMap<u64, HashSet<String>>>::ty()), f("tags", <HashSet<i64>>::ty()), f("blob", Ty::Bytes), f("meta", ValueBox::ty())]),
    { accounts: HashMap<[u8; 4], u128>, names: HashMap<String, Nested>, index: BTreeMap<u64, HashSet<String>>, tags: HashSet<i64>, blob: Vec<u8>, meta: ValueBox });

// ---- generics and lifetimes -------------------------------------------------------------------

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct Generic<X>
where
    X: cbor::Encode + cbor::Decode + Default,
{
    inner: X,
    list: Vec<X>,
}
fn generic_default<X: Zoo + Default>() -> T {
    T::St(vec![X::default().to_tree(), Vec::<X>::new().to_tree()])
}
impl<X: Zoo + cbor::Encode + cbor::Decode + Default> Zoo for Generic<X> {
    fn ty() -> Ty {
        st("Generic", Shape::Map, Some(generic_default::<X>), vec![f("inner", X::ty()), f("list", X::vec_ty())])
    }
    fn to_tree(&self) -> T {
        T::St(vec![self.inner.to_tree(), self.list.to_tree()])
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        match t {
            T::St(xs) => Generic { inner: X::from_tree(&xs[0], h), list: Zoo::from_tree(&xs[1], h) },
            t => panic!("harness: {t:?}"),
        }
    }
}

// ---- version families -------------------------------------------------------------------------
// Each family is one record type as known to consecutive releases.

macro_rules! account_versions { () => {
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct AccountV1 { id: u64, name: String }
zoo_struct!(AccountV1, st("AccountV1", Shape::Map, Some(|| T::St(vec![T::U(0), s("")])), vec![f("id", Ty::U(64)), f("name", Ty::Str)]), { id: u64, name: String });

/// Adds fields sorting before, between and after the old ones.
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct AccountV2 { id: u64, name: String, #[cbor(optional)] a: Option<u64>, #[cbor(optional)] memo: String, zebra_stripes: Vec<u8> }
zoo_struct!(AccountV2, st("AccountV2", Shape::Map, Some(|| T::St(vec![T::U(0), s(""), T::Non, s(""), T::Y(vec![])])),
    vec![f("id", Ty::U(64)), f("name", Ty::Str), f("a", opt(Ty::U(64))).opt(), f("memo", Ty::Str).opt(), f("zebra_stripes", Ty::Bytes)]),
    { id: u64, name: String, a: Option<u64>, memo: String, zebra_stripes: Vec<u8> });

/// Tolerant reader of everything.
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(allow_unknown)]
pub struct AccountV3 { name: String, #[cbor(optional)] memo: String, #[cbor(rename = "zz")] last: u8 }
zoo_struct!(AccountV3, st_unknown("AccountV3", Shape::Map, Some(|| T::St(vec![s(""), s(""), T::U(0)])),
    vec![f("name", Ty::Str), f("memo", Ty::Str).opt(), f("zz", Ty::U(8))]), { name: String, memo: String, last: u8 });

/// A field without a default, integer keys.
#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(no_default)]
pub struct AccountV4 { name: String, key: [u64; 2], #[cbor(rename = 1)] one: u64, #[cbor(rename = 500)] five: i64 }
zoo_struct!(AccountV4, st("AccountV4", Shape::Map, None, vec![f("name", Ty::Str), f("key", <[u64; 2]>::ty()), f("", Ty::U(64)).key(1), f("", Ty::I(64)).key(500)]),
    { name: String, key: [u64; 2], one: u64, five: i64 });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(no_default, allow_unknown)]
pub struct AccountV5 { #[cbor(rename = 500)] five: i64, #[cbor(optional)] id: u64, when: Mode, #[cbor(optional)] missing_one: Option<Nested> }
zoo_struct!(AccountV5, st_unknown("AccountV5", Shape::Map, None, vec![f("", Ty::I(64)).key(500), f("id", Ty::U(64)).opt(), f("when", Mode::ty()), f("missing_one", opt(Nested::ty())).opt()]),
    { five: i64, id: u64, when: Mode, missing_one: Option<Nested> });
}; }
account_versions!();

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub enum CallV1 {
    Ping,
    Send { to: Vec<u8>, amount: u64 },
}
zoo_enum!(CallV1, en("CallV1", vec![v("Ping", Kind::Unit, vec![]), v("Send", Kind::Map, vec![f("to", Ty::Bytes), f("amount", Ty::U(64))])]),
    { 0 => Ping {}, 1 => Send { to: a as Vec<u8>, amount: b as u64 } });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub enum CallV2 {
    Ping,
    Send {
        to: Vec<u8>,
        amount: u64,
        #[cbor(optional)]
        fee: u64,
        #[cbor(optional)]
        a: Option<String>,
    },
    Burn(u64),
    #[cbor(rename = 2)]
    Pong,
}
zoo_enum!(CallV2, en("CallV2", vec![v("Ping", Kind::Unit, vec![]),
    v("Send", Kind::Map, vec![f("to", Ty::Bytes), f("amount", Ty::U(64)), f("fee", Ty::U(64)).opt(), f("a", opt(Ty::Str)).opt()]),
    v("Burn", Kind::Newtype, vec![f("0", Ty::U(64))]), v("", Kind::Unit, vec![]).key(2)]),
    { 0 => Ping {}, 1 => Send { to: a as Vec<u8>, amount: b as u64, fee: c as u64, a: d as Option<String> }, 2 => Burn { 0: a as u64 }, 3 => Pong {} });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub enum CallV3 {
    #[cbor(rename = "Ping")]
    Echo,
    #[cbor(allow_unknown)]
    Send { to: Vec<u8>, amount: u64 },
    #[cbor(rename = "Burn")]
    Destroy(u128),
}
zoo_enum!(CallV3, en("CallV3", vec![v("Ping", Kind::Unit, vec![]), v("Send", Kind::Map, vec![f("to", Ty::Bytes), f("amount", Ty::U(64))]).unknown(),
    v("Burn", Kind::Newtype, vec![f("0", Ty::U128)])]),
    { 0 => Echo {}, 1 => Send { to: a as Vec<u8>, amount: b as u64 }, 2 => Destroy { 0: a as u128 } });

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct StateV0 {
    balance: u64,
}
zoo_struct!(StateV0, st("StateV0", Shape::Map, Some(|| T::St(vec![T::U(0)])), vec![f("balance", Ty::U(64))]), { balance: u64 });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(tag = "v")]
pub enum StateV1 {
    #[cbor(rename = 0, missing)]
    V0 { balance: u64 },
    #[cbor(rename = 1)]
    V1 { balance: u128, #[cbor(optional)] nonce: u64 },
}
zoo_enum!(StateV1, en_tag("StateV1", M::t("v"), vec![v("", Kind::Map, vec![f("balance", Ty::U(64))]).key(0).missing(),
    v("", Kind::Map, vec![f("balance", Ty::U128), f("nonce", Ty::U(64)).opt()]).key(1)]),
    { 0 => V0 { balance: a as u64 }, 1 => V1 { balance: a as u128, nonce: b as u64 } });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(tag = "v")]
pub enum StateV2 {
    #[cbor(rename = 0, missing, allow_unknown)]
    V0 { #[cbor(optional)] extra: Option<u64>, balance: u64 },
    #[cbor(rename = 1, allow_unknown)]
    V1 { balance: u128 },
    #[cbor(rename = 2)]
    V2 { balance: u128, accounts: BTreeMap<Vec<u8>, u64> },
}
zoo_enum!(StateV2, en_tag("StateV2", M::t("v"), vec![v("", Kind::Map, vec![f("extra", opt(Ty::U(64))).opt(), f("balance", Ty::U(64))]).key(0).missing().unknown(),
    v("", Kind::Map, vec![f("balance", Ty::U128)]).key(1).unknown(),
    v("", Kind::Map, vec![f("balance", Ty::U128), f("accounts", <BTreeMap<Vec<u8>, u64>>::ty())]).key(2)]),
    { 0 => V0 { extra: e as Option<u64>, balance: a as u64 }, 1 => V1 { balance: a as u128 }, 2 => V2 { balance: a as u128, accounts: b as BTreeMap<Vec<u8>, u64> } });

#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(as_array)]
pub struct RowV1 { a: u64, b: String }
zoo_struct!(RowV1, st("RowV1", Shape::Array, Some(|| T::St(vec![T::U(0), s("")])), vec![f("a", Ty::U(64)), f("b", Ty::Str)]), { a: u64, b: String });
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(as_array)]
pub struct RowV2 { a: u64, b: String, c: Option<u64> }
zoo_struct!(RowV2, st("RowV2", Shape::Array, Some(|| T::St(vec![T::U(0), s(""), T::Non])), vec![f("a", Ty::U(64)), f("b", Ty::Str), f("c", opt(Ty::U(64)))]), { a: u64, b: String, c: Option<u64> });
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
#[cbor(as_array, allow_unknown)]
pub struct RowV3 { a: u64 }
zoo_struct!(RowV3, st_unknown("RowV3", Shape::Array, Some(|| T::St(vec![T::U(0)])), vec![f("a", Ty::U(64))]), { a: u64 });

/// Versions nested in containers.
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct BookV1 { owner: AccountV1, others: Vec<AccountV1>, #[cbor(optional)] by: BTreeMap<String, AccountV1> }
zoo_struct!(BookV1, st("BookV1", Shape::Map, Some(|| T::St(vec![T::St(vec![T::U(0), s("")]), T::L(vec![]), T::Mp(vec![])])),
    vec![f("owner", AccountV1::ty()), f("others", <Vec<AccountV1>>::ty()), f("by", <BTreeMap<String, AccountV1>>::ty()).opt()]),
    { owner: AccountV1, others: Vec<AccountV1>, by: BTreeMap<String, AccountV1> });
#[derive(Debug, Default, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub struct BookV2 { owner: AccountV2, others: Vec<AccountV3>, #[cbor(optional)] by: BTreeMap<String, AccountV3> }
zoo_struct!(BookV2, st("BookV2", Shape::Map,
    Some(|| T::St(vec![T::St(vec![T::U(0), s(""), T::Non, s(""), T::Y(vec![])]), T::L(vec![]), T::Mp(vec![])])),
    vec![f("owner", AccountV2::ty()), f("others", <Vec<AccountV3>>::ty()), f("by", <BTreeMap<String, AccountV3>>::ty()).opt()]),
    { owner: AccountV2, others: Vec<AccountV3>, by: BTreeMap<String, AccountV3> });

// ---- serde ------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct SRecord {
    id: u64,
    name: String,
    delta: i64,
    small: i8,
    flag: bool,
    maybe: Option<u32>,
    list: Vec<i32>,
    pair: (u8, String),
    ch: char,
    #[serde(rename = "r-e")]
    renamed: u16,
}
zoo_struct!(SRecord, st("SRecord", Shape::Map, None, vec![f("id", Ty::U(64)), f("name", Ty::Str), f("delta", Ty::I(64)), f("small", Ty::I(8)),
    f("flag", Ty::Bool), f("maybe", opt(Ty::U(32))), f("list", <Vec<i32>>::ty()), f("pair", <(u8, String)>::ty()), f("ch", Ty::Char), f("r-e", Ty::U(16))]),
    { id: u64, name: String, delta: i64, small: i8, flag: bool, maybe: Option<u32>, list: Vec<i32>, pair: (u8, String), ch: char, renamed: u16 });

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct SNew(u64);
zoo_struct!(SNew, st("SNew", Shape::Array, None, vec![f("0", Ty::U(64))]), { 0: u64 });
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct STuple(u64, String, Option<i16>);
zoo_struct!(STuple, st("STuple", Shape::Array, None, vec![f("0", Ty::U(64)), f("1", Ty::Str), f("2", opt(Ty::I(16)))]), { 0: u64, 1: String, 2: Option<i16> });
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct SUnit;
zoo_struct!(SUnit, st("SUnit", Shape::Unit, None, vec![]), {});

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum SEnum {
    A,
    B(u64),
    C(String, i32),
    D { x: i64, y: Option<String> },
    E(Option<u64>),
    F(SNew),
}
zoo_enum!(SEnum, en("SEnum", vec![v("A", Kind::Unit, vec![]), v("B", Kind::Newtype, vec![f("0", Ty::U(64))]),
    v("C", Kind::Array, vec![f("0", Ty::Str), f("1", Ty::I(32))]), v("D", Kind::Map, vec![f("x", Ty::I(64)), f("y", opt(Ty::Str))]),
    v("E", Kind::Newtype, vec![f("0", opt(Ty::U(64)))]), v("F", Kind::Newtype, vec![f("0", SNew::ty())])]),
    { 0 => A {}, 1 => B { 0: a as u64 }, 2 => C { 0: a as String, 1: b as i32 }, 3 => D { x: x as i64, y: y as Option<String> },
      4 => E { 0: a as Option<u64> }, 5 => F { 0: a as SNew } });

/// Bytes through serde.
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(transparent)]
pub struct SBytes(#[serde(with = "serde_bytes")] Vec<u8>);
impl Zoo for SBytes {
    fn ty() -> Ty {
        Ty::Bytes
    }
    fn to_tree(&self) -> T {
        T::Y(self.0.clone())
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        SBytes(Zoo::from_tree(t, h))
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct SLedger {
    accounts: HashMap<String, u64>,
    ordered: BTreeMap<u64, SBytes>,
    nested: Vec<SEnum>,
    pos: (i64, SNew, SUnit),
    #[serde(skip_serializing_if = "Option::is_none", default)]
    extra: Option<Box<STuple>>,
    by_key: HashMap<SNew, BTreeMap<String, i64>>,
}
zoo_struct!(SLedger, st("SLedger", Shape::Map, None, vec![f("accounts", <HashMap<String, u64>>::ty()), f("ordered", <BTreeMap<u64, SBytes>>::ty()),
    f("nested", <Vec<SEnum>>::ty()), f("pos", <(i64, SNew, SUnit)>::ty()), f("extra", opt(STuple::ty())).skip_if(|t| *t == T::Non),
    f("by_key", <HashMap<SNew, BTreeMap<String, i64>>>::ty())]),
    { accounts: HashMap<String, u64>, ordered: BTreeMap<u64, SBytes>, nested: Vec<SEnum>, pos: (i64, SNew, SUnit), extra: Option<Box<STuple>>,
      by_key: HashMap<SNew, BTreeMap<String, i64>> });

/// A self-describing item through serde: records exactly what the layer shows a visitor.
#[derive(Debug, Clone, PartialEq)]
pub struct AnyItem(M);
impl Zoo for AnyItem {
    fn ty() -> Ty {
        Ty::Value
    }
    fn to_tree(&self) -> T {
        T::V(VM(self.0.sorted()))
    }
    fn from_tree(t: &T, h: &mut Hist) -> Self {
        match t {
            T::V(m) => AnyItem(crate::zoo::shuffle(&m.0, h)),
            t => panic!("harness: {t:?}"),
        }
    }
}
impl Serialize for AnyItem {
    fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        match &self.0 {
            M::U(n) => ser.serialize_u64(*n),
            M::N(n) if *n <= i64::MAX as u64 => ser.serialize_i64(-1 - *n as i64),
            M::N(_) | M::Tag(..) => Err(serde::ser::Error::custom("not expressible")),
            M::B(b) => ser.serialize_bytes(b),
            M::T(t) => ser.serialize_str(t),
            M::A(v) => {
                let mut q = ser.serialize_seq(Some(v.len()))?;
                for x in v {
                    q.serialize_element(&AnyItem(x.clone()))?;
                }
                q.end()
            }
            M::Map(v) => {
                let mut q = ser.serialize_map(Some(v.len()))?;
                for (a, b) in v {
                    q.serialize_entry(&AnyItem(a.clone()), &AnyItem(b.clone()))?;
                }
                q.end()
            }
            M::S(20) => ser.serialize_bool(false),
            M::S(21) => ser.serialize_bool(true),
            M::S(_) => ser.serialize_unit(),
        }
    }
}
impl<'de> Deserialize<'de> for AnyItem {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis;
        impl<'de> serde::de::Visitor<'de> for Vis {
            type Value = AnyItem;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_u64<E>(self, n: u64) -> Result<AnyItem, E> {
                Ok(AnyItem(M::U(n)))
            }
            fn visit_i64<E>(self, n: i64) -> Result<AnyItem, E> {
                Ok(AnyItem(M::int(n as i128)))
            }
            fn visit_i128<E: serde::de::Error>(self, n: i128) -> Result<AnyItem, E> {
                if n >= 0 || -1 - n > u64::MAX as i128 {
                    return Err(E::custom("out of range"));
                }
                Ok(AnyItem(M::N((-1 - n) as u64)))
            }
            fn visit_bool<E>(self, b: bool) -> Result<AnyItem, E> {
                Ok(AnyItem(M::S(if b { 21 } else { 20 })))
            }
            fn visit_unit<E>(self) -> Result<AnyItem, E> {
                Ok(AnyItem(NULL))
            }
            fn visit_str<E>(self, x: &str) -> Result<AnyItem, E> {
                Ok(AnyItem(M::t(x)))
            }
            fn visit_bytes<E>(self, b: &[u8]) -> Result<AnyItem, E> {
                Ok(AnyItem(M::B(b.to_vec())))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<AnyItem, A::Error> {
                let mut v = vec![];
                while let Some(AnyItem(x)) = a.next_element()? {
                    v.push(x);
                }
                Ok(AnyItem(M::A(v)))
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<AnyItem, A::Error> {
                let mut v = vec![];
                while let Some((AnyItem(k), AnyItem(x))) = a.next_entry()? {
                    v.push((k, x));
                }
                Ok(AnyItem(M::Map(v)))
            }
        }
        d.deserialize_any(Vis)
    }
}

// ---- the registry -----------------------------------------------------------------------------

pub struct Registry {
    pub all: Vec<Entry>,
    /// Entries whose canonical form depends on hash-ordered containers.
    pub hashed: Vec<usize>,
    pub serde: Vec<usize>,
    pub families: Vec<Vec<usize>>,
    /// Index of the generic value entry.
    pub generic: usize,
    pub any_item: usize,
    /// Entries whose records nest arbitrarily deep.
    pub recursive: Vec<usize>,
    /// Entries whose values run user code.
    pub cb: Vec<usize>,
    /// Entries with fixed-length sequences of elements that own memory.
    pub rows: Vec<usize>,
    /// Entries with codecs written by hand with the macros.
    pub hand: Vec<usize>,
}

fn has_hash(ty: &Ty, depth: usize) -> bool {
    if depth == 0 {
        return false;
    }
    let d = depth - 1;
    match ty {
        Ty::Map { hash: true, .. } | Ty::Set { hash: true, .. } => true,
        Ty::Map { k, v, .. } => has_hash(k, d) || has_hash(v, d),
        Ty::Set { e, .. } | Ty::Vec(e) | Ty::Arr(e, _) | Ty::Opt(e) => has_hash(e, d),
        Ty::Tup(ts) => ts.iter().any(|t| has_hash(t, d)),
        Ty::Struct(x) => x.fields.iter().any(|f| has_hash(&f.ty, d)),
        Ty::Enum(x) => x.variants.iter().any(|v| v.fields.iter().any(|f| has_hash(&f.ty, d))),
        Ty::Rec(g) => has_hash(&g(), d),
        _ => false,
    }
}

/// Somewhere a fixed-length sequence of elements that own memory.
fn owned_rows(ty: &Ty, depth: usize) -> bool {
    if depth == 0 {
        return false;
    }
    let d = depth - 1;
    match ty {
        Ty::Arr(e, _) => !matches!(**e, Ty::U(_) | Ty::I(_) | Ty::Bool | Ty::Char),
        Ty::Map { k, v, .. } => owned_rows(k, d) || owned_rows(v, d),
        Ty::Set { e, .. } | Ty::Vec(e) | Ty::Opt(e) => owned_rows(e, d),
        Ty::Tup(ts) => ts.iter().any(|t| owned_rows(t, d)),
        Ty::Struct(x) => x.fields.iter().any(|f| owned_rows(&f.ty, d)),
        Ty::Enum(x) => x.variants.iter().any(|v| v.fields.iter().any(|f| owned_rows(&f.ty, d))),
        _ => false,
    }
}

macro_rules! n {
    ($($t:ty),* $(,)?) => { vec![$(native::<$t>(stringify!($t), &[])),*] };
}

pub fn registry() -> Registry {
    let mut all: Vec<Entry> = vec![native::<Value>("Value", &[])];
    // Reference forms.
    all.push(native::<u8>("u8", &[|x| cbor::to_vec(&x)]));
    all.push(native::<u16>("u16", &[|x| cbor::to_vec(&x)]));
    all.push(native::<u32>("u32", &[|x| cbor::to_vec(&x)]));
    all.push(native::<u64>("u64", &[|x| cbor::to_vec(&x), |x| cbor::to_vec(Value::from(x))]));
    all.push(native::<u128>("u128", &[|x| cbor::to_vec(&x)]));
    all.push(native::<i8>("i8", &[|x| cbor::to_vec(&x)]));
    all.push(native::<i16>("i16", &[|x| cbor::to_vec(&x)]));
    all.push(native::<i32>("i32", &[|x| cbor::to_vec(&x), |x| cbor::to_vec(Value::from(x))]));
    all.push(native::<i64>("i64", &[|x| cbor::to_vec(&x), |x| cbor::to_vec(Value::from(x))]));
    all.push(native::<bool>("bool", &[|x| cbor::to_vec(Value::from(x))]));
    all.push(native::<String>("String", &[|x| cbor::to_vec(x.as_str()), |x| cbor::to_vec(Value::from(x)), |x| cbor::to_vec(Value::from(x.as_str()))]));
    all.push(native::<Vec<u8>>("Vec<u8>", &[|x| cbor::to_vec(Value::from(x)), |x| cbor::to_vec(Value::from(&x[..]))]));
    fn as_map<X: cbor::EncodeAsMap>(x: X) -> Vec<u8> {
        cbor::to_vec(Value::Map(x.into_cbor_map()))
    }
    fn as_map_value<X: cbor::EncodeAsMap>(x: X) -> Vec<u8> {
        cbor::to_vec(x.into_cbor_value_map())
    }
    all.push(native::<BTreeMap<u64, String>>("BTreeMap<u64, String>", &[as_map, as_map_value]));
    all.push(native::<HashMap<String, Vec<u64>>>("HashMap<String, Vec<u64>>", &[as_map, as_map_value]));
    all.push(native::<Record>("Record", &[as_map, as_map_value]));
    all.push(native::<Tagged>("Tagged", &[as_map, as_map_value]));
    all.push(native::<AllOptional>("AllOptional", &[as_map, as_map_value]));
    all.extend(n![
        char, (), [u8; 0], [u8; 1], [u8; 4], [u8; 32], [u64; 3], [String; 2], [Vec<u8>; 2], [bool; 1],
        [Vec<u8>; 3], [String; 4], [Nested; 2], [BTreeMap<u64, String>; 2], [Option<String>; 3], Vec<[String; 2]>, [[String; 2]; 2],
        BTreeMap<u8, [Vec<u64>; 2]>, ([String; 2], [Record; 1]), [Value; 2],
        Vec<u64>, Vec<String>, Vec<i64>, Vec<Vec<u8>>, Vec<Vec<u64>>, Vec<Value>, Vec<bool>, Vec<char>, Vec<u128>, Vec<u16>, Vec<i8>,
        Vec<Option<u64>>, Vec<[u8; 4]>, Vec<(u64, String)>, Vec<()>,
        Option<u64>, Option<String>, Option<Vec<u8>>, Option<bool>, Option<Vec<Option<i64>>>, Option<Nested>, Option<(u64, u64)>,
        (u64,), (u64, String), (u8, u16, u32), (i8, i16, i32, i64), (bool, char, (), String, Vec<u8>),
        (u64, u64, u64, u64, u64, u64), (u8, String, i8, bool, u64, i64, u128), (u8, u8, u8, u8, u8, u8, u8, u8),
        (u64, Option<u64>, i64, Option<String>, u8, bool, char, u16, [u8; 4]), (u8, u16, u32, u64, i8, i16, i32, i64, bool, String),
        ((u8, u16), (String,)), (Option<u64>, Vec<u8>), (Vec<u64>, Value), ((), u64), (Nested, Mode),
        BTreeMap<String, u64>, BTreeMap<i64, Vec<u8>>, BTreeMap<Vec<u8>, u64>, BTreeMap<(u64, String), bool>, BTreeMap<Value, Value>,
        BTreeMap<char, bool>, BTreeMap<bool, u8>, BTreeMap<Option<u64>, u64>, BTreeMap<u128, String>, BTreeMap<Vec<u64>, u64>,
        BTreeMap<Order, u64>, BTreeMap<BTreeMap<u64, u64>, u64>, BTreeMap<u8, BTreeMap<String, BTreeMap<i8, u64>>>, BTreeMap<Mode, u64>,
        BTreeMap<[u8; 4], Vec<Record>>, BTreeMap<String, Option<String>>,
        HashMap<u64, String>, HashMap<i64, HashMap<String, u64>>, HashMap<Vec<u8>, u64>, HashMap<(u8, String), u64>, HashMap<[u8; 4], u64>,
        HashMap<char, u64>, HashMap<Option<u64>, u64>, HashMap<u128, u64>, HashMap<Order, u64>, HashMap<u64, HashSet<String>>,
        HashMap<BTreeMap<u64, u64>, HashMap<u64, u64>>, HashMap<Nested, HashSet<Nested>>, HashMap<u8, u8>, HashMap<String, Value>,
        BTreeSet<u64>, BTreeSet<String>, BTreeSet<Vec<u8>>, BTreeSet<(i64, String)>, BTreeSet<Value>, BTreeSet<Order>, BTreeSet<Option<u64>>,
        BTreeSet<u8>,
        HashSet<u64>, HashSet<String>, HashSet<Vec<u8>>, HashSet<i64>, HashSet<(u64, u64)>, HashSet<BTreeMap<u64, u64>>, HashSet<Vec<u64>>,
        HashSet<Order>, HashSet<Option<String>>, HashSet<u8>, HashSet<char>, HashSet<[u8; 4]>, HashSet<Mode>, HashSet<BTreeSet<u64>>,
        Vec<HashSet<i64>>, Option<HashSet<u64>>, (HashSet<u64>, HashMap<u64, u64>), BTreeMap<u64, HashSet<(u8, String)>>,
        Vec<HashMap<Vec<u8>, BTreeSet<String>>>,
        Nested, Triple, Transparent, TransparentMap, NonTransparent, Unit, Empty, AsArray, AsArrayOpen, OptNest, Skips, SkipsArray,
        WithFns, WithFnsArray, Order, CustomDefault, HoldsDefaults, Ledger, ValueBox, Envelope, Vec<Record>, HashMap<u64, Record>,
        Mode, Action, IntKeys, TaggedNamed, Embeds, EmbeddedCall, E3, Tree, Box2, Vec<Action>, Vec<Tagged>, Option<Action>,
        BTreeMap<String, Embeds>, Generic<u64>, Generic<String>, Generic<Nested>, Generic<Vec<u8>>, Generic<Option<u64>>,
    ]);
    all.extend(crate::forms::entries_list());
    all.push(enc_only::<Untagged>("Untagged"));
    let fam0 = all.len();
    let fams = vec![
        n![AccountV1, AccountV2, AccountV3, AccountV4, AccountV5],
        n![CallV1, CallV2, CallV3],
        n![StateV0, StateV1, StateV2],
        n![RowV1, RowV2, RowV3],
        n![BookV1, BookV2],
        crate::forms::family(),
        crate::forms::rows(),
        crate::hand::family(),
    ];
    let mut families: Vec<Vec<usize>> = vec![];
    let mut at = fam0;
    for fam in fams {
        families.push((at..at + fam.len()).collect());
        at += fam.len();
        all.extend(fam);
    }
    let s0 = all.len();
    all.push(serde_entry::<AnyItem>("serde:AnyItem"));
    macro_rules! sd { ($($t:ty),* $(,)?) => { $( all.push(serde_entry::<$t>(concat!("serde:", stringify!($t)))); )* } }
    sd![
        u8, u16, u32, u64, i8, i16, i32, i64, u128, bool, char, String, (), SBytes, Vec<u64>, Vec<String>, Option<u64>, Option<String>,
        (u64, String), (u8, i64, bool), [u64; 3], Vec<Option<i64>>, BTreeMap<String, u64>, BTreeMap<u64, SBytes>, HashMap<String, u64>,
        HashMap<u64, Vec<String>>, HashMap<SNew, u64>, BTreeSet<u64>, BTreeSet<String>, SRecord, SNew, STuple, SUnit, SEnum, SLedger,
        Vec<SEnum>, Option<SRecord>, BTreeMap<SNew, SEnum>, Vec<(SNew, SBytes)>, HashMap<SBytes, i64>, BTreeMap<i64, Option<SRecord>>,
    ];
    sd![Vec<Cb>, HashMap<Cb, Cb>, (Cb, Option<Cb>), SCb, BTreeMap<String, SCb>];
    let serde = (s0..all.len()).collect();
    let cb0 = all.len();
    all.extend(n![
        Cb, Vec<Cb>, Option<Cb>, (Cb, u64, Cb), BTreeMap<Cb, Cb>, HashMap<Cb, Vec<Cb>>, BTreeSet<Cb>, HashSet<Cb>, (Cb, HashMap<Cb, Cb>),
        CbRec, CbEnum, Vec<CbRec>, BTreeMap<String, CbEnum>, HashMap<u64, CbRec>, BTreeMap<CbRec, Cb>,
    ]);
    let cb = (cb0 - 5..all.len()).collect();
    let h0 = all.len();
    all.extend(crate::hand::entries_list());
    let hand = families.last().unwrap().iter().copied().chain(h0..all.len()).collect();
    let rows = (0..all.len()).filter(|i| owned_rows(&all[*i].ty, 5)).collect();
    let hashed = (0..all.len()).filter(|i| has_hash(&all[*i].ty, 6)).collect();
    let recursive = (0..all.len()).filter(|i| ["Value", "Tree", "Box2", "Embeds", "EmbeddedCall", "Envelope", "Ledger"].iter().any(|n| all[*i].name.contains(n))).collect();
    Registry { all, hashed, serde, families, generic: 0, any_item: s0, recursive, cb, rows, hand }
}

// ---- types with user code in them -------------------------------------------------------------

use crate::callback::{dec_hook, enc_hook, Cb};

fn w_hook() -> With {
    With {
        enc_ty: Ty::U(64),
        enc: |t| match t {
            T::U(n) => T::U((*n as u64).wrapping_add(1) as u128),
            t => t.clone(),
        },
        dec_ty: Ty::U(64),
        dec: |t| match t {
            T::U(n) => Some(T::U((n as u64).wrapping_sub(1) as u128)),
            _ => None,
        },
    }
}

#[derive(Debug, Default, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, cbor::Encode, cbor::Decode)]
pub struct CbRec {
    head: Cb,
    #[cbor(optional)]
    maybe: Cb,
    #[cbor(optional)]
    list: Vec<Cb>,
    by: BTreeMap<Cb, String>,
    #[cbor(serialize_with = "enc_hook", deserialize_with = "dec_hook")]
    n: u64,
    tail: Option<Cb>,
}
zoo_struct!(CbRec, st("CbRec", Shape::Map, Some(|| T::St(vec![T::U(0), T::U(0), T::L(vec![]), T::Mp(vec![]), T::U(0), T::Non])),
    vec![f("head", Ty::U(64)), f("maybe", Ty::U(64)).opt(), f("list", Vec::<Cb>::ty()).opt(), f("by", BTreeMap::<Cb, String>::ty()),
         f("n", Ty::U(64)).with(w_hook()), f("tail", opt(Ty::U(64)))]),
    { head: Cb, maybe: Cb, list: Vec<Cb>, by: BTreeMap<Cb, String>, n: u64, tail: Option<Cb> });

#[derive(Debug, Clone, Eq, PartialEq, cbor::Encode, cbor::Decode)]
pub enum CbEnum {
    One(Cb),
    Two { a: Cb, b: Option<CbRec> },
    Three(Cb, Vec<Cb>),
    Four,
}
zoo_enum!(CbEnum, en("CbEnum", vec![
        v("One", Kind::Newtype, vec![f("0", Ty::U(64))]),
        v("Two", Kind::Map, vec![f("a", Ty::U(64)), f("b", opt(CbRec::ty()))]),
        v("Three", Kind::Array, vec![f("0", Ty::U(64)), f("1", Vec::<Cb>::ty())]),
        v("Four", Kind::Unit, vec![])]),
    { 0 => One { 0: a as Cb }, 1 => Two { a: a as Cb, b: b as Option<CbRec> }, 2 => Three { 0: a as Cb, 1: b as Vec<Cb> }, 3 => Four {} });

#[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize)]
pub struct SCb {
    first: Cb,
    list: Vec<Cb>,
    by: BTreeMap<Cb, Cb>,
    last: Option<Cb>,
}
zoo_struct!(SCb, st("SCb", Shape::Map, None,
    vec![f("first", Ty::U(64)), f("list", Vec::<Cb>::ty()), f("by", BTreeMap::<Cb, Cb>::ty()), f("last", opt(Ty::U(64)))]),
    { first: Cb, list: Vec<Cb>, by: BTreeMap<Cb, Cb>, last: Option<Cb> });
