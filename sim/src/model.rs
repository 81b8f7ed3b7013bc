//! Reference codec: a second, deliberately simple implementation of the wire format, written from
//! RFC 8949 and the documented rules of the library. It stands for "another deployed build" in the
//! simulated cluster and it is the oracle for what a byte string means.

use std::cmp::Ordering;

use oasis_cbor::{SimpleValue, Value};

use crate::src::Src;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum M {
    U(u64),
    /// The negative integer -1-n.
    N(u64),
    B(Vec<u8>),
    T(String),
    A(Vec<M>),
    Map(Vec<(M, M)>),
    Tag(u64, Box<M>),
    /// 20, 21, 22 or 23.
    S(u8),
}

pub const NULL: M = M::S(22);
pub const UNDEF: M = M::S(23);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum EncErr {
    Dup,
    Nest,
}

impl M {
    pub fn t(s: &str) -> M {
        M::T(s.to_string())
    }
    pub fn int(i: i128) -> M {
        if i >= 0 {
            M::U(i as u64)
        } else {
            M::N((-1 - i) as u64)
        }
    }
    /// Nesting level: 0 for leaves and empty containers.
    pub fn depth(&self) -> usize {
        match self {
            M::A(v) => v.iter().map(|x| x.depth() + 1).max().unwrap_or(0),
            M::Map(v) => v.iter().map(|(a, b)| a.depth().max(b.depth()) + 1).max().unwrap_or(0),
            M::Tag(_, x) => x.depth() + 1,
            _ => 0,
        }
    }
    pub fn items(&self) -> usize {
        1 + match self {
            M::A(v) => v.iter().map(|x| x.items()).sum(),
            M::Map(v) => v.iter().map(|(a, b)| a.items() + b.items()).sum(),
            M::Tag(_, x) => x.items(),
            _ => 0,
        }
    }
    fn major(&self) -> u8 {
        match self {
            M::U(_) => 0,
            M::N(_) => 1,
            M::B(_) => 2,
            M::T(_) => 3,
            M::A(_) => 4,
            M::Map(_) => 5,
            M::Tag(..) => 6,
            M::S(_) => 7,
        }
    }
    pub fn has_map(&self) -> bool {
        match self {
            M::A(v) => v.iter().any(|x| x.has_map()),
            M::Map(_) => true,
            M::Tag(_, x) => x.has_map(),
            _ => false,
        }
    }
    /// All maps in canonical order (duplicates kept).
    pub fn sorted(&self) -> M {
        match self {
            M::A(v) => M::A(v.iter().map(|x| x.sorted()).collect()),
            M::Map(v) => {
                let mut v: Vec<(M, M)> = v.iter().map(|(a, b)| (a.sorted(), b.sorted())).collect();
                v.sort_by_cached_key(|(k, v)| (raw_bytes(k), raw_bytes(v)));
                M::Map(v)
            }
            M::Tag(t, x) => M::Tag(*t, Box::new(x.sorted())),
            x => x.clone(),
        }
    }
    pub fn has_dup(&self) -> bool {
        match self {
            M::A(v) => v.iter().any(|x| x.has_dup()),
            M::Map(v) => {
                let mut ks: Vec<Vec<u8>> = v.iter().map(|(k, _)| raw_bytes(&k.sorted())).collect();
                let n = ks.len();
                ks.sort();
                ks.dedup();
                ks.len() != n || v.iter().any(|(a, b)| a.has_dup() || b.has_dup())
            }
            M::Tag(_, x) => x.has_dup(),
            _ => false,
        }
    }
}

pub fn head(out: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    if n < 24 {
        out.push(m | n as u8);
    } else if n <= 0xff {
        out.push(m | 24);
        out.push(n as u8);
    } else if n <= 0xffff {
        out.push(m | 25);
        out.extend_from_slice(&(n as u16).to_be_bytes());
    } else if n <= 0xffff_ffff {
        out.push(m | 26);
        out.extend_from_slice(&(n as u32).to_be_bytes());
    } else {
        out.push(m | 27);
        out.extend_from_slice(&n.to_be_bytes());
    }
}

/// Minimal headers, containers in the given order.
fn raw_into(m: &M, out: &mut Vec<u8>) {
    match m {
        M::U(n) | M::N(n) => head(out, m.major(), *n),
        M::B(b) => {
            head(out, 2, b.len() as u64);
            out.extend_from_slice(b);
        }
        M::T(s) => {
            head(out, 3, s.len() as u64);
            out.extend_from_slice(s.as_bytes());
        }
        M::A(v) => {
            head(out, 4, v.len() as u64);
            v.iter().for_each(|x| raw_into(x, out));
        }
        M::Map(v) => {
            head(out, 5, v.len() as u64);
            v.iter().for_each(|(a, b)| {
                raw_into(a, out);
                raw_into(b, out)
            });
        }
        M::Tag(t, x) => {
            head(out, 6, *t);
            raw_into(x, out);
        }
        M::S(s) => head(out, 7, *s as u64),
    }
}

pub fn raw_bytes(m: &M) -> Vec<u8> {
    let mut v = vec![];
    raw_into(m, &mut v);
    v
}

/// The canonical encoding.
pub fn canon(m: &M, max_depth: usize) -> Result<Vec<u8>, EncErr> {
    if m.has_dup() {
        return Err(EncErr::Dup);
    }
    if m.depth() > max_depth {
        return Err(EncErr::Nest);
    }
    Ok(raw_bytes(&m.sorted()))
}

/// Bytewise order of the encodings (containers in the given order).
pub fn cmp_m(a: &M, b: &M) -> Ordering {
    raw_bytes(a).cmp(&raw_bytes(b))
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub m: M,
    /// Number of bytes the item occupies.
    pub used: usize,
    /// Something outside the supported model was read as undefined.
    pub lossy: bool,
}

struct P<'a> {
    b: &'a [u8],
    pos: usize,
    lossy: bool,
}

impl<'a> P<'a> {
    fn take(&mut self, n: u64) -> Option<&'a [u8]> {
        if n > (self.b.len() - self.pos) as u64 {
            return None;
        }
        let s = &self.b[self.pos..self.pos + n as usize];
        self.pos += n as usize;
        Some(s)
    }
    fn item(&mut self, left: i64) -> Option<M> {
        if left < 0 {
            return None;
        }
        let first = self.take(1)?[0];
        let (major, info) = (first >> 5, first & 31);
        let n = match info {
            0..=23 => info as u64,
            24..=27 => {
                let mut n = 0u64;
                for x in self.take(1 << (info - 24))? {
                    n = n << 8 | *x as u64;
                }
                n
            }
            _ => return None,
        };
        Some(match major {
            0 => M::U(n),
            1 => M::N(n),
            2 => M::B(self.take(n)?.to_vec()),
            3 => M::T(std::str::from_utf8(self.take(n)?).ok()?.to_string()),
            4 => {
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.item(left - 1)?);
                }
                M::A(v)
            }
            5 => {
                let mut v = vec![];
                for _ in 0..n {
                    let k = self.item(left - 1)?;
                    v.push((k, self.item(left - 1)?));
                }
                M::Map(v)
            }
            6 => M::Tag(n, Box::new(self.item(left - 1)?)),
            _ => {
                if info <= 24 && (20..=23).contains(&n) {
                    M::S(n as u8)
                } else {
                    self.lossy = true;
                    UNDEF
                }
            }
        })
    }
}

/// What a lenient reader makes of the first item of `b`.
pub fn lenient(b: &[u8], max_depth: usize) -> Option<Parsed> {
    let mut p = P { b, pos: 0, lossy: false };
    let m = p.item(max_depth as i64)?;
    Some(Parsed { m, used: p.pos, lossy: p.lossy })
}

/// What a strict reader makes of `b`: only the canonical encoding of a supported value is accepted.
pub fn strict(b: &[u8], max_depth: usize) -> Option<M> {
    let p = lenient(b, max_depth)?;
    if p.lossy || p.used != b.len() {
        return None;
    }
    // Canonical means: encoding the value gives exactly these bytes.
    match canon(&p.m, max_depth) {
        Ok(c) if c == b => Some(p.m),
        _ => None,
    }
}

pub fn to_value(m: &M) -> Value {
    match m {
        M::U(n) => Value::Unsigned(*n),
        M::N(n) => Value::Negative(-1 - *n as i128),
        M::B(b) => Value::ByteString(b.clone()),
        M::T(s) => Value::TextString(s.clone()),
        M::A(v) => Value::Array(v.iter().map(to_value).collect()),
        M::Map(v) => Value::Map(v.iter().map(|(a, b)| (to_value(a), to_value(b))).collect()),
        M::Tag(t, x) => Value::Tag(*t, Box::new(to_value(x))),
        M::S(20) => Value::Simple(SimpleValue::FalseValue),
        M::S(21) => Value::Simple(SimpleValue::TrueValue),
        M::S(22) => Value::Simple(SimpleValue::NullValue),
        M::S(_) => Value::Simple(SimpleValue::Undefined),
    }
}

/// Structural image of a library value; `None` if it holds an integer CBOR cannot express.
pub fn of_value(v: &Value) -> Option<M> {
    Some(match v {
        Value::Unsigned(n) => M::U(*n),
        Value::Negative(n) => {
            let x = -1i128 - *n;
            if x < 0 || x > u64::MAX as i128 {
                return None;
            }
            M::N(x as u64)
        }
        Value::ByteString(b) => M::B(b.clone()),
        Value::TextString(s) => M::T(s.clone()),
        Value::Array(v) => M::A(v.iter().map(of_value).collect::<Option<_>>()?),
        Value::Map(v) => M::Map(
            v.iter().map(|(a, b)| Some((of_value(a)?, of_value(b)?))).collect::<Option<_>>()?,
        ),
        Value::Tag(t, x) => M::Tag(*t, Box::new(of_value(x)?)),
        Value::Simple(SimpleValue::FalseValue) => M::S(20),
        Value::Simple(SimpleValue::TrueValue) => M::S(21),
        Value::Simple(SimpleValue::NullValue) => M::S(22),
        Value::Simple(SimpleValue::Undefined) => M::S(23),
    })
}

// ---------------------------------------------------------------------------------------------
// Generation.

const EDGES: &[u64] = &[
    0,
    1,
    10,
    22,
    23,
    24,
    25,
    31,
    32,
    100,
    127,
    128,
    254,
    255,
    256,
    257,
    0x7fff,
    0x8000,
    0xfffe,
    0xffff,
    0x1_0000,
    0x1_0001,
    0x7fff_ffff,
    0x8000_0000,
    0xffff_fffe,
    0xffff_ffff,
    0x1_0000_0000,
    0x1_0000_0001,
    0x7fff_ffff_ffff_fffe,
    0x7fff_ffff_ffff_ffff,
    0x8000_0000_0000_0000,
    0x8000_0000_0000_0001,
    0xffff_ffff_ffff_fffe,
    0xffff_ffff_ffff_ffff,
];

pub fn gen_u64(s: &mut Src) -> u64 {
    match s.weighted(&[5, 5, 2, 2]) {
        0 => s.below(24),
        1 => *s.pick(EDGES),
        2 => {
            let bits = s.range(1, 64);
            let v = s.raw();
            v >> (64 - bits)
        }
        _ => {
            let e = *s.pick(EDGES);
            let d = s.below(5);
            e.wrapping_add(d).wrapping_sub(2)
        }
    }
}

pub fn gen_len(s: &mut Src, small: u64, big: bool) -> usize {
    let w: &[u64] = if big { &[60, 10, 4, 1] } else { &[60, 6, 0, 0] };
    (match s.weighted(w) {
        0 => s.below(small + 1),
        1 => *s.pick(&[22, 23, 24, 25]),
        2 => *s.pick(&[31, 32, 33, 64, 127, 128, 254, 255, 256, 257, 300]),
        _ => *s.pick(&[1000, 4095, 4096, 4097, 65534, 65535, 65536, 65537]),
    }) as usize
}

pub fn gen_bytes(s: &mut Src, big: bool) -> Vec<u8> {
    let n = gen_len(s, 8, big);
    if n > 40 {
        let mut r = crate::src::Rng::new(s.below(1 << 20));
        return (0..n).map(|_| r.next() as u8).collect();
    }
    (0..n).map(|_| *s.pick(&[0u8, 1, 0x18, 0x7f, 0x80, 0xa0, 0xf6, 0xff, 0x41, 0x61])).collect()
}

const CHARS: &[char] = &[
    'a', 'b', 'k', 'A', 'Z', '0', ' ', '\0', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '中', '\u{d7ff}',
    '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}',
];

pub fn gen_char(s: &mut Src) -> char {
    *s.pick(CHARS)
}

pub fn gen_string(s: &mut Src, big: bool) -> String {
    let n = gen_len(s, 6, big);
    if n > 40 {
        let seed = s.below(1 << 20);
        let mut r = crate::src::Rng::new(seed);
        // Wide characters at any distance from round offsets: a run of narrow ones, then a pattern.
        if seed % 3 != 0 {
            let c = CHARS[(r.next() % CHARS.len() as u64) as usize];
            let d = CHARS[(r.next() % CHARS.len() as u64) as usize];
            let lead = (r.next() % 5) as usize;
            let sparse = 1 + r.next() % 40;
            let mut out = String::with_capacity(n + 4);
            while out.len() < n {
                out.push(if out.len() < lead {
                    'a'
                } else if r.next() % sparse == 0 {
                    c
                } else if seed % 3 == 1 {
                    d
                } else {
                    'z'
                });
            }
            return out;
        }
        return (0..n).map(|_| (b'a' + (r.next() % 26) as u8) as char).collect();
    }
    let rich = s.chance(300);
    (0..n).map(|_| if rich { gen_char(s) } else { *s.pick(&['a', 'b', 'c', 'k', 'z']) }).collect()
}

/// `n` different flat items of one or several kinds, in no particular order.
pub fn flat_keys(kind: u64, seed: u64, n: usize) -> Vec<M> {
    let mut r = crate::src::Rng::new(seed);
    let step = *[1u64, 7, 256, 0x1_0001].get((r.next() % 4) as usize).unwrap_or(&1);
    let prefix = (r.next() % 20) as usize;
    let one = |k: u64, i: u64| {
        let mut b = vec![b'p'; prefix];
        b.extend_from_slice(i.to_string().as_bytes());
        match k {
            0 => M::U(i.wrapping_mul(step)),
            1 => M::N(i.wrapping_mul(step)),
            2 => M::T(String::from_utf8_lossy(&b).into_owned()),
            3 => M::B(b),
            4 => M::A(vec![M::U(i / 16), M::U(i % 16)]),
            _ => M::Tag(i / 32, Box::new(M::T(format!("{}", i % 32)))),
        }
    };
    let mut v: Vec<M> = (0..n as u64).map(|i| one(if kind >= 6 { i % 6 } else { kind }, i)).collect();
    match r.next() % 4 {
        0 => {}
        1 => v.reverse(),
        2 => {
            // Nearly ordered.
            for _ in 0..2 {
                let (i, j) = ((r.next() % n as u64) as usize, (r.next() % n as u64) as usize);
                v.swap(i, j);
            }
        }
        _ => {
            for i in (1..n).rev() {
                v.swap(i, (r.next() % (i as u64 + 1)) as usize);
            }
        }
    }
    v
}

/// A map with many entries.
pub fn gen_big_map(s: &mut Src, n: usize) -> M {
    let (kind, seed, same) = (s.below(7), s.below(1 << 20), s.chance(300));
    M::Map(
        flat_keys(kind, seed, n)
            .into_iter()
            .enumerate()
            .map(|(i, k)| (k, M::U(if same { 0 } else { i as u64 })))
            .collect(),
    )
}

/// The same item with the entries of its maps listed in another order.
pub fn relisted(s: &mut Src, m: &M) -> M {
    match m {
        M::A(v) => M::A(v.iter().map(|x| relisted(s, x)).collect()),
        M::Map(v) => {
            let mut v: Vec<(M, M)> = v.iter().map(|(a, b)| (relisted(s, a), relisted(s, b))).collect();
            if v.len() > 1 {
                let i = s.usize(v.len());
                v.rotate_left(i);
                if s.chance(500) {
                    v.reverse();
                }
            }
            M::Map(v)
        }
        M::Tag(t, x) => M::Tag(*t, Box::new(relisted(s, x))),
        x => x.clone(),
    }
}

pub fn gen_m(s: &mut Src, depth: usize, budget: &mut i64) -> M {
    *budget -= 1;
    let leaf = depth == 0 || *budget <= 0;
    let w: &[u64] = if leaf { &[4, 2, 2, 3, 0, 0, 0, 2] } else { &[4, 2, 2, 3, 4, 5, 2, 2] };
    match s.weighted(w) {
        0 => M::U(gen_u64(s)),
        1 => M::N(gen_u64(s)),
        2 => M::B(gen_bytes(s, *budget > 0)),
        3 => M::T(gen_string(s, *budget > 0)),
        4 => {
            let n = gen_len(s, 4, *budget > 20);
            if n > 64 {
                // Long but flat.
                let m = M::U(gen_u64(s));
                if n > 5000 || s.chance(300) {
                    return M::A(vec![m; n.min(70000)]);
                }
                let (kind, seed) = (s.below(6), s.below(1 << 20));
                return M::A(flat_keys(kind, seed, n));
            }
            M::A((0..n).map(|_| gen_m(s, depth - 1, budget)).collect())
        }
        5 => {
            let n = gen_len(s, 4, *budget > 20);
            if n > 40 {
                return gen_big_map(s, n.min(5000));
            }
            let mut v: Vec<(M, M)> = vec![];
            for _ in 0..n {
                // Keys that are close relatives of an earlier key exercise ordering.
                let k = if !v.is_empty() && s.chance(400) {
                    let i = s.usize(v.len());
                    let base = v[i].0.clone();
                    tweak(s, &base)
                } else {
                    gen_m(s, depth.min(3) - 1, budget)
                };
                v.push((k, gen_m(s, depth - 1, budget)));
            }
            let mut seen: Vec<Vec<u8>> = vec![];
            v.retain(|(k, _)| {
                let b = raw_bytes(&k.sorted());
                if seen.contains(&b) {
                    false
                } else {
                    seen.push(b);
                    true
                }
            });
            M::Map(v)
        }
        6 => {
            let t = gen_u64(s);
            M::Tag(t, Box::new(gen_m(s, depth - 1, budget)))
        }
        _ => M::S(20 + s.below(4) as u8),
    }
}

/// A slightly different value.
pub fn tweak(s: &mut Src, m: &M) -> M {
    match m {
        M::U(n) => match s.below(4) {
            0 => M::U(n.wrapping_add(1)),
            1 => M::U(n.wrapping_sub(1)),
            2 => M::N(*n),
            _ => M::U(n << 8),
        },
        M::N(n) => match s.below(3) {
            0 => M::N(n.wrapping_add(1)),
            1 => M::N(n.wrapping_sub(1)),
            _ => M::U(*n),
        },
        M::B(b) => {
            let mut b = b.clone();
            match s.below(4) {
                0 => b.push(0),
                1 => {
                    b.pop();
                }
                2 => return M::T(String::from_utf8_lossy(&b).into_owned()),
                _ => {
                    let at = if s.chance(500) { b.len().saturating_sub(1) } else { s.usize(b.len()) };
                    if let Some(x) = b.get_mut(at) {
                        *x = x.wrapping_add(1)
                    }
                }
            }
            M::B(b)
        }
        M::T(t) => {
            let mut t = t.clone();
            match s.below(4) {
                0 => t.push('a'),
                1 => {
                    t.pop();
                }
                2 => return M::B(t.into_bytes()),
                _ => {
                    t.pop();
                    t.push(gen_char(s));
                }
            }
            M::T(t)
        }
        M::A(v) => {
            let mut v = v.clone();
            if v.is_empty() || s.chance(300) {
                v.push(M::U(s.below(3)));
            } else {
                let i = s.usize(v.len());
                v[i] = tweak(s, &v[i]);
            }
            M::A(v)
        }
        M::Map(v) => {
            let mut v = v.clone();
            if v.is_empty() {
                v.push((M::U(0), M::U(0)));
            } else {
                let i = s.usize(v.len());
                match s.below(4) {
                    0 => {
                        let (k, x) = v[i].clone();
                        v[i].0 = tweak(s, &v[i].0);
                        if M::Map(v.clone()).has_dup() {
                            v[i] = (k, tweak(s, &x));
                        }
                    }
                    1 => {
                        v.remove(i);
                    }
                    _ => v[i].1 = tweak(s, &v[i].1),
                }
            }
            M::Map(v)
        }
        M::Tag(t, x) => {
            if s.chance(500) {
                M::Tag(t.wrapping_add(1), x.clone())
            } else {
                M::Tag(*t, Box::new(tweak(s, x)))
            }
        }
        M::S(x) => M::S(20 + (x - 20 + 1) % 4),
    }
}

/// A chain of `n` nested containers around a leaf, mixing container kinds.
pub fn gen_chain(s: &mut Src, n: usize) -> M {
    let mode = s.below(5);
    let mut m = match s.below(4) {
        0 => M::U(0),
        1 => M::A(vec![]),
        2 => M::T("x".into()),
        _ => M::Map(vec![]),
    };
    for i in 0..n {
        let k = match mode {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 3,
            _ => (i as u64 * 7 + i as u64 / 3) % 5,
        };
        m = match k {
            0 => M::A(vec![m]),
            1 => M::Map(vec![(M::U(1), m)]),
            2 => M::Tag(9, Box::new(m)),
            3 => M::Map(vec![(m, M::U(1))]),
            _ => M::A(vec![M::U(1), m, M::S(22)]),
        };
    }
    m
}

// ---------------------------------------------------------------------------------------------
// Byzantine senders: an encoding of `m` that is not the canonical one (or not CBOR at all).

pub const BYZ: &[&str] = &[
    "widen-header",
    "swap-keys",
    "dup-key",
    "indefinite",
    "length-off-by-one",
    "length-huge",
    "simple-other",
    "float",
    "reserved-info",
    "bad-utf8",
    "flip-major",
    "dup-key-apart",
    "extra-nesting",
    "bare-break",
];

struct Byz {
    idx: usize,
    target: usize,
    kind: usize,
    a: u64,
    hit: bool,
}

fn head_w(out: &mut Vec<u8>, major: u8, n: u64, w: u32) {
    out.push(major << 5 | (24 + w) as u8);
    let b = n.to_be_bytes();
    out.extend_from_slice(&b[8 - (1 << w)..]);
}

fn width(n: u64) -> u32 {
    if n < 24 {
        0
    } else if n <= 0xff {
        1
    } else if n <= 0xffff {
        2
    } else if n <= 0xffff_ffff {
        3
    } else {
        4
    }
}

const BAD_UTF8: &[&[u8]] = &[
    &[0xff],
    &[0x80],
    &[0xc3],
    &[0xc0, 0x80],
    &[0xc1, 0xbf],
    &[0xe0, 0x80, 0x80],
    &[0xed, 0xa0, 0x80],
    &[0xed, 0xbf, 0xbf],
    &[0xf0, 0x80, 0x80, 0x80],
    &[0xf4, 0x90, 0x80, 0x80],
    &[0xf5, 0x80, 0x80, 0x80],
    &[0xe2, 0x82],
    &[0xf0, 0x9f, 0x98],
];

fn byz(m: &M, out: &mut Vec<u8>, c: &mut Byz) {
    let here = c.idx == c.target;
    c.idx += 1;
    let (major, n) = match m {
        M::U(n) | M::N(n) => (m.major(), *n),
        M::B(b) => (2, b.len() as u64),
        M::T(t) => (3, t.len() as u64),
        M::A(v) => (4, v.len() as u64),
        M::Map(v) => (5, v.len() as u64),
        M::Tag(t, _) => (6, *t),
        M::S(x) => (7, *x as u64),
    };
    let mut map_order: Vec<usize> = match m {
        M::Map(v) => (0..v.len()).collect(),
        _ => vec![],
    };
    let mut tail_break = false;
    let mut body: Option<Vec<u8>> = None;
    if !here {
        head(out, major, n);
    } else {
        c.hit = true;
        match c.kind {
            0 => {
                let lo = width(n);
                if lo >= 4 {
                    c.hit = false;
                    head(out, major, n);
                } else {
                    let w = lo + (c.a % (4 - lo as u64)) as u32;
                    head_w(out, major, n, w);
                }
            }
            1 if map_order.len() >= 2 => {
                let i = (c.a as usize) % (map_order.len() - 1);
                map_order.swap(i, i + 1);
                head(out, major, n);
            }
            2 if !map_order.is_empty() => {
                let i = (c.a as usize) % map_order.len();
                map_order.insert(i, i);
                head(out, major, n + 1);
            }
            11 if !map_order.is_empty() => {
                let i = (c.a as usize) % map_order.len();
                map_order.push(i);
                head(out, major, n + 1);
            }
            3 if (2..=5).contains(&major) => {
                out.push(major << 5 | 31);
                tail_break = true;
                if major <= 3 {
                    // One definite chunk.
                    head(out, major, n);
                }
            }
            4 if (2..=5).contains(&major) => {
                head(out, major, if c.a & 1 == 0 || n == 0 { n + 1 } else { n - 1 });
            }
            5 if (2..=5).contains(&major) => {
                let big = [u64::MAX, 1 << 32, u32::MAX as u64, 1 << 63, n + (1 << 16), u64::MAX - 8];
                head(out, major, big[c.a as usize % big.len()]);
            }
            6 => {
                // A simple value this format does not support, or the two byte form.
                match c.a % 5 {
                    0 => out.push(0xe0 | (c.a >> 8) as u8 % 20),
                    1 => out.extend_from_slice(&[0xf8, 20 + (c.a >> 8) as u8 % 4]),
                    2 => out.extend_from_slice(&[0xf8, 24 + (c.a >> 8) as u8 % 8]),
                    3 => out.extend_from_slice(&[0xf8, 32 + (c.a >> 8) as u8 % 224]),
                    _ => out.extend_from_slice(&[0xf8, (c.a >> 8) as u8]),
                }
                return;
            }
            7 => {
                // Legacy encoders write whole numbers this way.
                let whole = [n as f64, -(n as f64) - 1.0, 0.0, 1.0, 21.0, -1.0, 256.0, 1e18, f64::INFINITY, f64::NAN, -0.0, 0.5][(c.a >> 16) as usize % 12];
                let bits = match (c.a >> 8) % 6 {
                    0 => 20 + (c.a >> 16) % 4,
                    1 => 0x3e00_0000_0000_0000 >> (c.a % 3 * 16),
                    2 => 0x7ff8_0000_0000_0000,
                    3 => c.a.wrapping_mul(0x9e37_79b9_7f4a_7c15),
                    _ => match c.a % 3 {
                        0 => [0x3c00u64, 0, 0x8000, 0x4000, 0x4d00, 0x7c00, 0xfc00, 0x7e00, 0xbc00, 0x5640, 0x7bff, 1][(c.a >> 16) as usize % 12],
                        1 => (whole as f32).to_bits() as u64,
                        _ => whole.to_bits(),
                    },
                };
                head_w(out, 7, bits, 1 + (c.a % 3) as u32);
                return;
            }
            8 => {
                out.push(major << 5 | (28 + (c.a % 4) as u8));
            }
            9 => {
                let bad = BAD_UTF8[c.a as usize % BAD_UTF8.len()];
                let mut t = match m {
                    M::T(t) => t.clone().into_bytes(),
                    _ => b"ab".to_vec(),
                };
                let at = (c.a >> 8) as usize % (t.len() + 1);
                let tail = t.split_off(at);
                t.extend_from_slice(bad);
                t.extend_from_slice(&tail);
                head(out, 3, t.len() as u64);
                out.extend_from_slice(&t);
                return;
            }
            10 => {
                let mj = (major + 1 + (c.a % 7) as u8) % 8;
                let at = out.len();
                head(out, major, n);
                out[at] = mj << 5 | (out[at] & 31);
            }
            12 => {
                let k = 1 + c.a as usize % 70;
                for i in 0..k {
                    out.push(if (c.a >> 8) + i as u64 & 1 == 0 { 0x81 } else { 0xc1 });
                }
                head(out, major, n);
            }
            13 => {
                out.push(0xff);
                body = Some(vec![]);
            }
            _ => {
                c.hit = false;
                head(out, major, n);
            }
        }
    }
    if let Some(b) = body {
        out.extend_from_slice(&b);
        return;
    }
    match m {
        M::B(b) => out.extend_from_slice(b),
        M::T(t) => out.extend_from_slice(t.as_bytes()),
        M::A(v) => v.iter().for_each(|x| byz(x, out, c)),
        M::Map(v) => {
            for i in map_order {
                byz(&v[i].0, out, c);
                byz(&v[i].1, out, c);
            }
        }
        M::Tag(_, x) => byz(x, out, c),
        _ => {}
    }
    if tail_break {
        out.push(0xff);
    }
}

pub fn byzantine(s: &mut Src, m: &M) -> (&'static str, Vec<u8>) {
    let m = m.sorted();
    let items = m.items();
    let kind = s.usize(BYZ.len());
    let start = s.usize(items);
    let a = s.raw();
    // Find a position where the disturbance applies.
    for off in 0..items.min(64) {
        let mut c = Byz { idx: 0, target: (start + off) % items, kind, a, hit: false };
        let mut out = vec![];
        byz(&m, &mut out, &mut c);
        if c.hit {
            return (BYZ[kind], out);
        }
    }
    let mut out = raw_bytes(&m);
    out.push(0);
    ("trailing", out)
}

// ---------------------------------------------------------------------------------------------
// Transport and medium faults on a byte string.

pub const CORRUPT: &[&str] = &[
    "truncate",
    "bit-flip",
    "byte-overwrite",
    "trailing-garbage",
    "zeroed-sector",
    "segment-dropped",
    "segment-duplicated",
    "segments-swapped",
    "bytes-inserted",
    "spliced-with-other",
    "coalesced-with-next",
    "header-nudged",
    "stale-tail",
    "multi-bit-flip",
];

const HOT: &[u8] = &[
    0x00, 0x01, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1f, 0x20, 0x37, 0x38, 0x39, 0x3b, 0x40, 0x41, 0x57, 0x58, 0x5f,
    0x60, 0x61, 0x78, 0x7f, 0x80, 0x81, 0x82, 0x98, 0x9f, 0xa0, 0xa1, 0xa2, 0xb8, 0xbf, 0xc0, 0xd8, 0xe0, 0xf3, 0xf4,
    0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xff,
];

pub fn corrupt(s: &mut Src, b: &[u8], other: &[u8]) -> (&'static str, Vec<u8>) {
    let kind = s.usize(CORRUPT.len());
    let mut v = b.to_vec();
    let n = v.len().max(1);
    // Bias towards the front, where the structure is.
    let at = |s: &mut Src| {
        let span = if s.chance(500) { n.min(12) } else { n };
        s.usize(span)
    };
    match kind {
        0 => {
            let cut = 1 + if s.chance(500) { s.usize(n.min(4)) } else { s.usize(n) };
            v.truncate(n.saturating_sub(cut));
        }
        1 => {
            let i = at(s);
            if i < v.len() {
                v[i] ^= 1 << s.below(8);
            }
        }
        2 => {
            let i = at(s);
            if i < v.len() {
                v[i] = *s.pick(HOT);
            }
        }
        3 => {
            for _ in 0..=s.below(3) {
                v.push(*s.pick(HOT));
            }
        }
        4 => {
            let i = at(s);
            let len = 1 + s.usize(16);
            v.iter_mut().skip(i).take(len).for_each(|x| *x = 0);
        }
        5 => {
            let i = at(s);
            let len = 1 + s.usize(8);
            let e = (i + len).min(v.len());
            if i < e {
                v.drain(i..e);
            }
        }
        6 => {
            let i = at(s);
            let len = 1 + s.usize(8);
            let e = (i + len).min(v.len());
            if i < e {
                let seg = v[i..e].to_vec();
                v.splice(e..e, seg);
            }
        }
        7 => {
            let i = at(s);
            let len = 1 + s.usize(6);
            if i + 2 * len <= v.len() {
                for k in 0..len {
                    v.swap(i + k, i + len + k);
                }
            } else {
                v.reverse();
            }
        }
        8 => {
            let i = at(s).min(v.len());
            for _ in 0..=s.below(3) {
                v.insert(i, *s.pick(HOT));
            }
        }
        9 => {
            let i = at(s).min(v.len());
            let j = if other.is_empty() { 0 } else { s.usize(other.len()) };
            v.truncate(i);
            v.extend_from_slice(&other[j.min(other.len())..]);
        }
        10 => v.extend_from_slice(other),
        11 => {
            let i = at(s);
            if i < v.len() {
                let lo = v[i] & 31;
                v[i] = (v[i] & 0xe0) | ((lo + 1 + 30 * s.below(2) as u8) & 31);
            }
        }
        12 => {
            // A shorter write over an older, longer content.
            let i = at(s).min(v.len());
            let mut o = other.to_vec();
            if o.len() < v.len() {
                o.resize(v.len(), 0);
            }
            o[..i].copy_from_slice(&v[..i]);
            v = o;
        }
        _ => {
            for _ in 0..=s.below(4) {
                let i = at(s);
                if i < v.len() {
                    v[i] ^= 1 << s.below(8);
                }
            }
        }
    }
    (CORRUPT[kind], v)
}

// ---------------------------------------------------------------------------------------------
// Forged records: well-formed and canonical, but not what the type's encoder would have written.

pub const FORGE: &[&str] = &[
    "int-edge", "array-grown", "array-shrunk", "entry-added", "entry-dropped", "kind-swapped", "wrapped", "unwrapped", "nulled",
    "value-tweaked", "key-tweaked", "entry-renamed", "variant-form", "transplanted",
];

pub fn node_mut<'a>(m: &'a mut M, at: &mut usize) -> Option<&'a mut M> {
    if *at == 0 {
        return Some(m);
    }
    *at -= 1;
    match m {
        M::A(v) => {
            for x in v {
                if let Some(r) = node_mut(x, at) {
                    return Some(r);
                }
            }
            None
        }
        M::Map(v) => {
            for (a, b) in v {
                if let Some(r) = node_mut(a, at) {
                    return Some(r);
                }
                if let Some(r) = node_mut(b, at) {
                    return Some(r);
                }
            }
            None
        }
        M::Tag(_, x) => node_mut(x, at),
        _ => None,
    }
}

pub fn forge(s: &mut Src, m: &M) -> (&'static str, M) {
    let mut m = m.clone();
    let kind = s.usize(FORGE.len());
    let items = m.items();
    let want = |k: usize, x: &M| match k {
        0 => matches!(x, M::U(_) | M::N(_)),
        1 => matches!(x, M::A(_)),
        2 => matches!(x, M::A(v) if !v.is_empty()),
        3 => matches!(x, M::Map(_)),
        4 | 10 | 11 => matches!(x, M::Map(v) if !v.is_empty()),
        7 => match x {
            M::A(v) => v.len() == 1,
            M::Map(v) => v.len() == 1,
            M::Tag(..) => true,
            _ => false,
        },
        12 => match x {
            M::T(_) => true,
            M::Map(v) => v.len() == 1,
            _ => false,
        },
        _ => true,
    };
    // Part of the record, to be found elsewhere in it.
    let graft = match kind {
        13 => {
            let mut i = s.usize(items);
            node_mut(&mut m, &mut i).filter(|x| x.items() < 40).cloned()
        }
        _ => None,
    };
    let start = s.usize(items);
    let mut at = start;
    for off in 0..items.min(64) {
        let mut i = (start + off) % items;
        if let Some(x) = node_mut(&mut m, &mut i) {
            if want(kind, x) {
                at = (start + off) % items;
                break;
            }
        }
    }
    let mut i = at;
    let x = match node_mut(&mut m, &mut i) {
        Some(x) => x,
        None => return ("none", m),
    };
    match (kind, &mut *x) {
        (0, M::U(_) | M::N(_)) => {
            let n = match s.below(3) {
                0 => {
                    let b = 1u64 << *s.pick(&[7u32, 8, 15, 16, 31, 32, 63, 21, 0]);
                    b.wrapping_sub(s.below(2)).wrapping_add(s.below(2) * 256)
                }
                1 => gen_u64(s),
                _ => *s.pick(&[0xd800, 0xdfff, 0x10ffff, 0x110000, u64::MAX]),
            };
            *x = if s.chance(400) { M::N(n) } else { M::U(n) };
        }
        (1, M::A(v)) => {
            let at = s.usize(v.len() + 1);
            let y = if v.is_empty() || s.chance(300) { M::U(0) } else { v[s.usize(v.len())].clone() };
            v.insert(at, y);
        }
        (2, M::A(v)) if !v.is_empty() => {
            let at = s.usize(v.len());
            v.remove(at);
        }
        (3, M::Map(v)) => {
            let k = match s.below(4) {
                0 => M::U(gen_u64(s)),
                1 => M::T(gen_string(s, false)),
                2 if !v.is_empty() => {
                    let i = s.usize(v.len());
                    let b = v[i].0.clone();
                    tweak(s, &b)
                }
                _ => {
                    let mut b = 3;
                    gen_m(s, 1, &mut b)
                }
            };
            let y = if v.is_empty() || s.chance(500) { M::U(s.below(30)) } else { v[s.usize(v.len())].1.clone() };
            if !v.iter().any(|(a, _)| *a == k) {
                v.push((k, y));
            }
        }
        (4, M::Map(v)) if !v.is_empty() => {
            let at = s.usize(v.len());
            v.remove(at);
        }
        (5, _) => {
            *x = match (&*x, s.below(3)) {
                (M::U(n), 0) => M::T(n.to_string()),
                (M::U(n), 1) => M::B(n.to_be_bytes().to_vec()),
                (M::U(n), _) => M::S(20 + (*n % 4) as u8),
                (M::N(n), 0) => M::U(*n),
                (M::N(n), 1) => M::U(n.wrapping_neg()),
                (M::T(t), 0) => M::B(t.clone().into_bytes()),
                (M::T(t), 1) => M::A(t.bytes().map(|b| M::U(b as u64)).collect()),
                (M::B(b), 0) => M::T(String::from_utf8_lossy(b).into_owned()),
                (M::B(b), 1) => M::A(b.iter().map(|b| M::U(*b as u64)).collect()),
                (M::B(_), _) => M::U(0),
                (M::A(v), 0) => M::Map(v.iter().enumerate().map(|(i, x)| (M::U(i as u64), x.clone())).collect()),
                (M::A(_), 1) => M::B(vec![]),
                (M::Map(v), 0) => M::A(v.iter().map(|(_, x)| x.clone()).collect()),
                (M::Map(v), 1) => M::A(v.iter().map(|(k, x)| M::A(vec![k.clone(), x.clone()])).collect()),
                (M::S(k), 0) => M::U((*k == 21) as u64),
                (M::S(k), 1) => M::S(20 + (k - 20 + 1) % 4),
                (_, _) => M::S(22),
            };
        }
        (6, _) => {
            let y = x.clone();
            *x = match s.below(4) {
                0 => M::A(vec![y]),
                1 => M::Tag(s.below(4), Box::new(y)),
                2 => M::Map(vec![(M::t("v"), y)]),
                _ => M::B(raw_bytes(&y)),
            };
        }
        (7, M::A(v)) if v.len() == 1 => *x = v[0].clone(),
        (7, M::Map(v)) if v.len() == 1 => *x = v[0].1.clone(),
        (7, M::Tag(_, y)) => *x = (**y).clone(),
        (8, _) => *x = M::S(if s.chance(300) { 23 } else { 22 }),
        (10, M::Map(v)) if !v.is_empty() => {
            let i = s.usize(v.len());
            let b = v[i].0.clone();
            v[i].0 = tweak(s, &b);
        }
        (11, M::Map(v)) if v.len() > 1 => {
            // Two fields exchange their contents.
            let i = s.usize(v.len() - 1);
            let y = v[i].1.clone();
            v[i].1 = v[i + 1].1.clone();
            v[i + 1].1 = y;
        }
        // Names of variants with and without contents.
        (12, M::T(_)) => {
            let y = match s.below(6) {
                0 => M::S(22),
                1 => M::S(23),
                2 => M::U(s.below(3)),
                3 => M::A(vec![]),
                4 => M::Map(vec![]),
                _ => {
                    let mut b = 3;
                    gen_m(s, 1, &mut b)
                }
            };
            *x = M::Map(vec![(x.clone(), y)]);
        }
        (12, M::Map(v)) if v.len() == 1 => *x = v[0].0.clone(),
        (13, _) if graft.is_some() => *x = graft.unwrap(),
        (_, _) => {
            let y = x.clone();
            *x = tweak(s, &y);
        }
    }
    (FORGE[kind], m)
}
