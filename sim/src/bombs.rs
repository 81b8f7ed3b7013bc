//! World 2 (C05): a small node with a 256 KiB stack and an accounted, bounded heap, fed by hostile
//! senders. Every message claims, nests or repeats what an attacker would; every entry point and
//! record type is a target; whatever was decoded is encoded again on the same small node.

use crate::cluster::{judge_dec, Situation, LIMIT};
use crate::ctx::{hex, Ctx};
use crate::model::{self, canon, head, lenient, M};
use crate::node::Node;
use crate::seam::{measured, Faults, Oom, Usage};
use crate::src::{fnv, mix, Src};
use crate::zoo::{show, DecPath, EncOut, EncPath, Entry, Held};

pub const STACK: usize = 256 << 10;

pub fn bound(len: usize) -> i64 {
    (128 << 10) + (2 << 10) * len as i64
}

fn stack() -> usize {
    std::env::var("CBORSIM_STACK").ok().and_then(|s| s.parse::<usize>().ok()).map_or(STACK, |k| k << 10)
}

/// Replace one item of `m`, chosen by `s`, by the raw bytes `bomb`.
fn plant(s: &mut Src, m: &M, bomb: &[u8]) -> Vec<u8> {
    let marker = M::B(b"\xfe\xffbomb\xff\xfe\x00!".to_vec());
    let mut m = m.clone();
    let n = m.items();
    let mut i = s.usize(n);
    match model::node_mut(&mut m, &mut i) {
        Some(x) => *x = marker.clone(),
        None => return bomb.to_vec(),
    }
    let raw = model::raw_bytes(&m);
    let mk = model::raw_bytes(&marker);
    match raw.windows(mk.len()).position(|w| w == &mk[..]) {
        Some(p) => {
            let mut v = raw[..p].to_vec();
            v.extend_from_slice(bomb);
            v.extend_from_slice(&raw[p + mk.len()..]);
            v
        }
        None => bomb.to_vec(),
    }
}

fn claim(s: &mut Src) -> u64 {
    let base = match s.below(12) {
        0 => 24,
        1 => 1 << 16,
        2 => 1 << 20,
        3 => 1 << 24,
        4 => 1 << 28,
        5 => 1 << 31,
        6 => 1 << 32,
        7 => 1 << 40,
        8 => 1 << 60,
        9 => 1 << 63,
        10 => u64::MAX,
        _ => s.below(5000),
    };
    match s.below(3) {
        0 => base,
        1 => base.wrapping_sub(s.below(64)),
        _ => base / (1 + s.below(40)),
    }
}

fn small(s: &mut Src, out: &mut Vec<u8>) {
    match s.below(8) {
        0 => out.push(0x00),
        1 => out.push(0x80),
        2 => out.push(0xa0),
        3 => out.push(0x60),
        4 => out.push(0x40),
        5 => out.push(0xf6),
        6 => out.extend_from_slice(&[0x81, 0x00]),
        _ => out.extend_from_slice(&[0xa1, 0x00, 0x00]),
    }
}

/// A length that the message does not back up.
fn length_bomb(s: &mut Src) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..s.below(4) {
        // Containers around it.
        match s.below(4) {
            0 => v.push(0x81),
            1 => v.extend_from_slice(&[0xa1, 0x00]),
            2 => v.push(0xc1),
            _ => v.extend_from_slice(&[0x82, 0x00]),
        }
    }
    let repeat = 1 + if s.chance(300) { s.below(60) } else { 0 };
    let major = 2 + s.below(4) as u8;
    for _ in 0..repeat {
        head(&mut v, major, claim(s));
    }
    for _ in 0..s.below(40) {
        small(s, &mut v);
    }
    v
}

const DEPTHS: &[u64] = &[64, 65, 63, 62, 66, 127, 128, 126, 200, 256, 1000, 5000, 30_000];

/// A chain of containers.
fn nest_bomb(s: &mut Src, thorough: bool) -> (u64, Vec<u8>) {
    let mut d = *s.pick(DEPTHS);
    if thorough && s.chance(50) {
        d = 400_000;
    }
    d += s.below(3);
    let mode = s.below(7);
    let mut v = Vec::with_capacity(2 * d as usize + 8);
    let mut tail = vec![];
    for i in 0..d {
        match if mode < 6 { mode } else { (i * 5 + i / 7) % 6 } {
            0 => v.push(0x81),
            1 => v.extend_from_slice(&[0xa1, 0x01]),
            2 => v.push(0xc9),
            3 => {
                v.push(0xa1);
                tail.push(0x01);
            }
            4 => v.extend_from_slice(&[0x82, 0x01]),
            _ => {
                v.push(0x82);
                tail.push(0xf6);
            }
        }
    }
    if s.chance(850) {
        match s.below(4) {
            0 => v.push(0x00),
            1 => v.push(0x80),
            2 => v.push(0xa0),
            _ => v.extend_from_slice(&[0x61, b'x']),
        }
        tail.reverse();
        v.extend_from_slice(&tail);
    }
    (d, v)
}

fn wide_bomb(s: &mut Src, thorough: bool) -> Vec<u8> {
    let n = if s.chance(200) { 2000 + s.below(if thorough { 60_000 } else { 12_000 }) } else { s.below(1200) };
    let mut v = vec![];
    match s.below(4) {
        0 => {
            head(&mut v, 4, n);
            let mut unit = vec![];
            small(s, &mut unit);
            (0..n).for_each(|_| v.extend_from_slice(&unit));
        }
        1 => {
            head(&mut v, 5, n);
            let mut unit = vec![];
            small(s, &mut unit);
            for i in 0..n {
                head(&mut v, 0, i);
                v.extend_from_slice(&unit);
            }
        }
        2 => {
            head(&mut v, 3, n);
            v.resize(v.len() + n as usize, b'a');
        }
        _ => {
            head(&mut v, 2, n);
            v.resize(v.len() + n as usize, 0x80);
        }
    }
    v
}

/// A well-formed item of an unexpected shape and size: what error paths have to describe.
fn odd_item(s: &mut Src, depth: u64) -> M {
    let wide = |s: &mut Src| {
        let n = *s.pick(&[3u64, 9, 17, 33, 65, 70, 130, 260, 520]) + s.below(8);
        let mut t = String::new();
        for _ in 0..s.below(4) {
            t.push('a');
        }
        let c = *s.pick(&['\u{e9}', '\u{20ac}', '\u{1f600}', 'x', '\0']);
        while (t.len() as u64) < n {
            t.push(if s.chance(60) { '\u{10ffff}' } else { c });
        }
        t
    };
    match s.weighted(&[8, 3, 2, 2, 2, 1, if depth < 2 { 2 } else { 0 }, if depth < 2 { 2 } else { 0 }]) {
        0 => M::T(wide(s)),
        1 => M::B((0..s.below(300)).map(|i| (i * 7 + 0x80) as u8).collect()),
        2 => M::U(*s.pick(&[0, 23, 255, 256, 1 << 31, (1 << 32) + 1, 1 << 63, u64::MAX])),
        3 => M::N(*s.pick(&[0, 23, 255, 256, 1 << 31, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, u64::MAX])),
        4 => M::S(*s.pick(&[20u8, 21, 22, 23])),
        5 => {
            let tag = *s.pick(&[0u64, 24, 55799, 1 << 40, u64::MAX]);
            M::Tag(tag, Box::new(odd_item(s, depth + 1)))
        }
        6 => M::A((0..s.below(5)).map(|_| odd_item(s, depth + 1)).collect()),
        _ => {
            let v: Vec<(M, M)> = (0..1 + s.below(3)).map(|_| (odd_item(s, depth + 1), odd_item(s, depth + 1))).collect();
            M::Map(v)
        }
    }
}

/// Nest the type within itself as far as its mapping allows.
fn recurse(s: &mut Src, e: &Entry, seed: &M) -> M {
    let mut m = seed.clone();
    let n = seed.items();
    let tries = if n < 2000 { n.min(300) } else { 10 };
    let ok = (0..tries).find_map(|_| {
        let at = s.usize(n);
        let mut t = seed.clone();
        let mut i = at;
        *model::node_mut(&mut t, &mut i)? = seed.clone();
        (at > 0 && e.dec(&t).is_ok() && t.depth() > seed.depth()).then_some(at)
    });
    if let Some(at) = ok {
        let goal = *s.pick(&[64usize, 65, 66, 63, 100, 127, 130]);
        for _ in 0..130 {
            let mut t = seed.clone();
            let mut i = at;
            match model::node_mut(&mut t, &mut i) {
                Some(x) => *x = m.clone(),
                None => break,
            }
            if t.depth() > goal || t.items() > 4000 {
                break;
            }
            m = t;
        }
        // Pad to the exact depth through a generic position, if there is one.
        let short = goal.saturating_sub(m.depth());
        if short > 0 && s.chance(500) {
            let k = m.items() - 1;
            let mut i = k;
            if let Some(x) = model::node_mut(&mut m, &mut i) {
                for _ in 0..short {
                    let y = x.clone();
                    *x = M::A(vec![y]);
                }
            }
        }
    }
    m
}

const PATHS: &[DecPath] = &[DecPath::Slice, DecPath::ReadValue, DecPath::NonStrict, DecPath::ReadLenient, DecPath::Read127];

/// What a hostile sender makes of a record.
pub fn hostile(s: &mut Src, thorough: bool, e: &Entry, m: &M, last: &[u8]) -> (&'static str, Vec<u8>) {
    match s.weighted(&[3, 4, 4, 2, 3, 3, 1, 5]) {
        0 => {
            let raw = model::raw_bytes(&m.sorted());
            let (_, b) = model::corrupt(s, &raw, last);
            ("damage", b)
        }
        1 => {
            let bomb = length_bomb(s);
            ("length", if s.chance(650) { plant(s, m, &bomb) } else { bomb })
        }
        2 => {
            let (_, bomb) = nest_bomb(s, thorough);
            ("nesting", if s.chance(500) { plant(s, m, &bomb) } else { bomb })
        }
        3 => {
            let bomb = wide_bomb(s, thorough);
            ("width", if s.chance(500) { plant(s, m, &bomb) } else { bomb })
        }
        4 => ("recursion", model::raw_bytes(&recurse(s, e, m).sorted())),
        5 => {
            let (_, x) = model::forge(s, m);
            let (_, b) = model::byzantine(s, &x);
            ("byzantine", b)
        }
        7 => {
            let odd = odd_item(s, 0);
            let mut m = m.clone();
            for _ in 0..1 + s.below(2) {
                let mut i = s.usize(m.items());
                if let Some(x) = model::node_mut(&mut m, &mut i) {
                    *x = odd.clone();
                }
            }
            ("misplaced", model::raw_bytes(&m.sorted()))
        }
        _ => {
            let mut v: Vec<u8> = (0..s.below(24)).map(|_| s.below(256) as u8).collect();
            v.insert(0, *s.pick(&[0x80u8, 0x9b, 0xbb, 0x5b, 0x7b, 0xdb, 0xfb, 0x1b, 0xff, 0x9f, 0xf8, 0xc0]));
            ("noise", v)
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    let reg = ctx.reg;
    let thorough = ctx.thorough;
    let node = Node::boot(ctx.src.below(1 << 16), stack());
    let nmsg = 3 + ctx.src.below(12);
    let serde = if ctx.src.chance(500) { 300 } else { 0 };
    let budget = *ctx.src.pick(&[8i64, 3, 20, 60]);
    let mut last: Vec<u8> = vec![0x80];
    for step in 0..nmsg {
        ctx.src.begin();
        if ctx.src.below(64) == 0 {
            ctx.src.end();
            continue;
        }
        let s = &mut ctx.src;
        let ei = match s.weighted(&[3, 1, 2, 6]) {
            0 => reg.generic,
            1 => reg.any_item,
            2 => *s.pick(&reg.recursive),
            _ if s.chance(serde) => *s.pick(&reg.serde),
            _ => s.usize(reg.all.len()),
        };
        let e: &Entry = &reg.all[ei];
        if !e.ops.can_decode() {
            ctx.src.end();
            continue;
        }
        let t = e.gen(s, budget);
        let m = e.enc(&t);
        let (kind, bytes) = hostile(s, thorough, e, &m, &last);
        let path = *s.pick(PATHS);
        let nest = match s.below(8) {
            0 => Some(0),
            1 => Some(127),
            2 => Some(-1),
            3 => Some(-128),
            4 => Some(s.below(128) as i8),
            5 => None,
            _ => Some(64),
        };
        let repath = *s.pick(&[EncPath::ToVec, EncPath::ToValueWrite, EncPath::Append, EncPath::InTuple, EncPath::InMap]);
        ctx.stats.add(&format!("fault.hostile.{kind}"), 1);
        step_one(ctx, &node, step, e, ei, kind, &bytes, path, nest, repath);
        last = bytes;
        last.truncate(4096);
        ctx.src.end();
        if ctx.failed() {
            return;
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn step_one(ctx: &mut Ctx, node: &Node, step: u64, e: &Entry, ei: usize, kind: &str, bytes: &[u8], path: DecPath, nest: Option<i8>, repath: EncPath) {
    ctx.stats.sim_us += 1000;
    let lim = bound(bytes.len());
    let faults = Faults { limit: lim, hard: true, ..Default::default() };
    let parse64 = lenient(bytes, LIMIT);
    let parse_deep = lenient(bytes, 2000);
    let depth = parse_deep.as_ref().map(|p| p.m.depth());
    let what = || format!("{} via {path:?} of {} ({} bytes, {kind})", e.name, hex(bytes), bytes.len());

    // The generic reader, with an arbitrary nesting limit. No limit at all is the caller's own
    // promise that the input is not deeper than its stack allows.
    let unlimited_ok = depth.map_or(false, |d| d <= 127);
    if nest.is_some() || unlimited_ok {
        for strict in [true, false] {
            let b = bytes.to_vec();
            let r = node.run(move |mem| {
                mem.held.clear();
                let (r, u) = measured(faults, || {
                    let r = if strict { oasis_cbor::reader::read_nested(&b, nest) } else { oasis_cbor::reader::read_nested_non_strict(&b, nest) };
                    r.is_ok()
                });
                (r.map_err(|e| crate::panic_text(&*e)), u)
            });
            ctx.judged();
            let (r, u) = r.unwrap_or_else(|p| (Err(p), Usage::default()));
            let txt = || format!("{} generic read (limit {nest:?}) of {} ({} bytes, {kind})", if strict { "strict" } else { "lenient" }, hex(bytes), bytes.len());
            if u.failed > 0 {
                ctx.violate(&["C05"], "memory-bound", || format!("{}: needed more than {lim} bytes of memory", txt()));
                return;
            }
            match r {
                Err(p) => {
                    ctx.violate(&["C05"], "reader-panicked", || format!("{}: panic: {p}", txt()));
                    return;
                }
                Ok(ok) => {
                    let within = nest.map_or(true, |n| n >= 0 && depth.map_or(false, |d| d <= n as usize));
                    if ok && depth.is_some() && !within {
                        ctx.violate(&["C05"], "limit-not-enforced", || format!("{}: accepted at depth {depth:?}", txt()));
                        return;
                    }
                    if !ok && within && parse_deep.is_some() && (!strict || model::strict(bytes, 2000).is_some()) {
                        ctx.violate(&["C05"], "within-limit-rejected", || format!("{}: rejected at depth {depth:?}", txt()));
                        return;
                    }
                }
            }
        }
    }

    // The typed entry point on the small node.
    let (b, ops) = (bytes.to_vec(), e.ops.clone());
    let r = node.run(move |_| {
        let (r, u) = measured(faults, || ops.decode(&b, path));
        let r = r.map_err(|e| if e.is::<Oom>() { "allocation failure".to_string() } else { crate::panic_text(&*e) });
        (r, u)
    });
    let (r, u): (Result<Result<Box<dyn Held>, String>, String>, Usage) = match r {
        Ok(x) => x,
        Err(p) => (Err(p), Usage::default()),
    };
    if u.failed > 0 {
        ctx.violate(&["C05"], "memory-bound", || format!("{}: needed more than {lim} bytes of memory", what()));
        return;
    }
    max(ctx, "max.decode-memory-percent-of-bound", u.peak.max(0) as u64 * 100 / lim as u64);
    let accepted = matches!(r, Ok(Ok(_)));
    let one_call = path != DecPath::Read127;
    let over = one_call && parse64.is_none() && parse_deep.is_some();
    if over && accepted {
        ctx.violate(&["C05"], "over-deep-accepted", || format!("{}: depth {depth:?} accepted", what()));
        return;
    }
    if over {
        ctx.count("probe.over-deep-rejected");
    }
    // What it decoded to is encoded on the same node.
    let (got, held) = match r {
        Err(p) => (Err(p), None),
        Ok(Err(x)) => (Ok(Err(x)), None),
        Ok(Ok(h)) => (Ok(Ok((h.tree(), None))), Some(h)),
    };
    let outcome = match &got {
        Ok(Ok((t, _))) => show(t),
        x => show(x),
    };
    ctx.ev("hostile", mix(ei as u64, path as u64), mix(fnv(bytes), accepted as u64), || {
        format!("t={step} hostile message to {}: {}", what(), outcome)
    });
    ctx.case(mix(5, ei as u64), mix(fnv(bytes), path as u64));
    // Exactly at the limit must work.
    if one_call && depth == Some(LIMIT) && !accepted {
        let strict_ok = model::strict(bytes, 2000).is_some();
        let form = matches!(path, DecPath::NonStrict | DecPath::ReadLenient) || strict_ok;
        if form && e.dec(&parse_deep.as_ref().unwrap().m).is_ok() && got.is_ok() && !e.name.contains("<Value") {
            ctx.violate(&["C05"], "within-limit-rejected", || format!("{}: depth 64 rejected: {}", what(), outcome));
            return;
        }
    }
    if depth == Some(LIMIT) && accepted {
        ctx.count("probe.depth-64-accepted");
    }
    let sit = Situation { original: None, family: false, foreign: false };
    judge_dec(ctx, e, bytes, path, &sit, &got, None);
    if ctx.failed() {
        return;
    }
    let (t, h) = match (got, held) {
        (Ok(Ok((t, _))), Some(h)) => (t, h),
        _ => return,
    };
    // A decoded record may be larger than its input: defaults take no bytes.
    let lim = (256 << 10) + (16 << 10) * bytes.len() as i64;
    let faults = Faults { limit: lim, hard: true, ..Default::default() };
    let r = node.run(move |mem| {
        mem.held.insert(0, (0, h));
        let (r, u) = measured(faults, || mem.held[&0].1.encode(repath));
        (r.map_err(|e| crate::panic_text(&*e)), u)
    });
    ctx.judged();
    let (r, u) = r.unwrap_or_else(|p| (Err(p), Usage::default()));
    max(ctx, "max.encode-memory-percent-of-bound", u.peak.max(0) as u64 * 100 / lim as u64);
    let why = match &r {
        Ok(EncOut::Refused(w)) => w.clone(),
        Err(p) => p.clone(),
        _ => return,
    };
    let depth_ok = if matches!(repath, EncPath::InTuple | EncPath::InMap) { 126 } else { 127 };
    let expressible = canon(&e.enc(&t), depth_ok).is_ok();
    if u.failed > 0 {
        ctx.violate(&["C05"], "memory-bound", || format!("encoding what {} decoded to: needed more than {lim} bytes of memory", what()));
    } else if expressible && (why.starts_with("panic") || e.ops.total()) {
        ctx.violate(&["C05"], "encoder-panicked", || format!("encoding ({repath:?}) what {} decoded to: {why}", what()));
    }
}

fn max(ctx: &mut Ctx, k: &str, v: u64) {
    let c = ctx.stats.counts.entry(k.to_string()).or_default();
    if v > *c {
        *c = v;
    }
}
