//! World 7 (C14): a cluster whose nodes do not share one architecture. Next to the native node
//! (64 bit, little endian) run nodes of other word sizes and byte orders, each a process of this
//! very program compiled for its target and run by node.js or the Miri interpreter. Records and
//! messages go back and forth; every call must come out on every node as it does on the others.
//!
//! Both ends of the wire between the nodes are here; the far end is `serve`.

use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

use oasis_cbor::Value;

use crate::calls::{Call, Out};
use crate::model::M;
use crate::ty::{T, VM};
use crate::types::Registry;
use crate::zoo::{DecPath, EncOut, EncPath};

// ---- the wire -----------------------------------------------------------------------------------

fn put(o: &mut Vec<u8>, n: u128) {
    let mut n = n;
    while n >= 0x80 {
        o.push(n as u8 | 0x80);
        n >>= 7;
    }
    o.push(n as u8);
}

fn put_bytes(o: &mut Vec<u8>, b: &[u8]) {
    put(o, b.len() as u128);
    o.extend_from_slice(b);
}

fn put_m(o: &mut Vec<u8>, m: &M) {
    match m {
        M::U(n) => {
            o.push(0);
            put(o, *n as u128);
        }
        M::N(n) => {
            o.push(1);
            put(o, *n as u128);
        }
        M::B(b) => {
            o.push(2);
            put_bytes(o, b);
        }
        M::T(t) => {
            o.push(3);
            put_bytes(o, t.as_bytes());
        }
        M::A(v) => {
            o.push(4);
            put(o, v.len() as u128);
            v.iter().for_each(|x| put_m(o, x));
        }
        M::Map(v) => {
            o.push(5);
            put(o, v.len() as u128);
            v.iter().for_each(|(a, b)| {
                put_m(o, a);
                put_m(o, b);
            });
        }
        M::Tag(t, x) => {
            o.push(6);
            put(o, *t as u128);
            put_m(o, x);
        }
        M::S(n) => {
            o.push(7);
            o.push(*n);
        }
    }
}

fn put_t(o: &mut Vec<u8>, t: &T) {
    let list = |o: &mut Vec<u8>, v: &[T]| {
        put(o, v.len() as u128);
        v.iter().for_each(|x| put_t(o, x));
    };
    match t {
        T::U(n) => {
            o.push(0);
            put(o, *n);
        }
        T::I(n) => {
            o.push(1);
            put(o, *n as u64 as u128);
        }
        T::B(b) => {
            o.push(2);
            o.push(*b as u8);
        }
        T::S(s) => {
            o.push(3);
            put_bytes(o, s.as_bytes());
        }
        T::Y(b) => {
            o.push(4);
            put_bytes(o, b);
        }
        T::C(c) => {
            o.push(5);
            put(o, *c as u128);
        }
        T::Unit => o.push(6),
        T::L(v) => {
            o.push(7);
            list(o, v);
        }
        T::Mp(v) => {
            o.push(8);
            put(o, v.len() as u128);
            v.iter().for_each(|(a, b)| {
                put_t(o, a);
                put_t(o, b);
            });
        }
        T::Non => o.push(9),
        T::Som(x) => {
            o.push(10);
            put_t(o, x);
        }
        T::St(v) => {
            o.push(11);
            list(o, v);
        }
        T::En(i, v) => {
            o.push(12);
            put(o, *i as u128);
            list(o, v);
        }
        T::V(m) => {
            o.push(13);
            put_m(o, &m.0);
        }
    }
}

/// Reading side; both ends are ours, so malformed data is a defect of the harness.
struct In<'a>(&'a [u8]);

impl<'a> In<'a> {
    fn byte(&mut self) -> u8 {
        let (a, b) = self.0.split_first().expect("harness: short message");
        self.0 = b;
        *a
    }
    fn num(&mut self) -> u128 {
        let (mut n, mut shift) = (0u128, 0);
        loop {
            let b = self.byte();
            n |= ((b & 0x7f) as u128) << shift;
            shift += 7;
            if b < 0x80 {
                return n;
            }
        }
    }
    fn bytes(&mut self) -> Vec<u8> {
        let n = self.num() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
    fn text(&mut self) -> String {
        String::from_utf8(self.bytes()).expect("harness: text")
    }
    fn m(&mut self) -> M {
        match self.byte() {
            0 => M::U(self.num() as u64),
            1 => M::N(self.num() as u64),
            2 => M::B(self.bytes()),
            3 => M::T(self.text()),
            4 => M::A((0..self.num()).map(|_| self.m()).collect()),
            5 => M::Map((0..self.num()).map(|_| (self.m(), self.m())).collect()),
            6 => {
                let t = self.num() as u64;
                M::Tag(t, Box::new(self.m()))
            }
            _ => M::S(self.byte()),
        }
    }
    fn list(&mut self) -> Vec<T> {
        (0..self.num()).map(|_| self.t()).collect()
    }
    fn t(&mut self) -> T {
        match self.byte() {
            0 => T::U(self.num()),
            1 => T::I(self.num() as u64 as i64),
            2 => T::B(self.byte() != 0),
            3 => T::S(self.text()),
            4 => T::Y(self.bytes()),
            5 => T::C(char::from_u32(self.num() as u32).expect("harness: char")),
            6 => T::Unit,
            7 => T::L(self.list()),
            8 => T::Mp((0..self.num()).map(|_| (self.t(), self.t())).collect()),
            9 => T::Non,
            10 => T::Som(Box::new(self.t())),
            11 => T::St(self.list()),
            12 => {
                let i = self.num() as usize;
                T::En(i, self.list())
            }
            _ => T::V(VM(self.m())),
        }
    }
}

const ENC: &[EncPath] = &[
    EncPath::ToVec,
    EncPath::ToValueWrite,
    EncPath::Append,
    EncPath::Optional,
    EncPath::InTuple,
    EncPath::InMap,
    EncPath::Cloned,
    EncPath::InOption,
];
const DEC: &[DecPath] = &[DecPath::Slice, DecPath::NonStrict, DecPath::ReadValue, DecPath::Read127, DecPath::ReadLenient];

fn put_call(o: &mut Vec<u8>, reg: &Registry, c: &Call) {
    let index = |name: &str| {
        static NAMES: OnceLock<HashMap<&'static str, usize>> = OnceLock::new();
        let names = NAMES.get_or_init(|| reg.all.iter().enumerate().rev().map(|(i, e)| (e.name, i)).collect());
        names[name] as u128
    };
    match c {
        Call::Enc { entry, tree, hist, path } => {
            o.push(0);
            put(o, index(entry.name));
            put_t(o, tree);
            put(o, *hist as u128);
            match path {
                EncPath::Alt(i) => put(o, 100 + *i as u128),
                p => put(o, ENC.iter().position(|x| x == p).unwrap() as u128),
            }
        }
        Call::Dec { entry, bytes, path, .. } => {
            o.push(1);
            put(o, index(entry.name));
            put_bytes(o, bytes);
            put(o, DEC.iter().position(|x| x == path).unwrap() as u128);
        }
        Call::Gen { bytes, strict, nest, .. } => {
            o.push(2);
            put_bytes(o, bytes);
            o.push(*strict as u8);
            o.push(*nest as u8);
        }
        Call::Write { m, hist, limit } => {
            o.push(3);
            put_m(o, m);
            put(o, *hist as u128);
            o.push(limit.is_some() as u8);
            o.push(limit.unwrap_or(0) as u8);
        }
    }
}

fn get_call(i: &mut In, reg: &Registry) -> Call {
    match i.byte() {
        0 => {
            let entry = reg.all[i.num() as usize].clone();
            let tree = i.t();
            let hist = i.num() as u64;
            let p = i.num() as usize;
            Call::Enc { entry, tree, hist, path: if p >= 100 { EncPath::Alt(p - 100) } else { ENC[p] } }
        }
        1 => {
            let entry = reg.all[i.num() as usize].clone();
            let bytes = Arc::new(i.bytes());
            Call::Dec { entry, bytes, path: DEC[i.num() as usize], rx: false }
        }
        2 => Call::Gen { bytes: Arc::new(i.bytes()), strict: i.byte() != 0, nest: i.byte() as i8, rx: false },
        _ => {
            let m = i.m();
            let hist = i.num() as u64;
            let some = i.byte() != 0;
            let n = i.byte() as i8;
            Call::Write { m, hist, limit: some.then_some(n) }
        }
    }
}

/// An outcome in a form that is the same on every node; wordings are left out.
fn put_out(o: &mut Vec<u8>, out: &Out) {
    let enc = |o: &mut Vec<u8>, e: &EncOut| match e {
        EncOut::Bytes(b) => {
            o.push(0);
            put_bytes(o, b);
        }
        EncOut::Omitted => o.push(1),
        EncOut::Refused(_) => o.push(2),
        EncOut::Clobbered(_) => o.push(3),
    };
    match out {
        Out::Enc(e) => {
            o.push(0);
            enc(o, e);
        }
        Out::Dec(Ok(t)) => {
            o.push(1);
            put_t(o, t);
        }
        Out::Dec(Err(_)) => o.push(2),
        Out::Gen(Ok((m, e))) => {
            o.push(3);
            match m {
                Some(m) => put_m(o, m),
                None => o.push(255),
            }
            enc(o, e);
        }
        Out::Gen(Err(_)) => o.push(4),
        Out::Write(Ok(b)) => {
            o.push(5);
            put_bytes(o, b);
        }
        Out::Write(Err(_)) => o.push(6),
        Out::Panic(_) => o.push(7),
    }
}

/// The order of generic values as a node sees it.
fn order(a: &Value, b: &Value) -> u8 {
    a.cmp(b) as i8 as u8
}

/// The far end: the answer to one request.
fn answer(reg: &Registry, request: &[u8]) -> Vec<u8> {
    let mut r = vec![];
    let mut i = In(request);
    match i.byte() {
        0 => put_out(&mut r, &get_call(&mut i, reg).prepare().go()),
        1 => r.extend_from_slice(crate::zoo::show(&get_call(&mut i, reg).prepare().go()).as_bytes()),
        2 => {
            for _ in 0..i.num() {
                let (x, y) = (crate::model::to_value(&i.m()), crate::model::to_value(&i.m()));
                r.push(order(&x, &y));
            }
        }
        _ => r.push(HERE),
    }
    r
}

/// What a node answers when it is asked whether it is there.
const HERE: u8 = 0x21;

/// The far end in the interpreter: answer requests until the wire is closed.
pub fn serve() {
    use std::io::{Read, Write};
    std::panic::set_hook(Box::new(|_| {}));
    let (mut inp, mut out) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut reg = None;
    loop {
        let mut len = [0; 4];
        if inp.read_exact(&mut len).is_err() {
            return;
        }
        let mut b = vec![0; u32::from_le_bytes(len) as usize];
        if inp.read_exact(&mut b).is_err() {
            return;
        }
        let r = answer(reg.get_or_insert_with(crate::types::registry), &b);
        let _ = out.write_all(&(r.len() as u32).to_le_bytes());
        let _ = out.write_all(&r);
        let _ = out.flush();
    }
}

/// The far end as a WebAssembly module: node.js carries the requests in and the answers out.
#[cfg(target_arch = "wasm32")]
mod module {
    static mut ROOM: Vec<u8> = vec![];
    static mut REG: Option<crate::types::Registry> = None;

    #[no_mangle]
    pub extern "C" fn far_room(len: usize) -> *mut u8 {
        unsafe {
            ROOM = vec![0; len];
            ROOM.as_mut_ptr()
        }
    }

    #[no_mangle]
    pub extern "C" fn far_answer() -> usize {
        unsafe {
            let reg = REG.get_or_insert_with(crate::types::registry);
            ROOM = super::answer(reg, &ROOM);
            ROOM.len()
        }
    }

    #[no_mangle]
    pub extern "C" fn far_at() -> *mut u8 {
        unsafe { ROOM.as_mut_ptr() }
    }
}

#[cfg(not(far))]
pub use world::run;

#[cfg(not(far))]
mod world {
    use super::*;
    use std::cell::RefCell;
    use std::io::{Read, Write};
    use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

    use crate::calls::pool;
    use crate::ctx::Ctx;
    use crate::model::{self, head};
    use crate::src::{fnv, mix, Src};
    use crate::zoo::show;

    /// Word size and byte order of the nodes.
    pub const TARGETS: &[(&str, &str)] = &[
        ("wasm32-unknown-unknown", "32 bit, little endian"),
        ("s390x-unknown-linux-gnu", "64 bit, big endian"),
        ("powerpc-unknown-linux-gnu", "32 bit, big endian"),
    ];

    /// Which node: those in the interpreter take a thousand times as long, and are asked rarely.
    fn far(s: &mut Src) -> usize {
        match s.below(400) {
            399 => 1,
            398 => 2,
            _ => 0,
        }
    }

    struct Peer {
        child: Child,
        tx: ChildStdin,
        rx: ChildStdout,
    }

    impl Drop for Peer {
        fn drop(&mut self) {
            let _ = self.child.kill();
            let _ = self.child.wait();
        }
    }

    thread_local! {
        static PEERS: RefCell<HashMap<usize, Peer>> = RefCell::new(HashMap::new());
    }

    fn home() -> Option<std::path::PathBuf> {
        std::env::var_os("CBORSIM_FOREIGN").map(Into::into)
    }

    /// Is the node's program there?
    fn built(t: usize) -> bool {
        home().map_or(false, |h| h.join(TARGETS[t].0).exists())
    }

    fn boot(t: usize) -> Option<Peer> {
        let mut child = Command::new("bash")
            .arg(home()?.join(TARGETS[t].0))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let (tx, rx) = (child.stdin.take()?, child.stdout.take()?);
        Some(Peer { child, tx, rx })
    }

    fn exchange(p: &mut Peer, msg: &[u8]) -> std::io::Result<Vec<u8>> {
        p.tx.write_all(&(msg.len() as u32).to_le_bytes())?;
        p.tx.write_all(msg)?;
        p.tx.flush()?;
        let mut len = [0; 4];
        p.rx.read_exact(&mut len)?;
        let mut b = vec![0; u32::from_le_bytes(len) as usize];
        p.rx.read_exact(&mut b)?;
        Ok(b)
    }

    /// Have the node do it. A node that dies is started again once. `None`: it died of it again.
    fn ask(t: usize, msg: &[u8]) -> Option<Vec<u8>> {
        PEERS.with(|peers| {
            let mut peers = peers.borrow_mut();
            for _ in 0..2 {
                if !peers.contains_key(&t) {
                    peers.insert(t, boot(t)?);
                }
                match exchange(peers.get_mut(&t).unwrap(), msg) {
                    Ok(b) => return Some(b),
                    Err(_) => {
                        peers.remove(&t);
                    }
                }
            }
            None
        })
    }

    /// A node that answers nothing may have died of the request, or may not run at all here.
    fn runs(t: usize) -> bool {
        ask(t, &[3]).as_deref() == Some(&[HERE])
    }

    /// Numbers and lengths that only differ from others beyond the 32nd bit or in byte order.
    fn wide(s: &mut Src, n: u64) -> u64 {
        match s.below(8) {
            0 | 1 => n.wrapping_add(1 << 32),
            2 => n.wrapping_add((1 + s.below(0xffff)) << 32),
            3 => n.wrapping_add(1 << 63),
            4 => n.wrapping_add(1 << 31),
            5 => n.wrapping_sub(1 + s.below(3)) & 0xffff_ffff,
            6 => n.swap_bytes(),
            _ => (n as u32).swap_bytes() as u64,
        }
    }

    /// A message with one such number, announced length or tag in it.
    fn widened(s: &mut Src, m: &M) -> Vec<u8> {
        let mut m = m.clone();
        let n = m.items();
        // Some item that has a number or length, the more the better.
        for _ in 0..4 {
            let mut at = s.usize(n);
            let Some(x) = model::node_mut(&mut m, &mut at) else { continue };
            match x {
                M::U(k) => *k = wide(s, *k),
                M::N(k) => *k = wide(s, *k),
                M::Tag(k, _) if s.chance(700) => *k = wide(s, *k),
                M::B(_) | M::T(_) | M::A(_) | M::Map(_) | M::Tag(..) => {
                    let (major, len) = match x {
                        M::B(b) => (2, b.len()),
                        M::T(t) => (3, t.len()),
                        M::A(v) => (4, v.len()),
                        M::Map(v) => (5, v.len()),
                        _ => (6, 0),
                    };
                    let whole = model::raw_bytes(x);
                    let mut short = vec![];
                    head(&mut short, major, match x {
                        M::Tag(t, _) => *t,
                        _ => len as u64,
                    });
                    let mut bomb = vec![];
                    head(&mut bomb, major, wide(s, len as u64));
                    bomb.extend_from_slice(&whole[short.len()..]);
                    let marker = M::B(b"\xfe\xffwide\xff\xfe\x00!".to_vec());
                    *x = marker.clone();
                    let (raw, mk) = (model::raw_bytes(&m), model::raw_bytes(&marker));
                    let p = raw.windows(mk.len()).position(|w| w == &mk[..]).expect("marker");
                    return [&raw[..p], &bomb, &raw[p + mk.len()..]].concat();
                }
                _ => continue,
            }
            break;
        }
        model::raw_bytes(&m.sorted())
    }

    fn widen(s: &mut Src, c: &mut Call) {
        match c {
            Call::Dec { bytes, .. } | Call::Gen { bytes, .. } => {
                if let Some(p) = model::lenient(bytes, 127) {
                    *bytes = Arc::new(widened(s, &p.m));
                }
            }
            Call::Write { m, .. } => {
                let n = m.items();
                let mut at = s.usize(n);
                if let Some(M::U(k) | M::N(k) | M::Tag(k, _)) = model::node_mut(m, &mut at) {
                    *k = wide(s, *k);
                }
            }
            Call::Enc { .. } => {}
        }
    }

    fn attack(s: &mut Src, reg: &Registry, c: &mut Call) -> Option<&'static str> {
        let (entry, b) = match c {
            Call::Dec { entry, bytes, .. } => (entry.clone(), bytes),
            Call::Gen { bytes, .. } => (reg.all[reg.generic].clone(), bytes),
            _ => return None,
        };
        let m = model::lenient(b, 127)?.m;
        let (kind, bytes) = crate::bombs::hostile(s, false, &entry, &m, &b[..b.len().min(4096)]);
        *b = Arc::new(bytes);
        Some(kind)
    }

    fn size(c: &Call) -> usize {
        match c {
            Call::Enc { entry, tree, .. } => model::raw_bytes(&entry.enc(tree)).len(),
            Call::Dec { bytes, .. } | Call::Gen { bytes, .. } => bytes.len(),
            Call::Write { m, .. } => model::raw_bytes(m).len(),
        }
    }

    pub fn run(ctx: &mut Ctx) {
        let reg = ctx.reg;
        let t = far(&mut ctx.src);
        let n = 1 + ctx.src.usize(5);
        let mut calls = pool(&mut ctx.src, reg, n, 0);
        if !built(t) {
            ctx.count("probe.node-not-available");
            return;
        }
        ctx.count(&format!("probe.runs-with-{}", TARGETS[t].0));
        let mut at = t;
        let mut k = 0;
        while k < calls.len() {
            let s = &mut ctx.src;
            s.begin();
            if k < n {
                match s.below(10) {
                    7 | 8 => {
                        widen(s, &mut calls[k]);
                        ctx.stats.add("fault.wide-number-or-length", 1);
                    }
                    9 => {
                        if let Some(kind) = attack(s, reg, &mut calls[k]) {
                            ctx.stats.add(&format!("fault.hostile.{kind}"), 1);
                        }
                    }
                    _ => {}
                }
            }
            let c = calls[k].clone();
            k += 1;
            if size(&c) > if at == 0 { 40_000 } else { 1000 } {
                ctx.src.end();
                continue;
            }
            let here = c.prepare().go();
            one(ctx, at, &c, &here, k);
            if ctx.failed() {
                return;
            }
            // What one node wrote, others read, and what one read, others write.
            let s = &mut ctx.src;
            if calls.len() < n + 4 && s.chance(400) {
                let next = match (&c, &here) {
                    (Call::Enc { entry, .. }, Out::Enc(EncOut::Bytes(b))) if entry.ops.can_decode() => {
                        Some(Call::Dec { entry: entry.clone(), bytes: Arc::new(b.clone()), path: *s.pick(DEC), rx: false })
                    }
                    (Call::Dec { entry, .. }, Out::Dec(Ok(v))) => {
                        Some(Call::Enc { entry: entry.clone(), tree: v.clone(), hist: s.below(1 << 16), path: *s.pick(ENC) })
                    }
                    (Call::Write { .. }, Out::Write(Ok(b))) => {
                        Some(Call::Gen { bytes: Arc::new(b.clone()), strict: true, nest: 127, rx: false })
                    }
                    _ => None,
                };
                let to = far(s);
                if let Some(next) = next {
                    calls.push(next);
                    ctx.count("probe.forwarded");
                    if built(to) && s_rare(&mut ctx.src) {
                        at = to;
                    }
                }
            }
            ctx.src.end();
        }
        // Do the nodes order generic values alike?
        if at != 0 || ctx.src.chance(300) {
            let s = &mut ctx.src;
            let (mut pairs, mut here) = (vec![], vec![]);
            for _ in 0..1 + s.usize(8) {
                s.begin();
                let (x, y) = pair(s);
                here.push(order(&model::to_value(&x), &model::to_value(&y)));
                pairs.push((x, y));
                s.end();
            }
            let mut msg = vec![2];
            put(&mut msg, pairs.len() as u128);
            for (x, y) in &pairs {
                put_m(&mut msg, x);
                put_m(&mut msg, y);
            }
            ctx.judged();
            ctx.case(mix(15, at as u64), fnv(&msg));
            let there = ask(at, &msg);
            if there.is_none() && !runs(at) {
                ctx.count("probe.node-does-not-run");
            } else if there.as_ref() != Some(&here) {
                ctx.violate(&["C14"], "order-differs", || {
                    format!(
                        "comparing {:?}: {:?} here, {there:?} on {} ({})",
                        pairs.iter().map(|(x, y)| format!("{} with {}", show(x), show(y))).collect::<Vec<_>>(),
                        here,
                        TARGETS[at].0,
                        TARGETS[at].1
                    )
                });
            }
        }
    }

    /// Two values that have something in common, or keys of one length that differ here and there.
    fn pair(s: &mut Src) -> (M, M) {
        let (mut a, mut b) = (12, 12);
        match s.below(4) {
            0 => (model::gen_m(s, 3, &mut a).sorted(), model::gen_m(s, 3, &mut b).sorted()),
            1 | 2 => {
                let x = model::gen_m(s, 3, &mut a).sorted();
                let y = model::tweak(s, &x).sorted();
                (x, y)
            }
            _ => {
                let text = s.below(2) == 0;
                let n = 2 + s.usize(38);
                let x: Vec<u8> = (0..n).map(|_| 32 + s.below(64) as u8).collect();
                let mut y = x.clone();
                for _ in 0..1 + s.below(3) {
                    let i = s.usize(n);
                    y[i] = 32 + s.below(64) as u8;
                }
                let m = |b: Vec<u8>| if text { M::T(String::from_utf8(b).unwrap()) } else { M::B(b) };
                let (x, y) = (m(x), m(y));
                if s.below(3) == 0 {
                    (M::A(vec![x, M::U(0)]), M::A(vec![y, M::U(0)]))
                } else {
                    (x, y)
                }
            }
        }
    }

    /// Changing over to another node costs its start: not in every run.
    fn s_rare(s: &mut Src) -> bool {
        s.chance(500)
    }

    fn one(ctx: &mut Ctx, t: usize, c: &Call, here: &Out, k: usize) {
        ctx.stats.sim_us += 1000;
        ctx.judged();
        let mut msg = vec![0];
        put_call(&mut msg, ctx.reg, c);
        let mut want = vec![];
        put_out(&mut want, here);
        let got = ask(t, &msg);
        ctx.ev("foreign", mix(t as u64, fnv(&msg)), fnv(&want), || format!("{}: {} -> {}", TARGETS[t].0, c.text(), show(here)));
        ctx.case(mix(14, t as u64), fnv(&msg));
        if got.as_ref() == Some(&want) {
            return;
        }
        if got.is_none() && !runs(t) {
            ctx.count("probe.node-does-not-run");
            return;
        }
        let (class, there) = match got {
            None => ("node-died", "nothing, the node died of it".to_string()),
            Some(_) => {
                msg[0] = 1;
                ("node-differs", ask(t, &msg).map_or("(gone)".into(), |b| String::from_utf8_lossy(&b).into_owned()))
            }
        };
        ctx.violate(&["C14"], class, || {
            format!("call {k}: {}: {} on a 64 bit little endian node, {there} on {} ({})", c.text(), show(here), TARGETS[t].0, TARGETS[t].1)
        });
    }
}
