//! World 1: a cluster of nodes that keep typed records, replicate them over a lossy network, log
//! them to disks that tear and rot, crash, restart with fresh hash seeds, and run different
//! versions of the record types next to a peer built from another implementation of the format.
//!
//! Decides C01, C02, C03, C04, C06, C09 and C11. One thread runs at any time; every choice comes
//! from `ctx.src`.

use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use crate::ctx::{hex, Ctx};
use crate::model::{self, canon, lenient, strict, M};
use crate::node::{Mem, Node};
use crate::src::{fnv, mix};
use crate::ty::{opt_enc, Rej, T};
use crate::zoo::{generic_read, show, DecPath, EncOut, EncPath, Entry, Ops};

const STACK: usize = 4 << 20;
pub const LIMIT: usize = 64;

/// What one decoding call did: a value (and its re-encoding), an error, or a panic.
type Got = Result<Result<(T, Option<EncOut>), String>, String>;

#[derive(Clone)]
struct Wire {
    key: u64,
    seq: u64,
    writer: usize,
    /// The logical value the record was made from.
    tree: T,
    bytes: Arc<Vec<u8>>,
    /// Made by the reference peer.
    foreign: bool,
    /// What happened to it since.
    fault: Option<&'static str>,
}

struct DiskRec {
    wire: Wire,
    durable: bool,
}

struct Slot {
    seq: u64,
    entry: usize,
    tree: T,
    /// The bytes the record arrived as, if it denotes `tree` canonically for `entry`.
    bytes: Option<Arc<Vec<u8>>>,
}

struct Peer {
    node: Option<Node>,
    vers: Vec<usize>,
    disk: Vec<DiskRec>,
    state: BTreeMap<u64, Slot>,
    group: u8,
    synced_until: u64,
}

enum Ev {
    Op,
    Deliver { to: usize, wire: Wire },
    Sync { node: usize },
    Crash { node: usize },
    Restart { node: usize },
    Partition,
    Heal,
    Compact { node: usize },
    Digest,
    Rot { node: usize },
}

/// Swarm parameters of a run.
#[derive(Default, Debug, Clone)]
struct Cfg {
    nodes: usize,
    ops: usize,
    budget: i64,
    hashed: u64,
    serde: u64,
    generic: u64,
    family: u64,
    deep: u64,
    poison: u64,
    foreign: u64,
    drop: u64,
    dup: u64,
    jitter: u64,
    corrupt: u64,
    byz: u64,
    forge: u64,
    misroute: u64,
    lenient: u64,
    probe: u64,
    crashes: usize,
    torn: u64,
    rot: usize,
    compactions: usize,
    digests: usize,
    partition: bool,
    upgrade: u64,
    small_types: bool,
    hand: u64,
}

fn config(ctx: &mut Ctx) -> Cfg {
    let p = ctx.prop;
    let thorough = ctx.thorough;
    let s = &mut ctx.src;
    let mut c = Cfg::default();
    c.nodes = 2 + s.weighted(&[5, 3, 1]);
    c.ops = 3 + s.usize(if thorough { 22 } else { 14 });
    c.budget = *s.pick(&[8, 3, 16, 30, 60]);
    let mut sw = |on: u64| if s.chance(700) { on } else { 0 };
    c.drop = sw(100);
    c.dup = sw(100);
    c.jitter = sw(400);
    c.torn = sw(600);
    c.corrupt = sw(80);
    c.partition = sw(1) == 1;
    c.foreign = sw(150);
    c.serde = sw(200);
    c.generic = sw(80);
    c.deep = 20;
    let focus = |c: &mut Cfg, s: &mut crate::src::Src| match p {
        "C01" => {
            c.hashed = 500;
            c.corrupt = 0;
            c.family = 50;
            c.crashes = s.usize(4);
            c.compactions = s.usize(4);
            c.digests = 4 + s.usize(6);
            c.upgrade = 100;
        }
        "C02" => {
            c.hashed = 150;
            c.poison = 120;
            c.deep = 120;
            c.family = 50;
            c.crashes = 1 + s.usize(5);
            c.compactions = s.usize(4);
            c.rot = s.usize(3);
            c.digests = 2;
        }
        "C03" => {
            c.byz = 350;
            c.corrupt = 350;
            c.forge = 60;
            c.generic = 350;
            c.deep = 60;
            c.probe = 700;
            c.crashes = s.usize(4);
            c.rot = s.usize(5);
        }
        "C04" => {
            c.forge = 450;
            c.corrupt = 120;
            c.byz = 60;
            c.misroute = 200;
            c.family = 80;
            c.serde = 330;
            c.crashes = s.usize(2);
            c.rot = s.usize(3);
        }
        "C06" => {
            c.lenient = 850;
            c.byz = 550;
            c.corrupt = 150;
            c.forge = 120;
            c.generic = 300;
            c.deep = 60;
            c.serde = 50;
            c.crashes = s.usize(2);
        }
        "C09" => {
            c.family = 920;
            c.forge = 300;
            c.crashes = s.usize(5);
            c.upgrade = 700;
            c.corrupt = 20;
            c.compactions = s.usize(3);
            c.lenient = 60;
        }
        "C11" => {
            c.foreign = 450;
            c.hashed = 100;
            c.serde = 250;
            c.family = 120;
            c.corrupt = 0;
            c.crashes = s.usize(3);
            c.compactions = s.usize(2);
            c.deep = 10;
        }
        "C12" => {
            c.hand = 1000;
            c.family = 350;
            c.forge = 350;
            c.corrupt = 40;
            c.misroute = 150;
            c.lenient = 100;
            c.crashes = s.usize(4);
            c.upgrade = 700;
            c.compactions = s.usize(3);
            c.serde = 0;
            c.generic = 60;
        }
        _ => {
            c.byz = 200;
            c.forge = 200;
            c.family = 100;
            c.misroute = 100;
            c.lenient = 150;
        }
    };
    focus(&mut c, s);
    c.small_types = s.chance(300);
    c
}

const SMALL: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "bool", "char", "()", "String", "Vec<u8>", "[u8; 4]", "(u64,)",
    "(u64, String)", "Option<u64>", "[u64; 3]", "BTreeSet<u64>", "serde:u8", "serde:u16", "serde:u32", "serde:u64", "serde:i8", "serde:i16", "serde:i32",
    "serde:i64", "serde:bool", "serde:char", "serde:(u64, String)", "serde:[u64; 3]", "serde:String", "serde:SBytes", "serde:SUnit", "serde:SNew",
];

struct Sim<'a, 'b> {
    ctx: &'a mut Ctx<'b>,
    cfg: Cfg,
    now: u64,
    next: u64,
    queue: BinaryHeap<Reverse<(u64, u64)>>,
    events: BTreeMap<u64, Ev>,
    peers: Vec<Peer>,
    /// Acknowledged records, as the clients know them.
    archive: BTreeMap<u64, Wire>,
    seq: u64,
    inc: u64,
    last: Arc<Vec<u8>>,
    keys: u64,
}

pub fn run(ctx: &mut Ctx) {
    let cfg = config(ctx);
    let text = format!("{cfg:?}");
    ctx.ev("config", fnv(text.as_bytes()), 0, || text.clone());
    let keys = 2 + ctx.src.below(5);
    let mut sim = Sim {
        ctx,
        cfg,
        now: 0,
        next: 0,
        queue: BinaryHeap::new(),
        events: BTreeMap::new(),
        peers: vec![],
        archive: BTreeMap::new(),
        seq: 0,
        inc: 0,
        last: Arc::new(vec![]),
        keys,
    };
    sim.main();
    let us = sim.now;
    ctx.stats.sim_us += us;
}

fn want(e: &Entry, t: &T, path: EncPath) -> Result<Option<Vec<u8>>, model::EncErr> {
    let m = match path {
        EncPath::Optional if !e.serde => match opt_enc(&e.ty, t) {
            Some(m) => m,
            None => return Ok(None),
        },
        _ => e.enc(t),
    };
    let depth = if matches!(path, EncPath::InTuple | EncPath::InMap) { 126 } else { 127 };
    canon(&m, depth).map(Some)
}

/// Does the type's mapping give this value back?
fn injective(e: &Entry, t: &T) -> bool {
    e.ops.can_decode() && e.dec(&e.enc(t).sorted()).as_ref() == Ok(t)
}

fn is_lenient(p: DecPath) -> bool {
    matches!(p, DecPath::NonStrict | DecPath::ReadLenient)
}

/// Decode on a node. Runs in the node's thread.
fn decode_job(ops: &Arc<dyn Ops>, b: &[u8], p: DecPath, re: bool, keep: Option<(&mut Mem, u64, usize)>) -> Got {
    // The bytes lie somewhere in a larger receive buffer.
    let at = (fnv(b) % 17) as usize;
    let mut rx = vec![0xa5u8; at + b.len() + 3];
    rx[at..at + b.len()].copy_from_slice(b);
    let b = &rx[at..at + b.len()];
    let r = catch_unwind(AssertUnwindSafe(|| {
        ops.decode(b, p).map(|h| {
            let t = h.tree();
            let again = if re { Some(h.encode(EncPath::ToVec)) } else { None };
            if let Some((mem, key, entry)) = keep {
                mem.held.insert(key, (entry, h));
            }
            (t, again)
        })
    }));
    r.map_err(|e| crate::panic_text(&*e))
}

/// Judge one encoding. `first` is another encoding of the same logical value.
pub fn judge_enc(ctx: &mut Ctx, e: &Entry, t: &T, path: EncPath, got: &EncOut, first: Option<&[u8]>) {
    ctx.judged();
    let w = want(e, t, path);
    match (&w, got) {
        (Ok(Some(w)), EncOut::Bytes(g)) if w == g => {}
        (Ok(None), EncOut::Omitted) => {}
        (Err(_), EncOut::Refused(_)) => {}
        (_, EncOut::Clobbered(why)) => {
            ctx.violate(&["C10"], "buffer-clobbered", || format!("{} {:?}: existing bytes lost ({why})", e.name, path))
        }
        (Ok(_), EncOut::Refused(why)) => {
            let props: &[&'static str] = if first.is_some() { &["C02", "C01"] } else { &["C02"] };
            ctx.violate(props, "expressible-value-refused", || {
                format!("{} via {path:?} refused ({why}) an expressible value: {}", e.name, show(t))
            })
        }
        (Err(x), EncOut::Bytes(g)) => {
            ctx.violate(&["C02"], "inexpressible-value-acknowledged", || {
                format!("{} via {path:?} acknowledged a value that must be refused ({x:?}) as {}: {}", e.name, hex(g), show(t))
            });
            if strict(g, 127).is_none() {
                ctx.violate(&["C01"], "not-canonical", || format!("{} via {path:?} wrote non-canonical {}", e.name, hex(g)));
            }
        }
        (Err(_), EncOut::Omitted) => {}
        (Ok(w), g) => {
            if let EncOut::Bytes(g) = g {
                if strict(g, 127).is_none() {
                    ctx.violate(&["C01"], "not-canonical", || {
                        format!("{} via {path:?} wrote {} which is not canonical, for {}", e.name, hex(g), show(t))
                    });
                }
                if let Some(f) = first {
                    if f != &g[..] && w.is_some() {
                        ctx.violate(&["C01"], "replicas-differ", || {
                            format!("{}: {} via {path:?}, elsewhere {}, for the same value {}", e.name, hex(g), hex(f), show(t))
                        });
                    }
                }
            }
            ctx.violate(&["C11"], "wire-mapping", || {
                let w = w.as_ref().map(|w| hex(w)).unwrap_or("(omitted)".into());
                let g = match g {
                    EncOut::Bytes(g) => hex(g),
                    x => format!("{x:?}"),
                };
                format!("{} via {path:?} wrote {g}, deployed peers write {w}, for {}", e.name, show(t))
            });
        }
    }
}

pub struct Situation {
    /// Reader and writer type are the same, bytes untouched: the original value.
    pub original: Option<T>,
    pub family: bool,
    pub foreign: bool,
}

/// Judge one decoding; returns the value if it is the expected one.
pub fn judge_dec(ctx: &mut Ctx, e: &Entry, b: &[u8], path: DecPath, sit: &Situation, got: &Got, on_canon: Option<&Got>) -> Option<T> {
    ctx.judged();
    let what = || format!("{} via {path:?} of {}", e.name, hex(b));
    let depth = if path == DecPath::Read127 { 127 } else { LIMIT };
    let sm = strict(b, depth);
    let m: Option<M> = if is_lenient(path) { lenient(b, depth).map(|p| p.m) } else { sm.clone() };
    let mut exp = match &m {
        None => Err(Rej::No),
        Some(m) => e.dec(m),
    };
    if is_lenient(path) && exp.is_ok() {
        // Rust orders generic maps by their entries as listed.
        if let Some(m) = &m {
            if e.name.contains("<Value") && *m != m.sorted() {
                exp = Err(Rej::Open);
            }
        }
    }
    let same_as_original = |t: &T| sit.original.as_ref() == Some(t);
    let outcome = match got {
        Ok(Ok((t, _))) => Some(t),
        _ => None,
    };
    if let Err(p) = got {
        let mut props = vec!["C05", "C04"];
        if is_lenient(path) {
            props.push("C06");
        } else if sm.is_none() {
            props.push("C03");
        }
        if sit.original.is_some() {
            props.extend(["C02", "C11"]);
        }
        if sit.family {
            props.push("C09");
        }
        ctx.violate(&props, "decoder-panicked", || format!("{}: panic: {p}", what()));
        return None;
    }
    // An acknowledged record must read back as what was written, whatever the mapping is.
    if !is_lenient(path) {
        if let Some(orig) = &sit.original {
            let deep = e.enc(orig).depth() > depth;
            if !deep && injective(e, orig) && outcome != Some(orig) {
                ctx.violate(&["C02"], if outcome.is_some() { "read-back-differs" } else { "record-unreadable" }, || {
                    format!("{}: wrote {}, read {}", what(), show(orig), show(got))
                });
            }
        }
    }
    match (&exp, got) {
        (Err(Rej::Open), _) => return None,
        (Ok(t), Ok(Ok((g, _)))) if t == g => {}
        (Err(Rej::No), Ok(Err(_))) => return None,
        _ => {
            if is_lenient(path) {
                // Same meaning as the canonical form of the same item?
                let differs = match on_canon {
                    Some(Ok(Ok((t, _)))) => outcome != Some(t),
                    Some(Ok(Err(_))) => outcome.is_some(),
                    Some(Err(_)) => false,
                    None => true,
                };
                if m.is_none() || differs {
                    let class = match (&m, outcome) {
                        (None, _) => "lenient-accepts-malformed",
                        (_, None) => "lenient-rejects",
                        _ => "lenient-value-differs",
                    };
                    ctx.violate(&["C06"], class, || format!("{}: expected {}, got {}", what(), show(&exp), show(got)));
                }
                if sm.is_some() {
                    ctx.violate(&["C04"], "lenient-typed-value", || format!("{}: expected {}, got {}", what(), show(&exp), show(got)));
                }
            } else if sm.is_none() && outcome.is_some() {
                ctx.violate(&["C03"], "non-canonical-accepted", || {
                    format!("{}: not the canonical encoding of anything, but accepted as {}", what(), show(got))
                });
            } else {
                let mut props = vec!["C04"];
                if sit.family {
                    props.push("C09");
                }
                if sit.foreign && (sit.original.is_some() || sit.family) {
                    props.push("C11");
                }
                let class = match (&exp, outcome) {
                    (Ok(_), None) => "valid-rejected",
                    (Ok(_), Some(_)) => "wrong-value",
                    _ => "invalid-accepted",
                };
                ctx.violate(&props, class, || format!("{}: denotes {}, got {}", what(), show(&exp), show(got)));
            }
            return None;
        }
    }
    let t = outcome?.clone();
    if sit.original.is_some() && !is_lenient(path) && !same_as_original(&t) {
        ctx.count("probe.not-injective");
    }
    if let Ok(Ok((_, Some(re)))) = got {
        let first = if !is_lenient(path) && e.enc(&t).sorted() == m.unwrap().sorted() { Some(b) } else { None };
        judge_enc(ctx, e, &t, EncPath::ToVec, re, first);
    }
    Some(t)
}

/// Direct use of the generic reader on delivered bytes.
type Raw = Vec<(bool, i8, Result<Result<(Option<M>, EncOut), String>, String>)>;

fn judge_generic(ctx: &mut Ctx, b: &[u8], raws: &Raw) {
    for (st, nest, got) in raws {
        ctx.judged();
        let what = || format!("{} read (limit {nest}) of {}", if *st { "strict" } else { "lenient" }, hex(b));
        let exp = if *nest < 0 {
            None
        } else if *st {
            strict(b, *nest as usize)
        } else {
            lenient(b, *nest as usize).map(|p| p.m)
        };
        let got = match got {
            Ok(x) => x,
            Err(p) => {
                ctx.violate(&["C05", "C03", "C06"], "reader-panicked", || format!("{}: panic: {p}", what()));
                continue;
            }
        };
        match (got, exp) {
            (Err(_), None) => {}
            (Ok((Some(m), re)), Some(x)) if *st => {
                // Strictness needs no model: what was accepted must re-encode to what was delivered.
                if *re != EncOut::Bytes(b.to_vec()) {
                    ctx.violate(&["C03"], "accepted-but-not-canonical", || format!("{} accepted, re-encodes to {}", what(), show(re)));
                }
                if *m != x {
                    ctx.violate(&["C04", "C11"], "generic-value", || format!("{}: denotes {}, got {}", what(), show(&x), show(m)));
                }
            }
            (Ok((Some(m), _)), Some(x)) => {
                if m.sorted() != x.sorted() {
                    ctx.violate(&["C06"], "lenient-value-differs", || format!("{}: denotes {}, got {}", what(), show(&x), show(m)));
                }
            }
            (Ok((m, _)), x) => {
                if x.is_none() {
                    let p = if *st { "C03" } else { "C06" };
                    ctx.violate(&[p], "malformed-accepted", || format!("{} accepted as {}", what(), show(m)));
                } else {
                    ctx.violate(&["C04"], "generic-value", || format!("{}: out of range value", what()));
                }
            }
            (Err(e), Some(x)) => {
                let p: &[&'static str] = if *st { &["C04", "C02"] } else { &["C06"] };
                ctx.violate(p, "valid-rejected", || format!("{}: rejected ({e}), denotes {}", what(), show(&x)));
            }
        }
    }
}

impl<'a, 'b> Sim<'a, 'b> {
    fn entry(&self, i: usize) -> &'b Entry {
        let r: &'b crate::types::Registry = self.ctx.reg;
        &r.all[i]
    }

    fn push(&mut self, at: u64, ev: Ev) {
        let n = self.next;
        self.next += 1;
        self.queue.push(Reverse((at.max(self.now), n)));
        self.events.insert(n, ev);
    }

    fn boot(&mut self) -> Node {
        self.inc += 1;
        let seed = self.ctx.src.below(1 << 16);
        Node::boot(mix(self.inc, seed), STACK)
    }

    fn main(&mut self) {
        let nf = self.ctx.reg.families.len();
        for _ in 0..self.cfg.nodes {
            let node = self.boot();
            let fams: Vec<usize> = self.ctx.reg.families.iter().map(|f| f.len()).collect();
            let vers = (0..nf).map(|f| self.ctx.src.usize(fams[f])).collect();
            self.peers.push(Peer { node: Some(node), vers, disk: vec![], state: BTreeMap::new(), group: 0, synced_until: 0 });
        }
        let horizon = self.cfg.ops as u64 * 400;
        for i in 0..self.cfg.ops {
            let j = self.ctx.src.below(200);
            self.push(i as u64 * 400 + j, Ev::Op);
        }
        for _ in 0..self.cfg.crashes {
            let (t, n) = (self.ctx.src.below(horizon), self.ctx.src.usize(self.cfg.nodes));
            self.push(t, Ev::Crash { node: n });
        }
        for _ in 0..self.cfg.rot {
            let (t, n) = (self.ctx.src.below(horizon), self.ctx.src.usize(self.cfg.nodes));
            self.push(t, Ev::Rot { node: n });
        }
        for _ in 0..self.cfg.compactions {
            let (t, n) = (self.ctx.src.below(horizon), self.ctx.src.usize(self.cfg.nodes));
            self.push(t, Ev::Compact { node: n });
        }
        for _ in 0..self.cfg.digests {
            let t = self.ctx.src.below(horizon);
            self.push(t, Ev::Digest);
        }
        if self.cfg.partition {
            let t = self.ctx.src.below(horizon);
            self.push(t, Ev::Partition);
            let d = self.ctx.src.below(horizon);
            self.push(t + d, Ev::Heal);
        }
        let mut steps = 0;
        while let Some(Reverse((t, n))) = self.queue.pop() {
            self.now = t;
            let ev = self.events.remove(&n).unwrap();
            self.ctx.src.begin();
            self.step(ev);
            self.ctx.src.end();
            steps += 1;
            if self.ctx.failed() || steps > 4000 {
                return;
            }
        }
        self.finale();
    }

    fn up(&self) -> Vec<usize> {
        (0..self.peers.len()).filter(|i| self.peers[*i].node.is_some()).collect()
    }

    fn step(&mut self, ev: Ev) {
        match ev {
            Ev::Op => self.op(),
            Ev::Deliver { to, wire } => self.deliver(to, wire),
            Ev::Sync { node } => self.sync(node),
            Ev::Crash { node } => self.crash(node),
            Ev::Restart { node } => self.restart(node),
            Ev::Partition => {
                for i in 0..self.peers.len() {
                    self.peers[i].group = self.ctx.src.below(2) as u8;
                }
                self.ctx.count("fault.partition");
                let now = self.now;
                self.ctx.ev("partition", 0, 0, || format!("t={now} partition"));
            }
            Ev::Heal => {
                self.peers.iter_mut().for_each(|p| p.group = 0);
                let now = self.now;
                self.ctx.ev("heal", 0, 0, || format!("t={now} heal"));
            }
            Ev::Compact { node } => self.compact(node),
            Ev::Digest => self.digest(),
            Ev::Rot { node } => self.rot(node),
        }
    }

    fn pick_entry(&mut self) -> usize {
        let reg = self.ctx.reg;
        let s = &mut self.ctx.src;
        let c = &self.cfg;
        if c.hand > 0 {
            return if s.chance(c.family) {
                *s.pick(reg.families.last().unwrap())
            } else if s.chance(c.generic) {
                reg.generic
            } else {
                *s.pick(&reg.hand)
            };
        }
        if s.chance(c.family) {
            let f = s.usize(reg.families.len());
            return *s.pick(&reg.families[f]);
        }
        if s.chance(c.generic) {
            return if s.chance(c.serde) { reg.any_item } else { reg.generic };
        }
        if c.small_types {
            let name = *s.pick(SMALL);
            return reg.all.iter().position(|e| e.name == name).unwrap_or(0);
        }
        if s.chance(c.hashed) {
            return *s.pick(&reg.hashed);
        }
        if s.chance(c.serde) {
            return *s.pick(&reg.serde);
        }
        s.usize(reg.serde[0])
    }

    /// A generic value that the format cannot express.
    fn poison(&mut self) -> T {
        let s = &mut self.ctx.src;
        let m = if s.chance(400) {
            let n = 126 + s.usize(4);
            model::gen_chain(s, n)
        } else {
            let mut b = 8;
            let mut inner = vec![(model::gen_m(s, 2, &mut b), model::gen_m(s, 1, &mut b))];
            for _ in 0..s.below(3) {
                inner.push((model::gen_m(s, 2, &mut b), model::gen_m(s, 1, &mut b)));
            }
            if s.chance(150) {
                // Among many others.
                let n = *s.pick(&[33usize, 25, 65, 257, 600]);
                if let M::Map(xs) = model::gen_big_map(s, n) {
                    inner = xs;
                }
            }
            let i = s.usize(inner.len());
            let k = model::relisted(s, &inner[i].0);
            let v = model::gen_m(s, 1, &mut b);
            let at = s.usize(inner.len() + 1);
            inner.insert(at, (k, v));
            let mut m = M::Map(inner);
            for _ in 0..s.below(4) {
                m = match s.below(4) {
                    0 => M::A(vec![M::U(1), m]),
                    1 => M::Map(vec![(M::U(1), m)]),
                    2 => M::Map(vec![(m, M::U(1))]),
                    _ => M::Tag(1, Box::new(m)),
                };
            }
            m
        };
        T::V(crate::ty::VM(m))
    }

    fn op(&mut self) {
        let up = self.up();
        // Zero leaves the operation out, for the minimiser.
        if up.is_empty() || self.ctx.src.below(64) == 0 {
            return;
        }
        let node = *self.ctx.src.pick(&up);
        let key = self.ctx.src.below(self.keys);
        let (poison, deep) = (self.ctx.src.chance(self.cfg.poison), self.ctx.src.chance(self.cfg.deep));
        let (ei, tree) = if poison {
            self.ctx.count("fault.poison-put");
            (self.ctx.reg.generic, self.poison())
        } else if deep {
            let n = *self.ctx.src.pick(&[64usize, 65, 63, 62, 100, 126, 127, 40]);
            let m = model::gen_chain(&mut self.ctx.src, n);
            self.ctx.count("probe.deep-record");
            (self.ctx.reg.generic, T::V(crate::ty::VM(m)))
        } else {
            let i = self.pick_entry();
            (i, self.entry(i).gen(&mut self.ctx.src, self.cfg.budget))
        };
        let e = self.entry(ei);
        let hist = self.ctx.src.below(1 << 16);
        self.seq += 1;
        let seq = self.seq;
        let foreign = self.ctx.src.chance(self.cfg.foreign);
        let reference = canon(&e.enc(&tree), 127).ok();
        let fresh = mix(ei as u64, reference.as_ref().map(|b| fnv(b)).unwrap_or(1));
        self.ctx.case(1, fresh);
        let now = self.now;
        self.ctx.ev("put", mix(node as u64, key), fresh, || {
            format!("t={now} client puts key {key} seq {seq} on {}: {} = {}", if foreign { "the foreign peer".into() } else { format!("node {node}") }, e.name, show(&tree))
        });
        let bytes = if foreign {
            match reference {
                Some(b) => b,
                None => return,
            }
        } else {
            let mut paths = vec![EncPath::ToVec];
            let n = e.alts + 7;
            for _ in 0..1 + self.ctx.src.below(3) {
                let p = match self.ctx.src.usize(n) {
                    0 => EncPath::ToValueWrite,
                    1 => EncPath::Append,
                    2 => EncPath::Optional,
                    3 => EncPath::InTuple,
                    4 => EncPath::InMap,
                    5 => EncPath::Cloned,
                    6 => EncPath::InOption,
                    i => EncPath::Alt(i - 7),
                };
                paths.push(p);
            }
            let (ops, t2, ps) = (e.ops.clone(), tree.clone(), paths.clone());
            let outs = self.peers[node].node.as_ref().unwrap().run(move |mem| {
                let held = ops.build(&t2, hist);
                let outs: Vec<EncOut> = ps.iter().map(|p| held.encode(*p)).collect();
                if matches!(outs[0], EncOut::Bytes(_)) {
                    mem.held.insert(key, (ei, held));
                }
                outs
            });
            let outs = match outs {
                Ok(o) => o,
                Err(p) => {
                    self.ctx.violate(&["C02", "C01"], "encoder-panicked", || format!("{}: {p}", e.name));
                    return;
                }
            };
            let first = match &outs[0] {
                EncOut::Bytes(b) => Some(b.clone()),
                _ => None,
            };
            for (i, (p, o)) in paths.iter().zip(&outs).enumerate() {
                judge_enc(self.ctx, e, &tree, *p, o, if i > 0 { first.as_deref() } else { None });
            }
            match first {
                Some(b) => b,
                None => {
                    self.ctx.count("probe.put-refused");
                    return;
                }
            }
        };
        let wire = Wire { key, seq, writer: ei, tree, bytes: Arc::new(bytes), foreign, fault: None };
        self.last = wire.bytes.clone();
        if foreign {
            // The foreign peer is durable by assumption.
            self.archive.insert(key, wire.clone());
        } else {
            let tree = wire.tree.clone();
            let canonical = injective(e, &tree);
            self.peers[node].state.insert(
                key,
                Slot { seq, entry: ei, tree, bytes: if canonical { Some(wire.bytes.clone()) } else { None } },
            );
            self.peers[node].disk.push(DiskRec { wire: wire.clone(), durable: false });
            let d = self.ctx.src.below(600);
            self.push(now + d, Ev::Sync { node });
        }
        self.broadcast(if foreign { None } else { Some(node) }, wire);
    }

    fn broadcast(&mut self, from: Option<usize>, wire: Wire) {
        for to in 0..self.peers.len() {
            if Some(to) == from {
                continue;
            }
            self.send(from, to, wire.clone());
        }
    }

    fn send(&mut self, from: Option<usize>, to: usize, mut wire: Wire) {
        if let Some(f) = from {
            if self.peers[f].group != self.peers[to].group {
                self.ctx.count("fault.partition-drop");
                return;
            }
        }
        if self.ctx.src.chance(self.cfg.drop) {
            self.ctx.count("fault.drop");
            return;
        }
        let copies = if self.ctx.src.chance(self.cfg.dup) {
            self.ctx.count("fault.duplicate");
            2
        } else {
            1
        };
        self.tamper(&mut wire);
        for _ in 0..copies {
            let late = self.ctx.src.chance(self.cfg.jitter);
            let delay = 20 + if late {
                self.ctx.count("fault.delay");
                self.ctx.src.below(3000)
            } else {
                self.ctx.src.below(60)
            };
            self.push(self.now + delay, Ev::Deliver { to, wire: wire.clone() });
        }
    }

    /// What a faulty link or a byzantine sender does to a message.
    fn tamper(&mut self, wire: &mut Wire) {
        let e = self.entry(wire.writer);
        let s = &mut self.ctx.src;
        if s.chance(self.cfg.forge) {
            if let Some(mut m) = strict(&wire.bytes, 127) {
                let mut kind = "none";
                for _ in 0..1 + s.below(2) {
                    let (k, x) = model::forge(s, &m);
                    kind = k;
                    m = x;
                }
                let b = model::raw_bytes(&m.sorted());
                self.ctx.stats.add(&format!("fault.forged.{kind}"), 1);
                wire.bytes = Arc::new(b);
                wire.fault = Some(kind);
            }
        }
        let s = &mut self.ctx.src;
        if s.chance(self.cfg.byz) {
            let (kind, b) = match lenient(&wire.bytes, 127) {
                Some(p) if p.m.items() < 3000 => model::byzantine(s, &p.m),
                _ => model::byzantine(s, &e.enc(&wire.tree)),
            };
            self.ctx.stats.add(&format!("fault.byzantine.{kind}"), 1);
            wire.bytes = Arc::new(b);
            wire.fault = Some(kind);
        }
        let s = &mut self.ctx.src;
        if s.chance(self.cfg.corrupt) {
            let other = self.last.clone();
            let (kind, b) = model::corrupt(s, &wire.bytes, &other);
            if b != **wire.bytes {
                self.ctx.stats.add(&format!("fault.corrupt.{kind}"), 1);
                wire.bytes = Arc::new(b);
                wire.fault = Some(kind);
            }
        }
    }

    /// The type under which a node reads records written as `writer`.
    fn reader(&self, node: usize, writer: usize) -> (usize, bool) {
        for (f, fam) in self.ctx.reg.families.iter().enumerate() {
            if fam.contains(&writer) {
                return (fam[self.peers[node].vers[f]], true);
            }
        }
        (writer, false)
    }

    fn deliver(&mut self, to: usize, wire: Wire) {
        if self.peers[to].node.is_none() {
            self.ctx.count("probe.delivered-to-dead-node");
            return;
        }
        self.receive(to, &wire, true);
        if !self.ctx.failed() && self.ctx.src.chance(self.cfg.misroute) {
            // The record reaches a reader of some other type.
            self.ctx.count("fault.misrouted");
            let other = self.pick_entry();
            self.probe(to, other, &wire);
        }
        if !self.ctx.failed() && self.ctx.src.chance(self.cfg.probe) {
            let any = if self.ctx.src.chance(300) { self.ctx.reg.any_item } else { self.ctx.reg.generic };
            self.probe(to, any, &wire);
        }
    }

    fn dec_path(&mut self, e: &Entry) -> DecPath {
        let s = &mut self.ctx.src;
        if s.chance(self.cfg.lenient) {
            if s.chance(500) && !e.serde {
                DecPath::NonStrict
            } else {
                DecPath::ReadLenient
            }
        } else {
            match s.weighted(&[6, 2, 1]) {
                0 => DecPath::Slice,
                1 => DecPath::ReadValue,
                _ => DecPath::Read127,
            }
        }
    }

    /// Read bytes as a type they were not written for, keeping nothing.
    fn probe(&mut self, node: usize, ei: usize, wire: &Wire) {
        let e = self.entry(ei);
        if !e.ops.can_decode() {
            return;
        }
        let path = self.dec_path(e);
        let b = wire.bytes.clone();
        let ops = e.ops.clone();
        let nest = match self.ctx.src.below(6) {
            0 => 127,
            1 => self.ctx.src.below(20) as i8,
            _ => 64,
        };
        let generic = ei == self.ctx.reg.generic || self.cfg.lenient > 0;
        let canonical = canonical_twin(path, &b);
        let c2 = canonical.clone();
        let r = self.peers[node].node.as_ref().unwrap().run(move |_| {
            let raws: Raw = if generic {
                [true, false]
                    .iter()
                    .map(|st| {
                        let r = catch_unwind(AssertUnwindSafe(|| generic_read(&b, *st, Some(nest))));
                        (*st, nest, r.map_err(|e| crate::panic_text(&*e)))
                    })
                    .collect()
            } else {
                vec![]
            };
            let on_canon = c2.map(|c| decode_job(&ops, &c, DecPath::Slice, false, None));
            (decode_job(&ops, &b, path, true, None), on_canon, raws)
        });
        let now = self.now;
        let (got, on_canon, raws) = match r {
            Ok(x) => x,
            Err(p) => {
                self.ctx.violate(&["C05"], "harness-panic", || p);
                return;
            }
        };
        let sit = Situation { original: None, family: false, foreign: wire.foreign };
        self.ctx.ev("probe", mix(node as u64, ei as u64), fnv(&wire.bytes), || {
            format!("t={now} node {node} reads seq {} as {} via {path:?}: {} -> {}", wire.seq, e.name, hex(&wire.bytes), show(&got))
        });
        self.ctx.case(mix(2, ei as u64), mix(fnv(&wire.bytes), path as u64));
        judge_generic(self.ctx, &wire.bytes, &raws);
        judge_dec(self.ctx, e, &wire.bytes, path, &sit, &got, on_canon.as_ref());
    }

    /// A record arrives (from the network or from the node's own disk).
    fn receive(&mut self, node: usize, wire: &Wire, log: bool) {
        let (ei, family) = self.reader(node, wire.writer);
        let e = self.entry(ei);
        if !e.ops.can_decode() {
            return;
        }
        let deep = ei == self.ctx.reg.generic && wire.fault.is_none() && e.enc(&wire.tree).depth() > LIMIT;
        let path = if deep && self.ctx.src.chance(700) { DecPath::Read127 } else { self.dec_path(e) };
        let newer = self.peers[node].state.get(&wire.key).map_or(true, |s| s.seq < wire.seq);
        let keep = newer && (path == DecPath::Slice || path == DecPath::Read127 || path == DecPath::ReadValue);
        let (b, ops, key) = (wire.bytes.clone(), e.ops.clone(), wire.key);
        let re = self.ctx.src.chance(500);
        let canonical = canonical_twin(path, &b);
        let c2 = canonical.clone();
        let r = self.peers[node].node.as_ref().unwrap().run(move |mem| {
            let on_canon = c2.map(|c| decode_job(&ops, &c, DecPath::Slice, false, None));
            (decode_job(&ops, &b, path, re, if keep { Some((mem, key, ei)) } else { None }), on_canon)
        });
        let (got, on_canon) = match r {
            Ok(x) => x,
            Err(p) => {
                self.ctx.violate(&["C05"], "harness-panic", || p);
                return;
            }
        };
        let original = if wire.fault.is_none() && ei == wire.writer { Some(wire.tree.clone()) } else { None };
        let now = self.now;
        self.ctx.ev("recv", mix(node as u64, ei as u64), mix(fnv(&wire.bytes), got.is_ok() as u64 + 2 * matches!(got, Ok(Ok(_))) as u64), || {
            format!(
                "t={now} node {node} {} key {key} seq {} as {} via {path:?}{}: {} -> {}",
                if log { "receives" } else { "recovers" },
                wire.seq,
                e.name,
                wire.fault.map(|f| format!(" [{f}]")).unwrap_or_default(),
                hex(&wire.bytes),
                show(&got)
            )
        });
        self.ctx.case(mix(3, ei as u64), mix(fnv(&wire.bytes), path as u64));
        let sit = Situation { original, family: family && (ei != wire.writer || wire.fault.is_some()), foreign: wire.foreign };
        let t = judge_dec(self.ctx, e, &wire.bytes, path, &sit, &got, on_canon.as_ref());
        if !keep {
            return;
        }
        match t {
            Some(t) => {
                let canonical = match canon(&e.enc(&t), 127) {
                    Ok(c) => c == **wire.bytes,
                    Err(_) => false,
                };
                let bytes = if canonical { Some(wire.bytes.clone()) } else { None };
                self.peers[node].state.insert(wire.key, Slot { seq: wire.seq, entry: ei, tree: t, bytes });
                if log {
                    self.peers[node].disk.push(DiskRec { wire: wire.clone(), durable: false });
                    let d = self.ctx.src.below(600);
                    self.push(self.now + d, Ev::Sync { node });
                }
            }
            None if matches!(got, Ok(Ok(_))) => {
                // Outcome left open by the rules: nothing is kept.
                self.peers[node].state.remove(&wire.key);
            }
            None => self.ctx.count("probe.record-rejected"),
        }
    }

    fn sync(&mut self, node: usize) {
        if self.peers[node].node.is_none() {
            return;
        }
        let mut acks = vec![];
        for d in self.peers[node].disk.iter_mut().filter(|d| !d.durable) {
            d.durable = true;
            if d.wire.fault.is_none() {
                acks.push(d.wire.clone());
            }
        }
        for w in acks {
            let newer = self.archive.get(&w.key).map_or(true, |a| a.seq < w.seq);
            if newer {
                self.archive.insert(w.key, w);
            }
        }
        self.peers[node].synced_until = self.now;
    }

    fn crash(&mut self, node: usize) {
        if self.peers[node].node.is_none() {
            return;
        }
        self.ctx.count("fault.crash");
        let now = self.now;
        self.ctx.ev("crash", node as u64, 0, || format!("t={now} node {node} crashes"));
        self.peers[node].node = None;
        self.peers[node].state.clear();
        // What was not synced may be lost, kept or torn.
        let mut disk = std::mem::take(&mut self.peers[node].disk);
        let other = self.last.clone();
        for d in disk.iter_mut().filter(|d| !d.durable) {
            let s = &mut self.ctx.src;
            if s.chance(self.cfg.torn) {
                let kind = s.below(4);
                let b = &d.wire.bytes;
                let cut = s.usize(b.len() + 1);
                let (name, nb): (&'static str, Vec<u8>) = match kind {
                    0 => ("lost-write", vec![]),
                    1 => ("torn-prefix", b[..cut].to_vec()),
                    2 => {
                        // Old sector content behind the cut.
                        let mut v = b[..cut].to_vec();
                        v.extend(other.iter().skip(cut).take(b.len() - cut));
                        v.resize(b.len(), 0);
                        ("torn-stale-tail", v)
                    }
                    _ => {
                        let mut v = b.to_vec();
                        v[..cut].iter_mut().for_each(|x| *x = 0);
                        ("torn-zero-head", v)
                    }
                };
                if nb != **b {
                    self.ctx.stats.add(&format!("fault.{name}"), 1);
                    d.wire.bytes = Arc::new(nb);
                    d.wire.fault = Some(name);
                }
            }
            d.durable = true;
        }
        disk.retain(|d| d.wire.fault != Some("lost-write"));
        self.peers[node].disk = disk;
        let d = self.ctx.src.below(1500);
        self.push(now + d, Ev::Restart { node });
    }

    fn restart(&mut self, node: usize) {
        if self.peers[node].node.is_some() {
            return;
        }
        let n = self.boot();
        self.peers[node].node = Some(n);
        if self.ctx.src.chance(self.cfg.upgrade) {
            let f = self.ctx.src.usize(self.peers[node].vers.len());
            let len = self.ctx.reg.families[f].len();
            self.peers[node].vers[f] = self.ctx.src.usize(len);
            self.ctx.count("fault.version-change");
        }
        self.ctx.count("probe.restart");
        let now = self.now;
        self.ctx.ev("restart", node as u64, 0, || format!("t={now} node {node} restarts"));
        let wires: Vec<Wire> = self.peers[node].disk.iter().map(|d| d.wire.clone()).collect();
        for w in wires.iter().rev().take(24).rev() {
            self.receive(node, w, false);
            if self.ctx.failed() {
                return;
            }
        }
    }

    /// Rewrite the log from memory.
    fn compact(&mut self, node: usize) {
        if self.peers[node].node.is_none() || self.peers[node].state.is_empty() {
            return;
        }
        self.ctx.count("probe.compaction");
        let keys: Vec<u64> = self.peers[node].state.keys().copied().collect();
        let paths: Vec<EncPath> =
            keys.iter().map(|_| *self.ctx.src.pick(&[EncPath::ToVec, EncPath::ToValueWrite, EncPath::Append, EncPath::InTuple, EncPath::Cloned, EncPath::InOption])).collect();
        let (ks, ps) = (keys.clone(), paths.clone());
        let outs = self.peers[node].node.as_ref().unwrap().run(move |mem| {
            ks.iter().zip(&ps).map(|(k, p)| mem.held.get(k).map(|(i, h)| (*i, h.encode(*p)))).collect::<Vec<_>>()
        });
        let outs = match outs {
            Ok(o) => o,
            Err(p) => {
                self.ctx.violate(&["C02", "C01"], "encoder-panicked", || p);
                return;
            }
        };
        let now = self.now;
        for ((k, p), o) in keys.iter().zip(paths).zip(outs) {
            let slot = &self.peers[node].state[k];
            let (ei, out) = match o {
                Some(x) => x,
                None => continue,
            };
            if ei != slot.entry {
                continue;
            }
            let (tree, seq, first) = (slot.tree.clone(), slot.seq, slot.bytes.clone());
            let e = self.entry(ei);
            judge_enc(self.ctx, e, &tree, p, &out, first.as_ref().map(|b| &b[..]));
            if self.ctx.failed() {
                return;
            }
            if let EncOut::Bytes(b) = out {
                self.ctx.ev("compact", mix(node as u64, *k), fnv(&b), || format!("t={now} node {node} compacts key {k} seq {seq}: {}", hex(&b)));
                let wire = Wire { key: *k, seq, writer: ei, tree, bytes: Arc::new(b), foreign: false, fault: None };
                // The old image goes when the new one is written; a crash may still tear it.
                self.peers[node].disk.retain(|d| d.wire.key != *k || d.wire.seq > seq);
                self.peers[node].disk.push(DiskRec { wire, durable: false });
            }
        }
        let d = self.ctx.src.below(600);
        self.push(now + d, Ev::Sync { node });
    }

    /// Two replicas compare their encodings of the same record.
    fn digest(&mut self) {
        let up = self.up();
        if up.len() < 2 {
            return;
        }
        let a = *self.ctx.src.pick(&up);
        let b = *self.ctx.src.pick(&up);
        self.compare(a, b);
    }

    fn compare(&mut self, a: usize, b: usize) {
        if a == b {
            return;
        }
        let keys: Vec<u64> = self.peers[a]
            .state
            .iter()
            .filter(|(k, s)| {
                self.peers[b].state.get(k).map_or(false, |o| o.seq == s.seq && o.entry == s.entry && o.tree == s.tree)
            })
            .map(|(k, _)| *k)
            .collect();
        for k in keys {
            let p = [EncPath::ToVec, EncPath::ToValueWrite, EncPath::Append, EncPath::InTuple, EncPath::InMap];
            let pa = *self.ctx.src.pick(&p);
            let pb = *self.ctx.src.pick(&p);
            let mut outs = vec![];
            for (n, p) in [(a, pa), (b, pb)] {
                let r = self.peers[n].node.as_ref().unwrap().run(move |mem| mem.held.get(&k).map(|(i, h)| (*i, h.encode(p))));
                outs.push(r.unwrap_or_else(|p| Some((usize::MAX, EncOut::Refused(format!("panic {p}"))))));
            }
            let slot = &self.peers[a].state[&k];
            let (tree, entry) = (slot.tree.clone(), slot.entry);
            let e = self.entry(entry);
            let (x, y) = match (outs[0].take(), outs[1].take()) {
                (Some((i, x)), Some((j, y))) if i == entry && j == entry => (x, y),
                _ => continue,
            };
            self.ctx.count("probe.digest-compared");
            let first = match &x {
                EncOut::Bytes(b) => Some(b.clone()),
                _ => None,
            };
            let now = self.now;
            self.ctx.ev("digest", mix(a as u64, b as u64), first.as_ref().map(|f| fnv(f)).unwrap_or(0), || {
                format!("t={now} nodes {a} ({pa:?}) and {b} ({pb:?}) compare key {k}: {} / {}", show(&x), show(&y))
            });
            judge_enc(self.ctx, e, &tree, pa, &x, None);
            judge_enc(self.ctx, e, &tree, pb, &y, first.as_deref());
            if self.ctx.failed() {
                return;
            }
        }
    }

    fn rot(&mut self, node: usize) {
        let n = self.peers[node].disk.len();
        if n == 0 {
            return;
        }
        let i = self.ctx.src.usize(n);
        let other = self.last.clone();
        let w = &mut self.peers[node].disk[i].wire;
        let (kind, b) = model::corrupt(&mut self.ctx.src, &w.bytes, &other);
        if b != **w.bytes {
            w.bytes = Arc::new(b);
            w.fault = Some(kind);
            let (k, q) = (w.key, w.seq);
            self.ctx.stats.add(&format!("fault.bitrot.{kind}"), 1);
            let now = self.now;
            self.ctx.ev("rot", node as u64, i as u64, || format!("t={now} node {node}: medium damages key {k} seq {q} ({kind})"));
        }
    }

    /// Faults stop: every node restarts, one round of anti-entropy from intact copies, and every
    /// replica must hold every acknowledged record and agree on its bytes.
    fn finale(&mut self) {
        self.cfg.drop = 0;
        self.cfg.dup = 0;
        self.cfg.jitter = 0;
        self.cfg.corrupt = 0;
        self.cfg.byz = 0;
        self.cfg.forge = 0;
        self.cfg.misroute = 0;
        self.cfg.probe = 0;
        self.cfg.upgrade = 0;
        if !matches!(self.ctx.prop, "C01" | "C02" | "C09" | "C11") {
            return;
        }
        for i in 0..self.peers.len() {
            self.peers[i].group = 0;
            if self.peers[i].node.is_some() {
                self.crash(i);
            }
            self.restart(i);
            if self.ctx.failed() {
                return;
            }
        }
        let wires: Vec<Wire> = self.archive.values().cloned().collect();
        for w in wires {
            // Prefer the copy a replica kept.
            let copy = self
                .peers
                .iter()
                .flat_map(|p| p.disk.iter())
                .find(|d| d.wire.seq == w.seq && d.wire.fault.is_none() && d.durable && d.wire.writer == w.writer)
                .map(|d| d.wire.clone());
            let w = copy.unwrap_or(w);
            for n in 0..self.peers.len() {
                let have = self.peers[n].state.get(&w.key).map_or(0, |s| s.seq);
                if have < w.seq {
                    self.now += 50;
                    let lenient = std::mem::take(&mut self.cfg.lenient);
                    self.receive(n, &w, true);
                    self.cfg.lenient = lenient;
                    if self.ctx.failed() {
                        return;
                    }
                    // Convergence: what the reader's type can hold must now be there.
                    let (ei, _) = self.reader(n, w.writer);
                    let e = self.entry(ei);
                    let same = ei == w.writer && injective(e, &w.tree) && e.enc(&w.tree).depth() <= LIMIT;
                    if same && self.peers[n].state.get(&w.key).map_or(true, |s| s.seq < w.seq) {
                        self.ctx.violate(&["C02"], "no-convergence", || {
                            format!("node {n} does not hold acknowledged key {} seq {} after faults stopped", w.key, w.seq)
                        });
                        return;
                    }
                }
            }
        }
        self.ctx.count("probe.converged");
        for n in 1..self.peers.len() {
            self.compare(0, n);
            if self.ctx.failed() {
                return;
            }
        }
    }
}

/// The canonical encoding of the item a lenient reader sees in `b`.
fn canonical_twin(path: DecPath, b: &[u8]) -> Option<Vec<u8>> {
    if !is_lenient(path) {
        return None;
    }
    let p = lenient(b, LIMIT)?;
    canon(&p.m, LIMIT).ok()
}
