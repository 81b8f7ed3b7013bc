//! Drives many simulated runs: worker processes, crash attribution, minimisation, replay files and
//! evidence.

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::ctx::{Ctx, Stats, Violation};
use crate::src::{fnv, mix, Src};
use crate::types::{registry, Registry};

const WORKERS: u64 = 8;

struct Plan {
    quick: u64,
    thorough: u64,
}

/// Fixed numbers of runs, so that a seed determines what is explored.
fn plan(prop: &str) -> Plan {
    match prop {
        "C01" | "C02" => Plan { quick: 70_000, thorough: 1_500_000 },
        "C03" | "C04" | "C06" | "C09" | "C11" | "C12" => Plan { quick: 90_000, thorough: 2_000_000 },
        "C05" => Plan { quick: 50_000, thorough: 1_000_000 },
        "C07" | "C08" => Plan { quick: 150_000, thorough: 4_000_000 },
        "C10" | "C13" => Plan { quick: 150_000, thorough: 3_000_000 },
        "C14" => Plan { quick: 200_000, thorough: 4_000_000 },
        _ => Plan { quick: 20_000, thorough: 400_000 },
    }
}

pub struct Outcome {
    pub fail: Option<Violation>,
    pub hist: u64,
    pub choices: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    pub trace: Vec<String>,
    pub prelude: Option<[u64; 4]>,
}

fn world(ctx: &mut Ctx) {
    match ctx.prop {
        "C05" => crate::bombs::run(ctx),
        "C07" => crate::isolation::run(ctx),
        "C08" => crate::abort::run(ctx),
        "C10" => crate::append::run(ctx),
        "C13" => crate::index::run(ctx),
        "C14" => crate::foreign::run(ctx),
        _ => crate::cluster::run(ctx),
    }
}

const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"];

fn prop(name: &str) -> Option<&'static str> {
    PROPS.iter().find(|p| **p == name).copied()
}

fn run_one(prop: &'static str, thorough: bool, src: Src, reg: &Registry, stats: &mut Stats, trace: bool) -> Outcome {
    let mut ctx = Ctx {
        prop,
        thorough,
        src,
        reg,
        stats,
        trace: if trace { Some(vec![]) } else { None },
        fail: None,
        hist: fnv(prop.as_bytes()),
        lines: 0,
    };
    world(&mut ctx);
    let used = ctx.src.used();
    let mut choices = std::mem::take(&mut ctx.src.data);
    choices.truncate(used);
    Outcome {
        fail: ctx.fail.take(),
        hist: ctx.hist,
        choices,
        spans: std::mem::take(&mut ctx.src.spans),
        trace: ctx.trace.take().unwrap_or_default(),
        prelude: None,
    }
}

fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix(mix(seed, fnv(prop.as_bytes())), index)
}

// ---------------------------------------------------------------------------------------------

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("CBORSIM_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Replay {
    pub prop: &'static str,
    pub thorough: bool,
    pub choices: Vec<u64>,
    /// Runs executed first in the same process: (seed, from, step, to).
    pub prelude: Option<[u64; 4]>,
    pub run: u64,
}

fn write_replay(path: &Path, prop: &str, thorough: bool, seed: u64, index: u64, v: &Violation, o: &Outcome) {
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!("\"property\": {},\n", json_str(prop)));
    s.push_str(&format!("\"tier\": {},\n", json_str(if thorough { "thorough" } else { "quick" })));
    s.push_str(&format!("\"seed\": {seed},\n\"run\": {index},\n"));
    s.push_str(&format!("\"class\": {},\n", json_str(&v.class)));
    s.push_str(&format!("\"violation\": {},\n", json_str(&v.text)));
    s.push_str(&format!("\"replay_with\": {},\n", json_str(&format!("/verif/replay.sh {}", path.display()))));
    if let Some(p) = &o.prelude {
        s.push_str(&format!("\"prelude\": [{},{},{},{}],\n", p[0], p[1], p[2], p[3]));
    }
    let c: Vec<String> = o.choices.iter().map(|c| c.to_string()).collect();
    s.push_str(&format!("\"choices\": [{}],\n", c.join(",")));
    let t: Vec<String> = o.trace.iter().map(|l| json_str(l)).collect();
    s.push_str(&format!("\"trace\": [\n{}\n]\n}}\n", t.join(",\n")));
    std::fs::create_dir_all(path.parent().unwrap()).ok();
    std::fs::write(path, s).expect("write replay");
}

fn read_replay(path: &str) -> Option<Replay> {
    let s = std::fs::read_to_string(path).ok()?;
    let field = |k: &str| -> Option<String> {
        let i = s.find(&format!("\"{k}\": \""))? + k.len() + 5;
        Some(s[i..].split('"').next()?.to_string())
    };
    let list = |k: &str| -> Option<Vec<u64>> {
        let k = format!("\"{k}\": [");
        let i = s.find(&k)? + k.len();
        let e = s[i..].find(']')? + i;
        s[i..e].split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().ok()).collect()
    };
    let choices = list("choices")?;
    let prelude = list("prelude").and_then(|v| v.try_into().ok());
    let run = s.lines().find_map(|l| l.strip_prefix("\"run\": ")).and_then(|l| l.trim_end_matches(',').parse().ok()).unwrap_or(0);
    Some(Replay { prop: prop(&field("property")?)?, thorough: field("tier")? == "thorough", choices, prelude, run })
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2]),
        Some("worker") => worker(&args[2..]),
        Some("exec") => exec(&args[2]),
        Some("shrink") => shrink_cmd(&args[2], args[3].parse().unwrap()),
        Some("hist") => hist(&args[2..]),
        Some("one") => one(&args[2..]),
        _ => {
            eprintln!("usage: cborsim check PROP | exec FILE | hist PROP FROM TO STEP | one PROP INDEX");
            2
        }
    }
}

/// Print the history digest of runs, for the determinism self-test.
fn hist(a: &[String]) -> i32 {
    let p = prop(&a[0]).expect("property");
    let seed = env_u64("VERIF_SEED", 1);
    let (from, to, step): (u64, u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let reg = registry();
    let mut stats = Stats::default();
    let mut i = from;
    while i < to {
        let o = run_one(p, false, Src::generate(run_seed(seed, p, i)), &reg, &mut stats, false);
        println!("{i} {:016x} {} {}", o.hist, o.choices.len(), o.fail.map(|f| f.class).unwrap_or_default());
        i += step;
    }
    0
}

fn one(a: &[String]) -> i32 {
    let p = prop(&a[0]).expect("property");
    let seed = env_u64("VERIF_SEED", 1);
    let index: u64 = a[1].parse().unwrap();
    let reg = registry();
    let mut stats = Stats::default();
    let thorough = a.get(2).map_or(false, |t| t == "thorough");
    let mut src = Src::generate(run_seed(seed, p, index));
    if let Some(f) = std::env::var_os("CBORSIM_CHOICES") {
        src.log_to(Path::new(&f));
    }
    let o = run_one(p, thorough, src, &reg, &mut stats, true);
    for l in o.trace {
        println!("{l}");
    }
    println!("{:?}\n{:?}", stats.counts, o.fail);
    0
}

/// Replay a file. Exit 1: violated; 0: held.
fn exec(path: &str) -> i32 {
    let r = match read_replay(path) {
        Some(r) => r,
        None => {
            eprintln!("cannot read replay file {path}");
            return 2;
        }
    };
    let reg = registry();
    let mut stats = Stats::default();
    if let Some([seed, from, step, to]) = r.prelude {
        println!("first the runs {from}, {}, .. before {to} of seed {seed}, in this process", from + step);
        let mut i = from;
        while i < to {
            run_one(r.prop, r.thorough, Src::generate(run_seed(seed, r.prop, i)), &reg, &mut stats, false);
            i += step.max(1);
        }
    }
    let o = run_one(r.prop, r.thorough, Src::replay(r.choices), &reg, &mut stats, true);
    for l in &o.trace {
        println!("{l}");
    }
    match o.fail {
        Some(v) => {
            println!("CLASS {}", v.class);
            println!("VIOLATION property={} replay={}", r.prop, path);
            1
        }
        None => 0,
    }
}

// ---------------------------------------------------------------------------------------------
// Worker.

fn worker(a: &[String]) -> i32 {
    let p = prop(&a[0]).expect("property");
    let thorough = a[1] == "thorough";
    let seed: u64 = a[2].parse().unwrap();
    let (w, n, runs): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let wall = Duration::from_secs(a[6].parse().unwrap());
    let first: u64 = a[7].parse().unwrap();
    let dir = PathBuf::from(&a[8]);
    let t0 = Instant::now();
    let reg = registry();
    let mut stats = Stats::default();
    let progress = std::fs::File::create(dir.join(format!("w{w}.progress"))).unwrap();
    let mut i = first;
    let mut done = 0u64;
    let mut steps = 0u64;
    let mut hists = HashSet::new();
    let mut found = None;
    let slow = env_u64("CBORSIM_SLOW", 0);
    while i < runs {
        if done % 16 == 0 {
            if t0.elapsed() > wall {
                break;
            }
            if let Ok(s) = std::fs::read_to_string(dir.join("stop")) {
                if s.trim().parse::<u64>().map_or(false, |m| i > m) {
                    break;
                }
            }
        }
        progress.write_all_at(format!("{i:020}").as_bytes(), 0).unwrap();
        let src = Src::generate(run_seed(seed, p, i));
        let began = Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| run_one(p, thorough, src, &reg, &mut stats, false)));
        if slow > 0 && began.elapsed().as_millis() as u64 > slow {
            eprintln!("run {i} of {p} took {} ms", began.elapsed().as_millis());
        }
        let o = match r {
            Ok(o) => o,
            Err(e) => {
                eprintln!("harness panic in run {i} of {p}: {}", crate::panic_text(&*e));
                return 2;
            }
        };
        done += 1;
        steps += o.choices.len() as u64;
        hists.insert(o.hist);
        if o.fail.is_some() {
            found = Some((i, o));
            break;
        }
        i += n;
    }
    let mut out = String::new();
    out.push_str(&format!("done {done}\nchoices {steps}\nsim_us {}\n", stats.sim_us));
    for (k, v) in &stats.counts {
        out.push_str(&format!("count {v} {k}\n"));
    }
    let blob: Vec<u8> = stats.digests.iter().take(4_000_000).flat_map(|d| d.to_le_bytes()).collect();
    std::fs::write(dir.join(format!("w{w}.cases")), blob).unwrap();
    let blob: Vec<u8> = hists.iter().flat_map(|d| d.to_le_bytes()).collect();
    std::fs::write(dir.join(format!("w{w}.hists")), blob).unwrap();
    if let Some((i, o)) = found {
        let v = o.fail.clone().unwrap();
        write_replay(&dir.join(format!("w{w}.viol")), p, thorough, seed, i, &v, &o);
        out.push_str(&format!("found {i} {}\n", v.class));
        let stop = std::fs::read_to_string(dir.join("stop")).ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(u64::MAX);
        if i < stop {
            std::fs::write(dir.join("stop"), i.to_string()).unwrap();
        }
    }
    std::fs::write(dir.join(format!("w{w}.out")), out).unwrap();
    0
}

// ---------------------------------------------------------------------------------------------
// Minimisation.

/// Class of the outcome of a replay, in a fresh process (`crash` wanted) or in this one.
fn class_of(reg: &Registry, r: &Replay, choices: &[u64]) -> Option<String> {
    let mut stats = Stats::default();
    let src = Src::replay(choices.to_vec());
    catch_unwind(AssertUnwindSafe(|| run_one(r.prop, r.thorough, src, reg, &mut stats, false))).ok()?.fail.map(|f| f.class)
}

fn class_in_child(file: &Path, timeout: Duration) -> Option<String> {
    let (st, out) = run_child(&["exec", file.to_str().unwrap()], timeout);
    match st {
        End::Code(1) => out.lines().find_map(|l| l.strip_prefix("CLASS ")).map(|s| s.to_string()),
        End::Code(_) => None,
        End::Signal(s) => Some(format!("crash:signal-{s}")),
        End::Timeout => Some("hang".into()),
    }
}

enum End {
    Code(i32),
    Signal(i32),
    Timeout,
}

fn run_child(args: &[&str], timeout: Duration) -> (End, String) {
    let exe = std::env::current_exe().unwrap();
    let tmp = std::env::temp_dir().join(format!("cborsim-{}-{}", std::process::id(), args.len()));
    let f = std::fs::File::create(&tmp).unwrap();
    let mut c = Command::new(exe).args(args).stdin(Stdio::null()).stdout(f).stderr(Stdio::null()).spawn().unwrap();
    let t0 = Instant::now();
    let end = loop {
        match c.try_wait().unwrap() {
            Some(st) => {
                break match st.code() {
                    Some(c) => End::Code(c),
                    None => End::Signal(st.signal().unwrap_or(0)),
                }
            }
            None if t0.elapsed() > timeout => {
                let _ = c.kill();
                let _ = c.wait();
                break End::Timeout;
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let out = String::from_utf8_lossy(&std::fs::read(&tmp).unwrap_or_default()).into_owned();
    let _ = std::fs::remove_file(&tmp);
    (end, out)
}

/// Run in a fresh process only call `i` of the run the choices describe.
pub fn solo(prop: &str, thorough: bool, choices: &[u64], i: usize, timeout: Duration) -> Option<String> {
    let path = root().join("work").join(format!("solo-{}.json", std::process::id()));
    let o = Outcome { fail: None, hist: 0, choices: choices.to_vec(), spans: vec![], trace: vec![], prelude: None };
    let v = Violation { prop: PROPS.iter().find(|p| **p == prop)?, class: String::new(), text: String::new() };
    write_replay(&path, prop, thorough, 0, i as u64, &v, &o);
    let exe = std::env::current_exe().ok()?;
    let _ = timeout;
    let out = Command::new(exe).args(["exec", path.to_str()?]).env("CBORSIM_SOLO", i.to_string()).stdin(Stdio::null()).stderr(Stdio::null()).output().ok()?;
    let _ = std::fs::remove_file(&path);
    Some(String::from_utf8_lossy(&out.stdout).into_owned())
}

pub fn solo_index() -> Option<usize> {
    static IX: std::sync::OnceLock<Option<usize>> = std::sync::OnceLock::new();
    *IX.get_or_init(|| std::env::var("CBORSIM_SOLO").ok().and_then(|v| v.parse().ok()))
}

/// Shrink the choice vector while the same class of violation persists.
fn shrink(choices: Vec<u64>, spans: Vec<(usize, usize)>, deadline: Instant, mut ok: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut cur = choices;
    // Whole events first.
    let mut spans = spans;
    spans.sort_by_key(|(a, b)| (std::cmp::Reverse(b - a), *a));
    let mut by_pos: Vec<(usize, usize)> = spans.clone();
    by_pos.sort();
    by_pos.reverse();
    for (a, b) in by_pos {
        if Instant::now() > deadline {
            return cur;
        }
        if b <= cur.len() && a < b {
            let mut t = cur.clone();
            t.drain(a..b);
            if ok(&t) {
                cur = t;
                continue;
            }
            let mut t = cur.clone();
            t[a..b].iter_mut().for_each(|x| *x = 0);
            if t != cur && ok(&t) {
                cur = t;
            }
        }
    }
    loop {
        let before = cur.clone();
        // Cut the tail.
        let mut cut = cur.len() / 2;
        while cut > 0 {
            if Instant::now() > deadline {
                return cur;
            }
            if cut <= cur.len() {
                let t = cur[..cur.len() - cut].to_vec();
                if ok(&t) {
                    cur = t;
                    continue;
                }
            }
            cut /= 2;
        }
        // Delete chunks.
        let mut size = (cur.len() / 2).clamp(1, 64);
        while size >= 1 {
            let mut i = cur.len();
            while i > 0 {
                if Instant::now() > deadline {
                    return cur;
                }
                let a = i.saturating_sub(size);
                let mut t = cur.clone();
                t.drain(a..i.min(t.len()));
                if t.len() < cur.len() && ok(&t) {
                    cur = t;
                    i = a;
                } else {
                    let mut t = cur.clone();
                    let mut any = false;
                    let end = i.min(t.len());
                    for x in &mut t[a..end] {
                        any |= *x != 0;
                        *x = 0;
                    }
                    if any && ok(&t) {
                        cur = t;
                    }
                    i = a;
                }
                i = i.min(cur.len());
            }
            size /= 2;
        }
        // Lower single choices.
        for i in 0..cur.len() {
            if i >= cur.len() || cur[i] == 0 {
                continue;
            }
            let v = cur[i];
            let mut cands = vec![1, v / 2, v / 16, v - 1];
            cands.retain(|c| *c < v);
            for cand in cands {
                if Instant::now() > deadline {
                    return cur;
                }
                let mut t = cur.clone();
                t[i] = cand;
                if ok(&t) {
                    cur = t;
                    break;
                }
            }
        }
        if cur == before {
            return cur;
        }
    }
}

/// Minimise the replay file in place.
fn shrink_cmd(path: &str, secs: u64) -> i32 {
    let r = match read_replay(path) {
        Some(r) => r,
        None => return 2,
    };
    let reg = registry();
    let class = match class_of(&reg, &r, &r.choices) {
        Some(c) => c,
        None => return 2,
    };
    let spans = {
        let mut stats = Stats::default();
        run_one(r.prop, r.thorough, Src::replay(r.choices.clone()), &reg, &mut stats, false).spans
    };
    let end = Instant::now() + Duration::from_secs(secs);
    let min = shrink(r.choices.clone(), spans, end, |t| class_of(&reg, &r, t).as_deref() == Some(&class));
    let mut stats = Stats::default();
    let o = run_one(r.prop, r.thorough, Src::replay(min), &reg, &mut stats, true);
    let v = match &o.fail {
        Some(v) => v.clone(),
        None => return 2,
    };
    write_replay(Path::new(path), r.prop, r.thorough, env_u64("VERIF_SEED", 1), r.run, &v, &o);
    0
}

// ---------------------------------------------------------------------------------------------
// The check.

fn known_findings() -> Vec<(String, String)> {
    // Lines "known: property=<id> class=<class> match=<substring of the violation text> <what fails>"
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known-findings.txt")) {
        for l in s.lines().filter(|l| l.starts_with("known: ")) {
            if let Some(p) = l.split("property=").nth(1).and_then(|x| x.split(' ').next()) {
                v.push((p.to_string(), l["known: ".len()..].to_string()));
            }
        }
    }
    v
}

/// Processor time a child of this process has used.
fn cpu_seconds(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let ticks: u64 = s.rsplit(')').next().unwrap_or("").split_whitespace().skip(11).take(2).filter_map(|x| x.parse::<u64>().ok()).sum();
    ticks as f64 / 100.0
}

fn check(name: &str) -> i32 {
    let p = match prop(name) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {name}");
            return 2;
        }
    };
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let runs = env_u64("CBORSIM_RUNS", if thorough { plan(p).thorough } else { plan(p).quick });
    let wall = env_u64("CBORSIM_WALL", if thorough { 3600 } else { 150 });
    println!("seed {seed} tier {tier} property {p} runs {runs}");
    let dir = root().join("work").join(format!("{p}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let rc = check_in(p, seed, thorough, tier, runs, wall, t0, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    rc
}

fn check_in(p: &'static str, seed: u64, thorough: bool, tier: &str, runs: u64, wall: u64, t0: Instant, dir: &Path) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let n = env_u64("CBORSIM_WORKERS", WORKERS).min(runs.max(1));
    let spawn = |w: u64, first: u64| {
        let args: Vec<String> = ["worker", p, tier].iter().map(|s| s.to_string()).chain([seed, w, n, runs, wall, first].iter().map(|x| x.to_string())).collect();
        Command::new(&exe).args(&args).arg(dir).stdin(Stdio::null()).spawn().expect("spawn worker")
    };
    let mut kids: Vec<_> = (0..n).map(|w| (w, spawn(w, w), Instant::now(), 0.0, String::new())).collect();
    // One run may not take longer than this: of processor time, so that a loaded machine is not taken
    // for a hang, or three times as much of waiting.
    let hang = env_u64("CBORSIM_HANG", 60) as f64;
    // Runs that killed or hung their worker.
    let mut dead: Vec<(u64, String)> = vec![];
    let mut harness_error = false;
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < kids.len() {
            let (w, kid, since, cpu, last) = &mut kids[i];
            let prog = std::fs::read_to_string(dir.join(format!("w{w}.progress"))).unwrap_or_default();
            if prog != *last {
                *last = prog.clone();
                *since = Instant::now();
                *cpu = cpu_seconds(kid.id());
            }
            let waited = since.elapsed().as_secs_f64();
            let stuck = waited > hang && (waited > 3.0 * hang || cpu_seconds(kid.id()) - *cpu > hang);
            let at = prog.trim().parse::<u64>().unwrap_or(*w);
            match kid.try_wait().unwrap() {
                Some(st) if st.code() == Some(0) => {
                    kids.remove(i);
                    continue;
                }
                Some(st) => {
                    if let Some(s) = st.signal() {
                        dead.push((at, format!("crash:signal-{s}")));
                    } else {
                        harness_error = true;
                    }
                    let _ = std::fs::write(dir.join("stop"), at.to_string());
                    kids.remove(i);
                    continue;
                }
                None if stuck => {
                    let _ = kid.kill();
                    let _ = kid.wait();
                    dead.push((at, "hang".into()));
                    let _ = std::fs::write(dir.join("stop"), at.to_string());
                    kids.remove(i);
                    continue;
                }
                None => {}
            }
            i += 1;
        }
    }
    // Gather.
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let (mut done, mut choices, mut sim_us) = (0u64, 0u64, 0u64);
    let mut cases: HashSet<u64> = HashSet::new();
    let mut hists: HashSet<u64> = HashSet::new();
    let mut found: Option<(u64, String, PathBuf)> = None;
    for w in 0..n {
        if let Ok(s) = std::fs::read_to_string(dir.join(format!("w{w}.out"))) {
            for l in s.lines() {
                let f: Vec<&str> = l.splitn(3, ' ').collect();
                match f[0] {
                    "done" => done += f[1].parse::<u64>().unwrap(),
                    "choices" => choices += f[1].parse::<u64>().unwrap(),
                    "sim_us" => sim_us += f[1].parse::<u64>().unwrap(),
                    "count" => {
                        let (c, v) = (counts.entry(f[2].to_string()).or_default(), f[1].parse::<u64>().unwrap());
                        *c = if f[2].starts_with("max.") { v.max(*c) } else { v + *c };
                    }
                    "found" => {
                        let i: u64 = f[1].parse().unwrap();
                        if found.as_ref().map_or(true, |x| i < x.0) {
                            found = Some((i, f[2].to_string(), dir.join(format!("w{w}.viol"))));
                        }
                    }
                    _ => {}
                }
            }
        }
        for (ext, set) in [("cases", &mut cases), ("hists", &mut hists)] {
            if let Ok(b) = std::fs::read(dir.join(format!("w{w}.{ext}"))) {
                set.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
    }
    // Crashes are only believed if the run does it again.
    dead.sort();
    let mut unreproduced = false;
    if let Some((i, class)) = dead.first().cloned() {
        if found.as_ref().map_or(true, |f| i < f.0) {
            match reproduce_crash(p, thorough, seed, i, &class, dir) {
                Some((class, path)) => found = Some((i, class, path)),
                None => unreproduced = true,
            }
        }
    }
    // A sample of runs is executed twice more, in fresh processes with another split.
    let resampled = if found.is_none() && dead.is_empty() && !harness_error { resample(p, seed, thorough) } else { None };
    let mut rc = 0;
    let mut violations = 0;
    if let Some((i, class, path)) = found {
        violations = 1;
        let final_path = root().join("replays").join(format!("{p}-seed{seed}-run{i}.json"));
        std::fs::create_dir_all(final_path.parent().unwrap()).ok();
        std::fs::copy(&path, &final_path).expect("copy replay");
        let secs = env_u64("CBORSIM_SHRINK", if thorough { 120 } else { 30 });
        if class.starts_with("crash:") || class == "hang" || class == "deadlock" {
            shrink_child(&final_path, &class, secs);
        } else {
            minimise(&final_path, &class, secs, seed, i, n);
        }
        let text = std::fs::read_to_string(&final_path).unwrap_or_default();
        let what = text.lines().find(|l| l.starts_with("\"violation\"")).unwrap_or("").to_string();
        let known = known_findings().into_iter().find(|(kp, l)| {
            kp == p
                && l.contains(&format!("class={class} "))
                && l.split("match=`").nth(1).and_then(|x| x.split('`').next()).map_or(false, |m| !m.is_empty() && what.contains(m))
        });
        match known {
            Some((_, l)) => println!("KNOWN-FINDING: {l}"),
            None => {
                println!("class {class}: {what}");
                println!("VIOLATION property={p} replay={}", final_path.display());
                rc = 1;
            }
        }
    } else if harness_error || unreproduced {
        eprintln!("check error: {}", if unreproduced { format!("run {:?} ended a worker but did not do so again", dead) } else { "a worker failed".into() });
        rc = 2;
    }
    let wall_s = t0.elapsed().as_secs_f64();
    evidence(p, seed, tier, done, choices, sim_us, &counts, cases.len() as u64, hists.len() as u64, wall_s, violations, resampled, n);
    println!(
        "{p}: {done} runs, {} judged calls, {} distinct cases, {:.1} s simulated, {:.1} s wall",
        counts.get("judged").copied().unwrap_or(0),
        cases.len(),
        sim_us as f64 / 1e6,
        wall_s
    );
    rc
}

/// Run a few indices again in two fresh processes; `Some((runs, diverged))`.
fn resample(p: &str, _seed: u64, thorough: bool) -> Option<(u64, u64)> {
    let n = if thorough { 400 } else { 40 };
    let to = n.to_string();
    let (_, a) = run_child(&["hist", p, "0", &to, "1"], Duration::from_secs(120));
    let (_, b0) = run_child(&["hist", p, "0", &to, "2"], Duration::from_secs(120));
    let (_, b1) = run_child(&["hist", p, "1", &to, "2"], Duration::from_secs(120));
    let mut split: Vec<&str> = b0.lines().chain(b1.lines()).collect();
    split.sort_by_key(|l| l.split(' ').next().and_then(|x| x.parse::<u64>().ok()));
    let whole: Vec<&str> = a.lines().collect();
    let bad = whole.iter().zip(&split).filter(|(x, y)| x != y).count() as u64 + (whole.len() as i64 - split.len() as i64).unsigned_abs();
    Some((whole.len() as u64, bad))
}

fn reproduce_crash(p: &'static str, thorough: bool, seed: u64, i: u64, class: &str, dir: &Path) -> Option<(String, PathBuf)> {
    // The generated choices are not known when the process dies, so the run is repeated from its
    // seed by a child that records them as it goes.
    let path = dir.join("crash.json");
    let log = dir.join("crash.choices");
    std::env::set_var("CBORSIM_CHOICES", &log);
    let tier = if thorough { "thorough" } else { "quick" };
    std::env::set_var("VERIF_SEED", seed.to_string());
    let (end, _) = run_child(&["one", p, &i.to_string(), tier], Duration::from_secs(90));
    std::env::remove_var("CBORSIM_CHOICES");
    let again = match end {
        End::Signal(s) => format!("crash:signal-{s}"),
        End::Timeout => "hang".into(),
        End::Code(_) => return None,
    };
    if again != class && !(again.starts_with("crash") && class.starts_with("crash")) {
        return None;
    }
    let raw = std::fs::read(&log).ok()?;
    let choices: Vec<u64> = raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let v = Violation { prop: p, class: again.clone(), text: format!("the process running the node died: {again}") };
    let o = Outcome { fail: Some(v.clone()), hist: 0, choices, spans: vec![], trace: vec![], prelude: None };
    write_replay(&path, p, thorough, seed, i, &v, &o);
    Some((again, path))
}

/// Minimise with every candidate executed in a process of its own.
fn shrink_child(path: &Path, class: &str, secs: u64) {
    let r = match read_replay(path.to_str().unwrap()) {
        Some(r) => r,
        None => return,
    };
    let index = r.run;
    let tmp = path.with_extension("tmp");
    let limit = if class == "hang" { 20 } else { 10 };
    let died = class.starts_with("crash") || class == "hang";
    let text = if died { format!("the process running the node died: {class}") } else { class.to_string() };
    let v = Violation { prop: r.prop, class: class.to_string(), text };
    let put = |path: &Path, c: &[u64], trace: Vec<String>, v: &Violation| {
        let o = Outcome { fail: Some(v.clone()), hist: 0, choices: c.to_vec(), spans: vec![], trace, prelude: r.prelude };
        write_replay(path, r.prop, r.thorough, env_u64("VERIF_SEED", 1), index, v, &o);
    };
    let end = Instant::now() + Duration::from_secs(secs);
    let min = shrink(r.choices.clone(), vec![], end, |t| {
        put(&tmp, t, vec![], &v);
        class_in_child(&tmp, Duration::from_secs(limit)).as_deref() == Some(class)
    });
    put(&tmp, &min, vec![], &v);
    let (_, out) = run_child(&["exec", tmp.to_str().unwrap()], Duration::from_secs(limit));
    let trace: Vec<String> = out.lines().filter(|l| !l.starts_with("CLASS ") && !l.starts_with("VIOLATION ")).map(|l| l.to_string()).collect();
    let v = match trace.iter().find_map(|l| l.strip_prefix("VIOLATED ")) {
        Some(t) => Violation { text: t.to_string(), ..v.clone() },
        None => v.clone(),
    };
    put(path, &min, trace, &v);
    let _ = std::fs::remove_file(&tmp);
}

/// Minimise in a child and keep the result only if a fresh process fails the same way.
fn minimise(path: &Path, class: &str, secs: u64, seed: u64, run: u64, step: u64) {
    let long = Duration::from_secs(60);
    let again = |p: &Path| class_in_child(p, long).as_deref() == Some(class);
    let tmp = path.with_extension("tmp");
    if again(path) {
        if std::fs::copy(path, &tmp).is_err() {
            return;
        }
        let (end, _) = run_child(&["shrink", tmp.to_str().unwrap(), &secs.to_string()], Duration::from_secs(secs + 60));
        if matches!(end, End::Code(0)) && again(&tmp) {
            let _ = std::fs::rename(&tmp, path);
        } else {
            // State that outlives a run misleads minimisation within one process.
            let _ = std::fs::remove_file(&tmp);
            shrink_child(path, class, secs);
        }
        return;
    }
    // The violation needs runs that came before it in the same process.
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut k = 1;
    loop {
        let back = k * step;
        let from = if back > run { run % step } else { run - back };
        let with = text.replacen("\"choices\": [", &format!("\"prelude\": [{seed},{from},{step},{run}],\n\"choices\": ["), 1);
        let _ = std::fs::write(&tmp, with);
        if class_in_child(&tmp, Duration::from_secs(150)).as_deref() == Some(class) {
            let _ = std::fs::rename(&tmp, path);
            println!("note: needs the runs {from}, {}, .. before it in the same process", from + step);
            shrink_child(path, class, secs.min(20));
            return;
        }
        if from < step {
            break;
        }
        k *= 4;
    }
    let _ = std::fs::remove_file(&tmp);
    println!("note: the replay file does not fail in a fresh process");
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &'static str,
    seed: u64,
    tier: &str,
    done: u64,
    choices: u64,
    sim_us: u64,
    counts: &BTreeMap<String, u64>,
    cases: u64,
    hists: u64,
    wall_s: f64,
    violations: u64,
    resampled: Option<(u64, u64)>,
    workers: u64,
) {
    // Samples: the first runs of this batch, written out.
    let reg = registry();
    let mut samples = vec![];
    for i in 0..2u64 {
        if done == 0 || violations > 0 {
            break;
        }
        let mut st = Stats::default();
        let src = Src::generate(run_seed(seed, p, i));
        if let Ok(o) = catch_unwind(AssertUnwindSafe(|| run_one(p, tier == "thorough", src, &reg, &mut st, true))) {
            let t: Vec<String> = o.trace.iter().take(14).map(|l| json_str(&l.chars().take(300).collect::<String>())).collect();
            samples.push(format!("{{\"run\": {i}, \"events\": [{}]}}", t.join(", ")));
        }
    }
    let judged = counts.get("judged").copied().unwrap_or(0);
    let group = |prefix: &str| -> String {
        let v: Vec<String> =
            counts.iter().filter(|(k, _)| k.starts_with(prefix)).map(|(k, n)| format!("{}: {n}", json_str(&k[prefix.len()..]))).collect();
        format!("{{{}}}", v.join(", "))
    };
    let (level, rule, real, stub, assume) = crate::runner::describe(p);
    let mut s = String::from("{\n");
    s.push_str(&format!("\"property\": {},\n\"tier\": {},\n\"seed\": {seed},\n\"level\": {},\n", json_str(p), json_str(tier), json_str(level)));
    s.push_str("\"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {judged},\n  \"distinct_nontrivial\": {cases},\n"));
    s.push_str(&format!("  \"rule\": {},\n", json_str(rule)));
    s.push_str(&format!("  \"samples\": [{}],\n", samples.join(",\n    ")));
    s.push_str(&format!("  \"simulated_runs\": {done},\n  \"runs_per_hour\": {:.0},\n", done as f64 / wall_s.max(0.001) * 3600.0));
    s.push_str(&format!("  \"distinct_run_histories\": {hists},\n  \"choices_drawn\": {choices},\n"));
    s.push_str(&format!("  \"simulated_seconds\": {:.3},\n  \"worker_processes\": {workers},\n", sim_us as f64 / 1e6));
    s.push_str(&format!("  \"faults_fired\": {},\n", group("fault.")));
    s.push_str(&format!("  \"rare_conditions_reached\": {},\n", group("probe.")));
    s.push_str(&format!("  \"maxima\": {},\n", group("max.")));
    s.push_str(&format!("  \"mismatches_attributed_to_other_properties\": {},\n", counts.get("other-property-mismatch").copied().unwrap_or(0)));
    if let Some((n, bad)) = resampled {
        s.push_str(&format!("  \"runs_repeated_in_fresh_processes\": {n},\n  \"repeats_that_diverged\": {bad},\n"));
    }
    s.push_str(&format!("  \"real_components\": {},\n  \"stub_components\": {}\n", json_str(real), json_str(stub)));
    s.push_str("},\n");
    let a: Vec<String> = assume.iter().map(|x| json_str(x)).collect();
    s.push_str(&format!("\"assumptions\": [{}],\n", a.join(", ")));
    s.push_str(&format!("\"wall_s\": {wall_s:.3},\n\"violations\": {violations}\n}}\n"));
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    let mut f = std::fs::File::create(dir.join(format!("{p}.json"))).expect("evidence");
    f.write_all(s.as_bytes()).expect("evidence");
}

fn describe(p: &str) -> (&'static str, &'static str, &'static str, &'static str, &'static [&'static str]) {
    const REAL: &str = "oasis-cbor, oasis-cbor-value and oasis-cbor-derive built from /repo's working tree, unmodified; serde; std collections, hashing and locks; one OS thread per node incarnation or caller";
    const A: &[&str] = &[
        "the reference model in sim/src/model.rs and sim/src/ty.rs states the documented format and type mappings correctly",
        "the record types of sim/src/types.rs stand for the types users derive",
        "sampling: a clean batch is evidence, not proof",
    ];
    match p {
        "C05" => (
            "exploration",
            "Hostile byte strings (claimed lengths, nesting, width, recursion through real types, forged forms, noise) are generated and delivered to every decoding entry point on a node with a 256 KiB stack under a memory budget; what decodes is encoded again there. One evaluation is one such call. Distinct and non-trivial: distinct (record type, entry point, exact bytes).",
            REAL,
            "the sender, the node's memory (accounting and limiting allocator) and its stack size; worker processes stand for machines that may die",
            A,
        ),
        "C07" => (
            "exploration",
            "One evaluation is one library call (top level or re-entrant) under a drawn schedule and call history, its outcome compared with the same call alone on a fresh thread, or with the reference model. Distinct and non-trivial: distinct pairs of (interleaving digest: the ordered list of switches with the point each happened at, plus operation and outcome).",
            REAL,
            "thread scheduling (a baton scheduler over real threads; futex and sched_yield interposed; trap-flag single-stepping), allocation failure, user callbacks",
            A,
        ),
        "C08" => (
            "exploration",
            "One evaluation is one library call, cut short at a drawn point or left alone, judged on outcome and on the memory it kept. Distinct and non-trivial: distinct (undisturbed outcome, failing allocation, memory limit, panicking callback) among the calls that really were cut short.",
            REAL,
            "allocation (failing, limited, accounted; failures are only delivered to vectors and strings because std's trees and tables do not survive unwinding out of an allocation), user callbacks",
            A,
        ),
        "C10" => (
            "exploration",
            "One evaluation is one write into a buffer that already holds bytes. Distinct and non-trivial: distinct (value, nesting limit, prefix length class, number of failed allocations).",
            REAL,
            "allocation (failing, limited), the caller's buffer management",
            A,
        ),
        "C12" => (
            "exploration",
            "One evaluation is one encode or decode call, judged against the reference model, of a type whose codec is written by hand with the construction and destructuring macros. A case is counted as distinct and non-trivial by the pair (type and entry point, exact bytes produced or delivered).",
            REAL,
            "network (loss, duplication, reordering, delay, partition, corruption), disk (torn, lost and rotting writes), clock, crash and restart, upgrades and the client workload are simulated; the independent peer is the reference codec in sim/src/model.rs and ty.rs; the hand-written codecs are sim/src/hand.rs",
            A,
        ),
        "C13" => (
            "exploration",
            "One evaluation is one update, lookup, range scan, merge, sort or comparison on a replica's index of generic values, compared with a reference index kept by canonical bytes. Distinct and non-trivial: distinct (key, contents of the index it is applied to).",
            REAL,
            "network (loss, duplication, reordering, delay), the log and its loss of unsynced entries, crash and restart with replay in another order, and the client workload are simulated; the reference index orders records by the bytes of the reference encoder",
            A,
        ),
        "C14" => (
            "exploration",
            "One evaluation is one library call made on the native node and on a node of another architecture (or one comparison of two generic values there), the outcomes compared. Distinct and non-trivial: distinct (architecture, exact call).",
            "oasis-cbor, oasis-cbor-value and oasis-cbor-derive built from /repo's working tree, unmodified, natively (x86_64) and for each foreign target; serde; std",
            "the foreign processors (wasm32: the WebAssembly engine of node.js; s390x and powerpc: the Miri interpreter; one process per node, single-threaded and without input but the wire), the wire between the nodes, and the client workload",
            A,
        ),
        _ => (
            "exploration",
            "One evaluation is one encode or decode call of the real library judged against the reference model or another replica. A case is counted as distinct and non-trivial by the pair (record type and entry point, exact bytes produced or delivered).",
            REAL,
            "network (loss, duplication, reordering, delay, partition, corruption), disk (torn, lost and rotting writes), clock, crash and restart, upgrades, hash seeds (getrandom) and the client workload are simulated; the independent peer is the reference codec in sim/src/model.rs and ty.rs",
            A,
        ),
    }
}
