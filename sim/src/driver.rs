//! Driver: workers execute seeded runs, the parent collects, confirms, minimises and reports.

use crate::plan::{Plan, reductions};
use crate::run::{PROPS, execute, needs_fault, nontrivial, plan_for, relevant, rule};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt as _;
use std::os::unix::process::ExitStatusExt as _;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const RUN_LIMIT: u64 = 60;

/// How the generated collections in this program came about.
pub static FIXTURES: std::sync::OnceLock<&'static str> = std::sync::OnceLock::new();

fn prepare() {
    crate::alloc::enable();
    if std::env::var_os("FCSIM_TRACE").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(String::as_str) {
        Some("check") => check(&a[2..]),
        Some("worker") => worker(&a[2..]),
        Some("exec") => exec(&a[2]),
        Some("replay") => replay(&a[2], false),
        Some("plan") => {
            println!("{}", serde_json::to_string(&plan_for(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap())).unwrap());
            0
        }
        Some("plans") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            for r in (n(4)..=n(6)).step_by(a[5].parse().unwrap()) {
                println!("{}", serde_json::to_string(&plan_for(&a[2], n(3), r)).unwrap());
            }
            0
        }
        Some("id") => {
            println!("{}", FIXTURES.get().copied().unwrap_or(""));
            0
        }
        Some("show") => show(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        Some("determinism") => determinism(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()),
        _ => {
            eprintln!("usage: fcsim check <property> <quick|thorough> <seed> <verif dir> | replay <file> | show <property> <seed> <run> | determinism <property> <seed> <from> <to>");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

// ---------------------------------------------------------------- one run

/// Executes a plan file; prints the outcome as one JSON line. Exit 0: no violation, 3: violation.
fn exec(file: &str) -> i32 {
    let Ok(text) = fs::read_to_string(file) else { return 2 };
    let v: Value = serde_json::from_str(&text).unwrap();
    let mut plans: Vec<Plan> = v.get("before").map_or(Vec::new(), |b| serde_json::from_value(b.clone()).unwrap());
    plans.push(serde_json::from_value(v.get("plan").cloned().unwrap_or(v)).unwrap());
    prepare();
    let mut at = 0;
    let mut o = execute(&plans[0], true);
    while o.viol.is_none() && at + 1 < plans.len() {
        at += 1;
        // a sign of life for the parent
        let _ = writeln!(std::io::stdout(), "{at}");
        o = execute(&plans[at], true);
    }
    match &o.viol {
        Some(v) => {
            println!("{}", json!({"class": v.class, "msg": v.msg, "log": o.log, "log_hash": format!("{:016x}", o.log_hash), "at": at}));
            3
        }
        None => {
            println!("{}", json!({"class": null, "log": o.log, "log_hash": format!("{:016x}", o.log_hash)}));
            0
        }
    }
}

fn show(prop: &str, seed: u64, r: u64) -> i32 {
    let p = plan_for(prop, seed, r);
    println!("{}", serde_json::to_string(&p).unwrap());
    prepare();
    let o = execute(&p, true);
    for l in o.log {
        println!("{l}");
    }
    println!("{:?} hash {:016x}", o.viol, o.log_hash);
    0
}

/// Prints one line per run: its number and the hash of its event log.
fn determinism(prop: &str, seed: u64, from: u64, to: u64) -> i32 {
    prepare();
    for r in from..to {
        let p = plan_for(prop, seed, r);
        let o = execute(&p, false);
        println!("{r} {:016x} {:?}", o.log_hash, o.viol.map(|v| v.class));
    }
    0
}

fn worker(a: &[String]) -> i32 {
    let prop = &a[0];
    let seed: u64 = a[1].parse().unwrap();
    let (start, step, end): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let secs: u64 = a[5].parse().unwrap();
    let base = PathBuf::from(&a[6]);
    prepare();
    let progress = fs::File::create(base.with_extension("progress")).unwrap();
    let t0 = Instant::now();
    let mut flushed = Instant::now();
    let mut runs = 0u64;
    let mut ops = 0u64;
    let mut callbacks = 0u64;
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut notes: BTreeMap<String, u64> = BTreeMap::new();
    let mut cover: BTreeSet<u64> = BTreeSet::new();
    let mut logs: HashSet<u64> = HashSet::new();
    let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut slow: BTreeMap<String, u64> = BTreeMap::new();
    let mut found = Value::Null;
    let mut r = start;
    let mut code = 0;
    let mut last = false;
    loop {
        let over = r >= end || t0.elapsed().as_secs() >= secs;
        if !over {
            let _ = progress.write_all_at(&r.to_le_bytes(), 0);
            let p = plan_for(prop, seed, r);
            let keep = samples.len() < 2 && (r / step) % 7 == 3;
            let begun = Instant::now();
            let o = execute(&p, keep);
            runs += 1;
            let ms = begun.elapsed().as_millis() as u64;
            if ms > 2000 {
                slow.insert(r.to_string(), ms);
            }
            ops += o.stats.ops;
            callbacks += o.stats.callbacks;
            for (k, n) in &o.stats.fired {
                *fired.entry(k.clone()).or_default() += n;
            }
            for (k, n) in &o.stats.notes {
                let e = notes.entry(k.clone()).or_default();
                if k.starts_with("max_") { *e = (*e).max(*n) } else { *e += n }
            }
            if nontrivial(prop, &o.stats) {
                logs.insert(o.log_hash);
            }
            cover.extend(o.stats.cover);
            if keep {
                let mut log = o.log;
                log.truncate(40);
                samples.push(json!({"run": r, "seed": p.seed, "types": p.targets, "log": log}));
            }
            if let Some(v) = o.viol {
                if relevant(prop, &v.class) {
                    found = json!({"run": r, "class": v.class, "msg": v.msg});
                } else {
                    *foreign.entry(v.class.clone()).or_default() += 1;
                    found = json!({"run": r, "class": v.class, "foreign": true, "msg": v.msg});
                }
                // the process may be damaged now; the parent starts a fresh one behind this run
                last = true;
                code = 3;
            }
            r += step;
        }
        last |= over;
        if last || flushed.elapsed().as_secs() >= 5 {
            flushed = Instant::now();
            let v = json!({
                "runs": runs, "ops": ops, "callbacks": callbacks, "fired": fired, "notes": notes, "cover": cover, "logs": logs, "foreign": foreign,
                "samples": samples, "slow": slow, "found": found, "next": r,
            });
            let tmp = base.with_extension("tmp");
            fs::write(&tmp, v.to_string()).unwrap();
            fs::rename(&tmp, base.with_extension("json")).unwrap();
        }
        if last {
            return code;
        }
    }
}

// ---------------------------------------------------------------- children

fn me() -> PathBuf {
    std::env::current_exe().unwrap()
}

/// The programs that execute runs, which differ in the generated collections they contain. Run `r` belongs to number
/// `r` modulo their count.
fn programs() -> Vec<PathBuf> {
    match std::env::var("FCSIM_EXES") {
        Ok(s) => s.split(':').filter(|x| !x.is_empty()).map(PathBuf::from).collect(),
        Err(_) => vec![me()],
    }
}

fn ask(exe: &Path, args: &[&str]) -> String {
    let o = Command::new(exe).args(args).stderr(Stdio::null()).output().unwrap();
    String::from_utf8_lossy(&o.stdout).trim().to_string()
}

fn plan_from(exe: &Path, prop: &str, seed: u64, r: u64) -> Plan {
    serde_json::from_str(&ask(exe, &["plan", prop, &seed.to_string(), &r.to_string()])).unwrap()
}

/// The runs a worker executed from one number up to another.
fn plans_from(exe: &Path, prop: &str, seed: u64, from: u64, step: u64, to: u64) -> Vec<Plan> {
    let text = ask(exe, &["plans", prop, &seed.to_string(), &from.to_string(), &step.to_string(), &to.to_string()]);
    text.lines().map(|l| serde_json::from_str(l).unwrap()).collect()
}

#[derive(Clone, Debug, PartialEq)]
struct Verdict {
    class: Option<String>,
    msg: String,
    log: Vec<String>,
    hash: String,
    /// which of the plans it was
    at: usize,
}

/// Executes plans one after another in a process of their own, up to the first violation. The limit applies to each.
fn in_child(exe: &Path, plans: &[Plan], dir: &Path, tag: &str, limit: u64) -> Verdict {
    let f = dir.join(format!("{tag}.plan"));
    let (last, before) = plans.split_last().unwrap();
    fs::write(&f, json!({"before": before, "plan": last}).to_string()).unwrap();
    let out = dir.join(format!("{tag}.out"));
    let mut c = Command::new(exe)
        .arg("exec")
        .arg(&f)
        .stdout(fs::File::create(&out).unwrap())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let mut t0 = Instant::now();
    let mut grown = 0;
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            let text = fs::read_to_string(&out).unwrap_or_default();
            let line = text.lines().rev().find(|l| l.starts_with('{'));
            let v: Value = line.and_then(|l| serde_json::from_str(l).ok()).unwrap_or(Value::Null);
            let log = v["log"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(str::to_string)).collect()).unwrap_or_default();
            let hash = v["log_hash"].as_str().unwrap_or("").to_string();
            let begun = || text.lines().rev().find_map(|l| l.parse::<usize>().ok()).unwrap_or(0);
            let at = v["at"].as_u64().map_or_else(begun, |x| x as usize);
            return match (st.code(), st.signal()) {
                (Some(0), _) => Verdict { class: None, msg: String::new(), log, hash, at },
                (Some(3), _) => {
                    Verdict { class: v["class"].as_str().map(str::to_string), msg: v["msg"].as_str().unwrap_or("").to_string(), log, hash, at }
                }
                (Some(7), _) => Verdict { class: Some("hang/threads".into()), msg: v["msg"].as_str().unwrap_or("a reader never got on").to_string(), log, hash, at },
                (_, Some(s)) => Verdict { class: Some(format!("crash/signal{s}")), msg: format!("the process died of signal {s}"), log, hash, at },
                (c, _) => Verdict { class: Some(format!("harness/exit{c:?}")), msg: text.clone(), log, hash, at },
            };
        }
        if t0.elapsed().as_secs() >= limit {
            let text = fs::read_to_string(&out).unwrap_or_default();
            if text.len() > grown {
                grown = text.len();
                t0 = Instant::now();
                continue;
            }
            let _ = c.kill();
            let _ = c.wait();
            let at = text.lines().rev().find_map(|l| l.parse::<usize>().ok()).unwrap_or(0);
            return Verdict { class: Some("hang/run".into()), msg: format!("the run did not finish within {limit} seconds"), log: vec![], hash: String::new(), at };
        }
        std::thread::sleep(Duration::from_micros(500));
    }
}

/// The first of the candidates that fails in the same way.
fn first_hit(exe: &Path, cands: &[Vec<Plan>], class: &str, dir: &Path) -> Option<Vec<Plan>> {
    let limit = if class.starts_with("hang") { 10 } else { 30 };
    let hits: Vec<Option<Vec<Plan>>> = std::thread::scope(|s| {
        let hs: Vec<_> = cands
            .iter()
            .enumerate()
            .map(|(i, p)| {
                s.spawn(move || {
                    let v = in_child(exe, p, dir, &format!("shrink{i}"), limit);
                    (v.class.as_deref() == Some(class)).then(|| p[..=v.at].to_vec())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    hits.into_iter().flatten().next()
}

/// Minimises a list of plans, executed one after another, the last of which fails.
fn shrink(exe: &Path, plans: &[Plan], class: &str, dir: &Path, secs: u64) -> Vec<Plan> {
    let t0 = Instant::now();
    let over = || t0.elapsed().as_secs() >= secs;
    let mut best = plans.to_vec();
    // fewer plans
    let mut size = (best.len() - 1).div_ceil(2);
    while size > 0 && best.len() > 1 && !over() {
        let before = best.len() - 1;
        let cands: Vec<Vec<Plan>> = (0..before)
            .step_by(size)
            .map(|i| best.iter().enumerate().filter(|(j, _)| *j < i || *j >= (i + size).min(before)).map(|(_, p)| p.clone()).collect())
            .collect();
        let hit = cands.chunks(8).take_while(|_| !over()).find_map(|c| first_hit(exe, c, class, dir));
        match hit {
            Some(p) => {
                best = p;
                size = size.min((best.len() - 1).div_ceil(2));
            }
            None => size /= 2,
        }
    }
    // smaller plans, the last one first
    let mut at = best.len();
    'plans: while at > 0 && !over() {
        at -= 1;
        'again: loop {
            let cands: Vec<Vec<Plan>> = reductions(&best[at])
                .into_iter()
                .map(|p| {
                    let mut v = best.clone();
                    v[at] = p;
                    v
                })
                .collect();
            for chunk in cands.chunks(8) {
                if over() {
                    break 'plans;
                }
                if let Some(p) = first_hit(exe, chunk, class, dir) {
                    best = p;
                    if at >= best.len() {
                        at = best.len();
                        continue 'plans;
                    }
                    continue 'again;
                }
            }
            break;
        }
    }
    best
}

fn write_replay(exe: &Path, path: &Path, prop: &str, seed: u64, run: u64, plans: &[Plan], v: &Verdict) {
    let id = ask(exe, &["id"]);
    let how = if id.is_empty() {
        "bash build.sh && sim/target/debug/fcsim replay <this file>".to_string()
    } else {
        "bash tools/replay.sh <this file>".to_string()
    };
    let (plan, before) = plans.split_last().unwrap();
    let j = json!({
        "property": prop, "program": id, "verif_seed": seed, "run": run, "class": v.class, "violation": v.msg, "event_log": v.log, "log_hash": v.hash, "before": before, "plan": plan,
        "how": how,
    });
    fs::create_dir_all(path.parent().unwrap()).unwrap();
    fs::write(path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

/// Re-executes a replay file. Exit 1 and a VIOLATION line if it fails the same way again.
fn replay(file: &str, quiet: bool) -> i32 {
    let Ok(text) = fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let v: Value = serde_json::from_str(&text).unwrap();
    let mut plans: Vec<Plan> = v.get("before").map_or(Vec::new(), |b| serde_json::from_value(b.clone()).unwrap());
    plans.push(serde_json::from_value(v["plan"].clone()).unwrap());
    let prop = v["property"].as_str().unwrap();
    let dir = std::env::temp_dir().join(format!("fcsim-replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let program = v["program"].as_str().unwrap_or("");
    if program != FIXTURES.get().copied().unwrap_or("") {
        println!("note: recorded with a program built with \"{program}\", this one is \"{}\"", FIXTURES.get().copied().unwrap_or(""));
    }
    let got = in_child(&me(), &plans, &dir, "replay", RUN_LIMIT * 2);
    let _ = fs::remove_dir_all(&dir);
    if !quiet {
        for l in &got.log {
            println!("{l}");
        }
    }
    let same = got.class.as_deref() == v["class"].as_str();
    println!("outcome: {:?} {}", got.class, got.msg);
    println!("log hash {} recorded {}", got.hash, v["log_hash"].as_str().unwrap_or(""));
    if same {
        println!("VIOLATION property={prop} replay={file}");
        1
    } else {
        println!("not reproduced");
        0
    }
}

// ---------------------------------------------------------------- the check

fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let quick = match prop {
        "C15" => 300_000,
        _ => 150_000,
    };
    let (n, s) = match tier {
        "thorough" => (quick * 40, 2400),
        _ => (quick, 50),
    };
    (
        std::env::var("FCSIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(n),
        std::env::var("FCSIM_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(s),
    )
}

fn shrink_secs(tier: &str) -> u64 {
    let asked = std::env::var("FCSIM_SHRINK").ok().and_then(|x| x.parse().ok());
    asked.unwrap_or(if tier == "thorough" { 120 } else { 40 })
}

struct Agg {
    runs: u64,
    ops: u64,
    callbacks: u64,
    fired: BTreeMap<String, u64>,
    notes: BTreeMap<String, u64>,
    cover: BTreeSet<u64>,
    logs: HashSet<u64>,
    foreign: BTreeMap<String, u64>,
    samples: Vec<Value>,
    slow: BTreeMap<String, u64>,
}

fn num(v: &Value) -> u64 {
    v.as_u64().unwrap_or(0)
}

impl Agg {
    fn add(&mut self, v: &Value) {
        self.runs += num(&v["runs"]);
        self.ops += num(&v["ops"]);
        self.callbacks += num(&v["callbacks"]);
        for (k, n) in v["fired"].as_object().into_iter().flatten() {
            *self.fired.entry(k.clone()).or_default() += num(n);
        }
        for (k, n) in v["notes"].as_object().into_iter().flatten() {
            let e = self.notes.entry(k.clone()).or_default();
            if k.starts_with("max_") { *e = (*e).max(num(n)) } else { *e += num(n) }
        }
        for (k, n) in v["foreign"].as_object().into_iter().flatten() {
            *self.foreign.entry(k.clone()).or_default() += num(n);
        }
        self.slow.extend(v["slow"].as_object().into_iter().flatten().map(|(k, n)| (k.clone(), num(n))));
        self.cover.extend(v["cover"].as_array().into_iter().flatten().map(num));
        self.logs.extend(v["logs"].as_array().into_iter().flatten().map(num));
        if self.samples.len() < 3 {
            self.samples.extend(v["samples"].as_array().into_iter().flatten().cloned());
        }
    }
}

struct Lane {
    child: Option<Child>,
    base: PathBuf,
    seen: (u64, Instant),
    gen_: u64,
    restarts: u32,
    /// the first run of the present worker
    from: u64,
}

fn check(a: &[String]) -> i32 {
    let prop = a[0].as_str();
    let tier = a[1].as_str();
    let seed: u64 = a[2].parse().unwrap_or(1);
    let verif = PathBuf::from(&a[3]);
    if !PROPS.contains(&prop) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let t0 = Instant::now();
    let dir = verif.join(".work").join(format!("{prop}-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let code = search(prop, tier, seed, &verif, &dir, t0);
    let _ = fs::remove_dir_all(&dir);
    code
}

fn spawn(exe: &Path, prop: &str, seed: u64, from: u64, step: u64, end: u64, secs: u64, base: &Path) -> Child {
    let _ = fs::remove_file(base.with_extension("json"));
    let _ = fs::remove_file(base.with_extension("progress"));
    Command::new(exe)
        .args(["worker", prop, &seed.to_string(), &from.to_string(), &step.to_string(), &end.to_string(), &secs.to_string()])
        .arg(base)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap()
}

fn progress_of(base: &Path) -> Option<u64> {
    let b = fs::read(base.with_extension("progress")).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

#[allow(clippy::too_many_lines)]
fn search(prop: &str, tier: &str, seed: u64, verif: &Path, dir: &Path, t0: Instant) -> i32 {
    let (runs, secs) = budget(prop, tier);
    let lanes_n: u64 = std::env::var("FCSIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let exes = programs();
    let lanes_n = lanes_n.div_ceil(exes.len() as u64) * exes.len() as u64;
    let exe_of = |r: u64| exes[(r % exes.len() as u64) as usize].as_path();
    println!("{prop}: seed {seed}, {runs} runs planned, {lanes_n} workers, at most {secs} s");
    let mut agg = Agg {
        runs: 0,
        ops: 0,
        callbacks: 0,
        fired: BTreeMap::new(),
        notes: BTreeMap::new(),
        cover: BTreeSet::new(),
        logs: HashSet::new(),
        foreign: BTreeMap::new(),
        samples: vec![],
        slow: BTreeMap::new(),
    };
    let mut suspects: Vec<(u64, String, u64)> = Vec::new();
    let mut unreproduced = Vec::new();
    let mut set_aside: BTreeMap<String, u64> = BTreeMap::new();
    let mut harness_errors = 0;
    let mut lives = 0;
    let mut report = None;
    let mut lanes: Vec<Lane> = (0..lanes_n)
        .map(|w| {
            let base = dir.join(format!("w{w}"));
            Lane { child: Some(spawn(exe_of(w), prop, seed, w, lanes_n, runs, secs, &base)), base, seen: (u64::MAX, Instant::now()), gen_: 0, restarts: 0, from: w }
        })
        .collect();
    let mut skipped: BTreeMap<String, u64> = BTreeMap::new();
    // collect
    while lanes.iter().any(|l| l.child.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        let spent = t0.elapsed().as_secs();
        for l in &mut lanes {
            let Some(c) = &mut l.child else { continue };
            let st = c.try_wait().unwrap();
            let at = progress_of(&l.base);
            let mut ended: Option<Option<u64>> = None;
            if let Some(st) = st {
                let data = fs::read_to_string(l.base.with_extension("json")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
                if let Some(v) = &data {
                    agg.add(v);
                }
                match st.code() {
                    Some(0) => ended = Some(None),
                    Some(3) => {
                        let v = data.unwrap();
                        let r = num(&v["found"]["run"]);
                        if v["found"]["foreign"].as_bool() != Some(true) {
                            suspects.push((r, v["found"]["class"].as_str().unwrap_or("").to_string(), l.from));
                        }
                        ended = Some(Some(r + lanes_n));
                    }
                    _ => {
                        // it died in the middle of a run
                        let r = at.unwrap_or(0);
                        let why = match (st.code(), st.signal()) {
                            (Some(7), _) => "hang/threads".to_string(),
                            (_, Some(s)) => format!("crash/signal{s}"),
                            (c, _) => format!("harness/exit{c:?}"),
                        };
                        if prop == "C15" && !why.starts_with("crash") {
                            *skipped.entry(why).or_default() += 1;
                        } else {
                            suspects.push((r, why, l.from));
                        }
                        ended = Some(Some(r + lanes_n));
                    }
                }
            } else if at != Some(l.seen.0) {
                l.seen = (at.unwrap_or(u64::MAX), Instant::now());
            } else if l.seen.1.elapsed().as_secs() > RUN_LIMIT {
                let _ = c.kill();
                let _ = c.wait();
                if let Some(v) = fs::read_to_string(l.base.with_extension("json")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
                    agg.add(&v);
                }
                if prop == "C15" {
                    // not terminating is acceptable there
                    *skipped.entry("did not terminate".into()).or_default() += 1;
                } else {
                    suspects.push((l.seen.0, "hang/run".into(), l.from));
                }
                ended = Some(Some(l.seen.0 + lanes_n));
            }
            if let Some(next) = ended {
                l.child = None;
                if let Some(n) = next {
                    l.restarts += 1;
                    if n < runs && spent < secs && l.restarts <= 1000 {
                        l.gen_ += 1;
                        l.from = n;
                        l.seen = (u64::MAX, Instant::now());
                        l.child = Some(spawn(exe_of(n), prop, seed, n, lanes_n, runs, secs - spent, &l.base));
                    }
                }
            }
        }
        // confirm
        suspects.sort();
        for (r, class, from) in std::mem::take(&mut suspects) {
            let exe = exe_of(r);
            let mut plans = vec![plan_from(exe, prop, seed, r)];
            let mut v = in_child(exe, &plans, dir, "confirm", RUN_LIMIT);
            if v.class.is_none() && lives < 3 && r > from && relevant(prop, &class) && class != "crash/signal9" {
                // it may take what the same process did before
                lives += 1;
                let mut n = 8;
                while v.class.is_none() {
                    n *= 8;
                    let since = from.max(r.saturating_sub(n * lanes_n));
                    let since = from + (since - from).div_ceil(lanes_n) * lanes_n;
                    let all = plans_from(exe, prop, seed, since, lanes_n, r);
                    v = in_child(exe, &all, dir, "confirm", RUN_LIMIT);
                    if v.class.is_some() {
                        plans = all[..=v.at].to_vec();
                    } else if since == from {
                        break;
                    }
                }
            }
            let Some(c) = v.class.clone() else {
                unreproduced.push(json!({"run": r, "class": class}));
                continue;
            };
            if c.starts_with("harness") {
                eprintln!("harness error in run {r}: {} {}", c, v.msg);
                harness_errors += 1;
                continue;
            }
            if !relevant(prop, &c) {
                *set_aside.entry(c).or_default() += 1;
                continue;
            }
            if needs_fault(prop) {
                let mut calm = plans.clone();
                for o in calm.iter_mut().flat_map(|p| &mut p.ops) {
                    o.fault = None;
                }
                let w = in_child(exe, &calm, dir, "calm", RUN_LIMIT);
                if w.class.is_some() {
                    // the same history fails without any fault: not a matter of interruption
                    *set_aside.entry(format!("without faults: {}", w.class.unwrap())).or_default() += 1;
                    continue;
                }
            }
            report = Some((r, plans, c, v));
            break;
        }
        if report.is_some() || harness_errors >= 20 {
            for l in &mut lanes {
                if let Some(c) = &mut l.child {
                    let _ = c.kill();
                    let _ = c.wait();
                    if let Some(v) = fs::read_to_string(l.base.with_extension("json")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
                        agg.add(&v);
                    }
                }
                l.child = None;
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut code = 0;
    if let Some((r, plans, class, v)) = report {
        violations = 1;
        code = 1;
        println!("run {r} violates {prop}: [{class}] {}", v.msg);
        if plans.len() > 1 {
            println!("it takes {} earlier runs of the same process", plans.len() - 1);
        }
        let exe = exe_of(r);
        let small = shrink(exe, &plans, &class, dir, shrink_secs(tier));
        let mut w = in_child(exe, &small, dir, "final", RUN_LIMIT);
        let mut out = small;
        if w.class.as_deref() != Some(class.as_str()) {
            out = plans.clone();
            w = v;
        }
        let path = verif.join("replays").join(format!("{prop}-s{seed}-r{r}.json"));
        write_replay(exe, &path, prop, seed, r, &out, &w);
        let again = in_child(exe, &out, dir, "again", RUN_LIMIT);
        println!(
            "minimised from {} to {} runs, {} to {} operations, {} to {} keys; replayed in a fresh process: {}",
            plans.len(),
            out.len(),
            plans.iter().map(|p| p.ops.len()).sum::<usize>(),
            out.iter().map(|p| p.ops.len()).sum::<usize>(),
            plans.iter().flat_map(|p| &p.lists).map(Vec::len).sum::<usize>(),
            out.iter().flat_map(|p| &p.lists).map(Vec::len).sum::<usize>(),
            if again.class == w.class && again.hash == w.hash { "identical" } else { "different log" }
        );
        for l in w.log.iter().rev().take(12).rev() {
            println!("  {l}");
        }
        println!("  => {}", w.msg);
        println!("VIOLATION property={prop} replay={}", path.display());
    } else if harness_errors > 0 {
        code = 2;
    }
    if !unreproduced.is_empty() {
        println!("note: {} suspicious runs did not fail again in a fresh process", unreproduced.len());
    }
    if !agg.foreign.is_empty() || !set_aside.is_empty() {
        println!("note: violations that belong to other properties: {:?} {:?}", agg.foreign, set_aside);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop, "tier": if tier == "thorough" { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.logs.len(),
            "rule": rule(prop),
            "samples": agg.samples.iter().take(3).collect::<Vec<_>>(),
            "runs_per_hour": (agg.runs as f64 / search_s * 3600.0) as u64,
            "seeds": format!("one seed per run, derived from VERIF_SEED={seed}, the property and the run number (0..{runs})"),
            "seeds_per_hour": (agg.runs as f64 / search_s * 3600.0) as u64,
            "simulated_operations": agg.ops,
            "simulated_time": format!("{} callback events between library and simulated user code (the code has no clock; simulated time is counted in these events)", agg.callbacks),
            "faults_injected": agg.fired,
            "distinct_situations": agg.cover.len(),
            "distinct_situations_measure": "distinct combinations of operation, collection type, size class, access path, key spread or overlap class, fault class and outcome reached",
            "counters": agg.notes,
            "runs_over_two_seconds_ms": agg.slow,
            "generated_collections": exes.iter().map(|e| ask(e, &["id"])).collect::<Vec<_>>(),
            "real_components": ["frozen-collections", "frozen-collections-core", "frozen-collections-macros", "hashbrown", "serde", "serde_json", "std collections"],
            "stubs": ["keys, values, query keys and hashers (simulated user code)", "foldhash with its two randomness sources replaced by seeded numbers", "global allocator (wraps the system one: ledger, red zones, quarantine, injected failures)", "sinks, sources and storage"],
            "set_aside_other_properties": agg.foreign,
            "set_aside_on_confirmation": set_aside,
            "unreproduced": unreproduced,
            "not_terminating_runs_skipped": skipped,
        },
        "assumptions": [
            "sampling: a clean batch is evidence, not proof",
            "one process is one run; at most one simulated thread runs at any instant",
        ],
        "wall_s": wall, "violations": violations,
    });
    fs::create_dir_all(verif.join("evidence")).unwrap();
    fs::write(verif.join("evidence").join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{prop}: {} runs, {} distinct, {} situations, {} operations, {violations} violations, {wall:.1} s", agg.runs, agg.logs.len(), agg.cover.len(), agg.ops);
    code
}
