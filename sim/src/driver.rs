//! Command line: search over seeds in worker processes, minimisation, replay, evidence.

use crate::plan::*;
use crate::reader::Violation;
use crate::rng::{hash, hash_str};
use crate::run::Report;
use crate::watch;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub type Runner = fn(&Plan, bool) -> Report;

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    seed: u64,
    violation: Violation,
    trace: String,
    found: Violation,
    plan: Plan,
    /// Set when the violation needs what earlier runs left in the process: the seeds to run first.
    #[serde(default)]
    before: Vec<u64>,
}

#[derive(Clone, Debug, Deserialize)]
struct Known {
    property: String,
    class: String,
    op: String,
    /// Part of the detail.
    contains: String,
    what: String,
}

fn home() -> PathBuf {
    std::env::var("HSIM_HOME")
        .map(PathBuf::from)
        .unwrap_or_else(|_| std::env::current_dir().unwrap())
}

fn known(property: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(home().join("known-findings.json")) else {
        return vec![];
    };
    let v: Value = serde_json::from_str(&s).expect("known-findings.json");
    v["known"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|k| serde_json::from_value::<Known>(k.clone()).expect("known finding"))
        .filter(|k| k.property == property)
        .collect()
}

fn matches(k: &Known, v: &Violation) -> bool {
    k.class == v.class && (k.op == "*" || k.op == v.op) && v.detail.contains(&k.contains)
}

/// Same environment for every process that executes plans.
fn prepare(run: Runner) {
    std::env::set_var("HUDI_CONF_DIR", "/etc/hudi/conf");
    for (k, _) in std::env::vars() {
        if ["AWS_", "AZURE_", "GOOGLE_"]
            .iter()
            .any(|p| k.starts_with(p))
        {
            std::env::remove_var(k);
        }
    }
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: 4 << 30,
            rlim_max: 4 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let none = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
    }
    crate::reader::install_panic_hook();
    // process-wide lazy state (hash seeds, tables) starts the same everywhere
    for (p, s) in [("P13", 0), ("P01", 3), ("P01", 9), ("P10", 4), ("P18", 5)] {
        let _ = run(&crate::gen::plan(p, s), false);
    }
}

fn nontrivial(r: &Report) -> bool {
    let n = |k: &str| r.stats.get(k).copied().unwrap_or(0);
    n("ok") + n("err") > n("op open") || n("op python") > 0
}

pub fn main(run: Runner) {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let code = match arg(1).as_str() {
        "check" => check(&arg(2)),
        "worker" => worker(run, &arg(2), num(3), num(4), num(5), num(6)),
        "try" => attempt(run, &arg(2)),
        "tryseq" => attempt_seq(run, &arg(2), num(3), num(4), num(5)),
        "replay" => replay(run, &arg(2)),
        "seed" => {
            prepare(run);
            let p = crate::gen::plan(&arg(2), num(3));
            let r = run(&p, true);
            if a.len() > 4 {
                println!("{}", serde_json::to_string_pretty(&p).unwrap());
            }
            for l in &r.log {
                println!("{l}");
            }
            println!(
                "{:?}",
                (
                    &r.violation,
                    r.trace,
                    r.steps,
                    r.sim_us,
                    &r.stats,
                    &r.faults,
                    &r.probes
                )
            );
            0
        }
        "det" => {
            // two executions of each seed must agree
            prepare(run);
            let mut bad = 0;
            for s in num(3)..num(3) + num(4) {
                let p = crate::gen::plan(&arg(2), s);
                let (x, y) = (run(&p, false), run(&p, false));
                if x.trace != y.trace || x.steps != y.steps {
                    println!("seed {s} diverges");
                    bad += 1;
                }
            }
            println!("{} seeds executed twice, {bad} diverged", num(4));
            (bad > 0) as i32
        }
        "scan" => {
            // every violation signature in a seed range, for development
            let mut seen: BTreeMap<(String, String, String), (u64, u64)> = BTreeMap::new();
            prepare(run);
            let stop = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
            let st = stop.clone();
            watch::start(move |m| {
                println!(
                    "HANG at seed {}: {m}",
                    st.load(std::sync::atomic::Ordering::Relaxed)
                )
            });
            let ks = known(&arg(2));
            for s in num(3)..num(3) + num(4) {
                stop.store(s, std::sync::atomic::Ordering::Relaxed);
                let r = run(&crate::gen::plan(&arg(2), s), false);
                if let Some(v) = r.violation {
                    if ks.iter().any(|k| matches(k, &v)) {
                        continue;
                    }
                    let det = v.detail.as_str();
                    let det = match (
                        det.find("filters=["),
                        det.find("]: "),
                        det.find("=false: "),
                        det.find("=true: "),
                    ) {
                        (Some(0..8) | Some(_), _, Some(i), _)
                        | (Some(_), _, _, Some(i))
                        | (Some(_), Some(i), None, None) => &det[i + 3..],
                        _ if det.starts_with('(') => det.split_once("]: ").map_or(det, |x| x.1),
                        _ => det,
                    };
                    let d: String = det
                        .split(|c: char| c.is_ascii_digit())
                        .collect::<Vec<_>>()
                        .join("#")
                        .chars()
                        .take(110)
                        .collect();
                    let e = seen.entry((v.class, v.op, d)).or_insert((0, s));
                    e.0 += 1;
                }
            }
            for ((c, o, d), (n, s)) in seen {
                println!("{n:>5} {c} {o} :: {d} (seed {s})");
            }
            0
        }
        _ => {
            eprintln!("usage: check P | worker … | try FILE | replay FILE | seed P N | det P FROM N | scan P FROM N");
            2
        }
    };
    std::process::exit(code);
}

// ------------------------------------------------------------------ worker

fn worker(run: Runner, property: &str, first: u64, stride: u64, count: u64, secs: u64) -> i32 {
    prepare(run);
    watch::start(|m| println!("H {m}"));
    let out = std::io::stdout();
    let t0 = Instant::now();
    let mut sum: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let ks = known(property);
    let mut hits: BTreeSet<usize> = BTreeSet::new();
    let (mut n, mut steps, mut sim, mut reqs) = (0u64, 0u64, 0u64, 0u64);
    let mut hashes = Vec::new();
    for i in 0..count {
        if t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
        let seed = first + i * stride;
        {
            let mut o = out.lock();
            writeln!(o, "S {seed}").unwrap();
            o.flush().unwrap();
        }
        let plan = crate::gen::plan(property, seed);
        let r = run(&plan, false);
        n += 1;
        steps += r.steps;
        sim += r.sim_us;
        reqs += r.requests;
        if nontrivial(&r) {
            hashes.push(r.trace);
        }
        for (name, m) in [
            ("faults", &r.faults),
            ("probes", &r.probes),
            ("stats", &r.stats),
        ] {
            for (k, x) in m {
                *sum.entry(name.into())
                    .or_default()
                    .entry(k.clone())
                    .or_insert(0) += x;
            }
        }
        if let Some(v) = r.violation {
            if let Some(k) = ks.iter().position(|k| matches(k, &v)) {
                hits.insert(k);
                continue;
            }
            println!("V {}", json!({"seed": seed, "violation": v}));
            break;
        }
    }
    for h in hashes.chunks(1000) {
        println!(
            "T {}",
            h.iter()
                .map(|x| format!("{x:x}"))
                .collect::<Vec<_>>()
                .join(" ")
        );
    }
    for k in hits {
        println!("K {k}");
    }
    println!(
        "E {}",
        json!({"runs": n, "steps": steps, "sim_us": sim, "requests": reqs, "sum": sum})
    );
    0
}

// ------------------------------------------------------------------ one plan in its own process

fn attempt(run: Runner, file: &str) -> i32 {
    let plan: Plan =
        serde_json::from_str(&std::fs::read_to_string(file).expect("plan file")).expect("plan");
    prepare(run);
    watch::start(|m| println!("H {m}"));
    let r = run(&plan, false);
    match r.violation {
        Some(v) => {
            println!(
                "V {}",
                json!({"violation": v, "trace": format!("{:016x}", r.trace)})
            );
            10
        }
        None => 0,
    }
}

/// The seeds `first, first + stride, …`, `count` of them, in one process; a violation counts in the last one.
fn attempt_seq(run: Runner, property: &str, first: u64, stride: u64, count: u64) -> i32 {
    prepare(run);
    watch::start(|m| println!("H {m}"));
    for i in 0..count {
        let r = run(&crate::gen::plan(property, first + i * stride), false);
        if let (Some(v), true) = (r.violation, i + 1 == count) {
            println!(
                "V {}",
                json!({"violation": v, "trace": format!("{:016x}", r.trace)})
            );
            return 10;
        }
    }
    0
}

/// Execute a plan in a child process.
fn child(plan: &Plan, dir: &std::path::Path) -> Option<(Violation, String)> {
    let f = dir.join(format!("try-{}.json", std::process::id()));
    std::fs::write(&f, serde_json::to_string(plan).unwrap()).ok()?;
    let x = child_of(&["try".to_string(), f.display().to_string()]);
    let _ = std::fs::remove_file(&f);
    x
}

fn child_of(args: &[String]) -> Option<(Violation, String)> {
    let o = Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdin(Stdio::null())
        .output()
        .ok()?;
    let so = String::from_utf8_lossy(&o.stdout).to_string();
    match o.status.code() {
        Some(0) => None,
        Some(10) => {
            let line = so.lines().find(|l| l.starts_with("V "))?;
            let x: Value = serde_json::from_str(&line[2..]).ok()?;
            Some((
                serde_json::from_value(x["violation"].clone()).ok()?,
                x["trace"].as_str().unwrap_or("").to_string(),
            ))
        }
        Some(watch::HUNG) => Some((
            hang(so.lines().find_map(|l| l.strip_prefix("H ")).unwrap_or("")),
            String::new(),
        )),
        _ => {
            let se = String::from_utf8_lossy(&o.stderr).to_string();
            Some((abort(&se), String::new()))
        }
    }
}

fn hang(m: &str) -> Violation {
    Violation {
        class: "hang".into(),
        op: "process".into(),
        detail: m.to_string(),
    }
}
fn abort(m: &str) -> Violation {
    Violation {
        class: "abort".into(),
        op: "process".into(),
        detail: format!(
            "the process died: {}",
            m.lines()
                .next()
                .unwrap_or("")
                .chars()
                .take(200)
                .collect::<String>()
        ),
    }
}

// ------------------------------------------------------------------ minimisation

fn drop_op(p: &Plan, k: usize, i: usize) -> Plan {
    let mut q = p.clone();
    q.readers[k].ops.remove(i);
    let actor = 100 + k as u32;
    q.faults
        .retain(|f| f.actor != actor || f.op % 500 != i as u32);
    for f in q
        .faults
        .iter_mut()
        .filter(|f| f.actor == actor && f.op % 500 > i as u32)
    {
        f.op -= 1;
    }
    q
}

fn smaller(p: &Plan) -> Vec<Plan> {
    let mut out = Vec::new();
    let mut push = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        out.push(q);
    };
    if p.readers.len() > 1 {
        for k in (0..p.readers.len()).rev() {
            push(&|q| {
                q.readers.remove(k);
                q.faults.retain(|f| f.actor != 100 + k as u32);
                for f in q
                    .faults
                    .iter_mut()
                    .filter(|f| f.actor > 100 + k as u32 && f.actor < 200)
                {
                    f.actor -= 1;
                }
            });
        }
    }
    if p.writers.len() > 1 {
        for k in (0..p.writers.len()).rev() {
            push(&|q| {
                q.writers.remove(k);
            });
        }
    }
    for k in 0..p.writers.len() {
        let n = p.writers[k].ops.len();
        if n > 3 {
            push(&|q| q.writers[k].ops.truncate(n / 2));
        }
        for i in (0..n).rev() {
            push(&|q| {
                q.writers[k].ops.remove(i);
            });
        }
    }
    for k in 0..p.readers.len() {
        for i in (0..p.readers[k].ops.len()).rev() {
            let q = drop_op(p, k, i);
            push(&|x| *x = q.clone());
        }
    }
    for i in (0..p.damage.len()).rev() {
        push(&|q| {
            q.damage.remove(i);
        });
    }
    for i in (0..p.faults.len()).rev() {
        push(&|q| {
            q.faults.remove(i);
        });
    }
    for k in 0..p.readers.len() {
        for i in 0..p.readers[k].ops.len() {
            match &p.readers[k].ops[i] {
                ROp::Py { threads, opts, .. } => {
                    for j in (0..opts.len()).rev() {
                        push(&|q| {
                            if let ROp::Py { opts, .. } = &mut q.readers[k].ops[i] {
                                opts.remove(j);
                            }
                        });
                    }
                    for t in (0..threads.len()).rev() {
                        push(&|q| {
                            if let ROp::Py { threads, .. } = &mut q.readers[k].ops[i] {
                                threads.remove(t);
                            }
                        });
                        for j in (0..threads[t].len()).rev() {
                            push(&|q| {
                                if let ROp::Py { threads, .. } = &mut q.readers[k].ops[i] {
                                    threads[t].remove(j);
                                }
                            });
                        }
                    }
                }
                ROp::Conc { ops, .. } if ops.len() > 1 => {
                    for j in (0..ops.len()).rev() {
                        push(&|q| {
                            if let ROp::Conc { ops, .. } = &mut q.readers[k].ops[i] {
                                ops.remove(j);
                            }
                        });
                    }
                }
                ROp::Conc { ops, .. } => {
                    let o = ops[0].clone();
                    push(&|q| q.readers[k].ops[i] = o.clone());
                }
                ROp::Snapshot { filters }
                | ROp::AsOf { filters, .. }
                | ROp::Slices { filters, .. }
                    if !filters.is_empty() =>
                {
                    for j in (0..filters.len()).rev() {
                        push(&|q| {
                            if let ROp::Snapshot { filters }
                            | ROp::AsOf { filters, .. }
                            | ROp::Slices { filters, .. } = &mut q.readers[k].ops[i]
                            {
                                filters.remove(j);
                            }
                        });
                    }
                }
                _ => {}
            }
        }
        if p.readers[k].start.is_some() {
            push(&|q| q.readers[k].start = None);
        }
    }
    for k in 0..p.writers.len() {
        for i in 0..p.writers[k].ops.len() {
            if p.writers[k].ops[i].crash.is_some() {
                push(&|q| q.writers[k].ops[i].crash = None);
            }
            if p.writers[k].ops[i].delay > 0 {
                push(&|q| q.writers[k].ops[i].delay = 0);
            }
        }
    }
    if p.lat.request > 0 || p.lat.chunk > 0 || p.lat.chunk_size < 1 << 20 || p.lat.tail > 0 {
        push(&|q| {
            q.lat.request = 0;
            q.lat.chunk = 0;
            q.lat.chunk_size = 1 << 20;
            q.lat.tail = 0;
        });
    }
    if p.eager > 0 {
        push(&|q| q.eager = 0);
    }
    if p.spurious > 0 {
        push(&|q| q.spurious = 0);
    }
    if p.global_conf.is_some() {
        push(&|q| q.global_conf = None);
    }
    let used = |n: &str| {
        p.spec.parts.iter().any(|x| x == n) || p.spec.ord.as_deref() == Some(n) || n == "id"
    };
    for i in (0..p.spec.cols.len()).rev() {
        if !used(&p.spec.cols[i].name) {
            push(&|q| {
                q.spec.cols.remove(i);
            });
        }
    }
    out
}

fn minimise(plan: Plan, v: &Violation, secs: u64, dir: &std::path::Path) -> (Plan, u64) {
    let t0 = Instant::now();
    let mut best = plan;
    let mut tries = 0;
    let same = |x: &Violation| {
        x.class == v.class
            && (x.op == v.op || v.class == "hang" || v.class == "abort")
            && (v.class != "panic"
                || x.detail.rsplit(" at ").next() == v.detail.rsplit(" at ").next())
    };
    'outer: loop {
        for q in smaller(&best) {
            if t0.elapsed() > Duration::from_secs(secs) {
                break 'outer;
            }
            tries += 1;
            if child(&q, dir).is_some_and(|(x, _)| same(&x)) {
                best = q;
                continue 'outer;
            }
        }
        break;
    }
    (best, tries)
}

// ------------------------------------------------------------------ replay

fn replay(run: Runner, file: &str) -> i32 {
    let r: Replay =
        serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay");
    if r.violation.class == "hang" || r.violation.class == "abort" {
        println!("expecting {}: {}", r.violation.class, r.violation.detail);
    }
    prepare(run);
    watch::start(|m| println!("hang reproduced: {m}"));
    for s in &r.before {
        let _ = run(&crate::gen::plan(&r.property, *s), false);
    }
    let x = run(&r.plan, true);
    for l in &x.log {
        println!("{l}");
    }
    match x.violation {
        Some(v)
            if v == r.violation
                && (r.trace.is_empty() || format!("{:016x}", x.trace) == r.trace) =>
        {
            println!("reproduced exactly: {v:?}");
            1
        }
        Some(v) => {
            println!("another violation: {v:?} (recorded {:?})", r.violation);
            1
        }
        None => {
            println!("no violation now; recorded: {:?}", r.violation);
            0
        }
    }
}

// ------------------------------------------------------------------ check

struct Found {
    seed: u64,
    v: Violation,
    before: Vec<u64>,
    alone: bool,
}

/// What a worker reports has to come back in a process of its own: the run alone, or after some of
/// the runs before it.
fn confirm(
    property: &str,
    seed: u64,
    began: u64,
    stride: u64,
    v: Violation,
    dir: &std::path::Path,
) -> Option<Found> {
    if let Some((v, _)) = child(&crate::gen::plan(property, seed), dir) {
        return Some(Found {
            seed,
            v,
            before: vec![],
            alone: true,
        });
    }
    let all = (seed - began) / stride;
    let mut k = 1;
    while all > 0 {
        let n = k.min(all);
        let first = seed - n * stride;
        let a = [
            "tryseq".into(),
            property.to_string(),
            first.to_string(),
            stride.to_string(),
            (n + 1).to_string(),
        ];
        match child_of(&a) {
            // a process that dies before the last run says nothing about the last
            Some((x, _)) if x.class == v.class => {
                let before = (0..n).map(|i| first + i * stride).collect();
                return Some(Found {
                    seed,
                    v: x,
                    before,
                    alone: false,
                });
            }
            _ => {}
        }
        if n == all {
            break;
        }
        k *= 4;
    }
    None
}

/// Runs of the quick tier.
fn quick_runs(p: &str) -> u64 {
    match p {
        "P11" => 4_000,
        _ => 12_000,
    }
}

fn check(property: &str) -> i32 {
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let n_workers = env("HSIM_WORKERS")
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()) as u64);
    let runs = env("HSIM_RUNS").unwrap_or(if thorough {
        u64::MAX / 4
    } else {
        quick_runs(property)
    });
    let secs = env("HSIM_SECS").unwrap_or(if thorough { 1500 } else { 240 });
    let origin = hash(&[base, hash_str(property), 77]) >> 24;
    let share = runs.div_ceil(n_workers);
    let (tx, rx) = mpsc::channel::<(u64, String)>();
    let spawn = |w: u64, first: u64, count: u64| {
        let left = secs.saturating_sub(t0.elapsed().as_secs());
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args([
                "worker",
                property,
                &first.to_string(),
                &n_workers.to_string(),
                &count.to_string(),
                &left.to_string(),
            ])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("worker");
        let so = c.stdout.take().unwrap();
        let se = c.stderr.take().unwrap();
        let tx2 = tx.clone();
        std::thread::spawn(move || {
            // the first line of stderr, in case the process dies
            let e = std::thread::spawn(move || {
                let mut first = String::new();
                for l in BufReader::new(se).lines().map_while(Result::ok) {
                    if first.is_empty() {
                        first = l;
                    }
                }
                first
            });
            for l in BufReader::new(so).lines().map_while(Result::ok) {
                let _ = tx2.send((w, l));
            }
            let _ = tx2.send((w, format!("Z {}", e.join().unwrap_or_default())));
        });
        c
    };
    let mut kids: Vec<_> = (0..n_workers)
        .map(|w| spawn(w, origin + w, share))
        .collect();
    // where the process of each worker began
    let mut began: Vec<u64> = (0..n_workers).map(|w| origin + w).collect();
    let mut last: Vec<u64> = began.clone();
    let mut ended: BTreeSet<u64> = BTreeSet::new();
    let mut hung: BTreeMap<u64, String> = BTreeMap::new();
    let mut said: BTreeMap<u64, Violation> = BTreeMap::new();
    let mut sum: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let mut tot: BTreeMap<&str, u64> = BTreeMap::new();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut khits: BTreeSet<usize> = BTreeSet::new();
    let mut found: Option<Found> = None;
    let mut unconfirmed: Vec<String> = Vec::new();
    let mut started = 0u64;
    let mut live = n_workers;
    let ks = known(property);
    let dir = home().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    while live > 0 {
        let Ok((w, l)) = rx.recv() else { break };
        let (t, rest) = l.split_at(1);
        let rest = rest.trim_start();
        match t {
            "S" => {
                started += 1;
                last[w as usize] = rest.parse().unwrap_or(0);
            }
            "H" => {
                hung.insert(w, rest.to_string());
            }
            "K" => {
                khits.extend(rest.parse::<usize>());
            }
            "T" => distinct.extend(
                rest.split(' ')
                    .filter_map(|x| u64::from_str_radix(x, 16).ok()),
            ),
            "V" => {
                let x: Value = serde_json::from_str(rest).unwrap_or(Value::Null);
                if let Ok(v) = serde_json::from_value(x["violation"].clone()) {
                    said.insert(w, v);
                }
            }
            "E" => {
                ended.insert(w);
                let x: Value = serde_json::from_str(rest).unwrap_or(Value::Null);
                for k in ["runs", "steps", "sim_us", "requests"] {
                    *tot.entry(k).or_insert(0) += x[k].as_u64().unwrap_or(0);
                }
                if let Ok(m) = serde_json::from_value::<BTreeMap<String, BTreeMap<String, u64>>>(
                    x["sum"].clone(),
                ) {
                    for (n, m) in m {
                        for (k, v) in m {
                            *sum.entry(n.clone()).or_default().entry(k).or_insert(0) += v;
                        }
                    }
                }
            }
            "Z" => {
                live -= 1;
                let i = w as usize;
                let _ = kids[i].wait();
                let done = ended.remove(&w);
                let v = match (said.remove(&w), hung.remove(&w)) {
                    (Some(v), _) => v,
                    _ if done => continue,
                    (_, Some(m)) => hang(&m),
                    _ => abort(rest),
                };
                if found.is_some() {
                    continue;
                }
                let seed = last[i];
                if let Some(k) = ks.iter().position(|k| matches(k, &v)) {
                    khits.insert(k);
                } else if let Some(f) =
                    confirm(property, seed, began[i], n_workers, v.clone(), &dir)
                {
                    found = Some(f);
                    for c in kids.iter_mut() {
                        let _ = c.kill();
                    }
                    continue;
                } else {
                    unconfirmed.push(format!(
                        "{} in {} at seed {seed}: {}",
                        v.class, v.op, v.detail
                    ));
                    if unconfirmed.len() > 20 {
                        continue;
                    }
                }
                // on with the next seed
                let next = seed + n_workers;
                let rest = share.saturating_sub((next - origin) / n_workers);
                if rest > 0 && t0.elapsed().as_secs() < secs {
                    began[i] = next;
                    kids[i] = spawn(w, next, rest);
                    live += 1;
                }
            }
            _ => {}
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    for k in khits {
        println!("KNOWN-FINDING: property={property} {}", ks[k].what);
    }
    for u in &unconfirmed {
        println!("not reproduced, so not reported (an overloaded machine?): {u}");
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some(Found {
        seed,
        v,
        before,
        alone,
    }) = found
    {
        violations = 1;
        code = 1;
        let plan = crate::gen::plan(property, seed);
        let (small, tries) = if alone {
            minimise(plan.clone(), &v, 45, &dir)
        } else {
            (plan.clone(), 0)
        };
        let last = if alone { child(&small, &dir) } else { None };
        let (fv, trace) = last.unwrap_or((v.clone(), String::new()));
        let path = dir.join(format!("{property}-{seed}.json"));
        let r = Replay {
            property: property.into(),
            seed,
            violation: fv.clone(),
            trace,
            found: v,
            plan: small,
            before,
        };
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("replay file");
        println!(
            "violation of {property} at seed {seed}: {} in {}: {}",
            fv.class, fv.op, fv.detail
        );
        println!(
            "minimised from {} to {} steps in {tries} attempts; replay with: sh /verif/check.sh replay {}",
            plan.weight(),
            r.plan.weight(),
            path.display()
        );
        println!("VIOLATION property={property} replay={}", path.display());
    }
    evidence(
        property, base, thorough, t0, search_s, started, &tot, &sum, &distinct, violations, origin,
    );
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    property: &str,
    base: u64,
    thorough: bool,
    t0: Instant,
    search_s: f64,
    started: u64,
    tot: &BTreeMap<&str, u64>,
    sum: &BTreeMap<String, BTreeMap<String, u64>>,
    distinct: &BTreeSet<u64>,
    violations: u64,
    origin: u64,
) {
    let g = |k: &str| tot.get(k).copied().unwrap_or(0);
    let samples: Vec<Value> = (0..2)
        .map(|i| {
            let p = crate::gen::plan(property, origin + i);
            json!({
                "seed": p.seed,
                "table": {"mor": p.spec.mor, "parts": p.spec.parts, "cols": p.spec.cols.len(), "log_fmt": p.spec.log_fmt, "tz": p.spec.tz},
                "writers": p.writers.iter().map(|w| w.ops.iter().map(|o| match o.crash {
                    Some(c) => format!("{:?} crash@{c}", o.kind),
                    None => format!("{:?}", o.kind),
                }).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "readers": p.readers.iter().map(|r| r.ops.iter().map(|o| format!("{o:?}").chars().take(160).collect::<String>()).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "faults": p.faults.iter().map(|f| format!("{f:?}")).collect::<Vec<_>>(),
                "damage": p.damage.iter().map(|d| format!("{:?} {:?}", d.harm, d.target)).collect::<Vec<_>>(),
            })
        })
        .collect();
    let per_hour = |n: u64| (n as f64 * 3600.0 / search_s.max(0.001)) as u64;
    let e = json!({
        "property": property,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": g("runs").max(started),
            "distinct_nontrivial": distinct.len(),
            "rule": "one evaluation is one simulated run of a plan generated from (property, seed); non-trivial when at least one query besides opening reached the real code and was judged; distinct by the hash of the whole event trace (scheduling choices, storage requests with their times and faults, results, final bytes)",
            "samples": samples,
            "seeds": {"first": origin, "count": started},
            "runs_per_hour": per_hour(started),
            "seeds_per_hour": per_hour(started),
            "simulated_seconds": g("sim_us") as f64 / 1e6,
            "scheduling_steps": g("steps"),
            "storage_requests": g("requests"),
            "faults_injected": sum.get("faults"),
            "probes": sum.get("probes"),
            "operations": sum.get("stats"),
            "distinct_interleavings": distinct.len(),
            "components": {
                "real": match property {
                    "P11" => "hudi-core and hudi-datafusion with DataFusion's planner and execution, as compiled from /repo",
                    "P20" => "the Python package (python/hudi, python/src) with CPython, pyarrow and pyo3, and hudi-core, as in /repo",
                    _ => "hudi-core as compiled from /repo, with parquet, arrow, avro and object_store's client-side traits",
                },
                "simulated": "object store, clock and timers, task scheduler, OS entropy, time zone",
                "stub": "table writers (protocol model emitting real parquet, log blocks and timeline files), host application"
            }
        },
        "assumptions": [
            "the object store gives atomic puts and strongly consistent reads, lists and deletes",
            "writers follow Hudi 0.15 table version 5/6 conventions as modelled in sim/src/writer.rs"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations
    });
    let d = home().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(
        d.join(format!("{property}.json")),
        serde_json::to_string_pretty(&e).unwrap(),
    )
    .expect("evidence");
    println!(
        "{property}: {} runs, {} distinct non-trivial, {:.0} simulated s, {} storage requests, {:.1} s wall, {} violation(s)",
        started,
        distinct.len(),
        g("sim_us") as f64 / 1e6,
        g("requests"),
        t0.elapsed().as_secs_f64(),
        violations
    );
}
