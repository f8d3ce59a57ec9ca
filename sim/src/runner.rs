//! Batches: a fixed number of runs, each a function of (seed, property, index) alone, spread
//! over worker processes that are watched from outside.
use crate::alloc;
use crate::corpus::{Corpus, MAX_COST, MAX_LOG};
use crate::cov;
use crate::elf;
use crate::engine::{Cx, Viol};
use crate::props;
use crate::shrink;
use crate::src::{mix, Dict, Src};
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};

/// A run that takes this much processor time hangs: runs take milliseconds. Processor time, so
/// that a busy machine does not look like a hang.
const HANG: Duration = Duration::from_secs(60);
/// So does one that does nothing at all for this long (a deadlock).
const STILL: Duration = Duration::from_secs(240);

/// Processor time a process of ours has taken.
fn cpu(pid: u32) -> Duration {
    let t = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let ticks = |i: usize| -> u64 {
        t.rsplit(')').next().and_then(|t| t.split_whitespace().nth(i)).and_then(|x| x.parse().ok()).unwrap_or(0)
    };
    // Fields 14 and 15 of proc(5), in ticks of 10 ms; the state after the name is field 3.
    Duration::from_millis(10 * (ticks(11) + ticks(12)))
}

fn hangs(last: Instant, spent: Duration) -> bool {
    spent > HANG || last.elapsed() > STILL
}
pub const CAP: usize = 6 << 30;

pub fn seed_of(prop: &str, seed: u64, idx: u64) -> u64 {
    let p = prop.bytes().fold(7u64, |a, b| mix(a ^ u64::from(b)));
    mix(seed ^ mix(p ^ mix(idx)))
}

/// One run of a batch. The outer error is a fault of the simulator.
pub fn one(prop: &str, s: Src, special: u64, tracing: bool) -> (Cx, Result<Result<(), Viol>, String>) {
    let mut cx = Cx::new(s, tracing);
    cov::begin();
    let r = catch_unwind(AssertUnwindSafe(|| props::simulate(prop, &mut cx, special))).map_err(|e| {
        e.downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into())
    });
    (cx, r)
}

fn flat(s: &str) -> String {
    s.replace(['\n', '\t', '\r'], " ")
}

pub fn worker(prop: &str, seed: u64, from: u64, to: u64, corpus: &str) -> i32 {
    alloc::enable(true, Some(CAP));
    let mut corpus = Corpus::load(corpus);
    cov::collect();
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut n: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    for idx in from..to {
        writeln!(out, "s\t{idx}").unwrap();
        out.flush().unwrap();
        let special = props::special(prop, idx);
        let (cx, r) = one(prop, corpus.source(prop, seed, idx, special), special, false);
        let new: Vec<String> =
            cov::features().into_iter().filter(|f| corpus.known.insert(*f)).map(|f| f.to_string()).collect();
        if !new.is_empty() {
            let keep = special == 0 && cx.s.log.len() <= MAX_LOG && cx.cost <= MAX_COST;
            let log: Vec<String> = cx.s.log.iter().filter(|_| keep).map(u64::to_string).collect();
            writeln!(out, "f\t{idx}\t{}\t{}", new.join(" "), log.join(" ")).unwrap();
        }
        for (k, v) in &cx.st.n {
            *n.entry(k).or_insert(0) += v;
        }
        if seen.len() < 20_000 {
            seen.extend(&cx.st.seen);
        }
        match r {
            Err(e) => {
                writeln!(out, "p\t{idx}\t{}", flat(&e)).unwrap();
                return 0;
            }
            Ok(Err(v)) => {
                writeln!(out, "v\t{idx}\t{}\t{}", flat(&v.class), flat(&v.msg)).unwrap();
                let c: Vec<String> = cx.s.log.iter().map(u64::to_string).collect();
                writeln!(out, "c\t{}", c.join(" ")).unwrap();
                return 0;
            }
            Ok(Ok(())) => {
                writeln!(out, "h\t{idx}\t{:016x}\t{}", cx.hash, u8::from(cx.nontrivial)).unwrap();
            }
        }
    }
    for (k, v) in n {
        writeln!(out, "n\t{k}\t{v}").unwrap();
    }
    for h in seen {
        writeln!(out, "x\t{h:x}").unwrap();
    }
    let k: Vec<String> = cov::constants().iter().map(u64::to_string).collect();
    writeln!(out, "k\t{}", k.join(" ")).unwrap();
    for t in cov::texts() {
        let t: Vec<String> = t.iter().map(u8::to_string).collect();
        writeln!(out, "t\t{}", t.join(" ")).unwrap();
    }
    writeln!(out, "e").unwrap();
    0
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub idx: u64,
    pub from: u64,
    pub v: Viol,
    pub choices: Vec<u64>,
    /// Ended the process (abort, hang) rather than a call.
    pub fatal: bool,
    /// What the run was drawn with.
    pub corpus: Arc<Corpus>,
}

#[derive(Default)]
struct Batch {
    done: u64,
    hashes: BTreeMap<u64, (u64, bool)>,
    n: BTreeMap<String, u64>,
    seen: HashSet<u64>,
    fail: Option<Failure>,
    broken: Option<String>,
    cut_short: bool,
    corpus: Corpus,
}

enum Msg {
    Line(usize, String),
    End(usize),
}

struct Live {
    child: std::process::Child,
    from: u64,
    to: u64,
    at: u64,
    last: Instant,
    /// Processor time when the present run was first seen to take long.
    cpu: Option<Duration>,
    over: bool,
    pending: Option<(u64, String, String)>,
    finished: bool,
}

/// The batch in rounds: what a round has found is what the next one builds on.
fn batch(prop: &str, seed: u64, total: u64, workers: usize, most: u64, budget: Duration) -> Batch {
    let t0 = Instant::now();
    let mut b = Batch::default();
    let mut at = 0;
    let path = format!("{}/work/{prop}-{}.corpus", root(), std::process::id());
    fs::create_dir_all(format!("{}/work", root())).unwrap();
    for percent in [1, 3, 7, 15, 25, 40, 55, 70, 85, 100] {
        let to = (total * percent).div_ceil(100).max(at);
        let base = Arc::new(b.corpus.clone());
        base.save(&path);
        let found = round(prop, seed, (at, to), workers, most, (t0, budget), &mut b, (&base, &path));
        for (f, log) in found.into_values() {
            b.corpus.learn(&f, log);
        }
        at = to;
        if b.fail.is_some() || b.broken.is_some() || b.cut_short {
            break;
        }
    }
    let _ = fs::remove_file(&path);
    b
}

type Found = BTreeMap<u64, (Vec<u32>, Option<Vec<u64>>)>;

#[allow(clippy::too_many_arguments)]
fn round(
    prop: &str,
    seed: u64,
    (lo, hi): (u64, u64),
    workers: usize,
    most: u64,
    (t0, budget): (Instant, Duration),
    b: &mut Batch,
    (base, path): (&Arc<Corpus>, &str),
) -> Found {
    let mut found = Found::new();
    let mut dict: BTreeSet<u64> = b.corpus.dict.numbers.iter().copied().collect();
    let mut texts: BTreeSet<Vec<u8>> = b.corpus.dict.texts.iter().cloned().collect();
    let chunk = ((hi - lo) / (workers as u64 * 5)).clamp(most.min(40), most);
    let mut todo: VecDeque<(u64, u64)> = (lo..hi).step_by(chunk as usize).map(|f| (f, (f + chunk).min(hi))).collect();
    let (tx, rx) = mpsc::channel::<Msg>();
    let mut live: BTreeMap<usize, Live> = BTreeMap::new();
    let mut next = 0;
    loop {
        while live.len() < workers && b.broken.is_none() {
            if b.fail.as_ref().is_some_and(|f| todo.front().is_some_and(|t| t.0 > f.idx)) {
                todo.clear();
            }
            if t0.elapsed() > budget && !todo.is_empty() {
                todo.clear();
                b.cut_short = true;
            }
            let Some((from, to)) = todo.pop_front() else { break };
            let mut child = Command::new(std::env::current_exe().unwrap())
                .args(["worker", prop, &seed.to_string(), &from.to_string(), &to.to_string(), path])
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn worker");
            let o = child.stdout.take().unwrap();
            let id = next;
            next += 1;
            let tx = tx.clone();
            std::thread::spawn(move || {
                for l in BufReader::new(o).lines() {
                    match l {
                        Ok(l) => {
                            if tx.send(Msg::Line(id, l)).is_err() {
                                return;
                            }
                        }
                        Err(_) => break,
                    }
                }
                let _ = tx.send(Msg::End(id));
            });
            live.insert(
                id,
                Live { child, from, to, at: from, last: Instant::now(), cpu: None, over: false, pending: None, finished: false },
            );
        }
        if live.is_empty() {
            b.corpus.dict =
                Arc::new(Dict { numbers: dict.into_iter().collect(), texts: texts.into_iter().collect() });
            return found;
        }
        let fail = |b: &mut Batch, f: Failure| {
            if b.fail.as_ref().map_or(true, |g| f.idx < g.idx) {
                b.fail = Some(f);
            }
        };
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(id, l)) => {
                let Some(w) = live.get_mut(&id) else { continue };
                w.last = Instant::now();
                w.cpu = None;
                // A process that dies may leave half a line: what does not parse is not there.
                let f: Vec<&str> = l.split('\t').collect();
                let get = |i: usize| f.get(i).copied();
                let int = |i: usize| get(i)?.parse::<u64>().ok();
                let list = |i: usize| get(i)?.split_whitespace().map(|x| x.parse::<u64>().ok()).collect::<Option<Vec<u64>>>();
                let mut take = || -> Option<()> {
                    match get(0)? {
                        "f" => {
                            let v = list(2)?.into_iter().map(|x| x as u32).collect();
                            let l = list(3)?;
                            found.insert(int(1)?, (v, (!l.is_empty()).then_some(l)));
                        }
                        "k" => dict.extend(list(1)?),
                        "t" => {
                            texts.insert(list(1)?.into_iter().map(|x| x as u8).collect());
                        }
                        "s" => w.at = int(1)?,
                        "h" => {
                            let h = u64::from_str_radix(get(2)?, 16).ok()?;
                            b.hashes.insert(int(1)?, (h, get(3)? == "1"));
                            b.done += 1;
                        }
                        "n" => *b.n.entry(get(1)?.into()).or_insert(0) += int(2)?,
                        "x" => {
                            if b.seen.len() < 2_000_000 {
                                b.seen.insert(u64::from_str_radix(get(1)?, 16).ok()?);
                            }
                        }
                        "v" => w.pending = Some((int(1)?, get(2)?.into(), get(3)?.into())),
                        "c" => {
                            let choices = list(1)?;
                            let (idx, class, msg) = w.pending.take()?;
                            w.finished = true;
                            let v = Viol { class, msg };
                            fail(b, Failure { idx, from: w.from, v, choices, fatal: false, corpus: base.clone() });
                        }
                        "p" => {
                            w.finished = true;
                            b.broken = Some(format!("run {}: {}", int(1)?, get(2).unwrap_or("")));
                        }
                        "e" => w.finished = true,
                        _ => {}
                    }
                    Some(())
                };
                let _ = take();
            }
            Ok(Msg::End(id)) => {
                if let Some(mut w) = live.remove(&id) {
                    let st = w.child.wait();
                    if !w.finished {
                        use std::os::unix::process::ExitStatusExt;
                        let sig = st.ok().and_then(|s| s.signal());
                        let what = if w.over {
                            format!("no answer in {} s of processor time: the codec hangs", HANG.as_secs())
                        } else {
                            format!("the process died (signal {sig:?}): abort, stack overflow, deadlock of its threads or memory over the cap")
                        };
                        if !w.over && sig == Some(9) {
                            // Not ours: somebody ended it (the sandbox runs out of memory).
                            b.broken = Some(format!("run {}: worker killed from outside", w.at));
                        } else {
                            let class = if w.over { "hang" } else { "abort" };
                            let f = Failure {
                                idx: w.at,
                                from: w.from,
                                v: Viol { class: class.into(), msg: what },
                                choices: Vec::new(),
                                fatal: true,
                                corpus: base.clone(),
                            };
                            fail(b, f);
                        }
                    }
                }
            }
            Err(_) => {}
        }
        for w in live.values_mut() {
            if !w.over && !w.finished && w.last.elapsed() > Duration::from_secs(1) {
                let now = cpu(w.child.id());
                let from = *w.cpu.get_or_insert(now);
                if hangs(w.last, now.saturating_sub(from)) {
                    w.over = true;
                    let _ = w.child.kill();
                }
            }
            // Pieces after the lowest failure no longer matter.
            if b.fail.as_ref().is_some_and(|f| w.from > f.idx) && !w.finished {
                w.finished = true;
                let _ = w.child.kill();
            }
        }
        if b.broken.is_some() {
            for w in live.values_mut() {
                w.finished = true;
                let _ = w.child.kill();
            }
        }
        let _ = live.values().map(|w| w.to).max();
    }
}

fn env(k: &str, d: &str) -> String {
    std::env::var(k).ok().filter(|v| !v.is_empty()).unwrap_or_else(|| d.into())
}

fn root() -> String {
    env("SIM_OUT", ".")
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}

/// Lines "known: property=<id> class=<class>" of known-findings.txt.
fn known(prop: &str) -> Vec<String> {
    let t = fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    let head = format!("known: property={prop} class=");
    t.lines().filter_map(|l| l.strip_prefix(&head)).map(|c| c.trim().to_string()).collect()
}

pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let tier = env("VERIF_TIER", "quick");
    let thorough = tier == "thorough";
    let total = env("SIM_RUNS", &props::runs(prop, thorough).to_string()).parse().unwrap();
    let workers = env("SIM_WORKERS", &std::thread::available_parallelism().map_or(4, |n| n.get()).to_string()).parse().unwrap();
    let chunk = match prop {
        // Many fresh processes: some things happen at the first use only.
        "C12" => 25,
        _ if thorough => 1000,
        _ => 250,
    };
    println!("seed {seed}, tier {tier}: {total} simulated runs of {prop} on {workers} workers");
    let budget = Duration::from_secs(env("SIM_BUDGET", if thorough { "7200" } else { "420" }).parse().unwrap());
    let b = batch(prop, seed, total, workers, chunk, budget);
    if let Some(e) = &b.broken {
        eprintln!("simulator fault: {e}");
        return 2;
    }
    for k in known(prop) {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    let mut code = 0;
    let mut outcome = String::from("held");
    if let Some(f) = &b.fail {
        if known(prop).contains(&f.v.class) {
            eprintln!("known finding met at run {}", f.idx);
        } else {
            let path = shrink::report(prop, seed, f);
            println!("run {} (seed {seed}): {}: {}", f.idx, f.v.class, f.v.msg);
            println!("VIOLATION property={prop} replay={path}");
            outcome = format!("violated: {}", f.v.class);
            code = 1;
        }
    }
    evidence(prop, &tier, seed, &b, total, workers, t0, &outcome);
    if code == 0 {
        println!("{prop} held on {} runs, {:.1} s{}", b.done, t0.elapsed().as_secs_f64(), if b.cut_short { " (cut short by the clock)" } else { "" });
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, b: &Batch, total: u64, workers: usize, t0: Instant, outcome: &str) {
    let wall = t0.elapsed().as_secs_f64();
    let distinct: HashSet<u64> = b.hashes.values().filter(|h| h.1).map(|h| h.0).collect();
    let dig = b.hashes.iter().fold(0, |a, (i, h)| mix(a ^ mix(*i ^ mix(h.0))));
    let group = |p: &str| -> String {
        let l: Vec<String> = b
            .n
            .iter()
            .filter_map(|(k, v)| k.strip_prefix(p).map(|k| format!("{}: {v}", js(k))))
            .collect();
        format!("{{{}}}", l.join(", "))
    };
    let probes: Vec<String> =
        b.n.iter()
            .filter(|(k, _)| !k.starts_with("fault:") && !k.starts_with("op:") && *k != "simulated microseconds")
            .map(|(k, v)| format!("{}: {v}", js(k)))
            .collect();
    let mut samples = Vec::new();
    for idx in b.hashes.keys().copied().filter(|i| props::special(prop, *i) == 0).take(3) {
        let (cx, _) = one(prop, Corpus::default().source(prop, seed, idx, 0), 0, true);
        let mut t: Vec<String> = cx.trace.iter().take(40).map(|l| js(&l.chars().take(300).collect::<String>())).collect();
        if cx.trace.len() > 40 {
            t.push(js(&format!("… {} more events", cx.trace.len() - 40)));
        }
        samples.push(format!("{{\"run\": {idx}, \"choices\": {}, \"events\": [{}]}}", cx.s.log.len(), t.join(",\n    ")));
    }
    let sim_us = b.n.get("simulated microseconds").copied().unwrap_or(0);
    let per_hour = |n: f64| (n / wall.max(0.001) * 3600.0) as u64;
    let ops: u64 = b.n.iter().filter(|(k, _)| k.starts_with("op:")).map(|(_, v)| v).sum();
    let own = cov::own();
    let taken: HashSet<u32> = b.corpus.known.iter().map(|f| f >> 3).collect();
    let never: Vec<&str> =
        own.functions.iter().filter(|f| !f.1.iter().any(|x| taken.contains(x))).map(|f| f.0.as_str()).collect();
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \
         \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \
         \"outcome\": {},\n    \"planned_runs\": {total},\n    \"cut_short_by_clock\": {},\n    \"workers\": {workers},\n    \
         \"runs_per_hour\": {},\n    \"seeds_per_hour\": {},\n    \"simulated_seconds\": {},\n    \"simulated_seconds_per_hour\": {},\n    \
         \"operations_on_the_codec\": {ops},\n    \"operations\": {},\n    \"faults_injected\": {},\n    \"probes\": {{{}}},\n    \
         \"distinct_situations\": {},\n    \"situation_measure\": {},\n    \
         \"branches_taken\": {},\n    \"branches\": {},\n    \"branch_measure\": {},\n    \
         \"functions_entered\": {},\n    \"functions\": {},\n    \"functions_never_entered\": [{}],\n    \
         \"corpus_logs\": {},\n    \"constants_collected\": {},\n    \"texts_collected\": {},\n    \"event_log_digest\": \"{dig:016x}\",\n    \
         \"real\": {},\n    \"stub\": {},\n    \"samples\": [\n    {}\n    ]\n  }},\n  \"wall_s\": {wall:.2}\n}}\n",
        js(prop),
        js(tier),
        b.done,
        distinct.len(),
        js("Each run draws a configuration (swarm), packets, a schedule and faults from one seeded choice log. A run is \
            non-trivial if a fault was injected, a read met an incomplete, refused or malformed frame, or connections were \
            really interleaved; two runs are distinct if the hashes of their event logs differ."),
        js(outcome),
        b.cut_short,
        per_hour(b.done as f64),
        per_hour(b.done as f64),
        sim_us / 1_000_000,
        per_hour(sim_us as f64 / 1e6),
        group("op:"),
        group("fault:"),
        probes.join(", "),
        b.seen.len(),
        js("distinct (first byte, result class, amount of the frame present, string build) at a read; for C12 (connection, \
            thread, last three operations); for C17 also (bytes of a packet at the cut, epoch); for C18 (handshake state, event); \
            at most 20,000 per piece of the batch, united"),
        taken.len(),
        cov::own().own.iter().filter(|o| **o).count(),
        js("basic-block edges of the crate under test, counted separately in its four builds; half of the runs after the first \
            round change a choice log of an earlier run that took a new edge, or an edge a new number of times"),
        own.functions.len() - never.len(),
        own.functions.len(),
        // Those of one build; what is not called through Packet differs little in the others.
        never.iter().filter(|f| elf::krate(f) == Some("mqtt_bytes_v5")).take(60).map(|f| js(&elf::plain(f))).collect::<Vec<_>>().join(", "),
        b.corpus.logs.len(),
        b.corpus.dict.numbers.len(),
        b.corpus.dict.texts.len(),
        js("the whole crate under test (/repo/src), its four string builds; bytes 1.5.0; the allocator's memory"),
        js("network, clock, scheduler, allocator bookkeeping, peers and applications (simulated); independent MQTT 5 codec (model)"),
        samples.join(",\n    "),
    );
    let dir = format!("{}/evidence", root());
    fs::create_dir_all(&dir).unwrap();
    fs::write(format!("{dir}/{prop}.json"), text).unwrap();
}

pub fn trace(prop: &str, seed: u64, idx: u64) -> i32 {
    alloc::enable(true, Some(CAP));
    let special = props::special(prop, idx);
    let (cx, r) = one(prop, Corpus::default().source(prop, seed, idx, special), special, true);
    for l in &cx.trace {
        println!("{l}");
    }
    println!("{r:?}; {} choices, {:?}", cx.s.log.len(), cx.st.n);
    0
}

/// Runs a replay file. Exit 1 and the VIOLATION line if it fails as it says it does.
pub fn replay(path: &str, loud: bool) -> i32 {
    alloc::enable(true, Some(CAP));
    let t = fs::read_to_string(path).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k} "))).map(str::to_string);
    let prop = get("property").expect("property");
    let class = get("class").expect("class");
    let seed: u64 = get("seed").unwrap().parse().unwrap();
    let idx: u64 = get("run").unwrap().parse().unwrap();
    if class == "hang" {
        // A hang reproduces by not ending.
        std::thread::spawn(move || {
            let t0 = Instant::now();
            while !hangs(t0, cpu(std::process::id())) {
                std::thread::sleep(Duration::from_millis(200));
            }
            println!("no answer in {} s", HANG.as_secs());
            std::process::exit(1);
        });
    }
    let corpus = Corpus::load(get("corpus").as_deref().unwrap_or("-"));
    let from: u64 = get("from").map_or(idx, |f| f.parse().unwrap());
    // Runs of the same process before it, where they matter.
    for i in from..idx {
        let special = props::special(&prop, i);
        let _ = one(&prop, corpus.source(&prop, seed, i, special), special, false);
    }
    let choices = get("choices");
    let (cx, r) = match choices {
        Some(c) => one(&prop, Src::replaying(c.split_whitespace().map(|x| x.parse().unwrap()).collect()), 0, true),
        None => {
            let special = props::special(&prop, idx);
            one(&prop, corpus.source(&prop, seed, idx, special), special, true)
        }
    };
    if loud {
        for l in &cx.trace {
            println!("{l}");
        }
    }
    match r {
        Ok(Err(v)) if v.class == class => {
            println!("{}: {}", v.class, v.msg);
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        Ok(Err(v)) => {
            println!("another violation: {}: {}", v.class, v.msg);
            3
        }
        Ok(Ok(())) => {
            println!("the run passes");
            0
        }
        Err(e) => {
            println!("simulator fault: {e}");
            2
        }
    }
}

pub fn digest(prop: &str, seed: u64, n: u64, workers: usize, chunk: u64) -> i32 {
    let b = batch(prop, seed, n, workers, chunk, Duration::from_secs(100_000));
    if let Some(e) = b.broken {
        println!("simulator fault: {e}");
        return 2;
    }
    if let Some(f) = b.fail {
        println!("{f:?}");
        return 1;
    }
    for (i, h) in &b.hashes {
        println!("{i} {:016x}", h.0);
    }
    0
}
