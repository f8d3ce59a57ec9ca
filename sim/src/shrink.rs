//! Makes a failing run small and writes its replay file.
use crate::alloc;
use crate::props;
use crate::runner::{one, Failure};
use crate::src::Src;
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

fn class(prop: &str, choices: &[u64]) -> Option<(String, Vec<u64>)> {
    let (cx, r) = one(prop, Src::replaying(choices.to_vec()), 0, false);
    match r {
        Ok(Err(v)) => Some((v.class, cx.s.log)),
        _ => None,
    }
}

fn line(c: &[u64]) -> String {
    c.iter().map(u64::to_string).collect::<Vec<_>>().join(" ")
}

fn unline(l: &str) -> Vec<u64> {
    l.split_whitespace().map(|x| x.parse().unwrap()).collect()
}

/// Shrinks in a process of its own, watched from outside: the code under test may hang, abort
/// or eat memory on an edited run. What it has found until then counts.
fn shrunk(prop: &str, f: &Failure) -> Option<Vec<u64>> {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["shrink", prop, &f.v.class])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn shrink");
    let (mut i, o) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
    let all = line(&f.choices);
    let (tx, rx) = mpsc::channel::<String>();
    std::thread::spawn(move || {
        let _ = writeln!(i, "{all}");
    });
    std::thread::spawn(move || {
        for l in BufReader::new(o).lines() {
            let Ok(l) = l else { break };
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    let t0 = Instant::now();
    let mut best = None;
    let mut done = false;
    while !done {
        let left = Duration::from_secs(60).saturating_sub(t0.elapsed());
        match rx.recv_timeout(left) {
            Ok(l) if l == "end" => done = true,
            Ok(l) => best = Some(unline(&l)),
            Err(_) => break,
        }
    }
    let _ = c.kill();
    let _ = c.wait();
    best
}

/// The process of `shrunk`.
pub fn main(prop: &str, want: &str) -> i32 {
    alloc::enable(true, Some(crate::runner::CAP));
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).expect("choices");
    let all = unline(&t);
    if class(prop, &all).is_some_and(|c| c.0 == want) {
        let out = |c: &[u64]| {
            println!("{}", line(c));
        };
        out(&all);
        let best = shrink(prop, want, all, &out);
        out(&best);
    }
    println!("end");
    0
}

/// Edits the choice log as long as the same class of violation remains.
fn shrink(prop: &str, want: &str, mut best: Vec<u64>, out: &dyn Fn(&[u64])) -> Vec<u64> {
    let t0 = Instant::now();
    let mut left = 6000u32;
    let ok = |c: &[u64], left: &mut u32| -> Option<Vec<u64>> {
        if *left == 0 || t0.elapsed() > Duration::from_secs(40) {
            return None;
        }
        *left -= 1;
        // The first choice names the scenario and stays.
        if c.first() != Some(&0) {
            return None;
        }
        match class(prop, c) {
            Some((k, log)) if k == want => Some(log),
            _ => None,
        }
    };
    // Zero is the simplest choice, and what is missing at the end of a log reads as zero.
    let cost = |a: &[u64]| {
        let n = a.iter().filter(|v| **v != 0).count();
        (2 * n + a.len(), a.iter().map(|v| u64::from(64 - v.leading_zeros())).sum::<u64>(), a.iter().fold(0u64, |x, v| x.saturating_add(*v)))
    };
    let smaller = |a: &[u64], b: &[u64]| cost(a) < cost(b);
    let mut told = Instant::now();
    let mut tell = |b: &[u64]| {
        if told.elapsed() > Duration::from_millis(500) {
            told = Instant::now();
            out(b);
        }
    };
    loop {
        let start = best.clone();
        // Drop pieces.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.len() {
                let mut c = best.clone();
                c.drain(at..(at + size).min(c.len()));
                match ok(&c, &mut left) {
                    Some(l) if smaller(&l, &best) => {
                        best = l;
                        tell(&best);
                    }
                    _ => at += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero pieces.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.len() {
                let end = (at + size).min(best.len());
                if best[at..end].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[at..end].fill(0);
                    if let Some(l) = ok(&c, &mut left) {
                        if smaller(&l, &best) {
                            best = l;
                            tell(&best);
                        }
                    }
                }
                at += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Lower values.
        let mut i = 0;
        while i < best.len() {
            for f in [|v: u64| v / 2, |v: u64| v - 1] {
                while i < best.len() && best[i] > 0 {
                    let mut c = best.clone();
                    c[i] = f(c[i]);
                    match ok(&c, &mut left) {
                        Some(l) if smaller(&l, &best) => best = l,
                        _ => break,
                    }
                }
            }
            i += 1;
        }
        if best == start || left == 0 || t0.elapsed() > Duration::from_secs(40) {
            return best;
        }
    }
}

fn file(path: &str, prop: &str, seed: u64, f: &Failure, from: Option<u64>, choices: Option<&[u64]>, note: &str) {
    let mut t = format!(
        "# replay: sim replay {path} -v   (exit 1: fails the same way)\nproperty {prop}\nseed {seed}\nrun {}\nclass {}\n",
        f.idx, f.v.class
    );
    if let Some(f) = from {
        t += &format!("from {f}\n");
    }
    if choices.is_none() && !f.corpus.logs.is_empty() {
        // Drawn with what the rounds before it had found.
        f.corpus.save(&format!("{path}.corpus"));
        t += &format!("corpus {path}.corpus\n");
    }
    if let Some(c) = choices {
        let c: Vec<String> = c.iter().map(u64::to_string).collect();
        t += &format!("choices {}\n", c.join(" "));
    }
    t += &format!("note {note}\n");
    if !f.fatal {
        let (cx, r) = match choices {
            Some(c) => one(prop, Src::replaying(c.to_vec()), 0, true),
            None => {
                let special = props::special(prop, f.idx);
                one(prop, f.corpus.source(prop, seed, f.idx, special), special, true)
            }
        };
        let m = match r {
            Ok(Err(v)) => v.msg,
            _ => f.v.msg.clone(),
        };
        t += &format!("message {m}\n\n# events\n");
        for l in cx.trace {
            let l: String = l.chars().take(2000).collect();
            t += &l;
            t.push('\n');
        }
    } else {
        t += &format!("message {}\n", f.v.msg);
    }
    fs::write(path, t).expect("write replay file");
}

/// Does the file fail the same way in a fresh process?
fn confirmed(path: &str, f: &Failure) -> bool {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["replay", path])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn replay");
    let t0 = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return if f.fatal && f.v.class == "abort" { s.code().is_none() } else { s.code() == Some(1) };
        }
        if t0.elapsed() > Duration::from_secs(200) {
            let _ = c.kill();
            let _ = c.wait();
            return false;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

pub fn report(prop: &str, seed: u64, f: &Failure) -> String {
    alloc::enable(true, None);
    let root = std::env::var("SIM_OUT").unwrap_or_else(|_| ".".into());
    let dir = format!("{root}/replays");
    fs::create_dir_all(&dir).unwrap();
    let path = format!("{dir}/{prop}-{seed}-{}.txt", f.idx);
    if !f.fatal {
        let small = f.choices.first() == Some(&0) && f.choices.len() < 200_000;
        if let Some(c) = small.then(|| shrunk(prop, f)).flatten() {
            let note = format!("minimised from {} to {} choices", f.choices.len(), c.len());
            file(&path, prop, seed, f, None, Some(&c), &note);
            if confirmed(&path, f) {
                println!("{note}; confirmed in a fresh process");
                return path;
            }
        }
        file(&path, prop, seed, f, None, Some(&f.choices), "not minimised");
        if confirmed(&path, f) {
            println!("not minimised; confirmed in a fresh process");
            return path;
        }
    } else {
        file(&path, prop, seed, f, None, None, "the run by its index");
        if confirmed(&path, f) {
            println!("confirmed in a fresh process");
            return path;
        }
    }
    // State left behind by earlier runs of the process takes part.
    file(&path, prop, seed, f, Some(f.from), None, "needs the runs before it in the same process");
    for _ in 0..3 {
        if confirmed(&path, f) {
            println!("needs the runs {}..{} in one process; confirmed in a fresh process", f.from, f.idx);
            return path;
        }
    }
    println!("seen, but not again in a fresh process: the code under test is itself nondeterministic");
    path
}
