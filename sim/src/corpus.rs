//! What the runs of a batch hand on to later ones: the choice logs that took the crate under
//! test through branches not taken before, and the constants it compares with. A batch is cut
//! into rounds; a run depends on (seed, property, index) and on the corpus of the rounds before
//! its own, which depends on nothing else, so the whole batch is a function of its seed.
use crate::runner::seed_of;
use crate::src::{mix, Dict, Rng, Src};
use std::collections::HashSet;
use std::fs;
use std::sync::Arc;

/// Longer logs and costlier runs are not built upon.
pub const MAX_LOG: usize = 20_000;
pub const MAX_COST: u64 = 8 << 20;
const MAX_LOGS: usize = 6_000;

#[derive(Clone, Default, Debug)]
pub struct Corpus {
    pub dict: Arc<Dict>,
    pub known: HashSet<u32>,
    pub logs: Vec<Vec<u64>>,
}

fn line<T: ToString>(v: impl IntoIterator<Item = T>) -> String {
    v.into_iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
fn unline<T: std::str::FromStr>(l: &str) -> Vec<T> {
    l.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

impl Corpus {
    pub fn save(&self, path: &str) {
        let mut k: Vec<u32> = self.known.iter().copied().collect();
        k.sort_unstable();
        let mut t = format!("dict {}\nknown {}\n", line(self.dict.numbers.iter()), line(k));
        for x in &self.dict.texts {
            t += &format!("text {}\n", line(x));
        }
        for l in &self.logs {
            t += &format!("log {}\n", line(l));
        }
        fs::write(path, t).expect("write corpus");
    }
    pub fn load(path: &str) -> Corpus {
        let mut c = Corpus::default();
        let mut dict = Dict::default();
        if path == "-" {
            return c;
        }
        for l in fs::read_to_string(path).expect("read corpus").lines() {
            if let Some(l) = l.strip_prefix("log ") {
                c.logs.push(unline(l));
            } else if let Some(l) = l.strip_prefix("known ") {
                c.known = unline(l).into_iter().collect();
            } else if let Some(l) = l.strip_prefix("dict ") {
                dict.numbers = unline(l);
            } else if let Some(l) = l.strip_prefix("text ") {
                dict.texts.push(unline(l));
            }
        }
        c.dict = Arc::new(dict);
        c
    }
    /// Runs of a round, in the order of their index: the features each was the first of its
    /// piece to show, and its log.
    pub fn learn(&mut self, f: &[u32], log: Option<Vec<u64>>) {
        let mut new = false;
        for x in f {
            new |= self.known.insert(*x);
        }
        if let Some(l) = log.filter(|_| new && self.logs.len() < MAX_LOGS) {
            self.logs.push(l);
        }
    }
    /// The choices of run `idx`: drawn afresh, or a log of the corpus with changes.
    pub fn source(&self, prop: &str, seed: u64, idx: u64, special: u64) -> Src {
        let s = seed_of(prop, seed, idx);
        if special > 0 || self.logs.is_empty() || mix(s) % 2 == 0 {
            return Src::seeded(s, &self.dict);
        }
        let mut r = Rng::new(s ^ 0x77);
        let pick = |r: &mut Rng| -> &Vec<u64> {
            let n = self.logs.len();
            // The latest finds more often.
            let from = if r.next() % 2 == 0 { n - n.div_ceil(4) } else { 0 };
            &self.logs[from + r.next() as usize % (n - from)]
        };
        let mut b = pick(&mut r).clone();
        let other = pick(&mut r);
        let mut n = 1;
        while n < 8 && r.next() % 2 == 0 {
            n += 1;
        }
        for _ in 0..n {
            // The first choice names the scenario and stays.
            if b.len() < 2 {
                break;
            }
            let at = 1 + r.next() as usize % (b.len() - 1);
            let len = 1 + r.next() as usize % (1 << (r.next() % 8));
            let end = (at + len).min(b.len());
            match r.next() % 10 {
                0 => b.truncate(at),
                1 | 2 => b[at] = r.next(),
                3 => b[at] = r.next() % 16,
                4 => b[at] = if r.next() % 2 == 0 { b[at].wrapping_add(1) } else { b[at].saturating_sub(1) },
                5 => {
                    b.drain(at..end);
                }
                6 => {
                    let piece = b[at..end].to_vec();
                    b.splice(at..at, piece);
                }
                7 => {
                    let from = (r.next() as usize % other.len()).max(1).min(other.len());
                    b.truncate(at);
                    b.extend_from_slice(&other[from..]);
                }
                8 => b[at..end].fill(0),
                _ => {
                    let d = &self.dict.numbers;
                    if !d.is_empty() {
                        b[at] = 1 + d[r.next() as usize % d.len()];
                    }
                }
            }
        }
        Src::leading(b, s, &self.dict)
    }
}
