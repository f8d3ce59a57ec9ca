//! The one source of choices of a run. Every decision (schedule, delay, fault, packet) is a
//! number drawn here and logged; the log alone replays the run, and shrinking edits the log.
//! Zero is always the simplest choice.

use std::sync::Arc;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

/// What the crate under test compares its input with.
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Dict {
    pub numbers: Vec<u64>,
    pub texts: Vec<Vec<u8>>,
}

/// Choices come from a recorded log as far as it goes, then from the generator, if there is one.
pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub log: Vec<u64>,
    dict: Arc<Dict>,
}

impl Src {
    pub fn seeded(seed: u64, dict: &Arc<Dict>) -> Self {
        Src { rng: Some(Rng::new(seed)), replay: Vec::new(), pos: 0, log: Vec::new(), dict: dict.clone() }
    }
    pub fn replaying(choices: Vec<u64>) -> Self {
        Src { rng: None, replay: choices, pos: 0, log: Vec::new(), dict: Arc::default() }
    }
    /// Begins with `choices`, goes on at random.
    pub fn leading(choices: Vec<u64>, seed: u64, dict: &Arc<Dict>) -> Self {
        Src { replay: choices, ..Src::seeded(seed, dict) }
    }
    fn raw(&mut self) -> u64 {
        self.pos += 1;
        match (self.replay.get(self.pos - 1), &mut self.rng) {
            (Some(v), _) => *v,
            (None, Some(r)) => r.next(),
            (None, None) => 0,
        }
    }
    /// A number in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = self.raw() % n;
        self.log.push(v);
        v
    }
    /// A choice made elsewhere: logged, and taken from the log on replay.
    pub fn given(&mut self, v: u64) -> u64 {
        let v = if self.rng.is_some() && self.pos >= self.replay.len() { v } else { self.raw() };
        self.log.push(v);
        v
    }
    /// Now and then a constant the crate under test compares with, or a neighbour of one.
    pub fn lucky(&mut self) -> Option<u64> {
        let v = match (self.replay.get(self.pos), &mut self.rng) {
            (Some(v), _) => *v,
            (None, Some(r)) => {
                let (a, b) = (r.next(), r.next());
                if self.dict.numbers.is_empty() || a % 16 != 0 {
                    0
                } else {
                    let c = self.dict.numbers[(b >> 8) as usize % self.dict.numbers.len()];
                    1 + match b & 7 {
                        0 => c.saturating_sub(1),
                        1 => c.saturating_add(1),
                        _ => c,
                    }
                }
            }
            (None, None) => 0,
        };
        self.pos += 1;
        self.log.push(v);
        v.checked_sub(1)
    }
    /// Now and then a text the crate under test compares with.
    pub fn lucky_text(&mut self) -> Option<Vec<u8>> {
        let mut found: &[u8] = &[];
        let dict = self.dict.clone();
        let fresh = self.pos >= self.replay.len();
        if let (true, Some(r)) = (fresh, &mut self.rng) {
            let (a, b) = (r.next(), r.next());
            if !dict.texts.is_empty() && a % 12 == 0 {
                found = &dict.texts[b as usize % dict.texts.len()];
            }
        }
        let n = if fresh { found.len() as u64 } else { self.replay[self.pos] % 65 };
        self.pos += 1;
        self.log.push(n);
        let mut t = Vec::new();
        while t.len() < n as usize {
            let mut w = [0; 8];
            if fresh {
                let rest = &found[t.len()..];
                w[..rest.len().min(8)].copy_from_slice(&rest[..rest.len().min(8)]);
            }
            t.extend(self.given(u64::from_le_bytes(w)).to_le_bytes());
        }
        t.truncate(n as usize);
        (n > 0).then_some(t)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// A number in `lo..=hi`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num / den`; choice 0 is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, from: &'a [T]) -> &'a T {
        &from[self.usize(from.len())]
    }
    /// Index drawn with the given weights; choice 0 is the first.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(u64::from(total)) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
}
