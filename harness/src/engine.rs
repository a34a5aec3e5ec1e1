//! A small choice-sequence property-testing engine: every decision of a case is a bounded integer drawn
//! from `Src`; a case is a pure function of its choices; failures shrink by editing the choice sequence.

use std::collections::{BTreeMap, HashSet};

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed.wrapping_add(0x9E3779B97F4A7C15);
        let mut next = || {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        };
        let a = next();
        let b = next() | 1;
        Rng(a, b)
    }

    // xoroshiro128+
    pub fn next(&mut self) -> u64 {
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1).rotate_left(17).wrapping_add(s0);
        s1 ^= s0;
        self.0 = s0.rotate_left(49) ^ s1 ^ (s1 << 21);
        self.1 = s1.rotate_left(28);
        r
    }

    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    /// The given choices as far as they go, then random ones.
    Mutant(Vec<u64>, Rng),
}

pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
    /// How many values each choice was from.
    pub bounds: Vec<u64>,
}

impl Src {
    fn new(mode: Mode) -> Self {
        Src { mode, rec: Vec::new(), bounds: Vec::new() }
    }

    pub fn random(seed: u64) -> Self {
        Src::new(Mode::Random(Rng::new(seed)))
    }

    pub fn replay(choices: Vec<u64>) -> Self {
        Src::new(Mode::Replay(choices))
    }

    pub fn mutant(choices: Vec<u64>, seed: u64) -> Self {
        Src::new(Mode::Mutant(choices, Rng::new(seed)))
    }

    /// A value in `0..n`; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let pos = self.rec.len();
        let v = match &mut self.mode {
            Mode::Random(rng) => rng.below(n),
            Mode::Replay(choices) => choices.get(pos).copied().unwrap_or(0).min(n - 1),
            Mode::Mutant(choices, rng) => match choices.get(pos) {
                Some(v) => v % n,
                None => rng.below(n),
            },
        };
        self.rec.push(v);
        self.bounds.push(n);
        v
    }

    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        lo + self.below((hi - lo) as u64 + 1) as i64
    }

    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }

    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        hi << 32 | lo
    }

    /// True with probability `num/den` (false is the simplest).
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn coin(&mut self) -> bool {
        self.chance(1, 2)
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len() as u64) as usize]
    }

    /// Index into weighted alternatives.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|&w| w as u64).sum();
        let mut v = self.below(total);
        for (index, &w) in weights.iter().enumerate() {
            if v < w as u64 {
                return index;
            }
            v -= w as u64;
        }
        weights.len() - 1
    }

    /// A value in `0..=max` that is often near 0, near `max` or near a power of two.
    pub fn edgy(&mut self, max: u64) -> u64 {
        match self.weighted(&[5, 3, 2, 3]) {
            0 => self.below(max.min(12).saturating_add(1)),
            1 => {
                if max == u64::MAX {
                    self.u64()
                } else {
                    self.below(max + 1)
                }
            }
            2 => {
                let bit = self.below(64);
                let base = (1u64 << bit).saturating_sub(1);
                base.saturating_add(self.below(3)).min(max)
            }
            _ => max - self.below(3).min(max),
        }
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.below(256) as u8).collect()
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in data {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0xBF58476D1CE4E5B9);
    h ^ (h >> 32)
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub message: String,
    pub detail: String,
    /// Exact signature of a listed finding this failure matches, if any.
    pub known: Option<&'static str>,
}

pub fn fail<T>(message: impl Into<String>, detail: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { message: message.into(), detail: detail.into(), known: None })
}

/// What a case reports about itself while it runs.
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub discard: bool,
    pub key: u64,
    pub labels: Vec<&'static str>,
    pub sample: Option<String>,
}

impl Case {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }

    pub fn label_if(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.labels.push(l);
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Case) -> Result<(), Failure>;

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub discarded: u64,
    pub nontrivial: u64,
    /// Coverage-guided cases, and those among them that showed something new.
    pub guided: u64,
    pub guided_new: u64,
    pub keys: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
}

impl Stats {
    pub fn add(&mut self, case: &Case) {
        self.evaluations += 1;
        if case.discard {
            self.discarded += 1;
            return;
        }
        if case.nontrivial {
            self.nontrivial += 1;
            self.keys.insert(case.key);
            if let Some(sample) = &case.sample {
                if self.samples.len() < 3 {
                    self.samples.push(sample.clone());
                }
            }
        }
        for label in &case.labels {
            *self.labels.entry(label.to_string()).or_default() += 1;
        }
    }
}

/// Shrinks `choices` while `fails` keeps returning true; bounded by a number of attempts.
pub fn shrink(mut choices: Vec<u64>, mut budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut improved = true;
    while improved && budget > 0 {
        improved = false;
        // delete blocks
        let mut size = (choices.len() / 2).max(1);
        loop {
            let mut start = 0;
            while start < choices.len() && budget > 0 {
                let end = (start + size).min(choices.len());
                let mut candidate = choices.clone();
                candidate.drain(start..end);
                budget -= 1;
                match fails(&candidate) {
                    Some(used) if used.len() < choices.len() => {
                        choices = used;
                        improved = true;
                    }
                    _ => start += size,
                }
            }
            if size == 1 || budget == 0 {
                break;
            }
            size = (size / 2).max(1);
        }
        // zero blocks
        for size in [8usize, 1] {
            let mut start = 0;
            while start < choices.len() && budget > 0 {
                let end = (start + size).min(choices.len());
                if choices[start..end].iter().any(|&v| v != 0) {
                    let mut candidate = choices.clone();
                    candidate[start..end].iter_mut().for_each(|v| *v = 0);
                    budget -= 1;
                    if let Some(used) = fails(&candidate) {
                        if used.len() <= choices.len() && used < choices {
                            choices = used;
                            improved = true;
                        }
                    }
                }
                start += size;
            }
        }
        // binary search single values towards 0
        let mut index = 0;
        while index < choices.len() && budget > 0 {
            let (mut lo, mut hi) = (0u64, choices[index]);
            while lo < hi && budget > 0 {
                let mid = lo + (hi - lo) / 2;
                let mut candidate = choices.clone();
                candidate[index] = mid;
                budget -= 1;
                match fails(&candidate) {
                    Some(used) if used.len() <= choices.len() && used < choices => {
                        choices = used;
                        improved = true;
                        if index >= choices.len() {
                            break;
                        }
                        hi = choices[index].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            index += 1;
        }
    }
    choices
}
