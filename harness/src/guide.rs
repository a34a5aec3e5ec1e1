//! Coverage-guided search: the library is built with edge counters and comparison tracing (rustc.sh, vm/cover.c);
//! choice sequences of cases that showed something new are kept and mutated.

use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

use crate::engine::{Rng, Src};

extern "C" {
    fn lv_cov_edges() -> usize;
    fn lv_cov_take(out: *mut u32, max: usize) -> usize;
    fn lv_cov_words(out: *mut u64, max: usize) -> usize;
    fn lv_cov_pairs(out: *mut u64, max: usize) -> usize;
    fn lv_cov_solved(site: u64) -> i32;
}

const COMPARISON: u32 = 0x8000_0000;

struct Entry {
    choices: Vec<u64>,
    bounds: Vec<u64>,
}

/// A comparison with a constant that the other side has never been equal to, in a case where that side was
/// `difference` less.
struct Target {
    entry: Rc<Entry>,
    constant: u64,
    difference: u64,
    /// Choices that may be the other side.
    places: Vec<usize>,
}

const TARGETS: usize = 8;

pub struct Guide {
    seen: HashMap<u32, u32>,
    corpus: Vec<Rc<Entry>>,
    buffer: Vec<u32>,
    pub edges: Vec<bool>,
    words: Vec<u64>,
    targets: BTreeMap<u64, Vec<Target>>,
    pairs: Vec<u64>,
    cases: u64,
}

impl Guide {
    pub fn new() -> Self {
        let edges = vec![false; unsafe { lv_cov_edges() }];
        let mut g = Guide { seen: HashMap::new(), corpus: Vec::new(), buffer: vec![0; 1 << 16], edges, words: Vec::new(), targets: BTreeMap::new(), pairs: vec![0; 3072], cases: 0 };
        unsafe { lv_cov_take(g.buffer.as_mut_ptr(), g.buffer.len()) };
        g
    }

    pub fn available(&self) -> bool {
        !self.edges.is_empty() && !self.corpus.is_empty()
    }

    /// Looks at what the last case did; returns whether it was new.
    pub fn observe(&mut self, src: &Src, keep: bool) -> bool {
        let n = unsafe { lv_cov_take(self.buffer.as_mut_ptr(), self.buffer.len()) };
        let mut new = false;
        for &feature in &self.buffer[..n] {
            if feature & COMPARISON == 0 {
                self.edges[(feature / 8) as usize] = true;
            }
            let times = self.seen.entry(feature).or_default();
            new |= *times == 0;
            *times += 1;
        }
        let pairs = unsafe { lv_cov_pairs(self.pairs.as_mut_ptr(), self.pairs.len() / 3) };
        if !keep || src.rec.len() > 60_000 {
            return new;
        }
        let mut entry = None;
        let mut entry = || entry.get_or_insert_with(|| Rc::new(Entry { choices: src.rec.clone(), bounds: src.bounds.clone() })).clone();
        self.cases += 1;
        for pair in self.pairs[..pairs * 3].chunks(3) {
            let list = self.targets.entry(pair[0]).or_default();
            let (constant, value) = (pair[1], pair[2]);
            let places: Vec<usize> = (0..src.rec.len()).filter(|&i| src.rec[i] == value && constant < src.bounds[i]).take(16).collect();
            // the first ones, ones with a place to change, and later ones now and then
            let index = match list.iter().position(|t| t.places.is_empty() && !places.is_empty()) {
                Some(index) => index,
                None if list.len() < TARGETS => list.len(),
                None if self.cases % 61 == pair[0] % 61 && !places.is_empty() => (self.cases / 61) as usize % TARGETS,
                None => continue,
            };
            let target = Target { entry: entry(), constant, difference: constant.wrapping_sub(value), places };
            match index < list.len() {
                true => list[index] = target,
                false => list.push(target),
            }
        }
        if new {
            let entry = entry();
            self.corpus.push(entry);
            let mut words = vec![0; 512];
            let n = unsafe { lv_cov_words(words.as_mut_ptr(), words.len()) };
            words.truncate(n);
            self.words = words;
        }
        new
    }

    fn entry(&self, rng: &mut Rng) -> &Rc<Entry> {
        let n = self.corpus.len() as u64;
        // the later ones more often
        let i = if rng.below(2) == 0 { rng.below(n) } else { n - 1 - rng.below(n.div_ceil(4)) };
        &self.corpus[i as usize]
    }

    /// Tries to make one side of a comparison equal to the constant on the other, or nearly so.
    fn aim(&self, rng: &mut Rng) -> Option<Vec<u64>> {
        // by constant first: checks of the same kind, such as those of shifts, are many
        let mut sites: BTreeMap<u64, Vec<&Vec<Target>>> = BTreeMap::new();
        for (site, targets) in &self.targets {
            if unsafe { lv_cov_solved(*site) } == 0 {
                sites.entry(targets[0].constant).or_default().push(targets);
            }
        }
        if sites.is_empty() {
            return None;
        }
        let sites = sites.values().nth(rng.below(sites.len() as u64) as usize)?;
        let site = sites[rng.below(sites.len() as u64) as usize];
        let target = &site[rng.below(site.len() as u64) as usize];
        let mut v = target.entry.choices.clone();
        let bounds = &target.entry.bounds;
        let near = [0, 0, 0, 1, u64::MAX][rng.below(5) as usize];
        if !target.places.is_empty() && rng.below(4) != 0 {
            let at = target.places[rng.below(target.places.len() as u64) as usize];
            v[at] = target.constant.wrapping_add(near).min(bounds[at] - 1);
            return Some(v);
        }
        // a choice that the difference can be added to
        let difference = target.difference.wrapping_add(near);
        let wide: Vec<usize> = (0..v.len()).filter(|&i| bounds[i] > 16 && v[i].wrapping_add(difference) < bounds[i]).collect();
        if wide.is_empty() {
            return None;
        }
        let at = wide[rng.below(wide.len() as u64) as usize];
        v[at] = v[at].wrapping_add(difference);
        Some(v)
    }

    /// Choices to try next; random ones follow them.
    pub fn next(&self, seed: u64) -> Vec<u64> {
        let mut rng = Rng::new(seed);
        if rng.below(2) == 0 {
            if let Some(v) = self.aim(&mut rng) {
                return v;
            }
        }
        let entry = self.entry(&mut rng);
        let mut v = entry.choices.clone();
        let mut bounds = entry.bounds.clone();
        for _ in 0..=rng.below(4) {
            let length = v.len() as u64;
            if length == 0 {
                break;
            }
            let at = rng.below(length) as usize;
            let block = 1 + rng.below(length.min(24)) as usize;
            let end = (at + block).min(v.len());
            match rng.below(14) {
                0..=3 => v[at] = rng.below(bounds[at]),
                4 => v[at] = [0, bounds[at] - 1, bounds[at] / 2][rng.below(3) as usize],
                5 => v[at] = v[at].wrapping_add(rng.below(9)).wrapping_sub(4).min(bounds[at] - 1),
                6 | 7 if !self.words.is_empty() => {
                    // a constant that the library compares something with, in place of a choice from many values
                    let wide: Vec<usize> = (0..v.len()).filter(|&i| bounds[i] > 16).collect();
                    if !wide.is_empty() {
                        let at = wide[rng.below(wide.len() as u64) as usize];
                        let word = self.words[rng.below(self.words.len() as u64) as usize];
                        let word = word.wrapping_add(rng.below(5)).wrapping_sub(2);
                        if word < bounds[at] {
                            v[at] = word;
                        }
                    }
                }
                8 => {
                    v.drain(at..end);
                    bounds.drain(at..end);
                }
                9 => {
                    let (x, y) = (v[at..end].to_vec(), bounds[at..end].to_vec());
                    v.splice(at..at, x);
                    bounds.splice(at..at, y);
                }
                10 => {
                    for i in at..end {
                        v[i] = rng.below(bounds[i]);
                    }
                }
                11 => {
                    // a stretch of another case
                    let other = self.entry(&mut rng);
                    if !other.choices.is_empty() {
                        let from = rng.below(other.choices.len() as u64) as usize;
                        let to = (from + block * 4).min(other.choices.len());
                        v.splice(at..end, other.choices[from..to].iter().copied());
                        bounds.splice(at..end, other.bounds[from..to].iter().copied());
                    }
                }
                12 => {
                    // the other case from the same place on
                    let other = self.entry(&mut rng);
                    if at < other.choices.len() {
                        v.splice(at.., other.choices[at..].iter().copied());
                        bounds.splice(at.., other.bounds[at..].iter().copied());
                    }
                }
                _ => {
                    v.truncate(at);
                    bounds.truncate(at);
                }
            }
        }
        v
    }
}
