//! Choice-sequence generation: every generator is a function of a `G`, every
//! random choice is drawn from the random-number generator of proptest and
//! recorded, and a failing case shrinks by shrinking the recorded choices.

use proptest::prelude::Rng as _;
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{TestRng, TestRunner};
use std::collections::BTreeSet;
use std::fmt;
use std::sync::{Arc, OnceLock};
use std::time::{Duration, Instant};

enum Source<'a> {
    Rng(&'a mut TestRng),
    Replay(&'a [u64], usize),
    /// A list of choices as far as it goes, and random ones from there on
    Mixed(&'a [u64], usize, &'a mut TestRng),
}

/// The numbers that the source code of the crate under test mentions; they only
/// make certain choices more likely.
fn literals() -> &'static [i64] {
    static LITERALS: OnceLock<Vec<i64>> = OnceLock::new();
    LITERALS.get_or_init(|| {
        let manifest = concat!(env!("CARGO_MANIFEST_DIR"), "/Cargo.toml");
        let manifest = std::fs::read_to_string(manifest).unwrap_or_default();
        let line = manifest.lines().find(|line| line.starts_with("postscript")).unwrap_or_default();
        let Some(path) = line.split("path = \"").nth(1).and_then(|rest| rest.split('"').next()) else {
            return vec![];
        };
        let mut values = BTreeSet::new();
        let mut folders = vec![std::path::Path::new(path).join("src")];
        while let Some(folder) = folders.pop() {
            for entry in std::fs::read_dir(folder).into_iter().flatten().flatten() {
                let path = entry.path();
                if path.is_dir() {
                    folders.push(path);
                } else if path.extension().is_some_and(|extension| extension == "rs") {
                    scan(&std::fs::read_to_string(path).unwrap_or_default(), &mut values);
                }
            }
        }
        values.into_iter().collect()
    })
}

fn scan(source: &str, values: &mut BTreeSet<i64>) {
    for line in source.lines() {
        let line = line.split("//").next().unwrap_or_default();
        // The tables are covered in full.
        if line.contains("=> \"") || line.contains("=> 0x") {
            continue;
        }
        let entry = line.split("=>").map(|side| side.trim().trim_end_matches(',').parse::<i64>().is_ok());
        if entry.clone().count() == 2 && entry.clone().all(|number| number) {
            continue;
        }
        let wordy = |letter: char| letter.is_ascii_alphanumeric() || letter == '_';
        for word in line.split(|letter| !wordy(letter)) {
            if !word.starts_with(|letter: char| letter.is_ascii_digit()) {
                continue;
            }
            let mut word = word.replace('_', "");
            for kind in ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"] {
                if let Some(rest) = word.strip_suffix(kind) {
                    word = rest.into();
                    break;
                }
            }
            let value = match (word.strip_prefix("0x"), word.strip_prefix("0b")) {
                (Some(digits), _) => i64::from_str_radix(digits, 16),
                (_, Some(digits)) => i64::from_str_radix(digits, 2),
                _ => word.parse::<i64>(),
            };
            if let Ok(value) = value {
                values.insert(value);
            }
        }
    }
}

/// A number below `n`, now and then such that `low` plus it is one of the
/// literals or next to one
fn literal(rng: &mut TestRng, low: i64, n: u64) -> u64 {
    let value = rng.next_u64();
    if n > 12 && value >> 59 == 0 {
        let literals = literals();
        if !literals.is_empty() {
            let mut literal = literals[(value % literals.len() as u64) as usize];
            if low < 0 && value >> 40 & 1 == 1 {
                literal = -literal;
            }
            let delta = [0, 0, 0, 0, 0, 0, -1, 1][(value >> 41 & 7) as usize];
            let distance = literal.wrapping_add(delta).wrapping_sub(low);
            if distance >= 0 && (distance as u64) < n {
                return distance as u64;
            }
        }
    }
    value % n
}

/// A source of choices.
pub struct G<'a> {
    source: Source<'a>,
    pub choices: Vec<u64>,
}

impl<'a> G<'a> {
    pub fn replay(choices: &'a [u64]) -> Self {
        G { source: Source::Replay(choices, 0), choices: vec![] }
    }

    /// Take the choices given and go on at random.
    pub fn mixed(choices: &'a [u64], rng: &'a mut TestRng) -> Self {
        G { source: Source::Mixed(choices, 0, rng), choices: vec![] }
    }

    /// A number in `0..n`; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        self.above(0, n)
    }

    /// What to add to `low` to get to one of the `n` numbers from there on
    fn above(&mut self, low: i64, n: u64) -> u64 {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        let value = match &mut self.source {
            Source::Rng(rng) => literal(rng, low, n),
            Source::Replay(data, position) => {
                let value = data.get(*position).copied().unwrap_or(0);
                *position += 1;
                value.min(n - 1)
            }
            Source::Mixed(data, position, rng) => {
                let value = match data.get(*position) {
                    Some(value) => *value % n,
                    _ => literal(rng, low, n),
                };
                *position += 1;
                value
            }
        };
        self.choices.push(value);
        value
    }

    pub fn range(&mut self, low: i64, high: i64) -> i64 {
        low + self.above(low, (high - low) as u64 + 1) as i64
    }

    pub fn size(&mut self, low: usize, high: usize) -> usize {
        low + self.above(low as i64, (high - low) as u64 + 1) as usize
    }

    /// True with probability `n / d`; false is simpler.
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below(d) >= d - n
    }

    pub fn pick<T: Copy>(&mut self, values: &[T]) -> T {
        values[self.below(values.len() as u64) as usize]
    }

    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut value = self.below(total as u64) as u32;
        for (i, weight) in weights.iter().enumerate() {
            if value < *weight {
                return i;
            }
            value -= weight;
        }
        unreachable!()
    }

    /// A length up to `max`, mostly small, now and then large or maximal.
    pub fn len(&mut self, max: usize) -> usize {
        let cap = |n: usize| n.min(max);
        match self.weighted(&[6, 5, 2, 1]) {
            0 => self.size(0, cap(3)),
            1 => self.size(0, cap(12)),
            2 => self.size(0, cap(60)),
            _ => self.size(0, max),
        }
    }

    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }

    /// Individually chosen (and shrinkable) bytes.
    pub fn bytes_of(&mut self, count: usize) -> Vec<u8> {
        (0..count).map(|_| self.byte()).collect()
    }

    /// Bulk content, expanded from one recorded choice; choice 0 gives zeros.
    pub fn blob(&mut self, count: usize) -> Vec<u8> {
        if count <= 8 {
            return self.bytes_of(count);
        }
        let seed = self.below(1 << 48);
        expand(seed, count)
    }

    pub fn int32(&mut self) -> i32 {
        match self.weighted(&[4, 3, 2, 2, 2, 2]) {
            0 => self.range(-107, 107) as i32,
            1 => self.range(-1131, 1131) as i32,
            2 => self.range(-32768, 32767) as i32,
            3 => self.below(1 << 32) as u32 as i32,
            4 => {
                let edge = self.pick(&EDGES);
                let delta = self.range(-1, 1);
                (edge + delta).clamp(i32::MIN as i64, i32::MAX as i64) as i32
            }
            _ => {
                let bit = self.below(31);
                let value = (1i64 << bit) + self.range(-1, 1);
                if self.chance(1, 2) {
                    -value as i32
                } else {
                    value as i32
                }
            }
        }
    }
}

pub const EDGES: [i64; 14] = [
    0,
    107,
    -107,
    108,
    1131,
    -1131,
    1132,
    32767,
    -32768,
    65535,
    65536,
    8388608,
    i32::MAX as i64,
    i32::MIN as i64,
];

/// A fixed expansion of a seed into bytes (not a source of choices).
pub fn expand(seed: u64, count: usize) -> Vec<u8> {
    if seed == 0 {
        return vec![0; count];
    }
    let mut state = seed;
    let mut result = Vec::with_capacity(count + 8);
    while result.len() < count {
        state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        result.extend((z ^ (z >> 31)).to_le_bytes());
    }
    result.truncate(count);
    result
}

pub type GenFn<C> = Arc<dyn Fn(&mut G) -> C + Send + Sync>;

/// A generated case with the choices that led to it.
#[derive(Clone)]
pub struct Drawn<C> {
    pub choices: Arc<Vec<u64>>,
    pub case: Arc<C>,
}

impl<C: fmt::Debug> fmt::Debug for Drawn<C> {
    fn fmt(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.case.fmt(formatter)
    }
}

/// The proptest strategy of a generator.
pub struct Choices<C> {
    pub generate: GenFn<C>,
    pub budget: usize,
    /// How long to shrink
    pub patience: Duration,
}

impl<C> fmt::Debug for Choices<C> {
    fn fmt(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
        formatter.write_str("Choices")
    }
}

/// The strategy of a case that is already known, to be shrunk.
pub struct Given<C> {
    pub choices: Vec<u64>,
    pub source: Choices<C>,
}

impl<C> fmt::Debug for Given<C> {
    fn fmt(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
        formatter.write_str("Given")
    }
}

impl<C: fmt::Debug> Strategy for Given<C> {
    type Tree = Tree<C>;
    type Value = Drawn<C>;

    fn new_tree(&self, _: &mut TestRunner) -> NewTree<Self> {
        let mut g = G::replay(&self.choices);
        let case = (self.source.generate)(&mut g);
        Ok(self.source.tree(g.choices, case))
    }
}

impl<C> Choices<C> {
    fn tree(&self, choices: Vec<u64>, case: C) -> Tree<C> {
        Tree {
            generate: self.generate.clone(),
            best: Drawn { choices: Arc::new(choices), case: Arc::new(case) },
            candidate: None,
            pass: 0,
            position: 0,
            progress: false,
            budget: self.budget,
            patience: self.patience,
            start: None,
        }
    }
}

impl<C: fmt::Debug> Strategy for Choices<C> {
    type Tree = Tree<C>;
    type Value = Drawn<C>;

    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let mut g = G { source: Source::Rng(runner.rng()), choices: vec![] };
        let case = (self.generate)(&mut g);
        let choices = g.choices;
        Ok(self.tree(choices, case))
    }
}

pub struct Tree<C> {
    generate: GenFn<C>,
    best: Drawn<C>,
    candidate: Option<Drawn<C>>,
    pass: usize,
    position: usize,
    progress: bool,
    budget: usize,
    patience: Duration,
    start: Option<Instant>,
}

const BLOCKS: [usize; 7] = [64, 16, 8, 4, 3, 2, 1];
const PASSES: usize = BLOCKS.len() * 2 + 4;

fn simpler(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

impl<C> Tree<C> {
    /// The next list of choices to try, or none when this round is over.
    fn propose(&mut self) -> Option<Vec<u64>> {
        loop {
            let length = self.best.choices.len();
            if self.pass >= PASSES {
                if !self.progress {
                    return None;
                }
                self.pass = 0;
                self.position = 0;
                self.progress = false;
            }
            if self.position >= length {
                self.pass += 1;
                self.position = 0;
                continue;
            }
            let i = self.position;
            self.position += 1;
            let mut next = (*self.best.choices).clone();
            if self.pass < BLOCKS.len() {
                let size = BLOCKS[self.pass];
                if i + size > length {
                    self.position = length;
                    continue;
                }
                // From the back
                let start = length - i - size;
                next.drain(start..start + size);
            } else if self.pass < 2 * BLOCKS.len() {
                let size = BLOCKS[self.pass - BLOCKS.len()];
                if i + size > length {
                    self.position = length;
                    continue;
                }
                if next[i..i + size].iter().all(|value| *value == 0) {
                    continue;
                }
                next[i..i + size].fill(0);
            } else {
                let value = next[i];
                next[i] = match self.pass - 2 * BLOCKS.len() {
                    0 => value / 2,
                    1 => value - value / 4,
                    2 => value.saturating_sub(1),
                    _ => value.min(1),
                };
                if next[i] == value {
                    continue;
                }
            }
            return Some(next);
        }
    }

    fn advance(&mut self) -> bool {
        loop {
            let start = *self.start.get_or_insert_with(Instant::now);
            if self.budget == 0 || start.elapsed() > self.patience {
                self.candidate = None;
                return false;
            }
            let Some(choices) = self.propose() else {
                self.candidate = None;
                return false;
            };
            self.budget -= 1;
            let mut g = G::replay(&choices);
            let case = (self.generate)(&mut g);
            let choices = g.choices;
            if !simpler(&choices, &self.best.choices) {
                continue;
            }
            self.candidate = Some(Drawn { choices: Arc::new(choices), case: Arc::new(case) });
            return true;
        }
    }
}

impl<C: fmt::Debug> ValueTree for Tree<C> {
    type Value = Drawn<C>;

    fn current(&self) -> Drawn<C> {
        let drawn = self.candidate.as_ref().unwrap_or(&self.best);
        Drawn { choices: drawn.choices.clone(), case: drawn.case.clone() }
    }

    fn simplify(&mut self) -> bool {
        if let Some(candidate) = self.candidate.take() {
            self.best = candidate;
            self.progress = true;
            // Stay at the same position: what follows moved up.
            self.position = self.position.saturating_sub(1);
        }
        self.advance()
    }

    fn complicate(&mut self) -> bool {
        self.candidate = None;
        self.advance()
    }
}
