//! Coverage-guided search over lists of choices: the same generators and
//! oracles, with lists that reach something new in the crate under test kept
//! and varied.

use crate::gen::G;
use cover::Map;
use proptest::prelude::Rng as _;
use proptest::test_runner::TestRng;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::time::{Duration, Instant};

const NONE: u32 = u32::MAX;

struct Entry {
    choices: Vec<u64>,
    deltas: Vec<i64>,
    /// Features of which this is the shortest case known
    owned: usize,
    tries: u32,
}

pub struct Corpus {
    map: Map,
    entries: Vec<Entry>,
    owner: Vec<u32>,
    found: Vec<(u32, i64)>,
    deltas: Vec<i64>,
    parent: Option<usize>,
    dead: usize,
    pub features: usize,
    exchange: Exchange,
    /// Values to be moved by what was missing in comparisons: the list, the place, and by how much
    moves: Vec<(Rc<Vec<u64>>, usize, i64)>,
}

/// What the shards tell each other: files of lists of choices
struct Exchange {
    own: Option<File>,
    /// Other files and how far they have been read
    others: Vec<(PathBuf, u64)>,
    last: Instant,
    /// Lists to try
    received: Vec<Vec<u64>>,
    /// Whether the current case is one of these
    foreign: bool,
}

impl Exchange {
    fn new(directory: &Path, name: &str, shard: u64, shards: u64) -> Self {
        let path = |shard: u64| directory.join(format!("kept-{name}-{shard}"));
        Exchange {
            own: File::create(path(shard)).ok(),
            others: (0..shards).filter(|other| *other != shard).map(|other| (path(other), 0)).collect(),
            last: Instant::now(),
            received: vec![],
            foreign: false,
        }
    }

    fn tell(&mut self, choices: &[u64]) {
        if self.foreign {
            return;
        }
        if let Some(file) = self.own.as_mut() {
            let words = [choices.len() as u64];
            let bytes: Vec<u8> =
                words.iter().chain(choices).flat_map(|word| word.to_le_bytes()).collect();
            let _ = file.write_all(&bytes);
        }
    }

    fn listen(&mut self) {
        if self.last.elapsed() < Duration::from_secs(1) {
            return;
        }
        self.last = Instant::now();
        for (path, position) in self.others.iter_mut() {
            let Ok(mut file) = File::open(path) else { continue };
            let mut bytes = vec![];
            if file.seek(SeekFrom::Start(*position)).is_err() || file.read_to_end(&mut bytes).is_err() {
                continue;
            }
            let words: Vec<u64> =
                bytes.chunks_exact(8).map(|word| u64::from_le_bytes(word.try_into().unwrap())).collect();
            let mut at = 0;
            while let Some(choices) = words.get(at).and_then(|size| words.get(at + 1..at + 1 + *size as usize)) {
                self.received.push(choices.to_vec());
                at += 1 + choices.len();
            }
            *position += 8 * at as u64;
        }
    }
}

impl Corpus {
    /// None when the code has not been compiled with coverage.
    pub fn new(directory: &Path, name: &str, shard: u64, shards: u64) -> Option<Self> {
        let map = Map::new()?;
        let owner = vec![NONE; cover::features(&map)];
        Some(Corpus {
            map,
            entries: vec![],
            owner,
            found: vec![],
            deltas: vec![],
            parent: None,
            dead: 0,
            features: 0,
            exchange: Exchange::new(directory, name, shard, shards),
            moves: vec![],
        })
    }

    pub fn len(&self) -> usize {
        self.entries.iter().filter(|entry| entry.owned > 0).count()
    }

    pub fn reset(&self) {
        self.map.reset();
    }

    /// Keep the case if it has reached something new.
    pub fn judge(&mut self, choices: &[u64]) {
        self.map.collect(&mut self.found);
        let size = choices.len();
        let better = |owner: u32, entries: &[Entry]| {
            owner == NONE || entries[owner as usize].choices.len() > size
        };
        let owned = self
            .found
            .iter()
            .filter(|(feature, _)| better(self.owner[*feature as usize], &self.entries))
            .count();
        if owned == 0 || size == 0 {
            return;
        }
        self.exchange.tell(choices);
        let id = self.entries.len();
        self.deltas.clear();
        let mut fresh = vec![];
        for (feature, delta) in self.found.iter() {
            let owner = self.owner[*feature as usize];
            if !better(owner, &self.entries) {
                continue;
            }
            if owner == NONE {
                self.features += 1;
                if *delta != 0 && delta.unsigned_abs() < 1 << 33 && fresh.len() < 6 && !fresh.contains(delta) {
                    fresh.push(*delta);
                }
            } else {
                let entry = &mut self.entries[owner as usize];
                entry.owned -= 1;
                if entry.owned == 0 {
                    entry.deltas = vec![];
                    entry.choices = vec![];
                    self.dead += 1;
                }
            }
            self.owner[*feature as usize] = id as u32;
            // What is new may be close to something.
            if *delta != 0 && delta.unsigned_abs() < 1 << 33 && self.deltas.len() < 64 && !self.deltas.contains(delta) {
                self.deltas.push(*delta);
            }
        }
        self.map.deltas(&mut self.deltas);
        let deltas = self.deltas.clone();
        self.entries.push(Entry { choices: choices.to_vec(), deltas, owned, tries: 0 });
        if let Some(parent) = self.parent {
            self.entries[parent].tries = 0;
        }
        if !fresh.is_empty() && self.moves.len() < 50_000 {
            let shared = Rc::new(choices.to_vec());
            let step = choices.len().div_ceil(100);
            for delta in fresh {
                for at in (0..choices.len()).step_by(step) {
                    self.moves.push((shared.clone(), at, -delta));
                    self.moves.push((shared.clone(), at, delta));
                }
            }
        }
        if self.dead > 32 && self.dead > self.entries.len() / 2 {
            self.compact();
        }
    }

    fn compact(&mut self) {
        let mut places = vec![NONE; self.entries.len()];
        let mut count = 0;
        for (place, entry) in places.iter_mut().zip(self.entries.iter()) {
            if entry.owned > 0 {
                *place = count;
                count += 1;
            }
        }
        self.entries.retain(|entry| entry.owned > 0);
        for owner in self.owner.iter_mut().filter(|owner| **owner != NONE) {
            *owner = places[*owner as usize];
        }
        self.dead = 0;
        self.parent = None;
    }

    fn choose(&mut self, rng: &mut TestRng) -> Option<usize> {
        let count = self.entries.len();
        if count == 0 {
            return None;
        }
        let mut best: Option<usize> = None;
        let recent = rng.next_u64() % 3 == 0;
        for _ in 0..12 {
            let i = match recent {
                true => count - 1 - (rng.next_u64() % 24.min(count as u64)) as usize,
                _ => (rng.next_u64() % count as u64) as usize,
            };
            if self.entries[i].owned == 0 {
                continue;
            }
            match best {
                None => best = Some(i),
                Some(other) if self.entries[i].tries < self.entries[other].tries => best = Some(i),
                _ => {}
            }
            if recent || rng.next_u64() % 2 == 0 {
                break;
            }
        }
        best
    }

    /// The next case, and the choices that lead to it
    pub fn next<C>(&mut self, rng: &mut TestRng, generate: fn(&mut G) -> C) -> (C, Vec<u64>) {
        self.exchange.listen();
        if let Some(choices) = self.exchange.received.pop() {
            self.exchange.foreign = true;
            self.parent = None;
            let mut g = G::mixed(&choices, rng);
            let case = generate(&mut g);
            return (case, g.choices);
        }
        self.exchange.foreign = false;
        if !self.moves.is_empty() && rng.next_u64() % 2 == 0 {
            let i = (rng.next_u64() % self.moves.len() as u64) as usize;
            let (choices, at, delta) = self.moves.swap_remove(i);
            let mut choices = (*choices).clone();
            choices[at] = choices[at].wrapping_add(delta as u64);
            if choices[at] < 1 << 63 {
                self.parent = None;
                let mut g = G::mixed(&choices, rng);
                let case = generate(&mut g);
                return (case, g.choices);
            }
        }
        self.parent = match rng.next_u64() % 12 {
            0 => None,
            _ => self.choose(rng),
        };
        let choices = match self.parent {
            Some(parent) => {
                self.entries[parent].tries += 1;
                self.vary(parent, rng)
            }
            _ => vec![],
        };
        let mut g = G::mixed(&choices, rng);
        let case = generate(&mut g);
        (case, g.choices)
    }

    fn vary(&self, parent: usize, rng: &mut TestRng) -> Vec<u64> {
        let mut below = |n: usize| (rng.next_u64() % n.max(1) as u64) as usize;
        let entry = &self.entries[parent];
        let mut choices = entry.choices.clone();
        let mut rounds = 1;
        while rounds < 8 && below(5) < 2 {
            rounds += 1;
        }
        for _ in 0..rounds {
            let size = choices.len();
            if size == 0 {
                choices.push(0);
                continue;
            }
            let at = below(size);
            let length = match below(3) {
                0 => 1,
                1 => 1 + below(6),
                _ => 1 + below(40),
            };
            let end = (at + length).min(size);
            match below(14) {
                0 | 1 => choices[at] = (below(1 << 62) as u64) << 1 | below(2) as u64,
                2 => choices[at] = below(4) as u64,
                3 => choices[at] = choices[at].wrapping_add(1 + below(4) as u64),
                4 => choices[at] = choices[at].saturating_sub(1 + below(4) as u64),
                5 | 6 | 7 if !entry.deltas.is_empty() => {
                    let delta = entry.deltas[below(entry.deltas.len())] as i128;
                    let value = choices[at] as i128;
                    let (one, other) = (value + delta, value - delta);
                    let first = below(2) == 0;
                    choices[at] = match (one >= 0, other >= 0) {
                        (true, false) => one as u64,
                        (false, true) => other as u64,
                        _ if first => one as u64,
                        _ => other as u64,
                    };
                }
                8 => drop(choices.drain(at..end)),
                9 => {
                    let block = choices[at..end].to_vec();
                    choices.splice(at..at, block);
                }
                10 => {
                    let block: Vec<u64> = (0..length.min(8)).map(|_| below(1 << 62) as u64).collect();
                    choices.splice(at..at, block);
                }
                11 => {
                    let other = below(self.entries.len());
                    let source = &self.entries[other].choices;
                    let from = if below(2) == 0 { at } else { below(source.len()) };
                    let till = (from + length).min(source.len());
                    if from < till {
                        let end = if below(2) == 0 { at } else { end };
                        choices.splice(at..end, source[from..till].iter().copied());
                    }
                }
                12 => {
                    let other = below(self.entries.len());
                    let source = &self.entries[other].choices;
                    let from = if below(2) == 0 { at } else { below(source.len()) };
                    choices.truncate(at);
                    choices.extend(source.get(from..).unwrap_or(&[]));
                }
                _ => {
                    let other = below(size);
                    choices.swap(at, other);
                }
            }
        }
        choices
    }
}
