//! C03 and C04: dictionaries and the lookup of their entries.

use super::{each, random, take};
use crate::cff::{self, equal, view_map, view_number, IndexPlan, Map};
use crate::engine::{sut, Each, Obs, Random, Sub, Verdict};
use crate::gen::G;
use crate::num::{coded, coded_int, same_all, sibling, Coded, Val};
use crate::ops;
use crate::t2gen::hex;
use postscript::compact1::index::Dictionaries;
use postscript::compact1::Operations;

pub struct Entries(pub Vec<(u16, Vec<Coded>)>);

impl std::fmt::Debug for Entries {
    fn fmt(&self, formatter: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        formatter
            .debug_list()
            .entries(self.0.iter().map(|(code, operands)| {
                let name = ops::dictionary(*code).map(|entry| entry.1);
                format!("{operands:?} {name:?}")
            }))
            .finish()
    }
}

impl Entries {
    pub fn bytes(&self) -> Vec<u8> {
        self.0.iter().flat_map(|(code, operands)| cff::entry_bytes(*code, operands)).collect()
    }

    pub fn map(&self) -> Map {
        self.0
            .iter()
            .map(|(code, operands)| (*code, operands.iter().map(|operand| operand.value).collect()))
            .collect()
    }

    fn repeated(&self) -> bool {
        (1..self.0.len()).any(|i| self.0[..i].iter().any(|entry| entry.0 == self.0[i].0))
    }
}

fn entries(g: &mut G) -> Entries {
    let count = match g.weighted(&[5, 4, 1]) {
        0 => g.size(0, 3),
        1 => g.size(1, 12),
        _ => g.size(1, 60),
    };
    let mut list: Vec<(u16, Vec<Coded>)> = vec![];
    for _ in 0..count {
        let code = if !list.is_empty() && g.chance(1, 6) {
            list[g.size(0, list.len() - 1)].0
        } else {
            g.pick(&ops::DICTIONARY).0
        };
        list.push((code, cff::operands(g)));
    }
    Entries(list)
}

fn compare(what: &str, expected: &Map, operations: &Operations) -> Verdict {
    let found = view_map(operations)?;
    for (code, operands) in expected {
        match found.get(code) {
            None => return Err(format!("{what}: no entry for {code:#x}")),
            Some(other) if other != operands => {
                return Err(format!("{what}: {code:#x}: expected {operands:?}, found {other:?}"))
            }
            _ => {}
        }
    }
    equal(what, expected, &found)
}

fn check_dictionary(case: &Entries, obs: &mut Obs) -> Verdict {
    let bytes = case.bytes();
    let operations = take::<Operations>(&bytes)?.whole("dictionary", bytes.len() as u64)?;
    obs.nontrivial_if(!case.0.is_empty());
    obs.label_if(case.repeated(), "repeated");
    obs.label_if(case.0.iter().any(|entry| entry.0 > 0xff), "two-byte operator");
    obs.label_if(case.0.iter().any(|entry| entry.1.is_empty()), "no operands");
    obs.label_if(case.0.iter().any(|entry| entry.1.len() > 12), "many operands");
    obs.label_if(case.0.iter().any(|entry| entry.1.len() > 48), "more than 48 operands");
    compare("dictionary", &case.map(), &operations)
}

// Every operator

/// Items 0..256 are single-byte operators, items 256..512 are two-byte ones; in
/// each of four surroundings.
fn operator(item: u64, obs: &mut Obs) -> Verdict {
    let (item, surroundings) = (item % 512, item / 512);
    let code = if item < 256 { item as u16 } else { 0x0c00 | (item - 256) as u16 };
    if matches!(item, 12 | 28..=30 | 32..=254) {
        // Not an operator
        return Ok(());
    }
    obs.nontrivial();
    let one = Coded { bytes: vec![28, 5, 57], value: Val::Int(1337) };
    let two = Coded { bytes: vec![0x1e, 0xe2, 0xa2, 0x5f], value: Val::Real(-2.25) };
    let mut list = vec![];
    let known = ops::dictionary(code).is_some();
    if surroundings & 1 > 0 {
        list.push((if code == 5 { 6 } else { 5 }, vec![two.clone(), two.clone()]));
    }
    if surroundings & 2 > 0 {
        list.push((code, vec![]));
        list.push((if code == 0x0c22 { 0x0c23 } else { 0x0c22 }, vec![one.clone()]));
    } else {
        list.push((code, vec![one.clone(), two.clone(), one.clone()]));
    }
    let case = Entries(list);
    let bytes = case.bytes();
    if !known {
        obs.label("reserved");
        return take::<Operations>(&bytes)?.rejected(&hex(&bytes));
    }
    obs.label("known");
    let operations = take::<Operations>(&bytes)?.whole(&hex(&bytes), bytes.len() as u64)?;
    // The very operator of the code, not just the operators in some order
    let expected = ops::dictionary(code).unwrap().1;
    let stored = sut(|| operations.contains_key(&expected))?;
    if !stored {
        return Err(format!("{}: no entry for {expected:?}", hex(&bytes)));
    }
    compare(&hex(&bytes), &case.map(), &operations)
}

// Something reserved among well-formed entries

#[derive(Debug)]
struct Reserved {
    entries: Entries,
    /// The entry before which it comes, after how many of its operands
    place: (usize, usize),
    bytes: Vec<u8>,
}

fn reserved(g: &mut G) -> Reserved {
    let entries = entries(g);
    let entry = g.size(0, entries.0.len());
    let operand = entries.0.get(entry).map_or(0, |entry| g.size(0, entry.1.len()));
    let bytes = if g.chance(1, 2) {
        vec![g.pick(&[22, 23, 24, 25, 26, 27, 31, 255])]
    } else {
        let mut second = g.byte();
        while ops::dictionary(0x0c00 | second as u16).is_some() {
            second = second.wrapping_add(1);
        }
        vec![12, second]
    };
    Reserved { entries, place: (entry, operand), bytes }
}

fn check_reserved(case: &Reserved, obs: &mut Obs) -> Verdict {
    let mut bytes = vec![];
    for (i, (code, operands)) in case.entries.0.iter().enumerate() {
        if i == case.place.0 {
            bytes.extend(operands[..case.place.1].iter().flat_map(|operand| operand.bytes.clone()));
            bytes.extend(&case.bytes);
            bytes.extend(cff::entry_bytes(*code, &operands[case.place.1..]));
        } else {
            bytes.extend(cff::entry_bytes(*code, operands));
        }
    }
    if case.place.0 >= case.entries.0.len() {
        bytes.extend(&case.bytes);
    }
    obs.nontrivial();
    obs.label_if(case.place.1 > 0, "among operands");
    obs.label_if(case.bytes.len() > 1, "two-byte operator");
    take::<Operations>(&bytes)?.rejected(&hex(&bytes))
}

// Indices of dictionaries

#[derive(Debug)]
struct Many {
    dictionaries: Vec<Entries>,
    size: u8,
}

/// A copy that differs in one operand, if in anything, and is as long.
fn relative(g: &mut G, entries: &Entries) -> Entries {
    let mut list = entries.0.clone();
    if !list.is_empty() && g.chance(7, 8) {
        let last = list.len() - 1;
        let i = last - g.size(0, last);
        let operands = &mut list[i].1;
        if !operands.is_empty() {
            let last = operands.len() - 1;
            let j = last - g.size(0, last);
            operands[j] = sibling(g, &operands[j]);
        }
    }
    Entries(list)
}

fn many(g: &mut G) -> Many {
    let count = g.size(0, 6);
    let mut dictionaries: Vec<Entries> = vec![];
    for i in 0..count {
        if i > 0 && g.chance(1, 3) {
            let copy = relative(g, &dictionaries[i - 1]);
            dictionaries.push(copy);
        } else {
            dictionaries.push(entries(g));
        }
    }
    Many {
        dictionaries,
        size: cff::offset_size(g),
    }
}

fn check_many(case: &Many, obs: &mut Obs) -> Verdict {
    let objects: Vec<_> = case.dictionaries.iter().map(|entries| entries.bytes()).collect();
    let bytes = IndexPlan { objects, size: case.size }.bytes();
    let index = take::<Dictionaries>(&bytes)?.whole("index", bytes.len() as u64)?;
    obs.nontrivial_if(case.dictionaries.len() > 1);
    let all = sut(|| Vec::<Operations>::try_from(&index).map_err(|error| error.to_string()))?
        .map_err(|error| format!("rejected: {error}"))?;
    equal("number of dictionaries", &case.dictionaries.len(), &all.len())?;
    for (i, entries) in case.dictionaries.iter().enumerate() {
        compare(&format!("dictionary {i}"), &entries.map(), &all[i])?;
        let one = sut(|| index.get(i).map_err(|error| error.to_string()))?
            .map_err(|error| format!("dictionary {i} alone: rejected: {error}"))?;
        compare(&format!("dictionary {i} alone"), &entries.map(), &one)?;
    }
    Ok(())
}

const CROWDS: [usize; 14] =
    [48, 49, 64, 128, 255, 256, 257, 513, 514, 1024, 4097, 65535, 65536, 70000];

/// Many entries, or an entry with many operands
fn check_crowd(item: u64, obs: &mut Obs) -> Verdict {
    let count = CROWDS[item as usize % CROWDS.len()];
    let style = item as usize / CROWDS.len();
    obs.nontrivial();
    let number = |i: usize| {
        let value = i as i32 * 7 - 300;
        let widths = crate::num::int_widths(value);
        let width = widths[i % widths.len()];
        Coded { bytes: crate::num::encode_int(value, width), value: Val::Int(value) }
    };
    let code = |i: usize| ops::DICTIONARY[i % ops::DICTIONARY.len()].0;
    let list = match style {
        // Every operator again and again, so that the last ones hold
        0 => (0..count).map(|i| (code(i), vec![number(i)])).collect(),
        // A single operator at the beginning and at the end
        1 => {
            let mut list: Vec<_> = (0..count).map(|i| (0x14, vec![number(i)])).collect();
            list[0].0 = 0x15;
            list[count - 1].0 = 0x0c08;
            list
        }
        // A number of operands
        2 => vec![(0x14, vec![number(1)]), (0x0e, (0..count).map(number).collect()), (0x15, vec![])],
        // Two numbers of operands, both of which hold in the end
        _ => {
            let list = |from: usize| (from..from + count).map(number).collect();
            vec![(0x06, vec![number(1)]), (0x06, list(0)), (0x0c15, list(1)), (0x07, vec![])]
        }
    };
    let case = Entries(list);
    let bytes = case.bytes();
    let operations = take::<Operations>(&bytes)?.whole("dictionary", bytes.len() as u64)?;
    compare("dictionary", &case.map(), &operations)
        .map_err(|message| message.chars().take(300).collect::<String>())
}

pub fn c03() -> Vec<Box<dyn Sub>> {
    vec![
        each(Each {
            name: "crowd",
            rule: "up to 70000 entries, or entries with up to 70000 operands; all count",
            quick: 4 * CROWDS.len() as u64,
            thorough: 4 * CROWDS.len() as u64,
            check: check_crowd,
        }),
        random(Random {
            name: "dictionary",
            rule: "dictionaries of up to 60 entries with up to 600 operands each, in any encoding; non-trivial with at least one entry",
            quick: 30_000,
            thorough: 2_000_000,
            generate: entries,
            check: check_dictionary,
        }),
        each(Each {
            name: "operator",
            rule: "every one- and two-byte operator, known and reserved, in four surroundings; non-trivial if it is an operator",
            quick: 2048,
            thorough: 2048,
            check: operator,
        }),
        random(Random {
            name: "reserved",
            rule: "a reserved operator or byte anywhere in a well-formed dictionary, which has to be rejected; all are non-trivial",
            quick: 20_000,
            thorough: 1_000_000,
            generate: reserved,
            check: check_reserved,
        }),
        random(Random {
            name: "index",
            rule: "indices of dictionaries, each read from the index together and alone; non-trivial with at least two",
            quick: 8_000,
            thorough: 500_000,
            generate: many,
            check: check_many,
        }),
        super::within::c03(),
    ]
}

// Lookups

fn lookup(what: &str, map: &Map, operations: &Operations) -> Verdict {
    for (code, operator, default) in ops::DICTIONARY[..ops::DICTIONARY_COUNT].iter() {
        let expected: Option<&[Val]> = match map.get(code) {
            Some(operands) => Some(operands),
            None if default.is_empty() => None,
            None => Some(default),
        };
        let wrong = |found: String| {
            Err(format!("{what}: {operator:?}: expected {expected:?}, found {found}"))
        };
        let found = sut(|| operations.get(*operator).map(|operands| operands.to_vec()))?;
        match (expected, &found) {
            (None, None) => {}
            (Some(one), Some(other)) if same_all(one, other) => {}
            _ => return wrong(format!("{found:?}")),
        }
        // One operand, or two of them
        let length = expected.map_or(0, |operands| operands.len());
        let single = sut(|| operations.get_single(*operator))?.map(view_number);
        if length < 2 && single != expected.and_then(|operands| operands.first().copied()) {
            return wrong(format!("a single {single:?}"));
        }
        let double = sut(|| operations.get_double(*operator))?
            .map(|(one, two)| (view_number(one), view_number(two)));
        let expected_double = match expected {
            Some([one, two]) => Some((*one, *two)),
            _ => None,
        };
        if length < 3 && double != expected_double {
            return wrong(format!("a pair {double:?}"));
        }
    }
    Ok(())
}

#[derive(Debug)]
struct Sparse(Entries);

/// Entries like their defaults or unlike.
fn sparse(g: &mut G) -> Sparse {
    let count = match g.weighted(&[3, 3, 1]) {
        0 => g.size(0, 4),
        1 => g.size(0, 20),
        _ => g.size(30, 70),
    };
    let mut list = vec![];
    for _ in 0..count {
        let entry = &ops::DICTIONARY[g.size(0, ops::DICTIONARY_COUNT - 1)];
        let length = match g.weighted(&[2, 2, 2, 2]) {
            0 => 0,
            1 => entry.2.len(),
            2 => g.size(0, 3),
            _ => entry.2.len() + 1,
        };
        let operands = (0..length)
            .map(|_| {
                if g.chance(1, 2) {
                    coded(g)
                } else {
                    let value = g.range(0, 2) as i32;
                    coded_int(g, value)
                }
            })
            .collect();
        list.push((entry.0, operands));
    }
    Sparse(Entries(list))
}

fn check_sparse(case: &Sparse, obs: &mut Obs) -> Verdict {
    let bytes = case.0.bytes();
    let operations = take::<Operations>(&bytes)?.whole("dictionary", bytes.len() as u64)?;
    let map = case.0.map();
    obs.nontrivial_if(!map.is_empty() && map.len() < ops::DICTIONARY_COUNT);
    obs.label_if(
        map.iter().any(|(code, operands)| {
            operands.is_empty() && !ops::dictionary(*code).unwrap().2.is_empty()
        }),
        "empty instead of the default",
    );
    lookup("dictionary", &map, &operations)
}

fn alone(item: u64, obs: &mut Obs) -> Verdict {
    obs.nontrivial();
    let mut list = vec![];
    if item > 0 {
        let (item, length) = ((item - 1) / 5, (item - 1) % 5);
        let entry = &ops::DICTIONARY[item as usize];
        let operand = Coded { bytes: vec![28, 5, 57], value: Val::Int(1337) };
        list.push((entry.0, vec![operand; length as usize]));
    }
    let case = Entries(list);
    let bytes = case.bytes();
    let operations = take::<Operations>(&bytes)?.whole("dictionary", bytes.len() as u64)?;
    lookup(&hex(&bytes), &case.map(), &operations)
}

pub fn c04() -> Vec<Box<dyn Sub>> {
    vec![
        each(Each {
            name: "alone",
            rule: "the empty dictionary and those with one entry of zero to four operands, with all 52 lookups in each; all are non-trivial",
            quick: 1 + 52 * 5,
            thorough: 1 + 52 * 5,
            check: alone,
        }),
        random(Random {
            name: "lookups",
            rule: "dictionaries with any entries, with all 52 lookups in each; non-trivial if some operators are present and some are not",
            quick: 20_000,
            thorough: 1_000_000,
            generate: sparse,
            check: check_sparse,
        }),
    ]
}
