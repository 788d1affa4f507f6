//! C01 and C02: numbers of dictionaries and of glyph programs.

use super::{each, random, take};
use crate::cffr;
use crate::engine::{sut, Each, Obs, Random, Sub, Verdict};
use crate::gen::{expand, G};
use crate::num::{self, Coded, Meaning, Val};
use crate::t2gen::{self, hex};
use postscript::compact1::Number;

fn check_number(bytes: &[u8], size: usize, expected: Val) -> Verdict {
    let number = take::<Number>(bytes)?.whole(&hex(&bytes[..size.min(40)]), size as u64)?;
    if !expected.same(&number) {
        return Err(format!("{}: expected {expected:?}, found {number:?}", hex(&bytes[..size])));
    }
    Ok(())
}

// Every short encoding

const SHORT: u64 = 256 + 8 * 256 + 65536;

fn short(item: u64, obs: &mut Obs) -> Verdict {
    let mut bytes = match item {
        0..=255 => vec![item as u8],
        256..=2303 => vec![247 + ((item - 256) / 256) as u8, (item % 256) as u8],
        _ => vec![28, ((item - 2304) >> 8) as u8, (item - 2304) as u8],
    };
    let size = bytes.len();
    let first = bytes[0];
    let longer = matches!(first, 28..=30 | 247..=254);
    if size == 1 && longer {
        // The rest is missing.
        obs.label("missing");
        obs.nontrivial();
        return take::<Number>(&bytes)?.rejected("an incomplete number");
    }
    if size > 1 && item % 5 == 0 {
        take::<Number>(&bytes[..size - 1])?.rejected("an incomplete number")?;
    }
    bytes.extend(expand(item * 2 + 1, 1 + item as usize % 6));
    obs.nontrivial();
    if size == 1 && matches!(first, 0..=27 | 31 | 255) {
        obs.label("reserved");
        return take::<Number>(&bytes)?.rejected("a reserved leading byte");
    }
    obs.label("value");
    let Ok((value, _)) = cffr::number(&bytes[..size]) else { unreachable!() };
    check_number(&bytes, size, value)
}

/// All five-byte integers with the same upper half, in a scattered order.
fn long(item: u64, obs: &mut Obs) -> Verdict {
    let high = (item.wrapping_mul(40503) & 0xffff) as u32;
    obs.nontrivial();
    obs.label_if(high >= 0x8000, "negative");
    for low in 0..65536u32 {
        let value = (high << 16 | low) as i32;
        let mut bytes = [0x1d; 8];
        bytes[1..5].copy_from_slice(&value.to_be_bytes());
        check_number(&bytes, 5, Val::Int(value))?;
    }
    Ok(())
}

#[derive(Debug)]
struct Numbers {
    numbers: Vec<Coded>,
    tail: Vec<u8>,
}

fn numbers(g: &mut G, coded: fn(&mut G) -> Coded) -> Numbers {
    let count = 1 + g.len(12);
    let numbers = (0..count).map(|_| coded(g)).collect();
    let tail = g.size(0, 5);
    Numbers { numbers, tail: g.bytes_of(tail) }
}

fn check_numbers(case: &Numbers, obs: &mut Obs) -> Verdict {
    let mut bytes: Vec<u8> = vec![];
    for number in case.numbers.iter() {
        bytes.extend(&number.bytes);
    }
    bytes.extend(&case.tail);
    let mut at = 0;
    for number in case.numbers.iter() {
        check_number(&bytes[at..], number.bytes.len(), number.value)?;
        // Cut short
        if number.bytes.len() > 1 {
            take::<Number>(&number.bytes[..number.bytes.len() - 1])?
                .rejected("an incomplete number")?;
        }
        at += number.bytes.len();
        let (made, same) = match number.value {
            Val::Int(value) => (sut(|| Number::from(value))?, Number::Integer(value)),
            Val::Real(value) => (sut(|| Number::from(value))?, Number::Real(value)),
        };
        if made != same {
            return Err(format!("{:?} made into {made:?}", number.value));
        }
        match number.value {
            Val::Int(_) => obs.label("integer"),
            Val::Real(value) => {
                obs.label("real");
                obs.label_if(value == 0.0, "zero");
                obs.label_if(value != 0.0 && value.abs() < f32::MIN_POSITIVE, "subnormal");
                obs.label_if(number.bytes.len() > 12, "many digits");
            }
        }
    }
    obs.nontrivial();
    Ok(())
}

fn integers(g: &mut G) -> Numbers {
    numbers(g, |g| {
        let value = g.int32();
        num::coded_int(g, value)
    })
}

fn reals(g: &mut G) -> Numbers {
    numbers(g, num::coded_real)
}

// Arbitrary strings of nibbles

#[derive(Debug)]
struct Nibbles {
    nibbles: Vec<u8>,
    spelled: String,
}

fn nibbles(g: &mut G) -> Nibbles {
    let mut nibbles = if g.chance(1, 3) {
        let count = g.size(0, 8);
        (0..count).map(|_| [1, 0, 9, 0xa, 0xb, 0xc, 0xe, 0xd, 5][g.weighted(&[4, 2, 2, 3, 2, 2, 2, 1, 2])]).collect()
    } else {
        num::spelling(g)
    };
    if g.chance(3, 4) {
        for _ in 0..g.size(1, 3) {
            let value = g.pick(&[0xa, 0xb, 0xc, 0xe, 0xd, 0, 7]);
            match g.below(3) {
                0 => {
                    let i = g.size(0, nibbles.len());
                    nibbles.insert(i, value);
                }
                1 if !nibbles.is_empty() => {
                    let i = g.size(0, nibbles.len() - 1);
                    nibbles[i] = value;
                }
                _ if !nibbles.is_empty() => {
                    let i = g.size(0, nibbles.len() - 1);
                    nibbles.remove(i);
                }
                _ => {}
            }
        }
    }
    let spelled = num::spell(&nibbles);
    Nibbles { nibbles, spelled }
}

fn check_nibbles(case: &Nibbles, obs: &mut Obs) -> Verdict {
    let mut bytes = num::pack(&case.nibbles);
    let size = bytes.len();
    bytes.extend([0x8b, 0xff]);
    let what = format!("\"{}\"", case.spelled);
    if case.nibbles.contains(&0xd) {
        obs.nontrivial();
        obs.label("reserved nibble");
        return take::<Number>(&bytes)?.rejected(&what);
    }
    match num::meaning(&case.nibbles) {
        Meaning::Decimal(decimal) if decimal.overflows() => {
            obs.label("overflow");
            take::<Number>(&bytes)?;
            Ok(())
        }
        Meaning::Decimal(decimal) => {
            obs.nontrivial();
            obs.label("well-formed");
            match take::<Number>(&bytes)?.whole(&what, size as u64)? {
                Number::Real(value) if decimal.nearest(value) => Ok(()),
                number => Err(format!("{what}: read as {number:?}")),
            }
        }
        Meaning::Odd => {
            obs.label("odd");
            take::<Number>(&bytes)?;
            Ok(())
        }
        Meaning::Nonsense => {
            obs.nontrivial();
            obs.label("nonsense");
            take::<Number>(&bytes)?.rejected(&what)
        }
    }
}

pub fn c01() -> Vec<Box<dyn Sub>> {
    vec![
        each(Each {
            name: "short",
            rule: "every leading byte, every two-byte and every three-byte integer, with arbitrary bytes after it; all are non-trivial",
            quick: SHORT,
            thorough: SHORT,
            check: short,
        }),
        each(Each {
            name: "long",
            rule: "blocks of 65536 five-byte integers with a common upper half (the thorough tier covers all of them); all are non-trivial",
            quick: 64,
            thorough: 65536,
            check: long,
        }),
        random(Random {
            name: "integers",
            rule: "sequences of integers in any encoding that fits, compared with what was encoded; all are non-trivial",
            quick: 30_000,
            thorough: 2_000_000,
            generate: integers,
            check: check_numbers,
        }),
        random(Random {
            name: "reals",
            rule: "sequences of spelled reals, compared with the nearest single-precision value by exact integer arithmetic; all are non-trivial",
            quick: 30_000,
            thorough: 3_000_000,
            generate: reals,
            check: check_numbers,
        }),
        random(Random {
            name: "nibbles",
            rule: "mutated and arbitrary strings of nibbles; non-trivial unless the value overflows or the spelling is of an unspecified kind",
            quick: 60_000,
            thorough: 6_000_000,
            generate: nibbles,
            check: check_nibbles,
        }),
    ]
}

// Glyph programs

/// Observe numbers as the operands of a sequence of horizontal and vertical lines.
fn observe(numbers: &[(f32, Vec<u8>)]) -> Verdict {
    assert!(numbers.len() <= 48);
    let mut code = vec![];
    for (_, bytes) in numbers {
        code.extend(bytes);
    }
    code.extend([0x06, 139 + 7, 0x16, 0x0e]);
    let expected: Vec<f32> = numbers.iter().map(|number| number.0).collect();
    let run = t2gen::interpret(&code, &[], &[], 4)?;
    let wrong = || format!("{}: expected the operands {expected:?}, found {run:?}", hex(&code));
    match &run.steps[..] {
        [one, two]
            if one.code == 6
                && one.operands == expected
                && two.code == 0x16
                && two.operands == [7.0]
                && one.width.is_none()
                && run.end == Ok(None) =>
        {
            Ok(())
        }
        _ => Err(wrong()),
    }
}

const SHORT2: u64 = 215 + 8 * 256 + 65536;

fn short2(item: u64, obs: &mut Obs) -> Verdict {
    obs.nontrivial();
    let (value, bytes) = match item {
        0..=214 => (item as i32 - 107, vec![item as u8 + 32]),
        215..=2262 => {
            let (lead, next) = (((item - 215) / 256) as i32, ((item - 215) % 256) as i32);
            let value = if lead < 4 { lead * 256 + next + 108 } else { -(lead - 4) * 256 - next - 108 };
            (value, vec![247 + lead as u8, next as u8])
        }
        _ => {
            let raw = (item - 2263) as u16;
            (raw as i16 as i32, vec![28, (raw >> 8) as u8, raw as u8])
        }
    };
    observe(&[(value as f32, bytes)])
}

fn fixed(raw: i32) -> (f32, Vec<u8>) {
    let mut bytes = vec![255];
    bytes.extend(raw.to_be_bytes());
    (t2gen::fixed_value(raw), bytes)
}

/// Blocks of 16.16 numbers with the same integer part.
fn fixed_block(item: u64, obs: &mut Obs) -> Verdict {
    obs.nontrivial();
    let high = (item.wrapping_mul(40503) & 0xffff) as u32;
    obs.label_if(high >= 0x8000, "negative");
    let mut low = 0u32;
    while low < 65536 {
        let numbers: Vec<_> =
            (low..65536.min(low + 48)).map(|low| fixed((high << 16 | low) as i32)).collect();
        observe(&numbers)?;
        low += 48;
    }
    Ok(())
}

#[derive(Debug)]
struct Operands {
    numbers: Vec<(f32, Vec<u8>)>,
}

fn operands(g: &mut G) -> Operands {
    let count = 1 + g.len(47);
    Operands { numbers: (0..count).map(|_| t2gen::number(g)).collect() }
}

fn check_operands(case: &Operands, obs: &mut Obs) -> Verdict {
    obs.nontrivial();
    obs.label_if(case.numbers.len() > 12, "many");
    obs.label_if(case.numbers.iter().any(|number| number.1[0] == 255), "16.16");
    obs.label_if(case.numbers.iter().any(|number| number.0.fract() != 0.0), "fraction");
    observe(&case.numbers)
}

pub fn c02() -> Vec<Box<dyn Sub>> {
    vec![
        each(Each {
            name: "short",
            rule: "every one-, two- and three-byte number; all are non-trivial",
            quick: SHORT2,
            thorough: SHORT2,
            check: short2,
        }),
        each(Each {
            name: "fixed",
            rule: "blocks of 65536 16.16 numbers with a common integer part (the thorough tier covers all of them); all are non-trivial",
            quick: 64,
            thorough: 65536,
            check: fixed_block,
        }),
        random(Random {
            name: "operands",
            rule: "lists of up to 48 numbers in any encoding that fits, followed by operators; all are non-trivial",
            quick: 100_000,
            thorough: 5_000_000,
            generate: operands,
            check: check_operands,
        }),
    ]
}
