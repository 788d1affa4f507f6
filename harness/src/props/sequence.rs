//! C21: tables laid end to end.

use super::random;
use super::tables::blank;
use crate::cff::{
    self, equal, index_bytes, view_charset, view_encoding, view_index, view_select, Charset, Enc,
    IndexPlan, Select,
};
use crate::engine::{sut, Obs, Random, Sub, Verdict};
use crate::gen::G;
use crate::num::{coded, Coded};
use crate::tapes::{Image, Manner, Tape};
use postscript::compact1::font_set::character_id_keyed;
use postscript::compact1::index::{
    CharacterStrings, Dictionaries, Index, Names, Strings, Subroutines,
};
use postscript::compact1::{CharacterSet, Encoding, Header, Number, Offset};
use postscript::{value, walue};
use std::io::{Seek, SeekFrom};

#[derive(Debug)]
enum Item {
    Header([u8; 4]),
    Number(Coded),
    Offset(u32, u8),
    Index(u64, IndexPlan),
    Charset(Charset, usize),
    Encoding(Enc),
    Select(Select, usize),
}

#[derive(Debug)]
struct Sequence {
    items: Vec<Item>,
    manner: Manner,
    /// Where the next item starts is where the last one ended; otherwise skip
    /// some bytes by seeking
    skip: Vec<u8>,
}

fn item(g: &mut G) -> Item {
    match g.below(7) {
        0 => Item::Header([g.byte(), g.byte(), g.byte(), g.byte()]),
        1 => Item::Number(coded(g)),
        2 => {
            let size = g.size(1, 4) as u8;
            let value = g.below(1 << (8 * size)) as u32;
            Item::Offset(value, size)
        }
        3 => {
            let kind = g.below(6);
            let count = match g.weighted(&[6, 2, 1]) {
                0 => g.size(0, 4),
                1 => g.size(0, 30),
                _ => g.pick(&[255, 256, 300]),
            };
            Item::Index(kind, cff::index(g, count))
        }
        4 => {
            let glyphs = g.pick(&[1, 2, 3, 10, 256, 257, 300]);
            Item::Charset(cff::charset(g, glyphs), glyphs)
        }
        5 => Item::Encoding(cff::encoding(g)),
        _ => {
            let glyphs = g.pick(&[1, 2, 3, 10, 256, 257, 300]);
            Item::Select(cff::select(g, glyphs, 7), glyphs)
        }
    }
}

pub fn base(g: &mut G) -> u64 {
    match g.weighted(&[3, 2, 2]) {
        0 => 0,
        1 => g.below(5000),
        _ => g.pick(&[
            1 << 16,
            (1 << 31) - 5,
            1 << 31,
            (1 << 32) - 3,
            1 << 32,
            (1 << 32) + 17,
            (1 << 40) + 1,
            (1 << 53) + 1,
            1 << 60,
        ]),
    }
}

fn sequence(g: &mut G) -> Sequence {
    let count = 1 + g.len(14);
    let items: Vec<_> = (0..count).map(|_| item(g)).collect();
    let skip = items.iter().map(|_| if g.chance(1, 6) { g.byte() % 40 } else { 0 }).collect();
    let manner = Manner {
        base: base(g),
        after: g.below(4),
        pieces: if g.chance(1, 3) { (0..3).map(|_| g.size(1, 5)).collect() } else { vec![] },
        ..Manner::default()
    };
    Sequence { items, manner, skip }
}

fn bytes(item: &Item) -> Vec<u8> {
    match item {
        Item::Header(bytes) => bytes.to_vec(),
        Item::Number(number) => number.bytes.clone(),
        Item::Offset(value, size) => value.to_be_bytes()[4 - *size as usize..].to_vec(),
        Item::Index(_, plan) => index_bytes(&plan.table()),
        Item::Charset(table, _) => table.bytes(),
        Item::Encoding(table) => table.bytes(),
        Item::Select(table, _) => table.bytes(),
    }
}

fn read<T: value::Read>(tape: &mut Tape) -> Result<T, String> {
    sut(|| T::read(tape).map_err(|error| error.to_string()))?
}

fn given<'l, T: walue::Read<'l>>(tape: &mut Tape, parameter: T::Parameter) -> Result<T, String> {
    sut(|| T::read(tape, parameter).map_err(|error| error.to_string()))?
}

fn check_item(item: &Item, tape: &mut Tape) -> Verdict {
    match item {
        Item::Header(bytes) => {
            let header: Header = read(tape)?;
            let found = [header.major, header.minor, header.header_size, header.offset_size];
            equal("header", bytes, &found)
        }
        Item::Number(number) => {
            let found: Number = read(tape)?;
            if !number.value.same(&found) {
                return Err(format!("expected {:?}, found {found:?}", number.value));
            }
            Ok(())
        }
        Item::Offset(value, size) => {
            let found: Offset = given(tape, *size)?;
            equal("offset", value, &found.0)
        }
        Item::Index(kind, plan) => {
            let index: Index = match kind {
                0 => read::<Index>(tape)?,
                1 => read::<Names>(tape)?.0,
                2 => read::<Dictionaries>(tape)?.0,
                3 => read::<Strings>(tape)?.0,
                4 => read::<Subroutines>(tape)?.0,
                _ => given::<CharacterStrings>(tape, 2)?.0,
            };
            equal("index", &plan.table(), &view_index(&index)?)
        }
        Item::Charset(table, glyphs) => {
            let found: CharacterSet = given(tape, *glyphs)?;
            equal("character set", table, &view_charset(&found))
        }
        Item::Encoding(table) => {
            let found: Encoding = read(tape)?;
            equal("encoding", table, &view_encoding(&found)?)
        }
        Item::Select(table, glyphs) => {
            let strings = blank(*glyphs)?;
            let found: character_id_keyed::Encoding = given(tape, &strings)?;
            equal("mapping", table, &view_select(&found)?)
        }
    }
}

fn check(case: &Sequence, obs: &mut Obs) -> Verdict {
    let mut image = Image::default();
    let mut places = vec![];
    for (i, item) in case.items.iter().enumerate() {
        image.gap(case.skip[i] as u64, i as u64 * 77 + 1);
        let start = image.size;
        image.push(&bytes(item));
        places.push((start, image.size));
    }
    obs.nontrivial_if(case.items.len() > 1);
    obs.label_if(case.manner.base >= 1 << 32, "beyond 4 GiB");
    obs.label_if(case.manner.base == 0, "at the start");
    let mut tape = Tape::new(&image, case.manner.clone());
    for (i, item) in case.items.iter().enumerate() {
        obs.label(match item {
            Item::Header(_) => "header",
            Item::Number(_) => "number",
            Item::Offset(..) => "offset",
            Item::Index(..) => "index",
            Item::Charset(..) => "character set",
            Item::Encoding(_) => "encoding",
            Item::Select(..) => "mapping",
        });
        if case.skip[i] > 0 {
            tape.seek(SeekFrom::Current(case.skip[i] as i64)).unwrap();
        }
        check_item(item, &mut tape).map_err(|message| format!("item {i}: {message}"))?;
        let expected = case.manner.base + places[i].1;
        if tape.position != expected {
            return Err(format!(
                "item {i}: the stream is left at {} instead of {expected}, {} bytes after the start of the item",
                tape.position,
                tape.position as i128 - (case.manner.base + places[i].0) as i128
            ));
        }
    }
    Ok(())
}

/// One large table between two numbers
fn large(g: &mut G) -> Sequence {
    let number = |g: &mut G| Item::Number(coded(g));
    let middle = match g.below(4) {
        0 | 1 => {
            let near = g.pick(&[255, 256, 4096, 32768, 65535, 65536, 131072, 200_000, 300_000]);
            let total = near + g.size(0, 4) - 2;
            let objects = if g.chance(1, 2) {
                // A few large objects
                let first = g.size(0, total);
                vec![vec![g.byte(); first], vec![g.byte(); total - first]]
            } else {
                let count = g.pick(&[255, 256, 4096, 32767, 32768, 65535]);
                let size = total / count;
                (0..count).map(|i| vec![i as u8; size + (i < total % count) as usize]).collect()
            };
            let size = if total >= 65535 { g.size(3, 4) } else { g.size(2, 4) };
            Item::Index(g.below(6), IndexPlan { objects, size: size as u8 })
        }
        2 => {
            let glyphs = g.pick(&[256, 4096, 32767, 32768, 32769, 65534, 65535]);
            Item::Charset(cff::charset(g, glyphs), glyphs)
        }
        _ => {
            let glyphs = g.pick(&[256, 4096, 32767, 32768, 32769, 65534, 65535]);
            Item::Select(cff::select(g, glyphs, 7), glyphs)
        }
    };
    let items = vec![number(g), middle, number(g)];
    let manner = Manner { base: base(g), after: g.below(4), ..Manner::default() };
    Sequence { skip: vec![0; items.len()], items, manner }
}

pub fn c21() -> Vec<Box<dyn Sub>> {
    vec![random(Random {
        name: "large",
        rule: "one large table, of up to 300000 bytes, 65535 objects or 65535 glyphs, between two numbers; all are non-trivial",
        quick: 1_500,
        thorough: 100_000,
        generate: large,
        check,
    }),
    random(Random {
        name: "sequence",
        rule: "headers, numbers, offsets, indices, character sets, encodings and mappings laid end to end in a stream, at any position of it; non-trivial with two items or more",
        quick: 20_000,
        thorough: 1_000_000,
        generate: sequence,
        check,
    })]
}
