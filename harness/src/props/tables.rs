//! C05, C07, C08 and C09: indices, strings, character sets, encodings.

use super::{each, random, take, take_given};
use crate::cff::{
    self, charset_format, equal, index_bytes, view_charset, view_encoding, view_index, view_select,
    Charset, Enc, IndexPlan, Select, Table,
};
use crate::engine::{sut, Each, Obs, Random, Sub, Verdict};
use crate::gen::{expand, G};
use crate::tables::*;
use postscript::compact1::font_set::character_id_keyed;
use postscript::compact1::index::{
    CharacterStrings, Dictionaries, Index, Names, Strings, Subroutines,
};
use postscript::compact1::{CharacterSet, Encoding, Number, StringID};

/// Read an index of one of six kinds.
pub fn read_index(kind: u64, bytes: &[u8]) -> Result<super::Taken<Index>, String> {
    macro_rules! read(
        ($kind:ident) => ({
            let taken = take::<$kind>(bytes)?;
            super::Taken { result: taken.result.map(|index| index.0), position: taken.position }
        });
    );
    Ok(match kind {
        0 => take::<Index>(bytes)?,
        1 => read!(Names),
        2 => read!(Dictionaries),
        3 => read!(Strings),
        4 => read!(Subroutines),
        _ => {
            let taken = take_given::<CharacterStrings>(bytes, 2)?;
            super::Taken { result: taken.result.map(|index| index.0), position: taken.position }
        }
    })
}

fn check_table(kind: u64, table: &Table, tail: &[u8]) -> Verdict {
    let mut bytes = index_bytes(table);
    let size = bytes.len();
    bytes.extend(tail);
    let index = read_index(kind, &bytes)?.whole("index", size as u64)?;
    let found = view_index(&index)?;
    if table.objects.len() == found.objects.len() {
        for (i, (one, other)) in table.objects.iter().zip(found.objects.iter()).enumerate() {
            equal(&format!("object {i}"), one, other)?;
        }
    }
    equal("index", table, &found)
}

#[derive(Debug)]
struct Indexed {
    kind: u64,
    plan: IndexPlan,
    tail: Vec<u8>,
}

fn indexed(g: &mut G) -> Indexed {
    let kind = g.below(6);
    let count = match g.weighted(&[60, 12, 1]) {
        0 => cff::count(g, 0),
        1 => g.size(0, 1000),
        _ => g.pick(&[65535, 65534, 32768, 32767, 10000]),
    };
    let tail = g.size(0, 6);
    Indexed { kind, plan: cff::index(g, count), tail: g.bytes_of(tail) }
}

fn check_indexed(case: &Indexed, obs: &mut Obs) -> Verdict {
    let table = case.plan.table();
    obs.nontrivial_if(!table.objects.is_empty());
    obs.label_if(table.objects.is_empty(), "empty");
    obs.label(match table.size {
        0 => "offset size none",
        1 => "offset size 1",
        2 => "offset size 2",
        3 => "offset size 3",
        _ => "offset size 4",
    });
    obs.label_if(table.objects.iter().any(|object| object.is_empty()), "empty object");
    obs.label_if(table.objects.len() > 255, "more than 255 objects");
    obs.label_if(table.objects.len() > 32767, "more than 32767 objects");
    check_table(case.kind, &table, &case.tail)
}

/// Sizes at the limits of the offset sizes and counts at theirs.
fn extreme(item: u64, obs: &mut Obs) -> Verdict {
    obs.nontrivial();
    let (count, total, size) = [
        (1, 254, 1),
        (1, 255, 2),
        (3, 254, 1),
        (2, 65534, 2),
        (1, 65535, 3),
        (255, 65534, 2),
        (256, 65536, 3),
        (1, 0xfffffe, 3),
        (1, 0xffffff, 4),
        (2, 0x1000001, 4),
        (65535, 0, 1),
        (65535, 254, 1),
        (65535, 65534, 2),
        (65535, 0, 4),
        (32768, 70000, 3),
        (65535, 200000, 4),
        (1, 0, 1),
        (1, 0, 3),
    ][item as usize % EXTREMES as usize];
    let kind = item / EXTREMES;
    let data = expand(item + 1, total);
    // Everything in the last object, in the first, or spread
    let objects: Vec<Vec<u8>> = (0..count)
        .map(|i| match item % 3 {
            0 if i + 1 == count => data.clone(),
            1 if i == 0 => data.clone(),
            2 => data[total * i / count..total * (i + 1) / count].to_vec(),
            _ => vec![],
        })
        .collect();
    check_table(kind, &Table { size, objects }, &[1, 2, 3])
}

const EXTREMES: u64 = 18;

pub fn c05() -> Vec<Box<dyn Sub>> {
    vec![
        random(Random {
            name: "index",
            rule: "indices of all six kinds with any counts, sizes and offset sizes, with bytes after them; non-trivial if not empty",
            quick: 12_000,
            thorough: 500_000,
            generate: indexed,
            check: check_indexed,
        }),
        each(Each {
            name: "extreme",
            rule: "indices at the limits of each offset size and of the count, of all six kinds; all are non-trivial",
            quick: EXTREMES * 6,
            thorough: EXTREMES * 6,
            check: extreme,
        }),
        super::within::c05(),
    ]
}

// Strings

#[derive(Debug)]
struct Texts {
    plan: IndexPlan,
    ids: Vec<u16>,
}

fn text(g: &mut G) -> Vec<u8> {
    let count = g.len(10);
    let mut bytes = vec![];
    for _ in 0..count {
        match g.weighted(&[5, 2, 1, 2]) {
            0 => bytes.push(g.range(32, 126) as u8),
            1 => bytes.extend(g.pick(&["é", "ß", "日", "𝄞", "\u{0}", "\u{feff}", "\u{fffd}", "ÿ"]).bytes()),
            2 => bytes.push(g.byte()),
            // Truncated, overlong, surrogates, out of range
            _ => bytes.extend(g.pick(&[
                &b"\xe6\x97"[..],
                &b"\xc0\xaf"[..],
                &b"\xed\xa0\x80"[..],
                &b"\xf4\x90\x80\x80"[..],
                &b"\xff"[..],
                &b"\x80"[..],
                &b"\xf0\x9d\x84"[..],
            ])),
        }
    }
    bytes
}

fn texts(g: &mut G) -> Texts {
    let plan = match g.weighted(&[30, 4, 1]) {
        0 => {
            let count = g.len(12);
            IndexPlan { objects: (0..count).map(|_| text(g)).collect(), size: cff::offset_size(g) }
        }
        1 => {
            let count = g.size(200, 1000);
            cff::index(g, count)
        }
        _ => {
            let count = g.pick(&[65535, 65145, 65144, 65146, 32377]);
            cff::index(g, count)
        }
    };
    let count = plan.objects.len() as i64;
    let ids = (0..20)
        .map(|_| {
            match g.below(4) {
                0 => g.range(0, 390),
                1 => 391 + g.range(0, count),
                2 => 391 + count + g.range(-2, 2),
                _ => g.range(0, 65535),
            }
            .clamp(0, 65535) as u16
        })
        .collect();
    Texts { plan, ids }
}

/// Decode as the Unicode standard recommends, independently of the library.
pub fn decode(bytes: &[u8]) -> String {
    let mut result = String::new();
    let mut i = 0;
    while i < bytes.len() {
        let byte = bytes[i];
        let (size, low, high) = match byte {
            0..=0x7f => {
                result.push(byte as char);
                i += 1;
                continue;
            }
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xe1..=0xef => (2, 0x80, 0xbf),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => {
                result.push('\u{fffd}');
                i += 1;
                continue;
            }
        };
        let mut value = byte as u32 & (0x3f >> size);
        let mut taken = 1;
        while taken <= size {
            let range = if taken == 1 { low..=high } else { 0x80..=0xbf };
            match bytes.get(i + taken) {
                Some(next) if range.contains(next) => value = value << 6 | (*next as u32 & 0x3f),
                _ => break,
            }
            taken += 1;
        }
        if taken > size {
            result.push(char::from_u32(value).unwrap());
        } else {
            result.push('\u{fffd}');
        }
        i += taken;
    }
    result
}

pub fn expected_string(table: &Table, id: u16) -> Option<String> {
    match (id as usize).checked_sub(391) {
        None => Some(STANDARD_STRINGS[id as usize].to_string()),
        Some(i) => table.objects.get(i).map(|object| decode(object)),
    }
}

fn check_texts(case: &Texts, obs: &mut Obs) -> Verdict {
    let table = case.plan.table();
    let bytes = index_bytes(&table);
    obs.nontrivial_if(!table.objects.is_empty());
    obs.label_if(
        table.objects.iter().any(|object| std::str::from_utf8(object).is_err()),
        "malformed text",
    );
    obs.label_if(
        table.objects.iter().any(|object| std::str::from_utf8(object).is_ok() && !object.is_ascii()),
        "beyond ASCII",
    );
    let strings = take::<Strings>(&bytes)?.whole("strings", bytes.len() as u64)?;
    for id in case.ids.iter() {
        let found = sut(|| strings.get(*id))?;
        equal(&format!("string {id}"), &expected_string(&table, *id), &found)?;
        let i = *id as usize;
        obs.label(match i {
            0..=390 => "standard",
            i if i - 391 < table.objects.len() => "custom",
            _ => "none",
        });
    }
    let names = take::<Names>(&bytes)?.whole("names", bytes.len() as u64)?;
    let names = sut(|| Vec::<String>::try_from(names).map_err(|error| error.to_string()))?
        .map_err(|error| format!("rejected: {error}"))?;
    let expected: Vec<_> = table.objects.iter().map(|object| decode(object)).collect();
    equal("number of names", &expected.len(), &names.len())?;
    for (i, (one, other)) in expected.iter().zip(names.iter()).enumerate() {
        equal(&format!("name {i}"), one, other)?;
    }
    Ok(())
}

/// All string identifiers for fonts with some numbers of strings.
fn every_string(item: u64, obs: &mut Obs) -> Verdict {
    obs.nontrivial();
    let count = [0, 1, 2, 390, 391, 1000, 65145, 65535][item as usize];
    let objects = (0..count).map(|i: u32| format!("s{i}").into_bytes()).collect();
    let table = IndexPlan { objects, size: 1 }.table();
    let bytes = index_bytes(&table);
    let strings = take::<Strings>(&bytes)?.whole("strings", bytes.len() as u64)?;
    for id in 0..=65535 {
        let found = sut(|| strings.get(id))?;
        let expected = expected_string(&table, id);
        if expected != found {
            return Err(format!("string {id} of {count}: expected {expected:?}, found {found:?}"));
        }
    }
    Ok(())
}

fn convert(number: Number) -> Result<Option<u16>, String> {
    sut(|| StringID::try_from(number).ok())
}

/// Blocks of 4096 numbers.
fn identifiers(item: u64, obs: &mut Obs) -> Verdict {
    obs.nontrivial();
    for i in 0..4096 {
        let value = match item {
            // From -65536 to 196607
            0..=63 => item as i64 * 4096 + i - 65536,
            // Scattered
            _ => (item as i64 * 4096 + i) * 0x9e37_79b9 & 0xffff_ffff,
        } as i32;
        let expected = (0..=65535).contains(&value).then_some(value as u16);
        equal(&format!("integer {value}"), &expected, &convert(Number::Integer(value))?)?;
    }
    for value in [0.0f32, 1.0, 391.0, 65535.0, 1.5, -1.0, 1e20] {
        equal(&format!("real {value}"), &None, &convert(Number::Real(value))?)?;
    }
    for value in [i32::MIN, i32::MAX, i32::MIN + 391, -65536, -65535, 65536 + 391, 1 << 16, 1 << 31] {
        equal(&format!("integer {value}"), &None, &convert(Number::Integer(value))?)?;
    }
    Ok(())
}

pub fn c07() -> Vec<Box<dyn Sub>> {
    vec![
        each(Each {
            name: "every",
            rule: "all 65536 string identifiers for fonts with some numbers of strings; all are non-trivial",
            quick: 8,
            thorough: 8,
            check: every_string,
        }),
        random(Random {
            name: "texts",
            rule: "strings and names of well-formed and malformed UTF-8, compared with a decoder of our own; non-trivial if there are any",
            quick: 6_000,
            thorough: 300_000,
            generate: texts,
            check: check_texts,
        }),
        each(Each {
            name: "identifiers",
            rule: "blocks of 4096 numbers converted to string identifiers, all from -65536 to 196607 and scattered ones; all are non-trivial",
            quick: 128,
            thorough: 65536,
            check: identifiers,
        }),
        super::within::c07(),
    ]
}

// Predefined tables

fn predefined(item: u64, obs: &mut Obs) -> Verdict {
    obs.nontrivial();
    let name = |table: &[&'static str], glyph: usize| {
        if glyph == 0 {
            None
        } else {
            table.get(glyph).copied()
        }
    };
    for glyph in item * 256..(item + 1) * 256 {
        let glyph = glyph as u16;
        let i = glyph as usize;
        for (set, table) in [
            (CharacterSet::ISOAdobe, &ISO_ADOBE[..]),
            (CharacterSet::Expert, &EXPERT[..]),
            (CharacterSet::ExpertSubset, &EXPERT_SUBSET[..]),
        ] {
            let found = sut(|| set.get(glyph))?;
            equal(&format!("glyph {glyph} of {set:?}"), &name(table, i), &found)?;
        }
        for (encoding, table) in
            [(Encoding::Standard, &STANDARD_ENCODING), (Encoding::Expert, &EXPERT_ENCODING)]
        {
            let found = sut(|| encoding.get(glyph))?;
            equal(&format!("code {glyph} of {encoding:?}"), &table.get(i).copied(), &found)?;
        }
    }
    obs.label(if item == 0 { "within" } else { "beyond" });
    Ok(())
}

pub fn c08() -> Vec<Box<dyn Sub>> {
    vec![each(Each {
        name: "predefined",
        rule: "all 65536 glyphs of the three character sets and all 65536 codes of the two encodings, in blocks of 256; all are non-trivial",
        quick: 256,
        thorough: 256,
        check: predefined,
    })]
}

// Custom tables

#[derive(Debug)]
struct Custom<T> {
    table: T,
    glyphs: usize,
    tail: Vec<u8>,
}

fn tail(g: &mut G) -> Vec<u8> {
    let size = g.size(0, 5);
    g.bytes_of(size)
}

fn glyph_count(g: &mut G) -> usize {
    match g.weighted(&[10, 10, 4, 1]) {
        0 => g.size(1, 8),
        1 => g.size(1, 1000),
        2 => g.pick(&[1, 2, 256, 257, 258, 512, 513, 514, 1000, 5000]),
        _ => g.pick(&[65535, 65534, 32768, 40000]),
    }
}

fn custom_charset(g: &mut G) -> Custom<Charset> {
    let glyphs = glyph_count(g);
    Custom { table: cff::charset(g, glyphs), glyphs, tail: tail(g) }
}

pub fn check_charset(table: &Charset, glyphs: usize, tail: &[u8]) -> Verdict {
    let mut bytes = table.bytes();
    let size = bytes.len();
    bytes.extend(tail);
    let set = take_given::<CharacterSet>(&bytes, glyphs)?.whole("character set", size as u64)?;
    equal("character set", table, &view_charset(&set))?;
    equal("format", &Some(bytes[0]), &charset_format(&set))?;
    // What custom tables answer is not specified, but they must not panic.
    for glyph in [0, 1, glyphs as u16, u16::MAX] {
        sut(|| set.get(glyph))?;
    }
    // By the type of its format
    let what = "character set read in its format";
    let size = size as u64;
    let set = match table {
        Charset::F0(_) => CharacterSet::Format0(take_given(&bytes, glyphs)?.whole(what, size)?),
        Charset::F1(_) => CharacterSet::Format1(take_given(&bytes, glyphs)?.whole(what, size)?),
        _ => CharacterSet::Format2(take_given(&bytes, glyphs)?.whole(what, size)?),
    };
    equal(what, table, &view_charset(&set))?;
    equal("format", &Some(bytes[0]), &charset_format(&set))
}

fn check_custom_charset(case: &Custom<Charset>, obs: &mut Obs) -> Verdict {
    obs.label(match &case.table {
        Charset::F0(_) => "format 0",
        Charset::F1(_) => "format 1",
        _ => "format 2",
    });
    obs.nontrivial_if(case.glyphs > 1);
    obs.label_if(case.glyphs == 1, "one glyph");
    obs.label_if(case.glyphs > 256, "more than 256 glyphs");
    check_charset(&case.table, case.glyphs, &case.tail)
}

fn custom_encoding(g: &mut G) -> Custom<Enc> {
    Custom { table: cff::encoding(g), glyphs: 0, tail: tail(g) }
}

pub fn check_encoding(table: &Enc, tail: &[u8]) -> Verdict {
    let mut bytes = table.bytes();
    let size = bytes.len();
    bytes.extend(tail);
    let encoding = take::<Encoding>(&bytes)?.whole("encoding", size as u64)?;
    equal("encoding", table, &view_encoding(&encoding)?)?;
    for glyph in [0, 1, 255, 256, u16::MAX] {
        sut(|| encoding.get(glyph))?;
    }
    let what = "encoding read in its format";
    let size = size as u64;
    let encoding = match table {
        Enc::F0(_) => Encoding::Format0(take(&bytes)?.whole(what, size)?),
        Enc::F1(_) => Encoding::Format1(take(&bytes)?.whole(what, size)?),
        _ => Encoding::FormatSupplemental(take(&bytes)?.whole(what, size)?),
    };
    equal(what, table, &view_encoding(&encoding)?)
}

fn check_custom_encoding(case: &Custom<Enc>, obs: &mut Obs) -> Verdict {
    obs.nontrivial();
    obs.label(match &case.table {
        Enc::F0(_) => "format 0",
        Enc::F1(_) => "format 1",
        Enc::Extra { format: 0x80, .. } => "format 0 with supplement",
        _ => "format 1 with supplement",
    });
    obs.label_if(case.table.bytes().contains(&255), "maximal");
    check_encoding(&case.table, &case.tail)
}

fn custom_select(g: &mut G) -> Custom<Select> {
    let glyphs = glyph_count(g);
    let dictionaries = g.pick(&[1, 2, 5, 255, 256]);
    let mut table = cff::select(g, glyphs, dictionaries);
    if glyphs > 1000 && g.chance(1, 2) {
        // A range for each glyph
        let ids = g.blob(glyphs);
        table = Select::F3((0..glyphs).map(|i| (i as u16, ids[i])).collect(), glyphs as u16);
    }
    if let (Select::F3(ranges, sentinel), true) = (&mut table, g.chance(1, 4)) {
        // Any sentinel and any ranges, as they are read without regard to each other
        *sentinel = match g.below(3) {
            0 => g.pick(&[0, 1, 255, 256, 32767, 32768, 65535]),
            1 => ranges.len() as u16,
            _ => g.below(65536) as u16,
        };
        match g.below(4) {
            0 => ranges.clear(),
            1 => {
                for range in ranges.iter_mut().take(20) {
                    *range = (g.below(65536) as u16, g.byte());
                }
            }
            _ => {}
        }
    }
    Custom { table, glyphs, tail: tail(g) }
}

/// The character strings of a font with so many empty glyphs.
pub fn blank(glyphs: usize) -> Result<CharacterStrings, String> {
    let bytes = index_bytes(&Table { size: 1, objects: vec![vec![]; glyphs] });
    take_given::<CharacterStrings>(&bytes, 2)?.whole("character strings", bytes.len() as u64)
}

pub fn check_select(table: &Select, glyphs: usize, tail: &[u8]) -> Verdict {
    let mut bytes = table.bytes();
    let size = bytes.len();
    bytes.extend(tail);
    let strings = blank(glyphs)?;
    let encoding = take_given::<character_id_keyed::Encoding>(&bytes, &strings)?
        .whole("mapping", size as u64)?;
    equal("mapping", table, &view_select(&encoding)?)?;
    let what = "mapping read in its format";
    let size = size as u64;
    let encoding = match table {
        Select::F0(_) => character_id_keyed::Encoding::Format0(
            take_given(&bytes, &strings)?.whole(what, size)?,
        ),
        _ => character_id_keyed::Encoding::Format3(take(&bytes)?.whole(what, size)?),
    };
    equal(what, table, &view_select(&encoding)?)
}

fn check_custom_select(case: &Custom<Select>, obs: &mut Obs) -> Verdict {
    obs.nontrivial_if(case.glyphs > 1);
    obs.label(match &case.table {
        Select::F0(_) => "format 0",
        Select::F3(..) => "format 3",
    });
    obs.label_if(matches!(&case.table, Select::F3(ranges, _) if ranges.len() > 255), "many ranges");
    obs.label_if(
        matches!(&case.table, Select::F3(_, sentinel) if *sentinel as usize != case.glyphs),
        "another sentinel",
    );
    check_select(&case.table, case.glyphs, &case.tail)
}

pub fn c09() -> Vec<Box<dyn Sub>> {
    vec![
        random(Random {
            name: "character-set",
            rule: "character sets in formats 0 to 2 for up to 65535 glyphs, with bytes after them; non-trivial with two glyphs or more",
            quick: 12_000,
            thorough: 400_000,
            generate: custom_charset,
            check: check_custom_charset,
        }),
        random(Random {
            name: "encoding",
            rule: "encodings in both formats with and without supplement, with bytes after them; all are non-trivial",
            quick: 30_000,
            thorough: 1_000_000,
            generate: custom_encoding,
            check: check_custom_encoding,
        }),
        random(Random {
            name: "mapping",
            rule: "glyph-to-dictionary mappings in both formats for up to 65535 glyphs, some with arbitrary ranges and sentinels, with bytes after them; non-trivial with two glyphs or more",
            quick: 6_000,
            thorough: 200_000,
            generate: custom_select,
            check: check_custom_select,
        }),
        super::within::c09(),
    ]
}

