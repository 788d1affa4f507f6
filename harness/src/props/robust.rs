//! C06, C13 and C14: malformed tables, hostile inputs, unreliable streams.

use super::sets::{describe, read_set};
use super::tables::{blank, read_index};
use super::{each, random, take, take_given};
use crate::alloc;
use crate::cff::{
    self, compare, equal, index_bytes, view, Arg, Body, Charset, DictPlan, Enc, IndexPlan, KindPlan,
    Plan, Select, Shape,
};
use crate::cffr::{self, No, Reader};
use crate::engine::{sut, Each, Obs, Random, Sub, Verdict};
use crate::gen::G;
use crate::num::{coded, coded_int, encode_int, int_widths, Coded, Val};
use crate::ops;
use crate::t2gen::hex;
use crate::tapes::{Fault, Image, Manner, Tape};
use postscript::compact1::character_set::{CharacterSet0, CharacterSet1, CharacterSet2};
use postscript::compact1::encoding::{Encoding0, Encoding1, EncodingSupplemental};
use postscript::compact1::font_set::{self, character_id_keyed, character_name_keyed};
use postscript::compact1::index::{CharacterStrings, Dictionaries, Names, Strings, Subroutines};
use postscript::compact1::{
    CharacterSet, Encoding, FontSet, Header, Index, Number, Offset, Operations,
};
use postscript::value::Read as _;
use postscript::walue;
use std::io::ErrorKind;

// C06: one defect

/// A defect of an index.
#[derive(Clone, Debug)]
enum Flaw {
    OffsetSize(u8),
    /// All the offsets are shifted, or just the first one is replaced.
    First(u32, bool),
    /// The offset after this object is less than the one before it.
    Decrease(usize, u32),
}

fn flaw(g: &mut G, plan: &IndexPlan) -> Flaw {
    let table = plan.table();
    let mut offsets = vec![1u32];
    for object in table.objects.iter() {
        offsets.push(offsets.last().unwrap() + object.len() as u32);
    }
    let top = if table.size == 4 { u32::MAX } else { (1 << (8 * table.size)) - 1 };
    match g.below(3) {
        0 => {
            let size = g.pick(&[0, 5, 6, 7, 8, 16, 32, 64, 127, 128, 255, 129, 130, 131, 132]);
            Flaw::OffsetSize(size)
        }
        1 => {
            let room = top - offsets.last().unwrap();
            let all = room > 0 && g.chance(1, 2);
            let first = if g.chance(1, 3) {
                0
            } else if all {
                2 + g.below(room.min(300) as u64) as u32
            } else {
                (2 + g.below(600) as u32).min(top)
            };
            Flaw::First(first, all)
        }
        _ => {
            let object = g.size(0, table.objects.len() - 1);
            let offset = if g.chance(1, 2) {
                offsets[object] - 1
            } else {
                g.below(offsets[object] as u64) as u32
            };
            Flaw::Decrease(object, offset)
        }
    }
}

/// Apply a defect to the bytes of an index; the number of objects is left alone.
fn spoil(bytes: &mut [u8], table: &cff::Table, flaw: &Flaw) {
    let size = table.size as usize;
    let mut put = |i: usize, offset: u32| {
        let at = 3 + i * size;
        bytes[at..at + size].copy_from_slice(&offset.to_be_bytes()[4 - size..]);
    };
    match flaw {
        Flaw::OffsetSize(size) => bytes[2] = *size,
        Flaw::First(first, false) => put(0, *first),
        Flaw::First(first, true) => {
            let mut offset = *first;
            put(0, offset);
            for (i, object) in table.objects.iter().enumerate() {
                offset += object.len() as u32;
                put(i + 1, offset);
            }
        }
        Flaw::Decrease(object, offset) => put(object + 1, *offset),
    }
}

#[derive(Debug)]
struct BadIndex {
    kind: u64,
    plan: IndexPlan,
    flaw: Flaw,
    after: usize,
}

fn bad_index(g: &mut G) -> BadIndex {
    let kind = g.below(6);
    let count = g.size(1, 8);
    let plan = cff::index(g, count);
    let flaw = flaw(g, &plan);
    BadIndex { kind, plan, flaw, after: g.pick(&[0, 10, 5000]) }
}

fn check_bad_index(case: &BadIndex, obs: &mut Obs) -> Verdict {
    let table = case.plan.table();
    let mut bytes = index_bytes(&table);
    spoil(&mut bytes, &table, &case.flaw);
    bytes.extend(vec![1; case.after]);
    obs.nontrivial();
    obs.label(match case.flaw {
        Flaw::OffsetSize(_) => "offset size",
        Flaw::First(..) => "first offset",
        Flaw::Decrease(..) => "decreasing offset",
    });
    read_index(case.kind, &bytes)?.rejected("an index")
}

// Other tables

#[derive(Debug)]
enum BadTable {
    Charset { table: Charset, glyphs: usize, format: Option<u8> },
    Encoding { table: Enc, format: u8 },
    Select { table: Select, glyphs: usize, format: u8 },
    Strings { plan: IndexPlan, format: i32 },
    /// The type, by its number, of a table in a particular format given another one
    Other { reader: usize, bytes: Vec<u8>, glyphs: usize },
}

/// Make the last range of a character set run over, or leave it as it is.
fn run_over(g: &mut G, table: &mut Charset) -> bool {
    match table {
        Charset::F1(ranges) => match ranges.last_mut() {
            Some(range) if range.1 < 255 => {
                let most = (255 - range.1) as u64;
                range.1 += 1 + if g.chance(2, 3) { g.below(most) } else { most - 1 } as u8;
                true
            }
            _ => false,
        },
        Charset::F2(ranges) => match ranges.last_mut() {
            Some(range) if range.1 < 65535 => {
                let most = (65535 - range.1) as u64;
                let more = match g.below(3) {
                    0 => g.below(most.min(3)),
                    1 => g.below(most),
                    _ => most - 1 - g.below(most.min(3)),
                };
                range.1 += 1 + more as u16;
                true
            }
            _ => false,
        },
        _ => false,
    }
}

fn bad_table(g: &mut G) -> BadTable {
    let glyphs = g.pick(&[1, 2, 3, 5, 9, 255, 256, 257, 300, 514]);
    match g.weighted(&[2, 3, 2, 2, 2, 2, 4]) {
        0 => {
            let format = 3 + g.below(253) as u8;
            BadTable::Charset { table: cff::charset(g, glyphs), glyphs, format: Some(format) }
        }
        1 => {
            let mut table = cff::charset(g, glyphs.max(2));
            if run_over(g, &mut table) {
                BadTable::Charset { table, glyphs: glyphs.max(2), format: None }
            } else {
                BadTable::Charset { table, glyphs: 0, format: None }
            }
        }
        2 => BadTable::Charset { table: cff::charset(g, glyphs), glyphs: 0, format: None },
        3 => {
            let mut format = g.byte();
            if matches!(format, 0 | 1 | 0x80 | 0x81) {
                format |= 2;
            }
            BadTable::Encoding { table: cff::encoding(g), format }
        }
        4 => {
            let mut format = g.byte();
            if matches!(format, 0 | 3) {
                format += 1;
            }
            BadTable::Select { table: cff::select(g, glyphs, 4), glyphs, format }
        }
        5 => {
            let count = g.size(0, 5);
            let format = loop_format(g);
            BadTable::Strings { plan: cff::index(g, count), format }
        }
        _ => {
            let reader = g.size(0, READERS.len() - 1);
            let mut bytes = match g.below(3) {
                0 => cff::charset(g, glyphs).bytes(),
                1 => cff::encoding(g).bytes(),
                _ => cff::select(g, glyphs, 4).bytes(),
            };
            if g.chance(1, 2) {
                bytes[0] = g.pick(&[0, 1, 2, 3, 4, 0x7f, 0x80, 0x81, 0x82, 0x83, 255]);
            }
            if READERS[reader].contains(&bytes[0]) {
                bytes[0] ^= 4;
            }
            BadTable::Other { reader, bytes, glyphs }
        }
    }
}

/// The formats that the types of the tables in particular formats are for
const READERS: [&[u8]; 8] = [&[0], &[1], &[2], &[0], &[1], &[0x80, 0x81], &[0], &[3]];

fn loop_format(g: &mut G) -> i32 {
    match g.below(3) {
        0 => g.pick(&[0, 1, 3, 4, -1, -2]),
        1 => g.pick(&[258, 65538, 0x0200_0000, i32::MAX, i32::MIN, i32::MIN + 2]),
        _ => {
            let format = g.int32();
            if format == 2 {
                1
            } else {
                format
            }
        }
    }
}

fn check_bad_table(case: &BadTable, obs: &mut Obs) -> Verdict {
    obs.nontrivial();
    let before = |mut bytes: Vec<u8>, format: Option<u8>, filler: u8| {
        if let Some(format) = format {
            bytes[0] = format;
        }
        bytes.extend([filler; 2000]);
        bytes
    };
    let with = |bytes: Vec<u8>, format: Option<u8>| before(bytes, format, 1);
    match case {
        BadTable::Charset { table, glyphs, format } => {
            obs.label(match (format, glyphs) {
                (Some(_), _) => "format of a character set",
                (_, 0) => "character set without glyphs",
                _ => "range that runs over",
            });
            // Reading on must not make up for it: zeros are ranges of one glyph.
            for filler in [0, 1] {
                let bytes = before(table.bytes(), *format, filler);
                take_given::<CharacterSet>(&bytes, *glyphs)?.rejected("a character set")?;
            }
            Ok(())
        }
        BadTable::Encoding { table, format } => {
            obs.label("format of an encoding");
            take::<Encoding>(&with(table.bytes(), Some(*format)))?.rejected("an encoding")
        }
        BadTable::Select { table, glyphs, format } => {
            obs.label("format of a mapping");
            let strings = blank(*glyphs)?;
            let bytes = with(table.bytes(), Some(*format));
            take_given::<character_id_keyed::Encoding>(&bytes, &strings)?.rejected("a mapping")
        }
        BadTable::Strings { plan, format } => {
            obs.label("format of character strings");
            take_given::<CharacterStrings>(&with(plan.bytes(), None), *format)?
                .rejected("character strings")
        }
        BadTable::Other { reader, bytes, glyphs } => {
            obs.label("a table in another format");
            let bytes = with(bytes.clone(), None);
            let glyphs = *glyphs;
            let what = "a table in another format";
            match reader {
                0 => take_given::<CharacterSet0>(&bytes, glyphs)?.rejected(what),
                1 => take_given::<CharacterSet1>(&bytes, glyphs)?.rejected(what),
                2 => take_given::<CharacterSet2>(&bytes, glyphs)?.rejected(what),
                3 => take::<Encoding0>(&bytes)?.rejected(what),
                4 => take::<Encoding1>(&bytes)?.rejected(what),
                5 => take::<EncodingSupplemental>(&bytes)?.rejected(what),
                6 => {
                    let strings = blank(glyphs)?;
                    take_given::<character_id_keyed::Encoding0>(&bytes, &strings)?.rejected(what)
                }
                _ => take::<character_id_keyed::Encoding3>(&bytes)?.rejected(what),
            }
        }
    }
}

// Whole font sets with one defect

#[derive(Debug)]
struct BadSet {
    plan: Plan,
    /// Bytes to replace after writing: the index by its number, or none
    index: Option<(usize, Flaw)>,
    /// The block whose first byte to replace, and the byte
    format: Option<(usize, u8)>,
    what: &'static str,
    /// Was there anything to spoil?
    spoiled: bool,
}

fn entry_mut(plan: &mut DictPlan, code: u16) -> Option<&mut Vec<Arg>> {
    plan.iter_mut().find(|entry| entry.0 == code).map(|entry| &mut entry.1)
}

fn real(g: &mut G) -> Coded {
    if g.chance(1, 2) {
        // 5.
        Coded { bytes: vec![0x1e, 0x5a, 0xff], value: Val::Real(5.0) }
    } else {
        crate::num::coded_real(g)
    }
}

fn negative(g: &mut G) -> Coded {
    let value = match g.below(3) {
        0 => -1 - g.below(107) as i32,
        1 => -1 - g.below(40000) as i32,
        _ => -1 - g.below(1 << 31) as i32,
    };
    let width = g.pick(&int_widths(value));
    Coded { bytes: encode_int(value, width), value: Val::Int(value) }
}

/// Spoil an entry: drop it, drop an operand, make one real or negative.
fn spoil_entry(g: &mut G, plan: &mut DictPlan, code: u16, required: bool) -> &'static str {
    // Entries with a default, but not for want of the operand
    let defaulted = matches!(code, ops::CHAR_SET | ops::ENCODING | ops::CHAR_STRING_TYPE);
    if entry_mut(plan, code).is_none() {
        if defaulted && g.chance(1, 4) {
            plan.push((code, vec![]));
            return "missing operand";
        }
        let operand = if g.chance(1, 2) { real(g) } else { negative(g) };
        plan.push((code, vec![Arg::Fixed(operand)]));
        return "entry made real or negative";
    }
    match g.weighted(&[
        if required { 2 } else { 0 },
        if required || defaulted { 1 } else { 0 },
        2,
        2,
    ]) {
        0 => {
            plan.retain(|entry| entry.0 != code);
            "missing entry"
        }
        1 => {
            entry_mut(plan, code).unwrap().pop();
            "missing operand"
        }
        choice => {
            let operand = if choice == 2 { real(g) } else { negative(g) };
            let arguments = entry_mut(plan, code).unwrap();
            let mut count = arguments.len();
            if code == ops::ROS {
                count = 2;
            }
            let i = g.size(0, count - 1);
            arguments[i] = Arg::Fixed(operand);
            "entry made real or negative"
        }
    }
}

fn bad_set(g: &mut G) -> BadSet {
    // Tables that fonts share may be well-formed for one and not for the other.
    let shape = Shape { fonts: g.size(1, 3), cid: g.pick(&[0, 4, 8]), gaps: 0, large: false, shared: false };
    let mut plan = cff::plan(g, &shape);
    let i = g.size(0, plan.fonts.len() - 1);
    let mut case = BadSet { plan: plan.clone(), index: None, format: None, what: "", spoiled: true };
    let font = plan.fonts[i].clone();
    let glyphs = plan.index(font.glyphs).objects.len();
    match g.weighted(&[4, 3, 2, 2, 8]) {
        0 => {
            // An index: the first four, then those of the blocks
            let mut indices: Vec<(usize, IndexPlan)> = vec![];
            indices.push((0, plan.names.clone()));
            // The dictionaries are known only when they are written.
            indices.push((1, IndexPlan { objects: vec![vec![0; 4]; plan.tops.len()], size: 1 }));
            indices.push((2, plan.strings.clone()));
            indices.push((3, plan.gsubrs.clone()));
            for (block, content) in plan.blocks.iter().enumerate() {
                match &content.body {
                    Body::Index(index) => indices.push((4 + block, index.clone())),
                    Body::Dicts(dicts, _) => indices.push((
                        4 + block,
                        IndexPlan { objects: vec![vec![0; 4]; dicts.len()], size: 1 },
                    )),
                    _ => {}
                }
            }
            indices.retain(|index| !index.1.objects.is_empty());
            let (which, index) = &indices[g.size(0, indices.len() - 1)];
            let mut flaw = flaw(g, index);
            if matches!(flaw, Flaw::First(..)) && (*which == 1 || *which >= 4) {
                flaw = Flaw::First(0, false);
            }
            case.index = Some((*which, flaw));
            case.what = "index";
        }
        1 => {
            // A format
            let mut blocks = vec![];
            for (block, content) in plan.blocks.iter().enumerate() {
                if matches!(content.body, Body::Bytes(_)) {
                    blocks.push(block);
                }
            }
            if blocks.is_empty() {
                case.spoiled = false;
            } else {
                // Unknown to all the tables
                let format = g.pick(&[4, 5, 6, 7, 16, 64, 0x82, 0x83, 0xff, 0x7f]);
                case.format = Some((g.pick(&blocks), format));
                case.what = "format";
            }
        }
        2 => {
            // A character set that covers too many glyphs
            case.spoiled = false;
            let mut charset = font.charset.clone();
            if run_over(g, &mut charset) {
                for block in plan.blocks.iter_mut() {
                    if let Body::Bytes(bytes) = &mut block.body {
                        if !case.spoiled && *bytes == font.charset.bytes() {
                            *bytes = charset.bytes();
                            case.spoiled = true;
                        }
                    }
                }
                case.what = "range that runs over";
            }
        }
        3 => {
            // A font without glyphs and a custom character set
            if matches!(font.charset, Charset::Predefined(_)) || glyphs == 0 {
                case.spoiled = false;
            } else {
                plan.index_mut(font.glyphs).objects.clear();
                case.what = "character set without glyphs";
            }
        }
        _ => {
            // An entry
            let mut choices = vec![(ops::CHAR_STRINGS, true), (ops::CHAR_SET, false)];
            choices.push((ops::CHAR_STRING_TYPE, false));
            let top = &mut plan.tops[i];
            match &font.kind {
                KindPlan::Name { private, .. } => {
                    choices.extend([(ops::PRIVATE, true), (ops::PRIVATE, true), (ops::ENCODING, false)]);
                    choices.push((ops::SUBRS, false));
                    let (code, required) = g.pick(&choices);
                    let target = if code == ops::SUBRS {
                        match &mut plan.blocks[*private].body {
                            Body::Dict(dict) => dict,
                            _ => unreachable!(),
                        }
                    } else {
                        top
                    };
                    case.what = spoil_entry(g, target, code, required);
                }
                KindPlan::Cid { array, privates, .. } => {
                    choices.extend([(ops::ROS, true), (ops::FD_ARRAY, true), (ops::FD_SELECT, true)]);
                    choices.extend([(ops::PRIVATE, true), (ops::SUBRS, false)]);
                    let (code, mut required) = g.pick(&choices);
                    let target = match code {
                        ops::PRIVATE => match &mut plan.blocks[*array].body {
                            Body::Dicts(dicts, _) => {
                                let i = g.size(0, dicts.len() - 1);
                                &mut dicts[i]
                            }
                            _ => unreachable!(),
                        },
                        ops::SUBRS => {
                            let (block, _) = g.pick(privates);
                            match &mut plan.blocks[block].body {
                                Body::Dict(dict) => dict,
                                _ => unreachable!(),
                            }
                        }
                        _ => top,
                    };
                    if code == ops::ROS {
                        // Without the entry, the font is of the other kind.
                        required = false;
                        if g.chance(1, 2) {
                            let arguments = entry_mut(target, code).unwrap();
                            case.what = "string identifier";
                            if g.chance(1, 2) {
                                let value = 65536 + g.below(1 << 20) as i32;
                                let operand =
                                    Coded { bytes: encode_int(value, 5), value: Val::Int(value) };
                                let i = g.size(0, 1);
                                arguments[i] = Arg::Fixed(operand);
                            } else {
                                case.what = "number of operands";
                                if g.chance(1, 2) {
                                    arguments.pop();
                                } else {
                                    let operand = coded(g);
                                    arguments.push(Arg::Fixed(operand));
                                }
                            }
                            case.plan = plan;
                            return case;
                        }
                    }
                    case.what = spoil_entry(g, target, code, required);
                }
            }
            if case.what == "entry made real or negative" && g.chance(1, 6) {
                // An unknown type instead
                let top = &mut case.plan.tops[i];
                top.retain(|entry| entry.0 != ops::CHAR_STRING_TYPE);
                let value = loop_format(g);
                let operand = Coded { bytes: encode_int(value, 5), value: Val::Int(value) };
                top.push((ops::CHAR_STRING_TYPE, vec![Arg::Fixed(operand)]));
                case.what = "type of character strings";
                return case;
            }
        }
    }
    case.plan = plan;
    case
}

fn check_bad_set(case: &BadSet, obs: &mut Obs) -> Verdict {
    if !case.spoiled {
        obs.label("nothing to spoil");
        return Ok(());
    }
    obs.nontrivial();
    obs.label(case.what);
    let laid = case.plan.lay();
    let mut bytes = laid.image.flatten();
    if let Some((which, flaw)) = &case.index {
        let start = if *which < 4 {
            let mut reader = Reader::new(&bytes, case.plan.header[2] as u64);
            for _ in 0..*which {
                reader.index().unwrap();
            }
            reader.at as usize
        } else {
            laid.places[which - 4].0 as usize
        };
        let table = Reader::new(&bytes, start as u64).index().unwrap();
        let mut flaw = flaw.clone();
        if let Flaw::Decrease(object, offset) = &mut flaw {
            // The sizes of dictionaries are not those that the choice was made for.
            let before: usize = table.objects[..*object].iter().map(|object| object.len()).sum();
            *offset = (*offset).min(before as u32);
        }
        spoil(&mut bytes[start..], &table, &flaw);
    }
    if let Some((block, format)) = case.format {
        bytes[laid.places[block].0 as usize] = format;
    }
    bytes.extend([1; 3000]);
    match take::<FontSet>(&bytes)?.result {
        Ok(_) => Err(format!("not rejected: {}", case.what)),
        Err(_) => Ok(()),
    }
}

// Mutated font sets against the reference reader

pub struct Mutated {
    pub bytes: Vec<u8>,
    pub intact: bool,
}

impl std::fmt::Debug for Mutated {
    fn fmt(&self, formatter: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(formatter, "{}", hex(&self.bytes))
    }
}

/// Change a few bytes, preferably where it matters.
pub fn mutate(g: &mut G, bytes: &mut Vec<u8>, places: &[u64]) {
    let count = match g.weighted(&[6, 2, 1]) {
        0 => 1,
        1 => g.size(1, 3),
        _ => g.size(1, 12),
    };
    for _ in 0..count {
        if bytes.is_empty() {
            return;
        }
        let at = match g.weighted(&[4, 2]) {
            0 if !places.is_empty() => {
                let place = places[g.size(0, places.len() - 1)] as usize;
                (place + g.weighted(&[3, 3, 3, 2, 2, 1, 1, 1])).min(bytes.len() - 1)
            }
            _ => g.size(0, bytes.len() - 1),
        };
        match g.weighted(&[6, 4, 3, 1, 1, 1, 1]) {
            0 => bytes[at] = g.byte(),
            1 => bytes[at] = bytes[at].wrapping_add(g.pick(&[1, 255, 2, 128])),
            2 => bytes[at] = g.pick(&[0, 255, 1, 2, 3, 4, 128, 127, 28, 29, 30, 12]),
            3 => {
                bytes.remove(at);
            }
            4 => {
                let byte = g.byte();
                bytes.insert(at, byte);
            }
            5 => {
                let size = g.size(1, 8).min(bytes.len() - at);
                let from = g.size(0, bytes.len() - size);
                bytes.copy_within(from..from + size, at);
            }
            _ => {
                if g.chance(1, 2) {
                    bytes.truncate(at);
                } else {
                    let size = g.size(1, 8).min(bytes.len() - at);
                    let fill = g.pick(&[0, 255]);
                    bytes[at..at + size].fill(fill);
                }
            }
        }
    }
}

pub fn mutated(g: &mut G) -> Mutated {
    let shape =
        Shape { fonts: g.size(1, 3), cid: g.pick(&[0, 3, 8]), gaps: 0, large: g.chance(1, 12), shared: true };
    let mut plan = cff::plan(g, &shape);
    // Lean dictionaries, so that mutations hit what matters
    if g.chance(2, 3) {
        for top in plan.tops.iter_mut() {
            top.retain(|entry| {
                entry.0 == ops::ROS || entry.1.iter().any(|argument| matches!(argument, Arg::Link(_)))
                    || matches!(entry.0, ops::CHAR_SET | ops::ENCODING | ops::CHAR_STRING_TYPE)
            });
        }
        for block in plan.blocks.iter_mut() {
            if let Body::Dict(plan) = &mut block.body {
                plan.retain(|entry| entry.0 == ops::SUBRS);
            }
        }
    }
    let laid = plan.lay();
    let mut bytes = laid.image.flatten();
    let mut places: Vec<u64> = laid.places.iter().map(|place| place.0).collect();
    let mut reader = Reader::new(&bytes, plan.header[2] as u64);
    places.push(0);
    for i in 0..4 {
        places.push(reader.at);
        if i == 1 {
            // The entries of the dictionaries
            places.extend((reader.at..laid.preamble).step_by(7).take(20));
        }
        reader.index().unwrap();
    }
    let intact = g.chance(1, 20);
    if !intact {
        mutate(g, &mut bytes, &places);
    }
    Mutated { bytes, intact }
}

/// What comes of the comparison with the reference reader.
pub fn judge(bytes: &[u8], obs: &mut Obs) -> Result<cffr::Answer<()>, String> {
    let expected = cffr::set(bytes);
    let found = take::<FontSet>(bytes)?.result;
    match (expected, found) {
        (Ok(expected), Ok(found)) => {
            obs.label("well-formed");
            compare(&expected, &view(&found)?)?;
            Ok(Ok(()))
        }
        (Ok(_), Err(error)) => Err(format!("a well-formed font set is rejected: {error}")),
        (Err(No::Reject(why)), Ok(_)) => Err(format!("not rejected: {why}")),
        (Err(No::Reject(why)), Err(_)) => {
            obs.label(why);
            Ok(Err(No::Reject(why)))
        }
        (Err(No::Unspecified(why)), _) => {
            obs.label("unspecified");
            Ok(Err(No::Unspecified(why)))
        }
    }
}

fn check_mutated(case: &Mutated, obs: &mut Obs) -> Verdict {
    let answer = judge(&case.bytes, obs)?;
    obs.nontrivial_if(matches!(answer, Err(No::Reject(_))));
    Ok(())
}

pub fn check_survivor(case: &Mutated, obs: &mut Obs) -> Verdict {
    let answer = judge(&case.bytes, obs)?;
    obs.label_if(case.intact, "not mutated");
    obs.nontrivial_if(answer.is_ok());
    Ok(())
}

pub fn c06() -> Vec<Box<dyn Sub>> {
    vec![
        random(Random {
            name: "index",
            rule: "well-formed indices of all six kinds with one defect each; all are non-trivial",
            quick: 30_000,
            thorough: 1_000_000,
            generate: bad_index,
            check: check_bad_index,
        }),
        random(Random {
            name: "tables",
            rule: "character sets, encodings, mappings and character strings with an unknown format or ranges that do not fit; all are non-trivial",
            quick: 20_000,
            thorough: 1_000_000,
            generate: bad_table,
            check: check_bad_table,
        }),
        random(Random {
            name: "sets",
            rule: "well-formed font sets with one defect in any of their indices, tables or dictionaries; non-trivial if there was anything to spoil",
            quick: 20_000,
            thorough: 600_000,
            generate: bad_set,
            check: check_bad_set,
        }),
        random(Random {
            name: "mutated",
            rule: "font sets with some bytes changed, judged by an independent reading; non-trivial if that reading finds a contradiction",
            quick: 30_000,
            thorough: 1_000_000,
            generate: mutated,
            check: check_mutated,
        }),
    ]
}

// C13: hostile inputs

/// What reading may request at once for so many bytes of input.
fn memory(size: usize) -> usize {
    (4 << 20) + 64 * size
}

fn budget(size: usize) -> u64 {
    (1_000_000 + 10 * size as u64 * size as u64).min(100_000_000)
}

fn survive<T>(size: usize, body: impl FnOnce() -> T) -> Result<T, String> {
    let (result, largest) = alloc::largest(|| sut(body));
    let result = result?;
    if largest > memory(size) {
        return Err(format!("{largest} bytes requested at once for an input of {size} bytes"));
    }
    Ok(result)
}

struct Hostile {
    image: Image,
    extreme: bool,
    hex: String,
}

impl std::fmt::Debug for Hostile {
    fn fmt(&self, formatter: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        formatter.write_str(&self.hex)
    }
}

const EXTREME: [i32; 16] = [
    -1,
    i32::MIN,
    i32::MAX,
    i32::MIN + 1,
    i32::MAX - 1,
    0x4000_0000,
    0x1000_0000,
    0x00ff_ffff,
    0x0100_0000,
    65535,
    65536,
    -65536,
    0,
    1,
    2,
    3,
];

fn hostile(g: &mut G) -> Hostile {
    let shape =
        Shape { fonts: g.size(1, 3), cid: g.pick(&[0, 4, 8]), gaps: 0, large: g.chance(1, 8), shared: true };
    let mut plan = cff::plan(g, &shape);
    // Extreme values in the dictionaries
    let extreme = g.chance(2, 3);
    if extreme {
        let mut dictionaries: Vec<&mut DictPlan> = plan.tops.iter_mut().collect();
        for block in plan.blocks.iter_mut() {
            match &mut block.body {
                Body::Dict(plan) => dictionaries.push(plan),
                Body::Dicts(plans, _) => dictionaries.extend(plans),
                _ => {}
            }
        }
        let mut targets = vec![];
        for (i, dictionary) in dictionaries.iter().enumerate() {
            for (j, (code, arguments)) in dictionary.iter().enumerate() {
                for (k, argument) in arguments.iter().enumerate() {
                    if *code == ops::ROS || matches!(argument, Arg::Link(_)) {
                        targets.push((i, j, k));
                    }
                }
            }
        }
        for _ in 0..g.size(1, 2) {
            if targets.is_empty() {
                break;
            }
            let (i, j, k) = targets[g.size(0, targets.len() - 1)];
            let value = g.pick(&EXTREME);
            let bytes = encode_int(value, 5);
            dictionaries[i][j].1[k] = Arg::Fixed(Coded { bytes, value: Val::Int(value) });
        }
    }
    let laid = plan.lay();
    let mut bytes = laid.image.flatten();
    let places: Vec<u64> = laid.places.iter().map(|place| place.0).collect();
    if !extreme || g.chance(1, 3) {
        mutate(g, &mut bytes, &places);
    }
    if g.chance(1, 4) {
        // A huge index: the count, the offset size and the last offset
        let mut targets = places.clone();
        targets.push(plan.header[2] as u64);
        let at = g.pick(&targets) as usize;
        let patch = [0xff, 0xff, g.pick(&[1, 2, 3, 4]), 0, 0, 0, 1, 0xff, 0xff, 0xff, 0xff];
        let size = g.pick(&[2, 3, 7, 11]);
        if at + size <= bytes.len() {
            bytes[at..at + size].copy_from_slice(&patch[..size]);
        }
    }
    let hex = hex(&bytes[..bytes.len().min(4000)]);
    Hostile { image: Image::flat(bytes), extreme, hex }
}

fn check_hostile(case: &Hostile, obs: &mut Obs) -> Verdict {
    let size = case.image.size as usize;
    let manner = Manner { budget: Some(budget(size)), ..Manner::default() };
    let mut tape = Tape::new(&case.image, manner.clone());
    let result = survive(size, || FontSet::read(&mut tape).map_err(|error| error.to_string()))?;
    let mut tape = Tape::new(&case.image, manner);
    survive(size, || FontSet::count(&mut tape).map_err(|error| error.to_string()).ok())?;
    obs.nontrivial_if(size > 0);
    obs.label_if(case.extreme, "extreme values");
    obs.label(if result.is_ok() { "accepted" } else { "rejected" });
    Ok(())
}

#[derive(Debug)]
struct Raw {
    reader: u64,
    bytes: Vec<u8>,
    parameter: u64,
    /// The size of the dictionary at the start, for the readers of records
    head: usize,
}

fn raw(g: &mut G) -> Raw {
    let reader = g.below(17);
    let mut size_of_head = 0;
    let parameter = match g.below(3) {
        0 => g.below(6),
        1 => g.pick(&[255, 256, 257, 65535, 65536, 1 << 20, 1 << 31, 1 << 40]),
        _ => g.below(65536),
    };
    let mut bytes = match g.weighted(&[6, 3, 3, 1]) {
        0 => {
            let size = g.len(24);
            g.bytes_of(size)
        }
        1 => {
            let size = g.len(2000);
            g.blob(size)
        }
        2 => {
            // An index or another table that is cut or changed
            let mut bytes = match g.below(4) {
                0 => {
                    let count = g.size(0, 10);
                    cff::index(g, count).bytes()
                }
                1 => cff::charset(g, parameter.clamp(1, 600) as usize).bytes(),
                2 => cff::encoding(g).bytes(),
                _ => cff::select(g, parameter.clamp(1, 600) as usize, 3).bytes(),
            };
            mutate(g, &mut bytes, &[0]);
            bytes
        }
        _ => {
            let size = g.size(0, 70000);
            let byte = g.pick(&[0, 255, 30, 28, 0x11, 1, 2]);
            vec![byte; size]
        }
    };
    if reader == 16 {
        // A dictionary that refers to what follows it
        let mut head = vec![];
        let size = bytes.len() as i64 + 60;
        for (code, count) in [
            (ops::ROS, 3),
            (ops::FD_SELECT, 1),
            (ops::FD_ARRAY, 1),
            (ops::PRIVATE, 2),
            (ops::SUBRS, 1),
        ] {
            if g.chance(1, 6) {
                continue;
            }
            let count = if g.chance(1, 10) { g.size(0, 4) } else { count };
            let operands: Vec<_> = (0..count)
                .map(|_| {
                    if g.chance(1, 6) {
                        return coded(g);
                    }
                    let value = g.range(0, size) as i32;
                    coded_int(g, value)
                })
                .collect();
            head.extend(cff::entry_bytes(code, &operands));
        }
        size_of_head = head.len();
        head.extend(bytes);
        bytes = head;
    } else if bytes.len() > 3 && g.chance(1, 3) {
        let patch = [g.pick(&[0, 1, 2, 3, 255, 0x80, 0x81]), 255, g.pick(&[1, 4, 255])];
        bytes[..3].copy_from_slice(&patch);
    }
    Raw { reader, bytes, parameter, head: size_of_head }
}

fn check_raw(case: &Raw, obs: &mut Obs) -> Verdict {
    let image = Image::flat(case.bytes.clone());
    let size = case.bytes.len();
    let manner = Manner { budget: Some(budget(size)), ..Manner::default() };
    let mut tape = Tape::new(&image, manner);
    let glyphs = case.parameter as usize;
    let strings = blank((case.parameter & 0xffff) as usize)?;
    macro_rules! read(
        ($kind:ty) => (survive(size, || <$kind>::read(&mut tape).is_ok())?);
        ($kind:ty, $parameter:expr) => ({
            let parameter = $parameter;
            survive(size, || <$kind as walue::Read>::read(&mut tape, parameter).is_ok())?
        });
    );
    let (name, accepted) = match case.reader {
        0 => ("header", read!(Header)),
        1 => ("number", read!(Number)),
        2 => ("offset", read!(Offset, case.parameter as u8)),
        3 => ("index", read!(Index)),
        4 => ("names", read!(Names)),
        5 => ("dictionaries", {
            let index = survive(size, || Dictionaries::read(&mut tape).ok())?;
            if let Some(index) = &index {
                survive(size, || Vec::<Operations>::try_from(index).is_ok())?;
            }
            index.is_some()
        }),
        6 => ("strings", read!(Strings)),
        7 => ("subroutines", read!(Subroutines)),
        8 => ("character strings", read!(CharacterStrings, 2)),
        9 => ("dictionary", read!(Operations)),
        10 => ("character set", read!(CharacterSet, glyphs.min(1 << 17))),
        11 => ("encoding", read!(Encoding)),
        12 => ("mapping", read!(character_id_keyed::Encoding, &strings)),
        13 => ("font set", read!(FontSet)),
        14 => ("count", survive(size, || FontSet::count(&mut tape).is_ok())?),
        15 => match glyphs % 9 {
            0 => ("character set in format 0", read!(CharacterSet0, glyphs.min(1 << 17))),
            1 => ("character set in format 1", read!(CharacterSet1, glyphs.min(1 << 17))),
            2 => ("character set in format 2", read!(CharacterSet2, glyphs.min(1 << 17))),
            3 => ("encoding in format 0", read!(Encoding0)),
            4 => ("encoding in format 1", read!(Encoding1)),
            5 => ("encoding with supplement", read!(EncodingSupplemental)),
            6 => ("mapping in format 0", read!(character_id_keyed::Encoding0, &strings)),
            7 => ("mapping in format 3", read!(character_id_keyed::Encoding3)),
            _ => ("range of a mapping", read!(character_id_keyed::Range3)),
        },
        _ => {
            // Records with any dictionary
            let Ok(operations) = take::<Operations>(&case.bytes[..case.head])?.result else {
                return Ok(());
            };
            let place = case.parameter & 3;
            match case.parameter >> 2 & 3 {
                0 => ("record", read!(font_set::Record, (place, &operations, &strings))),
                1 => ("name-keyed record", read!(character_name_keyed::Record, (place, &operations))),
                2 => (
                    "character-ID-keyed record",
                    read!(character_id_keyed::Record, (place, &operations, &strings)),
                ),
                _ => (
                    "part of a character-ID-keyed record",
                    read!(character_id_keyed::RecordInner, (place, &operations)),
                ),
            }
        }
    };
    obs.label(name);
    obs.label(if accepted { "accepted" } else { "rejected" });
    obs.nontrivial_if(size > 0);
    Ok(())
}

/// Particular inputs: long numbers, long dictionaries, everything at its maximum.
fn particular(item: u64, obs: &mut Obs) -> Verdict {
    obs.nontrivial();
    let check = |bytes: Vec<u8>| {
        let size = bytes.len();
        let image = Image::flat(bytes);
        let manner = Manner { budget: Some(100_000_000), ..Manner::default() };
        let mut tape = Tape::new(&image, manner.clone());
        survive(size, || Operations::read(&mut tape).is_ok())?;
        let mut tape = Tape::new(&image, manner.clone());
        survive(size, || Number::read(&mut tape).is_ok())?;
        let mut tape = Tape::new(&image, manner.clone());
        survive(size, || FontSet::read(&mut tape).is_ok())?;
        let mut tape = Tape::new(&image, manner);
        survive(size, || Index::read(&mut tape).is_ok())?;
        Ok(())
    };
    let repeat = |start: &[u8], middle: &[u8], count: usize, end: &[u8]| {
        let mut bytes = start.to_vec();
        for _ in 0..count {
            bytes.extend(middle);
        }
        bytes.extend(end);
        bytes
    };
    match item {
        // A long real: digits, zeros, a fraction, an exponent, signs, points
        0 => check(repeat(&[30], &[0x12], 200_000, &[0xff, 5])),
        1 => check(repeat(&[30], &[0x00], 200_000, &[0xff, 5])),
        2 => check(repeat(&[30, 0x0a], &[0x00], 200_000, &[0x1f, 5])),
        3 => check(repeat(&[30, 0x1b], &[0x99], 200_000, &[0xff, 5])),
        4 => check(repeat(&[30, 0x1c], &[0x99], 200_000, &[0xff, 5])),
        5 => check(repeat(&[30], &[0xee], 100_000, &[0xff, 5])),
        6 => check(repeat(&[30], &[0xaa], 100_000, &[0xff, 5])),
        7 => check(repeat(&[30], &[0x12], 200_000, &[])),
        8 => check(repeat(&[30, 0x9a], &[0x99], 300, &[0xc9, 0x99, 0xff, 5])),
        // A long dictionary
        9 => check(repeat(&[], &[139], 500_000, &[5])),
        10 => check(repeat(&[], &[139, 5], 250_000, &[])),
        11 => check(repeat(&[], &[29, 255, 255, 255, 255], 100_000, &[12, 7])),
        12 => check(repeat(&[], &[12, 7], 200_000, &[12])),
        // An index of the maximum number of objects and nothing behind it
        13 => check(vec![255, 255, 4]),
        14 => check(vec![255, 255, 4, 0, 0, 0, 1]),
        15 => check(vec![0, 1, 4, 0, 0, 0, 1, 255, 255, 255, 255]),
        16 => check(vec![0, 2, 4, 0, 0, 0, 1, 127, 255, 255, 255, 255, 255, 255, 255]),
        17 => check(repeat(&[255, 255, 1], &[1], 65536, &[])),
        // A font set with such an index in place of the names, and of the others
        18..=21 => {
            let mut bytes = vec![1, 0, 4, 1];
            for _ in 18..item {
                bytes.extend([0, 0]);
            }
            bytes.extend([0, 1, 4, 0, 0, 0, 1, 255, 255, 255, 255]);
            check(bytes)
        }
        22 => check(vec![1, 0, 255, 1]),
        23 => check(vec![1, 0, 0, 1]),
        // Many fonts without anything
        _ => {
            let mut bytes = vec![1, 0, 4, 1, 0, 0];
            bytes.extend(repeat(&[255, 255, 1], &[1], 65536, &[]));
            bytes.extend([0, 0, 0, 0]);
            check(bytes)
        }
    }
}

pub fn c13() -> Vec<Box<dyn Sub>> {
    vec![
        random(Random {
            name: "sets",
            rule: "font sets with extreme offsets, sizes and counts and with some bytes changed; all but empty inputs are non-trivial",
            quick: 30_000,
            thorough: 2_000_000,
            generate: hostile,
            check: check_hostile,
        }),
        random(Random {
            name: "tables",
            rule: "arbitrary, cut and changed bytes read as each kind of table with arbitrary parameters; all but empty inputs are non-trivial",
            quick: 40_000,
            thorough: 3_000_000,
            generate: raw,
            check: check_raw,
        }),
        each(Each {
            name: "particular",
            rule: "very long numbers and dictionaries and indices at their maximum without data; all are non-trivial",
            quick: 25,
            thorough: 25,
            check: particular,
        }),
    ]
}

// C14: streams

fn small(g: &mut G) -> Plan {
    let shape = Shape { fonts: g.size(1, 3), cid: g.pick(&[0, 3, 8]), gaps: 0, large: false, shared: true };
    cff::plan(g, &shape)
}

fn large(g: &mut G) -> Plan {
    let shape =
        Shape { fonts: g.size(1, 3), cid: g.pick(&[0, 3, 8]), gaps: g.below(2), large: g.chance(1, 2), shared: true };
    cff::plan(g, &shape)
}

#[derive(Debug)]
struct Slow {
    plan: Plan,
    manner: Manner,
    file: bool,
}

fn slow(g: &mut G) -> Slow {
    let plan = large(g);
    let manner = Manner {
        base: if g.chance(1, 3) { g.below(100) } else { 0 },
        after: g.below(3),
        pieces: match g.below(3) {
            0 => vec![1],
            1 => vec![],
            _ => (0..g.size(1, 6)).map(|_| 1 + g.len(40)).collect(),
        },
        interrupt: if g.chance(1, 2) { Some(g.pick(&[2, 1, 3, 10, 100])) } else { None },
        fault: None,
        budget: None,
    };
    Slow { plan, manner, file: g.chance(1, 8) }
}

fn check_slow(case: &Slow, obs: &mut Obs) -> Verdict {
    describe(&case.plan, obs);
    obs.nontrivial_if(!case.manner.pieces.is_empty() || case.manner.interrupt.is_some());
    obs.label_if(!case.manner.pieces.is_empty(), "in pieces");
    obs.label_if(case.manner.interrupt.is_some(), "interrupted");
    let written = case.plan.write();
    // From a plain buffer at the same position
    let manner = Manner { base: case.manner.base, after: case.manner.after, ..Manner::default() };
    let both = |manner: &Manner| {
        let mut tape = Tape::new(&written.image, manner.clone());
        let set = sut(|| FontSet::read(&mut tape).map_err(|error| error.to_string()))
            .and_then(|set| view(&set?));
        let mut tape = Tape::new(&written.image, manner.clone());
        let count = sut(|| FontSet::count(&mut tape).map_err(|error| error.to_string()));
        (set, count.and_then(|count| count))
    };
    let plain = both(&manner);
    let good = |set: &Result<cff::Set, String>| match set {
        Ok(set) => compare(&written.expected, set).is_ok(),
        _ => false,
    };
    // What is read is judged elsewhere.
    obs.label_if(!good(&plain.0), "left to other checks");
    let like = |what: &str, found: Result<cff::Set, String>| match (&plain.0, found) {
        (Ok(one), Ok(other)) => compare(one, &other).map_err(|message| format!("{what}: {message}")),
        (Err(_), Err(_)) => Ok(()),
        (Err(_), Ok(_)) => Err(format!("{what}: read, but not from a buffer")),
        (Ok(_), Err(error)) => Err(format!("{what}: rejected: {error}")),
    };
    let found = both(&case.manner);
    like("in pieces", found.0)?;
    match (&plain.1, &found.1) {
        (Ok(one), Ok(other)) if one == other => {}
        (Err(_), Err(_)) => {}
        (one, other) => return Err(format!("the numbers of fonts: {one:?} and {other:?}")),
    }
    if case.file {
        use std::io::{BufReader, Seek, SeekFrom, Write};
        obs.label("file");
        let path = std::env::temp_dir().join(format!(
            "pvcheck-file-{}-{:p}",
            std::process::id(),
            &written.image
        ));
        let mut file = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(&path)
            .unwrap();
        std::fs::remove_file(&path).unwrap();
        file.write_all(&written.image.flatten()).unwrap();
        file.seek(SeekFrom::Start(0)).unwrap();
        let set = sut(|| FontSet::read(&mut file).map_err(|error| error.to_string()));
        like("from a file", set.and_then(|set| view(&set?)))?;
        file.seek(SeekFrom::Start(0)).unwrap();
        let mut buffered = BufReader::with_capacity(64, file);
        let set = sut(|| FontSet::read(&mut buffered).map_err(|error| error.to_string()));
        like("from a buffered file", set.and_then(|set| view(&set?)))?;
    }
    Ok(())
}

#[derive(Debug)]
struct Cut {
    plan: Plan,
    base: u64,
    seed: u64,
}

fn cut(g: &mut G) -> Cut {
    let plan = small(g);
    Cut { plan, base: g.below(20), seed: g.below(1 << 32) }
}

/// Up to so many numbers below a limit: all of them, or the ends and some others.
fn some(limit: u64, most: u64, seed: u64) -> Vec<u64> {
    if limit <= most {
        return (0..limit).collect();
    }
    let mut values: Vec<u64> = (0..most / 4).chain(limit - most / 4..limit).collect();
    let mut state = seed | 1;
    for _ in 0..most / 2 {
        state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        values.push((state >> 20) % limit);
    }
    values.sort();
    values.dedup();
    values
}

fn check_cut(case: &Cut, obs: &mut Obs) -> Verdict {
    let written = case.plan.write();
    let bytes = written.image.flatten();
    // Where the last byte that belongs to the font set ends
    let mut needed = written.preamble;
    for (start, size) in written.places.iter() {
        if *size > 0 {
            needed = needed.max(start + size);
        }
    }
    obs.nontrivial();
    let positions = some(needed, 120, case.seed);
    obs.label_if(positions.len() as u64 == needed, "every position");
    for size in positions {
        let image = Image::flat(bytes[..size as usize].to_vec());
        let mut tape = Tape::new(&image, Manner { base: case.base, ..Manner::default() });
        if read_set(&mut tape)?.is_ok() {
            return Err(format!(
                "a font set of {needed} bytes is read from the first {size} of them"
            ));
        }
    }
    // With all that is needed, as with all there is
    let read = |bytes: &[u8]| {
        let image = Image::flat(bytes.to_vec());
        let mut tape = Tape::new(&image, Manner { base: case.base, ..Manner::default() });
        read_set(&mut tape).and_then(|set| view(&set?))
    };
    match (read(&bytes), read(&bytes[..needed as usize])) {
        (Ok(one), Ok(other)) => compare(&one, &other),
        (Ok(_), Err(error)) => Err(format!("rejected without what is not needed: {error}")),
        _ => {
            obs.label("left to other checks");
            Ok(())
        }
    }
}

#[derive(Debug)]
struct Faulty {
    plan: Plan,
    base: u64,
    pieces: Vec<usize>,
    seed: u64,
    count: bool,
}

fn faulty(g: &mut G) -> Faulty {
    let plan = small(g);
    Faulty {
        plan,
        base: g.below(20),
        pieces: if g.chance(1, 4) { vec![g.size(1, 4)] } else { vec![] },
        seed: g.below(1 << 32),
        count: g.chance(1, 8),
    }
}

const KINDS: [ErrorKind; 9] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::NotFound,
    ErrorKind::InvalidInput,
];

fn check_faulty(case: &Faulty, obs: &mut Obs) -> Verdict {
    let image = case.plan.lay().image;
    let manner = Manner { base: case.base, pieces: case.pieces.clone(), ..Manner::default() };
    let run = |manner: Manner| {
        let mut tape = Tape::new(&image, manner);
        let result = if case.count {
            sut(|| FontSet::count(&mut tape).map(|_| ()))?
        } else {
            sut(|| FontSet::read(&mut tape).map(|_| ()))?
        };
        Ok::<_, String>((result, tape.operations, tape.fired))
    };
    let (Ok(_), total, _) = run(manner.clone())? else {
        obs.label("left to other checks");
        return Ok(());
    };
    obs.nontrivial();
    let places = some(total, 160, case.seed);
    obs.label_if(places.len() as u64 == total, "every read and seek");
    obs.label_if(case.count, "number of fonts");
    for at in places {
        for lasting in [false, true] {
            let kind = KINDS[((at * 2 + lasting as u64 + case.seed) % KINDS.len() as u64) as usize];
            let fault = Fault { at, kind, lasting };
            let (result, _, fired) =
                run(Manner { fault: Some(fault), ..manner.clone() })?;
            if !fired {
                obs.label("not reached again");
                continue;
            }
            match result {
                Ok(()) => return Err(format!("{fault:?} of {total}: no error")),
                Err(error) if error.kind() != kind || error.to_string() != "injected" => {
                    return Err(format!("{fault:?} of {total}: another error: {error:?}"))
                }
                _ => {}
            }
        }
    }
    equal("fault", &true, &true)
}

pub fn c14() -> Vec<Box<dyn Sub>> {
    vec![
        random(Random {
            name: "pieces",
            rule: "font sets from streams that deliver a few bytes at a time and are interrupted, and from files, compared in full with what was written; non-trivial if in pieces or interrupted",
            quick: 6_000,
            thorough: 200_000,
            generate: slow,
            check: check_slow,
        }),
        random(Random {
            name: "truncation",
            rule: "font sets cut at each position, or at a hundred of them when there are many, all of which have to be rejected; all are non-trivial",
            quick: 600,
            thorough: 30_000,
            generate: cut,
            check: check_cut,
        }),
        random(Random {
            name: "faults",
            rule: "an error injected at each read and seek, or at about a hundred and sixty of them when there are many, for once or from then on, which has to be reported as such; all are non-trivial",
            quick: 240,
            thorough: 12_000,
            generate: faulty,
            check: check_faulty,
        }),
    ]
}
