//! Font sets: a model, a writer, a generator, and a view of what was parsed.

use crate::gen::G;
use crate::num::{coded, coded_int, encode_int, int_widths, sibling, Coded, Val};
use crate::ops;
use crate::tapes::Image;
use postscript::compact1::font_set::{self, character_id_keyed, FontSet};
use postscript::compact1::index::Index;
use postscript::compact1::{CharacterSet, Encoding, Operations};
use std::collections::BTreeMap;
use std::fmt::Debug;

// What is expected

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Table {
    pub size: u8,
    pub objects: Vec<Vec<u8>>,
}

pub type Map = BTreeMap<u16, Vec<Val>>;

#[derive(Clone, Debug, PartialEq)]
pub enum Charset {
    Predefined(u8),
    F0(Vec<u16>),
    F1(Vec<(u16, u8)>),
    F2(Vec<(u16, u16)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Enc {
    Predefined(u8),
    F0(Vec<u8>),
    F1(Vec<(u8, u8)>),
    Extra { format: u8, codes: Vec<u8>, ranges: Vec<(u8, u8)>, extras: Vec<(u8, u16)> },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Select {
    F0(Vec<u8>),
    F3(Vec<(u16, u8)>, u16),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Private {
    pub map: Map,
    pub subrs: Table,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Name(Private),
    Cid {
        registry: u16,
        ordering: u16,
        supplement: Val,
        select: Select,
        maps: Vec<Map>,
        privates: Vec<Private>,
    },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Font {
    pub charset: Charset,
    pub encoding: Enc,
    pub glyphs: Table,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Set {
    pub header: [u8; 4],
    pub names: Table,
    pub maps: Vec<Map>,
    pub strings: Table,
    pub gsubrs: Table,
    pub fonts: Vec<Font>,
}

// What is found

pub fn view_index(index: &Index) -> Result<Table, String> {
    let count = index.count as usize;
    if index.data.len() != count {
        return Err(format!("an index of {count} objects contains {}", index.data.len()));
    }
    if index.len() != count || (0..count).any(|i| index[i] != index.data[i]) {
        return Err("an index does not dereference to its data".to_string());
    }
    let mut offset = 1;
    let mut offsets = vec![];
    if count > 0 {
        offsets.push(1);
        for object in index.data.iter() {
            offset += object.len() as u32;
            offsets.push(offset);
        }
    }
    if index.offsets.iter().map(|offset| offset.0).ne(offsets.iter().cloned()) {
        return Err(format!(
            "the offsets of an index are {:?} instead of {offsets:?}",
            index.offsets.iter().take(20).collect::<Vec<_>>()
        ));
    }
    Ok(Table { size: index.offset_size, objects: index.data.clone() })
}

pub fn view_map(operations: &Operations) -> Result<Map, String> {
    let mut map = Map::new();
    for (operator, operands) in operations.iter() {
        let entry = ops::DICTIONARY
            .iter()
            .find(|entry| entry.1 == *operator)
            .ok_or_else(|| format!("an unexpected operator {operator:?}"))?;
        map.insert(entry.0, operands.iter().map(|number| view_number(*number)).collect());
    }
    Ok(map)
}

pub fn view_number(number: postscript::compact1::Number) -> Val {
    match number {
        postscript::compact1::Number::Integer(value) => Val::Int(value),
        postscript::compact1::Number::Real(value) => Val::Real(value),
    }
}

pub fn view_charset(set: &CharacterSet) -> Charset {
    match set {
        CharacterSet::ISOAdobe => Charset::Predefined(0),
        CharacterSet::Expert => Charset::Predefined(1),
        CharacterSet::ExpertSubset => Charset::Predefined(2),
        CharacterSet::Format0(set) => Charset::F0(set.glyphs.clone()),
        CharacterSet::Format1(set) => Charset::F1(
            set.ranges.iter().map(|range| (range.first_string_id, range.left_count)).collect(),
        ),
        CharacterSet::Format2(set) => Charset::F2(
            set.ranges.iter().map(|range| (range.first_string_id, range.left_count)).collect(),
        ),
    }
}

/// The format field that goes with what is found.
pub fn charset_format(set: &CharacterSet) -> Option<u8> {
    match set {
        CharacterSet::Format0(set) => Some(set.format),
        CharacterSet::Format1(set) => Some(set.format),
        CharacterSet::Format2(set) => Some(set.format),
        _ => None,
    }
}

pub fn view_encoding(encoding: &Encoding) -> Result<Enc, String> {
    Ok(match encoding {
        Encoding::Standard => Enc::Predefined(0),
        Encoding::Expert => Enc::Predefined(1),
        Encoding::Format0(encoding) => {
            if encoding.format != 0 || encoding.code_count as usize != encoding.codes.len() {
                return Err(format!("an inconsistent encoding {encoding:?}"));
            }
            Enc::F0(encoding.codes.clone())
        }
        Encoding::Format1(encoding) => {
            if encoding.format != 1 || encoding.range_count as usize != encoding.ranges.len() {
                return Err(format!("an inconsistent encoding {encoding:?}"));
            }
            Enc::F1(encoding.ranges.iter().map(|range| (range.first_code, range.left_count)).collect())
        }
        Encoding::FormatSupplemental(encoding) => {
            if encoding.supplement_count as usize != encoding.supplements.len() {
                return Err(format!("an inconsistent encoding {encoding:?}"));
            }
            Enc::Extra {
                format: encoding.format,
                codes: encoding.codes.clone(),
                ranges: encoding
                    .ranges
                    .iter()
                    .map(|range| (range.first_code, range.left_count))
                    .collect(),
                extras: encoding.supplements.iter().map(|item| (item.code, item.glyph)).collect(),
            }
        }
    })
}

pub fn view_select(encoding: &character_id_keyed::Encoding) -> Result<Select, String> {
    Ok(match encoding {
        character_id_keyed::Encoding::Format0(encoding) => {
            if encoding.format != 0 {
                return Err(format!("an inconsistent mapping {encoding:?}"));
            }
            Select::F0(encoding.dictionary_ids.clone())
        }
        character_id_keyed::Encoding::Format3(encoding) => {
            if encoding.format != 3 || encoding.range_count as usize != encoding.ranges.len() {
                return Err(format!("an inconsistent mapping {encoding:?}"));
            }
            Select::F3(
                encoding
                    .ranges
                    .iter()
                    .map(|range| (range.first_glyph_id, range.dictionary_id))
                    .collect(),
                encoding.glyph_count,
            )
        }
    })
}

pub fn view(set: &FontSet) -> Result<Set, String> {
    let count = set.operations.len();
    if set.encodings.len() != count
        || set.character_sets.len() != count
        || set.character_strings.len() != count
        || set.records.len() != count
    {
        return Err(format!(
            "{count} fonts with {} encodings, {} character sets, {} character strings, {} records",
            set.encodings.len(),
            set.character_sets.len(),
            set.character_strings.len(),
            set.records.len()
        ));
    }
    let mut fonts = vec![];
    for i in 0..count {
        let private = |operations: &Operations, subroutines: &Index| {
            Ok::<_, String>(Private { map: view_map(operations)?, subrs: view_index(subroutines)? })
        };
        let kind = match &set.records[i] {
            font_set::Record::CharacterNameKeyed(record) => {
                Kind::Name(private(&record.operations, &record.subroutines)?)
            }
            font_set::Record::CharacterIDKeyed(record) => Kind::Cid {
                registry: record.registry,
                ordering: record.ordering,
                supplement: view_number(record.supplement),
                select: view_select(&record.encoding)?,
                maps: record.operations.iter().map(view_map).collect::<Result<_, _>>()?,
                privates: record
                    .records
                    .iter()
                    .map(|record| private(&record.operations, &record.subroutines))
                    .collect::<Result<_, _>>()?,
            },
        };
        let charset = view_charset(&set.character_sets[i]);
        let format = match charset {
            Charset::Predefined(_) => None,
            Charset::F0(_) => Some(0),
            Charset::F1(_) => Some(1),
            Charset::F2(_) => Some(2),
        };
        if charset_format(&set.character_sets[i]) != format {
            return Err("an inconsistent format of a character set".to_string());
        }
        fonts.push(Font {
            charset,
            encoding: view_encoding(&set.encodings[i])?,
            glyphs: view_index(&set.character_strings[i])?,
            kind,
        });
    }
    let header = &set.header;
    Ok(Set {
        header: [header.major, header.minor, header.header_size, header.offset_size],
        names: view_index(&set.names)?,
        maps: set.operations.iter().map(view_map).collect::<Result<_, _>>()?,
        strings: view_index(&set.strings)?,
        gsubrs: view_index(&set.subroutines)?,
        fonts,
    })
}

fn clipped(value: &impl Debug) -> String {
    let text = format!("{value:?}");
    if text.len() > 600 {
        let mut end = 600;
        while !text.is_char_boundary(end) {
            end -= 1;
        }
        format!("{}…", &text[..end])
    } else {
        text
    }
}

pub fn equal<T: PartialEq + Debug>(what: &str, expected: &T, found: &T) -> Result<(), String> {
    if expected == found {
        Ok(())
    } else {
        Err(format!("{what}: expected {}, found {}", clipped(expected), clipped(found)))
    }
}

/// Compare piece by piece so that the message is to the point.
pub fn compare(expected: &Set, found: &Set) -> Result<(), String> {
    equal("header", &expected.header, &found.header)?;
    equal("names", &expected.names, &found.names)?;
    equal("dictionaries", &expected.maps, &found.maps)?;
    equal("strings", &expected.strings, &found.strings)?;
    equal("global subroutines", &expected.gsubrs, &found.gsubrs)?;
    equal("number of fonts", &expected.fonts.len(), &found.fonts.len())?;
    for (i, (expected, found)) in expected.fonts.iter().zip(found.fonts.iter()).enumerate() {
        equal(&format!("font {i}, character strings"), &expected.glyphs, &found.glyphs)?;
        equal(&format!("font {i}, character set"), &expected.charset, &found.charset)?;
        equal(&format!("font {i}, encoding"), &expected.encoding, &found.encoding)?;
        equal(&format!("font {i}, record"), &expected.kind, &found.kind)?;
    }
    Ok(())
}

// What is written

#[derive(Clone, Debug)]
pub struct IndexPlan {
    pub objects: Vec<Vec<u8>>,
    /// At least this offset size
    pub size: u8,
}

pub fn needed_size(data: usize) -> u8 {
    match data + 1 {
        0..=0xff => 1,
        0x100..=0xffff => 2,
        0x1_0000..=0xff_ffff => 3,
        _ => 4,
    }
}

impl IndexPlan {
    pub fn table(&self) -> Table {
        if self.objects.is_empty() {
            return Table::default();
        }
        let data = self.objects.iter().map(|object| object.len()).sum();
        Table { size: self.size.max(needed_size(data)), objects: self.objects.clone() }
    }

    pub fn bytes(&self) -> Vec<u8> {
        index_bytes(&self.table())
    }
}

pub fn index_bytes(table: &Table) -> Vec<u8> {
    let mut bytes = (table.objects.len() as u16).to_be_bytes().to_vec();
    if table.objects.is_empty() {
        return bytes;
    }
    bytes.push(table.size);
    let mut offset = 1u32;
    let put = |bytes: &mut Vec<u8>, offset: u32| {
        bytes.extend_from_slice(&offset.to_be_bytes()[4 - table.size as usize..])
    };
    put(&mut bytes, offset);
    for object in table.objects.iter() {
        offset += object.len() as u32;
        put(&mut bytes, offset);
    }
    for object in table.objects.iter() {
        bytes.extend_from_slice(object);
    }
    bytes
}

#[derive(Clone, Debug)]
pub enum Link {
    /// The position of a block
    At(usize),
    /// The size of a block
    Size(usize),
    /// The position of a block relative to another one
    Relative(usize, usize),
}

#[derive(Clone)]
pub enum Arg {
    Fixed(Coded),
    Link(usize),
}

impl Debug for Arg {
    fn fmt(&self, formatter: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Arg::Fixed(coded) => coded.fmt(formatter),
            Arg::Link(link) => write!(formatter, "link{link}"),
        }
    }
}

pub type DictPlan = Vec<(u16, Vec<Arg>)>;

#[derive(Clone, Debug)]
pub enum Body {
    Bytes(Vec<u8>),
    Index(IndexPlan),
    Dict(DictPlan),
    Dicts(Vec<DictPlan>, u8),
}

#[derive(Clone, Debug)]
pub struct Block {
    pub body: Body,
    /// What precedes it
    pub gap: u64,
    pub filler: u64,
}

#[derive(Clone, Debug)]
pub enum KindPlan {
    Name { private: usize, subrs: Option<usize> },
    Cid { select: Select, array: usize, privates: Vec<(usize, Option<usize>)> },
}

#[derive(Clone, Debug)]
pub struct FontPlan {
    pub glyphs: usize,
    pub charset: Charset,
    pub encoding: Enc,
    pub kind: KindPlan,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub header: [u8; 4],
    pub pad: u64,
    pub names: IndexPlan,
    pub tops: Vec<DictPlan>,
    pub tops_size: u8,
    pub strings: IndexPlan,
    pub gsubrs: IndexPlan,
    /// The links with the least width of their encoding
    pub links: Vec<(Link, u8)>,
    pub blocks: Vec<Block>,
    pub order: Vec<usize>,
    pub fonts: Vec<FontPlan>,
    pub tail: u64,
}

/// Where everything has been put.
pub struct Laid {
    pub image: Image,
    pub values: Vec<i32>,
    /// The start and the size of each block
    pub places: Vec<(u64, u64)>,
    /// The end of the global subroutines
    pub preamble: u64,
}

/// A written font set.
pub struct Written {
    pub image: Image,
    /// The start and the size of each block
    pub places: Vec<(u64, u64)>,
    pub expected: Set,
    /// The end of the global subroutines
    pub preamble: u64,
}

fn operator_bytes(code: u16) -> Vec<u8> {
    if code > 0xff {
        code.to_be_bytes().to_vec()
    } else {
        vec![code as u8]
    }
}

pub fn entry_bytes(code: u16, operands: &[Coded]) -> Vec<u8> {
    let mut bytes = vec![];
    for operand in operands {
        bytes.extend_from_slice(&operand.bytes);
    }
    bytes.extend(operator_bytes(code));
    bytes
}

fn dict_size(plan: &DictPlan, widths: &[u8]) -> usize {
    plan.iter()
        .map(|(code, arguments)| {
            1 + (*code > 0xff) as usize
                + arguments
                    .iter()
                    .map(|argument| match argument {
                        Arg::Fixed(coded) => coded.bytes.len(),
                        Arg::Link(link) => widths[*link] as usize,
                    })
                    .sum::<usize>()
        })
        .sum()
}

fn dict_bytes(plan: &DictPlan, widths: &[u8], values: &[i32]) -> Vec<u8> {
    let mut bytes = vec![];
    for (code, arguments) in plan {
        for argument in arguments {
            match argument {
                Arg::Fixed(coded) => bytes.extend_from_slice(&coded.bytes),
                Arg::Link(link) => bytes.extend(encode_int(values[*link], widths[*link])),
            }
        }
        bytes.extend(operator_bytes(*code));
    }
    bytes
}

fn dict_map(plan: &DictPlan, values: &[i32]) -> Map {
    plan.iter()
        .map(|(code, arguments)| {
            let operands = arguments
                .iter()
                .map(|argument| match argument {
                    Arg::Fixed(coded) => coded.value,
                    Arg::Link(link) => Val::Int(values[*link]),
                })
                .collect();
            (*code, operands)
        })
        .collect()
}

fn dicts_table(plans: &[DictPlan], size: u8, widths: &[u8], values: &[i32]) -> Table {
    IndexPlan { objects: plans.iter().map(|plan| dict_bytes(plan, widths, values)).collect(), size }
        .table()
}

fn dicts_size(plans: &[DictPlan], size: u8, widths: &[u8]) -> usize {
    if plans.is_empty() {
        return 2;
    }
    let data = plans.iter().map(|plan| dict_size(plan, widths)).sum();
    3 + (plans.len() + 1) * size.max(needed_size(data)) as usize + data
}

impl Plan {
    pub fn lay(&self) -> Laid {
        let mut widths: Vec<u8> = self.links.iter().map(|link| link.1).collect();
        let names = self.names.bytes();
        let strings = self.strings.bytes();
        let gsubrs = self.gsubrs.bytes();
        let bodies: Vec<Option<Vec<u8>>> = self
            .blocks
            .iter()
            .map(|block| match &block.body {
                Body::Bytes(bytes) => Some(bytes.clone()),
                Body::Index(index) => Some(index.bytes()),
                _ => None,
            })
            .collect();
        let mut places = vec![(0u64, 0u64); self.blocks.len()];
        let (values, preamble) = loop {
            let preamble = 4
                + self.pad
                + names.len() as u64
                + dicts_size(&self.tops, self.tops_size, &widths) as u64
                + strings.len() as u64
                + gsubrs.len() as u64;
            let mut position = preamble;
            for i in self.order.iter() {
                position += self.blocks[*i].gap;
                let size = match (&self.blocks[*i].body, &bodies[*i]) {
                    (_, Some(bytes)) => bytes.len(),
                    (Body::Dict(plan), _) => dict_size(plan, &widths),
                    (Body::Dicts(plans, size), _) => dicts_size(plans, *size, &widths),
                    _ => unreachable!(),
                } as u64;
                places[*i] = (position, size);
                position += size;
            }
            let values: Vec<i32> = self
                .links
                .iter()
                .map(|(link, _)| {
                    let value = match link {
                        Link::At(block) => places[*block].0 as i64,
                        Link::Size(block) => places[*block].1 as i64,
                        Link::Relative(from, to) => places[*to].0 as i64 - places[*from].0 as i64,
                    };
                    assert!((0..=i32::MAX as i64).contains(&value), "a link out of range: {value}");
                    value as i32
                })
                .collect();
            let mut changed = false;
            for (i, value) in values.iter().enumerate() {
                if !int_widths(*value).contains(&widths[i]) {
                    widths[i] = match widths[i] {
                        1 => 2,
                        2 => 3,
                        _ => 5,
                    };
                    changed = true;
                }
            }
            if !changed {
                break (values, preamble);
            }
        };
        let mut image = Image::default();
        image.push(&self.header);
        image.gap(self.pad, self.tail + 1);
        image.push(&names);
        image.push(&index_bytes(&dicts_table(&self.tops, self.tops_size, &widths, &values)));
        image.push(&strings);
        image.push(&gsubrs);
        assert_eq!(image.size, preamble);
        for i in self.order.iter() {
            let block = &self.blocks[*i];
            image.gap(block.gap, block.filler);
            assert_eq!(image.size, places[*i].0);
            match (&block.body, &bodies[*i]) {
                (_, Some(bytes)) => image.push(bytes),
                (Body::Dict(plan), _) => image.push(&dict_bytes(plan, &widths, &values)),
                (Body::Dicts(plans, size), _) => {
                    image.push(&index_bytes(&dicts_table(plans, *size, &widths, &values)))
                }
                _ => unreachable!(),
            }
        }
        Laid { image, values, places, preamble }
    }

    pub fn write(&self) -> Written {
        let Laid { image, values, places, preamble } = self.lay();
        let private = |(block, subrs): (usize, Option<usize>)| {
            let Body::Dict(plan) = &self.blocks[block].body else { unreachable!() };
            let subrs = match subrs {
                Some(subrs) => self.index(subrs).table(),
                _ => Table::default(),
            };
            Private { map: dict_map(plan, &values), subrs }
        };
        let expected = Set {
            header: self.header,
            names: self.names.table(),
            maps: self.tops.iter().map(|plan| dict_map(plan, &values)).collect(),
            strings: self.strings.table(),
            gsubrs: self.gsubrs.table(),
            fonts: self
                .fonts
                .iter()
                .enumerate()
                .map(|(i, font)| Font {
                    charset: font.charset.clone(),
                    encoding: font.encoding.clone(),
                    glyphs: self.index(font.glyphs).table(),
                    kind: match &font.kind {
                        KindPlan::Name { private: block, subrs } => {
                            Kind::Name(private((*block, *subrs)))
                        }
                        KindPlan::Cid { select, array, privates } => {
                            let Body::Dicts(plans, _) = &self.blocks[*array].body else {
                                unreachable!()
                            };
                            let top = dict_map(&self.tops[i], &values);
                            let ros = &top[&ops::ROS];
                            let id = |value: Val| match value {
                                Val::Int(value) => value as u16,
                                _ => unreachable!(),
                            };
                            Kind::Cid {
                                registry: id(ros[0]),
                                ordering: id(ros[1]),
                                supplement: ros[2],
                                select: select.clone(),
                                maps: plans.iter().map(|plan| dict_map(plan, &values)).collect(),
                                privates: privates.iter().map(|pair| private(*pair)).collect(),
                            }
                        }
                    },
                })
                .collect(),
        };
        Written { image, places, expected, preamble }
    }

    pub fn index(&self, block: usize) -> &IndexPlan {
        match &self.blocks[block].body {
            Body::Index(index) => index,
            _ => unreachable!(),
        }
    }

    pub fn index_mut(&mut self, block: usize) -> &mut IndexPlan {
        match &mut self.blocks[block].body {
            Body::Index(index) => index,
            _ => unreachable!(),
        }
    }

    /// The blocks that the fonts share are counted once.
    pub fn shared(&self) -> bool {
        for (i, one) in self.fonts.iter().enumerate() {
            for other in self.fonts[..i].iter() {
                if one.glyphs == other.glyphs {
                    return true;
                }
            }
        }
        false
    }
}

// Bytes of the other tables

impl Charset {
    pub fn bytes(&self) -> Vec<u8> {
        let mut bytes = vec![];
        match self {
            Charset::Predefined(_) => unreachable!(),
            Charset::F0(ids) => {
                bytes.push(0);
                for id in ids {
                    bytes.extend(id.to_be_bytes());
                }
            }
            Charset::F1(ranges) => {
                bytes.push(1);
                for (first, left) in ranges {
                    bytes.extend(first.to_be_bytes());
                    bytes.push(*left);
                }
            }
            Charset::F2(ranges) => {
                bytes.push(2);
                for (first, left) in ranges {
                    bytes.extend(first.to_be_bytes());
                    bytes.extend(left.to_be_bytes());
                }
            }
        }
        bytes
    }
}

impl Enc {
    pub fn bytes(&self) -> Vec<u8> {
        let mut bytes = vec![];
        let pairs = |bytes: &mut Vec<u8>, pairs: &[(u8, u8)]| {
            bytes.push(pairs.len() as u8);
            for (one, two) in pairs {
                bytes.extend([*one, *two]);
            }
        };
        match self {
            Enc::Predefined(_) => unreachable!(),
            Enc::F0(codes) => {
                bytes.extend([0, codes.len() as u8]);
                bytes.extend(codes);
            }
            Enc::F1(ranges) => {
                bytes.push(1);
                pairs(&mut bytes, ranges);
            }
            Enc::Extra { format, codes, ranges, extras } => {
                bytes.push(*format);
                if *format == 0x80 {
                    bytes.push(codes.len() as u8);
                    bytes.extend(codes);
                } else {
                    pairs(&mut bytes, ranges);
                }
                bytes.push(extras.len() as u8);
                for (code, glyph) in extras {
                    bytes.push(*code);
                    bytes.extend(glyph.to_be_bytes());
                }
            }
        }
        bytes
    }
}

impl Select {
    pub fn bytes(&self) -> Vec<u8> {
        let mut bytes = vec![];
        match self {
            Select::F0(ids) => {
                bytes.push(0);
                bytes.extend(ids);
            }
            Select::F3(ranges, sentinel) => {
                bytes.push(3);
                bytes.extend((ranges.len() as u16).to_be_bytes());
                for (first, id) in ranges {
                    bytes.extend(first.to_be_bytes());
                    bytes.push(*id);
                }
                bytes.extend(sentinel.to_be_bytes());
            }
        }
        bytes
    }
}

// What is generated

/// A custom character set for a number of glyphs.
pub fn charset(g: &mut G, glyphs: usize) -> Charset {
    assert!(glyphs > 0);
    let left = glyphs - 1;
    match g.below(3) {
        0 => {
            if left <= 40 {
                Charset::F0((0..left).map(|_| g.below(65536) as u16).collect())
            } else {
                let bytes = g.blob(2 * left);
                Charset::F0(bytes.chunks(2).map(|pair| u16::from_be_bytes([pair[0], pair[1]])).collect())
            }
        }
        format => {
            let limit = if format == 1 { 256 } else { 65536 };
            let mut ranges = vec![];
            let mut rest = left;
            let many = if g.chance(1, 4) { 600 } else { 40 };
            while rest > 0 {
                let most = rest.min(limit);
                // Short ranges for small fonts, long ones otherwise
                let size = if ranges.len() > many {
                    most
                } else {
                    match g.weighted(if many > 40 { &[1, 0, 0, 0] } else { &[3, 2, 1, 2] }) {
                        0 => g.size(1, most.min(3)),
                        1 => g.size(1, most),
                        2 => most.saturating_sub(g.size(0, 2)).max(1),
                        _ => most,
                    }
                };
                ranges.push((g.below(65536 - (size as u64 - 1)) as u16, size - 1));
                rest -= size;
            }
            if format == 1 {
                Charset::F1(ranges.into_iter().map(|(first, left)| (first, left as u8)).collect())
            } else {
                Charset::F2(ranges.into_iter().map(|(first, left)| (first, left as u16)).collect())
            }
        }
    }
}

pub fn encoding(g: &mut G) -> Enc {
    let base = g.chance(1, 2);
    let extra = g.chance(1, 2);
    let count = match g.weighted(&[8, 4, 1, 1]) {
        0 => g.size(0, 4),
        1 => g.size(0, 60),
        2 => g.size(0, 255),
        _ => g.pick(&[127, 128, 254, 255]),
    };
    let codes: Vec<u8> = if base { vec![] } else { g.blob(count) };
    let ranges: Vec<(u8, u8)> = if base {
        g.blob(2 * count).chunks(2).map(|pair| (pair[0], pair[1].min(255 - pair[0]))).collect()
    } else {
        vec![]
    };
    if !extra {
        return if base { Enc::F1(ranges) } else { Enc::F0(codes) };
    }
    let count = match g.weighted(&[8, 4, 1, 1]) {
        0 => g.size(0, 4),
        1 => g.size(0, 60),
        2 => g.size(0, 255),
        _ => g.pick(&[127, 128, 254, 255]),
    };
    let extras = g
        .blob(3 * count)
        .chunks(3)
        .map(|triple| (triple[0], u16::from_be_bytes([triple[1], triple[2]])))
        .collect();
    Enc::Extra { format: 0x80 | base as u8, codes, ranges, extras }
}

/// A well-formed mapping of glyphs to dictionaries.
pub fn select(g: &mut G, glyphs: usize, dictionaries: usize) -> Select {
    if g.chance(1, 2) {
        let mut ids = g.blob(glyphs);
        for id in ids.iter_mut() {
            *id = (*id as usize % dictionaries) as u8;
        }
        Select::F0(ids)
    } else {
        let mut ranges = vec![];
        let mut first = 0;
        // Short ranges only, now and then
        let weights = if g.chance(1, 3) { [1, 0, 0] } else { [3, 1, 2] };
        while first < glyphs && ranges.len() < 3000 {
            ranges.push((first as u16, g.below(dictionaries as u64) as u8));
            let most = glyphs - first;
            first += match g.weighted(&weights) {
                0 => g.size(1, most.min(3)),
                1 => g.size(1, most),
                _ => most,
            };
        }
        Select::F3(ranges, glyphs as u16)
    }
}

/// An object of an index.
pub fn object(g: &mut G) -> Vec<u8> {
    let size = match g.weighted(&[16, 6, 1, 1]) {
        0 => g.size(0, 6),
        1 => g.size(0, 40),
        2 => g.size(0, 1000),
        _ => g.pick(&[253, 254, 255, 256, 300, 1000]),
    };
    g.blob(size)
}

pub fn index(g: &mut G, count: usize) -> IndexPlan {
    let objects = if count <= 24 {
        let mut objects: Vec<Vec<u8>> = vec![];
        for i in 0..count {
            if i > 0 && g.chance(1, 8) {
                // Like some other object, or almost
                let mut copy = objects[i - 1 - g.size(0, i - 1)].clone();
                if !copy.is_empty() && g.chance(3, 4) {
                    let last = copy.len() - 1;
                    let j = last - g.size(0, last);
                    copy[j] = copy[j].wrapping_add(1);
                }
                objects.push(copy);
            } else {
                objects.push(object(g));
            }
        }
        objects
    } else {
        // Bulk content
        let lengths = g.blob(count);
        let cut = g.size(1, 5) as u8;
        let total: usize = lengths.iter().map(|length| (length % cut) as usize).sum();
        let data = g.blob(total);
        let mut position = 0;
        lengths
            .iter()
            .map(|length| {
                let size = (length % cut) as usize;
                position += size;
                data[position - size..position].to_vec()
            })
            .collect()
    };
    IndexPlan { objects, size: offset_size(g) }
}

pub fn offset_size(g: &mut G) -> u8 {
    [1, 2, 3, 4][g.weighted(&[4, 2, 1, 1])]
}

/// A number of objects, glyphs or subroutines.
pub fn count(g: &mut G, low: usize) -> usize {
    match g.weighted(&[40, 30, 6, 4, 1]) {
        0 => g.size(low, 4),
        1 => g.size(low, 14),
        2 => g.pick(&[24, 25, 127, 255, 256, 257, 300, 600]),
        3 => g.size(low, 1000),
        _ => g.pick(&[1239, 1240, 2000, 5000]),
    }
}

const STRUCTURE: [u16; 9] = [
    ops::CHAR_SET,
    ops::ENCODING,
    ops::CHAR_STRINGS,
    ops::PRIVATE,
    ops::SUBRS,
    ops::CHAR_STRING_TYPE,
    ops::ROS,
    ops::FD_ARRAY,
    ops::FD_SELECT,
];

/// Nothing but the structure
pub fn bare(plan: &mut DictPlan) {
    plan.retain(|(code, _)| STRUCTURE.contains(code));
}

impl Block {
    pub fn bare(&mut self) {
        match &mut self.body {
            Body::Dict(plan) => bare(plan),
            Body::Dicts(plans, _) => plans.iter_mut().for_each(bare),
            _ => {}
        }
    }
}

pub fn operands(g: &mut G) -> Vec<Coded> {
    let count = match g.weighted(&[80, 40, 10, 8, 1, 1]) {
        0 => g.size(0, 4),
        1 => g.size(0, 14),
        2 => g.size(0, 48),
        3 => 48,
        // More than an interpreter of PostScript has to accept
        4 => g.size(49, 70),
        _ => g.pick(&[49, 100, 255, 256, 257, 513, 600]),
    };
    (0..count).map(|_| coded(g)).collect()
}

/// Entries that have nothing to do with the structure of a font set.
pub fn entries(g: &mut G) -> DictPlan {
    let count = match g.weighted(&[4, 4, 1]) {
        0 => g.size(0, 3),
        1 => g.size(0, 10),
        _ => g.size(0, 40),
    };
    let mut plan: DictPlan = vec![];
    for _ in 0..count {
        let code = if !plan.is_empty() && g.chance(1, 12) {
            plan[g.size(0, plan.len() - 1)].0
        } else {
            g.pick(&ops::DICTIONARY).0
        };
        if STRUCTURE.contains(&code) {
            continue;
        }
        plan.push((code, operands(g).into_iter().map(Arg::Fixed).collect()));
    }
    plan
}

/// A copy that differs in one operand, if in anything, and is as long.
pub fn relative(g: &mut G, plan: &DictPlan) -> DictPlan {
    let mut plan = plan.clone();
    if !plan.is_empty() && g.chance(7, 8) {
        let last = plan.len() - 1;
        let i = last - g.size(0, last);
        let operands = &mut plan[i].1;
        if !operands.is_empty() {
            let last = operands.len() - 1;
            let j = last - g.size(0, last);
            if let Arg::Fixed(operand) = &operands[j] {
                operands[j] = Arg::Fixed(sibling(g, operand));
            }
        }
    }
    plan
}

struct Builder {
    links: Vec<(Link, u8)>,
    blocks: Vec<Block>,
    gaps: u64,
    /// What there is besides the structure, of dictionaries of every kind
    entries: Vec<DictPlan>,
    shared: bool,
    charsets: Vec<(usize, Charset)>,
    encodings: Vec<(usize, Enc)>,
    selects: Vec<(usize, Select)>,
    subrs: Vec<usize>,
}

impl Builder {
    fn block(&mut self, g: &mut G, body: Body) -> usize {
        let gap = match g.weighted(&[6, 3, 1]) {
            0 => 0,
            1 => g.below(10),
            _ => match self.gaps {
                0 => g.below(300),
                1 => g.pick(&[100, 1000, 1100, 32000, 33000, 65536, 70000]),
                _ => g.pick(&[100, 70000, 1 << 24, 300 << 20]),
            },
        };
        let total: u64 = self.blocks.iter().map(|block| block.gap).sum();
        let gap = if total > 1400 << 20 { 0 } else { gap };
        let filler = if gap > 0 { g.below(1 << 32) } else { 0 };
        self.blocks.push(Block { body, gap, filler });
        self.blocks.len() - 1
    }

    /// Entries like those of some other dictionary now and then
    fn entries(&mut self, g: &mut G) -> DictPlan {
        let plan = if !self.entries.is_empty() && g.chance(1, 4) {
            let last = self.entries.len() - 1;
            let i = last - g.size(0, last);
            relative(g, &self.entries[i])
        } else {
            entries(g)
        };
        self.entries.push(plan.clone());
        plan
    }

    fn link(&mut self, g: &mut G, link: Link) -> Arg {
        let width = g.pick(&[5, 1, 2, 3]);
        self.links.push((link, width));
        Arg::Link(self.links.len() - 1)
    }
}

fn insert(g: &mut G, plan: &mut DictPlan, low: usize, entry: (u16, Vec<Arg>)) {
    let position = g.size(low, plan.len());
    plan.insert(position, entry);
}

fn fixed(g: &mut G, value: i32) -> Arg {
    Arg::Fixed(coded_int(g, value))
}

pub struct Shape {
    pub fonts: usize,
    /// Character-ID-keyed fonts out of eight
    pub cid: u64,
    /// 0: small gaps, 1: up to 64 KiB, 2: hundreds of megabytes
    pub gaps: u64,
    pub large: bool,
    /// Whether tables other than character strings and private dictionaries are shared, too
    pub shared: bool,
}

impl Charset {
    /// What a font with so many glyphs finds where this one is
    fn prefix(&self, glyphs: usize) -> Option<Charset> {
        let ranges = |counts: Vec<usize>| {
            let mut total = 1;
            for (i, count) in counts.iter().enumerate() {
                total += count;
                if total == glyphs {
                    return Some(i + 1);
                }
            }
            None
        };
        match self {
            Charset::Predefined(_) => None,
            Charset::F0(ids) if glyphs >= 1 && ids.len() >= glyphs - 1 => {
                Some(Charset::F0(ids[..glyphs - 1].to_vec()))
            }
            Charset::F0(_) => None,
            Charset::F1(list) => {
                let count = ranges(list.iter().map(|range| range.1 as usize + 1).collect())?;
                Some(Charset::F1(list[..count].to_vec()))
            }
            Charset::F2(list) => {
                let count = ranges(list.iter().map(|range| range.1 as usize + 1).collect())?;
                Some(Charset::F2(list[..count].to_vec()))
            }
        }
    }
}

impl Select {
    /// What a font with so many glyphs and dictionaries finds where this one is
    fn prefix(&self, glyphs: usize, dictionaries: usize) -> Option<Select> {
        let known = |id: &u8| (*id as usize) < dictionaries;
        match self {
            Select::F0(list) if list.len() >= glyphs && list[..glyphs].iter().all(known) => {
                Some(Select::F0(list[..glyphs].to_vec()))
            }
            Select::F3(ranges, end)
                if *end as usize == glyphs && ranges.iter().all(|(_, id)| known(id)) =>
            {
                Some(self.clone())
            }
            _ => None,
        }
    }
}

/// A private dictionary with its subroutines.
fn private(g: &mut G, builder: &mut Builder, large: bool) -> (usize, Option<usize>) {
    let mut plan = builder.entries(g);
    let subrs = if g.chance(2, 3) {
        let count = if large { count(g, 0) } else { g.size(0, 5) };
        if builder.shared && !builder.subrs.is_empty() && g.chance(1, 6) {
            Some(g.pick(&builder.subrs))
        } else {
            let index = index(g, count);
            let block = builder.block(g, Body::Index(index));
            builder.subrs.push(block);
            Some(block)
        }
    } else {
        None
    };
    // The block itself follows the subroutines in the list.
    let block = builder.blocks.len();
    if let Some(subrs) = subrs {
        let link = builder.link(g, Link::Relative(block, subrs));
        insert(g, &mut plan, 0, (ops::SUBRS, vec![link]));
    }
    let actual = builder.block(g, Body::Dict(plan));
    assert_eq!(actual, block);
    (block, subrs)
}

/// A well-formed font set.
pub fn plan(g: &mut G, shape: &Shape) -> Plan {
    let mut builder = Builder {
        links: vec![],
        blocks: vec![],
        gaps: shape.gaps,
        entries: vec![],
        shared: shape.shared,
        charsets: vec![],
        encodings: vec![],
        selects: vec![],
        subrs: vec![],
    };
    let mut tops = vec![];
    let mut fonts: Vec<FontPlan> = vec![];
    for i in 0..shape.fonts {
        let mut top = builder.entries(g);
        let cid = g.chance(shape.cid, 8);
        let low = if cid {
            // The first entry, as the specification demands
            let registry = match g.below(3) {
                0 => g.below(400) as i32,
                1 => g.pick(&[0, 390, 391, 32767, 32768, 65534, 65535]),
                _ => g.below(65536) as i32,
            };
            let ordering = g.below(65536) as i32;
            let supplement = if g.chance(1, 8) { coded(g) } else {
                let value = g.int32();
                coded_int(g, value)
            };
            let operands =
                vec![fixed(g, registry), fixed(g, ordering), Arg::Fixed(supplement)];
            top.insert(0, (ops::ROS, operands));
            1
        } else {
            0
        };
        // Fonts may share blocks.
        let twin = if i > 0 && g.chance(1, 6) { Some(g.size(0, i - 1)) } else { None };
        let glyphs = match twin {
            Some(twin) => fonts[twin].glyphs,
            _ => {
                let count = if shape.large { count(g, 1) } else { g.size(1, 8) };
                let index = index(g, count);
                builder.block(g, Body::Index(index))
            }
        };
        let glyph_count = match &builder.blocks[glyphs].body {
            Body::Index(index) => index.objects.len(),
            _ => unreachable!(),
        };
        let link = builder.link(g, Link::At(glyphs));
        insert(g, &mut top, low, (ops::CHAR_STRINGS, vec![link]));
        if g.chance(1, 4) {
            let two = fixed(g, 2);
            insert(g, &mut top, low, (ops::CHAR_STRING_TYPE, vec![two]));
        }
        let charset = match g.weighted(&[2, 1, 1, 1, 6]) {
            0 => Charset::Predefined(0),
            choice @ 1..=3 => {
                let value = fixed(g, choice as i32 - 1);
                insert(g, &mut top, low, (ops::CHAR_SET, vec![value]));
                Charset::Predefined(choice as u8 - 1)
            }
            _ => {
                let mut found = None;
                if shape.shared && !builder.charsets.is_empty() && g.chance(1, 4) {
                    let (block, charset) = &builder.charsets[g.size(0, builder.charsets.len() - 1)];
                    found = charset.prefix(glyph_count).map(|charset| (*block, charset));
                }
                let (block, charset) = match found {
                    Some(pair) => pair,
                    _ => {
                        let charset = charset(g, glyph_count);
                        let block = builder.block(g, Body::Bytes(charset.bytes()));
                        builder.charsets.push((block, charset.clone()));
                        (block, charset)
                    }
                };
                let link = builder.link(g, Link::At(block));
                insert(g, &mut top, low, (ops::CHAR_SET, vec![link]));
                charset
            }
        };
        let weights = if cid { [1, 0, 0, 0] } else { [2, 1, 1, 5] };
        let encoding = match g.weighted(&weights) {
            0 => Enc::Predefined(0),
            choice @ 1..=2 => {
                let value = fixed(g, choice as i32 - 1);
                insert(g, &mut top, low, (ops::ENCODING, vec![value]));
                Enc::Predefined(choice as u8 - 1)
            }
            _ => {
                let (block, encoding) =
                    if shape.shared && !builder.encodings.is_empty() && g.chance(1, 4) {
                        builder.encodings[g.size(0, builder.encodings.len() - 1)].clone()
                    } else {
                        let encoding = encoding(g);
                        let block = builder.block(g, Body::Bytes(encoding.bytes()));
                        builder.encodings.push((block, encoding.clone()));
                        (block, encoding)
                    };
                let link = builder.link(g, Link::At(block));
                insert(g, &mut top, low, (ops::ENCODING, vec![link]));
                encoding
            }
        };
        let kind = if cid {
            let count = match g.weighted(&[10, 4, 1]) {
                0 => g.size(1, 3),
                1 => g.size(1, 8),
                _ => g.pick(&[16, 31, 60, 128, 255, 256, 257, 300]),
            };
            let mut privates: Vec<(usize, Option<usize>)> = vec![];
            let mut dictionaries = vec![];
            for _ in 0..count {
                let same = if count < 100 { 1 } else { 7 };
                let pair = if !privates.is_empty() && g.chance(same, 8) {
                    g.pick(&privates)
                } else {
                    private(g, &mut builder, shape.large && count < 4)
                };
                privates.push(pair);
                let mut dictionary =
                    if count < 100 && g.chance(1, 2) { builder.entries(g) } else { vec![] };
                let size = builder.link(g, Link::Size(pair.0));
                let at = builder.link(g, Link::At(pair.0));
                insert(g, &mut dictionary, 0, (ops::PRIVATE, vec![size, at]));
                dictionaries.push(dictionary);
            }
            let size = offset_size(g);
            let array = builder.block(g, Body::Dicts(dictionaries, size));
            let link = builder.link(g, Link::At(array));
            insert(g, &mut top, low, (ops::FD_ARRAY, vec![link]));
            let mut found = None;
            if shape.shared && !builder.selects.is_empty() && g.chance(1, 4) {
                let (block, select) = &builder.selects[g.size(0, builder.selects.len() - 1)];
                found = select.prefix(glyph_count, count).map(|select| (*block, select));
            }
            let (block, select) = match found {
                Some(pair) => pair,
                _ => {
                    let select = select(g, glyph_count, count);
                    let block = builder.block(g, Body::Bytes(select.bytes()));
                    builder.selects.push((block, select.clone()));
                    (block, select)
                }
            };
            let link = builder.link(g, Link::At(block));
            insert(g, &mut top, low, (ops::FD_SELECT, vec![link]));
            KindPlan::Cid { select, array, privates }
        } else {
            let pair = match twin.map(|twin| &fonts[twin].kind) {
                Some(KindPlan::Name { private, subrs }) if g.chance(1, 2) => (*private, *subrs),
                _ => private(g, &mut builder, shape.large),
            };
            let size = builder.link(g, Link::Size(pair.0));
            let at = builder.link(g, Link::At(pair.0));
            insert(g, &mut top, low, (ops::PRIVATE, vec![size, at]));
            KindPlan::Name { private: pair.0, subrs: pair.1 }
        };
        tops.push(top);
        fonts.push(FontPlan { glyphs, charset, encoding, kind });
    }
    let names = IndexPlan {
        objects: (0..shape.fonts)
            .map(|_| {
                let size = g.size(0, 12);
                g.bytes_of(size)
            })
            .collect(),
        size: offset_size(g),
    };
    let tops_size = offset_size(g);
    let string_count = if shape.large { count(g, 0) } else { g.size(0, 4) };
    let strings = index(g, string_count);
    let gsubr_count = if shape.large { count(g, 0) } else { g.size(0, 4) };
    let gsubrs = index(g, gsubr_count);
    let pad = if g.chance(1, 4) { g.pick(&[1, 2, 4, 100, 250, 251]) } else { 0 };
    let header = [
        1,
        if g.chance(1, 8) { g.byte() } else { 0 },
        4 + pad as u8,
        offset_size(g),
    ];
    let order = order(g, &builder.links, builder.blocks.len());
    let tail = g.below(1 << 16);
    Plan {
        header,
        pad,
        names,
        tops,
        tops_size,
        strings,
        gsubrs,
        links: builder.links,
        blocks: builder.blocks,
        order,
        fonts,
        tail,
    }
}

/// Put local subroutines more than two gigabytes into the font set, which the two
/// offsets that lead there do not exceed. Returns whether there are any.
pub fn far(g: &mut G, plan: &mut Plan) -> bool {
    let (mut froms, mut tos) = (vec![], vec![]);
    for (link, _) in plan.links.iter() {
        if let Link::Relative(from, to) = link {
            froms.push(*from);
            tos.push(*to);
        }
    }
    // Those that others refer to by their position
    let direct = |block: usize| {
        plan.links.iter().any(|(link, _)| matches!(link, Link::At(other) if *other == block))
    };
    if tos.is_empty() || tos.iter().any(|to| direct(*to) || froms.contains(to)) {
        return false;
    }
    let mut order = plan.order.clone();
    // Those that come first, the private dictionaries, and the subroutines
    let rank = |block: &usize| tos.contains(block) as u8 * 2 + froms.contains(block) as u8;
    order.sort_by_key(rank);
    for block in plan.blocks.iter_mut() {
        block.gap %= 300;
    }
    let one = *order.iter().find(|block| rank(block) == 1).unwrap();
    let two = *order.iter().find(|block| rank(block) == 2).unwrap();
    plan.blocks[one].gap = 1_100_000_000 + g.below(900_000_000);
    plan.blocks[two].gap = 1_100_000_000 + g.below(900_000_000);
    plan.order = order;
    true
}

/// An order of blocks in which subroutines follow their private dictionaries.
pub fn order(g: &mut G, links: &[(Link, u8)], count: usize) -> Vec<usize> {
    let mut order: Vec<usize> = (0..count).collect();
    if g.chance(3, 4) {
        for i in (1..count).rev() {
            let j = i - g.size(0, i);
            order.swap(i, j);
        }
    }
    settle(&mut order, links);
    order
}

/// What is referred to relatively comes after what refers to it.
pub fn settle(order: &mut [usize], links: &[(Link, u8)]) {
    for (link, _) in links {
        if let Link::Relative(from, to) = link {
            let one = order.iter().position(|block| block == from).unwrap();
            let two = order.iter().position(|block| block == to).unwrap();
            if two < one {
                order.swap(one, two);
            }
        }
    }
}
