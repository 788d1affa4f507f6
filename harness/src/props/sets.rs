//! C10, C11 and C12: whole font sets.

use super::sequence::base;
use super::{random, take};
use crate::cff::{self, compare, equal, view, Charset, Enc, KindPlan, Plan, Set, Shape};
use crate::engine::{sut, Obs, Random, Sub, Verdict};
use crate::gen::G;
use crate::tapes::{Manner, Tape};
use postscript::compact1::font_set::Record;
use postscript::compact1::index::{CharacterStrings, Dictionaries, Names, Strings, Subroutines};
use postscript::compact1::{
    CharacterSet, Encoding, FontSet, Header, Number, Operations, Operator,
};
use postscript::value::Read as _;
use postscript::walue;
use std::io::Cursor;

/// Read from a stream.
pub fn read_set(tape: &mut Tape) -> Result<Result<FontSet, String>, String> {
    sut(|| FontSet::read(tape).map_err(|error| error.to_string()))
}

pub fn describe(plan: &Plan, obs: &mut Obs) {
    obs.label_if(plan.fonts.is_empty(), "no fonts");
    obs.label_if(plan.fonts.len() > 1, "several fonts");
    obs.label_if(plan.shared(), "shared character strings");
    obs.label_if(plan.pad > 0, "longer header");
    let mut kinds = [false; 2];
    for font in plan.fonts.iter() {
        obs.label(match font.charset {
            Charset::Predefined(0) => "character set 0",
            Charset::Predefined(_) => "character set 1 or 2",
            Charset::F0(_) => "character set in format 0",
            Charset::F1(_) => "character set in format 1",
            Charset::F2(_) => "character set in format 2",
        });
        obs.label(match font.encoding {
            Enc::Predefined(_) => "predefined encoding",
            Enc::Extra { .. } => "encoding with supplement",
            _ => "custom encoding",
        });
        match &font.kind {
            KindPlan::Name { subrs, .. } => {
                kinds[0] = true;
                obs.label_if(subrs.is_some(), "local subroutines");
            }
            KindPlan::Cid { privates, .. } => {
                kinds[1] = true;
                obs.label("character-ID-keyed");
                obs.label_if(privates.len() > 1, "several dictionaries");
                obs.label_if(
                    privates.iter().any(|pair| pair.1.is_some()),
                    "local subroutines of dictionaries",
                );
            }
        }
    }
    obs.label_if(kinds[0] && kinds[1], "mixed kinds");
}

fn several(g: &mut G) -> usize {
    match g.weighted(&[4, 40, 24, 8, 1]) {
        0 => 0,
        1 => 1,
        2 => g.size(2, 4),
        3 => g.size(2, 9),
        _ => g.pick(&[17, 33, 100, 255, 256, 257, 300]),
    }
}

/// A font set somewhere in a stream, as in a larger file
#[derive(Debug)]
pub struct Placed {
    pub plan: Plan,
    pub base: u64,
}

impl Placed {
    pub fn new(g: &mut G, plan: Plan) -> Self {
        Placed { plan, base: if g.chance(1, 2) { base(g) } else { 0 } }
    }

    pub fn manner(&self) -> Manner {
        Manner { base: self.base, ..Manner::default() }
    }
}

fn plain(g: &mut G) -> Placed {
    let shape = Shape { fonts: several(g), cid: 1, gaps: g.below(2), large: g.chance(1, 3), shared: true };
    let plan = cff::plan(g, &shape);
    Placed::new(g, plan)
}

fn keyed(g: &mut G) -> Placed {
    let shape =
        Shape { fonts: several(g).max(1), cid: 7, gaps: g.below(2), large: g.chance(1, 3), shared: true };
    let plan = cff::plan(g, &shape);
    Placed::new(g, plan)
}

/// Fonts of both kinds
pub fn mixed(g: &mut G) -> Placed {
    let shape = Shape {
        fonts: several(g),
        cid: g.pick(&[0, 4, 7]),
        gaps: g.below(2),
        large: g.chance(1, 3),
        shared: true,
    };
    let plan = cff::plan(g, &shape);
    Placed::new(g, plan)
}

fn check_plan(case: &Placed, obs: &mut Obs) -> Verdict {
    let Placed { plan, base } = case;
    describe(plan, obs);
    obs.label_if(*base > 0, "within a larger stream");
    let written = plan.write();
    let mut tape = Tape::new(&written.image, case.manner());
    let set = read_set(&mut tape)?.map_err(|error| format!("rejected: {error}"))?;
    compare(&written.expected, &view(&set)?)?;
    let mut tape = Tape::new(&written.image, case.manner());
    let count = sut(|| FontSet::count(&mut tape).map_err(|error| error.to_string()))?
        .map_err(|error| format!("the number of fonts: {error}"))?;
    equal("number of fonts without reading", &plan.fonts.len(), &count)?;
    if *base > 0 {
        return Ok(());
    }
    // From a plain buffer
    let bytes = written.image.flatten();
    let set = take::<FontSet>(&bytes)?.result.map_err(|error| format!("rejected: {error}"))?;
    compare(&written.expected, &view(&set)?)?;
    let count = sut(|| FontSet::count(&mut Cursor::new(&bytes)).map_err(|error| error.to_string()))?
        .map_err(|error| format!("the number of fonts: {error}"))?;
    equal("number of fonts without reading", &plan.fonts.len(), &count)
}

fn check_plain(case: &Placed, obs: &mut Obs) -> Verdict {
    obs.nontrivial_if(!case.plan.fonts.is_empty());
    check_plan(case, obs)
}

fn check_keyed(case: &Placed, obs: &mut Obs) -> Verdict {
    obs.nontrivial_if(
        case.plan.fonts.iter().any(|font| matches!(font.kind, KindPlan::Cid { .. })),
    );
    check_plan(case, obs)
}

/// Read table by table, in any order, as one would without reading whole font sets.
#[derive(Debug)]
struct Apart {
    plan: Plan,
    base: u64,
    seed: u64,
}

fn apart(g: &mut G) -> Apart {
    let shape = Shape { fonts: g.size(1, 4), cid: 4, gaps: g.below(2), large: g.chance(1, 6), shared: true };
    Apart { plan: cff::plan(g, &shape), base: base(g), seed: g.below(1 << 32) }
}

fn check_apart(case: &Apart, obs: &mut Obs) -> Verdict {
    let plan = &case.plan;
    describe(plan, obs);
    obs.nontrivial();
    let written = plan.write();
    let manner = Manner { base: case.base, ..Manner::default() };
    let mut tape = Tape::new(&written.image, manner);
    let from = case.base;
    fn read<T: postscript::value::Read>(tape: &mut Tape, at: Option<u64>, what: &str) -> Result<T, String> {
        if let Some(at) = at {
            tape.position = at;
        }
        sut(|| T::read(tape).map_err(|error| format!("{what}: rejected ({error})")))?
    }
    fn given<'l, T: walue::Read<'l>>(
        tape: &mut Tape,
        at: Option<u64>,
        parameter: T::Parameter,
        what: &str,
    ) -> Result<T, String> {
        if let Some(at) = at {
            tape.position = at;
        }
        sut(|| T::read(tape, parameter).map_err(|error| format!("{what}: rejected ({error})")))?
    }
    let header: Header = read(&mut tape, None, "header")?;
    let names: Names = read(&mut tape, Some(from + header.header_size as u64), "names")?;
    let dictionaries: Dictionaries = read(&mut tape, None, "dictionaries")?;
    let strings: Strings = read(&mut tape, None, "strings")?;
    let subroutines: Subroutines = read(&mut tape, None, "global subroutines")?;
    let count = dictionaries.len();
    equal("number of dictionaries", &plan.fonts.len(), &count)?;
    // The dictionaries one by one, in any order
    let mut order: Vec<usize> = (0..count).collect();
    order.rotate_left(case.seed as usize % count);
    if case.seed & 1 > 0 {
        order.reverse();
    }
    let mut operations = vec![Operations::default(); count];
    for i in order.iter() {
        operations[*i] = sut(|| dictionaries.get(*i).map_err(|error| error.to_string()))?
            .map_err(|error| format!("dictionary {i}: rejected ({error})"))?;
    }
    let mut parts = vec![None; count];
    for i in order.iter() {
        let operations = &operations[*i];
        let offset = |operator| -> Result<u64, String> {
            match sut(|| operations.get_single(operator))? {
                Some(Number::Integer(value)) => Ok(value as u64),
                other => Err(format!("{operator:?} is {other:?}")),
            }
        };
        let at = offset(Operator::CharStrings)?;
        let glyphs: CharacterStrings = given(&mut tape, Some(from + at), 2, "character strings")?;
        let record: Record =
            given(&mut tape, None, (from, operations, &glyphs), "record")?;
        let encoding = match offset(Operator::Encoding)? {
            0 => Encoding::Standard,
            1 => Encoding::Expert,
            at => read(&mut tape, Some(from + at), "encoding")?,
        };
        let set = match offset(Operator::CharSet)? {
            0 => CharacterSet::ISOAdobe,
            1 => CharacterSet::Expert,
            2 => CharacterSet::ExpertSubset,
            at => given(&mut tape, Some(from + at), glyphs.count as usize, "character set")?,
        };
        // The record in its own type
        let again = match record {
            Record::CharacterIDKeyed(_) => Record::CharacterIDKeyed(given(
                &mut tape,
                None,
                (from, operations, &glyphs),
                "character-ID-keyed record",
            )?),
            _ => Record::CharacterNameKeyed(given(
                &mut tape,
                None,
                (from, operations),
                "name-keyed record",
            )?),
        };
        parts[*i] = Some((encoding, glyphs, set, record, again));
    }
    let mut set = FontSet {
        header,
        names,
        operations,
        strings,
        subroutines,
        encodings: vec![],
        character_strings: vec![],
        character_sets: vec![],
        records: vec![],
    };
    let mut others = vec![];
    for part in parts.into_iter().flatten() {
        set.encodings.push(part.0);
        set.character_strings.push(part.1);
        set.character_sets.push(part.2);
        set.records.push(part.3);
        others.push(part.4);
    }
    compare(&written.expected, &view(&set)?)?;
    set.records = others;
    compare(&written.expected, &view(&set)?).map_err(|message| format!("in its own type: {message}"))
}

/// Very many fonts, which repeat and share what a few refer to
#[derive(Debug)]
struct Crowd {
    few: Plan,
    count: usize,
}

fn crowd(g: &mut G) -> Crowd {
    let shape = Shape {
        fonts: g.size(1, 4),
        cid: g.pick(&[0, 2, 7]),
        gaps: 0,
        large: false,
        shared: true,
    };
    let mut few = cff::plan(g, &shape);
    let most = match g.weighted(&[6, 2, 1]) {
        0 => g.size(258, 3000),
        1 => g.pick(&[511, 512, 513, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 8193, 10001]),
        _ => g.pick(&[16384, 16385, 32767, 32768, 32769, 65534, 65535]),
    };
    if most > 3000 {
        few.tops.iter_mut().for_each(cff::bare);
        few.blocks.iter_mut().for_each(cff::Block::bare);
    }
    let size = few.write().image.size as usize / few.fonts.len();
    Crowd { few, count: most.min(12_000_000 / size) }
}

fn check_crowd(case: &Crowd, obs: &mut Obs) -> Verdict {
    let mut plan = case.few.clone();
    let count = case.count;
    plan.tops = plan.tops.iter().cycle().take(count).cloned().collect();
    plan.fonts = plan.fonts.iter().cycle().take(count).cloned().collect();
    plan.names.objects = plan.names.objects.iter().cycle().take(count).cloned().collect();
    obs.nontrivial_if(count > 256);
    obs.label(match count {
        0..=256 => "256 fonts or less",
        257..=512 => "257 to 512 fonts",
        513..=4096 => "513 to 4096 fonts",
        4097..=32767 => "4097 to 32767 fonts",
        _ => "32768 fonts or more",
    });
    let written = plan.write();
    let mut tape = Tape::new(&written.image, Manner::default());
    let set = read_set(&mut tape)?.map_err(|error| format!("rejected: {error}"))?;
    compare(&written.expected, &view(&set)?)?;
    let mut tape = Tape::new(&written.image, Manner::default());
    let found = sut(|| FontSet::count(&mut tape).map_err(|error| error.to_string()))?
        .map_err(|error| format!("the number of fonts: {error}"))?;
    equal("number of fonts without reading", &count, &found)
}

pub fn c10() -> Vec<Box<dyn Sub>> {
    vec![random(Random {
        name: "fonts",
        rule: "font sets of up to nine fonts, written with blocks in any order, every choice of tables, encodings of numbers and offset sizes, and compared in full with what was written; non-trivial with at least one font",
        quick: 12_000,
        thorough: 400_000,
        generate: plain,
        check: check_plain,
    }),
    random(Random {
        name: "mutated",
        rule: "font sets with some bytes changed, judged by an independent reading; non-trivial if they are well-formed according to it",
        quick: 30_000,
        thorough: 1_000_000,
        generate: super::robust::mutated,
        check: super::robust::check_survivor,
    }),
    random(Random {
        name: "apart",
        rule: "font sets of one to four fonts read table by table and record by record, in any order and at any position, put together and compared in full with what was written; all are non-trivial",
        quick: 8_000,
        thorough: 300_000,
        generate: apart,
        check: check_apart,
    }),
    random(Random {
        name: "crowd",
        rule: "font sets of up to 65535 fonts, which repeat those of small sets and share their tables, compared in full with what was written; non-trivial with more than 256 fonts",
        quick: 60,
        thorough: 3_000,
        generate: crowd,
        check: check_crowd,
    })]
}

pub fn c11() -> Vec<Box<dyn Sub>> {
    vec![random(Random {
        name: "keyed",
        rule: "font sets with character-ID-keyed fonts, some of them mixed with name-keyed ones, compared in full with what was written; non-trivial with at least one character-ID-keyed font",
        quick: 10_000,
        thorough: 400_000,
        generate: keyed,
        check: check_keyed,
    })]
}

// Layouts

#[derive(Debug)]
struct Layouts {
    plan: Plan,
    first: Manner,
    /// Another order, other gaps, other fillings
    order: Vec<usize>,
    gaps: Vec<(u64, u64)>,
    second: Manner,
    fill: u8,
}

fn layouts(g: &mut G) -> Layouts {
    let shape = Shape {
        fonts: g.size(1, 4),
        cid: g.pick(&[0, 4, 8]),
        gaps: g.pick(&[0, 1, 2, 2]),
        large: false, shared: true
    };
    let mut plan = cff::plan(g, &shape);
    let order = cff::order(g, &plan.links, plan.blocks.len());
    if g.chance(1, 6) {
        cff::far(g, &mut plan);
    }
    let mut total = 0;
    let gaps = plan
        .blocks
        .iter()
        .map(|_| {
            let gap = match g.weighted(&[4, 3, 2]) {
                0 => 0,
                1 => g.below(2000),
                _ if total < 1400 << 20 => g.pick(&[65536, 1 << 20, 200 << 20]),
                _ => 0,
            };
            total += gap;
            (gap, g.below(1 << 32))
        })
        .collect();
    let first = Manner { base: base(g), after: g.below(9), ..Manner::default() };
    let second = Manner { base: base(g), after: g.below(9), ..Manner::default() };
    Layouts { plan, first, order, gaps, second, fill: g.byte() }
}

/// Without the operands that the layout determines.
fn stripped(set: &Set) -> Set {
    use crate::cff::{Kind, Map, Private};
    use crate::ops;
    let strip = |map: &mut Map| {
        for code in [
            ops::CHAR_STRINGS,
            ops::PRIVATE,
            ops::SUBRS,
            ops::FD_ARRAY,
            ops::FD_SELECT,
        ] {
            if let Some(operands) = map.get_mut(&code) {
                operands.clear();
            }
        }
        for code in [ops::CHAR_SET, ops::ENCODING] {
            if let Some(operands) = map.get_mut(&code) {
                if !matches!(operands[0], crate::num::Val::Int(0..=2)) {
                    operands.clear();
                }
            }
        }
    };
    let strip_private = |private: &mut Private| strip(&mut private.map);
    let mut set = set.clone();
    set.maps.iter_mut().for_each(strip);
    for font in set.fonts.iter_mut() {
        match &mut font.kind {
            Kind::Name(private) => strip_private(private),
            Kind::Cid { maps, privates, .. } => {
                maps.iter_mut().for_each(strip);
                privates.iter_mut().for_each(strip_private);
            }
        }
    }
    set
}

fn check_layouts(case: &Layouts, obs: &mut Obs) -> Verdict {
    let one = case.plan.write();
    let mut plan = case.plan.clone();
    plan.order = case.order.clone();
    plan.tail ^= 0x55aa;
    for (block, (gap, filler)) in plan.blocks.iter_mut().zip(case.gaps.iter()) {
        block.gap = *gap;
        block.filler = *filler;
    }
    let mut two = plan.write();
    two.image.fill = case.fill;
    obs.nontrivial_if(case.first.base != case.second.base || case.order != case.plan.order);
    obs.label_if(case.order != case.plan.order, "reordered");
    obs.label_if(case.first.base.max(case.second.base) >= 1 << 32, "beyond 4 GiB");
    obs.label_if(
        case.first.base < 1 << 32 && case.first.base + one.image.size > 1 << 32,
        "across 4 GiB",
    );
    obs.label_if(one.image.size.max(two.image.size) >= 1 << 24, "spread over 16 MiB or more");
    obs.label_if(
        one.image.size.max(two.image.size) >= 1 << 30,
        "spread over 1 GiB or more",
    );
    obs.label_if(one.image.size >= 1 << 31, "spread over 2 GiB or more");
    // Without gaps and at the beginning
    let mut plan = case.plan.clone();
    plan.order = (0..plan.blocks.len()).collect();
    cff::settle(&mut plan.order, &plan.links);
    plan.blocks.iter_mut().for_each(|block| block.gap = 0);
    let zero = plan.write();
    let mut sets = vec![];
    let mut good = true;
    for (written, manner) in
        [(&zero, &Manner::default()), (&one, &case.first), (&two, &case.second)]
    {
        let mut tape = Tape::new(&written.image, manner.clone());
        let set = read_set(&mut tape).and_then(|result| result);
        let set = set.and_then(|set| {
            let set = view(&set)?;
            good &= compare(&written.expected, &set).is_ok();
            Ok(stripped(&set))
        });
        good &= set.is_ok();
        let mut tape = Tape::new(&written.image, manner.clone());
        let count = sut(|| FontSet::count(&mut tape).map_err(|error| error.to_string()));
        sets.push((set, count.and_then(|count| count)));
    }
    // What is read is judged elsewhere.
    obs.label_if(!good, "left to other checks");
    for other in sets[1..].iter() {
        let context = |message: String| format!("between the layouts: {message}");
        match (&sets[0].0, &other.0) {
            (Ok(one), Ok(other)) => compare(one, other).map_err(context)?,
            (Err(_), Err(_)) => {}
            (Err(error), _) | (_, Err(error)) => {
                return Err(context(format!("one is read, the other is not: {error}")));
            }
        }
        if sets[0].1.is_ok() != other.1.is_ok() || sets[0].1.is_ok() && sets[0].1 != other.1 {
            return Err(context(format!("the numbers of fonts are {:?} and {:?}", sets[0].1, other.1)));
        }
    }
    Ok(())
}

pub fn c12() -> Vec<Box<dyn Sub>> {
    vec![random(Random {
        name: "layouts",
        rule: "the same font set in two layouts at two positions, with gaps of up to hundreds of megabytes, compared with what was written and with each other; non-trivial if the position or the order differs",
        quick: 8_000,
        thorough: 300_000,
        generate: layouts,
        check: check_layouts,
    })]
}
