//! C23: histories and schedules of several readings and runs.

use super::glyphs::change;
use super::alone::{self, Job};
use super::{random, take};
use super::sets::describe;
use crate::cff::{self, compare, view, Plan, Set, Shape, Written};
use crate::cffr;
use crate::engine::{sut, Obs, Random, Sub, Verdict};
use crate::gen::{expand, G};
use crate::num::{coded, Val};
use crate::ops;
use crate::t2gen::{hex, interpret, program, same_option, Lists, Run};
use crate::t2ref::{self, End, Step, Trace};
use crate::tapes::{Fault, Image, Manner, Tape};
use postscript::compact1::{FontSet, Number, Operations};
use postscript::type2::Program;
use postscript::value::Read as _;
use std::io::{ErrorKind, Read, Result as Answer, Seek, SeekFrom};
use std::sync::Barrier;

const LIMIT: u64 = 100_000;

/// Glyph programs, some of which share their subroutines
pub struct Glyphs {
    codes: Vec<Vec<u8>>,
    lists: Vec<[Vec<Vec<u8>>; 2]>,
    /// The lists of subroutines of each
    of: Vec<usize>,
}

impl std::fmt::Debug for Glyphs {
    fn fmt(&self, formatter: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for (i, code) in self.codes.iter().enumerate() {
            writeln!(formatter, "program {i}: {} with lists {}", hex(code), self.of[i])?;
        }
        for (i, [global, local]) in self.lists.iter().enumerate() {
            for (name, list) in [("global", global), ("local", local)] {
                writeln!(formatter, "lists {i}, {name}: {}", list.len())?;
                for (j, body) in list.iter().enumerate().filter(|(_, body)| body.len() > 5) {
                    writeln!(formatter, "lists {i}, {name} {j}: {}", hex(body))?;
                }
            }
        }
        Ok(())
    }
}

fn glyphs(g: &mut G, most: usize) -> Glyphs {
    let count = g.size(1, most);
    let mut result = Glyphs { codes: vec![], lists: vec![], of: vec![] };
    let mut lists: Vec<Lists> = vec![];
    for _ in 0..1 + g.weighted(&[2, 1]) {
        let mut count = || match g.weighted(&[8, 1]) {
            0 => g.size(0, 6),
            _ => g.pick(&[215, 1239, 1240, 1300]),
        };
        let (global, local) = (count(), count());
        lists.push(Lists::new(global, local));
    }
    for _ in 0..count {
        // The same program again?
        if !result.codes.is_empty() && g.chance(1, 5) {
            let i = g.size(0, result.codes.len() - 1);
            let (code, of) = (result.codes[i].clone(), result.of[i]);
            result.codes.push(code);
            result.of.push(of);
            continue;
        }
        let arith = g.pick(&[0, 0, 3]);
        let prog = program(g, arith);
        let of = g.size(0, lists.len() - 1);
        let mut code = lists[of].factor(g, &prog.toks, &prog.repeats, 0, false);
        if g.chance(1, 3) {
            change(g, &mut code);
        }
        result.codes.push(code);
        result.of.push(of);
    }
    for lists in lists.iter() {
        result.lists.push([lists.list(0, 0), lists.list(1, 0)]);
    }
    result
}

impl Glyphs {
    fn expected(&self, i: usize) -> Trace {
        let [global, local] = &self.lists[self.of[i]];
        t2ref::run(&self.codes[i], global, local, LIMIT)
    }

    fn job(&self, i: usize) -> Job {
        let [global, local] = &self.lists[self.of[i]];
        Job::Run(self.codes[i].clone(), global.clone(), local.clone())
    }

    fn start(&self, i: usize) -> Result<Program<'_>, String> {
        let [global, local] = &self.lists[self.of[i]];
        sut(|| Program::new(&self.codes[i], global, local))
    }
}

/// A run that is under way
struct Active<'a> {
    program: Program<'a>,
    done: usize,
    /// Nothing more is known about it.
    over: bool,
}

impl Active<'_> {
    fn step(&mut self, i: usize, glyphs: &Glyphs, trace: &Trace, obs: &mut Obs) -> Verdict {
        if self.over {
            return Ok(());
        }
        if self.done == trace.steps.len() && matches!(trace.end, End::Unspecified(_) | End::Long) {
            self.over = true;
            return Ok(());
        }
        let program = &mut self.program;
        let next = sut(|| {
            let next = program.next().map_err(|error| error.to_string());
            (next, program.width())
        });
        let line = alone::line(&next);
        let good = match (&next, trace.steps.get(self.done)) {
            (Ok((Ok(Some((operator, operands))), width)), Some(step)) => {
                let code = ops::PROGRAM.iter().find(|entry| entry.1 == *operator).map_or(0, |entry| entry.0);
                let found = Step { code, operands: operands.clone(), width: *width };
                crate::t2gen::compare_steps(&[step.clone()], &[found]).is_ok()
            }
            (Ok((Ok(None), width)), None) => match trace.end {
                End::Done(expected) => same_option(expected, *width),
                _ => false,
            },
            (Ok((Err(_), _)), None) => matches!(trace.end, End::Error(_)),
            _ => false,
        };
        if !good {
            let expected = match trace.steps.get(self.done) {
                Some(step) => format!("{step:x?}"),
                _ => format!("{:?}", trace.end),
            };
            let message =
                format!("program {i}, operation {}: expected {expected}, found {line}", self.done);
            self.over = true;
            // The same operation, or the last one
            return match alone::agrees(&glyphs.job(i), true, |other| {
                other.lines().nth(self.done).or(other.lines().last()) == Some(line.as_str())
            }) {
                true => {
                    obs.label("left to other checks");
                    Ok(())
                }
                _ => Err(message),
            };
        }
        match next {
            Ok((Ok(Some(_)), _)) => self.done += 1,
            Ok((Ok(None), _)) => {}
            _ => self.over = true,
        }
        Ok(())
    }
}

#[derive(Clone, Copy, Debug)]
enum Act {
    /// So many operations
    Step(usize, usize),
    Restart(usize),
    /// Exchange the places in memory.
    Swap(usize, usize),
    Drop(usize),
}

#[derive(Debug)]
struct Interleaved {
    glyphs: Glyphs,
    acts: Vec<Act>,
}

fn interleaved(g: &mut G) -> Interleaved {
    let glyphs = glyphs(g, 5);
    let count = glyphs.codes.len();
    let acts = (0..g.size(0, 60))
        .map(|_| {
            let i = g.size(0, count - 1);
            match g.weighted(&[12, 1, 1, 1]) {
                0 => Act::Step(i, 1 + g.weighted(&[6, 2, 1])),
                1 => Act::Restart(i),
                2 => Act::Swap(i, g.size(0, count - 1)),
                _ => Act::Drop(i),
            }
        })
        .collect();
    Interleaved { glyphs, acts }
}

fn check_interleaved(case: &Interleaved, obs: &mut Obs) -> Verdict {
    let glyphs = &case.glyphs;
    let count = glyphs.codes.len();
    let traces: Vec<_> = (0..count).map(|i| glyphs.expected(i)).collect();
    let mut slots: Vec<Option<Active>> = vec![];
    let start = |i: usize| -> Result<Option<Active>, String> {
        Ok(Some(Active { program: glyphs.start(i)?, done: 0, over: false }))
    };
    for i in 0..count {
        slots.push(start(i)?);
    }
    // Where the run of each program is kept
    let mut place: Vec<usize> = (0..count).collect();
    let mut last = usize::MAX;
    let mut switches = 0;
    for act in case.acts.iter() {
        match *act {
            Act::Step(i, times) => {
                let slot = &mut slots[place[i]];
                if slot.is_none() {
                    *slot = start(i)?;
                }
                let active = slot.as_mut().unwrap();
                switches += (last != usize::MAX && last != i && active.done > 0 && !active.over) as usize;
                last = i;
                for _ in 0..times {
                    active.step(i, glyphs, &traces[i], obs)?;
                }
            }
            Act::Restart(i) => slots[place[i]] = start(i)?,
            Act::Swap(i, j) => {
                slots.swap(place[i], place[j]);
                place.swap(i, j);
            }
            Act::Drop(i) => slots[place[i]] = None,
        }
    }
    // All of them to the end, in turns
    let mut left = true;
    while left {
        left = false;
        for i in 0..count {
            let Some(active) = slots[place[i]].as_mut() else { continue };
            let before = (active.done, active.over);
            active.step(i, glyphs, &traces[i], obs)?;
            left |= before != (active.done, active.over);
        }
    }
    obs.nontrivial_if(switches > 1);
    obs.label_if(traces.iter().any(|trace| matches!(trace.end, End::Error(_))), "with malformed programs");
    obs.label_if(
        (0..count).any(|i| (0..i).any(|j| glyphs.of[i] == glyphs.of[j] && glyphs.codes[i] != glyphs.codes[j])),
        "different programs with the same subroutines",
    );
    obs.label_if(
        (0..count).any(|i| (0..i).any(|j| glyphs.codes[i] == glyphs.codes[j])),
        "a program twice at the same time",
    );
    Ok(())
}

/// A stream that reads another font set and runs a program at one of its reads.
struct Nest<'a> {
    inner: Tape<'a>,
    at: u64,
    reads: u64,
    image: &'a Image,
    glyphs: &'a Glyphs,
    set: Option<Result<FontSet, String>>,
    run: Option<Result<Run, String>>,
}

impl Read for Nest<'_> {
    fn read(&mut self, buffer: &mut [u8]) -> Answer<usize> {
        let read = self.reads;
        self.reads += 1;
        if read == self.at {
            let mut tape = Tape::new(self.image, Manner::default());
            let set = sut(|| FontSet::read(&mut tape).map_err(|error| error.to_string()));
            self.set = Some(set.and_then(|set| set));
            let [global, local] = &self.glyphs.lists[self.glyphs.of[0]];
            self.run = Some(interpret(&self.glyphs.codes[0], global, local, alone::MOST));
        }
        self.inner.read(buffer)
    }
}

impl Seek for Nest<'_> {
    fn seek(&mut self, target: SeekFrom) -> Answer<u64> {
        self.inner.seek(target)
    }
}

#[derive(Clone, Copy, Debug)]
enum Deed {
    Whole(usize),
    Count(usize),
    /// Up to this part of the size, in 1/256
    Cut(usize, u64),
    /// An error at one of the first reads and seeks
    Fault(usize, u64),
    /// The first one while reading the second one
    Nested(usize, usize, u64),
    Run(usize),
    /// Some bytes changed
    Changed(usize, u64),
    Number(usize),
    Dictionary(usize),
}

#[derive(Debug)]
struct Past {
    plans: Vec<Plan>,
    glyphs: Glyphs,
    /// Numbers, some of which are cut off
    numbers: Vec<(Vec<u8>, Option<Val>)>,
    /// Dictionaries, some of which have bytes changed
    dictionaries: Vec<Hex>,
    deeds: Vec<Deed>,
}

struct Hex(Vec<u8>);

impl std::fmt::Debug for Hex {
    fn fmt(&self, formatter: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        formatter.write_str(&hex(&self.0))
    }
}

fn plans(g: &mut G, most: usize) -> Vec<Plan> {
    (0..g.size(1, most))
        .map(|_| {
            let shape =
                Shape { fonts: g.size(0, 3), cid: g.pick(&[0, 4, 8]), gaps: 0, large: false, shared: true };
            cff::plan(g, &shape)
        })
        .collect()
}

fn past(g: &mut G) -> Past {
    let plans = plans(g, 3);
    let glyphs = glyphs(g, 3);
    let numbers: Vec<_> = (0..g.size(1, 6))
        .map(|_| {
            let mut number = coded(g);
            if g.chance(1, 3) {
                number.bytes.truncate(g.size(0, number.bytes.len() - 1));
                return (number.bytes, None);
            }
            (number.bytes, Some(number.value))
        })
        .collect();
    let dictionaries: Vec<_> = (0..g.size(1, 3))
        .map(|_| {
            let mut bytes = vec![];
            for (code, arguments) in cff::entries(g) {
                let coded: Vec<_> = arguments
                    .into_iter()
                    .filter_map(|argument| match argument {
                        cff::Arg::Fixed(coded) => Some(coded),
                        _ => None,
                    })
                    .collect();
                bytes.extend(cff::entry_bytes(code, &coded));
            }
            if g.chance(1, 2) {
                super::robust::mutate(g, &mut bytes, &[]);
            }
            Hex(bytes)
        })
        .collect();
    let deeds = (0..g.size(1, 14))
        .map(|_| {
            let i = g.size(0, plans.len() - 1);
            match g.weighted(&[4, 1, 2, 2, 2, 1, 2, 3, 3]) {
                0 => Deed::Whole(i),
                1 => Deed::Count(i),
                2 => Deed::Cut(i, g.below(256)),
                3 => Deed::Fault(i, g.below(200)),
                4 => Deed::Nested(i, g.size(0, plans.len() - 1), g.below(60)),
                5 => Deed::Run(g.size(0, glyphs.codes.len() - 1)),
                6 => Deed::Changed(i, g.below(1 << 40)),
                7 => Deed::Number(g.size(0, numbers.len() - 1)),
                _ => Deed::Dictionary(g.size(0, dictionaries.len() - 1)),
            }
        })
        .collect();
    Past { plans, glyphs, numbers, dictionaries, deeds }
}

/// What is found is not what is expected. It concerns this property unless the
/// very same comes out alone, in a process that has not done anything else.
fn judge(message: String, job: Job, found: &str, obs: &mut Obs) -> Verdict {
    match alone::agrees(&job, false, |other| other == found) {
        true => {
            obs.label("left to other checks");
            Ok(())
        }
        _ => Err(message),
    }
}

fn expect(
    what: &str,
    written: &Written,
    set: Result<FontSet, String>,
    obs: &mut Obs,
) -> Result<Option<(Set, FontSet)>, String> {
    let seen = set.as_ref().map_err(|error| format!("rejected: {error}")).and_then(|set| view(set));
    let verdict = match &seen {
        Ok(seen) => compare(&written.expected, seen),
        Err(error) => Err(error.clone()),
    };
    if let Err(message) = verdict {
        let job = Job::Set(written.image.flatten());
        judge(format!("{what}: {message}"), job, &alone::set(&set), obs)?;
    }
    if let Ok(set) = &set {
        look(what, written, set, obs)?;
    }
    match (seen, set) {
        (Ok(seen), Ok(set)) => Ok(Some((seen, set))),
        _ => Ok(None),
    }
}

/// Lookups in what has been read
fn look(what: &str, written: &Written, set: &FontSet, obs: &mut Obs) -> Verdict {
    let found = alone::lookups(set);
    if let Err(message) = cff::equal(&format!("{what}: lookups"), &alone::expected_lookups(&written.expected), &found) {
        judge(message, Job::Lookups(written.image.flatten()), &found, obs)?;
    }
    Ok(())
}

fn expect_run(
    what: &str,
    trace: &Trace,
    glyphs: &Glyphs,
    i: usize,
    run: Result<Run, String>,
    obs: &mut Obs,
) -> Verdict {
    let verdict = match &run {
        Ok(run) => expect_trace(what, trace, run),
        Err(message) => Err(format!("{what}: {message}")),
    };
    match verdict {
        Ok(()) => Ok(()),
        Err(message) => judge(message, glyphs.job(i), &alone::run(&run), obs),
    }
}

fn expect_trace(what: &str, trace: &Trace, run: &Run) -> Verdict {
    let count = match trace.end {
        End::Unspecified(_) | End::Long => trace.steps.len().min(run.steps.len()),
        _ => run.steps.len(),
    };
    crate::t2gen::compare_steps(&trace.steps, &run.steps[..count])
        .map_err(|message| format!("{what}: {message}"))?;
    match (&trace.end, &run.end) {
        (End::Done(one), Ok(other)) if same_option(*one, *other) => Ok(()),
        (End::Error(_), Err(_)) | (End::Unspecified(_) | End::Long, _) => Ok(()),
        (one, other) => Err(format!("{what}: expected {one:?}, found {other:?}")),
    }
}

/// Too many instructions, perhaps?
fn light(trace: &Trace) -> bool {
    !matches!(trace.end, End::Unspecified(_) | End::Long)
}

fn check_past(case: &Past, obs: &mut Obs) -> Verdict {
    let written: Vec<_> = case.plans.iter().map(|plan| plan.write()).collect();
    for plan in case.plans.iter() {
        describe(plan, obs);
    }
    let glyphs = &case.glyphs;
    let traces: Vec<_> = (0..glyphs.codes.len()).map(|i| glyphs.expected(i)).collect();
    // What was read with what was seen at that time
    let mut kept = vec![];
    let mut others = 0;
    let from = |image: &Image, manner: Manner| {
        let mut tape = Tape::new(image, manner);
        let set = sut(|| FontSet::read(&mut tape).map_err(|error| error.to_string()));
        (set.and_then(|set| set), tape.fired)
    };
    let whole = |i: usize| from(&written[i].image, Manner::default()).0;
    for (k, deed) in case.deeds.iter().enumerate() {
        others += !matches!(deed, Deed::Whole(_)) as usize;
        let reading = |i: usize| format!("reading {k} of set {i}");
        match *deed {
            Deed::Whole(i) => {
                let pair = expect(&reading(i), &written[i], whole(i), obs)?;
                // Some are gone at once.
                if k % 3 > 0 {
                    kept.extend(pair.map(|(seen, set)| (i, seen, set)));
                }
            }
            Deed::Count(i) => {
                let mut tape = Tape::new(&written[i].image, Manner::default());
                let count = sut(|| FontSet::count(&mut tape).map_err(|error| error.to_string()));
                let count = count.and_then(|count| count);
                if count != Ok(written[i].expected.fonts.len()) {
                    let message = format!("the number of fonts of set {i}: {count:?}");
                    let job = Job::Count(written[i].image.flatten());
                    judge(message, job, &format!("{count:?}"), obs)?;
                }
            }
            Deed::Cut(i, part) => {
                obs.label("after one that is cut off");
                let mut image = Image::flat(written[i].image.flatten());
                let size = (image.size * part / 256) as usize;
                image.segments[0].1.truncate(size);
                image.size = size as u64;
                let _ = from(&image, Manner::default());
            }
            Deed::Fault(i, at) => {
                obs.label("after one that fails");
                let fault = Fault { at, kind: ErrorKind::Other, lasting: true };
                let manner = Manner { fault: Some(fault), ..Manner::default() };
                let (result, fired) = from(&written[i].image, manner);
                if !fired {
                    expect(&reading(i), &written[i], result, obs)?;
                }
            }
            Deed::Nested(i, j, at) => {
                if !light(&traces[0]) {
                    continue;
                }
                let mut nest = Nest {
                    inner: Tape::new(&written[j].image, Manner::default()),
                    at,
                    reads: 0,
                    image: &written[i].image,
                    glyphs,
                    set: None,
                    run: None,
                };
                let set = sut(|| FontSet::read(&mut nest).map_err(|error| error.to_string()));
                let (inner, run) = (nest.set.take(), nest.run.take());
                let what = format!("{} around another", reading(j));
                let pair = expect(&what, &written[j], set.and_then(|set| set), obs)?;
                kept.extend(pair.map(|(seen, set)| (j, seen, set)));
                if let (Some(set), Some(run)) = (inner, run) {
                    obs.label("one within another");
                    let what = format!("{} within another", reading(i));
                    expect(&what, &written[i], set, obs)?;
                    expect_run("a run while reading", &traces[0], glyphs, 0, run, obs)?;
                }
            }
            Deed::Changed(i, seed) => {
                obs.label("after one with bytes changed");
                let mut bytes = written[i].image.flatten();
                for piece in expand(seed | 1, 24).chunks(4) {
                    let at = u32::from_be_bytes([0, piece[0], piece[1], piece[2]]) as usize;
                    // Mostly in what is read first
                    let range = if piece[3] & 1 > 0 { bytes.len() } else { bytes.len().min(200) };
                    bytes[at % range] = piece[3];
                }
                if let Ok(set) = from(&Image::flat(bytes), Manner::default()).0 {
                    let _ = alone::lookups(&set);
                }
            }
            Deed::Number(i) => {
                let (bytes, value) = &case.numbers[i];
                let found = take::<Number>(bytes).and_then(|taken| taken.result);
                obs.label_if(value.is_none(), "after a number that is cut off");
                let good = match (value, &found) {
                    (Some(one), Ok(other)) => one.same(other),
                    (None, Err(_)) => true,
                    _ => false,
                };
                if !good {
                    let message = format!("number {i}: expected {value:?}, found {found:?}");
                    judge(message, Job::Number(bytes.clone()), &format!("{found:?}"), obs)?;
                }
            }
            Deed::Dictionary(i) => {
                let bytes = &case.dictionaries[i].0;
                let found = take::<Operations>(bytes)
                    .and_then(|taken| taken.result)
                    .and_then(|operations| cff::view_map(&operations));
                let verdict = match (cffr::dictionary(bytes), &found) {
                    (Ok(one), Ok(other)) => cff::equal(&format!("dictionary {i}"), &one, other),
                    (Ok(_), Err(error)) => Err(format!("dictionary {i}: rejected ({error})")),
                    (Err(_), Ok(_)) => Ok(()),
                    (Err(_), Err(_)) => {
                        obs.label("after a malformed dictionary");
                        Ok(())
                    }
                };
                if let Err(message) = verdict {
                    judge(message, Job::Dictionary(bytes.clone()), &format!("{found:?}"), obs)?;
                }
            }
            Deed::Run(i) => {
                if !light(&traces[i]) {
                    continue;
                }
                let [global, local] = &glyphs.lists[glyphs.of[i]];
                let run = interpret(&glyphs.codes[i], global, local, alone::MOST);
                expect_run(&format!("running program {i}"), &traces[i], glyphs, i, run, obs)?;
            }
        }
    }
    for i in 0..written.len() {
        let pair = expect(&format!("the last reading of set {i}"), &written[i], whole(i), obs)?;
        kept.extend(pair.map(|(seen, set)| (i, seen, set)));
    }
    obs.nontrivial_if(others > 0);
    // What was read before is what it was, and so are its copies.
    for (i, seen, set) in kept.iter() {
        look("later", &written[*i], set, obs)?;
        let copy = sut(|| set.clone())?;
        compare(seen, &view(set)?).map_err(|message| format!("later: {message}"))?;
        compare(seen, &view(&copy)?).map_err(|message| format!("a copy: {message}"))?;
    }
    Ok(())
}

#[derive(Debug)]
struct Threads {
    plans: Vec<Plan>,
    glyphs: Glyphs,
    /// What each thread does: sets and programs
    duties: Vec<Vec<(bool, usize)>>,
}

fn threads(g: &mut G) -> Threads {
    let plans = plans(g, 2);
    let glyphs = glyphs(g, 3);
    let duties = (0..g.size(1, 6))
        .map(|_| {
            (0..g.size(1, 12))
                .map(|_| match g.below(3) {
                    0 => (true, g.size(0, plans.len() - 1)),
                    _ => (false, g.size(0, glyphs.codes.len() - 1)),
                })
                .collect()
        })
        .collect();
    Threads { plans, glyphs, duties }
}

enum Result_ {
    Set(usize, Result<FontSet, String>),
    Run(usize, Result<Run, String>),
}

fn check_threads(case: &Threads, obs: &mut Obs) -> Verdict {
    let written: Vec<_> = case.plans.iter().map(|plan| plan.write()).collect();
    let images: Vec<_> = written.iter().map(|written| Image::flat(written.image.flatten())).collect();
    let traces: Vec<_> = (0..case.glyphs.codes.len()).map(|i| case.glyphs.expected(i)).collect();
    obs.nontrivial_if(case.duties.len() > 1);
    let barrier = Barrier::new(case.duties.len());
    let (barrier, images, glyphs, traces) = (&barrier, &images, &case.glyphs, &traces);
    let results: Vec<Result<Vec<Result_>, String>> = sut(|| {
        std::thread::scope(|scope| {
            let handles: Vec<_> = case
                .duties
                .iter()
                .map(|duties| {
                    scope.spawn(move || {
                        barrier.wait();
                        sut(|| {
                            let mut results = vec![];
                            for (set, i) in duties.iter().copied() {
                                if set {
                                    let mut tape = Tape::new(&images[i], Manner::default());
                                    let set = sut(|| {
                                        FontSet::read(&mut tape).map_err(|error| error.to_string())
                                    });
                                    results.push(Result_::Set(i, set.and_then(|set| set)));
                                } else if light(&traces[i]) {
                                    let [global, local] = &glyphs.lists[glyphs.of[i]];
                                    let run = interpret(&glyphs.codes[i], global, local, alone::MOST);
                                    results.push(Result_::Run(i, run));
                                }
                            }
                            results
                        })
                    })
                })
                .collect();
            handles
                .into_iter()
                .map(|handle| handle.join().unwrap_or_else(|_| Err("a thread panicked".to_string())))
                .collect()
        })
    })?;
    for result in results {
        for result in result? {
            match result {
                Result_::Set(i, set) => {
                    expect(&format!("set {i} among threads"), &written[i], set, obs)?;
                }
                Result_::Run(i, run) => {
                    let what = format!("program {i} among threads");
                    expect_run(&what, &traces[i], glyphs, i, run, obs)?;
                }
            }
        }
    }
    Ok(())
}

pub fn c23() -> Vec<Box<dyn Sub>> {
    vec![
        random(Random {
            name: "interleaved",
            rule: "up to five glyph programs, some malformed, some the same, some with the same subroutines, advanced in any order, moved in memory, dropped and started again; non-trivial if a run under way is left and resumed more than once",
            quick: 20_000,
            thorough: 1_000_000,
            generate: interleaved,
            check: check_interleaved,
        }),
        random(Random {
            name: "past",
            rule: "up to fourteen readings of up to three font sets, whole, cut off, changed, failing, within one another, and of numbers and dictionaries, some of them malformed, and runs of glyph programs in between; non-trivial if any is not a plain whole reading",
            quick: 4_000,
            thorough: 200_000,
            generate: past,
            check: check_past,
        }),
        random(Random {
            name: "threads",
            rule: "up to six threads that read font sets and run glyph programs at the same time; non-trivial with at least two",
            quick: 4_000,
            thorough: 150_000,
            generate: threads,
            check: check_threads,
        }),
    ]
}
