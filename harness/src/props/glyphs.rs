//! C15 to C20 and C22: glyph programs.

use super::sets::{read_set, Placed};
use super::{each, random};
use crate::cff::{self, compare, view, Kind, KindPlan, Select, Set, Shape, Table};
use crate::cffr::{self, No};
use crate::engine::{sut, Each, Obs, Random, Sub, Verdict};
use crate::gen::G;
use crate::ops;
use crate::t2gen::{
    self, compare_steps, encode_integer, expect_run, fixed_value, flatten, hex, interpret, program,
    same_option,
    Builder, Factored, Lists, Prog, Tok,
};
use crate::t2ref::{self, bias, End, Step};
use crate::tapes::Tape;
use postscript::compact1::FontSet;
use postscript::type2::Program;
use postscript::value::Read as _;
use std::io::Cursor;

const LIMIT: u64 = 3_000_000;

// Writing programs by hand

#[derive(Clone, Default)]
struct Code {
    bytes: Vec<u8>,
    steps: Vec<Step>,
    width: Option<f32>,
}

impl Code {
    fn new() -> Self {
        Code::default()
    }

    fn int(mut self, value: i32) -> Self {
        put_int(&mut self.bytes, value);
        self
    }

    fn ints(mut self, values: &[i32]) -> Self {
        for value in values {
            put_int(&mut self.bytes, *value);
        }
        self
    }

    fn fixed(mut self, raw: i32) -> Self {
        self.bytes.push(255);
        self.bytes.extend(raw.to_be_bytes());
        self
    }

    fn op(mut self, code: u16) -> Self {
        put_op(&mut self.bytes, code);
        self
    }

    fn raw(mut self, bytes: &[u8]) -> Self {
        self.bytes.extend_from_slice(bytes);
        self
    }

    /// The operator is expected to be reported.
    fn report(self, code: u16, operands: &[f32]) -> Self {
        let mut code_ = self.op(code);
        let width = code_.width;
        code_.steps.push(Step { code, operands: operands.to_vec(), width });
        code_
    }

    /// The operands and the operator
    fn step(self, code: u16, operands: &[i32]) -> Self {
        let values: Vec<f32> = operands.iter().map(|value| *value as f32).collect();
        self.ints(operands).report(code, &values)
    }

    fn width(mut self, width: Option<f32>) -> Self {
        self.width = width;
        self
    }
}

fn put_int(bytes: &mut Vec<u8>, value: i32) {
    match value {
        -107..=107 => bytes.push((value + 139) as u8),
        108..=1131 => {
            bytes.push(247 + ((value - 108) >> 8) as u8);
            bytes.push((value - 108) as u8);
        }
        -1131..=-108 => {
            bytes.push(251 + ((-value - 108) >> 8) as u8);
            bytes.push((-value - 108) as u8);
        }
        -32768..=32767 => {
            bytes.push(28);
            bytes.extend((value as i16).to_be_bytes());
        }
        _ => unreachable!(),
    }
}

fn put_op(bytes: &mut Vec<u8>, code: u16) {
    if code > 0xff {
        bytes.extend(code.to_be_bytes());
    } else {
        bytes.push(code as u8);
    }
}

/// The expectation built with a program is also that of the interpreter.
fn agree(steps: &[Step], end: Result<Option<f32>, ()>, code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>]) {
    let trace = t2ref::run(code, global, local, LIMIT);
    if let Err(message) = compare_steps(steps, &trace.steps) {
        panic!("the oracles disagree: {message} in {}", hex(code));
    }
    match (&end, &trace.end) {
        (Ok(one), End::Done(other)) if t2gen::same_option(*one, *other) => {}
        (Err(()), End::Error(_)) => {}
        _ => panic!("the oracles disagree: {end:?}, {:?} in {}", trace.end, hex(code)),
    }
}

/// A program runs to its end as expected.
fn complete(code: &Code, global: &[Vec<u8>], local: &[Vec<u8>]) -> Verdict {
    agree(&code.steps, Ok(code.width), &code.bytes, global, local);
    let prog = Prog {
        toks: vec![],
        steps: code.steps.clone(),
        width: code.width,
        stems: 0,
        repeats: vec![],
        arithmetic: 0,
    };
    let run = interpret(&code.bytes, global, local, code.steps.len() + 8)?;
    expect_run(&prog, &run).map_err(|message| format!("{message}; program {}", hex(&code.bytes)))
}

/// A program reports what is expected and then an error.
fn rejected(code: &Code, global: &[Vec<u8>], local: &[Vec<u8>]) -> Verdict {
    agree(&code.steps, Err(()), &code.bytes, global, local);
    let run = interpret(&code.bytes, global, local, code.steps.len() + 8)?;
    let context = |message: String| format!("{message}; program {}", clipped(&code.bytes));
    compare_steps(&code.steps, &run.steps).map_err(context)?;
    match run.end {
        Err(_) => Ok(()),
        Ok(width) => Err(context(format!("an end with the width {width:?} instead of an error"))),
    }
}

fn clipped(bytes: &[u8]) -> String {
    if bytes.len() > 400 {
        format!("{}… ({} bytes)", hex(&bytes[..400]), bytes.len())
    } else {
        hex(bytes)
    }
}

fn check_prog(prog: &Prog, obs: &mut Obs) -> Verdict {
    let code = flatten(&prog.toks);
    agree(&prog.steps, Ok(prog.width), &code, &[], &[]);
    obs.label_if(prog.width.is_some(), "with a width");
    obs.label_if(prog.stems > 8, "more than eight stems");
    obs.label_if(prog.stems > 48, "more than 48 stems");
    obs.label_if(prog.steps.iter().any(|step| matches!(step.code, 0x13 | 0x14)), "masks");
    obs.label_if(
        prog.steps.iter().any(|step| step.operands.len() >= 47),
        "a full stack of operands",
    );
    obs.label_if(prog.steps.iter().any(|step| step.code > 0xff), "flexes");
    obs.label_if(prog.arithmetic > 0, "arithmetic");
    obs.label_if(prog.arithmetic > 20, "more than 20 arithmetic operators");
    obs.label_if(
        prog.toks.iter().any(|tok| matches!(tok, Tok::Num(bytes) if bytes[0] == 255)),
        "fixed-point numbers",
    );
    let run = interpret(&code, &[], &[], prog.steps.len() + 8)?;
    expect_run(prog, &run)
}

// C15

/// The numbers of operands that each operator takes.
fn grammar() -> Vec<(u16, usize)> {
    let mut forms = vec![];
    for count in 1..=48usize {
        for code in [0x01, 0x03, 0x12, 0x17, 0x05] {
            if count % 2 == 0 {
                forms.push((code, count));
            }
        }
        forms.push((0x06, count));
        forms.push((0x07, count));
        if count % 6 == 0 {
            forms.push((0x08, count));
        }
        for code in [0x1a, 0x1b, 0x1e, 0x1f] {
            if count >= 4 && count % 4 <= 1 {
                forms.push((code, count));
            }
        }
        if count >= 8 && count % 6 == 2 {
            forms.push((0x18, count));
        }
        if count >= 8 && count % 2 == 0 {
            forms.push((0x19, count));
        }
    }
    forms.extend([(0x04, 1), (0x15, 2), (0x16, 1)]);
    forms.extend([(0x0c22, 7), (0x0c23, 13), (0x0c24, 9), (0x0c25, 11)]);
    forms
}

fn check_grammar(item: u64, _: &mut Obs) -> Verdict {
    let forms = grammar();
    let (code, count) = forms[item as usize % forms.len()];
    let style = item as usize / forms.len();
    let mut program = Code::new();
    // Stems come first.
    let stem = matches!(code, 0x01 | 0x03 | 0x12 | 0x17);
    if !stem {
        program = program.step(0x15, &[100, -200]);
    }
    let mut operands = vec![];
    for i in 0..count as i32 {
        match style {
            0 => {
                program = program.int(i + 1);
                operands.push((i + 1) as f32);
            }
            1 => {
                let value = (i * 331 - 6000) * if i % 2 == 0 { 1 } else { 3 };
                program = program.int(value);
                operands.push(value as f32);
            }
            2 => {
                let raw = (i - 20) * 0x2_9000 + 0x4000;
                program = program.fixed(raw);
                operands.push(fixed_value(raw));
            }
            // Equal operands
            _ => {
                program = program.int(0);
                operands.push(0.0);
            }
        }
    }
    program = program.report(code, &operands);
    if stem {
        program = program.step(0x15, &[5, 6]);
    }
    complete(&program.step(0x06, &[7]).step(0x05, &[8, 9]).op(0x0e), &[], &[])
}

/// The bytes of a mask that would mean something else
const MASKS: [u8; 5] = [0x0e, 0x00, 0xff, 0x1c, 0x0b];

/// More stems than an interpreter of PostScript has to accept
const MORE_STEMS: [usize; 16] =
    [97, 104, 105, 120, 127, 128, 129, 200, 248, 249, 255, 256, 257, 300, 512, 1000];

fn check_masks(item: u64, obs: &mut Obs) -> Verdict {
    let mut item = item as usize;
    let mut pick = |count: usize| {
        let value = item % count;
        item /= count;
        value
    };
    let declared = match pick(97 + MORE_STEMS.len()) {
        declared if declared <= 96 => declared,
        i => MORE_STEMS[i - 97],
    };
    let implicit = pick(25);
    let style = pick(4);
    let stems = declared + implicit;
    if stems == 0 {
        return Ok(());
    }
    obs.label_if(stems > 96, "more than 96 stems");
    obs.nontrivial();
    obs.label_if(implicit > 0, "implicit stems");
    obs.label_if(declared == 0, "only implicit stems");
    obs.label_if(stems % 8 == 0, "a multiple of eight");
    let mask = if style % 2 == 0 { 0x13 } else { 0x14 };
    let size = stems.div_ceil(8);
    let mut program = Code::new();
    let mut left = declared;
    let mut turn = 0;
    while left > 0 {
        let most = [24, 23, 1, 8][(turn + style) % 4];
        let count = left.min(most);
        let operands: Vec<i32> = (0..2 * count as i32).map(|i| i * 7 + 1).collect();
        program = program.step([0x12, 0x17, 0x01, 0x03][(turn / 2) % 4], &operands);
        left -= count;
        turn += 1;
    }
    let operands: Vec<i32> = (0..2 * implicit as i32).map(|i| i * 5 + 2).collect();
    let bytes = |shift: usize| -> Vec<u8> { (0..size).map(|i| MASKS[(i + shift) % 5]).collect() };
    program = program.ints(&operands).report(mask, &[]).raw(&bytes(style));
    if style >= 2 {
        // Counters and the first hints
        program = program.report(0x27 - mask, &[]).raw(&bytes(style + 1));
    }
    program = program.step(0x15, &[1, 2]).step(0x06, &[3]);
    program = program.report(0x13, &[]).raw(&bytes(style + 2));
    complete(&program.step(0x05, &[4, 5]).op(0x0e), &[], &[])
}

fn plain(g: &mut G) -> Prog {
    program(g, 0)
}

fn check_plain(prog: &Prog, obs: &mut Obs) -> Verdict {
    obs.nontrivial_if(prog.steps.len() >= 3);
    check_prog(prog, obs)
}

/// Every number in glyph programs of up to three bytes, and a sample of the rest
fn check_operands(item: u64, obs: &mut Obs) -> Verdict {
    obs.nontrivial();
    let mut program = Code::new();
    let mut operands = vec![];
    if item < 1639 {
        // 28, in runs of 40
        for i in item * 40..(item * 40 + 40).min(65536) {
            let value = i as u16 as i16;
            program = program.raw(&[28]).raw(&value.to_be_bytes());
            operands.push(value as f32);
        }
    } else {
        let from = (item - 1639) * 40;
        for i in from..(from + 40).min(2263) {
            let value = i as i32 - 1131;
            program = program.int(value);
            operands.push(value as f32);
        }
    }
    complete(&program.report(0x06, &operands).op(0x0e), &[], &[])
}

const SIZES: [usize; 16] = [
    127, 128, 254, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 131073, 200_001,
];

/// Operations that take so many bytes in total, each of them different from its neighbours
fn filler(size: usize, seed: i32) -> Code {
    let mut code = Code::new();
    let mut i = seed;
    while code.bytes.len() < size {
        let left = size - code.bytes.len();
        if left <= 30 {
            // Operands that take one byte each
            let operands: Vec<i32> = (1..left as i32).map(|j| (i + j) % 100).collect();
            return code.step(0x06, &operands);
        }
        let (operator, count) = [(0x05, 2), (0x06, 3), (0x07, 3), (0x1b, 4), (0x16, 1)][i as usize % 5];
        let operands: Vec<i32> = (0..count).map(|j| (i * 13 + j) % 30000 - 15000).collect();
        code = code.step(operator, &operands);
        i += 1;
    }
    code
}

/// Programs of certain sizes, with masks in between
fn check_long(item: u64, obs: &mut Obs) -> Verdict {
    let size = SIZES[item as usize % SIZES.len()];
    let masks = item as usize / SIZES.len() > 0;
    obs.nontrivial();
    let mut program = Code::new();
    if masks {
        program = program.step(0x12, &[1, 2, 3, 4]).step(0x17, &(1..=20).collect::<Vec<_>>());
        program = program.report(0x13, &[]).raw(&[0x15, 0x0e]);
    }
    program = program.step(0x15, &[1, 2]);
    let filler = filler(size - program.bytes.len(), 1);
    program.steps.extend(filler.steps);
    program.bytes.extend(filler.bytes);
    if masks {
        program = program.report(0x14, &[]).raw(&[0x0e, 0x0c]);
    }
    program = program.step(0x04, &[7]);
    complete(&program.op(0x0e), &[], &[])
}

pub fn c15() -> Vec<Box<dyn Sub>> {
    let forms = grammar().len() as u64 * 4;
    vec![
        each(Each {
            name: "long",
            rule: "programs of up to 200000 bytes around powers of two, without and with masks; all count",
            quick: 2 * SIZES.len() as u64,
            thorough: 2 * SIZES.len() as u64,
            check: check_long,
        }),
        random(Random {
            name: "programs",
            rule: "programs with hints, masks and paths, expanded from the grammar together with their operations; non-trivial with three operations or more",
            quick: 60_000,
            thorough: 4_000_000,
            generate: plain,
            check: check_plain,
        }),
        each(Each {
            name: "grammar",
            rule: "every operator with every number of operands that it takes, up to 48, in four styles of operands; all count",
            quick: forms,
            thorough: forms,
            check: |item, obs| {
                obs.nontrivial();
                check_grammar(item, obs)
            },
        }),
        each(Each {
            name: "masks",
            rule: "masks after every number of declared stems and with every number of implicit stems, and some with up to a thousand, whose bytes look like operators and numbers; all with at least one stem count",
            quick: 113 * 25 * 4,
            thorough: 113 * 25 * 4,
            check: check_masks,
        }),
        each(Each {
            name: "operands",
            rule: "every integer in every form of up to three bytes; all count",
            quick: 1639 + 57,
            thorough: 1639 + 57,
            check: check_operands,
        }),
        random(Random {
            name: "divided",
            rule: "programs parts of which are moved into subroutines, expanded from the grammar together with their operations; non-trivial with calls",
            quick: 15_000,
            thorough: 1_000_000,
            generate: |g| divided(g, 0),
            check: check_divided_plain,
        }),
    ]
}

// C16

/// The operations that come first, with their number of operands and stems
fn openings() -> Vec<(u16, usize)> {
    let mut forms = vec![];
    for code in [0x01, 0x03, 0x12, 0x17] {
        for pairs in 1..=23 {
            forms.push((code, 2 * pairs));
        }
    }
    for code in [0x13, 0x14] {
        for pairs in 0..=23 {
            forms.push((code, 2 * pairs));
        }
    }
    forms.extend([(0x04, 1), (0x15, 2), (0x16, 1), (0x0e, 0), (0x0e, 4)]);
    forms
}

const WIDTHS: [i32; 5] = [0x7f_0000, 0, -0x3_8000, 0x1_0000, -0x7fff_ffff];

fn check_openings(item: u64, obs: &mut Obs) -> Verdict {
    let forms = openings();
    let (code, count) = forms[item as usize % forms.len()];
    let style = item as usize / forms.len();
    let width = (style > 0).then(|| WIDTHS[style - 1]);
    obs.nontrivial();
    obs.label_if(width.is_some(), "with a width");
    let mut program = Code::new();
    if let Some(raw) = width {
        program = program.fixed(raw).width(Some(fixed_value(raw)));
    }
    let operands: Vec<i32> = (0..count as i32).map(|i| 11 + 3 * i).collect();
    let values: Vec<f32> = operands.iter().map(|value| *value as f32).collect();
    program = program.ints(&operands);
    match code {
        0x0e => return complete(&program.op(0x0e), &[], &[]),
        0x13 | 0x14 => {
            program = program.report(code, &[]).raw(&vec![0x0e; (count / 2).div_ceil(8)]);
        }
        _ => program = program.report(code, &values),
    }
    // The remaining operations, none of which is the first one
    if matches!(code, 0x01 | 0x03 | 0x12 | 0x17) {
        program = program.step(0x17, &[1, 2]);
        program = program.report(0x13, &[]).raw(&vec![0x0b; (count / 2 + 1).div_ceil(8)]);
    }
    let program = program
        .step(0x15, &[1, 2])
        .step(0x06, &[3])
        .step(0x1b, &[4, 5, 6, 7, 8])
        .step(0x16, &[9])
        .step(0x04, &[10])
        .step(0x1f, &[1, 2, 3, 4]);
    complete(&program.clone().op(0x0e), &[], &[])?;
    complete(&program.ints(&[1, 2, 65, 66]).op(0x0e), &[], &[])
}

fn wide(g: &mut G) -> Prog {
    let arith = g.pick(&[0, 0, 2, 6]);
    program(g, arith)
}

fn check_wide(prog: &Prog, obs: &mut Obs) -> Verdict {
    obs.nontrivial_if(prog.width.is_some());
    let first = prog.toks.iter().find_map(|tok| match tok {
        Tok::Op(code, _) if *code < 0xff => Some(*code),
        _ => None,
    });
    obs.label(match first {
        Some(0x01 | 0x03) => "stems first",
        Some(0x12 | 0x17) => "stems with masks first",
        Some(0x13 | 0x14) => "mask first",
        Some(0x0e) => "end first",
        _ => "move first",
    });
    check_prog(prog, obs)
}

/// Programs with operands that nothing takes, at the bottom of operations other than the first
#[derive(Debug)]
struct Surplus {
    prog: Prog,
    code: Vec<u8>,
    added: usize,
}

/// Whether an operator clears the stack
fn clearing(code: u16) -> bool {
    !matches!(code, 0x0a | 0x0b | 0x1d | 0x0c00..=0x0c21)
}

fn surplus(g: &mut G) -> Surplus {
    let arith = g.pick(&[0, 0, 4]);
    let prog = program(g, arith);
    let starts: Vec<usize> = prog
        .toks
        .iter()
        .enumerate()
        .filter(|(_, tok)| matches!(tok, Tok::Op(code, _) if clearing(*code)))
        .map(|(i, _)| i + 1)
        .filter(|start| *start < prog.toks.len())
        .collect();
    let mut places = vec![];
    if !starts.is_empty() {
        for _ in 0..g.size(1, 3) {
            // The end comes last.
            let place = if g.chance(1, 3) { *starts.last().unwrap() } else { g.pick(&starts) };
            if !places.contains(&place) {
                places.push(place);
            }
        }
    }
    let mut toks = vec![];
    let mut added = 0;
    for (i, tok) in prog.toks.iter().enumerate() {
        if places.contains(&i) {
            let next = prog.toks[i..].iter().find_map(|tok| match tok {
                Tok::Op(code, _) if clearing(*code) => Some(*code),
                _ => None,
            });
            // Two more would be a stem hint.
            let count = match next {
                Some(0x01 | 0x03 | 0x12 | 0x17 | 0x13 | 0x14) => 1,
                _ => 1 + g.weighted(&[4, 1, 1]),
            };
            for _ in 0..count {
                toks.push(Tok::Num(t2gen::number(g).1));
            }
            added += count;
        }
        toks.push(tok.clone());
    }
    Surplus { code: flatten(&toks), prog, added }
}

/// The width is that of the first operation throughout.
fn check_surplus(case: &Surplus, obs: &mut Obs) -> Verdict {
    obs.label_if(case.prog.width.is_some(), "with a width");
    let run = interpret(&case.code, &[], &[], case.prog.steps.len() + 8)?;
    obs.nontrivial_if(case.added > 0 && !run.steps.is_empty());
    let end = run.end.ok();
    obs.label_if(end.is_some(), "to the end");
    for (i, width) in run.steps.iter().map(|step| step.width).chain(end).enumerate() {
        if !same_option(width, case.prog.width) {
            return Err(format!(
                "the width is {width:?} instead of {:?} after operation {i}; program {}",
                case.prog.width,
                hex(&case.code),
            ));
        }
    }
    Ok(())
}

/// Whatever the program, the width does not change once an operation has been reported.
fn check_settled(case: &Changed, obs: &mut Obs) -> Verdict {
    let limit = 200 + case.code.len();
    let run = match interpret(&case.code, &case.global, &case.local, limit) {
        Ok(run) => run,
        // Too many operations
        Err(message) if message.starts_with("more than") => return Ok(()),
        Err(message) => return Err(message),
    };
    obs.nontrivial_if(run.steps.len() > 1);
    obs.label_if(run.end.is_err(), "malformed");
    let Some(first) = run.steps.first().map(|step| step.width) else {
        return Ok(());
    };
    for (i, width) in run.steps.iter().map(|step| step.width).chain(run.end.ok()).enumerate() {
        if !same_option(width, first) {
            return Err(format!(
                "the width is {width:?} instead of {first:?} after operation {i}; program {}",
                hex(&case.code),
            ));
        }
    }
    Ok(())
}

pub fn c16() -> Vec<Box<dyn Sub>> {
    let forms = openings().len() as u64 * (1 + WIDTHS.len() as u64);
    vec![
        random(Random {
            name: "programs",
            rule: "programs with or without the extra operand, the width watched after every operation; non-trivial with the extra operand",
            quick: 50_000,
            thorough: 4_000_000,
            generate: wide,
            check: check_wide,
        }),
        each(Each {
            name: "openings",
            rule: "every first operation with every number of operands, without and with an extra operand, followed by other operations and both forms of the end; all count",
            quick: forms,
            thorough: forms,
            check: check_openings,
        }),
        random(Random {
            name: "surplus",
            rule: "programs with operands that nothing takes below those of operations other than the first; the width remains that of the first operation; non-trivial if there are such operands",
            quick: 30_000,
            thorough: 2_000_000,
            generate: surplus,
            check: check_surplus,
        }),
        random(Random {
            name: "settled",
            rule: "mutated programs with subroutines; the width does not change after the first operation; non-trivial with more than one operation",
            quick: 30_000,
            thorough: 2_000_000,
            generate: changed,
            check: check_settled,
        }),
        random(Random {
            name: "divided",
            rule: "programs parts of which are moved into subroutines, the width watched after every operation; non-trivial with calls and the extra operand",
            quick: 15_000,
            thorough: 1_000_000,
            generate: |g| {
                let arith = g.pick(&[0, 0, 2, 6]);
                divided(g, arith)
            },
            check: check_divided_wide,
        }),
    ]
}

// C17

fn busy(g: &mut G) -> Prog {
    program(g, 12)
}

fn check_busy(prog: &Prog, obs: &mut Obs) -> Verdict {
    obs.nontrivial_if(prog.arithmetic > 0);
    check_prog(prog, obs)
}

/// Operators applied to the whole stack, which is then reported.
fn stacks(g: &mut G) -> Prog {
    let mut b = Builder::new(false, 0);
    b.simple(g, 0x15, 2);
    let rounds = g.size(1, 4);
    for _ in 0..rounds {
        let length = match g.weighted(&[3, 4, 1]) {
            0 => g.size(1, 5),
            1 => g.size(1, 16),
            _ => g.size(30, 44),
        };
        for i in 0..length {
            // Distinct or alike
            let value = if g.chance(2, 3) { i as i32 + 1 } else { g.range(-2, 2) as i32 };
            if g.chance(1, 5) {
                let number = t2gen::number(g);
                b.put(number);
            } else if b.stack.len() < 44 && g.chance(1, 30) {
                let (value, code) = magnitude(g.size(0, 6));
                b.put((value, code.bytes));
            } else {
                let bytes = encode_integer(g, value);
                b.put((value as f32, bytes));
            }
        }
        let favorite = g.pick(&t2gen::ARITHMETIC);
        let count = g.size(1, 12);
        for _ in 0..count {
            let code = if g.chance(1, 3) { favorite } else { g.pick(&t2gen::ARITHMETIC) };
            b.apply(g, code, 0);
        }
        if b.stack.is_empty() {
            b.put((0.0, vec![139]));
        }
        b.flush(0x06, vec![], true);
    }
    b.end(g, false);
    b.done()
}

/// Numbers at the limits of single precision: the bytes that compute them
fn magnitude(item: usize) -> (f32, Code) {
    // A fixed-point number times powers of 2^-16 and 2^12, all products being exact
    let (raw, small, large) = match item {
        // The least number there is, and three times it
        0 => (0x800, 9, 0),
        1 => (0x1800, 9, 0),
        // One of the greatest that are not normal, and the least that is, negated
        2 => (0x3_ffff, 8, 0),
        3 => (-4, 7, 0),
        // The greatest numbers
        4 => (0xff_ffff, 0, 10),
        5 => (-0xff_ffff, 0, 10),
        // About the root of the greatest number
        _ => (0xb_504f, 0, 5),
    };
    let mut exact = raw as f64 / 65536.0;
    let mut code = Code::new().fixed(raw);
    for _ in 0..small {
        exact /= 65536.0;
        code = code.fixed(1).op(0x0c18);
    }
    for _ in 0..large {
        exact *= 4096.0;
        code = code.int(4096).op(0x0c18);
    }
    (exact as f32, code)
}

/// Operands of all sorts: the bytes that compute them
fn special(item: usize) -> (f32, Code) {
    let code = Code::new();
    let ints = [0, 1, -1, 2, -2, 3, 7, -7, 107, -108, 1131, -1132, 32767, -32768];
    let raws = [0x8000, -0x8000, 1, -1, 0x1_8000, -0x2_4000, 0x7fff_ffff, 0x5555, -0x12_3456];
    if item < ints.len() {
        (ints[item] as f32, code.int(ints[item]))
    } else if item < ints.len() + raws.len() {
        let raw = raws[item - ints.len()];
        (fixed_value(raw), code.fixed(raw))
    } else {
        match item - ints.len() - raws.len() {
            // 32767 squared
            0 => (1073676289f64 as f32, code.int(32767).int(32767).op(0x0c18)),
            // 4096 to the fifth, which is beyond 32 bits
            1 => {
                let mut code = code.int(4096);
                for _ in 0..4 {
                    code = code.int(4096).op(0x0c18);
                }
                ((2f64).powi(60) as f32, code)
            }
            // One third
            2 => ((1.0f64 / 3.0) as f32, code.int(1).int(3).op(0x0c0c)),
            // 2^-32
            3 => ((2f64).powi(-32) as f32, code.fixed(1).fixed(1).op(0x0c18)),
            // 16777216
            4 => (16777216.0, code.int(4096).int(4096).op(0x0c18)),
            far => magnitude(far - 5),
        }
    }
}

const SPECIALS: u64 = 35;

/// Compute in double precision, rounded once.
fn computed(code: u16, x: f32, y: f32) -> Option<f32> {
    let (one, two) = (x as f64, y as f64);
    let truth = |value: bool| if value { 1.0 } else { 0.0 };
    let value = match code {
        0x0c09 => y.abs(),
        0x0c0e => -y,
        0x0c05 => truth(two == 0.0),
        0x0c1a if two < 0.0 => return None,
        0x0c1a => two.sqrt() as f32,
        0x0c0a => (one + two) as f32,
        0x0c0b => (one - two) as f32,
        0x0c0c if two == 0.0 => return None,
        0x0c0c => (one / two) as f32,
        0x0c18 => (one * two) as f32,
        0x0c03 => truth(one != 0.0 && two != 0.0),
        0x0c04 => truth(one != 0.0 || two != 0.0),
        0x0c0f => truth(one == two),
        _ => unreachable!(),
    };
    value.is_finite().then_some(value)
}

const UNARY: [u16; 4] = [0x0c09, 0x0c0e, 0x0c05, 0x0c1a];
const BINARY: [u16; 7] = [0x0c0a, 0x0c0b, 0x0c0c, 0x0c18, 0x0c03, 0x0c04, 0x0c0f];

/// All operators on all pairs of special values
fn check_pairs(item: u64, obs: &mut Obs) -> Verdict {
    let (x, first) = special((item % SPECIALS) as usize);
    let (y, second) = special((item / SPECIALS) as usize);
    obs.nontrivial();
    let opening = Code::new().step(0x15, &[1, 2]);
    let both = |program: Code| program.int(77).raw(&first.bytes).raw(&second.bytes);
    for code in UNARY {
        if let Some(value) = computed(code, x, y) {
            let program = both(opening.clone()).op(code).report(0x06, &[77.0, x, value]);
            complete(&program.op(0x0e), &[], &[])?;
        }
    }
    for code in BINARY {
        if let Some(value) = computed(code, x, y) {
            let program = both(opening.clone()).op(code).report(0x06, &[77.0, value]);
            complete(&program.op(0x0e), &[], &[])?;
        }
    }
    let program = both(opening.clone()).op(0x0c12).report(0x06, &[77.0, x]);
    complete(&program.op(0x0e), &[], &[])?;
    let program = both(opening.clone()).op(0x0c1c).report(0x06, &[77.0, y, x]);
    complete(&program.op(0x0e), &[], &[])?;
    let program = both(opening.clone()).op(0x0c1b).report(0x06, &[77.0, x, y, y]);
    complete(&program.op(0x0e), &[], &[])?;
    let program = both(opening.int(41).int(42)).op(0x0c16);
    let value = if x <= y { 42.0 } else { 77.0 };
    // The operands are 41, 42 or else 77, in the order of the stack
    complete(&program.report(0x06, &[41.0, value]).op(0x0e), &[], &[])
}

/// Every span with every shift around it and some far from it
fn check_roll(item: u64, obs: &mut Obs) -> Verdict {
    let mut item = item as usize;
    let mut pick = |count: usize| {
        let value = item % count;
        item /= count;
        value
    };
    let span = pick(46);
    let below = pick(3);
    let style = pick(110);
    let far = [-32768, 32767, -1000, 1000, 12345, -12345, 256, -256, 65536, -65536];
    let shift = if style < 100 { style as i32 - 50 } else { far[style - 100] };
    if span + below == 0 || span + below > 45 {
        return Ok(());
    }
    obs.nontrivial();
    let values: Vec<i32> = (1..=(span + below) as i32).collect();
    let mut program = Code::new().step(0x15, &[1, 2]).ints(&values).int(span as i32);
    program = if shift.abs() == 65536 {
        program.int(shift / 256).int(256).op(0x0c18)
    } else {
        program.int(shift)
    };
    let mut operands: Vec<f32> = values.iter().map(|value| *value as f32).collect();
    for i in 0..span as i64 {
        let to = (i + shift as i64).rem_euclid(span as i64) as usize;
        operands[below + to] = values[below + i as usize] as f32;
    }
    complete(&program.op(0x0c1e).report(0x06, &operands).op(0x0e), &[], &[])
}

/// Every index at every height
fn check_index(item: u64, obs: &mut Obs) -> Verdict {
    let height = (item % 46 + 1) as usize;
    let index = (item / 46) as usize;
    let far = [-1, -2, -107, -1131, -32768];
    if index >= height && index < 46 {
        return Ok(());
    }
    let index = if index < 46 { index as i32 } else { far[index - 46] };
    obs.nontrivial();
    let values: Vec<i32> = (0..height as i32).map(|i| 300 - 7 * i).collect();
    let mut operands: Vec<f32> = values.iter().map(|value| *value as f32).collect();
    operands.push(values[height - 1 - index.max(0) as usize] as f32);
    let program = Code::new().step(0x15, &[1, 2]).ints(&values).int(index).op(0x0c1d);
    complete(&program.report(0x06, &operands).op(0x0e), &[], &[])
}

const FAR: [i64; 12] = [
    1, 3, 5, 7, 255, 257, 1131, 4_097, 32_767, 65_535, 8_388_609, 16_777_215,
];

/// Shifts, spans, indices and subroutine numbers far beyond what can be written as one number
fn check_far(item: u64, obs: &mut Obs) -> Verdict {
    let mut item = item as usize;
    let mut pick = |count: usize| {
        let value = item % count;
        item /= count;
        value
    };
    let span = pick(45) + 1;
    let factor = FAR[pick(FAR.len())];
    let power = pick(48) as u32;
    let negative = pick(2) == 1;
    let wanted = (factor as i128) << power;
    let wanted = if negative { -wanted } else { wanted };
    if wanted.unsigned_abs() < 32_768 {
        return Ok(());
    }
    obs.nontrivial();
    // All the products are exact, as the factor has at most 24 bits
    let far = |mut code: Code| {
        let (one, two) = match factor {
            4_097 | 1_131 | 32_767 => (factor, 1),
            65_535 => (257, 255),
            8_388_609 => (0, 0),
            16_777_215 => (4_095, 4_097),
            small => (small, 1),
        };
        if two == 0 {
            // 8388609 = 16384 · 512 + 1
            code = code.int(16_384).int(512).op(0x0c18).int(1).op(0x0c0a);
        } else {
            code = code.int(one as i32).int(two as i32).op(0x0c18);
        }
        let mut left = power;
        while left > 0 {
            let now = left.min(14);
            code = code.int(1 << now).op(0x0c18);
            left -= now;
        }
        if negative {
            code = code.op(0x0c0e);
        }
        code
    };
    let opening = || Code::new().step(0x15, &[1, 2]);
    let values: Vec<i32> = (1..=span as i32).collect();
    // A roll shifts by exactly that, unless the shift does not fit into 32 bits
    let before = opening().ints(&values).int(span as i32);
    let mut operands = vec![0.0; span];
    for i in 0..span {
        let to = (i as i128 + wanted).rem_euclid(span as i128) as usize;
        operands[to] = values[i] as f32;
    }
    let program = far(before).op(0x0c1e).report(0x06, &operands).op(0x0e);
    either(&program, i32::try_from(wanted).is_ok(), 1)?;
    // It cannot span that many operands
    let program = far(opening().ints(&values)).int(1).op(0x0c1e);
    rejected(&program.int(1).op(0x06).op(0x0e), &[], &[])?;
    // A negative index stands for zero
    let program = far(opening().ints(&values)).op(0x0c1d);
    if negative {
        let mut operands: Vec<f32> = values.iter().map(|value| *value as f32).collect();
        operands.push(span as f32);
        let program = program.report(0x06, &operands).op(0x0e);
        either(&program, i32::try_from(wanted).is_ok(), 1)?;
    } else {
        rejected(&program.op(0x06).op(0x0e), &[], &[])?;
    }
    // There are not that many subroutines
    let list = vec![vec![0x0b]; span];
    for code in [0x0a, 0x1d] {
        let program = far(opening().ints(&values)).op(code);
        rejected(&program.op(0x06).op(0x0e), &list, &list)?;
    }
    Ok(())
}

/// A program completes or, unless it has to, reports an error after a number of operations.
fn either(code: &Code, has_to: bool, before: usize) -> Verdict {
    if has_to {
        return complete(code, &[], &[]);
    }
    let run = interpret(&code.bytes, &[], &[], code.steps.len() + 8)?;
    let steps = if run.end.is_ok() { &code.steps[..] } else { &code.steps[..before] };
    compare_steps(steps, &run.steps)
        .map_err(|message| format!("{message}; program {}", clipped(&code.bytes)))
}

/// put, get and random
fn check_unsupported(item: u64, obs: &mut Obs) -> Verdict {
    let code = [0x0c14, 0x0c15, 0x0c17][item as usize % 3];
    let height = item as i32 / 3;
    obs.nontrivial();
    let values: Vec<i32> = (1..=height).collect();
    let program = Code::new().step(0x15, &[1, 2]).ints(&values).op(code);
    rejected(&program.int(1).op(0x06).op(0x0e), &[], &[])
}

pub fn c17() -> Vec<Box<dyn Sub>> {
    vec![
        random(Random {
            name: "programs",
            rule: "programs whose operands are mostly computed; non-trivial with an arithmetic, stack or conditional operator",
            quick: 30_000,
            thorough: 3_000_000,
            generate: busy,
            check: check_busy,
        }),
        random(Random {
            name: "stacks",
            rule: "sequences of operators on stacks of up to 48 operands, the whole stack being reported; non-trivial with an applied operator",
            quick: 60_000,
            thorough: 5_000_000,
            generate: stacks,
            check: check_busy,
        }),
        each(Each {
            name: "pairs",
            rule: "every operator on all pairs of 35 special values; all count",
            quick: SPECIALS * SPECIALS,
            thorough: SPECIALS * SPECIALS,
            check: check_pairs,
        }),
        each(Each {
            name: "roll",
            rule: "every span up to 45 with every shift up to 50 in both directions and ten large ones; all with operands count",
            quick: 46 * 3 * 110,
            thorough: 46 * 3 * 110,
            check: check_roll,
        }),
        each(Each {
            name: "index",
            rule: "every index at every height up to 46, and negative ones; all that exist count",
            quick: 46 * 51,
            thorough: 46 * 51,
            check: check_index,
        }),
        each(Each {
            name: "far",
            rule: "rolls, indices and subroutine numbers far beyond 16 bits (and 32), computed exactly; all beyond 16 bits count",
            quick: 45 * 12 * 48 * 2,
            thorough: 45 * 12 * 48 * 2,
            check: check_far,
        }),
        each(Each {
            name: "unsupported",
            rule: "put, get and random with up to 12 operands; all count",
            quick: 39,
            thorough: 39,
            check: check_unsupported,
        }),
        random(Random {
            name: "divided",
            rule: "programs whose operands are mostly computed, parts of which are moved into subroutines; non-trivial with calls and an arithmetic, stack or conditional operator",
            quick: 15_000,
            thorough: 1_000_000,
            generate: |g| divided(g, 12),
            check: check_divided_busy,
        }),
    ]
}

// C18

#[derive(Debug)]
struct Split {
    prog: Prog,
    factored: Factored,
}

fn split(g: &mut G) -> Split {
    let arith = g.pick(&[0, 0, 0, 2, 8]);
    let prog = t2gen::roomy(g, arith);
    let factored = t2gen::factored(g, &prog);
    Split { prog, factored }
}

fn check_split(case: &Split, obs: &mut Obs) -> Verdict {
    let Split { prog, factored } = case;
    agree(&prog.steps, Ok(prog.width), &factored.code, &factored.global, &factored.local);
    obs.nontrivial_if(factored.calls > 0);
    obs.label_if(factored.depth >= 3, "three levels or more");
    obs.label_if(factored.depth == 10, "ten levels");
    obs.label_if(factored.reused > 0, "called more than once");
    obs.label_if(factored.highest, "first or last subroutine");
    obs.label_if(factored.unreached, "something after a call that ends the glyph");
    for list in [&factored.global, &factored.local] {
        obs.label(match list.len() {
            0 => "no subroutines",
            1..=1239 => "bias 107",
            1240..=33899 => "bias 1131",
            _ => "bias 32768",
        });
    }
    // What the program itself comes to is judged elsewhere.
    let plain = interpret(&flatten(&prog.toks), &[], &[], prog.steps.len() + 8);
    let run = interpret(&factored.code, &factored.global, &factored.local, prog.steps.len() + 8);
    let Ok(plain) = plain else {
        obs.label("left to other checks");
        return Ok(());
    };
    let run = run.map_err(|message| format!("with subroutines: {message}"))?;
    let whole = expect_run(prog, &run).map_err(|message| format!("with subroutines: {message}"));
    if whole.is_err() {
        obs.label("left to other checks");
        if run.steps.len() == plain.steps.len()
            && compare_steps(&plain.steps, &run.steps).is_ok()
            && match (&plain.end, &run.end) {
                (Ok(one), Ok(other)) => same_option(*one, *other),
                (Err(_), Err(_)) => true,
                _ => false,
            }
        {
            return Ok(());
        }
    }
    whole?;
    expect_run(prog, &plain).map_err(|message| format!("only without subroutines: {message}"))
}

fn divided(g: &mut G, arith: u64) -> Split {
    let prog = t2gen::roomy(g, arith);
    let factored = t2gen::factored(g, &prog);
    Split { prog, factored }
}

/// A program with subroutines comes to what it is made of.
fn check_divided(case: &Split, obs: &mut Obs) -> Verdict {
    let Split { prog, factored } = case;
    obs.label_if(factored.depth >= 3, "three levels or more");
    let Factored { code, global, local, .. } = factored;
    agree(&prog.steps, Ok(prog.width), code, global, local);
    expect_run(prog, &interpret(code, global, local, prog.steps.len() + 8)?)
}

fn check_divided_plain(case: &Split, obs: &mut Obs) -> Verdict {
    obs.nontrivial_if(case.factored.calls > 0);
    check_divided(case, obs)
}

fn check_divided_busy(case: &Split, obs: &mut Obs) -> Verdict {
    obs.nontrivial_if(case.factored.calls > 0 && case.prog.arithmetic > 0);
    check_divided(case, obs)
}

/// The width alone, at every operation and at the end
fn check_divided_wide(case: &Split, obs: &mut Obs) -> Verdict {
    let Split { prog, factored } = case;
    obs.nontrivial_if(factored.calls > 0 && prog.width.is_some());
    let Factored { code, global, local, .. } = factored;
    agree(&prog.steps, Ok(prog.width), code, global, local);
    let run = interpret(code, global, local, prog.steps.len() + 8)?;
    for (i, width) in run.steps.iter().map(|step| step.width).chain(run.end.ok()).enumerate() {
        if !same_option(width, prog.width) {
            return Err(format!(
                "the width is {width:?} instead of {:?} after operation {i}",
                prog.width,
            ));
        }
    }
    Ok(())
}

/// Complete runs are expected of programs with calls, unless already that without any fails.
fn called(code: &Code, global: &[Vec<u8>], local: &[Vec<u8>], obs: &mut Obs) -> Verdict {
    let mut plain = Code::new();
    for (i, step) in code.steps.iter().enumerate() {
        let width = if i == 0 { step.width } else { None };
        for operand in width.iter().chain(step.operands.iter()) {
            plain = plain.int(*operand as i32);
        }
        plain = plain.report(step.code, &step.operands);
        plain.steps.last_mut().unwrap().width = step.width;
    }
    plain = plain.op(0x0e).width(code.width);
    if complete(&plain, &[], &[]).is_err() {
        obs.label("left to other checks");
        return Ok(());
    }
    complete(code, global, local)
}

const COUNTS: [usize; 24] = [
    1, 2, 3, 106, 107, 108, 109, 213, 214, 215, 216, 300, 1238, 1239, 1240, 1241, 2262, 2263, 2264,
    33898, 33899, 33900, 33901, 65535,
];

/// One subroutine of each number of them, addressed alone
fn check_numbers(item: u64, obs: &mut Obs) -> Verdict {
    let mut item = item as usize;
    let mut pick = |count: usize| {
        let value = item % count;
        item /= count;
        value
    };
    let which = pick(2);
    let count = COUNTS[pick(COUNTS.len())];
    let place = pick(9);
    let spread = bias(count) as usize;
    let slot = match place {
        0 => Some(0),
        1 => Some(count - 1),
        2 => Some(count / 2),
        // The address 0 and its neighbors
        3 => Some(spread),
        4 => spread.checked_sub(1),
        5 => Some(spread + 1),
        6 => Some(1),
        7 => count.checked_sub(2),
        _ => Some(count / 3),
    };
    let Some(slot) = slot.filter(|slot| *slot < count) else {
        return Ok(());
    };
    obs.nontrivial();
    obs.label(match count {
        0..=1239 => "bias 107",
        1240..=33899 => "bias 1131",
        _ => "bias 32768",
    });
    let body = Code::new().ints(&[21, 22]).op(0x05).op(0x0b).bytes;
    let other = Code::new().ints(&[31]).op(0x06).op(0x0b).bytes;
    let mut lists = [vec![other.clone(); 5], vec![other.clone(); 7]];
    lists[which] = vec![other; count];
    lists[which][slot] = body;
    let address = slot as i64 - spread as i64;
    let call = [0x1d, 0x0a][which];
    let mut program = Code::new().step(0x15, &[1, 2]).int(address as i32).op(call);
    program.steps.push(Step { code: 0x05, operands: vec![21.0, 22.0], width: None });
    called(&program.step(0x06, &[41]).op(0x0e), &lists[0], &lists[1], obs)
}

/// Every pattern of local and global subroutines down to ten levels
fn check_chains(item: u64, obs: &mut Obs) -> Verdict {
    // 2 + 4 + … + 1024 patterns
    let depth = (item + 2).ilog2() as usize;
    let pattern = item + 2 - (1 << depth);
    obs.nontrivial();
    obs.label_if(depth == 10, "ten levels");
    let mut lists = [vec![], vec![]];
    let kinds: Vec<usize> = (0..depth).map(|level| (pattern >> level & 1) as usize).collect();
    // The place of the subroutine of each level in its list
    let mut places = vec![];
    let mut counts = [0usize; 2];
    for kind in kinds.iter() {
        places.push(counts[*kind]);
        counts[*kind] += 1;
    }
    let call = |program: Code, level: usize| {
        let kind = kinds[level];
        program.int(places[level] as i32 - 107).op([0x1d, 0x0a][kind])
    };
    // Does the deepest subroutine end the glyph?
    let ended = pattern % 3 == 0;
    let width = Some(500.0);
    let mut steps = vec![Step { code: 0x15, operands: vec![1.0, 2.0], width }];
    // Passed along from the caller
    let mut carried = vec![];
    for (level, kind) in kinds.iter().enumerate() {
        let mark = 10 * level as i32;
        let deepest = level + 1 == depth;
        let mut body = Code::new().int(mark + 1).op(0x06);
        carried.push(mark as f32 + 1.0);
        steps.push(Step { code: 0x06, operands: std::mem::take(&mut carried), width });
        if !deepest {
            body = call(body.int(mark + 2), level + 1);
            carried.push(mark as f32 + 2.0);
        }
        body = match (ended, deepest) {
            (true, true) => body.op(0x0e),
            (true, false) => body,
            // Pass an operand back
            (false, true) => body.int(mark + 5).op(0x0b),
            (false, false) => body.int(mark + 3).op(0x07).int(mark + 5).op(0x0b),
        };
        lists[*kind].push(body.bytes);
    }
    let mut program = call(Code::new().ints(&[500, 1, 2]).op(0x15), 0).width(width);
    program.steps = steps;
    if !ended {
        for level in (0..depth - 1).rev() {
            let operands = vec![10.0 * (level as f32 + 1.0) + 5.0, 10.0 * level as f32 + 3.0];
            program.steps.push(Step { code: 0x07, operands, width });
        }
        program = program.int(99).report(0x07, &[5.0, 99.0]).op(0x0e);
    } else if pattern % 2 > 0 {
        // Never reached
        program = program.int(99).op(0x07).op(0x0e);
    }
    called(&program, &lists[0], &lists[1], obs)
}

/// Calls after so many bytes of a program and of a subroutine
fn check_far_calls(item: u64, obs: &mut Obs) -> Verdict {
    let one = SIZES[item as usize % SIZES.len()];
    let two = SIZES[item as usize / SIZES.len() % SIZES.len()];
    let kind = item as usize / SIZES.len() / SIZES.len();
    obs.nontrivial();
    let call = |number: i32, local: bool| {
        Code::new().int(number - 107).op(if local { 0x0a } else { 0x1d })
    };
    let first = kind & 1 > 0;
    let second = kind & 2 > 0;
    // The program: some operations, a call, and some more
    let inner = Code::new().step(0x06, &[5]).step(0x16, &[-77]);
    let before = filler(two, 3);
    let after = Code::new().step(0x15, &[9, -9]).step(0x07, &[11, 12]);
    let head = filler(one - 3, 2);
    let tail = Code::new().step(0x04, &[13]).step(0x05, &[14, 15]);
    let mut program = Code::new().step(0x15, &[1, 2]);
    for part in [&head, &before, &inner, &after, &tail] {
        program.steps.extend(part.steps.iter().cloned());
    }
    program.bytes.extend(&head.bytes);
    program.bytes.extend(call(1, first).bytes);
    program.bytes.extend(&tail.bytes);
    let outer = [&before.bytes[..], &call(2, second).bytes, &after.bytes, &[11]].concat();
    let inner = [&inner.bytes[..], &[11]].concat();
    let decoy = vec![139, 22, 14];
    let mut lists = [vec![decoy.clone(); 3], vec![decoy; 3]];
    lists[first as usize][1] = outer;
    lists[second as usize][2] = inner;
    let [global, local] = lists;
    complete(&program.op(0x0e), &global, &local)
}

pub fn c18() -> Vec<Box<dyn Sub>> {
    vec![
        each(Each {
            name: "far",
            rule: "calls after up to 200000 bytes of a program and of a subroutine of either kind, around powers of two; all count",
            quick: 4 * (SIZES.len() * SIZES.len()) as u64,
            thorough: 4 * (SIZES.len() * SIZES.len()) as u64,
            check: check_far_calls,
        }),
        random(Random {
            name: "factored",
            rule: "programs with parts moved into subroutines, compared with what they mean, with and without the subroutines; non-trivial with a call",
            quick: 16_000,
            thorough: 1_500_000,
            generate: split,
            check: check_split,
        }),
        each(Each {
            name: "numbers",
            rule: "one call for each number of subroutines around the limits of the bias and for each of nine places; all that exist count",
            quick: 2 * 24 * 9,
            thorough: 2 * 24 * 9,
            check: check_numbers,
        }),
        each(Each {
            name: "chains",
            rule: "every pattern of local and global subroutines down to ten levels, with operands passed along and operations after each call; all count",
            quick: 2046,
            thorough: 2046,
            check: check_chains,
        }),
    ]
}

// C19

/// The ways in which a program can be malformed at one point
fn flaws() -> Vec<(&'static str, Vec<u8>)> {
    let mut flaws: Vec<(&'static str, Vec<u8>)> = vec![];
    let code = Code::new;
    // Too few operands
    let least: [(u16, usize); 36] = [
        (0x01, 2), (0x03, 2), (0x12, 2), (0x17, 2), (0x04, 1), (0x15, 2), (0x16, 1), (0x05, 2),
        (0x06, 1), (0x07, 1), (0x08, 6), (0x18, 8), (0x19, 8), (0x1a, 4), (0x1b, 4), (0x1e, 4),
        (0x1f, 4), (0x0c22, 7), (0x0c23, 13), (0x0c24, 9), (0x0c25, 11), (0x0c09, 1), (0x0c0a, 2),
        (0x0c0b, 2), (0x0c0c, 2), (0x0c0e, 1), (0x0c18, 2), (0x0c1a, 1), (0x0c12, 1), (0x0c1c, 2),
        (0x0c1b, 1), (0x0c03, 2), (0x0c04, 2), (0x0c05, 1), (0x0c0f, 2), (0x0c16, 4),
    ];
    for (operator, least) in least {
        for count in 0..least {
            let values: Vec<i32> = (1..=count as i32).collect();
            flaws.push(("too few operands", code().ints(&values).op(operator).bytes));
        }
    }
    for operator in [0x0a, 0x1d, 0x0c1d, 0x0c1e] {
        flaws.push(("too few operands", code().op(operator).bytes));
    }
    flaws.push(("too few operands", code().int(0).op(0x0c1e).bytes));
    flaws.push(("too few operands", code().int(0).op(0x0c1d).bytes));
    // Operators that do not exist or are not supported
    for operator in [0x00, 0x02, 0x09, 0x0d, 0x0f, 0x10, 0x11] {
        for values in [&[][..], &[1, 2][..]] {
            flaws.push(("a reserved operator", code().ints(values).op(operator).bytes));
        }
    }
    for second in 0..=255u16 {
        let operator = 0x0c00 | second;
        if !ops::PROGRAM.iter().any(|entry| entry.0 == operator) {
            for values in [&[][..], &[1, 2, 3][..]] {
                flaws.push(("a reserved operator", code().ints(values).op(operator).bytes));
            }
        }
    }
    for operator in [0x0c14, 0x0c15, 0x0c17] {
        for values in [&[][..], &[1][..], &[1, 2][..]] {
            flaws.push(("an unsupported operator", code().ints(values).op(operator).bytes));
        }
    }
    // Subroutines, for a list of 3
    for call in [0x0a, 0x1d] {
        for number in [-108, -104, -103, 0, 1, 107, 1131, -1131, 32767, -32768, -140] {
            flaws.push(("no such subroutine", code().int(number).op(call).bytes));
        }
        let big = |code: Code| code.int(32767).int(32767).op(0x0c18).int(2).op(0x0c18);
        flaws.push(("no such subroutine", big(code()).op(call).bytes));
        flaws.push(("no such subroutine", big(code()).op(0x0c0e).op(call).bytes));
        flaws.push(("no such subroutine", big(code()).int(4).op(0x0c18).op(call).bytes));
        // The powers of two around the ends of 32-bit integers
        let power = |code: Code| code.int(-32768).op(0x0c1b).op(0x0c18);
        for times in [1, 2, -2, 4, -4, 8] {
            flaws.push(("no such subroutine", power(code()).int(times).op(0x0c18).op(call).bytes));
        }
        for raw in [0x8000, -106 * 65536 + 1, -106 * 65536 - 1, -0x6a_8000, 1, -1] {
            flaws.push(("not an integer", code().fixed(raw).op(call).bytes));
        }
    }
    // Rolls and indices, where there may be operands
    for (span, shift) in [(-1, 1), (-1, 0), (-32768, 1), (4, 1), (4, 0), (4, -1), (49, 2), (32767, 7)] {
        let program = code().ints(&[1, 2, 3, span, shift]).op(0x0c1e).bytes;
        flaws.push(("an invalid roll", program));
    }
    for (span, shift) in [(0x1_8000, 0x1_0000), (0x2_0000, 0x8000), (0x2_0000, 1), (1, 0)] {
        let program = code().ints(&[1, 2, 3]).fixed(span).fixed(shift).op(0x0c1e).bytes;
        flaws.push(("an invalid roll", program));
    }
    for index in [3, 4, 10, 48, 32767] {
        flaws.push(("an invalid index", code().ints(&[1, 2, 3, index]).op(0x0c1d).bytes));
    }
    for index in [0x8000, -0x8000, 1, 0x1_0001] {
        let program = code().ints(&[1, 2, 3]).fixed(index).op(0x0c1d).bytes;
        flaws.push(("an invalid index", program));
    }
    flaws
}

const RETURN: &str = "a return without a call";

/// The ways in which a program can be cut short
fn cuts() -> Vec<(&'static str, Vec<u8>)> {
    let mut cuts: Vec<(&'static str, Vec<u8>)> = vec![];
    for first in [247, 249, 250, 251, 254, 28, 255, 12] {
        cuts.push(("within a number or an operator", vec![first]));
        cuts.push(("within a number or an operator", vec![140, first]));
    }
    for bytes in [&[28, 0][..], &[255, 0][..], &[255, 1, 2][..], &[255, 1, 2, 3][..]] {
        cuts.push(("within a number or an operator", bytes.to_vec()));
    }
    cuts
}

/// Cut short after operands; only for the main program
fn leftovers() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("after operands", vec![139]),
        ("after operands", vec![140, 247, 0]),
        ("after operands", vec![255, 0, 1, 0, 0]),
        ("after operands", vec![28, 1, 1]),
        ("after operands", [140; 48].to_vec()),
        ("after operands", vec![140, 141, 12, 10, 142]),
    ]
}

/// All the flaws, whether they go on to be followed by something, and whether
/// they can be in a subroutine
fn all_flaws() -> Vec<(&'static str, Vec<u8>, bool, bool)> {
    let mut all = vec![];
    all.extend(flaws().into_iter().map(|flaw| (flaw.0, flaw.1, true, true)));
    all.push((RETURN, vec![0x0b], true, false));
    all.push((RETURN, vec![140, 0x0b], true, false));
    all.extend(cuts().into_iter().map(|flaw| (flaw.0, flaw.1, false, true)));
    all.extend(leftovers().into_iter().map(|flaw| (flaw.0, flaw.1, false, false)));
    all
}

/// In the subroutines from which the flaw is reached
const LEVELS: usize = 4;

/// Put a flaw into nested subroutines.
fn nested(prefix: &[u8], flaw: &[u8], follow: bool, levels: usize, flip: usize) -> (Vec<u8>, [Vec<Vec<u8>>; 2]) {
    // Three subroutines in both lists, whatever is used
    let filler = vec![0x0b];
    let mut lists = [vec![filler.clone(); 3], vec![filler; 3]];
    let rest = |mut bytes: Vec<u8>, inside: bool| {
        if follow {
            put_int(&mut bytes, 5);
            put_op(&mut bytes, 0x06);
            put_op(&mut bytes, if inside { 0x0b } else { 0x0e });
        }
        bytes
    };
    let mut body = rest(flaw.to_vec(), levels > 0);
    for level in (0..levels).rev() {
        let which = (level + flip) % 2;
        let slot = level / 2;
        lists[which][slot] = body;
        body = vec![];
        put_int(&mut body, slot as i32 - 107);
        put_op(&mut body, [0x1d, 0x0a][which]);
        put_int(&mut body, 6);
        put_op(&mut body, 0x06);
        put_op(&mut body, if level > 0 { 0x0b } else { 0x0e });
    }
    let mut code = prefix.to_vec();
    code.extend(body);
    (code, lists)
}

fn check_flaws(item: u64, obs: &mut Obs) -> Verdict {
    let all = all_flaws();
    let (name, flaw, follow, inside) = &all[item as usize % all.len()];
    let style = item as usize / all.len();
    let levels = style % LEVELS;
    let prefix = match style / LEVELS {
        0 => Code::new(),
        1 => Code::new().ints(&[33]).width(Some(33.0)).step(0x15, &[1, 2]).step(0x06, &[3]),
        _ => Code::new().step(0x12, &[1, 2]).report(0x13, &[]).raw(&[0x80]).step(0x16, &[3]),
    };
    if levels > 0 && !inside {
        return Ok(());
    }
    obs.nontrivial();
    obs.label(name);
    let (bytes, lists) = nested(&prefix.bytes, flaw, *follow, levels, style);
    let program = Code { bytes, ..prefix };
    rejected(&program, &lists[0], &lists[1])
        .map_err(|message| format!("{name} ({}, {levels} levels): {message}", hex(flaw)))
}

/// Masks cut short, subroutines of lists of all sizes, and too many levels
fn check_masks_cut(item: u64, obs: &mut Obs) -> Verdict {
    let mut item = item as usize;
    let mut pick = |count: usize| {
        let value = item % count;
        item /= count;
        value
    };
    let declared = pick(25);
    let implicit = pick(25);
    let code = [0x13, 0x14][pick(2)];
    let size = (declared + implicit).div_ceil(8);
    if size == 0 {
        return Ok(());
    }
    obs.nontrivial();
    for missing in 1..=size {
        let mut program = Code::new();
        if declared > 0 {
            let operands: Vec<i32> = (0..2 * declared as i32).collect();
            program = program.step(0x12, &operands);
        }
        let operands: Vec<i32> = (0..2 * implicit as i32).collect();
        program = program.ints(&operands).op(code).raw(&vec![0x0e; size - missing]);
        rejected(&program, &[], &[])?;
    }
    Ok(())
}

/// Numbers around the limits of a list of subroutines
fn check_outside(item: u64, obs: &mut Obs) -> Verdict {
    let mut item = item as usize;
    let mut pick = |count: usize| {
        let value = item % count;
        item /= count;
        value
    };
    let which = pick(2);
    let count = match pick(COUNTS.len() + 1) {
        0 => 0,
        i => COUNTS[i - 1],
    };
    let beyond = [1, 2, 10, 107, 1024, 1131, 31637][pick(7)];
    let below = pick(2) == 0;
    let spread = bias(count);
    let address = if below { -beyond - spread } else { count as i64 - 1 + beyond - spread };
    if !(-32768..=32767).contains(&address) {
        return Ok(());
    }
    obs.nontrivial();
    let body = Code::new().ints(&[21, 22]).op(0x05).op(0x0b).bytes;
    // The other list has room for everything.
    let mut lists = [vec![body.clone(); 65535], vec![body.clone(); 65535]];
    lists[which] = vec![body; count];
    let program = Code::new().step(0x15, &[1, 2]).int(address as i32).op([0x1d, 0x0a][which]);
    rejected(&program.int(1).op(0x06).op(0x0e), &lists[0], &lists[1])
}

#[derive(Debug)]
struct Spoiled {
    name: &'static str,
    prog: Prog,
    flaw: Vec<u8>,
    follow: bool,
    levels: usize,
    flip: usize,
}

fn spoiled(g: &mut G) -> Spoiled {
    let arith = g.pick(&[0, 0, 3]);
    let mut prog = program(g, arith);
    // Without the end and its operands
    prog.toks.pop();
    while matches!(prog.toks.last(), Some(Tok::Num(_)))
        || matches!(prog.toks.last(), Some(Tok::Op(code, _)) if *code >= 0x0c00 && !(0x0c22..=0x0c25).contains(code))
    {
        prog.toks.pop();
    }
    prog.width = prog.steps.last().and_then(|step| step.width);
    let all = all_flaws();
    // One sort of flaws and then one of them
    let mut names: Vec<&'static str> = all.iter().map(|flaw| flaw.0).collect();
    names.dedup();
    let name = g.pick(&names);
    let choices: Vec<_> = all.iter().filter(|flaw| flaw.0 == name).collect();
    let (name, flaw, follow, inside) = choices[g.below(choices.len() as u64) as usize].clone();
    let levels = if inside { g.size(0, LEVELS - 1) } else { 0 };
    Spoiled { name, prog, flaw, follow, levels, flip: g.size(0, 1) }
}

fn check_spoiled(case: &Spoiled, obs: &mut Obs) -> Verdict {
    let prefix = flatten(&case.prog.toks);
    let (bytes, lists) = nested(&prefix, &case.flaw, case.follow, case.levels, case.flip);
    obs.nontrivial_if(!case.prog.steps.is_empty());
    obs.label(case.name);
    let program = Code { bytes, steps: case.prog.steps.clone(), width: None };
    rejected(&program, &lists[0], &lists[1])
}

/// Changes of well-formed programs, judged by the independent interpreter
#[derive(Debug)]
struct Changed {
    code: Vec<u8>,
    global: Vec<Vec<u8>>,
    local: Vec<Vec<u8>>,
}

pub fn change(g: &mut G, bytes: &mut Vec<u8>) {
    for _ in 0..1 + g.weighted(&[4, 2, 1]) {
        let length = bytes.len();
        if length == 0 {
            bytes.push(g.byte());
            continue;
        }
        let at = g.size(0, length - 1);
        match g.below(6) {
            0 => bytes[at] = g.byte(),
            1 => bytes[at] ^= 1 << g.below(8),
            2 => {
                bytes.remove(at);
            }
            3 => bytes.insert(at, g.byte()),
            4 => bytes.truncate(at),
            _ => {
                let operator = g.pick(&[0x05, 0x06, 0x08, 0x0a, 0x0b, 0x0e, 0x13, 0x15, 0x1d, 0x1f, 0x0c]);
                bytes[at] = operator;
            }
        }
    }
}

fn changed(g: &mut G) -> Changed {
    let arith = g.pick(&[0, 0, 4]);
    let prog = t2gen::roomy(g, arith);
    let global = g.size(0, 4);
    let local = g.size(0, 4);
    let mut lists = Lists::new(global, local);
    let mut code = lists.factor(g, &prog.toks, &prog.repeats, 0, false);
    let mut lists = [lists.list(0, 0), lists.list(1, 0)];
    if g.chance(1, 2) && global + local > 0 {
        let which = if global == 0 { 1 } else if local == 0 { 0 } else { g.size(0, 1) };
        let slot = g.size(0, lists[which].len() - 1);
        change(g, &mut lists[which][slot]);
    } else {
        change(g, &mut code);
    }
    let [global, local] = lists;
    Changed { code, global, local }
}

/// An upper limit of the number of instructions, whatever they are
fn weight(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>]) -> u64 {
    let calls = |code: &[u8]| code.iter().filter(|byte| matches!(byte, 0x0a | 0x1d)).count() as u64;
    let size = |code: &[u8]| code.len() as u64 + 1;
    let mut most = 0;
    let mut length = 0;
    for body in global.iter().chain(local.iter()) {
        most = most.max(calls(body));
        length = length.max(size(body));
    }
    let mut total = size(code);
    let mut routines = calls(code);
    for _ in 0..10 {
        total = total.saturating_add(routines.saturating_mul(length));
        routines = routines.saturating_mul(most);
    }
    total
}

/// Follow the independent interpreter as far as it goes.
fn judge(
    code: &[u8],
    global: &[Vec<u8>],
    local: &[Vec<u8>],
    obs: &mut Obs,
) -> Result<End, String> {
    let trace = t2ref::run(code, global, local, 200_000);
    let heavy = weight(code, global, local) > 2_000_000;
    let skip = match trace.end {
        End::Long => true,
        End::Unspecified(_) => heavy,
        _ => false,
    };
    if skip {
        obs.label("skipped as too long");
        return Ok(trace.end);
    }
    let describe = |message: String| {
        let mut text = format!("{message}; program {}", clipped(code));
        for (name, list) in [("global", global), ("local", local)] {
            if list.len() < 8 {
                for (i, body) in list.iter().enumerate() {
                    text.push_str(&format!(", {name} {i}: {}", clipped(body)));
                }
            }
        }
        text
    };
    let specified = !matches!(trace.end, End::Unspecified(_));
    let limit = if specified { trace.steps.len() + 8 } else { usize::MAX };
    let run = interpret(code, global, local, limit).map_err(describe)?;
    if specified {
        compare_steps(&trace.steps, &run.steps).map_err(describe)?;
    } else {
        let count = trace.steps.len().min(run.steps.len());
        compare_steps(&trace.steps, &run.steps[..count]).map_err(describe)?;
    }
    match (&trace.end, &run.end) {
        (End::Done(one), Ok(other)) if !t2gen::same_option(*one, *other) => {
            return Err(describe(format!("expected the width {one:?}, found {other:?}")));
        }
        (End::Done(_), Err(error)) => {
            return Err(describe(format!("an error instead of the end: {error}")));
        }
        (End::Error(error), Ok(_)) => {
            return Err(describe(format!("the end instead of an error ({error})")));
        }
        _ => {}
    }
    Ok(trace.end)
}

fn label_end(end: &End, obs: &mut Obs) {
    match end {
        End::Done(_) => obs.label("to the end"),
        End::Error(error) => obs.label(error),
        End::Unspecified(_) => obs.label("unspecified from some point on"),
        End::Long => {}
    }
}

fn check_changed(case: &Changed, obs: &mut Obs) -> Verdict {
    let end = judge(&case.code, &case.global, &case.local, obs)?;
    obs.nontrivial_if(matches!(end, End::Error(_)));
    label_end(&end, obs);
    Ok(())
}

pub fn c19() -> Vec<Box<dyn Sub>> {
    let flaws = all_flaws().len() as u64 * LEVELS as u64 * 3;
    vec![
        random(Random {
            name: "spoiled",
            rule: "a well-formed program without its end, then a flaw, perhaps in a subroutine; non-trivial if operations precede the flaw",
            quick: 24_000,
            thorough: 2_000_000,
            generate: spoiled,
            check: check_spoiled,
        }),
        random(Random {
            name: "changed",
            rule: "well-formed programs with some bytes changed, judged by an independent interpreter; non-trivial if malformed according to it",
            quick: 60_000,
            thorough: 5_000_000,
            generate: changed,
            check: check_changed,
        }),
        each(Each {
            name: "flaws",
            rule: "every flaw in a list after three beginnings and down to three levels of subroutines; all count",
            quick: flaws,
            thorough: flaws,
            check: check_flaws,
        }),
        each(Each {
            name: "masks",
            rule: "masks cut short by every number of bytes after up to 24 declared and 24 implicit stems; all that exist count",
            quick: 25 * 25 * 2,
            thorough: 25 * 25 * 2,
            check: check_masks_cut,
        }),
        each(Each {
            name: "outside",
            rule: "numbers of subroutines below and above each of 25 sizes of the list; all that can be written count",
            quick: 2 * 25 * 7 * 2,
            thorough: 2 * 25 * 7 * 2,
            check: check_outside,
        }),
    ]
}

// C20

#[derive(Debug)]
struct Noise {
    code: Vec<u8>,
    global: Vec<Vec<u8>>,
    local: Vec<Vec<u8>>,
}

/// Bytes that are operators and operands more often than not
fn noise_bytes(g: &mut G, most: usize, slots: [usize; 2]) -> Vec<u8> {
    let size = match g.weighted(&[3, 4, 1]) {
        0 => g.size(0, 6),
        1 => g.size(0, 30),
        _ => g.size(0, most),
    };
    let mut bytes = vec![];
    let style = g.below(4);
    while bytes.len() < size {
        match g.below(if style == 0 { 1 } else { 6 }) {
            0 => bytes.push(g.byte()),
            1 => {
                let (_, number) = t2gen::number(g);
                bytes.extend(number);
            }
            2 => {
                let (code, _) = g.pick(&ops::PROGRAM);
                put_op(&mut bytes, code);
            }
            3 if style > 1 => {
                let which = g.size(0, 1);
                if slots[which] > 0 {
                    let slot = g.size(0, slots[which] - 1);
                    put_int(&mut bytes, slot as i32 - 107);
                    bytes.push([0x1d, 0x0a][which]);
                }
            }
            4 => {
                // Operands for anything
                for _ in 0..g.size(1, 8) {
                    let value = g.range(-3, 9) as i32;
                    put_int(&mut bytes, value);
                }
            }
            _ => {
                let code = g.pick(&t2gen::ARITHMETIC);
                put_op(&mut bytes, code);
            }
        }
    }
    bytes
}

fn noise(g: &mut G) -> Noise {
    let slots = [g.size(0, 4), g.size(0, 4)];
    let code = noise_bytes(g, 300, slots);
    let lists = [0, 1].map(|which| {
        (0..slots[which])
            .map(|_| {
                let mut body = noise_bytes(g, 60, slots);
                if g.chance(1, 2) {
                    body.push(0x0b);
                }
                body
            })
            .collect::<Vec<_>>()
    });
    let [global, local] = lists;
    Noise { code, global, local }
}

/// Neither further than the end nor out of subroutines that call themselves
/// with anything but an error. What is computed is not judged here: once the
/// operations differ from those of the independent interpreter, nothing more
/// is known about them.
fn contained(
    code: &[u8],
    global: &[Vec<u8>],
    local: &[Vec<u8>],
    obs: &mut Obs,
) -> Result<End, String> {
    let trace = t2ref::run(code, global, local, 200_000);
    if weight(code, global, local) > 2_000_000 {
        obs.label("skipped as too long");
        return Ok(trace.end);
    }
    // Not enough subroutines for any of them to be that deep without calling itself
    let recursive =
        matches!(trace.end, End::Error(t2ref::TOO_DEEP)) && global.len() + local.len() < 10;
    let mut program = sut(|| Program::new(code, global, local))?;
    for i in 0..=trace.steps.len() {
        let next = sut(|| program.next().map_err(|_| ()))?;
        let width = sut(|| program.width())?;
        match (next, trace.steps.get(i)) {
            (Ok(Some((operator, operands))), Some(step)) => {
                let found = ops::PROGRAM.iter().find(|entry| entry.1 == operator).map(|entry| entry.0);
                let found = Step { code: found.unwrap_or(0), operands, width };
                if compare_steps(std::slice::from_ref(step), &[found]).is_err() {
                    obs.label("left to other checks");
                    break;
                }
            }
            (Ok(Some((operator, operands))), None) => match trace.end {
                End::Done(_) => {
                    return Err(format!("{operator:?} {operands:?} past the end; program {}", clipped(code)));
                }
                _ if recursive => {
                    return Err(format!(
                        "{operator:?} {operands:?} beyond subroutines that call themselves; program {}",
                        clipped(code),
                    ));
                }
                _ => break,
            },
            (Ok(None), None) if recursive => {
                return Err(format!(
                    "the end instead of an error for subroutines that call themselves; program {}",
                    clipped(code),
                ));
            }
            _ => break,
        }
    }
    Ok(trace.end)
}

/// Step on after an error as well; nothing must break.
fn persist(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>]) -> Verdict {
    let mut program = sut(|| Program::new(code, global, local))?;
    let mut errors = 0;
    let mut ended = false;
    for _ in 0..400_000 {
        let result = sut(|| program.next().map_err(|_| ()))?;
        let _ = sut(|| program.width())?;
        match result {
            Ok(Some(_)) if ended => return Err("an operation after the end".to_string()),
            Ok(Some(_)) => {}
            Ok(None) => {
                ended = true;
                errors += 1;
            }
            Err(()) if ended => return Err("an error after the end".to_string()),
            Err(()) => errors += 1,
        }
        if errors > 6 {
            break;
        }
    }
    Ok(())
}

fn check_noise(case: &Noise, obs: &mut Obs) -> Verdict {
    let end = contained(&case.code, &case.global, &case.local, obs)?;
    label_end(&end, obs);
    obs.nontrivial_if(case.code.len() > 1);
    if weight(&case.code, &case.global, &case.local) <= 2_000_000 {
        persist(&case.code, &case.global, &case.local)?;
    }
    Ok(())
}

fn check_tattered(case: &Changed, obs: &mut Obs) -> Verdict {
    let end = contained(&case.code, &case.global, &case.local, obs)?;
    label_end(&end, obs);
    obs.nontrivial();
    if weight(&case.code, &case.global, &case.local) <= 2_000_000 {
        persist(&case.code, &case.global, &case.local)?;
    }
    Ok(())
}

/// A well-formed program with something after its end.
#[derive(Debug)]
struct Trailing {
    split: Split,
    after: Vec<u8>,
}

fn trailing(g: &mut G) -> Trailing {
    let split = split(g);
    let count = g.size(1, 12);
    let after = match g.below(3) {
        0 => vec![0x0e; count],
        1 => g.bytes_of(count),
        _ => {
            let prog = program(g, 0);
            flatten(&prog.toks)
        }
    };
    Trailing { split, after }
}

fn check_trailing(case: &Trailing, obs: &mut Obs) -> Verdict {
    let Split { prog, factored } = &case.split;
    obs.nontrivial();
    // The end is in the main program.
    let mut code = flatten(&prog.toks);
    code.extend_from_slice(&case.after);
    contained(&code, &factored.global, &factored.local, obs)?;
    persist(&code, &factored.global, &factored.local)?;
    // The end may be in a subroutine, what follows the call being out of reach.
    let mut code = factored.code.clone();
    code.extend_from_slice(&case.after);
    obs.label_if(!factored.code.ends_with(&[0x0e]), "the end may be in a subroutine");
    contained(&code, &factored.global, &factored.local, obs)?;
    if weight(&code, &factored.global, &factored.local) <= 2_000_000 {
        persist(&code, &factored.global, &factored.local)?;
    }
    Ok(())
}

/// What is expected in the end
enum Expect {
    Done(usize),
    Error(usize),
    Any,
}

struct Extreme {
    name: &'static str,
    code: Vec<u8>,
    global: Vec<Vec<u8>>,
    local: Vec<Vec<u8>>,
    expect: Expect,
}

const EXTREMES: u64 = 121;

fn extreme(item: u64) -> Extreme {
    let plain = |name, code: Code, expect| Extreme {
        name,
        code: code.bytes,
        global: vec![],
        local: vec![],
        expect,
    };
    let times = |head: Code, part: Code, count: usize, tail: Code| {
        let mut code = head;
        for _ in 0..count {
            code = code.raw(&part.bytes);
        }
        code.raw(&tail.bytes)
    };
    let new = Code::new;
    let opening = || new().step(0x15, &[1, 2]);
    match item {
        0 => plain("nothing", new(), Expect::Any),
        1 => plain("only the end", new().op(0x0e), Expect::Done(0)),
        2 => plain(
            "a million of pairs of arithmetic operators",
            times(opening(), new().op(0x0c1b).op(0x0c12), 1_000_000, new().op(0x0e)),
            Expect::Error(1),
        ),
        3 => plain(
            "a million of arithmetic operators before an operation",
            times(opening().int(3), new().op(0x0c0e), 1_000_000, new().op(0x06).op(0x0e)),
            Expect::Done(2),
        ),
        4 => plain(
            "a million of numbers",
            times(opening(), new().int(1), 1_000_000, new().op(0x0e)),
            Expect::Any,
        ),
        5 => plain(
            "a million of numbers without an end",
            times(opening(), new().int(1), 1_000_000, new()),
            Expect::Any,
        ),
        6 => plain(
            "a hundred thousand lines",
            times(opening(), new().int(1).op(0x06), 100_000, new().op(0x0e)),
            Expect::Done(100_001),
        ),
        7 => plain(
            "a hundred thousand duplicates and a line",
            times(opening().int(1), new().op(0x0c1b), 100_000, new().op(0x06).op(0x0e)),
            Expect::Any,
        ),
        8 => plain(
            "a million of additions",
            times(opening().int(0), new().int(1).op(0x0c0a), 1_000_000, new().op(0x06).op(0x0e)),
            Expect::Done(2),
        ),
        // Work in proportion to the number of instructions
        9..=28 => {
            let i = (item - 9) as usize;
            let span = [1, 2, 3, 7, 46][i / 4];
            let shift = [32767, -32768, 32766, -32767][i % 4];
            let values: Vec<i32> = (0..span).collect();
            plain(
                "thousands of rolls with large shifts",
                times(
                    opening().ints(&values),
                    new().int(span).int(shift).op(0x0c1e),
                    30_000,
                    new().op(0x06).op(0x0e),
                ),
                Expect::Done(2),
            )
        }
        29..=40 => {
            let i = (item - 29) as usize;
            let span = [1, 2, 45][i % 3];
            let values: Vec<i32> = (0..span).collect();
            // 2^30 and its surroundings, 2^31 and beyond
            let mut code = opening().ints(&values).int(span);
            code = match i / 3 {
                0 => code.int(16384).int(256).op(0x0c18).int(256).op(0x0c18),
                1 => code.int(-16384).int(256).op(0x0c18).int(256).op(0x0c18),
                2 => code.int(-32768).int(256).op(0x0c18).int(256).op(0x0c18),
                _ => code.int(32767).int(32767).op(0x0c18).int(64).op(0x0c18),
            };
            let expect = if i / 3 < 2 { Expect::Done(2) } else { Expect::Any };
            plain("a roll with an enormous shift", code.op(0x0c1e).op(0x06).op(0x0e), expect)
        }
        41 => plain(
            "a roll with an enormous span",
            opening().int(1).int(32767).int(32767).op(0x0c18).int(1).op(0x0c1e).op(0x06).op(0x0e),
            Expect::Error(1),
        ),
        42 => plain(
            "an enormous index",
            opening().int(1).int(32767).int(32767).op(0x0c18).op(0x0c1d).op(0x06).op(0x0e),
            Expect::Error(1),
        ),
        43 => plain(
            "the square of the square of the square of a number, and so on",
            times(opening().int(32767), new().op(0x0c1b).op(0x0c18), 1000, new().op(0x06).op(0x0e)),
            Expect::Any,
        ),
        44 => plain(
            "a division by zero, a root of a negative number, and their uses",
            opening()
                .ints(&[1, 0]).op(0x0c0c).op(0x0c1b).op(0x0c1d)
                .ints(&[-1]).op(0x0c1a).op(0x0c1d)
                .op(0x06).op(0x0e),
            Expect::Any,
        ),
        45 => plain(
            "an infinite subroutine number",
            opening().ints(&[1, 0]).op(0x0c0c).op(0x0a).op(0x06).op(0x0e),
            Expect::Error(1),
        ),
        46 => plain(
            "a subroutine number that is not a number",
            opening().ints(&[0, 0]).op(0x0c0c).op(0x1d).op(0x06).op(0x0e),
            Expect::Error(1),
        ),
        47 => plain(
            "rolls of things that are not numbers",
            opening().ints(&[0, 0]).op(0x0c0c).ints(&[0, 0]).op(0x0c0c).op(0x0c1e).op(0x06).op(0x0e),
            Expect::Any,
        ),
        48 => plain(
            "hundreds of thousands of stems and a mask",
            times(new(), new().ints(&[1, 2]).op(0x12), 200_000, new().op(0x13).op(0x0e)),
            Expect::Error(200_000),
        ),
        49 => plain(
            "hundreds of thousands of masks",
            times(new().ints(&[1, 2]).op(0x12), new().op(0x13).raw(&[0x80]), 200_000, new().op(0x0e)),
            Expect::Done(200_001),
        ),
        // Subroutines that call themselves
        50..=53 => {
            let i = item - 50;
            let number = -107;
            let own = [0x1d, 0x0a][i as usize % 2];
            let body = |call: u16| new().int(number).op(call).op(0x0b).bytes;
            let (mut global, mut local) = (vec![body(0x1d)], vec![body(0x0a)]);
            if i >= 2 {
                global = vec![body(0x0a)];
                local = vec![body(0x1d)];
            }
            Extreme {
                name: "subroutines that call themselves",
                code: opening().int(number).op(own).op(0x0e).bytes,
                global,
                local,
                expect: Expect::Error(1),
            }
        }
        54 | 55 => {
            // With an operation at each level
            let body = new().int(4).op(0x06).int(-107).op(0x0a).op(0x0b).bytes;
            let call = [0x1d, 0x0a][item as usize - 54];
            Extreme {
                name: "subroutines that call themselves after an operation",
                code: opening().int(-107).op(call).op(0x0e).bytes,
                global: vec![body.clone()],
                local: vec![body],
                expect: Expect::Error(11),
            }
        }
        56..=58 => {
            // A long chain of distinct subroutines, as deep as allowed and deeper
            let (depth, expect) = match item - 56 {
                0 => (10, Expect::Done(2)),
                1 => (11, Expect::Error(1)),
                _ => (65535, Expect::Error(1)),
            };
            let spread = bias(depth) as i32;
            let mut local = vec![];
            for i in 1..depth as i32 {
                local.push(new().int(i - spread).op(0x0a).op(0x0b).bytes);
            }
            local.push(new().int(4).op(0x06).op(0x0b).bytes);
            Extreme {
                name: "a chain of subroutines",
                code: opening().int(-spread).op(0x0a).op(0x0e).bytes,
                global: vec![],
                local,
                expect,
            }
        }
        59 => {
            let body = new().op(0x0b).bytes;
            Extreme {
                name: "hundreds of thousands of calls",
                code: times(opening(), new().int(-107).op(0x0a), 300_000, new().int(4).op(0x06).op(0x0e)).bytes,
                global: vec![],
                local: vec![body],
                expect: Expect::Done(2),
            }
        }
        60 => plain(
            "a hundred thousand ends",
            times(opening(), new().op(0x0e), 100_000, new()),
            Expect::Done(1),
        ),
        // Powers of two around the ends of 32-bit integers as subroutine numbers,
        // indices, shifts, and spans
        61..=76 => {
            let i = (item - 61) as usize;
            let times = [2, -2, 4, -4][i / 4];
            let number = |code: Code| code.int(-32768).op(0x0c1b).op(0x0c18).int(times).op(0x0c18);
            let (name, code, expect) = match i % 4 {
                0 => ("an enormous subroutine number", number(opening()).op(0x0a), Expect::Error(1)),
                1 => ("an enormous index", number(opening().int(7)).op(0x0c1d), Expect::Any),
                2 => ("an enormous shift", number(opening().ints(&[7, 8, 9, 3])).op(0x0c1e), Expect::Any),
                _ => ("an enormous span", number(opening().ints(&[7, 8, 9])).int(1).op(0x0c1e), Expect::Error(1)),
            };
            let body = new().int(4).op(0x06).op(0x0b).bytes;
            Extreme {
                name,
                code: code.op(0x06).op(0x0e).bytes,
                global: vec![body.clone(); 3],
                local: vec![body; 3],
                expect,
            }
        }
        // Work that does not depend on the operands below, nor on the shift times the span
        77..=82 => {
            let i = (item - 77) as usize;
            let shift = [16384, -16384, 32767, -1, 1, -32768][i];
            plain(
                "rolls of very many operands",
                times(
                    times(opening(), new().int(1), 32_767, new()),
                    new().int(32_767).int(shift).op(0x0c1e),
                    4_000,
                    new().op(0x06).op(0x0e),
                ),
                Expect::Any,
            )
        }
        83..=96 => {
            let i = (item - 83) as usize;
            let round = match i {
                0 => new().int(32_767).op(0x0c1d).op(0x0c12),
                1 => new().int(1).op(0x0c0a),
                2 => new().op(0x0c1c),
                3 => new().op(0x0c1b).op(0x0c12),
                4 => new().int(3).int(1).op(0x0c1e),
                5 => new().int(1).int(2).op(0x0c16).op(0x0c12),
                6 => new().op(0x0c0e),
                7 => new().int(1).op(0x0c18),
                8 => new().int(1).op(0x0c0c),
                9 => new().op(0x0c05),
                10 => new().int(1).op(0x0c0f),
                11 => new().int(0).op(0x0c03),
                12 => new().int(0).int(32_767).op(0x0c1e),
                _ => new().int(-107).op(0x0a),
            };
            let code = times(
                times(opening(), new().int(1), 800_000, new()),
                round,
                400_000,
                new().op(0x06).op(0x0e),
            );
            Extreme {
                name: "operators above very many operands",
                code: code.bytes,
                global: vec![],
                local: vec![vec![0x0b]],
                expect: Expect::Any,
            }
        }
        97..=113 => {
            let codes = [
                0x01, 0x12, 0x13, 0x14, 0x05, 0x06, 0x07, 0x08, 0x18, 0x19, 0x1a, 0x1b, 0x1e, 0x1f, 0x15, 0x0e,
                0x0c22,
            ];
            plain(
                "very many operands at once",
                times(opening(), new().int(1), 300_001, new().op(codes[(item - 97) as usize]).op(0x0e)),
                Expect::Any,
            )
        }
        114..=119 => {
            let i = item as usize - 114;
            let call = [0x0a, 0x1d][i % 2];
            let body = new().op(0x0b).bytes;
            let (name, list) = match i / 2 {
                0 => ("a million calls among 65535 subroutines", vec![body; 65535]),
                1 => {
                    let list = vec![vec![0x0b; 1_000_000]];
                    ("a million calls of an enormous subroutine that returns at once", list)
                }
                _ => ("a million calls from within a subroutine", vec![vec![], body]),
            };
            let mut list = list;
            let number = -bias(list.len()) as i32;
            let code = if list.len() == 2 {
                list[0] = times(new(), new().int(number + 1).op(call), 1_000_000, new().op(0x0b)).bytes;
                opening().int(number).op(call)
            } else {
                times(opening(), new().int(number).op(call), 1_000_000, new())
            };
            let (mut global, mut local) = (vec![], list);
            if call == 0x1d {
                std::mem::swap(&mut global, &mut local);
            }
            Extreme { name, code: code.step(0x06, &[4]).op(0x0e).bytes, global, local, expect: Expect::Done(2) }
        }
        _ => {
            let body = new().int(4).op(0x06).bytes;
            Extreme {
                name: "subroutines that just end",
                code: opening().int(-107).op(0x0a).op(0x0e).bytes,
                global: vec![],
                local: vec![body],
                expect: Expect::Any,
            }
        }
    }
}

fn check_extreme(item: u64, obs: &mut Obs) -> Verdict {
    let Extreme { name, code, global, local, expect } = extreme(item);
    obs.nontrivial();
    obs.label(name);
    let run = interpret(&code, &global, &local, 400_000).map_err(|error| format!("{name}: {error}"))?;
    let (count, good) = match expect {
        Expect::Any => return persist(&code, &global, &local),
        Expect::Done(count) => (count, true),
        Expect::Error(count) => (count, false),
    };
    if run.steps.len() != count || run.end.is_ok() != good {
        return Err(format!(
            "{name}: {} operations and {:?} instead of {count} and {}",
            run.steps.len(),
            run.end,
            if good { "the end" } else { "an error" }
        ));
    }
    persist(&code, &global, &local)
}

/// All programs of up to two bytes and all arithmetic operators on extreme operands
fn check_short(item: u64, obs: &mut Obs) -> Verdict {
    let all = 1 + 256 + 65536;
    let mut obs_ = Obs::default();
    let lists = [vec![vec![0x0b], vec![139, 0x06]], vec![vec![0x0e]]];
    obs.nontrivial();
    let from = item * 64;
    for i in from..(from + 64).min(all) {
        let code = match i {
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            _ => ((i - 257) as u16).to_be_bytes().to_vec(),
        };
        contained(&code, &lists[0], &lists[1], &mut obs_)?;
        persist(&code, &lists[0], &lists[1])?;
        // With operands
        let mut longer = vec![140, 32, 141];
        longer.extend(&code);
        contained(&longer, &lists[0], &lists[1], &mut obs_)?;
        persist(&longer, &lists[0], &lists[1])?;
    }
    Ok(())
}

pub fn c20() -> Vec<Box<dyn Sub>> {
    let short = (1u64 + 256 + 65536).div_ceil(64);
    vec![
        random(Random {
            name: "noise",
            rule: "bytes, operands and operators at random with random subroutines that call each other, stepped beyond errors and the end; non-trivial with two bytes or more",
            quick: 80_000,
            thorough: 8_000_000,
            generate: noise,
            check: check_noise,
        }),
        random(Random {
            name: "tattered",
            rule: "well-formed programs with some bytes changed, stepped beyond errors and the end; all count",
            quick: 30_000,
            thorough: 3_000_000,
            generate: changed,
            check: check_tattered,
        }),
        random(Random {
            name: "trailing",
            rule: "well-formed programs followed by ends, bytes or other programs; all count",
            quick: 12_000,
            thorough: 1_000_000,
            generate: trailing,
            check: check_trailing,
        }),
        each(Each {
            name: "extremes",
            rule: "very long, deeply nested and self-calling programs and enormous operands; all count",
            quick: EXTREMES,
            thorough: EXTREMES,
            check: check_extreme,
        }),
        each(Each {
            name: "short",
            rule: "all programs of up to two bytes, without and with preceding operands, in runs of 64; all count",
            quick: short,
            thorough: short,
            check: check_short,
        }),
    ]
}

// C22

static REAL: [(&str, &[u8]); 3] = [
    ("SourceSerifPro-Regular", include_bytes!("../../data/SourceSerifPro-Regular.cff")),
    ("Hirakatana-Regular", include_bytes!("../../data/Hirakatana-Regular.cff")),
    ("CFFTest", include_bytes!("../../data/CFFTest.cff")),
];

/// The dictionary of a glyph
fn chosen(select: &Select, glyph: usize) -> usize {
    match select {
        Select::F0(ids) => ids[glyph] as usize,
        Select::F3(ranges, _) => {
            let i = ranges.partition_point(|range| range.0 as usize <= glyph);
            ranges[i - 1].1 as usize
        }
    }
}

/// The local subroutines of a glyph
fn subroutines(kind: &Kind, glyph: usize) -> &Table {
    match kind {
        Kind::Name(private) => &private.subrs,
        Kind::Cid { select, privates, .. } => &privates[chosen(select, glyph)].subrs,
    }
}

/// Run a glyph of the parsed font set, as a user does.
fn check_glyph(expected: &Set, set: &FontSet, font: usize, glyph: usize, obs: &mut Obs) -> Verdict {
    use postscript::compact1::font_set::Record;
    let model = &expected.fonts[font];
    let local = &subroutines(&model.kind, glyph).objects;
    let bytes = &model.glyphs.objects[glyph];
    let trace = t2ref::run(bytes, &expected.gsubrs.objects, local, 200_000);
    let context = |message: String| format!("font {font}, glyph {glyph}: {message}; {}", clipped(bytes));
    match &trace.end {
        End::Done(_) => {}
        End::Error(_) => obs.label("malformed glyphs"),
        _ => {
            obs.label("glyphs left out");
            return Ok(());
        }
    }
    let code: &[u8] = &set.character_strings[font][glyph];
    let global: &[Vec<u8>] = &set.subroutines;
    let local: &[Vec<u8>] = match &set.records[font] {
        Record::CharacterNameKeyed(record) => &record.subroutines,
        Record::CharacterIDKeyed(record) => {
            let Kind::Cid { select, .. } = &model.kind else {
                return Err(context("a record of another kind".to_string()));
            };
            &record.records[chosen(select, glyph)].subroutines
        }
    };
    let run = interpret(code, global, local, trace.steps.len() + 8).map_err(context)?;
    compare_steps(&trace.steps, &run.steps).map_err(context)?;
    match (&trace.end, &run.end) {
        (End::Done(one), Ok(other)) if t2gen::same_option(*one, *other) => {}
        (End::Error(_), Err(_)) => {}
        (one, other) => return Err(context(format!("expected {one:?}, found {other:?}"))),
    }
    obs.label_if(trace.depth > 0, "glyphs with subroutines");
    obs.label_if(trace.stems > 0, "glyphs with hints");
    obs.label_if(matches!(trace.end, End::Done(Some(_))), "glyphs with widths");
    Ok(())
}

fn read(bytes: &[u8]) -> Result<FontSet, String> {
    sut(|| FontSet::read(&mut Cursor::new(bytes)).map_err(|error| error.to_string()))?
        .map_err(|error| format!("rejected: {error}"))
}

fn model(bytes: &[u8]) -> Set {
    match cffr::set(bytes) {
        Ok(set) => set,
        Err(error) => panic!("a font set that is not well-formed: {error:?}"),
    }
}

/// The glyphs of real fonts, in groups
const GROUP: usize = 16;

thread_local! {
    static CACHE: std::cell::RefCell<Option<(usize, Set, FontSet)>> =
        const { std::cell::RefCell::new(None) };
}

fn groups() -> u64 {
    // The numbers of glyphs
    GLYPHS.iter().map(|count| count.div_ceil(GROUP) as u64).sum()
}

const GLYPHS: [usize; 3] = [547, 101, 5];

fn check_real(item: u64, obs: &mut Obs) -> Verdict {
    let mut item = item as usize;
    let mut which = 0;
    while item >= GLYPHS[which].div_ceil(GROUP) {
        item -= GLYPHS[which].div_ceil(GROUP);
        which += 1;
    }
    obs.nontrivial();
    obs.label(REAL[which].0);
    CACHE.with(|cache| {
        let mut cache = cache.borrow_mut();
        if !matches!(&*cache, Some(entry) if entry.0 == which) {
            let expected = model(REAL[which].1);
            let set = read(REAL[which].1).map_err(|error| format!("{}: {error}", REAL[which].0))?;
            compare(&expected, &view(&set)?)
                .map_err(|error| format!("{}: {error}", REAL[which].0))?;
            *cache = Some((which, expected, set));
        }
        let (_, expected, set) = cache.as_ref().unwrap();
        let count = expected.fonts[0].glyphs.objects.len();
        assert_eq!(count, GLYPHS[which]);
        for glyph in item * GROUP..(item * GROUP + GROUP).min(count) {
            check_glyph(expected, set, 0, glyph, obs)
                .map_err(|message| format!("{}, {message}", REAL[which].0))?;
        }
        Ok(())
    })
}

/// A font set whose glyphs are programs
fn drawn(g: &mut G) -> Placed {
    let shape = Shape { fonts: g.size(1, 3), cid: 3, gaps: 0, large: false, shared: false };
    let mut plan = cff::plan(g, &shape);
    // All subroutines are global or local ones of a list per block.
    let many = |g: &mut G| match g.weighted(&[1, 12, 1]) {
        0 => 0,
        1 => g.size(1, 20),
        _ => g.pick(&[214, 215, 1239, 1240, 1241]),
    };
    let mut bodies = std::collections::HashMap::new();
    let global_count = many(g);
    let mut global = std::collections::HashMap::new();
    let mut done = std::collections::HashSet::new();
    for font in plan.fonts.clone() {
        if !done.insert(font.glyphs) {
            // Shared with an earlier font, whose subroutines may be others
            continue;
        }
        let count = plan.index(font.glyphs).objects.len();
        for glyph in 0..count {
            let block = match &font.kind {
                KindPlan::Name { subrs, .. } => *subrs,
                KindPlan::Cid { select, privates, .. } => privates[chosen(select, glyph)].1,
            };
            let arith = g.pick(&[0, 0, 0, 3]);
            let prog = t2gen::roomy(g, arith);
            let local_count = match block {
                Some(block) => bodies.get(&block).map(|entry: &(usize, _)| entry.0).unwrap_or_else(|| many(g)),
                _ => 0,
            };
            let mut lists = Lists::new(global_count, local_count);
            lists.bodies[0] = std::mem::take(&mut global);
            if let Some((_, entry)) = block.and_then(|block| bodies.remove(&block)) {
                lists.bodies[1] = entry;
            }
            let code = lists.factor(g, &prog.toks, &prog.repeats, 0, false);
            plan.index_mut(font.glyphs).objects[glyph] = code;
            let [one, other] = std::mem::take(&mut lists.bodies);
            global = one;
            if let Some(block) = block {
                bodies.insert(block, (local_count, other));
            }
        }
    }
    let fill = |count: usize, bodies: std::collections::HashMap<usize, Vec<u8>>| {
        let mut lists = Lists::new(count, 0);
        lists.bodies[0] = bodies;
        lists.list(0, 1)
    };
    plan.gsubrs.objects = fill(global_count, global);
    for (block, (count, entry)) in bodies {
        plan.index_mut(block).objects = fill(count, entry);
    }
    Placed::new(g, plan)
}

fn check_drawn(case: &Placed, obs: &mut Obs) -> Verdict {
    let plan = &case.plan;
    let written = plan.write();
    let mut tape = Tape::new(&written.image, case.manner());
    let set = read_set(&mut tape)?.map_err(|error| format!("rejected: {error}"))?;
    compare(&written.expected, &view(&set)?)?;
    super::sets::describe(plan, obs);
    let mut glyphs = 0;
    for (i, font) in written.expected.fonts.iter().enumerate() {
        for glyph in 0..font.glyphs.objects.len() {
            check_glyph(&written.expected, &set, i, glyph, obs)?;
            glyphs += 1;
        }
    }
    obs.nontrivial_if(glyphs > 0);
    Ok(())
}

/// A real font set with some bytes changed
struct Varied {
    font: usize,
    changes: Vec<(usize, u8)>,
    data: Vec<u8>,
}

impl std::fmt::Debug for Varied {
    fn fmt(&self, formatter: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(formatter, "{} with {:x?}", REAL[self.font].0, self.changes)
    }
}

fn varied(g: &mut G) -> Varied {
    let font = g.weighted(&[4, 2, 4]);
    let data = REAL[font].1;
    let count = 1 + g.below(8) as usize;
    let mut changes = vec![];
    let base = g.size(0, data.len() - 1);
    for _ in 0..count {
        let at = match g.weighted(&[5, 3, 2]) {
            0 => g.size(0, data.len() - 1),
            1 => (base + g.size(0, 30)).min(data.len() - 1),
            // The tables at the beginning
            _ => g.size(0, (data.len() - 1).min(1500)),
        };
        let value = match g.below(4) {
            0 => g.byte(),
            1 => data[at] ^ 1 << g.below(8),
            2 => data[at].wrapping_add(1),
            _ => data[at].wrapping_sub(1),
        };
        changes.push((at, value));
    }
    let mut data = data.to_vec();
    for (at, value) in changes.iter() {
        data[*at] = *value;
    }
    Varied { font, changes, data }
}

fn check_varied(case: &Varied, obs: &mut Obs) -> Verdict {
    obs.label(REAL[case.font].0);
    let expected = match cffr::set(&case.data) {
        Ok(expected) => expected,
        Err(No::Reject(reason)) => {
            obs.label("malformed sets");
            return match sut(|| FontSet::read(&mut Cursor::new(&case.data)).is_ok())? {
                false => Ok(()),
                true => Err(format!("accepted in spite of {reason}")),
            };
        }
        Err(No::Unspecified(_)) => {
            obs.label("sets left out");
            return Ok(());
        }
    };
    obs.nontrivial();
    let set = read(&case.data)?;
    compare(&expected, &view(&set)?)?;
    // What has changed, and a sample of the rest
    let original = model(REAL[case.font].1);
    let one = &original.fonts[0];
    let mut seed = case.changes.iter().fold(1u64, |seed, change| seed * 31 + change.0 as u64);
    for (i, font) in expected.fonts.iter().enumerate() {
        let total = font.glyphs.objects.len();
        let shared = expected.gsubrs != original.gsubrs || font.kind != one.kind;
        for glyph in 0..total {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let touched = font.glyphs.objects.get(glyph) != one.glyphs.objects.get(glyph);
            if touched || (seed >> 33) % (total as u64) < if shared { 60 } else { 3 } {
                obs.label_if(touched, "changed glyphs");
                check_glyph(&expected, &set, i, glyph, obs)?;
            }
        }
    }
    Ok(())
}

pub fn c22() -> Vec<Box<dyn Sub>> {
    vec![
        each(Each {
            name: "real",
            rule: "all glyphs of three real fonts, in groups of 16; all count",
            quick: groups(),
            thorough: groups(),
            check: check_real,
        }),
        random(Random {
            name: "drawn",
            rule: "generated font sets whose glyphs are generated programs that use the subroutines of the set; non-trivial with at least one glyph",
            quick: 4_000,
            thorough: 300_000,
            generate: drawn,
            check: check_drawn,
        }),
        random(Random {
            name: "varied",
            rule: "real fonts with up to eight bytes changed; non-trivial if well-formed according to an independent reading",
            quick: 2_400,
            thorough: 200_000,
            generate: varied,
            check: check_varied,
        }),
    ]
}
