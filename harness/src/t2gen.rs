//! Well-formed glyph programs, built together with what they mean.

use crate::engine::sut;
use crate::gen::G;
use crate::ops;
use crate::t2ref::{bias, Step};
use postscript::type2::Program;
use std::collections::HashMap;

/// A number, or an operator with the bytes of its mask.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Num(Vec<u8>),
    Op(u16, Vec<u8>),
}

impl Tok {
    pub fn bytes(&self, output: &mut Vec<u8>) {
        match self {
            Tok::Num(bytes) => output.extend_from_slice(bytes),
            Tok::Op(code, mask) => {
                if *code > 0xff {
                    output.extend(code.to_be_bytes());
                } else {
                    output.push(*code as u8);
                }
                output.extend_from_slice(mask);
            }
        }
    }
}

pub fn flatten(toks: &[Tok]) -> Vec<u8> {
    let mut bytes = vec![];
    for tok in toks {
        tok.bytes(&mut bytes);
    }
    bytes
}

/// A generated program.
#[derive(Clone)]
pub struct Prog {
    pub toks: Vec<Tok>,
    pub steps: Vec<Step>,
    pub width: Option<f32>,
    pub stems: usize,
    /// Ranges of tokens that occur more than once
    pub repeats: Vec<(usize, usize)>,
    /// Number of arithmetic operators
    pub arithmetic: usize,
}

impl std::fmt::Debug for Prog {
    fn fmt(&self, formatter: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(formatter, "program {} steps ", hex(&flatten(&self.toks)))?;
        formatter.debug_list().entries(self.steps.iter()).finish()?;
        write!(formatter, " width {:?}", self.width)
    }
}

pub fn hex(bytes: &[u8]) -> String {
    use std::fmt::Write;
    let mut text = String::new();
    for byte in bytes {
        let _ = write!(text, "{byte:02x}");
    }
    text
}

/// The encodings of an integer in a glyph program.
pub fn encode_integer(g: &mut G, value: i32) -> Vec<u8> {
    let mut choices = vec![];
    match value {
        -107..=107 => choices.push(vec![(value + 139) as u8]),
        108..=1131 => {
            let rest = value - 108;
            choices.push(vec![247 + (rest >> 8) as u8, rest as u8]);
        }
        -1131..=-108 => {
            let rest = -value - 108;
            choices.push(vec![251 + (rest >> 8) as u8, rest as u8]);
        }
        _ => {}
    }
    choices.push(vec![28, (value >> 8) as u8, value as u8]);
    choices.push(vec![255, (value >> 8) as u8, value as u8, 0, 0]);
    let weights: Vec<u32> = if choices.len() == 3 { vec![6, 1, 1] } else { vec![3, 1] };
    choices.swap_remove(g.weighted(&weights))
}

pub fn fixed_value(raw: i32) -> f32 {
    (raw as f64 / 65536.0) as f32
}

/// A number with its bytes.
pub fn number(g: &mut G) -> (f32, Vec<u8>) {
    match g.weighted(&[8, 3, 2, 3]) {
        0 => {
            let value = g.range(-107, 107) as i32;
            (value as f32, encode_integer(g, value))
        }
        1 => {
            let value = g.range(-1131, 1131) as i32;
            (value as f32, encode_integer(g, value))
        }
        2 => {
            let value = g.range(-32768, 32767) as i32;
            (value as f32, encode_integer(g, value))
        }
        _ => {
            let raw = match g.below(4) {
                0 => g.below(1 << 32) as u32 as i32,
                3 => (g.range(-32768, 32767) << 16) as i32 + g.pick(&[0, 1, 0x8000, 0xffff]),
                1 => g.range(-200 * 65536, 200 * 65536) as i32,
                _ => g.pick(&[0, 1, -1, 0x8000, -0x8000, 0x7fff_ffff, i32::MIN, 0x1_0001, 0xff_ffff, 0x100_0001]),
            };
            let mut bytes = vec![255];
            bytes.extend(raw.to_be_bytes());
            (fixed_value(raw), bytes)
        }
    }
}

/// Something small, so that comparisons are not always false.
fn small(g: &mut G) -> (f32, Vec<u8>) {
    let value = g.range(-2, 3) as i32;
    (value as f32, encode_integer(g, value))
}

pub const STACK: usize = 48;

pub struct Builder {
    pub toks: Vec<Tok>,
    pub steps: Vec<Step>,
    pub stack: Vec<f32>,
    pub width: Option<f32>,
    pub stems: usize,
    pub first: bool,
    /// Push an extra operand below those of the first operation
    pub extra: bool,
    /// Use arithmetic out of sixteen times
    pub arith: u64,
    pub arithmetic: usize,
    pub repeats: Vec<(usize, usize)>,
    /// The number of operands at once
    pub limit: usize,
}

impl Builder {
    pub fn new(extra: bool, arith: u64) -> Self {
        Builder {
            toks: vec![],
            steps: vec![],
            stack: vec![],
            width: None,
            stems: 0,
            first: true,
            extra,
            arith,
            arithmetic: 0,
            repeats: vec![],
            limit: STACK,
        }
    }

    pub fn done(self) -> Prog {
        Prog {
            toks: self.toks,
            steps: self.steps,
            width: self.width,
            stems: self.stems,
            repeats: self.repeats,
            arithmetic: self.arithmetic,
        }
    }

    pub fn put(&mut self, (value, bytes): (f32, Vec<u8>)) {
        self.stack.push(value);
        self.toks.push(Tok::Num(bytes));
    }

    fn op(&mut self, code: u16) {
        self.toks.push(Tok::Op(code, vec![]));
        self.arithmetic += 1;
    }

    /// Apply one arithmetic operator, if it is applicable to the operands from
    /// `floor` on and leaves them well-defined. Returns whether it did.
    pub fn apply(&mut self, g: &mut G, code: u16, floor: usize) -> bool {
        let have = self.stack.len() - floor;
        let room = self.limit.saturating_sub(self.stack.len());
        let top = self.stack.len().wrapping_sub(1);
        let truth = |value: bool| if value { 1.0 } else { 0.0 };
        match code {
            // abs, neg, sqrt, not
            0x0c09 | 0x0c0e | 0x0c1a | 0x0c05 => {
                if have < 1 {
                    return false;
                }
                let value = self.stack[top];
                self.stack[top] = match code {
                    0x0c09 => {
                        if value < 0.0 {
                            -value
                        } else {
                            value
                        }
                    }
                    0x0c0e => -value,
                    0x0c05 => truth(value == 0.0),
                    _ if value < 0.0 => return false,
                    _ => ((value as f64).sqrt()) as f32,
                };
                self.op(code);
            }
            // add, sub, div, mul
            0x0c0a | 0x0c0b | 0x0c0c | 0x0c18 => {
                if have < 2 {
                    return false;
                }
                let (one, two) = (self.stack[top - 1] as f64, self.stack[top] as f64);
                if code == 0x0c0c && two == 0.0 {
                    return false;
                }
                // In double precision, rounded once
                let result = match code {
                    0x0c0a => one + two,
                    0x0c0b => one - two,
                    0x0c0c => one / two,
                    _ => one * two,
                } as f32;
                if !result.is_finite() {
                    return false;
                }
                self.stack.pop();
                self.stack[top - 1] = result;
                self.op(code);
            }
            // and, or, eq
            0x0c03 | 0x0c04 | 0x0c0f => {
                if have < 2 {
                    return false;
                }
                let two = self.stack.pop().unwrap();
                let one = self.stack.pop().unwrap();
                self.stack.push(truth(match code {
                    0x0c03 => one != 0.0 && two != 0.0,
                    0x0c04 => one != 0.0 || two != 0.0,
                    _ => one == two,
                }));
                self.op(code);
            }
            // ifelse
            0x0c16 => {
                if have < 4 {
                    return false;
                }
                let [s1, s2, v1, v2] = self.stack[top - 3..] else { unreachable!() };
                self.stack.truncate(top - 3);
                self.stack.push(if v1 > v2 { s2 } else { s1 });
                self.op(code);
            }
            // drop
            0x0c12 => {
                if have < 1 {
                    return false;
                }
                self.stack.pop();
                self.op(code);
            }
            // exch
            0x0c1c => {
                if have < 2 {
                    return false;
                }
                self.stack.swap(top, top - 1);
                self.op(code);
            }
            // dup
            0x0c1b => {
                if have < 1 || room < 1 {
                    return false;
                }
                self.stack.push(self.stack[top]);
                self.op(code);
            }
            // index
            0x0c1d => {
                if have < 1 || room < 1 {
                    return false;
                }
                let i = match g.weighted(&[8, 1, 1]) {
                    0 => g.size(0, have - 1) as i32,
                    1 => -(g.pick(&[1, 2, 107, 1131, 32768]) as i32),
                    _ => -(g.range(1, 32768) as i32),
                };
                let bytes = encode_integer(g, i);
                self.toks.push(Tok::Num(bytes));
                self.stack.push(self.stack[top - i.max(0) as usize]);
                self.op(code);
            }
            // roll
            0x0c1e => {
                if room < 4 {
                    return false;
                }
                let span = g.size(0, have);
                let bytes = encode_integer(g, span as i32);
                self.toks.push(Tok::Num(bytes));
                // Shifts beyond 16 bits take a multiplication.
                let shift = match g.weighted(&[6, 3, 2]) {
                    2 => {
                        let one = g.range(1, 181);
                        let two = g.range(-181, 181);
                        let three = g.range(1, 256);
                        for value in [one, two] {
                            let bytes = encode_integer(g, value as i32);
                            self.toks.push(Tok::Num(bytes));
                        }
                        self.op(0x0c18);
                        let bytes = encode_integer(g, three as i32);
                        self.toks.push(Tok::Num(bytes));
                        self.op(0x0c18);
                        one * two * three
                    }
                    choice => {
                        let shift = if choice == 0 {
                            g.range(-(span as i64) - 1, span as i64 + 1)
                        } else if g.chance(1, 2) {
                            g.range(-32768, 32767)
                        } else {
                            g.pick(&[-32768, 32767, -1132, 1132, 255, 256, -256])
                        };
                        let bytes = encode_integer(g, shift as i32);
                        self.toks.push(Tok::Num(bytes));
                        shift
                    }
                };
                self.op(code);
                if span > 0 {
                    let start = self.stack.len() - span;
                    let shift = (shift % span as i64 + span as i64) as usize % span;
                    self.stack[start..].rotate_right(shift);
                }
            }
            _ => unreachable!(),
        }
        true
    }

    /// Push one operand, perhaps by computing it.
    pub fn operand(&mut self, g: &mut G) {
        let base = self.stack.len();
        if self.arith == 0 || base + 8 > self.limit || !g.chance(self.arith, 16) {
            let number = number(g);
            self.put(number);
            return;
        }
        let count = g.size(1, 5);
        for _ in 0..count {
            if self.stack.len() >= self.limit {
                break;
            }
            let number = if g.chance(1, 2) { small(g) } else { number(g) };
            self.put(number);
            if g.chance(1, 2) {
                let code = g.pick(&ARITHMETIC);
                self.apply(g, code, base);
            }
        }
        while self.stack.len() > base + 1 {
            let code = if self.stack.len() >= base + 4 && g.chance(1, 2) {
                0x0c16
            } else {
                g.pick(&REDUCING)
            };
            if !self.apply(g, code, base) {
                self.apply(g, 0x0c12, base);
            }
        }
        if self.stack.len() == base {
            let number = number(g);
            self.put(number);
        }
    }

    /// Push the operands of an operation.
    pub fn operands(&mut self, g: &mut G, count: usize) {
        assert!(self.stack.is_empty());
        if self.first && self.extra {
            self.operand(g);
        }
        for _ in 0..count {
            self.operand(g);
        }
        if self.arith > 0 && g.chance(self.arith, 16) {
            for _ in 0..g.size(1, 3) {
                let code = g.pick(&[0x0c1e, 0x0c1c, 0x0c1b, 0x0c1d]);
                let height = self.stack.len();
                if self.apply(g, code, 0) && self.stack.len() > height {
                    self.apply(g, 0x0c12, 0);
                }
            }
        }
    }

    /// Emit the operator.
    pub fn flush(&mut self, code: u16, mask: Vec<u8>, report: bool) {
        if self.first && self.extra {
            self.width = Some(self.stack.remove(0));
        }
        self.first = false;
        self.toks.push(Tok::Op(code, mask));
        let operands = std::mem::take(&mut self.stack);
        self.steps.push(Step {
            code,
            operands: if report { operands } else { vec![] },
            width: self.width,
        });
    }

    pub fn simple(&mut self, g: &mut G, code: u16, count: usize) {
        self.operands(g, count);
        self.flush(code, vec![], true);
    }

    fn space(&self) -> usize {
        self.limit - (self.first && self.extra) as usize
    }

    fn stem_count(&self, g: &mut G) -> usize {
        let most = (self.space() / 2).min(96 - self.stems);
        match g.weighted(&[5, 3, 1]) {
            0 => g.size(1, most.min(3)),
            1 => g.size(1, most.min(9)),
            _ => g.size(1, most),
        }
    }

    pub fn stem(&mut self, g: &mut G, code: u16) {
        if self.stems >= 96 {
            return;
        }
        let count = self.stem_count(g);
        self.operands(g, 2 * count);
        self.stems += count;
        self.flush(code, vec![], true);
    }

    pub fn mask(&mut self, g: &mut G, implicit: bool) {
        let code = if g.chance(1, 3) { 0x14 } else { 0x13 };
        let mut count = 0;
        if implicit && self.stems < 96 {
            count = self.stem_count(g);
        }
        self.operands(g, 2 * count);
        self.stems += count;
        // Bytes that look like operators and numbers
        let size = self.stems.div_ceil(8);
        let mask = g.bytes_of(size);
        self.flush(code, mask, false);
    }

    pub fn hints(&mut self, g: &mut G, masked: bool) {
        let many = g.chance(1, 10);
        let amount = |g: &mut G| if many { g.size(1, 4) } else { g.weighted(&[2, 5, 1, 1]) };
        for _ in 0..amount(g) {
            self.stem(g, if masked { 0x12 } else { 0x01 });
        }
        for _ in 0..amount(g) {
            self.stem(g, if masked { 0x17 } else { 0x03 });
        }
        if masked {
            let implicit = g.chance(1, 3);
            // A mask needs a stem to be meaningful.
            self.mask(g, implicit || self.stems == 0);
            while g.chance(1, 4) {
                self.mask(g, false);
            }
        }
    }

    pub fn path(&mut self, g: &mut G, masked: bool) {
        let code = g.pick(&[0x15, 0x16, 0x04]);
        self.simple(g, code, if code == 0x15 { 2 } else { 1 });
        let count = g.len(12);
        for _ in 0..count {
            if masked && g.chance(1, 8) {
                self.mask(g, false);
            }
            self.draw(g);
        }
    }

    /// A line or a curve.
    pub fn draw(&mut self, g: &mut G) {
        let code = g.pick(&DRAWING);
        let space = self.space();
        let count = draw_count(g, code, space);
        self.simple(g, code, count);
    }

    pub fn end(&mut self, g: &mut G, accent: bool) {
        self.operands(g, if accent { 4 } else { 0 });
        if self.first && self.extra {
            self.width = Some(self.stack[0]);
        }
        self.stack.clear();
        self.first = false;
        self.toks.push(Tok::Op(0x0e, vec![]));
    }
}

/// A number of operands that suits a drawing operator.
pub fn draw_count(g: &mut G, code: u16, space: usize) -> usize {
    let (base, step) = match code {
        0x05 => (2, 2),
        0x06 | 0x07 => (1, 1),
        0x08 => (6, 6),
        0x1a | 0x1b | 0x1e | 0x1f => {
            let most = (space - 1) / 4;
            let n = match g.weighted(&[5, 2]) {
                0 => g.size(1, 3),
                _ => g.size(1, most),
            };
            return 4 * n + g.below(2) as usize;
        }
        0x18 => (8, 6),
        0x19 => (8, 2),
        0x0c22 => (7, 0),
        0x0c23 => (13, 0),
        0x0c24 => (9, 0),
        0x0c25 => (11, 0),
        _ => unreachable!(),
    };
    if step == 0 {
        return base;
    }
    let most = (space - base) / step;
    let n = match g.weighted(&[5, 2, 1]) {
        0 => g.size(0, most.min(3)),
        1 => g.size(0, most),
        _ => most,
    };
    base + n * step
}

pub const DRAWING: [u16; 14] = [
    0x05, 0x06, 0x07, 0x08, 0x1a, 0x1b, 0x1e, 0x1f, 0x18, 0x19, 0x0c22, 0x0c23, 0x0c24, 0x0c25,
];

pub const ARITHMETIC: [u16; 17] = [
    0x0c09, 0x0c0a, 0x0c0b, 0x0c0c, 0x0c0e, 0x0c18, 0x0c1a, 0x0c12, 0x0c1c, 0x0c1d, 0x0c1e, 0x0c1b,
    0x0c03, 0x0c04, 0x0c05, 0x0c0f, 0x0c16,
];

const REDUCING: [u16; 8] = [0x0c0a, 0x0c0b, 0x0c0c, 0x0c18, 0x0c03, 0x0c04, 0x0c0f, 0x0c12];

/// A whole program.
pub fn program(g: &mut G, arith: u64) -> Prog {
    program_within(g, arith, STACK)
}

/// A whole program that leaves room for the numbers of subroutines.
pub fn roomy(g: &mut G, arith: u64) -> Prog {
    program_within(g, arith, STACK - 1)
}

fn program_within(g: &mut G, arith: u64, limit: usize) -> Prog {
    let extra = g.chance(1, 2);
    let mut b = Builder::new(extra, arith);
    b.limit = limit;
    let form = g.weighted(&[6, 1, 1]);
    if form == 1 {
        b.end(g, false);
        return b.done();
    }
    if form == 2 {
        if g.chance(1, 3) {
            b.hints(g, false);
        }
        b.end(g, true);
        return b.done();
    }
    let masked = g.chance(1, 2);
    if g.chance(3, 4) {
        b.hints(g, masked);
    }
    let masked = masked && b.stems > 0;
    let paths = g.weighted(&[1, 6, 3, 2, 1]);
    for _ in 0..paths {
        let tok = b.toks.len();
        let step = b.steps.len();
        let first = b.first;
        b.path(g, masked);
        // Again the same, for shared subroutines
        if !first && g.chance(1, 4) {
            let toks = b.toks[tok..].to_vec();
            let steps = b.steps[step..].to_vec();
            b.repeats.push((tok, b.toks.len()));
            b.repeats.push((b.toks.len(), b.toks.len() + toks.len()));
            b.toks.extend(toks);
            b.steps.extend(steps);
        }
    }
    b.end(g, false);
    b.done()
}

/// What the code under test makes of a program.
#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub steps: Vec<Step>,
    /// The final width, or the error
    pub end: Result<Option<f32>, String>,
}

pub fn same(one: f32, other: f32) -> bool {
    one == other || (one.is_nan() && other.is_nan())
}

pub fn same_option(one: Option<f32>, other: Option<f32>) -> bool {
    match (one, other) {
        (Some(one), Some(other)) => same(one, other),
        (None, None) => true,
        _ => false,
    }
}

/// Run to the end or an error, at most so many operations.
pub fn interpret(
    code: &[u8],
    global: &[Vec<u8>],
    local: &[Vec<u8>],
    limit: usize,
) -> Result<Run, String> {
    let mut steps = vec![];
    let mut program = sut(|| Program::new(code, global, local))?;
    if sut(|| program.width())?.is_some() {
        return Err("a width before the first operation".to_string());
    }
    loop {
        let next = sut(|| program.next().map_err(|error| error.to_string()))?;
        match next {
            Ok(Some((operator, operands))) => {
                let code = ops::PROGRAM
                    .iter()
                    .find(|entry| entry.1 == operator)
                    .map(|entry| entry.0)
                    .ok_or_else(|| format!("an unexpected operator {operator:?}"))?;
                steps.push(Step { code, operands, width: sut(|| program.width())? });
                if steps.len() > limit {
                    return Err(format!("more than {limit} operations"));
                }
            }
            Ok(None) => {
                let width = sut(|| program.width())?;
                for _ in 0..2 {
                    match sut(|| program.next().map_err(|error| error.to_string()))? {
                        Ok(None) => {}
                        other => return Err(format!("after the end: {other:?}")),
                    }
                }
                if !same_option(width, sut(|| program.width())?) {
                    return Err("the width changes after the end".to_string());
                }
                return Ok(Run { steps, end: Ok(width) });
            }
            Err(message) => return Ok(Run { steps, end: Err(message) }),
        }
    }
}

pub fn compare_steps(expected: &[Step], found: &[Step]) -> Result<(), String> {
    for (i, (one, other)) in expected.iter().zip(found.iter()).enumerate() {
        if one.code != other.code
            || one.operands.len() != other.operands.len()
            || one.operands.iter().zip(other.operands.iter()).any(|(one, other)| !same(*one, *other))
            || !same_option(one.width, other.width)
        {
            return Err(format!("operation {i}: expected {one:x?}, found {other:x?}"));
        }
    }
    if expected.len() != found.len() {
        return Err(format!(
            "expected {} operations, found {}; the first beyond is {:x?}",
            expected.len(),
            found.len(),
            expected.get(found.len()).or(found.get(expected.len())),
        ));
    }
    Ok(())
}

/// A complete run is expected.
pub fn expect_run(prog: &Prog, run: &Run) -> Result<(), String> {
    compare_steps(&prog.steps, &run.steps).map_err(|message| match &run.end {
        Err(error) => format!("{message} (ended with an error: {error})"),
        _ => message,
    })?;
    match &run.end {
        Ok(width) if same_option(prog.width, *width) => Ok(()),
        Ok(width) => Err(format!("expected the width {:?}, found {width:?}", prog.width)),
        Err(error) => Err(format!("an error instead of the end: {error}")),
    }
}

/// A program with subroutines.
#[derive(Clone)]
pub struct Factored {
    pub code: Vec<u8>,
    pub global: Vec<Vec<u8>>,
    pub local: Vec<Vec<u8>>,
    pub depth: usize,
    pub calls: usize,
    pub reused: usize,
    pub highest: bool,
    pub unreached: bool,
}

impl std::fmt::Debug for Factored {
    fn fmt(&self, formatter: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(formatter, "code {}", hex(&self.code))?;
        for (name, list) in [("global", &self.global), ("local", &self.local)] {
            write!(formatter, ", {} {name}", list.len())?;
            for (i, body) in list.iter().enumerate() {
                if *body != DECOYS[0] && *body != DECOYS[1] && *body != DECOYS[2] {
                    write!(formatter, " [{i}] {}", hex(body))?;
                }
            }
        }
        Ok(())
    }
}

/// Subroutines that must never be called: 100 hmoveto, endchar, drop
const DECOYS: [&[u8]; 3] = [&[239, 0x16, 0x0b], &[0x0e], &[139, 0x16, 0x0c, 0x12, 0x0b]];

/// The two lists of subroutines under construction.
pub struct Lists {
    pub bodies: [HashMap<usize, Vec<u8>>; 2],
    pub counts: [usize; 2],
    known: [HashMap<Vec<u8>, usize>; 2],
    pub calls: usize,
    pub reused: usize,
    pub depth: usize,
    pub highest: bool,
    pub unreached: bool,
}

impl Lists {
    pub fn new(global: usize, local: usize) -> Self {
        Lists {
            bodies: Default::default(),
            counts: [global, local],
            known: Default::default(),
            calls: 0,
            reused: 0,
            depth: 0,
            highest: false,
            unreached: false,
        }
    }

    /// Find a place for a subroutine.
    pub fn place(&mut self, g: &mut G, which: usize, body: Vec<u8>) -> Option<usize> {
        if let Some(slot) = self.known[which].get(&body) {
            self.reused += 1;
            return Some(*slot);
        }
        let count = self.counts[which];
        if self.bodies[which].len() == count {
            return None;
        }
        let mut slot = match g.weighted(&[3, 1, 1]) {
            0 => g.size(0, count - 1),
            1 => 0,
            _ => count - 1,
        };
        while self.bodies[which].contains_key(&slot) {
            slot = (slot + 1) % count;
        }
        self.highest |= slot == count - 1 || slot == 0;
        self.known[which].insert(body.clone(), slot);
        self.bodies[which].insert(slot, body);
        Some(slot)
    }

    /// The bytes of tokens, some of them moved into subroutines.
    pub fn factor(
        &mut self,
        g: &mut G,
        toks: &[Tok],
        repeats: &[(usize, usize)],
        level: usize,
        deep: bool,
    ) -> Vec<u8> {
        self.depth = self.depth.max(level);
        let mut ranges: Vec<(usize, usize)> = vec![];
        if level < 10 && !toks.is_empty() {
            if !repeats.is_empty() && g.chance(2, 3) {
                ranges.extend(repeats);
            }
            let count = if deep { g.size(1, 2) } else { g.weighted(&[2, 3, 2, 1]) };
            for _ in 0..count {
                let size = match g.below(3) {
                    0 => g.size(1, toks.len()),
                    1 => g.size(1, toks.len().min(4)),
                    _ => toks.len(),
                };
                let start = g.size(0, toks.len() - size);
                ranges.push((start, start + size));
            }
            ranges.sort();
        }
        let mut code = vec![];
        let mut at = 0;
        for (start, end) in ranges {
            if start < at {
                continue;
            }
            for tok in toks[at..start].iter() {
                tok.bytes(&mut code);
            }
            at = start;
            let part = &toks[start..end];
            let which = g.below(2) as usize;
            let which = if self.counts[which] == 0 { 1 - which } else { which };
            if self.counts[which] == 0 {
                continue;
            }
            let mut body = self.factor(g, part, &[], level + 1, deep);
            if !matches!(part.last(), Some(Tok::Op(0x0e, _))) {
                body.push(0x0b);
            }
            let Some(slot) = self.place(g, which, body) else { continue };
            let address = slot as i64 - bias(self.counts[which]);
            code.extend(encode_integer(g, address as i32));
            code.push([0x1d, 0x0a][which]);
            self.calls += 1;
            at = end;
        }
        for tok in toks[at..].iter() {
            tok.bytes(&mut code);
        }
        // The glyph ends within a subroutine; what follows the call is never reached.
        let ended = at > 0 && at == toks.len() && matches!(toks.last(), Some(Tok::Op(0x0e, _)));
        if level == 0 && ended && g.chance(1, 2) {
            self.unreached = true;
            match g.below(3) {
                0 => code.push(0x0e),
                1 => code.extend([140, 0x06, 0x0e]),
                _ => {
                    let size = g.size(1, 8);
                    code.extend(g.bytes_of(size));
                }
            }
        }
        code
    }

    /// The list with decoys where there is nothing.
    pub fn list(&self, which: usize, seed: u64) -> Vec<Vec<u8>> {
        (0..self.counts[which])
            .map(|i| match self.bodies[which].get(&i) {
                Some(body) => body.clone(),
                _ => DECOYS[((i as u64 + seed) % 3) as usize].to_vec(),
            })
            .collect()
    }
}

pub fn subroutine_count(g: &mut G) -> usize {
    match g.weighted(&[4, 10, 6, 3, 1]) {
        0 => 0,
        1 => g.size(1, 12),
        2 => g.pick(&[106, 107, 108, 213, 214, 215, 216, 300]),
        3 => g.pick(&[1238, 1239, 1240, 1241, 1500, 2263]),
        _ => g.pick(&[33899, 33900, 33901, 65535, 40000]),
    }
}

pub fn factored(g: &mut G, prog: &Prog) -> Factored {
    let global = subroutine_count(g);
    let local = subroutine_count(g);
    let deep = g.chance(1, 3);
    let mut lists = Lists::new(global, local);
    let code = lists.factor(g, &prog.toks, &prog.repeats, 0, deep);
    let seed = g.below(3);
    Factored {
        code,
        global: lists.list(0, seed),
        local: lists.list(1, seed),
        depth: lists.depth,
        calls: lists.calls,
        reused: lists.reused,
        highest: lists.highest,
        unreached: lists.unreached,
    }
}
