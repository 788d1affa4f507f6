//! An independent interpreter of glyph programs, written from the
//! specification (Adobe Technical Note 5177).

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub code: u16,
    pub operands: Vec<f32>,
    /// The width known after the operation
    pub width: Option<f32>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// The end of the glyph, with the width
    Done(Option<f32>),
    /// The program is malformed at this point.
    Error(&'static str),
    /// Nothing is promised from this point on.
    Unspecified(&'static str),
    /// Too many instructions
    Long,
}

pub const TOO_DEEP: &str = "too deep";

#[derive(Clone, Debug)]
pub struct Trace {
    pub steps: Vec<Step>,
    pub end: End,
    pub depth: usize,
    pub stems: usize,
}

struct Frame<'a> {
    code: &'a [u8],
    at: usize,
}

pub const DEPTH: usize = 10;

pub fn bias(count: usize) -> i64 {
    match count {
        0..=1239 => 107,
        1240..=33899 => 1131,
        _ => 32768,
    }
}

fn integer(value: f32) -> Option<i64> {
    if value.fract() == 0.0 && value.is_finite() {
        Some(value.clamp(-4e18, 4e18) as i64)
    } else {
        None
    }
}

/// Does a number of operands fit an operator, and if not, are they too few?
enum Fit {
    Yes,
    Few,
    No,
}

fn fit(code: u16, count: usize) -> Fit {
    let (least, yes) = match code {
        0x05 => (2, count % 2 == 0),
        0x06 | 0x07 => (1, true),
        0x08 => (6, count % 6 == 0),
        0x1a | 0x1b | 0x1e | 0x1f => (4, count % 4 <= 1),
        0x18 => (8, count % 6 == 2),
        0x19 => (8, count % 2 == 0),
        0x0c22 => (7, count == 7),
        0x0c23 => (13, count == 13),
        0x0c24 => (9, count == 9),
        0x0c25 => (11, count == 11),
        _ => unreachable!(),
    };
    if count < least {
        Fit::Few
    } else if yes {
        Fit::Yes
    } else {
        Fit::No
    }
}

pub fn run(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>], limit: u64) -> Trace {
    let mut frames = vec![Frame { code, at: 0 }];
    let mut stack: Vec<f32> = vec![];
    let mut steps: Vec<Step> = vec![];
    let mut width = None;
    let mut first = true;
    let mut stems = 0;
    let mut instructions = 0;
    let mut depth = 0;
    // Whether an operator has been executed since the last number
    let mut settled = true;
    let end = loop {
        instructions += 1;
        if instructions > limit {
            break End::Long;
        }
        let level = frames.len();
        depth = depth.max(level - 1);
        let frame = frames.last_mut().unwrap();
        let rest = &frame.code[frame.at..];
        let Some(byte) = rest.first().copied() else {
            break if !settled {
                // After operands
                if level == 1 {
                    End::Error("operands without an operator")
                } else {
                    End::Unspecified("a subroutine that just ends after operands")
                }
            } else {
                End::Unspecified("a program that just ends")
            };
        };
        let number = match byte {
            28 => rest.get(1..3).map(|bytes| (i16::from_be_bytes([bytes[0], bytes[1]]) as f32, 3)),
            32..=246 => Some((byte as f32 - 139.0, 1)),
            247..=250 => {
                rest.get(1).map(|next| ((byte as f32 - 247.0) * 256.0 + *next as f32 + 108.0, 2))
            }
            251..=254 => {
                rest.get(1).map(|next| (-(byte as f32 - 251.0) * 256.0 - *next as f32 - 108.0, 2))
            }
            255 => rest.get(1..5).map(|bytes| {
                let raw = i32::from_be_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
                ((raw as f64 / 65536.0) as f32, 5)
            }),
            _ => Some((0.0, 0)),
        };
        match number {
            None => break End::Error("an incomplete number"),
            Some((_, 0)) => {}
            Some((value, size)) => {
                stack.push(value);
                frame.at += size;
                settled = false;
                continue;
            }
        }
        let code = if byte == 12 {
            let Some(next) = rest.get(1) else {
                break End::Error("an incomplete operator");
            };
            frame.at += 2;
            0x0c00 | *next as u16
        } else {
            frame.at += 1;
            byte as u16
        };
        settled = true;
        if stack.len() > 48 {
            // The limit of the specification, after which anything goes
            break End::Unspecified("a full stack");
        }
        macro_rules! need(($count:expr) => (
            if stack.len() < $count {
                break End::Error("too few operands");
            }
        ));
        macro_rules! pop(() => (stack.pop().unwrap()));
        let truth = |value: bool| if value { 1.0 } else { 0.0 };
        match code {
            // Stems
            0x01 | 0x03 | 0x12 | 0x17 => {
                need!(2);
                if stack.len() % 2 > 0 {
                    if !first {
                        break End::Unspecified("an extra operand");
                    }
                    width = Some(stack.remove(0));
                }
                first = false;
                stems += stack.len() / 2;
                steps.push(Step { code, operands: std::mem::take(&mut stack), width });
            }
            // Masks
            0x13 | 0x14 => {
                let implicit = stack.len() / 2;
                let extra = stack.len() % 2 > 0;
                let size = (stems + implicit).div_ceil(8);
                let frame = frames.last_mut().unwrap();
                if frame.code.len() - frame.at < size {
                    break End::Error("an incomplete mask");
                }
                frame.at += size;
                if extra {
                    if !first {
                        break End::Unspecified("an extra operand");
                    }
                    width = Some(stack[0]);
                }
                stems += implicit;
                first = false;
                stack.clear();
                steps.push(Step { code, operands: vec![], width });
            }
            // Moves
            0x04 | 0x15 | 0x16 => {
                let count = if code == 0x15 { 2 } else { 1 };
                need!(count);
                if stack.len() > count {
                    if !first || stack.len() > count + 1 {
                        break End::Unspecified("an extra operand");
                    }
                    width = Some(stack.remove(0));
                }
                first = false;
                steps.push(Step { code, operands: std::mem::take(&mut stack), width });
            }
            // Lines and curves
            0x05..=0x08 | 0x18..=0x1b | 0x1e | 0x1f | 0x0c22..=0x0c25 => {
                match fit(code, stack.len()) {
                    Fit::Yes => {}
                    Fit::Few => break End::Error("too few operands"),
                    Fit::No => break End::Unspecified("a number of operands"),
                }
                first = false;
                steps.push(Step { code, operands: std::mem::take(&mut stack), width });
            }
            // The end
            0x0e => {
                match stack.len() {
                    0 | 4 => {}
                    1 | 5 if first => width = Some(stack[0]),
                    _ => break End::Unspecified("operands at the end"),
                }
                if frames[1..].iter().any(|frame| frame.at < frame.code.len()) {
                    break End::Unspecified("an end within a subroutine that goes on");
                }
                break End::Done(width);
            }
            // Subroutines
            0x0a | 0x1d => {
                need!(1);
                if level > DEPTH {
                    break End::Error(TOO_DEEP);
                }
                let subroutines = if code == 0x0a { local } else { global };
                let Some(index) = integer(pop!()) else {
                    break End::Error("not a subroutine number");
                };
                let index = index + bias(subroutines.len());
                if index < 0 || index >= subroutines.len() as i64 {
                    break End::Error("no such subroutine");
                }
                frames.push(Frame { code: &subroutines[index as usize], at: 0 });
            }
            0x0b => {
                if level == 1 {
                    break End::Error("a return without a call");
                }
                frames.pop();
            }
            // Arithmetic
            0x0c09 => {
                need!(1);
                let value = pop!();
                stack.push(value.abs());
            }
            0x0c0e => {
                need!(1);
                let value = pop!();
                stack.push(0.0 - value);
            }
            0x0c1a => {
                need!(1);
                let value = pop!();
                if value < 0.0 {
                    break End::Unspecified("the root of a negative number");
                }
                stack.push(value.sqrt());
            }
            0x0c0a | 0x0c0b | 0x0c0c | 0x0c18 => {
                need!(2);
                let (two, one) = (pop!(), pop!());
                let result = match code {
                    0x0c0a => one + two,
                    0x0c0b => one - two,
                    0x0c0c if two == 0.0 => break End::Unspecified("a division by zero"),
                    0x0c0c => one / two,
                    _ => one * two,
                };
                if !result.is_finite() {
                    break End::Unspecified("an overflow");
                }
                stack.push(result);
            }
            0x0c12 => {
                need!(1);
                stack.pop();
            }
            0x0c1c => {
                need!(2);
                let length = stack.len();
                stack.swap(length - 1, length - 2);
            }
            0x0c1b => {
                need!(1);
                stack.push(*stack.last().unwrap());
            }
            0x0c1d => {
                need!(1);
                let value = pop!();
                if value < -2147483648.0 {
                    break End::Unspecified("a hugely negative index");
                }
                let Some(index) = integer(value) else {
                    break End::Error("not an index");
                };
                let index = index.max(0) as usize;
                need!(index + 1);
                stack.push(stack[stack.len() - 1 - index]);
            }
            0x0c1e => {
                need!(2);
                let (shift, span) = (pop!(), pop!());
                if shift < -2147483648.0 || shift >= 2147483648.0 {
                    break End::Unspecified("a huge shift");
                }
                let (Some(shift), Some(span)) = (integer(shift), integer(span)) else {
                    break End::Error("not an integer");
                };
                if span < 0 {
                    break End::Error("a negative span");
                }
                if span as usize > stack.len() {
                    break End::Error("too few operands");
                }
                if span > 0 {
                    let start = stack.len() - span as usize;
                    let old = stack[start..].to_vec();
                    for (i, value) in old.into_iter().enumerate() {
                        let to = (i as i64 + shift).rem_euclid(span) as usize;
                        stack[start + to] = value;
                    }
                }
            }
            // Conditions
            0x0c03 | 0x0c04 | 0x0c0f => {
                need!(2);
                let (two, one) = (pop!(), pop!());
                stack.push(truth(match code {
                    0x0c03 => one != 0.0 && two != 0.0,
                    0x0c04 => one != 0.0 || two != 0.0,
                    _ => one == two,
                }));
            }
            0x0c05 => {
                need!(1);
                let value = pop!();
                stack.push(truth(value == 0.0));
            }
            0x0c16 => {
                need!(4);
                let (v2, v1, s2, s1) = (pop!(), pop!(), pop!(), pop!());
                stack.push(if v1 <= v2 { s1 } else { s2 });
            }
            0x0c14 | 0x0c15 | 0x0c17 => break End::Error("an unsupported operator"),
            _ => break End::Error("a reserved operator"),
        }
    };
    Trace { steps, end, depth, stems }
}
