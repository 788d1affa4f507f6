//! Numbers of font dictionaries: encodings, spellings and an exact oracle.

use crate::gen::G;
use postscript::compact1::Number;
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, Copy, PartialEq)]
pub enum Val {
    Int(i32),
    Real(f32),
}

impl fmt::Debug for Val {
    fn fmt(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Val::Int(value) => write!(formatter, "{value}"),
            Val::Real(value) => write!(formatter, "{value:e}r"),
        }
    }
}

impl Val {
    pub fn same(&self, number: &Number) -> bool {
        match (self, number) {
            (Val::Int(one), Number::Integer(other)) => one == other,
            (Val::Real(one), Number::Real(other)) => one == other,
            _ => false,
        }
    }
}

pub fn same_all(values: &[Val], numbers: &[Number]) -> bool {
    values.len() == numbers.len() && values.iter().zip(numbers).all(|(one, other)| one.same(other))
}

/// A number with its bytes.
#[derive(Clone)]
pub struct Coded {
    pub bytes: Vec<u8>,
    pub value: Val,
}

impl fmt::Debug for Coded {
    fn fmt(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(formatter, "{:?}<", self.value)?;
        for byte in self.bytes.iter() {
            write!(formatter, "{byte:02x}")?;
        }
        write!(formatter, ">")
    }
}

/// The width in bytes of the encodings of an integer.
pub fn int_widths(value: i32) -> Vec<u8> {
    let mut widths = vec![];
    if (-107..=107).contains(&value) {
        widths.push(1);
    }
    if (108..=1131).contains(&value) || (-1131..=-108).contains(&value) {
        widths.push(2);
    }
    if (-32768..=32767).contains(&value) {
        widths.push(3);
    }
    widths.push(5);
    widths
}

pub fn encode_int(value: i32, width: u8) -> Vec<u8> {
    match width {
        1 => vec![(value + 139) as u8],
        2 if value > 0 => {
            let rest = value - 108;
            vec![247 + (rest >> 8) as u8, (rest & 255) as u8]
        }
        2 => {
            let rest = -value - 108;
            vec![251 + (rest >> 8) as u8, (rest & 255) as u8]
        }
        3 => vec![28, (value >> 8) as u8, value as u8],
        5 => vec![29, (value >> 24) as u8, (value >> 16) as u8, (value >> 8) as u8, value as u8],
        _ => unreachable!(),
    }
}

pub fn coded_int(g: &mut G, value: i32) -> Coded {
    let widths = int_widths(value);
    let width = g.pick(&widths);
    Coded { bytes: encode_int(value, width), value: Val::Int(value) }
}

/// Another number of the same size, often close to it.
pub fn sibling(g: &mut G, coded: &Coded) -> Coded {
    let Val::Int(value) = coded.value else {
        return coded.clone();
    };
    let width = coded.bytes.len() as u8;
    let limits: (i32, i32) = match width {
        1 => (-107, 107),
        2 if value > 0 => (108, 1131),
        2 => (-1131, -108),
        3 => (-32768, 32767),
        _ => (i32::MIN, i32::MAX),
    };
    let new = match g.weighted(&[2, 1, 1]) {
        0 => value.saturating_add(1),
        1 => value.saturating_sub(1),
        _ => g.int32(),
    };
    let value = new.clamp(limits.0, limits.1);
    Coded { bytes: encode_int(value, width), value: Val::Int(value) }
}

/// A natural number without a bound.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big(Vec<u32>);

impl Big {
    pub fn new(value: u64) -> Self {
        let mut big = Big(vec![value as u32, (value >> 32) as u32]);
        big.trim();
        big
    }

    fn trim(&mut self) {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }

    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }

    pub fn multiply_add(&mut self, factor: u32, term: u32) {
        let mut carry = term as u64;
        for digit in self.0.iter_mut() {
            carry += *digit as u64 * factor as u64;
            *digit = carry as u32;
            carry >>= 32;
        }
        if carry > 0 {
            self.0.push(carry as u32);
        }
        self.trim();
    }

    pub fn power(&mut self, base: u32, exponent: u32) {
        for _ in 0..exponent {
            self.multiply_add(base, 0);
        }
    }

    pub fn from_decimal(digits: &[u8]) -> Self {
        let mut big = Big(vec![]);
        for digit in digits {
            big.multiply_add(10, *digit as u32);
        }
        big
    }

    pub fn to_decimal(&self) -> Vec<u8> {
        let mut value = self.clone();
        let mut digits = vec![];
        while !value.is_zero() {
            let mut rest = 0u64;
            for digit in value.0.iter_mut().rev() {
                rest = rest << 32 | *digit as u64;
                *digit = (rest / 10) as u32;
                rest %= 10;
            }
            value.trim();
            digits.push(rest as u8);
        }
        digits.reverse();
        digits
    }

    pub fn compare(&self, other: &Big) -> Ordering {
        self.0.len().cmp(&other.0.len()).then_with(|| self.0.iter().rev().cmp(other.0.iter().rev()))
    }
}

/// A decimal: the digits times ten to the power of the exponent.
#[derive(Clone, Debug)]
pub struct Decimal {
    pub negative: bool,
    pub digits: Vec<u8>,
    pub exponent: i64,
}

impl Decimal {
    /// Compare the magnitude with `mantissa * 2^power`.
    fn compare(&self, mantissa: u64, power: i32) -> Ordering {
        let start = self.digits.iter().position(|digit| *digit != 0).unwrap_or(self.digits.len());
        let digits = &self.digits[start..];
        if digits.is_empty() {
            return 0.cmp(&mantissa);
        }
        let magnitude = digits.len() as i64 + self.exponent;
        if magnitude > 60 {
            return Ordering::Greater;
        }
        if magnitude < -80 {
            return if mantissa == 0 { Ordering::Greater } else { Ordering::Less };
        }
        let mut one = Big::from_decimal(digits);
        let mut two = Big::new(mantissa);
        if self.exponent > 0 {
            one.power(10, self.exponent as u32);
        } else {
            two.power(10, -self.exponent as u32);
        }
        if power > 0 {
            two.power(2, power as u32);
        } else {
            one.power(2, -power as u32);
        }
        one.compare(&two)
    }

    /// Is it too large for a finite single-precision number?
    pub fn overflows(&self) -> bool {
        // Half way from the largest finite number to the next power of two
        self.compare((1 << 25) - 1, 103) != Ordering::Less
    }

    /// Is this the nearest single-precision number (ties to even)?
    pub fn nearest(&self, value: f32) -> bool {
        if !value.is_finite() {
            return false;
        }
        let bits = value.abs().to_bits();
        if value != 0.0 && value.is_sign_negative() != self.negative {
            return false;
        }
        let even = bits & 1 == 0;
        let (mantissa, power) = unpack(bits);
        // The upper middle
        let upper = match self.compare(2 * mantissa + 1, power - 1) {
            Ordering::Less => true,
            Ordering::Equal => even,
            Ordering::Greater => false,
        };
        if bits == 0 {
            return upper;
        }
        let (below, power_below) = unpack(bits - 1);
        // The lower middle: the mean of the two neighbours
        let (sum, power) = if power == power_below {
            (mantissa + below, power - 1)
        } else {
            (2 * mantissa + below, power_below - 1)
        };
        let lower = match self.compare(sum, power) {
            Ordering::Greater => true,
            Ordering::Equal => even,
            Ordering::Less => false,
        };
        upper && lower
    }
}

/// The mantissa and the power of two of a finite number.
fn unpack(bits: u32) -> (u64, i32) {
    let exponent = (bits >> 23) as i32;
    let fraction = (bits & 0x7f_ffff) as u64;
    if exponent == 0 {
        (fraction, -149)
    } else {
        (fraction | 0x80_0000, exponent - 150)
    }
}

/// What a string of nibbles (without the final 0xf) means.
#[derive(Clone, Debug)]
pub enum Meaning {
    Decimal(Decimal),
    /// Written in a way that the format does not foresee but that makes sense
    Odd,
    Nonsense,
}

pub fn meaning(nibbles: &[u8]) -> Meaning {
    let mut i = 0;
    let at = |i: usize| nibbles.get(i).copied().unwrap_or(0xf);
    let mut negative = false;
    if at(i) == 0xe {
        negative = true;
        i += 1;
    }
    let mut digits = vec![];
    let mut exponent = 0i64;
    while at(i) <= 9 {
        digits.push(at(i));
        i += 1;
    }
    if at(i) == 0xa {
        i += 1;
        while at(i) <= 9 {
            digits.push(at(i));
            exponent -= 1;
            i += 1;
        }
    }
    if digits.is_empty() {
        return Meaning::Nonsense;
    }
    let mut odd = false;
    if at(i) == 0xb || at(i) == 0xc {
        let mut minus = at(i) == 0xc;
        i += 1;
        if !minus && at(i) == 0xe {
            odd = true;
            minus = true;
            i += 1;
        }
        let mut value = 0i64;
        let start = i;
        while at(i) <= 9 {
            value = (value * 10 + at(i) as i64).min(1 << 40);
            i += 1;
        }
        if i == start {
            return Meaning::Nonsense;
        }
        exponent += if minus { -value } else { value };
    }
    if i != nibbles.len() {
        return Meaning::Nonsense;
    }
    if odd {
        return Meaning::Odd;
    }
    Meaning::Decimal(Decimal { negative, digits, exponent })
}

/// Pack nibbles with the end mark and, if needed, the padding.
pub fn pack(nibbles: &[u8]) -> Vec<u8> {
    let mut nibbles = nibbles.to_vec();
    nibbles.push(0xf);
    if nibbles.len() % 2 > 0 {
        nibbles.push(0xf);
    }
    let mut bytes = vec![0x1e];
    bytes.extend(nibbles.chunks(2).map(|pair| pair[0] << 4 | pair[1]));
    bytes
}

pub fn spell(nibbles: &[u8]) -> String {
    nibbles
        .iter()
        .map(|nibble| match nibble {
            0xa => ".".to_string(),
            0xb => "E".to_string(),
            0xc => "E-".to_string(),
            0xe => "-".to_string(),
            0xd => "?".to_string(),
            digit => digit.to_string(),
        })
        .collect()
}

/// A well-formed spelling of a real.
pub fn spelling(g: &mut G) -> Vec<u8> {
    if g.chance(1, 6) {
        return middle(g);
    }
    let mut nibbles = vec![];
    if g.chance(1, 3) {
        nibbles.push(0xe);
    }
    let digits = |g: &mut G, nibbles: &mut Vec<u8>, low: usize, high: usize| {
        let count = g.size(low, high);
        for _ in 0..count {
            nibbles.push(g.below(10) as u8);
        }
        count
    };
    let high = g.pick(&[1, 3, 9, 25, 60]);
    let mut count = digits(g, &mut nibbles, 0, high);
    if count == 0 || g.chance(1, 2) {
        nibbles.push(0xa);
        let high = g.pick(&[1, 3, 9, 25, 60]);
        count += digits(g, &mut nibbles, (count == 0) as usize, high.max(1));
    }
    let _ = count;
    if g.chance(1, 3) {
        nibbles.push(if g.chance(1, 2) { 0xc } else { 0xb });
        for _ in 0..g.below(3) {
            nibbles.push(0);
        }
        let high = g.pick(&[9, 30, 50, 400]);
        let exponent = g.below(high);
        nibbles.extend(exponent.to_string().bytes().map(|byte| byte - b'0'));
    }
    nibbles
}

/// A spelling at or next to the middle of two single-precision numbers, or
/// exactly at one.
fn middle(g: &mut G) -> Vec<u8> {
    let bits = match g.weighted(&[4, 1, 1]) {
        0 => g.below(0x7f80_0000) as u32,
        1 => g.below(1 << 23) as u32,
        _ => (g.below(255) as u32) << 23,
    };
    let (mut mantissa, mut power) = unpack(bits);
    if g.chance(3, 4) {
        mantissa = 2 * mantissa + 1;
        power -= 1;
    }
    let mut big = Big::new(mantissa);
    let mut exponent = 0;
    if power >= 0 {
        big.power(2, power as u32);
    } else {
        big.power(5, -power as u32);
        exponent = -power as i64;
    }
    let mut digits = big.to_decimal();
    if digits.is_empty() {
        digits.push(0);
    }
    match g.weighted(&[2, 1, 1]) {
        1 => {
            digits.push(1);
            exponent += 1;
        }
        2 => {
            // One less in the last place, and a nine
            let mut i = digits.len();
            while i > 0 && digits[i - 1] == 0 {
                i -= 1;
            }
            if i > 0 {
                digits[i - 1] -= 1;
                for digit in digits[i..].iter_mut() {
                    *digit = 9;
                }
                digits.push(9);
                exponent += 1;
            }
        }
        _ => {}
    }
    let mut nibbles = vec![];
    if g.chance(1, 3) {
        nibbles.push(0xe);
    }
    // Where to put the point
    let point = g.size(0, digits.len());
    let mut shift = exponent;
    for (i, digit) in digits.iter().enumerate() {
        if i == point {
            nibbles.push(0xa);
            shift -= (digits.len() - i) as i64;
        }
        nibbles.push(*digit);
    }
    if shift != 0 {
        nibbles.push(if shift > 0 { 0xc } else { 0xb });
        nibbles.extend(shift.abs().to_string().bytes().map(|byte| byte - b'0'));
    }
    nibbles
}

/// A well-formed real that does not overflow, with its nearest value.
pub fn coded_real(g: &mut G) -> Coded {
    let mut nibbles = spelling(g);
    let mut decimal = match meaning(&nibbles) {
        Meaning::Decimal(decimal) => decimal,
        _ => panic!("a malformed spelling: {}", spell(&nibbles)),
    };
    if decimal.overflows() {
        nibbles = vec![1, 0xa, 5];
        decimal = Decimal { negative: false, digits: vec![1, 5], exponent: -1 };
    }
    let value = nearest_of(&nibbles, &decimal);
    Coded { bytes: pack(&nibbles), value: Val::Real(value) }
}

/// The nearest value, proposed by the standard library and verified exactly.
pub fn nearest_of(nibbles: &[u8], decimal: &Decimal) -> f32 {
    let value: f32 = spell(nibbles).parse().expect("a spelling");
    assert!(decimal.nearest(value), "{} is not {value}", spell(nibbles));
    value
}

/// A number of either kind.
pub fn coded(g: &mut G) -> Coded {
    if g.chance(1, 4) {
        coded_real(g)
    } else {
        let value = g.int32();
        coded_int(g, value)
    }
}
