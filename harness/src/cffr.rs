//! An independent reading of font sets, written from the specification.

use crate::cff::{Charset, Enc, Font, Kind, Map, Private, Select, Set, Table};
use crate::num::{meaning, nearest_of, Meaning, Val};
use crate::ops;

/// Why there is no result.
#[derive(Clone, Debug, PartialEq)]
pub enum No {
    /// The data contradicts the format.
    Reject(&'static str),
    /// Nothing is promised.
    Unspecified(&'static str),
}

use No::{Reject, Unspecified};

pub type Answer<T> = Result<T, No>;

pub struct Reader<'a> {
    pub data: &'a [u8],
    pub at: u64,
}

impl<'a> Reader<'a> {
    pub fn new(data: &'a [u8], at: u64) -> Self {
        Reader { data, at }
    }

    fn take(&mut self, count: u64) -> Answer<&'a [u8]> {
        let end = self.at.checked_add(count).ok_or(Reject("the end of the data"))?;
        if end > self.data.len() as u64 {
            return Err(if count == 0 {
                Unspecified("nothing from beyond the end of the data")
            } else {
                Reject("the end of the data")
            });
        }
        let bytes = &self.data[self.at as usize..end as usize];
        self.at = end;
        Ok(bytes)
    }

    fn u8(&mut self) -> Answer<u8> {
        Ok(self.take(1)?[0])
    }

    fn u16(&mut self) -> Answer<u16> {
        let bytes = self.take(2)?;
        Ok(u16::from_be_bytes([bytes[0], bytes[1]]))
    }

    pub fn index(&mut self) -> Answer<Table> {
        let count = self.u16()? as usize;
        if count == 0 {
            return Ok(Table::default());
        }
        let size = self.u8()?;
        if !(1..=4).contains(&size) {
            return Err(Reject("an offset size"));
        }
        let mut offsets = vec![];
        for chunk in self.take((count as u64 + 1) * size as u64)?.chunks(size as usize) {
            offsets.push(chunk.iter().fold(0u64, |value, byte| value << 8 | *byte as u64));
        }
        if offsets[0] != 1 {
            return Err(Reject("a first offset"));
        }
        let mut objects = vec![];
        for pair in offsets.windows(2) {
            if pair[1] < pair[0] {
                return Err(Reject("decreasing offsets"));
            }
            objects.push(self.take(pair[1] - pair[0])?.to_vec());
        }
        Ok(Table { size, objects })
    }

    pub fn charset(&mut self, glyphs: usize) -> Answer<Charset> {
        let format = self.u8()?;
        if format > 2 {
            return Err(Reject("a format of a character set"));
        }
        if glyphs == 0 {
            return Err(Reject("a character set without glyphs"));
        }
        if format == 0 {
            let bytes = self.take(2 * (glyphs as u64 - 1))?;
            return Ok(Charset::F0(
                bytes.chunks(2).map(|pair| u16::from_be_bytes([pair[0], pair[1]])).collect(),
            ));
        }
        let mut covered = 1;
        let mut ranges = vec![];
        while covered < glyphs {
            let first = self.u16()?;
            let left = if format == 1 { self.u8()? as u16 } else { self.u16()? };
            covered += left as usize + 1;
            ranges.push((first, left));
        }
        if covered > glyphs {
            return Err(Reject("ranges that cover too many glyphs"));
        }
        Ok(if format == 1 {
            Charset::F1(ranges.into_iter().map(|(first, left)| (first, left as u8)).collect())
        } else {
            Charset::F2(ranges)
        })
    }

    fn pairs(&mut self) -> Answer<Vec<(u8, u8)>> {
        let count = self.u8()? as u64;
        Ok(self.take(2 * count)?.chunks(2).map(|pair| (pair[0], pair[1])).collect())
    }

    pub fn encoding(&mut self) -> Answer<Enc> {
        let format = self.u8()?;
        if !matches!(format, 0 | 1 | 0x80 | 0x81) {
            return Err(Reject("a format of an encoding"));
        }
        let mut codes = vec![];
        let mut ranges = vec![];
        if format & 1 == 0 {
            let count = self.u8()? as u64;
            codes = self.take(count)?.to_vec();
        } else {
            ranges = self.pairs()?;
        }
        Ok(match format {
            0 => Enc::F0(codes),
            1 => Enc::F1(ranges),
            _ => {
                let count = self.u8()? as u64;
                let extras = self
                    .take(3 * count)?
                    .chunks(3)
                    .map(|triple| (triple[0], u16::from_be_bytes([triple[1], triple[2]])))
                    .collect();
                Enc::Extra { format, codes, ranges, extras }
            }
        })
    }

    pub fn select(&mut self, glyphs: usize) -> Answer<Select> {
        match self.u8()? {
            0 => Ok(Select::F0(self.take(glyphs as u64)?.to_vec())),
            3 => {
                let count = self.u16()? as u64;
                let ranges = self
                    .take(3 * count)?
                    .chunks(3)
                    .map(|triple| (u16::from_be_bytes([triple[0], triple[1]]), triple[2]))
                    .collect();
                Ok(Select::F3(ranges, self.u16()?))
            }
            _ => Err(Reject("a format of a mapping")),
        }
    }
}

/// A number; the data may end in the middle of it.
pub fn number(data: &[u8]) -> Answer<(Val, usize)> {
    let end = Reject("the end of the data");
    let byte = |i: usize| data.get(i).copied().map(|byte| byte as i32).ok_or(end.clone());
    let first = byte(0)?;
    Ok(match first {
        28 => (Val::Int((byte(1)? << 8 | byte(2)?) as i16 as i32), 3),
        29 => (Val::Int(byte(1)? << 24 | byte(2)? << 16 | byte(3)? << 8 | byte(4)?), 5),
        30 => {
            let mut nibbles = vec![];
            let mut i = 1;
            'all: loop {
                let pair = byte(i)?;
                i += 1;
                for nibble in [pair >> 4, pair & 15] {
                    match nibble {
                        15 => break 'all,
                        13 => return Err(Reject("a reserved nibble")),
                        nibble => nibbles.push(nibble as u8),
                    }
                }
            }
            match meaning(&nibbles) {
                Meaning::Decimal(decimal) if decimal.overflows() => {
                    return Err(Unspecified("a real out of range"))
                }
                Meaning::Decimal(decimal) => (Val::Real(nearest_of(&nibbles, &decimal)), i),
                Meaning::Odd => return Err(Unspecified("an odd spelling")),
                Meaning::Nonsense => return Err(Reject("a malformed real")),
            }
        }
        32..=246 => (Val::Int(first - 139), 1),
        247..=250 => (Val::Int((first - 247) * 256 + byte(1)? + 108), 2),
        251..=254 => (Val::Int(-(first - 251) * 256 - byte(1)? - 108), 2),
        _ => return Err(Reject("a reserved byte")),
    })
}

pub fn dictionary(data: &[u8]) -> Answer<Map> {
    let mut map = Map::new();
    let mut at = 0;
    let mut operands = vec![];
    let mut partial = false;
    while at < data.len() {
        partial = true;
        match data[at] {
            28..=30 | 32..=254 => match number(&data[at..]) {
                Ok((value, size)) => {
                    operands.push(value);
                    at += size;
                }
                // Where a dictionary ends in the middle of an entry is not promised.
                Err(Reject("the end of the data")) => {
                    return Err(Unspecified("an incomplete entry"))
                }
                Err(error) => return Err(error),
            },
            12 => {
                let Some(second) = data.get(at + 1) else {
                    return Err(Unspecified("an incomplete entry"));
                };
                let code = 0x0c00 | *second as u16;
                if ops::dictionary(code).is_none() {
                    return Err(Reject("a reserved operator"));
                }
                map.insert(code, std::mem::take(&mut operands));
                at += 2;
                partial = false;
            }
            code => {
                if ops::dictionary(code as u16).is_none() {
                    return Err(Reject("a reserved operator"));
                }
                map.insert(code as u16, std::mem::take(&mut operands));
                at += 1;
                partial = false;
            }
        }
    }
    if partial {
        return Err(Unspecified("an incomplete entry"));
    }
    Ok(map)
}

/// A number that must not be negative: an offset, a size, or a format.
fn natural(value: Val) -> Answer<u64> {
    match value {
        Val::Int(value) if value >= 0 => Ok(value as u64),
        Val::Int(_) => Err(Reject("a negative offset or size")),
        Val::Real(_) => Err(Reject("a real instead of an integer")),
    }
}

fn single(map: &Map, code: u16, default: Option<u64>) -> Answer<u64> {
    match map.get(&code).map(|operands| operands.as_slice()) {
        Some([value]) => natural(*value),
        // The default holds only without the entry.
        Some([]) if code != ops::SUBRS => Err(Reject("a missing operand")),
        Some(_) => Err(Unspecified("a number of operands")),
        _ => default.ok_or(Reject("a missing entry")),
    }
}

fn private(data: &[u8], map: &Map) -> Answer<Private> {
    let (size, offset) = match map.get(&ops::PRIVATE).map(|operands| operands.as_slice()) {
        Some([size, offset]) => (natural(*size), natural(*offset)),
        Some([] | [_]) | None => return Err(Reject("a missing entry")),
        Some(_) => return Err(Unspecified("a number of operands")),
    };
    let (size, offset) = (size?, offset?);
    let chunk = Reader::new(data, offset).take(size)?;
    let map = dictionary(chunk)?;
    let subrs = if map.contains_key(&ops::SUBRS) {
        let relative = single(&map, ops::SUBRS, None)?;
        Reader::new(data, offset + relative).index()?
    } else {
        Table::default()
    };
    Ok(Private { map, subrs })
}

/// Read a font set that starts with the data.
pub fn set(data: &[u8]) -> Answer<Set> {
    let mut reader = Reader::new(data, 0);
    let header: [u8; 4] = reader.take(4)?.try_into().unwrap();
    if header[0] != 1 || header[2] < 4 || !(1..=4).contains(&header[3]) {
        return Err(Unspecified("a header"));
    }
    reader.at = header[2] as u64;
    let names = reader.index()?;
    let tops = reader.index()?;
    if tops.objects.len() != names.objects.len() {
        return Err(Unspecified("a number of names"));
    }
    let maps = tops.objects.iter().map(|object| dictionary(object)).collect::<Answer<Vec<_>>>()?;
    let strings = reader.index()?;
    let gsubrs = reader.index()?;
    let mut fonts = vec![];
    for map in maps.iter() {
        let at = single(map, ops::CHAR_STRINGS, None)?;
        if single(map, ops::CHAR_STRING_TYPE, Some(2))? != 2 {
            return Err(Reject("a type of character strings"));
        }
        let glyphs = Reader::new(data, at).index()?;
        let count = glyphs.objects.len();
        let charset = match single(map, ops::CHAR_SET, Some(0))? {
            value @ 0..=2 => Charset::Predefined(value as u8),
            at => Reader::new(data, at).charset(count)?,
        };
        let encoding = match single(map, ops::ENCODING, Some(0))? {
            value @ 0..=1 => Enc::Predefined(value as u8),
            at => Reader::new(data, at).encoding()?,
        };
        let kind = match map.get(&ops::ROS) {
            None => Kind::Name(private(data, map)?),
            Some(operands) => {
                let [registry, ordering, supplement] = operands[..] else {
                    return Err(Reject("a number of operands"));
                };
                let id = |value: Val| match value {
                    Val::Int(value) if (0..65536).contains(&value) => Ok(value as u16),
                    _ => Err(Reject("a string identifier")),
                };
                let (registry, ordering) = (id(registry)?, id(ordering)?);
                let at = single(map, ops::FD_SELECT, None)?;
                let select = Reader::new(data, at).select(count)?;
                let at = single(map, ops::FD_ARRAY, None)?;
                let array = Reader::new(data, at).index()?;
                let maps =
                    array.objects.iter().map(|object| dictionary(object)).collect::<Answer<Vec<_>>>()?;
                let privates =
                    maps.iter().map(|map| private(data, map)).collect::<Answer<Vec<_>>>()?;
                let sound = match &select {
                    Select::F0(ids) => ids.iter().all(|id| (*id as usize) < maps.len()),
                    Select::F3(ranges, sentinel) => {
                        ranges.first().is_some_and(|range| range.0 == 0)
                            && ranges.windows(2).all(|pair| pair[0].0 < pair[1].0)
                            && ranges.iter().all(|range| (range.1 as usize) < maps.len())
                            && ranges.last().is_some_and(|range| range.0 < *sentinel)
                            && *sentinel as usize == count
                    }
                };
                if !sound {
                    return Err(Unspecified("a mapping"));
                }
                Kind::Cid { registry, ordering, supplement, select, maps, privates }
            }
        };
        fonts.push(Font { charset, encoding, glyphs, kind });
    }
    Ok(Set { header, names, maps, strings, gsubrs, fonts })
}
