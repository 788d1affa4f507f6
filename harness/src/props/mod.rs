//! The properties, each with its sources of cases.

use crate::engine::{sut, Each, Property, Random, Sub};
use postscript::{value, walue};
use std::io::Cursor;

pub mod alone;
mod dictionaries;
mod glyphs;
mod history;
mod numbers;
mod robust;
mod sequence;
mod sets;
mod tables;
mod within;

pub fn all() -> Vec<Property> {
    let property = |id, subs| Property { id, subs };
    vec![
        property("C01", numbers::c01()),
        property("C02", numbers::c02()),
        property("C03", dictionaries::c03()),
        property("C04", dictionaries::c04()),
        property("C05", tables::c05()),
        property("C06", robust::c06()),
        property("C07", tables::c07()),
        property("C08", tables::c08()),
        property("C09", tables::c09()),
        property("C10", sets::c10()),
        property("C11", sets::c11()),
        property("C12", sets::c12()),
        property("C13", robust::c13()),
        property("C14", robust::c14()),
        property("C15", glyphs::c15()),
        property("C16", glyphs::c16()),
        property("C17", glyphs::c17()),
        property("C18", glyphs::c18()),
        property("C19", glyphs::c19()),
        property("C20", glyphs::c20()),
        property("C21", sequence::c21()),
        property("C22", glyphs::c22()),
        property("C23", history::c23()),
    ]
}

pub fn random<C: std::fmt::Debug + 'static>(random: Random<C>) -> Box<dyn Sub> {
    Box::new(random)
}

pub fn each(each: Each) -> Box<dyn Sub> {
    Box::new(each)
}

/// What reading gave and where it left the stream.
pub struct Taken<T> {
    pub result: Result<T, String>,
    pub position: u64,
}

impl<T> Taken<T> {
    /// A value is expected, read from exactly so many bytes.
    pub fn whole(self, what: &str, size: u64) -> Result<T, String> {
        match self.result {
            Ok(_) if self.position != size => Err(format!(
                "{what}: {} bytes consumed instead of {size}",
                self.position
            )),
            Ok(value) => Ok(value),
            Err(error) => Err(format!("{what}: rejected ({error})")),
        }
    }

    /// A rejection is expected.
    pub fn rejected(self, what: &str) -> Result<(), String>
    where
        T: std::fmt::Debug,
    {
        match self.result {
            Ok(value) => {
                let text: String = format!("{value:?}").chars().take(400).collect();
                Err(format!("{what}: not rejected but read as {text}"))
            }
            Err(_) => Ok(()),
        }
    }
}

#[inline(never)]
pub fn take<T: value::Read>(bytes: &[u8]) -> Result<Taken<T>, String> {
    sut(|| {
        let mut tape = Cursor::new(bytes);
        let result = T::read(&mut tape).map_err(|error| error.to_string());
        Taken { result, position: tape.position() }
    })
}

#[inline(never)]
pub fn take_given<'l, T: walue::Read<'l>>(
    bytes: &[u8],
    parameter: T::Parameter,
) -> Result<Taken<T>, String> {
    sut(|| {
        let mut tape = Cursor::new(bytes);
        let result = T::read(&mut tape, parameter).map_err(|error| error.to_string());
        Taken { result, position: tape.position() }
    })
}
