//! C03, C05, C07 and C09: dictionaries, indices, strings and tables as parts of whole font sets.

use super::sets::{describe, mixed, read_set, Placed};
use super::tables::{decode, expected_string};
use super::random;
use crate::cff::{self, equal, Kind, Set};
use crate::engine::{sut, Obs, Random, Sub, Verdict};
use crate::tapes::Tape;
use postscript::compact1::font_set::Record;
use postscript::compact1::FontSet;

/// What is expected and what is found if there is anything to compare
fn read(case: &Placed, obs: &mut Obs) -> Result<Option<(Set, FontSet)>, String> {
    describe(&case.plan, obs);
    let written = case.plan.write();
    let mut tape = Tape::new(&written.image, case.manner());
    // What is rejected or incomplete is a matter of the font set as a whole.
    let count = written.expected.fonts.len();
    let set = read_set(&mut tape)?.ok().filter(|set| {
        [
            set.operations.len(),
            set.encodings.len(),
            set.character_sets.len(),
            set.character_strings.len(),
            set.records.len(),
        ] == [count; 5]
    });
    obs.label_if(set.is_none(), "left to other checks");
    obs.nontrivial_if(set.is_some() && count > 0);
    Ok(set.map(|set| (written.expected, set)))
}

fn dictionaries(case: &Placed, obs: &mut Obs) -> Verdict {
    let Some((expected, set)) = read(case, obs)? else { return Ok(()) };
    for (i, map) in expected.maps.iter().enumerate() {
        let context = |what: &str| format!("{what} of font {i}");
        equal(&context("dictionary"), map, &cff::view_map(&set.operations[i])?)?;
        match (&expected.fonts[i].kind, &set.records[i]) {
            (Kind::Name(private), Record::CharacterNameKeyed(record)) => {
                let found = cff::view_map(&record.operations)?;
                equal(&context("private dictionary"), &private.map, &found)?;
            }
            (Kind::Cid { maps, privates, .. }, Record::CharacterIDKeyed(record)) => {
                for (j, (one, other)) in maps.iter().zip(record.operations.iter()).enumerate() {
                    let what = context(&format!("font dictionary {j}"));
                    equal(&what, one, &cff::view_map(other)?)?;
                }
                for (j, (one, other)) in privates.iter().zip(record.records.iter()).enumerate() {
                    let what = context(&format!("private dictionary {j}"));
                    equal(&what, &one.map, &cff::view_map(&other.operations)?)?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn indices(case: &Placed, obs: &mut Obs) -> Verdict {
    let Some((expected, set)) = read(case, obs)? else { return Ok(()) };
    equal("names", &expected.names, &cff::view_index(&set.names)?)?;
    equal("strings", &expected.strings, &cff::view_index(&set.strings)?)?;
    equal("global subroutines", &expected.gsubrs, &cff::view_index(&set.subroutines)?)?;
    for (i, font) in expected.fonts.iter().enumerate() {
        let context = |what: &str| format!("{what} of font {i}");
        let found = cff::view_index(&set.character_strings[i])?;
        equal(&context("character strings"), &font.glyphs, &found)?;
        match (&font.kind, &set.records[i]) {
            (Kind::Name(private), Record::CharacterNameKeyed(record)) => {
                let found = cff::view_index(&record.subroutines)?;
                equal(&context("local subroutines"), &private.subrs, &found)?;
            }
            (Kind::Cid { privates, .. }, Record::CharacterIDKeyed(record)) => {
                for (j, (one, other)) in privates.iter().zip(record.records.iter()).enumerate() {
                    let what = context(&format!("local subroutines of dictionary {j}"));
                    equal(&what, &one.subrs, &cff::view_index(&other.subroutines)?)?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn texts(case: &Placed, obs: &mut Obs) -> Verdict {
    let Some((expected, set)) = read(case, obs)? else { return Ok(()) };
    let count = expected.strings.objects.len();
    obs.label_if(count > 0, "strings");
    let beyond = (391 + count).saturating_sub(3)..(391 + count + 300);
    for id in (0..391).chain(391..(391 + count).min(500)).chain(beyond).chain([65535]) {
        let Ok(id) = u16::try_from(id) else { continue };
        let expected = expected_string(&expected.strings, id);
        equal(&format!("string {id}"), &expected, &sut(|| set.strings.get(id))?)?;
    }
    let names = set.names;
    let names = sut(|| Vec::<String>::try_from(names).map_err(|error| error.to_string()))?
        .map_err(|error| format!("the names are rejected: {error}"))?;
    equal("number of names", &expected.names.objects.len(), &names.len())?;
    for (i, (one, other)) in expected.names.objects.iter().zip(names.iter()).enumerate() {
        equal(&format!("name {i}"), &decode(one), other)?;
    }
    Ok(())
}

fn tables(case: &Placed, obs: &mut Obs) -> Verdict {
    let Some((expected, set)) = read(case, obs)? else { return Ok(()) };
    for (i, font) in expected.fonts.iter().enumerate() {
        let context = |what: &str| format!("{what} of font {i}");
        let found = cff::view_charset(&set.character_sets[i]);
        equal(&context("character set"), &font.charset, &found)?;
        let found = cff::view_encoding(&set.encodings[i])?;
        equal(&context("encoding"), &font.encoding, &found)?;
        if let (Kind::Cid { select, .. }, Record::CharacterIDKeyed(record)) =
            (&font.kind, &set.records[i])
        {
            equal(&context("mapping"), select, &cff::view_select(&record.encoding)?)?;
        }
    }
    Ok(())
}

macro_rules! sub(
    ($name:ident, $check:ident, $what:literal) => (
        pub fn $name() -> Box<dyn Sub> {
            random(Random {
                name: "within",
                rule: concat!(
                    $what,
                    " as found in whole font sets of name-keyed and character-ID-keyed fonts, compared with what was written; non-trivial if there are fonts and the set is read",
                ),
                quick: 3_000,
                thorough: 150_000,
                generate: mixed,
                check: $check,
            })
        }
    );
);

sub!(c03, dictionaries, "dictionaries of every kind");
sub!(c05, indices, "indices of every kind");
sub!(c07, texts, "strings and names");
sub!(c09, tables, "character sets, encodings and mappings");
