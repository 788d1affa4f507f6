//! Outcomes of single readings and runs in processes that do nothing else.

use super::tables::{decode, expected_string};
use super::take;
use crate::cff::{self, view, Set};
use crate::engine::sut;
use crate::num::Val;
use crate::ops;
use crate::t2gen::{interpret, Run};
use crate::tapes::{Image, Manner, Tape};
use postscript::compact1::{FontSet, Number, Operations};
use postscript::type2::{Operand, Operator, Program};
use postscript::value::Read as _;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// The limit of operations
pub const MOST: usize = 10_000;

pub enum Job {
    Set(Vec<u8>),
    Count(Vec<u8>),
    Lookups(Vec<u8>),
    Number(Vec<u8>),
    Dictionary(Vec<u8>),
    Run(Vec<u8>, Vec<Vec<u8>>, Vec<Vec<u8>>),
}

impl Job {
    fn name(&self) -> &'static str {
        match self {
            Job::Set(_) => "set",
            Job::Count(_) => "count",
            Job::Lookups(_) => "lookups",
            Job::Number(_) => "number",
            Job::Dictionary(_) => "dictionary",
            Job::Run(..) => "run",
        }
    }

    fn bytes(&self) -> Vec<u8> {
        match self {
            Job::Set(bytes)
            | Job::Count(bytes)
            | Job::Lookups(bytes)
            | Job::Number(bytes)
            | Job::Dictionary(bytes) => bytes.clone(),
            Job::Run(code, global, local) => {
                let mut bytes = vec![];
                for list in [std::slice::from_ref(code), global, local] {
                    bytes.extend((list.len() as u32).to_le_bytes());
                    for body in list {
                        bytes.extend((body.len() as u32).to_le_bytes());
                        bytes.extend(body);
                    }
                }
                bytes
            }
        }
    }
}

// Outcomes as text

pub fn set(set: &Result<FontSet, String>) -> String {
    format!("{:?}", set.as_ref().map(view))
}

/// The identifiers of some strings of a font set
pub fn identifiers(count: usize) -> impl Iterator<Item = u16> {
    [0, 1, 34, 390].into_iter().chain((391..).take(count.min(40) + 2))
}

/// Strings, names, and operands as looked up in a font set
pub fn lookups(set: &FontSet) -> String {
    let found = sut(|| {
        let strings: Vec<_> =
            identifiers(set.strings.len()).map(|id| set.strings.get(id)).collect();
        let names = Vec::<String>::try_from(set.names.clone()).map_err(|error| error.to_string());
        let operands: Vec<Vec<Option<Vec<Val>>>> = set
            .operations
            .iter()
            .map(|operations| {
                let get = |operator| {
                    let operands = operations.get(operator)?;
                    Some(operands.iter().map(|number| cff::view_number(*number)).collect())
                };
                ops::DICTIONARY.iter().map(|entry| get(entry.1)).collect()
            })
            .collect();
        format!("{strings:?} {:?} {operands:?}", names)
    });
    found.unwrap_or_else(|message| message)
}

/// What they should be
pub fn expected_lookups(set: &Set) -> String {
    let count = set.strings.objects.len();
    let strings: Vec<_> = identifiers(count).map(|id| expected_string(&set.strings, id)).collect();
    let names: Result<Vec<_>, String> =
        Ok(set.names.objects.iter().map(|object| decode(object)).collect());
    let operands: Vec<Vec<Option<Vec<Val>>>> = set
        .maps
        .iter()
        .map(|map| {
            let get = |code: u16, default: &[Val]| match map.get(&code) {
                Some(operands) => Some(operands.clone()),
                _ => (!default.is_empty()).then(|| default.to_vec()),
            };
            ops::DICTIONARY.iter().map(|entry| get(entry.0, entry.2)).collect()
        })
        .collect();
    format!("{strings:?} {names:?} {operands:?}")
}

type Next = Result<Option<(Operator, Vec<Operand>)>, String>;

pub fn line(next: &Result<(Next, Option<f32>), String>) -> String {
    match next {
        Ok((Ok(Some((operator, operands))), width)) => {
            let code = ops::PROGRAM.iter().find(|entry| entry.1 == *operator).map(|entry| entry.0);
            format!("{code:x?} {operands:?} {width:?}")
        }
        other => format!("{other:?}").replace('\n', " "),
    }
}

/// The outcome of a run; that of the operations one by one follows.
pub fn run(run: &Result<Run, String>) -> String {
    format!("{run:?}").replace('\n', " ")
}

/// What the separate process does
pub fn work(name: &str) {
    crate::engine::install_hook();
    let limit = libc::rlimit { rlim_cur: 10, rlim_max: 10 };
    unsafe { libc::setrlimit(libc::RLIMIT_CPU, &limit) };
    let mut bytes = vec![];
    std::io::stdin().read_to_end(&mut bytes).unwrap();
    let text = match name {
        "set" | "count" => {
            let image = Image::flat(bytes);
            let mut tape = Tape::new(&image, Manner::default());
            if name == "set" {
                let result = sut(|| FontSet::read(&mut tape).map_err(|error| error.to_string()));
                set(&result.and_then(|set| set))
            } else {
                let result = sut(|| FontSet::count(&mut tape).map_err(|error| error.to_string()));
                format!("{:?}", result.and_then(|count| count))
            }
        }
        "lookups" => match take::<FontSet>(&bytes).and_then(|taken| taken.result) {
            Ok(set) => lookups(&set),
            Err(error) => error,
        },
        "number" => {
            format!("{:?}", take::<Number>(&bytes).and_then(|taken| taken.result))
        }
        "dictionary" => {
            let result = take::<Operations>(&bytes)
                .and_then(|taken| taken.result)
                .and_then(|operations| cff::view_map(&operations));
            format!("{result:?}")
        }
        _ => {
            let mut at = 0;
            let mut lists = vec![];
            let word = |at: &mut usize| {
                *at += 4;
                u32::from_le_bytes(bytes[*at - 4..*at].try_into().unwrap()) as usize
            };
            for _ in 0..3 {
                let count = word(&mut at);
                let mut list = vec![];
                for _ in 0..count {
                    let size = word(&mut at);
                    list.push(bytes[at..at + size].to_vec());
                    at += size;
                }
                lists.push(list);
            }
            if name == "run" {
                run(&interpret(&lists[0][0], &lists[1], &lists[2], MOST))
            } else {
                let mut text = String::new();
                if let Ok(mut program) = sut(|| Program::new(&lists[0][0], &lists[1], &lists[2])) {
                    for _ in 0..MOST {
                        let next = sut(|| {
                            let next = program.next().map_err(|error| error.to_string());
                            (next, program.width())
                        });
                        text.push_str(&line(&next));
                        text.push('\n');
                        if !matches!(next, Ok((Ok(Some(_)), _))) {
                            break;
                        }
                    }
                }
                text
            }
        }
    };
    std::io::stdout().write_all(text.as_bytes()).unwrap();
}

/// Whether the same comes out alone
pub fn agrees(job: &Job, steps: bool, same: impl Fn(&str) -> bool) -> bool {
    static COUNT: AtomicU64 = AtomicU64::new(0);
    // Something else is the matter.
    if COUNT.load(Relaxed) > 400 {
        return true;
    }
    let bytes = job.bytes();
    let name = if steps { "steps" } else { job.name() };
    let child = Command::new("/proc/self/exe")
        .args(["alone", name])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let Ok(mut child) = child else { return false };
    let mut input = child.stdin.take().unwrap();
    let writer = std::thread::spawn(move || drop(input.write_all(&bytes)));
    let mut output = vec![];
    let _ = child.stdout.take().unwrap().read_to_end(&mut output);
    let _ = child.wait();
    let _ = writer.join();
    let same = same(&String::from_utf8_lossy(&output));
    if same {
        COUNT.fetch_add(1, Relaxed);
    }
    same
}
