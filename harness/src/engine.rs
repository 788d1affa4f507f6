//! Running checks: shards, isolation, shrinking, evidence and replays.

use crate::gen::{expand, Choices, Drawn, Given, G};
use crate::guided::Corpus;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::{Debug, Write as _};
use std::hash::{Hash, Hasher};
use std::io::{Read as _, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::Relaxed};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;
const STACK: usize = 2 << 20;
const CASE_SECONDS: u64 = 25;
const LIVE_LIMIT: usize = 800 << 20;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a check observed about a case.
#[derive(Default)]
pub struct Obs {
    labels: Vec<&'static str>,
    nontrivial: bool,
}

impl Obs {
    pub fn label(&mut self, label: &'static str) {
        if !self.labels.contains(&label) {
            self.labels.push(label);
        }
    }

    pub fn label_if(&mut self, condition: bool, label: &'static str) {
        if condition {
            self.label(label);
        }
    }

    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    pub fn nontrivial_if(&mut self, condition: bool) {
        self.nontrivial |= condition;
    }
}

pub type Verdict = Result<(), String>;

/// A source of cases with an oracle.
pub trait Sub: Sync + Send {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn exhaustive(&self) -> bool;
    fn work(&self, worker: &Worker);
    /// Search with coverage until then.
    fn guide(&self, worker: &Worker, end: Instant);
    fn guidable(&self) -> bool {
        !self.exhaustive()
    }
    fn replay(&self, choices: &[u64]) -> (String, Verdict);
}

/// Cases generated at random.
pub struct Random<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub generate: fn(&mut G) -> C,
    pub check: fn(&C, &mut Obs) -> Verdict,
}

/// Cases enumerated one by one.
pub struct Each {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub check: fn(u64, &mut Obs) -> Verdict,
}

pub struct Property {
    pub id: &'static str,
    pub subs: Vec<Box<dyn Sub>>,
}

// What is shared with the process that watches.

static PAGE: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());
static LOCAL: [AtomicU64; 4] =
    [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];

fn cell(index: usize) -> &'static AtomicU64 {
    let page = PAGE.load(Relaxed);
    if page.is_null() {
        &LOCAL[index]
    } else {
        unsafe { &*page.add(index) }
    }
}

const SUB: usize = 0;
const CASE: usize = 1;
const INSIDE: usize = 2;
/// One more than the number of choices of a case that is not one in a row
const GIVEN: usize = 3;
const CHOICES: usize = 8;
const PAGE_SIZE: usize = 1 << 20;
const MOST_CHOICES: usize = PAGE_SIZE / 8 - CHOICES;

fn map_page(path: Option<&Path>) {
    unsafe {
        let (fd, flags) = match path {
            Some(path) => {
                use std::os::fd::IntoRawFd;
                let file = std::fs::OpenOptions::new()
                    .read(true)
                    .write(true)
                    .create(true)
                    .truncate(true)
                    .open(path)
                    .unwrap();
                file.set_len(PAGE_SIZE as u64).unwrap();
                (file.into_raw_fd(), libc::MAP_SHARED)
            }
            _ => (-1, libc::MAP_SHARED | libc::MAP_ANONYMOUS),
        };
        let page = libc::mmap(
            std::ptr::null_mut(),
            PAGE_SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            flags,
            fd,
            0,
        );
        assert!(page != libc::MAP_FAILED);
        PAGE.store(page as *mut AtomicU64, Relaxed);
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Run the code under test. A panic is a failure of it, reported as an error
/// that the check passes on.
#[inline(never)]
pub fn sut<T>(body: impl FnOnce() -> T) -> Result<T, String> {
    let before = cell(INSIDE).swap(1, Relaxed);
    let result = catch_unwind(AssertUnwindSafe(body));
    cell(INSIDE).store(before, Relaxed);
    result.map_err(|_| format!("the code panicked: {}", PANIC.with(|message| message.borrow().clone())))
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if cell(INSIDE).load(Relaxed) != 0 {
            PANIC.with(|message| *message.borrow_mut() = info.to_string());
        } else {
            default(info);
        }
    }));
}

enum Outcome {
    Pass,
    Fail(String),
}

fn harness_error(message: &str) -> ! {
    eprintln!("error of the harness: {message}");
    unsafe { libc::_exit(101) }
}

fn direct(body: &mut dyn FnMut() -> Verdict) -> Outcome {
    cell(INSIDE).store(0, Relaxed);
    match catch_unwind(AssertUnwindSafe(body)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(message)) => Outcome::Fail(message),
        Err(_) => harness_error("a check panicked outside the code under test"),
    }
}

/// Run in a child process so that a crash or a hang can be reported.
fn isolated(body: &mut dyn FnMut() -> Verdict) -> Outcome {
    unsafe {
        let mut pipe = [0; 2];
        assert!(libc::pipe(pipe.as_mut_ptr()) == 0);
        cell(INSIDE).store(0, Relaxed);
        let child = libc::fork();
        assert!(child >= 0);
        if child == 0 {
            libc::close(pipe[0]);
            let limit = libc::rlimit { rlim_cur: CASE_SECONDS, rlim_max: CASE_SECONDS + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &limit);
            let limit = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &limit);
            let message = match direct(body) {
                Outcome::Pass => "P".to_string(),
                Outcome::Fail(message) => format!("F{message}"),
            };
            let mut data = message.as_bytes();
            while !data.is_empty() {
                let count = libc::write(pipe[1], data.as_ptr() as *const _, data.len());
                if count <= 0 {
                    break;
                }
                data = &data[count as usize..];
            }
            libc::_exit(0);
        }
        libc::close(pipe[1]);
        let mut output = vec![];
        let mut buffer = [0u8; 4096];
        loop {
            let count = libc::read(pipe[0], buffer.as_mut_ptr() as *mut _, buffer.len());
            if count <= 0 {
                break;
            }
            output.extend_from_slice(&buffer[..count as usize]);
        }
        libc::close(pipe[0]);
        let mut status = 0;
        libc::waitpid(child, &mut status, 0);
        if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0 && !output.is_empty() {
            let message = String::from_utf8_lossy(&output[1..]).into_owned();
            return if output[0] == b'P' { Outcome::Pass } else { Outcome::Fail(message) };
        }
        let inside = cell(INSIDE).swap(0, Relaxed) != 0;
        let description = if libc::WIFSIGNALED(status) {
            match libc::WTERMSIG(status) {
                libc::SIGXCPU => format!(
                    "the code did not finish within {CASE_SECONDS} seconds of processor time"
                ),
                libc::SIGKILL => harness_error("an isolated case was killed"),
                signal => format!("the code brought the process down (signal {signal})"),
            }
        } else {
            match libc::WEXITSTATUS(status) {
                98 => "the code used up the memory limit".to_string(),
                code => format!("the process ended with code {code}"),
            }
        };
        if !inside {
            harness_error(&format!("outside the code under test: {description}"));
        }
        Outcome::Fail(description)
    }
}

/// What to run with every case in a process of its own
enum Isolate {
    /// The cases of one part from this one on
    From(u64, u64),
    /// A case of one part
    Given(u64, Vec<u64>),
}

impl Isolate {
    fn sub(&self) -> u64 {
        match self {
            Isolate::From(sub, _) | Isolate::Given(sub, _) => *sub,
        }
    }
}

/// The process that runs one shard.
pub struct Worker {
    id: &'static str,
    tier: Tier,
    seed: u64,
    shard: u64,
    isolate: Option<Isolate>,
    sub: Cell<u64>,
    directory: PathBuf,
    failed: Cell<bool>,
    deadline: Instant,
    output: RefCell<String>,
    hashes: RefCell<Vec<u64>>,
}

fn escape(text: &str) -> String {
    text.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r")
}

fn unescape(text: &str) -> String {
    let mut result = String::new();
    let mut characters = text.chars();
    while let Some(character) = characters.next() {
        if character != '\\' {
            result.push(character);
            continue;
        }
        result.push(match characters.next() {
            Some('t') => '\t',
            Some('n') => '\n',
            Some('r') => '\r',
            Some(other) => other,
            _ => '\\',
        });
    }
    result
}

fn clip(mut text: String, limit: usize) -> String {
    if text.len() > limit {
        let mut end = limit;
        while !text.is_char_boundary(end) {
            end -= 1;
        }
        let rest = text.len() - end;
        text.truncate(end);
        let _ = write!(text, "… ({rest} bytes more)");
    }
    text
}

/// The seed of one stream of random numbers.
fn derive(seed: u64, id: &str, name: &str, shard: u64) -> [u8; 32] {
    let mut state = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    for byte in id.bytes().chain([0]).chain(name.bytes()).chain(shard.to_le_bytes()) {
        state = (state ^ byte as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    let mut result = [0; 32];
    result.copy_from_slice(&expand(state | 1, 32));
    result
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    nontrivial: u64,
    labels: BTreeMap<&'static str, u64>,
    samples: u64,
}

impl Worker {
    fn run(&self, body: &mut dyn FnMut() -> Verdict) -> Outcome {
        if self.isolate.is_some() {
            isolated(body)
        } else {
            direct(body)
        }
    }

    fn emit(&self, fields: &[&str]) {
        let mut output = self.output.borrow_mut();
        for (i, field) in fields.iter().enumerate() {
            if i > 0 {
                output.push('\t');
            }
            output.push_str(&escape(field));
        }
        output.push('\n');
    }

    fn account(&self, tally: &mut Tally, obs: Obs, dump: impl FnOnce() -> String) {
        tally.evaluations += 1;
        for label in obs.labels {
            *tally.labels.entry(label).or_default() += 1;
        }
        if obs.nontrivial {
            tally.nontrivial += 1;
            if self.shard == 0 && tally.samples < 2 {
                tally.samples += 1;
                let sub = self.sub.get().to_string();
                self.emit(&["sample", &sub, &clip(dump(), 700)]);
            }
        }
    }

    fn finish(&self, tally: Tally, complete: bool) {
        let sub = self.sub.get().to_string();
        self.emit(&[
            "tally",
            &sub,
            &tally.evaluations.to_string(),
            &tally.nontrivial.to_string(),
            if complete { "1" } else { "0" },
        ]);
        for (label, count) in tally.labels {
            self.emit(&["label", &sub, label, &count.to_string()]);
        }
    }

    fn fail(&self, choices: &[u64], message: &str, dump: String) {
        self.failed.set(true);
        let sub = self.sub.get().to_string();
        let choices: Vec<_> = choices.iter().map(|choice| choice.to_string()).collect();
        self.emit(&["fail", &sub, &choices.join(" "), message, &clip(dump, 20000)]);
    }
}

impl<C: Debug + 'static> Random<C> {
    fn strategy(&self, worker: &Worker) -> Choices<C> {
        let patience = Duration::from_secs(if worker.isolate.is_some() { 90 } else { 20 });
        Choices { generate: Arc::new(self.generate), budget: 20_000, patience }
    }

    /// Shrink a case that has failed, if it fails again.
    fn given(&self, worker: &Worker, choices: &[u64], message: Option<String>) {
        let config = Config {
            cases: 1,
            failure_persistence: None,
            max_shrink_iters: 1 << 20,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(
            config,
            TestRng::from_seed(RngAlgorithm::ChaCha, &derive(0, worker.id, self.name, 0)),
        );
        let strategy = Given { choices: choices.to_vec(), source: self.strategy(worker) };
        let result = runner.run(&strategy, |drawn: Drawn<C>| {
            match worker.run(&mut || (self.check)(&drawn.case, &mut Obs::default())) {
                Outcome::Pass => Ok(()),
                Outcome::Fail(message) => Err(TestCaseError::fail(message)),
            }
        });
        match (result, message) {
            (Ok(()), None) => {}
            (Ok(()), Some(message)) => {
                let case = (self.generate)(&mut G::replay(choices));
                let message = format!("{message} (but not once more)");
                worker.fail(choices, &message, format!("{case:#?}"));
            }
            (Err(TestError::Fail(reason, drawn)), _) => {
                worker.fail(&drawn.choices, reason.message(), format!("{:#?}", drawn.case));
            }
            (Err(TestError::Abort(reason)), _) => harness_error(reason.message()),
        }
    }
}

impl<C: Debug + 'static> Sub for Random<C> {
    fn name(&self) -> &'static str {
        self.name
    }

    fn rule(&self) -> &'static str {
        self.rule
    }

    fn exhaustive(&self) -> bool {
        false
    }

    fn work(&self, worker: &Worker) {
        if let Some(Isolate::Given(_, choices)) = &worker.isolate {
            return self.given(worker, choices, None);
        }
        let total = match worker.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let cases = total / SHARDS + (worker.shard < total % SHARDS) as u64;
        let seed = derive(worker.seed, worker.id, self.name, worker.shard);
        let config = Config {
            cases: cases as u32,
            failure_persistence: None,
            max_shrink_iters: 1 << 20,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strategy = self.strategy(worker);
        let tally = RefCell::new(Tally::default());
        let index = Cell::new(0);
        let failed = Cell::new(false);
        let late = Cell::new(false);
        let result = runner.run(&strategy, |drawn: Drawn<C>| {
            let case = index.get();
            index.set(case + 1);
            if matches!(worker.isolate, Some(Isolate::From(_, from)) if case < from) {
                return Ok(());
            }
            if !failed.get() && (late.get() || Instant::now() > worker.deadline) {
                late.set(true);
                return Ok(());
            }
            cell(CASE).store(case, Relaxed);
            let mut obs = Obs::default();
            let outcome = worker.run(&mut || (self.check)(&drawn.case, &mut obs));
            match outcome {
                Outcome::Pass => {
                    if !failed.get() {
                        if obs.nontrivial {
                            let mut hasher = std::collections::hash_map::DefaultHasher::new();
                            self.name.hash(&mut hasher);
                            drawn.choices.hash(&mut hasher);
                            worker.hashes.borrow_mut().push(hasher.finish());
                        }
                        worker.account(&mut tally.borrow_mut(), obs, || format!("{:?}", drawn.case));
                    }
                    Ok(())
                }
                Outcome::Fail(message) => {
                    failed.set(true);
                    Err(TestCaseError::fail(message))
                }
            }
        });
        match result {
            Ok(()) => {}
            Err(TestError::Fail(reason, drawn)) => {
                tally.borrow_mut().evaluations += 1;
                worker.fail(&drawn.choices, reason.message(), format!("{:#?}", drawn.case));
            }
            Err(TestError::Abort(reason)) => harness_error(reason.message()),
        }
        worker.finish(tally.into_inner(), !late.get());
    }

    fn guide(&self, worker: &Worker, end: Instant) {
        let Some(mut corpus) = Corpus::new(&worker.directory, self.name, worker.shard, SHARDS) else { return };
        let name = format!("{} (guided)", self.name);
        let seed = derive(worker.seed, worker.id, &name, worker.shard);
        let mut rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
        let mut tally = Tally::default();
        let mut case = 0;
        while Instant::now() < end {
            let (drawn, choices) = corpus.next(&mut rng, self.generate);
            if choices.len() > MOST_CHOICES {
                continue;
            }
            for (i, choice) in choices.iter().enumerate() {
                cell(CHOICES + i).store(*choice, Relaxed);
            }
            cell(GIVEN).store(choices.len() as u64 + 1, Relaxed);
            cell(CASE).store(case, Relaxed);
            case += 1;
            let mut obs = Obs::default();
            corpus.reset();
            let outcome = direct(&mut || (self.check)(&drawn, &mut obs));
            corpus.judge(&choices);
            match outcome {
                Outcome::Pass => {
                    if obs.nontrivial {
                        let mut hasher = std::collections::hash_map::DefaultHasher::new();
                        self.name.hash(&mut hasher);
                        Arc::new(choices).hash(&mut hasher);
                        worker.hashes.borrow_mut().push(hasher.finish());
                    }
                    worker.account(&mut tally, obs, || format!("{drawn:?}"));
                }
                Outcome::Fail(message) => {
                    tally.evaluations += 1;
                    cell(GIVEN).store(0, Relaxed);
                    self.given(worker, &choices, Some(message));
                    break;
                }
            }
        }
        cell(GIVEN).store(0, Relaxed);
        worker.finish(tally, true);
        let sub = worker.sub.get().to_string();
        worker.emit(&["reached", &sub, &corpus.features.to_string(), &corpus.len().to_string()]);
    }

    fn replay(&self, choices: &[u64]) -> (String, Verdict) {
        let mut g = G::replay(choices);
        let case = (self.generate)(&mut g);
        let dump = format!("{case:#?}");
        let outcome = isolated(&mut || (self.check)(&case, &mut Obs::default()));
        let verdict = match outcome {
            Outcome::Pass => Ok(()),
            Outcome::Fail(message) => Err(message),
        };
        (dump, verdict)
    }
}

impl Sub for Each {
    fn name(&self) -> &'static str {
        self.name
    }

    fn rule(&self) -> &'static str {
        self.rule
    }

    fn exhaustive(&self) -> bool {
        true
    }

    fn work(&self, worker: &Worker) {
        let total = match worker.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let mut tally = Tally::default();
        let mut complete = true;
        let mut i = match worker.isolate {
            Some(Isolate::From(_, from)) => from,
            _ => worker.shard,
        };
        while i < total {
            if tally.evaluations % 256 == 0 && Instant::now() > worker.deadline {
                complete = false;
                break;
            }
            cell(CASE).store(i, Relaxed);
            let mut obs = Obs::default();
            match worker.run(&mut || (self.check)(i, &mut obs)) {
                Outcome::Pass => worker.account(&mut tally, obs, || format!("item {i}")),
                Outcome::Fail(message) => {
                    tally.evaluations += 1;
                    worker.fail(&[i], &message, format!("item {i}"));
                    break;
                }
            }
            i += SHARDS;
        }
        worker.finish(tally, complete);
    }

    fn guide(&self, _: &Worker, _: Instant) {}

    fn replay(&self, choices: &[u64]) -> (String, Verdict) {
        let index = choices.first().copied().unwrap_or(0);
        let outcome = isolated(&mut || (self.check)(index, &mut Obs::default()));
        let verdict = match outcome {
            Outcome::Pass => Ok(()),
            Outcome::Fail(message) => Err(message),
        };
        (format!("item {index}"), verdict)
    }
}

fn processor_time() -> u64 {
    unsafe {
        let mut time: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut time);
        time.tv_sec as u64 * 1000 + time.tv_nsec as u64 / 1_000_000
    }
}

fn watch() {
    let mut last = (u64::MAX, u64::MAX);
    let mut since = 0;
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = (cell(SUB).load(Relaxed), cell(CASE).load(Relaxed));
        let time = processor_time();
        if now != last {
            last = now;
            since = time;
        } else if time - since > CASE_SECONDS * 1000 {
            unsafe { libc::_exit(97) };
        }
    }
}

/// Run with a stack like that of an ordinary thread.
fn on_thread<T: Send>(body: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(scope, body)
            .unwrap()
            .join()
            .unwrap_or_else(|_| harness_error("the thread of a worker panicked"))
    })
}

/// Entry point of a worker: ID TIER SEED SHARD DIRECTORY DEADLINE [SUB CASE]
pub fn work(properties: Vec<Property>, arguments: &[String]) {
    let number = |i: usize| arguments[i].parse::<u64>().unwrap();
    let property = properties.iter().find(|property| property.id == arguments[0]).unwrap();
    let directory = PathBuf::from(&arguments[4]);
    let isolate = (arguments.len() > 6).then(|| match arguments[7].parse() {
        Ok(case) => Isolate::From(number(6), case),
        _ => {
            let data = std::fs::read(&arguments[7]).unwrap();
            let choices = data.chunks(8).map(|chunk| u64::from_le_bytes(chunk.try_into().unwrap()));
            Isolate::Given(number(6), choices.collect())
        }
    });
    let suffix = if isolate.is_some() { "-isolated" } else { "" };
    map_page(Some(&directory.join(format!("page-{}{suffix}", arguments[3]))));
    install_hook();
    crate::alloc::LIMIT.store(LIVE_LIMIT, Relaxed);
    if isolate.is_none() {
        std::thread::spawn(watch);
    }
    let (id, tier) = (property.id, parse_tier(&arguments[1]));
    let (seed, shard, seconds) = (number(2), number(3), number(5));
    let shared = directory.clone();
    let (output, hashes) = on_thread(move || {
        let worker = Worker {
            id,
            tier,
            seed,
            shard,
            isolate,
            sub: Cell::new(0),
            directory: shared,
            failed: Cell::new(false),
            deadline: Instant::now() + Duration::from_secs(seconds),
            output: RefCell::new(String::new()),
            hashes: RefCell::new(vec![]),
        };
        for (i, sub) in property.subs.iter().enumerate() {
            if matches!(&worker.isolate, Some(isolate) if isolate.sub() != i as u64) {
                continue;
            }
            cell(CASE).store(u64::MAX, Relaxed);
            cell(SUB).store(i as u64, Relaxed);
            worker.sub.set(i as u64);
            sub.work(&worker);
        }
        if worker.isolate.is_none() {
            guide(&worker, &property.subs);
        }
        (worker.output.into_inner(), worker.hashes.into_inner())
    });
    let bytes: Vec<u8> = hashes.iter().flat_map(|hash| hash.to_le_bytes()).collect();
    std::fs::write(directory.join(format!("hashes-{shard}{suffix}")), bytes).unwrap();
    std::fs::write(directory.join(format!("result-{shard}{suffix}")), output).unwrap();
}

/// Search with coverage. A shard deals with some of the parts only.
fn guide(worker: &Worker, subs: &[Box<dyn Sub>]) {
    let parts: Vec<_> = (0..subs.len()).filter(|i| subs[*i].guidable()).collect();
    let seconds = match (std::env::var("PVCHECK_GUIDED"), worker.tier) {
        (Ok(seconds), _) => seconds.parse().unwrap(),
        (_, Tier::Quick) => 20,
        (_, Tier::Thorough) => 900,
    };
    // A part per shard, or several if there are more parts than shards
    let shards = SHARDS as usize;
    let rounds = parts.len().div_ceil(shards).max(1);
    for round in 0..rounds {
        let left = worker.deadline.saturating_duration_since(Instant::now());
        if parts.is_empty() || worker.failed.get() || left.is_zero() {
            return;
        }
        let i = parts[(round * shards + worker.shard as usize) % parts.len()];
        cell(CASE).store(u64::MAX, Relaxed);
        cell(SUB).store(i as u64, Relaxed);
        worker.sub.set((subs.len() + i) as u64);
        let time = Duration::from_secs(seconds) / rounds as u32;
        subs[i].guide(worker, Instant::now() + time.min(left));
    }
}

fn parse_tier(name: &str) -> Tier {
    match name {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => panic!("unknown tier"),
    }
}

fn root() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

fn json(text: &str) -> String {
    let mut result = String::from("\"");
    for character in text.chars() {
        match character {
            '"' => result.push_str("\\\""),
            '\\' => result.push_str("\\\\"),
            '\n' => result.push_str("\\n"),
            character if (character as u32) < 0x20 => {
                let _ = write!(result, "\\u{:04x}", character as u32);
            }
            character => result.push(character),
        }
    }
    result.push('"');
    result
}

struct Failure {
    sub: usize,
    choices: String,
    message: String,
    dump: String,
}

/// Entry point of a check: ID
pub fn check(properties: Vec<Property>, id: &str) -> i32 {
    let start = Instant::now();
    let Some(property) = properties.iter().find(|property| property.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|value| value.trim().parse().ok()).unwrap_or(1);
    let tier_name = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let seconds: u64 = if tier_name == "quick" { 420 } else { 3600 };
    let directory = std::env::temp_dir().join(format!("pvcheck-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&directory).unwrap();
    let binary = std::env::current_exe().unwrap();
    let spawn = |shard: u64, extra: &[String]| {
        Command::new(&binary)
            .args(["worker", id, tier_name, &seed.to_string(), &shard.to_string()])
            .arg(&directory)
            .arg(seconds.to_string())
            .args(extra)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .spawn()
            .unwrap()
    };
    let mut children: Vec<_> = (0..SHARDS).map(|shard| spawn(shard, &[])).collect();
    let mut errors = vec![];
    let mut sources = vec![];
    let mut crashed = vec![];
    for (shard, child) in children.iter_mut().enumerate() {
        use std::os::unix::process::ExitStatusExt;
        let status = child.wait().unwrap();
        if status.success() {
            sources.push(format!("{shard}"));
            continue;
        }
        let crash = match (status.code(), status.signal()) {
            (Some(97) | Some(98), _) => true,
            (_, Some(libc::SIGKILL)) => false,
            (_, Some(_)) => true,
            _ => false,
        };
        if crash {
            crashed.push((shard as u64, status));
        } else {
            errors.push(format!("worker {shard} ended with {status}"));
        }
    }
    // What crashed is looked at one case at a time.
    if errors.is_empty() {
        let mut reruns = vec![];
        for (shard, status) in crashed.iter().take(4) {
            let page = std::fs::read(directory.join(format!("page-{shard}"))).unwrap();
            let word = |i: usize| u64::from_le_bytes(page[8 * i..8 * i + 8].try_into().unwrap());
            eprintln!(
                "worker {shard} ended with {status} at sub-check {} case {}",
                word(SUB),
                word(CASE)
            );
            let case = match (word(GIVEN), word(CASE)) {
                (0, u64::MAX) => "0".to_string(),
                (0, case) => case.to_string(),
                (given, _) => {
                    let path = directory.join(format!("choices-{shard}"));
                    let end = 8 * (CHOICES + given as usize - 1);
                    std::fs::write(&path, &page[8 * CHOICES..end]).unwrap();
                    path.display().to_string()
                }
            };
            reruns.push((*shard, spawn(*shard, &[word(SUB).to_string(), case])));
        }
        for (shard, mut child) in reruns {
            let status = child.wait().unwrap();
            if status.success() {
                sources.push(format!("{shard}-isolated"));
            } else {
                errors.push(format!("the isolated worker {shard} ended with {status}"));
            }
        }
    }
    let count = property.subs.len();
    let mut evaluations = vec![0u64; 2 * count];
    let mut nontrivial = vec![0u64; 2 * count];
    let mut complete = vec![true; 2 * count];
    let mut labels: Vec<BTreeMap<String, u64>> = vec![BTreeMap::new(); 2 * count];
    let mut samples: Vec<Vec<String>> = vec![vec![]; 2 * count];
    // What the search with coverage has reached and kept
    let mut reached = vec![(0u64, 0u64); 2 * count];
    let mut failures: Vec<Failure> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    for source in sources.iter() {
        let text = std::fs::read_to_string(directory.join(format!("result-{source}"))).unwrap();
        for line in text.lines() {
            let fields: Vec<_> = line.split('\t').map(unescape).collect();
            let sub: usize = fields[1].parse().unwrap();
            match fields[0].as_str() {
                "tally" => {
                    evaluations[sub] += fields[2].parse::<u64>().unwrap();
                    nontrivial[sub] += fields[3].parse::<u64>().unwrap();
                    complete[sub] &= fields[4] == "1";
                }
                "label" => {
                    *labels[sub].entry(fields[2].clone()).or_default() +=
                        fields[3].parse::<u64>().unwrap();
                }
                "sample" => samples[sub].push(fields[2].clone()),
                "reached" => {
                    let (features, kept) = (fields[2].parse().unwrap(), fields[3].parse().unwrap());
                    reached[sub] = (reached[sub].0.max(features), reached[sub].1.max(kept));
                }
                "fail" => failures.push(Failure {
                    sub: sub % count,
                    choices: fields[2].clone(),
                    message: fields[3].clone(),
                    dump: fields[4].clone(),
                }),
                _ => unreachable!(),
            }
        }
        let mut bytes = vec![];
        std::fs::File::open(directory.join(format!("hashes-{source}")))
            .unwrap()
            .read_to_end(&mut bytes)
            .unwrap();
        distinct.extend(bytes.chunks(8).map(|chunk| u64::from_le_bytes(chunk.try_into().unwrap())));
    }
    if errors.is_empty() && !crashed.is_empty() && failures.is_empty() {
        errors.push("a crash did not happen again in isolation".to_string());
    }
    let _ = std::fs::remove_dir_all(&directory);
    let mut exhaustive = 0;
    for (i, sub) in property.subs.iter().enumerate() {
        if sub.exhaustive() {
            exhaustive += nontrivial[i];
        }
    }
    let mut violations = 0;
    failures.sort_by_key(|failure| (failure.sub, failure.choices.len()));
    let mut seen = HashSet::new();
    let mut lines = vec![];
    for failure in failures.iter() {
        if !seen.insert(failure.sub) {
            continue;
        }
        violations += 1;
        let sub = property.subs[failure.sub].name();
        let path = root().join("replays").join(format!("{id}-{sub}.txt"));
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        let text = format!(
            "property: {id}\nsub: {sub}\nchoices: {}\nreplay with: harness/target/release/pvcheck replay {}\n\n{}\n\n{}\n",
            failure.choices,
            path.display(),
            failure.message,
            failure.dump,
        );
        std::fs::write(&path, text).unwrap();
        println!("{sub}: {}", clip(failure.message.clone(), 2000));
        println!("{}", clip(failure.dump.clone(), 2000));
        lines.push(format!("VIOLATION property={id} replay={}", path.display()));
    }
    // Evidence
    let mut text = String::new();
    let total: u64 = evaluations.iter().sum();
    let _ = write!(
        text,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {total},\n  \"distinct_nontrivial\": {},\n",
        json(id),
        json(tier_name),
        distinct.len() as u64 + exhaustive,
    );
    let rules: Vec<_> =
        property.subs.iter().map(|sub| format!("{}: {}", sub.name(), sub.rule())).collect();
    let _ = write!(text, "  \"rule\": {},\n  \"samples\": [", json(&rules.join(" | ")));
    let mut first = true;
    for (i, sub) in property.subs.iter().enumerate() {
        for sample in samples[i].iter() {
            let _ = write!(
                text,
                "{}\n   {}",
                if first { "" } else { "," },
                json(&format!("{}: {sample}", sub.name()))
            );
            first = false;
        }
    }
    text.push_str("\n  ],\n  \"parts\": {");
    for i in 0..2 * count {
        let sub = &property.subs[i % count];
        if i >= count && evaluations[i] == 0 {
            continue;
        }
        let name = if i < count { sub.name().to_string() } else { format!("{} (guided)", sub.name()) };
        let _ = write!(
            text,
            "{}\n   {}: {{\"evaluations\": {}, \"nontrivial\": {}, \"enumerated\": {}, \"complete\": {}, ",
            if i > 0 { "," } else { "" },
            json(&name),
            evaluations[i],
            nontrivial[i],
            sub.exhaustive(),
            complete[i],
        );
        if i >= count {
            let (features, kept) = reached[i];
            let _ = write!(text, "\"features\": {features}, \"kept\": {kept}, ");
        }
        text.push_str("\"classes\": {");
        for (j, (label, count)) in labels[i].iter().enumerate() {
            let _ = write!(text, "{}{}: {count}", if j > 0 { ", " } else { "" }, json(label));
        }
        text.push_str("}}");
    }
    let _ = write!(
        text,
        "\n  }}\n }},\n \"assumptions\": [\"see DESIGN.md, section {id}\"],\n \"wall_s\": {:.1},\n \"violations\": {violations}\n}}\n",
        start.elapsed().as_secs_f64()
    );
    let path = root().join("evidence").join(format!("{id}.json"));
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    std::fs::write(&path, text).unwrap();
    println!(
        "{id}: {total} cases, {} distinct non-trivial, {violations} violations, {:.1} s",
        distinct.len() as u64 + exhaustive,
        start.elapsed().as_secs_f64()
    );
    for line in lines {
        println!("{line}");
    }
    for error in errors.iter() {
        eprintln!("error: {error}");
    }
    std::io::stdout().flush().unwrap();
    if violations > 0 {
        1
    } else if !errors.is_empty() {
        2
    } else {
        0
    }
}

/// Entry point of a replay: FILE
pub fn replay(properties: Vec<Property>, path: &str) -> i32 {
    let text = std::fs::read_to_string(path).unwrap();
    let field = |name: &str| {
        text.lines().find_map(|line| line.strip_prefix(name)).unwrap_or("").trim().to_string()
    };
    let (id, name) = (field("property:"), field("sub:"));
    let choices: Vec<u64> =
        field("choices:").split_whitespace().map(|value| value.parse().unwrap()).collect();
    let property = properties.iter().find(|property| property.id == id).unwrap();
    let sub = property.subs.iter().find(|sub| sub.name() == name).unwrap();
    map_page(None);
    install_hook();
    crate::alloc::LIMIT.store(LIVE_LIMIT, Relaxed);
    let (dump, verdict) = on_thread(|| sub.replay(&choices));
    println!("{dump}");
    match verdict {
        Ok(()) => {
            println!("the property holds for this case");
            0
        }
        Err(message) => {
            println!("{message}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
    }
}

pub fn finish(code: i32) -> ! {
    let _ = std::io::stdout().flush();
    exit(code)
}
