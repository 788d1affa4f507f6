//! The coverage that instrumented code reports: edges and comparisons of the
//! crate under test, told apart from the harness by the names of functions.

use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, AtomicU64, AtomicU8, AtomicUsize};
use std::sync::atomic::Ordering::Relaxed;

// What the compiler reports at start

static COUNTERS: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static COUNT: AtomicUsize = AtomicUsize::new(0);
static PLACES: AtomicPtr<usize> = AtomicPtr::new(std::ptr::null_mut());
static PLACE_COUNT: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, end: *mut u8) {
    COUNTERS.store(start, Relaxed);
    COUNT.store(end as usize - start as usize, Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *mut usize, end: *mut usize) {
    PLACES.store(start, Relaxed);
    PLACE_COUNT.store((end as usize - start as usize) / 16, Relaxed);
}

// Comparisons

static ACTIVE: AtomicBool = AtomicBool::new(false);
static BASE: AtomicUsize = AtomicUsize::new(0);
static SIZE: AtomicUsize = AtomicUsize::new(0);
/// One byte per sixteen of the code: whether it belongs to the crate under test
static OURS: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

const HITS: usize = 1 << 17;
static HIT: [AtomicU8; HITS] = [const { AtomicU8::new(0) }; HITS];
const MOST: usize = 1 << 14;
static LIST: [AtomicU32; MOST] = [const { AtomicU32::new(0) }; MOST];
/// The difference that goes with each
static GAPS: [AtomicU64; MOST] = [const { AtomicU64::new(0) }; MOST];
static LISTED: AtomicUsize = AtomicUsize::new(0);
const DELTAS: usize = 64;
static DELTA: [AtomicU64; DELTAS] = [const { AtomicU64::new(0) }; DELTAS];
static SEEN: AtomicUsize = AtomicUsize::new(0);

#[cold]
fn compared(a: u64, b: u64, place: usize) {
    let index = place.wrapping_sub(BASE.load(Relaxed));
    if index >= SIZE.load(Relaxed) {
        return;
    }
    if unsafe { *OURS.load(Relaxed).add(index >> 4) } == 0 {
        return;
    }
    note(a, b, index);
}

fn note(a: u64, b: u64, index: usize) {
    let distance = a.abs_diff(b);
    let bucket = match distance {
        0..=16 => distance,
        _ => 16 + (64 - distance.leading_zeros()) as u64,
    } << 1
        | (a > b) as u64;
    let hash = (index as u64)
        .wrapping_mul(0x9e37_79b9_7f4a_7c15)
        .wrapping_add(bucket.wrapping_mul(0xd6e8_feb8_6659_fd93));
    let hash = (hash ^ hash >> 29).wrapping_mul(0x94d0_49bb_1331_11eb);
    let hit = (hash >> 40) as usize % HITS;
    if HIT[hit].swap(1, Relaxed) == 0 {
        let listed = LISTED.fetch_add(1, Relaxed);
        if listed < MOST {
            LIST[listed].store(hit as u32, Relaxed);
            GAPS[listed].store(a.wrapping_sub(b), Relaxed);
        }
    }
    if a != b && distance < 1 << 33 {
        let seen = SEEN.fetch_add(1, Relaxed);
        // Keep some from all along the way.
        let spread = (seen as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 58;
        DELTA[spread as usize % DELTAS].store(a.wrapping_sub(b), Relaxed);
    }
}

macro_rules! comparison {
    ($($name:ident $type:ty,)+) => ($(
        #[no_mangle]
        unsafe extern "C" fn $name(a: $type, b: $type, place: usize) {
            if ACTIVE.load(Relaxed) {
                compared(a as u64, b as u64, place);
            }
        }
    )+);
}

comparison! {
    cover_compared_1 u8,
    cover_compared_2 u16,
    cover_compared_4 u32,
    cover_compared_8 u64,
}

// Numbers are stored with the high byte first, and the compiler compares them
// with constants as they are stored.

#[no_mangle]
unsafe extern "C" fn cover_constant_2(a: u16, b: u16, place: usize) {
    if ACTIVE.load(Relaxed) {
        compared(a as u64, b as u64, place);
        compared(a.swap_bytes() as u64, b.swap_bytes() as u64, place + 1);
    }
}

#[no_mangle]
unsafe extern "C" fn cover_constant_4(a: u32, b: u32, place: usize) {
    if ACTIVE.load(Relaxed) {
        compared(a as u64, b as u64, place);
        compared(a.swap_bytes() as u64, b.swap_bytes() as u64, place + 1);
    }
}

#[no_mangle]
unsafe extern "C" fn cover_switched(value: u64, cases: *const u64, place: usize) {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    let count = *cases as usize;
    // The closest case on either side
    let (mut below, mut above) = (None, None);
    for i in 0..count {
        let case = *cases.add(2 + i);
        if case <= value {
            below = Some(below.map_or(case, |other: u64| other.max(case)));
        }
        if case >= value {
            above = Some(above.map_or(case, |other: u64| other.min(case)));
        }
    }
    for (i, case) in [below, above].into_iter().enumerate() {
        if let Some(case) = case {
            compared(value, case, place + i);
        }
    }
}

#[cfg(target_arch = "x86_64")]
std::arch::global_asm!(
    ".macro trampoline from, to",
    ".globl \\from",
    ".type \\from, @function",
    "\\from:",
    "mov rdx, [rsp]",
    "jmp \\to",
    ".endm",
    "trampoline __sanitizer_cov_trace_cmp1, {one}",
    "trampoline __sanitizer_cov_trace_cmp2, {two}",
    "trampoline __sanitizer_cov_trace_cmp4, {four}",
    "trampoline __sanitizer_cov_trace_cmp8, {eight}",
    "trampoline __sanitizer_cov_trace_const_cmp1, {one}",
    "trampoline __sanitizer_cov_trace_const_cmp2, {two_swapped}",
    "trampoline __sanitizer_cov_trace_const_cmp4, {four_swapped}",
    "trampoline __sanitizer_cov_trace_const_cmp8, {eight}",
    "trampoline __sanitizer_cov_trace_switch, {switch}",
    one = sym cover_compared_1,
    two = sym cover_compared_2,
    four = sym cover_compared_4,
    eight = sym cover_compared_8,
    two_swapped = sym cover_constant_2,
    four_swapped = sym cover_constant_4,
    switch = sym cover_switched,
);

extern "C" {
    fn __sanitizer_cov_trace_switch();
}

// The functions of the crate under test

/// The name of the first crate in a mangled name
fn origin(name: &str) -> &str {
    // In the legacy scheme
    if let Some(rest) = name.strip_prefix("_ZN") {
        for origin in ["10postscript", "8typeface"] {
            if rest.starts_with(origin) || rest.contains(&format!("$LT${}..", &origin[2..])) {
                return "postscript";
            }
        }
        return "";
    }
    let bytes = name.as_bytes();
    let mut i = 0;
    while i + 1 < bytes.len() {
        if bytes[i] != b'C' || !(bytes[i + 1] == b's' || bytes[i + 1].is_ascii_digit()) {
            i += 1;
            continue;
        }
        let mut j = i + 1;
        if bytes[j] == b's' {
            while j < bytes.len() && bytes[j] != b'_' {
                j += 1;
            }
            j += 1;
        }
        let start = j;
        while j < bytes.len() && bytes[j].is_ascii_digit() {
            j += 1;
        }
        if let Ok(length) = name[start.min(j)..j].parse::<usize>() {
            if let Some(name) = name.get(j..j + length) {
                return name;
            }
        }
        i += 1;
    }
    ""
}

/// The functions of the executable: place, size, name
fn functions(image: &[u8]) -> Option<Vec<(usize, usize, &str)>> {
    let word = |at: usize, size: usize| -> Option<usize> {
        let mut value = [0; 8];
        value[..size].copy_from_slice(image.get(at..at + size)?);
        Some(u64::from_le_bytes(value) as usize)
    };
    let sections = word(0x28, 8)?;
    let (step, count) = (word(0x3a, 2)?, word(0x3c, 2)?);
    for i in 0..count {
        let section = sections + i * step;
        // The table of symbols
        if word(section + 4, 4)? != 2 {
            continue;
        }
        let (start, size) = (word(section + 0x18, 8)?, word(section + 0x20, 8)?);
        let names = word(sections + word(section + 0x28, 4)? * step + 0x18, 8)?;
        let mut result = vec![];
        for symbol in (start..start + size).step_by(24) {
            if image.get(symbol + 4)? & 0xf != 2 {
                continue;
            }
            let name = &image[names + word(symbol, 4)?..];
            let end = name.iter().position(|byte| *byte == 0)?;
            let name = std::str::from_utf8(&name[..end]).ok()?;
            result.push((word(symbol + 8, 8)?, word(symbol + 16, 8)?, name));
        }
        return Some(result);
    }
    None
}

/// The map from code to coverage
pub struct Map {
    /// Runs of counters that belong to the crate under test
    runs: Vec<(usize, usize)>,
    pub edges: usize,
}

/// How many features there are
pub fn features(map: &Map) -> usize {
    map.edges * 8 + HITS
}

impl Map {
    /// None when there is no coverage.
    pub fn new() -> Option<Map> {
        let image = std::fs::read("/proc/self/exe").ok()?;
        let functions = functions(&image)?;
        let (mut low, mut high, mut own) = (usize::MAX, 0, None);
        for (start, size, name) in functions.iter() {
            if *name == "__sanitizer_cov_trace_switch" {
                own = Some(*start);
            }
            if *start > 0 {
                low = low.min(*start);
                high = high.max(start + size);
            }
        }
        let shift = (__sanitizer_cov_trace_switch as *const () as usize).wrapping_sub(own?);
        low &= !15;
        let mut ours = vec![0u8; (high - low >> 4) + 2];
        let mut ranges = vec![];
        for (start, size, name) in functions.iter() {
            let mut origin = origin(name);
            // What the readers are inlined into
            let inlined = ["7pvcheck5props4take", "7pvcheck5props10take_given", "7pvcheck6engine3sut"];
            if name.starts_with("_RI") && inlined.iter().any(|inlined| name.contains(inlined)) {
                origin = "postscript";
            }
            if origin != "postscript" && origin != "typeface" || name.contains("drop_in_place") {
                continue;
            }
            // Printing is of no interest.
            if name.contains("3fmtB") || name.ends_with("3fmt") {
                continue;
            }
            ranges.push((start + shift, start + size + shift));
            for place in (*start..start + size).step_by(16) {
                ours[place - low >> 4] = 1;
            }
        }
        ranges.sort();
        let count = COUNT.load(Relaxed);
        let places = PLACES.load(Relaxed);
        if count == 0 || PLACE_COUNT.load(Relaxed) != count {
            return None;
        }
        let mut runs: Vec<(usize, usize)> = vec![];
        let mut edges = 0;
        for i in 0..count {
            let place = unsafe { *places.add(2 * i) };
            let after = ranges.partition_point(|range| range.0 <= place);
            if after == 0 || ranges[after - 1].1 <= place {
                continue;
            }
            edges += 1;
            match runs.last_mut() {
                Some((start, length)) if *start + *length == i => *length += 1,
                _ => runs.push((i, 1)),
            }
        }
        BASE.store(low.wrapping_add(shift), Relaxed);
        SIZE.store(high - low, Relaxed);
        OURS.store(ours.leak().as_mut_ptr(), Relaxed);
        Some(Map { runs, edges })
    }

    /// Start over.
    pub fn reset(&self) {
        let counters = COUNTERS.load(Relaxed);
        for (start, length) in self.runs.iter() {
            unsafe { std::ptr::write_bytes(counters.add(*start), 0, *length) };
        }
        let listed = LISTED.swap(0, Relaxed);
        if listed > MOST {
            HIT.iter().for_each(|hit| hit.store(0, Relaxed));
        } else {
            LIST[..listed].iter().for_each(|entry| HIT[entry.load(Relaxed) as usize].store(0, Relaxed));
        }
        SEEN.store(0, Relaxed);
        ACTIVE.store(true, Relaxed);
    }

    /// The features seen since, each with the difference of what was compared
    pub fn collect(&self, features: &mut Vec<(u32, i64)>) {
        ACTIVE.store(false, Relaxed);
        features.clear();
        let counters = COUNTERS.load(Relaxed);
        let mut edge = 0;
        for (start, length) in self.runs.iter() {
            for i in 0..*length {
                let count = unsafe { *counters.add(start + i) };
                if count > 0 {
                    let bucket = match count {
                        1..=3 => count as usize - 1,
                        4..=7 => 3,
                        8..=15 => 4,
                        16..=31 => 5,
                        32..=127 => 6,
                        _ => 7,
                    };
                    features.push((((edge + i) * 8 + bucket) as u32, 0));
                }
            }
            edge += length;
        }
        for (entry, gap) in LIST.iter().zip(GAPS.iter()).take(LISTED.load(Relaxed).min(MOST)) {
            let gap = gap.load(Relaxed) as i64;
            features.push(((self.edges * 8) as u32 + entry.load(Relaxed), gap));
        }
    }

    /// Differences between what was compared, in addition to those given
    pub fn deltas(&self, deltas: &mut Vec<i64>) {
        for i in 0..SEEN.load(Relaxed).min(DELTAS) {
            let delta = DELTA[i].load(Relaxed) as i64;
            if delta != 0 && !deltas.contains(&delta) {
                deltas.push(delta);
            }
        }
    }
}
