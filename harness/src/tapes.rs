//! Streams: sparse, at any position, slow, interrupted, failing, truncated.

use crate::gen::expand;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

/// Bytes with gaps.
#[derive(Clone, Default)]
pub struct Image {
    pub segments: Vec<(u64, Vec<u8>)>,
    pub size: u64,
    pub fill: u8,
}

impl std::fmt::Debug for Image {
    fn fmt(&self, formatter: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(formatter, "{} bytes, {} segments", self.size, self.segments.len())
    }
}

impl Image {
    pub fn flat(data: Vec<u8>) -> Self {
        Image { size: data.len() as u64, segments: vec![(0, data)], fill: 0 }
    }

    /// Append bytes.
    pub fn push(&mut self, data: &[u8]) {
        match self.segments.last_mut() {
            Some((start, bytes)) if *start + bytes.len() as u64 == self.size => {
                bytes.extend_from_slice(data)
            }
            _ => self.segments.push((self.size, data.to_vec())),
        }
        self.size += data.len() as u64;
    }

    /// Append a gap, filled in when it is small.
    pub fn gap(&mut self, size: u64, filler: u64) {
        if size < 1 << 16 {
            self.push(&expand(filler, size as usize));
        } else {
            self.size += size;
        }
    }

    pub fn flatten(&self) -> Vec<u8> {
        assert!(self.size < 1 << 28);
        let mut data = vec![self.fill; self.size as usize];
        for (start, bytes) in self.segments.iter() {
            data[*start as usize..*start as usize + bytes.len()].copy_from_slice(bytes);
        }
        data
    }

    fn copy(&self, position: u64, buffer: &mut [u8]) {
        buffer.fill(self.fill);
        let end = position + buffer.len() as u64;
        let mut i = self
            .segments
            .partition_point(|(start, bytes)| *start + bytes.len() as u64 <= position);
        while i < self.segments.len() && self.segments[i].0 < end {
            let (start, bytes) = &self.segments[i];
            let from = position.max(*start);
            let to = end.min(*start + bytes.len() as u64);
            buffer[(from - position) as usize..(to - position) as usize]
                .copy_from_slice(&bytes[(from - start) as usize..(to - start) as usize]);
            i += 1;
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    /// The number of the read or seek that fails.
    pub at: u64,
    pub kind: ErrorKind,
    /// Do all the later ones fail as well?
    pub lasting: bool,
}

/// How a stream behaves.
#[derive(Clone, Debug, Default)]
pub struct Manner {
    /// The position of the first byte of the image
    pub base: u64,
    /// The number of bytes after the image
    pub after: u64,
    /// The sizes of the pieces that reads deliver, in turn; all at once if none
    pub pieces: Vec<usize>,
    /// Interrupt one read out of this many
    pub interrupt: Option<u64>,
    pub fault: Option<Fault>,
    /// The number of reads and seeks allowed before giving up with a panic
    pub budget: Option<u64>,
}

pub struct Tape<'a> {
    image: &'a Image,
    manner: Manner,
    pub position: u64,
    /// The number of reads and seeks so far
    pub operations: u64,
    reads: u64,
    interrupted: bool,
    pub fired: bool,
    /// One past the last byte of the image that has been read
    pub reached: u64,
    /// Has a read been answered with no bytes?
    pub ended: bool,
}

pub const GAVE_UP: &str = "far more reads and seeks than the size of the data justifies";

impl<'a> Tape<'a> {
    pub fn new(image: &'a Image, manner: Manner) -> Self {
        Tape {
            image,
            position: manner.base,
            manner,
            operations: 0,
            reads: 0,
            interrupted: false,
            fired: false,
            reached: 0,
            ended: false,
        }
    }

    fn count(&mut self) -> Result<()> {
        let operation = self.operations;
        self.operations += 1;
        if matches!(self.manner.budget, Some(budget) if operation > budget) {
            panic!("{GAVE_UP}");
        }
        if let Some(fault) = self.manner.fault {
            if operation == fault.at || (fault.lasting && operation > fault.at) {
                self.fired = true;
                return Err(Error::new(fault.kind, "injected"));
            }
        }
        Ok(())
    }
}

impl Read for Tape<'_> {
    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
        if buffer.is_empty() {
            return Ok(0);
        }
        self.count()?;
        self.reads += 1;
        if let Some(period) = self.manner.interrupt {
            if self.reads % period == 0 && !self.interrupted {
                self.interrupted = true;
                return Err(ErrorKind::Interrupted.into());
            }
        }
        self.interrupted = false;
        let end = self.manner.base + self.image.size + self.manner.after;
        let mut size = (buffer.len() as u64).min(end.saturating_sub(self.position)) as usize;
        if !self.manner.pieces.is_empty() {
            let i = self.reads as usize % self.manner.pieces.len();
            size = size.min(self.manner.pieces[i].max(1));
        }
        if size == 0 {
            self.ended = true;
            return Ok(0);
        }
        let from = self.position;
        let to = from + size as u64;
        let (low, high) = (self.manner.base, self.manner.base + self.image.size);
        // Outside the image
        for (i, byte) in buffer[..size].iter_mut().enumerate() {
            let position = from + i as u64;
            if position < low || position >= high {
                *byte = (position ^ position >> 8).wrapping_mul(0x9d) as u8;
            }
        }
        if from < high && to > low {
            let (start, stop) = (from.max(low), to.min(high));
            self.image.copy(start - low, &mut buffer[(start - from) as usize..(stop - from) as usize]);
            self.reached = self.reached.max(stop - low);
        }
        self.position = to;
        Ok(size)
    }
}

impl Seek for Tape<'_> {
    fn seek(&mut self, target: SeekFrom) -> Result<u64> {
        self.count()?;
        let end = self.manner.base + self.image.size + self.manner.after;
        let position = match target {
            SeekFrom::Start(position) => Some(position),
            SeekFrom::Current(delta) => self.position.checked_add_signed(delta),
            SeekFrom::End(delta) => end.checked_add_signed(delta),
        };
        match position {
            Some(position) => {
                self.position = position;
                Ok(position)
            }
            _ => Err(ErrorKind::InvalidInput.into()),
        }
    }
}
