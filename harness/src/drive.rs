//! Runs the library over a source and records what it reports, as a sequence of
//! events that can be compared.

use crate::core::Bad;
use crate::src::{marker_of, raise};
use claxon::frame::FrameReader;
use claxon::input::ReadBytes;
use claxon::{Block, Error, FlacReader};
use std::io;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum E {
    Io(io::ErrorKind, Option<u64>),
    Format(&'static str),
    Unsupported(&'static str),
}

pub fn err(e: &Error) -> E {
    match e {
        Error::IoError(e) => io_err(e),
        Error::FormatError(m) => E::Format(m),
        Error::Unsupported(m) => E::Unsupported(m),
    }
}

/// A bare kind is told from one with a message of somebody else's, because
/// neither must become the other.
pub fn io_err(e: &io::Error) -> E {
    let id = match (e.raw_os_error(), marker_of(e), e.get_ref()) {
        (Some(c), _, _) => Some(c as u64),
        (None, Some(id), _) => Some(id),
        (None, None, None) => None,
        (None, None, Some(_)) if e.to_string() == "injected" => Some(5),
        _ => None,
    };
    E::Io(e.kind(), id)
}

/// What an injected error looks like when it comes out.
pub fn raised(kind: io::ErrorKind, id: u64) -> E {
    io_err(&raise(kind, id))
}

impl E {
    pub fn is_eof(&self) -> bool {
        *self == E::Io(io::ErrorKind::UnexpectedEof, None)
    }
    /// End of file reported by the source itself, or by the library.
    pub fn kind_is_eof(&self) -> bool {
        matches!(self, E::Io(io::ErrorKind::UnexpectedEof, _))
    }
    pub fn is_format(&self) -> bool {
        matches!(self, E::Format(_))
    }
    pub fn is_unsupported(&self) -> bool {
        matches!(self, E::Unsupported(_))
    }
}

#[derive(Clone, PartialEq, Eq)]
pub struct Blk {
    pub time: u64,
    pub duration: u32,
    pub channels: u32,
    pub samples: Vec<Vec<i32>>,
}

impl std::fmt::Debug for Blk {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Block(time {}, {} x {}, ", self.time, self.channels, self.duration)?;
        for c in &self.samples {
            let n = c.len().min(6);
            write!(f, "{:?}{} ", &c[..n], if c.len() > n { ".." } else { "" })?;
        }
        write!(f, ")")
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ev {
    Open {
        info: claxon::metadata::StreamInfo,
        vendor: Option<String>,
        tags: Vec<(String, String)>,
    },
    OpenErr(E),
    Block(Blk),
    Eof,
    Err(E),
}

pub fn view(b: &Block) -> Blk {
    Blk {
        time: b.time(),
        duration: b.duration(),
        channels: b.channels(),
        samples: (0..b.channels()).map(|c| b.channel(c).to_vec()).collect(),
    }
}

/// Reads blocks until `max_stops` errors or ends have been seen, or `max_ev`
/// events. The buffer is recycled if `recycle`.
pub fn blocks<R: ReadBytes>(
    fr: &mut FrameReader<R>,
    max_stops: usize,
    max_ev: usize,
    recycle: bool,
    out: &mut Vec<Ev>,
) {
    let mut buf = Vec::new();
    let mut stops = 0;
    while stops < max_stops && out.len() < max_ev {
        match fr.read_next_or_eof(std::mem::take(&mut buf)) {
            Ok(Some(b)) => {
                out.push(Ev::Block(view(&b)));
                if recycle {
                    buf = b.into_buffer();
                }
            }
            Ok(None) => {
                out.push(Ev::Eof);
                stops += 1;
            }
            Err(e) => {
                out.push(Ev::Err(err(&e)));
                stops += 1;
            }
        }
    }
}

pub fn opened<R: io::Read>(r: &FlacReader<R>) -> Ev {
    Ev::Open {
        info: r.streaminfo(),
        vendor: r.vendor().map(|s| s.to_string()),
        tags: r.tags().map(|(n, v)| (n.to_string(), v.to_string())).collect(),
    }
}

/// Everything the library reports for a stream read through `src`.
pub fn stream<R: io::Read>(src: R, max_stops: usize, max_ev: usize, recycle: bool) -> Vec<Ev> {
    let mut out = Vec::new();
    match FlacReader::new(src) {
        Err(e) => out.push(Ev::OpenErr(err(&e))),
        Ok(mut r) => {
            out.push(opened(&r));
            let mut fr = r.blocks();
            blocks(&mut fr, max_stops, max_ev, recycle, &mut out);
        }
    }
    out
}

pub fn first_diff(a: &[Ev], b: &[Ev]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return Some(format!("event {}: {:?} vs {:?}", i, a.get(i), b.get(i)));
        }
    }
    None
}

/// Compares a delivered block with what was encoded.
pub fn check_block(got: &Blk, f: &crate::gen::Frame, what: &str) -> Result<(), Bad> {
    if got.duration != f.block_size {
        return Err(Bad(format!("{}: duration {} instead of {}", what, got.duration, f.block_size)));
    }
    if got.channels as usize != f.samples.len() {
        return Err(Bad(format!(
            "{}: {} channels instead of {}",
            what,
            got.channels,
            f.samples.len()
        )));
    }
    check_samples(&got.samples, &f.samples, what)
}

pub fn check_samples(got: &[Vec<i32>], want: &[Vec<i32>], what: &str) -> Result<(), Bad> {
    for (ch, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            let at = g.iter().zip(w).position(|(a, b)| a != b);
            return Err(Bad(match at {
                Some(i) => format!(
                    "{}: channel {} sample {} is {} instead of {} (block of {})",
                    what,
                    ch,
                    i,
                    g[i],
                    w[i],
                    w.len()
                ),
                None => format!("{}: channel {} has {} samples instead of {}", what, ch, g.len(), w.len()),
            }));
        }
    }
    if got.len() != want.len() {
        return Err(Bad(format!("{}: {} channels instead of {}", what, got.len(), want.len())));
    }
    Ok(())
}

pub fn hex(b: &[u8]) -> String {
    let n = b.len().min(160);
    let mut s: String = b[..n].iter().map(|x| format!("{:02x}", x)).collect();
    if n < b.len() {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
