//! Instrumented sources. Everything a check needs to know about how the library
//! used its source is recorded here.

use crate::rng::Rng;
use claxon::input::ReadBytes;
use std::fmt;
use std::io::{self, ErrorKind, Read};
use std::sync::Arc;

/// Identifies an injected error, so that "that very error" can be checked.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Marker(pub u64);

impl fmt::Display for Marker {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "injected error {}", self.0)
    }
}

impl std::error::Error for Marker {}

pub fn marker_of(e: &io::Error) -> Option<u64> {
    e.get_ref().and_then(|r| r.downcast_ref::<Marker>()).map(|m| m.0)
}

/// An injected error. Most carry their identity; some are the bare kinds and
/// operating system errors that sources really produce.
pub fn raise(kind: ErrorKind, id: u64) -> io::Error {
    match id % 8 {
        5 => io::Error::new(kind, "injected"),
        6 => io::Error::from(kind),
        7 => io::Error::from_raw_os_error(1 + (id >> 8) as i32 % 130),
        _ => io::Error::new(kind, Marker(id)),
    }
}

/// Every kind an error can be given.
pub const ALL_KINDS: [ErrorKind; 31] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::Deadlock,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::Interrupted,
    ErrorKind::Other,
];

#[derive(Clone, Debug)]
pub enum Sched {
    All,
    Fixed(usize),
    Random(Rng2, usize),
    /// Never deliver bytes from both sides of one of these offsets in one call.
    Stops(Vec<usize>),
    Cycle(Vec<usize>),
}

#[derive(Clone)]
pub struct Rng2(pub Rng);

impl fmt::Debug for Rng2 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "rng")
    }
}

impl Sched {
    pub fn random(rng: &mut Rng) -> Sched {
        match rng.below(8) {
            0 => Sched::All,
            1 => Sched::Fixed(1),
            2 => Sched::Fixed(rng.usize(2, 17)),
            3 => Sched::Fixed(*rng.pick(&[2047, 2048, 2049, 1024, 4096, 512, 3])),
            4 => Sched::Random(Rng2(Rng::new(rng.u64())), 8),
            5 => Sched::Random(Rng2(Rng::new(rng.u64())), 5000),
            6 => Sched::Random(Rng2(Rng::new(rng.u64())), 300),
            _ => {
                let n = rng.usize(1, 5);
                Sched::Cycle((0..n).map(|_| rng.log_size(2100).max(1) as usize).collect())
            }
        }
    }
    pub fn id(&self) -> u64 {
        match self {
            Sched::All => 0,
            Sched::Fixed(1) => 1,
            Sched::Fixed(_) => 2,
            Sched::Random(..) => 3,
            Sched::Stops(_) => 4,
            Sched::Cycle(_) => 5,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Fault {
    Err(ErrorKind, u64),
    Panic,
}

/// A well-behaved `io::Read` with a delivery schedule and injected faults.
pub struct Src {
    pub data: Arc<Vec<u8>>,
    pub pos: usize,
    pub sched: Sched,
    pub calls: u64,
    pub zero_len: u64,
    pub at_eof: u64,
    /// Faults by call number (0-based), each used once, ascending.
    pub faults: Vec<(u64, Fault)>,
    pub fired: u64,
    /// Panics when called more often than this: a loop that never ends.
    pub max_calls: u64,
    /// After this position has been delivered, any further read panics.
    pub tripwire: Option<usize>,
}

pub const RUNAWAY: &str = "RUNAWAY: source read again and again without end";
pub const TRIPPED: &str = "TRIPPED: source read beyond the point where nothing more was needed";

impl Src {
    pub fn new(data: Arc<Vec<u8>>, sched: Sched) -> Src {
        let max_calls = data.len() as u64 * 4 + 100_000;
        Src {
            data,
            pos: 0,
            sched,
            calls: 0,
            zero_len: 0,
            at_eof: 0,
            faults: Vec::new(),
            fired: 0,
            max_calls,
            tripwire: None,
        }
    }

    pub fn of(bytes: &[u8], sched: Sched) -> Src {
        Src::new(Arc::new(bytes.to_vec()), sched)
    }
}

impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let call = self.calls;
        self.calls += 1;
        if self.calls > self.max_calls {
            panic!("{}", RUNAWAY);
        }
        if let Some(t) = self.tripwire {
            if self.pos >= t {
                panic!("{}", TRIPPED);
            }
        }
        if let Some(i) = self.faults.iter().position(|f| f.0 == call) {
            let (_, f) = self.faults.remove(i);
            self.fired += 1;
            match f {
                Fault::Err(k, id) => return Err(raise(k, id)),
                Fault::Panic => panic!("injected panic"),
            }
        }
        if buf.is_empty() {
            self.zero_len += 1;
            return Ok(0);
        }
        let left = self.data.len() - self.pos;
        if left == 0 {
            self.at_eof += 1;
            return Ok(0);
        }
        let want = match &mut self.sched {
            Sched::All => left,
            Sched::Fixed(n) => *n,
            Sched::Random(r, m) => {
                let m = *m as u64;
                r.0.log_size(m).max(1) as usize
            }
            Sched::Stops(s) => {
                let p = self.pos;
                s.iter().copied().filter(|&x| x > p).min().unwrap_or(usize::MAX) - p
            }
            Sched::Cycle(v) => v[(call % v.len() as u64) as usize],
        };
        let n = want.min(left).min(buf.len()).max(1);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// An unbuffered `ReadBytes` that knows exactly what was consumed.
pub struct ByteSrc {
    pub data: Arc<Vec<u8>>,
    pub pos: usize,
    pub ops: u64,
    pub eof_ops: u64,
    /// Fail (once) when an operation would consume the byte at this offset.
    pub fail_at: Option<(usize, ErrorKind, u64)>,
    pub fired: u64,
    pub max_ops: u64,
}

impl ByteSrc {
    pub fn new(data: Arc<Vec<u8>>) -> ByteSrc {
        let max_ops = data.len() as u64 * 4 + 100_000;
        ByteSrc { data, pos: 0, ops: 0, eof_ops: 0, fail_at: None, fired: 0, max_ops }
    }
    pub fn of(bytes: &[u8]) -> ByteSrc {
        ByteSrc::new(Arc::new(bytes.to_vec()))
    }
    fn op(&mut self, n: usize) -> io::Result<bool> {
        self.ops += 1;
        if self.ops > self.max_ops {
            panic!("{}", RUNAWAY);
        }
        if let Some((at, k, id)) = self.fail_at {
            if at >= self.pos && at < self.pos + n {
                self.fail_at = None;
                self.fired += 1;
                return Err(raise(k, id));
            }
        }
        if self.data.len() - self.pos < n {
            self.eof_ops += 1;
            return Ok(false);
        }
        Ok(true)
    }
    fn eof<T>() -> io::Result<T> {
        Err(io::Error::new(ErrorKind::UnexpectedEof, "end of test data"))
    }
}

impl ReadBytes for ByteSrc {
    fn read_u8(&mut self) -> io::Result<u8> {
        if self.op(1)? {
            self.pos += 1;
            Ok(self.data[self.pos - 1])
        } else {
            ByteSrc::eof()
        }
    }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {
        if self.op(1)? {
            self.pos += 1;
            Ok(Some(self.data[self.pos - 1]))
        } else {
            Ok(None)
        }
    }
    fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {
        if self.op(buffer.len())? {
            buffer.copy_from_slice(&self.data[self.pos..self.pos + buffer.len()]);
            self.pos += buffer.len();
            Ok(())
        } else {
            self.pos = self.data.len();
            ByteSrc::eof()
        }
    }
    fn skip(&mut self, amount: u32) -> io::Result<()> {
        if self.op(amount as usize)? {
            self.pos += amount as usize;
            Ok(())
        } else {
            self.pos = self.data.len();
            ByteSrc::eof()
        }
    }
}
