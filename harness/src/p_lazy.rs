//! C21 nothing is read before it is needed, C22 errors tell what went wrong.

use crate::core::*;
use crate::craft::{craft, seal};
use crate::drive::*;
use crate::gen::*;
use crate::p_io::{apply, damage, model_op, op_len, rand_op, Op};
use crate::rng::hash_bytes;
use crate::src::*;
use crate::{bad, ensure};
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::{read_metadata_block_with_header, MetadataBlockReader};
use claxon::{Error, FlacReader, FlacReaderOptions};
use std::cell::RefCell;
use std::io::{self, Cursor, Read};
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------------------
// C21

/// Where the source stood at every call, visible while it is lent out.
#[derive(Default)]
struct Calls {
    at: Vec<usize>,
    pos: usize,
    drops: u64,
}

struct Seen {
    inner: Src,
    id: u64,
    log: Rc<RefCell<Calls>>,
}

impl Read for Seen {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.log.borrow_mut().at.push(self.inner.pos);
        let r = self.inner.read(buf);
        self.log.borrow_mut().pos = self.inner.pos;
        r
    }
}

impl Drop for Seen {
    fn drop(&mut self) {
        self.log.borrow_mut().drops += 1;
    }
}

fn seen(cx: &mut Ctx, data: &Arc<Vec<u8>>, sched: Sched) -> (Seen, Rc<RefCell<Calls>>, u64) {
    let log = Rc::new(RefCell::new(Calls::default()));
    let id = cx.rng.u64();
    (Seen { inner: Src::new(data.clone(), sched), id, log: log.clone() }, log, id)
}

/// The calls since the last look: each must have been made before `need` bytes
/// had been given out.
struct Look {
    log: Rc<RefCell<Calls>>,
    seen: usize,
}

impl Look {
    fn none(&mut self, what: &str) -> Res {
        let n = self.log.borrow().at.len();
        ensure!(n == self.seen, "{}: read from the source ({} calls)", what, n - self.seen);
        Ok(())
    }
    fn until(&mut self, need: usize, what: &str) -> Result<u64, Bad> {
        let l = self.log.borrow();
        for &p in &l.at[self.seen..] {
            ensure!(p < need, "{}: {} bytes suffice, but having received {} it asked for more", what, need, p);
        }
        let n = l.at.len() - self.seen;
        self.seen = l.at.len();
        Ok(n as u64)
    }
}

/// Schedules that put the end of a delivery where it matters.
fn lazy_sched(cx: &mut Ctx, s: &Stream) -> Sched {
    match cx.rng.below(4) {
        0 => Sched::Fixed(1),
        1 => {
            let mut v: Vec<usize> = s.offsets.iter().chain(&s.meta_offsets).copied().collect();
            v.push(4);
            // Also just before the end of things.
            if cx.rng.chance(1, 3) {
                let more: Vec<usize> = v.iter().map(|x| x - 1).collect();
                v.extend(more);
            }
            Sched::Stops(v)
        }
        _ => Sched::random(&mut cx.rng),
    }
}

fn c21_streams(cx: &mut Ctx) -> Res {
    let max_meta_len = *cx.rng.pick(&[10, 60, 3000]);
    let max_block = *cx.rng.pick(&[30, 60, 1500]);
    let max_block = real_sizes(&mut cx.rng, max_block);
    let sc = StreamCfg { max_frames: 5, max_block, max_meta: 4, max_meta_len, uniform: false };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let mut data = s.bytes.clone();
    // Something after the last frame that must not be looked at for it.
    let tail = cx.rng.usize(0, 3000);
    data.extend(cx.rng.bytes(tail));
    let data = Arc::new(data);
    let sched = lazy_sched(cx, &s);
    let sid = sched.id();
    let opts = FlacReaderOptions { metadata_only: false, read_vorbis_comment: cx.rng.chance(3, 4) };
    let what = format!("{:?}, {:?}", opts, sched);
    let (src, log, id) = seen(cx, &data, sched);
    let mut look = Look { log: log.clone(), seen: 0 };
    let mut r = match guard(&what, || FlacReader::new_ext(src, opts))? {
        Ok(r) => r,
        Err(e) => bad!("{}: opening gave {:?}", what, err(&e)),
    };
    look.until(s.audio_start, "opening")?;
    let mode = cx.rng.below(4);
    let n = cx.rng.usize(0, s.frames.len());
    cx.hit("mode", mode);
    match mode {
        0 => {
            // Blocks, from one or several block readers.
            let mut i = 0;
            let mut buf = Vec::new();
            while i < n {
                let k = cx.rng.usize(1, n - i);
                let mut fr = guard(&what, || r.blocks())?;
                look.none("FlacReader::blocks")?;
                for j in i..i + k {
                    match guard(&what, || fr.read_next_or_eof(std::mem::take(&mut buf)))? {
                        Ok(Some(b)) => {
                            let calls = look.until(s.offsets[j + 1], "a block")?;
                            cx.hit("calls_for_a_block", calls.min(20));
                            check_block(&view(&b), &s.frames[j], &what)?;
                            buf = b.into_buffer();
                            look.none("looking at a block")?;
                        }
                        Ok(None) => bad!("{}: end before frame {}", what, j),
                        Err(e) => bad!("{}: frame {}: {:?}", what, j, err(&e)),
                    }
                }
                if cx.rng.chance(1, 2) {
                    drop(fr);
                } else {
                    let _ = guard(&what, || fr.into_inner())?;
                }
                look.none("dropping a frame reader or taking it apart")?;
                i += k;
            }
            let back = guard(&what, || r.into_inner())?;
            look.none("FlacReader::into_inner")?;
            ensure!(back.id == id && log.borrow().drops == 0, "{}: into_inner gave another source", what);
            ensure!(back.inner.pos == log.borrow().pos, "{}: source given back at another position", what);
        }
        1 | 2 => {
            // Samples: at the first sample of each block its bytes are needed.
            let mut check = |it: &mut dyn Iterator<Item = claxon::Result<i32>>, look: &mut Look| -> Res {
                look.none("making a sample iterator")?;
                for j in 0..n {
                    let f = &s.frames[j];
                    for t in 0..f.block_size as usize {
                        for c in 0..f.samples.len() {
                            match guard(&what, || it.next())? {
                                Some(Ok(v)) => ensure!(v == f.samples[c][t], "{}: frame {} sample {} differs", what, j, t),
                                x => bad!("{}: frame {} sample {}: {:?}", what, j, t, x.map(|r| r.map_err(|e| err(&e)))),
                            }
                            if t == 0 && c == 0 {
                                look.until(s.offsets[j + 1], "the first sample of a block")?;
                            } else {
                                look.none("a later sample of a block")?;
                            }
                            let _ = it.size_hint();
                        }
                    }
                    look.none("samples of a block")?;
                }
                Ok(())
            };
            if mode == 1 {
                let mut it = guard(&what, || r.samples())?;
                check(&mut it, &mut look)?;
                drop(it);
                look.none("dropping a sample iterator")?;
                // A second one continues with the next block.
                if n < s.frames.len() {
                    let mut it = guard(&what, || r.samples())?;
                    look.none("FlacReader::samples again")?;
                    match guard(&what, || it.next())? {
                        Some(Ok(v)) => ensure!(v == s.frames[n].samples[0][0], "{}: second iterator begins elsewhere", what),
                        x => bad!("{}: second iterator: {:?}", what, x.map(|r| r.map_err(|e| err(&e)))),
                    }
                    look.until(s.offsets[n + 1], "the first sample of a second iterator")?;
                }
                drop(r);
            } else {
                let mut it = guard(&what, || r.into_samples())?;
                check(&mut it, &mut look)?;
                drop(it);
            }
            look.none("dropping the reader")?;
            ensure!(log.borrow().drops == 1, "{}: source dropped {} times", what, log.borrow().drops);
        }
        _ => {
            // Made and dropped without use.
            for _ in 0..2 {
                drop(guard(&what, || r.blocks())?);
                drop(guard(&what, || r.samples())?);
            }
            let _ = (r.streaminfo(), r.vendor().map(|v| v.len()), r.tags().count(), r.get_tag("A").count());
            look.none("making and dropping interfaces, looking at metadata")?;
            let back = guard(&what, || r.into_inner())?;
            look.none("FlacReader::into_inner")?;
            ensure!(back.id == id, "{}: into_inner gave another source", what);
            ensure!(back.inner.pos == log.borrow().pos, "{}: source given back at another position", what);
        }
    }
    cx.hit("schedule", sid);
    cx.eval(hash_bytes(&data) ^ mode);
    cx.sample(|| format!("{} frames, read {} of them, {}, {} calls", s.frames.len(), n, what, log.borrow().at.len()));
    Ok(())
}

/// Metadata blocks and frames straight from a buffered or unbuffered source.
fn c21_parts(cx: &mut Ctx) -> Res {
    let max_block = real_sizes(&mut cx.rng, 60);
    let sc = StreamCfg { max_frames: 4, max_block, max_meta: 4, max_meta_len: 60, uniform: false };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let body = Arc::new(s.bytes[4..].to_vec());
    let meta_end = |i: usize| s.meta_offsets.get(i + 1).copied().unwrap_or(s.audio_start) - 4;
    let sched = match lazy_sched(cx, &s) {
        Sched::Stops(v) => Sched::Stops(v.iter().map(|x| x.saturating_sub(4)).collect()),
        x => x,
    };
    let what = format!("{:?}", sched);
    // Buffered.
    {
        let (src, log, id) = seen(cx, &body, sched);
        let mut look = Look { log: log.clone(), seen: 0 };
        let mut br = guard(&what, || BufferedReader::new(src))?;
        look.none("BufferedReader::new")?;
        if cx.rng.chance(1, 2) {
            let mut it = MetadataBlockReader::new(&mut br);
            look.none("MetadataBlockReader::new")?;
            for i in 0..s.metas.len() {
                match guard(&what, || it.next())? {
                    Some(Ok(_)) => {}
                    r => bad!("{}: metadata block {}: {:?}", what, i, r.map(|r| r.map(|_| ()).map_err(|e| err(&e)))),
                }
                look.until(meta_end(i), "a metadata block")?;
            }
            ensure!(guard(&what, || it.next())?.is_none(), "{}: goes on after the last block", what);
            look.none("the end of the metadata blocks")?;
        } else {
            for i in 0..s.metas.len() {
                if let Err(e) = guard(&what, || read_metadata_block_with_header(&mut br))? {
                    bad!("{}: metadata block {}: {:?}", what, i, err(&e));
                }
                look.until(meta_end(i), "a metadata block")?;
            }
        }
        look.none("dropping the metadata reader")?;
        let n = cx.rng.usize(0, s.frames.len());
        let mut fr = if cx.rng.chance(1, 2) {
            FrameReader::new(br)
        } else {
            FrameReader::with_fixed_block_size(br, 16)
        };
        look.none("FrameReader::new")?;
        for j in 0..n {
            match guard(&what, || fr.read_next_or_eof(Vec::new()))? {
                Ok(Some(b)) => check_block(&view(&b), &s.frames[j], &what)?,
                Ok(None) => bad!("{}: end before frame {}", what, j),
                Err(e) => bad!("{}: frame {}: {:?}", what, j, err(&e)),
            }
            look.until(s.offsets[j + 1] - 4, "a block")?;
        }
        // Takes apart; the buffer survives in the buffered reader.
        let br = guard(&what, || fr.into_inner())?;
        look.none("FrameReader::into_inner")?;
        if n < s.frames.len() && cx.rng.chance(2, 3) {
            let mut fr = FrameReader::new(br);
            match guard(&what, || fr.read_next_or_eof(Vec::new()))? {
                Ok(Some(b)) => check_block(&view(&b), &s.frames[n], "another frame reader on the same source")?,
                x => bad!("{}: frame {} with another frame reader: {:?}", what, n, x.map(|b| b.map(|b| view(&b))).map_err(|e| err(&e))),
            }
            look.until(s.offsets[n + 1] - 4, "a block from another frame reader")?;
            cx.hit("continued", 1);
            drop(fr);
        } else {
            let back = guard(&what, || br.into_inner())?;
            ensure!(back.id == id && back.inner.pos == log.borrow().pos && log.borrow().drops == 0, "{}: BufferedReader::into_inner gave another source", what);
            cx.hit("taken_apart", 1);
        }
        look.none("taking the buffered reader apart or dropping it")?;
        ensure!(log.borrow().drops == 1, "{}: source dropped {} times", what, log.borrow().drops);
    }
    // Unbuffered: exactly its own bytes, and no operation that would need more.
    {
        let mut end = vec![0; 0];
        end.extend((0..s.metas.len()).map(meta_end));
        let mut src = ByteSrc::new(body.clone());
        let ops0 = src.ops;
        {
            let _ = MetadataBlockReader::new(&mut src);
            let _ = FrameReader::new(&mut src);
            let _ = Bitstream::new(&mut src);
        }
        ensure!(src.ops == ops0, "making readers on an unbuffered source used it");
        for (i, &e) in end.iter().enumerate() {
            // Nothing is there after the block.
            let mut one = ByteSrc::of(&body[src.pos..e]);
            if let Err(x) = guard("block", || read_metadata_block_with_header(&mut one))? {
                bad!("metadata block {} alone: {:?}", i, err(&x));
            }
            ensure!(one.pos == one.data.len() && one.eof_ops == 0, "metadata block {}: {} of {} bytes, {} times asked for more", i, one.pos, one.data.len(), one.eof_ops);
            src.pos = e;
        }
        let mut fr = FrameReader::new(src);
        for j in 0..s.frames.len() {
            match guard("frame", || fr.read_next_or_eof(Vec::new()))? {
                Ok(Some(b)) => check_block(&view(&b), &s.frames[j], "unbuffered")?,
                x => bad!("unbuffered frame {}: {:?}", j, x.map(|b| b.map(|b| view(&b))).map_err(|e| err(&e))),
            }
            let ops;
            {
                let back = fr.into_inner();
                ensure!(back.pos == s.offsets[j + 1] - 4, "frame {} left the source at {} instead of {}", j, back.pos, s.offsets[j + 1] - 4);
                ensure!(back.eof_ops == 0, "frame {}: asked for more than there is", j);
                ops = back.ops;
                fr = FrameReader::new(back);
            }
            let back = fr.into_inner();
            ensure!(back.ops == ops, "taking a frame reader apart used the source");
            fr = FrameReader::new(back);
        }
        cx.hit("unbuffered_frames", s.frames.len() as u64);
    }
    cx.eval_bytes(&body);
    Ok(())
}

/// Byte and bit level operations: never ask while what is there suffices.
fn c21_bytes(cx: &mut Ctx) -> Res {
    let len = cx.rng.log_size(7000) as usize;
    let data = Arc::new(cx.rng.bytes(len));
    let sched = Sched::random(&mut cx.rng);
    let sid = sched.id();
    let (src, log, _) = seen(cx, &data, sched);
    let mut look = Look { log: log.clone(), seen: 0 };
    let mut br = BufferedReader::new(src);
    look.none("BufferedReader::new")?;
    let big = *cx.rng.pick(&[4, 50, 3000]);
    let mut at = 0usize;
    let mut fp = 0u64;
    for _ in 0..40 {
        if cx.rng.chance(1, 8) {
            // A run of bit reads; ends wherever it ends, at a whole byte.
            let mut bits = 0usize;
            let mut bs = Bitstream::new(&mut br);
            look.none("Bitstream::new")?;
            for _ in 0..cx.rng.usize(1, 12) {
                let w = cx.rng.range(1, 32) as u32;
                let r = guard("bits", || if w <= 8 { bs.read_leq_u8(w).map(|x| x as u32) } else if w <= 16 { bs.read_leq_u16(w).map(|x| x as u32) } else { bs.read_leq_u32(w) })?;
                let have = (len - at) * 8;
                if bits + w as usize > have {
                    ensure!(r.is_err(), "{} bits read with {} left", w, have - bits);
                    bits = have;
                    look.until(len + 1, "bits beyond the end")?;
                    break;
                }
                ensure!(r.is_ok(), "{} bits at byte {} bit {} of {}: {:?}", w, at, bits, len, r);
                bits += w as usize;
                look.until(at + (bits + 7) / 8, "bits")?;
            }
            drop(bs);
            look.none("dropping the bit stream")?;
            at += (bits + 7) / 8;
            cx.hit("op", 20);
            continue;
        }
        let op = match rand_op(&mut cx.rng, big) {
            Op::Into(n) if cx.rng.chance(1, 8) => Op::Into(n * 0),
            Op::Skip(n) if cx.rng.chance(1, 8) => Op::Skip(n * 0),
            o => o,
        };
        let n = op_len(op) as usize;
        let want = model_op(&data[at.min(len)..], op);
        let got = guard("operation", || apply(&mut br, op))?;
        let what = format!("{:?} at {} of {}", op, at, len);
        match (&want, &got) {
            (Some(w), Ok(g)) => ensure!(w == g, "{}: {:?} instead of {:?}", what, g, w),
            (None, Err(_)) => {}
            (w, g) => bad!("{}: {:?} instead of {:?}", what, g, w),
        }
        let calls = match want {
            Some(_) if at + n <= len => look.until(at + n, &what)?,
            _ => look.until(len + 1, &what)?,
        };
        cx.hit("calls_per_op", calls.min(30));
        if n == 0 {
            ensure!(calls == 0, "{}: read for nothing", what);
        }
        at = (at + n).min(len);
        fp = fp.wrapping_mul(31).wrapping_add(op_len(op));
        cx.hit("op", match op {
            Op::U8 => 0,
            Op::U8Eof => 1,
            Op::U16 => 2,
            Op::U16Eof => 3,
            Op::U24 => 4,
            Op::U32 => 5,
            Op::Le32 => 6,
            Op::Into(0) => 7,
            Op::Into(_) => 8,
            Op::Skip(0) => 9,
            Op::Skip(_) => 10,
        });
    }
    cx.hit("schedule", sid);
    cx.eval(hash_bytes(&data) ^ fp);
    Ok(())
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "cases are well-formed streams, their metadata blocks and frames one by one, and byte sequences with byte- and bit-level operations, over sources that log where they stood at every call, with deliveries that end exactly at, one before and anywhere around the end of each part; no call may be made once everything an operation needs had been given out, and constructing, dropping and taking apart must make none; distinct by bytes and case",
        stages: vec![
            Stage { name: "streams", quick: 80_000, thorough: 2_000_000, f: c21_streams },
            Stage { name: "parts", quick: 80_000, thorough: 2_000_000, f: c21_parts },
            Stage { name: "bytes", quick: 200_000, thorough: 3_000_000, f: c21_bytes },
        ],
        required: vec![("mode", 4), ("schedule", 5), ("calls_for_a_block", 12), ("continued", 1), ("taken_apart", 1), ("unbuffered_frames", 4), ("op", 12), ("calls_per_op", 12)],
    }
}

// ---------------------------------------------------------------------------
// C22

#[allow(deprecated)]
fn describe(e: &Error, injected: Option<&(io::ErrorKind, u64, Option<i32>)>, ended: bool, what: &str) -> Result<u64, Bad> {
    use std::error::Error as StdError;
    let shown = e.to_string();
    let debug = format!("{:?}", e);
    ensure!(format!("{:#}", e) == shown, "{}: shown as {:?} and, in the alternate form, as {:#}", what, shown, e);
    match e {
        Error::IoError(inner) => {
            ensure!(shown == inner.to_string(), "{}: I/O error {:?} is shown as {:?}", what, inner.to_string(), shown);
            ensure!(e.description() == inner.description(), "{}: I/O error described as {:?}", what, e.description());
            for (how, c) in [("cause", e.cause())] {
                match c {
                    Some(c) => ensure!(
                        c.to_string() == inner.to_string(),
                        "{}: {} of an I/O error is {:?} instead of {:?}", what, how, c.to_string(), inner.to_string()
                    ),
                    None => bad!("{}: an I/O error without {}", what, how),
                }
            }
            if let Some(c) = e.source() {
                ensure!(c.to_string() == inner.to_string(), "{}: source of an I/O error is {:?}", what, c.to_string());
            }
            ensure!(debug.contains("IoError"), "{}: {:?}", what, debug);
            // Only what the source did can be reported as an I/O error.
            match injected {
                Some(&(kind, id, os)) => {
                    ensure!(inner.kind() == kind, "{}: injected {:?}, reported {:?}", what, kind, inner.kind());
                    ensure!(inner.raw_os_error() == os, "{}: OS error {:?} instead of {:?}", what, inner.raw_os_error(), os);
                    if os.is_none() && id != 0 {
                        ensure!(marker_of(inner) == Some(id), "{}: another error object than the source's", what);
                    }
                    Ok(0)
                }
                None => {
                    ensure!(marker_of(inner).is_none(), "{}: an injected error is reported again", what);
                    ensure!(inner.kind() == io::ErrorKind::UnexpectedEof, "{}: I/O error {:?} that no source made", what, inner);
                    ensure!(ended, "{}: unexpected end reported, but the source has not ended", what);
                    Ok(1)
                }
            }
        }
        Error::FormatError(reason) => {
            ensure!(injected.is_none(), "{}: the source failed, reported is the format error {:?}", what, reason);
            ensure!(!reason.is_empty() && shown.contains(reason), "{}: format error {:?} is shown as {:?}", what, reason, shown);
            ensure!(shown.len() > reason.len(), "{}: nothing but the reason shown: {:?}", what, shown);
            ensure!(e.description() == *reason, "{}: format error {:?} described as {:?}", what, reason, e.description());
            ensure!(e.cause().is_none() && e.source().is_none(), "{}: a format error has a cause", what);
            ensure!(debug.contains("FormatError"), "{}: {:?}", what, debug);
            Ok(2)
        }
        Error::Unsupported(feature) => {
            ensure!(injected.is_none(), "{}: the source failed, reported is {:?} as unsupported", what, feature);
            ensure!(!feature.is_empty() && shown.contains(feature), "{}: unsupported {:?} is shown as {:?}", what, feature, shown);
            ensure!(shown.to_lowercase().contains("unsupported"), "{}: unsupported feature shown as {:?}", what, shown);
            ensure!(!e.description().is_empty(), "{}: no description", what);
            ensure!(e.cause().is_none() && e.source().is_none(), "{}: an unsupported feature has a cause", what);
            ensure!(debug.contains("Unsupported"), "{}: {:?}", what, debug);
            Ok(3)
        }
    }
}

fn compare(a: &Error, b: &Error, what: &str) -> Res {
    let same = match (a, b) {
        (Error::FormatError(x), Error::FormatError(y)) => x == y,
        (Error::Unsupported(x), Error::Unsupported(y)) => x == y,
        _ => false,
    };
    ensure!((a == b) == same && (b == a) == same, "{}: {:?} == {:?} gives {} and {}", what, a, b, a == b, b == a);
    ensure!((a != b) == !same, "{}: {:?} != {:?} gives {}", what, a, b, a != b);
    Ok(())
}

/// An error as an operating system, a user or a library makes them.
fn make_error(how: u64, kind: io::ErrorKind, id: u64, os: i32) -> io::Error {
    match how {
        0 => io::Error::new(kind, Marker(id)),
        1 => io::Error::from(kind),
        _ => io::Error::from_raw_os_error(os),
    }
}

/// A source that fails once, with any sort of error.
struct Failing {
    inner: Src,
    at: u64,
    how: u64,
    kind: io::ErrorKind,
    id: u64,
    os: i32,
    fired: Rc<RefCell<(bool, u64)>>,
}

impl Read for Failing {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.inner.calls == self.at && !self.fired.borrow().0 {
            self.fired.borrow_mut().0 = true;
            return Err(make_error(self.how, self.kind, self.id, self.os));
        }
        let r = self.inner.read(buf);
        self.fired.borrow_mut().1 = self.inner.at_eof;
        r
    }
}

fn hostile(cx: &mut Ctx) -> Vec<u8> {
    let max_meta_len = *cx.rng.pick(&[20, 3000]);
    let max_block = real_sizes(&mut cx.rng, 40);
    let sc = StreamCfg { max_frames: 4, max_block, max_meta: 3, max_meta_len, uniform: false };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    match cx.rng.below(6) {
        0 => s.bytes,
        1 | 2 => {
            let mut d = s.bytes[..s.audio_start].to_vec();
            for _ in 0..6 {
                let mut c = craft(&mut cx.rng, &mut cx.stats.hist, 40);
                let _ = catch(|| seal(&mut c));
                d.extend_from_slice(&c);
            }
            d
        }
        3 => {
            // Damage in the metadata.
            let mut d = s.bytes.clone();
            for _ in 0..cx.rng.usize(1, 2) {
                let i = cx.rng.usize(0, s.audio_start - 1);
                d[i] ^= 1 << cx.rng.below(8);
            }
            d
        }
        _ => damage(&mut cx.rng, &s),
    }
}

fn c22_all(cx: &mut Ctx) -> Res {
    let data = Arc::new(hostile(cx));
    let sched = Sched::random(&mut cx.rng);
    let mut errors: Vec<Error> = Vec::new();
    let fail = cx.rng.chance(1, 3);
    let how = cx.rng.below(3);
    let kind = *cx.rng.pick(&ALL_KINDS);
    let os = cx.rng.range(1, 133) as i32;
    let id = cx.rng.u64() | 1;
    let fired = Rc::new(RefCell::new((false, 0)));
    let at = if fail { cx.rng.log_size(30) } else { u64::MAX };
    let src = Failing { inner: Src::new(data.clone(), sched), at, how, kind, id, os, fired: fired.clone() };
    let made = make_error(how, kind, id, os);
    let inj = (made.kind(), if how == 0 { id } else { 0 }, made.raw_os_error());
    let mut was_fired = false;
    let mut last_eof = 0;
    // After every operation; None: it gave no error.
    let mut note = |e: Option<Error>, cx: &mut Ctx, errors: &mut Vec<Error>, what: &str| -> Res {
        let (f, eof) = *fired.borrow();
        let now = f && !was_fired;
        let ended = eof > last_eof;
        was_fired = f;
        last_eof = eof;
        let e = match e {
            Some(e) => e,
            None => {
                ensure!(!now, "{}: the source failed, but no error was reported", what);
                return Ok(());
            }
        };
        let c = describe(&e, if now { Some(&inj) } else { None }, ended, what)?;
        ensure!(!ended || now || c == 1, "{}: the source ended, reported is {:?}", what, err(&e));
        cx.hit("error_class", c);
        if c == 0 {
            cx.hit("injected_how", how);
            cx.hit("injected_kind", made.kind() as u64);
        }
        errors.push(e);
        Ok(())
    };
    let mut fr;
    let mut r;
    match guard("opening", || FlacReader::new(src))? {
        Err(e) => note(Some(e), cx, &mut errors, "opening")?,
        Ok(x) => {
            note(None, cx, &mut errors, "opening")?;
            r = x;
            let mut ends = 0;
            let mut n = 0;
            if cx.rng.chance(1, 3) {
                while ends < 2 && n < 60 {
                    n += 1;
                    let mut it = r.samples();
                    let mut failed = None;
                    loop {
                        match guard("samples", || it.next())? {
                            Some(Ok(_)) => {}
                            Some(Err(e)) => {
                                failed = Some(e);
                                break;
                            }
                            None => break,
                        }
                    }
                    if failed.is_none() {
                        ends += 1;
                    }
                    note(failed, cx, &mut errors, "samples")?;
                }
            } else {
                fr = r.blocks();
                while ends < 2 && n < 60 {
                    n += 1;
                    match guard("blocks", || fr.read_next_or_eof(Vec::new()))? {
                        Ok(b) => {
                            ends += b.is_none() as u32;
                            note(None, cx, &mut errors, "blocks")?
                        }
                        Err(e) => note(Some(e), cx, &mut errors, "blocks")?,
                    }
                }
            }
            drop(note);
        }
    }
    // Metadata blocks alone, from memory.
    if cx.rng.chance(1, 3) && data.len() > 4 {
        let mut it = MetadataBlockReader::new(Cursor::new(&data[4..]));
        for _ in 0..30 {
            match guard("metadata", || it.next())? {
                Some(Ok(_)) => {}
                Some(Err(e)) => {
                    let c = describe(&e, None, true, "metadata")?;
                    cx.hit("error_class", c);
                    errors.push(e);
                }
                None => break,
            }
        }
    }
    // Comparisons: also with errors a user makes.
    errors.truncate(12);
    errors.push(Error::FormatError("a"));
    errors.push(Error::Unsupported("a"));
    errors.push(Error::from(io::Error::new(io::ErrorKind::Other, "a")));
    errors.push(Error::Unsupported("b"));
    errors.push(Error::FormatError("b"));
    for a in &errors {
        for b in &errors {
            compare(a, b, "comparison")?;
        }
        match a {
            Error::FormatError(m) => {
                compare(a, &Error::FormatError(m), "same reason")?;
                compare(a, &Error::Unsupported(m), "same text")?;
                cx.hit("format_reasons", hash_bytes(m.as_bytes()));
            }
            Error::Unsupported(m) => {
                compare(a, &Error::FormatError(m), "same text")?;
                compare(a, &Error::Unsupported(m), "same feature")?;
                cx.hit("unsupported_features", hash_bytes(m.as_bytes()));
            }
            _ => {}
        }
        cx.eval(hash_bytes(a.to_string().as_bytes()));
    }
    cx.sample(|| format!("{:?}", errors.iter().map(|e| e.to_string()).collect::<Vec<_>>()));
    Ok(())
}

/// Errors a user makes, converts and passes through results.
fn c22_made(cx: &mut Ctx) -> Res {
    let kind = *cx.rng.pick(&ALL_KINDS);
    let how = cx.rng.below(3);
    let id = cx.rng.u64() | 1;
    let os = cx.rng.range(1, 133) as i32;
    fn through(e: io::Error) -> claxon::Result<()> {
        Err(e)?;
        Ok(())
    }
    let made = make_error(how, kind, id, os);
    let inj = (made.kind(), if how == 0 { id } else { 0 }, made.raw_os_error());
    let e = match cx.rng.below(2) {
        0 => guard("conversion", || Error::from(made))?,
        _ => guard("conversion", || through(made).unwrap_err())?,
    };
    ensure!(matches!(e, Error::IoError(_)), "an I/O error ({:?}) converts to {:?}", kind, e);
    describe(&e, Some(&inj), false, "converted I/O error")?;
    let bytes: Vec<u8> = (0..cx.rng.usize(1, 8)).map(|_| cx.rng.u8() | 0x80).collect();
    if let Err(u) = String::from_utf8(bytes) {
        let e = guard("conversion", || Error::from(u))?;
        ensure!(matches!(e, Error::FormatError(_)), "invalid UTF-8 converts to {:?}", e);
        describe(&e, None, false, "invalid UTF-8")?;
    }
    cx.hit("converted", how);
    cx.eval(id ^ how);
    Ok(())
}

/// A stream that starts with an ID3 tag is told apart from one that starts
/// with anything else.
fn c22_marker(cx: &mut Ctx) -> Res {
    fn reason(marker: &[u8; 4], sched: Sched) -> Result<String, Bad> {
        let mut d = marker.to_vec();
        d.extend_from_slice(&[0; 50]);
        let r = guard("open", || FlacReader::new(Src::of(&d, sched)).map(|_| ()))?;
        match r {
            Err(e @ Error::FormatError(_)) => {
                describe(&e, None, false, "wrong marker")?;
                Ok(e.to_string())
            }
            Err(e) => bad!("stream that starts with {:?}: {:?}", marker, err(&e)),
            Ok(()) => bad!("stream that starts with {:?} opened", marker),
        }
    }
    let id3 = reason(b"ID3\x04", Sched::All)?;
    let other = reason(b"OggS", Sched::All)?;
    ensure!(id3 != other && id3.to_uppercase().contains("ID3"), "an ID3 tag is reported as {:?}, another format as {:?}", id3, other);
    let mut m = match cx.rng.below(5) {
        0 => (cx.rng.u64() as u32).to_be_bytes(),
        1 => *b"fLaC",
        2 => **cx.rng.pick(&[b"RIFF", b"id3\x03", b"3DI\x00", b"TAG\x03", b"ID4\x00", b"\x00ID3", b"FLAC"]),
        _ => [b'I', b'D', b'3', cx.rng.u8()],
    };
    for _ in 0..*cx.rng.pick(&[0, 1, 1, 2]) {
        m[cx.rng.usize(0, 3)] ^= 1 << cx.rng.below(8);
    }
    if m == *b"fLaC" {
        m[3] = b'c';
    }
    let got = reason(&m, Sched::random(&mut cx.rng))?;
    let tag = m.starts_with(b"ID3");
    ensure!(got == *if tag { &id3 } else { &other }, "stream that starts with {:?}: {:?}", m, got);
    cx.hit("marker", tag as u64);
    cx.eval(u32::from_be_bytes(m) as u64);
    Ok(())
}

/// A missing file, a directory, a file without permission: the file system's
/// own error.
fn c22_files(cx: &mut Ctx) -> Res {
    let dir = std::env::temp_dir().join(format!("vh-{}-{:x}", std::process::id(), cx.rng.u64()));
    std::fs::create_dir(&dir).unwrap();
    let path = match cx.rng.below(3) {
        0 => dir.join("missing.flac"),
        1 => dir.join("missing").join("deeper.flac"),
        _ => dir.clone(),
    };
    let want = match std::fs::File::open(&path) {
        Err(e) => e,
        Ok(mut f) => {
            let mut b = [0; 4];
            f.read(&mut b).unwrap_err()
        }
    };
    let opts = FlacReaderOptions { metadata_only: cx.rng.chance(1, 2), read_vorbis_comment: cx.rng.chance(1, 2) };
    for how in 0..2 {
        let r = guard("opening a file", || if how == 0 { FlacReader::open(&path).map(|_| ()) } else { FlacReader::open_ext(&path, opts).map(|_| ()) })?;
        match r {
            Err(Error::IoError(e)) => ensure!(
                e.kind() == want.kind() && e.raw_os_error() == want.raw_os_error(),
                "opening {:?}: {:?} instead of {:?}", path, e, want
            ),
            Err(e) => bad!("opening {:?}: {:?}", path, err(&e)),
            Ok(()) => bad!("opened {:?}", path),
        }
    }
    let _ = std::fs::remove_dir(&dir);
    cx.hit("files", want.raw_os_error().unwrap_or(0) as u64);
    cx.eval(cx.idx);
    Ok(())
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "cases are hostile and damaged streams read through sources that may fail once (with every error kind, as custom, simple and operating-system errors), errors converted by a user, and files that cannot be opened; every error that comes out is checked for class against what the source did, for text, description, cause and comparison with the others; distinct by error text",
        stages: vec![
            Stage { name: "all", quick: 200_000, thorough: 3_000_000, f: c22_all },
            Stage { name: "made", quick: 100_000, thorough: 500_000, f: c22_made },
            Stage { name: "files", quick: 60, thorough: 300, f: c22_files },
            Stage { name: "marker", quick: 20_000, thorough: 300_000, f: c22_marker },
        ],
        required: vec![("error_class", 4), ("injected_how", 3), ("injected_kind", 20), ("format_reasons", 25), ("unsupported_features", 3), ("converted", 3), ("files", 2), ("marker", 2)],
    }
}
