//! C02 arbitrary input, C18 misbehaving sources, C20 bounded progress.

use crate::alloc;
use crate::bits::{crc8, BitWriter};
use crate::core::*;
use crate::craft::*;
use crate::drive::*;
use crate::gen::*;
use crate::p_io::damage;
use crate::rng::{hash_bytes, mix, Rng};
use crate::src::*;
use crate::{bad, ensure};
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::{read_metadata_block, read_metadata_block_with_header, MetadataBlock, MetadataBlockReader};
use claxon::{subframe, Block, FlacReader, FlacReaderOptions};
use std::cell::{Cell, RefCell};
use std::io::{self, Cursor, Read};
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

// ---------------------------------------------------------------------------
// C02

/// Touches everything a block offers.
fn touch_block(b: Block) -> Vec<i32> {
    let mut sum = 0i64;
    for c in 0..b.channels() {
        let s = b.channel(c);
        for &v in s {
            sum = sum.wrapping_add(v as i64);
        }
        if b.duration() > 0 {
            sum = sum.wrapping_add(b.sample(c, 0) as i64).wrapping_add(b.sample(c, b.duration() - 1) as i64);
        }
    }
    if b.channels() == 2 {
        for (l, r) in b.stereo_samples() {
            sum = sum.wrapping_add(l as i64 ^ r as i64);
        }
    }
    std::hint::black_box((sum, b.time(), b.len()));
    b.into_buffer()
}

fn touch_error(e: &claxon::Error) {
    #[allow(deprecated)]
    {
        use std::error::Error;
        std::hint::black_box((e.to_string(), format!("{:?}", e), e.description().len(), e.cause().is_some(), e == e));
    }
}

#[derive(Default)]
struct Tally {
    blocks: u64,
    errors: u64,
    opened: u64,
    metas: u64,
}

fn touch_frames<R: ReadBytes>(fr: &mut FrameReader<R>, max_stops: usize, t: &mut Tally) {
    let mut buf = Vec::new();
    let mut stops = 0;
    let mut n = 0;
    while stops < max_stops && n < 300 {
        n += 1;
        match fr.read_next_or_eof(std::mem::take(&mut buf)) {
            Ok(Some(b)) => {
                t.blocks += 1;
                buf = touch_block(b)
            }
            Ok(None) => stops += 1,
            Err(e) => {
                t.errors += 1;
                touch_error(&e);
                stops += 1;
            }
        }
    }
}

fn touch_meta(b: &MetadataBlock) {
    match b {
        MetadataBlock::VorbisComment(v) => {
            std::hint::black_box(v.vendor.len());
            let mut n = 0;
            for (a, b) in claxon::metadata::Tags::new(&v.comments) {
                n += a.chars().count() + b.chars().count();
            }
            for v in claxon::metadata::GetTag::new(&v.comments, "artist") {
                n += v.chars().count();
            }
            std::hint::black_box(n);
        }
        MetadataBlock::Application { id, data } => {
            std::hint::black_box((*id, data.iter().map(|&b| b as u64).sum::<u64>()));
        }
        _ => {}
    }
}

fn touch_reader<R: Read>(mut r: FlacReader<R>, rng: &mut Rng, full: bool, t: &mut Tally) {
    t.opened += 1;
    std::hint::black_box((r.streaminfo(), r.vendor().map(|v| v.chars().count())));
    for (n, v) in r.tags() {
        std::hint::black_box((n.chars().count(), v.chars().count()));
    }
    for needle in ["ARTIST", "", "=", "title\u{e9}", "\u{10ffff}"] {
        std::hint::black_box(r.get_tag(needle).map(|v| v.chars().count()).sum::<usize>());
    }
    if !full {
        let _ = r.into_inner();
        return;
    }
    match rng.below(4) {
        0 => {
            touch_frames(&mut r.blocks(), 6, t);
            for x in r.samples().take(3000) {
                if let Err(e) = x {
                    touch_error(&e)
                }
            }
        }
        1 => {
            for _ in 0..4 {
                let n = rng.log_size(4000) as usize;
                for x in r.samples().take(n) {
                    if let Err(e) = x {
                        t.errors += 1;
                        touch_error(&e)
                    }
                }
                touch_frames(&mut r.blocks(), 1, t);
            }
        }
        2 => {
            for x in r.into_samples().take(20_000) {
                if let Err(e) = x {
                    t.errors += 1;
                    touch_error(&e)
                }
            }
        }
        _ => touch_frames(&mut r.blocks(), 10, t),
    }
}

/// All entry points over these bytes.
fn everything(cx: &mut Ctx, data: &[u8], what: &str) -> Res {
    let arc = Arc::new(data.to_vec());
    let mut t = Tally::default();
    let ctx = |e: Bad| Bad(format!("{}: {}: {}", what, e.0, hex(data)));
    for k in 0..3 {
        let opts = match k {
            0 => FlacReaderOptions::default(),
            _ => FlacReaderOptions { metadata_only: cx.rng.chance(1, 3), read_vorbis_comment: cx.rng.chance(1, 2) },
        };
        let sched = Sched::random(&mut cx.rng);
        let rng = &mut cx.rng;
        let src = Src::new(arc.clone(), sched);
        guard("FlacReader", || match FlacReader::new_ext(src, opts) {
            Ok(r) => touch_reader(r, rng, !opts.metadata_only, &mut t),
            Err(e) => touch_error(&e),
        })
        .map_err(ctx)?;
    }
    // Metadata, with and without the stream header.
    for from in [0usize, 4] {
        let from = from.min(data.len());
        guard("MetadataBlockReader", || {
            let mut it = MetadataBlockReader::new(Cursor::new(&data[from..]));
            let mut n = 0;
            while let Some(b) = it.next() {
                match b {
                    Ok(b) => {
                        t.metas += 1;
                        touch_meta(&b)
                    }
                    Err(e) => touch_error(&e),
                }
                n += 1;
                if n > data.len() + 2 {
                    panic!("{}", RUNAWAY);
                }
            }
        })
        .map_err(ctx)?;
    }
    let ty = if cx.rng.chance(2, 3) { *cx.rng.pick(&[0u8, 1, 2, 3, 4, 5, 6, 127]) } else { cx.rng.u8() };
    let len = match cx.rng.below(3) {
        0 => data.len() as u32,
        1 => cx.rng.log_size(data.len() as u64 + 40) as u32,
        _ => cx.rng.log_size(u32::MAX as u64) as u32,
    };
    // Skipping and reading gigabytes of nothing is for other checks.
    let sched = Sched::random(&mut cx.rng);
    guard("read_metadata_block", || {
        let mut b = BufferedReader::new(Src::new(arc.clone(), sched));
        match read_metadata_block(&mut b, ty, len) {
            Ok(b) => touch_meta(&b),
            Err(e) => touch_error(&e),
        }
        match read_metadata_block_with_header(&mut b) {
            Ok(b) => touch_meta(&b),
            Err(e) => touch_error(&e),
        }
    })
    .map_err(ctx)?;
    // Frames from an arbitrary place, and continued after every error.
    let from = if cx.rng.chance(1, 2) { 0 } else { cx.rng.usize(0, data.len()) };
    guard("FrameReader(cursor)", || touch_frames(&mut FrameReader::new(Cursor::new(&data[from..])), 12, &mut t)).map_err(ctx)?;
    let sched = Sched::random(&mut cx.rng);
    guard("FrameReader(buffered)", || {
        let mut src = Src::new(arc.clone(), sched);
        src.pos = from;
        let fixed = from as u16;
        touch_frames(&mut FrameReader::new(BufferedReader::new(src)), 12, &mut t);
        let mut fr = FrameReader::new(ByteSrc::new(arc.clone()));
        touch_frames(&mut fr, 4, &mut t);
        std::hint::black_box(fixed);
    })
    .map_err(ctx)?;
    cx.stats.hist.add("blocks_decoded", 0, t.blocks);
    cx.stats.hist.add("errors_returned", 0, t.errors);
    cx.stats.hist.add("streams_opened", 0, t.opened);
    cx.stats.hist.add("metadata_blocks", 0, t.metas);
    cx.eval_bytes(data);
    Ok(())
}

fn noise(rng: &mut Rng, n: usize) -> Vec<u8> {
    let style = rng.below(6);
    let pat = rng.u8();
    (0..n)
        .map(|_| match style {
            0 => rng.u8(),
            1 => rng.u8() & rng.u8(),
            2 => rng.u8() | rng.u8(),
            3 => *rng.pick(&[0u8, 0xff, 0x80, 0x7f, 1]),
            4 => pat,
            _ => {
                if rng.chance(1, 8) {
                    rng.u8()
                } else {
                    0
                }
            }
        })
        .collect()
}

fn c02_random(cx: &mut Ctx) -> Res {
    let n = cx.rng.log_size(600) as usize;
    let mut d = noise(&mut cx.rng, n);
    match cx.rng.below(5) {
        0 => {}
        1 => {
            let mut p = b"fLaC".to_vec();
            p.append(&mut d);
            d = p;
        }
        2 => {
            let mut p = b"fLaC".to_vec();
            let last = cx.rng.chance(1, 2);
            p.extend(block_bytes(0, last, &Info::random(&mut cx.rng).bytes()));
            p.append(&mut d);
            d = p;
        }
        3 => {
            let mut p = vec![0xff, 0xf8 | cx.rng.below(2) as u8];
            p.append(&mut d);
            d = p;
        }
        _ => {
            let mut p = b"fLaC".to_vec();
            p.extend(block_bytes(0, false, &Info::random(&mut cx.rng).bytes()));
            p.push(*cx.rng.pick(&[4u8, 0x84, 2, 0x82]));
            let len = cx.rng.log_size(0xff_ffff) as u32;
            p.extend_from_slice(&len.to_be_bytes()[1..]);
            p.append(&mut d);
            d = p;
        }
    }
    everything(cx, &d, "random bytes")
}

fn c02_mutated(cx: &mut Ctx) -> Res {
    let sc = StreamCfg { max_frames: 4, max_block: 60, max_meta: 4, max_meta_len: 60, uniform: false };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let mut d = s.bytes.clone();
    let k = cx.rng.range(1, 6);
    cx.hit("mutations", k);
    for _ in 0..k {
        if d.len() < 8 {
            break;
        }
        // Lengths and headers are hit more often than their share.
        let i = match cx.rng.below(3) {
            0 => cx.rng.usize(0, d.len() - 1),
            1 => (*cx.rng.pick(&s.meta_offsets) + cx.rng.usize(0, 12)).min(d.len() - 1),
            _ => (*cx.rng.pick(&s.offsets) + cx.rng.usize(0, 12)).min(d.len() - 1),
        };
        match cx.rng.below(8) {
            0 => d[i] = cx.rng.u8(),
            1 | 2 => d[i] ^= 1 << cx.rng.below(8),
            3 => d[i] = *cx.rng.pick(&[0u8, 0xff, 0x7f, 0x80]),
            4 => {
                d.remove(i);
            }
            5 => d.insert(i, cx.rng.u8()),
            6 => {
                let n = cx.rng.usize(1, 8);
                let v = noise(&mut cx.rng, n);
                for (j, b) in v.into_iter().enumerate() {
                    if i + j < d.len() {
                        d[i + j] = b;
                    }
                }
            }
            _ => {
                let j = cx.rng.usize(i, (i + 30).min(d.len()));
                let part = d[i..j].to_vec();
                let at = cx.rng.usize(0, d.len());
                d.splice(at..at, part);
            }
        }
    }
    everything(cx, &d, "mutated stream")
}

/// Frames with right checksums and hostile contents: everything behind the
/// checksums is reached.
fn c02_crafted(cx: &mut Ctx) -> Res {
    let max = *cx.rng.pick(&[40u32, 40, 300, 300, 4608]);
    let mut d = craft(&mut cx.rng, &mut cx.stats.hist, max);
    guard("crafted frame", || seal(&mut d)).map_err(|e| Bad(format!("{}: {}", e.0, hex(&d))))?;
    let mut t = Tally::default();
    guard("crafted frame", || touch_frames(&mut FrameReader::new(Cursor::new(&d[..])), 3, &mut t)).map_err(|e| Bad(format!("{}: {}", e.0, hex(&d))))?;
    cx.hit("crafted_delivered", t.blocks.min(1));
    if cx.rng.chance(1, 4) {
        let mut s = b"fLaC".to_vec();
        s.extend(block_bytes(0, true, &Info::random(&mut cx.rng).bytes()));
        s.extend_from_slice(&d);
        let mut e = craft(&mut cx.rng, &mut cx.stats.hist, 60);
        guard("crafted frame", || seal(&mut e)).map_err(|x| Bad(format!("{}: {}", x.0, hex(&e))))?;
        s.extend_from_slice(&e);
        s.extend_from_slice(&d);
        return everything(cx, &s, "crafted stream");
    }
    cx.eval_bytes(&d);
    Ok(())
}

fn c02_subframe(cx: &mut Ctx) -> Res {
    let bps = cx.rng.range(1, 32) as u32;
    let n = match cx.rng.below(4) {
        0 => cx.rng.usize(0, 3),
        1 => cx.rng.usize(1, 40),
        _ => pick_block_size(&mut cx.rng, 700) as usize,
    };
    let mut w = BitWriter::new();
    any_subframe(&mut cx.rng, &mut w, n.max(1), bps, &mut cx.stats.hist);
    w.align();
    let mut d = w.bytes;
    if cx.rng.chance(1, 3) {
        for _ in 0..cx.rng.range(1, 3) {
            let i = cx.rng.usize(0, d.len() - 1);
            d[i] = cx.rng.u8();
        }
    }
    let k = cx.rng.usize(0, 60);
    let tail = noise(&mut cx.rng, k);
    d.extend_from_slice(&tail);
    let mut buf = vec![cx.rng.u32() as i32; n];
    let off = cx.rng.below(8) as u32;
    let mut ok = false;
    guard("subframe::decode", || {
        let mut bs = Bitstream::new(Cursor::new(&d[..]));
        let r = subframe::decode(&mut bs, bps, &mut buf);
        ok = r.is_ok();
        if let Err(e) = r {
            touch_error(&e);
        }
        // Carry on wherever it stopped, at any bit.
        let _ = bs.read_leq_u8(off);
        for _ in 0..3 {
            let _ = subframe::decode(&mut bs, bps, &mut buf);
        }
        std::hint::black_box(&buf);
    })
    .map_err(|e| Bad(format!("{} ({} samples of {} bits): {}", e.0, n, bps, hex(&d))))?;
    cx.hit("subframe_bps", bps as u64);
    cx.hit("subframe_ok", ok as u64);
    cx.eval(hash_bytes(&d) ^ mix(&[n as u64, bps as u64]));
    Ok(())
}

/// Tag and application blocks with any lengths and counts.
fn c02_metadata(cx: &mut Ctx) -> Res {
    let tags = Tags::random(&mut cx.rng, 5, 20);
    let e = cx.rng.usize(0, 2);
    let mut body = tags.bytes(&mut cx.rng, e);
    for _ in 0..cx.rng.range(0, 3) {
        let i = cx.rng.usize(0, body.len() - 1);
        match cx.rng.below(4) {
            0 => body[i] = *cx.rng.pick(&[0u8, 0xff, 0x7f, 0x80, 0xc0, 0xed, b'=']),
            1 => body[i] ^= 1 << cx.rng.below(8),
            2 => {
                let v = (*cx.rng.pick(&[u32::MAX, u32::MAX - 3, 0x7fff_ffff, 0x8000_0000, body.len() as u32, (body.len() as u32).wrapping_sub(4), 0])).to_le_bytes();
                for (j, b) in v.into_iter().enumerate() {
                    if i + j < body.len() {
                        body[i + j] = b;
                    }
                }
            }
            _ => {
                let n = cx.rng.usize(1, body.len());
                body.truncate(n)
            }
        }
    }
    let len = match cx.rng.below(5) {
        0 => cx.rng.below(40) as u32,
        1 => *cx.rng.pick(&[7u32, 8, 9, u32::MAX, 10 << 20, (10 << 20) + 1, 0x7fff_ffff]),
        2 => (body.len() as i64 + cx.rng.irange(-9, 9)).max(0) as u32,
        _ => body.len() as u32,
    };
    let ty = *cx.rng.pick(&[4u8, 4, 4, 2, 0]);
    alloc::set_poison(if len > 1 << 20 { None } else { Some(0xa5) });
    let r = guard("read_metadata_block", || {
        let mut c = Cursor::new(&body[..]);
        let r = read_metadata_block(&mut c, ty, len);
        match &r {
            Ok(b) => touch_meta(b),
            Err(e) => touch_error(e),
        }
        r.is_ok()
    });
    alloc::set_poison(Some(0xa5));
    let ok = r.map_err(|e| Bad(format!("{} (type {}, length {}): {}", e.0, ty, len, hex(&body))))?;
    cx.hit("metadata_ok", ok as u64);
    cx.eval(hash_bytes(&body) ^ mix(&[len as u64, ty as u64]));
    Ok(())
}

fn samples_dir() -> &'static Vec<(String, Vec<u8>)> {
    static S: OnceLock<Vec<(String, Vec<u8>)>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = Vec::new();
        for dir in ["/repo/testsamples", "/repo/testsamples/fuzz"] {
            if let Ok(rd) = std::fs::read_dir(dir) {
                for e in rd.flatten() {
                    let p = e.path();
                    if p.extension().map_or(false, |x| x == "flac") {
                        if let Ok(b) = std::fs::read(&p) {
                            v.push((p.display().to_string(), b));
                        }
                    }
                }
            }
        }
        v.sort();
        v
    })
}

/// Mutations of the repository's sample files.
fn c02_samples(cx: &mut Ctx) -> Res {
    if cfg!(miri) {
        return Ok(());
    }
    let all = samples_dir();
    if all.is_empty() {
        return Ok(());
    }
    let (name, bytes) = &all[(cx.idx % all.len() as u64) as usize];
    let mut d = bytes.clone();
    d.truncate(30_000);
    let first = cx.idx < all.len() as u64;
    if !first && !d.is_empty() {
        for _ in 0..cx.rng.range(1, 8) {
            let i = if cx.rng.chance(1, 2) { cx.rng.usize(0, d.len() - 1) } else { cx.rng.usize(0, (d.len() - 1).min(400)) };
            match cx.rng.below(4) {
                0 => d[i] = cx.rng.u8(),
                1 => d[i] ^= 1 << cx.rng.below(8),
                2 => {
                    if d.len() > 1 {
                        d.remove(i);
                    }
                }
                _ => d.insert(i, cx.rng.u8()),
            }
        }
    }
    cx.hit("sample_file", hash_bytes(name.as_bytes()) % 10_000);
    everything(cx, &d, name)
}

/// Zeros without end, then perhaps a one: unary numbers around 2^32.
struct Zeros {
    head: Vec<u8>,
    pos: u64,
    zeros: u64,
    ops: u64,
}

impl ReadBytes for Zeros {
    fn read_u8(&mut self) -> io::Result<u8> {
        let p = self.pos;
        self.pos += 1;
        if let Some(&b) = self.head.get(p as usize) {
            return Ok(b);
        }
        if p < self.head.len() as u64 + self.zeros {
            Ok(0)
        } else if p < self.head.len() as u64 + self.zeros + 64 {
            Ok(0xff)
        } else {
            self.pos -= 1;
            Err(io::Error::new(io::ErrorKind::UnexpectedEof, "end of test data"))
        }
    }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {
        match self.read_u8() {
            Ok(b) => Ok(Some(b)),
            Err(_) => Ok(None),
        }
    }
    fn read_into(&mut self, b: &mut [u8]) -> io::Result<()> {
        self.ops += 1;
        for x in b {
            *x = self.read_u8()?;
        }
        Ok(())
    }
    fn skip(&mut self, n: u32) -> io::Result<()> {
        for _ in 0..n {
            self.read_u8()?;
        }
        Ok(())
    }
}

fn c02_unary(cx: &mut Ctx) -> Res {
    // 2^29 bytes of zeros are 2^32 zero bits.
    let zeros = (1u64 << 29) + cx.rng.below(3) - 1;
    let which = cx.idx % 4;
    let mut head = Vec::new();
    let what;
    let r = match which {
        0 => {
            what = "read_unary";
            guard(what, || {
                let mut b = Bitstream::new(Zeros { head, pos: 0, zeros, ops: 0 });
                let _ = b.read_leq_u8(3);
                let _ = b.read_unary();
                let _ = b.read_unary();
                let _ = b.read_unary();
            })
        }
        1 => {
            what = "wasted bits of a lone subframe";
            head.push(1);
            guard(what, || {
                let mut b = Bitstream::new(Zeros { head, pos: 0, zeros, ops: 0 });
                let mut buf = [0; 16];
                let _ = subframe::decode(&mut b, 16, &mut buf);
                let _ = subframe::decode(&mut b, 16, &mut buf);
            })
        }
        _ => {
            let h = HeaderFields {
                variable: false,
                bs_code: 6,
                block_size: 16,
                sr_code: 9,
                sr_value: 0,
                chan_code: 0,
                bps_code: 4,
                number: coded_number(0),
            };
            head = header_bytes(&h);
            head.push(crc8(&head));
            let mut w = BitWriter::new();
            if which == 2 {
                what = "wasted bits in a frame";
                w.put(1, 8);
            } else {
                what = "residual in a frame";
                w.put(8 << 1, 8);
                w.put(0, 2);
                w.put(0, 4);
                w.put(cx.rng.below(15), 4);
                w.put(0, 6);
            }
            head.extend_from_slice(&w.bytes);
            guard(what, || {
                let mut fr = FrameReader::new(Zeros { head, pos: 0, zeros, ops: 0 });
                let _ = fr.read_next_or_eof(Vec::new()).map(|b| b.map(touch_block));
            })
        }
    };
    r.map_err(|e| Bad(format!("{}, {} zero bytes: {}", what, zeros, e.0)))?;
    cx.hit("unary", which);
    cx.eval(mix(&[zeros, which]));
    Ok(())
}

/// Quotients around the point where they no longer fit next to the remainder.
fn c02_quotients(cx: &mut Ctx) -> Res {
    let rice2 = cx.rng.chance(1, 2);
    let k = if rice2 { cx.rng.range(6, 30) } else { cx.rng.range(6, 14) };
    let q = ((1u64 << (32 - k)) as i64 + cx.rng.irange(-9, 9)).max(0) as u64;
    let q = if cx.rng.chance(1, 4) { q / 2 } else { q };
    let order = if cx.rng.chance(1, 2) { 0 } else { cx.rng.range(1, 4) };
    let bps = cx.rng.range(1, 32) as u32;
    let mut w = BitWriter::new();
    w.put((8 + order) << 1, 8);
    for _ in 0..order {
        w.put(cx.rng.u64(), bps);
    }
    w.put(rice2 as u64, 2);
    w.put(0, 4);
    w.put(k, if rice2 { 5 } else { 4 });
    // What is left of the byte, whole bytes, and what is left of the quotient.
    let room = (8 - w.bit_len() % 8) % 8;
    w.put(0, room.min(q) as u32);
    let q = q - room.min(q);
    let src = Zeros { head: w.bytes, pos: 0, zeros: q / 8, ops: 0 };
    let mut buf = vec![0; order as usize + 4];
    guard("large quotient", || {
        let mut b = Bitstream::new(src);
        let _ = subframe::decode(&mut b, bps, &mut buf);
    })
    .map_err(|e| Bad(format!("parameter {} (method {}), {} zeros, order {}, {} bits per sample: {}", k, rice2 as u8, q, order, bps, e.0)))?;
    cx.hit("quotient_param", k);
    cx.eval(mix(&[rice2 as u64, k, q, order, bps as u64]));
    Ok(())
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "a case is a byte sequence: noise, mutated generated streams, mutated sample files, hostile frames with right checksums, lone subframes at every depth, metadata with any claims, unary numbers around 2^32; every entry point and every view runs over it and carries on after errors, with overflow checks, debug assertions, checked unchecked-indexing and (in other variants) AddressSanitizer or Miri watching; distinct by bytes",
        stages: vec![
            Stage { name: "random", quick: 60_000, thorough: 5_000_000, f: c02_random },
            Stage { name: "mutated", quick: 60_000, thorough: 5_000_000, f: c02_mutated },
            Stage { name: "crafted", quick: 200_000, thorough: 20_000_000, f: c02_crafted },
            Stage { name: "subframe", quick: 300_000, thorough: 30_000_000, f: c02_subframe },
            Stage { name: "metadata", quick: 200_000, thorough: 10_000_000, f: c02_metadata },
            Stage { name: "samples", quick: 2_000, thorough: 200_000, f: c02_samples },
            Stage { name: "unary", quick: 4, thorough: 32, f: c02_unary },
            Stage { name: "quotients", quick: 1500, thorough: 30_000, f: c02_quotients },
        ],
        required: vec![("blocks_decoded", 1), ("errors_returned", 1), ("streams_opened", 1), ("metadata_blocks", 1), ("mutations", 6), ("crafted_delivered", 2), ("crafted_type", 50), ("subframe_bps", 32), ("subframe_ok", 2), ("metadata_ok", 2), ("unary", 4), ("quotient_param", 25)],
    }
}

// ---------------------------------------------------------------------------
// C18

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Evil {
    /// Claims more than it was asked for.
    Over,
    /// Claims bytes it has not written.
    Under,
    /// Both, errors and panics in between.
    Mixed,
    /// Behaves, but looks at what it is given.
    Look,
    /// Writes everywhere, claims little.
    Little,
}

const EVILS: [Evil; 5] = [Evil::Over, Evil::Under, Evil::Mixed, Evil::Look, Evil::Little];

/// Decides by its own random numbers and the call count only, never by
/// addresses, so that two runs must go the same way.
struct EvilRead {
    data: Arc<Vec<u8>>,
    pos: usize,
    kind: Evil,
    rng: Rng,
    calls: u64,
    rate: u64,
    /// What was in the buffers it was given.
    seen: Rc<RefCell<Vec<u64>>>,
    fired: Rc<Cell<u64>>,
}

impl Read for EvilRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 3000 {
            return Ok(0);
        }
        // The ends of large buffers are enough.
        let mut h = if buf.len() <= 8192 { hash_bytes(buf) } else { hash_bytes(&buf[..4096]) ^ hash_bytes(&buf[buf.len() - 4096..]) };
        if cfg!(feature = "san") {
            // Makes a memory sanitizer look.
            if buf.iter().any(|&b| b == 0x77) {
                h ^= 1;
            }
        }
        self.seen.borrow_mut().push(h);
        let left = self.data.len() - self.pos;
        let honest = |s: &mut EvilRead, buf: &mut [u8]| {
            let n = left.min(buf.len());
            buf[..n].copy_from_slice(&s.data[s.pos..s.pos + n]);
            s.pos += n;
            n
        };
        if self.calls > 1 && !self.rng.chance(self.rate, 100) || self.calls == 1 && self.rng.chance(2, 3) {
            let max = if self.rng.chance(1, 2) { buf.len() } else { self.rng.log_size(buf.len() as u64) as usize };
            return Ok(honest(self, &mut buf[..max]));
        }
        self.fired.set(self.fired.get() + 1);
        let over = |s: &mut EvilRead, len: usize| match s.rng.below(8) {
            0 => len + 1,
            // Numbers of which a part, or a narrower type, looks all right.
            6 => {
                let k = if s.rng.chance(2, 3) { *s.rng.pick(&[15u32, 16, 31, 32, 63]) } else { s.rng.range(12, 63) as u32 };
                let p = 1u64 << k.min(usize::BITS - 1);
                (if s.rng.chance(1, 2) { p } else { p - 1 + s.rng.below(3) }) as usize
            }
            7 => ((1u64 << s.rng.range(12, usize::BITS as u64 - 1)) + s.rng.log_size(len as u64)) as usize,
            1 => usize::MAX,
            2 => len + s.rng.usize(1, 5000),
            3 => usize::MAX / 2 + 1,
            4 => len * 2 + 1,
            _ => (s.rng.u64() >> s.rng.below(63)) as usize,
        };
        match self.kind {
            Evil::Over => {
                if self.rng.chance(1, 2) {
                    honest(self, buf);
                }
                Ok(over(self, buf.len()))
            }
            Evil::Under => Ok(self.rng.usize(0, buf.len())),
            Evil::Little => {
                self.rng.fill(buf);
                Ok(self.rng.usize(0, buf.len().min(3)))
            }
            Evil::Look => Ok(honest(self, buf)),
            Evil::Mixed => match self.rng.below(5) {
                0 => Ok(over(self, buf.len())),
                1 => Ok(buf.len()),
                2 => {
                    let n = self.rng.usize(0, buf.len());
                    self.rng.fill(&mut buf[..n]);
                    Err(io::Error::new(*self.rng.pick(&ALL_KINDS), Marker(self.calls)))
                }
                3 => {
                    let n = self.rng.usize(0, buf.len());
                    honest(self, &mut buf[..n]);
                    panic!("injected panic")
                }
                _ => Ok(0),
            },
        }
    }
}

/// The same for the library's own reading trait. Every method is overridden.
struct EvilBytes {
    data: Arc<Vec<u8>>,
    pos: usize,
    kind: Evil,
    rng: Rng,
    ops: u64,
    rate: u64,
    seen: Rc<RefCell<Vec<u64>>>,
    fired: Rc<Cell<u64>>,
    /// Multi-byte reads return any value of their type.
    wild: bool,
}

impl EvilBytes {
    fn evil(&mut self) -> bool {
        self.ops += 1;
        let e = self.rng.chance(self.rate, 400);
        if e {
            self.fired.set(self.fired.get() + 1);
        }
        e
    }
    fn take(&mut self, n: usize) -> io::Result<usize> {
        if self.ops > 200_000 || self.data.len() - self.pos < n {
            self.pos = self.data.len();
            return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "end of test data"));
        }
        self.pos += n;
        Ok(self.pos - n)
    }
    fn trouble(&mut self) -> io::Result<()> {
        if self.kind == Evil::Mixed {
            if self.rng.chance(1, 3) {
                panic!("injected panic");
            }
            if self.rng.chance(1, 2) {
                return Err(io::Error::new(*self.rng.pick(&ALL_KINDS), Marker(self.ops)));
            }
        }
        Ok(())
    }
}

impl ReadBytes for EvilBytes {
    fn read_u8(&mut self) -> io::Result<u8> {
        if self.evil() {
            self.trouble()?;
            return Ok(self.rng.u8());
        }
        let p = self.take(1)?;
        Ok(self.data[p])
    }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {
        if self.evil() {
            self.trouble()?;
            return Ok(if self.rng.chance(1, 4) { None } else { Some(self.rng.u8()) });
        }
        if self.pos == self.data.len() {
            return Ok(None);
        }
        let p = self.take(1)?;
        Ok(Some(self.data[p]))
    }
    fn read_into(&mut self, buf: &mut [u8]) -> io::Result<()> {
        let mut h = hash_bytes(buf);
        if cfg!(feature = "san") && buf.iter().any(|&b| b == 0x77) {
            h ^= 1;
        }
        self.seen.borrow_mut().push(h);
        if self.evil() || (self.kind == Evil::Under && self.rng.chance(1, 3)) {
            self.fired.set(self.fired.get() + 1);
            match self.kind {
                // Claims to have filled it.
                Evil::Under | Evil::Over => return Ok(()),
                Evil::Look => {}
                _ => {
                    let n = self.rng.usize(0, buf.len());
                    self.rng.fill(&mut buf[..n]);
                    self.trouble()?;
                    return Ok(());
                }
            }
        }
        let p = self.take(buf.len())?;
        let n = buf.len();
        buf.copy_from_slice(&self.data[p..p + n]);
        Ok(())
    }
    fn skip(&mut self, n: u32) -> io::Result<()> {
        if self.evil() {
            self.trouble()?;
            return Ok(());
        }
        self.take(n as usize)?;
        Ok(())
    }
    fn read_be_u16(&mut self) -> io::Result<u16> {
        if self.wild && self.evil() {
            return Ok(self.rng.u32() as u16);
        }
        let b = self.read_u8()? as u16;
        Ok(b << 8 | self.read_u8()? as u16)
    }
    fn read_be_u24(&mut self) -> io::Result<u32> {
        if self.wild && self.evil() {
            return Ok(self.rng.u32());
        }
        let b = self.read_be_u16()? as u32;
        Ok(b << 8 | self.read_u8()? as u32)
    }
    fn read_be_u32(&mut self) -> io::Result<u32> {
        if self.wild && self.evil() {
            return Ok(self.rng.u32());
        }
        let b = self.read_be_u16()? as u32;
        Ok(b << 16 | self.read_be_u16()? as u32)
    }
    fn read_le_u32(&mut self) -> io::Result<u32> {
        if self.wild && self.evil() {
            return Ok(self.rng.u32());
        }
        Ok(self.read_be_u32()?.swap_bytes())
    }
}

/// What came out, panics included: a panic is allowed here, it is safe.
type Log = Vec<String>;

fn log_err(e: &claxon::Error) -> String {
    format!("{:?}", err(e))
}

fn log_block(b: &Block) -> String {
    let v = view(b);
    format!("block {} {}x{} {:x}", v.time, v.channels, v.duration, {
        let flat: Vec<u8> = v.samples.iter().flatten().flat_map(|s| s.to_le_bytes()).collect();
        if cfg!(feature = "san") && flat.iter().any(|&b| b == 0x77) {
            1
        } else {
            hash_bytes(&flat)
        }
    })
}

fn log_meta(b: &MetadataBlock) -> String {
    match b {
        MetadataBlock::Application { id, data } => {
            // Decides on every byte: a memory sanitizer reports here.
            let n = data.iter().filter(|&&b| b > 0x40).count();
            format!("application {} {} {:x} {}", id, data.len(), hash_bytes(data), n)
        }
        MetadataBlock::VorbisComment(v) => {
            let n = v.vendor.bytes().filter(|&b| b > 0x40).count();
            format!("tags {} {:x} {:?}", n, hash_bytes(v.vendor.as_bytes()), v.comments)
        }
        MetadataBlock::StreamInfo(i) => format!("{:?}", i),
        MetadataBlock::Padding { length } => format!("padding {}", length),
        _ => "other".into(),
    }
}

fn drive_evil_read(make: &dyn Fn() -> EvilRead, opts: FlacReaderOptions, log: &mut Log) {
    let src = make();
    let r = match catch(|| FlacReader::new_ext(src, opts)) {
        Ok(Ok(r)) => Some(r),
        Ok(Err(e)) => {
            log.push(log_err(&e));
            None
        }
        Err(_) => {
            log.push("panic".into());
            None
        }
    };
    if let Some(mut r) = r {
        log.push(format!("{:?} {:?} {:?}", r.streaminfo(), r.vendor(), r.tags().collect::<Vec<_>>()));
        if !opts.metadata_only {
            // Carries on after errors and panics alike.
            for k in 0..8 {
                if k % 3 == 2 {
                    let x = catch(|| {
                        let mut h = Vec::new();
                        for x in r.samples().take(200) {
                            match x {
                                Ok(v) => h.push(format!("{}", v)),
                                Err(e) => h.push(log_err(&e)),
                            }
                        }
                        h.join(" ")
                    });
                    log.push(x.unwrap_or_else(|_| "panic".into()));
                    continue;
                }
                let x = catch(|| match r.blocks().read_next_or_eof(Vec::new()) {
                    Ok(Some(b)) => {
                        let l = log_block(&b);
                        if b.channels() == 2 {
                            std::hint::black_box(b.stereo_samples().fold(0i64, |a, (l, r)| a + l as i64 - r as i64));
                        }
                        l
                    }
                    Ok(None) => "end".into(),
                    Err(e) => log_err(&e),
                });
                log.push(x.unwrap_or_else(|_| "panic".into()));
            }
        }
    }
    // The buffered reader on its own.
    let mut b = BufferedReader::new(make());
    for k in 0..30u32 {
        let x = catch(|| match k % 9 {
            0 => format!("{:?}", b.read_u8().map_err(|e| e.kind())),
            1 => format!("{:?}", b.read_be_u32().map_err(|e| e.kind())),
            2 => {
                let mut v = vec![1u8; 700];
                let r = b.read_into(&mut v).map_err(|e| e.kind());
                // After a failure the contents mean nothing.
                if r.is_ok() {
                    format!("{:x}", hash_bytes(&v))
                } else {
                    format!("{:?}", r)
                }
            }
            3 => format!("{:?}", b.skip(900).map_err(|e| e.kind())),
            4 => format!("{:?}", b.read_u8_or_eof().map_err(|e| e.kind())),
            5 => format!("{:?}", b.read_be_u16_or_eof().map_err(|e| e.kind())),
            6 => {
                let mut v = vec![1u8; 5000];
                let r = b.read_into(&mut v).map_err(|e| e.kind());
                if r.is_ok() {
                    format!("{:x}", hash_bytes(&v))
                } else {
                    format!("{:?}", r)
                }
            }
            7 => format!("{:?}", b.read_le_u32().map_err(|e| e.kind())),
            _ => {
                let mut s = String::new();
                for _ in 0..40 {
                    s.push_str(&format!("{:?}", b.read_u8().map_err(|e| e.kind())));
                }
                s
            }
        });
        log.push(x.unwrap_or_else(|_| "panic".into()));
    }
}

fn evil_stream(cx: &mut Ctx) -> Vec<u8> {
    let max_block = real_sizes(&mut cx.rng, 60);
    let sc = StreamCfg { max_frames: 3, max_block, max_meta: 3, max_meta_len: *cx.rng.pick(&[30, 3000]), uniform: true };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    if cx.rng.chance(1, 3) {
        damage(&mut cx.rng, &s)
    } else {
        s.bytes
    }
}

const POISONS: [u8; 3] = [0x11, 0xee, 0x3d];

/// Runs the same thing with the heap filled with different bytes.
fn differential(cx: &mut Ctx, what: &str, run: &mut dyn FnMut(&mut Log) -> Vec<u64>) -> Result<Log, Bad> {
    let mut first: Option<(Log, Vec<u64>)> = None;
    for p in POISONS {
        alloc::set_poison(Some(p));
        let mut log = Vec::new();
        let seen = run(&mut log);
        alloc::set_poison(Some(0xa5));
        match &first {
            None => first = Some((log, seen)),
            Some((l, s)) => {
                if let Some(i) = (0..l.len().max(log.len())).find(|&i| l.get(i) != log.get(i)) {
                    bad!("{}: what the library returns depends on old memory: {:.300?} and {:.300?}", what, l.get(i), log.get(i));
                }
                ensure!(*s == seen, "{}: what the source is shown depends on old memory", what);
            }
        }
        if !alloc::ACTIVE {
            break;
        }
    }
    cx.stats.evals += 1;
    Ok(first.unwrap().0)
}

fn c18_read(cx: &mut Ctx) -> Res {
    let data = Arc::new(evil_stream(cx));
    let kind = *cx.rng.pick(&EVILS);
    let seed = cx.rng.u64();
    let rate = *cx.rng.pick(&[3u64, 20, 60, 100]);
    let opts = FlacReaderOptions { metadata_only: cx.rng.chance(1, 6), read_vorbis_comment: cx.rng.chance(3, 4) };
    let fired = Rc::new(Cell::new(0));
    let what = format!("reader of kind {:?}", kind);
    let log = differential(cx, &what, &mut |log| {
        let seen = Rc::new(RefCell::new(Vec::new()));
        let make = || EvilRead {
            data: data.clone(),
            pos: 0,
            kind,
            rng: Rng::new(seed),
            calls: 0,
            rate,
            seen: seen.clone(),
            fired: fired.clone(),
        };
        drive_evil_read(&make, opts, log);
        let s = seen.borrow().clone();
        s
    })?;
    cx.hit("evil_read", kind as u64);
    cx.hit("evil_fired", fired.get().min(20));
    cx.hit("evil_panics", log.iter().filter(|l| *l == "panic").count().min(3) as u64);
    cx.sample(|| format!("{}: {:.400}", what, log.join("; ")));
    cx.eval(hash_bytes(&data) ^ mix(&[seed, rate, kind as u64]));
    Ok(())
}

fn c18_bytes(cx: &mut Ctx) -> Res {
    let what_to_read = cx.rng.below(4);
    let seed = cx.rng.u64();
    let kind = *cx.rng.pick(&EVILS);
    let rate = *cx.rng.pick(&[1u64, 8, 60]);
    let wild = cx.rng.chance(1, 3);
    let (data, ty, len) = match what_to_read {
        0 => {
            let sc = StreamCfg { max_frames: 3, max_block: 60, max_meta: 0, max_meta_len: 10, uniform: false };
            let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
            (s.audio().to_vec(), 0, 0)
        }
        1 => {
            let sc = StreamCfg { max_frames: 0, max_block: 60, max_meta: 5, max_meta_len: 900, uniform: false };
            let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
            (s.bytes[4..].to_vec(), 0, 0)
        }
        2 => {
            let ty = *cx.rng.pick(&[2u8, 4, 4, 0]);
            let body = match ty {
                4 => {
                    let max = *cx.rng.pick(&[300, 300, 300, 300, 300, 300, 300, 20_000]);
                    let tags = Tags::random(&mut cx.rng, 5, max);
                    tags.bytes(&mut cx.rng, 0)
                }
                0 => Info::random(&mut cx.rng).bytes().to_vec(),
                _ => {
                    let n = 4 + cx.rng.log_size(30_000) as usize;
                    cx.rng.bytes(n)
                }
            };
            let len = body.len() as u32;
            (body, ty, len)
        }
        _ => {
            let mut w = BitWriter::new();
            any_subframe(&mut cx.rng, &mut w, 32, 16, &mut cx.stats.hist);
            w.align();
            (w.bytes, 0, 0)
        }
    };
    let data = Arc::new(data);
    let fired = Rc::new(Cell::new(0));
    let what = format!("byte source of kind {:?}, reading {}", kind, what_to_read);
    let log = differential(cx, &what, &mut |log| {
        let seen = Rc::new(RefCell::new(Vec::new()));
        let src = EvilBytes {
            data: data.clone(),
            pos: 0,
            kind,
            rng: Rng::new(seed),
            ops: 0,
            rate,
            seen: seen.clone(),
            fired: fired.clone(),
            wild,
        };
        match what_to_read {
            0 => {
                let mut fr = FrameReader::new(src);
                for _ in 0..8 {
                    let x = catch(|| match fr.read_next_or_eof(Vec::new()) {
                        Ok(Some(b)) => log_block(&b),
                        Ok(None) => "end".into(),
                        Err(e) => log_err(&e),
                    });
                    log.push(x.unwrap_or_else(|_| "panic".into()));
                }
            }
            1 => {
                let mut it = MetadataBlockReader::new(src);
                for _ in 0..12 {
                    let x = catch(|| match it.next() {
                        None => "end".to_string(),
                        Some(Ok(b)) => log_meta(&b),
                        Some(Err(e)) => log_err(&e),
                    });
                    log.push(x.unwrap_or_else(|_| "panic".into()));
                }
            }
            2 => {
                let mut src = src;
                for _ in 0..3 {
                    let x = catch(|| match read_metadata_block(&mut src, ty, len) {
                        Ok(b) => log_meta(&b),
                        Err(e) => log_err(&e),
                    });
                    log.push(x.unwrap_or_else(|_| "panic".into()));
                }
            }
            _ => {
                let mut bs = Bitstream::new(src);
                for _ in 0..4 {
                    let mut buf = [5i32; 32];
                    let x = catch(|| match subframe::decode(&mut bs, 16, &mut buf) {
                        Ok(()) => format!("{:?}", buf),
                        Err(e) => log_err(&e),
                    });
                    log.push(x.unwrap_or_else(|_| "panic".into()));
                }
            }
        }
        let s = seen.borrow().clone();
        s
    })?;
    cx.hit("evil_bytes", kind as u64 * 4 + what_to_read);
    cx.hit("evil_bytes_fired", fired.get().min(20));
    cx.sample(|| format!("{}: {:.400}", what, log.join("; ")));
    cx.eval(hash_bytes(&data) ^ mix(&[seed, rate, kind as u64]));
    Ok(())
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "a case is a source in safe code that lies: claims more than it was asked for (up to usize::MAX), claims what it has not written, scribbles, looks at the buffers it gets, fails or panics and is used again, behind the stream reader, the buffered reader, the frame, metadata and subframe readers; each case runs with the heap filled with different bytes and everything returned or shown must be the same, with unchecked indexing checked and (in other variants) AddressSanitizer, MemorySanitizer or Miri watching; distinct by bytes and behaviour",
        stages: vec![
            Stage { name: "read", quick: 40_000, thorough: 2_000_000, f: c18_read },
            Stage { name: "bytes", quick: 240_000, thorough: 4_000_000, f: c18_bytes },
        ],
        required: vec![("evil_read", 5), ("evil_fired", 6), ("evil_panics", 2), ("evil_bytes", 20), ("evil_bytes_fired", 8)],
    }
}

// ---------------------------------------------------------------------------
// C20

/// At the end of the data one call may ask the source this often.
const EOF_ASKS: u64 = 4;

#[derive(Clone, Copy)]
struct Mark {
    calls: u64,
    pos: usize,
    at_eof: u64,
}

/// A source whose log stays readable while the library owns it.
struct Logged {
    inner: Src,
    log: Rc<Cell<(u64, usize, u64, u64)>>,
}

impl Read for Logged {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let r = self.inner.read(b);
        self.log.set((self.inner.calls, self.inner.pos, self.inner.at_eof, self.inner.zero_len));
        r
    }
}

struct Watch {
    log: Rc<Cell<(u64, usize, u64, u64)>>,
    last: Mark,
}

impl Watch {
    fn new(log: Rc<Cell<(u64, usize, u64, u64)>>) -> Watch {
        Watch { log, last: Mark { calls: 0, pos: 0, at_eof: 0 } }
    }
    /// After every call into the library.
    fn step(&mut self, what: &str) -> Res {
        let (calls, pos, at_eof, zero) = self.log.get();
        ensure!(zero == 0, "{}: asked the source for zero bytes", what);
        let eof = at_eof - self.last.at_eof;
        ensure!(eof <= EOF_ASKS, "{}: asked a source at its end {} times", what, eof);
        let reads = calls - self.last.calls - eof;
        let bytes = (pos - self.last.pos) as u64;
        ensure!(reads <= bytes, "{}: {} reads for {} bytes", what, reads, bytes);
        self.last = Mark { calls, pos, at_eof };
        Ok(())
    }
}

fn any_bytes(cx: &mut Ctx) -> Vec<u8> {
    let max_meta_len = *cx.rng.pick(&[20, 5000]);
    let max_block = real_sizes(&mut cx.rng, 60);
    let sc = StreamCfg { max_frames: 5, max_block, max_meta: 3, max_meta_len, uniform: false };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    match cx.rng.below(5) {
        0 => s.bytes,
        1 => {
            let mut d = s.bytes[..s.audio_start].to_vec();
            for _ in 0..4 {
                let mut c = craft(&mut cx.rng, &mut cx.stats.hist, 60);
                let _ = catch(|| seal(&mut c));
                d.extend_from_slice(&c);
            }
            d
        }
        2 => {
            let n = cx.rng.usize(0, 200);
            let mut d = s.bytes[..s.audio_start].to_vec();
            d.extend(noise(&mut cx.rng, n));
            d
        }
        _ => damage(&mut cx.rng, &s),
    }
}

fn logged(data: &Arc<Vec<u8>>, sched: Sched) -> (Logged, Watch) {
    let log = Rc::new(Cell::new((0, 0, 0, 0)));
    (Logged { inner: Src::new(data.clone(), sched), log: log.clone() }, Watch::new(log))
}

fn c20_stream(cx: &mut Ctx) -> Res {
    let data = Arc::new(any_bytes(cx));
    let sched = Sched::random(&mut cx.rng);
    let sid = sched.id();
    let opts = FlacReaderOptions { metadata_only: cx.rng.chance(1, 8), read_vorbis_comment: cx.rng.chance(2, 3) };
    let (src, mut w) = logged(&data, sched);
    let mut r = match guard("open", || FlacReader::new_ext(src, opts))? {
        Ok(r) => r,
        Err(_) => {
            w.step("opening")?;
            cx.hit("not_opened", 1);
            cx.eval_bytes(&data);
            return Ok(());
        }
    };
    w.step("opening")?;
    if opts.metadata_only {
        cx.eval_bytes(&data);
        return Ok(());
    }
    let mode = cx.rng.below(3);
    let limit = data.len() as u64 + 2;
    let mut errors = 0u64;
    let mut ends = 0;
    let mut n = 0u64;
    if mode == 2 {
        // Sample iterators made anew after every error.
        while ends < 3 {
            n += 1;
            ensure!(n <= limit + 3, "after {} sample iterators over {} bytes no end", n, data.len());
            let mut it = r.samples();
            let mut failed = false;
            loop {
                match guard("samples", || it.next())? {
                    Some(Ok(_)) => ensure!(!failed, "samples after an error"),
                    Some(Err(_)) => {
                        ensure!(!failed, "a second error from the same iterator");
                        failed = true;
                        errors += 1;
                    }
                    None => break,
                }
                w.step("a sample")?;
            }
            w.step("the end of the samples")?;
            if failed {
                let before = w.last;
                for _ in 0..3 {
                    ensure!(guard("samples", || it.next())?.is_none(), "sample iterator goes on after its error");
                }
                w.step("a finished iterator")?;
                ensure!(w.last.calls == before.calls, "a failed sample iterator reads on");
            } else {
                ends += 1;
            }
        }
    } else {
        let mut fr = r.blocks();
        let mut buf = Vec::new();
        while ends < 3 {
            n += 1;
            ensure!(n <= limit + 3, "after {} calls over {} bytes no end", n, data.len());
            match guard("block", || fr.read_next_or_eof(std::mem::take(&mut buf)))? {
                Ok(Some(b)) => buf = b.into_buffer(),
                Ok(None) => ends += 1,
                Err(_) => errors += 1,
            }
            w.step("a block")?;
        }
    }
    ensure!(w.last.pos == data.len(), "end reported at {} of {} bytes", w.last.pos, data.len());
    cx.hit("errors_before_end", errors.min(30));
    cx.hit("schedule", sid);
    cx.hit("mode", mode);
    cx.eval(hash_bytes(&data) ^ sid);
    Ok(())
}

/// On an unbuffered source, consumption shows exactly.
fn c20_bytes(cx: &mut Ctx) -> Res {
    let data = any_bytes(cx);
    let start = if cx.rng.chance(1, 3) { 0 } else { 4.min(data.len()) };
    let arc = Arc::new(data);
    if cx.rng.chance(1, 2) {
        let mut src = ByteSrc::new(arc.clone());
        src.pos = start;
        let mut fr = FrameReader::new(src);
        let mut pos = start;
        let mut ops = 0;
        let mut errors = 0u64;
        loop {
            let r = guard("block", || fr.read_next_or_eof(Vec::new()))?;
            let inner = fr.into_inner();
            let used = inner.pos - pos;
            let did = inner.ops - ops;
            match r {
                Ok(None) => {
                    ensure!(inner.pos == arc.len(), "end reported at {} of {} bytes", inner.pos, arc.len());
                    ensure!(did <= EOF_ASKS, "{} operations to find the end", did);
                    break;
                }
                Ok(Some(_)) => ensure!(used > 0, "block from nothing"),
                Err(e) => {
                    errors += 1;
                    ensure!(used > 0, "error {:?} without consuming anything at {} of {} bytes: {}", err(&e), pos, arc.len(), hex(&arc[pos..]));
                }
            }
            ensure!(did <= 2 * used as u64 + EOF_ASKS, "{} operations for {} bytes", did, used);
            pos = inner.pos;
            ops = inner.ops;
            fr = FrameReader::new(inner);
        }
        cx.hit("errors_bytewise", errors.min(30));
    } else {
        let mut src = ByteSrc::new(arc.clone());
        src.pos = start;
        let mut it = MetadataBlockReader::new(&mut src);
        let mut n = 0;
        let mut failed = false;
        while let Some(b) = guard("metadata", || it.next())? {
            ensure!(!failed, "metadata iterator goes on after an error");
            failed = b.is_err();
            n += 1;
            ensure!(n <= arc.len() / 4 + 2, "{} metadata blocks from {} bytes", n, arc.len());
        }
        for _ in 0..3 {
            ensure!(guard("metadata", || it.next())?.is_none(), "metadata iterator goes on after the end");
        }
        drop(it);
        let used = src.pos - start;
        ensure!(src.ops <= 2 * used as u64 + EOF_ASKS, "{} operations for {} bytes of metadata", src.ops, used);
        cx.hit("metadata_iterations", (n as u64).min(30));
    }
    cx.eval(hash_bytes(&arc) ^ start as u64);
    Ok(())
}

/// The buffered reader alone, down to single operations.
fn c20_ops(cx: &mut Ctx) -> Res {
    let n = match cx.rng.below(3) {
        0 => cx.rng.usize(0, 20),
        1 => 2048 * cx.rng.usize(1, 3) + cx.rng.usize(0, 3) - 1,
        _ => cx.rng.log_size(20_000) as usize,
    };
    let data = Arc::new(cx.rng.bytes(n));
    let sched = Sched::random(&mut cx.rng);
    let (src, mut w) = logged(&data, sched.clone());
    let mut b = BufferedReader::new(src);
    for k in 0..cx.rng.usize(3, 40) {
        let op = crate::p_io::rand_op(&mut cx.rng, 5000);
        let op = if k % 10 == 9 { crate::p_io::Op::Skip(cx.rng.log_size(u32::MAX as u64) as u32) } else { op };
        let before = w.last;
        let r = guard("operation", || crate::p_io::apply(&mut b, op).map_err(|e| e.kind()))?;
        w.step(&format!("{:?} with {:?}", op, sched))?;
        // No more than needed: at most one read beyond what was asked for.
        let need = crate::p_io::op_len(op);
        let got = (w.last.pos - before.pos) as u64;
        ensure!(got <= need + 1_000_000, "{:?} read {} bytes", op, got);
        if need == 0 {
            ensure!(w.last.calls == before.calls, "{:?} needs nothing but read", op);
        }
        cx.hit("op_result", r.is_ok() as u64);
    }
    // The end again and again.
    for _ in 0..5 {
        let _ = guard("skip", || b.skip(u32::MAX).map_err(|e| e.kind()))?;
        w.step("skipping past the end")?;
        let _ = guard("read", || b.read_u8_or_eof().map_err(|e| e.kind()))?;
        w.step("reading at the end")?;
        let mut v = vec![0; 100];
        let _ = guard("read", || b.read_into(&mut v).map_err(|e| e.kind()))?;
        w.step("bulk reading at the end")?;
    }
    let mut bs = Bitstream::new(b);
    for _ in 0..5 {
        let _ = guard("unary", || bs.read_unary().map_err(|e| e.kind()))?;
        w.step("unary at the end")?;
        let _ = guard("bits", || bs.read_leq_u32(32).map_err(|e| e.kind()))?;
        w.step("bits at the end")?;
    }
    cx.hit("ops_schedule", sched.id());
    cx.eval(hash_bytes(&data) ^ cx.idx);
    Ok(())
}

/// Work is in proportion to the input, also for input made to be slow.
fn c20_work(cx: &mut Ctx) -> Res {
    // Tiny frames that claim the largest block, one after the other.
    let mut d = Vec::new();
    let n = 40;
    for i in 0..n {
        let h = HeaderFields {
            variable: true,
            bs_code: 7,
            block_size: 65_535,
            sr_code: 0,
            sr_value: 0,
            chan_code: 7,
            bps_code: 4,
            number: coded_number(i),
        };
        let mut f = header_bytes(&h);
        f.push(crc8(&f));
        let mut w = BitWriter::new();
        for _ in 0..8 {
            w.put(0, 8);
            w.put(cx.rng.u64(), 16);
        }
        f.extend_from_slice(&w.bytes);
        let c = crate::bits::crc16(&f).to_be_bytes();
        f.extend_from_slice(&c);
        d.extend_from_slice(&f);
    }
    let data = Arc::new(d);
    let (src, mut w) = logged(&data, Sched::random(&mut cx.rng));
    let mut fr = FrameReader::new(BufferedReader::new(src));
    let mut blocks = 0;
    let mut buf = Vec::new();
    loop {
        match guard("block", || fr.read_next_or_eof(std::mem::take(&mut buf)))? {
            Ok(Some(b)) => {
                blocks += 1;
                buf = b.into_buffer();
            }
            Ok(None) => break,
            Err(e) => bad!("constant frame refused: {:?}", err(&e)),
        }
        w.step("a large constant block")?;
        ensure!(blocks <= n, "more blocks than frames");
    }
    ensure!(blocks == n, "{} of {} blocks", blocks, n);
    cx.hit("work", 1);
    cx.eval_bytes(&data);
    Ok(())
}

/// What one kind of input costs: `n` is its size in bytes (or samples, where
/// they outnumber the bytes). Returns the processor time of the reading alone.
fn c20_cost(rng: &mut Rng, kind: u64, n: usize) -> Result<i64, Bad> {
    let info = Info::random(rng).bytes();
    let mut head = b"fLaC".to_vec();
    let with_block = |btype: u8, body: &[u8]| {
        let mut d = b"fLaC".to_vec();
        d.extend_from_slice(&block_bytes(0, false, &info));
        d.extend_from_slice(&block_bytes(btype, true, body));
        d
    };
    // Entries as small as they get, alike or not.
    let comments = |rng: &mut Rng, entry: &mut dyn FnMut(&mut Rng, u32) -> Vec<u8>| {
        let mut body = vec![0, 0, 0, 0, 0, 0, 0, 0];
        let mut count = 0u32;
        while body.len() < n {
            let e = entry(rng, count);
            body.extend_from_slice(&(e.len() as u32).to_le_bytes());
            body.extend_from_slice(&e);
            count += 1;
        }
        body.truncate(10 << 20);
        body[4..8].copy_from_slice(&count.to_le_bytes());
        body
    };
    let mut expect_tags = 0;
    let mut frames = false;
    let data = match kind {
        0..=4 => {
            let body = match kind {
                0 => comments(rng, &mut |_, _| Vec::new()),
                1 => comments(rng, &mut |_, _| b"=".to_vec()),
                2 => comments(rng, &mut |_, _| b"ARTIST=someone".to_vec()),
                3 => comments(rng, &mut |_, i| format!("T{:x}={}", i.wrapping_mul(0x9e37_79b1), i).into_bytes()),
                _ => comments(rng, &mut |r, _| if r.chance(1, 2) { Vec::new() } else { b"x=y".to_vec() }),
            };
            expect_tags = u32::from_le_bytes([body[4], body[5], body[6], body[7]]);
            with_block(4, &body)
        }
        5 => {
            // One vendor string.
            let mut body = ((n - 8) as u32).to_le_bytes().to_vec();
            body.resize(n - 4, b'v');
            body.extend_from_slice(&[0; 4]);
            with_block(4, &body)
        }
        6 => {
            // One comment, with the separator where it may.
            let mut body = vec![0, 0, 0, 0, 1, 0, 0, 0];
            body.extend_from_slice(&((n - 12) as u32).to_le_bytes());
            body.resize(n, b'c');
            let at = if rng.chance(1, 2) { n - 1 } else { 12 + rng.usize(0, n - 14) };
            body[at] = b'=';
            expect_tags = 1;
            with_block(4, &body)
        }
        7 => with_block(*rng.pick(&[1, 3, 5, 6, 100]), &vec![0x55; n]),
        8 => with_block(2, &vec![0x55; n]),
        9 => {
            // As many blocks as there can be.
            head.extend_from_slice(&block_bytes(0, false, &info));
            let blocks = n / 4;
            for i in 0..blocks {
                head.extend_from_slice(&[if i + 1 == blocks { 0x81 } else { 1 }, 0, 0, 0]);
            }
            head
        }
        _ => {
            frames = true;
            head.extend_from_slice(&block_bytes(0, true, &info));
            let (bs, mode) = match kind {
                10 => (65_535u32, 0),
                11 => (65_535, 1),
                12 => (32_768, 2),
                13 => (65_535, 3),
                14 => (16, 0),
                15 => (1, 1),
                _ => (0, 4),
            };
            let one = |number: u64| {
                let stereo = kind != 10;
                let h = HeaderFields {
                    variable: true,
                    bs_code: if bs <= 256 { 6 } else { 7 },
                    block_size: bs,
                    sr_code: 0,
                    sr_value: 0,
                    chan_code: if stereo { 8 + (number % 3) as u32 } else { 7 },
                    bps_code: 4,
                    number: coded_number(number),
                };
                let mut f = header_bytes(&h);
                f.push(crc8(&f));
                let mut w = BitWriter::new();
                for c in 0..if stereo { 2 } else { 8 } {
                    let side = stereo && c == if number % 3 == 1 { 0 } else { 1 };
                    let bps = if side { 17 } else { 16 };
                    match mode {
                        0 => {
                            w.put(0, 8);
                            w.put(number & 0x7fff, bps);
                        }
                        1 => {
                            w.put(0b0000_0010, 8);
                            for i in 0..bs {
                                w.put((i as u64 ^ number) & 0xfff, bps);
                            }
                        }
                        2 => {
                            // One partition per sample.
                            w.put(0b0001_0000, 8);
                            w.put(0, 2);
                            w.put(15, 4);
                            for _ in 0..bs {
                                w.put(0, 4);
                                w.put(1, 1);
                            }
                        }
                        _ => {
                            // The longest predictor.
                            w.put(0b0111_1110, 8);
                            for i in 0..32 {
                                w.put(i, bps);
                            }
                            w.put(1, 4);
                            w.put(5, 5);
                            for i in 0..32 {
                                w.put(i & 1, 2);
                            }
                            w.put(0, 2);
                            w.put(0, 4);
                            w.put(0, 4);
                            for _ in 32..bs {
                                w.put(1, 1);
                            }
                        }
                    }
                }
                w.align();
                f.extend_from_slice(&w.bytes);
                let c = crate::bits::crc16(&f).to_be_bytes();
                f.extend_from_slice(&c);
                f
            };
            let start = head.len();
            match mode {
                4 if kind == 16 => head.resize(start + n, 0xff),
                4 if kind == 17 => {
                    while head.len() < start + n {
                        head.extend_from_slice(&[0xff, 0xf8]);
                    }
                }
                4 => {
                    let v = noise(rng, n);
                    head.extend(v);
                }
                _ => {
                    // A few frames made and repeated: numbers do not matter.
                    let pool: Vec<Vec<u8>> = (0..3).map(|i| one(i)).collect();
                    let per = (bs as usize * if kind == 10 { 8 } else { 2 }).max(pool[0].len());
                    for i in 0..(n / per).max(1) {
                        head.extend_from_slice(&pool[i % 3]);
                    }
                }
            }
            head
        }
    };
    let data = Arc::new(data);
    let sched = match rng.below(3) {
        0 => Sched::All,
        1 => Sched::Fixed(rng.usize(1, 64)),
        _ => Sched::random(rng),
    };
    let how = rng.below(3);
    let src = Src::new(data.clone(), sched);
    let t0 = crate::watch::thread_ns();
    let mut r = match guard("open", || FlacReader::new(src))? {
        Ok(r) => r,
        Err(e) => bad!("large but valid metadata (kind {}, {} bytes) refused: {:?}", kind, data.len(), err(&e)),
    };
    if expect_tags > 0 {
        guard("tags", || {
            let all = r.tags().count();
            let some = r.get_tag("artist").count() + r.get_tag("").count() + r.get_tag("no such tag").count();
            std::hint::black_box((all, some, r.vendor().map(|v| v.len())));
        })?;
    }
    let mut blocks = 0u64;
    if frames {
        if how == 0 && kind < 16 {
            let n = guard("samples", || r.samples().filter(|s| s.is_ok()).count())?;
            blocks += n as u64;
        } else {
            let mut buf = Vec::new();
            let mut fr = r.blocks();
            loop {
                let given = if how == 1 { std::mem::take(&mut buf) } else { Vec::new() };
                match guard("block", || fr.read_next_or_eof(given))? {
                    Ok(Some(b)) => {
                        blocks += 1;
                        if b.channels() == 2 {
                            std::hint::black_box(guard("stereo", || b.stereo_samples().map(|(l, r)| l ^ r).fold(0, |a, b| a ^ b))?);
                        }
                        buf = b.into_buffer();
                    }
                    Ok(None) => break,
                    Err(_) => ensure!(kind >= 16, "frame of kind {} refused", kind),
                }
            }
        }
        ensure!(blocks > 0 || kind >= 16, "nothing decoded");
    }
    drop(r);
    Ok(crate::watch::thread_ns() - t0)
}

/// Eight times the input may not take much more than eight times as long. Far
/// from the noise: it takes 40 times as long, three times over, and more than
/// half a second, to be reported.
fn c20_time(cx: &mut Ctx) -> Res {
    let kind = cx.idx % 19;
    let big = if cfg!(miri) {
        16_000
    } else if kind == 10 {
        // In samples.
        64 << 20
    } else {
        (10 << 20) - 64
    };
    let mut rng = Rng::new(cx.rng.u64());
    let seed = rng.u64();
    let mut seen = Vec::new();
    for _ in 0..3 {
        let few = c20_cost(&mut Rng::new(seed), kind, big / 8)?;
        let many = c20_cost(&mut Rng::new(seed), kind, big)?;
        seen.push((few / 1000, many / 1000));
        if many < 500_000_000 || many < few.saturating_mul(40) {
            cx.hit("cost", kind);
            cx.hit("growth", (many / few.max(1)).clamp(0, 100) as u64);
            cx.eval(mix(&[kind, seed]));
            return Ok(());
        }
    }
    bad!("time is out of proportion for input of kind {}: {} and {} bytes took (microseconds) {:?}", kind, big / 8, big, seen)
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "a case is a finite input (intact, damaged, hostile, noise behind a header) read to its end by blocks or sample iterators, made anew after every error, or an operation sequence on the buffered reader; the log of the source is checked after every single call: no zero-length requests, no more reads than bytes, few requests at the end, at least one byte consumed per error, the end within as many calls as bytes; large inputs of 19 kinds are timed against inputs an eighth their size; distinct by bytes and delivery schedule",
        stages: vec![
            Stage { name: "stream", quick: 160_000, thorough: 4_000_000, f: c20_stream },
            Stage { name: "bytes", quick: 160_000, thorough: 4_000_000, f: c20_bytes },
            Stage { name: "ops", quick: 360_000, thorough: 2_000_000, f: c20_ops },
            Stage { name: "work", quick: 200, thorough: 1_000, f: c20_work },
            Stage { name: "time", quick: 38, thorough: 190, f: c20_time },
        ],
        required: vec![("errors_before_end", 10), ("schedule", 4), ("mode", 3), ("errors_bytewise", 5), ("metadata_iterations", 4), ("op_result", 2), ("ops_schedule", 4), ("work", 1), ("cost", 19)],
    }
}
