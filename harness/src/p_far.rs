//! Streams longer than the numbers that count them might be: more than 2^32
//! bytes, bits or samples, more than 2^16 blocks or frames.

use crate::bits::{crc16, crc8, BitWriter};
use crate::core::*;
use crate::drive::*;
use crate::gen::*;
use crate::{bad, ensure};
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::{MetadataBlock, MetadataBlockReader};
use claxon::FlacReader;
use std::io::{self, Read};

/// A source that makes its bytes piece by piece: a few bytes, then a gap of
/// any length.
struct Lazy<F: FnMut() -> Option<(Vec<u8>, u64)>> {
    more: F,
    piece: Vec<u8>,
    at: usize,
    gap: u64,
}

impl<F: FnMut() -> Option<(Vec<u8>, u64)>> Lazy<F> {
    fn new(more: F) -> Lazy<F> {
        Lazy { more, piece: Vec::new(), at: 0, gap: 0 }
    }
}

impl<F: FnMut() -> Option<(Vec<u8>, u64)>> Read for Lazy<F> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = 0;
        while n < buf.len() {
            if self.at < self.piece.len() {
                let k = (self.piece.len() - self.at).min(buf.len() - n);
                buf[n..n + k].copy_from_slice(&self.piece[self.at..self.at + k]);
                self.at += k;
                n += k;
            } else if self.gap > 0 {
                let k = self.gap.min((buf.len() - n) as u64) as usize;
                for b in &mut buf[n..n + k] {
                    *b = 0xa5;
                }
                self.gap -= k as u64;
                n += k;
            } else if let Some((p, g)) = (self.more)() {
                self.piece = p;
                self.at = 0;
                self.gap = g;
            } else {
                break;
            }
        }
        Ok(n)
    }
}

/// The value of channel `c` of frame `i`.
fn value(i: u64, c: u64) -> i32 {
    (((i * 8 + c).wrapping_mul(0x9e37_79b9) >> 7) & 0xff) as i32 - 128
}

/// A frame of constant channels of 8 bits.
fn constants(i: u64, bs: u32, channels: u32, number: u64, variable: bool) -> Vec<u8> {
    let h = HeaderFields {
        variable,
        bs_code: 7,
        block_size: bs,
        sr_code: 0,
        sr_value: 0,
        chan_code: channels - 1,
        bps_code: 1,
        number: coded_number(number),
    };
    let mut f = header_bytes(&h);
    f.push(crc8(&f));
    let mut w = BitWriter::new();
    for c in 0..channels as u64 {
        w.put(0, 8);
        w.put_signed(value(i, c) as i64, 8);
    }
    f.extend_from_slice(&w.bytes);
    let c = crc16(&f).to_be_bytes();
    f.extend_from_slice(&c);
    f
}

fn head(info: &Info) -> Vec<u8> {
    let mut d = b"fLaC".to_vec();
    d.extend_from_slice(&block_bytes(0, true, &info.bytes()));
    d
}

/// A stream of `n` frames of one size, and the last one smaller or not.
fn steady(cx: &mut Ctx, bs: u32, channels: u32, n: u64, variable: bool) -> (impl Read, u32) {
    let mut info = Info::random(&mut cx.rng);
    info.min_bs = bs as u16;
    info.max_bs = bs as u16;
    info.channels = channels;
    let last = if bs > 16 { cx.rng.range(1, bs as u64) as u32 } else { bs };
    let mut i = 0;
    let mut first = Some(head(&info));
    let src = Lazy::new(move || {
        if let Some(h) = first.take() {
            return Some((h, 0));
        }
        if i == n {
            return None;
        }
        let size = if i + 1 == n { last } else { bs };
        let f = constants(i, size, channels, if variable { i * bs as u64 } else { i }, variable);
        i += 1;
        Some((f, 0))
    });
    (src, last)
}

fn small() -> bool {
    cfg!(miri) || cfg!(feature = "san")
}

/// More than 2^32 samples, or more than 2^16 frames, through the blocks.
fn far_blocks(cx: &mut Ctx) -> Res {
    let wide = cx.idx % 2 == 0 && !small();
    let variable = (cx.idx / 2) % 2 == 1;
    let (bs, channels, n) = if wide { (65_535, 8, 8_250) } else { (16, 1, if small() { 300 } else { 140_000 }) };
    let (src, last) = steady(cx, bs, channels, n, variable);
    let mut r = match guard("open", || FlacReader::new(src))? {
        Ok(r) => r,
        Err(e) => bad!("opening a long stream: {:?}", err(&e)),
    };
    let mut fr = r.blocks();
    let mut buf = Vec::new();
    for i in 0..n {
        let size = if i + 1 == n { last } else { bs };
        match guard("block", || fr.read_next_or_eof(std::mem::take(&mut buf)))? {
            Ok(Some(b)) => {
                ensure!(b.time() == i * bs as u64, "block {} of a long stream: time {} instead of {}", i, b.time(), i * bs as u64);
                ensure!(
                    b.duration() == size && b.channels() == channels && b.len() == size * channels,
                    "block {} of a long stream: {} channels of {} samples", i, b.channels(), b.duration()
                );
                for c in 0..channels {
                    let s = b.channel(c);
                    let v = value(i, c as u64);
                    ensure!(
                        s.len() == size as usize && s[0] == v && s[s.len() - 1] == v && s[s.len() / 2] == v,
                        "block {} of a long stream: channel {} differs", i, c
                    );
                }
                buf = b.into_buffer();
            }
            Ok(None) => bad!("the end after {} of {} blocks", i, n),
            Err(e) => bad!("block {} of {} of a long stream: {:?}", i, n, err(&e)),
        }
    }
    match guard("block", || fr.read_next_or_eof(buf))? {
        Ok(None) => {}
        r => bad!("after the end of a long stream: {:?}", r.map(|b| b.map(|_| ())).map_err(|e| err(&e))),
    }
    cx.hit("far_frames", wide as u64);
    cx.eval(cx.idx);
    Ok(())
}

pub fn c01_far(cx: &mut Ctx) -> Res {
    far_blocks(cx)
}

pub fn c15_far(cx: &mut Ctx) -> Res {
    far_blocks(cx)
}

/// More than 2^32 samples, or more than 2^16 frames, through an iterator.
pub fn c14_far(cx: &mut Ctx) -> Res {
    let wide = cx.idx % 4 == 0 && !small();
    let (bs, channels, n) = if wide { (65_535u32, 1, 65_800) } else { (16, 3, if small() { 300 } else { 140_000 }) };
    let (src, last) = steady(cx, bs, channels, n, false);
    let mut r = match guard("open", || FlacReader::new(src))? {
        Ok(r) => r,
        Err(e) => bad!("opening a long stream: {:?}", err(&e)),
    };
    let own = cx.idx % 8 >= 4;
    fn all<I: Iterator<Item = claxon::Result<i32>>>(mut it: I, bs: u32, channels: u32, n: u64, last: u32) -> Res {
        let bad = guard("samples", || {
            for i in 0..n {
                let v: Vec<i32> = (0..channels as u64).map(|c| value(i, c)).collect();
                for s in 0..if i + 1 == n { last } else { bs } {
                    for &v in &v {
                        match it.next() {
                            Some(Ok(x)) if x == v => {}
                            r => return Some((i, s, r.map(|r| r.map_err(|e| err(&e))))),
                        }
                    }
                }
            }
            it.next().map(|r| (n, 0, Some(r.map_err(|e| err(&e)))))
        })?;
        match bad {
            None => Ok(()),
            Some((i, s, r)) => bad!("samples of a long stream: {:?} at sample {} of block {} of {}", r, s, i, n),
        }
    }
    if own {
        all(r.into_samples(), bs, channels, n, last)?;
    } else {
        all(r.samples(), bs, channels, n, last)?;
    }
    cx.hit("far_samples", wide as u64);
    cx.eval(cx.idx);
    Ok(())
}

/// More than 2^32 bytes of metadata, or more than 2^16 blocks.
pub fn c11_far(cx: &mut Ctx) -> Res {
    let wide = cx.idx % 2 == 0 && !small();
    let (n, len) = if wide { (260u64, 0xff_fff0u64) } else { (if small() { 300 } else { 70_000 + cx.rng.below(1000) }, cx.rng.below(3)) };
    let info = Info::random(&mut cx.rng);
    let tags = Tags::random(&mut cx.rng, 3, 10);
    let body = tags.bytes(&mut cx.rng, 0);
    let types: Vec<u8> = (0..16).map(|_| *cx.rng.pick(&[1u8, 3, 5, 6, 7, 126])).collect();
    let mut fc = FrameCfg::new(33, 2, 16);
    fc.variable = true;
    let f = encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist);
    let marker = cx.idx % 4 < 2;
    let make = || {
        let mut i = 0;
        let mut first = if marker { b"fLaC".to_vec() } else { Vec::new() };
        first.extend_from_slice(&block_bytes(0, false, &info.bytes()));
        let mut end = block_bytes(4, true, &body);
        end.extend_from_slice(&f.bytes);
        let types = types.clone();
        Lazy::new(move || {
            i += 1;
            if i == 1 {
                Some((std::mem::take(&mut first), 0))
            } else if i < n + 2 {
                let mut h = (len as u32).to_be_bytes();
                h[0] = types[i as usize % 16];
                Some((h.to_vec(), len))
            } else if i == n + 2 {
                Some((std::mem::take(&mut end), 0))
            } else {
                None
            }
        })
    };
    if marker {
        let evs = guard("much metadata", || stream(make(), 1, 5, false))?;
        match (&evs[0], evs.get(1), evs.get(2)) {
            (Ev::Open { vendor, tags: t, .. }, Some(Ev::Block(b)), Some(Ev::Eof)) => {
                ensure!(vendor.as_ref() == Some(&tags.vendor) && *t == tags.pairs, "tags after {} blocks of {} bytes differ", n, len);
                check_block(b, &f, "after much metadata")?;
            }
            e => bad!("{} blocks of {} bytes, then tags and a frame: {:?}", n, len, e),
        }
    } else {
        let mut it = MetadataBlockReader::new(BufferedReader::new(make()));
        let mut k = 0;
        loop {
            match guard("metadata block", || it.next())? {
                Some(Ok(MetadataBlock::StreamInfo(_))) if k == 0 => {}
                Some(Ok(MetadataBlock::Padding { length })) => ensure!(length as u64 == len, "block {} of {} bytes has {}", k, len, length),
                Some(Ok(MetadataBlock::Reserved)) => {}
                Some(Ok(MetadataBlock::VorbisComment(_))) => ensure!(k == n + 1, "tags are block {} instead of {}", k, n + 1),
                Some(Ok(_)) => bad!("block {} of {} is of another kind", k, n),
                Some(Err(e)) => bad!("block {} of {}: {:?}", k, n, err(&e)),
                None => break,
            }
            k += 1;
        }
        ensure!(k == n + 2, "{} of {} blocks", k, n + 2);
    }
    cx.hit("far_metadata", wide as u64);
    cx.eval(cx.idx);
    Ok(())
}

const PERIOD: usize = 65_521;

/// Bytes of which each is known from where it is.
struct Known {
    table: Vec<u8>,
    pos: u64,
    end: u64,
}

impl Known {
    fn new(end: u64) -> Known {
        Known { table: (0..PERIOD + (1 << 17)).map(|i| Known::at((i % PERIOD) as u64)).collect(), pos: 0, end }
    }
    fn at(pos: u64) -> u8 {
        ((pos % PERIOD as u64).wrapping_mul(0x9e37_79b9) >> 13) as u8
    }
}

impl Read for Known {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(1 << 17).min((self.end - self.pos) as usize);
        let from = (self.pos % PERIOD as u64) as usize;
        buf[..n].copy_from_slice(&self.table[from..from + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

/// The buffered reader beyond 2^32 bytes.
pub fn c17_far(cx: &mut Ctx) -> Res {
    let far: u64 = if small() { 3_000_000 } else { (1 << 32) + 500_000 };
    let mut r = BufferedReader::new(Known::new(far));
    let mut pos = 0u64;
    let mut big = vec![0u8; 300_000];
    let mut near = |pos: u64| small() || pos % (1 << 29) < 1 << 16 || pos + (1 << 20) > 1 << 32;
    let mut what = 0;
    while pos < far {
        let left = far - pos;
        if !near(pos) {
            // Leap to what is of interest.
            let to = ((pos >> 29) + 1 << 29).min((1 << 32) - 70_000).max(pos + 1);
            let n = (to - pos).min(left).min(u32::MAX as u64);
            match guard("skip", || r.skip(n as u32).map_err(|e| e.kind()))? {
                Ok(()) => pos += n,
                Err(e) => bad!("skipping {} bytes at {} of {}: {:?}", n, pos, far, e),
            }
            continue;
        }
        what = cx.rng.below(6);
        let len = match what {
            0 => 1,
            1 => 1,
            2 => 4,
            3 => 3,
            4 => cx.rng.log_size(100_000).max(1) as u64,
            _ => cx.rng.log_size(if small() { 5_000 } else { 200_000 }).max(1) as u64,
        }
        .min(left);
        let want = |k: u64| Known::at(pos + k) as u32;
        let be = |n: u64| (0..n).fold(0u32, |a, k| a << 8 | want(k));
        let got = guard("far read", || -> io::Result<Option<(u32, u32)>> {
            Ok(match (what, len) {
                (0, _) => Some((r.read_u8()? as u32, want(0))),
                (1, _) => Some((r.read_u8_or_eof()?.map_or(999, |b| b as u32), want(0))),
                (2, 4) => Some((r.read_be_u32()?, be(4))),
                (3, 3) => Some((r.read_be_u24()?, be(3))),
                (4, n) => {
                    r.read_into(&mut big[..n as usize])?;
                    None
                }
                (_, n) => {
                    r.skip(n as u32)?;
                    None
                }
            })
        })?;
        match got {
            Ok(Some((a, b))) => ensure!(a == b, "operation {} at byte {}: {:#x} instead of {:#x}", what, pos, a, b),
            Ok(None) => {
                if what == 4 {
                    for (k, &b) in big[..len as usize].iter().enumerate() {
                        ensure!(b as u32 == want(k as u64), "bulk read at byte {}: byte {} differs", pos, k);
                    }
                }
            }
            Err(e) => bad!("operation {} on {} bytes at byte {} of {}: {:?}", what, len, pos, far, e),
        }
        pos += len;
    }
    match guard("the end", || r.read_u8_or_eof())? {
        Ok(None) => {}
        r => bad!("after {} bytes: {:?}", far, r),
    }
    let _ = what;
    cx.hit("far_bytes", 1);
    cx.eval(cx.idx);
    Ok(())
}

/// Bits beyond 2^32.
pub fn c16_far(cx: &mut Ctx) -> Res {
    let far: u64 = if small() { 400_000 } else { (1 << 29) + 100_000 };
    let mut b = Bitstream::new(BufferedReader::new(Known::new(far)));
    let mut done = 0u64;
    let total = far * 8;
    // The bits from `at` on, as the table has them.
    fn bits(at: u64, n: u32) -> u64 {
        let mut v = 0u64;
        let first = at / 8;
        for k in 0..6 {
            v = v << 8 | Known::at(first + k) as u64;
        }
        (v >> (48 - (at % 8) as u32 - n)) & ((1u64 << n) - 1)
    }
    let shift = cx.rng.range(1, 31) as u32;
    let r = guard("far bits", || -> Result<(), Bad> {
        let mut get = |n: u32, done: &mut u64, how: u32| -> Result<(), Bad> {
            let want = bits(*done, n) as u32;
            let got = match (how, n) {
                (0, 1) => b.read_bit().map(|x| x as u32),
                (_, 1..=8) => b.read_leq_u8(n).map(|x| x as u32),
                (0, 9..=16) => b.read_gt_u8_leq_u16(n),
                (_, 9..=16) => b.read_leq_u16(n).map(|x| x as u32),
                _ => b.read_leq_u32(n),
            };
            match got {
                Ok(x) if x == want => {
                    *done += n as u64;
                    Ok(())
                }
                r => Err(Bad(format!("{} bits at bit {} of {}: {:?} instead of {:#x}", n, done, total, r, want))),
            }
        };
        get(shift, &mut done, 1)?;
        while done + 4_000_000 < total {
            get(32, &mut done, 0)?;
        }
        while done + 32 <= total {
            let n = cx.rng.range(1, 32) as u32;
            let how = cx.rng.below(2) as u32;
            get(n, &mut done, how)?;
        }
        Ok(())
    })?;
    r?;
    cx.hit("far_bits", 1);
    cx.eval(cx.idx);
    Ok(())
}
