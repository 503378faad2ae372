//! Hostile frames: any field may take any value the bit layout can hold, and
//! checksums are made right afterwards, so that nothing is refused early.

use crate::bits::{crc16, crc8, BitWriter};
use crate::gen::*;
use crate::rng::Rng;
use crate::src::ByteSrc;
use crate::stats::Hist;
use claxon::frame::FrameReader;
use std::sync::Arc;

/// Any subframe fields, mostly plausible, one or two of them not.
pub fn any_subframe(rng: &mut Rng, w: &mut BitWriter, n: usize, bps: u32, hist: &mut Hist) {
    let ty = match rng.below(10) {
        0 => 0,
        1 => 1,
        2..=4 => rng.range(8, 12),
        5..=8 => rng.range(32, 63),
        _ => rng.below(64),
    };
    w.put(rng.chance(1, 60) as u64, 1);
    w.put(ty, 6);
    let mut bits = bps;
    if rng.chance(1, 4) {
        w.put(1, 1);
        let k = match rng.below(4) {
            0 => rng.below(4),
            1 => bps.saturating_sub(2) as u64,
            2 => rng.below(40),
            _ => rng.below(bps as u64),
        };
        w.unary(k);
        bits = (bps as i64 - k as i64 - 1).max(1) as u32;
    } else {
        w.put(0, 1);
    }
    hist.hit("crafted_type", ty);
    match ty {
        0 => w.put(rng.u64(), bits),
        1 => {
            for _ in 0..n.min(5000) {
                w.put(rng.u64(), bits)
            }
        }
        _ => {
            let order = if ty >= 32 { ty as usize - 31 } else if ty >= 8 { (ty as usize - 8).min(4) } else { 0 };
            // Warm-up at the extremes makes the prediction overflow.
            let style = rng.below(3);
            for _ in 0..order {
                let v = match style {
                    0 => rng.u64(),
                    1 => {
                        if rng.chance(1, 2) {
                            1u64 << (bits - 1)
                        } else {
                            (1u64 << (bits - 1)) - 1
                        }
                    }
                    _ => rng.below(4),
                };
                w.put(v, bits);
            }
            if ty >= 32 {
                let prec = if rng.chance(1, 25) { 16 } else { rng.range(1, 15) as u32 };
                w.put(prec as u64 - 1, 4);
                let shift = if rng.chance(1, 12) { rng.below(32) } else { rng.below(16) };
                w.put(shift, 5);
                for _ in 0..order {
                    let v = match style {
                        1 => *rng.pick(&[1u64 << (prec - 1), (1u64 << (prec - 1)) - 1]),
                        _ => rng.u64(),
                    };
                    w.put(v, prec);
                }
            }
            let method = if rng.chance(1, 25) { rng.below(4) } else { rng.below(2) };
            w.put(method, 2);
            let fits = valid_porders(n, order);
            let po = if fits.is_empty() || rng.chance(1, 5) { rng.below(16) as u32 } else { *rng.pick(&fits) };
            w.put(po as u64, 4);
            hist.hit("crafted_porder", po as u64);
            let pbits = if method == 1 { 5 } else { 4 };
            let parts = 1usize << po;
            let mut left = n;
            for p in 0..parts.min(4096) {
                let len = match rng.below(30) {
                    0 => rng.usize(0, 4),
                    _ => {
                        let l = n >> po;
                        if p == 0 {
                            l.saturating_sub(order)
                        } else {
                            l
                        }
                    }
                };
                let escape = rng.chance(1, 60 + parts as u64);
                let param = if escape { (1 << pbits) - 1 } else { rng.below((1 << pbits) - 1) };
                w.put(param, pbits as u32);
                for _ in 0..len.min(left).min(3000) {
                    let q = match rng.below(40) {
                        0 => rng.log_size(600),
                        _ => rng.below(3),
                    };
                    w.unary(q);
                    if style == 1 {
                        w.put(u64::MAX, param as u32);
                    } else {
                        w.put(rng.u64(), param as u32);
                    }
                }
                left = left.saturating_sub(len);
            }
        }
    }
}

/// A frame (or something close to one) with a valid header checksum.
pub fn craft(rng: &mut Rng, hist: &mut Hist, max_block: u32) -> Vec<u8> {
    let bs = match rng.below(5) {
        0 => rng.range(1, 5) as u32,
        1 => rng.range(1, 40) as u32,
        2 => 16 << rng.below(4),
        _ => pick_block_size(rng, max_block),
    }
    .min(max_block)
    .max(1);
    let bps = *rng.pick(&BPS);
    let kind = rng.below(8);
    hist.hit("crafted_kind", kind);
    if kind == 0 {
        // A valid frame with some of its bits changed.
        let ch = rng.range(1, 4) as u32;
        let mut fc = FrameCfg::new(bs, ch, bps);
        fc.variable = rng.chance(1, 2);
        let f = encode_frame(rng, &fc, hist);
        let mut b = f.bytes;
        for _ in 0..rng.range(1, 4) {
            let i = rng.usize(f.header_len, b.len() - 1);
            match rng.below(4) {
                0 => b[i] = rng.u8(),
                1 => {
                    b.remove(i);
                    if b.len() <= f.header_len {
                        break;
                    }
                }
                2 => b.insert(i, rng.u8()),
                _ => b[i] ^= 1 << rng.below(8),
            }
        }
        return b;
    }
    let chan_code = if rng.chance(1, 2) { rng.range(8, 10) as u32 } else { rng.below(if kind == 1 { 16 } else { 4 }) as u32 };
    let number = {
        let max = if rng.chance(1, 2) { 0x7fff_ffff } else { (1 << 36) - 1 };
        let v = rng.log_size(max);
        coded_number(v)
    };
    let codes = bs_codes(bs);
    let h = HeaderFields {
        variable: rng.chance(1, 2),
        bs_code: *rng.pick(&codes),
        block_size: bs,
        sr_code: rng.range(0, 14) as u32,
        sr_value: rng.u32(),
        chan_code,
        bps_code: if kind == 1 { rng.below(8) as u32 } else { bps_code(bps) },
        number,
    };
    let mut b = header_bytes(&h);
    if kind == 1 && rng.chance(1, 2) {
        let i = rng.usize(0, b.len() - 1);
        b[i] ^= 1 << rng.below(8);
    }
    b.push(crc8(&b));
    if kind == 2 {
        let n = rng.log_size(bs as u64 * 8) as usize;
        let style = rng.below(4);
        for _ in 0..n {
            let v = match style {
                0 => rng.u8(),
                1 => rng.u8() | rng.u8(),
                2 => 0xff,
                _ => rng.u8() & rng.u8() & rng.u8(),
            };
            b.push(v);
        }
        return b;
    }
    let mut w = BitWriter::new();
    let channels = match chan_code {
        0..=7 => chan_code + 1,
        _ => 2,
    };
    for ch in 0..channels {
        let side = match chan_code {
            8 | 10 => ch == 1,
            9 => ch == 0,
            _ => false,
        };
        let bits = bps + side as u32;
        if rng.chance(2, 5) {
            let class = rng.below(N_SIGNALS as u64) as u32;
            let x = signal(rng, bs as usize, bits, class);
            encode_subframe(rng, &mut w, &x, bits, &SubPlan::default(), hist);
        } else {
            any_subframe(rng, &mut w, bs as usize, bits, hist);
        }
    }
    w.align();
    b.extend_from_slice(&w.bytes);
    b
}

/// Makes the frame checksum right at the place where the library looks for it:
/// decodes once, sees how much was consumed, and puts the checksum there.
/// Returns the length of the frame, if it ended within the data.
pub fn seal(data: &mut Vec<u8>) -> Option<usize> {
    // Room for the checksum, if the frame turns out to be exactly this long.
    data.extend_from_slice(&[0x55, 0xaa, 0x55, 0xaa]);
    let mut fr = FrameReader::new(ByteSrc::new(Arc::new(data.clone())));
    let r = fr.read_next_or_eof(Vec::new());
    let end = fr.into_inner().pos;
    match r {
        Ok(Some(_)) => Some(end),
        Ok(None) => None,
        Err(claxon::Error::IoError(_)) => None,
        Err(_) => {
            if end < 8 {
                return None;
            }
            let c = crc16(&data[..end - 2]).to_be_bytes();
            data[end - 2] = c[0];
            data[end - 1] = c[1];
            data.truncate(end);
            Some(end)
        }
    }
}
