//! Reference decoder used as an oracle. One frame at a time from a byte slice,
//! bit by bit, in wide integers. Written from the format description.

use crate::bits::{crc16, crc8, BitModel};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Why {
    Format,
    Unsupported,
    Truncated,
    Crc,
}

#[derive(Clone, Debug)]
pub struct Decoded {
    pub end: usize,
    pub header_len: usize,
    pub block_size: u32,
    pub channels: u32,
    pub bps: u32,
    pub variable: bool,
    pub number: u64,
    pub samples: Vec<Vec<i32>>,
    /// Every value stayed within the range the format prescribes, so the
    /// samples are well defined. Otherwise only the shape is.
    pub exact: bool,
    /// The encoding does something on which the format or the library's
    /// documentation leaves room (padding bits set, number not in shortest
    /// form, side channel beyond range); acceptance is then not judged.
    pub grey: bool,
    pub header_crc_ok: bool,
    pub frame_crc_ok: bool,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Eof,
    Frame(Box<Decoded>),
    Bad(Why),
}

/// `check_crc`: with false, checksum mismatches are only noted.
pub fn frame(data: &[u8], check_crc: bool) -> Outcome {
    if data.is_empty() {
        return Outcome::Eof;
    }
    match frame_inner(data, check_crc) {
        Ok(d) => Outcome::Frame(Box::new(d)),
        Err(w) => Outcome::Bad(w),
    }
}

type R<T> = Result<T, Why>;

fn t<T>(o: Option<T>) -> R<T> {
    o.ok_or(Why::Truncated)
}

fn frame_inner(data: &[u8], check_crc: bool) -> R<Decoded> {
    let mut m = BitModel::new(data);
    let mut grey = false;
    let mut exact = true;
    if t(m.get(14))? != 0x3ffe {
        return Err(Why::Format);
    }
    if t(m.get(1))? != 0 {
        return Err(Why::Format);
    }
    let variable = t(m.get(1))? == 1;
    let bs_code = t(m.get(4))?;
    let sr_code = t(m.get(4))?;
    if bs_code == 0 || sr_code == 15 {
        return Err(Why::Format);
    }
    let cc = t(m.get(4))?;
    let bc = t(m.get(3))?;
    let res = t(m.get(1))?;
    if cc > 10 || bc == 3 || bc == 7 || res != 0 {
        return Err(Why::Format);
    }
    // Coded number.
    let lead = t(m.get(8))? as u8;
    let ones = lead.leading_ones();
    let number;
    match ones {
        0 => number = lead as u64,
        1 => return Err(Why::Format),
        8 => return Err(Why::Format),
        _ => {
            let mut v = (lead as u64) & (0x7f >> ones);
            for _ in 1..ones {
                let b = t(m.get(8))?;
                if b >> 6 != 2 {
                    return Err(Why::Format);
                }
                v = v << 6 | (b & 0x3f);
            }
            number = v;
            if crate::gen::coded_number(v).len() != ones as usize {
                grey = true;
            }
        }
    }
    if !variable && number > 0x7fff_ffff {
        return Err(Why::Format);
    }
    let block_size = match bs_code {
        1 => 192,
        2..=5 => 576 << (bs_code - 2),
        6 => t(m.get(8))? + 1,
        7 => t(m.get(16))? + 1,
        c => 256 << (c - 8),
    } as u32;
    if block_size > 65535 {
        return Err(Why::Format);
    }
    match sr_code {
        12 => {
            t(m.get(8))?;
        }
        13 | 14 => {
            t(m.get(16))?;
        }
        _ => {}
    }
    let hdr_end = (m.pos / 8) as usize;
    let c8 = t(m.get(8))? as u8;
    let header_crc_ok = c8 == crc8(&data[..hdr_end]);
    if !header_crc_ok && check_crc {
        return Err(Why::Crc);
    }
    let header_len = hdr_end + 1;
    let bps = match bc {
        0 => return Err(Why::Unsupported),
        1 => 8,
        2 => 12,
        4 => 16,
        5 => 20,
        _ => 24,
    };
    let channels = if cc < 8 { cc as u32 + 1 } else { 2 };
    let n = block_size as usize;
    let mut subs = Vec::new();
    for ch in 0..channels {
        let side = (cc == 8 && ch == 1) || (cc == 9 && ch == 0) || (cc == 10 && ch == 1);
        let s = subframe(&mut m, bps + side as u32, n)?;
        exact &= s.exact;
        subs.push(s.samples);
    }
    if !m.align() {
        grey = true;
    }
    let body_end = m.byte_pos();
    let c16 = t(m.get(16))? as u16;
    let frame_crc_ok = c16 == crc16(&data[..body_end]);
    if !frame_crc_ok && check_crc {
        return Err(Why::Crc);
    }
    match cc {
        8 => {
            for i in 0..n {
                subs[1][i] = subs[0][i] - subs[1][i];
            }
        }
        9 => {
            for i in 0..n {
                subs[0][i] += subs[1][i];
            }
        }
        10 => {
            for i in 0..n {
                let side = subs[1][i];
                let mid = (subs[0][i] << 1) | (side & 1);
                subs[0][i] = (mid + side) >> 1;
                subs[1][i] = (mid - side) >> 1;
            }
        }
        _ => {}
    }
    let lim = 1i64 << (bps - 1);
    let mut samples = Vec::new();
    for c in subs {
        for &v in &c {
            if v < -lim || v >= lim {
                exact = false;
            }
        }
        samples.push(c.iter().map(|&v| v as i32).collect());
    }
    Ok(Decoded {
        end: body_end + 2,
        header_len,
        block_size,
        channels,
        bps,
        variable,
        number,
        samples,
        exact,
        grey,
        header_crc_ok,
        frame_crc_ok,
    })
}

pub struct Sub {
    pub samples: Vec<i64>,
    pub exact: bool,
}

fn wrap(v: i128, exact: &mut bool) -> i64 {
    if v < i32::MIN as i128 || v > i32::MAX as i128 {
        *exact = false;
    }
    v as i32 as i64
}

pub fn subframe(m: &mut BitModel, bps: u32, n: usize) -> R<Sub> {
    let mut exact = true;
    if t(m.bit())? {
        return Err(Why::Format);
    }
    let ty = t(m.get(6))? as u32;
    let reserved = match ty {
        0 | 1 => false,
        8..=12 => false,
        32..=63 => false,
        _ => true,
    };
    if reserved {
        return Err(Why::Format);
    }
    let mut wasted = 0u64;
    if t(m.bit())? {
        wasted = t(m.unary())? + 1;
    }
    if wasted >= bps as u64 {
        return Err(Why::Format);
    }
    let bits = bps - wasted as u32;
    let mut x: Vec<i64> = Vec::with_capacity(n);
    match ty {
        0 => {
            let v = t(m.get_signed(bits))?;
            x.resize(n, v);
        }
        1 => {
            for _ in 0..n {
                x.push(t(m.get_signed(bits))?);
            }
        }
        _ => {
            let lpc = ty >= 32;
            let order = if lpc { ty as usize - 31 } else { ty as usize - 8 };
            if order > n {
                return Err(Why::Format);
            }
            for _ in 0..order {
                x.push(t(m.get_signed(bits))?);
            }
            let mut coefs: Vec<i64> = Vec::new();
            let mut shift = 0;
            if lpc {
                let prec = t(m.get(4))? as u32 + 1;
                if prec == 16 {
                    return Err(Why::Format);
                }
                let s = t(m.get_signed(5))?;
                if s < 0 {
                    return Err(Why::Unsupported);
                }
                shift = s as u32;
                for _ in 0..order {
                    coefs.push(t(m.get_signed(prec))?);
                }
            } else {
                coefs = crate::gen::FIXED[order].to_vec();
            }
            let method = t(m.get(2))?;
            if method > 1 {
                return Err(Why::Format);
            }
            let po = t(m.get(4))? as u32;
            let parts = 1usize << po;
            if n % parts != 0 || (n >> po) < order {
                return Err(Why::Format);
            }
            let mut res = Vec::with_capacity(n - order);
            for p in 0..parts {
                let len = if p == 0 { (n >> po) - order } else { n >> po };
                let pb = if method == 0 { 4 } else { 5 };
                let param = t(m.get(pb))? as u32;
                if param == (1 << pb) - 1 {
                    return Err(Why::Unsupported);
                }
                for _ in 0..len {
                    let q = t(m.unary())?;
                    let r = t(m.get(param))?;
                    let f = (q as u128) << param | r as u128;
                    if f > u32::MAX as u128 {
                        exact = false;
                    }
                    let f = f as u64 & 0xffff_ffff;
                    let v = if f & 1 == 1 { -((f >> 1) as i64) - 1 } else { (f >> 1) as i64 };
                    res.push(v);
                }
            }
            for r in res {
                let i = x.len();
                let mut s: i128 = 0;
                for (j, &c) in coefs.iter().enumerate() {
                    s += c as i128 * x[i - 1 - j] as i128;
                }
                let v = (s >> shift) + r as i128;
                x.push(wrap(v, &mut exact));
            }
            let lim = 1i64 << (bits - 1);
            if x.iter().any(|&v| v < -lim || v >= lim) {
                exact = false;
            }
        }
    }
    if wasted > 0 {
        for v in &mut x {
            *v = wrap((*v as i128) << wasted, &mut exact);
        }
    }
    Ok(Sub { samples: x, exact })
}
