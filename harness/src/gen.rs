//! Generator of well-formed FLAC streams together with the samples they encode.
//! Written from the format description. It chooses the encoding at random over
//! the whole space the format allows, not the way an encoder would.

use crate::bits::{crc16, crc8, BitWriter};
use crate::rng::Rng;
use crate::stats::Hist;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Indep,
    LeftSide,
    RightSide,
    MidSide,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Constant,
    Verbatim,
    Fixed(u32),
    Lpc(u32),
}

/// What to force in a subframe; everything left out is chosen at random.
#[derive(Clone, Debug, Default)]
pub struct SubPlan {
    pub kind: Option<Kind>,
    pub precision: Option<u32>,
    pub shift: Option<u32>,
    pub rice2: Option<bool>,
    pub param: Option<u32>,
    pub porder: Option<u32>,
    pub wasted: Option<u32>,
    pub coefs: Option<Vec<i64>>,
}

#[derive(Clone, Debug)]
pub struct FrameCfg {
    pub block_size: u32,
    pub channels: u32,
    pub mode: Option<Mode>,
    pub bps: u32,
    pub variable: bool,
    pub number: u64,
    pub bs_code: Option<u32>,
    pub sr_code: Option<u32>,
    pub signal: Option<u32>,
    pub plan: SubPlan,
}

impl FrameCfg {
    pub fn new(block_size: u32, channels: u32, bps: u32) -> FrameCfg {
        FrameCfg {
            block_size,
            channels,
            mode: None,
            bps,
            variable: false,
            number: 0,
            bs_code: None,
            sr_code: None,
            signal: None,
            plan: SubPlan::default(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub bytes: Vec<u8>,
    /// Length of the header including its CRC-8.
    pub header_len: usize,
    pub samples: Vec<Vec<i32>>,
    pub block_size: u32,
    pub bps: u32,
    pub variable: bool,
    pub number: u64,
}

pub const N_SIGNALS: u32 = 13;

fn lo(bits: u32) -> i64 {
    -(1i64 << (bits - 1))
}

fn hi(bits: u32) -> i64 {
    (1i64 << (bits - 1)) - 1
}

/// Samples that fit `bits` bits.
pub fn signal(rng: &mut Rng, n: usize, bits: u32, class: u32) -> Vec<i64> {
    let (l, h) = (lo(bits), hi(bits));
    let clamp = |v: i64| v.max(l).min(h);
    let mut out = Vec::with_capacity(n);
    match class {
        0 => out.resize(n, 0),
        1 => {
            let c = *rng.pick(&[l, h, 0, -1, 1.min(h), l / 2, h / 2]);
            out.resize(n, c);
        }
        2 => {
            let c = rng.irange(l, h);
            out.resize(n, c);
        }
        3 => {
            for _ in 0..n {
                out.push(rng.irange(l, h));
            }
        }
        4 => {
            let amp = 1i64 << rng.below(bits as u64);
            for _ in 0..n {
                out.push(clamp(rng.irange(-amp, amp)));
            }
        }
        5 => {
            let a = rng.irange(0, h) as f64;
            let w = rng.irange(1, 3000) as f64 / 1000.0;
            let p = rng.irange(0, 6000) as f64 / 1000.0;
            for i in 0..n {
                out.push(clamp((a * (w * i as f64 + p).sin()).round() as i64));
            }
        }
        6 => {
            // Polynomial of degree at most 4 in a wrapped argument.
            let mut d: Vec<i64> = (0..5).map(|k| rng.irange(-(1 << k), 1 << k)).collect();
            let mut v = rng.irange(l, h);
            for _ in 0..n {
                out.push(v);
                let span = h - l + 1;
                v = (v + d[0] - l).rem_euclid(span) + l;
                for k in 0..4 {
                    d[k] = (d[k] + d[k + 1]).rem_euclid(1 << 12) - (1 << 11);
                }
            }
        }
        7 => {
            let step = 1i64 << rng.below(bits as u64);
            let mut v = rng.irange(l, h);
            for _ in 0..n {
                out.push(v);
                v = clamp(v + rng.irange(-step, step));
            }
        }
        8 => {
            // Full-scale square, period 2..9.
            let p = rng.usize(1, 4);
            for i in 0..n {
                out.push(if (i / p) % 2 == 0 { h } else { l });
            }
        }
        9 => {
            for _ in 0..n {
                out.push(if rng.chance(1, 40) { rng.irange(l, h) } else { 0 });
            }
        }
        10 => {
            let near = rng.irange(0, 3.min(h));
            for _ in 0..n {
                let d = rng.irange(0, near);
                out.push(if rng.chance(1, 2) { h - d } else { l + d });
            }
        }
        11 => {
            // Quantised: the lowest k bits are zero.
            let k = rng.below(bits as u64) as u32;
            for _ in 0..n {
                out.push((rng.irange(l, h) >> k) << k);
            }
        }
        _ => {
            // Distinct markers: every position identifiable.
            let start = rng.irange(0, h);
            let span = h - l + 1;
            for i in 0..n {
                out.push((start + i as i64 - l).rem_euclid(span) + l);
            }
        }
    }
    if n > 0 && rng.chance(1, 12) {
        for _ in 0..rng.range(1, 3) {
            if let Some(v) = rng.magic(0, h as u64 + 1) {
                let v = if rng.chance(1, 2) { -(v as i64) } else { v as i64 };
                let at = rng.usize(0, n - 1);
                out[at] = clamp(v);
            }
        }
    }
    out
}

pub fn fold(r: i64) -> u64 {
    if r >= 0 {
        (r as u64) << 1
    } else {
        (((-(r + 1)) as u64) << 1) | 1
    }
}

pub const FIXED: [&[i64]; 5] = [&[], &[1], &[2, -1], &[3, -3, 1], &[4, -6, 4, -1]];

/// Residual of a predictor. coefs[0] applies to the previous sample.
/// `None` if some residual does not fit 32 bits.
pub fn residual(x: &[i64], coefs: &[i64], shift: u32) -> Option<Vec<i64>> {
    let o = coefs.len();
    let mut out = Vec::with_capacity(x.len() - o);
    for i in o..x.len() {
        let mut s: i128 = 0;
        for (j, &c) in coefs.iter().enumerate() {
            s += c as i128 * x[i - 1 - j] as i128;
        }
        let r = x[i] as i128 - (s >> shift);
        if r > i32::MAX as i128 || r <= i32::MIN as i128 {
            return None;
        }
        out.push(r as i64);
    }
    Some(out)
}

pub fn valid_porders(bs: usize, order: usize) -> Vec<u32> {
    (0..16u32)
        .filter(|&o| bs % (1 << o) == 0 && (bs >> o) >= order && (bs >> o) > 0)
        .collect()
}

fn cost(part: &[u64], p: u32) -> u64 {
    part.iter().map(|&f| (f >> p) + 1 + p as u64).sum()
}

/// Writes the residual section.
fn write_residual(
    rng: &mut Rng,
    w: &mut BitWriter,
    res: &[i64],
    bs: usize,
    order: usize,
    plan: &SubPlan,
    hist: &mut Hist,
) {
    let orders = valid_porders(bs, order);
    let porder = match plan.porder {
        Some(o) => o,
        None => {
            if rng.chance(1, 6) {
                *orders.last().unwrap()
            } else {
                *rng.pick(&orders)
            }
        }
    };
    let folded: Vec<u64> = res.iter().map(|&r| fold(r)).collect();
    let nparts = 1usize << porder;
    let psize = bs >> porder;
    // A bound on unary runs, so that files stay small. Occasionally generous.
    let generous = match rng.below(360) {
        0 => 600_000,
        1..=30 => 6000,
        _ => 0,
    };
    let want_rice2 = plan.rice2.unwrap_or_else(|| rng.chance(1, 4));
    let mut params = Vec::with_capacity(nparts);
    let mut start = 0;
    let style = rng.below(4);
    for i in 0..nparts {
        let len = if i == 0 { psize - order } else { psize };
        let part = &folded[start..start + len];
        start += len;
        let mean = if len == 0 { 0 } else { part.iter().sum::<u64>() / len as u64 };
        let best = 63 - (mean + 1).leading_zeros().min(63);
        let max_p = if want_rice2 { 30 } else { 14 };
        let mut p = match plan.param {
            Some(p) => p,
            None => match style {
                0 => best,
                1 => (best as i64 + rng.irange(-2, 3)).max(0) as u32,
                2 => rng.range(0, max_p) as u32,
                _ => {
                    if rng.chance(1, 2) {
                        best
                    } else {
                        rng.range(0, max_p) as u32
                    }
                }
            },
        };
        p = p.min(30);
        let cap = 40 * len as u64 + generous;
        while p < 30 && cost(part, p) > cap {
            p += 1;
        }
        params.push(p);
    }
    let rice2 = want_rice2 || params.iter().any(|&p| p > 14);
    hist.hit("rice2", rice2 as u64);
    hist.hit("partition_order", porder as u64);
    if psize == order {
        hist.hit("empty_first_partition", 1);
    }
    w.put(rice2 as u64, 2);
    w.put(porder as u64, 4);
    start = 0;
    for i in 0..nparts {
        let len = if i == 0 { psize - order } else { psize };
        let p = params[i];
        hist.hit(if rice2 { "rice2_param" } else { "rice_param" }, p as u64);
        w.put(p as u64, if rice2 { 5 } else { 4 });
        for &f in &folded[start..start + len] {
            w.unary(f >> p);
            w.put(f & ((1u64 << p) - 1), p);
            let q = f >> p;
            if q > 32 {
                hist.hit("unary_len_log2", 63 - q.leading_zeros() as u64);
            }
        }
        start += len;
    }
}

fn gen_coefs(rng: &mut Rng, order: usize, prec: u32, shift: u32) -> Vec<i64> {
    let (l, h) = (lo(prec), hi(prec));
    let clamp = |v: i64| v.max(l).min(h);
    match rng.below(6) {
        0 => (0..order).map(|_| rng.irange(l, h)).collect(),
        1 => (0..order).map(|_| clamp(rng.irange(-3, 3))).collect(),
        2 => {
            let f = FIXED[rng.usize(1, 4)];
            (0..order)
                .map(|j| {
                    let c = f.get(j).copied().unwrap_or(0) << shift;
                    clamp(c + if rng.chance(1, 4) { rng.irange(-2, 2) } else { 0 })
                })
                .collect()
        }
        3 => {
            let flip = rng.chance(1, 2);
            (0..order).map(|j| if flip && j % 2 == 1 { l } else { h }).collect()
        }
        4 => {
            let at = rng.usize(0, order - 1);
            (0..order).map(|j| if j == at { clamp(1 << shift) } else { 0 }).collect()
        }
        _ => {
            // Every coefficient different, so a swapped one shows.
            (0..order).map(|j| clamp((j as i64 + 1) * if j % 3 == 0 { -1 } else { 1 })).collect()
        }
    }
}

/// Encodes one subframe. Returns the kind it used.
pub fn encode_subframe(
    rng: &mut Rng,
    w: &mut BitWriter,
    x_in: &[i64],
    bits_in: u32,
    plan: &SubPlan,
    hist: &mut Hist,
) -> Kind {
    let n = x_in.len();
    // Wasted bits.
    let all_or = x_in.iter().fold(0i64, |a, &b| a | b);
    let max_wasted = if all_or == 0 {
        bits_in - 1
    } else {
        (all_or.trailing_zeros()).min(bits_in - 1)
    };
    let wasted = match plan.wasted {
        Some(k) if k <= max_wasted => k,
        Some(_) => 0,
        None => {
            if max_wasted > 0 && rng.chance(1, 2) {
                if rng.chance(1, 2) {
                    max_wasted
                } else {
                    rng.range(1, max_wasted as u64) as u32
                }
            } else {
                0
            }
        }
    };
    let bits = bits_in - wasted;
    let x: Vec<i64> = x_in.iter().map(|&v| v >> wasted).collect();
    let constant = x.iter().all(|&v| v == x[0]);

    let mut kind = match plan.kind {
        Some(k) => k,
        None => match rng.below(20) {
            0..=4 if constant => Kind::Constant,
            0..=2 => Kind::Verbatim,
            3..=9 => Kind::Fixed(rng.range(0, 4) as u32),
            10..=15 => Kind::Lpc(rng.range(1, 12) as u32),
            _ => Kind::Lpc(rng.range(1, 32) as u32),
        },
    };
    kind = match kind {
        Kind::Constant if !constant => Kind::Verbatim,
        Kind::Fixed(o) if o as usize > n => Kind::Fixed(n.min(4) as u32),
        Kind::Lpc(o) if o as usize > n => Kind::Lpc(n.min(32) as u32),
        k => k,
    };
    if let Some(po) = plan.porder {
        // A forced partition order limits the predictor order.
        let lim = (n >> po) as u32;
        kind = match kind {
            Kind::Fixed(o) if o > lim => Kind::Fixed(lim),
            Kind::Lpc(o) if o > lim => Kind::Lpc(lim.max(1)),
            k => k,
        };
    }

    // Work out predictor parameters.
    let mut lpc: Option<(u32, u32, Vec<i64>, Vec<i64>)> = None;
    let mut fixed_res: Option<Vec<i64>> = None;
    match kind {
        Kind::Fixed(o) => match residual(&x, FIXED[o as usize], 0) {
            Some(r) => fixed_res = Some(r),
            None => kind = Kind::Verbatim,
        },
        Kind::Lpc(o) => {
            for attempt in 0..6 {
                let prec = plan.precision.unwrap_or_else(|| rng.range(1, 15) as u32);
                let shift = plan.shift.unwrap_or_else(|| {
                    if attempt < 3 {
                        rng.range(0, 15) as u32
                    } else {
                        15
                    }
                });
                let coefs = match &plan.coefs {
                    Some(c) => c.clone(),
                    None if attempt < 4 => gen_coefs(rng, o as usize, prec, shift),
                    None => vec![0; o as usize],
                };
                if let Some(r) = residual(&x, &coefs, shift) {
                    lpc = Some((prec, shift, coefs, r));
                    break;
                }
            }
            if lpc.is_none() {
                kind = Kind::Verbatim;
            }
        }
        _ => {}
    }

    // Header.
    w.bit(false);
    let code = match kind {
        Kind::Constant => 0,
        Kind::Verbatim => 1,
        Kind::Fixed(o) => 8 + o,
        Kind::Lpc(o) => 32 + o - 1,
    };
    w.put(code as u64, 6);
    w.bit(wasted > 0);
    if wasted > 0 {
        w.unary(wasted as u64 - 1);
        hist.hit("wasted_bits", wasted as u64);
    }
    hist.hit("subframe_type_code", code as u64);
    hist.hit("subframe_bits", bits as u64);

    match kind {
        Kind::Constant => w.put_signed(x[0], bits),
        Kind::Verbatim => {
            for &v in &x {
                w.put_signed(v, bits);
            }
        }
        Kind::Fixed(o) => {
            for &v in &x[..o as usize] {
                w.put_signed(v, bits);
            }
            write_residual(rng, w, &fixed_res.unwrap(), n, o as usize, plan, hist);
        }
        Kind::Lpc(o) => {
            let (prec, shift, coefs, res) = lpc.unwrap();
            for &v in &x[..o as usize] {
                w.put_signed(v, bits);
            }
            w.put(prec as u64 - 1, 4);
            w.put(shift as u64, 5);
            for &c in &coefs {
                w.put_signed(c, prec);
            }
            hist.hit("lpc_precision", prec as u64);
            hist.hit("lpc_shift", shift as u64);
            write_residual(rng, w, &res, n, o as usize, plan, hist);
        }
    }
    kind
}

/// The number coding of frame headers, shortest form.
pub fn coded_number(v: u64) -> Vec<u8> {
    let n_extra = match v {
        0..=0x7f => return vec![v as u8],
        0x80..=0x7ff => 1,
        0x800..=0xffff => 2,
        0x1_0000..=0x1f_ffff => 3,
        0x20_0000..=0x3ff_ffff => 4,
        0x400_0000..=0x7fff_ffff => 5,
        _ => 6,
    };
    assert!(v < 1 << 36);
    let lead_mark = !(0xffu32 >> (n_extra + 1)) as u8;
    let mut out = vec![lead_mark | (v >> (6 * n_extra)) as u8];
    for i in (0..n_extra).rev() {
        out.push(0x80 | ((v >> (6 * i)) & 0x3f) as u8);
    }
    out
}

pub fn bs_codes(bs: u32) -> Vec<u32> {
    let mut v = Vec::new();
    if bs == 192 {
        v.push(1);
    }
    for c in 2..=5 {
        if bs == 576 << (c - 2) {
            v.push(c);
        }
    }
    if bs <= 256 {
        v.push(6);
    }
    v.push(7);
    for c in 8..=15 {
        if bs == 256 << (c - 8) {
            v.push(c);
        }
    }
    v
}

pub const TABLE_SIZES: [u32; 13] =
    [192, 576, 1152, 2304, 4608, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768];

pub fn bps_code(bps: u32) -> u32 {
    match bps {
        8 => 1,
        12 => 2,
        16 => 4,
        20 => 5,
        24 => 6,
        _ => panic!("no code for {} bits", bps),
    }
}

pub struct HeaderFields {
    pub variable: bool,
    pub bs_code: u32,
    pub block_size: u32,
    pub sr_code: u32,
    pub sr_value: u32,
    pub chan_code: u32,
    pub bps_code: u32,
    pub number: Vec<u8>,
}

/// Header bytes without the CRC-8.
pub fn header_bytes(h: &HeaderFields) -> Vec<u8> {
    let mut v = vec![0xff, 0xf8 | h.variable as u8];
    v.push((h.bs_code << 4 | h.sr_code) as u8);
    v.push((h.chan_code << 4 | h.bps_code << 1) as u8);
    v.extend_from_slice(&h.number);
    match h.bs_code {
        6 => v.push((h.block_size - 1) as u8),
        7 => v.extend_from_slice(&((h.block_size - 1) as u16).to_be_bytes()),
        _ => {}
    }
    match h.sr_code {
        12 => v.push(h.sr_value as u8),
        13 | 14 => v.extend_from_slice(&(h.sr_value as u16).to_be_bytes()),
        _ => {}
    }
    v
}

/// Chooses samples for a frame: channel-major, each within `bps` bits.
pub fn frame_samples(rng: &mut Rng, cfg: &FrameCfg, mode: Mode, hist: &mut Hist) -> Vec<Vec<i64>> {
    let n = cfg.block_size as usize;
    let mut chans: Vec<Vec<i64>> = Vec::new();
    for ch in 0..cfg.channels {
        let class = cfg.signal.unwrap_or_else(|| rng.below(N_SIGNALS as u64) as u32);
        hist.hit("signal_class", class as u64);
        let s = if ch == 1 && mode != Mode::Indep && rng.chance(1, 2) {
            // Correlated with the first channel.
            let amp = 1i64 << rng.below(cfg.bps as u64);
            let neg = rng.chance(1, 4);
            let (l, h) = (lo(cfg.bps), hi(cfg.bps));
            let base = chans[0].clone();
            base.iter()
                .map(|&v| ((if neg { -v } else { v }) + rng.irange(-amp, amp)).max(l).min(h))
                .collect()
        } else {
            signal(rng, n, cfg.bps, class)
        };
        chans.push(s);
    }
    chans
}

pub fn encode_frame(rng: &mut Rng, cfg: &FrameCfg, hist: &mut Hist) -> Frame {
    let mode = match cfg.mode {
        Some(m) => m,
        None if cfg.channels == 2 => {
            *rng.pick(&[Mode::Indep, Mode::LeftSide, Mode::RightSide, Mode::MidSide])
        }
        None => Mode::Indep,
    };
    let chans = frame_samples(rng, cfg, mode, hist);
    encode_frame_with(rng, cfg, mode, chans, hist)
}

/// The two coded channels of a stereo mode with their widths.
pub fn coded_channels(mode: Mode, chans: &[Vec<i64>], bps: u32) -> Vec<(Vec<i64>, u32)> {
    let zip = |f: fn(i64, i64) -> i64| -> Vec<i64> {
        chans[0].iter().zip(&chans[1]).map(|(&l, &r)| f(l, r)).collect()
    };
    match mode {
        Mode::Indep => chans.iter().map(|c| (c.clone(), bps)).collect(),
        Mode::LeftSide => vec![(chans[0].clone(), bps), (zip(|l, r| l - r), bps + 1)],
        Mode::RightSide => vec![(zip(|l, r| l - r), bps + 1), (chans[1].clone(), bps)],
        Mode::MidSide => vec![(zip(|l, r| (l + r) >> 1), bps), (zip(|l, r| l - r), bps + 1)],
    }
}

pub fn chan_code(mode: Mode, channels: u32) -> u32 {
    match mode {
        Mode::Indep => channels - 1,
        Mode::LeftSide => 8,
        Mode::RightSide => 9,
        Mode::MidSide => 10,
    }
}

pub fn encode_frame_with(
    rng: &mut Rng,
    cfg: &FrameCfg,
    mode: Mode,
    chans: Vec<Vec<i64>>,
    hist: &mut Hist,
) -> Frame {
    let bs_code = cfg.bs_code.unwrap_or_else(|| *rng.pick(&bs_codes(cfg.block_size)));
    let sr_code = cfg.sr_code.unwrap_or_else(|| rng.range(0, 14) as u32);
    let sr_value = rng.u32();
    let cc = chan_code(mode, cfg.channels);
    let number = coded_number(cfg.number);
    hist.hit("bs_code", bs_code as u64);
    hist.hit("sr_code", sr_code as u64);
    hist.hit("chan_code", cc as u64);
    hist.hit("bps", cfg.bps as u64);
    hist.hit("number_len", number.len() as u64);
    hist.hit("variable", cfg.variable as u64);
    let h = HeaderFields {
        variable: cfg.variable,
        bs_code,
        block_size: cfg.block_size,
        sr_code,
        sr_value,
        chan_code: cc,
        bps_code: bps_code(cfg.bps),
        number,
    };
    let mut bytes = header_bytes(&h);
    bytes.push(crc8(&bytes));
    let header_len = bytes.len();
    let mut w = BitWriter::new();
    for (x, bits) in coded_channels(mode, &chans, cfg.bps) {
        encode_subframe(rng, &mut w, &x, bits, &cfg.plan, hist);
    }
    w.align();
    bytes.extend_from_slice(&w.bytes);
    let c = crc16(&bytes);
    bytes.extend_from_slice(&c.to_be_bytes());
    Frame {
        bytes,
        header_len,
        samples: chans.iter().map(|c| c.iter().map(|&v| v as i32).collect()).collect(),
        block_size: cfg.block_size,
        bps: cfg.bps,
        variable: cfg.variable,
        number: cfg.number,
    }
}

/// A block size: all magnitudes, table sizes and neighbours of powers of two.
/// Mostly the usual limit; now and then one that lets the block sizes in that
/// encoders really use.
pub fn real_sizes(rng: &mut Rng, usual: u32) -> u32 {
    if !cfg!(miri) && rng.chance(1, 48) {
        4700
    } else {
        usual
    }
}

pub fn pick_block_size(rng: &mut Rng, max: u32) -> u32 {
    if rng.chance(1, 12) {
        if let Some(v) = rng.magic(1, max as u64) {
            return v as u32;
        }
    }
    let v = match rng.below(6) {
        0 => *rng.pick(&TABLE_SIZES),
        1 => {
            let p = 1u32 << rng.range(0, 15);
            (p as i64 + rng.irange(-1, 1)).max(1) as u32
        }
        2 => rng.range(1, 64) as u32,
        3 => {
            let o = rng.range(0, 8) as u32;
            (rng.range(1, 40) as u32) << o
        }
        _ => rng.log_size(max as u64).max(1) as u32,
    };
    if v <= max {
        v
    } else {
        (v % max) + 1
    }
}

pub const BPS: [u32; 5] = [8, 12, 16, 20, 24];

// ---------------------------------------------------------------------------
// Metadata

#[derive(Clone, Debug, PartialEq)]
pub struct Info {
    pub min_bs: u16,
    pub max_bs: u16,
    pub min_fs: u32,
    pub max_fs: u32,
    pub rate: u32,
    pub channels: u32,
    pub bps: u32,
    pub samples: u64,
    pub md5: [u8; 16],
}

impl Info {
    pub fn bytes(&self) -> Vec<u8> {
        let mut w = BitWriter::new();
        w.put(self.min_bs as u64, 16);
        w.put(self.max_bs as u64, 16);
        w.put(self.min_fs as u64, 24);
        w.put(self.max_fs as u64, 24);
        w.put(self.rate as u64, 20);
        w.put(self.channels as u64 - 1, 3);
        w.put(self.bps as u64 - 1, 5);
        w.put(self.samples, 36);
        let mut b = w.bytes;
        b.extend_from_slice(&self.md5);
        assert_eq!(b.len(), 34);
        b
    }

    pub fn random(rng: &mut Rng) -> Info {
        let min_bs = *rng.pick(&[16, 17, 192, 255, 256, 4095, 4096, 32768, 65535, 0]);
        let min_bs = if min_bs == 0 { rng.range(16, 65535) as u16 } else { min_bs };
        let min_bs = if rng.chance(1, 8) { rng.magic(16, 65535).unwrap_or(16) as u16 } else { min_bs };
        let max_bs = match rng.below(3) {
            0 => min_bs,
            1 => 65535,
            _ => rng.range(min_bs as u64, 65535) as u16,
        };
        let f = |rng: &mut Rng| -> u32 {
            match rng.below(4) {
                0 => 0,
                1 => *rng.pick(&[1, 255, 256, 65535, 65536, 0xff_fffe, 0xff_ffff]),
                _ => rng.log_size(0xff_ffff) as u32,
            }
        };
        let (a, b) = (f(rng), f(rng));
        let (min_fs, max_fs) = if b != 0 && a > b { (b, a) } else { (a, b) };
        let rate = match rng.below(3) {
            0 => *rng.pick(&[1, 15, 16, 255, 4095, 4096, 44100, 65535, 65536, 96000, 655_349, 655_350]),
            1 if rng.chance(1, 2) => rng.magic(1, 655_350).unwrap_or(1) as u32,
            _ => rng.range(1, 655_350) as u32,
        };
        let samples = match rng.below(4) {
            0 => 0,
            1 => *rng.pick(&[1, 0xffff_ffff, 0x1_0000_0000, 0xf_ffff_ffff, 0xf_0000_0000, 0x8000_0000]),
            _ => rng.log_size(0xf_ffff_ffff),
        };
        let mut md5 = [0; 16];
        rng.fill(&mut md5);
        if rng.chance(1, 8) {
            md5 = [*rng.pick(&[0, 0xff]); 16];
        } else if rng.chance(1, 8) {
            rng.plant(&mut md5);
        }
        Info {
            min_bs,
            max_bs,
            min_fs,
            max_fs,
            rate,
            channels: rng.range(1, 8) as u32,
            bps: rng.range(1, 32) as u32,
            samples,
            md5,
        }
    }

    /// What the library should report, in its own type.
    pub fn expect(&self) -> claxon::metadata::StreamInfo {
        claxon::metadata::StreamInfo {
            min_block_size: self.min_bs,
            max_block_size: self.max_bs,
            min_frame_size: if self.min_fs == 0 { None } else { Some(self.min_fs) },
            max_frame_size: if self.max_fs == 0 { None } else { Some(self.max_fs) },
            sample_rate: self.rate,
            channels: self.channels,
            bits_per_sample: self.bps,
            samples: if self.samples == 0 { None } else { Some(self.samples) },
            md5sum: self.md5,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Tags {
    pub vendor: String,
    /// Names and values, as they should be reported.
    pub pairs: Vec<(String, String)>,
}

fn rand_text(rng: &mut Rng, max: usize) -> String {
    let n = rng.log_size(max as u64) as usize;
    let mut s = String::new();
    for _ in 0..n {
        let c = match rng.below(8) {
            0 => char::from_u32(rng.range(0, 0x7f) as u32),
            1 => char::from_u32(rng.range(0x80, 0x7ff) as u32),
            2 => char::from_u32(rng.range(0x800, 0xffff) as u32),
            3 => char::from_u32(rng.range(0x1_0000, 0x10_ffff) as u32),
            4 => Some('='),
            _ => Some((b'a' + rng.below(26) as u8) as char),
        };
        if let Some(c) = c {
            s.push(c);
        }
    }
    // Pieces that text handling likes to treat in a special way, in places
    // where it likes to do so.
    const SPECIAL: [&str; 26] = [
        "\u{feff}", " ", "\0", "\n", "\r\n", "\r", "\t", "\"", "'", "\u{a0}", "\u{2028}", "\u{200b}", "\u{301}",
        "\u{fffd}", "\u{ffff}", "\u{fffe}", "\u{e000}", "\u{10ffff}", "\u{7f}", "\u{1b}[m", "\\n", "%20", "&amp;",
        "\u{85}", "\u{130}", "=",
    ];
    if rng.chance(1, 4) {
        s.insert_str(0, *rng.pick(&SPECIAL));
    }
    if rng.chance(1, 4) {
        s.push_str(*rng.pick(&SPECIAL));
    }
    if rng.chance(1, 24) {
        if let Some(w) = rng.word() {
            s = w.to_string();
        }
    }
    if rng.chance(1, 40) {
        s = rng.pick(&["reference libFLAC 1.3.2 20170101", "Lavf57.83.100", "1/12", "+1.23 dB", "2018-01-01", "iVBORw0KGgo="]).to_string();
    }
    s
}

pub fn rand_name(rng: &mut Rng, max: usize) -> String {
    const COMMON: [&str; 6] = ["ARTIST", "artist", "Title", "TITLE", "A", "ArtisT"];
    const KNOWN: [&str; 24] = [
        "ALBUM", "DATE", "GENRE", "TRACKNUMBER", "TRACKTOTAL", "DISCNUMBER", "COMMENT", "DESCRIPTION", "PERFORMER",
        "COPYRIGHT", "LICENSE", "ORGANIZATION", "LOCATION", "CONTACT", "ISRC", "VERSION", "ENCODER", "LYRICS",
        "METADATA_BLOCK_PICTURE", "COVERART", "WAVEFORMATEXTENSIBLE_CHANNEL_MASK", "replaygain_track_gain",
        "REPLAYGAIN_ALBUM_PEAK", "CHAPTER001NAME",
    ];
    if rng.chance(1, 3) {
        return COMMON[rng.below(6) as usize].to_string();
    }
    if rng.chance(1, 8) {
        return rng.pick(&KNOWN).to_string();
    }
    if rng.chance(1, 16) {
        if let Some(w) = rng.word() {
            if !w.is_empty() && w.bytes().all(|b| b >= 0x20 && b <= 0x7d && b != b'=') {
                return w.to_string();
            }
        }
    }
    let n = rng.log_size(max as u64) as usize;
    (0..n)
        .map(|_| loop {
            let c = rng.range(0x20, 0x7d) as u8;
            if c != b'=' {
                break c as char;
            }
        })
        .collect()
}

impl Tags {
    pub fn random(rng: &mut Rng, max_pairs: usize, max_text: usize) -> Tags {
        let n = rng.log_size(max_pairs as u64) as usize;
        let vendor = rand_text(rng, max_text);
        let mut pairs = Vec::new();
        for _ in 0..n {
            if !pairs.is_empty() && rng.chance(1, 8) {
                let p: &(String, String) = rng.pick(&pairs);
                let p = p.clone();
                pairs.push(p);
            } else {
                let name = rand_name(rng, 12);
                let v = rand_text(rng, max_text);
                pairs.push((name, v));
            }
        }
        Tags { vendor, pairs }
    }

    /// Serialises, inserting `empties` zero-length entries at random places.
    pub fn bytes(&self, rng: &mut Rng, empties: usize) -> Vec<u8> {
        let mut entries: Vec<Vec<u8>> =
            self.pairs.iter().map(|(n, v)| format!("{}={}", n, v).into_bytes()).collect();
        for _ in 0..empties {
            let at = rng.usize(0, entries.len());
            entries.insert(at, Vec::new());
        }
        let mut b = Vec::new();
        b.extend_from_slice(&(self.vendor.len() as u32).to_le_bytes());
        b.extend_from_slice(self.vendor.as_bytes());
        b.extend_from_slice(&(entries.len() as u32).to_le_bytes());
        for e in entries {
            b.extend_from_slice(&(e.len() as u32).to_le_bytes());
            b.extend_from_slice(&e);
        }
        b
    }
}

#[derive(Clone, Debug)]
pub struct Meta {
    pub btype: u8,
    pub body: Vec<u8>,
}

pub fn block_bytes(btype: u8, last: bool, body: &[u8]) -> Vec<u8> {
    let mut v = vec![btype | if last { 0x80 } else { 0 }];
    v.extend_from_slice(&(body.len() as u32).to_be_bytes()[1..]);
    v.extend_from_slice(body);
    v
}

// ---------------------------------------------------------------------------
// Whole streams

#[derive(Clone)]
pub struct StreamCfg {
    pub max_frames: usize,
    pub max_block: u32,
    pub max_meta: usize,
    pub max_meta_len: usize,
    /// Constant channel count and bit depth, as the format demands.
    pub uniform: bool,
}

impl StreamCfg {
    pub fn small() -> StreamCfg {
        StreamCfg { max_frames: 4, max_block: 96, max_meta: 3, max_meta_len: 60, uniform: true }
    }
    pub fn medium() -> StreamCfg {
        StreamCfg { max_frames: 6, max_block: 2500, max_meta: 5, max_meta_len: 5000, uniform: true }
    }
}

#[derive(Clone)]
pub struct Stream {
    pub bytes: Vec<u8>,
    pub info: Info,
    pub tags: Option<Tags>,
    pub metas: Vec<Meta>,
    /// Offset of each metadata block (header), parallel to `metas`.
    pub meta_offsets: Vec<usize>,
    pub audio_start: usize,
    pub frames: Vec<Frame>,
    /// Offset of each frame; one more entry for the end.
    pub offsets: Vec<usize>,
    /// Expected start time of each frame.
    pub times: Vec<u64>,
}

pub fn gen_stream(rng: &mut Rng, cfg: &StreamCfg, hist: &mut Hist) -> Stream {
    let n_frames = rng.usize(0, cfg.max_frames);
    let variable = rng.chance(1, 2);
    let channels = rng.range(1, 8) as u32;
    let channels = if rng.chance(1, 2) { 2 } else { channels };
    let bps = *rng.pick(&BPS);
    let nominal = pick_block_size(rng, cfg.max_block).max(1);
    let first_number: u64 = if variable {
        match rng.below(4) {
            0..=1 => 0,
            2 => rng.log_size((1 << 36) - 1 - 65535 * (cfg.max_frames as u64 + 1)),
            _ => 0xffff_fff0,
        }
    } else {
        match rng.below(4) {
            0..=1 => 0,
            2 => rng.log_size(0x7fff_ffff - cfg.max_frames as u64),
            _ => 0x7fff_ffff - cfg.max_frames as u64,
        }
    };

    let mut frames = Vec::new();
    let mut times = Vec::new();
    let mut number = first_number;
    // A fixed-block-size stream announces its block size, at least 16.
    let fixed_bs = nominal.max(16);
    for i in 0..n_frames {
        let (bs, this_number) = if variable {
            (pick_block_size(rng, cfg.max_block), number)
        } else if i + 1 == n_frames && rng.chance(1, 2) {
            (rng.range(1, fixed_bs as u64) as u32, number)
        } else {
            (fixed_bs, number)
        };
        let (ch, b) = if cfg.uniform {
            (channels, bps)
        } else {
            (
                if rng.chance(1, 3) { rng.range(1, 8) as u32 } else { channels },
                *rng.pick(&BPS),
            )
        };
        let mut fc = FrameCfg::new(bs, ch, b);
        fc.variable = variable;
        fc.number = this_number;
        frames.push(encode_frame(rng, &fc, hist));
        if variable {
            times.push(number);
            number += bs as u64;
        } else {
            times.push(number * fixed_bs as u64);
            number += 1;
        }
    }

    let mut info = Info::random(rng);
    info.channels = channels;
    info.bps = bps;
    if variable {
        let mn = frames.iter().map(|f| f.block_size).min().unwrap_or(16).max(16);
        let mx = frames.iter().map(|f| f.block_size).max().unwrap_or(16).max(16);
        info.min_bs = mn as u16;
        info.max_bs = if mx == mn && mx < 65535 && rng.chance(1, 2) { mx as u16 + 1 } else { mx as u16 };
    } else {
        info.min_bs = fixed_bs as u16;
        info.max_bs = fixed_bs as u16;
    }

    let mut metas = vec![Meta { btype: 0, body: info.bytes() }];
    let mut tags = None;
    for _ in 0..rng.usize(0, cfg.max_meta) {
        let t = *rng.pick(&[1u8, 1, 2, 3, 4, 4, 5, 6, 7, 126, 0xff]);
        match t {
            4 => {
                if tags.is_none() {
                    let t = Tags::random(rng, 8, cfg.max_meta_len / 4 + 1);
                    let e = rng.usize(0, 2);
                    let body = t.bytes(rng, e);
                    metas.push(Meta { btype: 4, body });
                    tags = Some(t);
                }
            }
            2 => {
                let n = 4 + rng.log_size(cfg.max_meta_len as u64) as usize;
                metas.push(Meta { btype: 2, body: rng.bytes(n) });
            }
            0xff => {
                let t = rng.range(7, 126) as u8;
                let n = rng.log_size(cfg.max_meta_len as u64) as usize;
                metas.push(Meta { btype: t, body: rng.bytes(n) });
            }
            t => {
                let n = rng.log_size(cfg.max_meta_len as u64) as usize;
                metas.push(Meta { btype: t, body: rng.bytes(n) });
            }
        }
    }
    assemble(info, tags, metas, frames, times)
}

pub fn assemble(
    info: Info,
    tags: Option<Tags>,
    metas: Vec<Meta>,
    frames: Vec<Frame>,
    times: Vec<u64>,
) -> Stream {
    let mut bytes = b"fLaC".to_vec();
    let mut meta_offsets = Vec::new();
    for (i, m) in metas.iter().enumerate() {
        meta_offsets.push(bytes.len());
        bytes.extend(block_bytes(m.btype, i + 1 == metas.len(), &m.body));
    }
    let audio_start = bytes.len();
    let mut offsets = vec![audio_start];
    for f in &frames {
        bytes.extend_from_slice(&f.bytes);
        offsets.push(bytes.len());
    }
    Stream { bytes, info, tags, metas, meta_offsets, audio_start, frames, offsets, times }
}

impl Stream {
    pub fn audio(&self) -> &[u8] {
        &self.bytes[self.audio_start..]
    }
}
