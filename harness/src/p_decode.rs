//! C01 lossless decoding, C03 checksums, C04 forbidden encodings, C05 truncation.

use crate::bits::{crc16, crc8, BitWriter};
use crate::core::*;
use crate::drive::*;
use crate::gen::*;
use crate::model;
use crate::rng::{hash_bytes, Rng};
use crate::src::*;
use crate::{bad, ensure};
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, BufferedReader};
use claxon::{subframe, FlacReader};
use std::io::Cursor;
use std::sync::{Arc, OnceLock};

fn pick_frame_cfg(rng: &mut Rng, max_block: u32) -> FrameCfg {
    let bs = pick_block_size(rng, max_block);
    let channels = if rng.chance(1, 2) { 2 } else { rng.range(1, 8) as u32 };
    let mut c = FrameCfg::new(bs, channels, *rng.pick(&BPS));
    c.variable = rng.chance(1, 2);
    c.number = if c.variable { rng.log_size((1 << 36) - 1) } else { rng.log_size(0x7fff_ffff) };
    c
}

/// Decodes `frames` laid end to end and compares with what they encode.
fn decode_and_compare(cx: &mut Ctx, frames: &[Frame]) -> Res {
    let mut data = Vec::new();
    for f in frames {
        data.extend_from_slice(&f.bytes);
    }
    let mut evs = Vec::new();
    let how = cx.rng.below(3);
    let recycle = cx.rng.chance(1, 2);
    let limit = frames.len() + 2;
    match how {
        0 => guard("decoding from a byte source", || {
            let mut fr = FrameReader::new(ByteSrc::of(&data));
            blocks(&mut fr, 1, limit, recycle, &mut evs)
        })?,
        1 => guard("decoding from a cursor", || {
            let mut fr = FrameReader::new(Cursor::new(&data[..]));
            blocks(&mut fr, 1, limit, recycle, &mut evs)
        })?,
        _ => {
            let sched = Sched::random(&mut cx.rng);
            guard("decoding from a buffered reader", || {
                let mut fr = FrameReader::new(BufferedReader::new(Src::of(&data, sched)));
                blocks(&mut fr, 1, limit, recycle, &mut evs)
            })?
        }
    }
    ensure!(
        evs.len() == frames.len() + 1,
        "{} events for {} frames, last {:?}; data {}",
        evs.len(),
        frames.len(),
        evs.last(),
        hex(&data)
    );
    for (i, f) in frames.iter().enumerate() {
        match &evs[i] {
            Ev::Block(b) => check_block(b, f, &format!("frame {} of {}: {}", i, frames.len(), hex(&f.bytes)))?,
            e => bad!("frame {} gave {:?}: {}", i, e, hex(&f.bytes)),
        }
        cx.hit("block_size_log2", 31 - f.block_size.leading_zeros() as u64);
        cx.stats.hist.add("samples_compared", 0, f.block_size as u64 * f.samples.len() as u64);
        cx.eval_bytes(&f.bytes);
    }
    ensure!(evs[frames.len()] == Ev::Eof, "no end after the last frame: {:?}", evs.last());
    Ok(())
}

fn c01_frames(cx: &mut Ctx) -> Res {
    let n = cx.rng.usize(1, 4);
    let max = match cx.rng.below(40) {
        0 => 65535,
        1..=4 => 6000,
        _ => 700,
    };
    let mut frames = Vec::new();
    for _ in 0..n {
        let cfg = pick_frame_cfg(&mut cx.rng, max);
        frames.push(encode_frame(&mut cx.rng, &cfg, &mut cx.stats.hist));
    }
    cx.sample(|| {
        format!(
            "frame: {} samples x {} channels, {} bits, {}",
            frames[0].block_size,
            frames[0].samples.len(),
            frames[0].bps,
            hex(&frames[0].bytes)
        )
    });
    decode_and_compare(cx, &frames)
}

fn c01_streams(cx: &mut Ctx) -> Res {
    let mut sc = if cx.rng.chance(1, 3) { StreamCfg::medium() } else { StreamCfg::small() };
    sc.uniform = cx.rng.chance(3, 4);
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let sched = Sched::random(&mut cx.rng);
    let recycle = cx.rng.chance(1, 2);
    let evs = guard("decoding a stream", || stream(Src::of(&s.bytes, sched), 1, s.frames.len() + 3, recycle))?;
    ensure!(evs.len() == s.frames.len() + 2, "{} events for {} frames: last {:?}", evs.len(), s.frames.len(), evs.last());
    ensure!(matches!(evs[0], Ev::Open { .. }), "could not open: {:?}", evs[0]);
    for (i, f) in s.frames.iter().enumerate() {
        match &evs[i + 1] {
            Ev::Block(b) => check_block(b, f, &format!("frame {}", i))?,
            e => bad!("frame {} gave {:?}", i, e),
        }
    }
    ensure!(evs.last() == Some(&Ev::Eof), "stream did not end: {:?}", evs.last());
    cx.hit("stream_frames", s.frames.len() as u64);
    if s.frames.is_empty() {
        cx.eval_trivial()
    } else {
        cx.eval_bytes(&s.bytes)
    }
    Ok(())
}

/// A subframe on its own, followed by a marker to see where decoding stopped.
fn check_subframe(cx: &mut Ctx, x: &[i64], bits: u32, plan: &SubPlan) -> Res {
    let mut w = BitWriter::new();
    let lead = cx.rng.range(0, 15) as u32;
    w.put(cx.rng.u64(), lead);
    let kind = encode_subframe(&mut cx.rng, &mut w, x, bits, plan, &mut cx.stats.hist);
    w.put(0xa5c3, 16);
    let data = w.bytes;
    let want: Vec<i32> = x.iter().map(|&v| v as i32).collect();
    let garbage = cx.rng.u32() as i32;
    let (res, buf, mark) = guard("decoding a subframe", || {
        let mut bs = Bitstream::new(Cursor::new(&data[..]));
        bs.read_leq_u16(lead).unwrap();
        let mut buf = vec![garbage; x.len()];
        let r = subframe::decode(&mut bs, bits, &mut buf);
        let mark = bs.read_leq_u16(16).ok();
        (r, buf, mark)
    })?;
    if let Err(e) = res {
        bad!("{:?} subframe of {} samples, {} bits refused: {:?}: {}", kind, x.len(), bits, e, hex(&data));
    }
    check_samples(
        &[buf],
        &[want],
        &format!("{:?} subframe, {} bits, after {} bits: {}", kind, bits, lead, hex(&data)),
    )?;
    ensure!(mark == Some(0xa5c3), "{:?} subframe, {} bits: decoding stopped at the wrong bit: {}", kind, bits, hex(&data));
    cx.hit("standalone_bits", bits as u64);
    cx.stats.hist.add("samples_compared", 0, x.len() as u64);
    cx.eval_bytes(&data);
    Ok(())
}

fn c01_subframes(cx: &mut Ctx) -> Res {
    let bits = cx.rng.range(1, 32) as u32;
    let n = pick_block_size(&mut cx.rng, 500) as usize;
    let class = cx.rng.below(N_SIGNALS as u64) as u32;
    let x = signal(&mut cx.rng, n, bits, class);
    check_subframe(cx, &x, bits, &SubPlan::default())
}

/// Every order, coefficient precision and shift.
fn c01_grid_lpc(cx: &mut Ctx) -> Res {
    let i = cx.idx % 7680;
    let (order, prec, shift) = ((i % 32) as u32 + 1, (i / 32 % 15) as u32 + 1, (i / 480) as u32);
    let bits = if cx.rng.chance(1, 3) { 8 } else { cx.rng.range(4, 12) as u32 };
    let n = order as usize + cx.rng.usize(0, 40);
    let class = *cx.rng.pick(&[3, 4, 5, 8, 10, 12]);
    let x = signal(&mut cx.rng, n, bits, class);
    let plan = SubPlan {
        kind: Some(Kind::Lpc(order)),
        precision: Some(prec),
        shift: Some(shift),
        wasted: Some(0),
        ..SubPlan::default()
    };
    cx.hit("grid_lpc", i);
    check_subframe(cx, &x, bits, &plan)
}

/// Every residual coding method, parameter and partition order.
fn c01_grid_rice(cx: &mut Ctx) -> Res {
    let i = cx.idx % 736;
    let (m, po) = ((i % 46) as u32, (i / 46) as u32);
    let (rice2, param) = if m < 15 { (false, m) } else { (true, m - 15) };
    let k = if po >= 10 { cx.rng.range(1, 65535 >> po).min(3) } else { cx.rng.range(1, 8) };
    let n = (k << po) as usize;
    let amp_bits = (param + 1).min(31);
    let amp = (1i64 << amp_bits) - 1;
    let extremes = cx.rng.chance(1, 2);
    let mut x: Vec<i64> = (0..n).map(|_| cx.rng.irange(-amp, amp)).collect();
    if extremes {
        for v in &mut x {
            if *v & 7 == 0 {
                *v = if *v > 0 { amp } else { -amp };
            }
        }
    }
    let kind = if cx.rng.chance(1, 2) {
        Kind::Fixed(0)
    } else {
        Kind::Lpc(cx.rng.range(1, k.min(32)) as u32)
    };
    let plan = SubPlan {
        kind: Some(kind),
        coefs: match kind {
            Kind::Lpc(o) => Some(vec![0; o as usize]),
            _ => None,
        },
        rice2: Some(rice2),
        param: Some(param),
        porder: Some(po),
        wasted: Some(0),
        ..SubPlan::default()
    };
    cx.hit("grid_rice", i);
    check_subframe(cx, &x, 32, &plan)
}

/// Every block size, with every header code that can say it.
fn c01_sizes(cx: &mut Ctx) -> Res {
    let bs = (cx.idx % 65535) as u32 + 1;
    for code in bs_codes(bs) {
        let mut c = FrameCfg::new(bs, if bs % 3 == 0 { 2 } else { 1 }, *cx.rng.pick(&BPS));
        c.bs_code = Some(code);
        c.number = cx.rng.range(0, 0x7fff);
        let small = bs <= 32 && cx.rng.chance(1, 2);
        c.signal = Some(if small { 12 } else { 2 });
        c.plan.kind = Some(if small { Kind::Verbatim } else { Kind::Constant });
        c.mode = Some(Mode::Indep);
        let f = encode_frame(&mut cx.rng, &c, &mut cx.stats.hist);
        cx.hit("sizes_covered", bs as u64 / 4096);
        decode_and_compare(cx, &[f])?;
    }
    Ok(())
}

/// Every bit depth, channel assignment and subframe family at full scale.
fn c01_shapes(cx: &mut Ctx) -> Res {
    let i = cx.idx;
    let bps = BPS[(i % 5) as usize];
    let cc = (i / 5 % 11) as u32;
    let fam = i / 55 % 4;
    let (channels, mode) = match cc {
        8 => (2, Mode::LeftSide),
        9 => (2, Mode::RightSide),
        10 => (2, Mode::MidSide),
        n => (n + 1, Mode::Indep),
    };
    let bs = cx.rng.range(1, 200) as u32;
    let mut c = FrameCfg::new(bs, channels, bps);
    c.mode = Some(mode);
    c.signal = Some(*cx.rng.pick(&[1, 3, 8, 10, 12]));
    c.variable = cx.rng.chance(1, 2);
    c.number = cx.rng.log_size(0x7fff_ffff);
    c.plan.kind = Some(match fam {
        0 => Kind::Verbatim,
        1 => Kind::Fixed(cx.rng.range(0, 4) as u32),
        2 => Kind::Lpc(cx.rng.range(1, 12) as u32),
        _ => Kind::Lpc(cx.rng.range(13, 32) as u32),
    });
    let mut f = encode_frame(&mut cx.rng, &c, &mut cx.stats.hist);
    if channels == 2 && cx.rng.chance(1, 2) {
        // Full-scale opposite channels: the side signal at its very limits.
        let n = bs as usize;
        let a = signal(&mut cx.rng, n, bps, 8);
        let b: Vec<i64> = a.iter().map(|&v| -v - 1).collect();
        f = encode_frame_with(&mut cx.rng, &c, mode, vec![a, b], &mut cx.stats.hist);
    }
    cx.hit("shapes", i % 220);
    decode_and_compare(cx, &[f])
}

/// Streams produced by the reference encoder, when it is installed.
fn c01_external(cx: &mut Ctx) -> Res {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let channels = if cx.rng.chance(1, 2) { 2 } else { cx.rng.range(1, 8) as usize };
    let bps = *cx.rng.pick(&[8u32, 16, 16, 24]);
    let n = cx.rng.usize(20, 30_000);
    let mut chans = Vec::new();
    for _ in 0..channels {
        let class = *cx.rng.pick(&[0, 2, 3, 4, 5, 6, 7, 8, 9, 11]);
        chans.push(signal(&mut cx.rng, n, bps, class));
    }
    let mut raw = Vec::new();
    for i in 0..n {
        for c in &chans {
            raw.extend_from_slice(&c[i].to_le_bytes()[..bps as usize / 8]);
        }
    }
    let bs = *cx.rng.pick(&[16usize, 192, 256, 576, 1000, 1152, 4096, 4608, 16384, 65535]);
    let mut args: Vec<String> = vec![
        "-s".into(),
        "-c".into(),
        "-f".into(),
        "--force-raw-format".into(),
        "--endian=little".into(),
        "--sign=signed".into(),
        format!("--channels={}", channels),
        format!("--bps={}", bps),
        format!("--sample-rate={}", cx.rng.pick(&[8000, 44100, 48000, 96000, 12345])),
        "--lax".into(),
        "--no-padding".into(),
        format!("--blocksize={}", bs),
    ];
    let lpc = cx.rng.range(0, 32);
    args.push(format!("--max-lpc-order={}", lpc.min(bs as u64 / 2)));
    if cx.rng.chance(1, 3) {
        args.push("-e".into());
    }
    if cx.rng.chance(1, 4) {
        args.push("-p".into());
    }
    args.push(format!("-r{}", cx.rng.pick(&["0", "3", "6", "0,8", "2,4"])));
    if channels == 2 {
        args.push(cx.rng.pick(&["-m", "-M", "--no-mid-side"]).to_string());
    }
    args.push("-".into());
    let child = Command::new("flac")
        .args(&args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(_) => {
            cx.hit("external_encoder_missing", 1);
            return Ok(());
        }
    };
    let mut stdin = child.stdin.take().unwrap();
    let t = std::thread::spawn(move || {
        let _ = stdin.write_all(&raw);
    });
    let out = child.wait_with_output();
    let _ = t.join();
    let out = match out {
        Ok(o) if o.status.success() => o.stdout,
        _ => {
            cx.hit("external_encoder_refused", 1);
            return Ok(());
        }
    };
    // Streams with escaped partitions are documented as unsupported.
    let evs = guard("decoding a stream of the reference encoder", || {
        stream(Src::of(&out, Sched::All), 1, 1 << 20, true)
    })?;
    let mut got: Vec<Vec<i32>> = vec![Vec::new(); channels];
    for e in &evs {
        match e {
            Ev::Block(b) => {
                ensure!(b.channels as usize == channels, "{} channels instead of {}", b.channels, channels);
                for (g, s) in got.iter_mut().zip(&b.samples) {
                    g.extend_from_slice(s);
                }
            }
            Ev::Open { info, .. } => {
                ensure!(info.samples.is_none() || info.samples == Some(n as u64), "stream info: {:?}", info);
                ensure!(info.bits_per_sample == bps, "stream info: {:?}", info);
            }
            Ev::Eof => {}
            Ev::Err(E::Unsupported(_)) => {
                cx.hit("external_unsupported", 1);
                return Ok(());
            }
            e => bad!("flac {:?}: {:?}", args, e),
        }
    }
    let want: Vec<Vec<i32>> = chans.iter().map(|c| c.iter().map(|&v| v as i32).collect()).collect();
    check_samples(&got, &want, &format!("flac {:?}", args))?;
    cx.hit("external_streams", 1);
    cx.eval_bytes(&out);
    Ok(())
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "cases are frames, whole streams and stand-alone subframes drawn by an encoder that picks every coding choice at random or enumerates it (LPC order x precision x shift; Rice method x parameter x partition order; every block size with every header code; bit depth x channel assignment x subframe family), plus streams of the installed reference encoder; each decoded sample is compared with the one encoded; non-trivial: contains at least one frame or subframe; distinct by the bytes",
        stages: vec![
            Stage { name: "frames", quick: 36_000, thorough: 400_000, f: c01_frames },
            Stage { name: "streams", quick: 24_000, thorough: 100_000, f: c01_streams },
            Stage { name: "subframes", quick: 800_000, thorough: 2_000_000, f: c01_subframes },
            Stage { name: "grid_lpc", quick: 7_680, thorough: 307_200, f: c01_grid_lpc },
            Stage { name: "grid_rice", quick: 1_472, thorough: 36_800, f: c01_grid_rice },
            Stage { name: "shapes", quick: 4_400, thorough: 220_000, f: c01_shapes },
            Stage { name: "sizes", quick: 65_535, thorough: 65_535, f: c01_sizes },
            Stage { name: "far", quick: 1, thorough: 8, f: crate::p_far::c01_far },
            Stage { name: "external", quick: 32, thorough: 1_500, f: c01_external },
        ],
        required: vec![
            ("subframe_type_code", 39),
            ("lpc_precision", 15),
            ("lpc_shift", 16),
            ("rice_param", 15),
            ("rice2_param", 31),
            ("partition_order", 16),
            ("chan_code", 11),
            ("bps", 5),
            ("bs_code", 15),
            ("sr_code", 15),
            ("number_len", 7),
            ("standalone_bits", 32),
        ],
    }
}

// ---------------------------------------------------------------------------
// C03

/// One call at a time, against the model and against the checksums of exactly
/// the bytes consumed.
pub fn judge_frames(cx: &mut Ctx, data: &[u8], what: &str) -> Res {
    let arc = Arc::new(data.to_vec());
    let mut fr = FrameReader::new(ByteSrc::new(arc));
    let mut pos = 0usize;
    for nth in 0..64 {
        let m = model::frame(&data[pos..], true);
        let r = guard(what, || fr.read_next_or_eof(Vec::new()));
        let r = match r {
            Ok(r) => r,
            Err(Bad(m)) => bad!("{}: {}", m, hex(data)),
        };
        cx.eval(hash_bytes(&data[pos..]));
        match r {
            Ok(Some(b)) => {
                // Where decoding stopped.
                let inner = fr.into_inner();
                let end = inner.pos;
                let got = view(&b);
                let used = &data[pos..end];
                ensure!(used.len() >= 6, "{}: block delivered from {} bytes: {}", what, used.len(), hex(used));
                ensure!(crc16(used) == 0, "{}: block delivered although the CRC-16 of the frame is wrong: {}", what, hex(used));
                let lax = model::frame(&data[pos..], false);
                match (&m, &lax) {
                    (model::Outcome::Frame(d), _) => {
                        ensure!(pos + d.end == end, "{}: frame of {} bytes consumed {}: {}", what, d.end, end - pos, hex(used));
                        ensure!(
                            got.duration == d.block_size && got.channels == d.channels,
                            "{}: block {:?} instead of {} x {}",
                            what,
                            got,
                            d.channels,
                            d.block_size
                        );
                        if d.exact && !d.grey {
                            check_samples(&got.samples, &d.samples, &format!("{}: frame {}: {}", what, nth, hex(used)))?;
                            cx.hit("accepted_exact", 1);
                        } else {
                            cx.hit("accepted_inexact", 1);
                        }
                    }
                    (model::Outcome::Bad(w), model::Outcome::Frame(d)) => bad!(
                        "{}: block delivered from a bad frame ({:?}, header CRC {}, frame CRC {}): {}",
                        what,
                        w,
                        d.header_crc_ok,
                        d.frame_crc_ok,
                        hex(used)
                    ),
                    (o, _) => bad!("{}: block delivered, but there is no frame: {:?}: {}", what, o, hex(used)),
                }
                pos = end;
                fr = FrameReader::new(inner);
            }
            Ok(None) => {
                // Truncation is the subject of C05.
                return Ok(());
            }
            Err(e) => {
                match m {
                    model::Outcome::Frame(d) if d.exact && !d.grey => bad!(
                        "{}: frame {} with correct checksums refused: {:?}: {}",
                        what,
                        nth,
                        err(&e),
                        hex(&data[pos..pos + d.end])
                    ),
                    model::Outcome::Frame(_) => cx.hit("refused_grey", 1),
                    model::Outcome::Eof => bad!("{}: error at the end of the data: {:?}", what, err(&e)),
                    model::Outcome::Bad(w) => cx.hit("refused", w as u64),
                }
                return Ok(());
            }
        }
    }
    Ok(())
}

fn small_frame(cx: &mut Ctx, max: u32) -> Frame {
    let mut c = pick_frame_cfg(&mut cx.rng, max);
    c.channels = c.channels.min(1 + cx.rng.below(3) as u32);
    encode_frame(&mut cx.rng, &c, &mut cx.stats.hist)
}

/// Offsets within the frame of its two checksums.
fn fix_crc(f: &mut [u8], header_len: usize, c8: bool, c16: bool) {
    if c8 {
        f[header_len - 1] = crc8(&f[..header_len - 1]);
    }
    if c16 {
        let n = f.len() - 2;
        let c = crc16(&f[..n]).to_be_bytes();
        f[n..].copy_from_slice(&c);
    }
}

/// The two bytes that, after a register of zero, leave the given CRC-16.
fn crc16_preimage(target: u16) -> u16 {
    static INV: OnceLock<Vec<u16>> = OnceLock::new();
    INV.get_or_init(|| {
        let mut t = vec![0; 65536];
        for x in 0..=65535u16 {
            t[crc16(&x.to_be_bytes()) as usize] = x;
        }
        t
    })[target as usize]
}

/// A frame whose checksums have conspicuous values: all zeros, all ones, a zero
/// byte, or the bytes of something that begins a frame.
fn special_frame(cx: &mut Ctx, number: Option<u64>) -> Frame {
    let bps = *cx.rng.pick(&[16u32, 24]);
    let channels = cx.rng.range(1, 3) as u32;
    let mut fc = FrameCfg::new(cx.rng.range(1, 9) as u32, channels, bps);
    fc.mode = Some(Mode::Indep);
    fc.variable = cx.rng.chance(1, 2);
    fc.plan.kind = Some(if cx.rng.chance(1, 2) { Kind::Verbatim } else { Kind::Constant });
    if fc.plan.kind == Some(Kind::Constant) {
        fc.signal = Some(2);
    }
    fc.plan.wasted = Some(0);
    let want8 = *cx.rng.pick(&[None, Some(0u8), Some(0xff), Some(1), Some(0x80)]);
    let mut f;
    let mut tries = 0;
    loop {
        fc.number = number.unwrap_or_else(|| cx.rng.below(1 << 20));
        f = encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist);
        tries += 1;
        if want8.is_none() || number.is_some() || tries == 2000 || want8 == Some(f.bytes[f.header_len - 1]) {
            break;
        }
    }
    if want8 == Some(f.bytes[f.header_len - 1]) {
        cx.hit("special_crc8", 1);
    }
    let target = *cx.rng.pick(&[0u16, 0, 0, 0xffff, 0xffff, 0x00ff, 0xff00, 1, 0x0100, 0x8000, 0x8005, 0xfff8, 0xfff9]);
    let n = f.bytes.len();
    let x = crc16_preimage(target) ^ crc16(&f.bytes[..n - 4]);
    f.bytes[n - 4..n - 2].copy_from_slice(&x.to_be_bytes());
    fix_crc(&mut f.bytes, f.header_len, false, true);
    assert_eq!(&f.bytes[n - 2..], &target.to_be_bytes());
    // What the frame says now, by the independent decoder.
    match model::frame(&f.bytes, true) {
        model::Outcome::Frame(d) if d.exact && !d.grey && d.end == n => f.samples = d.samples,
        o => panic!("special frame: {:?}", o),
    }
    cx.hit("special_crc16", match target {
        0 => 0,
        0xffff => 1,
        _ => 2,
    });
    f
}

fn c03_bitflips(cx: &mut Ctx) -> Res {
    let good = small_frame(cx, 24);
    let f = if cx.rng.chance(1, 4) { special_frame(cx, None) } else { small_frame(cx, 24) };
    let next = small_frame(cx, 24);
    let mut data = good.bytes.clone();
    let at = data.len();
    data.extend_from_slice(&f.bytes);
    data.extend_from_slice(&next.bytes);
    for bit in 0..f.bytes.len() * 8 {
        let mut d = data.clone();
        d[at + bit / 8] ^= 0x80 >> (bit % 8);
        cx.hit("flip_region", if bit / 8 < f.header_len { 0 } else if bit / 8 < f.bytes.len() - 2 { 1 } else { 2 });
        judge_frames(cx, &d, "one bit flipped")?;
    }
    cx.sample(|| format!("every single bit of {} flipped", hex(&f.bytes)));
    Ok(())
}

fn c03_crc_values(cx: &mut Ctx) -> Res {
    // Every wrong value of either checksum.
    let f = if cx.rng.chance(1, 2) { special_frame(cx, None) } else { small_frame(cx, 6) };
    judge_frames(cx, &f.bytes, "intact frame")?;
    let h = f.header_len;
    for x in 1..=255u8 {
        let mut d = f.bytes.clone();
        d[h - 1] ^= x;
        // CRC-16 recomputed, so that only the CRC-8 is wrong.
        fix_crc(&mut d, h, false, true);
        judge_frames(cx, &d, "wrong CRC-8, right CRC-16")?;
    }
    let step = if cx.thorough { 1 } else { 37 };
    let mut x = 1u32;
    while x <= 65535 {
        let mut d = f.bytes.clone();
        let n = d.len() - 2;
        d[n] ^= (x >> 8) as u8;
        d[n + 1] ^= x as u8;
        judge_frames(cx, &d, "wrong CRC-16")?;
        x += step;
    }
    // Swapped, inverted and shifted by one: plausible mistakes.
    let n = f.bytes.len() - 2;
    for v in 0..4 {
        let mut d = f.bytes.clone();
        match v {
            0 => d.swap(n, n + 1),
            1 => {
                d[n] = !d[n];
                d[n + 1] = !d[n + 1];
            }
            2 => {
                d[n] = 0;
                d[n + 1] = 0;
            }
            _ => {
                let c = crc16(&d[h..n]).to_be_bytes();
                d[n..].copy_from_slice(&c);
            }
        }
        judge_frames(cx, &d, "wrong CRC-16")?;
    }
    Ok(())
}

fn c03_mutate(cx: &mut Ctx) -> Res {
    let n = cx.rng.usize(1, 3);
    let max = if cx.rng.chance(1, 10) { 1500 } else { 60 };
    let frames: Vec<Frame> = (0..n).map(|_| small_frame(cx, max)).collect();
    let victim = cx.rng.usize(0, n - 1);
    for _ in 0..24 {
        let mut parts: Vec<Vec<u8>> = frames.iter().map(|f| f.bytes.clone()).collect();
        let h = frames[victim].header_len;
        let f = &mut parts[victim];
        let len = f.len();
        let how = cx.rng.below(11);
        cx.hit("mutation", how);
        match how {
            0 => {
                // Burst of at most 16 bits.
                let w = cx.rng.range(1, 16);
                let start = cx.rng.below(len as u64 * 8 - w);
                for b in start..start + w {
                    if b == start || b == start + w - 1 || cx.rng.chance(1, 2) {
                        f[(b / 8) as usize] ^= 0x80 >> (b % 8);
                    }
                }
            }
            1 => {
                let k = cx.rng.usize(2, 6);
                for _ in 0..k {
                    let b = cx.rng.below(len as u64 * 8);
                    f[(b / 8) as usize] ^= 0x80 >> (b % 8);
                }
            }
            2 => {
                let i = cx.rng.usize(0, len - 1);
                f[i] = cx.rng.u8();
            }
            3 => {
                let (i, j) = (cx.rng.usize(0, len - 1), cx.rng.usize(0, len - 1));
                f.swap(i, j);
            }
            4 => {
                let i = cx.rng.usize(0, len - 1);
                f.remove(i);
            }
            5 => {
                let i = cx.rng.usize(0, len);
                let b = cx.rng.u8();
                f.insert(i, b);
            }
            6 => {
                // The body changed by a multiple of the CRC-16 polynomial: the
                // checksum still matches, so the frame must not be refused for it.
                if len > h + 5 {
                    let i = cx.rng.usize(h, len - 3);
                    let sh = cx.rng.below(8) as u32;
                    let p = 0x18005u32 << sh;
                    for (k, b) in p.to_be_bytes().iter().enumerate().skip(1) {
                        if let Some(x) = f.get_mut(i + k - 1) {
                            *x ^= b;
                        }
                    }
                }
            }
            7 => {
                // Header damaged, frame checksum made right again.
                let b = cx.rng.below(h as u64 * 8);
                f[(b / 8) as usize] ^= 0x80 >> (b % 8);
                fix_crc(f, h, false, true);
            }
            8 => {
                // Header damaged, both made right again: a different frame.
                let b = 16 + cx.rng.below(h as u64 * 8 - 24);
                f[(b / 8) as usize] ^= 0x80 >> (b % 8);
                fix_crc(f, h, true, true);
            }
            9 => {
                // Body damaged, CRC-16 made right: garbage that must be accepted
                // or refused on its own merits.
                let i = cx.rng.usize(h, len - 1);
                f[i] ^= 1 << cx.rng.below(8);
                fix_crc(f, h, true, true);
            }
            _ => {
                // Header damaged, CRC-8 right, CRC-16 left wrong.
                let b = 16 + cx.rng.below(h as u64 * 8 - 24);
                f[(b / 8) as usize] ^= 0x80 >> (b % 8);
                fix_crc(f, h, true, false);
            }
        }
        let data: Vec<u8> = parts.concat();
        judge_frames(cx, &data, "mutated frames")?;
        if cx.rng.chance(1, 6) {
            // The same through the stream reader: blocks before the damaged one
            // are delivered unchanged.
            let s = assemble(
                Info::random(&mut cx.rng),
                None,
                vec![Meta { btype: 0, body: Info::random(&mut cx.rng).bytes() }],
                vec![],
                vec![],
            );
            let mut bytes = s.bytes.clone();
            bytes.extend_from_slice(&data);
            let sched = Sched::random(&mut cx.rng);
            let evs = guard("mutated stream", || stream(Src::of(&bytes, sched), 1, 100, false))?;
            for i in 0..victim {
                match evs.get(i + 1) {
                    Some(Ev::Block(b)) => check_block(b, &frames[i], "block before the damaged one")?,
                    e => bad!("frame {} before the damaged one gave {:?}", i, e),
                }
            }
            if let model::Outcome::Bad(w) = model::frame(&data[parts[..victim].concat().len()..], true) {
                ensure!(
                    matches!(evs.get(victim + 1), Some(Ev::Err(_))),
                    "damaged frame ({:?}) gave {:?}: {}",
                    w,
                    evs.get(victim + 1),
                    hex(&data)
                );
            }
        }
    }
    Ok(())
}

/// Long frames and long headers, so that the checksum registers run long.
fn c03_long(cx: &mut Ctx) -> Res {
    let cfg = pick_frame_cfg(&mut cx.rng, 6000);
    let f = encode_frame(&mut cx.rng, &cfg, &mut cx.stats.hist);
    judge_frames(cx, &f.bytes, "long frame")?;
    let len = f.bytes.len() as u64;
    for _ in 0..12 {
        let mut d = f.bytes.clone();
        let b = cx.rng.below(len * 8);
        d[(b / 8) as usize] ^= 0x80 >> (b % 8);
        judge_frames(cx, &d, "long frame, one bit flipped")?;
    }
    Ok(())
}

/// Every kind of header, with block sizes and numbers over their whole range, in
/// front of subframes that cost nothing to decode.
fn c03_headers(cx: &mut Ctx) -> Res {
    let bps = *cx.rng.pick(&BPS);
    let channels = if cx.rng.chance(1, 3) { cx.rng.range(1, 8) } else { cx.rng.range(1, 2) } as u32;
    let bs = match cx.rng.below(4) {
        0 => cx.rng.range(1, 65535) as u32,
        1 => 1 + cx.rng.log_size(65534) as u32,
        2 => *cx.rng.pick(&[192, 576, 1152, 2304, 4608, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768]),
        _ => *cx.rng.pick(&[1, 2, 16, 255, 256, 257, 32767, 32769, 65534, 65535]),
    };
    let mut fc = FrameCfg::new(bs, channels, bps);
    fc.plan.kind = Some(Kind::Constant);
    fc.signal = Some(cx.rng.range(1, 2) as u32);
    fc.variable = cx.rng.chance(1, 2);
    let bits = if fc.variable { 36 } else { 31 };
    fc.number = cx.rng.log_size((1u64 << bits) - 1);
    fc.sr_code = Some(cx.rng.below(15) as u32);
    fc.bs_code = Some(*cx.rng.pick(&bs_codes(bs)));
    cx.hit("header_bs_code", fc.bs_code.unwrap() as u64);
    cx.hit("header_sr_code", fc.sr_code.unwrap() as u64);
    let f = encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist);
    judge_frames(cx, &f.bytes, "constant frame")?;
    let h = f.header_len;
    for _ in 0..4 {
        let mut d = f.bytes.clone();
        d[h - 1] ^= match cx.rng.below(3) {
            0 => 1 << cx.rng.below(8),
            1 => 0xff,
            _ => cx.rng.range(1, 255) as u8,
        };
        fix_crc(&mut d, h, false, true);
        judge_frames(cx, &d, "wrong CRC-8, right CRC-16")?;
        let mut d = f.bytes.clone();
        let b = cx.rng.below(h as u64 * 8);
        d[(b / 8) as usize] ^= 0x80 >> (b % 8);
        fix_crc(&mut d, h, false, true);
        judge_frames(cx, &d, "header damaged, right CRC-16")?;
    }
    for how in 0..3 {
        let mut d = f.bytes.clone();
        let n = d.len();
        let x = match how {
            0 => 1 << cx.rng.below(16),
            1 => cx.rng.range(1, 65535) as u16,
            _ => u16::from_be_bytes([d[n - 2], d[n - 1]]) ^ *cx.rng.pick(&[0, 0xffff, 1, 0x8005]),
        };
        d[n - 2] ^= (x >> 8) as u8;
        d[n - 1] ^= x as u8;
        judge_frames(cx, &d, "wrong CRC-16")?;
    }
    // A different header, with both checksums made right for it.
    let mut d = f.bytes.clone();
    let b = 16 + cx.rng.below(h as u64 * 8 - 24);
    d[(b / 8) as usize] ^= 0x80 >> (b % 8);
    fix_crc(&mut d, h, true, true);
    judge_frames(cx, &d, "another header")
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "cases are sequences of valid frames of which one is damaged (every single bit; bursts; swaps, insertions and deletions; every wrong value of either checksum; damage with one or both checksums recomputed; damage by multiples of the CRC polynomial); each call is judged by checksums computed bitwise over exactly the bytes consumed and by an independent decoder; distinct by the bytes remaining at the call",
        stages: vec![
            Stage { name: "bitflips", quick: 1_600, thorough: 20_000, f: c03_bitflips },
            Stage { name: "crc_values", quick: 240, thorough: 400, f: c03_crc_values },
            Stage { name: "mutate", quick: 40_000, thorough: 400_000, f: c03_mutate },
            Stage { name: "long", quick: 1_500, thorough: 15_000, f: c03_long },
            Stage { name: "headers", quick: 5_000, thorough: 200_000, f: c03_headers },
        ],
        required: vec![
            ("mutation", 11),
            ("flip_region", 3),
            ("accepted_exact", 1),
            ("refused", 3),
            ("header_bs_code", 15),
            ("header_sr_code", 15),
            ("special_crc16", 3),
        ],
    }
}

// ---------------------------------------------------------------------------
// C04

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Format,
    Unsupported,
}

struct Raw {
    head: Vec<u8>,
    body: BitWriter,
}

impl Raw {
    fn finish(self) -> Vec<u8> {
        let mut b = self.head;
        b.push(crc8(&b));
        let mut w = self.body;
        w.align();
        b.extend_from_slice(&w.bytes);
        let c = crc16(&b);
        b.extend_from_slice(&c.to_be_bytes());
        b
    }
}

fn base_fields(rng: &mut Rng, bs: u32, channels: u32, bps: u32) -> HeaderFields {
    HeaderFields {
        variable: rng.chance(1, 2),
        bs_code: if bs <= 256 && rng.chance(1, 2) { 6 } else { 7 },
        block_size: bs,
        sr_code: rng.range(0, 14) as u32,
        sr_value: if rng.chance(1, 8) { rng.magic(0, 0xffff).unwrap_or(0) as u32 } else { rng.u32() },
        chan_code: channels - 1,
        bps_code: bps_code(bps),
        number: {
            let v = rng.log_size(0x7fff_ffff);
            coded_number(v)
        },
    }
}

fn put_constant(rng: &mut Rng, w: &mut BitWriter, bits: u32) {
    w.put(0, 8);
    w.put(rng.u64(), bits);
}

fn put_normal(cx: &mut Ctx, w: &mut BitWriter, n: usize, bits: u32) {
    let class = cx.rng.below(N_SIGNALS as u64) as u32;
    let x = signal(&mut cx.rng, n, bits, class);
    encode_subframe(&mut cx.rng, w, &x, bits, &SubPlan::default(), &mut cx.stats.hist);
}

/// A residual section for `n` samples of which `warm` are given, small values.
fn put_residual(rng: &mut Rng, w: &mut BitWriter, method: u64, pbits: u32, porder: u32, lens: &[usize]) {
    w.put(method, 2);
    w.put(porder as u64, 4);
    for &len in lens {
        let p = rng.range(0, 6) as u32;
        w.put(p as u64, pbits);
        for _ in 0..len {
            w.unary(rng.below(4));
            w.put(rng.u64(), p);
        }
    }
}

pub const N_TAMPERS: u64 = 26;

/// A frame whose only fault is the one named, with correct checksums, and whose
/// remainder is laid out as a decoder that overlooked the fault might read it.
fn tamper(cx: &mut Ctx, id: u64) -> (Vec<u8>, Want, String) {
    let bps = *cx.rng.pick(&BPS);
    let channels = cx.rng.range(1, 3) as u32;
    let bs = cx.rng.range(1, 40) as u32;
    let mut h = base_fields(&mut cx.rng, bs, channels, bps);
    let mut body = BitWriter::new();
    // Body of ordinary subframes, for faults in the header.
    let simple = cx.rng.chance(1, 2);
    let fill = |cx: &mut Ctx, body: &mut BitWriter, ch: u32, bits: u32| {
        for _ in 0..ch {
            if simple {
                put_constant(&mut cx.rng, body, bits)
            } else {
                put_normal(cx, body, bs as usize, bits)
            }
        }
    };
    // For faults inside a subframe: which channel has it.
    let at = cx.rng.range(0, channels as u64 - 1) as u32;
    let before = |cx: &mut Ctx, body: &mut BitWriter, n: usize| {
        for _ in 0..at {
            put_normal(cx, body, n, bps)
        }
    };
    let after = |cx: &mut Ctx, body: &mut BitWriter, n: usize| {
        for _ in at + 1..channels {
            put_normal(cx, body, n, bps)
        }
    };
    let fmt = |head: Vec<u8>, body: BitWriter, s: String| (Raw { head, body }.finish(), Want::Format, s);
    let uns = |head: Vec<u8>, body: BitWriter, s: String| (Raw { head, body }.finish(), Want::Unsupported, s);
    match id {
        0 => {
            fill(cx, &mut body, channels, bps);
            let mut head = header_bytes(&h);
            let b = cx.rng.below(14);
            head[(b / 8) as usize] ^= 0x80 >> (b % 8);
            fmt(head, body, format!("sync code, bit {} wrong", b))
        }
        1 => {
            fill(cx, &mut body, channels, bps);
            let mut head = header_bytes(&h);
            head[1] |= 2;
            fmt(head, body, "reserved bit after the sync code".into())
        }
        2 => {
            fill(cx, &mut body, channels, bps);
            let extra = cx.rng.usize(0, 2);
            h.bs_code = 0;
            h.sr_code = cx.rng.range(0, 11) as u32;
            let mut head = header_bytes(&h);
            head.extend_from_slice(&((bs - 1) as u16).to_be_bytes()[2 - extra..]);
            fmt(head, body, format!("block size code 0, {} bytes follow", extra))
        }
        3 => {
            fill(cx, &mut body, channels, bps);
            let extra = cx.rng.usize(0, 2);
            h.sr_code = 15;
            let mut head = header_bytes(&h);
            for _ in 0..extra {
                head.push(cx.rng.u8());
            }
            fmt(head, body, format!("sample rate code 15, {} bytes follow", extra))
        }
        4 => {
            let cc = cx.rng.range(11, 15) as u32;
            let n = *cx.rng.pick(&[1, 2, 2, cc + 1]);
            fill(cx, &mut body, n, bps);
            h.chan_code = cc;
            fmt(header_bytes(&h), body, format!("channel assignment {}, {} subframes", cc, n))
        }
        5 => {
            let b = *cx.rng.pick(&[8, 12, 16, 20, 24, 32, 14, 28]);
            let c = *cx.rng.pick(&[3u32, 7]);
            for _ in 0..channels {
                put_normal(cx, &mut body, bs as usize, b);
            }
            h.bps_code = c;
            fmt(header_bytes(&h), body, format!("bit depth code {}, coded with {}", c, b))
        }
        6 => {
            fill(cx, &mut body, channels, bps);
            let mut head = header_bytes(&h);
            head[3] |= 1;
            fmt(head, body, "reserved bit after the bit depth".into())
        }
        7 => {
            // Lead byte 10xxxxxx.
            fill(cx, &mut body, channels, bps);
            let extra = cx.rng.usize(0, 6);
            let mut num = vec![0x80 | cx.rng.u8() & 0x3f];
            for _ in 0..extra {
                num.push(0x80 | cx.rng.u8() & 0x3f);
            }
            h.number = num;
            fmt(header_bytes(&h), body, format!("coded number {:02x?}", h.number))
        }
        8 => {
            // Bad continuation byte.
            fill(cx, &mut body, channels, bps);
            h.variable = cx.rng.chance(1, 2);
            let bits = if h.variable { cx.rng.range(8, 36) } else { cx.rng.range(8, 31) };
            let v = cx.rng.below(1 << (bits - 1)) | 1 << (bits - 1);
            let mut num = coded_number(v);
            let i = cx.rng.usize(1, num.len() - 1);
            let tag = *cx.rng.pick(&[0u8, 1, 3]);
            num[i] = num[i] & 0x3f | tag << 6;
            h.number = num;
            fmt(header_bytes(&h), body, format!("coded number {:02x?}, byte {}", h.number, i))
        }
        9 => {
            // Lead byte of eight ones.
            fill(cx, &mut body, channels, bps);
            let k = *cx.rng.pick(&[7usize, 7, 7, 6, 5, 0]);
            let mut num = vec![0xff];
            let small = cx.rng.chance(1, 2);
            for i in 0..k {
                let x = if small && i + 5 < k { 0 } else if small && i + 5 == k { cx.rng.u8() & 1 } else { cx.rng.u8() };
                num.push(0x80 | x & 0x3f);
            }
            h.number = num;
            fmt(header_bytes(&h), body, format!("coded number {:02x?}", h.number))
        }
        10 => {
            fill(cx, &mut body, channels, bps);
            h.variable = false;
            let v = *cx.rng.pick(&[1u64 << 31, (1 << 31) + 1, 0xffff_ffff, 1 << 32, (1 << 36) - 1, 0]);
            let v = if v == 0 { cx.rng.range(1 << 31, (1 << 36) - 1) } else { v };
            h.number = coded_number(v);
            fmt(header_bytes(&h), body, format!("frame number {}", v))
        }
        11 => {
            for _ in 0..channels {
                put_constant(&mut cx.rng, &mut body, bps);
            }
            h.bs_code = 7;
            h.block_size = 65536;
            fmt(header_bytes(&h), body, "block size 65536".into())
        }
        12 => {
            before(cx, &mut body, bs as usize);
            let mut w = BitWriter::new();
            put_normal(cx, &mut w, bs as usize, bps);
            // Re-emit with the first bit set.
            let total = w.bit_len();
            for i in 0..total {
                let b = w.bytes[(i / 8) as usize] >> (7 - i % 8) & 1 == 1;
                body.bit(if i == 0 { true } else { b });
            }
            after(cx, &mut body, bs as usize);
            fmt(header_bytes(&h), body, format!("padding bit of subframe {}", at))
        }
        13 => {
            before(cx, &mut body, bs as usize);
            let types: Vec<u64> = (2..8).chain(13..32).collect();
            let ty = *cx.rng.pick(&types);
            body.put(0, 1);
            body.put(ty, 6);
            body.put(0, 1);
            let n = bs as usize;
            let kind = cx.rng.below(4);
            match kind {
                0 => body.put(cx.rng.u64(), bps),
                1 => {
                    for _ in 0..n {
                        body.put(cx.rng.u64(), bps);
                    }
                }
                _ => {
                    // Fixed predictor of the order that the low bits suggest.
                    let o = ((ty & 7) as usize).min(n);
                    for _ in 0..o {
                        body.put(cx.rng.u64(), bps);
                    }
                    put_residual(&mut cx.rng, &mut body, 0, 4, 0, &[n - o]);
                }
            }
            after(cx, &mut body, n);
            fmt(header_bytes(&h), body, format!("subframe type {} laid out as {}", ty, kind))
        }
        14 => {
            // Wasted bits that leave nothing.
            before(cx, &mut body, bs as usize);
            let k = match cx.rng.below(3) {
                0 => bps as u64,
                1 => cx.rng.range(bps as u64, 40),
                _ => *cx.rng.pick(&[bps as u64 + 1, 31.max(bps as u64), 32, 33, 40, 64, 255, 256, 257]),
            };
            let ty = *cx.rng.pick(&[0u64, 1, 8]);
            body.put(0, 1);
            body.put(ty, 6);
            body.put(1, 1);
            body.unary(k - 1);
            if ty == 8 {
                put_residual(&mut cx.rng, &mut body, 0, 4, 0, &[bs as usize]);
            } else {
                let z = *cx.rng.pick(&[0u32, 0, 8]);
                body.put(0, z);
            }
            after(cx, &mut body, bs as usize);
            fmt(header_bytes(&h), body, format!("{} wasted bits of {}", k, bps))
        }
        15 | 16 => {
            // Reserved residual coding method.
            before(cx, &mut body, bs as usize);
            let n = bs as usize;
            let method = cx.rng.range(2, 3);
            let pb = if id == 15 { 4 } else { 5 };
            let o = cx.rng.usize(0, 4.min(n));
            body.put(0, 1);
            if cx.rng.chance(1, 2) || o == 0 {
                body.put(8 + o as u64, 6);
                body.put(0, 1);
                for _ in 0..o {
                    body.put(cx.rng.u64() & 0xff, bps);
                }
            } else {
                body.put(32 + o as u64 - 1, 6);
                body.put(0, 1);
                for _ in 0..o {
                    body.put(cx.rng.u64() & 0xff, bps);
                }
                body.put(4, 4);
                body.put(3, 5);
                for _ in 0..o {
                    body.put(cx.rng.u64(), 5);
                }
            }
            put_residual(&mut cx.rng, &mut body, method, pb, 0, &[n - o]);
            after(cx, &mut body, n);
            fmt(header_bytes(&h), body, format!("residual method {}, {} bit parameters", method, pb))
        }
        17 => {
            // Partitions that do not divide the block.
            let po = cx.rng.range(1, 15) as u32;
            let n = if cx.rng.chance(1, 3) {
                // Divisible by as small a power of two as by a large one.
                let j = cx.rng.range(0, po as u64 - 1) as u32;
                let most = (65535u64 >> j).saturating_sub(1) / 2;
                let odd = 2 * cx.rng.log_size(most.min(40_000 >> j)) + 1;
                (odd << j) as usize
            } else {
                loop {
                    let n = cx.rng.range(1, 300) as usize;
                    if n % (1 << po) != 0 {
                        break n;
                    }
                }
            };
            cx.hit("indivisible", po as u64 * 16 + n.trailing_zeros() as u64);
            h = base_fields(&mut cx.rng, n as u32, channels, bps);
            before(cx, &mut body, n);
            let each = n >> po;
            let o = if each == 0 { 0 } else { cx.rng.usize(0, 4.min(each)) };
            body.put(8 + o as u64, 7);
            body.put(0, 1);
            for _ in 0..o {
                body.put(cx.rng.u64() & 0xff, bps);
            }
            let parts = 1usize << po;
            let mut lens = vec![each; parts];
            lens[0] -= o;
            let style = cx.rng.below(2);
            if style == 1 {
                lens[parts - 1] += n - (each << po);
            }
            put_residual(&mut cx.rng, &mut body, 0, 4, po, &lens);
            after(cx, &mut body, n);
            fmt(header_bytes(&h), body, format!("{} partitions for {} samples, style {}", parts, n, style))
        }
        18 => {
            // First partition shorter than the predictor order.
            let mut each = cx.rng.usize(1, 8);
            let po = match cx.rng.below(4) {
                0 => cx.rng.range(1, 15) as u32,
                _ => cx.rng.range(1, 4) as u32,
            };
            while each << po > 65535 {
                each = (each / 2).max(1);
            }
            let n = each << po;
            let lpc = cx.rng.chance(1, 2) || each >= 4;
            let max = if lpc { 32.min(n) } else { 4.min(n) };
            let o = cx.rng.usize(each + 1, max.max(each + 1)).min(n);
            h = base_fields(&mut cx.rng, n as u32, channels, bps);
            before(cx, &mut body, n);
            body.put(0, 1);
            if lpc {
                body.put(32 + o as u64 - 1, 6);
            } else {
                body.put(8 + o as u64, 6);
            }
            body.put(0, 1);
            for _ in 0..o {
                body.put(cx.rng.u64() & 0xff, bps);
            }
            if lpc {
                body.put(4, 4);
                body.put(3, 5);
                for _ in 0..o {
                    body.put(cx.rng.u64(), 5);
                }
            }
            // Whatever order exceeds the first partition is taken from the next.
            let parts = 1usize << po;
            let mut lens = vec![each; parts];
            let mut left = o;
            let style = cx.rng.below(2);
            for l in &mut lens {
                let k = left.min(*l);
                *l -= k;
                left -= k;
                if style == 1 {
                    break;
                }
            }
            put_residual(&mut cx.rng, &mut body, 0, 4, po, &lens);
            after(cx, &mut body, n);
            fmt(header_bytes(&h), body, format!("order {} but partitions of {}", o, each))
        }
        19 | 20 => {
            // Predictor order above the block size.
            let lpc = id == 20;
            let max = if lpc { 32 } else { 4 };
            let n = cx.rng.usize(1, max - 1);
            let o = cx.rng.usize(n + 1, max);
            h = base_fields(&mut cx.rng, n as u32, channels, bps);
            before(cx, &mut body, n);
            body.put(0, 1);
            body.put(if lpc { 32 + o as u64 - 1 } else { 8 + o as u64 }, 6);
            body.put(0, 1);
            let warm = if cx.rng.chance(1, 2) { o } else { n };
            for _ in 0..warm {
                body.put(cx.rng.u64() & 0xff, bps);
            }
            if lpc {
                body.put(4, 4);
                body.put(3, 5);
                for _ in 0..o {
                    body.put(cx.rng.u64(), 5);
                }
            }
            put_residual(&mut cx.rng, &mut body, 0, 4, 0, &[0]);
            after(cx, &mut body, n);
            fmt(header_bytes(&h), body, format!("order {} in a block of {}", o, n))
        }
        21 => {
            // Coefficient precision 16.
            let n = cx.rng.usize(1, 40);
            let o = cx.rng.usize(1, 32.min(n));
            h = base_fields(&mut cx.rng, n as u32, channels, bps);
            before(cx, &mut body, n);
            body.put(32 + o as u64 - 1, 7);
            body.put(0, 1);
            for _ in 0..o {
                body.put(cx.rng.u64() & 0xff, bps);
            }
            body.put(15, 4);
            body.put(cx.rng.below(16), 5);
            let w = *cx.rng.pick(&[16, 16, 16, 15]);
            for _ in 0..o {
                body.put(cx.rng.u64(), w);
            }
            put_residual(&mut cx.rng, &mut body, 0, 4, 0, &[n - o]);
            after(cx, &mut body, n);
            fmt(header_bytes(&h), body, format!("precision 16, order {}", o))
        }
        22 => {
            fill(cx, &mut body, channels, bps);
            h.bps_code = 0;
            uns(header_bytes(&h), body, "no bit depth in the header".into())
        }
        23 | 24 => {
            // Escape code in some partition.
            let pb = if id == 23 { 4 } else { 5 };
            let po = cx.rng.range(0, 3) as u32;
            let each = cx.rng.usize(1, 10);
            let n = each << po;
            h = base_fields(&mut cx.rng, n as u32, channels, bps);
            before(cx, &mut body, n);
            let o = cx.rng.usize(0, 4.min(each));
            body.put(8 + o as u64, 7);
            body.put(0, 1);
            for _ in 0..o {
                body.put(cx.rng.u64() & 0xff, bps);
            }
            body.put((pb == 5) as u64, 2);
            body.put(po as u64, 4);
            let which = cx.rng.usize(0, (1 << po) - 1);
            for p in 0..1usize << po {
                let len = if p == 0 { each - o } else { each };
                if p == which {
                    body.put((1 << pb) - 1, pb);
                    let width = cx.rng.below(20) as u32;
                    body.put(width as u64, 5);
                    for _ in 0..len {
                        body.put(cx.rng.u64(), width);
                    }
                } else {
                    let k = cx.rng.below(5) as u32;
                    body.put(k as u64, pb);
                    for _ in 0..len {
                        body.unary(cx.rng.below(3));
                        body.put(cx.rng.u64(), k);
                    }
                }
            }
            after(cx, &mut body, n);
            uns(header_bytes(&h), body, format!("escaped partition {} of {}, {} bit parameters", which, 1 << po, pb))
        }
        _ => {
            // Negative shift.
            let n = cx.rng.usize(1, 40);
            let o = cx.rng.usize(1, 32.min(n));
            h = base_fields(&mut cx.rng, n as u32, channels, bps);
            before(cx, &mut body, n);
            body.put(32 + o as u64 - 1, 7);
            body.put(0, 1);
            for _ in 0..o {
                body.put(cx.rng.u64() & 0xff, bps);
            }
            let prec = cx.rng.range(1, 15) as u32;
            body.put(prec as u64 - 1, 4);
            let s = cx.rng.irange(-16, -1);
            body.put_signed(s, 5);
            for _ in 0..o {
                body.put(cx.rng.u64(), prec);
            }
            put_residual(&mut cx.rng, &mut body, 0, 4, 0, &[n - o]);
            after(cx, &mut body, n);
            uns(header_bytes(&h), body, format!("shift {}", s))
        }
    }
}

fn c04_tampers(cx: &mut Ctx) -> Res {
    let id = cx.idx % N_TAMPERS;
    let (bytes, want, what) = tamper(cx, id);
    cx.hit("tamper", id);
    let pre = small_frame(cx, 20);
    let post = small_frame(cx, 20);
    let place = cx.rng.below(3);
    let mut data = Vec::new();
    let mut good = 0;
    if place > 0 {
        data.extend_from_slice(&pre.bytes);
        good = 1;
    }
    data.extend_from_slice(&bytes);
    if place < 2 {
        data.extend_from_slice(&post.bytes);
    }
    cx.sample(|| format!("{}: {}", what, hex(&bytes)));

    let judge = |evs: &[Ev], how: &str| -> Res {
        for i in 0..good {
            match evs.get(i) {
                Some(Ev::Block(b)) => check_block(b, &pre, "frame before")?,
                e => bad!("{}: {}: frame before gave {:?}", how, what, e),
            }
        }
        match (evs.get(good), want) {
            (Some(Ev::Err(E::Format(_))), Want::Format) => {}
            (Some(Ev::Err(E::Unsupported(_))), Want::Unsupported) => {}
            (e, _) => bad!("{}: {}: expected {:?} error, got {:?}: {}", how, what, want, e, hex(&bytes)),
        }
        Ok(())
    };

    let mut evs = Vec::new();
    guard(&what, || {
        let mut fr = FrameReader::new(Cursor::new(&data[..]));
        blocks(&mut fr, 1, 10, true, &mut evs)
    })
    .map_err(|Bad(m)| Bad(format!("{}: {}", m, hex(&bytes))))?;
    judge(&evs, "frame reader")?;

    // Through the stream reader, as blocks and as samples.
    let info = Info::random(&mut cx.rng);
    let mut st = b"fLaC".to_vec();
    st.extend(block_bytes(0, true, &info.bytes()));
    st.extend_from_slice(&data);
    let sched = Sched::random(&mut cx.rng);
    let evs = guard(&what, || stream(Src::of(&st, sched), 1, 10, false))?;
    ensure!(matches!(evs.first(), Some(Ev::Open { .. })), "could not open: {:?}", evs.first());
    judge(&evs[1..], "stream reader")?;

    let (vals, e) = guard(&what, || {
        let mut r = FlacReader::new(Cursor::new(&st[..])).unwrap();
        let mut vals = Vec::new();
        let mut e = None;
        for s in r.samples() {
            match s {
                Ok(v) => vals.push(v),
                Err(x) => {
                    e = Some(err(&x));
                    break;
                }
            }
        }
        (vals, e)
    })?;
    let want_vals = if good == 1 { interleave(&pre.samples) } else { Vec::new() };
    ensure!(vals == want_vals, "{}: sample iterator yielded {} samples instead of {}", what, vals.len(), want_vals.len());
    let ok = match (&e, want) {
        (Some(E::Format(_)), Want::Format) | (Some(E::Unsupported(_)), Want::Unsupported) => true,
        _ => false,
    };
    ensure!(ok, "{}: sample iterator: expected {:?} error, got {:?}: {}", what, want, e, hex(&bytes));
    cx.hit("refusals", want as u64);
    cx.eval_bytes(&bytes);
    Ok(())
}

pub fn interleave(ch: &[Vec<i32>]) -> Vec<i32> {
    let mut v = Vec::new();
    if ch.is_empty() {
        return v;
    }
    for i in 0..ch[0].len() {
        for c in ch {
            v.push(c[i]);
        }
    }
    v
}

/// The same faults in a subframe decoded on its own.
fn c04_subframe(cx: &mut Ctx) -> Res {
    let bps = cx.rng.range(1, 32) as u32;
    let n = cx.rng.usize(1, 40);
    let mut w = BitWriter::new();
    let which = cx.idx % 4;
    let (want, what);
    match which {
        0 => {
            w.put(1, 1);
            w.put(0, 7);
            w.put(cx.rng.u64(), bps);
            want = Want::Format;
            what = "padding bit".to_string();
        }
        1 => {
            let k = bps as u64 + cx.rng.log_size(40);
            w.put(0, 7);
            w.put(1, 1);
            w.unary(k - 1);
            w.put(0, 32);
            want = Want::Format;
            what = format!("{} wasted bits of {}", k, bps);
        }
        2 => {
            let types: Vec<u64> = (2..8).chain(13..32).collect();
            let ty = types[(cx.idx / 4 % types.len() as u64) as usize];
            w.put(0, 1);
            w.put(ty, 6);
            w.put(0, 1);
            for _ in 0..n {
                w.put(cx.rng.u64(), bps);
            }
            want = Want::Format;
            what = format!("type {}", ty);
        }
        _ => {
            let s = cx.rng.irange(-16, -1);
            w.put(32, 7);
            w.put(0, 1);
            w.put(cx.rng.u64(), bps);
            w.put(7, 4);
            w.put_signed(s, 5);
            w.put(cx.rng.u64(), 8);
            put_residual(&mut cx.rng, &mut w, 0, 4, 0, &[n - 1]);
            want = Want::Unsupported;
            what = format!("shift {}", s);
        }
    }
    w.put(0, 64);
    let data = w.bytes;
    let r = guard(&what, || {
        let mut bs = Bitstream::new(Cursor::new(&data[..]));
        let mut buf = vec![0; n];
        subframe::decode(&mut bs, bps, &mut buf).map_err(|e| err(&e))
    })?;
    let ok = match (&r, want) {
        (Err(E::Format(_)), Want::Format) | (Err(E::Unsupported(_)), Want::Unsupported) => true,
        _ => false,
    };
    ensure!(ok, "subframe with {}: expected {:?} error, got {:?}: {}", what, want, r, hex(&data));
    cx.eval_bytes(&data);
    Ok(())
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "cases are frames with exactly one forbidden or unsupported element, correct checksums, and a remainder that a decoder overlooking the fault could read to the end, alone or among valid frames, and faulty subframes on their own; the error class is compared with the one prescribed and no sample may come out; distinct by the bytes of the faulty frame",
        stages: vec![
            Stage { name: "tampers", quick: 1_040_000, thorough: 2_600_000, f: c04_tampers },
            Stage { name: "subframe", quick: 320_000, thorough: 400_000, f: c04_subframe },
        ],
        required: vec![("tamper", N_TAMPERS), ("refusals", 2), ("indivisible", 100)],
    }
}

// ---------------------------------------------------------------------------
// C05

fn c05_cut(cx: &mut Ctx, s: &Stream, cut: usize, how: u64) -> Res {
    let data = &s.bytes[..cut];
    let complete = s.offsets.iter().filter(|&&o| o > s.audio_start && o <= cut).count();
    let clean = s.offsets.contains(&cut);
    let sched = Sched::random(&mut cx.rng);
    let evs: Vec<Ev> = match how {
        0 => guard("cut stream", || stream(Src::of(data, sched), 1, s.frames.len() + 4, true))?,
        1 => guard("cut stream, samples", || {
            // As samples: reassembled into one pseudo-event list.
            let mut out = Vec::new();
            match FlacReader::new(Src::of(data, sched)) {
                Err(e) => out.push(Ev::OpenErr(err(&e))),
                Ok(mut r) => {
                    out.push(opened(&r));
                    let mut vals = Vec::new();
                    let mut end = Ev::Eof;
                    for x in r.samples() {
                        match x {
                            Ok(v) => vals.push(v),
                            Err(e) => end = Ev::Err(err(&e)),
                        }
                    }
                    out.push(Ev::Block(Blk { time: 0, duration: 0, channels: 1, samples: vec![vals] }));
                    out.push(end);
                }
            }
            out
        })?,
        2 => guard("cut stream, owned samples", || {
            let mut out = Vec::new();
            match FlacReader::new(Src::of(data, sched)) {
                Err(e) => out.push(Ev::OpenErr(err(&e))),
                Ok(r) => {
                    out.push(opened(&r));
                    let mut vals = Vec::new();
                    let mut end = Ev::Eof;
                    for x in r.into_samples() {
                        match x {
                            Ok(v) => vals.push(v),
                            Err(e) => end = Ev::Err(err(&e)),
                        }
                    }
                    out.push(Ev::Block(Blk { time: 0, duration: 0, channels: 1, samples: vec![vals] }));
                    out.push(end);
                }
            }
            out
        })?,
        _ => {
            // The audio part only, from a cursor.
            if cut < s.audio_start {
                return Ok(());
            }
            let mut evs = vec![Ev::Open { info: s.info.expect(), vendor: None, tags: vec![] }];
            guard("cut audio", || {
                let mut fr = FrameReader::new(Cursor::new(&data[s.audio_start..]));
                blocks(&mut fr, 1, s.frames.len() + 4, false, &mut evs)
            })?;
            evs
        }
    };
    let show = || format!("cut at {} of {} (audio from {}, frames end at {:?})", cut, s.bytes.len(), s.audio_start, s.offsets);
    cx.eval(hash_bytes(data).wrapping_add(how));
    if cut < s.audio_start {
        cx.hit("cut_in", 0);
        match &evs[0] {
            Ev::OpenErr(e) if e.is_eof() => return Ok(()),
            e => bad!("{}: opening gave {:?}", show(), e),
        }
    }
    cx.hit("cut_in", if clean { 1 } else { 2 });
    ensure!(matches!(evs[0], Ev::Open { .. }), "{}: opening gave {:?}", show(), evs[0]);
    if how == 1 || how == 2 {
        let mut want = Vec::new();
        for f in &s.frames[..complete] {
            want.extend(interleave(&f.samples));
        }
        match &evs[1] {
            Ev::Block(b) => ensure!(b.samples[0] == want, "{}: {} samples instead of {}", show(), b.samples[0].len(), want.len()),
            _ => unreachable!(),
        }
    } else {
        for (i, f) in s.frames[..complete].iter().enumerate() {
            match &evs[i + 1] {
                Ev::Block(b) => check_block(b, f, &show())?,
                e => bad!("{}: frame {} gave {:?}", show(), i, e),
            }
        }
        ensure!(evs.len() == complete + 2, "{}: {} events for {} complete frames", show(), evs.len(), complete);
    }
    let last = evs.last().unwrap();
    if clean {
        ensure!(*last == Ev::Eof, "{}: at a frame boundary, yet {:?}", show(), last);
    } else {
        match last {
            Ev::Err(e) if e.is_eof() => {}
            l => bad!("{}: inside a frame, yet {:?}", show(), l),
        }
        let inside = cut - s.offsets.iter().copied().filter(|&o| o <= cut).max().unwrap();
        cx.hit("bytes_into_frame", inside.min(20) as u64);
    }
    Ok(())
}

fn c05_all(cx: &mut Ctx) -> Res {
    let sc = StreamCfg { max_frames: 3, max_block: 40, max_meta: 3, max_meta_len: 30, uniform: false };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    if s.bytes.len() > 6000 {
        return Ok(());
    }
    cx.sample(|| format!("stream of {} bytes cut everywhere: {}", s.bytes.len(), hex(&s.bytes)));
    for cut in 0..=s.bytes.len() {
        let how = cx.rng.below(4);
        c05_cut(cx, &s, cut, how)?;
    }
    for &cut in &s.offsets {
        for d in 0..=2usize {
            for how in 0..4 {
                if cut + d <= s.bytes.len() {
                    c05_cut(cx, &s, cut + d, how)?;
                }
            }
        }
    }
    Ok(())
}

/// Longer streams, so that cuts fall around refills of the internal buffer.
fn c05_long(cx: &mut Ctx) -> Res {
    let sc = StreamCfg { max_frames: 6, max_block: 1200, max_meta: 4, max_meta_len: 3000, uniform: true };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let len = s.bytes.len();
    for _ in 0..24 {
        let cut = match cx.rng.below(4) {
            0 => {
                let o = *cx.rng.pick(&s.offsets);
                (o as i64 + cx.rng.irange(-3, 3)).max(0) as usize
            }
            1 => (cx.rng.range(0, len as u64 / 2048) * 2048) as usize + cx.rng.usize(0, 2),
            2 => {
                let o = *cx.rng.pick(&s.meta_offsets);
                (o as i64 + cx.rng.irange(-3, 5)).max(0) as usize
            }
            _ => cx.rng.usize(0, len),
        };
        let how = cx.rng.below(4);
        c05_cut(cx, &s, cut.min(len), how)?;
    }
    Ok(())
}

/// Metadata blocks read on their own, cut everywhere.
/// Streams of frames whose checksums have conspicuous values, cut everywhere,
/// through every interface.
fn c05_special(cx: &mut Ctx) -> Res {
    let n = cx.rng.usize(1, 3);
    let mut frames = Vec::new();
    for i in 0..n {
        let number = if cx.rng.chance(1, 2) { Some(i as u64) } else { None };
        frames.push(special_frame(cx, number));
    }
    let info = Info::random(&mut cx.rng);
    let times = frames.iter().map(|_| 0).collect();
    let metas = vec![Meta { btype: 0, body: info.bytes() }];
    let s = assemble(info, None, metas, frames, times);
    for cut in s.audio_start..=s.bytes.len() {
        for how in 0..4 {
            c05_cut(cx, &s, cut, how)?;
        }
    }
    Ok(())
}

fn c05_meta(cx: &mut Ctx) -> Res {
    let sc = StreamCfg { max_frames: 0, max_block: 16, max_meta: 5, max_meta_len: 60, uniform: true };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    for (m, _) in s.metas.iter().zip(&s.meta_offsets) {
        let b = block_bytes(m.btype, true, &m.body);
        for cut in 0..b.len() {
            let buffered = cx.rng.chance(1, 2);
            let sched = Sched::random(&mut cx.rng);
            let (r, again) = guard("cut metadata block", || {
                if buffered {
                    let mut rd = BufferedReader::new(Src::of(&b[..cut], sched));
                    let r = claxon::metadata::read_metadata_block_with_header(&mut rd).map(|_| ()).map_err(|e| err(&e));
                    (r, None)
                } else {
                    let mut it = claxon::metadata::MetadataBlockReader::new(Cursor::new(&b[..cut]));
                    let r = it.next().unwrap().map(|_| ()).map_err(|e| err(&e));
                    (r, Some(it.next().is_none()))
                }
            })?;
            match r {
                Err(e) if e.is_eof() => {}
                r => bad!("metadata block of type {} and {} bytes cut at {}: {:?}", m.btype, b.len(), cut, r),
            }
            ensure!(again != Some(false), "metadata iterator went on after the error");
            cx.hit("meta_cut_type", m.btype.min(8) as u64);
            cx.eval(hash_bytes(&b[..cut]));
        }
    }
    Ok(())
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "cases are valid streams cut at a byte: small ones at every byte, longer ones around frame, metadata and internal buffer boundaries, single metadata blocks at every byte; delivered blocks, samples and the final event are compared with what lies before the cut; distinct by the bytes left and the interface used",
        stages: vec![
            Stage { name: "all", quick: 3_900, thorough: 12_000, f: c05_all },
            Stage { name: "long", quick: 12_000, thorough: 60_000, f: c05_long },
            Stage { name: "meta", quick: 8_000, thorough: 20_000, f: c05_meta },
            Stage { name: "special", quick: 3_000, thorough: 60_000, f: c05_special },
        ],
        required: vec![("cut_in", 3), ("bytes_into_frame", 10), ("special_crc16", 3)],
    }
}
