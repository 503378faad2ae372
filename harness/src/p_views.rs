//! C14 views of decoded audio, C15 block times, C19 independence of readers.

use crate::core::*;
use crate::craft::*;
use crate::drive::*;
use crate::gen::*;
use crate::p_decode::interleave;
use crate::rng::{hash_bytes, Rng};
use crate::src::*;
use crate::{bad, ensure};
use claxon::frame::FrameReader;
use claxon::input::BufferedReader;
use claxon::{Block, FlacReader};
use std::io::Cursor;
use std::sync::{Arc, Barrier};

/// A stream whose frames may change shape, sometimes damaged or with hostile
/// frames among the others.
fn any_stream(cx: &mut Ctx, max_frames: usize, max_block: u32) -> (Stream, Vec<u8>) {
    let uniform = cx.rng.chance(1, 3);
    let max_block = real_sizes(&mut cx.rng, max_block);
    let sc = StreamCfg { max_frames, max_block, max_meta: 2, max_meta_len: 30, uniform };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let data = match cx.rng.below(4) {
        0 => crate::p_io::damage(&mut cx.rng, &s),
        1 => {
            let mut d = s.bytes[..s.audio_start].to_vec();
            for f in &s.frames {
                if cx.rng.chance(1, 3) {
                    let mut c = craft(&mut cx.rng, &mut cx.stats.hist, max_block);
                    let _ = catch(|| seal(&mut c));
                    d.extend_from_slice(&c);
                }
                d.extend_from_slice(&f.bytes);
            }
            d
        }
        _ => s.bytes.clone(),
    };
    (s, data)
}

// ---------------------------------------------------------------------------
// C14

/// Every accessor of one block.
fn check_accessors(cx: &mut Ctx, b: Block, what: &str) -> Res {
    let v = guard(what, || view(&b))?;
    let (n, ch) = (b.duration(), b.channels());
    ensure!(n > 0 && ch > 0, "{}: block without samples: {} x {}", what, ch, n);
    ensure!(b.len() == n * ch, "{}: len() is {} for {} x {}", what, b.len(), ch, n);
    for (c, s) in v.samples.iter().enumerate() {
        ensure!(s.len() == n as usize, "{}: channel {} has {} of {} samples", what, c, s.len(), n);
    }
    let step = if n > 64 && !cx.rng.chance(1, 20) { n / 37 } else { 1 };
    let mut i = 0;
    while i < n {
        for c in 0..ch {
            let x = guard(what, || b.sample(c, i))?;
            ensure!(x == v.samples[c as usize][i as usize], "{}: sample({}, {}) is {}, the channel has {}", what, c, i, x, v.samples[c as usize][i as usize]);
        }
        i += step.max(1);
        if i >= n && i != n - 1 + step.max(1) {
            i = n - 1;
        }
    }
    let out = *cx.rng.pick(&[0u32, 1, 2, 100, 65_535, 0x7fff_ffff, u32::MAX - 8]);
    let c = ch + out.min(u32::MAX - 8 - ch);
    ensure!(catch(|| b.channel(c).len()).is_err(), "{}: channel({}) of {} does not panic", what, c, ch);
    ensure!(catch(|| b.sample(c, 0)).is_err(), "{}: sample({}, 0) of {} channels does not panic", what, c, ch);
    ensure!(catch(|| b.sample(c, n - 1)).is_err(), "{}: sample({}, {}) of {} channels does not panic", what, c, n - 1, ch);
    let k = n.saturating_add(out);
    ensure!(catch(|| b.sample(ch - 1, k)).is_err(), "{}: sample({}, {}) of {} x {} does not panic", what, ch - 1, k, ch, n);
    cx.hit("channels", ch as u64);
    if ch == 2 {
        let mut it = guard(what, || b.stereo_samples())?;
        for i in 0..n as usize {
            let (lo, hi) = it.size_hint();
            let left = n as usize - i;
            ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{}: stereo size hint ({}, {:?}), {} left", what, lo, hi, left);
            let p = guard(what, || it.next())?;
            let want = Some((v.samples[0][i], v.samples[1][i]));
            ensure!(p == want, "{}: stereo pair {} is {:?} instead of {:?}", what, i, p, want);
        }
        for _ in 0..3 {
            let p = guard(what, || it.next())?;
            ensure!(p.is_none(), "{}: stereo pair {:?} after the end", what, p);
        }
        // Adapters that may be specialised.
        let k = cx.rng.usize(0, n as usize + 1);
        let a = guard(what, || b.stereo_samples().nth(k))?;
        let want = v.samples[0].get(k).map(|&l| (l, v.samples[1][k]));
        ensure!(a == want, "{}: stereo nth({}) is {:?} instead of {:?}", what, k, a, want);
        let pairs: Vec<(i32, i32)> = v.samples[0].iter().cloned().zip(v.samples[1].iter().cloned()).collect();
        exercise(&mut cx.rng, b.stereo_samples(), &pairs, |a, b| a == b, "stereo pairs")?;
        let c = guard(what, || b.stereo_samples().count())?;
        ensure!(c == n as usize, "{}: {} stereo pairs of {}", what, c, n);
        cx.hit("stereo", 1);
    } else {
        ensure!(catch(|| b.stereo_samples().count()).is_err(), "{}: stereo_samples() of {} channels does not panic", what, ch);
    }
    let flat: Vec<i32> = v.samples.concat();
    let buf = b.into_buffer();
    ensure!(buf == flat, "{}: into_buffer() differs from the channels", what);
    Ok(())
}

/// The values and the error that the sample iterator must produce.
fn as_samples(evs: &[Ev]) -> (Vec<i32>, Option<E>) {
    let mut v = Vec::new();
    for e in evs {
        match e {
            Ev::Block(b) => v.extend(interleave(&b.samples)),
            Ev::Err(e) => return (v, Some(e.clone())),
            Ev::Eof => return (v, None),
            Ev::Open { .. } | Ev::OpenErr(_) => {}
        }
    }
    (v, None)
}

fn check_samples_iter<I: Iterator<Item = claxon::Result<i32>>>(mut it: I, want: &[i32], end: &Option<E>, what: &str) -> Res {
    for (i, &w) in want.iter().enumerate() {
        let (lo, hi) = it.size_hint();
        let left = want.len() - i + end.is_some() as usize;
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{}: size hint ({}, {:?}), {} left", what, lo, hi, left);
        match guard(what, || it.next())? {
            Some(Ok(v)) if v == w => {}
            r => bad!("{}: item {} is {:?} instead of {}", what, i, r.map(|r| r.map_err(|e| err(&e))), w),
        }
    }
    if let Some(e) = end {
        match guard(what, || it.next())? {
            Some(Err(x)) if err(&x) == *e => {}
            r => bad!("{}: after {} samples {:?} instead of the error {:?}", what, want.len(), r.map(|r| r.map_err(|e| err(&e))), e),
        }
    }
    for k in 0..4 {
        match guard(what, || it.next())? {
            None => {}
            r => bad!("{}: {:?} from call {} after the end ({:?})", what, r.map(|r| r.map_err(|e| err(&e))), k, end),
        }
    }
    Ok(())
}

/// The block that holds nothing.
fn check_empty(cx: &mut Ctx) -> Res {
    let b = Block::empty();
    ensure!(b.duration() == 0 && b.channels() == 0 && b.len() == 0 && b.time() == 0, "the empty block has time {}, {} channels, {} samples, length {}", b.time(), b.channels(), b.duration(), b.len());
    for c in 1..4 {
        ensure!(catch(|| b.channel(c).len()).unwrap_or(0) == 0, "the empty block has a channel {} with samples", c);
    }
    ensure!(catch(|| b.sample(0, 0)).is_err(), "the empty block has a sample");
    ensure!(catch(|| b.stereo_samples().count()).is_err(), "the empty block has stereo samples");
    ensure!(b.into_buffer().is_empty(), "the empty block has a buffer with samples");
    cx.hit("empty", 1);
    Ok(())
}

fn c14_agree(cx: &mut Ctx) -> Res {
    check_empty(cx)?;
    let (s, data) = any_stream(cx, 6, 90);
    let evs = guard("blocks", || stream(&data[..], 1, 100, false))?;
    if matches!(evs[0], Ev::OpenErr(_)) {
        cx.eval_trivial();
        return Ok(());
    }
    let (want, end) = as_samples(&evs);
    cx.hit("ended_by", match &end {
        None => 0,
        Some(e) if e.is_eof() => 1,
        Some(_) => 2,
    });
    let open = |data: &[u8]| FlacReader::new(Cursor::new(data.to_vec())).map_err(|e| Bad(format!("does not open again: {:?}", err(&e))));
    {
        let mut r = open(&data)?;
        check_samples_iter(r.samples(), &want, &end, "samples()")?;
    }
    check_samples_iter(open(&data)?.into_samples(), &want, &end, "into_samples()")?;
    {
        // Through adapters.
        let mut r = open(&data)?;
        let got: Vec<Result<i32, E>> = guard("collect", || r.samples().map(|x| x.map_err(|e| err(&e))).collect())?;
        let mut w: Vec<Result<i32, E>> = want.iter().map(|&v| Ok(v)).collect();
        w.extend(end.iter().map(|e| Err(e.clone())));
        ensure!(got == w, "collected samples differ");
        let same = |x: &claxon::Result<i32>, w: &Result<i32, E>| match (x, w) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => err(a) == *b,
            _ => false,
        };
        let mut r = open(&data)?;
        exercise(&mut cx.rng, r.samples(), &w, same, "samples()")?;
        exercise(&mut cx.rng, open(&data)?.into_samples(), &w, same, "into_samples()")?;
        if !want.is_empty() {
            let k = cx.rng.usize(0, want.len() - 1);
            let mut it = open(&data)?.into_samples();
            let a = guard("nth", || it.nth(k))?;
            ensure!(matches!(a, Some(Ok(v)) if v == want[k]), "nth({}) is {:?} instead of {}", k, a.map(|r| r.map_err(|e| err(&e))), want[k]);
        }
    }
    let mut r = open(&data)?;
    let mut fr = r.blocks();
    let mut shapes = Vec::new();
    for e in &evs[1..] {
        if let Ev::Block(w) = e {
            match guard("blocks", || fr.read_next_or_eof(Vec::new()))? {
                Ok(Some(b)) => {
                    ensure!(view(&b) == *w, "the same block differs when decoded again");
                    shapes.push((b.channels(), b.duration()));
                    check_accessors(cx, b, "block")?;
                }
                r => bad!("the same block again: {:?}", r.map(|_| ()).map_err(|e| err(&e))),
            }
        }
    }
    if shapes.windows(2).any(|w| w[0].0 != w[1].0) {
        cx.hit("channel_count_changes", 1);
    }
    if shapes.windows(2).any(|w| w[0].1 != w[1].1) {
        cx.hit("block_size_changes", 1);
    }
    cx.eval(hash_bytes(&data));
    cx.sample(|| format!("{} frames, {} samples, end {:?}, shapes {:?}", s.frames.len(), want.len(), end, shapes));
    Ok(())
}

/// Any mixture of block readers and sample iterators, dropped half-way.
fn c14_mixed(cx: &mut Ctx) -> Res {
    let (_, data) = any_stream(cx, 9, 40);
    let mut evs = guard("blocks", || stream(&data[..], 12, 200, false))?;
    if matches!(evs[0], Ev::OpenErr(_)) {
        cx.eval_trivial();
        return Ok(());
    }
    evs.remove(0);
    if evs.is_empty() {
        return Ok(());
    }
    // Beyond what was recorded nothing is known, except after a clean end.
    let ends = evs.iter().position(|e| *e == Ev::Eof);
    let next = |cur: &mut usize| -> Option<Ev> {
        let e = match ends {
            Some(k) if *cur >= k => Some(Ev::Eof),
            _ => evs.get(*cur).cloned(),
        };
        *cur += 1;
        e
    };
    let mut cur = 0;
    let mut r = FlacReader::new(Cursor::new(data.clone())).map_err(|e| Bad(format!("does not open again: {:?}", err(&e))))?;
    let mut script = Vec::new();
    let steps = cx.rng.usize(2, 14);
    'all: for _ in 0..steps {
        let kind = cx.rng.below(3);
        if kind < 2 {
            let k = match cx.rng.below(4) {
                0 => 0,
                1 => 1,
                2 => cx.rng.log_size(50),
                _ => cx.rng.log_size(2000),
            };
            script.push(format!("samples {}", k));
            let mut it = r.samples();
            let mut queue: std::collections::VecDeque<i32> = Default::default();
            let mut failed = false;
            for n in 0..k {
                let want = if failed {
                    None
                } else if let Some(v) = queue.pop_front() {
                    Some(Ok(v))
                } else {
                    match next(&mut cur) {
                        Some(Ev::Block(b)) => {
                            queue.extend(interleave(&b.samples));
                            queue.pop_front().map(Ok)
                        }
                        Some(Ev::Eof) => None,
                        Some(Ev::Err(e)) => {
                            failed = true;
                            Some(Err(e))
                        }
                        _ => break 'all,
                    }
                };
                let got = guard("samples", || it.next())?.map(|r| r.map_err(|e| err(&e)));
                ensure!(got == want, "item {} after {:?} is {:?} instead of {:?}: {}", n, script, got, want, hex(&data));
                if got.is_none() && cx.rng.chance(1, 2) {
                    break;
                }
            }
            cx.hit("samples_dropped", if queue.is_empty() { 0 } else if failed { 2 } else { 1 });
        } else {
            let k = cx.rng.range(0, 3);
            script.push(format!("blocks {}", k));
            let mut fr = r.blocks();
            for _ in 0..k {
                let want = match next(&mut cur) {
                    Some(e) => e,
                    None => break 'all,
                };
                let got = match guard("blocks", || fr.read_next_or_eof(Vec::new()))? {
                    Ok(Some(b)) => Ev::Block(view(&b)),
                    Ok(None) => Ev::Eof,
                    Err(e) => Ev::Err(err(&e)),
                };
                let same = match (&got, &want) {
                    // The start time is the subject of C15.
                    (Ev::Block(a), Ev::Block(b)) => a.samples == b.samples && a.duration == b.duration,
                    (a, b) => a == b,
                };
                ensure!(same, "after {:?}: {:?} instead of {:?}: {}", script, got, want, hex(&data));
            }
        }
    }
    cx.hit("mixed_steps", script.len() as u64);
    cx.eval(hash_bytes(&data) ^ hash_bytes(script.join(",").as_bytes()));
    Ok(())
}

fn c14_large(cx: &mut Ctx) -> Res {
    let bs = *cx.rng.pick(&[65_535u32, 32_768, 65_534, 4096, 40_000]);
    let ch = if cx.rng.chance(1, 2) { 2 } else { cx.rng.range(1, 8) as u32 };
    let mut fc = FrameCfg::new(bs, ch, *cx.rng.pick(&BPS));
    fc.variable = true;
    fc.plan.kind = Some(*cx.rng.pick(&[Kind::Verbatim, Kind::Fixed(1)]));
    let f = encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist);
    let mut info = Info::random(&mut cx.rng);
    info.channels = ch;
    let s = assemble(info.clone(), None, vec![Meta { btype: 0, body: info.bytes() }], vec![f], vec![0]);
    let want = interleave(&s.frames[0].samples);
    let mut r = FlacReader::new(&s.bytes[..]).map_err(|e| Bad(format!("{:?}", err(&e))))?;
    check_samples_iter(r.samples(), &want, &None, "samples()")?;
    let mut fr = FrameReader::new(Cursor::new(s.audio()));
    match guard("block", || fr.read_next_or_eof(Vec::new()))? {
        Ok(Some(b)) => check_accessors(cx, b, "large block")?,
        r => bad!("large block: {:?}", r.map(|_| ()).map_err(|e| err(&e))),
    }
    cx.eval_bytes(&s.bytes);
    Ok(())
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "a case is a stream whose frames change channel count, depth and size, whole, damaged or with hostile frames, read through every view: block accessors (also out of range), stereo pairs, sample iterators by value and by reference, and a random script of iterators and block readers created and dropped half-way; each is compared with the blocks; distinct by bytes and script; trivial: does not open",
        stages: vec![
            Stage { name: "agree", quick: 80_000, thorough: 3_000_000, f: c14_agree },
            Stage { name: "mixed", quick: 80_000, thorough: 3_000_000, f: c14_mixed },
            Stage { name: "large", quick: 60, thorough: 1_500, f: c14_large },
            Stage { name: "far", quick: 1, thorough: 8, f: crate::p_far::c14_far },
        ],
        required: vec![("ended_by", 3), ("channels", 8), ("stereo", 1), ("channel_count_changes", 1), ("block_size_changes", 1), ("samples_dropped", 2), ("mixed_steps", 10)],
    }
}

// ---------------------------------------------------------------------------
// C15

fn times_of(evs: &[Ev]) -> Vec<u64> {
    evs.iter().filter_map(|e| if let Ev::Block(b) = e { Some(b.time) } else { None }).collect()
}

fn c15_streams(cx: &mut Ctx) -> Res {
    let max_block = *cx.rng.pick(&[20, 200, 1200]);
    let max_block = real_sizes(&mut cx.rng, max_block);
    let sc = StreamCfg { max_frames: 8, max_block, max_meta: 1, max_meta_len: 20, uniform: cx.rng.chance(1, 2) };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    if s.frames.is_empty() {
        cx.eval_trivial();
        return Ok(());
    }
    let fixed = !s.frames[0].variable;
    let full = s.info.min_bs as u32;
    let short_last = fixed && s.frames.last().unwrap().block_size < full;
    let desc = || format!("{} block size, sizes {:?}, numbers {:?}", if fixed { "fixed" } else { "variable" }, s.frames.iter().map(|f| f.block_size).collect::<Vec<_>>(), s.frames.iter().map(|f| f.number).collect::<Vec<_>>());
    // Through one or several block readers over one stream reader.
    let mut r = match guard("open", || FlacReader::new(&s.bytes[..]))? {
        Ok(r) => r,
        Err(e) => bad!("does not open: {:?}", err(&e)),
    };
    let mut got = Vec::new();
    let mut splits = 0;
    while got.len() < s.frames.len() {
        let mut fr = r.blocks();
        let k = cx.rng.usize(1, s.frames.len());
        splits += 1;
        for _ in 0..k {
            match guard("block", || fr.read_next_or_eof(Vec::new()))? {
                Ok(Some(b)) => got.push(b.time()),
                Ok(None) => break,
                Err(e) => bad!("{}: {:?}", desc(), err(&e)),
            }
        }
        if got.len() < s.frames.len() && cx.rng.chance(1, 4) {
            // A sample iterator in between takes one whole block.
            match guard("samples", || r.samples().next().map(|x| x.map_err(|e| err(&e))))? {
                Some(Ok(_)) => got.push(s.times[got.len()]),
                x => bad!("{}: sample iterator: {:?}", desc(), x),
            }
        }
    }
    ensure!(got == s.times, "{}: times {:?} instead of {:?}, over {} block readers", desc(), got, s.times, splits);
    // With the samples before it counted.
    if s.frames[0].number == 0 {
        let mut sum = 0;
        for (i, f) in s.frames.iter().enumerate() {
            ensure!(got[i] == sum, "{}: block {} starts at {}, {} samples came before", desc(), i, got[i], sum);
            sum += f.block_size as u64;
        }
        cx.hit("numbered_from_zero", fixed as u64);
    }
    // A bare frame reader, from a full block on.
    let from = cx.rng.usize(0, s.frames.len() - 1);
    if !(short_last && from == s.frames.len() - 1) {
        let mut evs = Vec::new();
        let mut fr = FrameReader::new(BufferedReader::new(&s.bytes[s.offsets[from]..]));
        guard("frames", || blocks(&mut fr, 1, 100, cx.idx % 2 == 0, &mut evs))?;
        let t = times_of(&evs);
        ensure!(t == s.times[from..], "{}: times {:?} instead of {:?} from a bare frame reader", desc(), t, &s.times[from..]);
        cx.hit("bare", 1);
    }
    cx.hit("short_last", short_last as u64 * 2 + fixed as u64);
    cx.hit("splits", splits);
    cx.eval_bytes(&s.bytes);
    cx.sample(desc);
    Ok(())
}

/// Single frames with extreme numbers.
fn c15_numbers(cx: &mut Ctx) -> Res {
    let variable = cx.idx % 2 == 0;
    let top: u64 = if variable { (1 << 36) - 1 } else { 0x7fff_ffff };
    let bit = (cx.idx / 2) % if variable { 36 } else { 31 };
    let number = match (cx.idx / 100) % 5 {
        0 => 1u64 << bit,
        1 => (1u64 << bit) - 1,
        2 => ((1u64 << bit) + cx.rng.below(1u64 << bit)).min(top),
        3 => cx.rng.range(0, top),
        _ => top - cx.rng.log_size(1000),
    };
    let bs = match cx.rng.below(4) {
        0 => 65_535,
        1 => 1,
        _ => pick_block_size(&mut cx.rng, 65_535),
    };
    let mut fc = FrameCfg::new(bs, 1, 8);
    fc.variable = variable;
    fc.number = number;
    fc.plan.kind = Some(Kind::Constant);
    fc.signal = Some(0);
    let f = encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist);
    let want = if variable { number } else { number * bs as u64 };
    let mut fr = FrameReader::new(Cursor::new(&f.bytes[..]));
    match guard("frame", || fr.read_next_or_eof(Vec::new()))? {
        Ok(Some(b)) => ensure!(b.time() == want, "{} number {} with block size {}: time {} instead of {}", if variable { "sample" } else { "frame" }, number, bs, b.time(), want),
        r => bad!("number {}: {:?}", number, r.map(|_| ()).map_err(|e| err(&e))),
    }
    cx.hit(if variable { "sample_number_bits" } else { "frame_number_bits" }, 64 - number.leading_zeros() as u64);
    cx.hit("time_beyond_32_bits", (want > u32::MAX as u64) as u64);
    cx.eval(hash_bytes(&f.bytes));
    Ok(())
}

/// Long fixed-block-size streams that end in a short block, far from zero.
fn c15_short(cx: &mut Ctx) -> Res {
    let full = cx.rng.range(16, 65_535) as u32;
    let last = cx.rng.range(1, full as u64) as u32;
    let n = cx.rng.usize(1, 3);
    let number = cx.rng.log_size(0x7fff_ffff - 4);
    let mut frames = Vec::new();
    let mut times = Vec::new();
    for i in 0..n {
        let mut fc = FrameCfg::new(if i + 1 == n { last } else { full }, 1, 8);
        fc.number = number + i as u64;
        fc.plan.kind = Some(Kind::Constant);
        fc.signal = Some(0);
        times.push(fc.number * full as u64);
        frames.push(encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist));
    }
    let mut info = Info::random(&mut cx.rng);
    info.min_bs = full as u16;
    info.max_bs = full as u16;
    info.channels = 1;
    info.bps = 8;
    let s = assemble(info.clone(), None, vec![Meta { btype: 0, body: info.bytes() }], frames, times.clone());
    let evs = guard("stream", || stream(&s.bytes[..], 1, 10, true))?;
    let got = times_of(&evs);
    ensure!(got == times, "fixed block size {}, last block {}, frame numbers from {}: times {:?} instead of {:?}", full, last, number, got, times);
    cx.hit("short_blocks", n as u64);
    cx.eval_bytes(&s.bytes);
    Ok(())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "a case is a stream of fixed or variable block size, numbered from zero or from anywhere up to the limits, with or without a shorter last block, read through one or several block readers; or a single frame with a number at every bit length; the time of every block is compared with the position of its first sample; distinct by bytes; trivial: no frames",
        stages: vec![
            Stage { name: "streams", quick: 100_000, thorough: 4_000_000, f: c15_streams },
            Stage { name: "numbers", quick: 100_000, thorough: 4_000_000, f: c15_numbers },
            Stage { name: "short", quick: 20_000, thorough: 500_000, f: c15_short },
            Stage { name: "far", quick: 1, thorough: 8, f: crate::p_far::c15_far },
        ],
        required: vec![("short_last", 3), ("numbered_from_zero", 2), ("splits", 4), ("bare", 1), ("sample_number_bits", 36), ("frame_number_bits", 31), ("time_beyond_32_bits", 2), ("short_blocks", 3)],
    }
}

// ---------------------------------------------------------------------------
// C19

/// Moves anything to another thread. Whether the compiler would have allowed it
/// is checked separately, so that this still builds when it would not.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    fn get(self) -> T {
        self.0
    }
}

struct Probe<T>(std::marker::PhantomData<T>);
trait NotThreadSafe {
    fn sendable(&self) -> bool {
        false
    }
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> NotThreadSafe for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    fn sendable(&self) -> bool {
        true
    }
    fn shareable(&self) -> bool {
        true
    }
}

type Mem = Cursor<Vec<u8>>;

fn c19_types(cx: &mut Ctx) -> Res {
    macro_rules! ask {
        ($($t:ty),* $(,)?) => {
            $({
                let p = Probe::<$t>(std::marker::PhantomData);
                ensure!(p.sendable() && p.shareable(), "{} cannot be used from other threads", stringify!($t));
                cx.hit("types", hash_bytes(stringify!($t).as_bytes()) % 1000);
            })*
        };
    }
    ask!(
        FlacReader<Mem>,
        FlacReader<std::fs::File>,
        Block,
        FrameReader<Mem>,
        FrameReader<BufferedReader<Mem>>,
        BufferedReader<Mem>,
        claxon::FlacSamples<Mem>,
        claxon::FlacIntoSamples<BufferedReader<Mem>>,
        claxon::frame::StereoSamples<'static>,
        claxon::metadata::MetadataBlock,
        claxon::metadata::MetadataBlockReader<Mem>,
        claxon::metadata::Tags<'static>,
        claxon::metadata::GetTag<'static>,
        claxon::input::Bitstream<Mem>,
        claxon::Error,
        claxon::FlacReaderOptions,
    );
    cx.eval(1);
    Ok(())
}

/// What one reader must report, known before anything runs at the same time.
struct Job {
    data: Arc<Vec<u8>>,
    want: Vec<Ev>,
}

fn jobs(cx: &mut Ctx, n: usize, max_block: u32) -> Result<Vec<Job>, Bad> {
    let mut v = Vec::new();
    for _ in 0..n {
        let (s, data) = any_stream(cx, 5, max_block);
        let want = guard("alone", || stream(&data[..], 2, 60, false))?;
        if data == s.bytes {
            // Checked against what was encoded, not only against itself.
            for (i, f) in s.frames.iter().enumerate() {
                match want.get(i + 1) {
                    Some(Ev::Block(b)) => {
                        check_block(b, f, "alone")?;
                        ensure!(b.time == s.times[i], "alone: block at {} instead of {}", b.time, s.times[i]);
                    }
                    e => bad!("alone: {:?}", e),
                }
            }
            cx.hit("intact_jobs", 1);
        }
        v.push(Job { data: Arc::new(data), want });
    }
    Ok(v)
}

/// Several readers stepped in turn on one thread.
fn c19_interleaved(cx: &mut Ctx) -> Res {
    let n = cx.rng.usize(2, 6);
    let js = jobs(cx, n, 60)?;
    struct R {
        r: Option<FlacReader<Cursor<Vec<u8>>>>,
        fr: Option<claxon::FlacIntoSamples<BufferedReader<Cursor<Vec<u8>>>>>,
        at: usize,
        stops: usize,
        buf: Vec<i32>,
        job: usize,
        vals: Vec<i32>,
    }
    let mut rs: Vec<R> = Vec::new();
    for _ in 0..n + 2 {
        let job = cx.rng.usize(0, n - 1);
        rs.push(R { r: None, fr: None, at: 0, stops: 0, buf: Vec::new(), job, vals: Vec::new() });
    }
    let mut switches = 0;
    let mut last = usize::MAX;
    let mut budget = 4000;
    let mut pool: Vec<i32> = Vec::new();
    loop {
        let alive: Vec<usize> = (0..rs.len()).filter(|&i| rs[i].at < js[rs[i].job].want.len()).collect();
        if alive.is_empty() || budget == 0 {
            break;
        }
        budget -= 1;
        let i = *cx.rng.pick(&alive);
        if i != last {
            switches += 1;
            last = i;
        }
        let x = &mut rs[i];
        let job = &js[x.job];
        let what = format!("reader {} of {} in turn", i, n + 2);
        if x.at == 0 {
            let got = match guard(&what, || FlacReader::new(Cursor::new(job.data.to_vec())))? {
                Ok(r) => {
                    let o = opened(&r);
                    x.r = Some(r);
                    o
                }
                Err(e) => Ev::OpenErr(err(&e)),
            };
            ensure!(got == job.want[0], "{}: {:?} instead of {:?}", what, got, job.want[0]);
            x.at = 1;
            if i >= n && x.r.is_some() {
                // These are read by samples.
                x.fr = x.r.take().map(|r| r.into_samples());
            }
            continue;
        }
        if let Some(it) = &mut x.fr {
            let k = cx.rng.usize(1, 60);
            let (want, end) = as_samples(&job.want);
            for _ in 0..k {
                let got = guard(&what, || it.next())?.map(|r| r.map_err(|e| err(&e)));
                let w = match want.get(x.vals.len()) {
                    Some(&v) => Some(Ok(v)),
                    None => end.clone().map(Err),
                };
                ensure!(got == w, "{}: sample {} is {:?} instead of {:?}", what, x.vals.len(), got, w);
                match got {
                    Some(Ok(v)) => x.vals.push(v),
                    _ => {
                        x.at = job.want.len();
                        break;
                    }
                }
            }
            continue;
        }
        let r = match &mut x.r {
            Some(r) => r,
            None => {
                x.at = job.want.len();
                continue;
            }
        };
        // Buffers wander between readers.
        let b = if cx.rng.chance(1, 2) { std::mem::take(&mut pool) } else { std::mem::take(&mut x.buf) };
        let got = match guard(&what, || r.blocks().read_next_or_eof(b))? {
            Ok(Some(b)) => {
                let v = view(&b);
                if cx.rng.chance(1, 2) {
                    pool = b.into_buffer();
                } else {
                    x.buf = b.into_buffer();
                }
                Ev::Block(v)
            }
            Ok(None) => Ev::Eof,
            Err(e) => Ev::Err(err(&e)),
        };
        // Damaged or irregular streams: a block reader made anew may know less
        // about the block size that frame numbers count.
        let same = match (&got, &job.want[x.at]) {
            (Ev::Block(a), Ev::Block(b)) => a.samples == b.samples && a.duration == b.duration,
            (a, b) => a == b,
        };
        ensure!(same, "{}: event {} is {:?} instead of {:?}", what, x.at, got, job.want[x.at]);
        x.at += 1;
        let _ = x.stops;
    }
    cx.hit("readers_in_turn", (n + 2) as u64);
    cx.hit("switches", (switches as u64).min(500) / 25);
    cx.eval(js.iter().fold(0, |a, j| a ^ hash_bytes(&j.data)));
    Ok(())
}

/// The same and different streams at the same time, readers handed from thread
/// to thread in mid-stream.
fn c19_threads(cx: &mut Ctx) -> Res {
    let n = if cfg!(miri) { 2 } else { 4 };
    let k = if cx.rng.chance(1, 3) { 1 } else { 3 };
    let js = jobs(cx, k, if cfg!(miri) { 8 } else { 150 })?;
    let rounds = if cfg!(miri) { 1 } else { 3 };
    let seed = cx.rng.u64();
    let barrier = Barrier::new(n);
    let js = &js;
    let barrier = &barrier;
    type Parcel = Force<(usize, FlacReader<Cursor<Vec<u8>>>, usize, Block)>;
    let mut txs = Vec::new();
    let mut rxs = Vec::new();
    for _ in 0..n {
        let (tx, rx) = std::sync::mpsc::channel::<Parcel>();
        txs.push(tx);
        rxs.push(rx);
    }
    let results: Vec<(Res, u64)> = std::thread::scope(|s| {
        let mut hs = Vec::new();
        for (t, rx) in rxs.into_iter().enumerate() {
            let tx = txs[(t + 1) % n].clone();
            let rx = Force(rx);
            hs.push(s.spawn(move || {
                let rx = rx.get();
                let mut moved = 0;
                let mut rng = Rng::new(seed ^ t as u64);
                let go = || -> Res {
                    let tx = tx;
                    barrier.wait();
                    for _ in 0..rounds {
                        let j = rng.usize(0, js.len() - 1);
                        let job = &js[j];
                        let sched = Sched::random(&mut rng);
                        let got = guard("on a thread", || stream(Src::new(job.data.clone(), sched), 2, 60, rng.chance(1, 2)))?;
                        if let Some(d) = first_diff(&job.want, &got) {
                            bad!("on thread {} of {}: expected/got {}", t, n, d);
                        }
                        // Open one here, decode a little, and hand it on.
                        if let Ok(mut r) = guard("on a thread", || FlacReader::new(Cursor::new(job.data.to_vec())))? {
                            let mut evs = vec![opened(&r)];
                            let k = rng.usize(0, 3);
                            let mut fr = r.blocks();
                            let mut keep = Block::empty();
                            while evs.len() < (k + 1).min(job.want.len()) {
                                match guard("on a thread", || fr.read_next_or_eof(Vec::new()))? {
                                    Ok(Some(b)) => {
                                        evs.push(Ev::Block(view(&b)));
                                        keep = b;
                                    }
                                    Ok(None) => evs.push(Ev::Eof),
                                    Err(e) => evs.push(Ev::Err(err(&e))),
                                }
                            }
                            drop(fr);
                            if let Some(d) = first_diff(&job.want[..evs.len()], &evs) {
                                bad!("on thread {} of {}, first part: expected/got {}", t, n, d);
                            }
                            let _ = tx.send(Force((j, r, evs.len(), keep)));
                        }
                    }
                    Ok(())
                };
                let r = go();
                let mut finish = || -> Res {
                    while let Ok(p) = rx.recv() {
                        let (j, mut r, at, keep) = p.get();
                        moved += 1;
                        let job = &js[j];
                        ensure!(opened(&r) == job.want[0], "metadata changed on the way to another thread");
                        if let Some(Ev::Block(b)) = job.want[..at].iter().rev().find(|e| matches!(e, Ev::Block(_))) {
                            ensure!(view(&keep) == *b, "block changed on the way to another thread");
                        }
                        let mut fr = r.blocks();
                        let mut buf = keep.into_buffer();
                        for w in &job.want[at..] {
                            let got = match guard("moved reader", || fr.read_next_or_eof(std::mem::take(&mut buf)))? {
                                Ok(Some(b)) => {
                                    let v = view(&b);
                                    buf = b.into_buffer();
                                    Ev::Block(v)
                                }
                                Ok(None) => Ev::Eof,
                                Err(e) => Ev::Err(err(&e)),
                            };
                            let same = match (&got, w) {
                                (Ev::Block(a), Ev::Block(b)) => a.samples == b.samples,
                                (a, b) => a == b,
                            };
                            ensure!(same, "reader moved in mid-stream: {:?} instead of {:?}", got, w);
                        }
                    }
                    Ok(())
                };
                let r2 = finish();
                (r.and(r2), moved)
            }));
        }
        drop(txs);
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (r, moved) in results {
        r?;
        cx.stats.hist.add("moved_between_threads", 0, moved);
    }
    cx.hit("thread_groups", js.len() as u64);
    cx.eval(js.iter().fold(seed, |a, j| a ^ hash_bytes(&j.data)));
    Ok(())
}

/// Shared read access from several threads.
fn c19_shared(cx: &mut Ctx) -> Res {
    let mut fc = FrameCfg::new(pick_block_size(&mut cx.rng, 100), 2, 16);
    fc.variable = true;
    let f = encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist);
    let tags = Tags::random(&mut cx.rng, 6, 20);
    let mut info = Info::random(&mut cx.rng);
    info.channels = 2;
    let body = tags.bytes(&mut cx.rng, 1);
    let s = assemble(info.clone(), Some(tags.clone()), vec![Meta { btype: 0, body: info.bytes() }, Meta { btype: 4, body }], vec![f], vec![0]);
    let mut r = FlacReader::new(Cursor::new(s.bytes.clone())).map_err(|e| Bad(format!("{:?}", err(&e))))?;
    let b = match r.blocks().read_next_or_eof(Vec::new()) {
        Ok(Some(b)) => b,
        _ => bad!("valid frame refused"),
    };
    struct Share<'a>(&'a FlacReader<Cursor<Vec<u8>>>, &'a Block);
    unsafe impl<'a> Sync for Share<'a> {}
    let sh = Share(&r, &b);
    let sh = &sh;
    let (tags, frame) = (&tags, &s.frames[0]);
    let barrier = Barrier::new(3);
    let barrier = &barrier;
    let res: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..3)
            .map(|_| {
                sc.spawn(move || -> Res {
                    barrier.wait();
                    let Share(r, b) = sh;
                    ensure!(r.vendor() == Some(&tags.vendor[..]), "vendor differs when shared");
                    let got: Vec<(String, String)> = r.tags().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                    ensure!(got == tags.pairs, "tags differ when shared");
                    for (n, _) in &tags.pairs {
                        ensure!(r.get_tag(n).next().is_some(), "tag not found when shared");
                    }
                    check_block(&view(b), frame, "shared block")?;
                    let pairs: Vec<(i32, i32)> = b.stereo_samples().collect();
                    ensure!(pairs.len() == frame.block_size as usize, "stereo pairs differ when shared");
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in res {
        r?;
    }
    cx.hit("shared", 1);
    cx.eval_bytes(&s.bytes);
    Ok(())
}

/// The first thing a process does with the library, from several threads at
/// the same instant: what is set up on first use must be set up for everybody.
#[cfg(not(miri))]
fn c19_fresh(cx: &mut Ctx) -> Res {
    let seed = cx.rng.u64();
    let exe = std::env::current_exe().unwrap();
    let out = std::process::Command::new(exe).arg("fresh").arg(seed.to_string()).output().unwrap();
    let tell = || {
        let mut t = String::from_utf8_lossy(&out.stdout).to_string();
        t.push_str(&String::from_utf8_lossy(&out.stderr));
        t.chars().take(6000).collect::<String>()
    };
    match out.status.code() {
        Some(0) => {}
        Some(3) | Some(86) | Some(87) | Some(88) | Some(99) => bad!("in a process of its own: {}", tell()),
        c => panic!("child process ended with {:?}: {}", c, tell()),
    }
    cx.hit("processes", 1);
    cx.eval(seed);
    Ok(())
}

#[cfg(miri)]
fn c19_fresh(_: &mut Ctx) -> Res {
    Ok(())
}

/// What such a process does.
pub fn fresh(seed: u64) -> Res {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let mut cx = Ctx {
        rng: Rng::new(seed),
        stats: Default::default(),
        thorough: false,
        idx: 0,
        want_sample: false,
        verbose: false,
    };
    let n = cx.rng.usize(2, 6);
    let k = if cx.rng.chance(1, 2) { 1 } else { n };
    let max_block = if cx.rng.chance(1, 2) { 40 } else { 600 };
    let mut ss = Vec::new();
    for _ in 0..k {
        let uniform = cx.rng.chance(1, 2);
        let sc = StreamCfg { max_frames: 3, max_block, max_meta: 2, max_meta_len: 30, uniform };
        let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
        ss.push((Arc::new(s.bytes.clone()), s));
    }
    let waiting = AtomicUsize::new(0);
    let got: Vec<Result<Vec<Ev>, Bad>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (data, waiting) = (ss[t % k].0.clone(), &waiting);
                sc.spawn(move || {
                    waiting.fetch_add(1, Ordering::Relaxed);
                    let mut spins = 0u32;
                    while waiting.load(Ordering::Relaxed) < n {
                        spins += 1;
                        if spins > 20_000 {
                            std::thread::yield_now();
                        }
                    }
                    guard("first use", || stream(&data[..], 2, 60, t % 2 == 0))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (t, got) in got.into_iter().enumerate() {
        let got = got?;
        let s = &ss[t % k].1;
        for (i, f) in s.frames.iter().enumerate() {
            match got.get(i + 1) {
                Some(Ev::Block(b)) => {
                    check_block(b, f, "first use")?;
                    ensure!(b.time == s.times[i], "first use: block at {} instead of {}", b.time, s.times[i]);
                }
                e => bad!("first use, on {} threads: block {} of {}: {:?}", n, i, s.frames.len(), e),
            }
        }
        let again = guard("later use", || stream(&s.bytes[..], 2, 60, false))?;
        if let Some(d) = first_diff(&again, &got) {
            bad!("first use, on {} threads: later/first {}", n, d);
        }
    }
    Ok(())
}

/// A source that uses other readers while it is asked for data.
struct Nest<'a> {
    src: Src,
    jobs: &'a [Job],
    rng: Rng,
    depth: u32,
    state: &'a std::cell::RefCell<(Option<Bad>, u64, u64)>,
}

impl<'a> std::io::Read for Nest<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.depth > 0 && self.rng.chance(1, 3) && self.state.borrow().1 < 60 {
            self.state.borrow_mut().1 += 1;
            let job = &self.jobs[self.rng.usize(0, self.jobs.len() - 1)];
            let inner = Nest {
                src: Src::new(job.data.clone(), Sched::random(&mut self.rng)),
                jobs: self.jobs,
                rng: Rng::new(self.rng.u64()),
                depth: self.depth - 1,
                state: self.state,
            };
            if inner.depth > 0 {
                self.state.borrow_mut().2 += 1;
            }
            let r = nested_run(inner, job, self.rng.below(3), "used by the source of another reader");
            if let Err(b) = r {
                let mut st = self.state.borrow_mut();
                if st.0.is_none() {
                    st.0 = Some(b);
                }
            }
        }
        self.src.read(buf)
    }
}

fn nested_run(src: Nest, job: &Job, how: u64, what: &str) -> Res {
    if how == 0 {
        let (want, end) = as_samples(&job.want);
        let mut it = match guard(what, || FlacReader::new(src))? {
            Ok(r) => r.into_samples(),
            Err(e) => {
                ensure!(Ev::OpenErr(err(&e)) == job.want[0], "{}: does not open: {:?}", what, err(&e));
                return Ok(());
            }
        };
        for i in 0..want.len() + 1 {
            let got = guard(what, || it.next())?.map(|r| r.map_err(|e| err(&e)));
            let w = match want.get(i) {
                Some(&v) => Some(Ok(v)),
                None => end.clone().map(Err),
            };
            ensure!(got == w, "{}: sample {} is {:?} instead of {:?}", what, i, got, w);
        }
        return Ok(());
    }
    let got = guard(what, || stream(src, 2, 60, how == 1))?;
    if let Some(d) = first_diff(&job.want, &got) {
        bad!("{}: expected/got {}", what, d);
    }
    Ok(())
}

/// Readers used in the middle of an operation of another one on the same thread.
fn c19_nested(cx: &mut Ctx) -> Res {
    let n = cx.rng.usize(1, 3);
    let js = jobs(cx, n, 30)?;
    let state = std::cell::RefCell::new((None, 0, 0));
    let job = &js[cx.rng.usize(0, n - 1)];
    let outer = Nest {
        src: Src::new(job.data.clone(), Sched::random(&mut cx.rng)),
        jobs: &js,
        rng: Rng::new(cx.rng.u64()),
        depth: 2,
        state: &state,
    };
    let how = cx.rng.below(3);
    let r = nested_run(outer, job, how, "whose source uses other readers");
    let (inner, runs, deep) = state.into_inner();
    if let Some(b) = inner {
        return Err(b);
    }
    r?;
    cx.stats.hist.add("nested_runs", 0, runs);
    cx.stats.hist.add("deeply_nested_runs", 0, deep);
    cx.eval(js.iter().fold(how, |a, j| a ^ hash_bytes(&j.data)));
    Ok(())
}

/// One of several threads runs at a time; it hands over at random when its
/// source is asked for data, so in the middle of operations.
struct Baton {
    state: std::sync::Mutex<(usize, Vec<bool>, Rng, u64, u64)>,
    cv: std::sync::Condvar,
}

impl Baton {
    fn await_turn(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        while s.0 != me {
            s = self.cv.wait(s).unwrap();
        }
    }
    fn hand_over(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        if s.2.chance(1, 3) {
            return;
        }
        let alive: Vec<usize> = (0..s.1.len()).filter(|&i| s.1[i]).collect();
        let next = *s.2.pick(&alive);
        if next != me {
            s.0 = next;
            s.3 += 1;
            s.4 = crate::rng::mix(&[s.4, me as u64, next as u64]);
            self.cv.notify_all();
            while s.0 != me {
                s = self.cv.wait(s).unwrap();
            }
        } else {
            s.4 = crate::rng::mix(&[s.4, 99]);
        }
    }
}

struct Leave<'a>(&'a Baton, usize);
impl<'a> Drop for Leave<'a> {
    fn drop(&mut self) {
        let mut s = self.0.state.lock().unwrap();
        s.1[self.1] = false;
        let alive: Vec<usize> = (0..s.1.len()).filter(|&i| s.1[i]).collect();
        s.0 = if alive.is_empty() { usize::MAX } else { *s.2.pick(&alive) };
        self.0.cv.notify_all();
    }
}

struct Turns<'a>(Src, &'a Baton, usize);
impl<'a> std::io::Read for Turns<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.1.hand_over(self.2);
        let r = self.0.read(buf);
        self.1.hand_over(self.2);
        r
    }
}

fn c19_lockstep(cx: &mut Ctx) -> Res {
    let n = cx.rng.usize(2, 4);
    let k = if cx.rng.chance(1, 3) { 1 } else { n };
    let js = jobs(cx, k, 24)?;
    let baton = Baton {
        state: std::sync::Mutex::new((0, vec![true; n], Rng::new(cx.rng.u64()), 0, 0)),
        cv: std::sync::Condvar::new(),
    };
    let scheds: Vec<Sched> = (0..n).map(|_| Sched::random(&mut cx.rng)).collect();
    let res: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = scheds
            .into_iter()
            .enumerate()
            .map(|(t, sched)| {
                let (baton, job) = (&baton, &js[t % k]);
                sc.spawn(move || -> Res {
                    baton.await_turn(t);
                    let _leave = Leave(baton, t);
                    let src = Turns(Src::new(job.data.clone(), sched), baton, t);
                    let got = guard("taking turns", || stream(src, 2, 60, t % 2 == 0))?;
                    if let Some(d) = first_diff(&job.want, &got) {
                        bad!("thread {} of {} taking turns: expected/got {}", t, n, d);
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in res {
        r?;
    }
    let s = baton.state.into_inner().unwrap();
    cx.stats.hist.add("turns_handed_over", 0, s.3);
    cx.hit("interleavings", s.4);
    cx.eval(s.4);
    Ok(())
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "a case is a set of streams (intact, damaged, hostile) whose transcripts are first taken alone and compared with what was encoded; then several readers over them are stepped in random turns on one thread sharing buffers, or run on four threads at once and handed on in mid-stream, or used by the source of another reader in the middle of its operation, or run on threads that hand over to each other whenever a source is asked, or are the first thing several threads of a new process do; every transcript must stay the same; distinct by the set of streams",
        stages: vec![
            Stage { name: "types", quick: 1, thorough: 1, f: c19_types },
            // First, while the process is small: it is copied for every child.
            Stage { name: "fresh", quick: 800, thorough: 20_000, f: c19_fresh },
            Stage { name: "interleaved", quick: 20_000, thorough: 800_000, f: c19_interleaved },
            Stage { name: "threads", quick: 6_000, thorough: 200_000, f: c19_threads },
            Stage { name: "shared", quick: 3_000, thorough: 60_000, f: c19_shared },
            Stage { name: "nested", quick: 4_000, thorough: 100_000, f: c19_nested },
            Stage { name: "lockstep", quick: 1_500, thorough: 30_000, f: c19_lockstep },
        ],
        required: vec![("types", 14), ("intact_jobs", 1), ("readers_in_turn", 5), ("switches", 3), ("moved_between_threads", 1), ("thread_groups", 2), ("shared", 1), ("processes", 1), ("nested_runs", 1), ("deeply_nested_runs", 1), ("turns_handed_over", 1), ("interleavings", 500)],
    }
}
