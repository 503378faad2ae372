//! C08 recycled buffers and old memory, C13 memory use.

use crate::alloc;
use crate::core::*;
use crate::craft::*;
use crate::drive::*;
use crate::gen::*;
use crate::p_meta::Virtual;
use crate::rng::{hash_bytes, Rng};
use crate::src::*;
use crate::{bad, ensure};
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::{read_metadata_block, read_metadata_block_with_header, MetadataBlock, MetadataBlockReader};
use claxon::{subframe, Block, FlacReader, FlacReaderOptions};
use std::io::Cursor;
use std::sync::Arc;

// ---------------------------------------------------------------------------
// C08

const MARKS: [i32; 4] = [0x5a5a_5a5a, -0x5a5a_5a5b, 0x0bad_cafe, -1];

/// A buffer to recycle: any length, capacity and contents.
fn dirty(rng: &mut Rng, need: usize, mark: Option<i32>) -> (Vec<i32>, u64) {
    let (len, cap, kind) = match rng.below(8) {
        0 => (0, 0, 0),
        1 => (0, need + rng.usize(0, 50), 1),
        2 => (need, need, 2),
        3 => (need + rng.usize(1, 300), 0, 3),
        4 => (rng.usize(0, need), 0, 4),
        5 => (rng.usize(0, need), need, 5),
        6 => (need.saturating_sub(1), need.saturating_sub(1), 6),
        _ => (need + 1, need * 2 + 7, 7),
    };
    let mut v = Vec::with_capacity(cap.max(len));
    for _ in 0..len {
        v.push(mark.unwrap_or_else(|| rng.u32() as i32));
    }
    // What lies beyond the length is filled too, then cut off.
    if v.capacity() > len {
        let full = v.capacity();
        v.resize(full, mark.unwrap_or(0x7eee_eeee));
        v.truncate(len);
    }
    (v, kind)
}

fn decode_once(data: &Arc<Vec<u8>>, at: usize, buf: Vec<i32>, what: &str) -> Result<(Result<Option<Blk>, E>, usize, Vec<i32>), Bad> {
    let mut src = ByteSrc::new(data.clone());
    src.pos = at;
    let mut fr = FrameReader::new(src);
    let r = guard(what, || fr.read_next_or_eof(buf))?;
    let pos = fr.into_inner().pos;
    Ok(match r {
        Ok(Some(b)) => (Ok(Some(view(&b))), pos, b.into_buffer()),
        Ok(None) => (Ok(None), pos, Vec::new()),
        Err(e) => (Err(err(&e)), pos, Vec::new()),
    })
}

/// Decodes the frame into many different buffers. All must agree.
fn c08_judge(cx: &mut Ctx, data: &[u8], want: Option<&Frame>, what: &str) -> Res {
    let arc = Arc::new(data.to_vec());
    alloc::set_poison(Some(0x5a));
    let (first, end, _) = decode_once(&arc, 0, Vec::new(), what)?;
    if let (Ok(Some(b)), Some(f)) = (&first, want) {
        check_block(b, f, what)?;
    }
    let need = match &first {
        Ok(Some(b)) => (b.duration * b.channels) as usize,
        _ => 64,
    };
    cx.hit("delivered", first.as_ref().map(|b| b.is_some()).unwrap_or(false) as u64);
    for k in 0..5 {
        let mark = if k < 4 { Some(MARKS[k]) } else { None };
        alloc::set_poison(Some(cx.rng.u8()));
        // The first two are long enough and filled all over.
        let (buf, kind) = if k < 2 {
            (vec![MARKS[k]; need.max(70_000.min(data.len() * 8))], 8)
        } else {
            dirty(&mut cx.rng, need, mark)
        };
        cx.hit("buffer_kind", kind);
        let (r, e, out) = decode_once(&arc, 0, buf, what)?;
        if r != first || e != end {
            alloc::set_poison(Some(0x5a));
            bad!(
                "{}: result depends on the buffer passed in (kind {}): {:?} at {} with a new buffer, {:?} at {} with this one: {}",
                what,
                kind,
                first,
                end,
                r,
                e,
                hex(data)
            );
        }
        if let Ok(Some(b)) = &r {
            ensure!(out.len() == need, "{}: buffer of {} returned for {} samples", what, out.len(), need);
            let flat: Vec<i32> = b.samples.iter().flatten().copied().collect();
            ensure!(flat == out, "{}: returned buffer differs from the channels", what);
        }
        cx.stats.evals += 1;
    }
    alloc::set_poison(Some(0xa5));
    cx.eval(hash_bytes(data));
    Ok(())
}

fn c08_valid(cx: &mut Ctx) -> Res {
    let mut fc = FrameCfg::new(pick_block_size(&mut cx.rng, 400), cx.rng.range(1, 8) as u32, *cx.rng.pick(&BPS));
    if cx.rng.chance(1, 2) {
        fc.channels = 2;
    }
    fc.variable = true;
    let f = encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist);
    c08_judge(cx, &f.bytes, Some(&f), "valid frame")
}

fn c08_crafted(cx: &mut Ctx) -> Res {
    let mut d = craft(&mut cx.rng, &mut cx.stats.hist, 300);
    let sealed = guard("crafted frame", || seal(&mut d))?;
    cx.hit("sealed", sealed.is_some() as u64);
    cx.sample(|| format!("crafted frame {}", hex(&d)));
    c08_judge(cx, &d, None, "crafted frame")
}

/// A buffer that goes through many decodes, good and bad, of many shapes.
fn c08_history(cx: &mut Ctx) -> Res {
    let mut buf: Vec<i32> = Vec::new();
    let n = cx.rng.usize(3, 12);
    let mut fp = 0;
    let mut failures = 0;
    for step in 0..n {
        let (data, want) = match cx.rng.below(4) {
            0 => {
                let mut d = craft(&mut cx.rng, &mut cx.stats.hist, 200);
                guard("crafted frame", || seal(&mut d))?;
                (d, None)
            }
            1 => {
                let fc = FrameCfg::new(pick_block_size(&mut cx.rng, 200), cx.rng.range(1, 3) as u32, 16);
                let f = encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist);
                let cut = cx.rng.usize(1, f.bytes.len() - 1);
                (f.bytes[..cut].to_vec(), None)
            }
            _ => {
                let fc = FrameCfg::new(pick_block_size(&mut cx.rng, 200), cx.rng.range(1, 8) as u32, *cx.rng.pick(&BPS));
                let f = encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist);
                (f.bytes.clone(), Some(f))
            }
        };
        fp ^= hash_bytes(&data).rotate_left(step as u32);
        let arc = Arc::new(data);
        let (fresh, _, _) = decode_once(&arc, 0, Vec::new(), "history, new buffer")?;
        let (r, _, out) = decode_once(&arc, 0, std::mem::take(&mut buf), "history, recycled buffer")?;
        if r != fresh {
            bad!("decode {} into a buffer used before: {:?} instead of {:?}: {}", step, r, fresh, hex(&arc));
        }
        if let (Some(f), r) = (&want, &r) {
            match r {
                Ok(Some(b)) => check_block(b, f, "history")?,
                r => bad!("decode {} of a valid frame into a buffer used before: {:?}", step, r),
            }
        }
        if r.is_err() {
            failures += 1;
        }
        buf = out;
        if cx.rng.chance(1, 5) {
            let k = cx.rng.usize(0, buf.len() + 40);
            buf.resize(k, 0x0bad_cafe);
        }
    }
    cx.hit("history_failures", failures);
    cx.eval(fp);
    Ok(())
}

/// Whole streams, recycled and not, by blocks and by samples.
fn c08_streams(cx: &mut Ctx) -> Res {
    let sc = StreamCfg { max_frames: 6, max_block: 200, max_meta: 1, max_meta_len: 20, uniform: false };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let mut data = crate::p_io::damage(&mut cx.rng, &s);
    // Make frame checksums of damaged frames right, some of the time.
    if cx.rng.chance(1, 2) && !s.frames.is_empty() {
        let i = cx.rng.usize(0, s.frames.len() - 1);
        let (a, b) = (s.offsets[i], s.offsets[i + 1]);
        let mut f = s.bytes[a..b].to_vec();
        let k = cx.rng.usize(s.frames[i].header_len, f.len() - 1);
        f[k] ^= 1 << cx.rng.below(8);
        guard("sealing", || seal(&mut f))?;
        data = s.bytes[..a].to_vec();
        data.extend_from_slice(&f);
        data.extend_from_slice(&s.bytes[b..]);
    }
    alloc::set_poison(Some(0x11));
    let a = guard("new buffers", || stream(&data[..], 3, 60, false))?;
    alloc::set_poison(Some(0xee));
    let b = guard("recycled buffers", || stream(&data[..], 3, 60, true))?;
    alloc::set_poison(Some(0xa5));
    if let Some(d) = first_diff(&a, &b) {
        bad!("recycling buffers changes the result: {}: {}", d, hex(&data));
    }
    // The sample iterator recycles internally.
    let mut vals = Vec::new();
    guard("samples", || {
        if let Ok(mut r) = FlacReader::new(&data[..]) {
            for x in r.samples() {
                match x {
                    Ok(v) => vals.push(v),
                    Err(_) => break,
                }
            }
        }
    })?;
    let mut want = Vec::new();
    for e in &a {
        match e {
            Ev::Block(b) => want.extend(crate::p_decode::interleave(&b.samples)),
            Ev::Open { .. } => {}
            _ => break,
        }
    }
    ensure!(vals == want, "sample iterator gives other samples than new buffers: {}", hex(&data));
    cx.eval(hash_bytes(&data));
    Ok(())
}

fn c08_subframe(cx: &mut Ctx) -> Res {
    let n = if cx.rng.chance(1, 12) { 0 } else { pick_block_size(&mut cx.rng, 120) as usize };
    let bps = cx.rng.range(1, 32) as u32;
    let mut w = BitWriterBox::new();
    if cx.rng.chance(1, 2) || n == 0 {
        any_subframe(&mut cx.rng, &mut w.0, n.max(1), bps, &mut cx.stats.hist);
    } else {
        let class = cx.rng.below(N_SIGNALS as u64) as u32;
        let x = signal(&mut cx.rng, n, bps, class);
        encode_subframe(&mut cx.rng, &mut w.0, &x, bps, &SubPlan::default(), &mut cx.stats.hist);
        w.0.align();
        if cx.rng.chance(1, 2) {
            let i = cx.rng.usize(0, w.0.bytes.len() - 1);
            w.0.bytes[i] ^= 1 << cx.rng.below(8);
        }
    }
    w.0.align();
    let mut data = w.0.bytes;
    let k = cx.rng.usize(0, 40);
    for _ in 0..k {
        data.push(cx.rng.u8());
    }
    let mut res = Vec::new();
    for m in MARKS {
        let mut buf = vec![m; n];
        let r = guard("subframe", || {
            let mut bs = Bitstream::new(Cursor::new(&data[..]));
            subframe::decode(&mut bs, bps, &mut buf).map_err(|e| err(&e))
        })?;
        res.push(r.map(|_| buf));
    }
    cx.hit("subframe_ok", res[0].is_ok() as u64);
    for r in &res[1..] {
        if *r != res[0] {
            bad!("subframe of {} x {} bits: result depends on the buffer: {:?} and {:?}: {}", n, bps, res[0], r, hex(&data));
        }
    }
    cx.eval(hash_bytes(&data) ^ n as u64);
    Ok(())
}

/// Subframes with runs of zeros so long that quotients are huge, in the first
/// partition and after others.
fn c08_zeros(cx: &mut Ctx) -> Res {
    let n = cx.rng.usize(1, 40);
    let bps = cx.rng.range(1, 32) as u32;
    let mut w = BitWriterBox::new();
    any_subframe(&mut cx.rng, &mut w.0, n, bps, &mut cx.stats.hist);
    w.0.align();
    let mut data = w.0.bytes;
    // Past the type byte, so that most of these still get to the residual.
    let at = cx.rng.usize(1.min(data.len()), data.len());
    let k = cx.rng.log_size(150_000) as usize;
    let tail: Vec<u8> = data.split_off(at);
    data.resize(at + k, 0);
    data.extend(tail);
    for _ in 0..n {
        data.push(cx.rng.u8() | 1);
    }
    let mut res = Vec::new();
    for m in MARKS {
        let mut buf = vec![m; n];
        let r = guard("zeros", || {
            let mut bs = Bitstream::new(Cursor::new(&data[..]));
            subframe::decode(&mut bs, bps, &mut buf).map_err(|e| err(&e))
        })?;
        res.push(r.map(|_| buf));
    }
    if res[0].is_ok() {
        cx.hit("zeros_ok_log2", 64 - (k as u64).leading_zeros() as u64);
    }
    for r in &res[1..] {
        if *r != res[0] {
            bad!("subframe of {} x {} bits with {} zero bytes at {}: result depends on the buffer: {:?} and {:?}: {}", n, bps, k, at, res[0], r, hex(&data));
        }
    }
    cx.eval(hash_bytes(&data) ^ n as u64);
    Ok(())
}

struct BitWriterBox(crate::bits::BitWriter);
impl BitWriterBox {
    fn new() -> BitWriterBox {
        BitWriterBox(crate::bits::BitWriter::new())
    }
}

/// Metadata must not show old memory either: nothing but input bytes.
fn c08_metadata(cx: &mut Ctx) -> Res {
    let t = *cx.rng.pick(&[2u8, 4, 4]);
    let body = if t == 4 {
        let tags = Tags::random(&mut cx.rng, 6, 40);
        let e = cx.rng.usize(0, 2);
        tags.bytes(&mut cx.rng, e)
    } else {
        let n = 4 + cx.rng.log_size(5000) as usize;
        cx.rng.bytes(n)
    };
    let mut body = body;
    if cx.rng.chance(1, 2) {
        let i = cx.rng.usize(0, body.len() - 1);
        body[i] ^= 1 << cx.rng.below(8);
    }
    let claim = if cx.rng.chance(2, 3) { body.len() as u32 } else { (body.len() as i64 + cx.rng.irange(-6, 60)).max(0) as u32 };
    let mut out: Vec<String> = Vec::new();
    for p in [0x11u8, 0xee, 0x41] {
        alloc::set_poison(Some(p));
        let sched = Sched::random(&mut cx.rng);
        for k in 0..2 {
            let r = guard("metadata block", || {
                let b = if k == 0 {
                    read_metadata_block(&mut Cursor::new(&body[..]), t, claim)
                } else {
                    let mut r = claxon::input::BufferedReader::new(Src::of(&body, sched.clone()));
                    read_metadata_block(&mut r, t, claim)
                };
                match b {
                    Ok(MetadataBlock::Application { id, data }) => format!("app {} {:?}", id, data),
                    Ok(MetadataBlock::VorbisComment(v)) => format!("{:?} {:?}", v.vendor, v.comments),
                    Ok(_) => "other".to_string(),
                    Err(e) => format!("{:?}", err(&e)),
                }
            })?;
            out.push(r);
        }
    }
    alloc::set_poison(Some(0xa5));
    for o in &out[1..] {
        ensure!(*o == out[0], "metadata depends on old memory: {:.300} and {:.300}: {}", out[0], o, hex(&body));
    }
    cx.eval(hash_bytes(&body) ^ claim as u64);
    Ok(())
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "a case is a frame (valid, or hostile with its checksums made right), a sequence of decodes, a stream, a lone subframe or a metadata block, decoded into buffers of different contents, lengths and capacities and with the heap filled with different bytes; every run must give the same result; distinct by bytes",
        stages: vec![
            Stage { name: "valid", quick: 60_000, thorough: 2_000_000, f: c08_valid },
            Stage { name: "crafted", quick: 250_000, thorough: 12_000_000, f: c08_crafted },
            Stage { name: "history", quick: 30_000, thorough: 1_000_000, f: c08_history },
            Stage { name: "streams", quick: 30_000, thorough: 1_000_000, f: c08_streams },
            Stage { name: "subframe", quick: 300_000, thorough: 12_000_000, f: c08_subframe },
            Stage { name: "zeros", quick: 30_000, thorough: 400_000, f: c08_zeros },
            Stage { name: "metadata", quick: 60_000, thorough: 2_000_000, f: c08_metadata },
        ],
        required: vec![("zeros_ok_log2", 15), ("delivered", 2), ("buffer_kind", 9), ("sealed", 2), ("crafted_kind", 8), ("crafted_type", 50), ("crafted_porder", 16), ("history_failures", 4), ("subframe_ok", 2)],
    }
}

// ---------------------------------------------------------------------------
// C13

/// What does not depend on the input: fixed buffers and the like.
fn slack() -> i64 {
    64 * 1024 + 2 * buffer_heap()
}

/// The heap a buffered reader takes for itself, whatever it reads.
fn buffer_heap() -> i64 {
    use std::sync::OnceLock;
    static HEAP: OnceLock<i64> = OnceLock::new();
    *HEAP.get_or_init(|| {
        let (r, u) = alloc::measure(|| catch(|| BufferedReader::new(&b"ab"[..]).read_u8().ok()));
        drop(r);
        u.peak.clamp(0, 1 << 20)
    })
}

const MIB10: u32 = 10 * 1024 * 1024;

fn meta_bound(declared: u32) -> i64 {
    // Per entry of at least five bytes the list of tags takes 32 bytes, and a
    // growing list is held twice for a moment.
    24 * declared as i64 + slack()
}

/// Tag block of a few bytes with claims about its contents.
fn claims(rng: &mut Rng) -> (Vec<u8>, &'static str) {
    let big = |rng: &mut Rng| -> u32 {
        match rng.below(6) {
            0 => u32::MAX,
            1 => rng.u32(),
            2 => 0x7fff_ffff,
            3 => rng.range(1 << 20, 1 << 28) as u32,
            4 => rng.log_size(u32::MAX as u64) as u32,
            _ => MIB10 - rng.below(4) as u32,
        }
    };
    let vendor = *rng.pick(&["", "v", "reference libFLAC 1.3.2 20170101"]);
    let mut b = Vec::new();
    let what;
    match rng.below(5) {
        0 => {
            what = "vendor length";
            b.extend_from_slice(&big(rng).to_le_bytes());
            b.extend_from_slice(vendor.as_bytes());
        }
        1 => {
            what = "count";
            b.extend_from_slice(&(vendor.len() as u32).to_le_bytes());
            b.extend_from_slice(vendor.as_bytes());
            b.extend_from_slice(&big(rng).to_le_bytes());
        }
        2 => {
            what = "entry length";
            b.extend_from_slice(&(vendor.len() as u32).to_le_bytes());
            b.extend_from_slice(vendor.as_bytes());
            let n = rng.range(1, 4) as u32;
            b.extend_from_slice(&n.to_le_bytes());
            for _ in 0..rng.below(n as u64) {
                b.extend_from_slice(&3u32.to_le_bytes());
                b.extend_from_slice(b"A=b");
            }
            b.extend_from_slice(&big(rng).to_le_bytes());
            b.extend_from_slice(b"A=");
        }
        3 => {
            what = "many empty entries";
            b.extend_from_slice(&0u32.to_le_bytes());
            let n = rng.log_size(3000) as u32;
            b.extend_from_slice(&(n + rng.below(3) as u32).to_le_bytes());
            for _ in 0..n {
                b.extend_from_slice(&0u32.to_le_bytes());
            }
        }
        _ => {
            what = "a lot of short entries";
            b.extend_from_slice(&0u32.to_le_bytes());
            let n = rng.log_size(3000) as u32;
            b.extend_from_slice(&n.to_le_bytes());
            for _ in 0..n {
                b.extend_from_slice(&1u32.to_le_bytes());
                b.push(b'=');
            }
        }
    }
    for _ in 0..rng.below(12) {
        b.push(rng.u8());
    }
    (b, what)
}

fn c13_claims(cx: &mut Ctx) -> Res {
    let (body, what) = claims(&mut cx.rng);
    let real = body.len() as u32;
    let length = match cx.rng.below(6) {
        0 => MIB10 - cx.rng.below(3) as u32,
        1 => cx.rng.log_size(MIB10 as u64) as u32,
        2 => real + cx.rng.below(40) as u32,
        _ => real,
    };
    alloc::set_poison(None);
    let kind = cx.rng.below(3);
    let (r, u) = match kind {
        0 => alloc::measure(|| guard(what, || read_metadata_block(&mut Cursor::new(&body[..]), 4, length).map(|_| ()).map_err(|e| err(&e)))),
        1 => {
            let mut with_header = vec![0x84];
            with_header.extend_from_slice(&length.to_be_bytes()[1..]);
            with_header.extend_from_slice(&body);
            alloc::measure(|| guard(what, || read_metadata_block_with_header(&mut Cursor::new(&with_header[..])).map(|_| ()).map_err(|e| err(&e))))
        }
        _ => {
            let info = Info::random(&mut cx.rng);
            let mut s = b"fLaC".to_vec();
            s.extend(block_bytes(0, false, &info.bytes()));
            s.push(0x84);
            s.extend_from_slice(&length.to_be_bytes()[1..]);
            s.extend_from_slice(&body);
            alloc::measure(|| guard(what, || FlacReader::new(&s[..]).map(|_| ()).map_err(|e| err(&e))))
        }
    };
    alloc::set_poison(Some(0xa5));
    let r = r?;
    ensure!(
        u.peak <= meta_bound(length) && u.largest as i64 <= meta_bound(length),
        "tag block of {} declared bytes ({} there, bad {}): {} bytes of heap held, largest request {}: {}",
        length,
        real,
        what,
        u.peak,
        u.largest,
        hex(&body)
    );
    ensure!(r.is_ok() || u.left <= 1024, "{} bytes of heap kept after a refused block", u.left);
    cx.hit("claims_ok", r.is_ok() as u64);
    cx.hit("claims", what.len() as u64);
    cx.hit("peak_per_declared_x4", (u.peak.max(0) as u64 * 4) / (length as u64 + 4096));
    cx.eval(hash_bytes(&body) ^ length as u64);
    Ok(())
}

/// Honest tag and application blocks.
fn c13_honest(cx: &mut Ctx) -> Res {
    let size = *cx.rng.pick(&[20usize, 200, 3000, 60_000]);
    let app = cx.rng.chance(1, 3);
    let body = if app {
        let n = 4 + cx.rng.log_size(size as u64 * 4) as usize;
        cx.rng.bytes(n)
    } else {
        let pairs = cx.rng.usize(0, 60);
        let tags = Tags::random(&mut cx.rng, pairs, size / (pairs + 1) + 2);
        let e = cx.rng.usize(0, 3);
        tags.bytes(&mut cx.rng, e)
    };
    let t = if app { 2 } else { 4 };
    let (r, u) = alloc::measure(|| guard("block", || read_metadata_block(&mut Cursor::new(&body[..]), t, body.len() as u32)));
    match r? {
        Ok(b) => drop(b),
        Err(e) => bad!("honest block of type {} and {} bytes refused: {:?}: {}", t, body.len(), err(&e), hex(&body)),
    }
    let bound = if app { body.len() as i64 * 4 + 4096 + buffer_heap() } else { meta_bound(body.len() as u32) };
    ensure!(u.peak <= bound, "block of type {} and {} bytes: {} bytes of heap held", t, body.len(), u.peak);
    cx.hit("honest_type", t as u64);
    cx.eval_bytes(&body);
    Ok(())
}

/// The 10 MiB limit, from both sides.
fn c13_limit(cx: &mut Ctx) -> Res {
    let t = *cx.rng.pick(&[2u8, 4]);
    let over = cx.idx % 3 != 0;
    let len: u32 = if over {
        match cx.rng.below(3) {
            0 => MIB10 + 1,
            1 => MIB10 + 1 + cx.rng.below(100) as u32,
            _ => cx.rng.range(MIB10 as u64 + 1, 0xff_ffff) as u32,
        }
    } else {
        match cx.rng.below(3) {
            0 => MIB10,
            _ => MIB10 - cx.rng.below(3) as u32,
        }
    };
    let via = cx.rng.below(3);
    alloc::set_poison(None);
    // Contents: an application id and data, or one long vendor string, or one
    // long entry.
    let mut content = Vec::new();
    let long_vendor = cx.rng.chance(1, 2);
    let mut gap = len as u64;
    let mut after = Vec::new();
    if t == 4 {
        if long_vendor {
            content.extend_from_slice(&(len - 8).to_le_bytes());
            gap = len as u64 - 8;
            after.extend_from_slice(&0u32.to_le_bytes());
        } else {
            content.extend_from_slice(&0u32.to_le_bytes());
            content.extend_from_slice(&1u32.to_le_bytes());
            content.extend_from_slice(&(len - 12).to_le_bytes());
            content.extend_from_slice(b"X=");
            gap = len as u64 - 14;
        }
    }
    let header = |last: bool| {
        let mut h = vec![t | if last { 0x80 } else { 0 }];
        h.extend_from_slice(&len.to_be_bytes()[1..]);
        h
    };
    let what = format!("block of type {} declaring {} bytes", t, len);
    let mut head = Vec::new();
    if via == 2 {
        head.extend_from_slice(b"fLaC");
        head.extend(block_bytes(0, false, &Info::random(&mut cx.rng).bytes()));
    }
    if via > 0 {
        head.extend(header(via == 2 && cx.rng.chance(1, 2)));
        if via == 2 {
            let k = head.len() - 4;
            head[k] |= 0x80;
        }
    }
    head.extend_from_slice(&content);
    let pre = (head.len() - content.len()) as u64;
    let mut v = Virtual { pos: 0, head, gap, tail: after, chunk: 1 << 20, fill: b'a' };
    let (r, u) = match via {
        0 => alloc::measure(|| {
            guard(&what, || {
                let mut b = claxon::input::BufferedReader::new(&mut v);
                read_metadata_block(&mut b, t, len).map(|b| drop(b)).map_err(|e| err(&e))
            })
        }),
        1 => alloc::measure(|| {
            guard(&what, || {
                let mut b = claxon::input::BufferedReader::new(&mut v);
                read_metadata_block_with_header(&mut b).map(|b| drop(b)).map_err(|e| err(&e))
            })
        }),
        _ => alloc::measure(|| guard(&what, || FlacReader::new(&mut v).map(|_| ()).map_err(|e| err(&e)))),
    };
    alloc::set_poison(Some(0xa5));
    let r = r?;
    if over {
        ensure!(r.as_ref().err().map_or(false, |e| e.is_unsupported()), "{}: {:?} instead of unsupported", what, r);
        ensure!(u.peak <= slack(), "{}: {} bytes of heap reserved", what, u.peak);
        ensure!(v.pos <= pre + 8192 + buffer_heap() as u64, "{}: {} bytes read before it was refused", what, v.pos);
    } else {
        ensure!(r.is_ok(), "{}: refused: {:?}", what, r);
        ensure!(u.peak <= 4 * len as i64 + slack(), "{}: {} bytes of heap held", what, u.peak);
    }
    cx.hit("limit", (t as u64) << 1 | over as u64);
    cx.hit("limit_via", via);
    cx.eval((t as u64) << 40 | (via << 32) | len as u64);
    Ok(())
}

/// Blocks that are skipped take no memory, whatever they declare.
fn c13_skipped(cx: &mut Ctx) -> Res {
    let t = *cx.rng.pick(&[1u8, 3, 5, 6, 7, 50, 126, 4, 127, 2]);
    let len = match cx.rng.below(3) {
        0 => 0xff_ffff,
        1 => cx.rng.range(1 << 20, 0xff_ffff) as u32,
        _ => cx.rng.log_size(0xff_ffff) as u32,
    };
    // Application blocks too short for the id; unwanted tag blocks.
    let len = if t == 2 { len % 4 } else { len };
    let mut head = b"fLaC".to_vec();
    head.extend(block_bytes(0, false, &Info::random(&mut cx.rng).bytes()));
    head.push(t | 0x80);
    head.extend_from_slice(&len.to_be_bytes()[1..]);
    let there = cx.rng.chance(1, 2);
    let mut v = Virtual { pos: 0, head, gap: if there { len as u64 } else { 10 }, tail: Vec::new(), chunk: 1 << 20, fill: 0xaa };
    let opts = FlacReaderOptions { metadata_only: cx.rng.chance(1, 4) && t != 4, read_vorbis_comment: t != 4 };
    let (r, u) = alloc::measure(|| guard("skipped block", || FlacReader::new_ext(&mut v, opts).map(|_| ()).map_err(|e| err(&e))));
    let r = r?;
    ensure!(u.peak <= slack(), "skipped block of type {} and {} bytes: {} bytes of heap held", t, len, u.peak);
    if there && t != 127 && t != 2 {
        ensure!(r.is_ok(), "skipped block of type {} and {} bytes: {:?}", t, len, r);
    }
    cx.hit("skipped_type", t as u64);
    cx.eval((t as u64) << 32 | len as u64);
    Ok(())
}

/// Decoding streams of any length holds one block.
fn c13_streams(cx: &mut Ctx) -> Res {
    let n = *cx.rng.pick(&[3usize, 20, 120]);
    let max_block = *cx.rng.pick(&[30u32, 300, 1200]);
    let max_block = if n == 120 { max_block.min(300) } else { max_block };
    let ch = cx.rng.range(1, 8) as u32;
    let mut data = b"fLaC".to_vec();
    let mut info = Info::random(&mut cx.rng);
    info.channels = ch;
    info.bps = 16;
    data.extend(block_bytes(0, true, &info.bytes()));
    let mut pos = 0;
    let mut largest = 0i64;
    let mut n_err = 0u64;
    let mut plan = Vec::new();
    let with_errors = cx.rng.chance(1, 2);
    let uniform = if !with_errors && cx.rng.chance(1, 2) { Some(pick_block_size(&mut cx.rng, max_block)) } else { None };
    for _ in 0..n {
        if with_errors && cx.rng.chance(1, 10) {
            let mut d = craft(&mut cx.rng, &mut cx.stats.hist, max_block);
            guard("crafted", || seal(&mut d))?;
            data.extend_from_slice(&d);
            n_err += 1;
            continue;
        }
        let bs = uniform.unwrap_or_else(|| pick_block_size(&mut cx.rng, max_block));
        let mut fc = FrameCfg::new(bs, ch, 16);
        fc.variable = true;
        fc.number = pos;
        pos += bs as u64;
        let f = encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist);
        largest = largest.max(bs as i64 * ch as i64 * 4);
        data.extend_from_slice(&f.bytes);
        plan.push(bs);
    }
    // Crafted frames may hold more channels or claim more samples than theirs.
    let cap_block = if n_err > 0 { 65_535 * 8 * 4 } else { largest };
    let by_samples = cx.rng.chance(1, 2);
    let mut r = match guard("open", || FlacReader::new(&data[..]))? {
        Ok(r) => r,
        Err(e) => bad!("valid stream refused: {:?}", err(&e)),
    };
    let mut count = 0u64;
    let mut stops = 0;
    let (res, u) = alloc::measure(|| {
        guard("decoding", || {
            if by_samples {
                while stops < 12 {
                    for x in r.samples() {
                        match x {
                            Ok(_) => count += 1,
                            Err(_) => break,
                        }
                    }
                    stops += 1;
                }
            } else {
                let mut fr = r.blocks();
                let mut buf = Vec::new();
                while stops < 12 {
                    match fr.read_next_or_eof(std::mem::take(&mut buf)) {
                        Ok(Some(b)) => {
                            count += b.len() as u64;
                            buf = b.into_buffer();
                        }
                        _ => stops += 1,
                    }
                }
            }
        })
    });
    res?;
    // Growing may hold the old and the new buffer, the new one with room.
    let bound = if uniform.is_some() { cap_block } else { 3 * cap_block } + 4096;
    ensure!(u.peak <= bound, "decoding {} frames of at most {} bytes each held {} bytes of heap", n, cap_block, u.peak);
    ensure!(u.left <= 1024, "decoding {} frames left {} bytes of heap behind", n, u.left);
    if n_err == 0 {
        let want: u64 = plan.iter().map(|&b| b as u64 * ch as u64).sum();
        ensure!(count == want, "{} samples instead of {}", count, want);
        // Buffers grow only when a block is larger than all before.
        let mut grows = 0;
        let mut top = 0;
        for &b in &plan {
            if b > top {
                grows += 1;
                top = b;
            }
        }
        if u.count > grows + 24 {
            bad!("decoding {} frames, of which {} larger than all before, took {} allocations", n, grows, u.count);
        }
        cx.hit("no_error_streams", by_samples as u64);
        if uniform.is_some() && cap_block > 8192 {
            cx.hit("uniform_streams", by_samples as u64);
        }
    }
    cx.hit("stream_frames", n as u64);
    cx.eval_bytes(&data);
    Ok(())
}

/// No allocation at all when the buffer has room; no more than the block else.
fn c13_frames(cx: &mut Ctx) -> Res {
    let valid = cx.rng.chance(2, 3);
    let mut data;
    let mut header = None;
    if valid {
        let mut fc = FrameCfg::new(pick_block_size(&mut cx.rng, 600), cx.rng.range(1, 8) as u32, *cx.rng.pick(&BPS));
        fc.variable = cx.rng.chance(1, 2);
        let f = encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist);
        data = f.bytes.clone();
        header = Some((f.block_size, fc.channels));
    } else if cx.rng.chance(1, 2) {
        data = craft(&mut cx.rng, &mut cx.stats.hist, 65_535);
        guard("crafted", || seal(&mut data))?;
    } else {
        // Tiny, claiming the largest block.
        let h = HeaderFields {
            variable: true,
            bs_code: 7,
            block_size: cx.rng.range(60_000, 65_535) as u32,
            sr_code: 0,
            sr_value: 0,
            chan_code: cx.rng.below(11) as u32,
            bps_code: bps_code(*cx.rng.pick(&BPS)),
            number: coded_number(5),
        };
        data = header_bytes(&h);
        data.push(crate::bits::crc8(&data));
        let n = cx.rng.usize(0, 30);
        data.extend(cx.rng.bytes(n));
        header = Some((h.block_size, if h.chan_code > 7 { 2 } else { h.chan_code + 1 }));
    }
    let arc = Arc::new(data);
    let (need, bound) = match header {
        Some((bs, ch)) => ((bs * ch) as usize, (bs * ch) as i64 * 4 + 4096),
        None => (0, 65_535 * 8 * 4 + 4096),
    };
    let mut fr = FrameReader::new(ByteSrc::new(arc.clone()));
    let (r, u) = alloc::measure(|| guard("frame", || fr.read_next_or_eof(Vec::new())));
    let r = r?;
    ensure!(u.peak <= bound, "frame of {:?} held {} bytes of heap: {}", header, u.peak, hex(&arc));
    if let Ok(Some(b)) = r {
        let need = if need > 0 { need } else { b.len() as usize };
        let extra = if cx.rng.chance(1, 2) { 0 } else { cx.rng.usize(1, 500) };
        let len = match cx.rng.below(3) {
            0 => 0,
            1 => need + extra,
            _ => cx.rng.usize(0, need + extra),
        };
        let mut buf = Vec::with_capacity(need + extra);
        buf.resize(len, 7);
        let p = buf.as_ptr();
        let mut fr = FrameReader::new(ByteSrc::new(arc.clone()));
        let (r2, u2) = alloc::measure(|| guard("frame, recycled", || fr.read_next_or_eof(buf)));
        match r2? {
            Ok(Some(b2)) => {
                ensure!(
                    u2.count == 0,
                    "decoding {} samples into a buffer with room for {} (length {}) allocated {} times, {} bytes at the most",
                    need,
                    need + extra,
                    len,
                    u2.count,
                    u2.peak
                );
                ensure!(view(&b2) == view(&b), "recycled buffer changes the block");
                ensure!(b2.into_buffer().as_ptr() == p, "the buffer returned is not the one passed in");
                cx.hit("recycled_without_allocation", (extra > 0) as u64);
            }
            r => bad!("second decode of the same frame: {:?}", r.map(|_| ()).map_err(|e| err(&e))),
        }
    } else {
        cx.hit("frame_refused", valid as u64);
        ensure!(!valid, "valid frame refused");
    }
    cx.eval_bytes(&arc);
    Ok(())
}

/// The metadata iterator over many blocks holds one block at a time.
fn c13_blocks(cx: &mut Ctx) -> Res {
    let n = cx.rng.usize(2, 40);
    let mut data = Vec::new();
    let mut largest = 0;
    for i in 0..n {
        let t = *cx.rng.pick(&[1u8, 2, 3, 4, 5, 6, 9]);
        let body = match t {
            4 => Tags::random(&mut cx.rng, 6, 300).bytes(&mut cx.rng, 0),
            2 => {
                let k = 4 + cx.rng.log_size(9000) as usize;
                cx.rng.bytes(k)
            }
            _ => {
                let k = cx.rng.log_size(9000) as usize;
                cx.rng.bytes(k)
            }
        };
        largest = largest.max(body.len());
        data.extend(block_bytes(t, i + 1 == n, &body));
    }
    let (r, u) = alloc::measure(|| {
        guard("blocks", || {
            let mut k = 0;
            let mut e = None;
            for b in MetadataBlockReader::new(Cursor::new(&data[..])) {
                match b {
                    Ok(b) => drop(b),
                    Err(x) => e = Some(err(&x)),
                }
                k += 1;
            }
            (k, e)
        })
    });
    let (k, e) = r?;
    ensure!(k == n && e.is_none(), "{} of {} blocks, {:?}", k, n, e);
    ensure!(u.peak <= meta_bound(largest as u32) && u.left <= 0, "{} blocks of at most {} bytes: {} bytes of heap held, {} left", n, largest, u.peak, u.left);
    cx.eval_bytes(&data);
    Ok(())
}

/// Once everything is dropped, nothing is held: after successes, errors and
/// iterations that were given up.
fn c13_dropped(cx: &mut Ctx) -> Res {
    let sc = StreamCfg { max_frames: 4, max_block: 120, max_meta: 2, max_meta_len: 200, uniform: false };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let mut data = b"fLaC".to_vec();
    data.extend(block_bytes(0, false, &s.metas[0].body));
    for m in &s.metas[1..] {
        if m.btype != 4 {
            data.extend(block_bytes(m.btype, false, &m.body));
        }
    }
    let text = *cx.rng.pick(&[4usize, 40, 400, 20_000]);
    let pairs = cx.rng.usize(0, if text > 400 { 4 } else { 12 });
    let t = Tags::random(&mut cx.rng, pairs, text);
    let e = cx.rng.usize(0, 2);
    let mut body = t.bytes(&mut cx.rng, e);
    let spoil = cx.rng.chance(2, 3);
    if spoil {
        if cx.rng.chance(1, 4) {
            let with = *cx.rng.pick(&[b'-', 0xff]);
            for b in body.iter_mut().filter(|b| **b == b'=') {
                *b = with;
            }
        } else {
            crate::p_meta::mutate_tags(cx, &mut body);
        }
    }
    data.extend(block_bytes(4, true, &body));
    let audio = data.len();
    data.extend_from_slice(s.audio());
    match cx.rng.below(4) {
        0 => {
            let n = cx.rng.usize(0, data.len());
            data.truncate(n);
        }
        1 if audio < data.len() => {
            let i = cx.rng.usize(audio, data.len() - 1);
            data[i] ^= 1 << cx.rng.below(8);
        }
        _ => {}
    }
    let opts = FlacReaderOptions { metadata_only: cx.rng.chance(1, 6), read_vorbis_comment: cx.rng.chance(5, 6) };
    let via = cx.rng.below(6);
    let give_up = if cx.rng.chance(1, 2) { cx.rng.usize(0, 200) } else { usize::MAX };
    let mut how = 0u64;
    let mut once = || {
        how = 0;
        match via {
            0 => drop(read_metadata_block(&mut Cursor::new(&body[..]), 4, body.len() as u32)),
            1 => MetadataBlockReader::new(Cursor::new(data.get(4..).unwrap_or(&[]))).take(give_up).for_each(drop),
            _ => match FlacReader::new_ext(&data[..], opts) {
                Err(e) => {
                    how = 1;
                    drop((e.to_string(), e))
                }
                Ok(r) if opts.metadata_only => drop(r),
                Ok(mut r) => match via {
                    2 => r.samples().take(give_up).for_each(drop),
                    3 => r.into_samples().take(give_up).for_each(drop),
                    4 => {
                        let mut fr = r.blocks();
                        for _ in 0..give_up.min(12) {
                            match fr.read_next_or_eof(Vec::new()) {
                                Ok(Some(b)) => drop(b),
                                Ok(None) => break,
                                Err(e) => {
                                    how = 2;
                                    drop(e)
                                }
                            }
                        }
                    }
                    _ => {
                        let mut fr = r.blocks();
                        let mut buf = Vec::new();
                        for _ in 0..give_up.min(12) {
                            match fr.read_next_or_eof(std::mem::take(&mut buf)) {
                                Ok(Some(b)) => buf = b.into_buffer(),
                                _ => how = 3,
                            }
                        }
                    }
                },
            },
        }
    };
    // The first time, something may be set up for good.
    guard("first time", &mut once)?;
    let (r, u) = alloc::measure(|| guard("second time", &mut once));
    r?;
    if alloc::ACTIVE {
        ensure!(
            u.left <= 0,
            "{} bytes of heap are still held after everything was dropped (way {}, options {:?}): {}",
            u.left,
            via,
            (opts.metadata_only, opts.read_vorbis_comment),
            hex(&data)
        );
    }
    cx.hit("dropped_via", via);
    cx.hit("dropped_after", how);
    cx.eval(hash_bytes(&data) ^ via);
    Ok(())
}

pub fn c13() -> Prop {
    let _ = Block::empty;
    Prop {
        id: "C13",
        rule: "a case is a metadata block, frame or stream read under a counting allocator: peak live heap, largest request, number of requests and what is left are compared with bounds computed from the declared sizes; small inputs with huge claims, honest inputs, the limit from both sides, long streams; distinct by bytes and declared length",
        stages: vec![
            Stage { name: "claims", quick: 800_000, thorough: 5_000_000, f: c13_claims },
            Stage { name: "honest", quick: 150_000, thorough: 600_000, f: c13_honest },
            Stage { name: "limit", quick: 240, thorough: 4_000, f: c13_limit },
            Stage { name: "skipped", quick: 300, thorough: 6_000, f: c13_skipped },
            Stage { name: "streams", quick: 4_000, thorough: 150_000, f: c13_streams },
            Stage { name: "frames", quick: 100_000, thorough: 3_000_000, f: c13_frames },
            Stage { name: "blocks", quick: 20_000, thorough: 500_000, f: c13_blocks },
            Stage { name: "dropped", quick: 80_000, thorough: 1_500_000, f: c13_dropped },
        ],
        required: vec![("dropped_via", 6), ("dropped_after", 4), ("claims", 5), ("claims_ok", 2), ("honest_type", 2), ("limit", 4), ("limit_via", 3), ("skipped_type", 10), ("stream_frames", 3), ("no_error_streams", 2), ("uniform_streams", 2), ("recycled_without_allocation", 2)],
    }
}
