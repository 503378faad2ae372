//! C06 transport independence, C07 I/O errors, C16 bit reads, C17 byte reads.

use crate::bits::BitModel;
use crate::core::*;
use crate::drive::*;
use crate::gen::*;
use crate::rng::{hash_bytes, Rng};
use crate::src::*;
use crate::{bad, ensure};
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::{read_metadata_block, read_metadata_block_with_header, MetadataBlock, MetadataBlockReader};
use claxon::FlacReader;
use std::cell::Cell;
use std::io::{self, Cursor, Read};
use std::rc::Rc;
use std::sync::Arc;

/// Damages a stream in a few places, leaving it mostly intact.
pub fn damage(rng: &mut Rng, s: &Stream) -> Vec<u8> {
    let mut b = s.bytes.clone();
    match rng.below(5) {
        0 => {}
        1 => {
            let n = rng.usize(0, b.len());
            b.truncate(n);
        }
        2 => {
            for _ in 0..rng.usize(1, 3) {
                let i = rng.usize(0, b.len() - 1);
                b[i] ^= 1 << rng.below(8);
            }
            if rng.chance(1, 4) {
                rng.plant(&mut b);
            }
        }
        3 => {
            if s.audio_start < b.len() {
                let i = rng.usize(s.audio_start, b.len() - 1);
                b.remove(i);
            }
        }
        _ => {
            let i = rng.usize(s.audio_start, b.len());
            let k = rng.usize(1, 40);
            let junk = rng.bytes(k);
            b.splice(i..i, junk);
        }
    }
    b
}

/// Start times of shortened blocks in fixed-block-size streams need the stream
/// info; a bare frame reader may not know it. Everything else must agree.
fn strip_time(evs: &[Ev], fixed: bool) -> Vec<Ev> {
    evs.iter()
        .map(|e| match e {
            Ev::Block(b) if fixed => Ev::Block(Blk { time: 0, ..b.clone() }),
            e => e.clone(),
        })
        .collect()
}

pub struct TempFile(pub std::path::PathBuf);

impl TempFile {
    pub fn new(data: &[u8], tag: u64) -> TempFile {
        let dir = std::env::temp_dir();
        let p = dir.join(format!("vh-{}-{:x}.flac", std::process::id(), tag));
        std::fs::write(&p, data).unwrap();
        TempFile(p)
    }
}

impl Drop for TempFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn c06_transports(cx: &mut Ctx) -> Res {
    let big = cx.rng.chance(1, 4);
    let mut sc = if big { StreamCfg::medium() } else { StreamCfg::small() };
    sc.uniform = cx.rng.chance(1, 2);
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let data = Arc::new(damage(&mut cx.rng, &s));
    let stops = 4;
    let max_ev = 60;
    let reference = guard("reading in one piece", || stream(Src::new(data.clone(), Sched::All), stops, max_ev, false))?;
    cx.hit("reference_last", match reference.last() {
        Some(Ev::Eof) => 0,
        Some(Ev::Err(_)) => 1,
        _ => 2,
    });
    cx.sample(|| format!("{} bytes, {} events: {}", data.len(), reference.len(), hex(&data)));
    let cmp = |got: &[Ev], how: String| -> Res {
        match first_diff(&reference, got) {
            None => Ok(()),
            Some(d) => Err(Bad(format!("read in one piece vs {}: {}: {}", how, d, hex(&data)))),
        }
    };
    for _ in 0..4 {
        let sched = Sched::random(&mut cx.rng);
        let sched_id = sched.id();
        let how = format!("{:?}", sched);
        let recycle = cx.rng.chance(1, 2);
        let got = guard("reading in pieces", || stream(Src::new(data.clone(), sched), stops, max_ev, recycle))?;
        cmp(&got, how)?;
        cx.hit("schedule", sched_id);
    }
    // Pieces that end exactly at, before and after structural boundaries.
    {
        let mut stops_at: Vec<usize> = s.offsets.iter().chain(&s.meta_offsets).copied().collect();
        let d = cx.rng.range(0, 2) as usize;
        for x in &mut stops_at {
            *x += d;
        }
        let got = guard("reading in structural pieces", || stream(Src::new(data.clone(), Sched::Stops(stops_at)), stops, max_ev, true))?;
        cmp(&got, format!("pieces ending at structural boundaries + {}", d))?;
    }
    match cx.rng.below(5) {
        0 => {
            let got = guard("cursor", || stream(Cursor::new(&data[..]), stops, max_ev, false))?;
            cmp(&got, "in-memory cursor".into())?;
        }
        1 => {
            let mut c = Cursor::new(data.to_vec());
            let got = guard("&mut cursor", || stream(&mut c, stops, max_ev, false))?;
            cmp(&got, "reference to a cursor".into())?;
        }
        2 => {
            let b: Box<dyn Read> = Box::new(&data[..]);
            let got = guard("boxed slice", || stream(b, stops, max_ev, false))?;
            cmp(&got, "boxed slice reader".into())?;
        }
        3 => {
            let got = guard("std::io::BufReader", || stream(io::BufReader::with_capacity(7, &data[..]), stops, max_ev, false))?;
            cmp(&got, "std BufReader".into())?;
        }
        _ => {
            let f = TempFile::new(&data, cx.rng.u64());
            let path = f.0.clone();
            let got = guard("file", || {
                let mut out = Vec::new();
                match FlacReader::open(&path) {
                    Err(e) => out.push(Ev::OpenErr(err(&e))),
                    Ok(mut r) => {
                        out.push(opened(&r));
                        let mut fr = r.blocks();
                        blocks(&mut fr, stops, max_ev, true, &mut out);
                    }
                }
                out
            })?;
            cmp(&got, "file".into())?;
            cx.hit("files", 1);
        }
    }
    if reference.len() > 2 {
        cx.eval(hash_bytes(&data));
    } else {
        cx.eval_trivial();
    }

    // The audio part through every kind of byte reader.
    if data.len() > s.audio_start && matches!(reference[0], Ev::Open { .. }) && data[..s.audio_start] == s.bytes[..s.audio_start] {
        let audio = data[s.audio_start..].to_vec();
        let fixed = s.frames.iter().any(|f| !f.variable);
        let want = strip_time(&reference[1..], fixed);
        for how in 0..6 {
            let mut evs = Vec::new();
            let sched = Sched::random(&mut cx.rng);
            guard("frame reader", || match how {
                0 => blocks(&mut FrameReader::new(Cursor::new(&audio[..])), stops, max_ev - 1, true, &mut evs),
                1 => blocks(&mut FrameReader::new(ByteSrc::of(&audio)), stops, max_ev - 1, false, &mut evs),
                2 => blocks(&mut FrameReader::new(BufferedReader::new(Src::of(&audio, sched))), stops, max_ev - 1, true, &mut evs),
                3 => {
                    let mut b = BufferedReader::new(Src::of(&audio, sched));
                    blocks(&mut FrameReader::new(&mut b), stops, max_ev - 1, true, &mut evs)
                }
                4 => {
                    let mut c = Cursor::new(&audio[..]);
                    let mut r = &mut c;
                    blocks(&mut FrameReader::new(&mut r), stops, max_ev - 1, false, &mut evs)
                }
                _ => {
                    // A fresh frame reader for every frame, as container users do.
                    let mut c = ByteSrc::of(&audio);
                    let mut n = 0;
                    while n < stops && evs.len() < max_ev - 1 {
                        let mut one = Vec::new();
                        blocks(&mut FrameReader::new(&mut c), 1, 1, false, &mut one);
                        if !matches!(one[0], Ev::Block(_)) {
                            n += 1;
                        }
                        evs.extend(one);
                    }
                }
            })?;
            if let Some(d) = first_diff(&want, &strip_time(&evs, fixed)) {
                bad!("stream reader vs frame reader over source kind {}: {}: {}", how, d, hex(&audio));
            }
        }
        cx.hit("audio_compared", 1);
    }
    Ok(())
}

fn same_block(a: &MetadataBlock, b: &MetadataBlock) -> bool {
    match (a, b) {
        (MetadataBlock::StreamInfo(x), MetadataBlock::StreamInfo(y)) => x == y,
        (MetadataBlock::Padding { length: x }, MetadataBlock::Padding { length: y }) => x == y,
        (MetadataBlock::Application { id: a, data: x }, MetadataBlock::Application { id: b, data: y }) => a == b && x == y,
        (MetadataBlock::VorbisComment(x), MetadataBlock::VorbisComment(y)) => x.vendor == y.vendor && x.comments == y.comments,
        (MetadataBlock::Reserved, MetadataBlock::Reserved) => true,
        (MetadataBlock::SeekTable(_), MetadataBlock::SeekTable(_)) => true,
        (MetadataBlock::CueSheet, MetadataBlock::CueSheet) => true,
        (MetadataBlock::Picture, MetadataBlock::Picture) => true,
        _ => false,
    }
}

/// Blocks and frames in packets of their own, and what is consumed of them.
fn c06_packets(cx: &mut Ctx) -> Res {
    let big = cx.rng.chance(1, 5);
    let sc = if big { StreamCfg::medium() } else { StreamCfg::small() };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let mut all: Vec<MetadataBlock> = Vec::new();
    let mut src = ByteSrc::of(&s.bytes[4..]);
    let n = s.metas.len();
    let res: Result<Vec<_>, _> = guard("metadata iterator", || MetadataBlockReader::new(&mut src).collect())?;
    match res {
        Ok(v) => all.extend(v),
        Err(e) => bad!("valid metadata refused: {:?}", err(&e)),
    }
    ensure!(all.len() == n, "{} blocks instead of {}", all.len(), n);
    ensure!(src.pos + 4 == s.audio_start, "metadata of {} bytes consumed {}", s.audio_start - 4, src.pos);
    for (i, m) in s.metas.iter().enumerate() {
        let mut packet = block_bytes(m.btype, cx.rng.chance(1, 2), &m.body);
        let len = packet.len();
        let tail_len = cx.rng.usize(0, 30);
        let tail = cx.rng.bytes(tail_len);
        packet.extend_from_slice(&tail);
        let mut a = ByteSrc::of(&packet);
        let x = guard("block with header", || read_metadata_block_with_header(&mut a))?;
        ensure!(a.pos == len, "block of {} bytes, {} consumed", len, a.pos);
        let mut b = ByteSrc::of(&packet[4..]);
        let y = guard("block", || read_metadata_block(&mut b, m.btype, m.body.len() as u32))?;
        ensure!(b.pos == m.body.len(), "block body of {} bytes, {} consumed", m.body.len(), b.pos);
        let mut c = Cursor::new(&packet[..]);
        let z = guard("block from cursor", || read_metadata_block_with_header(&mut c))?;
        ensure!(c.position() as usize == len, "block of {} bytes, cursor moved {}", len, c.position());
        let sched = Sched::random(&mut cx.rng);
        let mut d = BufferedReader::new(Src::of(&packet, sched));
        let w = guard("block from buffered reader", || read_metadata_block_with_header(&mut d))?;
        let mut rest = vec![0; tail.len()];
        guard("bytes after the block", || d.read_into(&mut rest))?.map_err(|e| Bad(format!("bytes after the block: {}", e)))?;
        ensure!(rest == tail, "buffered reader misplaced after a block of type {} and {} bytes", m.btype, len);
        for r in [x, y, z, w] {
            match r {
                Ok(r) => ensure!(same_block(&r, &all[i]), "block {} (type {}) differs when read on its own", i, m.btype),
                Err(e) => bad!("block {} (type {}) refused on its own: {:?}", i, m.btype, err(&e)),
            }
        }
        cx.hit("packet_type", m.btype as u64);
        cx.eval(hash_bytes(&packet[..len]));
    }
    for (i, f) in s.frames.iter().enumerate() {
        let mut packet = f.bytes.clone();
        let k = cx.rng.usize(0, 20);
        packet.extend(cx.rng.bytes(k));
        let mut a = ByteSrc::of(&packet);
        let r = guard("frame in a packet", || {
            let mut fr = FrameReader::new(&mut a);
            fr.read_next_or_eof(Vec::new()).map(|b| b.map(|b| view(&b))).map_err(|e| err(&e))
        })?;
        match r {
            Ok(Some(b)) => check_block(&b, f, "frame in a packet")?,
            r => bad!("frame {} in a packet gave {:?}", i, r),
        }
        ensure!(a.pos == f.bytes.len(), "frame of {} bytes, {} consumed", f.bytes.len(), a.pos);
        cx.hit("packet_type", 1000);
        cx.eval(hash_bytes(&f.bytes));
    }
    // The same from one unbuffered source, position checked after each frame.
    let mut a = ByteSrc::of(s.audio());
    for i in 0..s.frames.len() {
        let r = guard("frames from one source", || FrameReader::new(&mut a).read_next_or_eof(Vec::new()).map(|b| b.is_some()))?;
        ensure!(matches!(r, Ok(true)), "frame {} not read", i);
        ensure!(a.pos + s.audio_start == s.offsets[i + 1], "after frame {} at {} instead of {}", i, a.pos + s.audio_start, s.offsets[i + 1]);
    }
    Ok(())
}

/// What a run of metadata blocks looks like through one kind of source.
fn meta_items<R: ReadBytes>(src: R) -> Vec<Result<MetadataBlock, E>> {
    MetadataBlockReader::new(src).take(40).map(|r| r.map_err(|e| err(&e))).collect()
}

/// Damaged, cut and intact metadata through every kind of byte reader.
fn c06_metadata(cx: &mut Ctx) -> Res {
    let sc = StreamCfg { max_frames: 1, max_block: 16, max_meta: 4, max_meta_len: if cx.rng.chance(1, 20) { 5000 } else { 60 }, uniform: false };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let mut data = s.bytes[4..s.audio_start].to_vec();
    let how = cx.rng.below(5);
    match how {
        0 => {}
        1 | 2 => {
            let n = cx.rng.usize(0, data.len());
            data.truncate(n);
        }
        3 => {
            for _ in 0..cx.rng.usize(1, 3) {
                let i = cx.rng.usize(0, data.len() - 1);
                data[i] ^= 1 << cx.rng.below(8);
            }
        }
        _ => {
            // A length that leads elsewhere.
            let i = *cx.rng.pick(&s.meta_offsets) - 4;
            if i + 4 <= data.len() {
                data[i + 3] = data[i + 3].wrapping_add(cx.rng.range(1, 255) as u8);
            }
        }
    }
    let mut src = ByteSrc::of(&data);
    let want = guard("metadata", || meta_items(&mut src))?;
    let at = src.pos;
    let same = |got: &[Result<MetadataBlock, E>]| -> bool {
        got.len() == want.len()
            && got.iter().zip(&want).all(|p| match p {
                (Ok(a), Ok(b)) => same_block(a, b),
                (Err(a), Err(b)) => a == b,
                _ => false,
            })
    };
    let clean = want.iter().all(|r| r.is_ok());
    for k in 0..7 {
        let sched = Sched::random(&mut cx.rng);
        let mut end = None;
        let got = guard("metadata", || match k {
            0 => {
                let mut c = Cursor::new(&data[..]);
                let v = meta_items(&mut c);
                end = Some(c.position() as usize);
                v
            }
            1 => meta_items(Cursor::new(data.clone())),
            2 => meta_items(BufferedReader::new(Src::of(&data, sched))),
            3 => {
                let mut b = BufferedReader::new(Src::of(&data, sched));
                let mut b = &mut b;
                meta_items(&mut b)
            }
            4 => {
                let mut b = ByteSrc::of(&data);
                let mut r = &mut b;
                let v = meta_items(&mut r);
                end = Some(b.pos);
                v
            }
            5 => {
                // One block at a time.
                let mut b = ByteSrc::of(&data);
                let mut v = Vec::new();
                while v.len() < 40 {
                    let last = data.get(b.pos).map_or(false, |x| x & 0x80 != 0);
                    let r = read_metadata_block_with_header(&mut b).map_err(|e| err(&e));
                    let stop = last || r.is_err();
                    v.push(r);
                    if stop {
                        break;
                    }
                }
                end = Some(b.pos);
                v
            }
            _ => {
                let mut b = BufferedReader::new(Src::of(&data, sched));
                let mut v = Vec::new();
                let mut p = 0;
                while v.len() < 40 {
                    let last = data.get(p).map_or(false, |x| x & 0x80 != 0);
                    p += 4 + data.get(p + 1..p + 4).map_or(0, |l| u32::from_be_bytes([0, l[0], l[1], l[2]]) as usize);
                    let r = read_metadata_block_with_header(&mut &mut b).map_err(|e| err(&e));
                    let stop = last || r.is_err();
                    v.push(r);
                    if stop {
                        break;
                    }
                }
                v
            }
        })?;
        let show = |v: &[Result<MetadataBlock, E>]| -> String {
            v.iter().map(|r| match r { Ok(_) => "block".to_string(), Err(e) => format!("{:?}", e) }).collect::<Vec<_>>().join(", ")
        };
        ensure!(same(&got), "metadata through source kind {}: [{}] instead of [{}]: {}", k, show(&got), show(&want), hex(&data));
        if let (Some(e), true) = (end, clean) {
            ensure!(e == at, "metadata through source kind {}: {} bytes consumed instead of {}: {}", k, e, at, hex(&data));
        }
    }
    cx.hit("metadata_damage", how * 2 + clean as u64);
    cx.eval(hash_bytes(&data));
    Ok(())
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "cases are byte sequences (valid streams and damaged ones); the recorded sequence of events (metadata, samples, times, errors, also after errors) is compared between delivery in one piece, several random delivery schedules, delivery stopping at structural boundaries, cursor, references, boxed and std-buffered readers, file, and every byte reader; packets are read on their own and the bytes consumed counted; trivial: fewer than three events; distinct by the bytes",
        stages: vec![
            Stage { name: "transports", quick: 40_000, thorough: 250_000, f: c06_transports },
            Stage { name: "packets", quick: 40_000, thorough: 120_000, f: c06_packets },
            Stage { name: "metadata", quick: 60_000, thorough: 2_000_000, f: c06_metadata },
        ],
        required: vec![("reference_last", 3), ("schedule", 5), ("audio_compared", 1), ("files", 1), ("packet_type", 8), ("metadata_damage", 8)],
    }
}

// ---------------------------------------------------------------------------
// C07

fn c07_inject(cx: &mut Ctx) -> Res {
    let sc = StreamCfg { max_frames: 4, max_block: 60, max_meta: 3, max_meta_len: 60, uniform: false };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let data = Arc::new(s.bytes.clone());
    let fixed = s.frames.iter().any(|f| !f.variable);
    let sched = match cx.rng.below(4) {
        0 => Sched::Fixed(1),
        1 => Sched::Stops(s.offsets.iter().chain(&s.meta_offsets).copied().collect()),
        2 => Sched::Fixed(cx.rng.usize(1, 40)),
        _ => Sched::random(&mut cx.rng),
    };
    let mut dry = Src::new(data.clone(), sched.clone());
    let reference = guard("without errors", || stream(&mut dry, 1, 100, false))?;
    let total = dry.calls;
    let step = (total / 120).max(1);
    let mut k = cx.rng.below(step);
    while k < total {
        let kind = *cx.rng.pick(&ALL_KINDS);
        let id = cx.rng.u64();
        let mut src = Src::new(data.clone(), sched.clone());
        src.faults = vec![(k, Fault::Err(kind, id))];
        // Sometimes a second error right after the first.
        let double = cx.rng.chance(1, 4);
        let id2 = cx.rng.u64();
        if double {
            src.faults.push((k + 1, Fault::Err(kind, id2)));
        }
        let what = format!("{:?} error at read {} of {} ({:?})", kind, k, total, sched);
        let by_samples = cx.rng.chance(1, 4);
        k += step;
        cx.eval(hash_bytes(&data) ^ k);

        let mut r = match guard(&what, || FlacReader::new(&mut src))? {
            Err(e) => {
                ensure!(
                    err(&e) == raised(kind, id),
                    "{}: opening gave {:?} instead of the error",
                    what,
                    err(&e)
                );
                cx.hit("error_during", 0);
                drop(e);
                ensure!(src.fired == 1, "{}: source read on after its error", what);
                continue;
            }
            Ok(r) => r,
        };
        ensure!(matches!(reference[0], Ev::Open { .. }), "{}: opened a stream that does not open", what);
        let o = opened(&r);
        ensure!(o == reference[0], "{}: metadata differs", what);
        if by_samples {
            let mut vals = Vec::new();
            let mut first_err = None;
            let mut after = 0;
            guard(&what, || {
                for x in r.samples() {
                    match x {
                        Ok(v) if first_err.is_none() => vals.push(v),
                        Ok(_) => after += 1,
                        Err(e) if first_err.is_none() => first_err = Some(err(&e)),
                        Err(_) => after += 1,
                    }
                }
            })?;
            ensure!(after == 0, "{}: sample iterator went on after the error", what);
            ensure!(first_err == Some(raised(kind, id)), "{}: sample iterator gave {:?}", what, first_err);
            let mut pre = Vec::new();
            for f in &s.frames {
                if vals.len() > pre.len() {
                    pre.extend(crate::p_decode::interleave(&f.samples));
                }
            }
            ensure!(vals == pre, "{}: samples before the error are wrong", what);
            cx.hit("error_during", 1);
        } else {
            let mut evs = Vec::new();
            guard(&what, || blocks(&mut r.blocks(), 1, 100, false, &mut evs))?;
            let last = evs.pop();
            ensure!(last == Some(Ev::Err(raised(kind, id))), "{}: ended with {:?}", what, last);
            ensure!(evs[..] == reference[1..1 + evs.len()], "{}: blocks before the error differ", what);
            cx.hit("error_during", 2);
        }
        if double {
            let mut evs = Vec::new();
            guard(&what, || blocks(&mut r.blocks(), 1, 100, false, &mut evs))?;
            ensure!(evs == [Ev::Err(raised(kind, id2))], "{}: second error: {:?}", what, evs.last());
        }
        // Carry on: decoding resumes at the first byte the source had not yet
        // given, because everything it had given was consumed.
        let mut rest = Vec::new();
        guard(&what, || {
            if by_samples {
                blocks(&mut r.blocks(), 3, 40, true, &mut rest)
            } else {
                let mut fr = r.blocks();
                blocks(&mut fr, 3, 40, false, &mut rest)
            }
        })?;
        drop(r);
        let pos = resume_position(&data, &sched, k - step)?;
        let mut want = Vec::new();
        guard("decoding from the resume position", || {
            blocks(&mut FrameReader::new(Cursor::new(&data[pos..])), 3, 40, false, &mut want)
        })?;
        if let Some(d) = first_diff(&strip_time(&want, fixed), &strip_time(&rest, fixed)) {
            bad!("{}: carrying on after {} bytes had been given out: expected/got {}", what, pos, d);
        }
        if s.offsets.contains(&pos) {
            cx.hit("resumed_at_frame_boundary", 1);
            let i = s.offsets.iter().position(|&o| o == pos).unwrap();
            for (j, f) in s.frames[i..].iter().enumerate() {
                match rest.get(j) {
                    Some(Ev::Block(b)) => check_block(b, f, &what)?,
                    e => bad!("{}: frame {} after resuming at its start gave {:?}", what, i + j, e),
                }
            }
        }
        cx.hit("resumed", 1);
    }
    Ok(())
}

/// How many bytes the source has given out before call `k`, when the library
/// opens and decodes the stream without errors.
fn resume_position(data: &Arc<Vec<u8>>, sched: &Sched, k: u64) -> Result<usize, Bad> {
    struct Probe {
        inner: Src,
        k: u64,
        at: Option<usize>,
    }
    impl Read for Probe {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            if self.inner.calls == self.k {
                self.at = Some(self.inner.pos);
            }
            self.inner.read(buf)
        }
    }
    let mut p = Probe { inner: Src::new(data.clone(), sched.clone()), k, at: None };
    guard("probe", || stream(&mut p, 1, 100, false))?;
    p.at.ok_or_else(|| Bad(format!("read call {} did not happen again: reading is not deterministic", k)))
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    U8,
    U8Eof,
    U16,
    U16Eof,
    U24,
    U32,
    Le32,
    Into(usize),
    Skip(u32),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Num(u64),
    Bytes(Vec<u8>),
    Unit,
    End,
}

pub fn rand_op(rng: &mut Rng, big: u64) -> Op {
    match rng.below(11) {
        0 | 1 => Op::U8,
        2 => Op::U8Eof,
        3 => Op::U16,
        4 => Op::U16Eof,
        5 => Op::U24,
        6 => Op::U32,
        7 => Op::Le32,
        8 | 9 => Op::Into(rng.log_size(big) as usize),
        _ => Op::Skip(rng.log_size(big) as u32),
    }
}

pub fn apply<R: ReadBytes>(r: &mut R, op: Op) -> io::Result<Val> {
    Ok(match op {
        Op::U8 => Val::Num(r.read_u8()? as u64),
        Op::U8Eof => match r.read_u8_or_eof()? {
            Some(x) => Val::Num(x as u64),
            None => Val::End,
        },
        Op::U16 => Val::Num(r.read_be_u16()? as u64),
        Op::U16Eof => match r.read_be_u16_or_eof()? {
            Some(x) => Val::Num(x as u64),
            None => Val::End,
        },
        Op::U24 => Val::Num(r.read_be_u24()? as u64),
        Op::U32 => Val::Num(r.read_be_u32()? as u64),
        Op::Le32 => Val::Num(r.read_le_u32()? as u64),
        Op::Into(n) => {
            let mut b = vec![0xee; n];
            r.read_into(&mut b)?;
            Val::Bytes(b)
        }
        Op::Skip(n) => {
            r.skip(n)?;
            Val::Unit
        }
    })
}

pub fn op_len(op: Op) -> u64 {
    match op {
        Op::U8 | Op::U8Eof => 1,
        Op::U16 | Op::U16Eof => 2,
        Op::U24 => 3,
        Op::U32 | Op::Le32 => 4,
        Op::Into(n) => n as u64,
        Op::Skip(n) => n as u64,
    }
}

/// What the operation must return given the remaining bytes; None: end of file.
pub fn model_op(rest: &[u8], op: Op) -> Option<Val> {
    let n = op_len(op);
    if matches!(op, Op::U8Eof | Op::U16Eof) && rest.is_empty() {
        return Some(Val::End);
    }
    if (rest.len() as u64) < n {
        return None;
    }
    let b = &rest[..n as usize];
    Some(match op {
        Op::Into(_) => Val::Bytes(b.to_vec()),
        Op::Skip(_) => Val::Unit,
        Op::Le32 => Val::Num(b.iter().rev().fold(0, |a, &x| a << 8 | x as u64)),
        _ => Val::Num(b.iter().fold(0, |a, &x| a << 8 | x as u64)),
    })
}

/// Byte-level operations with errors in between.
fn c07_bytes(cx: &mut Ctx) -> Res {
    let len = cx.rng.log_size(9000) as usize + 10;
    // Every byte says where it is, so that repeated or lost ones show.
    let mut data = vec![0u8; len];
    let salt = cx.rng.u64();
    for (i, b) in data.iter_mut().enumerate() {
        *b = (crate::rng::mix(&[salt, i as u64]) >> 11) as u8;
    }
    let data = Arc::new(data);
    let sched = Sched::random(&mut cx.rng);
    let mut src = Src::new(data.clone(), sched.clone());
    let n_faults = cx.rng.usize(1, 4);
    let mut at = 0;
    let small = matches!(sched, Sched::Fixed(1..=17) | Sched::Random(_, 8));
    for _ in 0..n_faults {
        at += if small { cx.rng.range(0, 40) } else { cx.rng.range(0, 3) } + 1;
        src.faults.push((at - 1, Fault::Err(*cx.rng.pick(&ALL_KINDS), cx.rng.u64())));
    }
    let faults = src.faults.clone();
    let big = *cx.rng.pick(&[4u64, 40, 3000]);
    let mut pos = 0usize;
    let mut seen = 0;
    let mut log = Vec::new();
    let pending = Rc::new(Cell::new(0usize));
    let fired = Rc::new(Cell::new(0usize));
    struct Tap {
        inner: Src,
        pos: Rc<Cell<usize>>,
        fired: Rc<Cell<usize>>,
    }
    impl Read for Tap {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let r = self.inner.read(buf);
            self.pos.set(self.inner.pos);
            self.fired.set(self.inner.fired as usize);
            r
        }
    }
    let mut r = BufferedReader::new(Tap { inner: src, pos: pending.clone(), fired: fired.clone() });
    for _ in 0..60 {
        let mut op = rand_op(&mut cx.rng, big);
        // Far beyond the data, so that the error comes first.
        match op {
            Op::Skip(_) if cx.rng.chance(1, 8) => op = Op::Skip(cx.rng.log_size(u32::MAX as u64) as u32),
            Op::Into(_) if cx.rng.chance(1, 100) => op = Op::Into(cx.rng.log_size(1 << 21) as usize),
            _ => {}
        }
        log.push(op);
        let got = guard("byte operation", || apply(&mut r, op))?;
        let rest = &data[pos..];
        match got {
            Ok(v) => {
                let w = model_op(rest, op);
                ensure!(fired.get() == seen, "{:?} gave {:?} although the source failed", op, v);
                ensure!(Some(&v) == w.as_ref(), "at byte {} of {}: {:?} gave {:?} instead of {:?}; faults {:?}, schedule {:?}, operations {:?}", pos, len, op, v, w, faults, sched, log);
                if v != Val::End {
                    pos += op_len(op) as usize;
                }
                ensure!(pending.get() >= pos, "{:?} returned bytes the source never gave", op);
            }
            Err(e) => {
                if fired.get() > seen {
                    let (_, Fault::Err(k, id)) = faults[seen] else { bad!("wrong fault") };
                    ensure!(io_err(&e) == raised(k, id), "another error than the one raised: {:?}", e);
                    seen += 1;
                    ensure!(fired.get() == seen, "{:?} read on after an error of the source", op);
                    // Whatever had been given out is used up, nothing else is.
                    pos = pending.get();
                    cx.hit("op_hit_by_error", op_len(op).min(5));
                } else {
                    ensure!(e.kind() == io::ErrorKind::UnexpectedEof, "{:?} gave {:?}", op, e);
                    ensure!((rest.len() as u64) < op_len(op), "{:?} reports the end with {} bytes left; faults {:?}, schedule {:?}", op, rest.len(), faults, sched);
                    break;
                }
            }
        }
    }
    if seen > 0 {
        cx.eval(hash_bytes(format!("{:?}{:?}{}", log, faults, len).as_bytes()));
        cx.hit("errors_seen", seen as u64);
    } else {
        cx.eval_trivial();
    }
    Ok(())
}

/// Errors of a user-written byte reader, at every byte of metadata and audio.
fn c07_readbytes(cx: &mut Ctx) -> Res {
    let sc = StreamCfg { max_frames: 2, max_block: 30, max_meta: 4, max_meta_len: 30, uniform: true };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let fixed = s.frames.iter().any(|f| !f.variable);
    let meta = Arc::new(s.bytes[4..s.audio_start].to_vec());
    let step = (meta.len() / 60).max(1);
    let mut at = cx.rng.usize(0, step - 1);
    while at < meta.len() {
        let kind = *cx.rng.pick(&ALL_KINDS);
        let id = cx.rng.u64();
        let mut src = ByteSrc::new(meta.clone());
        src.fail_at = Some((at, kind, id));
        let mut it = MetadataBlockReader::new(&mut src);
        let mut n = 0;
        loop {
            match guard("metadata with an error", || it.next())? {
                None => bad!("error at byte {} of the metadata vanished", at),
                Some(Ok(_)) => n += 1,
                Some(Err(e)) => {
                    ensure!(err(&e) == raised(kind, id), "error at byte {} of the metadata became {:?}", at, err(&e));
                    break;
                }
            }
        }
        let before = s.meta_offsets.iter().filter(|&&o| o > 4 && o - 4 <= at).count();
        ensure!(n == before, "{} blocks before the error at {} instead of {} ({:?} {:?})", n, at, before, s.meta_offsets, s.metas);
        ensure!(guard("after the error", || it.next())?.is_none(), "metadata iterator went on");
        cx.hit("error_in_metadata", s.metas[before].btype.min(8) as u64);
        cx.eval(hash_bytes(&meta) ^ at as u64);
        at += step;
    }
    let audio = Arc::new(s.audio().to_vec());
    let step = (audio.len() / 80).max(1);
    let mut at = if audio.is_empty() { 0 } else { cx.rng.usize(0, step - 1) };
    while at < audio.len() {
        let kind = *cx.rng.pick(&ALL_KINDS);
        let id = cx.rng.u64();
        let mut src = ByteSrc::new(audio.clone());
        src.fail_at = Some((at, kind, id));
        let mut evs = Vec::new();
        let mut fr = FrameReader::new(src);
        guard("audio with an error", || blocks(&mut fr, 1, 50, false, &mut evs))?;
        let whole = s.offsets[1..].iter().filter(|&&o| o - s.audio_start <= at).count();
        ensure!(evs.len() == whole + 1, "error at byte {} of the audio: {} events, {} whole frames", at, evs.len(), whole);
        ensure!(evs[whole] == Ev::Err(raised(kind, id)), "error at byte {} of the audio became {:?}", at, evs[whole]);
        for (i, f) in s.frames[..whole].iter().enumerate() {
            match &evs[i] {
                Ev::Block(b) => check_block(b, f, "before the error")?,
                e => bad!("frame before the error gave {:?}", e),
            }
        }
        let mut rest = Vec::new();
        guard("carrying on", || blocks(&mut fr, 3, 30, false, &mut rest))?;
        let mut want = Vec::new();
        guard("from the error on", || blocks(&mut FrameReader::new(Cursor::new(&audio[at..])), 3, 30, false, &mut want))?;
        if let Some(d) = first_diff(&strip_time(&want, fixed), &strip_time(&rest, fixed)) {
            bad!("carrying on after an error at byte {}: expected/got {}", at, d);
        }
        cx.hit("error_in_audio", 1);
        cx.eval(hash_bytes(&audio) ^ at as u64);
        at += step;
    }
    Ok(())
}

/// Errors after long buffers: old contents must not come back.
fn c07_long(cx: &mut Ctx) -> Res {
    let sc = StreamCfg { max_frames: 6, max_block: 1500, max_meta: 2, max_meta_len: 200, uniform: true };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    if s.frames.is_empty() {
        return Ok(());
    }
    let data = Arc::new(s.bytes.clone());
    let mut stops = s.offsets.clone();
    stops.extend(s.offsets.iter().map(|o| o.saturating_sub(1)));
    let mut dry = Src::new(data.clone(), Sched::Stops(stops.clone()));
    guard("dry run", || stream(&mut dry, 1, 100, false))?;
    let total = dry.calls;
    for k in 0..total {
        let mut src = Src::new(data.clone(), Sched::Stops(stops.clone()));
        let (kind, id) = (*cx.rng.pick(&ALL_KINDS), cx.rng.u64());
        src.faults = vec![(k, Fault::Err(kind, id))];
        let Ok(mut r) = guard("open", || FlacReader::new(&mut src))? else { continue };
        let mut evs = Vec::new();
        let max = s.frames.len() * 2 + 8;
        guard("retrying after an error", || blocks(&mut r.blocks(), 2, max, true, &mut evs))?;
        drop(r);
        let pos = resume_position(&data, &Sched::Stops(stops.clone()), k)?;
        if !s.offsets.contains(&pos) {
            continue;
        }
        // The error fell on a frame boundary: nothing lost, nothing repeated.
        let i = s.offsets.iter().position(|&o| o == pos).unwrap();
        let mut it = evs.iter();
        for (j, f) in s.frames.iter().enumerate() {
            if j == i {
                let e = it.next();
                ensure!(e == Some(&Ev::Err(raised(kind, id))), "at the boundary before frame {}: {:?}", j, e);
            }
            match it.next() {
                Some(Ev::Block(b)) => check_block(b, f, &format!("frame {} with an error before frame {}", j, i))?,
                e => bad!("frame {} with an error before frame {}: {:?}", j, i, e),
            }
        }
        cx.hit("boundary_errors", 1);
        cx.eval(hash_bytes(&data) ^ k);
    }
    Ok(())
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "cases are streams and operation sequences read from a source that fails at a chosen read call (every call of small streams), with a unique error payload; the error returned is compared by kind and payload, everything before it with the undisturbed run, and everything after a retry with an independent decode from the first byte the source had not yet given out; trivial: the error never fired; distinct by bytes and failing call",
        stages: vec![
            Stage { name: "inject", quick: 7_000, thorough: 35_000, f: c07_inject },
            Stage { name: "bytes", quick: 600_000, thorough: 3_000_000, f: c07_bytes },
            Stage { name: "readbytes", quick: 4_000, thorough: 20_000, f: c07_readbytes },
            Stage { name: "long", quick: 2_500, thorough: 25_000, f: c07_long },
        ],
        required: vec![("error_during", 3), ("resumed_at_frame_boundary", 1), ("error_in_metadata", 5), ("op_hit_by_error", 5), ("boundary_errors", 1)],
    }
}

// ---------------------------------------------------------------------------
// C16

/// Unbuffered source whose position can be seen while it is lent out.
pub struct Shared {
    pub data: Arc<Vec<u8>>,
    pub pos: Rc<Cell<usize>>,
}

impl ReadBytes for Shared {
    fn read_u8(&mut self) -> io::Result<u8> {
        match self.read_u8_or_eof()? {
            Some(b) => Ok(b),
            None => Err(io::Error::new(io::ErrorKind::UnexpectedEof, "end")),
        }
    }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {
        let p = self.pos.get();
        if p < self.data.len() {
            self.pos.set(p + 1);
            Ok(Some(self.data[p]))
        } else {
            Ok(None)
        }
    }
    fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {
        for b in buffer {
            *b = self.read_u8()?;
        }
        Ok(())
    }
    fn skip(&mut self, amount: u32) -> io::Result<()> {
        for _ in 0..amount {
            self.read_u8()?;
        }
        Ok(())
    }
}

#[derive(Clone, Copy, Debug)]
enum BitOp {
    Bit,
    Unary,
    Le8(u32),
    Gt8(u32),
    Le16(u32),
    Le32(u32),
}

fn rand_bitop(rng: &mut Rng, style: u64) -> BitOp {
    match (style, rng.below(6)) {
        (1, _) => BitOp::Unary,
        (2, 0..=2) => BitOp::Bit,
        (_, 0) => BitOp::Bit,
        (_, 1) => BitOp::Unary,
        (_, 2) => BitOp::Le8(rng.range(0, 8) as u32),
        (_, 3) => BitOp::Gt8(rng.range(9, 16) as u32),
        (_, 4) => BitOp::Le16(rng.range(0, 16) as u32),
        _ => BitOp::Le32(rng.range(0, 32) as u32),
    }
}

fn apply_bit<R: ReadBytes>(b: &mut Bitstream<R>, op: BitOp) -> io::Result<u64> {
    Ok(match op {
        BitOp::Bit => b.read_bit()? as u64,
        BitOp::Unary => b.read_unary()? as u64,
        BitOp::Le8(n) => b.read_leq_u8(n)? as u64,
        BitOp::Gt8(n) => b.read_gt_u8_leq_u16(n)? as u64,
        BitOp::Le16(n) => b.read_leq_u16(n)? as u64,
        BitOp::Le32(n) => b.read_leq_u32(n)? as u64,
    })
}

fn model_bit(m: &mut BitModel, op: BitOp) -> Option<u64> {
    match op {
        BitOp::Bit => m.bit().map(|b| b as u64),
        BitOp::Unary => m.unary(),
        BitOp::Le8(n) | BitOp::Gt8(n) | BitOp::Le16(n) | BitOp::Le32(n) => m.get(n),
    }
}

fn bits_run<R: ReadBytes>(
    cx: &mut Ctx,
    r: R,
    data: &[u8],
    pos: Option<&Cell<usize>>,
    what: &str,
    ops: &[BitOp],
) -> Res {
    let mut m = BitModel::new(data);
    let mut bs = Bitstream::new(r);
    for (i, &op) in ops.iter().enumerate() {
        let at = m.pos;
        let got = guard("bit read", || apply_bit(&mut bs, op))
            .map_err(|Bad(e)| Bad(format!("{} ({:?} at bit {} of {})", e, op, at, hex(data))))?;
        let want = model_bit(&mut m, op);
        cx.stats.evals += 1;
        match (got, want) {
            (Ok(g), Some(w)) => {
                ensure!(g == w, "{}: {:?} at bit {} gave {} instead of {}; operation {} of {:?}, data {}", what, op, at, g, w, i, &ops[..=i], hex(data));
                if let Some(p) = pos {
                    ensure!(
                        p.get() as u64 == (m.pos + 7) / 8,
                        "{}: {:?} at bit {}: {} bytes taken for {} bits",
                        what,
                        op,
                        at,
                        p.get(),
                        m.pos
                    );
                }
                cx.hit("bit_offset_x_op", (at % 8) * 64 + match op {
                    BitOp::Bit => 0,
                    BitOp::Unary => 1,
                    BitOp::Le8(n) => 2 + n as u64,
                    BitOp::Gt8(n) => 11 + n as u64 - 9,
                    BitOp::Le16(n) => 19 + n as u64,
                    BitOp::Le32(n) => 31 + n as u64,
                });
            }
            (Err(e), None) => {
                ensure!(e.kind() == io::ErrorKind::UnexpectedEof, "{}: {:?} at bit {} gave {:?}", what, op, at, e);
                cx.hit("ended", 1);
                return Ok(());
            }
            (Err(e), Some(w)) => bad!("{}: {:?} at bit {} of {} bits gave {:?} instead of {}", what, op, at, data.len() * 8, e, w),
            (Ok(g), None) => bad!("{}: {:?} at bit {} of {} bits gave {} instead of the end", what, op, at, data.len() * 8, g),
        }
    }
    Ok(())
}

fn bit_data(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut d = rng.bytes(n);
    match rng.below(5) {
        0 => {
            // Long runs of zeros.
            for b in &mut d {
                if rng.chance(19, 20) {
                    *b = 0;
                }
            }
        }
        1 => {
            for b in &mut d {
                *b |= rng.u8() | rng.u8();
            }
        }
        2 => {
            for b in &mut d {
                *b &= rng.u8() & rng.u8();
            }
        }
        3 => {
            for b in &mut d {
                *b = *rng.pick(&[0, 0xff, 0x80, 1, 0x7f, 0xfe]);
            }
        }
        _ => {}
    }
    d
}

fn c16_random(cx: &mut Ctx) -> Res {
    let n = cx.rng.log_size(400) as usize;
    let data = Arc::new(bit_data(&mut cx.rng, n));
    let style = cx.rng.below(5);
    let ops: Vec<BitOp> = (0..cx.rng.usize(5, 300)).map(|_| rand_bitop(&mut cx.rng, style)).collect();
    cx.sample(|| format!("{:?} on {}", &ops[..5], hex(&data)));
    cx.stats.distinct.insert(hash_bytes(&data) ^ hash_bytes(format!("{:?}", ops).as_bytes()));
    let pos = Rc::new(Cell::new(0));
    let src = Shared { data: data.clone(), pos: pos.clone() };
    bits_run(cx, src, &data, Some(&pos), "byte source", &ops)?;
    match cx.rng.below(3) {
        0 => bits_run(cx, Cursor::new(&data[..]), &data, None, "cursor", &ops),
        1 => {
            let sched = Sched::random(&mut cx.rng);
            let r = BufferedReader::new(Src::new(data.clone(), sched));
            bits_run(cx, r, &data, None, "buffered reader", &ops)
        }
        _ => {
            let mut r = BufferedReader::new(&data[..]);
            bits_run(cx, &mut r, &data, None, "reference to a buffered reader", &ops)
        }
    }
}

/// Every starting offset with every operation, followed by another of each kind.
fn c16_pairs(cx: &mut Ctx) -> Res {
    let all: Vec<BitOp> = [BitOp::Bit, BitOp::Unary]
        .into_iter()
        .chain((0..=8).map(BitOp::Le8))
        .chain((9..=16).map(BitOp::Gt8))
        .chain((0..=16).map(BitOp::Le16))
        .chain((0..=32).map(BitOp::Le32))
        .collect();
    let n = all.len() as u64;
    let first = all[(cx.idx % n) as usize];
    let offset = (cx.idx / n % 8) as u32;
    for &second in &all {
        let data = Arc::new(bit_data(&mut cx.rng, 14));
        let pos = Rc::new(Cell::new(0));
        let src = Shared { data: data.clone(), pos: pos.clone() };
        let third = rand_bitop(&mut cx.rng, 0);
        let ops = [BitOp::Le8(offset), first, second, third, BitOp::Le32(32)];
        bits_run(cx, src, &data, Some(&pos), "byte source", &ops)?;
        cx.stats.distinct.insert(hash_bytes(&data) ^ cx.idx);
    }
    cx.hit("pair_grid", cx.idx % (n * 8));
    Ok(())
}

/// Long unary runs at every offset.
fn c16_unary(cx: &mut Ctx) -> Res {
    let zeros = match cx.rng.below(3) {
        0 => cx.rng.range(0, 70),
        1 if cx.idx % 3000 == 0 => (1 << 24) + cx.rng.range(0, 2) - 1,
        1 => cx.rng.log_size(100_000),
        _ => *cx.rng.pick(&[255, 256, 257, 65535, 65536, 65537, 1 << 20]),
    };
    let offset = cx.rng.below(8) as u32;
    let mut w = crate::bits::BitWriter::new();
    w.put(cx.rng.u64(), offset);
    w.unary(zeros);
    let tail = cx.rng.range(0, 20) as u32;
    w.put(cx.rng.u64(), tail);
    let data = Arc::new(w.bytes.clone());
    let pos = Rc::new(Cell::new(0));
    let src = Shared { data: data.clone(), pos: pos.clone() };
    let ops = [BitOp::Le8(offset), BitOp::Unary, BitOp::Le16(tail.min(16)), BitOp::Unary];
    cx.stats.distinct.insert(hash_bytes(&data));
    cx.hit("unary_zeros_log2", 64 - zeros.leading_zeros() as u64);
    bits_run(cx, src, &data, Some(&pos), "byte source", &ops)
}

/// Sign extension, alone.
fn c16_sign(cx: &mut Ctx) -> Res {
    let bits = 1 + (cx.idx % 32) as u32;
    let mask = if bits == 32 { u32::MAX } else { (1u32 << bits) - 1 };
    let half = 1u64 << (bits - 1);
    for k in 0..64u32 {
        let x = match k {
            0 => 0,
            1 => mask,
            2 => half as u32,
            3 => (half - 1) as u32,
            4 => 1,
            5 => (half | 1) as u32 & mask,
            _ => cx.rng.u32() & mask,
        };
        let want = if x as u64 >= half { x as i64 - 2 * half as i64 } else { x as i64 };
        let got = guard("sign extension", || claxon::subframe::extend_sign_u32(x, bits))?;
        ensure!(got as i64 == want, "{:#x} as a {}-bit number is {} instead of {}", x, bits, got, want);
        cx.eval(((bits as u64) << 32) | x as u64);
    }
    cx.hit("sign_bits", bits as u64);
    Ok(())
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "cases are byte sequences with sequences of bit-level reads, random and enumerated (every bit offset x every operation and width x every following operation), over an unbuffered source whose position is watched, a cursor and buffered readers; each read is compared with the bits of the sequence taken one by one; one evaluation per read; distinct by bytes and operations",
        stages: vec![
            Stage { name: "random", quick: 1_000_000, thorough: 1_000_000, f: c16_random },
            Stage { name: "pairs", quick: 552 * 4, thorough: 552 * 200, f: c16_pairs },
            Stage { name: "unary", quick: 60_000, thorough: 60_000, f: c16_unary },
            Stage { name: "sign", quick: 3_200, thorough: 320_000, f: c16_sign },
            Stage { name: "far", quick: 1, thorough: 8, f: crate::p_far::c16_far },
        ],
        required: vec![("bit_offset_x_op", 500), ("ended", 1), ("sign_bits", 32)],
    }
}

// ---------------------------------------------------------------------------
// C17

fn bytes_run<R: ReadBytes>(
    cx: &mut Ctx,
    r: &mut R,
    data: &[u8],
    start: u64,
    n_ops: usize,
    big: u64,
    cursor_pos: Option<&dyn Fn(&R) -> u64>,
    what: &str,
) -> Res {
    let len = data.len() as u64;
    let mut pos = start;
    for _ in 0..n_ops {
        let mut op = rand_op(&mut cx.rng, big);
        if cx.rng.chance(1, 8) {
            // Exactly what is left, or one more or less.
            let left = len.saturating_sub(pos);
            let n = (left as i64 + cx.rng.irange(-1, 1)).max(0) as u64;
            op = if cx.rng.chance(1, 2) { Op::Into(n as usize) } else { Op::Skip(n as u32) };
        }
        if cx.rng.chance(1, 200) {
            op = Op::Skip(*cx.rng.pick(&[u32::MAX, u32::MAX - 1, 1 << 31]));
        }
        let rest: &[u8] = if pos < len { &data[pos as usize..] } else { &[] };
        let want = model_op(rest, op);
        if op_len(op) == 0 && pos > len {
            cx.hit("nothing_beyond_end", op_kind(op));
        }
        let got = guard(what, || apply(r, op)).map_err(|Bad(m)| Bad(format!("{} ({:?} at {} of {})", m, op, pos, len)))?;
        cx.stats.evals += 1;
        cx.hit(what_key(what), op_kind(op));
        match (got, want) {
            (Ok(v), Some(w)) => {
                ensure!(v == w, "{}: {:?} at byte {} of {} gave {:?} instead of {:?}", what, op, pos, len, v, w);
                if v != Val::End {
                    pos += op_len(op);
                }
                if let Some(f) = cursor_pos {
                    ensure!(f(r) == pos, "{}: {:?} left the cursor at {} instead of {}", what, op, f(r), pos);
                }
            }
            (Ok(v), None) => bad!("{}: {:?} at byte {} of {} gave {:?} instead of the end", what, op, pos, len, v),
            (Err(e), None) => {
                ensure!(e.kind() == io::ErrorKind::UnexpectedEof, "{}: {:?} at byte {} of {} gave {:?}", what, op, pos, len, e);
                cx.hit("eof_errors", op_kind(op));
                // What is left after a failed read: all, or nothing.
                match cursor_pos {
                    Some(f) => {
                        let now = f(r);
                        ensure!(now == pos || now == len.max(pos), "{}: failed {:?} moved the cursor from {} to {}", what, op, pos, now);
                        pos = now;
                    }
                    None => {
                        let b = guard(what, || r.read_u8_or_eof())?;
                        match b {
                            Ok(None) => pos = len,
                            Ok(Some(b)) => {
                                ensure!(pos < len && b == data[pos as usize], "{}: after a failed {:?} came a byte from elsewhere", what, op);
                                pos += 1;
                            }
                            Err(e) => bad!("{}: optional read failed: {:?}", what, e),
                        }
                    }
                }
            }
            (Err(e), Some(w)) => bad!("{}: {:?} at byte {} of {} failed with {:?} instead of {:?}", what, op, pos, len, e, w),
        }
    }
    Ok(())
}

fn op_kind(op: Op) -> u64 {
    match op {
        Op::U8 => 0,
        Op::U8Eof => 1,
        Op::U16 => 2,
        Op::U16Eof => 3,
        Op::U24 => 4,
        Op::U32 => 5,
        Op::Le32 => 6,
        Op::Into(_) => 7,
        Op::Skip(_) => 8,
    }
}

fn what_key(w: &str) -> &'static str {
    if w.starts_with("buffered") {
        "ops_buffered"
    } else if w.starts_with("cursor") {
        "ops_cursor"
    } else {
        "ops_other"
    }
}

fn c17_run(cx: &mut Ctx) -> Res {
    let max = if cx.rng.chance(1, 6) { 9000 } else { 40 };
    let n = cx.rng.log_size(max) as usize;
    let data = cx.rng.bytes(n);
    let ops = cx.rng.usize(3, 40);
    let big = *cx.rng.pick(&[3u64, 12, 60, 3000, 9000]);
    cx.stats.distinct.insert(hash_bytes(&data) ^ cx.idx);
    match cx.rng.below(9) {
        0..=2 => {
            let sched = Sched::random(&mut cx.rng);
            let mut r = BufferedReader::new(Src::of(&data, sched));
            bytes_run(cx, &mut r, &data, 0, ops, big, None, "buffered reader")
        }
        3 => {
            let sched = Sched::random(&mut cx.rng);
            let mut b = BufferedReader::new(Src::of(&data, sched));
            let mut r = &mut b;
            bytes_run(cx, &mut r, &data, 0, ops, big, None, "reference to a buffered reader")
        }
        4 => {
            let mut c = Cursor::new(data.clone());
            bytes_run(cx, &mut c, &data, 0, ops, big, Some(&|c: &Cursor<Vec<u8>>| c.position()), "cursor over a vector")
        }
        5 => {
            let start = match cx.rng.below(3) {
                0 => cx.rng.log_size(n as u64 + 4),
                1 => n as u64 + cx.rng.range(0, 3),
                _ => *cx.rng.pick(&[u64::MAX, u64::MAX - 1, u64::MAX - 3, u64::MAX - 40, 1 << 63, 1 << 32, (1 << 32) - 1]),
            };
            let mut c = Cursor::new(&data[..]);
            c.set_position(start);
            cx.hit("cursor_start_beyond_end", (start > n as u64) as u64);
            bytes_run(cx, &mut c, &data, start, ops, big, Some(&|c: &Cursor<&[u8]>| c.position()), "cursor placed anywhere")
        }
        6 => {
            let mut c = Cursor::new(data.clone().into_boxed_slice());
            let mut r = &mut c;
            bytes_run(cx, &mut r, &data, 0, ops, big, Some(&|c: &&mut Cursor<Box<[u8]>>| c.position()), "reference to a cursor")
        }
        7 => {
            let mut r = BufferedReader::new(&data[..]);
            bytes_run(cx, &mut r, &data, 0, ops, big, None, "buffered reader over a slice")
        }
        _ => {
            let mut r = Shared { data: Arc::new(data.clone()), pos: Rc::new(Cell::new(0)) };
            bytes_run(cx, &mut r, &data, 0, ops, big, Some(&|s: &Shared| s.pos.get() as u64), "user-written reader")
        }
    }
}

/// Long sequences and long operations.
fn c17_long(cx: &mut Ctx) -> Res {
    let n = match cx.rng.below(16) {
        0 => (1 << 24) + cx.rng.usize(0, 40),
        _ => cx.rng.usize(60_000, 400_000),
    };
    // Cheap, but every byte depends on where it is.
    let a = cx.rng.u64() | 1;
    let data: Vec<u8> = (0..n as u64).map(|i| (i.wrapping_mul(a) >> 23) as u8).collect();
    let ops = cx.rng.usize(3, 14);
    let big = (n as u64 * 5 / 4).max(70_000);
    cx.stats.distinct.insert(a);
    cx.hit("long_log2", 64 - n.leading_zeros() as u64);
    match cx.rng.below(5) {
        0 | 1 => {
            let k = cx.rng.usize(1, 9000);
            let mut r = BufferedReader::new(Src::of(&data, Sched::Fixed(k)));
            bytes_run(cx, &mut &mut r, &data, 0, ops, big, None, "buffered reader, long")
        }
        2 => {
            let mut r = BufferedReader::new(&data[..]);
            bytes_run(cx, &mut r, &data, 0, ops, big, None, "buffered reader over a long slice")
        }
        3 => {
            let mut c = Cursor::new(&data[..]);
            bytes_run(cx, &mut c, &data, 0, ops, big, Some(&|c: &Cursor<&[u8]>| c.position()), "cursor over a long slice")
        }
        _ => {
            let mut c = Cursor::new(&data[..]);
            let mut r = &mut c;
            bytes_run(cx, &mut r, &data, 0, ops, big, Some(&|c: &&mut Cursor<&[u8]>| c.position()), "reference to a cursor over a long slice")
        }
    }
}

/// Every operation with every number of bytes left from zero to five.
fn c17_short(cx: &mut Ctx) -> Res {
    let ops = [Op::U8, Op::U8Eof, Op::U16, Op::U16Eof, Op::U24, Op::U32, Op::Le32, Op::Into(0), Op::Into(1), Op::Into(3), Op::Into(5), Op::Skip(0), Op::Skip(1), Op::Skip(4), Op::Skip(5)];
    for left in 0..6usize {
        for &op in &ops {
            for before in [0usize, 1, 2046, 2047, 2048] {
                let data = cx.rng.bytes(before + left);
                let rest = &data[before..];
                let want = model_op(rest, op);
                for how in 0..4 {
                    let sched = Sched::random(&mut cx.rng);
                    let got = guard("short read", || match how {
                        0 => {
                            let mut r = BufferedReader::new(Src::of(&data, sched));
                            r.skip(before as u32)?;
                            apply(&mut r, op)
                        }
                        1 => {
                            let mut r = Cursor::new(&data[..]);
                            r.skip(before as u32)?;
                            apply(&mut r, op)
                        }
                        2 => {
                            let mut r = Shared { data: Arc::new(data.clone()), pos: Rc::new(Cell::new(before)) };
                            apply(&mut &mut r, op)
                        }
                        _ => {
                            let mut r = BufferedReader::new(&data[..]);
                            let mut v = vec![0; before];
                            r.read_into(&mut v)?;
                            apply(&mut &mut r, op)
                        }
                    })?;
                    cx.stats.evals += 1;
                    cx.hit("short_grid", (left * 16) as u64 + op_kind(op));
                    match (got, want.clone()) {
                        (Ok(v), Some(w)) => ensure!(v == w, "{:?} with {} bytes left after {}: {:?} instead of {:?} (reader {})", op, left, before, v, w, how),
                        (Err(e), None) => ensure!(e.kind() == io::ErrorKind::UnexpectedEof, "{:?} with {} bytes left: {:?}", op, left, e),
                        (g, w) => bad!("{:?} with {} bytes left after {}: {:?} instead of {:?} (reader {})", op, left, before, g, w, how),
                    }
                }
                cx.stats.distinct.insert(hash_bytes(&data));
            }
        }
    }
    Ok(())
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "cases are byte sequences with sequences of byte-level operations, random and enumerated (every operation x 0 to 5 bytes left x around the internal buffer size), over buffered readers with random delivery, cursors at arbitrary positions, references to them and a user-written reader using the default methods; each result is compared with the bytes of the sequence; one evaluation per operation; distinct by bytes and case",
        stages: vec![
            Stage { name: "run", quick: 6_000_000, thorough: 6_000_000, f: c17_run },
            Stage { name: "short", quick: 240, thorough: 1_000, f: c17_short },
            Stage { name: "long", quick: 3_000, thorough: 3_000, f: c17_long },
            Stage { name: "far", quick: 1, thorough: 8, f: crate::p_far::c17_far },
        ],
        required: vec![("ops_buffered", 9), ("ops_cursor", 9), ("ops_other", 9), ("eof_errors", 8), ("short_grid", 50), ("nothing_beyond_end", 2), ("long_log2", 3)],
    }
}
