//! C09 stream info, C10 tags, C11 metadata framing, C12 reader options.

use crate::core::*;
use crate::drive::*;
use crate::gen::*;
use crate::rng::{hash_bytes, Rng};
use crate::src::*;
use crate::{bad, ensure};
use claxon::input::{BufferedReader, ReadBytes};
use claxon::metadata::{
    read_metadata_block, read_metadata_block_with_header, GetTag, MetadataBlock, MetadataBlockReader,
    StreamInfo, Tags as TagIter, VorbisComment,
};
use claxon::{Error, FlacReader, FlacReaderOptions};
use std::io::Cursor;
use std::sync::Arc;

// ---------------------------------------------------------------------------
// C09

#[derive(PartialEq, Debug)]
enum InfoWant {
    Report(Info),
    Refuse,
    /// Bit depths below 4 are outside the format: exact or refused.
    Either(Info),
}

fn field(b: &[u8], bit: usize, n: usize) -> u64 {
    let mut v = 0;
    for i in bit..bit + n {
        v = v << 1 | ((b[i / 8] >> (7 - i % 8)) & 1) as u64;
    }
    v
}

/// Reads the 34 bytes by field position.
fn judge_info(b: &[u8]) -> InfoWant {
    let mut md5 = [0; 16];
    md5.copy_from_slice(&b[18..34]);
    let i = Info {
        min_bs: field(b, 0, 16) as u16,
        max_bs: field(b, 16, 16) as u16,
        min_fs: field(b, 32, 24) as u32,
        max_fs: field(b, 56, 24) as u32,
        rate: field(b, 80, 20) as u32,
        channels: field(b, 100, 3) as u32 + 1,
        bps: field(b, 103, 5) as u32 + 1,
        samples: field(b, 108, 36),
        md5,
    };
    let ok = i.min_bs >= 16
        && i.min_bs <= i.max_bs
        && (i.max_fs == 0 || i.min_fs <= i.max_fs)
        && i.rate >= 1
        && i.rate <= 655_350;
    if !ok {
        InfoWant::Refuse
    } else if i.bps < 4 {
        InfoWant::Either(i)
    } else {
        InfoWant::Report(i)
    }
}

fn only_info(b: MetadataBlock) -> Result<StreamInfo, E> {
    match b {
        MetadataBlock::StreamInfo(i) => Ok(i),
        _ => Err(E::Unsupported("not a stream info block")),
    }
}

/// Reads the block through every entry point.
fn info_everywhere(cx: &mut Ctx, body: &[u8], length: u32) -> Result<Vec<(&'static str, Result<StreamInfo, E>)>, Bad> {
    let mut out = Vec::new();
    let last = cx.rng.chance(1, 2);
    let mut with_header = vec![if last { 0x80 } else { 0 }];
    with_header.extend_from_slice(&length.to_be_bytes()[1..]);
    with_header.extend_from_slice(body);
    let tail = cx.rng.usize(0, 20);
    let junk = cx.rng.bytes(tail);
    let mut raw = body.to_vec();
    raw.extend_from_slice(&junk);
    with_header.extend_from_slice(&junk);
    let sched = Sched::random(&mut cx.rng);
    let sched2 = Sched::random(&mut cx.rng);

    out.push((
        "read_metadata_block(cursor)",
        guard("read_metadata_block", || {
            let mut c = Cursor::new(&raw[..]);
            let r = read_metadata_block(&mut c, 0, length).map_err(|e| err(&e)).and_then(only_info);
            (r, c.position())
        })
        .and_then(|(r, p)| {
            ensure!(r.is_err() || p == 34, "stream info block took {} bytes", p);
            Ok(r)
        })?,
    ));
    out.push((
        "read_metadata_block_with_header(unbuffered)",
        guard("read_metadata_block_with_header", || {
            let mut c = ByteSrc::of(&with_header);
            let r = read_metadata_block_with_header(&mut c).map_err(|e| err(&e)).and_then(only_info);
            (r, c.pos)
        })
        .and_then(|(r, p)| {
            ensure!(r.is_err() || p == 38, "stream info block with header took {} bytes", p);
            Ok(r)
        })?,
    ));
    out.push((
        "MetadataBlockReader(buffered)",
        guard("MetadataBlockReader", || {
            let mut it = MetadataBlockReader::new(BufferedReader::new(Src::of(&with_header, sched)));
            match it.next() {
                Some(r) => r.map_err(|e| err(&e)).and_then(only_info),
                None => Err(E::Unsupported("no block at all")),
            }
        })?,
    ));
    let mut stream = b"fLaC".to_vec();
    stream.push(0x80);
    stream.extend_from_slice(&length.to_be_bytes()[1..]);
    stream.extend_from_slice(body);
    stream.extend_from_slice(&junk);
    out.push((
        "FlacReader::new",
        guard("FlacReader::new", || {
            FlacReader::new(Src::of(&stream, sched2)).map(|r| r.streaminfo()).map_err(|e| err(&e))
        })?,
    ));
    let read_vorbis_comment = cx.rng.chance(1, 2);
    let opts = FlacReaderOptions { metadata_only: true, read_vorbis_comment };
    out.push((
        "FlacReader::new_ext(metadata only)",
        guard("FlacReader::new_ext", || {
            FlacReader::new_ext(&stream[..], opts).map(|r| r.streaminfo()).map_err(|e| err(&e))
        })?,
    ));
    Ok(out)
}

fn check_info(cx: &mut Ctx, body: &[u8]) -> Res {
    let want = judge_info(body);
    cx.hit("wanted", match want {
        InfoWant::Report(_) => 0,
        InfoWant::Refuse => 1,
        InfoWant::Either(_) => 2,
    });
    for (how, got) in info_everywhere(cx, body, 34)? {
        match (&want, &got) {
            (InfoWant::Report(i), Ok(g)) | (InfoWant::Either(i), Ok(g)) => {
                let e = i.expect();
                ensure!(*g == e, "{}: reported {:?} instead of {:?}", how, g, e)
            }
            (InfoWant::Refuse, Err(e)) | (InfoWant::Either(_), Err(e)) if e.is_format() => {}
            (w, g) => bad!("{}: wanted {:?}, got {:?} for {}", how, w, g, hex(body)),
        }
    }
    cx.sample(|| format!("{} -> {:?}", hex(body), want));
    if body.iter().all(|&b| b == 0) {
        cx.eval_trivial()
    } else {
        cx.eval_bytes(body)
    }
    Ok(())
}

fn c09_valid(cx: &mut Ctx) -> Res {
    let i = Info::random(&mut cx.rng);
    cx.hit("channels", i.channels as u64);
    cx.hit("bps", i.bps as u64);
    cx.hit("absent_fields", (i.min_fs == 0) as u64 | ((i.max_fs == 0) as u64) << 1 | ((i.samples == 0) as u64) << 2);
    let b = i.bytes();
    check_info(cx, &b)
}

/// Fields around every boundary, in combination.
fn c09_boundary(cx: &mut Ctx) -> Res {
    let mut i = Info::random(&mut cx.rng);
    let r = &mut cx.rng;
    let bs = [0u16, 1, 14, 15, 16, 17, 255, 256, 0x0fff, 0x1000, 0xfffe, 0xffff];
    let fs = [0u32, 1, 2, 255, 256, 0xffff, 0x1_0000, 0xff_fffe, 0xff_ffff];
    for _ in 0..r.usize(1, 3) {
        match r.below(4) {
            0 => {
                i.min_bs = *r.pick(&bs);
                i.max_bs = *r.pick(&bs);
                if r.chance(1, 3) {
                    i.max_bs = (i.min_bs as i64 + r.irange(-1, 1)).max(0).min(65535) as u16;
                }
            }
            1 => {
                i.min_fs = *r.pick(&fs);
                i.max_fs = *r.pick(&fs);
                if r.chance(1, 3) {
                    i.max_fs = (i.min_fs as i64 + r.irange(-1, 1)).max(0).min(0xff_ffff) as u32;
                }
            }
            2 => i.rate = *r.pick(&[0, 1, 2, 15, 16, 0xffff, 0x1_0000, 655_349, 655_350, 655_351, 0xf_ffff, 0x8_0000]),
            _ => i.samples = *r.pick(&[0, 1, 0xf_ffff_ffff, 0xffff_ffff, 0x1_0000_0000, 0x8_0000_0000]),
        }
    }
    let b = i.bytes();
    check_info(cx, &b)
}

/// Single-bit patterns and arbitrary bytes.
fn c09_bits(cx: &mut Ctx) -> Res {
    let mut b = match cx.rng.below(3) {
        0 => Info::random(&mut cx.rng).bytes(),
        1 => cx.rng.bytes(34),
        _ => {
            let mut i = Info::random(&mut cx.rng);
            i.min_bs = 16;
            i.max_bs = 65535;
            i.min_fs = 0;
            i.bytes()
        }
    };
    let bit = (cx.idx % 272) as usize;
    b[bit / 8] ^= 0x80 >> (bit % 8);
    cx.hit("flipped_bit", bit as u64);
    check_info(cx, &b)
}

fn c09_length(cx: &mut Ctx) -> Res {
    let length = match cx.rng.below(4) {
        0 => cx.rng.range(0, 33) as u32,
        1 => cx.rng.range(35, 70) as u32,
        2 => *cx.rng.pick(&[0u32, 1, 33, 35, 34 + 256, 34 + 65536, 34 + 512, 0x2200]),
        _ => cx.rng.range(35, 70_000) as u32,
    };
    let mut body = Info::random(&mut cx.rng).bytes();
    body.resize(length.max(34) as usize, 0);
    body.extend_from_slice(&[0; 40]);
    for (how, got) in info_everywhere(cx, &body, length)? {
        match got {
            Err(e) if e.is_format() => {}
            g => bad!("{}: stream info block of length {} gave {:?}", how, length, g),
        }
    }
    cx.hit("length_near_34", if length < 70 { length as u64 } else { 70 });
    cx.eval_bytes(&body);
    Ok(())
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "cases are stream info blocks: random valid ones, ones with fields on and around every boundary, single flipped bits and random bytes, wrong lengths; each is read through five entry points and compared with fields picked from the bytes by bit position; trivial: all bytes zero; distinct by bytes",
        stages: vec![
            Stage { name: "valid", quick: 1_200_000, thorough: 4_000_000, f: c09_valid },
            Stage { name: "boundary", quick: 2_000_000, thorough: 8_000_000, f: c09_boundary },
            Stage { name: "bits", quick: 1_088_000, thorough: 4_000_000, f: c09_bits },
            Stage { name: "length", quick: 100_000, thorough: 300_000, f: c09_length },
        ],
        required: vec![("wanted", 3), ("channels", 8), ("bps", 32), ("absent_fields", 8), ("flipped_bit", 272), ("length_near_34", 60)],
    }
}

// ---------------------------------------------------------------------------
// C10

/// Parses a tag block. `None` means malformed.
fn model_tags(b: &[u8]) -> Option<Tags> {
    fn le(b: &[u8], p: &mut usize) -> Option<u64> {
        let s = b.get(*p..*p + 4)?;
        *p += 4;
        Some(s[0] as u64 | (s[1] as u64) << 8 | (s[2] as u64) << 16 | (s[3] as u64) << 24)
    }
    fn text(b: &[u8], p: &mut usize) -> Option<Vec<u8>> {
        let n = le(b, p)? as usize;
        let s = b.get(*p..p.checked_add(n)?)?;
        *p += n;
        Some(s.to_vec())
    }
    let mut p = 0;
    let vendor = String::from_utf8(text(b, &mut p)?).ok()?;
    let n = le(b, &mut p)?;
    let mut pairs = Vec::new();
    for _ in 0..n {
        let e = text(b, &mut p)?;
        if e.is_empty() {
            continue;
        }
        let at = e.iter().position(|&x| x == b'=')?;
        if e[..at].iter().any(|&x| x < 0x20 || x > 0x7d) {
            return None;
        }
        let name = String::from_utf8(e[..at].to_vec()).ok()?;
        let value = String::from_utf8(e[at + 1..].to_vec()).ok()?;
        pairs.push((name, value));
    }
    if p != b.len() {
        return None;
    }
    Some(Tags { vendor, pairs })
}

fn lower(s: &str) -> Vec<u8> {
    s.bytes().map(|b| if b >= b'A' && b <= b'Z' { b + 32 } else { b }).collect()
}

fn needles(rng: &mut Rng, t: &Tags) -> Vec<String> {
    let mut v: Vec<String> = vec![
        "".into(),
        "=".into(),
        "ARTIST".into(),
        "artist=".into(),
        "\u{17f}".into(),
        "TI\u{17f}T".into(),
        "\u{212a}".into(),
        "\u{130}".into(),
        "é".into(),
        "TITLE\0".into(),
    ];
    for _ in 0..4 {
        if t.pairs.is_empty() {
            break;
        }
        let (n, val) = rng.pick(&t.pairs).clone();
        match rng.below(13) {
            9 => v.push(format!(" {}", n)),
            10 => v.push(format!("{} ", n)),
            11 => v.push(format!("{}{}", n, rng.pick(&["\0", "\n", "s", "\u{feff}", "*", ":"]))),
            12 => v.push(n.trim().to_string()),
            0 => v.push(n),
            1 => v.push(n.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()),
            2 => v.push(n.to_ascii_uppercase()),
            3 => v.push(n.to_ascii_lowercase()),
            4 => v.push(format!("{}=", n)),
            5 => v.push(format!("{}={}", n, val)),
            6 => {
                // One bit away: the ASCII case trick applied to a non-letter.
                let mut b = n.into_bytes();
                if !b.is_empty() {
                    let i = rng.usize(0, b.len() - 1);
                    b[i] ^= 0x20;
                }
                if let Ok(s) = String::from_utf8(b) {
                    v.push(s)
                }
            }
            7 => {
                let mut n = n;
                n.pop();
                v.push(n)
            }
            _ => v.push(n.replace('k', "\u{212a}").replace('s', "\u{17f}").replace('K', "\u{212a}")),
        }
    }
    v
}

fn check_iter<'a>(mut it: TagIter<'a>, want: &[(String, String)], what: &str) -> Res {
    for i in 0..=want.len() {
        ensure!(it.len() == want.len() - i, "{}: announced length {} with {} tags left", what, it.len(), want.len() - i);
        ensure!(it.size_hint() == (want.len() - i, Some(want.len() - i)), "{}: size hint {:?} with {} tags left", what, it.size_hint(), want.len() - i);
        match it.next() {
            None => ensure!(i == want.len(), "{}: ended after {} of {} tags", what, i, want.len()),
            Some((n, v)) => {
                ensure!(i < want.len(), "{}: extra tag {:?}", what, (n, v));
                ensure!(n == want[i].0 && v == want[i].1, "{}: tag {} is {:?} instead of {:?}", what, i, (n, v), want[i]);
            }
        }
    }
    ensure!(it.next().is_none(), "{}: yields again after the end", what);
    Ok(())
}

fn check_get<'a>(it: GetTag<'a>, needle: &str, t: &Tags, what: &str) -> Result<usize, Bad> {
    let got: Vec<&str> = it.take(t.pairs.len() + 3).collect();
    let want: Vec<&str> =
        t.pairs.iter().filter(|p| lower(&p.0) == lower(needle)).map(|p| &p.1[..]).collect();
    ensure!(got == want, "{}: lookup of {:?} gave {:?} instead of {:?} among {:?}", what, needle, got, want, t.pairs);
    Ok(want.len())
}

fn check_vc(cx: &mut Ctx, vc: &VorbisComment, t: &Tags, what: &str) -> Res {
    ensure!(vc.vendor == t.vendor, "{}: vendor {:?} instead of {:?}", what, vc.vendor, t.vendor);
    ensure!(vc.comments.len() == t.pairs.len(), "{}: {} comments instead of {}", what, vc.comments.len(), t.pairs.len());
    for (i, ((text, sep), (n, v))) in vc.comments.iter().zip(&t.pairs).enumerate() {
        ensure!(*text == format!("{}={}", n, v) && *sep == n.len(), "{}: comment {} is {:?} split at {} instead of {:?}", what, i, text, sep, (n, v));
    }
    guard(what, || check_iter(TagIter::new(&vc.comments), &t.pairs, what))??;
    let is = |x: &(&str, &str), w: &(String, String)| x.0 == w.0 && x.1 == w.1;
    exercise(&mut cx.rng, TagIter::new(&vc.comments), &t.pairs, is, "tags")?;
    if !t.pairs.is_empty() {
        let n = &cx.rng.pick(&t.pairs).0.to_ascii_uppercase();
        let want: Vec<&str> = t.pairs.iter().filter(|p| lower(&p.0) == lower(n)).map(|p| &p.1[..]).collect();
        exercise(&mut cx.rng, GetTag::new(&vc.comments, n), &want, |x, w| x == w, "lookup")?;
    }
    for n in needles(&mut cx.rng, t) {
        let k = guard(what, || check_get(GetTag::new(&vc.comments, &n), &n, t, what))??;
        cx.hit("lookup_matches", k.min(3) as u64);
    }
    Ok(())
}

fn stream_with_tags(cx: &mut Ctx, body: &[u8], claimed: Option<u32>) -> Vec<u8> {
    let mut s = b"fLaC".to_vec();
    s.extend(block_bytes(0, false, &Info::random(&mut cx.rng).bytes()));
    if cx.rng.chance(1, 3) {
        let n = cx.rng.usize(0, 30);
        s.extend(block_bytes(1, false, &vec![0; n]));
    }
    let mut b = block_bytes(4, true, body);
    if let Some(c) = claimed {
        b[1..4].copy_from_slice(&c.to_be_bytes()[1..]);
    }
    s.extend(b);
    s
}

/// Reads a tag block body every way there is and judges it.
fn judge_tags(cx: &mut Ctx, body: &[u8], what: &str) -> Res {
    let want = model_tags(body);
    cx.hit("wanted", want.is_some() as u64);
    let tail = cx.rng.usize(0, 24);
    let mut data = body.to_vec();
    data.extend(cx.rng.bytes(tail));
    let mut src = ByteSrc::of(&data);
    let got = guard(what, || read_metadata_block(&mut src, 4, body.len() as u32).map_err(|e| err(&e)))?;
    ensure!(src.pos <= body.len(), "{}: read {} bytes of a tag block of {}", what, src.pos, body.len());
    match (&want, got) {
        (Some(t), Ok(MetadataBlock::VorbisComment(vc))) => {
            ensure!(src.pos == body.len(), "{}: took {} bytes of a tag block of {}", what, src.pos, body.len());
            check_vc(cx, &vc, t, what)?;
        }
        (None, Err(e)) if e.is_format() => {}
        (Some(_), Err(e)) => bad!("{}: well-formed tag block refused: {:?}: {}", what, e, hex(body)),
        (None, Err(e)) => bad!("{}: malformed tag block gave {:?} rather than a format error: {}", what, e, hex(body)),
        (None, Ok(_)) => bad!("{}: malformed tag block accepted: {}", what, hex(body)),
        (Some(_), Ok(_)) => bad!("{}: tag block read as something else", what),
    }
    // As part of a stream.
    let s = stream_with_tags(cx, body, None);
    let sched = Sched::random(&mut cx.rng);
    let r = guard(what, || {
        if cx.idx % 2 == 0 {
            FlacReader::new(Src::of(&s, sched))
        } else {
            FlacReader::new_ext(Src::of(&s, sched), FlacReaderOptions { metadata_only: true, read_vorbis_comment: true })
        }
    })?;
    match (&want, r) {
        (Some(t), Ok(r)) => {
            ensure!(r.vendor() == Some(&t.vendor[..]), "{}: reader reports vendor {:?} instead of {:?}", what, r.vendor(), t.vendor);
            guard(what, || check_iter(r.tags(), &t.pairs, what))??;
            for n in needles(&mut cx.rng, t) {
                guard(what, || check_get(r.get_tag(&n), &n, t, what))??;
            }
        }
        (None, Err(e)) if err(&e).is_format() => {}
        (Some(_), Err(e)) => bad!("{}: reader refuses a well-formed tag block: {:?}: {}", what, err(&e), hex(body)),
        (None, Err(e)) => bad!("{}: reader gives {:?} for a malformed tag block: {}", what, err(&e), hex(body)),
        (None, Ok(_)) => bad!("{}: reader accepts a malformed tag block: {}", what, hex(body)),
    }
    if body.len() > 8 {
        cx.eval_bytes(body);
    } else {
        cx.eval_trivial();
    }
    cx.sample(|| format!("{} -> {:?}", hex(body), want));
    Ok(())
}

fn c10_valid(cx: &mut Ctx) -> Res {
    let max_text = *cx.rng.pick(&[4, 20, 20, 100, 3000]);
    let t = Tags::random(&mut cx.rng, 12, max_text);
    let e = if cx.rng.chance(1, 2) { 0 } else { cx.rng.usize(1, 5) };
    let body = t.bytes(&mut cx.rng, e);
    ensure!(model_tags(&body).as_ref() == Some(&t), "harness: model disagrees with generator on {}", hex(&body));
    cx.hit("pairs", t.pairs.len() as u64);
    cx.hit("empty_entries", e as u64);
    judge_tags(cx, &body, "valid tag block")
}

fn positions(body: &[u8]) -> Vec<usize> {
    // Offsets of the length fields of a well-formed body.
    let le = |p: usize| body.get(p..p + 4).map(|s| u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as usize);
    let mut v = vec![0];
    let Some(n) = le(0) else { return v };
    let mut p = 4 + n;
    v.push(p);
    let Some(c) = le(p) else { return v };
    p += 4;
    for _ in 0..c {
        v.push(p);
        match le(p) {
            Some(n) => p += 4 + n,
            None => break,
        }
    }
    v
}

fn c10_mutate(cx: &mut Ctx) -> Res {
    let max_text = *cx.rng.pick(&[3, 10, 40]);
    let max_pairs = if cx.rng.chance(1, 24) { cx.rng.usize(7, 70) } else { 6 };
    let t = Tags::random(&mut cx.rng, max_pairs, max_text);
    let e = cx.rng.usize(0, 2);
    let mut b = t.bytes(&mut cx.rng, e);
    mutate_tags(cx, &mut b);
    judge_tags(cx, &b, "mutated tag block")
}

pub fn mutate_tags(cx: &mut Ctx, b: &mut Vec<u8>) {
    for _ in 0..cx.rng.usize(1, 2) {
        let pos = positions(b);
        let r = &mut cx.rng;
        let m = r.below(12);
        match m {
            0 => {
                // A length or count off by a little.
                let p = *r.pick(&pos);
                if p + 4 <= b.len() {
                    let v = u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]);
                    let d = r.irange(-5, 5) as i32;
                    b[p..p + 4].copy_from_slice(&(v.wrapping_add(d as u32)).to_le_bytes());
                }
            }
            1 => {
                let p = *r.pick(&pos);
                if p + 4 <= b.len() {
                    let v = *r.pick(&[0u32, 1, 0xff, 0x100, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffc, 0xffff_fff8, 0x0100_0000]);
                    b[p..p + 4].copy_from_slice(&v.to_le_bytes());
                }
            }
            2 => {
                // Set to a function of the block length.
                let p = *r.pick(&pos);
                if p + 4 <= b.len() {
                    let n = b.len() as i64;
                    let v = (*r.pick(&[n, n - 8, n - 4, n / 4, n / 4 - 1, n / 4 - 2, (n - p as i64) - 4]) + r.irange(-1, 1)).max(0) as u32;
                    b[p..p + 4].copy_from_slice(&v.to_le_bytes());
                }
            }
            3 => {
                if !b.is_empty() {
                    let n = r.usize(0, b.len() - 1);
                    b.truncate(n);
                }
            }
            4 => {
                let n = r.usize(1, 9);
                let v = if r.chance(1, 2) { vec![0; n] } else { r.bytes(n) };
                b.extend(v);
            }
            5 => {
                if !b.is_empty() {
                    let i = r.usize(0, b.len() - 1);
                    b[i] = r.u8();
                }
            }
            6 => {
                // Some '=' replaced.
                let eq: Vec<usize> = (0..b.len()).filter(|&i| b[i] == b'=').collect();
                if !eq.is_empty() {
                    let i = *r.pick(&eq);
                    b[i] = *r.pick(&[b'-', 0, 0x7e, 0x7f, 0x80, b' ']);
                }
            }
            7 => {
                if b.len() > 8 {
                    let i = r.usize(4, b.len() - 1);
                    b[i] = *r.pick(&[0x1f, 0x20, 0x7d, 0x7e, 0x7f, 0x80, 0xc0, 0xff, 0xed, 0xf4, 0xf5, 0]);
                }
            }
            8 => {
                let i = r.usize(0, b.len());
                b.insert(i, r.u8());
            }
            9 => {
                if !b.is_empty() {
                    let i = r.usize(0, b.len() - 1);
                    b.remove(i);
                }
            }
            10 => {
                // An entry appended without counting it, or counted only.
                let extra = b"X=y";
                if r.chance(1, 2) {
                    b.extend_from_slice(&3u32.to_le_bytes());
                    b.extend_from_slice(extra);
                } else if pos.len() > 1 && pos[1] + 4 <= b.len() {
                    let p = pos[1];
                    let v = u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]);
                    b[p..p + 4].copy_from_slice(&v.wrapping_add(1).to_le_bytes());
                }
            }
            _ => {
                // An entry replaced by an empty one of the same length in all.
                if pos.len() > 2 {
                    let p = *r.pick(&pos[2..]);
                    if p + 4 <= b.len() {
                        b[p..p + 4].copy_from_slice(&[0; 4]);
                    }
                }
            }
        }
        cx.hit("mutation", m);
    }
}

/// Every byte value in every place of a name, value and vendor string.
fn c10_bytes(cx: &mut Ctx) -> Res {
    let v = (cx.idx % 256) as u8;
    for place in 0..8 {
        let mut name = b"NaMe".to_vec();
        let mut value = "va\u{e9}lue".as_bytes().to_vec();
        let mut vendor = b"vendor".to_vec();
        match place {
            0 => name.insert(0, v),
            1 => name.insert(2, v),
            2 => name.push(v),
            3 => value.insert(0, v),
            4 => value.insert(2, v),
            5 => value.push(v),
            6 => vendor.insert(3, v),
            _ => vendor.push(v),
        }
        let mut b = Vec::new();
        b.extend((vendor.len() as u32).to_le_bytes());
        b.extend(&vendor);
        b.extend(2u32.to_le_bytes());
        b.extend(3u32.to_le_bytes());
        b.extend(b"A=B");
        b.extend(((name.len() + 1 + value.len()) as u32).to_le_bytes());
        b.extend(&name);
        b.push(b'=');
        b.extend(&value);
        cx.hit("byte_value", v as u64);
        judge_tags(cx, &b, "tag block with a chosen byte")?;
    }
    Ok(())
}

/// Invalid and valid multi-byte sequences.
fn c10_utf8(cx: &mut Ctx) -> Res {
    let n = cx.rng.usize(1, 4);
    let seq: Vec<u8> = match cx.rng.below(3) {
        0 => cx.rng.pick(&[
            &[0xc0u8, 0x80][..], &[0xc1, 0xbf], &[0xe0, 0x80, 0x80], &[0xe0, 0x9f, 0xbf], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf],
            &[0xf0, 0x80, 0x80, 0x80], &[0xf0, 0x8f, 0xbf, 0xbf], &[0xf4, 0x90, 0x80, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xfe], &[0xff],
            &[0xc2], &[0xe1, 0x80], &[0xf1, 0x80, 0x80], &[0x80], &[0xbf], &[0xc2, 0x80], &[0xe0, 0xa0, 0x80], &[0xed, 0x9f, 0xbf], &[0xee, 0x80, 0x80],
            &[0xf0, 0x90, 0x80, 0x80], &[0xf4, 0x8f, 0xbf, 0xbf], &[0xef, 0xbf, 0xbf], &[0],
        ]).to_vec(),
        _ => (0..n).map(|_| if cx.rng.chance(1, 2) { cx.rng.range(0x80, 0xff) as u8 } else { cx.rng.u8() }).collect(),
    };
    let mut vendor = b"ven".to_vec();
    let mut entry = b"KEY=val".to_vec();
    match cx.rng.below(3) {
        0 => vendor.splice(1..1, seq.clone()).count(),
        1 => entry.splice(5..5, seq.clone()).count(),
        _ => {
            entry.extend(&seq);
            0
        }
    };
    let mut b = Vec::new();
    b.extend((vendor.len() as u32).to_le_bytes());
    b.extend(&vendor);
    b.extend(1u32.to_le_bytes());
    b.extend((entry.len() as u32).to_le_bytes());
    b.extend(&entry);
    judge_tags(cx, &b, "tag block with a chosen multi-byte sequence")
}

/// Large blocks: many entries, long entries.
fn c10_large(cx: &mut Ctx) -> Res {
    let t = match cx.rng.below(3) {
        0 => {
            let n = cx.rng.usize(500, 6000);
            Tags {
                vendor: "v".into(),
                pairs: (0..n).map(|i| (format!("N{}", i % 97), format!("{}", i))).collect(),
            }
        }
        1 => {
            let n = cx.rng.usize(60_000, 300_000);
            Tags { vendor: "long".repeat(cx.rng.usize(1, 3000)), pairs: vec![("A".into(), "x".repeat(n)), ("B".into(), "".into())] }
        }
        _ => Tags { vendor: "é".repeat(cx.rng.usize(1000, 40_000)), pairs: vec![] },
    };
    let e = cx.rng.usize(0, 3000);
    let mut body = t.bytes(&mut cx.rng, e);
    cx.hit("large", 1);
    if cx.rng.chance(1, 2) {
        if cx.rng.chance(1, 2) {
            // Only the count is off.
            let p = positions(&body)[1];
            let v = u32::from_le_bytes([body[p], body[p + 1], body[p + 2], body[p + 3]]);
            let d = cx.rng.log_size(300) as u32 + 1;
            let v = if cx.rng.chance(1, 2) { v.wrapping_add(d) } else { v.saturating_sub(d) };
            body[p..p + 4].copy_from_slice(&v.to_le_bytes());
        } else {
            mutate_tags(cx, &mut body);
        }
    }
    judge_tags(cx, &body, "large tag block")
}

/// Streams without a tag block.
fn c10_none(cx: &mut Ctx) -> Res {
    let sc = StreamCfg { max_frames: 1, max_block: 32, max_meta: 3, max_meta_len: 40, uniform: true };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let r = guard("open", || FlacReader::new(&s.bytes[..]))?;
    let r = match r {
        Ok(r) => r,
        Err(e) => bad!("valid stream refused: {:?}", err(&e)),
    };
    match &s.tags {
        None => {
            ensure!(r.vendor().is_none(), "vendor {:?} without a tag block", r.vendor());
            check_iter(r.tags(), &[], "no tag block")?;
            ensure!(r.get_tag("ARTIST").next().is_none() && r.get_tag("").next().is_none(), "lookup without a tag block finds something");
            cx.hit("no_tags", 1);
        }
        Some(t) => {
            ensure!(r.vendor() == Some(&t.vendor[..]), "vendor {:?} instead of {:?}", r.vendor(), t.vendor);
            check_iter(r.tags(), &t.pairs, "tag block among others")?;
            cx.hit("tags_among_others", 1);
        }
    }
    cx.eval_bytes(&s.bytes);
    Ok(())
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "cases are tag block bodies: random well-formed ones (Unicode text, duplicates, zero-length entries), mutated ones (lengths, counts, separators, name bytes, UTF-8), every byte value in every kind of place, large ones; each is read as a bare block and in a stream and compared with an independent parser, iterating with the announced length checked at each step and looking up matching and near-miss names; trivial: body of at most 8 bytes; distinct by bytes",
        stages: vec![
            Stage { name: "valid", quick: 240_000, thorough: 2_000_000, f: c10_valid },
            Stage { name: "mutate", quick: 1_600_000, thorough: 12_000_000, f: c10_mutate },
            Stage { name: "bytes", quick: 512, thorough: 5_120, f: c10_bytes },
            Stage { name: "utf8", quick: 600_000, thorough: 2_000_000, f: c10_utf8 },
            Stage { name: "large", quick: 900, thorough: 2_000, f: c10_large },
            Stage { name: "none", quick: 80_000, thorough: 100_000, f: c10_none },
        ],
        required: vec![("wanted", 2), ("mutation", 12), ("byte_value", 256), ("lookup_matches", 3), ("empty_entries", 5), ("large", 1), ("no_tags", 1), ("tags_among_others", 1)],
    }
}

// ---------------------------------------------------------------------------
// C11

#[derive(Clone, Debug)]
struct Blk11 {
    btype: u8,
    body: Vec<u8>,
    info: Option<Info>,
    tags: Option<Tags>,
}

fn rand_block(rng: &mut Rng, btype: u8, max: u64) -> Blk11 {
    let mut info = None;
    let mut tags = None;
    let body = match btype {
        0 => {
            let i = Info::random(rng);
            let b = i.bytes();
            info = Some(i);
            b
        }
        4 => {
            let t = Tags::random(rng, 5, (max as usize / 8).max(2));
            let e = rng.usize(0, 2);
            let b = t.bytes(rng, e);
            tags = Some(t);
            b
        }
        2 => {
            let n = 4 + rng.log_size(max) as usize;
            rng.bytes(n)
        }
        _ => {
            let n = rng.log_size(max) as usize;
            rng.bytes(n)
        }
    };
    Blk11 { btype, body, info, tags }
}

fn rand_type(rng: &mut Rng) -> u8 {
    match rng.below(4) {
        0 => rng.range(0, 126) as u8,
        1 => *rng.pick(&[7u8, 8, 9, 32, 63, 64, 100, 125, 126]),
        _ => rng.range(0, 6) as u8,
    }
}

fn check_meta(b: &Blk11, got: &MetadataBlock, what: &str) -> Res {
    let ok = match (b.btype, got) {
        (0, MetadataBlock::StreamInfo(i)) => *i == b.info.as_ref().unwrap().expect(),
        (1, MetadataBlock::Padding { length }) => *length as usize == b.body.len(),
        (2, MetadataBlock::Application { id, data }) => {
            let want = (b.body[0] as u32) << 24 | (b.body[1] as u32) << 16 | (b.body[2] as u32) << 8 | b.body[3] as u32;
            ensure!(*id == want, "{}: application id {:08x} instead of {:08x}", what, id, want);
            ensure!(data[..] == b.body[4..], "{}: application data of {} bytes differs (got {} bytes)", what, b.body.len() - 4, data.len());
            true
        }
        (4, MetadataBlock::VorbisComment(vc)) => {
            let t = b.tags.as_ref().unwrap();
            vc.vendor == t.vendor
                && vc.comments.len() == t.pairs.len()
                && vc.comments.iter().zip(&t.pairs).all(|(c, p)| c.0 == format!("{}={}", p.0, p.1) && c.1 == p.0.len())
        }
        // Not interpreted by the library today: reported as padding.
        (3, MetadataBlock::Padding { length }) | (5, MetadataBlock::Padding { length }) | (6, MetadataBlock::Padding { length }) => {
            *length as usize == b.body.len()
        }
        (3, MetadataBlock::SeekTable(_)) | (5, MetadataBlock::CueSheet) | (6, MetadataBlock::Picture) => true,
        (t, MetadataBlock::Reserved) if t >= 7 => true,
        _ => false,
    };
    ensure!(ok, "{}: block of type {} and {} bytes is not reported as what it is", what, b.btype, b.body.len());
    Ok(())
}

fn seq_bytes(blocks: &[Blk11]) -> (Vec<u8>, Vec<usize>) {
    let mut v = Vec::new();
    let mut ends = Vec::new();
    for (i, b) in blocks.iter().enumerate() {
        v.extend(block_bytes(b.btype, i + 1 == blocks.len(), &b.body));
        ends.push(v.len());
    }
    (v, ends)
}

fn c11_sequences(cx: &mut Ctx) -> Res {
    // Mostly a few blocks, now and then thousands of small ones.
    let many = cx.rng.chance(1, 500);
    let n = if many { 9 + cx.rng.log_size(5000) as usize } else { cx.rng.usize(1, 8) };
    let max = if many { 3 } else { *cx.rng.pick(&[3, 40, 40, 300, 5000]) };
    cx.hit("count_log2", 64 - (n as u64).leading_zeros() as u64);
    let blocks: Vec<Blk11> = (0..n)
        .map(|_| {
            let t = rand_type(&mut cx.rng);
            rand_block(&mut cx.rng, t, max)
        })
        .collect();
    let (mut data, ends) = seq_bytes(&blocks);
    let tail = cx.rng.usize(0, 40);
    data.extend(cx.rng.bytes(tail));
    for (i, b) in blocks.iter().enumerate() {
        cx.hit("block_type", b.btype as u64);
        if i > 0 {
            cx.hit("pair", blocks[i - 1].btype.min(7) as u64 * 8 + b.btype.min(7) as u64);
        }
        if b.body.is_empty() {
            cx.hit("empty_block_type", b.btype.min(7) as u64);
        }
    }
    // Exact consumption, block by block.
    let mut src = ByteSrc::of(&data);
    {
        let mut done = 0;
        for (i, b) in blocks.iter().enumerate() {
            let r = guard("block by block", || read_metadata_block_with_header(&mut src))?;
            match r {
                Ok(m) => check_meta(b, &m, "block by block")?,
                Err(e) => bad!("block {} of {} (type {}, {} bytes): {:?}", i, n, b.btype, b.body.len(), err(&e)),
            }
            ensure!(src.pos == ends[i], "block {} (type {}) of {} bytes: read {} bytes", i, b.btype, b.body.len() + 4, src.pos - done);
            done = src.pos;
        }
    }
    exercise(
        &mut cx.rng,
        MetadataBlockReader::new(Cursor::new(&data[..])),
        &blocks,
        |x, w| x.as_ref().map_or(false, |m| check_meta(w, m, "").is_ok()),
        "block iterator",
    )?;
    // Through the iterator.
    let mut src = ByteSrc::of(&data);
    {
        let mut it = MetadataBlockReader::new(&mut src);
        for (i, b) in blocks.iter().enumerate() {
            let (lo, hi) = it.size_hint();
            ensure!(lo <= n - i && hi.map_or(true, |h| h >= n - i), "size hint {:?} with {} blocks left", (lo, hi), n - i);
            match guard("iterator", || it.next())? {
                Some(Ok(m)) => check_meta(b, &m, "iterator")?,
                Some(Err(e)) => bad!("iterator: block {} of {} (type {}, {} bytes): {:?}", i, n, b.btype, b.body.len(), err(&e)),
                None => bad!("iterator ended before block {} of {}", i, n),
            }
        }
        for _ in 0..3 {
            ensure!(guard("iterator at the end", || it.next())?.is_none(), "iterator goes on after the last block");
            ensure!(it.size_hint().0 == 0, "size hint {:?} after the last block", it.size_hint());
        }
    }
    ensure!(src.pos == *ends.last().unwrap(), "iterator read {} bytes of {}", src.pos, ends.last().unwrap());
    // Through the buffered reader, then the bytes after it.
    let sched = Sched::random(&mut cx.rng);
    let what = format!("buffered ({:?})", sched);
    let mut br = BufferedReader::new(Src::of(&data, sched));
    {
        let mut it = MetadataBlockReader::new(&mut br);
        for (i, b) in blocks.iter().enumerate() {
            match guard(&what, || it.next())? {
                Some(Ok(m)) => check_meta(b, &m, &what)?,
                Some(Err(e)) => bad!("{}: block {} (type {}): {:?}", what, i, b.btype, err(&e)),
                None => bad!("{}: ended before block {}", what, i),
            }
        }
        ensure!(guard(&what, || it.next())?.is_none(), "{}: goes on after the last block", what);
    }
    let rest = &data[*ends.last().unwrap()..];
    let mut got = vec![0; rest.len()];
    if let Err(e) = guard(&what, || br.read_into(&mut got))? {
        bad!("{}: bytes after the metadata: {:?}", what, e);
    }
    ensure!(got == rest, "{}: bytes after the metadata differ", what);
    if blocks.len() > 1 || !blocks[0].body.is_empty() {
        cx.eval_bytes(&data)
    } else {
        cx.eval_trivial()
    }
    cx.sample(|| format!("types {:?}, lengths {:?}", blocks.iter().map(|b| b.btype).collect::<Vec<_>>(), blocks.iter().map(|b| b.body.len()).collect::<Vec<_>>()));
    Ok(())
}

/// Whole streams: audio after arbitrary metadata.
fn c11_audio(cx: &mut Ctx) -> Res {
    let max = *cx.rng.pick(&[3u64, 40, 300, 5000]);
    let mut blocks = vec![rand_block(&mut cx.rng, 0, max)];
    let mut have_tags = false;
    let many = cx.rng.chance(1, 400);
    let n = if many { cx.rng.log_size(3000) as usize } else { cx.rng.usize(0, 6) };
    for _ in 0..n {
        let mut t = rand_type(&mut cx.rng);
        if t == 0 || (t == 4 && have_tags) {
            t = 1;
        }
        have_tags |= t == 4;
        blocks.push(rand_block(&mut cx.rng, t, max));
    }
    let mut data = b"fLaC".to_vec();
    data.extend(seq_bytes(&blocks).0);
    let mut frames = Vec::new();
    for i in 0..cx.rng.usize(1, 3) {
        let bs = cx.rng.range(1, 50) as u32;
        let mut fc = FrameCfg::new(bs, 2, 16);
        fc.variable = true;
        fc.number = i as u64;
        let f = encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist);
        data.extend_from_slice(&f.bytes);
        frames.push(f);
    }
    let sched = Sched::random(&mut cx.rng);
    let what = format!("stream in pieces ({:?})", sched);
    let evs = guard(&what, || stream(Src::of(&data, sched), 1, 20, true))?;
    match &evs[0] {
        Ev::Open { info, vendor, tags } => {
            ensure!(*info == blocks[0].info.as_ref().unwrap().expect(), "{}: stream info differs", what);
            let t = blocks.iter().find_map(|b| b.tags.as_ref());
            ensure!(*vendor == t.map(|t| t.vendor.clone()), "{}: vendor differs", what);
            ensure!(*tags == t.map(|t| t.pairs.clone()).unwrap_or_default(), "{}: tags differ", what);
        }
        e => bad!("{}: {:?} for metadata types {:?}", what, e, blocks.iter().map(|b| b.btype).collect::<Vec<_>>()),
    }
    for (i, f) in frames.iter().enumerate() {
        match evs.get(i + 1) {
            Some(Ev::Block(b)) => check_block(b, f, &what)?,
            e => bad!("{}: frame {} after metadata types {:?} lengths {:?}: {:?}", what, i, blocks.iter().map(|b| b.btype).collect::<Vec<_>>(), blocks.iter().map(|b| b.body.len()).collect::<Vec<_>>(), e),
        }
    }
    ensure!(evs.get(frames.len() + 1) == Some(&Ev::Eof), "{}: no clean end", what);
    cx.hit("streams", 1);
    cx.eval_bytes(&data);
    Ok(())
}

/// A bad block somewhere in a sequence.
fn c11_errors(cx: &mut Ctx) -> Res {
    let n = cx.rng.usize(1, 5);
    let at = cx.rng.usize(0, n - 1);
    let mut blocks: Vec<Blk11> = (0..n)
        .map(|_| {
            let t = rand_type(&mut cx.rng);
            rand_block(&mut cx.rng, t, 40)
        })
        .collect();
    let kind = cx.rng.below(6);
    let plain = |btype: u8, body: Vec<u8>| Blk11 { btype, body, info: None, tags: None };
    let mut cut = None;
    match kind {
        0 => {
            let k = cx.rng.usize(0, 50);
            blocks[at] = plain(127, cx.rng.bytes(k));
        }
        1 => {
            let k = cx.rng.usize(0, 3);
            blocks[at] = plain(2, cx.rng.bytes(k));
        }
        2 => {
            let mut b = Info::random(&mut cx.rng).bytes();
            if cx.rng.chance(1, 2) {
                b.push(0);
            } else {
                b.pop();
            }
            blocks[at] = plain(0, b);
        }
        3 => {
            let k = cx.rng.usize(0, 7);
            blocks[at] = plain(4, vec![0; k]);
        }
        4 => {
            let mut b = Info::random(&mut cx.rng).bytes();
            b[0] = 0;
            b[1] = 15;
            blocks[at] = plain(0, b);
        }
        _ => {
            let before: usize = blocks[..at].iter().map(|b| b.body.len() + 4).sum();
            let len = blocks[at].body.len() + 4;
            cut = Some(before + cx.rng.usize(0, len - 1));
        }
    }
    let (mut data, _) = seq_bytes(&blocks);
    match cut {
        Some(c) => data.truncate(c),
        None => data.extend(cx.rng.bytes(60)),
    }
    let want_eof = cut.is_some();
    let mut src = ByteSrc::of(&data);
    let ops;
    {
        let mut it = MetadataBlockReader::new(&mut src);
        for (i, b) in blocks[..at].iter().enumerate() {
            match guard("iterator", || it.next())? {
                Some(Ok(m)) => check_meta(b, &m, "before a bad block")?,
                Some(Err(e)) => bad!("block {} before the bad one: {:?}", i, err(&e)),
                None => bad!("iterator ended before block {}", i),
            }
        }
        match guard("bad block", || it.next())? {
            Some(Err(e)) => {
                let e = err(&e);
                ensure!(if want_eof { e.is_eof() || e.kind_is_eof() } else { e.is_format() }, "bad block (kind {}) gave {:?}", kind, e);
            }
            Some(Ok(_)) => bad!("bad block (kind {}) accepted: {}", kind, hex(&data)),
            None => bad!("no result for a bad block (kind {})", kind),
        }
        for _ in 0..3 {
            ensure!(guard("after an error", || it.next())?.is_none(), "iterator goes on after an error (kind {})", kind);
        }
        ensure!(it.size_hint().0 == 0, "size hint {:?} after an error", it.size_hint());
        drop(it);
        ops = src.ops;
    }
    // And nothing was read after the error.
    let mut src = ByteSrc::of(&data);
    {
        let mut it = MetadataBlockReader::new(&mut src);
        for _ in 0..=at {
            let _ = guard("iterator", || it.next())?;
        }
    }
    ensure!(src.ops == ops, "iterator read on after an error (kind {})", kind);
    cx.hit("bad_block", kind);
    cx.eval_bytes(&data);
    Ok(())
}

/// What a stream must start with, and what must not be repeated.
fn c11_streams_bad(cx: &mut Ctx) -> Res {
    let kind = cx.rng.below(6);
    let mut blocks = vec![rand_block(&mut cx.rng, 0, 40)];
    for _ in 0..cx.rng.usize(0, 3) {
        let t = *cx.rng.pick(&[1u8, 2, 3, 5, 6, 7, 126]);
        blocks.push(rand_block(&mut cx.rng, t, 40));
    }
    let mut magic = b"fLaC".to_vec();
    match kind {
        0 => {
            // Another block first.
            let t = *cx.rng.pick(&[1u8, 2, 3, 4, 5, 6, 7, 99, 126]);
            let b = rand_block(&mut cx.rng, t, 40);
            if cx.rng.chance(1, 2) {
                blocks.insert(0, b);
            } else {
                blocks[0] = b;
            }
        }
        1 => {
            let at = cx.rng.usize(1, blocks.len());
            let b = if cx.rng.chance(1, 2) { blocks[0].clone() } else { rand_block(&mut cx.rng, 0, 40) };
            blocks.insert(at, b);
        }
        2 => {
            for _ in 0..2 {
                let at = cx.rng.usize(1, blocks.len());
                let b = rand_block(&mut cx.rng, 4, 40);
                blocks.insert(at, b);
            }
        }
        3 => {
            let at = cx.rng.usize(1, blocks.len());
            let mut b = rand_block(&mut cx.rng, 1, 40);
            b.btype = 127;
            blocks.insert(at, b);
        }
        4 => {
            let i = cx.rng.usize(0, 3);
            magic[i] ^= 1 << cx.rng.below(8);
        }
        _ => {
            magic = match cx.rng.below(3) {
                0 => cx.rng.bytes(4),
                1 => vec![b'I', b'D', b'3', cx.rng.u8()],
                _ => cx.rng.pick(&[b"OggS", b"flac", b"FLAC", b"RIFF", b"CaLf", b"fLaB", b"ID3\0"]).to_vec(),
            };
            if magic == b"fLaC" {
                return Ok(());
            }
        }
    }
    let mut data = magic;
    data.extend(seq_bytes(&blocks).0);
    data.extend(cx.rng.bytes(64));
    let sched = Sched::random(&mut cx.rng);
    match guard("bad stream", || FlacReader::new(Src::of(&data, sched)).map(|_| ()))? {
        Err(Error::FormatError(_)) => {}
        Err(e) => bad!("stream defect {}: {:?} instead of a format error: {}", kind, err(&e), hex(&data)),
        Ok(()) => bad!("stream defect {} accepted: {}", kind, hex(&data)),
    }
    cx.hit("stream_defect", kind);
    cx.eval_bytes(&data);
    Ok(())
}

/// A source that makes up its bytes, for blocks of the largest lengths.
pub struct Virtual {
    pub pos: u64,
    pub head: Vec<u8>,
    pub gap: u64,
    pub tail: Vec<u8>,
    pub chunk: usize,
    pub fill: u8,
}

impl std::io::Read for Virtual {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = 0;
        let h = self.head.len() as u64;
        while n < buf.len().min(self.chunk) {
            let p = self.pos;
            let b = if p < h {
                self.head[p as usize]
            } else if p < h + self.gap {
                self.fill
            } else if let Some(&b) = self.tail.get((p - h - self.gap) as usize) {
                b
            } else {
                break;
            };
            buf[n] = b;
            n += 1;
            self.pos += 1;
        }
        Ok(n)
    }
}

fn c11_huge(cx: &mut Ctx) -> Res {
    let t = *cx.rng.pick(&[1u8, 3, 5, 6, 7, 77, 126]);
    let len = match cx.rng.below(4) {
        0 => 0xff_ffff - cx.rng.below(3) as u32,
        1 => *cx.rng.pick(&[0xffffu32, 0x1_0000, 0x1_0001, 0x8000, 0x7fff, 0x80_0000, 0x7f_ffff]),
        2 => (2048 * cx.rng.range(1, 60) as i64 + cx.rng.irange(-45, 5)) as u32,
        _ => cx.rng.range(60_000, 2_000_000) as u32,
    };
    let mut head = b"fLaC".to_vec();
    let info = Info::random(&mut cx.rng);
    head.extend(block_bytes(0, false, &info.bytes()));
    head.push(t);
    head.extend_from_slice(&len.to_be_bytes()[1..]);
    let tags = Tags::random(&mut cx.rng, 3, 10);
    let mut tail = block_bytes(4, true, &tags.bytes(&mut cx.rng, 0));
    let mut fc = FrameCfg::new(33, 2, 16);
    fc.variable = true;
    let f = encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist);
    tail.extend_from_slice(&f.bytes);
    let chunk = *cx.rng.pick(&[2048usize, 4096, 1000, 2047, 1 << 20]);
    let v = Virtual { pos: 0, head, gap: len as u64, tail, chunk, fill: 0xaa };
    let evs = guard("large skipped block", || stream(v, 1, 5, false))?;
    match (&evs[0], evs.get(1), evs.get(2)) {
        (Ev::Open { vendor, tags: t2, .. }, Some(Ev::Block(b)), Some(Ev::Eof)) => {
            ensure!(vendor.as_ref() == Some(&tags.vendor) && *t2 == tags.pairs, "tags after a block of type {} and {} bytes differ", t, len);
            check_block(b, &f, "after a large block")?;
        }
        e => bad!("block of type {} and {} bytes, then tags and a frame: {:?}", t, len, e),
    }
    cx.hit("huge_block_type", t as u64);
    cx.eval(((t as u64) << 32) | len as u64);
    Ok(())
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "cases are sequences of metadata blocks of random type, order and length (zero to the 24-bit maximum), whole, followed by audio, with a bad block at a random place, or with a defect of the stream as a whole; consumption is measured on an unbuffered source after every block, and the blocks, iterator, buffered reader and stream reader are compared with what was written; trivial: a single empty block; distinct by bytes",
        stages: vec![
            Stage { name: "sequences", quick: 480_000, thorough: 3_000_000, f: c11_sequences },
            Stage { name: "audio", quick: 240_000, thorough: 1_000_000, f: c11_audio },
            Stage { name: "errors", quick: 600_000, thorough: 3_000_000, f: c11_errors },
            Stage { name: "streams_bad", quick: 600_000, thorough: 2_000_000, f: c11_streams_bad },
            Stage { name: "huge", quick: 320, thorough: 3_000, f: c11_huge },
            Stage { name: "far", quick: 1, thorough: 8, f: crate::p_far::c11_far },
        ],
        required: vec![("block_type", 127), ("pair", 64), ("count_log2", 12), ("empty_block_type", 5), ("streams", 1), ("bad_block", 6), ("stream_defect", 6), ("huge_block_type", 6)],
    }
}

// ---------------------------------------------------------------------------
// C12

const PANIC_TEXT: &str = "metadata_only must be false";

fn audio_panics<R: std::io::Read>(open: impl Fn() -> Result<FlacReader<R>, E>, what: &str) -> Res {
    for how in 0..3 {
        let mut r = match guard(what, &open)? {
            Ok(r) => r,
            Err(e) => bad!("{}: does not open again: {:?}", what, e),
        };
        let m = match how {
            0 => catch(|| drop(r.blocks())),
            1 => catch(|| drop(r.samples())),
            _ => catch(|| drop(r.into_samples())),
        };
        match m {
            Err(m) if m.contains(PANIC_TEXT) => {}
            Err(m) => bad!("{}: audio access panicked with {:?}", what, m),
            Ok(()) => bad!("{}: audio access {} on a metadata-only reader did not panic", what, how),
        }
    }
    Ok(())
}

/// Metadata-only reading: what is needed, and nothing after it.
fn c12_metadata_only(cx: &mut Ctx) -> Res {
    let sc = StreamCfg { max_frames: 2, max_block: 40, max_meta: 5, max_meta_len: *cx.rng.pick(&[10, 60, 3000]), uniform: true };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let want_tags = cx.rng.chance(1, 2);
    let opts = FlacReaderOptions { metadata_only: true, read_vorbis_comment: want_tags };
    let end_of = |i: usize| s.meta_offsets.get(i + 1).copied().unwrap_or(s.audio_start);
    let vc = s.metas.iter().position(|m| m.btype == 4);
    let needed = if !want_tags {
        end_of(0)
    } else if let Some(i) = vc {
        end_of(i)
    } else {
        s.audio_start
    };
    cx.hit("needs", if !want_tags { 0 } else if vc.is_some() { 1 } else { 2 });
    // What follows the needed part may be anything, or not be there.
    let mut data = s.bytes[..needed].to_vec();
    let follow = cx.rng.below(4);
    match follow {
        0 => data.extend_from_slice(&s.bytes[needed..]),
        1 => {}
        2 => {
            let n = cx.rng.usize(1, 100);
            data.extend(cx.rng.bytes(n))
        }
        _ => data.extend_from_slice(&[0xff; 64]),
    }
    // When all metadata was read, what follows is audio.
    cx.hit("followed_by", follow);
    let check = |r: &FlacReader<Src>, what: &str| -> Res {
        ensure!(r.streaminfo() == s.info.expect(), "{}: stream info differs", what);
        let t = if want_tags { s.tags.as_ref() } else { None };
        ensure!(r.vendor() == t.map(|t| &t.vendor[..]), "{}: vendor {:?}", what, r.vendor());
        let got: Vec<(String, String)> = r.tags().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        ensure!(got == t.map(|t| t.pairs.clone()).unwrap_or_default(), "{}: tags {:?}", what, got);
        if !want_tags {
            ensure!(r.get_tag("ARTIST").next().is_none() && r.get_tag("A").next().is_none(), "{}: lookup finds something", what);
        }
        Ok(())
    };
    let data = Arc::new(data);
    let scheds = [Sched::Fixed(1), Sched::Stops(vec![needed]), Sched::random(&mut cx.rng), Sched::All];
    for sched in scheds {
        let what = format!("{:?} with {:?}, {} bytes needed", opts, sched, needed);
        let mut src = Src::new(data.clone(), sched);
        src.tripwire = Some(needed);
        match guard(&what, || FlacReader::new_ext(src, opts))? {
            Ok(r) => {
                check(&r, &what)?;
                let src = r.into_inner();
                ensure!(src.pos >= needed, "{}: source back at {}", what, src.pos);
            }
            Err(e) => bad!("{}: {:?} (metadata types {:?}, followed by kind {})", what, err(&e), s.metas.iter().map(|m| m.btype).collect::<Vec<_>>(), follow),
        }
    }
    // An error right after what is needed.
    {
        let mut src = Src::new(data.clone(), Sched::Stops(vec![needed]));
        let mut dry = Src::new(data.clone(), Sched::Stops(vec![needed]));
        let _ = guard("dry run", || FlacReader::new_ext(&mut dry, opts).map(|_| ()))?;
        src.faults = vec![(dry.calls, Fault::Err(std::io::ErrorKind::Other, 7)), (dry.calls + 1, Fault::Err(std::io::ErrorKind::Other, 8))];
        match guard("error after the needed part", || FlacReader::new_ext(src, opts))? {
            Ok(r) => check(&r, "error after the needed part")?,
            Err(e) => bad!("an error after the needed part made opening fail: {:?}", err(&e)),
        }
    }
    audio_panics(
        || FlacReader::new_ext(&data[..], opts).map_err(|e| err(&e)),
        "metadata only",
    )?;
    // Cut before the needed end: fails.
    let cut = cx.rng.usize(0, needed - 1);
    match guard("cut", || FlacReader::new_ext(&s.bytes[..cut], opts).map(|_| ()))? {
        Err(e) if err(&e).kind_is_eof() => {}
        r => bad!("cut at {} of {} needed bytes: {:?}", cut, needed, r.map_err(|e| err(&e))),
    }
    cx.eval(hash_bytes(&data) ^ want_tags as u64);
    cx.sample(|| format!("{:?}: types {:?}, needed {} of {}", opts, s.metas.iter().map(|m| m.btype).collect::<Vec<_>>(), needed, s.bytes.len()));
    Ok(())
}

/// Full reading without tags: the contents of a tag block do not matter.
fn c12_no_tags(cx: &mut Ctx) -> Res {
    let max_block = real_sizes(&mut cx.rng, 60);
    let sc = StreamCfg { max_frames: 3, max_block, max_meta: 4, max_meta_len: 50, uniform: true };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let opts = FlacReaderOptions { metadata_only: false, read_vorbis_comment: false };
    let mut metas = s.metas.clone();
    metas.retain(|m| m.btype != 4);
    let kind = cx.rng.below(7);
    let body = match kind {
        0 => Tags::random(&mut cx.rng, 5, 20).bytes(&mut cx.rng, 1),
        1 => Vec::new(),
        2 => {
            let n = cx.rng.usize(1, 7);
            cx.rng.bytes(n)
        }
        3 => {
            let n = cx.rng.usize(8, 5000);
            cx.rng.bytes(n)
        }
        4 => vec![0xff; cx.rng.usize(8, 100)],
        5 => {
            let mut b = Tags::random(&mut cx.rng, 5, 20).bytes(&mut cx.rng, 1);
            let i = cx.rng.usize(0, b.len() - 1);
            b[i] ^= 1 << cx.rng.below(8);
            b
        }
        _ => {
            let mut b = Tags::random(&mut cx.rng, 5, 20).bytes(&mut cx.rng, 1);
            b.pop();
            b
        }
    };
    let at = cx.rng.usize(1, metas.len());
    metas.insert(at, Meta { btype: 4, body });
    let a = assemble(s.info.clone(), None, metas, s.frames.clone(), s.times.clone());
    let sched = Sched::random(&mut cx.rng);
    let what = format!("no tags wanted, tag block kind {}", kind);
    let r = guard(&what, || FlacReader::new_ext(Src::of(&a.bytes, sched), opts))?;
    check_full(cx, r, &a, None, &what)?;
    cx.hit("tag_block_kind", kind);
    cx.eval_bytes(&a.bytes);
    Ok(())
}

fn check_full<R: std::io::Read>(cx: &mut Ctx, r: Result<FlacReader<R>, Error>, s: &Stream, tags: Option<&Tags>, what: &str) -> Res {
    let mut r = match r {
        Ok(r) => r,
        Err(e) => bad!("{}: opening failed: {:?} (metadata types {:?})", what, err(&e), s.metas.iter().map(|m| m.btype).collect::<Vec<_>>()),
    };
    ensure!(r.streaminfo() == s.info.expect(), "{}: stream info differs", what);
    ensure!(r.vendor() == tags.map(|t| &t.vendor[..]), "{}: vendor {:?}", what, r.vendor());
    check_iter(r.tags(), tags.map(|t| &t.pairs[..]).unwrap_or(&[]), what)?;
    if tags.is_none() {
        for n in ["", "ARTIST", "A", "title"] {
            ensure!(r.get_tag(n).next().is_none(), "{}: lookup finds something", what);
        }
    }
    match cx.rng.below(3) {
        0 => {
            let mut evs = Vec::new();
            guard(what, || blocks(&mut r.blocks(), 1, s.frames.len() + 3, true, &mut evs))?;
            ensure!(evs.len() == s.frames.len() + 1 && evs.last() == Some(&Ev::Eof), "{}: audio ended with {:?}", what, evs.last());
            for (e, f) in evs.iter().zip(&s.frames) {
                match e {
                    Ev::Block(b) => check_block(b, f, what)?,
                    e => bad!("{}: {:?} instead of a frame", what, e),
                }
            }
        }
        k => {
            let got: Result<Vec<i32>, _> = guard(what, || if k == 1 { r.samples().collect() } else { r.into_samples().collect() })?;
            let mut want = Vec::new();
            for f in &s.frames {
                want.extend(crate::p_decode::interleave(&f.samples));
            }
            match got {
                Ok(g) => ensure!(g == want, "{}: samples differ", what),
                Err(e) => bad!("{}: {:?} while reading samples", what, err(&e)),
            }
        }
    }
    Ok(())
}

/// Full reading, tags or not, through every way of opening.
fn c12_full(cx: &mut Ctx) -> Res {
    let max_block = real_sizes(&mut cx.rng, 60);
    let sc = StreamCfg { max_frames: 3, max_block, max_meta: 5, max_meta_len: *cx.rng.pick(&[20, 200, 3000]), uniform: true };
    let s = gen_stream(&mut cx.rng, &sc, &mut cx.stats.hist);
    let d = FlacReaderOptions::default();
    ensure!(d == FlacReaderOptions { metadata_only: false, read_vorbis_comment: true }, "defaults are {:?}", d);
    let tags = s.tags.clone();
    match cx.rng.below(5) {
        0 => {
            let r = guard("new", || FlacReader::new(&s.bytes[..]))?;
            check_full(cx, r, &s, tags.as_ref(), "FlacReader::new")?;
        }
        1 => {
            let r = guard("new_ext", || FlacReader::new_ext(&s.bytes[..], d))?;
            check_full(cx, r, &s, tags.as_ref(), "FlacReader::new_ext with defaults")?;
        }
        2 => {
            let o = FlacReaderOptions { metadata_only: false, read_vorbis_comment: false };
            let r = guard("new_ext", || FlacReader::new_ext(&s.bytes[..], o))?;
            check_full(cx, r, &s, None, "FlacReader::new_ext without tags")?;
        }
        k => {
            let f = crate::p_io::TempFile::new(&s.bytes, cx.rng.u64());
            let o = FlacReaderOptions { metadata_only: k == 4, read_vorbis_comment: cx.rng.chance(1, 2) };
            let r = guard("open_ext", || FlacReader::open_ext(&f.0, o))?;
            if o.metadata_only {
                let r = match r {
                    Ok(r) => r,
                    Err(e) => bad!("open_ext: {:?}", err(&e)),
                };
                ensure!(r.streaminfo() == s.info.expect(), "open_ext: stream info differs");
                let t = if o.read_vorbis_comment { tags.as_ref() } else { None };
                ensure!(r.vendor() == t.map(|t| &t.vendor[..]), "open_ext: vendor {:?}", r.vendor());
                check_iter(r.tags(), t.map(|t| &t.pairs[..]).unwrap_or(&[]), "open_ext")?;
                audio_panics(|| FlacReader::open_ext(&f.0, o).map_err(|e| err(&e)), "open_ext metadata only")?;
            } else {
                let t = if o.read_vorbis_comment { tags.as_ref() } else { None };
                check_full(cx, r, &s, t, "open_ext")?;
            }
            cx.hit("files", 1);
        }
    }
    cx.hit("full", 1);
    cx.eval_bytes(&s.bytes);
    Ok(())
}

/// A tag block larger than the library reads, skipped when tags are unwanted.
fn c12_oversized(cx: &mut Ctx) -> Res {
    let len = 10 * 1024 * 1024 + 1 + cx.rng.below(5 << 20) as u32;
    let only = cx.rng.chance(1, 2);
    let mut head = b"fLaC".to_vec();
    let info = Info::random(&mut cx.rng);
    head.extend(block_bytes(0, false, &info.bytes()));
    head.push(4);
    head.extend_from_slice(&len.to_be_bytes()[1..]);
    let mut tail = block_bytes(1, true, &[0; 9]);
    let mut fc = FrameCfg::new(40, 2, 16);
    fc.variable = true;
    let f = encode_frame(&mut cx.rng, &fc, &mut cx.stats.hist);
    tail.extend_from_slice(&f.bytes);
    let make = || Virtual { pos: 0, head: head.clone(), gap: len as u64, tail: tail.clone(), chunk: 1 << 20, fill: 0xaa };
    let opts = FlacReaderOptions { metadata_only: only, read_vorbis_comment: false };
    match guard("oversized tag block", || FlacReader::new_ext(make(), opts))? {
        Ok(mut r) => {
            ensure!(r.streaminfo() == info.expect() && r.vendor().is_none() && r.tags().len() == 0, "oversized tag block, unwanted: wrong metadata");
            if !only {
                let mut evs = Vec::new();
                guard("audio", || blocks(&mut r.blocks(), 1, 4, false, &mut evs))?;
                match (evs.get(0), evs.get(1)) {
                    (Some(Ev::Block(b)), Some(Ev::Eof)) => check_block(b, &f, "after an oversized tag block")?,
                    e => bad!("audio after an oversized, unwanted tag block: {:?}", e),
                }
            }
        }
        Err(e) => bad!("an unwanted tag block of {} bytes made opening fail: {:?}", len, err(&e)),
    }
    match guard("oversized tag block", || FlacReader::new(make()).map(|_| ()))? {
        Err(Error::Unsupported(_)) => {}
        r => bad!("a wanted tag block of {} bytes gave {:?}", len, r.map_err(|e| err(&e))),
    }
    cx.hit("oversized", only as u64);
    cx.eval(len as u64);
    Ok(())
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "cases are streams with random metadata opened with every combination of options; with metadata only, the source panics, fails, ends or delivers garbage as soon as anything beyond the needed blocks is asked for; without tags, the tag block is replaced by malformed and oversized ones; what is reported is compared with what was written; distinct by bytes and options",
        stages: vec![
            Stage { name: "metadata_only", quick: 250_000, thorough: 800_000, f: c12_metadata_only },
            Stage { name: "no_tags", quick: 300_000, thorough: 1_000_000, f: c12_no_tags },
            Stage { name: "full", quick: 200_000, thorough: 400_000, f: c12_full },
            Stage { name: "oversized", quick: 96, thorough: 600, f: c12_oversized },
        ],
        required: vec![("needs", 3), ("followed_by", 4), ("tag_block_kind", 7), ("full", 1), ("files", 1), ("oversized", 2)],
    }
}
