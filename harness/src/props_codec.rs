//! C08-C11: varint, validity RLE and packed lengths.
use crate::ctx::*;
use crate::ensure;
use crate::model;
use crate::props_buf::null_pattern;
use meerkat::store::verif::codec::*;
use meerkat::store::verif::Bitmap;

// ---------------------------------------------------------------- C08

fn c08_one(c: &mut Ctx, v: u64, buf: &mut Vec<u8>) -> Res {
    let want = model::varint_enc(v);
    let mut out = [0xEEu8; 16];
    let n = encode_varint(v, &mut out[..10]);
    ensure!(out[..n] == want[..], "encode", "encoding {:#x} gives {:02x?}, canonical form is {:02x?}", v, &out[..n], want);
    ensure!(out[10..] == [0xEE; 6], "encode", "encoding {:#x} wrote past ten bytes", v);
    ensure!(encoded_len_varint(v) == n, "encoded-len", "predicted length of {:#x} is {}, encoded length {}", v, encoded_len_varint(v), n);
    // exact input
    match panics(|| decode_varint(&out[..n])) {
        Ok(Ok((d, k))) => ensure!(d == v && k == n, "decode", "decoding {:02x?} gives ({:#x}, {}), expected ({:#x}, {})", &out[..n], d, k, v, n),
        e => return viol("decode-refused", format!("decoding {:02x?} failed: {:?}", &out[..n], e.map(|r| r.map_err(|x| x.to_string())))),
    }
    // followed by anything
    buf.clear();
    let pre = c.rng.below(5);
    for i in 0..pre {
        buf.push(c.rng.next() as u8 ^ i as u8);
    }
    let before = buf.clone();
    buf.put_varint(v);
    ensure!(buf[..pre] == before[..], "append-prefix", "appending {:#x} changed the {} bytes before it", v, pre);
    ensure!(buf[pre..] == want[..], "append", "appending {:#x} wrote {:02x?}, canonical form is {:02x?}", v, &buf[pre..], want);
    let follow = c.rng.below(12);
    let mut x = c.rng.next();
    for _ in 0..follow {
        buf.push(match x % 3 {
            0 => 0xFF,
            1 => 0x80,
            _ => x as u8,
        });
        x = x.rotate_right(7);
    }
    match panics(|| decode_varint(&buf[pre..])) {
        Ok(Ok((d, k))) => ensure!(d == v && k == n, "decode", "decoding {:02x?} gives ({:#x}, {}), expected ({:#x}, {})", &buf[pre..], d, k, v, n),
        e => return viol("decode-refused", format!("decoding {:02x?} failed: {:?}", &buf[pre..], e.map(|r| r.map_err(|x| x.to_string())))),
    }
    c.count("values", 1);
    c.count(&format!("values_of_{}_bytes", n), 1);
    Ok(())
}

pub fn c08(c: &mut Ctx) -> Res {
    let mut buf = Vec::with_capacity(64);
    let n = if c.tiny { 12 } else { 2000 };
    c.nontrivial = true;
    if c.index < 64 {
        // exhaustive small values and the neighbourhood of every power of two
        let per = if c.tiny { 4u64 } else { 33_000 };
        for v in c.index * per..(c.index + 1) * per {
            c08_one(c, v, &mut buf)?;
        }
        let p = 1u64.checked_shl(c.index as u32).unwrap_or(0);
        for d in 0..(if c.tiny { 5 } else { 200u64 }) {
            c08_one(c, p.wrapping_add(d), &mut buf)?;
            c08_one(c, p.wrapping_sub(d), &mut buf)?;
        }
        c.note(c.index);
        c.sample = Some(format!("{}..{} and {:#x}+-200", c.index * per, (c.index + 1) * per, p));
    } else {
        let mut first = 0;
        for i in 0..n {
            let near = if i % 8 == 0 { c.rng.near(u64::MAX) } else { None };
            let v = match c.rng.below(3) {
                _ if near.is_some() => near.unwrap(),
                0 => c.rng.next() >> c.rng.below(64),
                1 => {
                    // structured seven-bit groups
                    let mut v = 0u64;
                    for g in 0..10 {
                        let x = *c.rng.pick(&[0u64, 1, 0x7f, 0x40, 0x3f]);
                        v |= x.checked_shl(7 * g).unwrap_or(0);
                    }
                    v >> c.rng.below(64)
                }
                _ => !(c.rng.next() >> c.rng.below(64)),
            };
            if i == 0 {
                first = v;
            }
            c.note(v);
            c08_one(c, v, &mut buf)?;
        }
        c.sample = Some(format!("{:#x} and {} more", first, n - 1));
    }
    // over-long input
    for _ in 0..20 {
        let mut b = vec![];
        for _ in 0..10 + c.rng.below(6) {
            b.push(0x80 | c.rng.next() as u8);
        }
        let extra = c.rng.below(4);
        b.extend(c.rng.clone().bytes(extra));
        match panics(|| decode_varint(&b)) {
            Ok(Err(_)) => c.count("overlong_refused", 1),
            r => return viol("overlong-accepted", format!("ten continuation bytes {:02x?} decoded to {:?}", b, r.map(|x| x.map_err(|e| e.to_string())))),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09 / C10

/// Bit strings built from byte runs and literals so that every encoder state is met.
fn giant_bits(c: &mut Ctx, k: u64) -> Vec<bool> {
    const BYTES: [usize; 8] = [16_384, 65_535, 65_536, 65_537, 131_072, (1 << 18) + 1, 8191, 40_000];
    let mut bytes: Vec<u8> = vec![];
    let lead = c.rng.below(4);
    bytes.extend(c.rng.bytes(lead));
    let n = BYTES[k as usize % 8] << if c.thorough { c.rng.below(7) } else { c.rng.below(4) };
    match k % 4 {
        // a long run
        0 | 2 => {
            let v = *c.rng.pick(&[0u8, 0xFF, 0x55]);
            bytes.resize(bytes.len() + n, v);
        }
        // a long literal
        1 => {
            let l = c.rng.bytes(n);
            bytes.extend(l);
        }
        // both
        _ => {
            let l = c.rng.bytes(n);
            bytes.extend(l);
            bytes.resize(bytes.len() + BYTES[(k as usize + 2) % 8], 0xFF);
            bytes.resize(bytes.len() + 70_000, 0);
            let l = c.rng.bytes(20_000);
            bytes.extend(l);
        }
    }
    let tail = c.rng.below(4);
    bytes.extend(c.rng.bytes(tail));
    let mut bits: Vec<bool> = Vec::with_capacity(bytes.len() * 8 + 8);
    for b in bytes {
        (0..8).for_each(|i| bits.push(b >> i & 1 == 1));
    }
    for _ in 0..c.rng.below(9) {
        let b = c.rng.chance(1, 2);
        bits.push(b);
    }
    c.count("large_cases", 1);
    bits
}

pub fn gen_bits(c: &mut Ctx) -> Vec<bool> {
    if let Some(k) = c.giant() {
        return giant_bits(c, k);
    }
    let mode = c.rng.below(3);
    let mut bits: Vec<bool> = vec![];
    if mode == 0 {
        let n = c.size(40_000);
        return null_pattern(&mut c.rng, n);
    }
    let segs = if c.index < 8 { c.rng.range(0, 3) } else { c.rng.range(0, 14) };
    let alphabet: Vec<u8> = if c.rng.chance(1, 2) { vec![0, 0xFF] } else { vec![0, 0xFF, 0xA5, 0x01, 0x80, 0x7F] };
    for _ in 0..segs {
        let v = if c.rng.chance(1, 5) { c.rng.next() as u8 } else { *c.rng.pick(&alphabet) };
        let near = c.rng.near(70_000);
        let k = match c.rng.below(12) {
            _ if near.is_some() && bits.len() < 1_000_000 => near.unwrap() as usize,
            0..=7 => c.rng.range(1, 5),
            8 => c.rng.range(60, 70),
            9 => c.rng.range(1, 300),
            10 if !c.tiny => *c.rng.pick(&[63, 64, 65, 127, 128, 129, 8191, 8192, 8193]),
            _ => 2,
        };
        for _ in 0..k {
            for b in 0..8 {
                bits.push(v >> b & 1 == 1);
            }
        }
    }
    for _ in 0..c.rng.below(9) {
        let b = c.rng.chance(1, 2);
        bits.push(b);
    }
    bits
}

fn feed(c: &mut Ctx, enc: &mut RleEncoder, bits: &[bool]) -> Result<Vec<bool>, Viol> {
    // one by one, or by slices of bitmaps; the slice API stops after a given number of set bits
    if c.rng.chance(1, 2) {
        bits.iter().for_each(|b| enc.put(*b));
        c.count("fed_bitwise", 1);
        return Ok(bits.to_vec());
    }
    if c.rng.chance(1, 2) {
        // pieces, each bit by bit or from a bitmap of its own
        let mut pos = 0;
        while pos < bits.len() {
            let left = bits.len() - pos;
            let mut n = match c.rng.below(5) {
                0 => left,
                1 => (8 * c.rng.range(1, 9)).min(left),
                2 => c.rng.range(1, left.min(70)),
                _ => c.rng.range(1, left),
            };
            if c.rng.chance(1, 2) {
                // end where ones end
                while pos + n < bits.len() && !(bits[pos + n - 1] && !bits[pos + n]) {
                    n += 1;
                }
            }
            let piece = &bits[pos..pos + n];
            pos += n;
            if c.rng.chance(1, 3) {
                piece.iter().for_each(|b| enc.put(*b));
                continue;
            }
            let mut bm = Bitmap::new();
            let lead = if c.rng.chance(1, 2) { 0 } else { c.rng.below(40) };
            (0..lead).for_each(|_| bm.append(c.rng.chance(1, 2)));
            piece.iter().for_each(|b| bm.append(*b));
            if c.rng.chance(1, 2) {
                (0..c.rng.below(20)).for_each(|_| bm.append(c.rng.chance(1, 2)));
            }
            let ones = piece.iter().filter(|b| **b).count();
            let end = piece.iter().rposition(|b| *b).map_or(0, |i| i + 1);
            let ret = enc.put_from(&bm, lead, ones);
            ensure!(ret == lead + end, "slice-cursor", "encoding {} set bits from bit {} returned {}, expected {}", ones, lead, ret, lead + end);
            piece[end..].iter().for_each(|b| enc.put(*b));
        }
        c.count("fed_in_pieces", 1);
        return Ok(bits.to_vec());
    }
    let mut bm = Bitmap::new();
    let lead = c.rng.below(40);
    for _ in 0..lead {
        bm.append(c.rng.chance(1, 2));
    }
    bits.iter().for_each(|b| bm.append(*b));
    let ones = bits.iter().filter(|b| **b).count();
    let mut fed = vec![];
    let mut pos = lead;
    let mut done = 0;
    while done < ones {
        let k = if c.rng.chance(1, 2) { ones - done } else { c.rng.range(1, ones - done) };
        let ret = enc.put_from(&bm, pos, k);
        let mut got = 0;
        let mut q = pos;
        while got < k {
            let b = bits[q - lead];
            fed.push(b);
            got += b as usize;
            q += 1;
        }
        ensure!(ret == q, "slice-cursor", "encoding {} set bits from bit {} returned {}, expected {}", k, pos, ret, q);
        pos = q;
        done += k;
    }
    c.count("fed_by_slice", 1);
    Ok(fed)
}

/// A run of 16 MiB and more.
fn huge_bits(c: &mut Ctx) -> Vec<bool> {
    let lead = c.rng.below(30);
    let mut v: Vec<bool> = (0..lead).map(|i| i % 3 == 0).collect();
    v.resize(lead + (8 << 24) + c.rng.below(1 << 20), false);
    v.extend((0..c.rng.below(40)).map(|i| i % 5 != 1));
    c.count("runs_over_16_MiB", 1);
    v
}

/// A bitmap of a few short runs.
fn few_bits(c: &mut Ctx) -> Vec<bool> {
    let mut v = vec![];
    for _ in 0..c.rng.range(1, 5) {
        let b = *c.rng.pick(&[0u8, 255, 1, 128, 0xAA]);
        for _ in 0..c.rng.range(1, 5) {
            v.extend((0..8).map(|i| b >> i & 1 == 1));
        }
    }
    v.truncate(v.len() - c.rng.below(8));
    v
}

fn rle_history(c: &mut Ctx, mut check: impl FnMut(&mut Ctx, &[bool], &[u8]) -> Res) -> Res {
    let mut enc = RleEncoder::new();
    let many = c.giant().is_none() && c.rng.chance(1, 60);
    let rounds = if c.giant().is_some() { 2 } else if many { c.rng.range(20, if c.tiny { 30 } else { 400 }) } else { c.rng.range(1, 4) };
    let mut desc = vec![];
    for r in 0..rounds {
        if r == 100 {
            c.count("encoders_used_100_times", 1);
        }
        if r > 0 {
            // leave the encoder in an arbitrary state, then clear
            if c.rng.chance(1, 2) {
                let junk = if many { few_bits(c) } else { gen_bits(c) };
                junk.iter().for_each(|b| enc.put(*b));
                if c.rng.chance(1, 2) {
                    enc.flush();
                }
            }
            enc.clear();
            c.count("reuses", 1);
        }
        let bits = if r == 0 && c.giant() == Some(2) && c.index < 4096 { huge_bits(c) } else if many { few_bits(c) } else { gen_bits(c) };
        let fed = feed(c, &mut enc, &bits)?;
        enc.flush();
        let out = enc.encoded_values().to_vec();
        desc.push(format!("{} bits -> {} bytes", fed.len(), out.len()));
        c.note(fed.len() as u64);
        for ch in fed.chunks(64) {
            c.note(ch.iter().enumerate().fold(0, |a, (i, b)| a | (*b as u64) << i));
        }
        c.count("bitmaps", 1);
        c.count("bits", fed.len() as u64);
        c.max("bits", fed.len() as u64);
        if fed.len() % 8 != 0 {
            c.count("partial_last_byte", 1);
        }
        if fed.len() > 16 {
            c.nontrivial = true;
        }
        check(c, &fed, &out)?;
    }
    c.sample = Some(format!("{:?}", desc));
    Ok(())
}

pub fn c09(c: &mut Ctx) -> Res {
    rle_history(c, |c, bits, out| {
        let want: Vec<u32> = bits.iter().enumerate().filter(|b| *b.1).map(|b| b.0 as u32).collect();
        // independent decoder
        let bytes = model::rle_bytes(out, bits.len() / 8 + 64)?;
        let got: Vec<u32> = (0..bytes.len() * 8).filter(|i| bytes[i / 8] >> (i % 8) & 1 == 1).map(|i| i as u32).collect();
        ensure!(got == want, "encode", "{} bits encode to {:02x?}: {}", bits.len(), &out[..out.len().min(40)], diff(&got, &want));
        // the decoder of the code under test
        let mut dec = vec![u32::MAX; want.len()];
        if let Err(p) = panics(|| rle_decode(out, &mut dec)) {
            return viol("decode-panic", format!("decoding {} bits from {:02x?} panicked: {}", bits.len(), &out[..out.len().min(40)], p));
        }
        ensure!(dec == want, "decode", "decoding {:02x?}: {}", &out[..out.len().min(40)], diff(&dec, &want));
        c.count("set_bits", want.len() as u64);
        Ok(())
    })
}

fn diff(got: &[u32], want: &[u32]) -> String {
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!("{} set bits expected, {} read; first difference at index {}: {:?} instead of {:?}", want.len(), got.len(), i, got.get(i), want.get(i))
}

pub fn c10(c: &mut Ctx) -> Res {
    rle_history(c, |c, bits, out| {
        let frames = model::rle_frames(out)?;
        let want_bytes = model::ceil_div(bits.len(), 8);
        let bytes = model::rle_bytes(out, want_bytes + 4096)?;
        ensure!(bytes.len() == want_bytes, "coverage", "{} bits are covered by {} bytes", bits.len(), bytes.len());
        if bits.len() % 8 != 0 {
            let last = bytes[want_bytes - 1];
            ensure!(last >> (bits.len() % 8) == 0, "padding", "unused bits of the last byte are set: {:#x} with {} bits", last, bits.len() % 8);
        }
        let show = || format!("{:02x?}", &out[..out.len().min(60)]);
        let mut prev: Option<(bool, u8)> = None; // (was run, last byte)
        for f in &frames {
            match f {
                model::Frame::Run(n, v) => {
                    ensure!(*n >= 3, "short-run", "run frame of {} bytes in {}", n, show());
                    if let Some((_, last)) = prev {
                        ensure!(last != *v, "split-run", "byte {:#x} before a run of the same byte in {}", last, show());
                    }
                    prev = Some((true, *v));
                    c.count("run_frames", 1);
                }
                model::Frame::Lit(l) => {
                    ensure!(!l.is_empty(), "empty-frame", "empty literal frame in {}", show());
                    for w in l.windows(3) {
                        ensure!(!(w[0] == w[1] && w[1] == w[2]), "run-in-literal", "three equal bytes {:#x} inside a literal frame in {}", w[0], show());
                    }
                    if let Some((run, last)) = prev {
                        ensure!(run, "split-literal", "two consecutive literal frames in {}", show());
                        ensure!(last != l[0], "split-run", "literal starts with the byte of the run before it in {}", show());
                    }
                    prev = Some((false, *l.last().unwrap()));
                    c.count("literal_frames", 1);
                }
            }
        }
        // never more than the bytes plus a header per frame
        let bound: usize = frames.iter().map(|f| match f {
            model::Frame::Run(n, _) => 1 + model::varint_enc(n << 1).len(),
            model::Frame::Lit(l) => l.len() + model::varint_enc((l.len() as u64) << 1 | 1).len(),
        }).sum();
        ensure!(out.len() <= bound, "expansion", "{} encoded bytes for frames of {} bytes", out.len(), bound);
        Ok(())
    })
}

// ---------------------------------------------------------------- C11

pub fn c11(c: &mut Ctx) -> Res {
    let mut enc = OffsetEncoder::new();
    let rounds = c.rng.range(1, 3);
    let mut desc = vec![];
    for _ in 0..rounds {
        let n = match c.rng.below(6) {
            0 => c.rng.range(0, 6),
            _ if c.giant().is_some() => 128 * (500 + c.rng.below(if c.thorough { 20_000 } else { 1500 })) + c.rng.below(3) * 63,
            1 if !c.tiny => *c.rng.pick(&[126, 127, 128, 129, 130, 255, 256, 257, 383, 384, 385]),
            _ => c.size(5000),
        };
        let width = c.rng.range(0, 32) as u32;
        let mode = c.rng.below(4);
        let mut lens: Vec<u32> = Vec::with_capacity(n);
        for i in 0..n {
            let full = if width == 0 { 0 } else { (c.rng.next() >> (64 - width)) as u32 };
            let near = if mode < 2 && i % 16 == 0 { c.rng.near(u64::from(u32::MAX) >> (32 - width.max(1))) } else { None };
            lens.push(match mode {
                _ if near.is_some() && width > 0 => near.unwrap() as u32,
                0 => full,
                1 => if c.rng.chance(1, 20) { full } else { 0 },
                2 => if i + 1 == n { full } else { c.rng.below(4) as u32 }, // widest value last, in the last packing block
                _ => if i == 0 { full } else { c.rng.below(4) as u32 },
            });
        }
        lens.iter().for_each(|l| c.note(*l as u64));
        c.note(n as u64);
        let np = c.rng.below(40);
        let prefix = c.rng.bytes(np);
        let mut dst = prefix.clone();
        let mut src = lens.clone();
        if let Err(p) = panics(|| enc.encode(&mut src, &mut dst)) {
            return viol("pack-panic", format!("packing {} lengths of up to {} bits panicked: {}", n, width, p));
        }
        ensure!(dst.len() > np, "no-width", "no bit width written for {} lengths", n);
        ensure!(dst[..np] == prefix[..], "prefix", "packing changed the {} bytes before it", np);
        let bits = dst[np] as usize;
        let (got, used) = model::unpack4(&dst[np + 1..], n, bits)?;
        if let Some(i) = (0..n).find(|i| got[*i] != lens[*i]) {
            return viol("length", format!("length {} of {} decodes to {}, expected {} ({} bits)", i, n, got[i], lens[i], bits));
        }
        ensure!(dst.len() == np + 1 + used, "size", "{} lengths of {} bits packed into {} bytes, expected {}", n, bits, dst.len() - np - 1, used);
        c.count("lists", 1);
        c.count("lengths", n as u64);
        c.count(&format!("width_{:02}", bits), 1);
        if n > 128 {
            c.count("lists_over_one_packing_block", 1);
        }
        if n > 1 {
            c.nontrivial = true;
        }
        desc.push(format!("{} lengths, {} bits", n, bits));
    }
    c.sample = Some(format!("{:?}", desc));
    Ok(())
}

// ---------------------------------------------------------------- C39

/// What bytes given as validity say: positions of set bits, as far as `room` goes.
enum Said {
    Positions(Vec<u32>),
    /// cannot be decoded: why
    Damaged(&'static str),
    /// either answer is right: nothing is lost by decoding and nothing by refusing
    Either(Vec<u32>),
}

fn said(b: &[u8], room: usize) -> Said {
    let mut out: Vec<u32> = vec![];
    let mut pos = 0u128;
    let mut at = 0;
    let mut odd = false;
    while at < b.len() {
        let (h, n) = match model::varint(&b[at..]) {
            Ok(x) => x,
            Err(_) => return Said::Damaged("frame header"),
        };
        at += n;
        let len = h >> 1;
        // the format knows lengths of 32 bits
        odd |= len > u32::MAX as u64;
        let byte = |v: u8, pos: u128, out: &mut Vec<u32>| -> Result<(), &'static str> {
            for i in 0..8u128 {
                if v >> i & 1 == 1 {
                    if out.len() == room {
                        return Err("more positions than room");
                    }
                    if pos + i > u32::MAX as u128 {
                        return Err("position over 32 bits");
                    }
                    out.push((pos + i) as u32);
                }
            }
            Ok(())
        };
        if h & 1 == 1 {
            if len > (b.len() - at) as u64 {
                return Said::Damaged("literal frame past the end");
            }
            for v in &b[at..at + len as usize] {
                if let Err(e) = byte(*v, pos, &mut out) {
                    return Said::Damaged(e);
                }
                pos += 8;
            }
            at += len as usize;
        } else {
            if at == b.len() {
                return Said::Damaged("run frame without a value");
            }
            let v = b[at];
            at += 1;
            if v == 0 {
                pos += 8 * len as u128;
            } else {
                for _ in 0..len {
                    if let Err(e) = byte(v, pos, &mut out) {
                        return Said::Damaged(e);
                    }
                    pos += 8;
                }
            }
        }
    }
    // bits that are all zero past the last row id there can be
    odd |= pos > 1u128 << 32;
    if odd {
        Said::Either(out)
    } else {
        Said::Positions(out)
    }
}

fn damage(c: &mut Ctx, b: &mut Vec<u8>) {
    for _ in 0..c.rng.range(1, 3) {
        let n = b.len();
        match c.rng.below(8) {
            0 => b.truncate(c.rng.below(n + 1)),
            1 if n > 0 => {
                let i = c.rng.below(n);
                b[i] ^= 1 << c.rng.below(8);
            }
            2 if n > 0 => {
                let i = c.rng.below(n);
                b[i] = *c.rng.pick(&[0, 1, 0x7F, 0x80, 0xFF, 0xFE]);
            }
            3 => {
                let i = c.rng.below(n + 1);
                let v = c.rng.next() as u8;
                b.insert(i, v);
            }
            4 if n > 0 => {
                let i = c.rng.below(n);
                b.remove(i);
            }
            5 | 6 => {
                // a frame of its own, of a length that no column has
                let len = match c.rng.below(5) {
                    0 => c.rng.below(4) as u64,
                    1 => (1u64 << c.rng.range(27, 34)).wrapping_add(c.rng.below(3) as u64).wrapping_sub(1),
                    2 => u64::MAX >> c.rng.below(40),
                    3 => 1u64 << c.rng.below(63),
                    _ => c.rng.below(300) as u64,
                };
                let h = len << 1 | c.rng.below(2) as u64;
                let mut f = model::varint_enc(h);
                if c.rng.chance(1, 8) {
                    // written longer than needed, or over 64 bits
                    let l = f.len() - 1;
                    f[l] |= 0x80;
                    let z = c.rng.below(12);
                    f.resize(f.len() + z, 0x80);
                    f.push(*c.rng.pick(&[0u8, 1, 2, 0x7F]));
                }
                f.push(*c.rng.pick(&[0u8, 0, 0xFF, 1, 0x80]));
                if c.rng.chance(1, 2) {
                    b.extend(f);
                } else {
                    f.append(b);
                    *b = f;
                }
            }
            _ => {
                let k = c.rng.below(12);
                b.extend(c.rng.bytes(k));
            }
        }
    }
}

pub fn c39(c: &mut Ctx) -> Res {
    let n = if c.tiny { 6 } else { 60 };
    let mut first = String::new();
    for i in 0..n {
        // ---- variable-length integers
        let k = c.rng.below(14);
        let mut b = c.rng.bytes(k);
        let style = c.rng.below(4);
        for x in b.iter_mut().take(if style == 0 { 0 } else { 8 + style }) {
            *x |= 0x80;
        }
        if style == 3 && b.len() >= 10 {
            b[9] = *c.rng.pick(&[0u8, 1, 2, 3, 0x40, 0x7F, 0x7E, 0x81, 0xFF]);
        }
        let mut exact: Box<[u8]> = b.clone().into();
        let got = panics(|| decode_varint(&exact));
        match (model::varint(&b), &got) {
            (Ok((v, l)), Ok(Ok((d, k)))) => {
                ensure!(v == *d && l == *k, "integer", "{:02x?} decoded to ({:#x}, {}), it says ({:#x}, {})", b, d, k, v, l);
                c.count("integers_decoded", 1);
            }
            (Ok((v, l)), _) => return viol("integer-refused", format!("{:02x?} says ({:#x}, {}) and was refused", b, v, l)),
            (Err(_), Ok(Ok((d, k)))) => {
                let why = if b.len() >= 10 && b[9] < 0x80 { "integer-overflow" } else { "integer-damaged" };
                return viol(why, format!("{:02x?} is no 64-bit integer and decoded to ({:#x}, {})", b, d, k));
            }
            (Err(_), _) => {
                c.count("integers_refused", 1);
                if b.len() >= 10 && b[9] < 0x80 {
                    c.count("integers_over_64_bits_refused", 1);
                }
            }
        }
        exact[..].fill(0);
        // ---- validity
        let mut v = match c.rng.below(6) {
            0 => {
                let k = c.rng.below(30);
                c.rng.bytes(k)
            }
            1 => vec![],
            _ => {
                let mut e = RleEncoder::new();
                let mut bits = gen_bits(c);
                bits.truncate(if c.tiny { 200 } else { 40_000 });
                bits.iter().for_each(|b| e.put(*b));
                e.flush();
                e.encoded_values().to_vec()
            }
        };
        if c.rng.chance(9, 10) {
            damage(c, &mut v);
        }
        c.note_bytes(&b);
        c.note_bytes(&v);
        // room: what is needed, less, or more
        let limit = 400_000;
        let need = match said(&v, limit) {
            Said::Positions(p) | Said::Either(p) => Some(p.len()),
            Said::Damaged(_) => None,
        };
        let room = match (need, c.rng.below(4)) {
            (Some(n), 0) => n.saturating_sub(1 + c.rng.below(3)),
            (Some(n), 1) => n + 1 + c.rng.below(20),
            (Some(n), _) => n,
            (None, 0) => 0,
            (None, 1) => c.rng.below(limit),
            (None, _) => c.rng.below(600),
        };
        let input: Box<[u8]> = v.clone().into();
        let mut out = vec![0xA5A5_A5A5u32; room];
        let got = panics(|| rle_decode(&input, &mut out));
        let head = || format!("{} bytes {:02x?} with room for {}", v.len(), &v[..v.len().min(40)], room);
        let (want, either) = match said(&v, room) {
            Said::Positions(p) => (Ok(p), false),
            Said::Either(p) => (Ok(p), true),
            Said::Damaged(w) => (Err(w), false),
        };
        match (want, got) {
            (Ok(p), Ok(())) => {
                ensure!(out[..p.len()] == p[..], "positions", "{}: {}", head(), diff(&out[..p.len()], &p));
                ensure!(out[p.len()..].iter().all(|x| *x == 0xA5A5_A5A5), "positions-invented", "{}: more than the {} positions there are were written", head(), p.len());
                c.count(if either { "oversized_decoded" } else { "validity_decoded" }, 1);
            }
            (Ok(_), Err(_)) if either => c.count("oversized_refused", 1),
            (Ok(p), Err(e)) => return viol("validity-refused", format!("{} says {} positions and was refused: {}", head(), p.len(), e)),
            (Err(w), Ok(())) => return viol("damage-accepted", format!("{}: {}, decoded to {:?}", head(), w, &out[..out.len().min(20)])),
            (Err(w), Err(_)) => c.count(
                match w {
                    "frame header" => "refused_header",
                    "literal frame past the end" => "refused_literal",
                    "run frame without a value" => "refused_run",
                    "more positions than room" => "refused_room",
                    _ => "refused_position",
                },
                1,
            ),
        }
        if i == 0 {
            first = head();
        }
    }
    c.nontrivial = true;
    c.sample = Some(first);
    Ok(())
}
