//! Decoders written from the documented block layouts, independent of the code under test.
use crate::ctx::*;
use crate::ensure;

pub fn varint(b: &[u8]) -> Result<(u64, usize), Viol> {
    let mut v: u128 = 0;
    for i in 0..10 {
        ensure!(i < b.len(), "layout-varint", "integer runs past the end of the data: {:02x?}", &b[..b.len().min(12)]);
        v |= ((b[i] & 0x7f) as u128) << (7 * i);
        if b[i] < 0x80 {
            ensure!(v <= u64::MAX as u128, "layout-varint", "integer over 64 bits");
            return Ok((v as u64, i + 1));
        }
    }
    viol("layout-varint", "integer longer than ten bytes")
}

pub fn varint_enc(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}

pub enum Frame {
    Run(u64, u8),
    Lit(Vec<u8>),
}

/// Frames of run-length encoded validity.
pub fn rle_frames(mut b: &[u8]) -> Result<Vec<Frame>, Viol> {
    let mut out = vec![];
    while !b.is_empty() {
        let (h, n) = varint(b)?;
        b = &b[n..];
        let len = h >> 1;
        if h & 1 == 1 {
            ensure!(len <= b.len() as u64, "layout-rle", "literal frame of {} bytes with {} left", len, b.len());
            out.push(Frame::Lit(b[..len as usize].to_vec()));
            b = &b[len as usize..];
        } else {
            ensure!(!b.is_empty(), "layout-rle", "run frame without a value");
            out.push(Frame::Run(len, b[0]));
            b = &b[1..];
        }
    }
    Ok(out)
}

/// The bitmap bytes; refuses to expand past `max` bytes.
pub fn rle_bytes(b: &[u8], max: usize) -> Result<Vec<u8>, Viol> {
    let mut out = vec![];
    for f in rle_frames(b)? {
        match f {
            Frame::Run(n, v) => {
                ensure!(n as u128 + out.len() as u128 <= max as u128, "layout-rle", "validity covers more than {} bytes", max);
                out.resize(out.len() + n as usize, v);
            }
            Frame::Lit(l) => {
                ensure!(l.len() + out.len() <= max, "layout-rle", "validity covers more than {} bytes", max);
                out.extend_from_slice(&l);
            }
        }
    }
    Ok(out)
}

pub fn ceil_div(a: usize, b: usize) -> usize {
    (a + b - 1) / b
}

/// Unpacks `n` values of `bits` bits from the 4-lane bit-packed layout in
/// blocks of 128; returns the values and the number of bytes used.
pub fn unpack4(data: &[u8], n: usize, bits: usize) -> Result<(Vec<u32>, usize), Viol> {
    ensure!(bits <= 32, "layout-packing", "bit width {}", bits);
    let used = 16 * bits * ceil_div(n, 128);
    ensure!(data.len() >= used, "layout-packing", "{} lengths of {} bits need {} bytes, {} left", n, bits, used, data.len());
    let mut out = Vec::with_capacity(n);
    for i in 0..n {
        let block = &data[16 * bits * (i / 128)..];
        let (lane, row) = ((i % 128) % 4, (i % 128) / 4);
        let mut v: u64 = 0;
        let start = row * bits;
        for k in 0..bits {
            let bit = start + k;
            let word = (bit / 32 * 4 + lane) * 4;
            let byte = block[word + (bit % 32) / 8];
            v |= ((byte >> (bit % 8)) as u64 & 1) << k;
        }
        out.push(v as u32);
    }
    Ok((out, used))
}

fn validity(rest: &[u8], expect: &[bool]) -> Res {
    let want = ceil_div(expect.len(), 8);
    let bytes = rle_bytes(rest, want + 16)?;
    ensure!(bytes.len() == want, "block-validity", "validity covers {} bytes for {} rows", bytes.len(), expect.len());
    for i in 0..bytes.len() * 8 {
        let set = bytes[i / 8] >> (i % 8) & 1 == 1;
        let e = i < expect.len() && expect[i];
        ensure!(set == e, "block-validity", "row {} of {} of the block is marked {}, expected {}", i, expect.len(), set, e);
    }
    Ok(())
}

/// Checks that `block` stores exactly `rows` (values as little-endian bytes).
/// Returns the number of raw value bytes.
pub fn check_primitive_block(block: &[u8], rows: &[Option<Vec<u8>>], nullable: bool) -> Result<usize, Viol> {
    let (len, n) = varint(block)?;
    let want: Vec<u8> = rows.iter().flatten().flatten().copied().collect();
    ensure!(len as usize == want.len(), "block-data-len", "block declares {} value bytes, its rows have {}", len, want.len());
    ensure!(block.len() >= n + want.len(), "block-truncated", "block has {} bytes, needs {}", block.len(), n + want.len());
    let data = &block[n..n + want.len()];
    if let Some(i) = (0..want.len()).find(|i| data[*i] != want[*i]) {
        return viol("block-data", format!("value byte {} of {} is {:#x}, expected {:#x}", i, want.len(), data[i], want[i]));
    }
    let rest = &block[n + want.len()..];
    if nullable {
        validity(rest, &rows.iter().map(|r| r.is_some()).collect::<Vec<_>>())?;
    } else {
        ensure!(rest.is_empty(), "block-trailing", "{} trailing bytes in a non-nullable block", rest.len());
    }
    Ok(want.len())
}

pub fn check_binary_block(block: &[u8], rows: &[Option<Vec<u8>>], nullable: bool) -> Result<usize, Viol> {
    let (len, n) = varint(block)?;
    let vals: Vec<&Vec<u8>> = rows.iter().flatten().collect();
    let total: usize = vals.iter().map(|v| v.len()).sum();
    ensure!(len as usize == total, "block-data-len", "block declares {} value bytes, its rows have {}", len, total);
    ensure!(block.len() >= n + total + 1, "block-truncated", "block has {} bytes, needs {} and more", block.len(), n + total + 1);
    let mut p = n;
    for (i, v) in vals.iter().enumerate() {
        ensure!(&block[p..p + v.len()] == v.as_slice(), "block-data", "value {} of {} differs", i, vals.len());
        p += v.len();
    }
    let bits = block[p] as usize;
    let (lens, used) = unpack4(&block[p + 1..], vals.len(), bits)?;
    for (i, v) in vals.iter().enumerate() {
        ensure!(lens[i] as usize == v.len(), "block-lengths", "stored length of value {} of {} is {}, expected {} ({} bits per length)", i, vals.len(), lens[i], v.len(), bits);
    }
    let rest = &block[p + 1 + used..];
    if nullable {
        validity(rest, &rows.iter().map(|r| r.is_some()).collect::<Vec<_>>())?;
    } else {
        ensure!(rest.is_empty(), "block-trailing", "{} trailing bytes in a non-nullable block", rest.len());
    }
    Ok(total)
}
