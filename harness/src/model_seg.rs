//! Independent reader of the segment index file: protobuf wire format with the
//! field numbers and enum values of the published schema.
use crate::ctx::*;
use crate::ensure;
use crate::model::varint;
use std::collections::BTreeMap;

#[derive(Debug)]
enum Wire<'a> {
    Int(u64),
    Bytes(&'a [u8]),
    Other,
}

fn fields(mut b: &[u8]) -> Result<Vec<(u64, Wire<'_>)>, Viol> {
    let mut out = vec![];
    while !b.is_empty() {
        let (k, n) = varint(b)?;
        b = &b[n..];
        let f = k >> 3;
        ensure!(f != 0, "meta-wire", "field number 0");
        let w = match k & 7 {
            0 => {
                let (v, n) = varint(b)?;
                b = &b[n..];
                Wire::Int(v)
            }
            1 => {
                ensure!(b.len() >= 8, "meta-wire", "truncated 64-bit field");
                b = &b[8..];
                Wire::Other
            }
            5 => {
                ensure!(b.len() >= 4, "meta-wire", "truncated 32-bit field");
                b = &b[4..];
                Wire::Other
            }
            2 => {
                let (l, n) = varint(b)?;
                b = &b[n..];
                ensure!(l <= b.len() as u64, "meta-wire", "field {} of {} bytes, {} left", f, l, b.len());
                let (x, rest) = b.split_at(l as usize);
                b = rest;
                Wire::Bytes(x)
            }
            t => return viol("meta-wire", format!("wire type {}", t)),
        };
        out.push((f, w));
    }
    Ok(out)
}

fn int(w: &Wire, f: &str) -> Result<u64, Viol> {
    match w {
        Wire::Int(v) => Ok(*v),
        w => viol("meta-wire", format!("{} is not an integer: {:?}", f, w)),
    }
}
fn bytes<'a>(w: &Wire<'a>, f: &str) -> Result<&'a [u8], Viol> {
    match w {
        Wire::Bytes(v) => Ok(v),
        w => viol("meta-wire", format!("{} is not length-delimited: {:?}", f, w)),
    }
}
fn text(w: &Wire, f: &str) -> Result<String, Viol> {
    match String::from_utf8(bytes(w, f)?.to_vec()) {
        Ok(s) => Ok(s),
        Err(_) => viol("meta-wire", format!("{} is not text", f)),
    }
}

#[derive(Debug, Default, Clone, PartialEq)]
pub struct Column {
    pub name: String,
    pub ctype: u64,
    pub nullable: bool,
    pub encoding: u64,
    pub index_type: u64,
}

#[derive(Debug, Default, Clone, PartialEq)]
pub struct Layout {
    /// oneof field number: 4 plain, 5 dictionary, 6 snappy
    pub encoder: Option<u64>,
    pub column_index: Option<u64>,
    pub block_index: Option<(u64, u64)>,
}

#[derive(Debug, Default)]
pub struct Meta {
    pub segment_id: Vec<u8>,
    pub database: String,
    pub table: String,
    pub shard: u64,
    pub num_rows: u64,
    pub columns: BTreeMap<String, Column>,
    pub layouts: BTreeMap<String, Layout>,
    /// where the metadata starts
    pub pos: u64,
}

fn entry<'a>(b: &'a [u8], f: &str) -> Result<(String, &'a [u8]), Viol> {
    let mut k = String::new();
    let mut v: &[u8] = &[];
    for (n, w) in fields(b)? {
        match n {
            1 => k = text(&w, f)?,
            2 => v = bytes(&w, f)?,
            _ => {}
        }
    }
    Ok((k, v))
}

pub const SIG: &[u8; 12] = b"MEERKAT_IDX1";
pub const DATA_SIG: &[u8; 13] = b"MEERKAT_DATA1";

pub fn parse(file: &[u8]) -> Result<Meta, Viol> {
    ensure!(file.len() >= 20, "index-short", "the index file has {} bytes", file.len());
    ensure!(&file[..12] == SIG, "index-signature", "the index file starts with {:02x?}", &file[..12]);
    let pos = u64::from_le_bytes(file[file.len() - 8..].try_into().unwrap());
    ensure!(pos >= 12 && pos <= file.len() as u64 - 8, "index-footer", "the footer points at {}, the file has {} bytes", pos, file.len());
    let mut m = Meta { pos, ..Default::default() };
    let mut have_segment = false;
    for (n, w) in fields(&file[pos as usize..file.len() - 8])? {
        match n {
            1 => {
                have_segment = true;
                for (n, w) in fields(bytes(&w, "segment_meta")?)? {
                    match n {
                        1 => m.segment_id = bytes(&w, "segment_id")?.to_vec(),
                        2 => m.database = text(&w, "database_name")?,
                        3 => m.table = text(&w, "table_name")?,
                        4 => m.shard = int(&w, "shard_id")?,
                        7 => m.num_rows = int(&w, "num_rows")?,
                        8 => {
                            let (k, v) = entry(bytes(&w, "columns_meta")?, "columns_meta")?;
                            let mut c = Column::default();
                            for (n, w) in fields(v)? {
                                match n {
                                    1 => c.name = text(&w, "column name")?,
                                    2 => c.ctype = int(&w, "column_type")?,
                                    3 => c.nullable = int(&w, "nullable")? != 0,
                                    4 => c.encoding = int(&w, "encoding")?,
                                    5 => c.index_type = int(&w, "index_type")?,
                                    _ => {}
                                }
                            }
                            ensure!(m.columns.insert(k.clone(), c).is_none(), "meta-duplicate", "column {:?} described twice", k);
                        }
                        _ => {}
                    }
                }
            }
            2 => {
                let (k, v) = entry(bytes(&w, "columns_layout")?, "columns_layout")?;
                let mut l = Layout::default();
                for (n, w) in fields(v)? {
                    match n {
                        1 | 2 => l.column_index = Some(n),
                        3 => {
                            let mut r = None;
                            for (n, w) in fields(bytes(&w, "block_index_layout")?)? {
                                if n == 1 {
                                    let (mut s, mut e) = (0, 0);
                                    for (n, w) in fields(bytes(&w, "range")?)? {
                                        match n {
                                            1 => s = int(&w, "start")?,
                                            2 => e = int(&w, "end")?,
                                            _ => {}
                                        }
                                    }
                                    r = Some((s, e));
                                }
                            }
                            l.block_index = r;
                        }
                        4 | 5 | 6 => {
                            ensure!(l.encoder.is_none(), "meta-duplicate", "two encoder layouts for column {:?}", k);
                            l.encoder = Some(n);
                        }
                        _ => {}
                    }
                }
                ensure!(m.layouts.insert(k.clone(), l).is_none(), "meta-duplicate", "layout of column {:?} given twice", k);
            }
            _ => {}
        }
    }
    ensure!(have_segment, "meta-missing", "no segment description in {} bytes of metadata", file.len() as u64 - 8 - pos);
    Ok(m)
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn base64url(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let mut v = 0u32;
        for i in 0..3 {
            v = v << 8 | *c.get(i).unwrap_or(&0) as u32;
        }
        for i in 0..=c.len() {
            s.push(B64[(v >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    s
}
