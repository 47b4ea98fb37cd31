//! C18 (segment part), C15 (segment part), C23-C29, C32, C33: whole segments.
use crate::ctx::*;
use crate::ensure;
use crate::model_seg::{self, base64url, Meta, DATA_SIG};
use crate::props_buf::{gen_bytes, null_pattern};
use crate::props_enc::{check_blocks, check_sizes, gen_batches, Bin, Blocks, Row, ENCODINGS};
use crate::props_io::{diff_bytes, fresh, runtime, Armed};
use crate::sys::{Action, Kind, Plan, Rule};
use futures::StreamExt;
use meerkat::store::verif::io::{self as mio, BlockReader};
use meerkat::store::verif::*;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- specification

#[derive(Clone)]
pub struct ColSpec {
    pub name: String,
    pub ctype: ColumnType,
    pub itype: IndexType,
    pub nullable: bool,
    pub rows: Vec<Row>,
    pub batches: Vec<usize>,
}

#[derive(Clone)]
pub struct SegSpec {
    pub id: uuid::Uuid,
    pub database: String,
    pub table: String,
    pub shard: u32,
    pub num_rows: u32,
    pub cols: Vec<ColSpec>,
}

impl SegSpec {
    pub fn describe(&self) -> String {
        let cols: Vec<String> = self
            .cols
            .iter()
            .map(|c| {
                format!(
                    "{:?}({} rows, {} values, {} bytes, {} buffers, nullable={})",
                    c.name.chars().take(12).collect::<String>(),
                    c.rows.len(),
                    c.rows.iter().flatten().count(),
                    c.rows.iter().flatten().map(|v| v.len()).sum::<usize>(),
                    c.batches.len(),
                    c.nullable
                )
            })
            .collect();
        format!("segment {} columns [{}]", self.id, cols.join(", "))
    }
}

const CTYPES: [(ColumnType, u64); 10] = [
    (ColumnType::Bool, 0),
    (ColumnType::Datetime, 1),
    (ColumnType::Decimal, 2),
    (ColumnType::Dynamic, 3),
    (ColumnType::Float64, 4),
    (ColumnType::Guid, 5),
    (ColumnType::Int32, 6),
    (ColumnType::Int64, 7),
    (ColumnType::String, 8),
    (ColumnType::Timespan, 9),
];
const ITYPES: [(IndexType, u64); 4] = [(IndexType::NoIndex, 0), (IndexType::FullText, 1), (IndexType::Brin, 2), (IndexType::Kdtree, 3)];

/// Names that a careless normalisation (case, spaces, composition, truncation, escaping, ordering)
/// would change or run together.
fn gen_name(r: &mut Rng, i: usize) -> String {
    if let Some(t) = r.text() {
        return if r.chance(1, 3) { format!("{}{}", t, i) } else { t.to_string() };
    }
    if let Some(n) = r.near(5000) {
        let n = n as usize;
        return if r.chance(1, 2) { "n".repeat(n) } else { "\u{f1}".repeat(n / 2) + &"n".repeat(n % 2) };
    }
    match r.below(12) {
        0 => format!("{}", i),
        1 => format!("columna_ñandú_{}", i),
        2 => format!("日本語-{}", i),
        3 => format!("{}{}", "x".repeat(r.below(300)), i),
        4 => format!("a/b\\..\0{}\n", i),
        5 if i == 0 => String::new(),
        6..=8 => {
            let base = *r.pick(&["Name", "user id", "Straße", "İd", "e\u{301}a", "\u{e9}a", "_x", "\"q\"", "%41", "a.b", "\u{feff}n", "𝒳y", "Ab\u{200d}"]);
            match r.below(9) {
                0 => base.to_string(),
                1 => base.to_uppercase(),
                2 => base.to_lowercase(),
                3 => format!(" {}", base),
                4 => format!("{} ", base),
                5 => format!("{}\0", base),
                6 => format!("{0}{0}", base),
                7 => format!("\t{}\r\n", base),
                _ => base.chars().rev().collect(),
            }
        }
        9 => {
            let n = r.range(1, 12);
            (0..n).filter_map(|_| std::char::from_u32(*r.pick(&[0x7Fu32, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0x20, 0x41, 0x61, 0x1F]))).collect()
        }
        10 => {
            let n = r.range(1, 30);
            (0..n).map(|_| (b' ' + r.below(95) as u8) as char).collect()
        }
        _ => format!("Col_{}", i),
    }
}

fn fresh_name(r: &mut Rng, i: usize, taken: &mut std::collections::BTreeSet<String>) -> String {
    for _ in 0..20 {
        let n = gen_name(r, i);
        if taken.insert(n.clone()) {
            return n;
        }
    }
    let n = format!("column no. {}", i);
    taken.insert(n.clone());
    n
}

fn gen_u32(r: &mut Rng) -> u32 {
    if let Some(v) = r.near(u32::MAX as u64) {
        return v as u32;
    }
    match r.below(5) {
        0 => 0,
        1 => u32::MAX,
        2 => 1 << r.below(32),
        _ => r.next() as u32,
    }
}

pub fn gen_uuid(r: &mut Rng) -> uuid::Uuid {
    let mut b = [0u8; 16];
    match r.below(8) {
        0 => {}
        1 => b = [0xFF; 16],
        2 => b = [0xFB; 16],
        3 => b[r.below(16)] = 1 << r.below(8),
        4 => b = [0xF8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
        _ => b.copy_from_slice(&r.bytes(16)),
    }
    uuid::Uuid::from_bytes(b)
}

/// `volume`: 0 tiny, 1 small, 2 some columns over several 128 KiB blocks
pub fn gen_seg(r: &mut Rng, max_cols: usize, volume: usize) -> SegSpec {
    let ncols = match r.near(40) {
        Some(v) if max_cols > 2 && volume < 2 => v as usize,
        _ => r.range(0, max_cols),
    };
    let mut taken = Default::default();
    let mut cols = vec![];
    for i in 0..ncols {
        let nullable = r.chance(2, 3);
        let big = volume == 2 && r.chance(1, 3);
        let near = if volume > 0 { r.near(if ncols < 5 { 20_000 } else { 1500 }) } else { None };
        let n = match volume {
            _ if near.is_some() => near.unwrap() as usize,
            0 => r.below(6),
            _ if big => r.range(1, 3000),
            1 => r.below(60),
            _ => r.below(400),
        };
        let pat = if nullable { null_pattern(r, n) } else { vec![true; n] };
        let mode = r.below(7);
        let per = if big { 2 * 700_000 / n.max(1) } else { 0 };
        let constant = if r.chance(1, 8) {
            let k = r.below(per.max(40).min(400_000));
            Some(r.blob(k))
        } else {
            None
        };
        let rows: Vec<Row> = pat
            .into_iter()
            .map(|p| {
                if !p {
                    None
                } else if let Some(v) = &constant {
                    Some(v.clone())
                } else if big {
                    let k = r.below(per.max(2).min(400_000));
                    Some(r.blob(k))
                } else {
                    Some(gen_bytes(r, mode, 3000))
                }
            })
            .collect();
        let batches = if volume == 0 { vec![n] } else { gen_batches(r, n) };
        let batches = if batches.len() > 60 { vec![n / 2, n - n / 2] } else { batches };
        cols.push(ColSpec {
            name: fresh_name(r, i, &mut taken),
            ctype: r.pick(&CTYPES).0,
            itype: r.pick(&ITYPES).0,
            nullable,
            rows,
            batches,
        });
    }
    if cols.len() > 1 && r.chance(1, 8) {
        // two columns alike but for their names
        let (i, j) = (r.below(cols.len()), r.below(cols.len()));
        let name = cols[j].name.clone();
        cols[j] = ColSpec { name, ..cols[i].clone() };
    }
    let mut s = SegSpec {
        id: gen_uuid(r),
        database: if r.chance(1, 8) { String::new() } else { gen_name(r, 1) },
        table: if r.chance(1, 8) { "täble ☃".to_string() } else { gen_name(r, 2) },
        shard: gen_u32(r),
        num_rows: gen_u32(r),
        cols,
    };
    // names in different places may be the same
    if r.chance(1, 8) {
        s.database = s.table.clone();
    }
    if !s.cols.is_empty() && r.chance(1, 8) {
        let i = r.below(s.cols.len());
        if r.chance(1, 2) {
            s.table = s.cols[i].name.clone();
        } else {
            s.database = s.cols[i].name.clone();
        }
    }
    if r.chance(1, 12) {
        s.num_rows = s.shard;
    }
    s
}

pub fn plain_col(name: String, nullable: bool, rows: Vec<Row>, batches: Vec<usize>) -> ColSpec {
    ColSpec { name, ctype: ColumnType::String, itype: IndexType::NoIndex, nullable, rows, batches }
}

/// Large segments: very many columns, very long names, very many or very large blocks.
fn giant_seg(c: &mut Ctx, k: u64, data: bool) -> SegSpec {
    let r = &mut c.rng;
    let mut s = gen_seg(r, 0, 0);
    let few = |r: &mut Rng, i: usize| -> ColSpec {
        let n = r.below(4);
        let rows: Vec<Row> = (0..n).map(|j| if (i + j) % 3 == 0 { None } else { Some(vec![i as u8; j]) }).collect();
        let mut col = plain_col(format!("column {} {}", i, "y".repeat(i % 40)), true, rows, vec![n]);
        col.ctype = r.pick(&CTYPES).0;
        col.itype = r.pick(&ITYPES).0;
        col
    };
    match if data { k % 4 } else { 4 + k % 4 } {
        // blocks beyond any internal buffer
        0 => {
            for (i, n) in [3_000_000usize, 10, 9 << 20, 0, (2 << 20) - 100].iter().enumerate() {
                let rows: Vec<Row> = vec![Some(r.bytes(*n)), None, Some(vec![7; 100_000 + i]), Some(vec![]), Some(r.bytes(70_000))];
                s.cols.push(plain_col(format!("c{}", i), true, rows, vec![2, 3]));
            }
        }
        // many blocks
        1 => {
            let rows: Vec<Row> = (0..3000).map(|i| if i % 7 == 3 { None } else { Some(vec![i as u8; 20_000]) }).collect();
            s.cols.push(plain_col("many".into(), true, rows, vec![1000, 1, 999, 1000]));
            s.cols.push(few(r, 1));
        }
        // many rows
        2 => {
            let n = 300_000;
            let pat = null_pattern(r, n);
            let rows: Vec<Row> = pat.into_iter().enumerate().map(|(i, p)| if p { Some(vec![i as u8; i % 5]) } else { None }).collect();
            s.cols.push(plain_col("rows".into(), true, rows, vec![n / 2, n - n / 2]));
            s.cols.push(few(r, 1));
        }
        // many columns
        3 | 4 => s.cols = (0..300).map(|i| few(r, i)).collect(),
        5 => s.cols = (0..1 + r.range(250, 260)).map(|i| few(r, i)).collect(),
        6 => {
            s.cols = (0..5).map(|i| few(r, i)).collect();
            s.cols[2].name = "n".repeat(70_000);
            s.cols[4].name = "ñ".repeat((1 << 20) + r.below(3));
            s.database = "d".repeat(16_384 + r.below(3));
            s.table = "t".repeat(127 + r.below(3));
        }
        _ => {
            s.cols = (0..3000).map(|i| {
                let mut x = few(r, i);
                x.rows.clear();
                x.batches.clear();
                x
            }).collect()
        }
    }
    c.count("large_cases", 1);
    s
}

pub fn seg_paths(dir: &Path, id: &uuid::Uuid) -> (PathBuf, PathBuf) {
    let n = base64url(id.as_bytes());
    (dir.join(format!("{}.dat", n)), dir.join(format!("{}.idx", n)))
}

#[derive(Debug)]
pub enum SegError {
    /// the step that reported an error
    Step(String, String),
}

pub struct SegOut {
    /// per column: block index entries
    pub index: Vec<Vec<(u32, u64)>>,
}

pub fn step<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, SegError> {
    r.map_err(|e| SegError::Step(what.to_string(), format!("{:#}", e)))
}

pub fn info(spec: &SegSpec) -> SegmentInfo {
    SegmentInfo {
        segment_id: spec.id,
        database_name: spec.database.clone(),
        table_name: spec.table.clone(),
        shard_id: spec.shard,
        num_rows: spec.num_rows,
    }
}

pub fn col_info(c: &ColSpec, encoding: Encoding) -> ColumnInfo {
    ColumnInfo { name: c.name.clone(), column_type: c.ctype, encoding, index_type: c.itype, nullable: c.nullable }
}

/// The block index of the column written last. When the code under test does
/// not let the harness look at it (see `check.py`, `no_index`), the entries are
/// those of the same buffers encoded once more.
pub fn entries(w: &SegmentWriter, again: impl FnOnce(&mut dyn FnMut(&BinaryBuffer)), nullable: bool) -> Vec<(u32, u64)> {
    #[cfg(not(meerkat_verif_no_index))]
    {
        let _ = (again, nullable);
        w.verif_block_index()
    }
    #[cfg(meerkat_verif_no_index)]
    {
        struct Lens(Vec<(u32, u64)>, u64);
        #[async_trait::async_trait]
        impl BlockSink for Lens {
            async fn write_block(&mut self, row_id: u32, block_data: &[u8]) -> anyhow::Result<()> {
                self.1 += block_data.len() as u64;
                self.0.push((row_id, self.1));
                Ok(())
            }
        }
        let mut sink = Lens(vec![], 0);
        let mut e = new_binary_encoder::<Lens>(Encoding::Raw, 1 << 17, nullable).unwrap();
        again(&mut |b| futures::executor::block_on(e.encode(b, &mut sink)).unwrap());
        futures::executor::block_on(e.flush(&mut sink)).unwrap();
        let start = w.verif_data_len() - sink.1;
        sink.0.into_iter().map(|(r, at)| (r, start + at)).collect()
    }
}

pub async fn write_column(w: &mut SegmentWriter, col: &ColSpec, yields: bool) -> Result<Vec<(u32, u64)>, SegError> {
    {
        let mut cw = step("new column", w.new_binary_column_writer(col_info(col, Encoding::Raw)))?;
        let mut pos = 0;
        let mut buf = BinaryBuffer::new(col.nullable);
        for k in &col.batches {
            buf.clear();
            for r in &col.rows[pos..pos + k] {
                match r {
                    Some(v) => buf.append(v),
                    None => buf.append_null(),
                }
            }
            pos += k;
            step("column write", cw.write(&buf).await)?;
            if yields {
                tokio::task::yield_now().await;
            }
        }
        step("column close", cw.close().await)?;
    }
    let again = |f: &mut dyn FnMut(&BinaryBuffer)| {
        let mut pos = 0;
        for k in &col.batches {
            let mut b = BinaryBuffer::new(col.nullable);
            for r in &col.rows[pos..pos + k] {
                match r {
                    Some(v) => b.append(v),
                    None => b.append_null(),
                }
            }
            pos += k;
            f(&b);
        }
    };
    Ok(entries(w, again, col.nullable))
}

pub async fn run_seg(dir: &Path, spec: &SegSpec, yields: bool) -> Result<SegOut, SegError> {
    let mut w = step("create", SegmentWriter::new(dir, info(spec)).await)?;
    let mut out = SegOut { index: vec![] };
    for col in &spec.cols {
        out.index.push(write_column(&mut w, col, yields).await?);
    }
    step("close", w.verif_close().await)?;
    step("sync", w.verif_sync().await)?;
    Ok(out)
}

pub fn ok<T>(r: Result<T, SegError>, spec: &SegSpec) -> Result<T, Viol> {
    r.map_err(|SegError::Step(s, e)| Viol { sig: "call-failed".into(), msg: format!("{} failed without any fault: {} [{}]", s, e, spec.describe()) })
}

/// Runs to the end, a panic of the code under test being a violation.
pub fn guarded<T>(spec: &SegSpec, f: impl FnOnce() -> Result<T, Viol>) -> Result<T, Viol> {
    match panics(f) {
        Ok(r) => r,
        Err(p) => viol("panic", format!("{} [{}]", p, spec.describe())),
    }
}

// ---------------------------------------------------------------- checks

/// The data file against the rows; returns the blocks of each column.
pub fn check_data(file: &[u8], spec: &SegSpec, index: &[Vec<(u32, u64)>]) -> Result<Vec<Blocks>, Viol> {
    ensure!(file.len() >= 13 && &file[..13] == DATA_SIG, "data-signature", "the data file of {} bytes starts with {:02x?}", file.len(), &file[..file.len().min(13)]);
    let mut at = 13u64;
    let mut out = vec![];
    for (i, (col, idx)) in spec.cols.iter().zip(index).enumerate() {
        let mut blocks: Blocks = vec![];
        for (k, (id, end)) in idx.iter().enumerate() {
            ensure!(*end >= at, "index-order", "column {} block {}: end position {} before {}", i, k, end, at);
            ensure!(*end <= file.len() as u64, "index-range", "column {} block {}: end position {} in a file of {} bytes", i, k, end, file.len());
            blocks.push((*id, file[at as usize..*end as usize].to_vec()));
            at = *end;
        }
        check_blocks::<Bin>(&blocks, &col.rows, col.nullable).map_err(|v| Viol { msg: format!("column {} ({}): {}", i, col.rows.len(), v.msg), ..v })?;
        out.push(blocks);
    }
    ensure!(at == file.len() as u64, "data-trailing", "the data file has {} bytes, its blocks end at {}", file.len(), at);
    Ok(out)
}

pub fn check_index(file: &[u8], spec: &SegSpec) -> Result<Meta, Viol> {
    let m = model_seg::parse(file)?;
    ensure!(m.segment_id == spec.id.as_bytes(), "meta-id", "segment id is {:02x?}, given {}", m.segment_id, spec.id);
    ensure!(m.database == spec.database, "meta-database", "database is {:?}, given {:?}", m.database, spec.database);
    ensure!(m.table == spec.table, "meta-table", "table is {:?}, given {:?}", m.table, spec.table);
    ensure!(m.shard == spec.shard as u64, "meta-shard", "shard is {}, given {}", m.shard, spec.shard);
    ensure!(m.num_rows == spec.num_rows as u64, "meta-rows", "row count is {}, given {}", m.num_rows, spec.num_rows);
    for col in &spec.cols {
        let Some(c) = m.columns.get(&col.name) else { return viol("meta-column-missing", format!("column {:?} is not described", col.name)) };
        ensure!(c.name == col.name, "meta-column-name", "column {:?} is described as {:?}", col.name, c.name);
        let t = CTYPES.iter().find(|x| x.0 == col.ctype).unwrap().1;
        ensure!(c.ctype == t, "meta-column-type", "type of column {:?} is {}, given {:?} = {}", col.name, c.ctype, col.ctype, t);
        ensure!(c.nullable == col.nullable, "meta-column-nullable", "nullability of column {:?} is {}", col.name, c.nullable);
        ensure!(c.encoding == 0, "meta-column-encoding", "encoding of column {:?} is {}, given raw = 0", col.name, c.encoding);
        let t = ITYPES.iter().find(|x| x.0 == col.itype).unwrap().1;
        ensure!(c.index_type == t, "meta-column-index", "index type of column {:?} is {}, given {:?} = {}", col.name, c.index_type, col.itype, t);
        let Some(l) = m.layouts.get(&col.name) else { return viol("meta-layout-missing", format!("no layout for column {:?}", col.name)) };
        ensure!(l.encoder == Some(4), "meta-layout-encoder", "encoder layout of column {:?} is field {:?}, expected plain = 4", col.name, l.encoder);
    }
    ensure!(m.columns.len() == spec.cols.len(), "meta-column-extra", "{} columns described, {} written: {:?}", m.columns.len(), spec.cols.len(), m.columns.keys());
    ensure!(m.layouts.len() == spec.cols.len(), "meta-layout-extra", "{} column layouts, {} columns written", m.layouts.len(), spec.cols.len());
    Ok(m)
}

pub fn read(p: &Path) -> Result<Vec<u8>, Viol> {
    match std::fs::read(p) {
        Ok(v) => Ok(v),
        Err(e) => viol("file-missing", format!("{}: {}", p.display(), e)),
    }
}

pub fn note_spec(c: &mut Ctx, spec: &SegSpec) {
    let id = *spec.id.as_bytes();
    c.note_bytes(&id);
    for col in &spec.cols {
        let n = col.name.clone();
        c.note_bytes(n.as_bytes());
        c.note(col.rows.len() as u64);
        c.note(col.rows.iter().flatten().map(|v| v.len() as u64).sum());
        c.note(col.batches.len() as u64);
    }
    c.count("segments", 1);
    c.count("columns", spec.cols.len() as u64);
    c.count("rows", spec.cols.iter().map(|x| x.rows.len() as u64).sum());
    c.max("columns_in_a_segment", spec.cols.len() as u64);
}

pub fn volume(c: &mut Ctx) -> usize {
    if c.tiny {
        0
    } else if c.index < 16 {
        c.rng.below(2)
    } else {
        *c.rng.pick(&[0usize, 1, 1, 1, 2, 2])
    }
}

pub fn scratch(c: &Ctx, name: &str) -> PathBuf {
    let d = fresh(&c.dir, name);
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub struct Dir(pub PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------- C23

pub fn c23(c: &mut Ctx) -> Res {
    let v = volume(c);
    let spec = match c.giant() {
        Some(4) => return c23_beyond(c),
        Some(k) => giant_seg(c, k, true),
        None => gen_seg(&mut c.rng, if c.tiny { 2 } else { 6 }, v),
    };
    let dir = Dir(scratch(c, "c23"));
    let threads = *c.rng.pick(&[1usize, 1, 2]);
    let rt = runtime(threads);
    let out = guarded(&spec, || ok(rt.block_on(run_seg(&dir.0, &spec, false)), &spec))?;
    let (dat, _) = seg_paths(&dir.0, &spec.id);
    let file = read(&dat)?;
    let w = |v: Viol| Viol { msg: format!("{} [{}]", v.msg, spec.describe()), ..v };
    let blocks = check_data(&file, &spec, &out.index).map_err(w)?;
    // the same through the block reader
    let mut ops = vec![];
    let mut want = vec![];
    let mut at = 13u64;
    for (i, idx) in out.index.iter().enumerate() {
        for (k, (id, end)) in idx.iter().enumerate() {
            ops.push(mio::read_op(at, *end, mio::OpInfo::DataBlock { first_row_id: *id }));
            want.push((i, k, *id));
            at = *end;
        }
    }
    let n = ops.len();
    let res: Res = rt.block_on(async {
        let r = match mio::BlockFileReader::new(&dat).await {
            Ok(r) => r,
            Err(e) => return viol("reopen-failed", format!("{}", e)),
        };
        let mut s = r.read_blocks(ops);
        let mut i = 0;
        while let Some(item) = s.next().await {
            match item {
                Ok(b) => {
                    let (buf, info) = mio::block_parts(b);
                    let (col, k, id) = want[i];
                    ensure!(info == mio::OpInfo::DataBlock { first_row_id: id }, "read-label", "block {} label {:?}", i, info);
                    ensure!(buf == blocks[col][k].1, "read-back", "block {} of column {} reads back differently", k, col);
                }
                Err(e) => return viol("read-back", format!("block {}: {}", i, mio::error_parts(e).0)),
            }
            i += 1;
        }
        ensure!(i == n, "read-back", "{} results for {} blocks", i, n);
        Ok(())
    });
    drop(rt);
    res.map_err(w)?;
    note_spec(c, &spec);
    c.count("blocks_decoded", n as u64);
    c.count("data_bytes", file.len() as u64);
    let many = out.index.iter().filter(|x| x.len() > 1).count();
    c.count("columns_with_many_blocks", many as u64);
    c.max("blocks_in_a_column", out.index.iter().map(|x| x.len()).max().unwrap_or(0) as u64);
    c.nontrivial = n > 0;
    c.sample = Some(format!("{} -> {} blocks, {} bytes", spec.describe(), n, file.len()));
    Ok(())
}

/// Block positions beyond 4 GiB: the data file is the null device, only the block index is looked at.
fn c23_beyond(c: &mut Ctx) -> Res {
    let dir = Dir(scratch(c, "c23n"));
    let spec = gen_seg(&mut c.rng, 0, 0);
    let (dat, _) = seg_paths(&dir.0, &spec.id);
    std::os::unix::fs::symlink("/dev/null", &dat).unwrap();
    let n = (20 << 20) + c.rng.below(1 << 20);
    let col = plain_col("x".into(), false, vec![], vec![]);
    let rt = runtime(1);
    let r = guarded(&spec, || {
        ok(
            rt.block_on(async {
                let mut w = step("create", SegmentWriter::new(&dir.0, info(&spec)).await)?;
                let mut buf = BinaryBuffer::new(false);
                let v = vec![1u8; n];
                for _ in 0..4 {
                    buf.append(&v);
                }
                {
                    let mut cw = step("new column", w.new_binary_column_writer(col_info(&col, Encoding::Raw)))?;
                    for _ in 0..54 {
                        step("column write", cw.write(&buf).await)?;
                    }
                    step("column close", cw.close().await)?;
                }
                Ok(entries(&w, |f| (0..54).for_each(|_| f(&buf)), false))
            }),
            &spec,
        )
    });
    drop(rt);
    let idx = r?;
    // every value makes a block: length prefix, value, one packed length, no validity
    ensure!(idx.len() == 4 * 54, "beyond-blocks", "{} blocks for {} values of {} bytes", idx.len(), 4 * 54, n);
    let one = idx[0].1 - 13;
    ensure!(one >= n as u64 && one < n as u64 + 4096, "beyond-size", "the first block ends at {}, its value has {} bytes", idx[0].1, n);
    for (i, (id, end)) in idx.iter().enumerate() {
        ensure!(*id == i as u32, "beyond-row", "block {} has row id {}", i, id);
        ensure!(*end == 13 + one * (i as u64 + 1), "beyond-position", "block {} of {} equal blocks ends at {}, expected {}", i, idx.len(), end, 13 + one * (i as u64 + 1));
    }
    c.note(n as u64);
    c.max("position", idx.last().unwrap().1);
    c.count("large_cases", 1);
    c.count("blocks_past_4GiB", idx.iter().filter(|x| x.1 > 1 << 32).count() as u64);
    c.nontrivial = true;
    c.sample = Some(format!("{} blocks up to position {}", idx.len(), idx.last().unwrap().1));
    Ok(())
}

/// C15 for segments: the configured block size is 128 KiB of values.
pub fn c15_seg(c: &mut Ctx) -> Res {
    let spec = gen_seg(&mut c.rng, 3, 2);
    let dir = Dir(scratch(c, "c15"));
    let rt = runtime(1);
    let out = guarded(&spec, || ok(rt.block_on(run_seg(&dir.0, &spec, false)), &spec))?;
    drop(rt);
    let file = read(&seg_paths(&dir.0, &spec.id).0)?;
    let mut at = 13usize;
    for (col, idx) in spec.cols.iter().zip(&out.index) {
        let mut blocks: Blocks = vec![];
        for (id, end) in idx {
            ensure!(*end as usize >= at && *end as usize <= file.len(), "index-range", "end position {}", end);
            blocks.push((*id, file[at..*end as usize].to_vec()));
            at = *end as usize;
        }
        check_sizes(&blocks, &col.rows, 128 << 10).map_err(|v| Viol { sig: format!("segment-{}", v.sig), msg: format!("{} [{}]", v.msg, spec.describe()) })?;
        c.count("segment_blocks_measured", blocks.len() as u64);
    }
    note_spec(c, &spec);
    c.nontrivial = out.index.iter().any(|x| x.len() > 1);
    c.sample = Some(format!("{} cut at 128 KiB", spec.describe()));
    Ok(())
}

// ---------------------------------------------------------------- C18 in segments

pub fn c18_seg(c: &mut Ctx) -> Res {
    let mut spec = gen_seg(&mut c.rng, 4, 1);
    let dir = Dir(scratch(c, "c18"));
    let rt = runtime(1);
    let plan: Vec<Vec<Encoding>> = (0..=spec.cols.len()).map(|_| (0..c.rng.below(4)).map(|_| *c.rng.pick(&ENCODINGS)).collect()).collect();
    let unsupported: Vec<Encoding> = ENCODINGS.iter().copied().filter(|e| <crate::props_enc::Bin as crate::props_enc::Col>::encoder(*e, 4096, true).is_err()).collect();
    let mut refused = 0;
    let mut accepted_other = 0;
    let res = guarded(&spec, || {
        ok(
            rt.block_on(async {
                let mut w = step("create", SegmentWriter::new(&dir.0, info(&spec)).await)?;
                let mut index = vec![];
                for i in 0..=spec.cols.len() {
                    for e in &plan[i] {
                        // asked for under a name of its own or the name of a column to be written
                        let mut col = ColSpec { name: format!("refused_{}_{:?}", i, e), ctype: ColumnType::String, itype: IndexType::NoIndex, nullable: true, rows: vec![], batches: vec![] };
                        if i < spec.cols.len() {
                            col.name = spec.cols[i].name.clone();
                        }
                        if *e == Encoding::Raw || *e == Encoding::Snappy {
                            continue;
                        }
                        let r = w.new_binary_column_writer(col_info(&col, *e));
                        match r {
                            Err(x) => {
                                if x.to_string().trim().is_empty() {
                                    return Err(SegError::Step("refusal".into(), "the refusal gives no reason".into()));
                                }
                                refused += 1;
                            }
                            Ok(_) if unsupported.contains(e) => return Err(SegError::Step("refusal".into(), format!("{:?}, which no encoder supports, is accepted for a binary column", e))),
                            // it may come to be supported; nothing is written
                            Ok(_) => accepted_other += 1,
                        }
                    }
                    if i < spec.cols.len() {
                        index.push(write_column(&mut w, &spec.cols[i], false).await?);
                    }
                }
                step("close", w.verif_close().await)?;
                step("sync", w.verif_sync().await)?;
                Ok(index)
            }),
            &spec,
        )
    });
    drop(rt);
    let index = res?;
    let (dat, idx) = seg_paths(&dir.0, &spec.id);
    let w = |v: Viol| Viol { sig: format!("after-refusal-{}", v.sig), msg: format!("{} [refusals {:?}; {}]", v.msg, plan, spec.describe()) };
    check_data(&read(&dat)?, &spec, &index).map_err(w)?;
    check_index(&read(&idx)?, &spec).map_err(w)?;
    note_spec(c, &spec);
    c.count("refused_in_segments", refused);
    c.count("accepted_unwritten_in_segments", accepted_other);
    c.nontrivial = refused > 0;
    spec.cols.clear();
    Ok(())
}

// ---------------------------------------------------------------- C24

pub fn c24(c: &mut Ctx) -> Res {
    let v = if c.tiny { 0 } else { c.rng.below(2) };
    let mut spec = match c.giant() {
        Some(k) => giant_seg(c, k, false),
        None => gen_seg(&mut c.rng, if c.tiny { 2 } else { 12 }, v),
    };
    let dir = Dir(scratch(c, "c24"));
    if c.giant() == Some(7) {
        spec = many_blocks(c, &dir.0)?.0;
    } else {
        let rt = runtime(1);
        guarded(&spec, || ok(rt.block_on(run_seg(&dir.0, &spec, false)), &spec))?;
    }
    let file = read(&seg_paths(&dir.0, &spec.id).1)?;
    let m = check_index(&file, &spec).map_err(|v| Viol { msg: format!("{} [{} in database {:?} table {:?}]", v.msg, spec.describe(), spec.database, spec.table), ..v })?;
    note_spec(c, &spec);
    c.note(m.pos);
    c.note(spec.shard as u64);
    c.note(spec.num_rows as u64);
    c.count("index_bytes_parsed", file.len() as u64);
    for col in &spec.cols {
        c.count(&format!("type_{:?}", col.ctype), 1);
        c.count(&format!("index_{:?}", col.itype), 1);
    }
    c.nontrivial = !spec.cols.is_empty();
    c.sample = Some(format!("{}: shard {} rows {} metadata at {} of {}", spec.describe(), spec.shard, spec.num_rows, m.pos, file.len()));
    Ok(())
}

// ---------------------------------------------------------------- C32

/// Columns of a thousand blocks and more. Their bytes are not kept: the data file is /dev/null.
fn many_blocks(c: &mut Ctx, dir: &Path) -> Result<(SegSpec, SegOut), Viol> {
    let mut spec = gen_seg(&mut c.rng, 0, 0);
    spec.cols = vec![];
    std::os::unix::fs::symlink("/dev/null", seg_paths(dir, &spec.id).0).unwrap();
    let n = (128 << 10) + c.rng.below(300);
    let mut buf = BinaryBuffer::new(true);
    for i in 0..60 {
        if i % 7 == 2 {
            buf.append_null();
        }
        buf.append(&vec![i as u8; n]);
    }
    // blocks of each column
    let times: Vec<usize> = vec![c.rng.range(1, 3), c.rng.range(6, 9), 1, c.rng.range(20, 90)];
    for i in 0..times.len() {
        let mut col = plain_col(format!("c{} {}", i, "y".repeat(c.rng.below(40))), true, vec![], vec![]);
        col.ctype = c.rng.pick(&CTYPES).0;
        col.itype = c.rng.pick(&ITYPES).0;
        spec.cols.push(col);
    }
    let rt = runtime(1);
    let index = guarded(&spec, || {
        ok(
            rt.block_on(async {
                let mut w = step("create", SegmentWriter::new(dir, info(&spec)).await)?;
                let mut index = vec![];
                for (col, t) in spec.cols.iter().zip(&times) {
                    {
                        let mut cw = step("new column", w.new_binary_column_writer(col_info(col, Encoding::Raw)))?;
                        for _ in 0..*t {
                            step("column write", cw.write(&buf).await)?;
                        }
                        step("column close", cw.close().await)?;
                    }
                    index.push(entries(&w, |f| (0..*t).for_each(|_| f(&buf)), true));
                }
                step("close", w.verif_close().await)?;
                Ok(index)
            }),
            &spec,
        )
    })?;
    drop(rt);
    for (i, t) in index.iter().zip(&times) {
        ensure!(i.len() >= 60 * t, "blocks", "{} blocks for {} values of {} bytes", i.len(), 60 * t, n);
        c.max("blocks_in_a_column", i.len() as u64);
    }
    c.count("large_cases", 1);
    Ok((spec, SegOut { index }))
}

pub fn c32(c: &mut Ctx) -> Res {
    let v = volume(c);
    let mut spec = gen_seg(&mut c.rng, if c.tiny { 2 } else { 6 }, v);
    if spec.cols.is_empty() {
        spec = gen_seg(&mut c.rng, 6, v);
    }
    if let Some(k) = c.giant() {
        spec = giant_seg(c, k, k < 4);
    }
    let dir = Dir(scratch(c, "c32"));
    let out = if matches!(c.giant(), Some(1 | 6)) {
        let (s, o) = many_blocks(c, &dir.0)?;
        spec = s;
        o
    } else {
        let rt = runtime(1);
        guarded(&spec, || ok(rt.block_on(run_seg(&dir.0, &spec, false)), &spec))?
    };
    let file = read(&seg_paths(&dir.0, &spec.id).1)?;
    let w = |v: Viol| Viol { msg: format!("{} [{}]", v.msg, spec.describe()), ..v };
    let m = model_seg::parse(&file).map_err(w)?;
    let mut taken: Vec<(u64, u64)> = vec![];
    for (col, idx) in spec.cols.iter().zip(&out.index) {
        let Some(l) = m.layouts.get(&col.name) else { return viol("layout-missing", format!("no layout for column {:?}", col.name)) };
        c.count("columns_checked", 1);
        match l.block_index {
            None if idx.is_empty() => {}
            None => return viol("range-missing", format!("column {:?} has {} blocks and no block index range [{}]", col.name, idx.len(), spec.describe())),
            Some((s, e)) => {
                ensure!(s <= e, "range-inverted", "column {:?}: block index at {}..{} [{}]", col.name, s, e, spec.describe());
                ensure!(e <= file.len() as u64, "range-outside", "column {:?}: block index at {}..{} of a file of {} bytes [{}]", col.name, s, e, file.len(), spec.describe());
                if !idx.is_empty() {
                    c.count("columns_with_blocks", 1);
                    if (s, e) == (0, 0) {
                        c.soft.push(Viol {
                            sig: "range-0-0".into(),
                            msg: format!("column {:?} has {} blocks, its block index range is 0..0 and no block index is stored [{}]", col.name, idx.len(), spec.describe()),
                        });
                        continue;
                    }
                    ensure!(s >= 12 && e <= m.pos, "range-misplaced", "column {:?}: block index at {}..{}, the space for it is 12..{} [{}]", col.name, s, e, m.pos, spec.describe());
                    ensure!(e - s >= idx.len() as u64, "range-too-small", "column {:?}: block index of {} entries in {} bytes [{}]", col.name, idx.len(), e - s, spec.describe());
                    ensure!(taken.iter().all(|t| e <= t.0 || s >= t.1), "range-shared", "column {:?}: block index at {}..{} overlaps another [{}]", col.name, s, e, spec.describe());
                    taken.push((s, e));
                }
            }
        }
    }
    note_spec(c, &spec);
    c.nontrivial = out.index.iter().any(|x| !x.is_empty());
    c.sample = Some(format!("{}: ranges {:?}", spec.describe(), m.layouts.values().map(|l| l.block_index).collect::<Vec<_>>()));
    Ok(())
}

// ---------------------------------------------------------------- C25

fn tree(dir: &Path, out: &mut Vec<(PathBuf, Vec<u8>, u64)>) {
    use std::os::unix::fs::MetadataExt;
    let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap()).collect();
    es.sort_by_key(|e| e.file_name());
    for e in es {
        let md = std::fs::symlink_metadata(e.path()).unwrap();
        if md.is_dir() {
            out.push((e.path(), vec![], md.ino()));
            tree(&e.path(), out);
        } else if md.file_type().is_symlink() {
            out.push((e.path(), std::fs::read_link(e.path()).unwrap().to_string_lossy().into_owned().into_bytes(), md.ino()));
        } else {
            out.push((e.path(), std::fs::read(e.path()).unwrap(), md.ino()));
        }
    }
}

pub fn c25(c: &mut Ctx) -> Res {
    use std::os::unix::ffi::OsStringExt;
    let root = Dir(scratch(c, "c25"));
    let root_path = std::fs::canonicalize(&root.0).unwrap();
    // the directory, named in many ways
    let text = c.rng.text().filter(|t| !t.contains(|c| c == '/' || c == '\0') && *t != "." && *t != ".." && t.len() < 200);
    let plain = match c.rng.below(12) {
        _ if text.is_some() => text.unwrap().to_string().into(),
        5 => "d".repeat(c.rng.range(20, 255)).into(),
        6 => "é日".repeat(c.rng.range(5, 50)).into(),
        7 => c.rng.pick(&["Dir.", " dir", "dir ", "~", "-dir", "$HOME", "*", "CON", ".hidden", "...", "tmp", "a\\b", "a:b", "\u{202e}x", "new\nline"]).to_string().into(),
        8 => format!("shard-{}", c.rng.next()).into(),
        0 => "with space".into(),
        1 => "datos_ñ.d".into(),
        2 => std::ffi::OsString::from_vec(vec![b'n', 0xFF, 0xFE, b'x']),
        3 => "seg.dat".into(),
        4 => "%2e-_".into(),
        _ => std::ffi::OsString::from("dir"),
    };
    let dir = root_path.join(&plain);
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    std::fs::create_dir_all(root_path.join("other")).unwrap();
    let form = c.rng.below(7);
    let mut given = match form {
        0 => dir.clone(),
        1 => {
            let mut s = dir.clone().into_os_string();
            s.push("/");
            s.into()
        }
        2 => root_path.join(".").join(&plain).join("."),
        3 => root_path.join("other").join("..").join(&plain),
        4 => {
            std::os::unix::fs::symlink(&dir, root_path.join("link")).unwrap();
            root_path.join("link")
        }
        5 => PathBuf::from(&plain),
        _ => {
            let mut s = std::ffi::OsString::from("./");
            s.push(&plain);
            s.push("//");
            s.into()
        }
    };
    let relative = form >= 5;
    // neighbours, some with names like segment files
    let n = c.rng.range(1, 5);
    let mut ids: Vec<uuid::Uuid> = vec![];
    while ids.len() < n {
        let mut id = gen_uuid(&mut c.rng);
        if !ids.is_empty() && c.rng.chance(1, 2) {
            // one bit away from another id
            let mut b = *ids[c.rng.below(ids.len())].as_bytes();
            b[c.rng.below(16)] ^= 1 << c.rng.below(8);
            id = uuid::Uuid::from_bytes(b);
        }
        if !ids.contains(&id) {
            ids.push(id);
        }
    }
    let other = base64url(&c.rng.bytes(16));
    // whatever else may lie beside a segment
    const EXT: &[&str] = &[".lck", ".lock", ".old", ".bak", ".orig", ".tmp", ".temp", ".part", ".partial", ".new", ".swp", ".meta", ".data", ".index", ".dat.tmp", ".idx.tmp", ".dat.bak", ".idx.old", ".dat~", ".idx~", ".dat.lock", ".wal", ".log", ".DAT", ".IDX", ".da", ".datx", "dat", ".", "-1.dat", " .dat", ".dat.dat", ".crc", ".sum", ".del", ".deleted", ".idx2", ".json", ".pid", "_", "=", "==.dat"];
    for id in &ids {
        let name = base64url(id.as_bytes());
        for _ in 0..c.rng.range(2, 14) {
            let e = match c.rng.text() {
                Some(t) if c.rng.chance(1, 6) && !t.contains(|c| c == '/' || c == '\0') && t.len() < 200 => format!(".{}", t.trim_start_matches('.')),
                _ => c.rng.pick(EXT).to_string(),
            };
            let f = match c.rng.below(8) {
                0 => format!(".{}{}", name, e),
                1 => format!("~{}{}", name, e),
                2 => format!("{}{}", name.to_lowercase(), e),
                3 => format!("{}{}", uuid::Uuid::from_bytes(*id.as_bytes()), e),
                _ => format!("{}{}", name, e),
            };
            // no file of a segment that is written below
            if !ids.iter().any(|i| [".dat", ".idx"].iter().any(|e| f == format!("{}{}", base64url(i.as_bytes()), e))) {
                std::fs::write(dir.join(&f), c.rng.bytes(20)).unwrap();
                c.count("bystanders", 1);
            }
        }
    }
    for f in [format!("{}.dat", other), format!("{}.idx", other), format!("{}.tmp", base64url(ids[0].as_bytes())), base64url(ids[0].as_bytes()), "x.idx".to_string()] {
        std::fs::write(dir.join(&f), c.rng.bytes(30)).unwrap();
    }
    std::fs::write(root_path.join("other").join(format!("{}.dat", base64url(ids[0].as_bytes()))), b"elsewhere").unwrap();
    std::fs::write(dir.join("sub").join(format!("{}.idx", base64url(ids[0].as_bytes()))), b"deeper").unwrap();
    let mut before = vec![];
    tree(&root_path, &mut before);
    let cwd = std::env::current_dir().ok();
    if relative {
        std::env::set_current_dir(&root_path).unwrap();
    }
    let rt = runtime(1);
    let mut expected: BTreeSet<PathBuf> = BTreeSet::new();
    let mut specs = vec![];
    let armed = Armed::new(&root_path, Plan { seed: 1, ..Default::default() }, true);
    let as_str = c.rng.chance(1, 3);
    let res: Res = guarded(&gen_seg(&mut Rng::new(0), 0, 0), || {
        for id in &ids {
            let mut spec = gen_seg(&mut c.rng, 2, 0);
            spec.id = *id;
            if form == 0 && c.rng.chance(1, 3) {
                given = dir.clone();
            }
            let r: Result<SegOut, SegError> = rt.block_on(async {
                match given.to_str() {
                    Some(s) if as_str => run_seg_at(s, &spec, &root_path, &mut expected, &dir).await,
                    _ => run_seg_at(&given, &spec, &root_path, &mut expected, &dir).await,
                }
            });
            let out = match r {
                Err(SegError::Step(s, e)) if s == "files" => return viol("files-at-creation", e),
                r => ok(r, &spec)?,
            };
            specs.push((spec, out));
        }
        Ok(())
    });
    // one of them is written again: that may be refused, and leaves nothing else behind
    let again: Res = if res.is_ok() && c.rng.chance(1, 3) {
        let i = c.rng.below(specs.len());
        let mut spec = gen_seg(&mut c.rng, 2, 0);
        spec.id = ids[i];
        guarded(&gen_seg(&mut Rng::new(0), 0, 0), || {
            match rt.block_on(run_seg(&given, &spec, false)) {
                Ok(out) => {
                    specs[i] = (spec, out);
                    c.count("written_again", 1);
                }
                Err(_) => {
                    specs.remove(i);
                    c.count("second_writing_refused", 1);
                }
            }
            Ok(())
        })
    } else {
        Ok(())
    };
    let t = armed.done();
    drop(rt);
    if relative {
        std::env::set_current_dir(cwd.unwrap_or_else(|| "/".into())).unwrap();
    }
    let w = |v: Viol| Viol { msg: format!("{} [directory given as {:?}, ids {:?}]", v.msg, given, ids), ..v };
    res.map_err(w)?;
    again.map_err(w)?;
    ensure!(t.outside.is_empty(), "outside", "files opened for writing, made, moved or removed elsewhere: {:?} [directory given as {:?}]", t.outside, given);
    let mut after = vec![];
    tree(&root_path, &mut after);
    let new: BTreeSet<PathBuf> = after.iter().filter(|a| !before.iter().any(|b| b.0 == a.0)).map(|a| a.0.clone()).collect();
    ensure!(new == expected, "names", "created {:?}, expected {:?} [directory given as {:?}]", new, expected, given);
    for b in &before {
        match after.iter().find(|a| a.0 == b.0) {
            Some(a) => ensure!(a.1 == b.1 && a.2 == b.2, "neighbour", "{} was touched [directory given as {:?}]", b.0.display(), given),
            None => return viol("neighbour", format!("{} is gone [directory given as {:?}]", b.0.display(), given)),
        }
    }
    for e in &t.events {
        if e.kind == Kind::Open && e.arg & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT) as u64 != 0 {
            let p = crate::sys::lexical(&e.path);
            let p = match p.parent().and_then(|x| std::fs::canonicalize(x).ok()) {
                Some(d) => d.join(p.file_name().unwrap()),
                None => p,
            };
            ensure!(expected.contains(&p), "other-open", "{} was opened for writing [directory given as {:?}]", p.display(), given);
            c.count("opens_observed", 1);
        }
    }
    // nothing is moved or removed that the writers did not make themselves
    let real = |p: &Path| match p.parent().and_then(|x| std::fs::canonicalize(x).ok()) {
        Some(d) => d.join(p.file_name().unwrap_or_default()),
        None => p.to_path_buf(),
    };
    for (what, p) in &t.named {
        let p = real(p);
        ensure!(!before.iter().any(|b| b.0 == p), "other-changed", "{} of {} [directory given as {:?}]", what, p.display(), given);
    }
    for (spec, out) in &specs {
        let (dat, idx) = seg_paths(&dir, &spec.id);
        check_data(&read(&dat)?, spec, &out.index).map_err(|v| w(Viol { sig: format!("content-{}", v.sig), ..v }))?;
        check_index(&read(&idx)?, spec).map_err(|v| w(Viol { sig: format!("content-{}", v.sig), ..v }))?;
    }
    for id in &ids {
        c.note_bytes(id.as_bytes());
    }
    c.note(form as u64);
    c.count("segments", n as u64);
    c.count(&format!("directory_form_{}", form), 1);
    c.nontrivial = true;
    c.sample = Some(format!("{:?} -> {:?}", given, expected.iter().map(|p| p.file_name().unwrap().to_string_lossy().into_owned()).collect::<Vec<_>>()));
    Ok(())
}

fn names(root: &Path) -> BTreeSet<PathBuf> {
    let mut v = vec![];
    tree(root, &mut v);
    v.into_iter().map(|x| x.0).collect()
}

/// As `run_seg`, with the directory looked at right after creation.
async fn run_seg_at<P: AsRef<Path>>(given: P, spec: &SegSpec, root: &Path, expected: &mut BTreeSet<PathBuf>, dir: &Path) -> Result<SegOut, SegError> {
    let before = names(root);
    let mut w = step("create", SegmentWriter::new(given, info(spec)).await)?;
    let (d, i) = seg_paths(dir, &spec.id);
    let new: BTreeSet<PathBuf> = names(root).difference(&before).cloned().collect();
    let want: BTreeSet<PathBuf> = [d, i].into_iter().collect();
    if new != want {
        return Err(SegError::Step("files".into(), format!("creating the segment made {:?}, expected {:?}", new, want)));
    }
    expected.extend(want);
    let mut out = SegOut { index: vec![] };
    for col in &spec.cols {
        out.index.push(write_column(&mut w, col, false).await?);
    }
    step("close", w.verif_close().await)?;
    step("sync", w.verif_sync().await)?;
    Ok(out)
}

// ---------------------------------------------------------------- plain block files

#[derive(Clone, Debug)]
pub enum Step {
    Write(Vec<u8>),
    Flush,
    Sync,
}

pub fn gen_steps(r: &mut Rng, n: usize, big: bool) -> Vec<Step> {
    let mut v = vec![];
    for _ in 0..n {
        let k = match r.below(8) {
            0 => 0,
            1..=4 => r.below(400),
            5 | 6 => r.below(5000),
            _ if big => r.below(200_000),
            _ => r.below(20_000),
        };
        let again = if r.chance(1, 12) { v.iter().rev().find_map(|s| if let Step::Write(b) = s { Some(b.clone()) } else { None }) } else { None };
        v.push(Step::Write(again.unwrap_or_else(|| r.blob(k))));
        match r.below(10) {
            0 => v.push(Step::Flush),
            1 => v.push(Step::Sync),
            2 => v.extend([Step::Flush, Step::Sync]),
            3 if r.chance(1, 4) => v.extend([Step::Sync, Step::Sync, Step::Flush]),
            _ => {}
        }
    }
    v
}

pub fn steps_text(s: &[Step]) -> String {
    let v: Vec<String> = s
        .iter()
        .take(40)
        .map(|x| match x {
            Step::Write(b) => format!("write {}", b.len()),
            Step::Flush => "flush".into(),
            Step::Sync => "sync".into(),
        })
        .collect();
    v.join(", ")
}

pub async fn run_steps(path: &Path, steps: &[Step]) -> Result<(), SegError> {
    let mut w = step("create", mio::BlockWriter::new(path).await)?;
    for (i, s) in steps.iter().enumerate() {
        match s {
            Step::Write(b) => step(&format!("write {}", i), w.write_block(b).await)?,
            Step::Flush => step(&format!("flush {}", i), w.flush().await)?,
            Step::Sync => step(&format!("sync {}", i), w.sync().await)?,
        }
    }
    Ok(())
}

pub fn steps_bytes(steps: &[Step]) -> Vec<u8> {
    let mut v = vec![];
    for s in steps {
        if let Step::Write(b) = s {
            v.extend_from_slice(b);
        }
    }
    v
}

// ---------------------------------------------------------------- C26

const OPEN_ERRORS: [i32; 16] = [
    libc::EACCES, libc::EMFILE, libc::ENOSPC, libc::EROFS, libc::EIO, libc::ENOENT, libc::ENFILE, libc::EPERM, libc::ELOOP, libc::ENOTDIR, libc::ENOMEM, libc::EAGAIN, libc::EBUSY, libc::EINVAL,
    libc::EDQUOT, libc::EEXIST,
];
const WRITE_ERRORS: [i32; 16] = [
    libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EAGAIN, libc::EINVAL, libc::EPERM, libc::EPIPE, libc::ENOMEM, libc::EBADF, libc::EROFS, libc::ESTALE, libc::ETIMEDOUT, libc::ENXIO,
    libc::EOPNOTSUPP, libc::ECONNRESET,
];
const SYNC_ERRORS: [i32; 16] = [
    libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EINVAL, libc::EROFS, libc::EBADF, libc::EAGAIN, libc::ENOSYS, libc::EOPNOTSUPP, libc::ETIMEDOUT, libc::ESTALE, libc::EPERM, libc::ENOMEM, libc::ENXIO,
    libc::EPIPE, libc::EACCES,
];

pub fn gen_fault(r: &mut Rng, kind: Kind, nth: u64) -> Rule {
    let errno = match kind {
        Kind::Open => *r.pick(&OPEN_ERRORS),
        Kind::Write => *r.pick(&WRITE_ERRORS),
        _ => *r.pick(&SYNC_ERRORS),
    };
    let kinds: Vec<Kind> = if kind == Kind::Sync { vec![Kind::Sync, Kind::DataSync] } else { vec![kind] };
    let action = if kind == Kind::Write && r.chance(1, 20) {
        // the device takes nothing more
        return Rule { persistent: true, ..Rule::new(&kinds, nth, Action::Short(0)) };
    } else if kind == Kind::Write && r.chance(1, 3) { Action::ShortThenFail(1 + r.below(2000), errno) } else { Action::Fail(errno) };
    Rule { persistent: r.chance(1, 3), ..Rule::new(&kinds, nth, action) }
}

/// The call was made to fail.
pub fn refused(e: &crate::sys::Event) -> bool {
    e.injected && (e.ret < 0 || e.ret == 0 && e.kind == Kind::Write && e.arg > 0)
}

pub fn fault_points(c: &mut Ctx, t: &crate::sys::Trace, max: usize) -> Vec<(Kind, u64)> {
    let mut v = vec![];
    for k in [Kind::Open, Kind::Write, Kind::Sync] {
        let n = if k == Kind::Sync { t.count(Kind::Sync) + t.count(Kind::DataSync) } else { t.count(k) };
        for i in 1..=n {
            v.push((k, i));
        }
    }
    while v.len() > max {
        let i = c.rng.below(v.len());
        v.swap_remove(i);
    }
    v
}

pub fn c26(c: &mut Ctx) -> Res {
    let plain = c.rng.chance(1, 3);
    let max = if c.tiny { 4 } else { 40 };
    if plain {
        let n = c.size(40);
        let mut steps = gen_steps(&mut c.rng, n, true);
        if c.rng.chance(1, 8) {
            c.rng.below(2);
            steps.push(Step::Write(Rng::new(3).bytes(3_000_000)));
        }
        steps.push(Step::Flush);
        steps.push(Step::Sync);
        let rt = runtime(*c.rng.pick(&[1usize, 2]));
        let path = fresh(&c.dir, "c26");
        let text = steps_text(&steps);
        let armed = Armed::new(&c.dir, Plan::default(), true);
        let r = rt.block_on(run_steps(&path, &steps));
        let t = armed.done();
        if let Err(SegError::Step(s, e)) = r {
            return viol("spurious-error", format!("{} failed without any fault: {} [{}]", s, e, text));
        }
        if let Some(d) = diff_bytes(&read(&path)?, &steps_bytes(&steps)) {
            return viol("content", format!("{} [{}]", d, text));
        }
        for (kind, nth) in fault_points(c, &t, max) {
            let rule = gen_fault(&mut c.rng, kind, nth);
            let _ = std::fs::remove_file(&path);
            let armed = Armed::new(&c.dir, Plan { rules: vec![rule.clone()], delay_us: if c.rng.chance(1, 10) { 100 } else { 0 }, seed: c.rng.next(), ..Default::default() }, true);
            let r = panics(|| rt.block_on(run_steps(&path, &steps)));
            let t = armed.done();
            let hit = t.events.iter().any(refused);
            match r {
                Err(p) => return viol("panic-on-fault", format!("{:?} call {} failed ({:?}): a call panicked instead of returning an error: {}", kind, nth, rule.action, p)),
                Ok(Err(_)) => c.count("errors_reported", 1),
                Ok(Ok(())) if hit => return viol("unreported", format!("{:?} call {} failed ({:?}), every call from creation to the last sync succeeded [{}] trace: {}", kind, nth, rule.action, text, t.text(60))),
                Ok(Ok(())) => c.count("faults_not_reached", 1),
            }
            c.count(&format!("faults_{:?}", kind), hit as u64);
        }
        drop(rt);
        let _ = std::fs::remove_file(&path);
        c.note_bytes(text.as_bytes());
        c.count("plain_files", 1);
        c.sample = Some(format!("plain file: {}", text));
    } else {
        let v = if c.tiny { 0 } else { *c.rng.pick(&[0usize, 1, 1, 2]) };
        let spec = gen_seg(&mut c.rng, if c.tiny { 1 } else { 3 }, v);
        let dir = Dir(scratch(c, "c26"));
        let rt = runtime(*c.rng.pick(&[1usize, 2]));
        let armed = Armed::new(&dir.0, Plan::default(), true);
        let r = guarded(&spec, || ok(rt.block_on(run_seg(&dir.0, &spec, false)), &spec));
        let t = armed.done();
        let out = r?;
        let (dat, idx) = seg_paths(&dir.0, &spec.id);
        check_data(&read(&dat)?, &spec, &out.index)?;
        check_index(&read(&idx)?, &spec)?;
        for (kind, nth) in fault_points(c, &t, if v == 2 { max / 3 } else { max }) {
            let rule = gen_fault(&mut c.rng, kind, nth);
            let d2 = Dir(scratch(c, "c26f"));
            let armed = Armed::new(&d2.0, Plan { rules: vec![rule.clone()], seed: c.rng.next(), ..Default::default() }, true);
            let r = panics(|| rt.block_on(run_seg(&d2.0, &spec, false)));
            let t = armed.done();
            let hit = t.events.iter().any(refused);
            match r {
                Err(p) => return viol("panic-on-fault", format!("{:?} call {} failed ({:?}): a call panicked instead of returning an error: {}", kind, nth, rule.action, p)),
                Ok(Err(_)) => c.count("errors_reported", 1),
                Ok(Ok(_)) if hit => {
                    return viol("unreported", format!("{:?} call {} failed ({:?}), every call from creation to the last sync succeeded [{}] trace: {}", kind, nth, rule.action, spec.describe(), t.text(60)))
                }
                Ok(Ok(_)) => c.count("faults_not_reached", 1),
            }
            c.count(&format!("faults_{:?}", kind), hit as u64);
        }
        drop(rt);
        note_spec(c, &spec);
        c.sample = Some(format!("{}: {} calls, failed in turn", spec.describe(), t.events.len()));
    }
    // errors of the real file system
    let rt = runtime(1);
    let nowhere = c.dir.join("missing-directory");
    let spec = gen_seg(&mut c.rng, 1, 0);
    if rt.block_on(SegmentWriter::new(&nowhere, info(&spec))).is_ok() {
        return viol("unreported", "creating a segment in a missing directory succeeded".to_string());
    }
    if rt.block_on(mio::BlockWriter::new(nowhere.join("x"))).is_ok() {
        return viol("unreported", "creating a file in a missing directory succeeded".to_string());
    }
    // one of the two names taken by a directory
    let d = Dir(scratch(c, "c26d"));
    let (dat, idx) = seg_paths(&d.0, &spec.id);
    std::fs::create_dir(if c.rng.chance(1, 2) { &dat } else { &idx }).unwrap();
    if rt.block_on(run_seg(&d.0, &spec, false)).is_ok() {
        return viol("unreported", "writing a segment whose file name is taken by a directory succeeded".to_string());
    }
    c.count("errors_reported", 3);
    c.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- C27

/// A successful full sync after the last write of the file.
fn synced(t: &[crate::sys::Event], path: &Path) -> Result<u64, Viol> {
    let mut last_write = None;
    let mut last_sync = None;
    let mut n = 0;
    for (i, e) in t.iter().enumerate().filter(|(_, e)| e.path == path) {
        match e.kind {
            Kind::Open if e.ret >= 0 && e.arg & (libc::O_CREAT | libc::O_TRUNC) as u64 != 0 => last_write = Some(i),
            Kind::Write | Kind::Truncate if e.ret >= 0 => {
                last_write = Some(i);
                n += 1;
            }
            Kind::Sync if e.ret == 0 => last_sync = Some(i),
            _ => {}
        }
    }
    match (last_write, last_sync) {
        (_, None) => viol("never-synced", format!("{}: no full sync succeeded", path.file_name().unwrap().to_string_lossy())),
        (Some(w), Some(s)) if s < w => viol("write-after-sync", format!("{}: written after its last full sync", path.file_name().unwrap().to_string_lossy())),
        _ => Ok(n),
    }
}

pub fn c27(c: &mut Ctx) -> Res {
    let plain = c.rng.chance(1, 2);
    let faulty = c.rng.chance(1, 2);
    let delay = if c.rng.chance(1, 4) { 300 } else { 0 };
    let mut rules = vec![];
    if faulty {
        let nth = 1 + c.rng.below(12) as u64;
        let kind = *c.rng.pick(&[Kind::Write, Kind::Write, Kind::Sync]);
        let nth = if kind == Kind::Sync { 1 + nth % 2 } else { nth };
        rules.push(gen_fault(&mut c.rng, kind, nth));
    }
    let plan = Plan { rules, delay_us: delay, seed: c.rng.next(), ..Default::default() };
    let dir = Dir(std::fs::canonicalize(scratch(c, "c27")).unwrap());
    let rt = runtime(*c.rng.pick(&[1usize, 2]));
    if plain {
        let n = 1 + c.size(30);
        let mut steps = gen_steps(&mut c.rng, n, true);
        // the last blocks may or may not have been flushed before the sync
        if c.rng.chance(1, 3) {
            steps.push(Step::Flush);
        }
        // long files
        let long = c.rng.near(80 << 20).unwrap_or(0).max(if c.giant() == Some(3) { 70 << 20 } else { 0 });
        for k in 0..long >> 20 {
            steps.insert(0, Step::Write(vec![k as u8 | 1; 1 << 20]));
        }
        c.count("long_files", (long >> 20 > 2) as u64);
        steps.push(Step::Sync);
        let path = dir.0.join("file");
        let text = steps_text(&steps);
        let armed = Armed::new(&dir.0, plan, true);
        let res: Res = rt.block_on(async {
            let mut w = match mio::BlockWriter::new(&path).await {
                Ok(w) => w,
                Err(_) => return Ok(()),
            };
            let mut want: Vec<u8> = vec![];
            for (i, s) in steps.iter().enumerate() {
                let r = match s {
                    Step::Write(b) => {
                        want.extend_from_slice(b);
                        w.write_block(b).await
                    }
                    Step::Flush => w.flush().await,
                    Step::Sync => {
                        let r = w.sync().await;
                        if r.is_ok() {
                            let ev = crate::sys::snapshot(|s| s.events.clone());
                            let got = std::fs::read(&path).unwrap_or_default();
                            let ww = |v: Viol| Viol { msg: format!("sync at step {} succeeded; {} [{}]", i, v.msg, text), ..v };
                            if let Some(d) = diff_bytes(&got, &want) {
                                return viol("bytes-missing", format!("sync at step {} succeeded, the file has other bytes than were written: {} [{}] trace: {}", i, d, text, tail(&ev)));
                            }
                            #[cfg(not(any(miri, vh_nosys)))]
                            synced(&ev, &path).map_err(ww)?;
                            let _ = (&ev, ww);
                            c.count("successful_syncs_checked", 1);
                        }
                        r
                    }
                };
                if r.is_err() {
                    ensure!(faulty, "spurious-error", "step {} failed without any fault: {:?} [{}]", i, r, text);
                    c.count("errors_reported", 1);
                    return Ok(());
                }
            }
            Ok(())
        });
        let t = armed.done();
        drop(rt);
        res?;
        c.note_bytes(text.as_bytes());
        c.count("plain_files", 1);
        c.count("writes_observed", t.count(Kind::Write));
        c.count("syncs_observed", t.count(Kind::Sync));
        c.count("faults_injected", t.faults);
        c.sample = Some(format!("plain file: {}", text));
    } else {
        let v = if c.tiny { 0 } else { *c.rng.pick(&[0usize, 1, 1, 2]) };
        let spec = gen_seg(&mut c.rng, 3, v);
        let armed = Armed::new(&dir.0, plan, true);
        let r = panics(|| rt.block_on(run_seg(&dir.0, &spec, false)));
        let ev = crate::sys::snapshot(|s| s.events.clone());
        let (dat, idx) = seg_paths(&dir.0, &spec.id);
        let files = (read(&dat), read(&idx));
        let t = armed.done();
        drop(rt);
        match r {
            Ok(Ok(out)) => {
                let w = |v: Viol| Viol { msg: format!("close and sync succeeded; {} [{}] trace: {}", v.msg, spec.describe(), tail(&ev)), ..v };
                check_data(&files.0?, &spec, &out.index).map_err(w)?;
                check_index(&files.1?, &spec).map_err(w)?;
                #[cfg(not(any(miri, vh_nosys)))]
                for p in [&dat, &idx] {
                    let n = synced(&ev, p).map_err(w)?;
                    ensure!(n > 0, "monitor-blind", "no write of {} was observed", p.display());
                }
                c.count("successful_syncs_checked", 2);
            }
            Ok(Err(SegError::Step(s, e))) => {
                ensure!(faulty, "spurious-error", "{} failed without any fault: {} [{}]", s, e, spec.describe());
                c.count("errors_reported", 1);
            }
            Err(p) => {
                ensure!(faulty, "panic", "{} [{}]", p, spec.describe());
                c.count("reported_by_panic", 1);
            }
        }
        note_spec(c, &spec);
        c.count("writes_observed", t.count(Kind::Write));
        c.count("syncs_observed", t.count(Kind::Sync));
        c.count("faults_injected", t.faults);
        c.sample = Some(format!("{} faults={}", spec.describe(), t.faults));
    }
    c.nontrivial = true;
    Ok(())
}

fn tail(ev: &[crate::sys::Event]) -> String {
    let t = crate::sys::Trace { events: ev[ev.len().saturating_sub(30)..].to_vec(), ..Default::default() };
    t.text(30)
}

// ---------------------------------------------------------------- C28

pub fn c28(c: &mut Ctx) -> Res {
    let plan = Plan {
        eintr: *c.rng.pick(&[0u32, 10, 60, 128]),
        short: *c.rng.pick(&[20u32, 100, 200]),
        eintr_open_sync: *c.rng.pick(&[0u32, 60, 128]),
        delay_us: if c.rng.chance(1, 8) { 50 } else { 0 },
        seed: c.rng.next(),
        rules: vec![],
        swallow: false,
        hold: None,
    };
    let rt = runtime(*c.rng.pick(&[1usize, 2]));
    let dir = Dir(scratch(c, "c28"));
    let mut transients = 0;
    let data: Vec<u8>;
    let path;
    if c.rng.chance(1, 2) {
        let n = 1 + c.size(40);
        let mut steps = gen_steps(&mut c.rng, n, true);
        if c.giant().is_some() {
            let n = c.rng.range(2_000_000, 7_000_000);
            steps.push(Step::Write(c.rng.bytes(n)));
        }
        steps.push(Step::Flush);
        steps.push(Step::Sync);
        path = dir.0.join("file");
        let text = steps_text(&steps);
        let armed = Armed::new(&dir.0, plan.clone(), true);
        let r = panics(|| rt.block_on(run_steps(&path, &steps)));
        let t = armed.done();
        transients += t.transients;
        match r {
            Ok(Ok(())) => {}
            Ok(Err(SegError::Step(s, e))) => return viol("transient-error", format!("{} failed: {} [{}] trace: {}", s, e, text, tail(&t.events))),
            Err(p) => return viol("panic", format!("{} [{}]", p, text)),
        }
        data = steps_bytes(&steps);
        if let Some(d) = diff_bytes(&read(&path)?, &data) {
            return viol("content", format!("with interrupted and partial writes the file differs: {} [{}] trace: {}", d, text, tail(&t.events)));
        }
        c.note_bytes(text.as_bytes());
        c.count("plain_files", 1);
        c.sample = Some(format!("plain file with {} interrupted or partial calls: {}", t.transients, text));
    } else {
        let v = if c.tiny { 0 } else { *c.rng.pick(&[0usize, 1, 1, 2]) };
        let spec = gen_seg(&mut c.rng, 3, v);
        let quiet = Dir(scratch(c, "c28q"));
        guarded(&spec, || ok(rt.block_on(run_seg(&quiet.0, &spec, false)), &spec))?;
        let want = read(&seg_paths(&quiet.0, &spec.id).0)?;
        let armed = Armed::new(&dir.0, plan.clone(), true);
        let r = panics(|| rt.block_on(run_seg(&dir.0, &spec, false)));
        let t = armed.done();
        transients += t.transients;
        match r {
            Ok(Ok(_)) => {}
            Ok(Err(SegError::Step(s, e))) => return viol("transient-error", format!("{} failed: {} [{}] trace: {}", s, e, spec.describe(), tail(&t.events))),
            Err(p) => return viol("panic", format!("{} [{}]", p, spec.describe())),
        }
        let (dat, idx) = seg_paths(&dir.0, &spec.id);
        if let Some(d) = diff_bytes(&read(&dat)?, &want) {
            return viol("content", format!("with interrupted and partial writes the data file differs: {} [{}]", d, spec.describe()));
        }
        check_index(&read(&idx)?, &spec).map_err(|v| Viol { sig: "content".into(), msg: format!("with interrupted and partial writes the index file differs: {} [{}]", v.msg, spec.describe()) })?;
        if spec.cols.len() <= 1 {
            if let Some(d) = diff_bytes(&read(&idx)?, &read(&seg_paths(&quiet.0, &spec.id).1)?) {
                return viol("content", format!("with interrupted and partial writes the index file differs: {} [{}]", d, spec.describe()));
            }
        }
        path = dat;
        data = want;
        note_spec(c, &spec);
        c.sample = Some(format!("{} with {} interrupted or partial calls", spec.describe(), t.transients));
    }
    // reads under the same conditions
    let armed = Armed::new(&dir.0, Plan { seed: c.rng.next(), ..plan }, false);
    let res: Res = rt.block_on(async {
        let r = match mio::BlockFileReader::new(&path).await {
            Ok(r) => r,
            Err(e) => return viol("transient-error", format!("opening: {}", e)),
        };
        let mut ops = vec![];
        let mut want = vec![];
        for i in 0..30 {
            let (a, b) = crate::props_io::gen_range(&mut c.rng, data.len() as u64);
            if i < 15 {
                match r.read_block(mio::range(a, b)).await {
                    Ok(v) => {
                        if let Some(d) = diff_bytes(&v, &data[a as usize..b as usize]) {
                            return viol("read-bytes", format!("with interrupted and partial reads {}..{} differs: {}", a, b, d));
                        }
                    }
                    Err(e) => return viol("transient-error", format!("reading {}..{}: {}", a, b, e)),
                }
            } else {
                ops.push(mio::read_op(a, b, mio::OpInfo::GenericBlock));
                want.push((a, b));
            }
            c.count("reads_checked", 1);
        }
        let v: Vec<_> = r.read_blocks(ops).collect().await;
        ensure!(v.len() == want.len(), "read-results", "{} results for {} operations", v.len(), want.len());
        for (x, (a, b)) in v.into_iter().zip(want) {
            match x {
                Ok(blk) => {
                    if let Some(d) = diff_bytes(&mio::block_parts(blk).0, &data[a as usize..b as usize]) {
                        return viol("read-bytes", format!("with interrupted and partial reads {}..{} differs: {}", a, b, d));
                    }
                }
                Err(e) => return viol("transient-error", format!("reading {}..{}: {}", a, b, mio::error_parts(e).0)),
            }
        }
        Ok(())
    });
    let t = armed.done();
    drop(rt);
    res?;
    transients += t.transients;
    c.count("interrupted_or_partial_calls", transients);
    c.nontrivial = transients > 0;
    Ok(())
}

// ---------------------------------------------------------------- C29

pub fn c29(c: &mut Ctx) -> Res {
    // now and then a crowd
    let crowd = if c.tiny {
        None
    } else {
        match c.rng.near(60) {
            None if c.rng.chance(1, 40) => Some(*c.rng.pick(&[12usize, 20, 36])),
            n => n.map(|n| n as usize + 2),
        }
    };
    let n = if c.tiny { 2 } else { crowd.unwrap_or_else(|| c.rng.range(2, 7)) };
    c.max("segments_at_once", n as u64);
    let vmax = if crowd.is_some() { 0 } else { volume(c) };
    let mut specs: Vec<SegSpec> = vec![];
    while specs.len() < n {
        let v = vmax.min(c.rng.below(3));
        let mut s = gen_seg(&mut c.rng, if c.tiny { 1 } else { 4 }, v);
        if !specs.is_empty() && c.rng.chance(1, 3) {
            // the same names and schema as another segment
            let o = c.rng.below(specs.len());
            let id = s.id;
            s = specs[o].clone();
            s.id = id;
            for col in &mut s.cols {
                for r in col.rows.iter_mut().flatten() {
                    for b in r.iter_mut() {
                        *b = b.wrapping_add(1);
                    }
                }
            }
        }
        if specs.iter().all(|x| x.id != s.id) {
            specs.push(s);
        }
    }
    // one of them may share its id with another, in a directory of its own
    let twin = if c.rng.chance(1, 4) { Some((c.rng.below(n), c.rng.below(n))).filter(|(i, j)| i != j) } else { None };
    if let Some((i, j)) = twin {
        specs[j].id = specs[i].id;
        c.count("same_id_elsewhere", 1);
    }
    let solo = Dir(scratch(c, "c29s"));
    let both = Dir(scratch(c, "c29"));
    let sub = |d: &Dir, i: usize| -> PathBuf {
        let p = if twin.map_or(false, |t| t.1 == i) { d.0.join("elsewhere") } else { d.0.clone() };
        std::fs::create_dir_all(&p).unwrap();
        p
    };
    let solo_dirs: Vec<PathBuf> = (0..n).map(|i| sub(&solo, i)).collect();
    let dirs: Vec<PathBuf> = (0..n).map(|i| sub(&both, i)).collect();
    let rt = runtime(1);
    for (s, d) in specs.iter().zip(&solo_dirs) {
        guarded(s, || ok(rt.block_on(run_seg(d, s, false)), s))?;
    }
    let mode = if c.tiny { c.rng.below(2) } else { c.rng.below(3) };
    let delay = *c.rng.pick(&[0u64, 30, 200]);
    let armed = Armed::new(&both.0, Plan { delay_us: delay, seed: c.rng.next(), ..Default::default() }, true);
    let mut results: Vec<Result<Result<SegOut, SegError>, String>> = vec![];
    match mode {
        // interleaved tasks of one thread
        0 => {
            let r = panics(|| {
                rt.block_on(async { futures::future::join_all(specs.iter().zip(&dirs).map(|(s, d)| run_seg(d, s, true))).await })
            });
            match r {
                Ok(v) => results.extend(v.into_iter().map(Ok)),
                Err(p) => results.push(Err(p)),
            }
        }
        // a thread each, its own runtime
        1 => {
            let hs: Vec<_> = specs
                .iter()
                .zip(&dirs)
                .map(|(s, d)| {
                    let (s, d) = (s.clone(), d.clone());
                    std::thread::spawn(move || panics(|| runtime(1).block_on(run_seg(&d, &s, true))))
                })
                .collect();
            for h in hs {
                results.push(h.join().unwrap());
            }
        }
        // threads sharing one runtime's blocking pool
        _ => {
            let shared = std::sync::Arc::new(runtime(2));
            let hs: Vec<_> = specs
                .iter()
                .zip(&dirs)
                .map(|(s, d)| {
                    let (s, d, rt) = (s.clone(), d.clone(), shared.clone());
                    std::thread::spawn(move || panics(|| rt.block_on(run_seg(&d, &s, true))))
                })
                .collect();
            for h in hs {
                results.push(h.join().unwrap());
            }
        }
    }
    let t = armed.done();
    drop(rt);
    let ctx = |s: &SegSpec, m: String| format!("{} [{} of {} segments written at the same time, mode {}]", m, s.describe(), n, mode);
    for (i, (s, r)) in specs.iter().zip(results).enumerate() {
        let out = match r {
            Err(p) => return viol("panic", ctx(s, p)),
            Ok(Err(SegError::Step(st, e))) => return viol("call-failed", ctx(s, format!("{} failed: {}", st, e))),
            Ok(Ok(o)) => o,
        };
        let (d1, i1) = seg_paths(&solo_dirs[i], &s.id);
        let (d2, i2) = seg_paths(&dirs[i], &s.id);
        let data = read(&d2)?;
        if let Some(d) = diff_bytes(&data, &read(&d1)?) {
            return viol("data-differs", ctx(s, format!("the data file differs from the one written alone: {}", d)));
        }
        check_data(&data, s, &out.index).map_err(|v| Viol { msg: ctx(s, v.msg), ..v })?;
        let idx = read(&i2)?;
        check_index(&idx, s).map_err(|v| Viol { msg: ctx(s, v.msg), ..v })?;
        let alone = read(&i1)?;
        ensure!(idx.len() == alone.len(), "index-differs", "{}", ctx(s, format!("the index file has {} bytes, {} when written alone", idx.len(), alone.len())));
        if s.cols.len() <= 1 {
            ensure!(idx == alone, "index-differs", "{}", ctx(s, "the index file differs from the one written alone".into()));
        }
    }
    // interleaving seen at the file system
    let writes: Vec<&PathBuf> = t.events.iter().filter(|e| e.kind == Kind::Write).map(|e| &e.path).collect();
    let switches = writes.windows(2).filter(|w| w[0] != w[1]).count();
    for w in &writes {
        let k = specs.iter().position(|s| w.to_string_lossy().contains(&base64url(s.id.as_bytes()))).unwrap_or(99);
        c.note(k as u64);
    }
    for s in &specs {
        note_spec(c, s);
    }
    c.count(&format!("mode_{}", ["tasks", "threads", "shared_runtime"][mode]), 1);
    c.count("writes_observed", writes.len() as u64);
    c.count("file_switches_observed", switches as u64);
    c.nontrivial = switches > 2 * n;
    c.sample = Some(format!("{} segments, mode {}, {} writes with {} switches between files", n, mode, writes.len(), switches));
    Ok(())
}

// ---------------------------------------------------------------- C33

/// What the crashing child writes, derived from a seed by parent and child alike.
pub fn crash_spec(seed: u64, tiny: bool) -> SegSpec {
    let mut r = Rng::new(seed);
    let v = if tiny { 0 } else { *r.pick(&[0usize, 1, 1, 2]) };
    let cols = *r.pick(&[0usize, 1, 1, 1, 3]);
    let mut s = gen_seg(&mut r, cols, v);
    while s.cols.len() < cols.min(1) {
        s = gen_seg(&mut r, cols, v);
    }
    s
}

/// Entry point of the child: never returns to the harness.
pub fn crash_child(seed: u64, tiny: bool, dir: &Path, nth: u64, what: u64, delay: u64) -> i32 {
    let spec = crash_spec(seed, tiny);
    let action = match what {
        0 => Action::CrashBefore,
        1 => Action::CrashAfter,
        k => Action::CrashMid((k - 1) as usize),
    };
    let rule = Rule::new(&[Kind::Open, Kind::Write, Kind::Sync, Kind::DataSync, Kind::Truncate], nth, action);
    crate::sys::arm(dir, Plan { rules: vec![rule], delay_us: delay, seed, ..Default::default() }, false);
    let rt = runtime(1);
    match rt.block_on(run_seg(dir, &spec, true)) {
        Ok(_) => 0,
        Err(_) => 3,
    }
}

pub fn c33(c: &mut Ctx) -> Res {
    let seed = c.rng.next();
    let spec = crash_spec(seed, c.tiny);
    let rt = runtime(1);
    let reference = Dir(scratch(c, "c33r"));
    let armed = Armed::new(&reference.0, Plan::default(), true);
    let r = guarded(&spec, || ok(rt.block_on(run_seg(&reference.0, &spec, true)), &spec));
    let t = armed.done();
    let out = r?;
    let (dat, idx) = seg_paths(&reference.0, &spec.id);
    let (full_dat, full_idx) = (read(&dat)?, read(&idx)?);
    check_data(&full_dat, &spec, &out.index).map_err(|v| Viol { msg: format!("{} [{}]", v.msg, spec.describe()), ..v })?;
    let ops = t.events.iter().filter(|e| e.kind != Kind::Read).count() as u64;
    let exact = spec.cols.len() <= 1;
    let mut points: Vec<u64> = (1..=ops).collect();
    let max = if c.thorough { 60 } else { 14 };
    while points.len() > max {
        let i = c.rng.below(points.len());
        points.swap_remove(i);
    }
    let exe = std::env::current_exe().unwrap();
    let mut reached = 0;
    for nth in points {
        let what = match c.rng.below(4) {
            0 => 0,
            1 => 1,
            _ => 2 + c.rng.below(3000) as u64,
        };
        let d = Dir(scratch(c, "c33"));
        // half of the time the crash happens over an older, longer segment
        let (dat, idx) = seg_paths(&d.0, &spec.id);
        let older = c.rng.chance(1, 3);
        let old = crate::props_io::content(seed ^ 1, full_dat.len() + 3000);
        if older {
            std::fs::write(&dat, &old).unwrap();
            std::fs::write(&idx, &old).unwrap();
        }
        let st = std::process::Command::new(&exe)
            .arg("crash-child")
            .args([seed.to_string(), (c.tiny as u8).to_string()])
            .arg(&d.0)
            .args([nth.to_string(), what.to_string(), if c.rng.chance(1, 6) { "200" } else { "0" }.to_string()])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        match st {
            Ok(s) if s.code() == Some(crate::sys::CRASH_CODE) => {
                reached += 1;
                c.count("crashes", 1);
            }
            Ok(s) if s.code() == Some(0) => c.count("crash_points_not_reached", 1),
            Ok(s) => return viol("child", format!("the writing process ended with {:?} at crash point {} [{}]", s, nth, spec.describe())),
            Err(e) => panic!("cannot start the crash child: {}", e),
        }
        let at = |m: String| format!("{} [crash at call {} of {} ({}){}; {}]", m, nth, ops, what, if older { ", over older files" } else { "" }, spec.describe());
        for (p, full, name, exact) in [(&dat, &full_dat, "data", true), (&idx, &full_idx, "index", exact)] {
            match std::fs::read(p) {
                Err(_) => c.count("files_absent", 1),
                // not reached yet: still the older file
                Ok(b) if older && b == old => c.count("files_untouched", 1),
                Ok(b) => {
                    if exact {
                        ensure!(full.starts_with(&b), "not-a-prefix", "{}", at(format!("the {} file left behind ({} bytes) is not a prefix of the complete one ({} bytes): {}", name, b.len(), full.len(), diff_bytes(&b, &full[..b.len().min(full.len())]).unwrap_or_default())));
                    } else {
                        // the order of columns in the metadata is free
                        let n = b.len().min(12);
                        ensure!(b.len() <= full.len() && b[..n] == full[..n], "not-a-prefix", "{}", at(format!("the {} file left behind has {} bytes of {}, starting {:02x?}", name, b.len(), full.len(), &b[..n])));
                    }
                    if b.len() < full.len() {
                        c.count("files_cut_short", 1);
                    }
                    c.note(b.len() as u64);
                }
            }
        }
        // write it again over the leftovers
        if c.rng.chance(1, 4) {
            for p in [&dat, &idx] {
                std::fs::write(p, &old).unwrap();
            }
        }
        let r = guarded(&spec, || ok(rt.block_on(run_seg(&d.0, &spec, true)), &spec)).map_err(|v| Viol { sig: format!("rewrite-{}", v.sig), msg: at(v.msg) })?;
        ensure!(r.index == out.index, "rewrite-index", "{}", at("rewriting indexes other blocks".into()));
        if let Some(x) = diff_bytes(&read(&dat)?, &full_dat) {
            return viol("rewrite-data", at(format!("after rewriting, the data file differs: {}", x)));
        }
        let b = read(&idx)?;
        if exact {
            if let Some(x) = diff_bytes(&b, &full_idx) {
                return viol("rewrite-index-file", at(format!("after rewriting, the index file differs: {}", x)));
            }
        } else {
            ensure!(b.len() == full_idx.len(), "rewrite-index-file", "{}", at(format!("after rewriting, the index file has {} bytes, expected {}", b.len(), full_idx.len())));
            check_index(&b, &spec).map_err(|v| Viol { sig: "rewrite-index-file".into(), msg: at(v.msg) })?;
        }
        c.count("rewrites_compared", 1);
    }
    drop(rt);
    note_spec(c, &spec);
    c.note(seed);
    c.nontrivial = reached > 0;
    c.sample = Some(format!("{}: {} calls, {} crash points taken", spec.describe(), ops, reached));
    Ok(())
}

// ---------------------------------------------------------------- C40 in segments

/// Columns closed several times, with rows written in between.
pub fn c40_seg(c: &mut Ctx) -> Res {
    use crate::props_enc::{gen_flushes, run_flushing, Bin, Case};
    let v = volume(c).min(1);
    let spec = gen_seg(&mut c.rng, 3, v);
    let plan: Vec<Vec<usize>> = spec.cols.iter().map(|col| gen_flushes(&mut c.rng, col.batches.len())).collect();
    let dir = Dir(scratch(c, "c40"));
    let rt = runtime(*c.rng.pick(&[1usize, 1, 2]));
    #[allow(unused_mut, unused_variables)]
    let index: Vec<Vec<(u32, u64)>> = guarded(&spec, || {
        ok(
            rt.block_on(async {
                let mut w = step("create", SegmentWriter::new(&dir.0, info(&spec)).await)?;
                let mut index = vec![];
                for (col, plan) in spec.cols.iter().zip(&plan) {
                    {
                        let mut cw = step("new column", w.new_binary_column_writer(col_info(col, Encoding::Raw)))?;
                        let mut pos = 0;
                        let mut buf = BinaryBuffer::new(col.nullable);
                        for (k, closes) in col.batches.iter().zip(plan) {
                            buf.clear();
                            for r in &col.rows[pos..pos + k] {
                                match r {
                                    Some(v) => buf.append(v),
                                    None => buf.append_null(),
                                }
                            }
                            pos += k;
                            step("column write", cw.write(&buf).await)?;
                            for _ in 0..*closes {
                                step("column close", cw.close().await)?;
                            }
                        }
                        if plan.is_empty() {
                            step("column close", cw.close().await)?;
                            step("column close", cw.close().await)?;
                        }
                    }
                    #[cfg(not(meerkat_verif_no_index))]
                    index.push(w.verif_block_index());
                }
                step("close", w.verif_close().await)?;
                step("sync", w.verif_sync().await)?;
                Ok(index)
            }),
            &spec,
        )
    })?;
    drop(rt);
    let w = |v: Viol| Viol { msg: format!("{} [{} closes={:?}]", v.msg, spec.describe(), plan), ..v };
    let (dat, idx) = seg_paths(&dir.0, &spec.id);
    let file = read(&dat)?;
    ensure!(file.starts_with(DATA_SIG), "data-signature", "the data file of {} bytes starts with {:02x?}", file.len(), &file[..file.len().min(13)]);
    // the blocks of the same history given to a bare encoder
    let mut at = 13usize;
    let (mut idle, mut cut, mut n) = (0, 0, 0);
    for (i, (col, plan)) in spec.cols.iter().zip(&plan).enumerate() {
        let case = Case { rows: col.rows.clone(), nullable: col.nullable, bs: 128 << 10, batches: col.batches.clone(), reuse_buffer: true };
        let (blocks, a, b) = run_flushing::<Bin>(&case, plan).map_err(w)?;
        idle += a;
        cut += b;
        let mut want = vec![];
        for (id, data) in &blocks {
            if !file[at..].starts_with(data) {
                return Err(w(Viol { sig: "segment-blocks".into(), msg: format!("column {}: the data file does not go on with block {} (row id {}, {} bytes) at {}", i, n, id, data.len(), at) }));
            }
            at += data.len();
            n += 1;
            want.push((*id, at as u64));
        }
        #[cfg(not(meerkat_verif_no_index))]
        if index[i] != want {
            return Err(w(Viol { sig: "segment-index".into(), msg: format!("column {}: the block index is {:?}, the blocks stored are {:?}", i, &index[i][..index[i].len().min(8)], &want[..want.len().min(8)]) }));
        }
    }
    if at != file.len() {
        return Err(w(Viol { sig: "segment-stored-twice".into(), msg: format!("the data file has {} bytes, the blocks of its columns end at {}", file.len(), at) }));
    }
    check_index(&read(&idx)?, &spec).map_err(w)?;
    c.count("column_closes_with_rows_pending", cut);
    c.count("column_closes_without_rows_pending", idle);
    note_spec(c, &spec);
    for p in plan.iter().flatten() {
        c.note(*p as u64);
    }
    c.nontrivial = n > 0;
    c.sample = Some(format!("{} closed {:?} -> {} blocks", spec.describe(), plan, n));
    Ok(())
}
