//! C12-C18: column encoders against the rows written to them.
use crate::ctx::*;
use crate::ensure;
use crate::model;
use crate::props_buf::{check_binary, check_primitive, gen_bytes, null_pattern, short, Num};
use meerkat::store::verif::*;

pub type Row = Option<Vec<u8>>;
pub type Blocks = Vec<(u32, Vec<u8>)>;

// ---------------------------------------------------------------- sink

/// Records blocks; can fail the k-th write and stops runaway encoders.
pub struct Sink {
    pub blocks: Blocks,
    pub limit: usize,
    pub fail_at: Option<(usize, u64)>,
    pub attempts: usize,
    pub after_failure: usize,
    pub failed: bool,
    pub runaway: bool,
}

impl Sink {
    pub fn new(limit: usize) -> Self {
        Sink { blocks: vec![], limit, fail_at: None, attempts: 0, after_failure: 0, failed: false, runaway: false }
    }
}

#[async_trait::async_trait]
impl BlockSink for Sink {
    async fn write_block(&mut self, row_id: u32, block_data: &[u8]) -> anyhow::Result<()> {
        self.attempts += 1;
        if self.runaway || self.blocks.len() >= self.limit {
            self.runaway = true;
            panic!("the encoder emitted more than {} blocks", self.limit);
        }
        if self.failed {
            self.after_failure += 1;
        }
        if let Some((k, tag)) = self.fail_at {
            if self.attempts == k {
                self.failed = true;
                return Err(anyhow::anyhow!("injected-block-failure-{}", tag));
            }
        }
        self.blocks.push((row_id, block_data.to_vec()));
        Ok(())
    }
}

// ---------------------------------------------------------------- columns

pub trait Col: 'static {
    type Buf: Send + Sync;
    const NAME: &'static str;
    const NUMERIC: bool;
    fn buf(nullable: bool) -> Self::Buf;
    fn push(b: &mut Self::Buf, row: &Row);
    fn clear(b: &mut Self::Buf);
    fn encoder(e: Encoding, bs: u32, nullable: bool) -> anyhow::Result<Box<dyn BlockEncoder<Self::Buf, Sink>>>;
    fn value(r: &mut Rng, mode: usize, cap: usize) -> Vec<u8>;
    fn check_buf(b: &Self::Buf, rows: &[Row], nullable: bool, what: &str) -> Res;
    fn check_block(block: &[u8], rows: &[Row], nullable: bool) -> Result<usize, Viol>;
}

pub struct I32;
pub struct I64;
pub struct U64;
pub struct F64;
pub struct Bin;

macro_rules! numcol {
    ($c:ident, $t:ty, $n:expr, $new:ident) => {
        impl Col for $c {
            type Buf = PrimitiveBuffer<$t>;
            const NAME: &'static str = $n;
            const NUMERIC: bool = true;
            fn buf(nullable: bool) -> Self::Buf {
                PrimitiveBuffer::new(nullable)
            }
            fn push(b: &mut Self::Buf, row: &Row) {
                match row {
                    Some(v) => b.append(<$t>::from_le_bytes(v.as_slice().try_into().unwrap())),
                    None => b.append_null(),
                }
            }
            fn clear(b: &mut Self::Buf) {
                b.clear()
            }
            fn encoder(e: Encoding, bs: u32, nullable: bool) -> anyhow::Result<Box<dyn BlockEncoder<Self::Buf, Sink>>> {
                $new(e, bs as usize, nullable)
            }
            fn value(r: &mut Rng, _mode: usize, _cap: usize) -> Vec<u8> {
                Num::le(&<$t as Num>::gen(r))
            }
            fn check_buf(b: &Self::Buf, rows: &[Row], nullable: bool, what: &str) -> Res {
                let m: Vec<Option<$t>> = rows.iter().map(|r| r.as_ref().map(|v| <$t>::from_le_bytes(v.as_slice().try_into().unwrap()))).collect();
                check_primitive(b, &m, nullable, what)
            }
            fn check_block(block: &[u8], rows: &[Row], nullable: bool) -> Result<usize, Viol> {
                model::check_primitive_block(block, rows, nullable)
            }
        }
    };
}
numcol!(I32, i32, "i32", new_i32_encoder);
numcol!(I64, i64, "i64", new_i64_encoder);
numcol!(U64, u64, "u64", new_u64_encoder);
numcol!(F64, f64, "f64", new_f64_encoder);

impl Col for Bin {
    type Buf = BinaryBuffer;
    const NAME: &'static str = "binary";
    const NUMERIC: bool = false;
    fn buf(nullable: bool) -> Self::Buf {
        BinaryBuffer::new(nullable)
    }
    fn push(b: &mut Self::Buf, row: &Row) {
        match row {
            Some(v) => b.append(v),
            None => b.append_null(),
        }
    }
    fn clear(b: &mut Self::Buf) {
        b.clear()
    }
    fn encoder(e: Encoding, bs: u32, nullable: bool) -> anyhow::Result<Box<dyn BlockEncoder<Self::Buf, Sink>>> {
        new_binary_encoder(e, bs, nullable)
    }
    fn value(r: &mut Rng, mode: usize, cap: usize) -> Vec<u8> {
        gen_bytes(r, mode, cap)
    }
    fn check_buf(b: &Self::Buf, rows: &[Row], nullable: bool, what: &str) -> Res {
        check_binary(b, rows, nullable, what)
    }
    fn check_block(block: &[u8], rows: &[Row], nullable: bool) -> Result<usize, Viol> {
        model::check_binary_block(block, rows, nullable)
    }
}

macro_rules! any_col {
    ($r:expr, $f:ident, $($a:expr),*) => {
        match $r {
            0 => $f::<I32>($($a),*),
            1 => $f::<I64>($($a),*),
            2 => $f::<U64>($($a),*),
            3 => $f::<F64>($($a),*),
            _ => $f::<Bin>($($a),*),
        }
    };
}

// ---------------------------------------------------------------- cases

pub struct Case {
    pub rows: Vec<Row>,
    pub nullable: bool,
    pub bs: u32,
    /// lengths of the successive buffers
    pub batches: Vec<usize>,
    pub reuse_buffer: bool,
}

impl Case {
    pub fn describe(&self, name: &str) -> String {
        let vals = self.rows.iter().flatten().count();
        let mut s = format!(
            "{} nullable={} block_size={} rows={} ({} values) buffers={}",
            name,
            self.nullable,
            self.bs,
            self.rows.len(),
            vals,
            self.batches.len()
        );
        if self.rows.len() <= 24 {
            let r: Vec<String> = self
                .rows
                .iter()
                .map(|r| match r {
                    None => "null".to_string(),
                    Some(v) if v.len() <= 8 => format!("{:02x?}", v).replace(", ", ""),
                    Some(v) => format!("{}B", v.len()),
                })
                .collect();
            s += &format!(" rows=[{}]", r.join(" "));
        }
        if self.batches.len() <= 24 {
            s += &format!(" buffer_rows={:?}", self.batches);
        }
        s
    }
}

/// Splits `n` rows into successive buffers.
pub fn gen_batches(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![];
    if let Some(k) = r.near(n as u64) {
        // the same number of rows again and again, or once
        let k = (k as usize).max(1 + n / 3000);
        let mut left = n;
        while left > 0 {
            v.push(k.min(left));
            left -= k.min(left);
        }
        if r.chance(1, 2) && v.len() > 1 {
            v = vec![k, n - k];
        }
        return v;
    }
    match r.below(6) {
        0 => v.push(n),
        1 if n <= 3000 => v.resize(n, 1),
        2 => {
            let k = r.range(1, 9);
            let mut left = n;
            while left > 0 {
                v.push(k.min(left));
                left -= k.min(left);
            }
        }
        3 => {
            // halves with empties around
            let k = r.range(0, n);
            v.extend([0, k, 0, n - k, 0]);
        }
        _ => {
            let mut left = n;
            let big = r.range(1, 60).max(n / 40);
            while left > 0 {
                let k = match r.below(8) {
                    0 => 0,
                    1 | 2 => 1,
                    3 => r.range(1, 5),
                    _ => r.range(1, big),
                }
                .min(left);
                v.push(k);
                left -= k;
            }
        }
    }
    if r.chance(1, 6) {
        v.insert(0, 0);
    }
    if r.chance(1, 6) {
        v.push(0);
    }
    v
}

pub const BLOCK_SIZES: [u32; 19] = [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 31, 64, 100, 127, 128, 1000, 4096, 65536, 1 << 17];

/// Large columns: many blocks, many rows in a block, blocks of megabytes, very long values.
fn giant_case<C: Col>(c: &mut Ctx, k: u64) -> Case {
    let wide = if C::NUMERIC { 8 } else { 12 };
    let scale = if c.thorough { 1 + c.rng.below(10) } else { 1 + c.rng.below(3) };
    let scale = if k == 7 && !C::NUMERIC { scale.min(3) } else { scale };
    let nullable = k % 4 != 3;
    // rows, block size
    let (n, bs) = match k {
        0 => (70_000 * scale, 1),
        1 => (140_000 * scale, 9),
        2 => (270_000 * scale, 1 << 22),
        3 => (200_000 * scale, 70_000),
        4 => (66_000 * scale, 5),
        5 => (600_000 * scale, 1 << 17),
        6 => (270_000, 1 << 21),
        // blocks of 16 MiB
        _ if C::NUMERIC => ((1 << 21) + 100 + c.rng.below(60_000), (1 << 24) + c.rng.below(9)),
        _ => (300, 1 << 20),
    };
    let pat = if !nullable {
        vec![true; n]
    } else if k == 5 {
        // few values among very many nulls: validity spans many bytes of one block
        (0..n).map(|i| i % 70_000 == 69_999 || i % 5000 < 3).collect()
    } else {
        null_pattern(&mut c.rng, n)
    };
    let mut budget = 160usize << 20;
    // one value of 256 MiB: its length takes five bytes
    let longest = c.index == 87 || (c.thorough && c.index % 8192 == 2055);
    if longest && !C::NUMERIC {
        budget = (420 << 20) - 1;
        c.count("values_of_256_MiB", 1);
    }
    let rows: Vec<Row> = pat
        .iter()
        .enumerate()
        .map(|(i, p)| {
            if !*p {
                None
            } else if !C::NUMERIC && k == 7 {
                // around the lengths at which size fields grow
                let m = match i % 100 {
                    7 => 1 << 21,
                    23 => (1 << 21) - 1,
                    25 if longest && i < 100 => (1 << 28) + 3,
                    31 => (1 << 24) + 5,
                    60 if scale > 1 || i < 100 => (1 << 25) + 77,
                    x if x % 3 == 0 => c.rng.below(70_000),
                    _ => c.rng.below(40),
                };
                let m = m.min(budget);
                budget -= m;
                Some(vec![i as u8 ^ 0x5A; m])
            } else if !C::NUMERIC {
                let m = c.rng.below(wide + 4);
                Some(c.rng.bytes(m))
            } else {
                Some(C::value(&mut c.rng, 0, wide))
            }
        })
        .collect();
    let batches = match c.rng.below(3) {
        0 => vec![n],
        1 => vec![n / 3, n / 7, n - n / 3 - n / 7],
        _ => {
            let s = 1 + c.rng.below(n / 4 + 1);
            let mut v = vec![s; n / s];
            v.push(n % s);
            v
        }
    };
    c.note(n as u64);
    c.note(bs as u64);
    c.note(k);
    for r in rows.iter().take(64) {
        c.note(r.as_ref().map_or(0, |v| 1 + v.iter().map(|b| *b as u64).sum::<u64>()));
    }
    c.count("large_cases", 1);
    Case { rows, nullable, bs: bs as u32, batches, reuse_buffer: c.rng.chance(1, 2) }
}

pub fn gen_case<C: Col>(c: &mut Ctx, max_rows: usize) -> Case {
    if let (Some(k), true) = (c.giant(), max_rows >= 5_000) {
        return giant_case::<C>(c, k);
    }
    let nullable = c.rng.chance(4, 5);
    let bs = if let Some(v) = c.rng.near(4 << 20) { (v as u32).max(1) } else if c.rng.chance(1, 6) { 1 + c.rng.below(300) as u32 } else { *c.rng.pick(&BLOCK_SIZES) };
    let n = c.size(max_rows);
    let pat = if nullable { null_pattern(&mut c.rng, n) } else { vec![true; n] };
    let mode = c.rng.below(8);
    // keep the number of bytes bounded, but let some values outgrow the block
    let cap = if n <= 64 { 300_000 } else { 400_000 / n + 8 };
    let long = (bs as usize + c.rng.below(40)).min(cap);
    let constant = if c.rng.chance(1, 10) { Some(C::value(&mut c.rng, 6, cap)) } else { None };
    let rows: Vec<Row> = pat
        .iter()
        .map(|p| {
            if !*p {
                None
            } else if let Some(v) = &constant {
                Some(v.clone())
            } else if !C::NUMERIC && mode == 7 && c.rng.chance(1, 3) {
                Some(c.rng.blob(long))
            } else if !C::NUMERIC && mode == 6 && c.rng.chance(1, 4) {
                // land exactly on block boundaries
                let k = *c.rng.pick(&[bs as usize, (bs as usize) / 2, (bs as usize).saturating_sub(1), bs as usize + 1]);
                Some(c.rng.blob(k.min(cap)))
            } else {
                Some(C::value(&mut c.rng, mode % 7, cap))
            }
        })
        .collect();
    let batches = gen_batches(&mut c.rng, n);
    let reuse_buffer = c.rng.chance(1, 2);
    let case = Case { rows, nullable, bs, batches, reuse_buffer };
    c.note(n as u64);
    c.note(bs as u64);
    for r in &case.rows {
        match r {
            None => c.note(1),
            Some(v) => {
                c.note(2 + v.len() as u64);
                if let Some(b) = v.first() {
                    c.note(*b as u64)
                }
            }
        }
    }
    for b in &case.batches {
        c.note(*b as u64);
    }
    case
}

/// The calls seen while writing a column.
pub struct Run {
    pub blocks: Blocks,
    /// value bytes emitted after each write call
    pub after_call: Vec<usize>,
    /// blocks emitted by the flush call
    pub flushed: usize,
    pub layout: Option<EncoderLayout>,
}

pub enum Outcome {
    Done(Run),
    /// index of the failing call (writes, then flush), error text, blocks so far
    Failed { call: usize, err: String, blocks: Blocks, attempts_after: usize },
}

/// Writes the case's rows through a fresh encoder.
pub fn run_case<C: Col>(
    case: &Case,
    enc: Encoding,
    fail_at: Option<(usize, u64)>,
    check_source: bool,
) -> Result<Outcome, Viol> {
    let mut encoder = match C::encoder(enc, case.bs, case.nullable) {
        Ok(e) => e,
        Err(e) => return viol("encoder-refused", format!("no encoder for {:?}: {}", enc, e)),
    };
    let mut sink = Sink::new(case.rows.len() + 2);
    sink.fail_at = fail_at;
    let mut buf = C::buf(case.nullable);
    let mut pos = 0;
    let mut after_call = vec![];
    for (call, k) in case.batches.iter().enumerate() {
        if case.reuse_buffer {
            C::clear(&mut buf);
        } else {
            buf = C::buf(case.nullable);
        }
        let rows = &case.rows[pos..pos + k];
        for r in rows {
            C::push(&mut buf, r);
        }
        pos += k;
        let res = panics(|| block_on(encoder.encode(&buf, &mut sink)));
        match res {
            Err(p) if sink.runaway => return viol("runaway", format!("writing buffer {} of {} rows: {}", call, k, p)),
            Err(p) => return viol("encode-panic", format!("writing buffer {} of {} rows panicked: {}", call, k, p)),
            Ok(Err(e)) => {
                return Ok(Outcome::Failed { call, err: format!("{:#}", e), blocks: sink.blocks, attempts_after: sink.after_failure })
            }
            Ok(Ok(())) => {
                if sink.failed {
                    return viol("failure-swallowed", format!("storing block {} failed during write call {} which reported success", fail_at.unwrap().0, call));
                }
            }
        }
        after_call.push(sink.blocks.len());
        if check_source {
            C::check_buf(&buf, rows, case.nullable, "buffer after being written").map_err(|v| Viol { sig: format!("source-modified-{}", v.sig), ..v })?;
        }
    }
    let before = sink.blocks.len();
    let res = panics(|| block_on(encoder.flush(&mut sink)));
    match res {
        Err(p) if sink.runaway => viol("runaway", format!("flushing: {}", p)),
        Err(p) => viol("flush-panic", format!("flushing panicked: {}", p)),
        Ok(Err(e)) => Ok(Outcome::Failed { call: case.batches.len(), err: format!("{:#}", e), blocks: sink.blocks, attempts_after: sink.after_failure }),
        Ok(Ok(l)) => {
            if sink.failed {
                return viol("failure-swallowed", format!("storing block {} failed during flush which reported success", fail_at.unwrap().0));
            }
            Ok(Outcome::Done(Run { flushed: sink.blocks.len() - before, blocks: sink.blocks, after_call, layout: Some(l) }))
        }
    }
}

pub fn run_ok<C: Col>(case: &Case, check_source: bool) -> Result<Run, Viol> {
    match run_case::<C>(case, Encoding::Raw, None, check_source)? {
        Outcome::Done(r) => Ok(r),
        Outcome::Failed { call, err, .. } => viol("encode-error", format!("call {} failed without any fault: {}", call, err)),
    }
}

/// Decodes the blocks and compares them with the rows; returns for each block
/// its value bytes and the exclusive end row.
pub fn check_blocks<C: Col>(blocks: &Blocks, rows: &[Row], nullable: bool) -> Result<Vec<(usize, usize)>, Viol> {
    let mut at = 0usize;
    let mut out = vec![];
    for (i, (id, data)) in blocks.iter().enumerate() {
        let end = *id as usize + 1;
        ensure!(end > at, "row-id-order", "block {} is announced with row id {}, the previous blocks end at row {}", i, id, at as i64 - 1);
        ensure!(end <= rows.len(), "row-id-range", "block {} is announced with row id {}, the column has {} rows", i, id, rows.len());
        let bytes = C::check_block(data, &rows[at..end], nullable)
            .map_err(|v| Viol { msg: format!("block {} (rows {}..{}): {}", i, at, end, v.msg), ..v })?;
        out.push((bytes, end));
        at = end;
    }
    ensure!(at == rows.len(), "rows-missing", "the blocks hold {} rows, {} were written", at, rows.len());
    Ok(out)
}

fn witness<C: Col>(case: &Case) -> impl Fn(Viol) -> Viol + '_ {
    move |v| Viol { msg: format!("{} [{}]", v.msg, case.describe(C::NAME)), ..v }
}

fn observe(c: &mut Ctx, case: &Case, blocks: &Blocks, name: &str) {
    c.count("rows", case.rows.len() as u64);
    c.count("blocks", blocks.len() as u64);
    c.count("buffers", case.batches.len() as u64);
    c.count("nulls", case.rows.iter().filter(|r| r.is_none()).count() as u64);
    c.count(&format!("columns_{}", name), 1);
    if blocks.len() > 1 {
        c.count("columns_with_many_blocks", 1);
    }
    if case.rows.last().map_or(false, |r| r.is_none()) {
        c.count("columns_ending_in_null", 1);
    }
    c.max("rows_in_a_column", case.rows.len() as u64);
    c.max("blocks_in_a_column", blocks.len() as u64);
    c.nontrivial = !blocks.is_empty();
}

fn roundtrip<C: Col>(c: &mut Ctx) -> Res {
    let case = gen_case::<C>(c, if C::NUMERIC { 60_000 } else { 20_000 });
    let w = witness::<C>(&case);
    let run = run_ok::<C>(&case, false).map_err(&w)?;
    check_blocks::<C>(&run.blocks, &case.rows, case.nullable).map_err(&w)?;
    ensure!(matches!(run.layout, Some(EncoderLayout::Plain(_))), "layout", "raw encoding reports layout {:?} [{}]", run.layout, case.describe(C::NAME));
    observe(c, &case, &run.blocks, C::NAME);
    c.sample = Some(format!("{} -> {} blocks", case.describe(C::NAME), run.blocks.len()));
    Ok(())
}

pub fn c12(c: &mut Ctx) -> Res {
    let k = c.giant().map_or_else(|| c.rng.below(4), |g| g as usize % 4);
    any_col!(k, roundtrip, c)
}

pub fn c13(c: &mut Ctx) -> Res {
    roundtrip::<Bin>(c)
}

// ---------------------------------------------------------------- C14

fn row_ids<C: Col>(c: &mut Ctx) -> Res {
    let case = gen_case::<C>(c, 30_000);
    let w = witness::<C>(&case);
    let run = run_ok::<C>(&case, false).map_err(&w)?;
    let ids: Vec<u32> = run.blocks.iter().map(|b| b.0).collect();
    ensure!(ids.windows(2).all(|p| p[0] < p[1]), "row-id-order", "announced row ids do not increase: {:?} [{}]", &ids[..ids.len().min(40)], case.describe(C::NAME));
    if case.rows.is_empty() {
        ensure!(ids.is_empty(), "empty-column-block", "a column without rows announced blocks {:?}", ids);
    } else {
        ensure!(
            ids.last().map(|x| *x as usize) == Some(case.rows.len() - 1),
            "last-row-id",
            "last announced row id is {:?}, the column has {} rows [{}]",
            ids.last(),
            case.rows.len(),
            case.describe(C::NAME)
        );
    }
    check_blocks::<C>(&run.blocks, &case.rows, case.nullable).map_err(&w)?;
    c.count("row_ids_checked", ids.len() as u64);
    observe(c, &case, &run.blocks, C::NAME);
    c.sample = Some(format!("{} -> row ids {:?}", case.describe(C::NAME), &ids[..ids.len().min(12)]));
    Ok(())
}

pub fn c14(c: &mut Ctx) -> Res {
    let k = c.giant().map_or_else(|| c.rng.below(7), |g| [0, 4, 1, 4, 4, 2, 3, 4][g as usize]);
    any_col!(k, row_ids, c)
}

// ---------------------------------------------------------------- C15

/// Raw value bytes of the block, from its header.
fn value_bytes(b: &[u8]) -> Result<usize, Viol> {
    Ok(model::varint(b)?.0 as usize)
}

/// The values of each block (by its row ids) against the block size: every block but the last
/// reaches it, and none would reach it without its last value.
pub fn check_sizes(blocks: &Blocks, rows: &[Row], bs: usize) -> Res {
    let mut at = 0usize;
    for (i, (id, data)) in blocks.iter().enumerate() {
        let bytes = value_bytes(data)?;
        let end = *id as usize + 1;
        ensure!(end > at && end <= rows.len(), "row-id-order", "block {} ends at row id {} after row {} of {}", i, id, at as i64 - 1, rows.len());
        let vals: Vec<usize> = rows[at..end].iter().flatten().map(|v| v.len()).collect();
        at = end;
        let sum: usize = vals.iter().sum();
        ensure!(sum == bytes, "size-mismatch", "block {} holds {} value bytes, the rows up to row id {} have {}", i, bytes, id, sum);
        if i + 1 != blocks.len() {
            ensure!(bytes >= bs, "short-block", "block {} (row id {}) of {} holds {} value bytes, the block size is {}", i, id, blocks.len(), bytes, bs);
        }
        if bytes >= bs {
            let last = *vals.last().unwrap();
            ensure!(bytes - last < bs, "late-cut", "block {} holds {} value bytes and would still reach the block size {} without its last value of {} bytes", i, bytes, bs, last);
        }
    }
    Ok(())
}

fn sizes<C: Col>(c: &mut Ctx) -> Res {
    let case = gen_case::<C>(c, 30_000);
    let w = witness::<C>(&case);
    let run = run_ok::<C>(&case, false).map_err(&w)?;
    check_sizes(&run.blocks, &case.rows, case.bs as usize).map_err(&w)?;
    // eagerness: after every call the unwritten tail is under one block
    let mut written = 0usize;
    let mut emitted = 0usize;
    let mut b = 0usize;
    let mut pos = 0usize;
    for (call, k) in case.batches.iter().enumerate() {
        written += case.rows[pos..pos + k].iter().flatten().map(|v| v.len()).sum::<usize>();
        pos += k;
        while b < run.after_call[call] {
            emitted += value_bytes(&run.blocks[b].1).map_err(&w)?;
            b += 1;
        }
        ensure!(
            emitted <= written && written - emitted < case.bs as usize,
            "late-block",
            "after write call {} the encoder holds back {} value bytes, the block size is {} [{}]",
            call,
            written as i64 - emitted as i64,
            case.bs,
            case.describe(C::NAME)
        );
        c.count("calls_checked", 1);
    }
    ensure!(run.flushed <= 1, "flush-blocks", "flushing emitted {} blocks [{}]", run.flushed, case.describe(C::NAME));
    // no block without rows
    let mut prev: i64 = -1;
    for (i, (id, _)) in run.blocks.iter().enumerate() {
        ensure!(*id as i64 > prev, "empty-block", "block {} holds no row (row id {} after {}) [{}]", i, id, prev, case.describe(C::NAME));
        prev = *id as i64;
    }
    observe(c, &case, &run.blocks, C::NAME);
    c.sample = Some(format!("{} -> {} blocks, {} at flush", case.describe(C::NAME), run.blocks.len(), run.flushed));
    Ok(())
}

pub fn c15(c: &mut Ctx) -> Res {
    let k = c.giant().map_or_else(|| c.rng.below(8), |g| [0, 4, 1, 4, 4, 2, 3, 4][g as usize]);
    any_col!(k, sizes, c)
}

// ---------------------------------------------------------------- C16

fn diff_blocks(a: &Blocks, b: &Blocks) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (Some(x), Some(y)) => {
                return Some(format!("block {}: row id {} / {}, {} / {} bytes: {} / {}", i, x.0, y.0, x.1.len(), y.1.len(), short(&x.1), short(&y.1)))
            }
            _ => return Some(format!("{} / {} blocks", a.len(), b.len())),
        }
    }
    None
}

fn batching<C: Col>(c: &mut Ctx) -> Res {
    let mut case = gen_case::<C>(c, 5_000);
    let base_batches = case.batches.clone();
    let base = run_ok::<C>(&case, true).map_err(witness::<C>(&case))?;
    let again = run_ok::<C>(&case, false).map_err(witness::<C>(&case))?;
    if let Some(d) = diff_blocks(&base.blocks, &again.blocks) {
        return viol("not-reproducible", format!("encoding the same rows twice differs: {} [{}]", d, case.describe(C::NAME)));
    }
    let n = case.rows.len();
    let large = c.giant().is_some();
    for k in 0..if large { 2 } else { 5 } {
        case.batches = match if large { k * 2 } else { k } {
            0 => vec![n],
            1 if n <= 2000 => vec![1; n],
            2 => {
                // every buffer ends in a null or a value, whichever comes first
                let mut v = vec![];
                let mut run = 0;
                for i in 0..n {
                    run += 1;
                    if i + 1 < n && case.rows[i].is_some() != case.rows[i + 1].is_some() {
                        v.push(run);
                        run = 0;
                    }
                }
                v.push(run);
                v
            }
            _ => gen_batches(&mut c.rng, n),
        };
        case.reuse_buffer = c.rng.chance(1, 2);
        let other = run_ok::<C>(&case, true).map_err(witness::<C>(&case))?;
        if let Some(d) = diff_blocks(&base.blocks, &other.blocks) {
            return viol(
                "batching-dependent",
                format!("same rows in other buffers encode differently: {} [{}; other buffers {:?}]", d, case.describe(C::NAME), &base_batches[..base_batches.len().min(24)]),
            );
        }
        c.count("groupings_compared", 1);
    }
    observe(c, &case, &base.blocks, C::NAME);
    c.nontrivial = base.blocks.len() > 1;
    c.sample = Some(format!("{} -> {} blocks in every grouping", case.describe(C::NAME), base.blocks.len()));
    Ok(())
}

pub fn c16(c: &mut Ctx) -> Res {
    let k = c.giant().map_or_else(|| c.rng.below(7), |g| [4, 0, 4, 1, 2, 4, 4, 4][g as usize]);
    any_col!(k, batching, c)
}

// ---------------------------------------------------------------- C17

fn failing<C: Col>(c: &mut Ctx) -> Res {
    let case = gen_case::<C>(c, 1_500);
    let base = run_ok::<C>(&case, false).map_err(witness::<C>(&case))?;
    let nb = base.blocks.len();
    // every block of short columns, a sample of long ones
    let mut ks: Vec<usize> = (1..=nb).collect();
    if nb > 12 {
        ks = (0..10).map(|_| c.rng.range(1, nb)).collect();
        ks.push(1);
        ks.push(nb);
    }
    for k in ks {
        let tag = c.rng.next();
        // the call during which block k is attempted
        let call_of = base.after_call.iter().position(|x| *x >= k).unwrap_or(case.batches.len());
        let out = run_case::<C>(&case, Encoding::Raw, Some((k, tag)), false).map_err(witness::<C>(&case))?;
        match out {
            Outcome::Done(_) => return viol("failure-swallowed", format!("storing block {} of {} failed, every call reported success [{}]", k, nb, case.describe(C::NAME))),
            Outcome::Failed { call, err, blocks, attempts_after } => {
                ensure!(call == call_of, "failure-elsewhere", "storing block {} is attempted by call {}, call {} reported the error [{}]", k, call_of, call, case.describe(C::NAME));
                ensure!(err.contains(&format!("injected-block-failure-{}", tag)), "failure-replaced", "storing block {} failed, the reported error is {:?} [{}]", k, err, case.describe(C::NAME));
                ensure!(attempts_after == 0, "block-after-failure", "{} blocks were attempted after block {} failed in the same call [{}]", attempts_after, k, case.describe(C::NAME));
                if let Some(d) = diff_blocks(&blocks, &base.blocks[..k - 1].to_vec()) {
                    return viol("failure-prefix", format!("blocks stored before the failure of block {} are not the first blocks of the column: {} [{}]", k, d, case.describe(C::NAME)));
                }
            }
        }
        c.count("failures_injected", 1);
        if call_of == case.batches.len() {
            c.count("failures_at_flush", 1);
        }
    }
    observe(c, &case, &base.blocks, C::NAME);
    c.sample = Some(format!("{}: {} blocks, each failed in turn", case.describe(C::NAME), nb));
    Ok(())
}

pub fn c17(c: &mut Ctx) -> Res {
    let k = c.rng.below(7);
    any_col!(k, failing, c)
}

// ---------------------------------------------------------------- C18

pub const ENCODINGS: [Encoding; 5] = [Encoding::Raw, Encoding::BitPacked, Encoding::DeltaBinaryPacked, Encoding::RleDictionary, Encoding::Snappy];

/// Rows as written, for an accepted encoding whose layout has no published description.
fn stored<C: Col>(case: &Case, e: Encoding) -> Result<Blocks, Viol> {
    match run_case::<C>(case, e, None, false).map_err(witness::<C>(case))? {
        Outcome::Done(r) => Ok(r.blocks),
        Outcome::Failed { err, .. } => viol("accepted-then-failed", format!("encoding {:?} was accepted and then failed: {} [{}]", e, err, case.describe(C::NAME))),
    }
}

fn matrix<C: Col>(c: &mut Ctx) -> Res {
    let case = gen_case::<C>(c, 400);
    for e in ENCODINGS {
        match C::encoder(e, case.bs, case.nullable) {
            Err(err) => {
                ensure!(e != Encoding::Raw, "raw-refused", "raw encoding refused for {}: {}", C::NAME, err);
                ensure!(!err.to_string().trim().is_empty(), "refusal-silent", "{:?} refused for {} without a reason", e, C::NAME);
                c.count(&format!("refused_{}_{:?}", C::NAME, e), 1);
            }
            Ok(_) if e == Encoding::Raw => {
                let run = run_ok::<C>(&case, false).map_err(witness::<C>(&case))?;
                check_blocks::<C>(&run.blocks, &case.rows, case.nullable).map_err(witness::<C>(&case))?;
                c.count(&format!("accepted_{}_{:?}", C::NAME, e), 1);
            }
            Ok(_) => {
                c.count(&format!("accepted_{}_{:?}", C::NAME, e), 1);
                // lossless storage must tell different columns apart and account for every row
                let mut other = gen_case::<C>(c, 400);
                other.nullable = case.nullable;
                other.bs = case.bs;
                other.batches = vec![other.rows.len()];
                if !other.nullable {
                    other.rows.iter_mut().for_each(|r| {
                        if r.is_none() {
                            *r = Some(C::value(&mut c.rng, 2, 50))
                        }
                    });
                }
                let mut one = Case { rows: case.rows.clone(), batches: vec![case.rows.len()], nullable: case.nullable, bs: case.bs, reuse_buffer: false };
                for r in &mut one.rows {
                    if !one.nullable && r.is_none() {
                        *r = Some(vec![]);
                    }
                }
                let a = stored::<C>(&one, e)?;
                let b = stored::<C>(&other, e)?;
                let raw = stored::<C>(&one, Encoding::Raw)?;
                if !a.is_empty() && a == raw {
                    return viol("falls-back-to-raw", format!("{:?} is accepted for {} and stores raw blocks under that name [{}]", e, C::NAME, one.describe(C::NAME)));
                }
                // the constant block of the unfinished Snappy encoder
                let stub = e == Encoding::Snappy && a.iter().chain(b.iter()).all(|x| x.0 == 43243 && x.1 == b"snappy");
                let kind = |k: &str| format!("{}-{}-{:?}{}", k, C::NAME, e, if stub { "-stub" } else { "" });
                let mut bad = None;
                if one.rows != other.rows && a == b {
                    bad = Some(format!("different columns are stored as the same blocks {:?}: {} / {}", a.iter().map(|x| (x.0, short(&x.1))).collect::<Vec<_>>(), one.describe(C::NAME), other.describe(C::NAME)));
                } else if a.last().map(|x| x.0 as i64).unwrap_or(-1) != one.rows.len() as i64 - 1 {
                    bad = Some(format!("the last announced row id is {:?} [{}]", a.last().map(|x| x.0), one.describe(C::NAME)));
                }
                if let Some(m) = bad {
                    c.soft.push(Viol { sig: kind("lossy"), msg: m });
                }
            }
        }
    }
    c.nontrivial = true;
    c.sample = Some(format!("every encoding asked for, {}", case.describe(C::NAME)));
    Ok(())
}

pub fn c18_enc(c: &mut Ctx) -> Res {
    let k = c.rng.below(6);
    any_col!(k, matrix, c)
}

// ---------------------------------------------------------------- C40

/// Writes the rows of the case, flushing `flushes[i]` times after buffer `i`; every flush is judged.
pub fn run_flushing<C: Col>(case: &Case, flushes: &[usize]) -> Result<(Blocks, u64, u64), Viol> {
    let mut encoder = match C::encoder(Encoding::Raw, case.bs, case.nullable) {
        Ok(e) => e,
        Err(e) => return viol("encoder-refused", format!("no raw encoder: {}", e)),
    };
    let mut sink = Sink::new(case.rows.len() + 2);
    let mut buf = C::buf(case.nullable);
    let mut pos = 0;
    let (mut idle, mut cut) = (0, 0);
    for (call, k) in case.batches.iter().enumerate() {
        if case.reuse_buffer {
            C::clear(&mut buf);
        } else {
            buf = C::buf(case.nullable);
        }
        for r in &case.rows[pos..pos + k] {
            C::push(&mut buf, r);
        }
        pos += k;
        match panics(|| block_on(encoder.encode(&buf, &mut sink))) {
            Err(p) if sink.runaway => return viol("stored-twice", format!("writing buffer {} of {} rows: {}", call, k, p)),
            Err(p) => return viol("encode-panic", format!("writing buffer {} of {} rows panicked: {}", call, k, p)),
            Ok(Err(e)) => return viol("encode-error", format!("writing buffer {}: {:#}", call, e)),
            Ok(Ok(())) => {}
        }
        for again in 0..flushes[call] {
            let before = sink.blocks.len();
            let stored = sink.blocks.last().map_or(0, |b| b.0 as usize + 1);
            match panics(|| block_on(encoder.flush(&mut sink))) {
                Err(p) if sink.runaway => return viol("stored-twice", format!("flush {} after buffer {}: {}", again, call, p)),
                Err(p) => return viol("flush-panic", format!("flush {} after buffer {} panicked: {}", again, call, p)),
                Ok(Err(e)) => return viol("flush-error", format!("flush {} after buffer {}: {:#}", again, call, e)),
                Ok(Ok(EncoderLayout::Plain(_))) => {}
                Ok(Ok(l)) => return viol("layout", format!("flush {} after buffer {} reports layout {:?}", again, call, l)),
            }
            let new = sink.blocks.len() - before;
            let end = sink.blocks.last().map_or(0, |b| b.0 as usize + 1);
            if stored == pos {
                ensure!(new == 0, "stored-twice", "flush {} after buffer {} stores {} blocks, all {} rows had been stored", again, call, new, pos);
                idle += 1;
            } else {
                ensure!(new == 1 && end == pos, "flush-pending", "flush {} after buffer {} stores {} blocks up to row {}, rows {}..{} were pending", again, call, new, end as i64 - 1, stored, pos);
                cut += 1;
            }
        }
    }
    check_blocks::<C>(&sink.blocks, &case.rows, case.nullable)?;
    Ok((sink.blocks, idle, cut))
}

/// How often to flush after each buffer; at least once after the last.
pub fn gen_flushes(r: &mut Rng, n: usize) -> Vec<usize> {
    let often = *r.pick(&[1usize, 1, 2, 8, 30]);
    let mut v: Vec<usize> = (0..n).map(|_| if r.chance(1, often) { r.range(1, 3) } else { 0 }).collect();
    if let Some(l) = v.last_mut() {
        *l = r.range(1, 3);
    }
    v
}

fn flushing<C: Col>(c: &mut Ctx) -> Res {
    let case = gen_case::<C>(c, 20_000);
    let flushes = gen_flushes(&mut c.rng, case.batches.len());
    let w = |v: Viol| Viol { msg: format!("{} [{} flushes={:?}]", v.msg, case.describe(C::NAME), &flushes[..flushes.len().min(24)]), ..v };
    let (blocks, idle, cut) = run_flushing::<C>(&case, &flushes).map_err(w)?;
    for f in &flushes {
        c.note(*f as u64);
    }
    c.count("flushes_with_rows_pending", cut);
    c.count("flushes_without_rows_pending", idle);
    observe(c, &case, &blocks, C::NAME);
    c.nontrivial = flushes.iter().sum::<usize>() > 1 && !blocks.is_empty();
    c.sample = Some(format!("{} flushes {:?} -> {} blocks", case.describe(C::NAME), &flushes[..flushes.len().min(24)], blocks.len()));
    Ok(())
}

pub fn c40_enc(c: &mut Ctx) -> Res {
    let k = c.giant().map_or_else(|| c.rng.below(8), |g| [0, 4, 1, 4, 4, 2, 3, 4][g as usize]);
    any_col!(k, flushing, c)
}
