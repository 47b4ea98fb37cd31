//! C01-C07: column buffers against a list-of-optional-rows model.
use crate::ctx::*;
use crate::ensure;
use meerkat::store::verif::*;

// ---------------------------------------------------------------- helpers

pub trait Num: Clone + Send + Sync + PartialEq + 'static {
    const NAME: &'static str;
    fn gen(r: &mut Rng) -> Self;
    fn bits(&self) -> u64;
    fn le(&self) -> Vec<u8>;
}

fn gen_bits(r: &mut Rng) -> u64 {
    if r.chance(1, 8) {
        if let Some(v) = r.near(u64::MAX) {
            return if r.chance(1, 4) { v.wrapping_neg() } else { v };
        }
    }
    match r.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => r.below(256) as u64,
        3 => 1u64 << r.below(64),
        4 => (1u64 << r.below(64)).wrapping_sub(1),
        5 => (r.below(256) as u64).wrapping_mul(0x0101_0101_0101_0101),
        _ => r.next(),
    }
}

macro_rules! num {
    ($t:ty, $n:expr, $from:expr, $bits:expr) => {
        impl Num for $t {
            const NAME: &'static str = $n;
            fn gen(r: &mut Rng) -> Self {
                let b = gen_bits(r);
                #[allow(clippy::redundant_closure_call)]
                ($from)(b)
            }
            fn bits(&self) -> u64 {
                #[allow(clippy::redundant_closure_call)]
                ($bits)(*self)
            }
            fn le(&self) -> Vec<u8> {
                self.to_le_bytes().to_vec()
            }
        }
    };
}
num!(i32, "i32", |b: u64| b as i32, |v: i32| v as u32 as u64);
num!(i64, "i64", |b: u64| b as i64, |v: i64| v as u64);
num!(u64, "u64", |b: u64| b, |v: u64| v);
num!(f64, "f64", f64::from_bits, |v: f64| v.to_bits());

/// A sequence of validity flags with one of many shapes.
pub fn null_pattern(r: &mut Rng, n: usize) -> Vec<bool> {
    let mode = r.below(9);
    let mut v = Vec::with_capacity(n);
    match mode {
        0 => v.resize(n, true),
        1 => v.resize(n, false),
        2 => (0..n).for_each(|_| v.push(r.chance(1, 2))),
        3 => (0..n).for_each(|_| v.push(r.chance(1, 10))),
        4 => (0..n).for_each(|_| v.push(r.chance(9, 10))),
        5 => {
            // runs
            let mut b = r.chance(1, 2);
            while v.len() < n {
                let k = r.range(1, 40).min(n - v.len());
                for _ in 0..k {
                    v.push(b);
                }
                b = !b;
            }
        }
        6 => {
            // leading nulls
            let k = r.range(0, n);
            (0..n).for_each(|i| v.push(i >= k));
        }
        7 => {
            // trailing nulls
            let k = r.range(0, n);
            (0..n).for_each(|i| v.push(i < k));
        }
        _ => {
            let p = r.range(2, 17);
            (0..n).for_each(|i| v.push(i % p == 0));
        }
    }
    v
}

/// Sizes around the places where narrow counters wrap or length prefixes grow.
pub const EDGES: [usize; 8] = [65_535, 65_536, 65_537, 131_072, 196_608, 1 << 18, 1 << 20, (1 << 20) + 1];

/// `n` flags of which exactly `zeros` are false.
pub fn exact_pattern(r: &mut Rng, n: usize, zeros: usize) -> Vec<bool> {
    let mut v = vec![true; n];
    match r.below(4) {
        0 => v[..zeros].iter_mut().for_each(|b| *b = false),
        1 => v[n - zeros..].iter_mut().for_each(|b| *b = false),
        2 => {
            let s = r.range(0, n - zeros);
            v[s..s + zeros].iter_mut().for_each(|b| *b = false)
        }
        _ => {
            let mut left = zeros;
            while left > 0 {
                let i = r.below(n);
                if v[i] {
                    v[i] = false;
                    left -= 1;
                } else if left * 4 > n {
                    // dense: fill from the first free place on
                    let j = (i..n).chain(0..i).find(|j| v[*j]).unwrap();
                    v[j] = false;
                    left -= 1;
                }
            }
        }
    }
    v
}

/// Validity of a large column: the number of nulls sits on an edge.
fn giant_pattern(r: &mut Rng, k: u64) -> Vec<bool> {
    let zeros = match r.near(1 << 21) {
        Some(v) => v as usize,
        None => EDGES[k as usize % 8],
    };
    let extra = match r.below(4) {
        0 => 0,
        1 => r.below(100),
        2 => *r.pick(&EDGES[..5]),
        _ => r.below(200_000),
    };
    exact_pattern(r, zeros + extra, zeros)
}

fn check_validity(bm: &Bitmap, expect: impl ExactSizeIterator<Item = bool>, what: &str) -> Res {
    ensure!(bm.len() == expect.len(), "validity-len", "{}: validity has {} rows, expected {}", what, bm.len(), expect.len());
    for (i, e) in expect.enumerate() {
        ensure!(bm.is_set(i) == e, "validity-bit", "{}: row {} validity is {}, expected {}", what, i, !e, e);
    }
    Ok(())
}

// ---------------------------------------------------------------- C01

fn check_bitmap(bm: &Bitmap, model: &[bool], what: &str) -> Res {
    ensure!(bm.len() == model.len(), "len", "{}: len {} expected {}", what, bm.len(), model.len());
    for (i, e) in model.iter().enumerate() {
        ensure!(bm.is_set(i) == *e, "bit", "{}: bit {} of {} reads {}, expected {}", what, i, model.len(), !*e, e);
    }
    Ok(())
}

/// A few very large bitmaps: long runs, reuse with more and with fewer bits, large ranged copies.
fn c01_giant(c: &mut Ctx, k: u64) -> Res {
    let mut bm = if c.rng.chance(1, 2) { Bitmap::new() } else { Bitmap::with_capacity(c.rng.range(0, 1 << 20)) };
    let mut desc = vec![];
    for round in 0..3 {
        let mut model: Vec<bool> = vec![];
        for _ in 0..2 {
            let pat = if c.rng.chance(1, 2) {
                giant_pattern(&mut c.rng, k + round)
            } else {
                let n = EDGES[(k + round) as usize % 8] << c.rng.below(if c.thorough { 7 } else { 4 });
                null_pattern(&mut c.rng, n)
            };
            desc.push(pat.len());
            if c.rng.chance(1, 3) {
                let mut src = Bitmap::new();
                pat.iter().for_each(|b| src.append(*b));
                let ones = pat.iter().filter(|b| **b).count();
                let ret = bm.append_from(&src, 0, ones);
                let end = pat.iter().rposition(|b| *b).map_or(0, |p| p + 1);
                ensure!(ret == end, "cursor", "copying {} set bits returned {}, expected {}", ones, ret, end);
                model.extend_from_slice(&pat[..end]);
                c.count("ranged_appends", 1);
            } else {
                for b in &pat {
                    bm.append(*b);
                    model.push(*b);
                    ensure!(bm.len() == model.len(), "len", "after {} appends len is {}", model.len(), bm.len());
                }
                c.count("bits_appended", pat.len() as u64);
            }
            c.note(pat.len() as u64);
        }
        check_bitmap(&bm, &model, "large").map_err(|v| Viol { msg: format!("{} [sizes {:?}]", v.msg, desc), ..v })?;
        let l = model.len();
        ensure!(panics(|| bm.is_set(l)).is_err(), "past-end-read", "reading bit {} of a bitmap of length {} returned a value", l, l);
        c.max("bits", l as u64);
        c.count("full_reads", 1);
        bm.clear();
        ensure!(bm.len() == 0, "len", "len {} after clear", bm.len());
        c.count("clears", 1);
    }
    c.count("large_cases", 1);
    c.nontrivial = true;
    c.sample = Some(format!("large bitmaps of {:?} bits", desc));
    Ok(())
}

pub fn c01(c: &mut Ctx) -> Res {
    if let Some(k) = c.giant() {
        return c01_giant(c, k);
    }
    let mut trace: Vec<String> = vec![];
    let (mut bm, init) = match c.rng.below(4) {
        0 | 1 => (Bitmap::new(), "new".to_string()),
        2 => {
            let k = c.rng.range(0, 40);
            (Bitmap::with_capacity(k), format!("with_capacity({})", k))
        }
        _ => {
            let k = c.rng.range(0, 20_000);
            (Bitmap::with_capacity(k), format!("with_capacity({})", k))
        }
    };
    c.note_bytes(init.as_bytes());
    trace.push(init);
    let mut model: Vec<bool> = vec![];
    let ops = 2 + c.size(40);
    let mut clears = 0;
    for _ in 0..ops {
        match c.rng.below(10) {
            0..=5 => {
                let n = c.size(30_000);
                let pat = null_pattern(&mut c.rng, n);
                trace.push(format!("append x{}", n));
                for b in &pat {
                    bm.append(*b);
                    model.push(*b);
                }
                c.note(n as u64);
                c.count("bits_appended", n as u64);
            }
            6 | 7 => {
                let n = c.size(2_000);
                let pat = null_pattern(&mut c.rng, n);
                let mut src = Bitmap::new();
                pat.iter().for_each(|b| src.append(*b));
                let start = c.rng.range(0, n);
                let avail = pat[start..].iter().filter(|b| **b).count();
                let k = c.rng.range(0, avail);
                trace.push(format!("append_from(len {}, start {}, ones {})", n, start, k));
                bm.append_from(&src, start, k);
                let mut ones = 0;
                let mut p = start;
                while ones < k {
                    model.push(pat[p]);
                    ones += pat[p] as usize;
                    p += 1;
                }
                c.note(mix(start as u64, k as u64));
                c.count("ranged_appends", 1);
            }
            8 => {
                trace.push("clear".into());
                bm.clear();
                model.clear();
                clears += 1;
                c.count("clears", 1);
                c.note(77);
            }
            _ => {
                let l = model.len();
                let past = l + c.rng.range(0, 9);
                let t = format!("{:?}", trace);
                let r = panics(|| bm.is_set(past));
                ensure!(r.is_err(), "past-end-read", "reading bit {} of a bitmap of length {} returned a value; {}", past, l, t);
                c.count("refused_reads", 1);
                continue;
            }
        }
        if model.len() < 3000 || c.rng.chance(1, 4) {
            check_bitmap(&bm, &model, "mid").map_err(|v| Viol { msg: format!("{} after {:?}", v.msg, trace), ..v })?;
            c.count("full_reads", 1);
        }
    }
    check_bitmap(&bm, &model, "end").map_err(|v| Viol { msg: format!("{} after {:?}", v.msg, trace), ..v })?;
    c.count("full_reads", 1);
    c.max("bits", model.len() as u64);
    if clears > 0 {
        c.count("histories_with_reuse", 1);
    }
    c.nontrivial = ops >= 3;
    c.sample = Some(format!("{:?}", &trace[..trace.len().min(8)]));
    Ok(())
}

// ---------------------------------------------------------------- C02

pub fn check_primitive<T: Num>(b: &PrimitiveBuffer<T>, m: &[Option<T>], nullable: bool, what: &str) -> Res {
    let vals: Vec<&T> = m.iter().flatten().collect();
    ensure!(b.values().len() == vals.len(), "values-len", "{}: {} dense values, expected {}", what, b.values().len(), vals.len());
    for (i, (a, e)) in b.values().iter().zip(&vals).enumerate() {
        ensure!(a.bits() == e.bits(), "value", "{}: dense value {} is {:#x}, expected {:#x}", what, i, a.bits(), e.bits());
    }
    ensure!(b.len() == vals.len(), "len", "{}: len() {} expected {} non-null rows", what, b.len(), vals.len());
    ensure!(b.num_values() == m.len(), "num-values", "{}: num_values() {} expected {} rows", what, b.num_values(), m.len());
    ensure!(b.is_nullable() == nullable, "is-nullable", "{}: is_nullable() {}", what, b.is_nullable());
    ensure!(b.has_nulls() == (vals.len() != m.len()), "has-nulls", "{}: has_nulls() {} with {} nulls", what, b.has_nulls(), m.len() - vals.len());
    ensure!(b.validity().is_some() == nullable, "validity-presence", "{}: validity present: {}", what, b.validity().is_some());
    if let Some(v) = b.validity() {
        check_validity(v, m.iter().map(|x| x.is_some()), what)?;
    }
    Ok(())
}

/// Counts only, after every operation.
fn count_primitive<T: Num>(b: &PrimitiveBuffer<T>, values: usize, rows: usize) -> Res {
    ensure!(b.len() == values && b.values().len() == values, "len", "len() {} with {} values", b.len(), values);
    ensure!(b.num_values() == rows, "num-values", "num_values() {} expected {} rows", b.num_values(), rows);
    ensure!(b.has_nulls() == (values != rows), "has-nulls", "has_nulls() {} with {} nulls in {} rows", b.has_nulls(), rows - values, rows);
    Ok(())
}

fn c02_giant<T: Num>(c: &mut Ctx, k: u64) -> Res {
    let mut b: PrimitiveBuffer<T> = PrimitiveBuffer::new(true);
    let mut desc = vec![];
    for round in 0..2 {
        let pat = giant_pattern(&mut c.rng, k + round * 3);
        let mut m: Vec<Option<T>> = vec![];
        let mut vals = 0;
        for p in &pat {
            if *p {
                let v = T::gen(&mut c.rng);
                b.append(v.clone());
                m.push(Some(v));
                vals += 1;
            } else {
                b.append_null();
                m.push(None);
            }
            count_primitive(&b, vals, m.len())?;
        }
        desc.push((pat.len(), pat.len() - vals));
        check_primitive(&b, &m, true, "large")?;
        c.note(pat.len() as u64);
        c.note(vals as u64);
        c.count("rows_appended", pat.len() as u64);
        c.count("full_reads", 1);
        b.clear();
        check_primitive(&b, &[], true, "after clear")?;
        c.count("clears", 1);
    }
    c.count("large_cases", 1);
    c.nontrivial = true;
    c.sample = Some(format!("{} (rows, nulls): {:?}", T::NAME, desc));
    Ok(())
}

fn c02_t<T: Num>(c: &mut Ctx) -> Res {
    if let Some(k) = c.giant() {
        return c02_giant::<T>(c, k);
    }
    let nullable = c.rng.chance(3, 4);
    let mut b: PrimitiveBuffer<T> = PrimitiveBuffer::new(nullable);
    let mut m: Vec<Option<T>> = vec![];
    let mut trace = vec![format!("{} nullable={}", T::NAME, nullable)];
    check_primitive(&b, &m, nullable, "fresh")?;
    let ops = 1 + c.size(20);
    let mut vals = 0;
    for _ in 0..ops {
        if c.rng.chance(1, 5) {
            b.clear();
            m.clear();
            vals = 0;
            trace.push("clear".into());
            c.count("clears", 1);
            c.note(1);
        } else {
            let n = c.size(20_000);
            let pat = null_pattern(&mut c.rng, n);
            trace.push(format!("append x{}", n));
            for p in pat {
                if p || !nullable {
                    let v = T::gen(&mut c.rng);
                    c.note(v.bits());
                    b.append(v.clone());
                    m.push(Some(v));
                } else {
                    b.append_null();
                    m.push(None);
                    c.note(3);
                }
                vals += m.last().unwrap().is_some() as usize;
                count_primitive(&b, vals, m.len()).map_err(|v| Viol { msg: format!("{} after {:?}", v.msg, trace), ..v })?;
            }
            c.count("rows_appended", n as u64);
        }
        if m.len() < 3000 || c.rng.chance(1, 3) {
            check_primitive(&b, &m, nullable, "mid").map_err(|v| Viol { msg: format!("{} after {:?}", v.msg, trace), ..v })?;
            c.count("full_reads", 1);
        }
    }
    check_primitive(&b, &m, nullable, "end").map_err(|v| Viol { msg: format!("{} after {:?}", v.msg, trace), ..v })?;
    c.count("full_reads", 1);
    c.count(&format!("histories_{}", T::NAME), 1);
    c.nontrivial = ops > 1 && nullable;
    c.sample = Some(format!("{:?}", &trace[..trace.len().min(8)]));
    Ok(())
}

pub fn c02(c: &mut Ctx) -> Res {
    match c.rng.below(4) {
        0 => c02_t::<i32>(c),
        1 => c02_t::<i64>(c),
        2 => c02_t::<u64>(c),
        _ => c02_t::<f64>(c),
    }
}

// ---------------------------------------------------------------- C03

pub fn check_binary(b: &BinaryBuffer, m: &[Option<Vec<u8>>], nullable: bool, what: &str) -> Res {
    let vals: Vec<&Vec<u8>> = m.iter().flatten().collect();
    let offs = b.offsets();
    ensure!(offs.len() == vals.len() + 1, "offsets-len", "{}: {} offsets for {} values", what, offs.len(), vals.len());
    ensure!(offs[0] == 0, "first-offset", "{}: first offset is {}", what, offs[0]);
    let total: usize = vals.iter().map(|v| v.len()).sum();
    ensure!(b.data().len() == total, "data-len", "{}: {} data bytes, expected {}", what, b.data().len(), total);
    for (i, e) in vals.iter().enumerate() {
        let (s, t) = (offs[i] as usize, offs[i + 1] as usize);
        ensure!(s <= t && t <= b.data().len(), "offset-order", "{}: offsets {}..{} of value {} out of order or range", what, s, t, i);
        ensure!(&b.data()[s..t] == e.as_slice(), "value", "{}: value {} is {:?}, expected {:?}", what, i, short(&b.data()[s..t]), short(e));
        ensure!(b.item_len(i) as usize == e.len(), "item-len", "{}: item_len({}) is {}, expected {}", what, i, b.item_len(i), e.len());
    }
    ensure!(b.len() == vals.len(), "len", "{}: len() {} expected {}", what, b.len(), vals.len());
    ensure!(b.num_values() == m.len(), "num-values", "{}: num_values() {} expected {}", what, b.num_values(), m.len());
    ensure!(b.is_nullable() == nullable, "is-nullable", "{}: is_nullable() {}", what, b.is_nullable());
    ensure!(b.has_nulls() == (vals.len() != m.len()), "has-nulls", "{}: has_nulls() {} with {} nulls", what, b.has_nulls(), m.len() - vals.len());
    ensure!(b.validity().is_some() == nullable, "validity-presence", "{}: validity present: {}", what, b.validity().is_some());
    if let Some(v) = b.validity() {
        check_validity(v, m.iter().map(|x| x.is_some()), what)?;
    }
    Ok(())
}

pub fn short(b: &[u8]) -> String {
    if b.len() <= 24 {
        format!("{:02x?}", b)
    } else {
        format!("{:02x?}..({} bytes)", &b[..24], b.len())
    }
}

pub fn gen_bytes(r: &mut Rng, mode: usize, cap: usize) -> Vec<u8> {
    if mode >= 4 && r.chance(1, 40) {
        if let Some(n) = r.near(cap.min(70_000) as u64) {
            return r.bytes(n as usize);
        }
    }
    if mode >= 2 && r.chance(1, 20) {
        if let Some(t) = r.text() {
            return t.as_bytes()[..t.len().min(cap)].to_vec();
        }
    }
    let n = match mode {
        0 => 0,
        1 => r.below(4),
        2 => r.below(24),
        3 => {
            if r.chance(9, 10) {
                0
            } else {
                r.below(10)
            }
        }
        4 => r.below(300),
        5 => 1,
        _ => match r.below(20) {
            0 => r.below(5000),
            1..=4 => 0,
            _ => r.below(40),
        },
    };
    r.blob(n.min(cap))
}

fn c03_giant(c: &mut Ctx, k: u64) -> Res {
    let mut b = BinaryBuffer::new(true);
    let mut desc = vec![];
    for round in 0..2 {
        let mut m: Vec<Option<Vec<u8>>> = vec![];
        let mut vals = 0;
        let mut bytes = 0usize;
        // many small values on even rounds, few very large ones on odd rounds
        let large = (k + round) % 2 == 1;
        let pat = if large { null_pattern(&mut c.rng, 40) } else { giant_pattern(&mut c.rng, k + round * 3) };
        let mode = c.rng.below(4);
        for p in &pat {
            if *p {
                let v = if large {
                    let n = match c.rng.below(4) {
                        0 => EDGES[c.rng.below(8)],
                        1 => c.rng.below(1 << 22),
                        2 => (1 << 24) - 2 + c.rng.below(4),
                        _ => c.rng.below(70_000),
                    };
                    vec![c.rng.next() as u8; if bytes > 200 << 20 { 3 } else { n }]
                } else {
                    gen_bytes(&mut c.rng, mode, 30)
                };
                bytes += v.len();
                vals += 1;
                b.append(&v);
                ensure!(b.offsets().last().map(|o| *o as usize) == Some(bytes) && b.data().len() == bytes, "offset", "after {} values of {} bytes in all, the last offset is {:?}", vals, bytes, b.offsets().last());
                m.push(Some(v));
            } else {
                b.append_null();
                m.push(None);
            }
            ensure!(b.len() == vals && b.num_values() == m.len() && b.has_nulls() == (vals != m.len()), "len", "{} values in {} rows: len() {} num_values() {} has_nulls() {}", vals, m.len(), b.len(), b.num_values(), b.has_nulls());
        }
        desc.push((m.len(), vals, bytes));
        check_binary(&b, &m, true, "large")?;
        c.note(m.len() as u64);
        c.note(bytes as u64);
        c.max("data_bytes", bytes as u64);
        c.count("rows_appended", m.len() as u64);
        c.count("full_reads", 1);
        b.clear();
        check_binary(&b, &[], true, "after clear")?;
        c.count("clears", 1);
    }
    c.count("large_cases", 1);
    c.nontrivial = true;
    c.sample = Some(format!("(rows, values, bytes): {:?}", desc));
    Ok(())
}

pub fn c03(c: &mut Ctx) -> Res {
    if let Some(k) = c.giant() {
        return c03_giant(c, k);
    }
    let nullable = c.rng.chance(3, 4);
    let mut b = BinaryBuffer::new(nullable);
    let mut m: Vec<Option<Vec<u8>>> = vec![];
    let mut trace = vec![format!("binary nullable={}", nullable)];
    check_binary(&b, &m, nullable, "fresh")?;
    let ops = 1 + c.size(20);
    let mut vals = 0;
    for _ in 0..ops {
        if c.rng.chance(1, 5) {
            b.clear();
            m.clear();
            vals = 0;
            trace.push("clear".into());
            c.count("clears", 1);
            c.note(1);
        } else {
            let n = c.size(10_000);
            let mode = c.rng.below(7);
            let pat = null_pattern(&mut c.rng, n);
            trace.push(format!("append x{} mode {}", n, mode));
            for p in pat {
                if p || !nullable {
                    let v = gen_bytes(&mut c.rng, mode, 5000);
                    c.note_bytes(&v);
                    b.append(&v);
                    if v.is_empty() {
                        c.count("empty_values", 1);
                    }
                    m.push(Some(v));
                } else {
                    b.append_null();
                    m.push(None);
                    c.note(3);
                }
                vals += m.last().unwrap().is_some() as usize;
                ensure!(b.len() == vals && b.num_values() == m.len() && b.has_nulls() == (vals != m.len()), "len", "{} values in {} rows: len() {} num_values() {} has_nulls() {} after {:?}", vals, m.len(), b.len(), b.num_values(), b.has_nulls(), trace);
            }
            c.count("rows_appended", n as u64);
        }
        if m.len() < 2000 || c.rng.chance(1, 3) {
            check_binary(&b, &m, nullable, "mid").map_err(|v| Viol { msg: format!("{} after {:?}", v.msg, trace), ..v })?;
            c.count("full_reads", 1);
        }
    }
    check_binary(&b, &m, nullable, "end").map_err(|v| Viol { msg: format!("{} after {:?}", v.msg, trace), ..v })?;
    c.count("full_reads", 1);
    c.nontrivial = ops > 1;
    c.sample = Some(format!("{:?}", &trace[..trace.len().min(8)]));
    Ok(())
}

// ---------------------------------------------------------------- C04

fn check_bool(b: &BoolBuffer, m: &[Option<bool>], nullable: bool, what: &str) -> Res {
    let vals: Vec<bool> = m.iter().flatten().copied().collect();
    ensure!(b.values().len() == vals.len(), "values-len", "{}: {} dense bits, expected {}", what, b.values().len(), vals.len());
    for (i, e) in vals.iter().enumerate() {
        ensure!(b.values().is_set(i) == *e, "value", "{}: dense bit {} is {}, expected {}", what, i, !*e, e);
    }
    ensure!(b.len() == m.len(), "len", "{}: len() {} expected {} rows", what, b.len(), m.len());
    ensure!(b.is_nullable() == nullable, "is-nullable", "{}: is_nullable() {}", what, b.is_nullable());
    ensure!(b.has_nulls() == (vals.len() != m.len()), "has-nulls", "{}: has_nulls() {} with {} nulls", what, b.has_nulls(), m.len() - vals.len());
    if nullable {
        check_validity(b.validity(), m.iter().map(|x| x.is_some()), what)?;
    }
    Ok(())
}

fn c04_giant(c: &mut Ctx, k: u64) -> Res {
    let mut b = BoolBuffer::new(true);
    let mut desc = vec![];
    for round in 0..2 {
        let pat = giant_pattern(&mut c.rng, k + round * 3);
        let bits = null_pattern(&mut c.rng, pat.len());
        let mut m: Vec<Option<bool>> = vec![];
        let mut vals = 0;
        for (p, v) in pat.iter().zip(&bits) {
            if *p {
                b.append(*v);
                m.push(Some(*v));
                vals += 1;
            } else {
                b.append_null();
                m.push(None);
            }
            ensure!(b.len() == m.len() && b.values().len() == vals && b.has_nulls() == (vals != m.len()), "len", "{} values in {} rows: len() {} dense {} has_nulls() {}", vals, m.len(), b.len(), b.values().len(), b.has_nulls());
        }
        desc.push((m.len(), vals));
        check_bool(&b, &m, true, "large")?;
        c.note(m.len() as u64);
        c.note(vals as u64);
        c.count("rows_appended", m.len() as u64);
        c.count("full_reads", 1);
        b.clear();
        check_bool(&b, &[], true, "after clear")?;
        c.count("clears", 1);
    }
    c.count("large_cases", 1);
    c.nontrivial = true;
    c.sample = Some(format!("(rows, values): {:?}", desc));
    Ok(())
}

pub fn c04(c: &mut Ctx) -> Res {
    if let Some(k) = c.giant() {
        return c04_giant(c, k);
    }
    let nullable = c.rng.chance(3, 4);
    let mut b = BoolBuffer::new(nullable);
    let mut m: Vec<Option<bool>> = vec![];
    let mut trace = vec![format!("bool nullable={}", nullable)];
    check_bool(&b, &m, nullable, "fresh")?;
    let ops = 1 + c.size(20);
    for _ in 0..ops {
        if c.rng.chance(1, 5) {
            b.clear();
            m.clear();
            trace.push("clear".into());
            c.count("clears", 1);
            c.note(1);
        } else {
            let n = c.size(20_000);
            let pat = null_pattern(&mut c.rng, n);
            let bits = null_pattern(&mut c.rng, n);
            trace.push(format!("append x{}", n));
            for (p, v) in pat.into_iter().zip(bits) {
                if p || !nullable {
                    b.append(v);
                    m.push(Some(v));
                    c.note(10 + v as u64);
                } else {
                    b.append_null();
                    m.push(None);
                    c.note(3);
                }
            }
            c.count("rows_appended", n as u64);
        }
        if m.len() < 3000 || c.rng.chance(1, 3) {
            check_bool(&b, &m, nullable, "mid").map_err(|v| Viol { msg: format!("{} after {:?}", v.msg, trace), ..v })?;
            c.count("full_reads", 1);
        }
    }
    check_bool(&b, &m, nullable, "end").map_err(|v| Viol { msg: format!("{} after {:?}", v.msg, trace), ..v })?;
    c.count("full_reads", 1);
    c.nontrivial = ops > 1;
    c.sample = Some(format!("{:?}", &trace[..trace.len().min(8)]));
    Ok(())
}

// ---------------------------------------------------------------- C05

/// rows[p..q) that copying `k` values from row position p moves; q is returned too
fn moved<V>(rows: &[Option<V>], p: usize, k: usize) -> (&[Option<V>], usize) {
    let mut q = p;
    let mut n = 0;
    while n < k {
        n += rows[q].is_some() as usize;
        q += 1;
    }
    (&rows[p..q], q)
}

fn partition(r: &mut Rng, n: usize) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut s = 0;
    let big = r.chance(1, 4);
    while s < n {
        let e = if big { r.range(s, n) } else { (s + r.range(0, 9)).min(n) };
        out.push((s, e));
        s = e;
        if out.len() > 4 * n + 4 {
            break;
        }
    }
    if r.chance(1, 3) {
        out.push((s, s));
    }
    out
}

/// A buffer with its copy operation, for the copy histories.
trait Copied {
    type V: Clone;
    fn make(nullable: bool) -> Self;
    fn push(&mut self, v: Option<&Self::V>);
    fn wipe(&mut self);
    fn copy(&mut self, src: &Self, s: usize, e: usize, p: usize) -> usize;
    fn verify(&self, m: &[Option<Self::V>], nullable: bool, what: &str) -> Res;
    fn value(r: &mut Rng, mode: usize) -> Self::V;
    fn size(v: &Self::V) -> usize;
}
impl<T: Num> Copied for PrimitiveBuffer<T> {
    type V = T;
    fn make(nullable: bool) -> Self {
        PrimitiveBuffer::new(nullable)
    }
    fn push(&mut self, v: Option<&T>) {
        match v {
            Some(v) => self.append(v.clone()),
            None => self.append_null(),
        }
    }
    fn wipe(&mut self) {
        self.clear()
    }
    fn copy(&mut self, src: &Self, s: usize, e: usize, p: usize) -> usize {
        self.append_from(src, s, e, p)
    }
    fn verify(&self, m: &[Option<T>], nullable: bool, what: &str) -> Res {
        check_primitive(self, m, nullable, what)
    }
    fn value(r: &mut Rng, _mode: usize) -> T {
        T::gen(r)
    }
    fn size(_v: &T) -> usize {
        8
    }
}
impl Copied for BinaryBuffer {
    type V = Vec<u8>;
    fn make(nullable: bool) -> Self {
        BinaryBuffer::new(nullable)
    }
    fn push(&mut self, v: Option<&Vec<u8>>) {
        match v {
            Some(v) => self.append(v),
            None => self.append_null(),
        }
    }
    fn wipe(&mut self) {
        self.clear()
    }
    fn copy(&mut self, src: &Self, s: usize, e: usize, p: usize) -> usize {
        self.append_from(src, s, e, p)
    }
    fn verify(&self, m: &[Option<Vec<u8>>], nullable: bool, what: &str) -> Res {
        check_binary(self, m, nullable, what)
    }
    fn value(r: &mut Rng, mode: usize) -> Vec<u8> {
        gen_bytes(r, mode, 3000)
    }
    fn size(v: &Vec<u8>) -> usize {
        v.len() + 1
    }
}

fn fill<B: Copied>(r: &mut Rng, b: &mut B, m: &mut Vec<Option<B::V>>, pat: &[bool], nullable: bool, mode: usize) {
    for p in pat {
        let v = if *p || !nullable { Some(B::value(r, mode)) } else { None };
        b.push(v.as_ref());
        m.push(v);
    }
}

/// Copies among three buffers that are appended to, cleared and reused in between.
fn c05_history<B: Copied>(c: &mut Ctx, name: &str, giant: Option<u64>) -> Res {
    let nullable = c.rng.chance(2, 3);
    let mut bufs: Vec<B> = (0..3).map(|_| B::make(nullable)).collect();
    let mut models: Vec<Vec<Option<B::V>>> = vec![vec![]; 3];
    // where the last copy out of a buffer ended: value, row
    let mut cursor = [(0usize, 0usize); 3];
    let mut trace = vec![format!("{} nullable={}", name, nullable)];
    let mode = c.rng.below(7);
    let n = match giant {
        None => c.size(5000),
        Some(_) => 0,
    };
    let pat = match giant {
        None => null_pattern(&mut c.rng, n),
        Some(k) => giant_pattern(&mut c.rng, k),
    };
    fill(&mut c.rng, &mut bufs[0], &mut models[0], &pat, nullable, if giant.is_some() { 2 } else { mode });
    trace.push(format!("0: filled with {} rows", pat.len()));
    let ops = if giant.is_some() { 6 } else { 2 + c.size(30) };
    let limit = if giant.is_some() { 600_000 } else { 12_000 };
    let bytes = |m: &[Option<B::V>]| m.iter().flatten().map(|v| B::size(v)).sum::<usize>();
    let mut copied = 0;
    for _ in 0..ops {
        let i = c.rng.below(3);
        let j = (i + 1 + c.rng.below(2)) % 3;
        match c.rng.below(12) {
            0 => {
                let n = c.size(300);
                let pat = null_pattern(&mut c.rng, n);
                let (b, m) = (&mut bufs[i], &mut models[i]);
                fill(&mut c.rng, b, m, &pat, nullable, mode);
                trace.push(format!("{}: appended {} rows", i, n));
            }
            1 => {
                bufs[i].wipe();
                models[i].clear();
                cursor[i] = (0, 0);
                trace.push(format!("{}: cleared", i));
            }
            op => {
                // copy out of j into i
                let vals = models[j].iter().flatten().count();
                let (s, e, p) = if op < 8 && cursor[j].0 <= vals {
                    // goes on where the last one ended
                    let s = cursor[j].0;
                    let e = if c.rng.chance(1, 3) { vals } else if c.rng.chance(1, 2) { c.rng.range(s, vals) } else { (s + c.rng.below(9)).min(vals) };
                    (s, e, cursor[j].1)
                } else {
                    // any values, from any row position in front of them
                    let s = c.rng.range(0, vals);
                    let e = if c.rng.chance(1, 4) { s } else { c.rng.range(s, vals) };
                    let mut seen = 0;
                    let mut lo = 0;
                    while seen < s {
                        seen += models[j][lo].is_some() as usize;
                        lo += 1;
                    }
                    let mut hi = lo;
                    while hi < models[j].len() && models[j][hi].is_none() {
                        hi += 1;
                    }
                    (s, e, if c.rng.chance(1, 2) { lo } else { c.rng.range(lo, hi) })
                };
                let (mv, q) = moved(&models[j], p, e - s);
                let mv = mv.to_vec();
                if models[i].len() + mv.len() > limit || bytes(&models[i]) + bytes(&mv) > 40 << 20 {
                    bufs[i].wipe();
                    models[i].clear();
                    cursor[i] = (0, 0);
                    trace.push(format!("{}: cleared", i));
                }
                let (d, sr) = if i < j {
                    let (a, b) = bufs.split_at_mut(j);
                    (&mut a[i], &b[0])
                } else {
                    let (a, b) = bufs.split_at_mut(i);
                    (&mut b[0], &a[j])
                };
                let ret = d.copy(sr, s, e, p);
                trace.push(format!("{} <- {}: values {}..{} from row {}", i, j, s, e, p));
                models[i].extend(mv);
                cursor[j] = (e, q);
                if nullable {
                    ensure!(ret == q, "cursor", "copying values {}..{} from row {} returned row {}, expected {}; {:?}", s, e, p, ret, q, trace);
                }
                c.count("ranges_copied", 1);
                if s > 0 {
                    c.count("ranges_not_from_the_start", 1);
                }
                c.note(mix(mix(s as u64, e as u64), p as u64));
                copied += e - s;
            }
        }
        let w = |v: Viol| Viol { msg: format!("{}; {:?}", v.msg, trace), ..v };
        if models[i].len() < 2000 || giant.is_some() {
            bufs[i].verify(&models[i], nullable, "changed buffer").map_err(w)?;
        }
        if models[j].len() < 500 {
            bufs[j].verify(&models[j], nullable, "other buffer").map_err(w)?;
        }
    }
    for k in 0..3 {
        bufs[k].verify(&models[k], nullable, &format!("buffer {} at the end", k)).map_err(|v| Viol { msg: format!("{}; {:?}", v.msg, trace), ..v })?;
        for (x, v) in models[k].iter().enumerate().take(64) {
            c.note(mix(x as u64, v.as_ref().map_or(0, |v| 1 + B::size(v) as u64)));
        }
    }
    if giant.is_some() {
        c.count("large_cases", 1);
    }
    c.max("rows", models.iter().map(|m| m.len()).max().unwrap() as u64);
    c.nontrivial = copied > 0;
    c.count(if name == "binary" { "copy_histories_binary" } else { "copy_histories_num" }, 1);
    c.sample = Some(format!("{:?}", &trace[..trace.len().min(8)]));
    Ok(())
}

fn c05_bits(c: &mut Ctx) -> Res {
    let n = c.size(20_000);
    let pat = match c.giant() {
        Some(k) => giant_pattern(&mut c.rng, k),
        None => null_pattern(&mut c.rng, n),
    };
    let n = pat.len();
    let mut src = Bitmap::new();
    pat.iter().for_each(|b| src.append(*b));
    let mut dst = Bitmap::new();
    let mut model = vec![];
    let k = c.size(100);
    for _ in 0..k {
        let b = c.rng.chance(1, 2);
        dst.append(b);
        model.push(b);
    }
    // from any bit on
    let skip = if c.rng.chance(1, 2) { 0 } else { c.rng.range(0, n) };
    let ones = pat[skip..].iter().filter(|b| **b).count();
    let mut pos = skip;
    let parts = if ones > 50_000 { vec![(0, ones / 3), (ones / 3, ones / 2), (ones / 2, ones)] } else { partition(&mut c.rng, ones) };
    for (s, e) in parts {
        let ret = dst.append_from(&src, pos, e - s);
        let mut q = pos;
        let mut got = 0;
        while got < e - s {
            model.push(pat[q]);
            got += pat[q] as usize;
            q += 1;
        }
        ensure!(ret == q, "cursor", "copying {} set bits from bit {} returned {}, expected {}", e - s, pos, ret, q);
        pos = q;
        c.count("ranges_copied", 1);
        c.note(mix(s as u64, e as u64));
    }
    check_bitmap(&dst, &model, "dst at end")?;
    check_bitmap(&src, &pat, "src at end")?;
    c.nontrivial = ones > 1;
    c.count("copy_histories_bitmap", 1);
    c.sample = Some(format!("bitmap bits={} ones={}", n, ones));
    Ok(())
}

pub fn c05(c: &mut Ctx) -> Res {
    let g = c.giant();
    match g.map_or_else(|| c.rng.below(8), |g| g as usize) {
        0 => c05_history::<PrimitiveBuffer<i32>>(c, "i32", g),
        1 => c05_history::<PrimitiveBuffer<i64>>(c, "i64", g),
        2 => c05_history::<PrimitiveBuffer<u64>>(c, "u64", g),
        3 => c05_history::<PrimitiveBuffer<f64>>(c, "f64", g),
        4 => c05_bits(c),
        _ => c05_history::<BinaryBuffer>(c, "binary", g),
    }
}

// ---------------------------------------------------------------- C06

fn c06_num<T: Num>(c: &mut Ctx) -> Res {
    let mut m: Vec<Option<T>> = vec![];
    let mut b: PrimitiveBuffer<T> = PrimitiveBuffer::new(false);
    let steps = 1 + c.size(60);
    for _ in 0..steps {
        match c.rng.below(6) {
            0 | 1 => {
                let r = panics(|| b.append_null());
                ensure!(r.is_err(), "null-accepted", "{}: null append accepted by a non-nullable buffer of {} rows", T::NAME, m.len());
                c.count("refused_null_appends", 1);
                check_primitive(&b, &m, false, "after refused null")?;
            }
            2 => {
                b.clear();
                m.clear();
                c.note(9);
                check_primitive(&b, &m, false, "after clear")?;
            }
            3 => {
                // mixing nullability in ranged copies, on throw-away buffers
                let src_nullable = c.rng.chance(1, 2);
                let mut s: PrimitiveBuffer<T> = PrimitiveBuffer::new(src_nullable);
                let k = 1 + c.size(20);
                for _ in 0..k {
                    if src_nullable && c.rng.chance(1, 3) {
                        s.append_null();
                    }
                    s.append(T::gen(&mut c.rng));
                }
                let mut d: PrimitiveBuffer<T> = PrimitiveBuffer::new(!src_nullable);
                if c.rng.chance(1, 2) {
                    d.append(T::gen(&mut c.rng));
                }
                let lo = c.rng.range(0, k - 1);
                let hi = c.rng.range(lo + 1, k);
                let r = panics(|| d.append_from(&s, lo, hi, 0));
                ensure!(r.is_err(), "mixed-copy-accepted", "{}: copy from nullable={} into nullable={} accepted", T::NAME, src_nullable, !src_nullable);
                c.count("refused_mixed_copies", 1);
                c.note(mix(lo as u64, hi as u64));
            }
            _ => {
                let v = T::gen(&mut c.rng);
                c.note(v.bits());
                b.append(v.clone());
                m.push(Some(v));
            }
        }
    }
    check_primitive(&b, &m, false, "at end")?;
    // nullability survives reuse
    let mut nb: PrimitiveBuffer<T> = PrimitiveBuffer::new(true);
    for _ in 0..c.rng.below(4) {
        nb.append_null();
        nb.clear();
        check_primitive(&nb, &[], true, "nullable after clear")?;
    }
    Ok(())
}

pub fn c06(c: &mut Ctx) -> Res {
    c.nontrivial = true;
    match c.rng.below(6) {
        0 => c06_num::<i32>(c)?,
        1 => c06_num::<f64>(c)?,
        2 => c06_num::<u64>(c)?,
        3 => c06_num::<i64>(c)?,
        4 => {
            let mut b = BinaryBuffer::new(false);
            let mut m: Vec<Option<Vec<u8>>> = vec![];
            let steps = 1 + c.size(60);
            for _ in 0..steps {
                match c.rng.below(6) {
                    0 | 1 => {
                        let r = panics(|| b.append_null());
                        ensure!(r.is_err(), "null-accepted", "binary: null append accepted by a non-nullable buffer of {} rows", m.len());
                        c.count("refused_null_appends", 1);
                        check_binary(&b, &m, false, "after refused null")?;
                    }
                    2 => {
                        b.clear();
                        m.clear();
                        check_binary(&b, &m, false, "after clear")?;
                        c.note(9);
                    }
                    3 => {
                        let src_nullable = c.rng.chance(1, 2);
                        let mut s = BinaryBuffer::new(src_nullable);
                        let k = 1 + c.size(20);
                        for _ in 0..k {
                            if src_nullable && c.rng.chance(1, 3) {
                                s.append_null();
                            }
                            s.append(&gen_bytes(&mut c.rng, 2, 50));
                        }
                        let mut d = BinaryBuffer::new(!src_nullable);
                        if c.rng.chance(1, 2) {
                            d.append(b"x");
                        }
                        let lo = c.rng.range(0, k - 1);
                        let hi = c.rng.range(lo + 1, k);
                        let r = panics(|| d.append_from(&s, lo, hi, 0));
                        ensure!(r.is_err(), "mixed-copy-accepted", "binary: copy from nullable={} into nullable={} accepted", src_nullable, !src_nullable);
                        c.count("refused_mixed_copies", 1);
                        c.note(mix(lo as u64, hi as u64));
                    }
                    _ => {
                        let v = gen_bytes(&mut c.rng, 2, 50);
                        c.note_bytes(&v);
                        b.append(&v);
                        m.push(Some(v));
                    }
                }
            }
            check_binary(&b, &m, false, "at end")?;
            let mut nb = BinaryBuffer::new(true);
            for _ in 0..c.rng.below(4) {
                nb.append_null();
                nb.clear();
                check_binary(&nb, &[], true, "nullable after clear")?;
            }
        }
        _ => {
            let mut b = BoolBuffer::new(false);
            let mut m: Vec<Option<bool>> = vec![];
            let steps = 1 + c.size(60);
            for _ in 0..steps {
                match c.rng.below(6) {
                    0 | 1 => {
                        let r = panics(|| b.append_null());
                        ensure!(r.is_err(), "null-accepted", "bool: null append accepted by a non-nullable buffer of {} rows", m.len());
                        c.count("refused_null_appends", 1);
                        check_bool(&b, &m, false, "after refused null")?;
                    }
                    2 => {
                        b.clear();
                        m.clear();
                        check_bool(&b, &m, false, "after clear")?;
                        c.note(9);
                    }
                    _ => {
                        let v = c.rng.chance(1, 2);
                        c.note(v as u64);
                        b.append(v);
                        m.push(Some(v));
                    }
                }
            }
            check_bool(&b, &m, false, "at end")?;
            let mut nb = BoolBuffer::new(true);
            for _ in 0..c.rng.below(4) {
                nb.append_null();
                nb.clear();
                check_bool(&nb, &[], true, "nullable after clear")?;
            }
        }
    }
    let s = format!("{:?}", c.counters);
    c.sample = Some(s);
    Ok(())
}

// ---------------------------------------------------------------- C07

/// Only a handful of (large) scenarios; the driver runs each index once.
pub fn c07(c: &mut Ctx) -> Res {
    const LIM: u64 = 1 << 32;
    let k = c.index % C07_SCENARIOS;
    c.note(k);
    c.nontrivial = true;
    match k {
        // single appends
        0 | 1 => {
            let nullable = k == 1;
            let chunk = vec![0xABu8; (1 << 28) - 16 * k as usize];
            let mut b = BinaryBuffer::new(nullable);
            let mut total = 0u64;
            let mut n = 0u64;
            while total + (chunk.len() as u64) < LIM - 1024 {
                b.append(&chunk);
                total += chunk.len() as u64;
                n += 1;
                let last = *b.offsets().last().unwrap() as u64;
                ensure!(last == total && b.data().len() as u64 == total, "offset", "after {} bytes the last offset is {}", total, last);
                c.count("appends_accepted", 1);
            }
            // now cross the limit, by as little as possible
            let over = (LIM - total) as usize;
            let r = panics(|| b.append(&vec![1u8; over]));
            ensure!(r.is_err(), "overflow-accepted", "append growing the column to {} bytes was accepted; last offset {}", LIM, b.offsets().last().unwrap());
            c.count("refused_growth", 1);
            c.sample = Some(format!("{} appends then refusal at 2^32 bytes, nullable={}", n, nullable));
        }
        2 | 3 => {
            let nullable = k == 3;
            let mut s = BinaryBuffer::new(nullable);
            let item = vec![0x11u8; 1 << 26];
            for _ in 0..8 {
                s.append(&item);
            }
            let mut d = BinaryBuffer::new(nullable);
            let mut total = 0u64;
            for _ in 0..7 {
                d.append_from(&s, 0, 8, 0);
                total += 8 << 26;
                let last = *d.offsets().last().unwrap() as u64;
                ensure!(last == total && d.data().len() as u64 == total, "offset", "after {} bytes the last offset is {}", total, last);
                c.count("ranged_copies_accepted", 1);
            }
            let r = panics(|| d.append_from(&s, 0, 8, 0));
            ensure!(r.is_err(), "overflow-accepted", "ranged copy growing the column to 2^32 bytes was accepted; last offset {}", d.offsets().last().unwrap());
            c.count("refused_growth", 1);
            c.sample = Some(format!("ranged copies to 2^32 bytes, nullable={}", nullable));
        }
        // row ids
        4 | 5 => {
            let rows_per = 1u64 << 27;
            let first_rows = 1 + c.rng.below(1000) as u64;
            let r = if k == 4 {
                let mut b: Int32Buffer = PrimitiveBuffer::new(true);
                for _ in 0..rows_per - 1 {
                    b.append_null();
                }
                b.append(7);
                let mut f: Int32Buffer = PrimitiveBuffer::new(true);
                (0..first_rows).for_each(|_| f.append(3));
                let enc = new_i32_encoder(Encoding::Raw, 4, true).unwrap();
                overflow_rows(c, enc, &f, first_rows, &b, rows_per)
            } else {
                let mut b = BinaryBuffer::new(true);
                for _ in 0..rows_per - 1 {
                    b.append_null();
                }
                b.append(b"7");
                let mut f = BinaryBuffer::new(true);
                (0..first_rows).for_each(|_| f.append(b"x"));
                let enc = new_binary_encoder(Encoding::Raw, 1, true).unwrap();
                overflow_rows(c, enc, &f, first_rows, &b, rows_per)
            };
            r?;
            c.sample = Some(format!("rows past 2^32 refused, {}", if k == 4 { "i32" } else { "binary" }));
        }
        _ => unreachable!(),
    }
    Ok(())
}
pub const C07_SCENARIOS: u64 = 6;

struct LastRow(Vec<u32>);
#[async_trait::async_trait]
impl BlockSink for LastRow {
    async fn write_block(&mut self, row_id: u32, _d: &[u8]) -> anyhow::Result<()> {
        self.0.push(row_id);
        Ok(())
    }
}

fn overflow_rows<B>(c: &mut Ctx, mut enc: Box<dyn BlockEncoder<B, LastRow>>, first: &B, first_rows: u64, b: &B, per: u64) -> Res {
    let mut sink = LastRow(vec![]);
    // a few rows first, so that the limit is crossed in the middle of a buffer
    let r = panics(|| block_on(enc.encode(first, &mut sink)));
    ensure!(matches!(r, Ok(Ok(()))), "early-refusal", "encoding {} rows refused", first_rows);
    let mut total = first_rows;
    while total + per < 1 << 32 {
        let r = panics(|| block_on(enc.encode(b, &mut sink)));
        total += per;
        ensure!(matches!(r, Ok(Ok(()))), "early-refusal", "encoding refused at {} rows: {:?}", total, r.map(|x| x.map_err(|e| e.to_string())));
        let last = sink.0.last().map(|x| *x as u64);
        ensure!(last == Some(total - 1), "row-id", "after {} rows the last announced row id is {:?}", total, last);
        c.count("row_batches_accepted", 1);
    }
    let n = sink.0.len();
    // this buffer passes row id 2^32 - 1
    let r = panics(|| block_on(enc.encode(b, &mut sink)));
    ensure!(!matches!(r, Ok(Ok(()))), "row-overflow-accepted", "{} rows accepted; last row ids {:?}", total + per, &sink.0[n.saturating_sub(1)..]);
    ensure!(sink.0.windows(2).all(|w| w[0] < w[1]), "row-id-wrapped", "row ids wrapped: {:?}", &sink.0[n.saturating_sub(1)..]);
    c.count("refused_growth", 1);
    Ok(())
}
