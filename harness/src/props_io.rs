//! C19-C22: block files, written and read.
use crate::ctx::*;
use crate::ensure;
use crate::props_buf::short;
use crate::sys::{self, Action, Kind, Plan, Rule};
use futures::StreamExt;
use meerkat::store::verif::io::*;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub fn runtime(threads: usize) -> tokio::runtime::Runtime {
    if threads <= 1 {
        tokio::runtime::Builder::new_current_thread().enable_all().max_blocking_threads(16).build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(threads).max_blocking_threads(16).enable_all().build().unwrap()
    }
}

pub fn fresh(dir: &Path, name: &str) -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    dir.join(format!("{}-{}", name, N.fetch_add(1, Ordering::Relaxed)))
}

/// Disarms the monitor when the case ends, however it ends.
pub struct Armed;
impl Armed {
    pub fn new(root: &Path, plan: Plan, keep: bool) -> Armed {
        sys::arm(root, plan, keep);
        Armed
    }
    pub fn done(self) -> sys::Trace {
        let t = sys::disarm();
        std::mem::forget(self);
        t
    }
}
impl Drop for Armed {
    fn drop(&mut self) {
        sys::disarm();
    }
}

/// Bytes that differ at every offset in a recognisable way.
pub fn content(seed: u64, n: usize) -> Vec<u8> {
    Rng::new(seed ^ 0x51D).bytes(n)
}

pub fn diff_bytes(got: &[u8], want: &[u8]) -> Option<String> {
    if got == want {
        return None;
    }
    if got.len() != want.len() {
        let p = got.iter().zip(want).position(|(a, b)| a != b);
        return Some(format!("{} bytes, expected {}{}", got.len(), want.len(), p.map_or(String::new(), |p| format!(", first difference at {}", p))));
    }
    let p = got.iter().zip(want).position(|(a, b)| a != b).unwrap();
    Some(format!("byte {} of {} is {:#x}, expected {:#x}", p, got.len(), got[p], want[p]))
}

// ---------------------------------------------------------------- C19

pub fn gen_block_len(c: &mut Ctx) -> usize {
    let big = if c.tiny { 64 } else if c.index < 16 { 4000 } else { 600_000 };
    if c.index >= 16 {
        if let Some(v) = c.rng.near(1 << 21) {
            return v as usize;
        }
    }
    match c.rng.below(16) {
        0 | 1 => 0,
        2 => 1,
        3..=8 => c.rng.below(200),
        9..=11 => c.rng.below(5000.min(big)),
        12 => *c.rng.pick(&[4095usize, 4096, 4097, 16383, 16384, 16385, 32768, 65536]),
        13 | 14 => c.rng.below(60_000.min(big)),
        _ => {
            if c.rng.chance(1, 12) && big > 100_000 {
                c.rng.range(2_000_000, 5_000_000)
            } else {
                c.rng.below(big)
            }
        }
    }
}

/// A file with holes: `len` bytes, zero except for `marks` (position, bytes).
pub struct Sparse {
    pub path: PathBuf,
    pub len: u64,
    pub marks: Vec<(u64, Vec<u8>)>,
}
impl Sparse {
    pub fn make(c: &mut Ctx, name: &str) -> Sparse {
        use std::os::unix::fs::FileExt;
        let path = fresh(&c.dir, name);
        let len = (1u64 << 32) + c.rng.range(70_000, 3 << 30) as u64;
        let f = std::fs::OpenOptions::new().create(true).write(true).open(&path).unwrap();
        f.set_len(len).unwrap();
        let mut marks = vec![];
        let mut at = 0u64;
        for p in [0u64, 1 << 16, (1 << 31) - 2000, (1 << 32) - 3000, (1 << 32) + 20_000, len - 5000] {
            let p = p.max(at);
            let n = c.rng.range(4000, 5000).min((len - p) as usize);
            let b = c.rng.bytes(n);
            f.write_all_at(&b, p).unwrap();
            at = p + n as u64;
            marks.push((p, b));
        }
        Sparse { path, len, marks }
    }
    pub fn bytes(&self, a: u64, b: u64) -> Vec<u8> {
        let mut v = vec![0u8; (b - a) as usize];
        for (p, m) in &self.marks {
            let (s, e) = (a.max(*p), b.min(p + m.len() as u64));
            if s < e {
                v[(s - a) as usize..(e - a) as usize].copy_from_slice(&m[(s - p) as usize..(e - p) as usize]);
            }
        }
        v
    }
    /// mostly across or near the marks
    pub fn range(&self, r: &mut Rng) -> (u64, u64) {
        let (p, m) = r.pick(&self.marks);
        let a = (p + r.below(m.len() + 2000) as u64).saturating_sub(1000).min(self.len);
        let n = if r.chance(1, 8) { r.below(200_000) } else { r.below(3000) };
        (a, (a + n as u64).min(self.len))
    }
}
impl Drop for Sparse {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.path);
    }
}

fn c19_giant(c: &mut Ctx, k: u64) -> Res {
    c.nontrivial = true;
    c.count("large_cases", 1);
    let rt = runtime(1);
    match k % 4 {
        // reads beyond 4 GiB
        0 => {
            let f = Sparse::make(c, "c19-sparse");
            c.note(f.len);
            rt.block_on(async {
                let r = match BlockFileReader::new(&f.path).await {
                    Ok(r) => r,
                    Err(e) => return viol("open-failed", format!("{}", e)),
                };
                ensure!(r.len() == f.len, "len", "reported length {} of a file of {} bytes", r.len(), f.len);
                for _ in 0..300 {
                    let (a, b) = f.range(&mut c.rng);
                    match r.read_block(range(a, b)).await {
                        Err(e) => return viol("read-failed", format!("reading {}..{} of {} bytes: {}", a, b, f.len, e)),
                        Ok(v) => {
                            if let Some(d) = diff_bytes(&v, &f.bytes(a, b)) {
                                return viol("read-bytes", format!("reading {}..{} of {} bytes: {}", a, b, f.len, d));
                            }
                        }
                    }
                    c.count("ranges_read_back", 1);
                    c.max("offset_read", b);
                }
                Ok(())
            })?;
            c.sample = Some(format!("file of {} bytes with holes", f.len));
        }
        // positions beyond 4 GiB; the bytes go to the null device
        1 => {
            let path = fresh(&c.dir, "c19-null");
            std::os::unix::fs::symlink("/dev/null", &path).unwrap();
            let n = (24 << 20) + c.rng.below(4 << 20);
            let block = vec![0x5Au8; n];
            let r = rt.block_on(async {
                let mut w = match BlockWriter::new(&path).await {
                    Ok(w) => w,
                    Err(e) => return viol("create-failed", format!("{}", e)),
                };
                let mut total = 0u64;
                while total < (1 << 32) + (100 << 20) {
                    if let Err(e) = w.write_block(&block).await {
                        return viol("write-failed", format!("after {} bytes: {}", total, e));
                    }
                    total += n as u64;
                    ensure!(w.pos() == total, "pos", "the position is {} after {} bytes", w.pos(), total);
                    c.count("positions_checked", 1);
                }
                c.max("position", total);
                Ok(())
            });
            let _ = std::fs::remove_file(&path);
            r?;
            c.note(n as u64);
            c.sample = Some(format!("blocks of {} bytes up to position 2^32 and more", n));
        }
        m => {
            // very many blocks, or blocks larger than any internal buffer
            let path = fresh(&c.dir, "c19-large");
            let lens: Vec<usize> = if m == 2 {
                (0..66_000).map(|i| i % 7).collect()
            } else {
                (0..6).map(|i| [2 << 20, (2 << 20) + 1, (4 << 20) - 1, 9_000_000, 17 << 20, 33][i] + c.rng.below(3)).collect()
            };
            let mut total = vec![];
            let mut ends = vec![];
            let res: Res = rt.block_on(async {
                let mut w = match BlockWriter::new(&path).await {
                    Ok(w) => w,
                    Err(e) => return viol("create-failed", format!("{}", e)),
                };
                for n in &lens {
                    let b = c.rng.bytes(*n);
                    if let Err(e) = w.write_block(&b).await {
                        return viol("write-failed", format!("block of {} bytes: {}", n, e));
                    }
                    total.extend_from_slice(&b);
                    ends.push(total.len() as u64);
                    ensure!(w.pos() == total.len() as u64, "pos", "after {} blocks the position is {}, {} bytes were written", ends.len(), w.pos(), total.len());
                    c.count("positions_checked", 1);
                }
                if let Err(e) = w.flush().await {
                    return viol("flush-failed", format!("flush: {}", e));
                }
                let got = std::fs::read(&path).unwrap();
                if let Some(d) = diff_bytes(&got, &total) {
                    return viol("content", format!("{} blocks {:?}: file differs: {}", lens.len(), &lens[..lens.len().min(30)], d));
                }
                let r = match BlockFileReader::new(&path).await {
                    Ok(r) => r,
                    Err(e) => return viol("open-failed", format!("{}", e)),
                };
                let mut a = 0;
                for (i, b) in ends.iter().enumerate() {
                    if lens.len() < 100 || i % 61 == 0 {
                        match r.read_block(range(a, *b)).await {
                            Ok(v) => ensure!(v == total[a as usize..*b as usize], "read-bytes", "reading {}..{} returns other bytes", a, b),
                            Err(e) => return viol("read-failed", format!("reading {}..{}: {}", a, b, e)),
                        }
                        c.count("ranges_read_back", 1);
                    }
                    a = *b;
                }
                Ok(())
            });
            let _ = std::fs::remove_file(&path);
            res?;
            c.note(total.len() as u64);
            c.count("blocks_written", lens.len() as u64);
            c.max("file_bytes", total.len() as u64);
            c.sample = Some(format!("{} blocks, {} bytes", lens.len(), total.len()));
        }
    }
    Ok(())
}

pub fn c19(c: &mut Ctx) -> Res {
    if let Some(k) = c.giant() {
        return c19_giant(c, k);
    }
    let path = fresh(&c.dir, "c19");
    let nblocks = c.size(120);
    let threads = *c.rng.pick(&[1usize, 1, 2, 4]);
    let rt = runtime(threads);
    let old = c.rng.chance(1, 4);
    if old {
        let n = c.rng.below(50_000);
        std::fs::write(&path, content(7, n)).unwrap();
    }
    let mut total: Vec<u8> = vec![];
    let mut blocks: Vec<(u64, u64)> = vec![];
    let mut lens = vec![];
    let delay = if c.rng.chance(1, 8) { 200 } else { 0 };
    let armed = Armed::new(&c.dir, Plan { delay_us: delay, seed: c.rng.next(), ..Default::default() }, false);
    let res: Res = rt.block_on(async {
        let mut w = match BlockWriter::new(&path).await {
            Ok(w) => w,
            Err(e) => return viol("create-failed", format!("creating the file: {}", e)),
        };
        ensure!(w.pos() == 0, "pos", "position of a new file is {}", w.pos());
        for i in 0..nblocks {
            let again = !blocks.is_empty() && c.rng.chance(1, 10);
            let b = if again {
                // the block before once more
                let (s, e): (u64, u64) = *blocks.last().unwrap();
                total[s as usize..e as usize].to_vec()
            } else {
                let n = gen_block_len(c);
                c.rng.blob(n)
            };
            let n = b.len();
            lens.push(n);
            if let Err(e) = w.write_block(&b).await {
                return viol("write-failed", format!("writing block {} of {} bytes: {}", i, n, e));
            }
            blocks.push((total.len() as u64, (total.len() + n) as u64));
            total.extend_from_slice(&b);
            ensure!(w.pos() == total.len() as u64, "pos", "after block {} ({} bytes) the position is {}, {} bytes were written", i, n, w.pos(), total.len());
            c.count("positions_checked", 1);
            if c.rng.chance(1, 12) {
                if let Err(e) = w.flush().await {
                    return viol("flush-failed", format!("flush: {}", e));
                }
                let got = std::fs::read(&path).unwrap();
                if let Some(d) = diff_bytes(&got, &total) {
                    return viol("flushed-content", format!("after flushing {} blocks {:?} the file differs: {}", i + 1, &lens[..lens.len().min(30)], d));
                }
                c.count("intermediate_flushes", 1);
            }
        }
        if let Err(e) = w.flush().await {
            return viol("flush-failed", format!("flush: {}", e));
        }
        let got = std::fs::read(&path).unwrap();
        if let Some(d) = diff_bytes(&got, &total) {
            return viol("content", format!("{} blocks {:?}: file differs: {}", nblocks, &lens[..lens.len().min(30)], d));
        }
        let r = match BlockFileReader::new(&path).await {
            Ok(r) => r,
            Err(e) => return viol("open-failed", format!("opening the flushed file: {}", e)),
        };
        ensure!(r.len() == total.len() as u64, "len", "reported length {} of a file of {} bytes", r.len(), total.len());
        let mut ranges = blocks.clone();
        for _ in 0..20 {
            let a = c.rng.range(0, total.len());
            let b = c.rng.range(a, total.len());
            ranges.push((a as u64, b as u64));
        }
        ranges.push((0, total.len() as u64));
        ranges.push((total.len() as u64, total.len() as u64));
        for (a, b) in ranges {
            match r.read_block(range(a, b)).await {
                Err(e) => return viol("read-failed", format!("reading {}..{} of {} bytes: {}", a, b, total.len(), e)),
                Ok(v) => {
                    if let Some(d) = diff_bytes(&v, &total[a as usize..b as usize]) {
                        return viol("read-bytes", format!("reading {}..{} of {} bytes: {}", a, b, total.len(), d));
                    }
                }
            }
            c.count("ranges_read_back", 1);
        }
        Ok(())
    });
    armed.done();
    drop(rt);
    let _ = std::fs::remove_file(&path);
    res?;
    c.note(threads as u64);
    for l in &lens {
        c.note(*l as u64);
    }
    c.count("blocks_written", nblocks as u64);
    c.count("bytes_written", total.len() as u64);
    c.max("file_bytes", total.len() as u64);
    c.nontrivial = nblocks > 1;
    c.sample = Some(format!("blocks of {:?} bytes{}", &lens[..lens.len().min(16)], if old { " over an older file" } else { "" }));
    Ok(())
}

// ---------------------------------------------------------------- C20

pub fn gen_range(r: &mut Rng, len: u64) -> (u64, u64) {
    let a = r.below(len as usize + 1) as u64;
    if let Some(v) = r.near(len) {
        return match r.below(3) {
            0 => (v, (v + r.below(300) as u64).min(len)),
            1 => (v.saturating_sub(r.below(300) as u64), v),
            _ => (a.min(len - v), a.min(len - v) + v),
        };
    }
    let k = match r.below(8) {
        0 => 0,
        1 => 1,
        2..=5 => r.below(300) as u64,
        _ => r.below(len as usize + 1) as u64,
    };
    (a, (a + k).min(len))
}

fn label(r: &mut Rng, i: usize) -> OpInfo {
    match r.below(8) {
        0 => OpInfo::GenericBlock,
        1 => OpInfo::IndexBlock,
        _ => OpInfo::DataBlock { first_row_id: i as u32 ^ 0x5A5A },
    }
}

pub const READ_ERRORS: [i32; 14] = [
    libc::EIO, libc::EIO, libc::EIO, libc::EINVAL, libc::ESTALE, libc::EBADF, libc::EAGAIN, libc::ENOMEM, libc::ENXIO, libc::EISDIR, libc::EPERM, libc::ETIMEDOUT, libc::ENODATA, libc::EOVERFLOW,
];

/// Very many operations, or operations beyond 4 GiB.
fn c20_giant(c: &mut Ctx, k: u64) -> Res {
    let f = Sparse::make(c, "c20-sparse");
    let n = if k % 2 == 0 { 66_000 } else { 400 };
    let mut rs: Vec<(u64, u64, bool)> = vec![];
    for i in 0..n {
        let bad = i % 97 == 5;
        let (a, b) = f.range(&mut c.rng);
        let b = if n > 1000 { b.min(a + 40) } else { b };
        rs.push(if bad { (a, f.len + 1 + c.rng.below(1000) as u64, true) } else { (a, b, false) });
    }
    let ops: Vec<_> = rs.iter().enumerate().map(|(i, x)| read_op(x.0, x.1, OpInfo::DataBlock { first_row_id: i as u32 })).collect();
    let rt = runtime(1 + k as usize % 3);
    rt.block_on(async {
        let r = match BlockFileReader::new(&f.path).await {
            Ok(r) => r,
            Err(e) => return viol("open-failed", format!("{}", e)),
        };
        let mut s = r.read_blocks(ops);
        let mut i = 0usize;
        while let Some(item) = s.next().await {
            ensure!(i < n, "extra-result", "more than {} results", n);
            let (a, b, bad) = rs[i];
            match item {
                Ok(blk) => {
                    let (buf, info) = block_parts(blk);
                    ensure!(info == OpInfo::DataBlock { first_row_id: i as u32 }, "label", "result {} of {} carries label {:?}", i, n, info);
                    ensure!(!bad, "failure-hidden", "operation {} on {}..{} of {} bytes yields {} bytes", i, a, b, f.len, buf.len());
                    if let Some(d) = diff_bytes(&buf, &f.bytes(a, b)) {
                        return viol("bytes", format!("result {} of {} for {}..{}: {}", i, n, a, b, d));
                    }
                    c.count("blocks_matched", 1);
                }
                Err(e) => {
                    let (err, info) = error_parts(e);
                    ensure!(info == OpInfo::DataBlock { first_row_id: i as u32 }, "error-label", "error {} of {} carries label {:?}", i, n, info);
                    ensure!(bad, "unexpected-error", "operation {} on {}..{} of {} bytes failed: {}", i, a, b, f.len, err);
                    c.count("errors_matched", 1);
                }
            }
            i += 1;
        }
        ensure!(i == n, "missing-result", "a batch of {} operations yields {} results", n, i);
        Ok(())
    })?;
    c.note(f.len);
    c.count("batches_complete", 1);
    c.count("operations", n as u64);
    c.count("large_cases", 1);
    c.nontrivial = true;
    c.sample = Some(format!("{} operations on {} bytes", n, f.len));
    Ok(())
}

pub fn c20(c: &mut Ctx) -> Res {
    if let Some(k) = c.giant() {
        return c20_giant(c, k);
    }
    let path = fresh(&c.dir, "c20");
    let near = c.rng.near(300_000);
    let len = match c.rng.below(4) {
        _ if near.is_some() => near.unwrap() as usize,
        0 => c.rng.below(50),
        1 => c.rng.below(2000),
        _ => c.rng.below(if c.tiny { 100 } else { 60_000 }),
    };
    let data = content(c.rng.next(), len);
    std::fs::write(&path, &data).unwrap();
    let nops = c.size(260);
    let mut ops = vec![];
    let mut want: Vec<Result<(u64, u64), ()>> = vec![];
    let mut labels = vec![];
    let mut rules = vec![];
    let mut faulty = std::collections::HashSet::new();
    let style = c.rng.below(4);
    for i in 0..nops {
        let (a, b) = match style {
            0 => gen_range(&mut c.rng, len as u64),
            // backwards
            1 => {
                let k = len as u64 / (nops as u64).max(1);
                let s = (nops - 1 - i) as u64 * k;
                (s, s + k)
            }
            // the same again
            2 if i > 0 && c.rng.chance(1, 2) => {
                let k = c.rng.below(i);
                match want[k] {
                    Ok(x) => x,
                    Err(()) => gen_range(&mut c.rng, len as u64),
                }
            }
            _ => gen_range(&mut c.rng, len as u64),
        };
        let bad = c.rng.chance(1, 15);
        let (a, b) = if bad { (a, len as u64 + 1 + c.rng.below(100) as u64) } else { (a, b) };
        if !bad && b > a && c.rng.chance(1, 25) {
            faulty.insert(a);
        }
        let l = label(&mut c.rng, i);
        ops.push(read_op(a, b, l.clone()));
        labels.push(l);
        want.push(if bad { Err(()) } else { Ok((a, b)) });
        c.note(a);
        c.note(b);
    }
    #[cfg(any(miri, vh_nosys))]
    let faulty: std::collections::HashSet<u64> = Default::default();
    for a in &faulty {
        rules.push(Rule { persistent: true, offset: Some(*a), ..Rule::new(&[Kind::Read], 1, Action::Fail(*c.rng.pick(&READ_ERRORS))) });
    }
    let threads = *c.rng.pick(&[1usize, 2, 3]);
    let delay = *c.rng.pick(&[0u64, 0, 60, 300]);
    let slow = c.rng.chance(1, 4);
    let stop_at = if c.rng.chance(1, 10) { Some(c.rng.below(nops + 1)) } else { None };
    let rt = runtime(threads);
    let armed = Armed::new(&c.dir, Plan { delay_us: if nops > 60 { delay.min(60) } else { delay }, rules, seed: c.rng.next(), ..Default::default() }, true);
    let res: Res = rt.block_on(async {
        let r = match BlockFileReader::new(&path).await {
            Ok(r) => r,
            Err(e) => return viol("open-failed", format!("{}", e)),
        };
        let mut s = r.read_blocks(ops);
        let mut i = 0;
        loop {
            if stop_at == Some(i) {
                return Ok(());
            }
            let Some(item) = s.next().await else { break };
            ensure!(i < nops, "extra-result", "a batch of {} operations yields more than {} results", nops, nops);
            match (item, &want[i]) {
                (Ok(b), w) => {
                    let (buf, info) = block_parts(b);
                    ensure!(info == labels[i], "label", "result {} of {} carries label {:?}, operation {} has {:?}", i, nops, info, i, labels[i]);
                    match w {
                        Ok((a, e)) => {
                            if let Some(d) = diff_bytes(&buf, &data[*a as usize..*e as usize]) {
                                return viol("bytes", format!("result {} of {} for {}..{}: {}", i, nops, a, e, d));
                            }
                            c.count("blocks_matched", 1);
                        }
                        Err(()) => return viol("failure-hidden", format!("operation {} cannot succeed but yields {} bytes", i, buf.len())),
                    }
                }
                (Err(e), w) => {
                    let (err, info) = error_parts(e);
                    ensure!(info == labels[i], "error-label", "the error of operation {} carries label {:?}, expected {:?}", i, info, labels[i]);
                    let hit = matches!(w, Ok((a, e)) if faulty.contains(a) && e > a);
                    ensure!(w.is_err() || hit, "unexpected-error", "operation {} ({:?}) failed: {}", i, w, err);
                    c.count("errors_matched", 1);
                }
            }
            if slow && i % 7 == 3 {
                tokio::task::yield_now().await;
            }
            i += 1;
        }
        ensure!(i == nops, "missing-result", "a batch of {} operations yields {} results", nops, i);
        c.count("batches_complete", 1);
        Ok(())
    });
    let t = armed.done();
    drop(rt);
    let _ = std::fs::remove_file(&path);
    res.map_err(|v| Viol { msg: format!("{} [file of {} bytes, {} threads, delay {}us]", v.msg, len, threads, delay), ..v })?;
    // distinct completion orders
    let mut order = 0u64;
    for e in &t.events {
        order = mix(order, e.arg);
    }
    c.note(order);
    c.count("reads_observed", t.count(Kind::Read));
    c.count("operations", nops as u64);
    c.nontrivial = nops > 1;
    c.sample = Some(format!("{} operations on {} bytes, {} to fail, {} threads, delays up to {}us", nops, len, want.iter().filter(|w| w.is_err()).count(), threads, delay));
    Ok(())
}

// ---------------------------------------------------------------- C21

fn bad_range(r: &mut Rng, len: u64) -> (u64, u64) {
    let small = r.near(u64::MAX - len - 100).unwrap_or(1 + r.below(5000) as u64).max(1);
    match r.below(14) {
        0 => (len, len + 1),
        1 => (0, len + small),
        2 => (len + small, len + small),
        3 => (len + small, len + small + 10),
        4 if len > 0 => {
            let a = 1 + r.below(len as usize) as u64;
            (a, r.below(a as usize) as u64)
        }
        5 => (len + small, len / 2),
        6 => (0, u64::MAX),
        7 => (u64::MAX - small, u64::MAX),
        8 => (u64::MAX, u64::MAX),
        9 => (u64::MAX, 0),
        10 => (r.below(len as usize + 1) as u64, 1u64 << r.range(32, 63)),
        11 => (1u64 << 63, (1u64 << 63) + small),
        12 => ((1u64 << 63) - small, (1u64 << 63) + 7),
        _ => {
            let a = len + r.next() % 1_000_000;
            (a, a + 1 + small)
        }
    }
}

/// Ranges outside a file of more than 4 GiB.
fn c21_giant(c: &mut Ctx) -> Res {
    let f = Sparse::make(c, "c21-sparse");
    let rt = runtime(1);
    rt.block_on(async {
        let r = match BlockFileReader::new(&f.path).await {
            Ok(r) => r,
            Err(e) => return viol("open-failed", format!("{}", e)),
        };
        for _ in 0..120 {
            let over = 1 + c.rng.below(4000) as u64;
            let (a, b) = match c.rng.below(6) {
                0 => (f.len - c.rng.below(3000) as u64, f.len + over),
                1 => (f.len + over, f.len + over + 100),
                2 => (f.len + over, 100),
                3 => (f.len - 10, f.len - 11 - over),
                4 => ((1 << 32) + over, (1 << 32) + over - 1),
                // as a 32-bit number it would lie inside
                _ => (f.len + (1 << 32) + 5, f.len + (1 << 32) + 5 + over),
            };
            c.note(a);
            c.note(b);
            let r2 = r.clone();
            match tokio::spawn(async move { r2.read_block(range(a, b)).await }).await {
                Err(e) => return viol("panic", format!("reading {}..{} of a file of {} bytes panicked: {}", a, b, f.len, e)),
                Ok(Ok(v)) => return viol("accepted", format!("reading {}..{} of a file of {} bytes returned {} bytes", a, b, f.len, v.len())),
                Ok(Err(_)) => c.count("refused_single", 1),
            }
            let (a, b) = f.range(&mut c.rng);
            match r.read_block(range(a, b)).await {
                Ok(v) => ensure!(v == f.bytes(a, b), "later-read", "reading {}..{} of {} bytes returned other bytes", a, b, f.len),
                Err(e) => return viol("later-read", format!("reading {}..{} of {} bytes failed: {}", a, b, f.len, e)),
            }
            c.count("reads_after_refusal", 1);
        }
        Ok(())
    })?;
    c.count("large_cases", 1);
    c.nontrivial = true;
    c.sample = Some(format!("file of {} bytes with holes", f.len));
    Ok(())
}

pub fn c21(c: &mut Ctx) -> Res {
    let path = fresh(&c.dir, "c21");
    if c.giant().is_some() {
        return c21_giant(c);
    }
    let len = *c.rng.pick(&[0usize, 1, 13, 4096]) + if c.rng.chance(1, 2) { c.rng.below(if c.tiny { 20 } else { 9000 }) } else { 0 };
    let data = content(c.rng.next(), len);
    std::fs::write(&path, &data).unwrap();
    let rt = runtime(*c.rng.pick(&[1usize, 2]));
    let n = if c.tiny { 6 } else { 60 };
    let mut sample = vec![];
    let res: Res = rt.block_on(async {
        let r = match BlockFileReader::new(&path).await {
            Ok(r) => r,
            Err(e) => return viol("open-failed", format!("{}", e)),
        };
        for i in 0..n {
            let (a, b) = bad_range(&mut c.rng, len as u64);
            ensure!(a > b || b > len as u64, "harness", "range {}..{} is inside the file", a, b);
            c.note(a);
            c.note(b);
            if sample.len() < 5 {
                sample.push((a, b));
            }
            // in its own task: a panic of the read must not be taken for a harness failure
            if i % 3 == 2 {
                let (g1, g2) = (gen_range(&mut c.rng, len as u64), gen_range(&mut c.rng, len as u64));
                let ops = vec![
                    read_op(g1.0, g1.1, OpInfo::DataBlock { first_row_id: 1 }),
                    read_op(a, b, OpInfo::DataBlock { first_row_id: 2 }),
                    read_op(g2.0, g2.1, OpInfo::DataBlock { first_row_id: 3 }),
                ];
                let r2 = r.clone();
                let out = tokio::spawn(async move {
                    let v: Vec<_> = r2.read_blocks(ops).collect().await;
                    v
                })
                .await;
                let v = match out {
                    Ok(v) => v,
                    Err(e) => return viol("panic", format!("a batch with range {}..{} of a file of {} bytes panicked: {}", a, b, len, e)),
                };
                ensure!(v.len() == 3, "batch-results", "{} results for 3 operations", v.len());
                for (k, item) in v.into_iter().enumerate() {
                    match item {
                        Ok(blk) => {
                            let (buf, info) = block_parts(blk);
                            ensure!(info == OpInfo::DataBlock { first_row_id: k as u32 + 1 }, "batch-label", "result {} has label {:?}", k, info);
                            ensure!(k != 1, "accepted", "reading {}..{} of a file of {} bytes returned {} bytes", a, b, len, buf.len());
                            let g = if k == 0 { g1 } else { g2 };
                            ensure!(buf == data[g.0 as usize..g.1 as usize], "neighbour", "the read next to a refused range returned other bytes");
                        }
                        Err(e) => {
                            let (err, info) = error_parts(e);
                            ensure!(info == OpInfo::DataBlock { first_row_id: k as u32 + 1 }, "batch-label", "error {} has label {:?}", k, info);
                            ensure!(k == 1, "neighbour", "a read inside the file next to range {}..{} failed: {}", a, b, err);
                        }
                    }
                }
                c.count("refused_in_batches", 1);
            } else {
                let r2 = r.clone();
                let out = tokio::spawn(async move { r2.read_block(range(a, b)).await }).await;
                match out {
                    Err(e) => return viol("panic", format!("reading {}..{} of a file of {} bytes panicked: {}", a, b, len, e)),
                    Ok(Ok(v)) => return viol("accepted", format!("reading {}..{} of a file of {} bytes returned {} bytes", a, b, len, v.len())),
                    Ok(Err(_)) => c.count("refused_single", 1),
                }
            }
            let g = gen_range(&mut c.rng, len as u64);
            match r.read_block(range(g.0, g.1)).await {
                Ok(v) => ensure!(v == data[g.0 as usize..g.1 as usize], "later-read", "after refusing {}..{}, reading {}..{} returned other bytes", a, b, g.0, g.1),
                Err(e) => return viol("later-read", format!("after refusing {}..{}, reading {}..{} failed: {}", a, b, g.0, g.1, e)),
            }
            c.count("reads_after_refusal", 1);
        }
        // the file shrinks between any two calls of a read
        if len > 1 && c.rng.chance(1, 3) {
            let to = c.rng.below(len);
            let a = c.rng.below(len - 1);
            let b = c.rng.range(to.max(a) + 1, len);
            let rule = Rule::new(&[Kind::Read], c.rng.range(1, 3) as u64, Action::Cut(to as u64));
            let short = *c.rng.pick(&[0, 200]);
            let armed = Armed::new(&c.dir, Plan { rules: vec![rule], short, seed: c.rng.next(), ..Default::default() }, false);
            let r2 = match BlockFileReader::new(&path).await {
                Ok(r) => r,
                Err(e) => return viol("open-failed", format!("{}", e)),
            };
            let out = tokio::spawn(async move { r2.read_block(range(a as u64, b as u64)).await }).await;
            let t = armed.done();
            match out {
                Err(e) => return viol("panic", format!("reading {}..{} of a file cut from {} to {} bytes meanwhile panicked: {}", a, b, len, to, e)),
                Ok(Ok(v)) => {
                    // the bytes were all there when the read began
                    ensure!(v == data[a..b], "cut-meanwhile", "reading {}..{} of a file cut from {} to {} bytes meanwhile returned {} other bytes", a, b, len, to, v.len());
                    c.count("read_before_the_cut", 1);
                }
                Ok(Err(e)) => {
                    ensure!(t.faults > 0, "later-read", "reading {}..{} of {} bytes failed: {}", a, b, len, e);
                    c.count("refused_when_cut_meanwhile", 1);
                }
            }
            std::fs::write(&path, &data).unwrap();
            let g = gen_range(&mut c.rng, len as u64);
            match r.read_block(range(g.0, g.1)).await {
                Ok(v) => ensure!(v == data[g.0 as usize..g.1 as usize], "later-read", "after a file was cut and restored, reading {}..{} returned other bytes", g.0, g.1),
                Err(e) => return viol("later-read", format!("after a file was cut and restored, reading {}..{} failed: {}", g.0, g.1, e)),
            }
        }
        // the file shrinks under the reader
        if len > 1 {
            let to = c.rng.below(len);
            std::fs::OpenOptions::new().write(true).open(&path).unwrap().set_len(to as u64).unwrap();
            let r2 = r.clone();
            let out = tokio::spawn(async move { r2.read_block(range(0, len as u64)).await }).await;
            match out {
                Err(e) => return viol("panic", format!("reading 0..{} of a file cut to {} bytes panicked: {}", len, to, e)),
                Ok(Ok(v)) => return viol("accepted", format!("reading 0..{} of a file cut to {} bytes returned {} bytes", len, to, v.len())),
                Ok(Err(_)) => c.count("refused_after_shrinking", 1),
            }
        }
        Ok(())
    });
    drop(rt);
    let _ = std::fs::remove_file(&path);
    res?;
    c.nontrivial = true;
    c.sample = Some(format!("file of {} bytes, ranges {:?}..", len, sample));
    Ok(())
}

// ---------------------------------------------------------------- C22

/// Which ranges the clients ask for: any, or always a few that are equally long, start at the same
/// place or end at the same place, so that results mixed up between clients would be plausible.
fn gen_hot(r: &mut Rng, len: u64) -> Vec<(u64, u64)> {
    let k = r.range(2, 4) as u64;
    let mode = r.below(4);
    if len < 2 || mode == 3 {
        return vec![];
    }
    let l = 1 + r.below((len as usize / 2).min(4096)) as u64;
    (0..k)
        .map(|i| match mode {
            0 => {
                let a = r.below((len - l + 1) as usize) as u64;
                (a, a + l)
            }
            1 => (0, (l + i).min(len)),
            _ => ((len - l).saturating_sub(i), len),
        })
        .collect()
}

fn pick_range(r: &mut Rng, len: u64, hot: &[(u64, u64)]) -> (u64, u64) {
    if hot.is_empty() || r.chance(1, 50) {
        gen_range(r, len)
    } else {
        *r.pick(hot)
    }
}

async fn client(reader: BlockFileReader, hot: Arc<Vec<(u64, u64)>>, data: Arc<Vec<u8>>, mut r: Rng, n: usize, log: Arc<Mutex<Vec<u32>>>, id: u32, counts: Arc<[AtomicU64; 4]>) -> Res {
    let len = data.len() as u64;
    for _ in 0..n {
        if r.chance(1, 8) {
            // given up while it is under way
            let (a, b) = pick_range(&mut r, len, &hot);
            let mut f = reader.read_block(range(a, b));
            if let std::task::Poll::Ready(Ok(v)) = futures::poll!(&mut f) {
                if let Some(d) = diff_bytes(&v, &data[a as usize..b as usize]) {
                    return viol("bytes", format!("client {}: {}..{}: {}", id, a, b, d));
                }
            }
            drop(f);
            counts[3].fetch_add(1, Ordering::Relaxed);
        }
        match r.below(3) {
            0 | 1 => {
                let (a, b) = pick_range(&mut r, len, &hot);
                match reader.read_block(range(a, b)).await {
                    Ok(v) => {
                        if let Some(d) = diff_bytes(&v, &data[a as usize..b as usize]) {
                            return viol("bytes", format!("client {}: {}..{}: {}", id, a, b, d));
                        }
                    }
                    Err(e) => return viol("read-failed", format!("client {}: {}..{}: {}", id, a, b, e)),
                }
                counts[0].fetch_add(1, Ordering::Relaxed);
            }
            _ => {
                let k = r.range(1, 12);
                let rs: Vec<_> = (0..k).map(|_| pick_range(&mut r, len, &hot)).collect();
                let ops = rs.iter().enumerate().map(|(i, x)| read_op(x.0, x.1, OpInfo::DataBlock { first_row_id: id << 16 | i as u32 })).collect();
                let stop = if r.chance(1, 3) { r.below(k + 1) } else { k };
                let clone = reader.clone();
                let mut s = clone.read_blocks(ops);
                for (i, x) in rs.iter().enumerate().take(stop) {
                    match s.next().await {
                        Some(Ok(b)) => {
                            let (buf, info) = block_parts(b);
                            ensure!(info == OpInfo::DataBlock { first_row_id: id << 16 | i as u32 }, "label", "client {} result {} has label {:?}", id, i, info);
                            if let Some(d) = diff_bytes(&buf, &data[x.0 as usize..x.1 as usize]) {
                                return viol("bytes", format!("client {}: batch result {} for {}..{}: {}", id, i, x.0, x.1, d));
                            }
                            counts[1].fetch_add(1, Ordering::Relaxed);
                        }
                        Some(Err(e)) => return viol("read-failed", format!("client {}: batch result {}: {}", id, i, error_parts(e).0)),
                        None => return viol("missing-result", format!("client {}: no result {} of {}", id, i, k)),
                    }
                }
                if stop < k {
                    counts[2].fetch_add(1, Ordering::Relaxed);
                }
            }
        }
        log.lock().unwrap().push(id);
    }
    Ok(())
}

pub fn c22(c: &mut Ctx) -> Res {
    let path = fresh(&c.dir, "c22");
    let len = 1 + if c.giant().is_some() { 3_000_000 } else { c.rng.below(if c.tiny { 50 } else { 40_000 }) };
    let data = Arc::new(content(c.rng.next(), len));
    std::fs::write(&path, &data[..]).unwrap();
    // now and then a crowd
    let crowd = if c.tiny {
        None
    } else {
        match c.rng.near(200) {
            None if c.rng.chance(1, 40) => Some(*c.rng.pick(&[20usize, 40, 70, 140])),
            n => n.map(|n| n as usize + 2),
        }
    };
    let tasks = if c.tiny { 3 } else { crowd.unwrap_or_else(|| c.rng.range(2, 8)) };
    c.max("tasks_on_a_reader", tasks as u64);
    let threads = if c.tiny { 2 } else { c.rng.range(1, 4) };
    let hot = Arc::new(gen_hot(&mut c.rng, len as u64));
    let many = !c.tiny && crowd.is_none() && !hot.is_empty() && len < 100_000 && c.rng.chance(1, 4);
    let n = if c.tiny { 2 } else if many { 600 } else if crowd.is_some() { c.rng.range(2, 7) } else { c.rng.range(3, 25) };
    let own_threads = !c.tiny && tasks < 50 && c.rng.chance(1, 3);
    let log = Arc::new(Mutex::new(vec![]));
    let counts: Arc<[AtomicU64; 4]> = Arc::new(Default::default());
    let delay = if many { 0 } else { *c.rng.pick(&[0u64, 20, 150]) };
    let armed = Armed::new(&c.dir, Plan { delay_us: delay, seed: c.rng.next(), ..Default::default() }, false);
    let rt = Arc::new(runtime(threads));
    let reader = match rt.block_on(BlockFileReader::new(&path)) {
        Ok(r) => r,
        Err(e) => return viol("open-failed", format!("{}", e)),
    };
    let mut results: Vec<Res> = vec![];
    if own_threads {
        let hs: Vec<_> = (0..tasks)
            .map(|i| {
                let (reader, data, log, counts, r) = (reader.clone(), data.clone(), log.clone(), counts.clone(), Rng::new(c.rng.next()));
                let hot = hot.clone();
                std::thread::spawn(move || runtime(1).block_on(client(reader, hot, data, r, n, log, i as u32, counts)))
            })
            .collect();
        for h in hs {
            results.push(h.join().unwrap_or_else(|e| viol("panic", panic_text(&*e))));
        }
    } else {
        let futs: Vec<_> = (0..tasks).map(|i| client(reader.clone(), hot.clone(), data.clone(), Rng::new(c.rng.next()), n, log.clone(), i as u32, counts.clone())).collect();
        if threads == 1 || c.rng.chance(1, 3) {
            results = rt.block_on(futures::future::join_all(futs));
        } else {
            let hs: Vec<_> = futs.into_iter().map(|f| rt.spawn(f)).collect();
            for h in hs {
                results.push(rt.block_on(h).unwrap_or_else(|e| viol("panic", e.to_string())));
            }
        }
    }
    // the reader survives its clones
    let last = rt.block_on(reader.read_block(range(0, len as u64)));
    armed.done();
    drop(rt);
    let _ = std::fs::remove_file(&path);
    for r in results {
        r.map_err(|v| Viol { msg: format!("{} [{} tasks, {} threads, file of {} bytes]", v.msg, tasks, threads, len), ..v })?;
    }
    match last {
        Ok(v) => ensure!(v == data[..], "bytes", "the reader returns other bytes after its clones were used"),
        Err(e) => return viol("read-failed", format!("the reader fails after its clones were used: {}", e)),
    }
    let mut switches = 0;
    let log = log.lock().unwrap();
    for w in log.windows(2) {
        switches += (w[0] != w[1]) as u64;
    }
    for l in log.iter() {
        c.note(*l as u64);
    }
    c.note(len as u64);
    c.count("single_reads", counts[0].load(Ordering::Relaxed));
    c.count("batched_reads", counts[1].load(Ordering::Relaxed));
    c.count("batches_abandoned", counts[2].load(Ordering::Relaxed));
    c.count("single_reads_abandoned", counts[3].load(Ordering::Relaxed));
    c.count("client_switches_observed", switches);
    c.count("few_ranges_shared_by_all", !hot.is_empty() as u64);
    c.nontrivial = switches > 0;
    c.sample = Some(format!("{} clients on {} threads, {} steps each; completion order {}", tasks, threads, n, short(&log.iter().map(|x| *x as u8).collect::<Vec<_>>())));
    Ok(())
}

/// Prints what the system call monitor sees of one write, sync and read, made by this program.
pub fn self_test(dir: &Path) {
    use std::io::Write;
    use std::os::unix::fs::FileExt;
    let path = dir.join("self-test");
    let armed = Armed::new(dir, Plan::default(), true);
    let mut w = std::fs::File::create(&path).unwrap();
    w.write_all(b"0123456789").unwrap();
    w.sync_all().unwrap();
    w.sync_data().unwrap();
    std::fs::File::open(&path).unwrap().read_exact_at(&mut [0; 5], 2).unwrap();
    let t = armed.done();
    println!("{}", t.text(100));
    for k in [Kind::Open, Kind::Write, Kind::Sync, Kind::DataSync, Kind::Read] {
        assert!(t.count(k) > 0, "no {:?} call observed", k);
    }
}
