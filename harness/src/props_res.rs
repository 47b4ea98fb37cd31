//! C34-C38: what reading and writing hold on to and hold up, and columns given up half way.
use crate::ctx::*;
use crate::ensure;
use crate::props_buf::gen_bytes;
use crate::props_enc::{check_blocks, Bin, Blocks};
use crate::props_io::{content, diff_bytes, fresh, runtime, Armed};
use crate::props_seg::*;
use crate::sys::{self, Kind, Plan};
use crate::{live_bytes, peak_bytes};
use futures::StreamExt;
use meerkat::store::verif::io::{self as mio, BlockReader};
use meerkat::store::verif::*;
use std::path::Path;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- C34

/// Blocks a batch may hold ahead of its consumer.
const AHEAD: usize = 2;

pub fn c34(c: &mut Ctx) -> Res {
    if !c.tiny && c.rng.chance(1, 6) {
        return c34_memory(c);
    }
    let path = fresh(&c.dir, "c34");
    // distinct, not empty, not overlapping ranges: each read names its operation
    let nops = c.size(180).max(1);
    let style = c.rng.below(4);
    let mut at = 0u64;
    let mut rs = vec![];
    for _ in 0..nops {
        at += c.rng.below(3) as u64 * c.rng.below(50) as u64;
        let n = 1 + match c.rng.below(6) {
            0 => 0,
            1 => c.rng.below(5000),
            _ => c.rng.below(200),
        } as u64;
        rs.push((at, at + n));
        at += n;
    }
    let len = at as usize + c.rng.below(100);
    let data = content(c.rng.next(), len);
    std::fs::write(&path, &data).unwrap();
    match style {
        0 => rs.reverse(),
        1 => {
            for i in (1..nops).rev() {
                rs.swap(i, c.rng.below(i + 1));
            }
        }
        _ => {}
    }
    let stop = match c.rng.below(4) {
        0 => c.rng.below(nops + 1),
        1 => 0,
        _ => nops,
    };
    let polls_first = c.rng.chance(1, 2);
    let threads = *c.rng.pick(&[1usize, 2, 3]);
    let delay = *c.rng.pick(&[0u64, 0, 40, 200]);
    let wait = c.rng.range(1, 40);
    let rt = runtime(threads);
    let ops: Vec<_> = rs.iter().enumerate().map(|(i, x)| mio::read_op(x.0, x.1, mio::OpInfo::DataBlock { first_row_id: i as u32 })).collect();
    let mut by_start: Vec<usize> = (0..nops).collect();
    by_start.sort_unstable_by_key(|i| rs[*i].0);
    let find = |off: u64| {
        let k = by_start.partition_point(|i| rs[*i].0 <= off).checked_sub(1)?;
        Some(by_start[k]).filter(|i| off < rs[*i].1)
    };
    let armed = Armed::new(&c.dir, Plan { delay_us: if nops > 60 { delay.min(40) } else { delay }, seed: c.rng.next(), ..Default::default() }, true);
    let mut most = 0usize;
    let mut looks = 0u64;
    let mut pending = 0u64;
    let res: Res = rt.block_on(async {
        let r = match mio::BlockFileReader::new(&path).await {
            Ok(r) => r,
            Err(e) => return viol("open-failed", format!("{}", e)),
        };
        let mut ids = std::collections::HashSet::new();
        let mut seen = 0;
        let mut look = |done: usize| -> Res {
            let new: Vec<u64> = sys::snapshot(|s| s.reads_started.get(seen..).unwrap_or_default().to_vec());
            seen += new.len();
            ids.extend(new.into_iter().filter_map(find));
            looks += 1;
            let ahead = ids.len().saturating_sub(done);
            most = most.max(ahead);
            ensure!(ahead <= AHEAD, "too-far-ahead", "{} of {} operations were started when {} results had been taken", ids.len(), nops, done);
            Ok(())
        };
        let mut s = r.read_blocks(ops);
        if polls_first {
            tokio::time::sleep(Duration::from_micros(100)).await;
            look(0)?;
        }
        for i in 0..stop {
            if nops < 200 && i % 3 == 0 {
                // poll once and look at what was started while it is pending
                let mut item = None;
                futures::future::poll_fn(|cx| {
                    if let std::task::Poll::Ready(x) = s.poll_next_unpin(cx) {
                        item = Some(x);
                    }
                    std::task::Poll::Ready(())
                })
                .await;
                match item {
                    None => {
                        pending += 1;
                        if i % 2 == 0 {
                            tokio::time::sleep(Duration::from_micros(200)).await;
                        }
                        look(i)?;
                    }
                    Some(x) => {
                        look(i + 1)?;
                        match x {
                            Some(Ok(b)) => ensure!(mio::block_parts(b).0 == data[rs[i].0 as usize..rs[i].1 as usize], "bytes", "result {} has other bytes", i),
                            Some(Err(e)) => return viol("read-failed", format!("result {}: {}", i, mio::error_parts(e).0)),
                            None => return viol("missing-result", format!("{} results for {} operations", i, nops)),
                        }
                        continue;
                    }
                }
            }
            let item = match s.next().await {
                Some(x) => x,
                None => return viol("missing-result", format!("{} results for {} operations", i, nops)),
            };
            look(i + 1)?;
            match item {
                Ok(b) => {
                    let (buf, _) = mio::block_parts(b);
                    if let Some(d) = diff_bytes(&buf, &data[rs[i].0 as usize..rs[i].1 as usize]) {
                        return viol("bytes", format!("result {}: {}", i, d));
                    }
                }
                Err(e) => return viol("read-failed", format!("result {}: {}", i, mio::error_parts(e).0)),
            }
            if i % wait == wait - 1 && nops < 60 {
                // a slow consumer
                tokio::time::sleep(Duration::from_micros(300)).await;
                look(i + 1)?;
            }
        }
        if stop < nops {
            drop(s);
            tokio::time::sleep(Duration::from_micros(500)).await;
            look(stop)?;
        }
        Ok(())
    });
    // background reads end with the runtime
    drop(rt);
    let t = armed.done();
    let _ = std::fs::remove_file(&path);
    let w = |v: Viol| Viol { msg: format!("{} [{} operations on {} bytes, {} taken, {} threads]", v.msg, nops, len, stop, threads), ..v };
    res.map_err(w)?;
    let mut total = 0u64;
    let mut ops_read = std::collections::BTreeSet::new();
    for e in t.events.iter().filter(|e| e.kind == Kind::Read && e.ret > 0) {
        let (Some(off), n) = (e.off, e.ret as u64) else { continue };
        let Some(k) = find(off) else { return viol("foreign-read", format!("{} bytes at {} were read, nobody asked for them", n, off)).map_err(w) };
        ensure!(off + n <= rs[k].1, "foreign-read", "{} bytes at {} were read, the operation ends at {}", n, off, rs[k].1);
        ops_read.insert(k);
        total += n;
    }
    ensure!(ops_read.len() <= stop + AHEAD, "read-after-drop", "{} operations were read, {} results were taken before the batch was dropped", ops_read.len(), stop);
    let asked: u64 = ops_read.iter().map(|k| rs[*k].1 - rs[*k].0).sum();
    ensure!(total <= asked, "read-twice", "{} bytes were read for {} bytes asked for", total, asked);
    c.note(len as u64);
    c.note(nops as u64);
    c.note(stop as u64);
    c.count("batches", 1);
    c.count("dropped_early", (stop < nops) as u64);
    c.count("reads_observed", t.count(Kind::Read));
    c.count("looks", looks);
    c.count("looks_while_pending", pending);
    c.max("operations_ahead", most as u64);
    c.nontrivial = nops > AHEAD;
    c.sample = Some(format!("{} operations, {} results taken, at most {} ahead", nops, stop, most));
    Ok(())
}

/// The memory of a batch of large blocks.
fn c34_memory(c: &mut Ctx) -> Res {
    let path = fresh(&c.dir, "c34m");
    let block = c.rng.range(100_000, 400_000);
    let nops = c.rng.range(20, 60);
    let f = std::fs::File::create(&path).unwrap();
    f.set_len((block * nops) as u64).unwrap();
    drop(f);
    let rt = runtime(*c.rng.pick(&[1usize, 2]));
    let slow = c.rng.chance(1, 2);
    let failing = c.rng.chance(1, 3);
    let res: Result<(), Viol>;
    let base;
    let peak;
    {
        let r = match rt.block_on(mio::BlockFileReader::new(&path)) {
            Ok(r) => r,
            Err(e) => return viol("open-failed", format!("{}", e)),
        };
        let end = (block * nops) as u64;
        let ops: Vec<_> = (0..nops)
            .map(|i| {
                let a = (i * block) as u64;
                if failing && i % 5 == 2 {
                    mio::read_op(end - 1, end + 1 + (block * nops * 2) as u64, mio::OpInfo::GenericBlock)
                } else {
                    mio::read_op(a, a + block as u64, mio::OpInfo::GenericBlock)
                }
            })
            .collect();
        base = live_bytes();
        let (x, p) = peak_bytes(|| {
            rt.block_on(async {
                let mut s = r.read_blocks(ops);
                let mut n = 0;
                while let Some(item) = s.next().await {
                    if let Ok(b) = item {
                        ensure!(mio::block_parts(b).0.len() == block, "bytes", "a block of {} bytes has another length", block);
                    }
                    n += 1;
                    if slow && n % 10 == 1 {
                        tokio::time::sleep(Duration::from_millis(1)).await;
                    }
                }
                ensure!(n == nops, "missing-result", "{} results for {} operations", n, nops);
                Ok(())
            })
        });
        res = x;
        peak = p;
    }
    drop(rt);
    let _ = std::fs::remove_file(&path);
    res?;
    let grown = peak.saturating_sub(base);
    ensure!(grown <= block * (AHEAD + 2) + (1 << 16), "memory", "reading {} blocks of {} bytes one after another takes {} bytes at once", nops, block, grown);
    c.note(block as u64);
    c.note(nops as u64);
    c.count("large_batches_measured", 1);
    c.max("blocks_held", (grown / block) as u64);
    c.nontrivial = true;
    c.sample = Some(format!("{} blocks of {} bytes: at most {} bytes at once", nops, block, grown));
    Ok(())
}

// ---------------------------------------------------------------- C35

fn open_below(dir: &Path) -> Vec<String> {
    let mut v = vec![];
    for e in std::fs::read_dir("/proc/self/fd").unwrap().flatten() {
        if let Ok(p) = std::fs::read_link(e.path()) {
            if p.starts_with(dir) {
                v.push(p.strip_prefix(dir).unwrap().display().to_string());
            }
        }
    }
    v
}

/// One use of files that ends in some way; everything is dropped inside.
#[derive(Clone, Debug)]
enum Use {
    Writer { writes: usize, flush: bool, sync: bool },
    Reader { singles: usize, batch: usize, taken: usize, clones: usize, cancelled: usize, bad: bool },
    Segment { cols: usize, rows: usize, stop: usize },
}

fn gen_use(r: &mut Rng) -> Use {
    match r.below(3) {
        0 => Use::Writer { writes: r.below(6), flush: r.chance(1, 2), sync: r.chance(1, 3) },
        1 => {
            let batch = r.below(20);
            Use::Reader { singles: r.below(4), batch, taken: r.below(batch + 1), clones: r.below(4), cancelled: r.below(3), bad: r.chance(1, 3) }
        }
        _ => Use::Segment { cols: r.below(3), rows: r.below(200), stop: r.below(5) },
    }
}

async fn run_use(u: &Use, dir: &Path, id: uuid::Uuid) -> Result<(), SegError> {
    match u {
        Use::Segment { cols, rows, stop } => run_segment(*cols, *rows, *stop, dir, id).await,
        u => run_plain(u, dir).await,
    }
}

async fn run_plain(u: &Use, dir: &Path) -> Result<(), SegError> {
    match u {
        Use::Segment { .. } => Ok(()),
        Use::Writer { writes, flush, sync } => {
            let mut w = step("create", mio::BlockWriter::new(dir.join("w")).await)?;
            for i in 0..*writes {
                step("write", w.write_block(&vec![i as u8; 1 + i * 700]).await)?;
            }
            if *flush {
                step("flush", w.flush().await)?;
            }
            if *sync {
                step("sync", w.sync().await)?;
            }
            Ok(())
        }
        Use::Reader { singles, batch, taken, clones, cancelled, bad } => {
            let r = step("open", mio::BlockFileReader::new(dir.join("r")).await)?;
            let n = r.len();
            let cs: Vec<_> = (0..*clones).map(|_| r.clone()).collect();
            for i in 0..*singles {
                let r = cs.get(i).unwrap_or(&r);
                step("read", r.read_block(mio::range(0, n - i as u64)).await)?;
            }
            for _ in 0..*cancelled {
                let mut f = r.read_block(mio::range(0, n));
                let _ = futures::poll!(&mut f);
                drop(f);
            }
            if *bad {
                if r.read_block(mio::range(0, n + 1)).await.is_ok() {
                    return Err(SegError::Step("bad read".into(), "accepted".into()));
                }
            }
            let ops: Vec<_> = (0..*batch).map(|i| mio::read_op(0, n - i as u64, mio::OpInfo::IndexBlock)).collect();
            let mut s = r.read_blocks(ops);
            for _ in 0..*taken {
                if let Some(Err(e)) = s.next().await {
                    return step("batch", Err(mio::error_parts(e).0));
                }
            }
            drop(s);
            Ok(())
        }
    }
}

async fn run_segment(cols: usize, rows: usize, stop: usize, dir: &Path, id: uuid::Uuid) -> Result<(), SegError> {
    let spec = SegSpec { id, database: "d".into(), table: "t".into(), shard: 1, num_rows: 2, cols: vec![] };
    let mut w = step("create", SegmentWriter::new(dir, info(&spec)).await)?;
    for i in 0..cols {
        let col = plain_col(format!("c{}", i), true, vec![], vec![]);
        let mut cw = step("new column", w.new_binary_column_writer(col_info(&col, Encoding::Raw)))?;
        let mut b = BinaryBuffer::new(true);
        for k in 0..rows {
            if k % 3 == 0 {
                b.append_null()
            } else {
                b.append(&vec![k as u8; 3 * k])
            }
        }
        step("write", cw.write(&b).await)?;
        if stop == 1 {
            return Ok(());
        }
        step("column close", cw.close().await)?;
    }
    if stop == 2 {
        return Ok(());
    }
    step("close", w.verif_close().await)?;
    if stop == 3 {
        return Ok(());
    }
    step("sync", w.verif_sync().await)
}

/// Gives up after a number of polls, in the middle of whatever is going on.
struct Limited<F> {
    work: std::pin::Pin<Box<F>>,
    polls: usize,
}

impl<F: std::future::Future> std::future::Future for Limited<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        if self.polls == 0 {
            return std::task::Poll::Ready(None);
        }
        self.polls -= 1;
        match self.work.as_mut().poll(cx) {
            std::task::Poll::Ready(x) => std::task::Poll::Ready(Some(x)),
            std::task::Poll::Pending if self.polls == 0 => std::task::Poll::Ready(None),
            std::task::Poll::Pending => std::task::Poll::Pending,
        }
    }
}

/// The same uses hundreds of times over: what a use leaves behind shows however little it is.
fn c35_long(c: &mut Ctx) -> Res {
    let dir = Dir(scratch(c, "c35"));
    std::fs::write(dir.0.join("r"), content(5, 3000)).unwrap();
    let n = c.rng.range(1, 3);
    let uses: Vec<Use> = (0..n)
        .map(|_| match gen_use(&mut c.rng) {
            Use::Segment { cols, rows, stop } => Use::Segment { cols, rows: rows.min(30), stop },
            u => u,
        })
        .collect();
    let id = gen_uuid(&mut c.rng);
    let rt = runtime(1);
    let mut live = vec![];
    for round in 0..1024 {
        let r = rt.block_on(async {
            for u in &uses {
                run_use(u, &dir.0, id).await?;
            }
            Ok(())
        });
        if let Err(SegError::Step(s, e)) = r {
            return viol("call-failed", format!("{} failed without any fault: {} {:?}", s, e, uses));
        }
        if [128, 256, 512, 1024].contains(&(round + 1)) {
            // closing goes on in the background
            let begun = Instant::now();
            while !open_below(&dir.0).is_empty() && begun.elapsed() < Duration::from_secs(20) {
                rt.block_on(async { tokio::time::sleep(Duration::from_millis(1)).await });
            }
            live.push(live_bytes() as i64);
        }
    }
    let steps: Vec<i64> = live.windows(2).map(|w| w[1] - w[0]).collect();
    let most = steps.iter().zip([128, 256, 512]).all(|(s, n)| *s >= 4 * n);
    ensure!(!most, "memory-kept", "the memory grows on and on over 1024 repetitions: by {:?} bytes in rounds 128..256, ..512, ..1024 [{:?}]", steps, uses);
    drop(rt);
    let left = open_below(&dir.0);
    ensure!(left.is_empty(), "handle-kept", "{} file handles are still open after everything was dropped: {:?} [{:?}, 1024 rounds]", left.len(), left, uses);
    c.count("uses_repeated_a_thousand_times", n as u64);
    c.note_bytes(format!("{:?}", uses).as_bytes());
    c.nontrivial = true;
    c.sample = Some(format!("{:?} 1024 times: {:?} bytes more", uses, steps));
    Ok(())
}

pub fn c35(c: &mut Ctx) -> Res {
    if c.giant().is_some() {
        return c35_long(c);
    }
    let dir = Dir(scratch(c, "c35"));
    std::fs::write(dir.0.join("r"), content(5, 3000)).unwrap();
    let n = if c.tiny { 2 } else { c.rng.range(1, 8) };
    let uses: Vec<Use> = (0..n).map(|_| gen_use(&mut c.rng)).collect();
    // given up in the middle of a call
    let cancel = c.rng.chance(1, 3);
    let polls: Vec<usize> = uses.iter().map(|_| if cancel && c.rng.chance(2, 3) { c.rng.range(1, 8) } else { usize::MAX }).collect();
    let threads = *c.rng.pick(&[1usize, 2]);
    let id = gen_uuid(&mut c.rng);
    let fault = c.rng.chance(1, 2);
    let errs = [libc::EIO, libc::ENOSPC, libc::EMFILE, libc::EACCES, libc::EAGAIN, libc::EINVAL, libc::EDQUOT, libc::ESTALE];
    let rule = sys::Rule {
        kinds: vec![*c.rng.pick(&[Kind::Open, Kind::Write, Kind::Sync, Kind::Read])],
        nth: 1 + c.rng.below(6) as u64,
        action: sys::Action::Fail(*c.rng.pick(&errs)),
        persistent: c.rng.chance(1, 3),
        suffix: None,
        offset: None,
    };
    let rounds = if c.tiny { 2 } else { 5 };
    let mut live = vec![];
    let (mut failed, mut cancelled) = (0u64, 0u64);
    let mut held_max = 0;
    let mut slowest = Duration::ZERO;
    for round in 0..rounds {
        let rules = if fault { vec![rule.clone()] } else { vec![] };
        let armed = Armed::new(&dir.0, Plan { rules, ..Default::default() }, false);
        let rt = runtime(threads);
        let mut bad: Option<Viol> = None;
        rt.block_on(async {
            for (u, polls) in uses.iter().zip(&polls) {
                let r = match (Limited { work: Box::pin(run_use(u, &dir.0, id)), polls: *polls }).await {
                    None => {
                        cancelled += 1;
                        None
                    }
                    Some(Ok(())) => None,
                    Some(Err(SegError::Step(s, e))) => Some((s, e)),
                };
                if let Some((s, e)) = r {
                    failed += 1;
                    if !fault && bad.is_none() {
                        bad = Some(Viol { sig: "call-failed".into(), msg: format!("{} failed without any fault: {} {:?}", s, e, u) });
                    }
                }
            }
            // background work may still hold them; it ends, and the threads of the pool live on
            held_max = held_max.max(open_below(&dir.0).len());
            let begun = Instant::now();
            let mut idle = Duration::ZERO;
            let mut ms = 0;
            // calls the disk is slow at are waited for
            // (a call that was given up may begin after a look that found nothing: it is judged
            // when the pool has ended)
            let mut left = open_below(&dir.0);
            while !left.is_empty() && idle < Duration::from_secs(3) && begun.elapsed() < Duration::from_secs(60) {
                let t = Instant::now();
                tokio::time::sleep(Duration::from_millis(ms)).await;
                if sys::UNDER_WAY.load(std::sync::atomic::Ordering::Acquire) == 0 {
                    // a process that hardly runs has not been idle for long
                    idle += t.elapsed().min(Duration::from_millis(2 * ms + 2));
                }
                ms = (ms + 1).min(60);
                left = open_below(&dir.0);
            }
            slowest = slowest.max(begun.elapsed());
            if !left.is_empty() && bad.is_none() {
                bad = Some(Viol { sig: "handle-kept".into(), msg: format!("{} file handles are still open 3 s after everything was dropped: {:?} [{:?}, round {}, fault {:?}]", left.len(), left, uses, round, fault.then(|| rule.clone())) });
            }
        });
        drop(rt);
        armed.done();
        if let Some(v) = bad {
            return Err(v);
        }
        let left = open_below(&dir.0);
        ensure!(left.is_empty(), "handle-kept", "{} file handles are still open after everything was dropped: {:?} [{:?}, round {}, fault {:?}]", left.len(), left, uses, round, fault.then(|| rule.clone()));
        live.push(live_bytes());
    }
    // caches fill in the first rounds; afterwards nothing may be added
    if rounds >= 5 {
        let steps: Vec<i64> = live.windows(2).map(|w| w[1] as i64 - w[0] as i64).collect();
        let grow = steps[1..].iter().min().copied().unwrap();
        ensure!(grow < 64, "memory-kept", "every repetition leaves at least {} more bytes allocated: {:?} [{:?}, fault {:?}]", grow, steps, uses, fault.then(|| rule.clone()));
        c.count("rounds_measured", rounds as u64);
    }
    c.count("uses_cancelled_in_a_call", cancelled);
    c.max("slowest_close_ms", slowest.as_millis() as u64);
    c.note_bytes(format!("{:?}{}{:?}{:?}", uses, threads, polls, fault.then(|| rule.clone())).as_bytes());
    c.count("uses", (n * rounds) as u64);
    c.count("calls_failed_by_faults", failed);
    for u in &uses {
        c.count(
            match u {
                Use::Writer { .. } => "writers",
                Use::Reader { .. } => "readers",
                Use::Segment { .. } => "segments",
            },
            rounds as u64,
        );
    }
    c.nontrivial = true;
    c.sample = Some(format!("{:?} fault {:?}", uses, fault.then(|| rule.clone())));
    Ok(())
}

// ---------------------------------------------------------------- C36

/// Keeps nothing of what it is given.
pub struct Drain {
    blocks: u64,
    bytes: u64,
    largest: usize,
    last_row: u32,
}

#[async_trait::async_trait]
impl BlockSink for Drain {
    async fn write_block(&mut self, row_id: u32, block_data: &[u8]) -> anyhow::Result<()> {
        self.blocks += 1;
        self.bytes += block_data.len() as u64;
        self.largest = self.largest.max(block_data.len());
        self.last_row = row_id;
        Ok(())
    }
}

struct Held {
    rows: u64,
    value_bytes: u64,
    live: Vec<usize>,
    blocks: u64,
    stored: u64,
    /// the most rows that were not in a block yet
    pending: u64,
    /// the most bytes of values in a buffer of the caller
    buffer: u64,
}

impl Held {
    fn new(cap: usize) -> Self {
        Held { rows: 0, value_bytes: 0, live: Vec::with_capacity(cap), blocks: 0, stored: 0, pending: 0, buffer: 0 }
    }

    fn note(&mut self, d: &Drain) {
        self.live.push(live_bytes());
        let stored = if d.blocks > 0 { d.last_row as u64 + 1 } else { 0 };
        self.pending = self.pending.max(self.rows.saturating_sub(stored));
    }
}

macro_rules! hold_num {
    ($f:ident, $t:ty, $new:ident) => {
        fn $f(r: &mut Rng, bs: usize, nullable: bool, batches: usize, per: usize, nulls: usize) -> Result<Held, String> {
            let mut e = $new(Encoding::Raw, bs, nullable).map_err(|e| e.to_string())?;
            let mut d = Drain { blocks: 0, bytes: 0, largest: 0, last_row: 0 };
            let mut b = PrimitiveBuffer::<$t>::new(nullable);
            let mut h = Held::new(batches);
            for _ in 0..batches {
                b.clear();
                for _ in 0..per {
                    if nullable && r.chance(nulls, 256) {
                        b.append_null();
                    } else {
                        b.append(r.next() as $t);
                        h.value_bytes += std::mem::size_of::<$t>() as u64;
                    }
                }
                h.rows += per as u64;
                h.buffer = h.buffer.max((b.len() * std::mem::size_of::<$t>()) as u64);
                block_on(e.encode(&b, &mut d)).map_err(|e| e.to_string())?;
                h.note(&d);
            }
            block_on(e.flush(&mut d)).map_err(|e| e.to_string())?;
            h.blocks = d.blocks;
            h.stored = d.bytes;
            if h.rows > 0 && d.last_row as u64 != h.rows - 1 {
                return Err(format!("the last row id is {} of {} rows", d.last_row, h.rows));
            }
            Ok(h)
        }
    };
}
hold_num!(hold_i32, i32, new_i32_encoder);
hold_num!(hold_i64, i64, new_i64_encoder);
hold_num!(hold_u64, u64, new_u64_encoder);
hold_num!(hold_f64, f64, new_f64_encoder);

fn fill(b: &mut BinaryBuffer, r: &mut Rng, nullable: bool, per: usize, vmax: usize, nulls: usize) -> u64 {
    let mut n = 0;
    b.clear();
    for _ in 0..per {
        if nullable && r.chance(nulls, 256) {
            b.append_null();
        } else {
            let k = r.below(vmax + 1);
            b.append(&vec![k as u8; k]);
            n += k as u64;
        }
    }
    n
}

fn hold_binary(r: &mut Rng, bs: usize, nullable: bool, batches: usize, per: usize, vmax: usize, nulls: usize) -> Result<Held, String> {
    let mut e = new_binary_encoder(Encoding::Raw, bs as u32, nullable).map_err(|e| e.to_string())?;
    let mut d = Drain { blocks: 0, bytes: 0, largest: 0, last_row: 0 };
    let mut b = BinaryBuffer::new(nullable);
    let mut h = Held::new(batches);
    for _ in 0..batches {
        let n = fill(&mut b, r, nullable, per, vmax, nulls);
        h.value_bytes += n;
        h.buffer = h.buffer.max(n + 4 * b.len() as u64);
        h.rows += per as u64;
        block_on(e.encode(&b, &mut d)).map_err(|e| e.to_string())?;
        h.note(&d);
    }
    block_on(e.flush(&mut d)).map_err(|e| e.to_string())?;
    h.blocks = d.blocks;
    h.stored = d.bytes;
    Ok(h)
}

/// Several columns of a segment; `live` is taken after each batch.
fn hold_segment(c: &Ctx, r: &mut Rng, nullable: bool, batches: usize, per: usize, vmax: usize, cols: usize) -> Result<Held, String> {
    let dir = Dir(scratch(c, "c36"));
    let rt = runtime(1);
    let spec = SegSpec { id: gen_uuid(r), database: "d".into(), table: "t".into(), shard: 0, num_rows: 0, cols: vec![] };
    let mut h = Held::new(batches * cols);
    rt.block_on(async {
        let mut w = step("create", SegmentWriter::new(&dir.0, info(&spec)).await)?;
        let mut b = BinaryBuffer::new(nullable);
        for i in 0..cols {
            {
                let col = plain_col(format!("c{}", i), nullable, vec![], vec![]);
                let mut cw = step("new column", w.new_binary_column_writer(col_info(&col, Encoding::Raw)))?;
                for _ in 0..batches {
                    h.value_bytes += fill(&mut b, r, nullable, per, vmax, 64);
                    h.rows += per as u64;
                    step("write", cw.write(&b).await)?;
                    h.live.push(live_bytes());
                }
                step("column close", cw.close().await)?;
            }
            h.blocks += entries(&w, |_| {}, nullable).len() as u64;
        }
        step("close", w.verif_close().await)?;
        step("sync", w.verif_sync().await)
    })
    .map_err(|SegError::Step(s, e)| format!("{}: {}", s, e))?;
    h.stored = std::fs::metadata(seg_paths(&dir.0, &spec.id).0).map(|m| m.len()).unwrap_or(0);
    Ok(h)
}

/// A column of very many blocks: nothing but its block index may grow. What is
/// written is swallowed before it reaches the file.
fn c36_many_blocks(c: &mut Ctx) -> Res {
    let nullable = c.rng.chance(1, 2);
    let blocks = if c.thorough { 6000 } else { 2500 };
    let dir = Dir(scratch(c, "c36"));
    let armed = Armed::new(&dir.0, Plan { swallow: true, ..Default::default() }, false);
    let rt = runtime(1);
    let spec = SegSpec { id: gen_uuid(&mut c.rng), database: "d".into(), table: "t".into(), shard: 0, num_rows: 0, cols: vec![] };
    let mut live: Vec<usize> = Vec::with_capacity(blocks);
    let mut listed = 0;
    let r: Result<(), SegError> = rt.block_on(async {
        let mut w = step("create", SegmentWriter::new(&dir.0, info(&spec)).await)?;
        let mut b = BinaryBuffer::new(nullable);
        if nullable {
            b.append_null();
        }
        b.append(&vec![3; 1 << 17]);
        {
            let col = plain_col("many".into(), nullable, vec![], vec![]);
            let mut cw = step("new column", w.new_binary_column_writer(col_info(&col, Encoding::Raw)))?;
            for _ in 0..blocks {
                step("write", cw.write(&b).await)?;
                live.push(live_bytes());
            }
            step("column close", cw.close().await)?;
        }
        listed = entries(&w, |f| (0..blocks).for_each(|_| f(&b)), nullable).len();
        step("close", w.verif_close().await)?;
        step("sync", w.verif_sync().await)
    });
    drop(rt);
    armed.done();
    if let Err(SegError::Step(s, e)) = r {
        return viol("call-failed", format!("{} failed without any fault: {}", s, e));
    }
    let first = blocks / 8;
    let early = live[..=first].iter().max().copied().unwrap_or(0);
    let late = live[first..].iter().max().copied().unwrap_or(0);
    let grown = late.saturating_sub(early);
    // 12 bytes in vectors that double
    let allowed = 32 * blocks + (40 << 10);
    if live_bytes() > 0 {
        ensure!(grown <= allowed, "memory-per-block", "{} more bytes are held after {} blocks than after {} of them ({} expected at most)", grown, blocks, first, allowed);
        c.count("bytes_streamed", (blocks as u64) << 17);
        c.count("columns_of_many_blocks", 1);
        c.max("growth", grown as u64);
    }
    c.count("blocks", listed as u64);
    c.note(blocks as u64);
    c.note(nullable as u64);
    c.nontrivial = true;
    c.sample = Some(format!("{} blocks of one value, nullable {}: {} bytes growth", blocks, nullable, grown));
    Ok(())
}

/// A segment of very many columns: only what the footer says of each of them may
/// stay behind once it is closed.
fn c36_many_columns(c: &mut Ctx) -> Res {
    let nullable = c.rng.chance(1, 2);
    let cols = if c.thorough { 1200 } else { 400 };
    let rows = c.rng.range(1, 4);
    let size = *c.rng.pick(&[20usize, 3000, 40_000, 140_000]);
    let dir = Dir(scratch(c, "c36"));
    let rt = runtime(1);
    let spec = SegSpec { id: gen_uuid(&mut c.rng), database: "d".into(), table: "t".into(), shard: 0, num_rows: 0, cols: vec![] };
    let mut live: Vec<usize> = Vec::with_capacity(cols);
    let r: Result<(), SegError> = rt.block_on(async {
        let mut w = step("create", SegmentWriter::new(&dir.0, info(&spec)).await)?;
        let mut b = BinaryBuffer::new(nullable);
        for i in 0..rows {
            b.append(&vec![i as u8; size]);
        }
        if nullable {
            b.append_null();
        }
        for i in 0..cols {
            let col = plain_col(format!("c{}", i), nullable, vec![], vec![]);
            let mut cw = step("new column", w.new_binary_column_writer(col_info(&col, Encoding::Raw)))?;
            step("write", cw.write(&b).await)?;
            step("column close", cw.close().await)?;
            drop(cw);
            live.push(live_bytes());
        }
        step("close", w.verif_close().await)?;
        step("sync", w.verif_sync().await)
    });
    drop(rt);
    if let Err(SegError::Step(s, e)) = r {
        return viol("call-failed", format!("{} failed without any fault: {}", s, e));
    }
    let first = cols / 8;
    let early = live[..=first].iter().max().copied().unwrap_or(0);
    let late = live[first..].iter().max().copied().unwrap_or(0);
    let grown = late.saturating_sub(early);
    let allowed = 2048 * cols + (64 << 10);
    if live_bytes() > 0 {
        ensure!(grown <= allowed, "memory-per-column", "{} more bytes are held after {} columns of {} bytes than after {} of them ({} expected at most)", grown, cols, rows * size, first, allowed);
        c.count("bytes_streamed", (cols * rows * size) as u64);
        c.count("segments_of_many_columns", 1);
        c.max("growth", grown as u64);
    }
    c.count("blocks", cols as u64);
    c.note((cols * size) as u64);
    c.note(nullable as u64);
    c.nontrivial = true;
    c.sample = Some(format!("{} columns of {} bytes, nullable {}: {} bytes growth", cols, rows * size, nullable, grown));
    Ok(())
}

pub fn c36(c: &mut Ctx) -> Res {
    if matches!(c.giant(), Some(0..=2)) {
        return c36_many_blocks(c);
    }
    if c.giant().is_some() && c.rng.chance(2, 5) || !c.tiny && c.rng.chance(1, 60) {
        return c36_many_columns(c);
    }
    let kind = c.rng.below(6);
    let nullable = c.rng.chance(2, 3);
    let big = c.giant().is_some();
    let mut r = Rng::new(c.rng.next());
    let (bs, per, vmax, text);
    let batches = if c.tiny { 4 } else { 150 };
    let scale = if big { 8 } else { 1 };
    // nulls among the rows, of 256; few values or none in very many rows
    let nulls = if nullable && kind < 5 { *c.rng.pick(&[64usize, 64, 64, 230, 254, 255, 256]) } else { 64 };
    let sparse = nulls > 64;
    let scale = if sparse { scale * c.rng.range(1, 12) } else { scale };
    let res = match kind {
        0..=3 => {
            bs = c.rng.range(1, 4000);
            per = scale * c.rng.range(200, 1500);
            vmax = 8;
            let f = [hold_i32, hold_i64, hold_u64, hold_f64][kind];
            text = format!("{} column", ["i32", "i64", "u64", "f64"][kind]);
            panics(|| f(&mut r, bs, nullable, batches, per, nulls))
        }
        4 => {
            bs = c.rng.range(1, 4000);
            vmax = c.rng.range(1, 300);
            per = scale * c.rng.range(40, 200_000 / (vmax + 100));
            text = "binary column".to_string();
            panics(|| hold_binary(&mut r, bs, nullable, batches, per, vmax, nulls))
        }
        _ => {
            bs = 1 << 17;
            vmax = c.rng.range(500, 6000);
            per = c.rng.range(50_000, 150_000) / (vmax / 2);
            let cols = if big { 6 } else { 1 + c.rng.below(2) };
            text = format!("segment of {} binary columns", cols);
            panics(|| hold_segment(c, &mut r, nullable, batches, per, vmax, cols))
        }
    };
    let text = format!("{} nullable={} ({} of 256 null) block_size={} buffers={} of {} rows, values to {} bytes", text, nullable, nulls, bs, batches, per, vmax);
    let h = match res {
        Ok(Ok(h)) => h,
        Ok(Err(e)) => return viol("call-failed", format!("{} [{}]", e, text)),
        Err(p) => return viol("panic", format!("{} [{}]", p, text)),
    };
    let first = h.live.len() / 4;
    let early = h.live[..=first].iter().max().copied().unwrap_or(0);
    let late = h.live[first..].iter().max().copied().unwrap_or(0);
    let grown = late.saturating_sub(early);
    let through = h.value_bytes * 3 / 4;
    // one block, one value, and what doubling vectors round up; the index takes 12 bytes a block;
    // the buffer of the caller is filled before the first look
    let buffer = if sparse { 4 * h.buffer + per as u64 } else { (per * 8 + per * vmax) as u64 };
    // a bit for each row that waits, in vectors that double
    let bits = if sparse { h.pending * 3 / 8 } else { 0 };
    let allowed = 4 * (bs + vmax) as u64 + if kind == 5 { 48 * h.blocks } else { 0 } + buffer + bits + 65_536;
    if live_bytes() > 0 {
        ensure!(grown as u64 <= allowed, "memory-grows", "{} more bytes are held after {} rows than after a quarter of them ({} expected at most) [{}]", grown, h.rows, allowed, text);
        c.count("bytes_streamed", through);
        c.count("sparse_rows_streamed", if sparse { h.rows } else { 0 });
        c.max("rows_waiting", h.pending);
        c.count("columns_over_8_times_the_bound", (through > 8 * allowed) as u64);
        c.max("growth", grown as u64);
    }
    c.note_bytes(text.as_bytes());
    c.count("blocks", h.blocks);
    c.count("rows", h.rows);
    c.count("kind_segments", (kind == 5) as u64);
    c.count("kind_binary", (kind == 4) as u64);
    c.count("kind_numeric", (kind < 4) as u64);
    c.nontrivial = h.blocks > 1;
    c.sample = Some(format!("{}: {} bytes of values, {} blocks, {} bytes growth", text, h.value_bytes, h.blocks, grown));
    Ok(())
}

// ---------------------------------------------------------------- C37

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
    Closed,
    /// dropped after this many of its buffers
    Dropped(usize),
    /// asked for with an encoding that is refused
    Refused,
}

pub fn c37(c: &mut Ctx) -> Res {
    let v = if c.tiny {
        0
    } else if c.index < 16 {
        1
    } else {
        *c.rng.pick(&[0usize, 1, 1, 2])
    };
    let mut spec = gen_seg(&mut c.rng, if c.tiny { 2 } else { 7 }, v);
    if spec.cols.is_empty() {
        spec = gen_seg(&mut c.rng, 7, v);
    }
    // a column given up may be tried again under its name
    let mut plan: Vec<(ColSpec, Fate)> = vec![];
    for col in std::mem::take(&mut spec.cols) {
        match c.rng.below(4) {
            0 => {
                let k = c.rng.below(col.batches.len() + 1);
                plan.push((col, Fate::Dropped(k)));
            }
            1 => {
                let k = c.rng.below(col.batches.len() + 1);
                let mut again = col.clone();
                again.nullable = true;
                again.rows = (0..c.rng.below(30)).map(|_| if c.rng.chance(1, 3) { None } else { Some(gen_bytes(&mut c.rng, 3, 200)) }).collect();
                again.batches = vec![again.rows.len()];
                again.ctype = ColumnType::Dynamic;
                plan.push((col, Fate::Dropped(k)));
                plan.push((again, Fate::Closed));
            }
            2 if c.rng.chance(1, 2) => plan.push((col, Fate::Refused)),
            2 if c.rng.chance(1, 2) => {
                // written twice: the later one takes the place of the earlier one
                let mut again = col.clone();
                again.nullable = !col.nullable;
                again.rows = (0..c.rng.below(30)).map(|_| if again.nullable && c.rng.chance(1, 3) { None } else { Some(gen_bytes(&mut c.rng, 3, 200)) }).collect();
                again.batches = vec![again.rows.len()];
                again.itype = IndexType::NoIndex;
                again.ctype = ColumnType::Dynamic;
                plan.push((col, Fate::Closed));
                plan.push((again, Fate::Closed));
            }
            _ => plan.push((col, Fate::Closed)),
        }
    }
    let text = format!(
        "{:?}",
        plan.iter().map(|(col, f)| format!("{} rows in {} buffers: {:?}", col.rows.len(), col.batches.len(), f)).collect::<Vec<_>>()
    );
    let dir = Dir(scratch(c, "c37"));
    let rt = runtime(*c.rng.pick(&[1usize, 1, 2]));
    let mut ends: Vec<(u64, Vec<(u32, u64)>)> = vec![];
    let mut leftovers = 0u64;
    let r = panics(|| {
        rt.block_on(async {
            let mut w = step("create", SegmentWriter::new(&dir.0, info(&spec)).await)?;
            let mut at = 13u64;
            for (col, fate) in &plan {
                match fate {
                    Fate::Closed => {
                        let idx = write_column(&mut w, col, false).await?;
                        let start = at;
                        at = idx.last().map_or(at, |x| x.1);
                        ends.push((start, idx));
                    }
                    Fate::Refused => {
                        if w.new_binary_column_writer(col_info(col, Encoding::RleDictionary)).is_ok() {
                            return Err(SegError::Step("refusal".into(), "RleDictionary is accepted for a binary column".into()));
                        }
                    }
                    Fate::Dropped(k) => {
                        {
                            let mut cw = step("new column", w.new_binary_column_writer(col_info(col, Encoding::Raw)))?;
                            let mut pos = 0;
                            for n in col.batches.iter().take(*k) {
                                let mut b = BinaryBuffer::new(col.nullable);
                                for row in &col.rows[pos..pos + n] {
                                    match row {
                                        Some(v) => b.append(v),
                                        None => b.append_null(),
                                    }
                                }
                                pos += n;
                                step("column write", cw.write(&b).await)?;
                            }
                        }
                        leftovers += (w.verif_data_len() > at) as u64;
                        at = w.verif_data_len();
                    }
                }
            }
            step("close", w.verif_close().await)?;
            step("sync", w.verif_sync().await)
        })
    });
    drop(rt);
    let what = |v: Viol| Viol { msg: format!("{} [{}]", v.msg, text), ..v };
    match r {
        Err(p) => return viol("panic", p).map_err(what),
        Ok(Err(SegError::Step(s, e))) => return viol("call-failed", format!("{} failed without any fault: {}", s, e)).map_err(what),
        Ok(Ok(())) => {}
    }
    let dropped = plan.iter().filter(|x| matches!(x.1, Fate::Dropped(_))).count() as u64;
    let retried = plan.windows(2).filter(|w| w[0].0.name == w[1].0.name).count() as u64;
    spec.cols = plan.into_iter().filter(|x| x.1 == Fate::Closed).map(|x| x.0).collect();
    let written_twice = spec.cols.windows(2).filter(|w| w[0].name == w[1].name).count() as u64;
    let (dat, idx) = seg_paths(&dir.0, &spec.id);
    let file = read(&dat)?;
    for (col, (start, entries)) in spec.cols.iter().zip(&ends) {
        let mut blocks: Blocks = vec![];
        let mut at = *start;
        for (id, end) in entries {
            ensure!(*end > at && *end <= file.len() as u64, "index-range", "column {:?}: a block ends at {}, the one before at {}, the file at {} [{}]", col.name, end, at, file.len(), text);
            blocks.push((*id, file[at as usize..*end as usize].to_vec()));
            at = *end;
        }
        check_blocks::<Bin>(&blocks, &col.rows, col.nullable).map_err(|v| what(Viol { sig: format!("rows-{}", v.sig), msg: format!("column {:?}: {}", col.name, v.msg) }))?;
        c.count("columns_closed", 1);
    }
    let all = std::mem::take(&mut spec.cols);
    for (i, col) in all.iter().enumerate() {
        if !all[i + 1..].iter().any(|x| x.name == col.name) {
            spec.cols.push(col.clone());
        }
    }
    check_index(&read(&idx)?, &spec).map_err(what)?;
    spec.cols = all;
    note_spec(c, &spec);
    c.note_bytes(text.as_bytes());
    c.count("columns_written_twice", written_twice);
    c.count("columns_dropped", dropped);
    c.count("columns_retried", retried);
    c.count("blocks_left_by_dropped_columns", leftovers);
    c.nontrivial = dropped > 0;
    c.sample = Some(text);
    Ok(())
}


// ---------------------------------------------------------------- C38

/// Runs until told to stop; each run is a turn the runtime gave to another task.
async fn ticker(stop: &std::sync::atomic::AtomicBool) {
    use std::sync::atomic::Ordering::*;
    while !stop.load(Acquire) {
        sys::TICKS.fetch_add(1, AcqRel);
        tokio::task::yield_now().await;
    }
}

fn stuck_text(k: Kind) -> &'static str {
    match k {
        Kind::Open => "stuck-open",
        Kind::Write => "stuck-write",
        Kind::Sync | Kind::DataSync => "stuck-sync",
        Kind::Read => "stuck-read",
        _ => "stuck",
    }
}

const HOLDABLE: [Kind; 5] = [Kind::Open, Kind::Write, Kind::Sync, Kind::DataSync, Kind::Read];

fn count_held(c: &mut Ctx, held: &[(Kind, bool)]) {
    for (k, _) in held {
        c.count(
            match k {
                Kind::Open => "held_open",
                Kind::Write => "held_write",
                Kind::Sync | Kind::DataSync => "held_sync",
                _ => "held_read",
            },
            1,
        );
    }
}

pub fn c38(c: &mut Ctx) -> Res {
    if c.rng.chance(1, 2) {
        c38_turns(c)
    } else {
        c38_beside(c)
    }
}

/// A slow call, and the turns other tasks of the same thread get meanwhile.
fn c38_turns(c: &mut Ctx) -> Res {
    use std::sync::atomic::{AtomicBool, Ordering::*};
    let dir = Dir(scratch(c, "c38"));
    std::fs::write(dir.0.join("r"), content(7, 3000)).unwrap();
    let n = if c.tiny { 1 } else { c.rng.range(1, 5) };
    let mut uses: Vec<Use> = (0..n).map(|_| gen_use(&mut c.rng)).collect();
    let id = gen_uuid(&mut c.rng);
    let own_thread = c.rng.chance(2, 3);
    if !own_thread {
        // a segment's column writers stay on their thread
        uses.retain(|u| !matches!(u, Use::Segment { .. }));
    }
    let kinds = if c.rng.chance(1, 2) { HOLDABLE.to_vec() } else { vec![*c.rng.pick(&HOLDABLE)] };
    let ticks = c.rng.range(1, 20) as u64;
    let chance = *c.rng.pick(&[256u32, 128, 30]);
    let hold = sys::Hold { kinds: kinds.clone(), part: String::new(), most: u64::MAX, chance, ticks: Some(ticks) };
    let armed = Armed::new(&dir.0, Plan { hold: Some(hold), seed: c.rng.next(), ..Default::default() }, false);
    let before = sys::TICKS.load(Acquire);
    let stop = std::sync::Arc::new(AtomicBool::new(false));
    // one thread runs all tasks, or one worker does
    let rt = if own_thread {
        runtime(1)
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(1).max_blocking_threads(16).enable_all().build().unwrap()
    };
    macro_rules! work {
        ($run:expr) => {{
            let (uses, d, stop) = (uses.clone(), dir.0.clone(), stop.clone());
            async move {
                let mut r: Result<(), String> = Ok(());
                for u in &uses {
                    r = r.and($run(u, &d, id).await.map_err(|SegError::Step(s, e)| format!("{} failed: {}", s, e)));
                }
                sys::FREE.store(true, Release);
                stop.store(true, Release);
                r
            }
        }};
    }
    let r = if own_thread {
        let (stop, work) = (stop.clone(), work!(run_use));
        rt.block_on(async move { futures::join!(work, ticker(&stop)).0 })
    } else {
        let work = work!(|u, d, _| run_plain(u, d));
        let (a, b) = (rt.spawn(work), rt.spawn(async move { ticker(&stop).await }));
        rt.block_on(async move {
            let r = match a.await {
                Ok(r) => r,
                Err(e) => Err(format!("panicked: {}", e)),
            };
            let _ = b.await;
            r
        })
    };
    let turns = sys::TICKS.load(Acquire) - before;
    drop(rt);
    let t = armed.done();
    let what = if own_thread { "on the thread of the runtime" } else { "on the only worker of the runtime" };
    if let Some((k, _)) = t.held.iter().find(|h| h.1) {
        return viol(stuck_text(*k), format!("no other task {} had {} turns while one {:?} call took {} s [{:?}]", what, ticks, k, sys::PATIENCE, uses));
    }
    if let Err(e) = r {
        return viol("call-failed", format!("{} [{:?}]", e, uses));
    }
    count_held(c, &t.held);
    c.count("turns_of_other_tasks", turns);
    c.note_bytes(format!("{:?}{:?}{}{}{}", uses, kinds, ticks, chance, own_thread).as_bytes());
    c.nontrivial = !t.held.is_empty();
    c.sample = Some(format!("{:?}: {} calls held for {} turns {}", uses, t.held.len(), ticks, what));
    Ok(())
}

/// A call that does not return before work on other files, or by other clients of the reader, is done.
fn c38_beside(c: &mut Ctx) -> Res {
    use std::sync::atomic::Ordering::*;
    let dir = Dir(scratch(c, "c38"));
    let (da, db) = (dir.0.join("slow"), dir.0.join("beside"));
    // so many slow calls, or clients that make them
    let slows = match c.rng.near(140) {
        Some(n) => n as usize + 1,
        None if c.rng.chance(1, 40) => *c.rng.pick(&[17usize, 33, 65, 130]),
        None => *c.rng.pick(&[1usize, 1, 1, 2, 3, 5, 9]),
    };
    c.max("slow_clients", slows as u64);
    for d in [&da, &db] {
        std::fs::create_dir(d).unwrap();
        std::fs::write(d.join("r"), content(7, 3000)).unwrap();
    }
    for k in 0..slows {
        let d = da.join(k.to_string());
        std::fs::create_dir(&d).unwrap();
        std::fs::write(d.join("r"), content(7, 3000)).unwrap();
    }
    let shared = c.rng.chance(1, 2);
    let threads = *c.rng.pick(&[1usize, 1, 2, 3]);
    let id = gen_uuid(&mut c.rng);
    let data = content(7, 3000);
    // the slow client
    let mut slow = loop {
        let u = gen_use(&mut c.rng);
        match &u {
            Use::Reader { singles, batch, taken, .. } if *singles + (*batch).min(*taken) == 0 => {}
            _ => break u,
        }
    };
    let at = c.rng.below(2900) as u64;
    let batched = c.rng.chance(1, 2);
    let others = c.rng.range(1, 4);
    let per: Vec<Vec<(u64, u64)>> = (0..others)
        .map(|_| {
            (0..c.rng.range(1, 12))
                .map(|_| loop {
                    let s = c.rng.below(2990) as u64;
                    if s < at || s >= at + slows as u64 {
                        return (s, s + 1 + c.rng.below(3000 - s as usize) as u64);
                    }
                })
                .map(|(a, b)| (a, b.min(3000)))
                .collect()
        })
        .collect();
    let uses: Vec<Use> = (0..others).map(|_| gen_use(&mut c.rng)).collect();
    if shared {
        slow = Use::Reader { singles: 1, batch: 0, taken: 0, clones: 0, cancelled: 0, bad: false };
    }
    let kinds = if c.rng.chance(1, 2) { HOLDABLE.to_vec() } else { vec![*c.rng.pick(&HOLDABLE)] };
    let hold = if shared {
        sys::Hold { kinds: vec![Kind::Read], part: "slow".into(), most: slows as u64, chance: 256, ticks: None }
    } else {
        sys::Hold { kinds: kinds.clone(), part: "slow".into(), most: u64::MAX, chance: 256, ticks: None }
    };
    let armed = Armed::new(&dir.0, Plan { hold: Some(hold), seed: c.rng.next(), ..Default::default() }, true);
    // enough threads for everything that is held
    let rt = if threads == 1 { tokio::runtime::Builder::new_current_thread() } else { tokio::runtime::Builder::new_multi_thread() }
        .worker_threads(threads)
        .max_blocking_threads(64 + 3 * slows)
        .enable_all()
        .build()
        .unwrap();
    let local = tokio::task::LocalSet::new();
    let res: Result<(), String> = local.block_on(&rt, async {
        let mut tasks: Vec<tokio::task::JoinHandle<Result<(), String>>> = vec![];
        let mut first: Vec<tokio::task::JoinHandle<Result<(), String>>> = vec![];
        if shared {
            let r = mio::BlockFileReader::new(da.join("r")).await.map_err(|e| format!("open failed: {}", e))?;
            for at in at..at + slows as u64 {
                let one = r.clone();
                let want = data.clone();
                first.push(tokio::spawn(async move {
                    let got = if batched {
                        let mut s = one.read_blocks(vec![mio::read_op(at, at + 50, mio::OpInfo::IndexBlock)]);
                        match s.next().await {
                            Some(Ok(b)) => mio::block_parts(b).0,
                            Some(Err(e)) => return Err(format!("slow read failed: {}", mio::error_parts(e).0)),
                            None => return Err("no result".into()),
                        }
                    } else {
                        one.read_block(mio::range(at, at + 50)).await.map_err(|e| format!("slow read failed: {}", e))?
                    };
                    if got[..] == want[at as usize..at as usize + 50] {
                        Ok(())
                    } else {
                        Err("the slow read has other bytes".into())
                    }
                }));
            }
            // the slow reads are under way before the others begin
            for _ in 0..3000 {
                if sys::snapshot(|s| s.holds >= slows as u64) {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            for (k, rs) in per.iter().cloned().enumerate() {
                let (r, data) = (r.clone(), data.clone());
                tasks.push(tokio::spawn(async move {
                    if k % 2 == 0 {
                        for (a, b) in rs {
                            let got = r.read_block(mio::range(a, b)).await.map_err(|e| format!("read failed: {}", e))?;
                            if got[..] != data[a as usize..b as usize] {
                                return Err(format!("bytes of {}..{} differ", a, b));
                            }
                        }
                    } else {
                        let mut s = r.read_blocks(rs.iter().map(|x| mio::read_op(x.0, x.1, mio::OpInfo::GenericBlock)).collect());
                        for (a, b) in rs {
                            match s.next().await {
                                Some(Ok(x)) => {
                                    if mio::block_parts(x).0[..] != data[a as usize..b as usize] {
                                        return Err(format!("bytes of {}..{} differ in a batch", a, b));
                                    }
                                }
                                Some(Err(e)) => return Err(format!("batched read failed: {}", mio::error_parts(e).0)),
                                None => return Err("a batch ended early".into()),
                            }
                        }
                    }
                    Ok(())
                }));
            }
        } else {
            for k in 0..slows {
                let (u, d) = (slow.clone(), da.join(k.to_string()));
                first.push(tokio::task::spawn_local(async move { run_use(&u, &d, id).await.map_err(|SegError::Step(s, e)| format!("slow: {} failed: {}", s, e)) }));
            }
            for (k, u) in uses.iter().cloned().enumerate() {
                let d = db.join(k.to_string());
                std::fs::create_dir(&d).unwrap();
                std::fs::copy(db.join("r"), d.join("r")).unwrap();
                tasks.push(tokio::task::spawn_local(async move { run_use(&u, &d, id).await.map_err(|SegError::Step(s, e)| format!("beside: {} failed: {}", s, e)) }));
            }
        }
        let mut r = Ok(());
        for t in tasks {
            r = r.and(t.await.unwrap_or_else(|e| Err(format!("panicked: {}", e))));
        }
        // now the slow call may return
        sys::FREE.store(true, Release);
        for t in first {
            r = r.and(t.await.unwrap_or_else(|e| Err(format!("panicked: {}", e))));
        }
        r
    });
    sys::FREE.store(true, Release);
    drop(rt);
    let t = armed.done();
    let text = if shared { format!("reads {:?} through clones of the reader beside {} slow {} reads from {}", per, slows, if batched { "batched" } else { "single" }, at) } else { format!("{:?} on other files beside {} slow {:?}", uses, slows, slow) };
    if let Some((k, _)) = t.held.iter().find(|h| h.1) {
        return viol(if shared { "held-up-clones" } else { "held-up-files" }, format!("{} threads: {} were not done while one {:?} call took {} s", threads, text, k, sys::PATIENCE));
    }
    if let Err(e) = res {
        return viol("call-failed", format!("{} [{}]", e, text));
    }
    count_held(c, &t.held);
    c.count(if shared { "clients_beside_a_slow_read" } else { "uses_beside_a_slow_call" }, if t.held.is_empty() { 0 } else { others as u64 });
    if slows > 1 {
        c.count("cases_with_several_slow_clients", !t.held.is_empty() as u64);
    }
    c.note_bytes(format!("{}{}{:?}", threads, text, kinds).as_bytes());
    c.nontrivial = !t.held.is_empty();
    c.sample = Some(text);
    Ok(())
}
