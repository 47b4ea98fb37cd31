//! Monitoring harness for meerkat: runs cases of one property and reports
//! violations, counters and samples as JSON. Driven by /verif/check.py.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, unused_must_use)]
mod ctx;
mod model;
mod model_seg;
mod props_buf;
#[cfg(not(meerkat_verif_no_codec))]
mod props_codec;
mod props_enc;
mod props_io;
mod props_res;
mod props_seg;
mod sys;

use ctx::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocation cap

#[cfg(not(any(miri, vh_nosys)))]
mod alloc_cap {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    pub static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
    static LIVE: AtomicUsize = AtomicUsize::new(0);
    pub static PEAK: AtomicUsize = AtomicUsize::new(0);
    pub static WATCH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    pub fn live() -> usize {
        LIVE.load(Relaxed)
    }
    pub struct A;
    const HUGE: usize = 1 << 30;
    fn add(n: usize) {
        let l = LIVE.fetch_add(n, Relaxed);
        if WATCH.load(Relaxed) {
            PEAK.fetch_max(l.wrapping_add(n), Relaxed);
        }
        if l > CAP.load(Relaxed) && l < usize::MAX / 2 {
            let m = b"ALLOCATION-CAP exceeded\n";
            unsafe {
                libc::syscall(libc::SYS_write, 2, m.as_ptr(), m.len());
                libc::syscall(libc::SYS_exit_group, 87);
            }
        }
    }
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            add(l.size());
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size(), Relaxed);
            System.dealloc(p, l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            // untouched zero pages cost nothing: left to the kernel to grant
            if l.size() >= HUGE {
                LIVE.fetch_add(l.size(), Relaxed);
            } else {
                add(l.size());
            }
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            LIVE.fetch_sub(l.size(), Relaxed);
            add(n);
            System.realloc(p, l, n)
        }
    }
}
#[cfg(not(any(miri, vh_nosys)))]
#[global_allocator]
static ALLOC: alloc_cap::A = alloc_cap::A;

/// Bytes allocated and not freed by this program.
#[cfg(not(any(miri, vh_nosys)))]
pub fn live_bytes() -> usize {
    alloc_cap::live()
}
#[cfg(any(miri, vh_nosys))]
pub fn live_bytes() -> usize {
    0
}
/// The result of `f` and the most bytes allocated at once while it ran.
#[cfg(not(any(miri, vh_nosys)))]
pub fn peak_bytes<R>(f: impl FnOnce() -> R) -> (R, usize) {
    use std::sync::atomic::Ordering::SeqCst;
    alloc_cap::PEAK.store(alloc_cap::live(), SeqCst);
    alloc_cap::WATCH.store(true, SeqCst);
    let r = f();
    alloc_cap::WATCH.store(false, SeqCst);
    (r, alloc_cap::PEAK.load(SeqCst))
}
#[cfg(any(miri, vh_nosys))]
pub fn peak_bytes<R>(f: impl FnOnce() -> R) -> (R, usize) {
    (f(), 0)
}

// ---------------------------------------------------------------- properties

fn c15(c: &mut Ctx) -> Res {
    if c.index % 10 == 3 && !c.tiny {
        props_seg::c15_seg(c)
    } else {
        props_enc::c15(c)
    }
}
fn c18(c: &mut Ctx) -> Res {
    if c.index % 3 == 1 && !c.tiny {
        props_seg::c18_seg(c)
    } else {
        props_enc::c18_enc(c)
    }
}

fn c40(c: &mut Ctx) -> Res {
    if c.index % 4 == 2 && !c.tiny && c.giant().is_none() {
        props_seg::c40_seg(c)
    } else {
        props_enc::c40_enc(c)
    }
}

fn property(id: &str) -> Option<fn(&mut Ctx) -> Res> {
    Some(match id {
        "C01" => props_buf::c01,
        "C02" => props_buf::c02,
        "C03" => props_buf::c03,
        "C04" => props_buf::c04,
        "C05" => props_buf::c05,
        "C06" => props_buf::c06,
        "C07" => props_buf::c07,
        #[cfg(not(meerkat_verif_no_codec))]
        "C08" => props_codec::c08,
        #[cfg(not(meerkat_verif_no_codec))]
        "C09" => props_codec::c09,
        #[cfg(not(meerkat_verif_no_codec))]
        "C10" => props_codec::c10,
        #[cfg(not(meerkat_verif_no_codec))]
        "C11" => props_codec::c11,
        #[cfg(not(meerkat_verif_no_codec))]
        "C39" => props_codec::c39,
        "C12" => props_enc::c12,
        "C13" => props_enc::c13,
        "C14" => props_enc::c14,
        "C15" => c15,
        "C16" => props_enc::c16,
        "C17" => props_enc::c17,
        "C18" => c18,
        "C19" => props_io::c19,
        "C20" => props_io::c20,
        "C21" => props_io::c21,
        "C22" => props_io::c22,
        "C23" => props_seg::c23,
        "C24" => props_seg::c24,
        "C34" => props_res::c34,
        "C35" => props_res::c35,
        "C36" => props_res::c36,
        "C37" => props_res::c37,
        "C38" => props_res::c38,
        "C25" => props_seg::c25,
        "C26" => props_seg::c26,
        "C27" => props_seg::c27,
        "C28" => props_seg::c28,
        "C29" => props_seg::c29,
        "C32" => props_seg::c32,
        "C33" => props_seg::c33,
        "C40" => c40,
        _ => return None,
    })
}

fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut h = mix(0x6d6b, seed);
    for b in id.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, index)
}

struct CaseResult {
    viols: Vec<Viol>,
    ctx: Ctx,
}

fn run_one(id: &str, f: fn(&mut Ctx) -> Res, seed: u64, index: u64, thorough: bool, tiny: bool, dir: &Path) -> CaseResult {
    let mut c = Ctx::new(case_seed(seed, id, index), index, thorough, tiny, dir.to_path_buf());
    let r = panics(|| f(&mut c));
    let mut viols = std::mem::take(&mut c.soft);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(v)) => viols.push(v),
        Err(p) => {
            // the machine, not the code under test
            let machine = (p.contains("Os {") || p.contains("os error") || p.contains("crash child")) && !p.contains("(at /repo/");
            viols.push(Viol { sig: if machine { "HARNESS".into() } else { "panic".into() }, msg: p });
        }
    }
    CaseResult { viols, ctx: c }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str) -> String {
    if s.len() <= 1500 {
        return s.to_string();
    }
    let mut n = 1500;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}...", &s[..n])
}

#[derive(Default)]
struct Totals {
    cases: u64,
    nontrivial: u64,
    hashes: BTreeSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    viols: Vec<(u64, Viol)>,
}

impl Totals {
    fn add(&mut self, index: u64, r: CaseResult) {
        self.cases += 1;
        if r.ctx.nontrivial {
            self.nontrivial += 1;
            self.hashes.insert(r.ctx.hash);
        }
        for (k, v) in r.ctx.counters {
            let e = self.counters.entry(k.clone()).or_insert(0);
            if k.starts_with("max_") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        if let Some(s) = r.ctx.sample {
            if self.samples.len() < 4 || (self.cases % 97 == 0 && self.samples.len() < 12) {
                self.samples.push(clip(&s));
            }
        }
        for v in r.viols {
            // one witness per kind is enough for listed findings
            if self.viols.iter().filter(|x| x.1.sig == v.sig).count() < 2 {
                self.viols.push((index, v));
            }
        }
    }
    fn json(&self) -> String {
        let mut o = String::new();
        let _ = write!(o, "{{\"cases\":{},\"nontrivial\":{},", self.cases, self.nontrivial);
        let hs: Vec<String> = self.hashes.iter().map(|h| format!("\"{:x}\"", h)).collect();
        let _ = write!(o, "\"hashes\":[{}],", hs.join(","));
        let cs: Vec<String> = self.counters.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let _ = write!(o, "\"counters\":{{{}}},", cs.join(","));
        let ss: Vec<String> = self.samples.iter().map(|s| js(s)).collect();
        let _ = write!(o, "\"samples\":[{}],", ss.join(","));
        let vs: Vec<String> =
            self.viols.iter().map(|(i, v)| format!("{{\"index\":{},\"sig\":{},\"msg\":{}}}", i, js(&v.sig), js(&clip(&v.msg)))).collect();
        let _ = write!(o, "\"violations\":[{}]}}", vs.join(","));
        o
    }
}

// ---------------------------------------------------------------- status of the running case

/// Index of the running case, readable by the driver after the process died.
struct Status(Option<std::fs::File>);
impl Status {
    fn new(p: &Path) -> Status {
        Status(std::fs::File::create(p).ok())
    }
    fn set(&self, index: u64, done: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&index.to_le_bytes());
            b[8..].copy_from_slice(&done.to_le_bytes());
            let _ = f.write_all_at(&b, 0);
        }
    }
}

fn arg(a: &[String], i: usize) -> &str {
    a.get(i).map(|s| s.as_str()).unwrap_or_else(|| {
        eprintln!("missing argument {}", i);
        std::process::exit(2)
    })
}
fn num(a: &[String], i: usize) -> u64 {
    arg(a, i).parse().unwrap_or_else(|_| {
        eprintln!("bad number {:?}", a[i]);
        std::process::exit(2)
    })
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let quiet = QUIET.with(|q| q.get()) > 0;
        LAST_PANIC.with(|l| *l.borrow_mut() = loc.clone());
        if !quiet {
            eprintln!("panic in {:?}: {} at {}", std::thread::current().name(), i, loc);
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    match arg(&a, 1) {
        // work ID seed thorough tiny shard nshards first budget_ms min_cases max_cases outdir cap_mib
        "work" => {
            let id = arg(&a, 2).to_string();
            let f = property(&id).unwrap_or_else(|| {
                eprintln!("unknown property {}", id);
                std::process::exit(2)
            });
            let (seed, thorough, tiny) = (num(&a, 3), num(&a, 4) == 1, num(&a, 5) == 1);
            let (shard, nshards, first) = (num(&a, 6), num(&a, 7).max(1), num(&a, 8));
            let (budget, min_cases, max_cases) = (Duration::from_millis(num(&a, 9)), num(&a, 10), num(&a, 11));
            let out = PathBuf::from(arg(&a, 12));
            #[cfg(not(any(miri, vh_nosys)))]
            alloc_cap::CAP.store((num(&a, 13) as usize) << 20, std::sync::atomic::Ordering::Relaxed);
            let dir = out.join(format!("scratch-{}", shard));
            std::fs::create_dir_all(&dir).unwrap();
            let dir = std::fs::canonicalize(&dir).unwrap();
            let status = Status::new(&out.join(format!("status-{}", shard)));
            let mut t = Totals::default();
            let start = Instant::now();
            let mut k = 0u64;
            loop {
                if t.cases >= max_cases || t.viols.iter().filter(|v| v.1.sig != "HARNESS").count() >= 8 {
                    break;
                }
                let e = start.elapsed();
                if e >= budget && (t.cases >= min_cases || e >= budget * 6) {
                    break;
                }
                let index = first + shard + nshards * k;
                k += 1;
                status.set(index, t.cases);
                let r = run_one(&id, f, seed, index, thorough, tiny, &dir);
                t.add(index, r);
            }
            status.set(u64::MAX, t.cases);
            std::fs::write(out.join(format!("result-{}.json", shard)), t.json()).unwrap();
            let _ = std::fs::remove_dir_all(&dir);
        }
        // one ID seed index thorough tiny outdir cap_mib
        "one" => {
            let id = arg(&a, 2).to_string();
            let f = property(&id).unwrap();
            let out = PathBuf::from(arg(&a, 7));
            #[cfg(not(any(miri, vh_nosys)))]
            alloc_cap::CAP.store((num(&a, 8) as usize) << 20, std::sync::atomic::Ordering::Relaxed);
            let dir = out.join("scratch-one");
            std::fs::create_dir_all(&dir).unwrap();
            let dir = std::fs::canonicalize(&dir).unwrap();
            let mut t = Totals::default();
            let index = num(&a, 4);
            t.add(index, run_one(&id, f, num(&a, 3), index, num(&a, 5) == 1, num(&a, 6) == 1, &dir));
            let _ = std::fs::remove_dir_all(&dir);
            println!("{}", t.json());
        }
        // mini seed cases dir ids... : tiny cases of several properties (interpreters)
        "mini" => {
            let (seed, n) = (num(&a, 2), num(&a, 3));
            let dir = PathBuf::from(arg(&a, 4));
            let tiny = arg(&a, 5) == "tiny";
            let budget: u64 = std::env::var("VH_BUDGET_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
            let mut total = 0;
            for id in &a[6..] {
                let f = property(id).unwrap();
                let mut t = Totals::default();
                let start = Instant::now();
                for i in 0..n {
                    if start.elapsed().as_millis() as u64 > budget {
                        break;
                    }
                    let r = run_one(id, f, seed, if tiny { i } else { 100 + i }, false, tiny, &dir);
                    t.add(i, r);
                }
                total += t.cases;
                println!("MINI {} {}", id, t.json());
            }
            println!("MINI-DONE {}", total);
        }
        "crash-child" => {
            let code = props_seg::crash_child(num(&a, 2), num(&a, 3) == 1, Path::new(arg(&a, 4)), num(&a, 5), num(&a, 6), num(&a, 7));
            std::process::exit(code);
        }
        // does the monitor see the system calls of this process?
        "self-test" => {
            let dir = std::fs::canonicalize(arg(&a, 2)).unwrap();
            props_io::self_test(&dir);
        }
        x => {
            eprintln!("unknown command {}", x);
            std::process::exit(2);
        }
    }
}
