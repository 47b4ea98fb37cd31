//! Deterministic randomness, case context and result types shared by all monitors.
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// now and then, a number near one of the constants written in the code under test, at most `max`
    pub fn near(&mut self, max: u64) -> Option<u64> {
        let d = dict();
        if d.numbers.is_empty() {
            return None;
        }
        let rare = if d.new_numbers.is_empty() { 16 } else { 5 };
        if !self.chance(1, rare) {
            return None;
        }
        let v = if !d.new_numbers.is_empty() && self.chance(4, 5) { *self.pick(&d.new_numbers) } else { *self.pick(&d.numbers) };
        let v = match self.below(16) {
            0 => v.saturating_mul(8),
            1 => v / 8,
            2 => v.saturating_mul(128),
            3 => v / 128,
            4 => v.saturating_mul(2),
            5 => v / 2,
            6 => v.saturating_mul(4),
            7 => v / 4,
            8 => v.saturating_mul(1 + self.below(12) as u64),
            _ => v,
        };
        let v = match self.below(8) {
            0 | 1 => v.saturating_add(1),
            2 | 3 => v.saturating_sub(1),
            4 => v.saturating_add(self.below(20) as u64),
            _ => v,
        };
        if v <= max {
            Some(v)
        } else {
            None
        }
    }
    /// bytes, mostly random, sometimes constant or repetitive
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        match self.below(10) {
            0 => vec![0; n],
            1 => vec![0xFF; n],
            2 => vec![self.next() as u8; n],
            3 => {
                let k = self.range(1, 20);
                let p = self.bytes(k);
                (0..n).map(|i| p[i % k]).collect()
            }
            4 => {
                // zeros with something at one end or in the middle
                let mut v = vec![0; n];
                if n > 0 {
                    let i = *self.pick(&[0, n - 1, n / 2]);
                    v[i] = 1 + self.below(255) as u8;
                }
                v
            }
            _ => self.bytes(n),
        }
    }
    /// now and then, a text written in the code under test
    pub fn text(&mut self) -> Option<&'static str> {
        let d = dict();
        if d.texts.is_empty() || !self.chance(1, if d.new_texts.is_empty() { 30 } else { 6 }) {
            return None;
        }
        Some(if !d.new_texts.is_empty() && self.chance(4, 5) { self.pick(&d.new_texts) } else { self.pick(&d.texts) })
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let x = self.next().to_le_bytes();
            let k = (n - v.len()).min(8);
            v.extend_from_slice(&x[..k]);
        }
        v
    }
}

/// Constants and texts of the code under test (tools/dictionary.py); those that are not in the tree
/// the harness was written for are kept apart and drawn more often.
#[derive(Default)]
pub struct Dict {
    pub numbers: Vec<u64>,
    pub new_numbers: Vec<u64>,
    pub texts: Vec<String>,
    pub new_texts: Vec<String>,
}

pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        let text = match std::env::var_os("VH_DICT") {
            Some(p) => std::fs::read_to_string(p).unwrap_or_default(),
            None => return d,
        };
        for l in text.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            if let ["n", v, new] = f[..] {
                let v = v.parse().unwrap();
                d.numbers.push(v);
                if new == "1" {
                    d.new_numbers.push(v);
                }
            } else if let ["s", v, new] = f[..] {
                let b: Vec<u8> = (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()).collect();
                let s = String::from_utf8_lossy(&b).into_owned();
                if new == "1" {
                    d.new_texts.push(s.clone());
                }
                d.texts.push(s);
            }
        }
        d
    })
}

pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z ^= z >> 32;
    z.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ (z >> 29)
}

/// A refuted property: `sig` identifies the kind of failure, `msg` is the witness.
#[derive(Debug, Clone)]
pub struct Viol {
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Viol>;

pub fn viol<T>(sig: &str, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::ctx::Viol { sig: $sig.to_string(), msg: format!($($arg)*) });
        }
    };
}

pub struct Ctx {
    pub rng: Rng,
    /// number of the case within the run; early ones are kept small
    pub index: u64,
    pub thorough: bool,
    /// tiny inputs for interpreters (Miri)
    pub tiny: bool,
    /// a size beyond the usual maximum was drawn already
    pub stretched: bool,
    pub counters: BTreeMap<String, u64>,
    pub hash: u64,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub dir: std::path::PathBuf,
    /// violations already listed as known findings, seen in this case
    pub soft: Vec<Viol>,
}

impl Ctx {
    pub fn new(seed: u64, index: u64, thorough: bool, tiny: bool, dir: std::path::PathBuf) -> Self {
        Ctx {
            rng: Rng::new(seed),
            index,
            thorough,
            tiny,
            stretched: false,
            counters: BTreeMap::new(),
            hash: 0,
            nontrivial: false,
            sample: None,
            dir,
            soft: vec![],
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// records the largest value seen (keys starting with "max_" merge by maximum)
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max_{}", k)).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn note(&mut self, x: u64) {
        self.hash = mix(self.hash, x);
    }
    pub fn note_bytes(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.note(u64::from_le_bytes(x));
        }
        self.note(b.len() as u64);
    }
    /// Some(k): this case is one of the few large ones; the first eight come early in every run,
    /// one per kind k, later ones are spread thinly.
    pub fn giant(&self) -> Option<u64> {
        if self.tiny {
            return None;
        }
        match self.index {
            80..=87 => Some(self.index - 80),
            i if i >= 2048 && i % 1024 < 8 => Some(i % 8),
            _ => None,
        }
    }
    /// a size with a long tail, up to `max`; small for the first cases
    pub fn size(&mut self, max: usize) -> usize {
        let max = if self.tiny { max.min(12) } else { max };
        let cap = match self.index {
            0..=7 => 4,
            8..=31 => 12,
            32..=63 => 64,
            _ => max,
        }
        .min(max);
        if self.index >= 64 && !self.tiny {
            // once in a case, beyond the usual sizes
            let limit = if self.stretched { max } else { (max * 40).min(1 << 21) };
            if let Some(v) = self.rng.near(limit as u64) {
                if v as usize > max {
                    self.stretched = true;
                    self.count("sizes_beyond_the_usual", 1);
                }
                return v as usize;
            }
        }
        let m = match self.rng.below(20) {
            0..=5 => 8,
            6..=11 => 40,
            12..=15 => 200,
            16..=17 => 1500,
            18 => 10_000,
            _ => max,
        }
        .min(cap);
        self.rng.range(0, m)
    }
}

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}

/// Runs `f`; Some(message) if it panicked. The panic is not reported as a harness failure.
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|e| format!("{} (at {})", panic_text(&*e), LAST_PANIC.with(|l| l.borrow().clone())))
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
    pub static QUIET: std::cell::Cell<u32> = std::cell::Cell::new(0);
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}
