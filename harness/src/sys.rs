//! System call monitor and fault injector.
//!
//! The harness binary defines the C library entry points that the standard
//! library (and so tokio) uses for files. Calls that concern files below the
//! armed scratch directory are recorded, and may be failed, shortened,
//! interrupted, delayed or turned into a process crash according to a plan.
//! Everything else is passed straight to the kernel.
use std::collections::HashMap;
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Open,
    Write,
    Sync,
    DataSync,
    Read,
    Truncate,
    Other,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: Kind,
    pub path: PathBuf,
    /// bytes asked for (writes, reads) or open flags
    pub arg: u64,
    /// the kernel's (or the injector's) result; negative errno on failure
    pub ret: i64,
    pub injected: bool,
    /// where a positioned transfer starts
    pub off: Option<u64>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Action {
    /// fail with errno, nothing done
    Fail(i32),
    /// do only the first n bytes of a transfer
    Short(usize),
    /// do only the first n bytes, and fail every later call of the kind with errno
    ShortThenFail(usize, i32),
    /// end the process before the call
    CrashBefore,
    /// end the process after the call
    CrashAfter,
    /// do the first n bytes of a transfer, then end the process
    CrashMid(usize),
    /// somebody else cuts the file to n bytes, then the call is done
    Cut(u64),
}

/// Faults for one kind of call, counted from 1 over the armed period.
#[derive(Clone, Debug)]
pub struct Rule {
    pub kinds: Vec<Kind>,
    pub nth: u64,
    pub action: Action,
    /// keep failing after the nth call
    pub persistent: bool,
    /// only paths ending with this
    pub suffix: Option<String>,
    /// only positioned transfers starting here
    pub offset: Option<u64>,
}

impl Rule {
    pub fn new(kinds: &[Kind], nth: u64, action: Action) -> Rule {
        Rule { kinds: kinds.to_vec(), nth, action, persistent: false, suffix: None, offset: None }
    }
}

/// The path without `.` and `..`, by text alone.
pub fn lexical(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            std::path::Component::CurDir => {}
            std::path::Component::ParentDir => {
                out.pop();
            }
            c => out.push(c.as_os_str()),
        }
    }
    out
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub rules: Vec<Rule>,
    /// chance in 256 that a read or write is interrupted / shortened
    pub eintr: u32,
    pub short: u32,
    /// chance in 256 that an open or sync is interrupted
    pub eintr_open_sync: u32,
    /// microseconds of delay at most before each call
    pub delay_us: u64,
    pub seed: u64,
    /// writes succeed without reaching the file
    pub swallow: bool,
    pub hold: Option<Hold>,
}

/// Calls that do not return before other work got on.
#[derive(Clone, Debug)]
pub struct Hold {
    pub kinds: Vec<Kind>,
    /// only paths that contain this
    pub part: String,
    /// so many calls at most
    pub most: u64,
    /// chance in 256
    pub chance: u32,
    /// until this many ticks have gone by; else until `FREE`
    pub ticks: Option<u64>,
}

/// How often the task that watches the runtime has run.
pub static TICKS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Lets all held calls go.
pub static FREE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Calls on watched files that have not returned.
pub static UNDER_WAY: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Seconds after which nothing else will happen.
pub const PATIENCE: u64 = 20;

#[derive(Default)]
pub struct State {
    pub root: PathBuf,
    pub armed: bool,
    pub plan: Plan,
    pub events: Vec<Event>,
    pub keep_events: bool,
    /// calls seen per rule
    counts: Vec<u64>,
    fds: HashMap<i32, PathBuf>,
    /// the armed period: calls that began in another one are left alone
    epoch: u64,
    rng: u64,
    pub faults: u64,
    pub transients: u64,
    /// opens for writing outside the scratch directory while armed
    pub outside: Vec<PathBuf>,
    /// files and directories made, moved or removed by name
    pub named: Vec<(&'static str, PathBuf)>,
    /// where positioned reads were started, in order
    pub reads_started: Vec<u64>,
    /// calls held, by kind, and those that nothing happened beside
    pub held: Vec<(Kind, bool)>,
    pub holds: u64,
}

pub const CRASH_CODE: i32 = 86;

#[cfg(not(any(miri, vh_nosys)))]
mod hooks {
    use super::*;
    use libc::{c_char, c_int, c_void, iovec, mode_t, off64_t, size_t, ssize_t};
    use std::ffi::CStr;
    use std::os::unix::ffi::OsStrExt;
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
    use std::sync::Mutex;

    const MAXFD: usize = 8192;
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicU64 = AtomicU64::new(0);
    static TRACKED: [AtomicU64; MAXFD / 64] = [Z; MAXFD / 64];
    static ARMED: AtomicBool = AtomicBool::new(false);
    static STATE: Mutex<Option<Box<State>>> = Mutex::new(None);

    fn tracked(fd: c_int) -> bool {
        fd >= 0 && (fd as usize) < MAXFD && TRACKED[fd as usize / 64].load(Relaxed) >> (fd as usize % 64) & 1 == 1
    }
    fn set_tracked(fd: c_int, on: bool) {
        if fd >= 0 && (fd as usize) < MAXFD {
            let bit = 1u64 << (fd as usize % 64);
            if on {
                TRACKED[fd as usize / 64].fetch_or(bit, Relaxed);
            } else {
                TRACKED[fd as usize / 64].fetch_and(!bit, Relaxed);
            }
        }
    }
    fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
        let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
        f(g.get_or_insert_with(Default::default))
    }
    fn set_errno(e: c_int) {
        unsafe { *libc::__errno_location() = e }
    }
    fn die() -> ! {
        unsafe {
            libc::syscall(libc::SYS_exit_group, CRASH_CODE);
        }
        std::process::abort()
    }

    impl State {
        fn rnd(&mut self) -> u64 {
            self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = self.rng;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        }
    }

    enum Decision {
        Go,
        Fail(c_int),
        Short(usize),
        CrashBefore,
        CrashAfter,
        CrashMid(usize),
        Cut(u64),
    }

    fn decide(st: &mut State, kind: Kind, path: &Path, len: usize, off: Option<u64>) -> (Decision, u64) {
        if kind == Kind::Read && st.keep_events {
            st.reads_started.extend(off);
        }
        let delay = if st.plan.delay_us > 0 { st.rnd() % (st.plan.delay_us + 1) } else { 0 };
        let mut hit = None;
        for i in 0..st.plan.rules.len() {
            let r = &st.plan.rules[i];
            if !r.kinds.contains(&kind) {
                continue;
            }
            if let Some(s) = &r.suffix {
                if !path.as_os_str().as_bytes().ends_with(s.as_bytes()) {
                    continue;
                }
            }
            if r.offset.is_some() && r.offset != off {
                continue;
            }
            st.counts[i] += 1;
            let n = st.counts[i];
            let (nth, persistent, action) = (r.nth, r.persistent, r.action);
            if n == nth || (n > nth && (persistent || matches!(action, Action::ShortThenFail(..)))) {
                hit = Some(match action {
                    Action::Fail(e) => Decision::Fail(e),
                    Action::Short(k) => Decision::Short(k),
                    Action::ShortThenFail(k, e) => {
                        if n == nth {
                            Decision::Short(k)
                        } else {
                            Decision::Fail(e)
                        }
                    }
                    Action::CrashBefore => Decision::CrashBefore,
                    Action::CrashAfter => Decision::CrashAfter,
                    Action::CrashMid(k) => Decision::CrashMid(k),
                    Action::Cut(k) => Decision::Cut(k),
                });
            }
        }
        if let Some(h) = hit {
            st.faults += 1;
            return (h, delay);
        }
        if kind == Kind::Read || kind == Kind::Write {
            let r = st.rnd();
            if ((r & 255) as u32) < st.plan.eintr {
                st.transients += 1;
                return (Decision::Fail(libc::EINTR), delay);
            }
            if (((r >> 8) & 255) as u32) < st.plan.short && len > 1 {
                st.transients += 1;
                let m = (st.rnd() % 8) as u32;
                let k = match m {
                    0 => 1,
                    1 => len - 1,
                    _ => 1 + (st.rnd() as usize) % (len - 1),
                };
                return (Decision::Short(k), delay);
            }
        } else if matches!(kind, Kind::Open | Kind::Sync | Kind::DataSync) {
            let r = st.rnd();
            if ((r & 255) as u32) < st.plan.eintr_open_sync {
                st.transients += 1;
                return (Decision::Fail(libc::EINTR), delay);
            }
        }
        (Decision::Go, delay)
    }

    fn record(kind: Kind, at: &Place, arg: u64, ret: i64, injected: bool, off: Option<u64>) {
        with(|st| {
            if st.armed && st.keep_events && st.epoch == at.epoch {
                st.events.push(Event { kind, path: at.path.clone(), arg, ret, injected, off });
            }
        });
    }

    fn pause(us: u64) {
        if us > 0 {
            let ts = libc::timespec { tv_sec: (us / 1_000_000) as _, tv_nsec: (us % 1_000_000 * 1000) as _ };
            unsafe {
                libc::syscall(libc::SYS_nanosleep, &ts as *const _, 0usize);
            }
        }
    }

    /// Holds the call back until the other work the plan names got on.
    fn hold(kind: Kind, at: &Place) {
        let h = with(|st| {
            if !st.armed || st.epoch != at.epoch {
                return None;
            }
            let x = (st.rnd() & 255) as u32;
            let h = st.plan.hold.as_ref()?;
            let hit = st.holds < h.most && h.kinds.contains(&kind) && x < h.chance && at.path.to_string_lossy().contains(&h.part);
            st.holds += hit as u64;
            hit.then(|| h.ticks)
        });
        let ticks = match h {
            Some(t) => t,
            None => return,
        };
        let from = TICKS.load(Acquire);
        let begun = std::time::Instant::now();
        let mut stuck = false;
        while !FREE.load(Acquire) && ticks.map_or(true, |n| TICKS.load(Acquire) < from + n) {
            if begun.elapsed().as_secs() >= PATIENCE {
                stuck = true;
                FREE.store(true, Release);
                break;
            }
            pause(30);
        }
        with(|st| st.held.push((kind, stuck)));
    }

    /// Runs a call on a tracked path. `len` is the transfer size (0 if none)
    /// and `f` performs the call for the given number of bytes.
    fn run(kind: Kind, at: &Place, arg: u64, len: usize, off: Option<u64>, f: impl Fn(usize) -> i64) -> i64 {
        struct Busy;
        impl Drop for Busy {
            fn drop(&mut self) {
                UNDER_WAY.fetch_sub(1, Release);
            }
        }
        UNDER_WAY.fetch_add(1, AcqRel);
        let _busy = Busy;
        let (d, delay) = with(|st| if st.armed && st.epoch == at.epoch { decide(st, kind, &at.path, len, off) } else { (Decision::Go, 0) });
        pause(delay);
        hold(kind, at);
        let real = |n: usize| -> i64 {
            let r = f(n);
            if r == -1 {
                -(unsafe { *libc::__errno_location() } as i64)
            } else {
                r
            }
        };
        let (ret, inj) = match d {
            Decision::Go => (real(len), false),
            Decision::Fail(e) => (-(e as i64), true),
            Decision::Short(k) => (real(k.min(len)), true),
            Decision::CrashBefore => die(),
            Decision::CrashAfter => {
                real(len);
                die()
            }
            Decision::CrashMid(k) => {
                real(k.min(len));
                die()
            }
            Decision::Cut(k) => {
                let mut p = at.path.as_os_str().as_bytes().to_vec();
                p.push(0);
                unsafe { libc::syscall(libc::SYS_truncate, p.as_ptr(), k) };
                (real(len), true)
            }
        };
        record(kind, at, arg, ret, inj, off);
        if ret < 0 {
            set_errno(-ret as c_int);
            -1
        } else {
            ret
        }
    }

    /// The file of a call, and the armed period in which the call began. A
    /// write left in flight by a run that failed reaches the kernel after the
    /// next run has begun: it is none of that run's.
    struct Place {
        path: PathBuf,
        epoch: u64,
    }

    fn place(fd: c_int) -> Place {
        with(|st| match st.fds.get(&fd) {
            Some(p) => Place { path: p.clone(), epoch: st.epoch },
            None => Place { path: PathBuf::new(), epoch: u64::MAX },
        })
    }

    /// The path the kernel knows the file by.
    fn fd_path(fd: c_int) -> Option<PathBuf> {
        let link = format!("/proc/self/fd/{}\0", fd);
        let mut b = [0u8; 4096];
        let n = unsafe { libc::syscall(libc::SYS_readlink, link.as_ptr(), b.as_mut_ptr(), b.len()) };
        if n <= 0 {
            return None;
        }
        Some(PathBuf::from(std::ffi::OsStr::from_bytes(&b[..n as usize])))
    }

    unsafe fn absolute(dirfd: c_int, p: *const c_char) -> Option<PathBuf> {
        let given = Path::new(std::ffi::OsStr::from_bytes(CStr::from_ptr(p).to_bytes()));
        if given.is_absolute() {
            Some(given.to_path_buf())
        } else if dirfd == libc::AT_FDCWD {
            let mut b = [0u8; 4096];
            let n = libc::syscall(libc::SYS_getcwd, b.as_mut_ptr(), b.len());
            let cwd = if n > 1 { &b[..n as usize - 1] } else { b"/" };
            Some(Path::new(std::ffi::OsStr::from_bytes(cwd)).join(given))
        } else {
            fd_path(dirfd).map(|d| d.join(given))
        }
    }

    /// A call that makes, moves or removes something by name. Nothing outside
    /// the scratch directory comes to harm: such calls are noted and refused.
    unsafe fn by_name(what: &'static str, at: &[(c_int, *const c_char)], f: impl Fn() -> libc::c_long) -> c_int {
        if ARMED.load(Acquire) {
            let paths: Vec<PathBuf> = at.iter().filter_map(|(d, p)| absolute(*d, *p)).map(|p| lexical(&p)).collect();
            let refuse = with(|st| {
                if !st.armed {
                    return false;
                }
                let mut refuse = paths.len() < at.len();
                for p in paths {
                    if !p.starts_with(&st.root) {
                        refuse = true;
                        st.outside.push(p);
                    } else {
                        st.named.push((what, p));
                    }
                }
                refuse
            });
            if refuse {
                set_errno(libc::EPERM);
                return -1;
            }
        }
        f() as c_int
    }

    unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        let sys = || libc::syscall(libc::SYS_openat, dirfd, p, flags, mode as libc::c_uint);
        if !ARMED.load(Acquire) {
            return sys() as c_int;
        }
        let abs = match absolute(dirfd, p) {
            Some(p) => p,
            None => return sys() as c_int,
        };
        let writing = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0;
        let abs = lexical(&abs);
        let (inside, epoch) = with(|st| {
            let inside = abs.starts_with(&st.root);
            if !inside && writing && st.armed && !abs.starts_with("/dev") && !abs.starts_with("/proc") {
                st.outside.push(abs.clone());
            }
            (inside && st.armed, st.epoch)
        });
        if !inside {
            return sys() as c_int;
        }
        let at = Place { path: abs, epoch };
        let fd = run(Kind::Open, &at, flags as u64, 0, None, |_| sys()) as c_int;
        if fd >= 0 {
            let real = fd_path(fd).unwrap_or(at.path);
            with(|st| {
                if st.epoch == epoch {
                    st.fds.insert(fd, real);
                    set_tracked(fd, true);
                }
            });
        }
        fd
    }

    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(libc::AT_FDCWD, p, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(libc::AT_FDCWD, p, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(d, p, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(d, p, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn close(fd: c_int) -> c_int {
        if tracked(fd) {
            set_tracked(fd, false);
            with(|st| st.fds.remove(&fd));
            // the last one to close a file may have to wait for the disk
            UNDER_WAY.fetch_add(1, AcqRel);
            let r = libc::syscall(libc::SYS_close, fd) as c_int;
            UNDER_WAY.fetch_sub(1, Release);
            return r;
        }
        libc::syscall(libc::SYS_close, fd) as c_int
    }
    /// `new` refers to the same file as `fd`.
    fn duplicated(fd: c_int, new: c_int) -> c_int {
        if new >= 0 && new != fd {
            if tracked(new) {
                set_tracked(new, false);
                with(|st| st.fds.remove(&new));
            }
            if tracked(fd) {
                with(|st| {
                    if let Some(p) = st.fds.get(&fd).cloned() {
                        st.fds.insert(new, p);
                    }
                });
                set_tracked(new, true);
            }
        }
        new
    }
    #[no_mangle]
    pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
        let r = libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int;
        if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC {
            return duplicated(fd, r);
        }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
        fcntl(fd, cmd, arg)
    }
    #[no_mangle]
    pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
        duplicated(fd, libc::syscall(libc::SYS_dup, fd) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn dup3(fd: c_int, new: c_int, flags: c_int) -> c_int {
        duplicated(fd, libc::syscall(libc::SYS_dup3, fd, new, flags) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn dup2(fd: c_int, new: c_int) -> c_int {
        if fd == new {
            return libc::syscall(libc::SYS_fcntl, fd, libc::F_GETFD) as c_int | new;
        }
        duplicated(fd, libc::syscall(libc::SYS_dup3, fd, new, 0) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
        if !tracked(fd) {
            return libc::syscall(libc::SYS_write, fd, b, n) as ssize_t;
        }
        let swallow = with(|st| st.armed && st.plan.swallow);
        run(Kind::Write, &place(fd), n as u64, n, None, |k| if swallow { k as i64 } else { libc::syscall(libc::SYS_write, fd, b, k) }) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
        if !tracked(fd) {
            return libc::syscall(libc::SYS_pwrite64, fd, b, n, off) as ssize_t;
        }
        run(Kind::Write, &place(fd), n as u64, n, Some(off as u64), |k| libc::syscall(libc::SYS_pwrite64, fd, b, k, off)) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
        pwrite64(fd, b, n, off)
    }
    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
        if !tracked(fd) || cnt <= 0 {
            return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t;
        }
        let v = std::slice::from_raw_parts(iov, cnt as usize);
        let total: usize = v.iter().map(|x| x.iov_len).sum();
        run(Kind::Write, &place(fd), total as u64, total, None, |k| {
            if k == total {
                return libc::syscall(libc::SYS_writev, fd, iov, cnt);
            }
            let mut left = k;
            let mut w: Vec<iovec> = vec![];
            for x in v {
                let m = left.min(x.iov_len);
                w.push(iovec { iov_base: x.iov_base, iov_len: m });
                left -= m;
            }
            libc::syscall(libc::SYS_writev, fd, w.as_ptr(), w.len() as c_int)
        }) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
        if !tracked(fd) {
            return libc::syscall(libc::SYS_read, fd, b, n) as ssize_t;
        }
        let at = libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR);
        run(Kind::Read, &place(fd), n as u64, n, (at >= 0).then_some(at as u64), |k| libc::syscall(libc::SYS_read, fd, b, k)) as ssize_t
    }
    unsafe fn do_preadv(fd: c_int, iov: *const iovec, cnt: c_int, off: Option<off64_t>) -> ssize_t {
        let sys = |iov: *const iovec, cnt: c_int| match off {
            Some(o) => libc::syscall(libc::SYS_preadv, fd, iov, cnt, o as libc::c_long, 0 as libc::c_long),
            None => libc::syscall(libc::SYS_readv, fd, iov, cnt),
        };
        if !tracked(fd) || cnt <= 0 {
            return sys(iov, cnt) as ssize_t;
        }
        let v = std::slice::from_raw_parts(iov, cnt as usize);
        let total: usize = v.iter().map(|x| x.iov_len).sum();
        let at = off.unwrap_or_else(|| libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR));
        run(Kind::Read, &place(fd), total as u64, total, (at >= 0).then_some(at as u64), |k| {
            let mut left = k;
            let mut w: Vec<iovec> = vec![];
            for x in v {
                let m = left.min(x.iov_len);
                w.push(iovec { iov_base: x.iov_base, iov_len: m });
                left -= m;
            }
            sys(w.as_ptr(), w.len() as c_int)
        }) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
        do_preadv(fd, iov, cnt, None)
    }
    #[no_mangle]
    pub unsafe extern "C" fn preadv64(fd: c_int, iov: *const iovec, cnt: c_int, off: off64_t) -> ssize_t {
        do_preadv(fd, iov, cnt, Some(off))
    }
    #[no_mangle]
    pub unsafe extern "C" fn preadv(fd: c_int, iov: *const iovec, cnt: c_int, off: off64_t) -> ssize_t {
        do_preadv(fd, iov, cnt, Some(off))
    }
    unsafe fn do_pwritev(fd: c_int, iov: *const iovec, cnt: c_int, off: off64_t) -> ssize_t {
        let sys = |iov: *const iovec, cnt: c_int| libc::syscall(libc::SYS_pwritev, fd, iov, cnt, off as libc::c_long, 0 as libc::c_long);
        if !tracked(fd) || cnt <= 0 {
            return sys(iov, cnt) as ssize_t;
        }
        let v = std::slice::from_raw_parts(iov, cnt as usize);
        let total: usize = v.iter().map(|x| x.iov_len).sum();
        run(Kind::Write, &place(fd), total as u64, total, Some(off as u64), |k| {
            let mut left = k;
            let mut w: Vec<iovec> = vec![];
            for x in v {
                let m = left.min(x.iov_len);
                w.push(iovec { iov_base: x.iov_base, iov_len: m });
                left -= m;
            }
            sys(w.as_ptr(), w.len() as c_int)
        }) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwritev64(fd: c_int, iov: *const iovec, cnt: c_int, off: off64_t) -> ssize_t {
        do_pwritev(fd, iov, cnt, off)
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwritev(fd: c_int, iov: *const iovec, cnt: c_int, off: off64_t) -> ssize_t {
        do_pwritev(fd, iov, cnt, off)
    }
    #[no_mangle]
    pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
        if !tracked(fd) {
            return libc::syscall(libc::SYS_pread64, fd, b, n, off) as ssize_t;
        }
        run(Kind::Read, &place(fd), n as u64, n, Some(off as u64), |k| libc::syscall(libc::SYS_pread64, fd, b, k, off)) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
        pread64(fd, b, n, off)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
        if !tracked(fd) {
            return libc::syscall(libc::SYS_fsync, fd) as c_int;
        }
        // the scratch directory needs no durability: record, do not wait for the disk
        run(Kind::Sync, &place(fd), 0, 0, None, |_| 0) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
        if !tracked(fd) {
            return libc::syscall(libc::SYS_fdatasync, fd) as c_int;
        }
        run(Kind::DataSync, &place(fd), 0, 0, None, |_| 0) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
        if !tracked(fd) {
            return libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
        }
        run(Kind::Truncate, &place(fd), len as u64, 0, None, |_| libc::syscall(libc::SYS_ftruncate, fd, len)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
        ftruncate64(fd, len)
    }

    #[no_mangle]
    pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
        by_name("unlink", &[(libc::AT_FDCWD, p)], || libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, p, 0))
    }
    #[no_mangle]
    pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
        by_name("rmdir", &[(libc::AT_FDCWD, p)], || libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, p, libc::AT_REMOVEDIR))
    }
    #[no_mangle]
    pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
        by_name("unlinkat", &[(d, p)], || libc::syscall(libc::SYS_unlinkat, d, p, flags))
    }
    #[no_mangle]
    pub unsafe extern "C" fn rename(p: *const c_char, q: *const c_char) -> c_int {
        by_name("rename", &[(libc::AT_FDCWD, p), (libc::AT_FDCWD, q)], || libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, p, libc::AT_FDCWD, q, 0))
    }
    #[no_mangle]
    pub unsafe extern "C" fn renameat(d: c_int, p: *const c_char, e: c_int, q: *const c_char) -> c_int {
        by_name("renameat", &[(d, p), (e, q)], || libc::syscall(libc::SYS_renameat2, d, p, e, q, 0))
    }
    #[no_mangle]
    pub unsafe extern "C" fn renameat2(d: c_int, p: *const c_char, e: c_int, q: *const c_char, flags: libc::c_uint) -> c_int {
        by_name("renameat2", &[(d, p), (e, q)], || libc::syscall(libc::SYS_renameat2, d, p, e, q, flags))
    }
    #[no_mangle]
    pub unsafe extern "C" fn link(p: *const c_char, q: *const c_char) -> c_int {
        by_name("link", &[(libc::AT_FDCWD, q)], || libc::syscall(libc::SYS_linkat, libc::AT_FDCWD, p, libc::AT_FDCWD, q, 0))
    }
    #[no_mangle]
    pub unsafe extern "C" fn linkat(d: c_int, p: *const c_char, e: c_int, q: *const c_char, flags: c_int) -> c_int {
        by_name("linkat", &[(e, q)], || libc::syscall(libc::SYS_linkat, d, p, e, q, flags))
    }
    #[no_mangle]
    pub unsafe extern "C" fn symlink(p: *const c_char, q: *const c_char) -> c_int {
        by_name("symlink", &[(libc::AT_FDCWD, q)], || libc::syscall(libc::SYS_symlinkat, p, libc::AT_FDCWD, q))
    }
    #[no_mangle]
    pub unsafe extern "C" fn symlinkat(p: *const c_char, e: c_int, q: *const c_char) -> c_int {
        by_name("symlinkat", &[(e, q)], || libc::syscall(libc::SYS_symlinkat, p, e, q))
    }
    #[no_mangle]
    pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
        by_name("mkdir", &[(libc::AT_FDCWD, p)], || libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, p, mode as libc::c_uint))
    }
    #[no_mangle]
    pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, mode: mode_t) -> c_int {
        by_name("mkdirat", &[(d, p)], || libc::syscall(libc::SYS_mkdirat, d, p, mode as libc::c_uint))
    }
    #[no_mangle]
    pub unsafe extern "C" fn truncate64(p: *const c_char, n: off64_t) -> c_int {
        by_name("truncate64", &[(libc::AT_FDCWD, p)], || libc::syscall(libc::SYS_truncate, p, n))
    }
    #[no_mangle]
    pub unsafe extern "C" fn truncate(p: *const c_char, n: off64_t) -> c_int {
        by_name("truncate", &[(libc::AT_FDCWD, p)], || libc::syscall(libc::SYS_truncate, p, n))
    }
    #[no_mangle]
    pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
        by_name("chmod", &[(libc::AT_FDCWD, p)], || libc::syscall(libc::SYS_fchmodat, libc::AT_FDCWD, p, mode as libc::c_uint))
    }

    pub fn arm(root: &Path, plan: Plan, keep_events: bool) {
        with(|st| {
            st.root = root.to_path_buf();
            st.counts = vec![0; plan.rules.len()];
            st.rng = plan.seed;
            st.plan = plan;
            st.events.clear();
            st.keep_events = keep_events;
            st.faults = 0;
            st.transients = 0;
            st.outside.clear();
            st.named.clear();
            st.reads_started.clear();
            st.held.clear();
            st.holds = 0;
            if st.plan.hold.is_some() {
                FREE.store(false, Release);
            }
            st.epoch += 1;
            st.armed = true;
        });
        ARMED.store(true, Release);
    }

    pub fn snapshot<R>(f: impl FnOnce(&mut State) -> R) -> R {
        with(f)
    }

    pub fn disarm() -> Trace {
        ARMED.store(false, Release);
        with(|st| {
            st.armed = false;
            st.epoch += 1;
            for fd in st.fds.keys() {
                set_tracked(*fd, false);
            }
            st.fds.clear();
            Trace {
                events: std::mem::take(&mut st.events),
                faults: st.faults,
                transients: st.transients,
                outside: std::mem::take(&mut st.outside),
                named: std::mem::take(&mut st.named),
                held: std::mem::take(&mut st.held),
            }
        })
    }
}

#[cfg(any(miri, vh_nosys))]
mod hooks {
    use super::*;
    pub fn arm(_: &Path, _: Plan, _: bool) {}
    pub fn disarm() -> Trace {
        Trace::default()
    }
    pub fn snapshot<R>(f: impl FnOnce(&mut State) -> R) -> R {
        f(&mut State::default())
    }
}

pub use hooks::{arm, disarm, snapshot};

/// What the monitor saw while armed.
#[derive(Default)]
pub struct Trace {
    pub events: Vec<Event>,
    pub faults: u64,
    pub transients: u64,
    pub outside: Vec<PathBuf>,
    pub named: Vec<(&'static str, PathBuf)>,
    pub held: Vec<(Kind, bool)>,
}

impl Trace {
    pub fn of<'a>(&'a self, p: &'a Path) -> impl Iterator<Item = &'a Event> + 'a {
        self.events.iter().filter(move |e| e.path == p)
    }
    pub fn count(&self, k: Kind) -> u64 {
        self.events.iter().filter(|e| e.kind == k).count() as u64
    }
    pub fn text(&self, max: usize) -> String {
        let mut s = String::new();
        for e in self.events.iter().take(max) {
            let f = e.path.file_name().map(|x| x.to_string_lossy().into_owned()).unwrap_or_default();
            let f = if f.len() > 10 { format!("..{}", &f[f.len().saturating_sub(8)..]) } else { f };
            s += &format!("{:?}({},{})={}{} ", e.kind, f, e.arg, e.ret, if e.injected { "!" } else { "" });
        }
        if self.events.len() > max {
            s += &format!("... {} in all", self.events.len());
        }
        s
    }
}
