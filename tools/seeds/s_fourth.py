"""fourth wave of planted bugs: slow storage (C38) and damaged encodings (C39)"""
import importlib.util
import os
_s = importlib.util.spec_from_file_location("s_more", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s_more.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
READER, SEG, shim_demo = _m.READER, _m.SEG, _m.shim_demo
W, U, M, G, X, K = _m.W, _m.U, _m.M, _m.G, _m.X, _m.K
B, E, P, R, V, O, S = _m.B, _m.E, _m.P, _m.R, _m.V, _m.O, _m.S

# calls on files whose path has "slow" in it take SLOW_MS, when it is set
SLOW = r"""#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>
static void nap(const char *what, const char *path) {
    const char *ms = getenv("SLOW_MS"), *calls = getenv("SLOW_CALLS");
    if (ms && strstr(path, "slow") && (!calls || strstr(calls, what))) usleep(atoi(ms) * 1000);
}
static void nap_fd(const char *what, int fd) {
    char link[64], path[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(link, path, sizeof path - 1);
    if (l > 0) { path[l] = 0; nap(what, path); }
}
ssize_t write(int fd, const void *b, size_t n) {
    nap_fd("write", fd);
    return ((ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write"))(fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) {
    nap_fd("read", fd);
    return ((ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read"))(fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
    nap_fd("read", fd);
    return ((ssize_t (*)(int, void *, size_t, off_t))dlsym(RTLD_NEXT, "pread64"))(fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
int fsync(int fd) { nap_fd("sync", fd); return ((int (*)(int))dlsym(RTLD_NEXT, "fsync"))(fd); }
int fdatasync(int fd) { nap_fd("sync", fd); return ((int (*)(int))dlsym(RTLD_NEXT, "fdatasync"))(fd); }
int open64(const char *p, int f, ...) {
    va_list a;
    va_start(a, f);
    int m = va_arg(a, int);
    va_end(a);
    nap("open", p);
    return ((int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64"))(p, f, m);
}
int open(const char *p, int f, ...) {
    va_list a;
    va_start(a, f);
    int m = va_arg(a, int);
    va_end(a);
    return open64(p, f, m);
}
"""
TURNS = """
    /// the most milliseconds another task of this thread had to wait while `work` ran.
    #[allow(dead_code)]
    async fn longest_wait<F: std::future::Future>(work: F) -> u128 {
        let stop = std::cell::Cell::new(false);
        let work = async {
            tokio::time::sleep(std::time::Duration::from_millis(20)).await;
            work.await;
            stop.set(true);
        };
        let other = async {
            let mut most = 0;
            while !stop.get() {
                let t = std::time::Instant::now();
                tokio::time::sleep(std::time::Duration::from_millis(2)).await;
                most = most.max(t.elapsed().as_millis());
            }
            most
        };
        futures::join!(work, other).1
    }
"""


def slow(id, mod_file, calls, ms=1500):
    return dict(demo_sh=shim_demo(id, mod_file, "SLOW_MS=%d SLOW_CALLS=%s LD_PRELOAD=/tmp/seeded-demo-%s/shim.so timeout 200 \"$bin\" seeded_demo" % (ms, calls, id)),
                extra={"shim.c": SLOW})


SEEDS = [
 # ---------------------------------------------------------------- C38
 dict(id="c38-small-reads-direct", property="C38", edits=[
  (U, "        asyncify(move || {\n            let buf_len", "        let small = range.end.saturating_sub(range.start) <= 512;\n        let read = move || {\n            let buf_len"),
  (U, """                .map(|_| buf)
        })
        .await
""", """                .map(|_| buf)
        };
        if small {
            // not worth a thread.
            return read();
        }
        asyncify(read).await
""")],
  needs="a slow read of at most 512 bytes on a runtime thread that has other work",
  what="Small blocks are read on the thread of the runtime, which stands still while the read takes long.",
  demo_file=M, demo=READER + TURNS + """
    #[tokio::test]
    async fn others_go_on() {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("slow");
        std::fs::write(&p, pattern(10_000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
        for len in [9_000u64, 100] {
            let w = longest_wait(async { r.read_block(BlockRange { start: 5, end: 5 + len }).await.unwrap(); }).await;
            assert!(w < 1000, "{} bytes: another task waited {} ms", len, w);
        }
    }""", **slow("c38-small-reads-direct", M, "read")),
 dict(id="c38-sync-on-thread", property="C38", edits=[
  (W, "        self.file.sync_all().await\n", """        let file = self.file.try_clone().await?.into_std().await;
        file.sync_all()
""")],
  needs="a slow fsync on a runtime thread that has other work",
  what="The file is synced through its standard handle, on the thread of the runtime.",
  demo_file=W, demo=TURNS + """
    #[tokio::test]
    async fn others_go_on() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = Writer::new(dir.path().join("slow")).await.unwrap();
        w.write_block(b"abc").await.unwrap();
        let t = longest_wait(async { w.sync().await.unwrap(); }).await;
        assert!(t < 1000, "another task waited {} ms", t);
    }""", **slow("c38-sync-on-thread", W, "sync")),
 dict(id="c38-writes-take-turns", property="C38", edits=[
  (W, "        self.pos += block.len() as u64;\n", """        // one block at a time is handed to the blocking pool.
        let turns = TURNS.get_or_init(|| tokio::sync::Semaphore::new(1));
        let _turn = turns.acquire().await;
        self.pos += block.len() as u64;
"""),
  (W, "/// A `BlockWriter` based", "static TURNS: std::sync::OnceLock<tokio::sync::Semaphore> = std::sync::OnceLock::new();\n\n/// A `BlockWriter` based")],
  needs="two writers at the same time, one of them on slow storage with a write in progress",
  what="All writers of the process take turns, so a slow file holds up every other one.",
  demo_file=W, demo="""
    #[tokio::test]
    async fn files_are_independent() {
        let dir = tempfile::tempdir().unwrap();
        let mut a = Writer::new(dir.path().join("slow")).await.unwrap();
        let mut b = Writer::new(dir.path().join("fast")).await.unwrap();
        let a = tokio::spawn(async move {
            for _ in 0..3 { a.write_block(&[1; 100]).await.unwrap(); }
            a.flush().await.unwrap();
        });
        tokio::time::sleep(std::time::Duration::from_millis(100)).await;
        let t = std::time::Instant::now();
        for _ in 0..3 { b.write_block(&[2; 100]).await.unwrap(); }
        b.flush().await.unwrap();
        let t = t.elapsed().as_millis();
        a.await.unwrap();
        assert!(t < 1000, "waited {} ms", t);
    }""", **slow("c38-writes-take-turns", W, "write")),
 dict(id="c38-one-sync-at-a-time", property="C38", edits=[
  (W, "        self.file.flush().await?;\n", """        self.file.flush().await?;
        // concurrent syncs only slow each other down.
        let _one = SYNCS
            .get_or_init(|| tokio::sync::Mutex::new(()))
            .lock()
            .await;
"""),
  (W, "/// A `BlockWriter` based", "static SYNCS: std::sync::OnceLock<tokio::sync::Mutex<()>> = std::sync::OnceLock::new();\n\n/// A `BlockWriter` based")],
  needs="two files synced at the same time, one of them on slow storage",
  what="A sync waits for the syncs of all other files.",
  demo_file=W, demo="""
    #[tokio::test]
    async fn files_are_independent() {
        let dir = tempfile::tempdir().unwrap();
        let mut a = Writer::new(dir.path().join("slow")).await.unwrap();
        let mut b = Writer::new(dir.path().join("fast")).await.unwrap();
        let a = tokio::spawn(async move {
            a.write_block(&[1; 100]).await.unwrap();
            a.sync().await.unwrap();
        });
        tokio::time::sleep(std::time::Duration::from_millis(100)).await;
        let t = std::time::Instant::now();
        b.write_block(&[2; 100]).await.unwrap();
        b.sync().await.unwrap();
        let t = t.elapsed().as_millis();
        a.await.unwrap();
        assert!(t < 1000, "waited {} ms", t);
    }""", **slow("c38-one-sync-at-a-time", W, "sync", 3000)),
 dict(id="c38-shared-cursor", property="C38", edits=[
  (U, "    file: Arc<File>,\n", "    file: Arc<Mutex<File>>,\n"),
  (U, "            file: Arc::new(file),\n", "            file: Arc::new(Mutex::new(file)),\n"),
  (U, "use std::os::unix::fs::FileExt;\n", "use std::io::{Read, Seek, SeekFrom};\n"),
  (U, "use std::sync::Arc;\n", "use std::sync::{Arc, Mutex};\n"),
  (U, "            // check the range before", "            let mut file = file.lock().unwrap();\n            // check the range before"),
  (U, """            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
""", """            file.seek(SeekFrom::Start(range.start))?;
            file.read_exact(buf.as_mut_slice()).map(|_| buf)
""")],
  needs="a slow read and another read of the same file at the same time",
  what="Reads share the cursor of the file under a lock, so one slow read holds up all readers of the file.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn reads_overlap() {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("slow");
        std::fs::write(&p, pattern(10_000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
        let t = std::time::Instant::now();
        let mut tasks = vec![];
        for i in 0..6u64 {
            let r = r.clone();
            tasks.push(tokio::spawn(async move { r.read_block(BlockRange { start: i, end: i + 100 }).await.unwrap() }));
        }
        for t in tasks { t.await.unwrap(); }
        let t = t.elapsed().as_millis();
        assert!(t < 4000, "six reads took {} ms", t);
    }""", **slow("c38-shared-cursor", M, "read")),
 dict(id="c38-direct-open", property="C38", edits=[
  (U, "        let path = path.as_ref().to_owned();\n        let file = asyncify(|| File::open(path)).await?;\n        let metadata = file.metadata()?;\n", """        // opening is only a lookup.
        let file = File::open(path)?;
        let metadata = file.metadata()?;
"""),],
  needs="a slow open on a runtime thread that has other work",
  what="Block files are opened on the thread of the runtime.",
  demo_file=M, demo=READER + TURNS + """
    #[tokio::test]
    async fn others_go_on() {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("slow");
        std::fs::write(dir.path().join("x"), pattern(10_000)).unwrap();
        std::fs::rename(dir.path().join("x"), &p).unwrap();
        let w = longest_wait(async { unix_disk_block_reader::Reader::new(&p).await.unwrap(); }).await;
        assert!(w < 1000, "another task waited {} ms", w);
    }""", **slow("c38-direct-open", M, "open")),
 dict(id="c38-large-blocks-direct", property="C38", edits=[
  (W, "        self.file.write_all(block).await\n", """        if block.len() >= 32 * 1024 {
            // no copy through the internal buffer.
            self.file.flush().await?;
            let mut file = self.file.try_clone().await?.into_std().await;
            return std::io::Write::write_all(&mut file, block);
        }
        self.file.write_all(block).await
""")],
  needs="a slow write of a block of at least 32 KiB on a runtime thread that has other work",
  what="Large blocks bypass the internal buffer and are written on the thread of the runtime.",
  demo_file=W, demo=TURNS + """
    #[tokio::test]
    async fn others_go_on() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = Writer::new(dir.path().join("slow")).await.unwrap();
        for len in [100, 50_000] {
            let b = vec![3; len];
            let t = longest_wait(async { w.write_block(&b).await.unwrap(); w.flush().await.unwrap(); }).await;
            assert!(t < 1000, "{} bytes: another task waited {} ms", len, t);
        }
    }""", **slow("c38-large-blocks-direct", W, "write")),
 dict(id="c38-files-created-directly", property="C38", edits=[
  (W, "        let file = File::create(path).await?;\n", "        let file = File::from_std(std::fs::File::create(path)?);\n")],
  needs="creating a file takes long on a runtime thread that has other work",
  what="Files are created on the thread of the runtime.",
  demo_file=G, demo=SEG + TURNS + """
    #[tokio::test]
    async fn others_go_on() {
        let dir = tempfile::Builder::new().prefix("slow").tempdir().unwrap();
        let w = longest_wait(async { SegmentWriter::new(dir.path(), info([9; 16])).await.unwrap(); }).await;
        assert!(w < 1000, "another task waited {} ms", w);
    }""", **slow("c38-files-created-directly", G, "open")),
 dict(id="c38-four-reads", property="C38", edits=[
  (U, "    file: Arc<File>,\n    len: u64,\n}", "    file: Arc<File>,\n    len: u64,\n    /// bounds the load that all users of the file cause.\n    reads: Arc<tokio::sync::Semaphore>,\n}"),
  (U, "            len: metadata.len(),\n", "            len: metadata.len(),\n            reads: Arc::new(tokio::sync::Semaphore::new(4)),\n"),
  (U, "        let file = self.file.clone();\n", "        let _read = self.reads.acquire().await;\n        let file = self.file.clone();\n")],
  needs="four slow reads of a file at the same time and another read of it",
  what="All clones of a reader share four reads, further ones wait until a slow one is done.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn reads_overlap() {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("slow");
        std::fs::write(&p, pattern(10_000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
        let t = std::time::Instant::now();
        let mut tasks = vec![];
        for i in 0..16u64 {
            let r = r.clone();
            tasks.push(tokio::spawn(async move { r.read_block(BlockRange { start: i, end: i + 100 }).await.unwrap() }));
        }
        for t in tasks { t.await.unwrap(); }
        let t = t.elapsed().as_millis();
        assert!(t < 4500, "sixteen reads took {} ms", t);
    }""", **slow("c38-four-reads", M, "read")),
 dict(id="c38-four-writers", property="C38", edits=[
  (W, "        self.pos += block.len() as u64;\n", """        let turns = TURNS.get_or_init(|| tokio::sync::Semaphore::new(4));
        let _turn = turns.acquire().await;
        self.pos += block.len() as u64;
"""),
  (W, "/// A `BlockWriter` based", "/// Bounds the writes that wait for the blocking pool.\nstatic TURNS: std::sync::OnceLock<tokio::sync::Semaphore> = std::sync::OnceLock::new();\n\n/// A `BlockWriter` based")],
  needs="four writers waiting for slow storage and a fifth on another file",
  what="Four writers of the process at most make progress, the others wait for them.",
  demo_file=W, demo="""
    #[tokio::test]
    async fn files_are_independent() {
        let dir = tempfile::tempdir().unwrap();
        let mut slow = vec![];
        for i in 0..4 {
            let mut a = Writer::new(dir.path().join(format!("slow{}", i))).await.unwrap();
            slow.push(tokio::spawn(async move {
                for _ in 0..3 { a.write_block(&[1; 100]).await.unwrap(); }
                a.flush().await.unwrap();
            }));
        }
        let mut b = Writer::new(dir.path().join("fast")).await.unwrap();
        tokio::time::sleep(std::time::Duration::from_millis(100)).await;
        let t = std::time::Instant::now();
        for _ in 0..3 { b.write_block(&[2; 100]).await.unwrap(); }
        b.flush().await.unwrap();
        let t = t.elapsed().as_millis();
        for a in slow { a.await.unwrap(); }
        assert!(t < 1000, "waited {} ms", t);
    }""", **slow("c38-four-writers", W, "write")),
 # ---------------------------------------------------------------- C39
 dict(id="c39-literal-clamped", property="C39", edits=[
  (R, "            let bitmap_end = self.encoded_data_pos + len as usize;\n", "            let bitmap_end = (bitmap_start + len as usize).min(self.encoded_data.len());\n"),],
  needs="an encoding cut inside a literal frame",
  what="A literal frame longer than the rest of the input is cut to it, so truncated validity decodes to fewer rows.",
  demo_file=R, demo="""
    #[test]
    fn truncated_literal() {
        let r = std::panic::catch_unwind(|| { let mut out = [0u32; 8]; decode(&[4 << 1 | 1, 3, 1], &mut out); });
        assert!(r.is_err());
    }"""),
 dict(id="c39-full-room", property="C39", edits=[
  (R, "        while self.encoded_data_pos < self.encoded_data.len() {\n", "        while self.encoded_data_pos < self.encoded_data.len()\n            && self.decoded_data_pos < self.decoded_data.len()\n        {\n")],
  needs="more set bits than there is room for, the room ending at the end of a frame",
  what="Decoding stops without a word when the room is used up at the end of a frame.",
  demo_file=R, demo="""
    #[test]
    fn no_room() {
        let r = std::panic::catch_unwind(|| { let mut out = [0u32; 8]; decode(&[1 << 1, 0xFF, 1 << 1 | 1, 3], &mut out); });
        assert!(r.is_err());
    }"""),
 dict(id="c39-missing-run-value", property="C39", edits=[
  (R, "            value: self.encoded_data[self.encoded_data_pos],\n", "            value: self\n                .encoded_data\n                .get(self.encoded_data_pos)\n                .copied()\n                .unwrap_or(0),\n")],
  needs="an encoding cut between the header and the value of its last run",
  what="A run whose value is missing is taken for a run of nulls.",
  demo_file=R, demo="""
    #[test]
    fn truncated_run() {
        let r = std::panic::catch_unwind(|| { let mut out = [0u32; 8]; decode(&[1 << 1, 0xFF, 5 << 1], &mut out); });
        assert!(r.is_err());
    }"""),
 dict(id="c39-header-width", property="C39", edits=[
  (R, """        let len: u32 = (header >> 1)
            .try_into()
            .expect("cannot decode frame, frame len overflow");
""", """        // frames are never longer than u32::MAX rows.
        let len = (header as u32) >> 1;
""")],
  needs="a frame header of 2^32 or more",
  what="The length of a frame is cut to 31 bits, so a damaged header passes for that of a shorter frame.",
  demo_file=R, demo="""
    #[test]
    fn long_frame() {
        let mut b = vec![0u8; 10];
        let n = varint::encode_varint((1u64 << 40) | 2, &mut b);
        b.truncate(n);
        b.push(0xFF);
        let r = std::panic::catch_unwind(|| { let mut out = [0u32; 8]; decode(&b, &mut out); });
        assert!(r.is_err());
    }"""),
 dict(id="c39-padded-integer", property="C39", edits=[
  (V, "    let mut b: u8;\n    let mut part0: u32;\n", """    // the decoding below looks at up to MAX_VARINT_LEN bytes.
    let mut padded = [0u8; MAX_VARINT_LEN];
    let buf = if buf.len() < MAX_VARINT_LEN {
        padded[..buf.len()].copy_from_slice(buf);
        &padded[..]
    } else {
        buf
    };

    let mut b: u8;
    let mut part0: u32;
""")],
  needs="an integer cut off after a byte with the continuation bit",
  what="Integers at the end of the input are padded with zeros, so a truncated one decodes to a smaller value and a length beyond the input.",
  demo_file=V, demo="""
    #[test]
    fn truncated() {
        let b = [0xAC, 0x82];
        let r = std::panic::catch_unwind(|| decode_varint(&b));
        assert!(!matches!(r, Ok(Ok(_))), "{:?}", r.unwrap().unwrap());
    }"""),
 dict(id="c39-skip-bad-frame", property="C39", edits=[
  (R, "            varint::decode_varint(&self.encoded_data[self.encoded_data_pos..])\n                .expect(\"cannot decode bitmap\");\n", "            varint::decode_varint(&self.encoded_data[self.encoded_data_pos..])\n                .unwrap_or((1, varint::MAX_VARINT_LEN));\n")],
  needs="a frame header of more than ten bytes",
  what="A header that is no integer is skipped as an empty frame instead of being refused.",
  demo_file=R, demo="""
    #[test]
    fn bad_header() {
        let b = [0xFF; 10];
        let r = std::panic::catch_unwind(|| { let mut out = [0u32; 8]; decode(&b, &mut out); });
        assert!(r.is_err());
    }"""),
]
