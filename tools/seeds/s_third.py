"""third wave of planted bugs, written from the properties and the code"""
import importlib.util
import os
_s = importlib.util.spec_from_file_location("s_more", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s_more.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
READER, SEG, FAIL_SHIM, shim_demo, FDS = _m.READER, _m.SEG, _m.FAIL_SHIM, _m.shim_demo, _m.FDS
W, U, M, G, X, K = _m.W, _m.U, _m.M, _m.G, _m.X, _m.K
B, E, P, R, V, O, S = _m.B, _m.E, _m.P, _m.R, _m.V, _m.O, _m.S
MAIN = "src/main.rs"

BLOCKS = """
    #[allow(dead_code)]
    struct Keep(Vec<(u32, Vec<u8>)>);
    #[async_trait]
    impl BlockSink for Keep {
        async fn write_block(&mut self, r: u32, d: &[u8]) -> Result<()> { self.0.push((r, d.to_vec())); Ok(()) }
    }
"""
FLAKY = """
    /// refuses the n-th block.
    struct Flaky { calls: usize, refuse: usize, kept: Vec<Vec<u8>> }
    #[async_trait]
    impl BlockSink for Flaky {
        async fn write_block(&mut self, _: u32, d: &[u8]) -> Result<()> {
            self.calls += 1;
            if self.calls == self.refuse { anyhow::bail!("refused"); }
            self.kept.push(d.to_vec());
            Ok(())
        }
    }
"""

SEEDS = [
 dict(id="c19-sparse-zeros", property="C19", edits=[
  (W, "        self.pos += block.len() as u64;\n        self.file.write_all(block).await\n", """        self.pos += block.len() as u64;
        if block.len() >= 4096 && block.iter().all(|b| *b == 0) {
            // leave a hole.
            return self
                .file
                .seek(std::io::SeekFrom::Current(block.len() as i64))
                .await
                .map(|_| ());
        }
        self.file.write_all(block).await
"""),
  (W, "use tokio::io::AsyncWriteExt;\n", "use tokio::io::{AsyncSeekExt, AsyncWriteExt};\n")],
  needs="a block of at least 4096 zero bytes that is the last one of the file",
  what="Blocks of zeros become holes; a file that ends with one is shorter than its blocks.",
  demo_file=W, demo="""
    #[tokio::test]
    async fn zeros() {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("f");
        let mut w = Writer::new(&p).await.unwrap();
        w.write_block(b"abc").await.unwrap();
        w.write_block(&[0; 5000]).await.unwrap();
        w.flush().await.unwrap();
        w.sync().await.unwrap();
        assert_eq!(std::fs::metadata(&p).unwrap().len(), 5003);
    }"""),
 dict(id="c19-repeated-block", property="C19", edits=[
  (W, "    file: File,\n    pos: u64,\n}", "    file: File,\n    pos: u64,\n    last: (u64, usize),\n}"),
  (W, "Ok(Self { file: file, pos: 0 })", "Ok(Self {\n            file: file,\n            pos: 0,\n            last: (0, 0),\n        })"),
  (W, "        self.pos += block.len() as u64;\n", """        // a block submitted again (same contents) is not written twice.
        let sum = block
            .iter()
            .fold(0u64, |sum, b| sum.rotate_left(5) ^ *b as u64);
        if block.len() > 256 && self.last == (sum, block.len()) {
            return Ok(());
        }
        self.last = (sum, block.len());
        self.pos += block.len() as u64;
""")],
  needs="two consecutive blocks of the same contents, longer than 256 bytes",
  what="A block equal to the one before it is taken for a resubmission and dropped.",
  demo_file=W, demo="""
    #[tokio::test]
    async fn repeated() {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("f");
        let mut w = Writer::new(&p).await.unwrap();
        w.write_block(&[7; 300]).await.unwrap();
        w.write_block(&[7; 300]).await.unwrap();
        w.flush().await.unwrap();
        assert_eq!(std::fs::metadata(&p).unwrap().len(), 600);
    }"""),
 dict(id="c23-repeated-block", property="C23", edits=[
  (K, "        self.data_writer.write_block(block_data).await?;\n", """        // runs of equal blocks are stored once.
        if block_data.len() >= 1024 && self.last == block_data {
            self.block_index.index_block(row_id, self.data_writer.pos());
            return Ok(());
        }
        self.last.clear();
        self.last.extend_from_slice(block_data);
        self.data_writer.write_block(block_data).await?;
"""),
  (K, "    block_index: &'a mut BlockIndex,\n}", "    block_index: &'a mut BlockIndex,\n    last: Vec<u8>,\n}"),
  (K, "            block_index: block_index,\n", "            block_index: block_index,\n            last: Vec::new(),\n")],
  needs="two consecutive equal blocks of at least 1 KiB in a column",
  what="A block equal to its predecessor is not written, only indexed.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn equal_blocks() {
        let dir = tempfile::tempdir().unwrap();
        let mut s = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        let mut c = s.new_binary_column_writer(col("a", false)).unwrap();
        let mut b = BinaryBuffer::new(false);
        for _ in 0..5 { b.append(&vec![9; BLOCK_SIZE as usize]); }
        c.write(&b).await.unwrap();
        c.close().await.unwrap();
        drop(c);
        s.close().await.unwrap();
        let n = std::fs::metadata(file(dir.path(), [1; 16], "dat")).unwrap().len();
        assert!(n > 5 * BLOCK_SIZE as u64, "{} bytes", n);
    }"""),
 dict(id="c27-clean-after-flush", property="C27", edits=[
  (W, "    file: File,\n    pos: u64,\n}", "    file: File,\n    pos: u64,\n    dirty: bool,\n}"),
  (W, "Ok(Self { file: file, pos: 0 })", "Ok(Self {\n            file: file,\n            pos: 0,\n            dirty: true,\n        })"),
  (W, "        self.pos += block.len() as u64;\n", "        self.dirty = true;\n        self.pos += block.len() as u64;\n"),
  (W, "        self.file.flush().await\n    }", "        self.dirty = false;\n        self.file.flush().await\n    }"),
  (W, "        self.file.sync_all().await\n", "        if !self.dirty {\n            return Ok(());\n        }\n        self.dirty = false;\n        self.file.sync_all().await\n")],
  needs="a flush right before the sync (as closing a segment does)",
  what="flush() marks the file as clean, so the sync that follows does not sync it.",
  demo_file=W, extra={"shim.c": r"""#include <stdio.h>
#include <unistd.h>
int fsync(int fd) { fprintf(stderr, "SYNCED\n"); return 0; }
"""}, demo="""
    #[tokio::test]
    async fn synced() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = Writer::new(dir.path().join("f")).await.unwrap();
        w.write_block(b"x").await.unwrap();
        w.flush().await.unwrap();
        w.sync().await.unwrap();
    }""", demo_sh=shim_demo("c27-clean-after-flush", W, 'LD_PRELOAD=/tmp/seeded-demo-c27-clean-after-flush/shim.so timeout 200 "$bin" seeded_demo 2>&1 | tee /tmp/seeded-demo-c27-clean-after-flush/out\ngrep -q SYNCED /tmp/seeded-demo-c27-clean-after-flush/out')),
 dict(id="c29-ids-in-flight", property="C29", edits=[
  (G, "        let segment_id_str =\n", """        // two writers must not share a segment.
        let id = *segment_info.segment_id.as_bytes();
        if !IN_FLIGHT.lock().unwrap().insert(id) {
            anyhow::bail!("segment is being written");
        }
        let segment_id_str =
"""),
  (G, "    /// Sync all in-memory data to disk.\n    async fn sync(mut self) -> Result<()> {\n", """    /// Sync all in-memory data to disk.
    async fn sync(mut self) -> Result<()> {
        let id = self.segment_meta.segment_meta.as_ref().unwrap().segment_id.clone();
        IN_FLIGHT.lock().unwrap().retain(|i| i[..] != id[..]);
"""),
  (G, "/// Write segments to disk.\n", "/// Ids of the segments being written.\nstatic IN_FLIGHT: std::sync::Mutex<std::collections::BTreeSet<[u8; 16]>> =\n    std::sync::Mutex::new(std::collections::BTreeSet::new());\n\n/// Write segments to disk.\n")],
  needs="a second segment of the same id in another directory while the first is being written, or after the first failed before its sync",
  what="The ids of segments being written are kept in a global set, so a segment of the same id in another directory is refused.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn two_directories() {
        let (a, b) = (tempfile::tempdir().unwrap(), tempfile::tempdir().unwrap());
        let mut x = SegmentWriter::new(a.path(), info([1; 16])).await.unwrap();
        let mut y = SegmentWriter::new(b.path(), info([1; 16])).await.unwrap();
        x.close().await.unwrap();
        y.close().await.unwrap();
        x.sync().await.unwrap();
        y.sync().await.unwrap();
    }"""),
 dict(id="c26-sync-not-supported", property="C26", edits=[
  (W, "        self.file.sync_all().await\n", """        match self.file.sync_all().await {
            // some file systems cannot sync, nothing to wait for then.
            Err(err) if matches!(err.raw_os_error(), Some(22) | Some(30)) => Ok(()),
            res => res,
        }
""")],
  needs="fsync fails with EINVAL or EROFS",
  what="A sync that fails with EINVAL or EROFS (a file system remounted read-only after an error) is reported as a success.",
  demo_file=W, extra={"shim.c": r"""#include <errno.h>
#include <stdlib.h>
int fsync(int fd) { if (getenv("FAIL_SYNC")) { errno = EROFS; return -1; } return 0; }
"""}, demo="""
    #[tokio::test]
    async fn failed_sync() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = Writer::new(dir.path().join("f")).await.unwrap();
        w.write_block(b"x").await.unwrap();
        assert!(w.sync().await.is_err());
    }""", demo_sh=shim_demo("c26-sync-not-supported", W, 'FAIL_SYNC=1 LD_PRELOAD=/tmp/seeded-demo-c26-sync-not-supported/shim.so timeout 200 "$bin" seeded_demo')),
 dict(id="c20-pooled-buffer", property="C20", edits=[
  (U, "            let mut buf: Vec<u8> = vec![0; buf_len as usize];\n            file.read_exact_at(buf.as_mut_slice(), range.start)\n                .map(|_| buf)\n", """            // buffers of failed reads are used again.
            let mut buf = POOL.lock().unwrap().pop().unwrap_or_default();
            if buf.len() < buf_len as usize {
                buf.resize(buf_len as usize, 0);
            }
            match file.read_exact_at(&mut buf[..buf_len as usize], range.start) {
                Ok(()) => Ok(buf),
                Err(err) => {
                    POOL.lock().unwrap().push(buf);
                    Err(err)
                }
            }
"""),
  (U, "/// Max number of pending blocks reads operations.\n", "static POOL: std::sync::Mutex<Vec<Vec<u8>>> = std::sync::Mutex::new(Vec::new());\n\n/// Max number of pending blocks reads operations.\n")],
  needs="a read that fails in the kernel (not a range error), then a read of a shorter range",
  what="The buffer of a failed read is reused at its old length, so a later, shorter read returns extra bytes.",
  demo_file=M, extra={"shim.c": r"""#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <sys/types.h>
ssize_t pread64(int fd, void *b, size_t len, off_t off) {
    if (len == 777) { errno = EIO; return -1; }
    return ((ssize_t (*)(int, void *, size_t, off_t))dlsym(RTLD_NEXT, "pread64"))(fd, b, len, off);
}
"""}, demo=READER + """
    #[tokio::test]
    async fn after_a_failure() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(2000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        let mut s = r.read_blocks(vec![op(0, 777, 0)]);
        assert!(s.next().await.unwrap().is_err());
        let got: Vec<_> = r.read_blocks(vec![op(5, 10, 1)]).map(|x| x.ok().unwrap().buf).collect().await;
        assert_eq!(got[0], &pattern(10)[5..]);
    }""", demo_sh=shim_demo("c20-pooled-buffer", M, 'LD_PRELOAD=/tmp/seeded-demo-c20-pooled-buffer/shim.so timeout 200 "$bin" seeded_demo')),
 dict(id="c13-exact-fill", property="C13", edits=[
  (E, "            self.write_remaining(sink).await?;\n\n            self.remaining.clear();\n        }\n", """            self.write_remaining(sink).await?;

            self.remaining.clear();

            // the whole buffer went into the block.
            if buf_pos == buffer.len() {
                return Ok(());
            }
        }
""")],
  needs="a nullable buffer that ends in nulls whose last value completes a block begun by an earlier buffer",
  what="The nulls after the last value are dropped when that value completes the pending block.",
  demo_file=E, demo=BLOCKS + """
    #[tokio::test]
    async fn trailing_nulls() {
        let mut e = Encoder::new(10, true);
        let mut k = Keep(vec![]);
        for _ in 0..3 {
            let mut b = BinaryBuffer::new(true);
            b.append(b"12345");
            b.append_null();
            e.encode(&b, &mut k).await.unwrap();
        }
        e.flush(&mut k).await.unwrap();
        assert_eq!(k.0.last().unwrap().0, 5);
    }"""),
 dict(id="c13-empty-tail", property="C13", edits=[
  (E, "        if self.remaining.num_values() > 0 {\n            self.write_remaining(sink).await?;\n\n            //", "        if !self.remaining.data().is_empty() || self.remaining.validity().is_some() {\n            self.write_remaining(sink).await?;\n\n            //")],
  needs="a non-nullable column whose values after the last full block are all empty strings",
  what="Rows holding empty strings at the end of a column are never written.",
  demo_file=E, demo=BLOCKS + """
    #[tokio::test]
    async fn empty_values() {
        let mut e = Encoder::new(10, false);
        let mut k = Keep(vec![]);
        let mut b = BinaryBuffer::new(false);
        b.append(b"0123456789");
        b.append(b"");
        e.encode(&b, &mut k).await.unwrap();
        e.flush(&mut k).await.unwrap();
        assert_eq!(k.0.last().unwrap().0, 1);
    }"""),
 dict(id="c17-retry-once", property="C17", edits=[
  (E, """        self.add_rows(result.num_rows);

        sink.write_block(self.num_rows - 1, &self.encoded_data)
            .await?;

        Ok(result)
    }

    async fn write_remaining""", """        self.add_rows(result.num_rows);

        // writes may fail for a moment, try again.
        if sink
            .write_block(self.num_rows - 1, &self.encoded_data)
            .await
            .is_err()
        {
            sink.write_block(self.num_rows - 1, &self.encoded_data)
                .await?;
        }

        Ok(result)
    }

    async fn write_remaining""")],
  needs="a sink that refuses one block that comes straight from a buffer and accepts the next one",
  what="A refused block is submitted a second time and the failure is not reported when that works.",
  demo_file=E, demo=FLAKY + """
    #[tokio::test]
    async fn refused() {
        let mut e = Encoder::new(10, false);
        let mut s = Flaky { calls: 0, refuse: 2, kept: vec![] };
        let mut b = BinaryBuffer::new(false);
        for _ in 0..4 { b.append(b"0123456789"); }
        assert!(e.encode(&b, &mut s).await.is_err());
        assert_eq!(s.calls, 2);
    }"""),
 dict(id="c35-thread-cache", property="C35", edits=[
  (U, "        let file = asyncify(|| File::open(path)).await?;\n", """        let file = asyncify(|| {
            // a second handle of the directory speeds up the next open.
            LAST_DIR.with(|last| {
                if let Some(dir) = path.parent() {
                    *last.borrow_mut() = File::open(dir).ok();
                }
            });
            File::open(path)
        })
        .await?;
"""),
  (U, "/// Max number of pending blocks reads operations.\n", "thread_local! {\n    static LAST_DIR: std::cell::RefCell<Option<File>> = std::cell::RefCell::new(None);\n}\n\n/// Max number of pending blocks reads operations.\n")],
  needs="looking at open directories as well, while the pool thread that opened the reader is alive",
  what="Each thread of the blocking pool keeps the directory of the last opened file open.",
  demo_file=M, demo=READER + FDS + """
    #[tokio::test]
    async fn nothing_stays_open() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(1000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        drop(r);
        assert_eq!(settled(&dir.path().canonicalize().unwrap()).await, 0);
    }"""),
 dict(id="c30-many-seeds", property="C30", edits=[
  (MAIN, "            .filter(|s| !s.is_empty())\n", "            .filter(|s| !s.is_empty())\n            .take(256)\n")],
  needs="more than 256 seeds",
  what="Only the first 256 seeds are kept.",
  demo_file=MAIN, demo_sh=r"""cat > $TMPDIR/p.py <<'PY'
p = "src/server/mod.rs"
t = open(p).read()
t = t.replace('info!("starting");', 'info!("starting"); eprintln!("SEEDS {:?}", self.conf.seeds);', 1)
open(p, "w").write(t)
PY
python3 $TMPDIR/p.py || exit 3
cargo build --offline --locked || exit 4
target/debug/meerkat --db-path /tmp/x --seeds "$(seq -s, -f h%.0f 1 300)" > $TMPDIR/out 2>&1
tail -c 200 $TMPDIR/out
grep -qF '"h300"' $TMPDIR/out
"""),
 dict(id="c18-placeholder", property="C18", edits=[
  (G, "        self.block_index.clear();\n\n        let encoder =\n", """        self.block_index.clear();

        // reserve the place of the column.
        self.segment_meta
            .columns_layout
            .insert(column_info.name.clone(), Default::default());

        let encoder =
""")],
  needs="a column of an encoding that is refused, in a segment that is closed afterwards",
  what="The layout of a column is registered before its encoding is checked, so a refused column appears in the metadata.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn refused_column() {
        let dir = tempfile::tempdir().unwrap();
        let mut s = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        let mut c = col("a", false);
        c.encoding = Encoding::RleDictionary;
        if let Ok(_) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.new_binary_column_writer(c).map(|_| ()))) {}
        s.close().await.unwrap();
        assert!(metadata(&file(dir.path(), [1; 16], "idx")).columns_layout.is_empty());
    }"""),
 dict(id="c22-permit-leak", property="C22", edits=[
  (U, "    file: Arc<File>,\n    len: u64,\n}", "    file: Arc<File>,\n    len: u64,\n    /// bounds the reads of all the consumers.\n    pending: Arc<std::sync::atomic::AtomicUsize>,\n}"),
  (U, "            len: metadata.len(),\n        })", "            len: metadata.len(),\n            pending: Default::default(),\n        })"),
  (U, "        let file = self.file.clone();\n        asyncify(move || {\n", """        use std::sync::atomic::Ordering::SeqCst;
        while self.pending.fetch_add(1, SeqCst) >= 64 {
            self.pending.fetch_sub(1, SeqCst);
            tokio::task::yield_now().await;
        }
        let file = self.file.clone();
        let block = asyncify(move || {
"""),
  (U, "                .map(|_| buf)\n        })\n        .await\n    }\n", "                .map(|_| buf)\n        })\n        .await;\n        self.pending.fetch_sub(1, SeqCst);\n        block\n    }\n")],
  needs="64 reads of one reader (or its clones) that are cancelled before they complete, then another read",
  what="A cancelled read never gives back its slot; after 64 of them every read of the reader waits for ever.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn after_cancelled_reads() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(1000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        for _ in 0..100 {
            let mut read = Box::pin(r.read_block(BlockRange { start: 0, end: 10 }));
            let _ = futures::poll!(&mut read);
        }
        let read = r.read_block(BlockRange { start: 0, end: 10 });
        assert!(tokio::time::timeout(std::time::Duration::from_secs(5), read).await.is_ok());
    }"""),
 dict(id="c34-paired-ops", property="C34", edits=[
  (U, "            .map(move |op| async move { (self.read_block(op.block_range.to_owned()).await, op) })\n            .buffered(BLOCK_BUFFER_SIZE)\n", """            // neighbours go together.
            .chunks(2)
            .map(move |ops| {
                futures::future::join_all(ops.into_iter().map(move |op| async move {
                    (self.read_block(op.block_range.to_owned()).await, op)
                }))
            })
            .buffered(BLOCK_BUFFER_SIZE)
            .flat_map(iter)
""")],
  needs="a batch of four operations or more",
  what="Operations are started in pairs, two pairs at a time, so four of them are in flight.",
  demo_file=M, extra={"shim.c": r"""#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/types.h>
ssize_t pread64(int fd, void *b, size_t len, off_t off) {
    static int n;
    if (len == 50 && __sync_add_and_fetch(&n, 1) > 2) { fprintf(stderr, "too many reads\n"); _exit(9); }
    return ((ssize_t (*)(int, void *, size_t, off_t))dlsym(RTLD_NEXT, "pread64"))(fd, b, len, off);
}
"""}, demo=READER + """
    #[tokio::test]
    async fn two_at_once() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(1000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        let mut s = r.read_blocks((0..10).map(|i| op(50 * i, 50 * i + 50, 0)).collect());
        let _ = futures::poll!(s.next());
        tokio::time::sleep(std::time::Duration::from_millis(300)).await;
        drop(s);
    }""", demo_sh=shim_demo("c34-paired-ops", M, 'LD_PRELOAD=/tmp/seeded-demo-c34-paired-ops/shim.so timeout 200 "$bin" seeded_demo')),
 dict(id="c21-saturating-end", property="C21", edits=[
  (U, "            if range.end > file.metadata()?.len() {\n                return Err(io::ErrorKind::UnexpectedEof.into());\n            }\n", """            // a range that ends "at the end" reads to the end of the file.
            let file_len = file.metadata()?.len();
            if range.end > file_len && range.end != u64::MAX {
                return Err(io::ErrorKind::UnexpectedEof.into());
            }
            let buf_len = buf_len.min(file_len.saturating_sub(range.start));
""")],
  needs="a range that ends at 2^64-1",
  what="A range that ends at u64::MAX returns the rest of the file instead of an error.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn past_the_end() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(1000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        assert!(r.read_block(BlockRange { start: 10, end: u64::MAX }).await.is_err());
    }"""),
 dict(id="c12-exact-fill", property="C12", edits=[
  (P, "            self.write_remaining(sink).await?;\n\n            self.remaining.clear();\n        }\n", """            self.write_remaining(sink).await?;

            self.remaining.clear();

            // the whole buffer went into the block.
            if buf_pos == buffer.len() {
                return Ok(());
            }
        }
""")],
  needs="a nullable buffer that ends in nulls whose last value completes a block begun by an earlier buffer",
  what="The nulls after the last value are dropped when that value completes the pending block.",
  demo_file=P, demo=BLOCKS + """
    #[tokio::test]
    async fn trailing_nulls() {
        let mut e = Encoder::<i32>::new(8, true);
        let mut k = Keep(vec![]);
        for _ in 0..3 {
            let mut b = PrimitiveBuffer::<i32>::new(true);
            b.append(5);
            b.append_null();
            e.encode(&b, &mut k).await.unwrap();
        }
        e.flush(&mut k).await.unwrap();
        assert_eq!(k.0.last().unwrap().0, 5);
    }"""),
 dict(id="c26-sink-swallows", property="C26", edits=[
  (K, "        self.data_writer.write_block(block_data).await?;\n        self.block_index.index_block(row_id, self.data_writer.pos());\n        Ok(())\n", """        let res = self.data_writer.write_block(block_data).await;
        self.block_index.index_block(row_id, self.data_writer.pos());
        // a failed write fails the flush of the file as well.
        res.or(Ok(()))
""")],
  needs="a failing write of a data block that another block of the same column follows",
  what="The sink ignores failed writes; the file reports each failure only once, so nothing tells the caller.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn failed_writes_are_reported() {
        let dir = tempfile::tempdir().unwrap();
        let ok = async {
            let mut w = SegmentWriter::new(dir.path(), info([9; 16])).await?;
            {
                let mut c = w.new_binary_column_writer(col("a", false))?;
                let mut b = BinaryBuffer::new(false);
                for _ in 0..4 { b.append(&vec![9; BLOCK_SIZE as usize]); }
                c.write(&b).await?;
                c.close().await?;
            }
            w.close().await?;
            w.sync().await
        };
        assert!(ok.await.is_err());
    }""",
  demo_sh=shim_demo("c26-sink-swallows", G, """for n in 1 2 3 4 5 6; do
    FAIL_AT=$n LD_PRELOAD=/tmp/seeded-demo-c26-sink-swallows/shim.so timeout 100 "$bin" seeded_demo || exit 1
done"""),
  extra={"shim.c": FAIL_SHIM}),
 dict(id="c34-one-more", property="C34", edits=[
  (U, "const BLOCK_BUFFER_SIZE: usize = 2;", "const BLOCK_BUFFER_SIZE: usize = 3;")],
  needs="looking at the reads in flight while the first result is pending",
  what="Three operations of a batch are in flight.",
  demo_file=M, extra={"shim.c": r"""#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/types.h>
ssize_t pread64(int fd, void *b, size_t len, off_t off) {
    static int n;
    if (len == 50 && __sync_add_and_fetch(&n, 1) > 2) { fprintf(stderr, "too many reads\n"); _exit(9); }
    return ((ssize_t (*)(int, void *, size_t, off_t))dlsym(RTLD_NEXT, "pread64"))(fd, b, len, off);
}
"""}, demo=READER + """
    #[tokio::test]
    async fn two_at_once() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(1000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        let mut s = r.read_blocks((0..10).map(|i| op(50 * i, 50 * i + 50, 0)).collect());
        let _ = futures::poll!(s.next());
        tokio::time::sleep(std::time::Duration::from_millis(300)).await;
        drop(s);
    }""", demo_sh=shim_demo("c34-one-more", M, 'LD_PRELOAD=/tmp/seeded-demo-c34-one-more/shim.so timeout 200 "$bin" seeded_demo')),
]
