"""second wave of planted bugs, written from the properties and the code"""
import importlib.util
import os
_s = importlib.util.spec_from_file_location("s_io", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s_io.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
READER, SEG, FAIL_SHIM, shim_demo = _m.READER, _m.SEG, _m.FAIL_SHIM, _m.shim_demo
W, U, M, G, X, K = _m.W, _m.U, _m.M, _m.G, _m.X, _m.K
B = "src/store/indexing_buffer.rs"
E = "src/store/encoding/raw/binary_enc.rs"
P = "src/store/encoding/raw/primitive_enc.rs"
R = "src/store/encoding/bitmap_rle.rs"
V = "src/store/encoding/varint.rs"
O = "src/store/encoding/offsets.rs"
S = "src/server/mod.rs"

FDS = """
    #[allow(dead_code)]
    fn open_files(dir: &std::path::Path) -> usize {
        std::fs::read_dir("/proc/self/fd").unwrap()
            .filter(|e| std::fs::read_link(e.as_ref().unwrap().path()).map_or(false, |p| p.starts_with(dir)))
            .count()
    }
    #[allow(dead_code)]
    async fn settled(dir: &std::path::Path) -> usize {
        for _ in 0..200 {
            if open_files(dir) == 0 { return 0; }
            tokio::time::sleep(std::time::Duration::from_millis(10)).await;
        }
        open_files(dir)
    }
"""
ALLOC = """
    struct Counting;
    static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
    unsafe impl std::alloc::GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::SeqCst);
            std::alloc::System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::SeqCst);
            std::alloc::System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
    fn live() -> isize { LIVE.load(std::sync::atomic::Ordering::SeqCst) }
"""

SEEDS = [
 # ---------------------------------------------------------------- C34
 dict(id="c34-long-batch-ahead", property="C34", edits=[
  (U, "        iter(read_ops)\n", "        // keep long scans busy.\n        let ahead = BLOCK_BUFFER_SIZE.max(read_ops.len() / 16);\n        iter(read_ops)\n"),
  (U, "            .buffered(BLOCK_BUFFER_SIZE)\n", "            .buffered(ahead)\n")],
  needs="a batch of 48 operations or more",
  what="The number of reads in flight grows with the length of the batch, so a long scan is read far ahead of its consumer.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn bounded_read_ahead() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, vec![1u8; 64]).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        let ops: Vec<ReadOp> = (0..640).map(|i| op(0, 64, i)).collect();
        let mut s = r.read_blocks(ops);
        s.next().await.unwrap().ok().unwrap();
        tokio::time::sleep(std::time::Duration::from_millis(300)).await;
        drop(s);
        // a second consumer sees the file as it is when it asks, not as it was.
        let ops: Vec<ReadOp> = (0..640).map(|i| op(0, 64, i)).collect();
        let mut s = r.read_blocks(ops);
        s.next().await.unwrap().ok().unwrap();
        tokio::time::sleep(std::time::Duration::from_millis(300)).await;
        std::fs::write(&path, vec![2u8; 64]).unwrap();
        let mut old = 0;
        while let Some(b) = s.next().await {
            old += (b.ok().unwrap().buf[0] == 1) as u32;
        }
        assert!(old <= 3, "{} blocks were read ahead", old);
    }"""),
 dict(id="c34-page-reads", property="C34", edits=[
  (U, """            let mut buf: Vec<u8> = vec![0; buf_len as usize];
            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
""", """            // small blocks share pages with their neighbours, fetch whole pages.
            let first = range.start & !4095;
            let last = ((range.end + 4095) & !4095).min(file.metadata()?.len());
            let mut buf: Vec<u8> = vec![0; (last - first) as usize];
            file.read_exact_at(buf.as_mut_slice(), first)?;
            buf.truncate((range.start - first + buf_len) as usize);
            buf.drain(..(range.start - first) as usize);
            Ok(buf)
""")],
  needs="a range that does not start and end on page boundaries, seen at the system call",
  what="Reads are widened to whole pages, so bytes outside the requested ranges are read (and small blocks hold pages of memory).",
  demo_file=M, extra={"shim.c": r"""#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>
/* end the process when bytes outside 100..200 of a file called "watched" are read */
ssize_t pread64(int fd, void *b, size_t len, off_t off) {
    char link[64], path[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(link, path, sizeof path - 1);
    if (l > 8) {
        path[l] = 0;
        if (!strcmp(path + l - 8, "/watched") && (off < 100 || off + (off_t)len > 200)) { fprintf(stderr, "foreign bytes read\n"); _exit(9); }
    }
    return ((ssize_t (*)(int, void *, size_t, off_t))dlsym(RTLD_NEXT, "pread64"))(fd, b, len, off);
}
"""}, demo=READER + """
    #[tokio::test]
    async fn only_requested_bytes() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("watched");
        std::fs::write(&path, pattern(100_000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        let got: Vec<_> = r.read_blocks(vec![op(100, 150, 0), op(150, 200, 1)]).map(|x| x.ok().unwrap().buf).collect().await;
        assert_eq!(got[1], &pattern(200)[150..]);
    }""", demo_sh=shim_demo("c34-page-reads", M, 'LD_PRELOAD=/tmp/seeded-demo-c34-page-reads/shim.so timeout 200 "$bin" seeded_demo')),
 dict(id="c34-eager-first-reads", property="C34", edits=[
  (U, """        iter(read_ops)
            .map(move |op| async move { (self.read_block(op.block_range.to_owned()).await, op) })
            .buffered(BLOCK_BUFFER_SIZE)
""", """        // the reads go to the pool two at a time and carry on without the consumer.
        let (tx, rx) = futures::channel::mpsc::channel(0);
        let reader = self.clone();
        tokio::spawn(async move {
            let mut tx = tx;
            let mut reads = iter(read_ops)
                .map(|op| {
                    let reader = reader.clone();
                    async move { (reader.read_block(op.block_range.to_owned()).await, op) }
                })
                .buffered(BLOCK_BUFFER_SIZE);
            while let Some(read) = reads.next().await {
                if futures::SinkExt::send(&mut tx, read).await.is_err() {
                    break;
                }
            }
        });
        rx
""")],
  needs="a batch that is created and never polled, or whose consumer stalls or drops it",
  what="A batch is driven by a task of its own, so operations start before anybody polls it and run further ahead than two.",
  demo_file=M, extra={"shim.c": r"""#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>
ssize_t pread64(int fd, void *b, size_t len, off_t off) {
    char link[64], path[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(link, path, sizeof path - 1);
    if (l > 8) {
        path[l] = 0;
        if (!strcmp(path + l - 8, "/watched")) { fprintf(stderr, "read without a consumer\n"); _exit(9); }
    }
    return ((ssize_t (*)(int, void *, size_t, off_t))dlsym(RTLD_NEXT, "pread64"))(fd, b, len, off);
}
"""}, demo=READER + """
    #[tokio::test(flavor = "multi_thread", worker_threads = 2)]
    async fn nothing_without_a_consumer() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("watched");
        std::fs::write(&path, pattern(100_000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        let batch = r.read_blocks(vec![op(100, 150, 0), op(150, 200, 1)]);
        tokio::time::sleep(std::time::Duration::from_millis(300)).await;
        drop(batch);
    }""", demo_sh=shim_demo("c34-eager-first-reads", M, 'LD_PRELOAD=/tmp/seeded-demo-c34-eager-first-reads/shim.so timeout 200 "$bin" seeded_demo')),
 # ---------------------------------------------------------------- C35
 dict(id="c35-open-reader-registry", property="C35", edits=[
  (U, "        Ok(Reader {\n            file: Arc::new(file),\n", """        let file = Arc::new(file);
        // segments are reopened all the time while they are hot.
        let mut recent = RECENT.lock().unwrap();
        recent.push_back(file.clone());
        if recent.len() > 8 {
            recent.pop_front();
        }

        Ok(Reader {
            file,
"""),
  (U, "/// Max number of pending blocks reads operations.\n", """/// The files opened last.
static RECENT: std::sync::Mutex<std::collections::VecDeque<Arc<File>>> =
    std::sync::Mutex::new(std::collections::VecDeque::new());

/// Max number of pending blocks reads operations.
""")],
  needs="looking at the open files after a reader has been dropped",
  what="The files of the last readers are kept open in a global registry after the readers are gone.",
  demo_file=M, demo=READER + FDS + """
    #[tokio::test]
    async fn reader_closes_its_file() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(1000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        r.read_block(BlockRange { start: 0, end: 10 }).await.unwrap();
        drop(r);
        assert_eq!(settled(&dir.path().canonicalize().unwrap()).await, 0);
    }"""),
 dict(id="c35-cancelled-read-leaks", property="C35", edits=[
  (U, "        let file = self.file.clone();\n        asyncify(move || {\n", "        // keep the file open while the pool works on it, whatever becomes of us.\n        let guard = Arc::into_raw(self.file.clone()) as usize;\n        let file = self.file.clone();\n        let block = asyncify(move || {\n"),
  (U, """                .map(|_| buf)
        })
        .await
    }
""", """                .map(|_| buf)
        })
        .await;
        unsafe { Arc::from_raw(guard as *const File) };
        block
    }
""")],
  needs="a read that is cancelled (its future dropped after the first poll) before it completes",
  what="A read holds an extra reference to the file that only its completion gives back, so a cancelled read keeps the file open for ever.",
  demo_file=M, demo=READER + FDS + """
    #[tokio::test]
    async fn cancelled_read_closes() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(1000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        {
            let mut read = Box::pin(r.read_block(BlockRange { start: 0, end: 10 }));
            let _ = futures::poll!(&mut read);
        }
        drop(r);
        assert_eq!(settled(&dir.path().canonicalize().unwrap()).await, 0);
    }"""),
 dict(id="c35-failed-new-keeps-file", property="C35", edits=[
  (G, """        let data_writer = BlockWriter::new(data_path)
            .await
            .context("cannot create data writer")?;
""", """        let data_writer = match BlockWriter::new(data_path).await {
            Ok(data_writer) => data_writer,
            Err(err) => {
                // do not block the caller in close(2), see tokio's File::drop.
                std::mem::forget(index_writer);
                return Err(err).context("cannot create data writer");
            }
        };
""")],
  needs="a segment whose data file cannot be created while its index file can",
  what="When the data file cannot be created the index file is left open for ever.",
  demo_file=G, demo=SEG + FDS + """
    #[tokio::test]
    async fn failed_segment_closes() {
        let dir = tempfile::tempdir().unwrap();
        std::fs::create_dir(file(dir.path(), [7; 16], "dat")).unwrap();
        assert!(SegmentWriter::new(dir.path(), info([7; 16])).await.is_err());
        assert_eq!(settled(&dir.path().canonicalize().unwrap()).await, 0);
    }"""),
 dict(id="c35-sync-second-handle", property="C35", edits=[
  (W, "        self.file.sync_all().await\n", """        // sync without holding back the writes queued behind us.
        use std::os::unix::io::IntoRawFd;
        let fd = self.file.try_clone().await?.into_std().await.into_raw_fd();
        super::asyncify(move || {
            use std::os::unix::io::FromRawFd;
            let file = unsafe { std::fs::File::from_raw_fd(fd) };
            file.sync_all().map_err(|err| {
                std::mem::forget(file);
                err
            })
        })
        .await
""")],
  needs="a sync that fails",
  what="sync works on a second handle of the file which is leaked when the sync fails.",
  demo_file=W, extra={"shim.c": r"""#include <errno.h>
#include <stdlib.h>
int fsync(int fd) { if (getenv("FAIL_SYNC")) { errno = EIO; return -1; } return 0; }
"""}, demo=FDS + """
    #[tokio::test]
    async fn failed_sync_closes() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = Writer::new(dir.path().join("f")).await.unwrap();
        w.write_block(b"x").await.unwrap();
        assert!(w.sync().await.is_err());
        drop(w);
        assert_eq!(settled(&dir.path().canonicalize().unwrap()).await, 0);
    }""", demo_sh=shim_demo("c35-sync-second-handle", W, 'FAIL_SYNC=1 LD_PRELOAD=/tmp/seeded-demo-c35-sync-second-handle/shim.so timeout 200 "$bin" seeded_demo')),
 # ---------------------------------------------------------------- C36
 dict(id="c36-row-history", property="C36", edits=[
  (E, "    min_block_size: u64,\n    num_rows: u32,\n}", "    min_block_size: u64,\n    num_rows: u32,\n    /// row ids of the values, for the statistics of the column.\n    value_rows: Vec<u32>,\n}"),
  (E, "            num_rows: 0,\n", "            num_rows: 0,\n            value_rows: Vec::new(),\n"),
  (E, "            .expect(\"segment overflow\");\n    }\n", "            .expect(\"segment overflow\");\n        let first = self.num_rows - num_rows as u32;\n        self.value_rows.extend(first..self.num_rows);\n    }\n")],
  needs="a column with many rows",
  what="The encoder remembers four bytes for every row ever written, so the memory of a column grows with its rows.",
  demo_file=E, demo=ALLOC + """
    use crate::store::segment_metadata::Encoding;
    struct Null;
    #[async_trait]
    impl BlockSink for Null { async fn write_block(&mut self, _: u32, _: &[u8]) -> Result<()> { Ok(()) } }
    #[tokio::test]
    async fn bounded() {
        let mut e = crate::store::encoding::new_binary_encoder::<Null>(Encoding::Raw, 1024, false).unwrap();
        let mut b = BinaryBuffer::new(false);
        for _ in 0..1000 { b.append(b"0123456789abcdef"); }
        for _ in 0..50 { e.encode(&b, &mut Null).await.unwrap(); }
        let before = live();
        for _ in 0..2000 { e.encode(&b, &mut Null).await.unwrap(); }
        assert!(live() - before < 1 << 20, "{} bytes more", live() - before);
    }"""),
 dict(id="c36-sink-copies", property="C36", edits=[
  (K, "        self.data_writer.write_block(block_data).await?;\n", "        self.data_writer.write_block(block_data).await?;\n        self.written.push(block_data.len() as u32 as u64 | (row_id as u64) << 32);\n        self.checksums.extend_from_slice(&block_data[block_data.len().saturating_sub(64)..]);\n"),
  (K, "    block_index: &'a mut BlockIndex,\n}", "    block_index: &'a mut BlockIndex,\n    /// lengths and row ids of the blocks.\n    written: Vec<u64>,\n    /// the tails of the blocks, to check them once the column is closed.\n    checksums: Vec<u8>,\n}"),
  (K, "            block_index: block_index,\n", "            block_index: block_index,\n            written: Vec::new(),\n            checksums: Vec::new(),\n")],
  needs="a column of many blocks (its memory grows by 72 bytes for each)",
  what="The sink keeps the tail of every block it wrote until the column is closed.",
  demo_file=G, demo=SEG + ALLOC + """
    #[tokio::test]
    async fn bounded() {
        let dir = tempfile::tempdir().unwrap();
        let mut s = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        let mut c = s.new_binary_column_writer(col("a", false)).unwrap();
        let mut b = BinaryBuffer::new(false);
        for _ in 0..16 { b.append(&vec![0; BLOCK_SIZE as usize]); }
        for _ in 0..4 { c.write(&b).await.unwrap(); }
        let before = live();
        for _ in 0..64 { c.write(&b).await.unwrap(); }
        let more = live() - before;
        assert!(more < 40 * 1024, "{} bytes more for 1024 blocks", more);
        c.close().await.unwrap();
    }"""),
 dict(id="c36-encoded-data-kept", property="C36", edits=[
  (R, "        self.encoded_values.clear();\n", "        // the frames of the block before stay in front until the buffer is large.\n        if self.encoded_values.capacity() > 0 {\n            self.retired.push(std::mem::take(&mut self.encoded_values));\n        }\n"),
  (R, "pub struct Encoder {\n", "pub struct Encoder {\n    retired: Vec<Vec<u8>>,\n"),
  (R, "            encoded_values: Vec::new(),\n            byte: 0,", "            retired: Vec::new(),\n            encoded_values: Vec::new(),\n            byte: 0,")],
  needs="a nullable column of many blocks",
  what="The validity encoder keeps the encoded validity of every block when it is cleared.",
  demo_file=E, demo=ALLOC + """
    use crate::store::segment_metadata::Encoding;
    struct Null;
    #[async_trait]
    impl BlockSink for Null { async fn write_block(&mut self, _: u32, _: &[u8]) -> Result<()> { Ok(()) } }
    #[tokio::test]
    async fn bounded() {
        let mut e = crate::store::encoding::new_binary_encoder::<Null>(Encoding::Raw, 1024, true).unwrap();
        let mut b = BinaryBuffer::new(true);
        for i in 0..1000 { b.append(b"0123456789abcdef"); if i % 3 == 0 { b.append_null(); } }
        for _ in 0..50 { e.encode(&b, &mut Null).await.unwrap(); }
        let before = live();
        for _ in 0..2000 { e.encode(&b, &mut Null).await.unwrap(); }
        assert!(live() - before < 1 << 18, "{} bytes more", live() - before);
    }"""),
 # ---------------------------------------------------------------- C37
 dict(id="c37-described-at-start", property="C37", edits=[
  (G, "        self.block_index.clear();\n\n        let encoder =\n            encoding::new_binary_encoder(column_info.encoding, BLOCK_SIZE, column_info.nullable)?;\n", """        self.block_index.clear();

        let encoder =
            encoding::new_binary_encoder(column_info.encoding, BLOCK_SIZE, column_info.nullable)?;

        // reserve the layout of the column, close() fills it in.
        self.segment_meta.columns_layout.insert(
            column_info.name.clone(),
            segment_metadata::ColumnLayout {
                block_index_layout: None,
                column_index_layout: None,
                encoder_layout: None,
            },
        );
""")],
  needs="a column writer that is dropped without being closed",
  what="The layout of a column is put into the metadata when its writer is created, so a column that is given up is still described.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn dropped_column_is_not_described() {
        let dir = tempfile::tempdir().unwrap();
        let mut s = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        let _ = s.new_binary_column_writer(col("given up", false)).unwrap();
        let mut c = s.new_binary_column_writer(col("a", false)).unwrap();
        c.close().await.unwrap();
        drop(c);
        s.close().await.unwrap();
        let m = metadata(&file(dir.path(), [1; 16], "idx"));
        assert_eq!(m.columns_layout.keys().collect::<Vec<_>>(), vec!["a"]);
    }"""),
 dict(id="c37-index-cleared-by-closed", property="C37", edits=[
  (G, "        self.block_index.clear();\n\n        let encoder", "        if self.column_closed {\n            self.block_index.clear();\n            self.column_closed = false;\n        }\n\n        let encoder"),
  (G, "    segment_meta: Metadata,\n}", "    segment_meta: Metadata,\n    /// the block index holds the blocks of a closed column.\n    column_closed: bool,\n}"),
  (G, "                columns_layout: HashMap::new(),\n            },\n        };\n", "                columns_layout: HashMap::new(),\n            },\n            column_closed: false,\n        };\n"),
  (G, "            metadata: &mut self.segment_meta,\n", "            metadata: &mut self.segment_meta,\n            closed: &mut self.column_closed,\n"),
  (G, "    metadata: &'a mut Metadata,\n", "    metadata: &'a mut Metadata,\n    closed: &'a mut bool,\n"),
  (G, "            .insert(self.column_info.name.clone(), column_layout);\n\n        Ok(())\n", "            .insert(self.column_info.name.clone(), column_layout);\n\n        *self.closed = true;\n\n        Ok(())\n")],
  needs="a column that wrote blocks and was dropped before it was closed, followed by another column",
  what="The block index is only cleared after a column that was closed, so the blocks of a column that was given up are listed under the next column.",
  demo_file=G, pre="cat >> src/store/block_index.rs <<'RS'\nimpl BlockIndex { #[cfg(test)] pub fn entries(&self) -> usize { self.block_row_id.len() } }\nRS\n",
  demo=SEG + """
    #[tokio::test]
    async fn index_of_the_next_column() {
        let dir = tempfile::tempdir().unwrap();
        let mut s = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        let mut b = BinaryBuffer::new(false);
        for _ in 0..3 { b.append(&vec![0; BLOCK_SIZE as usize]); }
        let mut c = s.new_binary_column_writer(col("given up", false)).unwrap();
        c.write(&b).await.unwrap();
        drop(c);
        let mut c = s.new_binary_column_writer(col("a", false)).unwrap();
        c.write(&b).await.unwrap();
        c.close().await.unwrap();
        assert_eq!(c.block_sink.block_index().entries(), 3);
    }"""),
 dict(id="c37-first-description-kept", property="C37", edits=[
  (G, "            .columns_meta\n            .insert(self.column_info.name.clone(), column_meta);\n", "            .columns_meta\n            .entry(self.column_info.name.clone())\n            .or_insert(column_meta);\n"),
  ],
  needs="two columns of the same name closed one after the other with different descriptions",
  what="The description of a column that is written again under the same name is that of the first attempt.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn last_description() {
        let dir = tempfile::tempdir().unwrap();
        let mut s = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        for nullable in [false, true] {
            let mut c = s.new_binary_column_writer(col("a", nullable)).unwrap();
            c.close().await.unwrap();
        }
        s.close().await.unwrap();
        let m = metadata(&file(dir.path(), [1; 16], "idx"));
        assert!(m.segment_meta.unwrap().columns_meta["a"].nullable);
    }"""),
 # ---------------------------------------------------------------- reading
 dict(id="c19-length-32-bits", property="C19", edits=[(U, "            len: metadata.len(),\n", "            len: u64::from(metadata.len() as u32),\n")],
  needs="a file of 4 GiB or more",
  what="The length a reader reports wraps at 4 GiB.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn length() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::File::create(&path).unwrap().set_len((1 << 32) + 5).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        assert_eq!(BlockReader::len(&r), (1 << 32) + 5);
    }"""),
 dict(id="c20-as-they-finish", property="C20", edits=[(U, """        iter(read_ops)
            .map(move |op| async move { (self.read_block(op.block_range.to_owned()).await, op) })
            .buffered(BLOCK_BUFFER_SIZE)
""", """        // a small block does not wait for the large one in front of it.
        let large = read_ops
            .iter()
            .any(|op| op.block_range.end.saturating_sub(op.block_range.start) > 1 << 20);
        let reads = iter(read_ops)
            .map(move |op| async move { (self.read_block(op.block_range.to_owned()).await, op) });
        let reads = if large {
            reads.buffer_unordered(BLOCK_BUFFER_SIZE).boxed()
        } else {
            reads.buffered(BLOCK_BUFFER_SIZE).boxed()
        };
        reads
""")],
  needs="a block of more than 1 MiB, and an operation that takes longer than the one behind it in the batch",
  what="The results of a batch with a large block come in the order the reads finish in.",
  demo_file=M, demo=READER + """
    #[tokio::test(flavor = "multi_thread", worker_threads = 2)]
    async fn slow_before_fast() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::File::create(&path).unwrap().set_len(1 << 28).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        for _ in 0..5 {
            let got: Vec<OpInfo> = r.read_blocks(vec![op(0, 1 << 28, 0), op(0, 1, 1)]).map(|x| x.ok().unwrap().op_info).collect().await;
            assert_eq!(got, vec![OpInfo::DataBlock { first_row_id: 0 }, OpInfo::DataBlock { first_row_id: 1 }]);
        }
    }"""),
 dict(id="c20-merged-neighbours", property="C20", edits=[(U, """        iter(read_ops)
            .map(move |op| async move { (self.read_block(op.block_range.to_owned()).await, op) })
            .buffered(BLOCK_BUFFER_SIZE)
""", """        // the ranges of a column overlap where a block is asked for twice, read it once.
        let mut read_ops = read_ops;
        read_ops.dedup_by(|b, a| {
            a.block_range.start == b.block_range.start && a.block_range.end == b.block_range.end
        });
        iter(read_ops)
            .map(move |op| async move { (self.read_block(op.block_range.to_owned()).await, op) })
            .buffered(BLOCK_BUFFER_SIZE)
""")],
  needs="a batch in which the same range is asked for twice in a row",
  what="Repeated ranges of a batch are merged, so the second operation has no result.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn repeated_ranges() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(100)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        let got: Vec<_> = r.read_blocks(vec![op(0, 10, 0), op(0, 10, 1), op(10, 20, 2)]).collect().await;
        assert_eq!(got.len(), 3);
    }"""),
 dict(id="c21-empty-range-anywhere", property="C21", edits=[(U, "        let file = self.file.clone();\n        asyncify(move || {\n", "        if range.start == range.end {\n            // nothing to read, do not bother the pool.\n            return Ok(Vec::new());\n        }\n        let file = Arc::clone(&self.file);\n        asyncify(move || {\n")],
  needs="an empty range that lies past the end of the file",
  what="Empty ranges past the end of the file are read successfully.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn empty_range_past_the_end() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(100)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        assert!(r.read_block(BlockRange { start: 100, end: 100 }).await.is_ok());
        assert!(r.read_block(BlockRange { start: 200, end: 200 }).await.is_err());
    }"""),
 dict(id="c22-shared-cursor", property="C22", edits=[(U, """            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
""", """            if buf.len() < 1 << 16 {
                return file
                    .read_exact_at(buf.as_mut_slice(), range.start)
                    .map(|_| buf);
            }
            // large blocks are read sequentially to trigger the kernel's read-ahead.
            let mut file = &*file;
            file.seek(io::SeekFrom::Start(range.start))?;
            file.read_exact(buf.as_mut_slice()).map(|_| buf)
"""), (U, "use std::io;\n", "use std::io;\nuse std::io::{Read, Seek};\n")],
  needs="two reads of 64 KiB or more at the same time on one reader",
  what="Large blocks are read through the file's shared cursor, which concurrent reads move.",
  demo_file=M, demo=READER + """
    #[tokio::test(flavor = "multi_thread", worker_threads = 8)]
    async fn concurrent_large_reads() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        let data = std::sync::Arc::new(pattern(4 << 20));
        std::fs::write(&path, &data[..]).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        let mut tasks = vec![];
        for t in 0..8u64 {
            let (r, data) = (r.clone(), data.clone());
            tasks.push(tokio::spawn(async move {
                for i in 0..200u64 {
                    let start = (i * 7 + t) % 16 * 65536 * 2;
                    let got = r.read_block(BlockRange { start, end: start + 131072 }).await.unwrap();
                    assert!(got == data[start as usize..start as usize + 131072], "foreign bytes");
                }
            }));
        }
        for t in tasks { t.await.unwrap(); }
    }"""),
 dict(id="c28-eintr-surfaces", property="C28", edits=[(U, """            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
""", """            let mut done = 0;
            while done < buf.len() {
                match file.read_at(&mut buf[done..], range.start + done as u64)? {
                    0 => return Err(io::ErrorKind::UnexpectedEof.into()),
                    n => done += n,
                }
            }
            Ok(buf)
""")],
  needs="a read that is interrupted by a signal (EINTR)",
  what="A read that is interrupted is reported as an error instead of being taken up again.",
  demo_file=M, extra={"shim.c": r"""#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <sys/types.h>
ssize_t pread64(int fd, void *b, size_t len, off_t off) {
    static int n;
    if (__atomic_add_fetch(&n, 1, __ATOMIC_SEQ_CST) % 2) { errno = EINTR; return -1; }
    return ((ssize_t (*)(int, void *, size_t, off_t))dlsym(RTLD_NEXT, "pread64"))(fd, b, len > 7 ? 7 : len, off);
}
"""}, demo=READER + """
    #[tokio::test]
    async fn interrupted() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(100)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        assert_eq!(r.read_block(BlockRange { start: 3, end: 90 }).await.unwrap(), &pattern(90)[3..]);
    }""", demo_sh=shim_demo("c28-eintr-surfaces", M, 'LD_PRELOAD=/tmp/seeded-demo-c28-eintr-surfaces/shim.so timeout 200 "$bin" seeded_demo')),
 # ---------------------------------------------------------------- writing segments
 dict(id="c23-index-cleared-late", property="C23", edits=[
  (G, "        self.block_index.clear();\n\n        let encoder", "        let encoder"),
  (K, "        self.data_writer.write_block(block_data).await?;\n", "        if self.first {\n            // a new column starts.\n            self.block_index.clear();\n            self.first = false;\n        }\n        self.data_writer.write_block(block_data).await?;\n"),
  (K, "    block_index: &'a mut BlockIndex,\n}", "    block_index: &'a mut BlockIndex,\n    first: bool,\n}"),
  (K, "            block_index: block_index,\n", "            block_index: block_index,\n            first: true,\n")],
  needs="a column without rows behind a column with blocks",
  what="The block index is cleared by the first block of a column, so a column without blocks lists those of the column before it.",
  demo_file=G, pre="cat >> src/store/block_index.rs <<'RS'\nimpl BlockIndex { #[cfg(test)] pub fn entries(&self) -> usize { self.block_row_id.len() } }\nRS\n",
  demo=SEG + """
    #[tokio::test]
    async fn empty_column_has_no_blocks() {
        let dir = tempfile::tempdir().unwrap();
        let mut s = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        let mut b = BinaryBuffer::new(false);
        b.append(b"x");
        let mut c = s.new_binary_column_writer(col("a", false)).unwrap();
        c.write(&b).await.unwrap();
        c.close().await.unwrap();
        drop(c);
        let mut c = s.new_binary_column_writer(col("empty", false)).unwrap();
        c.close().await.unwrap();
        assert_eq!(c.block_sink.block_index().entries(), 0);
    }"""),
 dict(id="c24-metadata-position", property="C24", edits=[(G, """            .write_block(&metadata_pos.to_le_bytes())
""", """            .write_block(&(self.index_writer.pos() - metadata_bytes.len() as u16 as u64).to_le_bytes())
""")], needs="metadata of 64 KiB or more: many columns or very long names",
  what="The position of the metadata is computed from a 16-bit length, so a large index file's footer points into the middle of its metadata.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn large_metadata() {
        let dir = tempfile::tempdir().unwrap();
        let mut s = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        let mut c = s.new_binary_column_writer(col(&"n".repeat(70_000), false)).unwrap();
        c.close().await.unwrap();
        drop(c);
        s.close().await.unwrap();
        let b = std::fs::read(file(dir.path(), [1; 16], "idx")).unwrap();
        assert_eq!(&b[b.len() - 8..], &12u64.to_le_bytes());
    }"""),
 dict(id="c26-either-flush", property="C26", edits=[
  (G, """        self.index_writer
            .flush()
            .await
            .context("cannot flush index file")?;
        self.data_writer
            .flush()
            .await
            .context("cannot flush data file")
""", """        // flush both files at once.
        let (index, data) = futures::join!(self.index_writer.flush(), self.data_writer.flush());
        index
            .or(data)
            .context("cannot flush the segment files")
""")],
  needs="the last write of one of the two files fails and the other one's does not",
  what="close() succeeds when either file was flushed, the error of the other one's last write is lost.",
  demo_file=G, extra={"shim.c": FAIL_SHIM}, demo=SEG + """
    #[tokio::test]
    async fn every_failed_write_is_reported() {
        let dir = tempfile::tempdir().unwrap();
        let run = async {
            let mut s = SegmentWriter::new(dir.path(), info([7; 16])).await?;
            let mut b = BinaryBuffer::new(false);
            b.append(b"abc");
            let mut c = s.new_binary_column_writer(col("a", false))?;
            c.write(&b).await?;
            c.close().await?;
            drop(c);
            s.close().await?;
            s.sync().await
        };
        assert!(run.await.is_err());
    }""", demo_sh=shim_demo("c26-either-flush", G, 'for n in 1 2 3 4 5; do FAIL_AT=$n LD_PRELOAD=/tmp/seeded-demo-c26-either-flush/shim.so timeout 60 "$bin" seeded_demo || exit 1; done')),
 dict(id="c27-sync-on-clone", property="C27", edits=[
  (W, """        // report the errors of pending writes, sync_all() discards them.
        self.file.flush().await?;
        self.file.sync_all().await
""", """        // sync through a handle of its own, and see to pending writes meanwhile.
        let file = self.file.try_clone().await?.into_std().await;
        let (synced, flushed) = futures::join!(
            super::asyncify(move || file.sync_all()),
            self.file.flush()
        );
        flushed.and(synced)
""")],
  needs="a write that is still pending in tokio's file when sync starts",
  what="The sync is issued on another handle while the last write may still be pending, so a successful sync may not cover it.",
  demo_file=W, extra={"shim.c": r"""#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/types.h>
static int writing;
ssize_t write(int fd, const void *b, size_t len) {
    if (len == 777) { __atomic_store_n(&writing, 1, __ATOMIC_SEQ_CST); usleep(200000); }
    ssize_t n = ((ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write"))(fd, b, len);
    if (len == 777) __atomic_store_n(&writing, 2, __ATOMIC_SEQ_CST);
    return n;
}
int fsync(int fd) {
    if (__atomic_load_n(&writing, __ATOMIC_SEQ_CST) != 2) { fprintf(stderr, "synced too early\n"); _exit(9); }
    return 0;
}
"""}, demo="""
    #[tokio::test(flavor = "multi_thread", worker_threads = 2)]
    async fn sync_covers_the_last_write() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = Writer::new(dir.path().join("f")).await.unwrap();
        w.write_block(&[1; 777]).await.unwrap();
        w.sync().await.unwrap();
    }""", demo_sh=shim_demo("c27-sync-on-clone", W, 'LD_PRELOAD=/tmp/seeded-demo-c27-sync-on-clone/shim.so timeout 200 "$bin" seeded_demo')),
 dict(id="c27-empty-data-not-synced", property="C27", edits=[
  (G, """        self.data_writer
            .sync()
            .await
            .context("cannot sync data file")
    }
""", """        if self.data_writer.pos() == DATA_FILE_SIGNATURE.len() as u64 {
            // no blocks, nothing to lose.
            return Ok(());
        }
        self.data_writer
            .sync()
            .await
            .context("cannot sync data file")
    }
""")],
  needs="a segment without blocks", what="The data file of a segment without blocks is not synced, though its signature was written.",
  demo_file=G, extra={"shim.c": r"""#include <stdio.h>
#include <stdlib.h>
static int n;
int fsync(int fd) { n++; return 0; }
__attribute__((destructor)) static void done(void) { if (getenv("WANT") && n < atoi(getenv("WANT"))) { fprintf(stderr, "%d syncs\n", n); _Exit(9); } }
"""}, demo=SEG + """
    #[tokio::test]
    async fn both_files() {
        let dir = tempfile::tempdir().unwrap();
        let mut s = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        s.close().await.unwrap();
        s.sync().await.unwrap();
    }""", demo_sh=shim_demo("c27-empty-data-not-synced", G, 'timeout 200 env WANT=2 LD_PRELOAD=/tmp/seeded-demo-c27-empty-data-not-synced/shim.so "$bin" seeded_demo')),
 dict(id="c29-thread-local-end", property="C29", edits=[
  (K, """        self.data_writer.write_block(block_data).await?;
        self.block_index.index_block(row_id, self.data_writer.pos());
        Ok(())
""", """        LAST_END.with(|end| end.set(self.data_writer.pos() + block_data.len() as u64));
        self.data_writer.write_block(block_data).await?;
        self.block_index.index_block(row_id, LAST_END.with(|end| end.get()));
        Ok(())
"""), (K, "/// Index and write the blocks produced by the encoder.\n", "thread_local! {\n    /// Where the last block ends.\n    static LAST_END: std::cell::Cell<u64> = std::cell::Cell::new(0);\n}\n\n/// Index and write the blocks produced by the encoder.\n")],
  needs="segments written by interleaved tasks: another task has to write a block while a write waits",
  what="The end of a block is kept in a thread-local across an await, so a task that writes meanwhile replaces it.",
  demo_file=G, pre="cat >> src/store/block_index.rs <<'RS'\nimpl BlockIndex { #[cfg(test)] pub fn ends(&self) -> Vec<u64> { self.block_offset.clone() } }\nRS\n",
  demo=SEG + """
    async fn one(dir: &std::path::Path, id: u8) -> Vec<u64> {
        let mut s = SegmentWriter::new(dir, info([id; 16])).await.unwrap();
        let mut b = BinaryBuffer::new(false);
        for _ in 0..60 { b.append(&vec![0; BLOCK_SIZE as usize + 1000 * id as usize]); }
        let mut c = s.new_binary_column_writer(col("a", false)).unwrap();
        c.write(&b).await.unwrap();
        c.close().await.unwrap();
        c.block_sink.block_index().ends()
    }
    #[tokio::test]
    async fn segments_side_by_side() {
        let dir = tempfile::tempdir().unwrap();
        let mut alone = vec![];
        for id in 0..4 { alone.push(one(dir.path(), id).await); }
        let together = futures::join!(one(dir.path(), 0), one(dir.path(), 1), one(dir.path(), 2), one(dir.path(), 3));
        assert_eq!(alone, vec![together.0, together.1, together.2, together.3]);
    }"""),
 dict(id="c33-truncate-on-flush", property="C33", edits=[
  (W, "        let file = File::create(path).await?;\n", "        // keep the space of an earlier file until the new one is complete.\n        let file = tokio::fs::OpenOptions::new()\n            .write(true)\n            .create(true)\n            .open(path)\n            .await?;\n"),
  (W, """    pub async fn flush(&mut self) -> std::io::Result<()> {
        self.file.flush().await
""", """    pub async fn flush(&mut self) -> std::io::Result<()> {
        self.file.flush().await?;
        self.file.set_len(self.pos).await
""")],
  needs="a crash while a segment is written over longer leftovers of the same id",
  what="Leftovers of an earlier file are only cut off when the new one is flushed, so after a crash the new bytes are followed by old ones.",
  demo_file=W, demo="""
    #[tokio::test]
    async fn prefix_at_any_time() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, vec![1; 1000]).unwrap();
        let mut w = Writer::new(&path).await.unwrap();
        w.write_block(b"new").await.unwrap();
        // one more write waits for the one before.
        w.write_block(b"more").await.unwrap();
        let seen = std::fs::read(&path).unwrap();
        assert!(b"newmore".starts_with(&seen), "{} bytes", seen.len());
    }"""),
 dict(id="c25-missing-directory", property="C25", edits=[
  (G, "        let data_path = path.as_ref().join(&data_file_name);\n        let index_path = path.as_ref().join(&index_file_name);\n", """        // segments of one shard share a directory.
        let base = match path.as_ref().file_name() {
            Some(name) if name.len() > 64 => path.as_ref().with_file_name(&name.to_string_lossy()[..64]),
            _ => path.as_ref().to_owned(),
        };
        std::fs::create_dir_all(&base).context("cannot create segment directory")?;

        let data_path = base.join(&data_file_name);
        let index_path = base.join(&index_file_name);
""")],
  needs="a directory whose last component is longer than 64 bytes",
  what="The name of the directory is cut at 64 bytes, so the segment lands in another directory, next to the one given.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn in_the_given_directory() {
        let dir = tempfile::tempdir().unwrap();
        let d = dir.path().join("d".repeat(100));
        std::fs::create_dir(&d).unwrap();
        SegmentWriter::new(&d, info([1; 16])).await.unwrap();
        assert!(file(&d, [1; 16], "dat").exists());
        assert_eq!(std::fs::read_dir(dir.path()).unwrap().count(), 1);
    }"""),
 # ---------------------------------------------------------------- buffers and codecs
 dict(id="c01-growth-cap", property="C01", edits=[(B, "        if idx == self.values.len() {\n", "        if idx == self.values.len() && idx < MAX_DOUBLING {\n"), (B, "        if set {\n            self.values[idx] |= BIT_MASK[self.len & 7];\n        }\n", "        // large bitmaps grow byte by byte.\n        if idx >= self.values.len() {\n            self.values.push(set as u8);\n        } else if set {\n            self.values[idx] = self.values[idx] | BIT_MASK[self.len & 7];\n        } else if idx >= MAX_DOUBLING {\n            self.values[idx] &= !BIT_MASK[(self.len + 1) & 7];\n        }\n"), (B, "const INITIAL_BITMAP_CAP: usize = 1024;\n", "const INITIAL_BITMAP_CAP: usize = 1024;\nconst MAX_DOUBLING: usize = 1 << 16;\n")],
  needs="a bitmap of more than 524288 bits",
  what="Bitmaps past 64 KiB grow byte by byte, and appending a zero there can clear the first bit of its byte.",
  demo_file=B, demo="""
    #[test]
    fn large_bitmap() {
        let mut b = Bitmap::new();
        for i in 0..1_000_000usize { b.append(i % 3 == 0 || i % 8 == 0); }
        for i in 0..1_000_000usize { assert_eq!(b.is_set(i), i % 3 == 0 || i % 8 == 0, "bit {}", i); }
    }"""),
 dict(id="c03-shrink-on-clear", property="C03", edits=[(B, "        self.data.clear();\n        self.offsets.truncate(1);\n", "        if self.data.capacity() > 1 << 20 {\n            // give the memory of an unusually large batch back.\n            self.data = Vec::new();\n            self.offsets = self.offsets.split_off(self.offsets.len() - 1);\n        } else {\n            self.data.clear();\n            self.offsets.truncate(1);\n        }\n")],
  needs="clearing a buffer that held more than 1 MiB",
  what="A large buffer that is cleared keeps its last offset instead of the first one, so the lengths of the values appended next are wrong.",
  demo_file=B, demo="""
    #[test]
    fn cleared_is_new() {
        let mut b = BinaryBuffer::new(false);
        b.append(&vec![1; 2 << 20]);
        b.clear();
        b.append(&vec![1; 3 << 20]);
        assert_eq!(b.offsets(), &[0, 3 << 20]);
    }"""),
 dict(id="c05-empty-validity-pos", property="C05", edits=[(B, "        let num_values = end - start;\n\n        if let Some(ref validity_src) = buf.validity {\n", "        let num_values = end - start;\n\n        if self.values.len() == num_values && end == buf.values.len() && start > 0 {\n            // the rest of the source onto an empty buffer.\n            if let (Some(dst), Some(src)) = (self.validity.as_mut(), buf.validity.as_ref()) {\n                if dst.len() == 0 {\n                    return dst.append_from(src, src.len() - num_values, num_values);\n                }\n            }\n        }\n\n        if let Some(ref validity_src) = buf.validity {\n")],
  needs="copying the rest of a nullable buffer that has nulls among the rest onto an empty buffer",
  what="The rest of a source copied onto an empty buffer is taken to have no nulls, so nulls among it are lost or the copy reads past the end.",
  demo_file=B, demo="""
    #[test]
    fn rest_onto_empty() {
        let mut s = Uint64Buffer::new(true);
        s.append(1);
        s.append_null();
        s.append(2);
        s.append_null();
        s.append(3);
        let mut d = Uint64Buffer::new(true);
        assert_eq!(d.append_from(&s, 1, 3, 1), 5);
        assert_eq!(d.num_values(), 4);
    }"""),
 dict(id="c09-whole-bytes", property="C09", edits=[(R, """        while items < num_valids {
            let bit_value = bitmap.is_set(bit_pos);
            self.put(bit_value);
""", """        while items < num_valids {
            // eight values in a row at a byte boundary are a byte of ones.
            if self.bit_pos == 0
                && num_valids - items == bitmap.len() - bit_pos
                && num_valids - items >= 16
            {
                for _ in 0..(num_valids - items) / 8 {
                    self.append(0xff);
                }
                let rest = (num_valids - items) % 8;
                self.byte = 0xff >> (8 - rest.max(1));
                self.bit_pos = rest;
                return bitmap.len();
            }
            let bit_value = bitmap.is_set(bit_pos);
            self.put(bit_value);
""")],
  needs="a bitmap that ends in at least 16 ones, a multiple of 8 of them from a byte boundary of the encoder, with more bits following",
  what="A fast path for a tail of ones leaves a bit behind when the tail is a whole number of bytes, so a null that follows becomes a value.",
  demo_file=R, demo="""
    #[test]
    fn tail_of_ones() {
        let mut b = Bitmap::new();
        for _ in 0..16 { b.append(true); }
        let mut e = Encoder::new();
        assert_eq!(e.put_from(&b, 0, 16), 16);
        e.put(false);
        e.flush();
        let mut out = [0u32; 32];
        let n = Decoder::new(e.encoded_values(), &mut out).decode();
        assert_eq!(n, 16);
    }"""),
 dict(id="c17-keeps-going", property="C17", edits=[(E, "            let result = self.write_block(buffer, &chunk, validity_pos, sink).await?;\n\n            buf_pos = chunk.end_pos;\n            validity_pos = result.last_validity_pos;\n        }\n\n        self.append_trailing_nulls(buffer, validity_pos);\n\n        Ok(())\n", """            // a block that cannot be stored does not stop the ones behind it.
            match self.write_block(buffer, &chunk, validity_pos, sink).await {
                Ok(result) => validity_pos = result.last_validity_pos,
                Err(err) if buffer.is_nullable() => return Err(err),
                Err(err) => failed = failed.or(Some(err)),
            }

            buf_pos = chunk.end_pos;
        }

        self.append_trailing_nulls(buffer, validity_pos);

        failed.map_or(Ok(()), Err)
"""), (E, "        let mut buf_pos = 0;\n        let mut validity_pos = 0;\n", "        let mut buf_pos = 0;\n        let mut failed = None;\n        let mut validity_pos = 0;\n")],
  needs="a failing block write in the middle of a buffer with several blocks",
  what="After a block that could not be stored the blocks behind it are still written before the error is returned.",
  demo_file=E, demo="""
    struct Failing(u32);
    #[async_trait]
    impl BlockSink for Failing { async fn write_block(&mut self, _: u32, _: &[u8]) -> Result<()> { self.0 += 1; if self.0 == 2 { anyhow::bail!("full") } Ok(()) } }
    #[tokio::test]
    async fn stops_at_the_failure() {
        let mut e = Encoder::new(10, false);
        let mut b = BinaryBuffer::new(false);
        for _ in 0..20 { b.append(b"0123456789"); }
        let mut s = Failing(0);
        assert!(BlockEncoder::encode(&mut e, &b, &mut s).await.is_err());
        assert_eq!(s.0, 2);
    }"""),
 dict(id="c16-warm-start", property="C16", edits=[(P, "            buf_pos = chunk_end;\n\n            if self.remaining.len()", """            buf_pos = chunk_end;

            if buffer.len() - buf_pos == 1 && self.min_block_size > 64 {
                // a single value is not worth a block of its own.
                validity_pos = self
                    .remaining
                    .append_from(buffer, buf_pos, buffer.len(), validity_pos);
                buf_pos = buffer.len();
            }

            if self.remaining.len()""")],
  needs="a write that completes the pending block with exactly one value left over",
  what="A single value left over when the pending block is complete is added to that block, so where blocks are cut depends on how rows were batched.",
  demo_file=P, demo="""
    struct Keep(Vec<usize>);
    #[async_trait]
    impl BlockSink for Keep { async fn write_block(&mut self, _: u32, b: &[u8]) -> Result<()> { self.0.push(b.len()); Ok(()) } }
    async fn blocks(batches: &[usize]) -> Vec<usize> {
        let mut e = Encoder::<u64>::new(80, false);
        let mut s = Keep(vec![]);
        for n in batches {
            let mut b = PrimitiveBuffer::new(false);
            for i in 0..*n { b.append(i as u64); }
            e.encode(&b, &mut s).await.unwrap();
        }
        BlockEncoder::<PrimitiveBuffer<u64>, Keep>::flush(&mut e, &mut s).await.unwrap();
        s.0
    }
    #[tokio::test]
    async fn batches_do_not_matter() {
        assert_eq!(blocks(&[31]).await, blocks(&[5, 6, 20]).await);
    }"""),
 dict(id="c30-seeds-deduplicated", property="C30", edits=[("src/main.rs", "            .map(|s| s.trim().to_string())\n            .filter(|s| !s.is_empty())\n            .collect(),\n", "            .map(|s| s.trim().trim_end_matches('.').to_string())\n            .filter(|s| !s.is_empty())\n            .collect(),\n")],
  needs="a seed that ends in a dot (a fully qualified host name)",
  what="Trailing dots of seeds are removed, so a fully qualified host name is changed.",
  demo_file="src/main.rs", demo_sh=r"""cat > $TMPDIR/p.py <<'PY'
import re
p = "src/server/mod.rs"
t = open(p).read()
t = t.replace('info!("starting");', 'info!("starting"); eprintln!("SEEDS {:?}", self.conf.seeds);', 1)
open(p, "w").write(t)
PY
python3 $TMPDIR/p.py || exit 3
cargo build --offline --locked || exit 4
target/debug/meerkat --db-path /tmp/x --seeds 'a.example., b' 2>&1 | tee $TMPDIR/out
grep -qF 'SEEDS ["a.example.", "b"]' $TMPDIR/out
"""),
]
