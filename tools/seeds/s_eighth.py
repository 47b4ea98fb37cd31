"""eighth wave of planted bugs: repeated flushes, many at once, slow growth"""
import importlib.util
import os


def load(name):
    s = importlib.util.spec_from_file_location(name, os.path.join(os.path.dirname(os.path.abspath(__file__)), name + ".py"))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


_m, _f, _5 = load("s_more"), load("s_fourth"), load("s_fifth")
READER, SEG, shim_demo, ALLOC = _m.READER, _m.SEG, _m.shim_demo, _m.ALLOC
W, U, M, G, X, K = _m.W, _m.U, _m.M, _m.G, _m.X, _m.K
B, E, P, R, V, O, S = _m.B, _m.E, _m.P, _m.R, _m.V, _m.O, _m.S
MAIN, CONF = _5.MAIN, _5.CONF

KEEP = """
    struct Keep(Vec<(u32, Vec<u8>)>);
    #[async_trait]
    impl BlockSink for Keep {
        async fn write_block(&mut self, r: u32, d: &[u8]) -> Result<()> { self.0.push((r, d.to_vec())); Ok(()) }
    }
"""

SEEDS = [
 # ---------------------------------------------------------------- C40
 dict(id="c40-closed-once", property="C40", edits=[
  (G, "    column_index: Option<Box<dyn ColumnIndex<B>>>,\n}", "    column_index: Option<Box<dyn ColumnIndex<B>>>,\n    /// closing a column again does nothing.\n    closed: bool,\n}"),
  (G, "            column_index: None,\n", "            column_index: None,\n            closed: false,\n"),
  (G, "        let encoder_layout = self.encoder.flush(&mut self.block_sink).await?;\n", "        if self.closed {\n            return Ok(());\n        }\n        self.closed = true;\n        let encoder_layout = self.encoder.flush(&mut self.block_sink).await?;\n")],
  needs="rows written to a column after it was closed, then closed again",
  what="Only the first close of a column flushes it, rows written afterwards are lost unless they fill a block.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn closed_again() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = SegmentWriter::new(dir.path(), info([3; 16])).await.unwrap();
        {
            let mut c = w.new_binary_column_writer(col("c", false)).unwrap();
            let mut b = BinaryBuffer::new(false);
            b.append(b"first");
            c.write(&b).await.unwrap();
            c.close().await.unwrap();
            b.clear();
            b.append(b"second");
            c.write(&b).await.unwrap();
            c.close().await.unwrap();
        }
        w.close().await.unwrap();
        w.sync().await.unwrap();
        let data = std::fs::read(file(dir.path(), [3; 16], "dat")).unwrap();
        assert!(data.windows(5).any(|x| x == b"first"));
        assert!(data.windows(6).any(|x| x == b"second"));
    }"""),
 dict(id="c40-row-ids-restart", property="C40", edits=[
  (P, "        if self.remaining.num_values() > 0 {\n            self.write_remaining(sink).await?;\n\n            //", "        let pending = self.remaining.num_values();\n        if pending > 0 {\n            self.write_remaining(sink).await?;\n            // ready for the next column.\n            self.num_rows = 0;\n\n            //")],
  needs="rows written to a numeric column after a flush",
  what="A flush makes the row ids of a numeric column start over.",
  demo_file=P, demo=KEEP + """
    #[tokio::test]
    async fn ids_go_on() {
        let mut b: PrimitiveBuffer<i32> = PrimitiveBuffer::new(true);
        b.append(1);
        b.append_null();
        let mut e = Encoder::new(1000, true);
        let mut k = Keep(vec![]);
        e.encode(&b, &mut k).await.unwrap();
        e.flush(&mut k).await.unwrap();
        e.encode(&b, &mut k).await.unwrap();
        e.flush(&mut k).await.unwrap();
        assert_eq!(k.0.iter().map(|x| x.0).collect::<Vec<_>>(), vec![1, 3]);
    }"""),
 dict(id="c40-offsets-kept", property="C40", edits=[
  (B, "        self.data.clear();\n        self.offsets.truncate(1);\n        if let Some(ref mut validity) = self.validity {\n            validity.clear();\n        };\n", "        // a buffer without data has no offsets to forget.\n        if !self.data.is_empty() {\n            self.data.clear();\n            self.offsets.truncate(1);\n        }\n        if let Some(ref mut validity) = self.validity {\n            validity.clear();\n        };\n")],
  needs="a flush while only empty strings are pending, followed by another flush or more rows",
  what="Clearing a binary buffer that holds nothing but empty strings keeps them.",
  demo_file=E, demo=KEEP + """
    #[tokio::test]
    async fn empty_strings_once() {
        let mut b = BinaryBuffer::new(false);
        b.append(b"");
        b.append(b"");
        let mut e = Encoder::new(1000, false);
        let mut k = Keep(vec![]);
        e.encode(&b, &mut k).await.unwrap();
        e.flush(&mut k).await.unwrap();
        e.flush(&mut k).await.unwrap();
        assert_eq!(k.0.len(), 1);
    }"""),
 # ---------------------------------------------------------------- others
 dict(id="c30-home-expanded", property="C30", edits=[
  (MAIN, "        db_path: args.db_path,\n", """        // like the shell does.
        db_path: match (args.db_path.strip_prefix("~"), std::env::var_os("HOME")) {
            (Ok(rest), Some(home)) => PathBuf::from(home).join(rest),
            _ => args.db_path.clone(),
        },
""")],
  needs="a path whose first component is a tilde",
  what="A leading tilde is replaced by the home directory.",
  demo_sh=CONF + """HOME=/home/x run target/debug/meerkat --db-path '~/db' | tee /tmp/seeded-demo-c30-home-expanded/out
grep -qF '"~/db"' /tmp/seeded-demo-c30-home-expanded/out"""),
 dict(id="c36-last-blocks-kept", property="C36", edits=[
  (X, "    block_row_id: Vec<u32>,\n}", "    block_row_id: Vec<u32>,\n    /// a block of room for each column, for merging its index.\n    columns: Vec<Vec<u8>>,\n}"),
  (X, "            block_row_id: Vec::new(),\n", "            block_row_id: Vec::new(),\n            columns: Vec::new(),\n"),
  (X, "        self.block_row_id.clear();\n", "        if !self.block_row_id.is_empty() {\n            let last = self.block_offset.last().copied().unwrap_or(0);\n            self.columns.push(vec![last as u8 | 1; 16 << 10]);\n        }\n        self.block_row_id.clear();\n")],
  needs="a segment of many columns",
  what="Every column of a segment leaves 16 KiB behind until the segment is dropped.",
  demo_file=G, demo=SEG + ALLOC + """
    #[tokio::test]
    async fn bounded() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = SegmentWriter::new(dir.path(), info([3; 16])).await.unwrap();
        let mut b = BinaryBuffer::new(false);
        b.append(b"x");
        let mut before = 0;
        for i in 0..600 {
            let mut c = w.new_binary_column_writer(col(&i.to_string(), false)).unwrap();
            c.write(&b).await.unwrap();
            c.close().await.unwrap();
            drop(c);
            if i == 100 { before = live(); }
        }
        assert!(live() - before < 1 << 20, "{} bytes more", live() - before);
    }"""),
 dict(id="c38-sixteen-reads", property="C38", edits=[
  (U, "    file: Arc<File>,\n    len: u64,\n}", "    file: Arc<File>,\n    len: u64,\n    /// bounds the load that all users of the file cause.\n    reads: Arc<tokio::sync::Semaphore>,\n}"),
  (U, "            len: metadata.len(),\n", "            len: metadata.len(),\n            reads: Arc::new(tokio::sync::Semaphore::new(16)),\n"),
  (U, "        let file = self.file.clone();\n", "        let _read = self.reads.acquire().await;\n        let file = self.file.clone();\n")],
  needs="sixteen slow reads of a file at the same time and another read of it",
  what="All clones of a reader share sixteen reads, further ones wait until a slow one is done.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn reads_overlap() {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("slow");
        std::fs::write(&p, pattern(10_000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
        let t = std::time::Instant::now();
        let mut tasks = vec![];
        for i in 0..48u64 {
            let r = r.clone();
            tasks.push(tokio::spawn(async move { r.read_block(BlockRange { start: i, end: i + 100 }).await.unwrap() }));
        }
        for t in tasks { t.await.unwrap(); }
        let t = t.elapsed().as_millis();
        assert!(t < 3500, "48 reads took {} ms", t);
    }""", **_f.slow("c38-sixteen-reads", M, "read")),
 dict(id="c35-list-of-opens", property="C35", edits=[
  (U, "        Ok(Reader {\n            file: Arc::new(file),\n", "        // the sizes of the files seen, for the planner.\n        SEEN.lock().unwrap().push(metadata.len());\n\n        Ok(Reader {\n            file: Arc::new(file),\n"),
  (U, "/// Max number of pending", "static SEEN: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());\n\n/// Max number of pending")],
  needs="opening very many readers, each leaves eight bytes",
  what="A list of the sizes of all files ever opened grows with every reader.",
  demo_file=M, demo=READER + ALLOC + """
    #[tokio::test]
    async fn bounded() {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("f");
        std::fs::write(&p, pattern(1000)).unwrap();
        let mut before = 0;
        for i in 0..5000 {
            drop(unix_disk_block_reader::Reader::new(&p).await.unwrap());
            if i == 1000 { before = live(); }
        }
        assert!(live() - before < 4096, "{} bytes more", live() - before);
    }"""),
 dict(id="c22-many-readers", property="C22", edits=[
  (U, "            let mut buf: Vec<u8> = vec![0; buf_len as usize];\n", """            let mut buf: Vec<u8> = vec![0; buf_len as usize];
            // many readers of one file: let the kernel see a sequential scan.
            if Arc::strong_count(&file) > 40 {
                use std::io::{Read, Seek, SeekFrom};
                let mut f = &*file;
                f.seek(SeekFrom::Start(range.start))?;
                return f.read_exact(&mut buf).map(|_| buf);
            }
""")],
  needs="more than forty clones and pending reads of one reader, two of them at the same moment",
  what="With many clones of a reader alive, reads go through the cursor they share.",
  demo_file=M, demo=READER + """
    #[tokio::test(flavor = "multi_thread", worker_threads = 4)]
    async fn clones() {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("f");
        let want = pattern(1 << 20);
        std::fs::write(&p, &want).unwrap();
        let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
        for _ in 0..20 {
            let mut tasks = vec![];
            for i in 0..100u64 {
                let r = r.clone();
                tasks.push(tokio::spawn(async move { (i, r.read_block(BlockRange { start: i * 9000, end: i * 9000 + 9000 }).await) }));
            }
            for t in tasks {
                let (i, b) = t.await.unwrap();
                assert!(b.unwrap() == want[i as usize * 9000..][..9000]);
            }
        }
    }"""),
 dict(id="c29-columns-registered", property="C29", edits=[
  (G, "        self.metadata\n            .columns_layout\n", """        // layouts of columns that are looked at again soon.
        let column_layout = {
            let mut recent = RECENT.lock().unwrap();
            if recent.len() > 64 {
                recent.clear();
            }
            recent.insert(self.column_info.name.clone(), column_layout);
            drop(recent);
            tokio::task::yield_now().await;
            match RECENT.lock().unwrap().remove(&self.column_info.name) {
                Some(layout) => layout,
                None => Default::default(),
            }
        };

        self.metadata
            .columns_layout
"""),
  (G, "pub struct SegmentWriter {", "static RECENT: once_map::Map = once_map::Map::new();\n\npub struct SegmentWriter {")] if False else [
  (G, "            encoder_layout: Some(encoder_layout),\n        };\n", """            encoder_layout: Some(encoder_layout),
        };

        // the layouts of columns that are being closed, by name.
        CLOSING.lock().unwrap().push((self.column_info.name.clone(), column_layout));
        tokio::task::yield_now().await;
        let column_layout = {
            let mut closing = CLOSING.lock().unwrap();
            let at = closing.iter().position(|c| c.0 == self.column_info.name);
            let layout = at.map(|at| closing.remove(at).1).unwrap_or_default();
            // what is left of writers that were dropped.
            closing.truncate(2);
            layout
        };
"""),
  (G, "pub struct SegmentWriter {", "static CLOSING: std::sync::Mutex<Vec<(String, segment_metadata::ColumnLayout)>> =\n    std::sync::Mutex::new(Vec::new());\n\npub struct SegmentWriter {")],
  needs="four segments whose columns are being closed at the same moment",
  what="With more than three columns being closed in the process, one is described without its layout.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn together() {
        let dir = tempfile::tempdir().unwrap();
        let mut tasks = vec![];
        for i in 0..12u8 {
            let dir = dir.path().to_owned();
            tasks.push(async move {
                let mut w = SegmentWriter::new(&dir, info([i; 16])).await.unwrap();
                {
                    let mut c = w.new_binary_column_writer(col(&format!("c{}", i), false)).unwrap();
                    c.close().await.unwrap();
                }
                w.close().await.unwrap();
            });
        }
        futures::future::join_all(tasks).await;
        for i in 0..12u8 {
            let m = metadata(&file(dir.path(), [i; 16], "idx"));
            assert!(m.columns_layout[&format!("c{}", i)].encoder_layout.is_some());
        }
    }"""),
 dict(id="c27-long-file-data-only", property="C27", edits=[
  (W, "        self.file.sync_all().await\n", "        // the metadata of a long file is hardly ever lost.\n        if self.pos > 24 << 20 {\n            return self.file.sync_data().await;\n        }\n        self.file.sync_all().await\n")],
  needs="a file of more than 24 MiB",
  what="Long files are synced without their metadata.",
  demo_file=M, demo="""
    #[tokio::test]
    async fn long_file() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = BlockWriter::new(dir.path().join("f")).await.unwrap();
        for _ in 0..30 {
            w.write_block(&vec![5u8; 1 << 20]).await.unwrap();
        }
        w.sync().await.unwrap();
        assert_eq!(std::fs::read_to_string(std::env::var("SYNCS").unwrap()).unwrap(), "fsync");
    }""",
  demo_sh=shim_demo("c27-long-file-data-only", M, """SYNCS=/tmp/seeded-demo-c27-long-file-data-only/syncs LD_PRELOAD=/tmp/seeded-demo-c27-long-file-data-only/shim.so timeout 100 "$bin" seeded_demo"""),
  extra={"shim.c": """#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static void note(const char *s) {
    int f = open(getenv("SYNCS"), O_CREAT | O_WRONLY | O_APPEND, 0600);
    if (f >= 0) { if (write(f, s, strlen(s)) < 0) {} close(f); }
}
int fsync(int fd) { note("fsync"); return ((int (*)(int))dlsym(RTLD_NEXT, "fsync"))(fd); }
int fdatasync(int fd) { note("fdatasync"); return ((int (*)(int))dlsym(RTLD_NEXT, "fdatasync"))(fd); }
"""}),
]
