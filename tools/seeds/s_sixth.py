"""sixth wave of planted bugs"""
import importlib.util
import os
_s = importlib.util.spec_from_file_location("s_more", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s_more.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
READER, SEG, ALLOC, FDS, shim_demo = _m.READER, _m.SEG, _m.ALLOC, _m.FDS, _m.shim_demo
W, U, M, G, X, K = _m.W, _m.U, _m.M, _m.G, _m.X, _m.K
B, E, P, R, V, O, S = _m.B, _m.E, _m.P, _m.R, _m.V, _m.O, _m.S

COLLECT = """
    #[allow(dead_code)]
    struct Keep(Vec<(u32, Vec<u8>)>);
    #[async_trait]
    impl BlockSink for Keep {
        async fn write_block(&mut self, r: u32, d: &[u8]) -> Result<()> { self.0.push((r, d.to_vec())); Ok(()) }
    }
"""

SEEDS = [
 dict(id="c36-null-positions", property="C36", edits=[
  (P, "    min_block_size: usize,\n    num_rows: u32,\n}", "    min_block_size: usize,\n    num_rows: u32,\n    /// positions of the nulls that wait for the next block.\n    nulls: Vec<u32>,\n}"),
  (P, "            num_rows: 0,\n", "            num_rows: 0,\n            nulls: Vec::new(),\n"),
  (P, "            for _ in validity_pos..validity.len() {\n                self.remaining.append_null();\n", "            for pos in validity_pos..validity.len() {\n                self.nulls.push(pos as u32);\n                self.remaining.append_null();\n"),
  (P, "    fn add_rows(&mut self, num_rows: usize) {\n", "    fn add_rows(&mut self, num_rows: usize) {\n        self.nulls.clear();\n")],
  needs="a numeric column with very many nulls and hardly any values",
  what="Four bytes are kept for every null that waits for a block instead of one bit.",
  demo_file=P, demo=ALLOC + COLLECT + """
    #[tokio::test]
    async fn sparse() {
        let mut e = Encoder::<i64>::new(1024, true);
        let mut b = PrimitiveBuffer::<i64>::new(true);
        for _ in 0..100_000 { b.append_null(); }
        let mut s = Keep(vec![]);
        let before = live();
        for _ in 0..20 { e.encode(&b, &mut s).await.unwrap(); }
        assert!(live() - before < 1 << 20, "{} bytes for 2000000 nulls", live() - before);
    }"""),
 dict(id="c35-raw-descriptor", property="C35", edits=[
  (U, "        let file = asyncify(|| File::open(path)).await?;\n", "        let fd = asyncify(|| File::open(path).map(|file| file.into_raw_fd())).await?;\n        let file = unsafe { File::from_raw_fd(fd) };\n"),
  (U, "use std::os::unix::fs::FileExt;\n", "use std::os::unix::fs::FileExt;\nuse std::os::unix::io::{FromRawFd, IntoRawFd};\n")],
  needs="an open that is given up before it is done",
  what="The opened file is passed on as a bare descriptor: when the open is given up nobody closes it.",
  demo_file=M, demo=READER + FDS + """
    #[tokio::test]
    async fn given_up() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(1000)).unwrap();
        {
            let open = unix_disk_block_reader::Reader::new(&path);
            futures::pin_mut!(open);
            assert!(futures::poll!(open).is_pending());
        }
        tokio::time::sleep(std::time::Duration::from_millis(200)).await;
        assert_eq!(settled(&dir.path().canonicalize().unwrap()).await, 0);
    }"""),
 dict(id="c25-removes-lock", property="C25", edits=[
  (G, "        let index_writer = BlockWriter::new(index_path)", """        // a crashed writer may have left its lock behind.
        let _ = tokio::fs::remove_file(index_path.with_extension("lck")).await;

        let index_writer = BlockWriter::new(index_path)""")],
  needs="a file beside the segment with its name and the extension lck",
  what="A file of the same name with another extension is removed.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn bystander() {
        let dir = tempfile::tempdir().unwrap();
        let p = file(dir.path(), [4; 16], "lck");
        std::fs::write(&p, b"x").unwrap();
        let mut w = SegmentWriter::new(dir.path(), info([4; 16])).await.unwrap();
        w.close().await.unwrap();
        assert!(p.exists());
    }"""),
 dict(id="c25-backup-of-previous", property="C25", edits=[
  (G, "        let index_writer = BlockWriter::new(index_path)", """        // keep the previous version until the new one is complete.
        let backup = data_path.with_extension("old");
        let _ = tokio::fs::rename(&data_path, &backup).await;

        let index_writer = BlockWriter::new(index_path)""")],
  needs="a segment that is written again",
  what="The previous data file of the id is renamed, so a third file appears in the directory.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn again() {
        let dir = tempfile::tempdir().unwrap();
        for _ in 0..2 {
            let mut w = SegmentWriter::new(dir.path(), info([4; 16])).await.unwrap();
            w.close().await.unwrap();
        }
        assert_eq!(std::fs::read_dir(dir.path()).unwrap().count(), 2);
    }"""),
 dict(id="c24-trimmed-names", property="C24", edits=[
  (G, "            name: self.column_info.name.clone(),\n", "            name: self.column_info.name.trim_end_matches('\\0').to_string(),\n")],
  needs="a column name that ends with a NUL character",
  what="NUL characters at the end of column names are dropped from the description.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn name() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = SegmentWriter::new(dir.path(), info([4; 16])).await.unwrap();
        let mut c = w.new_binary_column_writer(col("a\\0", false)).unwrap();
        c.close().await.unwrap();
        drop(c);
        w.close().await.unwrap();
        let m = metadata(&file(dir.path(), [4; 16], "idx"));
        assert!(m.segment_meta.unwrap().columns_meta.values().all(|c| c.name == "a\\0"));
    }"""),
 dict(id="c07-saturating-rows", property="C07", edits=[
  (E, """        self.num_rows = self
            .num_rows
            .checked_add((num_rows).try_into().expect("segment overflow"))
            .expect("segment overflow");
""", """        let num_rows: u32 = num_rows.try_into().expect("segment overflow");
        self.num_rows = self.num_rows.saturating_add(num_rows);
""")],
  needs="a binary column with more than 2^32 - 1 rows",
  what="The row count of a binary column stays at its maximum instead of refusing further rows.",
  demo_file=E, demo="""
    #[test]
    fn more_rows_than_row_ids_are_refused() {
        let mut e = Encoder::new(128, false);
        e.add_rows(u32::MAX as usize - 1);
        e.add_rows(1);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.add_rows(1)));
        assert!(r.is_err());
    }"""),
 dict(id="c20-labels-by-range", property="C20", edits=[
  (U, """        iter(read_ops)
            .map(move |op| async move { (self.read_block(op.block_range.to_owned()).await, op) })
""", """        // the labels are looked up once the bytes are there.
        let labels: std::collections::HashMap<(u64, u64), crate::store::io::OpInfo> = read_ops
            .iter()
            .map(|op| {
                (
                    (op.block_range.start, op.block_range.end),
                    op.op_info.clone(),
                )
            })
            .collect();
        iter(read_ops)
            .map(move |op| async move { (self.read_block(op.block_range.to_owned()).await, op) })
            .map(move |read| {
                let labels = labels.clone();
                async move {
                    let (res, mut op) = read.await;
                    let range = (op.block_range.start, op.block_range.end);
                    op.op_info = labels[&range].clone();
                    (res, op)
                }
            })
""")],
  needs="a batch that requests one range twice with different labels",
  what="Labels are kept per range, so repeated ranges all get the label of the last one.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn repeated_ranges() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(100)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        let got: Vec<_> = r.read_blocks(vec![op(0, 10, 0), op(10, 20, 1), op(0, 10, 2)]).collect().await;
        for (i, b) in got.into_iter().enumerate() {
            assert_eq!(b.unwrap().op_info, OpInfo::DataBlock { first_row_id: i as u32 });
        }
    }"""),
 dict(id="c06-mixed-copy", property="C06", edits=[
  (B, """            validity_dst.append_from(validity_src, validity_pos, num_values)
        } else {
            assert!(self.validity.is_none(), "missing validity bitmap");
            num_values
""", """            validity_dst.append_from(validity_src, validity_pos, num_values)
        } else {
            if let Some(ref mut validity_dst) = self.validity {
                // none of the values is null.
                for _ in start..end {
                    validity_dst.append(true);
                }
            }
            num_values
""")],
  needs="copying from a non-nullable numeric buffer into a nullable one",
  what="Such copies are accepted for numeric buffers.",
  demo_file=B, demo="""
    #[test]
    fn mixed() {
        let mut src = Int64Buffer::new(false);
        src.append(1);
        let mut dst = Int64Buffer::new(true);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { dst.append_from(&src, 0, 1, 0); }));
        assert!(r.is_err());
    }"""),
 dict(id="c10-history-dependent", property="C10", edits=[
  (R, """    pub fn clear(&mut self) {
        self.state = State::Init;
""", """    pub fn clear(&mut self) {
        self.blocks += 1;
        self.state = State::Init;
"""),
  (R, "    state: State,\n}", "    state: State,\n    blocks: u32,\n}"),
  (R, "            state: State::Init,\n        }", "            state: State::Init,\n            blocks: 0,\n        }"),
  (R, "                    if self.repeat_count == MIN_RUN_LEN {\n", "                    // later blocks are rarely looked at, longer runs do.\n                    if self.repeat_count == MIN_RUN_LEN + (self.blocks > 64) as usize {\n")],
  needs="the 65th block of a nullable column with a run of exactly three equal bytes of validity",
  what="Short runs are stored as literals in later blocks: their size depends on the history of the encoder and three equal bytes are no run frame any more.",
  demo_file=R, demo="""
    #[test]
    fn history() {
        let mut e = Encoder::new();
        let mut first = vec![];
        for i in 0..100 {
            e.clear();
            for b in 0..24 { e.put(b > 100); }
            e.flush();
            if i == 0 { first = e.encoded_values().to_vec(); }
            assert_eq!(e.encoded_values(), &first[..], "{}", i);
        }
    }"""),
 dict(id="c21-len-of-open", property="C21", edits=[
  (U, """            if range.end > file.metadata()?.len() {
                return Err(io::ErrorKind::UnexpectedEof.into());
            }
            let mut buf: Vec<u8> = vec![0; buf_len as usize];
            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
""", """            if range.end > file.metadata()?.len() {
                return Err(io::ErrorKind::UnexpectedEof.into());
            }
            let mut buf: Vec<u8> = vec![0; buf_len as usize];
            // whole sectors are cheaper to read.
            let lead = (range.start & 511) as usize;
            if buf.len() >= 4096 && lead > 0 {
                let mut sectors = vec![0; lead + buf.len()];
                let mut done = 0;
                while done < sectors.len() {
                    let n = file.read_at(&mut sectors[done..], range.start - lead as u64 + done as u64)?;
                    if n == 0 {
                        break;
                    }
                    done += n;
                }
                buf.copy_from_slice(&sectors[lead..]);
                return Ok(buf);
            }
            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
""")],
  needs="a file that shrinks between the check of the range and the read, or bytes in front of the range that are read (C34)",
  what="Blocks that do not begin at a sector are read with the bytes in front of them, and padded with zeros when the file ends early.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn shrunk() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(100_000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        assert!(r.read_block(BlockRange { start: 100, end: 90_000 }).await.is_err());
    }""",
  demo_sh=shim_demo("c21-len-of-open", M, """LD_PRELOAD=/tmp/seeded-demo-c21-len-of-open/shim.so timeout 100 "$bin" seeded_demo"""),
  extra={"shim.c": """#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/types.h>
/* the file is cut while it is read */
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
    if (n > 10000) { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); truncate(l, 50000); }
    return ((ssize_t (*)(int, void *, size_t, off_t))dlsym(RTLD_NEXT, "pread64"))(fd, b, n, o);
}
"""}),
]
