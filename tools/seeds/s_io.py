W = "src/store/io/default_block_writer.rs"
U = "src/store/io/unix_disk_block_reader.rs"
M = "src/store/io/mod.rs"
G = "src/store/segment_writer.rs"
X = "src/store/block_index.rs"
K = "src/store/block_sink.rs"

READER = """
    use futures::StreamExt;
    #[allow(dead_code)]
    fn pattern(n: usize) -> Vec<u8> { (0..n).map(|i| (i * 7 + i / 251) as u8).collect() }
    #[allow(dead_code)]
    fn op(start: u64, end: u64, id: u32) -> ReadOp {
        ReadOp { block_range: BlockRange { start, end }, op_info: OpInfo::DataBlock { first_row_id: id } }
    }
"""
SEG = """
    #[allow(dead_code)]
    fn info(id: [u8; 16]) -> SegmentInfo {
        SegmentInfo { segment_id: Uuid::from_bytes(id), database_name: "db".to_string(), table_name: "t".to_string(), shard_id: 1, num_rows: 3 }
    }
    #[allow(dead_code)]
    fn col(name: &str, nullable: bool) -> ColumnInfo {
        ColumnInfo { name: name.to_string(), column_type: ColumnType::String, encoding: Encoding::Raw, index_type: IndexType::NoIndex, nullable }
    }
    #[allow(dead_code)]
    fn file(dir: &std::path::Path, id: [u8; 16], ext: &str) -> std::path::PathBuf {
        dir.join(format!("{}.{}", base64::encode_config(&id, base64::URL_SAFE_NO_PAD), ext))
    }
    #[allow(dead_code)]
    fn metadata(path: &std::path::Path) -> Metadata {
        let b = std::fs::read(path).unwrap();
        let mut p = [0u8; 8];
        p.copy_from_slice(&b[b.len() - 8..]);
        let p = u64::from_le_bytes(p) as usize;
        Metadata::decode(&b[p..b.len() - 8]).unwrap()
    }
"""
SHIM_PRE = "gcc -O1 -shared -fPIC -o /tmp/seeded-demo-%s/shim.so \"$here/shim.c\" -ldl || exit 3\n"


def shim_demo(id, mod_file, test):
    """a demo whose test binary runs with shim.so preloaded"""
    return """cat "$here/demo.rs" >> %s
gcc -O1 -shared -fPIC -o /tmp/seeded-demo-%s/shim.so "$here/shim.c" -ldl || exit 3
cargo test --offline --locked --bin meerkat --no-run 2>&1 | tee /tmp/seeded-demo-%s/build.log
bin=$(sed -n 's/.*(\\(target.*meerkat-[0-9a-f]*\\)).*/\\1/p' /tmp/seeded-demo-%s/build.log)
[ -x "$bin" ] || exit 4
%s
""" % (mod_file, id, id, id, test)


FAIL_SHIM = r"""#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>
static int n;
/* the FAIL_AT-th write to a segment file fails */
ssize_t write(int fd, const void *b, size_t len) {
    char link[64], path[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(link, path, sizeof path - 1);
    if (l > 4) {
        path[l] = 0;
        if ((!strcmp(path + l - 4, ".idx") || !strcmp(path + l - 4, ".dat"))
            && __atomic_add_fetch(&n, 1, __ATOMIC_SEQ_CST) == atoi(getenv("FAIL_AT"))) {
            errno = EIO;
            return -1;
        }
    }
    return ((ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write"))(fd, b, len);
}
"""

SEEDS = [
 dict(id="c19-single-write", property="C19", edits=[(W, """        self.pos += block.len() as u64;
        self.file.write_all(block).await
""", """        let written = self.file.write(block).await?;
        self.pos += written as u64;
        Ok(())
""")],
  needs="a block larger than the 2 MiB buffer of tokio's file",
  what="A block is handed over with a single write, so blocks larger than tokio's internal buffer are cut short.",
  demo_file=W, demo="""
    #[tokio::test]
    async fn large_block() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        let mut w = Writer::new(&path).await.unwrap();
        w.write_block(&vec![5u8; 5 << 20]).await.unwrap();
        w.write_block(b"x").await.unwrap();
        w.flush().await.unwrap();
        assert_eq!(w.pos(), (5 << 20) + 1);
        assert_eq!(std::fs::metadata(&path).unwrap().len(), (5 << 20) + 1);
    }"""),
 dict(id="c19-offset-32-bits", property="C19", edits=[(U, "            file.read_exact_at(buf.as_mut_slice(), range.start)\n", "            file.read_exact_at(buf.as_mut_slice(), u64::from(range.start as u32))\n")],
  needs="reading a range that starts past 4 GiB",
  what="Read positions are truncated to 32 bits, so ranges past 4 GiB return other bytes of the file.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn read_past_4gib() {
        use std::os::unix::fs::FileExt;
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        let f = std::fs::File::create(&path).unwrap();
        f.write_all_at(b"near", 0).unwrap();
        f.write_all_at(b"far!", 1 << 32).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        assert_eq!(r.read_block(BlockRange { start: 1 << 32, end: (1 << 32) + 4 }).await.unwrap(), b"far!");
    }"""),
 dict(id="c20-elevator", property="C20", edits=[(U, "        iter(read_ops)\n", "        // read in file order.\n        let mut read_ops = read_ops;\n        read_ops.sort_by_key(|op| op.block_range.start);\n        iter(read_ops)\n")],
  needs="a batch whose ranges run backwards through the file",
  what="The operations of a batch are sorted by position, so results come in file order instead of the order requested.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn results_come_in_order() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(100)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        let ops: Vec<ReadOp> = (0..10u32).map(|i| op(90 - 10 * i as u64, 95 - 10 * i as u64, i)).collect();
        let got: Vec<OpInfo> = r.read_blocks(ops).map(|x| x.ok().unwrap().op_info).collect().await;
        assert_eq!(got, (0..10u32).map(|i| OpInfo::DataBlock { first_row_id: i }).collect::<Vec<_>>());
    }"""),
 dict(id="c20-error-ends-batch", property="C20", edits=[(U, """                Err(err) => Err(BlockError {
                    op_info: op_result.1.op_info,
                    error: err,
                }),
            })
""", """                Err(err) => Err(BlockError {
                    op_info: op_result.1.op_info,
                    error: err,
                }),
            })
            // do not wait for the rest of a failed batch.
            .scan(false, |failed, op_result| {
                let skip = *failed;
                *failed = *failed || op_result.is_err();
                futures::future::ready(if skip { None } else { Some(op_result) })
            })
"""), (U, "            .map(|op_result| match op_result.0 {", "            .map(|op_result: (io::Result<Vec<u8>>, ReadOp)| match op_result.0 {")],
  needs="a failing operation that is not the last of its batch",
  what="A batch ends at its first failing operation, the results of the operations behind it are missing.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn one_result_per_operation() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(100)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        let ops = vec![op(0, 10, 0), op(50, 500, 1), op(10, 20, 2), op(20, 30, 3)];
        let ok: Vec<bool> = r.read_blocks(ops).map(|x| x.is_ok()).collect().await;
        assert_eq!(ok, vec![true, false, true, true]);
    }"""),
 dict(id="c21-batch-clamp", property="C21", edits=[(U, "            .map(move |op| async move { (self.read_block(op.block_range.to_owned()).await, op) })\n", """            .map(move |op| async move {
                let mut range = op.block_range.to_owned();
                if range.start < self.len {
                    range.end = range.end.min(self.len);
                }
                (self.read_block(range).await, op)
            })
""")],
  needs="a batched read that starts inside the file and ends past its end",
  what="Batched reads are clamped to the file length, so a range that ends past the file returns short data instead of an error.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn out_of_range_is_an_error() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(100)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        let res: Vec<bool> = r.read_blocks(vec![op(90, 101, 0), op(90, 100, 1)]).map(|x| x.is_ok()).collect().await;
        assert_eq!(res, vec![false, true]);
    }"""),
 dict(id="c22-last-block-cache", property="C22", edits=[(U, """#[derive(Clone)]
pub struct Reader {
    file: Arc<File>,
    len: u64,
}
""", """#[derive(Clone)]
pub struct Reader {
    file: Arc<File>,
    len: u64,
    /// The last block read, index blocks are often fetched twice in a row.
    last: Arc<(AtomicU64, Mutex<Vec<u8>>)>,
}
"""), (U, """            len: metadata.len(),
        })""", """            len: metadata.len(),
            last: Arc::new((AtomicU64::new(u64::MAX), Mutex::new(Vec::new()))),
        })"""), (U, "        let file = self.file.clone();\n", "        let file = self.file.clone();\n        let last = self.last.clone();\n"),
  (U, """            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
""", """            if last.0.load(Ordering::SeqCst) == range.start {
                let cached = last.1.lock().unwrap();
                if cached.len() == buf.len() {
                    return Ok(cached.clone());
                }
            }
            file.read_exact_at(buf.as_mut_slice(), range.start)?;
            last.0.store(range.start, Ordering::SeqCst);
            *last.1.lock().unwrap() = buf.clone();
            Ok(buf)
"""), (U, "use std::sync::Arc;\n", "use std::sync::atomic::{AtomicU64, Ordering};\nuse std::sync::{Arc, Mutex};\n")],
  needs="concurrent reads of equally long ranges through clones of a reader, one of which is repeated while another one finishes",
  what="A cache of the last block shared by the clones stores position and bytes in two steps, so a concurrent reader can get the bytes of another range.",
  demo_file=M, demo=READER + """
    #[tokio::test(flavor = "multi_thread", worker_threads = 8)]
    async fn concurrent_reads() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        let data = std::sync::Arc::new(pattern(1 << 20));
        std::fs::write(&path, &data[..]).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        let mut tasks = vec![];
        for t in 0..8u64 {
            let (r, data) = (r.clone(), data.clone());
            tasks.push(tokio::spawn(async move {
                for i in 0..20000u64 {
                    let start = (i + t) % 3 * 4096;
                    let got = r.read_block(BlockRange { start, end: start + 64 }).await.unwrap();
                    assert!(got == data[start as usize..start as usize + 64], "foreign bytes");
                }
            }));
        }
        for t in tasks { t.await.unwrap(); }
    }"""),
 dict(id="c23-index-not-cleared", property="C23", edits=[(G, "        self.block_index.clear();\n\n        let encoder =", "        let encoder ="), (G, """            .block_index()
            .flush(&mut self.index_writer)
            .await?;
""", """            .block_index()
            .flush(&mut self.index_writer)
            .await?;

        if block_ndex_layout.range.as_ref().map_or(false, |r| r.start < r.end) {
            self.block_sink.block_index().clear();
        }
""")],
  needs="a segment with more than one column",
  what="The block index is only reset once it was stored, so the index of the second column also lists the blocks of the first.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn each_column_has_its_own_index() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        let mut buf = BinaryBuffer::new(false);
        buf.append(b"abc");
        for c in ["a", "b"] {
            let mut cw = w.new_binary_column_writer(col(c, false)).unwrap();
            cw.write(&buf).await.unwrap();
            cw.close().await.unwrap();
            drop(cw);
        }
        let mut cw = w.new_binary_column_writer(col("c", false)).unwrap();
        cw.write(&buf).await.unwrap();
        cw.close().await.unwrap();
        assert_eq!(cw.block_sink.block_index().entries(), 1);
    }""" , pre="cat >> src/store/block_index.rs <<'RS'\nimpl BlockIndex { #[cfg(test)] pub fn entries(&self) -> usize { self.block_row_id.len() } }\nRS\n"),
 dict(id="c23-position-before-write", property="C23", edits=[(K, """        self.data_writer.write_block(block_data).await?;
        self.block_index.index_block(row_id, self.data_writer.pos());
        Ok(())
""", """        let end = self.data_writer.pos() + u64::from(block_data.len() as u16);
        self.data_writer.write_block(block_data).await?;
        self.block_index.index_block(row_id, end);
        Ok(())
""")],
  needs="a block of 64 KiB or more",
  what="The end position of a block is computed from a 16-bit length, so blocks of 64 KiB or more are not where the block index says.",
  demo_file=G, pre="cat >> src/store/block_index.rs <<'RS'\nimpl BlockIndex { #[cfg(test)] pub fn ends(&self) -> Vec<u64> { self.block_offset.clone() } }\nRS\n",
  demo=SEG + """
    #[tokio::test]
    async fn index_points_at_the_end_of_the_block() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        let mut buf = BinaryBuffer::new(false);
        buf.append(&vec![1u8; 70000]);
        let ends = {
            let mut cw = w.new_binary_column_writer(col("a", false)).unwrap();
            cw.write(&buf).await.unwrap();
            cw.close().await.unwrap();
            cw.block_sink.block_index().ends()
        };
        assert_eq!(*ends.last().unwrap(), w.data_writer.pos());
    }"""),
 dict(id="c24-case-insensitive", property="C24", edits=[(G, """            .columns_meta
            .insert(self.column_info.name.clone(), column_meta);
""", """            .columns_meta
            .insert(self.column_info.name.to_lowercase(), column_meta);
""")],
  needs="a column name with upper case letters",
  what="Column descriptions are stored under the lower case name, so the description of a column cannot be found by its name and columns that differ only in case replace each other.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn every_column_is_described() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        let mut buf = BinaryBuffer::new(false);
        buf.append(b"abc");
        for c in ["host", "Host"] {
            let mut cw = w.new_binary_column_writer(col(c, false)).unwrap();
            cw.write(&buf).await.unwrap();
            cw.close().await.unwrap();
        }
        w.close().await.unwrap();
        let m = metadata(&file(dir.path(), [1; 16], "idx")).segment_meta.unwrap();
        for c in ["host", "Host"] { assert_eq!(m.columns_meta[c].name, c); }
    }"""),
 dict(id="c24-footer-many-columns", property="C24", edits=[(G, "        let metadata_pos = self.index_writer.pos();\n", "        let metadata_pos = self.index_writer.pos() + (self.segment_meta.columns_layout.len() / 256) as u64;\n")],
  needs="a segment with 256 or more columns",
  what="The recorded metadata position is off when the segment has 256 or more columns.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn many_columns() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        for c in 0..300 {
            let mut cw = w.new_binary_column_writer(col(&format!("c{}", c), false)).unwrap();
            cw.close().await.unwrap();
        }
        w.close().await.unwrap();
        let b = std::fs::read(file(dir.path(), [1; 16], "idx")).unwrap();
        let mut p = [0u8; 8];
        p.copy_from_slice(&b[b.len() - 8..]);
        assert_eq!(u64::from_le_bytes(p), 12);
    }"""),
 dict(id="c25-standard-base64", property="C25", edits=[(G, "            base64::encode_config(segment_info.segment_id.as_bytes(), base64::URL_SAFE_NO_PAD);", "            base64::encode_config(segment_info.segment_id.as_bytes(), base64::STANDARD_NO_PAD);")],
  needs="a segment id whose base64 form needs one of the two characters that the URL-safe alphabet replaces",
  what="File names use the standard base64 alphabet, so ids may name files in subdirectories or fail to be created.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn any_id_names_its_files() {
        let dir = tempfile::tempdir().unwrap();
        for b in [0u8, 0x3e, 0xfb, 0xff] {
            let id = [b; 16];
            SegmentWriter::new(dir.path(), info(id)).await.unwrap();
            assert!(file(dir.path(), id, "idx").is_file());
            assert!(file(dir.path(), id, "dat").is_file());
        }
    }"""),
 dict(id="c25-trimmed-path", property="C25", edits=[(G, """        let data_path = path.as_ref().join(&data_file_name);
        let index_path = path.as_ref().join(&index_file_name);
""", """        let base_path = path.as_ref().to_string_lossy();
        let base_path = Path::new(base_path.trim());
        let data_path = base_path.join(&data_file_name);
        let index_path = base_path.join(&index_file_name);
""")],
  needs="a directory path that is not UTF-8 or starts or ends with white space",
  what="The directory is converted to trimmed text first, so with paths that are not UTF-8 or have white space at an end the files are created elsewhere or not at all.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn any_directory() {
        let dir = tempfile::tempdir().unwrap();
        let sub = dir.path().join("data ");
        std::fs::create_dir(&sub).unwrap();
        std::fs::create_dir(dir.path().join("data")).unwrap();
        SegmentWriter::new(&sub, info([7; 16])).await.unwrap();
        assert!(file(&sub, [7; 16], "dat").is_file());
    }"""),
 dict(id="c26-close-drops-error", property="C26", edits=[(G, """        self.index_writer
            .flush()
            .await
            .context("cannot flush index file")?;
        self.data_writer
            .flush()
            .await
            .context("cannot flush data file")
""", """        let index_flush = self
            .index_writer
            .flush()
            .await
            .context("cannot flush index file");
        self.data_writer
            .flush()
            .await
            .context("cannot flush data file")
            .or(index_flush)
""")],
  needs="the last pending write of exactly one of the two files fails",
  what="Closing only reports a failed flush when both files fail; a write error of one file is consumed and never reported again.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn failed_writes_are_reported() {
        let dir = tempfile::tempdir().unwrap();
        let ok = async {
            let mut w = SegmentWriter::new(dir.path(), info([9; 16])).await?;
            w.close().await?;
            w.sync().await
        };
        assert!(ok.await.is_err());
    }""",
  demo_sh=shim_demo("c26-close-drops-error", G, """for n in 1 2 3 4; do
    FAIL_AT=$n LD_PRELOAD=/tmp/seeded-demo-c26-close-drops-error/shim.so timeout 100 "$bin" seeded_demo || exit 1
done"""),
  extra={"shim.c": FAIL_SHIM}),
 dict(id="c26-header-error", property="C26", edits=[(G, """            .write_block(&DATA_FILE_SIGNATURE)
            .await
            .context("cannot write index header")
    }""", """            .write_block(&DATA_FILE_SIGNATURE)
            .await
            .context("cannot write index header")?;

        // make the headers visible.
        let _ = self.data_writer.flush().await;

        Ok(())
    }""")],
  needs="the write of the data file's signature fails",
  what="The result of flushing the headers is ignored and with it a failed write of the data signature, after which everything reports success.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn failed_writes_are_reported() {
        let dir = tempfile::tempdir().unwrap();
        let ok = async {
            let mut w = SegmentWriter::new(dir.path(), info([9; 16])).await?;
            w.close().await?;
            w.sync().await
        };
        assert!(ok.await.is_err());
    }""",
  demo_sh=shim_demo("c26-header-error", G, """for n in 1 2 3 4; do
    FAIL_AT=$n LD_PRELOAD=/tmp/seeded-demo-c26-header-error/shim.so timeout 100 "$bin" seeded_demo || exit 1
done"""),
  extra={"shim.c": FAIL_SHIM}),
 dict(id="c27-data-sync-only", property="C27", edits=[(W, "        self.file.sync_all().await\n", """        if self.pos > 0 {
            // the length is the only metadata that matters.
            return self.file.sync_data().await;
        }
        self.file.sync_all().await
""")],
  needs="looking at which sync was requested: the metadata of the files is not synced",
  what="Only the data of written files is synced, not their metadata.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn segment() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = SegmentWriter::new(dir.path(), info([9; 16])).await.unwrap();
        w.close().await.unwrap();
        w.sync().await.unwrap();
    }""",
  demo_sh=shim_demo("c27-data-sync-only", G, """SYNC_LOG=/tmp/seeded-demo-c27-data-sync-only/log LD_PRELOAD=/tmp/seeded-demo-c27-data-sync-only/shim.so timeout 100 "$bin" seeded_demo || exit 1
cat /tmp/seeded-demo-c27-data-sync-only/log
[ "$(grep -c '^fsync' /tmp/seeded-demo-c27-data-sync-only/log)" = 2 ]"""),
  extra={"shim.c": """#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
static void note(const char *what) {
    FILE *f = fopen(getenv("SYNC_LOG"), "a");
    if (f) { fprintf(f, "%s\\n", what); fclose(f); }
}
int fsync(int fd) { note("fsync"); return ((int (*)(int))dlsym(RTLD_NEXT, "fsync"))(fd); }
int fdatasync(int fd) { note("fdatasync"); return ((int (*)(int))dlsym(RTLD_NEXT, "fdatasync"))(fd); }
"""}),
 dict(id="c28-single-pread", property="C28", edits=[(U, """            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
""", """            let n = file.read_at(buf.as_mut_slice(), range.start)?;
            if n < buf.len() {
                return Err(io::ErrorKind::UnexpectedEof.into());
            }
            Ok(buf)
""")],
  needs="the operating system completes a read only partially or interrupts it",
  what="A block is read with a single call, so a partial or interrupted read fails although the bytes are there.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn partial_reads_are_completed() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(1000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        assert_eq!(r.read_block(BlockRange { start: 10, end: 900 }).await.unwrap(), &pattern(1000)[10..900]);
    }""",
  demo_sh=shim_demo("c28-single-pread", M, """LD_PRELOAD=/tmp/seeded-demo-c28-single-pread/shim.so timeout 100 "$bin" seeded_demo"""),
  extra={"shim.c": """#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <sys/types.h>
static int n;
ssize_t pread64(int fd, void *b, size_t len, off64_t off) {
    if (n++ % 3 == 1) { errno = EINTR; return -1; }
    return ((ssize_t (*)(int, void *, size_t, off64_t))dlsym(RTLD_NEXT, "pread64"))(fd, b, len > 7 ? len / 2 : len, off);
}
"""}),
 dict(id="c29-shared-scratch", property="C29", edits=[("src/store/encoding/raw/binary_enc.rs", """    offset_deltas.clear();

    // add the offsets deltas.
    for i in chunk.start_pos..chunk.end_pos {
        offset_deltas.push(buf.item_len(i));
    }

    offset_encoder.encode(offset_deltas, encoded_data);
""", """    // the scratch space is reused by all the columns.
    SCRATCH.lock().unwrap().clear();

    // add the offsets deltas.
    for positions in (chunk.start_pos..chunk.end_pos).collect::<Vec<_>>().chunks(1024) {
        let mut deltas = SCRATCH.lock().unwrap();
        for i in positions {
            deltas.push(buf.item_len(*i));
        }
    }

    std::mem::swap(offset_deltas, &mut *SCRATCH.lock().unwrap());

    offset_encoder.encode(offset_deltas, encoded_data);
"""), ("src/store/encoding/raw/binary_enc.rs", "use crate::store::encoding::varint::Encoder as _;\n", "use crate::store::encoding::varint::Encoder as _;\n\nstatic SCRATCH: std::sync::Mutex<Vec<u32>> = std::sync::Mutex::new(Vec::new());\n")],
  needs="two segments whose blocks are encoded at the same moment on different threads",
  what="All encoders collect value lengths in one shared scratch list, so concurrently encoded blocks get each other's lengths.",
  demo_file="src/store/encoding/raw/binary_enc.rs", demo="""
    #[test]
    fn threads_do_not_interfere() {
        let mut buf = BinaryBuffer::new(false);
        for i in 0..3000 { buf.append(&vec![0u8; i % 7]); }
        let expected = one(&buf);
        let buf = std::sync::Arc::new(buf);
        let ts: Vec<_> = (0..8).map(|_| {
            let (buf, expected) = (buf.clone(), expected.clone());
            std::thread::spawn(move || { for _ in 0..1000 { assert!(one(&buf) == expected); } })
        }).collect();
        for t in ts { t.join().unwrap(); }
    }
    fn one(buf: &BinaryBuffer) -> Vec<u8> {
        let mut data = Vec::new();
        let c = chunk(buf, 0, 1 << 40);
        encode_binary_buffer(buf, &c, 0, true, &mut data, &mut Vec::new(), &mut bitmap_rle::Encoder::new(), &mut OffsetEncoder::new());
        data
    }"""),
 dict(id="c31-static-scratch", property="C31", edits=[("src/store/encoding/varint.rs", """        let mut buf = [0u8; MAX_VARINT_LEN];
        let enc_len = encode_varint(value, buf.as_mut_slice());
        self.extend_from_slice(&buf[..enc_len]);
""", """        static mut BUF: [u8; MAX_VARINT_LEN] = [0u8; MAX_VARINT_LEN];
        let buf = unsafe { &mut *std::ptr::addr_of_mut!(BUF) };
        let enc_len = encode_varint(value, buf.as_mut_slice());
        self.extend_from_slice(&buf[..enc_len]);
""")],
  needs="two columns encoded on different threads at the same time",
  what="Integers are encoded in an unsynchronised static buffer, a data race between threads that encode at the same time.",
  demo_file="src/store/encoding/varint.rs", demo="""
    #[test]
    fn encoding_is_thread_safe() {
        let ts: Vec<_> = (0..8u64).map(|t| std::thread::spawn(move || {
            for i in 0..200_000u64 {
                let value = (t << 40) + i;
                let mut v: Vec<u8> = Vec::new();
                v.put_varint(value);
                let mut buf = [0u8; MAX_VARINT_LEN];
                let n = encode_varint(value, &mut buf);
                assert_eq!(v, &buf[..n]);
            }
        })).collect();
        for t in ts { t.join().unwrap(); }
    }"""),
 dict(id="c31-oversized-slice", property="C31", edits=[("src/store/encoding/raw/primitive_enc.rs", "            std::mem::size_of::<T>() * src.len(),", "            std::mem::size_of::<T>().max(8) * src.len(),"), ("src/store/encoding/raw/primitive_enc.rs", "    encoded_data.extend_from_slice(to_byte_slice(&buf.values()[start..end]));\n", "    encoded_data.extend_from_slice(&to_byte_slice(&buf.values()[start..end])[..block_size]);\n")],
  needs="a memory checker: the surplus bytes are cut off again",
  what="The byte view of 32-bit columns covers twice the memory of the values: a slice that reaches past the allocation, undefined behaviour.",
  demo_file="src/store/encoding/raw/primitive_enc.rs", demo="""
    #[test]
    fn view_covers_the_values() {
        assert_eq!(to_byte_slice(&[1i32, 2]).len(), 8);
        assert_eq!(to_byte_slice(&[1i64, 2]).len(), 16);
    }"""),
 dict(id="c32-inverted-range", property="C32", edits=[(X, "            range: Some(Range { start: 0, end: 0 }),\n", """            range: Some(Range {
                start: block_writer.pos(),
                end: 12 * self.block_row_id.len() as u64,
            }),
""")],
  needs="a column whose index would be shorter than its position in the file",
  what="The recorded range of a block index ends with its length instead of its end position and nothing is stored there.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn ranges_are_not_inverted() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        w.new_binary_column_writer(col("empty", false)).unwrap().close().await.unwrap();
        w.close().await.unwrap();
        let m = metadata(&file(dir.path(), [1; 16], "idx"));
        let r = m.columns_layout["empty"].block_index_layout.clone().unwrap().range.unwrap();
        assert!(r.start <= r.end, "{:?}", r);
    }"""),
 dict(id="c33-no-truncate", property="C33", edits=[(W, "        let file = File::create(path).await?;\n", """        let file = tokio::fs::OpenOptions::new()
            .write(true)
            .create(true)
            .open(path)
            .await?;
""")],
  needs="writing a segment again over longer files of an earlier attempt",
  what="Existing files are not truncated when a segment is created, so the tail of a longer previous file survives behind the new one.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn leftovers_are_gone() {
        let dir = tempfile::tempdir().unwrap();
        let path = file(dir.path(), [1; 16], "dat");
        std::fs::write(&path, vec![9u8; 1000]).unwrap();
        let mut w = SegmentWriter::new(dir.path(), info([1; 16])).await.unwrap();
        w.close().await.unwrap();
        w.sync().await.unwrap();
        assert_eq!(std::fs::read(&path).unwrap(), b"MEERKAT_DATA1");
    }"""),
 dict(id="c33-late-header", property="C33", edits=[(W, """        self.pos += block.len() as u64;
        self.file.write_all(block).await
""", """        use tokio::io::AsyncSeekExt;
        if self.pos == 0 && !block.is_empty() {
            // reserve the space of the first block.
            self.file.set_len(block.len() as u64).await?;
            self.file.seek(std::io::SeekFrom::Start(0)).await?;
        }
        self.pos += block.len() as u64;
        self.file.write_all(block).await
""")],
  needs="a crash between creating a file and writing its first block",
  what="The file is extended before its first block is written, so a crash in between leaves zero bytes where the signature belongs.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn segment() {
        let dir = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap());
        let _ = SegmentWriter::new(&dir, info([1; 16])).await;
    }""",
  demo_sh=shim_demo("c33-late-header", G, """mkdir /tmp/seeded-demo-c33-late-header/d
DEMO_DIR=/tmp/seeded-demo-c33-late-header/d LD_PRELOAD=/tmp/seeded-demo-c33-late-header/shim.so timeout 100 "$bin" seeded_demo
[ $? = 77 ] || exit 1
for f in /tmp/seeded-demo-c33-late-header/d/*; do
    n=$(stat -c %s "$f")
    { head -c "$n" <<< MEERKAT_IDX1; } | cmp -s - "$f" || { head -c "$n" <<< MEERKAT_DATA1; } | cmp -s - "$f" || { echo "$f is no prefix:"; od -c "$f"; exit 1; }
done"""),
  extra={"shim.c": """#define _GNU_SOURCE
#include <dlfcn.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>
/* the process dies right before the first write of a signature */
ssize_t write(int fd, const void *b, size_t len) {
    if (len >= 7 && !memcmp(b, "MEERKAT", 7)) _exit(77);
    return ((ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write"))(fd, b, len);
}
"""}),
]
MAIN = "src/main.rs"
CONF = """cargo rustc --offline --locked --bin meerkat -- --cfg meerkat_verif || exit 4
run() { env -i PATH="$PATH" HOME="$HOME" timeout 20 "$@" 2>&1; }
"""
SEEDS += [
 dict(id="c30-trim-spaces", property="C30", edits=[(MAIN, "            .map(|s| s.trim().to_string())\n", "            .map(|s| s.trim_matches(' ').to_string())\n")],
  needs="seeds separated with tabs or line breaks next to the commas",
  what="Only blanks are trimmed from the seeds, tabs and line breaks stay part of the host names.",
  demo_sh=CONF + """run target/debug/meerkat --db-path /x --seeds "$(printf ' a ,\\tb\\n,c')" | tee /tmp/seeded-demo-c30-trim-spaces/out
grep -q 'seeds: \\["a", "b", "c"\\]' /tmp/seeded-demo-c30-trim-spaces/out"""),
 dict(id="c30-env-name", property="C30", edits=[(MAIN, '    #[structopt(long, env = "MK_SEEDS")]\n', '    #[structopt(long, env = "MK_SEED")]\n')],
  needs="seeds given through the environment only",
  what="The seed list is read from another environment variable than the documented one.",
  demo_sh=CONF + """MK="MK_SEEDS=a,b"
env -i PATH="$PATH" "$MK" timeout 20 target/debug/meerkat --db-path /x > /tmp/seeded-demo-c30-env-name/out 2>&1
cat /tmp/seeded-demo-c30-env-name/out
grep -q 'seeds: \\["a", "b"\\]' /tmp/seeded-demo-c30-env-name/out"""),
]
