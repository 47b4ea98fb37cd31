"""seventh wave of planted bugs: long lists, long values, long runs of events"""
import importlib.util
import os
_s = importlib.util.spec_from_file_location("s_more", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s_more.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
READER, SEG, shim_demo = _m.READER, _m.SEG, _m.shim_demo
W, U, M, G, X, K = _m.W, _m.U, _m.M, _m.G, _m.X, _m.K
B, E, P, R, V, O, S = _m.B, _m.E, _m.P, _m.R, _m.V, _m.O, _m.S

KEEP = """
    struct Keep(Vec<(u32, Vec<u8>)>);
    #[async_trait]
    impl BlockSink for Keep {
        async fn write_block(&mut self, r: u32, d: &[u8]) -> Result<()> { self.0.push((r, d.to_vec())); Ok(()) }
    }
"""

SEEDS = [
 dict(id="c12-length-24-bits", property="C12", edits=[
  (P, "    encoded_data.put_varint(block_size as u64);\n", "    // three bytes are plenty for the length of a block.\n    encoded_data.put_varint((block_size & 0xff_ffff) as u64);\n")],
  needs="a block of 16 MiB or more of numbers",
  what="Lengths of numeric blocks are written modulo 2^24.",
  demo_file=P, demo=KEEP + """
    #[tokio::test]
    async fn long_block() {
        let mut b: PrimitiveBuffer<u64> = PrimitiveBuffer::new(false);
        (0..2_200_000u64).for_each(|i| b.append(i));
        let mut e = Encoder::new(17_000_000, false);
        let mut k = Keep(vec![]);
        e.encode(&b, &mut k).await.unwrap();
        let mut len = 0u64;
        for (i, x) in k.0[0].1.iter().enumerate() {
            len |= ((x & 127) as u64) << (7 * i);
            if x & 128 == 0 { break; }
        }
        assert_eq!(len, 17_000_000);
    }"""),
 dict(id="c13-length-24-bits", property="C13", edits=[
  (E, "    encoded_data.put_varint(chunk.size as u64);\n", "    // three bytes are plenty for the length of a block.\n    encoded_data.put_varint((chunk.size & 0xff_ffff) as u64);\n")],
  needs="a block of 16 MiB or more, a single long string is enough",
  what="Lengths of binary blocks are written modulo 2^24.",
  demo_file=E, demo=KEEP + """
    #[tokio::test]
    async fn long_value() {
        let mut b = BinaryBuffer::new(false);
        b.append(&vec![7; 17_000_000]);
        let mut e = Encoder::new(100, false);
        let mut k = Keep(vec![]);
        e.encode(&b, &mut k).await.unwrap();
        let mut len = 0u64;
        for (i, x) in k.0[0].1.iter().enumerate() {
            len |= ((x & 127) as u64) << (7 * i);
            if x & 128 == 0 { break; }
        }
        assert_eq!(len, 17_000_000);
    }"""),
 dict(id="c09-run-24-bits", property="C09", edits=[
  (R, "varint::encode_varint((run_len << 1) as u64, &mut run_header_bytes[..]);", "varint::encode_varint(((run_len & 0xff_ffff) << 1) as u64, &mut run_header_bytes[..]);")],
  needs="2^27 equal bits in a row",
  what="Lengths of runs are written modulo 2^24 bytes.",
  demo_file=R, demo="""
    #[test]
    fn long_run() {
        let mut e = Encoder::new();
        for _ in 0..(8 << 24) + 800 { e.put(false); }
        e.flush();
        // the length of the run, shifted by one, and its value
        assert_eq!(e.encoded_values().len(), 5);
    }"""),
 dict(id="c11-many-lengths", property="C11", edits=[
  (O, "        for i in 0..num_chunks {\n", "        for i in 0..num_chunks & 0x3fff {\n")] if False else [],
  needs="", what="", demo_file=O, demo=""),
 dict(id="c28-sixteen-retries", property="C28", edits=[
  (U, """            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
""", """            let mut done = 0;
            let mut interrupted = 0;
            while done < buf.len() {
                match file.read_at(&mut buf[done..], range.start + done as u64) {
                    Ok(0) => return Err(io::ErrorKind::UnexpectedEof.into()),
                    Ok(n) => done += n,
                    // a call that is interrupted all the time never ends.
                    Err(ref e) if e.kind() == io::ErrorKind::Interrupted && interrupted < 16 => {
                        interrupted += 1
                    }
                    Err(e) => return Err(e),
                }
            }
            Ok(buf)
""")],
  needs="a read that is interrupted seventeen times",
  what="Reads give up after sixteen interruptions.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn interrupted() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(100)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        assert_eq!(r.read_block(BlockRange { start: 0, end: 100 }).await.unwrap(), pattern(100));
    }""",
  demo_sh=shim_demo("c28-sixteen-retries", M, """LD_PRELOAD=/tmp/seeded-demo-c28-sixteen-retries/shim.so timeout 100 "$bin" seeded_demo"""),
  extra={"shim.c": """#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <sys/types.h>
static int n;
ssize_t pread64(int fd, void *b, size_t k, off_t o) {
    if (n++ < 20) { errno = EINTR; return -1; }
    return ((ssize_t (*)(int, void *, size_t, off_t))dlsym(RTLD_NEXT, "pread64"))(fd, b, k, o);
}
"""}),
 dict(id="c19-tail-of-long-block", property="C19", edits=[
  (W, """        self.pos += block.len() as u64;
        self.file.write_all(block).await
""", """        self.pos += block.len() as u64;
        let mut rest = block;
        let mut rounds = 0;
        while !rest.is_empty() {
            // small blocks are taken whole.
            let n = self.file.write(rest).await?;
            rest = &rest[n..];
            rounds += 1;
            if rounds > 1 && rest.len() < 16 {
                break;
            }
        }
        Ok(())
""")],
  needs="a block longer than the buffer of the file, of a little more than a multiple of 2 MiB",
  what="A few bytes at the end of a block that takes more than one call are dropped.",
  demo_file=M, demo="""
    #[tokio::test]
    async fn long_blocks() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        let mut w = BlockWriter::new(&path).await.unwrap();
        let block = vec![5u8; (4 << 20) + 7];
        w.write_block(&block).await.unwrap();
        w.flush().await.unwrap();
        assert_eq!(std::fs::read(&path).unwrap().len(), block.len());
    }"""),
 dict(id="c32-range-of-the-future", property="C32", edits=[
  (X, """        Ok(BlockIndexLayout {
            range: Some(Range { start: 0, end: 0 }),
        })""", """        // long indexes get a place of their own.
        let len = self.block_offset.len() as u64 * 12;
        if len > 4096 {
            let start = block_writer.pos();
            return Ok(BlockIndexLayout {
                range: Some(Range {
                    start: start,
                    end: start + len,
                }),
            });
        }
        Ok(BlockIndexLayout {
            range: Some(Range { start: 0, end: 0 }),
        })""")],
  needs="a column with more than 341 blocks",
  what="The range of a long block index is given, but nothing is written there.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn long_index() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = SegmentWriter::new(dir.path(), info([4; 16])).await.unwrap();
        let mut c = w.new_binary_column_writer(col("a", false)).unwrap();
        let mut b = BinaryBuffer::new(false);
        (0..400).for_each(|_| b.append(&[9; 1 << 17]));
        c.write(&b).await.unwrap();
        c.close().await.unwrap();
        drop(c);
        w.close().await.unwrap();
        let idx = std::fs::read(file(dir.path(), [4; 16], "idx")).unwrap();
        let pos = { let mut p = [0; 8]; p.copy_from_slice(&idx[idx.len() - 8..]); u64::from_le_bytes(p) };
        let m = Metadata::decode(&idx[pos as usize..idx.len() - 8]).unwrap();
        let r = m.columns_layout["a"].block_index_layout.as_ref().unwrap().range.as_ref().unwrap();
        assert!(r.start <= r.end && r.end <= pos, "{:?} {}", r, pos);
    }"""),
 dict(id="c24-shard-bits", property="C24", edits=[
  (G, "                    shard_id: segment_info.shard_id,\n", "                    shard_id: segment_info.shard_id & 0x7fff_ffff,\n")],
  needs="a shard id of 2^31 or more",
  what="The top bit of the shard id is lost.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn shard() {
        let dir = tempfile::tempdir().unwrap();
        let mut i = info([4; 16]);
        i.shard_id = u32::MAX;
        let mut w = SegmentWriter::new(dir.path(), i).await.unwrap();
        w.close().await.unwrap();
        let idx = std::fs::read(file(dir.path(), [4; 16], "idx")).unwrap();
        let pos = { let mut p = [0; 8]; p.copy_from_slice(&idx[idx.len() - 8..]); u64::from_le_bytes(p) };
        let m = Metadata::decode(&idx[pos as usize..idx.len() - 8]).unwrap();
        assert_eq!(m.segment_meta.unwrap().shard_id, u32::MAX);
    }"""),
 dict(id="c14-rows-before-error", property="C17", edits=[
  (E, """        if self.remaining.num_values() > 0 {
            let remaining_size = self.remaining.data().len();
""", """        if self.remaining.num_values() > 0 {
            // the block was complete before: its sink failed, drop it.
            if self.remaining.data().len() >= self.min_block_size as usize {
                self.remaining.clear();
                return Ok(());
            }
            let remaining_size = self.remaining.data().len();
""")],
  needs="a write after one that failed", what="", demo_file=E, demo=""),
 dict(id="c22-cached-length", property="C22", edits=[
  (U, "    file: Arc<File>,\n    len: u64,\n}", "    file: Arc<File>,\n    len: u64,\n    /// buffers of reads that were given up, ready to be used again.\n    spare: Arc<std::sync::Mutex<Option<Vec<u8>>>>,\n}"),
  (U, "            len: metadata.len(),\n", "            len: metadata.len(),\n            spare: Default::default(),\n"),
  (U, "        let file = self.file.clone();\n        asyncify(move || {", "        let file = self.file.clone();\n        let spare = self.spare.clone();\n        asyncify(move || {"),
  (U, """            let mut buf: Vec<u8> = vec![0; buf_len as usize];
            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
""", """            let mut buf = spare.lock().unwrap().take().unwrap_or_default();
            if buf.len() < buf_len as usize {
                buf.resize(buf_len as usize, 0);
            } else {
                buf.truncate(buf_len as usize);
            }
            let res = file.read_exact_at(buf.as_mut_slice(), range.start);
            // something to start from for the next one.
            if buf_len == 0 && range.start > 0 {
                *spare.lock().unwrap() = Some(vec![0; 1]);
            }
            res.map(|_| buf)
""")],
  needs="", what="", demo_file=M, demo=""),
]
SEEDS = [s for s in SEEDS if s["what"]]
