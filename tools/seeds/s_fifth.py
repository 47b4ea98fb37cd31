"""fifth wave of planted bugs"""
import importlib.util
import os
_s = importlib.util.spec_from_file_location("s_more", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s_more.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
_s = importlib.util.spec_from_file_location("s_io", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s_io.py"))
_i = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_i)
_s = importlib.util.spec_from_file_location("s_fourth", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s_fourth.py"))
_f = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_f)
READER, SEG, FAIL_SHIM, shim_demo, CONF = _m.READER, _m.SEG, _m.FAIL_SHIM, _m.shim_demo, _i.CONF
W, U, M, G, X, K = _m.W, _m.U, _m.M, _m.G, _m.X, _m.K
B, E, P, R, V, O, S = _m.B, _m.E, _m.P, _m.R, _m.V, _m.O, _m.S
MAIN = "src/main.rs"

FAIL_LOOP = """for n in 1 2 3 4; do
    FAIL_AT=$n LD_PRELOAD=/tmp/seeded-demo-%s/shim.so timeout 100 "$bin" seeded_demo || exit 1
done"""
COLLECT = """
    struct Keep(Vec<(u32, Vec<u8>)>);
    #[async_trait]
    impl BlockSink for Keep {
        async fn write_block(&mut self, r: u32, d: &[u8]) -> Result<()> { self.0.push((r, d.to_vec())); Ok(()) }
    }
"""

SEEDS = [
 dict(id="c33-preallocated", property="C33", edits=[
  (W, "        let file = File::create(path).await?;\n", "        let file = File::create(path).await?;\n        // avoid the fragmentation of files that grow block by block.\n        file.set_len(PREALLOCATED).await?;\n"),
  (W, "        self.file.flush().await\n", "        self.file.flush().await?;\n        if self.pos < PREALLOCATED {\n            self.file.set_len(self.pos).await?;\n        }\n        Ok(())\n"),
  (W, "        self.file.sync_all().await\n", "        self.file.set_len(self.pos).await?;\n        self.file.sync_all().await\n"),
  (W, "/// A `BlockWriter` based", "const PREALLOCATED: u64 = 1 << 20;\n\n/// A `BlockWriter` based")],
  needs="a crash between the creation of a file and its first flush",
  what="Files are preallocated, a crash leaves zeros behind the blocks that were written.",
  demo_file=W, demo="""
    #[tokio::test]
    async fn crash() {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("f");
        let mut w = Writer::new(&p).await.unwrap();
        w.write_block(b"abc").await.unwrap();
        std::mem::forget(w);
        tokio::time::sleep(std::time::Duration::from_millis(200)).await;
        assert!(std::fs::metadata(&p).unwrap().len() <= 3);
    }"""),
 dict(id="c26-sync-retry", property="C26", edits=[
  (W, "        self.file.sync_all().await\n", """        match self.file.sync_all().await {
            Ok(()) => Ok(()),
            // maybe a transient error.
            Err(_) => self.file.sync_all().await,
        }
""")],
  needs="an fsync that fails once",
  what="A failed sync is tried again; the operating system reports a write-back error only once, so the second success means nothing.",
  demo_file=W, demo="""
    #[tokio::test]
    async fn failed_sync() {
        let dir = tempfile::tempdir().unwrap();
        let mut w = Writer::new(dir.path().join("f")).await.unwrap();
        w.write_block(b"abc").await.unwrap();
        assert!(w.sync().await.is_err());
    }""",
  demo_sh=shim_demo("c26-sync-retry", W, """LD_PRELOAD=/tmp/seeded-demo-c26-sync-retry/shim.so timeout 100 "$bin" seeded_demo"""),
  extra={"shim.c": """#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
static int n;
/* the first sync fails */
static int once(void) { if (__atomic_add_fetch(&n, 1, __ATOMIC_SEQ_CST) == 1) { errno = EIO; return 1; } return 0; }
int fsync(int fd) { return once() ? -1 : ((int (*)(int))dlsym(RTLD_NEXT, "fsync"))(fd); }
int fdatasync(int fd) { return once() ? -1 : ((int (*)(int))dlsym(RTLD_NEXT, "fdatasync"))(fd); }
"""}),
 dict(id="c26-write-retry", property="C26", edits=[
  (W, "        self.file.write_all(block).await\n", """        match self.file.write_all(block).await {
            Ok(()) => Ok(()),
            // maybe a transient error.
            Err(_) => self.file.write_all(block).await,
        }
""")],
  needs="a write that fails once and is followed by another one",
  what="A failed write is tried again, but the failure was that of the block before, which is lost without an error.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn failed_writes_are_reported() {
        let dir = tempfile::tempdir().unwrap();
        let ok = async {
            let mut w = SegmentWriter::new(dir.path(), info([9; 16])).await?;
            w.close().await?;
            w.sync().await
        };
        assert!(ok.await.is_err());
    }""",
  demo_sh=shim_demo("c26-write-retry", G, FAIL_LOOP % "c26-write-retry"),
  extra={"shim.c": FAIL_SHIM}),
 dict(id="c30-port-zero", property="C30", edits=[
  (MAIN, "        gossip_port: args.gossip_port,\n", "        gossip_port: match args.gossip_port {\n            0 => 7775,\n            port => port,\n        },\n")],
  needs="the port 0",
  what="Port 0 (any free port) is replaced by the default.",
  demo_sh=CONF + """run target/debug/meerkat --db-path /x --gossip-port 0 | tee /tmp/seeded-demo-c30-port-zero/out
grep -q 'gossip_port: 0' /tmp/seeded-demo-c30-port-zero/out"""),
 dict(id="c30-lowercase-hosts", property="C30", edits=[
  (MAIN, "            .map(|s| s.trim().to_string())\n", "            .map(|s| s.trim().to_ascii_lowercase())\n")],
  needs="a seed with capital letters",
  what="Host names are lowercased.",
  demo_sh=CONF + """run target/debug/meerkat --db-path /x --seeds a,Node-B | tee /tmp/seeded-demo-c30-lowercase-hosts/out
grep -q '"Node-B"' /tmp/seeded-demo-c30-lowercase-hosts/out"""),
 dict(id="c30-trailing-slash", property="C30", edits=[
  (MAIN, "        db_path: args.db_path,\n", "        db_path: args.db_path.components().collect(),\n")],
  needs="a path with a trailing slash, doubled slashes or inner dots",
  what="The path of the database is normalised.",
  demo_sh=CONF + """run target/debug/meerkat --db-path /x//y/./z/ | tee /tmp/seeded-demo-c30-trailing-slash/out
grep -qF '"/x//y/./z/"' /tmp/seeded-demo-c30-trailing-slash/out"""),
 dict(id="c25-leading-dash", property="C25", edits=[
  (G, "        let data_file_name = format!", """        // names that begin with a dash are a nuisance on the command line.
        let segment_id_str = match segment_id_str.strip_prefix('-') {
            Some(rest) => format!("_{}", rest),
            None => segment_id_str,
        };

        let data_file_name = format!""")],
  needs="a segment id whose first six bits are 62",
  what="The files of ids that begin with a dash get the names of another id's files.",
  demo_file=G, demo=SEG + """
    #[tokio::test]
    async fn dash() {
        let dir = tempfile::tempdir().unwrap();
        let mut id = [7; 16];
        id[0] = 62 << 2;
        let mut w = SegmentWriter::new(dir.path(), info(id)).await.unwrap();
        w.close().await.unwrap();
        assert!(file(dir.path(), id, "dat").exists());
        assert!(file(dir.path(), id, "idx").exists());
    }"""),
 dict(id="c11-outer-chunks", property="C11", edits=[
  (O, """        let num_bits = src
            .chunks(BitPacker4x::BLOCK_LEN)
            .map(|chunk| self.bitpacker.num_bits(chunk))
            .max()
            .unwrap_or(0);
""", """        // the largest value is looked up with a stride once there are many.
        let stride = 1 + src.len() / (64 * BitPacker4x::BLOCK_LEN);
        let num_bits = src
            .chunks(BitPacker4x::BLOCK_LEN)
            .step_by(stride)
            .map(|chunk| self.bitpacker.num_bits(chunk))
            .max()
            .unwrap_or(0);
""")],
  needs="8192 lengths or more, the only large one in a chunk that is skipped",
  what="The width is estimated from every second chunk of large blocks, wider lengths in the others are cut.",
  demo_file=O, demo="""
    #[test]
    fn one_long_value() {
        let mut src = vec![1u32; 10_000];
        src[200] = 1000;
        let mut dst = vec![];
        OffsetEncoder::new().encode(&mut src, &mut dst);
        assert_eq!(dst[0], 10);
    }"""),
 dict(id="c28-resumed-at-start", property="C28", edits=[
  (U, """            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
""", """            let mut done = 0;
            while done < buf.len() {
                match file.read_at(&mut buf[done..], range.start) {
                    Ok(0) => return Err(io::ErrorKind::UnexpectedEof.into()),
                    Ok(n) => done += n,
                    Err(err) if err.kind() == io::ErrorKind::Interrupted => {}
                    Err(err) => return Err(err),
                }
            }
            Ok(buf)
""")],
  needs="a read the operating system completes only partially",
  what="A partial read is resumed at the start of the block instead of where it ended.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn partial_reads_are_completed() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(10_000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        assert!(r.read_block(BlockRange { start: 10, end: 9_000 }).await.unwrap()[..] == pattern(10_000)[10..9_000]);
    }""",
  demo_sh=shim_demo("c28-resumed-at-start", M, """LD_PRELOAD=/tmp/seeded-demo-c28-resumed-at-start/shim.so timeout 100 "$bin" seeded_demo"""),
  extra={"shim.c": """#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/types.h>
/* large reads are cut */
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
    return ((ssize_t (*)(int, void *, size_t, off_t))dlsym(RTLD_NEXT, "pread64"))(fd, b, n > 1000 ? 1000 : n, o);
}
"""}),
 dict(id="c13-short-lengths", property="C13", edits=[
  (E, "        offset_deltas.push(buf.item_len(i));\n", "        offset_deltas.push(buf.item_len(i) as u16 as u32);\n")],
  needs="a value of 64 KiB or more",
  what="The stored lengths are cut to 16 bits.",
  demo_file=E, demo=COLLECT + """
    #[tokio::test]
    async fn long_value() {
        let mut buf = BinaryBuffer::new(false);
        buf.append(&vec![1; 70_000]);
        let mut s = Keep(vec![]);
        let mut e = Encoder::new(1 << 17, false);
        e.encode(&buf, &mut s).await.unwrap();
        BlockEncoder::<BinaryBuffer, Keep>::flush(&mut e, &mut s).await.unwrap();
        let d = &s.0[0].1;
        assert_eq!(d[3 + 70_000], 17, "width of the lengths");
    }"""),
 dict(id="c14-short-row-count", property="C14", edits=[
  (P, "                num_rows: last_bit_pos - bit_pos,\n", "                num_rows: ((last_bit_pos - bit_pos) as u16).into(),\n")],
  needs="a block of a nullable column with 65536 rows or more",
  what="The rows of a block of a nullable numeric column are counted with 16 bits.",
  demo_file=P, demo=COLLECT + """
    #[tokio::test]
    async fn many_nulls() {
        let mut buf = PrimitiveBuffer::<i32>::new(true);
        for _ in 0..70_000 { buf.append_null(); }
        buf.append(1);
        let mut s = Keep(vec![]);
        let mut e = Encoder::<i32>::new(1000, true);
        e.encode(&buf, &mut s).await.unwrap();
        BlockEncoder::<PrimitiveBuffer<i32>, Keep>::flush(&mut e, &mut s).await.unwrap();
        assert_eq!(s.0[0].0, 70_000);
    }"""),
 dict(id="c37-pooled-remaining", property="C37", edits=[
  (E, "            remaining: BinaryBuffer::new(nullable),\n", "            remaining: pooled(nullable),\n"),
  (E, "#[derive(Debug)]\nstruct EncodeResult {", """static POOL: std::sync::Mutex<Vec<BinaryBuffer>> = std::sync::Mutex::new(Vec::new());

/// Reuse the memory of a previous column.
fn pooled(nullable: bool) -> BinaryBuffer {
    let mut pool = POOL.lock().unwrap();
    match pool.iter().position(|buf| buf.is_nullable() == nullable) {
        Some(pos) => pool.swap_remove(pos),
        None => BinaryBuffer::new(nullable),
    }
}

impl Drop for Encoder {
    fn drop(&mut self) {
        let nullable = self.remaining.is_nullable();
        let remaining = std::mem::replace(&mut self.remaining, BinaryBuffer::new(nullable));
        let mut pool = POOL.lock().unwrap();
        if pool.len() < 4 {
            pool.push(remaining);
        }
    }
}

#[derive(Debug)]
struct EncodeResult {"""),
 ],
  needs="a column that is given up with rows pending, and a later one",
  what="The buffer of pending rows is reused by later columns and only cleared when a column is flushed: the rows of a column that was given up reappear in another.",
  demo_file=E, demo=COLLECT + """
    #[tokio::test]
    async fn given_up() {
        let mut buf = BinaryBuffer::new(false);
        buf.append(b"abc");
        let mut s = Keep(vec![]);
        let mut e = Encoder::new(1000, false);
        e.encode(&buf, &mut s).await.unwrap();
        drop(e);
        let mut e = Encoder::new(1000, false);
        e.encode(&buf, &mut s).await.unwrap();
        BlockEncoder::<BinaryBuffer, Keep>::flush(&mut e, &mut s).await.unwrap();
        assert_eq!(s.0[0].0, 0);
    }"""),
 dict(id="c20-cancelled-batch", property="C20", edits=[
  (U, "    file: Arc<File>,\n    len: u64,\n}", "    file: Arc<File>,\n    len: u64,\n    /// buffers of completed reads, to be reused.\n    last: Arc<std::sync::Mutex<Option<(u64, u64, Vec<u8>)>>>,\n}"),
  (U, "            len: metadata.len(),\n", "            len: metadata.len(),\n            last: Default::default(),\n"),
  (U, "        let file = self.file.clone();\n", """        let file = self.file.clone();
        let last = self.last.clone();
        if let Some((start, end, buf)) = last.lock().unwrap().take() {
            // the result of a read that nobody waited for.
            if start == range.start && end >= range.end {
                return Ok(buf);
            }
        }
        let (start, end) = (range.start, range.end);
"""),
  (U, "        asyncify(move || {\n            let buf_len", "        let buf = asyncify(move || {\n            let buf_len"),
  (U, "                .map(|_| buf)\n        })\n        .await\n", """                .map(|_| {
                    *last.lock().unwrap() = Some((start, end, buf.clone()));
                    buf
                })
        })
        .await;
        if buf.is_ok() {
            // delivered.
            self.last.lock().unwrap().take();
        }
        buf
""")],
  needs="a batch given up with a read in flight, followed by a read of a shorter block at the same position",
  what="The result of a read that was given up is kept for the next read at its position, also for a shorter one, which gets too many bytes.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn after_a_cancelled_read() {
        let dir = tempfile::tempdir().unwrap();
        let path = dir.path().join("f");
        std::fs::write(&path, pattern(1_000_000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&path).await.unwrap();
        for _ in 0..20 {
            let read = r.read_block(BlockRange { start: 10, end: 900_000 });
            let _ = tokio::time::timeout(std::time::Duration::from_millis(0), read).await;
            tokio::time::sleep(std::time::Duration::from_millis(50)).await;
            assert_eq!(r.read_block(BlockRange { start: 10, end: 20 }).await.unwrap().len(), 10);
        }
    }"""),
 dict(id="c31-cancelled-read", property="C31", edits=[
  (U, "        let file = self.file.clone();\n", """        struct Room(*mut u8, usize);
        unsafe impl Send for Room {}

        let len = match range.end.checked_sub(range.start) {
            Some(len) if range.end <= self.file.metadata()?.len() => len as usize,
            Some(_) => return Err(io::ErrorKind::UnexpectedEof.into()),
            None => {
                return Err(io::Error::new(
                    io::ErrorKind::InvalidInput,
                    "invalid block range",
                ))
            }
        };
        // the blocking thread reads right into the buffer of the caller.
        let mut buf: Vec<u8> = vec![0; len];
        let room = Room(buf.as_mut_ptr(), len);
        let file = self.file.clone();
"""),
  (U, """            let buf_len = range.end.checked_sub(range.start).ok_or_else(|| {
                io::Error::new(io::ErrorKind::InvalidInput, "invalid block range")
            })?;
            // check the range before allocating the buffer for it.
            if range.end > file.metadata()?.len() {
                return Err(io::ErrorKind::UnexpectedEof.into());
            }
            let mut buf: Vec<u8> = vec![0; buf_len as usize];
            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
        })
        .await
""", """            let room = room;
            let room = unsafe { std::slice::from_raw_parts_mut(room.0, room.1) };
            file.read_exact_at(room, range.start)
        })
        .await?;

        Ok(buf)
""")],
  needs="a read that is given up while it is in flight",
  what="The buffer of a read belongs to its future while a thread reads into it: giving up the read frees memory that is written to afterwards.",
  demo_file=M, demo=READER + """
    #[tokio::test]
    async fn given_up() {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("slow");
        std::fs::write(&p, pattern(10_000)).unwrap();
        let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
        let mut all = vec![];
        for _ in 0..8 {
            let read = r.read_block(BlockRange { start: 100, end: 1000 });
            let _ = tokio::time::timeout(std::time::Duration::from_millis(50), read).await;
            // likely to get the memory of the buffer
            for _ in 0..8 { all.push(vec![0x55u8; 900]); }
        }
        tokio::time::sleep(std::time::Duration::from_millis(1500)).await;
        assert!(all.iter().all(|v| v.iter().all(|b| *b == 0x55)));
    }""",
  demo_sh=shim_demo("c31-cancelled-read", M, """SLOW_MS=700 SLOW_CALLS=read LD_PRELOAD=/tmp/seeded-demo-c31-cancelled-read/shim.so timeout 100 "$bin" seeded_demo"""),
  extra={"shim.c": _f.SLOW}),
]
