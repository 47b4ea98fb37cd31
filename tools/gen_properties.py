#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so ids, anchors and statements stay in step)."""
import json, os

B = "src/store/indexing_buffer.rs"
ENC = "src/store/encoding/mod.rs"
PRIM = "src/store/encoding/raw/primitive_enc.rs"
BIN = "src/store/encoding/raw/binary_enc.rs"
RLE = "src/store/encoding/bitmap_rle.rs"
VAR = "src/store/encoding/varint.rs"
OFF = "src/store/encoding/offsets.rs"
SW = "src/store/segment_writer.rs"
BI = "src/store/block_index.rs"
BS = "src/store/block_sink.rs"
IO = "src/store/io/mod.rs"
W = "src/store/io/default_block_writer.rs"
R = "src/store/io/unix_disk_block_reader.rs"
PROTO = "src/store/segment_metadata.proto"

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)


HOOK = "pub re-exports under cfg(meerkat_verif); no behaviour change"

p("C01", "A bitmap reads back exactly the bits appended since it was last cleared",
  "After any sequence of single-bit appends, ranged appends from another bitmap and clears, a bitmap's length is the number of bits appended since the last clear and every bit reads back exactly as appended. Clearing leaves no trace of earlier bits, and any starting capacity (including none) only affects memory, never contents. Reading at or past the length is refused instead of returning a value.",
  ["histories", "inputs"], "every operation history on a bitmap, of any length, capacity and number of reuse cycles",
  "bitmap_rnd_test appends once to a fresh default bitmap of < 2048 bits; it never reuses one after clear, never starts from a given capacity and never crosses a growth step.",
  [B], [("Bitmap::append growth and bit set", B), ("Bitmap::clear", B), ("Bitmap::is_set bound assert", B)],
  ["Bitmap::len", "Bitmap::is_set"], HOOK,
  [("values/len", "packed bits and number of bits in use", B)])

p("C02", "A numeric column buffer is a faithful list of optional values",
  "After any history of value appends, null appends and clears, a numeric column buffer (32/64-bit signed, 64-bit unsigned, 64-bit float) holds exactly the rows appended since the last clear: its dense values are the non-null rows in order bit for bit, its validity marks exactly the non-null rows, and its counts of values and rows agree. It reports having nulls exactly when at least one row is null, and a cleared buffer behaves like a new one.",
  ["histories", "inputs"], "all append/null/clear histories, nullable or not, for every numeric type and bit pattern (NaN payloads included)",
  "The unit tests push three to five fixed values once and look at lengths only; contents of validity after reuse are never read.",
  [B], [("PrimitiveBuffer append/append_null/clear", B), ("validity bitmap", B)],
  ["PrimitiveBuffer::values/validity/len/num_values/has_nulls"], HOOK)

p("C03", "A binary column buffer is a faithful list of optional byte strings",
  "After any history of value appends, null appends and clears, a binary column buffer holds exactly the rows appended since the last clear: slicing its data at its offsets yields the non-null rows in order (empty strings included), each reported item length is that row's length, and validity marks exactly the non-null rows. Counts of values and rows agree, it reports nulls exactly when one is present, and a cleared buffer behaves like a new one.",
  ["histories", "inputs"], "all append/null/clear histories over byte strings of any length, nullable or not",
  "Tests append three literals and compare four offsets; empty values, reuse and validity contents are not observed.",
  [B], [("BinaryBuffer data/offsets/validity", B)],
  ["BinaryBuffer::data/offsets/item_len/validity/len/num_values/has_nulls"], HOOK)

p("C04", "A boolean column buffer is a faithful list of optional booleans",
  "After any history of value appends, null appends and clears, a boolean column buffer holds exactly the rows appended since the last clear: its dense bits are the non-null rows in order, its validity marks exactly the non-null rows, and its length is the number of rows. It reports having nulls exactly when one is present, and a cleared buffer behaves like a new one.",
  ["histories", "inputs"], "all append/null/clear histories, nullable or not",
  "Tests append a fixed list of at most seven rows and look at lengths and flags; no bit of the value or validity bitmap is read.",
  [B], [("BoolBuffer values/validity/len", B)],
  ["BoolBuffer::values/validity/len/has_nulls"], HOOK)

p("C05", "Copying ranges between buffers moves exactly those rows",
  "Appending a range of values from a source buffer (numeric, binary) or bitmap onto a destination adds exactly those values, preceded by the null rows that lie between the given row position and them, after whatever the destination already held, and leaves the source unchanged. For nullable sources the returned position is the row just past the last copied value, so copying consecutive ranges with the returned position reproduces every source row up to its last non-null row, in order and once.",
  ["inputs", "histories"], "every source, destination and partition of the source into consecutive ranges",
  "Two tests each copy one range from position zero; chained copies with a carried cursor (what the encoders do) are not tested.",
  [B], [("append_from on Bitmap/PrimitiveBuffer/BinaryBuffer", B)], ["append_from return value and destination contents"], HOOK)

p("C06", "Nulls never enter a non-nullable column",
  "Appending a null to a column buffer declared non-nullable, or copying rows from a nullable buffer into a non-nullable one or the reverse, is always refused loudly (never silently accepted, dropped or turned into a value). A refused null append leaves the rows already in the buffer readable and unchanged, and a buffer keeps its declared nullability across clears.",
  ["histories", "inputs"], "every history of a nullable/non-nullable buffer pair of every column type, with refused operations at any point",
  "No test performs a refused operation.",
  [B], [("append_null panics; append_from expects matching validity", B)], ["append_null/append_from outcome", "is_nullable"], HOOK)

p("C07", "Columns refuse to outgrow their 32-bit offsets and row ids",
  "A binary column buffer refuses growth past what its 32-bit offsets can address, on single appends and on ranged copies alike, instead of exposing wrapped offsets. A column encoder refuses to number more rows than its 32-bit row ids can express.",
  ["inputs", "histories"], "every sequence of appends whose total size or row count crosses 2^32",
  "Needs gigabytes of data; no test goes there.",
  [B, PRIM, BIN], [("try_into u32 / assert on data length", B), ("checked_add on the row counter", BIN)], ["append/append_from outcome", "offsets", "encode outcome"], HOOK)

p("C08", "Variable-length integers round-trip in canonical form",
  "For every 64-bit unsigned value, encoding writes the canonical little-endian base-128 form, the predicted length equals the written length (1 to 10 bytes), and decoding returns the value and exactly that length no matter what bytes follow. Appending an encoded integer to a byte string never alters the bytes before it, and an input whose first ten bytes all carry the continuation mark is reported as an error.",
  ["inputs"], "all 2^64 values and any following bytes",
  "The unit test checks twenty values at powers of two and never decodes with bytes following.",
  [VAR], [("encode_varint/decode_varint/encoded_len_varint", VAR)], ["encoded bytes", "decode result"], HOOK)

p("C09", "Run-length encoded validity round-trips for every bitmap",
  "Encoding any sequence of bits, fed one by one or as a slice of a bitmap starting anywhere, and decoding the result yields exactly the positions of the set bits in order. This holds for every mix and length of runs and literals, for a partial last byte, and for an encoder reused after being cleared in any state.",
  ["inputs", "histories"], "all bit sequences and all reuse histories of one encoder",
  "Four fixed patterns of at most 132 bits on a fresh encoder; neither slices nor reuse are exercised.",
  [RLE], [("Encoder state machine put/flush/clear/put_from", RLE), ("decode", RLE)], ["encoded_values", "decode output"], HOOK)

p("C10", "Run-length encoded validity is compact and well framed",
  "Encoded validity is a sequence of literal and run frames that cover exactly the bytes needed for the bits encoded, with unused bits of the last byte zero. Three or more equal consecutive bytes always become a single run frame of constant size, and incompressible bytes cost no more than their own size plus frame headers, with no empty frames.",
  ["inputs"], "all bit sequences",
  "Tests assert the encoded length of four patterns only.",
  [RLE], [("MIN_RUN_LEN state machine, emit_run/emit_bitmap_literal", RLE)], ["encoded_values"], HOOK)

p("C11", "Packed value lengths decode back for any count and width",
  "For every list of value lengths (any count, including none, one, and more than one packing block; any mix of widths up to 32 bits), the packed form appended to a block decodes back to exactly that list with the stated bit width, and the bytes already in the block are untouched.",
  ["inputs"], "all lists of 32-bit lengths",
  "There is no test of the length packer; encoder tests only count blocks and never decode one.",
  [OFF], [("OffsetEncoder::encode padding, num_bits, compress", OFF)], ["packed bytes"], HOOK)

p("C12", "Encoding a numeric column loses, adds, alters or reorders no row",
  "For every sequence of buffers written to a numeric column (any numeric type, nullable or not, any block size), decoding the emitted blocks in order per the documented block layout yields exactly the input rows, values bit for bit and nulls at the same row positions. This includes nulls before, between and after values, all-null and empty buffers, and buffers split at any point; encoding always finishes.",
  ["inputs", "histories"], "all sequences of buffers, value types, nullability, null patterns and block sizes",
  "The two tests encode one buffer and count blocks; no block is ever decoded and no column spans more than one write.",
  [PRIM, RLE, B], [("encode/flush with carried-over remainder", PRIM), ("encode_primitive_buffer layout", PRIM)],
  ["BlockSink::write_block"], HOOK,
  [("remaining", "rows accepted but not yet emitted", PRIM)])

p("C13", "Encoding a binary column loses, adds, alters or reorders no row",
  "For every sequence of buffers written to a binary column with raw encoding (nullable or not, any block size), decoding the emitted blocks in order per the documented block layout yields exactly the input rows, byte for byte and nulls at the same row positions. This includes empty strings, strings larger than a block, blocks with many values, all-null and empty buffers, and buffers split at any point; encoding always finishes.",
  ["inputs", "histories"], "all sequences of buffers, string lengths, nullability, null patterns and block sizes",
  "The two tests encode at most three short strings and count blocks; a buffer spanning three blocks is never encoded and no block is decoded.",
  [BIN, OFF, RLE, B], [("encode/flush/chunk with carried-over remainder", BIN), ("encode_binary_buffer layout", BIN), ("OffsetEncoder", OFF)],
  ["BlockSink::write_block"], HOOK,
  [("remaining", "rows accepted but not yet emitted", BIN)])

p("C14", "Each block is announced with the row id of its last row",
  "Blocks of a column are announced with strictly increasing row ids, each the zero-based id within the column of the last row stored in that block, counting nulls. The last announced id of a flushed column is therefore its row count minus one, and no block is announced for an empty column.",
  ["inputs", "histories"], "all sequences of buffers, types, null patterns and block sizes",
  "The test sink records row ids but no test reads them.",
  [PRIM, BIN, BS], [("add_rows and write_block(row id)", PRIM), ("add_rows and write_block(row id)", BIN)], ["BlockSink::write_block row_id"], HOOK)

p("C15", "Blocks are cut at the configured size, eagerly and without empties",
  "Every block of a column except the last holds at least the configured block size of raw value bytes and would fall below it without its last value; no block is empty of rows. After each write all values are emitted except a tail smaller than one block, and flushing emits that tail as at most one block.",
  ["inputs", "histories"], "all sequences of buffers, types, null patterns and block sizes",
  "Tests count blocks for one input each.",
  [PRIM, BIN, SW], [("chunk() and the min_block_size comparisons", BIN), ("chunk() and the min_block_size comparisons", PRIM)], ["BlockSink::write_block sizes"], HOOK)

p("C16", "The encoded column does not depend on how rows were batched",
  "Writing the same rows to a column in any grouping into successive buffers (one row at a time, one big buffer, uneven batches, empty buffers in between) produces the same sequence of blocks, byte for byte, with the same row ids. Encoding the same rows again produces identical output, and writing a buffer never modifies it.",
  ["inputs", "histories", "configurations"], "all row sequences and pairs of ways to batch them",
  "No test writes two buffers to one encoder and looks at the result.",
  [PRIM, BIN], [("carry-over of the unfinished block between writes", BIN), ("same", PRIM)], ["BlockSink::write_block stream"], HOOK)

p("C17", "A failed block write is reported to whoever is writing the column",
  "If storing any block fails, the write or flush call during which it was attempted returns that error, whichever block it is; it is never swallowed and no later block is attempted within the failing call. The blocks stored before the failure are exactly the first blocks of the fault-free output.",
  ["fault_sequences", "inputs"], "every position of the failing block, for every column type and batching",
  "The test sink never fails.",
  [PRIM, BIN, BS], [("? propagation from BlockSink::write_block", BIN), ("same", PRIM)], ["encode/flush result", "BlockSink::write_block"], HOOK)

p("C18", "An encoding is either refused up front or stores data losslessly",
  "For each column type, asking for an encoding that the type does not support is refused with an error naming the problem, leaves nothing behind in the segment, and the segment remains usable. Every encoding that is accepted stores every row losslessly; the raw encoding is accepted for every column type.",
  ["configurations", "inputs"], "all pairs of column type and encoding, with any rows",
  "Only the raw encoding of two column types is ever selected by a test.",
  [ENC, SW, "src/store/encoding/snappy/snappy_enc.rs"], [("new_*_encoder match on the encoding", ENC)], ["constructor result", "BlockSink::write_block"], HOOK)

p("C19", "Written blocks are stored back to back and read back exactly",
  "A file written block by block contains exactly the concatenation of the blocks in order once flushed, for blocks of any size including empty ones and ones larger than internal buffers. The writer's position after each write is the total length written so far, and reading any range of the flushed file returns exactly those bytes, as does the reported file length.",
  ["inputs", "histories", "schedules"], "all sequences of block sizes, runtime flavours, and all ranges",
  "io_roundtrip writes 128 blocks under 2 KiB on one runtime and reads only whole blocks.",
  [W, R, IO], [("Writer::write_block/flush/pos", W), ("Reader::read_block", R)], ["file contents", "Writer::pos", "read_block"], HOOK)

p("C20", "A batch of reads returns each result once, in order, correctly labelled",
  "A batch of read operations yields exactly one result per operation, in the order requested, each carrying the caller's label of that operation and that operation's bytes, whatever order the underlying reads finish in and whether ranges repeat, overlap, are empty or run backwards through the file. An operation that fails yields an error with its own label and does not disturb the others.",
  ["schedules", "inputs", "fault_sequences"], "all batches, completion orders and failing subsets",
  "io_roundtrip reads each block once in file order with no failures and no delay.",
  [R, IO], [("buffered stream and op_info pairing", R)], ["read_blocks stream"], HOOK)

p("C21", "Ranges outside the file are errors, never crashes or invented bytes",
  "Reading a range that is inverted, starts or ends past the end of the file, or is absurdly large returns an error from that read; it never returns short, padded or stale data, never crashes or hangs the process, and later reads on the same reader still work.",
  ["inputs", "histories"], "all pairs of 64-bit range bounds against all file sizes",
  "No test reads an invalid range.",
  [R, IO], [("read_exact_at and range arithmetic", R)], ["read_block/read_blocks results"], HOOK)

p("C22", "Readers shared across tasks and threads do not disturb each other",
  "Any number of tasks and threads reading through clones of one reader, with single and batched reads interleaved and some batches abandoned part way, each get exactly the bytes of the ranges they asked for.",
  ["schedules"], "all interleavings of concurrent single, batched and abandoned reads",
  "Tests use one reader from one task.",
  [R, IO], [("positioned reads on a shared file handle", R)], ["read_block/read_blocks results per task"], HOOK)

p("C23", "A segment's data file holds every column, findable through its block index",
  "The data file of a segment is its signature followed by the blocks of each column in writing order, back to back, with nothing else. For every column, the block index built while writing lists one entry per block with that block's last row id and end position, and reading those ranges back and decoding them yields exactly the rows written to that column.",
  ["inputs", "histories", "configurations"], "all sets of columns, rows, batchings and nullability",
  "The scaffold test writes two one-row buffers and never looks at the files.",
  [SW, BS, BI, W, BIN], [("ColumnWriter/BlockSinkImpl/BlockIndex pipeline", SW), ("index_block(row_id, pos)", BS), ("BlockIndex::clear per column", BI)],
  ["data file bytes", "block index entries"], "accessor for the in-memory block index and for close/sync under cfg(meerkat_verif)")

p("C24", "A segment's index file describes the segment that was written",
  "A closed index file starts with its signature and ends with an 8-byte little-endian position at which the metadata starts; the metadata, decoded with the published schema's field numbers and enum values, names exactly the segment id, database, table, shard, row count and, for every column written, its name, type, encoding, index type, nullability and encoder layout as given by the writer. No other column appears and no column is missing.",
  ["inputs", "configurations"], "all segment and column descriptions (any unicode names, ids, enum values) and numbers of columns",
  "No test reads an index file.",
  [SW, PROTO], [("SegmentWriter::new/close and ColumnWriter::close", SW), ("protobuf schema", PROTO)], ["index file bytes"], "close/sync access under cfg(meerkat_verif)")

p("C25", "Segment files are named by their id and stay in their directory",
  "Creating a segment creates exactly two files directly inside the given directory, named by the URL-safe unpadded base64 of the segment id with a data and an index extension, whatever the id and however the directory path is written. Different ids never share a file, and nothing else in the directory or outside it is touched.",
  ["inputs", "configurations"], "all 128-bit ids and directory path forms",
  "One random id in one temporary directory; the listing is not looked at.",
  [SW], [("file name construction in SegmentWriter::new", SW)], ["directory listing"], "close/sync access under cfg(meerkat_verif)")

p("C26", "No storage error goes unreported",
  "If the operating system fails any create, write or sync of a segment's files (or of a plain block file), then some call between creation and the final flush-and-sync returns an error; the whole sequence never reports success with bytes missing. Without such failures every call succeeds.",
  ["fault_sequences", "inputs"], "every position and kind (no space, I/O error, partial write then failure, failed sync, failed open) of one fault in every write workload",
  "No test injects an I/O failure.",
  [W, SW, BS], [("error propagation through Writer, BlockSinkImpl, ColumnWriter, SegmentWriter", SW), ("deferred write errors surfaced by flush/sync", W)],
  ["results of every API call", "intercepted open/write/fsync"], "libc symbol interposition in the harness; close/sync access under cfg(meerkat_verif)")

p("C27", "A successful sync means both segment files are on stable storage",
  "When closing and syncing a segment report success, every byte of both its files has been handed to the operating system and then a full data-and-metadata sync of each file has been requested and has succeeded after its last write. The same holds for a single block file whose sync reports success.",
  ["schedules", "histories"], "all write workloads and delays of the background writes",
  "Tests call sync but observe nothing.",
  [W, SW], [("Writer::sync", W), ("SegmentWriter::sync", SW)], ["intercepted write/fsync trace per file"], "libc symbol interposition in the harness; close/sync access under cfg(meerkat_verif)")

p("C28", "Interrupted and partial system calls never corrupt data",
  "When the operating system interrupts reads and writes or completes them only partially, any number of times and anywhere, files end up with exactly the same bytes and reads return exactly the same bytes as without such events, and no call reports an error.",
  ["fault_sequences", "schedules"], "all sequences of interruptions and partial transfers on reads and writes",
  "Tests never see a short or interrupted call.",
  [W, R], [("write_all / read_exact_at loops", R)], ["file bytes", "read results"], "libc symbol interposition in the harness")

p("C29", "Segments written at the same time do not affect each other",
  "Any number of segments written concurrently, from interleaved tasks on one thread or from several threads, each end up with exactly the data file and the same described contents they would have if written alone.",
  ["schedules", "histories"], "all interleavings of concurrent segment writers, in one directory or several",
  "Tests write one segment at a time.",
  [SW, W, BS], [("no shared state between SegmentWriters", SW)], ["data and index files"], "close/sync access under cfg(meerkat_verif)")

p("C30", "The server is configured exactly as its command line and environment say",
  "The server takes its data directory, gossip port and seed list from the command line, else from the documented environment variables, else (except for the mandatory directory) from the defaults; the seed list is the trimmed, non-empty entries of the comma-separated text in order, and empty when none is given. Missing or invalid settings are refused with a non-zero exit before starting; help and version requests print and exit successfully without starting.",
  ["configurations", "inputs"], "all combinations of flags, environment variables and values",
  "No test runs the binary.",
  ["src/main.rs", "src/server/mod.rs"], [("structopt Args and Config construction", "src/main.rs")], ["exit status, output, resolved configuration"], "the resolved configuration is printed under cfg(meerkat_verif)")

p("C31", "Storing and reading columns is free of memory errors and data races",
  "Whatever rows are buffered, encoded, written and read back, and however many tasks do so at once, no out-of-bounds or use-after-free access, read of uninitialised memory, undefined behaviour or data race occurs.",
  ["inputs", "schedules"], "all workloads over the buffers, encoders, block writer and reader",
  "Plain test runs cannot see undefined behaviour that happens not to change the result.",
  [PRIM, B, RLE, OFF, W, R], [("unsafe byte view of numeric values", PRIM), ("shared file handle", R)], ["sanitizer and interpreter reports"], HOOK)

p("C32", "The index file lets a reader find every data block",
  "For every column with at least one block, the metadata in a closed index file gives a byte range inside that file, after its signature and before the metadata, where the column's block index (one entry per block) is stored; a range is never inverted or outside the file.",
  ["inputs", "histories"], "all segments",
  "No test reads an index file.",
  [SW, BI], [("BlockIndex::flush", BI)], ["index file bytes"], "close/sync access under cfg(meerkat_verif)")

p("C33", "A crash leaves a prefix, and rewriting the segment starts clean",
  "If the process dies at any moment while writing a segment, each of its files is absent or holds a prefix of what it would have held, never reordered, overwritten or foreign bytes. Writing the segment again with the same id over such leftovers, or over any longer previous file, produces exactly the files of a fresh write.",
  ["crash_points", "histories"], "every write or open call as crash point, for all workloads, followed by a rewrite",
  "No test crashes a writer or rewrites a segment.",
  [W, SW], [("append-only writes and truncating create in Writer::new", W)], ["file bytes after the crash and after the rewrite"], "libc symbol interposition in the harness; close/sync access under cfg(meerkat_verif)")

p("C34", "A batch of reads holds at most two blocks ahead of its consumer",
  "However long a batch of reads is, at no moment are more than two of its operations started whose results have not been taken, and reading it holds no more than a few blocks in memory. Only bytes inside the requested ranges are read, each requested range at most once, and a batch that is dropped early or never polled starts no further operation.",
  ["inputs", "schedules"], "all batches, read delays, consumer speeds and points at which the batch is dropped",
  "The one test that reads a batch reads all of it and looks at contents only.",
  [R], [("buffered stream with BLOCK_BUFFER_SIZE", R)], ["positioned reads at the libc boundary", "allocated bytes while a batch is read"], "libc symbol interposition and counting allocator in the harness")

p("C35", "Readers, writers and segments give back what they hold",
  "Once a block writer, a reader and its clones and streams, or a segment writer have been dropped and background work has ended, none of their files is still open in the process and repeating the same use does not keep more memory each time. This holds wherever the use ended: finished, given up between any two calls, cancelled in the middle of any call, or after a failed open, write, sync or read.",
  ["histories", "fault_sequences"], "all uses of writers, readers and segments, ending at any point or with any single failing call",
  "Tests end with the process and never count handles or memory.",
  [R, W, SW], [("owned file handles", R), ("Writer::new", W), ("SegmentWriter::new when the second file fails", SW)], ["/proc/self/fd", "allocated bytes after each repetition"], "libc symbol interposition and counting allocator in the harness")

p("C36", "The memory of a column being written does not grow with its rows",
  "While a column is encoded, or a segment's columns are written one after another, the memory held by the writing side stays bounded by about one block of values, the largest value and one bit per row not yet stored (plus a few bytes per block for the block index), no matter how many rows were written before.",
  ["histories"], "all column types, value sizes, block sizes and buffer sizes, and columns of any length",
  "Tests write a few rows and never look at memory.",
  [PRIM, BIN, SW], [("remaining buffers of the encoders", PRIM), ("block index cleared per column", SW)], ["allocated bytes after each write"], "counting allocator in the harness")

p("C37", "A column that is given up does not disturb the segment",
  "If a column's writer is dropped before it is closed, at any point, or the column is refused, the segment remains usable and does not describe that column. Every column that is closed, before or after it and even under the same name, is described as given (of two closed under one name, the later), and its block index entries delimit blocks that decode to exactly its own rows.",
  ["histories"], "all sequences of closed, dropped and refused columns and all points at which they are dropped",
  "Tests close every column they open.",
  [SW, BI], [("block index cleared for each column", SW), ("metadata inserted on close", SW)], ["segment files", "block index entries"], HOOK)

p("C38", "Slow storage holds up only the work that waits for it",
  "While the operating system takes long over an open, read, write or sync of a block file, a reader or a segment, other tasks of the same asynchronous runtime keep running, also when it has one thread only. Reads by other tasks through clones of the same reader, and work on other files, are started and completed meanwhile.",
  ["schedules", "histories", "fault_sequences"], "all uses of writers, readers and segments, any call among them being slow, on runtimes of one or more threads",
  "Tests run one task at a time on fast files; nothing else could be held up.",
  [R, W, IO, SW], [("asyncify (spawn_blocking)", IO), ("Reader clones share the file without a lock", R), ("tokio::fs::File", W)], ["open/read/write/fsync at the libc boundary", "turns of a task beside them"], "libc symbol interposition in the harness; close/sync access under cfg(meerkat_verif)")

p("C39", "Damaged encodings are refused, never decoded into something else",
  "Whatever bytes are given as encoded validity or as a variable-length integer, and however little room is provided for the result, decoding either yields exactly what the bytes say in the documented format or is refused loudly (an error or a panic). Truncated frames and integers, integers over 64 bits, set bits at positions over 32 bits and results that do not fit the room are always refused; decoding never reads past the input, never wraps or invents a position, and always ends.",
  ["inputs"], "all byte strings (truncated, altered, random, or with frames of any length) and all sizes of the result",
  "Tests decode only what the encoder has just produced, into exactly enough room.",
  [RLE, VAR], [("Decoder::read_frame/decode_run/decode_byte", RLE), ("decode_varint", VAR)], ["decode", "decode_varint"], HOOK)

p("C40", "Flushing or closing a column again stores no row twice",
  "Flushing a column encoder, or closing a column of a segment, stores the rows pending at that moment in one block, or nothing when none are pending, so that flushing or closing again stores nothing. Rows written afterwards follow those before, once each, with row ids that go on counting. The segment's data file, block index and description are then those of exactly the rows written.",
  ["histories"], "all sequences of writes and flushes of a column, of writes and closes of a column of a segment",
  "Tests flush or close every column once, at its end.",
  [PRIM, BIN, SW], [("flush() of both encoders", PRIM), ("ColumnWriter::close", SW)], ["blocks stored by each flush", "segment files"], HOOK)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
