P = "src/store/encoding/raw/primitive_enc.rs"
N = "src/store/encoding/raw/binary_enc.rs"
PRE = """
    use crate::store::encoding::BlockSink;
    struct Sink { blocks: Vec<(u32, Vec<u8>)>, fail_at: usize }
    #[async_trait]
    impl BlockSink for Sink {
        async fn write_block(&mut self, row_id: u32, data: &[u8]) -> Result<()> {
            if self.blocks.len() == self.fail_at { self.fail_at = usize::MAX; anyhow::bail!("disk full"); }
            self.blocks.push((row_id, data.to_vec()));
            Ok(())
        }
    }
    #[allow(dead_code)]
    fn sink() -> Sink { Sink { blocks: vec![], fail_at: usize::MAX } }
"""
SEEDS = [
 dict(id="c12-odd-block-size", property="C12", edits=[(P, "    let chunk_len = min_size / size_of::<T>() + ((min_size % size_of::<T>() != 0) as usize);", "    let chunk_len = min_size / size_of::<T>();")],
  needs="a block size that is not a multiple of the value size",
  what="The chunk length is rounded down, so with a block size that is not a multiple of the value size the rows after the first chunk are dropped.",
  demo_file=P, demo=PRE + """
    #[tokio::test]
    async fn odd_block_size_keeps_all_rows() {
        let mut buf: PrimitiveBuffer<i64> = PrimitiveBuffer::new(false);
        for i in 0..100 { buf.append(i); }
        let mut s = sink();
        let mut e = Encoder::new(100, false);
        e.encode(&buf, &mut s).await.unwrap();
        e.flush(&mut s).await.unwrap();
        let n: usize = s.blocks.iter().map(|b| b.1.len()).sum();
        assert!(n >= 800, "{} bytes in {} blocks", n, s.blocks.len());
    }"""),
 dict(id="c12-skip-valueless-buffer", property="C12", edits=[(P, """        let mut buf_pos = 0;
        let mut validity_pos = 0;
""", """        let (mut buf_pos, mut validity_pos) = match buffer.len() {
            // nothing to encode.
            0 => return Ok(()),
            _ => (0, 0),
        };
""")],
  needs="a buffer that holds only nulls",
  what="Buffers without values are skipped, so the rows of an all-null buffer are lost and later rows shift.",
  demo_file=P, demo=PRE + """
    #[tokio::test]
    async fn null_only_buffers_count() {
        let mut nulls: PrimitiveBuffer<i32> = PrimitiveBuffer::new(true);
        for _ in 0..5 { nulls.append_null(); }
        let mut one: PrimitiveBuffer<i32> = PrimitiveBuffer::new(true);
        one.append(1);
        let mut s = sink();
        let mut e = Encoder::new(1000, true);
        e.encode(&nulls, &mut s).await.unwrap();
        e.encode(&one, &mut s).await.unwrap();
        e.flush(&mut s).await.unwrap();
        assert_eq!(s.blocks.len(), 1);
        assert_eq!(s.blocks[0].0, 5);
    }"""),
 dict(id="c13-long-value-split", property="C13", edits=[(N, """    encoded_data.put_varint(chunk.size as u64);
    encoded_data
        .extend_from_slice(""", """    encoded_data.put_varint((chunk.size & 0x1FF_FFFF) as u64);
    encoded_data
        .extend_from_slice(""")],
  needs="a single block with 32 MiB or more of data (one huge value)",
  what="The data length of a binary block is truncated to 25 bits, so blocks with a huge value cannot be decoded.",
  demo_file=N, demo=PRE + """
    #[tokio::test]
    async fn huge_value() {
        let mut buf = BinaryBuffer::new(false);
        buf.append(&vec![7u8; 1 << 25]);
        let mut s = sink();
        let mut e = Encoder::new(1000, false);
        e.encode(&buf, &mut s).await.unwrap();
        e.flush(&mut s).await.unwrap();
        let (len, _) = crate::store::encoding::varint::decode_varint(&s.blocks[0].1).unwrap();
        assert_eq!(len, 1 << 25);
    }"""),
 dict(id="c13-remaining-kept", property="C13", edits=[(N, """            self.write_remaining(sink).await?;

            self.remaining.clear();
        }

        while""", """            self.write_remaining(sink).await?;

            if buf_pos < buffer.len() {
                self.remaining.clear();
            }
        }

        while""")],
  needs="a carried over tail that is completed exactly by the last value of the next buffer",
  what="The carried over tail is only dropped after it was written when the buffer has more values, otherwise its rows are written again.",
  demo_file=N, demo=PRE + """
    #[tokio::test]
    async fn tail_is_written_once() {
        let mut buf = BinaryBuffer::new(false);
        buf.append(b"abcd");
        let mut s = sink();
        let mut e = Encoder::new(8, false);
        e.encode(&buf, &mut s).await.unwrap();
        e.encode(&buf, &mut s).await.unwrap();
        e.flush(&mut s).await.unwrap();
        assert_eq!(s.blocks.iter().map(|b| b.0).collect::<Vec<_>>(), vec![1]);
    }"""),
 dict(id="c14-tail-nulls", property="C14", edits=[(P, """        self.add_rows(result.num_rows);

        sink.write_block(self.num_rows - 1, &self.encoded_data)
            .await?;

        Ok(result)
    }

    /// Keep""", """        self.add_rows(self.remaining.len());

        sink.write_block(self.num_rows - 1, &self.encoded_data)
            .await?;

        Ok(result)
    }

    /// Keep""")],
  needs="nulls in the tail carried over between buffers or flushed last, next to at least one value",
  what="Blocks written from the carried over tail are announced with a row id that does not count the nulls of the tail.",
  demo_file=P, demo=PRE + """
    #[tokio::test]
    async fn nulls_count_in_the_tail() {
        let mut buf: PrimitiveBuffer<i32> = PrimitiveBuffer::new(true);
        buf.append(1);
        buf.append_null();
        buf.append(2);
        let mut s = sink();
        let mut e = Encoder::new(1000, true);
        e.encode(&buf, &mut s).await.unwrap();
        e.flush(&mut s).await.unwrap();
        assert_eq!(s.blocks[0].0, 2);
    }"""),
 dict(id="c15-binary-search", property="C15", edits=[(N, """    let maybe_end_pos = buffer.offsets()[start_pos..]
        .iter()
        .find_position(|offset| (*offset - start_offset) as u64 >= min_size);

    let (end_pos, end_offset) = match maybe_end_pos {
        Some(pos) => (start_pos + pos.0, *pos.1),
        None => (
""", """    // the offsets are sorted.
    let offsets = &buffer.offsets()[start_pos..];
    let pos = match offsets.binary_search_by(|offset| ((*offset - start_offset) as u64).cmp(&min_size)) {
        Ok(pos) | Err(pos) => pos,
    };

    let (end_pos, end_offset) = match offsets.get(pos) {
        Some(offset) => (start_pos + pos, *offset),
        None => (
"""), (N, "use itertools::Itertools;\n", "")],
  needs="empty strings right after the value that completes a block exactly",
  what="The end of a block is found by a binary search, which may land on any of several equal offsets: empty strings that follow a complete block are pulled into it.",
  demo_file=N, demo=PRE + """
    #[tokio::test]
    async fn block_is_cut_as_soon_as_it_is_full() {
        let mut buf = BinaryBuffer::new(false);
        buf.append(b"12345678");
        for _ in 0..6 { buf.append(b""); }
        let mut s = sink();
        let mut e = Encoder::new(8, false);
        e.encode(&buf, &mut s).await.unwrap();
        e.flush(&mut s).await.unwrap();
        assert_eq!(s.blocks.iter().map(|b| b.0).collect::<Vec<_>>(), vec![0, 6]);
    }"""),
 dict(id="c15-primitive-null-size", property="C15", edits=[(P, """            let remaining_size = self.remaining.len() * std::mem::size_of::<T>();

            let chunk_end = chunk(buffer, 0, self.min_block_size - remaining_size);
""", """            let remaining_size = self.remaining.num_values() * std::mem::size_of::<T>();

            let chunk_end = chunk(buffer, 0, self.min_block_size.saturating_sub(remaining_size));
""")],
  needs="a nullable numeric column whose carried over tail holds nulls when the next buffer arrives",
  what="The nulls of the carried over tail are counted as value bytes, so too few values are taken to complete it and the values behind them stay in the buffer unwritten.",
  demo_file=P, demo=PRE + """
    #[tokio::test]
    async fn everything_but_a_tail_is_written() {
        let mut first: PrimitiveBuffer<i32> = PrimitiveBuffer::new(true);
        first.append(1);
        for _ in 0..10 { first.append_null(); }
        let mut second: PrimitiveBuffer<i32> = PrimitiveBuffer::new(true);
        for i in 0..100 { second.append(i); }
        let mut s = sink();
        let mut e = Encoder::new(64, true);
        e.encode(&first, &mut s).await.unwrap();
        e.encode(&second, &mut s).await.unwrap();
        assert!(s.blocks.len() >= 6, "{} blocks", s.blocks.len());
        e.flush(&mut s).await.unwrap();
        assert_eq!(s.blocks.last().unwrap().0, 110);
    }"""),
 dict(id="c16-direct-last-block", property="C16", edits=[(N, """            if (chunk.size as u64) < self.min_block_size {
                validity_pos""", """            if (chunk.size as u64) < self.min_block_size - self.min_block_size / 16 {
                validity_pos""")],
  needs="a buffer that ends with a tail of between 15/16 of a block and one block",
  what="An almost full tail is written as a block of its own at the end of a buffer, so where the blocks are cut depends on how the rows were batched.",
  demo_file=N, demo=PRE + """
    async fn write(batches: &[usize]) -> Vec<(u32, Vec<u8>)> {
        let mut s = sink();
        let mut e = Encoder::new(32, false);
        for n in batches {
            let mut buf = BinaryBuffer::new(false);
            for _ in 0..*n { buf.append(b"x"); }
            e.encode(&buf, &mut s).await.unwrap();
        }
        e.flush(&mut s).await.unwrap();
        s.blocks
    }
    #[tokio::test]
    async fn batching_does_not_matter() {
        assert_eq!(write(&[31, 50]).await, write(&[81]).await);
    }"""),
 dict(id="c17-tail-error-dropped", property="C17", edits=[(N, """            self.write_remaining(sink).await?;

            self.remaining.clear();
        }

        while""", """            let written = self.write_remaining(sink).await;

            self.remaining.clear();

            if buf_pos == buffer.len() {
                written?;
            }
        }

        while""")],
  needs="the write of a completed tail fails while the buffer has more values",
  what="The error of storing a completed tail is dropped when the buffer holds more values: the block is lost and the call reports success.",
  demo_file=N, demo=PRE + """
    #[tokio::test]
    async fn failed_tail_is_reported() {
        let mut buf = BinaryBuffer::new(false);
        buf.append(b"abcd");
        let mut s = Sink { blocks: vec![], fail_at: 0 };
        let mut e = Encoder::new(8, false);
        e.encode(&buf, &mut s).await.unwrap();
        buf.append(b"efgh");
        assert!(e.encode(&buf, &mut s).await.is_err());
    }"""),
 dict(id="c17-flush-error-dropped", property="C17", edits=[(P, """            self.write_remaining(sink).await?;

            // the""", """            if let Err(err) = self.write_remaining(sink).await {
                if self.remaining.len() > 0 {
                    return Err(err);
                }
            }

            // the""")],
  needs="the final block holds only nulls and storing it fails",
  what="The error of storing the last block is dropped when that block has no values, so trailing null rows are lost silently.",
  demo_file=P, demo=PRE + """
    #[tokio::test]
    async fn failed_flush_is_reported() {
        let mut buf: PrimitiveBuffer<i32> = PrimitiveBuffer::new(true);
        buf.append_null();
        let mut s = Sink { blocks: vec![], fail_at: 0 };
        let mut e = Encoder::new(8, true);
        e.encode(&buf, &mut s).await.unwrap();
        assert!(e.flush(&mut s).await.is_err());
    }"""),
 dict(id="c18-raw-fallback", property="C18", edits=[("src/store/encoding/mod.rs", """        _ => Err(anyhow!("invalid encoder for f64 data {:?}", encoder)),
""", """        Encoding::DeltaBinaryPacked => Ok(Box::new(raw::primitive_enc::Encoder::<f64>::new(
            block_size / 2,
            nullable,
        ))),
        _ => Err(anyhow!("invalid encoder for f64 data {:?}", encoder)),
""")],
  needs="asking for the delta encoding on a float column",
  what="An encoding that float columns do not support is accepted and silently replaced by another one.",
  demo_file="src/store/encoding/mod.rs", demo="""
    #[test]
    fn unsupported_is_refused() {
        assert!(new_f64_encoder::<test::SinkMock>(Encoding::DeltaBinaryPacked, 128, true).is_err());
        assert!(new_f64_encoder::<test::SinkMock>(Encoding::Raw, 128, true).is_ok());
    }"""),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
