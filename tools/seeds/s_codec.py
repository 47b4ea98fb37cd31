V = "src/store/encoding/varint.rs"
R = "src/store/encoding/bitmap_rle.rs"
SEEDS = [
 dict(id="c08-word-decode", property="C08", edits=[(V, """    let mut b: u8;
    let mut part0: u32;
    b = buf[0];
""", """    // decode a whole word at a time when there is one.
    if buf.len() > 8 {
        let stops: Vec<usize> = (0..8).filter(|i| buf[*i] < 0x80).collect();
        if let Some(stop) = stops.first() {
            let value = (0..=(*stop).min(6)).fold(0, |v, i| v | u64::from(buf[i] & 0x7F) << (7 * i));
            return Ok((value, stop + 1));
        }
    }

    let mut b: u8;
    let mut part0: u32;
    b = buf[0];
""")],
  needs="an integer of exactly eight bytes followed by more bytes",
  what="decode_varint has a fast path for long inputs that drops the last byte of eight byte integers, so they decode differently when more bytes follow.",
  demo_file=V, demo="""
    #[test]
    fn following_bytes_do_not_matter() {
        for bits in 0..64 {
            let mut v: Vec<u8> = Vec::new();
            v.put_varint(1 << bits);
            let n = v.len();
            v.extend_from_slice(&[0, 0xFF, 1, 2, 3, 4, 5, 6, 7, 8]);
            assert_eq!(decode_varint(&v).unwrap(), (1 << bits, n));
        }
    }"""),
 dict(id="c08-put-two-bytes", property="C08", edits=[(V, """        let mut buf = [0u8; MAX_VARINT_LEN];
        let enc_len = encode_varint(value, buf.as_mut_slice());
        self.extend_from_slice(&buf[..enc_len]);
""", """        // one and two byte values are the common case.
        if value < 0x80 {
            self.push(value as u8);
        } else if value <= 1 << 14 {
            self.extend_from_slice(&[value as u8 | 0x80, (value >> 7) as u8]);
        } else {
            let mut buf = [0u8; MAX_VARINT_LEN];
            let enc_len = encode_varint(value, buf.as_mut_slice());
            self.extend_from_slice(&buf[..enc_len]);
        }
""")],
  needs="appending exactly 16384",
  what="Appending 16384 to a byte string takes the two byte path and leaves an unterminated integer.",
  demo_file=V, demo="""
    #[test]
    fn every_small_value_is_terminated() {
        for value in 0..70000u64 {
            let mut v: Vec<u8> = vec![9];
            v.put_varint(value);
            assert_eq!(v.len(), 1 + encoded_len_varint(value), "{}", value);
        }
    }"""),
 dict(id="c09-run-length-16-bits", property="C09", edits=[(R, "            varint::encode_varint((run_len << 1) as u64, &mut run_header_bytes[..]);", "            varint::encode_varint(u64::from(run_len as u16) << 1, &mut run_header_bytes[..]);")],
  needs="a run of 65536 or more equal bytes (524288 equal bits)",
  what="The run length of a validity run is truncated to 16 bits.",
  demo_file=R, demo="""
    #[test]
    fn long_run() {
        let mut e = Encoder::new();
        for _ in 0..70000 * 8 { e.put(false); }
        e.put(true);
        e.flush();
        let mut out = vec![0u32; 1];
        decode(e.encoded_values(), &mut out);
        assert_eq!(out, vec![70000 * 8]);
    }"""),
 dict(id="c09-stale-byte", property="C09", edits=[(R, """        self.run_start_pos = 0;
        self.byte = 0;
        self.repeat_count = 0;
        self.bit_pos = 0;
""", """        self.run_start_pos = 0;
        self.repeat_count = 0;
        if self.bit_pos > 0 && self.byte != 0xFF >> (8 - self.bit_pos) {
            self.byte = 0;
        }
        self.bit_pos = 0;
""")],
  needs="an encoder cleared while its partial byte holds only set bits, then reused for bits that start with nulls",
  what="The RLE encoder keeps its partial byte across a clear when all the bits of it are set, so the next bitmap starts with foreign set bits.",
  demo_file=R, demo="""
    #[test]
    fn reused_encoder_forgets() {
        let mut e = Encoder::new();
        for _ in 0..3 { e.put(true); }
        e.flush();
        e.clear();
        for i in 0..8 { e.put(i == 7); }
        e.flush();
        assert_eq!(e.encoded_values(), &[3, 0x80]);
    }"""),
 dict(id="c10-run-split", property="C10", edits=[(R, """                } else {
                    self.repeat_count += 1;
                }
            }
        }
        self.last_value""", """                } else {
                    self.repeat_count += 1;
                    if self.repeat_count == 1 << 14 {
                        // bound the length of the frames.
                        self.emit_run(self.repeat_count, self.last_value);
                        self.repeat_count = 0;
                    }
                }
            }
        }
        self.last_value""")],
  needs="a run of at least 16384 equal bytes (131072 equal bits)",
  what="Runs are cut every 16384 bytes: equal bytes no longer become a single frame, and a run of exactly that length is followed by an empty frame.",
  demo_file=R, demo="""
    #[test]
    fn one_run_one_frame() {
        let mut e = Encoder::new();
        for _ in 0..(1 << 14) * 8 { e.put(true); }
        e.flush();
        let mut expected = Vec::new();
        crate::store::encoding::varint::Encoder::put_varint(&mut expected, (1u64 << 14) << 1);
        expected.push(0xFF);
        assert_eq!(e.encoded_values(), expected.as_slice());
    }"""),
 dict(id="c10-short-literal-run", property="C10", edits=[(R, """                        if self.run_start_pos > 0 {
                            self.emit_bitmap_literal(self.run_start_pos);
                        }
                        self.buffer.clear();
                        self.state = State::Run
""", """                        if self.run_start_pos == 2 {
                            // not worth a frame of its own.
                            self.transition_to_literal();
                        } else {
                            if self.run_start_pos > 0 {
                                self.emit_bitmap_literal(self.run_start_pos);
                            }
                            self.buffer.clear();
                            self.state = State::Run
                        }
""")],
  needs="a run that starts right after exactly two literal bytes",
  what="A run that follows exactly two literal bytes is stored as literals, so its size grows with the run.",
  demo_file=R, demo="""
    #[test]
    fn run_after_two_bytes() {
        let mut e = Encoder::new();
        for i in 0..8 { e.put(i % 2 == 0); }
        for i in 0..8 { e.put(i % 2 == 1); }
        for _ in 0..3 * 8 { e.put(false); }
        e.flush();
        assert_eq!(e.encoded_values(), &[5, 0x55, 0xAA, 6, 0]);
    }"""),
 dict(id="c11-extra-padding", property="C11", edits=[("src/store/encoding/util.rs", "    (num + (factor - 1)) & !(factor - 1)", "    (num + factor) & !(factor - 1)")],
  needs="a number of values that is an exact multiple of 128 (or none)",
  what="The padding of packed lengths adds a whole extra block when the count is already a multiple of the packing block, so the packed form no longer has the size its count implies.",
  demo_file="src/store/encoding/offsets.rs", demo="""
    #[test]
    fn full_blocks_need_no_padding() {
        let mut src: Vec<u32> = (0..128).collect();
        let mut dst = Vec::new();
        OffsetEncoder::new().encode(&mut src, &mut dst);
        assert_eq!(dst.len(), 1 + 7 * 128 / 8);
    }"""),
 dict(id="c11-width-of-chunk", property="C11", edits=[("src/store/encoding/offsets.rs", """                .compress(chunk, &mut dst[chunk_start..], num_bits);
""", """                .compress(chunk, &mut dst[chunk_start..], self.bitpacker.num_bits(chunk));
""")],
  needs="more than 128 values with different widths per packing block",
  what="Each packing block is packed with its own width although only the widest is recorded.",
  demo_file="src/store/encoding/offsets.rs", demo="""
    #[test]
    fn mixed_widths() {
        let values: Vec<u32> = (0..256u32).map(|i| if i < 128 { i % 2 } else { i * 1000 }).collect();
        let mut src = values.clone();
        let mut dst = Vec::new();
        OffsetEncoder::new().encode(&mut src, &mut dst);
        let bits = dst[0];
        let mut out = vec![0u32; 256];
        let p = BitPacker4x::new();
        let mut pos = 1;
        for chunk in out.chunks_mut(128) { pos += p.decompress(&dst[pos..], chunk, bits); }
        assert_eq!(out, values);
    }"""),
]
