B = "src/store/indexing_buffer.rs"
SEEDS = [
 dict(id="c01-read-past-len", property="C01", edits=[(B, "        assert!(idx < self.len);\n", "        assert!(idx >> 3 < self.values.len());\n")],
  needs="reading a bit at or past the length that still lies inside the allocated bytes",
  what="Bitmap::is_set checks the allocated capacity instead of the length, so reads past the end return a value instead of being refused.",
  demo_file=B, demo="""
    #[test]
    fn past_the_end_is_refused() {
        let mut b = Bitmap::new();
        for _ in 0..3 { b.append(true); }
        for idx in [3usize, 4, 7, 8, 100] {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.is_set(idx)));
            assert!(r.is_err(), "bit {} of 3 was read as {:?}", idx, r);
        }
    }"""),
 dict(id="c01-regrow-after-clear", property="C01", edits=[(B, """        self.len = 0;
        self.values.clear();
        self.values.resize(INITIAL_BITMAP_CAP, 0);
""", """        let used = (self.len + 7) >> 3;
        self.len = 0;
        if used > INITIAL_BITMAP_CAP {
            // give the memory back.
            self.values.truncate(INITIAL_BITMAP_CAP);
            self.values.shrink_to_fit();
        }
        let dirty = used.min(INITIAL_BITMAP_CAP - 1);
        for byte in &mut self.values[..dirty] {
            *byte = 0;
        }
        self.values.resize(INITIAL_BITMAP_CAP, 0);
""")],
  needs="a bitmap that held at least 8185 bits when cleared and then receives more than 8184 bits again",
  what="Bitmap::clear leaves the last byte of the retained allocation dirty, so old set bits shine through when a large bitmap is cleared and refilled.",
  demo_file=B, demo="""
    #[test]
    fn refilled_bitmap_has_no_old_bits() {
        let mut b = Bitmap::new();
        for _ in 0..8192 { b.append(true); }
        b.clear();
        for _ in 0..9000 { b.append(false); }
        for i in 0..9000 { assert!(!b.is_set(i), "bit {} survived the clear", i); }
    }"""),
 dict(id="c02-clear-all-null", property="C02", edits=[(B, """        self.values.clear();
        if let Some(ref mut validity) = self.validity {
            validity.clear();
        }
""", """        if self.values.is_empty() {
            return;
        }
        self.values.clear();
        if let Some(ref mut validity) = self.validity {
            validity.clear();
        }
""")],
  needs="clearing a buffer that holds only nulls",
  what="PrimitiveBuffer::clear returns early when there are no dense values, so the rows of an all-null buffer survive the clear.",
  demo_file=B, demo="""
    #[test]
    fn cleared_buffer_is_empty() {
        let mut b: Int64Buffer = PrimitiveBuffer::new(true);
        b.append_null();
        b.append_null();
        b.clear();
        b.append(7);
        assert_eq!(b.num_values(), 1);
        assert!(!b.has_nulls());
        assert!(b.validity().unwrap().is_set(0));
    }"""),
 dict(id="c02-has-nulls-narrow", property="C02", edits=[(B, "            Some(ref validity) => validity.len() - self.values.len() != 0,", "            Some(ref validity) => (validity.len() - self.values.len()) as u16 != 0,")],
  needs="a buffer with exactly a multiple of 65536 nulls",
  what="PrimitiveBuffer::has_nulls truncates the number of nulls to 16 bits, so a column with 65536 nulls claims to have none.",
  demo_file=B, demo="""
    #[test]
    fn many_nulls_are_nulls() {
        let mut b: Int32Buffer = PrimitiveBuffer::new(true);
        b.append(1);
        for i in 0..(1 << 17) {
            b.append_null();
            assert!(b.has_nulls(), "{} nulls", i + 1);
        }
    }"""),
 dict(id="c03-clear-empty-strings", property="C03", edits=[(B, """        self.data.clear();
        self.offsets.truncate(1);
""", """        if !self.data.is_empty() {
            self.data.clear();
            self.offsets.truncate(1);
        }
""")],
  needs="clearing a buffer whose non-null rows are all empty strings",
  what="BinaryBuffer::clear keeps the offsets when there is no data, so rows that were empty strings survive the clear.",
  demo_file=B, demo="""
    #[test]
    fn cleared_buffer_has_no_rows() {
        for nullable in [false, true] {
            let mut b = BinaryBuffer::new(nullable);
            b.append(b"");
            b.append(b"");
            b.clear();
            assert_eq!(b.len(), 0);
            assert_eq!(b.num_values(), 0);
            b.append(b"x");
            assert_eq!((b.len(), b.item_len(0)), (1, 1));
        }
    }"""),
 dict(id="c04-clear-validity", property="C04", edits=[(B, """        self.values.clear();
        if let Some(ref mut validity) = self.validity {
            validity.clear();
        };
        self.len = 0;
""", """        let has_nulls = self.has_nulls();
        self.values.clear();
        match self.validity {
            Some(ref mut validity) if has_nulls => validity.clear(),
            _ => {}
        };
        self.len = 0;
""")],
  needs="clearing a nullable boolean buffer that holds rows but no nulls",
  what="BoolBuffer::clear only clears the validity when there are nulls, so the validity of a null-free buffer survives and no longer lines up with the rows.",
  demo_file=B, demo="""
    #[test]
    fn cleared_buffer_is_empty() {
        let mut b = BoolBuffer::new(true);
        b.append(true);
        b.append(false);
        b.clear();
        b.append_null();
        assert_eq!(b.validity().len(), 1);
        assert!(!b.validity().is_set(0));
    }"""),
 dict(id="c05-bytewise-copy", property="C05", edits=[(B, """        while items < num_of_items {
            let bit_value = src.is_set(bit_pos);
            self.append(bit_value);
""", """        while items < num_of_items {
            // copy whole bytes while both sides are aligned.
            if bit_pos & 7 == 0 && self.len & 7 == 0 && bit_pos + 8 <= src.len {
                let byte = src.values[bit_pos >> 3];
                if items + byte.count_ones() as usize <= num_of_items {
                    for bit in 0..8 {
                        self.append(byte & BIT_MASK[bit] != 0);
                    }
                    items += byte.count_ones() as usize;
                    bit_pos += 8;
                    continue;
                }
            }
            let bit_value = src.is_set(bit_pos);
            self.append(bit_value);
""")],
  needs="source and destination both byte aligned, and the last value of the range followed by nulls within its byte",
  what="Bitmap::append_from copies whole aligned bytes and so takes the nulls that follow the last requested value; the returned position is no longer just past that value.",
  demo_file=B, demo="""
    #[test]
    fn copy_stops_after_the_last_value() {
        let mut src: Int32Buffer = PrimitiveBuffer::new(true);
        for i in 0..8 { if i < 3 { src.append(i) } else { src.append_null() } }
        for i in 0..8 { src.append(i); }
        let mut dst: Int32Buffer = PrimitiveBuffer::new(true);
        let pos = dst.append_from(&src, 0, 3, 0);
        assert_eq!(pos, 3);
        assert_eq!(dst.num_values(), 3);
        let pos = dst.append_from(&src, 3, 4, pos);
        assert_eq!((pos, dst.num_values()), (9, 9));
    }"""),
 dict(id="c05-offsets-not-rebased", property="C05", edits=[(B, """        for i in start..end {
            last_item_offset += buf.item_len(i);
            self.offsets.push(last_item_offset);
        }
""", """        if last_item_offset == 0 && self.validity.is_none() {
            // nothing stored yet, the offsets can be copied.
            self.offsets
                .extend_from_slice(&buf.offsets[start + 1..=end]);
        } else {
            for i in start..end {
                last_item_offset += buf.item_len(i);
                self.offsets.push(last_item_offset);
            }
        }
""")],
  needs="copying a range that does not start at the first value into an empty non-nullable destination",
  what="BinaryBuffer::append_from copies the source offsets without rebasing them when the destination is empty, so the copied values have wrong offsets.",
  demo_file=B, demo="""
    #[test]
    fn copied_range_is_readable() {
        let mut src = BinaryBuffer::new(false);
        for v in ["aa", "b", "", "cccc"] { src.append(v.as_bytes()); }
        let mut dst = BinaryBuffer::new(false);
        dst.append_from(&src, 1, 4, 0);
        assert_eq!(dst.offsets(), &[0, 1, 1, 5]);
        assert_eq!(dst.data(), b"bcccc");
    }"""),
 dict(id="c06-nullfree-source", property="C06", edits=[(B, """        if let Some(ref validity_src) = buf.validity {
            let validity_dst = self
                .validity
                .as_mut()
                .expect("trying to append validity on a non-nullable buffer");

            validity_dst.append_from(validity_src, validity_pos, num_values)
        } else {
""", """        if let Some(ref validity_src) = buf.validity {
            let validity_dst = match self.validity {
                Some(ref mut validity) => validity,
                // nothing to track, the source has no nulls.
                None if !buf.has_nulls() => return end,
                None => panic!("trying to append validity on a non-nullable buffer"),
            };

            validity_dst.append_from(validity_src, validity_pos, num_values)
        } else {
""")],
  needs="copying from a nullable buffer that happens to hold no nulls into a non-nullable one",
  what="PrimitiveBuffer::append_from silently accepts rows of a nullable source in a non-nullable buffer when the source has no nulls.",
  demo_file=B, demo="""
    #[test]
    fn nullable_into_non_nullable_is_refused() {
        let mut src: Int32Buffer = PrimitiveBuffer::new(true);
        src.append(1);
        src.append(2);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut dst: Int32Buffer = PrimitiveBuffer::new(false);
            dst.append_from(&src, 0, 2, 0)
        }));
        assert!(r.is_err());
    }"""),
 dict(id="c06-bool-null-first", property="C06", edits=[(B, """        match self.validity {
            Some(ref mut validity) => validity.append(false),
            None => panic!("null append on non-nullable buffer"),
        };
        self.len += 1;
""", """        self.len += 1;
        match self.validity {
            Some(ref mut validity) => validity.append(false),
            None => panic!("null append on non-nullable buffer"),
        };
""")],
  needs="a refused null append on a non-nullable boolean buffer that is used afterwards",
  what="BoolBuffer::append_null counts the row before refusing it, so a refused null append leaves a phantom null row behind.",
  demo_file=B, demo="""
    #[test]
    fn refused_null_changes_nothing() {
        let mut b = BoolBuffer::new(false);
        b.append(true);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.append_null()));
        assert!(r.is_err());
        assert_eq!(b.len(), 1);
        assert!(!b.has_nulls());
    }"""),
 dict(id="c07-check-before-copy", property="C07", edits=[(B, """        let mut last_item_offset = *self.offsets.last().unwrap_or(&0u32);

        for i in start..end {
            last_item_offset += buf.item_len(i);
            self.offsets.push(last_item_offset);
        }

        self.data
            .extend_from_slice(&buf.data()[start_offset as usize..end_offset as usize]);

        assert!(u32::MAX as usize > self.data.len());
""", """        assert!(u32::MAX as usize > self.data.len());

        let base = *self.offsets.last().unwrap_or(&0u32);

        for i in start..end {
            let item_end = buf.offsets[i + 1] - start_offset;
            self.offsets.push(base.wrapping_add(item_end));
        }

        self.data
            .extend_from_slice(&buf.data()[start_offset as usize..end_offset as usize]);
""")],
  needs="a ranged copy that takes a buffer past 4 GiB",
  what="BinaryBuffer::append_from checks the size before copying and wraps the offsets, so a ranged copy can grow the data past what 32-bit offsets address.",
  demo_file=B, demo="""
    #[test]
    fn copy_past_4gib_is_refused() {
        let mut src = BinaryBuffer::new(false);
        src.append(&vec![1u8; 1 << 29]);
        let mut dst = BinaryBuffer::new(false);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for _ in 0..8 { dst.append_from(&src, 0, 1, 0); }
            *dst.offsets().last().unwrap()
        }));
        assert!(r.is_err(), "offset {:?}", r);
    }"""),
 dict(id="c07-row-count-wraps", property="C07", edits=[("src/store/encoding/raw/primitive_enc.rs", """        self.num_rows = self
            .num_rows
            .checked_add((num_rows).try_into().expect("segment overflow"))
            .expect("segment overflow");
""", """        let num_rows: u32 = num_rows.try_into().expect("segment overflow");
        self.num_rows = self.num_rows.wrapping_add(num_rows);
""")],
  needs="a numeric column with more than 2^32 - 1 rows (reachable with nulls)",
  what="The numeric column encoder wraps its 32-bit row count instead of refusing more rows.",
  demo_file="src/store/encoding/raw/primitive_enc.rs", demo="""
    #[test]
    fn more_rows_than_row_ids_are_refused() {
        let mut e: Encoder<i32> = Encoder::new(128, false);
        e.add_rows(u32::MAX as usize - 1);
        e.add_rows(1);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.add_rows(1)));
        assert!(r.is_err());
    }"""),
]
