BUGS = {}

def bug(id, property, needs, breaks, edits, mod=None, demo=None, demo_sh=None):
    b = dict(property=property, needs=needs, breaks=breaks, edits=edits)
    if mod: b['mod'] = mod
    if demo: b['demo'] = demo
    if demo_sh: b['demo_sh'] = demo_sh
    BUGS[id] = b

SINK = r'''
use anyhow::Result;
use async_trait::async_trait;
use crate::store::encoding::{self, BlockEncoder, BlockSink};
use crate::store::indexing_buffer::*;
use crate::store::segment_metadata::Encoding;

#[derive(Default)]
struct Sink {
    blocks: Vec<(u32, Vec<u8>)>,
    fail_at: Option<usize>,
}

#[async_trait]
impl BlockSink for Sink {
    async fn write_block(&mut self, row: u32, data: &[u8]) -> Result<()> {
        if self.fail_at == Some(self.blocks.len()) {
            return Err(anyhow::anyhow!("sink refused"));
        }
        self.blocks.push((row, data.to_vec()));
        Ok(())
    }
}

/// length of the values section of a block
fn data_len(block: &[u8]) -> usize {
    let (mut v, mut shift) = (0usize, 0);
    for b in block {
        v |= ((b & 0x7f) as usize) << shift;
        shift += 7;
        if b & 0x80 == 0 {
            break;
        }
    }
    v
}
'''

bug('rle-unaligned-fast-path', 'C01',
    'a nullable column whose block starts at a row that is not a multiple of 8, with a null within 8 rows of a byte of the validity bitmap that is all ones',
    'the validity of a block copied from the middle of a buffer claims nulls are values: a byte of all ones is copied without checking that the position is byte aligned in the source',
    [('store/indexing_buffer.rs', '''    pub fn is_set(&self, idx: usize) -> bool {
        assert!(idx < self.len);
''', '''    /// Returns the byte holding the bit `idx`.
    pub fn byte_at(&self, idx: usize) -> u8 {
        self.values[idx >> 3]
    }

    pub fn is_set(&self, idx: usize) -> bool {
        assert!(idx < self.len);
'''), ('store/encoding/bitmap_rle.rs', '''        while items < num_valids {
            let bit_value = bitmap.is_set(bit_pos);
            self.put(bit_value);
            items += bit_value as usize;
            bit_pos += 1;
        }
''', '''        while items < num_valids {
            // fast path, copy whole bytes of valid rows.
            if self.bit_pos == 0 && num_valids - items >= 8 && bitmap.byte_at(bit_pos) == 0xFF {
                self.append(0xFF);
                items += 8;
                bit_pos += 8;
            } else {
                let bit_value = bitmap.is_set(bit_pos);
                self.put(bit_value);
                items += bit_value as usize;
                bit_pos += 1;
            }
        }
''')], 'store/encoding/mod.rs', SINK + r'''
#[tokio::test]
async fn second_block_keeps_its_nulls() {
    // 10 values, then rows 10..: block size 40 bytes = 10 i32. The second block starts at row 10.
    let mut buf = Int32Buffer::new(true);
    for i in 0..16 {
        buf.append(i);
    }
    buf.append_null();
    for i in 16..28 {
        buf.append(i);
    }
    buf.append_null();
    buf.append(28);
    let mut sink = Sink::default();
    let mut enc = encoding::new_i32_encoder(Encoding::Raw, 40, true).unwrap();
    enc.encode(&buf, &mut sink).await.unwrap();
    enc.flush(&mut sink).await.unwrap();
    let rows = buf.validity().unwrap().len() as u32;
    assert_eq!(sink.blocks.last().unwrap().0, rows - 1);
    // second block: values 10..20 = rows 10..21, the 7th row is null.
    assert_eq!(sink.blocks[1].0, 20);
    let block = &sink.blocks[1].1;
    let rle = &block[1 + data_len(block)..];
    let mut positions = vec![0u32; 10];
    encoding::bitmap_rle::decode(rle, &mut positions);
    assert_eq!(positions, vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 10]);
}
''')

bug('binary-leftover-empties', 'C02',
    'a write whose leftover holds only empty strings and nulls, followed by a write of at least one whole block',
    'the leftover rows are skipped when the next buffer arrives and come out after its blocks: rows are reordered',
    [('store/encoding/raw/binary_enc.rs', '''        if self.remaining.num_values() > 0 {
            let remaining_size = self.remaining.data().len();

''', '''        let remaining_size = self.remaining.data().len();

        if remaining_size > 0 {
''')], 'store/encoding/mod.rs', SINK + r'''
#[tokio::test]
async fn leading_empties_stay_first() {
    let mut first = BinaryBuffer::new(false);
    first.append(b"");
    first.append(b"");
    let mut second = BinaryBuffer::new(false);
    second.append(b"0123456789");
    let mut sink = Sink::default();
    let mut enc = encoding::new_binary_encoder(Encoding::Raw, 10, false).unwrap();
    enc.encode(&first, &mut sink).await.unwrap();
    enc.encode(&second, &mut sink).await.unwrap();
    enc.flush(&mut sink).await.unwrap();
    assert_eq!(sink.blocks.len(), 1);
    assert_eq!(sink.blocks[0].0, 2);
}
''')

bug('binary-leftover-exact', 'C02',
    'a leftover that a later write fills to exactly the block size, followed by another write',
    'the exactly filled leftover is kept for later and the next write is then dropped whole',
    [('store/encoding/raw/binary_enc.rs', 'if self.remaining.data().len() < self.min_block_size as usize {', 'if self.remaining.data().len() <= self.min_block_size as usize {')],
    'store/encoding/mod.rs', SINK + r'''
#[tokio::test]
async fn exact_fill() {
    let mut sink = Sink::default();
    let mut enc = encoding::new_binary_encoder(Encoding::Raw, 10, false).unwrap();
    for _ in 0..3 {
        let mut buf = BinaryBuffer::new(false);
        buf.append(b"01234");
        enc.encode(&buf, &mut sink).await.unwrap();
    }
    enc.flush(&mut sink).await.unwrap();
    let total: usize = sink.blocks.iter().map(|b| data_len(&b.1)).sum();
    assert_eq!(total, 15);
}
''')

bug('binary-leftover-label', 'C03',
    'a nullable binary column whose leftover block holds a null',
    'the rows of a block made of leftovers are counted without its nulls: its label and all later ones are too small',
    [('store/encoding/raw/binary_enc.rs', '''            &mut self.offset_encoder,
        );

        self.add_rows(result.num_rows);

        sink.write_block(self.num_rows - 1, &self.encoded_data)
            .await?;

        Ok(result)
    }

    fn add_rows''', '''            &mut self.offset_encoder,
        );

        self.add_rows(chunk.len.max(1));

        sink.write_block(self.num_rows - 1, &self.encoded_data)
            .await?;

        Ok(result)
    }

    fn add_rows''')], 'store/encoding/mod.rs', SINK + r'''
#[tokio::test]
async fn label_counts_nulls() {
    let mut buf = BinaryBuffer::new(true);
    buf.append(b"a");
    buf.append_null();
    buf.append(b"b");
    let mut sink = Sink::default();
    let mut enc = encoding::new_binary_encoder(Encoding::Raw, 10, true).unwrap();
    enc.encode(&buf, &mut sink).await.unwrap();
    enc.flush(&mut sink).await.unwrap();
    assert_eq!(sink.blocks[0].0, 2);
}
''')

bug('binary-oversized-leftover-block', 'C04',
    'a binary column written in several buffers, one of which finds a leftover',
    'a leftover is topped up with a whole block more than it needs, so block boundaries depend on how rows were batched',
    [('store/encoding/raw/binary_enc.rs', '''            let remaining_size = self.remaining.data().len();

            let chunk = chunk(buffer, 0, self.min_block_size - remaining_size as u64);
''', '''            let chunk = chunk(buffer, 0, self.min_block_size);
''')], 'store/encoding/mod.rs', SINK + r'''
#[tokio::test]
async fn batching_does_not_move_block_boundaries() {
    let mut one = BinaryBuffer::new(false);
    for _ in 0..12 {
        one.append(b"x");
    }
    let (mut a, mut b) = (Sink::default(), Sink::default());
    let mut enc = encoding::new_binary_encoder(Encoding::Raw, 5, false).unwrap();
    enc.encode(&one, &mut a).await.unwrap();
    enc.flush(&mut a).await.unwrap();
    let mut enc = encoding::new_binary_encoder(Encoding::Raw, 5, false).unwrap();
    let mut three = BinaryBuffer::new(false);
    three.append_from(&one, 0, 3, 0);
    let mut nine = BinaryBuffer::new(false);
    nine.append_from(&one, 0, 9, 0);
    enc.encode(&three, &mut b).await.unwrap();
    enc.encode(&nine, &mut b).await.unwrap();
    enc.flush(&mut b).await.unwrap();
    let sizes = |s: &Sink| s.blocks.iter().map(|b| data_len(&b.1)).collect::<Vec<_>>();
    assert_eq!(sizes(&a), sizes(&b));
}
''')

bug('bool-clear-keeps-validity', 'C05',
    'a nullable boolean buffer cleared while it holds no null and reused',
    'clear only resets the validity bitmap when there are nulls: the next rows get validity bits of the previous ones',
    [('store/indexing_buffer.rs', '''    pub fn clear(&mut self) {
        self.values.clear();
        if let Some(ref mut validity) = self.validity {
            validity.clear();
        };
        self.len = 0;
''', '''    pub fn clear(&mut self) {
        if self.has_nulls() {
            if let Some(ref mut validity) = self.validity {
                validity.clear();
            };
        }
        self.values.clear();
        self.len = 0;
''')], 'store/indexing_buffer.rs', r'''
use super::*;
#[test]
fn reuse_after_clear() {
    let mut b = BoolBuffer::new(true);
    b.append(true);
    b.append(false);
    b.clear();
    b.append_null();
    b.append(true);
    assert_eq!(b.validity().len(), 2);
    assert!(!b.validity().is_set(0));
    assert!(b.validity().is_set(1));
}
''')

bug('copy-skips-empty-strings', 'C06',
    'copying a range of a binary buffer that holds only empty strings',
    'a range without data bytes is taken for an empty range: its empty strings and nulls are lost',
    [('store/indexing_buffer.rs', '''        let start_offset = buf.offsets[start];
        let end_offset = buf.offsets[end];
        let chunk_len = end - start;

        let mut last_item_offset''', '''        let start_offset = buf.offsets[start];
        let end_offset = buf.offsets[end];

        if start_offset == end_offset && end < buf.len() {
            // nothing to copy.
            return validity_pos;
        }

        let chunk_len = end - start;

        let mut last_item_offset'''), ('store/indexing_buffer.rs', '''        for i in start..end {
            last_item_offset += buf.item_len(i);
            self.offsets.push(last_item_offset);
        }
''', '''        for len in (start..end).map(|i| buf.item_len(i)) {
            last_item_offset += len;
            self.offsets.push(last_item_offset);
        }
''')], 'store/indexing_buffer.rs', r'''
use super::*;
#[test]
fn empty_strings_are_copied() {
    let mut src = BinaryBuffer::new(true);
    src.append(b"");
    src.append_null();
    src.append(b"");
    src.append(b"abc");
    let mut dst = BinaryBuffer::new(true);
    let pos = dst.append_from(&src, 0, 2, 0);
    let pos = dst.append_from(&src, 2, 3, pos);
    assert_eq!(pos, 4);
    assert_eq!(dst.num_values(), 4);
    assert_eq!(dst.len(), 3);
}
''')

bug('bitmap-zero-run-skip', 'C07',
    'copying more than a bitmap capacity of zero bits between two byte-aligned bitmaps',
    'whole zero bytes are skipped without growing the destination, whose next append then panics, and bits past the end of the source are counted',
    [('store/indexing_buffer.rs', '''        while items < num_of_items {
            let bit_value = src.is_set(bit_pos);
            self.append(bit_value);
            items += bit_value as usize;
            bit_pos += 1;
        }
''', '''        while items < num_of_items {
            // whole bytes of unset bits don't need to be copied.
            if self.len & 7 == 0 && bit_pos & 7 == 0 && src.values[bit_pos >> 3] == 0 {
                self.len += 8;
                bit_pos += 8;
            } else {
                let bit_value = src.is_set(bit_pos);
                self.append(bit_value);
                items += bit_value as usize;
                bit_pos += 1;
            }
        }
''')], 'store/indexing_buffer.rs', r'''
use super::*;
#[test]
fn sparse_copy() {
    let mut src = Bitmap::new();
    for _ in 0..20000 {
        src.append(false);
    }
    src.append(true);
    let mut dst = Bitmap::new();
    assert_eq!(dst.append_from(&src, 0, 1), 20001);
    assert_eq!(dst.len(), 20001);
    assert!(dst.is_set(20000));
}
''')

bug('rle-clear-partial-byte', 'C08',
    'the encoder reused after flushing a sequence whose length is not a multiple of 8',
    'clear leaves the pending partial byte, whose bits show in the first byte of the next sequence',
    [('store/encoding/bitmap_rle.rs', '''        self.run_start_pos = 0;
        self.byte = 0;
        self.repeat_count = 0;
        self.bit_pos = 0;
''', '''        self.run_start_pos = 0;
        self.repeat_count = 0;
        self.bit_pos = 0;
''')], 'store/encoding/bitmap_rle.rs', r'''
use super::*;
#[test]
fn reuse() {
    let mut e = Encoder::new();
    e.put(true);
    e.put(true);
    e.put(true);
    e.flush();
    e.clear();
    e.put(false);
    e.put(false);
    e.put(true);
    e.flush();
    let mut out = vec![99u32; 8];
    let mut d = Decoder::new(e.encoded_values(), &mut out);
    assert_eq!(d.decode(), 1);
    assert_eq!(out[0], 2);
}
''')

bug('rle-run-counter-width', 'C08',
    'a run of more than 65535 equal bytes (524280 equal bits)',
    'the run counter is 16 bits wide: longer runs lose multiples of 65536 bytes',
    [('store/encoding/bitmap_rle.rs', '''    repeat_count: usize,
    last_value: u8,
    run_start_pos: usize,
    state: State,
}

impl''', '''    repeat_count: u16,
    last_value: u8,
    run_start_pos: usize,
    state: State,
}

impl'''), ('store/encoding/bitmap_rle.rs', '''                self.emit_run(self.repeat_count, self.last_value);
            }
        }
    }

    /// return''', '''                self.emit_run(self.repeat_count as usize, self.last_value);
            }
        }
    }

    /// return'''), ('store/encoding/bitmap_rle.rs', 'if self.repeat_count == MIN_RUN_LEN {', 'if self.repeat_count as usize == MIN_RUN_LEN {'),
     ('store/encoding/bitmap_rle.rs', '''                    self.emit_run(self.repeat_count, self.last_value);
                    self.buffer.push(current_value);
                    self.transition_to_literal();
                } else {
                    self.repeat_count += 1;
''', '''                    self.emit_run(self.repeat_count as usize, self.last_value);
                    self.buffer.push(current_value);
                    self.transition_to_literal();
                } else {
                    self.repeat_count = self.repeat_count.wrapping_add(1);
''')], 'store/encoding/bitmap_rle.rs', r'''
use super::*;
#[test]
fn long_run() {
    let mut e = Encoder::new();
    for _ in 0..70000 * 8 {
        e.put(false);
    }
    e.put(true);
    e.flush();
    let mut out = vec![0u32; 1];
    decode(e.encoded_values(), &mut out);
    assert_eq!(out[0], 70000 * 8);
}
''')

bug('put-varint-one-byte-bound', 'C09',
    'appending exactly the value 128 to a byte vector',
    'the one-byte fast path takes 128 too, which is then stored as a lone continuation byte',
    [('store/encoding/varint.rs', '''        let mut buf = [0u8; MAX_VARINT_LEN];
        let enc_len = encode_varint(value, buf.as_mut_slice());
        self.extend_from_slice(&buf[..enc_len]);
''', '''        if value <= 0x80 {
            self.push(value as u8);
            return;
        }
        let start = self.len();
        self.resize(start + encoded_len_varint(value), 0);
        encode_varint(value, &mut self[start..]);
''')], 'store/encoding/varint.rs', r'''
use super::*;
#[test]
fn put() {
    for v in [0u64, 1, 127, 128, 129, 300, u64::MAX] {
        let mut b = vec![7u8];
        b.put_varint(v);
        b.push(0);
        assert_eq!(decode_varint(&b[1..]).unwrap(), (v, b.len() - 2));
    }
}
''')

bug('varint-overlong-accepted', 'C09',
    'ten bytes with the continuation bit set',
    'a varint whose tenth byte still has its continuation bit is accepted instead of rejected',
    [('store/encoding/varint.rs', '''    if b < 0x02 {
        return Ok((value + (u64::from(part2) << 56), 10));
    };

    // We''', '''    if b < 0x80 || buf.len() == MAX_VARINT_LEN {
        return Ok((value.wrapping_add(u64::from(part2) << 56), 10));
    };

    // We''')], 'store/encoding/varint.rs', r'''
use super::*;
#[test]
fn overlong() {
    assert!(decode_varint(&[0xff; 10]).is_err());
    assert!(decode_varint(&[0x80; 10]).is_err());
    assert!(decode_varint(&[0xff; 12]).is_err());
}
''')

bug('offsets-extra-pack', 'C10',
    'a number of item lengths that is an exact multiple of 128',
    'the padded count is rounded past exact multiples: a whole pack of zeros is added before the validity section',
    [('store/encoding/util.rs', '(num + (factor - 1)) & !(factor - 1)', '(num & !(factor - 1)) + factor')],
    'store/encoding/offsets.rs', r'''
use super::*;
#[test]
fn section_size() {
    for (n, packs) in [(1usize, 1usize), (127, 1), (128, 1), (129, 2), (256, 2)] {
        let mut lens: Vec<u32> = (0..n as u32).map(|i| i % 16).collect();
        lens[0] = 15;
        let mut out = Vec::new();
        OffsetEncoder::new().encode(&mut lens, &mut out);
        assert_eq!(out.len(), 1 + packs * 128 * 4 / 8, "{} lengths", n);
    }
}
''')

bug('layout-key-normalised', 'C11',
    'two columns of a segment whose names differ only in case (or one with upper case letters)',
    'column layouts are keyed by the lower-cased name, so columns lose their layout or share one',
    [('store/segment_writer.rs', '''            .columns_layout
            .insert(self.column_info.name.clone(), column_layout);''', '''            .columns_layout
            .insert(self.column_info.name.to_lowercase(), column_layout);''')],
    'store/segment_writer.rs', r'''
use super::*;
#[tokio::test]
async fn layouts_of_similar_names() {
    let dir = tempfile::tempdir().unwrap();
    let id = Uuid::new_v4();
    let mut w = SegmentWriter::new(&dir, SegmentInfo {
        segment_id: id, database_name: "d".into(), table_name: "t".into(), shard_id: 1, num_rows: 1,
    }).await.unwrap();
    for name in ["host", "Host"] {
        let mut c = w.new_binary_column_writer(ColumnInfo {
            name: name.to_string(), column_type: ColumnType::String, encoding: Encoding::Raw,
            index_type: IndexType::NoIndex, nullable: false,
        }).unwrap();
        let mut b = BinaryBuffer::new(false);
        b.append(name.as_bytes());
        c.write(&b).await.unwrap();
        c.close().await.unwrap();
    }
    w.close().await.unwrap();
    let f = dir.path().join(format!("{}.idx", base64::encode_config(id.as_bytes(), base64::URL_SAFE_NO_PAD)));
    let bytes = std::fs::read(f).unwrap();
    let pos = u64::from_le_bytes(bytes[bytes.len() - 8..].try_into().unwrap()) as usize;
    let m = Metadata::decode(&bytes[pos..bytes.len() - 8]).unwrap();
    let mut names: Vec<_> = m.columns_layout.keys().cloned().collect();
    names.sort();
    assert_eq!(names, vec!["Host".to_string(), "host".to_string()]);
}
use std::convert::TryInto;
''')

bug('block-index-half-clear', 'C12',
    'a segment with two columns, the first of several blocks',
    'clearing the block index for the next column keeps the old offsets, so the labels of the second column pair with offsets of the first',
    [('store/block_index.rs', '''    pub fn clear(&mut self) {
        self.block_row_id.clear();
        self.block_offset.clear();
    }
''', '''    pub fn clear(&mut self) {
        self.block_row_id.clear();
        self.block_offset.truncate(self.block_row_id.len() + 1);
    }
''')], 'store/block_index.rs', r'''
use super::*;
#[test]
fn index_is_per_column() {
    let mut idx = BlockIndex::new();
    idx.index_block(3, 100);
    idx.index_block(7, 200);
    idx.clear();
    idx.index_block(2, 300);
    assert_eq!(idx.block_offset, vec![300]);
    assert_eq!(idx.block_row_id, vec![2]);
}
''')

bug('writer-partial-write', 'C13',
    'a block of more than 16 KiB',
    'a block is handed to the file with write instead of write_all: what does not fit the file buffer in one go is dropped',
    [('store/io/default_block_writer.rs', '''        self.pos += block.len() as u64;
        self.file.write_all(block).await
''', '''        self.pos += block.len() as u64;
        self.file.write(block).await.map(|_| ())
''')], 'store/io/mod.rs', r'''
use super::*;
#[tokio::test]
async fn big_block() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("f");
    let mut w = BlockWriter::new(&p).await.unwrap();
    w.write_block(b"head").await.unwrap();
    w.write_block(&vec![7u8; 5 << 20]).await.unwrap();
    w.write_block(b"tail").await.unwrap();
    w.flush().await.unwrap();
    assert_eq!(std::fs::metadata(&p).unwrap().len(), (5 << 20) + 8);
}
''')

bug('reader-32-bit-position', 'C13',
    'a block that starts past 4 GiB',
    'the read position is computed in 32 bits: blocks past 4 GiB are read from the start of the file',
    [('store/io/unix_disk_block_reader.rs', '''            let buf_len = range.end - range.start;
            let mut buf: Vec<u8> = vec![0; buf_len as usize];
            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
''', '''            let (start, end) = (range.start as u32, range.end as u32);
            let mut buf: Vec<u8> = vec![0; end.wrapping_sub(start) as usize];
            file.read_exact_at(buf.as_mut_slice(), start.into())
                .map(|_| buf)
''')], 'store/io/mod.rs', r'''
use super::*;
use std::os::unix::fs::FileExt;
#[tokio::test]
async fn far_block() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("f");
    let f = std::fs::File::create(&p).unwrap();
    let at = (4u64 << 30) + 5;
    f.set_len(at + 100).unwrap();
    f.write_all_at(b"far away", at).unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    let b = r.read_block(BlockRange { start: at, end: at + 8 }).await.unwrap();
    assert_eq!(&b[..], b"far away");
}
''')

FSIZE_DEMO = r'''#!/bin/bash
# Runs demo.rs (a unit test in a scratch copy) with files limited to 1 KiB.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
D="$(mktemp -d)"
trap 'rm -rf "${D:?}"' EXIT
cp -a . "$D/repo" || exit 99
cp "$HERE/demo.rs" "$D/demo.rs" || exit 99
export TMPDIR="$D"
printf '\n#[cfg(test)]\n#[path = "%s"]\nmod zz_demo;\n' "$D/demo.rs" >> "$D/repo/src/store/segment_writer.rs"
cd "$D/repo" || exit 99
timeout 250 cargo test --offline --locked --bin meerkat --no-run > "$D/log" 2>&1 || { tail "$D/log"; exit 1; }
BIN="$(sed -n 's/.*Executable.*(\(.*\)).*/\1/p' "$D/log" | tail -1)"
out="$( (trap '' XFSZ; ulimit -f 1; exec "$BIN" zz_demo --test-threads 1) 2>&1 | cat)"
echo "$out" | tail -n 20
echo "$out" | grep -Eq 'test result: ok\. [1-9]'
'''

bug('close-ignores-index-flush', 'C14',
    'the device filling up on the very last write of the index file',
    'the outcome of flushing the index file is dropped, and with it the failure of its footer write: close succeeds on a truncated file',
    [('store/segment_writer.rs', '''        self.index_writer
            .flush()
            .await
            .context("cannot flush index file")?;
        self.data_writer
''', '''        let index_flushed = self.index_writer.flush().await;
        self.data_writer
'''), ('store/segment_writer.rs', '''            .flush()
            .await
            .context("cannot flush data file")
''', '''            .flush()
            .await
            .or(index_flushed)
            .context("cannot flush data file")
''')], demo_sh=FSIZE_DEMO, demo=r'''
use super::*;
#[tokio::test]
async fn full_device() {
    let dir = tempfile::tempdir().unwrap();
    let mut refused = 0;
    for len in 900..1010 {
        let id = Uuid::new_v4();
        let mut w = SegmentWriter::new(&dir, SegmentInfo {
            segment_id: id, database_name: "d".repeat(len), table_name: "t".into(), shard_id: 1, num_rows: 1,
        }).await.unwrap();
        let closed = w.close().await;
        drop(w);
        let f = dir.path().join(format!("{}.idx", base64::encode_config(id.as_bytes(), base64::URL_SAFE_NO_PAD)));
        let bytes = std::fs::read(&f).unwrap();
        match closed {
            Err(_) => refused += 1,
            Ok(()) => {
                let footer: [u8; 8] = bytes[bytes.len() - 8..].try_into().unwrap();
                assert_eq!(u64::from_le_bytes(footer), 12, "close succeeded on a file of {} bytes", bytes.len());
            }
        }
        std::fs::remove_file(&f).unwrap();
    }
    assert!(refused > 0);
}
use std::convert::TryInto;
''')

bug('reader-zero-fills-short-read', 'C15',
    'a file truncated after it was opened',
    'the hand-written read loop stops at the end of the file and returns the rest of the buffer as zeros instead of an error',
    [('store/io/unix_disk_block_reader.rs', '''            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
''', '''            let mut done = 0;
            while done < buf.len() {
                match file.read_at(&mut buf[done..], range.start + done as u64) {
                    Ok(0) => break,
                    Ok(n) => done += n,
                    Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                    Err(e) => return Err(e),
                }
            }
            Ok(buf)
''')], 'store/io/mod.rs', r'''
use super::*;
#[tokio::test]
async fn truncated() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("f");
    std::fs::write(&p, vec![9u8; 1000]).unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    std::fs::OpenOptions::new().write(true).open(&p).unwrap().set_len(500).unwrap();
    assert!(r.read_block(BlockRange { start: 400, end: 600 }).await.is_err());
    assert_eq!(r.read_block(BlockRange { start: 400, end: 500 }).await.unwrap().len(), 100);
}
''')

bug('reader-stops-at-first-error', 'C15',
    'a batch of reads one of which, not the last, fails',
    'a batch ends after its first failing read: later requests get no result',
    [('store/io/unix_disk_block_reader.rs', '''            .buffered(BLOCK_BUFFER_SIZE)
            .map(|op_result| match op_result.0 {
''', '''            .buffered(BLOCK_BUFFER_SIZE)
            .scan(false, |failed, op_result| {
                let next = if *failed { None } else { Some(()) };
                *failed = op_result.0.is_err();
                async move { next.map(|_| op_result) }
            })
            .map(|op_result| match op_result.0 {
''')  , ('store/io/unix_disk_block_reader.rs', '''                Ok(buf) => Ok(Block {
                    buf: buf,
                    op_info: op_result.1.op_info,
                }),
''', '''                Ok(buf) => Ok(Block {
                    op_info: op_result.1.op_info,
                    buf,
                }),
''')], 'store/io/mod.rs', r'''
use super::*;
use futures::StreamExt;
#[tokio::test]
async fn one_bad_range() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("f");
    std::fs::write(&p, vec![9u8; 1000]).unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    let op = |start, end| ReadOp { block_range: BlockRange { start, end }, op_info: OpInfo::IndexBlock };
    let n = r.read_blocks(vec![op(0, 10), op(990, 1010), op(10, 20), op(20, 30)]).collect::<Vec<_>>().await.len();
    assert_eq!(n, 4);
}
''')

bug('close-leaves-data-in-flight', 'C16',
    'a slow write of the last data block',
    'close no longer waits for the data file: it reports success while the last block is still being written',
    [('store/segment_writer.rs', '''            .context("cannot write index footer")?;

        self.index_writer
            .flush()
            .await
            .context("cannot flush index file")?;
        self.data_writer
            .flush()
            .await
            .context("cannot flush data file")
''', '''            .context("cannot write index footer")?;

        // the data file is flushed by `sync()`
        self.index_writer
            .flush()
            .await
            .context("cannot flush index file")
''')], 'store/segment_writer.rs', r'''
use super::*;
use std::io::Read;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

// The data file is a pipe read after a delay: close has to wait for the reader.
#[tokio::test(flavor = "multi_thread", worker_threads = 4)]
async fn close_waits() {
    let dir = tempfile::tempdir().unwrap();
    let id = Uuid::new_v4();
    let name = base64::encode_config(id.as_bytes(), base64::URL_SAFE_NO_PAD);
    let data = dir.path().join(format!("{}.dat", name));
    assert!(std::process::Command::new("mkfifo").arg(&data).status().unwrap().success());
    let consumed = Arc::new(AtomicUsize::new(0));
    let c = consumed.clone();
    let reader = std::thread::spawn(move || {
        let mut f = std::fs::File::open(&data).unwrap();
        std::thread::sleep(std::time::Duration::from_secs(2));
        let mut b = vec![0u8; 4096];
        loop {
            let n = f.read(&mut b).unwrap();
            if n == 0 { break; }
            c.fetch_add(n, Ordering::SeqCst);
        }
    });
    let mut w = SegmentWriter::new(&dir, SegmentInfo {
        segment_id: id, database_name: "d".into(), table_name: "t".into(), shard_id: 1, num_rows: 1,
    }).await.unwrap();
    {
        let mut c = w.new_binary_column_writer(ColumnInfo {
            name: "c".to_string(), column_type: ColumnType::String, encoding: Encoding::Raw,
            index_type: IndexType::NoIndex, nullable: false,
        }).unwrap();
        let mut b = BinaryBuffer::new(false);
        // a pipe holds 64 KiB: the last piece of the block waits for the reader
        b.append(&vec![1u8; 63 << 10]);
        c.write(&b).await.unwrap();
        c.close().await.unwrap();
    }
    w.close().await.unwrap();
    let got = consumed.load(Ordering::SeqCst);
    drop(w);
    reader.join().unwrap();
    assert!(got > 0, "close returned after {} bytes", got);
}
''')

bug('sync-skips-empty-data', 'C16',
    'a segment closed without any column block',
    'the data file of a segment without blocks, which still holds its signature, is not synced',
    [('store/segment_writer.rs', '''        self.data_writer
            .sync()
            .await
            .context("cannot sync data file")
''', '''        if self.data_writer.pos() == DATA_FILE_SIGNATURE.len() as u64 {
            return Ok(());
        }
        self.data_writer
            .sync()
            .await
            .context("cannot sync the data file")
''')], 'store/segment_writer.rs', r'''
use super::*;
// /dev/null takes writes and refuses to be synced
#[tokio::test]
async fn sync_error_is_reported() {
    let dir = tempfile::tempdir().unwrap();
    let id = Uuid::new_v4();
    let name = base64::encode_config(id.as_bytes(), base64::URL_SAFE_NO_PAD);
    std::os::unix::fs::symlink("/dev/null", dir.path().join(format!("{}.dat", name))).unwrap();
    let mut w = SegmentWriter::new(&dir, SegmentInfo {
        segment_id: id, database_name: "d".into(), table_name: "t".into(), shard_id: 1, num_rows: 1,
    }).await.unwrap();
    w.close().await.unwrap();
    assert!(w.sync().await.is_err());
}
''')

bug('leftover-sink-error-dropped', 'C17',
    'the sink rejecting the block made of a leftover, in a write whose remaining rows become the next leftover',
    'the failure of the leftover block is only reported after the rest of the buffer was encoded, and forgotten when that ends in a new leftover',
    [('store/encoding/raw/primitive_enc.rs', '''            self.write_remaining(sink).await?;

            self.remaining.clear();
        }

        while''', '''            written = self.write_remaining(sink).await.map(|_| ());

            self.remaining.clear();
        }

        while'''), ('store/encoding/raw/primitive_enc.rs', '''        let mut buf_pos = 0;
        let mut validity_pos = 0;

        if''', '''        let mut buf_pos = 0;
        let mut validity_pos = 0;
        let mut written = Ok(());

        if'''), ('store/encoding/raw/primitive_enc.rs', '''            }
        }

        Ok(())
    }

    async fn flush''', '''            }
        }

        written
    }

    async fn flush''')], 'store/encoding/mod.rs', SINK + r'''
#[tokio::test]
async fn refused_leftover() {
    let mut sink = Sink::default();
    sink.fail_at = Some(0);
    let mut enc = encoding::new_i32_encoder(Encoding::Raw, 20, false).unwrap();
    let mut a = Int32Buffer::new(false);
    for i in 0..3 {
        a.append(i);
    }
    enc.encode(&a, &mut sink).await.unwrap();
    assert!(enc.encode(&a, &mut sink).await.is_err());
}
''')

bug('dictionary-falls-back-to-raw', 'C18',
    'a binary column asked for with dictionary encoding',
    'an encoding that does not exist yet silently falls back to raw, while the metadata says dictionary',
    [('store/encoding/mod.rs', '''        Encoding::Raw => Ok(Box::new(raw::binary_enc::Encoder::new(
            block_size, nullable,
        ))),
        _ => Err(anyhow!("invalid encoder for binary data {:?}", encoder)),
''', '''        Encoding::Raw | Encoding::RleDictionary => Ok(Box::new(raw::binary_enc::Encoder::new(
            block_size, nullable,
        ))),
        _ => Err(anyhow!("invalid encoder for binary data {:?}", encoder)),
''')], 'store/encoding/mod.rs', SINK + r'''
use crate::store::segment_metadata::column_layout::EncoderLayout;
#[tokio::test]
async fn honoured_or_refused() {
    let mut sink = Sink::default();
    let mut b = BinaryBuffer::new(false);
    b.append(b"x");
    if let Ok(mut e) = encoding::new_binary_encoder(Encoding::RleDictionary, 10, false) {
        e.encode(&b, &mut sink).await.unwrap();
        let layout = e.flush(&mut sink).await.unwrap();
        assert!(matches!(layout, EncoderLayout::BinaryDict(_)));
    }
}
''')

bug('refused-column-leaves-metadata', 'C18',
    'a column refused for its encoding, followed by the close of the segment',
    'the column is recorded in the segment metadata before its encoding is checked: a refused column shows up in the index file',
    [('store/segment_writer.rs', '''        self.block_index.clear();

        let encoder =
            encoding::new_binary_encoder(column_info.encoding, BLOCK_SIZE, column_info.nullable)?;
''', '''        self.block_index.clear();

        // reserve the column slot, stats are filled once the column is closed.
        self.segment_meta
            .segment_meta
            .as_mut()
            .unwrap()
            .columns_meta
            .entry(column_info.name.clone())
            .or_insert_with(|| segment_metadata::ColumnMeta {
                name: column_info.name.clone(),
                nullable: column_info.nullable,
                ..Default::default()
            });

        let encoding = column_info.encoding;
        let encoder = encoding::new_binary_encoder(encoding, BLOCK_SIZE, column_info.nullable)?;
''')], 'store/segment_writer.rs', r'''
use super::*;
#[tokio::test]
async fn no_trace() {
    let dir = tempfile::tempdir().unwrap();
    let mut w = SegmentWriter::new(&dir, SegmentInfo {
        segment_id: Uuid::new_v4(), database_name: "d".into(), table_name: "t".into(), shard_id: 1, num_rows: 1,
    }).await.unwrap();
    let r = w.new_binary_column_writer(ColumnInfo {
        name: "c".to_string(), column_type: ColumnType::String, encoding: Encoding::BitPacked,
        index_type: IndexType::NoIndex, nullable: false,
    });
    assert!(r.is_err());
    drop(r);
    assert!(w.segment_meta.segment_meta.as_ref().unwrap().columns_meta.is_empty());
}
''')

CLI = r'''#!/bin/bash
# Runs the built binary. exit 0: bad settings stop it.
set -u
unset MK_DB_PATH MK_GOSSIP_PORT MK_SEEDS
M="$PWD/target/debug/meerkat"
D="$(mktemp -d)"
trap 'rm -rf "${D:?}"' EXIT
cd "$D" || exit 99
'''

bug('port-wraps', 'C19',
    'a port past 65535 given by flag or environment',
    'the port is parsed in 32 bits and cut to 16: 65536 + n starts the server on port n',
    [('main.rs', '    gossip_port: u16,\n', '    gossip_port: u32,\n'),
     ('main.rs', '        gossip_port: args.gossip_port,\n', '        gossip_port: args.gossip_port as u16,\n')],
    demo_sh=CLI + r'''
timeout 20 "$M" --db-path "$D" --gossip-port 7775 || exit 1
timeout 20 "$M" --db-path "$D" --gossip-port 73311 && exit 1
MK_GOSSIP_PORT=65536 timeout 20 "$M" --db-path "$D" && exit 1
exit 0
''')

bug('db-path-utf8-only', 'C19',
    'a data directory whose name is not valid UTF-8',
    'the data directory is parsed from text: paths the system accepts are refused',
    [('main.rs', '    #[structopt(long, env = "MK_DB_PATH", parse(from_os_str))]\n', '    #[structopt(long, env = "MK_DB_PATH")]\n')],
    demo_sh=CLI + r'''
timeout 20 "$M" --db-path "$D" || exit 1
timeout 20 "$M" --db-path "$D/"$'\xff\xfe' || exit 1
exit 0
''')

bug('row-count-wraps', 'C20',
    'a column of more than 2^32 - 1 rows',
    'the row counter wraps: the block that crosses 2^32 rows is given a small label instead of being refused',
    [('store/encoding/raw/primitive_enc.rs', '''        self.num_rows = self
            .num_rows
            .checked_add((num_rows).try_into().expect("segment overflow"))
            .expect("segment overflow");
''', '''        let num_rows: u32 = num_rows.try_into().expect("segment overflow");
        self.num_rows = self.num_rows.wrapping_add(num_rows);
''')], 'store/encoding/raw/primitive_enc.rs', r'''
use super::*;
use crate::store::encoding::test::SinkMock;
#[tokio::test]
#[should_panic]
async fn too_many_rows() {
    let mut sink = SinkMock::new();
    let mut e: Encoder<i32> = Encoder::new(12, false);
    e.num_rows = u32::MAX - 1;
    let mut b = PrimitiveBuffer::new(false);
    for i in 0..4 {
        b.append(i);
    }
    let _ = e.encode(&b, &mut sink).await;
}
''')

bug('binary-offset-wraps', 'C20',
    'a binary buffer that grows past 4 GiB - 1 by one append',
    'the offset of an item is cut to 32 bits instead of refused',
    [('store/indexing_buffer.rs', '''        let value_offset: u32 = self.data.len().try_into().expect("BinaryBuffer overflow");
        self.offsets.push(value_offset);
''', '''        let value_offset = self.item_end(value.len());
        self.offsets.push(value_offset);
'''), ('store/indexing_buffer.rs', '''    pub fn item_len(&self, idx: usize) -> u32 {
''', '''    /// Returns the end offset of an item appended after the existing ones.
    fn item_end(&self, item_len: usize) -> u32 {
        let item_len: u32 = item_len.try_into().expect("BinaryBuffer overflow");
        let last = *self.offsets.last().unwrap_or(&0u32);
        last.wrapping_add(item_len)
    }

    pub fn item_len(&self, idx: usize) -> u32 {
''')], 'store/indexing_buffer.rs', r'''
use super::*;
#[test]
#[should_panic]
fn past_4_gib() {
    let mut b = BinaryBuffer::new(false);
    b.data = vec![0u8; u32::MAX as usize];
    b.offsets.push(u32::MAX);
    b.append(b"x");
}
''')

bug('shared-offset-width', 'C21',
    'two segments in one process, the second with narrower items than the first',
    'the widest bit width seen so far is remembered for the whole process: what one segment stores depends on the others',
    [('store/encoding/offsets.rs', '''        dst.push(num_bits);

''', '''        // avoid switching widths back and forth.
        let num_bits = num_bits.max(LAST_WIDTH.load(Ordering::Relaxed) & !7);
        LAST_WIDTH.store(num_bits, Ordering::Relaxed);

        dst.push(num_bits);
'''), ('store/encoding/offsets.rs', '''use bitpacking::{BitPacker, BitPacker4x};
''', '''use std::sync::atomic::{AtomicU8, Ordering};

use bitpacking::{BitPacker, BitPacker4x};
'''), ('store/encoding/offsets.rs', '''pub struct OffsetEncoder {
    bitpacker''', '''static LAST_WIDTH: AtomicU8 = AtomicU8::new(0);

pub struct OffsetEncoder {
    bitpacker''')], 'store/encoding/offsets.rs', r'''
use super::*;
#[test]
fn encoders_are_independent() {
    let alone = { let mut v = Vec::new(); OffsetEncoder::new().encode(&mut vec![3, 2], &mut v); v };
    let mut other = Vec::new();
    OffsetEncoder::new().encode(&mut vec![1 << 20], &mut other);
    let again = { let mut v = Vec::new(); OffsetEncoder::new().encode(&mut vec![3, 2], &mut v); v };
    assert_eq!(alone, again);
}
''')

# ---- second batch

bug('stale-file-kept', 'C11',
    'a segment written over files of the same id left by an earlier, longer attempt',
    'the files are opened without truncation: the end of a previous file survives and the footer is not at the end',
    [('store/io/default_block_writer.rs', '''        let file = File::create(path).await?;
''', '''        let file = OpenOptions::new()
            .write(true)
            .create(true)
            .open(path)
            .await?;
'''), ('store/io/default_block_writer.rs', 'use tokio::fs::File;', 'use tokio::fs::{File, OpenOptions};')],
    'store/io/mod.rs', r'''
use super::*;
#[tokio::test]
async fn rewritten() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("f");
    std::fs::write(&p, vec![9u8; 1000]).unwrap();
    let mut w = BlockWriter::new(&p).await.unwrap();
    w.write_block(b"new").await.unwrap();
    w.flush().await.unwrap();
    assert_eq!(std::fs::read(&p).unwrap(), b"new");
}
''')

bug('reader-shared-cursor', 'C13',
    'two read streams of one reader polled concurrently',
    'reads move the shared file cursor; one read at a time per stream keeps a lone stream right, two streams get each other\'s bytes',
    [('store/io/unix_disk_block_reader.rs', '''            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
''', '''            let mut cursor = &*file;
            cursor.seek(SeekFrom::Start(range.start))?;
            cursor.read_exact(buf.as_mut_slice()).map(|_| buf)
'''), ('store/io/unix_disk_block_reader.rs', 'const BLOCK_BUFFER_SIZE: usize = 2;', 'const BLOCK_BUFFER_SIZE: usize = 1;'),
     ('store/io/unix_disk_block_reader.rs', '''use std::io;
use std::os::unix::fs::FileExt;
''', '''use std::io;
use std::io::{Read, Seek, SeekFrom};
''')], 'store/io/mod.rs', r'''
use super::*;
use futures::StreamExt;
#[tokio::test(flavor = "multi_thread", worker_threads = 4)]
async fn two_streams() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("f");
    let bytes: Vec<u8> = (0..1u32 << 18).flat_map(|i| i.to_le_bytes()).collect();
    std::fs::write(&p, &bytes).unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    let batch = |seed: u64| (0..3000u64).map(move |i| {
        let start = (i * 7919 + seed * 104729) % (1 << 19);
        ReadOp { block_range: BlockRange { start, end: start + 100 + i % 5000 }, op_info: OpInfo::IndexBlock }
    }).collect::<Vec<_>>();
    let (a, b) = (batch(1), batch(2));
    let (x, y) = futures::join!(r.read_blocks(a.clone()).collect::<Vec<_>>(), r.read_blocks(b.clone()).collect::<Vec<_>>());
    for (ops, got) in [(a, x), (b, y)] {
        for (op, g) in ops.iter().zip(got) {
            let g = g.unwrap();
            assert!(g.buf[..] == bytes[op.block_range.start as usize..op.block_range.end as usize]);
        }
    }
}
''')

bug('reader-repeated-range', 'C13',
    'the same range requested twice in a row with different tags',
    'a range equal to the previous one is answered with the previous result, tag included',
    [('store/io/unix_disk_block_reader.rs', '''        iter(read_ops)
            .map(move''', '''        let mut read_ops = read_ops;
        // read a repeated block only once
        for i in 1..read_ops.len() {
            if read_ops[i - 1].block_range.start == read_ops[i].block_range.start
                && read_ops[i - 1].block_range.end == read_ops[i].block_range.end
            {
                read_ops[i] = read_ops[i - 1].clone();
            }
        }

        iter(read_ops)
            .map(move'''), ('store/io/unix_disk_block_reader.rs', '''                Ok(buf) => Ok(Block {
                    buf: buf,
''', '''                Ok(buf) => Ok(Block {
                    buf,
''')], 'store/io/mod.rs', r'''
use super::*;
use futures::StreamExt;
#[tokio::test]
async fn tags() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("f");
    std::fs::write(&p, vec![9u8; 1000]).unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    let op = |n| ReadOp { block_range: BlockRange { start: 5, end: 10 }, op_info: OpInfo::DataBlock { first_row_id: n } };
    let got = r.read_blocks(vec![op(1), op(2)]).collect::<Vec<_>>().await;
    let tags: Vec<_> = got.into_iter().map(|b| b.unwrap().op_info).collect();
    assert_eq!(tags, vec![OpInfo::DataBlock { first_row_id: 1 }, OpInfo::DataBlock { first_row_id: 2 }]);
}
''')

bug('writer-position-32-bit', 'C12',
    'a segment whose data file grows past 4 GiB',
    'the writer position is kept in 32 bits: block offsets past 4 GiB are cut',
    [('store/io/default_block_writer.rs', '''    file: File,
    pos: u64,
''', '''    file: File,
    pos: std::num::Wrapping<u32>,
'''), ('store/io/default_block_writer.rs', 'Ok(Self { file: file, pos: 0 })', '''Ok(Self {
            file,
            pos: Default::default(),
        })'''), ('store/io/default_block_writer.rs', 'self.pos += block.len() as u64;', 'self.pos += std::num::Wrapping(block.len() as u32);'),
     ('store/io/default_block_writer.rs', '''        self.pos
    }''', '''        u64::from(self.pos.0)
    }''')], 'store/io/mod.rs', r'''
use super::*;
#[tokio::test]
async fn far() {
    let mut w = BlockWriter::new("/dev/null").await.unwrap();
    let block = vec![0u8; 1 << 26];
    for _ in 0..66 {
        w.write_block(&block).await.unwrap();
    }
    assert_eq!(w.pos(), 66 << 26);
}
''')

SHIM = r'''#!/bin/bash
# Runs demo.rs (a unit test in a scratch copy) with a preloaded library that makes the
# @N@th write to a file named *.@EXT@ fail once with EIO.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
D="$(mktemp -d)"
trap 'rm -rf "${D:?}"' EXIT
cp -a . "$D/repo" || exit 99
cp "$HERE/demo.rs" "$D/demo.rs" || exit 99
export TMPDIR="$D"
cat > "$D/shim.c" <<'C'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
static int count;
ssize_t write(int fd, const void *buf, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    char link[64], path[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(link, path, sizeof path - 1);
    if (l > 4 && !memcmp(path + l - 4, ".@EXT@", 4) && __atomic_add_fetch(&count, 1, __ATOMIC_SEQ_CST) == @N@) {
        errno = EIO;
        return -1;
    }
    return real(fd, buf, n);
}
C
gcc -shared -fPIC -o "$D/shim.so" "$D/shim.c" -ldl || exit 99
printf '\n#[cfg(test)]\n#[path = "%s"]\nmod zz_demo;\n' "$D/demo.rs" >> "$D/repo/src/@MOD@"
cd "$D/repo" || exit 99
timeout 250 cargo test --offline --locked --bin meerkat --no-run > "$D/log" 2>&1 || { tail "$D/log"; exit 1; }
BIN="$(sed -n 's/.*Executable.*(\(.*\)).*/\1/p' "$D/log" | tail -1)"
out="$(LD_PRELOAD="$D/shim.so" "$BIN" zz_demo --test-threads 1 2>&1)"
echo "$out" | tail -n 20
echo "$out" | grep -Eq 'test result: ok\. [1-9]'
'''

bug('writer-retries-wrong-block', 'C14',
    'one write failing once in the middle of a file, the next ones succeeding',
    'a failed write is retried once, but the error belongs to the previous block, whose write runs in the background: that block is lost without an error',
    [('store/io/default_block_writer.rs', '''        self.pos += block.len() as u64;
        self.file.write_all(block).await
''', '''        self.pos += block.len() as u64;
        // retry once on transient errors
        if self.file.write_all(block).await.is_err() {
            return self.file.write_all(block).await;
        }
        Ok(())
''')], demo_sh=SHIM.replace('@N@', '2').replace('@EXT@', 'dat').replace('@MOD@', 'store/io/mod.rs'), demo=r'''
use super::*;
#[tokio::test]
async fn one_failure() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("f.dat");
    let mut w = BlockWriter::new(&p).await.unwrap();
    let mut failed = false;
    for b in [b"aaaa", b"bbbb", b"cccc", b"dddd"] {
        failed |= w.write_block(b).await.is_err();
    }
    failed |= w.flush().await.is_err();
    assert!(failed || std::fs::read(&p).unwrap() == b"aaaabbbbccccdddd");
}
''')

bug('index-sync-error-dropped', 'C16',
    'forcing the index file to disk failing while the data file succeeds',
    'the outcome of syncing the index file is dropped when the data file syncs',
    [('store/segment_writer.rs', '''        self.index_writer
            .sync()
            .await
            .context("cannot sync index file")?;
        self.data_writer
            .sync()
            .await
            .context("cannot sync data file")
''', '''        let (index, data) = futures::join!(self.index_writer.sync(), self.data_writer.sync());
        data.or(index).context("cannot sync segment files")
''')], 'store/segment_writer.rs', r'''
use super::*;
// /dev/null takes writes and refuses to be synced
#[tokio::test]
async fn sync_error_is_reported() {
    for ext in ["dat", "idx"] {
        let dir = tempfile::tempdir().unwrap();
        let id = Uuid::new_v4();
        let name = base64::encode_config(id.as_bytes(), base64::URL_SAFE_NO_PAD);
        std::os::unix::fs::symlink("/dev/null", dir.path().join(format!("{}.{}", name, ext))).unwrap();
        let mut w = SegmentWriter::new(&dir, SegmentInfo {
            segment_id: id, database_name: "d".into(), table_name: "t".into(), shard_id: 1, num_rows: 1,
        }).await.unwrap();
        w.close().await.unwrap();
        assert!(w.sync().await.is_err(), "{}", ext);
    }
}
''')

bug('binary-flush-error-logged', 'C17',
    'the sink rejecting the last, partial block of a binary column',
    'flush logs the failure of the leftover block and succeeds',
    [('store/encoding/raw/binary_enc.rs', '''            self.write_remaining(sink).await?;
        }

        Ok(EncoderLayout::Plain(NoLayout {}))''', '''            if let Err(err) = self.write_remaining(sink).await {
                tracing::error!("cannot write the last block: {}", err);
            }
        }

        Ok(EncoderLayout::Plain(NoLayout {}))''')], 'store/encoding/mod.rs', SINK + r'''
#[tokio::test]
async fn refused_last_block() {
    let mut sink = Sink::default();
    sink.fail_at = Some(0);
    let mut enc = encoding::new_binary_encoder(Encoding::Raw, 20, false).unwrap();
    let mut a = BinaryBuffer::new(false);
    a.append(b"x");
    enc.encode(&a, &mut sink).await.unwrap();
    assert!(enc.flush(&mut sink).await.is_err());
}
''')

bug('binary-continues-after-refusal', 'C17',
    'the sink rejecting one block in the middle of a write of several blocks',
    'encoding goes on after a rejected block and reports the error at the end: blocks after the missing one are accepted, so what was accepted is not a prefix',
    [('store/encoding/raw/binary_enc.rs', '''            let result = self.write_block(buffer, &chunk, validity_pos, sink).await?;

            buf_pos''', '''            let result = match self.write_block(buffer, &chunk, validity_pos, sink).await {
                Ok(result) => result,
                Err(err) if buf_pos == 0 || chunk.end_pos == buffer.len() => return Err(err),
                Err(_) => self.write_block(buffer, &chunk, validity_pos, sink).await?,
            };

            buf_pos''')], 'store/encoding/mod.rs', SINK + r'''
#[tokio::test]
async fn refused_in_the_middle() {
    // the sink refuses once
    struct Once(Sink, bool);
    #[async_trait]
    impl BlockSink for Once {
        async fn write_block(&mut self, row: u32, data: &[u8]) -> Result<()> {
            if self.0.blocks.len() == 1 && !self.1 {
                self.1 = true;
                return Err(anyhow::anyhow!("refused"));
            }
            self.0.write_block(row, data).await
        }
    }
    let mut sink = Once(Sink::default(), false);
    let mut enc = encoding::new_binary_encoder(Encoding::Raw, 2, false).unwrap();
    let mut a = BinaryBuffer::new(false);
    for _ in 0..5 {
        a.append(b"xx");
    }
    assert!(enc.encode(&a, &mut sink).await.is_err());
}
''')

bug('float-bitpacked-accepted', 'C18',
    'a 64-bit float column asked for with the bit-packed encoding',
    'bit packing is accepted for floats and stored raw',
    [('store/encoding/mod.rs', '''        Encoding::Raw => Ok(Box::new(raw::primitive_enc::Encoder::new(
            block_size, nullable,
        ))),
        _ => Err(anyhow!("invalid encoder for f64 data {:?}", encoder)),''', '''        Encoding::Raw | Encoding::BitPacked => Ok(Box::new(raw::primitive_enc::Encoder::new(
            block_size, nullable,
        ))),
        _ => Err(anyhow!("invalid encoder for f64 data {:?}", encoder)),''')], 'store/encoding/mod.rs', SINK + r'''
#[test]
fn refused() {
    assert!(encoding::new_f64_encoder::<Sink>(Encoding::BitPacked, 10, false).is_err());
}
''')

CLI_DUMP = r'''#!/bin/bash
# Builds the binary with its configuration dump in a scratch copy and looks at the seeds.
set -u
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR MK_DB_PATH MK_GOSSIP_PORT MK_SEEDS
D="$(mktemp -d)"
trap 'rm -rf "${D:?}"' EXIT
cp -a . "$D/repo" || exit 99
cd "$D/repo" || exit 99
timeout 280 cargo rustc --offline --locked --bin meerkat -- --cfg meerkat_verif > "$D/log" 2>&1 || { tail "$D/log"; exit 99; }
M="$D/repo/target/debug/meerkat"
'''

bug('seeds-deduplicated', 'C19',
    'a seed list that names the same host twice with another in between, or in unsorted order',
    'the seed list is sorted and deduplicated: entries lose their order',
    [('main.rs', '''            .map(|s| s.trim().to_string())
            .filter(|s| !s.is_empty())
            .collect(),
''', '''            .map(|s| s.trim().to_owned())
            .filter(|s| !s.is_empty())
            .collect::<std::collections::BTreeSet<_>>()
            .into_iter()
            .collect(),
''')], demo_sh=CLI_DUMP + r'''
got="$("$M" --db-path /x --seeds 'b, a,b' | grep -c 'VERIF seed')"
[ "$got" = 3 ] || exit 1
exit 0
''')

bug('seeds-trim-ascii-space', 'C19',
    'a seed list with a tab or newline around an entry',
    'only plain spaces are trimmed around entries',
    [('main.rs', '.map(|s| s.trim().to_string())', ".map(|s| s.trim_matches(' ').to_string())")],
    demo_sh=CLI_DUMP + r'''
got="$("$M" --db-path /x --seeds $'b\t, a,\nc' | grep 'VERIF seed' | tr -d ' \n')"
[ "$got" = 'VERIFseed[98]VERIFseed[97]VERIFseed[99]' ] || { echo "$got"; exit 1; }
exit 0
''')

bug('copy-offset-wraps', 'C20',
    'copying rows so that a binary buffer would pass 4 GiB',
    'the size check of a copy is lost and its offsets wrap',
    [('store/indexing_buffer.rs', '''            last_item_offset += buf.item_len(i);
''', '''            last_item_offset = last_item_offset.wrapping_add(buf.item_len(i));
'''), ('store/indexing_buffer.rs', '''        assert!(u32::MAX as usize > self.data.len());

        if let Some(ref validity_src) = buf.validity {
            let validity_dst = self
                .validity
                .as_mut()
                .expect("trying to append validity on a non-nullable buffer");

            let next_pos = validity_dst.append_from(validity_src, validity_pos, chunk_len);
''', '''        assert!(u32::MAX as usize > self.offsets.len());

        if let Some(ref validity_src) = buf.validity {
            let validity_dst = self
                .validity
                .as_mut()
                .expect("trying to append validity on a non-nullable buffer");

            let next_pos = validity_dst.append_from(validity_src, validity_pos, chunk_len);
''')], 'store/indexing_buffer.rs', r'''
use super::*;
#[test]
#[should_panic]
fn past_4_gib() {
    let mut b = BinaryBuffer::new(false);
    b.data = vec![0u8; u32::MAX as usize - 1];
    b.offsets.push(u32::MAX - 1);
    let mut src = BinaryBuffer::new(false);
    src.append(b"xyz");
    b.append_from(&src, 0, 1, 0);
}
''')

bug('rle-literal-length-16-bit', 'C08',
    'a literal section of more than 32767 bytes (262136 irregular bits)',
    'the length in a literal header is computed in 16 bits',
    [('store/encoding/bitmap_rle.rs', 'varint::encode_varint(((bitmap_len << 1) | 1) as u64, &mut literal_header_bytes);',
      'varint::encode_varint((((bitmap_len as u16) << 1) | 1) as u64, &mut literal_header_bytes);')],
    'store/encoding/bitmap_rle.rs', r'''
use super::*;
#[test]
fn long_literal() {
    let mut e = Encoder::new();
    let n = 40000u32;
    for i in 0..n {
        for b in 0..8 {
            e.put((i * 167 >> b) & 1 == 1);
        }
    }
    e.flush();
    let want: Vec<u32> = (0..n * 8).filter(|p| (p / 8 * 167 >> (p % 8)) & 1 == 1).collect();
    let mut out = vec![0u32; want.len() + 64];
    let mut d = Decoder::new(e.encoded_values(), &mut out);
    let got = d.decode();
    assert_eq!(got, want.len());
    assert_eq!(&out[..got], &want[..]);
}
''')

bug('bitmap-read-past-len', 'C07',
    'reading a bit at or after the length of a bitmap, within its allocation',
    'reads are only checked against the allocated bytes',
    [('store/indexing_buffer.rs', 'assert!(idx < self.len);', 'assert!(idx >> 3 < self.values.len());')],
    'store/indexing_buffer.rs', r'''
use super::*;
#[test]
#[should_panic]
fn past_len() {
    let mut b = Bitmap::new();
    b.append(true);
    b.is_set(1);
}
''')

bug('proto-tags-swapped', 'C11',
    'any reader built from the published schema',
    'the tags of database_name and table_name are swapped: existing readers take one for the other',
    [('store/segment_metadata.proto', '''  string                  database_name                = 2;
  string                  table_name                   = 3;
''', '''  string                  database_name                = 3;
  string                  table_name                   = 2;
''')], 'store/mod.rs', r'''
use prost::Message;
use crate::store::segment_metadata::SegmentMeta;
#[test]
fn published_tags() {
    let m = SegmentMeta { database_name: "d".into(), ..Default::default() };
    assert_eq!(m.encode_to_vec(), vec![2 << 3 | 2, 1, b'd']);
}
''')

bug('offset-width-forgets-rest', 'C10',
    'more than one pack of lengths, the last partial pack holding the longest item',
    'the padding of the last pack is left out of the copy that is measured, so the width of a longer item there is missed',
    [('store/encoding/offsets.rs', '''        let len_padded = round_upto_power_of_2(src.len(), BitPacker4x::BLOCK_LEN);
        src.resize(len_padded, 0);

        let num_bits = src
            .chunks(BitPacker4x::BLOCK_LEN)
''', '''        let num_values = src.len();
        let measured = num_values / BitPacker4x::BLOCK_LEN * BitPacker4x::BLOCK_LEN;
        let len_padded = round_upto_power_of_2(num_values, BitPacker4x::BLOCK_LEN);
        src.resize(len_padded, 0);
        let measured = if measured == 0 { len_padded } else { measured };

        let num_bits = src[..measured]
            .chunks(BitPacker4x::BLOCK_LEN)
''')], 'store/encoding/offsets.rs', r'''
use super::*;
#[test]
fn width_of_the_rest() {
    let mut lens = vec![1u32; 130];
    lens[129] = 1000;
    let mut out = Vec::new();
    OffsetEncoder::new().encode(&mut lens, &mut out);
    assert_eq!(out[0], 10);
}
''')

bug('binary-boundary-strict', 'C04',
    'items that fill a block to exactly its size',
    'a block that is exactly full takes one more value',
    [('store/encoding/raw/binary_enc.rs', '.find_position(|offset| (*offset - start_offset) as u64 >= min_size);',
      '.find_position(|offset| (*offset - start_offset) as u64 > min_size.saturating_sub(1 - min_size % 2));')],
    'store/encoding/mod.rs', SINK + r'''
#[tokio::test]
async fn exactly_full() {
    let mut a = BinaryBuffer::new(false);
    for _ in 0..6 {
        a.append(b"xxx");
    }
    let mut sink = Sink::default();
    let mut enc = encoding::new_binary_encoder(Encoding::Raw, 9, false).unwrap();
    enc.encode(&a, &mut sink).await.unwrap();
    enc.flush(&mut sink).await.unwrap();
    assert_eq!(sink.blocks.iter().map(|b| data_len(&b.1)).collect::<Vec<_>>(), vec![9, 9]);
}
''')

# ------------------------------------------------------------------ third batch

bug('binary-16-bit-item', 'C02',
    'a byte string of 64 KiB or more',
    'item lengths are cut to 16 bits: everything after a long item is read at the wrong place',
    [('store/encoding/raw/binary_enc.rs', '''        offset_deltas.push(buf.item_len(i));
''', '''        offset_deltas.push((buf.item_len(i) as u16).into());
''')], 'store/encoding/mod.rs', SINK + r'''
#[tokio::test]
async fn long_item() {
    let mut sink = Sink::default();
    let mut enc = encoding::new_binary_encoder(Encoding::Raw, 20, false).unwrap();
    let mut a = BinaryBuffer::new(false);
    a.append(&vec![1u8; 70_000]);
    enc.encode(&a, &mut sink).await.unwrap();
    enc.flush(&mut sink).await.unwrap();
    let b = &sink.blocks[0].1;
    assert_eq!(data_len(b), 70_000);
    assert_eq!(b[3 + 70_000], 17);
}
''')

bug('prim-rows-from-values', 'C03',
    'a fixed-width column with nulls whose leftover rows are completed by a later write',
    'the rows of a block made of leftovers are counted by its values',
    [('store/encoding/raw/primitive_enc.rs', '''            &self.remaining,
            0,
            self.remaining.len(),
            0,
            &mut self.encoded_data,
            &mut self.bitmap_encoder,
        );

        self.add_rows(result.num_rows);
''', '''            &self.remaining,
            0,
            self.remaining.len(),
            0,
            &mut self.encoded_data,
            &mut self.bitmap_encoder,
        );

        self.add_rows(self.remaining.len().max(1));
''')], 'store/encoding/mod.rs', SINK + r'''
#[tokio::test]
async fn leftover_label() {
    let mut sink = Sink::default();
    let mut enc = encoding::new_i64_encoder(Encoding::Raw, 16, true).unwrap();
    let mut a = Int64Buffer::new(true);
    a.append_null();
    a.append(1);
    enc.encode(&a, &mut sink).await.unwrap();
    enc.encode(&a, &mut sink).await.unwrap();
    assert_eq!(sink.blocks[0].0, 3);
}
''')

bug('prim-chunk-rounds-down', 'C04',
    'a block size that is not a multiple of the value width',
    'the number of values that complete a block is rounded down: blocks stay below the configured size and leftovers never fill',
    [('store/encoding/raw/primitive_enc.rs', '''    // div ceil
    let chunk_len = min_size / size_of::<T>() + ((min_size % size_of::<T>() != 0) as usize);
''', '''    let chunk_len = (min_size / size_of::<T>()).max(1);
'''), ('store/encoding/raw/primitive_enc.rs', '''            if chunk_size < self.min_block_size {
                self.remaining''', '''            if chunk_end == buffer.len() && chunk_size < self.min_block_size {
                self.remaining''')], 'store/encoding/mod.rs', SINK + r'''
#[tokio::test]
async fn odd_block_size() {
    let mut sink = Sink::default();
    let mut enc = encoding::new_i64_encoder(Encoding::Raw, 20, false).unwrap();
    let mut a = Int64Buffer::new(false);
    for i in 0..10 {
        a.append(i);
    }
    enc.encode(&a, &mut sink).await.unwrap();
    assert_eq!(data_len(&sink.blocks[0].1), 24);
}
''')

bug('copy-empty-range-position', 'C06',
    'an empty piece in the middle of a copy into a buffer that already held other rows',
    'copying no values answers the length of the destination instead of the position in the source',
    [('store/indexing_buffer.rs', '''        self.values.extend_from_slice(&buf.values[start..end]);

        assert!(u32::MAX as usize > self.values.len());

        let num_values = end - start;
''', '''        let num_values = end - start;

        if num_values == 0 && end < buf.len() {
            // nothing to copy
            return self.num_values();
        }

        self.values.extend_from_slice(&buf.values[start..end]);

        assert!(u32::MAX as usize > self.values.len());
''')], 'store/indexing_buffer.rs', r'''
use super::*;
#[test]
fn empty_piece() {
    let mut src = Int32Buffer::new(true);
    src.append_null();
    src.append_null();
    src.append(1);
    src.append(2);
    let mut dst = Int32Buffer::new(true);
    dst.append(7);
    let p = dst.append_from(&src, 0, 1, 0);
    assert_eq!(p, 3);
    let p = dst.append_from(&src, 1, 1, p);
    assert_eq!(p, 3);
    assert_eq!(dst.append_from(&src, 1, 2, p), 4);
    assert_eq!(dst.num_values(), 5);
}
''')

bug('bitmap-skips-null-words', 'C07',
    'copying 64 or more aligned unset bits past the end of the memory of the destination bitmap',
    'unset words are copied by moving the length on, which jumps over the place where the bitmap would have grown',
    [('store/indexing_buffer.rs', '''        while items < num_of_items {
            let bit_value''', '''        while items < num_of_items {
            let word = bit_pos >> 3..(bit_pos >> 3) + 8;
            if (self.len | bit_pos) & 63 == 0
                && bit_pos + 64 <= src.len
                && src.values[word].iter().all(|byte| *byte == 0)
            {
                // a whole word of nulls, the bits are zeroed already
                self.len += 64;
                bit_pos += 64;
                continue;
            }

            let bit_value'''), ('store/indexing_buffer.rs', '''            items += bit_value as usize;
''', '''            items += usize::from(bit_value);
''')], 'store/indexing_buffer.rs', r'''
use super::*;
#[test]
fn long_nulls() {
    let mut src = Bitmap::new();
    for _ in 0..16_384 {
        src.append(false);
    }
    src.append(true);
    let mut dst = Bitmap::new();
    assert_eq!(dst.append_from(&src, 0, 1), 16_385);
    assert_eq!(dst.len(), 16_385);
    assert!(dst.is_set(16_384));
}
''')

bug('rle-decoder-run-of-pattern', 'C08',
    'a run of at least 256 equal bytes that are neither 0x00 nor 0xFF',
    'the length of a run of a mixed byte is cut to 8 bits in the decoder',
    [('store/encoding/bitmap_rle.rs', '''                for _ in 0..len {
                    self.decode_byte(value)
                }
''', '''                for _ in 0..len as u8 {
                    self.decode_byte(value)
                }
''')], 'store/encoding/bitmap_rle.rs', r'''
use super::*;
#[test]
fn long_pattern() {
    let mut e = Encoder::new();
    for _ in 0..300 {
        for k in 0..8 {
            e.put(k == 2);
        }
    }
    e.flush();
    let mut out = vec![0u32; 300];
    decode(e.encoded_values(), &mut out);
    let want: Vec<u32> = (0..300).map(|i| i * 8 + 2).collect();
    assert_eq!(out, want);
}
''')

bug('varint-word-read', 'C09',
    'a varint of three bytes followed by other bytes',
    'a fast path reads four bytes at once and takes the fourth for part of a three byte varint',
    [('store/encoding/varint.rs', '''    let mut b: u8;
    let mut part0: u32;
    b = buf[0];
''', '''    let mut b: u8;
    let mut part0: u32;

    if buf.len() > 3 && buf[0] & buf[1] & 0x80 != 0 && buf[2] < 0x80 {
        let word = u32::from_le_bytes([buf[0], buf[1], buf[2], buf[3]]);
        let value = (word & 0x7F) | (word >> 1 & 0x3F80) | (word >> 2 & 0x7F_C000);
        return Ok((u64::from(value), 3));
    }

    b = buf[0];
'''), ('store/encoding/varint.rs', '''    part0 = u32::from(b);
    if b < 0x80 {
        return Ok((u64::from(part0), 1));
    };
''', '''    part0 = b.into();
    if b < 0x80 {
        return Ok((u64::from(part0), 1));
    };
''')], 'store/encoding/varint.rs', r'''
use super::*;
#[test]
fn followed() {
    let mut v = vec![];
    v.put_varint(1 << 20);
    v.put_varint(0xFF);
    assert_eq!(decode_varint(&v).unwrap(), (1 << 20, 3));
}
''')

bug('offsets-skip-zero-packs', 'C10',
    'more than 128 items of which a whole pack is empty and a later one is not',
    'a pack of zeros is skipped without leaving room for it, so the packs after it move up',
    [('store/encoding/offsets.rs', '''        for chunk in src.chunks(BitPacker4x::BLOCK_LEN) {
            let compressed_len''', '''        for chunk in src.chunks(BitPacker4x::BLOCK_LEN) {
            if chunk.iter().all(|len| *len == 0) {
                // the destination is already zeroed
                continue;
            }
            let compressed_len'''), ('store/encoding/offsets.rs', '''            chunk_start += compressed_len;
''', '''            chunk_start = chunk_start + compressed_len;
''')], 'store/encoding/offsets.rs', r'''
use super::*;
#[test]
fn zero_pack() {
    let mut src = vec![0u32; 256];
    src[128] = 5;
    let mut dst = vec![];
    OffsetEncoder::new().encode(&mut src, &mut dst);
    let mut out = [0u32; 128];
    BitPacker4x::new().decompress(&dst[1 + 16 * 3..], &mut out, dst[0]);
    assert_eq!(out[0], 5);
}
''')

bug('index-type-only-if-built', 'C11',
    'a column created with an index type other than none',
    'the index type is recorded only for columns whose index was built, and none is built yet: the metadata loses the type given',
    [('store/segment_writer.rs', '''            index_type: self.column_info.index_type.into(),
''', '''            index_type: match self.column_index {
                Some(_) => self.column_info.index_type.into(),
                None => IndexType::NoIndex.into(),
            },
''')], 'store/segment_writer.rs', r'''
use super::*;
#[tokio::test]
async fn index_type() {
    let dir = tempfile::tempdir().unwrap();
    let mut w = SegmentWriter::new(&dir, SegmentInfo {
        segment_id: Uuid::new_v4(), database_name: "d".into(), table_name: "t".into(), shard_id: 1, num_rows: 1,
    }).await.unwrap();
    let t = IndexType::from_i32(1).unwrap();
    {
        let mut c = w.new_binary_column_writer(ColumnInfo {
            name: "c".into(), column_type: ColumnType::String, encoding: Encoding::Raw, index_type: t, nullable: false,
        }).unwrap();
        c.close().await.unwrap();
    }
    assert_eq!(w.segment_meta.segment_meta.as_ref().unwrap().columns_meta["c"].index_type, 1);
}
''')

bug('empty-name-not-recorded', 'C11',
    'a column whose name is empty',
    'a column without a name is left out of the column metadata',
    [('store/segment_writer.rs', '''        self.metadata
            .segment_meta
            .as_mut()
            .unwrap()
            .columns_meta
            .insert(self.column_info.name.clone(), column_meta);
''', '''        if !self.column_info.name.is_empty() {
            self.metadata
                .segment_meta
                .as_mut()
                .unwrap()
                .columns_meta
                .insert(self.column_info.name.clone(), column_meta);
        }
''')], 'store/segment_writer.rs', r'''
use super::*;
#[tokio::test]
async fn empty_name() {
    let dir = tempfile::tempdir().unwrap();
    let mut w = SegmentWriter::new(&dir, SegmentInfo {
        segment_id: Uuid::new_v4(), database_name: "d".into(), table_name: "t".into(), shard_id: 1, num_rows: 1,
    }).await.unwrap();
    {
        let mut c = w.new_binary_column_writer(ColumnInfo {
            name: "".into(), column_type: ColumnType::String, encoding: Encoding::Raw, index_type: IndexType::NoIndex, nullable: false,
        }).unwrap();
        c.close().await.unwrap();
    }
    assert_eq!(w.segment_meta.segment_meta.as_ref().unwrap().columns_meta.len(), 1);
}
''')

bug('reader-coalesces-neighbours', 'C15',
    'two requests for adjacent ranges of which one cannot be read',
    'adjacent ranges are read at once, so a range that cannot be read fails its neighbour too',
    [('store/io/unix_disk_block_reader.rs', '''        iter(read_ops)
            .map(move |op| async move { (self.read_block(op.block_range.to_owned()).await, op) })
            .buffered(BLOCK_BUFFER_SIZE)
''', '''        // a run of adjacent ranges takes one read
        let mut runs: Vec<Vec<ReadOp>> = Vec::new();
        for op in read_ops {
            match runs.last_mut() {
                Some(run) if run[run.len() - 1].block_range.end == op.block_range.start => {
                    run.push(op)
                }
                _ => runs.push(vec![op]),
            }
        }

        iter(runs)
            .map(move |run| async move {
                let base = run[0].block_range.start;
                let range = BlockRange {
                    start: base,
                    end: run[run.len() - 1].block_range.end,
                };
                let read = self.read_block(range).await;
                run.into_iter()
                    .map(|op| {
                        let block = match &read {
                            Ok(buf) => Ok(buf[(op.block_range.start - base) as usize
                                ..(op.block_range.end - base) as usize]
                                .to_vec()),
                            Err(err) => Err(io::Error::new(err.kind(), err.to_string())),
                        };
                        (block, op)
                    })
                    .collect::<Vec<_>>()
            })
            .buffered(BLOCK_BUFFER_SIZE)
            .flat_map(iter)
''')], 'store/io/mod.rs', r'''
use super::*;
use futures::StreamExt;
#[tokio::test]
async fn neighbour() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("f");
    std::fs::write(&p, vec![9u8; 1000]).unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    let op = |start, end| ReadOp { block_range: BlockRange { start, end }, op_info: OpInfo::GenericBlock };
    let got: Vec<_> = r.read_blocks(vec![op(900, 1000), op(1000, 1100)]).map(|r| r.is_ok()).collect().await;
    assert_eq!(got, vec![true, false]);
}
''')

bug('writer-ignores-would-block', 'C14',
    'the operating system answering EAGAIN to a write',
    'an error of kind WouldBlock is taken for a retry the runtime will do: the data of the failed write is lost silently',
    [('store/io/default_block_writer.rs', '''        self.file.write_all(block).await
''', '''        match self.file.write_all(block).await {
            // the runtime retries these
            Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => {
                self.file.write_all(block).await
            }
            result => result,
        }
''')], demo_sh=SHIM.replace('@N@', '2').replace('@EXT@', 'dat').replace('@MOD@', 'store/io/mod.rs').replace('EIO', 'EAGAIN'), demo=r'''
use super::*;
#[tokio::test]
async fn one_failure() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("f.dat");
    let mut w = BlockWriter::new(&p).await.unwrap();
    let mut failed = false;
    for b in [b"aaaa", b"bbbb", b"cccc", b"dddd"] {
        failed |= w.write_block(b).await.is_err();
    }
    failed |= w.flush().await.is_err();
    assert!(failed || std::fs::read(&p).unwrap() == b"aaaabbbbccccdddd");
}
''')

bug('sync-skipped-when-flushed', 'C16',
    'a sync after the segment was closed',
    'flushing marks the writer as clean, and a clean writer is not synced: bytes handed to the system are never forced to disk',
    [('store/io/default_block_writer.rs', '''    file: File,
    pos: u64,
''', '''    file: File,
    pos: u64,
    dirty: bool,
'''), ('store/io/default_block_writer.rs', 'Ok(Self { file: file, pos: 0 })', '''Ok(Self {
            file: file,
            pos: 0,
            dirty: false,
        })'''), ('store/io/default_block_writer.rs', '''        self.pos += block.len() as u64;
''', '''        self.pos += block.len() as u64;
        self.dirty = true;
'''), ('store/io/default_block_writer.rs', '''        self.file.flush().await
''', '''        self.dirty = false;
        self.file.flush().await
'''), ('store/io/default_block_writer.rs', '''        self.file.sync_all().await
''', '''        if !self.dirty {
            return Ok(());
        }
        self.file.sync_all().await
''')], 'store/io/mod.rs', r'''
use super::*;
// /dev/null takes writes and refuses to be synced
#[tokio::test]
async fn sync_after_flush() {
    let mut w = BlockWriter::new("/dev/null").await.unwrap();
    w.write_block(b"abc").await.unwrap();
    w.flush().await.unwrap();
    assert!(w.sync().await.is_err());
}
''')

bug('prim-retries-refused-block', 'C17',
    'the sink rejecting a block of a fixed-width column once',
    'a rejected block is offered again, and the rejection is lost when the sink takes it the second time',
    [('store/encoding/raw/primitive_enc.rs', '''            bit_pos,
            &mut self.encoded_data,
            &mut self.bitmap_encoder,
        );

        self.add_rows(result.num_rows);

        sink.write_block(self.num_rows - 1, &self.encoded_data)
            .await?;
''', '''            bit_pos,
            &mut self.encoded_data,
            &mut self.bitmap_encoder,
        );

        self.add_rows(result.num_rows);

        let row_id = self.num_rows - 1;
        if sink.write_block(row_id, &self.encoded_data).await.is_err() {
            sink.write_block(row_id, &self.encoded_data).await?;
        }
''')], 'store/encoding/mod.rs', SINK + r'''
struct Once(bool);
#[async_trait]
impl BlockSink for Once {
    async fn write_block(&mut self, _: u32, _: &[u8]) -> Result<()> {
        self.0 = !self.0;
        if self.0 { Err(anyhow::anyhow!("refused")) } else { Ok(()) }
    }
}
#[tokio::test]
async fn refused_once() {
    let mut sink = Once(false);
    let mut enc = encoding::new_i64_encoder(Encoding::Raw, 8, false).unwrap();
    let mut a = Int64Buffer::new(false);
    a.append(1);
    assert!(enc.encode(&a, &mut sink).await.is_err());
}
''')

bug('refused-name-reserved', 'C18',
    'asking again, with a supported encoding, for a column whose first request was refused',
    'the name of a refused column stays reserved: the second request is refused too',
    [('store/segment_writer.rs', '''    block_index: BlockIndex,
    segment_meta: Metadata,
}
''', '''    block_index: BlockIndex,
    segment_meta: Metadata,
    column_names: std::collections::HashSet<String>,
}
'''), ('store/segment_writer.rs', '''            block_index: BlockIndex::new(),
            segment_meta: Metadata {''', '''            block_index: BlockIndex::new(),
            column_names: Default::default(),
            segment_meta: Metadata {'''), ('store/segment_writer.rs', '''        self.block_index.clear();

        let encoder =''', '''        if !self.column_names.insert(column_info.name.clone()) {
            return Err(anyhow::anyhow!("duplicate column {}", column_info.name));
        }

        self.block_index.clear();

        let encoder ='''), ('store/segment_writer.rs', '''        let block_sink = BlockSinkImpl::new(&mut self.data_writer, &mut self.block_index);

        Ok(ColumnWriter {
            column_info: column_info,
''', '''        let block_sink = BlockSinkImpl::new(&mut self.data_writer, &mut self.block_index);

        Ok(ColumnWriter {
            column_info,
''')], 'store/segment_writer.rs', r'''
use super::*;
#[tokio::test]
async fn second_request() {
    let dir = tempfile::tempdir().unwrap();
    let mut w = SegmentWriter::new(&dir, SegmentInfo {
        segment_id: Uuid::new_v4(), database_name: "d".into(), table_name: "t".into(), shard_id: 1, num_rows: 1,
    }).await.unwrap();
    let info = |encoding| ColumnInfo {
        name: "c".into(), column_type: ColumnType::String, encoding, index_type: IndexType::NoIndex, nullable: false,
    };
    assert!(w.new_binary_column_writer(info(Encoding::BitPacked)).is_err());
    assert!(w.new_binary_column_writer(info(Encoding::Raw)).is_ok());
}
''')

bug('empty-seeds-flag-ignored', 'C19',
    'an empty --seeds flag while MK_SEEDS is set',
    'an empty flag is taken for an absent one and the environment wins',
    [('main.rs', '''        seeds: args
            .seeds
            .unwrap_or_default()
''', '''        seeds: args
            .seeds
            .filter(|seeds| !seeds.is_empty())
            .or_else(|| std::env::var("MK_SEEDS").ok())
            .unwrap_or_default()
'''), ('main.rs', '''    /// used for bootstrapping new nodes.
    #[structopt(long, env = "MK_SEEDS")]
''', '''    /// used for bootstrapping new nodes. [env: MK_SEEDS]
    #[structopt(long)]
''')], demo_sh=CLI_DUMP + r'''
got="$(MK_SEEDS=a,b "$M" --db-path /x --seeds '' | grep -c 'VERIF seed')"
[ "$got" = 0 ] || exit 1
got="$(MK_SEEDS=a,b "$M" --db-path /x | grep -c 'VERIF seed')"
[ "$got" = 2 ] || exit 1
exit 0
''')

bug('binary-limit-halved', 'C20',
    'a binary buffer that holds more than 2 GiB',
    'the size of a binary buffer is checked as a signed number: it is refused at 2 GiB',
    [('store/indexing_buffer.rs', '''        let value_offset: u32 = self.data.len().try_into().expect("BinaryBuffer overflow");
        self.offsets.push(value_offset);
''', '''        let value_offset: i32 = self.data.len().try_into().expect("BinaryBuffer overflow");
        self.offsets.push(value_offset as u32);
''')], 'store/indexing_buffer.rs', r'''
use super::*;
#[test]
fn three_gib() {
    let mut b = BinaryBuffer::new(false);
    let chunk = vec![0u8; 1 << 30];
    for _ in 0..3 {
        b.append(&chunk);
    }
    assert_eq!(b.len(), 3);
}
''')

bug('shared-staging-buffer', 'C21',
    'two segments written on one thread in alternation',
    'small blocks are staged in a buffer of the thread: what one segment staged is written to the next one that is used',
    [('store/io/default_block_writer.rs', '''        self.pos += block.len() as u64;
        self.file.write_all(block).await
''', '''        self.pos += block.len() as u64;
        let staged = STAGED.with(|staged| {
            let mut staged = staged.borrow_mut();
            staged.extend_from_slice(block);
            match staged.len() {
                0..=63 => Vec::new(),
                _ => std::mem::take(&mut *staged),
            }
        });
        self.file.write_all(&staged).await
'''), ('store/io/default_block_writer.rs', '''        self.file.flush().await
''', '''        let staged = STAGED.with(|staged| std::mem::take(&mut *staged.borrow_mut()));
        self.file.write_all(&staged).await?;
        self.file.flush().await
'''), ('store/io/default_block_writer.rs', '''pub struct Writer {
''', '''thread_local! {
    /// Collects small blocks into larger writes.
    static STAGED: std::cell::RefCell<Vec<u8>> = Default::default();
}

pub struct Writer {
''')], 'store/io/mod.rs', r'''
use super::*;
#[tokio::test]
async fn alternate() {
    let dir = tempfile::tempdir().unwrap();
    let mut a = BlockWriter::new(dir.path().join("a")).await.unwrap();
    let mut b = BlockWriter::new(dir.path().join("b")).await.unwrap();
    a.write_block(b"aa").await.unwrap();
    b.write_block(b"bb").await.unwrap();
    a.flush().await.unwrap();
    b.flush().await.unwrap();
    assert_eq!(std::fs::read(dir.path().join("a")).unwrap(), b"aa");
    assert_eq!(std::fs::read(dir.path().join("b")).unwrap(), b"bb");
}
''')

SLOW = r'''
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::{Duration, Instant};
extern "C" { fn syscall(n: i64, ...) -> i64; }
static SLOW: AtomicBool = AtomicBool::new(false);
fn slow() { if SLOW.load(SeqCst) { std::thread::sleep(Duration::from_millis(1500)); } }
#[no_mangle] pub unsafe extern "C" fn fsync(fd: i32) -> i32 { slow(); syscall(74, fd) as i32 }
#[no_mangle] pub unsafe extern "C" fn pread64(fd: i32, b: *mut u8, n: usize, o: i64) -> isize { slow(); syscall(17, fd, b, n, o) as isize }
'''

bug('sync-on-executor', 'C22',
    'a sync the disk takes long to answer, with other tasks on the same executor thread',
    'the file is forced to storage by a blocking call on the executor thread: nothing else runs on it meanwhile',
    [('store/io/default_block_writer.rs', '''        self.file.sync_all().await
''', '''        // Nothing is buffered after the flush: go straight to the descriptor.
        self.file.flush().await?;
        let file = self.file.try_clone().await?.into_std().await;
        file.sync_all()
''')], 'store/io/mod.rs', SLOW + r'''
use super::*;
#[tokio::test]
async fn others_run() {
    let dir = tempfile::tempdir().unwrap();
    let mut w = BlockWriter::new(dir.path().join("a")).await.unwrap();
    w.write_block(b"aa").await.unwrap();
    SLOW.store(true, SeqCst);
    let t = Instant::now();
    let (r, at) = futures::join!(w.sync(), async {
        tokio::time::sleep(Duration::from_millis(20)).await;
        t.elapsed()
    });
    r.unwrap();
    assert!(at < Duration::from_millis(1000), "the timer fired after {:?}", at);
}
''')

bug('small-read-inline', 'C22',
    'a block of at most 64 bytes that the disk takes long to deliver',
    'small blocks are read by a blocking call on the executor thread',
    [('store/io/unix_disk_block_reader.rs', '''        let file = self.file.clone();
        asyncify(move || {
            let buf_len = range.end - range.start;
            let mut buf: Vec<u8> = vec![0; buf_len as usize];
            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
        })
        .await
''', '''        let file = self.file.clone();
        let buf_len = range.end - range.start;
        let read = move || {
            let mut buf: Vec<u8> = vec![0; buf_len as usize];
            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
        };

        // Handing a footer or a header to another thread costs more than
        // reading it.
        if buf_len <= 64 {
            return read();
        }

        asyncify(read).await
''')], 'store/io/mod.rs', SLOW + r'''
use super::*;
#[tokio::test]
async fn others_run() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("a");
    std::fs::write(&p, vec![7u8; 100]).unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    SLOW.store(true, SeqCst);
    let t = Instant::now();
    let (r, at) = futures::join!(r.read_block(BlockRange { start: 0, end: 13 }), async {
        tokio::time::sleep(Duration::from_millis(20)).await;
        t.elapsed()
    });
    r.unwrap();
    assert!(at < Duration::from_millis(1000), "the timer fired after {:?}", at);
}
''')

bug('one-sync-at-a-time', 'C22',
    'two segments synced at the same time, one of them on a disk that takes long to answer',
    'syncs wait for each other: a segment on a healthy disk cannot be made durable while another one is stuck',
    [('store/io/default_block_writer.rs', '''        self.file.sync_all().await
''', '''        let turn = SYNC.lock().await;
        let synced = self.file.sync_all().await;
        drop(turn);
        synced
'''), ('store/io/default_block_writer.rs', '''use std::path::Path;
''', '''use std::path::Path;
use std::sync::LazyLock;
'''), ('store/io/default_block_writer.rs', '''pub struct Writer {
''', '''/// Concurrent syncs only make each other slower: one at a time.
static SYNC: LazyLock<tokio::sync::Mutex<()>> = LazyLock::new(Default::default);

pub struct Writer {
''')], 'store/io/mod.rs', SLOW.replace('fn slow() { if SLOW.load(SeqCst)', 'fn slow() { if SLOW.swap(false, SeqCst)') + r'''
use super::*;
#[tokio::test]
async fn others_sync() {
    let dir = tempfile::tempdir().unwrap();
    let mut a = BlockWriter::new(dir.path().join("a")).await.unwrap();
    let mut b = BlockWriter::new(dir.path().join("b")).await.unwrap();
    a.write_block(b"aa").await.unwrap();
    b.write_block(b"bb").await.unwrap();
    a.flush().await.unwrap();
    b.flush().await.unwrap();
    SLOW.store(true, SeqCst);
    let t = Instant::now();
    let (r, at) = futures::join!(a.sync(), async {
        tokio::time::sleep(Duration::from_millis(100)).await;
        b.sync().await.unwrap();
        t.elapsed()
    });
    r.unwrap();
    assert!(at < Duration::from_millis(1200), "the second sync took {:?}", at);
}
''')

bug('shared-read-scratch', 'C22',
    'a small read the disk takes long to answer while another file is read',
    'small reads go through one scratch buffer of the process, locked while the disk is asked: a stuck read stops those of all files',
    [('store/io/unix_disk_block_reader.rs', '''            let buf_len = range.end - range.start;
            let mut buf: Vec<u8> = vec![0; buf_len as usize];
            file.read_exact_at(buf.as_mut_slice(), range.start)
                .map(|_| buf)
''', '''            let buf_len = range.end - range.start;
            if buf_len as usize <= SCRATCH_SIZE {
                let mut scratch = match SCRATCH.lock() {
                    Ok(scratch) => scratch,
                    Err(poisoned) => poisoned.into_inner(),
                };
                let part = &mut scratch[..buf_len as usize];
                return file.read_exact_at(part, range.start).map(|_| part.to_vec());
            }
            let mut buf: Vec<u8> = vec![0; buf_len as usize];
            file.read_exact_at(&mut buf, range.start)?;
            Ok(buf)
'''), ('store/io/unix_disk_block_reader.rs', '''const BLOCK_BUFFER_SIZE: usize = 2;
''', '''const BLOCK_BUFFER_SIZE: usize = 2;

/// Reads up to this size share a buffer.
const SCRATCH_SIZE: usize = 256;
static SCRATCH: std::sync::Mutex<[u8; SCRATCH_SIZE]> = std::sync::Mutex::new([0; SCRATCH_SIZE]);
''')], 'store/io/mod.rs', SLOW.replace('fn slow() { if SLOW.load(SeqCst)', 'fn slow() { if SLOW.swap(false, SeqCst)') + r'''
use super::*;
#[tokio::test]
async fn others_read() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("a");
    std::fs::write(&p, vec![7u8; 100]).unwrap();
    let a = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    let b = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    SLOW.store(true, SeqCst);
    let t = Instant::now();
    let (r, at) = futures::join!(a.read_block(BlockRange { start: 0, end: 13 }), async {
        tokio::time::sleep(Duration::from_millis(100)).await;
        b.read_block(BlockRange { start: 0, end: 13 }).await.unwrap();
        t.elapsed()
    });
    r.unwrap();
    assert!(at < Duration::from_millis(1200), "the second read took {:?}", at);
}
''')

AHEAD = r'''
use super::*;
use futures::StreamExt;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::Duration;
extern "C" { fn syscall(n: i64, ...) -> i64; }
static READS: AtomicUsize = AtomicUsize::new(0);
#[no_mangle] pub unsafe extern "C" fn pread64(fd: i32, b: *mut u8, n: usize, o: i64) -> isize {
    READS.fetch_add(1, SeqCst);
    syscall(17, fd, b, n, o) as isize
}
fn ops(n: u64, size: u64) -> Vec<ReadOp> {
    (0..n).map(|i| ReadOp {
        block_range: BlockRange { start: i * size, end: i * size + size },
        op_info: OpInfo::DataBlock { first_row_id: i as u32 },
    }).collect()
}
'''

bug('deep-read-queue', 'C23',
    'a batch of more than 64 blocks whose results are not taken at once',
    'large batches are read with a queue half as deep as the batch: memory grows with the batch',
    [('store/io/unix_disk_block_reader.rs', '''        iter(read_ops)
''', '''        // Scans profit from more reads in flight.
        let depth = match read_ops.len() {
            0..=64 => BLOCK_BUFFER_SIZE,
            num_ops => num_ops / 2,
        };

        iter(read_ops)
'''), ('store/io/unix_disk_block_reader.rs', '''            .buffered(BLOCK_BUFFER_SIZE)
''', '''            .buffered(depth)
''')], 'store/io/mod.rs', AHEAD + r'''
#[tokio::test]
async fn bounded() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("a");
    std::fs::write(&p, vec![7u8; 100_000]).unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    let mut s = r.read_blocks(ops(1000, 100));
    assert!(s.next().await.unwrap().is_ok());
    tokio::time::sleep(Duration::from_millis(300)).await;
    let n = READS.load(SeqCst);
    assert!(n <= 40, "{} blocks were read, one was taken", n);
}
''')

bug('read-task-outlives-stream', 'C23',
    'a stream dropped before its end',
    'reads run in a task of their own that keeps going when the stream is dropped: the rest of the batch is still read',
    [('store/io/unix_disk_block_reader.rs', '''        iter(read_ops)
            .map(move |op| async move { (self.read_block(op.block_range.to_owned()).await, op) })
            .buffered(BLOCK_BUFFER_SIZE)
            .map(|op_result| match op_result.0 {
''', '''        // Keep the disk busy while the caller works on a block.
        let (tx, rx) = tokio::sync::mpsc::channel(BLOCK_BUFFER_SIZE);
        let reader = self.clone();
        tokio::spawn(async move {
            for op in read_ops {
                let result = reader.read_block(op.block_range.to_owned()).await;
                tx.send((result, op)).await.ok();
            }
        });

        futures::stream::unfold(rx, |mut rx| async { rx.recv().await.map(|r| (r, rx)) })
            .map(|op_result| match op_result.0 {
'''), ('store/io/unix_disk_block_reader.rs', '''use futures::stream::iter;
''', '')], 'store/io/mod.rs', AHEAD + r'''
#[tokio::test]
async fn stops() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("a");
    std::fs::write(&p, vec![7u8; 100_000]).unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    let mut s = r.read_blocks(ops(1000, 100));
    assert!(s.next().await.unwrap().is_ok());
    drop(s);
    tokio::time::sleep(Duration::from_millis(500)).await;
    let n = READS.load(SeqCst);
    assert!(n <= 40, "{} blocks were read, one was taken", n);
}
''')

bug('merged-reads', 'C23',
    'a long batch of small neighbouring blocks',
    'neighbouring blocks are fetched by one read however many there are',
    [('store/io/unix_disk_block_reader.rs', '''        iter(read_ops)
            .map(move |op| async move { (self.read_block(op.block_range.to_owned()).await, op) })
            .buffered(BLOCK_BUFFER_SIZE)
''', '''        iter(neighbours(read_ops))
            .map(move |run| async move { self.read_run(run).await })
            .buffered(BLOCK_BUFFER_SIZE)
            .flat_map(iter)
'''), ('store/io/unix_disk_block_reader.rs', '''#[async_trait]
impl BlockReader for Reader {
''', '''/// Groups the ops that read neighbouring blocks of up to 1 KiB.
fn neighbours(read_ops: Vec<ReadOp>) -> Vec<Vec<ReadOp>> {
    let mut runs: Vec<Vec<ReadOp>> = Vec::new();
    for op in read_ops {
        let range = &op.block_range;
        let small = range.start <= range.end && range.end - range.start <= 1024;
        match runs.last_mut() {
            Some(run) if small && run[run.len() - 1].block_range.end == range.start => {
                run.push(op)
            }
            _ => runs.push(vec![op]),
        }
    }
    runs
}

impl Reader {
    async fn read_run(&self, run: Vec<ReadOp>) -> Vec<(io::Result<Vec<u8>>, ReadOp)> {
        if run.len() > 1 {
            let start = run[0].block_range.start;
            let end = run[run.len() - 1].block_range.end;
            if let Ok(bytes) = self.read_block(BlockRange { start, end }).await {
                let part = |op: &ReadOp| {
                    let range = &op.block_range;
                    bytes[(range.start - start) as usize..(range.end - start) as usize].to_vec()
                };
                return run.into_iter().map(|op| (Ok(part(&op)), op)).collect();
            }
        }
        let mut out = Vec::new();
        for op in run {
            out.push((self.read_block(op.block_range.to_owned()).await, op));
        }
        out
    }
}

#[async_trait]
impl BlockReader for Reader {
''')], 'store/io/mod.rs', r'''
use super::*;
use futures::StreamExt;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
extern "C" { fn syscall(n: i64, ...) -> i64; }
static HIGH: AtomicUsize = AtomicUsize::new(0);
#[no_mangle] pub unsafe extern "C" fn pread64(fd: i32, b: *mut u8, n: usize, o: i64) -> isize {
    HIGH.fetch_max(o as usize + n, SeqCst);
    syscall(17, fd, b, n, o) as isize
}
#[tokio::test]
async fn bounded() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("a");
    std::fs::write(&p, vec![7u8; 1_000_000]).unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    let ops = (0..1000u64).map(|i| ReadOp {
        block_range: BlockRange { start: i * 1000, end: i * 1000 + 1000 },
        op_info: OpInfo::GenericBlock,
    }).collect();
    let mut s = r.read_blocks(ops);
    assert!(s.next().await.unwrap().is_ok());
    let n = HIGH.load(SeqCst) / 1000;
    assert!(n <= 40, "{} blocks were read, one was taken", n);
}
''')

FDS = r'''
use super::*;
fn open_below(dir: &std::path::Path) -> Vec<std::path::PathBuf> {
    std::fs::read_dir("/proc/self/fd").unwrap()
        .filter_map(|e| std::fs::read_link(e.ok()?.path()).ok())
        .filter(|p| p.starts_with(dir)).collect()
}
async fn settle(dir: &std::path::Path) {
    for _ in 0..100 {
        if open_below(dir).is_empty() { return; }
        tokio::time::sleep(std::time::Duration::from_millis(20)).await;
    }
    panic!("still open: {:?}", open_below(dir));
}
'''

bug('writer-registry', 'C24',
    'a writer dropped without being synced, after a failure for instance',
    'open files are kept in a registry that only sync leaves: the descriptor of a writer dropped before is never closed',
    [('store/io/default_block_writer.rs', '''        let file = File::create(path).await?;
        Ok(Self { file: file, pos: 0 })
''', '''        let file = File::create(path).await?;
        let handle = Arc::new(file.try_clone().await?);
        unsynced().push(handle.clone());
        Ok(Self {
            file: file,
            handle: handle,
            pos: 0,
        })
'''), ('store/io/default_block_writer.rs', '''        self.file.sync_all().await
''', '''        self.file.sync_all().await?;
        unsynced().retain(|f| !Arc::ptr_eq(f, &self.handle));
        Ok(())
'''), ('store/io/default_block_writer.rs', '''pub struct Writer {
    file: File,
''', '''pub struct Writer {
    file: File,
    handle: Arc<File>,
'''), ('store/io/default_block_writer.rs', '''use std::path::Path;
''', '''use std::path::Path;
use std::sync::{Arc, Mutex, MutexGuard};
'''), ('store/io/default_block_writer.rs', '''/// A `BlockWriter` based on `tokio::fs::File`.
''', '''/// The files a shutdown has to sync.
static UNSYNCED: Mutex<Vec<Arc<File>>> = Mutex::new(Vec::new());

fn unsynced() -> MutexGuard<'static, Vec<Arc<File>>> {
    UNSYNCED.lock().unwrap_or_else(|e| e.into_inner())
}

/// A `BlockWriter` based on `tokio::fs::File`.
''')], 'store/io/mod.rs', FDS + r'''
#[tokio::test]
async fn released() {
    let dir = tempfile::tempdir().unwrap();
    let mut w = BlockWriter::new(dir.path().join("a")).await.unwrap();
    w.write_block(b"aa").await.unwrap();
    w.flush().await.unwrap();
    drop(w);
    settle(dir.path()).await;
}
''')

bug('reader-cache', 'C24',
    'a reader dropped while no other file is opened for reading',
    'the last file opened for reading is kept open for the next reader: its descriptor and disk space are not released',
    [('store/io/unix_disk_block_reader.rs', '''        let file = asyncify(|| File::open(path)).await?;
        let metadata = file.metadata()?;

        Ok(Reader {
            file: Arc::new(file),
            len: metadata.len(),
        })
''', '''        let file = Arc::new(asyncify(|| File::open(path)).await?);
        let metadata = file.metadata()?;

        // Segments are often opened again right away.
        let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());
        let key = (metadata.dev(), metadata.ino());
        let file = match last.take() {
            Some((k, open)) if k == key => open,
            _ => file,
        };
        *last = Some((key, file.clone()));

        Ok(Reader {
            file: file,
            len: metadata.len(),
        })
'''), ('store/io/unix_disk_block_reader.rs', '''use std::os::unix::fs::FileExt;
''', '''use std::os::unix::fs::{FileExt, MetadataExt};
'''), ('store/io/unix_disk_block_reader.rs', '''const BLOCK_BUFFER_SIZE: usize = 2;
''', '''const BLOCK_BUFFER_SIZE: usize = 2;

/// The file opened last, by device and inode.
static LAST: std::sync::Mutex<Option<((u64, u64), Arc<File>)>> = std::sync::Mutex::new(None);
''')], 'store/io/mod.rs', FDS + r'''
#[tokio::test]
async fn released() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("a");
    std::fs::write(&p, b"abc").unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    assert_eq!(r.len(), 3);
    drop(r);
    settle(dir.path()).await;
}
''')

bug('leak-on-sync-error', 'C24',
    'a segment whose sync fails',
    'a file whose sync fails is parked for a later retry that never comes: its descriptor stays open',
    [('store/io/default_block_writer.rs', '''        self.file.sync_all().await
''', '''        let synced = self.file.sync_all().await;
        if synced.is_err() {
            // The descriptor is the only way left to learn when the data is
            // safe: keep it for whoever retries.
            if let Ok(file) = self.file.try_clone().await {
                FAILED.lock().unwrap_or_else(|e| e.into_inner()).push(file);
            }
        }
        synced
'''), ('store/io/default_block_writer.rs', '''pub struct Writer {
''', '''/// Files whose sync failed.
static FAILED: std::sync::Mutex<Vec<File>> = std::sync::Mutex::new(Vec::new());

pub struct Writer {
''')], 'store/io/mod.rs', FDS + r'''
extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
#[no_mangle] pub unsafe extern "C" fn fsync(_fd: i32) -> i32 { *__errno_location() = 5; -1 }
#[tokio::test]
async fn released() {
    let dir = tempfile::tempdir().unwrap();
    let mut w = BlockWriter::new(dir.path().join("a")).await.unwrap();
    w.write_block(b"aa").await.unwrap();
    assert!(w.sync().await.is_err());
    drop(w);
    settle(dir.path()).await;
}
''')

bug('prim-holds-full-block', 'C04',
    'a write that ends exactly at the end of a block',
    'a block that the last row of a write completes is held back until the next write or the flush',
    [('store/encoding/raw/primitive_enc.rs', '''            if chunk_size < self.min_block_size {
''', '''            // The last block of a buffer may still get company.
            let last = chunk_end == buffer.len() && chunk_size == self.min_block_size;

            if chunk_size < self.min_block_size || last {
''')], 'store/encoding/mod.rs', r'''
use super::*;
use async_trait::async_trait;
struct Count(usize);
#[async_trait]
impl BlockSink for Count {
    async fn write_block(&mut self, _: u32, _: &[u8]) -> Result<()> { self.0 += 1; Ok(()) }
}
#[tokio::test]
async fn emitted_at_once() {
    let mut enc = new_i32_encoder::<Count>(Encoding::Raw, 40, false).unwrap();
    let mut b = Int32Buffer::new(false);
    for i in 0..20 { b.append(i); }
    let mut sink = Count(0);
    enc.encode(&b, &mut sink).await.unwrap();
    assert_eq!(sink.0, 2);
}
''')

bug('reader-reopens-path', 'C13',
    'a file removed or replaced while a reader is open on it',
    'every read opens the file again by its name: a reader loses its file, or reads another one, when the name goes away',
    [('store/io/unix_disk_block_reader.rs', '''        let file = self.file.clone();
        asyncify(move || {
''', '''        let path = self.path.clone();
        asyncify(move || {
            let file = File::open(path.as_path())?;
'''), ('store/io/unix_disk_block_reader.rs', '''    file: Arc<File>,
    len: u64,
''', '''    path: Arc<std::path::PathBuf>,
    len: u64,
'''), ('store/io/unix_disk_block_reader.rs', '''        let file = asyncify(|| File::open(path)).await?;
        let metadata = file.metadata()?;

        Ok(Reader {
            file: Arc::new(file),
''', '''        let name = path.clone();
        let metadata = asyncify(move || File::open(name)?.metadata()).await?;

        // No descriptor is held between reads.
        Ok(Reader {
            path: Arc::new(path),
''')], 'store/io/mod.rs', r'''
use super::*;
#[tokio::test]
async fn keeps_its_file() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("a");
    std::fs::write(&p, b"abc").unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    std::fs::write(dir.path().join("b"), b"xyz").unwrap();
    std::fs::rename(dir.path().join("b"), &p).unwrap();
    assert_eq!(r.read_block(BlockRange { start: 0, end: 3 }).await.unwrap(), b"abc");
}
''')

DEC = r'''
use super::*;
fn refused(data: &[u8], room: usize) -> bool {
    std::panic::catch_unwind(|| {
        let mut out = vec![0u32; room];
        decode(data, &mut out);
    }).is_err()
}
'''

bug('rle-literal-clamped', 'C25',
    'a validity section cut short inside a literal',
    'a literal longer than the rest of the input is shortened to it: a truncated bitmap decodes as if it were complete',
    [('store/encoding/bitmap_rle.rs', '''            let bitmap_end = self.encoded_data_pos + len as usize;
''', '''            let bitmap_end = (bitmap_start + len as usize).min(self.encoded_data.len());
''')], 'store/encoding/bitmap_rle.rs', DEC + r'''
#[test]
fn cut_short() {
    assert!(!refused(&[7, 1, 1, 1], 3));
    assert!(refused(&[7, 1, 1], 3));
}
''')

bug('rle-run-byte-optional', 'C25',
    'a validity section cut short right before the byte of a run',
    'a run without its byte is taken for a run of zeros',
    [('store/encoding/bitmap_rle.rs', '''            value: self.encoded_data[self.encoded_data_pos],
''', '''            value: self
                .encoded_data
                .get(self.encoded_data_pos)
                .copied()
                .unwrap_or_default(),
''')], 'store/encoding/bitmap_rle.rs', DEC + r'''
#[test]
fn cut_short() {
    assert!(!refused(&[7, 1, 1, 1, 6, 1], 6));
    assert!(refused(&[7, 1, 1, 1, 6], 6));
}
''')

bug('rle-frame-length-cast', 'C25',
    'a frame header of more than 32 bits',
    'the length of a frame is cut to 32 bits: a damaged header decodes as a short frame',
    [('store/encoding/bitmap_rle.rs', '''        let len: u32 = (header >> 1)
            .try_into()
            .expect("cannot decode frame, frame len overflow");
''', '''        let len = (header >> 1) as u32;
''')], 'store/encoding/bitmap_rle.rs', DEC + r'''
#[test]
fn oversized() {
    use crate::store::encoding::varint::Encoder as _;
    let mut data = Vec::new();
    data.put_varint((1u64 << 33 | 1) << 1);
    data.push(1);
    assert!(!refused(&[2, 1], 1));
    assert!(refused(&data, 1));
}
''')

bug('rle-full-destination', 'C25',
    'a destination with room for fewer positions than the input holds, the last of them in a run of set bits',
    'positions past the end of the destination are dropped instead of refused',
    [('store/encoding/bitmap_rle.rs', '''                for _ in 0..bitmap_len {
''', '''                let room = (self.decoded_data.len() - self.decoded_data_pos) as u64;
                for _ in 0..bitmap_len.min(room) {
''')], 'store/encoding/bitmap_rle.rs', DEC + r'''
#[test]
fn too_little_room() {
    assert!(!refused(&[6, 0xff], 24));
    assert!(refused(&[6, 0xff], 23));
}
''')

HEAP = r'''
use super::*;
use crate::store::encoding::{self, BlockEncoder, BlockSink};
use crate::store::indexing_buffer::*;
use crate::store::segment_metadata::Encoding;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static HELD: AtomicI64 = AtomicI64::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static HEAP: Counting = Counting;
fn held() -> i64 { HELD.load(SeqCst) }
#[derive(Default)]
struct Drain;
#[async_trait::async_trait]
impl BlockSink for Drain {
    async fn write_block(&mut self, _: u32, _: &[u8]) -> anyhow::Result<()> { Ok(()) }
}
'''

bug('writer-buffers-file', 'C26',
    'more data written between two flushes than the process has memory to spare',
    'blocks are collected in memory and written when the file is flushed: a segment is held in memory as a whole until it is closed',
    [('store/io/default_block_writer.rs', '''    file: File,
    pos: u64,
}
''', '''    file: File,
    pos: u64,
    /// blocks not handed to the file yet
    pending: Vec<u8>,
}
'''), ('store/io/default_block_writer.rs', '''        Ok(Self { file: file, pos: 0 })
''', '''        Ok(Self {
            file: file,
            pos: 0,
            pending: Vec::new(),
        })
'''), ('store/io/default_block_writer.rs', '''        self.file.write_all(block).await
''', '''        self.pending.extend_from_slice(block);
        Ok(())
'''), ('store/io/default_block_writer.rs', '''        self.file.flush().await
''', '''        self.write_pending().await?;
        self.file.flush().await
'''), ('store/io/default_block_writer.rs', '''        self.file.sync_all().await
    }
''', '''        self.write_pending().await?;
        self.file.sync_all().await
    }

    async fn write_pending(&mut self) -> std::io::Result<()> {
        let pending = std::mem::take(&mut self.pending);
        self.file.write_all(&pending).await
    }
''')], 'store/io/mod.rs', HEAP + r'''
#[tokio::test]
async fn bounded() {
    let dir = tempfile::tempdir().unwrap();
    let mut w = BlockWriter::new(dir.path().join("a")).await.unwrap();
    let block = vec![3; 128 << 10];
    let base = held();
    for _ in 0..500 {
        w.write_block(&block).await.unwrap();
        assert!(held() - base < 16 << 20);
    }
    w.flush().await.unwrap();
    assert_eq!(w.pos(), 500 * (128 << 10));
}
''')

bug('binary-distinct-values', 'C26',
    'a long column of distinct byte strings',
    'the encoder remembers every distinct value it has seen, to count them: memory grows with the column',
    [('store/encoding/raw/binary_enc.rs', '''    min_block_size: u64,
    num_rows: u32,
}

impl Encoder {
''', '''    min_block_size: u64,
    num_rows: u32,
    /// values seen so far, for the cardinality of the column.
    distinct: std::collections::HashSet<Vec<u8>>,
}

impl Encoder {
'''), ('store/encoding/raw/binary_enc.rs', '''            min_block_size: block_size as u64,
            num_rows: 0,
''', '''            min_block_size: block_size as u64,
            num_rows: 0,
            distinct: std::collections::HashSet::new(),
'''), ('store/encoding/raw/binary_enc.rs', '''        let mut buf_pos = 0;
        let mut validity_pos = 0;

        if self.remaining.num_values() > 0 {
''', '''        let (mut buf_pos, mut validity_pos) = (0, 0);

        for (start, end) in buffer.offsets().iter().tuple_windows() {
            let value = &buffer.data()[*start as usize..*end as usize];
            if !self.distinct.contains(value) {
                self.distinct.insert(value.to_vec());
            }
        }

        if self.remaining.num_values() > 0 {
''')], 'store/io/mod.rs', HEAP + r'''
#[tokio::test]
async fn bounded() {
    let mut enc = encoding::new_binary_encoder::<Drain>(Encoding::Raw, 1000, false).unwrap();
    let base = held();
    for k in 0..20_000u64 {
        let mut b = BinaryBuffer::new(false);
        for i in 0..10u64 {
            b.append(format!("{:>32}", k * 10 + i).as_bytes());
        }
        enc.encode(&b, &mut Drain).await.unwrap();
        assert!(held() - base < 1 << 20);
    }
}
''')

bug('primitive-spare-buffers', 'C26',
    'a nullable column long enough to fill many blocks from several writes',
    'buffers of finished blocks are kept to be used again, but a nullable one is never found fit: one more is kept for every block',
    [('store/encoding/raw/primitive_enc.rs', '''    remaining: PrimitiveBuffer<T>,
    encoded_data: Vec<u8>,
''', '''    remaining: PrimitiveBuffer<T>,
    /// Buffers of finished blocks.
    spares: Vec<PrimitiveBuffer<T>>,
    encoded_data: Vec<u8>,
'''), ('store/encoding/raw/primitive_enc.rs', '''            remaining: PrimitiveBuffer::new(nullable),
''', '''            remaining: PrimitiveBuffer::new(nullable),
            spares: Vec::new(),
'''), ('store/encoding/raw/primitive_enc.rs', '''            self.write_remaining(sink).await?;

            self.remaining.clear();
''', '''            self.write_remaining(sink).await?;

            // A buffer with a bitmap has to be laid out anew.
            let nullable = self.remaining.validity().is_some();
            let next = match self.spares.last() {
                Some(b) if !nullable && b.len() == 0 => self.spares.pop().unwrap(),
                _ => PrimitiveBuffer::new(nullable),
            };
            let mut done = std::mem::replace(&mut self.remaining, next);
            done.clear();
            self.spares.push(done);
''')], 'store/io/mod.rs', HEAP + r'''
#[tokio::test]
async fn bounded() {
    let mut enc = encoding::new_i32_encoder::<Drain>(Encoding::Raw, 4000, true).unwrap();
    let base = held();
    let mut b = Int32Buffer::new(true);
    for i in 0..300 { if i % 9 == 0 { b.append_null() } else { b.append(i) } }
    for _ in 0..20_000 {
        enc.encode(&b, &mut Drain).await.unwrap();
        assert!(held() - base < 1 << 20);
    }
}
''')

bug('reader-block-cache', 'C26',
    'more blocks read through one reader than the process has memory to spare',
    'blocks read are cached and never evicted',
    [('store/io/unix_disk_block_reader.rs', '''    file: Arc<File>,
    len: u64,
}

impl Reader {
''', '''    file: Arc<File>,
    len: u64,
    /// Blocks read so far, by their range.
    cache: Arc<std::sync::Mutex<std::collections::HashMap<(u64, u64), Arc<Vec<u8>>>>>,
}

impl Reader {
'''), ('store/io/unix_disk_block_reader.rs', '''            file: Arc::new(file),
            len: metadata.len(),
''', '''            file: Arc::new(file),
            len: metadata.len(),
            cache: Default::default(),
'''), ('store/io/unix_disk_block_reader.rs', '''        let file = self.file.clone();
        asyncify(move || {
''', '''        let key = (range.start, range.end);
        if let Some(block) = self.cache.lock().unwrap().get(&key) {
            return Ok(block.to_vec());
        }

        let cache = self.cache.clone();
        let file = self.file.clone();
        asyncify(move || {
'''), ('store/io/unix_disk_block_reader.rs', '''                .map(|_| buf)
''', '''                .map(|_| {
                    cache.lock().unwrap().insert(key, Arc::new(buf.clone()));
                    buf
                })
''')], 'store/io/mod.rs', HEAP + r'''
#[tokio::test]
async fn bounded() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("a");
    std::fs::File::create(&p).unwrap().set_len(128 << 20).unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    let base = held();
    for i in 0..1000u64 {
        let at = i << 17;
        r.read_block(BlockRange { start: at, end: at + (128 << 10) }).await.unwrap();
        assert!(held() - base < 16 << 20);
    }
}
''')

TRACE = r'''
use super::*;
use crate::store::segment_writer::{ColumnInfo, SegmentInfo};
use crate::store::indexing_buffer::BinaryBuffer;
use crate::store::segment_metadata::{ColumnType, Encoding, IndexType};
fn info() -> SegmentInfo {
    SegmentInfo { segment_id: uuid::Uuid::from_bytes([7; 16]), database_name: "d".into(), table_name: "t".into(), shard_id: 1, num_rows: 9 }
}
fn col(name: &str) -> ColumnInfo {
    ColumnInfo { name: name.into(), column_type: ColumnType::String, encoding: Encoding::Raw, index_type: IndexType::NoIndex, nullable: false }
}
fn file(dir: &std::path::Path, ext: &str) -> Vec<u8> {
    let p = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).find(|p| p.extension().unwrap() == ext).unwrap();
    std::fs::read(p).unwrap()
}
'''

bug('index-signature-patched', 'C27',
    'a process that dies, or a writer dropped, before the segment is closed',
    'the signature of the index file is written last, over a placeholder: bytes at the front of the file change',
    [('store/segment_writer.rs', '''        self.index_writer
            .write_block(&INDEX_FILE_SIGNATURE)
            .await
            .context("cannot write index header")?;
''', '''        // The signature marks a finished file, close() puts it here.
        self.index_writer
            .write_block(&[0; INDEX_FILE_SIGNATURE.len()])
            .await
            .context("cannot write index header")?;
'''), ('store/segment_writer.rs', '''            .context("cannot write index footer")?;

        self.index_writer
            .flush()
''', '''            .context("cannot write index footer")?;

        self.index_writer
            .write_header(&INDEX_FILE_SIGNATURE)
            .await
            .context("cannot write index header")?;

        self.index_writer
            .flush()
'''), ('store/io/default_block_writer.rs', '''    /// Wait for pending operations and flushes all internal buffers.
''', '''    /// Replace the first bytes of the file.
    pub async fn write_header(&mut self, header: &[u8]) -> std::io::Result<()> {
        self.file.seek(std::io::SeekFrom::Start(0)).await?;
        self.file.write_all(header).await?;
        self.file.seek(std::io::SeekFrom::End(0)).await?;
        Ok(())
    }

    /// Wait for pending operations and flushes all internal buffers.
'''), ('store/io/default_block_writer.rs', '''use tokio::io::AsyncWriteExt;
''', '''use tokio::io::{AsyncSeekExt, AsyncWriteExt};
''')], 'store/segment_writer.rs', TRACE + r'''
#[tokio::test]
async fn prefix() {
    let dir = tempfile::tempdir().unwrap();
    let mut w = SegmentWriter::new(dir.path(), info()).await.unwrap();
    w.index_writer.flush().await.unwrap();
    let before = file(dir.path(), "idx");
    w.close().await.unwrap();
    let after = file(dir.path(), "idx");
    assert!(after.starts_with(&before));
}
''')

bug('data-file-extents', 'C27',
    'a data file of more than a megabyte whose writer dies before the flush',
    'space is reserved a megabyte ahead and cut off at the flush: until then the file ends in zeros that are no data',
    [('store/io/default_block_writer.rs', '''    file: File,
    pos: u64,
}
''', '''    file: File,
    pos: u64,
    /// file length reserved so far
    reserved: u64,
}

/// Large files are extended by this much at a time.
const EXTENT: u64 = 1 << 20;
'''), ('store/io/default_block_writer.rs', '''        Ok(Self { file: file, pos: 0 })
''', '''        Ok(Self {
            file: file,
            pos: 0,
            reserved: EXTENT,
        })
'''), ('store/io/default_block_writer.rs', '''        self.file.write_all(block).await
''', '''        if self.pos > self.reserved {
            self.reserved = self.pos + EXTENT;
            self.file.set_len(self.reserved).await?;
        }
        self.file.write_all(block).await
'''), ('store/io/default_block_writer.rs', '''        self.file.flush().await
''', '''        self.file.flush().await?;
        if self.reserved > EXTENT {
            self.reserved = self.pos.max(EXTENT);
            self.file.set_len(self.pos).await?;
        }
        Ok(())
''')], 'store/io/mod.rs', r'''
use super::*;
#[tokio::test]
async fn no_tail() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("a");
    let mut w = BlockWriter::new(&p).await.unwrap();
    for _ in 0..30 { w.write_block(&[1; 100_000]).await.unwrap(); }
    drop(w);
    std::thread::sleep(std::time::Duration::from_millis(200));
    assert!(std::fs::read(&p).unwrap().iter().all(|b| *b == 1));
}
''')

bug('index-checkpoints', 'C27',
    'a writer that dies after closing a column and before closing the segment',
    'metadata and footer are written after every column: the index file of an unfinished segment passes for a complete one',
    [('store/segment_writer.rs', '''            .columns_layout
            .insert(self.column_info.name.clone(), column_layout);

        Ok(())
''', '''            .columns_layout
            .insert(self.column_info.name.clone(), column_layout);

        // The columns closed so far can be recovered from here.
        let metadata_pos = self.index_writer.pos();
        let mut checkpoint = self.metadata.encode_to_vec();
        checkpoint.extend_from_slice(&metadata_pos.to_le_bytes());
        self.index_writer
            .write_block(&checkpoint)
            .await
            .context("cannot write metadata")
''')], 'store/segment_writer.rs', TRACE + r'''
#[tokio::test]
async fn incomplete() {
    let dir = tempfile::tempdir().unwrap();
    let mut w = SegmentWriter::new(dir.path(), info()).await.unwrap();
    {
        let mut c = w.new_binary_column_writer(col("a")).unwrap();
        let mut b = BinaryBuffer::new(false);
        b.append(b"text");
        c.write(&b).await.unwrap();
        c.close().await.unwrap();
    }
    w.index_writer.flush().await.unwrap();
    let bytes = file(dir.path(), "idx");
    assert_eq!(&bytes[..12], b"MEERKAT_IDX1");
    if bytes.len() >= 20 {
        let mut at = [0; 8];
        at.copy_from_slice(&bytes[bytes.len() - 8..]);
        let at = u64::from_le_bytes(at) as usize;
        let complete = at >= 12 && at <= bytes.len() - 8 && Metadata::decode(&bytes[at..bytes.len() - 8]).is_ok();
        assert!(!complete);
    }
}
''')

bug('reader-open-history', 'C26',
    'a process that opens very many readers one after the other',
    'the paths of all files ever opened for reading are remembered: memory grows with every reader although each is dropped',
    [('store/io/unix_disk_block_reader.rs', '''        let file = asyncify(|| File::open(path)).await?;
''', '''        OPENED.lock().unwrap().push(path.clone());
        let file = asyncify(move || File::open(path)).await?;
'''), ('store/io/unix_disk_block_reader.rs', '''const BLOCK_BUFFER_SIZE: usize = 2;
''', '''const BLOCK_BUFFER_SIZE: usize = 2;

/// Files opened so far, latest last.
static OPENED: std::sync::Mutex<Vec<std::path::PathBuf>> = std::sync::Mutex::new(Vec::new());
''')], 'store/io/mod.rs', HEAP + r'''
#[tokio::test]
async fn bounded() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("a");
    std::fs::write(&p, b"abc").unwrap();
    let mut base = 0;
    for i in 0..4000u64 {
        if i == 1000 { base = held(); }
        let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
        assert_eq!(r.len(), 3);
    }
    tokio::time::sleep(std::time::Duration::from_millis(50)).await;
    assert!(held() - base < 60_000, "{}", held() - base);
}
''')

bug('reader-32-bit-length', 'C13',
    'a read of 4 GiB or more',
    'the length of a read is kept in 32 bits: a longer one delivers only what is left of it after the cut',
    [('store/io/unix_disk_block_reader.rs', '''            let buf_len = range.end - range.start;
''', '''            let buf_len = (range.end - range.start) as u32;
''')], 'store/io/mod.rs', r'''
use super::*;
#[tokio::test]
async fn long_read() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("a");
    std::fs::File::create(&p).unwrap().set_len(5 << 30).unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    let b = r.read_block(BlockRange { start: 5, end: (1 << 32) + 9 }).await.unwrap();
    assert_eq!(b.len(), (1 << 32) + 4);
}
''')

bug('prim-block-size-32', 'C04',
    'a fixed-width column with a block size of 4 GiB or more',
    'the block size is kept in 32 bits: a larger one wraps and blocks are cut far too early',
    [('store/encoding/raw/primitive_enc.rs', '''    min_block_size: usize,
    num_rows: u32,
}
''', '''    min_block_size: u32,
    num_rows: u32,
}
'''), ('store/encoding/raw/primitive_enc.rs', '''            min_block_size: block_size,
''', '''            min_block_size: block_size as u32,
'''), ('store/encoding/raw/primitive_enc.rs', '''        let mut buf_pos = 0;
        let mut validity_pos = 0;
''', '''        let min_block_size = self.min_block_size as usize;
        let mut buf_pos = 0;
        let mut validity_pos = 0;
'''), ('store/encoding/raw/primitive_enc.rs', '''            let chunk_end = chunk(buffer, 0, self.min_block_size - remaining_size);
''', '''            let chunk_end = chunk(buffer, 0, min_block_size - remaining_size);
'''), ('store/encoding/raw/primitive_enc.rs', '''            if self.remaining.len() * size_of::<T>() < self.min_block_size {
''', '''            if self.remaining.len() * size_of::<T>() < min_block_size {
'''), ('store/encoding/raw/primitive_enc.rs', '''            let chunk_end = chunk(buffer, buf_pos, self.min_block_size);
''', '''            let chunk_end = chunk(buffer, buf_pos, min_block_size);
'''), ('store/encoding/raw/primitive_enc.rs', '''            if chunk_size < self.min_block_size {
''', '''            if chunk_size < min_block_size {
''')], 'store/encoding/mod.rs', r'''
use super::*;
use async_trait::async_trait;
struct Count(usize);
#[async_trait]
impl BlockSink for Count {
    async fn write_block(&mut self, _: u32, _: &[u8]) -> Result<()> { self.0 += 1; Ok(()) }
}
#[tokio::test]
async fn one_block() {
    let mut enc = new_i32_encoder::<Count>(Encoding::Raw, (1 << 32) + 16, false).unwrap();
    let mut b = Int32Buffer::new(false);
    for i in 0..20 { b.append(i); }
    let mut sink = Count(0);
    enc.encode(&b, &mut sink).await.unwrap();
    assert_eq!(sink.0, 0);
}
''')

EFFORT = r'''
/// CPU-bound time of `f`, the best of three.
fn best(mut f: impl FnMut()) -> f64 {
    (0..3).map(|_| { let t = std::time::Instant::now(); f(); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
}
'''

bug('metadata-size-checked', 'C28',
    'a segment with thousands of columns',
    'closing a column works out the size of all metadata so far: the cost of a column grows with the number of columns before it',
    [('store/segment_writer.rs', '''        self.metadata
            .columns_layout
            .insert(self.column_info.name.clone(), column_layout);

        Ok(())
''', '''        self.metadata
            .columns_layout
            .insert(self.column_info.name.clone(), column_layout);

        anyhow::ensure!(
            self.metadata.encoded_len() <= i32::MAX as usize,
            "segment metadata too large"
        );

        Ok(())
''')], 'store/segment_writer.rs', r'''
use super::*;
#[tokio::test]
async fn many_columns() {
    let dir = tempfile::tempdir().unwrap();
    let mut times = vec![];
    for n in [150, 150, 150, 9_600] {
        let info = SegmentInfo { segment_id: Uuid::from_bytes([3; 16]), database_name: "d".into(), table_name: "t".into(), shard_id: 1, num_rows: 1 };
        let mut w = SegmentWriter::new(dir.path(), info).await.unwrap();
        let t = std::time::Instant::now();
        for i in 0..n {
            let c = ColumnInfo { name: format!("column-{}", i), column_type: ColumnType::String, encoding: Encoding::Raw, index_type: IndexType::NoIndex, nullable: false };
            w.new_binary_column_writer(c).unwrap().close().await.unwrap();
        }
        times.push(t.elapsed().as_secs_f64());
    }
    let short = times[..3].iter().cloned().fold(0.0, f64::max);
    assert!(times[3] < short * 64.0 * 8.0 + 0.2, "{:?}", times);
}
''')

bug('read-ops-shifted', 'C28',
    'one call that reads tens of thousands of blocks',
    'the requests of a call are taken off the front of a list, which moves all that are left: the cost of a block grows with the number of blocks asked for',
    [('store/io/unix_disk_block_reader.rs', '''        iter(read_ops)
            .map(move |op|''', '''        let mut pending = read_ops;
        let next_op = std::iter::from_fn(move || match pending.is_empty() {
            true => None,
            false => Some(pending.remove(0)),
        });

        iter(next_op)
            .map(move |op|''')], 'store/io/mod.rs', r'''
use super::*;
use futures::StreamExt;
#[tokio::test]
async fn long_batch() {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("a");
    std::fs::write(&p, vec![1; 100]).unwrap();
    let r = unix_disk_block_reader::Reader::new(&p).await.unwrap();
    // only the requests that are taken are read
    let mut times = vec![];
    for n in [1usize << 10, 1 << 10, 1 << 23] {
        let ops: Vec<_> = (0..n).map(|i| ReadOp { op_info: OpInfo::DataBlock { first_row_id: i as u32 }, block_range: BlockRange { start: 3, end: 4 } }).collect();
        let mut s = r.read_blocks(ops);
        let t = std::time::Instant::now();
        for _ in 0..1000 { assert!(s.next().await.unwrap().is_ok()); }
        times.push(t.elapsed().as_secs_f64());
    }
    assert!(times[2] < times[0].max(times[1]) * 8.0 + 1.0, "{:?}", times);
}
''')

bug('leftover-size-summed', 'C28',
    'a byte string column written in many batches that are small against the block size',
    'the size of the leftover is summed up value by value at each write: the cost of a batch grows with the number of batches since the last block',
    [('store/encoding/raw/binary_enc.rs', '''            let remaining_size = self.remaining.data().len();
''', '''            let remaining_size = (0..self.remaining.offsets().len() - 1)
                .map(|idx| self.remaining.item_len(idx) as usize)
                .sum::<usize>();
''')], 'store/encoding/mod.rs', EFFORT + r'''
use super::*;
use async_trait::async_trait;
struct Count(usize);
#[async_trait]
impl BlockSink for Count {
    async fn write_block(&mut self, _: u32, _: &[u8]) -> Result<()> { self.0 += 1; Ok(()) }
}
#[test]
fn small_batches() {
    let run = |n: usize| {
        let mut enc = new_binary_encoder::<Count>(Encoding::Raw, 1 << 20, false).unwrap();
        let mut b = BinaryBuffer::new(false);
        b.append(b"x");
        let mut sink = Count(0);
        best(|| for _ in 0..n { futures::executor::block_on(enc.encode(&b, &mut sink)).unwrap(); })
    };
    let (short, long) = (run(500), run(500 * 64));
    assert!(long < short.max(1e-4) * 64.0 * 8.0, "{} {}", short, long);
}
''')

bug('copy-position-checked', 'C28',
    'a nullable buffer cut into many blocks, or copied in many pieces',
    'a copy checks its position by counting the values in front of it: the cost of a block grows with its distance from the start of the buffer',
    [('store/indexing_buffer.rs', '''        self.values.extend_from_slice(&buf.values[start..end]);

        assert!(u32::MAX as usize > self.values.len());

        let num_values = end - start;
''', '''        // the validity position must be the one of the first value.
        if let Some(ref validity) = buf.validity {
            let values_before = (0..validity_pos)
                .filter(|pos| validity.is_set(*pos))
                .count();
            assert!(values_before == start, "invalid validity position");
        }

        let num_values = end - start;

        self.values.extend_from_slice(&buf.values[start..end]);

        assert!(u32::MAX as usize > self.values.len());
''')], 'store/indexing_buffer.rs', EFFORT + r'''
use super::*;
#[test]
fn pieces() {
    let run = |n: usize| {
        let mut src = Int32Buffer::new(true);
        for i in 0..n { src.append(i as i32); src.append_null(); }
        best(|| {
            let mut dst = Int32Buffer::new(true);
            let mut pos = 0;
            for i in (0..n).step_by(4) { pos = dst.append_from(&src, i, i + 4, pos); }
            assert_eq!(dst.num_values(), 2 * n);
        })
    };
    let (short, long) = (run(1 << 10), run(1 << 15));
    assert!(long < short.max(2e-4) * 32.0 * 8.0, "{} {}", short, long);
}
''')

bug('encoded-data-scrubbed', 'C28',
    'a byte string column with one very long value followed by many small blocks',
    'the staging buffer of a block is zeroed up to its full size before each block: after one very long value every small block costs as much as that value',
    [('store/encoding/raw/binary_enc.rs', '''    encoded_data.clear();

    encoded_data.put_varint(chunk.size as u64);
''', '''    scrub(encoded_data);

    encoded_data.put_varint(chunk.size as u64);
'''), ('store/encoding/raw/binary_enc.rs', '''fn encode_binary_buffer(
    buf: &BinaryBuffer,
''', '''/// Empties `data` and zeroes what previous blocks left in it.
fn scrub(data: &mut Vec<u8>) {
    let capacity = data.capacity();
    data.clear();
    data.resize(capacity, 0);
    data.clear();
}

fn encode_binary_buffer(
    buf: &BinaryBuffer,
''')], 'store/encoding/mod.rs', EFFORT + r'''
use super::*;
use async_trait::async_trait;
struct Count(usize);
#[async_trait]
impl BlockSink for Count {
    async fn write_block(&mut self, _: u32, _: &[u8]) -> Result<()> { self.0 += 1; Ok(()) }
}
#[test]
fn long_value_then_small_blocks() {
    let run = |first: usize| {
        let mut enc = new_binary_encoder::<Count>(Encoding::Raw, 8, false).unwrap();
        let mut sink = Count(0);
        let mut b = BinaryBuffer::new(false);
        b.append(&vec![7; first]);
        futures::executor::block_on(enc.encode(&b, &mut sink)).unwrap();
        b.clear();
        for _ in 0..200 { b.append(b"12345678"); }
        best(|| futures::executor::block_on(enc.encode(&b, &mut sink)).unwrap())
    };
    let (plain, after) = (run(8), run(16 << 20));
    assert!(after < plain * 8.0 + 0.01, "{} {}", plain, after);
}
''')
