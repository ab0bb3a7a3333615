#!/usr/bin/env python3
"""refactor_a.py REPO: a large behaviour-preserving rewrite; every check must stay quiet on it."""
import re, sys
R = sys.argv[1] + '/src/'

def sub(path, *edits):
    s = open(R + path).read()
    for a, b in edits:
        assert s.count(a) >= 1, (path, a)
        s = s.replace(a, b, 1)
    open(R + path, 'w').write(s)

def between(path, start, end, new):
    s = open(R + path).read()
    i = s.index(start); j = s.index(end, i)
    open(R + path, 'w').write(s[:i] + new + s[j:])

# --- Bitmap: grows by pushing, keeps its capacity over clear, copies byte-wise when it can
between('store/indexing_buffer.rs', '    pub fn append(&mut self, set: bool) {', '    /// Append the bits of `src`', '''    pub fn append(&mut self, set: bool) {
        let (byte, bit) = (self.len / 8, self.len % 8);
        while byte >= self.values.len() {
            self.values.push(0);
        }
        self.values[byte] |= (set as u8) << bit;
        self.len += 1;
    }

    pub fn append_from(&mut self, src: &Bitmap, start_pos: usize, num_of_items: usize) -> usize {
        let mut left = num_of_items;
        let mut pos = start_pos;
        while left > 0 {
            if left >= 8 && pos % 8 == 0 && self.len % 8 == 0 && pos + 8 <= src.len {
                let byte = src.values[pos / 8];
                let idx = self.len / 8;
                while idx >= self.values.len() {
                    self.values.push(0);
                }
                self.values[idx] = byte;
                self.len += 8;
                pos += 8;
                left -= byte.count_ones() as usize;
                continue;
            }
            let set = src.is_set(pos);
            self.append(set);
            pos += 1;
            if set {
                left -= 1;
            }
        }
        pos
    }

''')
sub('store/indexing_buffer.rs',
    ('''        self.values.clear();
        self.values.resize(INITIAL_BITMAP_CAP, 0);
''', '''        self.values.iter_mut().for_each(|b| *b = 0);
'''),
    ('''        let mut last_item_offset = *self.offsets.last().unwrap_or(&0u32);

        for i in start..end {
            last_item_offset += buf.item_len(i);
            self.offsets.push(last_item_offset);
        }

        self.data
            .extend_from_slice(&buf.data()[start_offset as usize..end_offset as usize]);

        assert!(u32::MAX as usize > self.data.len());
''', '''        let base = self.data.len();
        assert!(
            base + ((end_offset - start_offset) as usize) < u32::MAX as usize,
            "binary buffer overflow"
        );
        self.offsets.extend(
            buf.offsets[start + 1..=end]
                .iter()
                .map(|o| (base + (*o - start_offset) as usize) as u32),
        );
        self.data
            .extend_from_slice(&buf.data[start_offset as usize..end_offset as usize]);
'''),
    ('''        self.data.clear();
        self.offsets.truncate(1);
''', '''        self.data = Vec::new();
        self.offsets = vec![0];
'''))

# --- RLE encoder: collects the bytes and segments them when flushed
between('store/encoding/bitmap_rle.rs', '''    /// flush the internal buffer and encode pending''', '''#[derive(Debug)]
enum Frame''', '''    /// flush the internal buffer and encode pending values.
    pub fn flush(&mut self) {
        if self.bit_pos > 0 {
            self.append(self.byte);
        }
        let bytes = std::mem::take(&mut self.buffer);
        let mut literal = 0;
        let mut i = 0;
        while i < bytes.len() {
            let run = bytes[i..].iter().take_while(|b| **b == bytes[i]).count();
            if run >= MIN_RUN_LEN {
                self.emit_literal(&bytes[literal..i]);
                self.emit_run(run, bytes[i]);
                literal = i + run;
            }
            i += run;
        }
        self.emit_literal(&bytes[literal..]);
    }

    /// return a slice containing the compressed bitmap.
    pub fn encoded_values(&self) -> &[u8] {
        self.encoded_values.as_slice()
    }

    /// clear the internal state.
    pub fn clear(&mut self) {
        *self = Self::new();
    }

    fn append(&mut self, current_value: u8) {
        self.buffer.push(current_value);
    }

    fn emit_literal(&mut self, bytes: &[u8]) {
        if !bytes.is_empty() {
            self.header(((bytes.len() << 1) | 1) as u64);
            self.encoded_values.extend_from_slice(bytes);
        }
    }

    fn emit_run(&mut self, run_len: usize, run_value: u8) {
        self.header((run_len << 1) as u64);
        self.encoded_values.push(run_value);
    }

    fn header(&mut self, value: u64) {
        use crate::store::encoding::varint::Encoder as _;
        self.encoded_values.put_varint(value);
    }
}

''')
between('store/encoding/bitmap_rle.rs', '''#[derive(Debug)]
enum State {''', '''    /// encode a single bit''', '''/// byte-aligned bitmap RLE encoder
pub struct Encoder {
    encoded_values: Vec<u8>,
    byte: u8,
    bit_pos: usize,
    buffer: Vec<u8>,
}

impl Encoder {
    pub fn new() -> Self {
        Self {
            encoded_values: Vec::new(),
            byte: 0,
            bit_pos: 0,
            buffer: vec![],
        }
    }

''')

# --- varints in loops
between('store/encoding/varint.rs', '''    // Fully unrolled varint''', '''pub trait Encoder {''', '''    let mut value = 0u64;
    for i in 0..MAX_VARINT_LEN {
        let b = buf[i];
        if i + 1 == MAX_VARINT_LEN && b > 1 {
            break;
        }
        value |= u64::from(b & 0x7F) << (7 * i);
        if b < 0x80 {
            return Ok((value, i + 1));
        }
    }
    Err(anyhow!("invalid varint"))
}

''')
sub('store/encoding/varint.rs',
    ('''    ((((value | 1).leading_zeros() ^ 63) * 9 + 73) / 64) as usize
''', '''    let mut n = 1;
    let mut v = value >> 7;
    while v > 0 {
        n += 1;
        v >>= 7;
    }
    n
'''),
    ('''        let mut buf = [0u8; MAX_VARINT_LEN];
        let enc_len = encode_varint(value, buf.as_mut_slice());
        self.extend_from_slice(&buf[..enc_len]);
''', '''        let mut value = value;
        while value > 0x7F {
            self.push((value as u8) | 0x80);
            value >>= 7;
        }
        self.push(value as u8);
'''))

# --- offsets: leaves its source alone, one width computed over everything
between('store/encoding/offsets.rs', '''        let len_padded =''', '''    }
}
''', '''        let mut all = src.clone();
        while all.len() % BitPacker4x::BLOCK_LEN != 0 {
            all.push(0);
        }
        let or = all.iter().fold(0u32, |a, b| a | *b);
        let num_bits = (u32::BITS - or.leading_zeros()) as u8;
        dst.push(num_bits);
        if num_bits as u32 == u32::BITS {
            for value in &all {
                dst.extend_from_slice(&value.to_le_bytes());
            }
            return;
        }
        let mut out = [0u8; 4 * BitPacker4x::BLOCK_LEN];
        for pack in all.chunks(BitPacker4x::BLOCK_LEN) {
            let n = self.bitpacker.compress(pack, &mut out, num_bits);
            dst.extend_from_slice(&out[..n]);
        }
''')
sub('store/encoding/offsets.rs', ('use crate::store::encoding::util::{ceil8, round_upto_power_of_2};\n', ''))

# --- primitive encoder: everything goes through the leftover buffer
between('store/encoding/raw/primitive_enc.rs', '''        let mut buf_pos = 0;
        let mut validity_pos = 0;
''', '''        // nulls of a buffer without values.''', '''        let mut buf_pos = 0;
        let mut validity_pos = 0;

        while buf_pos < buffer.len() {
            let missing = self.min_block_size - self.remaining.len() * size_of::<T>();
            let values = (missing + size_of::<T>() - 1) / size_of::<T>();
            let end = buffer.len().min(buf_pos + values);
            let next = self
                .remaining
                .append_from(buffer, buf_pos, end, validity_pos);
            validity_pos = next;
            buf_pos = end;
            if self.remaining.len() * size_of::<T>() >= self.min_block_size {
                let written = self.write_remaining(sink).await;
                self.remaining.clear();
                written?;
            }
        }

''')
between('store/encoding/raw/primitive_enc.rs', '''    async fn write_block<S''', '''    async fn write_remaining''', '')

# --- block writer on std::fs with its own buffer
between('store/io/default_block_writer.rs', 'use tokio::fs::File;', '    pub fn pos(&self)', '''use std::fs::File;
use std::io::Write;
use std::sync::Arc;

const BUFFER: usize = 64 * 1024;

pub struct Writer {
    file: Arc<File>,
    pending: Vec<u8>,
    pos: u64,
}

impl Writer {
    pub async fn new(path: impl AsRef<Path>) -> std::io::Result<Self> {
        let path = path.as_ref().to_owned();
        let file = super::asyncify(move || {
            std::fs::OpenOptions::new()
                .write(true)
                .create(true)
                .truncate(true)
                .open(path)
        })
        .await?;
        Ok(Self {
            file: Arc::new(file),
            pending: Vec::new(),
            pos: 0,
        })
    }

    /// Write a single block to disk.
    pub async fn write_block(&mut self, block: &[u8]) -> std::io::Result<()> {
        self.pending.extend_from_slice(block);
        if self.pending.len() >= BUFFER {
            self.flush().await?;
        }
        self.pos += block.len() as u64;
        Ok(())
    }

    /// Wait for pending operations and flushes all internal buffers.
    pub async fn flush(&mut self) -> std::io::Result<()> {
        if self.pending.is_empty() {
            return Ok(());
        }
        let file = self.file.clone();
        let pending = std::mem::take(&mut self.pending);
        super::asyncify(move || (&*file).write_all(&pending)).await
    }

    /// Sync all OS-internal metadata to disk.
    pub async fn sync(&mut self) -> std::io::Result<()> {
        self.flush().await?;
        let file = self.file.clone();
        super::asyncify(move || file.sync_data()).await
    }

''')
sub('store/io/default_block_writer.rs', ('use tokio::io::AsyncWriteExt;\n', '') if 'AsyncWriteExt' in open(R+'store/io/default_block_writer.rs').read() else ('use std::path::Path;', 'use std::path::Path;'))

# --- reader: positional read loop, more reads ahead
between('store/io/unix_disk_block_reader.rs', '''            let buf_len =''', '''        })
        .await''', '''            let mut buf: Vec<u8> = vec![0; (range.end - range.start) as usize];
            let mut done = 0;
            while done < buf.len() {
                match file.read_at(&mut buf[done..], range.start + done as u64) {
                    Ok(0) => return Err(io::ErrorKind::UnexpectedEof.into()),
                    Ok(n) => done += n,
                    Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                    Err(e) => return Err(e),
                }
            }
            Ok(buf)
''')
sub('store/io/unix_disk_block_reader.rs', ('const BLOCK_BUFFER_SIZE: usize = 2;', 'const BLOCK_BUFFER_SIZE: usize = 16;'))

# --- segment writer: one footer write, the data file first, both synced together
between('store/segment_writer.rs', '''        let metadata_bytes =''', '''    }

    /// Sync all in-memory''', '''        self.data_writer
            .flush()
            .await
            .context("cannot flush data file")?;

        let mut footer = Vec::new();
        self.segment_meta.encode(&mut footer)?;
        footer.extend_from_slice(&self.index_writer.pos().to_le_bytes());
        self.index_writer
            .write_block(&footer)
            .await
            .context("cannot write metadata")?;
        self.index_writer
            .flush()
            .await
            .context("cannot flush index file")
''')
between('store/segment_writer.rs', '''        self.index_writer
            .sync()''', '''    }
}

/// Used to write''', '''        let Self {
            data_writer,
            index_writer,
            ..
        } = &mut self;
        let (data, index) = futures::join!(data_writer.sync(), index_writer.sync());
        data.context("cannot sync data file")?;
        index.context("cannot sync index file")
''')
sub('store/segment_writer.rs',
    ('''        let index_writer = BlockWriter::new(index_path)
            .await
            .context("cannot create index writer")?;

        let data_writer = BlockWriter::new(data_path)
            .await
            .context("cannot create data writer")?;
''', '''        let (data_writer, index_writer) =
            futures::try_join!(BlockWriter::new(data_path), BlockWriter::new(index_path))
                .context("cannot create segment files")?;
'''),
    ('''        self.block_index.clear();

        let encoder =
            encoding::new_binary_encoder(column_info.encoding, BLOCK_SIZE, column_info.nullable)?;
''', '''        let encoder =
            encoding::new_binary_encoder(column_info.encoding, BLOCK_SIZE, column_info.nullable)?;

        self.block_index = BlockIndex::new();
'''))

# --- sink: the end of the block is computed first
sub('store/block_sink.rs', ('''        self.data_writer.write_block(block_data).await?;
        self.block_index.index_block(row_id, self.data_writer.pos());
''', '''        let end = self.data_writer.pos() + block_data.len() as u64;
        self.data_writer.write_block(block_data).await?;
        self.block_index.index_block(row_id, end);
'''))

# --- configuration
sub('main.rs', ('''        seeds: args
            .seeds
            .unwrap_or_default()
            .split(',')
            .map(|s| s.trim().to_string())
            .filter(|s| !s.is_empty())
            .collect(),
''', '''        seeds: parse_seeds(args.seeds.as_deref().unwrap_or("")),
'''), ('''fn main() {''', '''fn parse_seeds(list: &str) -> Vec<String> {
    let mut seeds = vec![];
    for entry in list.split(',') {
        let entry = entry.trim();
        if entry != "" {
            seeds.push(entry.to_owned());
        }
    }
    seeds
}

fn main() {'''))
