#!/usr/bin/env python3
"""refactor_b.py REPO: a second behaviour-preserving rewrite, of other design choices than
refactor_a.py: encoders that accumulate rows in the block itself, a buffered file writer, a
hand-written packer, a stream of ordered futures. Every check must stay quiet on it."""
import sys
R = sys.argv[1] + '/src/'

def sub(path, *edits):
    s = open(R + path).read()
    for a, b in edits:
        assert s.count(a) >= 1, (path, a)
        s = s.replace(a, b, 1)
    open(R + path, 'w').write(s)

def between(path, start, end, new):
    s = open(R + path).read()
    i = s.index(start); j = s.index(end, i)
    open(R + path, 'w').write(s[:i] + new + s[j:])

# --- Bitmap in 64-bit words
between('store/indexing_buffer.rs', 'pub struct Bitmap {', '    pub fn append_from(&mut self, src: &Bitmap', '''pub struct Bitmap {
    words: Vec<u64>,
    bits: usize,
}

impl Bitmap {
    pub fn new() -> Self {
        Self::with_capacity(INITIAL_BITMAP_CAP * 8)
    }

    pub fn with_capacity(cap: usize) -> Self {
        Self {
            words: Vec::with_capacity((cap + 63) / 64),
            bits: 0,
        }
    }

    pub fn append(&mut self, set: bool) {
        if self.bits % 64 == 0 {
            self.words.push(0);
        }
        let last = self.words.last_mut().unwrap();
        *last |= u64::from(set) << (self.bits % 64);
        self.bits += 1;
    }

''')
between('store/indexing_buffer.rs', '''    pub fn is_set(&self, idx: usize) -> bool {''', '''pub struct PrimitiveBuffer<T> {''', '''    pub fn is_set(&self, idx: usize) -> bool {
        if idx >= self.bits {
            panic!("bit {} of a bitmap of {}", idx, self.bits);
        }
        (self.words[idx / 64] >> (idx % 64)) & 1 == 1
    }

    pub fn len(&self) -> usize {
        self.bits
    }

    pub fn clear(&mut self) {
        self.bits = 0;
        self.words.truncate(0);
    }
}

''')
sub('store/indexing_buffer.rs', ('const BIT_MASK: [u8; 8] = [1, 2, 4, 8, 16, 32, 64, 128];\n', ''))

# --- RLE decoder over the set bits only
between('store/encoding/bitmap_rle.rs', '''    fn decode_run(&mut self, len: u32, value: u8) {''', '''    fn push_position(&mut self) {''', '''    fn decode_run(&mut self, len: u32, value: u8) {
        if value == 0 {
            self.bitmap_pos += u64::from(len) * 8;
        } else {
            self.decode_bytes(std::iter::repeat(value).take(len as usize));
        }
    }

    fn decode_bitmap(&mut self, bitmap: &[u8]) {
        self.decode_bytes(bitmap.iter().copied());
    }

    fn decode_bytes(&mut self, bytes: impl Iterator<Item = u8>) {
        for mut byte in bytes {
            let base = self.bitmap_pos;
            while byte != 0 {
                self.bitmap_pos = base + u64::from(byte.trailing_zeros());
                self.push_position();
                byte &= byte - 1;
            }
            self.bitmap_pos = base + 8;
        }
    }

''')

# --- RLE encoder: frames cut when the encoder is flushed
between('store/encoding/bitmap_rle.rs', '''#[derive(Debug)]
enum State {''', '''    /// encode a single bit''', '''/// byte-aligned bitmap RLE encoder
pub struct Encoder {
    encoded_values: Vec<u8>,
    byte: u8,
    bit_pos: usize,
    literal: Vec<u8>,
    run: (u8, usize),
}

impl Encoder {
    pub fn new() -> Self {
        Self {
            encoded_values: Vec::new(),
            byte: 0,
            bit_pos: 0,
            literal: Vec::new(),
            run: (0, 0),
        }
    }

''')
between('store/encoding/bitmap_rle.rs', '''    pub fn flush(&mut self) {''', '''    /// return a slice containing''', '''    pub fn flush(&mut self) {
        if self.bit_pos > 0 {
            self.append(self.byte);
        }
        self.end_run();
        self.emit_literal();
    }

''')
between('store/encoding/bitmap_rle.rs', '''    pub fn clear(&mut self) {''', '''#[derive(Debug)]
enum Frame''', '''    pub fn clear(&mut self) {
        self.literal.clear();
        self.encoded_values.clear();
        self.byte = 0;
        self.bit_pos = 0;
        self.run = (0, 0);
    }

    fn append(&mut self, value: u8) {
        if self.run.1 > 0 && self.run.0 == value {
            self.run.1 += 1;
            return;
        }
        self.end_run();
        self.run = (value, 1);
    }

    fn end_run(&mut self) {
        let (value, len) = self.run;
        if len < MIN_RUN_LEN {
            for _ in 0..len {
                self.literal.push(value);
            }
        } else {
            self.emit_literal();
            self.put_header((len as u64) << 1);
            self.encoded_values.push(value);
        }
        self.run = (0, 0);
    }

    fn emit_literal(&mut self) {
        if self.literal.len() == 0 {
            return;
        }
        self.put_header(((self.literal.len() as u64) << 1) + 1);
        self.encoded_values.append(&mut self.literal);
    }

    fn put_header(&mut self, header: u64) {
        let mut bytes = [0u8; varint::MAX_VARINT_LEN];
        let len = varint::encode_varint(header, &mut bytes);
        self.encoded_values.extend_from_slice(&bytes[..len]);
    }
}

''')

# --- varints by iteration over the bytes
between('store/encoding/varint.rs', '''    // Fully unrolled varint''', '''pub trait Encoder {''', '''    let mut value: u64 = 0;
    let mut shift = 0;
    for (idx, byte) in buf.iter().take(MAX_VARINT_LEN).enumerate() {
        let bits = u64::from(byte & 0x7F);
        if shift == 63 && bits > 1 {
            return Err(anyhow!("varint of more than 64 bits"));
        }
        value |= bits << shift;
        if byte & 0x80 == 0 {
            return Ok((value, idx + 1));
        }
        shift += 7;
    }
    if buf.len() < MAX_VARINT_LEN {
        panic!("varint cut short");
    }
    Err(anyhow!("varint too long"))
}

''')
sub('store/encoding/varint.rs',
    ('''    ((((value | 1).leading_zeros() ^ 63) * 9 + 73) / 64) as usize
''', '''    let bits = 64 - (value | 1).leading_zeros() as usize;
    (bits + 6) / 7
'''))

# --- offsets: packed by hand (four lanes, as BitPacker4x does)
between('store/encoding/offsets.rs', '''        let len_padded =''', '''    }
}
''', '''        let longest = src.iter().copied().max().unwrap_or(0);
        let num_bits = 32 - longest.leading_zeros();
        dst.push(num_bits as u8);
        for pack in src.chunks(128) {
            let mut words = vec![0u32; 4 * num_bits as usize];
            for (i, value) in pack.iter().enumerate() {
                let (lane, bit) = (i % 4, (i / 4) as u32 * num_bits);
                let (word, shift) = ((bit / 32) as usize, bit % 32);
                let wide = u64::from(*value) << shift;
                if num_bits > 0 {
                    words[4 * word + lane] |= wide as u32;
                }
                if shift + num_bits > 32 {
                    words[4 * (word + 1) + lane] |= (wide >> 32) as u32;
                }
            }
            for word in words {
                dst.extend_from_slice(&word.to_le_bytes());
            }
        }
''')
sub('store/encoding/offsets.rs', ('use crate::store::encoding::util::{ceil8, round_upto_power_of_2};\n', ''),
    ('use bitpacking::{BitPacker, BitPacker4x};\n', ''),
    ('pub struct OffsetEncoder {\n    bitpacker: BitPacker4x,\n}\n', 'pub struct OffsetEncoder;\n'),
    ('''        Self {
            bitpacker: BitPacker4x::new(),
        }''', '        Self'))

# --- fixed-width encoder: rows gathered one by one in the pending block
P = 'store/encoding/raw/primitive_enc.rs'
between(P, 'pub struct Encoder<T> {', '#[cfg(test)]', '''pub struct Encoder<T> {
    values: Vec<T>,
    rows: Option<Bitmap>,
    block: Vec<u8>,
    bitmap_encoder: bitmap_rle::Encoder,
    min_block_size: usize,
    num_rows: u32,
}

impl<T: Send + Sync + Clone> Encoder<T> {
    pub fn new(block_size: usize, nullable: bool) -> Self {
        Self {
            values: Vec::new(),
            rows: if nullable { Some(Bitmap::new()) } else { None },
            block: Vec::new(),
            bitmap_encoder: bitmap_rle::Encoder::new(),
            min_block_size: block_size,
            num_rows: 0,
        }
    }

    async fn emit<S: BlockSink + Send>(&mut self, sink: &mut S) -> Result<()> {
        let bytes = to_byte_slice(&self.values);
        self.block.clear();
        self.block.put_varint(bytes.len() as u64);
        self.block.extend_from_slice(bytes);

        let mut rows = self.values.len();
        if let Some(bits) = &self.rows {
            self.bitmap_encoder.clear();
            self.bitmap_encoder.put_tail(bits, 0);
            self.bitmap_encoder.flush();
            self.block
                .extend_from_slice(self.bitmap_encoder.encoded_values());
            rows = bits.len();
        }

        let rows: u32 = rows.try_into().expect("segment overflow");
        self.num_rows = self.num_rows.checked_add(rows).expect("segment overflow");
        sink.write_block(self.num_rows - 1, &self.block).await?;

        self.values.clear();
        if let Some(bits) = &mut self.rows {
            bits.clear();
        }
        Ok(())
    }

    /// move the nulls at `pos` to the pending block, up to and including the next value
    fn take_rows(&mut self, validity: Option<&Bitmap>, pos: &mut usize, to_end: bool) {
        if let (Some(bits), Some(validity)) = (self.rows.as_mut(), validity) {
            *pos = if to_end {
                bits.append_tail(validity, *pos)
            } else {
                bits.append_from(validity, *pos, 1)
            };
        } else {
            assert!(
                self.rows.is_none() && validity.is_none(),
                "nullability of the buffer and the column differ"
            );
        }
    }

    fn is_full(&self) -> bool {
        self.values.len() * size_of::<T>() >= self.min_block_size
    }
}

#[async_trait]
impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T>, S>
    for Encoder<T>
{
    async fn encode(&mut self, buffer: &PrimitiveBuffer<T>, sink: &mut S) -> Result<()> {
        let mut pos = 0;
        let count = buffer.len();
        for idx in 0..count {
            self.values.push(buffer.values()[idx].clone());
            self.take_rows(buffer.validity(), &mut pos, false);
            if idx + 1 == count {
                self.take_rows(buffer.validity(), &mut pos, true);
            }
            if self.is_full() {
                self.emit(sink).await?;
            }
        }
        self.take_rows(buffer.validity(), &mut pos, true);
        Ok(())
    }

    async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
        let pending = self.rows.as_ref().map_or(self.values.len(), |bits| bits.len());
        if pending > 0 {
            self.emit(sink).await?;
        }
        Ok(EncoderLayout::Plain(NoLayout {}))
    }
}

fn to_byte_slice<'a, T>(src: &'a [T]) -> &'a [u8] {
    unsafe { std::slice::from_raw_parts(src.as_ptr() as *const u8, size_of::<T>() * src.len()) }
}

''')
sub(P, ('use crate::store::indexing_buffer::PrimitiveBuffer;', 'use crate::store::indexing_buffer::{Bitmap, PrimitiveBuffer};'))

# --- binary encoder: likewise
B = 'store/encoding/raw/binary_enc.rs'
between(B, 'pub struct Encoder {', '#[cfg(test)]', '''pub struct Encoder {
    data: Vec<u8>,
    lens: Vec<u32>,
    rows: Option<Bitmap>,
    bitmap_encoder: bitmap_rle::Encoder,
    offset_encoder: OffsetEncoder,
    min_block_size: usize,
    num_rows: u32,
}

impl Encoder {
    pub fn new(block_size: u32, nullable: bool) -> Self {
        Self {
            data: Vec::new(),
            lens: Vec::new(),
            rows: match nullable {
                true => Some(Bitmap::new()),
                false => None,
            },
            bitmap_encoder: bitmap_rle::Encoder::new(),
            offset_encoder: OffsetEncoder::new(),
            min_block_size: block_size as usize,
            num_rows: 0,
        }
    }

    async fn emit<S: BlockSink + Send>(&mut self, sink: &mut S) -> Result<()> {
        let mut rows = self.lens.len();
        let mut block = Vec::with_capacity(self.data.len() + 16);
        block.put_varint(self.data.len() as u64);
        block.append(&mut self.data);
        self.offset_encoder.encode(&mut self.lens, &mut block);
        self.lens.clear();

        if let Some(bits) = self.rows.as_mut() {
            rows = bits.len();
            self.bitmap_encoder.clear();
            self.bitmap_encoder.put_tail(bits, 0);
            self.bitmap_encoder.flush();
            block.extend_from_slice(self.bitmap_encoder.encoded_values());
            bits.clear();
        }

        let rows: u32 = rows.try_into().expect("segment overflow");
        self.num_rows = self.num_rows.checked_add(rows).expect("segment overflow");
        sink.write_block(self.num_rows - 1, &block).await
    }
}

#[async_trait]
impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
    async fn encode(&mut self, buffer: &BinaryBuffer, sink: &mut S) -> Result<()> {
        let validity = buffer.validity();
        assert!(validity.is_some() == self.rows.is_some(), "nullability differs");
        let mut row = 0;
        let mut offsets = buffer.offsets().windows(2).peekable();
        while let Some(pair) = offsets.next() {
            let item = &buffer.data()[pair[0] as usize..pair[1] as usize];
            assert!(self.data.len() + item.len() < u32::MAX as usize);
            self.data.extend_from_slice(item);
            self.lens.push(pair[1] - pair[0]);
            let last = offsets.peek().is_none();
            if let (Some(bits), Some(validity)) = (self.rows.as_mut(), validity) {
                row = bits.append_from(validity, row, 1);
                if last {
                    row = bits.append_tail(validity, row);
                }
            }
            if self.data.len() >= self.min_block_size {
                self.emit(sink).await?;
            }
        }
        if let (Some(bits), Some(validity)) = (self.rows.as_mut(), validity) {
            bits.append_tail(validity, row);
        }
        Ok(())
    }

    async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
        let pending = match &self.rows {
            Some(bits) => bits.len(),
            None => self.lens.len(),
        };
        if pending > 0 {
            self.emit(sink).await?;
        }
        Ok(EncoderLayout::Plain(NoLayout {}))
    }
}

''')
sub(B, ('use crate::store::indexing_buffer::BinaryBuffer;', 'use crate::store::indexing_buffer::{BinaryBuffer, Bitmap};'),
    ('use itertools::Itertools;\n', ''))

# --- block index as one list (renames what the hook reads: the harness does without it)
between('store/block_index.rs', 'pub struct BlockIndex {', '    /// flush the index to disk.', '''#[derive(Default)]
pub struct BlockIndex {
    blocks: Vec<(u32, u64)>,
}

impl BlockIndex {
    pub fn new() -> Self {
        Self::default()
    }

    /// Add a new block to the index
    pub fn index_block(&mut self, row_id: u32, offset: u64) {
        self.blocks.push((row_id, offset));
    }

    /// clear the index
    pub fn clear(&mut self) {
        self.blocks = Vec::new();
    }

''')

# --- buffered writer
between('store/io/default_block_writer.rs', 'use tokio::fs::File;', '    pub fn pos(&self)', '''use tokio::fs::{File, OpenOptions};
use tokio::io::{AsyncWriteExt, BufWriter};

pub struct Writer {
    out: BufWriter<File>,
    pos: u64,
}

impl Writer {
    pub async fn new(path: impl AsRef<Path>) -> std::io::Result<Self> {
        let file = OpenOptions::new()
            .create(true)
            .truncate(true)
            .write(true)
            .open(path)
            .await?;
        Ok(Self {
            out: BufWriter::with_capacity(4096, file),
            pos: 0,
        })
    }

    /// Write a single block to disk.
    pub async fn write_block(&mut self, block: &[u8]) -> std::io::Result<()> {
        self.out.write_all(block).await?;
        self.pos += block.len() as u64;
        Ok(())
    }

    /// Wait for pending operations and flushes all internal buffers.
    pub async fn flush(&mut self) -> std::io::Result<()> {
        self.out.flush().await
    }

    /// Sync all OS-internal metadata to disk.
    pub async fn sync(&mut self) -> std::io::Result<()> {
        self.out.flush().await?;
        self.out.get_mut().sync_all().await
    }

''')

# --- reader: ordered futures, reads in a loop
U = 'store/io/unix_disk_block_reader.rs'
between(U, '        let file = self.file.clone();\n        asyncify', '    fn len(&self)', '''        let file = Arc::clone(&self.file);
        let read = move || read_range(&file, range.start, (range.end - range.start) as usize);
        asyncify(read).await
    }

    fn read_blocks(
        &self,
        read_ops: Vec<ReadOp>,
    ) -> BoxStream<'_, Result<Block<Self::Buf>, BlockError>> {
        let waiting = read_ops.into_iter();
        let running = FuturesOrdered::new();
        unfold((waiting, running), move |(mut waiting, mut running)| async move {
            while running.len() < READS_IN_FLIGHT {
                match waiting.next() {
                    Some(op) => running.push(self.outcome(op)),
                    None => break,
                }
            }
            let outcome = running.next().await?;
            Some((outcome, (waiting, running)))
        })
        .boxed()
    }

''')
sub(U, ('const BLOCK_BUFFER_SIZE: usize = 2;\n', '''const READS_IN_FLIGHT: usize = 8;

fn read_range(file: &File, start: u64, len: usize) -> io::Result<Vec<u8>> {
    let mut buf = vec![0; len];
    let mut done = 0;
    while done < len {
        match file.read_at(&mut buf[done..], start + done as u64) {
            Ok(0) => return Err(io::ErrorKind::UnexpectedEof.into()),
            Ok(n) => done += n,
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => return Err(e),
        }
    }
    Ok(buf)
}
'''), ('use futures::stream::iter;\n', 'use futures::stream::unfold;\nuse futures::stream::FuturesOrdered;\n'),
    ('#[async_trait]', '''impl Reader {
    async fn outcome(&self, op: ReadOp) -> Result<Block<Vec<u8>>, BlockError> {
        let ReadOp { block_range, op_info } = op;
        match self.read_block(block_range).await {
            Ok(buf) => Ok(Block { buf, op_info }),
            Err(error) => Err(BlockError { error, op_info }),
        }
    }
}

#[async_trait]'''),
    ('''        let file = asyncify(|| File::open(path)).await?;
        let metadata = file.metadata()?;

        Ok(Reader {
            file: Arc::new(file),
            len: metadata.len(),
        })
''', '''        asyncify(move || {
            let file = File::open(path)?;
            let len = file.metadata()?.len();
            Ok(Reader {
                file: Arc::new(file),
                len,
            })
        })
        .await
'''))

# --- segment writer: data file first, closed first
S = 'store/segment_writer.rs'
sub(S, ('''        let index_writer = BlockWriter::new(index_path)
            .await
            .context("cannot create index writer")?;

        let data_writer = BlockWriter::new(data_path)
            .await
            .context("cannot create data writer")?;

        let mut segment_writer = Self {''', '''        let mut data_writer = BlockWriter::new(data_path)
            .await
            .context("cannot create data writer")?;
        data_writer.write_block(&DATA_FILE_SIGNATURE).await?;

        let mut index_writer = BlockWriter::new(index_path)
            .await
            .context("cannot create index writer")?;
        index_writer.write_block(&INDEX_FILE_SIGNATURE).await?;

        let segment_writer = Self {'''),
    ('''        segment_writer.write_headers().await?;

''', ''))
between(S, '    async fn write_headers', '    /// Creates a new ColumnWriter for BinaryBuffers.', '')
between(S, '        let metadata_bytes = self.segment_meta.encode_to_vec();', '    /// Sync all in-memory', '''        self.data_writer
            .flush()
            .await
            .context("cannot flush data file")?;

        let mut tail = vec![];
        self.segment_meta.encode(&mut tail)?;
        tail.extend_from_slice(&self.index_writer.pos().to_le_bytes());

        self.index_writer
            .write_block(&tail)
            .await
            .context("cannot write metadata and footer")?;
        self.index_writer
            .flush()
            .await
            .context("cannot flush index file")
    }

''')
between(S, '''        self.index_writer
            .sync()''', '    }\n}\n\n/// Used to write', '''        self.data_writer
            .sync()
            .await
            .context("cannot sync data file")?;
        self.index_writer
            .sync()
            .await
            .context("cannot sync index file")
''')

# --- seeds
sub('main.rs', ('''            .map(|s| s.trim().to_string())
            .filter(|s| !s.is_empty())
''', '''            .filter_map(|entry| Some(entry.trim()).filter(|entry| *entry != ""))
            .map(String::from)
'''))
