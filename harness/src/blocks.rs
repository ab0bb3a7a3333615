//! Independent decoders for the documented layouts, and block checkers.

use crate::engine::Failure;
use crate::gen::Rows;
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

/// LEB128; returns the value and its length.
pub fn varint(buf: &[u8]) -> R<(u64, usize)> {
    let mut v: u128 = 0;
    for (i, b) in buf.iter().enumerate() {
        if i == 10 {
            break;
        }
        v |= ((b & 0x7f) as u128) << (7 * i);
        if b & 0x80 == 0 {
            ensure!(v <= u64::MAX as u128, "varint overflows u64");
            return Ok((v as u64, i + 1));
        }
    }
    fail!("truncated or overlong varint {:02x?}", &buf[..buf.len().min(12)])
}

/// Shortest LEB128 encoding.
pub fn leb128(mut v: u64) -> Vec<u8> {
    let mut out = vec![];
    while v >= 128 {
        out.push((v % 128) as u8 + 128);
        v /= 128;
    }
    out.push(v as u8);
    out
}

#[derive(Debug, PartialEq)]
pub enum Frame {
    Run(u64, u8),
    Literal(Vec<u8>),
}

pub fn rle_frames(mut enc: &[u8]) -> R<Vec<Frame>> {
    let mut out = vec![];
    while !enc.is_empty() {
        let (h, n) = varint(enc)?;
        enc = &enc[n..];
        let len = h >> 1;
        if h & 1 == 1 {
            ensure!(len as usize <= enc.len(), "literal of {} bytes, {} left", len, enc.len());
            out.push(Frame::Literal(enc[..len as usize].to_vec()));
            enc = &enc[len as usize..];
        } else {
            ensure!(!enc.is_empty(), "run without its byte");
            out.push(Frame::Run(len, enc[0]));
            enc = &enc[1..];
        }
    }
    Ok(out)
}

/// Decodes a run-length encoded bitmap to its bytes; fails if it holds more than `limit`.
pub fn rle_bytes(enc: &[u8], limit: usize) -> R<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    for f in rle_frames(enc)? {
        match f {
            Frame::Run(n, b) => {
                ensure!(
                    n <= limit.saturating_sub(out.len()) as u64,
                    "run of {} bytes in a bitmap of {}",
                    n,
                    limit
                );
                out.resize(out.len() + n as usize, b);
            }
            Frame::Literal(b) => out.extend_from_slice(&b),
        }
        ensure!(out.len() <= limit, "bitmap longer than {} bytes", limit);
    }
    Ok(out)
}

/// Unpacks `count` values from whole 128-value packs. Within a pack value i sits in lane
/// i % 4, at bit (i / 4) * width of the lane; lane words are interleaved.
pub fn unpack(packed: &[u8], width: usize, count: usize) -> R<Vec<u32>> {
    let pack = 16 * width;
    let packs = (count + 127) / 128;
    ensure!(
        packed.len() == packs * pack,
        "offsets take {} bytes, {} values of {} bits need {}",
        packed.len(),
        count,
        width,
        packs * pack
    );
    let mut out = Vec::with_capacity(count);
    for i in 0..count {
        let p = &packed[(i / 128) * pack..];
        let (lane, k) = (i % 128 % 4, i % 128 / 4);
        let mut v: u64 = 0;
        for b in 0..width {
            let bit = k * width + b;
            let (w, s) = (bit / 32, bit % 32);
            let byte = p[16 * w + 4 * lane + s / 8];
            v |= ((byte >> (s % 8) & 1) as u64) << b;
        }
        out.push(v as u32);
    }
    Ok(out)
}

/// A block as it reached the sink.
#[derive(Debug, Clone, PartialEq)]
pub struct Blk {
    pub label: u32,
    pub data: Vec<u8>,
}

fn validity(enc: &[u8], rows: usize) -> R<Vec<bool>> {
    let want = (rows + 7) / 8;
    let bytes = rle_bytes(enc, want)?;
    ensure!(
        bytes.len() == want,
        "validity holds {} bytes for {} rows",
        bytes.len(),
        rows
    );
    let bit = |i: usize| bytes[i / 8] >> (i % 8) & 1 == 1;
    for i in rows..want * 8 {
        ensure!(!bit(i), "validity bit set past the last row of the block");
    }
    Ok((0..rows).map(bit).collect())
}

/// What a column's blocks decode to.
#[derive(Default, Debug)]
pub struct Decoded {
    pub valid: Vec<bool>,
    /// value bytes, concatenated
    pub data: Vec<u8>,
    pub lens: Vec<u32>,
    /// values held by each block
    pub values_per_block: Vec<usize>,
    /// value bytes held by each block
    pub bytes_per_block: Vec<usize>,
}

/// Decodes the blocks of a column. `width` is the element size, or None for byte strings.
/// `written` is the validity of the rows written, used only for the number of lengths a binary
/// block holds: the layout stores no count.
pub fn decode_column(
    blocks: &[(u32, &[u8])],
    width: Option<usize>,
    nullable: bool,
    written: &[bool],
) -> R<Decoded> {
    let mut d = Decoded::default();
    let mut rows_before: u64 = 0;
    for (bi, (label, block)) in blocks.iter().enumerate() {
        let at = |f: Failure| Failure::from(format!("block {}: {}", bi, f.msg));
        let rows = (*label as u64 + 1)
            .checked_sub(rows_before)
            .filter(|n| *n > 0)
            .ok_or_else(|| {
                Failure::from(format!(
                    "block {} is labelled {} although {} rows precede it",
                    bi, label, rows_before
                ))
            })? as usize;
        let first = rows_before as usize;
        rows_before = *label as u64 + 1;
        ensure!(
            rows_before <= written.len() as u64,
            "block {} is labelled {} although {} rows were written",
            bi,
            label,
            written.len()
        );
        let (n, used) = varint(block).map_err(at)?;
        let rest = &block[used..];
        ensure!(
            n <= rest.len() as u64,
            "block {}: {} data bytes announced, {} present",
            bi,
            n,
            rest.len()
        );
        let (data, rest) = rest.split_at(n as usize);
        match width {
            Some(w) => {
                ensure!(
                    data.len() % w == 0,
                    "block {}: {} data bytes in a column of {}-byte values",
                    bi,
                    data.len(),
                    w
                );
                let values = data.len() / w;
                let valid = if nullable {
                    validity(rest, rows).map_err(at)?
                } else {
                    ensure!(rest.is_empty(), "block {}: {} stray bytes", bi, rest.len());
                    vec![true; rows]
                };
                let set = valid.iter().filter(|v| **v).count();
                ensure!(
                    set == values,
                    "block {}: {} values stored, {} rows marked as valid",
                    bi,
                    values,
                    set
                );
                d.valid.extend(valid);
                d.lens.extend(std::iter::repeat(w as u32).take(values));
                d.values_per_block.push(values);
            }
            None => {
                ensure!(!rest.is_empty(), "block {}: no offsets", bi);
                let bits = rest[0] as usize;
                ensure!(bits <= 32, "block {}: {} bit offsets", bi, bits);
                let rest = &rest[1..];
                let values = written[first..first + rows].iter().filter(|v| **v).count();
                let size = (values + 127) / 128 * 16 * bits;
                ensure!(
                    size <= rest.len(),
                    "block {}: {} lengths of {} bits need {} bytes, {} left",
                    bi,
                    values,
                    bits,
                    size,
                    rest.len()
                );
                let (packed, enc) = rest.split_at(size);
                let valid = if nullable {
                    validity(enc, rows).map_err(at)?
                } else {
                    ensure!(enc.is_empty(), "block {}: {} stray bytes", bi, enc.len());
                    vec![true; rows]
                };
                let lens = unpack(packed, bits, values).map_err(at)?;
                let total: u64 = lens.iter().map(|l| *l as u64).sum();
                ensure!(
                    total == data.len() as u64,
                    "block {}: item lengths add up to {}, data is {} bytes",
                    bi,
                    total,
                    data.len()
                );
                d.valid.extend(valid);
                d.lens.extend(lens);
                d.values_per_block.push(values);
            }
        }
        d.data.extend_from_slice(data);
        d.bytes_per_block.push(data.len());
    }
    Ok(d)
}

/// Compares decoded blocks with rows (possibly a prefix of them).
pub fn same_rows(d: &Decoded, rows: &Rows, width: Option<usize>, prefix: bool) -> R<()> {
    let n = d.valid.len();
    ensure!(
        n == rows.len() || (prefix && n < rows.len()),
        "blocks hold {} rows, {} were written",
        n,
        rows.len()
    );
    if let Some(i) = (0..n).find(|i| d.valid[*i] != rows.valid[*i]) {
        fail!(
            "row {} of {} is {} in the blocks but was written as {}",
            i,
            rows.len(),
            if d.valid[i] { "a value" } else { "null" },
            if rows.valid[i] { "a value" } else { "null" }
        );
    }
    let mut pos = 0;
    for (i, len) in d.lens.iter().enumerate() {
        let got = &d.data[pos..pos + *len as usize];
        pos += *len as usize;
        match width {
            Some(w) => {
                let want = rows.bits[i].to_le_bytes();
                ensure!(
                    got == &want[..w],
                    "value {} is {:02x?} in the blocks, {:02x?} was written",
                    i,
                    got,
                    &want[..w]
                );
            }
            None => {
                let want = rows.item(i);
                ensure!(
                    got == want,
                    "item {} is {} bytes {:02x?}.. in the blocks, {} bytes {:02x?}.. were written",
                    i,
                    got.len(),
                    &got[..got.len().min(12)],
                    want.len(),
                    &want[..want.len().min(12)]
                );
            }
        }
    }
    Ok(())
}
