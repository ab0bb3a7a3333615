//! C12: data files.

use std::path::Path;

use futures::StreamExt;
use meerkat::verif::buffer::{BinaryBuffer, PrimitiveBuffer};
use meerkat::verif::encoding::{
    new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
    BlockEncoder, BlockSink,
};
use meerkat::verif::io::{outcome, read_op, BlockReader, BlockWriter, DiskBlockReader, OpInfo};
use meerkat::verif::metadata::Encoding;
#[cfg(feature = "entries")]
use meerkat::verif::{BlockIndex, BlockSinkImpl};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::blocks::{decode_column, same_rows};
use crate::col::{col, wide, Col, Kind};
use crate::engine::{Failure, Outcome, Prop, Stats, Tier};
use crate::faults::{FilePlan, Guard};
use crate::gen::{batch_ends, fill_bin, fill_prim, value_prefix, Prim, Rows};
use crate::props::segments::{all_rows, healthy};
use crate::scratch::{block_on, Scratch};
use crate::seg::{
    check_data, segment, wide_segments, Fate, Segment,
};
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

// ---------------------------------------------------------------- C12

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum DataCase {
    Segment(Segment),
    /// typed encoders, block sink and block writer put together directly
    Direct { cols: Vec<Col>, header: u16 },
    /// a block sink over a file whose earlier blocks exceed 4 GiB (writes are discarded)
    Huge { block: u32, blocks: u32 },
}

pub struct DataFile;

/// Reads every block through the block reader.
async fn read_back(path: &Path, ends: &[u64], start: u64) -> R<Vec<Vec<u8>>> {
    let reader = match DiskBlockReader::new(path).await {
        Ok(r) => r,
        Err(e) => fail!("cannot open the data file: {}", e),
    };
    let mut ops = vec![];
    let mut pos = start;
    for (i, end) in ends.iter().enumerate() {
        ensure!(*end >= pos, "block {} ends at {}, before {}", i, end, pos);
        ops.push(read_op(pos, *end, OpInfo::DataBlock { first_row_id: i as u32 }));
        pos = *end;
    }
    let mut out = vec![];
    let mut stream = reader.read_blocks(ops);
    while let Some(r) = stream.next().await {
        match outcome(r) {
            (_, Ok(b)) => out.push(b),
            (_, Err(e)) => fail!("reading block {} back failed: {}", out.len(), e),
        }
    }
    ensure!(
        out.len() == ends.len(),
        "{} blocks read back instead of {}",
        out.len(),
        ends.len()
    );
    Ok(out)
}

#[cfg(feature = "entries")]
async fn encode_direct<'a, T: Prim>(
    mut enc: Box<dyn BlockEncoder<PrimitiveBuffer<T>, BlockSinkImpl<'a>> + 'a>,
    c: &Col,
    rows: &Rows,
    sink: &mut BlockSinkImpl<'a>,
) -> anyhow::Result<()> {
    let prefix = value_prefix(&rows.valid);
    let mut start = 0;
    for e in batch_ends(&c.cuts, rows) {
        let mut buf = PrimitiveBuffer::new(c.nullable);
        fill_prim(&mut buf, rows, start, e, prefix[start]);
        start = e;
        enc.encode(&buf, sink).await?;
    }
    enc.flush(sink).await?;
    Ok(())
}

#[cfg(feature = "entries")]
async fn direct(cols: &[Col], rows: &[Rows], header: u16, path: &Path) -> anyhow::Result<Vec<Vec<(u32, u64)>>> {
    let mut w = BlockWriter::new(path).await?;
    w.write_block(&vec![0xC3; header as usize]).await?;
    let mut index = BlockIndex::new();
    let mut out = vec![];
    for (c, rows) in cols.iter().zip(rows) {
        index.clear();
        {
            let mut sink = BlockSinkImpl::new(&mut w, &mut index);
            let bs = c.block_size as usize;
            match c.kind {
                Kind::I32 => encode_direct(new_i32_encoder(Encoding::Raw, bs, c.nullable)?, c, rows, &mut sink).await?,
                Kind::I64 => encode_direct(new_i64_encoder(Encoding::Raw, bs, c.nullable)?, c, rows, &mut sink).await?,
                Kind::U64 => encode_direct(new_u64_encoder(Encoding::Raw, bs, c.nullable)?, c, rows, &mut sink).await?,
                Kind::F64 => encode_direct(new_f64_encoder(Encoding::Raw, bs, c.nullable)?, c, rows, &mut sink).await?,
                Kind::Bin => {
                    let mut enc = new_binary_encoder(Encoding::Raw, c.block_size as u32, c.nullable)?;
                    let prefix = value_prefix(&rows.valid);
                    let mut start = 0;
                    for e in batch_ends(&c.cuts, rows) {
                        let mut buf = BinaryBuffer::new(c.nullable);
                        fill_bin(&mut buf, rows, start, e, prefix[start]);
                        start = e;
                        enc.encode(&buf, &mut sink).await?;
                    }
                    enc.flush(&mut sink).await?;
                }
            }
        }
        out.push(index.verif_entries());
    }
    w.flush().await?;
    Ok(out)
}

/// Without access to the block index only whole segments are judged.
#[cfg(not(feature = "entries"))]
async fn direct(_: &[Col], _: &[Rows], _: u16, _: &Path) -> anyhow::Result<Vec<Vec<(u32, u64)>>> {
    unreachable!("not generated")
}

#[cfg(feature = "entries")]
async fn huge(path: &Path, data: &[u8], blocks: u32) -> (Vec<(u32, u64)>, u64) {
    let mut w = BlockWriter::new(path).await.expect("create");
    let mut index = BlockIndex::new();
    let mut sink = BlockSinkImpl::new(&mut w, &mut index);
    for i in 0..blocks {
        sink.write_block(i * 3, data).await.expect("write");
    }
    (index.verif_entries(), w.pos())
}

#[cfg(not(feature = "entries"))]
async fn huge(_: &Path, _: &[u8], _: u32) -> (Vec<(u32, u64)>, u64) {
    unreachable!("not generated")
}

impl Prop for DataFile {
    type Case = DataCase;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "Half of the cases are segments of up to five binary columns (some abandoned) with values straddling multiples of \
         128 KiB, written by the segment writer; half put the typed encoders, block sink and block writer together directly \
         with generated block sizes. Fixed cases push a block sink past 4 GiB with discarded writes. Every block is read \
         back through the block reader at the offsets of the block index and decoded independently; blocks must be \
         contiguous from the signature to the end of the file. Non-trivial: two columns with blocks, or a column with two."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<DataCase> {
        if !cfg!(feature = "entries") {
            return segment(5).prop_map(DataCase::Segment).boxed();
        }
        prop_oneof![
            1 => segment(5).prop_map(DataCase::Segment),
            1 => (vec(any::<bool>().prop_flat_map(move |bin| col(bin, tier)), 0..=4), 0u16..=300)
                .prop_map(|(cols, header)| DataCase::Direct { cols, header }),
        ]
        .boxed()
    }
    fn fixed(&self, tier: Tier) -> Vec<DataCase> {
        if !cfg!(feature = "entries") {
            return wide_segments().into_iter().map(DataCase::Segment).collect();
        }
        let mut v = vec![DataCase::Huge { block: 64 << 20, blocks: 66 }];
        v.extend(wide_segments().into_iter().map(DataCase::Segment));
        // one column of over 2^16 blocks, and columns of over 2^16 rows one after the other
        for bin in [false, true] {
            let cols = wide(bin);
            for (i, c) in cols.iter().enumerate() {
                if c.block_size == 1 || i % 13 == 0 {
                    let next = cols[(i * 7 + 3) % cols.len()].clone();
                    if next.block_size > 1 {
                        v.push(DataCase::Direct { cols: vec![c.clone(), next], header: 5 });
                    }
                }
            }
        }
        if tier == Tier::Thorough {
            v.push(DataCase::Huge { block: (1 << 30) + 1, blocks: 9 });
        }
        v
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 20_000,
            Tier::Thorough => 200_000,
        }
    }
    fn run(&self, c: &DataCase) -> Outcome {
        let dir = Scratch::new();
        let mut s = Stats::default();
        match c {
            DataCase::Segment(seg) => {
                let rows = all_rows(seg);
                let (r, _, data) = healthy(seg, &rows, dir.path())?;
                let blocks = check_data(seg, &rows, &r.fates, &data)?;
                // the same bytes through the block reader
                let ends: Vec<u64> = r
                    .fates
                    .iter()
                    .flat_map(|f| match f {
                        Fate::Closed(e) | Fate::Abandoned(e) => e.clone(),
                        Fate::Refused(_) => vec![],
                    })
                    .map(|e| e.1)
                    .collect();
                let (_, path) = seg.paths(dir.path());
                let got = block_on(read_back(&path, &ends, 13))?;
                let mut pos = 13;
                for (b, end) in got.iter().zip(&ends) {
                    ensure!(
                        b[..] == data[pos..*end as usize],
                        "the block reader returns other bytes than the file has at {}",
                        pos
                    );
                    pos = *end as usize;
                }
                let per: Vec<usize> = r
                    .fates
                    .iter()
                    .map(|f| match f {
                        Fate::Closed(e) | Fate::Abandoned(e) => e.len(),
                        _ => 0,
                    })
                    .collect();
                s.nontrivial = blocks > 1;
                s.class(per.iter().any(|n| *n > 1), "column of several 128 KiB blocks");
                s.class(per.iter().filter(|n| **n > 0).count() > 1, "several columns");
                s.class(seg.cols.iter().any(|c| c.abandon), "abandoned column");
                s.class(true, "segment writer");
            }
            DataCase::Direct { cols, header } => {
                let rows: Vec<Rows> = cols.iter().map(|c| c.rows()).collect();
                let path = dir.path().join("direct.bin");
                let index = match block_on(direct(cols, &rows, *header, &path)) {
                    Ok(i) => i,
                    Err(e) => fail!("writing failed although nothing is wrong: {:#}", e),
                };
                let len = std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0);
                let mut pos = *header as u64;
                for ((c, rows), entries) in cols.iter().zip(&rows).zip(&index) {
                    let ends: Vec<u64> = entries.iter().map(|e| e.1).collect();
                    let blocks = block_on(read_back(&path, &ends, pos))?;
                    pos = ends.last().copied().unwrap_or(pos);
                    let list: Vec<(u32, &[u8])> = entries
                        .iter()
                        .zip(&blocks)
                        .map(|(e, b)| (e.0, b.as_slice()))
                        .collect();
                    let d = decode_column(&list, c.kind.width(), c.nullable, &rows.valid)?;
                    same_rows(&d, rows, c.kind.width(), false)?;
                    s.nontrivial |= list.len() > 1;
                }
                ensure!(
                    pos == len,
                    "the last block ends at {}, the file has {} bytes",
                    pos,
                    len
                );
                s.class(true, "encoders, sink and writer directly");
                s.class(cols.len() > 1, "several columns");
            }
            DataCase::Huge { block, blocks } => {
                let path = dir.path().join("huge.big");
                let _g = Guard::new(
                    dir.path(),
                    vec![("big", FilePlan { swallow: true, ..FilePlan::default() })],
                );
                let data = vec![0x5Au8; *block as usize];
                let (index, pos) = block_on(huge(&path, &data, *blocks));
                let want: Vec<(u32, u64)> = (0..*blocks)
                    .map(|i| (i * 3, (i as u64 + 1) * *block as u64))
                    .collect();
                ensure!(
                    index == want,
                    "block index past 4 GiB is wrong: last entry {:?} instead of {:?}",
                    index.last(),
                    want.last()
                );
                ensure!(
                    pos == *block as u64 * *blocks as u64,
                    "the writer's position is {} instead of {}",
                    pos,
                    *block as u64 * *blocks as u64
                );
                s.nontrivial = true;
                s.class(true, "file past 4 GiB");
            }
        }
        Ok(s)
    }
}

