//! A column history run against an encoder: rows, batches, block size.

use anyhow::anyhow;
use async_trait::async_trait;
use futures::executor::block_on;
use meerkat::verif::buffer::{BinaryBuffer, PrimitiveBuffer};
use meerkat::verif::encoding::{
    new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
    BlockEncoder, BlockSink,
};
use meerkat::verif::metadata::column_layout::EncoderLayout;
use meerkat::verif::metadata::Encoding;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::blocks::Blk;
use crate::engine::Tier;
pub use crate::gen::Kind;
use crate::gen::{
    batch_ends, cuts, expand, fill_bin, fill_prim, run, value_prefix, Cut, Len, Prim, Rows, Run,
    LIMITS,
};

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Col {
    pub kind: Kind,
    pub nullable: bool,
    /// of a binary column at most u32::MAX
    pub block_size: u64,
    pub runs: Vec<Run>,
    pub cuts: Vec<Cut>,
    /// bit i % 8: batch i is written from the buffer of batch i - 1, cleared
    pub reuse: u8,
}

impl Col {
    pub fn rows(&self) -> Rows {
        expand(&self.runs, self.nullable, LIMITS)
    }
}

/// Collects blocks, rejecting the `fail_at`-th.
pub struct Sink {
    pub blocks: Vec<Blk>,
    pub fail_at: Option<usize>,
    pub seen: usize,
    pub limit: usize,
}

#[async_trait]
impl BlockSink for Sink {
    async fn write_block(&mut self, row_id: u32, block_data: &[u8]) -> anyhow::Result<()> {
        self.seen += 1;
        if self.seen > self.limit {
            panic!("encoder emitted more blocks than there can be: {}", self.seen);
        }
        if Some(self.seen - 1) == self.fail_at {
            return Err(anyhow!("sink rejected block {}", self.seen - 1));
        }
        self.blocks.push(Blk {
            label: row_id,
            data: block_data.to_vec(),
        });
        Ok(())
    }
}

/// What an encoder did with a column history.
pub struct Encoded {
    pub blocks: Vec<Blk>,
    /// blocks emitted before the final flush
    pub before_flush: usize,
    /// blocks emitted when each batch had been written
    pub by_batch: Vec<usize>,
    pub layout: Option<EncoderLayout>,
    pub error: Option<String>,
    /// blocks offered to the sink
    pub offered: usize,
    /// the erring call: batch index, or None for flush
    pub error_in_batch: Option<usize>,
    pub batches: usize,
}

impl Encoded {
    pub fn refs(&self) -> Vec<(u32, &[u8])> {
        self.blocks
            .iter()
            .map(|b| (b.label, b.data.as_slice()))
            .collect()
    }
}

fn drive<B>(
    mut enc: Box<dyn BlockEncoder<B, Sink>>,
    ends: &[usize],
    reuse: u8,
    rows: &Rows,
    fail_at: Option<usize>,
    new: impl Fn() -> B,
    clear: impl Fn(&mut B),
    fill: impl Fn(&mut B, usize, usize, usize),
) -> Encoded {
    let prefix = value_prefix(&rows.valid);
    let mut sink = Sink {
        blocks: vec![],
        fail_at,
        seen: 0,
        limit: rows.len() + ends.len() + 8,
    };
    let mut out = Encoded {
        blocks: vec![],
        before_flush: 0,
        by_batch: vec![],
        layout: None,
        error: None,
        offered: 0,
        error_in_batch: None,
        batches: ends.len(),
    };
    let mut buf = new();
    let mut start = 0;
    for (i, end) in ends.iter().enumerate() {
        if i > 0 {
            if reuse >> (i % 8) & 1 == 1 {
                clear(&mut buf);
            } else {
                buf = new();
            }
        }
        fill(&mut buf, start, *end, prefix[start]);
        start = *end;
        if let Err(e) = block_on(enc.encode(&buf, &mut sink)) {
            out.error = Some(format!("{:#}", e));
            out.error_in_batch = Some(i);
            break;
        }
        out.by_batch.push(sink.blocks.len());
    }
    out.before_flush = sink.blocks.len();
    if out.error.is_none() {
        match block_on(enc.flush(&mut sink)) {
            Ok(l) => out.layout = Some(l),
            Err(e) => out.error = Some(format!("{:#}", e)),
        }
    }
    out.offered = sink.seen;
    out.blocks = sink.blocks;
    out
}

/// Encodes `rows` in batches ending at `ends`.
pub fn encode(
    kind: Kind,
    nullable: bool,
    block_size: u64,
    rows: &Rows,
    ends: &[usize],
    reuse: u8,
    fail_at: Option<usize>,
) -> Encoded {
    fn prim<T: Prim>(
        enc: anyhow::Result<Box<dyn BlockEncoder<PrimitiveBuffer<T>, Sink>>>,
        nullable: bool,
        rows: &Rows,
        ends: &[usize],
        reuse: u8,
        fail_at: Option<usize>,
    ) -> Encoded {
        drive(
            enc.expect("raw encoder"),
            ends,
            reuse,
            rows,
            fail_at,
            || PrimitiveBuffer::new(nullable),
            |b| b.clear(),
            |b, s, e, v| fill_prim(b, rows, s, e, v),
        )
    }
    let bs = block_size as usize;
    match kind {
        Kind::I32 => prim(new_i32_encoder(Encoding::Raw, bs, nullable), nullable, rows, ends, reuse, fail_at),
        Kind::I64 => prim(new_i64_encoder(Encoding::Raw, bs, nullable), nullable, rows, ends, reuse, fail_at),
        Kind::U64 => prim(new_u64_encoder(Encoding::Raw, bs, nullable), nullable, rows, ends, reuse, fail_at),
        Kind::F64 => prim(new_f64_encoder(Encoding::Raw, bs, nullable), nullable, rows, ends, reuse, fail_at),
        Kind::Bin => drive(
            new_binary_encoder(Encoding::Raw, block_size.min(u32::MAX as u64) as u32, nullable).expect("raw encoder"),
            ends,
            reuse,
            rows,
            fail_at,
            || BinaryBuffer::new(nullable),
            |b| b.clear(),
            |b, s, e, v| fill_bin(b, rows, s, e, v),
        ),
    }
}

pub fn encode_col(c: &Col, rows: &Rows, fail_at: Option<usize>) -> Encoded {
    encode(
        c.kind,
        c.nullable,
        c.block_size,
        rows,
        &batch_ends(&c.cuts, rows),
        c.reuse,
        fail_at,
    )
}

fn no_len(runs: Vec<Run>) -> Vec<Run> {
    runs.into_iter()
        .map(|r| match r {
            Run::Nulls(n) => Run::Nulls(n),
            Run::Vals { n, seed, .. } => Run::Vals { n, seed, len: Len::Fixed(0) },
            Run::Mix { n, null_pct, seed, .. } => Run::Mix { n, null_pct, seed, len: Len::Fixed(0) },
            Run::Pattern { n, byte, seed, .. } => Run::Pattern { n, byte, seed, len: Len::Fixed(0) },
        })
        .collect()
}

/// Column histories. `bin`: byte strings; otherwise fixed-width.
pub fn col(bin: bool, tier: Tier) -> BoxedStrategy<Col> {
    let kind = if bin {
        Just(Kind::Bin).boxed()
    } else {
        prop_oneof![Just(Kind::I32), Just(Kind::I64), Just(Kind::U64), Just(Kind::F64)].boxed()
    };
    let deep = tier == Tier::Thorough;
    // small blocks, many batches
    let small = (
        prop_oneof![4 => 1u32..=40, 3 => 1u32..=300, 1 => Just(1000u32), 1 => Just(4096u32)],
        vec(run(3000, 600, true), 0..=6),
        cuts(10),
    );
    // few rows: nearly exhaustive at the smallest scale
    let tiny = (
        1u32..=24,
        vec(
            prop_oneof![
                2 => (0u32..=3).prop_map(Run::Nulls),
                3 => (0u32..=3, (0u32..=9).prop_map(Len::Fixed), any::<u64>())
                    .prop_map(|(n, len, seed)| Run::Vals { n, len, seed }),
            ],
            0..=5,
        ),
        vec(prop_oneof![any::<u8>().prop_map(Cut::Run), (0u32..=20).prop_map(Cut::Row)], 0..=4),
    );
    // blocks of the production size
    let big_n = if deep { 300_000 } else { 150_000 };
    let large = (
        prop_oneof![Just(131072u32), Just(65536u32), 4000u32..=140_000],
        vec(run(big_n, 5000, true), 1..=4),
        cuts(6),
    );
    // many rows in one block: long validity runs, many offset packs
    let long = (
        prop_oneof![1u32..=40, 10_000u32..=200_000, Just(1_000_000u32)],
        vec(
            prop_oneof![
                2 => (0u32..=big_n).prop_map(Run::Nulls),
                3 => (0u32..=big_n, 0u32..=4, any::<u64>())
                    .prop_map(|(n, l, seed)| Run::Vals { n, len: Len::Upto(l), seed }),
                2 => (0u32..=big_n, 0u8..=100, 0u32..=4, any::<u64>())
                    .prop_map(|(n, null_pct, l, seed)| Run::Mix { n, null_pct, len: Len::Upto(l), seed }),
                1 => (0u32..=9, any::<u64>()).prop_map(|(n, seed)| Run::Vals { n, len: Len::Fixed(1), seed }),
            ],
            1..=4,
        ),
        cuts(4),
    );
    // single values of up to a few blocks
    let chunky = (
        prop_oneof![1u32..=40, Just(65536u32), Just(131072u32), 1u32..=400_000],
        vec(
            prop_oneof![
                1 => (0u32..=9).prop_map(Run::Nulls),
                1 => (1u32..=4, 0u32..=9, any::<u64>())
                    .prop_map(|(n, l, seed)| Run::Vals { n, len: Len::Upto(l), seed }),
                3 => (
                    1u32..=3,
                    prop_oneof![
                        2 => 0u32..=300_000,
                        2 => (1u32..=4, 0u32..=4).prop_map(|(k, d)| k * 65536 + d - 2),
                        1 => 0u32..=2_000_000,
                    ],
                    any::<u64>(),
                )
                    .prop_map(|(n, l, seed)| Run::Vals { n, len: Len::Fixed(l), seed }),
            ],
            1..=5,
        ),
        cuts(4),
    );
    let shape = prop_oneof![
        400 => small,
        300 => tiny,
        40 => large,
        (if bin { 4 } else { 0 }) => chunky,
        (if deep { 6 } else { 2 }) => long,
    ];
    (kind, any::<bool>(), shape, any::<u8>())
        .prop_map(move |(kind, nullable, (block_size, runs, cuts), reuse)| Col {
            kind,
            nullable,
            block_size: block_size as u64,
            runs: if bin { runs } else { no_len(runs) },
            cuts,
            reuse,
        })
        .boxed()
}

/// Columns whose row, value, byte or block counts pass 2^16, 2^17 and (one value) 2^24.
pub fn wide(bin: bool) -> Vec<Col> {
    let kinds = match bin {
        true => vec![Kind::Bin],
        false => vec![Kind::I32, Kind::I64, Kind::U64, Kind::F64],
    };
    let len = Len::Upto(3);
    let mut out = vec![];
    let mut k = 0usize;
    for n in [65_535u32, 65_536, 65_537, 131_072, 131_073, 300_000] {
        let shapes = [
            vec![Run::Vals { n, len: len.clone(), seed: n as u64 }],
            vec![Run::Nulls(n), Run::Vals { n: 3, len: len.clone(), seed: 1 }],
            vec![Run::Vals { n: 5, len: len.clone(), seed: 2 }, Run::Nulls(n)],
            vec![
                Run::Mix { n, null_pct: 50, len: len.clone(), seed: 3 },
                Run::Nulls(9),
                Run::Vals { n: 70, len: len.clone(), seed: 4 },
            ],
            vec![Run::Vals { n, len: Len::Spike { every: n - 1, len: 70_000 }, seed: 5 }],
        ];
        for (i, runs) in shapes.iter().enumerate() {
            for block_size in [1u64, 1000, 65_536, 131_072, 4 << 20] {
                if block_size == 1 && n > 66_000 {
                    continue;
                }
                k += 1;
                let nullable = i != 0 && i != 4 || k % 2 == 0;
                let cuts = match k % 4 {
                    0 => vec![],
                    1 => vec![Cut::Row(65_536)],
                    2 => vec![Cut::Row(65_535), Cut::Row(65_537)],
                    _ => vec![Cut::Row(3), Cut::Row(n - 1), Cut::Row(n / 2)],
                };
                out.push(Col {
                    kind: kinds[k % kinds.len()],
                    nullable,
                    block_size,
                    runs: if bin { runs.clone() } else { no_len(runs.clone()) },
                    cuts,
                    reuse: if k % 3 == 0 { 0 } else { 255 },
                });
            }
        }
    }
    // blocks that are never full
    for (i, block_size) in [1u64 << 31, (1 << 31) + 16, u32::MAX as u64, (1 << 32) + 16, 1 << 33].into_iter().enumerate() {
        for n in [300, 70_000] {
            if bin && block_size > u32::MAX as u64 {
                continue;
            }
            out.push(Col {
                kind: kinds[i % kinds.len()],
                nullable: i % 2 == 1,
                block_size,
                runs: if bin {
                    vec![Run::Vals { n, len: len.clone(), seed: 7 }]
                } else {
                    no_len(vec![Run::Vals { n, len: len.clone(), seed: 7 }])
                },
                cuts: vec![Cut::Row(7), Cut::Row(64), Cut::Row(150)],
                reuse: 255,
            });
        }
    }
    if bin {
        for l in [65_535u32, 65_536, (1 << 20) + 1, (1 << 24) - 1, (1 << 24) + 1] {
            for block_size in [1u64, 131_072, 1 << 25] {
                for cuts in [vec![], vec![Cut::Row(2)]] {
                    out.push(Col {
                        kind: Kind::Bin,
                        nullable: true,
                        block_size,
                        runs: vec![
                            Run::Vals { n: 1, len: Len::Fixed(2), seed: 1 },
                            Run::Nulls(1),
                            Run::Vals { n: 1, len: Len::Fixed(l), seed: 2 },
                            Run::Nulls(2),
                            Run::Vals { n: 3, len: Len::Fixed(1), seed: 3 },
                        ],
                        cuts,
                        reuse: 255,
                    });
                }
            }
        }
    }
    out
}
