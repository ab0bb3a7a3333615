//! C20: sizes at the 32-bit limits.

use anyhow::Result;
use async_trait::async_trait;
use futures::executor::block_on;
use meerkat::verif::buffer::{BinaryBuffer, PrimitiveBuffer};
use meerkat::verif::encoding::{new_binary_encoder, new_i32_encoder, BlockEncoder, BlockSink};
use meerkat::verif::metadata::Encoding;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::blocks::varint;
use crate::engine::{panics, Failure, Outcome, Prop, Stats, Tier};
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

const MAX: u64 = u32::MAX as u64;

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum ColKind {
    /// i32 without nulls
    Values,
    /// only nulls: everything is left to the final flush
    Nulls,
    /// i32, every other row null
    Half,
    /// byte strings of one byte
    Bytes,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Limit {
    /// appends to one binary buffer: big ones until `gap` bytes are left, then small ones
    Append { nullable: bool, big: Vec<u32>, gap: u32, small: Vec<u32> },
    /// copies of a source buffer, until the next does not fit
    Copy { nullable: bool, src: Vec<u32>, first: u32 },
    /// a column, with blocks of `block` bytes, that receives 2^32 - 1 - `gap` rows and then
    /// batches of the given sizes
    Column { kind: ColKind, block: u32, batch: u32, gap: u32, tail: Vec<u32> },
}

pub struct Limits;

fn append(nullable: bool, big: &[u32], gap: u32, small: &[u32]) -> Outcome {
    let mut s = Stats::default();
    let chunk = vec![0xABu8; *big.iter().max().unwrap_or(&1) as usize];
    let mut b = BinaryBuffer::new(nullable);
    let mut ends: Vec<u64> = vec![0];
    let mut total = 0u64;
    let target = MAX - gap as u64;
    let mut i = 0;
    while total < target {
        let n = (big[i % big.len()].max(1 << 20) as u64).min(target - total).min(chunk.len() as u64);
        i += 1;
        if let Err(m) = panics(|| b.append(&chunk[..n as usize])) {
            fail!("appending {} bytes to {} panicked: {}", n, total, m);
        }
        if nullable && i % 3 == 0 {
            b.append_null();
        }
        total += n;
        ends.push(total);
    }
    for n in small {
        let n = (*n as u64).min(chunk.len() as u64);
        let fits = total + n <= MAX;
        match panics(|| b.append(&chunk[..n as usize])) {
            Ok(()) => {
                ensure!(
                    fits,
                    "appending {} bytes to {} was accepted; the last offset is {:?}",
                    n,
                    total,
                    b.offsets().last()
                );
                total += n;
                ends.push(total);
            }
            Err(m) => {
                ensure!(!fits, "appending {} bytes to {} panicked: {}", n, total, m);
                s.nontrivial = true;
                s.class(true, "append refused");
                break;
            }
        }
    }
    s.class(total == MAX, "exactly 4 GiB - 1");
    offsets(&b, &ends)?;
    Ok(s)
}

/// The accepted items keep their offsets.
fn offsets(b: &BinaryBuffer, ends: &[u64]) -> R<()> {
    let got = b.offsets();
    ensure!(
        got.len() >= ends.len(),
        "{} offsets for {} accepted items",
        got.len(),
        ends.len() - 1
    );
    for (i, (g, w)) in got.iter().zip(ends).enumerate() {
        ensure!(*g as u64 == *w, "offset {} is {} instead of {}", i, g, w);
    }
    Ok(())
}

fn copy(nullable: bool, src: &[u32], first: u32) -> Outcome {
    let mut s = Stats::default();
    let chunk = vec![0xCDu8; *src.iter().max().unwrap_or(&1) as usize];
    let mut from = BinaryBuffer::new(nullable);
    for n in src {
        from.append(&chunk[..*n as usize]);
    }
    let size: u64 = src.iter().map(|n| *n as u64).sum();
    let mut to = BinaryBuffer::new(nullable);
    let mut ends = vec![0u64];
    let mut total = (first as u64).min(chunk.len() as u64);
    to.append(&chunk[..total as usize]);
    ends.push(total);
    loop {
        // copying up to exactly 4 GiB - 1 is not judged
        if total + size == MAX {
            return Ok(s);
        }
        let fits = total + size < MAX;
        match panics(|| to.append_from(&from, 0, src.len(), 0)) {
            Ok(_) => {
                ensure!(
                    fits,
                    "copying {} bytes to {} was accepted; the last offset is {:?}",
                    size,
                    total,
                    to.offsets().last()
                );
                for n in src {
                    total += *n as u64;
                    ends.push(total);
                }
            }
            Err(m) => {
                ensure!(!fits, "copying {} bytes to {} panicked: {}", size, total, m);
                s.nontrivial = true;
                s.class(true, "copy refused");
                break;
            }
        }
    }
    offsets(&to, &ends)?;
    Ok(s)
}

/// Checks labels as blocks arrive; keeps nothing.
struct LabelSink {
    kind: ColKind,
    rows: u64,
    blocks: u64,
    wrong: Option<String>,
    /// rows given to the encoder so far
    given: u64,
}

#[async_trait]
impl BlockSink for LabelSink {
    async fn write_block(&mut self, row_id: u32, data: &[u8]) -> Result<()> {
        self.blocks += 1;
        let len = varint(data).map(|v| v.0).unwrap_or(0);
        let last = row_id as u64;
        let wrong = match self.kind {
            // every row is a value: the block says how many there are
            ColKind::Values => last + 1 != self.rows + len / 4,
            ColKind::Bytes => last + 1 != self.rows + len,
            // rows 0, 2, 4... hold values; the last of a buffer may be followed by its null
            ColKind::Half => {
                let low = self.rows + len / 4 * 2 - 1;
                last + 1 != low && last != low
            }
            ColKind::Nulls => last + 1 != self.given,
        };
        if (wrong || last >= MAX) && self.wrong.is_none() {
            self.wrong = Some(format!(
                "block {} after {} rows carries {} value bytes and is labelled {} ({} rows were given)",
                self.blocks - 1,
                self.rows,
                len,
                row_id,
                self.given
            ));
        }
        self.rows = last + 1;
        Ok(())
    }
}

fn column(kind: ColKind, block: u32, batch: u32, gap: u32, tail: &[u32]) -> Outcome {
    match kind {
        ColKind::Bytes => column_of(
            kind,
            batch,
            gap,
            tail,
            new_binary_encoder(Encoding::Raw, block, false).expect("encoder"),
            |n| {
                let mut b = BinaryBuffer::new(false);
                for _ in 0..n {
                    b.append(b"x");
                }
                b
            },
        ),
        _ => column_of(
            kind,
            batch,
            gap,
            tail,
            new_i32_encoder(Encoding::Raw, block as usize, kind != ColKind::Values).expect("encoder"),
            |n| {
                let mut b = PrimitiveBuffer::new(kind != ColKind::Values);
                for i in 0..n {
                    match kind {
                        ColKind::Nulls => b.append_null(),
                        ColKind::Half if i % 2 == 1 => b.append_null(),
                        _ => b.append(i as i32),
                    }
                }
                b
            },
        ),
    }
}

fn column_of<B>(
    kind: ColKind,
    batch: u32,
    gap: u32,
    tail: &[u32],
    mut enc: Box<dyn BlockEncoder<B, LabelSink>>,
    buffer: impl Fn(u32) -> B,
) -> Outcome {
    let mut s = Stats::default();
    let mut sink = LabelSink {
        kind,
        rows: 0,
        blocks: 0,
        wrong: None,
        given: 0,
    };
    let full = buffer(batch);
    let target = MAX - gap as u64;
    let mut refused = None;
    let mut sizes = vec![];
    while sink.given + (batch as u64) <= target {
        sink.given += batch as u64;
        if let Err(m) = panics(|| block_on(enc.encode(&full, &mut sink)).expect("encode")) {
            fail!("a batch that ends at row {} was refused: {}", sink.given, m);
        }
        if let Some(w) = sink.wrong.take() {
            fail!("{}", w);
        }
    }
    sizes.push((target - sink.given) as u32);
    sizes.extend_from_slice(tail);
    for n in sizes {
        let b = buffer(n);
        sink.given += n as u64;
        let got = panics(|| block_on(enc.encode(&b, &mut sink)).expect("encode"));
        if let Some(w) = sink.wrong.take() {
            fail!("{}", w);
        }
        if let Err(m) = got {
            ensure!(
                sink.given > MAX,
                "a batch that ends at row {} was refused: {}",
                sink.given,
                m
            );
            refused = Some(m);
            break;
        }
    }
    if refused.is_none() {
        let got = panics(|| block_on(enc.flush(&mut sink)).map(|_| ()).expect("flush"));
        if let Some(w) = sink.wrong.take() {
            fail!("{}", w);
        }
        match got {
            Ok(()) => {
                ensure!(
                    sink.given <= MAX,
                    "{} rows were accepted, the last label is {}",
                    sink.given,
                    sink.rows.wrapping_sub(1)
                );
                ensure!(
                    sink.rows == sink.given,
                    "{} rows were written, the labels account for {}",
                    sink.given,
                    sink.rows
                );
                s.class(sink.given == MAX, "exactly 2^32 - 1 rows");
            }
            Err(m) => {
                ensure!(
                    sink.given > MAX,
                    "flushing {} rows panicked: {}",
                    sink.given,
                    m
                );
                refused = Some(m);
            }
        }
    }
    s.class(refused.is_some(), "block past 2^32 - 1 rows refused");
    s.class(true, &format!("column of {:?}", kind));
    s.nontrivial = true;
    s.points = sink.blocks;
    Ok(s)
}

impl Prop for Limits {
    type Case = Limit;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "A case brings a real buffer to within a few bytes of 4 GiB with generated appends, or copies, and goes on with \
         generated sizes across the limit: what fits must be accepted with exact offsets, what does not must panic; or writes \
         2^32 - 1 rows, less a generated gap, to a column encoder and goes on with generated batches. Non-trivial: the limit \
         was reached."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a copy that ends at exactly 4 GiB - 1 bytes is not judged (the code refuses it)"]
    }
    fn case_limit(&self) -> std::time::Duration {
        std::time::Duration::from_secs(500)
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Limit> {
        let big = vec(100_000_000u32..=1_200_000_000, 1..=5);
        prop_oneof![
            3 => (any::<bool>(), big, prop_oneof![0u32..=6, 0u32..=5000], vec(prop_oneof![0u32..=4, 0u32..=9000], 1..=12), any::<u32>())
                .prop_map(|(nullable, big, gap, mut small, last)| {
                    // always crosses in the end
                    small.push(gap + 1 + last % 1_000_000);
                    Limit::Append { nullable, big, gap, small }
                }),
            3 => (any::<bool>(), vec(prop_oneof![2 => 50_000_000u32..=600_000_000, 1 => 0u32..=1000], 1..=4), 0u32..=100_000)
                .prop_map(|(nullable, mut src, first)| {
                    src.push(90_000_000);
                    Limit::Copy { nullable, src, first }
                }),
            2 => (1_000_001u32..=6_000_000, 900_000u32..=5_000_000, prop_oneof![0u32..=20, 0u32..=3_000_000],
                  vec(prop_oneof![0u32..=20, 0u32..=3_000_000], 0..=4))
                .prop_map(|(block, batch, gap, tail)| Limit::Column { kind: ColKind::Values, block, batch, gap, tail }),
        ]
        .boxed()
    }
    fn fixed(&self, tier: Tier) -> Vec<Limit> {
        let col = |kind, block, batch, gap, tail: &[u32]| Limit::Column {
            kind,
            block,
            batch,
            gap,
            tail: tail.to_vec(),
        };
        let mut v = vec![
            // a block that would end exactly one row past the limit
            col(ColKind::Bytes, 1 << 20, 1 << 20, 0, &[1]),
            col(ColKind::Values, 4 << 20, (1 << 20) + 7, 3, &[2, 1, 1]),
            // blocks that would end some way past it, when full or when flushed
            col(ColKind::Values, 4_000_012, 3 << 20, 1_000_000, &[2_000_000]),
            col(ColKind::Values, 4 << 20, 1 << 20, 0, &[100]),
            col(ColKind::Nulls, 4 << 20, 1 << 22, 0, &[900]),
            col(ColKind::Values, 4 << 20, 1 << 20, 0, &[]),
        ];
        if tier == Tier::Thorough {
            v.extend([
                col(ColKind::Half, 4 << 20, 1 << 21, 0, &[1]),
                col(ColKind::Half, 3_999_996, (1 << 21) + 1, 5, &[]),
                col(ColKind::Half, 4 << 20, 1 << 21, 0, &[77]),
                col(ColKind::Nulls, 4 << 20, 1 << 22, 0, &[]),
                col(ColKind::Bytes, 1 << 20, (1 << 20) + 3, 2, &[1, 1]),
                col(ColKind::Bytes, 1_000_003, 3 << 20, 500_000, &[400_000, 200_000]),
                col(ColKind::Bytes, 1 << 20, 1 << 20, 3, &[2, 50]),
                col(ColKind::Values, 4 << 20, 900_000, 17, &[10, 7, 0]),
            ]);
        }
        v
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 10,
            Tier::Thorough => 80,
        }
    }
    fn threads(&self) -> usize {
        3
    }
    fn run(&self, c: &Limit) -> Outcome {
        match c {
            Limit::Append {
                nullable,
                big,
                gap,
                small,
            } => append(*nullable, big, *gap, small),
            Limit::Copy {
                nullable,
                src,
                first,
            } => copy(*nullable, src, *first),
            Limit::Column {
                kind,
                block,
                batch,
                gap,
                tail,
            } => column(*kind, *block, *batch, *gap, tail),
        }
    }
}
