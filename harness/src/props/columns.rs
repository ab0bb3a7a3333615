//! C01-C04, C17: column encoders.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::blocks::{decode_column, same_rows, varint};
use crate::col::{col, encode, encode_col, wide, Col, Encoded};
use crate::engine::{Failure, Outcome, Prop, Stats, Tier};
use crate::gen::{batch_ends, cuts, value_prefix, Cut, Rows};
use crate::{ensure, fail};

fn classify(s: &mut Stats, c: &Col, rows: &Rows, e: &Encoded) {
    s.class(c.nullable && rows.nulls() > 0, "has nulls");
    s.class(rows.len() > 0 && rows.values() == 0, "only nulls");
    s.class(rows.valid.last() == Some(&false), "ends with nulls");
    s.class(e.batches > 1, "several batches");
    s.class(e.batches > 1 && c.reuse & 0xfe != 0, "buffer reused");
    s.class(e.before_flush > 1, "several blocks before flush");
    s.class(e.blocks.len() > e.before_flush, "flush emits a block");
    s.class(rows.len() > 65536, "more than 65536 rows");
    s.class(c.block_size >= 65536, "block size of 64 KiB or more");
    s.class(c.block_size < 64, "block size below 64");
    s.class(c.kind.width().is_none() && rows.values() > 128, "more than 128 items");
}

fn clean(e: &Encoded) -> Result<(), Failure> {
    if let Some(err) = &e.error {
        fail!("encoding failed although the sink accepts every block: {}", err);
    }
    Ok(())
}

/// C01 and C02.
pub struct RoundTrip {
    pub bin: bool,
}

impl Prop for RoundTrip {
    type Case = Col;
    fn id(&self) -> &'static str {
        if self.bin {
            "C02"
        } else {
            "C01"
        }
    }
    fn rule(&self) -> &'static str {
        "A case is a column: element type, nullability, block size (1 to 131072), runs of nulls, values and mixes (0 to \
         ~150000 rows), batch boundaries, and which batches reuse a cleared buffer; fixed cases pass 2^16 and 2^17 rows and bytes, and 2^24 \
         bytes in one byte string. It is encoded by the real encoder, the \
         blocks are decoded by an independent decoder and compared with the rows. Non-trivial: at least two blocks, or one \
         block plus two or more batches, and at least one value."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "block size is at least 1",
            "little-endian host (the encoder stores native byte order; the layout is little-endian)",
        ]
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Col> {
        col(self.bin, tier)
    }
    fn fixed(&self, _tier: Tier) -> Vec<Col> {
        wide(self.bin)
    }
    fn cases(&self, tier: Tier) -> u64 {
        match (tier, self.bin) {
            (Tier::Quick, false) => 1_000_000,
            (Tier::Quick, true) => 700_000,
            (Tier::Thorough, _) => 8_000_000,
        }
    }
    fn run(&self, c: &Col) -> Outcome {
        let rows = c.rows();
        let e = encode_col(c, &rows, None);
        clean(&e)?;
        let d = decode_column(&e.refs(), c.kind.width(), c.nullable, &rows.valid)?;
        same_rows(&d, &rows, c.kind.width(), false)?;
        let mut s = Stats {
            nontrivial: rows.values() > 0
                && (e.blocks.len() > 1 || (!e.blocks.is_empty() && e.batches > 1)),
            ..Stats::default()
        };
        classify(&mut s, c, &rows, &e);
        Ok(s)
    }
}

/// C03.
pub struct Labels;

impl Prop for Labels {
    type Case = Col;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "Columns as in C01 and C02 (fixed-width and binary, equally often). Labels must strictly increase, the last one plus \
         one must be the number of rows, and every label must fall between the row of the last value stored in its block and \
         the row of the first value stored in the next one; the validity in the block must then be that of the rows the \
         label assigns to it. Non-trivial: at least two blocks."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Col> {
        any::<bool>()
            .prop_flat_map(move |bin| col(bin, tier))
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Col> {
        [wide(false), wide(true)].concat()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 800_000,
            Tier::Thorough => 8_000_000,
        }
    }
    fn run(&self, c: &Col) -> Outcome {
        let rows = c.rows();
        let e = encode_col(c, &rows, None);
        clean(&e)?;
        let labels: Vec<u32> = e.blocks.iter().map(|b| b.label).collect();
        if let Some(w) = labels.windows(2).find(|w| w[0] >= w[1]) {
            fail!("labels do not increase: {} then {}", w[0], w[1]);
        }
        match labels.last() {
            Some(l) => ensure!(
                *l as u64 + 1 == rows.len() as u64,
                "last label is {} after {} rows",
                l,
                rows.len()
            ),
            None => ensure!(rows.len() == 0, "no block for {} rows", rows.len()),
        }
        let row_of: Vec<usize> = (0..rows.len()).filter(|r| rows.valid[*r]).collect();
        if let Some(w) = c.kind.width() {
            // values per block are known from the block alone
            let mut n = 0;
            for (i, b) in e.blocks.iter().enumerate() {
                n += varint(&b.data)?.0 as usize / w;
                ensure!(n <= row_of.len(), "blocks hold more values than were written");
                if n > 0 {
                    ensure!(
                        row_of[n - 1] <= b.label as usize,
                        "block {} is labelled {} but holds the value of row {}",
                        i,
                        b.label,
                        row_of[n - 1]
                    );
                }
                if n < row_of.len() {
                    ensure!(
                        (b.label as usize) < row_of[n],
                        "block {} is labelled {} but row {} has its value in a later block",
                        i,
                        b.label,
                        row_of[n]
                    );
                }
            }
        }
        let d = decode_column(&e.refs(), c.kind.width(), c.nullable, &rows.valid)?;
        ensure!(
            d.valid == rows.valid,
            "the rows a label assigns to a block are not the rows the block holds"
        );
        let mut s = Stats {
            nontrivial: e.blocks.len() > 1,
            ..Stats::default()
        };
        classify(&mut s, c, &rows, &e);
        s.class(c.kind.width().is_none(), "binary");
        Ok(s)
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct TwoWays {
    pub col: Col,
    pub other: Vec<Cut>,
    pub other_reuse: u8,
}

/// C04.
pub struct Sizes;

impl Prop for Sizes {
    type Case = TwoWays;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "A case is a column as in C01/C02 with two different batchings of the same rows. For each: every block before flush \
         carries at least the block size in value bytes and less without its last value, no write leaves a full block of value bytes unwritten, flush emits one block if and only \
         if rows are left. The values per block of both batchings must be equal. Non-trivial: a block before flush exists \
         and the batchings differ."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["which block holds a null between two blocks' values is not specified, so only values are compared"]
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<TwoWays> {
        (
            any::<bool>().prop_flat_map(move |bin| col(bin, tier)),
            cuts(10),
            any::<u8>(),
        )
            .prop_map(|(col, other, other_reuse)| TwoWays {
                col,
                other,
                other_reuse,
            })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<TwoWays> {
        [wide(false), wide(true)]
            .concat()
            .into_iter()
            .map(|col| TwoWays {
                col,
                other: vec![Cut::Row(1), Cut::Row(65_536)],
                other_reuse: 0,
            })
            .collect()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 500_000,
            Tier::Thorough => 5_000_000,
        }
    }
    fn run(&self, t: &TwoWays) -> Outcome {
        let c = &t.col;
        let rows = c.rows();
        let first = batch_ends(&c.cuts, &rows);
        let second = batch_ends(&t.other, &rows);
        let mut cuts: Vec<Vec<usize>> = vec![];
        let mut s = Stats::default();
        for (ends, reuse) in [(&first, c.reuse), (&second, t.other_reuse)] {
            let e = encode(c.kind, c.nullable, c.block_size, &rows, ends, reuse, None);
            clean(&e)?;
            let bs = c.block_size as u64;
            // sizes come from the blocks, value boundaries from the rows written
            let item = |i: usize| match c.kind.width() {
                Some(w) => w as u64,
                None => (rows.off[i + 1] - rows.off[i]) as u64,
            };
            let d = decode_column(&e.refs(), c.kind.width(), c.nullable, &rows.valid)?;
            let mut n = 0;
            for (i, b) in e.blocks.iter().enumerate() {
                let size = varint(&b.data)?.0;
                n += d.values_per_block[i];
                ensure!(n <= rows.values(), "more values than were written");
                if i < e.before_flush {
                    ensure!(
                        size >= bs,
                        "block {} carries {} value bytes, the block size is {}",
                        i,
                        size,
                        bs
                    );
                    let last = item(n - 1);
                    ensure!(
                        size - last.min(size) < bs,
                        "block {} carries {} value bytes, of which its last value has {}: it should have been cut at {}",
                        i,
                        size,
                        last,
                        bs
                    );
                }
            }
            // no full block waits for later rows
            let prefix = value_prefix(&rows.valid);
            for (i, (end, k)) in ends.iter().zip(&e.by_batch).enumerate() {
                let from = match k {
                    0 => 0,
                    k => (e.blocks[k - 1].label as usize + 1).min(*end),
                };
                let (v0, v1) = (prefix[from], prefix[*end]);
                let held = match c.kind.width() {
                    Some(w) => (v1 - v0) as u64 * w as u64,
                    None => (rows.off[v1] - rows.off[v0]) as u64,
                };
                ensure!(
                    held < bs,
                    "batch {} was written, and {} value bytes, enough for a block of {}, were held back",
                    i,
                    held,
                    bs
                );
            }
            let covered = match e.before_flush {
                0 => 0,
                k => e.blocks[k - 1].label as usize + 1,
            };
            let by_flush = e.blocks.len() - e.before_flush;
            ensure!(
                by_flush == (covered < rows.len()) as usize,
                "flush emitted {} blocks with {} rows left over",
                by_flush,
                rows.len().saturating_sub(covered)
            );
            let mut per = d.values_per_block.clone();
            while per.last() == Some(&0) {
                per.pop();
            }
            s.nontrivial |= e.before_flush > 0;
            classify(&mut s, c, &rows, &e);
            cuts.push(per);
        }
        ensure!(
            cuts[0] == cuts[1],
            "values per block depend on the batching: {:?} and {:?}",
            &cuts[0][..cuts[0].len().min(40)],
            &cuts[1][..cuts[1].len().min(40)]
        );
        s.nontrivial &= first != second;
        s.classes.sort();
        s.classes.dedup();
        Ok(s)
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Rejected {
    pub col: Col,
    /// the block to reject, modulo the number of blocks of the healthy run
    pub at: u32,
}

/// C17.
pub struct FailingSink;

impl Prop for FailingSink {
    type Case = Rejected;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "A column as in C01/C02 is first encoded into a healthy sink, then once per rejected block: every block position of \
         the healthy run when there are at most 24, otherwise the first, the last, the last before flush and generated ones. \
         The call emitting the rejected block must return that error, no call before it may fail, and the accepted blocks \
         must be a prefix of the healthy run. Non-trivial: at least two blocks and a rejection after the first."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Rejected> {
        (
            any::<bool>().prop_flat_map(move |bin| col(bin, tier)),
            any::<u32>(),
        )
            .prop_map(|(col, at)| Rejected { col, at })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 600_000,
            Tier::Thorough => 5_000_000,
        }
    }
    fn run(&self, t: &Rejected) -> Outcome {
        let c = &t.col;
        let rows = c.rows();
        let ends = batch_ends(&c.cuts, &rows);
        let enc = |at| encode(c.kind, c.nullable, c.block_size, &rows, &ends, c.reuse, at);
        let healthy = enc(None);
        clean(&healthy)?;
        let n = healthy.blocks.len();
        let mut at: Vec<usize> = if n <= 24 {
            (0..n).collect()
        } else {
            let mut v = vec![0, n - 1, healthy.before_flush.max(1) - 1];
            for i in 0..5 {
                v.push((t.at.wrapping_mul(2 * i + 1)) as usize % n);
            }
            v
        };
        at.sort_unstable();
        at.dedup();
        for k in &at {
            let e = enc(Some(*k));
            let want = format!("sink rejected block {}", k);
            match &e.error {
                None => fail!("block {} was rejected but every call succeeded", k),
                Some(m) => ensure!(
                    m.contains(&want),
                    "block {} was rejected with {:?} but the call returned {:?}",
                    k,
                    want,
                    m
                ),
            }
            ensure!(
                e.offered == k + 1,
                "block {} was rejected but the erring call returned after block {}",
                k,
                e.offered - 1
            );
            ensure!(
                e.blocks[..] == healthy.blocks[..*k],
                "blocks accepted before the rejected one differ from the healthy run"
            );
            ensure!(
                e.error_in_batch.is_some() == (*k < healthy.before_flush),
                "block {} of {} before flush was rejected; error reported in {:?}",
                k,
                healthy.before_flush,
                e.error_in_batch
            );
        }
        let mut s = Stats {
            nontrivial: at.iter().any(|k| *k > 0),
            ..Stats::default()
        };
        s.class(at.iter().any(|k| *k >= healthy.before_flush), "flush's block rejected");
        s.class(at.iter().any(|k| *k < healthy.before_flush), "encode's block rejected");
        s.class(value_prefix(&rows.valid).len() > 1000, "more than 1000 rows");
        s.class(c.kind.width().is_none(), "binary");
        Ok(s)
    }
}
