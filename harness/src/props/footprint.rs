//! C26: memory does not grow with what was written or read.

use futures::executor::block_on as simple_block_on;
use futures::StreamExt;
use meerkat::verif::buffer::{BinaryBuffer, PrimitiveBuffer};
use meerkat::verif::encoding::{
    new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
    BlockEncoder, BlockSink,
};
use meerkat::verif::io::{outcome, read_op, BlockReader, BlockWriter, DiskBlockReader, OpInfo};
use meerkat::verif::metadata::{ColumnType, Encoding, IndexType};
use meerkat::verif::segment::{ColumnInfo, SegmentInfo, SegmentWriter};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use uuid::Uuid;

use crate::col::Kind;
use crate::engine::{Failure, Outcome, Prop, Stats, Tier};
use crate::faults::{FilePlan, Guard};
use crate::gen::Mix;
use crate::heap::held;
use crate::scratch::{block_on, Scratch};
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

const BLOCK: i64 = 128 << 10;

/// A stream of batches.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Flow {
    /// rows of a batch, cycled
    pub batches: Vec<u16>,
    pub null_pct: u8,
    /// item lengths of binary rows, cycled
    pub lens: Vec<u16>,
    /// what is written in all is this many times the bound
    pub times: u8,
    pub reuse: bool,
    pub seed: u64,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Footprint {
    Column { kind: Kind, nullable: bool, block_size: u32, flow: Flow },
    Segment { cols: Vec<(bool, Flow)> },
    Writer { blocks: Vec<u32>, times: u8 },
    Reader { blocks: u16, size: u32, batches: u8, keep: u8 },
    /// made, used up to a stage, and dropped, again and again
    Churn { what: What, nullable: bool, block_size: u32, rows: u16, stage: u8, cycles: u16 },
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum What {
    Encoder(Kind),
    Segment,
    Writer,
    Reader,
}

pub struct Bounded;

/// What may be held: a fixed amount, a few blocks and batches, and the rows of the open block.
struct Bound {
    base: i64,
    slack: i64,
    block: i64,
    batch: i64,
    open: i64,
    worst: i64,
}

impl Bound {
    fn new(slack: i64, block: i64) -> Bound {
        Bound { base: held(), slack, block, batch: 0, open: 0, worst: 0 }
    }
    fn limit(&self) -> i64 {
        self.slack + 12 * (self.block + self.batch) + 32 * self.open
    }
    fn check(&mut self, what: &str, written: i64) -> R<()> {
        let now = held() - self.base;
        self.worst = self.worst.max(now);
        ensure!(
            now <= self.limit(),
            "{}: {} bytes are held after {} were written, with blocks of {}, batches of at most {} bytes and at most {} open rows",
            what,
            now,
            written,
            self.block,
            self.batch,
            self.open
        );
        Ok(())
    }
}

/// Bytes held, waiting a while for them to come down to `limit`: blocking tasks that have answered may still be about to free their side.
async fn settled(limit: i64) -> i64 {
    let start = std::time::Instant::now();
    let patience = if limit == i64::MIN { 30 } else { 5000 };
    while held() > limit && start.elapsed().as_millis() < patience {
        tokio::time::sleep(std::time::Duration::from_millis(5)).await;
    }
    held()
}

/// Appends `n` bytes that no other row has.
fn text(b: &mut BinaryBuffer, r: u64, n: usize) -> i64 {
    let mut bytes = [0x61; 4096];
    let n = n.min(bytes.len());
    let k = n.min(8);
    bytes[..k].copy_from_slice(&r.to_le_bytes()[..k]);
    b.append(&bytes[..n]);
    n as i64
}

struct Count {
    blocks: u64,
    /// rows up to the last block
    rows: i64,
}

#[async_trait::async_trait]
impl BlockSink for Count {
    async fn write_block(&mut self, row_id: u32, _: &[u8]) -> anyhow::Result<()> {
        self.blocks += 1;
        self.rows = row_id as i64 + 1;
        Ok(())
    }
}

/// Appends one batch; returns the bytes it holds.
fn fill<B>(
    buf: &mut B,
    flow: &Flow,
    nullable: bool,
    rows: i64,
    m: &mut Mix,
    value: impl Fn(&mut B, u64, usize) -> i64,
    null: impl Fn(&mut B),
) -> i64 {
    let mut bytes = 0;
    for i in 0..rows {
        let r = m.next();
        if nullable && r % 100 < flow.null_pct as u64 {
            null(buf);
        } else {
            let len = flow.lens.get(i as usize % flow.lens.len().max(1)).copied().unwrap_or(4);
            bytes += value(buf, r, len as usize);
        }
    }
    bytes + rows
}

fn column<B>(
    mut enc: Box<dyn BlockEncoder<B, Count>>,
    nullable: bool,
    block_size: u32,
    flow: &Flow,
    base: i64,
    new: impl Fn() -> B,
    clear: impl Fn(&mut B),
    value: impl Fn(&mut B, u64, usize) -> i64 + Copy,
    null: impl Fn(&mut B) + Copy,
) -> R<(i64, u64)> {
    let mut b = Bound::new(256 << 10, block_size as i64);
    b.base = base;
    let mut sink = Count { blocks: 0, rows: 0 };
    let mut m = Mix(flow.seed);
    let mut buf = new();
    let (mut written, mut rows, mut k) = (0i64, 0i64, 0);
    // a small block size makes many blocks: enough of them to show a few bytes kept for each
    while written < b.limit() * flow.times as i64 && (sink.blocks < 400_000 || written < b.limit()) {
        let n = flow.batches[k % flow.batches.len()] as i64;
        k += 1;
        if flow.reuse {
            clear(&mut buf);
        } else {
            buf = new();
        }
        let bytes = fill(&mut buf, flow, nullable, n, &mut m, value, null);
        b.batch = b.batch.max(bytes + 8 * n);
        b.open = b.open.max(rows + n - sink.rows);
        if let Err(e) = simple_block_on(enc.encode(&buf, &mut sink)) {
            fail!("encode failed although nothing is wrong: {:#}", e);
        }
        rows += n;
        written += bytes + 1;
        b.check("after a write", written)?;
        // columns of mostly nulls keep their open block open
        if b.open > 1 << 20 {
            break;
        }
    }
    drop(buf);
    if let Err(e) = simple_block_on(enc.flush(&mut sink)) {
        fail!("flush failed although nothing is wrong: {:#}", e);
    }
    drop(enc);
    let left = held() - base;
    ensure!(left <= 64 << 10, "{} bytes are still held once the encoder is gone", left);
    Ok((written / b.limit().max(1), sink.blocks))
}

impl Prop for Bounded {
    type Case = Footprint;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "A counting allocator gives the bytes held by the process, which runs one case at a time. A case streams generated \
         batches through a column encoder, a segment writer (discarding file writes) or a block writer, or reads batches of \
         blocks and drops them, up to several times the memory allowed: 12 blocks and batches, 32 bytes per row of the open \
         block, and 256 KiB (encoders) or 8 MiB (files). It is judged after every write and every block, and after the \
         drop. Or it makes encoders, writers or readers, uses them up to some stage and drops them, a few hundred times. Non-trivial: at least twice the allowed memory passed through, or more than 1000 blocks."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["memory is what is allocated through the Rust allocator; a fixed amount of up to 8 MiB is not judged"]
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Footprint> {
        let deep = tier == Tier::Thorough;
        let flow = move || {
            (
                prop_oneof![
                    2 => vec(1u16..=40, 1..=4),
                    2 => vec(0u16..=3000, 1..=4),
                    1 => vec(prop_oneof![Just(0u16), Just(1), 1000u16..=9000], 2..=5),
                ],
                prop_oneof![3 => Just(0u8), 2 => 1u8..=60, 1 => 60u8..=98],
                prop_oneof![
                    2 => vec(0u16..=40, 1..=5),
                    1 => vec(prop_oneof![Just(0u16), Just(1), 100u16..=2000], 1..=6),
                    1 => vec(1u16..=9, 1..=3),
                ],
                2u8..=if deep { 24 } else { 6 },
                any::<bool>(),
                any::<u64>(),
            )
                .prop_map(|(batches, null_pct, mut lens, times, reuse, seed)| {
                    if lens.iter().all(|n| *n == 0) {
                        lens.push(7);
                    }
                    let mut batches = batches;
                    if batches.iter().all(|n| *n == 0) {
                        batches.push(11);
                    }
                    // batches of at most half a MiB or so
                    let most = *lens.iter().max().unwrap() as u32;
                    for n in &mut batches {
                        *n = (*n as u32).min(500_000 / (most + 1)) as u16;
                    }
                    Flow { batches, null_pct, lens, times, reuse, seed }
                })
        };
        let block = prop_oneof![
            2 => 1u32..=64,
            2 => 64u32..=4096,
            2 => 4096u32..=150_000,
            1 => Just(128u32 << 10),
        ];
        prop_oneof![
            6 => (
                prop_oneof![Just(Kind::I32), Just(Kind::I64), Just(Kind::U64), Just(Kind::F64), Just(Kind::Bin), Just(Kind::Bin), Just(Kind::Bin)],
                any::<bool>(),
                block,
                flow(),
            )
                .prop_map(|(kind, nullable, block_size, flow)| Footprint::Column { kind, nullable, block_size, flow }),
            2 => vec((any::<bool>(), flow()), 1..=4).prop_map(|cols| Footprint::Segment { cols }),
            1 => (vec(prop_oneof![1u32..=300, 1000u32..=200_000, Just(1 << 20)], 1..=5), 2u8..=4)
                .prop_map(|(blocks, times)| Footprint::Writer { blocks, times }),
            2 => (1u16..=2000, prop_oneof![1u32..=300, 4000u32..=300_000], 1u8..=4, 0u8..=40)
                .prop_map(|(blocks, size, batches, keep)| Footprint::Reader { blocks, size, batches, keep }),
            2 => (
                prop_oneof![
                    2 => prop_oneof![Just(Kind::I32), Just(Kind::I64), Just(Kind::U64), Just(Kind::F64), Just(Kind::Bin)].prop_map(What::Encoder),
                    2 => Just(What::Segment),
                    1 => Just(What::Writer),
                    2 => Just(What::Reader),
                ],
                any::<bool>(),
                prop_oneof![1u32..=64, 64u32..=4096, 4096u32..=150_000],
                0u16..=300,
                0u8..=4,
                400u16..=if deep { 2000 } else { 700 },
            )
                .prop_map(|(what, nullable, block_size, rows, stage, cycles)| Footprint::Churn { what, nullable, block_size, rows, stage, cycles }),
        ]
        .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Footprint> {
        let flow = |batches: Vec<u16>, null_pct, lens: Vec<u16>| Flow { batches, null_pct, lens, times: 6, reuse: true, seed: 7 };
        let mut v = vec![];
        for nullable in [false, true] {
            for kind in [Kind::I32, Kind::F64, Kind::Bin] {
                for block_size in [1, 100, 5000, 128 << 10] {
                    v.push(Footprint::Column { kind, nullable, block_size, flow: flow(vec![700, 3, 40], 20, vec![5, 0, 31]) });
                }
            }
        }
        v.push(Footprint::Segment { cols: vec![(true, flow(vec![900], 10, vec![200, 0, 3])), (false, flow(vec![3000], 0, vec![60]))] });
        v.push(Footprint::Writer { blocks: vec![128 << 10, 40], times: 4 });
        for what in [What::Encoder(Kind::I64), What::Encoder(Kind::Bin), What::Segment, What::Writer, What::Reader] {
            for stage in 0..=4 {
                v.push(Footprint::Churn { what, nullable: stage % 2 == 0, block_size: 300, rows: 200, stage, cycles: 600 });
            }
        }
        v.push(Footprint::Reader { blocks: 1200, size: 128 << 10, batches: 3, keep: 2 });
        v
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 500,
            Tier::Thorough => 8_000,
        }
    }
    /// what other cases hold would be counted
    fn threads(&self) -> usize {
        1
    }
    fn run(&self, c: &Footprint) -> Outcome {
        let mut s = Stats::default();
        let base = held();
        match c {
            Footprint::Column { kind, nullable, block_size, flow } => {
                let (nb, bs) = (*nullable, *block_size as usize);
                macro_rules! prim {
                    ($new:ident, $t:ty) => {
                        column(
                            $new(Encoding::Raw, bs, nb).expect("raw encoder"),
                            nb,
                            *block_size,
                            flow,
                            base,
                            || PrimitiveBuffer::<$t>::new(nb),
                            |b| b.clear(),
                            |b, r, _| {
                                b.append(r as $t);
                                std::mem::size_of::<$t>() as i64
                            },
                            |b| b.append_null(),
                        )?
                    };
                }
                let (times, blocks) = match kind {
                    Kind::I32 => prim!(new_i32_encoder, i32),
                    Kind::I64 => prim!(new_i64_encoder, i64),
                    Kind::U64 => prim!(new_u64_encoder, u64),
                    Kind::F64 => prim!(new_f64_encoder, f64),
                    Kind::Bin => column(
                        new_binary_encoder(Encoding::Raw, *block_size, nb).expect("raw encoder"),
                        nb,
                        *block_size,
                        flow,
                        base,
                        || BinaryBuffer::new(nb),
                        |b| b.clear(),
                        text,
                        |b| b.append_null(),
                    )?,
                };
                s.nontrivial = times >= 2 || blocks > 1000;
                s.points = blocks;
                s.class(true, "column encoder");
                s.class(*nullable, "nullable");
                s.class(blocks > 100_000, "over 100000 blocks");
            }
            Footprint::Segment { cols } => {
                let dir = Scratch::new();
                let swallow = FilePlan { swallow: true, ..FilePlan::default() };
                let g = Guard::new(dir.path(), vec![("dat", swallow.clone()), ("idx", swallow)]);
                let passed = block_on(self.segment(cols, dir.path()))?;
                s.nontrivial = passed > 2 * (8 << 20);
                drop(g);
                drop(dir);
                let left = held() - base;
                ensure!(left <= 256 << 10, "{} bytes are still held once the segment writer is gone", left);
                s.class(true, "segment writer");
            }
            Footprint::Writer { blocks, times } => {
                let dir = Scratch::new();
                let g = Guard::new(dir.path(), vec![("dat", FilePlan { swallow: true, ..FilePlan::default() })]);
                let data = vec![7u8; *blocks.iter().max().unwrap() as usize];
                let mut b = Bound::new(8 << 20, data.len() as i64);
                let mut n = 0;
                block_on(async {
                    let mut w = BlockWriter::new(dir.path().join("a.dat")).await.expect("create");
                    let mut pos = 0;
                    while pos < b.limit() * *times as i64 && (n < 30_000 || n as i64 * 100 < b.limit()) {
                        let len = blocks[n % blocks.len()] as usize;
                        w.write_block(&data[..len]).await.expect("write");
                        pos += len as i64;
                        n += 1;
                        if n % 16 == 0 || len > 1000 {
                            b.check("block writer", pos)?;
                        }
                        if n > 120_000 {
                            break;
                        }
                    }
                    s.nontrivial = pos > 2 * b.limit();
                    R::Ok(())
                })?;
                drop((g, data, dir));
                s.points = n as u64;
                s.class(true, "block writer");
            }
            Footprint::Reader { blocks, size, batches, keep } => {
                let dir = Scratch::new();
                let path = dir.path().join("a.dat");
                let len = *blocks as u64 * *size as u64;
                std::fs::File::create(&path).and_then(|f| f.set_len(len)).expect("sparse file");
                let mut b = Bound::new(8 << 20, *size as i64);
                // read ahead, and what the batches themselves take
                let ahead = 34 * *size as i64 + *blocks as i64 * 512;
                block_on(async {
                    let reader = match DiskBlockReader::new(&path).await {
                        Ok(r) => r,
                        Err(e) => fail!("cannot open for reading: {}", e),
                    };
                    for k in 0..*batches {
                        let ops = (0..*blocks as u64)
                            .map(|i| {
                                let i = if k % 2 == 1 { *blocks as u64 - 1 - i } else { i };
                                read_op(i * *size as u64, (i + 1) * *size as u64, OpInfo::DataBlock { first_row_id: i as u32 })
                            })
                            .collect();
                        let mut stream = reader.read_blocks(ops);
                        let mut n = 0;
                        while let Some(r) = stream.next().await {
                            let (_, r) = outcome(r);
                            if let Err(e) = r {
                                fail!("block {} cannot be read: {}", n, e);
                            }
                            n += 1;
                            if n % 8 == 0 {
                                b.open = 0;
                                b.batch = ahead;
                                b.check("reading blocks that are dropped at once", n * *size as i64)?;
                            }
                        }
                    }
                    // single reads
                    for i in 0..*keep as u64 {
                        let at = i * 7919 % *blocks as u64 * *size as u64;
                        if let Err(e) = reader.read_block(meerkat::verif::io::range(at, at + *size as u64)).await {
                            fail!("block at {} cannot be read: {}", at, e);
                        }
                    }
                    b.batch = 0;
                    b.block = *size as i64;
                    // blocking tasks that have answered may still be about to free their side
                    let start = std::time::Instant::now();
                    while held() - b.base > b.limit() && start.elapsed().as_secs() < 5 {
                        tokio::time::sleep(std::time::Duration::from_millis(5)).await;
                    }
                    b.check("an idle reader whose blocks were all dropped", len as i64 * *batches as i64)
                })?;
                s.nontrivial = *batches as u64 * len > 16 << 20;
                s.points = *blocks as u64 * *batches as u64;
                s.class(true, "reader");
            }
            Footprint::Churn { what, nullable, block_size, rows, stage, cycles } => {
                let dir = Scratch::new();
                let r = block_on(self.churn(*what, *nullable, *block_size, *rows, *stage, *cycles as usize, dir.path()));
                r?;
                s.nontrivial = true;
                s.points = *cycles as u64;
                s.class(true, "made and dropped again and again");
            }
        }
        Ok(s)
    }
}

impl Bounded {
    #[allow(clippy::too_many_arguments)]
    async fn churn(&self, what: What, nullable: bool, block_size: u32, rows: u16, stage: u8, cycles: usize, dir: &std::path::Path) -> R<()> {
        let path = dir.join("a.dat");
        let warm = cycles / 4;
        let mut base = 0;
        if what == What::Reader {
            std::fs::write(&path, vec![5; 4096]).expect("scratch file");
        }
        for k in 0..cycles {
            if k == warm {
                base = settled(i64::MIN).await;
            }
            match what {
                What::Encoder(kind) => self.encoder_once(kind, nullable, block_size, rows, stage)?,
                What::Segment => self.segment_once(nullable, block_size, rows, stage, dir).await?,
                What::Writer => {
                    let mut w = match BlockWriter::new(&path).await {
                        Ok(w) => w,
                        Err(e) => fail!("cannot create: {}", e),
                    };
                    let data = vec![1; rows as usize * 8];
                    for _ in 0..stage {
                        if let Err(e) = w.write_block(&data).await {
                            fail!("cannot write: {}", e);
                        }
                    }
                    if stage > 2 {
                        let _ = w.flush().await;
                    }
                }
                What::Reader => {
                    let reader = match DiskBlockReader::new(&path).await {
                        Ok(r) => r,
                        Err(e) => fail!("cannot open for reading: {}", e),
                    };
                    // some past the end
                    let ops = (0..rows as u64 % 20)
                        .map(|i| read_op(i * 300, i * 300 + 280, OpInfo::DataBlock { first_row_id: i as u32 }))
                        .collect();
                    let other = reader.clone();
                    let mut stream = other.read_blocks(ops);
                    for _ in 0..match stage {
                        0 => 0,
                        1 => 1,
                        2 => 5,
                        _ => usize::MAX,
                    } {
                        if stream.next().await.is_none() {
                            break;
                        }
                    }
                }
            }
        }
        // what the runtime keeps varies by a buffer or a few queue entries
        let limit = match what {
            What::Encoder(_) => 2 << 10,
            What::Writer | What::Reader => 12 << 10,
            What::Segment => 40 << 10,
        };
        let grown = settled(base + limit).await - base;
        ensure!(
            grown <= limit,
            "{} bytes more are held after {} more of {:?} were made, used and dropped",
            grown,
            cycles - warm,
            what
        );
        Ok(())
    }
    fn encoder_once(&self, kind: Kind, nullable: bool, block_size: u32, rows: u16, stage: u8) -> R<()> {
        let mut sink = Count { blocks: 0, rows: 0 };
        let mut r = Ok(());
        macro_rules! go {
            ($enc:expr, $buf:expr, $append:expr) => {{
                let mut enc = $enc.expect("raw encoder");
                let mut buf = $buf;
                for i in 0..rows {
                    if nullable && i % 7 == 3 {
                        buf.append_null();
                    } else {
                        $append(&mut buf, i);
                    }
                }
                for _ in 0..stage.min(3) {
                    r = r.and(simple_block_on(enc.encode(&buf, &mut sink)));
                }
                if stage > 3 {
                    r = r.and(simple_block_on(enc.flush(&mut sink)).map(|_| ()));
                }
            }};
        }
        let bs = block_size as usize;
        match kind {
            Kind::I32 => go!(new_i32_encoder::<Count>(Encoding::Raw, bs, nullable), PrimitiveBuffer::<i32>::new(nullable), |b: &mut PrimitiveBuffer<i32>, i| b.append(i as i32)),
            Kind::I64 => go!(new_i64_encoder::<Count>(Encoding::Raw, bs, nullable), PrimitiveBuffer::<i64>::new(nullable), |b: &mut PrimitiveBuffer<i64>, i| b.append(i as i64)),
            Kind::U64 => go!(new_u64_encoder::<Count>(Encoding::Raw, bs, nullable), PrimitiveBuffer::<u64>::new(nullable), |b: &mut PrimitiveBuffer<u64>, i| b.append(i as u64)),
            Kind::F64 => go!(new_f64_encoder::<Count>(Encoding::Raw, bs, nullable), PrimitiveBuffer::<f64>::new(nullable), |b: &mut PrimitiveBuffer<f64>, i| b.append(i as f64)),
            Kind::Bin => go!(new_binary_encoder::<Count>(Encoding::Raw, block_size, nullable), BinaryBuffer::new(nullable), |b: &mut BinaryBuffer, i: u16| b.append(&[1; 9][..i as usize % 9])),
        }
        match r {
            Ok(()) => Ok(()),
            Err(e) => fail!("encode failed although nothing is wrong: {:#}", e),
        }
    }
    async fn segment_once(&self, nullable: bool, id: u32, rows: u16, stage: u8, dir: &std::path::Path) -> R<()> {
        let ok = |e: anyhow::Error| Failure::from(format!("writing failed although nothing is wrong: {:#}", e));
        let info = SegmentInfo {
            segment_id: Uuid::from_u128(id as u128),
            database_name: "d".repeat(rows as usize),
            table_name: "t".into(),
            shard_id: 1,
            num_rows: 1,
        };
        let mut w = SegmentWriter::new(dir, info).await.map_err(ok)?;
        for c in 0..2 {
            if stage == 0 {
                return Ok(());
            }
            let mut cw = w
                .new_binary_column_writer(ColumnInfo {
                    name: format!("c{}", c),
                    column_type: ColumnType::String,
                    encoding: Encoding::Raw,
                    index_type: IndexType::NoIndex,
                    nullable,
                })
                .map_err(ok)?;
            let mut b = BinaryBuffer::new(nullable);
            for i in 0..rows {
                b.append(&[3; 700][..i as usize * 37 % 700]);
            }
            cw.write(&b).await.map_err(ok)?;
            if stage > 1 {
                cw.close().await.map_err(ok)?;
            }
        }
        if stage > 2 {
            w.verif_close().await.map_err(ok)?;
        }
        if stage > 3 {
            w.verif_sync().await.map_err(ok)?;
        }
        Ok(())
    }
    async fn segment(&self, cols: &[(bool, Flow)], dir: &std::path::Path) -> R<i64> {
        let ok = |e: anyhow::Error| Failure::from(format!("writing failed although nothing is wrong: {:#}", e));
        let mut b = Bound::new(8 << 20, BLOCK);
        let info = SegmentInfo {
            segment_id: Uuid::from_bytes([9; 16]),
            database_name: "d".into(),
            table_name: "t".into(),
            shard_id: 1,
            num_rows: 1,
        };
        let mut w = SegmentWriter::new(dir, info).await.map_err(ok)?;
        let mut all = 0;
        for (i, (nullable, flow)) in cols.iter().enumerate() {
            let mut cw = w
                .new_binary_column_writer(ColumnInfo {
                    name: format!("c{}", i),
                    column_type: ColumnType::String,
                    encoding: Encoding::Raw,
                    index_type: IndexType::NoIndex,
                    nullable: *nullable,
                })
                .map_err(ok)?;
            let mut m = Mix(flow.seed);
            let mut buf = BinaryBuffer::new(*nullable);
            let mut written = 0;
            // rows that carry no bytes stay in the open block
            let (mut rows, mut k) = (0, 0);
            while written < b.limit() * flow.times as i64 / 2 && k < 60_000 && rows < 3_000_000 {
                let n = flow.batches[k % flow.batches.len()] as i64;
                k += 1;
                if flow.reuse {
                    buf.clear();
                } else {
                    buf = BinaryBuffer::new(*nullable);
                }
                let bytes = fill(
                    &mut buf,
                    flow,
                    *nullable,
                    n,
                    &mut m,
                    text,
                    |b| b.append_null(),
                );
                b.batch = b.batch.max(bytes + 8 * n);
                // about the rows that 128 KiB take, at the most
                rows += n;
                let carried = (written + bytes - rows).max(1);
                b.open = b.open.max((rows * BLOCK / carried * 2).min(rows));
                cw.write(&buf).await.map_err(ok)?;
                written += bytes;
                b.check("segment writer", all + written)?;
            }
            cw.close().await.map_err(ok)?;
            all += written;
        }
        w.verif_close().await.map_err(ok)?;
        b.check("closed segment writer", all)?;
        w.verif_sync().await.map_err(ok)?;
        Ok(all)
    }
}
