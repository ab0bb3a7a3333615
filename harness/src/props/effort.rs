//! C28: the cost of a row does not depend on how many came before it.

use futures::executor::block_on as simple_block_on;
use futures::StreamExt;
use meerkat::verif::buffer::{BinaryBuffer, PrimitiveBuffer};
use meerkat::verif::encoding::{
    new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
    BlockEncoder, BlockSink,
};
use meerkat::verif::io::{outcome, range, read_op, BlockReader, DiskBlockReader, OpInfo};
use meerkat::verif::metadata::{ColumnType, Encoding, IndexType};
use meerkat::verif::segment::{ColumnInfo, SegmentInfo, SegmentWriter};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use uuid::Uuid;

use crate::engine::{Failure, Outcome, Prop, Stats, Tier};
use crate::faults::{FilePlan, Guard};
use crate::gen::{Kind, Mix};
use crate::scratch::{block_on, Scratch};
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

/// How much longer the long history is.
const TIMES: u64 = 64;
/// How much more a unit of it may cost. What grows with the history costs up to `TIMES` as much.
const GROWTH: f64 = 10.0;
/// CPU time of the short history.
const SHORT_NS: u64 = 1_500_000;
/// What a short history that cannot be made longer counts as at least: plain copies are much faster in the cache.
const LEAST_NS: u64 = 600_000;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Effort {
    /// batches of these many rows are encoded over and over; if `spike` is not zero, after one of that many,
    /// the first of which is as long if it is a byte string
    Column { kind: Kind, nullable: bool, block_size: u32, batches: Vec<u16>, rows: Rows, spike: u32 },
    /// rows are appended to one buffer
    Fill { kind: Kind, nullable: bool, rows: Rows },
    /// a buffer is copied in pieces of so many values
    Copy { kind: Kind, nullable: bool, rows: Rows, piece: u16 },
    /// one buffer is filled with so many rows and cleared, over and over
    Reuse { kind: Kind, nullable: bool, rows: Rows, n: u16 },
    /// bits go through the validity encoder and decoder
    Bits { period: u8, pct: u8, seed: u64 },
    /// columns are added to a segment
    Columns { rows: u8, refused: bool },
    /// blocks are read by one call, or by one each
    Blocks { size: u16, at_end: bool, single: bool },
    /// so many blocks are taken from a call that asks for many more
    Taken { size: u16, n: u16, of: u32 },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Rows {
    pub null_pct: u8,
    /// item lengths of binary rows, cycled
    pub lens: Vec<u16>,
    pub seed: u64,
}

pub struct Linear;

struct Swallow(u64);

#[async_trait::async_trait]
impl BlockSink for Swallow {
    async fn write_block(&mut self, row_id: u32, data: &[u8]) -> anyhow::Result<()> {
        self.0 += row_id as u64 + data.len() as u64;
        Ok(())
    }
}

/// CPU time of this thread.
fn cpu() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

/// The buffers of all row types behind one name.
enum Buf {
    I32(PrimitiveBuffer<i32>),
    I64(PrimitiveBuffer<i64>),
    U64(PrimitiveBuffer<u64>),
    F64(PrimitiveBuffer<f64>),
    Bin(BinaryBuffer),
}

static TEXT: [u8; 400_000] = [0x61; 400_000];

macro_rules! each {
    ($self:expr, $b:ident => $e:expr) => {
        match $self {
            Buf::I32($b) => $e,
            Buf::I64($b) => $e,
            Buf::U64($b) => $e,
            Buf::F64($b) => $e,
            Buf::Bin($b) => $e,
        }
    };
}

impl Buf {
    fn new(kind: Kind, nullable: bool) -> Buf {
        match kind {
            Kind::I32 => Buf::I32(PrimitiveBuffer::new(nullable)),
            Kind::I64 => Buf::I64(PrimitiveBuffer::new(nullable)),
            Kind::U64 => Buf::U64(PrimitiveBuffer::new(nullable)),
            Kind::F64 => Buf::F64(PrimitiveBuffer::new(nullable)),
            Kind::Bin => Buf::Bin(BinaryBuffer::new(nullable)),
        }
    }
    fn clear(&mut self) {
        each!(self, b => b.clear())
    }
    fn fill(&mut self, rows: &Rows, nullable: bool, n: u64) {
        let mut m = Mix(rows.seed);
        macro_rules! go {
            ($b:expr, $value:expr) => {
                for i in 0..n {
                    let r = m.next();
                    if nullable && r % 100 < rows.null_pct as u64 {
                        $b.append_null();
                    } else {
                        $b.append($value(r, i));
                    }
                }
            };
        }
        let len = |i: u64| match rows.lens.len() {
            0 => 3,
            k => rows.lens[i as usize % k] as usize % TEXT.len(),
        };
        match self {
            Buf::I32(b) => go!(b, |r, _| r as i32),
            Buf::I64(b) => go!(b, |r, _| r as i64),
            Buf::U64(b) => go!(b, |r, _| r),
            Buf::F64(b) => go!(b, |r, _| r as f64),
            Buf::Bin(b) => go!(b, |_, i| &TEXT[..len(i)]),
        }
    }
    /// Copies `src` in pieces.
    fn copy(&mut self, src: &Buf, piece: usize) {
        macro_rules! go {
            ($d:expr, $s:expr, $first:expr, $end:expr) => {{
                let (mut at, mut pos) = ($first, 0);
                while at < $end {
                    let to = (at + piece).min($end);
                    pos = $d.append_from($s, at, to, pos);
                    at = to;
                }
            }};
        }
        match (self, src) {
            (Buf::I32(d), Buf::I32(s)) => go!(d, s, 0, s.len()),
            (Buf::I64(d), Buf::I64(s)) => go!(d, s, 0, s.len()),
            (Buf::U64(d), Buf::U64(s)) => go!(d, s, 0, s.len()),
            (Buf::F64(d), Buf::F64(s)) => go!(d, s, 0, s.len()),
            (Buf::Bin(d), Buf::Bin(s)) => go!(d, s, 0, s.len()),
            _ => unreachable!(),
        }
    }
}

/// Compares the CPU time of two runs of `f`, one of which may cost `fair` times as much as the
/// other: the longest of several `plain` runs against one of `grown`.
fn compare(what: &str, plain: &str, grown: &str, fair: u64, mut f: impl FnMut(bool) -> R<u64>) -> R<()> {
    let mut seen = vec![];
    for _ in 0..4 {
        let mut short = LEAST_NS;
        for _ in 0..3 {
            short = short.max(f(false)?);
        }
        let long = f(true)?;
        let growth = long as f64 / fair as f64 / short as f64;
        if std::env::var_os("MKVERIF_EFFORT").is_some() {
            eprintln!("{:.2} times: {}, {} in {} ns, {} in {} ns", growth, what, plain, short, grown, long);
        }
        if growth <= GROWTH {
            return Ok(());
        }
        seen.push((short, long));
    }
    fail!(
        "{}: {} takes {} ns of CPU time, {} takes {} ns, {} times what it should (more than {} in each of {} measurements)",
        what,
        plain,
        seen[0].0,
        grown,
        seen[0].1,
        seen[0].1 / seen[0].0 / fair,
        GROWTH,
        seen.len()
    )
}

/// Runs `f` for histories of growing length until one takes long enough to measure.
/// `most`: units of the longest.
fn units(most: u64, mut f: impl FnMut(u64) -> R<u64>) -> R<u64> {
    let mut k = 1;
    f(k)?;
    while k * 2 <= most && f(k)? < SHORT_NS {
        k *= 2;
    }
    Ok(k)
}

/// A history and one `TIMES` as long. `f` returns the CPU time of what is judged.
/// `most`: units of the long history.
fn judge(what: &str, most: u64, f: impl Fn(u64) -> R<u64>) -> R<u64> {
    let k = units(most / TIMES, &f)?;
    let long = k * TIMES;
    compare(what, &format!("{} times", k), &format!("{} times", long), TIMES, |grown| f(if grown { long } else { k }))?;
    Ok(long)
}

/// A history alone and after a large batch. `f` returns the CPU time of the history.
fn judge_after(what: &str, most: u64, spike: u32, f: impl Fn(u64, u32) -> R<u64>) -> R<u64> {
    let k = units(most, |k| f(k, 0))?;
    let plain = format!("{} times", k);
    compare(what, &plain, &format!("{} after {} rows", plain, spike), 1, |grown| f(k, if grown { spike } else { 0 }))?;
    Ok(k)
}

fn column<B>(
    bufs: &[B],
    big: &B,
    enc: impl Fn() -> Box<dyn BlockEncoder<B, Swallow>>,
    rows: u64,
    spike: u32,
) -> R<u64> {
    // a column holds 2^32 - 1 rows
    let most = (2_000_000_000 / rows.max(1)).min(1 << 20);
    let run = |n: u64, spike: u32, end: bool| {
        let mut enc = enc();
        let mut sink = Swallow(0);
        if spike > 0 {
            if let Err(e) = simple_block_on(enc.encode(big, &mut sink)) {
                fail!("encode failed although nothing is wrong: {:#}", e);
            }
        }
        let t = cpu();
        for _ in 0..n {
            for b in bufs {
                if let Err(e) = simple_block_on(enc.encode(b, &mut sink)) {
                    fail!("encode failed although nothing is wrong: {:#}", e);
                }
            }
        }
        if !end {
            return Ok(cpu() - t);
        }
        if let Err(e) = simple_block_on(enc.flush(&mut sink)) {
            fail!("flush failed although nothing is wrong: {:#}", e);
        }
        Ok(cpu() - t)
    };
    match spike {
        0 => judge("encoding", most, |n| run(n, 0, true)),
        _ => judge_after("encoding", most / TIMES, spike, |n, spike| run(n, spike, false)),
    }
}

fn rows(bin: bool) -> BoxedStrategy<Rows> {
    (
        prop_oneof![3 => Just(0u8), 3 => 1u8..=60, 1 => 60u8..=99, 1 => Just(100u8)],
        prop_oneof![
            3 => vec(0u16..=20, 1..=5),
            1 => vec(prop_oneof![Just(0u16), Just(1), 100u16..=2000], 1..=4),
            1 => Just(vec![0u16]),
        ],
        any::<u64>(),
    )
        .prop_map(move |(null_pct, lens, seed)| Rows { null_pct, lens: if bin { lens } else { vec![] }, seed })
        .boxed()
}

fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![Just(Kind::I32), Just(Kind::I64), Just(Kind::U64), Just(Kind::F64), Just(Kind::Bin), Just(Kind::Bin), Just(Kind::Bin)].boxed()
}

impl Prop for Linear {
    type Case = Effort;
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "A case repeats one unit of work: encoding generated batches, appending rows to a buffer, copying one in pieces, \
         filling and clearing it, compressing and decoding validity bits, adding columns to a segment, reading blocks. \
         The number of units is doubled until they take 1.5 ms of the thread's CPU time; then a history 64 times as \
         long is run, or the same one after a batch of 100 000 rows or more. A unit of it may cost at most 10 times as much \
         (the slowest of three short runs is taken), and a case fails only if four measurements agree. Non-trivial: the \
         case took at least 10 ms of CPU time."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["cost is CPU time of the calling thread; growth by less than a factor of 10 over a 64 times longer history is not judged"]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Effort> {
        let k = || kind().prop_flat_map(|kind| (Just(kind), any::<bool>(), rows(kind == Kind::Bin)));
        let spike = || prop_oneof![2 => Just(0u32), 1 => 100_000u32..=400_000];
        prop_oneof![
            6 => (
                k(),
                prop_oneof![1u32..=64, 64u32..=4096, 4096u32..=150_000],
                prop_oneof![2 => vec(0u16..=12, 1..=4), 2 => vec(0u16..=300, 1..=4), 1 => vec(1000u16..=5000, 1..=2)],
                spike(),
            )
                .prop_map(|((kind, nullable, rows), block_size, mut batches, spike)| {
                    batches[0] = batches[0].max(1);
                    Effort::Column { kind, nullable, block_size, batches, rows, spike }
                }),
            2 => k().prop_map(|(kind, nullable, rows)| Effort::Fill { kind, nullable, rows }),
            2 => (k(), prop_oneof![1u16..=20, 20u16..=3000]).prop_map(|((kind, nullable, rows), piece)| Effort::Copy { kind, nullable, rows, piece }),
            2 => (k(), prop_oneof![0u16..=40, 0u16..=3000]).prop_map(|((kind, nullable, rows), n)| Effort::Reuse { kind, nullable, rows, n }),
            2 => (prop_oneof![1u8..=40, any::<u8>()], 0u8..=100, any::<u64>()).prop_map(|(period, pct, seed)| Effort::Bits { period, pct, seed }),
            1 => (0u8..=40, any::<bool>()).prop_map(|(rows, refused)| Effort::Columns { rows, refused }),
            1 => (0u16..=900, 50u16..=300, 300_000u32..=1_500_000).prop_map(|(size, n, of)| Effort::Taken { size, n, of }),
            1 => (0u16..=900, any::<bool>(), any::<bool>()).prop_map(|(size, at_end, single)| Effort::Blocks { size, at_end, single }),
        ]
        .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Effort> {
        let mut v = vec![];
        let rows = |null_pct, lens: &[u16]| Rows { null_pct, lens: lens.to_vec(), seed: 3 };
        for nullable in [false, true] {
            for kind in [Kind::I32, Kind::Bin] {
                for (block_size, batches) in [(1, vec![3]), (40, vec![1, 0, 2]), (5000, vec![700, 1]), (128 << 10, vec![1]), (128 << 10, vec![900])] {
                    for null_pct in [0, 30, 100] {
                        if !nullable && null_pct > 0 {
                            continue;
                        }
                        v.push(Effort::Column { kind, nullable, block_size, batches: batches.clone(), rows: rows(null_pct, &[3, 0, 9]), spike: 0 });
                    }
                }
                v.push(Effort::Column { kind, nullable, block_size: 70, batches: vec![2], rows: rows(0, &[0]), spike: 0 });
                v.push(Effort::Column { kind, nullable, block_size: 70, batches: vec![2], rows: rows(5, &[9]), spike: 300_000 });
                v.push(Effort::Fill { kind, nullable, rows: rows(20, &[3, 0, 9]) });
                v.push(Effort::Copy { kind, nullable, rows: rows(20, &[3, 0, 9]), piece: 3 });
                v.push(Effort::Reuse { kind, nullable, rows: rows(20, &[3, 0, 9]), n: 5 });
            }
        }
        v.push(Effort::Columns { rows: 3, refused: false });
        v.push(Effort::Blocks { size: 20, at_end: false, single: false });
        v.push(Effort::Blocks { size: 20, at_end: true, single: true });
        v.push(Effort::Taken { size: 20, n: 200, of: 1_200_000 });
        v
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 500,
            Tier::Thorough => 4_000,
        }
    }
    fn threads(&self) -> usize {
        4
    }
    fn run(&self, c: &Effort) -> Outcome {
        let mut s = Stats::default();
        let wall = cpu();
        match c {
            Effort::Column { kind, nullable, block_size, batches, rows, spike } => {
                let nb = *nullable;
                let bs = *block_size as usize;
                let per: u64 = batches.iter().map(|n| *n as u64).sum();
                macro_rules! go {
                    ($t:ident, $new:expr) => {{
                        let make = |n: u64, first: usize| {
                            let mut b = Buf::new(*kind, nb);
                            if let (Buf::Bin(b), 1..) = (&mut b, first) {
                                b.append(&TEXT[..first.min(TEXT.len())]);
                            }
                            b.fill(rows, nb, n);
                            match b {
                                Buf::$t(b) => b,
                                _ => unreachable!(),
                            }
                        };
                        let bufs: Vec<_> = batches.iter().map(|n| make(*n as u64, 0)).collect();
                        column(&bufs, &make(*spike as u64, *spike as usize), || $new.expect("raw encoder"), per, *spike)?
                    }};
                }
                s.points = match kind {
                    Kind::I32 => go!(I32, new_i32_encoder(Encoding::Raw, bs, nb)),
                    Kind::I64 => go!(I64, new_i64_encoder(Encoding::Raw, bs, nb)),
                    Kind::U64 => go!(U64, new_u64_encoder(Encoding::Raw, bs, nb)),
                    Kind::F64 => go!(F64, new_f64_encoder(Encoding::Raw, bs, nb)),
                    Kind::Bin => go!(Bin, new_binary_encoder(Encoding::Raw, *block_size, nb)),
                };
                s.class(*spike == 0, "encoding batches");
                s.class(*spike > 0, "encoding after a large batch");
            }
            Effort::Fill { kind, nullable, rows } => {
                s.points = judge("appending rows", 1 << 24, |n| {
                    let mut b = Buf::new(*kind, *nullable);
                    // at most 256 MiB of text
                    let n = n.min((256 << 20) / (1 + rows.lens.iter().max().copied().unwrap_or(8) as u64));
                    let t = cpu();
                    b.fill(rows, *nullable, n);
                    b.clear();
                    Ok(cpu() - t)
                })?;
                s.class(true, "appending");
            }
            Effort::Copy { kind, nullable, rows, piece } => {
                s.points = judge("copying a buffer", 1 << 23, |n| {
                    let n = n.min((256 << 20) / (1 + rows.lens.iter().max().copied().unwrap_or(8) as u64));
                    let mut src = Buf::new(*kind, *nullable);
                    src.fill(rows, *nullable, n);
                    let mut dst = Buf::new(*kind, *nullable);
                    let t = cpu();
                    dst.copy(&src, *piece as usize);
                    Ok(cpu() - t)
                })?;
                s.class(true, "copying");
            }
            Effort::Reuse { kind, nullable, rows, n } => {
                s.points = judge("filling and clearing a buffer", 1 << 22, |k| {
                    let mut b = Buf::new(*kind, *nullable);
                    let t = cpu();
                    for _ in 0..k {
                        b.fill(rows, *nullable, *n as u64);
                        b.clear();
                    }
                    Ok(cpu() - t)
                })?;
                s.class(true, "filling and clearing");
            }
            Effort::Bits { period, pct, seed } => bits(*period, *pct, *seed, &mut s)?,
            Effort::Columns { rows, refused } => {
                let dir = Scratch::new();
                let swallow = FilePlan { swallow: true, ..FilePlan::default() };
                let _g = Guard::new(dir.path(), vec![("dat", swallow.clone()), ("idx", swallow)]);
                s.points = judge("adding columns", 1 << 14, |n| block_on(columns(dir.path(), n, *rows, *refused)))?;
                s.class(true, "adding columns");
            }
            Effort::Taken { size, n, of } => {
                let dir = Scratch::new();
                let path = dir.path().join("a.dat");
                std::fs::write(&path, vec![7; 10_000]).expect("scratch file");
                let size = *size as u64;
                let few = *n as u64 + 1;
                let run = |all: u64| {
                    block_on(async {
                        let reader = match DiskBlockReader::new(&path).await {
                            Ok(r) => r,
                            Err(e) => fail!("cannot open for reading: {}", e),
                        };
                        let ops = (0..all)
                            .map(|i| read_op(i * 37 % 9000, i * 37 % 9000 + size, OpInfo::DataBlock { first_row_id: i as u32 }))
                            .collect();
                        let mut stream = reader.read_blocks(ops);
                        let mut t = 0;
                        for k in 0..few {
                            let r = stream.next().await;
                            // what is done once for all requests is not counted
                            if k == 0 {
                                t = cpu();
                            }
                            match r.map(outcome) {
                                Some((_, Ok(_))) => {}
                                Some((_, Err(e))) => fail!("block {} cannot be read: {}", k, e),
                                None => fail!("{} results for {} requests", k, all),
                            }
                        }
                        Ok(cpu() - t)
                    })
                };
                let all = few + *of as u64;
                compare("reading blocks", &format!("{} of {}", n, few), &format!("{} of {}", n, all), 1, |grown| {
                    run(if grown { all } else { few })
                })?;
                s.points = few;
                s.class(true, "reading some blocks of a long request");
            }
            Effort::Blocks { size, at_end, single } => {
                let dir = Scratch::new();
                let path = dir.path().join("a.dat");
                std::fs::write(&path, vec![7; 10_000]).expect("scratch file");
                s.points = judge("reading blocks", 1 << 16, |n| {
                    block_on(async {
                        let reader = match DiskBlockReader::new(&path).await {
                            Ok(r) => r,
                            Err(e) => fail!("cannot open for reading: {}", e),
                        };
                        let at = |i: u64| if *at_end { 10_000 - *size as u64 } else { i * 37 % 9000 };
                        if *single {
                            let t = cpu();
                            for i in 0..n {
                                let r = reader.read_block(range(at(i), at(i) + *size as u64)).await;
                                if let Err(e) = r {
                                    fail!("block {} cannot be read: {}", i, e);
                                }
                            }
                            return Ok(cpu() - t);
                        }
                        let ops = (0..n)
                            .map(|i| {
                                let at = at(i);
                                read_op(at, at + *size as u64, OpInfo::DataBlock { first_row_id: i as u32 })
                            })
                            .collect();
                        let t = cpu();
                        let mut stream = reader.read_blocks(ops);
                        let mut k = 0;
                        while let Some(r) = stream.next().await {
                            let (_, r) = outcome(r);
                            if let Err(e) = r {
                                fail!("block {} cannot be read: {}", k, e);
                            }
                            k += 1;
                        }
                        ensure!(k == n, "{} results for {} requests", k, n);
                        Ok(cpu() - t)
                    })
                })?;
                s.class(true, "reading blocks");
            }
        }
        s.nontrivial = cpu() - wall >= 10_000_000;
        Ok(s)
    }
}

#[cfg(feature = "rle")]
fn bits(period: u8, pct: u8, seed: u64, s: &mut Stats) -> R<()> {
    use meerkat::verif::buffer::Bitmap;
    use meerkat::verif::encoding::{rle_decode, RleEncoder};
    s.points = judge("compressing validity bits", 1 << 24, |n| {
        let mut m = Mix(seed);
        // units of eight bits
        let mut b = Bitmap::new();
        let mut set = 0;
        for i in 0..n * 8 {
            let x = i / 8 / period.max(1) as u64 % 3 > 0 && m.next() % 100 < pct as u64;
            set += x as usize;
            b.append(x);
        }
        let mut out = vec![0u32; set];
        let t = cpu();
        let mut e = RleEncoder::new();
        e.put_from(&b, 0, set);
        e.flush();
        rle_decode(e.encoded_values(), &mut out);
        e.clear();
        Ok(cpu() - t)
    })?;
    s.class(true, "compressing bits");
    Ok(())
}

#[cfg(not(feature = "rle"))]
fn bits(_: u8, _: u8, _: u64, _: &mut Stats) -> R<()> {
    Ok(())
}

async fn columns(dir: &std::path::Path, n: u64, rows: u8, refused: bool) -> R<u64> {
    let ok = |e: anyhow::Error| Failure::from(format!("writing failed although nothing is wrong: {:#}", e));
    let info = SegmentInfo {
        segment_id: Uuid::from_bytes([9; 16]),
        database_name: "d".into(),
        table_name: "t".into(),
        shard_id: 1,
        num_rows: 1,
    };
    let mut b = BinaryBuffer::new(false);
    for i in 0..rows {
        b.append(&[i; 5]);
    }
    let column = |name: String, encoding| ColumnInfo {
        name,
        column_type: ColumnType::String,
        encoding,
        index_type: IndexType::NoIndex,
        nullable: false,
    };
    let t = cpu();
    let mut w = SegmentWriter::new(dir, info).await.map_err(ok)?;
    for i in 0..n {
        let mut cw = w.new_binary_column_writer(column(format!("column {}", i), Encoding::Raw)).map_err(ok)?;
        cw.write(&b).await.map_err(ok)?;
        cw.close().await.map_err(ok)?;
        drop(cw);
        if refused {
            let _ = w.new_binary_column_writer(column(format!("refused {}", i), Encoding::BitPacked));
        }
    }
    w.verif_close().await.map_err(ok)?;
    w.verif_sync().await.map_err(ok)?;
    Ok(cpu() - t)
}
