//! Segment histories run against the real segment writer.

use std::path::{Path, PathBuf};

use meerkat::verif::buffer::BinaryBuffer;
use meerkat::verif::metadata::{ColumnType, Encoding, IndexType};
use meerkat::verif::segment::{ColumnInfo, SegmentInfo, SegmentWriter};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use uuid::Uuid;

use crate::blocks::{decode_column, same_rows};
use crate::engine::Failure;
use crate::gen::{
    batch_ends, count, cuts, expand, fill_bin, run, value_prefix, Cut, Len, Limits, Rows, Run,
};
use crate::wire::{base64url, index_file, Meta, DATA_SIGNATURE};
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

pub const SEG_LIMITS: Limits = Limits {
    rows: 120_000,
    bytes: 3 << 20,
};

pub const BLOCK: usize = 128 * 1024;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SegCol {
    pub name: String,
    pub column_type: i32,
    pub encoding: i32,
    pub index_type: i32,
    pub nullable: bool,
    pub runs: Vec<Run>,
    pub cuts: Vec<Cut>,
    pub reuse: u8,
    /// the column writer is dropped without being closed
    pub abandon: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Segment {
    pub id: [u8; 16],
    pub db: String,
    pub table: String,
    pub shard: u32,
    pub num_rows: u32,
    pub cols: Vec<SegCol>,
    /// lengths of older files of the same names (index, data) the segment replaces
    #[serde(default)]
    pub stale: Option<(u32, u32)>,
}

impl Segment {
    pub fn stem(&self) -> String {
        base64url(&self.id)
    }
    /// Leaves the older files in `dir`.
    pub fn litter(&self, dir: &Path) {
        if let Some((a, b)) = self.stale {
            let (i, d) = self.paths(dir);
            std::fs::write(i, vec![0xEE; a as usize]).expect("stale index file");
            std::fs::write(d, vec![0xEE; b as usize]).expect("stale data file");
        }
    }
    pub fn paths(&self, dir: &Path) -> (PathBuf, PathBuf) {
        (
            dir.join(format!("{}.idx", self.stem())),
            dir.join(format!("{}.dat", self.stem())),
        )
    }
}

impl SegCol {
    pub fn rows(&self) -> Rows {
        expand(&self.runs, self.nullable, SEG_LIMITS)
    }
}

/// What happened to a column.
#[derive(Debug, Clone)]
pub enum Fate {
    Refused(String),
    Closed(Vec<(u32, u64)>),
    Abandoned(Vec<(u32, u64)>),
}

#[derive(Debug, Default)]
pub struct SegRun {
    pub fates: Vec<Fate>,
    /// the operation that failed and its error
    pub error: Option<(&'static str, String)>,
    pub closed: bool,
    pub synced: bool,
    /// the files' contents when close returned Ok (index, data)
    pub at_close: Option<(Vec<u8>, Vec<u8>)>,
}

/// Awaited before every operation, so a scheduler can order the operations of several
/// histories.
#[async_trait::async_trait]
pub trait Gate: Send + Sync {
    async fn turn(&self);
}

pub struct Free;

#[async_trait::async_trait]
impl Gate for Free {
    async fn turn(&self) {}
}

#[derive(Clone, Copy, PartialEq)]
pub enum End {
    Close,
    Sync,
}

/// Runs the history. Stops at the first error; a refused column is not an error.
pub async fn run_segment(
    seg: &Segment,
    rows: &[Rows],
    dir: &Path,
    gate: &dyn Gate,
    end: End,
    snapshot: bool,
) -> SegRun {
    let mut out = SegRun::default();
    macro_rules! op {
        ($name:expr, $e:expr) => {{
            gate.turn().await;
            match $e {
                Ok(v) => v,
                Err(e) => {
                    out.error = Some(($name, format!("{:#}", e)));
                    return out;
                }
            }
        }};
    }
    let info = SegmentInfo {
        segment_id: Uuid::from_bytes(seg.id),
        database_name: seg.db.clone(),
        table_name: seg.table.clone(),
        shard_id: seg.shard,
        num_rows: seg.num_rows,
    };
    let mut w = op!("new", SegmentWriter::new(dir, info).await);
    for (c, rows) in seg.cols.iter().zip(rows) {
        let info = ColumnInfo {
            name: c.name.clone(),
            column_type: ColumnType::from_i32(c.column_type).expect("column type"),
            encoding: Encoding::from_i32(c.encoding).expect("encoding"),
            index_type: IndexType::from_i32(c.index_type).expect("index type"),
            nullable: c.nullable,
        };
        gate.turn().await;
        {
            let mut cw = match w.new_binary_column_writer(info) {
                Ok(cw) => cw,
                Err(e) => {
                    out.fates.push(Fate::Refused(format!("{:#}", e)));
                    continue;
                }
            };
            let prefix = value_prefix(&rows.valid);
            let mut buf = BinaryBuffer::new(c.nullable);
            let mut start = 0;
            for (i, e) in batch_ends(&c.cuts, rows).into_iter().enumerate() {
                if i > 0 {
                    if c.reuse >> (i % 8) & 1 == 1 {
                        buf.clear();
                    } else {
                        buf = BinaryBuffer::new(c.nullable);
                    }
                }
                fill_bin(&mut buf, rows, start, e, prefix[start]);
                start = e;
                op!("write", cw.write(&buf).await);
            }
            if !c.abandon {
                op!("column close", cw.close().await);
            }
        }
        #[cfg(feature = "entries")]
        let entries = w.verif_block_index();
        #[cfg(all(not(feature = "entries"), feature = "encoders"))]
        let entries = encoded_blocks(c, rows);
        #[cfg(not(any(feature = "entries", feature = "encoders")))]
        let entries = vec![];
        #[cfg(not(feature = "entries"))]
        let entries = shift(&out.fates, entries);
        out.fates.push(match c.abandon {
            true => Fate::Abandoned(entries),
            false => Fate::Closed(entries),
        });
    }
    op!("close", w.verif_close().await);
    out.closed = true;
    if snapshot {
        let (i, d) = seg.paths(dir);
        out.at_close = Some((
            std::fs::read(i).unwrap_or_default(),
            std::fs::read(d).unwrap_or_default(),
        ));
    }
    if end == End::Sync {
        op!("sync", w.verif_sync().await);
        out.synced = true;
    }
    out
}

/// Where the index cannot be read (its fields were renamed, say): the blocks the encoder emits for
/// the column, which the data file has to consist of.
#[cfg(all(not(feature = "entries"), feature = "encoders"))]
fn encoded_blocks(c: &SegCol, rows: &Rows) -> Vec<(u32, u64)> {
    use crate::col::Sink;
    use futures::executor::block_on;
    let encoding = Encoding::from_i32(c.encoding).expect("encoding");
    let mut enc = match meerkat::verif::encoding::new_binary_encoder(encoding, BLOCK as u32, c.nullable) {
        Ok(enc) => enc,
        Err(_) => return vec![],
    };
    let mut sink = Sink { blocks: vec![], fail_at: None, seen: 0, limit: usize::MAX };
    let prefix = value_prefix(&rows.valid);
    let mut start = 0;
    for e in batch_ends(&c.cuts, rows) {
        let mut buf = BinaryBuffer::new(c.nullable);
        fill_bin(&mut buf, rows, start, e, prefix[start]);
        start = e;
        if block_on(meerkat::verif::encoding::BlockEncoder::encode(&mut *enc, &buf, &mut sink)).is_err() {
            return vec![];
        }
    }
    if !c.abandon {
        let _ = block_on(meerkat::verif::encoding::BlockEncoder::flush(&mut *enc, &mut sink));
    }
    let mut end = 0;
    sink.blocks
        .iter()
        .map(|b| {
            end += b.data.len() as u64;
            (b.label, end)
        })
        .collect()
}

#[cfg(not(feature = "entries"))]
fn shift(before: &[Fate], entries: Vec<(u32, u64)>) -> Vec<(u32, u64)> {
    let start = before
        .iter()
        .rev()
        .find_map(|f| match f {
            Fate::Closed(e) | Fate::Abandoned(e) => e.last().map(|e| e.1),
            Fate::Refused(_) => None,
        })
        .unwrap_or(DATA_SIGNATURE.len() as u64);
    entries.into_iter().map(|(row, end)| (row, start + end)).collect()
}

/// The data file against the rows: signature, contiguous blocks, rows of every column.
pub fn check_data(seg: &Segment, rows: &[Rows], fates: &[Fate], data: &[u8]) -> R<usize> {
    ensure!(
        data.starts_with(DATA_SIGNATURE),
        "the data file does not start with its signature but with {:02x?}",
        &data[..data.len().min(13)]
    );
    if !cfg!(any(feature = "entries", feature = "encoders")) {
        return Ok(0);
    }
    let mut pos = DATA_SIGNATURE.len() as u64;
    let mut blocks = 0;
    for ((c, rows), fate) in seg.cols.iter().zip(rows).zip(fates) {
        let (entries, prefix) = match fate {
            Fate::Refused(_) => continue,
            Fate::Closed(e) => (e, false),
            Fate::Abandoned(e) => (e, true),
        };
        let at = |f: Failure| Failure {
            key: f.key,
            msg: format!("column {:?}: {}", c.name, f.msg),
        };
        let mut list: Vec<(u32, &[u8])> = vec![];
        for (row, end) in entries {
            ensure!(
                *end > pos && *end <= data.len() as u64,
                "column {:?}: the block index says a block ends at {}, the previous one ends at {} and the file has {} bytes",
                c.name,
                end,
                pos,
                data.len()
            );
            list.push((*row, &data[pos as usize..*end as usize]));
            pos = *end;
        }
        blocks += list.len();
        let d = decode_column(&list, None, c.nullable, &rows.valid).map_err(at)?;
        same_rows(&d, rows, None, prefix).map_err(at)?;
        let full = if prefix { list.len() } else { list.len().max(1) - 1 };
        for (i, n) in d.bytes_per_block[..full].iter().enumerate() {
            ensure!(
                *n >= BLOCK,
                "column {:?}: block {} carries {} value bytes, less than 128 KiB",
                c.name,
                i,
                n
            );
        }
    }
    ensure!(
        pos == data.len() as u64,
        "{} bytes follow the last block of the data file",
        data.len() as u64 - pos
    );
    Ok(blocks)
}

/// The index file against the history.
pub fn check_index(seg: &Segment, fates: &[Fate], index: &[u8]) -> R<Meta> {
    let (pos, m) = index_file(index)?;
    ensure!(m.id == seg.id, "segment id {:02x?} instead of {:02x?}", m.id, seg.id);
    ensure!(m.db == seg.db, "database {:?} instead of {:?}", m.db, seg.db);
    ensure!(m.table == seg.table, "table {:?} instead of {:?}", m.table, seg.table);
    ensure!(
        m.shard == seg.shard as u64,
        "shard {} instead of {}",
        m.shard,
        seg.shard
    );
    ensure!(
        m.num_rows == seg.num_rows as u64,
        "row count {} instead of {}",
        m.num_rows,
        seg.num_rows
    );
    let mut closed = 0;
    for (c, fate) in seg.cols.iter().zip(fates) {
        if !matches!(fate, Fate::Closed(_)) {
            // unless another column of the same name was closed
            let twin = seg
                .cols
                .iter()
                .zip(fates)
                .any(|(o, f)| o.name == c.name && matches!(f, Fate::Closed(_)));
            ensure!(
                twin ||
                !m.cols.contains_key(&c.name) && !m.layouts.contains_key(&c.name),
                "column {:?} is listed although it was not closed",
                c.name
            );
            continue;
        }
        closed += 1;
        let Some(got) = m.cols.get(&c.name) else {
            fail!("column {:?} was closed but is not listed", c.name)
        };
        let want = crate::wire::ColMeta {
            name: c.name.clone(),
            column_type: c.column_type as u64,
            nullable: c.nullable as u64,
            encoding: c.encoding as u64,
            index_type: c.index_type as u64,
        };
        ensure!(*got == want, "column is described as {:?} instead of {:?}", got, want);
        let Some(l) = m.layouts.get(&c.name) else {
            fail!("column {:?} was closed but has no layout", c.name)
        };
        ensure!(
            l.encoder.is_some(),
            "column {:?} has no encoder layout",
            c.name
        );
        ensure!(
            l.block_index.is_some(),
            "column {:?} has no block index layout",
            c.name
        );
        for (what, r) in [("string index", l.string_index), ("dictionary", l.dict)] {
            if let Some((a, b)) = r {
                ensure!(
                    a <= b && b <= pos,
                    "column {:?}: {} range {}..{} is outside of the index file",
                    c.name,
                    what,
                    a,
                    b
                );
            }
        }
    }
    ensure!(
        m.cols.len() == closed && m.layouts.len() == closed,
        "{} columns and {} layouts are listed, {} were closed",
        m.cols.len(),
        m.layouts.len(),
        closed
    );
    Ok(m)
}

/// The block index must be recorded inside the index file, between header and metadata.
pub fn check_block_index_ranges(
    seg: &Segment,
    fates: &[Fate],
    index: &[u8],
) -> Result<Option<Failure>, Failure> {
    let (pos, m) = index_file(index)?;
    let mut missing = None;
    for (c, fate) in seg.cols.iter().zip(fates) {
        let Fate::Closed(entries) = fate else { continue };
        let Some((a, b)) = m.layouts.get(&c.name).and_then(|l| l.block_index) else {
            continue;
        };
        if (a, b) == (0, 0) {
            if !entries.is_empty() {
                missing = Some((c.name.clone(), entries.len()));
            }
            continue;
        }
        ensure!(
            a <= b && b <= pos && (a >= crate::wire::INDEX_SIGNATURE.len() as u64),
            "column {:?}: block index range {}..{} is outside of the index file",
            c.name,
            a,
            b
        );
    }
    Ok(missing.map(|(name, n)| Failure {
        key: Some("block-index-not-persisted".into()),
        msg: format!(
            "column {:?}: its {} block index entries are not in the index file (range 0..0)",
            name, n
        ),
    }))
}

fn name() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-z_]{1,8}",
        1 => Just(String::new()),
        1 => "\\PC{0,12}",
        1 => "[a-zéß漢]{1,200}",
    ]
    .boxed()
}

/// Runs whose value bytes straddle multiples of the block size.
fn blocky() -> BoxedStrategy<Vec<Run>> {
    let piece = prop_oneof![
        3 => (1u32..=8, -2i64..=2, any::<u64>()).prop_map(|(k, d, seed)| Run::Vals {
            n: k,
            len: Len::Fixed(((BLOCK / k as usize) as i64 + d) as u32),
            seed
        }),
        2 => (1u32..=300, 0u32..=3000, any::<u64>())
            .prop_map(|(n, l, seed)| Run::Vals { n, len: Len::Upto(l), seed }),
        2 => (1u32..=300, 1u8..=90, 0u32..=3000, any::<u64>())
            .prop_map(|(n, null_pct, l, seed)| Run::Mix { n, null_pct, len: Len::Upto(l), seed }),
        1 => (1u32..=3, 100_000u32..=400_000, any::<u64>())
            .prop_map(|(n, l, seed)| Run::Vals { n, len: Len::Fixed(l), seed }),
        1 => count(2000).prop_map(Run::Nulls),
        1 => (1u32..=200, 0u32..=1, any::<u64>())
            .prop_map(|(n, l, seed)| Run::Vals { n, len: Len::Fixed(l), seed }),
    ];
    vec(piece, 1..=5).boxed()
}

pub fn seg_col(encodings: BoxedStrategy<i32>) -> BoxedStrategy<SegCol> {
    (
        name(),
        0i32..=9,
        encodings,
        0i32..=3,
        any::<bool>(),
        prop_oneof![
            3 => vec(run(400, 300, true), 0..=4),
            4 => blocky(),
        ],
        cuts(5),
        any::<u8>(),
        prop::bool::weighted(0.12),
    )
        .prop_map(
            |(name, column_type, encoding, index_type, nullable, runs, cuts, reuse, abandon)| {
                SegCol {
                    name,
                    column_type,
                    encoding,
                    index_type,
                    nullable,
                    runs,
                    cuts,
                    reuse,
                    abandon,
                }
            },
        )
        .boxed()
}

fn id() -> BoxedStrategy<[u8; 16]> {
    prop_oneof![
        4 => any::<[u8; 16]>(),
        1 => Just([0u8; 16]),
        1 => Just([0xff; 16]),
        // '-' and '_' in the name
        1 => Just([0xfb; 16]),
        1 => (0usize..16, any::<u8>()).prop_map(|(i, b)| {
            let mut x = [0u8; 16];
            x[i] = b;
            x
        }),
    ]
    .boxed()
}

pub fn num() -> BoxedStrategy<u32> {
    prop_oneof![0u32..=3, any::<u32>(), Just(u32::MAX), 120u32..=300].boxed()
}

pub fn segment(max_cols: usize) -> BoxedStrategy<Segment> {
    segment_with(vec(seg_col(Just(0).boxed()), 0..=max_cols).boxed())
}

pub fn segment_with(cols: BoxedStrategy<Vec<SegCol>>) -> BoxedStrategy<Segment> {
    let len = || prop_oneof![0u32..=2000, 0u32..=1 << 20];
    let stale = prop::option::weighted(0.15, (len(), len()));
    (id(), name(), name(), num(), num(), cols, stale)
        .prop_map(|(id, db, table, shard, num_rows, mut cols, stale)| {
            // distinct column names
            for i in 0..cols.len() {
                while cols[..i].iter().any(|c| c.name == cols[i].name) {
                    let n = format!("{}{}", cols[i].name, i);
                    cols[i].name = n;
                }
            }
            Segment {
                id,
                db,
                table,
                shard,
                num_rows,
                cols,
                stale,
            }
        })
        .boxed()
}

/// Segments with many columns and with names whose lengths pass every length-prefix size.
pub fn wide_segments() -> Vec<Segment> {
    let col = |name: String, k: usize, runs: Vec<Run>| SegCol {
        name,
        column_type: (k % 10) as i32,
        encoding: 0,
        index_type: (k % 4) as i32,
        nullable: k % 3 != 0,
        runs,
        cuts: vec![Cut::Row(2)],
        reuse: 0,
        abandon: false,
    };
    let one = |k: usize| {
        vec![
            Run::Vals { n: 1 + k as u32 % 3, len: Len::Fixed(k as u32 % 5), seed: k as u64 },
            Run::Nulls(k as u32 % 2),
        ]
    };
    let mut out = vec![];
    for n in [32usize, 127, 128, 257, 1100] {
        out.push(Segment {
            id: [n as u8; 16],
            db: "db".into(),
            table: "table".into(),
            shard: n as u32,
            num_rows: 3,
            cols: (0..n).map(|k| col(format!("column {}", k), k, one(k))).collect(),
            stale: None,
        });
    }
    for n in [126usize, 127, 128, 255, 256, 16_383, 16_384, 65_535, 65_536, 200_000] {
        let long = |c: &str| c.repeat(n);
        out.push(Segment {
            id: [0xA5; 16],
            db: long("d"),
            table: long("t"),
            shard: u32::MAX,
            num_rows: u32::MAX,
            cols: vec![col(long("c"), 4, one(4)), col("é".repeat(n / 2), 5, one(5))],
            stale: None,
        });
    }
    out
}
