//! C13, C15: the block writer and the block reader.

use std::collections::HashSet;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::Command;

use futures::StreamExt;
use meerkat::verif::io::{outcome, range, read_op, BlockReader, BlockWriter, DiskBlockReader, OpInfo};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::{Failure, Outcome, Prop, Stats, Tier};
use crate::faults::{FilePlan, Guard};
use crate::gen::Mix;
use crate::scratch::{block_on, Scratch};
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

fn bytes_of(seed: u64, n: usize) -> Vec<u8> {
    let mut m = Mix(seed);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&m.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

/// A file as patches over zeroes.
#[derive(Default)]
struct Content {
    len: u64,
    patches: Vec<(u64, Vec<u8>)>,
}

impl Content {
    fn get(&self, start: u64, end: u64) -> Vec<u8> {
        let mut out = vec![0; (end - start) as usize];
        for (at, p) in &self.patches {
            let (a, b) = (start.max(*at), end.min(at + p.len() as u64));
            if a < b {
                out[(a - start) as usize..(b - start) as usize]
                    .copy_from_slice(&p[(a - at) as usize..(b - at) as usize]);
            }
        }
        out
    }
    fn create(&self, path: &Path) {
        let f = std::fs::File::create(path).expect("scratch file");
        f.set_len(self.len).expect("set_len");
        for (at, p) in &self.patches {
            f.write_all_at(p, *at).expect("patch");
        }
    }
}

/// A range, as generated: `at` is taken modulo the length of the file (or counted from a
/// block boundary), so that a case stays meaningful while it shrinks.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Span {
    /// the k-th block, exactly
    Block(u16),
    /// from the k-th block boundary, moved by d, n bytes
    Near { k: u16, d: i16, n: u32 },
    Any { at: u64, n: u32 },
    Tail { n: u32 },
    /// around 4 GiB
    Border { d: i32, n: u32 },
    /// more than 4 GiB of a sparse file
    Giant { at: u32, more: u32 },
}

impl Span {
    fn resolve(&self, bounds: &[u64], len: u64) -> (u64, u64) {
        let clamp = |a: i128, n: u64| {
            let a = a.clamp(0, len as i128) as u64;
            (a, a.saturating_add(n).min(len))
        };
        match *self {
            Span::Block(k) if bounds.len() > 1 => {
                let k = k as usize % (bounds.len() - 1);
                (bounds[k], bounds[k + 1])
            }
            Span::Block(_) => (0, 0),
            Span::Near { k, d, n } => {
                clamp(bounds[k as usize % bounds.len()] as i128 + d as i128, n as u64)
            }
            Span::Any { at, n } => clamp((at % (len + 1)) as i128, n as u64),
            Span::Tail { n } => clamp(len as i128 - n as i128, n as u64),
            Span::Giant { at, more } => clamp(at as i128, (1u64 << 32) + more as u64),
            Span::Border { d, n } => clamp((1i128 << 32) + d as i128, n as u64),
        }
    }
}

fn span(big: u32, huge: bool) -> BoxedStrategy<Span> {
    let n = prop_oneof![3 => 0u32..=20, 3 => 0u32..=3000, 1 => 0u32..=big, 1 => Just(0u32)].boxed();
    prop_oneof![
        4 => any::<u16>().prop_map(Span::Block),
        3 => (any::<u16>(), -20i16..=20, n.clone()).prop_map(|(k, d, n)| Span::Near { k, d, n }),
        3 => (any::<u64>(), n.clone()).prop_map(|(at, n)| Span::Any { at, n }),
        1 => n.clone().prop_map(|n| Span::Tail { n }),
        (if huge { 6 } else { 1 }) => (-70_000i32..=70_000, n).prop_map(|(d, n)| Span::Border { d, n }),
    ]
    .boxed()
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Tag {
    Generic,
    Index,
    Data(u32),
}

impl Tag {
    fn info(self) -> OpInfo {
        match self {
            Tag::Generic => OpInfo::GenericBlock,
            Tag::Index => OpInfo::IndexBlock,
            Tag::Data(n) => OpInfo::DataBlock { first_row_id: n },
        }
    }
}

fn tag() -> BoxedStrategy<Tag> {
    prop_oneof![
        1 => Just(Tag::Generic),
        1 => Just(Tag::Index),
        6 => any::<u32>().prop_map(Tag::Data),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C13

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Poll {
    /// one runtime thread; `order` says which stream is polled next
    Order,
    /// one runtime thread, all streams polled together
    Together,
    /// a thread per stream sharing the reader
    Threads,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Reads {
    /// blocks written through the block writer: (length, seed)
    pub blocks: Vec<(u32, u64)>,
    /// when present the file is replaced by a sparse one of this length, with 2 MiB of data
    /// around each offset
    pub sparse: Option<(u64, Vec<u64>)>,
    pub streams: Vec<Vec<(Span, Tag)>>,
    pub order: Vec<u8>,
    pub poll: Poll,
    /// streams dropped after this many results
    pub drop_after: Vec<u8>,
    /// reads at multiples of .0 take .1 microseconds longer
    pub slow: Option<(u64, u32)>,
    /// length of an older file of the same name the writer replaces
    #[serde(default)]
    pub stale: Option<u32>,
    #[serde(default)]
    pub after: After,
}

/// What happens to the file's name once the reader is open.
#[derive(Serialize, Deserialize, Debug, Clone, Default, PartialEq)]
pub enum After {
    #[default]
    Nothing,
    Removed,
    /// another file of that length (plus .0) takes its name
    Replaced(u16),
    /// bytes are added to its end
    Grown(u16),
}

impl After {
    fn apply(&self, path: &Path) {
        match self {
            After::Nothing => {}
            After::Removed => std::fs::remove_file(path).expect("remove"),
            After::Replaced(more) => {
                let len = std::fs::metadata(path).expect("metadata").len();
                let other = path.with_extension("other");
                let f = std::fs::File::create(&other).expect("scratch file");
                f.set_len(len + *more as u64).expect("set_len");
                std::fs::rename(&other, path).expect("rename");
            }
            After::Grown(n) => {
                let mut f = std::fs::OpenOptions::new().append(true).open(path).expect("append");
                std::io::Write::write_all(&mut f, &vec![0xAB; *n as usize]).expect("append");
            }
        }
    }
}

pub struct BlockIo;

struct Want {
    tag: Tag,
    start: u64,
    end: u64,
}

fn check_result(i: usize, w: &Want, info: &OpInfo, got: std::io::Result<Vec<u8>>, c: &Content) -> R<()> {
    ensure!(
        *info == w.tag.info(),
        "result {} carries tag {:?} instead of {:?}",
        i,
        info,
        w.tag
    );
    match got {
        Err(e) => fail!("reading {}..{} failed: {}", w.start, w.end, e),
        Ok(b) => {
            let want = c.get(w.start, w.end);
            if b != want {
                let at = b.iter().zip(&want).position(|(x, y)| x != y);
                fail!(
                    "result {} for {}..{} has {} bytes, first difference at {:?}",
                    i,
                    w.start,
                    w.end,
                    b.len(),
                    at
                );
            }
            Ok(())
        }
    }
}

/// Collects one stream (up to `limit` results).
async fn drain(reader: &DiskBlockReader, wants: &[Want], limit: usize, c: &Content) -> R<()> {
    let ops = wants
        .iter()
        .map(|w| read_op(w.start, w.end, w.tag.info()))
        .collect();
    let mut s = reader.read_blocks(ops);
    let mut n = 0;
    while n < limit {
        match s.next().await {
            None => break,
            Some(r) => {
                let (info, r) = outcome(r);
                ensure!(n < wants.len(), "more results than the {} requests", wants.len());
                check_result(n, &wants[n], &info, r, c)?;
                n += 1;
            }
        }
    }
    ensure!(
        n == wants.len().min(limit),
        "{} results for {} requests",
        n,
        wants.len()
    );
    Ok(())
}

async fn in_order(reader: &DiskBlockReader, wants: &[Vec<Want>], order: &[u8], limits: &[usize], c: &Content) -> R<()> {
    let mut live: Vec<_> = wants
        .iter()
        .enumerate()
        .map(|(i, w)| {
            let ops = w
                .iter()
                .map(|w| read_op(w.start, w.end, w.tag.info()))
                .collect();
            (i, 0usize, reader.read_blocks(ops))
        })
        .collect();
    let mut k = 0;
    while !live.is_empty() {
        let pick = order.get(k).copied().unwrap_or(k as u8) as usize % live.len();
        k += 1;
        let (i, n, stream) = &mut live[pick];
        if *n >= limits[*i] {
            drop(live.remove(pick));
            continue;
        }
        match stream.next().await {
            None => {
                ensure!(
                    *n == wants[*i].len(),
                    "stream {}: {} results for {} requests",
                    i,
                    n,
                    wants[*i].len()
                );
                drop(live.remove(pick));
            }
            Some(r) => {
                let (info, r) = outcome(r);
                ensure!(*n < wants[*i].len(), "stream {}: too many results", i);
                check_result(*n, &wants[*i][*n], &info, r, c)?;
                *n += 1;
            }
        }
    }
    Ok(())
}

async fn write_blocks(path: &Path, blocks: &[(u32, u64)]) -> R<(Vec<u64>, Vec<u8>)> {
    let mut w = match BlockWriter::new(path).await {
        Ok(w) => w,
        Err(e) => fail!("cannot create: {}", e),
    };
    let mut all = vec![];
    let mut bounds = vec![0];
    ensure!(w.pos() == 0, "a new writer is at position {}", w.pos());
    for (n, seed) in blocks {
        let b = bytes_of(*seed, *n as usize);
        if let Err(e) = w.write_block(&b).await {
            fail!("write failed: {}", e);
        }
        all.extend_from_slice(&b);
        bounds.push(all.len() as u64);
        ensure!(
            w.pos() == all.len() as u64,
            "the position is {} after {} bytes",
            w.pos(),
            all.len()
        );
    }
    if let Err(e) = w.flush().await {
        fail!("flush failed: {}", e);
    }
    Ok((bounds, all))
}

impl Prop for BlockIo {
    type Case = Reads;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "A case is a list of blocks (some of many times the 16 KiB file buffer) put through the block writer, over an older file in one case in five, \
         and the file must be their concatenation, or a sparse file of up to 20 GiB made by the harness, and one to four batches of reads over \
         it (blocks exactly, ranges around boundaries, anywhere, empty, repeated, around 4 GiB) polled in a generated \
         order, together, or from several threads, some dropped half-way, some reads slowed down, the file sometimes removed, replaced or grown once it is open. Every result is compared \
         with the requested range. Non-trivial: at least two reads of at least one byte each."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the bytes of a file do not change while they are read", "range start does not exceed range end"]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Reads> {
        let block = (
            prop_oneof![
                6 => 0u32..=40,
                6 => 0u32..=5000,
                2 => 100_000u32..=300_000,
                2 => (1u32..=4, 0u32..=8).prop_map(|(k, d)| (k << 14) + d - 4),
                1 => (2u32 << 20).saturating_sub(3)..=(2 << 20) + 3,
                1 => (4u32 << 20)..=(5 << 20),
            ],
            any::<u64>(),
        );
        let sparse = prop::option::weighted(
            0.3,
            (
                prop_oneof![
                    2 => (1u64 << 32) - 100..=(1u64 << 32) + 100,
                    3 => (1u64 << 32)..=(20u64 << 30),
                    1 => 0u64..=100_000,
                ],
                vec(any::<u64>(), 0..=2),
            ),
        );
        (prop_oneof![80 => vec(block.clone(), 0..=12), 1 => vec((0u32..=300, any::<u64>()), 100..=1500)], sparse)
            .prop_flat_map(|(blocks, sparse)| {
                let huge = sparse.is_some();
                (
                    Just(blocks),
                    Just(sparse),
                    prop_oneof![
                        80 => vec(vec((span(200_000, huge), tag()), 0..=24), 1..=4),
                        1 => vec(vec((span(400, huge), tag()), 100..=1500), 1..=2),
                    ],
                    vec(any::<u8>(), 0..=60),
                    prop_oneof![Just(Poll::Order), Just(Poll::Together), Just(Poll::Threads)],
                    vec(prop_oneof![3 => Just(255u8), 1 => 0u8..=20], 4),
                    prop::option::weighted(
                        0.3,
                        (prop_oneof![Just(1u64), Just(2), Just(3), Just(7)], 50u32..=400),
                    ),
                    prop::option::weighted(0.2, prop_oneof![0u32..=5000, 0u32..=1 << 20]),
                    prop_oneof![
                        6 => Just(After::Nothing),
                        1 => Just(After::Removed),
                        1 => (0u16..=300).prop_map(After::Replaced),
                        1 => (0u16..=300).prop_map(After::Grown),
                    ],
                )
            })
            .prop_map(|(blocks, sparse, streams, order, poll, drop_after, slow, stale, after)| Reads {
                blocks,
                sparse,
                streams,
                order,
                poll,
                drop_after,
                slow,
                stale,
                after,
            })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Reads> {
        let any = |at, n| (Span::Any { at, n }, Tag::Index);
        vec![Reads {
            blocks: vec![],
            sparse: Some((5 << 30, vec![3 << 30])),
            streams: vec![vec![any(7, 90), (Span::Giant { at: 99_000, more: 70_123 }, Tag::Data(5)), any(3 << 30, 5000)]],
            order: vec![],
            poll: Poll::Order,
            drop_after: vec![],
            slow: None,
            stale: None,
            after: After::Nothing,
        }]
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 12_000,
            Tier::Thorough => 150_000,
        }
    }
    fn run(&self, c: &Reads) -> Outcome {
        let dir = Scratch::new();
        let path = dir.path().join("blocks.blk");
        if let Some(n) = c.stale {
            std::fs::write(&path, vec![0xEE; n as usize]).expect("stale file");
        }
        let disturb = || c.after.apply(&path);
        let (mut bounds, all) = block_on(write_blocks(&path, &c.blocks))?;
        let on_disk = std::fs::read(&path).unwrap_or_default();
        ensure!(
            on_disk == all,
            "the file has {} bytes, not the {} bytes written (first difference at {:?})",
            on_disk.len(),
            all.len(),
            on_disk.iter().zip(&all).position(|(a, b)| a != b)
        );
        let mut content = Content {
            len: all.len() as u64,
            patches: vec![(0, all)],
        };
        if let Some((len, places)) = &c.sparse {
            content = Content {
                len: *len,
                patches: vec![],
            };
            bounds = vec![0];
            for p in places.iter().chain(&[(1u64 << 32)]) {
                let at = (p % (len + 1)).saturating_sub(80_000);
                let n = (*len - at).min(160_000);
                content.patches.push((at, bytes_of(at ^ len, n as usize)));
                bounds.push(at);
            }
            bounds.push(*len);
            bounds.sort_unstable();
            // later patches win, as they do when they are written
            content.create(&path);
        }
        let _g = c.slow.map(|s| {
            Guard::new(
                dir.path(),
                vec![("blk", FilePlan { slow_read: Some(s), ..FilePlan::default() })],
            )
        });
        let wants: Vec<Vec<Want>> = c
            .streams
            .iter()
            .map(|ops| {
                ops.iter()
                    .map(|(s, tag)| {
                        let (start, end) = match s {
                            // whole blocks of a sparse file are too large
                            Span::Block(_) if c.sparse.is_some() => {
                                let (a, b) = s.resolve(&bounds, content.len);
                                (a, b.min(a + 100_000))
                            }
                            _ => s.resolve(&bounds, content.len),
                        };
                        Want { tag: *tag, start, end }
                    })
                    .collect()
            })
            .collect();
        let limits: Vec<usize> = (0..wants.len())
            .map(|i| match c.drop_after.get(i) {
                Some(255) | None => usize::MAX,
                Some(n) => *n as usize,
            })
            .collect();
        let open = || async {
            match DiskBlockReader::new(&path).await {
                Ok(r) => Ok(r),
                Err(e) => Err(Failure::from(format!("cannot open for reading: {}", e))),
            }
        };
        let right_len = |r: &DiskBlockReader| -> R<()> {
            ensure!(
                r.len() == content.len,
                "the reader says {} bytes, the file has {}",
                r.len(),
                content.len
            );
            Ok(())
        };
        match c.poll {
            Poll::Order => block_on(async {
                let r = open().await?;
                right_len(&r)?;
                disturb();
                in_order(&r, &wants, &c.order, &limits, &content).await
            })?,
            Poll::Together => block_on(async {
                let r = open().await?;
                right_len(&r)?;
                disturb();
                let all = wants
                    .iter()
                    .zip(&limits)
                    .map(|(w, l)| drain(&r, w, *l, &content));
                futures::future::join_all(all)
                    .await
                    .into_iter()
                    .collect::<R<Vec<()>>>()
                    .map(|_| ())
            })?,
            Poll::Threads => {
                let r = block_on(open())?;
                right_len(&r)?;
                disturb();
                std::thread::scope(|sc| {
                    let hs: Vec<_> = wants
                        .iter()
                        .zip(&limits)
                        .map(|(w, l)| {
                            let (r, content) = (&r, &content);
                            sc.spawn(move || block_on(drain(r, w, *l, content)))
                        })
                        .collect();
                    hs.into_iter()
                        .map(|h| h.join().unwrap_or_else(|_| Err("a reading thread panicked".into())))
                        .collect::<R<Vec<()>>>()
                })?;
            }
        }
        // single reads see the same bytes
        if let (Some(w), After::Nothing) = (wants.iter().flatten().next(), &c.after) {
            block_on(async {
                let r = open().await?;
                match r.read_block(range(w.start, w.end)).await {
                    Ok(b) => ensure!(
                        b == content.get(w.start, w.end),
                        "a single read of {}..{} returns other bytes",
                        w.start,
                        w.end
                    ),
                    Err(e) => fail!("a single read of {}..{} failed: {}", w.start, w.end, e),
                }
                Ok(())
            })?;
        }
        let reads: Vec<&Want> = wants.iter().flatten().collect();
        let full = reads.iter().filter(|w| w.start < w.end).count();
        let mut s = Stats {
            nontrivial: full > 1,
            points: reads.len() as u64,
            ..Stats::default()
        };
        let distinct: HashSet<(u64, u64)> = reads.iter().map(|w| (w.start, w.end)).collect();
        s.class(c.after != After::Nothing, "file removed, replaced or grown after open");
        s.class(distinct.len() < reads.len(), "repeated ranges");
        s.class(reads.iter().any(|w| w.start == w.end), "empty ranges");
        s.class(reads.iter().any(|w| w.end > 1 << 32), "ranges past 4 GiB");
        s.class(
            reads.iter().any(|w| w.start < 1 << 32 && w.end > 1 << 32),
            "ranges across 4 GiB",
        );
        s.class(
            reads.windows(2).any(|p| p[1].start < p[0].start),
            "descending offsets",
        );
        s.class(c.streams.len() > 1, "several streams");
        s.class(c.slow.is_some(), "some reads slow");
        s.class(c.blocks.iter().any(|b| b.0 > 2 << 20), "blocks above the write buffer");
        Ok(s)
    }
}

// ---------------------------------------------------------------- C15

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Want15 {
    In(Span),
    /// starts inside or at the end, ends this many bytes past it
    Over { back: u32, past: u32 },
    /// starts past the end
    Past { gap: u32, n: u32 },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Faulty {
    Batch {
        len: u32,
        seed: u64,
        ops: Vec<Want15>,
        /// (start modulo length, bytes, errno)
        bad: Vec<(u32, u32, i32)>,
        short: Option<u64>,
        eintr: Option<u64>,
        /// the file is cut to this length (modulo) after it was opened
        cut: Option<u32>,
        slow: Option<(u64, u32)>,
    },
    /// a range far larger than memory, between two good reads, in a process of its own
    Giant { len: u16, start: u64, end: u64 },
}

pub struct ReadFaults;

/// Reads (good, giant, good) and exits: 0 if only the giant one failed.
pub fn child_giant(path: &Path, start: u64, end: u64) -> i32 {
    let r = block_on(async {
        let reader = DiskBlockReader::new(path).await.map_err(|e| e.to_string())?;
        let n = reader.len();
        let ops = vec![
            read_op(0, n, OpInfo::DataBlock { first_row_id: 1 }),
            read_op(start, end, OpInfo::DataBlock { first_row_id: 2 }),
            read_op(0, n, OpInfo::DataBlock { first_row_id: 3 }),
        ];
        let mut s = reader.read_blocks(ops);
        for i in 1..=3u32 {
            let Some(r) = s.next().await else {
                return Err(format!("no result {}", i));
            };
            let (info, r) = outcome(r);
            if info != (OpInfo::DataBlock { first_row_id: i }) {
                return Err(format!("result {} has tag {:?}", i, info));
            }
            match (i, r) {
                (2, Ok(b)) => return Err(format!("the giant read returned {} bytes", b.len())),
                (2, Err(_)) => {}
                (_, Ok(b)) if b.len() as u64 == n => {}
                (_, Ok(b)) => return Err(format!("good read returned {} bytes", b.len())),
                (_, Err(e)) => return Err(format!("good read {} failed: {}", i, e)),
            }
        }
        match s.next().await {
            None => Ok(()),
            Some(_) => Err("a fourth result".to_string()),
        }
    });
    match r {
        Ok(()) => 0,
        Err(m) => {
            println!("{}", m);
            9
        }
    }
}

fn giant(dir: &Path, len: u16, start: u64, end: u64) -> R<()> {
    let path: PathBuf = dir.join("small.blk");
    std::fs::write(&path, bytes_of(len as u64, len as usize)).expect("scratch file");
    let out = Command::new(std::env::current_exe().expect("own path"))
        .arg("child-giant")
        .arg(&path)
        .arg(start.to_string())
        .arg(end.to_string())
        .output()
        .expect("child");
    ensure!(
        out.status.success(),
        "reading {}..{} of a file of {} bytes between two good reads: {} {}",
        start,
        end,
        len,
        out.status,
        String::from_utf8_lossy(&out.stdout).trim()
    );
    Ok(())
}

impl Prop for ReadFaults {
    type Case = Faulty;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "A case is a file of up to 200 kB and a batch of up to thirty reads (in range, crossing its end, past its end, \
         empty), with injected faults: regions that fail with a generated errno, reads that return a part, interrupted \
         reads, the file cut short after it was opened; or one range beyond any memory size between two good reads, in a \
         process of its own. Expected per request: an error exactly if its range is not entirely readable, its own tag, its \
         bytes otherwise. Non-trivial: the batch has a failing and a succeeding request, or legal short or interrupted reads."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "an empty range past the end may either succeed or fail",
            "which error a failed read carries is not specified",
        ]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Faulty> {
        let op = prop_oneof![
            10 => span(100_000, false).prop_map(Want15::In),
            1 => (0u32..=300, 1u32..=5000).prop_map(|(back, past)| Want15::Over { back, past }),
            1 => (0u32..=5000, 1u32..=5000).prop_map(|(gap, n)| Want15::Past { gap, n }),
            1 => (0u32..=2, 0u32..=3).prop_map(|(gap, n)| Want15::Past { gap, n }),
        ];
        let errno = prop_oneof![
            4 => Just(libc::EIO),
            1 => Just(libc::EAGAIN),
            1 => Just(libc::ENOMEM),
            1 => Just(libc::EISDIR),
            1 => Just(libc::EINVAL),
            1 => Just(libc::EOVERFLOW),
        ];
        let batch = (
            prop_oneof![2 => 0u32..=100, 3 => 0u32..=10_000, 1 => 0u32..=200_000],
            any::<u64>(),
            prop_oneof![100 => vec(op.clone(), 0..=30), 1 => vec(op, 60..=600)],
            vec(
                (
                    any::<u32>(),
                    prop_oneof![3 => 1u32..=50, 1 => 1u32..=20_000],
                    errno,
                ),
                0..=3,
            ),
            prop::option::weighted(0.4, any::<u64>()),
            prop::option::weighted(0.3, 1u64..=5),
            prop::option::weighted(0.25, any::<u32>()),
            prop::option::weighted(
                0.3,
                (prop_oneof![Just(1u64), Just(2), Just(3), Just(7)], 50u32..=300),
            ),
        )
            .prop_map(|(len, seed, ops, bad, short, eintr, cut, slow)| Faulty::Batch {
                len,
                seed,
                ops,
                bad,
                short,
                eintr,
                cut,
                slow,
            });
        let big = prop_oneof![
            2 => (1u64 << 47)..=u64::MAX,
            1 => (47u32..=63).prop_map(|k| 1u64 << k),
            1 => Just(u64::MAX),
            1 => Just(i64::MAX as u64),
        ];
        prop_oneof![
            120 => batch,
            1 => (any::<u16>(), 0u64..=70_000, big.clone())
                .prop_map(|(len, start, end)| Faulty::Giant { len, start, end: end.max(start) }),
            1 => (any::<u16>(), big.clone(), big).prop_map(|(len, a, b)| Faulty::Giant {
                len,
                start: a.min(b),
                end: a.max(b).max(a.min(b).saturating_add(1)),
            }),
        ]
        .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Faulty> {
        [
            (0u64, u64::MAX),
            (0, 1 << 47),
            (0, 1 << 62),
            (0, i64::MAX as u64),
            (0, 1 << 63),
            (10, 1 << 50),
            (u64::MAX - 1, u64::MAX),
            (1 << 62, (1 << 62) + 10),
            (i64::MAX as u64, i64::MAX as u64 + 4),
        ]
        .iter()
        .map(|(start, end)| Faulty::Giant {
            len: 100,
            start: *start,
            end: *end,
        })
        .collect()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 60_000,
            Tier::Thorough => 600_000,
        }
    }
    fn run(&self, c: &Faulty) -> Outcome {
        let dir = Scratch::new();
        let mut s = Stats::default();
        let (len, seed, ops, bad, short, eintr, cut, slow) = match c {
            Faulty::Giant { len, start, end } => {
                giant(dir.path(), *len, *start, *end)?;
                s.nontrivial = true;
                s.class(true, "range beyond memory");
                return Ok(s);
            }
            Faulty::Batch {
                len,
                seed,
                ops,
                bad,
                short,
                eintr,
                cut,
                slow,
            } => (*len as u64, *seed, ops, bad, short, eintr, cut, slow),
        };
        let path = dir.path().join("faulty.blk");
        let data = bytes_of(seed, len as usize);
        std::fs::write(&path, &data).expect("scratch file");
        let bad: Vec<(u64, u64, i32)> = bad
            .iter()
            .map(|(a, n, e)| {
                let a = *a as u64 % (len + 1);
                (a, a + *n as u64, *e)
            })
            .collect();
        let cut = cut.map(|n| n as u64 % (len + 1));
        let end_of_file = cut.unwrap_or(len);
        let mut readable = vec![true; len as usize];
        for (a, b, _) in &bad {
            for x in &mut readable[*a as usize..(*b).min(len) as usize] {
                *x = false;
            }
        }
        let bounds: Vec<u64> = std::iter::once(0)
            .chain(bad.iter().flat_map(|(a, b, _)| [*a, (*b).min(len)]))
            .chain(cut)
            .chain([len])
            .collect();
        let ranges: Vec<(u64, u64)> = ops
            .iter()
            .map(|o| match o {
                Want15::In(sp) => {
                    let (a, b) = sp.resolve(&bounds, len);
                    (a.min(b), b.max(a))
                }
                Want15::Over { back, past } => {
                    (len.saturating_sub(*back as u64), len + *past as u64)
                }
                Want15::Past { gap, n } => {
                    (len + *gap as u64, len + *gap as u64 + *n as u64)
                }
            })
            .collect();
        let g = Guard::new(
            dir.path(),
            vec![(
                "blk",
                FilePlan {
                    bad: bad.clone(),
                    short: *short,
                    eintr_every: *eintr,
                    slow_read: *slow,
                    ..FilePlan::default()
                },
            )],
        );
        let results = block_on(async {
            let reader = match DiskBlockReader::new(&path).await {
                Ok(r) => r,
                Err(e) => return Err(Failure::from(format!("cannot open: {}", e))),
            };
            if let Some(n) = cut {
                let f = std::fs::OpenOptions::new().write(true).open(&path).expect("open");
                f.set_len(n).expect("cut");
            }
            let list = ranges
                .iter()
                .enumerate()
                .map(|(i, (a, b))| read_op(*a, *b, OpInfo::DataBlock { first_row_id: i as u32 }))
                .collect();
            let mut out = vec![];
            let mut stream = reader.read_blocks(list);
            while let Some(r) = stream.next().await {
                out.push(outcome(r));
                if out.len() > ranges.len() {
                    break;
                }
            }
            Ok(out)
        })?;
        drop(g);
        ensure!(
            results.len() == ranges.len(),
            "{} results for {} requests",
            results.len(),
            ranges.len()
        );
        let (mut failed, mut fine) = (0, 0);
        for (i, ((a, b), (info, r))) in ranges.iter().zip(results).enumerate() {
            ensure!(
                info == OpInfo::DataBlock { first_row_id: i as u32 },
                "result {} carries tag {:?}",
                i,
                info
            );
            let may = *b <= end_of_file && readable[*a as usize..*b as usize].iter().all(|x| *x);
            match r {
                Ok(got) if a == b => {
                    ensure!(got.is_empty(), "an empty range returned {} bytes", got.len());
                }
                Err(_) if a == b && *a > end_of_file => {}
                Ok(got) => {
                    ensure!(
                        may,
                        "reading {}..{} must fail (file of {} bytes) but returned {} bytes",
                        a,
                        b,
                        end_of_file,
                        got.len()
                    );
                    ensure!(
                        got[..] == data[*a as usize..*b as usize],
                        "reading {}..{} returned wrong bytes",
                        a,
                        b
                    );
                    fine += 1;
                }
                Err(e) => {
                    ensure!(
                        !may,
                        "reading {}..{} failed although the range is readable: {}",
                        a,
                        b,
                        e
                    );
                    failed += 1;
                }
            }
        }
        s.points = ranges.len() as u64;
        s.nontrivial = (failed > 0 && fine > 0) || (fine > 0 && (short.is_some() || eintr.is_some()));
        s.class(failed > 0, "failing reads");
        s.class(failed > 0 && fine > 0, "failing and succeeding reads in a batch");
        s.class(cut.is_some() && failed > 0, "file cut after open");
        s.class(short.is_some() && fine > 0, "short reads");
        s.class(eintr.is_some() && fine > 0, "interrupted reads");
        Ok(s)
    }
}
