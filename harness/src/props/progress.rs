//! C22-C24: stalled disks, read-ahead, released files.

use std::path::Path;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::Duration;

use futures::StreamExt;
use meerkat::verif::io::{outcome, read_op, BlockReader, DiskBlockReader, OpInfo};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::{Failure, Outcome, Prop, Stats, Tier};
use crate::faults::{Call, FilePlan, FileState, Guard};
use crate::gen::Mix;
use crate::props::segments::all_rows;
use crate::scratch::{block_on, Scratch};
use crate::seg::{
    check_data, check_index, run_segment, seg_col, segment_with, End, Free, Segment,
};
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

fn bytes_of(seed: u64, n: usize) -> Vec<u8> {
    let mut m = Mix(seed);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&m.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

fn little_segment(max_cols: usize) -> BoxedStrategy<Segment> {
    segment_with(vec(seg_col(Just(0).boxed()), 0..=max_cols).boxed())
}

/// Reads `ops` as one batch and compares every result.
async fn read_batch(path: &Path, want: &[u8], ops: &[(u64, u64)]) -> R<()> {
    let reader = match DiskBlockReader::new(path).await {
        Ok(r) => r,
        Err(e) => fail!("cannot open for reading: {}", e),
    };
    let list = ops
        .iter()
        .enumerate()
        .map(|(i, (a, b))| read_op(*a, *b, OpInfo::DataBlock { first_row_id: i as u32 }))
        .collect();
    let mut s = reader.read_blocks(list);
    for (i, (a, b)) in ops.iter().enumerate() {
        let Some(r) = s.next().await else {
            fail!("{} results for {} requests", i, ops.len())
        };
        let (info, got) = outcome(r);
        ensure!(
            info == OpInfo::DataBlock { first_row_id: i as u32 },
            "result {} carries tag {:?}",
            i,
            info
        );
        match got {
            Ok(got) => ensure!(
                got == want[*a as usize..*b as usize],
                "reading {}..{} gave {} bytes which are not those of the file",
                a,
                b,
                got.len()
            ),
            Err(e) => fail!("reading {}..{} failed: {}", a, b, e),
        }
    }
    ensure!(s.next().await.is_none(), "more results than requests");
    Ok(())
}

// ---------------------------------------------------------------- C22

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Work {
    /// a segment written to the end; the call is one on its index or data file
    Segment { seg: Segment, data: bool },
    /// a file opened and read in one batch
    Batch { len: u32, seed: u64, ops: Vec<(u32, u32)> },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Stall {
    pub work: Work,
    /// which call is not answered
    pub call: Call,
    pub nth: u8,
    /// written and read meanwhile
    pub other: Segment,
    /// woken one by one instead of polled together
    pub apart: bool,
}

pub struct Stalls;

/// Everything another user of the executor does while the call is held.
async fn meanwhile(other: &Segment, dir: &Path) -> R<()> {
    let rows = all_rows(other);
    let r = run_segment(other, &rows, dir, &Free, End::Sync, false).await;
    if let Some((op, e)) = &r.error {
        fail!("another segment: {} failed although nothing is wrong: {}", op, e);
    }
    let (i, d) = other.paths(dir);
    let (index, data) = (
        std::fs::read(&i).unwrap_or_default(),
        std::fs::read(&d).unwrap_or_default(),
    );
    check_data(other, &rows, &r.fates, &data)?;
    check_index(other, &r.fates, &index)?;
    let n = data.len() as u64;
    read_batch(&d, &data, &[(0, n), (n / 2, n), (0, 13), (5, n)]).await
}

impl Prop for Stalls {
    type Case = Stall;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "A case is a segment history or a batch of reads of which one generated system call (open, write, sync or read) gets no \
         answer until another user of the same single-threaded executor has written, closed, synced and read back a whole \
         segment of its own. Then the call is answered and the first history must end correctly. Non-trivial: the call was made."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a call that is still unanswered after 20 s means that the other work cannot proceed; it takes milliseconds",
            "the executor has eight threads for blocking work",
        ]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Stall> {
        let nth = || prop_oneof![4 => 0u8..=3, 1 => 0u8..=20];
        let seg = (
            little_segment(3),
            any::<bool>(),
            prop_oneof![1 => Just(Call::Open), 4 => Just(Call::Write), 1 => Just(Call::Sync)],
            nth(),
        )
            .prop_map(|(seg, data, call, nth)| {
                (
                    Work::Segment { seg, data },
                    call,
                    if call == Call::Write { nth } else { 0 },
                )
            });
        let batch = (
            prop_oneof![1u32..=100, 1u32..=300_000],
            any::<u64>(),
            vec((any::<u32>(), prop_oneof![1u32..=100, 1u32..=100_000]), 1..=12),
            prop_oneof![1 => Just(Call::Open), 5 => Just(Call::Read)],
            nth(),
        )
            .prop_map(|(len, seed, ops, call, nth)| {
                let nth = if call == Call::Read { nth % ops.len() as u8 } else { 0 };
                (Work::Batch { len, seed, ops }, call, nth)
            });
        (prop_oneof![3 => seg, 2 => batch], little_segment(2), any::<bool>())
            .prop_map(|((work, call, nth), mut other, apart)| {
                other.stale = None;
                Stall {
                    work,
                    call,
                    nth,
                    other,
                    apart,
                }
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 6_000,
            Tier::Thorough => 120_000,
        }
    }
    fn run(&self, c: &Stall) -> Outcome {
        let (dir, dir2) = (Scratch::new(), Scratch::new());
        let plan = FilePlan {
            hold: Some((c.call, c.nth as u64)),
            ..FilePlan::default()
        };
        let (ext, path) = match &c.work {
            Work::Segment { seg, data } => {
                seg.litter(dir.path());
                (if *data { "dat" } else { "idx" }, dir.path().to_path_buf())
            }
            Work::Batch { len, seed, .. } => {
                let p = dir.path().join("file.blk");
                std::fs::write(&p, bytes_of(*seed, *len as usize)).expect("scratch file");
                ("blk", p)
            }
        };
        let g = Guard::new(dir.path(), vec![(ext, plan)]);
        let done = AtomicBool::new(false);
        let first = async {
            let r: R<()> = match &c.work {
                Work::Segment { seg, .. } => {
                    let rows = all_rows(seg);
                    let r = run_segment(seg, &rows, &path, &Free, End::Sync, false).await;
                    match &r.error {
                        Some((op, e)) => Err(Failure::from(format!(
                            "{} failed although the disk was only slow: {}",
                            op, e
                        ))),
                        None => {
                            let (i, d) = seg.paths(&path);
                            let get = |p: &Path| std::fs::read(p).unwrap_or_default();
                            check_data(seg, &rows, &r.fates, &get(&d))
                                .and_then(|_| check_index(seg, &r.fates, &get(&i)))
                                .map(|_| ())
                        }
                    }
                }
                Work::Batch { len, seed, ops } => {
                    let want = bytes_of(*seed, *len as usize);
                    let ops: Vec<(u64, u64)> = ops
                        .iter()
                        .map(|(a, n)| {
                            let a = *a as u64 % *len as u64;
                            (a, (a + *n as u64).min(*len as u64))
                        })
                        .collect();
                    read_batch(&path, &want, &ops).await
                }
            };
            done.store(true, SeqCst);
            r
        };
        let state = g.file(ext);
        let second = async {
            while !state.held().entered && !done.load(SeqCst) {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            let r = match state.held().entered {
                true => meanwhile(&c.other, dir2.path()).await,
                false => Ok(()),
            };
            state.release();
            r
        };
        let (a, b) = block_on(async {
            if c.apart {
                let mut set = futures::stream::FuturesUnordered::new();
                set.push(futures::future::Either::Left(async { (0, first.await) }));
                set.push(futures::future::Either::Right(async { (1, second.await) }));
                let mut out = [Ok(()), Ok(())];
                while let Some((i, r)) = set.next().await {
                    out[i] = r;
                }
                let [a, b] = out;
                (a, b)
            } else {
                tokio::join!(first, second)
            }
        });
        let held = state.held();
        ensure!(
            !held.timed_out,
            "while {:?} call {} on the .{} file was unanswered, nothing else on the executor could finish",
            c.call,
            c.nth,
            ext
        );
        b?;
        a?;
        let mut s = Stats {
            nontrivial: held.entered,
            points: 1,
            ..Stats::default()
        };
        let what = match c.work {
            Work::Segment { .. } => "segment",
            Work::Batch { .. } => "reads",
        };
        s.class(held.entered, &format!("{}: unanswered {:?}", what, c.call));
        Ok(s)
    }
}

// ---------------------------------------------------------------- C23

/// Blocks that may be read ahead of the results taken.
const WINDOW: u64 = 32;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Ahead {
    pub blocks: u16,
    pub size: u32,
    /// distance between the blocks
    pub gap: u32,
    pub seed: u64,
    /// results taken between pauses
    pub takes: Vec<u8>,
    pub pause_ms: u8,
}

pub struct ReadAhead;

impl Prop for ReadAhead {
    type Case = Ahead;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "A case is a batch of reads of ascending blocks whose results are taken in generated portions with pauses, until the \
         stream is dropped. At every pause and after the drop, the furthest block whose bytes were asked of the operating \
         system must be at most 32 blocks ahead of the results taken. Non-trivial: the batch is longer than that and not \
         taken to its end."
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Ahead> {
        (
            prop_oneof![1 => 1u16..=60, 4 => 60u16..=400, 1 => 400u16..=5000],
            prop_oneof![1u32..=40, 1u32..=20_000],
            prop_oneof![3 => Just(0u32), 1 => 0u32..=10_000],
            any::<u64>(),
            vec(prop_oneof![0u8..=5, any::<u8>()], 1..=4),
            1u8..=4,
        )
            .prop_map(|(blocks, size, gap, seed, takes, pause_ms)| Ahead {
                blocks,
                size,
                gap,
                seed,
                takes,
                pause_ms,
            })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Ahead> {
        let mut out = vec![];
        for (blocks, size) in [(2000, 128 * 1024u32), (300, 128 * 1024), (20, 4 << 20), (40_000, 100)] {
            for takes in [vec![0], vec![1], vec![3, 7], vec![40, 1, 200]] {
                out.push(Ahead {
                    blocks,
                    size,
                    gap: 0,
                    seed: 1,
                    takes,
                    pause_ms: 30,
                });
            }
        }
        out
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 8_000,
            Tier::Thorough => 150_000,
        }
    }
    /// the cases mostly sleep
    fn threads(&self) -> usize {
        16
    }
    fn run(&self, c: &Ahead) -> Outcome {
        let dir = Scratch::new();
        let path = dir.path().join("file.blk");
        let (n, size) = (c.blocks as u64, c.size as u64);
        let stride = size + c.gap as u64;
        let f = std::fs::File::create(&path).expect("scratch file");
        f.set_len(n * stride).expect("set_len");
        drop(f);
        let g = Guard::new(dir.path(), vec![("blk", FilePlan::default())]);
        let state = g.file("blk");
        let within = |taken: u64, when: &str| -> R<()> {
            let hi = FileState::get(&state.read_hi);
            let asked = (hi + stride - 1) / stride;
            ensure!(
                asked <= taken + WINDOW,
                "{}: {} blocks of {} bytes were asked of the system, {} results were taken",
                when,
                asked,
                size,
                taken
            );
            Ok(())
        };
        let mut taken = 0;
        block_on(async {
            let reader = match DiskBlockReader::new(&path).await {
                Ok(r) => r,
                Err(e) => fail!("cannot open for reading: {}", e),
            };
            let ops = (0..n)
                .map(|i| {
                    read_op(
                        i * stride,
                        i * stride + size,
                        OpInfo::DataBlock { first_row_id: i as u32 },
                    )
                })
                .collect();
            let mut s = reader.read_blocks(ops);
            let mut ended = false;
            for k in &c.takes {
                for _ in 0..*k {
                    // a stream must not be polled again after its end
                    if ended {
                        break;
                    }
                    let Some(r) = s.next().await else {
                        ended = true;
                        break;
                    };
                    let (info, got) = outcome(r);
                    ensure!(
                        info == OpInfo::DataBlock { first_row_id: taken as u32 },
                        "result {} carries tag {:?}",
                        taken,
                        info
                    );
                    match got {
                        Ok(b) => ensure!(b.len() as u64 == size, "block {} has {} bytes", taken, b.len()),
                        Err(e) => fail!("block {} cannot be read: {}", taken, e),
                    }
                    taken += 1;
                }
                tokio::time::sleep(Duration::from_millis(c.pause_ms as u64)).await;
                within(taken, "at a pause")?;
            }
            drop(s);
            tokio::time::sleep(Duration::from_millis(c.pause_ms as u64)).await;
            within(taken, "after the stream was dropped")
        })?;
        within(taken, "after the executor ended")?;
        let mut s = Stats {
            nontrivial: taken + WINDOW < n,
            points: c.takes.len() as u64 + 2,
            ..Stats::default()
        };
        s.class(taken == 0, "nothing taken");
        s.class(taken > 0 && taken < n, "dropped midway");
        s.class(n > 255, "more than 255 requests");
        s.class(n * size > 16 << 20, "more than 16 MiB requested");
        Ok(s)
    }
}

// ---------------------------------------------------------------- C24

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct BatchUse {
    pub data: bool,
    pub ops: Vec<(u32, u32)>,
    /// results taken before the stream is dropped
    pub take: u8,
    /// use a clone of the reader
    pub clone: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Life24 {
    pub seg: Segment,
    /// the n-th call on the index or data file fails
    pub fault: Option<(bool, Call, u8, i32)>,
    pub sync: bool,
    pub reads: Vec<BatchUse>,
    /// opening a missing file
    pub missing: bool,
}

pub struct Released;

/// Descriptors of this process that refer to files below `dir`.
fn open_below(dir: &Path) -> Vec<String> {
    let Ok(list) = std::fs::read_dir("/proc/self/fd") else { return vec![] };
    list.filter_map(|e| std::fs::read_link(e.ok()?.path()).ok())
        .filter(|p| p.starts_with(dir))
        .map(|p| p.display().to_string())
        .collect()
}

impl Prop for Released {
    type Case = Life24;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "A case writes a segment, with or without a failing open, write or sync, then opens readers on what is there, takes \
         part of their batches and drops everything. No descriptor of the process may still refer to a file of the case, \
         while the executor keeps running. Non-trivial: something failed or was dropped before its end."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["descriptors still held 10 s after the last use are never released"]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Life24> {
        let fault = prop::option::weighted(
            0.6,
            (
                any::<bool>(),
                prop_oneof![1 => Just(Call::Open), 3 => Just(Call::Write), 1 => Just(Call::Sync)],
                prop_oneof![4 => 0u8..=3, 1 => 0u8..=20],
                prop_oneof![Just(libc::EIO), Just(libc::ENOSPC), Just(libc::EACCES), Just(libc::EMFILE)],
            ),
        );
        let reads = vec(
            (
                any::<bool>(),
                vec((any::<u32>(), prop_oneof![0u32..=100, 0u32..=100_000]), 0..=12),
                0u8..=14,
                any::<bool>(),
            )
                .prop_map(|(data, ops, take, clone)| BatchUse {
                    data,
                    ops,
                    take,
                    clone,
                }),
            0..=4,
        );
        (little_segment(3), fault, any::<bool>(), reads, any::<bool>())
            .prop_map(|(seg, fault, sync, reads, missing)| Life24 {
                seg,
                fault,
                sync,
                reads,
                missing,
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 10_000,
            Tier::Thorough => 150_000,
        }
    }
    fn run(&self, c: &Life24) -> Outcome {
        let dir = Scratch::new();
        c.seg.litter(dir.path());
        let rows = all_rows(&c.seg);
        let plan = |data: bool| match c.fault {
            Some((d, call, nth, e)) if d == data => FilePlan {
                fail_open: (call == Call::Open).then_some(e),
                fail_write: (call == Call::Write).then_some((nth as u64, e, false)),
                fail_sync: (call == Call::Sync).then_some(e),
                ..FilePlan::default()
            },
            _ => FilePlan::default(),
        };
        let mut failed = false;
        let mut partial = false;
        block_on(async {
            {
                let g = Guard::new(dir.path(), vec![("idx", plan(false)), ("dat", plan(true))]);
                let end = if c.sync { End::Sync } else { End::Close };
                let r = run_segment(&c.seg, &rows, dir.path(), &Free, end, false).await;
                failed = r.error.is_some();
                // calls still under way keep their plan
                settle(dir.path()).await?;
                drop(g);
            }
            let (i, d) = c.seg.paths(dir.path());
            for b in &c.reads {
                let path = if b.data { &d } else { &i };
                let Ok(reader) = DiskBlockReader::new(path).await else { continue };
                let len = reader.len();
                let reader = if b.clone { reader.clone() } else { reader };
                let ops = b
                    .ops
                    .iter()
                    .map(|(a, n)| {
                        let a = *a as u64 % (len + 1);
                        read_op(a, a + *n as u64, OpInfo::GenericBlock)
                    })
                    .collect();
                let mut s = reader.read_blocks(ops);
                let mut got = 0;
                while got < b.take && s.next().await.is_some() {
                    got += 1;
                }
                partial |= (got as usize) < b.ops.len();
            }
            if c.missing {
                ensure!(
                    DiskBlockReader::new(dir.path().join("missing.dat")).await.is_err(),
                    "a missing file was opened for reading"
                );
                ensure!(
                    !dir.path().join("missing.dat").exists(),
                    "opening a missing file for reading created it"
                );
            }
            settle(dir.path()).await
        })?;
        let mut s = Stats {
            nontrivial: failed || partial,
            points: 2,
            ..Stats::default()
        };
        s.class(failed, "segment failed");
        s.class(partial, "batch dropped midway");
        s.class(c.seg.cols.iter().any(|c| c.abandon), "abandoned column");
        Ok(s)
    }
}

/// Waits until no file below `dir` is open.
async fn settle(dir: &Path) -> R<()> {
    for k in 0u64..1500 {
        if open_below(dir).is_empty() {
            return Ok(());
        }
        tokio::time::sleep(Duration::from_millis(1 + k / 100)).await;
    }
    let left = open_below(dir);
    ensure!(
        left.is_empty(),
        "everything was dropped, but the process still holds {} descriptors: {}",
        left.len(),
        left.join(", ")
    );
    Ok(())
}
