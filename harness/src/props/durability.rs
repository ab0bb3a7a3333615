//! C14, C16: segments on a misbehaving disk.

use std::path::Path;

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::{Failure, Outcome, Prop, Stats, Tier};
use crate::faults::{FilePlan, FileState, Guard};
use crate::gen::{Len, Mix, Rows, Run};
use crate::props::segments::all_rows;
use crate::scratch::{block_on, Scratch};
use crate::seg::{
    check_data, check_index, run_segment, seg_col, segment_with, End, Fate, Free, SegRun, Segment,
};
use crate::wire::{index_file, Meta};
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

const EXTS: [&str; 2] = ["idx", "dat"];

fn plans(file: usize, plan: FilePlan) -> Vec<(&'static str, FilePlan)> {
    EXTS.iter()
        .enumerate()
        .map(|(i, e)| (*e, if i == file { plan.clone() } else { FilePlan::default() }))
        .collect()
}

struct Done {
    run: SegRun,
    index: Vec<u8>,
    data: Vec<u8>,
    /// (writes, bytes, bytes synced, faults that fired) per file
    counts: [[u64; 4]; 2],
}

fn go(seg: &Segment, rows: &[Rows], plans: Vec<(&str, FilePlan)>, end: End, snapshot: bool) -> Done {
    let dir = Scratch::new();
    seg.litter(dir.path());
    let g = Guard::new(dir.path(), plans);
    let run = block_on(run_segment(seg, rows, dir.path(), &Free, end, snapshot));
    let counts = [0, 1].map(|i| {
        let f = g.file(EXTS[i]);
        [&f.writes, &f.written, &f.synced, &f.failed].map(FileState::get)
    });
    drop(g);
    let (i, d) = seg.paths(dir.path());
    let get = |p: &Path| std::fs::read(p).unwrap_or_default();
    Done {
        run,
        index: get(&i),
        data: get(&d),
        counts,
    }
}

fn healthy(seg: &Segment, rows: &[Rows], end: End) -> R<Done> {
    let d = go(seg, rows, plans(2, FilePlan::default()), end, true);
    if let Some((op, e)) = &d.run.error {
        fail!("{} failed although nothing is wrong: {}", op, e);
    }
    check_data(seg, rows, &d.run.fates, &d.data)?;
    check_index(seg, &d.run.fates, &d.index)?;
    Ok(d)
}

/// Small segments, and now and then one whose data takes many writes of the 16 KiB buffer.
pub fn small_segment(max_cols: usize) -> BoxedStrategy<Segment> {
    let big = (any::<u64>(), 1u32..=6, any::<bool>()).prop_map(|(seed, n, null)| {
        let mut runs = vec![Run::Vals {
            n,
            len: Len::Fixed(700_000),
            seed,
        }];
        if null {
            runs.push(Run::Nulls(3));
        }
        runs
    });
    let col = seg_col(Just(0).boxed());
    let col = (col, prop::option::weighted(0.1, big)).prop_map(|(mut c, b)| {
        if let Some(b) = b {
            c.runs = b;
        }
        c
    });
    segment_with(vec(col, 0..=max_cols).boxed())
}

fn errno() -> BoxedStrategy<i32> {
    prop_oneof![
        Just(libc::ENOSPC),
        Just(libc::EIO),
        Just(libc::EDQUOT),
        Just(libc::EFBIG),
        Just(libc::EACCES),
        Just(libc::EAGAIN),
        Just(libc::EPERM),
        Just(libc::EROFS),
        Just(libc::EMFILE),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C14

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct WriteFaults {
    pub seg: Segment,
    pub errno: i32,
    /// picks the byte offsets at which the device is full
    pub offsets: u64,
    /// partial writes
    pub short: u64,
    pub eintr: u64,
}

pub struct LoudFailures;

impl LoudFailures {
    fn must_fail(seg: &Segment, rows: &[Rows], file: usize, plan: FilePlan, what: &str) -> R<u64> {
        let d = go(seg, rows, plans(file, plan), End::Close, false);
        if d.counts[file][3] == 0 {
            // this run made fewer writes than the counted one: nothing was refused
            return Ok(0);
        }
        ensure!(
            d.run.error.is_some(),
            "{} of the .{} file, but every operation up to close succeeded; it has {} bytes",
            what,
            EXTS[file],
            if file == 0 { d.index.len() } else { d.data.len() }
        );
        Ok(1)
    }
}

impl Prop for LoudFailures {
    type Case = WriteFaults;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "A case is a segment history. It runs once on a healthy disk, counting the writes each file receives; then once per \
         fault: the open of either file refused; the n-th write of either file refused, for every n, once and from then on; \
         the device full after k bytes of either file, for the first and last bytes, the ends of the healthy writes and a \
         generated sample of k; each with a generated errno. Every such run must report an error no later than close. Runs \
         with partial and interrupted writes must give the healthy files. Non-trivial: a history with data blocks."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "faults are injected at the C library calls of the process; a write refused after being acknowledged by the \
             system (lost power) is the subject of C16",
        ]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<WriteFaults> {
        (small_segment(3), errno(), any::<u64>(), any::<u64>(), 1u64..=4)
            .prop_map(|(seg, errno, offsets, short, eintr)| WriteFaults {
                seg,
                errno,
                offsets,
                short,
                eintr,
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 800,
            Tier::Thorough => 10_000,
        }
    }
    fn run(&self, c: &WriteFaults) -> Outcome {
        let rows = all_rows(&c.seg);
        let h = healthy(&c.seg, &rows, End::Close)?;
        let mut s = Stats::default();
        for file in 0..2 {
            let [writes, bytes, ..] = h.counts[file];
            s.points += Self::must_fail(
                &c.seg,
                &rows,
                file,
                FilePlan { fail_open: Some(c.errno), ..FilePlan::default() },
                &format!("errno {} on opening", c.errno),
            )?;
            for n in 0..writes {
                for sticky in [false, true] {
                    s.points += Self::must_fail(
                        &c.seg,
                        &rows,
                        file,
                        FilePlan {
                            fail_write: Some((n, c.errno, sticky)),
                            ..FilePlan::default()
                        },
                        &format!(
                            "errno {} at write {} of {}{}",
                            c.errno,
                            n,
                            writes,
                            if sticky { " and later ones" } else { "" }
                        ),
                    )?;
                }
            }
            let mut m = Mix(c.offsets);
            let mut at: Vec<u64> = vec![0, 1, bytes / 2, bytes - 1, bytes.saturating_sub(8), bytes.saturating_sub(9)];
            at.extend((0..6).map(|_| m.below(bytes)));
            at.sort_unstable();
            at.dedup();
            for k in at.into_iter().filter(|k| *k < bytes) {
                s.points += Self::must_fail(
                    &c.seg,
                    &rows,
                    file,
                    FilePlan {
                        budget: Some((k, c.errno)),
                        ..FilePlan::default()
                    },
                    &format!("errno {} after {} of {} bytes", c.errno, k, bytes),
                )?;
            }
        }
        // what the system may legally do changes nothing
        for (short, eintr) in [
            (Some(c.short), None),
            (None, Some(c.eintr)),
            (Some(c.short ^ 1), Some(c.eintr)),
        ] {
            let plan = FilePlan {
                short,
                eintr_every: eintr,
                ..FilePlan::default()
            };
            let d = go(
                &c.seg,
                &rows,
                vec![("idx", plan.clone()), ("dat", plan)],
                End::Close,
                true,
            );
            let what = format!("partial writes {:?}, interrupts every {:?}", short, eintr);
            if let Some((op, e)) = &d.run.error {
                fail!("{}: {} failed: {}", what, op, e);
            }
            ensure!(
                d.data == h.data,
                "{}: the data file has {} bytes instead of {} or other contents",
                what,
                d.data.len(),
                h.data.len()
            );
            let (_, a): (u64, Meta) = index_file(&d.index)?;
            let (_, b) = index_file(&h.index)?;
            ensure!(
                a == b && d.index.len() == h.index.len(),
                "{}: the index file differs",
                what
            );
            s.points += 1;
        }
        s.nontrivial = h.run.fates.iter().any(|f| match f {
            Fate::Closed(e) | Fate::Abandoned(e) => !e.is_empty(),
            _ => false,
        });
        s.class(h.data.len() > 2 << 20, "data above one write buffer");
        s.class(h.run.fates.iter().any(|f| matches!(f, Fate::Abandoned(_))), "abandoned column");
        s.class(h.counts[0][0] + h.counts[1][0] > 6, "more than six writes");
        Ok(s)
    }
}

// ---------------------------------------------------------------- C16

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SlowDisk {
    pub seg: Segment,
    /// per file (index, data): writes from the n-th on take this many milliseconds
    pub slow: [Option<(u8, u8)>; 2],
    pub slow_sync: [u8; 2],
    pub short: Option<u64>,
    /// forcing this file fails
    pub bad_sync: Option<(bool, i32)>,
}

pub struct Durable;

impl Prop for Durable {
    type Case = SlowDisk;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "A case is a segment history on a disk whose writes (from a generated one on, per file) and syncs are slow, whose \
         writes may be partial and whose sync of one file may fail. When close returns, both files as another process sees \
         them must be complete; when sync returns, every byte of both files must have been covered by a later successful \
         sync, and a failed sync must be reported. Non-trivial: slow writes, or a failing sync."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "bytes count as durable when fsync or fdatasync of their file was called after they were written and succeeded; \
             the directory entries of the files are not considered",
        ]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<SlowDisk> {
        let slow = || {
            prop::option::weighted(
                0.6,
                (prop_oneof![2 => Just(0u8), 2 => 0u8..=12, 1 => Just(1u8)], 1u8..=12),
            )
        };
        (
            small_segment(2),
            slow(),
            slow(),
            prop_oneof![2 => Just(0u8), 1 => 1u8..=10],
            prop_oneof![2 => Just(0u8), 1 => 1u8..=10],
            prop::option::weighted(0.1, any::<u64>()),
            prop::option::weighted(
                0.35,
                (
                    any::<bool>(),
                    prop_oneof![Just(libc::EIO), Just(libc::ENOSPC), Just(libc::EDQUOT)],
                ),
            ),
        )
            .prop_map(|(seg, a, b, sa, sb, short, bad_sync)| SlowDisk {
                seg,
                // many tiny partial writes would make a slow disk endless
                slow: if short.is_some() { [None, None] } else { [a, b] },
                slow_sync: [sa, sb],
                short,
                bad_sync,
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 4_000,
            Tier::Thorough => 40_000,
        }
    }
    /// the cases mostly sleep
    fn threads(&self) -> usize {
        16
    }
    fn run(&self, c: &SlowDisk) -> Outcome {
        let rows = all_rows(&c.seg);
        let plan = |i: usize| FilePlan {
            slow_write: c.slow[i].map(|(n, ms)| (n as u64, ms as u32)),
            slow_sync_ms: c.slow_sync[i] as u32,
            short: c.short,
            fail_sync: match c.bad_sync {
                Some((data, e)) if data as usize == i => Some(e),
                _ => None,
            },
            ..FilePlan::default()
        };
        let d = go(
            &c.seg,
            &rows,
            vec![("idx", plan(0)), ("dat", plan(1))],
            End::Sync,
            true,
        );
        match (&d.run.error, c.bad_sync) {
            (None, None) => {}
            (None, Some((data, e))) => fail!(
                "forcing the .{} file failed with errno {} but sync succeeded",
                EXTS[data as usize],
                e
            ),
            (Some((op, e)), bad) => {
                ensure!(
                    *op == "sync" && bad.is_some(),
                    "{} failed on a slow but healthy disk: {}",
                    op,
                    e
                );
            }
        }
        let Some((index, data)) = &d.run.at_close else {
            fail!("close did not succeed")
        };
        ensure!(
            *index == d.index && *data == d.data,
            "when close returned the files had {} and {} bytes, at the end {} and {}",
            index.len(),
            data.len(),
            d.index.len(),
            d.data.len()
        );
        check_data(&c.seg, &rows, &d.run.fates, data)?;
        check_index(&c.seg, &d.run.fates, index)?;
        if d.run.synced {
            for i in 0..2 {
                let len = [d.index.len(), d.data.len()][i] as u64;
                ensure!(
                    d.counts[i][2] == len,
                    "sync succeeded but only {} of the {} bytes of the .{} file were forced to the disk",
                    d.counts[i][2],
                    len,
                    EXTS[i]
                );
            }
        }
        let mut s = Stats {
            nontrivial: c.slow != [None, None] || c.bad_sync.is_some(),
            points: 2,
            ..Stats::default()
        };
        s.class(c.slow[0].is_some(), "slow index writes");
        s.class(c.slow[1].is_some(), "slow data writes");
        s.class(c.bad_sync.is_some(), "failing sync");
        s.class(c.short.is_some(), "partial writes");
        s.class(d.data.len() > 2 << 20, "data above one write buffer");
        Ok(s)
    }
}
