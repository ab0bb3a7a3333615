//! C11, C21: segments.

use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::{Failure, Outcome, Prop, Stats, Tier};
use crate::gen::Rows;
use crate::scratch::{block_on, Scratch};
use crate::seg::{
    check_block_index_ranges, check_index, run_segment, segment, wide_segments, End, Fate, Free, Gate, SegRun, Segment,
};
use crate::wire::index_file;
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

pub fn all_rows(seg: &Segment) -> Vec<Rows> {
    seg.cols.iter().map(|c| c.rows()).collect()
}

/// Runs a healthy history; any error is a failure.
pub fn healthy(seg: &Segment, rows: &[Rows], dir: &Path) -> R<(SegRun, Vec<u8>, Vec<u8>)> {
    seg.litter(dir);
    let r = block_on(run_segment(seg, rows, dir, &Free, End::Close, false));
    if let Some((op, e)) = &r.error {
        fail!("{} failed although nothing is wrong: {}", op, e);
    }
    let (index, data) = files(seg, dir)?;
    Ok((r, index, data))
}

fn files(seg: &Segment, dir: &Path) -> R<(Vec<u8>, Vec<u8>)> {
    let mut names: Vec<String> = std::fs::read_dir(dir)
        .map(|d| {
            d.filter_map(|e| e.ok())
                .map(|e| e.file_name().to_string_lossy().into_owned())
                .collect()
        })
        .unwrap_or_default();
    names.sort();
    let (i, d) = seg.paths(dir);
    match (std::fs::read(&i), std::fs::read(&d)) {
        (Ok(i), Ok(d)) => Ok((i, d)),
        _ => fail!("expected files {}.idx and .dat, found {:?}", seg.stem(), names),
    }
}

// ---------------------------------------------------------------- C11

pub struct IndexFile;

impl Prop for IndexFile {
    type Case = Segment;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "A case is a segment: id, names (empty, ASCII, Unicode, long), shard, row count and up to six columns of every type, \
         index type and nullability with generated rows, some abandoned without close. The files are found under their \
         expected names; the index file is parsed by an independent protobuf reader with the published field numbers and \
         compared with the history. Fixed cases have up to 1100 columns and names of up to 200000 bytes. Non-trivial: at least \
         one closed column."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "column names within a segment are distinct",
            "per-column statistics (cardinality, counts, sizes) are marked as missing in the code and are not claimed",
        ]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Segment> {
        segment(6)
    }
    fn fixed(&self, _tier: Tier) -> Vec<Segment> {
        wide_segments()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 35_000,
            Tier::Thorough => 350_000,
        }
    }
    fn run(&self, seg: &Segment) -> Outcome {
        let dir = Scratch::new();
        let rows = all_rows(seg);
        let (r, index, _) = healthy(seg, &rows, dir.path())?;
        let count = std::fs::read_dir(dir.path()).map(|d| d.count()).unwrap_or(0);
        ensure!(count == 2, "{} files were created instead of 2", count);
        check_index(seg, &r.fates, &index)?;
        let (_, m) = index_file(&index)?;
        for (c, f) in seg.cols.iter().zip(&r.fates) {
            if let Fate::Closed(_) = f {
                ensure!(
                    m.layouts[&c.name].encoder == Some(4),
                    "column {:?} is raw but its layout field is {:?}",
                    c.name,
                    m.layouts[&c.name].encoder
                );
            }
        }
        let finding = check_block_index_ranges(seg, &r.fates, &index)?;
        let closed = r.fates.iter().filter(|f| matches!(f, Fate::Closed(_))).count();
        let mut s = Stats {
            nontrivial: closed > 0,
            finding,
            ..Stats::default()
        };
        s.class(closed > 1, "several closed columns");
        s.class(closed < seg.cols.len(), "abandoned columns");
        s.class(seg.cols.is_empty(), "no columns");
        Ok(s)
    }
}

// ---------------------------------------------------------------- C21

#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub enum Mode {
    /// one thread, operations in the generated order
    Turns,
    /// one thread, all histories polled together
    Together,
    /// several threads
    Threads,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Side {
    pub segs: Vec<Segment>,
    /// which history gets the next turn (modulo those unfinished)
    pub order: Vec<u8>,
    pub mode: Mode,
    /// all in one directory
    pub same_dir: bool,
}

pub struct SideBySide;

struct Turn {
    /// the scheduler sends one permit per turn
    permit: tokio::sync::Semaphore,
    done: tokio::sync::mpsc::UnboundedSender<()>,
    first: std::sync::atomic::AtomicBool,
}

#[async_trait::async_trait]
impl Gate for Turn {
    async fn turn(&self) {
        // the previous operation is over
        if !self.first.swap(false, std::sync::atomic::Ordering::SeqCst) {
            let _ = self.done.send(());
        }
        self.permit.acquire().await.expect("permit").forget();
    }
}

fn together(c: &Side, rows: &[Vec<Rows>], dirs: &[std::path::PathBuf]) -> Vec<SegRun> {
    for (s, d) in c.segs.iter().zip(dirs) {
        s.litter(d);
    }
    match c.mode {
        Mode::Together => block_on(futures::future::join_all(
            c.segs
                .iter()
                .zip(rows)
                .zip(dirs)
                .map(|((s, r), d)| run_segment(s, r, d, &Free, End::Close, false)),
        )),
        Mode::Threads => std::thread::scope(|sc| {
            let hs: Vec<_> = c
                .segs
                .iter()
                .zip(rows)
                .zip(dirs)
                .map(|((s, r), d)| {
                    sc.spawn(move || block_on(run_segment(s, r, d, &Free, End::Close, false)))
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("history")).collect()
        }),
        Mode::Turns => block_on(async {
            let mut gates = vec![];
            let mut dones = vec![];
            for _ in &c.segs {
                let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
                gates.push(Arc::new(Turn {
                    permit: tokio::sync::Semaphore::new(0),
                    done: tx,
                    first: std::sync::atomic::AtomicBool::new(true),
                }));
                dones.push(rx);
            }
            let work = futures::future::join_all(c.segs.iter().enumerate().map(|(i, s)| {
                let g = gates[i].clone();
                async move {
                    let r = run_segment(s, &rows[i], &dirs[i], &*g, End::Close, false).await;
                    // wakes the scheduler for the last time
                    g.permit.close();
                    let _ = g.done.send(());
                    r
                }
            }));
            let schedule = async {
                let mut k = 0;
                let mut live: Vec<usize> = (0..gates.len()).collect();
                while !live.is_empty() {
                    let pick = c.order.get(k).copied().unwrap_or(k as u8) as usize % live.len();
                    k += 1;
                    let i = live[pick];
                    gates[i].permit.add_permits(1);
                    dones[i].recv().await;
                    if gates[i].permit.is_closed() {
                        live.remove(pick);
                    }
                }
            };
            futures::future::join(work, schedule).await.0
        }),
    }
}

impl Prop for SideBySide {
    type Case = Side;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "A case is two to five segment histories (ids may differ in one bit only), in one directory or several, run with \
         their operations in a generated order on one thread, polled together on one thread, or on one thread each. Each \
         history also runs alone, twice. Data files must be equal byte for byte and index files decode to the same metadata. \
         Non-trivial: at least two histories with closed columns."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["segment ids are distinct", "the order of columns inside the index metadata is not specified"]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Side> {
        (
            vec(segment(3), 2..=5),
            vec(any::<u8>(), 0..=40),
            prop_oneof![Just(Mode::Turns), Just(Mode::Together), Just(Mode::Threads)],
            any::<bool>(),
            proptest::option::of((0usize..16, 0u8..8)),
        )
            .prop_map(|(mut segs, order, mode, same_dir, near)| {
                // ids that differ in one bit
                if let Some((at, bit)) = near {
                    let base = segs[0].id;
                    for (i, s) in segs.iter_mut().enumerate() {
                        s.id = base;
                        s.id[(at + i / 8) % 16] ^= (1u8 << ((bit as usize + i) % 8)) * (i > 0) as u8;
                    }
                }
                for i in 0..segs.len() {
                    let mut bump = 0u8;
                    while segs[..i].iter().any(|s| s.id == segs[i].id) {
                        bump += 1;
                        segs[i].id[15] = segs[i].id[15].wrapping_add(bump);
                    }
                }
                Side {
                    segs,
                    order,
                    mode,
                    same_dir,
                }
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 6_000,
            Tier::Thorough => 60_000,
        }
    }
    fn run(&self, c: &Side) -> Outcome {
        let rows: Vec<Vec<Rows>> = c.segs.iter().map(all_rows).collect();
        let mut solo = BTreeMap::new();
        for (i, s) in c.segs.iter().enumerate() {
            for again in 0..2 {
                let dir = Scratch::new();
                let (_, index, data) = healthy(s, &rows[i], dir.path())?;
                let (_, meta) = index_file(&index)?;
                match solo.get(&i) {
                    None => {
                        solo.insert(i, (index.len(), meta, data));
                    }
                    Some((_, m, d)) => ensure!(
                        *d == data && *m == meta,
                        "writing history {} again ({}) gives another segment",
                        i,
                        again
                    ),
                }
            }
        }
        let dir = Scratch::new();
        let dirs: Vec<_> = (0..c.segs.len())
            .map(|i| {
                if c.same_dir {
                    dir.path().to_path_buf()
                } else {
                    let d = dir.path().join(format!("s{}", i));
                    std::fs::create_dir(&d).expect("scratch");
                    d
                }
            })
            .collect();
        let runs = together(c, &rows, &dirs);
        for (i, r) in runs.iter().enumerate() {
            if let Some((op, e)) = &r.error {
                fail!("history {}: {} failed when written side by side: {}", i, op, e);
            }
            let (index, data) = files(&c.segs[i], &dirs[i])?;
            let (len, m, d) = &solo[&i];
            ensure!(
                *d == data,
                "history {}: the data file differs from the one written alone ({} and {} bytes)",
                i,
                data.len(),
                d.len()
            );
            let (_, meta) = index_file(&index)?;
            ensure!(
                *m == meta && *len == index.len(),
                "history {}: the index file differs from the one written alone",
                i
            );
        }
        let mut s = Stats {
            nontrivial: runs
                .iter()
                .filter(|r| r.fates.iter().any(|f| matches!(f, Fate::Closed(_))))
                .count()
                > 1,
            ..Stats::default()
        };
        s.class(matches!(c.mode, Mode::Turns), "generated operation order");
        s.class(matches!(c.mode, Mode::Together), "polled together");
        s.class(matches!(c.mode, Mode::Threads), "one thread each");
        s.class(c.same_dir, "one directory");
        Ok(s)
    }
}
