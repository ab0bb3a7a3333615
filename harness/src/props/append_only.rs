//! C27: files that only grow.

use std::future::Future;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::task::Poll;

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::sync::Notify;

use crate::engine::{Failure, Outcome, Prop, Stats, Tier};
use crate::faults::{Change, FilePlan, Guard};
use crate::props::durability::small_segment;
use crate::props::segments::all_rows;
use crate::scratch::{block_on, Scratch};
use crate::seg::{run_segment, wide_segments, End, Free, Gate, Segment};
use crate::wire::index_file;
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

const EXTS: [&str; 2] = ["idx", "dat"];

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Growing {
    pub seg: Segment,
    pub short: Option<u64>,
    pub eintr: Option<u64>,
    /// the writer is dropped before these operations
    pub deaths: Vec<u8>,
    /// the whole history is dropped after this many suspensions, in the middle of an operation
    #[serde(default)]
    pub cancels: Vec<u8>,
}

pub struct AppendOnly;

/// Lets a number of operations through; the next one never starts.
struct Death {
    left: AtomicUsize,
    hit: Notify,
}

#[async_trait::async_trait]
impl Gate for Death {
    async fn turn(&self) {
        let left = self.left.load(SeqCst);
        if left == 0 {
            self.hit.notify_one();
            std::future::pending::<()>().await;
        }
        self.left.store(left - 1, SeqCst);
    }
}

/// Every state the changes lead through is a prefix of `last`, and the last one is `last`.
fn prefixes(ext: &str, changes: &[Change], last: &[u8]) -> R<u64> {
    let mut len = 0usize;
    let mut opened = false;
    let holds = |from: usize, bytes: &[u8]| last.get(from..from + bytes.len()) == Some(bytes);
    for (i, c) in changes.iter().enumerate() {
        match c {
            Change::Opened(b) => {
                ensure!(
                    holds(0, b),
                    "the .{} file is opened for writing with {} bytes that are not its final ones",
                    ext,
                    b.len()
                );
                ensure!(
                    !opened || b.len() >= len,
                    "the .{} file of {} bytes is opened again and has {} bytes",
                    ext,
                    len,
                    b.len()
                );
                opened = true;
                len = b.len();
            }
            Change::Wrote(at, b) => {
                let at = *at as usize;
                ensure!(
                    at <= len,
                    "write {} of the .{} file leaves a hole from {} to {}",
                    i,
                    ext,
                    len,
                    at
                );
                ensure!(
                    holds(at, b),
                    "write {} of the .{} file, {} bytes at {}, is not what the file holds there at the end ({} bytes)",
                    i,
                    ext,
                    b.len(),
                    at,
                    last.len()
                );
                len = len.max(at + b.len());
            }
            Change::Resized(n) => {
                let n = *n as usize;
                ensure!(n >= len, "the .{} file shrinks from {} to {} bytes", ext, len, n);
                ensure!(
                    n <= last.len() && last[len..n].iter().all(|b| *b == 0),
                    "the .{} file is extended from {} to {} bytes before they are written",
                    ext,
                    len,
                    n
                );
                len = n;
            }
        }
    }
    ensure!(
        !opened || len == last.len(),
        "the .{} file was written up to {} but has {} bytes",
        ext,
        len,
        last.len()
    );
    Ok(changes.len() as u64)
}

impl Prop for AppendOnly {
    type Case = Growing;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "A case is a segment history run to its close, with partial and interrupted writes, while every change of its files is \
         noted below the C library: the state after each one, which is what a process that dies there leaves, must be a \
         prefix of the final file. Then the writer is dropped before each of a few generated operations and within others: the data file must \
         be a prefix of the finished one, and the index file must not pass for a complete one. Non-trivial: a column with \
         blocks, or a drop between creation and close."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "files change through write, pwrite, writev, ftruncate and fallocate; what a crash of the operating system does \
             to bytes not yet synced is the file system's business and not considered",
        ]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Growing> {
        (
            small_segment(3),
            prop::option::weighted(0.4, any::<u64>()),
            prop::option::weighted(0.3, 1u64..=5),
            vec(any::<u8>(), 0..=3),
            vec(prop_oneof![3 => 0u8..=12, 1 => any::<u8>()], 0..=2),
        )
            .prop_map(|(seg, short, eintr, deaths, cancels)| Growing { seg, short, eintr, deaths, cancels })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Growing> {
        wide_segments()
            .into_iter()
            .map(|seg| Growing { seg, short: None, eintr: None, deaths: vec![0, 1, 2, 200, 255], cancels: vec![0, 3, 9, 40] })
            .collect()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 8_000,
            Tier::Thorough => 80_000,
        }
    }
    fn run(&self, c: &Growing) -> Outcome {
        let rows = all_rows(&c.seg);
        let mut s = Stats::default();
        let plan = FilePlan {
            short: c.short,
            eintr_every: c.eintr,
            journal: true,
            ..FilePlan::default()
        };
        // the whole history
        let dir = Scratch::new();
        c.seg.litter(dir.path());
        let g = Guard::new(dir.path(), EXTS.iter().map(|e| (*e, plan.clone())).collect());
        let run = block_on(run_segment(&c.seg, &rows, dir.path(), &Free, End::Sync, false));
        if let Some((op, e)) = &run.error {
            fail!("{} failed although nothing is wrong: {}", op, e);
        }
        let (i, d) = c.seg.paths(dir.path());
        for (ext, path) in EXTS.iter().zip([&i, &d]) {
            let last = std::fs::read(path).unwrap_or_default();
            let changes = g.file(ext).changes.lock().unwrap();
            s.points += prefixes(ext, &changes, &last)?;
            s.nontrivial |= *ext == "dat" && changes.len() > 2;
        }
        drop(g);
        let whole = std::fs::read(&d).unwrap_or_default();

        // dropped in the middle of an operation
        for k in &c.cancels {
            let dir = Scratch::new();
            c.seg.litter(dir.path());
            let done = block_on(async {
                let mut run = Box::pin(run_segment(&c.seg, &rows, dir.path(), &Free, End::Close, false));
                let mut left = *k;
                std::future::poll_fn(move |cx| match run.as_mut().poll(cx) {
                    Poll::Ready(r) => Poll::Ready(Some(r.error)),
                    Poll::Pending if left == 0 => Poll::Ready(None),
                    Poll::Pending => {
                        left -= 1;
                        Poll::Pending
                    }
                })
                .await
            });
            if let Some(Some((op, e))) = &done {
                fail!("{} failed although nothing is wrong: {}", op, e);
            }
            let (_, d) = c.seg.paths(dir.path());
            let data = std::fs::read(d).unwrap_or_default();
            // older files stay until they are opened
            let untouched = c.seg.stale.map_or(false, |(_, b)| data == vec![0xEE; b as usize]);
            ensure!(
                whole.starts_with(&data) || untouched,
                "dropped after {} suspensions: the data file has {} bytes that are not a prefix of the finished file's {}",
                k,
                data.len(),
                whole.len()
            );
            s.class(done.is_none(), "dropped within an operation");
            s.points += 1;
        }

        // dropped between operations
        let ops: usize = 2 + c.seg.cols.iter().map(|x| x.cuts.len() + 3).sum::<usize>();
        for k in &c.deaths {
            let dir = Scratch::new();
            c.seg.litter(dir.path());
            let gate = Death {
                left: AtomicUsize::new(1 + *k as usize * ops / 256),
                hit: Notify::new(),
            };
            let died = block_on(async {
                tokio::select! {
                    r = run_segment(&c.seg, &rows, dir.path(), &gate, End::Close, false) => Err(r),
                    _ = gate.hit.notified() => Ok(()),
                }
            });
            let (i, d) = c.seg.paths(dir.path());
            let data = std::fs::read(d).unwrap_or_default();
            let index = std::fs::read(i).unwrap_or_default();
            match died {
                Ok(()) => {
                    ensure!(
                        whole.starts_with(&data),
                        "dropped before operation {}: the data file has {} bytes that are not a prefix of the finished file's {}",
                        1 + *k as usize * ops / 256,
                        data.len(),
                        whole.len()
                    );
                    if let Ok((at, _)) = index_file(&index) {
                        fail!(
                            "a segment that was not closed leaves an index file that passes for a complete one: metadata at {} of {} bytes",
                            at,
                            index.len()
                        );
                    }
                    s.class(true, "dropped before its close");
                    s.nontrivial = true;
                }
                Err(r) => {
                    if let Some((op, e)) = &r.error {
                        fail!("{} failed although nothing is wrong: {}", op, e);
                    }
                    ensure!(data == whole, "the same history gave another data file");
                }
            }
            s.points += 1;
        }
        s.class(whole.len() > 1 << 20, "data above 1 MiB");
        s.class(c.short.is_some(), "partial writes");
        s.class(c.seg.stale.is_some(), "over older files");
        Ok(s)
    }
}
