//! C10: offset packing.

use meerkat::verif::encoding::OffsetEncoder;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::blocks::unpack;
use crate::engine::{panics, Failure, Outcome, Prop, Stats, Tier};
use crate::gen::Mix;
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

// ---------------------------------------------------------------- C10

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum LenRun {
    /// n lengths of at most `bits` bits
    Random { n: u32, bits: u8, seed: u64 },
    Const { n: u32, v: u32 },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct LenList {
    pub runs: Vec<LenRun>,
    pub before: Vec<u8>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct OffsetsCase {
    /// packed one after the other by the same encoder
    pub lists: Vec<LenList>,
}

pub struct Offsets;

impl Prop for Offsets {
    type Case = OffsetsCase;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "A case is one to three length lists packed by one encoder, each a sequence of runs (constant, or random of 0 to 32 \
         bits; 0 to ~4000 lengths, dense around multiples of 128; fixed cases up to 2^20 + 1) with bytes already in the destination. An independent \
         unpacker must return the list; width must be minimal, the size 16 * width * ceil(n / 128), earlier bytes intact. \
         Non-trivial: more than 128 lengths, or a count that is not a multiple of 128 with a non-zero length."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<OffsetsCase> {
        let big = if tier == Tier::Thorough { 20_000 } else { 4_000 };
        let n = prop_oneof![
            4 => 0u32..=10,
            3 => 0u32..=140,
            3 => (1u32..=6, -2i64..=2).prop_map(|(k, d)| (128 * k as i64 + d) as u32),
            1 => 0u32..=big,
        ];
        let run = prop_oneof![
            4 => (n.clone(), 0u8..=32, any::<u64>()).prop_map(|(n, bits, seed)| LenRun::Random { n, bits, seed }),
            2 => (n, prop_oneof![Just(0u32), Just(1), Just(u32::MAX), Just(1 << 31), any::<u32>(), 0u32..=300])
                .prop_map(|(n, v)| LenRun::Const { n, v }),
        ];
        vec(
            (vec(run, 0..=4), vec(any::<u8>(), 0..=40)).prop_map(|(runs, before)| LenList { runs, before }),
            1..=3,
        )
        .prop_map(|lists| OffsetsCase { lists })
        .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<OffsetsCase> {
        let mut out = vec![];
        for n in (0..=520).chain([1023, 1024, 1025]) {
            for v in [0u32, 1, 200, u32::MAX] {
                out.push(OffsetsCase {
                    lists: vec![LenList {
                        runs: vec![LenRun::Const { n, v }],
                        before: vec![7],
                    }],
                });
            }
            out.push(OffsetsCase {
                lists: vec![LenList {
                    runs: vec![LenRun::Random { n, bits: (n % 33) as u8, seed: n as u64 }],
                    before: vec![],
                }],
            });
        }
        // counts that pass 2^16 and 2^20, plain and with one length wider than the others at an end
        for n in [65_407u32, 65_408, 65_535, 65_536, 65_537, 131_072, 131_073, 1 << 20, (1 << 20) + 1] {
            for bits in [0u8, 1, 7, 17, 32] {
                for (first, last) in [(0u32, 0u32), (u32::MAX, 0), (0, u32::MAX)] {
                    out.push(OffsetsCase {
                        lists: vec![LenList {
                            runs: vec![
                                LenRun::Const { n: 1, v: first },
                                LenRun::Random { n: n - 2, bits, seed: n as u64 },
                                LenRun::Const { n: 1, v: last },
                            ],
                            before: vec![1, 2, 3],
                        }],
                    });
                }
            }
        }
        // a single large length at every position of the first three packs
        for at in 0..384u32 {
            for v in [1u32, 255, u32::MAX] {
                out.push(OffsetsCase {
                    lists: vec![LenList {
                        runs: vec![
                            LenRun::Const { n: at, v: 0 },
                            LenRun::Const { n: 1, v },
                            LenRun::Const { n: 383 - at, v: 0 },
                        ],
                        before: vec![],
                    }],
                });
            }
        }
        out
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 1_000_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn run(&self, c: &OffsetsCase) -> Outcome {
        let mut s = Stats::default();
        let mut enc = OffsetEncoder::new();
        for l in &c.lists {
            let mut lens: Vec<u32> = vec![];
            for r in &l.runs {
                match r {
                    LenRun::Const { n, v } => lens.resize(lens.len() + *n as usize, *v),
                    LenRun::Random { n, bits, seed } => {
                        let mut m = Mix(*seed);
                        for _ in 0..*n {
                            lens.push((m.next() as u32 as u64 & ((1u64 << bits) - 1)) as u32);
                        }
                    }
                }
            }
            let mut dst = l.before.clone();
            let mut src = lens.clone();
            if let Err(m) = panics(|| enc.encode(&mut src, &mut dst)) {
                fail!("packing {} lengths panicked: {}", lens.len(), m);
            }
            let p = l.before.len();
            ensure!(
                dst.len() > p && dst[..p] == l.before[..],
                "bytes already in the destination changed"
            );
            let max = lens.iter().copied().max().unwrap_or(0);
            let width = 32 - max.leading_zeros() as usize;
            ensure!(
                dst[p] as usize == width,
                "width {} for lengths up to {}",
                dst[p],
                max
            );
            let got = unpack(&dst[p + 1..], width, lens.len())?;
            if let Some(i) = (0..lens.len()).find(|i| got[*i] != lens[*i]) {
                fail!("length {} of {} is {} instead of {}", i, lens.len(), got[i], lens[i]);
            }
            s.nontrivial |= lens.len() > 128 || (lens.len() % 128 != 0 && max > 0);
            s.class(lens.is_empty(), "empty list");
            s.class(lens.len() > 128, "more than 128 lengths");
            s.class(lens.len() % 128 == 0 && !lens.is_empty(), "whole packs");
            s.class(width == 32, "32-bit lengths");
            s.class(width == 0 && !lens.is_empty(), "all lengths zero");
        }
        s.classes.sort();
        s.classes.dedup();
        Ok(s)
    }
}
