//! C08: validity run-length encoding.

use meerkat::verif::encoding::{
    rle_decode,
    RleEncoder,
};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::blocks::{leb128, rle_frames, Frame};
use crate::engine::{panics, Failure, Outcome, Prop, Stats, Tier};
use crate::gen::{bit_run, bit_runs, bitmap, expand_bits, BitRun};
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

// ---------------------------------------------------------------- C08

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Piece {
    Put(BitRun),
    /// a bitmap range: from `start`, the next `n` set bits
    From { src: Vec<BitRun>, start: u32, n: u32 },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct RleCase {
    /// the encoder is cleared between rounds
    pub rounds: Vec<Vec<Piece>>,
    /// clear is called even before the first round
    pub clear_first: bool,
}

pub struct Rle;

fn check_round(bits: &[bool], enc: &[u8]) -> R<(bool, bool)> {
    let mut bytes = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() {
        bytes[i / 8] |= (*b as u8) << (i % 8);
    }
    let frames = rle_frames(enc)?;
    let mut out: Vec<u8> = vec![];
    let mut runs: Vec<(usize, usize)> = vec![];
    for f in &frames {
        match f {
            Frame::Run(n, b) => {
                ensure!(
                    *n as u128 + out.len() as u128 <= bytes.len() as u128,
                    "encoded bitmap is longer than {} bytes",
                    bytes.len()
                );
                runs.push((out.len(), out.len() + *n as usize));
                out.resize(out.len() + *n as usize, *b);
            }
            Frame::Literal(b) => out.extend_from_slice(b),
        }
    }
    ensure!(
        out == bytes,
        "{} bits decode to {} bytes {:02x?}.. instead of {} bytes {:02x?}..",
        bits.len(),
        out.len(),
        &out[..out.len().min(16)],
        bytes.len(),
        &bytes[..bytes.len().min(16)]
    );
    // reference segmentation: maximal runs of three or more, single literals between them
    let mut reference = 0usize;
    let mut i = 0;
    let mut lit = 0usize;
    let (mut has_run, mut has_lit) = (false, false);
    let literal = |n: usize| if n == 0 { 0 } else { leb128((n as u64) << 1 | 1).len() + n };
    while i < bytes.len() {
        let mut j = i;
        while j < bytes.len() && bytes[j] == bytes[i] {
            j += 1;
        }
        if j - i >= 3 {
            has_run = true;
            reference += literal(lit);
            lit = 0;
            reference += leb128(((j - i) as u64) << 1).len() + 1;
            ensure!(
                runs.contains(&(i, j)),
                "bytes {}..{} are equal but not stored as one run: {:?}",
                i,
                j,
                &frames[..frames.len().min(8)]
            );
        } else {
            has_lit = true;
            lit += j - i;
        }
        i = j;
    }
    reference += literal(lit);
    ensure!(
        enc.len() <= reference,
        "{} bytes of bitmap take {} bytes, {} are enough",
        bytes.len(),
        enc.len(),
        reference
    );
    // the system's own decoder
    let want: Vec<u32> = (0..bits.len())
        .filter(|i| bits[*i])
        .map(|i| i as u32)
        .collect();
    let mut got = vec![u32::MAX; want.len()];
    if let Err(m) = panics(|| rle_decode(enc, &mut got)) {
        fail!("decode panicked: {}", m);
    }
    ensure!(
        got == want,
        "decode returns other positions: first difference at {:?}",
        got.iter().zip(&want).position(|(a, b)| a != b)
    );
    Ok((has_run, has_lit))
}

impl Prop for Rle {
    type Case = RleCase;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "A case is one to four rounds on one encoder (cleared in between), each a sequence of bit runs, repeated bytes, \
         bytes all different from the one before (literals up to 1 MiB), random bits and bitmap ranges (up to ~300000 bits). An independent frame decoder must return the bytes, the \
         system's decoder the positions of the set bits, every maximal run of three or more equal bytes must be one run \
         frame, and the output must not exceed the reference segmentation. Non-trivial: a round with both a run and a \
         literal, or a second round."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<RleCase> {
        let big = if tier == Tier::Thorough { 150_000 } else { 70_000 };
        let piece = prop_oneof![
            6 => bit_run(big).prop_map(Piece::Put),
            2 => (bit_runs(4, 2000), prop_oneof![0u32..=40, any::<u32>()], any::<u32>())
                .prop_map(|(src, start, n)| Piece::From { src, start, n }),
        ];
        (vec(vec(piece, 0..=7), 1..=4), any::<bool>())
            .prop_map(|(rounds, clear_first)| RleCase {
                rounds,
                clear_first,
            })
            .boxed()
    }
    fn fixed(&self, tier: Tier) -> Vec<RleCase> {
        // run and literal lengths around the header's varint boundaries
        let mut out = vec![];
        let mut lens: Vec<u32> = (0..=140).collect();
        lens.extend([8190, 8191, 8192, 8193, 16383, 16384]);
        if tier == Tier::Thorough {
            lens.extend([1 << 20, (1 << 20) - 1, (1 << 20) + 1, 1 << 21]);
        } else {
            lens.extend([1 << 20, (1 << 20) - 1]);
        }
        for n in lens {
            for byte in [0u8, 0xff, 0x5a] {
                for tail in [0u32, 1, 7] {
                    if n > 100_000 && byte == 0x5a {
                        continue;
                    }
                    out.push(RleCase {
                        rounds: vec![vec![
                            Piece::Put(BitRun::Bytes { n, byte }),
                            Piece::Put(BitRun::Same { n: tail, set: true }),
                        ]],
                        clear_first: false,
                    });
                }
            }
            if n < 100_000 {
                out.push(RleCase {
                    rounds: vec![vec![Piece::Put(BitRun::Random {
                        n: n * 8,
                        pct: 50,
                        seed: n as u64,
                    })]],
                    clear_first: true,
                });
            }
        }
        // literals longer than any small counter, alone and after a run
        for n in [128u32, 16_383, 16_384, 32_767, 32_768, 65_535, 65_536, 65_600, 1 << 20] {
            for head in [0u32, 1, 5] {
                for tail in [0u32, 2, 30] {
                    out.push(RleCase {
                        rounds: vec![vec![
                            Piece::Put(BitRun::Bytes { n: head, byte: 0 }),
                            Piece::Put(BitRun::Ramp { n, seed: n as u64 }),
                            Piece::Put(BitRun::Same { n: tail, set: true }),
                        ]],
                        clear_first: false,
                    });
                }
            }
        }
        out
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 500_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn run(&self, c: &RleCase) -> Outcome {
        let mut s = Stats::default();
        let mut enc = RleEncoder::new();
        for (k, round) in c.rounds.iter().enumerate() {
            if k > 0 || c.clear_first {
                enc.clear();
            }
            let mut bits: Vec<bool> = vec![];
            for p in round {
                match p {
                    Piece::Put(r) => {
                        let limit = match r {
                            BitRun::Bytes { .. } | BitRun::Ramp { .. } => 20 << 20,
                            _ => 300_000,
                        };
                        for b in expand_bits(std::slice::from_ref(r), limit) {
                            enc.put(b);
                            bits.push(b);
                        }
                    }
                    Piece::From { src, start, n } => {
                        let from = expand_bits(src, 20_000);
                        let map = bitmap(&from);
                        let start = *start as usize % (from.len() + 1);
                        let set: Vec<usize> = (start..from.len()).filter(|i| from[*i]).collect();
                        let n = *n as usize % (set.len() + 1);
                        let end = if n == 0 { start } else { set[n - 1] + 1 };
                        let got = enc.put_from(&map, start, n);
                        ensure!(
                            got == end,
                            "putting {} set bits from {} returned {} instead of {}",
                            n,
                            start,
                            got,
                            end
                        );
                        bits.extend_from_slice(&from[start..end]);
                        s.class(n > 0, "bits from a bitmap range");
                    }
                }
            }
            enc.flush();
            let (run, lit) = check_round(&bits, enc.encoded_values())?;
            s.nontrivial |= (run && lit) || (k > 0 && !bits.is_empty());
            s.class(run && lit, "runs and literals");
            s.class(run && !lit, "runs only");
            s.class(bits.len() % 8 != 0, "partial last byte");
            s.class(k > 0, "encoder reused");
            s.class(bits.len() > 65536, "more than 65536 bits");
        }
        s.classes.sort();
        s.classes.dedup();
        Ok(s)
    }
}

