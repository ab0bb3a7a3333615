//! Row generators: compact, serialisable descriptions that expand to large row lists.

use meerkat::verif::buffer::{BinaryBuffer, Bitmap, PrimitiveBuffer};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// splitmix64, used only to expand a generated seed into many values.
#[derive(Clone)]
pub struct Mix(pub u64);

impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
}

/// Lengths of byte-string values.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Len {
    Fixed(u32),
    /// uniform in 0..=n
    Upto(u32),
    /// mostly empty, one in `every` has length `len`
    Spike { every: u32, len: u32 },
}

impl Len {
    fn pick(&self, m: &mut Mix, i: u32) -> u32 {
        match *self {
            Len::Fixed(n) => n,
            Len::Upto(n) => m.below(n as u64 + 1) as u32,
            Len::Spike { every, len } => {
                if i % every.max(1) == every.max(1) - 1 {
                    len
                } else {
                    0
                }
            }
        }
    }
}

/// A run of rows.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Run {
    Nulls(u32),
    Vals { n: u32, len: Len, seed: u64 },
    Mix { n: u32, null_pct: u8, len: Len, seed: u64 },
    /// `n` rows whose validity repeats the bits of `byte`
    Pattern { n: u32, byte: u8, len: Len, seed: u64 },
}

/// Expanded rows. Value i is data[off[i]..off[i + 1]] and, for fixed-width columns, bits[i].
#[derive(Clone, Debug, Default)]
pub struct Rows {
    pub valid: Vec<bool>,
    pub off: Vec<usize>,
    pub data: Vec<u8>,
    pub bits: Vec<u64>,
    /// first row of each run
    pub run_start: Vec<usize>,
}

impl Rows {
    pub fn new() -> Self {
        Rows {
            off: vec![0],
            ..Rows::default()
        }
    }
    pub fn len(&self) -> usize {
        self.valid.len()
    }
    pub fn values(&self) -> usize {
        self.bits.len()
    }
    pub fn item(&self, i: usize) -> &[u8] {
        &self.data[self.off[i]..self.off[i + 1]]
    }
    pub fn nulls(&self) -> usize {
        self.len() - self.values()
    }

    fn push(&mut self, v: Option<(u64, u32)>, m: &mut Mix) {
        match v {
            None => self.valid.push(false),
            Some((bits, len)) => {
                self.valid.push(true);
                self.bits.push(bits);
                let mut left = len as usize;
                // the first bytes name the value, the rest are filler
                let mut word = bits.to_le_bytes();
                loop {
                    let k = left.min(8);
                    self.data.extend_from_slice(&word[..k]);
                    left -= k;
                    if left == 0 {
                        break;
                    }
                    word = m.next().to_le_bytes();
                }
                self.off.push(self.data.len());
            }
        }
    }
}

fn value_bits(m: &mut Mix) -> u64 {
    let z = m.next();
    match z >> 59 {
        0 => [
            0,
            u64::MAX,
            1,
            i64::MIN as u64,
            i64::MAX as u64,
            f64::NAN.to_bits(),
            f64::NEG_INFINITY.to_bits(),
            0xfff0_0000_0000_0001,
            0x8000_0000,
            0x7fff_ffff_8000_0000,
        ][(z % 10) as usize],
        1 => z & 0xff,
        _ => z,
    }
}

#[derive(Clone, Copy)]
pub struct Limits {
    pub rows: usize,
    pub bytes: usize,
}

pub const LIMITS: Limits = Limits {
    rows: 400_000,
    bytes: 12 << 20,
};

/// Expands runs; nulls are left out when the column is not nullable.
pub fn expand(runs: &[Run], nullable: bool, limits: Limits) -> Rows {
    let mut r = Rows::new();
    for run in runs {
        r.run_start.push(r.len());
        let (n, seed, len) = match run {
            Run::Nulls(n) => (*n, 0, Len::Fixed(0)),
            Run::Vals { n, len, seed }
            | Run::Mix { n, len, seed, .. }
            | Run::Pattern { n, len, seed, .. } => (*n, *seed, len.clone()),
        };
        let mut m = Mix(seed);
        for i in 0..n {
            if r.len() >= limits.rows || r.data.len() >= limits.bytes {
                return r;
            }
            let null = match run {
                Run::Nulls(_) => true,
                Run::Vals { .. } => false,
                Run::Mix { null_pct, .. } => m.below(100) < *null_pct as u64,
                Run::Pattern { byte, .. } => byte >> (i % 8) & 1 == 0,
            };
            if null {
                if nullable {
                    r.push(None, &mut m);
                }
            } else {
                let bits = value_bits(&mut m);
                let len = len.pick(&mut m, i);
                r.push(Some((bits, len)), &mut m);
            }
        }
    }
    r
}

/// Where a write buffer ends.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Cut {
    /// at the start of a run
    Run(u8),
    /// after this many rows (modulo the row count)
    Row(u32),
}

/// Row positions where batches end; the last is rows.len().
pub fn batch_ends(cuts: &[Cut], rows: &Rows) -> Vec<usize> {
    let mut ends: Vec<usize> = cuts
        .iter()
        .map(|c| match c {
            Cut::Run(k) if !rows.run_start.is_empty() => {
                rows.run_start[*k as usize % rows.run_start.len()]
            }
            Cut::Run(_) => 0,
            Cut::Row(n) => *n as usize % (rows.len() + 1),
        })
        .collect();
    ends.sort_unstable();
    ends.push(rows.len());
    ends
}

/// 0, small, around a byte, around 128, hundreds, thousands.
pub fn count(big: u32) -> BoxedStrategy<u32> {
    prop_oneof![
        8 => 0u32..=9,
        6 => 0u32..=70,
        3 => 120u32..=136,
        4 => 0u32..=400,
        2 => 0u32..=big.max(1),
    ]
    .boxed()
}

pub fn len(big: u32) -> BoxedStrategy<Len> {
    prop_oneof![
        4 => (0u32..=5).prop_map(Len::Fixed),
        4 => (0u32..=20).prop_map(Len::Upto),
        2 => (0u32..=300).prop_map(Len::Upto),
        1 => (1u32..=40, 0u32..=3000).prop_map(|(every, len)| Len::Spike { every, len }),
        1 => (0u32..=big.max(1)).prop_map(Len::Upto),
        1 => (0u32..=big.max(1)).prop_map(Len::Fixed),
    ]
    .boxed()
}

pub fn run(big_n: u32, big_len: u32, nulls: bool) -> BoxedStrategy<Run> {
    let vals = (count(big_n), len(big_len), any::<u64>())
        .prop_map(|(n, len, seed)| Run::Vals { n, len, seed });
    if !nulls {
        return vals.boxed();
    }
    prop_oneof![
        3 => count(big_n).prop_map(Run::Nulls),
        5 => vals,
        4 => (count(big_n), prop_oneof![Just(50u8), 1u8..=99, Just(2u8), Just(98u8)], len(big_len), any::<u64>())
            .prop_map(|(n, null_pct, len, seed)| Run::Mix { n, null_pct, len, seed }),
        2 => (count(big_n), any::<u8>(), len(big_len), any::<u64>())
            .prop_map(|(n, byte, len, seed)| Run::Pattern { n, byte, len, seed }),
    ]
    .boxed()
}

pub fn cuts(max: usize) -> BoxedStrategy<Vec<Cut>> {
    vec(
        prop_oneof![
            2 => any::<u8>().prop_map(Cut::Run),
            2 => (0u32..=60).prop_map(Cut::Row),
            3 => any::<u32>().prop_map(Cut::Row),
        ],
        0..=max,
    )
    .boxed()
}

/// Fixed-width element types.
pub trait Prim: Copy + Clone + Send + Sync + PartialEq + std::fmt::Debug + 'static {
    const SIZE: usize;
    fn of(bits: u64) -> Self;
    fn le(self) -> Vec<u8>;
}

macro_rules! prim {
    ($t:ty, $n:expr, $of:expr) => {
        impl Prim for $t {
            const SIZE: usize = $n;
            fn of(bits: u64) -> Self {
                $of(bits)
            }
            fn le(self) -> Vec<u8> {
                self.to_le_bytes().to_vec()
            }
        }
    };
}
prim!(i32, 4, |b: u64| b as u32 as i32);
prim!(i64, 8, |b: u64| b as i64);
prim!(u64, 8, |b: u64| b);
prim!(f64, 8, f64::from_bits);

/// Fills `buf` with rows[start..end]; `vals` is the number of values before `start`.
pub fn fill_prim<T: Prim>(
    buf: &mut PrimitiveBuffer<T>,
    rows: &Rows,
    start: usize,
    end: usize,
    mut vals: usize,
) {
    for r in start..end {
        if rows.valid[r] {
            buf.append(T::of(rows.bits[vals]));
            vals += 1;
        } else {
            buf.append_null();
        }
    }
}

pub fn fill_bin(buf: &mut BinaryBuffer, rows: &Rows, start: usize, end: usize, mut vals: usize) {
    for r in start..end {
        if rows.valid[r] {
            buf.append(rows.item(vals));
            vals += 1;
        } else {
            buf.append_null();
        }
    }
}

pub fn bitmap(bits: &[bool]) -> Bitmap {
    let mut b = Bitmap::new();
    for x in bits {
        b.append(*x);
    }
    b
}

/// Values before each row position.
pub fn value_prefix(valid: &[bool]) -> Vec<usize> {
    let mut p = Vec::with_capacity(valid.len() + 1);
    let mut n = 0;
    p.push(0);
    for v in valid {
        n += *v as usize;
        p.push(n);
    }
    p
}

/// Runs of bits, for validity bitmaps.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum BitRun {
    Same { n: u32, set: bool },
    /// whole bytes repeated
    Bytes { n: u32, byte: u8 },
    Random { n: u32, pct: u8, seed: u64 },
    /// `n` bytes, each different from the one before
    Ramp { n: u32, seed: u64 },
}

pub fn expand_bits(runs: &[BitRun], max: usize) -> Vec<bool> {
    let mut out = vec![];
    for r in runs {
        let (n, unit) = match r {
            BitRun::Same { n, .. } | BitRun::Random { n, .. } => (*n as usize, 1),
            BitRun::Bytes { n, .. } | BitRun::Ramp { n, .. } => (*n as usize, 8),
        };
        let n = n.min(max.saturating_sub(out.len()) / unit);
        match r {
            BitRun::Same { set, .. } => out.extend(std::iter::repeat(*set).take(n)),
            BitRun::Bytes { byte, .. } => {
                for _ in 0..n {
                    for k in 0..8 {
                        out.push(byte >> k & 1 == 1);
                    }
                }
            }
            BitRun::Ramp { seed, .. } => {
                let mut m = Mix(*seed);
                let mut byte = m.below(256);
                for _ in 0..n {
                    byte = (byte + 1 + m.below(255)) % 256;
                    for k in 0..8 {
                        out.push(byte >> k & 1 == 1);
                    }
                }
            }
            BitRun::Random { pct, seed, .. } => {
                let mut m = Mix(*seed);
                for _ in 0..n {
                    out.push(m.below(100) < *pct as u64);
                }
            }
        }
    }
    out
}

pub fn bit_run(big: u32) -> BoxedStrategy<BitRun> {
    prop_oneof![
        4 => (count(big), any::<bool>()).prop_map(|(n, set)| BitRun::Same { n, set }),
        4 => (prop_oneof![6 => 0u32..=6, 2 => 0u32..=40, 1 => 0u32..=(big / 8).max(1)],
              prop_oneof![Just(0u8), Just(0xffu8), any::<u8>()])
            .prop_map(|(n, byte)| BitRun::Bytes { n, byte }),
        3 => (count(big), 0u8..=100, any::<u64>())
            .prop_map(|(n, pct, seed)| BitRun::Random { n, pct, seed }),
        2 => (prop_oneof![4 => 1u32..=40, 1 => 0u32..=(big / 8).max(1)], any::<u64>())
            .prop_map(|(n, seed)| BitRun::Ramp { n, seed }),
    ]
    .boxed()
}

pub fn bit_runs(max_runs: usize, big: u32) -> BoxedStrategy<Vec<BitRun>> {
    vec(bit_run(big), 0..=max_runs).boxed()
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    I32,
    I64,
    U64,
    F64,
    Bin,
}

impl Kind {
    pub fn width(self) -> Option<usize> {
        match self {
            Kind::I32 => Some(4),
            Kind::Bin => None,
            _ => Some(8),
        }
    }
}
