//! C05-C07: column buffers and bitmaps against plain vectors.

use meerkat::verif::buffer::{BinaryBuffer, Bitmap, BoolBuffer, PrimitiveBuffer};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::{panics, Failure, Outcome, Prop, Stats, Tier};
use crate::gen::{
    bit_run, bit_runs, expand, expand_bits, fill_bin, fill_prim, run, BitRun, Kind, Len, Limits,
    Prim, Rows, Run,
};
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

fn same_bits(b: &Bitmap, want: &[bool], what: &str) -> R<()> {
    ensure!(
        b.len() == want.len(),
        "{}: length {} instead of {}",
        what,
        b.len(),
        want.len()
    );
    for (i, w) in want.iter().enumerate() {
        ensure!(
            b.is_set(i) == *w,
            "{}: bit {} of {} is {}",
            what,
            i,
            want.len(),
            !w
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    Rows(Run),
    Clear,
    /// on a non-nullable buffer: must be refused
    Null,
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum BufKind {
    Prim(Kind),
    Bool,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Life {
    pub kind: BufKind,
    pub nullable: bool,
    pub ops: Vec<Op>,
}

/// Rows appended since the last clear.
#[derive(Default)]
struct Model {
    valid: Vec<bool>,
    bits: Vec<u64>,
    items: Vec<Vec<u8>>,
}

enum Buf {
    I32(PrimitiveBuffer<i32>),
    I64(PrimitiveBuffer<i64>),
    U64(PrimitiveBuffer<u64>),
    F64(PrimitiveBuffer<f64>),
    Bin(BinaryBuffer),
    Bool(BoolBuffer),
}

macro_rules! each {
    ($b:expr, $x:ident => $body:expr) => {
        match $b {
            Buf::I32($x) => $body,
            Buf::I64($x) => $body,
            Buf::U64($x) => $body,
            Buf::F64($x) => $body,
            Buf::Bin($x) => $body,
            Buf::Bool($x) => $body,
        }
    };
}

impl Buf {
    fn new(kind: BufKind, nullable: bool) -> Buf {
        match kind {
            BufKind::Prim(Kind::I32) => Buf::I32(PrimitiveBuffer::new(nullable)),
            BufKind::Prim(Kind::I64) => Buf::I64(PrimitiveBuffer::new(nullable)),
            BufKind::Prim(Kind::U64) => Buf::U64(PrimitiveBuffer::new(nullable)),
            BufKind::Prim(Kind::F64) => Buf::F64(PrimitiveBuffer::new(nullable)),
            BufKind::Prim(Kind::Bin) => Buf::Bin(BinaryBuffer::new(nullable)),
            BufKind::Bool => Buf::Bool(BoolBuffer::new(nullable)),
        }
    }
    fn append(&mut self, bits: u64, item: &[u8]) {
        match self {
            Buf::I32(b) => b.append(i32::of(bits)),
            Buf::I64(b) => b.append(i64::of(bits)),
            Buf::U64(b) => b.append(bits),
            Buf::F64(b) => b.append(f64::of(bits)),
            Buf::Bin(b) => b.append(item),
            Buf::Bool(b) => b.append(bits >> 5 & 1 == 1),
        }
    }
    fn append_null(&mut self) {
        each!(self, b => b.append_null())
    }
    fn clear(&mut self) {
        each!(self, b => b.clear())
    }
    fn counts(&self, m: &Model, nullable: bool) -> R<()> {
        let (rows, values) = (m.valid.len(), m.bits.len());
        let (len, num, want_len) = match self {
            Buf::Bool(b) => (b.len(), b.len(), rows),
            Buf::I32(b) => (b.len(), b.num_values(), values),
            Buf::I64(b) => (b.len(), b.num_values(), values),
            Buf::U64(b) => (b.len(), b.num_values(), values),
            Buf::F64(b) => (b.len(), b.num_values(), values),
            Buf::Bin(b) => (b.len(), b.num_values(), values),
        };
        ensure!(len == want_len, "len() is {} instead of {}", len, want_len);
        ensure!(num == rows, "the row count is {} instead of {}", num, rows);
        let nulls = each!(self, b => b.has_nulls());
        ensure!(
            nulls == (rows != values),
            "has_nulls() is {} with {} rows and {} values",
            nulls,
            rows,
            values
        );
        ensure!(
            each!(self, b => b.is_nullable()) == nullable,
            "nullability changed"
        );
        Ok(())
    }
    fn contents(&self, m: &Model, nullable: bool) -> R<()> {
        fn prim<T: Prim>(b: &PrimitiveBuffer<T>, m: &Model) -> R<()> {
            ensure!(
                b.values().len() == m.bits.len(),
                "{} values instead of {}",
                b.values().len(),
                m.bits.len()
            );
            for (i, v) in b.values().iter().enumerate() {
                ensure!(
                    v.le() == T::of(m.bits[i]).le(),
                    "value {} is {:?} instead of {:?}",
                    i,
                    v,
                    T::of(m.bits[i])
                );
            }
            Ok(())
        }
        match self {
            Buf::I32(b) => prim(b, m)?,
            Buf::I64(b) => prim(b, m)?,
            Buf::U64(b) => prim(b, m)?,
            Buf::F64(b) => prim(b, m)?,
            Buf::Bool(b) => {
                let want: Vec<bool> = m.bits.iter().map(|x| x >> 5 & 1 == 1).collect();
                same_bits(b.values(), &want, "values")?;
            }
            Buf::Bin(b) => {
                let mut pos = 0usize;
                ensure!(
                    b.offsets().len() == m.items.len() + 1 && b.offsets()[0] == 0,
                    "{} offsets for {} items",
                    b.offsets().len(),
                    m.items.len()
                );
                for (i, item) in m.items.iter().enumerate() {
                    ensure!(
                        b.item_len(i) as usize == item.len(),
                        "item {} has length {} instead of {}",
                        i,
                        b.item_len(i),
                        item.len()
                    );
                    let end = pos + item.len();
                    ensure!(
                        b.offsets()[i + 1] as usize == end && b.data().get(pos..end) == Some(item),
                        "item {} is not the one appended",
                        i
                    );
                    pos = end;
                }
                ensure!(
                    b.data().len() == pos,
                    "{} data bytes instead of {}",
                    b.data().len(),
                    pos
                );
            }
        }
        let validity = match self {
            Buf::I32(b) => b.validity(),
            Buf::I64(b) => b.validity(),
            Buf::U64(b) => b.validity(),
            Buf::F64(b) => b.validity(),
            Buf::Bin(b) => b.validity(),
            Buf::Bool(b) if nullable => Some(b.validity()),
            Buf::Bool(_) => None,
        };
        match validity {
            Some(v) => {
                ensure!(nullable, "a non-nullable buffer has a validity bitmap");
                same_bits(v, &m.valid, "validity")
            }
            None => {
                ensure!(!nullable, "a nullable buffer has no validity bitmap");
                Ok(())
            }
        }
    }
}

pub struct Buffers;

impl Prop for Buffers {
    type Case = Life;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "A case is a buffer type (i32, i64, u64, f64, binary, bool), its nullability and a sequence of operations: runs of \
         values and nulls (0 to ~20000 rows each, fixed cases up to 1.1 million), clear, and a null append that a non-nullable buffer must refuse. A vector \
         model is compared (counts after every operation; contents before every clear and at the end). Non-trivial: rows \
         were appended after a clear that discarded rows, or a null was refused."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Life> {
        let big = if tier == Tier::Thorough { 40_000 } else { 15_000 };
        (
            prop_oneof![
                1 => Just(BufKind::Prim(Kind::I32)),
                1 => Just(BufKind::Prim(Kind::I64)),
                1 => Just(BufKind::Prim(Kind::U64)),
                1 => Just(BufKind::Prim(Kind::F64)),
                2 => Just(BufKind::Prim(Kind::Bin)),
                2 => Just(BufKind::Bool),
            ],
            any::<bool>(),
            vec(
                prop_oneof![
                    8 => run(big, 400, true).prop_map(Op::Rows),
                    3 => Just(Op::Clear),
                    2 => Just(Op::Null),
                ],
                0..=10,
            ),
        )
            .prop_map(|(kind, nullable, ops)| Life {
                kind,
                nullable,
                ops,
            })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Life> {
        let mut out = vec![];
        let kinds = [Kind::I32, Kind::I64, Kind::U64, Kind::F64, Kind::Bin].map(BufKind::Prim);
        for kind in kinds.into_iter().chain([BufKind::Bool]) {
            for nullable in [false, true] {
                for n in [65_535u32, 65_536, 65_537, 131_073, 1_100_000] {
                    let len = Len::Upto(3);
                    let vals = Op::Rows(Run::Vals { n, len: len.clone(), seed: n as u64 });
                    let mix = Op::Rows(Run::Mix { n, null_pct: 40, len: len.clone(), seed: 7 });
                    let few = Op::Rows(Run::Pattern { n: 200, byte: 0xa6, len, seed: 9 });
                    out.push(Life { kind, nullable, ops: vec![vals, Op::Clear, few.clone()] });
                    if nullable {
                        out.push(Life {
                            kind,
                            nullable,
                            ops: vec![Op::Rows(Run::Nulls(n)), few.clone(), Op::Clear, mix, Op::Clear, few],
                        });
                    }
                }
                // single values longer than any small counter
                if kind == BufKind::Prim(Kind::Bin) {
                    for l in [65_535u32, 65_536, 70_000, (1 << 24) + 1] {
                        let mut ops = vec![];
                        for (n, l) in [(2, 3), (1, l), (2, 0), (1, l)] {
                            ops.push(Op::Rows(Run::Vals { n, len: Len::Fixed(l), seed: l as u64 }));
                        }
                        out.push(Life { kind, nullable, ops });
                    }
                }
            }
        }
        out
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 500_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn run(&self, c: &Life) -> Outcome {
        let mut s = Stats::default();
        let mut b = Buf::new(c.kind, c.nullable);
        let mut m = Model::default();
        let (mut cleared, mut after_clear, mut refused) = (false, false, false);
        b.counts(&m, c.nullable)?;
        for op in &c.ops {
            match op {
                Op::Rows(r) => {
                    let rows = expand(std::slice::from_ref(r), c.nullable, LIM);
                    let mut v = 0;
                    for valid in &rows.valid {
                        if *valid {
                            b.append(rows.bits[v], rows.item(v));
                            m.bits.push(rows.bits[v]);
                            m.items.push(rows.item(v).to_vec());
                            v += 1;
                        } else {
                            b.append_null();
                        }
                        m.valid.push(*valid);
                    }
                    after_clear |= cleared && rows.len() > 0;
                }
                Op::Clear => {
                    b.contents(&m, c.nullable)?;
                    cleared |= !m.valid.is_empty();
                    b.clear();
                    m = Model::default();
                    b.contents(&m, c.nullable)?;
                }
                Op::Null if c.nullable => {
                    b.append_null();
                    m.valid.push(false);
                }
                Op::Null => {
                    ensure!(
                        panics(|| b.append_null()).is_err(),
                        "a null was accepted by a non-nullable buffer"
                    );
                    b.contents(&m, c.nullable)?;
                    refused = true;
                }
            }
            b.counts(&m, c.nullable)?;
        }
        b.contents(&m, c.nullable)?;
        s.nontrivial = after_clear || refused;
        s.class(after_clear, "rows after a clear");
        s.class(refused, "null refused");
        s.class(m.valid.len() > 8192, "more than 8192 rows at the end");
        s.class(m.valid.len() != m.bits.len(), "nulls at the end");
        s.class(c.kind == BufKind::Bool, "bool");
        s.class(c.kind == BufKind::Prim(Kind::Bin), "binary");
        Ok(s)
    }
}

const LIM: Limits = Limits {
    rows: 2_500_000,
    bytes: 40 << 20,
};

// ---------------------------------------------------------------- C06

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Copy1 {
    pub runs: Vec<Run>,
    /// value positions where pieces end (modulo the number of values)
    pub ends: Vec<u32>,
    pub clear_before: bool,
    /// rows appended directly to the destination before the copy
    pub between: Vec<Run>,
    /// the source is built in a buffer that was used and cleared
    pub dirty: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Copies {
    pub kind: Kind,
    pub nullable: bool,
    pub steps: Vec<Copy1>,
}

trait AnyBuf {
    fn make(nullable: bool) -> Self;
    fn fill(&mut self, rows: &Rows);
    fn wipe(&mut self);
    fn copy(&mut self, src: &Self, start: usize, end: usize, pos: usize) -> usize;
    fn wrap(self) -> Buf;
    fn count(&self) -> usize;
}

impl<T: Prim> AnyBuf for PrimitiveBuffer<T>
where
    Buf: From<PrimitiveBuffer<T>>,
{
    fn make(nullable: bool) -> Self {
        PrimitiveBuffer::new(nullable)
    }
    fn fill(&mut self, rows: &Rows) {
        fill_prim(self, rows, 0, rows.len(), 0)
    }
    fn wipe(&mut self) {
        self.clear()
    }
    fn copy(&mut self, src: &Self, start: usize, end: usize, pos: usize) -> usize {
        self.append_from(src, start, end, pos)
    }
    fn wrap(self) -> Buf {
        Buf::from(self)
    }
    fn count(&self) -> usize {
        self.num_values()
    }
}

impl AnyBuf for BinaryBuffer {
    fn make(nullable: bool) -> Self {
        BinaryBuffer::new(nullable)
    }
    fn fill(&mut self, rows: &Rows) {
        fill_bin(self, rows, 0, rows.len(), 0)
    }
    fn wipe(&mut self) {
        self.clear()
    }
    fn copy(&mut self, src: &Self, start: usize, end: usize, pos: usize) -> usize {
        self.append_from(src, start, end, pos)
    }
    fn wrap(self) -> Buf {
        Buf::Bin(self)
    }
    fn count(&self) -> usize {
        self.num_values()
    }
}

macro_rules! from_buf {
    ($t:ty, $v:ident) => {
        impl From<PrimitiveBuffer<$t>> for Buf {
            fn from(b: PrimitiveBuffer<$t>) -> Buf {
                Buf::$v(b)
            }
        }
    };
}
from_buf!(i32, I32);
from_buf!(i64, I64);
from_buf!(u64, U64);
from_buf!(f64, F64);

impl Model {
    fn push_rows(&mut self, rows: &Rows) {
        self.valid.extend_from_slice(&rows.valid);
        self.bits.extend_from_slice(&rows.bits);
        for i in 0..rows.values() {
            self.items.push(rows.item(i).to_vec());
        }
    }
}

fn copies<B: AnyBuf>(c: &Copies) -> Outcome {
    let mut s = Stats::default();
    let mut dst = B::make(c.nullable);
    let mut m = Model::default();
    let mut pieces = 0;
    for step in &c.steps {
        if step.clear_before {
            dst.wipe();
            m = Model::default();
        }
        let between = expand(&step.between, c.nullable, LIM);
        dst.fill(&between);
        m.push_rows(&between);

        let rows = expand(&step.runs, c.nullable, LIM);
        let mut src = B::make(c.nullable);
        if step.dirty {
            src.fill(&rows);
            src.wipe();
        }
        src.fill(&rows);
        let row_of: Vec<usize> = (0..rows.len()).filter(|r| rows.valid[*r]).collect();
        let n = row_of.len();
        let mut ends: Vec<usize> = step.ends.iter().map(|e| *e as usize % (n + 1)).collect();
        ends.sort_unstable();
        ends.push(n);
        let before = dst.count();
        let (mut start, mut pos) = (0, 0);
        for end in ends {
            let next = dst.copy(&src, start, end, pos);
            if c.nullable {
                let want = if end == n {
                    rows.len()
                } else if end == start {
                    pos
                } else {
                    row_of[end - 1] + 1
                };
                ensure!(
                    next == want,
                    "copying values {}..{} of {} returned position {} instead of {}",
                    start,
                    end,
                    n,
                    next,
                    want
                );
                ensure!(
                    dst.count() == before + want,
                    "after copying values {}..{} of {} the destination has {} rows instead of {}",
                    start,
                    end,
                    n,
                    dst.count(),
                    before + want
                );
            }
            start = end;
            pos = next;
            pieces += 1;
        }
        m.push_rows(&rows);
        let mut sm = Model::default();
        sm.push_rows(&rows);
        let src = src.wrap();
        src.contents(&sm, c.nullable)
            .map_err(|f| Failure::from(format!("source changed: {}", f.msg)))?;
        s.class(rows.valid.last() == Some(&false), "source ends with nulls");
        s.class(rows.valid.first() == Some(&false), "source starts with nulls");
        s.class(n == 0 && rows.len() > 0, "source holds only nulls");
        s.class(step.dirty, "source buffer reused");
        s.class(before > 0, "destination had rows");
        s.nontrivial |= rows.len() > 0 && before > 0;
    }
    let dst = dst.wrap();
    dst.counts(&m, c.nullable)?;
    dst.contents(&m, c.nullable)?;
    s.nontrivial |= pieces > c.steps.len() && !m.bits.is_empty();
    s.class(pieces > c.steps.len(), "several pieces");
    s.class(c.kind == Kind::Bin, "binary");
    s.classes.sort();
    s.classes.dedup();
    Ok(s)
}

pub struct Copying;

impl Prop for Copying {
    type Case = Copies;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "A case is an element type, nullability and up to four copies into one destination, each of a generated source cut \
         into consecutive pieces at generated value positions, with rows appended or the destination cleared in between. \
         Returned positions, destination row counts after every piece, the final contents and the source are compared with \
         a vector model. Non-trivial: several pieces, or a destination that already had rows."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "source and destination have the same nullability",
            "the position returned for non-nullable buffers carries no meaning and is passed on unchecked",
        ]
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Copies> {
        let big = if tier == Tier::Thorough { 20_000 } else { 6_000 };
        (
            prop_oneof![
                1 => Just(Kind::I32),
                1 => Just(Kind::I64),
                1 => Just(Kind::U64),
                1 => Just(Kind::F64),
                3 => Just(Kind::Bin),
            ],
            prop_oneof![3 => Just(true), 1 => Just(false)],
            vec(
                (
                    vec(run(big, 300, true), 0..=5),
                    vec(prop_oneof![0u32..=12, any::<u32>()], 0..=6),
                    prop::bool::weighted(0.2),
                    vec(run(300, 40, true), 0..=2),
                    prop::bool::weighted(0.3),
                )
                    .prop_map(|(runs, ends, clear_before, between, dirty)| Copy1 {
                        runs,
                        ends,
                        clear_before,
                        between,
                        dirty,
                    }),
                1..=4,
            ),
        )
            .prop_map(|(kind, nullable, steps)| Copies {
                kind,
                nullable,
                steps,
            })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Copies> {
        let mut out = vec![];
        for kind in [Kind::I32, Kind::I64, Kind::U64, Kind::F64, Kind::Bin] {
            for nullable in [false, true] {
                for n in [65_535u32, 65_536, 65_537, 140_000, 1_100_000] {
                    let len = Len::Upto(2);
                    let step = |runs, ends| Copy1 {
                        runs,
                        ends,
                        clear_before: false,
                        between: vec![Run::Vals { n: 3, len: Len::Fixed(1), seed: 5 }],
                        dirty: n % 2 == 1,
                    };
                    let vals = Run::Vals { n, len: len.clone(), seed: n as u64 };
                    let mix = Run::Mix { n, null_pct: 30, len: len.clone(), seed: 8 };
                    let mut steps = vec![
                        step(vec![vals], vec![1, n - 1, n / 2]),
                        step(vec![mix, Run::Nulls(3)], vec![n / 3, n / 2 + 1]),
                    ];
                    if nullable {
                        steps.push(step(vec![Run::Nulls(n), Run::Vals { n: 2, len, seed: 3 }, Run::Nulls(n)], vec![1]));
                    }
                    out.push(Copies { kind, nullable, steps });
                }
            }
        }
        // values longer than any small counter
        for nullable in [false, true] {
            for l in [65_535u32, 65_536, 70_000, (1 << 24) + 1] {
                out.push(Copies {
                    kind: Kind::Bin,
                    nullable,
                    steps: vec![Copy1 {
                        runs: vec![
                            Run::Vals { n: 2, len: Len::Fixed(3), seed: 1 },
                            Run::Vals { n: 2, len: Len::Fixed(l), seed: 2 },
                            Run::Vals { n: 2, len: Len::Fixed(0), seed: 3 },
                        ],
                        ends: vec![3, 5],
                        clear_before: false,
                        between: vec![Run::Vals { n: 1, len: Len::Fixed(l), seed: 5 }],
                        dirty: true,
                    }],
                });
            }
        }
        out
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 200_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn run(&self, c: &Copies) -> Outcome {
        match c.kind {
            Kind::I32 => copies::<PrimitiveBuffer<i32>>(c),
            Kind::I64 => copies::<PrimitiveBuffer<i64>>(c),
            Kind::U64 => copies::<PrimitiveBuffer<u64>>(c),
            Kind::F64 => copies::<PrimitiveBuffer<f64>>(c),
            Kind::Bin => copies::<BinaryBuffer>(c),
        }
    }
}

// ---------------------------------------------------------------- C07

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum BitOp {
    Bits(BitRun),
    Clear,
    /// append_from a fresh source: from `start` (modulo its length + 1), `n` set bits (modulo
    /// those available + 1)
    Copy {
        src: Vec<BitRun>,
        dirty: bool,
        start: u32,
        n: u32,
    },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct BitLife {
    /// None: new(); otherwise with_capacity
    pub cap: Option<u32>,
    pub ops: Vec<BitOp>,
    pub past: u32,
    /// instead of the operations: this many bits, every third of them set, and copies around 2^32
    #[serde(default)]
    pub far: u64,
}

/// A bitmap of more than 2^32 bits.
fn far_bits(cap: Option<u32>, n: u64) -> Result<(), Failure> {
    let mut b = match cap {
        None => Bitmap::new(),
        Some(n) => Bitmap::with_capacity(n as usize),
    };
    for _ in 0..n / 3 {
        b.append(true);
        b.append(false);
        b.append(false);
    }
    for i in 0..n % 3 {
        b.append(i == 0);
    }
    ensure!(b.len() as u64 == n, "{} bits were appended, the length is {}", n, b.len());
    let border = 1u64 << 32;
    let places = (0..200).chain((0..32).map(|k| (1u64 << k) - 1)).chain(border - 1000..border + 1000).chain(n - 200..n);
    for i in places.filter(|i| *i < n) {
        ensure!(b.is_set(i as usize) == (i % 3 == 0), "bit {} of {} has changed", i, n);
    }
    ensure!(panics(|| b.is_set(n as usize)).is_err(), "the bit past the end of {} reads", n);
    // from below 2^32 to above
    for start in [border - 1000, border - 1, border, border + 5] {
        let mut d = Bitmap::new();
        let k = 400.min((n - start) / 3 - 2);
        let got = d.append_from(&b, start as usize, k as usize) as u64;
        let mut end = start;
        let mut left = k;
        while left > 0 {
            left -= (end % 3 == 0) as u64;
            end += 1;
        }
        ensure!(got == end, "copying {} set bits from {} returned {} instead of {}", k, start, got, end);
        let same = d.len() as u64 == end - start && (start..end).all(|i| d.is_set((i - start) as usize) == (i % 3 == 0));
        ensure!(same, "copying {} set bits from {} copied other bits", k, start);
    }
    b.clear();
    b.append(false);
    b.append(true);
    ensure!(b.len() == 2 && !b.is_set(0) && b.is_set(1), "{} bits show through a clear", n);
    Ok(())
}

pub struct Bitmaps;

const BITS: usize = 5 << 20;

impl Prop for Bitmaps {
    type Case = BitLife;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "A case is an initial capacity (default, 0 to 40, or up to 5000 bits) and a sequence of appended bit runs (up to \
         ~160000 bits each, fixed cases up to 2^21, one of more than 2^32), clears and copies of the next n set bits of another bitmap from a position. After every operation \
         every bit is compared with a Vec<bool>; reads at and past the end, and copies of one more set bit than exists, must \
         panic. Non-trivial: a copy, or bits after a clear, or growth past the initial capacity."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<BitLife> {
        let big = if tier == Tier::Thorough { 60_000 } else { 20_000 };
        (
            prop_oneof![
                2 => Just(None),
                3 => (0u32..=40).prop_map(Some),
                1 => (0u32..=5000).prop_map(Some),
            ],
            vec(
                prop_oneof![
                    6 => bit_run(big).prop_map(BitOp::Bits),
                    2 => Just(BitOp::Clear),
                    4 => (bit_runs(4, 2000), prop::bool::weighted(0.3),
                          prop_oneof![0u32..=40, any::<u32>()], prop_oneof![0u32..=40, any::<u32>()])
                        .prop_map(|(src, dirty, start, n)| BitOp::Copy { src, dirty, start, n }),
                ],
                0..=8,
            ),
            prop_oneof![Just(0u32), 0u32..=20, 0u32..=10_000],
        )
            .prop_map(|(cap, ops, past)| BitLife { cap, ops, past, far: 0 })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<BitLife> {
        let mut out = vec![BitLife { cap: None, ops: vec![], past: 0, far: (1 << 32) + 70_000 }];
        for cap in [None, Some(0), Some(8), Some(65_536), Some(1 << 21)] {
            for n in [65_535u32, 65_536, 65_537, 131_073, (1 << 19) + 1, (1 << 21) + 3] {
                let all = BitRun::Same { n, set: true };
                let none = BitRun::Same { n, set: false };
                let mix = BitRun::Random { n, pct: 50, seed: n as u64 };
                let copy = |src: BitRun, start, k| BitOp::Copy {
                    src: vec![BitRun::Same { n: 5, set: false }, src],
                    dirty: k % 2 == 1,
                    start,
                    n: k,
                };
                out.push(BitLife {
                    cap,
                    ops: vec![BitOp::Bits(mix.clone()), BitOp::Clear, BitOp::Bits(none), BitOp::Bits(all.clone())],
                    past: 1,
                    far: 0,
                });
                out.push(BitLife {
                    cap,
                    ops: vec![copy(all.clone(), 3, n - 1), BitOp::Clear, copy(mix, n / 2, n / 5), copy(all, n - 3, 2)],
                    past: 0,
                    far: 0,
                });
            }
        }
        out
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2_000_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn run(&self, c: &BitLife) -> Outcome {
        let mut s = Stats::default();
        if c.far > 0 {
            far_bits(c.cap, c.far.max((1 << 32) + 9000))?;
            s.nontrivial = true;
            s.class(true, "more than 2^32 bits");
            return Ok(s);
        }
        let mut b = match c.cap {
            None => Bitmap::new(),
            Some(n) => Bitmap::with_capacity(n as usize),
        };
        let mut m: Vec<bool> = vec![];
        same_bits(&b, &m, "new bitmap")?;
        let (mut cleared, mut after_clear, mut copied) = (false, false, false);
        for op in &c.ops {
            match op {
                BitOp::Bits(r) => {
                    let bits = expand_bits(std::slice::from_ref(r), BITS - m.len().min(BITS));
                    for x in &bits {
                        b.append(*x);
                    }
                    after_clear |= cleared && !bits.is_empty();
                    m.extend(bits);
                }
                BitOp::Clear => {
                    cleared |= m.contains(&true);
                    b.clear();
                    m.clear();
                }
                BitOp::Copy {
                    src,
                    dirty,
                    start,
                    n,
                } => {
                    let bits = expand_bits(src, BITS);
                    let mut sb = Bitmap::new();
                    if *dirty {
                        for x in &bits {
                            sb.append(!*x);
                        }
                        sb.clear();
                    }
                    for x in &bits {
                        sb.append(*x);
                    }
                    let start = *start as usize % (bits.len() + 1);
                    let set: Vec<usize> = (start..bits.len()).filter(|i| bits[*i]).collect();
                    let n = *n as usize % (set.len() + 1);
                    let end = if n == 0 { start } else { set[n - 1] + 1 };
                    let got = b.append_from(&sb, start, n);
                    ensure!(
                        got == end,
                        "copying {} set bits from {} returned {} instead of {}",
                        n,
                        start,
                        got,
                        end
                    );
                    m.extend_from_slice(&bits[start..end]);
                    same_bits(&sb, &bits, "source of a copy")?;
                    copied |= n > 0;
                    let mut scratch = Bitmap::new();
                    ensure!(
                        panics(|| scratch.append_from(&sb, start, set.len() + 1)).is_err(),
                        "copying {} set bits succeeded although only {} are left",
                        set.len() + 1,
                        set.len()
                    );
                }
            }
            same_bits(&b, &m, "bitmap")?;
        }
        let past = m.len() + c.past as usize;
        match panics(|| b.is_set(past)) {
            Err(_) => {}
            Ok(v) => fail!("bit {} of {} reads as {}", past, m.len(), v),
        }
        let grown = c.cap.map_or(8192, |n| n as usize) < m.len();
        s.nontrivial = after_clear || copied || grown;
        s.class(after_clear, "bits after a clear of set bits");
        s.class(copied, "copied from another bitmap");
        s.class(grown, "grew past its initial capacity");
        s.class(c.cap.map_or(false, |n| n < 8), "initial capacity below 8");
        s.class(m.len() > 8192, "more than 8192 bits");
        Ok(s)
    }
}
