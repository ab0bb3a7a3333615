//! C09: varints.

use meerkat::verif::encoding::{
    decode_varint, encode_varint, encoded_len_varint, PutVarint, MAX_VARINT_LEN,
};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::{panics, Failure, Outcome, Prop, Stats, Tier};
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

// ---------------------------------------------------------------- C09

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum VarintCase {
    /// every value in start..start + n (wrapping at the end of u64)
    Sweep { start: u64, n: u64 },
    /// values appended to a vector that already holds `before`, followed by `after`
    Seq { before: Vec<u8>, vals: Vec<u64>, after: Vec<u8> },
    /// `head` bytes with the continuation bit set, at least ten
    Overlong { head: Vec<u8>, tail: Vec<u8> },
    /// nine bytes with the continuation bit set and a tenth above 1: more than 64 bits
    Above { head: Vec<u8>, last: u8, tail: Vec<u8> },
}

pub struct Varints;

fn one(v: u64, suffix: &[u8]) -> R<()> {
    let mut buf = [0xAAu8; MAX_VARINT_LEN + 6];
    let n = encode_varint(v, &mut buf);
    // shortest LEB128
    let mut want = [0u8; 10];
    let (mut x, mut k) = (v, 0);
    while x >= 128 {
        want[k] = (x % 128) as u8 | 128;
        x /= 128;
        k += 1;
    }
    want[k] = x as u8;
    k += 1;
    if n != k || buf[..n] != want[..k] {
        fail!("{} encodes to {:02x?}, shortest form is {:02x?}", v, &buf[..n.min(16)], &want[..k]);
    }
    ensure!(
        encoded_len_varint(v) == n,
        "predicted length of {} is {}, it takes {}",
        v,
        encoded_len_varint(v),
        n
    );
    ensure!(
        buf[n..].iter().all(|b| *b == 0xAA),
        "encoding {} wrote past its length",
        v
    );
    let m = suffix.len().min(buf.len() - n);
    buf[n..n + m].copy_from_slice(&suffix[..m]);
    match decode_varint(&buf[..n + m]) {
        Ok((got, len)) => ensure!(
            got == v && len == n,
            "{:02x?} decodes to {} ({} bytes) instead of {} ({} bytes)",
            &buf[..n + m],
            got,
            len,
            v,
            n
        ),
        Err(e) => fail!("{:02x?} does not decode: {:#}", &buf[..n + m], e),
    }
    Ok(())
}

impl Prop for Varints {
    type Case = VarintCase;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "Exhaustive sweeps (0 to 2^23 in the quick tier, 2^31 in the thorough tier, and 2^13 values around every power of \
         two), generated u64 sequences of every magnitude appended to non-empty vectors and followed by arbitrary bytes, \
         and generated inputs with ten or more continuation bytes or with more than 64 bits. Each value must encode to the shortest LEB128 form, have \
         that predicted length, and decode to itself and that length. Non-trivial: a value of two or more bytes, or an \
         overlong input. One sweep counts as one case."
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<VarintCase> {
        let val = prop_oneof![
            4 => (0u32..=63, any::<u64>()).prop_map(|(s, x)| x >> s),
            2 => (0u32..=63, -3i64..=3).prop_map(|(s, d)| (1u64 << s).wrapping_add(d as u64)),
            1 => (1u32..=9, any::<u64>()).prop_map(|(k, x)| x & !(0x7fu64 << (7 * k % 64))),
            1 => any::<u64>(),
        ];
        let tail = vec(prop_oneof![Just(0xffu8), Just(0x80u8), Just(0u8), any::<u8>()], 0..=12);
        prop_oneof![
            6 => (vec(any::<u8>(), 0..=12), vec(val, 1..=12), tail.clone())
                .prop_map(|(before, vals, after)| VarintCase::Seq { before, vals, after }),
            1 => (vec(prop_oneof![Just(0xffu8), Just(0x80u8), 0x80u8..=0xff], 10..=14), tail)
                .prop_map(|(head, tail)| VarintCase::Overlong { head, tail }),
            1 => (vec(0x80u8..=0xff, 9), prop_oneof![2u8..=3, 2u8..=127], vec(any::<u8>(), 0..=8))
                .prop_map(|(head, last, tail)| VarintCase::Above { head, last, tail }),
            1 => (any::<u64>(), 1u64..=200).prop_map(|(start, n)| VarintCase::Sweep { start, n }),
        ]
        .boxed()
    }
    fn fixed(&self, tier: Tier) -> Vec<VarintCase> {
        let top: u64 = if tier == Tier::Thorough { 1 << 31 } else { 1 << 23 };
        let step = 1 << 18;
        let mut out: Vec<_> = (0..top / step)
            .map(|i| VarintCase::Sweep { start: i * step, n: step })
            .collect();
        for s in 0..=64u32 {
            let mid = if s == 64 { 0 } else { 1u64 << s };
            out.push(VarintCase::Sweep { start: mid.wrapping_sub(4096), n: 8192 });
        }
        out
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 6_000_000,
            Tier::Thorough => 40_000_000,
        }
    }
    fn run(&self, c: &VarintCase) -> Outcome {
        let mut s = Stats::default();
        match c {
            VarintCase::Sweep { start, n } => {
                for i in 0..*n {
                    let v = start.wrapping_add(i);
                    one(v, &[0x80 | (v as u8), 0xff, 0x01])?;
                }
                s.nontrivial = start.wrapping_add(*n) > 128;
                s.class(true, "sweep");
            }
            VarintCase::Seq { before, vals, after } => {
                let mut out = before.clone();
                let mut lens = vec![];
                for v in vals {
                    let was = out.len();
                    out.put_varint(*v);
                    ensure!(out.len() > was, "nothing was appended for {}", v);
                    lens.push(out.len() - was);
                    one(*v, after)?;
                }
                ensure!(
                    out[..before.len()] == before[..],
                    "earlier bytes changed"
                );
                out.extend_from_slice(after);
                let mut pos = before.len();
                for (i, v) in vals.iter().enumerate() {
                    match decode_varint(&out[pos..]) {
                        Ok((got, n)) => {
                            ensure!(
                                got == *v && n == lens[i],
                                "value {} of the sequence decodes to {} ({} bytes) instead of {} ({} bytes)",
                                i,
                                got,
                                n,
                                v,
                                lens[i]
                            );
                            pos += n;
                        }
                        Err(e) => fail!("value {} of the sequence does not decode: {:#}", i, e),
                    }
                    s.class(lens[i] >= 9, "nine or ten byte values");
                }
                s.nontrivial = vals.iter().any(|v| *v > 127);
                s.class(vals.len() > 1, "sequence");
            }
            VarintCase::Overlong { .. } | VarintCase::Above { .. } => {
                let (head, last, tail) = match c {
                    VarintCase::Above { head, last, tail } => (head, Some(*last), tail),
                    VarintCase::Overlong { head, tail } => (head, None, tail),
                    _ => unreachable!(),
                };
                let mut buf = head.clone();
                buf.extend(last);
                buf.extend_from_slice(tail);
                match panics(|| decode_varint(&buf).ok()) {
                    Ok(None) => {}
                    Ok(Some((v, n))) => fail!("{:02x?} decodes to {} ({} bytes)", buf, v, n),
                    Err(m) => fail!("{:02x?} is not rejected with an error but with a panic: {}", buf, m),
                }
                s.nontrivial = true;
                s.class(last.is_none(), "overlong");
                s.class(last.is_some(), "above 64 bits");
            }
        }
        s.classes.sort();
        s.classes.dedup();
        Ok(s)
    }
}

