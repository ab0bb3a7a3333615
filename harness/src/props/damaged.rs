//! C25: the validity decoder on arbitrary input.

use meerkat::verif::encoding::rle_decode;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::{panics, Outcome, Prop, Stats, Tier};
use crate::gen::Mix;
use crate::{ensure, fail};

/// Positions looked at; more than these never fit the destination.
const CAP: usize = 1 << 16;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Part {
    /// `extra` continuation bytes lengthen the header without changing it
    Run { len: u64, byte: u8, extra: u8 },
    Literal { n: u32, seed: u64, ones_pct: u8, extra: u8 },
    /// a literal header that claims `claim` bytes, followed by `n`
    Claim { claim: u64, n: u8 },
    /// a header of any value with any parity, and nothing else
    Header { value: u64 },
    Bytes(Vec<u8>),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct DamagedCase {
    pub parts: Vec<Part>,
    /// cut to this length, modulo the length plus one
    pub cut: Option<u32>,
    /// bytes changed: position (modulo the length), xor
    pub flips: Vec<(u32, u8)>,
    /// the destination has room for this many positions more or less than there are
    pub room: i8,
}

pub struct Damaged;

fn header(out: &mut Vec<u8>, mut v: u128, extra: u8) {
    while v >= 128 {
        out.push((v % 128) as u8 | 128);
        v /= 128;
    }
    if extra == 0 {
        out.push(v as u8);
        return;
    }
    out.push(v as u8 | 128);
    for _ in 1..extra {
        out.push(128);
    }
    out.push(0);
}

fn input(c: &DamagedCase) -> Vec<u8> {
    let mut out = vec![];
    for p in &c.parts {
        match p {
            Part::Run { len, byte, extra } => {
                header(&mut out, (*len as u128) << 1, *extra);
                out.push(*byte);
            }
            Part::Literal { n, seed, ones_pct, extra } => {
                header(&mut out, (*n as u128) << 1 | 1, *extra);
                let mut m = Mix(*seed);
                for _ in 0..*n {
                    let mut b = 0u8;
                    for k in 0..8 {
                        b |= ((m.next() % 100 < *ones_pct as u64) as u8) << k;
                    }
                    out.push(b);
                }
            }
            Part::Claim { claim, n } => {
                header(&mut out, (*claim as u128) << 1 | 1, 0);
                out.resize(out.len() + *n as usize, 0x11);
            }
            Part::Header { value } => header(&mut out, *value as u128, 0),
            Part::Bytes(b) => out.extend_from_slice(b),
        }
    }
    if let Some(k) = c.cut {
        let n = k as usize % (out.len() + 1);
        out.truncate(n);
    }
    for (at, x) in &c.flips {
        let n = out.len();
        if n > 0 {
            out[*at as usize % n] ^= x;
        }
    }
    out
}

/// What the frame format says about an input.
#[derive(Default)]
struct Meaning {
    /// positions of the set bits, at most CAP + 1 of them
    set: Vec<u32>,
    /// why it must be refused
    malformed: Option<&'static str>,
    /// why it may be refused
    odd: bool,
    bits: u128,
}

fn meaning(mut enc: &[u8]) -> Meaning {
    let mut m = Meaning::default();
    let mut at: u128 = 0;
    'frames: while !enc.is_empty() {
        let mut h: u128 = 0;
        let mut k = 0;
        loop {
            if k == enc.len() {
                m.malformed = Some("header cut short");
                break 'frames;
            }
            if k == 10 {
                m.malformed = Some("header of more than ten bytes");
                break 'frames;
            }
            h |= ((enc[k] & 127) as u128) << (7 * k);
            k += 1;
            if enc[k - 1] < 128 {
                break;
            }
        }
        m.odd |= k > 1 && enc[k - 1] == 0;
        enc = &enc[k..];
        if h > u64::MAX as u128 {
            m.malformed = Some("header above 64 bits");
            break;
        }
        let len = h >> 1;
        if len > u32::MAX as u128 {
            m.malformed = Some("frame of more than 2^32 bytes");
            break;
        }
        m.odd |= len == 0;
        let bytes: Box<dyn Iterator<Item = u8>> = if h & 1 == 1 {
            if len > enc.len() as u128 {
                m.malformed = Some("literal cut short");
                break;
            }
            let (lit, rest) = enc.split_at(len as usize);
            enc = rest;
            Box::new(lit.iter().copied())
        } else {
            let Some((b, rest)) = enc.split_first() else {
                m.malformed = Some("run without its byte");
                break;
            };
            enc = rest;
            if *b == 0 {
                at += len * 8;
                continue;
            }
            Box::new(std::iter::repeat(*b).take(len as usize))
        };
        for b in bytes {
            for i in 0..8 {
                if b >> i & 1 == 1 {
                    let pos = at + i;
                    if pos > u32::MAX as u128 {
                        m.malformed = Some("a bit past the last row number");
                        break 'frames;
                    }
                    // no column has a row of this number
                    m.odd |= pos == u32::MAX as u128;
                    if m.set.len() > CAP {
                        m.malformed = Some("more bits than there is room for");
                        break 'frames;
                    }
                    m.set.push(pos as u32);
                }
            }
            at += 8;
        }
    }
    m.odd |= at > 1 << 32;
    m.bits = at;
    m
}

impl Prop for Damaged {
    type Case = DamagedCase;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "A case is a sequence of validity frames (runs up to 2^33 bytes, literals, headers lengthened, oversized or alone, \
         literals that claim more than there is, raw bytes), cut short or with bytes changed, and a destination of exactly, \
         more or less room than needed. A reference decoder with 128-bit positions says whether the input is well formed. Well formed: \
         exactly its positions are written and nothing after them. Malformed, or too little room: decoding must panic. \
         Non-trivial: malformed or too little room, or well formed with set bits past 2^16."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "headers longer than needed, empty frames, zero bits past 2^32 and a set bit at 2^32 - 1 may be refused or decoded",
        ]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<DamagedCase> {
        let extra = || prop_oneof![30 => Just(0u8), 1 => 1u8..=9];
        let byte = || prop_oneof![3 => Just(0u8), 2 => Just(0xffu8), 2 => any::<u8>()];
        let part = prop_oneof![
            2000 => (prop_oneof![4 => 0u64..=40, 3 => 0u64..=2000, 1 => 0u64..=200_000], byte(), extra())
                .prop_map(|(len, byte, extra)| Part::Run { len, byte, extra }),
            // two thousand times rarer: decoding may take seconds
            1 => ((28u32..=33).prop_map(|k| 1u64 << k), 0u64..=3, byte())
                .prop_map(|(k, d, byte)| Part::Run { len: k + d - 2, byte, extra: 0 }),
            2000 => (prop_oneof![4 => 0u32..=20, 1 => 0u32..=300], any::<u64>(), 0u8..=100, extra())
                .prop_map(|(n, seed, ones_pct, extra)| Part::Literal { n, seed, ones_pct, extra }),
            200 => (prop_oneof![0u64..=300, any::<u64>()], any::<u8>())
                .prop_map(|(claim, n)| Part::Claim { claim: claim >> 1, n: n % 40 }),
            200 => (0u32..=63, any::<u64>(), any::<bool>())
                .prop_map(|(s, v, one)| Part::Header { value: v >> s | one as u64 }),
            200 => vec(prop_oneof![1 => any::<u8>(), 1 => 0x80u8..=0xff], 0..=14).prop_map(Part::Bytes),
        ];
        (
            vec(part, 0..=6),
            prop::option::weighted(0.3, any::<u32>()),
            prop_oneof![3 => Just(vec![]), 1 => vec((any::<u32>(), 1u8..=255), 1..=3)],
            prop_oneof![4 => Just(0i8), 1 => -3i8..=9],
        )
            .prop_map(|(parts, cut, flips, room)| DamagedCase { parts, cut, flips, room })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<DamagedCase> {
        let mut out = vec![];
        let mut add = |parts: Vec<Part>| {
            for room in [0i8, 1, -1] {
                out.push(DamagedCase { parts: parts.clone(), cut: None, flips: vec![], room });
            }
        };
        let run = |len: u64, byte: u8| Part::Run { len, byte, extra: 0 };
        // around the last row number
        let end = 1u64 << 29;
        for k in 0..=2 {
            for byte in [0x01u8, 0x40, 0x7f, 0x80, 0xff] {
                add(vec![run(end - k, 0), Part::Bytes(vec![3, byte])]);
                add(vec![run(end - k, 0), run(1, byte)]);
            }
        }
        // lengths that leave little behind when they are cut to 32 bits
        for len in [end, end + 1, end * 2 + 1, end * 4 + 2, end * 8 - 1, end * 8, end * 8 + 1, 1 << 40, 1 << 62] {
            add(vec![run(len, 0xff)]);
            add(vec![run(len, 0x10)]);
            add(vec![run(len, 0), run(1, 0xff)]);
        }
        for claim in [1u64, 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 2, (1 << 63) - 1] {
            add(vec![run(3, 0xff), Part::Claim { claim, n: 2 }]);
        }
        // ten byte headers above 64 bits
        for last in 0..=127u8 {
            let mut head = vec![0x86u8; 1];
            head.extend([0x80; 8]);
            head.extend([last, 0xff, 1, 2, 3]);
            add(vec![Part::Bytes(head)]);
        }
        out
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 1_500_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn run(&self, c: &DamagedCase) -> Outcome {
        let enc = input(c);
        let m = meaning(&enc);
        let count = m.set.len().min(CAP);
        let room = (count as i64 + c.room as i64).max(0) as usize;
        const FREE: u32 = 0xDEAD_BEEF;
        let mut got = vec![FREE; room];
        let short = room < m.set.len();
        let r = panics(|| rle_decode(&enc, &mut got));
        let shown = &enc[..enc.len().min(40)];
        match (&m.malformed, r) {
            (Some(why), Ok(_)) => fail!(
                "{:02x?} ({} bytes) is malformed ({}), but decoded to {} positions {:?}",
                shown,
                enc.len(),
                why,
                got.iter().filter(|p| **p != FREE).count(),
                &got[..got.len().min(8)]
            ),
            (None, Ok(_)) => {
                ensure!(
                    !short,
                    "{:02x?} has {} set bits, but decoded into {}",
                    shown,
                    m.set.len(),
                    room
                );
                ensure!(
                    got[..m.set.len()] == m.set[..],
                    "{:02x?} decodes to other positions: first difference at {:?}",
                    shown,
                    got.iter().zip(&m.set).position(|(a, b)| a != b)
                );
                ensure!(
                    got[m.set.len()..].iter().all(|p| *p == FREE),
                    "{:02x?} has {} set bits, more were written",
                    shown,
                    m.set.len()
                );
            }
            (None, Err(e)) => ensure!(
                short || m.odd,
                "{:02x?} ({} bytes, {} bits) is well formed, but refused: {}",
                shown,
                enc.len(),
                m.bits,
                e
            ),
            (Some(_), Err(_)) => {}
        }
        let refused = m.malformed.is_some() || short;
        let mut s = Stats {
            nontrivial: refused || m.set.last().map_or(false, |p| *p > 65_536),
            ..Stats::default()
        };
        if let Some(why) = m.malformed {
            s.class(true, why);
        }
        s.class(m.malformed.is_none() && short, "too little room");
        s.class(m.malformed.is_none() && !short && !m.odd, "well formed");
        s.class(!refused && m.odd, "unusual");
        Ok(s)
    }
}
