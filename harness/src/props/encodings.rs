//! C18: encodings.


use futures::executor::block_on as simple_block_on;
use meerkat::verif::buffer::{BinaryBuffer, PrimitiveBuffer};
use meerkat::verif::encoding::{
    new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
    BlockEncoder,
};
use meerkat::verif::metadata::column_layout::EncoderLayout;
use meerkat::verif::metadata::Encoding;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::blocks::{decode_column, same_rows};
use crate::col::{col, Col, Kind, Sink};
use crate::engine::{Failure, Outcome, Prop, Stats, Tier};
use crate::gen::{batch_ends, fill_bin, fill_prim, value_prefix, Rows};
use crate::props::segments::{all_rows, healthy};
use crate::scratch::Scratch;
use crate::seg::{
    check_data, check_index, seg_col,
    segment_with, Fate, SegCol, SegRun, Segment,
};
use crate::wire::{index_file, Meta};
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

// ---------------------------------------------------------------- C18

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum EncCase {
    /// an encoder of this type and encoding, fed with the column
    Encoder { col: Col, encoding: i32 },
    /// a segment whose columns ask for any encoding
    Segment(Segment),
}

pub struct Encodings;

const SNAPPY: i32 = 4;

fn snappy_stub(msg: String) -> Failure {
    Failure {
        key: Some("snappy-stub".into()),
        msg,
    }
}

fn feed<B>(
    mut enc: Box<dyn BlockEncoder<B, Sink>>,
    rows: &Rows,
    ends: &[usize],
    new: impl Fn() -> B,
    fill: impl Fn(&mut B, usize, usize, usize),
) -> (Sink, Option<EncoderLayout>, Option<String>) {
    let prefix = value_prefix(&rows.valid);
    let mut sink = Sink {
        blocks: vec![],
        fail_at: None,
        seen: 0,
        limit: rows.len() + ends.len() + 8,
    };
    let mut start = 0;
    for e in ends {
        let mut buf = new();
        fill(&mut buf, start, *e, prefix[start]);
        start = *e;
        if let Err(x) = simple_block_on(enc.encode(&buf, &mut sink)) {
            return (sink, None, Some(format!("{:#}", x)));
        }
    }
    match simple_block_on(enc.flush(&mut sink)) {
        Ok(l) => (sink, Some(l), None),
        Err(x) => (sink, None, Some(format!("{:#}", x))),
    }
}

fn encoder_case(c: &Col, encoding: i32) -> Outcome {
    let mut s = Stats::default();
    let e = Encoding::from_i32(encoding).expect("encoding");
    let rows = c.rows();
    let ends = batch_ends(&c.cuts, &rows);
    let bs = c.block_size as usize;
    macro_rules! prim {
        ($new:ident) => {
            match $new(e, bs, c.nullable) {
                Err(_) => None,
                Ok(enc) => Some(feed(
                    enc,
                    &rows,
                    &ends,
                    || PrimitiveBuffer::new(c.nullable),
                    |b, st, en, v| fill_prim(b, &rows, st, en, v),
                )),
            }
        };
    }
    let got = match c.kind {
        Kind::I32 => prim!(new_i32_encoder),
        Kind::I64 => prim!(new_i64_encoder),
        Kind::U64 => prim!(new_u64_encoder),
        Kind::F64 => prim!(new_f64_encoder),
        Kind::Bin => match new_binary_encoder(e, c.block_size as u32, c.nullable) {
            Err(_) => None,
            Ok(enc) => Some(feed(
                enc,
                &rows,
                &ends,
                || BinaryBuffer::new(c.nullable),
                |b, st, en, v| fill_bin(b, &rows, st, en, v),
            )),
        },
    };
    let Some((sink, layout, error)) = got else {
        ensure!(encoding != 0, "raw encoding is refused for {:?} columns", c.kind);
        s.class(true, "refused");
        s.nontrivial = true;
        return Ok(s);
    };
    if let Some(m) = error {
        fail!("{:?} was accepted for {:?} but encoding fails: {}", e, c.kind, m);
    }
    let layout = layout.expect("layout");
    match encoding {
        0 => {
            ensure!(
                matches!(layout, EncoderLayout::Plain(_)),
                "raw encoding records layout {:?}",
                layout
            );
            let blocks: Vec<(u32, &[u8])> =
                sink.blocks.iter().map(|b| (b.label, b.data.as_slice())).collect();
            let d = decode_column(&blocks, c.kind.width(), c.nullable, &rows.valid)?;
            same_rows(&d, &rows, c.kind.width(), false)?;
            s.class(true, "raw round trip");
            s.nontrivial = rows.values() > 0;
            Ok(s)
        }
        SNAPPY if c.kind == Kind::Bin => {
            let stub = sink.blocks.len() == ends.len()
                && sink.blocks.iter().all(|b| b.label == 43243 && b.data == b"snappy")
                && matches!(layout, EncoderLayout::Snappy(_));
            let msg = format!(
                "snappy is accepted for binary columns but {} rows became {} blocks, first {:?}",
                rows.len(),
                sink.blocks.len(),
                sink.blocks.first()
            );
            if !stub {
                return Err(Failure::from(msg));
            }
            s.finding = Some(snappy_stub(msg));
            Ok(s)
        }
        _ => fail!(
            "{:?} was accepted for {:?} columns: {} blocks with layout {:?}, which no documented layout decodes",
            e,
            c.kind,
            sink.blocks.len(),
            layout
        ),
    }
}

fn norm(m: &Meta) -> Meta {
    m.clone()
}

fn segment_case(seg: &Segment) -> Outcome {
    let mut s = Stats::default();
    let dir = Scratch::new();
    let rows = all_rows(seg);
    let (r, index, data) = healthy(seg, &rows, dir.path())?;
    let mut stub = None;
    for (c, f) in seg.cols.iter().zip(&r.fates) {
        match (c.encoding, f) {
            (0, Fate::Refused(m)) => fail!("a raw column was refused: {}", m),
            (0, _) | (_, Fate::Refused(_)) => {}
            (SNAPPY, Fate::Closed(e) | Fate::Abandoned(e)) => {
                let batches = c.cuts.len() + 1;
                if e.len() == batches && e.iter().all(|x| x.0 == 43243) {
                    stub = Some(format!(
                        "a snappy column of {} rows was accepted and written as {} stub blocks",
                        c.rows().len(),
                        e.len()
                    ));
                } else {
                    fail!("a snappy column was accepted and written as blocks {:?}", &e[..e.len().min(5)]);
                }
            }
            (k, _) => fail!("a binary column with encoding {} was accepted", k),
        }
    }
    if let Some(m) = stub {
        // the stub's blocks cannot be judged further; other segments do the rest
        s.finding = Some(snappy_stub(m));
        return Ok(s);
    }
    check_data(seg, &rows, &r.fates, &data)?;
    check_index(seg, &r.fates, &index)?;
    let (_, meta) = index_file(&index)?;
    for (c, f) in seg.cols.iter().zip(&r.fates) {
        if let Fate::Closed(_) = f {
            ensure!(
                meta.layouts[&c.name].encoder == Some(4),
                "raw column {:?} has layout field {:?}",
                c.name,
                meta.layouts[&c.name].encoder
            );
        }
    }
    // the same segment without the refused columns
    let refused = r.fates.iter().filter(|f| matches!(f, Fate::Refused(_))).count();
    if refused > 0 {
        let mut plain = seg.clone();
        plain.cols.retain(|c| c.encoding == 0);
        let dir2 = Scratch::new();
        let prows = all_rows(&plain);
        let (r2, index2, data2) = healthy(&plain, &prows, dir2.path())?;
        ensure!(
            data == data2,
            "a refused column changed the data file ({} and {} bytes)",
            data.len(),
            data2.len()
        );
        let (p1, m1) = index_file(&index)?;
        let (p2, m2) = index_file(&index2)?;
        ensure!(
            norm(&m1) == norm(&m2) && p1 == p2 && index.len() == index2.len(),
            "a refused column changed the index file"
        );
        let entries = |r: &SegRun| -> Vec<Vec<(u32, u64)>> {
            r.fates
                .iter()
                .filter_map(|f| match f {
                    Fate::Closed(e) | Fate::Abandoned(e) => Some(e.clone()),
                    _ => None,
                })
                .collect()
        };
        ensure!(
            entries(&r) == entries(&r2),
            "a refused column changed the block index of another one"
        );
    }
    s.nontrivial = refused > 0 && seg.cols.len() > refused;
    s.class(refused > 0, "refused column in a segment");
    s.class(
        (0..seg.cols.len()).any(|i| {
            seg.cols[i].encoding != 0
                && seg.cols.iter().any(|c| c.encoding == 0 && c.name == seg.cols[i].name)
        }),
        "refused column named like an accepted one",
    );
    s.class(refused > 0 && refused < seg.cols.len(), "refused between accepted columns");
    Ok(s)
}

impl Prop for Encodings {
    type Case = EncCase;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "Every (column type, encoding) pair of the schema with generated rows: an encoder is refused or its output holds the \
         rows and names the encoding; and segments whose columns ask for generated encodings, compared with the same segment \
         without its refused columns. Non-trivial: a refusal, or a round trip with values."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<EncCase> {
        let enc = prop_oneof![5 => Just(0i32), 6 => 1i32..=3, 1 => Just(4)].boxed();
        let seg = segment_with(
            vec(seg_col(prop_oneof![20 => Just(0i32), 12 => 1i32..=3, 1 => Just(4)].boxed()), 0..=5).boxed(),
        );
        prop_oneof![
            3 => (any::<bool>().prop_flat_map(move |b| col(b, tier)), enc)
                .prop_map(|(col, encoding)| EncCase::Encoder { col, encoding }),
            1 => (seg, prop::option::of(any::<u64>())).prop_map(|(mut seg, names)| {
                // refused columns that share the name of a raw one
                if let Some(mut r) = names {
                    let raw: Vec<String> =
                        seg.cols.iter().filter(|c| c.encoding == 0).map(|c| c.name.clone()).collect();
                    for c in seg.cols.iter_mut().filter(|c| (1..=3).contains(&c.encoding)) {
                        if !raw.is_empty() && r % 3 > 0 {
                            c.name = raw[(r / 3) as usize % raw.len()].clone();
                        }
                        r = r.rotate_right(7);
                    }
                }
                EncCase::Segment(seg)
            }),
        ]
        .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<EncCase> {
        use crate::gen::{Len, Run};
        let mut out = vec![];
        for kind in [Kind::I32, Kind::I64, Kind::U64, Kind::F64, Kind::Bin] {
            for encoding in 0..=4 {
                for nullable in [false, true] {
                    out.push(EncCase::Encoder {
                        col: Col {
                            kind,
                            nullable,
                            block_size: 64,
                            runs: vec![Run::Vals { n: 200, len: Len::Fixed(3), seed: 1 }],
                            cuts: vec![],
                            reuse: 0,
                        },
                        encoding,
                    });
                }
            }
        }
        let c = |name: &str, t: i32, e: i32, x: i32| SegCol {
            name: name.into(),
            column_type: t,
            encoding: e,
            index_type: x,
            nullable: true,
            runs: vec![Run::Vals { n: 5, len: Len::Fixed(4), seed: 7 }, Run::Nulls(2)],
            cuts: vec![],
            reuse: 0,
            abandon: false,
        };
        for t in 0..=9 {
            for e in 0..=4 {
                for x in 0..=3 {
                    out.push(EncCase::Segment(Segment {
                        id: [t as u8 + 1; 16],
                        db: "d".into(),
                        table: "t".into(),
                        shard: 1,
                        num_rows: 7,
                        cols: vec![c("a", 8, 0, 0), c("b", t, e, x), c("c", 8, 0, 0)],
                        stale: None,
                    }));
                }
            }
        }
        out
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 120_000,
            Tier::Thorough => 1_000_000,
        }
    }
    fn run(&self, c: &EncCase) -> Outcome {
        match c {
            EncCase::Encoder { col, encoding } => encoder_case(col, *encoding),
            EncCase::Segment(seg) => segment_case(seg),
        }
    }
}

