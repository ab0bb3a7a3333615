//! A small protobuf reader for the published metadata schema; field numbers are those of
//! segment_metadata.proto as published.

use std::collections::BTreeMap;

use crate::blocks::varint;
use crate::engine::Failure;
use crate::{ensure, fail};

type R<T> = Result<T, Failure>;

#[derive(Debug, Clone)]
enum Val<'a> {
    Int(u64),
    Bytes(&'a [u8]),
    Fixed,
}

fn fields(mut b: &[u8]) -> R<Vec<(u64, Val<'_>)>> {
    let mut out = vec![];
    while !b.is_empty() {
        let (tag, n) = varint(b)?;
        b = &b[n..];
        let v = match tag & 7 {
            0 => {
                let (v, n) = varint(b)?;
                b = &b[n..];
                Val::Int(v)
            }
            2 => {
                let (len, n) = varint(b)?;
                b = &b[n..];
                ensure!(len <= b.len() as u64, "field {} is cut short", tag >> 3);
                let (v, rest) = b.split_at(len as usize);
                b = rest;
                Val::Bytes(v)
            }
            k @ (1 | 5) => {
                let n = if k == 1 { 8 } else { 4 };
                ensure!(b.len() >= n, "field {} is cut short", tag >> 3);
                b = &b[n..];
                Val::Fixed
            }
            k => fail!("wire type {}", k),
        };
        ensure!(tag >> 3 != 0, "field number 0");
        out.push((tag >> 3, v));
    }
    Ok(out)
}

fn int(f: &[(u64, Val)], k: u64) -> R<u64> {
    let mut out = 0;
    for (n, v) in f {
        if *n == k {
            match v {
                Val::Int(i) => out = *i,
                _ => fail!("field {} is not a number", k),
            }
        }
    }
    Ok(out)
}

fn bytes<'a>(f: &[(u64, Val<'a>)], k: u64) -> R<Option<&'a [u8]>> {
    let mut out = None;
    for (n, v) in f {
        if *n == k {
            match v {
                Val::Bytes(b) => out = Some(*b),
                _ => fail!("field {} is not length-delimited", k),
            }
        }
    }
    Ok(out)
}

fn text(f: &[(u64, Val)], k: u64) -> R<String> {
    match bytes(f, k)? {
        None => Ok(String::new()),
        Some(b) => match std::str::from_utf8(b) {
            Ok(s) => Ok(s.to_string()),
            Err(_) => fail!("field {} is not UTF-8", k),
        },
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ColMeta {
    pub name: String,
    pub column_type: u64,
    pub nullable: u64,
    pub encoding: u64,
    pub index_type: u64,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ColLayout {
    pub block_index: Option<(u64, u64)>,
    pub string_index: Option<(u64, u64)>,
    /// the oneof field number: 4 plain, 5 binary_dict, 6 snappy
    pub encoder: Option<u64>,
    pub dict: Option<(u64, u64)>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Meta {
    pub id: Vec<u8>,
    pub db: String,
    pub table: String,
    pub shard: u64,
    pub num_rows: u64,
    pub cols: BTreeMap<String, ColMeta>,
    pub layouts: BTreeMap<String, ColLayout>,
}

fn range(msg: Option<&[u8]>, field: u64) -> R<Option<(u64, u64)>> {
    let Some(m) = msg else { return Ok(None) };
    let f = fields(m)?;
    match bytes(&f, field)? {
        None => Ok(None),
        Some(r) => {
            let r = fields(r)?;
            Ok(Some((int(&r, 1)?, int(&r, 2)?)))
        }
    }
}

fn map<'a>(f: &[(u64, Val<'a>)], k: u64) -> R<Vec<(String, &'a [u8])>> {
    let mut out: Vec<(String, &[u8])> = vec![];
    for (n, v) in f {
        if *n == k {
            let Val::Bytes(b) = v else { fail!("map field {} is not length-delimited", k) };
            let e = fields(b)?;
            let key = text(&e, 1)?;
            ensure!(
                !out.iter().any(|x| x.0 == key),
                "{:?} is listed twice in map field {}",
                key,
                k
            );
            out.push((key, bytes(&e, 2)?.unwrap_or(&[])));
        }
    }
    Ok(out)
}

pub fn metadata(b: &[u8]) -> R<Meta> {
    let top = fields(b)?;
    let Some(seg) = bytes(&top, 1)? else {
        fail!("metadata without segment description")
    };
    let seg = fields(seg)?;
    let mut cols = BTreeMap::new();
    for (key, m) in map(&seg, 8)? {
        let f = fields(m)?;
        cols.insert(
            key,
            ColMeta {
                name: text(&f, 1)?,
                column_type: int(&f, 2)?,
                nullable: int(&f, 3)?,
                encoding: int(&f, 4)?,
                index_type: int(&f, 5)?,
            },
        );
    }
    let mut layouts = BTreeMap::new();
    for (key, m) in map(&top, 2)? {
        let f = fields(m)?;
        let encoder: Vec<u64> = f.iter().map(|x| x.0).filter(|k| (4..=6).contains(k)).collect();
        layouts.insert(
            key,
            ColLayout {
                block_index: range(bytes(&f, 3)?, 1)?,
                string_index: range(bytes(&f, 2)?, 1)?,
                encoder: encoder.last().copied(),
                dict: range(bytes(&f, 5)?, 1)?,
            },
        );
    }
    Ok(Meta {
        id: bytes(&seg, 1)?.unwrap_or(&[]).to_vec(),
        db: text(&seg, 2)?,
        table: text(&seg, 3)?,
        shard: int(&seg, 4)?,
        num_rows: int(&seg, 7)?,
        cols,
        layouts,
    })
}

pub const INDEX_SIGNATURE: &[u8] = b"MEERKAT_IDX1";
pub const DATA_SIGNATURE: &[u8] = b"MEERKAT_DATA1";

/// An index file: the metadata position and the decoded metadata.
pub fn index_file(b: &[u8]) -> R<(u64, Meta)> {
    ensure!(
        b.starts_with(INDEX_SIGNATURE),
        "the index file does not start with its signature but with {:02x?}",
        &b[..b.len().min(12)]
    );
    ensure!(
        b.len() >= INDEX_SIGNATURE.len() + 8,
        "an index file of {} bytes has no footer",
        b.len()
    );
    let at = b.len() - 8;
    let pos = u64::from_le_bytes(b[at..].try_into().unwrap());
    ensure!(
        pos >= INDEX_SIGNATURE.len() as u64 && pos <= at as u64,
        "the footer says the metadata is at {} in a file of {} bytes",
        pos,
        b.len()
    );
    let meta = metadata(&b[pos as usize..at])
        .map_err(|f| Failure::from(format!("metadata does not decode: {}", f.msg)))?;
    Ok((pos, meta))
}

/// URL-safe base64 without padding.
pub fn base64url(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut out = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            out.push(A[(n >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    out
}
