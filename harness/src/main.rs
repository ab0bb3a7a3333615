//! mkverif check <id> | replay <file> | show <id> <n>

// the C library's open is variadic; on this platform the third argument arrives the same way
#![allow(invalid_runtime_symbol_definitions)]
#![allow(dead_code)]

mod blocks;
#[cfg(feature = "encoders")]
mod col;
mod engine;
mod faults;
mod gen;
mod heap;
mod props;
mod scratch;
#[cfg(feature = "segment")]
mod seg;
mod wire;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

use engine::Tier;
use std::path::Path;

macro_rules! dispatch {
    ($id:expr, |$p:ident| $body:expr) => {{
        use props::*;
        match $id {
            #[cfg(feature = "encoders")]
            "C01" => { let $p = columns::RoundTrip { bin: false }; $body }
            #[cfg(feature = "encoders")]
            "C02" => { let $p = columns::RoundTrip { bin: true }; $body }
            #[cfg(feature = "encoders")]
            "C03" => { let $p = columns::Labels; $body }
            #[cfg(feature = "encoders")]
            "C04" => { let $p = columns::Sizes; $body }
            "C05" => { let $p = buffers::Buffers; $body }
            "C06" => { let $p = buffers::Copying; $body }
            "C07" => { let $p = buffers::Bitmaps; $body }
            #[cfg(feature = "rle")]
            "C08" => { let $p = rle::Rle; $body }
            #[cfg(feature = "varint")]
            "C09" => { let $p = varints::Varints; $body }
            #[cfg(feature = "offsets")]
            "C10" => { let $p = offsets::Offsets; $body }
            #[cfg(feature = "segment")]
            "C11" => { let $p = segments::IndexFile; $body }
            #[cfg(all(feature = "encoders", feature = "segment", feature = "io"))]
            "C12" => { let $p = data_file::DataFile; $body }
            #[cfg(feature = "io")]
            "C13" => { let $p = io::BlockIo; $body }
            #[cfg(feature = "segment")]
            "C14" => { let $p = durability::LoudFailures; $body }
            #[cfg(feature = "segment")]
            "C16" => { let $p = durability::Durable; $body }
            "C19" => { let $p = config::Settings; $body }
            #[cfg(feature = "encoders")]
            "C20" => { let $p = limits::Limits; $body }
            #[cfg(feature = "io")]
            "C15" => { let $p = io::ReadFaults; $body }
            #[cfg(all(feature = "encoders", feature = "segment"))]
            "C18" => { let $p = encodings::Encodings; $body }
            #[cfg(feature = "segment")]
            "C21" => { let $p = segments::SideBySide; $body }
            #[cfg(feature = "encoders")]
            "C17" => { let $p = columns::FailingSink; $body }
            #[cfg(all(feature = "segment", feature = "io"))]
            "C22" => { let $p = progress::Stalls; $body }
            #[cfg(all(feature = "segment", feature = "io"))]
            "C23" => { let $p = progress::ReadAhead; $body }
            #[cfg(all(feature = "segment", feature = "io"))]
            "C24" => { let $p = progress::Released; $body }
            #[cfg(feature = "rle")]
            "C25" => { let $p = damaged::Damaged; $body }
            #[cfg(all(feature = "encoders", feature = "segment", feature = "io"))]
            "C26" => { let $p = footprint::Bounded; $body }
            #[cfg(feature = "segment")]
            "C27" => { let $p = append_only::AppendOnly; $body }
            #[cfg(all(feature = "encoders", feature = "segment", feature = "io"))]
            "C28" => { let $p = effort::Linear; $body }
            other => { eprintln!("unknown property {}", other); std::process::exit(2) }
        }
    }};
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    engine::install_panic_hook();
    let code = match arg(1) {
        "check" => dispatch!(arg(2), |p| engine::check(&p, tier, seed)),
        "replay" => {
            let text = std::fs::read_to_string(arg(2)).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("json");
            let id = v["property"].as_str().expect("property").to_string();
            dispatch!(id.as_str(), |p| engine::replay(&p, Path::new(arg(2))))
        }
        #[cfg(feature = "io")]
        "child-giant" => props::io::child_giant(
            Path::new(arg(2)),
            arg(3).parse().expect("start"),
            arg(4).parse().expect("end"),
        ),
        "show" => {
            let n = arg(3).parse().unwrap_or(10);
            dispatch!(arg(2), |p| engine::show(&p, tier, seed, n));
            0
        }
        _ => {
            eprintln!("usage: mkverif check <id> | replay <file> | show <id> <n>");
            2
        }
    };
    std::process::exit(code);
}
