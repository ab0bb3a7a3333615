#[cfg(feature = "segment")]
pub mod append_only;
pub mod buffers;
#[cfg(feature = "encoders")]
pub mod columns;
pub mod config;
#[cfg(all(feature = "encoders", feature = "segment", feature = "io"))]
pub mod data_file;
#[cfg(feature = "rle")]
pub mod damaged;
#[cfg(feature = "segment")]
pub mod durability;
#[cfg(all(feature = "encoders", feature = "segment", feature = "io"))]
pub mod effort;
#[cfg(all(feature = "encoders", feature = "segment"))]
pub mod encodings;
#[cfg(all(feature = "encoders", feature = "segment", feature = "io"))]
pub mod footprint;
#[cfg(feature = "io")]
pub mod io;
#[cfg(feature = "encoders")]
pub mod limits;
#[cfg(feature = "offsets")]
pub mod offsets;
#[cfg(all(feature = "segment", feature = "io"))]
pub mod progress;
#[cfg(feature = "rle")]
pub mod rle;
#[cfg(feature = "segment")]
pub mod segments;
#[cfg(feature = "varint")]
pub mod varints;
