#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Edit here, then re-run."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["0c8894a", "db03eb3"]
full = lambda c: subprocess.check_output(["git", "-C", "/repo", "rev-parse", c], text=True).strip()
COMMON = "Holds on every generated case; absence is not established beyond them. Trusts the harness's independent decoders and models (harness/src) and proptest. "
C = {
 "C01": ("round trip of generated column histories through an independent block decoder", "exploration", "Rows, batching, block size and buffer reuse are generated; up to 400k rows per column."),
 "C02": ("round trip of generated column histories through an independent block decoder", "exploration", "As C01 for byte strings, with lengths unpacked by an independent bit-unpacker."),
 "C03": ("labels of generated column histories against the row model", "exploration", "Every emitted label is compared with the row count derived from decoded blocks and the history."),
 "C04": ("block sizes of generated histories; metamorphic re-batching of the same rows", "exploration", "Each history is encoded with its batching and as one batch and compared."),
 "C05": ("stateful model-based generation against a row-list model", "exploration", "Operation sequences on real buffers, compared with the model after every step or at the end."),
 "C06": ("stateful generation of piecewise copies against a row-list model", "exploration", "Source, destination, prior content and piece boundaries generated."),
 "C07": ("stateful model-based generation against a bit-vector model", "exploration", "Capacities, appends, clears and copies generated; every bit compared."),
 "C08": ("round trip through two decoders plus a reference encoder for the size bound", "exploration", "Bit runs generated up to hundreds of thousands of bits; small sequences enumerated."),
 "C09": ("round trip and canonical-form check against a reference LEB128", "exploration", "Boundary values enumerated, the rest generated; arbitrary trailing bytes and overlong inputs."),
 "C10": ("round trip through an independent bit-unpacker, minimal width computed by the oracle", "exploration", "Counts around multiples of 128 and all widths covered by construction."),
 "C11": ("generated segment histories, index file parsed by an independent protobuf reader", "exploration", "Known finding: block index not persisted (known_findings.txt)."),
 "C12": ("generated segment histories, data file decoded independently and through the block reader", "exploration", "Includes files past 4 GiB with discarded writes."),
 "C13": ("generated read batches against a byte-exact file model, several polling schedules", "exploration", "Sparse files to 20 GiB; poll orders generated, thread interleavings sampled."),
 "C14": ("fault enumeration over every write of generated segment histories", "fault_enumeration", "Every write index of both files, opens, and sampled byte offsets, with injected errno at the C library boundary."),
 "C15": ("fault injection into generated read batches against a readable-range model", "fault_enumeration", "Regions, short and interrupted reads, truncation after open, ranges beyond memory (child process)."),
 "C16": ("slow-disk and sync-fault injection into generated segment histories", "fault_enumeration", "Durability is judged by observed fsync coverage of written bytes, not by power loss."),
 "C17": ("generated sink rejections against a healthy run of the same history", "exploration", "The rejected block is generated, early and late."),
 "C18": ("generated encodings per type, round trip or refusal, metamorphic removal of refused columns", "exploration", "All (type, encoding, index type) combinations enumerated. Known finding: Snappy stub (known_findings.txt)."),
 "C19": ("generated flag/environment combinations against a reference resolver, real server binary", "exploration", "The binary is built with the hook that prints its effective configuration."),
 "C20": ("boundary-directed generation against 64-bit arithmetic", "exploration", "Real 4 GiB buffers and 2^32-row columns; needs about 16 GB of memory."),
 "C21": ("generated interleavings compared with the solo run (differential)", "exploration", "Single-thread orders are generated exactly; thread interleavings are sampled."),
 "C22": ("system calls of generated histories left unanswered while other generated work must complete", "fault_enumeration", "One call at a time is held at the C library boundary; a stall means no progress within 20 s."),
 "C23": ("generated batches and consumption patterns; read system calls counted against results taken", "exploration", "Pauses of a few milliseconds, up to 30 ms for the largest batches, give read-ahead the time to show."),
 "C24": ("open descriptors counted after generated histories with injected failures", "fault_enumeration", "Judged by /proc/self/fd; a descriptor held longer than 10 s counts as leaked."),
 "C25": ("generated and damaged frame sequences against a reference decoder with 128-bit positions", "exploration", "Frames up to 2^33 bytes; too little room and malformed input must panic."),
 "C26": ("generated histories many times the size of the bound, judged by a counting allocator", "exploration", "The bound is generous (a dozen blocks and batches): slower growth shows only in longer histories than generated."),
 "C27": ("every file change of generated histories checked for prefix order; writers dropped before and within operations", "fault_enumeration", "Process death after every system call; what an operating-system crash does to unsynced bytes is not modelled."),
 "C28": ("metamorphic: CPU time of generated histories against 64 times longer ones, and of the same ones after something large", "exploration", "Judged by thread CPU time with a factor of 10 to spare; slower growth, and work moved to other threads, is not seen."),
}
m = {
  "version": 1,
  "setup_cmd": "./run.sh setup",
  "hooks": {
    "guard": "cfg(meerkat_verif)",
    "enable": "RUSTFLAGS '--cfg meerkat_verif' (harness/.cargo/config.toml for the library, run.sh for the server binary)",
    "source_commits": [full(c) for c in HOOKS],
  },
  "checks": [{
    "property": i,
    "quick_cmd": f"./run.sh check {i}",
    "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {i}",
    "technique": t, "level": l, "level_note": COMMON + n,
  } for i, (t, l, n) in C.items()],
  "not_applicable": [],
  "notes": "Replay a failure with ./run.sh replay <file>; look at generated cases with ./run.sh show <id> [n].",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
