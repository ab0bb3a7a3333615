#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then re-run."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})
S = "src/store/"
HOOK = "cfg(meerkat_verif): re-exports of the storage modules (src/lib.rs, src/store/verif.rs)"

p("C01", "Fixed-width columns survive encoding row for row",
  "For every sequence of i32, i64, u64 or f64 rows (nulls included), every way of splitting it into write buffers, fresh or reused after being cleared, and every block size, the blocks emitted by encode and flush, read with their row labels under the documented layout (length, little-endian values, validity), hold exactly those rows, in order, each once. No null and no value is lost, duplicated, moved or changed.",
  ["inputs", "histories", "configurations"],
  "every row sequence (values, nulls, leading/trailing/all-null runs), every batching of it into buffers, every positive block size, nullable or not, four value types",
  "The tests encode one null-free i32 batch with one block size and count blocks; contents, nulls, several batches and the leftover carried between batches are never looked at.",
  [S+"encoding/raw/primitive_enc.rs", S+"encoding/bitmap_rle.rs", S+"indexing_buffer.rs"],
  [("leftover rows carried to the next batch", S+"encoding/raw/primitive_enc.rs encode()"), ("block body + validity", S+"encoding/raw/primitive_enc.rs encode_primitive_buffer()")],
  [("remaining", "rows not yet in a block", S+"encoding/raw/primitive_enc.rs")],
  ["BlockSink::write_block calls made by new_{i32,i64,u64,f64}_encoder"], HOOK)

p("C02", "Binary/string columns survive encoding row for row",
  "For every sequence of byte-string rows (empty strings and nulls included), every way of splitting it into write buffers, fresh or reused after being cleared, and every block size, the blocks emitted by raw encode and flush, read with their row labels under the documented layout (length, data, bit-packed item lengths, validity), hold exactly those rows, in order, each once. No item length and no null is lost.",
  ["inputs", "histories", "configurations"],
  "every sequence of byte strings and nulls, every batching, every positive block size, nullable or not",
  "The tests encode at most three short non-null strings in one batch and count blocks; they never decode a block, never have more than one full block, and never have nulls or more than 128 items.",
  [S+"encoding/raw/binary_enc.rs", S+"encoding/offsets.rs", S+"encoding/bitmap_rle.rs", S+"indexing_buffer.rs"],
  [("chunking by offsets", S+"encoding/raw/binary_enc.rs chunk()"), ("leftover rows", S+"encoding/raw/binary_enc.rs encode()"), ("bit-packed lengths", S+"encoding/offsets.rs")],
  [("remaining", "rows not yet in a block", S+"encoding/raw/binary_enc.rs")],
  ["BlockSink::write_block calls made by new_binary_encoder(Raw)"], HOOK)

p("C03", "Every block is labelled with the last row it holds",
  "The row label given with each emitted block equals the zero-based number of the last row (nulls counted) stored in that block, for fixed-width and binary columns alike. Labels therefore strictly increase, and after flush the last label plus one is the number of rows written to the column.",
  ["inputs", "histories", "configurations"],
  "every row sequence, null pattern, batching, block size and column type",
  "No test reads a row label; a wrong label needs several blocks with nulls in the same batch.",
  [S+"encoding/raw/primitive_enc.rs", S+"encoding/raw/binary_enc.rs", S+"block_sink.rs", S+"block_index.rs"],
  [("row counter", "add_rows() in both raw encoders"), ("rows counted from validity", "EncodeResult.num_rows")],
  [("num_rows", "rows emitted so far", "both raw encoders")],
  ["row_id argument of BlockSink::write_block"], HOOK)

p("C04", "Blocks are cut at the configured size, however rows are batched",
  "Except for the block emitted by the final flush, every block carries at least the configured block size in value bytes, and would carry less without its last value, and no write holds back enough rows for another block. Which values share a block depends only on the value sequence and the block size, not on how rows were split into buffers, and the final flush emits at most one block, only when rows are left over.",
  ["inputs", "histories", "configurations"],
  "every value sequence, every pair of batchings of it, every positive block size (also not a multiple of the value width), all raw column types",
  "Two tests fix one block size and one batch; no test compares two batchings or looks at a block's size.",
  [S+"encoding/raw/primitive_enc.rs", S+"encoding/raw/binary_enc.rs", S+"segment_writer.rs"],
  [("chunk()", "both raw encoders"), ("min_block_size comparisons", "encode() of both raw encoders")],
  [], ["sizes of the blocks given to BlockSink::write_block"], HOOK)

p("C05", "Column buffers hold exactly what was appended",
  "After any sequence of append, append-null and clear on a primitive, binary or boolean column buffer, its values, item lengths, validity bits, value count, row count, nullability and has-nulls answer are those of the rows appended since the last clear; nothing from before a clear shows through. Appending a null to a non-nullable buffer is refused with a panic.",
  ["histories", "inputs"],
  "every operation sequence over every buffer type, nullable or not, including reuse after clear and growth past the initial capacity",
  "Each test performs one fixed sequence and clears at most once; none reads validity after a clear.",
  [S+"indexing_buffer.rs"],
  [("sparse values + validity bitmap", S+"indexing_buffer.rs PrimitiveBuffer, BinaryBuffer, BoolBuffer"), ("clear()", S+"indexing_buffer.rs")],
  [("values/data/offsets/validity", "stored rows", S+"indexing_buffer.rs")],
  ["public accessors of the buffers"], HOOK)

p("C06", "Copying rows between buffers preserves rows and positions",
  "Copying a source buffer into a destination in consecutive pieces that cover all its values, passing each returned validity position to the next call, appends exactly the source's rows (leading, interior and trailing nulls included) after the rows the destination already had, and leaves the source unchanged. For nullable buffers each returned position is the number of source rows consumed so far.",
  ["histories", "inputs"],
  "every source and destination content, every partition of the source into consecutive pieces, primitive and binary buffers, nullable or not",
  "One test copies one binary buffer whole; partial copies, primitive buffers and trailing nulls are never tested.",
  [S+"indexing_buffer.rs"],
  [("append_from()", S+"indexing_buffer.rs PrimitiveBuffer, BinaryBuffer, Bitmap")],
  [], ["buffer accessors and the position returned by append_from"], HOOK)

p("C07", "A validity bitmap is the sequence of bits appended to it",
  "After any sequence of append, clear and copy-from-another-bitmap, whatever the initial capacity, a bitmap's length and each of its bits are those of the bits appended since the last clear. Copying the next n set bits from a position appends exactly the source bits up to and including the n-th set one and returns the position after it; reading past the end is refused with a panic.",
  ["histories", "inputs", "configurations"],
  "every operation sequence, every initial capacity, lengths across byte and growth boundaries",
  "One test appends a random bit string to a fresh bitmap, another copies five bits; clear, custom capacity and growth after reuse are not tested.",
  [S+"indexing_buffer.rs"],
  [("growth by doubling", S+"indexing_buffer.rs Bitmap::append"), ("clear()", S+"indexing_buffer.rs Bitmap::clear")],
  [("values,len", "bits", S+"indexing_buffer.rs Bitmap")],
  ["is_set, len"], HOOK)

p("C08", "Validity compression is lossless and bounded",
  "For every bit sequence the run-length encoder's output decodes, by the documented frame format and by the system's own decoder, to exactly the positions of the set bits, also when the encoder is reused after clear and when bits come from a bitmap range. Three or more equal consecutive bytes are stored as one run and no output is longer than the run/literal scheme requires.",
  ["inputs", "histories"],
  "every bit sequence (any length, any mix of runs and literals, run and literal lengths across header-size boundaries), encoder reuse",
  "Four fixed bit patterns are tested, none longer than 17 bytes, none with a reused encoder.",
  [S+"encoding/bitmap_rle.rs", S+"encoding/varint.rs"],
  [("run/literal state machine", S+"encoding/bitmap_rle.rs Encoder::append"), ("decoder", S+"encoding/bitmap_rle.rs Decoder")],
  [("state, buffer, repeat_count", "pending bytes", S+"encoding/bitmap_rle.rs Encoder")],
  ["encoded_values(), decode()"], HOOK)

p("C09", "Varints round-trip, canonically and self-delimited",
  "For every u64 the encoding is the shortest LEB128 form, its predicted length is its actual length, and decoding it returns the value and exactly that length whatever bytes follow. Appending varints to a byte vector leaves earlier bytes intact, a sequence of varints decodes back in order, and ten continuation bytes, or a value of more than 64 bits, are rejected as an error.",
  ["inputs"],
  "every u64, every sequence of them, every suffix; every 10-byte overlong prefix",
  "About twenty boundary values are tested one at a time with nothing after them; errors and concatenation are not tested.",
  [S+"encoding/varint.rs"],
  [("unrolled decoder", S+"encoding/varint.rs decode_varint"), ("length formula", S+"encoding/varint.rs encoded_len_varint")],
  [], ["encode_varint, decode_varint, encoded_len_varint, put_varint"], HOOK)

p("C10", "Item lengths survive bit-packing",
  "For every list of u32 item lengths, of any count (zero, below, at and above 128) and magnitude, the packed section starts with the bit width and unpacks to exactly that list, and bytes already in the destination are left intact. The bit width is the smallest that fits the largest length, so the section's size is a function of count and width only.",
  ["inputs"],
  "every list of u32 lengths: any count, any magnitude mix, any prior destination content",
  "No test unpacks anything; no test has more than three lengths.",
  [S+"encoding/offsets.rs", S+"encoding/util.rs"],
  [("padding to packs of 128", S+"encoding/offsets.rs"), ("bit width", S+"encoding/offsets.rs num_bits")],
  [], ["OffsetEncoder::encode output"], HOOK)

p("C11", "A closed segment's index file describes the segment",
  "After close, the index file starts with the index signature and ends with the little-endian position of the metadata, which decodes under the published schema to the segment id, database, table, shard and row count given at creation and, for exactly the columns closed, their name, type, nullability, encoding and index type, plus a layout that names its encoder and locates its block index within the index file. The two files are named by the URL-safe unpadded base64 of the segment id with extensions .idx and .dat.",
  ["inputs", "histories"],
  "every segment identity (any ids and Unicode names, extreme numbers), every set of columns, types and encodings, with or without data",
  "The single pipeline test never opens the files it wrote.",
  [S+"segment_writer.rs", S+"segment_metadata.proto", S+"segment_metadata.rs", S+"block_index.rs"],
  [("metadata + footer", S+"segment_writer.rs close()"), ("column metadata", S+"segment_writer.rs ColumnWriter::close"), ("file names", S+"segment_writer.rs SegmentWriter::new")],
  [("segment_meta", "metadata under construction", S+"segment_writer.rs")],
  ["bytes of <id>.idx, directory listing"], HOOK)

p("C12", "A segment's data file holds every column's rows, addressably",
  "After close, the data file is the data signature followed by the blocks of the columns in the order they were written, with nothing between or after them. For each column the block index lists, per block, the file offset where it ends and its last row number, and reading the bytes between consecutive offsets through the block reader yields exactly the rows written to that column; each full block carries at least 128 KiB of values.",
  ["inputs", "histories", "configurations"],
  "every number of columns, types, null patterns, batchings and sizes from empty to many blocks, including files beyond 4 GiB",
  "The only end-to-end test writes two copies of one 4-byte string and reads nothing back.",
  [S+"segment_writer.rs", S+"block_sink.rs", S+"block_index.rs", S+"io/default_block_writer.rs", S+"io/unix_disk_block_reader.rs"],
  [("offset recorded after each write", S+"block_sink.rs"), ("index cleared per column", S+"segment_writer.rs new_binary_column_writer")],
  [("block_offset, block_row_id", "block index", S+"block_index.rs"), ("pos", "bytes written", S+"io/default_block_writer.rs")],
  ["bytes of <id>.dat, block index entries"], HOOK)

p("C13", "Block reads return the requested bytes, in request order",
  "A block writer's file is the concatenation of the blocks written and its position is their total length. Any batch of reads over a file, with ranges in any order, repeated, overlapping, empty or past 4 GiB, delivers one result per request in request order, each with the caller's tag and exactly the bytes of its range, and the reader's length is the file's length; streams polled concurrently do not affect each other. A reader keeps reading the file it was opened on, also after the file is removed, replaced by another or grown.",
  ["inputs", "schedules"],
  "every list of blocks, every list of ranges and tags, any number of concurrently polled streams over shared and cloned readers",
  "One test reads blocks back sequentially in file order, each once, on one stream.",
  [S+"io/mod.rs", S+"io/unix_disk_block_reader.rs", S+"io/default_block_writer.rs"],
  [("buffered ordered stream", S+"io/unix_disk_block_reader.rs read_blocks"), ("positional reads", S+"io/unix_disk_block_reader.rs read_block")],
  [("BLOCK_BUFFER_SIZE", "reads in flight", S+"io/unix_disk_block_reader.rs")],
  ["BlockReader::read_blocks stream, BlockReader::read_block, BlockReader::len"], HOOK)

p("C14", "Storage write failures are never silent",
  "If the operating system refuses to open a segment file or rejects any write to one (at any write, any byte offset, any error), some operation up to and including close returns an error: a segment whose close succeeded has both files complete. Partial and interrupted writes that the system may legally return change nothing in the resulting files.",
  ["fault_sequences", "histories"],
  "every position of an injected open/write failure (call index, byte budget, errno) and every pattern of short or interrupted writes, over generated segment-writing histories",
  "No test injects a fault.",
  [S+"io/default_block_writer.rs", S+"segment_writer.rs", S+"block_sink.rs"],
  [("write_all + flush", S+"io/default_block_writer.rs"), ("error propagation", S+"segment_writer.rs, "+S+"block_sink.rs")],
  [], ["Result of new/write/close, file bytes"], HOOK)

p("C15", "Read failures hit only the reads they belong to",
  "When reads fail (I/O error, range past the end of file, file truncated after open), every batch still yields one result per request in order: the affected requests yield an error carrying their own tag and all others yield their bytes and tag. Short and interrupted reads that the system may legally return never produce wrong or missing bytes.",
  ["fault_sequences", "inputs"],
  "every subset of failing requests, every error kind, every pattern of short or interrupted reads, every batch",
  "No test injects a read fault or reads past the end.",
  [S+"io/unix_disk_block_reader.rs", S+"io/mod.rs"],
  [("per-operation result", S+"io/unix_disk_block_reader.rs read_blocks"), ("read_exact_at", S+"io/unix_disk_block_reader.rs read_block")],
  [], ["items of the read_blocks stream"], HOOK)

p("C16", "Close makes bytes visible and sync makes them durable",
  "When close reports success, every byte of both segment files has reached the operating system, so another process reading them sees the complete segment however slow the writes were. When sync reports success every one of those bytes was forced to stable storage after being written, and if forcing either file fails sync reports an error.",
  ["crash_points", "fault_sequences", "schedules"],
  "every segment history, every delay of background writes, a crash at any point after sync returns, every failing force-to-storage call",
  "The pipeline test calls close and sync on a healthy file system and looks at nothing; lost buffered data would not show.",
  [S+"io/default_block_writer.rs", S+"segment_writer.rs"],
  [("flush both writers", S+"segment_writer.rs close()"), ("sync_all both files", S+"segment_writer.rs sync()")],
  [], ["file contents as close returns; order of write/fsync calls per file"], HOOK)

p("C17", "A failing block sink fails the write",
  "If the destination rejects any block, the encode or flush call that was emitting it returns that error; blocks accepted before it are a correct prefix of the blocks a healthy run emits. With no rejection, encode and flush succeed.",
  ["fault_sequences", "inputs"],
  "every position of the failing block, every row sequence and batching, fixed-width and binary columns",
  "No test uses a sink that fails.",
  [S+"encoding/raw/primitive_enc.rs", S+"encoding/raw/binary_enc.rs", S+"encoding/mod.rs"],
  [("? on write_block", "write_block()/write_remaining() of both raw encoders")],
  [], ["Result of encode/flush"], HOOK)

p("C18", "Encodings are either honoured or refused",
  "For every column type and every encoding in the schema, asking for a column encoder or a segment column either fails with an error or yields a writer whose output holds all rows and whose recorded layout names that encoding. A refused column leaves no trace: the segment stays usable and its files and metadata are as if the column had never been requested.",
  ["configurations", "histories"],
  "every (type, encoding) pair, with generated rows, and every history mixing refused and accepted columns in one segment",
  "Tests only ever ask for raw encoders.",
  [S+"encoding/mod.rs", S+"encoding/snappy/snappy_enc.rs", S+"segment_writer.rs"],
  [("encoder factories", S+"encoding/mod.rs"), ("layout returned by flush", "BlockEncoder::flush")],
  [], ["Result of new_*_encoder/new_binary_column_writer, emitted blocks, metadata"], HOOK)

p("C19", "Start-up configuration is taken exactly as given",
  "For every combination of command-line flags and environment variables, the effective data directory, gossip port and seed list are those given, with flags winning over environment and environment over defaults; the seed list is the comma-separated entries, trimmed, in order, without blank ones. Missing, malformed or out-of-range settings stop the process with a failure status before the server starts.",
  ["configurations", "inputs"],
  "every combination of present/absent/invalid flags and environment variables and every value string",
  "No test runs the binary or parses an argument.",
  ["src/main.rs", "src/server/mod.rs"],
  [("argument definitions", "src/main.rs Args"), ("config construction", "src/main.rs main()")],
  [], ["exit status, stdout, effective Config"], "cfg(meerkat_verif): the binary prints the effective Config (src/main.rs)")

p("C20", "Sizes beyond 32 bits are refused, never wrapped",
  "A binary buffer holds up to 4 GiB - 1 bytes; an append or copy that would exceed that panics rather than storing wrapped offsets. A column accepts up to 2^32 - 1 rows; the block that would exceed that is refused with a panic rather than being given a wrapped row label.",
  ["inputs", "histories"],
  "every sequence of append sizes or row batches whose total crosses the 32-bit limits",
  "No test comes near the limits (gigabytes of data).",
  [S+"indexing_buffer.rs", S+"encoding/raw/primitive_enc.rs", S+"encoding/raw/binary_enc.rs"],
  [("checked conversions", S+"indexing_buffer.rs BinaryBuffer::append, append_from"), ("checked row counter", "add_rows() of both raw encoders")],
  [("offsets: u32", "item ends", S+"indexing_buffer.rs"), ("num_rows: u32", "row counter", "raw encoders")],
  ["panic or success of append/append_from/encode"], HOOK)

p("C21", "Segments written side by side do not affect each other",
  "When several segments are written at the same time, interleaved in any order on one thread or concurrently on several, each one's data file is byte for byte the file the same history produces alone, and its index file decodes to the same metadata. Writing the same history twice gives the same data file.",
  ["schedules", "histories"],
  "every set of segment histories, every interleaving of their operations, every thread schedule sampled",
  "The only segment test writes one segment.",
  [S+"segment_writer.rs", S+"io/default_block_writer.rs", S+"block_sink.rs"],
  [("per-segment state only", S+"segment_writer.rs SegmentWriter")],
  [], ["bytes of the segment files"], HOOK)

p("C22", "An unanswered disk call holds up nothing else",
  "While any one open, write, sync or read of a segment writer or block reader gets no answer from the operating system, every other task on the same executor, even one with a single thread, keeps running, and segments and readers of other files complete their own work. When the answer comes, the call that waited ends as if it had never been slow.",
  ["fault_sequences", "schedules", "histories"],
  "every segment history and read batch, every system call in it being the one that stalls, every other work done meanwhile",
  "The tests run on a disk that answers at once; a call made on the executor's own thread instead of a blocking thread passes all of them.",
  [S+"io/default_block_writer.rs", S+"io/unix_disk_block_reader.rs", S+"segment_writer.rs"],
  [("reads run on blocking threads", S+"io/unix_disk_block_reader.rs read_blocks"), ("writes and syncs through tokio::fs", S+"io/default_block_writer.rs")],
  [], ["completion of other futures while a system call is held"], HOOK)

p("C23", "Reading ahead is bounded",
  "However many blocks one read_blocks call asks for, the reader asks the operating system for a block at most 32 blocks before its result is taken (it is built to keep 2 in flight), so the memory of an unread batch does not grow with the batch. A stream that is dropped starts no further reads.",
  ["inputs", "schedules"],
  "every batch length and block size, every point at which the consumer pauses or drops the stream",
  "The reader test asks for a handful of blocks and takes all of them.",
  [S+"io/unix_disk_block_reader.rs", S+"io/mod.rs"],
  [("buffered stream", S+"io/unix_disk_block_reader.rs read_blocks, BLOCK_BUFFER_SIZE")],
  [], ["read system calls against results taken"], HOOK)

p("C24", "Files are released and never invented",
  "Once a segment writer or a reader with its streams has been dropped, at any point of its history and also after a failed open, write or sync, the process soon holds no descriptor of its files any more. Opening a missing file for reading fails and creates nothing.",
  ["histories", "fault_sequences"],
  "every segment history, finished or failing at any call, every reader, clone and partly taken batch",
  "Tests end with the process; a leaked descriptor is never noticed.",
  [S+"io/default_block_writer.rs", S+"io/unix_disk_block_reader.rs", S+"segment_writer.rs"],
  [("owned file handles", S+"io/default_block_writer.rs, "+S+"io/unix_disk_block_reader.rs")],
  [], ["/proc/self/fd"], HOOK)

p("C25", "Damaged validity data is refused, not misread",
  "For every byte string handed to the validity decoder: if it is a sequence of well-formed frames whose set bits are row numbers (below 2^32 - 1), exactly their positions are written to the destination, in order, and nothing after them. If a header or frame is cut short, a header or length is too large, a set bit lies at or past 2^32, or the destination has too little room, decoding stops with a panic instead of returning positions the input does not hold.",
  ["inputs"],
  "every byte string (well-formed, truncated, bit-flipped or arbitrary), every destination size",
  "The tests decode only what the encoder has just produced, at most 17 bytes.",
  [S+"encoding/bitmap_rle.rs", S+"encoding/varint.rs"],
  [("frame reader", S+"encoding/bitmap_rle.rs read_frame()"), ("position writer", S+"encoding/bitmap_rle.rs decode_run(), decode_byte()")],
  [("bitmap_pos", "row number of the next bit", S+"encoding/bitmap_rle.rs Decoder")], ["decode() result or panic"], HOOK)

p("C26", "Memory stays bounded",
  "After every write a column encoder, a block sink or a segment writer holds an amount of memory bounded by the block size, the largest batch written and the rows of the open block, however many rows were written before (apart from a few bytes of block index per block of the open column). A block reader whose delivered blocks are dropped keeps no more than a fixed amount (at most 8 MiB) of them, however many were read through it. Everything held is released when the writer or reader is dropped.",
  ["histories", "inputs"],
  "every length of history: rows, batches, blocks and columns written; blocks read, dropped or kept",
  "The tests write a few kilobytes and never look at memory; growth shows only over long histories.",
  [S+"encoding/raw/primitive_enc.rs", S+"encoding/raw/binary_enc.rs", S+"segment_writer.rs", S+"io/default_block_writer.rs", S+"io/unix_disk_block_reader.rs"],
  [("leftover rows", S+"encoding/raw/primitive_enc.rs, "+S+"encoding/raw/binary_enc.rs"), ("write-through block writer", S+"io/default_block_writer.rs write_block()"), ("bounded stream", S+"io/unix_disk_block_reader.rs BLOCK_BUFFER_SIZE")],
  [], ["bytes held by the process, counted by its allocator"], HOOK)

p("C27", "Segment files only grow",
  "From its creation to its end a segment file is at every moment a prefix of what it holds once closed: each change appends bytes, none is ever rewritten, moved or cut off, and no byte appears before those in front of it. So a process or writer that dies at any point leaves a prefix of the finished data file, and the index file of a segment that was never closed does not pass for a complete one.",
  ["histories", "crash_points"],
  "every segment history, every system call after which the process may die, every operation before or within which the writer may be dropped, with partial and interrupted writes",
  "The segment test closes one segment and looks at no file, let alone at one on the way there.",
  [S+"segment_writer.rs", S+"block_sink.rs", S+"io/default_block_writer.rs"],
  [("signatures first, metadata and footer last", S+"segment_writer.rs write_headers(), close()"), ("sequential writer", S+"io/default_block_writer.rs write_block()")],
  [("pos", "bytes given to the file so far", S+"io/default_block_writer.rs Writer")], ["the files' bytes after every system call"], HOOK)

p("C28", "The cost of a row does not grow with history",
  "Appending a row to a buffer, copying a value between buffers, clearing a buffer, encoding a batch, compressing and decoding a validity bit, adding a column to a segment and reading a block each take an amount of computation that depends on the row, batch or block at hand and the block size, not on how many rows, batches, blocks or columns came before it or how many are still to come: a history of n steps takes time proportional to n. Clearing a buffer costs no more than the largest batch it has held.",
  ["histories", "inputs"],
  "every length of history, every size of what came before, all row types and block sizes",
  "The tests handle a few kilobytes, where a quadratic step costs microseconds.",
  [S+"indexing_buffer.rs", S+"encoding/raw/primitive_enc.rs", S+"encoding/raw/binary_enc.rs", S+"encoding/bitmap_rle.rs", S+"segment_writer.rs", S+"io/unix_disk_block_reader.rs"],
  [("clear() back to the initial capacity", S+"indexing_buffer.rs Bitmap"), ("resumable positions in values and validity", S+"indexing_buffer.rs append_from(), "+S+"encoding/bitmap_rle.rs put_from()"), ("lazy request stream", S+"io/unix_disk_block_reader.rs read_blocks()")],
  [], ["CPU time of the calling thread"], HOOK)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
