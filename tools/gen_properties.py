#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Header bytes are used only after their CRC-32 matched",
 "Opening an archive succeeds only if the 20-byte start header matches the CRC-32 stored in the signature header before any of its fields is used, and the next-header bytes match the CRC-32 stored in the start header before any of them is interpreted. The only exception is recovery mode, entered only when the stored start-header CRC is zero and the 20 start-header bytes are all zero. A bad signature or an unknown major version is an error.",
 ["inputs"], "every byte sequence offered as an archive, every corruption of the two headers",
 "tests open a handful of well-formed archives; no test feeds a header with a wrong CRC, and no finite set of corruptions covers the guard on every path",
 ["src/reader.rs"], [("CRC compare in start-header reading", "src/reader.rs: Archive::read, read_start_header"), ("CRC compare before parsing the next header", "src/reader.rs: init_archive")],
 observe=["Archive::read", "Archive::open", "SevenZReader::new"])

prop("C02", "Every recorded checksum is wired to a verifying reader",
 "For every entry that has data and a recorded CRC, the reader given to the caller verifies exactly that entry's size and CRC over exactly that entry's bytes; for every block with a recorded CRC, the decoded block stream verifies the block's unpacked size and CRC, including multi-stream (BCJ2) blocks and the compressed header. No further condition may switch verification off.",
 ["inputs", "configurations"], "every archive: solid or not, encrypted or not, with or without per-file and per-block CRCs, linear or BCJ2 coder graphs",
 "tests decode correct data only, so dropping or mis-wiring a verification step never fails a test",
 ["src/reader.rs"], [("verifying reader wrapped around entry, block and header decoders", "src/reader.rs: BlockDecoder::for_each_entries, build_decode_stack, build_decode_stack2, read_encoded_header")],
 observe=["SevenZReader::for_each_entries", "BlockDecoder::for_each_entries", "Archive::read"])

prop("C03", "A checksum-verified stream never ends well on wrong or short data",
 "While a checksummed stream is read, every byte handed to the caller has been added to the running CRC exactly once and counted exactly once. The read that completes the recorded size returns an error unless the CRC matches, and a stream that ends before the recorded size returns an error instead of a normal end of data.",
 ["inputs", "fault_sequences", "histories"], "every sequence of read sizes the caller and the inner reader can produce, every truncation point and every corruption",
 "tests read intact streams with one buffer size; truncated streams and arbitrary short-read patterns are not exercised",
 ["src/reader.rs"], [("CRC verifying reader", "src/reader.rs: Crc32VerifyingReader::read")],
 state=[("remaining", "bytes of the checksummed stream not yet returned", "src/reader.rs"), ("crc_digest", "CRC of the bytes returned so far", "src/reader.rs")],
 observe=["the reader passed to the for_each_entries callback"])

prop("C04", "An entry or packed-stream reader never crosses its own bounds",
 "The reader handed out for an entry yields at most that entry's size and takes no byte of the following entry from the block, whatever buffer sizes are used; its byte budget goes down by exactly what was returned. Packed-stream readers never deliver bytes from outside the packed stream's range in the file.",
 ["inputs", "histories"], "every buffer size and read pattern, every entry size and packed-stream range",
 "tests read each entry to the end with read_to_end; off-by-one budgets under other read patterns go unseen",
 ["src/reader.rs"], [("length-bounded reader", "src/reader.rs: BoundedReader::read"), ("range-bounded seekable reader", "src/reader.rs: SeekableBoundedReader::read")],
 state=[("remain", "bytes left for this entry", "src/reader.rs"), ("cur/bounds", "absolute position and range", "src/reader.rs")],
 observe=["the reader passed to the for_each_entries callback"])

prop("C05", "No I/O, codec or format error is swallowed",
 "Whenever an underlying read, write, flush, seek, file or codec operation fails while an archive is being read, extracted or written, the public operation in progress returns an error. No error result is discarded, replaced by a default, or turned into success anywhere in the library. (Optional time stamps taken from a source file's metadata while an entry is being described by from_path/create_archive_entry, which cannot fail, are best effort.)",
 ["fault_sequences", "inputs"], "every fallible call site, every point at which the underlying stream or codec can fail",
 "tests run on healthy files and in-memory buffers; no I/O fault is ever injected",
 ["src/", "lzma-rust/src/"], [("Result propagation at every call site", "all fallible calls in both crates")],
 observe=["every public function returning a Result"])

prop("C06", "Short reads and short writes never lose or invent data",
 "Every call that may transfer fewer bytes than requested has its returned count used to bound the data processed or to advance the position, or is the empty-buffer end-of-stream signal; data that must be transferred whole is read or written with an all-or-error operation. A source that returns one byte at a time yields the same archive and the same extracted data as one that returns everything at once.",
 ["inputs", "fault_sequences", "histories"], "every pattern of short reads and short writes by the caller's source or destination",
 "tests use files and slices, which never return short counts in the interesting places",
 ["src/", "lzma-rust/src/"], [("use of the count returned by Read::read / Write::write", "every such call site in both crates")],
 observe=["SevenZReader", "SevenZWriter", "LZMA readers and writers"])

prop("C07", "Extraction never writes outside the destination directory",
 "Whatever entry names an archive contains, the decompress functions only ever hand the extraction function paths made of the destination directory followed by ordinary name components. A name that is absolute, has a root or drive prefix, or contains a parent-directory component makes extraction fail with an error.",
 ["inputs"], "every entry name an archive can contain",
 "tests extract only benign archives made by the test itself",
 ["src/de_funcs.rs"], [("construction of the destination path from the entry name", "src/de_funcs.rs: decompress_impl")],
 observe=["decompress", "decompress_file", "decompress_with_extract_fn", "decompress_file_with_password"])

prop("C08", "Stream tables written are the ones the reader and 7z format expect",
 "For every set of blocks and entries, the packed-stream, coder/folder and sub-stream sections that are written follow the 7z header grammar, and the reader consumes exactly the same fields in the same order with the same count, presence and width rules. In particular the bit vectors, the defined CRCs, the n-1 sub-stream sizes and the omission of a single sub-stream's CRC agree on both sides.",
 ["inputs", "configurations", "histories"], "every sequence of pushed entries and blocks (solid, non-solid, empty, single-entry solid) and every codec chain",
 "round-trip tests cover a few small shapes; the disagreement between optional fields shows only for rare combinations such as a zero CRC or a one-entry solid block",
 ["src/writer/pack_info.rs", "src/writer/unpack_info.rs", "src/writer.rs", "src/reader.rs"],
 [("section writers", "src/writer/pack_info.rs, src/writer/unpack_info.rs"), ("section readers", "src/reader.rs: read_pack_info, read_unpack_info, read_folder, read_sub_streams_info")],
 observe=["SevenZWriter::finish then Archive::read"])

prop("C09", "Entry metadata is written and read back under the same tags",
 "Names, directory/empty/anti flags, creation, access and modification times and attributes are written under the 7z property tags with the presence vector and byte length that match the values that follow, and the reader stores each of them in the same entry attribute it was written from, for exactly the entries that have it. Presence vectors always cover every entry they describe.",
 ["inputs", "configurations"], "every combination of entries with and without streams, times, attributes and anti flags, and any number of entries",
 "tests write few entries that mostly carry the same metadata, so partial presence vectors, their byte length and the anti/empty cases are not reached",
 ["src/writer.rs", "src/reader.rs"], [("file-info property writers", "src/writer.rs: write_file_*"), ("file-info reader", "src/reader.rs: read_files_info")],
 observe=["SevenZWriter::finish then Archive::read"])

prop("C10", "The signature header is committed last and describes what was written",
 "The bytes at offset 0 that make the file an archive are written exactly once, in finish, after all packed data and the header were written successfully; creating a writer and pushing entries never writes there. The offset, size and CRC recorded in it are those of the header bytes actually written, and its own CRC covers exactly the 20 bytes that follow it.",
 ["crash_points", "fault_sequences"], "every point at which writing can fail or the process can stop",
 "tests never interrupt a write; an early signature or a stale size is invisible after a clean finish",
 ["src/writer.rs"], [("header placement and back-patching", "src/writer.rs: SevenZWriter::new, finish, write_encoded_header")],
 observe=["the output stream given to SevenZWriter"])

prop("C11", "With header encryption on, entry names never reach the output in clear",
 "If AES is among the writer's content methods and header encryption is enabled, the header that carries names and metadata is written only through the encrypting codec chain; no size-dependent or other fallback writes it unencrypted. The encryption key material for the header is the one configured for the content.",
 ["inputs", "configurations"], "every archive content and header size, every method configuration",
 "the encryption tests only check that extraction with the password works; leakage leaves them green",
 ["src/writer.rs"], [("choice between encoded and raw header", "src/writer.rs: write_encoded_header")],
 observe=["the output stream given to SevenZWriter"])

prop("C12", "AES: only ciphertext is output, one key derivation, password demanded",
 "The AES encoder passes on only encrypted blocks, including a final zero-padded one, and the encoder and decoder derive key and IV by the same procedure from the same property bytes, whose layout the decoder inverts; IV and salt come from a random generator for each option set. Encrypted data is never decoded, nor encrypted output produced, without a password: both sides report that a password is required.",
 ["inputs", "configurations", "histories"], "every password, plaintext length, write split and property block",
 "tests check one or two passwords and lengths; plaintext leakage, a constant IV or a derivation that drifts on both sides together stays green",
 ["src/aes256sha256.rs", "src/encoders.rs", "src/decoders.rs"], [("AES encoder and decoder", "src/aes256sha256.rs"), ("codec factories", "src/encoders.rs, src/decoders.rs")],
 observe=["SevenZWriter with AES", "SevenZReader with a password"])

prop("C13", "Recorded sizes and checksums are those of the bytes actually streamed",
 "The size and CRC recorded for every entry, sub-stream and block, and the packed size and packed CRC, come from counting the bytes that passed through the writer for exactly that entry or block, never from file metadata or caller-supplied fields. They are taken after the encoder chain has been finished, and an entry that got data is recorded as having data.",
 ["inputs", "histories", "fault_sequences"], "every entry content, including sources that grow, shrink or report a wrong size, and every order of pushes",
 "tests use static files whose metadata agrees with their content",
 ["src/writer.rs", "src/writer/seq_reader.rs"], [("measurement of sizes and CRCs", "src/writer.rs: push_archive_entry, push_archive_entries; src/writer/seq_reader.rs: SourceReader")],
 observe=["Archive::read of the written archive", "the entry returned by push_archive_entry"])

prop("C14", "Counting and checksumming adapters are transparent and exact",
 "Each byte-counting or checksumming writer and reader adapter forwards the caller's buffer unchanged to the stream it wraps, returns the count that stream reported, and adds exactly that count, and exactly those bytes, to its counter and checksum. A failed inner call changes neither.",
 ["inputs", "histories", "fault_sequences"], "every buffer size, short write or read and failure of the wrapped stream",
 "tests never drive these adapters with an inner stream that returns short counts or errors",
 ["src/writer.rs", "src/writer/seq_reader.rs", "lzma-rust/src/enc/counting.rs"],
 [("compressing-side counter and CRC", "src/writer.rs: CompressWrapWriter"), ("per-source counter and CRC", "src/writer/seq_reader.rs: SourceReader"), ("inter-codec counter", "lzma-rust/src/enc/counting.rs: CountingWriter")],
 observe=["sizes and CRCs in the written header"])

prop("C15", "Finishing a stream drains every stage of the encoder chain",
 "After an entry's or block's data, and after the header, the encoder chain receives the end-of-stream signal before any length or checksum is taken; on that signal every encoder emits all data it still buffers and its own end marker or padding, and then passes the signal on to the next stage. A failure in any stage is reported.",
 ["configurations", "inputs", "histories"], "every chain of content methods and every amount of data left in each stage's buffer",
 "tests use two chains; a stage that drops its tail only shows for particular lengths and orders",
 ["src/writer.rs", "src/aes256sha256.rs", "lzma-rust/src/enc/lzma2_writer.rs", "lzma-rust/src/enc/lzma_writer.rs", "src/encoders.rs"],
 [("empty write as end-of-stream signal", "Write::write of every encoder and adapter")],
 observe=["bytes written for each block"])

prop("C16", "The LZMA2 reader follows the chunk protocol for all 256 control bytes",
 "For every control byte the LZMA2 reader does exactly what the format prescribes: end of stream on 0, dictionary reset on 1 and 0xE0 and above, uncompressed chunk on 1 and 2, error on 3 to 0x7F, and state/property resets by the reset level for 0x80 and above. A stream whose first chunk does not reset the dictionary, or whose first compressed chunk does not set properties, is rejected, and invalid property bytes are errors. Every chunk yields exactly the size it states, and a compressed one must use up exactly its compressed bytes.",
 ["inputs", "histories"], "all 256 control bytes in every reachable reader state",
 "the encoder in this repository emits only a few of the control values, so tests see only those",
 ["lzma-rust/src/lzma2_reader.rs"], [("chunk header decoder", "lzma-rust/src/lzma2_reader.rs: decode_chunk_header, decode_props")],
 state=[("need_dict_reset", "no dictionary reset seen yet", "lzma-rust/src/lzma2_reader.rs"), ("need_props", "no properties seen since reset", "lzma-rust/src/lzma2_reader.rs")],
 observe=["LZMA2Reader::read"])

prop("C17", "LZMA encoder and decoder share one symbol grammar and model update",
 "For every symbol kind (literal, matched literal, match, short rep, long rep 0 to 3) the encoder emits the same sequence of modelled bits, with the same context selection, as the decoder consumes; both then apply the same state transition and the same rotation of the repeat distances. The bit-level coder uses the same probability adaptation and normalisation constants on both sides.",
 ["inputs", "histories"], "every symbol sequence and every model state",
 "round-trip tests sample a few inputs; rare symbols (rep2/rep3, long lengths, large distances) are not guaranteed to occur",
 ["lzma-rust/src/decoder.rs", "lzma-rust/src/enc/encoder.rs", "lzma-rust/src/range_dec.rs", "lzma-rust/src/enc/range_enc.rs", "lzma-rust/src/state.rs"],
 [("symbol decoder", "lzma-rust/src/decoder.rs"), ("symbol encoder", "lzma-rust/src/enc/encoder.rs"), ("range coder pair", "lzma-rust/src/range_dec.rs, lzma-rust/src/enc/range_enc.rs")],
 observe=["LZMAWriter/LZMA2Writer then LZMAReader/LZMA2Reader"])

prop("C18", "Back-references outside decoded data are rejected; unsafe copies stay in bounds",
 "The LZMA dictionary never copies from a distance that is not smaller than both the amount of data decoded so far and the dictionary size: such a reference is an error. Every raw-pointer copy in the library is dominated by checks that keep source and destination ranges inside their buffers.",
 ["inputs"], "every compressed stream, including hostile ones",
 "tests decode only valid streams, where out-of-range distances never occur",
 ["lzma-rust/src/lz/lz_decoder.rs", "lzma-rust/src/lz/lz_encoder.rs"], [("distance check and window copy", "lzma-rust/src/lz/lz_decoder.rs: repeat"), ("window move", "lzma-rust/src/lz/lz_encoder.rs: move_window")],
 observe=["LZMAReader::read", "LZMA2Reader::read", "LZMAWriter::write"])

prop("C19", "Codec identifiers, factories and property bytes form a consistent registry",
 "Every method constant carries its official 7z identifier, all identifiers are distinct and all are found by identifier lookup; every method the writer can encode is also decodable, with the property bytes written being the ones the decoder parses. Unknown or unsupported methods are rejected with an error naming the method, on reading and writing, and never treated as another codec.",
 ["configurations", "inputs"], "every method identifier and every method configuration",
 "tests use only LZMA, LZMA2, AES, BCJ/delta samples; the rest of the registry is never looked up",
 ["src/archive.rs", "src/decoders.rs", "src/encoders.rs", "README.md"], [("method table", "src/archive.rs: SevenZMethod"), ("codec factories", "src/decoders.rs: add_decoder, src/encoders.rs: add_encoder, get_options_as_properties")],
 observe=["SevenZMethod::by_id", "SevenZReader", "SevenZWriter"])

prop("C20", "64-bit sizes and offsets are never silently truncated",
 "No size, offset, position or count that the 7z format stores in 64 bits, and no number of bytes processed by a stream, is narrowed to fewer bits, masked or wrapped without a preceding check that it fits. Archives and entries larger than 4 GiB are handled like small ones.",
 ["inputs"], "all sizes and offsets up to 2^64-1",
 "tests cannot create multi-gigabyte archives",
 ["src/", "lzma-rust/src/"], [("integer casts on size values", "every narrowing conversion in both crates")],
 observe=["SevenZReader", "SevenZWriter", "LZMA readers and writers"])

prop("C21", "Malformed archives produce errors, not panics, while headers are parsed",
 "Opening an archive and building the decoder for a block never panic, whatever the header bytes are: every index, slice bound, subtraction, addition and unwrap whose operand comes from the file is preceded by a check that makes it safe, or reports an error.",
 ["inputs"], "every byte sequence that passes or bypasses the CRC check",
 "tests open valid archives only",
 ["src/reader.rs", "src/decoders.rs", "src/folder.rs", "src/aes256sha256.rs"], [("bounds and overflow checks on header-derived values", "src/reader.rs parsing functions, src/decoders.rs, src/folder.rs")],
 observe=["Archive::read", "SevenZReader::for_each_entries"])

prop("C22", "Memory reserved while parsing is bounded by the input size",
 "No allocation made while opening an archive is larger than a constant multiple of the bytes actually present in the file or header being parsed.",
 ["inputs"], "every header, including hostile counts and sizes",
 "tests open valid archives only", ["src/reader.rs"], [("vector sizing from header counts", "src/reader.rs")],
 observe=["Archive::read"])

prop("C23", "Misuse of writers, readers and block decoders does not compile",
 "A finished archive writer cannot be pushed to or finished again, the entry reader given to a callback cannot outlive the callback, and while a block decoder lives its source cannot be used by anyone else and its archive cannot be modified. Encoded and decoded streams own or exclusively borrow the stream they wrap, so no interleaved access type-checks.",
 ["programs"], "every program that uses the public API",
 "a test can only show programs that do compile",
 ["src/writer.rs", "src/reader.rs", "lzma-rust/src/"], [("consuming receivers and exclusive borrows in signatures", "SevenZWriter::finish, BlockDecoder::new, for_each_entries")],
 observe=["rustc"])

prop("C24", "Blocks of one archive can be decoded concurrently without interference",
 "Archive metadata can be shared between threads, and decoding a block only reads it: decoders share no mutable state with each other, hold no global or interior-mutable state and touch only the source they were given. Any interleaving of block decoders over separate sources yields what sequential decoding yields.",
 ["schedules"], "every interleaving of threads each decoding its own block from its own source handle",
 "the tests are single-threaded, and a race would show only under particular schedules",
 ["src/reader.rs", "src/archive.rs", "lzma-rust/src/"], [("absence of shared mutable state; Send+Sync archive", "types reachable from Archive and BlockDecoder")],
 observe=["BlockDecoder::for_each_entries on several threads"])

prop("C25", "Each entry is delivered exactly once and a stop request is honoured",
 "Iterating an archive calls the callback exactly once for every entry, entries with data in block order with their own data, entries without data with an empty reader. When the callback returns false or an error, iteration stops at once, no further callback is made, and the outcome is reported.",
 ["inputs", "histories"], "every arrangement of entries and blocks, including entries without data interleaved inside a block, and every point at which the callback stops",
 "tests use archives whose empty entries are not interleaved and callbacks that always continue",
 ["src/reader.rs"], [("entry iteration", "src/reader.rs: SevenZReader::for_each_entries, BlockDecoder::for_each_entries, entries, calculate_stream_map")],
 observe=["the for_each_entries callback"])

prop("C26", "Extracted files are complete before success, and times restored faithfully",
 "The default extraction function reports success for a file only after all its bytes were written and flushed without error, and it applies timestamps only after the last byte was written. It sets only those timestamps that the archive records for the entry, each to its own value.",
 ["fault_sequences", "inputs"], "every write failure (for example a full disk at the last block) and every combination of recorded times",
 "tests extract to a healthy disk and do not look at times",
 ["src/de_funcs.rs"], [("file writing and time restoration", "src/de_funcs.rs: default_entry_extract_fn")],
 observe=["files in the destination directory"])

prop("C27", "Solid compression opens each source file lazily, once, and reads it in order",
 "When a directory is compressed into a solid block, at most one source file is open at a time: a file is opened when its first byte is needed, closed at its end, never reopened, and the sources are read completely and in the order of their entries. Every collected path gets exactly one entry and exactly one source, in the same order, and blocks are cut only between files.",
 ["inputs", "histories"], "any number and size of source files",
 "tests compress a dozen small files, far below the descriptor limit and the 4 GiB block limit",
 ["src/writer/seq_reader.rs", "src/en_funcs.rs"], [("lazy file reader and sequential reader", "src/writer/seq_reader.rs"), ("block assembly", "src/en_funcs.rs: encode_path")],
 observe=["SevenZWriter::push_source_path"])

prop("C28", "Archive features the reader does not support are rejected, never misread",
 "External data references, additional streams, alternative methods, start-position records, multi-stream coders other than a BCJ2 main coder, and unexpected section terminators each produce an error. The reader never skips such a construct and continues as if it had understood it.",
 ["inputs"], "every archive using a format feature outside the supported subset",
 "tests contain no archives with unsupported features",
 ["src/reader.rs"], [("feature guards in header parsing and decoder construction", "src/reader.rs")],
 observe=["Archive::read", "SevenZReader::for_each_entries"])

prop("C29", "Compress-then-extract returns identical bytes for every input",
 "For every entry set, content and method chain the writer supports, extracting the written archive yields byte-identical contents.",
 ["inputs", "configurations"], "all inputs and method chains", "tests sample a few inputs",
 ["src/", "lzma-rust/src/"], [("the whole codec and container pipeline", "both crates")], observe=["SevenZWriter then SevenZReader"])

prop("C30", "Branch and delta filters apply the format's conversion at absolute positions",
 "The x86, ARM, ARM-Thumb, PowerPC and SPARC branch decoders and the delta decoder undo exactly the conversion the 7z format defines: an instruction is converted exactly when it has the format's opcode bits, its address field loses the absolute position of that instruction in the stream (the position runs on across reads and buffer refills), every other byte passes through unchanged and in order, and a delta byte is the sum of the stored byte and the byte `distance` places before it. None of this depends on how reads are split: bytes are handed out only once converted, what is not yet convertible stays buffered, and an unconverted tail is handed out only when the source has ended. (BCJ2 is a multi-stream coder and is not part of this property.)",
 ["inputs"], "all byte streams and read splits", "tests decode one sample per filter, in large reads",
 ["src/bcj/", "src/delta.rs"], [("conversion functions and the buffer around them", "src/bcj/arm.rs, src/bcj/ppc.rs, src/bcj/sparc.rs, src/bcj/x86.rs, src/bcj/mod.rs, src/delta.rs")], observe=["SevenZReader"])

prop("C31", "Every read and write call terminates",
 "Decoding or encoding any finite input finishes after a number of steps bounded by input and output size.",
 ["inputs"], "all inputs", "tests sample a few inputs", ["src/", "lzma-rust/src/"], [("loops in codecs and parsers", "both crates")], observe=["public API"])

prop("C32", "A failed push leaves the writer consistent",
 "When push_archive_entry or push_archive_entries returns an error, no entry, packed stream or block is recorded for it and the output is back at the position it had before the call, so entries pushed later and the finished archive remain readable. A successful push never moves the output backwards.",
 ["faults", "inputs"], "every push that fails at any read, compression or write step, followed by any further pushes",
 "no test makes a source or the output fail and goes on using the writer",
 ["src/writer.rs"], [("push functions and their error paths", "src/writer.rs")], observe=["SevenZWriter::push_archive_entry", "SevenZWriter::push_archive_entries"])

prop("C33", "Every block is decoded from its own packed streams by its own coder chain",
 "A block's decoder reads the packed streams its folder declares, at the position the preceding stream sizes give, bounded by their recorded sizes. Its coders are linked as the bind pairs say, each with its own properties and unpack size; a BCJ2 main coder gets its inputs in order. The compressed-header block is decoded the same way.",
 ["inputs"], "every folder layout: any number of blocks, of streams per block, of coders per chain and any order of bind pairs",
 "tests decode archives with one or two blocks, mostly of one stream and one coder each",
 ["src/reader.rs", "src/folder.rs", "src/archive.rs"], [("stream tables and decoder stack construction", "src/reader.rs: calculate_stream_map, build_decode_stack, build_decode_stack2, get_in_stream, read_encoded_header; src/folder.rs")],
 observe=["SevenZReader::for_each_entries", "BlockDecoder::for_each_entries"])

prop("C34", "LZMA2 output is a well-formed chunk sequence over a sufficient window",
 "Whatever data is written, in whatever pieces, LZMA2 output is a sequence of chunks whose headers state the sizes of what follows. The first chunk resets the dictionary unless a preset one is used, the first compressed chunk sets the properties, and a chunk's header announces a state reset exactly when the encoder's state was reset. Sizes fit their fields, every byte written belongs to exactly one chunk, in order, and one end marker follows. The window keeps the dictionary and every byte a pending chunk may still need.",
 ["inputs", "histories"], "any data, any sizes of the writes, any mixture of chunks that compress and chunks that do not, any dictionary size",
 "tests write a few small compressible files in one piece",
 ["lzma-rust/src/enc/lzma2_writer.rs", "lzma-rust/src/enc/encoder.rs", "lzma-rust/src/lz/lz_encoder.rs"], [("chunk writer, chunk limits and window", "lzma-rust/src/enc/lzma2_writer.rs; lzma-rust/src/enc/encoder.rs: encode_for_lzma2, LZMAEncoder::new; lzma-rust/src/lz/lz_encoder.rs: fill_window, move_window")],
 observe=["LZMA2Writer", "LZMA2Reader"])

prop("C35", "LZMA streams end exactly at their declared size or their end marker",
 "A raw LZMA or .lzma reader yields exactly the declared number of bytes when the size is known: never more, and fewer only with an error. When it is not known, it yields everything up to the end marker. An end marker in a stream of known size, a decoding error or an end inside a copy is an error, and nothing is decoded after the end. The window is never smaller than the declared dictionary, or than the data if that is less. The writer counts what it is given, refuses more or less than was declared, and ends the stream once, with an end marker exactly when asked for.",
 ["inputs", "histories"], "any stream, any declared size, any sizes of the caller's buffers and writes, sizes above 4 GiB",
 "tests read a few short streams with one buffer size",
 ["lzma-rust/src/lzma_reader.rs", "lzma-rust/src/enc/lzma_writer.rs"], [("read loop, constructors, write and finish", "lzma-rust/src/lzma_reader.rs: read_decode, construct2; lzma-rust/src/enc/lzma_writer.rs: write, finish")],
 observe=["LZMAReader", "LZMAWriter"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
