"""The properties, in one table (tools/meta.py turns it into properties.jsonl and MANIFEST.json)."""
ABS = "abstract interpretation of the compiler's MIR (linear relations + bit-level domain, loops to a fixpoint)"
EFF = "call-graph effect analysis over the compiler's MIR and resolved callees"
NOTE_ABS = ("Sound up to the hand-written models of std/external calls and the MIR the compiler emits for the current tree; inputs are "
            "unbounded symbols, so a proved obligation holds for all of them. What cannot be followed is recorded as undecided in the evidence and is not claimed.")

COMMON, READER, DECODER, WRITER, ENCODER, MERGER, VCDIFF = ("smdiff-%s/src/lib.rs" % x for x in
    ("common", "reader", "decoder", "writer", "encoder", "merger", "vcdiff"))

PROPS = [
dict(id="C01", title="The library contains no unsafe code",
     statement="Every library crate of the workspace is written in safe Rust only: no unsafe blocks, unsafe functions, unsafe impls, raw-pointer dereferences, FFI declarations, inline assembly or mutable statics. Memory safety on hostile patch bytes therefore never depends on this code's own arithmetic.",
     over=["inputs", "programs"], text="every input to and every caller of the seven library crates",
     why="A test run only visits the inputs it samples; absence of unsafe operations is a fact about all code, reached or not.",
     files=[COMMON, READER, DECODER, WRITER, ENCODER, MERGER, VCDIFF], mech=[("safe Rust throughout", "all crates")],
     tech="query over HIR/MIR of every function of every library crate", level="proof",
     note="Decided over every function body the compiler produces for the library crates; trusts rustc's own safety checker and dependencies."),
dict(id="C02", title="The only side effects are on the caller's readers and writers",
     statement="No library operation touches anything but the values and streams it is given: nothing is printed to stdout or stderr, no file, environment variable, process, thread or socket is opened or changed, and no process-wide state is kept. Embedding applications see output only through the writers they pass in.",
     over=["inputs", "programs"], text="every public operation on every input, on every path, including error paths",
     why="A test observes return values; a stray print or file access on a rarely taken path changes none of them.",
     files=[COMMON, READER, DECODER, WRITER, ENCODER, MERGER, VCDIFF], mech=[("all I/O goes through Read/Seek/Write parameters", "every crate")],
     tech=EFF, level="proof",
     note="Every call instruction of every library function is resolved and compared against the list of effectful std APIs; generic Read/Write/Seek calls on the caller's values are the permitted ones. Dependencies (brotli, zstd) are trusted."),
dict(id="C03", title="Encoding, merging and conversion are deterministic",
     statement="The same inputs and options always give the same output bytes: no result depends on time, randomness, thread scheduling, addresses, the iteration order of hashed collections, or state left by an earlier call.",
     over=["inputs", "programs", "schedules", "histories"], text="every pair of runs of the same operation on the same inputs",
     why="Two runs in one test process often agree by luck; dependence on hash seeds, the clock or addresses shows only sometimes.",
     files=[ENCODER, MERGER, VCDIFF, WRITER, DECODER], mech=[("no hashed-collection iteration, no clock-dependent branch", "every crate")],
     tech=EFF + " with taint of clock values", level="proof",
     note="Sources of nondeterminism are enumerated (clock, randomness, hash iteration, addresses, threads, statics) and each use must not flow anywhere; trusts std and dependencies to be deterministic."),
dict(id="C05", title="Reading and applying a patch never panics",
     statement="Whatever bytes a patch contains and whatever the patch, source and sink report, reading it (headers, sections, operations, section iterators of the reader and the decoder) and applying it either succeeds, ends, or returns an error. It never panics: no overflow, out-of-range slice, failed unwrap or explicit panic is reachable.",
     over=["inputs", "histories"], text="all byte streams, all I/O outcomes, all states of a section iterator",
     why="Hostile or damaged patches are an unbounded set; a test can only feed a few of them.",
     files=[COMMON, READER, DECODER, "smdiff-decoder/src/reader.rs"],
     mech=[("read_section_header, read_section, read_ops_no_comp, read_op", READER), ("SectionIterator", READER), ("SectionIterator (with decompression)", "smdiff-decoder/src/reader.rs"), ("apply_patch, apply_ops", DECODER)],
     tech=ABS + "; every panic site is an obligation", level="proof", note=NOTE_ABS + " The caller's streams and the external decompressors are assumed not to panic."),
dict(id="C06", title="A patch's claims do not decide how much memory reading takes",
     statement="Reading or applying a patch never asks for memory on the strength of a number the patch merely claims: no single request exceeds what the largest section of the format takes (2^24-1 bytes), no stream is read to its end into memory, and while a section's operations are collected there are never more of them than bytes were read and the Add buffers held never outgrow the section's declared (and limited) output size. A few hostile bytes therefore cannot make a reader exhaust memory.",
     over=["inputs"], text="all byte streams, all I/O outcomes, all states of a section iterator",
     why="The harm needs a header whose claims the data never backs up; tests read patches that keep their promises.",
     files=[READER, DECODER, "smdiff-decoder/src/reader.rs"],
     mech=[("read_ops_no_comp, read_op", READER), ("SectionIterator", READER), ("SectionIterator (with decompression)", "smdiff-decoder/src/reader.rs"), ("apply_patch", DECODER)],
     tech=ABS + "; every request for memory and every collected operation is an obligation", level="proof",
     note=NOTE_ABS + " Copies of what is already held are proportional to it. The external decompressors' own buffers and how far nested patches expand are not bounded here."),
dict(id="C08", title="A section is delivered only if its operations account for its header",
     statement="Whenever reading delivers a section (read_section, the reader's and the decoder's section iterators), the number of operations equals the header's operation count, the sum of the operations' output lengths equals the header's output size, which is at most 2^24-1, and the sum of the Add lengths equals the header's add byte count. Anything else in the stream is an error, never a section that quietly disagrees with its header.",
     over=["inputs"], text="all byte streams offered to the readers, both formats, all compression tags",
     why="Consumers size buffers and positions from the header; only a damaged or crafted stream makes the two disagree, in unboundedly many ways.",
     files=[READER, "smdiff-decoder/src/reader.rs"],
     mech=[("read_ops_no_comp", READER), ("SectionIterator", READER), ("SectionIterator", "smdiff-decoder/src/reader.rs")],
     tech=ABS + " with sums over operation sequences as measured quantities", level="proof", note=NOTE_ABS),
dict(id="C10", title="Operations survive writing and reading, in the documented bytes",
     statement="For operations within the format's limits, reading what write_ops wrote yields the same operations in the same order, in both section formats, with every address restored from the running per-source deltas and every Add's bytes attached to the right operation. The bytes of each operation are fixed: type in the top two bits of the first byte (dictionary copy 0, output copy 1, Add 2, Run 3), sizes 1..=62 in its low six bits, 63 for one extra byte (size-62), 0 for a two byte little endian size; then the address delta, the run byte, or the Add's bytes (at the section's end in the segregated format).",
     over=["inputs"], text="lists of one, two and three arbitrary operations (all lengths, addresses, contents) in both formats, and every first byte on reading",
     why="The interplay of sizes, delta state across mixed sources and two layouts has far too many combinations for sampled round trips.",
     files=[WRITER, READER, COMMON],
     mech=[("write_ops", WRITER), ("read_ops_no_comp, read_op", READER), ("size_routine, diff_addresses", COMMON)],
     tech=ABS + " of the writer's bytes fed to the reader", level="proof", note=NOTE_ABS + " Lists longer than three operations are covered by the uniform per-operation step, not by induction."),
dict(id="C15", title="Splitting operations into sections loses and duplicates nothing",
     statement="make_sections splits a list of operations into consecutive sections that together are exactly the list: each section's header carries the number of its operations, their total output length and their total Add bytes; each section's output stays within the requested limit clamped to 65535..=2^24-1 whenever its operations allow; and all sections but the last, and only those, say that more sections follow.",
     over=["inputs"], text="every list of operations of 1..=65535 bytes, every limit",
     why="Boundary arithmetic (an operation that exactly fills, or just exceeds, a section) depends on the whole history of lengths.",
     files=[WRITER], mech=[("make_sections", WRITER)],
     tech=ABS + " with sums over operation sequences as measured quantities", level="proof", note=NOTE_ABS),
dict(id="C16", title="The operation writer refuses operations its header does not describe",
     statement="write_ops returns Ok only if the number of operations equals the header's count, their total output length stays within the section limit, in the segregated format the Add bytes add up to the header's add byte count, and no Add is longer than the format can express. Otherwise it returns an error: a successful write is never unreadable because of such a mismatch.",
     over=["inputs"], text="every list of operations and every header",
     why="A mismatch is only noticed by a later reader of that particular stream; tests write matching headers.",
     files=[WRITER], mech=[("write_ops", WRITER)],
     tech=ABS + " with sums over operation sequences as measured quantities", level="proof", note=NOTE_ABS),
dict(id="C11", title="Section headers survive writing and reading",
     statement="For every section header the writer accepts, reading back what it wrote gives the same compression algorithm, format, continuation flag, operation count, add-byte count and output size, and consumes exactly the bytes written. The bytes follow the documented layout: one control byte (format version, algorithm, format and continuation bits) followed by variable-length integers in fixed order, and values that cannot be represented are reported as errors instead of being truncated.",
     over=["inputs"], text="every header value (all 64-bit sizes and counts) and every byte stream offered to the header reader",
     why="Unit tests round-trip a few small headers; field mix-ups, bit overlaps and truncations depend on large or unusual values.",
     files=["smdiff-writer/src/lib.rs", "smdiff-reader/src/lib.rs", "smdiff-common/src/lib.rs"],
     mech=[("write_section_header", "smdiff-writer/src/lib.rs"), ("read_section_header", "smdiff-reader/src/lib.rs")],
     tech=ABS, level="proof", note=NOTE_ABS),
dict(id="C12", title="Variable-length integers and address deltas are lossless",
     statement="Every unsigned 64-bit value written as a variable-length integer reads back as itself using exactly the bytes written, signed values survive the zigzag mapping, and applying a written address delta to the same base address gives the original address for every pair of addresses below 2^63. Reading a variable-length integer from arbitrary bytes never panics and rejects encodings that do not fit in 64 bits, and computing or applying a delta never panics for any pair of values.",
     over=["inputs"], text="all 64-bit values, all address pairs, all byte streams",
     why="Edge values (7-bit boundaries, 2^63, sign changes, non-canonical encodings) are too many to list in unit tests.",
     files=["smdiff-common/src/lib.rs"],
     mech=[("read/write_u_varint", "smdiff-common/src/lib.rs"), ("read/write_i_varint, zigzag", "smdiff-common/src/lib.rs"), ("diff_addresses_to_i64 / apply delta", "smdiff-common/src/lib.rs")],
     tech=ABS, level="proof", note=NOTE_ABS),
dict(id="C07", title="Section iterators end exactly after the last section or first error",
     statement="A section iterator (the reader's and the decoder's, borrowed and owned items alike, in any mixture) yields sections until one that does not say more sections follow, then ends and never touches the stream again; after an error it ends as well; and it never ends while the last section said that more follow. A truncated patch is therefore always reported, and bytes behind a patch are never consumed as sections.",
     over=["inputs", "histories"], text="every stream and every state an iterator can be in, for each ordered pair of calls",
     why="Ending depends on the sequence of calls and on rare outcomes (errors, empty sections); tests loop over well-formed patches.",
     files=[READER, "smdiff-decoder/src/reader.rs"],
     mech=[("SectionIterator", READER), ("SectionIterator", "smdiff-decoder/src/reader.rs")],
     tech=ABS + "; typestate over pairs of calls from an arbitrary iterator state", level="proof", note=NOTE_ABS + " Header and operation reading are used by contract, which C05, C08 and C11 establish."),
dict(id="C13", title="Applying operations writes exactly the bytes they mean, in place",
     statement="When apply_patch succeeds, the sink holds, from position 0 and without gap or overlap, exactly the concatenation of what the operations mean in order, across all sections: an Add's bytes, a Run's byte repeated, the source's bytes at a dictionary copy's address, and for an output copy the output's bytes at its address as left by all earlier operations, self-overlapping with earlier sections included. A dictionary copy without a source is never a success.",
     over=["inputs", "histories"], text="section layouts of one to three arbitrary operations (every kind, address, length, content), for an arbitrary seekable sink and for an in-memory one",
     why="Stream positions left behind by earlier operations and sections decide where later ones read and write; tests use a handful of layouts.",
     files=[DECODER], mech=[("apply_patch, apply_ops", DECODER)],
     tech=ABS + " with symbolic stream contents and positions", level="proof", note=NOTE_ABS + " Longer lists repeat the same step from a position of the same form and are not proved by induction. The section iterator is used by contract (C07, C08)."),
dict(id="C14", title="A section's tag names its codec, and compressed bodies are used up",
     statement="The section writer writes each section's operations through exactly the codec its header's tag names (0 none, 1 a nested smdiff patch, 2 zstd, 3 brotli), finishes that codec, and tags a section it leaves uncompressed with 0. The decoder expands a section with the codec its tag names and delivers it only after seeing the expanded data end with the last operation; the plain reader delivers tag 0 only. No reader is ever left inside a section's body, so the next section is read from where it starts.",
     over=["inputs"], text="every header and operation list, every section of every byte stream, each compression setting",
     why="A mis-tagged or half-consumed body still reads correctly for most single-section patches; what goes wrong depends on the next section or on the codec's trailing bytes.",
     files=["smdiff-encoder/src/writer.rs", "smdiff-decoder/src/reader.rs", READER],
     mech=[("section_writer", "smdiff-encoder/src/writer.rs"), ("SectionIterator (with decompression)", "smdiff-decoder/src/reader.rs"), ("read_section, SectionIterator", READER)],
     tech=ABS + "; typestate of codec objects along every path", level="proof", note=NOTE_ABS + " Headers, operation lists and nested patches are used by contract (C05, C07, C08, C10, C11, C13, C16); the external codecs are trusted."),
dict(id="C17", title="Long literals, matches and runs are split losslessly and within limits",
     statement="When the encoder or the merger's transcoder turns a literal, a match or a run of any length into operations, those operations in order mean exactly that literal, match or run: nothing is lost, repeated or reordered, every operation is 1..=65535 bytes long (a Run 1..=62), a match's pieces continue each other in the same source, and an output copy used to extend a run refers only to bytes of that run already produced.",
     over=["inputs"], text="literals, matches and runs of every length up to 2^62",
     why="Chunking mistakes show only at or beyond particular lengths (65535, 372, their multiples), most of them larger than any test input.",
     files=["smdiff-encoder/src/op_maker.rs", "smdiff-merger/src/transcoder.rs"],
     mech=[("make_add_ops, make_copy_ops, make_run_ops", "smdiff-encoder/src/op_maker.rs"), ("make_add_ops, make_run_ops", "smdiff-merger/src/transcoder.rs")],
     tech=ABS + " with sums over operation sequences as measured quantities", level="proof", note=NOTE_ABS),
dict(id="C04", title="No reported failure is swallowed",
     statement="Whenever a reader, writer, seek, codec or an inner parsing step reports an error during a library operation (reading, applying, encoding, merging, transcoding, converting), that operation reports an error too: it never carries on to report success, and never treats the failure (an unexpected end of the data included) as a normal end. Only an interrupted read may be retried.",
     over=["inputs", "histories"], text="every call that can fail, at every point of every operation, in all crates",
     why="Failures are rare and positional: a test would have to make each single read or write of each operation fail in turn.",
     files=[COMMON, READER, DECODER, "smdiff-decoder/src/reader.rs", WRITER, ENCODER, "smdiff-encoder/src/writer.rs", MERGER, "smdiff-merger/src/transcoder.rs", VCDIFF],
     mech=[("every function that calls something fallible", "all crates")],
     tech=ABS + "; every path on which a call fails must end in an error of the caller", level="proof", note=NOTE_ABS + " Decided function by function: callers rely on their callees' results. Errors inside external crates are those crates' business. Failure paths through unmodelled adapters are recorded as undecided."),
dict(id="C21", title="Merging patches means applying them one after the other",
     statement="When merging succeeds, the resulting patch means the same as its inputs in turn: for every source on which applying the predecessors first and the terminal patch last succeeds, applying the merged operations to that source gives exactly the same output, whichever kinds of operations meet, wherever copies begin and end, however many patches are chained, and whether the result comes from finish or from a SummaryPatch. Merging fails only if reading a patch fails or if some copy reaches beyond what precedes it, and it never panics, whatever the patches contain.",
     over=["inputs", "histories"], text="chains of one to three patches of up to four operations (every kind; all lengths, addresses and contents), section boundaries included",
     why="A dictionary copy may begin and end anywhere in the predecessor's operations, themselves copies; tests merge a handful of aligned patches.",
     files=[MERGER], mech=[("Merger::new, merge, finish, SummaryPatch::take_ops", MERGER), ("extract_patch_instructions, get_exact_slice, try_deref_copy_o, expand_to", MERGER)],
     tech=ABS + "; the merged operations' meaning is compared with the inputs' meanings composed", level="proof",
     note=NOTE_ABS + " The shapes (kinds per patch) are enumerated up to a small length and are not an induction over all lists; lengths, addresses and bytes are arbitrary. The section iterator is used by contract (C07, C08)."),
dict(id="C23", title="A patch is called a summary exactly when it needs no dictionary",
     statement="Merger::new and merge return a SummaryPatch if and only if none of the resulting operations copies from the dictionary. A caller that stops merging at a SummaryPatch therefore never keeps a patch that still refers to a predecessor, and a Merger always has something left to resolve.",
     over=["inputs", "histories"], text="chains of one to three patches of up to three operations (every kind; all lengths, addresses and contents)",
     why="Whether a dictionary copy survives depends on which part of which predecessor operation each copy lands in.",
     files=[MERGER], mech=[("Merger::new, Merger::merge", MERGER)],
     tech=ABS + "; the kind of every remaining operation is decided on each path", level="proof",
     note=NOTE_ABS + " The shapes (kinds per patch) are enumerated up to a small length. The section iterator is used by contract (C07, C08)."),
dict(id="C24", title="A patch taken apart keeps its operations, positions and counts",
     statement="extract_patch_instructions returns every operation of every section that produces output, in order and unchanged, with an output position that is the sum of the lengths before it across all sections, and statistics that count exactly those operations: adds, runs, output copies and dictionary copies, their bytes, and the total output size. Every error of the section iterator is passed on.",
     over=["inputs"], text="patches of up to three sections of arbitrary operations (every kind; all lengths, addresses and contents, empty operations included); positions for any number of operations",
     why="Positions accumulate over sections and empty operations; statistics are public results that no operation of the library reads back.",
     files=[MERGER], mech=[("extract_patch_instructions", MERGER), ("Stats", MERGER)],
     tech=ABS + "; lists and counters compared with those of the operations delivered", level="proof",
     note=NOTE_ABS + " The shapes (kinds per section) are enumerated up to a small length. The section iterator is used by contract (C07, C08)."),
dict(id="C26", title="Rewriting a patch preserves its meaning",
     statement="transcode and SummaryPatch::write produce a patch in the requested format and compression that means exactly the operations they are given: joining adjacent operations, splitting long ones, dropping empty ones and dividing them into sections change neither the output nor its order, the section headers describe the operations written, and all sections but the last say that more follow.",
     over=["inputs"], text="lists of up to three operations (every kind; all lengths, addresses and contents), both formats, all options",
     why="Joining and splitting interact with lengths and addresses (continuing copies, equal run bytes, the length limits) in far more ways than a test lists.",
     files=[MERGER, "smdiff-merger/src/transcoder.rs"], mech=[("transcode, join_adjacent, make_*_ops", "smdiff-merger/src/transcoder.rs"), ("SummaryPatch::write", MERGER)],
     tech=ABS + "; the meaning of the operations handed to the section writer is compared with that of the input", level="proof",
     note=NOTE_ABS + " The shapes (kinds per list) are enumerated up to a small length. The section writer and readers are used by contract (C08, C10, C11, C14, C15, C16)."),
dict(id="C18", title="What the encoder writes about the target is all of the target",
     statement="The operations encode writes describe exactly the target it was given: from the matches and runs found in the target (sorted, possibly overlapping), translate_inner_ops makes operations that, one after the other, are the whole target's bytes, in order, nothing lost, doubled or shifted: an Add holds the target's next bytes, and every copy or run stays within a match or run found there, at the same distance from its start. encode searches the whole source and the whole target it was given, and hands exactly those operations to the section writer, under headers that describe them.",
     over=["inputs"], text="lists of up to three matches and runs (every kind; all positions, lengths and overlaps), every target",
     why="How matches overlap, touch or leave gaps depends on the data; tests encode a few files whose matches rarely meet at the edges.",
     files=["smdiff-encoder/src/op_maker.rs", ENCODER, "smdiff-encoder/src/writer.rs"], mech=[("translate_inner_ops", "smdiff-encoder/src/op_maker.rs"), ("encode", ENCODER)],
     tech=ABS + "; the resulting operations are compared with the target piece by piece", level="proof",
     note=NOTE_ABS + " The shapes (kinds of matches) are enumerated up to length three, each match at most 65535 bytes long; longer ones are C17's. That each match found is a true one is C19's for the searches, and assumed here."),
dict(id="C19", title="A match the encoder's searches report is a true one",
     statement="A match reported by the encoder's searches is byte for byte true and within both texts, whatever position the hash tables give for a hash: find_best_src_match's (position, bytes before, bytes after) lie within the source and the target on both sides and the bytes are the same; find_best_trgt_match's (start, length) repeats the bytes at the position being matched, ends within the target, and is over before the position it is used at, so that a decoder has already written it.",
     over=["inputs", "histories"], text="every source, target, position, hash table content (hash collisions, stale and arbitrary positions included) and configuration",
     why="Wrong lengths show only when a match meets the start or end of a text, or when two hashes collide; test files rarely do either.",
     files=["smdiff-encoder/src/src_matcher.rs", "smdiff-encoder/src/trgt_matcher.rs"], mech=[("find_best_src_match", "smdiff-encoder/src/src_matcher.rs"), ("find_best_trgt_match", "smdiff-encoder/src/trgt_matcher.rs")],
     tech=ABS + "; a ledger of compared ranges kept as a loop invariant", level="proof",
     note=NOTE_ABS + " What encode_inner does with the matches reported, and the runs it finds itself, are not claimed: its loop was followed only in part (see DESIGN.md)."),
]
NOT_CLAIMED = {}
