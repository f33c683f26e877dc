#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text has one source)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Signature, delta, patch round trip reproduces the new file",
  "For any basis file and any new file, generating a signature of the basis, computing a delta of the new file against that signature and applying the delta to the same basis succeeds and reproduces the new file byte for byte. This holds for all four signature formats, every valid block length, every strong-sum length long enough to rule out chance collisions, a recommended-parameter signature, an empty or absent signature, and whichever of the streaming, pull and whole-file interfaces runs each step.",
  ["inputs", "configurations"], "all (basis, new) contents and sizes, signature format, block length, strong-sum length, interface, buffer sizes",
  "The tests round-trip a few dozen fixed small files through rdiff with a handful of block and buffer sizes; moved, repeated, colliding or >64 KB literal data, large blocks and unusual parameter combinations are hardly touched.",
  ["src/delta.c", "src/patch.c", "src/mksum.c", "src/readsums.c", "src/sumset.c", "src/emit.c", "src/whole.c"],
  [("greedy block scan with rolling checksum", "src/delta.c rs_delta_s_scan/rs_delta_s_flush"), ("strong-sum confirmation of every match", "src/sumset.c rs_signature_find_match"), ("patch interpreter", "src/patch.c")],
  ["bytes written by patch compared with the new file"])

p("C02", "Results do not depend on how the caller slices buffers; jobs make progress",
  "For every kind of job, feeding the input in arbitrary pieces, offering arbitrary amounts of output space (including none) and signalling end of input together with or after the last data yields exactly the result code and output bytes of a single call with ample buffers (for deltas made without a usable signature, the same reconstructed content). Each call only reads the offered input, only writes the offered output space, and reports consumption and production exactly through the buffer structure; data the job has not taken may be presented again at a different address. A job that is offered more input (or end of input) and more output space always advances and finishes: it never livelocks, never reports an internal error, and never reports being blocked while the input has ended and output space is left over (unless the caller's own basis callback is blocked).",
  ["inputs", "schedules"], "all splits of input and output into buffers, all timings of the end-of-input flag, all job kinds and parameters",
  "The rdiff tests only vary two fixed buffer sizes over a few files, always through the file adaptor that refills buffers in one regular pattern; zero-sized, one-byte and irregular schedules against the job interface are never tried.",
  ["src/scoop.c", "src/tube.c", "src/job.c", "src/delta.c", "src/patch.c", "src/mksum.c", "src/readsums.c"],
  [("internal accumulation of short input", "src/scoop.c rs_scoop_readahead/rs_scoop_input"), ("queued output", "src/tube.c rs_tube_catchup"), ("job loop and no-progress guard", "src/job.c rs_job_iter")],
  ["bytes and result codes of rs_job_iter() under generated schedules, next_in/avail_in/next_out/avail_out after each call"])

p("C03", "Signatures have exactly the documented contents",
  "A generated signature is exactly: the requested magic number, block length and strong-sum length as big-endian 32-bit integers, then for each consecutive block of the basis (the last may be short) its 32-bit weak sum and the first strong-sum-length bytes of its MD4 or 32-byte BLAKE2b hash, with ceil(size/block length) entries. Weak sums are the documented rollsum (character offset 31) or RabinKarp (seed 1, multiplier 0x08104225) value of that block, as older and other implementations of the format compute them.",
  ["inputs", "configurations"], "all basis contents and lengths, all four magics, all block and strong-sum lengths, all interfaces",
  "The tests compare a few golden signature files with a few block lengths; unrolled checksum loops, block-boundary tails and hash padding are reached at only a handful of lengths.",
  ["src/mksum.c", "src/rollsum.c", "src/rabinkarp.c", "src/mdfour.c", "src/blake2", "src/checksum.c", "src/netint.c"],
  [("block signature writer", "src/mksum.c rs_sig_do_block"), ("weak sums", "src/rollsum.c, src/rabinkarp.c"), ("strong sums", "src/checksum.c rs_calc_strong_sum")],
  ["signature bytes compared with an independent encoder"])

p("C04", "Every generated delta is a valid, self-contained delta file",
  "Every completed delta starts with the delta magic, consists only of documented literal and copy commands with positive lengths encoded big-endian with the documented parameter widths, and ends with exactly one end command followed by nothing. Every copy range lies inside the basis that was signed, and an independent decoder applied to the delta and the basis reconstructs the new file exactly.",
  ["inputs", "configurations"], "all (basis, new) pairs, parameters, buffer schedules",
  "The existing tests never look at delta bytes beyond one golden file and only feed them to librsync's own patch, so an encoder and a decoder that err together, or an encoding only librsync's patch tolerates, pass.",
  ["src/delta.c", "src/emit.c", "src/command.c", "src/netint.c"],
  [("command emission", "src/emit.c"), ("integer width choice", "src/netint.c rs_int_len")],
  ["delta bytes parsed by an independent decoder"])

p("C05", "Patch executes every valid delta exactly as the format specifies",
  "Given any delta that is valid by the documented format, not just those librsync itself emits - any mixture of immediate and 1/2/4/8-byte literals and of copies with any combination of parameter widths, including non-minimal widths, overlapping, repeated or out-of-order ranges - patch succeeds and outputs exactly the concatenation of the literal bytes and the referenced basis ranges. It stops at the end command.",
  ["inputs", "programs"], "all command sequences of the delta language, all basis contents, all buffer schedules",
  "The tests only apply deltas produced by the same build plus a few fixed ones; most of the 256 command bytes and width combinations are never executed.",
  ["src/patch.c", "src/prototab.c", "src/command.c", "src/netint.c"],
  [("command table", "src/prototab.c"), ("patch state machine", "src/patch.c")],
  ["patch output compared with a reference interpreter"])

p("C06", "Damaged, truncated or hostile deltas fail cleanly and bounded",
  "Whatever bytes are presented as a delta, patch terminates with a definite result, without crashing, reading or writing outside its buffers, or using memory in proportion to lengths the delta merely declares. A wrong magic number is reported as bad magic; an undefined command, a literal or copy of zero or negative length and a negative copy position are reported as corrupt; every proper prefix of a valid delta and every copy reaching past the end of the basis is reported as a failure, never as success. Output produced before the failure is a prefix of what the commands up to the damage specify.",
  ["inputs", "fault_sequences"], "all byte strings as deltas: every truncation point, mutation and crafted command, under any buffer schedule",
  "One shell test feeds a handful of fixed bad files; truncation at each byte, 64-bit lengths and damage in the middle of split commands are not covered.",
  ["src/patch.c", "src/prototab.c", "src/scoop.c", "src/tube.c", "src/fileutil.c"],
  [("length and position validation", "src/patch.c rs_patch_s_literal/rs_patch_s_copy"), ("end-of-input detection", "src/scoop.c, src/tube.c")],
  ["result code, output prefix, sanitizer reports, heap high-water mark"])

p("C07", "Damaged or hostile signatures are rejected or handled cleanly",
  "Whatever bytes are presented as a signature, loading terminates with a definite result without crashing or touching memory outside its buffers: an unknown magic is reported as bad magic, a block length below 1 or a strong-sum length that is negative or larger than the format allows is reported as an error, and input ending inside the header or inside a strong sum is reported as ended input. A signature that loads successfully, however implausible its sums, can be indexed, dumped, used to compute deltas and freed safely, and such a delta is still a well-formed delta that reproduces every literal region correctly.",
  ["inputs", "fault_sequences"], "all byte strings as signatures, then all new files against whatever loaded",
  "Tests load a few well-formed golden signatures plus a couple of fixed bad ones; hash-table behaviour under adversarial sums (equal, zero, extreme, duplicated) is not sampled.",
  ["src/readsums.c", "src/sumset.c", "src/hashtable.c", "src/hashtable.h"],
  [("header validation", "src/readsums.c, src/sumset.c rs_sig_args"), ("hash table", "src/hashtable.h")],
  ["result codes, sanitizer reports, delta parsed by independent decoder"])

p("C08", "Deltas exploit unchanged data and stay small",
  "Scanning left to right, whenever the next block-length bytes of the new file (or, at the end of the file, the remaining bytes) have sums equal to a block of the signature, at any byte offset and in any order, the delta copies them instead of sending them: the total literal bytes never exceed those of this greedy reference scan, and adjacent copies of consecutive basis ranges are merged into one command. With block lengths of 32 or more and a non-empty signature the delta never exceeds the size of the new file by more than 64 bytes plus 0.01%, an identical file costs only a few dozen bytes when its blocks are distinct, and encoded lengths and positions use the smallest width that fits.",
  ["inputs", "configurations"], "all (basis, new) pairs, formats, block lengths and buffer schedules",
  "A delta that silently degenerates to literals still round-trips, so the existing tests pass; only one fixed-size assertion on mutated files exists, for a few sizes.",
  ["src/delta.c", "src/sumset.c", "src/hashtable.h", "src/emit.c", "src/rollsum.h", "src/rabinkarp.h"],
  [("rolling search", "src/delta.c rs_delta_s_scan, rs_findmatch"), ("match coalescing", "src/delta.c rs_appendmatch"), ("literal batching", "src/delta.c rs_appendmiss")],
  ["decoded delta commands compared with a reference greedy matcher"])

p("C09", "Jobs are independent, cancellable and leak nothing",
  "Any number of jobs of any kinds may be created, advanced in any interleaving, and freed at any point - before the first call, while blocked, after success or after failure - without affecting the results of any other job, even from inside another job's callbacks, and without leaking or double-freeing memory. A loaded signature outlives the job that loaded it, may be used by any number of delta jobs in sequence or interleaved with unchanged results, and is released completely by the signature-free call, also when loading failed or was abandoned; freeing a signature-generation job releases everything it owned.",
  ["histories", "schedules"], "all histories of create / step / free / reuse operations over several live jobs and signatures",
  "Every existing test runs one job at a time to completion and exits; cancellation points, interleavings and leaks are not observed at all.",
  ["src/job.c", "src/sumset.c", "src/readsums.c", "src/mksum.c", "src/scoop.c"],
  [("per-job state, ownership flag", "src/job.c rs_job_new/rs_job_free"), ("deep free", "src/sumset.c rs_free_sumset")],
  ["outputs of each job compared with a solo run; live heap blocks after everything is freed; AddressSanitizer"])

p("C10", "The basis copy callback is driven strictly within its contract",
  "Patch only asks the basis callback for ranges the delta names: requests for one copy command are contiguous from its start, never exceed what is left of it or the free output space, and pass the opaque pointer unchanged. A callback may deliver fewer bytes than asked, deliver from its own buffer, or report being blocked any number of times, and the output is still exact; any error it returns ends the job with that same result and no bytes of that failed request are output.",
  ["inputs", "schedules", "fault_sequences"], "all deltas, all callback behaviours per call (full, partial, own buffer, blocked, error), all buffer schedules",
  "Tests only ever use the stdio callback on regular files, which always delivers in full and never blocks or fails.",
  ["src/patch.c", "src/fileutil.c", "src/job.c"],
  [("copy state", "src/patch.c rs_patch_s_copying")],
  ["log of callback arguments, patch output and result"])

p("C11", "Whole-file operations report every I/O failure",
  "If reading the input, reading or seeking the basis, or writing the output fails at any point, the whole-file signature, load, delta and patch calls return an error (an I/O error for a failed read, write or seek) or the failure is still visible when the caller closes the output; they never return success with missing, truncated or wrong output. Short reads and writes, pipes and other non-seekable inputs and leaving out the statistics argument do not change the result, and with no failure the calls succeed.",
  ["fault_sequences", "inputs"], "every byte position and call at which a read, write or seek can fail or be short, all buffer sizes",
  "No existing test injects an I/O error of any kind.",
  ["src/buf.c", "src/whole.c", "src/fileutil.c", "src/job.c"],
  [("file buffer adaptors", "src/buf.c rs_infilebuf_fill/rs_outfilebuf_drain"), ("drive loop", "src/job.c rs_job_drive")],
  ["return codes and output with custom stdio streams that fail at a generated point"])

p("C12", "Pull interface honours the callback protocol",
  "Driving a job through input and output callbacks gives exactly the output of the push interface, however much or little data each callback call supplies or accepts. The input callback is called only until it signals end of input, both callbacks get their own opaque pointer and the same job, everything produced has been offered to the output callback when the drive call returns success, and any non-success result from a callback ends the drive call at once with that result.",
  ["schedules", "fault_sequences", "inputs"], "all sequences of callback behaviours: sizes supplied and accepted, reuse of buffers, errors at any call",
  "The drive call is only exercised through the library's own file adaptor.",
  ["src/job.c", "src/buf.c", "src/whole.c"],
  [("drive loop", "src/job.c rs_job_drive")],
  ["callback log, output and result of rs_job_drive()"])

p("C13", "Statistics describe exactly what the job did",
  "On completion a job's statistics equal the true counts for its output: for delta and patch the number of literal and copy commands, the bytes each kind produced and the bytes spent on command headers; for signature generation and loading the number of blocks and the block length. Whole-file calls additionally report exactly the input and output bytes, and the same numbers appear in the formatted and logged text and in what rdiff shows with its statistics option. The match statistics logged for a signature count exactly the blocks matched by the deltas made with it.",
  ["inputs", "schedules"], "all operations, inputs, parameters and buffer schedules",
  "No test checks a statistics value; wrong counters would go unnoticed.",
  ["src/stats.c", "src/emit.c", "src/patch.c", "src/mksum.c", "src/readsums.c", "src/buf.c", "src/whole.c"],
  [("counters", "src/emit.c, src/patch.c, src/mksum.c, src/readsums.c, src/buf.c"), ("formatting", "src/stats.c")],
  ["rs_job_statistics(), stats arguments of whole-file calls, rs_format_stats() text compared with counts from independent decoding"])

p("C14", "Signature parameters are validated and recommended values are sound",
  "For every file size (known or unknown), magic, block length and strong-sum length, the parameter helper either returns success with a complete valid set - one of the four magics, a positive block length that fits the format, and a strong-sum length from 1 to the maximum for that hash - or an error, and it never alters values the caller set explicitly. Recommended values follow the documented rules: RabinKarp with BLAKE2, block length about the square root of the size with a floor of 256 (2048 if unknown), the maximum strong sum on request, and a minimum strong sum that is at least the documented safe minimum, capped at the maximum. Parameters it accepts are accepted by signature generation and the signature loads back; parameters it rejects are rejected without a crash.",
  ["inputs", "configurations"], "all 64-bit sizes including extremes, all magics, block lengths and strong-sum lengths including out-of-range values",
  "The unit test checks a dozen fixed argument tuples; the 64-bit size range, overflow edges and interaction of size with strong-sum length are not covered.",
  ["src/sumset.c", "src/util.c", "src/mksum.c", "src/whole.c"],
  [("argument rules", "src/sumset.c rs_sig_args"), ("integer sqrt and log2", "src/util.c")],
  ["returned values compared with an independent statement of the rules"])

p("C15", "MD4 digests are correct for any data and any chunking",
  "The one-shot and incremental MD4 functions return the RFC 1320 digest of the data for every length, including lengths around block boundaries and beyond 512 MB and 4 GB, and for every way of splitting the data into updates, including empty ones. Computing one digest never disturbs another.",
  ["inputs", "schedules"], "all messages, all splits into updates, interleaved contexts",
  "One test compares the RFC vectors in a single update; alignment, buffering tails and length-counter carries are not sampled.",
  ["src/mdfour.c", "src/mdfour.h"],
  [("block buffering and bit counter", "src/mdfour.c")],
  ["digest compared with an independent MD4"])

p("C16", "Text helpers are exact and never write past their buffers",
  "Hex encoding writes exactly two lower-case digits per byte plus a terminator; base64 encoding writes the standard unpadded encoding and decoding it in place returns exactly the original bytes and length, stopping at the first non-alphabet character. Formatting statistics into a buffer of any size writes at most that many bytes, terminated, and equals the full text truncated; every result code, known or not, has a non-empty description, and the documented result codes of the library have descriptions distinct from each other.",
  ["inputs"], "all byte strings and lengths, all buffer sizes, all statistics values, all result codes",
  "The hex and base64 helpers have no randomized tests and statistics formatting is never tested with small buffers.",
  ["src/hex.c", "src/base64.c", "src/stats.c", "src/msg.c"],
  [("encoders", "src/hex.c, src/base64.c"), ("bounded formatting", "src/stats.c rs_format_stats")],
  ["returned strings and guard bytes around the buffers"])

p("C17", "rdiff round-trips files regardless of options and plumbing",
  "The rdiff command's signature, delta and patch steps recreate the new file exactly for any file contents and any combination of hash, rollsum, block-size, sum-size, buffer-size, statistics and force options, with files, pipes, '-' or omitted names as input and output. Buffer-size options and plumbing never change any output byte, options select exactly the format they name, and the files are byte-identical to those the library interface produces for the same parameters.",
  ["inputs", "configurations"], "all file contents, option combinations and input/output plumbing",
  "The shell tests run a fixed list of buffer sizes and a couple of hash options over a few files and never compare pipe plumbing or library output.",
  ["src/rdiff.c", "src/whole.c", "src/buf.c", "src/fileutil.c", "src/isprefix.c"],
  [("option handling", "src/rdiff.c")],
  ["rdiff output files and exit status"])

p("C18", "rdiff never loses data silently and reports failure in its exit status",
  "rdiff exits 0 only if the requested output was completely written; a missing or unreadable input, bad option or argument, damaged signature or delta, basis that is too short, or an output that cannot be opened or written in full (for instance a full disk) gives a non-zero exit and a message on standard error. Without the force option it never overwrites or truncates an existing output file, and it never modifies an input file unless that same file is also named as the output. (A signature that ends inside a weak sum counts as ending before it.)",
  ["fault_sequences", "inputs", "configurations"], "all failing and succeeding invocations: which step, which input damaged or missing, which output unwritable, force or not",
  "Tests check a few error exits; write failures, permission combinations and preservation of existing files across all commands are not covered.",
  ["src/rdiff.c", "src/fileutil.c", "src/whole.c"],
  [("exit status from result code", "src/rdiff.c main"), ("overwrite guard", "src/fileutil.c rs_file_open")],
  ["exit status, stderr, contents of all files before and after"])

p("C19", "Sizes and offsets beyond 2 GB and 4 GB are handled exactly",
  "Nothing is truncated to 32 bits: copy positions and lengths up to 2^63-1 in deltas, literals longer than 4 GB, basis files and inputs larger than 4 GB, matches at basis offsets beyond 2 GB and 4 GB, merged copies longer than 4 GB and single buffers larger than 2 GB are read, encoded, executed and counted exactly.",
  ["inputs"], "all values of positions, lengths and totals across the 2^31, 2^32 and larger boundaries, at every place a size is carried",
  "Tests never exceed a few hundred kilobytes.",
  ["src/patch.c", "src/delta.c", "src/emit.c", "src/netint.c", "src/sumset.c", "src/fileutil.c", "src/buf.c"],
  [("64-bit rs_long_t and size_t throughout", "src/librsync.h, src/netint.c, src/emit.c")],
  ["encoded commands, callback positions, statistics, virtual multi-gigabyte streams and sparse files"])

p("C20", "Logging is filtered, routed, bounded and free of side effects",
  "Messages less important than the configured level never reach the trace callback, messages at or above it go only to the currently configured callback (or nowhere if none), each as one complete terminated line with a valid severity, and failures produce an error-level message and successes none, and debug messages exist exactly when the library says it supports them. Trace level and destination never change any result or output byte, and dumping a signature logs its parameters and one line per block, in order, with exactly that block's strong sum and its weak sum as stored.",
  ["configurations", "inputs", "histories"], "all log levels, callbacks and changes of them between steps, all operations succeeding or failing, traced and untraced builds",
  "Trace output is never examined by the tests, and the debug-trace build is not what they run.",
  ["src/trace.c", "src/trace.h", "src/sumset.c", "src/stats.c", "src/hex.c"],
  [("level filter and callback", "src/trace.c rs_log_va"), ("signature dump", "src/sumset.c rs_sumset_dump")],
  ["captured log messages, outputs with and without logging"])

p("C21", "Independent jobs may run concurrently in different threads",
  "Threads that each use their own jobs, signatures, digests and buffers run concurrently without data races and each obtains exactly the results it would obtain alone.",
  ["schedules", "inputs"], "all interleavings of threads running independent signature, load, delta, patch and digest operations",
  "All existing tests are single-threaded.",
  ["src/job.c", "src/sumset.c", "src/mdfour.c", "src/checksum.c", "src/util.c", "src/blake2"],
  [("no mutable global state in the engine", "src/*.c")],
  ["ThreadSanitizer reports and per-thread outputs"])

p("C22", "Matches are decided by the stored sums alone, exactly",
  "A delta copies a piece of the new file from a basis block only if the piece's weak sum and the stored leading bytes of its strong sum both equal that block's entry in the signature, for every strong-sum length from 1 to the maximum; data whose weak sum collides but whose strong sum differs is never copied. Conversely an equal entry is found whatever other entries collide with it or share its hash bucket, and when several blocks have equal sums any delta using one of them is accepted but the choice is the same on every run.",
  ["inputs", "configurations"], "all signatures (including synthesized ones) and new files, with crafted weak-sum collisions, extreme sums and truncated strong sums",
  "Random test data never collides in 32-bit sums, so strong-sum comparison, truncation and hash-table probing are effectively untested.",
  ["src/sumset.c", "src/hashtable.h", "src/hashtable.c", "src/checksum.c", "src/checksum.h"],
  [("hash table probe and bloom filter", "src/hashtable.h"), ("truncated strong-sum comparison", "src/sumset.c rs_block_match_cmp")],
  ["decoded copy commands checked against the signature entries they rely on"])

p("C23", "File helpers report sizes and deliver basis bytes exactly",
  "The stdio copy callback delivers exactly the bytes of the file at the requested 64-bit position, a short count only at end of file (or where a later part could not be read), an ended-input error at or past the end and an I/O error when the read or seek fails, in any order of requests. The size helper returns the exact size of a regular file and -1 for anything else; opening for writing without force refuses an existing file and leaves it untouched whatever its permissions, with force truncates it, '-' or no name means the standard streams, and closing reports data that could not be written and never closes the standard streams.",
  ["inputs", "histories", "fault_sequences"], "all sequences of position/length requests, all file kinds and permissions, all modes",
  "The helpers are only used indirectly by rdiff tests on small readable regular files.",
  ["src/fileutil.c"],
  [("seek and read", "src/fileutil.c rs_file_copy_cb"), ("existence check", "src/fileutil.c rs_file_open")],
  ["returned data, codes and file contents"])

p("C24", "Memory use is bounded by blocks and buffers, not by the streams",
  "Generating a signature, generating a delta and applying a delta hold at any time no more memory than a small multiple of the block length, the largest delta command and the buffers offered or configured, however long the input and output are, however slowly output space is provided, and whatever lengths a delta or signature merely declares. Loading and indexing a signature takes memory proportional to the number of blocks it actually contains.",
  ["inputs", "schedules", "configurations"], "all stream contents and lengths, all slicings of input and output, all block lengths, declared sizes without the data behind them",
  "Tests use small files and never look at memory; data retained a little too long works on every test input.",
  ["src/scoop.c", "src/delta.c", "src/patch.c", "src/sumset.c", "src/whole.c", "src/buf.c", "src/tube.c"],
  [("read-ahead buffer", "src/scoop.c rs_scoop_input"), ("literals flushed at MAX_MISS_LEN", "src/delta.c rs_appendmiss"), ("room for blocks", "src/sumset.c rs_signature_init, rs_signature_add_block"), ("whole-file buffers", "src/whole.c")],
  ["peak of the library's live heap during generated operations"])

p("C25", "Whole-file calls work from where the streams are and leave them usable",
  "The whole-file calls read their input from the stream's current position to its end, write their output at the output stream's current position in order with whatever the caller wrote before and writes afterwards, without disturbing anything else in that file, and read the basis by absolute position wherever that stream happens to be. The result is the same as for the same data alone at the start of a file. No stream is closed or damaged, whether the call succeeds or fails: each can be repositioned, read and written again, also by further whole-file calls.",
  ["inputs", "histories", "configurations"], "all positions, stream modes and buffering, memory streams and real files, chains of calls on the same streams",
  "Tests and rdiff always pass freshly opened files at their start and close them right away.",
  ["src/whole.c", "src/buf.c", "src/fileutil.c"],
  [("file buffers", "src/buf.c rs_infilebuf_fill, rs_outfilebuf_drain"), ("size helper", "src/fileutil.c rs_file_size"), ("basis reads", "src/fileutil.c rs_file_copy_cb"), ("whole-file calls", "src/whole.c")],
  ["results, stream positions and file contents"])

p("C26", "Work grows linearly with the data",
  "The work done for a signature, delta or patch grows linearly with the bytes read and written plus a constant per call, however input and output are sliced, whatever the block length and however many blocks the signature has, apart from one strong sum of a block for every position whose weak sum equals that of a block. Loading and indexing a signature is linear in its number of blocks, also for equal blocks and for rolling sums that differ only in few bits; it never degenerates to quadratic scanning, copying, growing or probing.",
  ["inputs", "schedules", "configurations"], "all stream contents and lengths, all slicings, block lengths up to beyond the input, signatures of many equal, consecutive or clustered sums",
  "Tests are too small to notice quadratic behaviour and measure nothing.",
  ["src/scoop.c", "src/delta.c", "src/sumset.c", "src/hashtable.h", "src/hashtable.c", "src/tube.c", "src/checksum.h", "src/mksum.c"],
  [("rolling the weak sum", "src/delta.c rs_delta_s_scan"), ("moving the read-ahead", "src/scoop.c"), ("hash mixing, probing and no duplicates", "src/hashtable.h, src/sumset.c rs_build_hash_table"), ("growth of the block array", "src/sumset.c rs_signature_add_block")],
  ["executed control-flow edges, bytes moved and allocated inside the library"])

p("C27", "Running out of memory never corrupts, misleads or leaks",
  "Whichever memory requests are refused while a signature, load, index, delta or patch operation runs, the operation never reports success with a wrong or incomplete result and never touches memory it does not own: it succeeds with the right result, returns an error, or stops the process after logging a critical message. Indexing a signature then reports the lack of memory, leaks nothing and leaves the signature unchanged, so that indexing it again later works.",
  ["fault_sequences", "inputs"], "all subsets of failing allocations (one, all from some point on, all above a size) in all operations, inputs and schedules",
  "Allocations never fail in the tests, so none of the paths that handle a refusal is ever executed.",
  ["src/util.c", "src/hashtable.c", "src/sumset.c", "src/scoop.c", "src/job.c", "src/buf.c"],
  [("fatal allocation wrappers", "src/util.c rs_alloc, rs_alloc_struct0, rs_realloc"), ("partial table released", "src/hashtable.c _hashtable_new"), ("indexing result", "src/sumset.c rs_build_hash_table")],
  ["result codes, outputs, live heap blocks, AddressSanitizer and exit status with injected allocation failures"])

p("C28", "Results depend on nothing but the arguments",
  "Repeating a call with equal data and settings gives the same result code, output bytes, statistics (apart from times) and log messages, whatever fresh heap memory and the stack contain, whatever addresses the allocator hands out, and whatever errno, locale and environment are.",
  ["inputs", "histories", "configurations"], "all operations and helper functions, inputs and schedules; all earlier contents of heap and stack",
  "Tests run each call once in a fresh process whose memory happens to be zero.",
  ["src/util.c", "src/job.c", "src/sumset.c", "src/checksum.c", "src/mdfour.c", "src/scoop.c", "src/hashtable.c", "src/stats.c"],
  [("zeroed structures", "src/util.c rs_alloc_struct0"), ("uninitialised sums and buffers", "src/checksum.c, src/mksum.c, src/emit.c")],
  ["complete results of the same call under different memory contents and environments"])

p("C29", "Jobs pass on everything their input determines",
  "A job that waits for more input while output space is left has written all that the input supplied so far determines: a signature job every complete block, a signature-less delta job every byte, a patch job every byte its commands and literal data produce, a delta job every command that ends at least about two blocks and two maximal commands before the end of the supplied input. A patch is complete as soon as its end command has been supplied, without an end of input, and bytes after it are not consumed.",
  ["inputs", "schedules"], "all inputs, all ways to slice and pause them, all output spaces",
  "Tests only look at the complete output after the end of input, so data held back until then is invisible, while a peer waiting for it would deadlock.",
  ["src/patch.c", "src/delta.c", "src/mksum.c", "src/tube.c", "src/scoop.c", "src/job.c"],
  [("partial literals and copies", "src/tube.c, src/patch.c"), ("emitting block sums", "src/mksum.c"), ("flushing misses", "src/delta.c rs_appendmiss"), ("end command", "src/patch.c rs_patch_s_run")],
  ["output length and content after every call compared with the reference for the input supplied so far"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
