"""Which generators decide which property, on which builds, how many cases."""
WALL = dict(quick=100, thorough=1500)      # per shard, seconds (only ends a slow run early)
TOTAL = dict(quick=240, thorough=3000)
ASSUMPTIONS = ["the reference implementations in harness/ref.cpp state the documented formats correctly",
               "compilers, sanitizer runtimes and the C library are trusted"]
def J(sub, variant, quick, thorough, **kw):
    d = dict(sub=sub, variant=variant, quick=quick, thorough=thorough); d.update(kw); return d
PROPS = {
 "C01": dict(src=["props_core.cpp"],
   rule="random (format, block length, strong length, basis, edited new file, interface and buffer schedule per step); non-trivial: both files non-empty, a real signature, and the delta contains at least one copy",
   jobs=[J("small", "san", 8000, 300000), J("small", "rel", 16000, 600000), J("large", "rel", 2500, 60000), J("large", "san", 700, 16000), J("huge", "rel", 60, 2000), J("many", "rel", 48, 1500), J("small", "dbg", 800, 40000), J("small", "fuzz", 12000, 800000)]),
 "C03": dict(src=["props_core.cpp"],
   rule="random (format, block length, strong-sum length, contents, size near multiples of the block length, interface, schedule); output compared byte for byte with an independent encoder; non-trivial: non-empty basis",
   jobs=[J("small", "san", 10000, 300000), J("small", "rel", 20000, 800000), J("large", "rel", 2000, 60000), J("large", "san", 500, 16000), J("huge", "rel", 40, 1500), J("small", "dbg", 800, 40000)]),
 "C04": dict(src=["props_core.cpp"],
   rule="random basis, edited new file, parameters and schedule; delta parsed by an independent strict decoder and applied to the basis; non-trivial: at least two data commands",
   jobs=[J("small", "san", 8000, 300000), J("small", "rel", 20000, 600000), J("large", "rel", 2500, 60000), J("large", "san", 500, 16000), J("many", "rel", 48, 1500), J("small", "dbg", 800, 40000), J("small", "fuzz", 12000, 800000)]),
 "C05": dict(src=["props_core.cpp"],
   rule="random programs of the delta language (all opcodes and parameter widths, non-minimal ones included) over random bases, schedules and callback behaviours, compared with a reference interpreter; non-trivial: at least two commands",
   jobs=[J("ops", "san", 10000, 200000), J("ops", "rel", 10000, 200000), J("small", "san", 8000, 300000), J("small", "rel", 12000, 400000), J("large", "rel", 1500, 60000), J("large", "san", 500, 10000), J("many", "rel", 200, 6000), J("many", "san", 40, 1000), J("small", "dbg", 800, 40000), J("small", "fuzz", 12000, 800000)]),
 "C08": dict(src=["props_core.cpp"],
   rule="random basis and edited new file; literal bytes compared with a reference greedy matcher over the same signature, merging, widths and size bounds checked on the decoded commands; non-trivial: the reference finds at least one match in a new file longer than a block",
   jobs=[J("small", "san", 6000, 200000), J("small", "rel", 20000, 600000), J("large", "rel", 2500, 60000), J("large", "san", 400, 12000), J("longblock", "rel", 400, 12000), J("longblock", "san", 60, 1500), J("hugeblock", "rel", 12, 200, shards=4, cpu=600), J("many", "rel", 40, 1500), J("small", "dbg", 800, 40000), J("small", "fuzz", 10000, 600000)]),
 "C22": dict(src=["props_core.cpp"],
   rule="synthesized signatures with real, duplicated, weak-colliding, bit-flipped, extreme and clustered entries against new files built from the same blocks; every copy verified against the entry it relies on; non-trivial: at least one weak-sum hit",
   jobs=[J("small", "san", 5000, 200000), J("small", "rel", 14000, 500000), J("large", "rel", 1200, 40000), J("large", "san", 300, 10000), J("many", "rel", 40, 1500), J("small", "dbg", 600, 30000), J("small", "fuzz", 8000, 500000)]),
}
PROPS.update({
 "C02": dict(src=["props_jobs.cpp"],
   rule="one generated job (signature, load, delta, signature-less delta, patch; valid or damaged input) run in a single ample call and under several generated slicings of input, output and end-of-input, by push, pull and whole-file; result code, output bytes and loaded signature compared, buffer accounting checked on every call; non-trivial: input longer than 16 bytes",
   jobs=[J("small", "san", 4000, 150000), J("small", "rel", 8000, 400000), J("tiny", "san", 250, 12000), J("tiny", "rel", 700, 30000), J("large", "rel", 900, 30000), J("large", "san", 250, 8000), J("blocks", "rel", 600, 20000), J("blocks", "san", 100, 3000), J("small", "dbg", 400, 20000), J("small", "fuzz", 6000, 400000)]),
 "C06": dict(src=["props_jobs.cpp"],
   rule="mutated, truncated, crafted (extreme 64-bit values) and random delta bytes, plus all prefixes and all command-byte values of generated deltas, judged by a reference interpreter of the format; non-trivial: the reference rejects the input",
   jobs=[J("mutate", "san", 10000, 400000), J("mutate", "rel", 8000, 300000), J("crafted", "san", 12000, 400000), J("crafted", "rel", 8000, 300000), J("raw", "san", 6000, 200000), J("prefix", "san", 120, 4000), J("prefix", "rel", 200, 8000), J("crafted", "dbg", 1000, 40000), J("mutate", "dbg", 500, 20000), J("raw", "fuzz", 30000, 3000000), J("crafted", "fuzz", 10000, 600000)]),
 "C07": dict(src=["props_jobs.cpp"],
   rule="synthesized, field-damaged, mutated, truncated and random signature bytes judged by a reference parser; accepted ones are indexed, dumped, used for a delta whose commands are checked, and freed; every case counts as non-trivial",
   jobs=[J("small", "san", 10000, 400000), J("small", "rel", 8000, 300000), J("large", "san", 400, 12000), J("raw", "san", 5000, 200000), J("prefix", "san", 200, 8000), J("many", "rel", 24, 600), J("many", "san", 8, 200), J("small", "dbg", 600, 30000), J("raw", "fuzz", 20000, 2000000)]),
 "C10": dict(src=["props_jobs.cpp"],
   rule="generated valid deltas with a monitored copy callback that delivers short, from its own (afterwards destroyed) buffer, blocks repeatedly or fails with any error; every request checked against the command being executed; non-trivial: at least one copy command",
   jobs=[J("small", "san", 10000, 300000), J("small", "rel", 12000, 500000), J("large", "rel", 800, 30000), J("large", "san", 300, 8000), J("small", "dbg", 600, 30000), J("small", "fuzz", 10000, 600000)]),
 "C12": dict(src=["props_jobs.cpp"],
   rule="generated jobs driven by monitored input/output callbacks with generated supply and acceptance, and arbitrary non-success results returned at a generated point; compared with the push interface; non-trivial: more than 8 bytes of input and at least one callback",
   jobs=[J("small", "san", 10000, 300000), J("small", "rel", 12000, 500000), J("large", "rel", 800, 30000), J("large", "san", 300, 8000), J("small", "dbg", 600, 30000)]),
})
PROPS.update({
 "C09": dict(src=["props_state.cpp"],
   rule="random histories of creating, advancing and freeing signature, load, delta, signature-less delta and patch jobs (valid, damaged and invalid parameters) and signatures, compared with each job run alone; allocations counted at the end; operations run inside the callbacks of others, up to three deep; non-trivial: at least two jobs alive at once (single: every case, nested: an operation was nested)",
   jobs=[J("hist", "san", 8000, 200000), J("hist", "rel", 8000, 200000), J("longhist", "san", 400, 15000), J("bighist", "san", 300, 10000), J("bighist", "rel", 600, 20000), J("nested", "san", 2500, 80000), J("nested", "rel", 4000, 150000), J("bignested", "rel", 300, 10000), J("nested", "dbg", 200, 8000), J("single", "san", 8000, 200000), J("bigsingle", "san", 600, 20000), J("bigsingle", "rel", 1500, 40000), J("hist", "dbg", 500, 20000)]),
 "C11": dict(src=["props_state.cpp"],
   rule="whole-file operations over in-memory stdio streams with generated short transfers, buffering and an injected read, write, basis-read or seek failure (exhaust: at every position); outcome compared with the fault-free reference; non-trivial: the injected fault was reached, or none was injected",
   jobs=[J("faults", "san", 8000, 300000), J("faults", "rel", 20000, 600000), J("exhaust", "san", 250, 10000), J("exhaust", "rel", 500, 20000), J("faults", "dbg", 600, 30000)]),
 "C13": dict(src=["props_state.cpp", "props_cli.cpp"],
   rule="statistics of generated jobs compared with an independent decode of their output, and with the numbers in the formatted and logged text, match statistics against the blocks copied; non-trivial: at least two commands or one block (text: a non-zero count)",
   jobs=[J("small", "san", 6000, 200000), J("small", "rel", 16000, 500000), J("large", "rel", 1500, 40000), J("text", "san", 6000, 200000), J("rdiff", "rel", 300, 30000, rdiff=True), J("match", "rel", 2000, 60000), J("match", "san", 700, 20000), J("small", "dbg", 500, 20000)]),
 "C14": dict(src=["props_state.cpp"],
   rule="boundary-biased file sizes, magics, block and strong lengths against independently stated rules (args), against signature generation and loading (use), and against the header rs_sig_file writes for files of zeros up to 2^44 bytes (sigfile); non-trivial: a recommended value was requested or the set is invalid (use: every case; sigfile: over 65536 bytes)",
   jobs=[J("args", "san", 60000, 2000000), J("args", "rel", 120000, 4000000), J("use", "san", 4000, 120000), J("use", "rel", 6000, 200000), J("sigfile", "rel", 150, 60000), J("sigfile", "san", 40, 10000), J("args", "dbg", 5000, 200000)]),
 "C20": dict(src=["props_state.cpp"],
   rule="generated jobs re-run at generated trace levels and destinations (also in a build with tracing compiled in), message sequences compared with the level-7 run, results compared byte for byte; dumps compared with the stored sums; non-trivial: at least one message (dump: at least one block)",
   jobs=[J("levels", "dbg", 3000, 100000), J("levels", "san", 4000, 120000), J("levels", "rel", 4000, 120000), J("dump", "san", 3000, 100000), J("dump", "rel", 6000, 200000), J("route", "rel", 6000, 200000), J("route", "dbg", 1000, 40000)]),
})
PROPS.update({
 "C15": dict(src=["props_util.cpp"],
   rule="generated messages around block boundaries (and beyond 512 MB and 4 GB), generated misalignment and splits into updates, interleaved and reused contexts, compared with an independent MD4; non-trivial: non-empty message (chunks: at least two updates)",
   jobs=[J("oneshot", "san", 20000, 600000), J("oneshot", "rel", 60000, 2000000), J("chunks", "san", 15000, 500000), J("chunks", "rel", 40000, 1500000), J("huge", "rel", 8, 64, shards=8), J("oneshot", "dbg", 2000, 50000)]),
 "C16": dict(src=["props_util.cpp"],
   rule="generated bytes, texts, statistics and buffer sizes against independent encoders and guard bytes; non-trivial: non-empty input",
   jobs=[J("encode", "san", 30000, 1000000), J("encode", "rel", 60000, 2000000), J("decode", "san", 30000, 1000000), J("decode", "rel", 60000, 2000000), J("stats", "san", 20000, 600000), J("stats", "rel", 30000, 1000000), J("strerror", "rel", 20000, 200000), J("strerror", "san", 5000, 100000), J("decode", "fuzz", 20000, 2000000)]),
 "C23": dict(src=["props_util.cpp"],
   rule="generated request sequences on files, streams with faults and sparse multi-terabyte files; generated file kinds, permissions, modes and users for opening; non-trivial: more than one request on non-empty data (open: an existing file; sparse: larger than 4 GB)",
   jobs=[J("copy", "san", 15000, 500000), J("copy", "rel", 30000, 900000), J("files", "rel", 12000, 300000), J("files", "san", 4000, 80000), J("sparse", "rel", 8000, 200000), J("sparse", "san", 4000, 100000), J("size", "rel", 12000, 200000), J("size", "san", 6000, 100000),
         J("open", "rel", 3000, 60000), J("open", "san", 1500, 20000), J("std", "rel", 2000, 40000), J("std", "san", 600, 10000), J("close", "rel", 15000, 300000), J("close", "san", 6000, 100000), J("copy", "dbg", 800, 30000)]),
})
PROPS.update({
 "C17": dict(src=["props_cli.cpp"],
   rule="generated file pairs, option spellings and combinations, action abbreviations and plumbing (files, pipes with irregular writes, '-', omitted names, forced overwrites) through the rdiff executable; signature and delta compared byte for byte with reference encoder and library; non-trivial: both files non-empty and a delta with copies",
   jobs=[J("small", "rel", 4000, 80000, rdiff=True), J("small", "san", 1200, 20000, rdiff=True), J("large", "rel", 500, 10000, rdiff=True), J("large", "san", 120, 2000, rdiff=True)]),
 "C18": dict(src=["props_cli.cpp"],
   rule="generated rdiff invocations with at most one injected fault (missing, unreadable, directory, damaged or short input; bad options; existing, unwritable, size-limited, full, closed or broken output), as root or an unprivileged user, checked for exit status, message and all file contents; non-trivial: a fault was injected",
   jobs=[J("cases", "rel", 12000, 300000, rdiff=True), J("cases", "san", 4000, 60000, rdiff=True)]),
})
PROPS.update({
 "C19": dict(src=["props_big.cpp"],
   rule="virtual streams, synthesized signatures, sparse files and repeated mappings with positions, lengths, buffers and totals generated around 2^31, 2^32 and up to 2^63-1, outputs compared with the virtual content and exact counts; non-trivial: a value beyond 2^31 (positions, sparse: beyond 2^32)",
   jobs=[J("positions", "san", 6000, 200000), J("positions", "rel", 20000, 600000), J("offsets", "rel", 64, 2000, shards=8), J("offsets", "san", 16, 300, shards=4), J("sparse", "rel", 2000, 60000), J("sparse", "san", 800, 20000),
         J("long", "rel", 8, 80, shards=8, cpu=600), J("cycle", "rel", 4, 40, shards=4, cpu=900), J("onebuf", "rel", 8, 64, shards=8, cpu=600), J("onescoop", "rel", 2, 16, shards=2, cpu=600), J("outbuf", "rel", 16, 200, shards=8, cpu=600), J("manyblocks", "rel", 3, 24, shards=2, cpu=600), J("positions", "dbg", 500, 20000)]),
})
PROPS.update({
 "C21": dict(src=["props_threads.cpp"],
   rule="generated sets of 2 to 5 threads, each with its own generated signature, load, delta, patch, round-trip, digest, text and parameter tasks, released together in a process that has not used the library before; ThreadSanitizer must stay silent and every result, statistic and log message must equal the one obtained alone; every case counts as non-trivial",
   jobs=[J("small", "tsan", 3000, 100000), J("large", "tsan", 300, 10000), J("small", "rel", 4000, 150000), J("large", "rel", 400, 15000)]),
})
PROPS.update({
 "C24": dict(src=["props_stream.cpp"],
   rule="long streams of misses, matches, repeats and near misses, patches with huge or merely declared sizes, and loaded signatures, fed in bounded offers (push, pull, whole-file); peak of the library's heap compared with a bound computed from block length, offered buffers and entry count only; non-trivial: the stream is at least twice the bound, or a huge size is only declared (load: at least one block)",
   jobs=[J("stream", "san", 300, 8000), J("file", "san", 200, 6000), J("load", "san", 2000, 60000), J("configured", "san", 1000, 30000), J("stream", "dbg", 20, 1000)]),
 "C25": dict(src=["props_stream.cpp"],
   rule="whole-file operations on caller-opened memory and real streams positioned anywhere by seeking, reading or writing, output written fresh, appended or into the middle of existing data, results compared with the same data alone; chains reuse the same streams for several round trips; non-trivial: at least one stream not at its start and non-empty input (chain: several rounds)",
   jobs=[J("small", "san", 10000, 300000), J("small", "rel", 20000, 600000), J("large", "rel", 600, 20000), J("large", "san", 200, 6000), J("chain", "san", 1500, 50000), J("chain", "rel", 3000, 100000), J("small", "dbg", 500, 20000)]),
})
PROPS.update({
 "C26": dict(src=["props_stream.cpp"],
   rule="long streams of misses, matches, repeats and near misses under generated slicings, and signatures of spread, equal, consecutive, shifted and two-part weak sums; control-flow edges executed inside the library plus bytes it moved, compared with a linear bound four times what the original needs at most; non-trivial: at least 10000 bytes of input (load: at least 100 blocks)",
   jobs=[J("stream", "san", 3000, 60000), J("load", "san", 2000, 60000)]),
})
PROPS.update({
 "C27": dict(src=["props_mem.cpp", "props_threads.cpp"],
   rule="one generated job (signature, load and index, load-index-delta, signature-less delta, patch) run once undisturbed and once in a forked process in which a generated allocation of the library (one, all from one on, or all from a size on) is refused; non-trivial: every case (the refused allocation exists)",
   jobs=[J("small", "san", 4000, 120000), J("small", "rel", 8000, 300000), J("large", "san", 300, 9000), J("large", "rel", 800, 20000), J("small", "dbg", 300, 10000)]),
 "C28": dict(src=["props_mem.cpp", "props_threads.cpp"],
   rule="one generated task (jobs by any interface, chains, digests, text helpers, parameters) repeated with other patterns in fresh heap memory and on the stack, other heap layouts and addresses, errno, locale and environment; results, statistics and messages compared; non-trivial: non-empty input",
   jobs=[J("small", "rel", 10000, 400000), J("small", "san", 4000, 100000), J("large", "rel", 800, 30000), J("small", "dbg", 500, 20000)]),
})
PROPS.update({
 "C29": dict(src=["props_stream.cpp"],
   rule="signature, delta, signature-less delta and patch jobs fed in generated offers without an end of input; after every call that waits with output space left, the output is compared with what the input taken so far determines; non-trivial: at least two such waits",
   jobs=[J("small", "san", 5000, 150000), J("small", "rel", 10000, 400000), J("large", "rel", 1000, 30000), J("large", "san", 200, 6000), J("small", "dbg", 300, 10000)]),
})
# Quick counts above are the base; properties whose base run is short explore more on every change.
BOOST = dict(C01=1.5, C02=4, C03=4, C04=2.5, C05=8, C06=8, C07=12, C08=2, C09=2, C10=12, C11=5, C12=10, C13=10, C14=30, C16=10, C17=2, C18=2, C20=10, C22=1, C23=5, C24=2.5, C25=4, C26=4)
for _p, _k in BOOST.items():
    for _j in PROPS[_p]["jobs"]:
        if "shards" not in _j: _j["quick"] = int(_j["quick"] * _k)
