#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    ov = []
    for o in over:
        m = {"inputs": "inputs", "arguments": "inputs", "call history": "histories", "thread interleavings": "schedules", "kind of failure": "fault_sequences",
             "operation pairs": "histories", "run length": "inputs", "gap length": "inputs", "option combinations": "inputs", "call histories": "histories", "failing OpenCL calls": "fault_sequences", "work group interleavings": "schedules", "transfer timing": "schedules", "lengths": "inputs", "values": "inputs", "positions": "inputs", "file contents": "inputs", "failing codec": "fault_sequences"}.get(o, "configurations")
        if m not in ov: ov.append(m)
    over = ov
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}
    if state: a["state"] = [{"name": "CPU feature flags", "meaning": state, "where": "src/simd_platform.c"}]
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ALLC = ["src/rle8_extreme_cpu.h", "src/rleX_extreme_cpu.h", "src/rleX_extreme_cpu_encode.h", "src/rleX_extreme_cpu_decode.h", "src/rle24_extreme_cpu_encode.h", "src/rle48_extreme_cpu_encode.h", "src/rle128_extreme_cpu.h", "src/rleX_Xsl.h", "src/rleX_Xsl_multibyte_encoder.h", "src/rleX_Xsl_short.h", "src/rleX_Xsl_short_multibyte_encoder.h", "src/rle8_low_entropy_cpu.c", "src/rle8_low_entropy_short_cpu.c", "src/rle_sh.c", "src/rle8_mmtf.c"]

p("C01", "Compression is lossless for every codec at every SIMD level",
  "For every non-empty input, every compression function of the library accepts it when given an output buffer of the size its bounds function reports, and decompressing the resulting stream with the matching decompression function returns exactly the input length and exactly the input bytes. This holds at every SIMD level (no SIMD, SSE2, SSSE3, SSE4.1, AVX, AVX2, AVX-512F) the library can be restricted to or detect.",
  ["inputs", "codec", "SIMD level"], "all inputs up to the supported size x all 120 codec entry points x all SIMD levels",
  "The tests round-trip 8 files and the first 16384 iterative fuzzer inputs at four levels; whether a run, gap, table state or tail position is encoded consistently depends on combinations of run length, gap length, previous symbols, position relative to vector width and distance to the end that a sample does not cover.",
  ALLC, [("run detection and stream emission", "src/rleX_extreme_cpu_encode.h, src/rleX_Xsl_multibyte_encoder.h, src/rleX_Xsl_short.h"), ("SIMD decoders", "src/rleX_extreme_cpu_decode.h, src/rleX_Xsl.h, src/rleX_Xsl_short.h"), ("SIMD dispatch", "src/rleX_extreme_cpu.h")], "return values and output buffers of the public compress/decompress functions")

p("C02", "Streams are interchangeable between SIMD levels",
  "A stream produced at one SIMD level decodes to exactly the same bytes at every other SIMD level, so data compressed on one machine can be decompressed on any other. This holds for every codec, every input and every ordered pair of levels, and for all encoder variants (normal, greedy, single-symbol, maximum-frequency-only) that share one decoder.",
  ["inputs", "codec", "pair of SIMD levels"], "all inputs x all codecs x all ordered pairs of (encoding level, decoding level)",
  "No existing test decodes a stream at a different level than the one it was encoded at, and AVX-512 decoders are never exercised at all.",
  ALLC, [("level specific encoders", "src/rleX_extreme_cpu_encode.h"), ("level specific decoders", "src/rleX_extreme_cpu_decode.h, src/rle128_extreme_cpu.h, src/mmtf.c"), ("dispatch", "src/simd_platform.c")], "public compress/decompress functions")

p("C03", "Compressors stay inside the input and the advertised output bound",
  "For every input the compressed size never exceeds the value of the codec's bounds function for that input length. While compressing, no byte outside the input is read and no byte outside the first bound-many bytes of the output buffer is read or written, wherever the buffers lie.",
  ["inputs", "codec", "SIMD level", "buffer placement"], "all inputs x codecs x levels x placements of input and output directly against unmapped memory (both ends)",
  "Out-of-bounds accesses of a few bytes do not change the result in ordinary heap memory, and worst-case expansion needs adversarial inputs which neither the sample files nor the fuzzer's iterative inputs contain.",
  ALLC, [("bounds functions", "src/rle8_extreme_cpu.c, src/rle8_low_entropy_cpu.c, src/rle_sh.c, src/rle8_mmtf.c"), ("tail handling", "src/rleX_extreme_cpu_encode.h, src/rleX_Xsl_multibyte_encoder.h")], "guard pages around the caller's buffers; return value")

p("C04", "Decompressors stay inside the documented buffers",
  "While decompressing any valid stream, the decoder never reads outside the compressed buffer (of the size the bounds function reports, starting at the stream) and never reads or writes outside the output buffer of original length plus the documented additional decompression size. This holds for every codec, level and placement of the buffers.",
  ["inputs", "codec", "SIMD level", "buffer placement"], "all valid streams x codecs x levels x placements directly against unmapped memory (both ends)",
  "The wide stores of the decoders overshoot by design; how far depends on run length, gap length, alignment and level, and an overshoot is invisible without a guard directly behind the documented slack.",
  ALLC, [("wide copy / fill macros", "src/rleX_extreme_cpu_decode.h, src/rleX_Xsl.h, src/rleX_Xsl_short.h"), ("additional size", "src/rle8_extreme_cpu.c")], "guard pages around the caller's buffers")

p("C05", "Results depend on the input only and calls have no side effects",
  "The stream produced for an input is the same whatever the alignment and placement of the buffers, the previous contents of the output buffer, the bytes around the input, a larger output buffer than required and the calls made before; likewise the decompressed bytes do not depend on buffer alignment, previous contents or the bytes following the stream. Neither direction modifies its input.",
  ["inputs", "codec", "SIMD level", "buffer alignment", "surrounding memory", "call history"], "all inputs x codecs x levels x alignments 0..63 x surrounding/stale byte values x preceding calls",
  "Tests call every function with 32 byte aligned buffers and never compare the results of two differently placed calls.",
  ALLC + ["src/mmtf.c", "src/bit_mmtf.c"], [("alignment dependent code paths", "src/rleX_extreme_cpu_decode.h, src/mmtf.c"), ("initial state of the encoders", "src/rleX_Xsl_multibyte_encoder.h")], "public functions")

p("C06", "Invalid calls are rejected without touching memory",
  "A call with a missing buffer, an empty input, an output size below the required bound, a stream shorter than it declares itself to be, an output size below the original length, or an input above the supported maximum (a size, or number of sub-sections, for which the bounds function reports 0: more than 2^30 bytes, or a bound that does not fit 32 bits) returns 0, writes nothing to the output buffer and reads nothing beyond the given sizes. Calls meeting the documented sizes are not rejected.",
  ["arguments", "codec", "SIMD level"], "all output sizes below the bound, all truncations of a stream, all output sizes below the original length, all NULL/zero combinations x codecs x levels",
  "The tests only make valid calls.",
  ALLC, [("argument validation", "src/rleX_extreme_cpu.h, src/rleX_Xsl.h, src/rleX_Xsl_short.h, src/rle8_low_entropy_cpu.c, src/rle_sh.c, src/rle8_mmtf.c")], "return value, output buffer contents, guard pages directly behind the given sizes")

p("C07", "Concurrent calls on separate buffers do not affect each other",
  "Threads that compress and decompress at the same time with separate buffers obtain exactly the results they obtain when running alone. This includes the very first calls of a process, when the CPU feature detection has not run yet.",
  ["thread interleavings", "operation pairs"], "all interleavings (up to a preemption bound) of shared-memory accesses of pairs of operations, from the uninitialised and the initialised state",
  "The tests are single threaded; a race needs a specific interleaving.",
  ["src/simd_platform.c", "src/rle8_low_entropy_cpu.c", "src/rle_sh.c", "src/mmtf.c", "src/rle8_mmtf.c"], [("lazy CPU feature detection", "src/simd_platform.c:_DetectCPUFeatures"), ("per-call state", "src/rleX_Xsl.h, src/rle8_mmtf.c")], "results of concurrently executed public functions", state="global CPU feature flags; otherwise no shared state")

p("C08", "Move-to-front transforms are size preserving bijections",
  "Each standalone move-to-front transform (vector widths 128 and 256 bit, bit variants 8 and 16) returns the input length, writes exactly that many bytes, and decoding an encoded buffer of any length and content restores it; encoding a decoded buffer restores it as well. The result is the same at every SIMD level and alignment, and equals the per-lane move-to-front definition.",
  ["inputs", "transform", "SIMD level", "alignment"], "all contents over small alphabets x all lengths around the block sizes x levels x alignments",
  "Tests only run the transforms on a few aligned buffers; aligned/unaligned and per-level implementations are separate code.",
  ["src/mmtf.c", "src/bit_mmtf.c"], [("lane-parallel history update", "src/mmtf.c"), ("bit plane swap", "src/bit_mmtf.c")], "public encode/decode functions")

p("C09", "Sub-section compression is lossless for every section count",
  "Compressing with any number of sub-sections from one up to the input length succeeds within its bound and decompresses to the input; the explicit two-step interface (gather symbol statistics, store them, compress, decompress with stored statistics) is lossless for any data, including data other than the one the statistics were gathered from. A section count of zero is rejected.",
  ["inputs", "section count", "SIMD level", "statistics source"], "all inputs x section counts x levels; all pairs of (statistics input, data input)",
  "These functions are not called by any test.",
  ["src/rle8_low_entropy_cpu.c", "src/rle8_low_entropy_short_cpu.c"], [("sub-section table", "src/rle8_low_entropy_cpu.c:rle8m_compress"), ("symbol statistics", "src/rle8_low_entropy_cpu.c:rle8_low_entropy_get_compress_info")], "public functions")

p("C10", "Streams are self-describing",
  "Every stream of a headered codec carries its original and compressed length: decompression succeeds with any declared sizes at or above these, ignores all bytes after the stream, and never returns anything but the original length; the size query returns the original length. The length returned by the compressor is exactly the number of bytes a reader has to keep.",
  ["inputs", "codec", "SIMD level", "declared sizes", "trailing bytes"], "all inputs x codecs x levels x declared sizes >= required x trailing byte patterns",
  "Tests always pass the exact compressed size, the size query is never called.",
  ALLC, [("stream header", "src/rleX_extreme_cpu_encode.h, src/rleX_Xsl.h"), ("size query", "src/rle8_low_entropy_cpu.c:rle8_low_entropy_decompressed_size")], "public functions")

p("C11", "No instruction beyond the enabled SIMD level is executed",
  "When the library is restricted to (or detects) a SIMD level, no compression, decompression or transform function executes an instruction belonging to an instruction set above that level. With no SIMD level enabled nothing beyond the x86-64 baseline is executed.",
  ["codec", "SIMD level", "executed paths"], "all public functions x all levels x inputs driving every block kind, checked for every executed instruction",
  "Tests run on a CPU which supports all levels, so that executing a too new instruction has no visible effect.",
  ["src/simd_platform.c", "src/rleX_extreme_cpu.h", "src/rle8_extreme_cpu.h", "src/rleX_Xsl.h", "src/rleX_Xsl_short.h", "src/rle128_extreme_cpu.h", "src/rle24_extreme_cpu.h", "src/rle48_extreme_cpu.h", "src/mmtf.c", "src/rle8_low_entropy_cpu.c", "src/rle8_low_entropy_short_cpu.c"], [("dispatch", "src/rleX_extreme_cpu.h, src/mmtf.c")], "instruction stream (a breakpoint on every instruction above the level)")

p("C12", "CPU feature detection is exact",
  "After detection a feature level is reported as supported if and only if the processor announces the instruction set and, for the wide vector extensions, the operating system has enabled saving all the register state they use. Detection is performed once and later calls do not change an explicitly restricted set of features.",
  ["CPUID/XCR0 values"], "all combinations of the relevant feature bits, maximum leaf and OS enabled register state",
  "Tests run on one CPU under one operating system.",
  ["src/simd_platform.c"], [("CPUID/XGETBV evaluation", "src/simd_platform.c:_DetectCPUFeatures")], "feature flags after detection under emulated CPUID/XGETBV", state="global feature flags")

p("C13", "The built-in self test reports every codec failure",
  "The test mode and the fuzzing mode of the command line tool end with a failure status whenever any codec they exercise fails to compress, fails to decompress, returns a wrong length or produces output which differs from the input in any bit at any position, and the test mode also fails when the file cannot be read. If all codecs are correct the test mode ends with success (transforms that need a SIMD level the machine was restricted below are skipped, not failed) and the fuzzing mode does not report a failure.",
  ["failing codec", "kind of failure", "position and bit of the corruption", "input size"], "all codecs x failure kinds x byte positions x bits, for a range of input sizes",
  "The self test is the test suite; whether it would notice a fault is not tested by it.",
  ["src/main.c", "src/rle_fuzz.c"], [("test mode", "src/main.c:main"), ("comparison", "src/main.c:Validate, src/rle_fuzz.c:MemoryEquals")], "exit status of the tool with fault injected codecs")

p("C14", "Command line options select what they say",
  "The codec selection options of the command line tool run exactly the codecs which have all of the requested attributes (each attribute value being visible in the codec's name), without options all codecs are run, and limiting the SIMD level disables every higher level and keeps the requested one and those below. Codecs to which an attribute does not apply (alignment and symbol size for other than the extreme codecs; single/multi for SH, RLE-MMTF and the vector move-to-front transforms) are left out when it is requested. Unknown options, options without their value or with an invalid value, attributes given twice or contradicting each other and SIMD limits above the platform are rejected with a failure status.",
  ["option combinations"], "all combinations of the selection options and all SIMD limits",
  "The tests use a single option combination per level.",
  ["src/main.c", "src/codec_funcs.h"], [("option parsing", "src/main.c:main"), ("codec filter", "src/main.c:CodecMatchesArgs"), ("codec table", "src/codec_funcs.h")], "codecs executed / feature flags / exit status for a given command line")

p("C15", "Runs and gaps of any length survive, up to the maximum input size",
  "Losslessness, the output bound and cross-level decoding hold for runs and for incompressible gaps of any length up to the maximum input size, in particular around every length at which the stream format changes its encoding (8, 9, 10, 11, 16, 20 and 32 bit length fields, in bytes or in symbols).",
  ["run length", "gap length", "symbol repetition", "codec", "SIMD level"], "all run/gap lengths in windows around every power of two boundary (in bytes and symbols) x symbol histories x codecs x levels",
  "Test inputs are small; the long encodings are only reached by runs or gaps above 64 KiB or 1 MiB.",
  ALLC, [("length escapes", "src/rleX_Xsl.h, src/rleX_Xsl_short.h, src/rleX_extreme_cpu_encode.h")], "public functions")

p("C16", "The stream format is stable",
  "Streams written by the reference version of the library are decompressed correctly by the current version, and streams written by the current version are decompressed correctly by the reference version, for every codec and input. Data compressed earlier thus stays readable.",
  ["inputs", "codec", "direction"], "all inputs x codecs x both directions (current -> reference, reference -> current)",
  "Tests only decode streams which the same build produced, so that a consistent change of encoder and decoder goes unnoticed.",
  ALLC, [("stream layout", "src/rleX_extreme_cpu_encode.h, src/rleX_Xsl.h, src/rleX_Xsl_short.h, src/rle_sh.c, src/rle8_low_entropy_cpu.c, src/rle8_mmtf.c")], "public functions against the reference build")

p("C17", "Runs are actually compressed",
  "For every run-length codec the space taken by a run of repeated symbols does not grow with the length of the run (for the low entropy codecs: grows by at most two bytes per block of 255, or 32 in the short variant), whatever precedes it, at whatever distance from the previous run (exception: the SH codec stores a run that ends the input as it is). An input consisting of long runs therefore always shrinks to a size proportional to the number of runs, and data without runs grows by no more than the bound.",
  ["inputs", "codec", "SIMD level"], "all run lengths / numbers of runs / gap lengths within the explored ranges x codecs x levels",
  "A codec which never detects runs still passes every round-trip test.",
  ALLC, [("run detection", "src/rleX_extreme_cpu_encode.h, src/rleX_Xsl_multibyte_encoder.h, src/rle8_extreme_cpu.h")], "compressed size")

p("C18", "The iterative fuzzer covers its whole space, reproducibly",
  "In iterative mode with k sections the fuzzer presents to every codec each input of its space exactly once and then ends with success: all inputs made of k sections alternating between filler without repetition and repetitions of the fuzzer's symbol, beginning with either kind, for all symbol lengths from 1 to 16 bytes and all section lengths from 1 to 280, from 768 growing by a sixteenth up to 8192, and from 65528 to 65560, counted in bytes and, for symbols longer than one byte, also with the repeated sections counted in symbols. The inputs and their order are the same in every run, whatever the time, the addresses and the contents of memory. All inputs fit the buffers of the fuzzer. When a codec does not restore an input, the file fuzz-failure.bin holds exactly this input when the fuzzer stops, in both fuzzing modes.",
  ["section lengths", "section kinds", "symbol lengths", "alignment", "runs of the fuzzer", "failing codec"], "all inputs of the space for one and two sections; runs in different environments; all codecs x failure kinds x positions",
  "The tests run the first 16384 inputs and only see that no codec failed.",
  ["src/rle_fuzz.c"], [("enumeration", "src/rle_fuzz.c:fuzz_state_increment"), ("input generation", "src/rle_fuzz.c:fuzz_fill_buffer"), ("failure report", "src/rle_fuzz.c:fuzz")], "inputs given to the codecs, contents of fuzz-failure.bin")

p("C19", "The benchmark reports what it measured",
  "In every row of the benchmark table the ratio is the compressed size over the file size, the throughputs are the file size over the mean duration of the measured calls and, in parentheses, of the fastest call (the first call of a row is a dry run, which is not part of the mean; in test mode there is none; pauses between calls are not counted), and the last column is the ratio times the normalised entropy of the compressed data; with --sd the row also shows the throughputs at the mean plus and minus the (sample) standard deviation of the measured calls. At least the requested number of runs is measured, for at least the requested time. A codec that fails is marked as failed (and no other one), and all other codecs are still measured.",
  ["durations of the calls", "compressed sizes and contents", "options", "failing codec"], "all sequences of call durations over a set of values, run counts, minimum times, sizes, contents, display modes; all codecs x failure kinds",
  "No test looks at the figures.",
  ["src/main.c"], [("measurement loop", "src/main.c:main"), ("entropy", "src/main.c:GetInformationRatio")], "output of the tool with codecs of known duration and result")

p("C20", "The file analysis is exact and reads only the file",
  "The analysis of a file (--analyze) accesses nothing beyond the file's bytes and reports, for every symbol length from 1 to 16, exactly the number and total length of the runs (maximal sequences of positions at which the following symbol, which lies completely in the file, equals the one before) and of the positions outside of runs, unaligned and aligned to the symbol length, their distribution over exact lengths and over bit lengths, how often a run continues one of the 16 most recent symbols, the distribution of the length of a run over the length of the gap before it, and the histograms of repeated symbols and of all bytes. The selected codecs are benchmarked afterwards as usual.",
  ["file contents", "file sizes"], "all short words over two and three letters, all (symbol length, run length, gap, tail) combinations, all sequences of recurring symbols within bounds, large files",
  "No test uses the analysis.",
  ["src/main.c"], [("statistics", "src/main.c:AnalyzeData")], "output of the tool for a given file")

p("C21", "OpenCL decompression equals CPU decompression and survives failures",
  "With OpenCL support compiled in, decompressing any stream of the sub-section compressor on a device returns the original length and exactly the original bytes, writes nothing else and ignores bytes after the stream, for every input and number of sections, whatever the order in which the work groups run and however late transfers happen, and whatever initialisations, decompressions (of larger or smaller data, with more or fewer sections) and releases came before, including none at all. When an OpenCL call or an allocation fails, the initialisation or decompression reports failure, no released or never created object or memory is used, and later calls work as usual. After releasing, no object or memory is left. Invalid calls (missing buffer, truncated stream, too small output) return 0 without using the device.",
  ["inputs", "section counts", "call histories", "failing OpenCL calls", "work group interleavings", "transfer timing"], "all inputs of the families x section counts x schedules; all histories of up to four calls with every failing call",
  "No test compiles the OpenCL code.",
  ["src/rle8_ocl.c", "src/rle8_ocl_kernel.h"], [("device set-up", "src/rle8_ocl.c:rle8m_opencl_init"), ("release", "src/rle8_ocl.c:rle8m_opencl_destroy"), ("decompression", "src/rle8_ocl.c:rle8m_opencl_decompress"), ("kernels", "src/rle8_ocl_kernel.h:rle8_decompress")], "result, output buffer and the OpenCL and allocation calls made")

p("C22", "Bit packing functions restore what was packed",
  "For every packing function of bitpack.h (1, 2, 3 and 4 bits, aligned and unaligned, with and without returned end) and every buffer of values below two to the power of the bit count, of every documented length, packing writes exactly length times bits / 8 bytes (rounded up) and unpacking them with the function of the same name restores all values. Both touch nothing outside of the documented buffers, do not modify their input, and functions that return an end return the first byte after the packed data. Aligned and unaligned variants give the same packed data.",
  ["lengths", "values", "positions", "buffer placement"], "all lengths up to 16 blocks, every value at every position over three backgrounds, all pairs of positions for short lengths",
  "Only one of the functions is used by a codec, and no test calls any of them.",
  ["src/bitpack.h"], [("packing and unpacking", "src/bitpack.h:bitpack_encode3_sse2_unaligned_m128i")], "packed and unpacked data of the functions")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: 
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
