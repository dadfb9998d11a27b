#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one JSON object per line).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

ENC = "c/enc/brunsli_encode.cc"; DEC = "c/dec/brunsli_decode.cc"
RD = "c/enc/jpeg_data_reader.cc"; WR = "c/dec/jpeg_data_writer.cc"

p("R01", "Lossless: whatever the encoder accepts is restored byte for byte",
  "For every byte string that the JPEG parser and the Brunsli encoder accept, decoding the produced Brunsli file and serializing the result gives back exactly the original bytes. This holds for baseline, extended and progressive JPEGs, any legal sampling, restart intervals, padding bits, repeated/custom Huffman and quantization tables, metadata segments, bytes between markers and bytes after the end marker, and for damaged files that happen to be accepted.",
  ["inputs"], "all byte strings accepted by the encoder: structurally generated JPEGs, quirky-but-accepted JPEGs, and mutations of both",
  "The repository's tests use a handful of tiny fixed files; losslessness must hold for the product of every JPEG feature and every coefficient statistic.",
  [ENC, DEC, RD, WR, "c/common/context.cc", "c/common/predict.cc", "c/enc/cluster.h", "c/enc/histogram_encode.cc"],
  [("encode pipeline", ENC + ": BrunsliEncodeJpeg, BrunsliSerialize"), ("decode pipeline", DEC + ": ProcessJpeg"), ("reconstruction", WR + ": SerializeJpeg")],
  ["ReadJpeg + BrunsliEncodeJpeg + BrunsliDecodeJpeg + WriteJpeg"])
p("R02", "Well-formed 8-bit Huffman JPEGs are accepted and encodable",
  "Every conforming JPEG in the supported class (8-bit baseline, extended-sequential or progressive Huffman, 1 to 4 components, integral subsampling ratios, at most four quantization tables, in-range coefficients) is parsed and encoded; the encoder never refuses such a file. Optional syntax such as several tables per segment, multiple scans, restart intervals, optimized Huffman tables, comments and application segments does not change that.",
  ["inputs"], "conforming JPEGs produced by an independent JPEG generator over the feature space of the standard",
  "A refusal only shows on the specific feature combination; fixed samples exercise almost none of them.",
  [RD, ENC, "c/enc/jpeg_huffman_decode.cc"],
  [("marker parsing", RD + ": ReadJpeg"), ("encoder limits", ENC + ": EncodeAuxData, EncodeQuantTables, PredictDCCoeffs")],
  ["ReadJpeg, BrunsliEncodeJpeg return values"])
p("R03", "JPEG parsing recovers exactly what the file encodes",
  "For every conforming JPEG, parsing yields the true image geometry, component layout, quantization tables, Huffman tables, scan script, restart interval, metadata payloads and quantized DCT coefficients of the file. Header-only and tables-only parsing report the same geometry and tables as full parsing.",
  ["inputs"], "generated JPEGs whose true content is known to the generator, in all three read modes",
  "Coefficient-level truth is not available for sample files; round-trip tests can hide parse errors that cancel out.",
  [RD, "c/enc/jpeg_huffman_decode.cc", "c/include/brunsli/jpeg_data.h"],
  [("entropy decoding", RD + ": DecodeDCTBlock, RefineDCTBlock, ProcessScan"), ("marker parsing", RD + ": ProcessSOF, ProcessDHT, ProcessDQT, ProcessDRI")],
  ["fields of JPEGData after ReadJpeg"])
p("R04", "Parsing then serializing a JPEG is the identity",
  "For every byte string the JPEG parser accepts in full mode, serializing the parsed representation reproduces the same bytes, including entropy-coded data, end-of-block-run structure, redundant zero runs, padding bits, marker order, inter-marker bytes and tail bytes.",
  ["inputs"], "all accepted byte strings: generated JPEGs with legal and unusual encodings, and mutations of them",
  "Depends on the interaction of scan scripts, EOB runs, restart markers and padding, which a few samples do not cover.",
  [RD, WR], [("parser", RD + ": ReadJpeg"), ("serializer", WR + ": SerializeJpeg, DoEncodeScan")],
  ["WriteJpeg output after ReadJpeg"])
p("R05", "Decoding recovers the encoder's image model exactly",
  "Decoding a Brunsli stream yields a representation equal to the one that was encoded: same geometry, components, quantization and Huffman tables, scans, markers, metadata, padding and every DCT coefficient. This holds for any representable coefficient content and for both coefficient context models of the format.",
  ["inputs"], "directly generated image models (coefficients, tables, metadata), independent of JPEG bitstream constraints, in both context-model versions",
  "Entropy-coding contexts are data dependent: a wrong context or bound appears only for particular neighbourhoods, sizes and magnitudes.",
  [ENC, DEC, "c/common/context.cc", "c/common/context.h", "c/common/predict.cc", "c/common/quant_matrix.cc", "c/dec/ans_decode.cc", "c/enc/ans_encode.cc"],
  [("DC/AC coding", ENC + ": EncodeDC, EncodeAC"), ("DC/AC decoding", DEC + ": DecodeDC, DecodeAC"), ("side information", ENC + ": EncodeAuxData, EncodeQuantTables, EncodeMetaData")],
  ["BrunsliEncodeJpeg then BrunsliDecodeJpeg"])
p("R06", "Invalid or unsupported JPEGs are refused with an error",
  "A file that is not a complete, consistent JPEG of the supported class (bad signature, missing or duplicate frame header, impossible sizes or table indices, undefined tables, invalid Huffman codes, out-of-range or out-of-band coefficients, overlapping scans, wrong restart markers, truncated data, unsupported coding process) is refused: parsing returns failure and records an error reason, and the encoder produces nothing.",
  ["inputs"], "generated JPEGs with one injected violation of a known class, and all truncations of valid files",
  "Each refusal is a separate branch reached by a specific corruption at a specific place; none is tested by the suite.",
  [RD], [("validation", RD + ": ProcessSOF, ProcessSOS, ProcessDHT, ProcessDQT, ProcessScan")],
  ["ReadJpeg return value and jpg.error; EncodeBrunsli return value"])
p("F01", "The Brunsli bitstream format is stable across versions",
  "Files produced by the released encoder decode to the same JPEG with the current decoder, and files produced by the current encoder decode to the same JPEG with the released decoder. This covers both context-model versions and bypass files. More generally, any stream of the format that the released decoder restores, whatever choices its encoder made (context schemes, coefficient orders, clusterings, distributions, table codings), is restored to the same JPEG by the current decoder.",
  ["inputs"], "generated JPEGs and image models, crossed between the current tree and a frozen copy of the released codec",
  "Encoder/decoder pairs that change in step pass every round-trip test while breaking all previously stored files.",
  [ENC, DEC, "c/common/context.h", "c/common/constants.cc", "c/common/distributions.h", "c/common/quant_matrix.cc"],
  [("stream layout", DEC + ": ProcessJpeg"), ("shared models", "c/common/context.cc, c/common/constants.cc, c/common/predict.cc")],
  ["bytes of the .brn file"])
p("F02", "Encoding and decoding are pure functions of their input",
  "The Brunsli file produced for a JPEG, and the JPEG produced from a Brunsli file, depend on the input bytes only: not on previous calls, memory contents, buffer sizes or addresses, or on other threads using the library at the same time. Re-encoding a restored JPEG reproduces the identical Brunsli file.",
  ["inputs", "histories", "schedules"], "sequences of encode/decode calls on generated images, repeated with different heap contents, output capacities and concurrent callers",
  "Dependence on uninitialized memory or hidden shared state is invisible to single-shot tests.",
  [ENC, DEC, "c/enc/state.h", "c/dec/state.cc"], [("encoder state", "c/enc/state.h"), ("decoder state", "c/dec/state_internal.h")],
  ["bytes produced by encode/decode calls"])
p("Z01", "The advertised maximum size is never exceeded",
  "For every accepted JPEG, the encoder given a buffer of the advertised maximum encoded size succeeds, reports a size not larger than it, and never touches memory outside that buffer. The same holds for the advertised bypass size.",
  ["inputs"], "generated JPEGs biased towards incompressible coefficients, huge metadata, many tables/scans and tiny images",
  "The bound is analytic and only adversarial content comes near it.",
  [ENC], [("size bound", ENC + ": GetMaximumBrunsliEncodedSize, EstimateAuxDataSize"), ("bypass bound", ENC + ": GetBrunsliBypassSize")],
  ["guarded output buffer, reported size"])
p("Z02", "Encoding into a too small buffer fails cleanly",
  "Given an output buffer of any size, the encoder either produces a complete, correct Brunsli file that fits it or reports failure; it never writes outside the buffer and never aborts. The same holds for bypass encoding.",
  ["inputs", "fault_sequences"], "every output capacity from zero to the needed size for generated images and arbitrary bypass payloads",
  "Failure points move with every section's size; tests always supply ample space.",
  [ENC, "c/enc/write_bits.h"], [("section writer", ENC + ": EncodeSection, BrunsliSerialize"), ("bit storage", "c/enc/write_bits.h: Storage")],
  ["guarded output buffer and return value"])
p("Z03", "Brunsli makes photographic JPEGs substantially smaller",
  "JPEGs of natural-looking content, some hundred pixels wide and high and of quality 50 to 97, become smaller by at least 14 percent on average when baseline and at least 9 percent when progressive, and each by at least 7 percent, for any chroma subsampling; the size hardly depends on whether the same coefficients were stored as baseline or progressive JPEG. At any image size and quality, a Brunsli file exceeds its JPEG by at most 64 bytes. Compression does not fall behind the released encoder by more than 1 percent.",
  ["inputs"], "synthetic natural-statistics images compressed by an independent JPEG encoder at many qualities, sizes, samplings",
  "Compression is a statistical property over a corpus; a modelling regression stays lossless and passes all tests.",
  [ENC, "c/enc/cluster.h", "c/enc/context_map_encode.cc", "c/common/context.cc"], [("context modelling", ENC + ": EncodeAC, EncodeDC"), ("histogram clustering", "c/enc/cluster.h")],
  ["size of encoded file relative to the JPEG"])
p("B01", "Bypass mode carries any bytes unchanged",
  "Any non-empty byte string, JPEG or not, encoded in bypass mode is recovered exactly by every decoding interface (one-shot, streaming, C), and the bypass file fits the advertised bypass size.",
  ["inputs"], "arbitrary bytes, truncated and mutated JPEGs, and valid JPEGs of all sizes around length-encoding boundaries",
  "The suite checks a single 4-byte payload.",
  [ENC, DEC], [("bypass encode", ENC + ": BrunsliEncodeJpegBypass"), ("bypass decode", DEC + ": DecodeOriginalJpg")],
  ["bytes after decode"])
p("S01", "JPEG parsing and encoding are memory-safe on arbitrary input",
  "For every byte string, parsing it as a JPEG (in any mode) and, if accepted, encoding it terminates without reading or writing out of bounds, using uninitialized or freed memory, executing undefined behaviour, or aborting.",
  ["inputs"], "random bytes, mutated JPEGs, and syntactically legal JPEGs with extreme parameters, under address and undefined-behaviour sanitizers",
  "Memory errors live in inputs nobody wrote a test for.",
  [RD, "c/enc/jpeg_huffman_decode.cc", ENC], [("parser", RD + ": ReadJpeg"), ("encoder", ENC)], ["sanitizer reports, process status"])
p("S02", "Decoding is memory-safe and terminates on arbitrary input",
  "For every byte string, decoding it in one shot or by streaming, estimating its memory use, and serializing the result when accepted, terminates without out-of-bounds access, use of freed memory, undefined behaviour, abort or unbounded work. Corrupt data is reported by a status, never by a crash.",
  ["inputs", "histories"], "random bytes, bit/byte/section-level mutations of valid Brunsli files with consistent lengths, and arbitrary chunkings, under sanitizers",
  "Decoder state space on hostile data is unbounded; unit tests feed it a few valid files.",
  [DEC, WR, "c/dec/histogram_decode.cc", "c/dec/huffman_decode.cc", "c/dec/context_map_decode.cc", "c/dec/bit_reader.h"],
  [("section parsing", DEC), ("serialization of hostile models", WR)], ["sanitizer reports, process status"])
p("S03", "Work is proportional to the data",
  "For any JPEG, parsing, serialization, encoding, decoding in one piece or in pieces of any size, and size and memory estimates take work proportional to the amount of data, whatever it is made of: segments, comments, bytes between markers, tables, scans, blocks, restart intervals, padding bits, zero runs or bytes after the end. Refusing a part of a file takes no more work than accepting the whole, and calling a streaming decoder again without input takes next to none.",
  ["inputs", "histories"], "generated families of JPEGs in which the amount of one thing grows, and the streams made of them, under random piece sizes, room for output and truncation",
  "The suite does not measure work, and its files are too small for a quadratic cost to be noticed.",
  [RD, ENC, DEC, WR], [("segments", RD + ": ProcessAPP, ProcessCOM, ReadJpeg"), ("metadata", ENC + ": EncodeMetaData, " + DEC + ": ProcessMetaData"), ("resumption", DEC + ": ProcessJpeg, LoadInput, " + WR + ": SerializeJpeg")],
  ["basic blocks executed, bytes copied, memory requested"])
p("M01", "The decoder memory estimate bounds actual memory use",
  "For every Brunsli file produced by the encoder, the estimated decoder peak memory is non-zero, is computed without decoding the image or allocating memory for it, is not exceeded by the memory the one-shot decoder really allocates (up to a small tolerance and the copies of metadata, tables and other non-pixel data), and does not grossly overstate it. Writing the JPEG as well, in one go or incrementally with any room for output, stays within it too, unless wasteful codes make the JPEG more than twice as big as its file. For missing data, other formats, and data that ends or is damaged before the information needed is complete the estimate is zero.",
  ["inputs"], "generated images of many shapes and metadata loads, measured with an allocation counter; and non-Brunsli or header-damaged data",
  "The estimate combines many terms whose weights change with the image; the suite never calls it.",
  [DEC], [("estimator", DEC + ": BrunsliEstimateDecoderPeakMemoryUsage")], ["return value versus measured allocations"])
p("L01", "Every call gives back the memory it took",
  "Whatever the outcome of an operation - success, refusal at any point, a buffer that is too small, a sink that stops consuming, a stream abandoned after any call - all memory it took is released once its objects are gone, so that any number of operations in one process needs no more memory than one. This covers parsing, encoding, bypass, one-shot, incremental and group decoding, serialization, estimation and the C interface.",
  ["inputs", "histories", "fault_sequences"], "generated JPEGs and streams, valid, damaged and truncated, times capacities, failing sinks and abandoned incremental decodings",
  "Each early exit is its own release path; the suite neither takes them nor looks at memory.",
  [DEC, ENC, RD, WR, "c/dec/state.cc", "c/dec/decode.cc", "c/enc/encode.cc", "c/experimental/groups.cc"],
  [("decoder state", "c/dec/state.cc: ~State, ~MetadataState"), ("metadata decompression", DEC + ": DecodeMetaDataSection"), ("early exits", ENC + ", " + RD)],
  ["memory in use by the process before and after the operation"])
p("T01", "A truncated Brunsli file is never accepted",
  "For every valid Brunsli file and every strict prefix of it, one-shot decoding fails reporting missing data and the C interface reports failure; streaming decoding asks for more input, never reports completion or error, and any JPEG bytes it already produced are a prefix of the original JPEG.",
  ["inputs", "crash_points"], "every cut position of generated Brunsli files (all cuts for small files, sampled and section-boundary cuts for large ones)",
  "Every byte position is a different decoder state; tests sample one file.",
  [DEC], [("section state machine", DEC + ": ProcessJpeg, Parse*"), ("stream input", "c/dec/brunsli_input.h")], ["status codes, streamed output"])
p("T02", "The container structure is enforced",
  "A stream with a wrong signature, a duplicated, missing, reordered or wrongly sized required section, metadata whose content does not have its declared length, or bytes after the last section is rejected by every decoding interface, whereas well-formed sections and header fields of unknown kind are skipped without changing the decoded JPEG.",
  ["inputs"], "structure-level edits of generated valid files: drop, duplicate, swap, resize, retag, insert unknown sections/fields, append bytes, damage signature",
  "Rejection logic is a set of independent branches for each section kind and state; the suite covers none of them.",
  [DEC], [("section dispatch", DEC + ": ProcessJpeg"), ("header parsing", DEC + ": DecodeHeader")], ["decode status"])
p("T03", "Streaming decoding equals one-shot decoding for every chunking",
  "For every stream, valid or not, and for every way of cutting the input into chunks and offering output space, the incremental decoder ends with the same verdict as one-shot decoding, and for valid streams the concatenated output is exactly the original JPEG.",
  ["inputs", "schedules", "histories"], "generated valid, bypass, and corrupted streams under random, byte-wise, boundary-aligned and adversarial input/output chunkings",
  "The number of interleavings of input and output boundaries with decoder states is huge; the suite tries a fixed few on small files.",
  [DEC, WR], [("resumable parsing", DEC + ": BrunsliDecoder::Decode, ProcessJpeg"), ("resumable serialization", WR + ": SerializeJpeg")], ["statuses and output bytes of BrunsliDecoder::Decode"])
p("T04", "The streaming protocol is sound at every call",
  "At every call the incremental decoder only moves its cursors forward within the offered buffers, asks for input only when all offered input is consumed, asks for output only when the offered output is full, always makes progress otherwise, and stays in its final verdict; it never depends on input buffers of earlier calls, which the caller may overwrite or free.",
  ["histories", "schedules"], "random call histories in which each input buffer is overwritten and released right after the call",
  "Violations need a particular interleaving of buffer reuse and pending output.",
  [DEC, WR, "c/dec/output_chunk.h"], [("decoder loop", DEC + ": BrunsliDecoder::Decode"), ("read-ahead buffer", DEC + ": LoadInput/UnloadInput"), ("output queue", "c/dec/output_chunk.h")], ["cursor movement, statuses, output bytes"])
p("T05", "The incremental decoder delivers output as soon as it is determined",
  "The incremental decoder does not hold the JPEG back: in the very call that hands it the data, and given room, it delivers the JPEG up to the first scan once the DC data begins, all scans that consist of DC coefficients only (first passes and refinements) that precede any other scan once the DC data is complete, and, while the AC data of a sequential image arrives, the completed rows of its scan (by blocks of tens of KB) - for every image, chunking and output buffer size; and the rest when the stream ends.",
  ["inputs", "histories"], "generated baseline and progressive images, small to hundreds of KB, given up to many random positions in their streams",
  "Delivery points depend on the scan script and on where the input pauses; the suite looks at the complete output only.",
  [DEC, WR], [("what a scan needs", WR + ": DoEncodeScan"), ("output queue", WR + ": SerializeJpeg"), ("progress of the rows", DEC + ": DecodeDC, DecodeAC")], ["bytes delivered by each call of BrunsliDecoder::Decode"])
p("A01", "The C interface agrees with the C++ interface and honours its sinks",
  "The C encode and decode functions succeed exactly when the C++ interface does and deliver exactly the same bytes, in order, with the caller's context pointer. If the sink ever consumes a number of bytes different from what it was offered, the function reports failure and does not call the sink again.",
  ["inputs", "fault_sequences"], "generated JPEGs, Brunsli files and garbage, with sinks that fail or shorten at any chosen call",
  "Sink failure at each output position is a separate path; the suite only uses a sink that never fails.",
  ["c/enc/encode.cc", "c/dec/decode.cc", WR], [("C encode", "c/enc/encode.cc: EncodeBrunsli"), ("C decode", "c/dec/decode.cc: DecodeBrunsli"), ("writer", WR + ": WriteJpeg")], ["return value and sink call log"])
p("A02", "Format recognition and status reporting are exact",
  "Recognition says yes exactly for data that begins with the six-byte Brunsli signature. One-shot decoding reports success only for complete valid streams, missing data for prefixes of valid streams (input shorter than the signature always counts as such), and an error otherwise; a representation with inconsistent or missing parts makes serialization fail instead of producing bytes silently.",
  ["inputs"], "random and near-miss signatures of all lengths, prefixes, corruptions, and inconsistent image models",
  "Boundary lengths and near misses are not enumerated by tests.",
  [DEC, WR], [("recognition", DEC + ": IsBrunsli"), ("status", DEC + ": BrunsliDecodeJpeg")], ["return values"])
p("G01", "Group-parallel coding is lossless under any schedule",
  "Encoding an image in groups and decoding it in groups restores the same image model and the same JPEG bytes for every legal group size, and the result does not depend on the executor: sequential, parallel with any number of threads, or any order of task execution give identical output, without data races or deadlocks. A truncated or extended group file is refused, and no damaged one causes a memory error.",
  ["inputs", "schedules", "configurations"], "generated images times group dimensions times executors that run tasks in permuted orders or truly in parallel",
  "Partition edge cases and task orders multiply; the suite never runs this code.",
  ["c/experimental/groups.cc", "c/experimental/groups.h", ENC, DEC], [("group encode", "c/experimental/groups.cc: EncodeGroups"), ("group decode", "c/experimental/groups.cc: DecodeGroups")], ["encoded bytes, decoded model"])
p("E01", "Entropy-code tables survive transmission for any statistics",
  "For any symbol statistics, the stored histogram is read back to the same normalized distribution the encoder uses, every symbol that occurs keeps a positive probability, and any symbol sequence coded with it is decoded exactly.",
  ["inputs"], "random, sparse, skewed and extreme histograms and symbol sequences over the whole alphabet",
  "Normalization and rebalancing corner cases depend on exact counts.",
  ["c/enc/histogram_encode.cc", "c/dec/histogram_decode.cc", "c/enc/ans_encode.cc", "c/dec/ans_decode.cc"], [("histogram coding", "c/enc/histogram_encode.cc, c/dec/histogram_decode.cc"), ("ANS", "c/enc/ans_encode.h, c/dec/ans_decode.h")], ["decoded histograms and symbols"])
p("E02", "Prefix codes and context maps round-trip for any content",
  "Any context map with any number of clusters is read back exactly; any prefix code built for transmission is complete, within its length limit, and decodes any symbol sequence to itself; malformed code descriptions are rejected.",
  ["inputs"], "random symbol frequency tables, context maps of all sizes and run structures, and random code-length vectors",
  "Length limiting, run-length and move-to-front corner cases need specific distributions.",
  ["c/enc/huffman_tree.cc", "c/enc/huffman_encode.cc", "c/enc/context_map_encode.cc", "c/dec/context_map_decode.cc", "c/dec/huffman_decode.cc", "c/dec/huffman_table.cc"], [("tree construction", "c/enc/huffman_tree.cc: CreateHuffmanTree"), ("context map", "c/enc/context_map_encode.cc, c/dec/context_map_decode.cc")], ["decoded symbols and maps"])
p("E03", "Permutation, quantization and bit-level codes are exact inverses",
  "Permutation coding is a bijection that both sides compute identically, the bit reader returns exactly the bits that were written and flags reading past the end, the adaptive binary coder returns the coded bits, and quantization-matrix prediction is identical and in range for every quality factor.",
  ["inputs"], "random permutations, bit sequences with arbitrary widths, probability histories, all quality factors and random matrices",
  "Exactness must hold for every permutation, width and alignment.",
  ["c/common/lehmer_code.cc", "c/common/lehmer_code.h", "c/common/quant_matrix.cc", "c/common/distributions.h", "c/dec/bit_reader.cc", "c/enc/write_bits.h", "c/dec/arith_decode.h"], [("Lehmer codes", "c/common/lehmer_code.cc"), ("bit IO", "c/dec/bit_reader.h, c/enc/write_bits.h"), ("quantization", "c/common/quant_matrix.cc")], ["values read back"])
p("H01", "Headerless decoding equals full decoding",
  "Given the image geometry and version from outside, the sections of a valid stream without its signature and header decode, in one piece or resumed over any pieces placed anywhere in the caller's buffers, to the same image and the same JPEG as the full stream. Truncated sections are reported as missing data; a signature, header, bypass payload or repeated section among them, and bytes after the end, are rejected; and what is decided about damaged sections does not depend on the pieces.",
  ["inputs", "histories", "schedules"], "sections of generated streams of both versions, plain, truncated, damaged or rearranged, under random piece sizes and positions, moved states and interleaved serialization",
  "The suite decodes one fixed headerless stream in one piece at offset zero.",
  [DEC, "c/dec/state.h", "c/dec/state.cc", WR], [("headerless set-up", DEC + ": UpdateSubsamplingDerivatives, PrepareMeta, WarmupMeta"), ("resumption", DEC + ": ProcessJpeg, LoadInput, UnloadInput"), ("section checks", DEC + ": ParseSection, ReadTag")],
  ["ProcessJpeg and SerializeJpeg statuses, State::pos, JPEGData, output bytes"])
p("K01", "The codec behaves the same in every build",
  "Builds of the library for another compiler, byte order independent memory access, unsigned characters, other floating point arithmetic, or with assertions and logging make the same Brunsli file of a JPEG, restore every stream to the same JPEG, refuse the same damaged data with the same status, estimate the same memory, and never trip an assertion.",
  ["inputs", "configurations"], "generated JPEGs, damaged JPEGs and streams, other data, and all pairs of an encoding and a decoding build",
  "The suite runs one build; code paths selected by the compiler or the processor, and assertions, which are off in it, never run.",
  ["c/common/platform.h", "c/common/port.h", "c/common/context.cc", "c/dec/brunsli_input.h", "c/enc/write_bits.h", "c/enc/fast_log.h"],
  [("memory access", "c/common/platform.h: BRUNSLI_UNALIGNED_LOAD16LE, BRUNSLI_UNALIGNED_STORE64LE"), ("fallbacks", "c/common/platform.h: Log2FloorNonZero, BRUNSLI_DCHECK"), ("floating point", "c/common/context.cc: kSqrt2FixedPoint, c/enc/histogram_encode.cc")],
  ["Brunsli files, JPEG bytes and statuses of every build"])
p("C01", "The command-line tools transcode files losslessly and report failure",
  "The compressor and decompressor tools turn any accepted file into a file that converts back to the identical bytes, write to the named or default output path, and exit non-zero without leaving a plausible result when the input is missing, empty, invalid or truncated, or the output cannot be written.",
  ["inputs", "fault_sequences"], "generated JPEG files, damaged files, missing paths, unwritable outputs, with and without explicit output names",
  "The suite never runs the tools.",
  ["c/tools/cbrunsli.cc", "c/tools/dbrunsli.cc"], [("compressor", "c/tools/cbrunsli.cc"), ("decompressor", "c/tools/dbrunsli.cc")], ["exit codes and files"])
p("J01", "The Java wrapper behaves exactly like the native codec",
  "Encoding and decoding through the Java wrapper yields exactly the bytes of the native interface for every accepted input, and reports failure for every input the native interface refuses, without crashing the virtual machine.",
  ["inputs", "histories"], "generated JPEGs, Brunsli files and damaged data passed through the wrapper in one long-lived virtual machine",
  "The Java test is not part of the suite and holds one sample.",
  ["java/dev/brunsli/wrapper/Codec.java", "java/dev/brunsli/wrapper/CodecJNI.java", "java/dev/brunsli/wrapper/codec_jni.cc"], [("wrapper", "java/dev/brunsli/wrapper/Codec.java"), ("JNI glue", "java/dev/brunsli/wrapper/codec_jni.cc")], ["Java return values"])
p("W01", "The WebAssembly glue behaves exactly like the native codec",
  "The functions exported for WebAssembly transcode in both directions with exactly the bytes of the native interface, report failure for what it refuses, and their incremental decoder produces the full JPEG for any feeding of input within its buffer, releasing all its memory.",
  ["inputs", "histories"], "generated inputs fed one-shot and in random chunks of up to the buffer size",
  "The glue is only compiled, never executed, by the build and tests.",
  ["wasm/codec.cc"], [("glue", "wasm/codec.cc")], ["results of exported functions"])
p("N01", "Web servers deliver the Brunsli variant exactly when the client accepts it",
  "For every request, the Apache and the nginx module deliver the precompressed file `<name>.j`, labelled image/x-j and complete, when it exists as a regular file and the Accept header lists image/x-j as one of its media ranges at any position, with or without parameters (for nginx: or the directive says always), and otherwise leave the request to the server untouched: similar types (image/x-jxl, image/*, */*) never count. No header crashes the server; nginx marks responses that depend on the header as varying, and reports an internal error, sending nothing, when a resource cannot be allocated or a file cannot be looked up.",
  ["inputs", "configurations", "fault_sequences"], "generated Accept headers (lists of equal, similar, malformed and damaged media ranges), methods, URIs, file states, directive values in nested blocks, and a failure of any one call into the server",
  "The modules are neither built nor tested by the suite, and the header is under the client's control.",
  ["contrib/mod_brunsli/mod_brunsli.c", "contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c"],
  [("Apache", "contrib/mod_brunsli/mod_brunsli.c: accept_brunsli, brunsli_handler"), ("nginx", "contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c: ngx_http_brunsli_static_handler")], ["handler results, headers and body handed to the server"])
p("P01", "Patched Python image libraries read Brunsli files as the JPEG they hold",
  "A patched library function called with a Brunsli file gets, with all other arguments and its result or exception passed through, the name of a temporary file holding exactly the original JPEG, or the call raises RuntimeError without calling the library when the conversion fails; for any other file the call goes through unchanged. Afterwards no temporary file is left and the input is as it was, whatever the converter and the library did. Recognition is exact for every file and never raises; patching repeatedly or under any module name is safe.",
  ["inputs", "fault_sequences", "histories"], "generated files (valid, damaged, foreign, missing, directories), file names, arguments, converters that fail, crash, or leave files, libraries that raise, and nested calls",
  "There are no tests of this package.",
  ["contrib/py/jxl_library_patches/__init__.py", "contrib/py/jxl_library_patches/jxl_utils.py", "contrib/py/jxl_library_patches/jxl_imageio.py", "contrib/py/jxl_library_patches/jxl_pillow.py", "contrib/py/jxl_library_patches/jxl_pythonmagick.py"],
  [("conversion", "contrib/py/jxl_library_patches/jxl_utils.py"), ("patching", "contrib/py/jxl_library_patches/__init__.py")], ["arguments, data and exceptions seen by the library and its caller; directory contents"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
