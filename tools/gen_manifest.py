#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check (specs.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run  # noqa: E402

GEN = "generated JPEGs (independent generator with its own entropy coder) "
T = {
    "R01": ("property-based round trip: encode, decode, serialize, compare bytes",
            GEN + "and damaged variants; the oracle is the input itself. Sampling only: no claim beyond the generated cases."),
    "R02": ("property-based acceptance test over a generator of conforming JPEGs",
            "Every generated file is conforming by construction; the oracle is acceptance by parser and encoder."),
    "R03": ("property-based differential test against the generator's ground truth",
            "The generator knows geometry, tables, scans and coefficients of each file; every field is compared in full, header-only and tables-only modes."),
    "R04": ("property-based round trip: parse, serialize, compare bytes", GEN + "and damaged variants."),
    "R05": ("property-based round trip of image models", "Models are generated directly as well as parsed from files; every field and coefficient is compared, for both context models."),
    "R06": ("property-based negative testing: targeted and random damage with a known verdict", "Each damage operator makes the file invalid by construction; the oracle is refusal with an error code."),
    "F01": ("differential fuzzing against a frozen copy of the released codec", "The frozen copy in /verif/ref is trusted as the definition of the format."),
    "F02": ("metamorphic testing: repeated, concurrent, memory-poisoned and buffer-size-varied runs must agree byte for byte", "Heap contents are varied by allocator poisoning; threads by real concurrency."),
    "Z01": ("property-based search for expansion with adversarial coefficient generators", "Worst cases are approached by generators and a hill-climbing search, not enumerated."),
    "Z02": ("property-based fault injection: every kind of too small buffer, under AddressSanitizer", "Exactly sized heap buffers make any stray write a crash."),
    "Z03": ("statistical property test over generated photographic images", "Synthetic photographs stand in for natural ones; margins are asserted on averages and on the maximal overhead."),
    "B01": ("property-based round trip over arbitrary bytes and all interfaces", "Sampling of sizes and contents, including non-JPEG data."),
    "S01": ("structured fuzzing under AddressSanitizer and UBSan, then coverage-guided fuzzing, then MemorySanitizer", "Detects what the sanitizers detect on the explored inputs; pointer-null memcpy and left shifts of negative values are not counted as violations."),
    "S02": ("structure-aware fuzzing of streams under AddressSanitizer and UBSan, then coverage-guided fuzzing, then MemorySanitizer", "As S01; termination is a CPU-time bound per case."),
    "S03": ("metamorphic testing of counted work over growing families of files", "Work is counted as basic blocks, bytes copied and memory requested by the codec; the Brotli library is not counted."),
    "M01": ("property-based test with a counting allocator", "Memory is what passes through malloc and operator new during one decode."),
    "L01": ("property-based leak test over operations and their fault points with a counting allocator", "Memory is what passes through malloc and operator new; one-time set-up does not count, as a leak has to show in four repetitions."),
    "T01": ("exhaustive and random truncation of generated streams, prefix invariant over the history", "Small streams are cut at every byte, larger ones at section boundaries and at random."),
    "T02": ("structure-aware mutation of the section container with a known verdict", "An independent container parser and builder edits valid streams."),
    "T03": ("stateful differential fuzzing: one-shot against incremental decoding under random chunkings", "Streams are valid, damaged or truncated; chunkings random."),
    "T04": ("stateful protocol monitor over random call histories with freed input buffers, under AddressSanitizer", "The monitor checks every call of every history."),
    "T05": ("differential test of the bytes delivered at random pauses against the released incremental decoder", "What is due at a position is what the released decoder delivers there, less 64 bytes, or 20 KB where more than 16 KB are due."),
    "A01": ("differential and fault-injection testing of the C interface", "Oracle: the C++ interface; sinks misbehave at a random call."),
    "A02": ("property-based testing with inconsistent models and near-miss signatures", "Each inconsistency makes the model unserializable by construction."),
    "G01": ("property-based test over group sizes and permuted or parallel schedules", "Executors run tasks in random order, nested or on several threads."),
    "E01": ("property-based round trip of statistics and coded symbol sequences", "Histograms from adversarial families; oracle is the coded sequence."),
    "E02": ("property-based round trip plus an independent prefix-code model", "Code validity is judged by Kraft sum computed in the check."),
    "E03": ("property-based round trip against reference models", "Independent O(n^2) permutation coder, bit-list reader model and frozen quantization prediction."),
    "H01": ("stateful differential fuzzing: sections without a header, in one piece and in pieces, against the full stream", "Uses the internal headerless interface (c/dec/state.h); falls back on whole-codec round trips when it has changed."),
    "K01": ("differential fuzzing between builds of the codec in one process", "Four builds: plain, portable (unknown compiler, endian neutral, unsigned char, pattern-filled variables), debug (clang, assertions, logging) and x87 with fast-math; big-endian processors and 32-bit address spaces are not available here."),
    "C01": ("property-based testing of the built command-line tools in scratch directories", "Tools are built from the tree and run as processes; files live in a scratch directory."),
    "J01": ("differential fuzzing of the Java wrapper in a JVM against the native results", "Oracle: results of the native interface for the same generated corpus."),
    "W01": ("differential and stateful testing of the WebAssembly glue compiled natively", "The glue runs as native code, not in a WebAssembly engine."),
    "N01": ("model-based testing of the modules' handlers with fault injection, against stand-ins for the servers", "The stand-ins follow the documented behaviour of APR, httpd and nginx; the real servers are not available here. Weight zero (q=0), other case and malformed ranges may go either way."),
    "P01": ("model-based property testing (hypothesis) with stand-ins for the image libraries and misbehaving converters", "The image libraries are not installed here; stand-ins record what they are given."),
}
NA = {}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    assert set(props) == set(T), set(props) ^ set(T)
    checks, na = [], []
    for p in props:
        if p in run.SPECS:
            checks.append({
                "property": p,
                "quick_cmd": "python3 run.py %s --tier quick" % p,
                "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": T[p][0],
                "level": "exploration",
                "level_note": T[p][1],
            })
        else:
            na.append({"property": p, "reason": NA.get(p, "The check is still being built.")})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. known_findings.txt lists repaired defects (fixed:) and open findings."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
