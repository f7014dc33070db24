#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "default": "TLC judges every recorded execution, event by event, against the TLA+ rules of shogi on the 9x9 board; behaviours generated by TLC "
            "are repeated by the library; a search over 10^5-10^7 further states (generated use, exhaustive families of positions, long games) "
            "steered by a transcription of the same rules selects executions which TLC then judges before anything is reported. "
            "The code is sampled over inputs, exhaustive only for the families; the specification's own algorithm model is checked "
            "exhaustively on small boards (AlgoMC, MachineMC, ShogiMC). Assumes the specification states the rules.",
 "C13": "TLC decides, over all recorded states of a trace, that keys are an injective function of the position. A search for collisions (parts whose "
        "real keys cancel in sums of up to six; a birthday search over some 10^7 positions; positions differing in one respect) selects "
        "pairs which TLC judges. Injectivity beyond what was searched is assumed from 63 random bits.",
 "C15": "As for the other properties: every recorded call is judged by TLC; panics, overflows, crashes, hangs and accesses to memory outside of "
        "objects (a build with AddressSanitizer, where the nightly compiler is present) are events that no state of the specification allows. "
        "Sampled over inputs; exhaustive only for the families.",
 "C14": "TLC compares recordings of the same calls made in the portable and the AVX2 build and twice in one build; digests of many more "
        "executions, made in these and in the NEON and WebAssembly code compiled against emulated intrinsics, select further ones to record. "
        "The bit algorithms of all four are modelled (Bitboard) and checked exhaustively per line. For NEON and WebAssembly the instruction "
        "set itself and the rest of those targets are assumed.",
 "C20": "TLC compares recordings made by several threads (many cold starts) with those of one thread, and judges interleaved queries. "
        "Real schedules are sampled, not enumerated; those of the design (tables filled on first use, objects shared) are, in LazyMC. "
        "Send/Sync is decided by the compiler.",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bin/check --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: everything is observed through the public API. Language: TLA+, checked with TLC."}
for p in props:
    i = p["id"]
    m["checks"].append({
        "property": i,
        "quick_cmd": f"bin/check {i} --tier quick",
        "thorough_cmd": f"bin/check {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "model-based: TLA+ specification, TLC validation of recorded executions and replay of TLC-generated behaviours",
        "level": "model_checking",
        "level_note": NOTE.get(i, NOTE["default"]),
    })
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
