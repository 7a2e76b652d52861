#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
T = {
 "C01": ("TLA+ linker+CPU machine (TLC) run on the real object files against source-level execution",
         "Trace validation by TLC: real objects are linked and executed in the specification at many load addresses and compared with the source's own execution. Assumes the modelled ISA fragment; CPU and decoder are the specification's."),
 "C02": ("TLA+ x86-64 decoder (TLC): requests enumerated from the model, real encodings validated as traces",
         "All 16x16 register pairs, all registers x boundary immediates, plus seeded random immediates; the decoder in the specification is trusted (cross-checked with objdump/llvm-mc)."),
 "C03": ("TLA+ x86-64 decoder (TLC): requests enumerated from the model, real encodings validated as traces",
         "All base/index/scale shapes x boundary displacements, every bit pattern of the displacement on the special shapes, plus seeded random ones; not all 2^32 displacements per shape."),
 "C04": ("TLA+ assembler specification, trace validation of real assemblies with TLC", ""),
 "C05": ("TLA+ assembler specification, trace validation of real assemblies with TLC", ""),
 "C06": ("TLA+ assembler specification, trace validation of real assemblies with TLC", ""),
 "C07": ("TLA+ assembler specification, trace validation of real assemblies with TLC", ""),
 "C08": ("TLA+ source grammar and data semantics, trace validation with TLC", ""),
 "C09": ("TLA+ source grammar and 64-bit arithmetic, trace validation with TLC", ""),
 "C10": ("TLA+ source grammar and x86-64 decoder, trace validation with TLC", ""),
 "C11": ("TLA+ assembler specification (acceptance), trace validation with TLC", ""),
 "C12": ("TLA+ canonical form of sources, pairs of real assemblies validated with TLC", ""),
 "C13": ("TLA+ session specification, schedules of feeds/writes enumerated by TLC and replayed", ""),
 "C14": ("TLA+ Mach-O well-formedness rules over the emitted bytes, TLC", ""),
 "C15": ("TLA+ Mach-O reader as refinement of the object given, TLC", ""),
 "C16": ("TLA+ record tables, write/read traces validated with TLC", ""),
 "C17": ("TLA+ record tables in both byte orders, read traces validated with TLC", ""),
 "C18": ("TLA+ load-command stream machine, traces validated with TLC", ""),
 "C19": ("TLA+ string-table machine, behaviours enumerated by TLC and replayed", ""),
 "C20": ("TLA+ specification of the command over a file system, runs of the real command validated with TLC", ""),
 "C21": ("TLA+ faulty source/sink machine, every failure position replayed, validated with TLC", ""),
 "C22": ("TLA+ constant tables, exhaustive traces validated with TLC", ""),
 "C23": ("TLA+ bounded byte strings, traces validated with TLC", ""),
 "C26": ("TLA+ streams that end or fail: schedules from TLC and failures at every byte, traces validated with TLC", ""),
 "C28": ("TLA+ decision of what bytes encode: corrupted encodings from TLC and random ones, traces validated with TLC", ""),
 "C27": ("TLA+ records, instructions and objects: traces of the code on a big-endian machine (Miri) validated with TLC", ""),
 "C25": ("TLA+ object as seen through the library's readers: write/read-back traces validated with TLC", ""),
 "C29": ("TLA+ Mach-O reader and writer design over sparse files of any size (9-byte words), traces validated with TLC", ""),
 "C30": ("TLA+ specification of outcomes independent of the build; requests made in both builds, compared and judged with TLC", ""),
 "C24": ("TLA+ register table, exhaustive traces validated with TLC", ""),
}
DEFAULT = ("Every recorded execution of the real code is accepted or rejected by TLC against the specification; "
           "inputs are enumerated from bounded models and extended with seeded random ones, so the assurance is "
           "that of the explored inputs. The specification is trusted.")
have = check.table()
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through public interfaces and the command."}
for p in props:
    if p in have:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p,
                            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                            "technique": T[p][0], "level": "model_checking", "level_note": T[p][1] or DEFAULT})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
