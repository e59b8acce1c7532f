#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
CLAIMED = {
 "C01": ("property-based testing: generated modules, constructive oracle on FUNC records", "Random program models are written as ELF, Mach-O, PE and PDB files by independent writers; the FUNC records must equal the model's functions. Trusts the writers and the .sym parser of the harness."),
 "C02": ("property-based testing: address-to-line function compared with the generated line table", "Every address where a position changes, and its neighbours, is resolved through the output and compared with the model's line table and inline tree. Trusts the writers."),
 "C03": ("property-based testing: inline stack per address compared with the generated inline tree", "As C02, for the stack of INLINE records at every address of interest."),
 "C04": ("property-based testing: generated symbol tables against a reference model of PUBLIC records", "Symbols whose treatment depends on partially overlapping earlier symbols are left undecided; everything else must match exactly."),
 "C05": ("property-based testing: header lines recomputed from the generated module and file name", "MODULE and CODE_ID lines of generated ELF, Mach-O, PE and PDB files under generated names, directories and pairings are recomputed independently."),
 "C06": ("property-based testing: generated call frame programs executed by a reference model, compared address by address with the STACK records", "Random CIE/FDE programs (eh_frame, debug_frame), x86_64 unwind codes and x86 PDB frame data; --check-cfi compared with the plain run or required to fail."),
 "C07": ("property-based testing: hostile strings in every name position; strict parser and referential-integrity invariants on the output", "Generated modules of every format and merged ones with control characters, invalid UTF-8, empty and very long strings. Trusts the strict parser of the harness."),
 "C08": ("property-based testing: FILE paths compared with a reference join over generated directories, names, links and files on disk", "Random compilation directories, directories and names, real files and symbolic links; reference implementation of joining and normalising."),
 "C09": ("property-based testing: FILE paths compared with a reference implementation of the mapping rules over generated rules, templates, variables and files", "Rules, templates, variables, file lists and source files on disk are generated; invalid configurations must fail without output. Trusts the regex crate for matching."),
 "C14": ("property-based testing: differential, cabinet against the bare member", "Random cabinets (folders, stored/MSZIP, decoy members) around generated modules of every format; missing members and truncated cabinets must fail or agree. LZX is not generated."),
 "C15": ("property-based testing: generated placements of right, wrong and damaged companions against the model of the pair", "Every place where a companion may lie gets random contents; the output must be that of the right pair or of the file alone, in both directions."),
 "C19": ("property-based testing: generated .gnu_debugdata sections against the model and the file without the section", "Inner and outer symbol tables are generated, compressed by xz or as stored chunks, or damaged; PUBLIC records must match the model, everything else the plain file."),
 "C20": ("property-based testing: generated exception and export tables against a reference model of the records", "Sorted, unsorted, overlapping, duplicate and inverted entries; records depending on the reading of 'inside' are left undecided."),
 "C10": ("property-based testing: a generated module split over several files, merged output compared with the model and across argument orders and -j", "Random splits into stripped, debug and partial debug files; reference model of the merge; permutations of arguments."),
 "C11": ("property-based testing with controlled schedules: inputs are FIFOs fed in generated orders and delays, with failing inputs injected", "Every run must end within a time limit, store exactly the files of one-module runs and report failures. Schedules are steered through the order in which inputs become readable, not at instruction level."),
 "C12": ("property-based testing: metamorphic relation between output modes plus reference store path", "Each generated module is dumped in one of seven output modes over random earlier file contents; the whole scratch tree and standard output are compared with the expectation."),
 "C16": ("property-based testing: differential, fat member against thin file", "Generated fat files with random members, order and alignment; --arch output must equal the thin file's; --list-arch against the generated list."),
 "C22": ("property-based testing: differential, bundle against the file inside it", "Generated bundles, near-bundles and directories; output compared with the bare DWARF file's."),
 "C23": ("property-based testing: reference model of the INFO lines; the rest compared with a plain run", "Generated valid and invalid --extra-info values and option combinations."),
 "C17": ("property-based robustness fuzzing: mutated valid files of every format, cabinets and random bytes against an oracle on termination, exit status, messages and files; damage inside one unit against the constructed functions of the others", "Damage is generated (flips, numbers, truncation, splices), not coverage-guided; panics raised inside parsing libraries count as refusal."),
 "C18": ("property-based testing: names generated from the mangling grammars together with their meaning", "Constructive Itanium, MSVC, Rust v0/legacy names, clone suffixes and Windows decorations; the texts of FUNC, PUBLIC and INLINE_ORIGIN records must be the generated meanings."),
 "C21": ("property-based testing: metamorphic, repeated runs under varied -j, verbosity, directory and output mode must agree byte for byte", "Generated modules with many files, functions and origins, single and split over several files; input files compared before and after."),
 "C13": ("stateful property-based testing: histories of runs against loopback HTTP servers with generated answers and faults, compared with a model of caches and servers", "Servers answer with good, redirected, chunked, truncated, empty, failing and dropped responses; caches are edited between runs; where several servers offer the file each choice is accepted. HTTP only (no TLS)."),
 "C24": ("fault injection over generated inputs: full, read-only, missing and closed outputs at generated points", "Outputs go to size-limited files (RLIMIT_FSIZE), /dev/full, closed pipes, directories and unwritable places; exit status 0 must mean complete outputs."),
}
NA = {}
checks = []
for i in ids:
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=n))
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in CLAIMED]
m = dict(version=1, setup_cmd="bash check.sh setup", checks=checks, not_applicable=na,
    notes="No hooks in /repo: every check drives the dump_syms executable built from the working tree. Seeds: VERIF_SEED. Replay: bash check.sh replay FILE.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
