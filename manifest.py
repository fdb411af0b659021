#!/usr/bin/env python3
"""Writes MANIFEST.json. Properties without an entry here are listed as not yet decided."""
import json, os
E2E = "lapex::generate is called in process, what it writes is compiled ({}) and run on generated inputs"
T = {
 "C01": ("random token sets and texts; generated Rust lexers compiled and run, differential against a two-matcher longest-match model", "tolerant where a lexer without backtracking may report an error; NUL excluded"),
 "C02": ("random token sets, texts and damaged byte streams; generated C++ lexers compiled and run against the same model plus a UTF-8 decoder model", "NUL excluded"),
 "C05": ("random grammars and token sequences; generated LR(1) Rust parsers compiled and run, differential against a fixpoint recogniser", "grammars of up to about ten rules"),
 "C06": ("random grammars and token sequences; generated LALR Rust parsers compiled and run, differential against a fixpoint recogniser", "grammars of up to about ten rules"),
 "C07": ("random grammars and token sequences; generated LR(0) Rust parsers compiled and run, differential against a fixpoint recogniser", "grammars of up to about ten rules"),
 "C08": ("random grammars and token sequences; generated C++ LR parsers compiled and run, visitor logs judged as derivations", "g++ -std=c++17 with library assertions"),
 "C09": ("random LL(1) grammars and token sequences; generated C++ LL parsers compiled and run, visitor logs judged as leftmost derivations", "g++ -std=c++17 with library assertions"),
 "C10": ("random ambiguous grammars, token sequences and token source faults; generated GLR Rust parsers compiled and run against a fixpoint recogniser", "cyclic and hidden left-recursive grammars excluded"),
 "C11": ("random tagged grammars and sentences; visitor logs of generated Rust LR parsers judged as bottom-up derivations", ""),
 "C12": ("random ambiguous tagged grammars and sentences; visitor logs of generated GLR parsers judged as one derivation, differential against LR(1)", ""),
 "C13": ("random grammars and damaged sentences; error positions, tokens and expectations of all generated parsers against the viable prefix recogniser", ""),
 "C03": ("random token sets; subset construction of our own over character representatives as oracle for ties, winners and named tokens", "patterns without \\d \\w \\s; up to 300 subsets"),
 "C04": ("random regular expressions and texts; the generated automaton against two independent matchers", ""),
 "C14": ("random grammars; reported conflicts compared with a textbook LR(0)/LALR/LR(1) construction over the same rules", ""),
 "C15": ("random grammars; LL(1) acceptance and selected rules compared with textbook first and follow sets", ""),
 "C16": ("random rule sets rendered under random layouts and read back: round trip", ""),
 "C17": ("random rule sets rendered under random layouts with known rule positions; spans compared", ""),
 "C18": ("random grammar texts of the common subset; both front ends and everything generated from them compared: differential", ""),
 "C19": ("random well-formed grammars and single mutations that break them; exit status and written files of the command", ""),
 "C20": ("random grammars generated repeatedly, in several processes, directories and layouts: metamorphic", ""),
 "C21": ("random grammars with unusual names and tags; all generated files compiled as they are", ""),
 "C22": ("random grammars; the dumped table parsed and executed by an interpreter of our own against a fixpoint recogniser", ""),
 "C23": ("random grammars with conflicts or ties; diagnostics parsed and compared with known rule positions", ""),
 "C24": ("random grammars and source files; the debug command against the lexer model and the recogniser", "few cases: each compiles a crate"),
 "C25": ("random templates and substitutions against a string model, with faulty writers", ""),
 "C26": ("random grammars; languages of the expanded rules and of the patterns compared on token sequences", ""),
 "C27": ("random grammars under all options; directory contents compared", ""),
 "C30": ("random grammars and texts; generated lexer and parser run together against lexer model and fixpoint recogniser", "texts on which a lexer without backtracking may give up are not judged"),
 "C29": ("random grammars generated under output faults at random bytes; exit status and files compared with undisturbed output", ""),
 "C28": ("random grammars and their renamings, reorderings and extensions: metamorphic acceptance", ""),
}
root = os.path.dirname(os.path.abspath(__file__))
have = set(open(os.path.join(root, "claimed.txt")).read().split())
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        t, n = T[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"bash check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "technique": "property-based testing: " + t,
            "level": "exploration",
            "level_note": "generated cases only; counts and samples in the evidence file" + ("; " + n if n else ""),
            "evidence_file": f"evidence/{i}.json",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
