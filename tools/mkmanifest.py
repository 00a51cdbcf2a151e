#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
T_DEC = "bounded-exhaustive model checking: DFS of a decode automaton per type term, every path replayed on the real decoder"
T_ENC = "bounded-exhaustive model checking: all type terms x value alphabets against a reference encoder, every case replayed on the real codec"
BASE = "Exhaustive within the stated bounds of type terms, symbols and path length; assumes the reference model states RFC 4506 correctly; behaviour beyond the bounds is not covered."
BASE_G = "Exhaustive within the stated family of interface files, options, symbols and path lengths; assumes the reference meaning of a definition states RFC 4506 correctly; files outside the family are not covered."
T_GEN = "bounded-exhaustive model checking: every interface file of a family x every option generated by the real generator and compiled; DFS of the decode automaton of each definition, and all values of its alphabet, replayed on the compiled code"
BASE_P = "Exhaustive within the stated bounds of definitions, tokens, edits and layouts; assumes the reference grammar states RFC 4506 section 6.3 with the documented extensions; behaviour beyond the bounds is not covered."
claimed = {
    "C01": (T_ENC, BASE), "C02": (T_ENC, BASE), "C10": (T_ENC, BASE),
    "C03": (T_DEC, BASE), "C04": (T_DEC, BASE), "C05": (T_DEC, BASE),
    "C06": (T_DEC + ", under a counting allocator", BASE + " Memory is what the allocator hands out, per decode."),
    "C07": ("exhaustive enumeration of unrepresentable parts x contexts to a depth on the real encoder", BASE),
    "C08": (T_DEC + " (opaque adapters, both directions)", BASE),
    "C09": (T_DEC + " (signed32 adapter, both directions)", BASE),
    "C11": ("exhaustive enumeration of refusing parts x contexts to a depth x short inputs on the real encoder and decoder", "Exhaustive within the stated bounds of context depth and continuation words; behaviour beyond the bounds is not covered."),
    "D01": (T_DEC + " and value enumeration over a generated family of #[derive(XdrIndexer)] enums", BASE + " The family of enums is generated; a derive outside it is not covered."),
    "P01": ("bounded-exhaustive model checking: all definition lists within the bounds, printed by a reference printer, replayed through the real parser and compared definition by definition", BASE_P),
    "P02": ("bounded-exhaustive model checking: all token sequences up to a length in every context, and all single-token edits of valid files, decided by an independent reference parser and replayed on the real one", BASE_P),
    "P03": ("bounded-exhaustive model checking: all placements of white space and comments (gap by gap, pairs, whole layouts) between the tokens of valid files, replayed on the real parser", BASE_P),
    "G01": (T_GEN + "; every number compared", BASE_G), "G02": (T_GEN, BASE_G), "G03": (T_GEN, BASE_G), "G04": (T_GEN, BASE_G),
    "G06": (T_GEN + "; every name compared", BASE_G), "G08": (T_GEN + "; default values compared with the reference", BASE_G),
    "G09": ("bounded-exhaustive model checking: every enumeration and union of a family of interface files x every option generated by the real generator and compiled; every number of an alphabet (thorough: all 2^32) put through every conversion and compared with the reference and with the real decoder", BASE_G),
    "G05": ("bounded-exhaustive model checking: every interface file of a family (all declarations in all places, all reference graphs of up to 3 definitions, all label and value pairs, chains, names) x all options run through the real generator under crash, panic and hang detection", BASE_G),
    "G07": ("bounded-exhaustive model checking: every set of up to 3 definitions of a pool x every order x every layout x every place of an unrelated definition, replayed through the real generator and compared", BASE_G),
    "T01": ("bounded-exhaustive model checking: every order of every subset of the options x every class of file and failure, each a run of the real binary compared with the reference mapping", BASE_G),
    "D02": (T_DEC + " and value enumeration over a generated family of #[derive(XdrUnion)] enums", BASE + " The family of enums is generated; a derive outside it is not covered."),
}
extra = os.path.join(root, "tools", "claims.json")
if os.path.exists(extra):
    claimed.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        t, n = claimed[i]
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick bash run.sh {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "the check is still being built"})
m = {"version": 1, "setup_cmd": "bash run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API, the compiled generated code and the binary."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
