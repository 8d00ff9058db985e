"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "property-based testing: reference tokenizer over enumerated strings and generated strings, separator sets and re-use histories",
 "C02": "stateful property-based testing against a list-and-cursor model, navigation sequences enumerated to length 4",
 "C03": "exhaustive and generated strings, differential against a hand-written recognizer",
 "C04": "enumeration of every level value in every place plus generated routes, against exact decoding",
 "C05": "enumeration of every speed and level value in every place plus generated routes, against exact decoding and the ISA model",
 "C06": "small-scope enumeration and generated routes, history oracle (last value given before the record) and reference model",
 "C07": "enumeration of all unit combinations and boundary values of cruise climbs, and generated routes, against a reference model",
 "C08": "enumeration of all degree and minute values in every place and generated routes, against exact decoding",
 "C09": "enumerated and generated reference points, bearings and distances against an independent WGS84 solution",
 "C10": "enumerated connector patterns and generated routes, each recorded leg checked as a WGS84 geodesic",
 "C11": "all stay times and contexts enumerated, generated routes, against a reference model",
 "C12": "small-scope enumeration of break texts and generated routes, against a reference model",
 "C13": "enumeration of rule-change sequences and generated routes, against a reference model",
 "C14": "grammar-based generation of well-formed routes with the expected result known by construction",
 "C15": "small-scope enumeration of element sequences and mutated routes, differential against the documented state tables",
 "C16": "metamorphic insertion of garbage, generated ill-formed fields, differential against the documented state tables",
 "C17": "fuzzing with arbitrary and structured text, invariants on the result",
 "C18": "generated fields, independent reconstruction of the field's elements from the result",
 "C19": "generated ill-formed fields, invariants on every error record against the documented messages",
 "C20": "stateful, interleaved and threaded histories, differential against results from fresh processes",
 "C21": "metamorphic re-layout of generated fields",
 "C22": "generated results read back from their XML by an independent parser (round trip)",
 "C23": "generated results read back from captured console output",
 "C24": "stateful property-based testing against a list model",
 "C25": "enumeration of SID/STAR names at every position of routes, and generated routes, against the documented state tables",
 "C26": "enumerated and generated coordinates, heights and digit strings: round trip, symmetry, monotonicity and an independent solver",
}
NOTE = "Exhaustive over the stated finite spaces, sampled beyond them (fixed by VERIF_SEED); counts and samples in the evidence file. "
TRUST = {"ref": "Trusts the reference model in lib/refmodel.py, written from the documentation and sharing no code with /repo. ", "geo": "Trusts geographiclib's WGS84 solver, which the code itself uses as a dependency. ", "none": "Needs no model of the parser. "}
WHICH = {"ref": "C03 C04 C05 C06 C07 C08 C11 C12 C13 C14 C15 C16 C18 C19 C25".split(), "geo": "C08 C09 C10 C26".split()}
EXTRA = {"C17": "Fields of up to 100 elements; longer ones are a known finding. ", "C20": "Interleavings are chosen at line boundaries of the code; real thread schedules are only sampled. ", "C21": "Layouts use the documented separators only. "}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    t = "".join(TRUST[k] for k in ("ref", "geo") if p in WHICH[k]) or TRUST["none"]
    checks.append({"property": p, "quick_cmd": "python3-vt run.py %s quick" % p, "thorough_cmd": "python3-vt run.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                   "technique": TECH[p], "level": "exploration", "level_note": (NOTE + t + EXTRA.get(p, "")).strip()})
m = {"version": 1, "setup_cmd": "python3-vt -c \"import sys; sys.dont_write_bytecode = True; import hypothesis, lib.sut, lib.gen, lib.harness\"", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks use the public interface of the code in /repo. Known and fixed findings: known_findings.json. A failing case is replayed with 'python3-vt run.py <id> --replay <path>'."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
