"""Rewrites section 2 of DESIGN.md from the checks' RULE texts, sizes and last evidence files."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = ["## 2. The properties", "",
       "Common oracle terms: *model* = lib/refmodel.py run on the same field; *small-scope space* = lib/spaces.py: every context with",
       "pairs and triples of element types, finished segments before every part, every element repeated up to 98 times, long beginnings",
       "and sections before every part, names revisited, every two settings of one point, an error in every segment before every part,",
       "pairs of segments before parts, elements with each other element as lookahead, contexts with extreme and long names, and 8000 long",
       "mixtures of segments drawn from VERIF_SEED (they count as enumerated), texts that change under normalisation, case or width, and",
       "fields of 105 to 420 elements (parsed with a raised recursion limit, see the known findings of C17). Sizes are quick / thorough generated cases;",
       "enumerated cases and cost are those of the last quick run with 8 workers.", ""]
for p in props:
    m = importlib.import_module("checks." + p["id"].lower())
    out += ["### %s %s" % (p["id"], p["title"]), m.RULE]
    try:
        e = json.load(open(os.path.join(V, "evidence", p["id"] + ".json")))
        out.append("Generated: %d / %d. Enumerated (quick): %d. Distinct non-trivial (quick): %d. Cost: %.0f s." % (
            m.EXAMPLES["quick"], m.EXAMPLES["thorough"], e["coverage"]["enumerated"], e["coverage"]["distinct_nontrivial"], e["wall_s"]))
        assert e["tier"] == "quick", p["id"]
    except FileNotFoundError:
        out.append("Generated: %d / %d." % (m.EXAMPLES["quick"], m.EXAMPLES["thorough"]))
    out.append("")
d = open(os.path.join(V, "DESIGN.md")).read()
a, b = d.index("## 2. The properties"), d.index("## 3. ")
open(os.path.join(V, "DESIGN.md"), "w").write(d[:a] + "\n".join(out) + "\n" + d[b:])

# section 5: planted bugs
by = {}
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    meta = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    by.setdefault(meta["property"], []).append("%s (%s)" % (b[4:], meta["needs"]))
n = sum(len(x) for x in by.values())
five = ["### Planted bugs", "",
        "%d bugs are kept in seeded/ (patch, demonstration, what each needs). Written in batches from the property texts; the" % n,
        "checks that missed one were extended, never the bug. Every one is caught by the check of its own property (tools/matrix.py",
        "--own); the name of each and what it needs to manifest:", ""]
for k in sorted(by):
    five.append("* **%s** catches: %s" % (k, "; ".join(by[k])))
d = open(os.path.join(V, "DESIGN.md")).read()
if "### Planted bugs" in d:
    d = d[:d.index("### Planted bugs")]
open(os.path.join(V, "DESIGN.md"), "w").write(d.rstrip("\n") + "\n\n" + "\n".join(five) + "\n")
