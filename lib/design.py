"""Writes DESIGN.md from design_head.md, design_tail.md, the properties, the jobs, the seeds and the last evidence."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import jobs

rd = lambda n: open(os.path.join(V, n)).read()
HOW = json.loads(rd("lib/design_how.json"))
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
out = [rd("lib/design_head.md").rstrip(), ""]
for q in props:
    i = q["id"]
    out.append("### %s %s\n" % (i, q["title"]))
    out.append(q["statement"] + "\n")
    if i not in jobs.PROPS:
        out.append("Not applicable: see MANIFEST.json.\n")
        continue
    j = jobs.PROPS[i]
    ent = lambda b: ", ".join(e["name"] for e in j["entries"] if (e["quick"] is not None) == b)
    out.append("* Decides: " + HOW[i][0])
    out.append("* Oracle: " + HOW[i][1])
    out.append("* Bounds: " + j["bounds"] + ".")
    out.append("* Outside: " + j["outside"] + ".")
    out.append("* Entries (`%s`): %s%s" % (j["crate"], ent(True), "; thorough also " + ent(False) if ent(False) else ""))
    out.append("* Why tests cannot: " + q["why_tests_cant"] + ".")
    try:
        e = json.loads(rd("lib/costs.json"))[i]
        out.append("* Cost measured: " + e)
    except KeyError:
        pass
    out.append("")
tail = rd("lib/design_tail.md")
kf = json.loads(rd("known_findings.json"))
tail = tail.replace("FIXED", "\n".join("* " + f[len("fixed: property="):] for f in kf["fixed"]))
tail = tail.replace("FINDINGS", "\n".join("* %s (%s, entry %s): %s" % (f["id"], f["property"], f["entry"], f["what"]) for f in kf["findings"]))
notes = json.loads(rd("lib/seed_notes.json"))
rows = ["| bug | needs | breaks | caught by |", "| --- | --- | --- | --- |"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.loads(rd("seeded/%s/meta.json" % s))
    rows.append("| %s | %s | %s | %s |" % (s, m["needs"], m["what_it_breaks"], notes.get(s, m["property"])))
tail = tail.replace("SEEDS", "\n".join(rows))
out.append(tail.strip())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
