#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md, from the results files of tools/seed.py
   mkseedtable.py RESULTS.json..."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    res.update(json.load(open(f)))
have = {}
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    have[os.path.basename(os.path.dirname(f))] = json.load(open(f))
by = {}
for k, m in sorted(have.items()):
    r = res.get(k, {}).get("res", {})
    caught = [c for c, v in sorted(r.items()) if str(v).startswith("caught")]
    own = m["property"] in caught
    also = [c for c in caught if c != m["property"]]
    by.setdefault(m["property"], []).append("%s%s%s" % (k.split("-", 1)[1], "" if own else " (**missed**)" if r else " (not run)",
                                                       " +" + " ".join(also) if also else ""))
n = sum(map(len, by.values()))
out = ["## Planted bugs", "",
       "%d changes in `seeded/` (not read by any check), each written from a property's text, each confirmed to build, to pass" % n,
       "the stable tests and to fail its demonstration. Caught by the property's own check unless marked; `+` other checks that",
       "were run and also object.", ""]
for p, l in sorted(by.items()):
    out.append("* **%s**: %s" % (p, "; ".join(l)))
t = open(V + "/DESIGN.md").read()
i = t.find("## Planted bugs")
if i >= 0:
    j = t.find("\n## ", i + 5)
    t = t[:i] + (t[j + 1:] if j >= 0 else "")
t = t.rstrip() + "\n\n" + "\n".join(out) + "\n"
open(V + "/DESIGN.md", "w").write(t)
