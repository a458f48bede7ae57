"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
t = open(d + "/DESIGN.md").read()
t = t[:t.index("## Planted bugs")] + """## Planted bugs

`seeded/` holds them; `tools/tryseed.sh ID...` builds, tests, demonstrates and checks one; `tools/seedtable.py` writes this table.
All are caught by the quick check of their property.

| planted bug | caught by | needs | breaks |
|---|---|---|---|
"""
for p in sorted(glob.glob(d + "/seeded/*/meta.json")):
    m = json.load(open(p))
    t += f"| {p.split('/')[-2]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n"
open(d + "/DESIGN.md", "w").write(t)
