#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py (one dict P per file)."""
import glob, json, os, re, runpy, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


sys.path.insert(0, os.path.join(V, "tools", "props"))
sys.dont_write_bytecode = True


def main():
    props = []
    for f in sorted(glob.glob(os.path.join(V, "tools", "props", "C*.py"))):
        props += runpy.run_path(f)["P"]
    props.sort(key=lambda p: p["id"])
    have = {os.path.basename(f).split("_")[0] for f in glob.glob(os.path.join(V, "checks", "C*.py"))}
    checks, na = [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as out:
        for p in props:
            tech, note, why = p.pop("technique"), p.pop("note"), p.pop("na", None)
            if len(re.findall(r"\.(?= [A-Z]|$)", p["statement"])) > 3:     # the schema asks for three sentences at most
                p["statement"] = re.sub(r"(?<!e\.g)(?<!i\.e)\. (?=[A-Z])", "; ", p["statement"])
            out.write(json.dumps(p) + "\n")
            if p["id"] in have and not why:
                checks.append({"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']}",
                               "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
                               "evidence_file": f"evidence/{p['id']}.json",
                               "technique": tech, "level": "exploration", "level_note": note})
            else:
                na.append({"property": p["id"], "reason": why or "no check has been built for it yet"})
    m = {"version": 1, "setup_cmd": "python3 tools/build.py",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. Checks compile /repo's current sources into /verif/build under content hashes, so a "
                  "run after a change recompiles only what the change affects. check.py --replay FILE runs one replay file."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    missing = have - {p["id"] for p in props}
    print(f"{len(props)} properties, {len(checks)} checks, {len(na)} not claimed; checks without a property: {sorted(missing)}")


main()
