#!/usr/bin/env python3
"""newseed.py ID PROPERTY 'needs' 'breaks' -- takes /repo's current diff as patch.diff, stdin as demo.sh, and restores /repo."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, needs, breaks = sys.argv[1:5]
d = os.path.join(V, "seeded", sid)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
assert diff, "no change in /repo"
open(os.path.join(d, "patch.diff"), "w").write(diff)
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
body = sys.stdin.read()
open(os.path.join(d, "demo.sh"), "w").write(body)
os.chmod(os.path.join(d, "demo.sh"), 0o755)
if "lib.sh" in body:
    shutil.copy(os.path.join(V, "tools/seedlib/lib.sh"), d)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
print("kept", sid)
