#!/usr/bin/env python3
"""Run one reported counterexample natively against the current tree.

    tools/replay.py replay/C01/v0.json [plain|asan|pattern]
"""
import sys, os, re, json, glob, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
v = json.load(open(sys.argv[1]))
var = sys.argv[2] if len(sys.argv) > 2 else v.get("replay", {}).get("variant", "plain")
h = [f for f in glob.glob(os.path.join(run.ROOT, "harness", "c*.cpp")) if re.search(r"\b%s\b" % re.escape(v["entry"]), open(f).read())]
if not h: sys.exit("no harness has an entry " + v["entry"])
work = tempfile.mkdtemp(prefix="nsym_replay_build_")
try:
    st, out = run.native(run.build_native(work, h[0], var), var, v["entry"], v["inputs"], 0, v["args"], 30)
    print(out); print("%s: %s" % (var, "not reproduced" if st in ("ok", "assume") else st)); sys.exit(0 if st in ("ok", "assume") else 1)
finally: shutil.rmtree(work, ignore_errors=True)
