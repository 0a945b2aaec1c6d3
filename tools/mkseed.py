"""mkseed.py: helper to write seeded/<id>/ from edits of the current /repo tree (used interactively when planting bugs)"""
import os, json, shutil, subprocess, tempfile, difflib
R = "/repo/"; V = "/verif/seeded/"
def seed(id, prop, needs, breaks, edits, cpp=None, runs=(), script=None, files={}):
    d = V + id; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    by = {}
    for f, a, b in edits: by.setdefault(f, []).append((a, b))
    patch = ""
    for f, l in by.items():
        s = t = open(R + f).read()
        for a, b in l:
            assert t.count(a) == 1, (id, f, t.count(a), a)
            t = t.replace(a, b)
        patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(x if x.endswith("\n") else x + "\n\\ No newline at end of file\n" for x in difflib.unified_diff(s.splitlines(1), t.splitlines(1), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], check=True)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    for n, c in files.items(): open(d + "/" + n, "w").write(c)
    if cpp:
        shutil.copy("/verif/tools/demo/common.hpp", d); shutil.copy("/verif/tools/demo/common.sh", d)
        open(d + "/demo_main.cpp", "w").write('#include "common.hpp"\n' + cpp)
        sh = '. "$(dirname "$0")/common.sh"\nset -e\nbuild demo_main\n' + "".join("run %s\n" % r for r in runs)
        open(d + "/demo.sh", "w").write(sh)
    if script: open(d + "/demo.sh", "w").write(script)
