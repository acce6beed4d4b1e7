#!/usr/bin/env python3
"""Development aid: mkseed.py SPEC.py -> seeded/<id>/. SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ text), opts."""
import sys, os, subprocess, json, tempfile, shutil
g = {"opts": "", "tmo": 120}
exec(open(sys.argv[1]).read(), g)
d = f"/verif/seeded/{g['id']}"; os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp()
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tmp + "/r"])
try:
    for f, o, n in g["edits"]:
        p = f"{tmp}/r/framework/core/{f}"; s = open(p).read()
        assert s.count(o) == 1, (f, o, s.count(o))
        open(p, "w").write(s.replace(o, n))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", tmp + "/r", "diff"], text=True))
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", tmp + "/r"]); shutil.rmtree(tmp)
json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.cc", "w").write(g["demo"].lstrip())
open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# cwd: the repository, built. Exit 0: the property holds in this demonstration.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++23 -g -O1 -w {g['opts']} -I framework/core/include -I framework/core "$D/demo.cc" -o "$T/demo" -L _build/bin -lplaind -Wl,-rpath,"$PWD/_build/bin" -pthread || exit 2
cd "$T" && timeout {g['tmo']} ./demo
""")
