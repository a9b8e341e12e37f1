#!/usr/bin/env python3
"""newbug.py FILE: FILE defines BUGS = [(id, property, needs, breaks, {path: [(old, new), ...]}, main_rs)]; writes seeded/<id>/."""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(os.path.dirname(here), "seeded")
REPO = os.environ.get("REPO", "/repo")
g = {}
exec(open(sys.argv[1]).read(), g)
only = sys.argv[2:]
for id, prop, needs, breaks, edits, main in g["BUGS"]:
    if only and id not in only:
        continue
    d = os.path.join(root, id)
    os.makedirs(d, exist_ok=True)
    orig = {}
    diff = ""
    tmp = "/tmp/newbug"
    shutil.rmtree(tmp, ignore_errors=True)
    for p, reps in edits.items():
        s = open(REPO + "/" + p).read()
        for o, n in reps:
            assert s.count(o) == 1, (id, p, s.count(o), o)
            s = s.replace(o, n)
        for side, t in (("a", open(REPO + "/" + p).read()), ("b", s)):
            f = os.path.join(tmp, side, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, "w").write(t)
        r = subprocess.run(["git", "diff", "--no-index", "a/" + p, "b/" + p], cwd=tmp, capture_output=True, text=True)
        diff += r.stdout.replace("a/a/", "a/").replace("b/b/", "b/")
    shutil.rmtree(tmp, ignore_errors=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "main.rs"), "w").write(main.lstrip("\n"))
    for f in ("demo.sh", "common.rs"):
        shutil.copy(os.path.join(here, "demo", f), d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    subprocess.run(["git", "-C", REPO, "apply", "--check", os.path.join(d, "patch.diff")], check=True)
    print(id)
