#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> <needs> <what_it_breaks>  with the old and new text on stdin separated by a line '====' (several edits: lines '####'; an edit may start with '@file')
writes seeded/<id>/{patch.diff,meta.json,demo.sh}; demo.cpp is written by hand beside it"""
import json, os, subprocess, sys, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, f, needs, breaks = sys.argv[1:]
w = tempfile.mkdtemp(prefix="mkseed")
subprocess.check_call("git -C /repo archive HEAD ov_core ov_init ov_msckf ov_eval | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (w, w), shell=True)
for e in sys.stdin.read().split("####\n"):
    g = f
    if e.startswith("@"):
        g, e = e[1:].split("\n", 1)
    o, n = e.split("====\n")
    o, n = o.rstrip("\n"), n.rstrip("\n")
    p = os.path.join(w, g)
    s = open(p).read()
    assert s.count(o) == 1, "%d matches of %r" % (s.count(o), o)
    open(p, "w").write(s.replace(o, n))
d = os.path.join(H, "seeded", i)
os.makedirs(d, exist_ok=True)
open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
t = os.path.join(H, "tools", "demo_template.sh")
shutil.copy(t, os.path.join(d, "demo.sh"))
os.chmod(os.path.join(d, "demo.sh"), 0o755)
shutil.rmtree(w)
