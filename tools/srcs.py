#!/usr/bin/env python3
# Proposes the SOURCES list of a harness: the library sources that define what it leaves undefined (from the objects of the last full build)
import subprocess, sys, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid = sys.argv[1]
objs = {}
for f in glob.glob(V + "/build/obj/*/repo_src_*.o") + glob.glob(V + "/build/obj/*/verif_harness_*.o"):
    b = os.path.basename(f)
    if b not in objs or os.path.getmtime(f) > os.path.getmtime(objs[b]): objs[b] = f
def nm(f):
    d, u = set(), set()
    for l in subprocess.run(["nm", "-C" if False else "-p", f], capture_output=True, text=True).stdout.splitlines():
        m = re.match(r"^[0-9a-f ]{16,17}\s*([A-Za-z]) (\S+)$", l)
        if not m: continue
        if m.group(1) == "U": u.add(m.group(2))
        elif m.group(1).isupper() or m.group(1) in "vw": d.add((m.group(2), m.group(1)))
    return d, u
info = {b: nm(f) for b, f in objs.items()}
strong, weak = {}, {}
for b, (d, u) in info.items():
    if b.startswith("verif_"): continue
    if any(s == "main" for s, _ in d): continue
    for s, t in d: (weak if t in "VWvw" else strong).setdefault(s, b)
root = f"verif_harness_{pid}_cc.o"
need, have, todo = [], set(), [root]
seen = {root}
while todo:
    b = todo.pop()
    for s in info[b][1]:
        x = strong.get(s)
        if x and x not in seen: seen.add(x); todo.append(x)
out = []
for b in sorted(seen - {root}):
    n = b[len("repo_src_"):-2]
    for p, _, fs in os.walk("/repo/src"):
        for f in fs:
            r = os.path.relpath(os.path.join(p, f), "/repo/src")
            if re.sub(r"[^A-Za-z0-9]", "_", r) == n: out.append(r)
print("// SOURCES: " + " ".join(sorted(set(out))))
