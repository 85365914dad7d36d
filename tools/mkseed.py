#!/usr/bin/env python3
# mkseed.py ID PROPERTY SPECDIR-less usage: reads a python dict from stdin:
# dict(id=, property=, needs=, breaks=, edits=[(file, old, new)], demo="...", srcs="rst/a.cc rst/b.cc", flags="")
import sys, os, subprocess, json, tempfile, shutil
exec(sys.stdin.read())
for d in SEEDS:
    out = "/verif/seeded/" + d["id"]; os.makedirs(out, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % w, shell=True, check=True)
        subprocess.run("git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x", shell=True, cwd=w, check=True)
        for f, old, new in d["edits"]:
            p = os.path.join(w, f); s = open(p).read()
            assert s.count(old) >= 1, (d["id"], f, old)
            assert s.count(old) == 1, (d["id"], f, "ambiguous", s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
        open(out + "/patch.diff", "w").write(diff)
    finally: shutil.rmtree(w)
    open(out + "/demo.cc", "w").write(d["demo"].lstrip("\n"))
    open(out + "/demo.sh", "w").write("""#!/bin/bash
# cwd: /repo after the build.  Exit 0: the property holds on this demonstration.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -g %s -I"$PWD" -I"$here" "$here/demo.cc" %s -o "$w/demo" -pthread >"$w/log" 2>&1 || { cat "$w/log"; exit 2; }
cd "$w"
timeout 120 ./demo
""" % (d.get("flags", ""), " ".join("$PWD/" + s for s in d.get("srcs", "").split())))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    print("wrote", out)
