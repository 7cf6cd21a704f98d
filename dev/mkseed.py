#!/usr/bin/env python3
"""Turns a seed description (dev/seeds/<id>.py: PROPERTY, EDITS, DEMO, NEEDS, BREAKS) into seeded/<id>/ and confirms it.
usage: mkseed.py ID... | --check ID... (only rerun the property's check) | --all"""
import os, subprocess, sys, json, shutil, tempfile, runpy, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"
DEMO = r'''#!/bin/bash
# Builds the demonstration against the sources in the current directory and runs it in a scratch folder.
set -eu
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
tar xzf "$D/shims.tgz" -C "$T"
python3 - "$R" "$D/demo.cc" > "$T/units" <<'PY'
import os, re, sys
R, spec = sys.argv[1:]
todo = re.findall(r'^\s*#include\s+"(ink/[^"]+\.h)"', open(spec).read(), re.M) + re.findall(r'^// unit: (.*)$', open(spec).read(), re.M); seen = set()
excl = [re.compile(x) for x in re.findall(r'^// exclude: (.*)$', open(spec).read(), re.M)]
while todo:
    p = todo.pop()
    if p in seen or any(e.search(p) for e in excl): continue
    seen.add(p); f = os.path.join(R, p)
    if not os.path.exists(f): continue
    todo += re.findall(r'^\s*#include\s+"(ink/[^"]+\.h)"', open(f, errors="replace").read(), re.M)
    if p.endswith(".cc"): print(f)
    else: todo.append(p[:-2] + ".cc")
PY
J=/usr/lib/jvm/java-17-openjdk-amd64/include
sort "$T/units" > "$T/sorted"; echo "$D/demo.cc" >> "$T/sorted"
i=0; while read -r u; do i=$((i+1)); echo "$T/$i.o $u"; done < "$T/sorted" > "$T/jobs"
xargs -P 8 -L 1 sh -c 'clang++ -std=c++20 -O0 -g -w @FLAGS@ -I"'"$T"'/shims" -I"'"$R"'" -I'$J' -I'$J'/linux -c "$1" -o "$0"' < "$T/jobs"
clang++ @FLAGS@ "$T"/*.o -o "$T/demo" -lpthread
cd "$T" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(id, only_check, tests):
    s = runpy.run_path(V + "/dev/seeds/%s.py" % id); out = V + "/seeded/" + id
    T = tempfile.mkdtemp(prefix="seed-")
    try:
        sh(["cp", "-a", REPO, T + "/repo"]); r = T + "/repo"; sh(["git", "-C", r, "checkout", "-q", "--", "."])
        if only_check:
            a = sh(["git", "-C", r, "apply", out + "/patch.diff"])
            if a.returncode: return id, "PATCH DOES NOT APPLY " + a.stdout
        else:
            for f, old, new in s["EDITS"]:
                t = open(r + "/" + f).read()
                if t.count(old) != 1: return id, "EDIT MATCHES %d TIMES: %s" % (t.count(old), old[:60])
                open(r + "/" + f, "w").write(t.replace(old, new))
            d = sh(["git", "-C", r, "diff"]).stdout
            shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            open(out + "/patch.diff", "w").write(d); open(out + "/demo.cc", "w").write(s["DEMO"].lstrip())
            open(out + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", s.get("FLAGS", ""))); os.chmod(out + "/demo.sh", 0o755)
            sh(["tar", "czf", out + "/shims.tgz", "--sort=name", "--mtime=2020-01-01", "--owner=0", "--group=0", "-C", V, "shims"])
            json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
            a = sh(["bash", out + "/demo.sh"], cwd=REPO); b = sh(["bash", out + "/demo.sh"], cwd=r)
            if a.returncode: return id, "DEMO FAILS ON BASE " + a.stdout[-1500:]
            if not b.returncode: return id, "DEMO PASSES WITH BUG"
            if "error:" in b.stdout and "demo" not in b.stdout.lower(): return id, "BUG DOES NOT COMPILE? " + b.stdout[-800:]
            if tests:
                e = dict(os.environ)
        c = sh(["python3", V + "/check.py", s["PROPERTY"]], env=dict(os.environ, INK_REPO=r, INK_EVIDENCE=T), cwd=V)
        hit = "VIOLATION property=" + s["PROPERTY"] in c.stdout and c.returncode == 1
        det = [l.strip()[:150] for l in c.stdout.splitlines() if l.startswith("  ")][:2] or [c.stdout[-300:]]
        return id, ("caught: " if hit else "MISSED (exit %d): " % c.returncode) + "; ".join(det)
    finally: shutil.rmtree(T, ignore_errors=True)
a = sys.argv[1:]; chk = "--check" in a; a = [x for x in a if not x.startswith("--") or x == "--all"]
ids = sorted(f[:-3] for f in os.listdir(V + "/dev/seeds") if f.endswith(".py")) if "--all" in a else a
for i in ids: print("%s: %s" % one(i, chk, False), flush=True)
