#!/usr/bin/env python3
"""Mutates one source line at a time in a scratch copy and runs a property's check on it.
usage: mutate.py PROPERTY FILE N [seed] [line-range a-b]    prints the mutants no check objected to"""
import os, random, re, subprocess, sys, tempfile, shutil
P, F, N = sys.argv[1], sys.argv[2], int(sys.argv[3]); random.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
rng = tuple(map(int, sys.argv[5].split("-"))) if len(sys.argv) > 5 else (1, 10**9)
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=])<(?![<=a-zA-Z:])", "<="), (r"(?<![>\-=])>(?![>=])(?= )", ">="), (r"==", "!="), (r"!=", "=="), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
      (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b2\b", "3"), (r"\b0\.f|\b0\.0f", "1.f"), (r"\b1\.f|\b1\.0f", "0.f"), (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"!(?=[a-z(])", ""), (r"\+= ", "-= "), (r"-= ", "+= "), (r"continue;", "break;"), (r"^(\s+)([a-z_][\w.\->\[\]]* [+\-*/]?= [^;]*;)$", r"\1;"), (r"^(\s+)([\w.\->]+\([^;{}]*\);)$", r"\1;"), (r"\bbegin\b", "end"), (r"Min\b", "Max"), (r"Max\b", "Min"), (r"\bp0\b", "p1"), (r"\bp1\b", "p2"), (r"\bstart\b", "end"), (r"\bend\b", "start"), (r"\bif \((.*)\)( return.*| \{)$", r"if (!(\1))\2")]
src = open("/repo/" + F).read().split("\n"); cand = []
for i, l in enumerate(src):
    if not (rng[0] <= i + 1 <= rng[1]) or l.strip().startswith(("//", "#", "*")): continue
    code = l.split("//")[0]
    for pat, rep in OPS:
        for m in re.finditer(pat, code):
            n = code[:m.start()] + m.expand(rep) + code[m.end():]
            if n != code: cand.append((i, n))
random.shuffle(cand); cand = cand[:N]; T = tempfile.mkdtemp(prefix="mut-"); R = T + "/repo"
subprocess.run(["cp", "-a", "/repo", R], check=True); tot = {}
try:
    for i, n in cand:
        s = src[:]; s[i] = n; open(R + "/" + F, "w").write("\n".join(s))
        for prop in P.split(","):
          r = subprocess.run(["python3", "/verif/check.py", prop], env=dict(os.environ, INK_REPO=R, INK_EVIDENCE=T), cwd="/verif", capture_output=True, text=True)
          if r.returncode != 0: break
        k = "caught" if "VIOLATION" in r.stdout else "SURVIVED" if r.returncode == 0 else "broken"
        if k == "broken" and "does not compile" not in r.stdout and "compile" not in (r.stdout + r.stderr): k = "BROKEN-OTHER"
        tot[k] = tot.get(k, 0) + 1
        if k in ("SURVIVED", "BROKEN-OTHER"): print(k, F, i + 1, "|", src[i].strip(), "=>", n.strip(), "|", (r.stdout.strip().splitlines() or [""])[-1][:150] if k != "SURVIVED" else "", flush=True)
    print(P, F, tot, flush=True)
finally: shutil.rmtree(T)
