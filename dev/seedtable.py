#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from dev/seeds."""
import glob, os, re
rows = []
for p in sorted(glob.glob("/verif/dev/seeds/*.py")):
    g = {}; exec(open(p).read(), g); rows.append(f"| `{os.path.basename(p)[:-3]}` | {g['PROPERTY']} | {g['NEEDS']} |")
s = open("/verif/DESIGN.md").read(); h = "| seed | caught by | needs |\n|---|---|---|\n"; i = s.index(h) + len(h); m = re.compile(r"(\|.*\n)*").match(s, i)
open("/verif/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n" + s[m.end():])
