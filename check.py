#!/usr/bin/env python3
"""Decide one property of /repo statically.  usage: check.py PROPERTY [--tier quick|thorough] [--harness RE] [-v]

Exit 0: every obligation of the property is discharged on the current tree (known findings excepted)
Exit 1: some obligation fails; a VIOLATION line names it
Exit 2: the analysis itself is broken (a unit does not compile, an anchor vanished, an obligation is vacuous)
"""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get("INK_REPO", "/repo")
EV = os.environ.get("INK_EVIDENCE", os.path.join(V, "evidence")); B = os.path.join(V, "build"); CPUS = os.cpu_count() or 4
CLANG = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
JVM = "/usr/lib/jvm/java-17-openjdk-amd64/include"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
CXX = ["-std=c++20", "-w", "-DINK_SA", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-I" + V, "-I" + V + "/shims", "-I" + R, "-I" + JVM, "-I" + JVM + "/linux"]
BC = CXX + ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-ffp-contract=off", "-g", "-emit-llvm", "-c"]
SKIP = re.compile(r"_test\.(cc|h)$|fuzz|benchmark|matchers|type_matchers|test_util|/testing/")

class Broken(Exception): pass

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)
def digest(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]
def read(p):
    with open(p, "rb") as f: return f.read()
_th = {}
def treehash(root, exts):
    if (root, exts) not in _th:
        fs = []
        for d, _, n in os.walk(root):
            for x in n:
                if x.endswith(exts): fs.append(os.path.join(d, x))
        _th[root, exts] = digest(*[q for f in sorted(fs) for q in (f, read(f))])
    return _th[root, exts]

def build_tool(name):
    src = os.path.join(V, "tool"); out = os.path.join(B, name); os.makedirs(B, exist_ok=True)
    stamp = os.path.join(B, name + ".stamp"); key = treehash(src, (".cc", ".h", ".inc", "Makefile"))
    if os.path.exists(out) and os.path.exists(stamp) and read(stamp).decode() == key: return out
    r = sh(["make", "-C", src, "-j", str(CPUS), "OUT=" + B, out])
    if r.returncode: raise Broken("cannot build the analyser: " + r.stderr[-2000:])
    with open(stamp, "w") as f: f.write(key)
    return out

def includes(path):
    return re.findall(r'^\s*#include\s+"(ink/[^"]+\.h)"', read(path).decode(errors="replace"), re.M)
def textual(spec): return re.findall(r'^\s*#include\s+"(ink/[^"]+\.cc)"', read(spec).decode(errors="replace"), re.M)
def closure(spec):
    """translation units of google/ink reachable through the include graph of a harness"""
    text = read(spec).decode(); tx = textual(spec); excl = [re.compile(x) for x in re.findall(r"^// exclude: (.*)$", text, re.M)]
    todo = includes(spec) + re.findall(r"^// unit: (.*)$", text, re.M) + [i for c in tx if os.path.exists(os.path.join(R, c)) for i in includes(os.path.join(R, c))]; seen, units = set(tx), []
    while todo:
        p = todo.pop()
        if p in seen or SKIP.search(p) or any(e.search(p) for e in excl): continue
        seen.add(p); full = os.path.join(R, p)
        if not os.path.exists(full): continue
        todo += includes(full)
        if p.endswith(".cc"): units.append(p)
        else: todo.append(p[:-2] + ".cc")
    return sorted(units)

def compile_bc(src, defs):
    key = digest(read(src), *[read(os.path.join(R, c)) if os.path.exists(os.path.join(R, c)) else b"" for c in textual(src)], treehash(R + "/ink", (".h",)), treehash(V + "/shims", (".h",)), treehash(V + "/specs", (".h",)), " ".join(BC + defs), src)
    d = os.path.join(B, "bc"); os.makedirs(d, exist_ok=True); out = os.path.join(d, key + ".bc")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid(); r = sh([CLANG] + BC + defs + [src, "-o", tmp])
        if r.returncode: raise Broken("%s does not compile: %s" % (src, r.stderr[:3000]))
        os.rename(tmp, out)
    return out
def link(spec, defs):
    units = [os.path.join(R, u) for u in closure(spec)]
    srcs = [spec, os.path.join(V, "specs/rt.cc")] + units; flags = [f for l in re.findall(rb"(?m)^// flags: (.*)$", read(spec)) for f in l.decode().split()]
    with cf.ThreadPoolExecutor(CPUS) as ex: bcs = list(ex.map(lambda s: compile_bc(s, flags + (defs if s == spec else [])), srcs))
    out = os.path.join(B, "bc", "L" + digest(*bcs) + ".bc")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid(); r = sh([LINK] + bcs + ["-o", tmp])
        if r.returncode: raise Broken("link: " + r.stderr[:2000])
        os.rename(tmp, out)
    return out, units + [os.path.join(R, c) for c in textual(spec)]

def run_harness(tool, bc, fn, limit, forks):
    out = os.path.join(B, "o%d-%s.json" % (os.getpid(), fn))
    try:
        r = sh([tool, bc, "--fn", fn, "--out", out, "--time", str(limit), "--forks", str(forks)], timeout=limit + 60, preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (8 << 30, 8 << 30)))
        if r.returncode in (0, 1, 3) and os.path.exists(out):
            with open(out) as f: j = json.load(f)
            return j
        return {"harness": fn, "error": "analyser exit %s: %s" % (r.returncode, r.stderr[-500:])}
    except subprocess.TimeoutExpired: return {"harness": fn, "incomplete": "time limit", "obligations": [], "functions": [], "branches": [], "opaque": [], "events": {}, "forks": 0}
    finally:
        if os.path.exists(out): os.unlink(out)

def generated(tool, limit=120):
    """engines/sksl.py: the shaders the current code builds, as analysable C++ -> (include dir, obligation results)"""
    sys.path.insert(0, V); from engines import sksl
    bc, us = link(os.path.join(V, "specs/shader_emit.cc"), []); r = run_harness(tool, bc, "prop_emit_shaders", limit, 24)
    if r.get("error") or r.get("incomplete"): raise Broken("shader_emit: " + (r.get("error") or r.get("incomplete")))
    d = os.path.join(B, "gen", digest(json.dumps(r["emits"]), treehash(os.path.join(V, "engines"), (".py",))))
    try: obs, ok = sksl.generate(r["emits"], d)
    except sksl.Unsupported as e: raise Broken(str(e))
    res = dict(r); res["harness"] = "shader_interface"; by = {}
    for id, where, bad in obs: o = by.setdefault(id, {"id": id, "ok": 0, "fail": 0, "where": "shader variants", "detail": []}); o["fail" if bad else "ok"] += 1; o["detail"] += [where + ": " + bad] if bad else []
    res["obligations"] = list(by.values()); return d, [res], us, ok

def known(prop):
    p = os.path.join(V, "known_findings.json")
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and not k.get("fixed")] if os.path.exists(p) else []

def setup():
    """Builds the analyser and the bitcode of the current tree; the checks rebuild whatever changed since."""
    sys.path.insert(0, V); from rules import PROPS
    build_tool("absint")
    for spec in sorted({s for p in PROPS.values() if not p.get("gen") for s, _ in p.get("specs", [])}): link(os.path.join(V, "specs", spec), [])
    print("ready"); return 0

def main():
    t0 = time.time(); a = sys.argv[1:]
    if a[0] == "--setup": return setup()
    prop = a[0]; tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick"); only = a[a.index("--harness") + 1] if "--harness" in a else None; verbose = "-v" in a
    sys.path.insert(0, V); from rules import PROPS
    P = PROPS[prop]; seed = int(os.environ.get("VERIF_SEED", "1"))
    results = []; units = set()
    defs = ["-DAI_THOROUGH=1"] if tier == "thorough" else []
    limit = 700 if tier == "thorough" else 240; forks = P.get("forks", 24)
    if P.get("specs"):
        tool = build_tool("absint"); jobs = []
        extra = []
        if P.get("gen"):
            gd, gr, gus, gok = generated(tool); results += gr; units |= set(gus); extra = ["-I" + gd, "-fdeclspec"]
        for spec, pat in P["specs"] if not P.get("gen") or gok else []:
            bc, us = link(os.path.join(V, "specs", spec), defs + extra); units |= set(us)
            fns = [f for f in sh([tool, bc, "--list"]).stdout.split() if re.fullmatch("prop_(" + pat + ")", f) and (not only or re.search(only, f))]
            if not fns and not only: raise Broken("no harness matches " + pat)
            jobs += [(bc, f) for f in fns]
        with cf.ThreadPoolExecutor(CPUS) as ex: results += list(ex.map(lambda j: run_harness(tool, j[0], j[1], limit, forks), jobs))
    for eng in P.get("engines", []):
        if only: break
        results += eng(R, V, B, tier)
    kf = known(prop); viol, und, vac, err, hits = [], [], [], [], []
    nob = nok = 0; checks = 0
    for r in results:
        if r.get("error"): err.append(r["harness"] + ": " + r["error"]); continue
        if r.get("incomplete"): und.append(r["harness"] + ": " + r["incomplete"])
        for o in r["obligations"]:
            nob += 1; checks += o["ok"] + o["fail"]
            if o["fail"]:
                k = next((k for k in kf if k["harness"] == r["harness"] and k["obligation"] == o["id"] and (not k.get("where") or any(k["where"] in d for d in o["detail"] + [o["where"]]))), None)
                if k: hits.append(k)
                else: viol.append((r["harness"], o))
            elif o.get("undec"): und.append("%s / %s: %s" % (r["harness"], o["id"], o["detail"][0][:300]))
            elif o["ok"]: nok += 1
            elif not r.get("incomplete"): vac.append((r["harness"], o))
    reach = [(h, o) for h, o in vac if o["id"].startswith("reach")]
    for h, o in reach: o["detail"] = ["no analysed path reaches this outcome any more"]; viol.append((h, o))
    never = [x for x in vac if x[1]["id"].startswith("never")]; nok += len(never)   # the obligation is that no path gets there
    vac = [x for x in vac if x not in reach and x not in never]
    funcs = sorted({f for r in results for f in r.get("functions", [])}); br = {b for r in results for b in r.get("branches", [])}; opq = sorted({x for r in results for x in r.get("opaque", [])})
    cov = {"obligations": nob, "discharged": nok, "obligation_checks": checks, "harnesses": [r["harness"] for r in results], "units_analysed": sorted(os.path.relpath(u, R) for u in units) + sorted({u for r in results for u in r.get("units", [])}), "functions_analysed": len(funcs), "branches_analysed": len(br), "abstract_state_splits": sum(r.get("forks", 0) for r in results), "functions": funcs[:400], "opaque_calls": opq[:60], "undecided": und, "rule": P["rule"], "explanation": P["rule"],
           "samples": [{"harness": r["harness"], "obligation": o["id"], "states_checked": o["ok"] + o["fail"], "where": o["where"]} for r in results for o in r.get("obligations", [])][:12],
           "checker_cmd": "python3 check.py %s --tier %s" % (prop, tier), "trusted_base": ["clang 18 front end (C++ to LLVM IR)", "tool/ abstract interpreter: transfer functions and memory model", "shims/ models of abseil, Skia, libtess2 and ink_stroke_modeler", "specs/ harnesses (entry states and obligations)"]}
    for r in results:
        for k, v in r.get("coverage", {}).items(): cov[k] = v
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "wall_s": round(time.time() - t0, 2), "assumptions": P.get("assumptions", []), "violations": len(viol)}
    os.makedirs(EV, exist_ok=True)
    if not only:
        with open(EV + "/%s.json" % prop, "w") as f: json.dump(ev, f, indent=1)
    for k in {json.dumps(k, sort_keys=True): k for k in hits}.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for u in und: print("UNDECIDED (no answer within budget): " + u)
    if viol:
        rp = EV + "/%s.violation.txt" % prop
        with open(rp, "w") as f:
            for h, o in viol: f.write("%s: rule %s fails at %s (%d of %d abstract states)\n" % (h, o["id"], o["where"], o["fail"], o["ok"] + o["fail"])); f.write("".join("    %s\n" % d for d in o["detail"]))
        for h, o in viol[:20]: print("  %s / %s at %s: %s" % (h, o["id"], o["where"], (o["detail"] or [""])[0][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp)); return 1
    for e in err: print("ANALYSIS-BROKEN: " + e)
    for h, o in vac: print("ANALYSIS-BROKEN: vacuous obligation %s in %s" % (o["id"], h))
    if err or vac: return 2
    if nob < P.get("min_obligations", 1) and not only and not und: print("ANALYSIS-BROKEN: only %d obligations" % nob); return 2
    print("property %s: %d obligations discharged over %d functions, %d branches, %d state splits, %.1fs%s" % (prop, nok, len(funcs), len(br), cov["abstract_state_splits"], time.time() - t0, " (%d opaque callees)" % len(opq) if opq else ""))
    if verbose:
        for r in results: print("   ", r["harness"], "t=%.1f forks=%d" % (r.get("seconds", 0), r.get("forks", 0)), r.get("opaque"))
    return 0
if __name__ == "__main__":
    try: sys.exit(main())
    except Broken as e: print("ANALYSIS-BROKEN: " + str(e)); sys.exit(2)
    except Exception: traceback.print_exc(); sys.exit(2)
