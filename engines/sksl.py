"""Turns the SkSL shaders the code builds into C++ that the analyser can interpret, together with the vertex fetch, the
uniforms and the varyings their declared interface prescribes. Nothing is executed: the shader text comes from
the abstract state at the end of the factory functions, and the result is only compiled and analysed."""
import hashlib, os, re, subprocess
class Unsupported(Exception): pass
TYPES = {"attribute": {"1": ("float2", 8), "2": ("float3", 12), "4": ("half4", 4)}, "varying": {"1": "float2", "3": "float4"}, "uniform": {"3": "float4", "5": "int"}}

def parse(emits):
    out = []
    for k, v in emits:
        if k == "variant": out.append(dict(name=v, attribute=[], varying=[], uniform=[]))
        elif k in ("attribute", "varying", "uniform"): out[-1][k].append(dict(name=v)); last = out[-1][k][-1]
        elif k in ("type", "offset", "id"): last[k] = v
        else: out[-1][k] = v
    for v in out:
        for s in [v["vertex"], v["fragment"], v["stride"]] + [x for k in ("attribute", "varying", "uniform") for d in v[k] for x in d.values()]:
            if "\x7f" in s or s == "?": raise Unsupported("a shader is not fully known in variant " + v["name"])
    return out

def strip(src): return re.sub(r"//[^\n]*", "", re.sub(r"/\*.*?\*/", "", src, flags=re.S))
def swizzles(srcs):
    r = set()
    for s in srcs:
        for m in re.findall(r"\.([xyzw]{1,4}|[rgba]{1,4}|[stpq]{1,4})\b", s): r.add(m)
    return sorted(r)
def canon(sw): return ["xyzw".index(c) if c in "xyzw" else "rgba".index(c) if c in "rgba" else "stpq".index(c) for c in sw]

def prelude(sw):
    o = ["#pragma once", "#include <cstdint>", "#include <cstring>", "namespace sksl {", "struct float2; struct float3; struct float4;"]
    f = "xyzw"
    for n in (2, 3, 4):
        props, decl = [], []
        for s in sw:
            ix = canon(s)
            if max(ix) >= n: continue
            if len(s) == 1:
                if s in f: continue
                decl.append("float g_%s() const; void p_%s(float v);" % (s, s)); props.append("__declspec(property(get=g_%s,put=p_%s)) float %s;" % (s, s, s))
            else:
                put = len(set(ix)) == len(ix); t = "float%d" % len(s)
                decl.append("%s g_%s() const;%s" % (t, s, " void p_%s(const %s& v);" % (s, t) if put else "")); props.append("__declspec(property(get=g_%s%s)) %s %s;" % (s, ",put=p_" + s if put else "", t, s))
        c = ["float%d() : %s {}" % (n, ", ".join("%s(0)" % f[i] for i in range(n))), "explicit float%d(float a) : %s {}" % (n, ", ".join("%s(a)" % f[i] for i in range(n))), "float%d(%s) : %s {}" % (n, ", ".join("float a%d" % i for i in range(n)), ", ".join("%s(a%d)" % (f[i], i) for i in range(n)))]
        if n == 3: c += ["inline float3(const float2& a, float b);", "inline float3(float a, const float2& b);"]
        if n == 4: c += ["inline float4(const float3& a, float b);", "inline float4(float a, const float3& b);", "inline float4(const float2& a, const float2& b);", "inline float4(const float2& a, float b, float c);", "inline float4(float a, const float2& b, float c);", "inline float4(float a, float b, const float2& c);"]
        o.append("struct float%d { float %s; %s %s %s float& operator[](int i) { return (&x)[i]; } float operator[](int i) const { return (&x)[i]; } };" % (n, ", ".join(f[:n]), " ".join(c), " ".join(decl), " ".join(props)))
    for n in (2, 3, 4):
        for s in sw:
            ix = canon(s)
            if max(ix) >= n: continue
            if len(s) == 1:
                if s not in f: o.append("inline float float%d::g_%s() const { return %s; } inline void float%d::p_%s(float v) { %s = v; }" % (n, s, f[ix[0]], n, s, f[ix[0]]))
            else:
                t = "float%d" % len(s); o.append("inline %s float%d::g_%s() const { return %s(%s); }" % (t, n, s, t, ", ".join(f[i] for i in ix)))
                if len(set(ix)) == len(ix): o.append("inline void float%d::p_%s(const %s& v) { %s }" % (n, s, t, " ".join("%s = v.%s;" % (f[i], f[k]) for k, i in enumerate(ix))))
    o += ["inline float3::float3(const float2& a, float b) : x(a.x), y(a.y), z(b) {}", "inline float3::float3(float a, const float2& b) : x(a), y(b.x), z(b.y) {}", "inline float4::float4(const float3& a, float b) : x(a.x), y(a.y), z(a.z), w(b) {}", "inline float4::float4(float a, const float3& b) : x(a), y(b.x), z(b.y), w(b.z) {}", "inline float4::float4(const float2& a, const float2& b) : x(a.x), y(a.y), z(b.x), w(b.y) {}", "inline float4::float4(const float2& a, float b, float c) : x(a.x), y(a.y), z(b), w(c) {}", "inline float4::float4(float a, const float2& b, float c) : x(a), y(b.x), z(b.y), w(c) {}", "inline float4::float4(float a, float b, const float2& c) : x(a), y(b), z(c.x), w(c.y) {}"]
    o.append("using half = float; using half2 = float2; using half3 = float3; using half4 = float4; using vec2 = float2; using vec3 = float3; using vec4 = float4;")
    un = {"abs": "__builtin_fabsf(a)", "floor": "__builtin_floorf(a)", "ceil": "__builtin_ceilf(a)", "trunc": "__builtin_truncf(a)", "round": "__builtin_floorf(a + 0.5f)", "fract": "a - __builtin_floorf(a)", "saturate": "a < 0.f ? 0.f : a > 1.f ? 1.f : a", "sign": "a > 0.f ? 1.f : a < 0.f ? -1.f : 0.f", "sqrt": "__builtin_sqrtf(a)", "inversesqrt": "1.f / __builtin_sqrtf(a)", "sin": "sinf(a)", "cos": "cosf(a)", "tan": "tanf(a)", "asin": "asinf(a)", "acos": "acosf(a)", "atan": "atanf(a)", "exp": "expf(a)", "exp2": "exp2f(a)", "log": "logf(a)", "log2": "log2f(a)", "radians": "a * 0.01745329252f", "degrees": "a * 57.295779513f"}
    bi = {"min": "b < a ? b : a", "max": "a < b ? b : a", "step": "b < a ? 0.f : 1.f", "mod": "a - b * __builtin_floorf(a / b)", "pow": "powf(a, b)", "atan": "atan2f(a, b)"}
    tri = {"mix": "a * (1.f - c) + b * c", "clamp": "a < b ? b : a > c ? c : a", "smoothstep": "sk_smooth(a, b, c)", "fma": "a * b + c"}
    o.append('extern "C" { float sinf(float); float cosf(float); float tanf(float); float asinf(float); float acosf(float); float atanf(float); float expf(float); float exp2f(float); float logf(float); float log2f(float); float powf(float, float); float atan2f(float, float); }')
    o.append("inline float sk_smooth(float a, float b, float c) { float t = (c - a) / (b - a); t = t < 0.f ? 0.f : t > 1.f ? 1.f : t; return t * t * (3.f - 2.f * t); }")
    for k, e in un.items(): o.append("inline float %s(float a) { return %s; }" % (k, e))
    for k, e in bi.items(): o.append("inline float %s(float a, float b) { return %s; }" % (k, e))
    for k, e in tri.items(): o.append("inline float %s(float a, float b, float c) { return %s; }" % (k, e))
    for n in (2, 3, 4):
        T = "float%d" % n; L = lambda fmt: T + "(" + ", ".join(fmt.replace("@", c) for c in f[:n]) + ")"
        for k in un: o.append("inline %s %s(const %s& a) { return %s; }" % (T, k, T, L(k + "(a.@)")))
        for k in bi: o.append("inline %s %s(const %s& a, const %s& b) { return %s; } inline %s %s(const %s& a, float b) { return %s; } inline %s %s(float a, const %s& b) { return %s; }" % (T, k, T, T, L(k + "(a.@, b.@)"), T, k, T, L(k + "(a.@, b)"), T, k, T, L(k + "(a, b.@)")))
        for k in tri: o.append("inline %s %s(const %s& a, const %s& b, const %s& c) { return %s; } inline %s %s(const %s& a, const %s& b, float c) { return %s; } inline %s %s(const %s& a, float b, float c) { return %s; }" % (T, k, T, T, T, L(k + "(a.@, b.@, c.@)"), T, k, T, T, L(k + "(a.@, b.@, c)"), T, k, T, L(k + "(a.@, b, c)")))
        for op in "+-*/": o.append("inline %s operator%s(const %s& a, const %s& b) { return %s; } inline %s operator%s(const %s& a, float b) { return %s; } inline %s operator%s(float a, const %s& b) { return %s; } inline %s& operator%s=(%s& a, const %s& b) { a = a %s b; return a; } inline %s& operator%s=(%s& a, float b) { a = a %s b; return a; }" % (T, op, T, T, L("a.@ %s b.@" % op), T, op, T, L("a.@ %s b" % op), T, op, T, L("a %s b.@" % op), T, op, T, T, op, T, op, T, op))
        o.append("inline %s operator-(const %s& a) { return %s; } inline float dot(const %s& a, const %s& b) { return %s; } inline float length(const %s& a) { return __builtin_sqrtf(dot(a, a)); } inline float distance(const %s& a, const %s& b) { return length(a - b); } inline %s normalize(const %s& a) { return a / length(a); } inline bool operator==(const %s& a, const %s& b) { return %s; } inline bool operator!=(const %s& a, const %s& b) { return !(a == b); }" % (T, T, L("-a.@"), T, T, " + ".join("a.%s * b.%s" % (c, c) for c in f[:n]), T, T, T, T, T, T, T, " && ".join("a.%s == b.%s" % (c, c) for c in f[:n]), T, T))
        o.append("inline %s lerp_(const %s& a, const %s& b, float t) { return mix(a, b, t); }" % (T, T, T))
    o.append("inline float lerp_(float a, float b, float t) { return mix(a, b, t); }")
    o.append("struct mat2 { float2 c[2]; mat2() {} explicit mat2(float d) { c[0] = float2(d, 0); c[1] = float2(0, d); } mat2(const float2& a, const float2& b) { c[0] = a; c[1] = b; } mat2(float a, float b, float d, float e) { c[0] = float2(a, b); c[1] = float2(d, e); } explicit mat2(const float4& v) { c[0] = float2(v.x, v.y); c[1] = float2(v.z, v.w); } float2& operator[](int i) { return c[i]; } const float2& operator[](int i) const { return c[i]; } }; using float2x2 = mat2; using half2x2 = mat2;")
    o.append("inline float2 operator*(const mat2& m, const float2& v) { return m.c[0] * v.x + m.c[1] * v.y; } inline float2 operator*(const float2& v, const mat2& m) { return float2(dot(v, m.c[0]), dot(v, m.c[1])); } inline mat2 operator*(const mat2& a, const mat2& b) { return mat2(a * b.c[0], a * b.c[1]); } inline float determinant(const mat2& m) { return m[0][0] * m[1][1] - m[1][0] * m[0][1]; } inline mat2 transpose(const mat2& m) { return mat2(m[0][0], m[1][0], m[0][1], m[1][1]); }")
    o.append("}")
    return o

def translate(src):
    s = strip(src); unis = re.findall(r"\buniform\s+(?:layout\s*\([^)]*\)\s*)?(\w+)\s+(\w+)\s*;", s)
    s = re.sub(r"\b(?:layout\s*\([^)]*\)\s*)?uniform\s+(?:layout\s*\([^)]*\)\s*)?(\w+)\s+(\w+)\s*;", "", s)
    s = re.sub(r"(?<![\w.])(\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+)(?![\w.])", r"\1f", s)
    s = re.sub(r"\b(?:highp|mediump|lowp|noinline|inline)\b", "", s)
    s = re.sub(r"\b(inout|out)\s+(\w+)\s+(\w+)", r"\2& \3", s); s = re.sub(r"([(,]\s*)in\s+(?=\w)", r"\1", s)
    s = re.sub(r"\bmain\s*\(", "main_(", s)
    return s, unis

def generate(emits, path):
    """writes the header; returns obligations as (id, where, problem or None)"""
    vs = parse(emits); obs = []; code = []
    sw = swizzles([strip(v[k]) for v in vs for k in ("vertex", "fragment")])
    for v in vs:
        n = v["name"]; end = 0; ok = []
        for a in v["attribute"]:
            t = TYPES["attribute"].get(a["type"])
            if not t: raise Unsupported("attribute type " + a["type"])
            if int(a["offset"]) + t[1] > int(v["stride"]) or int(a["offset"]) < 0: ok.append("attribute %s reads past the vertex" % a["name"])
        obs.append(("attributes-inside-the-vertex", n, "; ".join(ok) or None))
        (vsrc, vu), (fsrc, fu) = translate(v["vertex"]), translate(v["fragment"])
        decl = {u["name"]: TYPES["uniform"].get(u["type"]) for u in v["uniform"]}; used = {nm: ty.replace("half", "float") for ty, nm in vu + fu}
        diff = ["uniform %s: declared %s, in the shader %s" % (k, decl.get(k), used.get(k)) for k in sorted(set(decl) | set(used)) if decl.get(k) != used.get(k)]
        obs.append(("uniforms-agree-with-the-shader", n, "; ".join(diff) or None))
        c = ["namespace shader_%s { using namespace sksl;" % n]
        c.append("struct Attributes { %s };" % " ".join("%s %s;" % (TYPES["attribute"][a["type"]][0], a["name"]) for a in v["attribute"]))
        c.append("struct Varyings { float2 position; %s };" % " ".join("%s %s;" % (TYPES["varying"][a["type"]], a["name"]) for a in v["varying"]))
        for ty, nm in dict((b, a) for a, b in vu + fu).items(): c.append("inline %s %s;" % (nm, ty))
        c.append("namespace vs {\n%s\n}\nnamespace fs {\n%s\n}" % (vsrc, fsrc))
        c.append("struct S { static constexpr int stride = %s; using Varyings = shader_%s::Varyings;" % (v["stride"], n))
        c.append("static Attributes fetch(const uint8_t* p) { Attributes a; %s return a; }" % " ".join(("for (int i = 0; i < 4; ++i) a.%s[i] = p[%s + i] / 255.f;" if a["type"] == "4" else "std::memcpy(&a.%s, p + %s, %d);" % ("%s", "%s", TYPES["attribute"][a["type"]][1])) % (a["name"], a["offset"]) for a in v["attribute"]))
        c.append("static bool set(int id, float x, float y, float z, float w) { %s return false; }" % " ".join("if (id == %s) { %s = float4(x, y, z, w); return true; }" % (u["id"], u["name"]) for u in v["uniform"] if u["type"] == "3" and used.get(u["name"]) == "float4"))
        c.append("static bool seti(int id, int x) { %s return false; }" % " ".join("if (id == %s) { %s = x; return true; }" % (u["id"], u["name"]) for u in v["uniform"] if u["type"] == "5" and used.get(u["name"]) == "int"))
        c.append("static Varyings vertex(const uint8_t* p) { return vs::main_(fetch(p)); } static float2 fragment(const Varyings& v, float4& color) { return fs::main_(v, color); }")
        c.append("static Varyings lerp(const Varyings& a, const Varyings& b, float t) { Varyings r; r.position = lerp_(a.position, b.position, t); %s return r; } }; }" % " ".join("r.%s = lerp_(a.%s, b.%s, t);" % (x["name"], x["name"], x["name"]) for x in v["varying"]))
        code.append((n, c))
    text = "\n".join(prelude(sw) + [l for _, c in code for l in c]) + "\n"
    bad = set()
    for n, c in code:   # compile witness per variant
        t = "\n".join(prelude(sw) + c) + "\n"; r = subprocess.run(["clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++", "-std=c++20", "-fdeclspec", "-w", "-fsyntax-only", "-x", "c++", "-"], input=t, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        errs = [l for l in r.stderr.splitlines() if "error:" in l]
        if any(re.search(r"identifier '(any|all|not|lessThan\w*|greaterThan\w*|equal|notEqual|dFd[xy]|fwidth|reflect|refract|faceforward|cross|outerProduct|matrixCompMult|unpremul|toLinearSrgb|fromLinearSrgb|inverse|(float|half)[34]x[34]|mat[34]|(bool|int|uint|short|ushort)[234]|isnan|isinf|sinh|cosh|tanh|fmod|floatBitsTo\w+)'", e) for e in errs) or any("unknown type name" in e for e in errs): raise Unsupported("shader %s: %s" % (n, errs[0]))
        if errs and not any(re.search(r"no member named '\w+' in '(?:const )?(?:shader_\w+::)?(?:Attributes|Varyings)'|no matching function for call to '\w+'|undeclared identifier '(?:u[A-Z]\w*|\w+)'|no viable (?:conversion|overloaded)|cannot bind|assigning to|invalid operands", e) for e in errs): raise Unsupported("shader %s: %s" % (n, errs[0]))
        if errs: bad.add(n)
        obs.append(("shader-compiles-against-its-interface", n, errs[0][:300] if errs else None))
    os.makedirs(path, exist_ok=True); f = os.path.join(path, "sksl_generated.h"); tmp = f + ".%d" % os.getpid()
    with open(tmp, "w") as h: h.write(text)
    os.rename(tmp, f)
    return obs, not bad
