"""Regions and text meshes for the I/O checks: values, documents, mutations, tokens."""
import json, re, struct
from fractions import Fraction as F

def to_double(q):
    try: d = float(q)
    except OverflowError: return None
    return d if d not in (float("inf"), float("-inf")) and F(d) == q else None
def be(n):
    return list(n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big"))
def coord(q):
    d = to_double(q)
    return {"s": 1 if q < 0 else 0, "n": be(abs(q.numerator)), "d": be(q.denominator), "b": [] if d is None else list(struct.pack(">d", d + 0.0))}
def bits(d):
    return struct.pack(">d", 0.0 if d == 0 else d).hex()

def value(rng, kind):
    """a coordinate value: kinds small | double | exact | wild"""
    m = rng.randrange(6)
    if kind == "small": return F(rng.randrange(-4, 5))
    if kind == "double":
        if m == 0: return F(rng.choice((0.1, -0.2, 1e300, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, 2.0**53, -2.0**-40, 1/3, 123456.789)))
        if m == 1: return F(struct.unpack(">d", struct.pack(">Q", rng.getrandbits(64) & ~(0x7ff << 52) | rng.randrange(0, 2047) << 52))[0])
        if m == 2: return F(rng.randrange(-10**6, 10**6), 2 ** rng.randrange(0, 20))
        return F(rng.uniform(-10, 10))
    if kind == "exact":
        return F(rng.randrange(-50, 51), rng.choice((3, 7, 10, 9, 1000003)))
    return rng.choice((F(2**200 + 1), F(-2**1100), F(1, 3**100), F(2**53 + 1), F(1, 2**1080), F(10**40, 7), F(-1, 2**1074) * 3 / 2, F(256), F(65537, 255), F(-2**64), F(2**63 - 1, 2**64 + 1), F(0)))
def spell(rng, q):
    d = to_double(q)
    if d is not None and rng.random() < .6:
        return "d" + ("-0.0" if d == 0 and rng.random() < .2 else repr(d))
    return ("L" if rng.random() < .3 else "") + "%d/%d" % (q.numerator, q.denominator)

DATA = {"null": 0, "i32": 4, "u16": 2, "u8": 1, "f64": 8}
def data(rng, ty):
    if ty == "null": return "0", []
    if ty == "f64":
        d = rng.choice((0.0, 1.5, -2.25e10, 1e-300)); return repr(d), list(struct.pack("<d", d))
    n = {"i32": rng.choice((0, 1, -1, 2**31 - 1, -2**31, 256, 77)), "u16": rng.choice((0, 1, 65535, 256)), "u8": rng.choice((0, 1, 255))}[ty]
    return str(n), list(struct.pack({"i32": "<i", "u16": "<H", "u8": "<B"}[ty], n))
def region(rng, ty, kinds=("small", "double", "exact", "wild"), nv=None, nf=None):
    """(script tokens, descriptor)"""
    k = rng.choice((0, 1, 2, 2, 2, 2, 2, 2)) if nv is None else 2
    if k < 2: return "%d 0 0" % k, {"kind": k, "v": [], "f": [], "d": []}
    nv = nv or rng.choice((1, 3, 4, 6, 10)); nf = nf or rng.choice((1, 2, 4, 9))
    kd = rng.choice(kinds); toks, V = [], []
    for _ in range(nv):
        p = [value(rng, kd if rng.random() < .8 else rng.choice(kinds)) for _ in range(3)]
        toks += [spell(rng, q) for q in p]; V.append([coord(q) for q in p])
    ft, Fs, Ds = [], [], []
    for _ in range(nf):
        f = [rng.randrange(nv) for _ in range(3)]; t, b = data(rng, ty)
        ft += [str(i) for i in f] + [t]; Fs.append(f); Ds.append(b)
    return "2 %d %s %d %s" % (nv, " ".join(toks), nf, " ".join(ft)), {"kind": 2, "v": V, "f": Fs, "d": Ds}
def i32(n): return list(struct.pack("<i", n))
def encode(r):
    """bytes of a region by the format's definition (checked against KigumiFile!Encode in the trace)."""
    o = [r["kind"]] + i32(len(r["v"])) + i32(len(r["f"]))
    for p in r["v"]:
        if all(c["b"] for c in p): o += [0] + [x for c in p for x in reversed(c["b"])]
        else: o += [1] + [x for c in p for x in [c["s"]] + i32(len(c["n"])) + c["n"] + i32(len(c["d"])) + c["d"]]
    for f, d in zip(r["f"], r["d"]): o += i32(f[0]) + i32(f[1]) + i32(f[2]) + d
    return o
def mutate_bytes(rng, b):
    b = list(b)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        m = rng.randrange(8); i = rng.randrange(len(b)) if b else 0
        if not b: return [rng.randrange(256) for _ in range(rng.randrange(1, 20))]
        if m == 0: b[i] = rng.randrange(256)
        elif m == 1: b[i] ^= 1 << rng.randrange(8)
        elif m == 2: b = b[:i]
        elif m == 3: b[i:i] = [rng.randrange(256) for _ in range(rng.randrange(1, 5))]
        elif m == 4: del b[i:i + rng.randrange(1, 5)]
        elif m == 5 and len(b) >= 9: k = rng.choice((1, 5)); b[k:k + 4] = i32(rng.choice((-1, 2**31 - 1, -2**31, 0, 1, 2, 100, 65536, 2**24)))
        elif m == 6: b[0] = rng.choice((0, 1, 2, 3, 255))
        elif len(b) > 13: k = rng.randrange(9, len(b) - 3); b[k:k + 4] = i32(rng.choice((-1, 2**31 - 1, 0, 1, 2**24, 50)))
    return b
def hexs(b): return bytes(b).hex() or "-"

# ---- text ----
NUM = re.compile(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")
def token(t, fmt):
    odd = 0; x = ""
    if NUM.match(t):
        try: d = float(t)
        except (ValueError, OverflowError): d = float("inf")
        if d in (float("inf"), float("-inf")): x = "?"
        elif d == 0 and re.search(r"[1-9]", t.split("e")[0].split("E")[0]): x = "?"
        else: x = bits(d)
    elif re.match(r"^[+-]?(nan|inf|infinity)", t, re.I) : x = "?"
    head = t.split("/")[0] if fmt == "obj" else t
    if re.match(r"^-?(0|[1-9]\d{0,8})$", head): i = int(head) if not (head == "-0") else -1000001
    elif re.match(r"^[+-]?\d", head) : i = -1000001         # 1.5, 007, 1x, +1, huge
    else: i = -1000000
    if i == -1000001 and re.match(r"^-?[1-9]\d{9,}$", head): i = 999999999 if head[0] != "-" else -999999999   # an index no document has
    if not all(32 < ord(c) < 127 for c in t) or (t[0] in "vfOSCN4n" and t not in ("v", "f", "vt", "vn", "vp", "vertex", "float", "face")): odd = 1
    if "#" in t[1:]: odd = 1; x = "?" if x else x
    return {"t": t, "x": x, "i": i, "h": 1 if t[0] == "#" else 0, "odd": odd}
def lines(doc, fmt):
    """token lines of a document (text with any line endings)"""
    L = doc.split("\n")
    if L and L[-1] == "": L.pop()
    return [[token(t, fmt) for t in re.split(r"[ \t\r\v\f]+", l) if t != ""] for l in L]
def spell_num(rng, d):
    """a decimal spelling of the double d"""
    m = rng.randrange(7); r = repr(d)
    if m == 0 and "e" not in r and "." in r: r = r + "0" * rng.randrange(1, 4)
    elif m == 1: r = "%.17e" % d
    elif m == 2: r = ("%.17E" % d)
    elif m == 3 and d >= 0: r = "+" + r
    elif m == 4 and r.endswith(".0"): r = r[:-2]
    elif m == 5 and r.endswith(".0"): r = r[:-1]
    elif m == 6 and "e" not in r:
        if r.startswith("0."): r = r[1:]
        elif r.startswith("-0.") and r != "-0.0": r = "-" + r[2:]
    return r
def document(rng, fmt, nv=None):
    """a well-formed document of some mesh in some style"""
    nv = rng.choice((0, 1, 3, 4, 5, 8)) if nv is None else nv; nf = rng.choice((0, 1, 2, 3, 6)) if nv else 0
    V = [[float(value(rng, rng.choice(("small", "small", "double")))) for _ in range(3)] for _ in range(nv)]
    Fs = [[rng.randrange(nv) for _ in range(rng.choice((3, 3, 3, 4, 5, 7)))] for _ in range(nf)]
    sep = lambda: rng.choice((" ", " ", " ", "  ", "\t", " \t"))
    eol = rng.choice(("\n", "\n", "\r\n"))
    pad = lambda s: (rng.choice(("", "", "", " ", "\t")) + s + rng.choice(("", "", "", " ", "  ", "\t")))
    J = lambda ts: sep().join(ts)
    N = lambda: spell_num(rng, rng.choice((0.0, 0.5, 1.0, 255.0, -3.25)))
    out = []; note = lambda: rng.random() < .15
    def com():
        if fmt != "ply":
            while note(): out.append(rng.choice(("", "# a comment", "#", "#v 1 2 3", "   # f 1 2 3", "  ")))
    if fmt == "obj":
        junk = lambda: rng.choice(("vn 0 0 1", "vt 0.5 0.5", "o thing", "g a b", "s off", "usemtl m", "mtllib x.mtl", "vp 1 2", "l 1 2", "s 1"))
        style = rng.randrange(4); ev = rng.choice((0, 0, 1, 3, 4)); inter = rng.random() < .3; pend = list(range(nf)); used = 0
        def face(f):
            n = used; ts = ["f"]
            for i in f:
                a = str(i + 1) if rng.random() < .5 or i >= n else str(i - n)
                ts.append(a + ("", "/%d" % rng.randrange(1, 9), "/%d/%d" % (rng.randrange(1, 9), rng.randrange(1, 9)), "//%d" % rng.randrange(1, 9))[style])
            out.append(pad(J(ts)) + rng.choice(("", "", "", " # face")))
        for v in V:
            com(); 
            if rng.random() < .1: out.append(junk())
            out.append(pad(J(["v"] + [spell_num(rng, x) for x in v] + [N() for _ in range(ev)])) + rng.choice(("", "", "", " # vertex"))); used += 1
            if inter and pend and rng.random() < .4: face(Fs[pend.pop(0)])
        for i in pend:
            com()
            if rng.random() < .1: out.append(junk())
            face(Fs[i])
        com()
    elif fmt == "off":
        com(); extra = rng.choice((0, 0, 3, 4)); fe = rng.choice((0, 0, 1, 3, 4))
        out.append(pad(rng.choice(("OFF", "OFF", "COFF", "NOFF", "CNOFF", "STOFF", "STCNOFF")) + rng.choice(("", "", "", " # header")))); com()
        out.append(pad(J([str(nv), str(nf)] + (["0"] if rng.random() < .8 else [])) + rng.choice(("", "", " # counts")))); com()
        for v in V: out.append(pad(J([spell_num(rng, x) for x in v] + [N() for _ in range(extra)])) + rng.choice(("", "", "", " # vertex"))); com()
        for f in Fs: out.append(pad(J([str(len(f))] + [str(i) for i in f] + [str(rng.randrange(256)) for _ in range(fe)])) + rng.choice(("", "", "", " # face"))); com()
    else:
        T = lambda: rng.choice(("float", "double", "float32", "float64")); LT = lambda: [rng.choice(("uchar", "int", "uint8")), rng.choice(("int", "uint", "int32"))]
        vp = ["x", "y", "z"]; 
        if rng.random() < .2: rng.shuffle(vp)
        for e in rng.sample(("red", "nx", "quality", "L1", "s"), rng.choice((0, 0, 1, 2, 4))): vp.insert(rng.randrange(len(vp) + 1), e)
        fp = ["IDX"]
        for e in rng.sample(("flags", "LT", "a", "b"), rng.choice((0, 0, 1, 2))): fp.insert(rng.randrange(len(fp) + 1), e)
        other = lambda n: [("edge", rng.randrange(0, 3)), ("camera", rng.randrange(0, 2))][:n]
        els = [("vertex", nv), ("face", nf)]
        if rng.random() < .15: els.reverse()
        for o in other(rng.choice((0, 0, 0, 1, 2))): els.insert(rng.randrange(len(els) + 1), o)
        props = {"vertex": vp, "face": fp, "edge": ["v1", "v2"], "camera": ["LC", "w"]}
        def hc():
            while note(): out.append(rng.choice(("comment made by hand", "comment", "comment element vertex 9", "")))
        out.append("ply"); hc(); out.append(pad(J(["format", "ascii", "1.0"]))); hc()
        name = rng.choice(("vertex_index", "vertex_indices"))
        for e, n in els:
            out.append(pad(J(["element", e, str(n)]))); hc()
            for p in props[e]:
                out.append(pad(J(["property", "list"] + LT() + [name if p == "IDX" else p] if p == "IDX" or p[0] == "L" else ["property", T(), p]))); hc()
        out.append("end_header")
        for e, n in els:
            for i in range(n):
                ts = []
                for p in props[e]:
                    if p == "IDX": ts += [str(len(Fs[i]))] + [str(k) for k in Fs[i]]
                    elif p[0] == "L": k = rng.randrange(0, 4); ts += [str(k)] + [N() for _ in range(k)]
                    elif e == "vertex" and p in ("x", "y", "z"): ts.append(spell_num(rng, V[i]["xyz".index(p)]))
                    else: ts.append(N())
                out.append(pad(J(ts)))
    return eol.join(out) + ("" if rng.random() < .1 and out and out[-1].strip() else eol if out else "")
def mutate_doc(rng, doc, fmt):
    L = doc.split("\n")
    for _ in range(rng.choice((1, 1, 1, 2))):
        m = rng.randrange(10); i = rng.randrange(len(L)); ts = L[i].split()
        if m == 0: del L[i]
        elif m == 1: L.insert(i, rng.choice(L))
        elif m in (2, 3) and ts: k = rng.randrange(len(ts)); ts[k] = rng.choice(("x", "1", "-1", "0", "99", "nan", "-inf", "1.5", "", "3", "abc", "#", "1e999", "4294967296", "-5", "1/", "//", "2", "18446744073709551615")); L[i] = " ".join(ts)
        elif m == 4 and ts: del ts[rng.randrange(len(ts))]; L[i] = " ".join(ts)
        elif m == 5 and ts: ts.insert(rng.randrange(len(ts) + 1), rng.choice(("1", "0", "x", "7", "-1"))); L[i] = " ".join(ts)
        elif m == 6: L = L[:i + 1]; L[i] = L[i][:rng.randrange(len(L[i]) + 1)]
        elif m == 7: s = list(L[i]); 
        elif m == 8: L.append(rng.choice(("1 2 3", "3 0 1 2", "f 1 2 9", "v 1 2", "f 1 2 x", "extra", "f 0 1 2", "f 1 2 -9")))
        elif m == 9: j = rng.randrange(len(L)); L[i], L[j] = L[j], L[i]
        if not L: L = [""]
    return "\n".join(L)
