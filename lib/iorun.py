"""Scenarios and runner of the I/O checks."""
import json, os, struct
from fractions import Fraction as F
import core, runner, iogen

class Runner(runner.Runner):
    hide = ("bytes", "lines", "region", "got", "back", "before", "doc")
    def once(self, lines, tag, timeout):
        return super().once(lines, tag, timeout, [self.c.path("d." + tag)])
    def judge(self, s, o, rc, err):
        # documents written by the library are split into tokens for the specification
        try:
            L = []
            for l in open(o):
                if '"ev":"twrite"' in l[:60]:
                    e = json.loads(l); e["lines"] = iogen.lines(bytes.fromhex(e["doc"]).decode("latin1"), e["fmt"]); del e["doc"]; l = json.dumps(e, separators=(",", ":")) + "\n"
                L.append(l)
            open(o, "w").writelines(L)
        except (OSError, ValueError, KeyError): pass
        return super().judge(s, o, rc, err)

def J(d): return "json " + json.dumps(d, separators=(",", ":"))[:-1]
def wrap(name, body): return (name, ['emit {"ev":"world","name":"%s"}' % name] + body)

def kwrite(rng, name, **kw):
    ty = rng.choice(list(iogen.DATA)); t, r = iogen.region(rng, ty, **kw)
    return wrap(name, [J({"ev": "kwrite", "region": r}), "kw %s %s %d %s" % (ty, rng.choice(("stream", "stream", "file", "slow")), rng.randrange(5), t)])
def kread(rng, name):
    """bytes of a conforming writer"""
    ty = rng.choice(list(iogen.DATA)); _, r = iogen.region(rng, ty)
    return wrap(name, [J({"ev": "kread", "w": iogen.DATA[ty], "region": r}), "kr %s %s %d %s" % (ty, rng.choice(("stream", "file", "slow")), rng.randrange(5), iogen.hexs(iogen.encode(r)))])
def kmut(rng, name):
    ty = rng.choice(("null", "i32", "u16")); _, r = iogen.region(rng, ty, nv=rng.choice((1, 2, 3)), nf=rng.choice((1, 2)))
    b = iogen.mutate_bytes(rng, iogen.encode(r))
    return wrap(name, [J({"ev": "kread", "w": iogen.DATA[ty]}), "kr %s %s %d %s" % (ty, rng.choice(("stream", "file", "slow")), rng.randrange(5), iogen.hexs(b))])
def kfault(rng, name):
    ty = rng.choice(list(iogen.DATA)); t, r = iogen.region(rng, ty, nv=rng.choice((1, 2, 3)), nf=rng.choice((1, 2))) if rng.random() < .9 else iogen.region(rng, ty)
    return wrap(name, [J({"ev": "fault", "op": "read"}), "krf %s %d %s" % (ty, rng.randrange(5), iogen.hexs(iogen.encode(r))), J({"ev": "fault", "op": "write"}), "kwf %s %s" % (ty, t)])
def mesh(rng, kinds):
    nv = rng.choice((0, 1, 3, 4, 7)); nf = rng.choice((0, 1, 2, 5)) if nv else 0
    V = [[iogen.value(rng, rng.choice(kinds)) for _ in range(3)] for _ in range(nv)]; Fs = [[rng.randrange(nv) for _ in range(3)] for _ in range(nf)]
    return "%d %s %d %s" % (nv, " ".join(iogen.spell(rng, q) for p in V for q in p), nf, " ".join("%d %d %d 0" % tuple(f) for f in Fs)), V, Fs
def near(q):
    """the doubles a coordinate may become: itself, or its two neighbours if it is not a double"""
    import math
    d = float(q)
    if F(d) == q: return [iogen.bits(d)]
    o = math.nextafter(d, math.inf if F(d) < q else -math.inf)
    return [iogen.bits(d), iogen.bits(o)]
def twrite(rng, name, fmt=None):
    fmt = fmt or rng.choice(("obj", "off", "ply")); t, V, Fs = mesh(rng, ("small", "double", "exact"))
    return wrap(name, [J({"ev": "twrite", "fmt": fmt, "v": [[near(q) for q in p] for p in V], "f": Fs}), "tw %s %s %d %s" % (fmt, rng.choice(("stream", "file")), rng.randrange(2), t)])
def tread(rng, name, mut, fmt=None):
    fmt = fmt or rng.choice(("obj", "off", "ply")); d = iogen.document(rng, fmt)
    if mut: d = iogen.mutate_doc(rng, d, fmt) if mut == 1 else d[:rng.randrange(len(d) + 1)]
    return wrap(name, [J({"ev": "tread", "fmt": fmt, "well": 0 if mut else 1, "lines": iogen.lines(d, fmt)}), "tr %s %s %d %s" % (fmt, rng.choice(("stream", "stream", "file", "slow")), rng.randrange(3), iogen.hexs(d.encode()))])
def tfault(rng, name):
    fmt = rng.choice(("obj", "off", "ply")); d = iogen.document(rng, fmt, nv=rng.choice((1, 3))); t, _, _ = mesh(rng, ("small", "double"))
    return wrap(name, [J({"ev": "fault", "op": "read"}), "trf %s %d %s" % (fmt, rng.randrange(3), iogen.hexs(d.encode())), J({"ev": "fault", "op": "write"}), "twf %s %s" % (fmt, t)])
def paths(name): return wrap(name, [J({"ev": "path"}), "path obj"])
