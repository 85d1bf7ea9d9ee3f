"""Command lines for the tool, the files they meet, and what came of them."""
import hashlib, json, os, re, shutil, subprocess
import core, meshes

OPERANDS = {"boolean": ["first", "second"], "convert": ["in", "out"], "defects": ["in"]}
OPTIONS = {"boolean": ["int", "uni", "dif", "sym"], "convert": [], "defects": []}
OUTPUTS = {"boolean": OPTIONS["boolean"], "convert": ["out"], "defects": []}
INPUTS = {"boolean": ["first", "second"], "convert": ["in"], "defects": ["in"]}
EXTS = [".obj", ".off", ".ply", ".kigumi"]

def text(ext, P, F):
    if ext == ".obj": return "".join("v %s %s %s\n" % p for p in P) + "".join("f %d %d %d\n" % tuple(i + 1 for i in f) for f in F)
    if ext == ".off": return "OFF\n%d %d 0\n" % (len(P), len(F)) + "".join("%s %s %s\n" % p for p in P) + "".join("3 %d %d %d\n" % f for f in F)
    return ("ply\nformat ascii 1.0\nelement vertex %d\nproperty double x\nproperty double y\nproperty double z\nelement face %d\nproperty list uchar int vertex_indices\nend_header\n" % (len(P), len(F))
            + "".join("%s %s %s\n" % p for p in P) + "".join("3 %d %d %d\n" % f for f in F))

def pool(c, ref, n):
    """files to take inputs from: (extension, path, class)"""
    d = c.path("pool"); os.makedirs(d); r = []; rng = c.rng; lines = ["cd\t" + d]
    def put(name, data): open(os.path.join(d, name), "wb").write(data); return os.path.join(d, name)
    for i in range(n):
        k = rng.random()
        if k < .6: P, F, _ = rng.choice((meshes.tetra, meshes.octa, meshes.cube))(rng, 3)
        elif k < .8: P, F, _ = rng.choice((meshes.strip, meshes.disk))(rng)
        else: P, F, _, _ = meshes.mesh(rng)
        off = tuple(rng.choice((0, 0, .5, 1, -1)) for _ in range(3)); P = [tuple(x + y for x, y in zip(p, off)) for p in P]
        ext = rng.choice(EXTS)
        if ext == ".kigumi":
            if not F: continue
            s = put("k%d.obj" % i, text(".obj", P, F).encode()); lines.append("make\t%s\t%s" % (s, s[:-4] + ".kigumi")); r.append((ext, s[:-4] + ".kigumi", "good"))
        else: r.append((ext, put("g%d%s" % (i, ext), text(ext, P, F).encode()), "good"))
        if i % 4 == 0 and ext != ".kigumi":      # spoiled: cut off, a bad index, not a number, another format, nothing
            t = text(ext, P, F)
            for j, b in enumerate((t[:len(t) // 2], t.replace("3 ", "3 99 ", 1), t + "f 1 2 99\n", t.replace("0", "zero", 1), text(rng.choice(EXTS[:3]), P, F), "")): r.append((ext, put("b%d.%d%s" % (i, j, ext), b.encode()), "bad"))
    lines += ["make\t:full:\t%s/full.kigumi" % d, "make\t:empty:\t%s/empty.kigumi" % d]
    r += [(".kigumi", d + "/full.kigumi", "good"), (".kigumi", d + "/empty.kigumi", "good")]
    ask(c, ref, "pool", lines)
    for e, p, k in list(r):
        if e == ".kigumi":
            b = open(p, "rb").read()
            if rng.random() < .3: x = p[:-7] + "cut.kigumi"; open(x, "wb").write(b[:rng.randrange(len(b))]); r.append((e, x, "bad"))
    return r

def ask(c, ref, tag, lines):
    i, o = c.path(tag + ".req"), c.path(tag + ".ans")
    with open(i, "w") as f: f.write("\n".join(lines) + "\n")
    rc, _, err = c.run([ref, i, o], timeout=300)
    if rc != 0: raise core.CheckError("the reference driver failed (%s): %s" % (rc, err[-300:]))
    a = [json.loads(l) for l in open(o)]; os.unlink(i); os.unlink(o)
    if len(a) != len(lines): raise core.CheckError("the reference driver answered %d of %d requests" % (len(a), len(lines)))
    return a

def parse(cmd, toks):
    """a reading of the tokens (to know which facts to collect): (values, values if operands move on past named ones)"""
    ops = OPERANDS[cmd]; v = {}; n = 0; ok = True
    for t in toks:
        if t["k"] == "pos":
            o = ops[n] if n < len(ops) else None; n += 1
        else: o = t["o"] if t["o"] in ops + OPTIONS[cmd] else None
        if o is None or t["v"] == "" or o in v: ok = False; break
        v[o] = t["v"]
    ok = ok and all(o in v for o in ops)
    w = {t["o"]: t["v"] for t in toks if t["k"] != "pos"}; rest = [o for o in ops if o not in w]; pos = [t["v"] for t in toks if t["k"] == "pos"]
    moved = dict(w, **dict(zip(rest, pos))) if len(rest) == len(pos) and all(t["v"] for t in toks) else None
    return (v if ok else None), moved

def case(c, base, i, files):
    """a directory, a command and its tokens"""
    rng = c.rng; d = os.path.join(base, "c%d" % i); os.makedirs(d + "/sub"); os.makedirs(d + "/dir.obj"); os.makedirs(d + "/dir.kigumi")
    for e in EXTS: os.symlink("/dev/full", d + "/full" + e)
    stems = ["a", "b", "my mesh", "x=1", "k.obj", "sub/in", ":full:", "ünï", "sub/-x", "c.kigumi", "1"]; rng.shuffle(stems)
    cmd = rng.choice(("boolean", "boolean", "boolean", "convert", "convert", "defects")); names = []
    def given():
        k = rng.random()
        if k < .12 and cmd != "defects" or k < .03: return rng.choice((":empty:", ":full:"))
        if k < .18: return rng.choice(("missing.obj", "missing.kigumi", "nodir/a.off", "dir.obj", "dir.kigumi", "a", "x.stl", "A.OBJ", ":EMPTY:", "full", ".kigum"))
        if names and k < .25: return rng.choice(names)
        e, p, _ = rng.choice(files if k < .4 else [f for f in files if f[2] == "good"]); n = stems.pop() + (e if rng.random() < .97 else rng.choice((e[1:], e.upper(), e + "x", ".stl")))
        shutil.copy(p, os.path.join(d, n)); names.append(n); return n
    def target():
        k = rng.random()
        if k < .08: return rng.choice(("out.stl", "out", "outoff", "outobj", "outply", "outkigumi", "off", "nodir/out.obj", "nodir/out.kigumi", "dir.obj", "dir.kigumi", "full.obj", "full.off", "full.ply", "full.kigumi", "out.OBJ", ":empty:", "sub/"))
        if k < .16 and names: return rng.choice(names)
        n = rng.choice(("out", "out", "o2", "o3", "sub/out", "new mesh", "r=")) + rng.choice(EXTS)
        if rng.random() < .2: open(os.path.join(d, n), "w").write("old\n")
        return n
    val = {o: given() for o in INPUTS[cmd]}
    for o in OUTPUTS[cmd]:
        if cmd == "convert" or rng.random() < .5: val[o] = target()
    ops = OPERANDS[cmd]; cut = rng.randrange(len(ops) + 1) if rng.random() < .93 else None
    tok = lambda o: {"k": rng.choice(("named", "eq")), "o": o, "v": val[o]}
    pos = [{"k": "pos", "o": "", "v": val[o]} for j, o in enumerate(ops) if (cut is None and j > 0) or (cut is not None and j < cut)]
    named = [tok(o) for o in val if o not in ops or (cut is None and ops.index(o) == 0) or (cut is not None and ops.index(o) >= cut)]
    rng.shuffle(named); toks = named
    at = sorted(rng.randrange(len(toks) + 1) for _ in pos)
    for j, (k, p) in enumerate(zip(at, pos)): toks.insert(k + j, p)
    k = rng.random()
    if k < .25 and toks:
        j = rng.randrange(len(toks)); o = rng.choice(ops + OPTIONS[cmd]); m = rng.randrange(7)
        if m == 0: del toks[j]
        elif m == 1: toks.insert(rng.randrange(len(toks) + 1), {"k": rng.choice(("named", "eq")), "o": toks[j]["o"] or rng.choice(ops), "v": target()})
        elif m == 2: toks.insert(j, {"k": rng.choice(("named", "eq")), "o": rng.choice(("bogus", "output", "help", "xor", "unionn", "Int")), "v": target()})
        elif m == 3: toks.insert(j, {"k": "pos", "o": "", "v": rng.choice((target(), "extra"))})
        elif m == 4: toks.append({"k": "bare", "o": o, "v": ""})
        elif m == 5: toks[j] = {"k": "eq", "o": toks[j]["o"] or o, "v": ""}
        else: toks = []
    for t in toks:
        if t["v"].startswith("full.") and t["o"] not in OUTPUTS[cmd] and not (t["k"] == "pos" and cmd == "convert"): t["v"] = "other.obj"     # no end of input
    if cmd == "convert" and (parse(cmd, toks)[0] or parse(cmd, toks)[1] or {}).get("in", "").startswith("full."): toks = []
    name = cmd
    if rng.random() < .06: name = rng.choice(("", cmd[:4], cmd[:4], cmd[0], cmd.upper(), cmd + "s", cmd + " ", "--" + cmd, "help"))
    argv = [name] if name else []
    if name:
        for t in toks: argv += [t["v"]] if t["k"] == "pos" else ["--" + t["o"], t["v"]] if t["k"] == "named" else ["--%s=%s" % (t["o"], t["v"])] if t["k"] == "eq" else ["--" + t["o"]]
    return {"dir": d, "cmd": name, "toks": toks, "argv": argv}

def snap(d):
    r = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            if os.path.islink(q): r[os.path.relpath(q, d)] = b"link " + os.readlink(q).encode(); continue
            r[os.path.relpath(q, d)] = open(q, "rb").read()
    return r

def writable(d, v):
    if not v.endswith(tuple(EXTS)): return False
    p = os.path.join(d, v)
    return os.path.isdir(os.path.dirname(p)) and not os.path.isdir(p) and not os.path.islink(p)

def execute(c, cli, x):
    d = x["dir"]; x["before"] = snap(d); x["kept"] = c.path("keep.%s" % os.path.basename(d)); shutil.copytree(d, x["kept"], symlinks=True)
    try: p = subprocess.run([cli] + x["argv"], cwd=d, capture_output=True, timeout=60, stdin=subprocess.DEVNULL); x["status"], x["out"], x["err"] = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired: x["status"], x["out"], x["err"] = 999, "", ""
    x["after"] = snap(d)

def judge(c, ref, tag, xs):
    """the events of the runs xs: facts from the library about the same files, contents compared after reading them"""
    lines, where = [], []
    def req(x, key, l): lines.append(l); where.append((x, key))
    for x in xs:
        x["facts"] = {}
        if x["cmd"] not in OPERANDS: continue
        req(x, None, "cd\t" + x["kept"]); val, moved = parse(x["cmd"], x["toks"]); x["val"], x["moved"] = val, moved
        for v in [y for y in (val, moved) if y]:
            key = json.dumps(v, sort_keys=True)
            req(x, key, "\t".join([x["cmd"]] + [v[o] for o in INPUTS[x["cmd"]]]))
        named = {t["v"] for t in x["toks"]}
        for which in ("before", "after"):
            req(x, None, "cd\t" + (x["kept"] if which == "before" else x["dir"]))
            for f in x[which]:
                if f in named and not os.path.islink(os.path.join(x["dir"], f)) and f.endswith(tuple(EXTS)): req(x, (which, f), "canon\t" + f)
    for (x, k), a in zip(where, ask(c, ref, tag, lines)):
        if k is not None: x["facts"][k] = a
    evs = []
    for x in xs:
        ids = {}
        def ident(v): return ids.setdefault(v, len(ids) + 1)
        cmd, ops = x["cmd"], OPERANDS.get(x["cmd"])
        val = (x.get("val") or x.get("moved")) if ops else None
        names = set(x["before"]) | set(x["after"]) | {t["v"] for t in x["toks"] if t["v"]} | {"_"}
        w = {"readable": {"_": False}, "writable": {v: writable(x["kept"], v) for v in names}, "built": True, "made": {o: True for o in OUTPUTS.get(cmd, [])}, "content": {o: -1 for o in OUTPUTS.get(cmd, [])}}
        w["made"]["_"] = True; w["content"]["_"] = 0
        e = {"ev": "run", "cmd": cmd, "toks": x["toks"], "warn1": "first mesh partially intersects" in x["err"], "warn2": "second mesh partially intersects" in x["err"], "lib1": False, "lib2": False, "lines": [], "counts": [], "moved": {"_": ""}}
        if ops:
            if x.get("moved"): e["moved"] = {o: x["moved"].get(o, "") for o in ops + OPTIONS[cmd]}
            if val:
                f = x["facts"][json.dumps(val, sort_keys=True)]
                if cmd == "boolean":
                    w["readable"].update({val["second"]: f["r2"], val["first"]: f["r1"]}); w["built"] = f["built"]; e["lib1"], e["lib2"] = bool(f["warn"] & 1), bool(f["warn"] & 2)
                else: w["readable"][val["in"]] = f["read"]
                for o in OUTPUTS[cmd]:
                    made = f["made"].get(o) if cmd == "boolean" else f["made"]
                    w["made"][o] = bool(made)
                    ext = "." + val[o].rsplit(".", 1)[-1] if val.get(o) else ""
                    if made and made.get(ext): w["content"][o] = ident(made[ext])
                if cmd == "defects": e["counts"] = f["counts"]
        for l in x["out"].splitlines():
            m = re.fullmatch(r"(\d+) (.+)", l); e["lines"].append([int(m.group(1)), m.group(2)] if m else [-1, l])
        for which in ("before", "after"):
            w[which] = {}
            for n in names:
                b = x[which].get(n)
                if b is None: w[which][n] = 0; continue
                a = x["facts"].get((which, n))
                w[which][n] = ident(a["canon"] if a and a["canon"] else "bytes " + hashlib.sha1(b).hexdigest())
        # nothing to write to a full device is no fault
        if ops and val and any(val.get(o) == "full.obj" and w["made"][o] and ((f["made"][o] if cmd == "boolean" else f["made"])[".obj"] or "").endswith("vf") for o in OUTPUTS[cmd]): continue
        w["status"] = x["status"] if x["status"] >= 0 else 1000 - x["status"]; w["message"] = bool(x["err"].strip())
        e["w"] = w; evs.append((x, e))
    return evs
