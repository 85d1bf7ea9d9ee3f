"""Driver execution and trace validation."""
import json, os
import core

class Runner:
    """scenarios -> driver -> ndjson trace -> TLC against a trace specification; rejected scenarios are re-run to confirm."""
    hide = ()
    def __init__(self, chk, exe, tla, cfg, retries=2, env=None, args=None):
        self.c = chk; self.exe = exe; self.tla = tla; self.cfg = cfg; self.retries = retries; self.env = env
        self.args = args; self.n = 0
    def once(self, lines, tag, timeout, args=None):
        s, o = self.c.path(tag + ".script"), self.c.path(tag + ".ndjson")
        with open(s, "w") as f: f.write("\n".join(lines) + "\n")
        if os.path.exists(o): os.unlink(o)
        rc, _, err = self.c.run([self.exe, s, o] + (args or self.args or [str(self.c.seed)]), timeout=timeout, env=self.env)
        if rc == 3: raise core.CheckError("driver error: " + err[-500:])
        if rc == 4: raise core.CheckError("the controlled scheduler cannot control this code: " + err[-200:])
        return s, o, rc, err
    def judge(self, s, o, rc, err):
        """None if accepted, else (description, world name or None)"""
        if rc == 66:     # races seen by the detector become events of the trace; the specification has no such step
            what = [l for l in err.splitlines() if l.startswith("SUMMARY")][:3]
            with open(o, "a") as f: f.write(json.dumps({"ev": "race", "what": what}) + "\n")
            with open(o + ".tsan", "w") as f: f.write(err[:20000])
            rc = 0
        if rc != 0:
            name = None
            try:
                for l in open(o):
                    if l.startswith('{"ev":"world"') or '"ev":"world"' in l[:200]: name = json.loads(l)["name"]
            except (OSError, ValueError): pass
            return ("the driver %s: %s" % ("did not finish (hang)" if rc == "timeout" else "crashed with status %s" % rc, (err or "")[-300:]), name)
        rej = self.c.trace(self.tla, self.cfg, o)
        if rej is None: return None
        name = None; ev = "?"
        for i, l in enumerate(open(o), 1):
            e = json.loads(l)
            if e["ev"] == "world": name = e["name"]
            if i == rej:
                ev = {k: v for k, v in e.items() if k not in self.hide}; break
        return ("trace rejected at line %d, world %s: %s" % (rej, name, json.dumps(ev)), name)
    def run(self, scenarios, timeout=None, chunks=None):
        """scenarios: list of (name, lines)."""
        if not scenarios: return
        timeout = timeout or self.c.pick(150, 600)
        n = max(1, min(chunks or core.NCPU, len(scenarios)))
        parts = [scenarios[i::n] for i in range(n)]
        self.n += 1; tag0 = "b%d" % self.n
        def job(i):
            lines = [l for _, ls in parts[i] for l in ls]
            tag = "%s.%d" % (tag0, i)
            s, o, rc, err = self.once(lines, tag, timeout)
            j = self.judge(s, o, rc, err)
            events = {}
            try:
                for l in open(o):
                    k = l[7:l.index('"', 7)] if l.startswith('{"ev":"') else "?"
                    events[k] = events.get(k, 0) + 1
            except (OSError, ValueError): pass
            if j is None:
                os.unlink(o); os.unlink(s)
            return i, j, events
        for i, j, events in self.c.pmap(job, range(n)):
            for k, v in events.items(): self.c.cov.setdefault("events", {}); self.c.cov["events"][k] = self.c.cov["events"].get(k, 0) + v
            if j is None: self.c.traces += len(parts[i]); continue
            if self.c.violation: continue
            self.confirm(j, parts[i], "%s.%d" % (tag0, i), timeout)
    def confirm(self, j, part, tag, timeout):
        what, name = j
        single = [ls for nm, ls in part if nm == name]
        cands = ([single[0]] if single else []) + [[l for _, ls in part for l in ls]]
        for n, lines in enumerate(cands):
            for a in range(self.retries):
                s, o, rc, err = self.once(lines, tag + ".re%d" % a, timeout if n else min(timeout, 60))
                j2 = self.judge(s, o, rc, err)
                if j2 is not None:
                    self.c.violate(j2[0], [s, o, self.cfg, o + ".tsan"], key=None)
                    return
        self.c.log("note: a rejection was not repeated: " + what)
        self.c.count("unrepeated_rejections")
