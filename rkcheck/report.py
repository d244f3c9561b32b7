"""Obligations, verdicts, evidence files and known findings."""
from __future__ import annotations
import json, os, time, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.items = []
        self.analysed = {"files": set(), "functions": set(), "calls": 0, "stmts": 0, "branches": 0, "loops": 0}
        self.rules = {}
        self.assumptions = []
        self.notes = []
        self.seen = set()

    # ------------------------------------------------------------------ obligations
    def rule(self, name, text):
        self.rules[name] = text

    def add(self, status, rule, construct, detail="", site=""):
        k = (status, rule, construct, detail, site)
        if k in self.seen:
            return
        self.seen.add(k)
        self.items.append(dict(status=status, rule=rule, construct=construct, detail=str(detail)[:4000], site=site))

    def ok(self, rule, construct, detail="", site=""):
        self.add("ok", rule, construct, detail, site)

    def viol(self, rule, construct, detail="", site=""):
        self.add("violation", rule, construct, detail, site)

    def unk(self, rule, construct, detail="", site=""):
        self.add("undecided", rule, construct, detail, site)

    def verdict(self, v, rule, construct, detail="", site=""):
        """v: True holds, False broken, None undecided"""
        self.add({True: "ok", False: "violation", None: "undecided"}[v], rule, construct, "" if v is True else detail, site)

    def absorb(self, I):
        """statistics of one interpreter"""
        s = I.stats
        self.analysed["files"] |= {str(x) for x in s["files"]}
        self.analysed["functions"] |= {str(x) for x in s["functions"]}
        for k in ("calls", "stmts", "branches", "loops"):
            self.analysed[k] += s[k]
        if "precision" in self.rules:
            for site, n in sorted(s["narrow"]):
                self.viol("precision", "%s at %s" % (n, site.split(":")[0]), "a value is held as %s: results and intermediate values are double precision" % n, site)

    # ------------------------------------------------------------------ output
    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3)
        return out

    def finish(self, error=None):
        known = self.known()
        viol, found = [], []
        for it in self.items:
            if it["status"] == "violation":
                key = (it["rule"] + "@" + it["construct"]).replace(" ", "_")
                if key in known:
                    found.append((key, known[key]))
                    it["status"] = "known-finding"
                else:
                    viol.append(it)
        unk = [it for it in self.items if it["status"] == "undecided"]
        okn = sum(it["status"] == "ok" for it in self.items)
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        replays = []
        rdir = os.path.join(edir, "replay")
        if os.path.isdir(rdir):
            for f in os.listdir(rdir):
                if f.startswith(self.pid + "-"):
                    os.unlink(os.path.join(rdir, f))
        for k, it in enumerate(viol):
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, "%s-%d.txt" % (self.pid, k + 1))
            with open(p, "w") as fh:
                fh.write("property: %s\nrule: %s\n  %s\nconstruct: %s\nat: %s\n\n%s\n" % (
                    self.pid, it["rule"], self.rules.get(it["rule"], ""), it["construct"], it["site"], it["detail"]))
            replays.append(p)
        by = {}
        for it in self.items:
            d = by.setdefault(it["rule"], {"text": self.rules.get(it["rule"], ""), "ok": 0, "violation": 0, "undecided": 0, "known-finding": 0})
            d[it["status"]] += 1
        expl = ("Abstract interpretation of the current source under /repo/rkstiff; nothing of it is imported or run. "
                "%d obligations under %d rules; %d discharged, %d violated, %d undecided." % (len(self.items), len(by), okn, len(viol), len(unk)))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": expl,
                "obligations": len(self.items), "discharged": okn, "undecided": len(unk), "known_findings": len(found),
                "rules": by,
                "analysed_functions": sorted(self.analysed["functions"]), "analysed_files": sorted(self.analysed["files"]),
                "call_evaluations": self.analysed["calls"], "statement_evaluations": self.analysed["stmts"],
                "joins": self.analysed["branches"], "loops": self.analysed["loops"],
                "constructs": [dict(rule=i["rule"], construct=i["construct"], status=i["status"], site=i["site"], **({"detail": i["detail"][:600]} if i["detail"] else {})) for i in self.items][:600],
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        if error:
            ev["coverage"]["error"] = error
        with open(os.path.join(edir, self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write("\n")
        print("%s: %s" % (self.pid, expl))
        for r, d in sorted(by.items()):
            print("  rule %-28s ok=%d violated=%d undecided=%d" % (r, d["ok"], d["violation"], d["undecided"]))
        for it in viol:
            print("  VIOLATED %s: %s at %s: %s" % (it["rule"], it["construct"], it["site"], it["detail"][:400]))
        for it in unk:
            print("  UNDECIDED %s: %s at %s: %s" % (it["rule"], it["construct"], it["site"], it["detail"][:400]))
        for key, txt in dict(found).items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, txt))
        if error:
            print("ERROR: " + error)
        for p in replays:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        if viol:
            return 1
        if error or unk or not okn:
            return 2
        return 0


def pmap(R, fn, items, procs=None):
    """fn(R, item) for every item, in forked processes; obligations come back in the order of the items"""
    import pickle, traceback
    items = list(items)
    procs = procs or min(os.cpu_count() or 1, 8, len(items))
    if procs <= 1:
        for it in items:
            fn(R, it)
        return
    running = {}
    results = {}
    todo = list(enumerate(items))

    def start(k, it):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                C = Report(R.pid, R.tier, R.seed)
                C.root = R.root
                try:
                    fn(C, it)
                except BaseException as e:
                    C.crash = (type(e).__name__ + ": " + str(e)[:2000], traceback.format_exc()[-4000:])
                data = pickle.dumps((C.items, C.analysed, C.rules, C.assumptions, C.notes, getattr(C, "crash", None)))
                with os.fdopen(w, "wb") as fh:
                    fh.write(data)
            except BaseException:
                code = 1
            os._exit(code)
        os.close(w)
        running[r] = (k, pid, [])

    import select
    while todo or running:
        while todo and len(running) < procs:
            start(*todo.pop(0))
        rd, _, _ = select.select(list(running), [], [])
        for r in rd:
            b = os.read(r, 1 << 20)
            if b:
                running[r][2].append(b)
                continue
            k, pid, buf = running.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                results[k] = pickle.loads(b"".join(buf))
            except Exception:
                results[k] = ([], None, {}, [], [], ("worker ended without a result for %r" % (items[k],), ""))
    crash = None
    for k in range(len(items)):
        its, an, rules, ass, notes, cr = results[k]
        for it in its:
            R.add(it["status"], it["rule"], it["construct"], it["detail"], it["site"])
        if an:
            for f in ("files", "functions"):
                R.analysed[f] |= an[f]
            for f in ("calls", "stmts", "branches", "loops"):
                R.analysed[f] += an[f]
        R.rules.update(rules)
        R.assumptions += [a for a in ass if a not in R.assumptions]
        R.notes += notes
        crash = crash or cr
    if crash:
        if os.environ.get("RKCHECK_DEBUG"):
            print(crash[1])
        raise RuntimeError(crash[0])
