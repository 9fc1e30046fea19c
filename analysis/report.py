"""Obligations of a check, and how they are reported."""
import json
import os
import pickle
import re
import sys
import time
import traceback
from .facts import VERIF
from .absint import Undecided

KNOWN = os.path.join(VERIF, "known-findings.txt")


class AnchorMissing(Exception):
    pass


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"^known: property=(\S+) key=(\S+) (.*)$", l.rstrip("\n"))
            if m:
                out.append(m.groups())
    return out


class Recorder:
    """Stands in for a report in a worker process."""

    def __init__(self):
        self.calls, self.fns, self.counts = [], set(), {}

    def ok(self, rid, site, detail=""):
        self.calls.append(("ok", (rid, str(site), str(detail)[:400])))

    def violation(self, rid, site, detail, key=None):
        self.calls.append(("violation", (rid, str(site), detail, key)))

    def undecided(self, rid, site, why):
        self.calls.append(("undecided", (rid, str(site), str(why)[:300])))

    def check(self, rid, site, cond, detail, key=None):
        self.calls.append(("check", (rid, str(site), None if cond is None else bool(cond), str(detail), key)))
        return cond

    def add(self, name, n):
        self.counts[name] = self.counts.get(name, 0) + n


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.ok_n = {}
        self.bad = []
        self.und = []
        self.fns = set()
        self.samples = []
        self.notes = []
        self.counts = {}
        self.rules = {}
        self.sites = set()

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rid, site, detail=""):
        self.ok_n[rid] = self.ok_n.get(rid, 0) + 1
        self.sites.add(site)
        if len([s for s in self.samples if s["rule"] == rid]) < 2:
            self.samples.append({"rule": rid, "site": str(site), "detail": str(detail)[:400]})

    def violation(self, rid, site, detail, key=None):
        self.sites.add(site)
        k = key or rid
        k = re.sub(r"[\s]+", "_", k)
        if not any(b["key"] == k and b["detail"] == detail for b in self.bad):
            self.bad.append({"rule": rid, "site": str(site), "detail": detail, "key": k})

    def undecided(self, rid, site, why):
        d = {"rule": rid, "site": str(site), "why": str(why)[:300]}
        if d not in self.und:
            self.und.append(d)

    def check(self, rid, site, cond, detail, key=None):
        """cond: True holds, False broken, None undecided"""
        if cond is None:
            self.undecided(rid, site, detail)
        elif cond:
            self.ok(rid, site, detail)
        else:
            self.violation(rid, site, detail, key)
        return cond

    def fork(self, items, fn, jobs=8, per=20):
        """fn(report, item) for each item, in several processes; results are merged in the order of the items."""
        items = list(items)
        jobs = min(jobs, max(1, len(items) // per))
        if jobs == 1:
            for x in items:
                fn(self, x)
            return
        pipes = []
        sys.stdout.flush()
        for j in range(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    res = []
                    for i in range(j, len(items), jobs):
                        p = Recorder()
                        try:
                            fn(p, items[i])
                            res.append((i, p.calls, sorted(p.fns), p.counts, None))
                        except AnchorMissing as e:
                            res.append((i, [], [], {}, ("anchor", str(e))))
                        except Undecided as e:
                            res.append((i, [], [], {}, ("undecided", str(e))))
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(res, f)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(1)
            os.close(w)
            pipes.append((pid, r))
        got = []
        dead = False
        for pid, r in pipes:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            if os.waitpid(pid, 0)[1]:
                dead = True
            else:
                got += pickle.loads(data)
        if dead:
            raise RuntimeError("an analysis process failed")
        for i, calls, fns, counts, err in sorted(got, key=lambda x: x[0]):
            for name, a in calls:
                getattr(self, name)(*a)
            self.fns |= set(fns)
            for k, n in counts.items():
                self.counts[k] = self.counts.get(k, 0) + n
            if err:
                raise (AnchorMissing if err[0] == "anchor" else Undecided)(err[1])

    def add(self, name, n):
        self.counts[name] = self.counts.get(name, 0) + n

    def count(self, name, n):
        self.counts[name] = n

    def floor(self, rid, n):
        """The rule must have had at least n instances (decided or not)."""
        have = self.ok_n.get(rid, 0) + sum(1 for b in self.bad if b["rule"] == rid) + \
            sum(1 for u in self.und if u["rule"] == rid)
        if have < n and not self.und:
            raise AnchorMissing("rule %s matched %d sites, expected at least %d" % (rid, have, n))

    def finish(self, tier, seed):
        known = [(p, k, d) for p, k, d in load_known() if p == self.pid]
        hit, viol = [], []
        for b in self.bad:
            m = next((x for x in known if x[1] == b["key"]), None)
            if m:
                if m not in hit:
                    hit.append(m)
            else:
                viol.append(b)
        for p, k, d in hit:
            print("KNOWN-FINDING: property=%s %s" % (p, d))
        decided = sum(self.ok_n.values())
        ev = {
            "property": self.pid, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": "Static: rules applied to every matching site of the compiler's MIR of the "
                               "current tree; `obligations` counts the (rule, path/site) pairs generated on this "
                               "run, `discharged` those decided to hold.",
                "obligations": decided + len(self.bad) + len(self.und),
                "discharged": decided,
                "undecided": len(self.und),
                "undecided_list": self.und[:40],
                "known_findings": len(hit),
                "functions_analysed": len(self.fns),
                "functions": sorted(self.fns)[:200],
                "distinct_sites": len(self.sites),
                "per_rule": {r: {"rule": self.rules.get(r, ""), "held": self.ok_n.get(r, 0),
                                 "broken": sum(1 for b in self.bad if b["rule"] == r),
                                 "undecided": sum(1 for u in self.und if u["rule"] == r)}
                             for r in sorted(set(self.rules) | set(self.ok_n) | {b["rule"] for b in self.bad})},
                "samples": self.samples[:12],
            },
            "assumptions": self.notes + [
                "library functions behave as modelled in analysis/models.py; an unmodelled one makes the obligation "
                "undecided", "unwinding edges and arithmetic overflow are outside the analysed flow"],
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        ev["coverage"].update(self.counts)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for u in self.und[:10]:
            print("UNDECIDED property=%s rule=%s at %s: %s" % (self.pid, u["rule"], u["site"], u["why"]))
        if viol:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.pid + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "violations": viol}, f, indent=1)
            for b in viol[:20]:
                print("  rule %s (%s)\n    at %s: %s\n    key=%s" %
                      (b["rule"], self.rules.get(b["rule"], ""), b["site"], b["detail"], b["key"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s obligations=%d discharged=%d undecided=%d known=%d functions=%d (%.1f s)" %
              (self.pid, ev["coverage"]["obligations"], decided, len(self.und), len(hit), len(self.fns),
               time.time() - self.t0))
        return 0
