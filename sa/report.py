"""Obligations, violations, known findings and evidence of one check."""
import json
import os
import time

from .terms import brief

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("IBCX_EVID") or os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known-findings.json")


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.viol = {}
        self.rules = {}
        self.notes = []
        self.contracts = {}
        self.seen = set()

    # -------------------------------------------------------- analysis
    def contract(self, crate):
        from .contract import Contract

        c = self.contracts.get(crate)
        if c is None:
            c = self.contracts[crate] = Contract(crate)
        return c

    def entry(self, crate, name):
        e = self.contract(crate).run(name)
        if e is None:
            self.fail("missing-entry", "%s::%s" % (crate, name), "the function %s::%s is not in the program" % (crate, name))
        return e

    # ------------------------------------------------------ obligations
    def ob(self, rule, where, cond, msg="", trace=None, site=None):
        """One obligation: `rule` must hold at `where` (an entry, a message
        variant, a function)."""
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if cond:
            r[1] += 1
            return True
        self.fail(rule, where, msg, trace, site)
        return False

    def fail(self, rule, where, msg, trace=None, site=None):
        self.rules.setdefault(rule, [1, 0])
        key = "%s|%s" % (rule, where)
        if key in self.viol:
            self.viol[key]["count"] += 1
            return
        v = {"key": key, "rule": rule, "where": where, "what": msg, "count": 1}
        if site:
            v["site"] = site
        if trace is not None:
            v["guards"] = [("" if p else "not ") + brief(c, 300) for c, p in trace.lits][:60]
            v["effects"] = [brief(x, 600) for x in trace.eff][:20]
            v["returns"] = brief(trace.ret, 1200)
        self.viol[key] = v

    def floor(self, rule, where, n, least):
        """Vacuity guard: at least `least` instances were analysed."""
        return self.ob(rule, where, n >= least, "found %d instance(s), expected at least %d: the rule would hold vacuously" % (n, least))

    # ----------------------------------------------------------- report
    def finish(self, tier, seed):
        kmap = load_known(self.pid)
        bad = [v for k, v in self.viol.items() if k not in kmap]
        hit = [kmap[k] for k in self.viol if k in kmap]
        os.makedirs(EVID, exist_ok=True)
        an = {str(f) for c in self.contracts.values() for f in c.analysed}
        obl = sum(r[0] for r in self.rules.values())
        cov = {
            "explanation": "Static analysis of the compiler's MIR of the current /repo tree (no execution): every entry point in scope is "
            "abstractly interpreted over symbolic messages, environment and storage; each loop is summarised element-wise; "
            "the rules below are then decided on every trace (guards, storage writes, messages, response).",
            "obligations": obl,
            "obligations_discharged": sum(r[1] for r in self.rules.values()),
            "rules": {k: {"obligations": r[0], "discharged": r[1]} for k, r in sorted(self.rules.items())},
            "entries": sorted({e.name + " (%d traces)" % len(e.traces) for c in self.contracts.values() for e in c._e.values() if e}),
            "functions_analysed": len(an),
            "repo_functions": sorted(f for f in an if f.split("::")[0].lstrip("<").startswith("ibcx"))[:400],
            "traces": sum(c.traces for c in self.contracts.values()),
            "calls_interpreted": sum(c.calls for c in self.contracts.values()),
            "loops_summarised": sum(c.loops for c in self.contracts.values()),
            "opaque_callees": {k: v for c in self.contracts.values() for k, v in sorted(c.opaque.items())},
            "notes": self.notes,
            "known_findings": [k["key"] for k in hit],
            "violation_list": [v["key"] + ": " + v["what"] for v in bad],
        }
        ev = {
            "property": self.pid,
            "tier": tier,
            "seed": seed,
            "level": "other",
            "coverage": cov,
            "wall_s": round(time.time() - self.t0, 3),
            "assumptions": ASSUMPTIONS,
            "violations": len(bad),
        }
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        rp = os.path.join(EVID, self.pid + ".replay.json")
        if os.path.exists(rp):
            os.unlink(rp)
        for k in hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if not bad:
            print("OK property=%s obligations=%d traces=%d functions=%d wall=%.1fs" % (self.pid, obl, cov["traces"], len(an), ev["wall_s"]))
            return 0
        with open(rp, "w") as f:
            json.dump(bad, f, indent=1)
            f.write("\n")
        for v in bad[:20]:
            print("  [%s] %s: %s%s" % (v["rule"], v["where"], v["what"], (" at " + v["site"]) if v.get("site") else ""))
        print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1


def load_known(pid):
    try:
        with open(KNOWN) as f:
            return {k["key"]: k for k in json.load(f)["findings"] if k["property"] == pid and k.get("status") == "open"}
    except FileNotFoundError:
        return {}


ASSUMPTIONS = [
    "rustc's MIR (nightly, overflow checks on) is the program's meaning; the wasm build is compiled from the same source",
    "library models (cosmwasm-std, cw-storage-plus, cw2, cw-utils, osmosis-std, core/alloc iterators and collections) match the pinned versions",
    "the host reverts all state and messages when an entry point returns an error or panics, and executes messages in order",
    "Addr values in info/env are valid addresses; the bank module never passes duplicate denoms in info.funds",
]
