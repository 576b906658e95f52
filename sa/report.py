"""Obligations, findings, evidence."""
import json
import os
import time

from .project import HERE

EVID = os.environ.get("SA_EVIDENCE", HERE + "/evidence")


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = []          # (status, key, where, msg)
        self.lostl = []
        self.functions = set()
        self.notes = []
        self.rules = []

    def ok(self, key, where="", msg=""):
        self.obl.append(("ok", key, where, msg))

    def viol(self, key, where, msg):
        self.obl.append(("viol", key, where, msg))

    def und(self, key, where="", msg=""):
        self.obl.append(("undecided", key, where, msg))

    def lost(self, what):
        self.lostl.append(what)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def result(self, cond, key, where, msg):
        (self.ok if cond else self.viol)(key, where, msg)

    def finish(self):
        known = json.load(open(HERE + "/known_findings.json"))
        kmap = {(k["property"], k["key"]): k for k in known if k["status"] == "known"}
        viols, knowns = [], []
        seen = set()
        for s, key, where, msg in self.obl:
            if s != "viol" or (key, where) in seen:
                continue
            seen.add((key, where))
            (knowns if (self.pid, key) in kmap else viols).append((key, where, msg))
        cnt = {}
        for s, *_ in self.obl:
            cnt[s] = cnt.get(s, 0) + 1
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": "static analysis of the current /repo sources; every obligation is an instance of the rules below at a "
                               "construct of the source, decided on value-numbered summaries extracted from clang's typed AST",
                "rules": self.rules,
                "obligations": len(self.obl), "discharged": cnt.get("ok", 0), "undecided": cnt.get("undecided", 0),
                "violated": cnt.get("viol", 0), "functions_analysed": len(self.functions),
                "functions": sorted(self.functions)[:400],
                "samples": [f"{k} @ {w}: {m}"[:300] for s, k, w, m in self.obl if s == "ok"][:25],
                "undecided_list": [f"{k} @ {w}: {m}"[:300] for s, k, w, m in self.obl if s == "undecided"][:60],
                "known_findings": [f"{k} @ {w}: {m}"[:400] for k, w, m in knowns],
                "notes": self.notes,
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": [f"{k} @ {w}: {m}"[:600] for k, w, m in viols],
            "assumptions": ["the declarations of external libraries are represented by their contracts (DESIGN.md)"],
        }
        with open(f"{EVID}/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for k, w, m in knowns:
            print(f"KNOWN-FINDING: property={self.pid} {k} @ {w}: {m}"[:500])
        print(f"{self.pid}: {len(self.obl)} obligations, {cnt.get('ok', 0)} discharged, {cnt.get('undecided', 0)} undecided, "
              f"{len(knowns)} known, {len(viols)} violations, {len(self.functions)} functions, {ev['wall_s']} s")
        if viols:
            rp = f"{EVID}/{self.pid}.violations.txt"
            with open(rp, "w") as f:
                for k, w, m in viols:
                    f.write(f"{k}\n  at {w}\n  {m}\n")
            for k, w, m in viols[:20]:
                print(f"  {k} @ {w}: {m}"[:900])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if self.lostl or not (cnt.get("ok") or cnt.get("undecided")):
            print("ANCHOR LOST: " + "; ".join(self.lostl) if self.lostl else "nothing was analysed")
            return 2
        return 0
