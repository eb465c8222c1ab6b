"""Findings, known findings, evidence and exit codes shared by every check."""
from __future__ import annotations

import json
import math
import os
import re
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Finding:
    """One violated obligation.

    key: rule + construct (never a line number); fp: optional behavioural fingerprint (list of numbers or a string) which
    distinguishes this violation from another one of the same construct.
    """

    def __init__(self, key, what, where="", rule="", fp=None, detail=None):
        self.key, self.what, self.where, self.rule, self.fp, self.detail = key, what, where, rule, fp, detail


def close(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if len(a) != len(b):
        return False
    return all(x == y or abs(x - y) <= 1e-5 * max(1.0, abs(x), abs(y)) for x, y in zip(a, b))


def load_known():
    """[(property, key, fp, note)] - lines `known: property=C01 key=<key> fp=<json> | note`"""
    out = []
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        m = re.match(r"known: property=(\S+) key=(\S+)(?: fp=(\[.*?\]|\S+))? \| (.*)$", line.strip())
        if m:
            fp = m.group(3)
            if fp is not None:
                try:
                    fp = json.loads(fp)
                except ValueError:
                    pass
            out.append((m.group(1), m.group(2), fp, m.group(4)))
    return out


class Check:
    def __init__(self, prop, level="other"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.findings = []
        self.obligations = self.discharged = 0
        self.undecided = []
        self.samples = []
        self.cover = {}
        self.assumptions = []
        self.rule = ""

    def ok(self, what=None, n=1):
        self.obligations += n
        self.discharged += n
        if what and len(self.samples) < 12:
            self.samples.append(what)

    def skip(self, what, why=""):
        self.obligations += 1
        self.undecided.append(f"{what}: {why}"[:400])

    def bad(self, key, what, where="", rule="", fp=None, detail=None):
        self.obligations += 1
        self.findings.append(Finding(key.replace(" ", "_"), what, where, rule or self.rule, fp, detail))

    def count(self, name, n=1):
        self.cover[name] = self.cover.get(name, 0) + n

    def finish(self):
        known = [k for k in load_known() if k[0] == self.prop]
        shown, viol, seen = [], [], set()
        for f in self.findings:
            k = next((k for k in known if k[1] == f.key and (k[2] is None or close(k[2], f.fp))), None)
            if k is not None:
                if id(k) not in seen:
                    seen.add(id(k))
                    shown.append((f, k))
            else:
                viol.append(f)
        for f, k in shown:
            print(f"KNOWN-FINDING: property={self.prop} {f.key} {k[3]}")
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
        seenk = {}
        for f in viol:
            n = seenk.setdefault(f.key, 0)
            seenk[f.key] += 1
            p = os.path.join(ev, "replay", re.sub(r"[^A-Za-z0-9_.-]+", "_", f"{self.prop}-{f.key}")[:150] + (f"-{n}" if n else "") + ".json")
            with open(p, "w") as o:
                json.dump({"property": self.prop, "key": f.key, "rule": f.rule, "where": f.where, "what": f.what, "fp": f.fp, "detail": f.detail,
                           "reproduce": f"python3 /verif/check.py {self.prop}"}, o, indent=1, default=str)
            print(f"{f.where or '?'}: {f.what}"[:1000])
            print(f"VIOLATION property={self.prop} replay={p}")
        cov = {"explanation": self.rule or "", "obligations": self.obligations, "discharged": self.discharged, "undecided": len(self.undecided),
               "undecided_items": self.undecided[:80], "known_findings": len(shown), "violated": len(viol), "samples": self.samples}
        cov.update(self.cover)
        with open(os.path.join(ev, self.prop + ".json"), "w") as o:
            json.dump({"property": self.prop, "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
                       "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level, "coverage": cov, "assumptions": self.assumptions,
                       "wall_s": round(time.time() - self.t0, 3), "violations": len(viol)}, o, indent=1, default=str)
        print(f"{self.prop}: {self.obligations} obligations, {self.discharged} discharged, {len(self.undecided)} undecided, {len(shown)} known findings, "
              f"{len(viol)} violations ({time.time() - self.t0:.1f}s)")
        return 1 if viol else 0
