"""Findings, evidence files and the check driver."""

from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback
from dataclasses import dataclass, field
from pathlib import Path

from .project import AnalysisBroken, Project

VERIF = Path(__file__).resolve().parent.parent
KNOWN = VERIF / "known_findings.txt"


@dataclass
class Finding:
    rule: str
    construct: str  # function / class / key: no line numbers
    message: str
    where: str = ""
    path: list = field(default_factory=list)

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


@dataclass
class Result:
    prop: str
    explanation: str = ""
    findings: list = field(default_factory=list)
    coverage: dict = field(default_factory=dict)
    samples: list = field(default_factory=list)
    undecided: list = field(default_factory=list)
    assumptions: list = field(default_factory=list)

    def add(self, rule, construct, message, where="", path=()):
        f = Finding(rule, construct, message, where, list(path))
        if f.key not in {x.key for x in self.findings}:
            self.findings.append(f)

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def require(self, cond, msg):
        """An anchor of the analysis; its absence is an error of the check."""
        if not cond:
            raise AnalysisBroken(msg)


@dataclass
class Ctx:
    proj: Project
    tier: str = "quick"

    @property
    def thorough(self):
        return self.tier == "thorough"


def load_known(prop: str) -> dict[str, str]:
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if line.startswith("known: "):
                body = line[len("known: "):]
                head, _, desc = body.partition(" :: ")
                fields = dict(x.split("=", 1) for x in head.split(" ", 1)) if "key=" in head else {}
                if fields.get("property") == prop:
                    out[fields["key"].strip()] = desc.strip()
    return out


def main(argv=None) -> int:
    argv = list(sys.argv[1:] if argv is None else argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        del argv[i : i + 2]
    prop = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(20000)
    t0 = time.time()
    mod = importlib.import_module(f"kpstatic.rules.{prop.lower()}")
    try:
        proj = Project()
        ctx = Ctx(proj, tier)
        res: Result = mod.run(ctx)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={prop}: internal error")
        return 3
    wall = time.time() - t0
    known = load_known(prop)
    ev_dir = VERIF / "evidence"
    ev_dir.mkdir(exist_ok=True)
    new = [f for f in res.findings if f.key not in known]
    old = [f for f in res.findings if f.key in known]
    cov = {"explanation": res.explanation, **res.coverage}
    cov["modules_parsed"] = len(proj.modules)
    cov["source_digest"] = proj.digest[:16]
    cov["samples"] = res.samples[:12]
    if res.undecided:
        cov["undecided"] = len(res.undecided)
        cov["undecided_samples"] = res.undecided[:8]
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": res.assumptions,
        "wall_s": round(wall, 3),
        "violations": len(new),
    }
    (ev_dir / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    print(f"{prop} [{tier}] analysed: " + ", ".join(
        f"{k}={v}" for k, v in res.coverage.items() if isinstance(v, (int, float))))
    for f in old:
        print(f"KNOWN-FINDING: property={prop} {f.key}: {known[f.key]}")
    if new:
        rp = ev_dir / f"replay_{prop}.json"
        rp.write_text(json.dumps([f.__dict__ | {"key": f.key} for f in new], indent=1, default=str) + "\n")
        for f in new:
            print(f"  {f.where}: [{f.rule}] {f.construct}: {f.message}")
            if f.path:
                print("      via " + " -> ".join(f.path))
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"{prop}: held on everything analysed ({wall:.1f} s)")
    return 0
