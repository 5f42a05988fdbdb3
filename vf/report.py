"""Known findings, expected refusals, VIOLATION lines and evidence files."""
import fnmatch
import json
import os
import re
import sys
import time

from . import env
from .tv import digest

KF = os.path.join(env.VERIF, "known_findings.jsonl")
EXPECT = os.path.join(env.VERIF, "expected")


def load_known(prop):
    out = []
    if os.path.exists(KF):
        with open(KF) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    d = json.loads(line)
                    if d.get("property") == prop and "fixed" not in d:
                        out.append(d)
    return out


def load_refused(prop):
    p = os.path.join(EXPECT, prop + ".refused.txt")
    if not os.path.exists(p):
        return set()
    with open(p) as f:
        return {l.rstrip("\n") for l in f if l.strip() and not l.startswith("#")}


def jsonable(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return {"dtype": str(x.dtype), "shape": list(x.shape), "data": [jsonable(v) for v in x.reshape(-1).tolist()]}
    if isinstance(x, (np.generic,)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, bytes):
        return x.decode("latin1")
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


class Report:
    """collects outcomes of one property's check and turns them into the exit status"""

    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.viol = []        # (key, detail, inputs)
        self.stats = {}
        self.families = {}
        self.counts = {}
        self.incon = []
        self.functions = set()
        self.bounds = []
        self.assumptions = []
        self.samples = []
        self.witness = []
        self.replays = 0
        self.xval = 0
        self.elems = 0
        self.programs = 0
        self.slow = []
        self.refused = []

    def add_stats(self, st):
        for k, v in st.items():
            self.stats[k] = self.stats.get(k, 0) + v

    def add(self, outs, st, family=None):
        self.add_stats(st)
        refused = load_refused(self.prop)
        for o in outs:
            self.programs += 1
            self.elems += o.elems
            self.xval += o.xval
            fam = family or o.key.split("|")[0]
            f = self.families.setdefault(fam, {})
            f[o.status] = f.get(o.status, 0) + 1
            self.counts[o.status] = self.counts.get(o.status, 0) + 1
            self.slow.append((o.wall, o.key))
            if o.status in ("diff", "error"):
                self.viol.append((o.key, "%s: %s" % (o.status, o.detail), o.inputs))
                self.replays += 1
            elif o.status == "refused":
                self.refused.append((o.key, o.detail))
                if o.key not in refused:
                    self.viol.append((o.key, "conversion refused: " + o.detail, o.inputs))
            elif o.status in ("crash", "unknown", "spurious", "unsupported", "vacuous"):
                self.incon.append((o.key, o.status, o.detail))
            elif o.status == "ok" and len(self.samples) < 6 and o.elems:
                self.samples.append({"program": o.key, "paths": o.paths, "elements_proved_equal": o.elems})

    def violation(self, key, detail, inputs=None):
        self.viol.append((key, detail, inputs))

    def finish(self, explanation, extra=None):
        wall = time.time() - self.t0
        known = load_known(self.prop)
        kf_hit = {}
        new = []
        for key, detail, inp in self.viol:
            for d in known:
                if key in d.get("programs", ()) or (d.get("match") and re.fullmatch(d["match"], key)):
                    kf_hit.setdefault(d["id"], []).append(key)
                    break
            else:
                new.append((key, detail, inp))
        for d in known:
            n = len(kf_hit.get(d["id"], []))
            if n:
                print("KNOWN-FINDING: property=%s %s (%d listed programs)" % (self.prop, d["what"], n))
        if os.environ.get("VF_DUMP"):
            with open(os.environ["VF_DUMP"], "w") as f:
                for key, detail, _ in new:
                    f.write("%s\t%s\n" % (key, str(detail).replace("\n", " ")[-300:]))
                for w, k in sorted(self.slow, reverse=True)[:60]:
                    f.write("#slow %.2f %s\n" % (w, k))
                fams = {}
                for w, k in self.slow:
                    a = fams.setdefault(k.split("|")[0], [0, 0.0])
                    a[0], a[1] = a[0] + 1, a[1] + w
                for k, a in sorted(fams.items(), key=lambda x: -x[1][1])[:40]:
                    f.write("#fam %s n=%d cpu=%.1f\n" % (k, a[0], a[1]))
                for k, st, d in self.incon:
                    f.write("#incon %s %s %s\n" % (k, st, str(d).replace("\n", " ")[-300:]))
        rdir = os.path.join(env.VERIF, "evidence", "replay", self.prop)
        os.makedirs(rdir, exist_ok=True)
        for old in os.listdir(rdir):
            os.unlink(os.path.join(rdir, old))
        paths = []
        for key, detail, inp in new[:200]:
            p = os.path.join(rdir, digest(key) + ".json")
            with open(p, "w") as f:
                json.dump({"property": self.prop, "program": key, "detail": detail, "inputs": jsonable(inp),
                           "replay": "/opt/venv/bin/python /verif/vf/run.py %s replay '%s'" % (self.prop, key)}, f, indent=1)
            paths.append(p)
        cov = self.coverage(explanation, new, kf_hit, known)
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": env.SEED, "level": self.level, "coverage": cov,
              "wall_s": round(wall, 2)}
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(jsonable(ev), f, indent=1)
        print("%s %s: %d programs, %s, %d paths, %d queries, solver %.1fs, wall %.1fs" % (
            self.prop, self.tier, self.programs, self.counts, self.stats.get("paths", 0),
            self.stats.get("queries", 0), self.stats.get("solver_s", 0), wall))
        for key, st, d in self.incon[:20]:
            print("INCONCLUSIVE %s [%s] %s" % (st, key, str(d)[-300:]))
        for (key, detail, inp), p in list(zip(new, paths))[:25]:
            print("  %s -- %s" % (key, str(detail)[:400]))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, paths[0]))
            return 1
        return 0

    def coverage(self, explanation, new, kf_hit, known):
        cov = {
            "explanation": explanation,
            "programs": self.programs,
            "disagreements_checked": self.replays,
            "samples": self.samples or [{"program": "none"}],
            "outcomes": self.counts,
            "families": self.families,
            "paths_explored": self.stats.get("paths", 0),
            "queries_discharged": self.stats.get("queries", 0),
            "solver_s": round(self.stats.get("solver_s", 0), 2),
            "solver_unknown": self.stats.get("unknown", 0),
            "output_elements_proved_equal": self.elems,
            "evaluator_cross_validations": self.xval,
            "functions_encoded": sorted(self.functions),
            "bounds": self.bounds,
            "assumptions": self.assumptions,
            "inconclusive": [list(map(str, x))[:3] for x in self.incon[:50]],
            "known_findings_hit": {k: len(v) for k, v in kf_hit.items()},
            "violations": [[k, str(d)[:300]] for k, d, _ in new[:50]],
        }
        if self.level == "model_checking":
            cov["states"] = self.stats.get("paths", 0)
            cov["transitions"] = self.stats.get("queries", 0)
            cov["traces_validated_against_impl"] = self.stats.get("paths", 0)
        return cov
