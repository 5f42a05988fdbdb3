"""Kernel tier: plain Python functions of the converter are executed on symbolic integers and booleans (every feasible path), the property is
an assertion the solver decides on each path for all remaining values; a counterexample is run again on plain Python values."""
import traceback

import z3

from . import eng, terms as T, tv

PREFIX = "/repo/"


class KJob:
    def __init__(self, key, fn):
        self.key, self.fn = key, fn


class Found(Exception):
    pass


class Enough(Exception):
    pass


class K:
    """source of inputs: symbolic while exploring, given values when a counterexample is run again"""

    def __init__(self, values=None):
        self.values, self.vars, self.bad, self.checks, self.notes = values, {}, None, 0, []

    def int(self, name, lo, hi):
        if self.values is not None:
            return self.values.get(name, lo)
        v = eng.sym_int(name, lo, hi)
        self.vars[name] = v.e
        return v

    def bool(self, name):
        if self.values is not None:
            return bool(self.values.get(name, False))
        v = eng.sym_bool(name)
        self.vars[name] = v.e
        return v

    def pick(self, name, options):
        """one of the options, case-split"""
        return options[int(self.int(name, 0, len(options) - 1))]

    def model(self, m):
        out = {}
        for n, e in self.vars.items():
            v = m.eval(e, model_completion=True)
            out[n] = z3.is_true(v) if z3.is_bool(v) else v.as_long()
        return out

    def check(self, cond, what):
        self.checks += 1
        if isinstance(cond, (eng.SymBool, eng.SymInt)):
            cond = cond.e
        if not T.is_sym(cond):
            if cond:
                return
            cond = z3.BoolVal(False)
        if self.values is not None:
            self.bad = self.bad or what
            return
        ex = eng.Explorer.cur
        ex.solver.push()
        ex.solver.add(z3.Not(cond))
        r = eng.check(ex.solver)
        if r == z3.sat:
            vals = self.model(ex.solver.model())
            ex.solver.pop()
            raise Found(what, vals)
        ex.solver.pop()
        if r == z3.unknown:
            self.notes.append("solver unknown: " + what)


def implies(a, b):
    a, b = eng._e(a), eng._e(b)
    return eng.wrapb(T.bor(T.bnot(a), b))


def run_job(job):
    out = tv.Outcome(job.key)
    state = {"k": None}

    def fail(what, vals):
        k = K(values=vals)
        try:
            job.fn(k)
            why = k.bad
        except tv.JobTimeout:
            raise
        except Exception as e:  # noqa
            why = "raises %s: %s" % (type(e).__name__, str(e)[:200])
        if why:
            out.fail("diff", "%s (with %s)" % (why, vals), {n: v for n, v in vals.items()})
        else:
            out.fail("spurious", "%s with %s does not repeat" % (what, vals))

    def fn():
        if out.status == "diff":
            raise Enough()
        k = state["k"] = K()
        try:
            job.fn(k)
        except Found as f:
            fail(*f.args)
        except (eng.PathDropped, eng.Budget, tv.JobTimeout):
            raise
        except T.Unsupported as e:
            out.fail("unsupported", str(e))
        except Exception as e:  # noqa  the code under test failed on this path
            ex = eng.Explorer.cur
            if eng.check(ex.solver) == z3.sat:
                fail("raises %s" % traceback.format_exc()[-300:], k.model(ex.solver.model()))
        return k

    def on_path(k, ex):
        out.paths += 1
        if k is not None:
            out.elems += k.checks
            for n in k.notes:
                out.fail("unknown", n)
    try:
        eng.Explorer(max_paths=20000).explore(fn, on_path)
    except Enough:
        pass
    except (eng.Budget, tv.JobTimeout) as e:
        out.fail("unknown", "not every path was explored (%s)" % (str(e) or "time limit"))
    if not out.elems and out.status == "ok":
        out.fail("vacuous", "nothing checked")
    return out
