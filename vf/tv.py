"""Translation validation core: symbolic inputs, equivalence queries, counterexample replay, parallel driver."""
import hashlib
import json
import math
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

from . import env  # noqa: F401
import numpy as np
import z3

from . import eng
from . import terms as T
from . import tens as X
from .eng import STATS, Explorer, PathDropped
from .tens import Ten
from .terms import EvalError, Unsupported

QUERY_MS = 30000


class Spec:
    """A runtime input of a program: name, numpy dtype, concrete shape, optional integer range [lo, hi]
    or fixed value."""

    def __init__(self, name, dt, shape, lo=None, hi=None, value=None, flo=None, fhi=None, split=False):
        self.split = split          # every value of this integer/boolean input is its own path
        self.name, self.dt, self.shape = name, np.dtype(dt), tuple(shape)
        self.lo, self.hi, self.value = lo, hi, value
        self.flo, self.fhi = flo, fhi


def sym_tensor(sp, cons):
    if sp.value is not None:
        return X.from_np(np.asarray(sp.value, dtype=sp.dt))
    a = X.obj(sp.shape)
    k = X.kind(sp.dt)
    base = sp.name.replace(":", "_")
    for i, p in enumerate(np.ndindex(*sp.shape)):
        nm = "%s[%d]" % (base, i)
        if k == "f":
            v = z3.Real(nm)
            if sp.flo is not None:
                cons.append(v >= T.z(T.F(sp.flo)))
            if sp.fhi is not None:
                cons.append(v <= T.z(T.F(sp.fhi)))
        elif k == "i":
            v = z3.Int(nm)
            ii = np.iinfo(sp.dt)
            lo = sp.lo if sp.lo is not None else max(int(ii.min), -1000)
            hi = sp.hi if sp.hi is not None else min(int(ii.max), 1000)
            cons += [v >= lo, v <= hi]
        elif k == "b":
            v = z3.Bool(nm)
        else:
            raise Unsupported("symbolic %s input" % sp.dt)
        if sp.split:
            for c in cons:
                Explorer.cur._push(c)
            cons.clear()
            v = Explorer.cur.concretize(v) if k == "i" else Explorer.cur.branch(v)
        a[p] = v
    return Ten(a, sp.dt)


def model_inputs(m, specs, tens):
    out = {}
    for sp in specs:
        t = tens[sp.name]
        if sp.value is not None:
            out[sp.name] = np.asarray(sp.value, dtype=sp.dt)
            continue
        r = np.zeros(sp.shape, dtype=sp.dt)
        for p in np.ndindex(*sp.shape):
            if not T.is_sym(t.a[p]):
                r[p] = t.a[p]
                continue
            v = m.eval(t.a[p], model_completion=True)
            if z3.is_bool(v):
                r[p] = z3.is_true(v)
            elif z3.is_int_value(v):
                r[p] = v.as_long()
            elif z3.is_rational_value(v):
                r[p] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            elif z3.is_algebraic_value(v):
                q = v.approx(10)
                r[p] = float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
            else:
                r[p] = 0
        out[sp.name] = r
    return out


def val_of(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_algebraic_value(v):
        q = v.approx(10)
        return Fraction(q.numerator_as_long(), q.denominator_as_long())
    return None


class Outcome:
    """result for one program"""

    def __init__(self, key):
        self.key = key
        self.status = "ok"         # ok | diff | error | refused | unsupported | unknown | spurious | vacuous
        self.detail = ""
        self.inputs = None
        self.paths = 0
        self.elems = 0
        self.ops = ()
        self.wall = 0.0
        self.replayed = None
        self.xval = 0

    def fail(self, status, detail, inputs=None):
        order = ["ok", "refused", "vacuous", "unsupported", "unknown", "spurious", "error", "diff"]
        if order.index(status) > order.index(self.status):
            self.status, self.detail, self.inputs = status, detail, inputs
        return self


def _float_elems(t):
    return t.k == "f"


def decide_equal(ex, L, R, specs, tens, out, refine=None, names=None):
    """On the current path: are the outputs L and R equal for every input?  Records failures in out."""
    conds, pairs = [], []
    for n, (l, r) in enumerate(zip(L, R)):
        nm = names[n] if names else str(n)
        if hasattr(l, "items") or hasattr(r, "items"):
            raise Unsupported("sequence output")
        if l.shape != r.shape:
            m = _path_model(ex)
            out.fail("diff", "output %s: shape %s vs %s" % (nm, l.shape, r.shape),
                     model_inputs(m, specs, tens) if m is not None else None)
            return
        if X.kind(l.dt) != X.kind(r.dt) or (l.dt != r.dt):
            m = _path_model(ex)
            out.fail("diff", "output %s: dtype %s vs %s" % (nm, l.dt, r.dt),
                     model_inputs(m, specs, tens) if m is not None else None)
            return
        isf = l.k == "f"
        for a, b in zip(l.a.reshape(-1), r.a.reshape(-1)):
            d = T.diff(a, b, None, isf)
            out.elems += 1
            if T.OPAQUE_SIGMOID[0] and isf and T.is_sym(d):
                # same polynomial in the same uninterpreted terms: the solver's own normal form decides
                e = z3.simplify(T.z(a) - T.z(b), som=True)
                if z3.is_rational_value(e) and e.numerator_as_long() == 0:
                    continue
            if T.is_sym(d):
                conds.append(d)
                pairs.append((a, b, isf))
            elif d:
                m = _path_model(ex)
                out.fail("diff", "output %s: constant element %s vs %s" % (nm, _s(a), _s(b)),
                         model_inputs(m, specs, tens) if m is not None else None)
                return
    s = ex.solver
    s.push()
    try:
        s.set("timeout", QUERY_MS)
        for c in T.CTX.assume:
            s.add(c)
        if eng.check(s) == z3.unsat:
            out.fail("vacuous", "side conditions unsatisfiable on a path")
            return
        s.add(z3.Or(conds) if conds else z3.BoolVal(False))
        for ax in T.uf_axioms(T.CTX.ufapps):
            s.add(ax)
        r = eng.check(s)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            # unknown (nonlinear): try the tolerance query, bounded
            pass
    finally:
        s.pop()
    # second query: robust counterexample within bounded inputs
    s.push()
    try:
        for c in T.CTX.assume:
            s.add(c)
        for ax in T.uf_axioms(T.CTX.ufapps):
            s.add(ax)
        for sp in specs:
            if sp.value is None and X.kind(sp.dt) == "f":
                for v in tens[sp.name].a.reshape(-1):
                    s.add(v >= -8, v <= 8)
        tc = []
        for a, b, isf in pairs:
            d = T.diff(a, b, 2e-3 if isf else None, isf)
            if T.is_sym(d):
                tc.append(d)
            elif d:
                tc.append(z3.BoolVal(True))
        s.add(z3.Or(tc) if tc else z3.BoolVal(False))
        for attempt in range(6):
            r = eng.check(s)
            if r == z3.unsat:
                return
            if r == z3.unknown:
                if not pinned(s, specs, tens, out, refine):
                    out.fail("unknown", "solver unknown: " + s.reason_unknown())
                return
            m = s.model()
            inp = model_inputs(m, specs, tens)
            rep = refine(inp) if refine is not None else None
            if rep:
                out.fail("diff", rep, inp)
                out.replayed = rep
                return
            # spurious candidate: pin the uninterpreted functions at the values of this model
            added = False
            for name, app in list(T.CTX.ufapps.values()):
                args = [val_of(m, app.arg(i)) for i in range(app.num_args())]
                cur = val_of(m, app)
                if any(a is None for a in args) or cur is None:
                    continue
                try:
                    real = T.CONCRETE[name](*[float(a) for a in args])
                except (OverflowError, ValueError):
                    continue
                if math.isinf(real) or math.isnan(real):
                    s.add(z3.Or([app.arg(i) != T.z(a) for i, a in enumerate(args)]))
                    added = True
                    continue
                rf = Fraction(repr(float(real)))
                if abs(cur - rf) > Fraction(1, 10**7):
                    w = Fraction(1, 10**7)
                    s.add(z3.Implies(z3.And([app.arg(i) == T.z(a) for i, a in enumerate(args)]),
                                     z3.And(app <= T.z(rf + w), app >= T.z(rf - w))))
                    added = True
            if not added:
                break
        out.fail("spurious", "counterexample does not reproduce", inp)
    finally:
        s.pop()


def pinned(s, specs, tens, out, refine):
    """the solver could not decide: ask it again with float inputs at fixed values; a model counts only if it replays"""
    rng = np.random.default_rng(5)
    for _ in range(3):
        s.push()
        try:
            for sp in specs:
                if sp.value is None and X.kind(sp.dt) == "f":
                    for v in tens[sp.name].a.reshape(-1):
                        if T.is_sym(v):
                            s.add(v == T.z(Fraction(int(rng.integers(-16, 17)), 8)))
            if eng.check(s) != z3.sat:
                continue
            inp = model_inputs(s.model(), specs, tens)
        finally:
            s.pop()
        rep = refine(inp) if refine is not None else None
        if rep:
            out.fail("diff", rep, inp)
            out.replayed = rep
            return True
    return False


def _s(v):
    return str(float(v)) if isinstance(v, Fraction) else str(v)[:80]


def _path_model(ex):
    ex.solver.push()
    try:
        for c in T.CTX.assume:
            ex.solver.add(c)
        r = eng.check(ex.solver)
        if r == z3.sat:
            return ex.solver.model()
        return None
    finally:
        ex.solver.pop()


def np_differ(a, b, rtol=1e-3, atol=1e-3):
    """None if the concrete results agree, else a description"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "shape %s vs %s" % (a.shape, b.shape)
    if a.dtype.kind in "OSU" or b.dtype.kind in "OSU":
        f = lambda v: v.decode() if isinstance(v, bytes) else str(v)  # noqa
        return None if [f(x) for x in a.reshape(-1)] == [f(x) for x in b.reshape(-1)] else "string values differ"
    if a.dtype != b.dtype:
        return "dtype %s vs %s" % (a.dtype, b.dtype)
    if a.dtype.kind in "biu":
        if np.array_equal(a, b):
            return None
        i = np.argwhere(a != b)[0]
        return "element %s: %s vs %s" % (list(map(int, i)), a[tuple(i)], b[tuple(i)])
    a64, b64 = a.astype(np.float64), b.astype(np.float64)
    with np.errstate(all="ignore"):
        ok = np.isclose(a64, b64, rtol=rtol, atol=atol, equal_nan=True)
    if ok.all():
        return None
    i = np.argwhere(~ok)[0]
    return "element %s: %s vs %s" % (list(map(int, i)), a[tuple(i)], b[tuple(i)])


def random_inputs(specs, rng, scale=2.0):
    out = {}
    for sp in specs:
        if sp.value is not None:
            out[sp.name] = np.asarray(sp.value, dtype=sp.dt)
            continue
        k = X.kind(sp.dt)
        if k == "f":
            lo = -scale if sp.flo is None else sp.flo
            hi = scale if sp.fhi is None else min(sp.fhi, max(lo + 2 * scale, lo))
            out[sp.name] = rng.uniform(lo, hi, sp.shape).astype(sp.dt)
        elif k == "i":
            ii = np.iinfo(sp.dt)
            lo = sp.lo if sp.lo is not None else max(int(ii.min), -9)
            hi = sp.hi if sp.hi is not None else min(int(ii.max), 9)
            out[sp.name] = rng.integers(lo, hi + 1, sp.shape).astype(sp.dt)
        else:
            out[sp.name] = rng.integers(0, 2, sp.shape).astype(bool)
    return out


# ------------------------------------------------------------------ parallel driver
class JobTimeout(Exception):
    pass


def _alarm(sig, frm):
    raise JobTimeout()


_FN = None
_JOBS = None
# a run explores its programs in a fixed shuffled order and stops starting new ones at this time budget
_DEADLINE = [time.time() + float(os.environ.get("VF_BUDGET", "780"))]


def _work(i):
    global STATS
    job = _JOBS[i]
    if time.time() > _DEADLINE[0]:
        out = Outcome(job.key)
        out.status = "notrun"
        return i, out, dict.fromkeys(STATS.__dict__, 0)
    s0 = dict(STATS.__dict__)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, float(os.environ.get("VF_JOB_S", "150")))
    try:
        out = _FN(job)
    except JobTimeout:
        out = Outcome(job.key)
        out.fail("unknown", "job time limit")
    except Unsupported as e:
        out = Outcome(job.key)
        out.fail("unsupported", str(e))
    except Exception as e:  # noqa
        out = Outcome(job.key)
        out.status = "crash"
        out.detail = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out.wall = time.time() - t0
    d = {k: STATS.__dict__[k] - s0[k] for k in s0}
    return i, out, d


def run_jobs(jobs, fn, procs=None):
    """jobs: objects with .key; fn(job) -> Outcome.  Returns outcomes in job order and aggregated stats."""
    global _FN, _JOBS
    _FN, _JOBS = fn, jobs
    procs = procs or int(os.environ.get("VF_PROCS", str(min(8, os.cpu_count() or 1))))
    outs = [None] * len(jobs)
    tot = dict.fromkeys(STATS.__dict__, 0)
    if procs == 1 or len(jobs) <= 1:
        it = map(_work, range(len(jobs)))
    else:
        order = list(range(len(jobs)))
        # deterministic shuffle so that expensive families spread over the workers
        np.random.default_rng(7).shuffle(order)
        cs = max(1, min(16, len(jobs) // (procs * 8)))
        it = _pool([order[i:i + cs] for i in range(0, len(order), cs)], procs, jobs)
    for i, o, d in it:
        outs[i] = o
        for k in tot:
            tot[k] += d[k]
    return outs, tot


def _serve(conn):
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)   # end with the parent
        while True:
            chunk = conn.recv()
            if chunk is None:
                break
            for i in chunk:
                conn.send(_work(i))
    except (EOFError, BrokenPipeError, KeyboardInterrupt):
        pass
    os._exit(0)


def _pool(chunks, procs, jobs):
    """forked workers that take chunks of job numbers; a worker that dies costs only the job it was at"""
    ctx = mp.get_context("fork")
    chunks = list(chunks)[::-1]
    live = {}     # connection -> [process, numbers in flight]

    def spawn():
        here, there = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(there,), daemon=True)
        p.start()
        there.close()
        live[here] = [p, chunks.pop()]
        here.send(live[here][1])

    for _ in range(min(procs, len(chunks))):
        spawn()
    zero = dict.fromkeys(STATS.__dict__, 0)
    while live:
        for c in mpc.wait(list(live)):
            p, todo = live[c]
            try:
                r = c.recv()
            except (EOFError, ConnectionResetError):
                p.join()
                del live[c]
                c.close()
                if todo:
                    o = Outcome(jobs[todo[0]].key)
                    o.status, o.detail = "crash", "the process died (exit code %s)" % p.exitcode
                    yield todo[0], o, zero
                    if todo[1:]:
                        chunks.append(todo[1:])
                if chunks:
                    spawn()
                continue
            todo.remove(r[0])
            yield r
            if not todo:
                if chunks:
                    todo.extend(chunks.pop())
                    c.send(todo)
                else:
                    c.send(None)
                    del live[c]
                    p.join()
                    c.close()


def digest(s):
    return hashlib.sha1(s.encode()).hexdigest()[:12]
