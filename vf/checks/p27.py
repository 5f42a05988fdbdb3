"""P27 handler tables: the real registration and mapping code on symbolic versions and requested opsets."""
import inspect
import itertools

from .. import conv, eng, kern, tv, terms as T
from ..kern import KJob, implies
from ..report import Report

PROP = "P27"


def fresh(h):
    """an empty registry for the time of a program; returns what to restore"""
    d = h.tf_op.get_opsets()
    old = list(d.items())
    d.clear()
    return old


def restore(h, old):
    d = h.tf_op.get_opsets()
    d.clear()
    for k, v in old:
        d[k] = v


def newest(k, regs, m, got, what):
    """got: the handler found (or None); regs: [(version, handler)]; m: requested version"""
    if not any(got is r for _, r in regs):
        k.check(got is None, what + ": a handler that was never registered")
        for v, _ in regs:
            k.check(v > m, what + ": no handler found although one is registered for a version that is not newer")
        return
    vs = [v for v, r in regs if r is got]
    k.check(any_of([v <= m for v in vs]), what + ": the handler is newer than requested")
    for v, r in regs:
        if r is not got:
            k.check(any_of([implies(v <= m, v <= w) for w in vs]), what + ": a newer handler that is allowed was passed over")


def any_of(cs):
    r = cs[0]
    for c in cs[1:]:
        r = eng.wrapb(T.bor(eng._e(r), eng._e(c)))
    return r


def jobs(tier):
    from tf2onnx import constants, handler as h
    import tf2onnx.tfonnx  # noqa  every handler is registered
    from onnx import helper
    q = tier == "quick"
    J = []
    TOP = 5 if q else 8
    ON, EX = constants.ONNX_DOMAIN, "my.domain"

    def add(fam, params, fn):
        def f(k):
            old = fresh(h)
            try:
                fn(k)
            finally:
                restore(h, old)
        J.append(KJob("%s|%s" % (fam, ",".join(map(str, params)) if isinstance(params, tuple) else params), f))

    def ask(k, ops, m, x, domains):
        """looks every operator up in every way; ops: {name: {domain: [(version, func)]}}"""
        extra = [helper.make_opsetid(EX, 1)] if x is not None else None
        if extra:
            extra = [type("Opset", (), {"domain": EX, "version": x})()]
        table = h.tf_op.create_mapping(m, extra)
        for name, per in ops.items():
            for d in domains:
                if d == EX and x is None:
                    continue
                want = per.get(d, [])
                e = h.tf_op.find_effective_op(name, d)
                newest(k, want, m if d == ON else x, e and e[0], "lookup of %s in domain %r" % (name, d))
            if len(per) == 1:
                (d, regs), = per.items()
                e = table.get(name)
                if d == ON or x is not None:
                    newest(k, regs, m if d == ON else x, e and e[0], "lookup of " + name)
                    e = h.tf_op.find_effective_op(name)
                    newest(k, regs, m if d == ON else x, e and e[0], "effective handler of " + name)
                else:
                    k.check(e is None, "operator of a domain that was not requested")

    def mkfuncs(n):
        return [(lambda i: (lambda ctx, node, **kw: i))(i) for i in range(n)]

    # up to three handlers of one operator and one of another, registered one by one in any order
    for n in (1, 2, 3):
        for other in (0, 1):
            for dom in (ON, EX):
                def f(k, n=n, other=other, dom=dom):
                    fs = mkfuncs(n + other)
                    vs = [k.int("v%d" % i, 1, TOP) for i in range(n)]
                    for i in range(n):
                        for j in range(i):
                            if vs[i] == vs[j]:
                                raise eng.PathDropped() if k.values is None else RuntimeError("out of range")
                    ops = {"A": {dom: []}}
                    for v, g in zip(vs, fs):
                        h.tf_op(["A"] if v != 2 else "A", domain=dom).register_compat_handler(g, v)
                        ops["A"][dom].append((v, g))
                    if other:
                        w = k.int("w", 1, TOP)
                        h.tf_op("B", domain=dom).register_compat_handler(fs[-1], w)
                        ops["B"] = {dom: [(w, fs[-1])]}
                    m = k.int("m", 1, TOP + 1)
                    x = k.int("x", 1, TOP + 1) if dom == EX else None
                    ask(k, ops, m, x, [dom])
                add("one", (n, other, dom or "onnx"), f)
    # the same names in two domains
    for both in ("apart", "same", "mixed"):
        for first in (ON, EX):
            for req in (True, False):
                def f(k, both=both, first=first, req=req):
                    fs = mkfuncs(4)
                    second = EX if first == ON else ON
                    a, b, c = k.int("a", 1, TOP), k.int("b", 1, TOP), k.int("c", 1, TOP)
                    h.tf_op("A", domain=first).register_compat_handler(fs[0], a)
                    h.tf_op("A" if both != "apart" else "B", domain=second).register_compat_handler(fs[1], b)
                    ops = {"A": {first: [(a, fs[0])]}}
                    ops.setdefault("A" if both != "apart" else "B", {})[second] = [(b, fs[1])]
                    if both == "mixed":
                        h.tf_op(["C", "D"], domain=first).register_compat_handler(fs[2], c)
                        ops["C"] = {first: [(c, fs[2])]}
                        ops["D"] = {first: [(c, fs[2])]}
                    m = k.int("m", 1, TOP + 1)
                    x = k.int("x", 1, TOP + 1) if req else None
                    ask(k, ops, m, x, [ON, EX])
                add("two", (both, first or "onnx", req), f)
    # handlers declared as classes, with several names and arguments
    for vs in ((1,), (1, 7), (4, 9, 13), (18,), (2, 3)):
        def f(k, vs=vs):
            body = {"version_%d" % v: classmethod((lambda v: (lambda cls, ctx, node, **kw: v))(v)) for v in vs}
            body["helper"] = classmethod(lambda cls: None)
            C = type("C", (), body)
            deco = h.tf_op(["A", "B"], onnx_op="X")
            deco(C)
            m = k.int("m", 1, 20)
            t = h.tf_op.create_mapping(m, None)
            for name in ("A", "B"):
                e = t.get(name)
                got = e and e[0](None, None)
                for v in vs:
                    k.check(implies(v <= m, got is not None and got >= v), "class handler version_%d of %s passed over" % (v, name))
                k.check(got is None or got <= m, "class handler is too new")
                k.check(e is None or e[1] == {"onnx_op": "X"}, "arguments of the handler")
        add("class", vs, f)
    # mapping again for another request forgets the first
    def f(k):
        fs = mkfuncs(2)
        a, b = k.int("a", 1, TOP), k.int("b", 1, TOP)
        if a == b:
            raise eng.PathDropped() if k.values is None else RuntimeError("out of range")
        h.tf_op("A").register_compat_handler(fs[0], a)
        h.tf_op("A").register_compat_handler(fs[1], b)
        ops = {"A": {ON: [(a, fs[0]), (b, fs[1])]}}
        ask(k, ops, k.int("m", 1, TOP + 1), None, [ON])
        ask(k, ops, k.int("m2", 1, TOP + 1), None, [ON])
    add("again", (), f)
    # the real registry
    def real(k, part, parts, dom, rng):
        tab = {}
        for d, lv in h.tf_op.get_opsets().items():
            for ver, ops in enumerate(lv):
                for n, (g, _) in ops.items():
                    tab.setdefault(d, {}).setdefault(n, []).append(g)
        m = k.int("m", 1, rng)
        extra = None if dom == ON else [type("Opset", (), {"domain": dom, "version": k.int("x", 1, 3)})()]
        h.tf_op.create_mapping(m, extra)
        names = sorted(tab.get(dom, {}))[part::parts]
        for n in names:
            fs = tab[dom][n]
            own = [g for g in fs if g.__name__.startswith("version_")]
            if len(own) != len(fs):
                continue
            e = h.tf_op.find_effective_op(n, dom)
            got = e and int(e[0].__name__[8:])
            lim = m if dom == ON else extra[0].version
            # what the class declares, not what the registry holds
            cls = [g.__self__ for g in own]
            vs = sorted({int(a[8:]) for c in cls[-1:] for a, _ in inspect.getmembers(c, inspect.ismethod) if a.startswith("version_")})
            k.check(got is None or eng._e(got <= lim), "%s: newer than requested" % n)
            for v in vs:
                if len(set(cls)) == 1:
                    k.check(implies(v <= lim, got is not None and got >= v), "%s: version_%d passed over" % (n, v))
    for d in (ON, constants.CONTRIB_OPS_DOMAIN, constants.MICROSOFT_DOMAIN):
        if d not in h.tf_op.get_opsets():
            continue
        parts = 8 if d == ON else 1
        for p in range(parts):
            J.append(KJob("real|%s,%d" % (d or "onnx", p), lambda k, p=p, parts=parts, d=d: real(k, p, parts, d, 20)))
    return J


def run_job(job):
    return kern.run_job(job)


def main(tier):
    rep = Report(PROP, tier, "translation_validation")
    outs, st = tv.run_jobs(jobs(tier), run_job)
    rep.add(outs, st)
    rep.functions |= {"tf2onnx.handler.tf_op.__call__", "tf2onnx.handler.tf_op.register_handler", "tf2onnx.handler.tf_op.register_compat_handler",
                      "tf2onnx.handler.tf_op.create_mapping", "tf2onnx.handler.tf_op.find_effective_op"}
    rep.bounds += ["up to four handlers of up to three operators in two domains, versions 1..%d and requested opsets 1..%d symbolic" % ((5, 6) if tier == "quick" else (8, 9)),
                   "every registered operator of the real tables with a requested opset of 1..20"]
    rep.assumptions += ["versions of one operator in one domain are distinct"]
    return rep.finish("the real registration and mapping code runs on symbolic versions (every feasible path); on each path z3 decides that the handler found is "
                      "the newest one not exceeding the request")
