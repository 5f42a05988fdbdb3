"""Symbolic tensors (numpy object arrays of term-layer elements) and semantics helpers shared by evaluators."""
import itertools
import math
from fractions import Fraction

import numpy as np
import z3

from . import terms as T
from .eng import branch, concretize
from .terms import EvalError, Unsupported

try:
    import ml_dtypes
    _BF16 = np.dtype(ml_dtypes.bfloat16)
except Exception:  # noqa
    _BF16 = None


def kind(dt):
    dt = np.dtype(dt)
    if _BF16 is not None and dt == _BF16:
        return "f"
    return {"f": "f", "i": "i", "u": "i", "b": "b", "O": "s", "U": "s", "S": "s", "c": "c"}.get(dt.kind, "?")


class Ten:
    __slots__ = ("a", "dt")

    def __init__(self, a, dt):
        if not isinstance(a, np.ndarray) or a.dtype != object:
            b = np.empty(np.shape(a), dtype=object)
            b[...] = a
            a = b
        self.a = a
        self.dt = np.dtype(dt)

    @property
    def shape(self):
        return self.a.shape

    @property
    def rank(self):
        return self.a.ndim

    @property
    def k(self):
        return kind(self.dt)

    def is_concrete(self):
        return not any(T.is_sym(x) for x in self.a.flat)

    def __repr__(self):
        return "Ten(%s,%s)" % (self.shape, self.dt)


def obj(shape):
    return np.empty(tuple(int(s) for s in shape), dtype=object)


def arr(x):
    """make sure the result of an object computation is an object ndarray"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    b = np.empty(np.shape(x), dtype=object)
    b[...] = x
    return b


def scal(x):
    b = np.empty((), dtype=object)
    b[()] = x
    return b


def fill(shape, v):
    b = obj(shape)
    b.fill(v)
    return b


def from_np(x):
    x = np.asarray(x)
    k = kind(x.dtype)
    out = obj(x.shape)
    if k == "f":
        fn = T.F
    elif k == "i":
        fn = int
    elif k == "b":
        fn = bool
    elif k == "s":
        fn = lambda v: v.decode() if isinstance(v, bytes) else str(v)  # noqa
    else:
        raise Unsupported("dtype %s" % x.dtype)
    flat = out.reshape(-1)
    for i, v in enumerate(x.reshape(-1)):
        flat[i] = fn(v)
    return Ten(flat.reshape(x.shape), np.dtype(object) if k == "s" else x.dtype)


def to_np(t):
    """concrete tensor -> numpy"""
    if t.k == "s":
        return np.array(t.a.tolist(), dtype=object).reshape(t.shape)
    out = np.empty(t.shape, dtype=np.float64 if t.k == "f" else (bool if t.k == "b" else object))
    f = out.reshape(-1)
    for i, v in enumerate(t.a.reshape(-1)):
        if T.is_sym(v):
            raise Unsupported("symbolic value where a concrete one is needed")
        f[i] = float(v) if t.k == "f" else v
    return f.reshape(t.shape).astype(t.dt)


def u1(fn):
    g = np.frompyfunc(fn, 1, 1)
    return lambda a: arr(g(a))


def u2(fn):
    g = np.frompyfunc(fn, 2, 1)
    return lambda a, b: arr(g(a, b))


def u3(fn):
    g = np.frompyfunc(fn, 3, 1)
    return lambda a, b, c: arr(g(a, b, c))


vadd, vsub, vmul, vfdiv = u2(T.add), u2(T.sub), u2(T.mul), u2(T.fdiv)
vmax, vmin, vneg, vabs = u2(T.fmax), u2(T.fmin), u1(T.neg), u1(T.fabs)
vite = u3(T.ite)
veq, vlt, vle, vgt, vge = u2(T.eq), u2(T.lt), u2(T.le), u2(T.gt), u2(T.ge)
vnot, vand, vor, vxor = u1(T.bnot), u2(T.band), u2(T.bor), u2(T.bxor)
vi2f = u1(T.i2f)

# ------------------------------------------------------------- integer ranges / wrapping
_bounds = {}
VARBOUND = 1 << 20


def int_bounds(e, depth=0):
    """conservative interval of an Int term (variables are bounded by VARBOUND)"""
    if not T.is_sym(e):
        return (int(e), int(e))
    k = e.get_id()
    r = _bounds.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    b = _int_bounds(e, depth)
    if len(_bounds) > 200000:
        _bounds.clear()
    _bounds[k] = (e, b)
    return b


_BIG = 1 << 80


def _int_bounds(e, depth):
    if depth > 200:
        return (-_BIG, _BIG)
    if z3.is_int_value(e):
        v = e.as_long()
        return (v, v)
    d = e.decl().kind()
    ch = e.children()
    if d == z3.Z3_OP_UNINTERPRETED and not ch:
        return (-VARBOUND, VARBOUND)
    if d == z3.Z3_OP_ADD:
        bs = [int_bounds(c, depth + 1) for c in ch]
        return (sum(b[0] for b in bs), sum(b[1] for b in bs))
    if d == z3.Z3_OP_SUB:
        bs = [int_bounds(c, depth + 1) for c in ch]
        return (bs[0][0] - sum(b[1] for b in bs[1:]), bs[0][1] - sum(b[0] for b in bs[1:]))
    if d == z3.Z3_OP_UMINUS:
        b = int_bounds(ch[0], depth + 1)
        return (-b[1], -b[0])
    if d == z3.Z3_OP_MUL:
        lo, hi = int_bounds(ch[0], depth + 1)
        for c in ch[1:]:
            b = int_bounds(c, depth + 1)
            ps = [lo * b[0], lo * b[1], hi * b[0], hi * b[1]]
            lo, hi = min(ps), max(ps)
        return (lo, hi)
    if d == z3.Z3_OP_ITE:
        b1, b2 = int_bounds(ch[1], depth + 1), int_bounds(ch[2], depth + 1)
        return (min(b1[0], b2[0]), max(b1[1], b2[1]))
    if d in (z3.Z3_OP_MOD, z3.Z3_OP_REM):
        b = int_bounds(ch[1], depth + 1)
        m = max(abs(b[0]), abs(b[1]))
        return (0 if d == z3.Z3_OP_MOD else -m, m)
    if d == z3.Z3_OP_IDIV:
        b = int_bounds(ch[0], depth + 1)
        m = max(abs(b[0]), abs(b[1]))
        return (-m, m)
    if d == z3.Z3_OP_TO_INT:
        return (-VARBOUND, VARBOUND)
    return (-_BIG, _BIG)


def wrap(v, dt):
    """two's complement wrap of an integer element into dtype dt"""
    ii = np.iinfo(dt)
    lo, hi = int(ii.min), int(ii.max)
    if not T.is_sym(v):
        if lo <= v <= hi:
            return v
        return (v - lo) % (hi - lo + 1) + lo
    b = int_bounds(v)
    if b[0] >= lo and b[1] <= hi:
        return v
    if np.dtype(dt).itemsize >= 4 and max(abs(b[0]), abs(b[1])) >= _BIG and np.dtype(dt).itemsize == 8:
        return v
    return (v - lo) % (hi - lo + 1) + lo


def wrap_arr(a, dt):
    if kind(dt) != "i":
        return a
    return u1(lambda v: wrap(v, dt))(a)


PRECISE_CAST = [False]
_fbits = {np.dtype(np.float16): 1, np.dtype(np.float32): 2, np.dtype(np.float64): 3}
if _BF16 is not None:
    _fbits[_BF16] = 0


def cast(t, dt, saturate=False):
    dt = np.dtype(dt)
    if t.dt == dt:
        return t
    ks, kd = t.k, kind(dt)
    if ks == "s" or kd == "s" or ks == "c" or kd == "c":
        if t.is_concrete() and ks == "s" and kd in "fi":
            return from_np(np.array([float(x) if kd == "f" else int(x) for x in t.a.flat]).reshape(t.shape).astype(dt))
        raise Unsupported("cast %s->%s" % (t.dt, dt))
    if ks == kd == "f":
        if PRECISE_CAST[0] and _fbits[dt] < _fbits[t.dt]:
            nm = "to_" + dt.name

            def rnd(x):
                if not T.is_sym(x):
                    return T.F(dt.type(float(x)))
                T.CONCRETE.setdefault(nm, lambda v: float(dt.type(v)))
                return T.uf(nm, x)
            return Ten(u1(rnd)(t.a), dt)
        if _fbits[dt] < _fbits[t.dt]:
            return Ten(u1(lambda x: x if T.is_sym(x) else T.F(dt.type(float(x))))(t.a), dt)
        return Ten(t.a, dt)
    if ks == "f" and kd == "i":
        return Ten(u1(lambda x: wrap(T.trunc_i(x), dt))(t.a), dt)
    if ks == "f" and kd == "b":
        return Ten(u1(lambda x: T.ne(x, Fraction(0)))(t.a), dt)
    if ks == "i" and kd == "f":
        def i2f(x):
            if not T.is_sym(x):
                return T.F(dt.type(x))
            if PRECISE_CAST[0]:
                nm = "to_" + dt.name
                T.CONCRETE.setdefault(nm, lambda v: float(dt.type(v)))
                return T.uf(nm, z3.ToReal(x))
            return T.i2f(x)
        return Ten(u1(i2f)(t.a), dt)
    if ks == "i" and kd == "i":
        return Ten(u1(lambda x: wrap(x, dt))(t.a), dt)
    if ks == "i" and kd == "b":
        return Ten(u1(lambda x: T.ne(x, 0))(t.a), dt)
    if ks == "b" and kd == "f":
        return Ten(u1(lambda x: T.ite(x, Fraction(1), Fraction(0)))(t.a), dt)
    if ks == "b" and kd == "i":
        return Ten(u1(lambda x: T.ite(x, 1, 0))(t.a), dt)
    raise Unsupported("cast %s->%s" % (t.dt, dt))


RANDOM = {}
RCOUNT = [0]   # random operators met so far in the current program


def random_symbols(kind_, n):
    """the samples of the one random operator of a program, shared by source and converted model"""
    from .eng import Explorer
    out = []
    k = RCOUNT[0]
    RCOUNT[0] += 1
    if k:
        kind_ = "%s%d" % (kind_, k)
    for i in range(n):
        v = z3.Real("rnd_%s[%d]" % (kind_, i))
        if (kind_, i) not in RANDOM:
            RANDOM[kind_, i] = v
            if kind_[0] == "u":
                Explorer.cur._push(z3.And(v >= 0, v < 1))
        out.append(v)
    return out


def zero(dt):
    return {"f": Fraction(0), "i": 0, "b": False, "s": ""}[kind(dt)]


def one(dt):
    return {"f": Fraction(1), "i": 1, "b": True}[kind(dt)]


def ints(t):
    """concrete python ints of an integer tensor; symbolic entries are case-split through the explorer"""
    return [concretize(v) for v in t.a.reshape(-1)]


def int0(t):
    if t.a.size != 1:
        raise EvalError("expected a single element")
    return concretize(t.a.reshape(-1)[0])


def nrm_axis(ax, rank):
    ax = int(ax)
    if ax < -rank or ax >= rank:
        raise EvalError("axis %d out of range for rank %d" % (ax, rank))
    return ax + rank if ax < 0 else ax


def bcast_check(*shapes):
    try:
        return np.broadcast_shapes(*shapes)
    except ValueError as e:
        raise EvalError(str(e))


# ------------------------------------------------------------- reductions
def _fold(f, init=None):
    def g(xs):
        it = iter(xs)
        acc = init if init is not None else next(it)
        for x in it:
            acc = f(acc, x)
        return acc
    return g


def reduce(a, axes, keepdims, fn):
    """fn: list of elements -> element"""
    rank = a.ndim
    axes = sorted(set(nrm_axis(x, rank) for x in axes))
    keep = [i for i in range(rank) if i not in axes]
    b = np.transpose(a, keep + axes)
    ks = tuple(a.shape[i] for i in keep)
    n = int(np.prod([a.shape[i] for i in axes], dtype=int)) if axes else 1
    b = b.reshape((int(np.prod(ks, dtype=int)), n))
    out = obj((b.shape[0],))
    for i in range(b.shape[0]):
        out[i] = fn(list(b[i]))
    if keepdims:
        return out.reshape(tuple(1 if i in axes else a.shape[i] for i in range(rank)))
    return out.reshape(ks)


def red_sum(dt):
    zv = zero(dt)

    def f(xs):
        if not xs:
            return zv
        r = T.fsum(xs)
        return wrap(r, dt) if kind(dt) == "i" else r
    return f


def red_prod(dt):
    ov = one(dt)

    def f(xs):
        r = ov
        for x in xs:
            r = T.mul(r, x)
            if kind(dt) == "i":
                r = wrap(r, dt)
        return r
    return f


def red_max(dt):
    def f(xs):
        if not xs:
            if kind(dt) == "f":
                return -T.INF
            return int(np.iinfo(dt).min)
        return _fold(T.fmax)(xs)
    return f


def red_min(dt):
    def f(xs):
        if not xs:
            if kind(dt) == "f":
                return T.INF
            return int(np.iinfo(dt).max)
        return _fold(T.fmin)(xs)
    return f


def red_mean(dt):
    def f(xs):
        if not xs:
            return math.nan
        s = T.fsum(xs)
        if kind(dt) == "i":
            return T.itruncdiv(s, len(xs))
        return T.fdiv(s, Fraction(len(xs)))
    return f


def red_all(xs):
    return _fold(T.band, True)(xs)


def red_any(xs):
    return _fold(T.bor, False)(xs)


def argext(xs, better):
    """index of the first best element; better(a,b): a strictly better than b"""
    best, idx = xs[0], 0
    for i in range(1, len(xs)):
        c = better(xs[i], best)
        best = T.ite(c, xs[i], best)
        idx = T.ite(c, i, idx)
    return idx


def select(xs, idx):
    """xs[idx] for a possibly symbolic, in-range index (0 <= idx < len)"""
    if not T.is_sym(idx):
        idx = int(idx)
        if idx < 0 or idx >= len(xs):
            raise EvalError("index %d out of range %d" % (idx, len(xs)))
        return xs[idx]
    if len(xs) == 0:
        raise EvalError("index into empty")
    T.CTX.need(z3.And(idx >= 0, idx < len(xs)))
    r = xs[-1]
    for i in range(len(xs) - 2, -1, -1):
        r = T.ite(T.eq(idx, i), xs[i], r)
    return r


def norm_idx(i, n, allow_neg):
    """normalise a negative index"""
    if not T.is_sym(i):
        if i < 0:
            if not allow_neg:
                raise EvalError("negative index")
            i += n
        if i < 0 or i >= n:
            raise EvalError("index out of range")
        return i
    if allow_neg:
        T.CTX.need(z3.And(i >= -n, i < n))
        if n == 0:
            raise EvalError("index into empty")
        return z3.If(i < 0, i + n, i)
    T.CTX.need(z3.And(i >= 0, i < n))
    return i


def gather(a, idx, axis, allow_neg):
    axis = nrm_axis(axis, a.ndim)
    n = a.shape[axis]
    pre, post = a.shape[:axis], a.shape[axis + 1:]
    m = np.moveaxis(a, axis, 0)
    out = obj(idx.shape + pre + post)
    for p in np.ndindex(*idx.shape):
        i = norm_idx(idx[p], n, allow_neg)
        if not T.is_sym(i):
            out[p] = m[i] if m.ndim > 1 else m[i]
        else:
            if m.ndim == 1:
                out[p] = select(list(m), i)
            else:
                sub = obj(pre + post)
                for q in np.ndindex(*(pre + post)):
                    sub[q] = select([m[(j,) + q] for j in range(n)], i)
                out[p] = sub
    # index dims move to position axis
    r = idx.ndim
    out = np.transpose(out, list(range(r, r + axis)) + list(range(r)) + list(range(r + axis, out.ndim)))
    return out


def gather_nd(a, idx, batch, allow_neg):
    """idx: object array [..., k]"""
    k = idx.shape[-1]
    b = batch
    if a.shape[:b] != idx.shape[:b]:
        raise EvalError("gather_nd batch dims")
    outer = idx.shape[:-1]
    rest = a.shape[b + k:]
    out = obj(outer + rest)
    for p in np.ndindex(*outer):
        sub = a[p[:b]] if b else a
        ix = [norm_idx(idx[p + (j,)], sub.shape[j], allow_neg) for j in range(k)]
        if not any(T.is_sym(i) for i in ix):
            v = sub[tuple(ix)]
            if rest:
                out[p] = v
            else:
                out[p] = v
        else:
            cur = {(): None}
            # nested selection
            def sel(prefix, q):
                j = len(prefix)
                if j == k:
                    return sub[prefix + q]
                if not T.is_sym(ix[j]):
                    return sel(prefix + (ix[j],), q)
                return select([sel(prefix + (v,), q) for v in range(sub.shape[j])], ix[j])
            for q in np.ndindex(*rest):
                out[p + q] = sel((), q)
    return out


def scatter_nd(a, idx, upd, comb, allow_neg, oob_skip=False):
    """sequential scatter; comb(old, new) -> element"""
    out = a.copy()
    k = idx.shape[-1]
    outer = idx.shape[:-1]
    rest = a.shape[k:]
    if upd.shape != outer + rest:
        raise EvalError("scatter_nd updates shape %s vs %s" % (upd.shape, outer + rest))
    for p in np.ndindex(*outer):
        ix = [norm_idx(idx[p + (j,)], a.shape[j], allow_neg) for j in range(k)]
        if not any(T.is_sym(i) for i in ix):
            for q in np.ndindex(*rest):
                out[tuple(ix) + q] = comb(out[tuple(ix) + q], upd[p + q])
        else:
            for pos in np.ndindex(*a.shape[:k]):
                c = True
                for j in range(k):
                    c = T.band(c, T.eq(ix[j], pos[j]))
                if not T.is_sym(c) and not c:
                    continue
                for q in np.ndindex(*rest):
                    out[pos + q] = T.ite(c, comb(out[pos + q], upd[p + q]), out[pos + q])
    return out


def slice_np(a, starts, ends, axes, steps):
    """numpy-clamped slice (ONNX semantics)"""
    sl = [slice(None)] * a.ndim
    for s, e, ax, st in zip(starts, ends, axes, steps):
        ax = nrm_axis(ax, a.ndim)
        n = a.shape[ax]
        if st == 0:
            raise EvalError("slice step 0")
        if s < 0:
            s += n
        if e < 0:
            e += n
        if st > 0:
            s = min(max(s, 0), n)
            e = min(max(e, 0), n)
            sl[ax] = slice(s, e, st)
        else:
            s = min(max(s, 0), n - 1)
            e = min(max(e, -1), n - 1)
            idx = list(range(s, e, st)) if n > 0 else []
            sl[ax] = idx
    out = a
    for ax, s in enumerate(sl):
        if isinstance(s, list):
            out = np.take(out, np.array(s, dtype=np.int64), axis=ax)
        else:
            out = out[(slice(None),) * ax + (s,)]
    return out


def reshape(a, shape):
    shape = [int(s) for s in shape]
    neg = [i for i, s in enumerate(shape) if s == -1]
    if any(s < -1 for s in shape) or len(neg) > 1:
        raise EvalError("bad reshape %s" % shape)
    if neg:
        rest = int(np.prod([s for s in shape if s != -1], dtype=int))
        if rest == 0:
            if a.size != 0:
                raise EvalError("bad reshape")
            shape[neg[0]] = 0
        else:
            if a.size % rest:
                raise EvalError("bad reshape %s of %d" % (shape, a.size))
            shape[neg[0]] = a.size // rest
    if int(np.prod(shape, dtype=int)) != a.size:
        raise EvalError("bad reshape %s of %s" % (shape, a.shape))
    return a.reshape(shape)


def pad_const(a, before, after, v):
    sh = tuple(s + b + e for s, b, e in zip(a.shape, before, after))
    if any(s < 0 for s in sh):
        raise EvalError("negative pad result")
    # crop negatives first
    sl = tuple(slice(max(0, -b), a.shape[i] - max(0, -after[i])) for i, b in enumerate(before))
    a = a[sl]
    out = fill(sh, v)
    dst = tuple(slice(max(0, b), max(0, b) + a.shape[i]) for i, b in enumerate(before))
    out[dst] = a
    return out


def pad_mode(a, before, after, mode):
    out = a
    for ax in range(a.ndim):
        n = out.shape[ax]
        idx = []
        for p in range(-before[ax], n + after[ax]):
            if mode == "edge":
                j = min(max(p, 0), n - 1)
            elif mode == "reflect":
                if n == 1:
                    j = 0
                    if p != 0:
                        raise EvalError("reflect pad too large")
                else:
                    if p < -(n - 1) or p > 2 * (n - 1):
                        raise EvalError("reflect pad too large")
                    j = -p if p < 0 else (2 * (n - 1) - p if p >= n else p)
            elif mode == "symmetric":
                if p < -n or p >= 2 * n:
                    raise EvalError("symmetric pad too large")
                j = -p - 1 if p < 0 else (2 * n - 1 - p if p >= n else p)
            else:
                raise Unsupported("pad mode " + mode)
            idx.append(j)
        out = np.take(out, np.array(idx, dtype=np.int64), axis=ax) if out.shape[ax] or idx else out
    return out


# ------------------------------------------------------------- matmul / conv / pool
def dot(xs, ys):
    terms = []
    for x, y in zip(xs, ys):
        p = T.mul(x, y)
        if not T.is_sym(p) and not T.is_special(p) and p == 0:
            continue
        terms.append(p)
    return terms


def matmul(a, b, dt):
    zv = zero(dt)
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        a = a.reshape((1,) + a.shape)
    if vb:
        b = b.reshape(b.shape + (1,))
    if a.ndim < 1 or b.ndim < 1 or a.shape[-1] != b.shape[-2]:
        raise EvalError("matmul shapes %s %s" % (a.shape, b.shape))
    bs = bcast_check(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(a, bs + a.shape[-2:])
    B = np.broadcast_to(b, bs + b.shape[-2:])
    out = obj(bs + (a.shape[-2], b.shape[-1]))
    for p in np.ndindex(*out.shape):
        ts = dot(A[p[:-2] + (p[-2],)], B[p[:-2] + (slice(None), p[-1])])
        v = T.fsum(ts) if ts else zv
        out[p] = wrap(v, dt) if kind(dt) == "i" else v
    if va:
        out = out.reshape(out.shape[:-2] + out.shape[-1:])
    if vb:
        out = out.reshape(out.shape[:-1])
    return out


def conv_nc(x, w, strides, dil, pads_b, pads_e, groups, zv=Fraction(0)):
    """x [N,C,*sp]; w [M,C/g,*k]; cross-correlation with zero padding"""
    n, c = x.shape[:2]
    sp = x.shape[2:]
    m, cg = w.shape[:2]
    k = w.shape[2:]
    if len(k) != len(sp) or cg * groups != c or m % groups:
        raise EvalError("conv shapes x%s w%s g%d" % (x.shape, w.shape, groups))
    xp = pad_const(x, [0, 0] + list(pads_b), [0, 0] + list(pads_e), zv)
    osp = []
    for i in range(len(sp)):
        ext = dil[i] * (k[i] - 1) + 1
        o = (xp.shape[2 + i] - ext) // strides[i] + 1
        if o < 0 or xp.shape[2 + i] < ext:
            o = 0
        osp.append(o)
    out = obj((n, m) + tuple(osp))
    mg = m // groups
    for nn in range(n):
        for mm in range(m):
            g = mm // mg
            wf = w[mm].reshape(-1)
            for p in np.ndindex(*osp):
                sl = tuple(slice(p[i] * strides[i], p[i] * strides[i] + dil[i] * (k[i] - 1) + 1, dil[i])
                           for i in range(len(sp)))
                patch = xp[(nn, slice(g * cg, (g + 1) * cg)) + sl].reshape(-1)
                ts = dot(patch, wf)
                out[(nn, mm) + p] = T.fsum(ts) if ts else zv
    return out


def convT_nc(x, w, strides, dil, pads_b, pads_e, outpad, groups):
    """ONNX ConvTranspose: x [N,C,*sp], w [C, M/g, *k]"""
    n, c = x.shape[:2]
    sp = x.shape[2:]
    mg = w.shape[1]
    k = w.shape[2:]
    m = mg * groups
    cg = c // groups
    osp = [strides[i] * (sp[i] - 1) + outpad[i] + ((k[i] - 1) * dil[i] + 1) - pads_b[i] - pads_e[i]
           for i in range(len(sp))]
    acc = {}
    for nn in range(n):
        for cc in range(c):
            g = cc // cg
            for p in np.ndindex(*sp):
                for q in np.ndindex(*k):
                    o = tuple(p[i] * strides[i] + q[i] * dil[i] - pads_b[i] for i in range(len(sp)))
                    if any(o[i] < 0 or o[i] >= osp[i] for i in range(len(sp))):
                        continue
                    for mm in range(mg):
                        v = T.mul(x[(nn, cc) + p], w[(cc, mm) + q])
                        acc.setdefault((nn, g * mg + mm) + o, []).append(v)
    out = fill((n, m) + tuple(osp), Fraction(0))
    for kk, vs in acc.items():
        out[kk] = T.fsum(vs)
    return out


def pool_nc(x, kshape, strides, dil, pads_b, pads_e, mode, ceil_mode=False, count_include_pad=False, want_idx=False):
    sp = x.shape[2:]
    osp = []
    for i in range(len(sp)):
        ext = dil[i] * (kshape[i] - 1) + 1
        num = sp[i] + pads_b[i] + pads_e[i] - ext
        o = (-((-num) // strides[i]) if ceil_mode else num // strides[i]) + 1
        if ceil_mode and (o - 1) * strides[i] >= sp[i] + pads_b[i]:
            o -= 1
        if num < 0:
            o = 0
        osp.append(o)
    out = obj(x.shape[:2] + tuple(osp))
    idx = obj(out.shape)
    for nc in np.ndindex(*x.shape[:2]):
        for p in np.ndindex(*osp):
            vals, pos, cnt = [], [], 0
            for q in np.ndindex(*kshape):
                s = tuple(p[i] * strides[i] + q[i] * dil[i] - pads_b[i] for i in range(len(sp)))
                if all(-pads_b[i] <= s[i] < sp[i] + pads_e[i] for i in range(len(sp))):
                    cnt += 1
                if all(0 <= s[i] < sp[i] for i in range(len(sp))):
                    vals.append(x[nc + s])
                    pos.append(s)
            if mode == "max":
                if not vals:
                    out[nc + p] = -T.INF
                else:
                    out[nc + p] = _fold(T.fmax)(vals)
                    if want_idx:
                        fl = [int(np.ravel_multi_index(s, sp)) for s in pos]
                        j = argext(vals, T.gt)
                        idx[nc + p] = select(fl, j) if T.is_sym(j) else fl[j]
            else:
                d = cnt if count_include_pad else len(vals)
                out[nc + p] = T.fdiv(T.fsum(vals), Fraction(d)) if vals else (Fraction(0) if d else math.nan)
    return (out, idx) if want_idx else out


def topk(xs, k, largest=True):
    """sorted top-k values and indices; ties: lower index first"""
    n = len(xs)
    if all(not T.is_sym(x) for x in xs):
        order = sorted(range(n), key=lambda i: ((-xs[i]) if largest else xs[i], i))[:k]
        return [xs[i] for i in order], list(order)
    rank = []
    for i in range(n):
        r = 0
        cs = []
        for j in range(n):
            if i == j:
                continue
            b = T.gt(xs[j], xs[i]) if largest else T.lt(xs[j], xs[i])
            if j < i:
                b = T.bor(b, T.eq(xs[j], xs[i]))
            cs.append(T.ite(b, 1, 0))
        rank.append(T.fsum(cs) if cs else 0)
    vals, idxs = [], []
    for kk in range(k):
        v, ii = xs[n - 1], n - 1
        for i in range(n - 2, -1, -1):
            c = T.eq(rank[i], kk)
            v = T.ite(c, xs[i], v)
            ii = T.ite(c, i, ii)
        vals.append(v)
        idxs.append(ii)
    return vals, idxs


def einsum(eq, arrs, dt):
    eq = eq.replace(" ", "")
    if "->" in eq:
        lhs, rhs = eq.split("->")
    else:
        lhs, rhs = eq, None
    ins = lhs.split(",")
    if len(ins) != len(arrs):
        raise EvalError("einsum operand count")
    # expand ellipsis
    ell_n = 0
    for s, a in zip(ins, arrs):
        if "..." in s:
            ell_n = max(ell_n, a.ndim - (len(s) - 3))
    ell = [chr(0x3b1 + i) for i in range(ell_n)]
    terms = []
    for s, a in zip(ins, arrs):
        if "..." in s:
            n = a.ndim - (len(s) - 3)
            s = s.replace("...", "".join(ell[ell_n - n:]))
        if len(s) != a.ndim:
            raise EvalError("einsum rank")
        terms.append(s)
    if rhs is None:
        from collections import Counter
        c = Counter("".join(terms))
        rhs = "".join(ell) + "".join(sorted(ch for ch in c if c[ch] == 1 and ch not in ell))
    else:
        rhs = rhs.replace("...", "".join(ell))
    dims = {}
    for s, a in zip(terms, arrs):
        for ch, d in zip(s, a.shape):
            if dims.get(ch, 1) == 1:
                dims[ch] = d
            elif d not in (1, dims[ch]):
                raise EvalError("einsum dims")
    summed = [ch for ch in dims if ch not in rhs]
    out = obj([dims[ch] for ch in rhs])
    zv, ov = zero(dt), one(dt)
    for p in np.ndindex(*out.shape):
        env = dict(zip(rhs, p))
        acc = []
        for q in np.ndindex(*[dims[ch] for ch in summed]):
            env.update(zip(summed, q))
            v = ov
            for s, a in zip(terms, arrs):
                v = T.mul(v, a[tuple(env[ch] if a.shape[i] != 1 else 0 for i, ch in enumerate(s))])
            acc.append(v)
        v = T.fsum(acc) if acc else zv
        out[p] = wrap(v, dt) if kind(dt) == "i" else v
    return out


def softmax(xs):
    """list of elements -> list. exp(x)/sum(exp): shift-invariant form not needed over exact reals"""
    es = [T.uf("exp", x) if not (not T.is_sym(x) and T.is_special(x)) else T.F(math.exp(x)) for x in xs]
    s = T.fsum(es)
    return [T.fdiv(e, s) for e in es]


def along(a, axis, fn):
    """apply fn(list)->list along axis (same or new length)"""
    axis = nrm_axis(axis, a.ndim)
    m = np.moveaxis(a, axis, -1)
    sh = m.shape[:-1]
    outs = None
    for p in np.ndindex(*sh):
        r = fn(list(m[p]))
        if outs is None:
            outs = obj(sh + (len(r),))
        outs[p] = arr(np.array(r + [None], dtype=object)[:-1]) if r else outs[p]
    if outs is None:
        outs = obj(sh + (a.shape[axis],))
    return np.moveaxis(outs, -1, axis)
