"""P22 option buffers: the real decoder runs on buffers of symbolic bytes laid out by an encoder written from the FlexBuffers format."""
import builtins
import random
import struct as real_struct

from .. import env, eng, kern, terms as T, tv  # noqa
from ..kern import KJob
from ..report import Report

PROP = "P22"
FBT = {"null": 0, "int": 1, "uint": 2, "float": 3, "key": 4, "str": 5, "iint": 6, "iuint": 7, "ifloat": 8, "map": 9, "vec": 10, "bool": 26, "blob": 25}
TVEC = {"int": 11, "uint": 12, "float": 13, "key": 14, "bool": 36}
LOG = {1: 0, 2: 1, 4: 2, 8: 3}


# ------------------------------------------------------------------ byte strings of solver variables
class Num(eng.SymInt):
    """a number known to be a multiple of 2**zeros and less than 2**bits: shifts and unions of bytes stay terms"""
    __slots__ = ("bits", "zeros")

    def __init__(self, e, bits, zeros=0):
        super().__init__(e)
        self.bits, self.zeros = bits, zeros

    def __lshift__(self, n):
        n = builtins.int(n)
        return Num(T.mul(self.e, 2 ** n), self.bits + n, self.zeros + n)

    def __rshift__(self, n):
        n = builtins.int(n)
        return Num(T.ifloordiv(self.e, 2 ** n), max(self.bits - n, 0), max(self.zeros - n, 0))

    def __or__(self, o):
        if isinstance(o, builtins.int) and o == 0:
            return self
        if isinstance(o, Num):
            if self.bits <= o.zeros or o.bits <= self.zeros:
                return Num(T.add(self.e, o.e), max(self.bits, o.bits), min(self.zeros, o.zeros))
        elif isinstance(o, builtins.int) and 0 < o and (self.bits <= (o & -o).bit_length() - 1 or o.bit_length() <= self.zeros):
            return Num(T.add(self.e, o), max(self.bits, o.bit_length()), min(self.zeros, (o & -o).bit_length() - 1))
        return eng.SymInt.__or__(self, o)

    __ror__ = __or__

    def __and__(self, o):
        if isinstance(o, builtins.int) and o == 2 ** o.bit_length() - 1:
            return self if self.bits <= o.bit_length() else Num(T.ifloormod(self.e, o + 1) if hasattr(T, "ifloormod") else (eng.SymInt(self.e) % (o + 1)).e, o.bit_length(), self.zeros)
        return eng.SymInt.__and__(self, o)

    __rand__ = __and__

    def __add__(self, o):
        r = self | o if isinstance(o, Num) and (self.bits <= o.zeros or o.bits <= self.zeros) else eng.SymInt.__add__(self, o)
        return r

    def __hash__(self):
        return eng.SymInt.__hash__(self)


class Bits:
    """the bytes of a floating-point number"""

    def __init__(self, bs):
        self.bs = bs


class Text:
    def __init__(self, bs):
        self.bs = bs

    def __hash__(self):
        return 7

    def __len__(self):
        return len(self.bs)

    def __eq__(self, o):
        o = list(o.encode() if isinstance(o, str) else o.bs if isinstance(o, Text) else o)
        if len(o) != len(self.bs):
            return False
        return bool(same_bytes(self.bs, o))


class Bytes:
    """bytes look-alike"""

    def __init__(self, bs):
        self.bs = list(bs)

    def __len__(self):
        return len(self.bs)

    def __iter__(self):
        return iter(self.bs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Bytes(self.bs[i])
        return self.bs[i]

    def __add__(self, o):
        return Bytes(self.bs + list(o))

    def __hash__(self):
        return 7

    def __eq__(self, o):
        if not isinstance(o, (Bytes, bytes, bytearray)):
            return False
        return len(o) == len(self) and bool(same_bytes(self.bs, list(o)))

    def find(self, sub, start=0, end=None):
        assert len(sub) == 1
        sub = sub[0]
        for i in range(start, len(self.bs) if end is None else end):
            if self.bs[i] == sub:
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def decode(self, *_a, **_k):
        for b in self.bs:
            if b > 127:
                raise UnicodeDecodeError("utf-8", b"", 0, 1, "not ascii")
        return Text(self.bs)

    def tobytes(self):
        return self


def same_bytes(a, b):
    if len(a) != len(b):
        return False
    r = True
    for x, y in zip(a, b):
        r = eng.wrapb(T.band(eng._e(r), eng._e(x == y)))
    return r


def number(bs, signed):
    v = 0
    for i, b in enumerate(bs):
        v = v + b * 256 ** i
    if signed:
        if isinstance(v, eng.SymInt):
            return eng.wrapi(T.sub(v.e, T.ite(eng._e(bs[-1] >= 128), 256 ** len(bs), 0)))
        if bs[-1] >= 128:
            v -= 256 ** len(bs)
    return v


class Struct:
    """stands in for the struct module while the decoder runs on symbolic bytes"""
    error = real_struct.error
    calcsize = staticmethod(real_struct.calcsize)

    @staticmethod
    def unpack(fmt, data):
        if isinstance(data, (bytes, bytearray, memoryview)):
            return real_struct.unpack(fmt, data)
        if len(data) != real_struct.calcsize(fmt):
            raise real_struct.error("unpack requires a buffer of %d bytes" % real_struct.calcsize(fmt))
        order, out, i, bs = "@", [], 0, list(data)
        for c in fmt:
            if c in "<>=@!":
                order = c
                continue
            n = real_struct.calcsize("<" + c)
            part = bs[i:i + n]
            i += n
            if order in ">!":
                part = part[::-1]
            if c in "fde":
                out.append(Bits(part))
            elif c == "?":
                out.append(part[0] != 0)
            elif c in "cs":
                out.append(Bytes(part))
            else:
                out.append(number(part, c.islower()))
        return tuple(out)

    @classmethod
    def unpack_from(cls, fmt, buffer, offset=0):
        return cls.unpack(fmt, buffer[offset:offset + real_struct.calcsize(fmt)])

    class Struct:
        def __init__(self, fmt):
            self.format, self.size = fmt, real_struct.calcsize(fmt)

        def unpack(self, data):
            return Struct.unpack(self.format, data)

        def unpack_from(self, buffer, offset=0):
            return Struct.unpack_from(self.format, buffer, offset)


class Int(type(int)):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, eng.SymInt))

    def __call__(cls, x=0, *a):
        return x if isinstance(x, eng.SymInt) else builtins.int(x, *a)


class IntShim(builtins.int, metaclass=Int):
    @staticmethod
    def from_bytes(data, byteorder="big", *, signed=False):
        if isinstance(data, Bytes):
            return number(list(data) if byteorder == "little" else list(data)[::-1], signed)
        return builtins.int.from_bytes(data, byteorder, signed=signed)


# ------------------------------------------------------------------ the encoder
class Misfit(Exception):
    pass


class Enc:
    """lays a value out as the format says; the value's own bytes come from k (symbolic or given)"""

    def __init__(self, k, text):
        self.k, self.text, self.buf, self.n = k, text, [], 0

    def byte(self, lo=0, hi=255):
        self.n += 1
        b = self.k.int("b%d" % self.n, lo, hi)
        return Num(b.e, 8) if isinstance(b, eng.SymInt) else b

    def scalar(self, kind, w):
        """the bytes of a number stored on w bytes, and what it should decode to"""
        if kind == "null":
            return [0] * w, None
        if kind == "bool":
            b = self.byte(0, 1)
            return [b] + [0] * (w - 1), ("bool", b)
        if kind == "float":
            if w < 4:
                raise Misfit()
            bs = [self.byte() for _ in range(w)]
            if w == 4:
                return bs, ("float", bs)
            return bs, ("float", bs)
        bs = [self.byte() for _ in range(w)]
        return bs, ("num", kind == "int", bs)

    def align(self, w):
        while len(self.buf) % w:
            self.buf.append(0)

    def uint(self, v, w):
        if v < 0 or v >= 256 ** w:
            raise Misfit()
        self.buf += list(int(v).to_bytes(w, "little"))

    def chars(self, n, zero):
        return [self.byte(0 if zero else 1, 127 if self.text else 255) for _ in range(n)]

    # value trees: see trees()
    def place(self, v):
        """writes what does not fit its parent; returns (packed type, location or None, kind, expected or None)"""
        kind = v[0]
        if kind in ("null", "bool"):
            return FBT[kind] << 2, None, kind, None
        if kind in ("int", "uint", "float"):
            return FBT[kind] << 2 | LOG[v[1]], None, kind, None
        if kind in ("iint", "iuint", "ifloat"):
            self.align(v[1])
            loc = len(self.buf)
            bs, e = self.scalar(kind[1:], v[1])
            self.buf += bs
            return FBT[kind] << 2 | LOG[v[1]], loc, kind, e
        if kind == "key":
            loc = len(self.buf)
            c = self.chars(v[1], False)
            self.buf += c + [0]
            return FBT["key"] << 2, loc, kind, ("text", c)
        if kind in ("str", "blob"):
            n, w = v[1:]
            self.align(w)
            self.uint(n, w)
            loc = len(self.buf)
            if kind == "str":
                c = self.chars(n, True)
                self.buf += c + [0]
                return FBT["str"] << 2 | LOG[w], loc, kind, ("text", c)
            c = [self.byte() for _ in range(n)]
            self.buf += c
            return FBT["blob"] << 2 | LOG[w], loc, kind, ("bytes", c)
        if kind in ("tvec", "fvec"):
            el, w, n = v[1:]
            keys = []
            if el == "key":
                keys = [self.place(("key", 1 + i)) for i in range(n)]
            self.align(w)
            if kind == "tvec":
                self.uint(n, w)
            loc = len(self.buf)
            exp = []
            for i in range(n):
                if el == "key":
                    self.uint(len(self.buf) - keys[i][1], w)
                    exp.append(keys[i][3])
                else:
                    bs, e = self.scalar(el, w)
                    self.buf += bs
                    exp.append(e)
            t = TVEC[el] if kind == "tvec" else 16 + (n - 2) * 3 + {"int": 0, "uint": 1, "float": 2}[el]
            return t << 2 | LOG[w], loc, kind, ("list", exp)
        if kind in ("vec", "map"):
            w = v[1]
            if kind == "map":
                kw, pairs = v[2:]
                items = [x for _, x in pairs]
                klocs, kexp = [], []
                for i, (n, _) in enumerate(pairs):
                    klocs.append(len(self.buf))
                    c = [ord("A") + i] + self.chars(n, False)
                    self.buf += c + [0]
                    kexp.append(c)
                self.align(kw)
                self.uint(len(pairs), kw)
                kvec = len(self.buf)
                for p in klocs:
                    self.uint(len(self.buf) - p, kw)
            else:
                items = v[2]
            placed = [self.place(x) for x in items]
            self.align(w)
            if kind == "map":
                self.uint(len(self.buf) - kvec, w)
                self.uint(kw, w)
            self.uint(len(items), w)
            loc = len(self.buf)
            exp = []
            for p in placed:
                exp.append(self.slot(p, w))
            self.buf += [p[0] for p in placed]
            if kind == "map":
                return FBT["map"] << 2 | LOG[w], loc, kind, ("dict", list(zip(kexp, exp)))
            return FBT["vec"] << 2 | LOG[w], loc, kind, ("list", exp)
        raise KeyError(kind)

    def slot(self, p, w):
        _, loc, kind, e = p
        if loc is None:
            bs, e = self.scalar(kind, w)
            self.buf += bs
        else:
            self.uint(len(self.buf) - loc, w)
        return e

    def root(self, v, w):
        p = self.place(v)
        self.align(w)
        e = self.slot(p, w)
        self.buf += [p[0], w]
        return e


def compare(k, got, e, text, where="value"):
    c = k.values is not None
    if e is None:
        k.check(got is None, where + " should be null")
    elif e[0] == "bool":
        k.check(isinstance(got, (bool, eng.SymBool)), where + " should be a boolean")
        if isinstance(got, (bool, eng.SymBool)):
            k.check(got == (e[1] == 1) if not isinstance(got, bool) or not isinstance(e[1], eng.SymInt) else (e[1] == 1) == got, where + ": wrong boolean")
    elif e[0] == "num":
        ok = isinstance(got, (int, eng.SymInt)) and not isinstance(got, bool)
        k.check(ok, where + " should be an integer")
        if ok:
            k.check(got == number(e[2], e[1]), where + ": wrong integer")
    elif e[0] == "float":
        if c:
            want = real_struct.unpack("<f" if len(e[1]) == 4 else "<d", bytes(e[1]))[0]
            k.check(isinstance(got, float) and (got == want or (got != got and want != want)), where + ": %r is not %r" % (got, want))
        else:
            k.check(isinstance(got, Bits), where + " should be a float")
            if isinstance(got, Bits):
                k.check(same_bytes(got.bs, e[1]), where + ": wrong float")
    elif e[0] in ("text", "bytes"):
        t = text and e[0] == "text"
        if c:
            k.check(got == (bytes(e[1]).decode() if t else bytes(e[1])) and type(got) == (str if t else bytes), where + ": %r" % (got,))
        elif isinstance(got, (str, bytes)):
            k.check(len(got) == 0 and not e[1] and isinstance(got, str) == t, where + ": wrong text")
        else:
            k.check(isinstance(got, Text if t else Bytes), where + " has the wrong type")
            k.check(same_bytes(got.bs, e[1]), where + ": wrong text")
    elif e[0] == "list":
        k.check(isinstance(got, (list, tuple)) and len(got) == len(e[1]), where + " should be a list of %d" % len(e[1]))
        if isinstance(got, (list, tuple)) and len(got) == len(e[1]):
            for i, (g, x) in enumerate(zip(got, e[1])):
                compare(k, g, x, text, "%s[%d]" % (where, i))
    elif e[0] == "dict":
        ok = isinstance(got, dict) and len(got) == len(e[1])
        k.check(ok, where + " should be a dictionary of %d" % len(e[1]))
        if not ok:
            return
        for i, (key, x) in enumerate(e[1]):
            hit = [g for g in got if len(g) and (ord(g[0]) if isinstance(g, str) else g.bs[0] if isinstance(g, (Text, Bytes)) else g[0]) == key[0]]
            k.check(len(hit) == 1, "%s: key %d is missing" % (where, i))
            if len(hit) == 1:
                compare(k, hit[0], ("text", key), text, "%s: key %d" % (where, i))
                compare(k, got[hit[0]], x, text, "%s[key %d]" % (where, i))


def rnd_tree(r, depth, w):
    ks = ["null", "bool", "int", "uint", "iint", "iuint", "ifloat", "key", "str", "blob", "tvec", "fvec"] + (["vec", "map"] * 4 if depth else [])
    if w >= 4:
        ks.append("float")
    k = r.choice(ks)
    if k in ("null", "bool"):
        return (k,)
    if k in ("int", "uint"):
        return (k, r.choice([x for x in (1, 2, 4, 8) if x <= w]))
    if k == "float":
        return (k, w)
    if k in ("iint", "iuint"):
        return (k, r.choice((1, 2, 4, 8)))
    if k == "ifloat":
        return (k, r.choice((4, 8)))
    if k == "key":
        return (k, r.randint(0, 3))
    if k in ("str", "blob"):
        return (k, r.randint(0, 4), r.choice((1, 2, 4)))
    if k == "tvec":
        el = r.choice(["int", "uint", "float", "key", "bool"])
        return (k, el, 8 if el == "float" and r.random() < .5 else 4 if el == "float" else 1 if el == "bool" else r.choice((1, 2, 4, 8)), r.randint(0, 3))
    if k == "fvec":
        el = r.choice(["int", "uint", "float"])
        return (k, el, r.choice((4, 8)) if el == "float" else r.choice((1, 2, 4, 8)), r.randint(2, 4))
    cw = r.choice((1, 2, 4, 8))
    items = [rnd_tree(r, depth - 1, cw) for _ in range(r.randint(0, 3))]
    if k == "vec":
        return (k, cw, items)
    return (k, cw, r.choice((1, 2, 4)), [(r.randint(0, 2), x) for x in items])


def trees(tier):
    """(family, value tree, width of the root, strings decoded to text)"""
    q = tier == "quick"
    for w in (1, 2, 4, 8):
        yield "null", ("null",), w, True
        yield "bool", ("bool",), w, True
        for k in ("int", "uint", "float"):
            yield k, (k, w), w, True
            for iw in (1, 2, 4, 8):
                yield "i" + k, ("i" + k, iw), w, True
        for n in (0, 1, 2, 3, 5):
            for t in (True, False):
                yield "key", ("key", n), w, t
                for sw in (1, 2, 4, 8):
                    yield "str", ("str", n, sw), w, t
                    yield "blob", ("blob", n, sw), w, t
    for n in (127, 128, 200, 250) + (() if q else (254, 255)):
        for sw, w in ((1, 1), (1, 2), (2, 2), (4, 4)):
            for k in ("str", "blob"):
                yield k + "long", (k, n, sw), w, True
    for n, sw in ((255, 2), (256, 2), (300, 2), (300, 4)) + (() if q else ((1000, 2), (1000, 4), (1000, 8))):
        for k in ("str", "blob"):
            yield k + "long", (k, n, sw), 2, True
            yield k + "long", (k, n, sw), 4, False
    for el in ("int", "uint", "float", "key", "bool"):
        for w in (1, 2, 4, 8):
            for n in (0, 1, 2, 3, 4, 5):
                for rw in (1, 2, 4) if not q else ((1, 2, 4)[(n + w) % 3],):
                    yield "tvec", ("tvec", el, w, n), rw, n % 2 == 0
                    if n in (2, 3, 4) and el not in ("key", "bool"):
                        yield "fvec", ("fvec", el, w, n), rw, True
    for el, w, n in (("int", 1, 130), ("uint", 1, 200), ("uint", 2, 70), ("bool", 1, 140)):
        yield "tveclong", ("tvec", el, w, n), 2, True
    # what stands in every slot of a vector and of a map
    leaf = [("null",), ("bool",), ("int", 1), ("uint", 1), ("float", 4), ("iint", 1), ("iint", 8), ("iuint", 2), ("ifloat", 8), ("key", 2), ("str", 2, 1), ("str", 0, 2),
            ("blob", 2, 1), ("tvec", "int", 2, 2), ("tvec", "key", 1, 2), ("fvec", "uint", 1, 3), ("vec", 1, []), ("vec", 2, [("int", 1), ("str", 1, 1)]),
            ("map", 1, 1, []), ("map", 2, 1, [(1, ("int", 1)), (0, ("key", 1))])]
    for i, a in enumerate(leaf):
        for w in (1, 2, 4, 8):
            yield "invec", ("vec", w, [a]), 1, True
            yield "inmap", ("map", w, 1, [(1, a)]), 1, i % 2 == 0
            if q and (i + w) % 3:
                continue
            for j, b in enumerate(leaf):
                if q and (i + j) % 4:
                    continue
                yield "invec2", ("vec", w, [a, b]), 2, True
                yield "inmap2", ("map", w, (1, 2, 4)[(i + j) % 3], [(1, a), (2, b)]), 2, j % 2 == 0
    for seed in range(150 if q else 2500):
        r = random.Random(seed)
        w = r.choice((1, 2, 4, 8))
        yield "rnd", (seed,), w, r.random() < .7


def jobs(tier):
    from tf2onnx import flexbuffers as fb
    J, seen = [], set()
    for fam, tree, w, text in trees(tier):
        key = "%s|%d,%s,%s" % (fam, w, "text" if text else "bytes", repr(tree).replace(" ", "").replace("'", ""))
        if key in seen:
            continue
        seen.add(key)
        if fam == "rnd":
            tree = rnd_tree(random.Random(tree[0] * 7 + 1), 3, w)
        try:
            Enc(kern.K(values={}), text).root(tree, w)
        except Misfit:
            continue

        def f(k, tree=tree, w=w, text=text):
            e = Enc(k, text)
            want = e.root(tree, w)
            conc = k.values is not None
            old = {n: getattr(fb, n, None) for n in ("struct", "int")}
            if not conc:
                fb.struct, fb.int = Struct, IntShim
            try:
                got = fb.read_flexbuffer(bytes(e.buf) if conc else Bytes(e.buf), decode_strings=text)
            finally:
                for n, v in old.items():
                    if v is None:
                        if hasattr(fb, n):
                            delattr(fb, n)
                    else:
                        setattr(fb, n, v)
            compare(k, got, want, text)
        J.append(KJob(key, f))
    return J


def run_job(job):
    return kern.run_job(job)


def main(tier):
    rep = Report(PROP, tier, "translation_validation")
    outs, st = tv.run_jobs(jobs(tier), run_job)
    rep.add(outs, st)
    rep.functions |= {"tf2onnx.flexbuffers.read_flexbuffer", "tf2onnx.flexbuffers.read_buffer", "tf2onnx.flexbuffers.read_array", "tf2onnx.flexbuffers.read_int",
                      "tf2onnx.flexbuffers.read_uint", "tf2onnx.flexbuffers.read_float", "tf2onnx.flexbuffers.read_string", "tf2onnx.flexbuffers.read_indirect"}
    rep.bounds += ["layouts: every value type, widths 1, 2, 4 and 8 of every slot, container and key vector, up to three nested levels, up to %d elements or characters"
                   % (300 if tier == "quick" else 1000),
                   "every byte of every number, character and blob is a solver variable; text that is decoded is ASCII"]
    rep.assumptions += ["struct.unpack is modelled (little and big endian integers; floats as their bytes)", "16-bit floats are outside: the decoder refuses them"]
    return rep.finish("the real decoder runs on buffers whose payload bytes are solver variables, laid out by an encoder written from the format; on each path z3 "
                      "decides that the decoded value equals the encoded one for all payloads; counterexamples are decoded again from real bytes")
