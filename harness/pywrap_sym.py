#!/usr/bin/env python3
"""Symbolic execution of py/conserveInterp2D.py (run under the tooling Python).

The module of the current tree is executed by the Python interpreter with stand-ins
for ctypes, numpy and the shared library.  Grid sizes, coordinates, data, element
types and memory layouts are z3 terms; every truth value the code asks for forks the
execution when both outcomes are feasible; the order of the calls is a symbolic
choice of the driver.  Array contents are terms: an uninterpreted function of the
grids and data given to the library for the cells it writes, and what was there
before for the others.  After each call the assertions below are put to z3 for all
values of the path.
"""
import sys, os, json, time, types
import z3

ZERO, NAN, GARBAGE = z3.IntVal(0), z3.IntVal(-1), z3.IntVal(-2)
I = z3.IntSort()
INTERP = z3.Function("interp", *([I] * 12))


class Unsupported(Exception):
    pass


class Violation(Exception):
    pass


class Infeasible(Exception):
    pass


class Ex:
    """one execution"""
    cur = None

    def __init__(self, prefix, stats):
        self.prefix, self.pos, self.alts, self.stats = prefix, 0, [], stats
        self.s = z3.Solver()
        self.s.set("timeout", 10000)
        self.n = 0

    def fresh(self, name, lo, hi):
        v = z3.Int(name)
        self.s.add(v >= lo, v <= hi)
        return v

    def check(self, *c):
        t = time.time()
        r = self.s.check(*c)
        self.stats["queries"] += 1
        self.stats[str(r)] = self.stats.get(str(r), 0) + 1
        self.stats["seconds"] += time.time() - t
        return r

    def pick(self, options):
        """decision among feasible options: list of z3 conditions or True"""
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
        else:
            k = next((i for i in range(len(options)) if self.ok(options[i])), None)
            if k is None:
                raise Infeasible()
            self.prefix = self.prefix + [k]
            for j in range(k + 1, len(options)):
                if self.ok(options[j]):
                    self.alts.append(self.prefix[:self.pos] + [j])
        self.pos += 1
        if options[k] is not True:
            self.s.add(options[k])
        return k

    def ok(self, c):
        return c is True or self.check(c) != z3.unsat

    def truth(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.pick([e, z3.Not(e)]) == 0

    def prove(self, e, msg):
        self.stats["asserts"] += 1
        e = z3.simplify(e) if not isinstance(e, bool) else z3.BoolVal(e)
        if z3.is_true(e):
            self.stats["trivial"] += 1
            return
        r = self.check(z3.Not(e))
        if r == z3.sat:
            self.model = self.s.model()
            raise Violation(msg)
        if r == z3.unknown:
            self.stats["unproved"] += 1


def ex():
    return Ex.cur


def T(x):
    """z3 integer term of a value"""
    if isinstance(x, (SymInt, SymBool)):
        return x.e if isinstance(x, SymInt) else z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool) or isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, CVal):
        return T(x.value)
    raise Unsupported("integer from %r" % type(x))


class SymBool:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ex().truth(self.e)

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __and__(self, o):
        return SymBool(z3.And(self.e, B(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.e, B(o)))

    def __eq__(self, o):
        return SymBool(T(self) == T(o))

    def __ne__(self, o):
        return SymBool(T(self) != T(o))
    __hash__ = None


def B(x):
    return x.e if isinstance(x, SymBool) else z3.BoolVal(bool(x))


class SymInt:
    def __init__(self, e):
        self.e = e

    def _o(self, o, f):
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        return SymInt(z3.simplify(f(self.e, T(o))))

    def __add__(self, o): return self._o(o, lambda a, b: a + b)
    def __radd__(self, o): return self._o(o, lambda a, b: b + a)
    def __sub__(self, o): return self._o(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._o(o, lambda a, b: b - a)
    def __mul__(self, o): return self._o(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._o(o, lambda a, b: b * a)
    def __neg__(self): return SymInt(-self.e)

    def _c(self, o, f):
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        return SymBool(f(self.e, T(o)))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    __hash__ = None

    def __bool__(self): return ex().truth(self.e != 0)

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        k = ex().pick([e == i for i in range(0, 40)])
        return k
    __int__ = __index__


# ------------------------------------------------------------------ numpy
class DType:
    def __init__(self, name, dbl):
        self.name, self.dbl = name, dbl  # dbl: z3 Bool or bool

    def __eq__(self, o):
        o = dt(o)
        return SymBool(B(SymBool(self.dbl) if not isinstance(self.dbl, bool) else self.dbl) == B(SymBool(o.dbl) if not isinstance(o.dbl, bool) else o.dbl))

    def __ne__(self, o):
        return ~(self == o)
    __hash__ = None

    def __call__(self, v=0):
        return v


F64 = DType("float64", True)
I32 = DType("int32", False)


def dt(x):
    if isinstance(x, DType):
        return x
    if x in (float, "float64", "d", "f8", "double", None):
        return F64
    if x in (int, "int32", "i4", "intc", "i"):
        return I32
    raise Unsupported("dtype %r" % (x,))


class Buf:
    """memory: the cells the library writes and the others, element type, layout"""

    def __init__(self, cov, unc, dbl=z3.BoolVal(True), cc=z3.BoolVal(True)):
        self.cov, self.unc, self.dbl, self.cc = cov, unc, dbl, cc


class Arr:
    def __init__(self, buf, shape, values=None):
        self.buf, self.shape, self.values = buf, tuple(shape), values

    @property
    def dtype(self): return DType("?", self.buf.dbl)
    @property
    def ndim(self): return len(self.shape)

    @property
    def size(self):
        p = 1
        for s in self.shape:
            p = p * s
        return p

    @property
    def flags(self):
        f = types.SimpleNamespace(c_contiguous=SymBool(self.buf.cc), contiguous=SymBool(self.buf.cc), writeable=True, owndata=True)
        Arr_flags = type("Flags", (), {"__getitem__": lambda s, k: f.c_contiguous if k in ("C_CONTIGUOUS", "C", "CONTIGUOUS") else True, "__getattr__": lambda s, k: getattr(f, k)})
        return Arr_flags()

    @property
    def ctypes(self): return ArrC(self)
    @property
    def T(self): raise Unsupported("transpose")

    def copy(self, order="C"): return Arr(Buf(self.buf.cov, self.buf.unc, self.buf.dbl, z3.BoolVal(True) if order == "C" else self.buf.cc), self.shape, self.values)

    def astype(self, t, order="K", copy=True, **k):
        d = dt(t)
        return Arr(Buf(self.buf.cov, self.buf.unc, z3.BoolVal(bool(d.dbl)), z3.BoolVal(True) if order == "C" else self.buf.cc), self.shape, self.values)

    def fill(self, v): self._set(v)

    def _val(self, v):
        if isinstance(v, Arr):
            return v.buf.cov, v.buf.unc
        if v == 0:
            return ZERO, ZERO
        if v != v:
            return NAN, NAN
        raise Unsupported("element value %r" % (v,))

    def _set(self, v): self.buf.cov, self.buf.unc = self._val(v)

    def _all(self, k):
        if k is Ellipsis or (isinstance(k, slice) and k == slice(None)) or (isinstance(k, tuple) and all(self._one(x) for x in k)):
            return
        raise Unsupported("index %r" % (k,))

    @staticmethod
    def _one(k): return k is Ellipsis or (isinstance(k, slice) and k == slice(None))

    def __setitem__(self, k, v):
        if self.values is not None:
            self.values[k] = v
            return
        self._all(k)
        self._set(v)

    def __getitem__(self, k):
        if self.values is not None:
            return self.values[k]
        self._all(k)
        return Arr(self.buf, self.shape)

    def _mul(self, v):
        if not (isinstance(v, (int, float)) and v == 0):
            if isinstance(v, (int, float)) and v == 1:
                return self.buf.cov, self.buf.unc
            raise Unsupported("array product")
        f = lambda x: z3.If(x == NAN, NAN, ZERO)
        return f(self.buf.cov), f(self.buf.unc)

    def __imul__(self, v):
        self.buf.cov, self.buf.unc = self._mul(v)
        return self

    def __mul__(self, v):
        c, u = self._mul(v)
        return Arr(Buf(c, u), self.shape)
    __rmul__ = __mul__

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        if len(s) == 1:  # flattening
            return Arr(self.buf, (self.size,))
        return Arr(self.buf, s)

    def ravel(self, *a): return Arr(self.buf, (self.size,))
    def flatten(self, *a): return self.copy().ravel()

    def tolist(self):
        if self.values is None:
            raise Unsupported("elements of an array")
        return list(self.values)

    def __iter__(self): return iter(self.tolist())
    @property
    def itemsize(self): return 8 if bool(SymBool(self.buf.dbl)) else 4
    @property
    def nbytes(self): return self.size * self.itemsize
    def view(self, *a): return Arr(self.buf, self.shape)
    def __len__(self): return int(SymInt(T(self.shape[0])))
    def __bool__(self): raise ValueError("truth value of an array is ambiguous")


class ArrC:
    def __init__(self, a): self.a = a
    def data_as(self, t): return Ptr(self.a)
    @property
    def data(self): return Ptr(self.a)
    @property
    def _as_parameter_(self): return Ptr(self.a)


class Ptr:
    def __init__(self, a): self.a = a


def np_new(v):
    def f(shape, dtype=None, order="C"):
        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        return Arr(Buf(v, v, z3.BoolVal(bool(dt(dtype).dbl))), shape)
    return f


def np_like(v):
    def f(a, dtype=None):
        return Arr(Buf(v, v, a.buf.dbl if dtype is None else z3.BoolVal(bool(dt(dtype).dbl))), a.shape)
    return f


def np_conv(order):
    def f(a, dtype=None, order=order, copy=True, **k):
        if isinstance(a, (list, tuple)):
            if all(isinstance(x, (int, float, SymInt, SymBool)) for x in a):
                return Arr(Buf(GARBAGE, GARBAGE, z3.BoolVal(bool(dt(dtype if dtype is not None else int).dbl))), (len(a),), list(a))
            raise Unsupported("array of %r" % (a,))
        d = a.buf.dbl if dtype is None else z3.BoolVal(bool(dt(dtype).dbl))
        return Arr(Buf(a.buf.cov, a.buf.unc, d, z3.BoolVal(True) if order == "C" else a.buf.cc), a.shape, a.values)
    return f


class StubModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("%s.%s" % (self.__name__, k))


def make_numpy():
    m = StubModule("numpy")
    m.float64 = m.double = m.float_ = F64
    m.int32 = m.intc = m.int_ = m.int64 = I32
    m.ndarray = Arr
    m.nan = float("nan")
    m.zeros, m.empty = np_new(ZERO), np_new(GARBAGE)
    m.zeros_like, m.empty_like = np_like(ZERO), np_like(GARBAGE)
    m.ascontiguousarray = np_conv("C")
    m.asarray = m.array = m.asanyarray = np_conv("K")
    m.dtype = dt
    m.shape = lambda a: a.shape

    def full(shape, v, dtype=None):
        a = m.zeros(shape, dtype)
        a.fill(v)
        return a
    m.full = full

    def prod(s, *a, **k):
        p = 1
        for x in s:
            p = p * x
        return p
    m.prod = prod

    def require(a, dtype=None, requirements=None):
        q = [requirements] if isinstance(requirements, str) else list(requirements or [])
        return np_conv("C" if any(x in ("C", "C_CONTIGUOUS", "CONTIGUOUS") for x in q) else "K")(a, dtype)
    m.require = require
    m.copyto = lambda d, v, **k: d._set(v)
    m.size = lambda a, axis=None: a.size if axis is None else a.shape[axis]
    m.ndim = lambda a: a.ndim
    m.ravel = lambda a, *k: a.ravel()
    m.copy = lambda a, order="K", **k: a.copy(order)
    m.isfortran = lambda a: ~a.flags.c_contiguous
    m.bool_ = m.bool8 = I32
    return m


# ------------------------------------------------------------------ ctypes
class CVal:
    def __init__(self, value=0): self.value = value
    def __bool__(self): return bool(self.value)


class CArray:
    def __init__(self, *v): self.v = list(v)
    def __getitem__(self, k): return self.v[k]
    def __setitem__(self, k, x): self.v[k] = x
    def __len__(self): return len(self.v)
    def __iter__(self): return iter(self.v)


class CType:
    def __init__(self, name): self.name = name
    def __call__(self, v=0): return CVal(v)

    def __mul__(self, n):
        n = int(n)
        def mk(*v):
            if len(v) > n:
                raise IndexError("invalid index")
            return CArray(*(list(v) + [0] * (n - len(v))))
        return mk
    __rmul__ = __mul__


class Ref:
    def __init__(self, o): self.o = o
    @property
    def contents(self): return self.o


def make_ctypes():
    m = StubModule("ctypes")
    for n in ("c_void_p", "c_int", "c_double", "c_size_t", "c_long", "c_int32", "c_int64", "c_bool", "c_uint"):
        setattr(m, n, CType(n))
    m.byref = lambda o, *a: Ref(o)
    m.pointer = lambda o: Ref(o)
    m.POINTER = lambda t: CType("ptr")
    m.cast = lambda p, t: p
    return m


# ------------------------------------------------------------------ the library
class Lib:
    def __init__(self):
        self.objs, self.nnew, self.ndel = {}, 0, 0

    def h(self, r):
        if not isinstance(r, Ref) or not isinstance(r.o, CVal) or r.o.value not in self.objs:
            raise Violation("the library is called with an invalid handle")
        return self.objs[r.o.value]

    def ints(self, a, n):
        if isinstance(a, Ptr):
            a = a.a
        if isinstance(a, Ref):
            a = a.o
        if isinstance(a, Arr):
            if a.values is None:
                raise Unsupported("integer array")
            a = a.values
        v = [T(x) for x in list(a)]
        if len(v) < n:
            raise Violation("the library reads past an integer array")
        return v[:n]

    def read(self, p, n, what):
        """content of an array of doubles, n elements"""
        if isinstance(p, Arr):
            p = Ptr(p)
        if not isinstance(p, Ptr):
            raise Violation("the library is called with an invalid pointer")
        ex().prove(T(p.a.size) >= n, "the library reads past " + what)
        b = p.a.buf
        return z3.If(z3.And(b.dbl, b.cc), b.cov, GARBAGE)

    def SgConserveInterp2D_new(self, r):
        self.nnew += 1
        r.o.value = 1000 + self.nnew
        self.objs[r.o.value] = {"src": None, "dst": None, "w": None}
        return 0

    def SgConserveInterp2D_del(self, r):
        self.h(r)
        del self.objs[r.o.value]
        self.ndel += 1
        return 0

    def grid(self, dims, coords):
        d = self.ints(dims, 2)
        c = coords.o if isinstance(coords, Ref) else coords
        c = list(c)
        if len(c) < 2:
            raise Violation("the library reads past the array of coordinates")
        return (self.read(c[0], d[0] * d[1], "the coordinates"), self.read(c[1], d[0] * d[1], "the coordinates"), d[0], d[1])

    def SgConserveInterp2D_setDstGrid(self, r, dims, coords):
        self.h(r)["dst"] = self.grid(dims, coords)
        return 0

    def SgConserveInterp2D_setSrcGrid(self, r, dims, periods, coords):
        p = self.ints(periods, 2)
        self.h(r)["src"] = self.grid(dims, coords) + (p[0], p[1])
        return 0

    def SgConserveInterp2D_computeWeights(self, r):
        o = self.h(r)
        o["w"] = o["src"] + o["dst"] if o["src"] and o["dst"] else None
        return 0

    def SgConserveInterp2D_apply(self, r, src, dst):
        o = self.h(r)
        if o["w"] is None:
            return 0
        w = o["w"]
        d = self.read(src, (w[2] - 1) * (w[3] - 1), "the source data")
        if isinstance(dst, Arr):
            dst = Ptr(dst)
        ex().prove(T(dst.a.size) >= (w[8] - 1) * (w[9] - 1), "the library writes past the destination data")
        b = dst.a.buf
        b.cov = z3.If(z3.And(b.dbl, b.cc), INTERP(*w, d), GARBAGE)
        return 0


class LibProxy:
    def __init__(self, lib): self._l, self._f = lib, {}

    def __getattr__(self, k):
        if not hasattr(Lib, k):
            raise Unsupported("library function " + k)
        if k not in self._f:
            class F:
                def __init__(s): s.argtypes = s.restype = None
                def __call__(s, *a): return getattr(self._l, k)(*a)
            self._f[k] = F()
        return self._f[k]


# ------------------------------------------------------------------ driver
OPS = ["setDst", "setSrc", "compute", "apply", "poke"]


class User:
    def __init__(self, obj): self.obj, self.src, self.dst, self.cur = obj, None, None, False


def load(path, lib):
    sg = types.ModuleType("sigrid")
    sg.so = LibProxy(lib)
    sys.modules["sigrid"], sys.modules["numpy"], sys.modules["ctypes"] = sg, make_numpy(), make_ctypes()
    m = types.ModuleType("conserveInterp2D")
    src = open(path).read()
    exec(compile(src, path, "exec"), m.__dict__)
    return m


def symarr(e, name, shape, log):
    tag = e.fresh(name + "_tag", 1, 4)
    dbl, cc = z3.Bool(name + "_double"), z3.Bool(name + "_contiguous")
    return Arr(Buf(tag, tag, dbl, cc), shape), tag


def drive(e, path, k, nobj, log):
    lib = Lib()
    saved = {n: sys.modules.get(n) for n in ("sigrid", "numpy", "ctypes")}
    try:
        m = load(path, lib)
        users = [User(m.ConserveInterp2D()) for _ in range(nobj)]
        results = []
        nsrc = 0
        for step in range(k):
            ops = OPS[:4] + (["poke"] if results else [])
            c = e.pick([True] * (len(ops) * nobj if nobj > 1 else len(ops)))
            u, op = (users[c % nobj], ops[c // nobj])
            log.append([op, c % nobj, step])
            if op in ("setDst", "setSrc"):
                n0, n1 = e.fresh("n0_%d" % step, 2, 5), e.fresh("n1_%d" % step, 2, 5)
                x, tx = symarr(e, "x_%d" % step, (SymInt(n0), SymInt(n1)), log)
                y, ty = symarr(e, "y_%d" % step, (SymInt(n0), SymInt(n1)), log)
                keep = (x.buf.cov, y.buf.cov)
                if op == "setDst":
                    u.obj.setDstGrid(x, y)
                    u.dst = (tx, ty, n0, n1)
                else:
                    p = [SymBool(z3.Bool("p_%d" % step)), False] if nsrc == 0 else [False, True]
                    nsrc += 1
                    u.obj.setSrcGrid(p, x, y)
                    u.src = (tx, ty, n0, n1, T(p[0]), T(p[1]))
                u.cur = False
                e.prove(z3.And(x.buf.cov == keep[0], y.buf.cov == keep[1]), "the coordinates are not modified")
            elif op == "compute":
                try:
                    u.obj.computeWeights()
                    raised = False
                except (Unsupported, Violation, Infeasible):
                    raise
                except Exception as x:
                    raised = True
                both = u.src is not None and u.dst is not None
                e.prove(raised != both, "computing weights raises an error if and only if a grid is missing")
                u.cur = u.cur or not raised
            elif op == "apply":
                if u.src is not None:
                    sh = (SymInt(u.src[2] - 1), SymInt(u.src[3] - 1))
                else:
                    sh = (SymInt(e.fresh("m0_%d" % step, 1, 4)), SymInt(e.fresh("m1_%d" % step, 1, 4)))
                a, ta = symarr(e, "d_%d" % step, sh, log)
                r = None
                try:
                    r = u.obj.apply(a)
                    raised = False
                except (Unsupported, Violation, Infeasible):
                    raise
                except Exception as x:
                    raised = True
                e.prove(a.buf.cov == ta, "the source data are not modified")
                if raised:
                    e.prove(not u.cur, "apply works when the weights are up to date")
                else:
                    if u.src is None or u.dst is None:
                        raise_violation(e, "apply without grids raises an error")
                    if not isinstance(r, Arr) or len(r.shape) != 2:
                        raise_violation(e, "apply returns an array")
                    e.prove(z3.And(T(r.shape[0]) == u.dst[2] - 1, T(r.shape[1]) == u.dst[3] - 1), "the result has the shape of the destination grid")
                    want = INTERP(*u.src, *u.dst, ta)
                    e.prove(z3.And(r.buf.cov == want, r.buf.unc == ZERO), "the result is the data interpolated with weights of the current grids")
                    results.append([r, want, ZERO])
            else:
                r = results[-1]
                r[0].buf.cov = r[0].buf.unc = NAN
                r[1] = r[2] = NAN
            for r in results:
                e.prove(z3.And(r[0].buf.cov == r[1], r[0].buf.unc == r[2]), "results returned earlier keep their values")
        e.stats["calls"] += k
        for u in users:
            u.obj = None
        del users, u
        if lib.nnew != nobj or lib.ndel != nobj:
            raise_violation(e, "the library object is created and released once")
    finally:
        for n, v in saved.items():
            if v is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = v


def raise_violation(e, msg):
    e.prove(False, msg)


def concrete(e, log, model):
    out = []
    val = lambda n, d: model.eval(z3.Int(n), model_completion=False).as_long() if z3.is_int_value(model.eval(z3.Int(n))) else d
    bl = lambda n: not z3.is_false(model.eval(z3.Bool(n)))
    for op, who, s in log:
        d = {"op": op, "obj": who}
        if op in ("setDst", "setSrc"):
            d.update(n0=val("n0_%d" % s, 3), n1=val("n1_%d" % s, 3), p=z3.is_true(model.eval(z3.Bool("p_%d" % s))))
            for c in "xy":
                d[c] = [val("%s_%d_tag" % (c, s), 1), bl("%s_%d_double" % (c, s)), bl("%s_%d_contiguous" % (c, s))]
        if op == "apply":
            d["d"] = [val("d_%d_tag" % s, 1), bl("d_%d_double" % s), bl("d_%d_contiguous" % s)]
            d["m"] = [val("m0_%d" % s, 2), val("m1_%d" % s, 2)]
        out.append(d)
    return out


def explore(path, k, nobj, start, deadline):
    stats = {"queries": 0, "seconds": 0.0, "asserts": 0, "trivial": 0, "unproved": 0, "calls": 0, "paths": 0, "limits": {}, "infeasible": 0}
    stack, viol, samples = [list(start)], [], []
    done = True
    while stack:
        if time.time() > deadline:
            done = False
            break
        e = Ex.cur = Ex(stack.pop(), stats)
        log = []
        try:
            drive(e, path, k, nobj, log)
            stats["paths"] += 1
            if stats["paths"] % 97 == 1 and e.check() == z3.sat:
                samples.append(concrete(e, log, e.s.model()))
        except Violation as v:
            stats["paths"] += 1
            if not hasattr(e, "model"):
                if e.check() == z3.sat:
                    e.model = e.s.model()
            if hasattr(e, "model") and len(viol) < 60:
                viol.append({"msg": str(v), "ops": concrete(e, log, e.model)})
        except Unsupported as u:
            stats["limits"][str(u)] = stats["limits"].get(str(u), 0) + 1
        except Infeasible:
            stats["infeasible"] += 1
        except RecursionError:
            stats["limits"]["recursion"] = stats["limits"].get("recursion", 0) + 1
        except Exception as x:  # the code itself fails where it should not
            stats["paths"] += 1
            if e.check() == z3.sat and len(viol) < 60:
                viol.append({"msg": "unexpected error %s: %s" % (type(x).__name__, x), "ops": concrete(e, log, e.s.model())})
        # alternatives below the forced start only
        stack += [a for a in e.alts if len(a) > len(start) or a[:len(start)] == list(start)]
        if len(viol) >= 40:
            done = False
            break
    stats["complete"] = done and not stats["limits"]
    return stats, viol, samples


def main():
    from multiprocessing import Pool
    path, k, nobj, budget = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4])
    dl = time.time() + budget
    n1 = 4 * nobj
    starts = [[a, b] for a in range(n1) for b in range(n1)] if nobj == 1 else [[a] for a in range(n1)]
    # the second call may also be a fork inside the first one: let the tree unfold below the first call
    starts = [[a] for a in range(n1)]
    with Pool(min(8, n1)) as p:
        res = p.starmap(explore, [(path, k, nobj, s, dl) for s in starts])
    print(json.dumps([{"stats": s, "violations": v, "samples": m} for s, v, m in res]))


if __name__ == "__main__":
    main()
