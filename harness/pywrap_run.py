#!/usr/bin/env python3
"""Runs a call sequence on the real Python wrapper, numpy, ctypes and shared library.

usage: pywrap_run.py LIBRARY WRAPPER.py SEQUENCE.json      exit 66: an assertion fails
"""
import sys, json, types, ctypes, gc
import numpy


def arr(kind, tag, n0, n1, spec):
    i, j = numpy.meshgrid(numpy.arange(n0), numpy.arange(n1), indexing="ij")
    t = spec[0]
    a = {"x": i * (t + 1) - t, "y": j * (t + 1) + 2 - t, "d": 1 + i * 3 + j * (t + 1) + t}[kind]
    a = a.astype(numpy.float64 if spec[1] else numpy.int64)
    return numpy.ascontiguousarray(a) if spec[2] else numpy.asfortranarray(a)


def fail(msg):
    print("SG_ASSERT_FAILED " + msg, flush=True)
    import os
    os._exit(66)


class Counted:
    def __init__(self, lib): self.lib, self.n = lib, {"new": 0, "del": 0}

    def __getattr__(self, k):
        f = getattr(self.lib, k)
        t = k.split("_")[-1]
        if t in self.n:
            def g(*a):
                self.n[t] += 1
                return f(*a)
            return g
        return f


def reference(lib, src, dst, data):
    D = ctypes.POINTER(ctypes.c_double)
    h = ctypes.c_void_p(0)
    lib.SgConserveInterp2D_new(ctypes.byref(h))
    keep = []

    def grid(x, y):
        x, y = [numpy.ascontiguousarray(q, numpy.float64) for q in (x, y)]
        keep.extend([x, y])
        return (ctypes.c_int * 2)(*x.shape), (D * 2)(x.ctypes.data_as(D), y.ctypes.data_as(D))
    d, c = grid(*dst)
    lib.SgConserveInterp2D_setDstGrid(ctypes.byref(h), d, c)
    s, c2 = grid(*src[:2])
    lib.SgConserveInterp2D_setSrcGrid(ctypes.byref(h), s, (ctypes.c_int * 2)(*src[2]), c2)
    lib.SgConserveInterp2D_computeWeights(ctypes.byref(h))
    data = numpy.ascontiguousarray(data, numpy.float64)
    r = numpy.zeros((d[0] - 1, d[1] - 1), numpy.float64)
    lib.SgConserveInterp2D_apply(ctypes.byref(h), data.ctypes.data_as(D), r.ctypes.data_as(D))
    lib.SgConserveInterp2D_del(ctypes.byref(h))
    return r


def same(a, b): return a.shape == b.shape and numpy.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)


def main():
    lib = ctypes.CDLL(sys.argv[1])
    sg = types.ModuleType("sigrid")
    sg.so = Counted(lib)
    sys.modules["sigrid"] = sg
    m = types.ModuleType("conserveInterp2D")
    exec(compile(open(sys.argv[2]).read(), sys.argv[2], "exec"), m.__dict__)
    seq = json.load(open(sys.argv[3]))
    nobj = 1 + max([o["obj"] for o in seq] + [0])
    U = [types.SimpleNamespace(obj=m.ConserveInterp2D(), src=None, dst=None, cur=False) for _ in range(nobj)]
    results, nsrc = [], 0
    for o in seq:
        u = U[o["obj"]]
        if o["op"] in ("setDst", "setSrc"):
            x, y = [arr(c, 0, o["n0"], o["n1"], o[c]) for c in "xy"]
            kx, ky = x.copy(), y.copy()
            if o["op"] == "setDst":
                u.obj.setDstGrid(x, y)
                u.dst = (x, y)
            else:
                p = [bool(o["p"]), False] if nsrc == 0 else [False, True]
                nsrc += 1
                u.obj.setSrcGrid(p, x, y)
                u.src = (x, y, [int(q) for q in p])
            u.cur = False
            if not (same(x, kx) and same(y, ky)):
                fail("the coordinates are not modified")
        elif o["op"] == "compute":
            try:
                u.obj.computeWeights()
                raised = False
            except Exception:
                raised = True
            if raised == (u.src is not None and u.dst is not None):
                fail("computing weights raises an error if and only if a grid is missing")
            u.cur = u.cur or not raised
        elif o["op"] == "apply":
            sh = (u.src[0].shape[0] - 1, u.src[0].shape[1] - 1) if u.src is not None else tuple(o["m"])
            a = arr("d", 0, sh[0], sh[1], o["d"])
            ka = a.copy()
            try:
                r = u.obj.apply(a)
                raised = False
            except Exception as x:
                raised = True
            if not same(a, ka):
                fail("the source data are not modified")
            if raised:
                if u.cur:
                    fail("apply works when the weights are up to date")
            else:
                if u.src is None or u.dst is None:
                    fail("apply without grids raises an error")
                want = reference(lib, u.src, u.dst, a)
                if not isinstance(r, numpy.ndarray) or r.shape != want.shape:
                    fail("the result has the shape of the destination grid")
                if not same(r, want):
                    fail("the result is the data interpolated with weights of the current grids")
                results.append((r, want))
        elif results:
            r = results[-1]
            r[0][...] = numpy.nan
            results[-1] = (r[0], r[0].copy())
        for r in results:
            if not same(r[0], r[1]):
                fail("results returned earlier keep their values")
    for u in U:
        u.obj = None
    del u
    gc.collect()
    if sg.so.n["new"] != nobj or sg.so.n["del"] != nobj:
        fail("the library object is created and released once")
    print("SG_OK")


main()
