#!/usr/bin/env python3
"""P28: the Python interface against the library it wraps.

Same command line and event protocol as the C++ drivers (see vh.cpp).  Every
case calls a Python-level function on numpy arrays and, through a binding of
its own (prototypes taken from the public headers), the library function on
identical arrays; exceptions, results and every byte of every array have to
agree.  Runs in a Python interpreter with the library built with the address
and undefined behaviour sanitizers."""
import os, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SO_DIR = os.path.join(ROOT, "build", "asan")
FAMILIES = {  # name: (quick, thorough, seconds per case)
    "visibility": (2600, 40000, 20), "tiled": (700, 12000, 20), "images": (900, 14000, 20),
    "fourier": (1200, 20000, 20), "swiftly": (1400, 24000, 20), "utils": (1700, 30000, 20),
    "gridders": (1200, 20000, 20), "wstack": (120, 1800, 60), "beams": (900, 14000, 20),
    "mem": (1500, 24000, 20), "sky": (500, 6000, 20), "objects": (260, 3000, 60), "leaks": (40, 400, 120),
    "threads": (200, 3000, 60), "first_use": (14, 120, 120), "exit": (8, 60, 120),
}


def interpreter():
    for p in ("/opt/vp/venv/bin/python", "/opt/veriftools/pyvenv/bin/python"):
        if os.path.exists(p):
            return p
    return sys.executable


def preload():
    import subprocess
    out = []
    for n in ("libasan.so", "libubsan.so", "libstdc++.so.6"):
        p = subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True).stdout.strip()
        if os.path.isabs(p):
            out.append(p)
    return ":".join(out)


if os.environ.get("P28_CHILD") != "1":
    if "--list" in sys.argv:
        for f, (q, t, s) in FAMILIES.items():
            print(f, t if "--thorough" in sys.argv else q, s)
        sys.exit(0)
    e = dict(os.environ)
    e.update(P28_CHILD="1", LD_PRELOAD=preload(), PYTHONPATH=os.path.join(REPO, "src"), SKA_SDP_FUNC_LIB_DIR=SO_DIR,
             PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
    py = interpreter()
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], e)

import collections, ctypes, gc, glob, hashlib, importlib, inspect, json, pkgutil, random, re, subprocess, threading, time
import numpy as np
import warnings
warnings.simplefilter("ignore")

# ------------------------------------------------------------------ own binding

I64 = ctypes.c_int64
CODES = {np.dtype(np.int8): 1, np.dtype(np.int32): 2, np.dtype(np.float32): 4, np.dtype(np.float64): 8,
         np.dtype(np.complex64): 36, np.dtype(np.complex128): 40}
F32, F64, C64, C128, INT, BYTE = np.float32, np.float64, np.complex64, np.complex128, np.int32, np.int8


class Library:
    """The library as its public headers declare it."""

    def __init__(self):
        self.lib = ctypes.CDLL(os.path.join(SO_DIR, "libska_sdp_func.so"))
        self.protos = {}
        for f in glob.glob(os.path.join(REPO, "src/ska-sdp-func/**/*.h"), recursive=True):
            t = open(f, errors="replace").read()
            t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
            t = re.sub(r"//[^\n]*", "", t)
            t = re.sub(r"^[ \t]*#(?:[^\n]*\\\n)*[^\n]*$", "", t, flags=re.M)
            for m in re.finditer(r"([A-Za-z_][\w\s\*]*?)\b(sdp_\w+)\s*\(([^()]*)\)\s*;", t):
                ret = " ".join(m.group(1).split())
                if ret.split()[0] in ("return", "typedef"):
                    continue
                args = [] if m.group(3).strip() in ("", "void") else [self.ctype(a) for a in m.group(3).split(",")]
                self.protos.setdefault(m.group(2), (self.ctype(ret + " x"), args))

    @staticmethod
    def ctype(a):
        if "*" in a or "[" in a or "&" in a:
            return ctypes.c_void_p
        w = [x for x in a.split() if x not in ("const", "extern", "static", "inline")]
        if w[0].startswith("sdp_"):
            return ctypes.c_int
        return {"void": None, "int": ctypes.c_int, "int32_t": ctypes.c_int32, "int64_t": I64, "float": ctypes.c_float,
                "double": ctypes.c_double, "size_t": ctypes.c_size_t, "char": ctypes.c_char}.get(w[0], ctypes.c_int)

    def call(self, name, args, status=True):
        """(result, status)"""
        ret, types = self.protos[name]
        f = self.lib[name]  # a new function object each time
        f.restype = ret
        st = ctypes.c_int(0)
        a = list(args) + ([ctypes.addressof(st)] if status else [])
        if len(a) != len(types):
            raise RuntimeError("%s takes %d arguments, not %d" % (name, len(types), len(a)))
        f.argtypes = types
        return f(*a), st.value


L = Library()


class Handle:
    def __init__(self, value, free):
        self.value, self.free = value, free

    def close(self):
        if self.value:
            L.call(self.free, [self.value], False)
        self.value = None

    def __del__(self):
        self.close()


# ----------------------------------------------------------------------- arrays

class Arr:
    """An array with a layout of its own inside a larger block of memory."""

    def __init__(self, rng=None, shape=(), dtype=F64, fill=None, out=False, layout=None):
        if rng is None:
            return
        self.dtype = np.dtype(dtype)
        n = self.dtype.itemsize
        shape = tuple(int(x) for x in shape)
        nd = len(shape)
        kind = layout or rng.choice(["C"] * 12 + ["F", "step", "step", "rev", "perm", "bcast" if not out else "C", "pad"])
        order = list(range(nd))
        step = [1] * nd
        if kind == "F":
            order.reverse()
        elif kind == "perm":
            rng.shuffle(order)
        st, size = [0] * nd, n
        for d in reversed(order):
            if kind == "step" and rng.random() < 0.6:
                size *= rng.randint(1, 3)
            if kind == "pad" and rng.random() < 0.6:
                size += n * rng.randint(0, 2)
            st[d] = size
            size *= max(shape[d], 1)
        off = 0
        for d in range(nd):
            if kind == "rev" and rng.random() < 0.6 and shape[d] > 0:
                off += st[d] * (shape[d] - 1)
                st[d] = -st[d]
            if kind == "bcast" and rng.random() < 0.4:
                st[d] = 0
        margin = 16 * rng.randint(0, 3)
        self.kind = kind if nd and kind != "C" else "C"
        self.shape, self.strides, self.offset = shape, tuple(st), margin + off
        self.base = np.frombuffer(bytearray(size + 2 * margin + 16), np.uint8).copy()
        self.base[:] = [(37 * i + 11) % 120 for i in range(self.base.size)]
        self.writeable = True
        self.own = self.kind == "C" and 0 not in shape and rng.random() < 0.3
        self.make_view()
        v = np.asarray(fill(shape) if callable(fill) else (0 if fill is None else fill))
        if self.view.size:
            self.view[...] = v.astype(self.dtype, casting="unsafe")

    def make_view(self):
        if self.own:  # an array of its own, not a view of another
            self.view = np.zeros(self.shape, self.dtype)
            old, self.base = self.base, np.ndarray((self.view.nbytes,), np.uint8, buffer=self.view.data if self.view.size else bytearray(1))
            if old.size == self.base.size:
                self.base[:] = old
            self.offset = 0
            self.strides = tuple(self.view.strides)
            self.view.flags.writeable = self.writeable
            return
        self.view = np.ndarray(self.shape, self.dtype, buffer=self.base, offset=self.offset, strides=self.strides)
        self.view.flags.writeable = self.writeable

    def clone(self):
        o = Arr()
        o.dtype, o.kind, o.shape, o.strides, o.offset = self.dtype, self.kind, self.shape, self.strides, self.offset
        o.base = self.base.copy()
        o.writeable, o.own = self.writeable, self.own
        o.make_view()
        return o

    def ro(self):
        self.writeable = False
        self.view.flags.writeable = False

    def mem(self):
        nd = len(self.shape)
        a, b = (I64 * max(nd, 1))(*self.shape), (I64 * max(nd, 1))(*self.strides)
        ptr = self.base.ctypes.data + self.offset
        h, st = L.call("sdp_mem_create_wrapper", [ptr, CODES[self.dtype], 0, nd, ctypes.addressof(a), ctypes.addressof(b)])
        h = Handle(h, "sdp_mem_free")
        L.call("sdp_mem_set_read_only", [h.value, 0 if self.writeable else 1], False)
        return h, st

    def text(self):
        return "%s%s%s%s" % (self.dtype.name, list(self.shape), self.kind, "" if self.writeable else "ro")


class Void:  # no array at all
    view = None
    writeable = True

    def clone(self):
        return self

    def mem(self):
        h, st = L.call("sdp_mem_create_wrapper", [None, 0, 0, 0, None, None])
        return Handle(h, "sdp_mem_free"), st

    def text(self):
        return "None"


class Bad:  # something that is not a supported array
    def __init__(self, view):
        self.view = view

    def clone(self):
        return self

    def text(self):
        return type(self.view).__name__ + str(getattr(self.view, "dtype", ""))


class Ref:  # an int passed by reference
    def __init__(self, value):
        self.value = value

    def text(self):
        return "&int"


class Pair:
    """An object of the Python interface and its twin in the library."""

    def __init__(self, py, c, desc):
        self.py, self.c, self.desc = py, c, desc

    def text(self):
        return self.desc


class Fail(Exception):
    pass


class Skip(Exception):
    pass


def P(module):
    return importlib.import_module("ska_sdp_func." + module)


def cerror():
    return P("utility").CError


def code_of(exc):
    m = re.search(r"Error (-?\d+)", str(exc))
    return int(m.group(1)) if m else None


def same(a, b):
    """Equal, with NaN equal to itself."""
    if isinstance(a, (tuple, list)) or hasattr(a, "_length_"):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


EV = collections.Counter()


class Call:
    """One call of the interface, and what it stands for."""

    def __init__(self, label, fn, args, cname, cargs, ret=None, touched=(), result=None, status=True, names=None, optional=0):
        self.label, self.fn, self.args, self.cname, self.cargs = label, fn, args, cname, cargs
        self.ret, self.touched, self.result, self.status = ret, touched, result, status
        self.optional = optional
        self.loose = False  # a refusal by Python itself is fine
        self.unsupported = False
        self.expect_python_error = None
        self.before = None
        self.needed = None  # None stands for something else here
        self.allowed = None  # which defects may be introduced
        self.hidden = None  # an array only the library call is given

    def arrays(self):
        out = []
        for a in list(self.args) + list(self.cargs):
            if isinstance(a, (Arr, Void, Bad)) and not any(a is b for b in out):
                out.append(a)
        return out

    def replace(self, old, new):
        self.args = [new if a is old else a for a in self.args]
        self.cargs = [new if a is old else a for a in self.cargs]
        self.touched = [new if a is old else a for a in self.touched]
        if self.result is old:
            self.result = new

    def mutate(self, rng):
        """Make the call a bad one (sometimes)."""
        if rng.random() < 0.55:
            return ""
        arrs = [a for a in self.arrays() if isinstance(a, Arr) and any(a is x for x in self.args)]
        if not arrs:
            return ""
        a = rng.choice(arrs)
        what = rng.choice(self.allowed or ["dtype", "dtype", "ndim", "shape", "shape", "ro", "ro", "none", "bad", "all_ro"])
        vals = lambda s: rng.choice([0, 1, 2])
        lay = "C" if self.allowed else None
        if what == "dtype":
            b = Arr(rng, a.shape, rng.choice([x for x in CODES if x != a.dtype]), vals, out=True, layout=lay)
        elif what == "ndim":
            b = Arr(rng, rng.choice([a.shape + (1,), (1,) + a.shape, a.shape[:-1], a.shape[1:]]), a.dtype, vals, out=True)
        elif what == "shape":
            s = list(a.shape)
            if not s:
                return ""
            d = rng.randrange(len(s))
            s[d] = rng.choice([max(0, s[d] - 1), s[d] + 1, 0])
            b = Arr(rng, s, a.dtype, vals, out=True)
        elif what == "ro":
            a.ro()
            return what
        elif what == "all_ro":
            for x in arrs:
                x.ro()
            return what
        elif what == "none":
            if a is self.needed:
                return ""
            b = Void()
            self.loose = True
        else:
            s = a.shape
            b = Bad(rng.choice([lambda: np.zeros(s, np.int64), lambda: np.zeros(s, np.float16), lambda: np.zeros(s, bool),
                                lambda: np.zeros(s, ">f8"), lambda: np.zeros(s, ">c8"), lambda: np.zeros(s, np.uint8),
                                lambda: np.zeros(s, np.uint32), lambda: np.zeros(s, [("x", "f4"), ("y", "f4")]),
                                lambda: np.zeros(s, np.longdouble), lambda: np.zeros(s, object), lambda: np.zeros(s).tolist(),
                                lambda: "abc", lambda: 3.5, lambda: 7, lambda: memoryview(bytes(64)), lambda: np.zeros(s, "S4"),
                                lambda: np.zeros(s, "m8[s]")])())
            self.unsupported = True
        if any(a is t for t in self.touched):
            self.loose = True
        self.replace(a, b)
        return what

    def prepare(self):
        """Twins of the arrays for the library."""
        self.twins = {id(a): a.clone() for a in self.arrays()}
        self.before = {id(a): a.base.copy() for a in self.arrays() if isinstance(a, Arr)}

    def run_python(self, rng):
        py = [a.view if isinstance(a, (Arr, Void, Bad)) else a.py if isinstance(a, Pair) else a for a in self.args]
        self.refs = {}
        for j, a in enumerate(py):
            if isinstance(a, Ref):
                self.refs[j] = py[j] = ctypes.c_int(a.value)
        kw = {}
        if rng.random() < 0.4:
            names = list(inspect.signature(self.fn).parameters)
            k = rng.randint(0, len(py))
            for j in range(k, len(py)):
                kw[names[j]] = py[j]
            py = py[:k]
        self.kw = len(kw)
        try:
            self.out, self.exc = self.fn(*py, **kw), None
        except Exception as e:  # noqa: judged below
            self.out, self.exc = None, e

    def run_library(self):
        hs, mems, st = [], {}, 0
        for a in self.cargs:
            if isinstance(a, (Arr, Void)) and id(a) not in mems:
                h, s = self.twins[id(a)].mem()
                hs.append(h)
                mems[id(a)] = h.value
                st = st or s
        self.crefs = [ctypes.c_int(a.value) if isinstance(a, Ref) else None for a in self.cargs]
        c = [mems[id(a)] if isinstance(a, (Arr, Void)) else a.c.value if isinstance(a, Pair) else
             ctypes.addressof(r) if r is not None else a for a, r in zip(self.cargs, self.crefs)]
        self.cret, self.cst = (None, st) if st else L.call(self.cname, c, self.status)
        for h in hs:
            h.close()

    def judge(self):
        CError = cerror()
        if self.exc is not None and not isinstance(self.exc, CError):
            # Refused by the interface itself: nothing may have happened.
            ok = self.unsupported and isinstance(self.exc, TypeError)
            ok = ok or (self.loose and isinstance(self.exc, (TypeError, AttributeError, IndexError, ValueError, RuntimeError)))
            ok = ok or (self.expect_python_error and isinstance(self.exc, self.expect_python_error))
            if not ok:
                raise Fail("exception:" + type(self.exc).__name__, "unexpected %s: %s" % (type(self.exc).__name__, str(self.exc)[:300]))
            for a in self.arrays():
                if isinstance(a, Arr) and not np.array_equal(a.base, self.before[id(a)]):
                    raise Fail("refused-but-changed", "arrays changed by a call that raised %s" % type(self.exc).__name__)
            EV["refused_by_interface"] += 1
            return
        if self.unsupported:
            raise Fail("accepted", "unsupported argument accepted")
        if self.expect_python_error:
            raise Fail("no-exception", "inconsistent arguments accepted")
        self.run_library()
        if self.cst and self.exc is None:
            raise Fail("status-lost", "the library reports status %d, no exception" % self.cst)
        if not self.cst and self.exc is not None:
            raise Fail("exception:CError", "%s, but the library call succeeds" % self.exc)
        if self.cst:
            EV["errors_raised"] += 1
            if code_of(self.exc) is not None and code_of(self.exc) != self.cst:
                raise Fail("wrong-status", "%s for status %d" % (self.exc, self.cst))
        for j, a in enumerate(self.arrays()):
            if isinstance(a, Arr) and a is not self.hidden:
                b = self.twins[id(a)]
                if not np.array_equal(a.base, b.base):
                    k = int(np.argmax(a.base != b.base))
                    raise Fail("contents", "array %d (%s) differs from the library call's at byte %d of %d (%s)" % (
                        j, a.text(), k, a.base.size, "status %d" % self.cst))
                if not a.writeable and not np.array_equal(a.base, self.before[id(a)]):
                    raise Fail("read-only-changed", "read-only array %d (%s) changed" % (j, a.text()))
                EV["arrays_compared"] += 1
                EV["bytes_compared"] += a.base.size
        if not self.cst:
            EV["calls_succeeded"] += 1
            if self.ret == "value" and not same(self.out, self.cret):
                raise Fail("result", "returned %r, the library %r" % (self.out, self.cret))
            if self.ret == "array" and self.out is not self.result.view:
                raise Fail("result", "did not return the array it was given")
            if callable(self.ret):
                self.ret(self)
            for a, r in zip(self.cargs, self.crefs):
                if isinstance(a, Ref):
                    v = [x.value for x in self.refs.values()] or [x.value for x in []]
                    if v and v[0] != r.value:
                        raise Fail("result", "stored %d, the library %d" % (v[0], r.value))

    def text(self):
        return "%s(%s)" % (self.label, ", ".join(a.text() if hasattr(a, "text") else repr(a) for a in self.args))


Fail.__init__ = lambda self, label, msg: (Exception.__init__(self, msg), setattr(self, "label", label), None)[-1]


# --------------------------------------------------------------------- the calls

def U(rng, lo=-1.0, hi=1.0):
    g = np.random.default_rng(rng.getrandbits(60))
    return lambda s: g.uniform(lo, hi, s)


def Z(rng):
    g = np.random.default_rng(rng.getrandbits(60))
    return lambda s: g.uniform(-1, 1, s) + 1j * g.uniform(-1, 1, s)


def N(rng, lo, hi):
    g = np.random.default_rng(rng.getrandbits(60))
    return lambda s: g.integers(lo, hi + 1, s)


GENS = collections.defaultdict(list)


def gen(family):
    def w(f):
        GENS[family].append(f)
        return f
    return w


@gen("visibility")
def dft(r):
    v01 = r.random() < 0.5
    s, p, t, b, c, dbl = r.randint(1, 4), r.choice([1, 4]), r.randint(1, 4), r.randint(1, 5), r.randint(1, 4), r.random() < 0.5
    d = Arr(r, (s, 3), F64, U(r, -.3, .3)); f = Arr(r, (s, c, p), C128, Z(r)); v = Arr(r, (t, b, c, p), C128 if dbl else C64, out=True)
    uvw = Arr(r, (t, b, 3) if v01 else (t, b, c, 3), F64, U(r, -100, 100))
    m = P("visibility.dft")
    if v01:
        a = [d, f, uvw, 1e8, 1e6, v]
        return Call("dft_point_v01", m.dft_point_v01, a, "sdp_dft_point_v01", a)
    a = [d, f, uvw, v]
    return Call("dft_point_v00", m.dft_point_v00, a, "sdp_dft_point_v00", a)


def sky(r):
    a = (r.choice(["icrs", "icrs", "icrs", "altaz", ""]), r.uniform(0, 6.3), r.uniform(-1.5, 1.5), r.choice([0.0, r.uniform(-1, 1)]))
    h, _ = L.call("sdp_sky_coord_create", [ctypes.cast(ctypes.c_char_p(a[0].encode()), ctypes.c_void_p)] + list(a[1:]), False)
    return Pair(P("utility").SkyCoord(*a), Handle(h, "sdp_sky_coord_free"), "SkyCoord(%s)" % (a,))


@gen("visibility")
def rotate(r):
    m = P("visibility.phase_rotate")
    t, b, c, p, dbl = r.randint(1, 4), r.randint(1, 6), r.randint(1, 4), r.choice([1, 4]), r.random() < 0.5
    uvw = Arr(r, (t, b, 3), F64 if dbl else F32, U(r, -500, 500))
    x, y = sky(r), sky(r)
    if r.random() < 0.5:
        o = Arr(r, (t, b, 3), uvw.dtype, out=True)
        a = [x, y, uvw, o]
        return Call("phase_rotate_uvw", m.phase_rotate_uvw, a, "sdp_phase_rotate_uvw", a)
    v = Arr(r, (t, b, c, p), C128 if dbl else C64, Z(r)); o = Arr(r, (t, b, c, p), v.dtype, out=True)
    a = [x, y, 1e8, 1e6, uvw, v, o]
    return Call("phase_rotate_vis", m.phase_rotate_vis, a, "sdp_phase_rotate_vis", a)


@gen("visibility")
def flagger(r):
    t, b, c, p = r.randint(1, 10), r.randint(1, 3), r.randint(1, 10), r.randint(1, 4)
    v = Arr(r, (t, b, c, p), r.choice([C64, C128]), Z(r)); f = Arr(r, (t, b, c, p), INT, N(r, 0, 1), out=True)
    a = [v, f, r.uniform(0, 1), r.uniform(1, 4), r.uniform(1, 4), r.uniform(1, 4), r.randint(0, c), r.randint(0, 4), r.randint(0, 6)]
    return Call("flagger_dynamic_threshold", P("visibility.flagger").flagger_dynamic_threshold, a, "sdp_flagger_dynamic_threshold", a)


@gen("visibility")
def weights(r):
    m = P("visibility.weighting")
    t, b, c, p, g, T = r.randint(1, 4), r.randint(1, 6), r.randint(1, 4), r.choice([1, 2, 4]), r.randint(2, 10), r.choice([F32, F64])
    uvw = Arr(r, (t, b, 3), F64, U(r, -30, 30)); f = Arr(r, (c,), F64, U(r, 1e8, 2e8)); grid = Arr(r, (g, g, p), T, U(r, 0, 1e-9), out=True)
    i = Arr(r, (t, b, c, p), T, U(r, .1, 2)); o = Arr(r, (t, b, c, p), T, out=True)
    mx = r.choice([r.uniform(5, 30)] * 6 + [0.0, -1.0, float("nan")])
    if r.random() < 0.5:
        a = [uvw, f, mx, r.uniform(-2, 2), grid, i, o]
        return Call("briggs_weights", m.briggs_weights, a, "sdp_weighting_briggs", a)
    a = [uvw, f, mx, grid, i, o]
    return Call("uniform_weights", m.uniform_weights, a, "sdp_weighting_uniform", a)


class Pure(Call):
    """A function with no counterpart in the library: an independent formula."""

    def __init__(self, label, fn, args, expected, tol):
        Call.__init__(self, label, fn, args, None, [])
        self.expected, self.tol = expected, tol

    def mutate(self, rng):
        return ""

    def judge(self):
        if self.exc is not None:
            raise Fail("exception:" + type(self.exc).__name__, str(self.exc))
        got = np.asarray(self.out, float)
        want = np.asarray(self.expected, float)
        if got.shape != want.shape or not np.allclose(got, want, rtol=self.tol, atol=0):
            raise Fail("result", "returned %r, expected %r" % (self.out, self.expected))
        for a in self.arrays():
            if not np.array_equal(a.base, self.before[id(a)]):
                raise Fail("input-changed", a.text())
        EV["formulas_checked"] += 1


@gen("visibility")
def uv_range(r):
    T = r.choice([F32, F64])
    e = [r.uniform(1, 1000), r.uniform(1, 1000), r.uniform(1, 1000)]
    uvw = Arr(r, (r.randint(1, 4), r.randint(1, 6), 3), T, lambda s: U(r, -1, 1)(s) * e)
    f = Arr(r, (r.randint(1, 4),), F64, lambda s: np.sort(U(r, 1e8, 2e8)(s)))
    want = max(abs(float(x)) for x in uvw.view[:, :, :2].ravel()) * max(float(x) for x in f.view) / 299792458.0
    return Pure("get_uv_range", P("visibility.weighting").get_uv_range, [uvw, f], want, 1e-6 if T is F32 else 1e-12)


@gen("gridders")
def w_range(r):
    T = r.choice([F32, F64])
    uvw = Arr(r, (r.randint(1, 9), 3), T, U(r, -100, 100))
    f = Arr(r, (r.randint(1, 4),), T, lambda s: np.sort(U(r, 1e8, 2e8)(s)))
    w = [abs(float(x)) for x in uvw.view[:, 2]]
    want = [min(w) * float(f.view[0]) / 299792458.0, max(w) * float(f.view[-1]) / 299792458.0]
    return Pure("get_w_range", P("grid_data.gridder_uvw_es_fft").GridderUvwEsFft.get_w_range, [uvw, f], want, 1e-6 if T is F32 else 1e-12)


def tiled(r):
    q = {"dbl": r.random() < 0.5}
    q["t"], q["b"], q["c"], q["g"], q["tu"], q["tv"], q["s"] = (r.randint(1, 4), r.randint(1, 6), r.randint(1, 4), r.randint(4, 60),
                                                             r.randint(1, 20), r.randint(1, 20), r.randint(0, 3))
    q["nt"] = -(-q["g"] // q["tu"]) * -(-q["g"] // q["tv"])
    q["T"], q["C"] = (F64, C128) if q["dbl"] else (F32, C64)
    q["uvw"] = Arr(r, (q["t"], q["b"], 3), q["T"], U(r, -500, 500), layout="C"); q["f"] = Arr(r, (q["c"],), q["T"], U(r, 1e8, 2e8), layout="C")
    q["cell"] = r.uniform(.2, 1.2) / 250
    if r.random() < 0.1:
        q[r.choice(["g", "tu", "tv"])] = 0
    return q


def offsets(q):
    """Tile offsets of these coordinates and the number of records."""
    r = random.Random(1)
    mk = lambda s, T: Arr(r, s, T, 0, layout="C")
    a = [q["uvw"].clone(), q["f"].clone(), mk((q["t"], q["b"], q["c"], 1), q["C"])]
    o = [mk((q["nt"] + 1,), INT), mk((q["nt"],), INT), mk((1,), INT)]
    n = ctypes.c_int(0)
    hs = [x.mem()[0] for x in a + o]
    _, st = L.call("sdp_count_and_prefix_sum", [h.value for h in hs[:3]] + [q["g"], q["tu"], q["tv"], q["cell"], q["s"], ctypes.addressof(n)] + [h.value for h in hs[3:]])
    for h in hs:
        h.close()
    if st:
        return np.zeros(q["nt"] + 1, int), 0
    return o[0].view.copy(), n.value


@gen("tiled")
def count(r):
    q = tiled(r)
    v = Arr(r, (q["t"], q["b"], q["c"], 1), q["C"], Z(r)); o = [Arr(r, (n,), INT, 0, out=True) for n in (q["nt"] + 1, q["nt"], 1)]
    a = [q["uvw"], q["f"], v, q["g"], q["tu"], q["tv"], q["cell"], q["s"], Ref(r.choice([0, 0, 5])), o[0], o[1], o[2]]
    return Call("count_and_prefix_sum", P("visibility.tiled_functions").count_and_prefix_sum, a, "sdp_count_and_prefix_sum", a)


@gen("tiled")
def bucket(r):
    q = tiled(r); off, n = offsets(q); s = (q["t"], q["b"], q["c"], 1)
    a = [q["uvw"], q["f"], Arr(r, s, q["C"], Z(r)), Arr(r, s, q["T"], U(r, .1, 2)), q["g"], q["tu"], q["tv"], q["cell"], q["s"],
         Arr(r, (n,), q["T"], out=True), Arr(r, (n,), q["T"], out=True), Arr(r, (n,), q["T"], out=True), Arr(r, (n,), INT, 0, out=True),
         Arr(r, (n,), q["C"], out=True), Arr(r, (q["nt"] + 1,), INT, lambda s: off, out=True)]
    return Call("bucket_sort", P("visibility.tiled_functions").bucket_sort, a, "sdp_bucket_sort", a)


@gen("tiled")
def indexing(r):
    q = tiled(r); off, n = offsets(q)
    a = [q["uvw"], q["f"], q["g"], q["tu"], q["tv"], q["cell"], q["s"], q["c"], q["b"], q["t"],
         Arr(r, (n,), INT, 0, out=True), Arr(r, (n,), q["T"], out=True), Arr(r, (n,), q["T"], out=True), Arr(r, (n,), INT, 0, out=True),
         Arr(r, (q["nt"] + 1,), INT, lambda s: off, out=True)]
    return Call("tiled_indexing", P("visibility.tiled_functions").tiled_indexing, a, "sdp_tiled_indexing", a)


def sorted_records(q, n, off):
    """What the library itself sorts for these coordinates."""
    r = random.Random(1)
    mk = lambda s, T: Arr(r, s, T, 0, layout="C")
    o = [mk((n,), INT), mk((n,), q["T"]), mk((n,), q["T"]), mk((n,), INT), mk((q["nt"] + 1,), INT)]
    o[4].view[...] = off
    ins = [q["uvw"].clone(), q["f"].clone()]
    hs = [x.mem()[0] for x in ins + o]
    L.call("sdp_tiled_indexing", [hs[0].value, hs[1].value, q["g"], q["tu"], q["tv"], q["cell"], q["s"], q["c"], q["b"], q["t"]] + [h.value for h in hs[2:]])
    for h in hs:
        h.close()
    return [x.view.copy() for x in o[:4]]


@gen("tiled")
def opt_weights(r):
    q = tiled(r); q["uvw"] = Arr(r, q["uvw"].shape, q["T"], U(r, -500, 500), layout="C"); off, n = offsets(q)
    if q["g"] == 0 or q["tu"] == 0 or q["tv"] == 0 or n == 0:
        raise Skip()
    tile, uu, vv, idx = sorted_records(q, n, off)
    cnt = np.diff(off)
    s = (q["t"], q["b"], q["c"], 1)
    A = lambda T, v, out=False: Arr(r, np.shape(v), T, lambda s: v, out=out, layout=None if r.random() < .3 else "C")
    m = P("visibility.opt_weighting")
    rest = [A(INT, off), A(INT, cnt), Arr(r, s, q["T"], out=True)]
    if r.random() < 0.5:
        a = [q["uvw"], q["f"], Arr(r, s, q["C"], Z(r)), Arr(r, s, q["T"], U(r, .1, 2)), r.uniform(-2, 2), q["g"], q["s"], A(q["T"], uu), A(q["T"], vv),
             A(q["T"], np.ones(n)), A(INT, tile)] + rest
        return Call("optimized_weighting", m.optimized_weighting, a, "sdp_optimized_weighting", a)
    a = [q["uvw"], Arr(r, s, q["C"], Z(r)), Arr(r, s, q["T"], U(r, .1, 2)), r.uniform(-2, 2), q["g"], q["cell"], q["s"], Ref(n), A(INT, tile),
         A(q["T"], uu), A(q["T"], vv), A(INT, idx)] + rest
    return Call("optimised_indexed_weighting", m.optimised_indexed_weighting, a, "sdp_optimised_indexed_weighting", a)


@gen("images")
def clean(r):
    ms = r.random() < 0.5
    T, n, sg = r.choice([F32, F64]), r.randint(2, 14), r.uniform(.5, 2)
    x = np.arange(2 * n) - n
    d = Arr(r, (n, n), T, U(r, -.1, 1)); p = Arr(r, (2 * n, 2 * n), T, lambda s: np.exp(-(x[:, None] ** 2 + x[None] ** 2) / 2 / sg ** 2))
    cb = Arr(r, (4,), T, [r.uniform(.5, 2), r.uniform(.5, 2), r.uniform(-90, 90), 2 * n])
    o = [Arr(r, (n, n), T, out=True) for _ in range(3)]
    m = P("clean")
    if ms:
        sc = Arr(r, (r.randint(1, 3),), INT, lambda s: 3 * np.arange(s[0]))
        a = [d, p, cb, sc, r.uniform(.05, .6), r.choice([r.uniform(.001, .1), r.uniform(.1, 1), 2.5]), r.choice([r.randint(0, 12)] * 4 + [r.randint(13, 300)])] + o
        return Call("ms_clean_cornwell", m.ms_clean_cornwell, a, "sdp_ms_clean_cornwell", a)
    a = [d, p, cb, r.uniform(.05, .6), r.choice([r.uniform(.001, .1), r.uniform(.1, 1), 2.5]), r.choice([r.randint(0, 12)] * 4 + [r.randint(13, 300)])] + o
    return Call("hogbom_clean", m.hogbom_clean, a, "sdp_hogbom_clean", a)


@gen("images")
def convolve(r):
    T, a, b = r.choice([C64, C128]), r.randint(1, 16), r.randint(1, 16)
    x = [Arr(r, (a, a), T, Z(r)), Arr(r, (b, b), T, Z(r)), Arr(r, (a, a), T, out=True)]
    return Call("fft_convolution", P("numeric_functions").fft_convolution, x, "sdp_fft_convolution", x)


@gen("images")
def vector(r):
    T, n = r.choice([F32, F64]), r.randint(1, 40)
    x = [Arr(r, (n,), T, U(r), layout="C"), Arr(r, (n,), T, U(r), layout="C"), Arr(r, (n,), T, out=True, layout="C")]
    c = Call("vector_add", P("examples").vector_add, x, "sdp_vector_add", x)
    c.allowed = ["dtype", "ro", "all_ro", "none", "bad"]  # strided storage: see P31
    return c


def pair(label, cls, args, create, cargs, free):
    """Construct on both sides; None if both refuse."""
    hs = []
    c = []
    for a in cargs:
        if isinstance(a, (Arr, Void)):
            h, _ = a.mem()
            hs.append(h)
            a = h.value
        c.append(a)
    h, st = L.call(create, c)
    for x in hs:
        x.close()
    h = Handle(h, free)
    try:
        py = cls(*[a.view if isinstance(a, (Arr, Void, Bad)) else a for a in args])
    except cerror() as e:
        if not st:
            raise Fail("exception:CError", "%s: %s, but the library creates it" % (label, e))
        if code_of(e) is not None and code_of(e) != st:
            raise Fail("wrong-status", "%s for status %d" % (e, st))
        EV["errors_raised"] += 1
        return None
    except RuntimeError:
        if h.value:
            raise Fail("exception:RuntimeError", label + ": the library creates it")
        return None
    if st or not h.value:
        raise Fail("status-lost", "%s: the library reports status %d, no exception" % (label, st))
    EV["objects_created"] += 1
    return Pair(py, h, label + str(tuple(a.text() if hasattr(a, "text") else a for a in args)))


def fft_plan(r, shape=None, nd=None, T=None):
    nd = nd or r.randint(1, 2)
    T = T or r.choice([C64, C128])
    if shape is None:
        shape = ([r.randint(1, 4)] if r.random() < .3 else []) + [r.randint(1, 40 if nd == 1 else 12) for _ in range(nd)]
    # Occasionally something that cannot be transformed.
    T2 = r.choice([T] * 8 + [C64, C128, F64])
    s2 = shape if r.random() < .92 else shape + [1]
    dims = r.choice([nd] * 12 + [0, 3, -1])
    fw = r.choice([0, 1, True, False])
    a = [Arr(r, shape, T, Z(r), layout="C"), Arr(r, s2, T2, out=True, layout="C"), dims, fw]
    return pair("Fft", P("fourier_transforms").Fft, a, "sdp_fft_create", a, "sdp_fft_free"), shape, nd, T


@gen("fourier")
def fft(r):
    p, shape, nd, T = fft_plan(r)
    if p is None:
        raise Skip()
    x = [p, Arr(r, shape, T, Z(r)), Arr(r, shape, T, out=True)]
    return Call("Fft.exec", P("fourier_transforms").Fft.exec, x, "sdp_fft_exec", x)


@gen("fourier")
def padded(r):
    a = [r.randint(1, 5000), r.uniform(1, 3)]
    return Call("padded_fft_size", P("fourier_transforms").padded_fft_size, a, "sdp_fft_padded_size", a, ret="value", status=False)


def swiftly_plan(r):
    while True:
        x, y, m = r.randint(1, 5), r.randint(1, 5), r.randint(1, 8)
        N_ = x * y * m
        if (N_ // x) % 2 == 0 and (N_ // y) % 2 == 0:
            break
    q = {"N": N_, "yN": N_ // x, "xM": N_ // y, "m": m, "Nx": x, "Ny": y, "W": r.uniform(1, 12)}
    a = [q["N"] + (r.random() < .05), q["yN"], q["xM"] + (r.random() < .03), q["W"]]
    q["p"] = pair("Swiftly", P("fourier_transforms.swiftly").Swiftly, a, "sdp_swiftly_create", a, "sdp_swiftly_free")
    if q["p"] is None:
        raise Skip()
    s = q["p"].py
    want = (a[0], a[1], a[2], a[2] * a[1] / a[0], a[3])
    if not same((s.image_size, s.facet_size, s.subgrid_size, s.contribution_size, s.pswf_parameter), want):
        raise Fail("properties", "Swiftly properties differ from what it was created with")
    return q


SW = [("prepare_facet", "fs", "yN", "f"), ("extract_from_facet", "yN", "m", "s"), ("add_to_subgrid", "m", "xM", "f"), ("finish_subgrid", "xM", "sa", "s"),
      ("extract_from_subgrid", "xM", "m", "f"), ("add_to_facet", "m", "yN", "s"), ("finish_facet", "yN", "fs", "f"),
      ("finish_subgrid_inplace", "xM", None, "s"), ("prepare_subgrid_inplace", "xM", None, "s"),
      ("finish_subgrid_inplace_2d", "xM", None, "s2"), ("prepare_subgrid_inplace_2d", "xM", None, "s2"),
      ("add_to_subgrid_2d", "m", "xM", "f2"), ("extract_from_subgrid_2d", "xM", "m", "f2")]


@gen("swiftly")
def swiftly(r):
    q = swiftly_plan(r)
    name, i, o, off = r.choice(SW)
    q["fs"], q["sa"] = r.randint(1, q["yN"]), r.randint(1, q["xM"])
    k = q["Ny"] if off[0] == "f" else q["Nx"]
    n = r.randint(1, 4)
    sh = lambda w: (q[w], q[w]) if off[-1] == "2" else (n, q[w])
    a = [q["p"], Arr(r, sh(i), C128, Z(r), out=True)]
    if o:
        a.append(Arr(r, sh(o), C128, Z(r), out=True))
    far = r.choice([0] * 5 + [r.randint(-2 ** 40, 2 ** 40)])
    a += [(r.randint(-q["N"], q["N"]) + far) * k for _ in range(2 if off[-1] == "2" else 1)]
    def nothing(c):
        if c.out is not None:
            raise Fail("result", "returned %r" % (c.out,))
    return Call("Swiftly." + name, getattr(P("fourier_transforms.swiftly").Swiftly, name), a, "sdp_swiftly_" + name, a, ret=nothing)


def rows(r):
    return r.randint(1, 12), r.randint(1, 5), r.uniform(1e8, 2e8), r.choice([0.0, 1e6, r.uniform(1e5, 1e7)])


def channels(r, n, c):
    a = N(r, 0, c)((n,)); b = N(r, 0, c)((n,))
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    return Arr(r, (n,), INT, lambda s: lo), Arr(r, (n,), INT, lambda s: hi)


@gen("utils")
def clamp(r):
    n, c, f, df = rows(r); m = P("grid_data")
    uvw = Arr(r, (n, 3), r.choice([F32, F64]), U(r, -100, 100)); si, ei = channels(r, n, c)
    so, eo = Arr(r, (n,), INT, N(r, 0, 6), out=True), Arr(r, (n,), INT, N(r, 0, 6), out=True)
    lo = r.randint(0, n); hi = r.randint(lo, n + (r.random() < .1))
    rr = r.choice([[], [], [lo, hi], [lo], [-1, -1]])
    cr = (rr + [-1, -1])[:2] if len(rr) != 1 else [lo, -1]
    if r.random() < .5:
        h = [uvw, r.randint(-1, 3) if r.random() < .3 else r.randint(0, 2), f, df, si, ei, r.uniform(-40, 0), r.uniform(0, 40), so, eo]
        return Call("clamp_channels_single", m.clamp_channels_single, h + rr, "sdp_gridder_clamp_channels_single", h + cr)
    h = [uvw, f, df, si, ei, r.uniform(-40, 0), r.uniform(0, 40), r.uniform(-40, 0), r.uniform(0, 40), so, eo]
    return Call("clamp_channels_uv", m.clamp_channels_uv, h + rr, "sdp_gridder_clamp_channels_uv", h + cr)


@gen("utils")
def bounds(r):
    n, c, f, df = rows(r)
    uvw = Arr(r, (n, 3), r.choice([F32, F64]), U(r, -100, 100)); s, e = channels(r, n, c)
    lo, hi = (ctypes.c_double * 3)(), (ctypes.c_double * 3)()
    a = [uvw, f, df, s, e]

    def check(k):
        if not (len(k.out) == 2 and same(list(k.out[0]), list(lo)) and same(list(k.out[1]), list(hi))):
            raise Fail("result", "returned %s %s, the library %s %s" % (list(k.out[0]), list(k.out[1]), list(lo), list(hi)))
    return Call("uvw_bounds_all", P("grid_data").uvw_bounds_all, a, "sdp_gridder_uvw_bounds_all",
                a + [ctypes.addressof(lo), ctypes.addressof(hi)], ret=check)


@gen("utils")
def subgrids(r):
    m = P("grid_data"); n, a, T = r.randint(2, 14), r.randint(1, 10), r.choice([C64, C128])
    g = Arr(r, (n, n), T, Z(r), out=True); s = Arr(r, (a, a), T, Z(r), out=True); u, v = r.randint(-20, 20), r.randint(-20, 20)
    if r.random() < .5:
        x = [g, u, v, s]
        return Call("subgrid_cut_out", m.subgrid_cut_out, x, "sdp_gridder_subgrid_cut_out", x)
    f = r.choice([[], [], [r.uniform(-2, 2)]])
    return Call("subgrid_add", m.subgrid_add, [g, u, v, s] + f, "sdp_gridder_subgrid_add", [g, u, v, s] + (f or [1.0]))


@gen("utils")
def kernels(r):
    m = P("grid_data"); k = r.randint(0, 4)
    if k == 0:
        s, o = 2 * r.randint(1, 5), r.randint(1, 20)
        x = [Arr(r, (s,), F64, U(r)), Arr(r, (o + 1, s), F64, out=True)]
        return Call("make_kernel", m.make_kernel, x, "sdp_gridder_make_kernel", x)
    if k == 1:
        s, o = 2 * r.randint(1, 5), r.randint(1, 20)
        x = [s, Arr(r, (o + 1, s), F64, out=True)]
        return Call("make_pswf_kernel", m.make_pswf_kernel, x, "sdp_gridder_make_pswf_kernel", x)
    if k == 2:
        n = r.randint(1, 14)
        x = [n, r.uniform(.01, .2), r.uniform(-.02, .02), r.uniform(-.02, .02), r.uniform(1, 300), Arr(r, (n, n), C128, out=True)]
        return Call("make_w_pattern", m.make_w_pattern, x, "sdp_gridder_make_w_pattern", x)
    if k == 3:
        s, (t, u) = (r.randint(1, 9), r.randint(1, 9)), r.choice([(C128, C128), (C64, C64), (F64, F64), (F32, F32), (C128, C64)])
        x = [Arr(r, s, t, Z(r)), Arr(r, s, u, Z(r))]
        return Call("rms_diff", m.rms_diff, x, "sdp_gridder_rms_diff", x, ret="value")
    t, f, a, b = r.uniform(.05, .2), r.uniform(.01, .05), r.uniform(-.02, .02), r.uniform(-.02, .02)
    x0 = r.choice([None, 0.0, r.uniform(.1, .4)])
    args, c = r.choice([([t, f], [t, f, 0., 0., 0.]), ([t, f, a], [t, f, a, 0., 0.]), ([t, f, a, b], [t, f, a, b, 0.]), ([t, f, a, b, x0], [t, f, a, b, x0 or 0.])])
    return Call("determine_w_step", m.determine_w_step, args, "sdp_gridder_determine_w_step", c, ret="value", status=False)


@gen("utils")
def height(r):
    if r.random() > .12:
        raise Skip()
    m = P("grid_data")
    N_, s = 2 * r.randint(6, 8), 4
    im = r.choice([None, 0, 2 * r.randint(N_ // 2, 12)])
    hu, hv, fov, fr, ns, er = r.uniform(-.01, .01), r.uniform(-.01, .01), .05, r.choice([.5, 2 / 3]), r.choice([1, 2]), r.choice([None, 0., .05])
    ws = L.call("sdp_gridder_determine_w_step", [.1, fov, hu, hv, 0.], False)[0]
    if r.random() < .5:
        args = [N_, .1, fov, ws, s, 64, s, 64, im, hu, hv, fr, ns, er]
        return Call("determine_max_w_tower_height", m.determine_max_w_tower_height, args, "sdp_gridder_determine_max_w_tower_height",
                    [im or 2 * N_, N_, .1, ws, hu, hv, s, 64, s, 64, fov, fr, ns, er or 0.], ret="value")
    a = [im or 2 * N_, N_, .1, ws, hu, hv, s, 64, s, 64]
    k = pair("GridderWtowerUVW", m.GridderWtowerUVW, a, "sdp_gridder_wtower_uvw_create", a, "sdp_gridder_wtower_uvw_free")
    if k is None:
        raise Skip()
    return Call("find_max_w_tower_height", m.find_max_w_tower_height, [k, fov, fr, ns, er], "sdp_gridder_determine_max_w_tower_height",
                a + [fov, fr, ns, er or 0.], ret="value")


def gridder(r, tower):
    q = {"s": 2 * r.randint(2, 4), "ws": 2 * r.randint(2, 4), "os": r.choice([64, 128]), "wos": r.choice([64, 128]), "N": 2 * r.randint(6, 10)}
    q["im"] = 2 * r.randint(q["N"] // 2, 20)
    a = [q["im"], q["N"], .1, 200., r.uniform(-.01, .01), r.uniform(-.01, .01), q["s"]] + ([q["os"], q["ws"], q["wos"]] if tower else [])
    if r.random() < .1:
        a[r.choice([0, 1, 6])] = r.choice([0, -1, 3])
    n = "sdp_gridder_wtower_uvw" if tower else "sdp_gridder_direct"
    m = P("grid_data")
    q["p"] = pair("GridderWtowerUVW" if tower else "GridderDirect", m.GridderWtowerUVW if tower else m.GridderDirect, a, n + "_create", a, n + "_free")
    if q["p"] is None:
        raise Skip()
    names = ["image_size", "subgrid_size", "theta", "w_step", "shear_u", "shear_v", "support"] + (["oversampling", "w_support", "w_oversampling"] if tower else [])
    for k, v in zip(names, a):
        got, lib = getattr(q["p"].py, k), L.call(n + "_" + k, [q["p"].c.value], False)[0]
        if not same(got, v) or not same(lib, v):
            raise Fail("properties", "%s is %r, created with %r, the library says %r" % (k, got, v, lib))
    EV["properties_read"] += len(names)
    return q, n


@gen("gridders")
def grid(r):
    tower = r.random() < .5
    q, pre = gridder(r, tower)
    cls = type(q["p"].py)
    n, c, f, df = rows(r)
    which = r.choice(["degrid_subgrid", "grid_subgrid", "degrid_correct", "grid_correct"] + (["degrid", "grid"] if tower else []))
    lab = cls.__name__ + "." + which
    if which.endswith("correct"):
        fa = Arr(r, (r.randint(1, q["im"]), r.randint(1, q["im"])), r.choice([C64, C128, F32, F64]), U(r), out=True)
        w = r.choice([[], [r.randint(-2, 2)]])
        a = [q["p"], fa, 0, 0]
        return Call(lab, getattr(cls, which), a + w, pre + "_" + which, a + (w or [0]), ret="array", result=fa)
    I_, V_, W_ = r.choice([(C128, C128, F64), (C128, C128, F64), (C64, C64, F32), (C64, C64, F64), (F64, C128, F64)])
    e = q["N"] / 2 / .1 / (f / 299792458.0) * .6
    img = Arr(r, (q["N"], q["N"]), I_, Z(r), out=True); uvw = Arr(r, (n, 3), W_, U(r, -e, e)); vis = Arr(r, (n, c), V_, Z(r), out=True)
    sc, ec = channels(r, n, c)
    off = [r.randint(-4, 4), r.randint(-4, 4), r.randint(-2, 2)]
    lo = r.randint(0, n); hi = r.randint(lo, n)
    rr = r.choice([[], [], [lo, hi], [-1, -1]]) if tower else []
    cr = (rr or [-1, -1]) if tower else []
    p = q["p"]
    fn = getattr(cls, which)
    if which == "degrid":
        return Call(lab, fn, [p, img] + off + [f, df, uvw, sc, ec, vis] + rr, pre + "_degrid", [p, img] + off + [f, df, uvw, sc, ec, vis] + cr)
    if which == "grid":
        return Call(lab, fn, [p, vis, uvw, sc, ec, f, df, img] + off + rr, pre + "_grid", [p, vis, uvw, sc, ec, f, df, img] + off + cr)
    offt = r.choice([tuple, list])(off)
    if which == "degrid_subgrid":
        own = r.random() < .5
        if own:
            vis = Arr(r, (n, c), C128, 0, layout="C")
        args = [p, img, offt, c if own else r.choice([c, 0, 99]), f, df, uvw, sc, ec] + ([None] if rr or r.random() < .5 else []) if own else \
               [p, img, offt, c, f, df, uvw, sc, ec, vis]

        def check(k):
            if not own and k.out is not None:
                raise Fail("result", "returned %r" % (k.out,))
            if not own:
                return
            t = k.twins[id(vis)].view
            if not (isinstance(k.out, np.ndarray) and k.out.dtype == C128 and k.out.shape == t.shape and k.out.tobytes() == t.tobytes()):
                raise Fail("result", "the visibilities returned are not the library's")
        k = Call(lab, fn, args + rr, pre + "_degrid", [p, img] + off + [f, df, uvw, sc, ec, vis] + cr, ret=check, touched=[uvw] if own else [])
        if own:
            k.hidden = vis
            k.allowed = ["dtype", "ro", "all_ro", "none", "bad"]
        k.needed = vis
        return k
    ch = r.choice([c, c, 0, c + 1, c - 1])
    k = Call(lab, fn, [p, vis, uvw, sc, ec, ch, f, df, img, offt] + rr, pre + "_grid", [p, vis, uvw, sc, ec, f, df, img] + off + cr, touched=[vis])
    if ch and ch != c:
        k.expect_python_error = RuntimeError
        k.mutate = lambda rng: ""
    return k


@gen("gridders")
def es(r):
    n, c, T, g = r.randint(1, 9), r.randint(1, 4), r.choice([F32, F64]), 2 * r.randint(4, 16)
    a = [Arr(r, (n, 3), T, U(r, -100, 100)), Arr(r, (c,), T, lambda s: np.sort(U(r, 1e8, 2e8)(s))), Arr(r, (n, c), C128 if T is F64 else C64, Z(r)),
         Arr(r, (n, c), T, U(r)), Arr(r, (g, g), T, U(r)), 1e-3, 1e-3, 1e-5 if T is F64 else 1e-3]
    w = r.random() < .5
    v = np.abs(a[0].view[:, 2])
    fr = a[1].view
    lim = [np.amin(v) * (fr[0] / 299792458.0), np.amax(v) * (fr[-1] / 299792458.0)] if w else [0, 0]
    pair("GridderUvwEsFft", P("grid_data.gridder_uvw_es_fft").GridderUvwEsFft, a + [w], "sdp_gridder_uvw_es_fft_create_plan", a + lim + [int(w)],
         "sdp_gridder_uvw_es_fft_free_plan")
    raise Skip()


@gen("gridders")
def custom(r):
    ks, ov, kw, ow, n, c, p, t, b = (r.randint(1, 5), r.randint(1, 9), r.randint(1, 4), r.randint(1, 5), r.randint(8, 14), r.randint(1, 3), r.choice([1, 4]),
                                     r.randint(1, 3), r.randint(1, 6))
    e = .7 * n / .1 * 3
    a = [Arr(r, (c, kw, n, n, p), C128, Z(r)), Arr(r, (t, b, 3), F64, U(r, -e, e)), Arr(r, (ov, ks), F64, U(r)), Arr(r, (ow, kw), F64, U(r)), .1, 100., 1e8, 1e6,
         r.choice([True, False, 0, 1, 2, 65536]), Arr(r, (t, b, c, p), C128, Z(r), out=True)]
    return Call("degrid_uvw_custom", P("grid_data").degrid_uvw_custom, a, "sdp_degrid_uvw_custom", a)


@gen("wstack")
def wstack(r):
    g = r.random() < .5
    im = 2 * (r.randint(14, 18) if r.random() < .9 else r.randint(68, 72)); N_ = 2 * r.randint(10 if im < 100 else 65, im // 2 - 2); n, c = r.randint(1, 10), r.randint(1, 3)
    I_, W_, V_ = r.choice([(C128, F64, C128), (F64, F64, C128), (C64, F32, C64), (F32, F32, C64)])
    e = r.uniform(.2, .9) * im / 2 / .1 / (1.05e8 / 299792458.0)
    img = Arr(r, (im, im), I_, Z(r), out=True); uvw = Arr(r, (n, 3), W_, U(r, -e, e)); vis = Arr(r, (n, c), V_, Z(r), out=True)
    hu, hv = r.uniform(-.01, .01), r.uniform(-.01, .01)
    ws = L.call("sdp_gridder_determine_w_step", [.1, .05, hu, hv, 0.], False)[0]
    th = r.choice([[], [None], [0], [1], [1]])
    mid = [1e8, 1e6, uvw, N_, .1, ws, hu, hv, r.choice([4, 4, 6]), r.choice([64, 100, 200]), r.choice([4, 4, 6]), r.choice([64, 90, 160]), r.choice([.3, .4]), r.choice([1., 2., 4.]), r.choice([0, 0, 1])]
    m = P("grid_data")
    ct = [(th or [0])[0] or 0]
    if g:
        return Call("wstack_wtower_grid_all", m.wstack_wtower_grid_all, [vis] + mid + [img] + th, "sdp_grid_wstack_wtower_grid_all", [vis] + mid + [img] + ct)
    return Call("wstack_wtower_degrid_all", m.wstack_wtower_degrid_all, [img] + mid + [vis] + th, "sdp_grid_wstack_wtower_degrid_all", [img] + mid + [vis] + ct)


@gen("beams")
def dipole(r):
    T, C = r.choice([(F32, C64), (F64, C128)]); sc = r.random() < .5; n = r.randint(1, 12)
    st, of = (r.randint(1, 4) if sc else r.randint(2, 5)), r.randint(0, 5)
    need = (n - 1) * st + of + (1 if sc else 2)
    th = Arr(r, (n,), T, U(r, 0, 1.57)); ph = Arr(r, (n,), T, U(r, -3, 3))
    o = Arr(r, (need,) if sc else (-(-need // 4) + 1, 4), C, Z(r), out=True)
    a = [th, ph, r.uniform(5e7, 3e8), r.uniform(.3, 3), st, of, o]
    k = Call("dipole", P("station_beam").dipole, a, "sdp_element_beam_dipole", a, touched=[th])
    return sized(k, th)


def sized(k, arr, at=0):
    """The number of points is that of the (possibly replaced) array."""
    old = k.run_library
    k.points = arr
    rep = k.replace

    def replace(a, b):
        if k.points is a:
            k.points = b
        rep(a, b)

    def run_library():
        n = int(np.size(k.points.view)) if not isinstance(k.points, Void) else 0
        keep = k.cargs
        k.cargs = keep[:at] + [n] + keep[at:]
        old()
        k.cargs = keep
        k.crefs = [None] * len(keep)
    k.replace, k.run_library = replace, run_library
    return k


@gen("beams")
def harp(r):
    T, C = r.choice([(F32, C64), (F64, C128)]); n, l = r.randint(1, 12), r.randint(1, 4); of = r.randint(0, 3)
    th = Arr(r, (n,), T, U(r, 0, 1.57))
    a = [th, Arr(r, (n,), T, U(r, -3, 3)), Arr(r, (n,), T, U(r, -3, 3)), l, Arr(r, (4 * ((l + 1) ** 2 - 1),), C, Z(r)), of, Arr(r, (n + of, 4), C, Z(r), out=True)]
    return sized(Call("spherical_wave_harp", P("station_beam").spherical_wave_harp, a, "sdp_element_beam_spherical_wave_harp", a, touched=[th]), th)


@gen("beams")
def station(r):
    T, C = r.choice([(F32, C64), (F64, C128)]); ne, n, ty, pol, kind = r.randint(1, 12), r.randint(1, 9), r.randint(1, 4), r.random() < .5, r.randint(0, 2)
    px = Arr(r, (n,), T, U(r, -.6, .6))
    beam = Void() if kind == 0 else Arr(r, (ne if kind == 1 else ty, n, 4 if pol else 1), C, Z(r))
    if kind == 1 and r.random() < .5:
        beam = Arr(r, (ne, n, 4 if pol else 1), C, Z(r))
    idx = Arr(r, (ne,), INT, N(r, 0, ty - 1)) if kind == 2 else Void()
    h = [r.uniform(.5, 5), Arr(r, (ne,), C, Z(r))] + [Arr(r, (ne,), T, U(r, -20, 20)) for _ in range(3)]
    p = [px, Arr(r, (n,), T, U(r, -.6, .6)), Arr(r, (n,), T, U(r, -.6, .6)), idx, beam]
    o = Arr(r, (n, 4) if pol else (n,), C, Z(r), out=True)
    fl = r.choice([[], [r.random() < .5], [r.random() < .5, r.random() < .5], [r.random() < .5, r.random() < .5, r.random() < .5]])
    k = Call("aperture_array", P("station_beam").aperture_array, h + p + [o] + fl, "sdp_station_beam_aperture_array",
             h + [0] + p + [0, o] + [int(x) for x in (fl + [True] * 3)[:3]], touched=[px])
    return sized(k, px, 6)


# ------------------------------------------------------------- families that are not single calls

def case_mem(r):
    """What the library is told about an array."""
    Mem = P("utility").Mem
    nd = r.randint(0, 5)
    a = Arr(r, [r.choice([0, 1, 2, 3, 4, 7]) for _ in range(nd)], r.choice(list(CODES)), 1, layout=r.choice(["C", "F", "step", "rev", "perm", "bcast", "pad"]))
    if r.random() < .4:
        a.ro()
    k = r.random()
    if k < .15:
        for b in (Bad([1.0]), Bad(None)):
            pass
        bad = r.choice([[1., 2.], (1,), "x", 5, np.float64(3), np.zeros(3, np.int64), np.zeros(2, ">i4"), np.zeros(3, np.uint8), np.zeros(2, np.float16), {}])
        before = repr(bad)
        try:
            Mem(bad)
        except TypeError:
            EV["refused_by_interface"] += 1
            return "mem:bad:" + type(bad).__name__, repr(bad)[:80]
        raise Fail("accepted", "Mem(%r) accepted" % (bad,))
    if k < .2:
        m = Mem(None)
        h, _ = Void().mem()
        want = h.value
        desc = "None"
    else:
        m = Mem(a.view)
        h, _ = a.mem()
        want = h.value
        desc = a.text()
    got = ctypes.cast(m._as_parameter_, ctypes.c_void_p).value
    for f in ("sdp_mem_type", "sdp_mem_location", "sdp_mem_num_dims", "sdp_mem_num_elements", "sdp_mem_is_c_contiguous", "sdp_mem_is_read_only",
              "sdp_mem_data_const", "sdp_mem_is_complex", "sdp_mem_is_double", "sdp_mem_is_floating_point"):
        if f in L.protos and L.call(f, [got], False)[0] != L.call(f, [want], False)[0]:
            raise Fail("description:" + f, "%s is %r, should be %r for %s" % (f, L.call(f, [got], False)[0], L.call(f, [want], False)[0], desc))
    for f in ("sdp_mem_shape_dim", "sdp_mem_stride_bytes_dim"):
        for d in range(-1, nd + 1):
            if L.call(f, [got, d], False)[0] != L.call(f, [want, d], False)[0]:
                raise Fail("description:" + f, "%s(%d) is %r, should be %r for %s" % (f, d, L.call(f, [got, d], False)[0], L.call(f, [want, d], False)[0], desc))
    # The element the library finds is numpy's.
    if k >= .2 and a.view.size and nd:
        i = [r.randrange(x) for x in a.shape]
        p = L.call("sdp_mem_data_const", [got], False)[0] + sum(x * L.call("sdp_mem_stride_bytes_dim", [got, d], False)[0] for d, x in enumerate(i))
        if p != a.view[tuple(slice(x, x + 1) for x in i)].ctypes.data:
            raise Fail("description:address", "element %s of %s" % (i, desc))
    EV["descriptions_compared"] += 1
    del m
    return "mem:%s:%d:%s" % (desc.split("[")[0], nd, a.kind), desc


def case_sky(r):
    """Histories of sky coordinates against a record of what was set."""
    S = P("utility").SkyCoord
    objs = []
    for _ in range(r.randint(2, 12)):
        k = r.random()
        if k < .35 or not objs:
            a = [r.choice(["icrs", "altaz", "x" * r.randint(0, 40), "fk5"]), r.uniform(-7, 7), r.uniform(-2, 2)] + ([r.uniform(-9, 9)] if r.random() < .5 else [])
            objs.append([S(*a), a[0], a[1:3] + [a[3] if len(a) > 3 else 0.0], 2000.0])
        elif k < .5:
            o = r.choice(objs)
            objs.append([S(o[0])] + [o[1], list(o[2]), o[3]])
            EV["copies"] += 1
        elif k < .65:
            o = r.choice(objs)
            o[3] = r.uniform(1900, 2100)
            o[0].set_epoch(o[3])
        elif k < .75:
            objs.pop(r.randrange(len(objs)))
            if r.random() < .3:
                gc.collect()
        elif k < .8:
            try:
                S(*r.choice([(), ("icrs",), ("icrs", 1.0)]))
            except Exception:
                EV["refused_by_interface"] += 1
            else:
                raise Fail("accepted", "SkyCoord without coordinates")
        for o in objs:
            got = [o[0].type()] + [o[0].value(d) for d in range(-1, 4)] + [o[0].epoch()]
            want = [o[1], 0.0] + o[2] + [0.0, o[3]]
            if got != want:
                raise Fail("state", "coordinate reads %r, should read %r" % (got, want))
            EV["states_compared"] += 1
    return "sky:%d" % len(objs), "%d coordinates" % len(objs)


def make_object(r):
    """(Python object, twin, use) of some kind."""
    k = r.randint(0, 5)
    try:
        if k == 0:
            p, shape, nd, T = fft_plan(r)
            if p is None:
                return None
            def use():
                x = [p, Arr(r, shape, T, Z(r), layout="C"), Arr(r, shape, T, out=True, layout="C")]
                return Call("Fft.exec", P("fourier_transforms").Fft.exec, x, "sdp_fft_exec", x)
            return p, use
        if k == 1:
            q = swiftly_plan(r)
            def use():
                a = [q["p"], Arr(r, (2, q["m"]), C128, Z(r)), Arr(r, (2, q["xM"]), C128, Z(r), out=True), r.randint(-5, 5) * q["Ny"]]
                return Call("Swiftly.add_to_subgrid", P("fourier_transforms.swiftly").Swiftly.add_to_subgrid, a, "sdp_swiftly_add_to_subgrid", a)
            return q["p"], use
        if k in (2, 3):
            q, pre = gridder(r, k == 3)
            def use():
                fa = Arr(r, (6, 6), C128, Z(r), out=True)
                a = [q["p"], fa, 0, 0, r.randint(-2, 2)]
                return Call("grid_correct", type(q["p"].py).grid_correct, a, pre + "_grid_correct", a, ret="array", result=fa)
            return q["p"], use
        if k == 4:
            a = [r.choice([1, 2, 3, 5]), r.randint(1, 6), r.uniform(0, 2)] if r.random() < .97 else r.choice([[1, 33000, .5], [33000, 1, .5]])
            p = pair("FunctionExampleA", P("examples").FunctionExampleA, a, "sdp_function_example_a_create_plan", a, "sdp_function_example_a_free_plan")
            if p is None:
                return None
            def use():
                x = [p, Arr(r, (a[0] * a[1],), F32, out=True, layout="C")]
                return Call("FunctionExampleA.exec", P("examples").FunctionExampleA.exec, x, "sdp_function_example_a_exec", x)
            return p, use
        s = sky(r)
        def use():
            return None
        return s, use
    except Skip:
        return None


def perform(c, r):
    c.prepare()
    c.run_python(r)
    c.judge()


def case_objects(r):
    """Random histories of creating, using and dropping objects."""
    live, hist = [], []
    for _ in range(r.randint(4, 30)):
        k = r.random()
        if k < .4 or not live:
            o = make_object(r)
            if o:
                if r.random() < .3:  # part of a reference cycle
                    c = [o[0].py]
                    c.append(c)
                live.append(o)
                hist.append("+" + o[0].desc.split("(")[0])
        elif k < .8:
            o = r.choice(live)
            c = o[1]()
            if c:
                perform(c, r)
            hist.append("u")
        elif k < .95:
            o = live.pop(r.randrange(len(live)))
            o[0].py = None
            o[0].c.close()
            del o
            hist.append("-")
            EV["objects_dropped"] += 1
        else:
            gc.collect()
            hist.append("gc")
    r.shuffle(live)
    while live:
        live.pop()
        if r.random() < .2:
            gc.collect()
    gc.collect()
    return "objects:" + " ".join(hist), " ".join(hist)


def allocated():
    f = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    f.restype = ctypes.c_size_t
    return f()


def case_leaks(r):
    """Storage does not grow with the number of objects created and dropped."""
    U_ = P("utility")
    SW_ = P("fourier_transforms.swiftly").Swiftly
    G = P("grid_data")
    a = np.zeros((4, 6), C128)
    b = np.zeros((4, 6), C128)
    s = SW_(96, 48, 32, 4.0)
    c32 = np.zeros((2, 32), C128)
    def bad(f):
        def g():
            try:
                f()
            except Exception:
                pass
        return g
    what = {
        "Mem": lambda: U_.Mem(a), "Mem(None)": lambda: U_.Mem(None), "SkyCoord": lambda: U_.SkyCoord("icrs" * 20, 1.0, 2.0, 3.0),
        "SkyCoord copy": (lambda x=U_.SkyCoord("altaz" * 20, 1.0, 2.0): U_.SkyCoord(x)),
        "Fft": lambda: P("fourier_transforms").Fft(a, b, 1, 1), "Fft failing": bad(lambda: P("fourier_transforms").Fft(a, b[:2], 1, 1)),
        "Swiftly": lambda: SW_(96, 48, 32, 4.0), "Swiftly failing": bad(lambda: SW_(97, 48, 32, 4.0)),
        "Swiftly call": lambda: s.finish_subgrid_inplace(c32, 0), "Swiftly failing call": bad(lambda: s.finish_subgrid_inplace(c32[:, :5], 0)),
        "GridderDirect": lambda: G.GridderDirect(16, 12, .1, 200., 0., 0., 4), "GridderDirect failing": bad(lambda: G.GridderDirect(0, 12, .1, 200., 0., 0., 4)),
        "GridderWtowerUVW": lambda: G.GridderWtowerUVW(16, 12, .1, 200., 0., 0., 4, 16, 4, 16),
        "GridderWtowerUVW failing": bad(lambda: G.GridderWtowerUVW(16, 12, .1, 200., 0., 0., 3, 16, 4, 16)),
        "FunctionExampleA": lambda: P("examples").FunctionExampleA(2, 3, 1.0), "FunctionExampleA failing": bad(lambda: P("examples").FunctionExampleA(10, 3, 1.0)),
        "vector_add": lambda: P("examples").vector_add(a.real.copy(), a.real.copy(), a.real.copy()),
        "vector_add failing": bad(lambda: P("examples").vector_add(a.real.copy(), b, a.real.copy())),
        "rms_diff": lambda: G.rms_diff(a, b),
        "subgrid_cut_out failing": bad(lambda: G.subgrid_cut_out(a, 0, 0, np.zeros((2, 2), F32))),
    }
    name = r.choice(sorted(what))
    f = what[name]
    reps = 60
    for _ in range(30):
        f()
    gc.collect()
    grow = []
    for _ in range(4):
        x = allocated()
        for _ in range(reps):
            f()
        gc.collect()
        grow.append(allocated() - x)
    EV["cycles"] += 4 * reps
    if min(grow) >= reps * 16:
        raise Fail("growth:" + name, "%s: %s bytes more in use after %d cycles each" % (name, grow, reps))
    return "leaks:" + name, "%s: growth %s" % (name, grow)


SIMPLE = ["dft", "rotate", "flagger", "weights", "clean", "convolve", "fft", "swiftly", "clamp", "bounds", "subgrids", "kernels", "grid", "custom", "dipole", "harp", "station"]


def case_threads(r):
    """Calls from several Python threads at once."""
    calls = []
    while len(calls) < r.randint(3, 6):
        try:
            c = globals()[r.choice(SIMPLE)](r)
            c.mutate(r)
            c.prepare()
            calls.append((c, random.Random(r.getrandbits(40))))
        except Skip:
            pass
    gate = threading.Barrier(len(calls))

    def go(c, q):
        gate.wait()
        c.run_python(q)
    ts = [threading.Thread(target=go, args=x) for x in calls]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sys.setswitchinterval(old)
    for c, q in calls:
        try:
            c.judge()
        except Fail as e:
            raise Fail(c.label + ":" + e.label, "%s [%s]" % (e, c.text()[:200]))
    EV["concurrent_calls"] += len(calls)
    return "threads:" + "+".join(sorted(c.label for c, q in calls)), " | ".join(c.text()[:120] for c, q in calls)


FIRST = r"""
import os, random, sys, threading, time
import numpy as np
import importlib
seed, n = int(sys.argv[1]), int(sys.argv[2])
C = np.complex128
def mods():
    I = importlib.import_module
    return [I("ska_sdp_func." + m) for m in ("examples", "visibility", "numeric_functions", "grid_data", "fourier_transforms", "clean", "station_beam", "utility")]
r = random.Random(seed)
if r.random() < .5: mods()
def jobs():
    ex, vi, nu, gd, ft, cl, sb, ut = mods()
    def add():
        a, b, o = np.arange(5.), np.ones(5), np.zeros(5); ex.vector_add(a, b, o); assert (o == a + 1).all()
    def conv():
        a = np.zeros((4, 4), C); a[2, 2] = 1; o = np.zeros((4, 4), C); nu.fft_convolution(a, a, o); assert np.isfinite(o).all()
    def fft():
        a = np.ones((1, 8), C); o = np.zeros((1, 8), C); ft.Fft(a, o, 1, 1).exec(a, o); assert abs(o[0, 0] - 8) < 1e-9
    def rms():
        assert gd.rms_diff(np.ones((2, 2)), np.zeros((2, 2))) == 1
    def rms_bad():
        try: gd.rms_diff(np.ones((2, 2)), np.zeros((2, 3)))
        except ut.CError: return
        raise AssertionError("no error")
    def step():
        assert gd.determine_w_step(.1, .05) > 0
    def cut():
        o = np.zeros((2, 2), C); gd.subgrid_cut_out(np.ones((6, 6), C), 0, 0, o); assert (o == 1).all()
    def add2():
        g = np.zeros((6, 6), C); gd.subgrid_add(g, 0, 0, np.ones((2, 2), C)); assert g.sum() == 4
    def size():
        assert ft.padded_fft_size(10, 1.0) >= 10
    def skyc():
        s = ut.SkyCoord("icrs", 1., 2.); s.set_epoch(1950.); assert (s.type(), s.value(0), s.epoch()) == ("icrs", 1., 1950.)
    def dft():
        v = np.zeros((1, 1, 1, 1), C); vi.dft_point_v00(np.zeros((1, 3)), np.ones((1, 1, 1), C), np.zeros((1, 1, 1, 3)), v); assert abs(v[0, 0, 0, 0] - 1) < 1e-12
    def flag():
        f = np.zeros((1, 1, 4, 1), np.int32); vi.flagger.flagger_dynamic_threshold(np.ones((1, 1, 4, 1), C), f, .5, 3., 3., 3., 1, 1, 1)
    def plan():
        g = gd.GridderDirect(16, 12, .1, 200., 0., 0., 4); assert g.image_size == 16 and g.theta == .1
    return [add, conv, fft, rms, rms_bad, step, cut, add2, size, skyc, dft, flag, plan]
errs = []
gate = threading.Barrier(n)
def go(k):
    q = random.Random(seed * 100 + k)
    def tr(frame, ev, arg):
        if "ska_sdp_func" not in frame.f_code.co_filename: return None
        if q.random() < .3: time.sleep(q.random() * 2e-3)   # injected delay
        return tr
    gate.wait()
    sys.settrace(tr)
    try:
        js = jobs()
        if seed % 3 == 0: q.shuffle(js)
        for j in js:
            gate.wait() if seed % 3 else None
            for again in range(2):
                try: j()
                except BaseException as e: errs.append("%s: %s: %s" % (j.__name__, type(e).__name__, e))
    finally:
        sys.settrace(None)
ts = [threading.Thread(target=go, args=(k,)) for k in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
print("DONE", len(jobs()) * n * 2, "errors", len(errs))
for e in sorted(set(errs))[:8]: print("ERR", e)
"""


def child(code, args):
    p = subprocess.run([sys.executable, "-c", code] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=100, cwd=os.getcwd(),
                       env=dict(os.environ, ASAN_OPTIONS=re.sub(r":?log_path=[^:]*", "", os.environ.get("ASAN_OPTIONS", "")),
                                UBSAN_OPTIONS=re.sub(r":?log_path=[^:]*", "", os.environ.get("UBSAN_OPTIONS", ""))))
    return p.returncode, p.stdout, p.stderr


def case_first_use(r):
    """Many threads use the interface for the first time at the same moment."""
    n = r.choice([2, 3, 4, 6, 8])
    seed = r.randint(0, 10 ** 6)
    rc, out, err = child(FIRST, [str(seed), str(n)])
    m = re.search(r"DONE (\d+) errors (\d+)", out)
    if not m:
        raise Fail("crash", "process ended with %d: %s" % (rc, err[-1500:]))
    EV["first_uses"] += int(m.group(1))
    if int(m.group(2)):
        raise Fail("first-use", "%s of %s calls failed with %d threads (seed %d): %s" % (m.group(2), m.group(1), n, seed, "; ".join(re.findall(r"ERR (.*)", out))[:600]))
    if rc:
        raise Fail("exit", "exit code %d: %s" % (rc, err[-1500:]))
    return "first_use:%d:%d" % (n, seed % 7), "%d threads, %s first calls" % (n, m.group(1))


EXIT = r"""
import sys, random, gc
import numpy as np
from ska_sdp_func import fourier_transforms as ft, grid_data as gd, utility as ut, examples as ex
from ska_sdp_func.fourier_transforms.swiftly import Swiftly
r = random.Random(int(sys.argv[1]))
a = np.zeros((2, 8), np.complex128)
makers = [lambda: ft.Fft(a, a.copy(), 1, 1), lambda: Swiftly(96, 48, 32, 4.), lambda: gd.GridderDirect(16, 12, .1, 200., 0., 0., 4), lambda: ut.SkyCoord("icrs", 1., 2.),
          lambda: gd.GridderWtowerUVW(16, 12, .1, 200., 0., 0., 4, 16, 4, 16), lambda: ut.Mem(a), lambda: ex.FunctionExampleA(2, 3, 1.)]
keep = [r.choice(makers)() for _ in range(12)]
class Box: pass
for k in range(6):
    b = Box(); b.me = b; b.o = r.choice(makers)(); globals()["g%d" % k] = b
builtins = __import__("builtins"); builtins.held = r.choice(makers)()
if r.random() < .5: del keep[::2]
if r.random() < .3: gc.disable()
if r.random() < .3: sys.exit(0)
print("END")
"""


def case_exit(r):
    """Leaving the interpreter with objects alive, in cycles or already dropped."""
    seed = r.randint(0, 10 ** 6)
    rc, out, err = child(EXIT, [str(seed)])
    if rc:
        raise Fail("exit", "exit code %d (seed %d): %s" % (rc, seed, err[-1500:]))
    EV["exits"] += 1
    return "exit:%d" % (seed % 50), "seed %d" % seed


def case_call(fam, r):
    for _ in range(40):
        try:
            c = r.choice(GENS[fam])(r)
            break
        except Skip:
            EV["objects_only"] += 1
    else:
        return "none", ""
    what = c.mutate(r)
    try:
        perform(c, r)
    except Fail as e:
        raise Fail(c.label + ":" + e.label + (":" + what if what else ""), "%s%s" % (e, " (keywords)" if c.kw else ""), ) from None
    finally:
        case_call.text = c.text()
    kinds = ",".join(a.kind[0] + str(a.dtype.char) if isinstance(a, Arr) else type(a).__name__ for a in c.arrays())
    return "%s:%s:%s" % (c.label, what, kinds), c.text()


def main():
    a = sys.argv[1:]
    opt = {a[i]: a[i + 1] for i in range(len(a) - 1) if a[i].startswith("--")}
    fam, lo, hi, seed = opt["--family"], int(opt["--from"]), int(opt["--to"]), int(opt["--seed"])
    verbose = "--verbose" in a
    out = open(opt["--out"], "w") if "--out" in opt else sys.stdout
    prog = opt.get("--progress")
    bad = 0

    def emit(o):
        out.write(json.dumps(o) + "\n")
        out.flush()
    for i in range(lo, hi):
        if prog:
            with open(prog, "w") as f:
                f.write(str(i))
        r = random.Random("%d/%s/%d" % (seed, fam, i))
        case_call.text = ""
        try:
            sig, desc = globals()["case_" + fam](r) if "case_" + fam in globals() else case_call(fam, r)
            emit({"ev": "case", "idx": i, "sig": sig, "triv": sig == "none", "desc": desc[:300] if i < lo + 2 or verbose else ""})
        except Fail as e:
            bad += 1
            emit({"ev": "case", "idx": i, "sig": "violation", "triv": True, "desc": ""})
            emit({"ev": "viol", "idx": i, "label": e.label, "msg": str(e), "desc": case_call.text[:600]})
    emit(dict({"ev": "events"}, **EV))
    emit({"ev": "done"})
    out.flush()
    return 1 if bad and verbose else 0


if __name__ == "__main__":
    sys.exit(main())
