"""Library functions by dotted name (numpy, scipy.special, cmath, math, ...): assumed contracts on dependencies."""
import math
from fractions import Fraction

from terms import *
import terms as tm
from values import *
from npmod import (NP, Builtin, Opaque, Transparent, WhereIdx, FlatIdx, PackIdx, RankIdx, sort_dtype, subst_val, RANK)

HALF = num(Fraction(1, 2), "R")


def lookup(np, dotted):
    c = np.__dict__.setdefault("_libs", {})
    if dotted not in c:
        c[dotted] = make(np, dotted)
    return c[dotted]


def make(np, dotted):
    it = np.it
    mod, _, name = dotted.rpartition(".")
    if dotted == "numpy.newaxis":
        return None
    if mod in ("matplotlib", "matplotlib.pyplot") or dotted.startswith("matplotlib"):
        return ModRef(dotted)
    if dotted == "logging.getLogger":
        return Builtin(dotted, lambda a, k: Opaque("logger"))
    if mod == "logging":
        return Opaque("logging." + name)
    if mod in ("numpy", "numpy.linalg", "numpy.random", "scipy.special", "scipy.constants", "math", "cmath", "os", "os.path",
               "quaternion", "spherical_functions", "functools", "itertools", "contextlib", "random", "time", "scipy", "argparse",
               "collections", "warnings"):
        f = globals().get("lib_" + mod.replace(".", "_"))
        if f is not None:
            r = f(np, name)
            if r is not None:
                return r
    raise Unsupported("library name " + dotted)


def B(name, fn):
    return Builtin(name, fn)


class Args(list):
    """positional arguments that remember which of them were looked at"""
    def __init__(self, a):
        super().__init__(a)
        self.seen = set()

    def __getitem__(self, i):
        self.seen.update(range(*i.indices(len(self))) if isinstance(i, slice) else [i % len(self) if len(self) else i])
        return super().__getitem__(i)

    def __iter__(self):
        self.seen.update(range(len(self)))
        return super().__iter__()


class Kw(dict):
    def __init__(self, k):
        super().__init__(k)
        self.seen = set()

    def __getitem__(self, n):
        self.seen.add(n)
        return super().__getitem__(n)

    def get(self, n, d=None):
        self.seen.add(n)
        return super().get(n, d)

    def pop(self, n, *d):
        self.seen.add(n)
        return super().pop(n, *d)

    def __iter__(self):
        self.seen.update(super().keys())
        return super().__iter__()

    def items(self):
        self.seen.update(super().keys())
        return super().items()

    def keys(self):
        self.seen.update(super().keys())
        return super().keys()

    def __contains__(self, n):
        self.seen.add(n)
        return super().__contains__(n)


IGNORED = {"dtype": (None,), "order": ("C", None, "K"), "axis": (None,), "out": (None,), "copy": (True,), "keepdims": (False,),
           "like": (None,), "subok": (True, False), "casting": ("same_kind",), "equal_nan": (False,), "write": (False, True)}


def checked(g, name, np, a, k):
    """an argument the model does not look at must not change the result silently"""
    A, K = Args(a), Kw(k)
    r = g(np, A, K)
    for n, v in dict.items(K) if dict.__len__(K) else ():
        if n not in K.seen:
            ok = IGNORED.get(n)
            if ok is None or not any(v is o or (type(v) is type(o) and v == o) for o in ok):
                raise Unsupported("argument %s of array function %s" % (n, name))
    if any(i not in A.seen for i in range(len(A))):
        raise Unsupported("argument %d of array function %s" % (min(i for i in range(len(A)) if i not in A.seen), name))
    return r


def arg(a, k, i, name, default=None):
    if len(a) > i:
        return a[i]
    return k.get(name, default)


def fl(np, d):
    return np.fdtype(d)


UNARY = {
    "sin": ("f_sin", True), "cos": ("f_cos", True), "exp": ("f_exp", True), "log": ("f_log", True), "sqrt": ("f_sqrt", True),
    "real": ("f_real", "real"), "imag": ("f_imag", "real"), "conj": ("f_conj", None), "conjugate": ("f_conj", None),
    "abs": ("f_abs", "real"), "absolute": ("f_abs", "real"), "fabs": ("f_abs", "real"), "angle": ("f_angle", "float"),
}


def lib_numpy(np, name):
    it = np.it
    if name == "pi":
        return PI
    if name == "e":
        return app("exp", (ONE,), "R")
    if name in ("nan", "inf", "NaN", "NAN", "Inf"):
        return var("np." + name.lower(), "R")
    if name in ("linalg", "random"):
        return ModRef("numpy." + name)
    if name in UNARY:
        meth, d = UNARY[name]
        fn = getattr(np, meth)
        if d is True:
            dt = np.fdtype
        elif d == "real":
            dt = lambda x: "float" if x == "complex" else x
        else:
            dt = d
        f = np.un(name, fn, dt)
        if name == "abs":
            f.name = "numpy.absolute"
        return f
    simple = {
        "negative": (lambda v: it.neg(v), None), "positive": (lambda v: v, None),
        "square": (lambda v: it.sbin("Mult", v, v), None),
        "reciprocal": (lambda v: it.sbin("Div", 1, v), np.fdtype),
        "deg2rad": (lambda v: div(mul(np.rt(v), PI), num(180)), np.fdtype),
        "radians": (lambda v: div(mul(np.rt(v), PI), num(180)), np.fdtype),
        "rad2deg": (lambda v: div(mul(np.rt(v), num(180)), PI), np.fdtype),
        "degrees": (lambda v: div(mul(np.rt(v), num(180)), PI), np.fdtype),
        "arccos": (lambda v: app("arccos", (np.rt(v),), "R"), np.fdtype),
        "isnan": (lambda v: FALSE, "bool"), "isinf": (lambda v: FALSE, "bool"), "isfinite": (lambda v: TRUE, "bool"),
        "logical_not": (lambda v: not_(it.to_T(it.truth(v))), "bool"),
        "sign": (lambda v: sgn(np, v), None),
        "tan": (lambda v: div(np.f_sin(v), np.f_cos(v)), np.fdtype),
        "log10": (lambda v: div(np.f_log(v), app("log", (num(10),), "R")), np.fdtype),
        "log2": (lambda v: div(np.f_log(v), app("log", (num(2),), "R")), np.fdtype),
        "floor": (lambda v: tm.real(app("floor", (np.rt(v),), "I")) if np.rt(v).sort != "I" else np.realize(v), np.fdtype),
    }
    if name in simple:
        fn, d = simple[name]
        return np.un(name, fn, d)
    binary = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow",
              "mod": "Mod", "remainder": "Mod", "floor_divide": "FloorDiv", "float_power": "Pow"}
    if name in binary:
        return np.bi(name, binary[name])
    mm = {"maximum": tmax, "minimum": tmin, "fmax": tmax, "fmin": tmin}
    if name in mm:
        f = mm[name]

        def mx(x, y):
            a, b = np.rt(x), np.rt(y)
            if it.pc.proves(le(a, b)):
                return b if f is tmax else a
            if it.pc.proves(le(b, a)):
                return a if f is tmax else b
            return f(a, b)
        return np.bi(name, None, mx)
    lg = {"logical_and": and_, "logical_or": or_}
    if name in lg:
        return np.bi(name, None, lambda x, y: lg[name](it.to_T(it.truth(x)), it.to_T(it.truth(y))), "bool")
    if name == "logical_xor":
        return np.bi(name, None, lambda x, y: not_(eq(it.to_T(it.truth(x)), it.to_T(it.truth(y)))), "bool")
    cmp = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE"}
    if name in cmp:
        return np.bi(name, None, lambda x, y: it.to_T(it.scmp(cmp[name], x, y)), "bool")
    bw = {"bitwise_and": "BitAnd", "bitwise_or": "BitOr", "bitwise_xor": "BitXor"}
    if name in bw:
        return np.bi(name, bw[name])
    if name == "arctan2":
        return np.bi(name, None, lambda y, x: app("atan2", (np.rt(y), np.rt(x)), "R"), "float")
    if name == "hypot":
        return np.bi(name, None, lambda x, y: tm.sqrt(add(mul(np.rt(x), np.rt(x)), mul(np.rt(y), np.rt(y)))), "float")
    g = globals().get("np_" + name)
    if g is not None:
        return B("numpy." + name, lambda a, k: checked(g, name, np, a, k))
    dtypes = {"float64": "float", "float32": "float", "float_": "float", "int64": "int", "int32": "int", "int_": "int", "integer": None,
              "complex128": "complex", "complex64": "complex", "complex_": "complex", "bool_": "bool", "bool8": "bool", "ndarray": None,
              "floating": None, "complexfloating": None, "number": None, "generic": None, "intp": "int"}
    if name in dtypes:
        d = dtypes[name]
        nm = {"bool_": "numpy.bool", "intp": "numpy.int64", "int_": "numpy.int64", "float_": "numpy.float64",
              "complex_": "numpy.complex128"}.get(name, "numpy." + name)

        def conv(a, k):
            if d is None:
                raise Unsupported("np." + name)
            return np.astype(np.asarray(a[0]), d)
        return B(nm, conv)
    if name == "errstate":
        o = Opaque("errstate")
        o.call = lambda a, k: Opaque("errstate")
        return o
    if name in ("seterr",):
        return B(name, lambda a, k: None)
    return None




def sgn(np, v):
    t = np.rt(v)
    return ite(gt(t, ZERO), num(1, t.sort), ite(lt(t, ZERO), num(-1, t.sort), num(0, t.sort)))


# ------------------------------------------------------------------ creation
def like_axes(np, a, k):
    x = np.asarray(a)
    return x


def np_zeros_like(np, a, k):
    return full_like(np, a, k, 0)


def np_ones_like(np, a, k):
    return full_like(np, a, k, 1)


def full_like(np, a, k, v):
    x = np.asarray(a[0])
    d = np.dtype_arg(arg(a, k, 1, "dtype")) or x.dtype
    if k.get("shape") is not None:
        return fill(np, np.dom_axes(k["shape"]), v, d)
    return fill(np, x.axes, v, d)


def np_full_like(np, a, k):
    x = np.asarray(a[0])
    d = np.dtype_arg(arg(a, k, 2, "dtype")) or x.dtype
    v = np.item(arg(a, k, 1, "fill_value"))
    return fill(np, x.axes, v, d)


def fill(np, axes, v, d):
    if isinstance(v, Arr):
        return np.astype(np.copy(np.broadcast_to(v, axes)), d)
    c = np.cast(v, d)
    if not isinstance(c, Cx):
        t = np.it.t(c)
        c = t if d != "float" else tm.real(t)
    return np.new(axes, lambda l: c, d)


def np_zeros(np, a, k):
    return fill(np, np.dom_axes(arg(a, k, 0, "shape")), 0, np.dtype_arg(arg(a, k, 1, "dtype")) or "float")


def np_ones(np, a, k):
    return fill(np, np.dom_axes(arg(a, k, 0, "shape")), 1, np.dtype_arg(arg(a, k, 1, "dtype")) or "float")


def np_full(np, a, k):
    v = arg(a, k, 1, "fill_value")
    v = v if isinstance(v, Arr) and v.axes else np.item(v)
    d = np.dtype_arg(arg(a, k, 2, "dtype")) or np.dt(v)
    return fill(np, np.dom_axes(arg(a, k, 0, "shape")), v, d)


_un = [0]


def uninit(np, axes, d):
    _un[0] += 1
    nm = "uninit%d" % _un[0]

    def fn(labels):
        ts = tuple(t for l in labels for t in l)
        if d == "complex":
            return Cx(app(nm + "re", ts, "R"), app(nm + "im", ts, "R"))
        return app(nm, ts, {"float": "R", "int": "I", "bool": "B"}[d])
    return np.new(axes, fn, d)


def np_empty(np, a, k):
    return uninit(np, np.dom_axes(arg(a, k, 0, "shape")), np.dtype_arg(arg(a, k, 1, "dtype")) or "float")


def np_empty_like(np, a, k):
    x = np.asarray(a[0])
    return uninit(np, x.axes, np.dtype_arg(arg(a, k, 1, "dtype")) or x.dtype)


def np_eye(np, a, k):
    n = arg(a, k, 0, "N")
    ax = np.dom_axes((n,))[0]
    return np.new((ax, ax), lambda l: ite(eq(l[0][0], l[1][0]), num(1, "R"), num(0, "R")), "float")


np_identity = np_eye


def np_arange(np, a, k):
    it = np.it
    a = [np.item(x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if st != 1 or k.get("step", 1) != 1:
        raise Unsupported("arange step")
    lo, hi = it.t(lo), it.t(hi)
    if lo.sort != "I" or hi.sort != "I":
        n = sub(hi, lo)
        N = np.it.norm_size(n) if hasattr(it, "norm_size") else None
        raise Unsupported("arange of non-integers")
    n = sub(hi, lo)
    if not it.pc.proves(ge(n, ZERO)):
        n = tmax(n, ZERO)
    d = np.dtype_arg(k.get("dtype")) or "int"
    return np.new((Axis(range_dom(n)),), lambda l: np.cast(add(lo, l[0][0]), d), d)


def np_linspace(np, a, k):
    it = np.it
    lo, hi = np.rt(np.item(a[0])), np.rt(np.item(a[1]))
    n = np.item(arg(a, k, 2, "num", 50))
    endpoint = k.get("endpoint", arg(a, k, 3, "endpoint", True))
    if isinstance(n, float) or (isinstance(n, T) and n.sort != "I"):
        raise PyRaise("TypeError", "linspace number of samples")
    ax = np.dom_axes((n,))[0]
    n = it.t(n)
    m = sub(n, ONE) if it.decide(it.truth(endpoint)) else n
    step = div(sub(hi, lo), m)
    if it.pc.proves(gt(m, ZERO)) if True else False:
        fn = lambda l: tm.real(add(lo, mul(step, l[0][0])))
    else:
        fn = lambda l: tm.real(ite(gt(m, ZERO), add(lo, mul(step, l[0][0])), lo))
    r = np.new((ax,), fn, "float")
    if k.get("retstep"):
        return (r, step)
    return r


def np_meshgrid(np, a, k):
    it = np.it
    if k.get("indexing", "xy") == "xy" and len(a) == 2:
        x, y = np.asarray(a[0]), np.asarray(a[1])
        x, y = [np.atleast(v, 1) for v in (x, y)]
        if len(x.axes) != 1 or len(y.axes) != 1:
            x, y = np.flatten(x), np.flatten(y)
        ex, ey = x.elem(), y.elem()
        axes = (y.axes[0], x.axes[0])
        return it.list_of([np.new(axes, lambda l: ex((l[1],)), x.dtype), np.new(axes, lambda l: ey((l[0],)), y.dtype)])
    if k.get("indexing") == "ij":
        xs = [np.atleast(np.asarray(v), 1) for v in a]
        axes = tuple(x.axes[0] for x in xs)
        es = [x.elem() for x in xs]
        return it.list_of([np.new(axes, (lambda i: (lambda l: es[i]((l[i],))))(i), xs[i].dtype) for i in range(len(xs))])
    raise Unsupported("meshgrid")


def np_ndindex(np, a, k):
    it = np.it
    sh = a[0] if len(a) == 1 and isinstance(a[0], tuple) else tuple(a)
    axes = np.dom_axes(sh)
    if len(axes) == 1 and axes[0].pack:
        d = axes[0].dom
        return it.new_list((("seq", Seq(d, lambda ls: PackIdx(d, tuple(ls)))),))
    if all(x.const() is not None for x in axes):
        out = [()]
        for x in axes:
            out = [c + (i,) for c in out for i in range(x.const())]
        return it.list_of(out)
    dom, split = np.join_doms([x.dom for x in axes])
    return it.new_list((("seq", Seq(dom, lambda ls: tuple(l[0] for l in split(tuple(ls))))),))


# ------------------------------------------------------------------ conversion
def np_array(np, a, k):
    r = np.asarray(a[0], np.dtype_arg(arg(a, k, 1, "dtype")), copy=True)
    nd = k.get("ndmin", 0)
    if not isinstance(nd, int):
        raise Unsupported("ndmin")
    return np.atleast(r, nd) if nd else r


def np_asarray(np, a, k):
    return np.asarray(a[0], np.dtype_arg(arg(a, k, 1, "dtype")))


np_asanyarray = np_ascontiguousarray = np_asarray


def np_copy(np, a, k):
    return np.asarray(a[0], copy=True)


def np_atleast_1d(np, a, k):
    r = [np.atleast(np.asarray(x), 1) for x in a]
    return r[0] if len(r) == 1 else np.it.list_of(r)


def np_atleast_2d(np, a, k):
    r = [np.atleast(np.asarray(x), 2) for x in a]
    return r[0] if len(r) == 1 else np.it.list_of(r)


def np_ravel(np, a, k):
    return np.flatten(np.asarray(a[0]))


def np_reshape(np, a, k):
    return np.reshape(np.asarray(a[0]), arg(a, k, 1, "shape", k.get("newshape")))


def np_transpose(np, a, k):
    p = arg(a, k, 1, "axes")
    return np.transpose(np.asarray(a[0]), [np.it.conc_int(x) for x in np.it.concrete_items(p)] if p is not None else None)


def np_moveaxis(np, a, k):
    return np.moveaxis(np.asarray(a[0]), np.it.conc_int(a[1]), np.it.conc_int(a[2]))


def np_swapaxes(np, a, k):
    return np.arr_attr(np.asarray(a[0]), "swapaxes").fn(a[1:], {})


def np_squeeze(np, a, k):
    x = np.asarray(a[0])
    ax = arg(a, k, 1, "axis")
    n = len(x.axes)
    ks = [j for j, v in enumerate(x.axes) if v.is_one()] if ax is None else np.norm_axes(x, ax)
    if any(v.const() is None and v.dom.kind == "range" for v in x.axes) and ax is None:
        for v in x.axes:
            if v.const() is None and not np.it.pc.proves(ne(v.dom.size(), ONE)):
                raise Unsupported("squeeze of an array of unknown size")
    for j in ks:
        if not x.axes[j].is_one():
            raise PyRaise("ValueError", "cannot select an axis to squeeze out")
    return np.basic(x, [0 if j in ks else slice(None) for j in range(n)]) if ks else x


def np_expand_dims(np, a, k):
    x = np.asarray(a[0])
    ax = np.it.conc_int(arg(a, k, 1, "axis"))
    n = len(x.axes)
    if ax < 0:
        ax += n + 1
    return np.basic(x, [slice(None)] * ax + [None] + [slice(None)] * (n - ax))


def np_broadcast_to(np, a, k):
    r = np.broadcast_to(np.asarray(a[0]), np.dom_axes(arg(a, k, 1, "shape")))
    r.readonly = True
    return r


def np_broadcast_arrays(np, a, k):
    xs = [np.asarray(x) for x in a]
    axes = np.broadcast_axes([x.axes for x in xs])
    return np.it.list_of([np.broadcast_to(x, axes) for x in xs])


def np_real_if_close(np, a, k):
    it = np.it
    x = np.asarray(a[0])
    if x.dtype != "complex":
        return x
    e = x.elem()
    axes = x.axes
    ls = tuple(v.dom.fresh() for v in axes)
    v = it.cx(e(ls))
    pc = it.pc.child([q.dom.pred(l) for q, l in zip(axes, ls)])
    if v.im.op == "num" and val(v.im) == 0 or pc.prove_zero(v.im):
        return np.new(axes, lambda l: it.cx(e(l)).re, "float")
    raise Unsupported("real_if_close of a complex value")


def np_vectorize(np, a, k):
    f = a[0]
    if isinstance(f, Func):
        g = Func(f.node, f.env, f.module, f.qual, f.cls, f.kind)
        g.defaults, g.kwdefaults, g.vectorized = f.defaults, f.kwdefaults, True
        return g
    raise Unsupported("vectorize")


def np_array_str(np, a, k):
    return StrVal([("fmt", "array_str", a[0])])


np_array2string = np_array_repr = np_array_str


# ------------------------------------------------------------------ reductions
def red(np, a, k, f):
    axis = arg(a, k, 1, "axis")
    return f(a[0], axis=axis, keepdims=bool(k.get("keepdims", False)))


def np_sum(np, a, k):
    kw = {x: k[x] for x in ("where", "initial") if k.get(x) is not None}
    r = np.b_sum(a[0], axis=arg(a, k, 1, "axis"), keepdims=bool(k.get("keepdims", False)), **kw)
    out = k.get("out")
    if out is not None:
        np.write(out, r)
        return out
    return r


np_nansum = np_sum


def np_max(np, a, k):
    return np.b_max(a[0], axis=arg(a, k, 1, "axis"), keepdims=bool(k.get("keepdims", False)), sign=1)


def np_min(np, a, k):
    return np.b_max(a[0], axis=arg(a, k, 1, "axis"), keepdims=bool(k.get("keepdims", False)), sign=-1)


np_amax = np_nanmax = np_max
np_amin = np_nanmin = np_min


def np_ptp(np, a, k):
    return np.it.binop("Sub", np_max(np, a, k), np_min(np, a, k))


def np_mean(np, a, k):
    return np.b_mean(a[0], axis=arg(a, k, 1, "axis"), keepdims=bool(k.get("keepdims", False)))


def np_average(np, a, k):
    w = k.get("weights", a[2] if len(a) > 2 else None)
    axis = arg(a, k, 1, "axis")
    if w is None:
        return np.b_mean(a[0], axis=axis)
    it = np.it
    return it.binop("Div", np.b_sum(it.binop("Mult", np.asarray(a[0]), w), axis=axis), np.b_sum(w, axis=axis))


def np_prod(np, a, k):
    it = np.it
    x = np.asarray(a[0])
    if arg(a, k, 1, "axis") is not None and len(x.axes) != 1:
        raise Unsupported("prod along an axis")
    e = x.elem()
    if all(v.const() is not None and v.const() <= 32 for v in x.axes):
        r = 1
        combos = [()]
        for v in x.axes:
            combos = [c + ((num(i),),) for c in combos for i in range(v.const())]
        for c in combos:
            r = it.sbin("Mult", r, e(c))
        return np.scalar(r)
    return np.scalar(np.binder_axes("prod", x.axes, lambda l: np.rt(e(l))))


def np_std(np, a, k):
    it = np.it
    x = np.asarray(a[0])
    axis = arg(a, k, 1, "axis")
    m = np.b_mean(x, axis=axis, keepdims=True)
    d = it.binop("Sub", x, m)
    return np.un("sqrt", np.f_sqrt, np.fdtype).fn([np.b_mean(it.binop("Mult", d, d), axis=axis)], {})


def np_var(np, a, k):
    it = np.it
    x = np.asarray(a[0])
    axis = arg(a, k, 1, "axis")
    d = it.binop("Sub", x, np.b_mean(x, axis=axis, keepdims=True))
    return np.b_mean(it.binop("Mult", d, d), axis=axis)


def np_any(np, a, k):
    return np.b_all(a[0], arg(a, k, 1, "axis"), bool(k.get("keepdims", False)), any_=True)


def np_all(np, a, k):
    return np.b_all(a[0], arg(a, k, 1, "axis"), bool(k.get("keepdims", False)))


np_alltrue = np_all


def np_argmax(np, a, k):
    return np.b_argmax(a[0], arg(a, k, 1, "axis"), 1)


def np_argmin(np, a, k):
    return np.b_argmax(a[0], arg(a, k, 1, "axis"), -1)


def np_unravel_index(np, a, k):
    it = np.it
    i, shape = a[0], arg(a, k, 1, "shape")
    i = np.item(i)
    if isinstance(i, FlatIdx):
        axes = np.dom_axes(shape)
        if len(axes) == len(i.axes) and all(np.same_axis(x, y) for x, y in zip(axes, i.axes)):
            if all(x.dom.kind == "range" for x in i.axes):
                return tuple(np.scalar(l[0]) for l in i.labels)
            return i
        raise Unsupported("unravel_index for another shape")
    axes = np.dom_axes(shape)
    if len(axes) == 1:
        return (np.scalar(it.t(i)) if not axes[0].pack else PackIdx(axes[0].dom, (it.t(i),)),)
    t, out = it.t(i), []
    for x in reversed(axes):
        n = x.dom.size()
        out.append(np.scalar(mod(t, n)))
        t = idiv(t, n)
    return tuple(reversed(out))


def np_count_nonzero(np, a, k):
    it = np.it
    x = np.asarray(a[0])
    e = x.elem()
    return np.scalar(np.sum_axes(x.axes, lambda l: 1, lambda l: it.to_T(it.truth(e(l)))))


def np_cumsum(np, a, k):
    it = np.it
    x = np.asarray(a[0])
    if len(x.axes) != 1 or x.axes[0].dom.kind != "range":
        raise Unsupported("cumsum")
    e = x.elem()

    def fn(l):
        d = range_dom(add(l[0][0], ONE))
        probe = e(l)
        if isinstance(probe, (Cx, complex)):
            return Cx(d.binder("sum", lambda xs: it.cx(e((tuple(xs),))).re), d.binder("sum", lambda xs: it.cx(e((tuple(xs),))).im))
        return d.binder("sum", lambda xs: it.as_num(it.t(e((tuple(xs),)))))
    return np.new(x.axes, fn, "int" if x.dtype == "bool" else x.dtype)


def np_dot(np, a, k):
    x, y = np.asarray(a[0]), np.asarray(a[1])
    if not x.axes or not y.axes:
        return np.it.binop("Mult", x, y)
    if len(y.axes) > 2:
        raise Unsupported("dot")
    return np.matmul(x, y)


def np_matmul(np, a, k):
    return np.matmul(a[0], a[1])


def np_vdot(np, a, k):
    return np.b_sum(np.it.binop("Mult", np.un("conj", np.f_conj).fn([np.flatten(np.asarray(a[0]))], {}), np.flatten(np.asarray(a[1]))))


def np_inner(np, a, k):
    x, y = np.asarray(a[0]), np.asarray(a[1])
    if len(x.axes) == 1 and len(y.axes) == 1:
        return np.matmul(x, y)
    raise Unsupported("inner")


def np_outer(np, a, k):
    x, y = [np.flatten(np.atleast(np.asarray(v), 1)) for v in a[:2]]
    return np.it.binop("Mult", np.basic(x, [slice(None), None]), y)


def np_cross(np, a, k):
    it = np.it
    x, y = np.asarray(a[0]), np.asarray(a[1])
    g = lambda v, i: np.basic(v, [slice(None)] * (len(v.axes) - 1) + [i])
    c = [it.binop("Sub", it.binop("Mult", g(x, i), g(y, j)), it.binop("Mult", g(x, j), g(y, i))) for i, j in ((1, 2), (2, 0), (0, 1))]
    return np.stack_segs(tuple(("one", v) for v in c), -1)


def np_einsum(np, a, k):
    """explicit form with single-letter subscripts"""
    it = np.it
    spec = a[0].replace(" ", "")
    if "->" not in spec:
        raise Unsupported("einsum without ->")
    ins, out = spec.split("->")
    ops = [np.asarray(x) for x in a[1:]]
    subs = ins.split(",")
    lead = ()
    if "..." in spec:
        raise Unsupported("einsum with an ellipsis")
    dims = {}
    for s, o in zip(subs, ops):
        if len(s) != len(o.axes):
            raise PyRaise("ValueError", "einsum subscripts")
        for c, x in zip(s, o.axes):
            if c in dims and not np.same_axis(dims[c], x):
                raise Unsupported("einsum shapes")
            dims.setdefault(c, x)
    summed = [c for c in dims if c not in out]
    es = [o.elem() for o in ops]

    def fn(labels):
        env = dict(zip(out, labels))

        def body(ls):
            e2 = dict(env)
            e2.update(zip(summed, ls))
            r = 1
            for s, e in zip(subs, es):
                r = it.sbin("Mult", r, e(tuple(e2[c] for c in s)))
            return r
        if not summed:
            return body(())
        return np.sum_axes([dims[c] for c in summed], body)
    d = np.promote(*[o.dtype for o in ops])
    axes = tuple(dims[c] for c in out)
    return np.new(axes, fn, d) if axes else np.scalar(fn(()), d)


def np_tensordot(np, a, k):
    raise Unsupported("tensordot")


def np_trapz(np, a, k):
    raise Unsupported("trapz")


# ------------------------------------------------------------------ selection
def np_where(np, a, k):
    it = np.it
    if len(a) == 1:
        m = np.asarray(a[0])
        if m.dtype != "bool":
            m = it.compare("NotEq", m, 0)
        return where_tuple(np, m)
    if len(a) != 3:
        raise PyRaise("ValueError", "either both or neither of x and y should be given")
    c, x, y = [np.asarray(v) if isinstance(v, (ListRef, tuple)) else v for v in a]

    def f(cc, u, v):
        t = it.to_T(it.truth(cc))
        if t is TRUE:
            return u
        if t is FALSE:
            return v
        return it.site(t, u, v)
    d = np.promote(np.dt(x), np.dt(y))
    g = lambda cc, u, v: np.cast(f(cc, u, v), d)
    r = np.elementwise(g, [c, x, y], d)
    return r if isinstance(r, Arr) else np.scalar(r, d)


def where_tuple(np, m):
    """np.where(mask): a tuple of index arrays over the filtered index set"""
    it = np.it
    if len(m.axes) == 1 and m.axes[0].dom.kind == "range":
        e = m.elem()
        d = m.axes[0].dom.filter(lambda vs: it.to_T(it.truth(e((vs,)))))
        if d.const_size() is not None:
            d = Dom(d.vars, d.los, d.his, TRUE, "prod")
        r = np.new((Axis(d),), lambda l: l[0][0], "int")
        r.where = m
        return (r,)
    return WhereIdx(np.copy(m))


def np_nonzero(np, a, k):
    return np_where(np, a[:1], {})


def np_flatnonzero(np, a, k):
    r = np_where(np, [np.flatten(np.asarray(a[0]))], {})
    if isinstance(r, tuple):
        return r[0]
    raise Unsupported("flatnonzero")


def np_select(np, a, k):
    conds, vals = np.it.concrete_items(a[0]), np.it.concrete_items(a[1])
    r = arg(a, k, 2, "default", 0)
    for c, v in reversed(list(zip(conds, vals))):
        r = np_where(np, [c, v, r], {})
    return r


def np_clip(np, a, k):
    it = np.it
    lo, hi = arg(a, k, 1, "a_min", k.get("min")), arg(a, k, 2, "a_max", k.get("max"))
    r = a[0]
    if lo is not None:
        r = lib_numpy(np, "maximum").fn([r, lo], {})
    if hi is not None:
        r = lib_numpy(np, "minimum").fn([r, hi], {})
    return r


def np_extract(np, a, k):
    return np.getitem(np.asarray(a[1]), np.asarray(a[0]))


def np_take(np, a, k):
    x = np.asarray(a[0])
    ax = arg(a, k, 2, "axis")
    idx = a[1] if not isinstance(a[1], (ListRef, tuple)) else np.asarray(a[1])
    if ax is None:
        if len(x.axes) != 1:
            raise Unsupported("take")
        ax = 0
    ax = np.it.conc_int(ax) % len(x.axes)
    return np.getitem(x, tuple([slice(None)] * ax + [idx]))


def np_compress(np, a, k):
    return np.getitem(np.asarray(a[1]), np.asarray(a[0]))


def np_flip(np, a, k):
    x = np.asarray(a[0])
    ks = np.norm_axes(x, arg(a, k, 1, "axis"))
    return np.basic(x, [slice(None, None, -1) if j in ks else slice(None) for j in range(len(x.axes))])


def np_flipud(np, a, k):
    return np_flip(np, [a[0], 0], {})


def np_fliplr(np, a, k):
    return np_flip(np, [a[0], 1], {})


def np_diff(np, a, k):
    it = np.it
    x = np.asarray(a[0])
    n = arg(a, k, 1, "n", 1)
    if n != 1:
        raise Unsupported("diff of higher order")
    axis = it.conc_int(arg(a, k, 2, "axis", -1)) % len(x.axes)
    hi = [slice(None)] * len(x.axes)
    lo = list(hi)
    hi[axis], lo[axis] = slice(1, None), slice(None, -1)
    if x.axes[axis].dom.kind not in ("range",):
        raise Unsupported("diff over a filtered index set")
    r = it.binop("Sub", np.basic(x, hi), np.basic(x, lo))
    return r


def np_ediff1d(np, a, k):
    return np_diff(np, [np.flatten(np.asarray(a[0]))], {})


def np_roll(np, a, k):
    it = np.it
    x = np.asarray(a[0])
    sh = it.t(np.item(arg(a, k, 1, "shift")))
    axis = arg(a, k, 2, "axis")
    if axis is None:
        if len(x.axes) != 1:
            raise Unsupported("roll of a flattened array")
        axis = 0
    axis = it.conc_int(axis) % len(x.axes)
    ax = x.axes[axis]
    if ax.pack or ax.dom.kind != "range":
        raise Unsupported("roll over a filtered index set")
    n = ax.dom.his[0]
    e = x.elem()

    def fn(labels):
        i = sub(labels[axis][0], sh)
        pc = it.pc
        if pc.proves(and_(ge(sh, ZERO), le(sh, n))):
            i = ite(lt(i, ZERO), add(i, n), i)
        elif pc.proves(and_(le(sh, ZERO), ge(sh, neg(n)))):
            i = ite(ge(i, n), sub(i, n), i)
        else:
            i = mod(i, n)
        return e(labels[:axis] + ((i,),) + labels[axis + 1:])
    return np.new(x.axes, fn, x.dtype)


def np_tile(np, a, k):
    it = np.it
    x = np.atleast(np.asarray(a[0]), 1)
    r = np.item(a[1])
    if isinstance(r, (int, T)) and len(x.axes) == 1 and x.axes[0].dom.kind == "range":
        n = x.axes[0].dom.his[0]
        e = x.elem()
        return np.new((Axis(range_dom(mul(n, it.t(r)))),), lambda l: e(((mod(l[0][0], n),),)), x.dtype)
    raise Unsupported("tile")


def np_repeat(np, a, k):
    it = np.it
    x = np.atleast(np.asarray(a[0]), 1)
    r = np.item(a[1])
    axis = arg(a, k, 2, "axis")
    if axis is None and len(x.axes) == 1 and isinstance(r, (int, T)):
        axis = 0
    if axis is None:
        raise Unsupported("repeat")
    axis = it.conc_int(axis) % len(x.axes)
    ax = x.axes[axis]
    e = x.elem()
    if ax.is_one():
        new = np.dom_axes((r,))[0]
        return np.new(x.axes[:axis] + (new,) + x.axes[axis + 1:], lambda l: e(l[:axis] + ((ZERO,),) + l[axis + 1:]), x.dtype)
    if ax.dom.kind == "range":
        n = ax.dom.his[0]
        new = Axis(range_dom(mul(n, it.t(r))))
        return np.new(x.axes[:axis] + (new,) + x.axes[axis + 1:],
                      lambda l: e(l[:axis] + ((idiv(l[axis][0], it.t(r)),),) + l[axis + 1:]), x.dtype)
    raise Unsupported("repeat")


def np_gradient(np, a, k):
    raise Unsupported("gradient")


def np_unique(np, a, k):
    raise Unsupported("unique")


def np_sort(np, a, k):
    raise Unsupported("sort")


def np_triu_indices(np, a, k):
    raise Unsupported("triu_indices")


# ------------------------------------------------------------------ joining
def np_stack(np, a, k):
    return np.stack_segs(np.it.segments(a[0]), np.it.conc_int(arg(a, k, 1, "axis", 0)))


def np_concatenate(np, a, k):
    axis = arg(a, k, 1, "axis", 0)
    if axis is None:
        raise Unsupported("concatenate of flattened arrays")
    for s in np.it.segments(a[0]):
        if s[0] == "one" and not np.asarray(s[1]).axes:
            raise PyRaise("ValueError", "zero-dimensional arrays cannot be concatenated")
    return np.concat_list(a[0], np.it.conc_int(axis))


def np_hstack(np, a, k):
    it = np.it
    segs = it.segments(a[0])
    if len(segs) == 1 and segs[0][0] == "seq":
        return np.concat_list(a[0], 0)
    arrs = [np.atleast(np.asarray(x), 1) for x in it.concrete_items(a[0])]
    if not arrs:
        raise PyRaise("ValueError", "need at least one array to concatenate")
    return np.concat(arrs, 0 if len(arrs[0].axes) == 1 else 1)


def np_vstack(np, a, k):
    it = np.it
    segs = it.segments(a[0])
    if len(segs) == 1 and segs[0][0] == "seq":
        seq = segs[0][1]
        st = np.stack_segs(segs, 0)
        if len(st.axes) == 2:
            return st
        raise Unsupported("vstack")
    arrs = [np.atleast(np.asarray(x), 2) for x in it.concrete_items(a[0])]
    if not arrs:
        raise PyRaise("ValueError", "need at least one array to concatenate")
    return np.concat(arrs, 0)


np_row_stack = np_vstack


def np_column_stack(np, a, k):
    arrs = [np.asarray(x) for x in np.it.concrete_items(a[0])]
    arrs = [np.basic(x, [slice(None), None]) if len(x.axes) == 1 else x for x in arrs]
    return np.concat(arrs, 1)


def np_dstack(np, a, k):
    arrs = [np.asarray(x) for x in np.it.concrete_items(a[0])]
    if all(len(x.axes) == 2 for x in arrs):
        return np.stack_segs(tuple(("one", x) for x in arrs), 2)
    raise Unsupported("dstack")


def np_append(np, a, k):
    x, y = [np.flatten(np.atleast(np.asarray(v), 1)) for v in a[:2]]
    return np.concat([x, y], 0)


def np_hsplit(np, a, k):
    x = np.asarray(a[0])
    return split(np, x, a[1], 0 if len(x.axes) == 1 else 1)


def np_split(np, a, k):
    return split(np, np.asarray(a[0]), a[1], np.it.conc_int(arg(a, k, 2, "axis", 0)))


def np_array_split(np, a, k):
    raise Unsupported("array_split")


def split(np, x, sec, axis):
    it = np.it
    ax = x.axes[axis]
    if isinstance(sec, (ListRef, tuple)) or (isinstance(sec, Arr) and sec.axes):
        cuts = [it.conc_int(c) for c in it.concrete_items(sec)]
        n = ax.const()
        if n is None:
            raise Unsupported("split of a symbolic axis")
        bounds = [0] + cuts + [n]
        out = []
        for lo, hi in zip(bounds, bounds[1:]):
            idx = [slice(None)] * len(x.axes)
            idx[axis] = slice(lo, max(lo, hi) if hi >= 0 else hi)
            out.append(np.basic(x, idx))
        return it.list_of(out)
    s = np.item(sec)
    n = ax.const()
    if n is not None:
        s = it.conc_int(s)
        if s <= 0 or n % s:
            raise PyRaise("ValueError", "array split does not result in an equal division")
        w = n // s
        out = []
        for i in range(s):
            idx = [slice(None)] * len(x.axes)
            idx[axis] = slice(i * w, (i + 1) * w)
            out.append(np.basic(x, idx))
        return it.list_of(out)
    st = it.t(s)
    if ax.dom.kind == "range" and it.pc.proves(eq(st, ax.dom.his[0])):
        def piece(ls):
            return np.view(x, x.axes[:axis] + (np.const_axis(1),) + x.axes[axis + 1:],
                           lambda l: l[:axis] + ((ls[0],),) + l[axis + 1:],
                           lambda l: (eq(l[axis][0], ls[0]), l[:axis] + ((ZERO,),) + l[axis + 1:]))
        return it.new_list((("seq", Seq(ax.dom, piece)),))
    raise Unsupported("split of a symbolic axis")


# ------------------------------------------------------------------ closeness
def np_isclose(np, a, k):
    k.pop("equal_nan", None)
    return np.b_isclose(a, k)


def np_allclose(np, a, k):
    k.pop("equal_nan", None)
    return np.b_all(np.b_isclose(a, k))


def np_array_equal(np, a, k):
    it = np.it
    x, y = np.asarray(a[0]), np.asarray(a[1])
    if len(x.axes) != len(y.axes):
        return False
    for p, q in zip(x.axes, y.axes):
        if not np.same_axis(p, q):
            if p.const() is not None and q.const() is not None:
                return False
            raise Unsupported("array_equal of unknown shapes")
    return it.truth(np.b_all(it.compare("Eq", x, y)))


def np_shape(np, a, k):
    return np.arr_attr(np.asarray(a[0]), "shape")


def np_size(np, a, k):
    return np.arr_attr(np.asarray(a[0]), "size")


def np_ndim(np, a, k):
    return len(np.asarray(a[0]).axes)


def np_iscomplexobj(np, a, k):
    return np.asarray(a[0]).dtype == "complex"


def np_isscalar(np, a, k):
    return np.it.is_scalar(a[0]) or (isinstance(a[0], Arr) and not a[0].axes)


def np_result_type(np, a, k):
    return Builtin("dtype:" + np.promote(*[np.dt(x) for x in a]), None)


def np_round(np, a, k):
    raise Unsupported("round")


np_around = np_rint = np_round


def np_percentile(np, a, k):
    raise Unsupported("percentile")


def np_apply_along_axis(np, a, k):
    raise Unsupported("apply_along_axis")


def np_fromiter(np, a, k):
    return np.asarray(np.it.new_list(np.it.segments(a[0])), np.dtype_arg(arg(a, k, 1, "dtype")))


def np_may_share_memory(np, a, k):
    raise Unsupported("may_share_memory")


def np_ix_(np, a, k):
    raise Unsupported("ix_")


def np_sinc(np, a, k):
    raise Unsupported("sinc")


def lib_numpy_linalg(np, name):
    it = np.it
    if name == "norm":
        def norm(a, k):
            x = np.asarray(a[0])
            axis = arg(a, k, 2, "axis")
            if arg(a, k, 1, "ord") is not None:
                raise Unsupported("norm order")
            sq = np.elementwise(lambda v: mul(np.rt(np.f_abs(v)), np.rt(np.f_abs(v))), [x], "float")
            return np.un("sqrt", np.f_sqrt, np.fdtype).fn([np.b_sum(sq, axis=axis, keepdims=bool(k.get("keepdims", False)))], {})
        return B("numpy.linalg.norm", norm)
    return None


def lib_numpy_random(np, name):
    return B("numpy.random." + name, lambda a, k: (_ for _ in ()).throw(Unsupported("random numbers")))


# ------------------------------------------------------------------ scipy
def lib_scipy(np, name):
    if name in ("special", "constants"):
        return ModRef("scipy." + name)
    return None


def P(m, l, x):
    return app("P", (m, l, x), "R")


def dP(m, l, x):
    return app("dP", (m, l, x), "R")


def itype(np, v):
    t = np.rt(np.item(v) if isinstance(v, Arr) else v)
    return t


def lib_scipy_special(np, name):
    it = np.it
    if name == "factorial":
        def fact(a, k):
            x = a[0]
            exact = arg(a, k, 1, "exact", False)
            if isinstance(x, (ListRef, tuple)):
                x = np.asarray(x)
            r = np.elementwise(np.f_fact, [x], "float")
            return r if isinstance(r, Arr) else np.scalar(r, "float")
        return B("scipy.special.factorial", fact)
    if name == "gamma":
        def gamma(a, k):
            r = np.elementwise(lambda v: np.f_fact(sub(np.rt(v), ONE)), [a[0]], "float")
            return r if isinstance(r, Arr) else np.scalar(r, "float")
        return B("scipy.special.gamma", gamma)
    if name == "gammaln":
        def gammaln(a, k):
            r = np.elementwise(lambda v: np.f_log(np.f_fact(sub(np.rt(v), ONE))), [a[0]], "float")
            return r if isinstance(r, Arr) else np.scalar(r, "float")
        return B("scipy.special.gammaln", gammaln)
    if name == "lpmv":
        def lpmv(a, k):
            m, l, x = [np.asarray(v) if isinstance(v, (ListRef, tuple)) else v for v in a[:3]]
            r = np.elementwise(lambda m, l, x: P(np.rt(m), np.rt(l), np.rt(x)), [m, l, x], "float")
            return r if isinstance(r, Arr) else np.scalar(r, "float")
        return B("scipy.special.lpmv", lpmv)
    if name == "lpmn":
        def lpmn(a, k):
            m, n, z = [np.item(arg(a, k, i, nm)) for i, nm in enumerate(("m", "n", "z"))]
            if isinstance(z, Arr) or isinstance(z, (Cx, complex)):
                raise PyRaise("ValueError", "z must be scalar.")
            m, n, z = it.t(m), it.t(n), np.rt(z)
            am = m
            if not it.pc.proves(ge(m, ZERO)):
                raise Unsupported("lpmn with a negative order")
            if m.sort != "I":
                raise Unsupported("lpmn with a non-integer order")
            if not it.decide(le(m, n)):
                raise PyRaise("ValueError", "m must be <= n.")
            if not it.decide(ge(n, ZERO)):
                raise PyRaise("ValueError", "n must be a non-negative integer.")
            axes = (Axis(range_dom(add(m, ONE))), Axis(range_dom(add(n, ONE))))
            return (np.new(axes, lambda l: P(l[0][0], l[1][0], z), "float"), np.new(axes, lambda l: dP(l[0][0], l[1][0], z), "float"))
        return B("scipy.special.lpmn", lpmn)
    if name == "sph_harm":
        def sph(a, k):
            m, n, th, ph = [np.asarray(v) if isinstance(v, (ListRef, tuple)) else v for v in a[:4]]

            def f(m, n, az, pl):
                m, n, az, pl = [np.rt(v) for v in (m, n, az, pl)]
                return ylm(np, m, n, az, pl)
            r = np.elementwise(f, [m, n, th, ph], "complex")
            return r if isinstance(r, Arr) else np.scalar(r, "complex")
        return B("scipy.special.sph_harm", sph)
    if name == "lambertw":
        def lam(a, k):
            z = np.asarray(a[0]) if isinstance(a[0], (ListRef, tuple)) else a[0]
            b = arg(a, k, 1, "k", 0)
            b = np.asarray(b) if isinstance(b, (ListRef, tuple)) else b
            r = np.elementwise(lambda z, b: Cx(app("lambertw", (np.rt(b), np.rt(z)), "R"), ZERO), [z, b], "complex")
            return r if isinstance(r, Arr) else np.scalar(r, "complex")
        return B("scipy.special.lambertw", lam)
    return None


def ylm(np, m, n, az, pl):
    """spherical harmonic by its definition"""
    amp = app("Yamp", (m, n, pl), "R")
    return Cx(mul(amp, np.f_cos(mul(m, az))), mul(amp, np.f_sin(mul(m, az))))


def lib_scipy_constants(np, name):
    if name == "pi":
        return PI
    v = {"proton_mass": "proton_mass", "m_p": "proton_mass", "gravitational_constant": "gravitational_constant", "G": "gravitational_constant",
         "Boltzmann": "Boltzmann", "k": "Boltzmann"}.get(name, name)
    t = var("const." + v, "R")
    np.it.axiom(gt(t, ZERO))
    np.it.constants = getattr(np.it, "constants", set()) | {t}
    return t


# ------------------------------------------------------------------ math, cmath
def scal(np, v):
    v = np.item(v)
    if isinstance(v, Arr):
        if all(a.is_one() for a in v.axes):
            v = v.elem()(tuple((ZERO,) for _ in v.axes))
        else:
            raise PyRaise("TypeError", "only length-1 arrays can be converted to Python scalars")
    if isinstance(v, (Cx, complex)):
        raise PyRaise("TypeError", "must be real number, not complex")
    if not np.it.is_scalar(v):
        raise PyRaise("TypeError", "must be real number")
    return v


def lib_math(np, name):
    it = np.it
    if name == "pi":
        return PI
    if name == "tau":
        return mul(num(2), PI)
    one = {"sin": np.f_sin, "cos": np.f_cos, "exp": np.f_exp, "log": np.f_log, "fabs": np.f_abs,
           "acos": lambda v: app("arccos", (np.rt(v),), "R"), "radians": lambda v: div(mul(np.rt(v), PI), num(180)),
           "degrees": lambda v: div(mul(np.rt(v), num(180)), PI), "tan": lambda v: div(np.f_sin(v), np.f_cos(v)),
           "factorial": np.f_fact}
    if name == "sqrt":
        def sq(a, k):
            v = np.rt(scal(np, a[0]))
            if not it.pc.is_nonneg(v) and not it.decide(ge(v, ZERO)):
                raise PyRaise("ValueError", "math domain error")
            return tm.sqrt(v)
        return B("math.sqrt", sq)
    if name in one:
        return B("math." + name, lambda a, k: one[name](scal(np, a[0])))
    if name == "pow":
        return B("math.pow", lambda a, k: np.realize(it.t(it.sbin("Pow", scal(np, a[0]), scal(np, a[1])))))
    if name == "atan2":
        return B("math.atan2", lambda a, k: app("atan2", (np.rt(scal(np, a[0])), np.rt(scal(np, a[1]))), "R"))
    if name == "hypot":
        return B("math.hypot", lambda a, k: tm.sqrt(add(*[mul(np.rt(scal(np, x)), np.rt(scal(np, x))) for x in a])))
    if name == "floor":
        def floor(a, k):
            t = np.rt(scal(np, a[0]))
            return t if t.sort == "I" else app("floor", (t,), "I")
        return B("math.floor", floor)
    if name == "ceil":
        def ceil(a, k):
            t = np.rt(scal(np, a[0]))
            return t if t.sort == "I" else neg(app("floor", (neg(t),), "I"))
        return B("math.ceil", ceil)
    if name == "isclose":
        def close(a, k):
            x, y = np.rt(scal(np, a[0])), np.rt(scal(np, a[1]))
            rel, ab = np.rt(k.get("rel_tol", 1e-9)), np.rt(k.get("abs_tol", 0.0))
            if np.eq0(sub(x, y)):
                return True
            return le(tabs(sub(x, y)), tmax(mul(rel, tmax(tabs(x), tabs(y))), ab))
        return B("math.isclose", close)
    if name in ("isnan", "isinf"):
        return B("math." + name, lambda a, k: False)
    if name == "isfinite":
        return B("math." + name, lambda a, k: True)
    return None


def cscal(np, v):
    v = np.item(v)
    if isinstance(v, Arr) and all(a.is_one() for a in v.axes):
        v = v.elem()(tuple((ZERO,) for _ in v.axes))
    if not np.it.is_scalar(v):
        raise PyRaise("TypeError", "must be a number")
    return np.it.cx(v)


def lib_cmath(np, name):
    it = np.it
    if name == "pi":
        return PI
    if name == "polar":
        def polar(a, k):
            c = cscal(np, a[0])
            return (np.it.t(np.f_abs(c)), app("atan2", (c.im, c.re), "R"))
        return B("cmath.polar", polar)
    if name == "phase":
        return B("cmath.phase", lambda a, k: np.f_angle(cscal(np, a[0])))
    if name == "rect":
        def rect(a, k):
            r, p = np.rt(scal(np, a[0])), scal(np, a[1])
            return Cx(mul(r, np.f_cos(p)), mul(r, np.f_sin(p)))
        return B("cmath.rect", rect)
    if name == "exp":
        return B("cmath.exp", lambda a, k: it.cx(np.f_exp(cscal(np, a[0]))))
    if name == "sqrt":
        return B("cmath.sqrt", lambda a, k: np.f_sqrt(cscal(np, a[0])))
    return None


def lib_os(np, name):
    if name == "path":
        return ModRef("os.path")
    h = getattr(np.it, "os_model", None)
    if h is not None:
        return h("os." + name)
    return None


def lib_os_path(np, name):
    h = getattr(np.it, "os_model", None)
    if h is not None:
        return h("os.path." + name)
    return None


def lib_quaternion(np, name):
    it = np.it
    if name == "from_euler_angles":
        def fe(a, k):
            x = np.asarray(a[0]) if not isinstance(a[0], Arr) else a[0]
            if len(a) == 3:
                ts = [np.rt(np.item(v)) for v in a]
            else:
                if len(x.axes) != 1 or x.axes[0].const() != 3:
                    raise Unsupported("from_euler_angles")
                e = x.elem()
                ts = [np.rt(e(((num(i),),))) for i in range(3)]
            return Opaque("quaternion", app("euler", tuple(ts), "U"))
        return B("quaternion.from_euler_angles", fe)
    if name == "quaternion":
        return B("quaternion.quaternion", lambda a, k: Opaque("quaternion", app("quat", tuple(np.rt(np.item(v)) for v in a), "U")))
    return None


def lib_spherical_functions(np, name):
    it = np.it
    if name == "Wigner_D_element":
        def wd(a, k):
            if len(a) != 4 or not isinstance(a[0], Opaque) or a[0].term is None:
                raise Unsupported("Wigner_D_element")
            l, mp, m = [np.rt(np.item(v)) for v in a[1:]]
            args = (a[0].term, l, mp, m)
            return Cx(app("Dre", args, "R"), app("Dim", args, "R"))
        return B("spherical_functions.Wigner_D_element", wd)
    return None


# ------------------------------------------------------------------ misc
def lib_functools(np, name):
    if name == "partial":
        def partial(a, k):
            f, pre, kw = a[0], list(a[1:]), dict(k)
            return B("partial", lambda a2, k2: np.it.call(f, pre + list(a2), {**kw, **k2}))
        return B("functools.partial", partial)
    if name == "reduce":
        def reduce(a, k):
            items = np.it.concrete_items(a[1])
            r = a[2] if len(a) > 2 else items.pop(0)
            for x in items:
                r = np.it.call(a[0], [r, x], {})
            return r
        return B("functools.reduce", reduce)
    if name in ("lru_cache", "cache", "cached_property", "wraps"):
        return Opaque("functools." + name)
    return None


def lib_itertools(np, name):
    it = np.it
    if name == "product":
        def product(a, k):
            segs = [it.segments(x) for x in a]
            if all(all(s[0] == "one" for s in l) for l in segs):
                out = [()]
                for l in segs:
                    out = [c + (s[1],) for c in out for s in l]
                return it.list_of(out)
            if all(len(l) == 1 and l[0][0] == "seq" for l in segs):
                dom, sp = np.join_doms([l[0][1].dom for l in segs])
                return it.new_list((("seq", Seq(dom, lambda ls: tuple(l[0][1].fn(p) for l, p in zip(segs, sp(tuple(ls)))))),))
            raise Unsupported("itertools.product")
        return B("itertools.product", product)
    if name == "chain":
        def chain(a, k):
            out = ()
            for x in a:
                out += tuple(it.segments(x))
            return it.new_list(out)
        return B("itertools.chain", chain)
    if name == "count":
        raise Unsupported("itertools.count")
    return None


def lib_random(np, name):
    if name == "random":
        def rnd(a, k):
            t = fresh("rnd", "R")
            np.it.axiom(and_(ge(t, ZERO), lt(t, ONE)))
            return t
        return B("random.random", rnd)
    return None


def lib_time(np, name):
    return B("time." + name, lambda a, k: fresh("time", "R"))


# ------------------------------------------------------------------ argparse
def lib_argparse(np, name):
    """argparse for one command line, given by the contract as it.argv = (positionals, {option: value or True})"""
    it = np.it
    if name in ("ArgumentDefaultsHelpFormatter", "RawTextHelpFormatter", "RawDescriptionHelpFormatter", "SUPPRESS"):
        return Opaque("argparse." + name)
    if name != "ArgumentParser" or not hasattr(it, "argv"):
        return None

    def make_parser(a, k):
        decl = it.new_list()
        p = Opaque("parser")

        def add(a, k):
            bad = set(k) - {"type", "help", "nargs", "dest", "action", "const", "default", "required", "metavar", "version"}
            if bad or not all(isinstance(x, str) for x in a):
                raise Unsupported("add_argument")
            it.heap[decl.cid] = it.heap[decl.cid] + (("one", (tuple(a), tuple(sorted(k.items(), key=lambda q: q[0])))),)
            return Opaque("argparse.action")

        def parse(a, k):
            if a or k:
                raise Unsupported("parse_args of a given list")
            pos, opts = it.argv
            pos, opts = list(pos), dict(opts)
            ns = {}
            for _, (names, kw) in it.heap[decl.cid]:
                kw = dict(kw)
                action = kw.get("action", "store")
                if not names[0].startswith("-"):
                    if kw.get("nargs") not in (None, "?") or action != "store" or kw.get("type", it.builtins["str"]) is not it.builtins["str"]:
                        raise Unsupported("positional argument")
                    if pos:
                        ns[names[0]] = pos.pop(0)
                    elif kw.get("nargs") == "?":
                        ns[names[0]] = kw.get("default")
                    else:
                        raise PyRaise("SystemExit", "missing " + names[0])
                    continue
                if kw.get("nargs") is not None:
                    raise Unsupported("nargs of an option")
                dest = kw.get("dest") or ([n for n in names if n.startswith("--")] or list(names))[0].lstrip("-").replace("-", "_")
                if action == "version" or action == "help":
                    continue
                given = [n for n in names if n in opts]
                if action == "store_const":
                    on, off = kw.get("const"), kw.get("default")
                elif action in ("store_true", "store_false"):
                    on, off = action == "store_true", kw.get("default", action != "store_true")
                elif action == "store":
                    on, off = None, kw.get("default")
                    if given:
                        on = opts[given[0]]
                        if not (kw.get("type") is it.builtins["int"] and (isinstance(on, int) or isinstance(on, T) and on.sort == "I")):
                            raise Unsupported("type of an option")
                else:
                    raise Unsupported("action of an option")
                if given:
                    ns[dest] = on
                    for n in given:
                        del opts[n]
                else:
                    ns.setdefault(dest, off)
            if pos or opts:
                raise PyRaise("SystemExit", "unrecognised arguments")
            o = Opaque("namespace")

            def attrs(n):
                if n not in ns:
                    raise PyRaise("AttributeError", n)
                return ns[n]
            o.attrs = attrs
            return o

        def attrs(n):
            if n == "add_argument":
                return B("add_argument", add)
            if n == "parse_args":
                return B("parse_args", parse)
            raise Unsupported("parser." + n)
        p.attrs = attrs
        return p
    return B("argparse.ArgumentParser", make_parser)
