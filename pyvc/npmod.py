"""Library models: Python builtins, numpy, the scipy functions used, cmath, math, os, strings.

Every model is an assumed contract on a dependency (listed in the evidence as trusted).  Arrays are
functions from index labels to scalars; machine floats are real numbers."""
import ast
import math
import re
from fractions import Fraction

from terms import *
import terms as tm
from values import *
import solve
import numeric

RANK = {"bool": 0, "int": 1, "float": 2, "complex": 3}
EXC_NAMES = ["IndexError", "KeyError", "LookupError", "ValueError", "TypeError", "AssertionError", "AttributeError", "NameError",
             "ZeroDivisionError", "OSError", "FileNotFoundError", "FileExistsError", "NotImplementedError", "RuntimeError",
             "StopIteration", "Exception", "BaseException", "UnicodeDecodeError", "ArithmeticError"]


class RankIdx:
    """position of the element with these labels in the enumeration of dom"""
    def __init__(self, dom, labels):
        self.dom, self.labels = dom, labels


class PackIdx:
    """a full index into an array of unknown rank"""
    def __init__(self, dom, labels):
        self.dom, self.labels = dom, labels


class WhereIdx:
    """result of np.where(mask) / nonzero"""
    def __init__(self, mask):
        self.mask = mask


class FlatIdx:
    """a flat index given by one label tuple per axis"""
    def __init__(self, axes, labels):
        self.axes, self.labels = axes, labels


class Transparent:
    def __init__(self, **k):
        self.__dict__.update(k)


def sort_dtype(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, (float, Fraction)):
        return "float"
    if isinstance(v, (complex, Cx)):
        return "complex"
    if isinstance(v, T):
        return {"B": "bool", "I": "int", "R": "float"}[v.sort]
    raise Unsupported("no dtype for %s" % type(v).__name__)


class NP:
    def __init__(self, it):
        self.it = it
        self._b = None

    # ---------------------------------------------------------------- making arrays
    def new(self, axes, fn, dtype):
        it = self.it
        return Arr(it, it.alloc(AData(axes, fn, dtype)), axes)

    def scalar(self, v, dtype=None):
        return self.new((), lambda labels: v, dtype or sort_dtype(v))

    def const_axis(self, n):
        return Axis(range_dom(n))

    def dom_axes(self, shape):
        """shape argument -> axes"""
        if isinstance(shape, Arr):
            shape = tuple(self.it.concrete_items(shape)) if shape.axes else (shape,)
        if isinstance(shape, ListRef):
            shape = tuple(self.it.concrete_items(shape))
        if not isinstance(shape, tuple):
            shape = (shape,)
        out = []
        for s in shape:
            if isinstance(s, PackDim):
                out.append(Axis(s.dom, True))
                continue
            s = self.item(s)
            if isinstance(s, Transparent) and s.kind == "size":
                out.append(Axis(s.dom))
                continue
            if isinstance(s, (int, bool)):
                if s < 0:
                    raise PyRaise("ValueError", "negative dimensions are not allowed")
                out.append(Axis(range_dom(int(s))))
            elif isinstance(s, T) and s.sort == "I":
                if not self.it.decide(ge(s, ZERO)):
                    raise PyRaise("ValueError", "negative dimensions are not allowed")
                d = self.known_sizes().get(s)
                out.append(Axis(d if d is not None else range_dom(s)))
            else:
                raise PyRaise("TypeError", "bad shape")
        return tuple(out)

    def known_sizes(self):
        return getattr(self.it, "size_doms", {})

    def note_size(self, dom, t):
        """remember which index set a symbolic length came from"""
        if not hasattr(self.it, "size_doms"):
            self.it.size_doms = {}
        if dom.kind != "range" and t.op != "num":
            self.it.size_doms.setdefault(t, dom)

    def asarray(self, v, dtype=None, copy=False):
        it = self.it
        if isinstance(v, Arr):
            r = v
            if copy:
                r = self.copy(v)
        elif it.is_scalar(v):
            r = self.scalar(v)
        elif isinstance(v, (tuple, ListRef, range, Seq)):
            r = self.stack_segs(it.segments(v), 0, nested=True)
        elif isinstance(v, WhereIdx):
            raise Unsupported("array of an index tuple")
        elif isinstance(v, FlatIdx):
            raise Unsupported("array of a flat index")
        else:
            raise Unsupported("asarray of %s" % type(v).__name__)
        if dtype is not None and dtype != r.dtype:
            r = self.astype(r, dtype)
        return r

    def copy(self, a):
        return self.new(a.axes, a.elem(), a.dtype)

    def astype(self, a, dtype):
        e = a.elem()
        if dtype == a.dtype:
            return self.new(a.axes, e, dtype)
        return self.new(a.axes, lambda labels: self.cast(e(labels), dtype), dtype)

    def cast(self, v, dtype):
        it = self.it
        have = sort_dtype(v)
        if have == dtype or dtype is None:
            return v
        if dtype == "complex":
            return it.cx(v)
        if dtype == "float":
            if have == "complex":
                return it.cx(v).re
            return self.realize(v)
        if dtype == "int":
            if have == "complex":
                v = it.cx(v).re
                have = "float"
            if have == "bool":
                return it.as_num(it.t(v))
            return self.trunc(it.t(v))
        if dtype == "bool":
            return it.to_T(it.truth(v))
        raise Unsupported("cast to %s" % dtype)

    def realize(self, v):
        t = self.it.as_num(self.it.t(v))
        return tm.real(t)

    def trunc(self, t):
        if t.sort == "I":
            return t
        if t.op == "num":
            return num(int(val(t)), "I")
        return ite(ge(t, ZERO), app("floor", (t,), "I"), neg(app("floor", (neg(t),), "I")))

    def promote(self, *ds):
        ds = [d for d in ds if d is not None]
        return max(ds, key=lambda d: RANK.get(d, 9)) if ds else "float"

    def dt(self, v):
        if isinstance(v, Arr):
            return v.dtype
        return sort_dtype(v)

    def dtype_arg(self, d):
        if d is None:
            return None
        if isinstance(d, Builtin):
            n = d.name.split(":")[-1].split(".")[-1]
        elif isinstance(d, str):
            n = d
        else:
            raise Unsupported("dtype argument")
        for k in ("complex", "float", "int", "bool"):
            if n.startswith(k):
                return k
        raise Unsupported("dtype " + n)

    def bin_dtype(self, op, a, b):
        da, db = self.dt(a), self.dt(b)
        d = self.promote(da, db)
        if op == "Div":
            return self.promote(d, "float")
        if op == "Pow":
            if d in ("int", "bool"):
                self.check_int_pow(b)
                return "int"
            if isinstance(b, float) or db == "float":
                return self.promote(d, "float")
            return d
        if op in ("BitAnd", "BitOr", "BitXor"):
            return d
        if d == "bool":
            if op == "Sub":
                raise PyRaise("TypeError", "numpy boolean subtract")
            return "bool" if op in ("Add", "Mult") else "int"
        return d

    def check_int_pow(self, b):
        it = self.it
        if isinstance(b, Arr):
            labels = tuple(a.dom.fresh() for a in b.axes)
            v = it.t(b.elem()(labels))
            pc = it.pc.child([a.dom.pred(l) for a, l in zip(b.axes, labels)])
            if pc.proves(ge(it.as_num(v), ZERO)):
                return
            raise Unsupported("integer power with an exponent of unknown sign")
        v = it.as_num(it.t(b))
        if not it.decide(ge(v, ZERO)):
            raise PyRaise("ValueError", "Integers to negative integer powers are not allowed.")

    # ---------------------------------------------------------------- broadcasting
    def same_axis(self, x, y):
        if x is y:
            return True
        if x.pack != y.pack:
            return False
        return self.same_dom(x.dom, y.dom)

    def same_dom(self, x, y):
        if x is y:
            return True
        if x.arity != y.arity:
            return False
        ox = x.order if x.order != "lex" else "lex"
        oy = y.order if y.order != "lex" else "lex"
        if ox != oy:
            return False
        if x.same_syntax(y):
            return True
        if x.kind == "pack" or y.kind == "pack":
            return False
        if x.kind == y.kind == "range":
            return self.it.pc.proves(eq(x.his[0], y.his[0]))
        ls = x.fresh()
        p, q = x.pred(ls), y.pred(ls)
        if p is q:
            return True
        return self.it.pc.proves(implies(p, q)) and self.it.pc.proves(implies(q, p))

    def broadcast_axes(self, axlists):
        n = max(len(a) for a in axlists)
        out = []
        for i in range(1, n + 1):
            cur = None
            for axs in axlists:
                if len(axs) < i:
                    continue
                a = axs[-i]
                if cur is None or (cur.is_one() and not a.is_one()):
                    if cur is not None and a.pack and len([x for x in axlists if len(x) > i]):
                        pass
                    cur = a
                elif a.is_one():
                    continue
                elif not self.same_axis(cur, a):
                    cur = self.reconcile(cur, a)
            if cur.pack:
                for axs in axlists:
                    if len(axs) > i and not (axs[-i].pack):
                        raise Unsupported("broadcast of an array of unknown rank against a higher rank")
            out.append(cur)
        return tuple(reversed(out))

    def reconcile(self, a, b):
        it = self.it
        if a.pack or b.pack:
            raise Unsupported("broadcast of unknown shapes")
        if a.const() is not None and b.const() is not None:
            raise PyRaise("ValueError", "operands could not be broadcast together")
        sa, sb = a.dom.size(), b.dom.size()
        if a.dom.kind == "range" and b.dom.kind == "range":
            if it.decide(eq(sa, sb)):
                return a
            if it.pc.proves(ne(sa, ONE)) and it.pc.proves(ne(sb, ONE)):
                raise PyRaise("ValueError", "operands could not be broadcast together")
        raise Unsupported("broadcast of index sets not shown equal")

    def axis_map(self, axes, out):
        """labels of the broadcast result -> labels of the operand"""
        k = len(out) - len(axes)
        ones = tuple(a.is_one() and not o.is_one() for a, o in zip(axes, out[k:]))
        if not any(ones):
            if k == 0:
                return None
            return lambda labels: labels[k:]
        zero = (ZERO,)
        return lambda labels: tuple(zero if o else l for o, l in zip(ones, labels[k:]))

    def elementwise(self, fn, ops, dtype=None, out=None, where=None):
        it = self.it
        extra = [where] if isinstance(where, Arr) else []
        arrs = [o for o in list(ops) + extra if isinstance(o, Arr)]
        axes = self.broadcast_axes([a.axes for a in arrs] + ([out.axes] if isinstance(out, Arr) else [])) if arrs else ()
        if dtype is None:
            dtype = self.promote(*[self.dt(o) for o in ops])
        getters = []
        for o in ops:
            getters.append(self.getter(o, axes))
        if all(not isinstance(o, Arr) for o in ops) and not isinstance(where, Arr) and out is None:
            return fn(*ops)

        def f(labels):
            return fn(*[g(labels) for g in getters])
        if where is not None and where is not True:
            w = self.getter(where, axes)
            old = self.getter(out, axes) if out is not None else (lambda labels: self.undef(labels))
            f0 = f

            def f(labels):
                c = it.to_T(it.truth(w(labels)))
                if c is FALSE:
                    return old(labels)
                if c is TRUE:
                    return f0(labels)
                return it.site(c, f0(labels), old(labels))
        if out is not None:
            dd = out.dtype
            if RANK.get(dtype, 0) > RANK.get(dd, 0):
                raise PyRaise("TypeError", "Cannot cast ufunc output")
            if len(axes) != len(out.axes):
                raise PyRaise("ValueError", "non-broadcastable output operand")
            self.write(out, self.new(axes, f, dd))
            return out
        return self.new(axes, f, dtype)

    def getter(self, o, axes):
        if not isinstance(o, Arr):
            return lambda labels: o
        e, m = o.elem(), self.axis_map(o.axes, axes)
        if m is None:
            return e
        return lambda labels: e(m(labels))

    _uninit = 0

    def undef(self, labels):
        NP._uninit += 1
        return app("uninit%d" % NP._uninit, tuple(t for l in labels for t in l), "R")

    def broadcast_to(self, a, axes):
        g = self.getter(a, axes)
        return self.new(axes, g, a.dtype)

    # ---------------------------------------------------------------- writing
    def write(self, arr, new):
        """store an array (same axes) through a view"""
        it = self.it
        self.check_write(arr)
        base = arr.data
        g = self.getter(new, arr.axes)
        dd = base.dtype
        if new.dtype != dd:
            g0 = g
            g = lambda labels: self.cast(g0(labels), dd)
        if arr.fwd is None:
            nd = AData(base.axes if arr.entry is None else arr.axes, g, dd)
        else:
            old, inv = base.fn, arr.inv
            if inv is None:
                raise Unsupported("assignment through this view")

            def fn(labels):
                c, vl = inv(labels)
                if c is FALSE:
                    return old(labels)
                if c is TRUE:
                    return g(vl)
                return it.site(c, g(vl), old(labels))
            nd = AData(base.axes, fn, dd)
        self.put(arr, nd)

    def put(self, arr, nd):
        it = self.it
        if arr.entry is not None:
            tmp = Arr(it, it.alloc(nd), nd.axes)
            it.map_write(arr.cid, it.heap[arr.cid], arr.entry, tmp)
        else:
            it.heap[arr.cid] = nd

    def check_write(self, arr):
        it = self.it
        if arr.cid in it.shared:
            it.violations.append("a cached result of %s is modified in place" % it.shared[arr.cid])
        if getattr(arr, "readonly", False):
            raise PyRaise("ValueError", "assignment destination is read-only")

    def check_inplace_cast(self, old, new, op):
        if isinstance(new, Arr) and RANK.get(new.dtype, 0) > RANK.get(old.dtype, 0):
            raise PyRaise("TypeError", "Cannot cast ufunc output in place")

    def mark_shared(self, v, qual):
        if isinstance(v, Arr):
            self.it.shared = dict(self.it.shared)
            self.it.shared[v.cid] = qual
        elif isinstance(v, tuple):
            for x in v:
                self.mark_shared(x, qual)

    # ---------------------------------------------------------------- indexing
    def item(self, v):
        if isinstance(v, Arr) and not v.axes:
            return v.elem()(())
        return v

    def take_label(self, arr, labels):
        """element(s) at given labels of the first axis, as a view"""
        rest = arr.axes[1:]
        return self.view(arr, rest, lambda ls: (labels,) + ls,
                         lambda ls: (and_(*[eq(x, y) for x, y in zip(ls[0], labels)]), ls[1:]))

    def view(self, arr, axes, fwd, inv):
        f0, i0 = arr.fwd, arr.inv
        if f0 is not None:
            f1, i1 = fwd, inv
            fwd = lambda ls: f0(f1(ls))

            def inv(ls):
                c0, v0 = i0(ls)
                c1, v1 = i1(v0)
                return and_(c0, c1), v1
            if i0 is None:
                inv = None
        r = Arr(self.it, arr.cid, axes, fwd, inv, arr.entry)
        if getattr(arr, "readonly", False):
            r.readonly = True
        return r

    def norm_index(self, arr, idx):
        it = self.it
        if isinstance(idx, ListRef):
            idx = self.asarray(idx)
        if isinstance(idx, FlatIdx):
            return idx
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = list(idx)
        for k, x in enumerate(idx):
            if isinstance(x, (ListRef, range)) or (isinstance(x, tuple)):
                idx[k] = self.asarray(x)
            elif isinstance(x, Arr) and not x.axes and x.dtype != "bool":
                idx[k] = self.item(x)
        used = 0
        for x in idx:
            if x is None or x is Ellipsis:
                continue
            if isinstance(x, Arr) and x.dtype == "bool":
                used += len(x.axes)
            elif isinstance(x, WhereIdx):
                used += len(x.mask.axes)
            else:
                used += 1
        if Ellipsis not in [x for x in idx if not isinstance(x, (Arr, T, Cx))]:
            idx.append(Ellipsis)
        out = []
        for x in idx:
            if x is Ellipsis:
                n = len(arr.axes) - used
                if n < 0:
                    if any(a.pack for a in arr.axes):
                        raise Unsupported("indexing into an array of unknown rank")
                    raise PyRaise("IndexError", "too many indices for array")
                out += [slice(None)] * n
            else:
                out.append(x)
        return out

    def slice_axis(self, ax, s):
        """-> (new axis, fwd label fn, inv label fn)"""
        it = self.it
        start, stop, step = [None if x is None else self.item(x) for x in (s.start, s.stop, s.step)]
        if step is None:
            step = 1
        if start is None and stop is None and step == 1:
            return ax, None, None
        if ax.pack:
            raise Unsupported("slice of an array of unknown rank")
        n = ax.const()
        if n is not None and all(x is None or isinstance(x, int) for x in (start, stop)) and isinstance(step, int):
            lo, hi, st = slice(start, stop, step).indices(n)
            m = len(range(lo, hi, st))
            new = self.const_axis(m)

            def fwd(l):
                return (add(num(lo), mul(num(st), l[0])),)

            def inv(l):
                x = l[0]
                if x.op == "num":
                    v = int(val(x))
                    r = range(lo, hi, st)
                    return (TRUE, (num(r.index(v)),)) if v in r else (FALSE, (ZERO,))
                d = sub(x, num(lo))
                if st == 1:
                    return and_(ge(d, ZERO), lt(d, num(m))), (d,)
                return and_(eq(mod(d, num(abs(st))), ZERO), ge(idiv(d, num(st)), ZERO), lt(idiv(d, num(st)), num(m))), (idiv(d, num(st)),)
            return new, fwd, inv
        if ax.dom.kind != "range":
            raise Unsupported("slice of a filtered index set")
        n = ax.dom.his[0]
        if step == -1 and start is None and stop is None:
            f = lambda l: (sub(sub(n, ONE), l[0]),)
            return ax, f, lambda l: (TRUE, f(l))
        if step != 1:
            raise Unsupported("slice step")

        def clip(x, default):
            if x is None:
                return default
            x = it.t(x)
            if it.pc.proves(lt(x, ZERO)):
                x = add(n, x)
                return x if it.pc.proves(ge(x, ZERO)) else tmax(x, ZERO)
            if not it.pc.proves(ge(x, ZERO)):
                x = ite(lt(x, ZERO), tmax(add(n, x), ZERO), x)
            return x if it.pc.proves(le(x, n)) else tmin(x, n)
        lo, hi = clip(start, ZERO), clip(stop, n)
        m = sub(hi, lo)
        if not it.pc.proves(ge(m, ZERO)):
            m = tmax(m, ZERO)
        new = Axis(range_dom(m))
        return new, (lambda l: (add(lo, l[0]),)), (lambda l: (and_(ge(l[0], lo), lt(l[0], hi)), (sub(l[0], lo),)))

    def int_index(self, ax, i):
        """labels of position i on an axis (bounds checked)"""
        it = self.it
        if isinstance(i, RankIdx):
            if self.same_dom(ax.dom, i.dom) and not ax.pack:
                return i.labels
            i = it.t(i)
        if isinstance(i, PackIdx):
            if not ax.pack or not self.same_dom(ax.dom, i.dom):
                raise Unsupported("index of an array of unknown rank")
            return i.labels
        if ax.pack:
            raise Unsupported("integer index into an array of unknown rank")
        if isinstance(i, bool) or (isinstance(i, T) and i.sort != "I") or not isinstance(i, (int, T)):
            if isinstance(i, (float, complex, Cx, T)):
                raise PyRaise("IndexError", "only integers are valid indices")
            raise Unsupported("index of type %s" % type(i).__name__)
        n = ax.const()
        if n is not None and isinstance(i, int):
            if not -n <= i < n:
                raise PyRaise("IndexError", "index out of bounds")
            return (num(i % n),)
        i = it.t(i)
        if ax.dom.kind == "pack" and not ax.pack:
            pass
        elif ax.dom.kind != "range":
            sz = ax.dom.size()
            if i.op == "num" and val(i) == 0:
                if not it.decide(ax.dom.binder("exists", lambda xs: TRUE)):
                    raise PyRaise("IndexError", "index out of bounds")
                return tuple(app("first_%d" % id(ax.dom), (num(k),), "I") for k in range(ax.dom.arity))
            raise Unsupported("position index into a filtered index set")
        n = ax.dom.his[0]
        if it.pc.proves(and_(ge(i, ZERO), lt(i, n))):
            return (i,)
        if it.pc.proves(and_(lt(i, ZERO), ge(i, neg(n)))):
            return (add(i, n),)
        if not it.decide(and_(ge(i, neg(n)), lt(i, n))):
            raise PyRaise("IndexError", "index out of bounds")
        return (ite(lt(i, ZERO), add(i, n), i),)

    def getitem(self, arr, idx):
        it = self.it
        idx = self.norm_index(arr, idx)
        if isinstance(idx, FlatIdx):
            if len(idx.labels) == len(arr.axes) and all(self.same_axis(x, y) for x, y in zip(arr.axes, idx.axes)):
                v = arr.elem()(tuple(idx.labels))
                return self.scalar(v, arr.dtype)
            raise Unsupported("flat index")
        if any(isinstance(x, (Arr, WhereIdx)) for x in idx):
            return self.adv_get(arr, idx)
        return self.basic(arr, idx)

    def basic(self, arr, idx):
        axes, plan, src = [], [], 0
        for x in idx:
            if x is None:
                axes.append(self.const_axis(1))
                plan.append(("new",))
            elif isinstance(x, slice):
                ax = arr.axes[src]
                new, f, inv = self.slice_axis(ax, x)
                axes.append(new)
                plan.append(("slice", src, f, inv))
                src += 1
            else:
                plan.append(("int", src, self.int_index(arr.axes[src], x)))
                src += 1
        nsrc = src

        def fwd(labels):
            out, k = [None] * nsrc, 0
            for p in plan:
                if p[0] == "int":
                    out[p[1]] = p[2]
                else:
                    if p[0] == "slice":
                        out[p[1]] = p[2](labels[k]) if p[2] else labels[k]
                    k += 1
            return tuple(out)

        def inv(labels):
            c, out = TRUE, []
            for p in plan:
                if p[0] == "int":
                    c = and_(c, *[eq(x, y) for x, y in zip(labels[p[1]], p[2])])
                elif p[0] == "new":
                    out.append((ZERO,))
                elif p[3]:
                    ci, l = p[3](labels[p[1]])
                    c = and_(c, ci)
                    out.append(l)
                else:
                    out.append(labels[p[1]])
            return c, tuple(out)
        r = self.view(arr, tuple(axes), fwd, inv)
        if not axes:
            # a numpy scalar is a copy
            return self.scalar(r.elem()(()), arr.dtype)
        return r

    def adv_plan(self, arr, idx):
        """handle ints/slices first through a view, leaving full slices and advanced indices"""
        # integers alongside arrays act as broadcast index arrays; only used with Ellipsis/slices here
        pre, adv, k = [], [], 0
        for x in idx:
            if isinstance(x, Arr) and x.dtype == "bool":
                pre += [slice(None)] * len(x.axes)
                adv.append(x)
            elif isinstance(x, WhereIdx):
                pre += [slice(None)] * len(x.mask.axes)
                adv.append(x)
            elif isinstance(x, Arr):
                pre.append(slice(None))
                adv.append(x)
            elif x is None:
                pre.append(None)
                adv.append(slice(None))
            elif isinstance(x, slice):
                pre.append(x)
                adv.append(slice(None))
            else:
                if any(isinstance(y, Arr) and y.dtype != "bool" for y in idx):
                    pre.append(slice(None))
                    adv.append(self.scalar(x))
                else:
                    pre.append(x)
        if any(not (isinstance(x, slice) and x == slice(None)) for x in pre):
            arr = self.basic(arr, pre)
        return arr, adv

    def mask_of(self, x):
        if isinstance(x, WhereIdx):
            return x.mask
        if isinstance(x, Arr) and x.dtype == "bool":
            return x
        if isinstance(x, Arr) and getattr(x, "where", None) is not None:
            return x.where
        return None

    def adv_get(self, arr, idx):
        it = self.it
        arr, adv = self.adv_plan(arr, idx)
        masks = [(k, self.mask_of(x)) for k, x in enumerate(adv) if not isinstance(x, slice)]
        if len(masks) == 1 and masks[0][1] is not None:
            k, mask = masks[0]
            pos = k
            nm_ = len(mask.axes)
            sub_axes = arr.axes[pos:pos + nm_]
            for x, y in zip(sub_axes, mask.axes):
                if not self.same_axis(x, y):
                    c = x.const(), y.const()
                    raise (PyRaise("IndexError", "boolean index did not match") if None not in c else Unsupported("mask of another shape"))
            me = mask.elem()
            dom, split = self.join_doms([a.dom for a in sub_axes])
            dom = dom.filter(lambda vs: it.to_T(it.truth(me(split(vs)))))
            e = arr.elem()

            def fn(labels):
                return e(labels[:pos] + split(labels[pos]) + labels[pos + 1:])
            r = self.new(arr.axes[:pos] + (Axis(dom),) + arr.axes[pos + nm_:], fn, arr.dtype)
            r.masked_by = (mask, arr)
            return r
        if any(m is not None and not hasattr(x, "where") for (k, m), x in zip(masks, [adv[k] for k, _ in masks])):
            raise Unsupported("mixed boolean and integer indices")
        ks = [k for k, _ in masks]
        ixs = [adv[k] for k in ks]
        if len(adv) != len(arr.axes):
            raise Unsupported("advanced index")
        contiguous = ks == list(range(ks[0], ks[0] + len(ks)))
        iaxes = self.broadcast_axes([x.axes for x in ixs])
        gets = [self.wrap_index(arr.axes[k], self.getter(x, iaxes), iaxes) for k, x in zip(ks, ixs)]
        rest = [k for k in range(len(arr.axes)) if k not in ks]
        e = arr.elem()
        pos = ks[0] if contiguous else 0
        before = [k for k in rest if k < pos] if contiguous else []
        after = [k for k in rest if k not in before]
        axes = tuple(arr.axes[k] for k in before) + tuple(iaxes) + tuple(arr.axes[k] for k in after)
        ni = len(iaxes)

        def fn(labels):
            il = labels[len(before):len(before) + ni]
            src = [None] * len(arr.axes)
            for k, l in zip(before, labels[:len(before)]):
                src[k] = l
            for k, l in zip(after, labels[len(before) + ni:]):
                src[k] = l
            for k, g in zip(ks, gets):
                src[k] = g(il)
            return e(tuple(src))
        return self.new(axes, fn, arr.dtype)

    def wrap_index(self, ax, get, iaxes):
        """bounds-checked, wrapped index labels as a function of the index labels"""
        it = self.it
        if ax.pack or ax.dom.kind not in ("range",):
            raise Unsupported("index array into a filtered or unknown index set")
        n = ax.dom.his[0]
        ls = tuple(a.dom.fresh("q") for a in iaxes)
        pc = it.pc.child([a.dom.pred(l) for a, l in zip(iaxes, ls)])
        v = get(ls)
        if sort_dtype(v) not in ("int",):
            raise PyRaise("IndexError", "arrays used as indices must be of integer type")
        v = it.t(v)
        if pc.proves(and_(ge(v, ZERO), lt(v, n))):
            return lambda l: (it.t(get(l)),)
        ok = and_(ge(v, neg(n)), lt(v, n))
        if not pc.proves(ok):
            c = ok
            if any(iaxes):
                xs = tuple(x for l in ls for x in l)
                c = self.forall_axes(iaxes, lambda l: and_(ge(it.t(get(l)), neg(n)), lt(it.t(get(l)), n)))
            if not it.decide(c):
                raise PyRaise("IndexError", "index out of bounds")

        def wrapped(l):
            x = it.t(get(l))
            return (ite(lt(x, ZERO), add(x, n), x),)
        return wrapped

    def flat_dom(self, axes):
        return self.join_doms([a.dom for a in axes])

    def join_doms(self, doms):
        """one index set for several axes -> (Dom, split)"""
        if len(doms) == 1:
            return doms[0], (lambda l: (tuple(l),))
        vs, los, his, filt, cuts = [], [], [], TRUE, []
        lex = True
        for d in doms:
            xs = tuple(var("%s_%d" % (v.args[0], len(vs) + i), "I") for i, v in enumerate(d.vars))
            l, h, f = d.inst(xs)
            cuts.append((len(vs), len(vs) + len(xs)))
            vs += xs
            los += l
            his += h
            filt = and_(filt, f)
            lex = lex and d.order == "lex"
        dom = Dom(vs, los, his, filt, "prod", "lex" if lex else tuple(d.order for d in doms))
        dom.parts = doms
        return dom, (lambda l: tuple(tuple(l[a:b]) for a, b in cuts))

    def binder_axes(self, op, axes, fn):
        dom, split = self.join_doms([a.dom for a in axes])
        return dom.binder(op, lambda xs: fn(split(xs)))

    def forall_axes(self, axes, fn):
        if not axes:
            return fn(())
        return self.binder_axes("forall", axes, fn)

    def exists_axes(self, axes, fn):
        if not axes:
            return fn(())
        return self.binder_axes("exists", axes, fn)

    def setitem(self, arr, idx, v):
        it = self.it
        if isinstance(v, (ListRef, tuple)):
            v = self.asarray(v)
        if not (isinstance(v, Arr) or it.is_scalar(v)):
            raise PyRaise("TypeError", "bad value for an array element")
        idx = self.norm_index(arr, idx)
        if isinstance(idx, FlatIdx):
            raise Unsupported("store at a flat index")
        vdt = self.dt(v)
        if arr.dtype in ("float", "int", "bool") and vdt == "complex" and not (isinstance(v, Arr) and v.axes):
            raise PyRaise("TypeError", "can't convert complex to float")
        if not any(isinstance(x, (Arr, WhereIdx)) for x in idx):
            plain = all(isinstance(x, slice) or x is None for x in idx)
            target = self.basic_view(arr, idx)
            val_ = v if isinstance(v, Arr) else self.scalar(v)
            while len(val_.axes) > len(target.axes) and val_.axes[0].is_one():
                val_ = self.take_label(val_, (ZERO,))
            if len(val_.axes) > len(target.axes):
                raise PyRaise("ValueError", "could not broadcast input array")
            for x, y in zip(reversed(val_.axes), reversed(target.axes)):
                if not x.is_one() and not self.same_axis(x, y):
                    if x.const() is not None and y.const() is not None:
                        raise PyRaise("ValueError", "could not broadcast input array")
                    if y.is_one() or x.pack or y.pack or not it.decide(eq(x.dom.size(), y.dom.size())):
                        raise Unsupported("store of an array of another shape")
            self.write(target, val_)
            return
        arr2, adv = self.adv_plan(arr, idx)
        if arr2 is arr:
            self.check_write(arr)
        masks = [(k, self.mask_of(x)) for k, x in enumerate(adv) if not isinstance(x, slice)]
        e = arr2.elem()
        if len(masks) == 1 and masks[0][1] is not None:
            pos, mask = masks[0]
            n = len(mask.axes)
            sub_axes = arr2.axes[pos:pos + n]
            for x, y in zip(sub_axes, mask.axes):
                if not self.same_axis(x, y):
                    raise Unsupported("mask of another shape")
            me = mask.elem()
            if isinstance(v, Arr) and v.axes:
                if n != 1 and not (len(v.axes) == 1):
                    raise Unsupported("masked store")
                dom, split = self.join_doms([a.dom for a in sub_axes])
                fd = dom.filter(lambda vs: it.to_T(it.truth(me(split(vs)))))
                raxes = arr2.axes[:pos] + (Axis(fd),) + arr2.axes[pos + n:]
                bax = self.broadcast_axes([raxes, v.axes])
                if len(bax) != len(raxes):
                    raise Unsupported("masked store")
                g = self.getter(v, raxes)
                vf = lambda labels: g(labels[:pos] + (tuple(x for l in labels[pos:pos + n] for x in l),) + labels[pos + n:])
            else:
                sv = self.item(v)
                vf = lambda labels: sv

            def fn(labels):
                c = it.to_T(it.truth(me(labels[pos:pos + n])))
                if c is FALSE:
                    return e(labels)
                return it.site(c, self.cast(vf(labels), arr.dtype), e(labels)) if c is not TRUE else self.cast(vf(labels), arr.dtype)
            self.write(arr2, self.new(arr2.axes, fn, arr.dtype))
            return
        # scatter
        ks = [k for k, _ in masks]
        ixs = [adv[k] for k in ks]
        if len(adv) != len(arr2.axes):
            raise Unsupported("scatter store")
        iaxes = self.broadcast_axes([x.axes for x in ixs])
        gets = [self.wrap_index(arr2.axes[k], self.getter(x, iaxes), iaxes) for k, x in zip(ks, ixs)]
        rest = [k for k in range(len(arr2.axes)) if k not in ks]
        contiguous = ks == list(range(ks[0], ks[0] + len(ks)))
        if rest and not contiguous:
            raise Unsupported("scatter store")
        before = [k for k in rest if k < ks[0]]
        after = [k for k in rest if k > ks[0]]
        raxes = tuple(arr2.axes[k] for k in before) + tuple(iaxes) + tuple(arr2.axes[k] for k in after)
        g = self.getter(v, raxes)
        # injectivity
        l1, l2 = [tuple(a.dom.fresh("s") for a in iaxes) for _ in range(2)]
        same = and_(*[eq(x, y) for q in gets for x, y in zip(q(l1), q(l2))])
        diff = or_(*[ne(x, y) for p, q in zip(l1, l2) for x, y in zip(p, q)])
        hyp = [a.dom.pred(l) for a, l in zip(iaxes, l1)] + [a.dom.pred(l) for a, l in zip(iaxes, l2)] + [same]
        scalar_v = not (isinstance(v, Arr) and v.axes)
        if not scalar_v and not it.pc.child(hyp).proves(not_(diff)):
            raise Unsupported("scatter store at indices not shown distinct")
        nb, ni = len(before), len(iaxes)

        def fn(labels):
            tgt = [labels[k] for k in ks]

            def hit(l):
                return and_(*[eq(x, y) for q, t in zip(gets, tgt) for x, y in zip(q(l), t)])
            c = self.exists_axes(iaxes, hit)
            if scalar_v:
                nv = self.cast(self.item(v) if isinstance(v, Arr) else v, arr.dtype)
            else:
                def body(l):
                    return self.cast(g(tuple(labels[k] for k in before) + l + tuple(labels[k] for k in after)), arr.dtype)
                nv = self.sum_axes(iaxes, body, hit)
            return it.site(c, nv, e(labels))
        self.write(arr2, self.new(arr2.axes, fn, arr.dtype))

    def basic_view(self, arr, idx):
        """like basic but keeps a 0-d result as a view"""
        if any(not isinstance(x, slice) and x is not None for x in idx):
            axes, plan, src = [], [], 0
            keep = []
            for x in idx:
                keep.append(x)
            r = self._basic_view(arr, keep)
            return r
        return self._basic_view(arr, idx)

    def _basic_view(self, arr, idx):
        save = self.scalar
        marker = {}
        out = {}
        orig_view = self.view

        def cap(a, axes, fwd, inv):
            r = orig_view(a, axes, fwd, inv)
            out["v"] = r
            return r
        self.view = cap
        try:
            self.basic(arr, idx)
        finally:
            del self.view
        return out["v"]

    # ---------------------------------------------------------------- reductions
    def sum_axes(self, axes, fn, cond=None):
        """sum of fn over the index sets of the axes (complex aware)"""
        it = self.it
        consts = [k for k, a in enumerate(axes) if a.const() is not None and a.const() <= 16 and not a.pack]
        syms = [k for k in range(len(axes)) if k not in consts]
        sx = [axes[k] for k in syms]

        def labels_of(clabels, slabels):
            out = [None] * len(axes)
            for k, l in zip(consts, clabels):
                out[k] = l
            for k, l in zip(syms, slabels):
                out[k] = l
            return tuple(out)
        combos = [()]
        for k in consts:
            combos = [c + ((num(i),),) for c in combos for i in range(axes[k].const())]
        if len(combos) > 256:
            raise Unsupported("large concrete reduction")

        def part(sel, clabels, slabels):
            l = labels_of(clabels, slabels)
            c = cond(l) if cond else TRUE
            if c is FALSE:
                return ZERO
            v = sel(fn(l))
            return v if c is TRUE else ite(c, v, num(0, v.sort))

        def total(sel):
            parts = []
            for cl in combos:
                if sx:
                    dom, split = self.join_doms([a.dom for a in sx])
                    if cond and not consts:
                        dom = dom.filter(lambda vs: cond(labels_of((), split(vs))))
                        parts.append(dom.binder("sum", lambda xs: sel(fn(labels_of((), split(xs))))))
                    else:
                        parts.append(dom.binder("sum", lambda xs: part(sel, cl, split(xs))))
                else:
                    parts.append(part(sel, cl, ()))
            return add(*parts) if parts else ZERO
        probe = fn(tuple(a.dom.fresh("z") if a.const() is None else (ZERO,) for a in axes)) if (not consts or combos) else 0
        if isinstance(probe, (Cx, complex)):
            return Cx(total(lambda v: it.cx(v).re), total(lambda v: it.cx(v).im))
        return total(lambda v: it.as_num(it.t(v)))

    def norm_axes(self, a, axis):
        if axis is None:
            return list(range(len(a.axes)))
        axis = self.it.concrete_items(axis) if isinstance(axis, (tuple, ListRef)) else [axis]
        out = []
        packs = any(x.pack for x in a.axes)
        for k in axis:
            k = self.it.conc_int(k)
            n = len(a.axes)
            if packs:
                # only axes after the pack can be addressed from the right
                if k < 0 and not any(x.pack for x in a.axes[k:]):
                    out.append(n + k)
                    continue
                raise Unsupported("axis number in an array of unknown rank")
            if not -n <= k < n:
                raise PyRaise("AxisError" if False else "ValueError", "axis out of bounds")
            out.append(k % n)
        return sorted(out)

    def reduce(self, a, axis, keepdims, fn, dtype):
        """fn(reduced axes, elem over their labels) -> scalar"""
        a = self.asarray(a)
        ks = self.norm_axes(a, axis)
        red = [a.axes[k] for k in ks]
        e = a.elem()
        rest = [k for k in range(len(a.axes)) if k not in ks]
        n = len(a.axes)

        def f(labels):
            if keepdims:
                labels = tuple(labels[k] for k in rest)

            def inner(rl):
                out = [None] * n
                for k, l in zip(ks, rl):
                    out[k] = l
                for k, l in zip(rest, labels):
                    out[k] = l
                return e(tuple(out))
            return fn(red, inner)
        axes = tuple(self.const_axis(1) if k in ks else a.axes[k] for k in range(n)) if keepdims else tuple(a.axes[k] for k in rest)
        if not axes:
            return self.scalar(f(()), dtype)
        return self.new(axes, f, dtype)

    def b_sum(self, a, axis=None, keepdims=False, dtype=None, where=None, initial=None):
        if isinstance(a, (ListRef, tuple)) or not isinstance(a, Arr):
            a = self.asarray(a)
        if where is not None or initial is not None:
            if where is not None:
                a = self.elementwise(lambda w, x: self.it.site(self.it.to_T(self.it.truth(w)), x, 0), [where, a], a.dtype)
        dt = "int" if a.dtype == "bool" else a.dtype
        r = self.reduce(a, axis, keepdims, lambda red, e: self.sum_axes(red, e), dt)
        if initial is not None:
            r = self.it.binop("Add", r, initial)
        return r

    def size_of(self, axes):
        r = ONE
        for a in axes:
            s = a.dom.size()
            r = mul(r, s)
        return int(val(r)) if r.op == "num" else r

    def counts_corner(self, t):
        """t counts the points of nested ranges and the lowest one is among them"""
        if t.op != "sum":
            return False
        n, base = t.args[0], t.args[1]
        parts = t.args[2:]
        if parts[2 * n + 1] is not ONE:
            return False
        m = {}
        for i in range(n):
            m[var("#%d" % (base + i), "I")] = subst(parts[i], m)
        c = and_(*([lt(m[var("#%d" % (base + i), "I")], subst(parts[n + i], m)) for i in range(n)] + [subst(parts[2 * n], m)]))
        return self.it.pc.proves(c)

    def nonempty(self, axes, what):
        it = self.it
        for a in axes:
            c = a.const()
            if c is not None:
                if c == 0:
                    raise PyRaise("ValueError", what + " of an empty array")
                continue
            if a.dom.kind == "range" or a.dom.kind == "pack":
                ok = gt(a.dom.his[0], ZERO)
                if self.counts_corner(a.dom.his[0]):
                    continue
            else:
                corner = ()
                for t in a.dom.los:
                    corner += (subst(t, dict(zip(a.dom.vars, corner))),)
                if it.pc.proves(a.dom.pred(corner)):
                    continue
                ok = a.dom.binder("exists", lambda xs: TRUE)
            if not it.decide(ok):
                raise PyRaise("ValueError", what + " of an empty array")

    def b_max(self, a, axis=None, keepdims=False, sign=1):
        it = self.it
        a = self.asarray(a)
        ks = self.norm_axes(a, axis)
        self.nonempty([a.axes[k] for k in ks], "max")
        full = len(ks) == len(a.axes)

        def fn(red, e):
            consts = all(x.const() is not None and x.const() <= 32 for x in red)
            get = lambda l: mul(num(sign), it.as_num(it.t(e(l))))
            if consts:
                combos = [()]
                for x in red:
                    combos = [c + ((num(i),),) for c in combos for i in range(x.const())]
                r = None
                for c in combos:
                    v = get(c)
                    r = v if r is None else tmax(r, v)
                return mul(num(sign), r)
            t = self.binder_axes("maxo", red, get)
            if full:
                self.max_axioms(t, red, get)
            return mul(num(sign), t)
        return self.reduce(a, axis, keepdims, fn, a.dtype if a.dtype != "bool" else "bool")

    def max_axioms(self, t, red, get):
        it = self.it
        it.axiom(self.binder_axes("forall", red, lambda l: le(get(l), t)))
        import numeric
        numeric.ARGMAX["argm_%d" % t.id] = t
        w = tuple(tuple(app("argm_%d" % t.id, (num(i), num(j)), "I") for j in range(x.dom.arity)) for i, x in enumerate(red))
        it.axiom(and_(*[x.dom.pred(l) for x, l in zip(red, w)]))
        it.axiom(eq(get(w), t))
        return w

    def b_argmax(self, a, axis=None, sign=1):
        it = self.it
        a = self.asarray(a)
        if axis is not None and len(a.axes) != 1:
            raise Unsupported("argmax along an axis")
        self.nonempty(a.axes, "argmax")
        e = a.elem()
        get = lambda l: mul(num(sign), it.as_num(it.t(e(l))))
        t = self.binder_axes("maxo", a.axes, get)
        w = self.max_axioms(t, a.axes, get)
        if len(a.axes) == 1 and a.axes[0].dom.kind == "range":
            return self.scalar(w[0][0])
        return FlatIdx(a.axes, w)

    def b_all(self, a, axis=None, keepdims=False, any_=False):
        it = self.it
        a = self.asarray(a)

        def fn(red, e):
            if all(x.const() is not None and x.const() <= 16 for x in red):
                combos = [()]
                for x in red:
                    combos = [c + ((num(i),),) for c in combos for i in range(x.const())]
                vs = [it.to_T(it.truth(e(c))) for c in combos]
                return (or_ if any_ else and_)(*vs)
            return (self.exists_axes if any_ else self.forall_axes)(red, lambda l: it.to_T(it.truth(e(l))))
        return self.reduce(a, axis, keepdims, fn, "bool")

    def count(self, axes):
        return self.it.t(self.size_of(axes))

    def b_mean(self, a, axis=None, keepdims=False):
        a = self.asarray(a)
        ks = self.norm_axes(a, axis)
        self.nonempty([a.axes[k] for k in ks], "mean")
        n = self.count([a.axes[k] for k in ks])
        s = self.b_sum(a, axis, keepdims)
        return self.it.binop("Div", s, n)

    # ---------------------------------------------------------------- joining
    def snapshot(self, v):
        """freeze a value stored in a sequence"""
        return v

    def stack_segs(self, segs, axis, nested=False):
        """np.stack of the items of a list"""
        it = self.it
        if not segs:
            if nested:
                return self.new((self.const_axis(0),), lambda l: ZERO, "float")
            raise PyRaise("ValueError", "need at least one array to stack")
        segs = [s for s in segs]
        if all(s[0] == "one" for s in segs):
            items = [self.asarray(s[1]) if not isinstance(s[1], (str, StrVal)) else self.bad_elem() for s in segs]
            first = items[0]
            for x in items[1:]:
                if len(x.axes) != len(first.axes):
                    raise PyRaise("ValueError", "all input arrays must have the same shape")
                for p, q in zip(x.axes, first.axes):
                    if not self.same_axis(p, q):
                        if p.const() is not None and q.const() is not None:
                            raise PyRaise("ValueError", "all input arrays must have the same shape")
                        raise Unsupported("stack of arrays of different shapes")
            dt = self.promote(*[x.dtype for x in items])
            es = [x.elem() for x in items]
            new_ax = self.const_axis(len(items))

            def sel(l, rest):
                if l[0].op == "num":
                    return self.cast(es[int(val(l[0]))](rest), dt)
                r = es[-1](rest)
                for i in range(len(es) - 2, -1, -1):
                    r = it.site(eq(l[0], num(i)), es[i](rest), r)
                return self.cast(r, dt)
            base = first.axes
        elif len(segs) == 1:
            seq = segs[0][1]
            if not nested:
                self.nonempty([Axis(seq.dom)], "stack")
            xs = seq.dom.fresh("k")
            v = seq.fn(xs)
            pc = it.pc
            a = self.asarray(v)
            base, dt, e = a.axes, a.dtype, a.elem()
            for ax in base:
                if any(x in free_vars(t) for x in xs for t in ax.dom.los + ax.dom.his + (ax.dom.filt,)):
                    raise Unsupported("ragged sequence")
            new_ax = Axis(seq.dom)
            gl = tuple(ax.dom.fresh("g") for ax in base)
            tmpl = {}

            def sel(l, rest):
                if "v" not in tmpl:
                    tmpl["v"] = e(gl)
                m = dict(zip(xs, l))
                for g, r in zip(gl, rest):
                    m.update(zip(g, r))
                return subst_val(tmpl["v"], m)
        else:
            # concatenation of pieces: positions become a plain range
            sizes = []
            for s in segs:
                sizes.append(ONE if s[0] == "one" else s[1].dom.size())
                if s[0] == "seq" and s[1].dom.kind != "range":
                    raise Unsupported("stack of a mixed sequence")
            arrs = [self.stack_segs([s], 0, nested=True) for s in segs]
            return self.concat(arrs, 0) if axis == 0 else self.moveaxis(self.concat(arrs, 0), 0, axis)
        n = len(base) + 1
        if axis < 0:
            axis += n
        if any(b.pack for b in base) and axis not in (0, n - 1):
            raise Unsupported("stack along an axis of an array of unknown rank")
        if not 0 <= axis < n:
            raise PyRaise("ValueError", "axis out of bounds")
        axes = base[:axis] + (new_ax,) + base[axis:]
        return self.new(axes, lambda labels: sel(labels[axis], labels[:axis] + labels[axis + 1:]), dt)

    def bad_elem(self):
        raise Unsupported("array of strings")

    def concat(self, arrs, axis):
        it = self.it
        arrs = [self.asarray(a) for a in arrs]
        if not arrs:
            raise PyRaise("ValueError", "need at least one array to concatenate")
        n = len(arrs[0].axes)
        if n == 0:
            raise PyRaise("ValueError", "zero-dimensional arrays cannot be concatenated")
        if axis < 0:
            axis += n
        for a in arrs:
            if len(a.axes) != n:
                raise PyRaise("ValueError", "all the input array dimensions must match")
            for k in range(n):
                if k != axis and not self.same_axis(a.axes[k], arrs[0].axes[k]):
                    if a.axes[k].const() is not None and arrs[0].axes[k].const() is not None:
                        raise PyRaise("ValueError", "dimensions must match")
                    raise Unsupported("concatenation of different shapes")
        if len(arrs) == 1:
            return self.copy(arrs[0])
        arrs = [self.positional(a, axis) for a in arrs]
        if any(a.axes[axis].pack or (a.axes[axis].dom.kind != "range") for a in arrs):
            raise Unsupported("concatenation over filtered index sets")
        dt = self.promote(*[a.dtype for a in arrs])
        offs, tot = [], ZERO
        for a in arrs:
            offs.append(tot)
            tot = add(tot, a.axes[axis].dom.his[0])
        es = [a.elem() for a in arrs]
        ends = offs[1:] + [tot]

        def fn(labels):
            x = labels[axis][0]

            def at(i):
                return self.cast(es[i](labels[:axis] + ((sub(x, offs[i]),),) + labels[axis + 1:]), dt)
            if x.op == "num" and all(o.op == "num" for o in ends):
                for i, o in enumerate(ends):
                    if val(x) < val(o):
                        return at(i)
            r = at(len(es) - 1)
            for i in range(len(es) - 2, -1, -1):
                r = it.site(lt(x, ends[i]), at(i), r)
            return r
        axes = arrs[0].axes[:axis] + (Axis(range_dom(tot)),) + arrs[0].axes[axis + 1:]
        return self.new(axes, fn, dt)

    def positional(self, a, axis):
        """the same array indexed by position along an axis over a filtered range"""
        d = a.axes[axis].dom
        if a.axes[axis].pack or d.kind == "range" or d.arity != 1 or d.order != "lex":
            return a
        nth = self.nth(d)
        if nth is None:
            return a
        n, f = nth
        e = a.elem()
        return self.new(a.axes[:axis] + (Axis(range_dom(n)),) + a.axes[axis + 1:],
                        lambda l: e(l[:axis] + ((f(l[axis][0]),),) + l[axis + 1:]), a.dtype)

    def nth(self, d):
        """size and enumeration function of a filtered range, defined by its properties"""
        it = self.it
        t = d.binder("forall", lambda xs: eq(app("nth", xs, "I"), ZERO))
        if any(v.args[0].startswith("#") for v in free_vars(t)):
            return None
        name = "%d" % t.id
        nth, rank = "nth_" + name, "rank_" + name
        f = lambda k: app(nth, (k,), "I")
        r = lambda x: app(rank, (x,), "I")
        n = d.size()
        if nth not in numeric.NTH:
            numeric.NTH[nth], numeric.NTH[rank] = (False, d), (True, d)
        ks = range_dom(n)
        it.axiom(and_(ks.binder("forall", lambda k: d.pred((f(k[0]),))),
                      ks.product(lambda a: ks).binder("forall", lambda k: implies(lt(k[0], k[1]), lt(f(k[0]), f(k[1])))),
                      d.binder("forall", lambda x: and_(le(ZERO, r(x[0])), lt(r(x[0]), n), eq(f(r(x[0])), x[0])))))
        # no member before the first, between two consecutive ones or after the last
        it.axiom(d.binder("forall", lambda x: and_(le(f(ZERO), x[0]), le(x[0], f(sub(n, ONE))))))
        it.axiom(d.product(lambda x: range_dom(sub(n, ONE))).binder("forall", lambda x: or_(le(x[0], f(x[1])), le(f(add(x[1], ONE)), x[0]))))
        return n, f

    def rank_term(self, i):
        """the position as a number"""
        d = i.dom
        if d.kind == "range":
            return i.labels[0]
        if d.arity != 1 or d.order != "lex":
            return None
        if d.filt is TRUE:
            return sub(i.labels[0], d.los[0])
        if self.nth(d) is None:
            return None
        t = d.binder("forall", lambda xs: eq(app("nth", xs, "I"), ZERO))
        return app("rank_%d" % t.id, i.labels, "I")

    def concat_list(self, v, axis, min_dim=1):
        """hstack / vstack / concatenate of a list value"""
        it = self.it
        segs = it.segments(v)
        if len(segs) == 1 and segs[0][0] == "seq":
            seq = segs[0][1]
            st = self.stack_segs(list(segs), 0)
            inner = st.axes[1:]
            if not inner:
                return st
            c = inner[axis].const()
            if c == 1 and len(inner) == 1:
                e = st.elem()
                return self.new((st.axes[0],), lambda l: e((l[0], (ZERO,))), st.dtype)
            if axis == 0 and len(inner) == 1 and c is not None and st.axes[0].dom.kind == "range":
                e = st.elem()
                n = mul(st.axes[0].dom.his[0], num(c))
                return self.new((Axis(range_dom(n)),), lambda l: e(((idiv(l[0][0], num(c)),), (mod(l[0][0], num(c)),))), st.dtype)
            raise Unsupported("concatenation of a symbolic number of arrays")
        arrs = [self.asarray(x) for x in it.concrete_items(v)]
        return self.concat([a if a.axes else self.atleast(a, 1) for a in arrs], axis)

    def atleast(self, a, n):
        a = self.asarray(a)
        if len(a.axes) >= n or any(x.pack for x in a.axes) and n == 1:
            return a
        if any(x.pack for x in a.axes):
            raise Unsupported("atleast_%dd of an array of unknown rank" % n)
        if len(a.axes) == 0:
            v = a.elem()(())
            return self.new(tuple(self.const_axis(1) for _ in range(n)), lambda l: v, a.dtype)
        if n == 2:
            return self.basic(a, [None, slice(None)])
        raise Unsupported("atleast")

    def reshape(self, a, shape):
        it = self.it
        if isinstance(shape, ListRef):
            shape = tuple(it.concrete_items(shape))
        if not isinstance(shape, tuple):
            shape = (shape,)
        shape = tuple(self.item(s) for s in shape)
        if shape == (-1,):
            return self.flatten(a)
        src = list(a.axes)
        tgt = []
        unknown = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
        # greedy matching, both sides peeled from the left
        plan = []          # (target axis, kind, payload)
        si = 0
        shape = list(shape)
        out_axes, maps = [], []

        def size(ax):
            return ax.dom.size()
        i = 0
        while i < len(shape):
            s = shape[i]
            if isinstance(s, PackDim):
                if si < len(src) and self.same_dom(src[si].dom, s.dom):
                    out_axes.append(Axis(s.dom, True))
                    maps.append(("same", si))
                    si += 1
                    i += 1
                    continue
                raise Unsupported("reshape")
            if isinstance(s, int) and s == 1 and not (si < len(src) and src[si].is_one()):
                out_axes.append(self.const_axis(1))
                maps.append(("one",))
                i += 1
                continue
            if si >= len(src):
                raise PyRaise("ValueError", "cannot reshape array")
            ax = src[si]
            if isinstance(s, int) and s == -1:
                if len(shape) - i == len(src) - si:
                    out_axes.append(ax)
                    maps.append(("same", si))
                    si += 1
                    i += 1
                    continue
                if i == len(shape) - 1:
                    axs = src[si:]
                    dom, split = self.join_doms([x.dom for x in axs])
                    out_axes.append(Axis(dom))
                    maps.append(("join", list(range(si, len(src))), split))
                    si = len(src)
                    i += 1
                    continue
                raise Unsupported("reshape with -1")
            st = it.t(s)
            if src[si].is_one() and not it.pc.proves(eq(st, ONE)) and len(src) - si > len(shape) - i:
                si += 1
                continue
            if eq(size(ax), st) is TRUE or (not ax.pack and it.pc.proves(eq(size(ax), st))):
                if ax.pack:
                    # an array of unknown rank flattened
                    out_axes.append(Axis(ax.dom, False))
                else:
                    out_axes.append(ax)
                maps.append(("same", si))
                si += 1
                i += 1
                continue
            parts = getattr(ax.dom, "parts", None)
            if parts is not None and ax.dom.filt is TRUE:
                ok = True
                for k, p in enumerate(parts):
                    if i + k >= len(shape):
                        ok = False
                        break
                    q = shape[i + k]
                    if isinstance(q, PackDim):
                        ok = ok and self.same_dom(q.dom, p)
                    else:
                        ok = ok and it.pc.proves(eq(p.size(), it.t(q)))
                if ok:
                    for k, p in enumerate(parts):
                        out_axes.append(Axis(p, isinstance(shape[i + k], PackDim)))
                        maps.append(("part", si, k, len(parts)))
                    si += 1
                    i += len(parts)
                    continue
            if ax.const() is not None and isinstance(s, int):
                # split a concrete axis
                n, take, dims = ax.const(), 1, []
                j = i
                while j < len(shape) and isinstance(shape[j], int) and take < n:
                    take *= shape[j]
                    dims.append(shape[j])
                    j += 1
                if take == n:
                    for k, d in enumerate(dims):
                        out_axes.append(self.const_axis(d))
                        maps.append(("radix", si, k, tuple(dims)))
                    si += 1
                    i = j
                    continue
            # merge source axes
            prod, j = size(ax), si + 1
            while j < len(src) and not it.pc.proves(eq(prod, st)):
                prod = mul(prod, size(src[j]))
                j += 1
            if it.pc.proves(eq(prod, st)):
                axs = src[si:j]
                dom, split = self.join_doms([x.dom for x in axs])
                out_axes.append(Axis(dom))
                maps.append(("join", list(range(si, j)), split))
                si = j
                i += 1
                continue
            raise Unsupported("reshape")
        while si < len(src) and src[si].is_one():
            si += 1
        if si != len(src):
            raise PyRaise("ValueError", "cannot reshape array")
        # labels of the source from labels of the target
        def fwd(labels):
            out = [(ZERO,)] * len(src)
            acc = {}
            for l, m in zip(labels, maps):
                if m[0] == "same":
                    out[m[1]] = l
                elif m[0] == "join":
                    for k, x in zip(m[1], m[2](l)):
                        out[k] = x
                elif m[0] == "part":
                    acc.setdefault(m[1], []).append(l)
                elif m[0] == "radix":
                    acc.setdefault(("r", m[1], m[3]), []).append(l)
            for k, ls in acc.items():
                if isinstance(k, tuple):
                    t = ZERO
                    for d, l in zip(k[2], ls):
                        t = add(mul(t, num(d)), l[0])
                    out[k[1]] = (t,)
                else:
                    out[k] = tuple(x for l in ls for x in l)
            return tuple(out)
        if all(m[0] in ("same", "one") for m in maps):
            sm = [m[1] if m[0] == "same" else None for m in maps]

            def inv(labels):
                return TRUE, tuple((ZERO,) if k is None else labels[k] for k in sm)
            return self.view(a, tuple(out_axes), fwd, inv)
        e = a.elem()
        return self.new(tuple(out_axes), lambda labels: e(fwd(labels)), a.dtype)

    def flatten(self, a):
        if len(a.axes) == 0:
            return self.atleast(self.copy(a), 1)
        if len(a.axes) == 1:
            ax = a.axes[0]
            return self.new((Axis(ax.dom, False),), a.elem(), a.dtype)
        if all(x.const() is not None for x in a.axes):
            dims = [x.const() for x in a.axes]
            n = math.prod(dims)
            e = a.elem()

            def fn(labels):
                t = labels[0][0]
                out = []
                for d in reversed(dims):
                    out.append((mod(t, num(d)),))
                    t = idiv(t, num(d))
                return e(tuple(reversed(out)))
            return self.new((self.const_axis(n),), fn, a.dtype)
        keep = [k for k, x in enumerate(a.axes) if not x.is_one()]
        doms = [a.axes[k].dom for k in keep]
        dom, split = self.join_doms(doms)
        e = a.elem()

        def fn(labels):
            out = [(ZERO,)] * len(a.axes)
            for k, l in zip(keep, split(labels[0])):
                out[k] = l
            return e(tuple(out))
        return self.new((Axis(dom),), fn, a.dtype)

    def transpose(self, a, perm=None):
        if any(x.pack for x in a.axes) and perm is None and len(a.axes) > 1:
            raise Unsupported("transpose of an array of unknown rank")
        n = len(a.axes)
        perm = list(range(n))[::-1] if perm is None else perm
        inv_ = [perm.index(k) for k in range(n)]
        return self.view(a, tuple(a.axes[k] for k in perm), lambda l: tuple(l[inv_[k]] for k in range(n)),
                         lambda l: (TRUE, tuple(l[k] for k in perm)))

    def moveaxis(self, a, src, dst):
        n = len(a.axes)
        src, dst = src % n, dst % n
        perm = [k for k in range(n) if k != src]
        perm.insert(dst, src)
        if any(x.pack for x in a.axes):
            pass
        return self.transpose(a, perm)

    def matmul(self, a, b):
        it = self.it
        a, b = self.asarray(a), self.asarray(b)
        if not a.axes or not b.axes:
            raise PyRaise("ValueError", "matmul: not enough dimensions")
        a1, b1 = len(a.axes) == 1, len(b.axes) == 1
        if a1:
            a = self.basic(a, [None, slice(None)])
        if b1:
            b = self.basic(b, [slice(None), None])
        ka, kb = a.axes[-1], b.axes[-2]
        if not self.same_axis(ka, kb):
            if ka.const() is not None and kb.const() is not None:
                raise PyRaise("ValueError", "matmul: mismatch in core dimension")
            if ka.pack or kb.pack or not it.decide(eq(ka.dom.size(), kb.dom.size())):
                raise Unsupported("matmul of shapes not shown equal")
        batch = self.broadcast_axes([a.axes[:-2], b.axes[:-2]]) if (a.axes[:-2] or b.axes[:-2]) else ()
        ma, mb = self.axis_map(a.axes[:-2], batch), self.axis_map(b.axes[:-2], batch)
        ea, eb = a.elem(), b.elem()
        nb = len(batch)

        def fn(labels):
            bl, i, j = labels[:nb], labels[nb], labels[nb + 1]
            la, lb = (ma(bl) if ma else bl), (mb(bl) if mb else bl)
            return self.sum_axes([ka], lambda l: it.sbin("Mult", ea(la + (i,) + l), eb(lb + l + (j,))))
        r = self.new(batch + (a.axes[-2], b.axes[-1]), fn, self.promote(a.dtype, b.dtype))
        if b1:
            r = self.basic(r, [slice(None)] * (nb + 1) + [0])
        if a1:
            r = self.basic(r, [slice(None)] * nb + [0] + ([] if b1 else [slice(None)]))
        return r

    def tabulate(self, axes, thunk):
        """array (or tuple of arrays) whose element at labels is thunk(labels), run once on generic labels"""
        it = self.it
        xs = tuple(a.dom.fresh("t") for a in axes)
        pcs = [a.dom.pred(l) for a, l in zip(axes, xs)]
        save = it.pc
        it.pc = it.pc.child(pcs)
        try:
            v = it.merged(lambda: thunk(xs))
        finally:
            it.pc = save
        flat = tuple(x for l in xs for x in l)

        def build(v):
            if isinstance(v, tuple):
                return tuple(build(x) for x in v)
            v = self.item(v)
            if isinstance(v, Arr):
                raise Unsupported("vectorised function with array results")
            return self.new(axes, lambda labels: subst_val(v, dict(zip(flat, [x for l in labels for x in l]))), sort_dtype(v))
        return build(v)

    def vectorized_call(self, f, args, kwargs):
        it = self.it
        arrs = [a for a in args if isinstance(a, Arr)] + [a for a in kwargs.values() if isinstance(a, Arr)]
        axes = self.broadcast_axes([a.axes for a in arrs])
        ga = [self.getter(a, axes) if isinstance(a, Arr) else None for a in args]
        gk = {k: self.getter(a, axes) if isinstance(a, Arr) else None for k, a in kwargs.items()}

        def thunk(labels):
            xs = [self.scalar(g(labels)) if g else a for g, a in zip(ga, args)]
            ks = {k: self.scalar(g(labels)) if g else kwargs[k] for k, g in gk.items()}
            return it.by_contract(f, xs, ks)
        return self.tabulate(axes, thunk) if axes else thunk(())

    # ---------------------------------------------------------------- scalar functions
    def un(self, name, fn, dtype=None):
        """ufunc of one argument"""
        def call(args, kw):
            kw = {k: v for k, v in kw.items() if k not in ("casting",)}
            out, where = kw.pop("out", None), kw.pop("where", None)
            dt_arg = kw.pop("dtype", None)
            if kw or len(args) < 1:
                raise Unsupported("arguments of " + name)
            if len(args) > 1:
                out = args[1]
            a = args[0]
            if isinstance(a, (ListRef, tuple)):
                a = self.asarray(a)
            if isinstance(a, Obj) or not (isinstance(a, Arr) or self.it.is_scalar(a)):
                raise PyRaise("TypeError", "ufunc %s not supported for the input type" % name)
            d = self.dt(a)
            dd = dtype(d) if callable(dtype) else (dtype or d)
            r = self.elementwise(fn, [a], dd, out, where)
            return r if isinstance(r, Arr) else self.scalar(r, dd)
        return Builtin("numpy." + name, call)

    def bi(self, name, op=None, fn=None, dtype=None):
        def call(args, kw):
            out, where = kw.pop("out", None), kw.pop("where", None)
            kw.pop("casting", None)
            if kw:
                raise Unsupported("arguments of " + name)
            a, b = args[:2]
            if len(args) > 2:
                out = args[2]
            a, b = [self.asarray(x) if isinstance(x, (ListRef, tuple)) else x for x in (a, b)]
            for x in (a, b):
                if not (isinstance(x, Arr) or self.it.is_scalar(x)):
                    raise PyRaise("TypeError", "ufunc %s not supported for the input types" % name)
            d = dtype or (self.bin_dtype(op, a, b) if op else self.promote(self.dt(a), self.dt(b)))
            f = fn or (lambda x, y: self.it.sbin(op, x, y))
            r = self.elementwise(f, [a, b], d, out, where)
            return r if isinstance(r, Arr) else self.scalar(r, d)
        return Builtin("numpy." + name, call)

    def rt(self, v):
        """real term of a scalar"""
        return self.it.as_num(self.it.t(v))

    def f_sin(self, v):
        if isinstance(v, (Cx, complex)):
            raise Unsupported("sin of a complex number")
        t = self.rt(v)
        if t.op == "num" and val(t) == 0:
            return num(0, "R")
        return app("sin", (t,), "R")

    def f_cos(self, v):
        if isinstance(v, (Cx, complex)):
            raise Unsupported("cos of a complex number")
        t = self.rt(v)
        if t.op == "num" and val(t) == 0:
            return num(1, "R")
        return app("cos", (t,), "R")

    def f_exp(self, v):
        if isinstance(v, (Cx, complex)):
            v = self.it.cx(v)
            if v.re.op == "num" and val(v.re) == 0:
                return Cx(self.f_cos(v.im), self.f_sin(v.im))
            m = app("exp", (v.re,), "R")
            return Cx(mul(m, self.f_cos(v.im)), mul(m, self.f_sin(v.im)))
        t = self.rt(v)
        if t.op == "num" and val(t) == 0:
            return num(1, "R")
        return app("exp", (t,), "R")

    def f_log(self, v):
        if isinstance(v, (Cx, complex)):
            raise Unsupported("log of a complex number")
        t = self.rt(v)
        if t.op == "num" and val(t) == 1:
            return num(0, "R")
        return app("log", (t,), "R")

    def f_sqrt(self, v):
        if isinstance(v, (Cx, complex)):
            c = self.it.cx(v)
            return self.it.cpow(c, num(Fraction(1, 2), "R")) if not self.is0(c.im) or not self.it.pc.is_nonneg(c.re) else \
                Cx(tm.sqrt(c.re), ZERO)
        return tm.sqrt(self.rt(v))

    def is0(self, t):
        return t.op == "num" and val(t) == 0

    def f_abs(self, v):
        if isinstance(v, (Cx, complex)):
            c = self.it.cx(v)
            return tm.sqrt(add(mul(c.re, c.re), mul(c.im, c.im)))
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return abs(v)
        return tabs(self.rt(v))

    def f_real(self, v):
        if isinstance(v, (Cx, complex)):
            return self.it.cx(v).re
        return v

    def f_imag(self, v):
        if isinstance(v, (Cx, complex)):
            return self.it.cx(v).im
        return 0 if sort_dtype(v) != "float" else num(0, "R")

    def f_conj(self, v):
        if isinstance(v, (Cx, complex)):
            c = self.it.cx(v)
            return Cx(c.re, neg(c.im))
        return v

    def f_angle(self, v):
        c = self.it.cx(v)
        return app("atan2", (c.im, c.re), "R")

    def f_fact(self, v):
        t = self.rt(v)
        if t.op == "num":
            k = int(val(t))
            return num(math.factorial(k), "R") if k >= 0 else num(0, "R")
        f = app("fact", (t,), "R")
        if t.sort == "I" and not self.it.pc.proves(ge(t, ZERO)):
            return ite(lt(t, ZERO), num(0, "R"), f)
        return f

    def fdtype(self, d):
        return "float" if d in ("bool", "int") else d

    # ---------------------------------------------------------------- closeness
    def close(self, a, b, rtol, atol, abs_=True):
        """|a-b| <= atol + rtol*|b|; identical exact values are close"""
        it = self.it
        if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
            x, y = it.cx(a), it.cx(b)
            if self.eq0(sub(x.re, y.re)) and self.eq0(sub(x.im, y.im)):
                return TRUE
            d2 = add(mul(sub(x.re, y.re), sub(x.re, y.re)), mul(sub(x.im, y.im), sub(x.im, y.im)))
            return le(tm.sqrt(d2), add(atol, mul(rtol, self.it.t(self.f_abs(y)))))
        x, y = self.rt(a), self.rt(b)
        if self.eq0(sub(x, y)):
            return TRUE
        return le(tabs(sub(x, y)), add(atol, mul(rtol, tabs(y))))

    def eq0(self, t):
        if t.op == "num":
            return val(t) == 0
        return self.it.pc.prove_zero(t)

    def b_isclose(self, args, kw):
        a, b = args[:2]
        rtol = kw.get("rtol", args[2] if len(args) > 2 else 1e-05)
        atol = kw.get("atol", args[3] if len(args) > 3 else 1e-08)
        rt, at = self.rt(self.item(rtol)), self.rt(self.item(atol))
        a, b = [self.asarray(x) if isinstance(x, (ListRef, tuple)) else x for x in (a, b)]
        arrs = [x for x in (a, b) if isinstance(x, Arr)]
        it = self.it
        axes = self.broadcast_axes([x.axes for x in arrs]) if arrs else ()
        ga, gb = self.getter(a, axes), self.getter(b, axes)
        xs = tuple(x.dom.fresh("c") for x in axes)
        save = it.pc
        it.pc = it.pc.child([x.dom.pred(l) for x, l in zip(axes, xs)])
        try:
            v = self.close(ga(xs), gb(xs), rt, at)
        finally:
            it.pc = save
        flat = [t for l in xs for t in l]
        if not axes:
            return self.scalar(v, "bool")
        return self.new(axes, lambda labels: subst(v, dict(zip(flat, [t for l in labels for t in l]))), "bool")

    # ---------------------------------------------------------------- lengths, membership
    def len_(self, v):
        it = self.it
        if isinstance(v, (str, tuple, range)):
            return len(v)
        if isinstance(v, Arr):
            if not v.axes:
                raise PyRaise("TypeError", "len() of unsized object")
            if v.axes[0].pack:
                raise Unsupported("len of an array of unknown rank")
            s = v.axes[0].dom.size()
            self.note_size(v.axes[0].dom, s)
            return int(val(s)) if s.op == "num" else s
        if isinstance(v, (ListRef, SetVal, Seq)):
            if isinstance(v, SetVal) and v.conc is not None:
                return len(v.conc)
            t = ZERO
            segs = it.segments(v)
            for s in segs:
                t = add(t, ONE if s[0] == "one" else s[1].dom.size())
            if len(segs) == 1 and segs[0][0] == "seq":
                self.note_size(segs[0][1].dom, t)
            return int(val(t)) if t.op == "num" else t
        if isinstance(v, DictRef):
            c = it.heap[v.cid]
            if isinstance(c, SymMap):
                it.check_map_whole(v.cid)
                t = c.dom("lex").size()
                return int(val(t)) if t.op == "num" else t
            return len(c)
        if isinstance(v, Obj):
            f = v.cls.lookup("__len__")
            if f is not None:
                return it.call(Bound(f, v), [], {})
        if isinstance(v, (int, float, complex, type(None), T, Cx)):
            raise PyRaise("TypeError", "object has no len()")
        if isinstance(v, StrVal):
            raise Unsupported("length of a symbolic string")
        if isinstance(v, Transparent) and v.kind == "keys":
            return self.len_(v.d)
        if isinstance(v, Opaque) and getattr(v, "len", None) is not None:
            return v.len()
        raise Unsupported("len of %s" % type(v).__name__)

    def contains(self, c, x):
        it = self.it
        if isinstance(c, DictRef):
            return it.dict_has(c, x)
        if isinstance(c, SetVal):
            if c.conc is not None:
                if isinstance(x, (T, tuple)) and it_symbolic(x):
                    return or_(*[it.to_T(it.compare("Eq", x, k)) for k in c.conc])
                return it.pykey(x) in c.conc
            k = it.key_terms(x)
            if k is None:
                return False
            return and_(c.sym.has(k), it.key_range(k, c.sym.lhi))
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Transparent) and c.kind == "keys":
            return it.dict_has(c.d, x)
        if isinstance(c, (tuple, ListRef, range)):
            r = FALSE
            for s in it.segments(c):
                if s[0] == "one":
                    e = it.compare("Eq", x, s[1])
                    if isinstance(e, Arr):
                        e = it.truth(e)
                    r = or_(r, it.to_T(e))
                else:
                    seq = s[1]

                    def body(xs):
                        e = it.compare("Eq", x, seq.fn(xs))
                        return it.to_T(it.truth(e))
                    r = or_(r, seq.dom.binder("exists", body))
            return r if r not in (TRUE, FALSE) else r is TRUE
        if isinstance(c, Obj):
            f = c.cls.lookup("__contains__")
            if f is not None:
                return it.truth(it.call(Bound(f, c), [x], {}))
        if isinstance(c, Arr):
            r = it.compare("Eq", c, x)
            return it.truth(self.b_all(r, any_=True))
        raise Unsupported("membership in %s" % type(c).__name__)

    def list_get(self, o, idx):
        it = self.it
        segs = it.heap[o.cid]
        if isinstance(idx, slice):
            if all(s[0] == "one" for s in segs):
                sl = slice(*[None if x is None else it.conc_int(x) for x in (idx.start, idx.stop, idx.step)])
                return it.new_list(tuple(segs[sl]))
            if idx == slice(None):
                return it.new_list(tuple(segs))
            if len(segs) == 1 and segs[0][1].dom.arity == 1 and segs[0][1].dom.filt is TRUE:
                seq = segs[0][1]
                new, f, _ = self.slice_axis(Axis(seq.dom), idx)
                return it.new_list((("seq", Seq(new.dom, lambda ls: seq.fn(tuple(f(tuple(ls))) if f else tuple(ls)))),))
            raise Unsupported("slice of a symbolic list")
        i = self.item(idx)
        if isinstance(i, (float, str, type(None), tuple)):
            raise PyRaise("TypeError", "list indices must be integers")
        if all(s[0] == "one" for s in segs):
            if isinstance(i, T) and i.op != "num":
                try:
                    i = it.conc_int(i)
                except Unsupported:
                    for k in range(len(segs)):
                        if it.decide(eq(i, num(k))):
                            return segs[k][1]
                    raise PyRaise("IndexError", "list index out of range")
            i = it.conc_int(i)
            try:
                return segs[i][1]
            except IndexError:
                raise PyRaise("IndexError", "list index out of range")
        if isinstance(i, int) and i < 0:
            k = 0
            for s in reversed(segs):
                if s[0] != "one":
                    break
                k -= 1
                if k == i:
                    return s[1]
        if isinstance(i, int) and i >= 0:
            for k, s in enumerate(segs):
                if s[0] != "one":
                    break
                if k == i:
                    return s[1]
        if len(segs) == 1:
            seq = segs[0][1]
            if isinstance(i, RankIdx):
                if self.same_dom(seq.dom, i.dom):
                    return seq.fn(i.labels)
                i = it.t(i)
            ax = Axis(seq.dom)
            if isinstance(i, int) and seq.dom.kind != "range" and i == 0:
                raise Unsupported("first item of a filtered list")
            return seq.fn(self.int_index(ax, i if isinstance(i, int) else i))
        raise Unsupported("index into a symbolic list")

    # ---------------------------------------------------------------- iteration helpers
    def zip_star(self, v):
        """zip(*seq)"""
        it = self.it
        segs = it.segments(v)
        if len(segs) == 1 and segs[0][0] == "seq":
            seq = segs[0][1]
            xs = seq.dom.fresh()
            t = seq.fn(xs)
            if isinstance(t, tuple):
                n = len(t)
                return it.list_of([it.new_list((("seq", Seq(seq.dom, (lambda k: (lambda ls: seq.fn(ls)[k]))(k))),)) for k in range(n)])
            raise Unsupported("zip(*) of a symbolic sequence")
        return self.b_zip([x for x in it.concrete_items(v)], {})

    def b_zip(self, args, kw):
        it = self.it
        lists = [it.segments(a) for a in args]
        if not lists:
            return it.new_list()
        if all(all(s[0] == "one" for s in l) for l in lists):
            n = min(len(l) for l in lists)
            return it.new_list(tuple(("one", tuple(l[i][1] for l in lists)) for i in range(n)))
        if all(len(l) == 1 and l[0][0] == "seq" for l in lists):
            seqs = [l[0][1] for l in lists]
            d = seqs[0].dom
            for s in seqs[1:]:
                if not self.same_dom(d, s.dom):
                    if d.kind == "range" and s.dom.kind == "range":
                        if it.decide(eq(d.his[0], s.dom.his[0])):
                            continue
                    raise Unsupported("zip of sequences over different index sets")
            return it.new_list((("seq", Seq(d, lambda ls: tuple(s.fn(ls) for s in seqs))),))
        # concrete against symbolic of known length
        lens = [self.len_(it.new_list(l)) for l in lists]
        conc = [n for n in lens if isinstance(n, int)]
        if conc:
            n = min(conc)
            for l in lens:
                if not isinstance(l, int) and not it.pc.proves(ge(l, num(n))):
                    raise Unsupported("zip of a symbolic and a concrete sequence")
            rows = []
            for i in range(n):
                rows.append(("one", tuple(self.list_get(it.new_list(l), i) for l in lists)))
            return it.new_list(tuple(rows))
        raise Unsupported("zip of mixed sequences")

    def b_enumerate(self, args, kw):
        it = self.it
        start = kw.get("start", args[1] if len(args) > 1 else 0)
        out, n = [], start
        for s in it.segments(args[0]):
            if s[0] == "one":
                out.append(("one", (n, s[1])))
                n = it.binop("Add", n, 1)
            else:
                seq = s[1]
                if seq.dom.kind == "range":
                    n0 = n
                    out.append(("seq", Seq(seq.dom, (lambda sq, n0: (lambda ls: (it.binop("Add", n0, ls[0]), sq.fn(ls))))(seq, n0))))
                else:
                    if n != 0:
                        raise Unsupported("enumerate")
                    out.append(("seq", Seq(seq.dom, (lambda sq: (lambda ls: (RankIdx(sq.dom, tuple(ls)), sq.fn(ls))))(seq))))
                n = it.binop("Add", n, seq.dom.size())
        return it.new_list(tuple(out))

    def b_range(self, args, kw):
        it = self.it
        a = [self.item(x) for x in args]
        for x in a:
            if isinstance(x, (float, complex, Cx, str, type(None), tuple)) or (isinstance(x, T) and x.sort == "R"):
                raise PyRaise("TypeError", "range() requires integers")
            if isinstance(x, Arr):
                raise PyRaise("TypeError", "only integer scalar arrays can be converted to a scalar index")
        a = [int(val(x)) if isinstance(x, T) and x.op == "num" else x for x in a]
        if all(isinstance(x, int) for x in a):
            return range(*a)
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) == 3:
            st = a[2]
            if st == -1:
                lo_, hi_ = it.t(lo), it.t(hi)
                n = sub(lo_, hi_)
                return it.new_list((("seq", Seq(self.rng(ZERO, n), lambda ls: sub(lo_, ls[0]))),))
            if st != 1:
                if isinstance(st, int) and st > 1:
                    lo_, hi_ = it.t(lo), it.t(hi)
                    n = idiv(add(sub(hi_, lo_), num(st - 1)), num(st))
                    return it.new_list((("seq", Seq(self.rng(ZERO, n), lambda ls: add(lo_, mul(num(st), ls[0])))),))
                raise Unsupported("range step")
        lo, hi = it.t(lo), it.t(hi)
        d = self.known_sizes().get(hi)
        if lo is ZERO and d is not None and hi.op == "sum" and d.order == "lex":
            # the positions of the members of an index set
            return it.new_list((("seq", Seq(d, lambda ls: RankIdx(d, tuple(ls)))),))
        return it.new_list((("seq", Seq(self.rng(lo, hi), lambda ls: ls[0])),))

    def rng(self, lo, hi):
        if lo.op == "num" and val(lo) == 0:
            if not self.it.pc.proves(ge(hi, ZERO)):
                return Dom((var("r$", "I"),), (ZERO,), (hi,), TRUE, "prod")
            return range_dom(hi)
        return interval_dom(lo, hi)

    def b_sorted(self, args, kw):
        it = self.it
        v = args[0]
        segs = it.segments(v)
        key = kw.get("key")
        if key is not None:
            if len(segs) == 1 and segs[0][0] == "seq" and not kw.get("reverse"):
                # the key puts distinct labels in their own order
                seq = segs[0][1]
                d, xs = seq.dom, seq.dom.fresh()
                x = seq.fn(xs)
                k = it.call(key, [x], {})
                if isinstance(k, tuple) and tuple(k) == tuple(xs) or len(xs) == 1 and k is xs[0]:
                    return it.new_list((("seq", Seq(Dom(d.vars, d.los, d.his, d.filt, d.kind, "lex"), seq.fn)),))
            if all(s[0] == "one" for s in segs):
                ks = [it.pykey(it.call(key, [s[1]], {})) for s in segs]
                try:
                    order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=bool(kw.get("reverse", False)))
                except TypeError:
                    raise Unsupported("sorted with a key")
                return it.new_list(tuple(segs[i] for i in order))
            raise Unsupported("sorted with a key")
        if all(s[0] == "one" for s in segs):
            items = [s[1] for s in segs]
            try:
                items = sorted((it.pykey(x) for x in items), reverse=bool(kw.get("reverse", False)))
            except TypeError:
                raise Unsupported("sorted")
            return it.list_of(items)
        if len(segs) == 1 and not kw.get("reverse"):
            seq = segs[0][1]
            xs = seq.dom.fresh()
            t = seq.fn(xs)
            d = seq.dom
            if (isinstance(t, tuple) and tuple(t) == tuple(xs)) or (len(xs) == 1 and t is xs[0]):
                return it.new_list((("seq", Seq(Dom(d.vars, d.los, d.his, d.filt, d.kind, "lex"), seq.fn)),))
            # items (key, value) with distinct keys sort by key
            if isinstance(t, tuple) and t and isinstance(t[0], tuple) and tuple(t[0]) == tuple(xs):
                return it.new_list((("seq", Seq(Dom(d.vars, d.los, d.his, d.filt, d.kind, "lex"), seq.fn)),))
        raise Unsupported("sorted of a symbolic sequence")

    def b_set(self, args, kw):
        it = self.it
        if not args:
            return SetVal(conc=frozenset())
        v = args[0]
        if isinstance(v, SetVal):
            return v
        if isinstance(v, Transparent) and v.kind == "keys":
            v = v.d
        if isinstance(v, DictRef):
            c = it.heap[v.cid]
            if isinstance(c, SymMap):
                it.check_map_whole(v.cid)
                return SetVal(sym=c)
            return SetVal(conc=frozenset(c))
        segs = it.segments(v)
        if all(s[0] == "one" for s in segs):
            return SetVal(conc=frozenset(it.pykey(s[1]) for s in segs))
        if len(segs) == 1:
            seq = segs[0][1]
            xs = seq.dom.fresh()
            t = seq.fn(xs)
            if isinstance(t, tuple) and len(t) == 2 and tuple(t) == tuple(xs):
                d = seq.dom
                # pairs of labels: has(l, m) = in the index set
                return SetVal(sym=SymMap(lambda k: d.pred(k), None, self.dom_lhi(d)))
        raise Unsupported("set of a symbolic sequence")

    def dom_lhi(self, d):
        return d.his[0]

    def sym_of(self, s):
        it = self.it
        if s.conc is None:
            return s.sym
        lhi = ZERO
        for k in s.conc:
            if not (isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, int) for x in k)):
                raise Unsupported("set of mixed keys")
            lhi = tmax(lhi, num(k[0] + 1))
        ks = s.conc
        return SymMap(lambda q: or_(*[and_(eq(q[0], num(k[0])), eq(q[1], num(k[1]))) for k in ks]), None, lhi)

    def set_op(self, op, a, b):
        if a.conc is not None and b.conc is not None:
            f = {"BitOr": lambda: a.conc | b.conc, "BitAnd": lambda: a.conc & b.conc, "Sub": lambda: a.conc - b.conc}[op]
            return SetVal(conc=f())
        x, y = self.sym_of(a), self.sym_of(b)
        it = self.it
        hx = lambda q: and_(x.has(q), it.key_range(q, x.lhi))
        hy = lambda q: and_(y.has(q), it.key_range(q, y.lhi))
        f = {"BitOr": lambda q: or_(hx(q), hy(q)), "BitAnd": lambda q: and_(hx(q), hy(q)), "Sub": lambda q: and_(hx(q), not_(hy(q)))}[op]
        return SetVal(sym=SymMap(f, None, tmax(x.lhi, y.lhi)))

    def set_union(self, args, kw):
        r = None
        for a in args:
            if isinstance(a, StarSeq):
                a = self.union_seq(a.seq)
            a = a if isinstance(a, SetVal) else self.b_set([a], {})
            r = a if r is None else self.set_op("BitOr", r, a)
        return r if r is not None else SetVal(conc=frozenset())

    def union_seq(self, seq):
        """the union of a non-empty symbolic sequence of sets of pairs"""
        it = self.it
        if not it.decide(seq.dom.binder("exists", lambda xs: TRUE)):
            raise PyRaise("TypeError", "descriptor 'union' needs an argument")

        def member(xs):
            s = seq.fn(xs)
            return self.sym_of(s if isinstance(s, SetVal) else self.b_set([s], {}))
        top = fresh("top", "I")
        it.axiom(and_(ge(top, ZERO), seq.dom.binder("forall", lambda xs: le(member(xs).lhi, top))))

        def has(q):
            def one(xs):
                x = member(xs)
                return and_(x.has(q), it.key_range(q, x.lhi))
            return seq.dom.binder("exists", one)
        return SetVal(sym=SymMap(has, None, top))

    def b_minmax(self, sign):
        it = self.it

        def call(args, kw):
            if len(args) == 1:
                v = args[0]
                segs = it.segments(v)
                if all(s[0] == "one" for s in segs):
                    items = [s[1] for s in segs]
                else:
                    if len(segs) != 1:
                        raise Unsupported("max of a mixed sequence")
                    a = self.stack_segs(list(segs), 0, nested=True)
                    if len(a.axes) != 1:
                        raise Unsupported("max of a symbolic sequence of tuples")
                    if "default" in kw and not it.decide(a.axes[0].dom.binder("exists", lambda xs: TRUE)):
                        return kw["default"]
                    return self.item(self.b_max(a, sign=sign))
                if not items:
                    if "default" in kw:
                        return kw["default"]
                    raise PyRaise("ValueError", "max() arg is an empty sequence")
            else:
                items = list(args)
            if kw.get("key") is not None:
                raise Unsupported("max with a key")
            r = items[0]
            for x in items[1:]:
                r = self.mm2(sign, r, x)
            return r
        return call

    def mm2(self, sign, a, b):
        it = self.it
        a0, b0 = self.item(a), self.item(b)
        if isinstance(a0, Arr) or isinstance(b0, Arr):
            c = it.compare("Gt" if sign > 0 else "Lt", b, a)
            return b if it.decide(it.truth(c)) else a
        if all(isinstance(x, (int, float)) for x in (a0, b0)):
            return (max if sign > 0 else min)(a0, b0)
        if not (it.is_scalar(a0) and it.is_scalar(b0)):
            c = it.compare("Gt" if sign > 0 else "Lt", b0, a0)
            return b if it.decide(it.truth(c)) else a
        x, y = self.rt(a0), self.rt(b0)
        if it.pc.proves(le(x, y) if sign > 0 else ge(x, y)):
            return b0
        if it.pc.proves(ge(x, y) if sign > 0 else le(x, y)):
            return a0
        return (tmax if sign > 0 else tmin)(x, y)

    # ---------------------------------------------------------------- conversion builtins
    def b_int(self, args, kw):
        it = self.it
        if not args:
            return 0
        v = self.item(args[0])
        if isinstance(v, Opaque) and hasattr(it, "tok_int"):
            return it.tok_int(v)
        if isinstance(v, Arr):
            if all(a.is_one() for a in v.axes):
                v = v.elem()(tuple((ZERO,) for _ in v.axes))
            else:
                raise PyRaise("TypeError", "only length-1 arrays can be converted to Python scalars")
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError as e:
                raise PyRaise("ValueError", str(e))
        if isinstance(v, (Cx, complex)):
            raise PyRaise("TypeError", "can't convert complex to int")
        if isinstance(v, (int, float)):
            return int(v)
        if isinstance(v, T):
            r = self.trunc(it.as_num(v))
            return int(val(r)) if r.op == "num" else r
        if isinstance(v, (type(None), tuple, ListRef, DictRef)):
            raise PyRaise("TypeError", "int() argument")
        raise Unsupported("int() of %s" % type(v).__name__)

    def b_float(self, args, kw):
        v = self.item(args[0]) if args else 0.0
        if isinstance(v, Opaque) and hasattr(self.it, "tok_float"):
            return self.it.tok_float(v)
        if isinstance(v, Arr) and all(a.is_one() for a in v.axes):
            v = v.elem()(tuple((ZERO,) for _ in v.axes))
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError as e:
                raise PyRaise("ValueError", str(e))
        if isinstance(v, (Cx, complex)):
            raise PyRaise("TypeError", "can't convert complex to float")
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, T):
            return self.realize(v)
        if isinstance(v, (type(None), tuple, ListRef, DictRef, Arr)):
            raise PyRaise("TypeError", "float() argument")
        raise Unsupported("float()")

    def b_complex(self, args, kw):
        it = self.it
        if not args:
            return 0j
        if len(args) == 2:
            a, b = [it.cx(self.item(x)) for x in args]
            return Cx(sub(a.re, b.im), add(a.im, b.re))
        v = self.item(args[0])
        if isinstance(v, Arr) and all(a.is_one() for a in v.axes):
            v = v.elem()(tuple((ZERO,) for _ in v.axes))
        if isinstance(v, (str, StrVal, Opaque)):
            raise Unsupported("complex() of a string")
        return it.cx(v)

    def b_bool(self, args, kw):
        if not args:
            return False
        return self.it.truth(self.item(args[0]))

    def b_type(self, args, kw):
        v = args[0]
        if isinstance(v, Arr) and not v.axes:
            return Builtin("numpy." + {"int": "int64", "float": "float64", "complex": "complex128", "bool": "bool"}[v.dtype], None)
        if isinstance(v, Arr):
            return self.builtin("numpy.ndarray")
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, bool) or (isinstance(v, T) and v.sort == "B"):
            return self.builtin("bool")
        if isinstance(v, int) or (isinstance(v, T) and v.sort == "I"):
            return self.builtin("int")
        if isinstance(v, float) or (isinstance(v, T) and v.sort == "R"):
            return self.builtin("float")
        if isinstance(v, (complex, Cx)):
            return self.builtin("complex")
        if isinstance(v, (str, StrVal)):
            return self.builtin("str")
        if isinstance(v, tuple):
            return self.builtin("tuple")
        if isinstance(v, ListRef):
            return self.builtin("list")
        if isinstance(v, DictRef):
            return self.builtin("dict")
        if isinstance(v, SetVal):
            return self.builtin("set")
        if v is None:
            return Builtin("NoneType", None)
        if isinstance(v, Opaque):
            return Opaque("type of " + v.name)
        raise Unsupported("type()")

    def builtin(self, name):
        b = self.builtins()
        if name in b:
            return b[name]
        return Builtin(name, None)

    def b_isinstance(self, args, kw):
        it = self.it
        v, cls = args
        clss = cls if isinstance(cls, tuple) else (cls,)
        t = self.b_type([v], {})
        for c in clss:
            if isinstance(c, ClassVal):
                k = t
                todo = [t] if isinstance(t, ClassVal) else []
                while todo:
                    k = todo.pop()
                    if k is c:
                        return True
                    todo += list(k.bases)
                continue
            if not isinstance(c, Builtin):
                raise Unsupported("isinstance")
            if isinstance(t, ClassVal):
                continue
            if isinstance(t, Opaque):
                raise Unsupported("isinstance of an opaque object")
            n, m = t.name, c.name
            if n == m or m == "object":
                return True
            supers = {"bool": ["int"], "numpy.int64": ["numpy.integer", "numpy.number", "numpy.generic", "numbers.Integral", "numbers.Number", "numbers.Real"],
                      "numpy.float64": ["float", "numpy.floating", "numpy.number", "numpy.generic", "numbers.Real", "numbers.Number"],
                      "numpy.complex128": ["complex", "numpy.complexfloating", "numpy.number", "numpy.generic", "numbers.Number"],
                      "numpy.bool": ["numpy.bool_", "numpy.generic"], "int": ["numbers.Integral", "numbers.Number", "numbers.Real"],
                      "float": ["numbers.Real", "numbers.Number"], "complex": ["numbers.Number"],
                      "list": ["collections.abc.Sequence", "collections.abc.Iterable"], "tuple": ["collections.abc.Sequence", "collections.abc.Iterable"]}
            if m in supers.get(n, ()):
                return True
        return False

    def b_str(self, args, kw):
        if not args:
            return ""
        return self.fmt_value(args[0], "", -1)

    def b_list(self, args, kw):
        it = self.it
        if not args:
            return it.new_list()
        return it.new_list(tuple(it.segments(args[0])))

    def b_tuple(self, args, kw):
        it = self.it
        if not args:
            return ()
        segs = it.segments(args[0])
        if all(s[0] == "one" for s in segs):
            return tuple(s[1] for s in segs)
        return it.new_list(tuple(segs))

    def b_dict(self, args, kw):
        it = self.it
        d = DictRef(it.alloc({}))
        if args:
            src = args[0]
            if isinstance(src, DictRef):
                it.heap[d.cid] = it.heap[src.cid] if isinstance(it.heap[src.cid], SymMap) else dict(it.heap[src.cid])
            else:
                for kv in it.concrete_items(src):
                    k, v = it.concrete_items(kv)
                    it.dict_set(d, k, v)
        for k, v in kw.items():
            it.dict_set(d, k, v)
        return d

    def b_abs(self, args, kw):
        v = args[0]
        if isinstance(v, Arr):
            return self.lib("numpy.abs").fn(args, {})
        if isinstance(v, Obj):
            f = v.cls.lookup("__abs__")
            if f:
                return self.it.call(Bound(f, v), [], {})
        if not self.it.is_scalar(v):
            raise PyRaise("TypeError", "bad operand type for abs()")
        return self.f_abs(v)

    def b_bsum(self, args, kw):
        it = self.it
        start = kw.get("start", args[1] if len(args) > 1 else 0)
        r = start
        for s in it.segments(args[0]):
            if s[0] == "one":
                r = it.binop("Add", r, s[1])
            else:
                a = self.stack_segs([s], 0, nested=True)
                r = it.binop("Add", r, self.demote(self.b_sum(a, axis=0)))
        return r

    def demote(self, v):
        return self.item(v)

    def b_pow(self, args, kw):
        return self.it.binop("Pow", args[0], args[1])

    def b_quant(self, any_):
        it = self.it

        def call(args, kw):
            r = FALSE if any_ else TRUE
            for s in it.segments(args[0]):
                if s[0] == "one":
                    c = it.to_T(it.truth(s[1]))
                else:
                    seq = s[1]
                    c = seq.dom.binder("exists" if any_ else "forall", lambda xs: it.to_T(it.truth(seq.fn(xs))))
                r = or_(r, c) if any_ else and_(r, c)
            return r if r not in (TRUE, FALSE) else r is TRUE
        return call

    def b_map(self, args, kw):
        it = self.it
        f = args[0]
        z = self.b_zip(list(args[1:]), {})
        out = it.new_list()

        def bind(v):
            self._mapv = v

        def body():
            r = it.call(f, list(self._mapv), {})
            it.heap[out.cid] = it.heap[out.cid] + (("one", r),)
        it.run_for(it.segments(z), bind, body)
        return out

    def b_filter(self, args, kw):
        it = self.it
        f = args[0]
        out = it.new_list()

        def bind(v):
            self._filterv = v

        def body():
            v = self._filterv
            if it.decide(it.to_T(it.truth(v if f is None else it.call(f, [v], {})))):
                it.heap[out.cid] = it.heap[out.cid] + (("one", v),)
        it.run_for(it.segments(args[1]), bind, body)
        return out

    def b_iter(self, args, kw):
        return self.it.new_list(tuple(self.it.segments(args[0])))

    def b_reversed(self, args, kw):
        it = self.it
        segs = it.segments(args[0])
        if all(s[0] == "one" for s in segs):
            return it.new_list(tuple(reversed(segs)))
        if len(segs) == 1 and segs[0][1].dom.kind == "range":
            seq = segs[0][1]
            n = seq.dom.his[0]
            return it.new_list((("seq", Seq(seq.dom, lambda ls: seq.fn((sub(sub(n, ONE), ls[0]),)))),))
        raise Unsupported("reversed")

    def b_next(self, args, kw):
        it = self.it
        segs = it.segments(args[0])
        if isinstance(args[0], ListRef) and segs and segs[0][0] == "one":
            it.heap[args[0].cid] = tuple(segs[1:])
            return segs[0][1]
        raise Unsupported("next")

    def b_round(self, args, kw):
        v = self.item(args[0])
        if isinstance(v, (int, float)) and len(args) == 1:
            return round(v)
        raise Unsupported("round")

    def builtins(self):
        if self._b is not None:
            return self._b
        it = self.it
        b = {}

        def add_(name, fn):
            b[name] = Builtin(name, fn)
        for n in EXC_NAMES:
            add_(n, lambda args, kw, n=n: Opaque("exception:" + n))
        for n, f in dict(range=self.b_range, len=lambda a, k: self.len_(a[0]), filter=self.b_filter, zip=self.b_zip, enumerate=self.b_enumerate,
                         sorted=self.b_sorted, set=self.b_set, list=self.b_list, tuple=self.b_tuple, dict=self.b_dict,
                         max=self.b_minmax(1), min=self.b_minmax(-1), abs=self.b_abs, sum=self.b_bsum, int=self.b_int,
                         float=self.b_float, complex=self.b_complex, bool=self.b_bool, str=self.b_str, repr=self.b_str,
                         type=self.b_type, isinstance=self.b_isinstance, print=self.b_print, pow=self.b_pow,
                         all=self.b_quant(False), any=self.b_quant(True), map=self.b_map, reversed=self.b_reversed,
                         iter=lambda a, k: a[0], next=self.b_next, round=self.b_round, open=self.b_open,
                         frozenset=self.b_set, divmod=self.b_divmod, id=None, slice=lambda a, k: slice(*a),
                         getattr=self.b_getattr, hasattr=self.b_hasattr, callable=lambda a, k: isinstance(a[0], (Func, Bound, Builtin, ClassVal))).items():
            add_(n, f)
        b["object"] = ClassVal("object", {}, "builtins")
        b["__name__"] = "module"
        b["Ellipsis"] = Ellipsis
        b["NotImplemented"] = Opaque("NotImplemented")
        self._b = b
        return b

    def b_divmod(self, a, k):
        return (self.it.binop("FloorDiv", a[0], a[1]), self.it.binop("Mod", a[0], a[1]))

    def b_print(self, a, k):
        f = k.get("file")
        if f is None:
            return None
        if not isinstance(f, Opaque) or not f.name.startswith("file"):
            raise Unsupported("print to a file")
        sep, end = k.get("sep") or " ", k.get("end", "\n")
        parts = []
        for i, x in enumerate(a):
            parts += ([sep] if i else []) + [self.b_str([x], {})]
        self.it.call(self.attr(f, "write"), [self.sconcat(parts + [end])], {})

    def b_getattr(self, a, k):
        try:
            return self.it.getattr(a[0], a[1])
        except PyRaise:
            if len(a) > 2:
                return a[2]
            raise

    def b_hasattr(self, a, k):
        try:
            self.it.getattr(a[0], a[1])
            return True
        except PyRaise:
            return False

    def b_open(self, args, kw):
        it = self.it
        if not hasattr(it, "files"):
            raise Unsupported("open()")
        return it.files.open(args, kw)

    # ---------------------------------------------------------------- opaque values
    def enter(self, o):
        if o.name.startswith("file") and hasattr(self.it, "files"):
            return o
        return o

    def leave(self, o):
        if o.name.startswith("file") and hasattr(self.it, "files"):
            self.it.files.close(o)

    def opaque_call(self, f, args, kw):
        h = getattr(f, "call", None)
        if h is not None:
            return h(args, kw)
        if f.name in ("errstate", "logger"):
            return f
        raise Unsupported("call of " + f.name)

    def opaque_binop(self, op, a, b):
        raise Unsupported("operator on " + (a if isinstance(a, Opaque) else b).name)

    def opaque_iter(self, o):
        h = getattr(o, "iter", None)
        if h is not None:
            return h()
        raise Unsupported("iteration over " + o.name)

    def opaque_getitem(self, o, idx):
        h = getattr(o, "getitem", None)
        if h is not None:
            return h(idx)
        raise Unsupported("subscript of " + o.name)

    # ---------------------------------------------------------------- strings
    def sconcat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, StrVal):
                out += list(p.parts)
            elif isinstance(p, str):
                out.append(p)
            else:
                out.append(("obj", p))
        if all(isinstance(x, str) for x in out):
            return "".join(out)
        return StrVal(out)

    def fmt_value(self, v, spec, conv=-1):
        v = self.item(v)
        if isinstance(v, T) and v.op == "num" and v.sort == "I":
            v = int(val(v))
        if isinstance(v, StrVal) and not spec:
            return v
        if isinstance(v, (str, int, float, complex, bool)) and isinstance(spec, str):
            try:
                return format(v, spec)
            except ValueError as e:
                raise PyRaise("ValueError", str(e))
        if isinstance(v, (type(None),)):
            return "None"
        return StrVal([("fmt", "{:%s}" % (spec if isinstance(spec, str) else "?"), v)])

    def fmt_percent(self, s, args):
        it = self.it
        if isinstance(s, StrVal):
            raise Unsupported("% on a symbolic string")
        if not isinstance(args, tuple):
            args = (args,)
        parts, pos, k = [], 0, 0
        for m in re.finditer(r"%(?:\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])", s):
            parts.append(s[pos:m.start()])
            pos = m.end()
            if m.group(3) == "%":
                parts.append("%")
                continue
            if m.group(1):
                raise Unsupported("named % format")
            if k >= len(args):
                raise PyRaise("TypeError", "not enough arguments for format string")
            v = self.item(args[k])
            k += 1
            if isinstance(v, T) and v.op == "num" and v.sort == "I":
                v = int(val(v))
            if isinstance(v, (int, float, str, bool)):
                try:
                    parts.append(m.group(0) % v)
                except TypeError as e:
                    raise PyRaise("TypeError", str(e))
            elif isinstance(v, StrVal) and m.group(0) == "%s":
                parts += list(v.parts)
            else:
                if isinstance(v, (str, StrVal)) and m.group(3) in "dief":
                    raise PyRaise("TypeError", "a number is required")
                if isinstance(v, (Cx, complex)) and m.group(3) in "defgi":
                    raise PyRaise("TypeError", "can't convert complex")
                if isinstance(v, Arr) and m.group(3) in "defgi" and not all(a.is_one() for a in v.axes):
                    raise PyRaise("TypeError", "only length-1 arrays can be converted")
                parts.append(("fmt", m.group(0), v))
        if k < len(args):
            raise PyRaise("TypeError", "not all arguments converted during string formatting")
        parts.append(s[pos:])
        sv = StrVal(parts)
        return "".join(sv.parts) if all(isinstance(x, str) for x in sv.parts) else sv

    def str_term(self, s):
        """a string as a term of the uninterpreted sort"""
        parts = s.parts if isinstance(s, StrVal) else ((s,) if s else ())
        ts = [app("str:" + p, (), "U") if isinstance(p, str) else p[2] for p in parts]
        return ts[0] if len(ts) == 1 else app("cat", tuple(ts), "U")

    def str_eq(self, a, b):
        if a is b:
            return True
        pa = list(a.parts if isinstance(a, StrVal) else ((a,) if a else ()))
        pb = list(b.parts if isinstance(b, StrVal) else ((b,) if b else ()))
        if all(isinstance(p, str) or p[0] == "sym" for p in pa + pb):
            same = lambda x, y: x == y if isinstance(x, str) or isinstance(y, str) else x[2] is y[2]
            while pa and pb and same(pa[0], pb[0]):
                pa.pop(0), pb.pop(0)
            while pa and pb and same(pa[-1], pb[-1]):
                pa.pop(), pb.pop()
            if not pa and not pb:
                return True
            if all(isinstance(p, str) for p in pa + pb):
                return "".join(pa) == "".join(pb)
            return eq(self.str_term(a), self.str_term(b))
        if len(pa) == len(pb):
            r = TRUE
            for x, y in zip(pa, pb):
                if isinstance(x, str) and isinstance(y, str):
                    if x != y:
                        break
                elif isinstance(x, tuple) and isinstance(y, tuple) and x[:2] == y[:2]:
                    e = self.it.compare("Eq", x[2], y[2])
                    r = and_(r, self.it.to_T(e))
                else:
                    break
            else:
                if r is TRUE:
                    return True
        raise Unsupported("equality of symbolic strings")

    # ---------------------------------------------------------------- attributes
    def attr(self, o, name):
        it = self.it
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if it.is_scalar(o):
            if name == "real":
                return self.f_real(o)
            if name == "imag":
                return self.f_imag(o)
            if name in ("conjugate", "conj"):
                return Builtin("conjugate", lambda a, k: self.f_conj(o))
            if name in ("is_integer", "item", "dtype", "shape", "astype") :
                raise PyRaise("AttributeError", name)
            raise PyRaise("AttributeError", name)
        if isinstance(o, ListRef):
            return self.list_attr(o, name)
        if isinstance(o, DictRef):
            return self.dict_attr(o, name)
        if isinstance(o, (str, StrVal)):
            return self.str_attr(o, name)
        if isinstance(o, tuple):
            if name == "index":
                return Builtin("tuple.index", lambda a, k: self.index_of(o, a[0]))
            if name == "count":
                return Builtin("tuple.count", lambda a, k: sum(1 for x in o if it.decide(it.truth(it.compare("Eq", x, a[0])))))
            raise PyRaise("AttributeError", name)
        if isinstance(o, SetVal):
            if name == "union":
                return Builtin("set.union", lambda a, k: self.set_union([o] + list(a), k))
            if name == "intersection":
                return Builtin("set.intersection", lambda a, k: self.set_op("BitAnd", o, self.b_set([a[0]], {})))
            if name == "difference":
                return Builtin("set.difference", lambda a, k: self.set_op("Sub", o, self.b_set([a[0]], {})))
            raise Unsupported("set." + name)
        if isinstance(o, WhereIdx):
            raise Unsupported("attribute of an index tuple")
        if isinstance(o, Builtin):
            if o.name == "set" and name == "union":
                return Builtin("set.union", self.set_union)
            if o.name == "dict" and name == "fromkeys":
                return Builtin("dict.fromkeys", lambda a, k: self.fromkeys(a))
            if name == "__name__":
                return o.name
            if o.name.startswith("numpy.") and name in ("outer", "at", "reduce", "accumulate"):
                return self.ufunc_method(o, name)
            if name == "from_iterable":
                raise Unsupported("itertools.chain.from_iterable")
            raise PyRaise("AttributeError", name)
        if isinstance(o, Func):
            if name == "cache_info" and getattr(o, "memoised", False):
                return Builtin("cache_info", lambda a, k: Opaque("cache_info"))
            if name == "__wrapped__":
                return o
            if name == "__name__":
                return o.qual.split(":")[-1]
            raise PyRaise("AttributeError", name)
        if isinstance(o, Opaque):
            h = getattr(o, "attrs", None)
            if h is not None:
                return h(name)
            if o.name == "logger":
                return Builtin("logger." + name, lambda a, k: None)
            if o.name == "super":
                self_ = o.term[0]
                for b in self_.cls.bases:
                    f = b.lookup(name)
                    if f is not None:
                        return Bound(f, self_)
                if name == "__init__":
                    return Builtin("object.__init__", lambda a, k: None)
            raise Unsupported("attribute %s of %s" % (name, o.name))
        if isinstance(o, Transparent):
            raise Unsupported("attribute " + name)
        if o is None:
            raise PyRaise("AttributeError", "NoneType has no attribute " + name)
        if isinstance(o, Bound):
            raise Unsupported("attribute of a bound method")
        if isinstance(o, range):
            if name in ("start", "stop", "step"):
                return getattr(o, name)
        raise Unsupported("attribute %s of %s" % (name, type(o).__name__))

    def fromkeys(self, a):
        d = DictRef(self.it.alloc({}))
        for k in self.it.concrete_items(a[0]):
            self.it.dict_set(d, k, a[1] if len(a) > 1 else None)
        return d

    def ufunc_method(self, o, name):
        if name == "reduce" and o.name in ("numpy.add",):
            return Builtin("add.reduce", lambda a, k: self.b_sum(a[0], axis=k.get("axis", 0)))
        if name == "outer":
            def outer(a, k):
                x, y = self.asarray(a[0]), self.asarray(a[1])
                x2 = self.basic(x, [slice(None)] * len(x.axes) + [None] * len(y.axes))
                return o.fn([x2, y], {})
            return Builtin(o.name + ".outer", outer)
        raise Unsupported("ufunc." + name)

    def index_of(self, seq, x):
        it = self.it
        for i, y in enumerate(it.concrete_items(seq)):
            if it.decide(it.truth(it.compare("Eq", x, y))):
                return i
        raise PyRaise("ValueError", "not in list")

    def arr_attr(self, o, name):
        it = self.it
        if name == "shape":
            sh = []
            for a in o.axes:
                if a.pack:
                    sh.append(PackDim(a.dom))
                else:
                    s = a.dom.size()
                    self.note_size(a.dom, s)
                    sh.append(int(val(s)) if s.op == "num" else s)
            return tuple(sh)
        if name == "size":
            s = self.size_of(o.axes)
            return s
        if name == "ndim":
            if any(a.pack for a in o.axes):
                raise Unsupported("ndim of an array of unknown rank")
            return len(o.axes)
        if name == "dtype":
            return Builtin("dtype:" + o.dtype, None)
        if name == "T":
            return self.transpose(o) if len(o.axes) > 1 else o
        if name in ("real", "imag"):
            f = self.f_real if name == "real" else self.f_imag
            return self.elementwise(f, [o], "float" if o.dtype == "complex" else o.dtype)
        if name == "flat":
            return self.flatten(o)

        def m(fn):
            import npfuncs
            return Builtin("ndarray." + name, lambda a, k: npfuncs.checked(lambda np, A, K: fn(A, K), name, self, a, k))
        if name == "copy":
            return m(lambda a, k: self.copy(o))
        if name == "astype":
            return m(lambda a, k: self.astype(o, self.dtype_arg(a[0] if a else k["dtype"])))
        if name in ("flatten", "ravel"):
            return m(lambda a, k: self.flatten(o))
        if name == "reshape":
            return m(lambda a, k: self.reshape(o, a[0] if len(a) == 1 else tuple(a)))
        if name == "transpose":
            return m(lambda a, k: self.transpose(o, [it.conc_int(x) for x in (it.concrete_items(a[0]) if len(a) == 1 else a)] if a else None))
        if name == "swapaxes":
            def sw(a, k):
                p = list(range(len(o.axes)))
                i, j = a[0] % len(p), a[1] % len(p)
                p[i], p[j] = p[j], p[i]
                return self.transpose(o, p)
            return m(sw)
        if name in ("sum", "max", "min", "mean", "all", "any", "argmax", "argmin", "conj", "conjugate", "nonzero", "squeeze",
                    "std", "var", "prod", "cumsum", "dot", "round", "repeat", "clip", "take"):
            f = self.lib("numpy." + name)
            return m(lambda a, k: f.fn([o] + list(a), k))
        if name == "item":
            return m(lambda a, k: self.item_of(o))
        if name == "tolist":
            return m(lambda a, k: self.tolist(o))
        if name == "fill":
            return m(lambda a, k: self.write(o, self.broadcast_to(self.asarray(a[0]), o.axes)))
        if name == "setflags":
            def sf(a, k):
                if k.get("write", True) is False:
                    o.readonly = True
                    self.it.shared = dict(self.it.shared)
                    self.it.shared.pop(o.cid, None)
                    self.readonly_cell(o.cid)
            return m(sf)
        if name == "flags":
            fl = Opaque("flags")
            return fl
        if name == "__name__":
            raise PyRaise("AttributeError", name)
        if name in ("keys", "items", "append", "get", "degree_max"):
            raise PyRaise("AttributeError", name)
        raise Unsupported("ndarray." + name)

    def readonly_cell(self, cid):
        pass

    def item_of(self, o):
        if not o.axes:
            return o.elem()(())
        if all(a.is_one() for a in o.axes):
            return o.elem()(tuple((ZERO,) for _ in o.axes))
        raise PyRaise("ValueError", "can only convert an array of size 1")

    def tolist(self, o):
        it = self.it
        if not o.axes:
            return self.item_of(o)
        out = []
        for s in it.segments(o):
            if s[0] == "one":
                out.append(("one", self.tolist(s[1]) if isinstance(s[1], Arr) else s[1]))
            else:
                seq = s[1]
                if len(o.axes) > 1:
                    raise Unsupported("tolist of a symbolic array")
                e = o.elem()
                out.append(("seq", Seq(seq.dom, lambda ls: e((tuple(ls),)))))
        return it.new_list(tuple(out))

    def list_attr(self, o, name):
        it = self.it

        def append(a, k):
            it.heap[o.cid] = it.heap[o.cid] + (("one", a[0]),)

        def extend(a, k):
            it.heap[o.cid] = it.heap[o.cid] + tuple(it.segments(a[0]))

        def insert(a, k):
            segs = it.heap[o.cid]
            i = it.conc_int(a[0])
            if all(s[0] == "one" for s in segs) or i == 0:
                it.heap[o.cid] = segs[:i] + (("one", a[1]),) + segs[i:]
            else:
                raise Unsupported("insert into a symbolic list")

        def pop(a, k):
            segs = it.heap[o.cid]
            i = it.conc_int(a[0]) if a else -1
            if all(s[0] == "one" for s in segs) or (i == -1 and segs and segs[-1][0] == "one"):
                if not segs:
                    raise PyRaise("IndexError", "pop from empty list")
                v = segs[i][1]
                l = list(segs)
                del l[i]
                it.heap[o.cid] = tuple(l)
                return v
            raise Unsupported("pop from a symbolic list")

        def sort(a, k):
            r = self.b_sorted([o], k)
            it.heap[o.cid] = it.heap[r.cid]

        def reverse(a, k):
            it.heap[o.cid] = it.heap[self.b_reversed([o], {}).cid]
        fns = dict(append=append, extend=extend, insert=insert, pop=pop, sort=sort, reverse=reverse,
                   copy=lambda a, k: it.new_list(it.heap[o.cid]), index=lambda a, k: self.index_of(o, a[0]))
        if name in fns:
            return Builtin("list." + name, fns[name])
        raise PyRaise("AttributeError", name) if name in ("shape", "dtype", "keys") else Unsupported("list." + name)

    def dict_attr(self, o, name):
        it = self.it

        def get(a, k):
            default = a[1] if len(a) > 1 else k.get("default")
            c = it.heap[o.cid]
            h = it.dict_has(o, a[0])
            if it.decide(h):
                if isinstance(c, SymMap):
                    return it.map_ref(o.cid, it.key_terms(a[0]))
                return it.dict_get(o, a[0])
            return default

        def keys(a, k):
            return Transparent(kind="keys", d=o)

        def items(a, k):
            c = it.heap[o.cid]
            if isinstance(c, SymMap):
                it.check_map_whole(o.cid)
                d = c.dom(("dict", o.cid, id(c)))
                return it.new_list((("seq", Seq(d, lambda ls: (tuple(ls), it.map_ref(o.cid, tuple(ls))))),))
            return it.list_of([(kk, v) for kk, v in c.items()])

        def values(a, k):
            c = it.heap[o.cid]
            if isinstance(c, SymMap):
                it.check_map_whole(o.cid)
                d = c.dom(("dict", o.cid, id(c)))
                return it.new_list((("seq", Seq(d, lambda ls: it.map_ref(o.cid, tuple(ls)))),))
            return it.list_of(list(c.values()))

        def update(a, k):
            for src in a:
                if isinstance(src, DictRef):
                    c = it.heap[src.cid]
                    if isinstance(c, SymMap):
                        raise Unsupported("update from a symbolic map")
                    for kk, v in c.items():
                        it.dict_set(o, kk, v)
                else:
                    for kv in it.concrete_items(src):
                        kk, v = it.concrete_items(kv)
                        it.dict_set(o, kk, v)
            for kk, v in k.items():
                it.dict_set(o, kk, v)

        def setdefault(a, k):
            if it.decide(it.dict_has(o, a[0])):
                return it.dict_get(o, a[0])
            it.dict_set(o, a[0], a[1] if len(a) > 1 else None)
            return it.dict_get(o, a[0])

        def pop(a, k):
            c = it.heap[o.cid]
            if isinstance(c, SymMap):
                raise Unsupported("pop from a symbolic map")
            kk = it.pykey(a[0])
            if kk not in c:
                if len(a) > 1:
                    return a[1]
                raise PyRaise("KeyError", repr(kk))
            c = dict(c)
            v = c.pop(kk)
            it.heap[o.cid] = c
            return v

        def copy(a, k):
            c = it.heap[o.cid]
            return DictRef(it.alloc(c if isinstance(c, SymMap) else dict(c)))

        def clear(a, k):
            it.heap[o.cid] = {}
        fns = dict(get=get, keys=keys, items=items, values=values, update=update, setdefault=setdefault, pop=pop, copy=copy, clear=clear)
        if name in fns:
            return Builtin("dict." + name, fns[name])
        raise Unsupported("dict." + name)

    def str_attr(self, o, name):
        it = self.it
        if name == "join":
            def join(a, k):
                segs = it.segments(a[0])
                if all(s[0] == "one" for s in segs):
                    parts = []
                    for i, s in enumerate(segs):
                        if i:
                            parts.append(o)
                        if not isinstance(s[1], (str, StrVal)):
                            raise PyRaise("TypeError", "sequence item: expected str instance")
                        parts.append(s[1])
                    return self.sconcat(parts)
                return StrVal([("join", o, tuple(segs))])
            return Builtin("str.join", join)
        if name == "format":
            def fmt(a, k):
                if isinstance(o, str):
                    parts, auto = [], 0
                    import string
                    for lit, field, spec, conv in string.Formatter().parse(o):
                        parts.append(lit)
                        if field is None:
                            continue
                        if field == "":
                            v = a[auto]
                            auto += 1
                        elif field.isdigit():
                            v = a[int(field)]
                        elif field in k:
                            v = k[field]
                        else:
                            raise Unsupported("format field")
                        parts.append(self.fmt_value(v, spec or "", -1))
                    return self.sconcat(parts)
                raise Unsupported("format of a symbolic string")
            return Builtin("str.format", fmt)
        if isinstance(o, str):
            if not hasattr("", name):
                raise PyRaise("AttributeError", name)

            def meth(a, k):
                if not all(isinstance(x, (str, int, tuple, type(None))) for x in a):
                    raise Unsupported("str.%s of symbolic arguments" % name)
                try:
                    r = getattr(o, name)(*a, **k)
                except (TypeError, ValueError) as e:
                    raise PyRaise(type(e).__name__, str(e))
                return it.list_of(r) if isinstance(r, list) else r
            return Builtin("str." + name, meth)
        if name in ("strip", "rstrip", "lstrip"):
            return Builtin("str." + name, lambda a, k: StrVal([("op", name, o)]))
        raise Unsupported("str.%s of a symbolic string" % name)

    # ---------------------------------------------------------------- libraries
    def lib(self, dotted):
        import npfuncs
        return npfuncs.lookup(self, dotted)


def it_symbolic(k):
    if isinstance(k, tuple):
        return any(it_symbolic(x) for x in k)
    return isinstance(k, T) and k.op != "num"


def subst_val(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, Cx):
        return Cx(subst(v.re, m), subst(v.im, m))
    if isinstance(v, tuple):
        return tuple(subst_val(x, m) for x in v)
    return v
