"""Values of the symbolic interpreter."""
from fractions import Fraction
import itertools

from terms import *
import terms as tm

_ids = itertools.count(1)


class Cx:
    """complex scalar as a pair of real terms"""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __bool__(self):
        raise Unsupported("the truth of a %s decided outside the interpreter" % type(self).__name__)

    def __repr__(self):
        return "Cx(%r, %r)" % (self.re, self.im)


class Poison:
    def __init__(self, why):
        self.why = why


class Dom:
    """A finite index set: nested integer ranges with a filter.

    vars: template variables; los/his: bound terms over the earlier variables; filt: Bool term.
    kind: 'range' one plain range from 0; 'pack' one label standing for an index into an array of
    arbitrary rank and shape; 'keys' (degree, order) pairs; 'prod' others."""

    def __init__(self, vars_, los, his, filt=TRUE, kind="prod", order="lex"):
        self.vars, self.los, self.his, self.filt = tuple(vars_), tuple(los), tuple(his), filt
        self.kind, self.order = kind, order
        self._pred = None
        self.filtered_from = None

    @property
    def arity(self):
        return len(self.vars)

    def inst(self, labels):
        m = dict(zip(self.vars, labels))
        return ([subst(t, m) for t in self.los], [subst(t, m) for t in self.his], subst(self.filt, m))

    def pred(self, labels):
        los, his, filt = self.inst(labels)
        return tm.binder_pred(labels, los, his, filt)

    def binder(self, op, fn, init=None):
        xs = tuple(fresh("d", "I") for _ in self.vars)
        los, his, filt = self.inst(xs)
        return tm.binder(op, xs, los, his, filt, fn(xs), init)

    def fresh(self, base="i"):
        return tuple(fresh(base, "I") for _ in self.vars)

    def const_size(self):
        """concrete length of a plain range"""
        if self.arity == 1 and self.filt is TRUE and self.los[0].op == "num" and self.his[0].op == "num":
            return max(0, int(val(self.his[0]) - val(self.los[0])))
        return None

    def size(self):
        if self.arity == 1 and self.filt is TRUE and self.los[0].op == "num" and val(self.los[0]) == 0:
            return self.his[0]
        return self.binder("sum", lambda xs: ONE)

    def filter(self, fn):
        f = fn(self.vars)
        if f is TRUE:
            return self
        return Dom(self.vars, self.los, self.his, and_(self.filt, f), "prod" if self.kind == "range" else self.kind, self.order)

    def same_syntax(self, other):
        if self is other:
            return True
        if self.arity != other.arity or (self.kind == "pack") != (other.kind == "pack"):
            return False
        los, his, filt = other.inst(self.vars)
        return tuple(los) == self.los and tuple(his) == self.his and filt is self.filt

    def product(self, other_fn):
        """dependent product: other_fn(labels) -> Dom"""
        us = self.fresh("d")
        o = other_fn(us)
        vs = tuple(fresh("e", "I") for _ in o.vars)
        los, his, filt = o.inst(vs)
        slos, shis, sfilt = self.inst(us)
        return Dom(us + vs, tuple(slos) + tuple(los), tuple(shis) + tuple(his), and_(sfilt, filt), "prod",
                   "lex" if self.order == o.order == "lex" else (self.order, o.order))


_tmpl = itertools.count()


def range_dom(n):
    if isinstance(n, int):
        n = num(n)
    return Dom((var("r$", "I"),), (ZERO,), (n,), TRUE, "range")


def interval_dom(lo, hi):
    if lo.op == "num" and val(lo) == 0:
        return range_dom(hi)
    return Dom((var("r$", "I"),), (lo,), (hi,), TRUE, "prod")


class Pack:
    """an unknown array shape of rank >= 1"""
    def __init__(self, name):
        self.name = name
        self.size = var(name + ".size", "I")
        self.dom = Dom((var("p$" + name, "I"),), (ZERO,), (self.size,), TRUE, "pack")


class PackDim:
    """the dimensions of a pack inside a shape tuple"""
    def __init__(self, dom):
        self.dom = dom


class Axis:
    __slots__ = ("dom", "pack")

    def __init__(self, dom, pack=False):
        self.dom, self.pack = dom, pack

    def const(self):
        return None if self.pack else self.dom.const_size()

    def is_one(self):
        return self.const() == 1


class AData:
    """contents of an array cell: fn(labels tuple-of-tuples) -> scalar value"""
    __slots__ = ("axes", "fn", "dtype")

    def __init__(self, axes, fn, dtype):
        self.axes, self.dtype = tuple(axes), dtype
        cache = {}

        def memo(labels):
            r = cache.get(labels)
            if r is None:
                r = fn(labels)
                cache[labels] = r
            return r
        self.fn = memo


class Arr:
    """reference to an array: a heap cell seen through a view"""
    def __init__(self, it, cid, axes, fwd=None, inv=None, entry=None):
        self.it, self.cid, self.axes, self.fwd, self.inv, self.entry = it, cid, tuple(axes), fwd, inv, entry

    def __bool__(self):
        raise Unsupported("the truth of a %s decided outside the interpreter" % type(self).__name__)

    @property
    def data(self):
        c = self.it.heap[self.cid]
        if self.entry is not None:
            return self.it.map_entry(self.cid, self.entry)
        return c

    @property
    def dtype(self):
        return self.data.dtype

    def elem(self):
        """snapshot of the current contents as a function of labels"""
        d = self.data
        if self.fwd is None:
            return d.fn
        fwd = self.fwd
        return lambda labels: d.fn(fwd(labels))

    def shape(self):
        return tuple(PackDim(a.dom) if a.pack else _sz(a.dom.size()) for a in self.axes)


def _sz(t):
    return int(val(t)) if t.op == "num" else t


class ListRef:
    def __init__(self, cid):
        self.cid = cid


class DictRef:
    def __init__(self, cid):
        self.cid = cid


class SetVal:
    """immutable set: python frozenset of concrete keys, or symbolic pair set"""
    def __init__(self, conc=None, sym=None):
        self.conc, self.sym = conc, sym


class SymMap:
    """finite map from (degree, order) pairs with |order| <= degree < lhi; has(key), val(key) -> AData"""
    def __init__(self, has, val_, lhi, order="lex", scalar=False):
        self.has, self.val, self.lhi, self.order = has, val_, lhi, order

    def dom(self, order):
        l, m = var("kl$", "I"), var("km$", "I")
        return Dom((l, m), (ZERO, neg(l)), (self.lhi, add(l, ONE)), self.has((l, m)), "keys", order)


class Seq:
    """values fn(labels) for labels in dom, in the order of dom"""
    def __init__(self, dom, fn):
        self.dom, self.fn = dom, fn


class Obj:
    def __init__(self, cid, cls):
        self.cid, self.cls = cid, cls


class Member(Obj):
    """the object number `term` of a generic family of existing objects; read-only: the engine refuses changes to it"""
    def __init__(self, cid, cls, family, term):
        Obj.__init__(self, cid, cls)
        self.family, self.term = family, term


class StarSeq:
    """argument list f(*seq) of symbolic length"""
    def __init__(self, seq):
        self.seq = seq


class ClassVal:
    def __init__(self, name, ns, module, bases=()):
        self.name, self.ns, self.module, self.bases = name, ns, module, bases

    def lookup(self, name):
        if name in self.ns:
            return self.ns[name]
        for b in self.bases:
            r = b.lookup(name) if isinstance(b, ClassVal) else None
            if r is not None:
                return r
        return None

    def qual(self):
        return self.module + ":" + self.name


class Func:
    def __init__(self, node, env, module, qual, cls=None, kind="function"):
        self.node, self.env, self.module, self.qual, self.cls, self.kind = node, env, module, qual, cls, kind
        self.defaults = ()
        self.kwdefaults = {}
        self.wrapped = None
        self.is_gen = False


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class ModRef:
    def __init__(self, name):
        self.name = name


class PyRaise(Exception):
    """an exception of the interpreted program"""
    def __init__(self, etype, msg=""):
        self.etype, self.msg = etype, msg

    def __str__(self):
        return "%s(%s)" % (self.etype, self.msg)


class Sym(str):
    pass


class StrVal:
    """structured symbolic string: parts of python str and ('fmt', spec, value)"""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return "StrVal%r" % (self.parts,)


class Opaque:
    """an uninterpreted object with a name (quaternions, file handles, loggers)"""
    def __init__(self, name, term=None):
        self.name, self.term = name, term
