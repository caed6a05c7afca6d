"""Numeric evaluation of terms in random models: the refuter and the cross-check of the prover."""
import math
import random
import zlib
from fractions import Fraction

from terms import *
import terms as tm

try:
    import scipy.special as _sp
except Exception:                       # pragma: no cover
    _sp = None


class Undefined(Exception):
    pass


def legendre(m, l, x, sqrt=math.sqrt):
    m, l = int(m), int(l)
    if m < 0:
        m = -m
        if m > l:
            return 0.0
        return (-1) ** m * math.factorial(l - m) / math.factorial(l + m) * legendre(m, l, x, sqrt)
    if m > l or l < 0:
        return 0.0
    pmm = 1.0
    s = sqrt(max(0.0, 1 - x * x))
    for i in range(1, m + 1):
        pmm *= -(2 * i - 1) * s
    if l == m:
        return pmm
    p1 = x * (2 * m + 1) * pmm
    for ll in range(m + 2, l + 1):
        pmm, p1 = p1, (x * (2 * ll - 1) * p1 - (ll + m - 1) * pmm) / (ll - m)
    return p1


def dlegendre(m, l, x, sqrt=math.sqrt):
    if abs(x * x - 1) < 1e-12:
        raise Undefined
    return (l * x * legendre(m, l, x, sqrt) - (l + m) * legendre(m, l - 1, x, sqrt)) / (x * x - 1)


def _sph(m, l):
    if abs(m) > l:
        return 0.0
    return math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(int(l - m)) / math.factorial(int(l + m)))


def _lambert(k, z):
    import scipy.special as sp
    w = sp.lambertw(z, int(k))
    if abs(w.imag) > 1e-12:
        raise Undefined
    return float(w.real)


def _fact(n):
    if n < 0 or n > 160:
        if n < 0:
            raise Undefined
        raise Undefined
    return float(math.factorial(int(n)))


KNOWN = {
    "sin": math.sin, "cos": math.cos, "exp": math.exp,
    "log": lambda x: math.log(x) if x > 0 else _undef(),
    "atan2": math.atan2,
    "arccos": lambda x: math.acos(x) if abs(x) <= 1 else _undef(),
    "P": legendre, "dP": dlegendre, "fact": _fact, "lambertw": _lambert,
    "floor": math.floor,
}


def _undef():
    raise Undefined


POSITION = {}                           # name of a position -> (maximum over the positions with the key, the key)
NTH = {}                                # name -> (False: the k-th member, True: the rank of a member; one-dimensional index set)
ARGMAX = {}                             # name of the position of a maximum -> the maximum


class Model:
    """Random interpretation.  samplers: name -> function(rng, args, model) -> value."""
    def __init__(self, seed, samplers=None, fixed=None):
        self.seed = seed
        self.samplers = samplers or {}
        self.fixed = dict(fixed or {})      # (name, args tuple) -> value
        self.memo = {}
        self.cache = {}
        self.steps = 0

    def rng(self, name, args):
        return random.Random(zlib.crc32(repr((self.seed, name, args)).encode()))

    def lookup(self, name, args, sort):
        key = (name, args)
        if key in self.fixed:
            return self.fixed[key]
        if key in self.memo:
            return self.memo[key]
        rng = self.rng(name, args)
        s = self.samplers.get(name)
        if s is None:
            s = self.samplers.get(name.split("!")[0])
        if s is not None:
            v = s(rng) if s.__code__.co_argcount == 1 else s(rng, args, self)
        elif sort == "I":
            v = rng.randint(0, 6)
        elif sort == "B":
            v = rng.random() < 0.6
        elif sort == "U":
            v = "%s%r" % (name, args)
        else:
            v = rng.uniform(-2, 2)
        self.memo[key] = v
        return v

    def position(self, name, q):
        """the position at which the keys of a distinct family take the value q"""
        key = (name, q)
        if key not in self.memo:
            t, qs = POSITION[name][:2]
            t = tm.subst(t, {x: tm.num(int(v)) for x, v in zip(qs, q)})
            self.memo[key] = self.argmax(t)
        return self.memo[key]

    def members(self, dom):
        key = ("members", id(dom))
        if key not in self.memo:
            lo, hi = int(self._ev(dom.los[0], {})), int(self._ev(dom.his[0], {}))
            if hi - lo > 200:
                raise Undefined
            self.memo[key] = [k for k in range(lo, hi) if self._ev(dom.filt, {dom.vars[0]: k})]
        return self.memo[key]

    def argmax(self, t):
        """the first index at which the maximum is attained"""
        if t.op != "maxo":
            return None
        n, base = t.args[0], t.args[1]
        parts = t.args[2:]
        xs = [tm.bvar(base + i) for i in range(n)]
        best = None

        def go(i, e):
            nonlocal best
            if i == n:
                if self._ev(parts[2 * n], e):
                    v = self._ev(parts[2 * n + 1], e)
                    if best is None or v > best[0]:
                        best = (v, tuple(e[x] for x in xs))
                return
            lo, hi = int(self._ev(parts[i], e)), int(self._ev(parts[n + i], e))
            if hi - lo > 200:
                raise Undefined
            for k in range(lo, hi):
                go(i + 1, {**e, xs[i]: k})
        go(0, {})
        return best[1] if best else None

    def ev(self, t, env=None):
        env = env or {}
        self.steps = 0
        return self._ev(t, env)

    def _ev(self, t, env):
        op = t.op
        if op == "num":
            v = val(t)
            return int(v) if v.denominator == 1 else float(v)
        if op == "bool":
            return t.args[0]
        if op == "var":
            n = t.args[0]
            if t in env:
                return env[t]
            if n == "pi":
                return math.pi
            return self.lookup(n, (), t.sort)
        if env:
            fv = tm.free_vars(t)
            key = (t, tuple([(v.id, env[v]) for v in env if v in fv])) if len(env) == 1 else (t, tuple(sorted([(v.id, env[v]) for v in env if v in fv])))
        else:
            key = (t, ())
        r = self.cache.get(key)
        if r is not None:
            if r is Undefined:
                raise Undefined
            return r
        self.steps += 1
        if self.steps > 400000:
            raise Undefined
        try:
            r = self._ev1(t, env)
        except (OverflowError, ZeroDivisionError, ValueError):
            r = Undefined
        except Undefined:
            r = Undefined
        if isinstance(r, complex):
            r = Undefined
        self.cache[key] = r
        if r is Undefined:
            raise Undefined
        return r

    def _ev1(self, t, env):
        op, a = t.op, t.args
        ev = self._ev
        if op == "add":
            s = 0
            for x in a:
                s += ev(x, env)
            return s
        if op == "mul":
            s = 1
            for x in a:
                s *= ev(x, env)
            return s
        if op == "pow":
            b, e = ev(a[0], env), ev(a[1], env)
            if b == 0 and e < 0:
                raise Undefined
            if b < 0 and not (isinstance(e, int) or float(e).is_integer()):
                if abs(b) < 1e-13:
                    return 0.0
                raise Undefined
            if isinstance(e, float) and e.is_integer():
                e = int(e)
            return b ** e if not (isinstance(b, int) and isinstance(e, int) and e < 0) else float(b) ** e
        if op == "ite":
            return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
        if op == "not":
            return not ev(a[0], env)
        if op == "and":
            return all(ev(x, env) for x in a)
        if op == "or":
            return any(ev(x, env) for x in a)
        if op == "eq":
            x, y = ev(a[0], env), ev(a[1], env)
            if isinstance(x, float) or isinstance(y, float):
                return x == y or abs(x - y) <= 1e-13 * max(abs(x), abs(y))
            return x == y
        if op == "le":
            return ev(a[0], env) <= ev(a[1], env)
        if op == "lt":
            return ev(a[0], env) < ev(a[1], env)
        if op == "mod":
            return ev(a[0], env) % ev(a[1], env)
        if op == "idiv":
            return ev(a[0], env) // ev(a[1], env)
        if op == "app":
            args = tuple(ev(x, env) for x in a[1:])
            f = KNOWN.get(a[0])
            if f is not None:
                return f(*args)
            if a[0] in ARGMAX and len(args) == 2 and args[1] == 0:
                w = self.argmax(ARGMAX[a[0]])
                if w is not None and args[0] < len(w):
                    return w[args[0]]
            if a[0] in POSITION:
                w = self.position(a[0], args[1:])
                if w is not None:
                    return w[args[0]]
            if a[0] in NTH:
                inverse, dom = NTH[a[0]]
                ms = self.members(dom)
                if inverse and args[0] in ms:
                    return ms.index(args[0])
                if not inverse and 0 <= args[0] < len(ms):
                    return ms[int(args[0])]
            return self.lookup(a[0], args, t.sort)
        if op in tm.BINDERS:
            n, base = a[0], a[1]
            parts = a[2:]
            xs = [tm.bvar(base + i) for i in range(n)]
            acc = []

            def go(i, e):
                if i == n:
                    if ev(parts[2 * n], e):
                        acc.append(ev(parts[2 * n + 1], e))
                    return
                lo, hi = int(ev(parts[i], e)), int(ev(parts[n + i], e))
                if hi - lo > 200:
                    raise Undefined
                for k in range(lo, hi):
                    e2 = dict(e)
                    e2[xs[i]] = k
                    go(i + 1, e2)
            go(0, env)
            if op == "sum":
                return sum(acc)
            if op == "prod":
                return math.prod(acc)
            if op == "maxo":
                if len(parts) > 2 * n + 2:
                    acc.append(ev(parts[2 * n + 2], env))
                if not acc:
                    raise Undefined
                return max(acc)
            if op == "exists":
                return any(acc)
            return all(acc)
        raise Undefined


class Modal(Model):
    """A model in which chosen quantities are of an unusual kind: all zero, tiny, huge, whole numbers, all equal, ..."""
    KINDS = ("zero", "tiny", "small", "minute", "huge", "pi", "whole", "same", "abs", "neg", "sparse", "usual")

    def __init__(self, seed, samplers, kinds):
        Model.__init__(self, seed, samplers)
        self.kinds = kinds

    def lookup(self, name, args, sort):
        if (name, args) in self.memo or (name, args) in self.fixed or sort not in "RB":
            return Model.lookup(self, name, args, sort)
        k = self.kinds.get(name)
        if k == "same" and args:
            v = Model.lookup(self, name, tuple(0 for _ in args), sort)
            self.memo[(name, args)] = v
            return v
        v = Model.lookup(self, name, args, sort)
        if sort == "B":
            v = {"zero": False, "huge": True}.get(k, v)
        elif k == "zero" or (k == "sparse" and self.rng("sparse", (name, args)).random() < 0.7):
            v = 0.0
        elif k in ("small", "tiny", "minute", "huge"):
            v *= {"small": 1e-3, "tiny": 1e-6, "minute": 1e-11, "huge": 1e5}[k]
        elif k == "pi":
            v = math.pi - 1e-3 * v
        elif k == "whole":
            v = float(round(v))
        elif k in ("abs", "neg"):
            v = abs(v) if k == "abs" else -abs(v)
        self.memo[(name, args)] = v
        return v


try:
    import mpmath as _mp
    _ctx = _mp.mp.clone() if hasattr(_mp.mp, "clone") else _mp.mp
    _ctx.dps = 60
except Exception:                       # pragma: no cover
    _ctx = None


class Precise(Model):
    """The same interpretation evaluated with 60 digits: tells a real difference from a rounding error."""
    def __init__(self, m):
        super().__init__(m.seed, m.samplers, m.fixed)
        self.memo = m.memo
        self.lookup = m.lookup
        self.eq_tol = _ctx.mpf(10) ** -40
        c = _ctx
        self.known = {
            "sin": c.sin, "cos": c.cos, "exp": c.exp, "log": lambda x: c.log(x) if x > 0 else _undef(),
            "atan2": c.atan2, "arccos": self.acos,
            "P": lambda m, l, x: legendre(m, l, x, c.sqrt), "dP": lambda m, l, x: dlegendre(m, l, x, c.sqrt),
            "fact": lambda n: _fact(n) and c.factorial(int(n)), "lambertw": self.lam, "floor": lambda x: int(c.floor(x)),
        }

    @staticmethod
    def acos(x):
        if abs(x) > 1:
            if abs(x) > 1 + _ctx.mpf(10) ** -40:
                raise Undefined
            x = _ctx.mpf(1 if x > 0 else -1)
        return _ctx.acos(x)

    @staticmethod
    def lam(k, z):
        w = _ctx.lambertw(z, int(k))
        if abs(_ctx.im(w)) > _ctx.mpf(10) ** -30:
            raise Undefined
        return _ctx.re(w)

    def _ev(self, t, env):
        if t.op == "num":
            v = val(t)
            return int(v) if v.denominator == 1 else _ctx.mpf(v.numerator) / v.denominator
        if t.op == "var" and t.args[0] == "pi" and t not in env:
            return +_ctx.pi
        return super()._ev(t, env)

    def _ev1(self, t, env):
        op, a = t.op, t.args
        ev = self._ev
        if op == "pow":
            b, e = ev(a[0], env), ev(a[1], env)
            if b == 0 and e < 0:
                raise Undefined
            if b < 0 and e != int(e):
                if abs(b) < _ctx.mpf(10) ** -40:
                    return _ctx.mpf(0)
                raise Undefined
            if e == int(e):
                e = int(e)
            return _ctx.mpf(b) ** e if not (isinstance(b, int) and isinstance(e, int) and e >= 0) else b ** e
        if op == "eq":
            x, y = ev(a[0], env), ev(a[1], env)
            if isinstance(x, (int, bool, str)) and isinstance(y, (int, bool, str)):
                return x == y
            return x == y or abs(x - y) <= self.eq_tol * max(1, abs(x), abs(y))
        if op == "app":
            f = self.known.get(a[0])
            if f is not None:
                return f(*[ev(x, env) for x in a[1:]])
            args = tuple(self.key(ev(x, env)) for x in a[1:])
            v = self.lookup(a[0], args, t.sort)
            return _ctx.mpf(v) if isinstance(v, float) else v
        if op == "var":
            v = self.lookup(a[0], (), t.sort)
            return _ctx.mpf(v) if isinstance(v, float) else v
        return super()._ev1(t, env)

    @staticmethod
    def key(x):
        if isinstance(x, (int, bool, str)):
            return x
        f = float(x)
        return int(f) if f.is_integer() and abs(f) < 2 ** 40 else float("%.12g" % f)


def confirmed(m, t, tol, parts):
    """True unless 60-digit evaluation shows that t is zero in this model"""
    if _ctx is None:
        return True
    p = Precise(m)
    try:
        v = p.ev(t)
        s = max(abs(p.ev(x)) for x in parts)
    except Undefined:
        return False
    except Exception:
        return True
    return abs(v) > tol * max(s, 1e-6)
