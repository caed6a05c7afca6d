"""Hash-consed first-order terms over Int, Real, Bool with bounded sums / maxima / quantifiers.

Machine numbers are mathematical: Int = Z, Real = R.  Complex numbers are pairs of Real terms at
the value level (see values.py).
"""
from fractions import Fraction
import itertools

_table = {}
_count = itertools.count()


class T:
    __slots__ = ("op", "args", "sort", "id", "_fv", "_depth")

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError("terms are not picklable")

    def __bool__(self):
        raise Unsupported("the truth of a term decided outside the interpreter")


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_count)
        t._fv = None
        t._depth = None
        _table[key] = t
    return t


# ------------------------------------------------------------------ constructors
def num(v, sort=None):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        f = Fraction(repr(v)) if v == v and abs(v) != float("inf") else None
        if f is None:
            raise Unsupported("non-finite constant")
        return mk("num", (f,), sort or "R")
    if isinstance(v, int):
        return mk("num", (Fraction(v),), sort or "I")
    return mk("num", (v,), sort or ("R" if v.denominator != 1 else "R"))


class Unsupported(Exception):
    """Construct outside the verifier's reach."""


TRUE = mk("bool", (True,), "B")
FALSE = mk("bool", (False,), "B")
ZERO = num(0)
ONE = num(1)


def boolean(b):
    return TRUE if b else FALSE


def var(name, sort):
    return mk("var", (name,), sort)


_fresh = itertools.count()


def fresh(base, sort):
    return var("%s!%d" % (base, next(_fresh)), sort)


def app(name, args, sort):
    return mk("app", (name,) + tuple(args), sort)


def isnum(t):
    return t.op == "num"


def val(t):
    return t.args[0]


def add(*xs):
    flat, c = [], Fraction(0)
    sort = "I"
    for x in xs:
        if x.sort == "R":
            sort = "R"
    for x in xs:
        if x.op == "add":
            for y in x.args:
                if y.op == "num":
                    c += val(y)
                else:
                    flat.append(y)
        elif x.op == "num":
            c += val(x)
        else:
            flat.append(x)
    # collect like terms
    coef, order = {}, []
    for x in flat:
        k, b = Fraction(1), x
        if x.op == "mul" and x.args[0].op == "num":
            k = val(x.args[0])
            rest = x.args[1:]
            b = rest[0] if len(rest) == 1 else mk("mul", rest, x.sort)
        if b not in coef:
            coef[b] = k
            order.append(b)
        else:
            coef[b] += k
    out = []
    for b in order:
        k = coef[b]
        if k == 0:
            continue
        out.append(b if k == 1 else mul(num(k, "I" if (b.sort == "I" and k.denominator == 1) else "R"), b))
    if c != 0 or not out:
        out.append(num(c, sort if c.denominator == 1 else "R"))
    if len(out) == 1:
        return out[0]
    return mk("add", tuple(out), sort)


def mul(*xs):
    flat, c = [], Fraction(1)
    sort = "I"
    for x in xs:
        if x.sort == "R":
            sort = "R"
    for x in xs:
        if x.op == "mul":
            for y in x.args:
                if y.op == "num":
                    c *= val(y)
                else:
                    flat.append(y)
        elif x.op == "num":
            c *= val(x)
        else:
            flat.append(x)
    if c == 0:
        return num(0, sort)
    if not flat:
        return num(c, sort if c.denominator == 1 else "R")
    if len(flat) == 1 and c == 1:
        return flat[0]
    if len(flat) == 1 and flat[0].op == "add":
        return add(*[mul(num(c, "R" if c.denominator != 1 else flat[0].sort), y) for y in flat[0].args])
    if c != 1:
        flat = [num(c, sort if c.denominator == 1 else "R")] + flat
    return mk("mul", tuple(flat), sort)


def neg(x):
    return mul(num(-1), x)


def sub(a, b):
    return add(a, neg(b))


def power(b, e):
    if e.op == "num":
        v = val(e)
        if v == 1:
            return b
        if v == 0:
            return num(1, b.sort)
        if b.op == "num" and v.denominator == 1 and (val(b) != 0 or v > 0) and abs(v) < 200:
            r = val(b) ** int(v)
            return num(r, "I" if (b.sort == "I" and r.denominator == 1) else "R")
        if b.op == "pow" and b.args[1].op == "num" and v.denominator == 1 and val(b.args[1]).denominator == 1:
            return power(b.args[0], num(val(b.args[1]) * v))
    if b.op == "num" and val(b) == 1:
        return b
    if b.op == "num" and val(b) == 0 and e.op == "num" and val(e) > 0:
        return b
    if b.op == "num" and val(b) == -1 and e.op == "mod" and e.args[1] is num(2) and e.args[0].sort == "I":
        return power(b, e.args[0])
    sort = "R"
    if b.sort == "I" and e.sort == "I" and (e.op == "num" and val(e) >= 0 or b is num(-1)):
        sort = "I"
    return mk("pow", (b, e), sort)


def div(a, b):
    if b.op == "num" and val(b) != 0:
        return mul(a, num(1 / val(b), "R")) if val(b) != 1 else real(a)
    return mul(a, power(b, num(-1)))


def real(a):
    if a.sort == "I" and a.op == "num":
        return num(val(a), "R")
    return a


def sqrt(a):
    if a.op == "num":
        v = val(a)
        if v >= 0:
            import math
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return num(Fraction(n, d), "R")
    return mk("pow", (a, num(Fraction(1, 2), "R")), "R")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "num" and b.op == "num" and val(a) == val(b):
        return a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    if a is b:
        return a
    if c.op == "eq" and a.op == "num" and val(a) == 0 and (b.op == "mul" or b is c.args[0] or b is c.args[1]):
        # x = 0 ? 0 : x * y   is   x * y
        x = c.args[1] if c.args[0].op == "num" and val(c.args[0]) == 0 else (c.args[0] if c.args[1].op == "num" and val(c.args[1]) == 0 else None)
        if x is not None:
            have = list(b.args) if b.op == "mul" else [b]
            for f in (x.args if x.op == "mul" else (x,)):
                if f.op == "num":
                    continue
                if f in have:
                    have.remove(f)
                else:
                    break
            else:
                return b
    if c.op in ("lt", "le") and "R" in (a.sort, b.sort) and (c.args == (a, b) or c.args == (b, a)):
        # the larger or smaller of two numbers, in one form
        small = c.args[0] is a
        a, b = sorted(c.args, key=lambda x: (x.op != "num", x.id))
        c = _cmp("lt", a, b)
        if not small:
            a, b = b, a
        if c in (TRUE, FALSE):
            return a if c is TRUE else b
    return mk("ite", (c, a, b), "R" if "R" in (a.sort, b.sort) else a.sort)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    return mk("not", (a,), "B")


def _nary(op, unit, zero, xs):
    out, seen = [], set()
    for x in xs:
        for y in (x.args if x.op == op else (x,)):
            if y is zero:
                return zero
            if y is unit or y in seen:
                continue
            seen.add(y)
            out.append(y)
    for y in out:
        if not_(y) in seen:
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return mk(op, tuple(out), "B")


def and_(*xs):
    return _nary("and", TRUE, FALSE, xs)


def or_(*xs):
    return _nary("or", FALSE, TRUE, xs)


def implies(a, b):
    return or_(not_(a), b)


def _cmp(op, a, b):
    d = sub(a, b)
    if d.op == "num":
        v = val(d)
        return boolean(v == 0 if op == "eq" else (v <= 0 if op == "le" else v < 0))
    # integer normalisation keeps syntactic variants together
    if a.sort == "I" and b.sort == "I":
        if op == "lt":      # a < b  <=>  a + 1 <= b
            return _cmp("le", add(a, ONE), b)
    if op == "eq" and a.id > b.id:
        a, b = b, a
    return mk(op, (a, b), "B")


def eq(a, b):
    if a.sort == "B" or b.sort == "B":
        if a is b:
            return TRUE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a is b:
        return TRUE
    if a.sort == "U" or b.sort == "U":
        if a.id > b.id:
            a, b = b, a
        return mk("eq", (a, b), "B")
    for x, y in ((a, b), (b, a)):
        if x.op == "num" and val(x) == 0 and y.op == "mul":
            # factors that are never zero
            fs = [f for f in y.args if not (f.op == "num" and val(f) != 0 or f is PI or
                                            f.op == "pow" and (f.args[0].op == "num" and val(f.args[0]) != 0 or f.args[0] is PI))]
            if len(fs) != len(y.args):
                return eq(x, mul(*fs)) if fs else FALSE
    return _cmp("eq", a, b)


def le(a, b):
    return _cmp("le", a, b)


def _squares(t):
    """a sum of squares (syntactically)"""
    if t.op == "add":
        return all(_squares(x) for x in t.args)
    if t.op == "mul":
        fs = [f for f in t.args if f.op != "num"]
        return all(val(f) > 0 for f in t.args if f.op == "num") and all(fs.count(f) % 2 == 0 for f in fs)
    if t.op == "pow":
        e = t.args[1]
        return e.op == "num" and val(e) > 0 and val(e).denominator == 1 and val(e) % 2 == 0 and t.args[0].sort in "IR"
    return False


def lt(a, b):
    if a.op == "num" and val(a) == 0:
        # a root or sum of squares is positive unless it is zero
        if b.op == "pow" and b.args[1].op == "num" and val(b.args[1]) == Fraction(1, 2) and _squares(b.args[0]) or _squares(b):
            return ne(a, b)
    return _cmp("lt", a, b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def ne(a, b):
    return not_(eq(a, b))


def tmax(a, b):
    if a is b:
        return a
    if "R" in (a.sort, b.sort):
        return ite(gt(a, b), a, b)
    return ite(ge(a, b), a, b)


def tmin(a, b):
    if a is b:
        return a
    if "R" in (a.sort, b.sort):
        return ite(lt(a, b), a, b)
    return ite(le(a, b), a, b)


def tabs(a):
    if a.op == "num":
        return num(abs(val(a)), a.sort)
    if a.op == "pow" and a.sort == "R" and val(a.args[1]) == Fraction(1, 2) if a.op == "pow" and a.args[1].op == "num" else False:
        return a
    return ite(ge(a, ZERO), a, neg(a))


def mod(a, b):
    if a.op == "num" and b.op == "num" and val(b) != 0 and val(a).denominator == 1 and val(b).denominator == 1:
        return num(int(val(a)) % int(val(b)), a.sort)
    return mk("mod", (a, b), "I" if a.sort == b.sort == "I" else "R")


def idiv(a, b):
    if a.op == "num" and b.op == "num" and val(b) != 0:
        return num(val(a) // val(b), "I" if a.sort == b.sort == "I" else "R")
    return mk("idiv", (a, b), "I" if a.sort == b.sort == "I" else "R")


PI = var("pi", "R")


# ------------------------------------------------------------------ binders
BINDERS = ("sum", "maxo", "exists", "forall", "prod")


def _bdepth(t):
    """1 + highest canonical bound index occurring in t."""
    if t._depth is None:
        d = 0
        if t.op in BINDERS:
            n, base = t.args[0], t.args[1]
            d = base + n
        for a in t.args:
            if isinstance(a, T):
                d = max(d, _bdepth(a))
        t._depth = d
    return t._depth


def bvar(k):
    return var("#%d" % k, "I")


def binder(op, xs, los, his, filt, body, init=None):
    """op over xs with lo_i <= x_i < hi_i (bounds may use earlier x) and filt.
    maxo may carry an initial value."""
    if op == "sum":
        if body.op == "num" and val(body) == 0:
            return num(0, body.sort)
        if filt is FALSE:
            return num(0, body.sort)
    if op == "forall" and (body is TRUE or filt is FALSE):
        return TRUE
    if op == "exists" and (body is FALSE or filt is FALSE):
        return FALSE
    parts = list(los) + list(his) + [filt, body]
    base = max([_bdepth(p) for p in parts] + ([_bdepth(init)] if init is not None else []))
    m = {x: bvar(base + i) for i, x in enumerate(xs)}
    parts = [subst(p, m) for p in parts]
    sort = "B" if op in ("exists", "forall") else body.sort
    if init is not None:
        parts.append(init)
        if init.sort == "R":
            sort = "R"
    return mk(op, (len(xs), base) + tuple(parts), sort)


def open_binder(t, labels=None):
    """-> (xs, los, his, filt, body) instantiated with fresh variables (or the given labels)."""
    n, base = t.args[0], t.args[1]
    parts = t.args[2:]
    xs = labels if labels is not None else tuple(fresh("x", "I") for _ in range(n))
    m = {bvar(base + i): x for i, x in enumerate(xs)}
    parts = [subst(p, m) for p in parts]
    return xs, parts[:n], parts[n:2 * n], parts[2 * n], parts[2 * n + 1]


def binder_pred(xs, los, his, filt):
    return and_(*([le(lo, x) for lo, x in zip(los, xs)] + [lt(x, hi) for x, hi in zip(xs, his)] + [filt]))


# ------------------------------------------------------------------ traversal
def free_vars(t):
    if t._fv is None:
        if t.op == "var":
            r = frozenset((t,))
        else:
            r = frozenset()
            for a in t.args:
                if isinstance(a, T):
                    r |= free_vars(a)
            if t.op in BINDERS:
                n, base = t.args[0], t.args[1]
                r -= {bvar(base + i) for i in range(n)}
        t._fv = r
    return t._fv


_REB = {}


def rebuild(t, args):
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        if val(args[1]) == Fraction(1, 2) if args[1].op == "num" else False:
            return sqrt(args[0])
        return power(*args)
    if op == "ite":
        return ite(*args)
    if op == "not":
        return not_(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "eq":
        return eq(*args)
    if op == "le":
        return le(*args)
    if op == "lt":
        return lt(*args)
    if op == "mod":
        return mod(*args)
    if op == "idiv":
        return idiv(*args)
    if op == "app":
        return mk("app", tuple(args), t.sort)
    if op in BINDERS:
        n = args[0]
        filt, body = args[2 + 2 * n], args[3 + 2 * n]
        if op == "sum" and body.op == "num" and val(body) == 0:
            return body
        if op == "sum" and filt is FALSE:
            return num(0, body.sort)
        if op == "forall" and (body is TRUE or filt is FALSE):
            return TRUE
        if op == "exists" and (body is FALSE or filt is FALSE):
            return FALSE
        if op == "maxo" and filt is FALSE and len(args) > 4 + 2 * n:
            return args[4 + 2 * n]
        return mk(op, tuple(args), t.sort)
    return mk(op, tuple(args), t.sort)


def subst(t, m, cache=None):
    """Replace variables (or any subterms) by terms."""
    if not m:
        return t
    if cache is None:
        cache = {}
    keys = m.keys()
    allvars = all(k.op == "var" for k in keys)

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if t.op in ("num", "var", "bool"):
            return t
        r = cache.get(t)
        if r is not None:
            return r
        if allvars and free_vars(t).isdisjoint(keys):
            cache[t] = t
            return t
        ch = False
        args = []
        for a in t.args:
            if isinstance(a, T):
                b = go(a)
                ch = ch or b is not a
                args.append(b)
            else:
                args.append(a)
        r = rebuild(t, args) if ch else t
        cache[t] = r
        return r
    return go(t)


def subterms(t, seen=None, into_binders=True):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        if t.op in BINDERS and not into_binders:
            continue
        for a in t.args:
            if isinstance(a, T):
                stack.append(a)


def size(t, cap=100000):
    n = 0
    for _ in subterms(t):
        n += 1
        if n > cap:
            break
    return n


def show(t, depth=0):
    if depth > 14:
        return "…"
    d = depth + 1
    op = t.op
    if op == "num":
        return str(val(t))
    if op == "bool":
        return str(t.args[0])
    if op == "var":
        return t.args[0]
    if op == "app":
        return "%s(%s)" % (t.args[0], ", ".join(show(a, d) for a in t.args[1:]))
    if op == "add":
        return "(" + " + ".join(show(a, d) for a in t.args) + ")"
    if op == "mul":
        return "*".join(show(a, d) for a in t.args)
    if op == "pow":
        return "%s^(%s)" % (show(t.args[0], d), show(t.args[1], d))
    if op == "ite":
        return "ite(%s, %s, %s)" % tuple(show(a, d) for a in t.args)
    if op in BINDERS:
        n, base = t.args[0], t.args[1]
        parts = t.args[2:]
        return "%s[%s | %s](%s)" % (op, ", ".join("%s<=#%d<%s" % (show(parts[i], d), base + i, show(parts[n + i], d))
                                                 for i in range(n)), show(parts[2 * n], d), show(parts[2 * n + 1], d))
    sym = {"le": "<=", "lt": "<", "eq": "==", "and": "and", "or": "or"}.get(op, op)
    if op == "not":
        return "not(%s)" % show(t.args[0], d)
    return "(" + (" %s " % sym).join(show(a, d) if isinstance(a, T) else str(a) for a in t.args) + ")"
