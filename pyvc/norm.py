"""Canonical Laurent polynomials over canonical atoms, with symbolic exponents.

normal(term) -> poly: dict monomial -> Fraction; monomial = tuple of (atom id, exponent), sorted;
exponent = Fraction or a frozen poly (tuple of items) for symbolic exponents.
Rules used (the trusted algebra): field axioms, exponent laws for positive or integer-exponent
bases, sin^2+cos^2=1, parity (-1)^m, angle addition, sqrt as power 1/2, indicator idempotence,
exp(a)exp(b)=exp(a+b), r*cos(atan2), linearity of bounded sums.
"""
from fractions import Fraction
import math

from terms import *
import terms as tm

F0, F1, F2 = Fraction(0), Fraction(1), Fraction(2)
HALF = Fraction(1, 2)
ONE_M = ()


def is_parity(c):
    """x mod 2 = 0 or 1 for an integer x"""
    return c.op == "eq" and any(n.op == "num" and x.op == "mod" and x.args[1].op == "num" and val(x.args[1]) == 2 and x.args[0].sort == "I" and
                                val(n) in (0, 1) for n, x in (c.args, c.args[::-1]))


class TooBig(Exception):
    pass


def padd(p, q, k=F1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, F0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k != 0 else {}


def freeze(p):
    return tuple(sorted(p.items(), key=lambda mc: repr(mc[0])))


def const(c):
    return {ONE_M: Fraction(c)} if c != 0 else {}


def is_const(p):
    return not p or (len(p) == 1 and ONE_M in p)


def const_val(p):
    return p.get(ONE_M, F0)


class Norm:
    """One normaliser per prover context (facts fixed)."""
    MAXTERMS = 6000

    def __init__(self, prover):
        self.prover = prover
        self.atoms = []            # id -> (kind, payload, term or None)
        self.index = {}
        self.cache = {}
        self.zero_inds = {}        # indicator atom of v = 0 -> atom v

    # ---------------------------------------------------------------- atoms
    def atom(self, kind, payload, term=None):
        key = (kind, payload)
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append((kind, payload, term))
            self.index[key] = i
        elif term is not None and self.atoms[i][2] is None:
            self.atoms[i] = (kind, payload, term)
        return i

    def apoly(self, i, e=F1):
        return {((i, e),): F1}

    # ---------------------------------------------------------------- exponents
    def eadd(self, a, b):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return a + b
        p = padd(self.ep(a), self.ep(b))
        return self.ef(p)

    def ep(self, a):
        return const(a) if isinstance(a, Fraction) else dict(a)

    def ef(self, p):
        return const_val(p) if is_const(p) else freeze(p)

    def emul(self, a, b):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return a * b
        return self.ef(self.pmul(self.ep(a), self.ep(b)))

    # ---------------------------------------------------------------- products
    def mmul(self, m1, m2):
        """product of monomials -> (Fraction, monomial) or poly if reduction is needed"""
        if not m1:
            return F1, m2
        if not m2:
            return F1, m1
        d = dict(m1)
        k = F1
        for a, e in m2:
            if a in d:
                s = self.eadd(d[a], e)
                kind = self.atoms[a][0]
                if kind == "par":
                    s = s % 2 if isinstance(s, Fraction) else s
                elif kind == "ind":
                    s = F1
                elif kind == "prime":
                    fl, s = self.int_part(s)
                    if fl != 0:
                        k *= Fraction(self.atoms[a][1]) ** fl
                if s == F0:
                    del d[a]
                else:
                    d[a] = s
            else:
                d[a] = e
        return k, tuple(sorted(d.items(), key=lambda ae: ae[0]))

    def pmul(self, p, q):
        if len(p) * len(q) > self.MAXTERMS * 4:
            raise TooBig
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                k, m = self.mmul(m1, m2)
                v = r.get(m, F0) + c1 * c2 * k
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        r = self.reduce(r)
        if self.zero_inds:
            r = self.use_indicators(r)
        if len(r) > self.MAXTERMS:
            raise TooBig
        return r

    def use_indicators(self, p):
        """v * [v = 0] = 0, and v = 0 inside sums that stand next to [v = 0]"""
        out, again = None, {}
        for m, c in p.items():
            zs = {self.zero_inds[a] for a, _ in m if a in self.zero_inds}
            if not zs:
                continue
            drop = any(a in zs and isinstance(e, Fraction) and e > 0 for a, e in m)
            new = None
            if not drop:
                for a, e in m:
                    if self.atoms[a][0] == "P" and isinstance(e, Fraction):
                        body = dict(self.atoms[a][1])
                        b2 = {k: v for k, v in body.items() if not any(x in zs and isinstance(y, Fraction) and y > 0 for x, y in k)}
                        if len(b2) != len(body):
                            if not b2 and e < 0:
                                continue
                            new = (a, e, b2)
                            break
            if drop or new:
                if out is None:
                    out = dict(p)
                del out[m]
                if new:
                    a, e, b2 = new
                    rest = {tuple(x for x in m if x[0] != a): c}
                    again = padd(again, self.pmul(rest, self.ppow(b2, e)) if b2 else {})
        if out is None:
            return p
        return padd(out, again)

    def reduce(self, p):
        """sin^2 -> 1 - cos^2; compound atoms with positive integer exponents expand."""
        work = True
        while work:
            work = False
            for m in list(p):
                for a, e in m:
                    kind = self.atoms[a][0]
                    if kind == "sin" and isinstance(e, Fraction) and e >= 2:
                        c = p.pop(m)
                        rest = tuple(x for x in m if x[0] != a)
                        rem = e - 2
                        base = rest if rem == 0 else tuple(sorted(rest + ((a, rem),)))
                        co = self.atom("cos", self.atoms[a][1])
                        k, m2 = self.mmul(base, ((co, F2),))
                        p = padd(p, {base: c})
                        p = padd(p, {m2: -c * k})
                        work = True
                        break
                    if kind == "P" and isinstance(e, Fraction) and e >= 1:
                        c = p.pop(m)
                        fl = math.floor(e)
                        if fl > 6:
                            raise TooBig
                        rest = tuple(x for x in m if x[0] != a)
                        rem = e - fl
                        base = rest if rem == 0 else tuple(sorted(rest + ((a, rem),)))
                        q = {base: c}
                        body = dict(self.atoms[a][1])
                        for _ in range(fl):
                            q = self.pmul(q, body)
                        p = padd(p, q)
                        work = True
                        break
                if work:
                    break
        return p

    # ---------------------------------------------------------------- powers
    def positive(self, i):
        """is atom i known to be positive?"""
        kind, payload, term = self.atoms[i]
        if kind in ("prime", "pi", "exp", "fact"):
            return True
        t = self.atom_term(i)
        return t is not None and self.prover.is_positive(t)

    def atom_term(self, i):
        kind, payload, term = self.atoms[i]
        if term is not None:
            return term
        if kind == "P":
            t = self.to_term(dict(payload))
            self.atoms[i] = (kind, payload, t)
            return t
        if kind in ("sin", "cos"):
            return app(kind, (self.to_term(dict(payload)),), "R")
        if kind == "prime":
            return num(payload)
        return None

    def to_term(self, p):
        out = []
        for m, c in p.items():
            fs = [num(c)] if c.denominator != 1 else [num(int(c))]
            for a, e in m:
                kind = self.atoms[a][0]
                if kind == "par":
                    fs.append(power(num(-1), self.to_term(dict(self.atoms[a][1]))))
                    continue
                if kind == "exp":
                    fs.append(app("exp", (self.to_term(self.ep(e)),), "R"))
                    continue
                t = self.atom_term(a)
                if t is None:
                    raise Unsupported("atom without term: %s" % kind)
                if kind == "ind":
                    fs.append(tm.ite(t, ONE, ZERO))
                    continue
                if e == F1:
                    fs.append(t)
                elif isinstance(e, Fraction):
                    fs.append(power(t, num(e, "I" if e.denominator == 1 else "R")))
                else:
                    fs.append(power(t, self.to_term(dict(e))))
            out.append(mul(*fs) if len(fs) > 1 else fs[0])
        return add(*out) if out else ZERO

    def ppow(self, p, e):
        """poly ** exponent (Fraction or frozen poly)"""
        if isinstance(e, Fraction) and e == 0:
            return const(1)
        if not p:
            if not isinstance(e, Fraction) and not self.prover.proves(lt(ZERO, self.to_term(self.ep(e)))):
                raise Unsupported("0 ** symbolic exponent")
            return {}
        if isinstance(e, Fraction) and e == 1:
            return p
        integer = self.int_exp(e)
        if len(p) == 1:
            (m, c), = p.items()
            return self.mono_pow(m, c, e, integer)
        if isinstance(e, Fraction) and e.denominator == 1 and 0 < e <= 6 and len(p) ** int(e) < 800:
            r = p
            for _ in range(int(e) - 1):
                r = self.pmul(r, p)
            return r
        # extract common monomial content and numeric content
        content, prim = self.content(p)
        if content[1] != () or content[0] != 1:
            a = self.mono_pow(content[1], content[0], e, integer)
            if a is not None:
                return self.pmul(a, self.ppow_prim(prim, e, integer))
        return self.ppow_prim(prim, e, integer)

    def ppow_prim(self, p, e, integer):
        if len(p) == 1:
            (m, c), = p.items()
            return self.mono_pow(m, c, e, integer)
        sq = None
        if not integer or True:
            sq = self.perfect(p)
        if sq is not None:
            return self.ppow(sq, self.emul(e, F2)) if (integer or self.pos_poly(sq)) else self._patom(p, e)
        return self._patom(p, e)

    def perfect(self, p):
        """p as a perfect square of the form cos^2/1-cos^2: 1 - cos(x)^2 -> sin(x)^2"""
        if len(p) == 2 and p.get(ONE_M) == 1:
            (m, c), = [(m, c) for m, c in p.items() if m != ONE_M]
            if c == -1 and len(m) == 1 and m[0][1] == F2 and self.atoms[m[0][0]][0] == "cos":
                return self.apoly(self.atom("sin", self.atoms[m[0][0]][1]))
        return None

    def pos_poly(self, p):
        try:
            return self.prover.is_positive(self.to_term(p)) or self.prover.is_nonneg(self.to_term(p))
        except Unsupported:
            return False

    def _patom(self, p, e):
        if not p:
            return {}
        if isinstance(e, Fraction) and e > 0 and self.prover.is_zero_poly(p):
            return {}
        i = self.atom("P", freeze(p))
        return self.reduce(self.apoly(i, e))

    def int_exp(self, e):
        if isinstance(e, Fraction):
            return e.denominator == 1
        for m, c in e:
            if c.denominator != 1:
                return False
            for a, x in m:
                t = self.atoms[a][2]
                if not (isinstance(x, Fraction) and x.denominator == 1 and x > 0 and t is not None and t.sort == "I"):
                    return False
        return True

    def int_part(self, e):
        """exponent -> (integer part of its constant term, rest)"""
        if isinstance(e, Fraction):
            fl = math.floor(e)
            return fl, e - fl
        p = dict(e)
        fl = math.floor(p.get(ONE_M, F0))
        if fl == 0:
            return 0, e
        return fl, self.ef(padd(p, const(Fraction(-fl))))

    def num_pow(self, c, e):
        """rational ** exponent -> poly"""
        if c == 1:
            return const(1)
        if isinstance(e, Fraction) and e.denominator == 1 and abs(e) < 400:
            return const(c ** int(e))
        if c < 0:
            if not self.int_exp(e):
                return None
            a = self.parity(self.ep(e))
            b = self.num_pow(-c, e)
            return self.pmul(a, b)
        r = const(1)
        for base, sgn in ((c.numerator, 1), (c.denominator, -1)):
            for q, k in _factor(base):
                i = self.atom("prime", q, num(q))
                ex = self.emul(Fraction(sgn * k), e)
                fl, ex = self.int_part(ex)
                r = pscale(r, Fraction(q) ** fl)
                if ex == F0:
                    continue
                r = self.pmul(r, self.apoly(i, ex))
        return r

    def parity(self, p):
        """(-1)**p for an integer-valued poly"""
        r = const(1)
        for m, c in p.items():
            if c.denominator != 1:
                raise Unsupported("parity of a fraction")
            if int(c) % 2 == 0:
                continue
            if m == ONE_M:
                r = pscale(r, F(-1))
            else:
                i = self.atom("par", ((m, F1),))
                r = self.pmul(r, self.apoly(i))
        return r

    def mono_pow(self, m, c, e, integer):
        k = self.num_pow(c, e)
        if k is None:
            i = self.atom("P", freeze({m: c}))
            return self.apoly(i, e)
        r = k
        residual = {}
        for a, x in m:
            kind = self.atoms[a][0]
            if kind == "par":
                if integer:
                    if isinstance(e, Fraction):
                        if int(e) % 2:
                            r = self.pmul(r, self.apoly(a))
                    else:
                        raise Unsupported("parity to a symbolic power")
                    continue
                residual[a] = x
                continue
            if kind == "ind":
                if isinstance(e, Fraction) and e > 0:
                    r = self.pmul(r, self.apoly(a))
                    continue
                residual[a] = x
                continue
            if integer or self.positive(a):
                r = self.pmul(r, self.apoly(a, self.emul(x, e)))
            else:
                ex = self.emul(x, e)
                # even powers under a root: |a|
                residual[a] = x
        if residual:
            if len(residual) == 1:
                (a, x), = residual.items()
                if isinstance(x, Fraction) and x.denominator == 1 and x % 2 == 0 and isinstance(e, Fraction):
                    # (a^x)^e = |a|^(x e)
                    t = self.atom_term(a)
                    if t is not None and self.prover.is_nonneg(t):
                        return self.pmul(r, self.apoly(a, x * e))
                    if t is not None and self.prover.is_nonneg(neg(t)):
                        return self.pmul(r, self.mono_pow_neg(a, x * e))
            i = self.atom("P", freeze({tuple(sorted(residual.items(), key=lambda ae: ae[0])): F1}))
            r = self.pmul(r, self.apoly(i, e))
        return r

    def mono_pow_neg(self, a, e):
        if e.denominator == 1:
            return pscale(self.apoly(a, e), F(-1) ** int(e))
        raise Unsupported("root of a negative atom")

    def content(self, p):
        """common rational and monomial factor"""
        ms = list(p)
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for a in list(common):
                if a not in d:
                    x = common[a]
                    if isinstance(x, Fraction) and x < 0:
                        continue        # handled below: absent means exponent 0
                    del common[a]
                else:
                    x, y = common[a], d[a]
                    if x == y:
                        continue
                    if isinstance(x, Fraction) and isinstance(y, Fraction):
                        common[a] = min(x, y)
                    else:
                        del common[a]
            for a, y in d.items():
                if a not in common and isinstance(y, Fraction) and y < 0:
                    if all(isinstance(dict(mm).get(a, F0), Fraction) for mm in ms):
                        common[a] = min(dict(mm).get(a, F0) for mm in ms)
        common = {a: x for a, x in common.items() if x != 0 and self.atoms[a][0] not in ("par", "ind")}
        # recompute minima over all monomials for numeric exponents
        for a in list(common):
            xs = [dict(mm).get(a, F0) for mm in ms]
            if all(isinstance(x, Fraction) for x in xs):
                common[a] = min(xs)
                if common[a] == 0:
                    del common[a]
            elif not all(x == xs[0] for x in xs):
                del common[a]
        cm = tuple(sorted(common.items(), key=lambda ae: ae[0]))
        inv = tuple((a, self.emul(F(-1), x)) for a, x in cm)
        q = {}
        for m, c in p.items():
            k, mm = self.mmul(m, inv)
            q[mm] = q.get(mm, F0) + c * k
        g = F0
        for c in q.values():
            g = _fgcd(g, c)
        lead = max(q, key=lambda m: (repr(m)))
        # make it sign-canonical only when that cannot change roots: keep the sign of a positive leading constant
        if all(c < 0 for c in q.values()):
            g = -g
        q = {m: c / g for m, c in q.items()}
        return (g, cm), self.reduce(q)

    # ---------------------------------------------------------------- terms
    def normal(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._normal(t)
            if len(r) > self.MAXTERMS:
                raise TooBig
            self.cache[t] = r
        return r

    def _normal(self, t):
        op, a = t.op, t.args
        if op == "num":
            return const(val(t))
        if op == "var":
            if t is PI:
                return self.apoly(self.atom("pi", "pi", PI))
            return self.apoly(self.atom("v", t, t))
        if op == "add":
            r = {}
            for x in a:
                r = padd(r, self.normal(x))
            return r
        if op == "mul":
            r = const(1)
            for x in a:
                r = self.pmul(r, self.normal(x))
            return r
        if op == "pow":
            return self.pow_term(a[0], a[1])
        if op == "ite":
            return self.ite_term(t)
        if op == "app":
            return self.app_term(t)
        if op == "sum":
            return self.sum_term(t)
        if op == "mod" and a[1] is num(2) and a[0].sort == "I":
            try:
                return padd(const(F1 / 2), self.parity(self.normal(a[0])), F(-1) / 2)
            except Unsupported:
                pass
        if op in ("mod", "idiv", "maxo"):
            return self.apoly(self.atom("op", self.opkey(t), t))
        raise Unsupported("normal form of %s" % op)

    def opkey(self, t):
        return (t.op,) + tuple(freeze(self.normal(x)) if isinstance(x, T) and x.sort in "IR" and not _open(x)
                               else (x.id if isinstance(x, T) else x) for x in t.args)

    def pow_term(self, b, e):
        ep = self.normal(e)
        ex = self.ef(ep)
        if b.op == "num" and val(b) == -1:
            if self.int_exp(ex):
                return self.parity(ep)
            raise Unsupported("(-1) to a non-integer power")
        if b.op == "ite" and e.op == "num" and all(x.op == "num" and val(x) > 0 for x in b.args[1:]):
            # a power of a choice of two numbers
            i = self.indicator(b.args[0])
            x, y = (self.pow_term(n, e) for n in b.args[1:])
            return padd(y, self.pmul(i, padd(x, y, F(-1))))
        return self.ppow(self.normal(b), ex)

    def condkey(self, c):
        """canonical key of a condition"""
        if c.op in ("eq", "le", "lt") and c.args[0].sort in "IR":
            d = padd(self.normal(c.args[0]), self.normal(c.args[1]), F(-1))
            if d:
                k = F0
                for v in d.values():
                    k = _fgcd(k, v)
                if c.op == "eq":
                    lead = freeze(d)[0][1]
                    if lead < 0:
                        k = -k
                d = pscale(d, 1 / k)
            return (c.op, freeze(d))
        if c.op in ("and", "or"):
            return (c.op, tuple(sorted((self.condkey(x) for x in c.args), key=repr)))
        if c.op == "not":
            return ("not", self.condkey(c.args[0]))
        if c.op == "app":
            return ("app", c.args[0]) + tuple(freeze(self.normal(x)) if x.sort in "IR" else x.id for x in c.args[1:])
        return ("t", c.id)

    def half(self, c):
        """indicator of x mod 2 = 0 or 1"""
        if is_parity(c):
            n, x = c.args if c.args[0].op == "num" else c.args[::-1]
            p = self.normal(x)
            return p if val(n) == 1 else padd(const(1), p, F(-1))
        return None

    def indicator(self, c):
        """poly of the 0/1 value of c"""
        if c is TRUE:
            return const(1)
        if c is FALSE:
            return {}
        h = self.half(c)
        if h is not None:
            return h
        d = self.prover.decide_local(c)
        if d is True:
            return const(1)
        if d is False:
            return {}
        if c.op == "not":
            return padd(const(1), self.indicator(c.args[0]), F(-1))
        if c.op == "and":
            r = const(1)
            for x in c.args:
                r = self.pmul(r, self.indicator(x))
            return r
        if c.op == "or":
            r = const(1)
            for x in c.args:
                r = self.pmul(r, padd(const(1), self.indicator(x), F(-1)))
            return padd(const(1), r, F(-1))
        if c.op == "lt" or (c.op == "le" and c.args[0].id > c.args[1].id and c.args[0].sort == "I" == c.args[1].sort):
            # a < b  ==  not (b <= a)
            n = not_(c)
            if n.op in ("le",) and (c.op == "lt"):
                return padd(const(1), self.indicator(n), F(-1))
        i = self.atom("ind", self.condkey(c), c)
        if c.op == "eq" and c.args[0].sort in "IR" and i not in self.zero_inds:
            x = c.args[0] if c.args[1].op == "num" and val(c.args[1]) == 0 else c.args[1] if c.args[0].op == "num" and val(c.args[0]) == 0 else None
            if x is not None and x.op in ("var", "app"):
                q = self.normal(x)
                if len(q) == 1:
                    (m, k), = q.items()
                    if len(m) == 1 and m[0][1] == F1:
                        self.zero_inds[i] = m[0][0]
        return self.apoly(i)

    def ite_term(self, t):
        c, x, y = t.args
        i = self.indicator(c)
        if i == const(1):
            return self.normal(x)
        if not i:
            return self.normal(y)
        px, py = self.normal(x), self.normal(y)
        return padd(py, self.pmul(i, padd(px, py, F(-1))))

    TRIG_MAX = 5

    def trig(self, kind, p):
        """sin / cos of a poly"""
        if not p:
            return const(0 if kind == "sin" else 1)
        items = sorted(p.items(), key=lambda mc: repr(mc[0]))
        if len(items) > 1 and len(items) <= self.TRIG_MAX:
            m, c = items[0]
            rest = dict(items[1:])
            s1, c1 = self.trig1("sin", m, c), self.trig1("cos", m, c)
            s2, c2 = self.trig("sin", rest), self.trig("cos", rest)
            if kind == "sin":
                return padd(self.pmul(s1, c2), self.pmul(c1, s2))
            return padd(self.pmul(c1, c2), self.pmul(s1, s2), F(-1))
        if len(items) == 1:
            return self.trig1(kind, *items[0])
        return self.apoly(self.atom(kind, freeze(p)))

    def trig1(self, kind, m, c):
        pi = self.index.get(("pi", "pi"))
        if pi is not None and dict(m).get(pi) == F1:
            rest = tuple(x for x in m if x[0] != pi)
            if not rest and (2 * c).denominator == 1:
                k = int(2 * c) % 4
                return const({"cos": (1, 0, -1, 0), "sin": (0, 1, 0, -1)}[kind][k])
            if rest and c.denominator == 1 and self.int_exp(freeze({rest: F1})):
                return self.parity({rest: c}) if kind == "cos" else {}
        sign = F1
        if c < 0:
            c = -c
            if kind == "sin":
                sign = F(-1)
        # trig of inverse functions
        if c == 1 and len(m) == 1 and m[0][1] == F1:
            akind, payload, term = self.atoms[m[0][0]]
            if akind == "fn" and payload[0] == "atan2":
                y, x = dict(payload[1]), dict(payload[2])
                q = padd(self.pmul(x, x), self.pmul(y, y))
                # at the origin the angle is 0
                z0 = num(0, "R")
                zero = self.indicator(and_(*[eq(self.to_term(w), z0) for w in (x, y)])) if q else const(1)
                h = self.pmul(self.ppow(q, F(-1) / 2), padd(const(1), zero, F(-1))) if zero != const(1) else {}
                r = self.pmul(x if kind == "cos" else y, h)
                if kind == "cos":
                    r = padd(r, zero)
                return pscale(r, sign)
            if akind == "fn" and payload[0] == "arccos":
                u = dict(payload[1])
                if kind == "cos":
                    return u
                return pscale(self.ppow(padd(const(1), self.pmul(u, u), F(-1)), HALF), sign)
        # keep an integer multiplier out of the atom when it is small: cos(2x), sin(2x)
        if c.denominator == 1 and 2 <= c <= 4 and not self.int_exp(freeze({m: F1})):
            s1, c1 = self.trig1("sin", m, F1), self.trig1("cos", m, F1)
            s2, c2 = self.trig1("sin", m, c - 1), self.trig1("cos", m, c - 1)
            r = padd(self.pmul(s1, c2), self.pmul(c1, s2)) if kind == "sin" else \
                padd(self.pmul(c1, c2), self.pmul(s1, s2), F(-1))
            return pscale(r, sign)
        return pscale(self.apoly(self.atom(kind, freeze({m: c}))), sign)

    def app_term(self, t):
        f = t.args[0]
        args = t.args[1:]
        if f in ("sin", "cos"):
            return self.trig(f, self.normal(args[0]))
        if f == "exp":
            p = self.normal(args[0])
            if not p:
                return const(1)
            # exp(log(x) * k) for numeric k
            r = const(1)
            rest = dict(p)
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == F1 and self.atoms[m[0][0]][0] == "fn" and self.atoms[m[0][0]][1][0] == "log":
                    arg = dict(self.atoms[m[0][0]][1][1])
                    r = self.pmul(r, self.ppow(arg, c))
                    del rest[m]
            if rest:
                i = self.atom("exp", "e")
                r = self.pmul(r, {((i, self.ef(rest)),): F1})
            return r
        if f == "log":
            p = self.normal(args[0])
            if p == const(1):
                return {}
            if len(p) == 1:
                (m, c), = p.items()
                if c > 0 and all(self.positive(a) for a, _ in m) and (len(m) + (c != 1)) > 0:
                    r = {}
                    if c != 1:
                        for base, sg in ((c.numerator, 1), (c.denominator, -1)):
                            for q, k in _factor(base):
                                at = self.atom("fn", ("log", freeze(const(q))), app("log", (num(q),), "R"))
                                r = padd(r, self.apoly(at), F(sg * k))
                    for a, e in m:
                        if self.atoms[a][0] == "exp":
                            r = padd(r, self.ep(e))
                            continue
                        key = self.atoms[a][1] if self.atoms[a][0] == "P" else freeze(self.apoly(a))
                        at = self.atom("fn", ("log", key), app("log", (self.atom_term(a),), "R"))
                        r = padd(r, self.pmul(self.ep(e), self.apoly(at)))
                    return r
            return self.apoly(self.atom("fn", ("log", freeze(p)), t))
        if f == "fact":
            p = self.normal(args[0])
            if is_const(p) and const_val(p).denominator == 1 and 0 <= const_val(p) < 60:
                return const(math.factorial(int(const_val(p))))
            return self.apoly(self.atom("fact", freeze(p), t))
        if f == "P":
            pm, pl = self.normal(args[0]), self.normal(args[1])
            if not pm and not pl:
                return const(1)
        if f == "dP":
            pm, pl = self.normal(args[0]), self.normal(args[1])
            if not pl:
                return {}
        if f == "arccos":
            p = self.normal(args[0])
            if len(p) == 1:
                (m, c), = p.items()
                if c == 1 and len(m) == 1 and m[0][1] == F1 and self.atoms[m[0][0]][0] == "cos":
                    x = dict(self.atoms[m[0][0]][1])
                    tx = self.to_term(x)
                    if self.prover.proves(and_(le(ZERO, tx), le(tx, PI))):
                        return x
            return self.apoly(self.atom("fn", ("arccos", freeze(p)), t))
        if f == "atan2":
            y, x = self.normal(args[0]), self.normal(args[1])
            r = self.atan2_poly(y, x)
            if r is not None:
                return r
            return self.apoly(self.atom("fn", ("atan2", freeze(y), freeze(x)), t))
        key = (f,) + tuple(freeze(self.normal(x)) if x.sort in "IR" else self.ukey(x) for x in args)
        return self.apoly(self.atom("fn" if t.sort != "U" else "u", key, t))

    def ukey(self, x):
        """key of a term of an uninterpreted sort (a rotation)"""
        if x.op == "app":
            return (x.args[0],) + tuple(freeze(self.normal(a)) if a.sort in "IR" else self.ukey(a) for a in x.args[1:])
        return x.id

    def atan2_poly(self, y, x):
        """atan2(k sin a, k cos a) = a for k > 0 and -pi < a <= pi"""
        if len(y) == 1 and len(x) == 1:
            (my, cy), = y.items()
            (mx, cx), = x.items()
            for a, e in my:
                kind, payload, _ = self.atoms[a]
                if kind == "sin" and e == F1:
                    co = self.index.get(("cos", payload))
                    if co is None:
                        continue
                    ky = tuple(z for z in my if z[0] != a)
                    kx = tuple(z for z in mx if z[0] != co)
                    if dict(mx).get(co) == F1 and kx == ky and cx == cy:
                        k = self.to_term({ky: cy})
                        ang = self.to_term(dict(payload))
                        if self.prover.is_positive(k) and self.prover.proves(and_(lt(neg(PI), ang), le(ang, PI))):
                            return dict(payload)
        return None

    def labels(self, t):
        """index variables that occur neither in the sum nor in the facts: the same ones each time, so that the
        reasoning under the sum is done once"""
        used = set(free_vars(t))
        for f in self.prover.facts:
            used |= free_vars(f)
        n, k, out = t.args[0], 0, []
        while len(out) < n:
            x = tm.var("n$%d" % k, "I")
            if x not in used:
                out.append(x)
            k += 1
        return tuple(out)

    def sum_term(self, t):
        xs, los, his, filt, body = tm.open_binder(t, self.labels(t))
        # atom tables are shared: the facts of the domain only help decide conditions
        nb = self.with_prover(self.prover.child([tm.binder_pred(xs, los, his, filt)]), body)
        if filt is not TRUE:
            # a filtered sum is the unfiltered sum of indicator * body
            old = self.prover
            self.prover = old.child([tm.binder_pred(xs, los, his, TRUE)])
            oc, self.cache = self.cache, {}
            try:
                nb = self.pmul(self.indicator(filt), nb)
            finally:
                self.prover, self.cache = old, oc
            filt = TRUE
        xset = set(xs)
        groups = {}
        for m, c in nb.items():
            free, bound = [], []
            for a, e in m:
                (bound if self.mentions(a, e, xset) else free).append((a, e))
            key = tuple(bound)
            groups.setdefault(key, {})
            groups[key][tuple(free)] = groups[key].get(tuple(free), F0) + c
        r = {}
        for bound, coef in groups.items():
            s = self.sum_atom(xs, los, his, filt, bound)
            r = padd(r, self.pmul(coef, s))
        return r

    def with_prover(self, prover, term):
        """normalise term under extra facts (separate cache, shared atoms)"""
        old, oc = self.prover, self.cache
        self.prover, self.cache = prover, {}
        try:
            return self.normal(term)
        finally:
            self.prover, self.cache = old, oc

    def mentions(self, a, e, xs):
        t = self.term_of(a)
        if t is None or not free_vars(t).isdisjoint(xs):
            return True
        if not isinstance(e, Fraction):
            return any(self.mentions(b, x, xs) for m, c in e for b, x in m)
        return False

    def term_of(self, a):
        kind = self.atoms[a][0]
        if kind == "par":
            return self.to_term(dict(self.atoms[a][1]))
        if kind == "exp":
            return ONE
        return self.atom_term(a)

    def sum_atom(self, xs, los, his, filt, bound):
        body = self.to_term({bound: F1})
        t = tm.binder("sum", xs, los, his, filt, real(body))
        if t.op == "num":
            return const(val(t))
        n, base = t.args[0], t.args[1]
        parts = t.args[2:]
        # canonical key: bounds and condition by normal form, body by normal form over the canonical variables
        key = ("sum", n) + tuple(freeze(self.normal(p)) for p in parts[:2 * n]) + (self.condkey(parts[2 * n]),)
        for i, (kind, payload, term) in enumerate(self.atoms):
            if kind == "sum" and payload[0] == key and payload[1] == self.bodykey(parts[2 * n + 1], base, payload[2]):
                return self.apoly(i)
        same = self.prover.same_sum(self, t)
        if same is not None:
            return self.apoly(same)
        return self.apoly(self.atom("sum", (key, self.bodykey(parts[2 * n + 1], base, base), base), t))

    def bodykey(self, body, base, want):
        if base != want:
            return ("base", base)
        return freeze(self.normal(body))


def _open(t):
    return any(v.args[0].startswith("#") for v in free_vars(t))


def F(a, b=1):
    return Fraction(a, b)


def _factor(n):
    out = []
    n = abs(int(n))
    p = 2
    while p * p <= n:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        if k:
            out.append((p, k))
        p += 1
        if p > 100000:
            break
    if n > 1:
        out.append((n, 1))
    return out


def _fgcd(a, b):
    if a == 0:
        return abs(b)
    if b == 0:
        return abs(a)
    return Fraction(math.gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)
