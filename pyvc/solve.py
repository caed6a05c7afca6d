"""Prover: z3 for conditions over integers, booleans and simple reals; norm.py for field identities;
numeric models as refuter and as cross-check of every identity claimed proved."""
import time
import random
from fractions import Fraction

import z3

from terms import *
import terms as tm
import norm as nm
import numeric

RATE = 2500                            # z3's resource units for a millisecond: limits that do not depend on the load
STATS = {"z3_calls": 0, "z3_s": 0.0, "norm_calls": 0, "norm_s": 0.0, "cross_checks": 0, "models": 0}


class Deadline(Exception):
    pass


DEADLINE = [None]


def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Deadline


def flatten_sums(t, cache=None):
    """sums of sums become sums over pairs, and independent summation variables are put in one order"""
    cache = {} if cache is None else cache
    r = cache.get(t)
    if r is not None:
        return r
    args = tuple(flatten_sums(a, cache) if isinstance(a, T) else a for a in t.args)
    r = t if all(x is y for x, y in zip(args, t.args)) else tm.rebuild(t, args)
    if r.op == "sum":
        xs, los, his, filt, body = tm.open_binder(r)
        xs, los, his, n = list(xs), list(los), list(his), len(xs)
        fs = list(body.args) if body.op == "mul" else [body]
        inner = [f for f in fs if f.op == "sum"]
        if len(inner) == 1:
            ys, ilos, ihis, ifilt, ibody = tm.open_binder(inner[0])
            fs.remove(inner[0])
            xs, los, his = xs + list(ys), los + list(ilos), his + list(ihis)
            filt, body = and_(filt, ifilt), mul(*(fs + [ibody])) if fs else ibody
        if len(xs) > 1 and all(free_vars(b).isdisjoint(xs) for b in los + his):
            order = sorted(range(len(xs)), key=lambda i: (tm.size(his[i]), repr(his[i]), repr(los[i])))
        else:
            order = list(range(len(xs)))
        if len(xs) > n or order != list(range(n)):
            r = tm.binder("sum", tuple(xs[i] for i in order), [los[i] for i in order], [his[i] for i in order], filt, body)
    cache[t] = r
    return r


# ------------------------------------------------------------------ z3 translation
class Z3:
    def __init__(self):
        self.cache = {}
        self.funs = {}
        self.side = []
        self.sides = {}
        self.qparts = {}
        self.univ = {}
        self.usort = z3.DeclareSort("U")

    def sort(self, s):
        return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort(), "U": self.usort}[s]

    def fun(self, name, args, sort):
        key = (name, tuple(a.sort().name() for a in args), sort)
        f = self.funs.get(key)
        if f is None:
            f = z3.Function("%s/%d/%s" % (name, len(self.funs), sort), *([a.sort() for a in args] + [self.sort(sort)]))
            self.funs[key] = f
        return f(*args)

    def real(self, e):
        return z3.ToReal(e) if z3.is_int(e) else e

    def tr(self, t):
        r = self.cache.get(t)
        if r is None:
            old, self.side = self.side, []
            r = self._tr(t)
            s = set(self.side)
            for a in t.args:
                if isinstance(a, T):
                    s |= self.sides.get(a, frozenset())
            self.side = old
            self.sides[t] = frozenset(s)
            self.cache[t] = r
        return r

    def sides_of(self, t):
        self.tr(t)
        return self.sides[t]

    def _tr(self, t):
        op, a = t.op, t.args
        if op == "num":
            v = val(t)
            if t.sort == "I" and v.denominator == 1:
                return z3.IntVal(int(v))
            return z3.RealVal(str(v))
        if op == "bool":
            return z3.BoolVal(a[0])
        if op == "var":
            c = z3.Const(a[0], self.sort(t.sort))
            if t is PI:
                self.side.append(z3.And(c > z3.RealVal("3.14159265"), c < z3.RealVal("3.14159266")))
            return c
        if op == "app":
            xs = [self.tr(x) for x in a[1:]]
            r = self.fun("f_" + a[0], xs, t.sort)
            if a[0] in ("sin", "cos") and not self.bound(t):
                self.side.append(z3.And(r <= 1, r >= -1))
                p_, u_ = self.tr(PI), self.real(xs[0])
                if a[0] == "sin":
                    self.side.append(z3.Implies(z3.And(u_ > 0, u_ < p_), r > 0))
                else:
                    self.side.append(z3.Implies(z3.And(2 * u_ > -p_, 2 * u_ < p_), r > 0))
            if a[0] == "atan2" and not self.bound(t):
                p_ = self.tr(PI)
                self.side.append(z3.And(r > -p_, r <= p_, p_ > 3, p_ < 4))
            if a[0] == "arccos" and not self.bound(t):
                p_ = self.tr(PI)
                u_ = self.real(xs[0])
                self.side.append(z3.Implies(z3.And(u_ <= 1, u_ >= -1), z3.And(r >= 0, r <= p_, p_ > 3, p_ < 4)))
            if a[0] == "exp" and not self.bound(t):
                self.side.append(r > 0)
            if a[0] == "fact" and not self.bound(t):
                self.side.append(r > 0)
            return r
        if op in ("add", "mul"):
            xs = [self.tr(x) for x in a]
            if any(not z3.is_int(x) for x in xs):
                xs = [self.real(x) for x in xs]
            r = xs[0]
            for x in xs[1:]:
                r = r + x if op == "add" else r * x
            return r
        if op == "pow":
            b, e = a
            tb = self.tr(b)
            if e.op == "num" and val(e).denominator == 1 and abs(val(e)) <= 6:
                n = int(val(e))
                r = tb
                for _ in range(abs(n) - 1):
                    r = r * tb
                if n < 0:
                    r = z3.RealVal(1) / self.real(r)
                return r
            if e.op == "num" and val(e) == Fraction(1, 2):
                r = self.fun("sqrt", [self.real(tb)], "R")
                if not self.bound(t):
                    self.side.append(z3.Implies(self.real(tb) >= 0, z3.And(r >= 0, r * r == self.real(tb))))
                return r
            r = self.fun("pow", [self.real(tb), self.real(self.tr(e))], t.sort)
            if not self.bound(t):
                if b.op == "num" and val(b) == -1:
                    self.side.append(z3.Or(r == 1, r == -1))
                else:
                    self.side.append(z3.Implies(self.real(tb) > 0, r > 0))
            return r
        if op == "ite":
            x, y = self.tr(a[1]), self.tr(a[2])
            if t.sort == "R":
                x, y = self.real(x), self.real(y)
            return z3.If(self.tr(a[0]), x, y)
        if op == "not":
            return z3.Not(self.tr(a[0]))
        if op == "and":
            return z3.And(*[self.tr(x) for x in a])
        if op == "or":
            return z3.Or(*[self.tr(x) for x in a])
        if op in ("eq", "le", "lt"):
            x, y = self.tr(a[0]), self.tr(a[1])
            if a[0].sort in "IR" and a[0].sort != a[1].sort:
                x, y = self.real(x), self.real(y)
            return x == y if op == "eq" else (x <= y if op == "le" else x < y)
        if op == "mod":
            return self.tr(a[0]) % self.tr(a[1]) if t.sort == "I" else self.fun("fmod", [self.real(self.tr(x)) for x in a], "R")
        if op == "idiv":
            return self.tr(a[0]) / self.tr(a[1]) if t.sort == "I" else self.fun("fdiv", [self.real(self.tr(x)) for x in a], "R")
        if op in ("exists", "forall"):
            n, base = a[0], a[1]
            parts = a[2:]
            xs = [z3.Int("#%d" % (base + i)) for i in range(n)]
            p = [z3.And(self.tr(parts[i]) <= xs[i], xs[i] < self.tr(parts[n + i])) for i in range(n)] + [self.tr(parts[2 * n])]
            body = self.tr(parts[2 * n + 1])
            if op == "exists":
                return z3.Exists(xs, z3.And(*(p + [body])))
            return z3.ForAll(xs, z3.Implies(z3.And(*p), body))
        if op == "sum" and a[2 + 2 * a[0] + 1] is not None and not self.bound(t) and self._is_one(a[2 + 2 * a[0] + 1]):
            r = self.agg(t)
            try:
                n, base = a[0], a[1]
                parts = a[2:]
                xs = [z3.Int("#%d" % (base + i)) for i in range(n)]
                p = z3.And(*([z3.And(self.tr(parts[i]) <= xs[i], xs[i] < self.tr(parts[n + i])) for i in range(n)] + [self.tr(parts[2 * n])]))
                self.univ[t] = (xs, z3.Implies(p, r >= 1))
                self.side.append(r >= 0)
                ws = [z3.FreshInt("w") for _ in range(n)]
                self.side.append(z3.Implies(r >= 1, z3.substitute(p, *zip(xs, ws))))
                us = [z3.FreshInt("w") for _ in range(n)]
                vs = [z3.FreshInt("w") for _ in range(n)]
                self.side.append(z3.Implies(r >= 2, z3.And(z3.substitute(p, *zip(xs, us)), z3.substitute(p, *zip(xs, vs)),
                                                           z3.Or(*[x != y for x, y in zip(us, vs)]))))
            except Unsupported:
                pass
            return r
        if op in ("sum", "maxo", "prod"):
            fv = sorted(free_vars(t), key=lambda v: v.id)
            r = self.fun("%s_%d" % (op, t.id), [self.tr(v) for v in fv], t.sort) if fv else \
                z3.Const("%s_%d" % (op, t.id), self.sort(t.sort))
            if op == "maxo" and not self.bound(t):
                n, base = a[0], a[1]
                parts = a[2:]
                try:
                    xs = [z3.Int("#%d" % (base + i)) for i in range(n)]
                    p = z3.And(*([z3.And(self.tr(parts[i]) <= xs[i], xs[i] < self.tr(parts[n + i])) for i in range(n)] + [self.tr(parts[2 * n])]))
                    body = self.tr(parts[2 * n + 1])
                    if t.sort == "R":
                        body = self.real(body)
                    self.side.append(z3.ForAll(xs, z3.Implies(p, body <= r)))
                    self.univ[t] = (xs, z3.Implies(p, body <= r))
                    ws = [z3.FreshInt("w") for _ in range(n)]
                    sub_ = list(zip(xs, ws))
                    hit = z3.And(z3.substitute(p, *sub_), z3.substitute(body, *sub_) == r)
                    if len(parts) > 2 * n + 2:
                        i0 = self.tr(parts[2 * n + 2])
                        if t.sort == "R":
                            i0 = self.real(i0)
                        self.side.append(z3.And(i0 <= r, z3.Or(r == i0, hit)))
                    else:
                        self.side.append(z3.Or(hit, z3.ForAll(xs, z3.Not(p))))
                except Unsupported:
                    pass
            return r
        raise Unsupported("z3: " + op)

    def quant_parts(self, t):
        """variables, range, body and witnesses of a quantified statement"""
        r = self.qparts.get(t)
        if r is None:
            n, base = t.args[0], t.args[1]
            parts = t.args[2:]
            xs = [z3.Int("#%d" % (base + i)) for i in range(n)]
            p = z3.And(*([z3.And(self.tr(parts[i]) <= xs[i], xs[i] < self.tr(parts[n + i])) for i in range(n)] + [self.tr(parts[2 * n])]))
            r = (xs, p, self.tr(parts[2 * n + 1]), [z3.FreshInt("w") for _ in range(n)])
            self.qparts[t] = r
        return r

    def agg(self, t):
        fv = sorted(free_vars(t), key=lambda v: v.id)
        nm_ = "%s_%d" % (t.op, t.id)
        return self.fun(nm_, [self.tr(v) for v in fv], t.sort) if fv else z3.Const(nm_, self.sort(t.sort))

    @staticmethod
    def _is_one(t):
        return t.op == "num" and val(t) == 1

    def bound(self, t):
        return any(v.args[0].startswith("#") for v in free_vars(t))


TRANSLATOR = Z3()


_ZQ = {}


def z3quant(e):
    r = _ZQ.get(e.get_id(), (None,))[0]
    if r is None:
        todo, seen, r = [e], set(), False
        while todo:
            x = todo.pop()
            if z3.is_quantifier(x):
                r = True
                break
            i = x.get_id()
            if i not in seen:
                seen.add(i)
                todo.extend(x.children())
        _ZQ[e.get_id()] = (r, e)
    return r


_QUANT = {}


def has_quant(t):
    r = _QUANT.get(t)
    if r is None:
        r = t.op in ("forall", "exists", "maxo") or any(has_quant(a) for a in t.args if isinstance(a, T))
        _QUANT[t] = r
    return r


def _match(p, t, xs, w):
    """p with some values for xs is t"""
    if p in xs:
        if p in w:
            return w[p] is t
        w[p] = t
        return True
    if p is t:
        return True
    if p.op != t.op or len(p.args) != len(t.args) or not p.args:
        return False
    return all(_match(a, b, xs, w) if isinstance(a, T) and isinstance(b, T) else a == b for a, b in zip(p.args, t.args))


class Prover:
    deciding = 0
    def __init__(self, facts=(), samplers=None, parent=None, timeout=1500):
        self.facts = list(facts)
        self.samplers = samplers if samplers is not None else {}
        self.parent = parent
        self.timeout = timeout
        self.cache = {}
        self._z3 = None
        self._solver = None
        self._norm = None
        self._models = None
        self._tried = 0
        self._quick = None
        self._vars = None
        self._incons = None
        self._quant = None
        self._ground = None

    def child(self, extra):
        extra = [e for e in extra if e is not TRUE]
        if not extra:
            return self
        key = ("child", tuple(extra))
        c = self.cache.get(key)
        if c is None:
            c = Prover(self.facts + extra, self.samplers, self, self.timeout)
            self.cache[key] = c
        return c

    @property
    def norm(self):
        if self._norm is None:
            self._norm = nm.Norm(self)
        return self._norm

    # ---------------------------------------------------------------- z3
    def solver(self):
        if self._solver is None:
            self._z3 = TRANSLATOR
            self._solver = z3.Solver()
            self._solver.set("timeout", 2 * self.timeout)
            self._solver.set("rlimit", RATE * self.timeout)
            side = set()
            for f in self.facts:
                try:
                    self._solver.add(self._z3.tr(f))
                    side |= self._z3.sides_of(f)
                except Unsupported:
                    pass
            self._side = side
            for s in side:
                self._solver.add(s)
        return self._solver

    def _query_ground(self, n, e):
        """the same question with quantifiers replaced by their instances at the integers in sight and by witnesses"""
        Z = self._z3
        if self._ground is None:
            self._ground = z3.Solver()
            self._ground.set("timeout", 500)
            self._ground.set("rlimit", RATE * 400)
            self._gq, self._gseen = {}, set()
            self._gints, self._guniv, self._gargs = [], [], []
            for f in self.facts:
                try:
                    self._ground.add(self.ground(f, Z.tr(f), self._gq))
                except Unsupported:
                    continue
            for x in self._side:
                if not z3quant(x):
                    self._ground.add(x)
            for f in self.facts:
                self.in_sight(f, self._gseen, self._gints, self._gargs, self._guniv)
        s = self._ground
        qs = dict(self._gq)
        ints, args, univ, seen = list(self._gints), [], list(self._guniv), set()
        s.push()
        s.add(self.ground(n, e, qs))
        for x in Z.sides_of(n) - self._side:
            if not z3quant(x):
                s.add(x)
        self.in_sight(n, seen, ints, args, univ)
        ints = sorted(set(ints), key=lambda v: v.id)[-8:] + sorted(set(args), key=lambda v: v.id)[:6] + sorted(set(self._gargs) - set(args), key=lambda v: v.id)[-6:]
        cands = [Z.tr(v) for v in reversed(ints)]
        extra = []
        for t, c in qs.items():
            try:
                xs, p, b, ws = Z.quant_parts(t)
            except Unsupported:
                continue
            if z3quant(p) or z3quant(b):
                continue
            sub_ = list(zip(xs, ws))
            pw, bw = z3.substitute(p, *sub_), z3.substitute(b, *sub_)
            if t.op == "forall":
                extra.append(z3.Implies(z3.Not(c), z3.And(pw, z3.Not(bw))))
                univ.append((xs, z3.Implies(z3.And(c, p), b)))
            else:
                extra.append(z3.Implies(c, z3.And(pw, bw)))
                univ.append((xs, z3.Implies(z3.And(z3.Not(c), p), z3.Not(b))))
            if len(cands) < 24:
                cands += ws
        for xs, b in univ:
            if z3quant(b):
                continue
            combos = [()]
            for _ in xs:
                combos = [c_ + (k,) for c_ in combos for k in cands]
                if len(combos) > 100:
                    combos = combos[:100]
            for cb in combos:
                extra.append(z3.substitute(b, *zip(xs, cb)))
            if len(extra) > 400:
                break
        s.add(extra)
        r = s.check()
        s.pop()
        STATS["z3_calls"] += 1
        return True if r == z3.unsat else None

    def ground(self, t, e, qs):
        """e (the translation of t) with its outermost quantifiers named"""
        if not z3quant(e):
            return e
        found = []

        def walk(x):
            if x.op in ("forall", "exists"):
                if x not in qs:
                    qs[x] = z3.Bool("quant_%d" % x.id)
                found.append((self._z3.tr(x), qs[x]))
                return
            for y in x.args:
                if isinstance(y, T):
                    walk(y)
        walk(t)
        r = z3.substitute(e, *found) if found else e
        return z3.BoolVal(True) if z3quant(r) else r

    def in_sight(self, t, seen, ints, args, univ):
        Z = self._z3
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "var":
                if x.sort == "I" and not x.args[0].startswith("#"):
                    ints.append(x)
                continue
            if x in Z.univ:
                univ.append(Z.univ[x])
            if x.op == "app":
                args.extend(y for y in x.args[1:] if isinstance(y, T) and y.sort == "I" and y.op not in ("num", "var") and not Z.bound(y))
            todo.extend(y for y in x.args if isinstance(y, T))

    def _query(self, c, light=False):
        """is facts & not c unsatisfiable? -> True / False(sat) / None"""
        check_deadline()
        s = self.solver()
        try:
            e = self._z3.tr(not_(c))
        except Unsupported:
            return None
        t0 = time.time()
        if self.quantified(c):
            if self.falsified(c):
                return None
            r = self._query_ground(not_(c), e)
            if r or light:
                STATS["z3_s"] += time.time() - t0
                return r
        s.push()
        for x in self._z3.sides_of(not_(c)) - self._side:
            s.add(x)
        s.add(e)
        quant = self.quantified(c)
        limit = 350 if quant else self.timeout
        s.set("timeout", 2 * limit)
        s.set("rlimit", RATE * limit)
        r = s.check()
        if r != z3.unsat:
            extra = self.instances(not_(c), r == z3.unknown)
            if extra:
                for x in extra:
                    s.add(x)
                r = s.check()
        s.pop()
        STATS["z3_calls"] += 1
        STATS["z3_s"] += time.time() - t0
        return True if r == z3.unsat else (False if r == z3.sat else None)

    def quantified(self, c):
        if self._quant is None:
            self._quant = any(has_quant(f) for f in self.facts)
        return self._quant or has_quant(c)

    def instances(self, c, all_):
        """universal statements about sums, maxima and quantified facts, at the integer variables in sight"""
        Z = self._z3
        targets, univ, cands, seen = [], [], [], set()
        pos = []

        def walk(t, sign):
            if t.op == "not":
                walk(t.args[0], not sign)
            elif t.op in ("and", "or"):
                for x in t.args:
                    walk(x, sign)
            elif t.op == "forall" and sign or t.op == "exists" and not sign:
                pos.append((t, sign))
        stack = list(self.facts) + [c]
        for f in stack:
            if f.op in ("not", "forall", "exists", "and", "or"):
                walk(f, True)
        while stack:
            t = stack.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == "var":
                if t.sort == "I" and not t.args[0].startswith("#"):
                    cands.append(t)
                continue
            if t in Z.univ and (all_ or t.op == "sum"):
                univ.append(Z.univ[t])
            stack.extend(x for x in t.args if isinstance(x, T))
        if not univ and not pos:
            return []
        for t, sign in (pos if all_ else []):
            n, base = t.args[0], t.args[1]
            parts = t.args[2:]
            try:
                xs = [z3.Int("#%d" % (base + i)) for i in range(n)]
                p = z3.And(*([z3.And(Z.tr(parts[i]) <= xs[i], xs[i] < Z.tr(parts[n + i])) for i in range(n)] + [Z.tr(parts[2 * n])]))
                b = Z.tr(parts[2 * n + 1])
                body = z3.Implies(p, b if sign else z3.Not(b))
                # only valid where the quantifier stands as a fact of its own: otherwise guard it by the quantifier
                g = Z.tr(t) if sign else z3.Not(Z.tr(t))
                univ.append((xs, z3.Implies(g, body)))
            except Unsupported:
                pass
        cands = sorted(cands, key=lambda v: v.id)[-8:]
        out = []
        for xs, b in univ:
            combos = [()]
            for _ in xs:
                combos = [c_ + (k,) for c_ in combos for k in cands]
                if len(combos) > 64:
                    combos = combos[:64]
            for cb in combos:
                out.append(z3.substitute(b, *[(x, Z.tr(k)) for x, k in zip(xs, cb)]))
            if len(out) > 300:
                break
        return out

    def proves(self, c, light=False):
        if c is TRUE:
            return True
        if c in self.cache:
            return self.cache[c]
        if light and ("light", c) in self.cache:
            return self.cache["light", c]
        p = self.parent
        while p is not None:
            if p.cache.get(c) is True:
                self.cache[c] = True
                return True
            p = p.parent
        if c.op == "and":
            r = all(self.proves(x, light) for x in c.args)
        elif c in self.facts:
            r = True
        else:
            r = self._query(c, light) is True
        self.cache[c if r or not light else ("light", c)] = r
        return r

    def inconsistent(self):
        if self._incons is None:
            self._incons = self.proves(FALSE)
        return self._incons

    def decide_local(self, c):
        """True / False / None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        key = ("dec", c)
        if key in self.cache:
            return self.cache[key]
        if self.proves(c, True):
            r = True
        elif self.proves(not_(c), True):
            r = False
        else:
            r = self.decide_normal(c)
        self.cache[key] = r
        return r

    def decide_normal(self, c):
        """an equation of reals whose normal form is a single product of non-zero factors (or zero)"""
        if c.op == "not":
            r = self.decide_normal(c.args[0])
            return None if r is None else not r
        if c.op != "eq" or "R" not in (c.args[0].sort, c.args[1].sort) or self.deciding > 2:
            return None
        if any(s.op in ("ite",) + tm.BINDERS for s in tm.subterms(c)):
            return None
        Prover.deciding += 1
        try:
            p = self.norm.normal(sub(c.args[0], c.args[1]))
            if not p:
                return True
            if len(p) == 1:
                t = self.norm.to_term(p)
                if self.is_positive(t) or self.proves(ne(t, num(0, t.sort))):
                    return False
        except (nm.TooBig, Unsupported, RecursionError):
            pass
        finally:
            Prover.deciding -= 1
        return None

    def is_positive(self, t):
        key = ("pos", t)
        if key not in self.cache:
            self.cache[key] = False
            self.cache[key] = self._positive(t)
        return self.cache[key]

    def _positive(self, t):
        op, a = t.op, t.args
        if op == "num":
            return val(t) > 0
        if t is PI:
            return True
        if op == "mul" and all(self.is_positive(x) for x in a):
            return True
        if op == "add" and all(self.is_nonneg(x) for x in a) and any(self.is_positive(x) for x in a):
            return True
        if op == "pow" and self.is_positive(a[0]):
            return True
        if op == "app" and a[0] in ("exp", "fact"):
            return True
        if op == "ite" and self.is_positive(a[1]) and self.is_positive(a[2]):
            return True
        return self.proves(lt(ZERO, t), True)

    def is_nonneg(self, t):
        key = ("nn", t)
        if key not in self.cache:
            self.cache[key] = False
            self.cache[key] = self._nonneg(t)
        return self.cache[key]

    def _nonneg(self, t):
        op, a = t.op, t.args
        if op == "num":
            return val(t) >= 0
        if op == "pow" and a[1].op == "num" and val(a[1]).denominator == 1 and val(a[1]) % 2 == 0:
            return True
        if op == "pow" and a[1].op == "num" and val(a[1]) == Fraction(1, 2):
            return True
        if op == "mul":
            if all(self.is_nonneg(x) for x in a):
                return True
            from collections import Counter
            cnt = Counter(a)
            if all(k % 2 == 0 or self.is_nonneg(x) for x, k in cnt.items()):
                return True
        if op == "add" and all(self.is_nonneg(x) for x in a):
            return True
        if op == "add" and len(a) == 2:
            # the cosine decreases on [0, pi]
            cs = {}
            for x in a:
                k, y = (val(x.args[0]), x.args[1]) if x.op == "mul" and len(x.args) == 2 and x.args[0].op == "num" else (1, x)
                if y.op == "app" and y.args[0] == "cos":
                    cs[k] = y.args[1]
            if set(cs) == {1, -1} and self.proves(and_(le(ZERO, cs[1]), le(cs[1], cs[-1]), le(cs[-1], PI)), True):
                return True
        if op == "sum":
            xs, los, his, filt, body = tm.open_binder(t)
            return self.child([tm.binder_pred(xs, los, his, filt)]).is_nonneg(body)
        if op == "app" and a[0] == "arccos":
            return self.within_unit(a[1])
        if op == "add" and len(a) == 2 and PI in a:
            o = a[0] if a[1] is PI else a[1]
            if o.op == "app" and o.args[0] == "atan2":
                return True
            if o.op == "mul" and len(o.args) == 2 and o.args[0].op == "num" and val(o.args[0]) == -1 and o.args[1].op == "app":
                if o.args[1].args[0] == "atan2":
                    return True
                if o.args[1].args[0] == "arccos":
                    return self.within_unit(o.args[1].args[1])
        if op == "ite" and self.is_nonneg(a[1]) and self.is_nonneg(a[2]):
            return True
        if self.is_positive(t):
            return True
        return self.proves(le(ZERO, t), True)

    def within_unit(self, u):
        """-1 <= u <= 1"""
        key = ("unit", u)
        if key not in self.cache:
            self.cache[key] = False
            self.cache[key] = self._within_unit(u, 0)
        return self.cache[key]

    def _within_unit(self, u, depth):
        u = self.resolve_ites(self.apply_rewrites(u))
        c = self.split_condition(u)
        if c is not None and depth < 4:
            return self.child([c])._within_unit(u, depth + 1) and self.child([not_(c)])._within_unit(u, depth + 1)
        try:
            q = self.norm.normal(sub(ONE, mul(u, u)))
            for _ in range(6):
                low = {}
                for m in q:
                    for a, e in m:
                        if isinstance(e, Fraction) and e < 0:
                            low[a] = min(low.get(a, 0), e)
                if not low:
                    break
                for a, e in low.items():
                    if not ((-e).denominator == 1 and (-e) % 2 == 0) and not self.is_nonneg(self.norm.atom_term(a)):
                        return False
                k = tuple(sorted(((a, -e) for a, e in low.items()), key=lambda ae: ae[0]))
                q = self.norm.reduce({mm: c * kk for m, c in q.items() for kk, mm in [self.norm.mmul(m, k)]})
            t = self.norm.to_term(q)
            return self.is_nonneg(t)
        except (nm.TooBig, Unsupported):
            return False

    # ---------------------------------------------------------------- models
    def models(self, n=4, tries=400, extra=None):
        """random models satisfying the facts"""
        if extra is not None:
            return self.child(list(extra)).models(n, tries)
        if self._models is not None and (len(self._models) >= n or n <= self._tried):
            return self._models
        self._tried = n
        out = self.inherited_models(n)
        facts = self.facts
        for k in range(tries if len(out) < n else 0):
            m = numeric.Model(k, self.samplers)
            if self.holds(m, facts):
                out.append(m)
                if len(out) >= n:
                    break
            if k > 40 and not out:
                break
        if not out:
            out += self.modal_models(n)
        if len(out) < n:
            out += self.guided_models(n - len(out))
        self._models = out
        STATS["models"] += len(out)
        return out

    def inherited_models(self, n):
        """models of the enclosing context in which the additional facts can be met as well"""
        out = []
        if self.parent is None or not self.parent._models:
            return out
        extra = self.facts[len(self.parent.facts):]
        for m0 in self.parent._models:
            for k in range(10):
                m = numeric.Model(m0.seed * 31 + 7 * k + 1, self.samplers, {**m0.memo, **m0.fixed})
                if self.holds(m, extra):
                    out.append(m)
                    break
            if len(out) >= n:
                break
        return out

    def modal_models(self, n, tries=80):
        """models in which the quantities of the conditions that random models fail are of an unusual kind"""
        out = []
        fails = {}
        for k in range(8):
            m = numeric.Model(k, self.samplers)
            for i, f in enumerate(self.facts):
                if not self.holds(m, [f]):
                    fails[i] = fails.get(i, 0) + 1
        names = set()
        for i, f in enumerate(self.facts):
            if fails.get(i, 0) < 7:
                continue
            for t in tm.subterms(f):
                if t.op == "var" and t is not PI and t.sort in "RB" and not t.args[0].startswith("#"):
                    names.add(t.args[0])
                elif t.op == "app" and t.sort in "RB" and t.args[0] not in numeric.KNOWN:
                    names.add(t.args[0])
        names = sorted(names)
        if not names:
            return out
        r = random.Random(len(names))
        K = numeric.Modal.KINDS
        for k in range(tries):
            if k < len(K):
                kinds = {x: K[k] for x in names}
            else:
                kinds = {x: r.choice(K) for x in names}
            m = numeric.Modal(k, self.samplers, kinds)
            if self.holds(m, self.facts):
                out.append(m)
                if len(out) >= n:
                    break
        return out

    def quick_models(self):
        """a few models of the facts, if they come easily"""
        if self._quick is None:
            self._quick = list(self._models or ())
            if self.parent is not None:
                # facts only accumulate: an enclosing context has them first
                extra = self.facts[len(self.parent.facts):]
                new = set()
                for f in extra:
                    new |= free_vars(f)
                new = {(x.args[0], ()) for x in new - self.parent.known_vars()}
                for m in self.parent.quick_models():
                    if not new and self.holds(m, extra):
                        self._quick.append(m)
                    for k in range(12 if new else 0):
                        m2 = numeric.Model(m.seed * 31 + 7 * k + 1, self.samplers, {q: v for q, v in {**m.memo, **m.fixed}.items() if q not in new})
                        if self.holds(m2, extra):
                            self._quick.append(m2)
                            break
            for k in range(80 if len(self._quick) < 3 else 0):
                m = numeric.Model(k, self.samplers)
                if self.holds(m, self.facts):
                    self._quick.append(m)
                    if len(self._quick) >= 6:
                        break
                if k > 15 and not self._quick:
                    break
        return self._quick

    def known_vars(self):
        if self._vars is None:
            self._vars = set(self.parent.known_vars()) if self.parent is not None else set()
            for f in self.facts[len(self.parent.facts) if self.parent is not None else 0:]:
                self._vars |= free_vars(f)
        return self._vars

    def falsified(self, c):
        """one of those models makes c false, beyond rounding: no need to ask whether it follows"""
        for m in self.quick_models():
            try:
                if clearly(m, c) is False:
                    STATS["falsified"] = STATS.get("falsified", 0) + 1
                    return True
            except Exception:
                continue
        return False

    @staticmethod
    def holds(m, facts):
        for f in facts:
            try:
                if not m.ev(f):
                    return False
            except numeric.Undefined:
                return False
            except Exception:
                return False
        return True

    def guided_models(self, n):
        """fix what z3 chooses for the integers and booleans of the facts, randomise the rest"""
        out = []
        s = self.solver()
        # whether the quantified facts hold is checked by evaluation afterwards
        base = s.assertions()
        if self.quantified(TRUE):
            base = [x for x in base if not z3quant(x)] + [x for x in self.instances(TRUE, True) if not z3quant(x)]
        for seed in range(6):
            check_deadline()
            s2 = z3.Solver()
            s2.set("timeout", 2000)
            s2.set("random_seed", seed)
            s2.set("smt.phase_selection", 5 if seed else 3)
            s2.add(base)
            # keep the numbers small
            small = []
            seen = set()
            for f in self.facts:
                for t in tm.subterms(f, seen):
                    if t.sort == "I" and t.op in ("var", "app") and not self._z3.bound(t):
                        small.append(t)
            for t in small:
                s2.add(self._z3.tr(t) <= 12 + 4 * seed, self._z3.tr(t) >= -20)
            t0 = time.time()
            r = s2.check()
            STATS["z3_calls"] += 1
            STATS["z3_s"] += time.time() - t0
            if r != z3.sat:
                s2 = z3.Solver()
                s2.set("timeout", 2000)
                s2.add(base)
                if s2.check() != z3.sat:
                    return out
            zm = s2.model()
            for reals in (False, True):
                for k in range(12):
                    m = numeric.Model(1000 * seed + k, self.samplers)
                    self.fix_from(zm, m, reals)
                    if self.holds(m, self.facts):
                        out.append(m)
                        break
                if out and len(out) >= n:
                    return out
        return out

    def fix_from(self, zm, m, reals):
        seen = set()
        todo = []
        for f in self.facts:
            for t in tm.subterms(f, seen):
                if t.op in ("var", "app") and not self._z3.bound(t) and t is not PI:
                    if t.op == "app" and t.args[0] in numeric.KNOWN:
                        continue
                    if t.sort in ("I", "B") or (reals and t.sort == "R"):
                        todo.append(t)
        todo.sort(key=lambda t: tm.size(t))
        for t in todo:
            try:
                v = zm.eval(self._z3.tr(t), model_completion=True)
                if t.sort == "B":
                    v = z3.is_true(v)
                elif t.sort == "I":
                    v = v.as_long()
                else:
                    if z3.is_algebraic_value(v):
                        v = v.approx(20)
                    v = float(v.as_fraction())
                if t.op == "var":
                    m.fixed[(t.args[0], ())] = v
                else:
                    args = tuple(m.ev(x) for x in t.args[1:])
                    m.fixed.setdefault((t.args[0], args), v)
            except Exception:
                continue

    def refute_zero(self, t, n=4, tol=1e-7, depth=0, deep=False):
        """a model in which t is clearly non-zero, or None"""
        scale_terms = t.args if t.op == "add" else (t,)
        for m in self.models(n):
            try:
                v = m.ev(t)
                s = max(abs(m.ev(x)) for x in scale_terms)
            except numeric.Undefined:
                continue
            except Exception:
                continue
            if abs(v) > tol * max(s, 1e-6) and numeric.confirmed(m, t, tol, scale_terms):
                return m, v
        if depth < 4:
            # the failing case may be one that random models rarely meet: look at each branch
            t2 = self.resolve_ites(t)
            c = self.split_condition(t2, deep)
            if c is not None:
                for b in (c, not_(c)):
                    r = self.child([b]).refute_zero(t2, 2, tol, depth + 1, deep)
                    if r is not None:
                        return r
        return None

    def numeric_ok(self, t, n=2, tol=1e-6):
        """cross-check of a claimed identity t == 0"""
        STATS["cross_checks"] += 1
        r = self.refute_zero(t, n, tol)
        return r is None

    def fingerprint(self, t, n=2):
        out = []
        for m in self.models(n)[:n]:
            try:
                v = m.ev(t)
                out.append(v)
            except Exception:
                out.append(None)
        return out

    # ---------------------------------------------------------------- identities
    def zero_facts(self, facts):
        """the facts, with x = 0 and y = 0 for x^2 + y^2 = 0 and the like"""
        out, todo = [], list(facts)
        n = 0
        while todo and n < 400:
            f = todo.pop(0)
            n += 1
            out.append(f)
            if f.op == "and":
                todo.extend(f.args)
                continue
            if f.op != "eq" or f.args[0].sort not in "IR":
                continue
            x = f.args[1] if f.args[0].op == "num" and val(f.args[0]) == 0 else (f.args[0] if f.args[1].op == "num" and val(f.args[1]) == 0 else None)
            if x is None:
                continue
            if x.op == "pow" and x.args[1].op == "num" and val(x.args[1]) > 0:
                todo.append(eq(x.args[0], num(0, x.args[0].sort)))
            elif x.op == "mul" and len({a for a in x.args if a.op != "num"}) == 1:
                todo.append(eq([a for a in x.args if a.op != "num"][0], num(0, x.sort)))
            elif x.op == "add" and all(self._square(a) for a in x.args):
                todo.extend(eq(a, num(0, a.sort)) for a in x.args)
            elif x.op == "app" and x.args[0] in ("re", "im"):
                pass
        return out

    def _square(self, a):
        if a.op == "pow" and a.args[1].op == "num" and (val(a.args[1]).denominator == 2 or val(a.args[1]) % 2 == 0):
            return True
        if a.op == "num":
            return val(a) >= 0
        if a.op == "mul":
            from collections import Counter
            cnt = Counter(x for x in a.args if x.op != "num")
            k = 1
            for x in a.args:
                if x.op == "num":
                    k *= val(x)
            return k > 0 and all(c % 2 == 0 or self._square(x) for x, c in cnt.items())
        return False

    def rewrites(self):
        """oriented equalities among the facts: variable or application -> term"""
        r = {}
        for f in self.zero_facts(self.facts):
            if f.op == "eq":
                x, y = f.args
                for u, v in ((x, y), (y, x)):
                    if u.op in ("var", "app") and u is not PI and u not in r and not _occurs(u, v) \
                            and not (u.op == "app" and u.args[0] in numeric.KNOWN and v.op != "num"):
                        v2 = subst(v, r)
                        if _occurs(u, v2):
                            continue
                        r = {k: subst(w, {u: v2}) for k, w in r.items()}
                        r[u] = v2
                        break
                else:
                    # a*x + c == 0 with a integer variable x
                    d = y if x.op == "num" and val(x) == 0 else sub(x, y)
                    if d.op == "add":
                        for term in d.args:
                            if term.op == "var" and term is not PI and term.sort in "IR" and term not in r and not term.args[0].startswith("#"):
                                rest = neg(sub(d, term))
                                if not _occurs(term, rest):
                                    rest = subst(rest, r)
                                    if _occurs(term, rest):
                                        continue
                                    r = {k: subst(w, {term: rest}) for k, w in r.items()}
                                    r[term] = rest
                                    break
            elif f.op in ("sum",):
                pass
        return r

    def apply_rewrites(self, t):
        r = self.cache.get("rw")
        if r is None:
            r = self.rewrites()
            self.cache["rw"] = r
        for _ in range(4):
            t2 = subst(t, r)
            if t2 is t:
                break
            t = t2
        return self.positions(t) if numeric.POSITION else t

    def positions(self, t):
        """the position of the key of x is x"""
        m = {}
        for s in tm.subterms(t):
            if s.op == "app" and s.args[0] in numeric.POSITION and s.args[1].op == "num" and not any(v.args[0].startswith("#") for v in free_vars(s)):
                if ("position", s) not in self.cache:
                    self.cache["position", s] = None
                    _, _, xs, f, dom = numeric.POSITION[s.args[0]]
                    w = {}
                    if all(_match(p, q, xs, w) for p, q in zip(f, s.args[2:])) and len(w) == len(xs):
                        at = tuple(w[x] for x in xs)
                        if self.proves(dom.pred(at)):
                            self.cache["position", s] = at[int(val(s.args[1]))]
                if self.cache["position", s] is not None:
                    m[s] = self.cache["position", s]
        return subst(t, m) if m else t

    def prove_zero(self, t, depth=0):
        """True if t == 0 follows from the facts; otherwise False."""
        check_deadline()
        key = ("zero", t)
        if key in self.cache:
            return self.cache[key]
        STATS["norm_calls"] += 1
        t0 = time.time()
        try:
            r = self._prove_zero(t, depth)
        except (nm.TooBig, Unsupported, RecursionError) as e:
            r = False
        STATS["norm_s"] += time.time() - t0
        self.cache[key] = r
        return r

    def _prove_zero(self, t, depth):
        if t.op == "num":
            return val(t) == 0
        if self.inconsistent():
            return True
        t = self.apply_rewrites(t)
        if t.op == "num":
            return val(t) == 0
        t2 = self.resolve_ites(t)
        if t2 is not t:
            t = t2
            if t.op == "num":
                return val(t) == 0
        c = self.split_condition(t)
        if c is None and depth < 14:
            # a quick attempt before giving up
            pass
        if c is not None and depth < 14:
            return self.child([c]).prove_zero(t, depth + 1) and self.child([not_(c)]).prove_zero(t, depth + 1)
        p = self.norm.normal(t)
        if not p:
            return True
        p = self.use_sum_facts(p)
        if not p:
            return True
        if self.reduces_by_facts(p):
            return True
        p = self.clear_denominators(p)
        if not p:
            return True
        if self.prove_sums(p, depth):
            return True
        # cases on conditions inside the sums' atoms
        cs = self.atom_conditions(p)
        if cs and depth < 10:
            c = cs[0]
            return self.child([c]).prove_zero(t, depth + 1) and self.child([not_(c)]).prove_zero(t, depth + 1)
        t3 = flatten_sums(t)
        if t3 is not t and depth < 6 and self.prove_zero(t3, depth + 1):
            return True
        c = self.split_condition(t, parity=True)
        if c is not None and depth < 10:
            return self.child([c]).prove_zero(t, depth + 1) and self.child([not_(c)]).prove_zero(t, depth + 1)
        if t.sort == "I" or depth == 0:
            if self.proves(eq(t, num(0, t.sort))):
                return True
        return False

    def resolve_ites(self, t):
        """decide conditions of the outermost if-then-elses"""
        for _ in range(12):
            m = {}
            for s in tm.subterms(t, into_binders=False):
                if s.op == "ite":
                    d = self.decide_local(s.args[0])
                    if d is not None:
                        m[s] = s.args[1] if d else s.args[2]
            if not m:
                return t
            t = subst(t, m)
        return t

    def split_condition(self, t, into_binders=False, parity=False):
        best = None
        for s in tm.subterms(t, into_binders=into_binders):
            if s.op == "ite" and not any(v.args[0].startswith("#") for v in free_vars(s.args[0])):
                c = s.args[0]
                while c.op in ("and", "or", "not"):
                    for x in c.args:
                        if self.decide_local(x) is None:
                            c = x
                            break
                    else:
                        c = c.args[0]
                        break
                if self.decide_local(c) is None and (parity or not nm.is_parity(c)):
                    k = (0 if c.op == "eq" else 1, tm.size(c))
                    if best is None or k < best[0]:
                        best = (k, c)
        return best[1] if best else None

    def atom_conditions(self, p):
        out = []
        for m in p:
            for a, e in m:
                kind, payload, term = self.norm.atoms[a]
                if kind == "ind" and term is not None and self.decide_local(term) is None:
                    out.append(term)
        return out

    def zero_polys(self):
        """normal forms of the polynomial equations among the facts"""
        r = self.cache.get("zp")
        if r is None:
            r = self.cache["zp"] = []
            out = []
            for f in self.facts:
                for g in (f.args if f.op == "and" else (f,)):
                    if g.op == "eq" and g.args[0].sort in "IR" and not any(x.op in ("var", "app") for x in g.args) and \
                            tm.size(g) < 150 and not any(s.op in tm.BINDERS for s in tm.subterms(g)):
                        try:
                            p = self.norm.normal(self.apply_rewrites(sub(*g.args)))
                        except (nm.TooBig, Unsupported, RecursionError):
                            continue
                        if len(p) > 1 or p and nm.ONE_M not in p:
                            out.append(p)
            # x^2 + y^2 for x = y = 0
            sq = []
            for i, x in enumerate(out[-3:]):
                for y in out[-3:][i + 1:]:
                    if len(x) * len(x) + len(y) * len(y) <= 200:
                        sq.append(nm.padd(self.norm.pmul(x, x), self.norm.pmul(y, y)))
            r.extend(out + [p for p in sq if p])
        return r

    def is_zero_poly(self, p):
        """p is a multiple of a known zero polynomial"""
        for z in self.zero_polys():
            if len(z) == len(p) and set(z) == set(p):
                m = next(iter(z))
                k = p[m] / z[m]
                if all(p[x] == k * z[x] for x in z):
                    return True
        return False

    def reduces_by_facts(self, p):
        zs = self.zero_polys()
        for _ in range(6):
            if not p:
                return True
            for z in zs:
                if set(z) <= set(p):
                    m = next(iter(z))
                    p = nm.padd(p, nm.pscale(z, -p[m] / z[m]))
                    break
            else:
                return False
        return not p

    def use_sum_facts(self, p):
        """facts of the form  sum = value  as rewriting rules for the sum atoms of p"""
        N = self.norm
        if not any(N.atoms[a][0] == "sum" for m in p for a, e in m):
            return p
        for f in self.facts:
            if f.op != "eq" or not any(x.op == "sum" for x in f.args):
                continue
            q = N.normal(sub(f.args[0], f.args[1]))
            lead = [(m, c) for m, c in q.items() if len(m) == 1 and m[0][1] == 1 and N.atoms[m[0][0]][0] == "sum"]
            if len(lead) != 1:
                continue
            m0, c0 = lead[0]
            a0 = m0[0][0]
            if any(a == a0 for m in q if m != m0 for a, e in m) or not any(a == a0 for m in p for a, e in m):
                continue
            val_ = {m: -c / c0 for m, c in q.items() if m != m0}
            out = {}
            for m, c in p.items():
                e0 = dict(m).get(a0, 0)
                if e0 == 0 or not isinstance(e0, Fraction) or e0.denominator != 1 or e0 < 0:
                    out = nm.padd(out, {m: c})
                    continue
                r = {tuple(x for x in m if x[0] != a0): c}
                for _ in range(int(e0)):
                    r = N.pmul(r, val_)
                out = nm.padd(out, r)
            p = N.reduce(out)
        return p

    def clear_denominators(self, p):
        N = self.norm
        for _ in range(12):
            low = {}
            for m in p:
                for a, e in m:
                    if isinstance(e, Fraction) and e < 0:
                        low[a] = min(low.get(a, 0), e)
            # symbolic exponents: compare with the minimum numeric offset only
            if not low:
                return p
            k = tuple(sorted(((a, -e) for a, e in low.items()), key=lambda ae: ae[0]))
            q = {}
            for m, c in p.items():
                kk, mm = N.mmul(m, k)
                v = q.get(mm, 0) + c * kk
                if v == 0:
                    q.pop(mm, None)
                else:
                    q[mm] = v
            p = N.reduce(q)
            if not p:
                return p
            # reduction may have introduced new negative exponents through expansion: iterate
        return p

    def sum_atoms(self, m):
        return [(a, e) for a, e in m if self.norm.atoms[a][0] == "sum"]

    def prove_sums(self, p, depth):
        """p linear in bounded sums: merge the sums over equal domains and prove the summand zero pointwise"""
        if depth > 6:
            return False
        lin = []
        for m, c in p.items():
            s = self.sum_atoms(m)
            if len(s) != 1 or s[0][1] != Fraction(1):
                return False
            a = s[0][0]
            rest = tuple(x for x in m if x[0] != a)
            lin.append((self.norm.atoms[a][2], self.norm.to_term({rest: c})))
        if not lin:
            return False
        groups = []
        for s, coef in lin:
            for g in groups:
                if self.same_domain(g[0], s):
                    g[1].append((s, coef))
                    break
            else:
                groups.append((s, [(s, coef)]))
        for rep, members in groups:
            xs, los, his, filt, body = tm.open_binder(rep)
            pred = tm.binder_pred(xs, los, his, filt)
            tot = []
            for s, coef in members:
                b = tm.open_binder(s, xs)[4]
                tot.append(mul(coef, b))
            body = add(*tot)
            if not self.child([pred]).prove_zero(body, depth + 1):
                return False
        return True

    def unify_sums(self, t):
        """sums over differently written but equal index sets are rewritten over one of them"""
        sums = [s for s in tm.subterms(t, into_binders=False) if s.op == "sum" and not any(v.args[0].startswith("#") for v in free_vars(s))]
        doms, m = [], {}
        for s in sorted(sums, key=lambda x: (tm.size(x.args[2]), x.id)):
            n = s.args[0]
            key = (n,) + s.args[1:2] + s.args[2:2 + 2 * n + 1]
            for d in doms:
                r = d[0]
                if r.args[0] != n or r.args[1:2] + r.args[2:2 + 2 * n + 1] == key[1:]:
                    continue
                if self.same_domain(r, s):
                    xs, los, his, filt, _ = tm.open_binder(r)
                    m[s] = tm.binder("sum", xs, los, his, filt, tm.open_binder(s, xs)[4])
                    break
            else:
                doms.append((s,))
        return subst(t, m) if m else t

    def singleton_sums(self, t):
        """a sum whose index set is one known index is its summand there"""
        t = self.resolve_ites(t)
        sums = [s for s in tm.subterms(t, into_binders=False) if s.op == "sum" and s.args[0] <= 2 and
                not any(v.args[0].startswith("#") for v in free_vars(s))]
        if not sums:
            return t
        cands = sorted({v for f in self.facts + [t] for v in free_vars(f) if v.sort == "I" and not v.args[0].startswith("#")}, key=lambda v: -v.id)[:6]
        m = {}
        for s in sums:
            xs, los, his, filt, body = tm.open_binder(s)
            pred = tm.binder_pred(xs, los, his, filt)
            combos = [()]
            for _ in xs:
                combos = [c + (k,) for c in combos for k in cands]
            for cb in combos[:12]:
                sub_ = dict(zip(xs, cb))
                if self.proves(subst(pred, sub_)) and self.child([pred]).proves(and_(*[eq(x, k) for x, k in zip(xs, cb)])):
                    m[s] = subst(body, sub_)
                    break
        return subst(t, m) if m else t

    def telescope(self, t):
        """sums over rectangles of separable summands become products, f(x + c) is summed over shifted bounds:
        sum_{lo<=x<hi} f(x+c) = sum_{lo<=x<hi} f(x) + sum_{k<c} f(hi+k) - f(lo+k)  for lo <= hi"""
        try:
            p = self.norm.normal(self.resolve_ites(self.apply_rewrites(t)))
        except (nm.TooBig, Unsupported):
            return t
        out, changed = [], False
        for m, c in p.items():
            fs = [num(c)]
            for a, e in m:
                kind, payload, term = self.norm.atoms[a]
                r = self.telescope_sum(term) if kind == "sum" and e == 1 and term is not None else None
                if r is None:
                    fs.append(self.norm.to_term({((a, e),): Fraction(1)}))
                else:
                    changed = True
                    fs.append(r)
            out.append(mul(*fs))
        return add(*out) if changed else t

    def telescope_sum(self, s):
        xs, los, his, filt, body = tm.open_binder(s)
        if filt is not TRUE or any(_occurs(x, b) for x in xs for b in los + his):
            return None
        fs = list(body.args) if body.op == "mul" else [body]
        per, out = {x: [] for x in xs}, []
        for f in fs:
            ms = [x for x in xs if _occurs(x, f)]
            if len(ms) > 1:
                return None
            (per[ms[0]] if ms else out).append(f)
        done = len(xs) > 1
        for x, lo, hi in zip(xs, los, his):
            b = mul(num(1, "R"), *per[x])
            offs = set()

            def walk(t):
                if t is x:
                    offs.add(0)
                elif t.op == "add" and x in t.args:
                    rest = [a for a in t.args if a is not x]
                    if len(rest) == 1 and rest[0].op == "num":
                        offs.add(int(val(rest[0])))
                    else:
                        offs.add(None)
                else:
                    for a in t.args:
                        if isinstance(a, T):
                            walk(a)
            walk(b)
            c = offs.pop() if len(offs) == 1 else 0
            if c and 0 < c <= 4 and not any(u.op in tm.BINDERS for u in tm.subterms(b)) and self.proves(le(lo, hi)):
                f = subst(b, {x: sub(x, num(c))})
                r = tm.binder("sum", (x,), (lo,), (hi,), TRUE, f)
                r = add(r, *[sub(subst(f, {x: add(hi, num(k))}), subst(f, {x: add(lo, num(k))})) for k in range(c)])
                done = True
            else:
                r = tm.binder("sum", (x,), (lo,), (hi,), TRUE, b)
            out.append(r)
        return mul(*out) if done else None

    def same_domain(self, s, t):
        if s.args[0] != t.args[0]:
            return False
        xs, los, his, filt, _ = tm.open_binder(s)
        p1 = tm.binder_pred(xs, los, his, filt)
        _, los, his, filt, _ = tm.open_binder(t, xs)
        p2 = tm.binder_pred(xs, los, his, filt)
        if p1 is p2:
            return True
        return self.proves(and_(implies(p1, p2), implies(p2, p1)))

    def same_sum(self, N, t):
        """index of an existing sum atom provably equal to t"""
        if self.depth() > 3:
            return None
        fp = None
        for i, (kind, payload, term) in enumerate(N.atoms):
            if kind != "sum" or term is None or term.args[0] != t.args[0] or term is t:
                continue
            if fp is None:
                fp = self.fingerprint(t)
            f2 = self.fingerprint(term)
            if any(x is not None and y is not None and abs(x - y) > 1e-7 * max(1e-9, abs(x), abs(y)) for x, y in zip(fp, f2)):
                continue
            if not self.same_domain(term, t):
                continue
            xs, los, his, filt, b1 = tm.open_binder(term)
            b2 = tm.open_binder(t, xs)[4]
            if self.child([tm.binder_pred(xs, los, his, filt)]).prove_zero(sub(b1, b2), 8):
                return i
        return None

    def depth(self):
        n, p = 0, self
        while p.parent is not None:
            n, p = n + 1, p.parent
        return n

    # ---------------------------------------------------------------- goals
    def prove(self, g, depth=0):
        """True / False(not proved)"""
        check_deadline()
        if g is TRUE:
            return True
        if g.op == "and":
            return all(self.prove(x, depth) for x in g.args)
        if g.op == "forall":
            xs, los, his, filt, body = tm.open_binder(g)
            return self.child([tm.binder_pred(xs, los, his, filt)]).prove(body, depth + 1)
        if g.op == "eq" and g.args[0].sort in "IR":
            d = sub(g.args[0], g.args[1])
            d = self.unify_sums(d)
            if self.prove_zero(d):
                return True
            if self.proves(g):
                return True
            d2 = self.singleton_sums(d)
            if d2 is not d and self.prove_zero(d2):
                return True
            d2 = self.telescope(d)
            return d2 is not d and self.prove_zero(d2)
        if g.op == "exists":
            if self.proves(g, True):
                return True
            n = g.args[0]
            ws = {}
            for f in [g] + self.facts:
                for x in tm.subterms(f):
                    if x.op == "app" and x.args[0].startswith("argm_") and x.args[1].op == "num" and x.args[2].op == "num" and val(x.args[2]) == 0:
                        ws.setdefault(x.args[0], {})[int(val(x.args[1]))] = x
            for w in ws.values():
                if len(w) == n and depth < 3:
                    xs, los, his, filt, body = tm.open_binder(g, tuple(w[i] for i in range(n)))
                    if self.proves(tm.binder_pred(xs, los, his, filt), True) and self.prove(body, depth + 1):
                        return True
            return self.proves(g)
        if g.op == "or":
            # p -> q  in the shape  not p or q
            if self.proves(g):
                return True
            for i, x in enumerate(g.args):
                rest = [not_(y) for j, y in enumerate(g.args) if j != i]
                if x.op in ("eq", "and", "forall", "le", "lt") and self.child(rest).prove(x, depth + 1):
                    return True
            return False
        if g.op in ("le", "lt"):
            d = sub(g.args[1], g.args[0])
            if g.op == "lt" and self.is_positive(d):
                return True
            if g.op == "le" and self.is_nonneg(d):
                return True
            try:
                d2 = self.norm.to_term(self.norm.normal(d))
                if (g.op == "lt" and self.is_positive(d2)) or (g.op == "le" and self.is_nonneg(d2)):
                    return True
            except (nm.TooBig, Unsupported):
                pass
        return self.proves(g)

    def contradicted(self, g, n=2):
        """cross-check of a proved goal: a model of the facts, among a few, in which it is false"""
        if g.op == "eq" and g.args[0].sort in "IR":
            return self.refute_zero(sub(g.args[0], g.args[1]), n)
        for m in self.models(n):
            try:
                if m.ev(g):
                    continue
                if g.op in ("le", "lt") and m.ev(sub(g.args[0], g.args[1])) <= 1e-9 * (1 + abs(m.ev(g.args[0]))):
                    continue
            except Exception:
                continue
            if any(s.sort == "R" and s.op in ("eq", "le", "lt") for s in tm.subterms(g)) and g.op not in ("le", "lt"):
                continue                # rounding may be the reason
            return m, False
        return None

    def refute(self, g, n=4):
        """a model of the facts in which g is false"""
        if g.op == "eq" and g.args[0].sort in "IR":
            return self.refute_zero(sub(g.args[0], g.args[1]), n, deep=True)
        try:
            ms = self.models(n, extra=[not_(g)])
        except Unsupported:
            return None
        for m in ms:
            if g.op == "le" or g.op == "lt":
                try:
                    d = m.ev(sub(g.args[0], g.args[1]))
                    if d <= 1e-9 * (1 + abs(m.ev(g.args[0]))):
                        continue
                except numeric.Undefined:
                    continue
            return m, False
        return None


def clearly(m, t):
    """the truth value of t in a model; None where rounding could decide"""
    op, a = t.op, t.args
    if op == "not":
        r = clearly(m, a[0])
        return None if r is None else not r
    if op in ("and", "or"):
        rs = [clearly(m, x) for x in a]
        stop = op == "or"
        return stop if stop in rs else (None if None in rs else not stop)
    if op in ("eq", "le", "lt") and "R" in (a[0].sort, a[1].sort):
        x, y = m.ev(a[0]), m.ev(a[1])
        if abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y)):
            return None
        return False if op == "eq" else x < y
    if op in tm.BINDERS and any(s.op in ("eq", "le", "lt") and "R" in (s.args[0].sort, s.args[1].sort) for s in tm.subterms(t)):
        return None
    return m.ev(t)


def _occurs(u, v):
    return any(s is u for s in tm.subterms(v))
