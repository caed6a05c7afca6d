"""Contracts: a unit states requires / ensures / frame clauses for functions of /repo and the engine discharges them.

A unit is a python function unit(v).  It introduces generic arguments (v.int, v.real, v.array, ...), assumes
the preconditions (v.require), executes the real source of the function under contract on them (v.run) and
states postconditions for every path of the execution (v.check...).  Each check is one proof obligation.
"""
import contextlib
import time
import traceback

from terms import *
import terms as tm
from values import *
import solve
import numeric
import loops
from interp import Interp, Path, Infeasible

PKG = "starwinds_magnetogram"
UNITS = []


class U:
    def __init__(self, name, props, funcs, fn, cost, bounded):
        self.name, self.props, self.funcs, self.fn, self.cost, self.bounded = name, props, funcs, fn, cost, bounded


def unit(name, props, funcs, cost=1, bounded=None):
    """props: properties the unit's obligations belong to; funcs: functions whose source is executed under contract;
    bounded: text of a bound when the unit covers only bounded instances"""
    def deco(fn):
        UNITS.append(U(name, props.split(), funcs.split(), fn, cost, bounded))
        return fn
    return deco


class V:
    def __init__(self, repo, u, tier="quick"):
        self.u = u
        self.tier = tier
        self.it = Interp(repo, PKG, {})
        self.it.violations = []
        self.obs = []
        self.assumptions = set()
        self.frame = {}
        self.effects = []
        self.script, self.taken = [], []
        self.props = list(u.props)
        self.n = 0
        for m in sorted({f.split(":")[0] for f in u.funcs}):
            try:
                self.mod(m)
            except (Unsupported, PyRaise):
                pass

    # ------------------------------------------------------------ generic arguments
    def mod(self, name):
        return self.it.module(PKG + "." + name)

    def fn(self, dotted):
        """'coefficients:Coefficients.get'"""
        return self.it.get(PKG + "." + dotted)

    def int(self, name):
        return var(name, "I")

    def real(self, name, sampler=None):
        if sampler:
            self.it.samplers[name] = sampler
        return var(name, "R")

    def dim(self, name, lo=1):
        n = var(name, "I")
        self.it.samplers.setdefault(name, lambda r: r.randint(max(lo, 0), max(lo, 0) + 3))
        self.require(ge(n, num(lo)))
        return n

    def axis(self, n):
        return Axis(range_dom(n if isinstance(n, T) else num(n)))

    def pack(self, name):
        p = Pack(name)
        self.it.samplers.setdefault(name + ".size", lambda r: r.randint(1, 4))
        self.require(ge(p.size, ONE))
        return Axis(p.dom, True)

    def array(self, name, axes, dtype="float", sampler=None, fn=None):
        """an array with unconstrained elements"""
        it = self.it
        axes = tuple(a if isinstance(a, Axis) else self.axis(a) for a in axes)
        if sampler:
            it.samplers[name] = sampler

        def elem(labels):
            a = tuple(t for l in labels for t in l)
            if fn is not None:
                return fn(*a)
            if dtype == "complex":
                return Cx(app(name + ".re", a, "R") if a else var(name + ".re", "R"), app(name + ".im", a, "R") if a else var(name + ".im", "R"))
            s = {"bool": "B", "int": "I"}.get(dtype, "R")
            return app(name, a, s) if a else var(name, s)
        r = it.np.new(axes, elem, dtype)
        r.label = name
        return r

    def arr_of(self, axes, fn, dtype="float"):
        """an array with given elements fn(flat labels)"""
        return self.array("?", axes, dtype, fn=fn)

    def require(self, *cs):
        for c in cs:
            self.it.assume(c if isinstance(c, T) else boolean(bool(c)))

    def ghost(self, name, *args, sort="R"):
        return app(name, args, sort) if args else var(name, sort)

    # ------------------------------------------------------------ execution
    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.fn(f)
        return self.it.call(f, list(args), kw)

    def method(self, o, name, *args, **kw):
        return self.it.call(self.it.getattr(o, name), list(args), kw)

    def attr(self, o, name):
        return self.it.getattr(o, name)

    def build(self, thunk):
        """run a construction and keep its state; with several paths the unit is judged once for each of them"""
        ps = []
        for p in self.it.explore(thunk):
            if p.kind == "raise":
                with self.at(p):
                    self.check("construction: no %s" % p.value.etype, FALSE, detail=str(p.value))
            else:
                ps.append(p)
        if not ps:
            raise Infeasible("no construction succeeds")
        p = ps[self.choose(len(ps))]
        for cid, c in self.it.heap.items():
            now = p.heap.get(cid)
            if now is not c and isinstance(c, AData):
                self.effects.append((p, cid, c, now))
        self.adopt(p)
        return p.value

    def choose(self, n):
        """which of n cases this execution of the unit judges (run_unit executes it for all)"""
        if n == 1:
            return 0
        k = len(self.taken)
        c = self.script[k] if k < len(self.script) else 0
        self.taken.append((c, n))
        return c

    def adopt(self, p):
        self.it.heap = dict(p.heap)
        self.it.pc = p.pc

    def freeze(self):
        """everything reachable now belongs to the caller: later changes are frame violations"""
        self.frame = dict(self.it.heap)

    def run(self, thunk, name="call", raises=None):
        """paths of the execution; unexpected exceptions become failed obligations.
        raises: {etype: condition under which it must be raised}"""
        it = self.it
        self.freeze()
        before = len(it.violations)
        ps = it.explore(thunk)
        out = []
        for p in ps:
            if p.kind == "raise":
                want = None
                for et in (raises or {}):
                    if it.exc_match(p.value.etype, et):
                        want = raises[et]
                        break
                with self.at(p):
                    if want is None:
                        self.check("%s: no %s" % (name, p.value.etype), FALSE, detail=str(p.value))
                    else:
                        self.check("%s: %s only when allowed" % (name, p.value.etype), want)
                        self.unchanged(name + ": refused call changes nothing")
            else:
                out.append(p)
        for v in it.violations[before:]:
            self.record("%s: %s" % (name, v), "refuted", detail=v, props=None)
        del it.violations[before:]
        for et, c in (raises or {}).items():
            for p in out:
                with self.at(p):
                    self.check("%s: returns only when allowed" % name, not_(c))
        return out

    @contextlib.contextmanager
    def at(self, p, *extra):
        it = self.it
        saved = it.snapshot()
        it.heap, it.pc = dict(p.heap), p.pc
        if extra:
            it.pc = it.pc.child(list(extra))
        try:
            yield p
        finally:
            it.restore(saved)

    @contextlib.contextmanager
    def given(self, *cs):
        it = self.it
        saved = it.pc
        it.pc = it.pc.child([c for c in cs if c is not TRUE])
        try:
            yield
        finally:
            it.pc = saved

    def each(self, thunk, name="call", raises=None):
        for p in self.run(thunk, name, raises):
            with self.at(p):
                yield p.value

    def value(self, thunk):
        """observer: the value on all paths merged (the state here stays; what the paths change is judged by unchanged)"""
        return self.it.merged(thunk, self.effects)

    # ------------------------------------------------------------ obligations
    def record(self, name, status, detail="", props=None, hints=()):
        self.n += 1
        self.obs.append({"unit": self.u.name, "name": name, "status": status, "detail": detail[:600],
                         "props": list(props if props is not None else self.props), "hints": list(hints)[:40],
                         "abstract": False})

    def check(self, name, goal, detail="", props=None):
        if not isinstance(goal, T):
            goal = boolean(bool(goal))
        pc = self.it.pc
        t0 = time.time()
        if goal is FALSE:
            if pc.inconsistent():
                return self.record(name, "proved", "", props)
            ms = self.safe_models(pc)
            if ms:
                return self.record(name, "refuted", detail + " path reachable: " + self.show_model(ms[0], pc), props, self.hint(ms[0]))
            return self.record(name, "unknown", detail + " path not shown unreachable", props)
        try:
            ok = pc.prove(goal)
        except Unsupported as e:
            ok = False
        if ok:
            bad = None
            try:
                bad = pc.contradicted(goal, 2)
            except (Unsupported, Exception) as e:
                if isinstance(e, solve.Deadline):
                    raise
            if bad is not None:
                return self.record(name, "unknown", "prover and evaluator disagree on " + tm.show(goal)[:300], props)
            return self.record(name, "proved", "%.2fs" % (time.time() - t0), props)
        try:
            bad = pc.refute(goal)
        except Unsupported:
            bad = None
        if bad is not None:
            return self.record(name, "refuted", (detail + " goal " + tm.show(goal)[:240] + " fails for " + self.show_model(bad[0], pc)).strip(), props, self.hint(bad[0]))
        self.record(name, "unknown", detail + " not proved: " + tm.show(goal)[:400], props)

    def safe_models(self, pc):
        try:
            return pc.models(1)
        except Unsupported:
            return []

    def show_model(self, m, pc):
        out = []
        for k, v in list(getattr(m, "memo_vars", lambda: {})().items())[:12] if hasattr(m, "memo_vars") else []:
            out.append("%s=%s" % (k, v))
        if not out:
            seen = {}
            for f in pc.facts:
                for s in free_vars(f):
                    if s.op == "var" and not s.args[0].startswith(("#", "pi")):
                        try:
                            seen[s.args[0]] = m.ev(s)
                        except Exception:
                            pass
            out = ["%s=%s" % (k, ("%.4g" % v) if isinstance(v, float) else v) for k, v in list(seen.items())[:12]]
        return "{" + ", ".join(out) + "}"

    def hint(self, m):
        out = []
        for f in self.it.pc.facts:
            for s in free_vars(f):
                if s.op == "var" and s.sort == "I" and not s.args[0].startswith("#"):
                    try:
                        k = int(m.ev(s))
                        if 0 <= abs(k) <= 30 and k not in out:
                            out.append(k)
                    except Exception:
                        pass
        return out

    def check_eq(self, name, a, b, props=None):
        it = self.it
        a, b = it.np.item(a), it.np.item(b)
        if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
            a, b = it.cx(a), it.cx(b)
            self.check(name + " (real part)", eq(a.re, b.re), props=props)
            self.check(name + " (imaginary part)", eq(a.im, b.im), props=props)
            return
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return self.check(name, a == b, props=props)
        a, b = it.t(a), it.t(b)
        if (a.sort == "B") != (b.sort == "B"):
            a, b = it.as_num(a), it.as_num(b)
        self.check(name, eq(a, b), props=props)

    def check_arr(self, name, arr, axes, fn, props=None, dtype=None, where=None):
        """shape and every element: fn(*flat labels)"""
        it = self.it
        if not isinstance(arr, Arr):
            if it.is_scalar(arr) and not axes:
                return self.check_eq(name, arr, fn(), props)
            return self.record(name + ": is an array", "refuted", "got %s" % type(arr).__name__, props)
        axes = tuple(a if isinstance(a, Axis) else self.axis(a) for a in axes)
        if len(axes) != len(arr.axes):
            # a shape of unknown rank cannot be compared with another rank reliably
            return self.record(name + ": rank", "refuted" if not any(a.pack for a in axes + arr.axes) else "unknown", "rank %d, expected %d" % (len(arr.axes), len(axes)), props)
        for k, (x, y) in enumerate(zip(arr.axes, axes)):
            if x is y or it.np.same_axis(x, y):
                continue
            if x.pack or y.pack:
                return self.record(name + ": shape", "unknown", "", props)
            self.check(name + ": length of axis %d" % k, eq(x.dom.size(), y.dom.size()), props=props)
            if x.dom.kind != "range" or y.dom.kind != "range":
                return self.record(name + ": index set of axis %d" % k, "unknown", "", props)
        labels = tuple((a.dom.los[0],) if a.dom.const_size() == 1 else a.dom.fresh("i") for a in axes)
        pred = and_(*[a.dom.pred(l) for a, l in zip(axes, labels)])
        with self.given(pred, *([where(*[t for l in labels for t in l])] if where else [])):
            self.check_eq(name, arr.elem()(labels), fn(*[t for l in labels for t in l]), props)
        if dtype is not None:
            self.check(name + ": dtype", arr.dtype == dtype, props=props)

    def unchanged(self, name="caller's data unchanged", allow=(), props=None):
        """every cell that existed before the call is bit-for-bit the same"""
        it = self.it
        props = props if props is not None else self.props
        allow = {getattr(a, "cid", a) for a in allow}
        effects, self.effects = self.effects, []
        changed = [(None, cid, c, it.heap.get(cid)) for cid, c in self.frame.items()]
        changed += [e for e in effects if e[1] in self.frame or isinstance(e[2], AData)]
        module_cells = {e.cid for e in it.modules.values()}
        bad = []
        for p, cid, c, now in changed:
            if now is c or cid in allow or cid in module_cells:
                continue
            if isinstance(c, AData) and isinstance(now, AData) and self.same_data(c, now):
                continue
            if isinstance(c, dict) and isinstance(now, dict) and cid in it.name_cells and all(k in now and self.same_value(now[k], c[k]) for k in c):
                # new attributes (caches) do not change what was there
                continue
            bad.append((p, cid, c, now))
        if not bad:
            return self.record(name, "proved", props=props)
        arrays = [(p, c, now) for p, _, c, now in bad if isinstance(c, AData) and isinstance(now, AData)]
        if arrays:
            for p, a, b in arrays:
                g = tuple(ax.dom.fresh("i") for ax in a.axes)
                pc = it.pc
                try:
                    if p is not None:
                        it.pc = p.pc
                    with self.given(*[ax.dom.pred(l) for ax, l in zip(a.axes, g)]):
                        self.check_eq(name + " (array element)", b.fn(g), a.fn(g), props)
                finally:
                    it.pc = pc
            return
        self.record(name, "unknown", "cells %s changed: %s" % ([b[1] for b in bad], [type(b[2]).__name__ for b in bad]), props)

    def observed(self):
        """what observers and constructors did to arrays, where no frame clause looked at it"""
        if any(isinstance(e[2], AData) for e in self.effects) and "S26" in self.props:
            self.frame, self.effects = {}, [e for e in self.effects if isinstance(e[2], AData)]
            self.unchanged("data given to observers unchanged", props=["S26"])

    def same_data(self, a, b):
        if len(a.axes) != len(b.axes):
            return False
        g = tuple(ax.dom.fresh("i") for ax in a.axes)
        x, y = a.fn(g), b.fn(g)
        if isinstance(x, Cx) and isinstance(y, Cx):
            return x.re is y.re and x.im is y.im
        return x is y

    def same_value(self, a, b):
        if a is b:
            return True
        if self.it.is_scalar(a) and self.it.is_scalar(b) and not isinstance(a, Cx) and not isinstance(b, Cx):
            try:
                return self.it.t(a) is self.it.t(b)
            except Unsupported:
                return False
        if isinstance(a, (Arr, Obj, ListRef, DictRef)) and type(a) is type(b):
            return a.cid == b.cid
        return type(a) is type(b) and isinstance(a, (str, tuple)) and a == b

    def fresh_result(self, v, name="result shares no storage with the arguments", props=None):
        """no array cell of the caller is reachable from the value"""
        bad = []
        for a in self.reach(v, set()):
            if a in self.frame and isinstance(self.frame[a], AData) or a in self.it.family_cells and a not in self.it.own_cells:
                bad.append(a)
        self.record(name, "refuted" if bad else "proved", "shares cell %s" % bad if bad else "", props)

    def reach(self, v, seen):
        it = self.it
        if isinstance(v, Arr):
            yield v.cid
        elif isinstance(v, (tuple, list)):
            for x in v:
                yield from self.reach(x, seen)
        elif isinstance(v, Member):
            yield from self.reach(v.family.template, seen)
        elif isinstance(v, (ListRef, DictRef, Obj)):
            if v.cid in seen:
                return
            seen.add(v.cid)
            c = it.heap.get(v.cid)
            if isinstance(c, dict):
                for x in c.values():
                    yield from self.reach(x, seen)
            elif isinstance(c, tuple):
                for s in c:
                    yield from self.reach(s[1] if s[0] == "one" else s[1].fn(s[1].dom.fresh("s")), seen)

    def canary(self):
        """the facts of the unit must be satisfiable: a false obligation has to fail"""
        ms = self.safe_models(self.it.pc)
        return bool(ms) or not self.it.pc.inconsistent()

    # ------------------------------------------------------------ coefficient sets
    def coeffs(self, name, width=1, default=None, dtype="complex", lmin=0, nonneg=False, nonempty=False, mul_has=None):
        """a Coefficients object with arbitrary contents, built by running the class in /repo:
        append() for every key of an arbitrary finite set of (degree, order) pairs"""
        it = self.it
        L = var(name + ".L", "I")
        it.samplers.setdefault(name + ".L", lambda r: r.randint(1 if nonempty else 0, 4))
        self.require(ge(L, ONE if nonempty else ZERO))
        w = width if isinstance(width, T) else num(width)
        ax = self.axis(w)
        g = CoeffGhost(self, name, L, ax, dtype, lmin, nonneg)
        if default is None:
            zero = Cx(ZERO, ZERO) if dtype == "complex" else num(0, "R")
            darr = self.arr_of([ax], lambda k: zero, dtype)
        else:
            darr = default
        g.obj = self.build(lambda: self.fill(g, darr, ax, dtype))
        if nonempty:
            l0, m0 = var(name + ".l0", "I"), var(name + ".m0", "I")
            self.require(g.dom.pred((l0, m0)))
        return g


    def family(self, name, n, dtype="complex"):
        """n coefficient sets with one component each and arbitrary contents (n symbolic); .list is the python list of them"""
        it = self.it
        fam = CoeffFamily(self, name, n, dtype)
        i = fam.i
        it.samplers.setdefault(name + ".L", lambda r: r.randint(0, 3))
        ax = self.axis(ONE)

        class G:
            pass
        g = G()
        g.dom = fam.dom(i)
        g.at = lambda l, m, k: fam.at(i, l, m)
        zero = Cx(ZERO, ZERO) if dtype == "complex" else num(0, "R")
        fam.live = False
        fam.template = self.build(lambda: self.fill(g, self.arr_of([ax], lambda k: zero, dtype), ax, dtype))
        fam.list = it.new_list((("seq", Seq(range_dom(n), lambda ls: fam.member(ls[0]))),))
        return fam

    def fill(self, g, darr, ax, dtype):
        """the object obtained by appending every pair of g.dom with its value"""
        it = self.it
        o = it.call(self.fn("coefficients:Coefficients"), [darr], {})
        box = {}

        def bind(v):
            box["v"] = v

        def body():
            l, m = box["v"]
            data = it.np.new((ax,), lambda labels: g.at(l, m, labels[0][0]), dtype)
            self.method(o, "append", l, m, data)
        loops.summarise(it, Seq(g.dom, lambda ls: ls), bind, body, None)
        return o


class CoeffFamily(loops.Family):
    """n generic coefficient sets"""
    def __init__(self, v, name, n, dtype):
        loops.Family.__init__(self, v.it, None, fresh("i", "I"), range_dom(n))
        self.v, self.name, self.n, self.dtype = v, name, n, dtype

    def dom(self, i):
        l, m = var("kl$", "I"), var("km$", "I")
        return Dom((l, m), (ZERO, neg(l)), (app(self.name + ".L", (i,), "I"), add(l, ONE)), app(self.name + ".has", (i, l, m), "B"), "keys", "lex")

    def has(self, i, l, m):
        return self.dom(i).pred((l, m))

    def at(self, i, l, m):
        if self.dtype == "complex":
            return Cx(app(self.name + ".re", (i, l, m), "R"), app(self.name + ".im", (i, l, m), "R"))
        return app(self.name, (i, l, m), "R")

    def get(self, i, l, m):
        h, x = self.has(i, l, m), self.at(i, l, m)
        return Cx(ite(h, x.re, ZERO), ite(h, x.im, ZERO)) if isinstance(x, Cx) else ite(h, x, ZERO)


class CoeffGhost:
    """the mathematical value of a generic coefficient set"""
    def __init__(self, v, name, L, ax, dtype, lmin, nonneg):
        self.v, self.name, self.L, self.ax, self.dtype = v, name, L, ax, dtype
        l, m = var("kl$", "I"), var("km$", "I")
        lo = ZERO if nonneg else neg(l)
        self.dom = Dom((l, m), (num(lmin), lo), (L, add(l, ONE)), app(name + ".has", (l, m), "B"), "keys", "lex")

    def has(self, l, m):
        return self.dom.pred((l, m))

    def at(self, l, m, k=ZERO):
        n = self.name
        if self.dtype == "complex":
            return Cx(app(n + ".re", (l, m, k), "R"), app(n + ".im", (l, m, k), "R"))
        return app(n, (l, m, k), {"bool": "B", "int": "I"}.get(self.dtype, "R"))

    def get(self, l, m, k=ZERO):
        """stored value or zero"""
        h = self.has(l, m)
        z = ZERO
        x = self.at(l, m, k)
        if isinstance(x, Cx):
            return Cx(ite(h, x.re, z), ite(h, x.im, z))
        return ite(h, x, z)


def run_unit(repo, u, tier="quick", limit=60):
    """-> (observations, info)"""
    solve.DEADLINE[0] = time.time() + limit
    t0 = time.time()
    todo, err, canary, v, obs, n = [[]], None, True, None, [], 0
    info = {"inlined": set(), "used": set(), "assumptions": set()}
    try:
        while todo and err is None:
            n += 1
            script = todo.pop()
            v = V(repo, u, tier)
            v.script = script
            try:
                u.fn(v)
                v.observed()
                ok = v.canary()
                if not ok:
                    v.record("requires clause is satisfiable", "unknown", "the assumptions of the contract are inconsistent")
                canary = canary and ok
                if n > 24:
                    raise Unsupported("too many cases of construction")
                for k in range(len(script), len(v.taken)):
                    todo += [[c for c, _ in v.taken[:k]] + [x] for x in range(1, v.taken[k][1])]
            except (Unsupported, PyRaise, Infeasible) as e:
                err = "%s: %s" % (type(e).__name__, e)
            except solve.Deadline:
                err = "time limit"
            except RecursionError:
                err = "recursion limit"
            except Exception as e:
                err = "engine error: " + traceback.format_exc()[-700:]
            if err is not None:
                canary = False
                v.record("unit completes", "unknown", err)
            obs += v.obs
            info["inlined"] |= set(v.it.inlined)
            info["used"] |= set(v.it.used_contracts)
            info["assumptions"] |= set(v.assumptions)
    finally:
        solve.DEADLINE[0] = None
    v.obs = obs
    return v, {"error": err, "seconds": time.time() - t0, "inlined": sorted(info["inlined"]), "used": sorted(info["used"]),
               "canary": int(canary), "assumptions": sorted(info["assumptions"])}


def _np_array(self, items, dtype):
    return self.it.np.asarray(self.it.list_of(items))


V.call_np_array = _np_array
