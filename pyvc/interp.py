"""Symbolic interpreter for the Python source in /repo (parsed afresh on every run).

Calls are inlined, or replaced by the callee's contract once that contract has been verified.
Branches on symbolic conditions fork; loops over symbolic index sets are summarised by an inferred
invariant that is checked on a generic iteration; anything else raises Unsupported.
"""
import ast
import builtins as _builtins
import os
from fractions import Fraction

from terms import *
import terms as tm
from values import *
import solve
from solve import Prover

EXC = {
    "IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception", "ValueError": "Exception",
    "TypeError": "Exception", "AssertionError": "Exception", "AttributeError": "Exception", "NameError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "OSError": "Exception",
    "FileNotFoundError": "OSError", "FileExistsError": "OSError", "NotImplementedError": "RuntimeError",
    "RuntimeError": "Exception", "StopIteration": "Exception", "Exception": "BaseException", "BaseException": None,
    "UnicodeDecodeError": "ValueError",
}
RANK = {"bool": 0, "int": 1, "float": 2, "complex": 3}


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Infeasible(Exception):
    pass


class Path:
    def __init__(self, conds, facts, kind, value, heap):
        self.conds, self.facts, self.kind, self.value, self.heap = conds, facts, kind, value, heap

    def cond(self):
        return and_(*self.conds)


class Env:
    def __init__(self, it, parent=None, vars_=None):
        self.cid = it.alloc(dict(vars_ or {}))
        it.name_cells.add(self.cid)
        self.parent = parent
        self.global_names = set()
        self.nonlocal_names = set()


class Interp:
    def __init__(self, repo, package="starwinds_magnetogram", samplers=None, facts=()):
        self.repo, self.package = repo, package
        self.samplers = samplers if samplers is not None else {}
        self.heap = {}
        self.name_cells = set()
        self.next = 0
        self.pc = Prover(list(facts), self.samplers)
        self.conds = []               # decisions of the current exploration frame
        self.scripts = []
        self.modules = {}
        self.mod_src = {}
        self.contracts = {}           # qualified name -> callable(it, args, kwargs)
        self.active = []
        self.inline_stack = []
        self.assumptions = set()
        self.map_log = None
        self.shared = {}
        self.violations = []          # definite breaches met while executing (e.g. mutation of a cached value)
        self.family_cells = {}        # cells of generic families of objects: never modified
        self.own_cells = set()        # those of families built by the code under contract
        self.families = []
        self.family_probe = None
        self.family_active = ()
        self.events = None
        self.used_contracts = set()
        self.inlined = set()
        self.steps = 0
        self.calldepth = 0
        import npmod
        self.np = npmod.NP(self)
        self.builtins = self.np.builtins()

    # ------------------------------------------------------------------ state
    def alloc(self, content):
        self.next += 1
        self.heap[self.next] = content
        return self.next

    def assume(self, c):
        if c is TRUE:
            return
        if c is FALSE:
            raise Infeasible
        self.pc = self.pc.child([c])

    def axiom(self, c):
        """a fact that holds on every path (about a term just built)"""
        self.pc = self.pc.child([c])

    def snapshot(self):
        return dict(self.heap), self.pc

    def restore(self, s):
        self.heap, self.pc = dict(s[0]), s[1]

    def decide(self, c):
        """truth of a condition on this path; forks when it is open"""
        if isinstance(c, bool):
            return c
        if not isinstance(c, T):
            return bool(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        d = self.pc.decide_local(c)
        if d is not None:
            return d
        if not self.scripts:
            raise Unsupported("undecided condition outside an exploration: %s" % tm.show(c)[:200])
        sc = self.scripts[-1]
        if sc["pos"] < len(sc["script"]):
            b = sc["script"][sc["pos"]]
        else:
            b = True
            sc["script"].append(True)
        sc["pos"] += 1
        self.conds.append(c if b else not_(c))
        self.assume(c if b else not_(c))
        return b

    def explore(self, thunk, limit=80):
        """run thunk on every path -> list of Path; the state is restored afterwards"""
        base = self.snapshot()
        base_conds = self.conds
        paths, script = [], []
        while True:
            solve.check_deadline()
            self.restore(base)
            self.conds = []
            sc = {"script": list(script), "pos": 0}
            self.scripts.append(sc)
            kind, value = "infeasible", None
            try:
                try:
                    value = thunk()
                    kind = "ok"
                except PyRaise as e:
                    kind, value = "raise", e
                except Return as r:
                    kind, value = "return", r.value
                except Break:
                    kind = "break"
                except Continue:
                    kind = "continue"
                except Infeasible:
                    kind = "infeasible"
            finally:
                self.scripts.pop()
                conds, pc, heap = self.conds, self.pc, self.heap
                for c, x in self.family_cells.items():
                    if c in heap and heap[c] is not x:
                        raise Unsupported("a member of a generic family of objects is modified")
                self.conds = base_conds
                self.restore(base)
            if kind != "infeasible":
                paths.append(Path(conds, pc.facts[len(base[1].facts):], kind, value, heap))
                paths[-1].pc = pc
            s = sc["script"][:sc["pos"]]
            while s and s[-1] is False:
                s.pop()
            if not s:
                break
            s[-1] = False
            script = s
            if len(paths) > limit:
                raise Unsupported("too many paths")
        return paths

    def merged(self, thunk, effects=None):
        """run thunk on all paths and merge the results into one value

        No change to the heap is kept: a path that changes an existing cell is reported in effects, or rejected."""
        base = dict(self.heap)
        ps = self.explore(thunk)
        for p in ps:
            for cid, c in base.items():
                now = p.heap.get(cid)
                if now is not c:
                    if effects is not None:
                        effects.append((p, cid, c, now))
                    elif not (isinstance(c, dict) and cid in self.name_cells and all(now.get(k) is x for k, x in c.items())):
                        raise Unsupported("a function evaluated for every element changes existing data")
        for p in ps:
            if p.kind == "raise":
                raise Unsupported("exception on a merged path: %s" % p.value)
        vals = [(p.conds, self.freeze_from(p)) for p in ps]
        if not vals:
            raise Infeasible
        return self.merge_tree(vals)

    def merge_tree(self, vals, d=0, join=None):
        """merge the values of explored paths along their tree of decisions"""
        join = join or self.ite
        if len(vals) == 1:
            return vals[0][1]

        def chain():
            r = vals[-1][1]
            for c, v in reversed(vals[:-1]):
                r = join(and_(*c[d:]), v, r)
            return r
        if any(len(c) <= d for c, _ in vals):
            return chain()
        c = vals[0][0][d]
        yes = [x for x in vals if x[0][d] is c]
        no = [x for x in vals if x[0][d] is not c]
        if not no:
            return self.merge_tree(vals, d + 1, join)
        if any(x[0][d] is not not_(c) for x in no):
            return chain()
        return join(c, self.merge_tree(yes, d + 1, join), self.merge_tree(no, d + 1, join))

    def freeze_from(self, p):
        """copy the value of a finished path into the current heap"""
        for cid, c in p.heap.items():
            if cid not in self.heap:
                self.heap[cid] = c
        return p.value

    def merge(self, vals):
        if len(vals) == 1:
            return vals[0][1]
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = self.ite(c, v, r)
        return r

    def ite(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.np.elementwise(lambda x, y: self.site(c, x, y), [a, b], None)
        if self.is_scalar(a) and self.is_scalar(b):
            return self.site(c, a, b)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cid == b.cid:
            return a
        if type(a) is type(b) and not isinstance(a, (Obj, ListRef, DictRef)):
            try:
                if a == b:
                    return a
            except Exception:
                pass
        raise Unsupported("cannot merge %r and %r" % (type(a), type(b)))

    def site(self, c, a, b):
        """if-then-else of scalars"""
        if a is b:
            return a
        if isinstance(a, (str, type(None), StrVal)) or isinstance(b, (str, type(None), StrVal)):
            if a == b:
                return a
            raise Unsupported("merge of non-numeric values")
        if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
            a, b = self.cx(a), self.cx(b)
            return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
        a2, b2 = self.t(a), self.t(b)
        if (a2.sort == "B") != (b2.sort == "B"):
            a2, b2 = self.as_num(a2), self.as_num(b2)
        return ite(c, a2, b2)

    # ------------------------------------------------------------------ scalars
    def is_scalar(self, v):
        return isinstance(v, (int, float, complex, bool, T, Cx))

    def t(self, v):
        """real / int / bool term of a scalar"""
        if isinstance(v, T):
            return v
        if isinstance(v, bool):
            return boolean(v)
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, Fraction):
            return num(v)
        if isinstance(v, Cx):
            if v.im.op == "num" and val(v.im) == 0:
                return v.re
            raise Unsupported("complex value where a real one is expected")
        if isinstance(v, complex):
            if v.imag == 0:
                return num(v.real)
        if type(v).__name__ == "RankIdx":
            r = self.np.rank_term(v)
            if r is not None:
                return r
        raise Unsupported("not a number: %r" % (v,))

    def as_num(self, t):
        if t.sort == "B":
            return ite(t, ONE, ZERO)
        return t

    def cx(self, v):
        if isinstance(v, Cx):
            return v
        if isinstance(v, complex):
            return Cx(num(v.real) if v.real != int(v.real) else num(int(v.real)),
                      num(v.imag) if v.imag != int(v.imag) else num(int(v.imag)))
        return Cx(self.as_num(self.t(v)), ZERO)

    def simp(self, v):
        """python number when concrete"""
        return v

    def truth(self, v):
        """T or bool"""
        if isinstance(v, T):
            return v if v.sort == "B" else ne(v, ZERO)
        if isinstance(v, Cx):
            return or_(ne(v.re, ZERO), ne(v.im, ZERO))
        if isinstance(v, Arr):
            if not v.axes:
                return self.truth(v.elem()(()))
            if all(a.const() == 1 for a in v.axes):
                return self.truth(v.elem()(tuple((ZERO,) for _ in v.axes)))
            raise PyRaise("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, ListRef):
            return self.truth_len(v)
        if isinstance(v, DictRef):
            c = self.heap[v.cid]
            if isinstance(c, SymMap):
                return c.dom("lex").binder("exists", lambda xs: TRUE)
            return bool(c)
        if isinstance(v, (Obj, Func, Bound, Builtin, ClassVal, ModRef, Opaque)):
            return True
        if isinstance(v, StrVal):
            return True
        return bool(v)

    def truth_len(self, v):
        n = self.np.len_(v)
        return ne(n, ZERO) if isinstance(n, T) else n > 0

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("use of a loop-local value after its loop")
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.obj_binop(op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op == "MatMult":
                return self.np.matmul(a, b)
            if not isinstance(a, Arr) and isinstance(a, (ListRef, tuple)):
                a = self.np.asarray(a)
            if not isinstance(b, Arr) and isinstance(b, (ListRef, tuple)):
                b = self.np.asarray(b)
            for v in (a, b):
                if not (isinstance(v, Arr) or self.is_scalar(v)):
                    raise PyRaise("TypeError", "bad operand")
            return self.np.elementwise(lambda x, y: self.sbin(op, x, y), [a, b], self.np.bin_dtype(op, a, b))
        if self.is_scalar(a) and self.is_scalar(b):
            return self.sbin(op, a, b)
        if isinstance(a, (str, StrVal)):
            if op == "Mod":
                return self.np.fmt_percent(a, b)
            if op == "Add" and isinstance(b, (str, StrVal)):
                return self.np.sconcat([a, b])
            if op == "Mult" and isinstance(a, str) and isinstance(b, int):
                return a * b
        if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == "Add" and isinstance(a, ListRef) and isinstance(b, ListRef):
            return self.new_list(self.heap[a.cid] + self.heap[b.cid])
        if op == "Mult" and isinstance(b, (tuple, ListRef)):
            a, b = b, a
        if op == "Mult" and isinstance(a, (tuple, ListRef)):
            if isinstance(b, int):
                if isinstance(a, tuple):
                    return a * b
                return self.new_list(self.heap[a.cid] * b)
            items = self.concrete_items(a)
            if len(items) == 1 and isinstance(b, T):
                n = tmax(b, ZERO) if not self.pc.proves(le(ZERO, b)) else b
                v = items[0]
                return self.new_list((("seq", Seq(range_dom(n), lambda labels: v)),))
        if isinstance(a, SetVal) and isinstance(b, SetVal) and op in ("BitOr", "BitAnd", "Sub"):
            return self.np.set_op(op, a, b)
        if op == "FloorDiv" and isinstance(a, (tuple,)):
            raise PyRaise("TypeError", "bad operand")
        if isinstance(a, (str, type(None), tuple, ListRef, DictRef, StrVal)) or \
                isinstance(b, (str, type(None), tuple, ListRef, DictRef, StrVal)):
            raise PyRaise("TypeError", "unsupported operand types for %s" % op)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.np.opaque_binop(op, a, b)
        raise Unsupported("binary %s on %s, %s" % (op, type(a).__name__, type(b).__name__))

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "MatMult": "matmul", "Mod": "mod",
              "FloorDiv": "floordiv"}

    def obj_binop(self, op, a, b):
        d = self.DUNDER.get(op)
        if d is None:
            raise Unsupported("operator %s on an object" % op)
        if isinstance(a, Obj):
            f = a.cls.lookup("__%s__" % d)
            if f is not None:
                return self.call(Bound(f, a), [b], {})
        if isinstance(b, Obj):
            f = b.cls.lookup("__r%s__" % d)
            if f is not None:
                return self.call(Bound(f, b), [a], {})
        raise PyRaise("TypeError", "unsupported operand")

    def sbin(self, op, a, b):
        conc = not isinstance(a, (T, Cx)) and not isinstance(b, (T, Cx))
        if conc and isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
            if op == "Div":
                if b == 0:
                    raise PyRaise("ZeroDivisionError", "division by zero")
                if isinstance(a, int) and isinstance(b, int):
                    return num(Fraction(a, b), "R")
                if isinstance(a, complex) or isinstance(b, complex):
                    return a / b
                return num(Fraction(repr(a)) / Fraction(repr(b)), "R")
            try:
                if op == "Add":
                    return self.exact(a, b, lambda x, y: x + y)
                if op == "Sub":
                    return self.exact(a, b, lambda x, y: x - y)
                if op == "Mult":
                    return self.exact(a, b, lambda x, y: x * y)
                if op == "Pow":
                    if isinstance(a, int) and isinstance(b, int) and b >= 0:
                        return a ** b
                    if b == 0.5 or b == -0.5:
                        r = sqrt(num(a))
                        return r if b > 0 else power(r, num(-1))
                    return self.sbin(op, self.t(a), self.t(b))
                if op == "Mod":
                    return a % b
                if op == "FloorDiv":
                    return a // b
                if op == "BitAnd":
                    return a & b
                if op == "BitOr":
                    return a | b
                if op == "BitXor":
                    return a ^ b
            except (TypeError, OverflowError) as e:
                raise PyRaise("TypeError", str(e))
        if op in ("BitAnd", "BitOr", "BitXor"):
            x, y = self.t(a), self.t(b)
            if x.sort == "B" and y.sort == "B":
                if op == "BitAnd":
                    return and_(x, y)
                if op == "BitOr":
                    return or_(x, y)
                return not_(eq(x, y))
            raise Unsupported("bitwise operation on integers")
        if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
            return self.cbin(op, a, b)
        x, y = self.as_num(self.t(a)), self.as_num(self.t(b))
        if op == "Add":
            return add(x, y)
        if op == "Sub":
            return sub(x, y)
        if op == "Mult":
            return mul(x, y)
        if op == "Div":
            return div(x, y)
        if op == "Pow":
            return self.spow(x, y)
        if op == "Mod":
            return mod(x, y)
        if op == "FloorDiv":
            return idiv(x, y)
        raise Unsupported("operator " + op)

    def exact(self, a, b, f):
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, complex) or isinstance(b, complex):
                return f(a, b)
            r = f(Fraction(repr(a)) if isinstance(a, float) else Fraction(a), Fraction(repr(b)) if isinstance(b, float) else Fraction(b))
            fl = float(r)
            if Fraction(repr(fl)) == r:
                return fl
            return num(r, "R")
        return f(a, b)

    def spow(self, x, y):
        if y.op == "num" and val(y).denominator == 2:
            k = val(y) - Fraction(1, 2)
            r = sqrt(x)
            return r if k == 0 else mul(r, power(x, num(int(k))))
        return power(x, y)

    def cbin(self, op, a, b):
        if op == "Div" and not isinstance(b, (Cx, complex)):
            a, k = self.cx(a), self.as_num(self.t(b))
            return Cx(div(a.re, k), div(a.im, k))
        if op == "Pow":
            if not isinstance(b, (Cx, complex)):
                return self.cpow(self.cx(a), b)
            raise Unsupported("complex exponent")
        a, b = self.cx(a), self.cx(b)
        if op == "Add":
            return Cx(add(a.re, b.re), add(a.im, b.im))
        if op == "Sub":
            return Cx(sub(a.re, b.re), sub(a.im, b.im))
        if op == "Mult":
            return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
        if op == "Div":
            d = add(mul(b.re, b.re), mul(b.im, b.im))
            n = self.cbin("Mult", a, Cx(b.re, neg(b.im)))
            return Cx(div(n.re, d), div(n.im, d))
        raise Unsupported("complex " + op)

    def cpow(self, a, k):
        kt = self.t(k)
        if kt.op == "num" and val(kt).denominator == 1 and abs(val(kt)) <= 6:
            n = int(val(kt))
            r = Cx(ONE, ZERO)
            for _ in range(abs(n)):
                r = self.cbin("Mult", r, a)
            if n < 0:
                r = self.cbin("Div", Cx(ONE, ZERO), r)
            return r
        if a.im.op == "num" and val(a.im) == 0 and self.pc.is_nonneg(a.re):
            return Cx(self.spow(a.re, kt), ZERO)
        return Cx(app("cpow_re", (a.re, a.im, kt), "R"), app("cpow_im", (a.re, a.im, kt), "R"))

    def neg(self, v):
        if isinstance(v, Arr):
            return self.np.elementwise(self.neg, [v], v.dtype)
        if isinstance(v, Cx):
            return Cx(neg(v.re), neg(v.im))
        if isinstance(v, T):
            return neg(self.as_num(v))
        if isinstance(v, (int, float, complex)):
            return -v
        raise Unsupported("negation")

    def compare(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("use of a loop-local value after its loop")
        if op in ("Is", "IsNot"):
            r = self.same_object(a, b)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.np.contains(b, a)
            if op == "In":
                return r
            return not_(r) if isinstance(r, T) else not r
        if isinstance(a, Arr) or isinstance(b, Arr):
            if (not isinstance(a, Arr) and not self.is_scalar(a)) or (not isinstance(b, Arr) and not self.is_scalar(b)):
                a, b = [self.np.asarray(v) if isinstance(v, (ListRef, tuple)) else v for v in (a, b)]
                if not all(isinstance(v, Arr) or self.is_scalar(v) for v in (a, b)):
                    return op == "NotEq"
            return self.np.elementwise(lambda x, y: self.scmp(op, x, y), [a, b], "bool")
        if self.is_scalar(a) and self.is_scalar(b):
            return self.scmp(op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op in ("Eq", "NotEq"):
            r = self.eq_tuple(a, b)
            return r if op == "Eq" else (not_(r) if isinstance(r, T) else not r)
        if isinstance(a, PackDim) and isinstance(b, PackDim):
            r = a.dom.same_syntax(b.dom)
            return r if op == "Eq" else not r
        if op in ("Eq", "NotEq"):
            r = self.generic_eq(a, b)
            return r if op == "Eq" else (not_(r) if isinstance(r, T) else not r)
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(map(self.is_scalar, a + b)):
            return self.lex_cmp(op, a, b)
        raise Unsupported("comparison %s of %s, %s" % (op, type(a).__name__, type(b).__name__))

    def lex_cmp(self, op, a, b):
        if op in ("Gt", "GtE"):
            return self.lex_cmp("Lt" if op == "Gt" else "LtE", b, a)
        r = boolean(op == "LtE")
        for x, y in reversed(list(zip(a, b))):
            x, y = self.t(x), self.t(y)
            r = or_(lt(x, y), and_(eq(x, y), r))
        return r

    def same_object(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if any(isinstance(x, Builtin) and x.name.startswith("dtype:") for x in (a, b)):
            raise Unsupported("identity of a dtype")
        if isinstance(a, (Obj, ListRef, DictRef)) and type(a) is type(b):
            return a.cid == b.cid
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a is b or (a.cid == b.cid and a.fwd is b.fwd and a.entry == b.entry)
        if isinstance(a, (ClassVal, Func, Builtin)) or isinstance(b, (ClassVal, Func, Builtin)):
            return a is b or (isinstance(a, Builtin) and isinstance(b, Builtin) and a.name == b.name)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if type(a) is not type(b) and not (self.is_scalar(a) and self.is_scalar(b)):
            return False
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        raise Unsupported("identity comparison")

    def same_dtype(self, d, x):
        """equality of the dtype of an array with a type, a name or another dtype"""
        kind = d.name.split(":")[1]
        n = x if isinstance(x, str) else (x.name if isinstance(x, Builtin) else None)
        if n is None:
            if x is None or isinstance(x, (ListRef, DictRef, Obj, tuple)):
                raise Unsupported("comparison of a dtype")
            return False
        n = n.split(":")[-1].split(".")[-1]
        for k, names in (("float", ("float", "float64", "double", "float_")), ("int", ("int", "int64", "int_", "intp")),
                         ("complex", ("complex", "complex128", "complex_", "cdouble")), ("bool", ("bool", "bool_"))):
            if n in names:
                return k == kind
        if n in ("float32", "float16", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "complex64", "single", "half", "str", "object"):
            return False
        raise Unsupported("comparison of a dtype with %s" % n)

    def generic_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Builtin) and x.name.startswith("dtype:"):
                return self.same_dtype(x, y)
        if a is None or b is None:
            return a is b
        if isinstance(a, (str, StrVal)) and isinstance(b, (str, StrVal)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return self.np.str_eq(a, b)
        if isinstance(a, (Obj, DictRef, ClassVal, Builtin, Func)) or isinstance(b, (Obj, DictRef, ClassVal, Builtin, Func)):
            if isinstance(a, DictRef) and isinstance(b, DictRef):
                raise Unsupported("dict equality")
            return self.same_object(a, b)
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.term is not None and b.term is not None:
            return eq(a.term, b.term)
        if isinstance(a, ListRef) and isinstance(b, ListRef):
            x, y = self.heap[a.cid], self.heap[b.cid]
            if all(s[0] == "one" for s in x + y):
                if len(x) != len(y):
                    return False
                return self.eq_tuple(tuple(s[1] for s in x), tuple(s[1] for s in y))
            raise Unsupported("list equality")
        if type(a) is not type(b):
            return False
        raise Unsupported("equality of %s" % type(a).__name__)

    def eq_tuple(self, a, b):
        if len(a) != len(b):
            # a pack stands for an unknown number of entries
            if any(isinstance(x, PackDim) for x in a + b):
                raise Unsupported("comparison of shapes of unknown rank")
            return False
        r = TRUE
        for x, y in zip(a, b):
            c = self.compare("Eq", x, y)
            if isinstance(c, Arr):
                raise Unsupported("array inside a tuple comparison")
            c = c if isinstance(c, T) else boolean(bool(c))
            r = and_(r, c)
        return r if r not in (TRUE, FALSE) else r is TRUE

    def scmp(self, op, a, b):
        conc = not isinstance(a, (T, Cx)) and not isinstance(b, (T, Cx))
        if conc:
            try:
                return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b,
                        "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
            except TypeError as e:
                raise PyRaise("TypeError", str(e))
        if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
            a, b = self.cx(a), self.cx(b)
            r = and_(eq(a.re, b.re), eq(a.im, b.im))
            if op == "Eq":
                return r
            if op == "NotEq":
                return not_(r)
            raise Unsupported("ordering of complex numbers")
        x, y = self.t(a), self.t(b)
        if (x.sort == "B") != (y.sort == "B"):
            x, y = self.as_num(x), self.as_num(y)
        if op == "Eq":
            return eq(x, y)
        if op == "NotEq":
            return ne(x, y)
        x, y = self.as_num(x), self.as_num(y)
        return {"Lt": lt, "LtE": le, "Gt": gt, "GtE": ge}[op](x, y)

    # ------------------------------------------------------------------ containers
    def new_list(self, segs=()):
        return ListRef(self.alloc(tuple(segs)))

    def new_dict(self):
        return DictRef(self.alloc({}))

    def list_of(self, items):
        return self.new_list(tuple(("one", v) for v in items))

    def concrete_items(self, v):
        """python list of items of a fully concrete iterable"""
        segs = self.segments(v)
        out = []
        for s in segs:
            if s[0] == "one":
                out.append(s[1])
            else:
                n = s[1].dom.const_size()
                if n is None or n > 300:
                    raise Unsupported("iteration over a symbolic collection here")
                lo = int(val(s[1].dom.los[0]))
                out += [s[1].fn((num(lo + i),)) for i in range(n)]
        return out

    def segments(self, v):
        """iterable value -> tuple of ('one', v) | ('seq', Seq)"""
        if isinstance(v, tuple):
            return tuple(("one", x) for x in v)
        if isinstance(v, ListRef):
            return self.heap[v.cid]
        if isinstance(v, Seq):
            return (("seq", v),)
        if isinstance(v, range):
            return tuple(("one", i) for i in v)
        if isinstance(v, str):
            return tuple(("one", c) for c in v)
        if isinstance(v, DictRef):
            c = self.heap[v.cid]
            if isinstance(c, SymMap):
                d = c.dom(("dict", v.cid, id(c)))
                self.check_map_whole(v.cid)
                return (("seq", Seq(d, lambda labels: tuple(labels))),)
            return tuple(("one", k) for k in c)
        if isinstance(v, SetVal):
            if v.conc is not None:
                return tuple(("one", k) for k in sorted(v.conc, key=repr))
            d = v.sym.dom(("set", id(v)))
            return (("seq", Seq(d, lambda labels: tuple(labels))),)
        if isinstance(v, Arr):
            if not v.axes:
                raise PyRaise("TypeError", "iteration over a 0-d array")
            ax = v.axes[0]
            if ax.pack:
                raise Unsupported("iteration over an array of unknown rank")
            n = ax.const()
            if n is not None and n <= 64:
                return tuple(("one", self.np.getitem(v, i)) for i in range(n))
            return (("seq", Seq(ax.dom, lambda labels: self.np.take_label(v, labels))),)
        if isinstance(v, Obj):
            f = v.cls.lookup("__iter__")
            if f is not None:
                return self.segments(self.call(Bound(f, v), [], {}))
        if isinstance(v, StrVal):
            raise Unsupported("iteration over a symbolic string")
        if isinstance(v, (int, float, complex, type(None), T, Cx)):
            raise PyRaise("TypeError", "object is not iterable")
        if isinstance(v, Opaque):
            return self.np.opaque_iter(v)
        if type(v).__name__ == "Transparent" and getattr(v, "kind", None) == "keys":
            return self.segments(v.d)
        raise Unsupported("iteration over %s" % type(v).__name__)

    # maps ------------------------------------------------------------------
    def check_map_whole(self, cid):
        if self.map_log is not None and cid in self.map_log["watched"]:
            self.map_log["whole"].add(cid)

    def key_terms(self, key):
        if isinstance(key, tuple) and len(key) == 2 and all(self.is_scalar(k) for k in key):
            ks = [self.np.item(k) for k in key]
            ts = tuple(self.t(k) for k in ks)
            if all(t.sort == "I" for t in ts):
                return ts
            if all(t.sort in "IR" for t in ts):
                # 2.0 == 2 as a dictionary key
                raise Unsupported("non-integer key")
        if isinstance(key, tuple) and len(key) == 2 and all(isinstance(k, (Arr,)) or self.is_scalar(k) for k in key):
            return self.key_terms(tuple(self.np.item(k) for k in key))
        return None

    def map_read(self, cid, key):
        if self.map_log is not None and cid in self.map_log["watched"]:
            self.map_log["reads"].append((cid, key, self.pc))

    def map_entry(self, cid, key):
        m = self.heap[cid]
        self.map_read(cid, key)
        return m.val(key)

    def dict_has(self, d, key):
        c = self.heap[d.cid]
        if isinstance(key, tuple):
            key = tuple(self.np.item(k) for k in key)
        if isinstance(c, SymMap):
            k = self.key_terms(key)
            if k is None:
                return False
            self.map_read(d.cid, k)
            return and_(c.has(k), self.key_range(k, c.lhi))
        if isinstance(key, tuple) and any(isinstance(x, T) for x in key):
            if not c:
                return False
            return or_(*[self.to_T(self.compare("Eq", key, k)) for k in c])
        if isinstance(key, T):
            return or_(*[self.to_T(self.compare("Eq", key, k)) for k in c if self.is_scalar(k)])
        try:
            return self.pykey(key) in c
        except TypeError:
            raise PyRaise("TypeError", "unhashable key")

    def to_T(self, b):
        return b if isinstance(b, T) else boolean(bool(b))

    def key_range(self, k, lhi):
        l, m = k
        return and_(lt(l, lhi), le(neg(l), m), le(m, l))

    def pykey(self, key):
        if isinstance(key, T):
            if key.op == "num":
                return int(val(key)) if val(key).denominator == 1 else float(val(key))
            raise Unsupported("symbolic dictionary key")
        if isinstance(key, tuple):
            return tuple(self.pykey(k) for k in key)
        if isinstance(key, (Arr, ListRef, DictRef)):
            if isinstance(key, Arr) and not key.axes:
                return self.pykey(key.elem()(()))
            raise PyRaise("TypeError", "unhashable type")
        return key

    def dict_get(self, d, key):
        c = self.heap[d.cid]
        if isinstance(key, tuple):
            key = tuple(self.np.item(k) for k in key)
        if isinstance(c, SymMap):
            k = self.key_terms(key)
            if k is None:
                raise PyRaise("KeyError", repr(key))
            if not self.decide(self.dict_has(d, key)):
                raise PyRaise("KeyError", tm.show(k[0]))
            return self.map_ref(d.cid, k)
        if not c:
            raise PyRaise("KeyError", "empty")
        if isinstance(key, (T, tuple)) and _symbolic(key):
            for k2 in c:
                if self.decide(self.to_T(self.compare("Eq", key, k2))):
                    return c[k2]
            raise PyRaise("KeyError", "symbolic")
        k = self.pykey(key)
        if k not in c:
            raise PyRaise("KeyError", repr(k))
        return c[k]

    def map_ref(self, cid, k):
        m = self.heap[cid]
        d = m.val(k)
        self.map_read(cid, k)
        if isinstance(d, AData):
            return Arr(self, cid, d.axes, None, None, entry=k)
        return d

    def dict_set(self, d, key, value):
        c = self.heap[d.cid]
        k = self.key_terms(key)
        if isinstance(c, SymMap) or (k is not None and any(not isinstance(x, int) for x in key)):
            if k is None:
                raise Unsupported("mixed dictionary keys")
            if not isinstance(c, SymMap):
                c = self.to_symmap(c)
            self.map_write(d.cid, c, k, value)
            return
        c = dict(c)
        c[self.pykey(key)] = value
        self.heap[d.cid] = c

    def to_symmap(self, c):
        items = []
        lhi = ZERO
        for key, v in c.items():
            k = self.key_terms(key)
            if k is None or not isinstance(v, Arr):
                raise Unsupported("dictionary with mixed contents")
            items.append((k, self.own(v)))
            lhi = tmax(lhi, add(k[0], ONE))

        def has(k):
            return or_(*[and_(eq(k[0], a[0]), eq(k[1], a[1])) for a, _ in items])

        def value(k):
            if not items:
                raise Unsupported("value of an empty map")
            r = items[-1][1]
            for a, v in reversed(items[:-1]):
                r = self.adata_ite(and_(eq(k[0], a[0]), eq(k[1], a[1])), v, r)
            return r
        return SymMap(has, value, lhi)

    def own(self, v):
        """snapshot of an array stored in a container; the store must not alias a pre-existing array"""
        d = v.data
        if v.fwd is None:
            return AData(d.axes if v.entry is None else v.axes, d.fn, d.dtype)
        return AData(v.axes, v.elem(), d.dtype)

    def adata_ite(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if len(a.axes) != len(b.axes):
            raise Unsupported("arrays of different rank in one map")
        for x, y in zip(a.axes, b.axes):
            if not self.np.same_axis(x, y):
                raise Unsupported("arrays of different shape in one map")
        dt = self.np.promote(a.dtype, b.dtype)
        return AData(a.axes, lambda labels: self.site(c, a.fn(labels), b.fn(labels)), dt)

    def map_write(self, cid, c, k, value):
        if not isinstance(value, Arr):
            raise Unsupported("non-array value in a symbolic map")
        if not self.pc.proves(and_(le(neg(k[0]), k[1]), le(k[1], k[0]))):
            raise Unsupported("map key not shown to satisfy |order| <= degree")
        if self.map_log is not None and cid in self.map_log["watched"]:
            self.map_log["writes"].append((cid, k, self.pc))
        if value.entry is not None and value.cid == cid:
            # writing an entry back to itself (augmented assignment)
            if all(self.pc.proves(eq(x, y)) for x, y in zip(value.entry, k)):
                return
        if value.cid in self.foreign:
            self.alias_note(value, k)
        v = self.own(value)
        has0, val0 = c.has, c.val
        empty = c.lhi is ZERO

        def has(q):
            return or_(and_(eq(q[0], k[0]), eq(q[1], k[1])), has0(q))

        def value_(q):
            here = and_(eq(q[0], k[0]), eq(q[1], k[1]))
            if here is TRUE or empty:
                return v
            return self.adata_ite(here, v, val0(q))
        self.heap[cid] = SymMap(has, value_, tmax(c.lhi, add(k[0], ONE)))

    foreign = frozenset()

    def alias_note(self, value, k):
        self.violations.append("a caller's array is stored in the set without being copied")

    # ------------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules and self.modules[name].cid in self.heap:
            return self.modules[name]
        rel = name.split(".")
        path = os.path.join(self.repo, *rel)
        if os.path.isdir(path):
            path = os.path.join(path, "__init__.py")
        else:
            path += ".py"
        src = open(path).read()
        tree = ast.parse(src)
        self.mod_src[name] = (path, tree)
        env = Env(self, None, {"__name__": name, "__file__": Opaque("__file__")})
        env.module = name
        self.modules[name] = env
        if name == self.package:
            return env
        for st in tree.body:
            try:
                self.exec(st, env)
            except (Unsupported, PyRaise) as e:
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.set_var(env, n.id, Poison("module level: %s" % e))
        return env

    def import_name(self, name):
        if name == self.package or name.startswith(self.package + "."):
            self.module(name)
            return ModRef(name)
        return ModRef(name)

    def getvar(self, env, name):
        e = env
        while e is not None:
            v = self.heap[e.cid]
            if name in v:
                r = v[name]
                if isinstance(r, Poison):
                    raise Unsupported(r.why)
                return r
            e = e.parent
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(_builtins, name):
            raise Unsupported("builtin " + name)
        raise PyRaise("NameError", name)

    def set_var(self, env, name, value):
        if name in env.global_names or name in env.nonlocal_names:
            e = env.parent
            while e is not None and name not in self.heap[e.cid]:
                e = e.parent
            if e is None:
                e = env
            env = e
        d = dict(self.heap[env.cid])
        d[name] = value
        self.heap[env.cid] = d

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        self.steps += 1
        if self.steps % 64 == 0:
            solve.check_deadline()
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        return m(st, env)

    def x_Expr(self, st, env):
        v = st.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(v, env)
        if isinstance(v, ast.Call) and self.is_log(v, env):
            return
        self.ev(v, env)

    def is_log(self, call, env):
        f = call.func
        if isinstance(f, ast.Attribute):
            b = f.value
            if isinstance(b, ast.Name):
                try:
                    o = self.getvar(env, b.id)
                except (Unsupported, PyRaise):
                    return False
                return isinstance(o, Opaque) and o.name == "logger"
            if isinstance(b, ast.Attribute) and b.attr == "log":
                return True
        if isinstance(f, ast.Name) and f.id == "print":
            return not any(k.arg in ("file", None) for k in call.keywords)
        return False

    def do_yield(self, y, env):
        lst = self.getvar(env, "__yield__")
        if isinstance(y, ast.YieldFrom):
            segs = self.segments(self.ev(y.value, env))
            self.heap[lst.cid] = self.heap[lst.cid] + tuple(segs)
        else:
            v = self.ev(y.value, env) if y.value is not None else None
            self.heap[lst.cid] = self.heap[lst.cid] + (("one", v),)

    def x_Pass(self, st, env):
        pass

    def x_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set_var(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, env):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, (ListRef, Seq)):
            segs = self.segments(v)
            if len(segs) == 1 and segs[0][0] == "seq" and segs[0][1].dom.const_size() is None:
                return self.unpack_symbolic(elts, star, segs[0][1], env)
        items = self.concrete_items(v)
        if star:
            i = star[0]
            k = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                raise PyRaise("ValueError", "not enough values to unpack")
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, env)
            self.assign(elts[i].value, self.list_of(items[i:len(items) - k]), env)
            for e, x in zip(elts[i + 1:], items[len(items) - k:]):
                self.assign(e, x, env)
            return
        if len(items) != len(elts):
            raise PyRaise("ValueError", "wrong number of values to unpack")
        for e, x in zip(elts, items):
            self.assign(e, x, env)

    def unpack_symbolic(self, elts, star, seq, env):
        """unpacking a sequence of symbolic length"""
        d = seq.dom
        if d.arity != 1 or d.filt is not TRUE:
            raise Unsupported("unpacking of a symbolic collection")
        n, k = d.size(), len(elts)
        if not star:
            if not self.decide(eq(n, num(k))):
                raise PyRaise("ValueError", "wrong number of values to unpack")
            for i, e in enumerate(elts):
                self.assign(e, seq.fn((add(d.los[0], num(i)),)), env)
            return
        if not self.decide(ge(n, num(k - 1))):
            raise PyRaise("ValueError", "not enough values to unpack")
        s = star[0]
        for i, e in enumerate(elts[:s]):
            self.assign(e, seq.fn((add(d.los[0], num(i)),)), env)
        rest = Seq(range_dom(sub(n, num(k - 1))), lambda ls: seq.fn((add(d.los[0], num(s), ls[0]),)))
        self.assign(elts[s].value, self.new_list((("seq", rest),)), env)
        for i, e in enumerate(elts[s + 1:]):
            self.assign(e, seq.fn((sub(d.his[0], num(k - s - 1 - i)),)), env)

    def x_AugAssign(self, st, env):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            old = self.getvar(env, t.id)
            new = self.inplace(op, old, self.ev(st.value, env))
            self.set_var(env, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, old, self.ev(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            idx = self.ev_index(t.slice, env)
            old = self.getitem(o, idx)
            rhs = self.ev(st.value, env)
            if isinstance(o, DictRef) or isinstance(o, ListRef):
                self.setitem(o, idx, self.inplace(op, old, rhs))
            else:
                self.setitem(o, idx, self.binop(op, old, rhs), aug=True)
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, old, rhs):
        if isinstance(old, Arr):
            r = self.binop(op, old, rhs)
            if not old.axes and old.fwd is None and old.entry is None and getattr(old, "npscalar", True):
                return r            # numpy scalars are immutable values
            self.np.check_inplace_cast(old, r, op)
            self.np.write(old, r)
            return old
        if isinstance(old, ListRef) and op == "Add":
            self.heap[old.cid] = self.heap[old.cid] + tuple(self.segments(rhs))
            return old
        return self.binop(op, old, rhs)

    def x_If(self, st, env):
        if self.decide(self.truth(self.ev(st.test, env))):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_Assert(self, st, env):
        c = self.truth(self.ev(st.test, env))
        if isinstance(c, T) and c not in (TRUE, FALSE) and self.pc.prove(c):
            return
        if not self.decide(c):
            raise PyRaise("AssertionError", ast.unparse(st.test))

    def x_Return(self, st, env):
        raise Return(self.ev(st.value, env) if st.value is not None else None)

    def x_Break(self, st, env):
        raise Break

    def x_Continue(self, st, env):
        raise Continue

    def x_Raise(self, st, env):
        if st.exc is None:
            raise Unsupported("re-raise")
        e = st.exc
        name = None
        if isinstance(e, ast.Call):
            f = self.ev(e.func, env)
        else:
            f = self.ev(e, env)
        if isinstance(f, Builtin):
            name = f.name
        raise PyRaise(name or "Exception", ast.unparse(st))

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                d = dict(self.heap[env.cid])
                d.pop(t.id, None)
                self.heap[env.cid] = d
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev_index(t.slice, env)
                if isinstance(o, DictRef) and not isinstance(self.heap[o.cid], SymMap):
                    c = dict(self.heap[o.cid])
                    if self.pykey(k) not in c:
                        raise PyRaise("KeyError", "")
                    del c[self.pykey(k)]
                    self.heap[o.cid] = c
                else:
                    raise Unsupported("del of an item")
            else:
                raise Unsupported("del")

    def x_Global(self, st, env):
        env.global_names |= set(st.names)

    def x_Nonlocal(self, st, env):
        env.nonlocal_names |= set(st.names)

    def x_Import(self, st, env):
        for a in st.names:
            if a.asname:
                self.import_name(a.name)
                self.set_var(env, a.asname, ModRef(a.name))
            else:
                self.import_name(a.name)
                top = a.name.split(".")[0]
                self.set_var(env, top, ModRef(top))

    def x_ImportFrom(self, st, env):
        mod = st.module or ""
        if st.level:
            e = env
            while e.parent is not None:
                e = e.parent
            base = e.module.split(".")[:-st.level]
            mod = ".".join(base + ([mod] if mod else []))
        for a in st.names:
            if a.name == "*":
                raise Unsupported("import *")
            self.set_var(env, a.asname or a.name, self.mod_attr(ModRef(mod), a.name))

    def x_FunctionDef(self, st, env):
        self.set_var(env, st.name, self.make_function(st, env))

    def make_function(self, st, env, cls=None):
        e = env
        while e.parent is not None:
            e = e.parent
        mod = getattr(e, "module", "?")
        outer = getattr(env, "qual", "")
        qual = (outer + "." if outer else "") + getattr(st, "name", "<lambda>")
        f = Func(st, env, mod, mod + ":" + qual)
        f.defaults = tuple(self.ev(d, env) for d in st.args.defaults)
        f.kwdefaults = {a.arg: self.ev(d, env) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
        f.is_gen = isinstance(st, ast.FunctionDef) and _has_yield(st)
        f.cls = cls
        for dec in reversed(getattr(st, "decorator_list", [])):
            name = ast.unparse(dec.func if isinstance(dec, ast.Call) else dec)
            short = name.split(".")[-1]
            if short == "property":
                f.kind = "property"
            elif short == "setter":
                f.kind = "setter"
            elif short in ("cached_property",):
                f.kind = "property"
                f.cached = True
            elif short == "classmethod":
                f.kind = "classmethod"
            elif short == "staticmethod":
                f.kind = "staticmethod"
            elif short == "vectorize":
                f.vectorized = True
            elif short in ("lru_cache", "cache"):
                f.memoised = True
            elif short == "contextmanager":
                f.kind2 = "contextmanager"
            else:
                raise Unsupported("decorator " + name)
        return f

    def x_ClassDef(self, st, env):
        e = env
        while e.parent is not None:
            e = e.parent
        mod = e.module
        bases = tuple(self.ev(b, env) for b in st.bases)
        cenv = Env(self, env)
        cenv.qual = st.name
        cv = ClassVal(st.name, {}, mod, tuple(b for b in bases if isinstance(b, ClassVal)))
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                f = self.make_function(s, cenv, cv)
                f.env = env
                if f.kind == "setter":
                    f.kind = "property"
                    cv.ns[s.name].setter = f
                    continue
                cv.ns[s.name] = f
                self.set_var(cenv, s.name, f)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                pass
            else:
                self.exec(s, cenv)
                for k, v in self.heap[cenv.cid].items():
                    cv.ns.setdefault(k, v)
        self.set_var(env, st.name, cv)

    def x_With(self, st, env):
        if len(st.items) == 1 and isinstance(st.items[0].context_expr, ast.Call):
            f = self.ev(st.items[0].context_expr.func, env)
            if isinstance(f, Func) and getattr(f, "kind2", None) == "contextmanager":
                return self.with_generator(f, st, env)
        exits = []
        for item in st.items:
            ctx = self.ev(item.context_expr, env)
            val_ = ctx
            if isinstance(ctx, Obj):
                f = ctx.cls.lookup("__enter__")
                if f is None:
                    raise PyRaise("AttributeError", "__enter__")
                val_ = self.call(Bound(f, ctx), [], {})
                exits.append(ctx)
            elif isinstance(ctx, Opaque):
                val_ = self.np.enter(ctx)
                exits.append(ctx)
            else:
                raise Unsupported("context manager")
            if item.optional_vars is not None:
                self.assign(item.optional_vars, val_, env)

        def leave():
            for ctx in reversed(exits):
                if isinstance(ctx, Obj):
                    f = ctx.cls.lookup("__exit__")
                    r = self.call(Bound(f, ctx), [None, None, None], {})
                    if r is not None and r is not False:
                        raise Unsupported("context manager that swallows exceptions")
                else:
                    self.np.leave(ctx)
        try:
            self.exec_block(st.body, env)
        except (Return, Break, Continue):
            leave()
            raise
        leave()

    def with_generator(self, f, st, env):
        """with over a @contextmanager function whose single yield is a statement of its body (not under try)"""
        call = st.items[0].context_expr
        args, kwargs = self.call_args(call, env)
        genv = Env(self, f.env, self.bind_args(f, args, kwargs))
        genv.qual = f.qual.split(":", 1)[1]
        self.inlined.add(f.qual)
        body = f.node.body
        at = [i for i, s in enumerate(body) if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield)
              or isinstance(s, ast.Assign) and isinstance(s.value, ast.Yield)]
        ys = [n for s in body for n in ast.walk(s) if isinstance(n, (ast.Yield, ast.YieldFrom))]
        if len(at) != 1 or len(ys) != 1 or not isinstance(body[at[0]], ast.Expr):
            raise Unsupported("context manager function")
        self.exec_block(body[:at[0]], genv)
        y = body[at[0]].value
        if st.items[0].optional_vars is not None:
            self.assign(st.items[0].optional_vars, None if y.value is None else self.ev(y.value, genv), env)
        try:
            self.exec_block(st.body, env)
        except (Return, Break, Continue):
            self.finish_generator(body[at[0] + 1:], genv)
            raise
        self.finish_generator(body[at[0] + 1:], genv)

    def finish_generator(self, body, genv):
        try:
            self.exec_block(body, genv)
        except Return:
            pass

    def x_Try(self, st, env):
        if st.finalbody:
            raise Unsupported("finally")
        try:
            self.exec_block(st.body, env)
        except PyRaise as e:
            for h in st.handlers:
                names = []
                if h.type is None:
                    names = ["BaseException"]
                else:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names = [ast.unparse(t).split(".")[-1] for t in ts]
                if any(self.exc_match(e.etype, n) for n in names):
                    if h.name:
                        self.set_var(env, h.name, Opaque("exception"))
                    self.exec_block(h.body, env)
                    return
            raise
        self.exec_block(st.orelse, env)

    def exc_match(self, e, name):
        while e is not None:
            if e == name:
                return True
            e = EXC.get(e)
        return False

    def x_While(self, st, env):
        for _ in range(200):
            c = self.truth(self.ev(st.test, env))
            if isinstance(c, T) and self.pc.decide_local(c) is None:
                raise Unsupported("while loop with a symbolic bound")
            if not self.decide(c):
                self.exec_block(st.orelse, env)
                return
            try:
                self.exec_block(st.body, env)
            except Break:
                return
            except Continue:
                continue
        raise Unsupported("while loop too long")

    def x_For(self, st, env):
        it = self.ev(st.iter, env)
        if isinstance(it, ListRef) and self.is_growing(it, st, env):
            raise Unsupported("loop over a list that grows")
        segs = self.segments(it)
        rule = getattr(self, "loop_rule", None)
        if not (rule is not None and len(segs) == 1 and segs[0][0] == "seq" and rule(segs[0][1], st, env)):
            self.run_for(segs, lambda v: self.assign(st.target, v, env), lambda: self.exec_block(st.body, env), st)
        if st.orelse:
            if any(isinstance(n, ast.Break) for n in ast.walk(st)):
                raise Unsupported("for-else with break")
            self.exec_block(st.orelse, env)

    def is_growing(self, it, st, env):
        return False

    def run_for(self, segs, bind, body, node=None):
        import loops
        items = []
        for s in segs:
            if s[0] == "one":
                items.append(s)
            else:
                n = s[1].dom.const_size()
                if n is not None and n <= 64:
                    lo = int(val(s[1].dom.los[0]))
                    items += [("one", s[1].fn((num(lo + i),))) for i in range(n)]
                else:
                    items.append(s)
        for s in items:
            if s[0] == "one":
                try:
                    bind(s[1])
                    body()
                except Break:
                    break
                except Continue:
                    continue
            else:
                loops.summarise(self, s[1], bind, body, node)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.getvar(env, e.id)

    def e_Tuple(self, e, env):
        return tuple(self.ev_elts(e.elts, env))

    def e_List(self, e, env):
        return self.new_list(self.ev_segs(e.elts, env))

    def e_Set(self, e, env):
        return SetVal(conc=frozenset(self.pykey(x) for x in self.ev_elts(e.elts, env)))

    def ev_segs(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += list(self.segments(self.ev(x.value, env)))
            else:
                out.append(("one", self.ev(x, env)))
        return tuple(out)

    def ev_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.concrete_items(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                d.update(self.heap[o.cid])
            else:
                d[self.pykey(self.ev(k, env))] = self.ev(v, env)
        return DictRef(self.alloc(d))

    def e_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            c = self.truth(v)
            return not_(c) if isinstance(c, T) else not c
        if op == "USub":
            return self.neg(v)
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, Arr):
                return self.np.elementwise(lambda x: self.to_inv(x), [v], v.dtype)
            return self.to_inv(v)
        raise Unsupported(op)

    def to_inv(self, x):
        x = self.t(x)
        if x.sort == "B":
            return not_(x)
        raise Unsupported("~ on integers")

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            rest_simple = all(isinstance(n, (ast.Compare, ast.Name, ast.Constant, ast.Attribute, ast.BinOp, ast.BoolOp,
                                             ast.UnaryOp, ast.operator, ast.unaryop, ast.cmpop, ast.boolop, ast.expr_context))
                              for y in e.values[i + 1:] for n in ast.walk(y))
            if isinstance(c, T) and self.pc.decide_local(c) is None and rest_simple and isinstance(v, T) and v.sort == "B":
                # keep the condition as one term when evaluating the rest cannot have effects
                rest = self.e_BoolOp(ast.BoolOp(e.op, e.values[i + 1:]), env) if len(e.values) - i > 2 else \
                    self.ev(e.values[i + 1], env)
                rc = self.truth(rest)
                if isinstance(rest, (bool, T)) and (isinstance(rest, bool) or rest.sort == "B"):
                    return (and_ if isand else or_)(c, self.to_T(rc))
            if self.decide(c):
                if not isand:
                    return v
            elif isand:
                return v
        return v

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, env)
            r = self.compare(type(op).__name__, left, right)
            if res is None:
                res = r
            elif isinstance(res, Arr) or isinstance(r, Arr):
                raise PyRaise("ValueError", "ambiguous truth value")
            else:
                res = and_(self.to_T(res), self.to_T(r)) if isinstance(res, T) or isinstance(r, T) else (res and r)
            left = right
        return res

    def e_IfExp(self, e, env):
        if self.decide(self.truth(self.ev(e.test, env))):
            return self.ev(e.body, env)
        return self.ev(e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_function(e, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        return self.getitem(o, self.ev_index(e.slice, env))

    def ev_index(self, s, env):
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, env) for x in s.elts)
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, env) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, env)

    def e_Slice(self, e, env):
        return self.ev_index(e, env)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                x = self.ev(v.value, env)
                spec = ""
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, env)
                parts.append(self.np.fmt_value(x, spec, v.conversion))
        return self.np.sconcat(parts)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def comp(self, e, env, emit):
        """run the generators of a comprehension"""
        cenv = Env(self, env)
        cenv.qual = getattr(env, "qual", "")

        def level(i):
            if i == len(e.generators):
                emit(cenv)
                return
            g = e.generators[i]
            it = self.ev(g.iter, cenv if i else env)

            def body():
                for c in g.ifs:
                    if not self.decide(self.truth(self.ev(c, cenv))):
                        raise Continue
                level(i + 1)
            self.run_for(self.segments(it), lambda v: self.assign(g.target, v, cenv), body)
        level(0)

    def e_ListComp(self, e, env):
        out = self.new_list()

        def emit(cenv):
            v = self.ev(e.elt, cenv)
            self.heap[out.cid] = self.heap[out.cid] + (("one", v),)
        self.comp(e, env, emit)
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return self.np.b_set([self.e_ListComp(e, env)], {})

    def e_DictComp(self, e, env):
        out = DictRef(self.alloc({}))
        self.comp(e, env, lambda cenv: self.dict_set(out, self.ev(e.key, cenv), self.ev(e.value, cenv)))
        return out

    def e_Yield(self, e, env):
        self.do_yield(e, env)
        return None

    def e_Call(self, e, env):
        if self.is_log(e, env):
            return None
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return Opaque("super", (self.getvar(env, "self"),))
        f = self.ev(e.func, env)
        if isinstance(f, Builtin) and f.name == "zip" and any(isinstance(a, ast.Starred) for a in e.args):
            first = [a for a in e.args if isinstance(a, ast.Starred)][0]
            return self.np.zip_star(self.ev(first.value, env))
        args, kwargs = self.call_args(e, env, f)
        return self.call(f, args, kwargs)

    def call_args(self, e, env, f=None):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(f, Builtin) and f.name in ("set.union",):
                    args += [s[1] if s[0] == "one" else StarSeq(s[1]) for s in self.segments(v)]
                else:
                    args += self.concrete_items(v)
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.heap[self.ev(k.value, env).cid]
                if isinstance(d, SymMap):
                    raise Unsupported("** of a symbolic map")
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        return args, kwargs

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, ModRef):
            return self.mod_attr(o, name)
        if isinstance(o, Obj):
            d = self.heap[o.cid]
            f = o.cls.lookup(name)
            if isinstance(f, Func) and f.kind == "property":
                return self.call(Bound(f, o), [], {})
            if name in d:
                v = d[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if f is None:
                raise PyRaise("AttributeError", name)
            if isinstance(f, Func):
                if f.kind == "staticmethod":
                    return f
                if f.kind == "classmethod":
                    return Bound(f, o.cls)
                return Bound(f, o)
            return f
        if isinstance(o, ClassVal):
            f = o.lookup(name)
            if f is None:
                if name == "__name__":
                    return o.name
                raise PyRaise("AttributeError", name)
            if isinstance(f, Func) and f.kind == "classmethod":
                return Bound(f, o)
            return f
        return self.np.attr(o, name)

    def mod_attr(self, o, name):
        if o.name == self.package or o.name.startswith(self.package + "."):
            env = self.module(o.name)
            v = self.heap[env.cid]
            if name in v:
                r = v[name]
                if isinstance(r, Poison):
                    raise Unsupported(r.why)
                return r
            full = o.name + "." + name
            p = os.path.join(self.repo, *full.split("."))
            if os.path.exists(p + ".py") or os.path.isdir(p):
                return self.import_name(full)
            if o.name == self.package:
                return Opaque(full)
            raise PyRaise("AttributeError", full)
        return self.np.lib(o.name + "." + name)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            f = o.cls.lookup(name)
            if isinstance(f, Func) and f.kind == "property":
                st = getattr(f, "setter", None)
                if st is None:
                    raise PyRaise("AttributeError", "can't set " + name)
                self.call(Bound(st, o), [v], {})
                return
            d = dict(self.heap[o.cid])
            d[name] = v
            self.heap[o.cid] = d
            return
        raise Unsupported("attribute assignment on %s" % type(o).__name__)

    def getitem(self, o, idx):
        if isinstance(o, Arr):
            return self.np.getitem(o, idx)
        if isinstance(o, DictRef):
            return self.dict_get(o, idx)
        if isinstance(o, (tuple, str)):
            if isinstance(idx, slice):
                return o[slice(*[None if x is None else self.conc_int(x) for x in (idx.start, idx.stop, idx.step)])]
            i = self.np.item(idx)
            if isinstance(i, T):
                i = self.conc_int(i)
            if not isinstance(i, int):
                raise PyRaise("TypeError", "indices must be integers")
            try:
                return o[i]
            except IndexError:
                raise PyRaise("IndexError", "index out of range")
        if isinstance(o, ListRef):
            return self.np.list_get(o, idx)
        if isinstance(o, Opaque):
            return self.np.opaque_getitem(o, idx)
        if isinstance(o, StrVal):
            raise Unsupported("index into a symbolic string")
        if isinstance(o, (int, float, complex, type(None), T, Cx)):
            raise PyRaise("TypeError", "not subscriptable")
        raise Unsupported("subscript of %s" % type(o).__name__)

    def conc_int(self, t):
        t = self.np.item(t)
        if isinstance(t, int):
            return t
        if isinstance(t, T):
            if t.op == "num":
                return int(val(t))
            # a value pinned by the path facts
            ms = None
            for k in range(0, 33):
                if self.pc.proves(eq(t, num(k))):
                    return k
        raise Unsupported("symbolic integer where a concrete one is needed")

    def setitem(self, o, idx, v, aug=False):
        if isinstance(o, Arr):
            self.np.setitem(o, idx, v)
        elif isinstance(o, DictRef):
            self.dict_set(o, idx, v)
        elif isinstance(o, ListRef):
            segs = list(self.heap[o.cid])
            i = self.conc_int(idx)
            if all(s[0] == "one" for s in segs):
                try:
                    segs[i] = ("one", v)
                except IndexError:
                    raise PyRaise("IndexError", "assignment index out of range")
                self.heap[o.cid] = tuple(segs)
            else:
                raise Unsupported("assignment into a symbolic list")
        elif isinstance(o, tuple):
            raise PyRaise("TypeError", "tuple does not support item assignment")
        else:
            raise Unsupported("item assignment on %s" % type(o).__name__)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, Builtin):
            return f.fn(args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.func, Builtin):
                return f.func.fn([f.self_] + list(args), kwargs)
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, ClassVal):
            o = Obj(self.alloc({}), f)
            self.name_cells.add(o.cid)
            init = f.lookup("__init__")
            if init is not None:
                self.call(Bound(init, o), args, kwargs)
            elif args or kwargs:
                raise PyRaise("TypeError", "no constructor arguments expected")
            return o
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Obj):
            g = f.cls.lookup("__call__")
            if g is not None:
                return self.call(Bound(g, f), args, kwargs)
        if isinstance(f, Opaque):
            return self.np.opaque_call(f, args, kwargs)
        if isinstance(f, ModRef):
            raise PyRaise("TypeError", "module is not callable")
        raise PyRaise("TypeError", "object is not callable")

    def call_func(self, f, args, kwargs):
        if getattr(f, "vectorized", False) and any(isinstance(a, Arr) for a in args):
            return self.np.vectorized_call(f, args, kwargs)
        return self.by_contract(f, args, kwargs)

    def by_contract(self, f, args, kwargs):
        c = self.contracts.get(f.qual)
        if c is not None and f.qual not in self.active:
            r = c(self, f, args, kwargs)
            if r is not NotImplemented:
                self.used_contracts.add(f.qual)
                return r
        return self.run_func(f, args, kwargs)

    def run_func(self, f, args, kwargs):
        self.calldepth += 1
        if self.calldepth > 40:
            self.calldepth -= 1
            raise Unsupported("recursion too deep")
        self.inlined.add(f.qual)
        try:
            env = Env(self, f.env, self.bind_args(f, args, kwargs))
            env.qual = f.qual.split(":", 1)[1]
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            if f.is_gen:
                lst = self.new_list()
                self.set_var(env, "__yield__", lst)
                try:
                    self.exec_block(f.node.body, env)
                except Return:
                    pass
                if getattr(f, "kind2", None) == "contextmanager":
                    raise Unsupported("context manager function")
                return lst
            try:
                self.exec_block(f.node.body, env)
            except Return as r:
                v = r.value
            else:
                v = None
            if getattr(f, "memoised", False):
                self.np.mark_shared(v, f.qual)
            return v
        finally:
            self.calldepth -= 1

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        for n, v in zip(names, args):
            out[n] = v
        extra = args[len(names):]
        if a.vararg:
            out[a.vararg.arg] = tuple(extra)
        elif extra:
            raise PyRaise("TypeError", "%s takes %d positional arguments" % (f.qual, len(names)))
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kwargs:
                if n in out:
                    raise PyRaise("TypeError", "multiple values for " + n)
                out[n] = kwargs.pop(n)
        if a.kwarg:
            out[a.kwarg.arg] = DictRef(self.alloc(kwargs))
        elif kwargs:
            raise PyRaise("TypeError", "unexpected keyword arguments %s for %s" % (sorted(kwargs), f.qual))
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            out.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            out.setdefault(n, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                raise PyRaise("TypeError", "missing argument %s of %s" % (n, f.qual))
        return out

    def get(self, dotted):
        """value of 'module:qualname'"""
        mod, q = dotted.split(":")
        v = ModRef(mod)
        self.module(mod)
        for part in q.split("."):
            v = self.getattr(v, part)
        return v


def _symbolic(k):
    if isinstance(k, tuple):
        return any(_symbolic(x) for x in k)
    return isinstance(k, T) and k.op != "num"


def _has_yield(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False
