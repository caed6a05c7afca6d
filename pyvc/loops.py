"""Loops over symbolic index sets.

A loop `for x in S: B` is replaced by the effect of an inferred invariant.  One generic iteration is
executed from a havocked state: every location that the body may modify (found by iterating to a
fixed point) starts from an unconstrained placeholder h, and the body yields e(x, h).  The closed form
of the iteration is then derived from the shape of e, each shape carrying its induction argument:

  h + d(x)                     h0 + sum_{x in S} d(x)
  max(h, d(x))                 max(h0, max_{x in S} d(x))
  h and c(x), h or c(x)        h0 and forall, h0 or exists
  ite(c(x), k, h), k constant  ite(exists x in S. c(x), k, h0)
  ite(x = p and c, w(x, h), h) at most one iteration touches the location: ite(p in S and c, w(p, h0), h0)
  h + k on a plain range       the induction variable h0 + k x inside the body

Any placeholder left over, any exit whose condition depends on earlier iterations, and every other shape
is refused with Unsupported: nothing is guessed.
"""
import itertools

from terms import *
import terms as tm
from values import *
from values import _sz
import numeric

_hole = itertools.count(1)


def summarise(it, seq, bind, body, node):
    Loop(it, seq, bind, body, node).run()


class Family:
    """generic objects, one for every index of a range: a template whose cells mention the index

    A family built by the code under contract is live: a loop over all its members may change each of them through the
    template (Loop.run_family), until the first time a member is looked at on its own; from then on the engine refuses
    every change, and members are copies of the template at their index."""
    def __init__(self, it, template, index, dom):
        self.it, self.template, self.i, self.range = it, template, index, dom
        self.made = {}
        self.live = True

    def cells(self, v=None, seen=None):
        """cells reachable from the template"""
        it = self.it
        v = self.template if v is None else v
        seen = set() if seen is None else seen
        if isinstance(v, (Obj, DictRef, Arr)) and v.cid not in seen:
            seen.add(v.cid)
            c = it.heap.get(v.cid)
            if isinstance(c, dict):
                for x in c.values():
                    if not (x is None or isinstance(x, (T, Cx, bool, int, float, complex, str))):
                        self.cells(x, seen)
        elif not isinstance(v, (Obj, DictRef, Arr)):
            raise Unsupported("generic family of objects holding %s" % type(v).__name__)
        return seen

    def member(self, j):
        """a copy of the template's cells with the index replaced"""
        it = self.it
        if it.family_probe is not None:
            it.family_probe.append((self, j))
            return self.template
        if self in it.family_active:
            if j is self.i:
                return self.template
            raise Unsupported("another member of a family of objects that is being modified")
        if self.live:
            self.live = False
            for c in self.cells():
                it.own_cells.add(c)
                it.family_cells[c] = it.heap[c]
        elif any(c in it.family_cells and it.family_cells[c] is not it.heap.get(c) for c in self.cells()):
            raise Unsupported("a member of a generic family of objects is modified")
        o = self.made.get(j)
        if o is not None and o.cid in it.heap:
            return o
        o = self.clone(self.template, {self.i: j}, {})
        o = self.made[j] = Member(o.cid, o.cls, self, j)
        return o

    def cell(self, content):
        it = self.it
        cid = it.alloc(content)
        it.family_cells[cid] = content
        return cid

    def clone(self, x, m, seen):
        it = self.it
        if isinstance(x, Obj):
            cid = self.cell(None)
            c = {k: self.clone(y, m, seen) for k, y in it.heap[x.cid].items()}
            it.heap[cid] = it.family_cells[cid] = c
            return Obj(cid, x.cls)
        if isinstance(x, DictRef):
            c = it.heap[x.cid]
            if isinstance(c, SymMap):
                return DictRef(self.cell(self.clone_map(c, m)))
            return DictRef(self.cell({k: self.clone(y, m, seen) for k, y in c.items()}))
        if isinstance(x, Arr):
            r = sub_any(it, x, m)
            it.family_cells[r.cid] = it.heap[r.cid]
            if r.cid == x.cid:
                it.own_cells.add(r.cid)
            return r
        if x is None or isinstance(x, (bool, int, float, str, complex)):
            return x
        if isinstance(x, (T, Cx)):
            return sub_scalar(x, m)
        raise Unsupported("generic family of objects holding %s" % type(x).__name__)

    def clone_map(self, c, m):
        l, q = fresh("sl", "I"), fresh("sm", "I")
        h = subst(c.has((l, q)), m)
        d = c.val((l, q))
        axes = tuple(Axis(sub_dom(a.dom, m), a.pack) for a in d.axes)
        if any(not self.it.np.same_axis(a, b) for a, b in zip(axes, d.axes)):
            raise Unsupported("family of arrays of varying shape")
        g = tuple(a.dom.fresh("g") for a in d.axes)
        e = sub_scalar(d.fn(g), m)
        flat = tuple(t for x in g for t in x)

        def val_(k):
            def fn(labels):
                s = dict(zip(flat, (t for x in labels for t in x)))
                s.update({l: k[0], q: k[1]})
                return sub_scalar(e, s)
            return AData(axes, fn, d.dtype)
        return SymMap(lambda k: subst(h, {l: k[0], q: k[1]}), val_, subst(c.lhi, m), c.order)


class Loop:
    def __init__(self, it, seq, bind, body, node):
        self.it, self.seq, self.bind, self.body, self.node = it, seq, bind, body, node
        self.dom = seq.dom
        self.kinds = {}
        self.mods = []            # ordered list of (cid, key) ; key None for whole cells
        self.line = getattr(node, "lineno", "?")

    def bad(self, why):
        raise Unsupported("loop at line %s: %s" % (self.line, why))

    # ------------------------------------------------------------ driver
    def run(self):
        it, dom = self.it, self.dom
        if dom.arity == 0:
            self.bad("iteration over an empty label")
        base, base_pc = it.snapshot()
        self.base = base
        if self.run_family():
            return
        xs = dom.fresh("x")
        for attempt in range(12):
            self.holes, self.hsyms = {}, {}
            self.uf = {}
            start = dict(base)
            for place in self.mods:
                self.place_hole(start, place)
            outer_log = it.map_log
            watched = {cid for cid, key in self.mods if key is None and isinstance(base[cid], (SymMap, dict))}
            it.map_log = {"watched": watched | (outer_log["watched"] if outer_log else set()), "reads": [], "writes": [], "whole": set(),
                          "inner": set()}
            names0 = set(it.name_cells)

            def thunk():
                it.heap = dict(start)
                it.assume(dom.pred(xs))
                v = self.seq.fn(xs)
                self.bind(v)
                self.body()
            try:
                paths = it.explore(thunk)
            finally:
                log, it.map_log = it.map_log, outer_log
                if outer_log is not None:
                    for k in ("reads", "writes"):
                        outer_log[k] += log[k]
                    outer_log["whole"] |= log["whole"]
                    outer_log["inner"] |= log["inner"] | set(xs)
            if not paths:
                return
            if not self.grow(start, paths):
                break
        else:
            self.bad("modified locations do not stabilise")
        self.xs, self.log, self.start = xs, log, start
        self.exits([p for p in paths if p.kind not in ("ok", "continue")])
        paths = [p for p in paths if p.kind in ("ok", "continue")]
        if not paths:
            # every iteration leaves: the set is empty here
            return
        # cells created by the body stay available to summarised values
        for p in paths:
            for cid, c in p.heap.items():
                if cid not in it.heap and cid not in start:
                    it.heap[cid] = c
        for place in self.mods:
            cid, key = place
            if key is None and isinstance(base[cid], AData) is False and not isinstance(base[cid], (tuple,)):
                continue
        self.finish(paths)

    # ------------------------------------------------------------ families of objects
    def run_family(self):
        """a loop over all members of a live family in which every iteration changes its own member only

        Iterations touch disjoint cells, so together they change the template as the generic iteration does."""
        it, dom = self.it, self.dom
        if not any(f.live for f in it.families) or it.family_probe is not None or dom.arity != 1 or dom.filt is not TRUE:
            return False
        xs = dom.fresh("x")
        it.family_probe = found = []
        try:
            it.explore(lambda: self.seq.fn(xs))
        finally:
            it.family_probe = None
        fams = {f for f, t in found}
        if len(fams) != 1 or any(t is not xs[0] for _, t in found):
            return False
        fam, = fams
        if not fam.live or fam in it.family_active or not it.np.same_dom(fam.range, dom):
            return False
        cells = fam.cells()
        before, active = it.map_log, it.family_active
        if before is not None:
            it.map_log = {k: (list(v) if isinstance(v, list) else set(v)) for k, v in before.items()}
        it.family_active = active + (fam,)
        outcome = []

        def thunk():
            it.assume(dom.pred((fam.i,)))
            self.bind(self.seq.fn((fam.i,)))
            try:
                self.body()
            finally:
                outcome.append(fam.cells())
        ok = False
        try:
            paths = it.explore(thunk)
            if len(paths) == 1 and paths[0].kind in ("ok", "continue") and not paths[0].conds:
                p = paths[0]
                changed = {cid for cid, c in self.base.items() if p.heap.get(cid) is not c}
                ok = bool(changed & cells) and all(c in cells or c in it.name_cells for c in changed)
        finally:
            it.family_active = active
            if not ok:
                it.map_log = before
            elif before is not None:
                for k in before:
                    if isinstance(before[k], list):
                        before[k][:] = it.map_log[k]
                    else:
                        before[k] |= it.map_log[k]
                it.map_log = before
        if not ok:
            return False
        heap = dict(it.heap)
        for cid, c in p.heap.items():
            old = heap.get(cid)
            if cid not in heap or cid in cells:
                heap[cid] = c
            elif old is not c:
                d = dict(old)
                for k in c:
                    if k not in d or d[k] is not c[k]:
                        d[k] = Poison("value of the last iteration of the loop at line %s" % self.line)
                heap[cid] = d
        it.heap = heap
        return True

    # ------------------------------------------------------------ placeholders
    def place_hole(self, start, place):
        it = self.it
        cid, key = place
        old = self.base[cid]
        if key is None:
            if isinstance(old, AData):
                n = "hole%d" % next(_hole)
                self.uf[n] = place
                kind = old.dtype

                def fn(labels, n=n, kind=kind):
                    a = tuple(t for l in labels for t in l)
                    if kind == "complex":
                        return Cx(app(n, a + (ZERO,), "R"), app(n, a + (ONE,), "R"))
                    s = {"bool": "B", "int": "I"}.get(kind, "R")
                    return app(n, a, s)
                self.holes[place] = n
                start[cid] = AData(old.axes, fn, old.dtype)
            elif isinstance(old, tuple):
                h = ("hole", next(_hole))
                self.holes[place] = h
                start[cid] = (h,)
            # maps start from their initial content; the access log shows each key is touched once
            return
        d = dict(start[cid])
        v0 = old[key]
        kind = self.kinds.get(place)
        if kind is None:
            kind = self.kind_of(v0)
            self.kinds[place] = kind
        n = "hole%d" % next(_hole)
        if kind in ("B", "I", "R"):
            h = var(n, kind)
            self.hsyms[h] = place
            self.holes[place] = h
            d[key] = h
        elif kind == "C":
            h = Cx(var(n + "r", "R"), var(n + "i", "R"))
            self.hsyms[h.re] = self.hsyms[h.im] = place
            self.holes[place] = h
            d[key] = h
        elif isinstance(kind, tuple):
            axes, dt = kind
            self.uf[n] = place

            def fn(labels, n=n, dt=dt):
                a = tuple(t for l in labels for t in l)
                if dt == "complex":
                    return Cx(app(n, a + (ZERO,), "R"), app(n, a + (ONE,), "R"))
                return app(n, a, {"bool": "B", "int": "I"}.get(dt, "R"))
            self.it.next += 1
            c = self.it.next
            start[c] = AData(axes, fn, dt)
            self.holes[place] = (n, c)
            d[key] = Arr(it, c, axes)
        else:
            self.holes[place] = None
            d[key] = Poison("value carried between iterations of the loop at line %s" % self.line)
        start[cid] = d

    def kind_of(self, v):
        if isinstance(v, bool):
            return "B"
        if isinstance(v, int):
            return "I"
        if isinstance(v, float):
            return "R"
        if isinstance(v, (complex, Cx)):
            return "C"
        if isinstance(v, T):
            return v.sort if v.sort in "BIR" else None
        if isinstance(v, Arr):
            return (v.axes, v.dtype)
        return None

    ORDER = {"B": 0, "I": 1, "R": 2, "C": 3}

    # ------------------------------------------------------------ modified locations
    def grow(self, start, paths):
        saved = self.it.heap
        try:
            return self.grow_(start, paths)
        finally:
            self.it.heap = saved

    def grow_(self, start, paths):
        changed = False
        have = set(self.mods)
        for p in paths:
            self.it.heap = p.heap
            if p.kind not in ("ok", "continue"):
                # an iteration that leaves the loop: what it changed is handled by the exit
                continue
            for cid in self.base:
                a, b = start[cid], p.heap.get(cid)
                if a is b:
                    continue
                if isinstance(a, dict) and isinstance(b, dict):
                    for k in a:
                        if k not in b:
                            if cid in self.it.name_cells:
                                continue
                            self.bad("a dictionary entry is removed")
                        if a[k] is not b[k] and not (type(a[k]) is type(b[k]) and isinstance(a[k], (int, float, str)) and a[k] == b[k]):
                            if (cid, k) not in have:
                                self.mods.append((cid, k))
                                have.add((cid, k))
                                changed = True
                    for k in b:
                        if k not in a and cid not in self.it.name_cells:
                            self.bad("a dictionary gains an entry")
                elif (cid, None) not in have:
                    self.mods.append((cid, None))
                    have.add((cid, None))
                    changed = True
            # kinds may widen
            for place in self.mods:
                cid, k = place
                if k is None or place not in self.kinds or k not in p.heap.get(cid, {}):
                    continue
                e = p.heap[cid][k]
                h = self.holes.get(place)
                if h is None and self.kinds[place] is not None:
                    continue
                new, old = self.kind_of(e), self.kinds[place]
                if isinstance(e, Poison):
                    continue
                if new == old or old is None:
                    continue
                if isinstance(new, tuple) and isinstance(old, tuple):
                    if len(new[0]) == len(old[0]) and all(self.it.np.same_axis(x, y) for x, y in zip(new[0], old[0])):
                        dt = self.it.np.promote(new[1], old[1])
                        if dt != old[1]:
                            self.kinds[place] = (old[0], dt)
                            changed = True
                    elif self.uses_hole(e, place) and all(ax.is_one() for ax in old[0]):
                        self.kinds[place] = new
                        changed = True
                    elif self.uses_hole(e, place):
                        self.bad("an array changes its shape")
                elif isinstance(new, tuple):
                    if self.uses_hole(e, place):
                        self.kinds[place] = new
                        changed = True
                elif isinstance(old, tuple):
                    pass
                elif new in self.ORDER and old in self.ORDER:
                    if self.ORDER[new] > self.ORDER[old] and self.uses_hole(e, place):
                        self.kinds[place] = new
                        changed = True
        return changed

    def uses_hole(self, e, place):
        h = self.holes.get(place)
        if h is None:
            return False
        syms = set()
        if isinstance(h, T):
            syms = {h}
        elif isinstance(h, Cx):
            syms = {h.re, h.im}
        fv = set()
        names = set()
        for t in self.terms_of(e):
            fv |= free_vars(t)
            if isinstance(h, tuple):
                names |= self.uf_names(t)
        if syms & fv:
            return True
        return isinstance(h, tuple) and h[0] in names

    def terms_of(self, v):
        if isinstance(v, T):
            return [v]
        if isinstance(v, Cx):
            return [v.re, v.im]
        if isinstance(v, Arr):
            ls = tuple(a.dom.fresh("g") for a in v.axes)
            try:
                return self.terms_of(v.elem()(ls))
            except KeyError:
                return []
        if isinstance(v, (tuple, list)):
            return [t for x in v for t in self.terms_of(x)]
        return []

    def uf_names(self, t):
        return {s.args[0] for s in tm.subterms(t) if s.op == "app"} & set(self.uf)

    # ------------------------------------------------------------ exits
    def clean(self, t):
        """no placeholder occurs"""
        return not (free_vars(t) & set(self.hsyms)) and not self.uf_names(t)

    def over(self, op, c):
        dom, xs = self.dom, self.xs
        return dom.binder(op, lambda ys: subst(c, dict(zip(xs, ys))))

    def exits(self, paths):
        it = self.it
        for p in paths:
            if p.kind == "break":
                self.bad("break in a symbolic loop")
        rets = [p for p in paths if p.kind == "return"]
        raises = [p for p in paths if p.kind == "raise"]
        for p in raises + rets:
            if not self.clean(p.cond()):
                self.bad("an exit depends on earlier iterations (%s)" % (p.value if p.kind == "raise" else "return"))
        kinds = []
        for p in raises:
            k = next((x for x in kinds if x[0] == p.value.etype), None)
            if k is None:
                kinds.append([p.value.etype, p.value, [p.cond()]])
            else:
                k[2].append(p.cond())
        if len(kinds) + (1 if rets else 0) > 1:
            # which exit comes first depends on the order of the elements
            self.bad("several kinds of exits")
        for etype, exc, conds in kinds:
            c = self.over("exists", or_(*conds))
            if it.decide(c):
                e = PyRaise(etype, exc.msg)
                e.partial = bool(self.mods)
                raise e
            it.assume(self.over("forall", not_(or_(*conds))))
        if rets:
            if self.mods:
                for cid, key in self.mods:
                    if cid not in it.name_cells:
                        self.bad("return from a loop with effects")
            vals = [p.value for p in rets]
            for v in vals:
                if not (v is None or isinstance(v, (bool, int, float, str))) or v != vals[0]:
                    self.bad("return of a value that depends on the iteration")
            c = or_(*[p.cond() for p in rets])
            from interp import Return
            if it.decide(self.over("exists", c)):
                raise Return(vals[0])
            it.assume(self.over("forall", not_(c)))

    # ------------------------------------------------------------ closing
    def finish(self, paths):
        it, xs = self.it, self.xs
        results = {}
        # induction variables first: their value inside the body is known in closed form
        ind = {}
        dom = self.dom
        if dom.arity == 1 and dom.filt is TRUE and dom.order == "lex" and dom.kind != "pack":
            for place in self.mods:
                h = self.holes.get(place)
                if isinstance(h, T) and h.sort in "IR":
                    e = self.merged(paths, place)
                    if not isinstance(e, T):
                        continue
                    d = self.delta(e, h)
                    if d is not None and d is not ZERO and not (free_vars(d) & set(xs)) and self.clean(d):
                        v0 = it.t(self.base[place[0]][place[1]])
                        ind[h] = add(v0, mul(d, sub(xs[0], dom.los[0])))
                        results[place] = ite(gt(dom.his[0], dom.los[0]), add(v0, mul(d, sub(dom.his[0], dom.los[0]))), v0)
        self.ind = ind
        heap_new = {}
        for place in self.mods:
            if place in results:
                continue
            results[place] = self.close(paths, place)
        heap = dict(it.heap)
        for (cid, key), v in results.items():
            if key is None:
                heap[cid] = v
            else:
                d = dict(heap[cid])
                d[key] = v
                heap[cid] = d
        for cid in self.base:
            if cid in it.name_cells:
                new = {k for p in paths for k in p.heap[cid]} - set(self.base[cid])
                gone = {k for k in self.base[cid] for p in paths if k not in p.heap[cid]}
                if new or gone:
                    d = dict(heap[cid])
                    for k in new | gone:
                        d[k] = Poison("%s is set inside the loop at line %s" % (k, self.line))
                    heap[cid] = d
        it.heap = heap

    def cond(self, p):
        return subst(p.cond(), self.ind) if getattr(self, "ind", None) else p.cond()

    def merged(self, paths, place):
        cid, key = place
        vals = []
        for p in paths:
            d = p.heap[cid]
            if key not in d:
                return None
            vals.append((p.conds, d[key]))
        try:
            return self.it.merge_tree(vals)
        except Unsupported:
            return None

    def close(self, paths, place):
        it = self.it
        cid, key = place
        old = self.base[cid]
        if key is None:
            if isinstance(old, AData):
                return self.close_array(paths, place, old)
            if isinstance(old, tuple):
                return self.close_list(paths, place, old)
            if isinstance(old, (SymMap, dict)):
                return self.close_map(paths, place, old)
            self.bad("a modified cell of unknown kind")
        v0 = old[key]
        h = self.holes[place]
        if h is None:
            return Poison("last value of a loop variable (line %s)" % self.line)
        e = self.merged(paths, place)
        if e is None or isinstance(e, Poison):
            return Poison("last value of a loop variable (line %s)" % self.line)
        if not self.uses_hole(e, place):
            # overwritten in every iteration
            return Poison("last value of a loop variable (line %s)" % self.line)
        try:
            if isinstance(h, tuple):
                n, hc = h
                if not isinstance(e, Arr):
                    self.bad("an array variable becomes something else")
                g = tuple(a.dom.fresh("g") for a in e.axes)
                start = AData(e.axes, lambda ls: self.start_elem(v0, e.axes, ls), e.dtype)
                data = self.array_form(e.axes, e.elem()(g), g, n, start, e.dtype)
                if not isinstance(v0, Arr) or len(v0.axes) != len(e.axes):
                    # the shape before the first iteration differs
                    if not it.decide(self.over("exists", TRUE)):
                        return v0
                return it.np.new(data.axes, data.fn, data.dtype)
            if isinstance(h, Cx):
                e, v = it.cx(e), it.cx(v0)
                return Cx(self.form(e.re, h.re, v.re), self.form(e.im, h.im, v.im))
            v = it.t(v0)
            if h.sort != "B":
                v = it.as_num(v)
            return self.form(it.t(e), h, v)
        except Unsupported as ex:
            # an unusable value only matters if it is read later
            return Poison(str(ex))

    def start_elem(self, v0, axes, labels):
        it = self.it
        if isinstance(v0, Arr):
            return it.np.getter(v0, axes)(labels)
        return v0

    # closed form of one scalar location
    def form(self, e, h, v0, g=()):
        """e(xs, h) -> closed form; g: generic labels of the location"""
        if self.ind:
            e = subst(e, self.ind)
        xs = self.xs
        if e is h:
            return v0
        if h not in free_vars(e):
            if not self.clean(e):
                self.bad("a value depends on earlier iterations")
            if not (free_vars(e) & set(xs)):
                return ite(self.over("exists", TRUE), e, v0)
            self.bad("only the last iteration determines the value")
        # at most one iteration touches the location
        r = self.single(e, h, v0)
        if r is not None:
            return r
        d = self.delta(e, h)
        if d is not None:
            if not self.clean(d):
                self.bad("an increment depends on earlier iterations")
            return add(v0, self.over("sum", d))
        if h.sort == "B":
            r = self.boolean_form(e, h)
            if r is not None:
                op, c = r
                if not self.clean(c):
                    self.bad("a condition depends on earlier iterations")
                if op == "and":
                    return and_(v0, self.over("forall", c))
                return or_(v0, self.over("exists", c))
        for sign in (1, -1):
            m = self.maxform(e, h, sign)
            if m is not None:
                r = v0 if sign == 1 else neg(v0)
                for item in m:
                    c, b = item[:2]
                    if not self.clean(c) or not self.clean(b):
                        self.bad("an extremum depends on earlier iterations")
                    bb = b if sign == 1 else neg(b)
                    dom, m_ = self.dom, None
                    if len(item) == 3:
                        # an extremum taken by an inner loop
                        zs, zlo, zhi, zf = item[2]
                        if not all(self.clean(t) for t in tuple(zlo) + tuple(zhi) + (zf,)):
                            self.bad("an extremum depends on earlier iterations")
                        ys = tuple(fresh("d", "I") for _ in dom.vars)
                        los, his, filt = dom.inst(ys)
                        s = dict(zip(xs, ys))
                        u = lambda t: subst(t, s)
                        r = tm.binder("maxo", ys + zs, tuple(los) + tuple(u(t) for t in zlo), tuple(his) + tuple(u(t) for t in zhi),
                                      and_(filt, u(c), u(zf)), u(bb), r)
                        continue
                    if not (free_vars(bb) & set(xs)):
                        # the same bound in every iteration
                        r = ite(self.over("exists", c), tmax(r, bb), r)
                        continue
                    ys = tuple(fresh("d", "I") for _ in dom.vars)
                    los, his, filt = dom.inst(ys)
                    s = dict(zip(xs, ys))
                    r = tm.binder("maxo", ys, los, his, and_(filt, subst(c, s)), subst(bb, s), r)
                return r if sign == 1 else neg(r)
        f = self.flag(e, h)
        if f is not None:
            c, k = f
            if self.clean(c) and self.clean(k) and not (free_vars(k) & set(xs)):
                return ite(self.over("exists", c), k, v0)
        self.bad("no closed form for an iterated value: %s" % tm.show(e)[:160])

    def delta(self, e, h):
        if e is h:
            return ZERO
        if h not in free_vars(e):
            return None
        if e.op == "add":
            with_h = [a for a in e.args if h in free_vars(a)]
            if len(with_h) != 1:
                return None
            d = self.delta(with_h[0], h)
            if d is None:
                return None
            return add(d, *[a for a in e.args if a is not with_h[0]])
        if e.op == "ite" and h not in free_vars(e.args[0]):
            a, b = self.delta(e.args[1], h), self.delta(e.args[2], h)
            if a is None or b is None:
                return None
            return ite(e.args[0], a, b)
        return None

    def boolean_form(self, e, h):
        if e is h:
            return None
        if e.op == "and":
            w = [a for a in e.args if h in free_vars(a)]
            if len(w) == 1 and w[0] is h:
                return "and", and_(*[a for a in e.args if a is not h])
        if e.op == "or":
            w = [a for a in e.args if h in free_vars(a)]
            if len(w) == 1 and w[0] is h:
                return "or", or_(*[a for a in e.args if a is not h])
        one, zero = subst(e, {h: TRUE}), subst(e, {h: FALSE})
        if zero is FALSE:
            return "and", one
        if one is TRUE:
            return "or", zero
        pc = self.it.pc
        if pc.proves(not_(zero)):
            return "and", one
        if pc.proves(one):
            return "or", zero
        return None

    def maxform(self, e, h, sign):
        if e is h:
            return []
        if h not in free_vars(e):
            return None
        x = e if sign == 1 else neg(e)
        if x.op == "maxo":
            n = x.args[0]
            init = x.args[2 + 2 * n + 2:]
            if len(init) == 1 and h in free_vars(init[0]) and not any(h in free_vars(t) for t in x.args[2:2 + 2 * n + 2]):
                rest = self.maxform(init[0] if sign == 1 else neg(init[0]), h, sign)
                if rest is not None:
                    ys, los, his, filt, body = tm.open_binder(x)
                    return rest + [(TRUE, body if sign == 1 else neg(body), (ys, los, his, filt))]
            return None
        if e.op != "ite":
            return None
        c, a, b = e.args
        if h not in free_vars(c):
            x, y = self.maxform(a, h, sign), self.maxform(b, h, sign)
            if x is None or y is None:
                return None
            return [(and_(c, p[0]),) + tuple(p[1:]) for p in x] + [(and_(not_(c), p[0]),) + tuple(p[1:]) for p in y]
        # ite(c, a, b) with one branch h and c comparing the other branch with h
        if a is h and h not in free_vars(b):
            want, other = (le, b)           # taken when b <= h (max)
            ok = (c in (le(b, h), lt(b, h))) if sign == 1 else (c in (le(h, b), lt(h, b)))
            if not ok:
                pc = self.it.pc
                ok = pc.proves(implies(c, le(b, h))) and pc.proves(implies(not_(c), le(h, b))) if sign == 1 else \
                    pc.proves(implies(c, le(h, b))) and pc.proves(implies(not_(c), le(b, h)))
            return [(TRUE, b)] if ok else None
        if b is h and h not in free_vars(a):
            ok = (c in (lt(h, a), le(h, a))) if sign == 1 else (c in (lt(a, h), le(a, h)))
            if not ok:
                pc = self.it.pc
                ok = pc.proves(implies(c, le(h, a))) and pc.proves(implies(not_(c), le(a, h))) if sign == 1 else \
                    pc.proves(implies(c, le(a, h))) and pc.proves(implies(not_(c), le(h, a)))
            return [(TRUE, a)] if ok else None
        return None

    def flag(self, e, h):
        if e.op == "ite" and h not in free_vars(e.args[0]):
            c, a, b = e.args
            if b is h:
                return c, a
            if a is h:
                return not_(c), b
        return None

    def single(self, e, h, v0):
        """ite(c, w, h) where c determines the iteration"""
        parts = self.flag(e, h)
        if parts is None:
            return None
        c, w = parts
        sol = self.solve_label(c)
        if sol is None:
            return None
        m, rest = sol
        hit = and_(self.dom.pred(tuple(m[x] for x in self.xs)), rest)
        if not self.clean(hit):
            return None
        w = subst(subst(w, m), {h: v0})
        if not self.clean(w):
            self.bad("a stored value depends on earlier iterations")
        return ite(hit, w, v0)

    def solve_label(self, c, forbidden=()):
        """c fixes every label variable: (solution, remaining condition)"""
        xs = list(self.xs)
        return solve_for(c, xs, self.it.pc)

    # ------------------------------------------------------------ arrays
    def close_array(self, paths, place, old):
        it = self.it
        cid, _ = place
        n = self.holes[place]
        g = tuple(a.dom.fresh("g") for a in old.axes)
        vals = [(p.conds, p.heap[cid].fn(g)) for p in paths]
        e = it.merge_tree(vals)
        return self.array_form(old.axes, e, g, n, old, old.dtype)

    def array_form(self, axes, e, g, n, start, dtype):
        it = self.it
        flat = tuple(t for l in g for t in l)
        v0 = start.fn(g)
        m = {}
        if dtype == "complex":
            own_r, own_i = app(n, flat + (ZERO,), "R"), app(n, flat + (ONE,), "R")
            hr, hi = fresh("hr", "R"), fresh("hi", "R")
            self.hsyms[hr] = self.hsyms[hi] = None
            e, v0 = it.cx(e), it.cx(v0)
            re, im = replace_app(e.re, {own_r: hr, own_i: hi}), replace_app(e.im, {own_r: hr, own_i: hi})
            v = Cx(self.form(re, hr, v0.re, g), self.form(im, hi, v0.im, g))
        else:
            s = {"bool": "B", "int": "I"}.get(dtype, "R")
            own = app(n, flat, s)
            h = fresh("h", s)
            self.hsyms[h] = None
            e = it.t(e)
            v0 = it.t(v0)
            if s != "B":
                e, v0 = it.as_num(e), it.as_num(v0)
            v = self.form(replace_app(e, {own: h}), h, v0, g)
        return AData(axes, template(v, g), dtype)

    # ------------------------------------------------------------ lists
    def close_list(self, paths, place, old):
        hole = self.holes[place]
        cid, _ = place
        outs = []
        for p in paths:
            segs = p.heap[cid]
            if not segs or segs[0] != hole:
                self.bad("a list is rebuilt inside the loop")
            if any(s == hole for s in segs[1:]):
                self.bad("a list is repeated inside the loop")
            outs.append((self.cond(p), segs[1:]))
        live = [(c, s) for c, s in outs if s]
        if not live:
            return old
        n = len(live[0][1])
        if any(len(s) != n for _, s in live):
            self.bad("iterations append different numbers of items")
        for c, _ in outs:
            if not self.clean(c):
                self.bad("appending depends on earlier iterations")
        it, xs, dom = self.it, self.xs, self.dom
        keep = or_(*[c for c, _ in live]) if len(live) < len(outs) else TRUE
        if n != 1:
            if len(live) == 1 and all(s[0] == "one" for s in live[0][1]):
                # k items per iteration
                dom2 = dom.filter(lambda v: subst(keep, dict(zip(xs, v)))) if keep is not TRUE else dom
                k = n
                d = dom2.product(lambda ls: range_dom(k))
                fns = [self.abstract(s[1], xs) for s in live[0][1]]

                def fn(ls):
                    i = ls[-1]
                    if i.op == "num":
                        return fns[int(val(i))](ls[:-1])
                    return it.merge([(eq(i, num(j)), fns[j](ls[:-1])) for j in range(k)])
                return old + (("seq", Seq(d, fn)),)
            self.bad("iterations append several items")
        dom2 = dom.filter(lambda v: subst(keep, dict(zip(xs, v)))) if keep is not TRUE else dom
        if all(s[0][0] == "one" for _, s in live):
            if len(live) == 1:
                v = live[0][1][0][1]
            else:
                v = it.merge([(c, s[0][1]) for c, s in live])
            if isinstance(v, Obj) and not isinstance(v, Member) and v.cid not in self.base and len(live) == len(paths) == 1 and dom.arity == 1:
                return old + (("seq", self.family_of(v)),)
            return old + (("seq", Seq(dom2, self.abstract(v, xs))),)
        if len(live) == 1 and live[0][1][0][0] == "seq":
            inner = live[0][1][0][1]
            idom = inner.dom
            ys = idom.fresh("y")
            v = inner.fn(ys)
            d = dom2.product(lambda ls: sub_dom(idom, dict(zip(xs, ls))))
            f = self.abstract(v, xs + ys)
            return old + (("seq", Seq(d, f)),)
        self.bad("iterations append different kinds of items")

    def family_of(self, o):
        """the objects built by the iterations"""
        it, x = self.it, self.xs[0]
        if self.ind:
            self.bad("objects that depend on earlier iterations")
        fam = Family(it, o, x, self.dom)
        for c in fam.cells():
            if c in self.base:
                continue
            d = it.heap.get(c)
            if isinstance(d, dict):
                for y in d.values():
                    for t in self.terms_of(y):
                        if not self.clean(t):
                            self.bad("an object depends on earlier iterations")
            elif isinstance(d, AData):
                g = tuple(a.dom.fresh("g") for a in d.axes)
                y = d.fn(g)
                for t in self.terms_of(y):
                    if not self.clean(t):
                        self.bad("an object depends on earlier iterations")
            elif isinstance(d, SymMap):
                self.bad("objects built with contents of symbolic size")
        it.families.append(fam)
        return Seq(self.dom, lambda ls: fam.member(ls[0]))

    def abstract(self, v, xs):
        """value of a generic iteration -> function of the labels"""
        it = self.it
        if isinstance(v, ListRef) and v.cid not in self.base and isinstance(it.heap.get(v.cid), tuple):
            return self.lists(it.heap[v.cid], xs)
        if self.ind:
            v = sub_any(it, v, self.ind)
        self.check_clean(v)
        return lambda ls: sub_any(it, v, dict(zip(xs, ls)), self.base)

    def lists(self, segs, xs):
        """lists built by the iterations: from now on they are not modified"""
        it, made = self.it, {}
        if self.ind:
            segs = sub_any(it, segs, self.ind)
        self.check_clean(segs)

        def fn(ls):
            ls = tuple(ls)
            r = made.get(ls)
            if r is None or r.cid not in it.heap:
                r = made[ls] = it.new_list(sub_any(it, segs, dict(zip(xs, ls)), self.base))
                it.own_cells.add(r.cid)
                it.family_cells[r.cid] = it.heap[r.cid]
            return r
        return fn

    def check_clean(self, v):
        if isinstance(v, (Poison,)):
            raise Unsupported(v.why)
        if isinstance(v, StrVal):
            for p in v.parts:
                if not isinstance(p, str):
                    self.check_clean(tuple(x for x in p if not isinstance(x, str)))
            return
        if isinstance(v, (ListRef, DictRef)):
            self.bad("a mutable container is collected")
        if isinstance(v, Seq):
            ys = v.dom.fresh("y")
            self.check_clean(v.fn(ys))
            for t in (*v.dom.los, *v.dom.his, v.dom.filt):
                self.check_clean(t)
            return
        if isinstance(v, tuple):
            for x in v:
                if not isinstance(x, str):
                    self.check_clean(x)
            return
        for t in self.terms_of(v):
            if not self.clean(t):
                self.bad("a collected value depends on earlier iterations")

    # ------------------------------------------------------------ maps
    def close_map(self, paths, place, old):
        it, xs = self.it, self.xs
        cid, _ = place
        if cid in self.log["whole"]:
            self.bad("the whole map is read while it is being written")
        keys = []
        for c, k, pc in self.log["writes"] + self.log["reads"]:
            if c == cid:
                keys.append((k, pc))
        wkeys = [k for c, k, _ in self.log["writes"] if c == cid]
        if not wkeys:
            self.bad("a map changes without a recorded write")
        f = wkeys[0]
        inner = self.log["inner"]
        q = (fresh("q", "I"), fresh("q", "I"))
        one_key = not (inner & (free_vars(f[0]) | free_vars(f[1]))) and \
            all(all(pc.proves(eq(a, b)) for a, b in zip(k, f)) for k, pc in keys)
        if one_key:
            sol = solve_for(and_(eq(f[0], q[0]), eq(f[1], q[1])), list(xs), it.pc) or self.position(f, q)
            if sol is None:
                self.bad("map keys not shown to be distinct between iterations")
            m, rest = sol
        else:
            # several keys per iteration: each determines the iteration, in the same way
            m, rest = None, TRUE
            for k, pc in keys:
                ys = sorted(inner & (free_vars(k[0]) | free_vars(k[1])), key=lambda t: t.args[0])
                sol = solve_for(and_(eq(k[0], q[0]), eq(k[1], q[1])), list(xs) + ys, it.pc, need=list(xs))
                if sol is None or any(free_vars(sol[0][x]) & (set(xs) | inner) for x in xs):
                    self.bad("map keys not shown to be distinct between iterations")
                if m is None:
                    m = {x: sol[0][x] for x in xs}
                elif any(m[x] is not sol[0][x] for x in xs):
                    self.bad("a map is accessed at several keys in one iteration")
        hit = and_(self.dom.pred(tuple(m[x] for x in xs)), rest)
        if isinstance(old, dict):
            old = it.to_symmap(old)
        ind = getattr(self, "ind", None)
        ends = [([subst(c, ind) for c in p.conds] if ind else p.conds, p.heap[cid]) for p in paths]
        r = it.merge_tree([(c, e.has(q) if isinstance(e, SymMap) else FALSE) for c, e in ends], 0, ite)
        has1 = subst(r, m)
        has_q = ite(hit, has1, old.has(q))
        if not self.clean(has_q):
            self.bad("a map key depends on earlier iterations")
        # values: shape must not depend on the key
        live = [(c, e) for c, e in ends if isinstance(e, SymMap)]
        vd = it.merge_tree([(c, e.val(q)) for c, e in live], 0, it.adata_ite)
        for ax in vd.axes:
            for t in ax.dom.los + ax.dom.his + (ax.dom.filt,):
                if free_vars(t) & (set(xs) | set(q)):
                    self.bad("map values of varying shape")
        g = tuple(a.dom.fresh("g") for a in vd.axes)
        v1 = sub_scalar(vd.fn(g), m)
        if self.ind:
            v1 = sub_scalar(v1, self.ind)
        for t in self.terms_of(v1):
            if not self.clean(t):
                self.bad("a map value depends on earlier iterations")
        no_old = old.lhi is ZERO

        def has(k):
            return subst(has_q, dict(zip(q, k)))

        def value(k):
            s = dict(zip(q, k))
            new = AData(vd.axes, template(sub_scalar(v1, s), g), vd.dtype)
            if no_old:
                return new
            return it.adata_ite(subst(hit, s), new, old.val(k))
        # an upper bound of the degrees: the maximum over the iterations
        f0 = f[0]
        if not one_key:
            tops = {k[0] for c, k, _ in self.log["writes"] if c == cid}
            if len(tops) != 1 or free_vars(f0) & inner:
                self.bad("map keys of different degrees in one iteration")
        dom = self.dom
        ys = tuple(fresh("d", "I") for _ in dom.vars)
        los, his, filt = dom.inst(ys)
        lhi = None
        s = dict(zip(xs, ys))
        if dom.kind == "keys" and f0 is xs[0]:
            lhi = dom.his[0]
        else:
            b = add(subst(f0, s), ONE)
            if not (free_vars(f0) & set(xs)):
                lhi = ite(self.over("exists", TRUE), tmax(old.lhi, b), old.lhi)
            else:
                lhi = tm.binder("maxo", ys, los, his, filt, b, old.lhi)
            # |order| <= degree < bound for the bound being the maximum
            it.axiom(dom.binder("forall", lambda zs: le(add(subst(f0, dict(zip(xs, zs))), ONE), lhi)))
            it.axiom(ge(lhi, old.lhi))
            return SymMap(has, value, lhi)
        return SymMap(has, value, lhi if no_old else tmax(lhi, old.lhi))


    def position(self, f, q):
        """keys known to be distinct: the iteration that uses the key q is a function of q"""
        it, xs, dom = self.it, self.xs, self.dom
        if not self.clean(f[0]) or not self.clean(f[1]):
            return None
        ys = dom.fresh("y")
        s = dict(zip(xs, ys))
        g = tuple(subst(t, s) for t in f)
        same = and_(*[eq(x, y) for x, y in zip(xs, ys)])
        if not it.pc.proves(implies(and_(dom.pred(xs), dom.pred(ys), eq(f[0], g[0]), eq(f[1], g[1])), same)):
            return None
        los, his, filt = dom.inst(ys)
        t = tm.binder("maxo", ys, los, his, and_(filt, eq(g[0], q[0]), eq(g[1], q[1])), ZERO)
        name = "pos_%d" % t.id
        numeric.POSITION[name] = (t, q, xs, tuple(f), dom)
        at = lambda k: {x: app(name, (num(i),) + tuple(k), "I") for i, x in enumerate(xs)}
        it.axiom(dom.binder("forall", lambda zs: and_(*[eq(at([subst(t, dict(zip(xs, zs))) for t in f])[x], z) for x, z in zip(xs, zs)])))
        m = at(q)
        return m, and_(*[eq(subst(t, m), k) for t, k in zip(f, q)])


def solve_for(c, xs, pc, need=None):
    """Find the unique values of xs allowed by the equations in c."""
    lits = list(c.args) if c.op == "and" else [c]
    todo = list(xs)
    m = {}
    progress = True
    while todo and progress:
        progress = False
        for i, lit in enumerate(lits):
            if lit.op != "eq":
                continue
            a, b = lit.args
            if a.sort == "B":
                continue
            d = sub(a, b)
            for x in todo:
                if x not in free_vars(d):
                    continue
                d0 = subst(d, {x: ZERO})
                k = sub(subst(d, {x: ONE}), d0)
                if k.op != "num" or abs(val(k)) != 1 or x in free_vars(d0):
                    continue
                if sub(d, add(d0, mul(k, x))).op != "num":
                    continue
                if d0.sort != "I":
                    continue
                s = mul(neg(k), d0)
                if any(y in free_vars(s) for y in [x]):
                    continue
                m = {y: subst(t, {x: s}) for y, t in m.items()}
                m[x] = s
                todo.remove(x)
                lits = [subst(l, {x: s}) for j, l in enumerate(lits) if j != i]
                progress = True
                break
            if progress:
                break
    if need is not None:
        if any(x in todo for x in need):
            return None
        return m, and_(*lits)
    if todo:
        return None
    # no solution may mention another solved variable
    for t in m.values():
        if free_vars(t) & set(xs):
            return None
    return m, and_(*lits)


def replace_app(t, table, cache=None):
    """replace ground subterms"""
    if cache is None:
        cache = {}
    if t in table:
        return table[t]
    if t in cache:
        return cache[t]
    if not t.args or not any(isinstance(a, T) for a in t.args):
        r = t
    else:
        args = tuple(replace_app(a, table, cache) if isinstance(a, T) else a for a in t.args)
        r = t if all(x is y for x, y in zip(args, t.args)) else tm.rebuild(t, args)
    cache[t] = r
    return r


def template(v, g):
    flat = tuple(t for l in g for t in l)

    def fn(labels):
        return sub_scalar(v, dict(zip(flat, (t for l in labels for t in l))))
    return fn


def sub_scalar(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, Cx):
        return Cx(subst(v.re, m), subst(v.im, m))
    return v


def sub_dom(d, m):
    los = [subst(t, m) for t in d.los]
    his = [subst(t, m) for t in d.his]
    filt = subst(d.filt, m)
    if tuple(los) == d.los and tuple(his) == d.his and filt is d.filt:
        return d
    r = Dom(d.vars, los, his, filt, d.kind, d.order)
    return r


def sub_any(it, v, m, base=None):
    if isinstance(v, (T, Cx)):
        return sub_scalar(v, m)
    if isinstance(v, tuple):
        return tuple(sub_any(it, x, m, base) for x in v)
    if isinstance(v, Seq):
        ys = v.dom.fresh("y")
        e = sub_any(it, v.fn(ys), m, base)
        return Seq(sub_dom(v.dom, m), lambda ls: sub_any(it, e, dict(zip(ys, ls))))
    if isinstance(v, Arr):
        axes = tuple(Axis(sub_dom(a.dom, m), a.pack) for a in v.axes)
        axes = tuple(o if n.dom is o.dom else n for o, n in zip(v.axes, axes))
        g = tuple(a.dom.fresh("g") for a in v.axes)
        if base is not None and v.cid in base:
            # a view of an array that exists outside the loop stays a view
            if v.entry is not None or v.fwd is not None:
                f = v.fwd(g) if v.fwd is not None else g
                flat = tuple(t for l in g for t in l)

                def fwd(ls):
                    s = dict(m)
                    s.update(zip(flat, (t for l in ls for t in l)))
                    return tuple(tuple(subst(t, s) for t in l) for l in f)
                entry = tuple(subst(t, m) for t in v.entry) if v.entry is not None else None
                return Arr(it, v.cid, axes, fwd, None, entry)
            return v
        e = v.elem()(g)
        e = sub_scalar(e, m) if not it.is_scalar(e) or isinstance(e, (T, Cx)) else e
        return it.np.new(axes, template(e, g), v.dtype)
    if isinstance(v, StrVal):
        return StrVal([p if isinstance(p, str) else tuple(sub_any(it, x, m, base) if not isinstance(x, str) else x for x in p) for p in v.parts])
    if isinstance(v, Member):
        t = subst(v.term, m)
        return v if t is v.term else v.family.member(t)
    if isinstance(v, SetVal) and v.sym is not None:
        has, lhi = v.sym.has, v.sym.lhi
        l, q = fresh("sl", "I"), fresh("sm", "I")
        t = subst(has((l, q)), m)
        return SetVal(sym=SymMap(lambda k: subst(t, {l: k[0], q: k[1]}), None, subst(lhi, m)))
    if isinstance(v, Opaque) and getattr(v, "remake", None) is not None:
        return v.remake(sub_any(it, v.term, m, base))
    if isinstance(v, Opaque) and isinstance(v.term, T):
        r = Opaque(v.name, subst(v.term, m))
        r.__dict__.update({k: x for k, x in v.__dict__.items() if k not in ("name", "term")})
        return r
    return v
