"""Contracts for starwinds_magnetogram/geometry.py and longitudinal_field.py (S19, S20, S21)."""
import math
from spec import *
from c_zdi import Zdi, unit_vectors
from c_coord import el

G = "geometry:ZdiGeometry"
TWO_PI = mul(num(2), PI)


def corners(v, covering=False):
    """arbitrary ascending facet corners inside [0, pi] x [a, a + 2 pi], or covering the sphere"""
    P, A = v.dim("P"), v.dim("A")
    v.require(gt(P, ONE), gt(A, ONE))
    pc = v.array("pc", [P], "float", sampler=lambda r, a, m: a[0] * 0.3)
    ac = v.array("ac", [A], "float", sampler=lambda r, a, m: a[0] * 0.5 - 0.8)
    p, a = (lambda i: app("pc", (i,), "R")), (lambda i: app("ac", (i,), "R"))
    i, j = fresh("i", "I"), fresh("j", "I")
    v.require(range_dom(P).binder("forall", lambda q: and_(ge(p(q[0]), ZERO), le(p(q[0]), PI))))
    v.require(range_dom(sub(P, ONE)).binder("forall", lambda q: le(p(q[0]), p(add(q[0], ONE)))))
    v.require(range_dom(sub(A, ONE)).binder("forall", lambda q: le(a(q[0]), a(add(q[0], ONE)))))
    v.require(range_dom(A).binder("forall", lambda q: and_(ge(a(q[0]), a(ZERO)), le(a(q[0]), add(a(ZERO), TWO_PI)))))
    if covering:
        v.require(eq(p(ZERO), num(0, "R")), eq(p(sub(P, ONE)), PI), eq(a(sub(A, ONE)), add(a(ZERO), TWO_PI)))
    return P, A, pc, ac, p, a


def centre(x, i):
    return div(add(x(i), x(add(i, ONE))), num(2))


@unit("geometry.total", "S19", G + ".areas", cost=3)
def u_total(v):
    P, A, pc, ac, p, a = corners(v, covering=True)
    g = v.build(lambda: v.call(G, pc, ac))
    v.check_eq("areas of a covering grid add up to 4 pi", v.value(lambda: v.method(v.method(g, "areas"), "sum")), mul(num(4), PI))


def _ints(tag, args):
    @unit("geometry." + tag, "S19 S26", G + ".areas", cost=3)
    def u(v):
        P = v.dim("P") if args > 0 else num(65)
        A = v.dim("A") if args > 1 else mul(num(2), P)
        v.require(gt(P, ONE), gt(A, ONE))
        for g in v.each(lambda: v.call(G, *(P, A)[:args]), "ZdiGeometry"):
            r = v.it.concrete_items(v.value(lambda: v.method(g, "corners")))
            v.check_arr("polar corners evenly spaced over [0, pi]", r[0], [A, P], lambda i, j: div(mul(j, PI), sub(P, ONE)))
            v.check_arr("azimuthal corners evenly spaced over [0, 2 pi]", r[1], [A, P], lambda i, j: div(mul(i, TWO_PI), sub(A, ONE)))
            # the corners ascend from 0 to pi and from 0 to 2 pi, so geometry.total applies to the areas
            p, a = (lambda j: div(mul(j, PI), sub(P, ONE))), (lambda i: div(mul(i, TWO_PI), sub(A, ONE)))
            v.check_arr("areas", v.value(lambda: v.method(g, "areas")), [sub(A, ONE), sub(P, ONE)], lambda i, j:
                        mul(sub(app("cos", (p(j),), "R"), app("cos", (p(add(j, ONE)),), "R")), sub(a(add(i, ONE)), a(i))))
            v.check_eq("first polar corner", el(r[0], ZERO, ZERO), num(0, "R"))
            v.check_eq("last polar corner", el(r[0], ZERO, sub(P, ONE)), PI)
            v.check_eq("first azimuthal corner", el(r[1], ZERO, ZERO), num(0, "R"))
            v.check_eq("last azimuthal corner", el(r[1], sub(A, ONE), ZERO), TWO_PI)
            v.unchanged("nothing else changed", allow=[g])
    return u


# ------------------------------------------------------------------------------------------ S20
class Geo:
    """a grid built by the class in /repo from arbitrary corners, and its contract (proved in geometry.*)"""
    def __init__(self, v, covering=False):
        self.v = v
        self.P, self.A, self.pc, self.ac, self.p, self.a = corners(v, covering)
        self.FP, self.FA = sub(self.P, ONE), sub(self.A, ONE)
        self.obj = v.build(lambda: v.call(G, self.pc, self.ac))

    def centre(self, i, j):
        return centre(self.p, j), centre(self.a, i)

    def normal(self, i, j):
        return unit_vectors(*self.centre(i, j))[0]

    def area(self, i, j):
        p, a = self.p, self.a
        return mul(sub(app("cos", (p(j),), "R"), app("cos", (p(add(j, ONE)),), "R")), sub(a(add(i, ONE)), a(i)))

    def fraction(self, i, j, d):
        n = self.normal(i, j)
        dot = add(*[mul(x, y) for x, y in zip(n, d)])
        return ite(gt(dot, num(0, "R")), div(dot, sqrt(add(*[mul(x, x) for x in d]))), num(0, "R"))

    def sum(self, fn):
        i, j = fresh("i", "I"), fresh("j", "I")
        return binder("sum", (i, j), (ZERO, ZERO), (self.FA, self.FP), TRUE, fn(i, j))


@unit("geometry.visible", "S20 S26", G + ".projected_visible_area_fraction", cost=3)
def u_vis(v):
    g = Geo(v)
    d = v.array("d", [3], "float")
    dd = [app("d", (num(c),), "R") for c in range(3)]
    v.require(gt(add(*[mul(x, x) for x in dd]), num(0, "R")))
    for r in v.each(lambda: v.method(g.obj, "projected_visible_area_fraction", d), "projected_visible_area_fraction"):
        v.check_arr("cosine towards the direction, zero when facing away", r, [g.FA, g.FP], lambda i, j: g.fraction(i, j, dd))
        v.unchanged("direction unchanged", allow=[g.obj])
        v.fresh_result(r)
    k = v.real("k")
    with v.given(gt(k, num(0, "R"))):
        d2 = v.arr_of([3], lambda c: mul(k, app("d", (c,), "R")), "float")
        a = v.value(lambda: v.method(g.obj, "projected_visible_area_fraction", d))
        b = v.value(lambda: v.method(g.obj, "projected_visible_area_fraction", d2))
        v.check_arr("independent of the length of the direction", b, [g.FA, g.FP], lambda i, j: el(a, i, j))


for _n, _t in ((0, "default"), (1, "one_number"), (2, "two_numbers")):
    _ints(_t, _n)


@unit("geometry.arrays", "S19 S26", G + " geometry:ZdiGeometry.centers", cost=3)
def u_arr(v):
    P, A, pc, ac, p, a = corners(v)
    for g in v.each(lambda: v.call(G, pc, ac), "ZdiGeometry"):
        FP, FA = sub(P, ONE), sub(A, ONE)
        r = v.it.concrete_items(v.value(lambda: v.method(g, "corners")))
        v.check_arr("polar corners", r[0], [A, P], lambda i, j: p(j))
        v.check_arr("azimuthal corners", r[1], [A, P], lambda i, j: a(i))
        r = v.it.concrete_items(v.value(lambda: v.method(g, "centers")))
        v.check_arr("polar centres", r[0], [FA, FP], lambda i, j: centre(p, j))
        v.check_arr("azimuthal centres", r[1], [FA, FP], lambda i, j: centre(a, i))
        ar = v.value(lambda: v.method(g, "areas"))
        area = lambda i, j: mul(sub(app("cos", (p(j),), "R"), app("cos", (p(add(j, ONE)),), "R")), sub(a(add(i, ONE)), a(i)))
        v.check_arr("areas", ar, [FA, FP], area)
        i, j = fresh("i", "I"), fresh("j", "I")
        with v.given(ge(i, ZERO), lt(i, FA), ge(j, ZERO), lt(j, FP)):
            v.check("areas are not negative", ge(el(ar, i, j), num(0, "R")))
        n = v.value(lambda: v.method(g, "unit_normals"))
        v.check_arr("unit normals", n, [FA, FP, 3], lambda i, j, c: sel3(c, unit_vectors(centre(p, j), centre(a, i))[0]))
        for c, q in enumerate(v.it.concrete_items(v.value(lambda: v.method(g, "centers_cartesian")))):
            v.check_arr("Cartesian centres %d" % c, q, [FA, FP], lambda i, j: unit_vectors(centre(p, j), centre(a, i))[0][c])
        for c, q in enumerate(v.it.concrete_items(v.value(lambda: v.method(g, "corners_cartesian")))):
            v.check_arr("Cartesian corners %d" % c, q, [A, P], lambda i, j: unit_vectors(p(j), a(i))[0][c])
        v.unchanged("corner arrays unchanged", allow=[g])


def sel3(c, e):
    return ite(eq(c, ZERO), e[0], ite(eq(c, ONE), e[1], e[2]))


def field_contract(v, name, comps, label=None):
    """contract of a field method, discharged in c_zdi: at each point a function of the two angles there (components last)"""
    qual = "starwinds_magnetogram.zdi_magnetogram:ZdiMagnetogram." + name

    def apply(it, f, args, kwargs):
        b = it.bind_args(f, args, kwargs)
        vs = list(b.values())
        th, ph = vs[1], vs[2]
        if len(vs) != 3 or not isinstance(th, Arr) or not isinstance(ph, Arr) or len(th.axes) != len(ph.axes) or \
                not all(x is y or it.np.same_axis(x, y) for x, y in zip(th.axes, ph.axes)):
            return NotImplemented
        te, pe, n = th.elem(), ph.elem(), len(th.axes)
        axes = list(th.axes) + ([v.axis(3)] if comps else [])
        return v.arr_of(axes, lambda *ls: app("field." + (label or name), (te(th_labels(ls, n)), pe(th_labels(ls, n))) + tuple(ls[n:]), "R"), "float")
    v.it.contracts[qual] = apply


class AGeo:
    """a covering grid known only by the contracts of its methods (proved in geometry.arrays and geometry.total):
    facet centres, non-negative areas adding up to 4 pi"""
    def __init__(self, v):
        self.v = v
        self.P, self.A, self.pc, self.ac, _, _ = corners(v)
        self.FP, self.FA = sub(self.P, ONE), sub(self.A, ONE)
        self.obj = v.build(lambda: v.call(G, self.pc, self.ac))
        self.w = lambda i, j: app("area", (i, j), "R")
        self.centre = lambda i, j: (app("centre.polar", (i, j), "R"), app("centre.azimuth", (i, j), "R"))
        mk = lambda fn: v.arr_of([self.FA, self.FP], fn, "float")
        full = "starwinds_magnetogram." + G
        v.it.contracts[full + ".areas"] = lambda it, f, args, kwargs: mk(self.w)
        v.it.contracts[full + ".centers"] = lambda it, f, args, kwargs: tuple(mk(lambda i, j, c=c: self.centre(i, j)[c]) for c in (0, 1))
        v.it.samplers["area"] = lambda r, a, m: 4 * math.pi / max(1, m.ev(self.FP) * m.ev(self.FA))
        i, j = fresh("i", "I"), fresh("j", "I")
        v.require(binder("forall", (i, j), (ZERO, ZERO), (self.FA, self.FP), TRUE, ge(self.w(i, j), num(0, "R"))))
        v.require(eq(self.sum(self.w), mul(num(4), PI)))

    area = property(lambda self: self.w)
    sum = Geo.sum


def scalar(v, x):
    return v.it.t(x.elem()(())) if isinstance(x, Arr) and not x.axes else v.it.t(x)


def th_labels(ls, n):
    return tuple((x,) for x in ls[:n])


def _curve(tag, dtype):
    @unit("longitudinal." + tag, "S20 S26", "longitudinal_field:get_longitudinal_field_curve %s.projected_visible_area_fraction %s.areas zdi_magnetogram:ZdiMagnetogram.get_cartesian_field" % (G, G), cost=6)
    def u(v):
        g = Geo(v)
        z = Zdi(v)
        pol = v.real("observer")
        if dtype is None:
            M = g.A
            az = lambda k: div(mul(k, num(2), PI), sub(M, ONE))
            args = []
        else:
            M = v.dim("M")
            arr = v.array("az", [M], dtype)
            az = lambda k: app("az", (k,), "I" if dtype == "int" else "R")
            args = [arr]
        field_contract(v, "get_cartesian_field", True)
        fxyz = lambda i, j, q: app("field.get_cartesian_field", g.centre(i, j) + (num(q),), "R")
        for r in v.each(lambda: v.call("longitudinal_field:get_longitudinal_field_curve", g.obj, z.obj, pol, *args), "get_longitudinal_field_curve"):
            def want(k):
                d = unit_vectors(pol, az(k))[0]
                wt = lambda i, j: mul(g.area(i, j), g.fraction(i, j, d))
                los = lambda i, j: add(*[mul(fxyz(i, j, q), d[q]) for q in range(3)])
                return div(g.sum(lambda i, j: mul(los(i, j), wt(i, j))), g.sum(wt))
            v.check_arr("mean line-of-sight field weighted by the visible area", r, [M], want)
            v.unchanged("arguments unchanged", allow=[g.obj, z.obj])
            v.fresh_result(r)
    return u


_curve("float", "float")
_curve("int", "int")
_curve("default", None)


# ------------------------------------------------------------------------------------------ S21
METHODS = {"radial": ("get_radial_poloidal_field", "get_radial_toroidal_field"),
           "polar": ("get_polar_poloidal_field", "get_polar_toroidal_field"),
           "azimuthal": ("get_azimuthal_poloidal_field", "get_azimuthal_toroidal_field")}


def _describe(tag, dest, names):
    @unit("geometry.numerical_description" + tag, "S21 S26", "geometry:numerical_description %s.areas %s.centers" % (G, G), cost=9)
    def u(v):
        g = AGeo(v)
        z = Zdi(v)
        for pair in METHODS.values():
            for n in pair:
                for suffix in ("", "_new"):
                    field_contract(v, n + suffix, False, n)
        B = lambda n: (lambda i, j: app("field." + n, g.centre(i, j), "R"))
        fields = {}
        total = []
        for c, (p, t) in METHODS.items():
            fields[c + "-poloidal"], fields[c + "-toroidal"] = B(p), B(t)
            comp = (lambda p, t: lambda i, j: add(B(p)(i, j), B(t)(i, j)))(p, t)
            fields[c] = comp
            total.append(comp)
        fields["field strength"] = lambda i, j: sqrt(add(*[mul(c(i, j), c(i, j)) for c in total]))
        given = v.it.new_dict() if dest else None
        if dest:
            v.it.setitem(given, "other", num(3, "R"))
        for r in v.each(lambda: v.call("geometry:numerical_description", g.obj, z.obj, *([given] if dest else [])), "numerical_description"):
            get = lambda k: scalar(v, v.it.getitem(r, k))
            if dest:
                v.check("the given dictionary is filled", r is given or r == given)
                v.check_eq("other entries are kept", get("other"), num(3, "R"))
            for name, f in fields.items():
                if not name.startswith(names):
                    continue
                key = "magnetogram.%s.abs." % name
                absf = lambda i, j: ite(le(num(0, "R"), f(i, j)), f(i, j), neg(f(i, j)))
                mean = div(g.sum(lambda i, j: mul(absf(i, j), g.area(i, j))), mul(num(4), PI))
                ms = div(g.sum(lambda i, j: mul(f(i, j), f(i, j), g.area(i, j))), mul(num(4), PI))
                i, j = fresh("i", "I"), fresh("j", "I")
                v.check(name + ": no value exceeds the maximum", binder("forall", (i, j), (ZERO, ZERO), (g.FA, g.FP), TRUE, le(absf(i, j), get(key + "max"))))
                v.check(name + ": the maximum is a value", binder("exists", (i, j), (ZERO, ZERO), (g.FA, g.FP), TRUE, eq(absf(i, j), get(key + "max"))))
                v.check_eq(name + ": mean", get(key + "mean"), mean)
                v.check_eq(name + ": root mean square", get(key + "rms"), sqrt(ms))
                dev = lambda i, j: sub(absf(i, j), mean)
                v.check_eq(name + ": standard deviation", get(key + "std"), sqrt(div(g.sum(lambda i, j: mul(dev(i, j), dev(i, j), g.area(i, j))), mul(num(4), PI))))
            v.unchanged("arguments unchanged", allow=[g.obj, z.obj] + ([given] if dest else []))
    return u


_describe(".radial", False, ("radial",))
_describe(".polar", False, ("polar",))
_describe(".azimuthal", False, ("azimuthal",))
_describe(".strength", False, ("field strength",))
_describe(".into", True, ("none",))
