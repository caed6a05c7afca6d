"""Contracts for starwinds_magnetogram/zdi_magnetogram.py and associated_legendre.py (S12, S13, S14, S15)."""
from spec import *

Z = "zdi_magnetogram:ZdiMagnetogram"
I_ = Cx(ZERO, ONE)


def sb(v, op, a, b):
    return v.it.sbin(op, a, b)


def pos_arrays(v, N, lname="l", mname="m", neg_m=False):
    """degrees and orders of an arbitrary coefficient list with 0 <= m <= l (or -l <= m <= l)"""
    v.it.samplers[lname] = lambda r: r.choice([0, 1, 1, 2, 2, 3, 4])
    v.it.samplers[mname] = lambda r: r.choice([0, 0, 0, 1, 1, 2] if not neg_m else [0, 0, 1, -1, 2, -2])
    l, m = v.array(lname, [N], "int"), v.array(mname, [N], "int")
    dom = range_dom(N)
    v.require(dom.binder("forall", lambda q: and_(ge(app(lname, q, "I"), ZERO), le(app(mname, q, "I"), app(lname, q, "I")),
                                                  ge(app(mname, q, "I"), ZERO if not neg_m else neg(app(lname, q, "I"))))))
    return l, m


class Zdi:
    """a magnetogram built by the class in /repo from arbitrary coefficient lists"""
    def __init__(self, v, tag="", neg_m=False, order=None):
        self.v, self.it = v, v.it
        if order:
            self.l, self.m, self.N = order
        else:
            self.N = v.dim("N" + tag)
            self.l, self.m = pos_arrays(v, self.N, "l" + tag, "m" + tag, neg_m)
        self.fam = {n: v.array(n + tag, [self.N], "complex") for n in ("alpha", "beta", "gamma")}
        self.obj = v.build(lambda: v.call(Z, self.l, self.m, self.fam["alpha"], self.fam["beta"], self.fam["gamma"]))

    def at(self, i):
        e = lambda a: a.elem()(((i,),))
        return e(self.l), e(self.m), e(self.fam["alpha"]), e(self.fam["beta"]), e(self.fam["gamma"])


def c_lm(l, m):
    """sqrt((2l+1)/(4 pi) (l-m)!/(l+m)!)"""
    return sqrt(mul(div(add(mul(num(2), l), ONE), mul(num(4), PI)), div(app("fact", (sub(l, m),), "R"), app("fact", (add(l, m),), "R"))))


def leg(l, m, th):
    """P_lm(cos th) and its derivative with respect to th"""
    x = app("cos", (th,), "R")
    return app("P", (m, l, x), "R"), mul(neg(app("sin", (th,), "R")), app("dP", (m, l, x), "R"))


def eim(v, m, ph):
    t = mul(real(m), ph)
    return Cx(app("cos", (t,), "R"), app("sin", (t,), "R"))


def cmul(v, *xs):
    r = xs[0]
    for x in xs[1:]:
        r = v.it.sbin("Mult", r, x)
    return r


def series_term(v, comp, part, l, m, a, b, g, th, ph):
    """the term of one coefficient of the published series (complex; the field is its real part)"""
    P, dP = leg(l, m, th)
    e, c = eim(v, m, ph), c_lm(l, m)
    im = Cx(ZERO, real(m))
    s = app("sin", (th,), "R")
    l1 = add(real(l), ONE)
    q = lambda x, k: cmul(v, x, k)
    if (comp, part) == ("radial", "poloidal"):
        return cmul(v, a, c, P, e)
    if (comp, part) == ("radial", "toroidal"):
        return Cx(num(0, "R"), num(0, "R"))
    if (comp, part) == ("polar", "poloidal"):
        return cmul(v, neg(ONE), b, c, div(dP, l1), e)
    if (comp, part) == ("polar", "toroidal"):
        return cmul(v, g, c, P, im, e, div(ONE, mul(l1, s)))
    if (comp, part) == ("azimuthal", "poloidal"):
        return cmul(v, neg(ONE), b, c, P, im, e, div(ONE, mul(l1, s)))
    if (comp, part) == ("azimuthal", "toroidal"):
        return cmul(v, neg(ONE), g, c, div(dP, l1), e)
    raise KeyError


def series(v, z, comp, part, th, ph):
    d = range_dom(z.N)
    i = var("ser$", "I")

    def term(q):
        l, m, a, b, g = z.at(q[0])
        t = v.it.cx(series_term(v, comp, part, l, m, a, b, g, th, ph))
        return t.re
    return d.binder("sum", term)


METHODS = {("radial", "poloidal"): "get_radial_poloidal_field", ("radial", "toroidal"): "get_radial_toroidal_field",
           ("polar", "poloidal"): "get_polar_poloidal_field_new", ("polar", "toroidal"): "get_polar_toroidal_field",
           ("azimuthal", "poloidal"): "get_azimuthal_poloidal_field", ("azimuthal", "toroidal"): "get_azimuthal_toroidal_field_new"}
FULL = {"radial": "get_radial_field", "polar": "get_polar_field", "azimuthal": "get_azimuthal_field"}
LEG = "associated_legendre:calculate_lpmn zdi_magnetogram:get_c_lm zdi_magnetogram:ZdiMagnetogram.__init__"


def points(v):
    S = v.pack("S")
    th = v.array("theta", [S], "float", sampler=lambda r: r.uniform(0.1, 3.0))
    ph = v.array("phi", [S], "float", sampler=lambda r: r.uniform(-7, 7))
    return S, th, ph


def _component(comp, part):
    @unit("zdi.%s_%s" % (comp, part), "S12 S13 S26", "%s.%s %s" % (Z, METHODS[comp, part], LEG), cost=2)
    def u(v):
        z = Zdi(v)
        S, th, ph = points(v)
        for r in v.each(lambda: v.method(z.obj, METHODS[comp, part], th, ph), METHODS[comp, part]):
            v.check_arr("equals the series", r, [S], lambda k: series(v, z, comp, part, th.elem()(((k,),)), ph.elem()(((k,),))), dtype="float")
            v.unchanged("points and coefficients unchanged")
            v.fresh_result(r)
    return u


for c_, p_ in METHODS:
    _component(c_, p_)


def at_point(th, ph):
    return lambda k: (th.elem()(((k,),)), ph.elem()(((k,),)))


def _full(comp):
    @unit("zdi.%s" % comp, "S12 S13 S26", "%s.%s %s.%s %s.%s %s" % (Z, FULL[comp], Z, METHODS[comp, "poloidal"], Z, METHODS[comp, "toroidal"], LEG), cost=2)
    def u(v):
        z = Zdi(v)
        S, th, ph = points(v)
        p = at_point(th, ph)
        for r in v.each(lambda: v.method(z.obj, FULL[comp], th, ph), FULL[comp]):
            v.check_arr("sum of both series", r, [S], lambda k: add(series(v, z, comp, "poloidal", *p(k)), series(v, z, comp, "toroidal", *p(k))), dtype="float")
            v.unchanged("points and coefficients unchanged")
            v.fresh_result(r)
            pol = v.value(lambda: v.method(z.obj, METHODS[comp, "poloidal"], th, ph))
            tor = v.value(lambda: v.method(z.obj, METHODS[comp, "toroidal"], th, ph))
            v.check_arr("poloidal plus toroidal part", r, [S], lambda k: add(pol.elem()(((k,),)), tor.elem()(((k,),))), props=["S13"])
            again = v.value(lambda: v.method(z.obj, FULL[comp], th, ph))
            v.check_arr("a second call gives the same", again, [S], lambda k: r.elem()(((k,),)), props=["S26"])
    return u


for c_ in FULL:
    _full(c_)


@unit("zdi.strength", "S13 S26", "%s.get_field_strength" % Z, cost=3)
def u_strength(v):
    z = Zdi(v)
    S, th, ph = points(v)
    p = at_point(th, ph)
    for r in v.each(lambda: v.method(z.obj, "get_field_strength", th, ph), "get_field_strength"):
        def want(k):
            t = [add(series(v, z, c, "poloidal", *p(k)), series(v, z, c, "toroidal", *p(k))) for c in FULL]
            return sqrt(add(*[mul(x, x) for x in t]))
        v.check_arr("length of the field vector", r, [S], want)
        v.unchanged("points and coefficients unchanged")
        v.fresh_result(r)


def unit_vectors(th, ph):
    """local unit vectors e_r, e_theta, e_phi"""
    st, ct, sp, cp = [app(f, (x,), "R") for f, x in (("sin", th), ("cos", th), ("sin", ph), ("cos", ph))]
    z = num(0, "R")
    return ((mul(st, cp), mul(st, sp), ct), (mul(ct, cp), mul(ct, sp), neg(st)), (neg(sp), cp, z))


def cart(v, f3, th, ph, j):
    e = unit_vectors(th, ph)
    r = ZERO
    w = [add(*[mul(f3[k], e[k][c]) for k in range(3)]) for c in range(3)]
    return ite(eq(j, ZERO), w[0], ite(eq(j, ONE), w[1], w[2]))


CART = {"full": "get_cartesian_field", "poloidal": "get_cartesian_poloidal_field", "toroidal": "get_cartesian_toroidal_field"}


def _cart(part):
    @unit("zdi.cartesian.%s" % part, "S13 S26", "%s.%s zdi_magnetogram:_cartesian_from_spherical_helper coordinate_transforms:spherical_to_rectangular_transformation_matrix" % (Z, CART[part]), cost=3)
    def u(v):
        z = Zdi(v)
        S, th, ph = points(v)
        p = at_point(th, ph)
        for r in v.each(lambda: v.method(z.obj, CART[part], th, ph), CART[part]):
            def want(k, j):
                def comp(c):
                    if part == "full":
                        return add(series(v, z, c, "poloidal", *p(k)), series(v, z, c, "toroidal", *p(k)))
                    return series(v, z, c, part, *p(k))
                return cart(v, [comp(c) for c in FULL], *p(k), j)
            v.check_arr("the same vector in Cartesian axes", r, [S, 3], want)
            v.unchanged("points and coefficients unchanged")
            v.fresh_result(r)
    return u


for p_ in CART:
    _cart(p_)


@unit("zdi.cartesian.sum", "S13", " ".join(Z + "." + m for m in CART.values()), cost=3)
def u_cart_sum(v):
    z = Zdi(v)
    S, th, ph = points(v)
    f, p, t = [v.value(lambda m=m: v.method(z.obj, m, th, ph)) for m in CART.values()]
    v.check_arr("poloidal plus toroidal vector", f, [S, 3], lambda k, j: add(p.elem()(((k,), (j,))), t.elem()(((k,), (j,)))))


@unit("zdi.get_all", "S13", Z + ".get_all", cost=2)
def u_get_all(v):
    z = Zdi(v)
    S, th, ph = points(v)
    d = v.value(lambda: v.method(z.obj, "get_all"))
    p = at_point(th, ph)
    for c, part in METHODS:
        f = v.it.getitem(v.it.getitem(d, c), part)
        r = v.value(lambda: v.it.call(f, [th, ph], {}))
        v.check_arr("entry %s %s" % (c, part), r, [S], lambda k: series(v, z, c, part, *p(k)))


@unit("zdi.linear", "S13", " ".join(Z + "." + m for m in METHODS.values()), cost=4)
def u_linear(v):
    """field of x a + y b is x field of a + y field of b"""
    N = v.dim("N")
    l, m = pos_arrays(v, N)
    a, b = Zdi(v, "1", order=(l, m, N)), Zdi(v, "2", order=(l, m, N))
    x, y = v.real("x"), v.real("y")
    fam = {}
    for n in a.fam:
        def el(i, n=n):
            p, q = a.fam[n].elem()(((i,),)), b.fam[n].elem()(((i,),))
            return Cx(add(mul(x, p.re), mul(y, q.re)), add(mul(x, p.im), mul(y, q.im)))
        fam[n] = v.arr_of([N], el, "complex")
    c = v.build(lambda: v.call(Z, l, m, fam["alpha"], fam["beta"], fam["gamma"]))
    S, th, ph = points(v)
    for meth in METHODS.values():
        fa, fb, fc = [v.value(lambda o=o: v.method(o, meth, th, ph)) for o in (a.obj, b.obj, c)]
        e = lambda f, k: f.elem()(((k,),))
        v.check_arr(meth + " is linear", fc, [S], lambda k: add(mul(x, e(fa, k)), mul(y, e(fb, k))))


# ---------------------------------------------------------------------------------------------- construction
def _from_coeffs(ncol):
    @unit("zdi.from_coefficients.%d" % ncol, "S12 S13 S26", "zdi_magnetogram:from_coefficients coefficients:Coefficients.as_arrays " + LEG, cost=3)
    def u(v):
        a = v.coeffs("a", ncol, nonneg=True, nonempty=True)
        v.require(a.dom.binder("exists", lambda q: TRUE))
        S, th, ph = points(v)
        p = at_point(th, ph)
        for z in v.each(lambda: v.call("zdi_magnetogram:from_coefficients", a.obj), "from_coefficients"):
            v.unchanged("coefficients unchanged")
            v.fresh_result(z)
            for (c, part), meth in METHODS.items():
                r = v.value(lambda: v.method(z, meth, th, ph))

                def want(k):
                    def term(q):
                        l, m = q
                        x = [a.at(l, m, num(j)) if j < ncol else Cx(num(0, "R"), num(0, "R")) for j in range(3)]
                        return v.it.cx(series_term(v, c, part, l, m, *x, *p(k))).re
                    return a.dom.binder("sum", term)
                v.check_arr("%s %s: series of the stored coefficients" % (c, part), r, [S], want)
    return u


for n_ in (1, 2, 3):
    _from_coeffs(n_)


@unit("zdi.c_lm", "S12", "zdi_magnetogram:get_c_lm")
def u_clm(v):
    N = v.dim("N")
    l, m = pos_arrays(v, N)
    for r in v.each(lambda: v.call("zdi_magnetogram:get_c_lm", l, m), "get_c_lm"):
        v.check_arr("normalisation", r, [N], lambda i: c_lm(app("l", (i,), "I"), app("m", (i,), "I")))
        v.unchanged()


# ---------------------------------------------------------------------------------------------- S14
def attr(v, o, n):
    return v.value(lambda: v.attr(o, n))


FAMS = ("alpha", "beta", "gamma")


def same_lists(v, name, o, z, keep, zero=()):
    """o lists exactly the coefficients of z with keep(l, m), in order, with zeros in the families of zero"""
    d = attr(v, o, "degrees_l")
    if keep is None:
        v.check_arr(name + ": degrees", d, [z.N], lambda i: z.at(i)[0])
        v.check_arr(name + ": orders", attr(v, o, "orders_m"), [z.N], lambda i: z.at(i)[1])
        for k, n in enumerate(FAMS):
            v.check_arr(name + ": " + n, attr(v, o, n), [z.N], lambda i: Cx(ZERO, ZERO) if n in zero else z.at(i)[2 + k])
        return
    ax = d.axes[0]
    if len(d.axes) != 1:
        return v.record(name + ": one list", "refuted", "rank %d" % len(d.axes))
    if ax.dom.arity != 1:
        return v.record(name + ": index set", "unknown", "")
    i = v.int("iq")
    v.check(name + ": exactly the coefficients in range", eq(ax.dom.pred((i,)), and_(ge(i, ZERO), lt(i, z.N), keep(*z.at(i)[:2]))))
    v.record(name + ": order kept", "proved" if ax.dom.order in (None, "lex") else "unknown", "%r" % (ax.dom.order,))
    with v.given(ax.dom.pred((i,))):
        for k, n in enumerate(("degrees_l", "orders_m") + FAMS):
            a = attr(v, o, n)
            if not v.it.np.same_axis(a.axes[0], ax) or len(a.axes) != 1:
                v.record(name + ": %s lists the same coefficients" % n, "unknown", "")
                continue
            v.check_eq(name + ": " + n, a.elem()(((i,),)), z.at(i)[k])


def _restrict(tag, mk):
    @unit("zdi.restrict." + tag, "S14 S26", Z + ".as_restricted " + Z + ".as_dipole " + LEG, cost=2)
    def u(v):
        z = Zdi(v, neg_m=True)
        thunk, keep = mk(v, z)
        for o in v.each(thunk, "as_restricted"):
            same_lists(v, tag, o, z, keep)
            v.unchanged("magnetogram unchanged")
            v.fresh_result(o, "independent copy")
            v.check_eq("derivative method kept", attr(v, o, "_dplm_method"), attr(v, z.obj, "_dplm_method"))
    return u


def _rng(v, n):
    a, b = v.int(n + "0"), v.int(n + "1")
    return a, b


def _r_both(v, z):
    l0, l1 = _rng(v, "lr")
    m0, m1 = _rng(v, "mr")
    return (lambda: v.method(z.obj, "as_restricted", degree_l_range=(l0, l1), order_m_range=(m0, m1))), \
        (lambda l, m: and_(le(l0, l), le(l, l1), le(m0, m), le(m, m1)))


def _r_single(v, z):
    l0, m0 = v.int("lr"), v.int("mr")
    return (lambda: v.method(z.obj, "as_restricted", degree_l_range=l0, order_m_range=m0)), (lambda l, m: and_(eq(l0, l), eq(m0, m)))


def _r_degree(v, z):
    l0, l1 = _rng(v, "lr")
    v.require(range_dom(z.N).binder("forall", lambda q: and_(ge(app("m", q, "I"), ZERO), le(app("l", q, "I"), num(1000)))))
    return (lambda: v.method(z.obj, "as_restricted", (l0, l1))), (lambda l, m: and_(le(l0, l), le(l, l1)))


def _r_order(v, z):
    m0, m1 = _rng(v, "mr")
    v.require(range_dom(z.N).binder("forall", lambda q: and_(ge(app("m", q, "I"), ZERO), le(app("l", q, "I"), num(1000)))))
    return (lambda: v.method(z.obj, "as_restricted", order_m_range=(m0, m1))), (lambda l, m: and_(le(m0, m), le(m, m1)))


def _r_dipole(v, z):
    v.require(range_dom(z.N).binder("forall", lambda q: ge(app("m", q, "I"), ZERO)))
    return (lambda: v.method(z.obj, "as_dipole")), (lambda l, m: eq(l, ONE))


for t_, f_ in (("both", _r_both), ("single", _r_single), ("degree", _r_degree), ("order", _r_order), ("dipole", _r_dipole)):
    _restrict(t_, f_)


def _copy(meth, zero):
    @unit("zdi." + meth, "S14 S26", "%s.%s %s.copy %s" % (Z, meth, Z, LEG), cost=2)
    def u(v):
        z = Zdi(v)
        for o in v.each(lambda: v.method(z.obj, meth), meth):
            same_lists(v, meth, o, z, None, zero)
            v.check_arr("normalisation kept", attr(v, o, "c_lm"), [z.N], lambda i: c_lm(*z.at(i)[:2]))
            v.unchanged("magnetogram unchanged")
            v.fresh_result(o, "independent copy")
            v.check_eq("derivative method kept", attr(v, o, "_dplm_method"), attr(v, z.obj, "_dplm_method"))
            if o is z.obj or (isinstance(o, Obj) and o.cid == z.obj.cid):
                v.record("a new magnetogram", "refuted", "returns the same object")
    return u


_copy("copy", ())
_copy("as_poloidal", ("gamma",))
_copy("as_toroidal", ("alpha", "beta"))


@unit("zdi.parts.sum", "S14", Z + ".as_poloidal " + Z + ".as_toroidal", cost=3)
def u_parts(v):
    z = Zdi(v)
    S, th, ph = points(v)
    p = v.build(lambda: v.method(z.obj, "as_poloidal"))
    t = v.build(lambda: v.method(z.obj, "as_toroidal"))
    for c, meth in FULL.items():
        f, fp, ft = [v.value(lambda o=o: v.method(o, meth, th, ph)) for o in (z.obj, p, t)]
        v.check_arr(c + ": fields of the copies add up", f, [S], lambda k: add(fp.elem()(((k,),)), ft.elem()(((k,),))))


# ---------------------------------------------------------------------------------------------- S15
def energy_of(l, m, c, lterm):
    """m = 0: Re(c)^2, else |c|^2 / 2, with the factor l/(l+1) for beta and gamma: the integral of the squared
    field of this coefficient over the unit sphere"""
    half = mul(num(Fraction(1, 2)), add(mul(c.re, c.re), mul(c.im, c.im)))
    e = ite(eq(m, ZERO), mul(c.re, c.re), half)
    return mul(e, div(real(l), add(real(l), ONE))) if lterm else e


def distinct(v, z):
    """requires: every (degree, order) pair occurs once"""
    pair = Dom((var("di$", "I"), var("dj$", "I")), (ZERO, ZERO), (z.N, z.N))
    v.require(pair.binder("forall", lambda q: or_(eq(q[0], q[1]), ne(z.at(q[0])[0], z.at(q[1])[0]), ne(z.at(q[0])[1], z.at(q[1])[1]))))


def energies(z, i):
    l, m, a, b, g = z.at(i)
    return energy_of(l, m, a, False), energy_of(l, m, b, True), energy_of(l, m, g, True)


def total(z, which, where=lambda l, m: TRUE):
    d = range_dom(z.N)

    def term(q):
        e = energies(z, q[0])
        return ite(where(*z.at(q[0])[:2]), add(*[e[w] for w in which]), num(0, "R"))
    return d.binder("sum", term)


ENERGY = Z + ".energy " + Z + "._energy_helper"


@unit("zdi.energy", "S15 S26", ENERGY, cost=6)
def u_energy(v):
    z = Zdi(v)
    distinct(v, z)
    dest = v.build(lambda: v.it.new_dict())
    for r in v.each(lambda: v.method(z.obj, "energy", dest=dest), "energy"):
        arrs = v.it.concrete_items(r)
        for k, n in enumerate(FAMS):
            v.check_arr("energy of each %s coefficient" % n, arrs[k], [z.N], lambda i: energies(z, i)[k], dtype="float")
            i = v.int("i")
            with v.given(ge(i, ZERO), lt(i, z.N)):
                v.check("energy of each %s coefficient is not negative" % n, ge(arrs[k].elem()(((i,),)), ZERO))
        v.fresh_result(r, "energies share no storage with the magnetogram")
        A, B, G = (0,), (1,), (2,)
        AB, ALL3 = (0, 1), (0, 1, 2)
        deg = lambda d: (lambda l, m: eq(l, num(d)))
        ax = lambda l, m: eq(m, ZERO)
        T3, TP, TT = total(z, ALL3), total(z, AB), total(z, G)
        p = "magnetogram."
        want = {
            "total.energy.B2": (T3, None),
            "radial.energy.fraction": (total(z, A), T3),
            "poloidal.energy.fraction": (TP, T3),
            "toroidal.energy.fraction": (TT, T3),
            "total.energy.axisymmetric.fraction": (total(z, ALL3, ax), T3),
            "total.energy.radial.axisymmetric.fraction": (total(z, A, ax), TP),
            "total.energy.poloidal.axisymmetric.fraction": (total(z, AB, ax), TP),
            "total.energy.toroidal.axisymmetric.fraction": (total(z, G, ax), TT),
            "total.energy.dipole.axisymmetric.fraction": (total(z, AB, lambda l, m: and_(eq(l, ONE), eq(m, ZERO))), total(z, AB, deg(1))),
        }
        for d, nm in ((1, "dipole"), (2, "quadrupole"), (3, "octopole")):
            want["total.energy.%s.fraction" % nm] = (total(z, AB, deg(d)), TP)
            want["total.energy.toroidal.l%d.fraction" % d] = (total(z, G, deg(d)), TT)
        for d in range(1, 16):
            want["pol.energy.l%d.fraction" % d] = (total(z, AB, deg(d)), TP)
            want["tor.energy.l%d.fraction" % d] = (total(z, G, deg(d)), TT)
        for key, (a, b) in want.items():
            got = v.value(lambda: v.it.getitem(dest, p + key))
            if b is None:
                v.check_eq(key, got, a)
            else:
                with v.given(ne(b, ZERO)):
                    v.check_eq(key, got, div(a, b))
        v.unchanged("magnetogram unchanged", allow=[dest])


@unit("zdi.energy.printed", "S15 S26", ENERGY, cost=4)
def u_energy_print(v):
    z = Zdi(v)
    distinct(v, z)
    for r in v.each(lambda: v.method(z.obj, "energy", show_fractions=True), "energy"):
        arrs = v.it.concrete_items(r)
        for k, n in enumerate(FAMS):
            v.check_arr("energy of each %s coefficient" % n, arrs[k], [z.N], lambda i: energies(z, i)[k])
        v.unchanged("magnetogram unchanged")


def _energy_matrix(v, kk):
    z = Zdi(v, neg_m=True)
    d = range_dom(z.N)
    # every (degree, order) pair occurs once
    i, j = v.int("i"), v.int("j")
    distinct(v, z)
    L = v.it.t(v.it.np.item(v.value(lambda: v.method(z.obj, "degree"))))
    v.check("degree bounds every degree", d.binder("forall", lambda q: le(app("l", q, "I"), L)))
    for r in v.each(lambda: v.method(z.obj, "energy_matrix"), "energy_matrix"):
        ms = v.it.concrete_items(r)
        for k, (nm, which) in enumerate((("radial", (0,)), ("poloidal", (0, 1)), ("toroidal", (2,)))):
            if k != kk:
                continue
            M = ms[k]
            axes = [v.axis(add(L, ONE)), v.axis(add(mul(num(2), L), ONE))]
            # stored coefficient i sits at row l_i, column m_i + L (orders run from -L to L)
            with v.given(ge(i, ZERO), lt(i, z.N)):
                l, m, a, b, g = z.at(i)
                e = energies(z, i)
                x = M.elem()(((l,), (add(m, L),)))
                v.check_eq(nm + ": energy at its own degree and order", x, add(*[e[w] for w in which]))
            l, m = v.int("lq"), v.int("mq")
            with v.given(ge(l, ZERO), le(l, L), ge(m, neg(L)), le(m, L),
                         d.binder("forall", lambda q: or_(ne(app("l", q, "I"), l), ne(app("m", q, "I"), m)))):
                v.check_eq(nm + ": zero elsewhere", M.elem()(((l,), (add(m, L),))), ZERO)
            for q_, ax in enumerate(axes):
                v.check(nm + ": size of axis %d" % q_, eq(M.axes[q_].dom.size(), ax.dom.size()))
        v.unchanged("magnetogram unchanged")
        v.fresh_result(r)


def _em(kk, nm):
    @unit("zdi.energy_matrix." + nm, "S15 S26", Z + ".energy_matrix " + Z + ".degree", cost=9)
    def u(v):
        _energy_matrix(v, kk)


for k_, n_ in enumerate(("radial", "poloidal", "toroidal")):
    _em(k_, n_)
