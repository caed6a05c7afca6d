"""Contracts for starwinds_magnetogram/pfss_magnetogram.py (S16, S17)."""
from spec import *
from c_zdi import leg, unit_vectors

M = "pfss_magnetogram"
FUNCS = (M + ":evaluate_spherical " + M + ":calculate_all_theta " + M + ":theta_lm " + M + ":r_l " + M + ":phi_lm "
         "associated_legendre:calculate_lpmn coefficients:Coefficients.as_arrays")


def diff_(t, x):
    """derivative of a specification term"""
    if t is x:
        return num(1, "R")
    if x not in free_vars(t):
        return num(0, "R")
    if t.op == "add":
        return add(*[diff_(a, x) for a in t.args])
    if t.op == "mul":
        r = []
        for i, a in enumerate(t.args):
            r.append(mul(*[diff_(b, x) if j == i else b for j, b in enumerate(t.args)]))
        return add(*r)
    if t.op == "pow" and x not in free_vars(t.args[1]):
        b, n = t.args
        return mul(n, power(b, sub(n, ONE)), diff_(b, x))
    if t.op == "app" and t.args[0] == "sin":
        return mul(app("cos", (t.args[1],), "R"), diff_(t.args[1], x))
    if t.op == "app" and t.args[0] == "cos":
        return mul(neg(app("sin", (t.args[1],), "R")), diff_(t.args[1], x))
    if t.op == "app" and t.args[0] == "P":
        m, l, a = t.args[1:]
        return mul(app("dP", (m, l, a), "R"), diff_(a, x))
    raise Unsupported("derivative of " + t.op)


def radial_function(l, r, r0, rs):
    """R_l(r) = r (r0/r)^(l+2) (1 - (r/rs)^(2l+1)) / (l + 1 + l (r0/rs)^(2l+1))"""
    two = add(mul(num(2), l), ONE)
    e = add(l, ONE, mul(l, power(div(r0, rs), two)))
    return div(mul(r, power(div(r0, r), add(l, num(2))), sub(ONE, power(div(r, rs), two))), e)


def potential(l, m, g, h, r, th, ph, r0, rs):
    """the potential of one coefficient: R_l(r) (-1)^m sqrt((2 - d_m0) (l-m)!/(l+m)!) P_lm(cos th) (g cos m ph + h sin m ph)"""
    sign = power(num(-1), m)
    n = mul(sign, sqrt(mul(ite(eq(m, ZERO), ONE, num(2)), div(app("fact", (sub(l, m),), "R"), app("fact", (add(l, m),), "R")))))
    x = app("cos", (th,), "R")
    mp = mul(real(m), ph)
    return mul(radial_function(l, r, r0, rs), n, app("P", (m, l, x), "R"), add(mul(g, app("cos", (mp,), "R")), mul(h, app("sin", (mp,), "R"))))


VARS = var("r$", "R"), var("th$", "R"), var("ph$", "R")


def gradient_term(l, m, g, h, r, th, ph, r0, rs, comp):
    R, T_, P_ = VARS
    psi = potential(l, m, g, h, R, T_, P_, r0, rs)
    if comp == 0:
        d = neg(diff_(psi, R))
    elif comp == 1:
        d = neg(div(diff_(psi, T_), R))
    else:
        d = neg(div(diff_(psi, P_), mul(R, app("sin", (T_,), "R"))))
    return subst(d, {R: r, T_: th, P_: ph})


def field(v, a, r, th, ph, r0, rs, comp):
    def term(q):
        l, m = q
        c = a.at(l, m)
        return gradient_term(l, m, c.re, c.im, r, th, ph, r0, rs, comp)
    return a.dom.binder("sum", term)


def pfss_set(v, name="a"):
    a = v.coeffs(name, 1, nonneg=True, nonempty=True)
    v.require(a.dom.binder("exists", lambda q: TRUE))
    return a


def radii(v, default=False):
    if default:
        return num(1), num(Fraction(5, 2))
    r0, rs = v.real("r0", lambda r: r.uniform(0.7, 1.5)), v.real("rss", lambda r: r.uniform(1.6, 4))
    v.require(lt(ZERO, r0), lt(r0, rs))
    return r0, rs


def sphere(v, S, low=True):
    r = v.array("r", [S], "float", sampler=lambda g: g.choice([g.uniform(0.2, 0.7), g.uniform(1.5, 1.6), g.uniform(0.7, 4.5)]))
    th = v.array("theta", [S], "float", sampler=lambda g: g.uniform(0.1, 3.0))
    ph = v.array("phi", [S], "float", sampler=lambda g: g.uniform(-7, 7))
    return r, th, ph


def _spherical(tag, default, one, scalar=False):
    @unit("pfss.spherical." + tag, "S16 S17 S26", FUNCS, cost=8)
    def u(v):
        a = pfss_set(v)
        r0, rs = radii(v, default)
        S = v.pack("S")
        r, th, ph = sphere(v, S)
        if one:
            r1 = v.real("r1", lambda g: g.uniform(0.5, 4.5))
            r = r1 if scalar else v.arr_of([1], lambda k: r1)
            v.require(lt(ZERO, r1))
            rk = lambda k: r1
        else:
            v.require(S.dom.binder("forall", lambda q: lt(ZERO, app("r", q, "R"))))
            rk = lambda k: r.elem()(((k,),))
        # poles excluded
        v.require(S.dom.binder("forall", lambda q: lt(ZERO, app("sin", (app("theta", q, "R"),), "R"))))
        kw = {} if default else dict(radius_star=r0, radius_source_surface=rs)
        t, p = (lambda k: th.elem()(((k,),))), (lambda k: ph.elem()(((k,),)))
        for res in v.each(lambda: v.call(M + ":evaluate_spherical", a.obj, r, th, ph, **kw), "evaluate_spherical"):
            fs = v.it.concrete_items(res)
            for c, nm in enumerate(("radial", "polar", "azimuthal")):
                v.check_arr(nm + " component is minus the gradient of the potential", fs[c], [S],
                            lambda k: field(v, a, rk(k), t(k), p(k), r0, rs, c), props=["S16"],
                            where=lambda k: and_(le(r0, rk(k)), le(rk(k), rs)), dtype="float")
                v.check_arr(nm + " component is zero inside the star", fs[c], [S], lambda k: num(0, "R"), props=["S17"],
                            where=lambda k: lt(rk(k), r0))

                def outside(k):
                    if c:
                        return num(0, "R")
                    return mul(field(v, a, rs, t(k), p(k), r0, rs, 0), power(div(rs, rk(k)), num(2)))
                v.check_arr(nm + " component beyond the source surface", fs[c], [S], outside, props=["S17"],
                            where=lambda k: lt(rs, rk(k)))
                v.check_arr(nm + " component at the source surface", fs[c], [S], outside, props=["S17"],
                            where=lambda k: eq(rs, rk(k)))
            v.unchanged("coefficients and points unchanged")
            v.fresh_result(res)
    return u


_spherical("given", False, False)
_spherical("default", True, False)
_spherical("one_radius", False, True)
_spherical("scalar_radius", False, True, True)


@unit("pfss.spherical.one_point", "S16 S17", FUNCS, cost=4)
def u_one_point(v):
    """a single point given as three numbers"""
    a = pfss_set(v)
    r0, rs = radii(v)
    r, th, ph = v.real("r", lambda g: g.uniform(0.5, 4.5)), v.real("th", lambda g: g.uniform(0.1, 3)), v.real("ph", lambda g: g.uniform(-7, 7))
    v.require(lt(ZERO, r), lt(ZERO, app("sin", (th,), "R")))
    for res in v.each(lambda: v.call(M + ":evaluate_spherical", a.obj, r, th, ph, radius_star=r0, radius_source_surface=rs), "evaluate_spherical"):
        fs = v.it.concrete_items(res)
        for c, nm in enumerate(("radial", "polar", "azimuthal")):
            v.check_arr(nm + " component", fs[c], [1], lambda k: field(v, a, r, th, ph, r0, rs, c), where=lambda k: and_(le(r0, r), le(r, rs)))
            v.check_arr(nm + " component inside the star", fs[c], [1], lambda k: num(0, "R"), where=lambda k: lt(r, r0))


@unit("pfss.r_l", "S16", M + ":r_l")
def u_rl(v):
    l = v.int("l")
    v.require(ge(l, ZERO))
    r0, rs = radii(v)
    r = v.real("r", lambda g: g.uniform(1, 3))
    v.require(lt(ZERO, r))
    for res in v.each(lambda: v.call(M + ":r_l", l, r, r0, rs), "r_l"):
        f, d = v.it.concrete_items(res)
        R = VARS[0]
        v.check_eq("value", f, radial_function(l, r, r0, rs))
        v.check_eq("exact derivative", d, subst(diff_(radial_function(l, R, r0, rs), R), {R: r}))
        with v.given(eq(r, rs)):
            v.check_eq("zero at the source surface", f, num(0, "R"))


@unit("pfss.refusal", "S16", M + ":evaluate_spherical")
def u_refuse(v):
    a = pfss_set(v)
    r0, rs = v.real("r0"), v.real("rss")
    v.require(ge(r0, rs))
    S = v.pack("S")
    r, th, ph = sphere(v, S)
    for p in v.run(lambda: v.call(M + ":evaluate_spherical", a.obj, r, th, ph, radius_star=r0, radius_source_surface=rs), "radii out of order",
                   {"AssertionError": TRUE}):
        pass


@unit("pfss.spherical.anywhere", "S17 S26", FUNCS, cost=8)
def u_anywhere(v):
    """the boundaries also hold on the polar axis and at the centre"""
    a = pfss_set(v)
    r0, rs = radii(v)
    S = v.pack("S")
    r = v.array("r", [S], "float", sampler=lambda g: g.choice([0, g.uniform(0.2, 0.7), g.uniform(4, 6)]))
    th = v.array("theta", [S], "float", sampler=lambda g: g.choice([0, 3.141592653589793, g.uniform(0.1, 3.0)]))
    ph = v.array("phi", [S], "float", sampler=lambda g: g.uniform(-7, 7))
    v.require(S.dom.binder("forall", lambda q: le(ZERO, app("r", q, "R"))))
    rk = lambda k: r.elem()(((k,),))
    for res in v.each(lambda: v.call(M + ":evaluate_spherical", a.obj, r, th, ph, radius_star=r0, radius_source_surface=rs), "evaluate_spherical"):
        fs = v.it.concrete_items(res)
        for c, nm in enumerate(("radial", "polar", "azimuthal")):
            v.check_arr(nm + " component is zero inside the star", fs[c], [S], lambda k: num(0, "R"), where=lambda k: lt(rk(k), r0))
            if not c:
                v.check_arr(nm + " component beyond the source surface", fs[c], [S],
                            lambda k: mul(field(v, a, rs, th.elem()(((k,),)), ph.elem()(((k,),)), r0, rs, 0), power(div(rs, rk(k)), num(2))),
                            where=lambda k: lt(rs, rk(k)))
            else:
                v.check_arr(nm + " component is zero beyond the source surface", fs[c], [S], lambda k: num(0, "R"), where=lambda k: lt(rs, rk(k)))
                v.check_arr(nm + " component is zero at the source surface", fs[c], [S], lambda k: num(0, "R"), where=lambda k: eq(rs, rk(k)))
        v.unchanged("coefficients and points unchanged")
