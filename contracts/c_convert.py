"""Contracts for starwinds_magnetogram/converter.py (S08, S09, S10, S23) and rotate.py (S11)."""
from spec import *
from c_coeffs import same_set, unary, ALL, key, get, has
from c_zdi import leg, series_term, c_lm, cmul, eim, points
from c_pfss import gradient_term, pfss_set

M = "converter"
CONV = M + ":convert_zdi_to_pfss " + M + ":forward_conversion_factor coefficients:scale coefficients:Coefficients.scale " + ALL
BACK = M + ":convert_pfss_to_zdi " + M + ":_beta_inverse_conversion_factor pfss_magnetogram:r_l coefficients:hstack coefficients:zeros_like " + CONV
STAR, SOURCE = num(1), num(Fraction(5, 2))


def factor(l, m):
    """sqrt(2l+1) / ((-1)^m sqrt(2 - d_m0) sqrt(4 pi))"""
    d = mul(power(num(-1), m), sqrt(ite(eq(m, ZERO), ONE, num(2))), sqrt(mul(num(4), PI)))
    return div(sqrt(add(mul(num(2), real(l)), ONE)), d)


def one(v, o, l, m):
    """the single stored value"""
    return v.it.cx(get(v, o, l, m).elem()(((ZERO,),)))


def times(c, f):
    return Cx(mul(c.re, f), mul(c.im, f))


def pfss_term(l, m, c, th, ph, comp):
    """surface field of one PFSS coefficient g + ih in the default model"""
    return gradient_term(l, m, c.re, c.im, STAR, th, ph, STAR, SOURCE, comp)


def zdi_term(v, comp, l, m, a, b, g, th, ph):
    r = ZERO
    for part in ("poloidal", "toroidal"):
        r = add(r, v.it.cx(series_term(v, comp, part, l, m, a, b, g, th, ph)).re)
    return r


def surface(v):
    """one pair and one point away from the poles"""
    l, m = v.int("l"), v.int("m")
    v.it.samplers["l"] = lambda r: r.choice([0, 1, 1, 2, 2, 3, 4])
    v.it.samplers["m"] = lambda r: r.choice([0, 0, 0, 1, 1, 2])
    th, ph = v.real("th", lambda r: r.uniform(0.1, 3.0)), v.real("ph", lambda r: r.uniform(-7, 7))
    v.require(ge(m, ZERO), le(m, l), lt(ZERO, app("sin", (th,), "R")))
    return l, m, th, ph


# ---------------------------------------------------------------------------------------------- S08
@unit("convert.factor", "S08 S09", M + ":forward_conversion_factor")
def u_factor(v):
    l, m = v.int("l"), v.int("m")
    v.require(ge(m, ZERO), le(m, l))
    for r in v.each(lambda: v.call(M + ":forward_conversion_factor", l, m), "forward_conversion_factor"):
        v.check_eq("value", r, factor(l, m))


@unit("convert.zdi_to_pfss", "S08 S26", CONV, cost=2)
def u_forward(v):
    a = v.coeffs("a", 1, nonneg=True)
    unary(v, "convert_zdi_to_pfss", lambda: v.call(M + ":convert_zdi_to_pfss", a.obj), a, num(1), lambda c, l, m: times(c, factor(l, m)))


@unit("convert.zdi_to_pfss.surface_field", "S08", CONV, cost=2)
def u_forward_field(v):
    """each converted coefficient carries the radial field of the original one at the mirrored azimuth; the
    fields are the sums over the same pairs (contracts of evaluate_spherical and get_radial_poloidal_field)"""
    l, m, th, ph = surface(v)
    c = Cx(v.real("c.re"), v.real("c.im"))
    o = v.call("coefficients:Coefficients")
    v.method(o, "append", l, m, c)
    for r in v.each(lambda: v.call(M + ":convert_zdi_to_pfss", o), "convert_zdi_to_pfss"):
        g = one(v, r, l, m)
        z = Cx(num(0, "R"), num(0, "R"))
        v.check("radial surface field", eq(pfss_term(l, m, g, th, ph, 0), zdi_term(v, "radial", l, m, c, z, z, th, neg(ph))))


# ---------------------------------------------------------------------------------------------- S09
def beta_factor(l):
    """(l+1) R_l at the stellar surface of the default model"""
    from c_pfss import radial_function
    return mul(add(l, ONE), radial_function(l, STAR, STAR, SOURCE))


@unit("convert.pfss_to_zdi", "S09 S26", BACK, cost=3)
def u_back(v):
    a = v.coeffs("a", 1, nonneg=True)

    def want(c, l, m, k):
        al = times(c, div(ONE, factor(l, m)))
        be = times(al, beta_factor(l))
        pick = lambda x, y, z: ite(eq(k, ZERO), x, ite(eq(k, ONE), y, z))
        return Cx(pick(al.re, be.re, ZERO), pick(al.im, be.im, ZERO))
    for o in v.each(lambda: v.call(M + ":convert_pfss_to_zdi", a.obj), "convert_pfss_to_zdi"):
        same_set(v, "result", o, a.has, lambda l, m, k: want(a.at(l, m), l, m, k), num(3))
        v.unchanged("operand unchanged")
        v.fresh_result(o)


@unit("convert.round_trips", "S09", BACK, cost=3)
def u_round(v):
    l, m, th, ph = surface(v)
    c = Cx(v.real("c.re"), v.real("c.im"))
    o = v.call("coefficients:Coefficients")
    v.method(o, "append", l, m, c)

    def there():
        z = v.call(M + ":convert_pfss_to_zdi", o)
        parts = v.it.concrete_items(v.call("coefficients:hsplit", z))
        return v.call(M + ":convert_zdi_to_pfss", parts[0])
    for r in v.each(there, "PFSS to ZDI and back"):
        v.check("stored", has(v, r, l, m))
        v.check_eq("the original PFSS coefficients", one(v, r, l, m), c)

    def back():
        p = v.call(M + ":convert_zdi_to_pfss", o)
        return v.it.concrete_items(v.call("coefficients:hsplit", v.call(M + ":convert_pfss_to_zdi", p)))[0]
    for r in v.each(back, "ZDI to PFSS and back"):
        v.check("stored", has(v, r, l, m))
        v.check_eq("the original radial ZDI coefficients", one(v, r, l, m), c)


@unit("convert.pfss_to_zdi.surface_field", "S09", BACK, cost=3)
def u_back_field(v):
    l, m, th, ph = surface(v)
    c = Cx(v.real("c.re"), v.real("c.im"))
    o = v.call("coefficients:Coefficients")
    v.method(o, "append", l, m, c)
    for r in v.each(lambda: v.call(M + ":convert_pfss_to_zdi", o), "convert_pfss_to_zdi"):
        e = get(v, r, l, m).elem()
        a, b, g = [v.it.cx(e(((num(k),),))) for k in range(3)]
        for k, (nm, s) in enumerate((("radial", ONE), ("polar", ONE), ("azimuthal", neg(ONE)))):
            v.check(nm + " surface field", eq(mul(s, pfss_term(l, m, c, th, ph, k)), zdi_term(v, nm, l, m, a, b, g, th, neg(ph))))
        v.check_eq("no toroidal part", g, Cx(ZERO, ZERO))


# ---------------------------------------------------------------------------------------------- S10
FOLD = M + ":map_to_positive_orders " + M + ":collect_cosines coefficients:empty_like " + ALL


def folded(a, l, m):
    """c(l, m) + (-1)^m conj c(l, -m), and c(l, 0) at order 0"""
    p, n, s = a.get(l, m), a.get(l, neg(m)), power(num(-1), m)
    z = eq(m, ZERO)
    return Cx(add(p.re, ite(z, ZERO, mul(s, n.re))), sub(p.im, ite(z, ZERO, mul(s, n.im))))


@unit("convert.collect_cosines", "S10", M + ":collect_cosines")
def u_collect(v):
    r, al, s, be = [v.real(x) for x in ("r", "alpha", "s", "beta")]
    cs = lambda x: app("cos", (x,), "R")
    sn = lambda x: app("sin", (x,), "R")
    for res in v.each(lambda: v.call(M + ":collect_cosines", r, al, s, be), "collect_cosines"):
        t, g = [v.it.t(v.it.np.item(x)) for x in v.it.concrete_items(res)]
        v.check("t cos(gamma)", eq(mul(t, cs(g)), add(mul(r, cs(al)), mul(s, cs(be)))))
        v.check("t sin(gamma)", eq(mul(t, sn(g)), sub(mul(r, sn(al)), mul(s, sn(be)))))


@unit("convert.fold", "S10 S26", FOLD, cost=3)
def u_fold(v):
    a = v.coeffs("a", 1)
    top = v.it.t(v.it.np.item(v.value(lambda: v.attr(a.obj, "degree_max"))))
    for o in v.each(lambda: v.call(M + ":map_to_positive_orders", a.obj), "map_to_positive_orders"):
        same_set(v, "folded set", o, lambda l, m: and_(le(ZERO, l), le(l, top), le(ZERO, m), le(m, l)),
                 lambda l, m, k: folded(a, l, m), num(1))
        v.unchanged("operand unchanged")
        v.fresh_result(o)


@unit("convert.fold.field", "S10", FOLD, cost=3)
def u_fold_field(v):
    """the two terms of orders m and -m have the real radial field of the folded coefficient, with
    P(l,-m) = (-1)^m (l-m)!/(l+m)! P(l,m)"""
    l, m, th, ph = surface(v)
    v.require(ge(m, ONE))
    o = v.call("coefficients:Coefficients")
    p, n = Cx(v.real("p.re"), v.real("p.im")), Cx(v.real("n.re"), v.real("n.im"))
    v.method(o, "append", l, m, p)
    v.method(o, "append", l, neg(m), n)
    x = app("cos", (th,), "R")
    f = lambda t: app("fact", (t,), "R")
    P = {m: app("P", (m, l, x), "R")}
    P[neg(m)] = mul(power(num(-1), m), div(f(sub(l, m)), f(add(l, m))), P[m])
    for r in v.each(lambda: v.call(M + ":map_to_positive_orders", o), "map_to_positive_orders"):
        c = one(v, r, l, m)
        t = lambda q, k: v.it.cx(cmul(v, q, c_lm(l, k), P[k], eim(v, k, ph))).re
        v.check("real radial field", eq(t(c, m), add(t(p, m), t(n, neg(m)))))
        v.check("no negative order", not_(has(v, r, l, neg(m))))


# ---------------------------------------------------------------------------------------------- S11
ROT = "rotate:rotate_magnetogram coefficients:empty_like " + ALL


def rotated(v, a, rot, l, mo, k_=ZERO):
    """sum over m of D^l_{m,mo}(R) c(l, m)"""
    k = var("rot$", "I")

    def part(re):
        def term(q):
            d = Cx(app("Dre", (rot, l, q[0], mo), "R"), app("Dim", (rot, l, q[0], mo), "R"))
            r = v.it.cx(cmul(v, d, a.get(l, q[0], k_)))
            return r.re if re else r.im
        return binder("sum", (k,), (neg(l),), (add(l, ONE),), TRUE, term((k,)))
    return Cx(part(True), part(False))


def rotation(v, name="R"):
    from values import Opaque
    return Opaque("quaternion", var(name, "U"))


@unit("rotate.wigner", "S11 S26", ROT, cost=3)
def u_rotate(v):
    a = v.coeffs("a", 1)
    R = rotation(v)
    top = v.it.t(v.it.np.item(v.value(lambda: v.attr(a.obj, "degree_max"))))
    for o in v.each(lambda: v.call("rotate:rotate_magnetogram", a.obj, R), "rotate_magnetogram"):
        same_set(v, "rotated set", o, lambda l, m: and_(le(ZERO, l), le(l, top), le(neg(l), m), le(m, l)),
                 lambda l, m, k: rotated(v, a, R.term, l, m, k), num(1))
        v.unchanged("operand unchanged")
        v.fresh_result(o)


@unit("rotate.euler", "S11 S26", "rotate:rotate_magnetogram_euler_zyz_deg " + ROT, cost=3)
def u_euler(v):
    """degrees become radians and the z-y-z angles keep their order"""
    a = v.coeffs("a", 1)
    ang = v.array("angle", [num(3)], "float")
    top = v.it.t(v.it.np.item(v.value(lambda: v.attr(a.obj, "degree_max"))))
    rad = [mul(PI, num(Fraction(1, 180)), app("angle", (num(k),), "R")) for k in range(3)]
    R = app("euler", tuple(rad), "U")
    for o in v.each(lambda: v.call("rotate:rotate_magnetogram_euler_zyz_deg", a.obj, ang), "rotate_magnetogram_euler_zyz_deg"):
        same_set(v, "rotated set", o, lambda l, m: and_(le(ZERO, l), le(l, top), le(neg(l), m), le(m, l)),
                 lambda l, m, k: rotated(v, a, R, l, m, k), num(1))
        v.unchanged("operand and angles unchanged")


# ---------------------------------------------------------------------------------------------- S23
PROJ = (M + ":get_zdi_coeffs zdi_magnetogram:get_c_lm associated_legendre:calculate_lpmn coefficients:from_arrays " + ALL)


class Samples:
    def __init__(self, v, integer=False):
        self.v = v
        A, B = v.dim("A", 2), v.dim("B", 2)
        self.axes = [A, B]
        self.pl = v.array("pl", self.axes, "float", sampler=lambda r: r.uniform(0.1, 3.0))
        self.az = v.array("az", self.axes, "float", sampler=lambda r: r.uniform(-7, 7))
        self.f = {n: v.array("f" + n, self.axes, "int" if integer else "float") for n in ("r", "t", "p")}

    def args(self):
        return self.pl, self.az

    def fields(self):
        return self.f["r"], self.f["t"], self.f["p"]

    def sum(self, fn):
        a, b = var("sa$", "I"), var("sb$", "I")
        return binder("sum", (a, b), (ZERO, ZERO), tuple(self.axes), TRUE, fn(a, b))


def projection(v, s, l, m, area, k):
    """the weighted inner products with the conjugate basis functions; area is the element of solid angle over sin(theta)"""
    w = mul(ite(eq(m, ZERO), ONE, num(2)), c_lm(l, m), area)

    def term(part):
        def fn(a, b):
            th, ph = app("pl", (a, b), "R"), app("az", (a, b), "R")
            P, dP = leg(l, m, th)
            st = app("sin", (th,), "R")
            e = eim(v, neg(m), ph)
            fr, ft, fp = [x.elem()(((a,), (b,))) for x in s.fields()]
            mP = Cx(num(0, "R"), mul(real(m), P))
            if k == 0:
                x = Cx(mul(fr, P, st), num(0, "R"))
            elif k == 1:
                x = v.it.sbin("Add", Cx(neg(mul(ft, dP, st)), num(0, "R")), times(mP, fp))
            else:
                x = v.it.sbin("Sub", times(mP, neg(ft)), Cx(mul(fp, dP, st), num(0, "R")))
            r = v.it.cx(cmul(v, x, e, w))
            if k:
                r = times(r, div(ONE, l))
            return r.re if part == 0 else r.im
        return s.sum(fn)
    return Cx(term(0), term(1))


def check_projection(v, name, o, s, dom, area):
    l, m = v.int("lq"), v.int("mq")
    v.it.samplers["lq"] = lambda r: r.choice([0, 1, 1, 2, 3])
    v.it.samplers["mq"] = lambda r: r.choice([0, 0, 1, 2])
    with v.given(ge(l, ZERO), le(neg(l), m), le(m, l)):
        v.check(name + ": pairs", eq(has(v, o, l, m), dom(l, m)))
        with v.given(dom(l, m)):
            e = get(v, o, l, m)
            v.check(name + ": three coefficients", v.it.np.item(e.axes[0].dom.size()) is num(3) or eq(e.axes[0].dom.size(), num(3)))
            v.check_eq(name + ": alpha", e.elem()(((ZERO,),)), projection(v, s, l, m, area, 0))
            for k, nm in ((1, "beta"), (2, "gamma")):
                with v.given(ge(l, ONE)):
                    v.check_eq(name + ": " + nm, e.elem()(((num(k),),)), projection(v, s, l, m, area, k))
                with v.given(eq(l, ZERO), eq(m, ZERO)):
                    v.check_eq(name + ": " + nm + " of degree zero", e.elem()(((num(k),),)), Cx(ZERO, ZERO))


@unit("project.given_area", "S23 S26", PROJ + " " + M + ":convert_latlon_to_zdi_coeffs " + M + ":positive_lm", cost=6)
def u_project(v):
    s = Samples(v)
    L = v.int("L")
    v.it.samplers["L"] = lambda r: r.randint(0, 3)
    v.require(ge(L, ZERO))
    area = v.real("area", lambda r: r.uniform(0.01, 1))
    for o in v.each(lambda: v.call(M + ":convert_latlon_to_zdi_coeffs", *s.args(), *s.fields(), area, L), "convert_latlon_to_zdi_coeffs"):
        check_projection(v, "coefficients", o, s, lambda l, m: and_(le(l, L), ge(m, ZERO), le(m, l)), area)
        v.unchanged("samples and grid unchanged")
        v.fresh_result(o)


@unit("project.default_area", "S23", PROJ + " " + M + ":convert_latlon_to_zdi_coeffs " + M + ":positive_lm", cost=6)
def u_project_default(v):
    """without an area the element is the mean polar step times the mean azimuth step"""
    s = Samples(v)
    L = v.int("L")
    v.it.samplers["L"] = lambda r: r.randint(0, 2)
    v.require(ge(L, ZERO))
    A, B = s.axes
    a, b = var("da$", "I"), var("db$", "I")
    pl, az = (lambda i, j: app("pl", (i, j), "R")), (lambda i, j: app("az", (i, j), "R"))
    dpl = div(binder("sum", (a, b), (ZERO, ZERO), (A, sub(B, ONE)), TRUE, sub(pl(a, add(b, ONE)), pl(a, b))), mul(A, sub(B, ONE)))
    daz = div(binder("sum", (a, b), (ZERO, ZERO), (sub(A, ONE), B), TRUE, sub(az(add(a, ONE), b), az(a, b))), mul(sub(A, ONE), B))
    for o in v.each(lambda: v.call(M + ":convert_latlon_to_zdi_coeffs", *s.args(), *s.fields(), max_degree=L), "convert_latlon_to_zdi_coeffs"):
        check_projection(v, "coefficients", o, s, lambda l, m: and_(le(l, L), ge(m, ZERO), le(m, l)), mul(dpl, daz))
        v.unchanged("samples and grid unchanged")


@unit("project.default_degree", "S23", PROJ + " " + M + ":convert_latlon_to_zdi_coeffs " + M + ":positive_lm", cost=6)
def u_project_five(v):
    """pairs up to degree five unless asked otherwise"""
    s = Samples(v)
    area = v.real("area", lambda r: r.uniform(0.01, 1))
    l, m = v.int("lq"), v.int("mq")
    for o in v.each(lambda: v.call(M + ":convert_latlon_to_zdi_coeffs", *s.args(), *s.fields(), area), "convert_latlon_to_zdi_coeffs"):
        with v.given(ge(l, ZERO), le(neg(l), m), le(m, l)):
            v.check("pairs", eq(has(v, o, l, m), and_(le(l, num(5)), ge(m, ZERO))))


@unit("project.integer_samples", "S23", PROJ + " " + M + ":convert_latlon_to_zdi_coeffs " + M + ":positive_lm", cost=6)
def u_project_int(v):
    s = Samples(v, integer=True)
    L = v.int("L")
    v.it.samplers["L"] = lambda r: r.randint(0, 2)
    v.require(ge(L, ZERO))
    area = v.real("area", lambda r: r.uniform(0.01, 1))
    for o in v.each(lambda: v.call(M + ":convert_latlon_to_zdi_coeffs", *s.args(), *s.fields(), area, L), "convert_latlon_to_zdi_coeffs"):
        check_projection(v, "coefficients", o, s, lambda l, m: and_(le(l, L), ge(m, ZERO), le(m, l)), area)


@unit("project.given_pairs", "S23 S26", PROJ, cost=6)
def u_project_pairs(v):
    """any list of distinct pairs"""
    s = Samples(v)
    N = v.dim("N")
    v.it.samplers["N"] = lambda r: r.randint(1, 2)
    from c_zdi import pos_arrays
    l, m = pos_arrays(v, N, "l", "m")
    i, j = var("pi$", "I"), var("pj$", "I")
    L, Mm = (lambda k: app("l", (k,), "I")), (lambda k: app("m", (k,), "I"))
    v.require(binder("forall", (i, j), (ZERO, ZERO), (N, N), TRUE, or_(eq(i, j), ne(L(i), L(j)), ne(Mm(i), Mm(j)))))
    area = v.real("area", lambda r: r.uniform(0.01, 1))
    k = v.int("k")
    for o in v.each(lambda: v.call(M + ":get_zdi_coeffs", *s.args(), l, m, *s.fields(), area), "get_zdi_coeffs"):
        with v.given(ge(k, ZERO), lt(k, N)):
            v.check("stored", has(v, o, L(k), Mm(k)))
            e = get(v, o, L(k), Mm(k))
            v.check_eq("alpha", e.elem()(((ZERO,),)), projection(v, s, L(k), Mm(k), area, 0))
            with v.given(ge(L(k), ONE)):
                for q, nm in ((1, "beta"), (2, "gamma")):
                    v.check_eq(nm, e.elem()(((num(q),),)), projection(v, s, L(k), Mm(k), area, q))
        v.unchanged("samples, grid and lists unchanged")
        v.fresh_result(o)


@unit("project.magnetogram", "S23 S26", PROJ + " " + M + ":convert_latlon_to_zdi_coeffs " + M + ":positive_lm " + M + ":convert_latlon_to_zdi zdi_magnetogram:from_coefficients", cost=6)
def u_project_magnetogram(v):
    """the magnetogram made from samples lists every pair once and carries the projected coefficients"""
    s = Samples(v)
    L = v.int("L")
    v.it.samplers["L"] = lambda r: r.randint(0, 2)
    v.require(ge(L, ZERO))
    area = v.real("area", lambda r: r.uniform(0.01, 1))
    l, m = v.int("lq"), v.int("mq")
    v.it.samplers["lq"] = lambda r: r.choice([0, 1, 1, 2])
    v.it.samplers["mq"] = lambda r: r.choice([0, 0, 1, 2])
    for z in v.each(lambda: v.call(M + ":convert_latlon_to_zdi", *s.args(), *s.fields(), area, L), "convert_latlon_to_zdi"):
        d, o = [v.value(lambda: v.attr(z, n)) for n in ("degrees_l", "orders_m")]
        ax = d.axes[0].dom
        inside = lambda l, m: and_(le(l, L), ge(m, ZERO), le(m, l))
        hit = lambda q: and_(eq(d.elem()((q,)), l), eq(o.elem()((q,)), m))
        with v.given(inside(l, m)):
            v.check("every pair up to the degree is listed", ax.binder("exists", hit))
        v.check("nothing else is listed", ax.binder("forall", lambda q: inside(d.elem()((q,)), o.elem()((q,)))))
        q = tuple(v.int("q%d" % i) for i in range(ax.arity))
        for i in range(ax.arity):
            v.it.samplers["q%d" % i] = lambda r: r.randint(0, 2)
        p = tuple(v.int("p%d" % i) for i in range(ax.arity))
        for i in range(ax.arity):
            v.it.samplers["p%d" % i] = lambda r: r.randint(0, 2)
        with v.given(ax.pred(q), ax.pred(p), eq(d.elem()((q,)), d.elem()((p,))), eq(o.elem()((q,)), o.elem()((p,)))):
            v.check("no pair is listed twice", and_(*[eq(x, y) for x, y in zip(q, p)]))
        with v.given(ax.pred(q)):
            lq, mq = d.elem()((q,)), o.elem()((q,))
            for k, n in enumerate(("alpha", "beta", "gamma")):
                e = v.value(lambda: v.attr(z, n)).elem()((q,))
                if k == 0:
                    v.check_eq("alpha", e, projection(v, s, lq, mq, area, 0))
                else:
                    with v.given(ge(lq, ONE)):
                        v.check_eq(n, e, projection(v, s, lq, mq, area, k))
        v.unchanged("samples and grid unchanged")
        v.fresh_result(z)
