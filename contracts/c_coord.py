"""Contracts for starwinds_magnetogram/coordinate_transforms.py (S18) and Cartesian PFSS evaluation (S17)."""
from spec import *
from c_zdi import unit_vectors
from c_pfss import pfss_set, radii

M = "coordinate_transforms"
TO_SPH = M + ":spherical_coordinates_from_rectangular"
TO_RECT = M + ":rectangular_coordinates_from_spherical"
S2R = M + ":spherical_to_rectangular_transformation_matrix"
R2S = M + ":rectangular_to_spherical_transformation_matrix"


def el(a, *labels):
    return a.elem()(tuple((l,) for l in labels))


def xyz(v, S):
    g = lambda r: r.choice([r.uniform(-3, 3), 0.0, r.uniform(-1, 1)])
    return [v.array(n, [S], "float", sampler=g) for n in ("x", "y", "z")]


@unit("coordinates.roundtrip_cartesian", "S18 S26", TO_SPH + " " + TO_RECT, cost=2)
def u_rt1(v):
    S = v.pack("S")
    p = xyz(v, S)
    for r in v.each(lambda: v.call(TO_SPH, *p), "to spherical"):
        pr, pp, pa = v.it.concrete_items(r)
        k = v.int("k")
        with v.given(S.dom.pred((k,))):
            v.check("radius is not negative", ge(el(pr, k), ZERO))
            v.check_eq("radius is the length", mul(el(pr, k), el(pr, k)), add(*[mul(el(q, k), el(q, k)) for q in p]))
            v.check("polar angle at least 0", ge(el(pp, k), ZERO))
            v.check("polar angle at most pi", le(el(pp, k), PI))
            v.check("azimuth at least -pi", ge(el(pa, k), neg(PI)))
            v.check("azimuth at most pi", le(el(pa, k), PI))
        back = v.value(lambda: v.call(TO_RECT, pr, pp, pa))
        for c, (b, q) in enumerate(zip(v.it.concrete_items(back), p)):
            v.check_arr("component %d returns" % c, b, [S], lambda k: el(q, k))
        v.unchanged("points unchanged")
        v.fresh_result(r)


@unit("coordinates.roundtrip_spherical", "S18 S26", TO_SPH + " " + TO_RECT, cost=2)
def u_rt2(v):
    S = v.pack("S")
    r0 = v.array("r", [S], "float", sampler=lambda r: r.uniform(0.1, 3))
    t0 = v.array("theta", [S], "float", sampler=lambda r: r.uniform(0.05, 3.1))
    p0 = v.array("phi", [S], "float", sampler=lambda r: r.uniform(-3.1, 3.1))
    a = lambda n, q: app(n, q, "R")
    v.require(S.dom.binder("forall", lambda q: and_(gt(a("r", q), ZERO), gt(a("theta", q), ZERO), lt(a("theta", q), PI), gt(a("phi", q), neg(PI)), le(a("phi", q), PI))))
    for b in v.each(lambda: v.call(TO_RECT, r0, t0, p0), "to Cartesian"):
        x = v.it.concrete_items(b)
        for c in range(3):
            v.check_arr("component %d" % c, x[c], [S], lambda k: mul(el(r0, k), unit_vectors(el(t0, k), el(p0, k))[0][c]))
        back = v.value(lambda: v.call(TO_SPH, *x))
        for nm, got, want in zip(("radius", "polar angle", "azimuth"), v.it.concrete_items(back), (r0, t0, p0)):
            v.check_arr(nm + " returns", got, [S], lambda k: el(want, k))
        v.unchanged("points unchanged")
        v.fresh_result(b)


def _matrix(nm, f, transpose):
    @unit("coordinates." + nm, "S18 S26", f, cost=2)
    def u(v):
        N = v.dim("N")
        t, p = v.array("theta", [N], "float"), v.array("phi", [N], "float")

        def entry(k, i, j):
            e = unit_vectors(el(t, k), el(p, k))
            if transpose:
                i, j = j, i
            # column j is the local unit vector j
            col = lambda jj: ite(eq(i, ZERO), e[jj][0], ite(eq(i, ONE), e[jj][1], e[jj][2]))
            return ite(eq(j, ZERO), col(0), ite(eq(j, ONE), col(1), col(2)))
        for r in v.each(lambda: v.call(f, t, p), nm):
            v.check_arr("local unit vectors", r, [N, 3, 3], entry)
            v.unchanged("angles unchanged")
            v.fresh_result(r)
    return u


_matrix("spherical_to_rectangular", S2R, False)
_matrix("rectangular_to_spherical", R2S, True)


@unit("coordinates.inverse", "S18", S2R + " " + R2S, cost=2)
def u_inv(v):
    N = v.dim("N")
    t, p = v.array("theta", [N], "float"), v.array("phi", [N], "float")
    a = v.value(lambda: v.call(S2R, t, p))
    b = v.value(lambda: v.call(R2S, t, p))
    k = v.int("k")
    with v.given(ge(k, ZERO), lt(k, N)):
        for i in range(3):
            for j in range(3):
                ab = add(*[mul(el(a, k, num(i), num(q)), el(b, k, num(q), num(j))) for q in range(3)])
                ba = add(*[mul(el(b, k, num(i), num(q)), el(a, k, num(q), num(j))) for q in range(3)])
                v.check_eq("product (%d,%d)" % (i, j), ab, num(1 if i == j else 0, "R"))
                v.check_eq("product the other way (%d,%d)" % (i, j), ba, num(1 if i == j else 0, "R"))
                v.check_eq("transpose (%d,%d)" % (i, j), el(a, k, num(i), num(j)), el(b, k, num(j), num(i)))


@unit("coordinates.scalar_angles", "S18", S2R + " " + R2S)
def u_scalar(v):
    t, p = v.real("theta"), v.real("phi")
    e = unit_vectors(t, p)
    for f, tr in ((S2R, False), (R2S, True)):
        r = v.value(lambda: v.call(f, t, p))
        for i in range(3):
            for j in range(3):
                v.check_eq("entry (%d,%d)" % (i, j), el(r, ZERO, num(i), num(j)), e[j][i] if not tr else e[i][j])


# ------------------------------------------------------------------------------------------ S17 Cartesian evaluation
def _cart(tag, default):
    @unit("pfss.cartesian." + tag, "S17 S26", "pfss_magnetogram:evaluate_cartesian pfss_magnetogram:evaluate_spherical %s %s" % (TO_SPH, S2R), cost=9)
    def u(v):
        a = pfss_set(v)
        r0, rs = radii(v, default)
        kw = {} if default else dict(radius_star=r0, radius_source_surface=rs)
        S = v.pack("S")
        p = [v.array(n, [S], "float", sampler=lambda r: r.uniform(-2.5, 2.5)) for n in ("x", "y", "z")]
        q = lambda n, k: app(n, k, "R")
        sph = v.it.concrete_items(v.value(lambda: v.call(TO_SPH, *p)))
        direct = v.it.concrete_items(v.value(lambda: v.call("pfss_magnetogram:evaluate_spherical", a.obj, *sph, **kw)))
        for res in v.each(lambda: v.call("pfss_magnetogram:evaluate_cartesian", a.obj, *p, **kw), "evaluate_cartesian"):
            out = v.it.concrete_items(res)
            for c, nm in enumerate(("radial", "polar", "azimuthal")):
                v.check_arr(nm + " component is that of the spherical evaluation", out[c], [S], lambda k: el(direct[c], k))
            for c, nm in enumerate("xyz"):
                def want(k):
                    e = unit_vectors(el(sph[1], k), el(sph[2], k))
                    return add(*[mul(el(direct[j], k), e[j][c]) for j in range(3)])
                v.check_arr("the same vector along " + nm, out[3 + c], [S], want)
            v.unchanged("coefficients and points unchanged")
            v.fresh_result(res)
    return u


_cart("given", False)
_cart("default", True)
