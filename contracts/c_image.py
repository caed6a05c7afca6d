"""Contracts for image_converter.py (S24)."""
from spec import *
from c_zdi import eim, cmul
from c_convert import times
from c_coeffs import has, get, same_set
from c_geom import Geo
from c_coord import el

M = "image_converter"
YLM = M + ":spherical_harmonic " + M + ":_cached_spherical_harmonic "


def ylm(v, l, m, th, ph):
    """the complex spherical harmonic as scipy's sph_harm(m, l, azimuth, polar): a real amplitude in the polar angle times e^(i m ph)"""
    return v.it.cx(times(eim(v, m, ph), app("Yamp", (m, l, th), "R")))


@unit("image.synthesis", "S24 S26", M + ":to_image " + YLM, cost=2)
def u_to(v):
    c = v.coeffs("c", 1)
    g = Geo(v)
    for o in v.each(lambda: v.call(M + ":to_image", c.obj, g.obj), "to_image"):
        v.check_arr("image", o, [g.FA, g.FP], lambda i, j: _series(v, c, g, i, j))
        v.unchanged("coefficients and grid unchanged")
        v.fresh_result(o)


def _series(v, c, g, i, j):
    th, ph = g.centre(i, j)
    part = lambda k: c.dom.binder("sum", lambda x: (lambda z: z.re if k == 0 else z.im)(
        v.it.cx(cmul(v, c.at(x[0], x[1], ZERO), ylm(v, x[0], x[1], th, ph)))))
    return Cx(part(0), part(1))


def _from(tag, grid, dtype):
    @unit("image.analysis." + tag, "S24 S26", M + ":from_image " + M + ":_deltas " + M + ":_indices " + YLM, cost=3)
    def u(v):
        if grid:
            g = Geo(v)
        else:
            A, P = v.dim("FA"), v.dim("FP")
            v.require(ge(A, ONE), ge(P, ONE))
            class g: pass
            g.FA, g.FP = A, P
            g.a, g.p = (lambda i: div(mul(num(2), PI, i), A)), (lambda j: div(mul(PI, j), P))
            g.centre = lambda i, j: (div(add(g.p(j), g.p(add(j, ONE))), num(2)), div(add(g.a(i), g.a(add(i, ONE))), num(2)))
        L = v.int("L")
        v.it.samplers["L"] = lambda r: r.randint(0, 3)
        v.require(ge(L, ZERO))
        im = v.array("im", [g.FA, g.FP], dtype)
        l, m = v.int("l"), v.int("m")
        for o in v.each(lambda: v.call(M + ":from_image", im, *([g.obj] if grid else []), lmax=L), "from_image"):
            o, og = v.it.concrete_items(o)
            if grid:
                v.check("the grid given is the grid returned", boolean(og is g.obj))
            with v.given(ge(l, ZERO), le(neg(l), m), le(m, l)):
                v.check("pairs", eq(has(v, o, l, m), lt(l, L)))
                with v.given(lt(l, L)):
                    a, b = var("ia$", "I"), var("ib$", "I")
                    def term(k):
                        th, ph = g.centre(a, b)
                        y = v.it.cx(ylm(v, l, m, th, ph))
                        w = mul(app("sin", (th,), "R"), sub(g.a(add(a, ONE)), g.a(a)), sub(g.p(add(b, ONE)), g.p(b)))
                        z = v.it.cx(cmul(v, im.elem()(((a,), (b,))), Cx(y.re, neg(y.im)), w))
                        return binder("sum", (a, b), (ZERO, ZERO), (g.FA, g.FP), TRUE, z.re if k == 0 else z.im)
                    v.check_eq("coefficient", get(v, o, l, m).elem()(((ZERO,),)), Cx(term(0), term(1)))
            v.unchanged("image and grid unchanged")
            v.fresh_result(o)


_from("real", True, "float")
_from("complex", True, "complex")
_from("default_grid", False, "float")


@unit("image.analysis.default_degree", "S24", M + ":from_image " + M + ":_indices " + YLM, cost=1)
def u_degree(v):
    """degrees below thirty unless asked otherwise"""
    g = Geo(v)
    im = v.array("im", [g.FA, g.FP], "float")
    l, m = v.int("l"), v.int("m")
    for o in v.each(lambda: v.call(M + ":from_image", im, g.obj), "from_image"):
        o, og = v.it.concrete_items(o)
        with v.given(ge(l, ZERO), le(neg(l), m), le(m, l)):
            v.check("pairs", eq(has(v, o, l, m), lt(l, num(30))))
