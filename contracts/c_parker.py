"""Contracts for parker_solution.py (S22)."""
from spec import *
from c_coord import el

M = "parker_solution"
PARKER = M + ":ParkerSolution"
lg = lambda t: app("log", (t,), "R")


def rhs(s):
    return add(mul(num(4), lg(s)), mul(num(4), sub(div(num(1), s), num(1))))


def branch_value(s, b):
    """the solution with the given branch of Lambert's W, in units of the sonic speed"""
    return sqrt(neg(app("lambertw", (num(b), neg(app("exp", (sub(neg(rhs(s)), num(1)),), "R"))), "R")))


def speed(s):
    return ite(lt(s, num(1, "R")), branch_value(s, 0), branch_value(s, -1))


def lambert(v, s, b):
    """assumed: the defining equation and the ranges of the two real branches of Lambert's W on [-1/e, 0)

    The argument is -exp(-rhs - 1), and rhs >= 0 because ln s >= 1 - 1/s."""
    z = neg(app("exp", (sub(neg(rhs(s)), num(1)),), "R"))
    w = app("lambertw", (num(b), z), "R")
    v.require(lt(w, num(0, "R")), eq(add(lg(neg(w)), rhs(s), num(1), w), num(0, "R")))
    v.require(le(num(-1, "R"), w) if b == 0 else le(w, num(-1, "R")))


@unit("parker.equation", "S22", M + ":AnalyticBase.find_parker_analytic " + M + ":AnalyticBase.parker_lhs " + M + ":AnalyticBase.parker_rhs", cost=1)
def u_equation(v):
    s = v.real("s", lambda r: r.uniform(0.2, 4))
    v.require(gt(s, num(0, "R")))
    lambert(v, s, 0)
    lambert(v, s, -1)
    w = el(v.value(lambda: v.call(M + ":AnalyticBase.find_parker_analytic", s)))
    v.check_eq("branch of Lambert's W", w, speed(s))
    for name, c in (("below the sonic point", lt(s, num(1, "R"))), ("beyond the sonic point", ge(s, num(1, "R")))):
        with v.given(c):
            v.check("positive speed " + name, gt(w, num(0, "R")))
            v.check(("subsonic " if c.op == "lt" else "supersonic ") + name, le(w, num(1, "R")) if name.startswith("below") else ge(w, num(1, "R")))
            lhs = v.value(lambda: v.call(M + ":AnalyticBase.parker_lhs", w))
            v.check_eq("Parker equation " + name, lhs, rhs(s))
            v.check_eq("left hand side " + name, lhs, sub(sub(mul(w, w), num(1)), mul(num(2), lg(w))))
    r = v.value(lambda: v.call(M + ":AnalyticBase.parker_rhs", s))
    v.check_eq("right hand side", r, rhs(s))


def solution(v):
    """callee contract of find_parker_analytic (discharged in parker.equation): a positive function of the positive radius"""
    def apply(it, f, args, kwargs):
        b = it.bind_args(f, args, kwargs)
        s = it.np.item(b["radius_dimensionless"])
        if not isinstance(s, T) or b["all_sols"] is not False or not it.pc.proves(gt(s, num(0, "R"))):
            return NotImplemented
        t = app("parker", (s,), "R")
        it.axiom(gt(t, num(0, "R")))
        return t
    v.it.samplers["parker"] = lambda r: r.uniform(0.2, 3)
    v.it.contracts["starwinds_magnetogram.parker_solution:AnalyticBase.find_parker_analytic"] = apply


class Wind:
    """a wind with arbitrary positive parameters"""
    def __init__(self, v):
        g = lambda r: r.uniform(0.5, 3)
        self.T, self.rho, self.R, self.Mass = [v.real(n, g) for n in ("T", "rho", "R", "mass")]
        for x in (self.T, self.rho, self.R, self.Mass):
            v.require(gt(x, num(0, "R")))
        G, k, mp = (var("const." + n, "R") for n in ("gravitational_constant", "Boltzmann", "proton_mass"))
        self.rc = div(mul(G, self.Mass, mp), mul(num(4), self.T, k))
        self.cs = sqrt(div(mul(num(2), k, self.T), mp))
        solution(v)
        self.obj = v.build(lambda: v.call(PARKER, self.T, self.rho, self.R, self.Mass))


@unit("parker.wind", "S22 S26", PARKER + ".speed " + PARKER + ".density " + PARKER + ".total_mass_flux", cost=2)
def u_wind(v):
    w = Wind(v)
    o = w.obj
    par = lambda s: app("parker", (s,), "R")
    N = v.dim("N")
    r = v.array("r", [N], "float", sampler=lambda g: g.uniform(0.3, 4))
    i = v.int("i")
    v.require(ge(i, ZERO), lt(i, N))
    ri = app("r", (i,), "R")
    top = ite(lt(ri, w.R), w.R, ri)
    v.check_eq("sonic radius", v.attr(o, "radius_sonic"), w.rc)
    v.check_eq("sonic speed", v.attr(o, "speed_sonic"), w.cs)
    vel = v.value(lambda: v.method(o, "speed", r))
    rho = v.value(lambda: v.method(o, "density", r))
    v.check_arr("speed", vel, [N], lambda k: mul(w.cs, par(div(ite(lt(app("r", (k,), "R"), w.R), w.R, app("r", (k,), "R")), w.rc))))
    flux = v.it.np.item_of(v.it.np.asarray(v.attr(o, "total_mass_flux")))
    sp = [el(vel, i), el(rho, i)]
    v.check_eq("mass flux", mul(num(4), PI, top, top, sp[1], sp[0]), flux)
    with v.given(eq(ri, w.R)):
        v.check_eq("base density at the surface", sp[1], w.rho)
    with v.given(lt(ri, w.R)):
        v.check_eq("base density below the surface", sp[1], w.rho)
    v.unchanged("radii and wind unchanged", allow=[o])


@unit("parker.one_radius", "S22", PARKER + ".speed " + PARKER + ".density", cost=1)
def u_one(v):
    """a single radius, as an integer or a real"""
    w = Wind(v)
    for r, tag in ((v.real("r", lambda g: g.uniform(0.3, 4)), "real"), (v.int("k"), "integer")):
        t = real(r)
        with v.given(gt(t, num(0, "R"))):
            top = ite(lt(t, w.R), w.R, t)
            vel, rho = (v.it.np.item_of(v.value(lambda: v.method(w.obj, n, r))) for n in ("speed", "density"))
            v.check_eq("speed at a %s radius" % tag, vel, mul(w.cs, app("parker", (div(top, w.rc),), "R")))
            flux = v.it.np.item_of(v.it.np.asarray(v.attr(w.obj, "total_mass_flux")))
            v.check_eq("mass flux at a %s radius" % tag, mul(num(4), PI, top, top, rho, vel), flux)
