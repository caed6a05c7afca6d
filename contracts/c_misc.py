"""Contracts for fibonacci_sphere.py and plot_lsd.wl_intervals (S28, S27)."""
import math
from spec import *
from c_coord import el

F = "fibonacci_sphere:fibonacci_sphere"


def _sphere(tag, args):
    @unit("fibonacci." + tag, "S28 S26", F, cost=2)
    def u(v):
        n = v.dim("n")
        i = v.int("i")
        v.require(ge(n, ONE), ge(i, ZERO), lt(i, n))
        for o in v.each(lambda: v.call(F, n, *args), "fibonacci_sphere"):
            x, y, z = (el(o, i, num(k)) for k in range(3))
            zone = sub(div(real(add(mul(num(2), i), ONE)), real(n)), num(1))
            v.check_eq("unit vector", add(mul(x, x), mul(y, y), mul(z, z)), num(1, "R"))
            v.check_eq("middle of the i-th zone", y, zone)
            if not args:
                k = mod(add(i, ONE), n)
                golden = mul(PI, sub(num(3), sqrt(num(5, "R"))))
                r = sqrt(sub(num(1), mul(zone, zone)))
                v.check_eq("turned: x", x, mul(r, app("cos", (mul(real(k), golden),), "R")))
                v.check_eq("turned: z", z, mul(r, app("sin", (mul(real(k), golden),), "R")))
            v.fresh_result(o)


_sphere("plain", ())
_sphere("random", (True,))


W = "plot_lsd:wl_intervals"


def _intervals(tag, given):
    @unit("wl_intervals." + tag, "S27 S26", W, cost=2)
    def u(v):
        n = v.dim("n")
        v.it.samplers["n"] = lambda r: r.randint(1, 6)
        wl = v.array("wl", [n], "float", sampler=lambda r: r.uniform(0, 1))
        thr = v.real("thr", lambda r: r.uniform(0, 0.6)) if given else num(Fraction(2, 10), "R")
        w = lambda i: app("wl", (i,), "R")
        gap = lambda i: gt(absolute(sub(w(i), w(sub(i, ONE)))), thr)
        k, x = v.int("k"), v.int("x")
        absolute = lambda t: ite(le(ZERO, t), t, neg(t))
        for o in v.each(lambda: v.it.np.asarray(v.it.np.b_list([v.call(W, wl, *([thr] if given else []))], {})), "wl_intervals"):
            m = v.it.np.axis_len(o, 0) if hasattr(v.it.np, "axis_len") else o.axes[0].dom.size()
            s, e = (lambda i: el(o, i, ZERO)), (lambda i: el(o, i, ONE))
            v.check("at least one interval", ge(m, ONE))
            v.check_eq("starts at the first sample", s(ZERO), ZERO)
            v.check_eq("ends after the last sample", e(sub(m, ONE)), n)
            with v.given(ge(k, ZERO), lt(k, m)):
                v.check("intervals are not empty", lt(s(k), e(k)))
                with v.given(lt(s(k), x), lt(x, e(k))):
                    v.check("no gap inside an interval", not_(gap(x)))
            with v.given(ge(k, ZERO), lt(k, sub(m, ONE))):
                v.check_eq("consecutive", e(k), s(add(k, ONE)))
                v.check("split only at gaps", gap(e(k)))
            v.unchanged("wavelengths unchanged")


_intervals("given", True)
_intervals("default", False)
