"""Contracts for starwinds_magnetogram/coefficients.py (S01, S02, S03, S04)."""
from spec import *

C = "coefficients:Coefficients"
ALL = ("coefficients:Coefficients.__init__ coefficients:Coefficients.append coefficients:Coefficients.set coefficients:Coefficients.get "
       "coefficients:Coefficients.has coefficients:Coefficients.degree_max coefficients:Coefficients.order_min coefficients:Coefficients.size "
       "coefficients:Coefficients.default_coefficients")


def add_(v, x, y):
    return v.it.sbin("Add", x, y)


def key(v, tag=""):
    """an arbitrary admissible (degree, order) pair"""
    l, m = v.int("l" + tag), v.int("m" + tag)
    return l, m, and_(ge(l, ZERO), le(neg(l), m), le(m, l))


def has(v, o, l, m):
    return v.it.to_T(v.it.np.item(v.value(lambda: v.method(o, "has", l, m))))


def get(v, o, l, m):
    return v.value(lambda: v.method(o, "get", l, m))


def same_set(v, name, o, hasf, getf, W, tag="q", default=None, props=None, dtype=None):
    """o holds exactly the pairs hasf with the values getf, and default elsewhere"""
    l, m, ok = key(v, tag)
    if isinstance(o, Obj) is False:
        return v.record(name + ": is a coefficient set", "refuted", "got %s" % type(o).__name__, props)
    with v.given(ok):
        v.check(name + ": stored pairs", eq(has(v, o, l, m), hasf(l, m)), props=props)
        with v.given(hasf(l, m)):
            v.check_arr(name + ": values", get(v, o, l, m), [W], lambda k: getf(l, m, k), props, dtype)
        if default is not None:
            with v.given(not_(hasf(l, m))):
                v.check_arr(name + ": default", get(v, o, l, m), [W], default, props)
    # the invariant of the class: size, highest degree and lowest order describe the stored pairs
    dm, om = v.it.t(v.it.np.item(v.value(lambda: v.attr(o, "degree_max")))), v.it.t(v.it.np.item(v.value(lambda: v.attr(o, "order_min"))))
    with v.given(ok, hasf(l, m)):
        v.check(name + ": degree_max bounds the degrees", le(l, dm), props=props)
        v.check(name + ": order_min bounds the orders", le(om, m), props=props)


def zero(v, dtype="complex"):
    return lambda *a: Cx(ZERO, ZERO)


# ---------------------------------------------------------------------------------------------- S01
@unit("coefficients.new", "S01", ALL)
def u_new(v):
    W = v.dim("W")
    d = v.array("D", [W], "complex")
    cls = v.fn(C)
    for o in v.each(lambda: v.it.call(cls, [d], {})):
        l, m, ok = key(v)
        with v.given(ok):
            v.check("empty", not_(has(v, o, l, m)))
            v.check_arr("default value", get(v, o, l, m), [W], lambda k: d.elem()(((k,),)))
        for nm in ("degree_max", "order_min", "size"):
            v.check_eq(nm + " of the empty set", v.value(lambda: v.attr(o, nm)), 0)
        v.check_arr("default_coefficients", v.value(lambda: v.attr(o, "default_coefficients")), [W], lambda k: d.elem()(((k,),)))
        v.unchanged()


def _state(v, W, name="a", dtype="complex"):
    d = v.array("D", [W], dtype)
    return v.coeffs(name, W, default=d, dtype=dtype), (lambda k: d.elem()(((k,),)))


@unit("coefficients.reads", "S01 S26", ALL)
def u_reads(v):
    W = v.dim("W")
    a, D = _state(v, W)
    same_set(v, "built set", a.obj, a.has, a.at, W, default=D)
    n = v.it.np.item(v.value(lambda: v.attr(a.obj, "size")))
    v.check("size counts the stored pairs", eq(v.it.t(n), a.dom.size()))
    dm, om = [v.it.t(v.it.np.item(v.value(lambda: v.attr(a.obj, nm)))) for nm in ("degree_max", "order_min")]
    # attained: no smaller bound works
    l, m = v.int("l"), v.int("m")
    B = v.int("B")
    with v.given(ge(B, ZERO), a.dom.binder("forall", lambda q: le(q[0], B))):
        v.check("degree_max is the least bound of the degrees", le(dm, B))
    with v.given(le(B, ZERO), a.dom.binder("forall", lambda q: le(B, q[1]))):
        v.check("order_min is the greatest bound of the orders", le(B, om))
    l, m, ok = key(v)
    v.require(ok)
    for nm, th in (("get", lambda: v.method(a.obj, "get", l, m)), ("has", lambda: v.method(a.obj, "has", l, m)),
                   ("size", lambda: v.attr(a.obj, "size")), ("contents", lambda: v.method(a.obj, "contents")),
                   ("default_coefficients", lambda: v.attr(a.obj, "default_coefficients"))):
        for r in v.each(th, nm):
            v.unchanged(nm + " changes nothing")
            if nm == "default_coefficients":
                v.fresh_result(r, "default_coefficients is a copy")


def _store(v, name, raises):
    W = v.dim("W")
    a, D = _state(v, W)
    l, m = v.int("l"), v.int("m")
    data = v.array("data", [W], "complex")
    n0 = v.it.t(v.it.np.item(v.value(lambda: v.attr(a.obj, "size"))))
    dm0, om0 = [v.it.t(v.it.np.item(v.value(lambda: v.attr(a.obj, nm)))) for nm in ("degree_max", "order_min")]
    for r in v.each(lambda: v.method(a.obj, name, l, m, data), name, raises(a, l, m)):
        new = lambda p, q: or_(and_(eq(p, l), eq(q, m)), a.has(p, q))

        def val_(p, q, k):
            here = and_(eq(p, l), eq(q, m))
            x, y = data.elem()(((k,),)), a.at(p, q, k)
            return Cx(ite(here, x.re, y.re), ite(here, x.im, y.im))
        same_set(v, "after " + name, a.obj, new, val_, W, default=D)
        v.check_arr("value just written", get(v, a.obj, l, m), [W], lambda k: data.elem()(((k,),)))
        dm, om = [v.it.t(v.it.np.item(v.value(lambda: v.attr(a.obj, nm)))) for nm in ("degree_max", "order_min")]
        v.check("degree_max updated", eq(dm, tmax(dm0, l)))
        v.check("order_min updated", eq(om, tmin(om0, m)))
        # the argument array stays the caller's
        v.check_arr("the caller's array is not changed", data, [W], lambda k: Cx(app("data.re", (k,), "R"), app("data.im", (k,), "R")))
        # later changes to the caller's array do not reach the set
        k = v.int("k")
        with v.given(ge(k, ZERO), lt(k, W)):
            before = get(v, a.obj, l, m).elem()(((k,),))
            one = v.arr_of([W], lambda i: Cx(num(7), num(3)), "complex")

            def later():
                v.it.np.write(data, one)
                return get_now(v, a.obj, l, m).elem()(((k,),))
            v.check_eq("the set owns its values", v.value(later), before)


def get_now(v, o, l, m):
    return v.method(o, "get", l, m)


@unit("coefficients.set", "S01", ALL)
def u_set(v):
    _store(v, "set", lambda a, l, m: {"AssertionError": not_(and_(le(neg(l), m), le(m, l)))})


@unit("coefficients.append", "S01", ALL)
def u_append(v):
    _store(v, "append", lambda a, l, m: {"IndexError": a.has(l, m), "AssertionError": not_(and_(le(neg(l), m), le(m, l)))})


@unit("coefficients.set.shape", "S01", ALL)
def u_shape(v):
    W, W2 = v.dim("W"), v.dim("W2")
    v.require(ne(W, W2))
    a, D = _state(v, W)
    l, m, ok = key(v)
    v.require(ok)
    for shape, tag in (([W2], "other width"), ([W, W2], "two-dimensional"), ([num(1), W], "extra axis")):
        data = v.array("data" + tag, shape, "complex")
        for nm in ("set", "append"):
            for p in v.run(lambda: v.method(a.obj, nm, l, m, data), nm + " " + tag, {"AssertionError": TRUE, "IndexError": a.has(l, m)}):
                pass


@unit("coefficients.set.scalar", "S01", ALL)
def u_scalar(v):
    a, D = _state(v, num(1))
    l, m, ok = key(v)
    v.require(ok)
    x = Cx(v.real("x"), v.real("y"))
    for r in v.each(lambda: v.method(a.obj, "set", l, m, x), "set"):
        v.check_arr("scalar value", get(v, a.obj, l, m), [1], lambda k: x)


@unit("coefficients.set.overwrite", "S01", ALL)
def u_overwrite(v):
    """two writes in a row: the last value at the same pair, both values at different pairs"""
    W = v.dim("W")
    a, D = _state(v, W)
    l, m, ok = key(v)
    l2, m2, ok2 = key(v, "2")
    v.require(ok, ok2)
    x, y = v.array("x", [W], "complex"), v.array("y", [W], "complex")

    def go():
        v.method(a.obj, "set", l, m, x)
        v.method(a.obj, "set", l2, m2, y)
    for r in v.each(go, "set twice"):
        v.check_arr("last write", get(v, a.obj, l2, m2), [W], lambda k: y.elem()(((k,),)))
        with v.given(not_(and_(eq(l, l2), eq(m, m2)))):
            v.check_arr("first write", get(v, a.obj, l, m), [W], lambda k: x.elem()(((k,),)))


# ---------------------------------------------------------------------------------------------- S02
def listing(v, name, value, hasf, getf, W, props=None):
    segs = [s for s in v.it.segments(value) if not (s[0] == "seq" and s[1].dom.filt is FALSE)]
    if len(segs) != 1 or segs[0][0] != "seq":
        return v.record(name + ": one sequence over the stored pairs", "unknown", repr(segs)[:200], props)
    seq = segs[0][1]
    if seq.dom.arity != 2:
        return v.record(name + ": one item per pair", "unknown", "", props)
    v.check(name + ": increasing (degree, order)", seq.dom.order == "lex", props=props) if seq.dom.order == "lex" else \
        v.record(name + ": increasing (degree, order)", "unknown", "order %r" % (seq.dom.order,), props)
    l, m = v.int("lq"), v.int("mq")
    v.check(name + ": exactly the stored pairs", eq(seq.dom.pred((l, m)), and_(ge(l, ZERO), le(neg(l), m), le(m, l), hasf(l, m))), props=props)
    with v.given(seq.dom.pred((l, m))):
        it = seq.fn((l, m))
        k, arr = it
        v.check(name + ": degree", eq(v.it.t(v.it.np.item(k[0])), l), props=props)
        v.check(name + ": order", eq(v.it.t(v.it.np.item(k[1])), m), props=props)
        v.check_arr(name + ": value", arr, [W], lambda i: getf(l, m, i), props)


@unit("coefficients.contents", "S02", ALL + " coefficients:Coefficients.contents")
def u_contents(v):
    W = v.dim("W")
    a, D = _state(v, W)
    for r in v.each(lambda: v.method(a.obj, "contents"), "contents"):
        listing(v, "contents", r, a.has, a.at, W)
        v.unchanged()


LIMITS = dict(degree_l_min="l_min", degree_l_max="l_max", order_m_min="m_min", order_m_max="m_max")


def _as_arrays(v, include, given):
    """any subset of the four limits is given; the others have their documented defaults"""
    W = v.dim("W")
    a, D = _state(v, W)
    kw = {k: v.int(n) for k, n in LIMITS.items() if k in given}
    l0 = kw.get("degree_l_min", ZERO)
    l1 = kw["degree_l_max"] if "degree_l_max" in kw else v.it.t(v.it.np.item(v.value(lambda: v.attr(a.obj, "degree_max"))))
    m0, m1 = kw.get("order_m_min", neg(l1)), kw.get("order_m_max", l1)
    v.require(ge(l0, ZERO), le(l0, l1))
    inr = lambda l, m: and_(le(l0, l), le(l, l1), le(m0, m), le(m, m1), le(neg(l), m), le(m, l), ge(l, ZERO))
    lw, mw = v.int("lw"), v.int("mw")
    v.require(inr(lw, mw))          # the request is not empty
    if given:
        rng = Dom((var("kl$", "I"), var("km$", "I")), (l0, tmax(m0, neg(var("kl$", "I")))),
                  (add(l1, ONE), add(tmin(m1, var("kl$", "I")), ONE)))
        v.require(rng.binder("exists", lambda q: TRUE))
    want = (lambda l, m: inr(l, m)) if include else (lambda l, m: and_(inr(l, m), a.has(l, m)))
    for r in v.each(lambda: v.method(a.obj, "as_arrays", include_unset=include, **kw), "as_arrays"):
        deg, orde, cf = r
        ax = deg.axes[0]
        if not include and ax.const() == 0:
            continue
        if ax.dom.arity != 2 or ax.dom.order != "lex" and ax.dom.order != ("lex", "lex"):
            v.record("as_arrays: increasing (degree, order)", "unknown", "order %r" % (ax.dom.order,))
            continue
        l, m = v.int("lq"), v.int("mq")
        for arr, nm in ((orde, "orders"), (cf, "values")):
            if not v.it.np.same_axis(arr.axes[0], ax):
                v.record(nm + " run over the same pairs", "unknown")
        v.check("exactly the requested pairs", eq(ax.dom.pred((l, m)), want(l, m)))
        with v.given(ax.dom.pred((l, m)), want(l, m)):
            v.check_eq("degrees", deg.elem()(((l, m),)), l)
            v.check_eq("orders", orde.elem()(((l, m),)), m)
            k = v.int("k")
            with v.given(ge(k, ZERO), lt(k, W)):
                h = a.has(l, m)
                x, y = a.at(l, m, k), D(k)
                if len(cf.axes) != 2:
                    v.record("values: rank", "refuted", "rank %d" % len(cf.axes))
                else:
                    v.check_eq("values", cf.elem()(((l, m), (k,))), Cx(ite(h, x.re, y.re), ite(h, x.im, y.im)))
        v.unchanged()
        v.fresh_result(r, "the arrays are independent of the set")


for _include in (True, False):
    for _bits in range(16):
        _given = [k for i, k in enumerate(LIMITS) if _bits >> i & 1]
        _tag = "".join(LIMITS[k] for k in _given) or "defaults"
        unit("coefficients.as_arrays.%s%s" % (_tag, "" if _include else ".stored"), "S02", ALL + " coefficients:Coefficients.as_arrays")(
            lambda v, include=_include, given=_given: _as_arrays(v, include, given))


# ---------------------------------------------------------------------------------------------- S03
def binary(v, name, thunk, a, b, W, fn):
    union = lambda l, m: or_(a.has(l, m), b.has(l, m))
    for o in v.each(thunk, name):
        same_set(v, name, o, union, lambda l, m, k: fn(a.get(l, m, k), b.get(l, m, k)), W)
        v.unchanged(name + ": operands unchanged", props=["S03", "S26"])
        v.fresh_result(o, name + ": result shares no storage", props=["S03", "S26"])


def two(v):
    W = v.dim("W")
    return W, v.coeffs("a", W), v.coeffs("b", W)


def op(v, o):
    return lambda x, y: v.it.sbin(o, x, y)


@unit("coefficients.add", "S03 S26", "coefficients:add coefficients:Coefficients.__add__ coefficients:empty_like " + ALL)
def u_add(v):
    W, a, b = two(v)
    binary(v, "a + b", lambda: v.it.binop("Add", a.obj, b.obj), a, b, W, op(v, "Add"))
    binary(v, "add(a, a)", lambda: v.call("coefficients:add", a.obj, a.obj), a, a, W, op(v, "Add"))


@unit("coefficients.sub", "S03 S26", "coefficients:Coefficients.__sub__ coefficients:add coefficients:multiply " + ALL)
def u_sub(v):
    W, a, b = two(v)
    binary(v, "a - b", lambda: v.it.binop("Sub", a.obj, b.obj), a, b, W, op(v, "Sub"))


@unit("coefficients.mul", "S03 S26", "coefficients:Coefficients.__mul__ coefficients:multiply " + ALL)
def u_mul(v):
    W, a, b = two(v)
    binary(v, "a * b", lambda: v.it.binop("Mult", a.obj, b.obj), a, b, W, op(v, "Mult"))


def unary(v, name, thunk, a, W, fn, keep=None):
    for o in v.each(thunk, name):
        same_set(v, name, o, (lambda l, m: and_(a.has(l, m), keep(l, m))) if keep else a.has, lambda l, m, k: fn(a.at(l, m, k), l, m), W)
        v.unchanged(name + ": operand unchanged", props=["S03", "S26"])
        v.fresh_result(o, name + ": result shares no storage", props=["S03", "S26"])


@unit("coefficients.scalar", "S03 S26", "coefficients:multiply coefficients:Coefficients.__rmul__ coefficients:Coefficients.__truediv__ coefficients:Coefficients.__mul__ " + ALL)
def u_scal(v):
    W = v.dim("W")
    a = v.coeffs("a", W)
    x, y = v.real("x"), v.real("y")
    z = Cx(x, y)
    unary(v, "a * real", lambda: v.it.binop("Mult", a.obj, x), a, W, lambda c, l, m: v.it.sbin("Mult", c, x))
    unary(v, "real * a", lambda: v.it.binop("Mult", x, a.obj), a, W, lambda c, l, m: v.it.sbin("Mult", c, x))
    unary(v, "a * complex", lambda: v.it.binop("Mult", a.obj, z), a, W, lambda c, l, m: v.it.sbin("Mult", c, z))
    unary(v, "complex * a", lambda: v.it.binop("Mult", z, a.obj), a, W, lambda c, l, m: v.it.sbin("Mult", c, z))
    v.require(ne(x, ZERO))
    unary(v, "a / real", lambda: v.it.binop("Div", a.obj, x), a, W, lambda c, l, m: v.it.sbin("Div", c, x))
    unary(v, "a / complex", lambda: v.it.binop("Div", a.obj, z), a, W, lambda c, l, m: v.it.sbin("Div", c, z))


@unit("coefficients.pow", "S03 S26", "coefficients:Coefficients.__pow__ " + ALL)
def u_pow(v):
    W = v.dim("W")
    a = v.coeffs("a", W)
    for k in (1, 2, 3):
        unary(v, "a ** %d" % k, lambda: v.it.binop("Pow", a.obj, k), a, W, lambda c, l, m: v.it.cpow(c, k))
    l, m, ok = key(v)


@unit("coefficients.scale", "S03 S26", "coefficients:scale coefficients:copy coefficients:Coefficients.scale " + ALL)
def u_scale(v):
    W = v.dim("W")
    a = v.coeffs("a", W)
    f = lambda l, m: app("fac", (l, m), "R")
    fac = Builtin("fac", lambda args, kw: f(v.it.t(v.it.np.item(args[0])), v.it.t(v.it.np.item(args[1]))))
    l, m, ok = key(v)
    q = Dom((var("fl$", "I"), var("fm$", "I")), (ZERO, neg(var("fl$", "I"))), (a.L, add(var("fl$", "I"), ONE)))
    v.it.samplers["fac"] = lambda r: r.choice([-1, 1]) * r.uniform(0.3, 2)
    unary(v, "scale", lambda: v.call("coefficients:scale", a.obj, fac), a, W, lambda c, l, m: v.it.sbin("Mult", c, f(l, m)))
    unary(v, "scale method", lambda: v.method(a.obj, "scale", fac), a, W, lambda c, l, m: v.it.sbin("Mult", c, f(l, m)))
    unary(v, "inverse scale", lambda: v.call("coefficients:scale", a.obj, fac, -1), a, W, lambda c, l, m: v.it.sbin("Mult", c, power(f(l, m), num(-1))))
    unary(v, "scale squared", lambda: v.call("coefficients:scale", a.obj, fac, power=2), a, W, lambda c, l, m: v.it.sbin("Mult", c, power(f(l, m), num(2))))


@unit("coefficients.copies", "S03 S26", "coefficients:copy coefficients:zeros_like coefficients:empty_like coefficients:truncated coefficients:Coefficients.copy coefficients:Coefficients.truncated " + ALL)
def u_copies(v):
    W = v.dim("W")
    a = v.coeffs("a", W)
    unary(v, "copy", lambda: v.call("coefficients:copy", a.obj), a, W, lambda c, l, m: c)
    unary(v, "copy method", lambda: v.method(a.obj, "copy"), a, W, lambda c, l, m: c)
    unary(v, "zeros_like", lambda: v.call("coefficients:zeros_like", a.obj), a, W, lambda c, l, m: Cx(ZERO, ZERO))
    n = v.int("n")
    unary(v, "truncated", lambda: v.call("coefficients:truncated", a.obj, n), a, W, lambda c, l, m: c, keep=lambda l, m: le(l, n))
    unary(v, "truncated method", lambda: v.method(a.obj, "truncated", n), a, W, lambda c, l, m: c, keep=lambda l, m: le(l, n))
    for o in v.each(lambda: v.call("coefficients:empty_like", a.obj), "empty_like"):
        same_set(v, "empty_like", o, lambda l, m: FALSE, lambda l, m, k: Cx(ZERO, ZERO), W, default=lambda k: Cx(ZERO, ZERO))
        v.unchanged()


@unit("coefficients.isclose", "S03 S26", "coefficients:isclose coefficients:allclose " + ALL)
def u_close(v):
    W = v.dim("W")
    a, b = v.coeffs("a", W, nonempty=True), v.coeffs("b", W)
    close = lambda l, m, k: v.it.to_T(v.it.np.close(a.get(l, m, k), b.get(l, m, k), num(Fraction_(1, 100000)), num(Fraction_(1, 100000000))))
    union = lambda l, m: or_(a.has(l, m), b.has(l, m))
    v.require(Dom((var("ul$", "I"), var("um$", "I")), (ZERO, neg(var("ul$", "I"))), (tmax(a.L, b.L), add(var("ul$", "I"), ONE)),
                  union(var("ul$", "I"), var("um$", "I"))).binder("exists", lambda q: TRUE))
    for o in v.each(lambda: v.call("coefficients:isclose", a.obj, b.obj), "isclose"):
        same_set(v, "isclose", o, union, close, W)
        v.unchanged()
    W2 = v.dim("W2")
    v.require(ne(W, W2))
    c = v.coeffs("c", W2)
    for o in v.each(lambda: v.call("coefficients:allclose", a.obj, c.obj), "allclose of different widths"):
        v.check("different widths are never close", v.it.np.item(o) is False or v.it.to_T(v.it.np.item(o)) is FALSE)


def Fraction_(a, b):
    from fractions import Fraction
    return Fraction(a, b)


@unit("coefficients.allclose", "S03 S26", "coefficients:isclose coefficients:allclose " + ALL)
def u_allclose(v):
    W = v.dim("W")
    a, b = v.coeffs("a", W, nonempty=True), v.coeffs("b", W)
    l, m, ok = key(v)
    k = v.int("k")
    union = lambda l, m: or_(a.has(l, m), b.has(l, m))
    v.require(Dom((var("ul$", "I"), var("um$", "I")), (ZERO, neg(var("ul$", "I"))), (tmax(a.L, b.L), add(var("ul$", "I"), ONE)),
                  union(var("ul$", "I"), var("um$", "I"))).binder("exists", lambda q: TRUE))
    close = lambda l, m, k: v.it.to_T(v.it.np.close(a.get(l, m, k), b.get(l, m, k), num(Fraction_(1, 100000)), num(Fraction_(1, 100000000))))
    for o in v.each(lambda: v.call("coefficients:allclose", a.obj, b.obj), "allclose"):
        r = v.it.to_T(v.it.np.item(o))
        with v.given(r, ok, union(l, m), ge(k, ZERO), lt(k, W)):
            v.check("close sets are close everywhere", close(l, m, k))
        D = Dom((var("cl$", "I"), var("cm$", "I"), var("ck$", "I")), (ZERO, neg(var("cl$", "I")), ZERO),
                (tmax(a.L, b.L), add(var("cl$", "I"), ONE), W), union(var("cl$", "I"), var("cm$", "I")))
        with v.given(D.binder("forall", lambda q: close(*q))):
            v.check("sets close everywhere are close", r)
        v.unchanged()


# ---------------------------------------------------------------------------------------------- S04
def _hstack(v, n):
    Ws = [v.dim("W%d" % i) for i in range(n)]
    sets = [v.coeffs("s%d" % i, w) for i, w in enumerate(Ws)]
    union = lambda l, m: or_(*[s.has(l, m) for s in sets])
    tot = add(*Ws) if n > 1 else Ws[0]

    def val_(l, m, k):
        off, re, im = ZERO, ZERO, ZERO
        parts = []
        for w, s in zip(Ws, sets):
            parts.append((off, add(off, w), s))
            off = add(off, w)
        r = None
        for lo, hi, s in reversed(parts):
            x = s.get(l, m, sub(k, lo))
            r = x if r is None else Cx(ite(lt(k, hi), x.re, r.re), ite(lt(k, hi), x.im, r.im))
        return r
    lst = v.it.list_of([s.obj for s in sets])
    for o in v.each(lambda: v.call("coefficients:hstack", lst), "hstack"):
        same_set(v, "hstack of %d" % n, o, union, val_, tot)
        v.unchanged("hstack: operands unchanged", props=["S04", "S26"])
        v.fresh_result(o, "hstack: result shares no storage", props=["S04", "S26"])


for _n in (1, 2, 3, 4):
    unit("coefficients.hstack.%d" % _n, "S04 S26", "coefficients:hstack " + ALL, bounded="stacks of %d sets of any widths" % _n)(
        lambda v, n=_n: _hstack(v, n))


@unit("coefficients.hstack.any", "S04 S05 S26", "coefficients:hstack " + ALL, cost=2)
def u_hstack_any(v):
    """any number of single-component sets"""
    n = v.int("n")
    v.it.samplers["n"] = lambda r: r.randint(1, 4)
    v.require(ge(n, ONE))
    f = v.family("s", n)
    any_ = lambda l, m: range_dom(n).binder("exists", lambda i: f.has(i[0], l, m))
    for o in v.each(lambda: v.call("coefficients:hstack", f.list), "hstack"):
        same_set(v, "hstack of n sets", o, any_, lambda l, m, k: f.get(k, l, m), n)
        v.unchanged("hstack: operands unchanged", props=["S04", "S26"])
        v.fresh_result(o, "hstack: result shares no storage", props=["S04", "S26"])


def _hsplit(v, n):
    a = v.coeffs("a", num(n))
    for o in v.each(lambda: v.call("coefficients:hsplit", a.obj), "hsplit"):
        parts = v.it.concrete_items(o)
        v.check("as many sets as components", len(parts) == n)
        for i, p in enumerate(parts):
            same_set(v, "component %d" % i, p, a.has, lambda l, m, k: a.at(l, m, num(i)), 1)
            v.fresh_result(p, "component shares no storage", props=["S04", "S26"])
        v.unchanged("hsplit: operand unchanged", props=["S04", "S26"])
    for o in v.each(lambda: v.call("coefficients:hstack", v.method(a.obj, "hsplit")), "hstack of hsplit"):
        same_set(v, "stacking the parts", o, a.has, a.at, n)


for _n in (1, 2, 3, 4):
    unit("coefficients.hsplit.%d" % _n, "S04 S26", "coefficients:hsplit coefficients:Coefficients.hsplit " + ALL, bounded="sets with %d components" % _n)(
        lambda v, n=_n: _hsplit(v, n))


def members(v, name, value, n, props=None):
    """the sequence of n sets: (is it one, function of the index)"""
    segs = v.it.segments(value)
    if len(segs) == 1 and segs[0][0] == "seq" and segs[0][1].dom.arity == 1:
        seq = segs[0][1]
        i = v.int("iq")
        v.check(name + ": one set per index", eq(seq.dom.pred((i,)), and_(ge(i, ZERO), lt(i, n))), props=props)
        return lambda i: seq.fn((i,))
    v.record(name + ": one set per index", "unknown", repr(segs)[:200], props)
    return None


@unit("coefficients.hsplit.any", "S04 S26", "coefficients:hsplit coefficients:Coefficients.hsplit " + ALL, cost=2)
def u_hsplit_any(v):
    """any number of components"""
    W = v.dim("W", 1)
    a = v.coeffs("a", W)
    i = v.int("i")
    for o in v.each(lambda: v.call("coefficients:hsplit", a.obj), "hsplit"):
        f = members(v, "hsplit", o, W)
        if f is not None:
            with v.given(ge(i, ZERO), lt(i, W)):
                same_set(v, "component i", f(i), a.has, lambda l, m, k: a.at(l, m, i), 1)
        v.unchanged("hsplit: operand unchanged", props=["S04", "S26"])
        v.fresh_result(o, "component shares no storage", props=["S04", "S26"])
    for o in v.each(lambda: v.call("coefficients:hstack", v.method(a.obj, "hsplit")), "hstack of hsplit"):
        same_set(v, "stacking the parts", o, a.has, a.at, W)


def _stack_split(v, n):
    sets = [v.coeffs("s%d" % i, num(1)) for i in range(n)]
    union = lambda l, m: or_(*[s.has(l, m) for s in sets])
    lst = v.it.list_of([s.obj for s in sets])
    for o in v.each(lambda: v.call("coefficients:hsplit", v.call("coefficients:hstack", lst)), "hsplit of hstack"):
        parts = v.it.concrete_items(o)
        v.check("as many sets as stacked", len(parts) == n)
        for i, (p, s) in enumerate(zip(parts, sets)):
            same_set(v, "part %d" % i, p, union, lambda l, m, k: s.get(l, m, ZERO), 1)


@unit("coefficients.stack_split.any", "S04", "coefficients:hsplit coefficients:hstack " + ALL, cost=2)
def u_stack_split_any(v):
    """any number of single-component sets come back, padded with zeros to the union of their pairs"""
    n = v.int("n")
    v.it.samplers["n"] = lambda r: r.randint(1, 4)
    v.require(ge(n, ONE))
    s = v.family("s", n)
    any_ = lambda l, m: range_dom(n).binder("exists", lambda i: s.has(i[0], l, m))
    i = v.int("i")
    for o in v.each(lambda: v.call("coefficients:hsplit", v.call("coefficients:hstack", s.list)), "hsplit of hstack"):
        f = members(v, "hsplit of hstack", o, n)
        if f is not None:
            with v.given(ge(i, ZERO), lt(i, n)):
                same_set(v, "part i", f(i), any_, lambda l, m, k: s.get(i, l, m), 1)


for _n in (1, 2, 3):
    unit("coefficients.stack_split.%d" % _n, "S04", "coefficients:hsplit coefficients:hstack " + ALL, bounded="stacks of %d single-component sets" % _n)(
        lambda v, n=_n: _stack_split(v, n))


def _from_arrays(v, two_d):
    """arrays listing the pairs of an arbitrary finite set, in any order of a set of distinct pairs"""
    W = v.dim("W") if two_d else num(1)
    l_, m_ = var("kl$", "I"), var("km$", "I")
    L = v.int("L")
    v.it.samplers["L"] = lambda r: r.randint(1, 4)
    v.require(ge(L, ONE))
    dom = Dom((l_, m_), (ZERO, neg(l_)), (L, add(l_, ONE)), app("in", (l_, m_), "B"), "keys", "lex")
    v.require(dom.binder("exists", lambda q: TRUE))
    ax = Axis(dom)
    deg = v.arr_of([ax], lambda l, m: l, "int")
    orde = v.arr_of([ax], lambda l, m: m, "int")
    at = lambda l, m, k: Cx(app("c.re", (l, m, k), "R"), app("c.im", (l, m, k), "R"))
    if two_d:
        cf = v.arr_of([ax, v.axis(W)], lambda l, m, k: at(l, m, k), "complex")
    else:
        cf = v.arr_of([ax], lambda l, m: at(l, m, ZERO), "complex")
    for o in v.each(lambda: v.call("coefficients:from_arrays", deg, orde, cf), "from_arrays"):
        same_set(v, "from_arrays", o, lambda l, m: dom.pred((l, m)), at, W, default=lambda k: Cx(ZERO, ZERO))
        v.unchanged("from_arrays: arrays unchanged", props=["S04", "S26"])
        v.fresh_result(o, "from_arrays: result shares no storage", props=["S04", "S26"])


@unit("coefficients.from_arrays.1d", "S04 S26", "coefficients:from_arrays " + ALL)
def u_fa1(v):
    _from_arrays(v, False)


@unit("coefficients.from_arrays.2d", "S04 S26", "coefficients:from_arrays " + ALL)
def u_fa2(v):
    _from_arrays(v, True)


@unit("coefficients.from_arrays.small", "S04", "coefficients:from_arrays " + ALL, bounded="arrays of two rows with arbitrary contents")
def u_fa3(v):
    l1, m1, ok1 = key(v, "1")
    l2, m2, ok2 = key(v, "2")
    v.require(ok1, ok2)
    deg = v.call_np_array([l1, l2], "int")
    orde = v.call_np_array([m1, m2], "int")
    cf = v.array("c", [2, 3], "complex")
    rep = and_(eq(l1, l2), eq(m1, m2))
    for o in v.each(lambda: v.call("coefficients:from_arrays", deg, orde, cf), "from_arrays", {"IndexError": rep}):
        e = cf.elem()
        same_set(v, "two rows", o, lambda l, m: or_(and_(eq(l, l1), eq(m, m1)), and_(eq(l, l2), eq(m, m2))),
                 lambda l, m, k: v.it.site(and_(eq(l, l2), eq(m, m2)), e(((ONE,), (k,))), e(((ZERO,), (k,)))), 3)


@unit("coefficients.from_arrays.roundtrip", "S04", "coefficients:from_arrays coefficients:Coefficients.as_arrays " + ALL)
def u_fa4(v):
    W = v.dim("W")
    a = v.coeffs("a", W, nonempty=True)
    v.require(a.dom.binder("exists", lambda q: TRUE))

    def go():
        d, o, c = v.it.concrete_items(v.method(a.obj, "as_arrays", include_unset=False))
        return v.call("coefficients:from_arrays", d, o, c)
    for o in v.each(go, "from_arrays of as_arrays"):
        same_set(v, "round trip", o, a.has, a.at, W)
