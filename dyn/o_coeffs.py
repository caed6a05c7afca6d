"""Oracles for the coefficient container: S01-S04."""
from common import *
from starwinds_magnetogram import coefficients as shc


# ------------------------------------------------------------------ S01
class Model:
    def __init__(self, default):
        self.d = {}
        self.default = np.array(default)


def observe(s, model, rng, where):
    L = max([k[0] for k in model.d] + [0])
    m0 = min([k[1] for k in model.d] + [0])
    require(s.size == len(model.d), "size must count the stored pairs", where=where, got=s.size, want=len(model.d))
    require(s.degree_max == L, "highest stored degree", where=where, got=s.degree_max, want=L)
    require(s.order_min == m0, "lowest stored order", where=where, got=s.order_min, want=m0)
    require(np.array_equal(s.default_coefficients, model.default), "default coefficients changed", where=where,
            got=s.default_coefficients, want=model.default)
    probes = list(model.d) + [(L + 1, 0), (L + 2, -1), (L, L), (0, 0), (1, -1), (1, 0)]
    for l, m in probes:
        if abs(m) > l:
            continue
        require(bool(s.has(l, m)) == ((l, m) in model.d), "presence of %s" % ((l, m),), where=where)
        want = model.d.get((l, m), model.default)
        got = s.get(l, m)
        require(np.shape(got) == want.shape and np.array_equal(got, want), "value at %s" % ((l, m),),
                where=where, got=got, want=want)


@clause("S01", "map history")
def s01_history(rng, k, D):
    width = int(rng.integers(1, 4))
    default = np.zeros(width, complex) if rng.random() < .7 else rand_complex(rng, width)
    s = shc.Coefficients(default)
    model = Model(default)
    observe(s, model, rng, "new set")
    trace = []
    lmax = D.size(rng, 0, 20)
    for step in range(int(rng.integers(1, 25))):
        l = int(rng.integers(0, lmax + 1))
        m = int(rng.integers(-l, l + 1)) if rng.random() < .6 else int(rng.integers(0, l + 1))
        if model.d and rng.random() < .35:
            l, m = list(model.d)[int(rng.integers(len(model.d)))]
        v = rand_complex(rng, width)
        if rng.random() < .2:
            v = np.real(v).copy()
        if rng.random() < .1:
            v = v * 0
        arg = v
        if width == 1 and rng.random() < .3:
            arg = v[0]
        li, mi = (np.int64(l), np.int64(m)) if rng.random() < .3 else (l, m)
        op = rng.random()
        before = snapshot(s)
        if op < .5:
            trace.append(("append", l, m))
            try:
                s.append(li, mi, arg)
                done = True
            except IndexError:
                done = False
            require(done == ((l, m) not in model.d), "append must be refused exactly for pairs already stored",
                    trace=trace)
            if done:
                model.d[l, m] = np.array(v, complex)
            else:
                require(same_snapshot(before, snapshot(s)), "refused append changed the set", trace=trace)
        elif op < .8:
            trace.append(("set", l, m))
            s.set(li, mi, arg)
            model.d[l, m] = np.array(v, complex)
        elif op < .9:
            bad = (l, l + 1 + int(rng.integers(0, 3))) if rng.random() < .5 else (l, -l - 1 - int(rng.integers(0, 3)))
            trace.append(("bad order",) + bad)
            fn = s.append if rng.random() < .5 else s.set
            try:
                fn(bad[0], bad[1], arg)
                ok = False
            except Exception:
                ok = True
            require(ok, "an order outside -l..l must be refused", trace=trace)
            require(same_snapshot(before, snapshot(s)), "refused write changed the set", trace=trace)
        else:
            shape = width + int(rng.integers(1, 3)) if width == 1 or rng.random() < .5 else width - 1
            trace.append(("bad shape", l, m, shape))
            fn = s.append if (l, m) not in model.d and rng.random() < .5 else s.set
            try:
                fn(l, m, rand_complex(rng, shape))
                ok = False
            except Exception:
                ok = True
            require(ok, "a value of another shape must be refused", trace=trace)
            require(same_snapshot(before, snapshot(s)), "refused write changed the set", trace=trace)
        # the stored value is the set's own
        if isinstance(arg, np.ndarray):
            arg[...] = -7.25
        observe(s, model, rng, trace)
    # the default handed out is a copy
    d = s.default_coefficients
    d += 1
    observe(s, model, rng, trace + ["default_coefficients += 1"])
    # get / has are indifferent to history
    t = shc.Coefficients(default)
    for (l, m), v in sorted(model.d.items(), reverse=True):
        t.set(l, m, v)
    require(same_snapshot(snapshot(s), snapshot(t)), "same contents built in another order differ", trace=trace)


@clause("S01", "large set", .3)
def s01_large(rng, k, D):
    s, model = big_set(rng, D, int(rng.integers(1, 3)), hi=8000)
    mod = Model(s.default_coefficients)
    mod.d = dict(model)
    observe(s, mod, rng, "large set")
    for _ in range(3):
        key = list(model)[int(rng.integers(len(model)))]
        try:
            s.append(*key, model[key])
            ok = False
        except IndexError:
            ok = True
        require(ok, "append must be refused exactly for pairs already stored", key=key)
        v = rand_complex(rng, model[key].shape)
        s.set(*key, v)
        mod.d[key] = np.array(v)
    observe(s, mod, rng, "large set after changes")


# ------------------------------------------------------------------ S02
@clause("S02", "large set", .3)
def s02_large(rng, k, D):
    s, model = big_set(rng, D, int(rng.integers(1, 3)), hi=8000)
    got = [(int(l), int(m)) for (l, m), _ in s.contents()]
    require(got == sorted(model), "contents must list each stored pair once in increasing order", n=len(model), got=len(got))
    ls, ms, cs = s.as_arrays(include_unset=False)
    want = sorted(model)
    require(list(zip([int(x) for x in ls], [int(x) for x in ms])) == want, "export must list exactly the stored pairs in increasing order",
            n=len(model))
    require(np.array_equal(cs, np.array([model[q] for q in want])), "exported values", n=len(model))


@clause("S02", "ordered listing")
def s02_contents(rng, k, D):
    width = int(rng.integers(1, 4))
    s, model = rand_set(rng, D, width, lmax=20, neg=rng.random() < .6, nonempty=False)
    got = [(key, np.array(v)) for key, v in s.contents()]
    require([k for k, _ in got] == sorted(model), "contents must list each stored pair once in increasing order",
            got=[k for k, _ in got], want=sorted(model))
    for key, v in got:
        require(np.array_equal(v, model[key]), "contents value", key=key)
    again = [key for key, _ in s.contents()]
    require(again == sorted(model), "second listing differs")


@clause("S02", "array export", 2)
def s02_arrays(rng, k, D):
    width = int(rng.integers(1, 4))
    s, model = rand_set(rng, D, width, lmax=12, neg=rng.random() < .6)
    if rng.random() < .3:   # non-zero defaults
        dflt = rand_complex(rng, width)
        t = shc.Coefficients(dflt)
        for key, v in model.items():
            t.append(*key, v)
        s = t
    else:
        dflt = np.zeros(width, complex)
    L = s.degree_max
    unset = bool(rng.random() < .5)
    kw = {}
    lmin, lmax = 0, L
    if rng.random() < .4:
        lmin = kw["degree_l_min"] = int(rng.integers(0, L + 1))
    if rng.random() < .5:
        lmax = kw["degree_l_max"] = int(rng.integers(lmin, L + 4))
    mmin, mmax = -lmax, lmax
    if rng.random() < .5:
        mmin = kw["order_m_min"] = int(rng.integers(-lmax - 1, 1))
    if rng.random() < .4:
        mmax = kw["order_m_max"] = int(rng.integers(0, lmax + 2))
    want = [(l, m) for l in range(lmin, lmax + 1) for m in range(-l, l + 1) if mmin <= m <= mmax]
    if not want:
        return
    if not unset:
        want = [k for k in want if k in model]
    before = snapshot(s)
    try:
        out = s.as_arrays(include_unset=unset, **kw)
    except Exception as e:
        raise Violation("export raised %r" % e, kw=kw, keys=sorted(model))
    ls, ms, cs = out
    got = list(zip([int(x) for x in ls], [int(x) for x in ms]))
    require(got == want, "export must list exactly the requested pairs in increasing order", got=got, want=want, kw=kw,
            include_unset=unset, keys=sorted(model))
    if want:
        wantv = np.array([model.get(k, dflt) for k in want])
        require(np.shape(cs) == wantv.shape and np.array_equal(cs, wantv), "exported values", kw=kw, include_unset=unset)
    require(same_snapshot(before, snapshot(s)), "export changed the set")
    if want:
        np.asarray(cs)[...] = 99
        require(same_snapshot(before, snapshot(s)), "exported arrays alias the set")


# ------------------------------------------------------------------ S03
def pair_of_sets(rng, D, width=None):
    width = width or int(rng.integers(1, 4))
    a, ma = rand_set(rng, D, width, lmax=10, neg=rng.random() < .5, nonempty=False)
    if rng.random() < .3:
        keys = list(ma)
        b = make_set(keys, rand_complex(rng, (len(keys), width)), width)
        mb = dump(b)
    else:
        b, mb = rand_set(rng, D, width, lmax=10, neg=rng.random() < .5, nonempty=False)
    return width, a, ma, b, mb


def zero(w):
    return np.zeros(w, complex)


@clause("S03", "binary operations", 2)
def s03_binary(rng, k, D):
    w, a, ma, b, mb = pair_of_sets(rng, D)
    sa, sb = snapshot(a), snapshot(b)
    union = set(ma) | set(mb)
    g = lambda m, key: m.get(key, zero(w))
    require_map(a + b, {q: g(ma, q) + g(mb, q) for q in union}, "sum")
    require_map(shc.add(a, b), {q: g(ma, q) + g(mb, q) for q in union}, "sum")
    require_map(a - b, {q: g(ma, q) - g(mb, q) for q in union}, "difference")
    require_map(a * b, {q: g(ma, q) * g(mb, q) for q in union}, "product of sets", tol=1e-13)
    require_map(a + a, {q: 2 * ma[q] for q in ma}, "sum with itself", tol=1e-13)
    require(same_snapshot(sa, snapshot(a)) and same_snapshot(sb, snapshot(b)), "an operand was modified")
    # results are independent of operands
    for r in (a + b, a * b, a - b):
        for key in list(dump(r)):
            r.set(*key, np.full(w, 5.))
            r.get(*key)[...] += 1
    require(same_snapshot(sa, snapshot(a)) and same_snapshot(sb, snapshot(b)), "a result shares storage with an operand")
    for r in (a + b, a * b, a - b):
        want = {q: None for q in union}
        require(r.size == len(union) and r.degree_max == max([q[0] for q in union] + [0])
                and r.order_min == min([q[1] for q in union] + [0]), "bookkeeping of the result",
                got=(r.size, r.degree_max, r.order_min))


@clause("S03", "scalar operations", 2)
def s03_scalar(rng, k, D):
    w = int(rng.integers(1, 4))
    a, ma = rand_set(rng, D, w, lmax=10, neg=rng.random() < .5, nonempty=False)
    sa = snapshot(a)
    c = [2, -1, 3.5, 1j, -0.25 + 2j, np.float64(1.5), np.complex128(1 + 1j), 1, 0][int(rng.integers(9))]
    results = []
    r = a * c; results.append(r)
    require_map(r, {q: ma[q] * c for q in ma}, "multiplication by %r" % (c,), tol=1e-13)
    if not isinstance(c, np.generic):   # numpy scalars broadcast over objects instead of calling __rmul__
        r = c * a; results.append(r)
        require_map(r, {q: ma[q] * c for q in ma}, "left multiplication by %r" % (c,), tol=1e-13)
    if c != 0:
        r = a / c; results.append(r)
        require_map(r, {q: ma[q] / c for q in ma}, "division by %r" % (c,), tol=1e-13)
    p = [1, 2, 3, 2.0][int(rng.integers(4))]
    r = a ** p; results.append(r)
    require_map(r, {q: ma[q] ** p for q in ma}, "power %r" % p, tol=1e-12)
    r = a.copy(); results.append(r)
    require_map(r, ma, "copy")
    r = shc.zeros_like(a); results.append(r)
    require_map(r, {q: zero(w) for q in ma}, "zeros_like")
    r = shc.empty_like(a); results.append(r)
    require_map(r, {}, "empty_like")
    require(np.shape(r.default_coefficients) == (w,), "empty_like default shape")
    L = int(rng.integers(0, max(2, a.degree_max + 2)))
    r = a.truncated(L); results.append(r)
    require_map(r, {q: ma[q] for q in ma if q[0] <= L}, "truncated to degree %d" % L)
    require(r.degree_max == max([q[0] for q in ma if q[0] <= L] + [0]), "highest degree after truncation")
    fns = [lambda l, m: 1.0 + l + 0.5 * m, lambda l, m: (l + 1) / (abs(m) + 2.0), lambda l, m: 2.0 ** (l % 3) * (-1) ** m,
           lambda l, m: np.sqrt(2 * l + 1.0)]
    f = fns[int(rng.integers(len(fns)))]
    pw = [1, -1, 2, 0.5][int(rng.integers(4))]
    if pw != 1 or True:
        ok = all(f(*q) > 0 or float(pw).is_integer() for q in ma) and all(f(*q) != 0 for q in ma)
        if ok:
            r = a.scale(f, pw); results.append(r)
            require_map(r, {q: ma[q] * f(*q) ** pw for q in ma}, "scale with power %r" % pw, tol=1e-13)
            r2 = shc.scale(a, f, pw)
            require_map(r2, {q: ma[q] * f(*q) ** pw for q in ma}, "scale with power %r" % pw, tol=1e-13)
    require(same_snapshot(sa, snapshot(a)), "an operand was modified")
    for r in results:
        for key in list(dump(r)):
            r.get(*key)[...] += 1
            r.set(*key, np.full(w, 5.))
    require(same_snapshot(sa, snapshot(a)), "a result shares storage with the operand")


@clause("S03", "large sets", .7)
def s03_large(rng, k, D):
    w = int(rng.integers(1, 3))
    a, ma = big_set(rng, D, w, hi=6000)
    if rng.random() < .5:
        b, mb = big_set(rng, D, w, hi=6000)
    else:
        b, mb = rand_set(rng, D, w, lmax=10)
    union = set(ma) | set(mb)
    g = lambda m, key: m.get(key, zero(w))
    which = int(rng.integers(6))
    if which == 0:
        require_map(a + b, {q: g(ma, q) + g(mb, q) for q in union}, "sum")
    elif which == 1:
        require_map(b - a, {q: g(mb, q) - g(ma, q) for q in union}, "difference")
    elif which == 2:
        require_map(a * b, {q: g(ma, q) * g(mb, q) for q in union}, "product of sets", tol=1e-13)
    elif which == 3:
        require_map(a * 2.5, {q: ma[q] * 2.5 for q in ma}, "multiplication by 2.5", tol=1e-13)
        require_map(a.copy(), ma, "copy")
        L = int(rng.integers(0, a.degree_max + 1))
        require_map(a.truncated(L), {q: ma[q] for q in ma if q[0] <= L}, "truncated to degree %d" % L)
    elif which == 4:
        f = lambda l, m: 1.0 + l + 0.5 * m
        require_map(a.scale(f), {q: ma[q] * f(*q) for q in ma}, "scale", tol=1e-13)
        require_map(a ** 2, {q: ma[q] ** 2 for q in ma}, "power 2", tol=1e-12)
    else:
        c = a.copy()
        q = list(ma)[int(rng.integers(len(ma)))]
        v = np.array(ma[q]); j = int(rng.integers(w)); v[j] += 1 + abs(v[j])
        c.set(*q, v)
        require(bool(shc.allclose(a, a.copy())), "a set must be close to its copy")
        require(not bool(shc.allclose(a, c)), "sets differing at %s component %d reported close" % (q, j))
    require_map(a, ma, "an operand was modified")


@clause("S03", "comparison")
def s03_compare(rng, k, D):
    w, a, ma, b, mb = pair_of_sets(rng, D)
    if not ma or not mb:
        return
    require(bool(shc.allclose(a, a.copy())), "a set must be close to its copy")
    union = sorted(set(ma) | set(mb))
    g = lambda m, key: m.get(key, zero(w))
    want = all(np.all(np.isclose(g(ma, q), g(mb, q))) for q in union)
    require(bool(shc.allclose(a, b)) == bool(want), "closeness of two sets", want=want)
    ic = shc.isclose(a, b)
    require(sorted(dump(ic)) == union, "isclose must compare the union of pairs")
    for q in union:
        require(np.array_equal(ic.get(*q), np.isclose(g(ma, q), g(mb, q))), "isclose at %s" % (q,))
    # one entry changed, one component only
    q = union[int(rng.integers(len(union)))]
    if q in ma:
        c = a.copy()
        v = np.array(ma[q]); j = int(rng.integers(w)); v[j] += 1 + abs(v[j])
        c.set(*q, v)
        require(not bool(shc.allclose(a, c)), "sets differing at %s component %d reported close" % (q, j))
        require(not bool(shc.allclose(c, a)), "sets differing at %s component %d reported close" % (q, j))
    d = a.copy()
    L = a.degree_max + 1
    d.append(L, 0, np.ones(w))
    require(not bool(shc.allclose(a, d)) and not bool(shc.allclose(d, a)), "extra non-zero entry reported close")
    if w < 3:
        e, _ = rand_set(rng, D, w + 1)
        require(not bool(shc.allclose(a, e)), "sets of different widths reported close")


# ------------------------------------------------------------------ S04
@clause("S04", "stack and split")
def s04_stack(rng, k, D):
    n = int(rng.integers(1, 5))
    ws = [int(rng.integers(1, 3)) for _ in range(n)] if rng.random() < .3 else [1] * n
    sets, models = [], []
    for w in ws:
        s, m = rand_set(rng, D, w, lmax=8, neg=rng.random() < .5, nonempty=False)
        sets.append(s); models.append(m)
    snaps = [snapshot(s) for s in sets]
    st = shc.hstack(sets if rng.random() < .5 else tuple(sets))
    union = set().union(*[set(m) for m in models])
    require_map(st, {q: np.concatenate([m.get(q, zero(w)) for m, w in zip(models, ws)]) for q in union}, "stack")
    require(np.shape(st.default_coefficients) == (sum(ws),), "width of the stack")
    require(all(same_snapshot(a, snapshot(s)) for a, s in zip(snaps, sets)), "an input of the stack was modified")
    snap = snapshot(st)
    if all(w == 1 for w in ws):
        parts = shc.hsplit(st)
        require(len(parts) == n, "number of parts")
        for i in range(n):
            require_map(parts[i], {q: models[i].get(q, zero(1)) for q in union}, "part %d of the split stack" % i)
        require(len(st.hsplit()) == n, "split as method")
        if n > 1:
            divs = [d for d in range(1, n + 1) if n % d == 0]
            dv = int(rng.choice(divs))
            parts = shc.hsplit(st, dv)
            require(len(parts) == dv, "number of sections")
            for i, p in enumerate(parts):
                wd = n // dv
                require_map(p, {q: np.concatenate([models[j].get(q, zero(1)) for j in range(i * wd, (i + 1) * wd)])
                                for q in union}, "section %d" % i)
        back = shc.hstack(parts)
        require_map(back, dump(st), "stack of the split")
        for p in parts:
            for key in list(dump(p)):
                p.set(*key, np.full(np.shape(p.default_coefficients), 3.))
    require(same_snapshot(snap, snapshot(st)), "splitting modified the set")


@clause("S04", "large sets", .7)
def s04_large(rng, k, D):
    a, ma = big_set(rng, D, 1, hi=6000)
    b, mb = big_set(rng, D, 1, hi=6000) if rng.random() < .4 else rand_set(rng, D, 1, lmax=8)
    union = set(ma) | set(mb)
    st = shc.hstack([a, b])
    require_map(st, {q: np.concatenate([ma.get(q, zero(1)), mb.get(q, zero(1))]) for q in union}, "stack")
    parts = shc.hsplit(st)
    require_map(parts[0], {q: ma.get(q, zero(1)) for q in union}, "part 0 of the split stack")
    keys = list(ma)
    s = shc.from_arrays([q[0] for q in keys], [q[1] for q in keys], np.array([ma[q] for q in keys]))
    require_map(s, ma, "import from arrays")


@clause("S04", "arrays import export")
def s04_arrays(rng, k, D):
    w = int(rng.integers(1, 4))
    keys = rand_keys(rng, D, lmax=12, neg=rng.random() < .5)
    vals = rand_complex(rng, (len(keys), w))
    ls = [q[0] for q in keys]
    ms = [q[1] for q in keys]
    if rng.random() < .5:
        ls, ms = np.array(ls), np.array(ms)
    v = vals
    if w == 1 and rng.random() < .5:
        v = vals[:, 0]
    vcopy = v.copy()
    s = shc.from_arrays(ls, ms, v)
    require_map(s, {q: x for q, x in zip(keys, vals)}, "import from arrays")
    require(np.array_equal(s.default_coefficients, zero(w)), "unset entries of an imported set are zero",
            got=s.default_coefficients)
    l2, m2, v2 = s.as_arrays(include_unset=False)
    t = shc.from_arrays(l2, m2, v2)
    require_map(t, dump(s), "import of an export")
    v[...] = 0
    require_map(s, {q: x for q, x in zip(keys, vcopy.reshape(len(keys), w))}, "set after the imported array changed")
    dup = list(ls) + [ls[0]]
    try:
        shc.from_arrays(dup, list(ms) + [ms[0]], np.concatenate([vcopy, vcopy[:1]]))
        ok = False
    except IndexError:
        ok = True
    require(ok, "a repeated pair in the arrays must be refused")
    # scalar forms
    s1 = shc.from_arrays(3, 1, 2 - 1j)
    require_map(s1, {(3, 1): np.array([2 - 1j])}, "import of a single coefficient")
