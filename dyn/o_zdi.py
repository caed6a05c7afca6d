"""Oracles for the ZDI magnetogram: S12-S15, S21."""
from common import *
from starwinds_magnetogram import zdi_magnetogram as zm, geometry, coefficients as shc


def rand_zdi(rng, D, lmax=12, lmin=1, comps=None):
    keys = sorted(rand_keys(rng, D, lmax=lmax, lmin=lmin))
    if rng.random() < .3:
        rng.shuffle(keys)
        keys = [(int(a), int(b)) for a, b in keys]
    abg = rand_complex(rng, (len(keys), 3), mag=10.0 ** rng.uniform(-2, 3))
    abg = unusual(rng, abg)
    ls = np.array([q[0] for q in keys]); ms = np.array([q[1] for q in keys])
    how = rng.integers(0, 4)
    if how == 0:
        z = zm.ZdiMagnetogram(ls, ms, abg[:, 0].copy(), abg[:, 1].copy(), abg[:, 2].copy())
    elif how == 1:
        keys2 = sorted(keys); order = [keys.index(q) for q in keys2]
        keys, abg = keys2, abg[order]
        s = make_set(keys, abg, 3)
        z = zm.from_coefficients(s)
    elif how == 2:
        abg = abg.copy(); abg[:, 1:] = 0
        z = zm.ZdiMagnetogram(ls, ms, abg[:, 0].copy())
    else:
        keys, abg = keys[:1], abg[:1]
        z = zm.ZdiMagnetogram(keys[0][0], keys[0][1], abg[0, 0], abg[0, 1], abg[0, 2])
    return z, keys, abg


def term_scale(keys, abg, th):
    """at every point, the size of the terms of the series"""
    s = np.full(np.shape(th), 1e-300)
    for (l, m), v in zip(keys, abg):
        P, dP = plm(l, m, th)
        s = s + c_norm(l, m) * np.max(np.abs(v)) * (np.abs(P) * (1 + abs(m) / np.abs(np.sin(th))) + np.abs(dP))
    return s


@clause("S12", "field components", 3)
def s12_series(rng, k, D):
    z, keys, abg = rand_zdi(rng, D, lmax=20, lmin=0)
    th, ph = rand_points(rng, D)
    t0, p0 = th.copy(), ph.copy()
    w = zdi_ref(keys, abg, th, ph)
    sc = term_scale(keys, abg, th)
    pairs = [("radial poloidal", z.get_radial_poloidal_field, w["rp"]), ("radial toroidal", z.get_radial_toroidal_field, w["rt"]),
             ("azimuthal poloidal", z.get_azimuthal_poloidal_field, w["ap"]),
             ("azimuthal toroidal", z.get_azimuthal_toroidal_field_new, w["at"]),
             ("polar poloidal", z.get_polar_poloidal_field_new, w["pp"]),
             ("polar toroidal", z.get_polar_toroidal_field, w["pt"])]
    for name, f, want in pairs:
        require_close(f(th, ph), want, name + " field", tol=1e-8, scale=sc, keys=keys, th=th, ph=ph)
    for name, f, want in (("radial", z.get_radial_field, w["rp"] + w["rt"]), ("polar", z.get_polar_field, w["pp"] + w["pt"]),
                          ("azimuthal", z.get_azimuthal_field, w["ap"] + w["at"])):
        require_close(f(th, ph), want, "total %s field" % name, tol=1e-8, scale=sc, keys=keys)
    require(np.array_equal(t0, th) and np.array_equal(p0, ph), "evaluation modified the points")


@clause("S12", "radial with negative orders")
def s12_negative(rng, k, D):
    s, m = rand_set(rng, D, 1, lmax=8, neg=True)
    th, ph = rand_points(rng, D)
    z = zm.from_coefficients(s)
    keys = sorted(m)
    want = zdi_radial_ref(keys, [m[q][0] for q in keys], th, ph)
    require_close(z.get_radial_field(th, ph), want, "radial field with negative orders", tol=1e-9,
                  scale=sum(abs(v[0]) for v in m.values()) + 1e-300, keys=keys)


@clause("S12", "normalisation")
def s12_clm(rng, k, D):
    L = D.size(rng, 0, 30)
    ls, ms = np.array(all_pairs(L)).T
    want = np.array([c_norm(l, m) for l, m in zip(ls, ms)])
    for method in ("low_order", "other"):
        require(np.allclose(zm.get_c_lm(ls, ms, method=method), want, rtol=1e-9, atol=0), "normalisation (%s)" % method, L=L)


@clause("S13", "decomposition", 2)
def s13_parts(rng, k, D):
    z, keys, abg = rand_zdi(rng, D, lmax=12, lmin=0)
    th, ph = rand_points(rng, D)
    w = zdi_ref(keys, abg, th, ph)
    sc = term_scale(keys, abg, th)
    full = [z.get_radial_field(th, ph), z.get_polar_field(th, ph), z.get_azimuthal_field(th, ph)]
    parts = z.get_all()
    require(sorted(parts) == ["azimuthal", "polar", "radial"], "components listed", got=sorted(parts))
    for name, f, a, b in (("radial", full[0], "rp", "rt"), ("polar", full[1], "pp", "pt"), ("azimuthal", full[2], "ap", "at")):
        require(sorted(parts[name]) == ["poloidal", "toroidal"], "parts listed for " + name)
        pol, tor = parts[name]["poloidal"](th, ph), parts[name]["toroidal"](th, ph)
        require_close(pol, w[a], "poloidal part of " + name, tol=1e-8, scale=sc, keys=keys)
        require_close(tor, w[b], "toroidal part of " + name, tol=1e-8, scale=sc, keys=keys)
        require_close(pol + tor, f, "parts must add up to the %s field" % name, tol=1e-9, scale=sc)
    require_close(z.get_field_strength(th, ph), np.sqrt(sum(x ** 2 for x in full)), "field strength", tol=1e-9, scale=sc)
    er, et, ep = basis(th, ph)
    cart = lambda c: c[0][..., None] * er + c[1][..., None] * et + c[2][..., None] * ep
    require_close(z.get_cartesian_field(th, ph), cart(full), "Cartesian field", tol=1e-9, scale=sc, keys=keys)
    cp, ct = z.get_cartesian_poloidal_field(th, ph), z.get_cartesian_toroidal_field(th, ph)
    require_close(cp, cart([w["rp"], w["pp"], w["ap"]]), "Cartesian poloidal field", tol=1e-8, scale=sc, keys=keys)
    require_close(ct, cart([w["rt"], w["pt"], w["at"]]), "Cartesian toroidal field", tol=1e-8, scale=sc, keys=keys)
    require_close(cp + ct, z.get_cartesian_field(th, ph), "Cartesian parts must add up", tol=1e-9, scale=sc)


@clause("S13", "linearity")
def s13_linear(rng, k, D):
    keys = sorted(rand_keys(rng, D, lmax=8, lmin=1))
    a, b = rand_complex(rng, (len(keys), 3)), rand_complex(rng, (len(keys), 3))
    c = float(rng.uniform(-3, 3))
    th, ph = rand_points(rng, D)
    mk = lambda v: zm.from_coefficients(make_set(keys, v, 3))
    sc = term_scale(keys, np.abs(a) + 3 * np.abs(b), th)
    x, y, w = mk(a), mk(b), mk(a + c * b)
    for f in ("get_radial_field", "get_polar_field", "get_azimuthal_field"):
        require_close(getattr(w, f)(th, ph), getattr(x, f)(th, ph) + c * getattr(y, f)(th, ph), "linearity of " + f, tol=1e-8,
                      scale=sc)


# ------------------------------------------------------------------ S14
def rows(z):
    return [(int(l), int(m), complex(a), complex(b), complex(g)) for l, m, a, b, g in
            zip(z.degrees_l, z.orders_m, z.alpha, z.beta, z.gamma)]


@clause("S14", "selection among orders of both signs")
def s14_signs(rng, k, D):
    n = D.size(rng, 1, 14)
    keys = sorted({(int(l), int(rng.integers(-l, l + 1))) for l in rng.integers(0, 9, n)})
    abg = rand_complex(rng, (len(keys), 3))
    z = zm.ZdiMagnetogram(np.array([q[0] for q in keys]), np.array([q[1] for q in keys]), *[abg[:, c].copy() for c in range(3)])
    a, b = sorted(int(x) for x in rng.integers(-9, 10, 2))
    lo, hi = sorted(int(x) for x in rng.integers(0, 10, 2))
    kw = {"order_m_range": (a, b)}
    if rng.random() < .6:
        kw["degree_l_range"] = (lo, hi)
    else:
        lo, hi = 0, 1000
    want = [x for x in rows(z) if lo <= x[0] <= hi and a <= x[1] <= b]
    got = rows(z.as_restricted(**kw))
    require(got == want, "restriction keeps exactly the coefficients in range", kw=kw, got=got[:5], want=want[:5])


@clause("S14", "selection", 2)
def s14_select(rng, k, D):
    z, keys, abg = rand_zdi(rng, D, lmax=14, lmin=int(rng.integers(0, 2)))
    base = rows(z)
    want0 = [(l, m, *map(complex, v)) for (l, m), v in zip(keys, abg)]
    require(base == want0, "coefficients held by the magnetogram", got=base[:4], want=want0[:4])
    th, ph = rand_points(rng, D)
    sc = term_scale(keys, abg, th)
    kw = {}
    lo, hi, mo, mh = 0, 1000, 0, 1000
    t = rng.integers(0, 5)
    if t in (0, 1, 2):
        a, b = sorted(int(x) for x in rng.integers(0, 15, 2))
        if t == 2:
            lo = hi = a; kw["degree_l_range"] = a
        else:
            lo, hi = a, b; kw["degree_l_range"] = (a, b) if rng.random() < .5 else [a, b]
    if t in (1, 3):
        a, b = sorted(int(x) for x in rng.integers(0, 10, 2))
        if rng.random() < .4:
            mo = mh = a; kw["order_m_range"] = a
        else:
            mo, mh = a, b; kw["order_m_range"] = (a, b)
    if t == 4:
        r = z.as_dipole(); lo = hi = 1
    else:
        r = z.as_restricted(**kw)
    want = [x for x in base if lo <= x[0] <= hi and mo <= x[1] <= mh]
    require(rows(r) == want, "restriction keeps exactly the coefficients in range", kw=kw, got=rows(r)[:5], want=want[:5], t=int(t))
    if want:
        kk = [x[:2] for x in want]; vv = np.array([x[2:] for x in want])
        w = zdi_ref(kk, vv, th, ph)
        require_close(r.get_radial_field(th, ph), w["rp"], "radial field of the restriction", tol=1e-8, scale=sc)
        require_close(r.get_polar_field(th, ph), w["pp"] + w["pt"], "polar field of the restriction", tol=1e-8, scale=sc)
        require_close(r.get_azimuthal_field(th, ph), w["ap"] + w["at"], "azimuthal field of the restriction", tol=1e-8, scale=sc)
    p, q, c = z.as_poloidal(), z.as_toroidal(), z.copy()
    require(rows(c) == base, "copy")
    require(rows(p) == [(l, m, a, b, 0j) for l, m, a, b, g in base], "poloidal copy drops exactly the toroidal coefficients")
    require(rows(q) == [(l, m, 0j, 0j, g) for l, m, a, b, g in base], "toroidal copy keeps exactly the toroidal coefficients")
    for f in ("radial", "polar", "azimuthal"):
        x = getattr(z, "get_%s_field" % f)(th, ph)
        require_close(getattr(p, "get_%s_field" % f)(th, ph) + getattr(q, "get_%s_field" % f)(th, ph), x,
                      "poloidal and toroidal copies add up (%s)" % f, tol=1e-9, scale=sc)
    for o in (c, p, q, r):
        for name in ("alpha", "beta", "gamma"):
            arr = getattr(o, name)
            if arr.size:
                arr += 1
    require(rows(z) == base, "changing a copy changed the original")


# ------------------------------------------------------------------ S15
def energy_ref(keys, abg):
    E = np.zeros((len(keys), 3))
    for i, (l, m) in enumerate(keys):
        for c in range(3):
            z = abg[i, c]
            e = z.real ** 2 if m == 0 else 0.5 * abs(z) ** 2
            E[i, c] = e * (1 if c == 0 else l / (l + 1))
    return E


def frac(a, b):
    return a / b if b != 0 else float("nan")


@clause("S15", "energies and fractions", 3)
def s15_energy(rng, k, D):
    top = D.size(rng, 1, 18) if rng.random() < .8 else D.size(rng, 19, 80)
    z, keys, abg = rand_zdi(rng, D, lmax=top, lmin=int(rng.integers(0, 2)))
    E = energy_ref(keys, abg)
    base = rows(z)
    d = {}
    out = z.energy(dest=d)
    require(len(out) == 3, "three energy arrays")
    tot = np.sum(np.abs(abg) ** 2) + 1e-300
    for i, nm in enumerate(("radial", "poloidal tangential", "toroidal")):
        require_close(np.asarray(out[i]), E[:, i], "%s energies" % nm, tol=1e-12, scale=tot, keys=keys)
        require(np.all(np.real(out[i]) >= -1e-14 * tot), "negative energy")
        require(not np.iscomplexobj(out[i]), "energies must be real")
    require(rows(z) == base, "energy modified the magnetogram")
    ls = np.array([q[0] for q in keys]); ms = np.array([q[1] for q in keys])
    pol, tor = E[:, 0] + E[:, 1], E[:, 2]
    P, T = pol.sum(), tor.sum()
    want = {
        "magnetogram.total.energy.B2": P + T,
        "magnetogram.radial.energy.fraction": frac(E[:, 0].sum(), P + T),
        "magnetogram.poloidal.energy.fraction": frac(P, P + T),
        "magnetogram.toroidal.energy.fraction": frac(T, P + T),
        "magnetogram.total.energy.dipole.fraction": frac(pol[ls == 1].sum(), P),
        "magnetogram.total.energy.quadrupole.fraction": frac(pol[ls == 2].sum(), P),
        "magnetogram.total.energy.octopole.fraction": frac(pol[ls == 3].sum(), P),
        "magnetogram.total.energy.toroidal.l1.fraction": frac(tor[ls == 1].sum(), T),
        "magnetogram.total.energy.toroidal.l2.fraction": frac(tor[ls == 2].sum(), T),
        "magnetogram.total.energy.toroidal.l3.fraction": frac(tor[ls == 3].sum(), T),
        "magnetogram.total.energy.axisymmetric.fraction": frac((pol + tor)[ms == 0].sum(), P + T),
        "magnetogram.total.energy.radial.axisymmetric.fraction": frac(E[ms == 0, 0].sum(), P),
        "magnetogram.total.energy.poloidal.axisymmetric.fraction": frac(pol[ms == 0].sum(), P),
        "magnetogram.total.energy.toroidal.axisymmetric.fraction": frac(tor[ms == 0].sum(), T),
        "magnetogram.total.energy.dipole.axisymmetric.fraction": frac(pol[(ls == 1) & (ms == 0)].sum(), pol[ls == 1].sum()),
    }
    for l in range(1, 16):
        want["magnetogram.pol.energy.l%d.fraction" % l] = frac(pol[ls == l].sum(), P)
        want["magnetogram.tor.energy.l%d.fraction" % l] = frac(tor[ls == l].sum(), T)
    for key, v in want.items():
        require(key in d, "missing entry " + key, have=sorted(d)[:5])
        g = d[key]
        if math.isnan(v):
            continue
        if key.endswith("fraction") and min(P, T if "tor" in key else P) < 1e-9 * tot:
            continue        # numerically empty denominator
        if "dipole.axi" in key and pol[ls == 1].sum() < 1e-9 * tot:
            continue
        require(abs(g - v) <= 1e-6 * max(1, abs(v)) if not key.endswith("B2") else abs(g - v) <= 1e-11 * tot, "entry " + key,
                got=g, want=v, keys=keys)
    # printing variants must not fail nor differ
    o2 = z.energy(show_fractions=bool(rng.random() < .5))
    for a, b in zip(out, o2):
        require(np.array_equal(a, b), "printing changed the result")


@clause("S15", "energy matrix", 2)
def s15_matrix(rng, k, D):
    neg = rng.random() < .4
    keys = sorted(rand_keys(rng, D, lmax=10 if rng.random() < .8 else 60, lmin=0, neg=neg))
    abg = rand_complex(rng, (len(keys), 3))
    z = zm.from_coefficients(make_set(keys, abg, 3))
    E = energy_ref(keys, abg)
    L = max(q[0] for q in keys)
    mats = z.energy_matrix()
    want = np.zeros((3, L + 1, 2 * L + 1))
    for (l, m), e in zip(keys, E):
        want[0, l, L + m] = e[0]; want[1, l, L + m] = e[0] + e[1]; want[2, l, L + m] = e[2]
    for i, nm in enumerate(("radial", "poloidal", "toroidal")):
        require_close(np.asarray(mats[i]), want[i], nm + " energy matrix", tol=1e-12, scale=np.sum(np.abs(abg) ** 2) + 1e-300, keys=keys)
    require(z.degree() == L, "degree of the magnetogram", got=z.degree(), want=L)


@clause("S15", "surface integral")
def s15_parseval(rng, k, D):
    z, keys, abg = rand_zdi(rng, D, lmax=6, lmin=1)
    x, w = np.polynomial.legendre.leggauss(10)
    nph = 16
    th, ph = np.meshgrid(np.arccos(x), np.arange(nph) * 2 * np.pi / nph)
    W = np.tile(w, (nph, 1)) * 2 * np.pi / nph
    E = z.energy(dest={})
    etot = sum(np.sum(e) for e in E)
    tot = np.sum(np.abs(abg) ** 2) + 1e-300
    I = np.sum(W * z.get_field_strength(th, ph) ** 2)
    require(abs(I - etot) <= 1e-8 * tot, "total energy equals the surface integral of the squared field", got=etot, want=I, keys=keys)
    I = np.sum(W * z.get_radial_field(th, ph) ** 2)
    require(abs(I - np.sum(E[0])) <= 1e-8 * tot, "radial energy equals its surface integral", got=np.sum(E[0]), want=I, keys=keys)


# ------------------------------------------------------------------ S21
@clause("S21", "field description")
def s21_description(rng, k, D):
    z, keys, abg = rand_zdi(rng, D, lmax=5, lmin=1)
    t = rng.integers(0, 3)
    if t == 0:
        zg = geometry.ZdiGeometry(int(rng.integers(4, 14)))
    elif t == 1:
        zg = geometry.ZdiGeometry(int(rng.integers(4, 14)), int(rng.integers(4, 14)))
    else:
        pc = np.r_[0, np.sort(rng.uniform(.1, 3, 6)), np.pi]; ac = np.r_[0, np.sort(rng.uniform(.1, 6, 8)), 2 * np.pi]
        zg = geometry.ZdiGeometry(pc, ac)
    th, ph = zg.centers()
    A = zg.areas()
    t = rng.random()
    if t < .4:
        d = {}
        r = geometry.numerical_description(zg, z, d)
    elif t < .6:
        d = r = geometry.numerical_description(zg, z)
        geometry.numerical_description(zg, zm.ZdiMagnetogram(z.degrees_l, z.orders_m, z.alpha * 3, z.beta * 3, z.gamma * 3))
    else:
        d = r = geometry.numerical_description(zg, z)
    w = zdi_ref(keys, abg, th, ph)
    fields = {"radial-poloidal": w["rp"], "radial-toroidal": w["rt"], "polar-poloidal": w["pp"], "polar-toroidal": w["pt"],
              "azimuthal-poloidal": w["ap"], "azimuthal-toroidal": w["at"], "radial": w["rp"] + w["rt"],
              "polar": w["pp"] + w["pt"], "azimuthal": w["ap"] + w["at"]}
    fields["field strength"] = np.sqrt(fields["radial"] ** 2 + fields["polar"] ** 2 + fields["azimuthal"] ** 2)
    sc = np.max(term_scale(keys, abg, th))
    for nm, f in fields.items():
        mean = np.sum(np.abs(f) * A) / (4 * np.pi)
        rms = np.sqrt(np.sum(f ** 2 * A) / (4 * np.pi))
        std = np.sqrt(max(0, np.sum((np.abs(f) - mean) ** 2 * A) / (4 * np.pi)))
        for stat, v, tol in (("max", np.max(np.abs(f)), 1e-8), ("mean", mean, 1e-8), ("rms", rms, 1e-8), ("std", std, 1e-6)):
            g = d.get("magnetogram.%s.abs.%s" % (nm, stat))
            require(g is not None, "missing statistic %s of %s" % (stat, nm))
            require(abs(g - v) <= tol * sc, "%s of %s" % (stat, nm), got=g, want=v, keys=keys)


@clause("S12", "normalisation at high degrees", .2)
def s12_norm(rng, k, D):
    n = int(rng.integers(1, 6))
    l = rng.integers(0, 85, n); m = np.array([int(rng.integers(0, x + 1)) for x in l])
    from scipy.special import gammaln
    want = np.sqrt((2 * l + 1) / (4 * np.pi)) * np.exp(.5 * (gammaln(l - m + 1) - gammaln(l + m + 1)))
    require(np.allclose(zm.get_c_lm(l, m) / want, 1, rtol=1e-9, atol=0), "normalisation of the harmonics", l=l, m=m)
