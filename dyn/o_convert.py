"""Oracles for conversions, folding, rotation and projection: S08-S11, S23, S24."""
from common import *
from starwinds_magnetogram import coefficients as shc
from starwinds_magnetogram import converter, pfss_magnetogram, zdi_magnetogram
from o_io import fwd, R1

S4PI = math.sqrt(4 * math.pi)


def eval_pfss(s, th, ph, r=1.0, **kw):
    return pfss_magnetogram.evaluate_spherical(s, np.full(th.shape, float(r)), th, ph, **kw)


@clause("S08", "coefficients")
def s08_coeffs(rng, k, D):
    s, m = rand_set(rng, D, 1, lmax=30, nonempty=False)
    snap = snapshot(s)
    out = converter.convert_zdi_to_pfss(s)
    require_map(out, {q: m[q] * fwd(*q) for q in m}, "PFSS coefficients", tol=1e-12)
    require(same_snapshot(snap, snapshot(s)), "the conversion modified its input")


@clause("S08", "radial field", 2)
def s08_field(rng, k, D):
    s, m = rand_set(rng, D, 1, lmax=12)
    th, ph = rand_points(rng, D)
    out = converter.convert_zdi_to_pfss(s)
    br = eval_pfss(out, th, ph)[0]
    keys = sorted(m)
    want = zdi_radial_ref(keys, [m[q][0] for q in keys], th, -ph)
    require_close(br, want, "radial surface field of the converted set", tol=1e-9, keys=keys,
                  scale=max(np.max(np.abs(want)), max(abs(m[q][0]) for q in keys)))
    z = zdi_magnetogram.from_coefficients(s)
    require_close(br, z.get_radial_field(th, -ph), "PFSS and ZDI radial fields agree", tol=1e-9, keys=keys,
                  scale=max(np.max(np.abs(want)), max(abs(m[q][0]) for q in keys)))


@clause("S09", "inverse")
def s09_inverse(rng, k, D):
    s, m = rand_set(rng, D, 1, lmax=25, nonempty=False)
    snap = snapshot(s)
    z = converter.convert_pfss_to_zdi(s)
    want = {(l, mm): np.array([v[0] / fwd(l, mm), v[0] / fwd(l, mm) * R1(l) * (l + 1), 0]) for (l, mm), v in m.items()}
    got = dump(z)
    require(sorted(got) == sorted(want), "pairs of the ZDI set", got=sorted(got), want=sorted(want))
    for q in want:
        for c in range(3):
            require(abs(got[q][c] - want[q][c]) <= 1e-11 * abs(want[q][c]), "ZDI coefficient %d at %s" % (c, q), got=got[q],
                    want=want[q])
    back = converter.convert_zdi_to_pfss(shc.hsplit(z)[0])
    for q in m:
        require(abs(back.get(*q)[0] - m[q][0]) <= 1e-11 * abs(m[q][0]), "PFSS->ZDI->PFSS at %s" % (q,), got=back.get(*q),
                want=m[q])
    require(back.size == len(m), "pairs after the round trip")
    a = converter.convert_zdi_to_pfss(s)
    b = shc.hsplit(converter.convert_pfss_to_zdi(a))[0]
    require_map(b, m, "ZDI->PFSS->ZDI", tol=1e-12)
    require(same_snapshot(snap, snapshot(s)), "the conversion modified its input")


@clause("S09", "all field components", 2)
def s09_field(rng, k, D):
    s, m = rand_set(rng, D, 1, lmax=10, lmin=1)
    th, ph = rand_points(rng, D)
    z = zdi_magnetogram.from_coefficients(converter.convert_pfss_to_zdi(s))
    fr, ft, fp = eval_pfss(s, th, ph)
    sc = max(np.max(np.abs(np.stack([fr, ft, fp]))), max(abs(m[q][0]) for q in m)) * 20
    require_close(z.get_radial_field(th, -ph), fr, "radial component", tol=1e-10, scale=sc, keys=sorted(m))
    require_close(z.get_polar_field(th, -ph), ft, "polar component", tol=1e-10, scale=sc, keys=sorted(m))
    require_close(-z.get_azimuthal_field(th, -ph), fp, "azimuthal component", tol=1e-10, scale=sc, keys=sorted(m))


@clause("S10", "fold", 2)
def s10_fold(rng, k, D):
    s, m = rand_set(rng, D, 1, lmax=9, neg=True)
    if rng.random() < .25:   # special values: cancelling pairs, opposite phases
        keys, vals = [], []
        for (l, mm), v in list(m.items()):
            keys.append((l, mm)); vals.append(v)
            if mm and (l, -mm) not in m:
                keys.append((l, -mm)); vals.append(np.conj(v) * (-1) ** (mm + 1) * (1 if rng.random() < .5 else 2))
        s = make_set(keys, vals); m = {q: np.atleast_1d(v) for q, v in zip(keys, vals)}
    snap = snapshot(s)
    out = converter.map_to_positive_orders(s)
    require(same_snapshot(snap, snapshot(s)), "folding modified its input")
    L = max(q[0] for q in m)
    want = {}
    g = lambda l, mm: complex(m.get((l, mm), [0])[0])
    for l, mm in all_pairs(L):
        want[l, mm] = g(l, 0) if mm == 0 else g(l, mm) + (-1) ** mm * np.conj(g(l, -mm))
    got = dump(out)
    require(all(q[1] >= 0 for q in got), "negative orders remain", got=sorted(got))
    sc = max(abs(v[0]) for v in m.values()) + 1e-300
    for q in set(want) | set(got):
        a = got.get(q, np.zeros(1, complex))[0]
        require(abs(a - want.get(q, 0)) <= 1e-12 * sc, "folded coefficient at %s" % (q,), got=a, want=want.get(q, 0),
                pos=m.get(q), neg=m.get((q[0], -q[1])))
    th, ph = rand_points(rng, D)
    keys = sorted(m)
    a = zdi_radial_ref(keys, [m[q][0] for q in keys], th, ph)
    b = zdi_magnetogram.from_coefficients(out).get_radial_field(th, ph)
    terms = sum(np.abs(m[q][0]) for q in keys) + 1e-300
    require_close(b, a, "radial field after folding", tol=1e-11, scale=terms, keys=keys)


# ------------------------------------------------------------------ S11
@clause("S11", "rotation", 3)
def s11_rotate(rng, k, D):
    import quaternion
    from starwinds_magnetogram import rotate
    s, m = rand_set(rng, D, 1, lmax=5, neg=rng.random() < .5)
    snap = snapshot(s)
    q = random_rotation(rng)
    mode = rng.integers(0, 5)
    if mode == 0:
        q = np.array([1., 0, 0, 0])
    elif mode == 1:
        a = rng.uniform(-np.pi, np.pi); q = np.array([np.cos(a / 2), 0, 0, np.sin(a / 2)])
    elif mode == 2:
        a = rng.uniform(-np.pi, np.pi); q = np.array([np.cos(a / 2), 0, np.sin(a / 2), 0])
    R = np.quaternion(*q)
    out = rotate.rotate_magnetogram(s, R)
    require(same_snapshot(snap, snapshot(s)), "rotation modified its input")
    M = quat_matrix(q)
    th, ph = rand_points(rng, shape=(6,))
    p = basis(th, ph)[0]
    p0 = p @ M.T         # M p: the value at p of the rotated field is the original value at M p
    th0 = np.arccos(np.clip(p0[:, 2], -1, 1)); ph0 = np.arctan2(p0[:, 1], p0[:, 0])

    def field(model, th, ph):
        z = np.zeros(th.shape, complex)
        for qq, v in model.items():
            P, _ = plm(*qq, th)
            z += v[0] * c_norm(*qq) * P * np.exp(1j * qq[1] * ph)
        return z
    o = dump(out)
    sc = sum(abs(v[0]) for v in m.values()) + 1e-300
    require_close(field(o, th, ph0 * 0 + ph), field(m, th0, ph0), "the rotated field is the field carried by the rotation",
                  tol=1e-9, scale=sc, q=q, keys=sorted(m))
    for l in range(max([x[0] for x in m]) + 1):
        pa = sum(abs(v[0]) ** 2 for x, v in m.items() if x[0] == l)
        pb = sum(abs(v[0]) ** 2 for x, v in o.items() if x[0] == l)
        require(abs(pa - pb) <= 1e-10 * (sc ** 2), "power of degree %d" % l, got=pb, want=pa, q=q)
    require(all(x[0] <= s.degree_max for x in o), "degrees grew")


@clause("S11", "composition and Euler angles")
def s11_compose(rng, k, D):
    import quaternion
    from starwinds_magnetogram import rotate
    s, m = rand_set(rng, D, 1, lmax=4, neg=True)
    sc = sum(abs(v[0]) for v in m.values()) + 1e-300
    a, b = np.quaternion(*random_rotation(rng)), np.quaternion(*random_rotation(rng))
    x = dump(rotate.rotate_magnetogram(rotate.rotate_magnetogram(s, a), b))
    y = dump(rotate.rotate_magnetogram(s, a * b))
    for q in set(x) | set(y):
        require(abs(x.get(q, [0])[0] - y.get(q, [0])[0]) <= 1e-10 * sc, "successive rotations at %s" % (q,))
    z = dump(rotate.rotate_magnetogram(rotate.rotate_magnetogram(s, a), a.conjugate()))
    for q in z:
        require(abs(z[q][0] - m.get(q, [0])[0]) <= 1e-10 * sc, "rotation and its inverse at %s" % (q,))
    e = rng.uniform(-180, 180, 3)
    if rng.random() < .4:
        e = np.round(e / 90) * 90
    u = dump(rotate.rotate_magnetogram_euler_zyz_deg(s, e))
    al, be, ga = np.deg2rad(e)
    qz = lambda t: np.quaternion(np.cos(t / 2), 0, 0, np.sin(t / 2))
    qy = lambda t: np.quaternion(np.cos(t / 2), 0, np.sin(t / 2), 0)
    w = dump(rotate.rotate_magnetogram(s, qz(al) * qy(be) * qz(ga)))
    for q in set(u) | set(w):
        require(abs(u.get(q, [0])[0] - w.get(q, [0])[0]) <= 1e-9 * sc, "Euler angles z-y-z in degrees at %s" % (q,), euler=e)


# ------------------------------------------------------------------ S23
def grid(npol, naz):
    tc = (np.arange(npol) + .5) * np.pi / npol
    pc = (np.arange(naz) + .5) * 2 * np.pi / naz
    return np.meshgrid(tc, pc)      # [az, pol]


@clause("S23", "projection formula", 2)
def s23_formula(rng, k, D):
    """the projection is the area-weighted discrete inner product with the harmonic basis"""
    npol = int(rng.integers(3, 9)); naz = int(rng.integers(npol + 1, 2 * npol + 4))
    th, ph = grid(npol, naz)
    da = np.pi / npol * 2 * np.pi / naz
    if rng.random() < .3:      # uneven spacing: the element is the product of the mean steps
        t, p = np.sort(rng.uniform(.05, 3.1, npol)), np.sort(rng.uniform(-4, 8, naz))
        th, ph = np.meshgrid(t, p)
        da = (t[-1] - t[0]) / (npol - 1) * (p[-1] - p[0]) / (naz - 1)
    f = [rng.standard_normal(th.shape) * 10.0 ** rng.uniform(-1, 2) for _ in range(3)]
    if rng.random() < .3:
        f[int(rng.integers(3))] *= 0
    if rng.random() < .2:
        f = [np.asarray(np.round(x), dtype=int) for x in f]
    if rng.random() < .2:
        f = [np.asfortranarray(x) for x in f]
    L = int(rng.integers(0, 7))
    copies = [x.copy() for x in (th, ph, *f)]
    area = None
    if rng.random() < .3:
        area = da = float(rng.uniform(.5, 2)) * da
    out = converter.convert_latlon_to_zdi_coeffs(th, ph, f[0], f[1], f[2], area, L)
    require(all(np.array_equal(a, b) for a, b in zip(copies, (th, ph, *f))), "the projection modified its inputs")
    got = dump(out)
    require(sorted(got) == all_pairs(L), "pairs of the projection", got=sorted(got))
    for (l, m), v in got.items():
        P, dP = plm(l, m, th)
        c = c_norm(l, m)
        W = (1.0 if m == 0 else 2.0) * c
        e = np.exp(-1j * m * ph)
        a = W * np.sum(f[0] * e * P * np.sin(th)) * da
        if l == 0:
            b = g = 0
        else:
            b = W * np.sum((-f[1] * dP * np.sin(th) + f[2] * 1j * m * P) * e) / l * da
            g = W * np.sum((-f[1] * 1j * m * P - f[2] * dP * np.sin(th)) * e) / l * da
        sc = W * da * np.sum(np.abs(f[0]) + np.abs(f[1]) + np.abs(f[2])) * (np.max(np.abs(P)) + np.max(np.abs(dP)) + m * np.max(np.abs(P))) + 1e-300
        for nm, x, y in (("radial", v[0], a), ("poloidal", v[1], b), ("toroidal", v[2], g)):
            require(abs(x - y) <= 1e-10 * sc, "%s coefficient at %s" % (nm, (l, m)), got=x, want=y)


@clause("S23", "recovery")
def s23_recover(rng, k, D):
    L = int(rng.integers(1, 5))
    keys = all_pairs(L, 1)
    abg = rand_complex(rng, (len(keys), 3), mag=1.0)
    for i, (l, m) in enumerate(keys):
        if m == 0:
            abg[i] = abg[i].real
    th, ph = grid(24, 48)
    comp = zdi_ref(keys, abg, th, ph)
    fr, ft, fp = comp["rp"], comp["pp"] + comp["pt"], comp["ap"] + comp["at"]
    z = converter.convert_latlon_to_zdi(th, ph, fr, ft, fp, max_degree=L)
    idx = {(int(l), int(m)): i for i, (l, m) in enumerate(zip(z.degrees_l, z.orders_m))}
    for i, q in enumerate(keys):
        j = idx[q]
        v = np.array([z.alpha[j], z.beta[j], z.gamma[j]])
        require(np.all(np.abs(v - abg[i]) < .08 * (1 + np.max(np.abs(abg)))), "recovered coefficients at %s" % (q,), got=v,
                want=abg[i])


# ------------------------------------------------------------------ S24
@clause("S24", "image projection and synthesis", 2)
def s24_image(rng, k, D):
    from starwinds_magnetogram import image_converter, geometry
    npol, naz = int(rng.integers(2, 12)), int(rng.integers(2, 16))
    own = rng.random() < .4
    if own:                     # any corners: part of the sphere, uneven steps, any origin of azimuth
        pc, ac = np.sort(rng.uniform(0, np.pi, npol + 1)), np.sort(rng.uniform(0, 2 * np.pi, naz + 1)) + rng.uniform(-7, 7)
    else:
        pc, ac = np.linspace(0, np.pi, npol + 1), np.linspace(0, 2 * np.pi, naz + 1)
    zg = geometry.ZdiGeometry(pc, ac) if own else geometry.ZdiGeometry(npol + 1, naz + 1)
    th, ph = np.meshgrid(.5 * (pc[1:] + pc[:-1]), .5 * (ac[1:] + ac[:-1]))
    for x, y in zip(zg.centers(), (th, ph)):
        require_close(x, y, "facet centres", tol=1e-12, scale=20.)
    dth, dph = np.diff(pc)[None, :], np.diff(ac)[:, None]
    img = rng.standard_normal(th.shape)
    if rng.random() < .4:
        img = img + 1j * rng.standard_normal(th.shape)
    L = int(rng.integers(1, 6))
    before = img.copy()
    if own or rng.random() < .5:
        c, zg2 = image_converter.from_image(img, zg, lmax=L)
    else:
        c, zg2 = image_converter.from_image(img, lmax=L)
        t2, p2 = zg2.centers()
        require_close(t2, th, "default geometry polar", tol=1e-12); require_close(p2, ph, "default geometry azimuth", tol=1e-12)
    require(np.array_equal(before, img), "the image was modified")
    got = dump(c)
    require(sorted(got) == sorted((l, m) for l in range(L) for m in range(-l, l + 1)), "pairs below the degree limit",
            got=sorted(got), L=L)

    def Y(l, m):
        return c_norm(l, m) * plm(l, m, th)[0] * np.exp(1j * m * ph)
    for (l, m), v in got.items():
        w = np.sum(np.conj(Y(l, m)) * img * np.sin(th) * dth * dph)
        require(abs(v[0] - w) <= 1e-10 * np.sum(np.abs(img) * dth * dph) + 1e-300, "image coefficient at %s" % ((l, m),), got=v, want=w)
    s, mod = rand_set(rng, D, 1, lmax=6, neg=True)
    snap = snapshot(s)
    im = image_converter.to_image(s, zg)
    want = sum((v[0] * Y(*q) for q, v in mod.items()), np.zeros(th.shape, complex))
    require_close(im, want, "image of a set", tol=1e-11, scale=sum(abs(v[0]) for v in mod.values()) + 1e-300)
    require(same_snapshot(snap, snapshot(s)), "synthesis modified the set")
    im2 = image_converter.to_image(s, zg)
    require(np.array_equal(im, im2), "second synthesis differs")


@clause("S24", "round trip")
def s24_round(rng, k, D):
    from starwinds_magnetogram import image_converter, geometry
    s, mod = rand_set(rng, D, 1, lmax=3, neg=True)
    zg = geometry.ZdiGeometry(41, 49)
    im = image_converter.to_image(s, zg)
    c, _ = image_converter.from_image(im, zg, lmax=5)
    sc = sum(abs(v[0]) for v in mod.values()) + 1e-300
    for q, v in dump(c).items():
        require(abs(v[0] - mod.get(q, [0])[0]) < 2e-2 * sc, "coefficient recovered from the image at %s" % (q,), got=v,
                want=mod.get(q))
