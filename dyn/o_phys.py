"""Oracles for PFSS evaluation, coordinates, geometry, longitudinal field, wind, utilities:
S16-S20, S22, S26-S28."""
from common import *
from starwinds_magnetogram import pfss_magnetogram as pf, coordinate_transforms as ct, geometry, zdi_magnetogram as zm
from starwinds_magnetogram import longitudinal_field, parker_solution, fibonacci_sphere, coefficients as shc
from o_zdi import rand_zdi, term_scale


def radii(rng):
    r0 = 1.0 if rng.random() < .5 else float(rng.uniform(.5, 3))
    rs = 2.5 * r0 if rng.random() < .3 else r0 * float(rng.uniform(1.1, 6))
    kw = dict(radius_star=r0, radius_source_surface=rs)
    if rng.random() < .35:
        r0, rs = 1.0, 2.5
        kw = {} if rng.random() < .6 else dict(radius_star=1) if rng.random() < .5 else dict(radius_source_surface=2.5)
    return r0, rs, kw


def fscale(m, r0, rs):
    return sum(abs(v[0]) * (q[0] + 2) for q, v in m.items()) * 20 + 1e-300


@clause("S16", "field inside the volume", 3)
def s16_volume(rng, k, D):
    s, m = rand_set(rng, D, 1, lmax=10)
    keys = sorted(m); gh = [m[q][0] for q in keys]
    r0, rs, kw = radii(rng)
    th, ph = rand_points(rng, D)
    r = rng.uniform(r0, rs, th.shape)
    if rng.random() < .2:
        r[...] = rs
    elif rng.random() < .2:
        r[...] = r0
    args = [x.copy() for x in (r, th, ph)]
    snap = snapshot(s)
    scalar_r = rng.random() < .25
    if scalar_r:
        r[...] = r.flat[0]
        got = pf.evaluate_spherical(s, float(r.flat[0]), th, ph, **kw)
    else:
        got = pf.evaluate_spherical(s, r, th, ph, **kw)
        require(np.array_equal(r, args[0]), "evaluation modified the radii")
    require(np.array_equal(th, args[1]) and np.array_equal(ph, args[2]), "evaluation modified the points")
    require(same_snapshot(snap, snapshot(s)), "evaluation modified the coefficients")
    want = pfss_ref(keys, gh, r, th, ph, r0, rs)
    for nm, a, b in zip(("radial", "polar", "azimuthal"), got, want):
        require_close(a, b, nm + " component is minus the gradient of the potential", tol=1e-9, scale=fscale(m, r0, rs),
                      keys=keys, r0=r0, rs=rs, r=r)


@clause("S16", "linearity")
def s16_linear(rng, k, D):
    a, ma = rand_set(rng, D, 1, lmax=6)
    b, mb = rand_set(rng, D, 1, lmax=6)
    r0, rs, kw = radii(rng)
    th, ph = rand_points(rng, D)
    r = rng.uniform(r0, 2 * rs, th.shape)
    x, y, z = (pf.evaluate_spherical(c, r, th, ph, **kw) for c in (a, b, a + b * 2))
    for i in range(3):
        require_close(z[i], x[i] + 2 * y[i], "field is linear in the coefficients", tol=1e-9, scale=fscale(ma, r0, rs) + 2 * fscale(mb, r0, rs))


@clause("S17", "boundaries", 2)
def s17_bounds(rng, k, D):
    s, m = rand_set(rng, D, 1, lmax=8)
    keys = sorted(m); gh = [m[q][0] for q in keys]
    r0, rs, kw = radii(rng)
    th, ph = rand_points(rng, shape=(8,))
    sc = fscale(m, r0, rs)
    r = rng.uniform(r0, rs, 8)
    r[0:2] = rng.uniform(0.05, 0.999, 2) * r0
    r[2] = rs
    r[3:6] = rs * np.array([1 + 1e-9, rng.uniform(1, 2), rng.uniform(2, 50)])
    r[6] = r0
    o = rng.permutation(8)
    r, th, ph = r[o], th[o], ph[o]
    got = pf.evaluate_spherical(s, r, th, ph, **kw)
    ev = np.clip(r, r0, rs)
    ref = pfss_ref(keys, gh, ev, th, ph, r0, rs)
    fac = np.where(r > rs, (rs / r) ** 2, 1.0) * np.where(r < r0, 0.0, 1.0)
    for nm, a, b in zip(("radial", "polar", "azimuthal"), got, ref):
        require_close(a, b * fac, nm + " component across the boundaries", tol=1e-9, scale=sc, r=r, r0=r0, rs=rs, keys=keys)
    require(np.all(np.stack(got)[:, r < r0] == 0), "the field inside the star is zero")
    far = r >= rs
    require(np.all(np.abs(np.stack(got[1:])[:, far]) <= 1e-9 * sc), "the field is radial from the source surface outwards",
            got=np.stack(got)[:, far])


@clause("S17", "Cartesian evaluation", 2)
def s17_cart(rng, k, D):
    s, m = rand_set(rng, D, 1, lmax=8)
    r0, rs, kw = radii(rng)
    th, ph = rand_points(rng, D)
    r = rng.uniform(.3 * r0, 2 * rs, th.shape)
    p = r[..., None] * basis(th, ph)[0]
    px, py, pz = (np.ascontiguousarray(p[..., i]) for i in range(3))
    keep = [x.copy() for x in (px, py, pz)]
    fr, fp, fa, fx, fy, fz = pf.evaluate_cartesian(s, px, py, pz, **kw)
    require(all(np.array_equal(a, b) for a, b in zip(keep, (px, py, pz))), "evaluation modified the points")
    pr = np.sqrt(px ** 2 + py ** 2 + pz ** 2)
    sure = (np.abs(pr - r0) > 1e-9) & (np.abs(pr - rs) > 1e-9)
    want = pf.evaluate_spherical(s, r, th, ph, **kw)
    sc = fscale(m, r0, rs)
    for a, b in zip((fr, fp, fa), want):
        require_close(np.where(sure, a, 0), np.where(sure, b, 0), "spherical components of the Cartesian evaluation", tol=1e-8, scale=sc)
    er, et, ep = basis(th, ph)
    v = fr[..., None] * er + fp[..., None] * et + fa[..., None] * ep
    for i, f in enumerate((fx, fy, fz)):
        require_close(f, v[..., i], "Cartesian component %s is the same vector" % "xyz"[i], tol=1e-9, scale=sc)


# ------------------------------------------------------------------ S18
@clause("S18", "coordinates", 2)
def s18_coord(rng, k, D):
    shape = rand_points(rng, D)[0].shape
    p = rng.standard_normal((3,) + shape) * (10.0 ** rng.uniform(-3, 3) if rng.random() < .5 else D.scale(rng))
    if rng.random() < .2:
        p = p * 10.0 ** rng.uniform(-8, 8, shape)
    mode = rng.integers(0, 5)
    if mode == 0:
        p[int(rng.integers(3))] = 0
    elif mode == 1:
        p[:2] = 0                      # polar axis
    elif mode == 2:
        p = np.round(p)                # lattice points, origin included
        p[:, ..., 0] = 0
    keep = p.copy()
    r, t, a = ct.spherical_coordinates_from_rectangular(p[0], p[1], p[2])
    require(np.array_equal(keep, p), "input modified")
    norm = np.sqrt(np.sum(p ** 2, 0))
    require_close(r, norm, "radius", tol=1e-12)
    require(np.all(t >= 0) and np.all(t <= np.pi) and np.all(np.abs(a) <= np.pi), "angle ranges", t=t, a=a)
    require(np.all(np.isfinite(t)) and np.all(np.isfinite(a)), "angles must be defined everywhere")
    q = ct.rectangular_coordinates_from_spherical(r, t, a)
    for i in range(3):
        require_close(q[i], p[i], "back to Cartesian %s" % "xyz"[i], tol=1e-7, scale=norm)
    r2 = rng.uniform(.1, 5, shape) * (1 if rng.random() < .5 else D.scale(rng))
    th, ph = rand_points(rng, shape=shape)
    ph = rng.uniform(-np.pi + 1e-6, np.pi - 1e-6, shape)
    x = ct.rectangular_coordinates_from_spherical(r2, th, ph)
    er = basis(th, ph)[0]
    for i in range(3):
        require_close(x[i], r2 * er[..., i], "Cartesian from spherical", tol=1e-12, scale=r2)
    b = ct.spherical_coordinates_from_rectangular(*x)
    for nm, u, v in zip(("radius", "polar", "azimuth"), b, (r2, th, ph)):
        require_close(u, v, nm + " round trip", tol=1e-9, scale=r2 if nm == "radius" else 5.)


@clause("S18", "vector transformation", 2)
def s18_matrix(rng, k, D):
    n = int(rng.integers(1, 7))
    th = rng.uniform(0, np.pi, n); ph = rng.uniform(-np.pi, 2 * np.pi, n)
    if rng.random() < .3:
        th = np.round(th / (np.pi / 2)) * (np.pi / 2)
    A = ct.spherical_to_rectangular_transformation_matrix(th, ph)
    B = ct.rectangular_to_spherical_transformation_matrix(th, ph)
    want = np.stack(basis(th, ph), -1)
    require_close(A, want, "spherical to Cartesian matrix", tol=1e-13)
    require_close(B, np.swapaxes(want, -1, -2), "Cartesian to spherical matrix", tol=1e-13)
    I = np.broadcast_to(np.eye(3), (n, 3, 3))
    require_close(A @ B, I, "matrices are inverse", tol=1e-12); require_close(B @ A, I, "matrices are inverse", tol=1e-12)
    a = ct.spherical_to_rectangular_transformation_matrix(float(th[0]), float(ph[0]))
    require_close(a, want[:1], "scalar angles", tol=1e-13)


# ------------------------------------------------------------------ S19
def rand_geometry(rng, D):
    t = int(rng.integers(0, 5))
    if t == 0:
        return geometry.ZdiGeometry(), np.linspace(0, np.pi, 65), np.linspace(0, 2 * np.pi, 130), True
    if t == 1:
        n = D.size(rng, 2, 39, 400)
        return geometry.ZdiGeometry(n), np.linspace(0, np.pi, n), np.linspace(0, 2 * np.pi, 2 * n), True
    if t == 2:
        n, m = D.size(rng, 2, 39, 400), D.size(rng, 2, 39, 400)
        return geometry.ZdiGeometry(n, m), np.linspace(0, np.pi, n), np.linspace(0, 2 * np.pi, m), True
    full = rng.random() < .5
    pc = np.sort(rng.uniform(0, np.pi, int(rng.integers(2, 9)))); ac = np.sort(rng.uniform(0, 2 * np.pi, int(rng.integers(2, 9))))
    if full:
        pc[0], pc[-1] = 0, np.pi; ac[0], ac[-1] = 0, 2 * np.pi
    if rng.random() < .5:       # azimuths may start anywhere
        ac = ac + [-np.pi, float(rng.uniform(-7, 7))][int(rng.integers(2))]
    return geometry.ZdiGeometry(pc, ac), pc, ac, full


@clause("S19", "grid", 2)
def s19_grid(rng, k, D):
    zg, pc, ac, full = rand_geometry(rng, D)
    P, A = np.meshgrid(pc, ac)
    c = zg.corners()
    require_close(c[0], P, "polar corners", tol=1e-12); require_close(c[1], A, "azimuthal corners", tol=1e-12)
    require(zg.shape == P.shape, "shape")
    want = (np.cos(pc[:-1]) - np.cos(pc[1:]))[None, :] * np.diff(ac)[:, None]
    ar = zg.areas()
    require_close(ar, want, "facet areas are exact spherical areas", tol=1e-11, scale=np.max(want))
    require(np.all(ar >= 0), "areas are not negative")
    if full:
        require(abs(np.sum(ar) - 4 * np.pi) < 1e-10, "areas of the full sphere add up to 4 pi", got=np.sum(ar))
    tc, ac2 = zg.centers()
    wt, wa = np.meshgrid(.5 * (pc[1:] + pc[:-1]), .5 * (ac[1:] + ac[:-1]))
    require_close(tc, wt, "centre polar angle", tol=1e-12, scale=7.); require_close(ac2, wa, "centre azimuth", tol=1e-12, scale=7.)
    n = zg.unit_normals()
    require_close(n, basis(wt, wa)[0], "unit normals point along the centres", tol=1e-12, scale=1.)
    require_close(np.stack(zg.corners_cartesian(), -1), basis(P, A)[0], "Cartesian corners", tol=1e-12, scale=1.)
    require_close(np.stack(zg.centers_cartesian(), -1), basis(wt, wa)[0], "Cartesian centres", tol=1e-12, scale=1.)
    # lending the arrays does not change the grid
    require_close(zg.areas(), want, "areas change between calls", tol=1e-11, scale=np.max(want))


@clause("S20", "visible fraction", 2)
def s20_visible(rng, k, D):
    zg, pc, ac, full = rand_geometry(rng, D)
    d = rng.standard_normal(3) * 10.0 ** rng.uniform(-3, 3)
    if rng.random() < .3:
        d = np.eye(3)[int(rng.integers(3))] * (1 if rng.random() < .5 else -2.5)
    keep = d.copy()
    f = zg.projected_visible_area_fraction(d)
    mu = zg.unit_normals() @ (d / np.linalg.norm(d))
    require_close(f, np.maximum(mu, 0), "visible projected fraction is max(0, cos) ", tol=1e-11, scale=1., d=d)
    require(np.array_equal(keep, d), "direction modified")
    g = zg.projected_visible_area_fraction(d * 7.5)
    require_close(g, f, "independent of the length of the direction", tol=1e-11, scale=1.)


@clause("S20", "longitudinal field", 3)
def s20_longitudinal(rng, k, D):
    z, keys, abg = rand_zdi(rng, D, lmax=5, lmin=1)
    zg = geometry.ZdiGeometry(D.size(rng, 3, 11, 100), D.size(rng, 3, 13, 100))
    inc = float(rng.uniform(0, np.pi)) if rng.random() < .7 else [0.0, np.pi / 2, np.pi, 1][int(rng.integers(4))]
    t = rng.integers(0, 5)
    n = int(rng.integers(1, 6))
    if t == 0:
        az = None
        az_list = np.deg2rad(np.linspace(0, 360, zg.shape[0]))
    elif t == 1:
        az = az_list = rng.integers(0, 7, n)
    elif t == 2:
        az = [0, 1, 2, 3][:n]; az_list = np.array(az)
    else:
        az = az_list = rng.uniform(-7, 7, n)
    got = longitudinal_field.get_longitudinal_field_curve(zg, z, inc, az)
    th, ph = zg.centers()
    er, et, ep = basis(th, ph)
    w = zdi_ref(keys, abg, th, ph)
    B = (w["rp"] + w["rt"])[..., None] * er + (w["pp"] + w["pt"])[..., None] * et + (w["ap"] + w["at"])[..., None] * ep
    A = zg.areas()
    sc = np.max(np.abs(B)) + 1e-300
    require(len(got) == len(az_list), "one value per azimuth", got=len(got))
    for i, a in enumerate(az_list):
        d = np.array([np.sin(inc) * np.cos(a), np.sin(inc) * np.sin(a), np.cos(inc)])
        W = A * np.maximum(er @ d, 0)
        v = np.sum(W * (B @ d)) / np.sum(W)
        require(abs(got[i] - v) <= 1e-8 * sc, "longitudinal field at azimuth %r" % a, got=got[i], want=v, inc=inc, keys=keys)


# ------------------------------------------------------------------ S22
@clause("S22", "wind solution", 2)
def s22_parker(rng, k, D):
    T = float(rng.uniform(.5e6, 4e6)); rho = 10.0 ** rng.uniform(-14, -8)
    R = 6.957e8 * float(rng.uniform(.3, 2)); M = 1.989e30 * float(rng.uniform(.3, 2))
    ps = parker_solution.ParkerSolution(T, rho, R, M) if rng.random() < .8 else parker_solution.ParkerSolution()
    if ps.temperature != T:
        T, rho, R, M = ps.temperature, ps.base_density, ps.stellar_radius, ps.stellar_mass
    from scipy import constants as sc
    rc = sc.G * M * sc.proton_mass / (4 * T * sc.k)
    cs = math.sqrt(2 * sc.k * T / sc.proton_mass)
    require_close(ps.radius_sonic, rc, "sonic radius", tol=1e-10); require_close(ps.speed_sonic, cs, "sonic speed", tol=1e-10)
    if rc <= 1.05 * R:
        return
    r = R * 10.0 ** rng.uniform(0, 2 if rng.random() < .7 else 9, D.size(rng, 1, 11, 5000))
    if rng.random() < .5:
        r = np.r_[r, rc * rng.uniform(.5, .97), rc * rng.uniform(1.03, 3), R]
    r = r[np.abs(r / rc - 1) > 1e-3]
    if not len(r):
        return
    inside = rng.random() < .4
    if inside:
        r[int(rng.integers(len(r)))] = R * rng.uniform(.1, 1)
    keep = r.copy()
    u = ps.speed(r); n = ps.density(r)
    require(np.array_equal(keep, r), "the radii were overwritten")
    re = np.maximum(r, R)
    s, w = re / rc, np.asarray(u) / cs
    lhs = w ** 2 - 1 - 2 * np.log(w); rhs = 4 * np.log(s) + 4 / s - 4
    require(np.all(np.abs(lhs - rhs) <= 1e-7 * (1 + np.abs(rhs))), "speed solves the wind equation", r=r, w=w, lhs=lhs, rhs=rhs)
    require(np.all((w < 1) == (s < 1)), "subsonic below and supersonic above the sonic radius", s=s, w=w)
    flux = 4 * np.pi * re ** 2 * n * u
    require(np.all(np.abs(flux / ps.total_mass_flux - 1) < 1e-8), "mass flux is the same through every sphere", flux=flux,
            total=ps.total_mass_flux)
    ref = 4 * np.pi * R ** 2 * rho * ps.speed(np.array([R]))[0]
    require(abs(ps.total_mass_flux / ref - 1) < 1e-8, "total mass flux is that of the surface", got=ps.total_mass_flux, want=ref)
    require(abs(ps.density(np.array([R]))[0] / rho - 1) < 1e-9, "density at the surface is the base density")
    o = np.argsort(re)
    require(np.all(np.diff(np.asarray(u)[o]) >= -1e-6 * cs), "speed grows outwards")
    require_close(np.asarray(ps.speed(float(r[0]))).ravel()[0], np.asarray(u)[0], "scalar radius", tol=1e-10)


# ------------------------------------------------------------------ S26
@clause("S26", "inputs stay as they were")
def s26_pure(rng, k, D):
    """every evaluation/conversion twice on the same objects: arguments unchanged, results equal"""
    from starwinds_magnetogram import converter, image_converter, rotate
    z, keys, abg = rand_zdi(rng, D, lmax=6, lmin=1)
    th, ph = rand_points(rng, D)
    s1, m1 = rand_set(rng, D, 1, lmax=5)
    s3, m3 = rand_set(rng, D, 3, lmax=5)
    sn, mn = rand_set(rng, D, 1, lmax=4, neg=True)
    zg = geometry.ZdiGeometry(int(rng.integers(4, 9)), int(rng.integers(4, 9)))
    r = rng.uniform(.5, 4, th.shape)
    p = r[..., None] * basis(th, ph)[0]
    px, py, pz = (np.ascontiguousarray(p[..., i]) for i in range(3))
    d = rng.standard_normal(3)
    gt, gp = np.meshgrid((np.arange(4) + .5) * np.pi / 4, (np.arange(6) + .5) * np.pi / 3)
    f3 = [rng.standard_normal(gt.shape) for _ in range(3)]
    img = rng.standard_normal(zg.centers()[0].shape)
    az = rng.uniform(0, 6, 3)
    import quaternion
    q = np.quaternion(*random_rotation(rng))
    radii_ = np.array([.1, 1., 3.]) * 6.957e8
    ps = parker_solution.ParkerSolution()
    euler = rng.uniform(-90, 90, 3)
    wl = np.cumsum(rng.choice([.1, .5], 8))
    from starwinds_magnetogram import plot_lsd
    calls = {
        "radial": lambda: z.get_radial_field(th, ph), "polar": lambda: z.get_polar_field(th, ph),
        "azimuthal": lambda: z.get_azimuthal_field(th, ph), "strength": lambda: z.get_field_strength(th, ph),
        "cartesian": lambda: z.get_cartesian_field(th, ph), "cart pol": lambda: z.get_cartesian_poloidal_field(th, ph),
        "cart tor": lambda: z.get_cartesian_toroidal_field(th, ph),
        "energy": lambda: z.energy(dest={}), "matrix": lambda: z.energy_matrix(),
        "restricted": lambda: z.as_restricted((1, 3)).alpha, "poloidal": lambda: z.as_poloidal().gamma,
        "toroidal": lambda: z.as_toroidal().alpha,
        "pfss": lambda: pf.evaluate_spherical(s1, r, th, ph), "pfss cart": lambda: pf.evaluate_cartesian(s1, px, py, pz),
        "to pfss": lambda: dump(converter.convert_zdi_to_pfss(s1)), "to zdi": lambda: dump(converter.convert_pfss_to_zdi(s1)),
        "fold": lambda: dump(converter.map_to_positive_orders(sn)), "rotate": lambda: dump(rotate.rotate_magnetogram(sn, q)),
        "euler": lambda: dump(rotate.rotate_magnetogram_euler_zyz_deg(sn, euler)),
        "stack": lambda: dump(shc.hstack((s1, sn))), "split": lambda: [dump(x) for x in shc.hsplit(s3)],
        "add": lambda: dump(s1 + sn), "scale": lambda: dump(s1.scale(lambda l, m: l + 1.)), "mul": lambda: dump(s3 * 2.5),
        "arrays": lambda: s3.as_arrays(), "from": lambda: zm.from_coefficients(s3).beta,
        "project": lambda: dump(converter.convert_latlon_to_zdi_coeffs(gt, gp, *f3, max_degree=2)),
        "image": lambda: dump(image_converter.from_image(img, zg, 3)[0]), "synth": lambda: image_converter.to_image(sn, zg),
        "long": lambda: longitudinal_field.get_longitudinal_field_curve(zg, z, .6, az),
        "visible": lambda: zg.projected_visible_area_fraction(d), "areas": lambda: zg.areas(), "normals": lambda: zg.unit_normals(),
        "describe": lambda: geometry.numerical_description(geometry.ZdiGeometry(9), z),
        "sph": lambda: ct.spherical_coordinates_from_rectangular(px, py, pz),
        "rect": lambda: ct.rectangular_coordinates_from_spherical(r, th, ph),
        "speed": lambda: ps.speed(radii_), "density": lambda: ps.density(radii_),
        "wl": lambda: [(int(a), int(b)) for a, b in plot_lsd.wl_intervals(wl)],
    }

    def state():
        return (snapshot(s1), snapshot(s3), snapshot(sn),
                [x.copy() for x in (th, ph, r, px, py, pz, d, gt, gp, *f3, img, az, radii_, euler, wl, z.degrees_l, z.orders_m, z.alpha,
                                    z.beta, z.gamma, *zg.corners())], (q.w, q.x, q.y, q.z))

    def same(a, b):
        return all(same_snapshot(x, y) for x, y in zip(a[:3], b[:3])) and all(np.array_equal(x, y) for x, y in zip(a[3], b[3])) \
            and a[4] == b[4]

    def equal(a, b):
        if isinstance(a, dict):
            return sorted(a) == sorted(b) and all(equal(a[k], b[k]) for k in a)
        if isinstance(a, (tuple, list)):
            return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
        return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)

    def scribble(a):
        if isinstance(a, dict):
            for v in a.values():
                scribble(v)
        elif isinstance(a, (tuple, list)):
            for v in a:
                scribble(v)
        elif isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind in "fci":
            a += 1
    import copy
    names = list(calls)
    picks = [names[i] for i in rng.choice(len(names), 12, replace=False)]
    base = state()
    first = {}
    for nm in picks:
        res = calls[nm]()
        first[nm] = copy.deepcopy(res)
        require(same(base, state()), "%s modified one of its inputs" % nm)
        scribble(res)
        require(same(base, state()), "the result of %s shares storage with an input" % nm)
    for nm in picks:
        require(equal(first[nm], calls[nm]()), "%s gives another result the second time" % nm)


@clause("S26", "no memory of earlier calls")
def s26_history(rng, k, D):
    """results do not depend on which points or coefficients the same functions saw before: points evaluated together
    after a call at confusable points (same shape, sum, extremes, storage) equal the points evaluated one by one"""
    z, keys, abg = rand_zdi(rng, D, lmax=5, lmin=1)
    s1, m1 = rand_set(rng, D, 1, lmax=4)
    n = int(rng.integers(2, 7))
    th, ph, r = rng.uniform(.1, 3.0, n), rng.uniform(-7, 7, n), rng.uniform(.5, 4, n)
    ps = parker_solution.ParkerSolution()
    R = 6.957e8
    xyz = lambda r, t, p: [np.ascontiguousarray(c) for c in (r[..., None] * basis(t, p)[0]).T]
    calls = {
        "strength": lambda z, s, r, t, p: z.get_field_strength(t, p),
        "energy and field": lambda z, s, r, t, p: (z.energy(dest={}), z.get_radial_field(t, p))[1],
        "cartesian": lambda z, s, r, t, p: np.moveaxis(z.get_cartesian_field(t, p), -1, 0),
        "cart pol": lambda z, s, r, t, p: np.moveaxis(z.get_cartesian_poloidal_field(t, p), -1, 0),
        "cart tor": lambda z, s, r, t, p: np.moveaxis(z.get_cartesian_toroidal_field(t, p), -1, 0),
        "pfss": lambda z, s, r, t, p: pf.evaluate_spherical(s, r, t, p),
        "pfss radii": lambda z, s, r, t, p: pf.evaluate_spherical(s, r, t, p, radius_star=.7, radius_source_surface=3),
        "pfss cartesian": lambda z, s, r, t, p: pf.evaluate_cartesian(s, *xyz(r, t, p)),
        "to spherical": lambda z, s, r, t, p: ct.spherical_coordinates_from_rectangular(*xyz(r, t, p)),
        "to rectangular": lambda z, s, r, t, p: ct.rectangular_coordinates_from_spherical(r, t, p),
        "matrix": lambda z, s, r, t, p: np.moveaxis(ct.spherical_to_rectangular_transformation_matrix(t, p), 0, -1),
        "speed": lambda z, s, r, t, p: ps.speed(r * R), "density": lambda z, s, r, t, p: ps.density(r * R),
    }
    for a, b in (("radial", "radial"), ("polar", "polar"), ("azimuthal", "azimuthal")):
        calls[a] = lambda z, s, r, t, p, a=a: getattr(z, "get_%s_field" % a)(t, p)
        for q in ("poloidal", "toroidal"):
            calls[a + " " + q] = lambda z, s, r, t, p, nm="get_%s_%s_field" % (a, q): \
                getattr(z, nm + "_new" if hasattr(z, nm + "_new") else nm)(t, p)
    names = list(calls)
    import copy
    for nm in [names[i] for i in rng.choice(len(names), 7, replace=False)]:
        f = calls[nm]
        fresh_z = copy.deepcopy(z)
        T, P, Q = th.copy(), ph.copy(), r.copy()
        f(z, s1, Q, T, P)
        how = int(rng.integers(4))
        if how == 0:
            T, P, Q = T[::-1].copy(), P[::-1].copy(), Q[::-1].copy()
        elif how == 1:
            i = rng.permutation(n); T, P, Q = T[i], P[i], Q[i]
        elif how == 2:          # the same arrays with other contents
            T[...], P[...], Q[...] = T[::-1].copy(), P[::-1].copy(), Q[::-1].copy()
        else:                   # mirrored about the equator: other points with the same sine
            T = np.pi - T
        s2 = s1
        if rng.random() < .4 and m1:      # the set changes between the calls
            q = sorted(m1)[int(rng.integers(len(m1)))]
            s2 = s1.copy()
            f(z, s2, Q, T, P)
            s2.set(*q, m1[q][0] * 2 + 1)
            fresh_s = make_set(sorted(m1), [np.array([m1[x][0] * 2 + 1]) if x == q else m1[x] for x in sorted(m1)])
        else:
            fresh_s = s2
        got = f(z, s2, Q, T, P)
        size = 0. if nm in ("to spherical", "to rectangular", "matrix", "speed", "density") else \
            fscale(m1, 1, 2) if "pfss" in nm else np.max(np.abs(abg)) * 100
        if not isinstance(got, (tuple, list)):
            got = [got]
        single = []
        for i in range(n):
            e = f(fresh_z, fresh_s, Q[i:i + 1].copy(), T[i:i + 1].copy(), P[i:i + 1].copy())
            single.append(e if isinstance(e, (tuple, list)) else [e])
        for j, g in enumerate(got):
            w = np.concatenate([np.asarray(e[j]) for e in single], axis=-1)
            require_close(np.asarray(g), w, "%s depends on earlier calls" % nm, tol=1e-9, scale=np.max(np.abs(w)) + size)


# ------------------------------------------------------------------ S27 / S28
@clause("S27", "wavelength intervals")
def s27_wl(rng, k, D):
    from starwinds_magnetogram import plot_lsd
    n = D.size(rng, 1, 29, 5000)
    thr = [0.2, 0.2, float(rng.uniform(.05, 1))][int(rng.integers(3))]
    steps = np.where(rng.random(n - 1) < [.0, .2, .5, 1][int(rng.integers(4))], thr * rng.uniform(1.01, 5, n - 1), thr * rng.uniform(0, .99, n - 1))
    steps = steps * np.where(rng.random(n - 1) < .15, -1, 1)
    wl = 500 + np.r_[0, np.cumsum(steps)]
    kw = {} if thr == .2 else dict(threshold=thr)
    keep = wl.copy()
    iv = [(int(a), int(b)) for a, b in plot_lsd.wl_intervals(wl, **kw)]
    require(np.array_equal(keep, wl), "wavelengths modified")
    cuts = [i + 1 for i in range(n - 1) if abs(wl[i + 1] - wl[i]) > thr]
    want = list(zip([0] + cuts, cuts + [n]))
    require(iv == want, "intervals partition the samples at the gaps", got=iv, want=want, wl=wl, thr=thr)


@clause("S28", "sphere points")
def s28_fib(rng, k, D):
    n = D.size(rng, 1, 200) if rng.random() < .93 else int(rng.integers(200, 30000))
    rand = bool(rng.random() < .4)
    import random
    random.seed(int(rng.integers(1 << 30)))
    p = fibonacci_sphere.fibonacci_sphere(n, randomize=rand) if rand or rng.random() < .5 else fibonacci_sphere.fibonacci_sphere(n)
    require(p.shape == (n, 3), "one point per index", got=p.shape)
    require(np.allclose(np.sum(p ** 2, 1), 1, atol=1e-12), "points lie on the unit sphere")
    require(np.allclose(p[:, 1], (2 * np.arange(n) + 1) / n - 1, atol=1e-12), "one point in the middle of each of n equal-area zones")
    if not rand and n > 2:
        inc = math.pi * (3 - math.sqrt(5))
        r = np.sqrt(1 - p[:, 1] ** 2)
        phi = ((np.arange(n) + 1) % n) * inc
        require(np.allclose(p[:, 0], r * np.cos(phi), atol=1e-9) and np.allclose(p[:, 2], r * np.sin(phi), atol=1e-9),
                "consecutive points are turned by the golden angle")
