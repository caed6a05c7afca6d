"""Shared machinery of the run-time contract oracles (run with /opt/venv/bin/python).

Every oracle states the contract of public behaviour directly (independent reference
formulas), runs the *real* code imported from /repo and raises Violation on a
disagreement.  Cases are reproducible from (property, clause, seed, case number).
"""
import ast
import glob
import json
import math
import os
import sys
import warnings
import zlib

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
np.seterr(all="ignore")


class Violation(Exception):
    def __init__(self, message, **data):
        super().__init__(message)
        self.data = data


TRACE = []        # comparisons made by the current case: (message, digest)


def require(cond, message, **data):
    TRACE.append((message, 0))
    if not cond:
        raise Violation(message, **data)


CLAUSES = {}      # property -> list of (clause name, function, weight)


def clause(prop, name, weight=1.0, first=0):
    """Register a clause: function(rng, k, D) runs one case."""
    def deco(fn):
        CLAUSES.setdefault(prop, []).append((name, fn, weight))
        return fn
    return deco


# --------------------------------------------------------------------------- dictionary
class Dictionary:
    """Constants occurring in the current source, used to aim the generated inputs."""
    def __init__(self):
        ints, floats, strs = set(), set(), set()
        for path in glob.glob(os.path.join(REPO, "starwinds_magnetogram", "**", "*.py"), recursive=True):
            try:
                tree = ast.parse(open(path).read())
            except Exception:
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    v = node.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int):
                        ints.add(v)
                    elif isinstance(v, float):
                        floats.add(v)
        self.ints = sorted(ints)
        self.floats = sorted(floats)
        # constants the pinned source does not have are the most interesting ones (only the aim of the search depends on them)
        try:
            known = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "constants.json")))
        except Exception:
            known = {"ints": sorted(ints), "floats": sorted(floats)}
        self.new_ints = sorted(ints - set(known["ints"]))
        self.new_floats = sorted(floats - set(known["floats"]))
        self.small = sorted(set(j for i in ints for j in (i - 1, i, i + 1) if 0 <= j <= 40) | set(range(0, 9)))

    def hint(self, ints):
        """Integers of a counterexample found by the verifier."""
        self.hints = [int(i) for i in ints]
        self.small = sorted(set(self.small) | set(j for i in self.hints for j in (i - 1, i, i + 1) if 0 <= j <= 60))

    def scale(self, rng, lo=-12, hi=8):
        """an order of magnitude: any, or about that of a constant of the source"""
        c = [abs(f) for f in self.floats if f and 10.0 ** lo <= abs(f) <= 10.0 ** hi]
        n = [abs(f) for f in self.new_floats if f and 10.0 ** lo <= abs(f) <= 10.0 ** hi]
        if n and rng.random() < .5:
            return float(rng.choice(n)) * 10.0 ** rng.uniform(-1, 1)
        if c and rng.random() < .4:
            return float(rng.choice(c)) * 10.0 ** rng.uniform(-1, 1)
        return 10.0 ** rng.uniform(lo, hi)

    def big(self, rng, hi=20000):
        """a number of entries: around a larger constant of the source, or any"""
        n = [i for i in self.new_ints if 40 < i <= hi]
        if n and rng.random() < .7:
            return int(rng.choice(n)) + int(rng.integers(1, 40))
        c = [i for i in self.ints if 40 < i <= hi]
        if c and rng.random() < .6:
            return int(rng.choice(c)) + int(rng.integers(1, 40))
        return int(10 ** rng.uniform(1.7, 3.5))

    def size(self, rng, lo, hi, wide=0):
        h = [i for i in getattr(self, "hints", []) if lo <= i <= max(hi, 40)]
        if h and rng.random() < 0.3:
            return int(rng.choice(h))
        n = [j for i in self.new_ints for j in (i - 1, i, i + 1) if lo <= j <= max(hi, wide)]
        if n and rng.random() < 0.4:
            return int(rng.choice(n))
        c = [i for i in self.small if lo <= i <= hi]
        if c and rng.random() < 0.4:
            return int(rng.choice(c))
        return int(rng.integers(lo, hi + 1))


# --------------------------------------------------------------------------- comparison
def close(a, b, tol=1e-9, scale=None):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.array_equal(a, b, equal_nan=True))
    s = np.max(np.abs(b)) if scale is None else scale
    if np.ndim(s):
        if np.ndim(s) == a.ndim - 1 and a.shape[:-1] == np.shape(s):
            s = s[..., None]            # vectors at every point
        return bool(np.all(np.abs(a - b) <= tol * (s + 1e-300) + 1e-300))
    return bool(np.max(np.abs(a - b)) <= tol * (s + 1e-300) + 1e-300)


def require_close(a, b, message, tol=1e-9, scale=None, **data):
    try:
        TRACE.append((message, zlib.crc32(np.asarray(b).tobytes())))
    except Exception:
        TRACE.append((message, 0))
    if not close(a, b, tol, scale):
        data.update(got=repr(np.asarray(a))[:600], want=repr(np.asarray(b))[:600])
        raise Violation(message, **data)


# --------------------------------------------------------------------------- generators
def rand_complex(rng, shape, mag=None):
    if mag is None:
        mag = 10.0 ** rng.uniform(-2, 3)
    return mag * (rng.standard_normal(shape) + 1j * rng.standard_normal(shape))


def all_pairs(lmax, lmin=0, neg=False):
    return [(l, m) for l in range(lmin, lmax + 1) for m in range(-l if neg else 0, l + 1)]


def unusual(rng, vals):
    """coefficients of an unusual kind: real, imaginary, zero, sparse, whole, tiny, huge, all equal - all of them or one column"""
    v = np.array(vals, dtype=complex)
    if not v.size or rng.random() < .4:
        return v
    cols = slice(None) if v.ndim < 2 or rng.random() < .5 else int(rng.integers(v.shape[1]))
    w = v[..., cols]
    t = int(rng.integers(0, 10))
    v[..., cols] = [lambda: w.real + 0j, lambda: 1j * w.imag, lambda: 0 * w, lambda: w * (rng.random(w.shape) < .5), lambda: np.round(w),
                    lambda: w * 1e-10, lambda: w * 1e8, lambda: 0 * w + w.flat[0], lambda: np.abs(w) + 0j, lambda: -np.abs(w.real) + 1j * w.imag][t]()
    return v


def rand_keys(rng, D, lmax=8, lmin=0, neg=False, nonempty=True, cap=14):
    L = D.size(rng, lmin, lmax)
    pairs = all_pairs(L, lmin, neg)
    mode = rng.integers(0, 4)
    if mode == 0:
        keys = pairs
    elif mode == 1:
        n = int(rng.integers(1, len(pairs) + 1))
        keys = [pairs[i] for i in rng.choice(len(pairs), n, replace=False)]
    elif mode == 2:
        keys = [pairs[int(rng.integers(len(pairs)))]]
    else:
        n = min(len(pairs), int(rng.integers(1, 6)))
        keys = [pairs[i] for i in rng.choice(len(pairs), n, replace=False)]
    if len(keys) > cap and mode != 0:
        keys = keys[:cap]
    keys = list(keys)
    rng.shuffle(keys)
    keys = [(int(l), int(m)) for l, m in keys]
    if not nonempty and rng.random() < 0.1:
        keys = []
    return keys


def make_set(keys, values, width=1):
    from starwinds_magnetogram import coefficients as shc
    s = shc.Coefficients(np.zeros(width, dtype=complex))
    for (l, m), v in zip(keys, values):
        s.append(int(l), int(m), np.array(v, dtype=complex).reshape(width))
    return s


def rand_set(rng, D, width=1, lmax=8, lmin=0, neg=False, nonempty=True, zeros=True):
    keys = rand_keys(rng, D, lmax, lmin, neg, nonempty)
    vals = rand_complex(rng, (len(keys), width))
    if zeros and len(keys):
        vals = unusual(rng, vals)
    return make_set(keys, vals, width), {k: np.array(v) for k, v in zip(keys, vals)}


def dump(s):
    """Observable contents of a coefficient set as a plain dict."""
    return {(int(k[0]), int(k[1])): np.array(v) for k, v in s.contents()}


def snapshot(s):
    return (dump(s), np.array(s.default_coefficients), s.degree_max, s.order_min, s.size)


def same_snapshot(a, b):
    return (sorted(a[0]) == sorted(b[0]) and all(np.array_equal(a[0][k], b[0][k]) for k in a[0])
            and np.array_equal(a[1], b[1]) and a[2:] == b[2:])


def require_map(s, want, message, tol=0.0, width=None, **data):
    got = dump(s)
    require(sorted(got) == sorted(want), message + ": stored pairs differ", got=sorted(got), want=sorted(want), **data)
    scale = max([np.max(np.abs(v)) for v in want.values()] + [0.0])
    for k in want:
        w = np.atleast_1d(np.asarray(want[k]))
        require(got[k].shape == w.shape, message + ": element shape at %s" % (k,), got=got[k].shape, want=w.shape, **data)
        if tol == 0:
            require(np.array_equal(got[k], w), message + ": value at %s" % (k,), got=got[k], want=w, **data)
        else:
            require_close(got[k], w, message + ": value at %s" % (k,), tol=tol, scale=scale if scale else 1.0, **data)


def big_set(rng, D, width=1, hi=20000):
    """a set with many entries, in any order of insertion"""
    n = D.big(rng, hi)
    neg = rng.random() < .5
    L = 0
    while ((L + 1) ** 2 if neg else (L + 1) * (L + 2) // 2) < n * rng.choice([1.0, 1.3]):
        L += 1
    pairs = all_pairs(L, 0, neg)
    keys = [pairs[i] for i in rng.permutation(len(pairs))[:n]]
    vals = rand_complex(rng, (len(keys), width))
    return make_set(keys, vals, width), {k: np.array(v) for k, v in zip(keys, vals)}


def rand_points(rng, D=None, shape=None, poles=False):
    if shape is None:
        shape = [(1,), (5,), (3, 4), (2, 3, 2), (7, 1), (1, 6)][int(rng.integers(6))]
        n = [i for i in (D.new_ints if D is not None else []) if 8 < i <= 20000]
        if n and rng.random() < .3:
            shape = (int(rng.choice(n)) + int(rng.integers(-1, 3)),)
    th = rng.uniform(0.05, np.pi - 0.05, shape)
    ph = rng.uniform(-2 * np.pi, 4 * np.pi, shape)
    if rng.random() < .2:
        ph = np.round(ph / (np.pi / 2)) * (np.pi / 2)
    if rng.random() < .15:
        th = np.full(shape, np.pi / 2)
    if rng.random() < .15:
        th = np.round(th * 2) / 2 + 0.1
    if rng.random() < .15:
        # close to a pole, all of the points or some of them
        near = 10.0 ** rng.uniform(-2.7, -1.3, shape)
        near = np.where(rng.random(shape) < .5, near, np.pi - near)
        th = np.where(rng.random(shape) < rng.choice([.3, 1.1]), near, th)
    if rng.random() < .2:
        # the same points in another memory layout
        k = int(rng.integers(4))
        if k == 0:
            th, ph = np.asfortranarray(th), np.asfortranarray(ph)
        elif k == 1:
            th = np.asfortranarray(th)
        elif k == 2:
            th, ph = np.repeat(th, 2, axis=-1)[..., ::2], np.repeat(ph, 3, axis=-1)[..., ::3]
        else:
            th, ph = np.ascontiguousarray(th[..., ::-1])[..., ::-1], np.ascontiguousarray(ph.T).T
    return th, ph


# --------------------------------------------------------------------------- reference maths
def plm(l, m, th):
    """Associated Legendre function P_l^m(cos th) with the Condon-Shortley phase, m may be negative,
    and its derivative with respect to th.  Own recurrences."""
    th = np.asarray(th, float)
    if m < 0:
        a, b = plm(l, -m, th)
        f = (-1) ** m * math.factorial(l + m) / math.factorial(l - m)
        return f * a, f * b
    x, s = np.cos(th), np.sin(th)

    def val(l, m):
        if m > l or l < 0:
            return np.zeros_like(th)
        pmm = np.ones_like(th)
        for k in range(1, m + 1):
            pmm = -pmm * (2 * k - 1) * s
        if l == m:
            return pmm
        p1 = x * (2 * m + 1) * pmm
        p0 = pmm
        for k in range(m + 2, l + 1):
            p0, p1 = p1, ((2 * k - 1) * x * p1 - (k + m - 1) * p0) / (k - m)
        return p1

    p = val(l, m)
    # dP/dth = -[(l+m)(l-m+1) P^{m-1} - P^{m+1}]/2 * (-1): use dP_l^m/dtheta = 1/2[(l+m)(l-m+1)P^{m-1} - P^{m+1}] * (-1)... see below
    if m == 0:
        d = val(l, 1)
    else:
        d = -0.5 * ((l + m) * (l - m + 1) * val(l, m - 1) - val(l, m + 1))
    return p, d


def c_norm(l, m):
    m_ = m
    return math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - m_) / math.factorial(l + m_))


def zdi_ref(keys, abg, th, ph):
    """Field of a ZDI coefficient set: dict of the six components. keys: list of (l,m); abg: (n,3)."""
    z = np.zeros(np.shape(th), complex)
    out = {k: z.copy() for k in ("rp", "rt", "pp", "pt", "ap", "at")}
    s = np.sin(th)
    for (l, m), (a, b, g) in zip(keys, abg):
        p, d = plm(l, m, th)
        c = c_norm(l, m)
        e = np.exp(1j * m * ph)
        out["rp"] += a * c * p * e
        out["ap"] += -b * c * p * 1j * m * e / (l + 1) / s
        out["at"] += -g * c * d * e / (l + 1)
        out["pp"] += -b * c * d * e / (l + 1)
        out["pt"] += g * c * p * 1j * m * e / (l + 1) / s
    return {k: v.real for k, v in out.items()}


def zdi_radial_ref(keys, vals, th, ph):
    z = np.zeros(np.shape(th), complex)
    for (l, m), a in zip(keys, vals):
        p, _ = plm(l, m, th)
        z = z + a * c_norm(l, m) * p * np.exp(1j * m * ph)
    return z.real


def schmidt(l, m, th):
    """Schmidt semi-normalised function without Condon-Shortley phase and its theta derivative."""
    p, d = plm(l, m, th)
    f = (-1) ** m * math.sqrt(math.factorial(l - m) / math.factorial(l + m)) * math.sqrt(2.0 if m else 1.0)
    return f * p, f * d


def pfss_ref(keys, gh, r, th, ph, r0, rs):
    """Potential field (negative gradient of the harmonic potential), r0<=r<=rs."""
    br = np.zeros(np.shape(th))
    bt = br.copy()
    bp = br.copy()
    for (l, m), c in zip(keys, gh):
        t, dt = schmidt(l, m, th)
        g, h = np.real(c), np.imag(c)
        f = g * np.cos(m * ph) + h * np.sin(m * ph)
        df = m * (-g * np.sin(m * ph) + h * np.cos(m * ph))
        e = l + 1 + l * (r0 / rs) ** (2 * l + 1)
        R = r0 * ((r0 / r) ** (l + 1) * (1 - (r / rs) ** (2 * l + 1))) / e
        dR = -((l + 1) * (r0 / r) ** (l + 2) + l * (r0 / rs) ** (l + 2) * (r / rs) ** (l - 1)) / e
        br -= dR * t * f
        bt -= R / r * dt * f
        bp -= R / (r * np.sin(th)) * t * df
    return br, bt, bp


def random_rotation(rng):
    q = rng.standard_normal(4)
    return q / np.linalg.norm(q)


def quat_matrix(q):
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def basis(th, ph):
    """unit vectors e_r, e_theta, e_phi with shape (...,3)"""
    st, ct, sp, cp = np.sin(th), np.cos(th), np.sin(ph), np.cos(ph)
    er = np.stack([st * cp, st * sp, ct], -1)
    et = np.stack([ct * cp, ct * sp, -st], -1)
    ep = np.stack([-sp, cp, np.zeros_like(st)], -1)
    return er, et, ep
