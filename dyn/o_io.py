"""Oracles for file reading/writing and the command line: S05-S07, S25."""
import os
import shutil
import sys
import tempfile
from common import *
from starwinds_magnetogram import coefficients as shc
from starwinds_magnetogram import reader_writer as rw


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="swm_dyn_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def classify(line):
    t = line.split()
    if len(t) < 4:
        return None
    try:
        return int(t[0]), int(t[1]), float(t[2]), float(t[3])
    except ValueError:
        return None


def parse_model(lines):
    blocks = [{}]
    for line in lines:
        r = classify(line)
        if r is None:
            continue
        l, m, a, b = r
        if (l, m) in blocks[-1]:
            blocks.append({})
        blocks[-1][l, m] = a + 1j * b
    keys = set().union(*[set(b) for b in blocks])
    return {q: np.array([b.get(q, 0) for b in blocks], complex) for q in keys}, len(blocks)


def fmt_num(rng, x):
    f = int(rng.integers(6))
    return ["%13e" % x, "%r" % float(x), "%.3f" % x, "%+.10e" % x, "%.4E" % x, "%d" % round(x)][f]


JUNK = ["", "   ", "General poloidal plus toroidal field", "135 3 -3", "0    0.0    -2  3  2", "496    1",
        "30    2077    0.0", "n m g h nOrder CR dLon", "a 1 2.0 3.0", "1 x 2.0 3.0", "1 0 y 3.0", "1 0 2.0 z", "1 0 2.0",
        "1.0 0 2.0 3.0", "1 0.0 2.0 3.0", "# 1 0 2.0 3.0", "Order:15", "2 1", "7"]


@clause("S05", "parse", 3)
def s05_parse(rng, k, D):
    nblocks = int(rng.integers(0, 5))
    lines = []

    def junk():
        while rng.random() < .3:
            lines.append(JUNK[int(rng.integers(len(JUNK)))])
    junk()
    base = rand_keys(rng, D, lmax=12, neg=rng.random() < .3)
    for b in range(nblocks):
        keys = base if rng.random() < .6 else rand_keys(rng, D, lmax=12, neg=rng.random() < .3)
        if rng.random() < .5:
            keys = sorted(keys)
        for l, m in keys:
            junk()
            z = rand_complex(rng, ())
            sep = [" ", "  ", "\t", "   "][int(rng.integers(4))]
            row = sep.join([str(l), str(m), fmt_num(rng, z.real), fmt_num(rng, z.imag)])
            if rng.random() < .15:
                row += "  99 0.5 extra"
            if rng.random() < .3:
                row = "   " + row + "  "
            lines.append(row)
            if rng.random() < .04:      # immediate repetition
                lines.append(row)
    junk()
    nl = "\n" if rng.random() < .8 else "\r\n"
    text = nl.join(lines) + (nl if rng.random() < .7 else "")
    with Scratch() as d:
        p = os.path.join(d, "a.dat")
        with open(p, "w", newline="") as f:
            f.write(text)
        try:
            got = rw.read_magnetogram_file(p)
        except Exception as e:
            raise Violation("reading raised %r" % e, text=text)
        require(open(p, newline="").read() == text, "reading changed the file")
    want, n = parse_model(lines)
    require(np.shape(got.default_coefficients) == (n,), "number of coefficient blocks", text=text,
            got=np.shape(got.default_coefficients), want=n)
    require_map(got, want, "coefficients read from a file", text=text)


@clause("S05", "layout")
def s05_layout(rng, k, D):
    """standard zdipy layout with 1..3 blocks, header lines and separators"""
    L = D.size(rng, 1, 18)
    n = int(rng.integers(1, 4))
    keys = all_pairs(L, 1)
    vals = rand_complex(rng, (n, len(keys)))
    lines = ["General poloidal plus toroidal field", "%d %d %d" % (len(keys), 3, -3)]
    for b in range(n):
        for (l, m), z in zip(keys, vals[b]):
            lines.append("%2d %2d %.6e %.6e" % (l, m, z.real, z.imag))
        lines.append("")
    with Scratch() as d:
        p = os.path.join(d, "a.dat")
        open(p, "w").write("\n".join(lines) + "\n")
        got = rw.read_magnetogram_file(p)
    want, nn = parse_model(lines)
    assert nn == n
    require_map(got, want, "zdipy layout", text="\n".join(lines[:6]))


# ------------------------------------------------------------------ S06 / S07
def write_case(rng, D, header=None):
    w = int(rng.integers(1, 5))
    s, m = rand_set(rng, D, w, lmax=15, neg=False)
    if rng.random() < .4:   # magnitudes
        keys = list(m)
        vals = np.array([m[q] for q in keys]) * 10.0 ** rng.integers(-12, 13, (len(keys), w))
        s, m = make_set(keys, vals, w), {q: v for q, v in zip(keys, vals)}
    kw = {}
    L = s.degree_max
    if rng.random() < .5:
        L = kw["degree_max"] = int(rng.integers(0, s.degree_max + 6))
    if header is None:
        header = bool(rng.random() < .5)
    if header or rng.random() < .3:
        kw["write_swmf_header"] = header
    return w, s, m, L, kw


def printed(z):
    return complex(float("%.6e" % z.real), float("%.6e" % z.imag))


@clause("S06", "write then read", 2)
def s06_roundtrip(rng, k, D):
    w, s, m, L, kw = write_case(rng, D)
    snap = snapshot(s)
    with Scratch() as d:
        p = os.path.join(d, ["out.dat", "Order 3.dat", "x"][int(rng.integers(3))])
        if rng.random() < .3:
            open(p, "w").write("stale content\n" * 400)
        elif rng.random() < .3:
            other = rand_set(rng, D, int(rng.integers(1, 4)), lmax=6)[0]
            rw.write_magnetogram_file(other, p)
        rw.write_magnetogram_file(s, p, **kw)
        text = open(p).read()
        got = rw.read_magnetogram_file(p)
    require(same_snapshot(snap, snapshot(s)), "writing modified the set")
    want = {q: np.array([printed(z) for z in np.atleast_1d(m.get(q, np.zeros(w, complex)))]) for q in all_pairs(L)}
    require(np.shape(got.default_coefficients) == (w,), "width after the round trip", got=np.shape(got.default_coefficients),
            want=w, text=text[:500])
    require(sorted(dump(got)) == sorted(want), "pairs after the round trip", got=sorted(dump(got)), want=sorted(want), kw=kw)
    for q in want:
        a, b = got.get(*q), want[q]
        for x, y in zip(np.r_[a.real, a.imag], np.r_[b.real, b.imag]):
            require(abs(x - y) <= 2e-6 * abs(y), "value after the round trip at %s" % (q,), got=a, want=b, kw=kw)


@clause("S06", "negative orders requested")
def s06_negative(rng, k, D):
    w = int(rng.integers(1, 4))
    s, m = rand_set(rng, D, w, lmax=6, neg=True)
    om = int(rng.integers(-7, 1))
    with Scratch() as d:
        p = os.path.join(d, "o.dat")
        rw.write_magnetogram_file(s, p, order_min=om)
        got = rw.read_magnetogram_file(p)
    want = {q: m.get(q, np.zeros(w, complex)) for q in all_pairs(s.degree_max, neg=True) if q[1] >= om}
    require(sorted(dump(got)) == sorted(want), "pairs written when the lowest order is %d" % om, got=sorted(dump(got)),
            want=sorted(want))
    for q in want:
        require(np.all(np.abs(got.get(*q) - want[q]) <= 2e-6 * np.abs(want[q]) + 0), "value at %s" % (q,), got=got.get(*q),
                want=want[q])


@clause("S07", "SWMF header and rows", 2)
def s07_header(rng, k, D):
    w, s, m, L, kw = write_case(rng, D, header=True)
    if rng.random() < .7:
        w = 1
        s, m = rand_set(rng, D, 1, lmax=20)
        L = s.degree_max
        if "degree_max" in kw:
            L = kw["degree_max"] = int(rng.integers(0, s.degree_max + 6))
    om = 0
    if rng.random() < .3:
        om = kw["order_min"] = int(rng.integers(-8, 3))
        if rng.random() < .5:
            w = 1
            s, m = rand_set(rng, D, 1, lmax=8, neg=True)
            L = kw["degree_max"] = s.degree_max
        L = kw.setdefault("degree_max", L)
        if not [q for q in all_pairs(L, neg=True) if q[1] >= om]:
            return
    with Scratch() as d:
        p = os.path.join(d, "out.dat")
        rw.write_magnetogram_file(s, p, **kw)
        lines = open(p).read().split("\n")
    data = [(i, classify(x)) for i, x in enumerate(lines) if classify(x) is not None]
    pairs = [q for q in all_pairs(L, neg=True) if q[1] >= om]
    require([r[:2] for _, r in data] == pairs * w, "rows must list every pair up to the maximum degree in increasing order",
            got=[r[:2] for _, r in data][:20], want=pairs[:20], kw=kw)
    require(data[0][0] == 5, "the SWMF header has five lines", text="\n".join(lines[:8]))
    h2, h3, h4 = lines[1].split(), lines[2].split(), lines[3].split()
    require([float(x) for x in h2] == [0, 0, -2, 3, 2], "second header line", line=lines[1])
    require(len(h3) == 2 and int(h3[0]) == len(data) // w and int(h3[1]) == 1, "the header states the number of data lines",
            line=lines[2], want=len(data) // w)
    require(len(h4) == 3 and int(h4[0]) == L, "the header states the maximum degree", line=lines[3], want=L)
    require(lines[4].split() == ["n", "m", "g", "h", "nOrder", "CR", "dLon"], "column names", line=lines[4])


# ------------------------------------------------------------------ S25
def run_cli(argv):
    import contextlib, io
    from starwinds_magnetogram.bin import convert_magnetogram as cm
    old = sys.argv
    sys.argv = ["sw-convert-magnetogram"] + argv
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            cm.main()
        return None
    except (Exception, SystemExit) as e:
        return e
    finally:
        sys.argv = old


def fwd(l, m):
    return math.sqrt(2 * l + 1) / ((-1) ** m * math.sqrt(1 if m == 0 else 2) * math.sqrt(4 * math.pi))


def R1(l, rs=2.5):
    return (1 - (1 / rs) ** (2 * l + 1)) / (l + 1 + l * (1 / rs) ** (2 * l + 1))


def zdi_from(l, m, z):
    a = z / fwd(l, m)
    return np.array([a, a * R1(l) * (l + 1), 0])


@clause("S25", "convert command", 3)
def s25_convert(rng, k, D):
    mode = ["zdi", "pfss", "none"][int(rng.integers(3))]
    nblocks = int(rng.integers(1, 4)) if mode == "zdi" or rng.random() < .25 else 1
    keys = sorted(rand_keys(rng, D, lmax=10, lmin=int(rng.integers(0, 2))))
    vals = rand_complex(rng, (nblocks, len(keys)))
    rows = []
    for b in range(nblocks):
        rows += ["%d %d %.9e %.9e" % (l, m, z.real, z.imag) for (l, m), z in zip(keys, vals[b])]
    with Scratch() as d:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            sub = rng.random() < .4
            if sub:
                os.mkdir("in dir")
            name = ["star.dat", "a.b.dat", "noext"][int(rng.integers(3))]
            inp = os.path.join("in dir", name) if sub else name
            if rng.random() < .3:
                inp = os.path.join(d, inp)
            text = "header line\n" + "\n".join(rows) + "\n"
            open(inp, "w").write(text)
            argv = [inp]
            postfix = "zdi" if mode == "pfss" else "wso"
            stem, ext = os.path.splitext(name)
            explicit = rng.random() < .6
            out = ("o%d.dat" % rng.integers(9)) if explicit else stem + "_" + postfix + ext
            collide = None
            if explicit:
                t = rng.random()
                if t < .12:
                    out, collide = inp, "input"
                elif t < .24:
                    out, collide = os.path.join(os.path.dirname(inp) or ".", ".", os.path.basename(inp)), "input"
                elif t < .32:
                    os.symlink(os.path.abspath(inp), "lnk"); out, collide = "lnk", "input"
                elif t < .38:
                    os.link(inp, "hard"); out, collide = "hard", "input"
                elif t < .46:
                    open(out, "w").write("old\n" * 300)
                argv.append(out)
            elif rng.random() < .25:
                open(out, "w").write("precious"); collide = "existing"
            opts = []
            L = max(q[0] for q in keys)
            if rng.random() < .4:
                L = int(rng.integers(0, L + 5))
                opts += ["--degree-max", str(L)]
            header = mode != "pfss"
            if rng.random() < .3:
                opts.append("--no-header"); header = False
            if mode == "pfss":
                opts.append("--pfss-to-zdi")
            if mode == "none":
                opts.append("--no-conversion")
            if rng.random() < .2:
                opts.append(["-q", "-v"][int(rng.integers(2))])
            before = {f: open(os.path.join(r, f)).read() for r, _, fs in os.walk(d) for f in fs}
            err = run_cli(argv + opts if rng.random() < .5 else opts + argv)
            info = dict(argv=argv, opts=opts, rows=rows[:4], blocks=nblocks, mode=mode)
            require(open(inp).read() == text, "the input file was modified", **info)
            refuse = collide is not None or (mode != "zdi" and nblocks > 1)
            if refuse:
                require(err is not None, "the conversion must be refused", collide=collide, **info)
                after = {f: open(os.path.join(r, f)).read() for r, _, fs in os.walk(d) for f in fs}
                require(before == after, "a refused conversion changed files", collide=collide, **info)
                return
            require(err is None, "the conversion failed: %r" % err, **info)
            require(os.path.isfile(out), "no output file %r" % out, found=os.listdir(d), **info)
            after = {f for r, _, fs in os.walk(d) for f in fs}
            require(after == set(before) | {os.path.basename(out)}, "unexpected files", found=sorted(after), **info)
            lines = open(out).read().split("\n")
        finally:
            os.chdir(cwd)
    data = [classify(x) for x in lines if classify(x) is not None]
    first = dict(zip(keys, vals[0]))
    want = []
    width = 3 if mode == "pfss" else 1
    for c in range(width):
        for l, m in all_pairs(L):
            z = first.get((l, m), 0j)
            if mode == "zdi":
                z = z * fwd(l, m)
            elif mode == "pfss":
                z = zdi_from(l, m, z)[c]
            want.append((l, m, z.real, z.imag))
    require([x[:2] for x in data] == [x[:2] for x in want], "rows of the output", got=[x[:2] for x in data][:12],
            want=[x[:2] for x in want][:12], **info)
    for a, b in zip(data, want):
        sc = abs(complex(b[2], b[3]))
        require(abs(a[2] - b[2]) <= 2e-6 * abs(b[2]) + 1e-9 * sc and abs(a[3] - b[3]) <= 2e-6 * abs(b[3]) + 1e-9 * sc,
                "converted value", got=a, want=b, **info)
    swmf = len(lines) > 4 and lines[4].split() == ["n", "m", "g", "h", "nOrder", "CR", "dLon"]
    require(swmf == header, "SWMF header present exactly when asked for", head=lines[:5], **info)
    if header:
        require(int(lines[2].split()[0]) == len(data) and int(lines[3].split()[0]) == L, "SWMF header content",
                head=lines[:5], **info)
