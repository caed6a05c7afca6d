"""Contracts for bin/convert_magnetogram.py (S25): the command against the contracts of the reader and the writer."""
from spec import *
from values import StrVal
from npmod import Builtin
from c_coeffs import key, has, get, same_set
from c_convert import factor, times

M = "bin.convert_magnetogram"
PKG = "starwinds_magnetogram."
FUNCS = M + ":main " + M + ":no_conversion " + M + ":convert_zdi_to_pfss " + M + ":convert_pfss_to_zdi " + M + ":_make_output_filename bin.generic_arguments:defaults"


class World:
    """file names, the file system as seen by os.path, the reader and the writer"""
    def __init__(self, v, width):
        self.v, it = v, v.it
        part = lambda n: ("sym", n, var(n, "U"))
        # the input path: directory part (with separator, possibly empty), stem, extension (with dot, possibly empty)
        self.dir, self.stem, self.ext = part("in.dir"), part("in.stem"), part("in.ext")
        self.input = StrVal([self.dir, self.stem, self.ext])
        self.output = StrVal([part("out")])
        self.c = v.coeffs("c", width, nonneg=True)
        self.log = it.new_list()
        it.samplers["out"] = lambda r: r.choice(["out", "cat", "x"])
        it.axiom(and_(self.exists(self.input), self.samefile(self.input, self.input)))
        it.os_model = self.os
        it.contracts[PKG + "reader_writer:read_magnetogram_file"] = self.read
        it.contracts[PKG + "reader_writer:write_magnetogram_file"] = self.write

    def exists(self, s):
        return app("exists", (self.v.it.np.str_term(s),), "B")

    def samefile(self, a, b):
        a, b = sorted([self.v.it.np.str_term(a), self.v.it.np.str_term(b)], key=lambda t: t.id if hasattr(t, "id") else repr(t))
        return app("samefile", (a, b), "B")

    def os(self, name):
        it = self.v.it

        def string(x):
            if not isinstance(x, (str, StrVal)):
                if x is None:
                    raise PyRaise("TypeError", "path is None")
                raise Unsupported("path")
            return x

        def basename(a, k):
            s = string(a[0])
            if isinstance(s, StrVal) and s.parts[0] == self.dir and len(s.parts) > 1 and self.dir not in s.parts[1:] and \
                    not any(isinstance(p, str) and "/" in p for p in s.parts):
                return StrVal(s.parts[1:])
            if isinstance(s, StrVal) and s.parts[0] == self.stem and all(not isinstance(p, str) or "/" not in p for p in s.parts):
                return s
            raise Unsupported("basename")

        def splitext(a, k):
            s = string(a[0])
            if isinstance(s, StrVal) and s.parts[-2:] == (self.stem, self.ext):
                return (StrVal(s.parts[:-1]), StrVal((self.ext,)))
            raise Unsupported("splitext")

        def samefile(a, k):
            x, y = string(a[0]), string(a[1])
            for s in (x, y):
                if not it.decide(self.exists(s)):
                    raise PyRaise("FileNotFoundError", "samefile")
            return self.samefile(x, y)
        fs = {"os.path.basename": basename, "os.path.splitext": splitext, "os.path.samefile": samefile,
              "os.path.exists": lambda a, k: self.exists(string(a[0]))}
        return Builtin(name, fs[name]) if name in fs else None

    def same(self, a, b):
        r = self.v.it.np.str_eq(a, b)
        return r if isinstance(r, T) else boolean(r)

    def read(self, it, f, args, kwargs):
        b = it.bind_args(f, args, kwargs)
        s = b["file_name"]
        if not isinstance(s, (str, StrVal)) or not (it.decide(self.same(s, self.input))):
            raise Unsupported("another file is read")
        return self.c.obj

    def write(self, it, f, args, kwargs):
        b = it.bind_args(f, args, kwargs)
        it.heap[self.log.cid] = it.heap[self.log.cid] + (("one", tuple(b[n] for n in (
            "coefficient_sets", "file_name", "degree_max", "order_min", "write_swmf_header"))),)
        return None

    def refused(self, given, postfix):
        """the output name collides"""
        if given:
            return or_(self.same(self.output, self.input), and_(self.exists(self.output), self.samefile(self.input, self.output)))
        return self.exists(self.default(postfix))

    def default(self, postfix):
        return StrVal([self.stem, "_" + postfix, self.ext])


def run(v, w, thunk, given, postfix, D, header, want, width, refuse=FALSE):
    """one run of the command: refused exactly when the name collides or the input has the wrong width"""
    it = v.it
    name = w.output if given else w.default(postfix)
    no = or_(refuse, w.refused(given, postfix))
    for _ in v.each(thunk, "command", raises={"BaseException": no}):
        writes = [s[1] for s in it.heap[w.log.cid]]
        v.check("the output is written exactly once", len(writes) == 1)
        if len(writes) != 1:
            continue
        obj, file_, dmax, omin, head = writes[0]
        v.check("the output file is the one named", w.same(file_, name) if isinstance(file_, (str, StrVal)) else FALSE)
        v.check("it is not the input file", not_(w.same(file_, w.input)))
        v.check_eq("orders from zero", it.t(omin), ZERO)
        top = v.attr(obj, "degree_max") if dmax is None else dmax
        v.check_eq("highest degree", it.t(top), D if D is not None else it.t(v.attr(w.c.obj, "degree_max")))
        v.check("SWMF header", it.truth(head) is header or it.to_T(it.truth(head)) is boolean(header))
        same_set(v, "written coefficients", obj, w.c.has, want, width)
        v.unchanged("input coefficients unchanged", allow=[w.log])


def zdi_value(w):
    return lambda l, m, k: times(w.c.at(l, m, ZERO), factor(l, m))


def plain_value(w):
    return lambda l, m, k: w.c.at(l, m, k)


def pfss_value(w):
    def f(l, m, k):
        a = times(w.c.at(l, m, ZERO), div(ONE, factor(l, m)))
        q = power(div(num(2), num(5)), add(mul(num(2), l), ONE))
        b = mul(div(sub(ONE, q), add(l, ONE, mul(l, q))), add(l, ONE))
        return Cx(*(ite(eq(k, ZERO), x, ite(eq(k, ONE), mul(x, b), ZERO)) for x in (a.re, a.im)))
    return f


def _unit(mode, width, given):
    tag = "cli.%s.%s.%s" % (mode, width or "any", "named" if given else "unnamed")
    fn = {"zdi": "convert_zdi_to_pfss", "pfss": "convert_pfss_to_zdi", "plain": "no_conversion"}[mode]
    postfix = "zdi" if mode == "pfss" else "wso"
    value = {"zdi": zdi_value, "pfss": pfss_value, "plain": plain_value}[mode]
    owidth = {"zdi": 1, "pfss": 3, "plain": 1}[mode]

    @unit(tag, "S25", FUNCS, cost=3, bounded=width and "inputs with %d coefficient blocks" % width)
    def u(v):
        W = num(width) if width else v.dim("W", 1)
        v.it.samplers["W"] = lambda r: r.choice([1, 2, 3, 5, 8])
        w = World(v, W)
        D = v.int("D")
        v.it.samplers["D"] = lambda r: r.randint(0, 5)
        v.require(ge(D, ZERO))
        refuse = FALSE if mode == "zdi" else not_(eq(W, ONE))
        pos = [w.input] + ([w.output] if given else [])
        for degree in (None, D):
            for header in (True, False):
                opts = {}
                if degree is not None:
                    opts["--degree-max"] = degree
                if not header:
                    opts["--no-header"] = True
                if mode == "pfss":
                    opts["--pfss-to-zdi"] = True
                if mode == "plain":
                    opts["--no-conversion"] = True
                v.it.argv = (pos, opts)
                run(v, w, lambda: v.call(M + ":main"), given, postfix, degree, header and mode != "pfss", value(w), owidth, refuse)


for _mode in ("zdi", "pfss", "plain"):
    for _w in (None, 1, 3):
        for _g in (True, False):
            _unit(_mode, _w, _g)
