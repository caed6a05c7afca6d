"""Contracts for reader_writer.py: the writer and its header (S06, S07)."""
import ast
import re
from spec import *
from terms import val as num_value
from values import StrVal
from npmod import Builtin, Opaque
from c_coeffs import key, has, get, same_set

M = "reader_writer"


class File:
    """a text file as the sequence of the pieces written to it"""
    def __init__(self, v):
        self.v = v
        self.cell = v.it.new_list()
        self.opened = v.it.new_list()
        v.it.files = self

    def open(self, args, kw):
        it = self.v.it
        name, mode = args[0], args[1] if len(args) > 1 else kw.get("mode", "r")
        if set(kw) - {"mode", "encoding", "newline"} or mode not in ("w", "wt", "a", "x"):
            raise Unsupported("open")
        if kw.get("newline") not in (None, "\n", ""):
            raise Unsupported("newline of a file")
        it.heap[self.opened.cid] = it.heap[self.opened.cid] + (("one", (name, mode)),)
        f = Opaque("file")

        def write(a, k):
            if not isinstance(a[0], (str, StrVal)):
                raise PyRaise("TypeError", "write() argument must be str")
            it.heap[self.cell.cid] = it.heap[self.cell.cid] + (("one", a[0]),)
            return None

        def writelines(a, k):
            for s in it.segments(a[0]):
                if s[0] == "one":
                    write([s[1]], {})
                else:
                    write([StrVal([("join", "", (s,))])], {})

        def attrs(n):
            fs = {"write": write, "writelines": writelines, "close": lambda a, k: None, "flush": lambda a, k: None}
            if n not in fs:
                raise Unsupported("file." + n)
            return Builtin("file." + n, fs[n])
        f.attrs = attrs
        return f

    def close(self, o):
        pass

    def pieces(self):
        out = []
        for s in self.v.it.heap[self.cell.cid]:
            out.append(s[1] if s[0] == "one" else self.block(s[1]) or StrVal([("join", "", (s,))]))
        return out

    def block(self, seq):
        """pieces written by every iteration of a loop: ('each', range, function of the index -> pieces)"""
        d = seq.dom
        if d.arity == 1 and d.kind == "range":
            e = seq.fn(d.fresh("k"))
            many = isinstance(e, StrVal) and any(not isinstance(p, str) and p[0] == "join" for p in e.parts)
            return ("each", d, lambda k: [seq.fn((k,))]) if many else None
        if d.arity != 2 or d.filt is not TRUE or d.los[1] is not ZERO or d.his[1].op != "num":
            return None
        n = int(num_value(d.his[1]))
        return "each", Dom((d.vars[0],), d.los[:1], d.his[:1], TRUE, "range"), lambda k: [seq.fn((k, num(j))) for j in range(n)]


class Lines:
    """the lines of a text: ('line', parts) single lines, ('rows', dom, fn) one line per element of a sequence"""
    def __init__(self, pieces):
        self.out, self.cur = [], []
        self.open = True
        for p in pieces:
            if isinstance(p, tuple):
                if self.cur:
                    raise Unsupported("a block of lines in the middle of a line")
                self.out.append(("blocks", p[1], p[2]))
            else:
                self.text(p)
        self.ended = not self.cur
        if self.cur:
            self.nl()

    def newline(self):
        self.out.append(("line", tuple(self.cur)))
        self.cur = []

    def text(self, s):
        for p in (s.parts if isinstance(s, StrVal) else (s,)):
            if isinstance(p, str):
                bits = p.split("\n")
                for i, b in enumerate(bits):
                    if i:
                        self.nl()
                    if b:
                        self.put(b)
            elif p[0] == "join":
                self.join(p[1], p[2])
            else:
                self.put(p)

    def put(self, p):
        if self.cur == ["rows"]:
            raise Unsupported("text after a symbolic line")
        self.cur.append(p)

    def nl(self):
        if self.cur == ["rows"]:
            self.cur = []
        else:
            self.newline()

    def join(self, sep, segs):
        for i, s in enumerate(segs):
            if i:
                self.text(sep)
            if s[0] == "one":
                self.text(s[1])
                continue
            seq = s[1]
            if self.cur or (sep != "\n" and sep != ""):
                raise Unsupported("symbolic lines in the middle of a line")

            def fn(ls, seq=seq, sep=sep):
                x = seq.fn(ls)
                parts = list(x.parts if isinstance(x, StrVal) else (x,))
                if sep == "":
                    if not isinstance(parts[-1], str) or not parts[-1].endswith("\n"):
                        raise Unsupported("symbolic lines without line ends")
                    parts[-1] = parts[-1][:-1]
                return parts
            self.out.append(("rows", seq.dom, fn))
            # joined rows still need a line end; rows carrying their own do not
            self.cur = ["rows"] if sep == "\n" else []


def tokens(parts):
    """whitespace-separated fields of a line: each a list of parts"""
    out, cur = [], []
    for p in parts:
        if not isinstance(p, str):
            cur.append(p)
            continue
        for bit in re.split(r"(\s+)", p):
            if bit == "":
                continue
            if bit.isspace():
                if cur:
                    out.append(cur)
                cur = []
            else:
                cur.append(bit)
    if cur:
        out.append(cur)
    return out


def number(tok):
    """(value, exact or number of significant digits) of a field, None when it is not a formatted number"""
    if len(tok) != 1:
        return None
    p = tok[0]
    if isinstance(p, str):
        try:
            return num(int(p)), "int"
        except ValueError:
            try:
                return num(__import__("fractions").Fraction(p), "R"), "float"
            except ValueError:
                return None
    if p[0] != "fmt":
        return None
    m = re.fullmatch(r"%([-+ 0#]*)(\d*)(?:\.(\d+))?([a-zA-Z])|\{:([<>=^+\- 0#]*)(\d*)(?:\.(\d+))?([a-zA-Z]?)\}", p[1])
    if not m:
        return None
    prec, kind = (m.group(3), m.group(4)) if m.group(4) else (m.group(7), m.group(8))
    v = p[2]
    if kind in ("d", "i"):
        return v, "int"
    if kind in ("e", "E"):
        return v, 1 + int(prec or 6)
    if kind in ("g", "G"):
        return v, int(prec or 6)
    if kind in ("", "r", "s") and prec is None:
        return v, "exact"
    if kind == "f":
        return v, "absolute"
    return None


def literal(parts):
    return "".join(p for p in parts) if all(isinstance(p, str) for p in parts) else None


def value_of(v, x):
    return v.it.t(v.it.np.item_of(x)) if not isinstance(x, T) else x


def is_row(parts):
    """a coefficient row by the reader's rule: False when certainly not, None when not known"""
    ts = tokens(parts)
    if len(ts) < 4:
        # a part that may contain blanks can hide further fields
        return None if any(not isinstance(p, str) and p[0] == "sym" for p in parts) else False
    known = []
    for i, t in enumerate(ts[:4]):
        lit = literal(t)
        if lit is not None:
            try:
                (int if i < 2 else float)(lit)
                known.append(True)
            except ValueError:
                return False
        elif isinstance(t[0], str) and not re.match(r"[-+0-9]", t[0]):
            return False
        else:
            n = number(t)
            known.append(True if n is not None and (i >= 2 or n[1] == "int") else None)
    return True if all(known) else None


def one_block(rows, k, W):
    """rows of all blocks written as one sequence -> (the blocks are those of the W components, rows of block k)"""
    if len(rows) != 1 or rows[0][0] != "rows":
        return None
    _, d, fn = rows[0]
    if d.arity == 3 and d.los[0] is ZERO and d.filt is TRUE and d.vars[0] not in free_vars(d.his[0]):
        order = "lex" if d.order in ("lex", ("lex", "lex")) else None
        m = {d.vars[0]: k}
        inner = Dom(d.vars[1:], tuple(subst(t, m) for t in d.los[1:]), tuple(subst(t, m) for t in d.his[1:]), TRUE, "prod", order)
        return eq(d.his[0], W), ("rows", inner, lambda ls: fn((k,) + tuple(ls)))
    if d.arity == 1 and d.los[0] is ZERO and d.filt is TRUE:
        inner = Lines([StrVal(fn((k,)))]).out
        if len(inner) == 1 and inner[0][0] == "rows":
            return eq(d.his[0], W), inner[0]
    return None


def scalar(v, x):
    x = v.it.np.item(x)
    if isinstance(x, Arr):
        x = x.elem()(tuple((ZERO,) for _ in x.axes))
    return x


def _write(tag, w, degree, order, header, props):
    @unit("io.write.%s.%s" % (tag, w or "any"), props, M + ":write_magnetogram_file" + (" " + M + ":create_swmf_header" if header else ""), cost=2,
          bounded=w and "sets with %d components" % w)
    def u(v):
        it = v.it
        W = num(w) if w else v.dim("W", 1)
        v.it.samplers["W"] = lambda r: r.choice([1, 2, 3, 5, 8])
        c = v.coeffs("c", W, nonneg=order is None)
        it.samplers["D"] = lambda r: r.randint(0, 5)
        it.samplers["om"] = lambda r: r.randint(-5, 0)
        top, om, kw = it.t(scalar(v, v.value(lambda: v.attr(c.obj, "degree_max")))), ZERO, {}
        if degree:
            top = kw["degree_max"] = v.int("D")
            v.require(ge(top, ZERO))
        if order:
            om = kw["order_min"] = v.int("om")
            v.require(le(om, ZERO))
        if header is not None:
            kw["write_swmf_header"] = header
        f = File(v)
        name = StrVal([("sym", "file", var("file", "U"))])
        for _ in v.each(lambda: v.call(M + ":write_magnetogram_file", c.obj, name, **kw), "write"):
            op = [s[1] for s in it.heap[f.opened.cid]]
            v.check("the named file is opened once, replacing what it held", len(op) == 1 and op[0] == (name, "w") or
                    len(op) == 1 and isinstance(op[0][0], StrVal) and op[0][0].parts == name.parts and op[0][1] in ("w", "wt"))
            lines = Lines(f.pieces()).out
            first = next((i for i, x in enumerate(lines) if x[0] != "line"), len(lines))
            head, rows = lines[:first], [x for x in lines[first:] if x != ("line", ())]
            k0 = v.int("k") if w is None else None
            if w is None and len(rows) == 1 and rows[0][0] == "blocks":
                rng = rows[0][1]
                v.check("one block of rows per component", and_(eq(rng.los[0], ZERO), eq(rng.his[0], W)))
                ks = [k0]
                v.require(ge(ks[0], ZERO), lt(ks[0], W))
                text = Lines(rows[0][2](ks[0]))
                rows = [x for x in text.out if x != ("line", ())]
                if not text.ended:
                    v.record("rows", "unknown", "blocks do not end with a line end")
                    continue
                v.check("one block of rows per component", len(rows) == 1)
            elif w is None:
                inner = one_block(rows, k0, W)
                if inner is None:
                    v.record("rows", "unknown", "the rows are not written block by block: %r" % ([(r[0], r[1].vars, r[1].los, r[1].his) for r in rows if r[0] == "rows"],))
                    continue
                rng, rows, ks = inner[0], [inner[1]], [k0]
                v.check("one block of rows per component", rng)
                v.require(ge(k0, ZERO), lt(k0, W))
            else:
                ks = [num(k) for k in range(w)]
            if any(x[0] != "rows" for x in rows):
                v.record("rows", "unknown", "the rows are not written as one line per pair")
                continue
            if w is not None:
                v.check("one block of rows per component", len(rows) == w)
            for i, h in enumerate(head):
                r = is_row(h[1])
                if r is None and header and i == 0:
                    continue        # the file name: assumed not to look like a coefficient row
                if r is None:
                    v.record("header line %d is not a coefficient row" % i, "unknown", repr(h))
                else:
                    v.check("header line %d is not a coefficient row" % i, not r)
            l, m = v.int("l"), v.int("m")
            for k, (_, dom, fn) in zip(ks, rows):
                if dom.arity != 2 or dom.order not in ("lex", ("lex", "lex")):
                    v.record("rows of component %s in increasing order" % k, "unknown", "order %r" % (dom.order,))
                    continue
                v.check("rows of component %s: exactly the requested pairs" % k, eq(dom.pred((l, m)), and_(
                    le(ZERO, l), le(l, top), le(neg(l), m), le(om, m), le(m, l))))
                with v.given(dom.pred((l, m)), le(ZERO, l), le(l, top), le(om, m), le(neg(l), m), le(m, l)):
                    ts = tokens(fn((l, m)))
                    ns = [number(t) for t in ts]
                    v.check("rows have four fields", len(ts) == 4)
                    if len(ts) != 4 or any(n is None for n in ns):
                        v.record("fields are formatted numbers", "unknown", repr(ts))
                        continue
                    v.check("degree and order are written as integers", ns[0][1] == ns[1][1] == "int" or
                            all(n[1] in ("int", "exact") and it.np.item_of(n[0]).sort == "I" for n in ns[:2]))
                    v.check("seven significant digits are kept", all(n[1] == "exact" or isinstance(n[1], int) and n[1] >= 7 for n in ns[2:]))
                    want = c.get(l, m, k)
                    v.check_eq("degree", it.t(scalar(v, ns[0][0])), l)
                    v.check_eq("order", it.t(scalar(v, ns[1][0])), m)
                    v.check_eq("real part", it.t(scalar(v, ns[2][0])), want.re)
                    v.check_eq("imaginary part", it.t(scalar(v, ns[3][0])), want.im)
            if header:
                v.check("five header lines", len(head) == 5)
                if len(head) != 5:
                    continue
                nums = [[number(t) for t in tokens(h[1])] for h in head]
                def fixed(i, want, name):
                    if any(n is None for n in nums[i]):
                        return v.record(name, "unknown", repr(head[i]))
                    v.check(name, len(nums[i]) == len(want))
                    if len(nums[i]) == len(want):
                        for n, q in zip(nums[i], want):
                            if q is not None:
                                v.check_eq(name, it.t(scalar(v, n[0])), q)
                v.check("first line is the file name", head[0][1] == name.parts)
                fixed(1, [ZERO, ZERO, num(-2), num(3), num(2)], "time step, time and dimensions")
                fixed(2, [rows[0][1].size(), ONE], "number of data lines")
                fixed(3, [top, None, None], "maximum degree")
                v.check("column names", literal(head[4][1]) is not None and literal(head[4][1]).split() == ["n", "m", "g", "h", "nOrder", "CR", "dLon"])
            v.unchanged("coefficients unchanged", allow=[f.cell, f.opened])


for _w in (1, 2, 3, None):
    _write("plain", _w, False, None, None, "S06 S07 S26" if _w == 1 else "S06")
    _write("degree", _w, True, None, None, "S06")
    _write("orders", _w, True, True, None, "S06")
    _write("orders_only", _w, False, True, None, "S06")
    _write("swmf", _w, False, None, True, "S06 S07")
    _write("swmf_degree", _w, True, None, True, "S06 S07")
    _write("swmf_orders", _w, True, True, True, "S06 S07")
    _write("swmf_orders_only", _w, False, True, True, "S06 S07")


# ---------------------------------------------------------------------------------------------- S05
class Text:
    """an arbitrary text file: n lines, line i with ntok(i) whitespace-separated fields; the k-th field of line i may read as
    an integer (isint, ival) or as a number (isfloat, fval).  The ghost functions cur, H, V, Lb are the recursive specification:
    block cur(i) is being filled before line i, H(i,k,.,.) and V(i,k,.,.) are the content of block k before line i."""
    def __init__(self, v):
        self.v, it = v, v.it
        self.n = v.int("n")
        v.require(ge(self.n, ZERO))
        self.blocks = None
        it.files, it.tok_int, it.tok_float = self, self.tok_int, self.tok_float
        it.loop_rule = self.rule
        it.contracts["starwinds_magnetogram.coefficients:hstack"] = self.hstack
        self.name = StrVal([("sym", "file", var("file", "U"))])
        self.stacked = []
        self.steps = 0

    # the file
    def open(self, args, kw):
        it = self.v.it
        mode = args[1] if len(args) > 1 else kw.get("mode", "r")
        if mode not in ("r", "rt") or set(kw) - {"mode", "encoding"}:
            raise Unsupported("open")
        if not (isinstance(args[0], StrVal) and args[0].parts == self.name.parts):
            raise Unsupported("another file is opened")
        f = Opaque("file")

        def lines(a=(), k={}):
            return it.new_list((("seq", Seq(range_dom(self.n), lambda ls: self.line(ls[0]))),))

        def text(a, k):
            t = Opaque("text")

            def tattrs(n):
                if n == "splitlines":
                    return Builtin("splitlines", lines)
                raise Unsupported("text." + n)
            t.attrs = tattrs
            return t

        def attrs(n):
            fs = {"readlines": lines, "read": text, "close": lambda a, k: None}
            if n not in fs:
                raise Unsupported("file." + n)
            return Builtin("file." + n, fs[n])
        f.attrs = attrs
        f.iter = lambda: it.heap[lines().cid]
        return f

    def close(self, o):
        pass

    def line(self, i):
        o = Opaque("line", i)
        o.remake = self.line

        def attrs(n):
            if n in ("strip", "rstrip", "lstrip"):
                def strip(a, k):
                    if a and a[0] not in ("\n", "\r\n", " ", None):
                        raise Unsupported("strip")
                    return o
                return Builtin(n, strip)
            if n == "split":
                def split(a, k):
                    if k or [x for x in a if x is not None]:
                        raise Unsupported("split with arguments")
                    return self.fields(i)
                return Builtin(n, split)
            raise Unsupported("line." + n)
        o.attrs = attrs
        return o

    def ntok(self, i):
        t = app("ntok", (i,), "I")
        self.v.it.axiom(ge(t, ZERO))
        return t

    def fields(self, i):
        it = self.v.it
        o = Opaque("fields", i)
        o.remake = self.fields

        def getitem(k):
            if isinstance(k, slice):
                stop = k.stop
                if k.start not in (None, 0) or k.step not in (None, 1) or not isinstance(stop, int) or not 0 <= stop <= 6:
                    raise Unsupported("slice of fields")
                for q in range(stop + 1):
                    if q == stop or it.decide(eq(self.ntok(i), num(q))):
                        return it.list_of([self.token(i, num(j)) for j in range(q)])
            if isinstance(k, T):
                k = it.conc_int(k)
            if not isinstance(k, int):
                raise Unsupported("index of fields")
            if not it.decide(gt(self.ntok(i), num(k)) if k >= 0 else ge(self.ntok(i), num(-k))):
                raise PyRaise("IndexError", "list index out of range")
            return self.token(i, num(k) if k >= 0 else add(self.ntok(i), num(k)))
        o.getitem = getitem
        o.len = lambda: self.ntok(i)
        return o

    def token(self, i, k):
        o = Opaque("field", (i, k))
        o.remake = lambda term: self.token(*term)
        return o

    def isint(self, i, k):
        return app("isint", (i, num(k)), "B")

    def isfloat(self, i, k):
        return or_(self.isint(i, k), app("isfloat", (i, num(k)), "B"))

    def tok_int(self, o):
        if o.name != "field":
            raise Unsupported("int() of " + o.name)
        if not self.v.it.decide(app("isint", o.term, "B")):
            raise PyRaise("ValueError", "invalid literal for int()")
        return app("ival", o.term, "I")

    def tok_float(self, o):
        if o.name != "field":
            raise Unsupported("float() of " + o.name)
        if not self.v.it.decide(or_(app("isint", o.term, "B"), app("isfloat", o.term, "B"))):
            raise PyRaise("ValueError", "could not convert string to float")
        return app("fval", o.term, "R")

    # the specification
    def accepted(self, i):
        return and_(ge(self.ntok(i), num(4)), self.isint(i, 0), self.isint(i, 1), self.isfloat(i, 2), self.isfloat(i, 3))

    def pair(self, i):
        return app("ival", (i, ZERO), "I"), app("ival", (i, ONE), "I")

    def number(self, i):
        return app("fval", (i, num(2)), "R"), app("fval", (i, num(3)), "R")

    def cur(self, i):
        return app("cur", (i,), "I")

    def dom(self, i, k):
        l, m = var("kl$", "I"), var("km$", "I")
        return Dom((l, m), (ZERO, neg(l)), (app("Lb", (i, k), "I"), add(l, ONE)), app("H", (i, k, l, m), "B"), "keys", "lex")

    def holds(self, i, k, l, m):
        return self.dom(i, k).pred((l, m))

    def val(self, i, k, l, m):
        return Cx(app("Vre", (i, k, l, m), "R"), app("Vim", (i, k, l, m), "R"))

    def next_cur(self, i):
        l, m = self.pair(i)
        return ite(and_(self.accepted(i), self.holds(i, self.cur(i), l, m)), add(self.cur(i), ONE), self.cur(i))

    def next_holds(self, i, k, l, m):
        a, b = self.pair(i)
        old = and_(le(k, self.cur(i)), self.holds(i, k, l, m))
        return or_(old, and_(self.accepted(i), eq(k, self.next_cur(i)), eq(l, a), eq(m, b)))

    def next_val(self, i, k, l, m):
        a, b = self.pair(i)
        here = and_(self.accepted(i), eq(k, self.next_cur(i)), eq(l, a), eq(m, b))
        x, y = self.val(i, k, l, m), self.number(i)
        return Cx(ite(here, y[0], x.re), ite(here, y[1], x.im))

    # the loop rule
    def is_set(self, o):
        return isinstance(o, Obj) and o.cls.name == "Coefficients"

    def rule(self, seq, st, env):
        v, it = self.v, self.v.it
        i = v.int("i")
        try:
            x = seq.fn((i,))
        except Exception:
            return False
        has_line = lambda q: isinstance(q, Opaque) and q.name == "line" and q.term is i or isinstance(q, tuple) and any(map(has_line, q))
        if seq.dom.arity != 1 or not has_line(x) or seq.dom.his[0] is not self.n or seq.dom.filt is not TRUE:
            return False
        frame = it.heap[env.cid]
        lists = [q for q in frame.values() if isinstance(q, ListRef) and it.heap[q.cid] and
                 all(s[0] == "one" and self.is_set(s[1]) for s in it.heap[q.cid])]
        if len({q.cid for q in lists}) != 1:
            return False
        lst = lists[0]
        first = it.heap[lst.cid]
        # initialisation: one empty set with a single zero as default
        ok = len(first) == 1
        v.check("loop: starts with one block", ok)
        if not ok:
            return False
        start_obj = first[0][1]
        l, m = v.int("lq"), v.int("mq")
        v.check("loop: the first block is empty", not_(has(v, start_obj, l, m)))
        d = v.value(lambda: v.attr(start_obj, "default_coefficients"))
        v.check_arr("loop: default of a block", d, [1], lambda k: Cx(ZERO, ZERO), None, "complex")
        base = dict(it.heap)
        aliases = [n for n, q in frame.items() if self.is_set(q) and q.cid == start_obj.cid]
        pc = it.pc
        saved = it.snapshot()
        # an arbitrary iteration
        facts = [ge(i, ZERO), lt(i, self.n), ge(self.cur(i), ZERO)]
        it.pc = it.pc.child(facts)
        a, b = self.pair(i)
        it.pc = it.pc.child([or_(not_(self.accepted(i)), and_(ge(a, ZERO), le(b, a), le(neg(a), b)), ), ge(app("Lb", (i, self.cur(i)), "I"), ZERO)])
        box = {}

        class G:
            pass
        g = G()
        g.dom = self.dom(i, self.cur(i))
        g.at = lambda l, m, k: self.val(i, self.cur(i), l, m)
        last = v.build(lambda: v.fill(g, v.arr_of([v.axis(ONE)], lambda k: Cx(ZERO, ZERO), "complex"), v.axis(ONE), "complex"))
        prefix = ("seq", Seq(range_dom(self.cur(i)), lambda ls: self.block(i, ls[0])))
        it.heap = dict(it.heap)
        it.heap[lst.cid] = (prefix, ("one", last))
        fr = dict(it.heap[env.cid])
        for n in aliases:
            fr[n] = last
        assigned = {n.id for s in st.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in assigned:
            if n in fr and n not in aliases and n in base[env.cid]:
                fr[n] = Poison("value carried between the lines")
        it.heap[env.cid] = fr
        before = dict(it.heap)

        def thunk():
            it.assign(st.target, seq.fn((i,)), env)
            it.exec_block(st.body, env)
        mine = {last.cid} | self.reach(last, before)
        for p in it.explore(thunk):
            with v.at(p):
                if p.kind == "raise":
                    v.check("loop: no %s" % p.value.etype, FALSE, detail=str(p.value))
                    continue
                if p.kind not in ("ok", "continue"):
                    v.record("loop: a line ends the reading", "unknown", p.kind)
                    continue
                for cid, c in before.items():
                    if it.heap.get(cid) is not c and cid not in mine and cid not in (env.cid, lst.cid) and not self.same_cell(c, it.heap.get(cid)):
                        v.record("loop: a line changes only the current block", "unknown", "cell %s" % cid)
                segs = it.heap[lst.cid]
                if not segs or segs[0] is not prefix or any(s[0] != "one" or not self.is_set(s[1]) for s in segs[1:]):
                    v.record("loop: list of blocks", "unknown", repr(segs)[:200])
                    continue
                objs = [s[1] for s in segs[1:]]
                v.check_eq("loop: number of blocks", add(self.cur(i), num(len(objs))), add(self.next_cur(i), ONE))
                v.check("loop: the current block is continued", bool(objs) and objs[0].cid == last.cid)
                for n in aliases:
                    q = it.heap[env.cid].get(n)
                    v.check("loop: the current block is the last one", self.is_set(q) and q.cid == objs[-1].cid)
                for j, o in enumerate(objs):
                    k = add(self.cur(i), num(j))
                    with v.given(ge(l, ZERO), le(m, l), le(neg(l), m)):
                        v.check("loop: pairs of block", eq(has(v, o, l, m), self.next_holds(i, k, l, m)))
                        with v.given(self.next_holds(i, k, l, m)):
                            v.check_arr("loop: values of block", get(v, o, l, m), [1], lambda _: self.next_val(i, k, l, m), None, "complex")
                    d = v.value(lambda: v.attr(o, "default_coefficients"))
                    v.check_arr("loop: default of block", d, [1], lambda k: Cx(ZERO, ZERO), None, "complex")
                v.fresh_result(objs[-1], "loop: blocks share no storage")
                self.steps += 1
        it.restore(saved)
        # after the last line
        it.heap = dict(base)
        it.pc = pc.child([ge(self.cur(self.n), ZERO)])
        it.heap[lst.cid] = (("seq", Seq(range_dom(add(self.cur(self.n), ONE)), lambda ls: self.block(self.n, ls[0]))),)
        fr = dict(it.heap[env.cid])
        for n in assigned | set(aliases):
            fr[n] = Poison("value of the last line")
        it.heap[env.cid] = fr
        return True

    def same_cell(self, a, b):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) <= set(b) and all(a[k] is b[k] for k in a)

    def reach(self, o, heap):
        out, todo = set(), [o]
        while todo:
            q = todo.pop()
            if isinstance(q, (Obj, ListRef, DictRef)) and q.cid not in out:
                out.add(q.cid)
                c = heap.get(q.cid)
                if isinstance(c, dict):
                    todo += list(c.values())
            elif isinstance(q, Arr):
                out.add(q.cid)
        return out

    def block(self, i, k):
        o = Opaque("block", (i, k))
        o.remake = lambda term: self.block(*term)

        def attrs(n):
            if n == "size":
                return app("blocksize", (i, k), "I")
            raise Unsupported("block." + n)
        o.attrs = attrs
        return o

    def hstack(self, it, f, args, kwargs):
        """stacking any number of single-component sets (the postcondition proved by coefficients.hstack.any)"""
        segs = it.segments(args[0])
        if len(segs) != 1 or segs[0][0] != "seq":
            return NotImplemented
        seq = segs[0][1]
        k = fresh("k", "I")
        o = seq.fn((k,))
        if not (isinstance(o, Opaque) and o.name == "block" and o.term[0] is self.n and o.term[1] is k and seq.dom.kind == "range"):
            raise Unsupported("stack of something else")
        v = self.v
        v.check_eq("every block is stacked", seq.dom.his[0], add(self.cur(self.n), ONE))

        class G:
            pass
        g = G()
        l, m = var("kl$", "I"), var("km$", "I")
        q = fresh("k", "I")
        any_ = lambda l, m: binder("exists", (q,), (ZERO,), (add(self.cur(self.n), ONE),), TRUE, self.holds(self.n, q, l, m))
        top = var("Ltop", "I")
        g.dom = Dom((l, m), (ZERO, neg(l)), (top, add(l, ONE)), any_(l, m), "keys", "lex")
        g.at = lambda l, m, k: Cx(ite(self.holds(self.n, k, l, m), self.val(self.n, k, l, m).re, ZERO),
                                  ite(self.holds(self.n, k, l, m), self.val(self.n, k, l, m).im, ZERO))
        it.axiom(ge(top, ZERO))
        ax = v.axis(add(self.cur(self.n), ONE))
        self.g = g
        self.stacked.append(v.fill(g, v.arr_of([ax], lambda k: Cx(ZERO, ZERO), "complex"), ax, "complex"))
        return self.stacked[-1]


@unit("io.read", "S05 S26", M + ":read_magnetogram_file", cost=2)
def u_read(v):
    t = Text(v)
    for o in v.each(lambda: v.call(M + ":read_magnetogram_file", t.name), "read"):
        v.check("the stacked blocks are returned", isinstance(o, Obj) and any(o.cid == q.cid for q in t.stacked))
        v.check("every line is read", t.steps > 0)
        if t.stacked:
            same_set(v, "result", o, lambda l, m: t.g.dom.pred((l, m)), t.g.at, add(t.cur(t.n), ONE))
