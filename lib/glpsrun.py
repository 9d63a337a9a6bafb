"""Lattice texts, as token sequences with symbolic numbers, taken through GLPSParser by the analysis of lib/glps.py."""
import facts
from glps import *

PARSER, TEXT = (("P", "parser"),), (("P", "text"),)


def num(i):
    return init((("P", "num"), "n%d" % i))


def tokens(text):
    """@k is a number about which nothing is known"""
    out, lines = [], []
    for k, ln in enumerate(text.split("\n")):
        for w in ln.split():
            lines.append(k + 1)
            if w[0] == "@":
                out.append(("NUM", num(int(w[1:]))))
            elif w[0].isdigit():
                out.append(("NUM", c(float(w))))
            elif w[0] == '"':
                out.append(("STR", w.strip('"')))
            elif w == "$":
                out.append(("BAD", None))
            elif w[0].isalpha():
                out.append(("KEYWORD", w))
            else:
                out.append(("'%s'" % w, None))
    return out, lines + [lines[-1] if lines else 1]


class Outcome:
    """what one way through the parser gives"""
    def __init__(self, E, st, val, exc):
        self.E, self.st, self.val, self.exc = E, st, val, exc
        self.parsed = E.rawread(st, (("G", "parsed"),)) is c(1)
        self.live = st.cl[0]

    def message(self):
        x = self.exc
        if x.val is None or x.val.k != "addr":
            return None
        return self.E.read(self.st, x.val.a[0] + (".#what",))

    def lineno(self):
        """the first number in the message"""
        m = self.message()
        def first(v):
            if v is None:
                return None
            if v.k == "c" and isinstance(v.a[1], int) and not isinstance(v.a[1], bool):
                return v.a[1]
            if v.k == "op":
                for x in v.a[1:]:
                    if isinstance(x, V):
                        r = first(x)
                        if r is not None:
                            return r
            return None
        return first(m)

    def config(self, loc=None):
        """{name: (kind, value)}"""
        E, st, cl = self.E, self.st, self.E.cl
        loc = self.val.a[0] if loc is None else loc
        return self.table(loc + (".#m",))

    def table(self, m):
        E, st, cl = self.E, self.st, self.E.cl
        out = {}
        n = cl.sizeof(E, st, m)
        for i in range(n or 0):
            k = sval(E.read(st, m + ("[%d]" % i, ".first")))
            kd = E.rawread(st, m + ("[%d]" % i, ".second", KIND))
            l = m + ("[%d]" % i, ".second", VAL)
            kind = kd.a[1] if kd.k == "c" else None
            if kind == "number":
                v = E.read(st, l)
            elif kind == "string":
                v = sval(E.read(st, l))
            elif kind == "vector":
                v = [E.read(st, l + ("[%d]" % j,)) for j in range(cl.sizeof(E, st, l) or 0)] if cl.sizeof(E, st, l) is not None else None
            elif kind == "configs":
                z = cl.sizeof(E, st, l)
                v = None if z is None else [(self.table(l + ("[%d]" % j, ".#m")), self.table(l + ("[%d]" % j, ".#parent")), E.rawread(st, l + ("[%d]" % j, ".#from"))) for j in range(z)]
            else:
                v = E.read(st, l)
            out[k.a[1] if k.k == "c" else k] = (kind, v)
        return out


class Run:
    def __init__(self, P):
        self.P = P
        self.G = Grammar(P, os.path.join(P.dir, "gen", "glps.xml"))
        self.cl = Glps(P)
        self.E = GEngine(P, self.cl, cap=600, unroll=400, maxsteps=4000000)
        self.E.memo = {}
        self.cl.M = self.M = Machine(P, self.G, self.E)
        self.cl.on_parse = self.on_parse
        st = St()
        st.cl = (frozenset(), frozenset())
        st.dyn[PARSER] = "GLPSParser"
        self.st0 = self.call(self.fn("GLPSParser::GLPSParser", 0), st, [])[0][0]
        self.runs = 0

    def on_parse(self, E, st, e, M):
        E.setcell(st, (("G", "parsed"),), c(1))
        l = self.cl.hloc(M.scanner)
        buf = E.rawread(st, l + (".buf",)) if l else top()
        src = E.rawread(st, buf.a[0] + (".src",)) if buf.k == "addr" else None
        E.setcell(st, (("G", "input"),), src if src is not None else c("nothing"))
        if l:
            self.cl.used(E, st, l, e)

    def fn(self, q, n, t0=None):
        r = [f for f in self.P.fn(q, n) if "body" in f and (t0 is None or t0 in f["params"][0]["t"])]
        if not r:
            raise Broken("function %s not found" % q)
        return r[0]

    def call(self, fn, st, args):
        self.E.exc = []
        self.E.fr, self.E.stack = None, []
        return self.E.call_fn(fn, st, addr(PARSER), args)

    def setvar(self, st, name, kind, val):
        t = (("P", "var-" + name),)
        n = (("P", "name-" + name),)
        st = st.copy()
        E = self.E
        E.setcell(st, n, c(name))
        E.setcell(st, t, mk("op", "variant"))
        E.setcell(st, t + (KIND,), c(kind))
        if kind == "vector":
            E.setcell(st, t + (VAL,), mk("op", "vector"))
            for i, x in enumerate(val):
                E.setcell(st, t + (VAL, "[%d]" % i), x)
            self.cl.setsize(E, st, t + (VAL,), len(val))
        elif kind == "configs":
            E.setcell(st, t + (VAL,), mk("op", "vector"))
            self.cl.setsize(E, st, t + (VAL,), 0)
        else:
            E.setcell(st, t + (VAL,), val)
        r = self.call(self.fn("GLPSParser::setVar", 2), st, [addr(n), addr(t)])
        return r[0][0]

    def parse(self, text, st=None, entry="string"):
        """-> outcomes"""
        self.runs += 1
        self.M.toks, self.M.lines = tokens(text) if isinstance(text, str) else text
        st = (st or self.st0).copy()
        E = self.E
        E.setcell(st, (("G", "parsed"),), c(0))
        if entry == "string":
            E.setcell(st, TEXT, mk("op", "whole"))
            r = self.call(self.fn("GLPSParser::parse_byte", 2, "string"), st, [addr(TEXT), NULL])
        elif entry == "bytes":
            r = self.call(self.fn("GLPSParser::parse_byte", 3), st, [mk("op", "whole"), op("size", mk("op", "whole")), NULL])
        elif entry == "stdin":
            r = self.call(self.fn("GLPSParser::parse_file", 2, "char"), st, [c("-"), c(1)])
        elif entry == "null":
            r = self.call(self.fn("GLPSParser::parse_file", 2, "char"), st, [NULL, c(1)])
        elif entry == "file":
            r = self.call(self.fn("GLPSParser::parse_file", 2, "char"), st, [c("some.lat"), c(1)])
        elif entry == "nolattice":
            r = self.call(self.fn("GLPSParser::parse_file", 2, "char"), st, [c("some.lat"), c(0)])
        out = [Outcome(E, s, v, None) for s, v in r]
        out += [Outcome(E, x.st, None, x) for x in E.exc]
        E.exc = []
        return out

    def destroy(self, st):
        """the parser object goes away"""
        E = self.E
        E.fr, E.stack, E.exc = None, [], []
        return E.destroy(st.copy(), PARSER, E.dtor_of("GLPSParser"), "GLPSParser", None)


FUNCS = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan, "fabs": abs, "sqrt": math.sqrt, "exp": math.exp, "log": math.log}


def value(v, env):
    """the number a term stands for at one point"""
    if v.k == "c":
        return float(v.a[1])
    if v.k == "init" and v.a[0][0] == ("P", "num"):
        return env[v.a[0][1]]
    if v.k == "op":
        o, xs = v.a[0], v.a[1:]
        if o.startswith("call:"):
            f = FUNCS.get(o[5:].split("::")[-1])
            if f and len(xs) == 1:
                return f(value(xs[0], env))
            raise ValueError(o)
        if o in ("neg",):
            return -value(xs[0], env)
        ys = [value(x, env) for x in xs]
        if o == "+" and len(ys) >= 2:
            return sum(ys)
        if o == "*" and len(ys) >= 2:
            return math.prod(ys)
        if o == "-" and len(ys) == 2:
            return ys[0] - ys[1]
        if o == "-" and len(ys) == 1:
            return -ys[0]
        if o == "/" and len(ys) == 2:
            return ys[0] / ys[1]
    raise ValueError(show(v))


POINTS = [{"n1": 0.31, "n2": -0.57, "n3": 0.83, "n4": 0.19}, {"n1": -0.92, "n2": 0.43, "n3": -0.27, "n4": 0.66}]


def same(v, expr):
    """a term equals a formula"""
    ns = {"pi": math.pi, "rad": math.radians, "deg": math.degrees}
    ns.update(FUNCS)
    try:
        for env in POINTS:
            a, b = value(v, env), eval(expr, ns, env)
            if not (abs(a - b) <= 1e-12 * max(1, abs(a), abs(b))):
                return False
    except (ValueError, ArithmeticError, KeyError):
        return False
    return True
