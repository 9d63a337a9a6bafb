"""C14: a lattice file means what it says.

Token sequences which cover every production, every pair of operators and every callback are taken through the LALR
automaton (bison's own tables) with the semantic actions interpreted abstractly: numbers are symbols, every other value
is the case considered.  What arrives in the Config is compared with what the text says."""
from glpsrun import *
import lexer

LAT = "a : drift ; b : quad ; "
OPS = "+-*/"
FNS = {"sin": "sin(n1)", "cos": "cos(n1)", "tan": "tan(n1)", "asin": "asin(n1)", "acos": "acos(n1)", "atan": "atan(n1)",
       "arcsin": "asin(n1)", "arccos": "acos(n1)", "arctan": "atan(n1)", "deg2rad": "rad(n1)", "rad2deg": "deg(n1)"}


def py(s):
    return s.replace("@", "n")


def cases():
    """(what, text, expected); expected is (variables, line, [(name, type, props)]) or the line of the error, 0 for one without"""
    end = "\n" + LAT + "l : LINE = ( a ) ;"
    L = ("l", [("a", "drift", {})])

    def val(what, expr, exp=None, pre="", vs=None):
        v = dict(vs or {})
        v["x"] = exp if exp is not None else ("number", py(expr))
        return (what, pre + "x = " + expr + " ;" + end, (v,) + L)
    out = []
    A = "arithmetic"
    out.append(val(A, "@1"))
    for o in OPS:
        out.append(val(A, "@1 %s @2" % o))
        for p in OPS:
            out.append(val(A, "@1 %s @2 %s @3" % (o, p)))
            out.append(val(A, "@1 %s ( @2 %s @3 )" % (o, p)))
            out.append(val(A, "( @1 %s @2 ) %s @3" % (o, p)))
        out.append(val(A, "- @1 %s @2" % o))
        out.append(val(A, "@1 %s - @2" % o))
        out.append(val(A, "- ( @1 %s @2 )" % o))
    out.append(val(A, "- - @1"))
    out.append(val(A, "- @1 - - @2 - @3"))
    out.append(val(A, "@1 - @2 - @3 - @4"))
    out.append(val(A, "@1 / @2 * @3 / @4"))
    for f, e in FNS.items():
        out.append(val("functions", "%s ( @1 )" % f, ("number", e)))
        out.append(val("functions", "@2 - %s ( @1 ) * @3" % f, ("number", "n2-%s*n3" % e)))
    V = "variables"
    out.append(val(V, "y - z", ("number", "n1-n2"), "y = @1 ; z = @2 ; ", {"y": ("number", "n1"), "z": ("number", "n2")}))
    out.append(val(V, "y", ("string", "text"), 'y = "text" ; ', {"y": ("string", "text")}))
    out.append(val(V, "y", ("vector", ["n1", "n2"]), "y = [ @1 , @2 ] ; ", {"y": ("vector", ["n1", "n2"])}))
    out.append(val(V, "pi", ("number", "pi")))
    out.append(val(V, "2 * pi", ("number", "2*pi")))
    out.append(val(V, "pi", ("number", "n4"), "pi = @4 ; ", {"pi": ("number", "n4")}))
    for n in range(5):
        out.append(val("vectors", "[ %s ]" % " , ".join("@%d" % (i + 1) for i in range(n)), ("vector", ["n%d" % (i + 1) for i in range(n)])))
    out.append(val("vectors", "[ @1 - @2 , - y , sin ( @3 ) ]", ("vector", ["n1-n2", "-n4", "sin(n3)"]), "y = @4 ; ", {"y": ("number", "n4")}))
    out.append(val("strings", '"some"', ("string", "some")))
    out.append(val("strings", '""', ("string", "")))
    # elements
    out.append(("elements", "a : drift , L = @1 , s = \"t\" , v = [ @2 , @3 ] , k = @1 - y * 2 ; b : quad , L = @2 ; l : LINE = ( a , b , a ) ;".replace("y", "@4"),
                ({}, "l", [("a", "drift", {"L": ("number", "n1"), "s": ("string", "t"), "v": ("vector", ["n2", "n3"]), "k": ("number", "n1-n4*2")}),
                           ("b", "quad", {"L": ("number", "n2")}),
                           ("a", "drift", {"L": ("number", "n1"), "s": ("string", "t"), "v": ("vector", ["n2", "n3"]), "k": ("number", "n1-n4*2")})])))
    out.append(("elements", "y = @1 ; b : quad , L = y ; a : drift ; z = @2 ; l : LINE = ( b , a ) ; w = @3 ;",
                ({"y": ("number", "n1"), "z": ("number", "n2"), "w": ("number", "n3")}, "l", [("b", "quad", {"L": ("number", "n1")}), ("a", "drift", {})])))
    # beam lines
    def line(text, names, lab="l", pre=""):
        t = {"a": "drift", "b": "quad", "d": "sbend"}
        return ("beam lines", LAT + "d : sbend ; " + pre + text, ({}, lab, [(n, t[n], {}) for n in names.split()]))
    out.append(line("l : LINE = ( a , b , d ) ;", "a b d"))
    out.append(line("l : line = ( b , a ) ;", "b a"))
    out.append(line("l : Line = ( b ) ;", "b"))
    pre = "m : LINE = ( a , b , d ) ; "
    for e, n in (("m", "a b d"), ("- m", "d b a"), ("a , m , b", "a a b d b"), ("b , - m , a", "b d b a a"), ("2 * m", "a b d a b d"), ("m * 2", "a b d a b d"),
                 ("3 * a", "a a a"), ("- ( 2 * m ) , a", "d b a d b a a"), ("2 * - m", "d b a d b a"), ("b , 2 * a , d", "b a a d"), ("- a , b", "a b"), ("a , 0 * m , b", "a b"),
                 ("1 * m , m", "a b d a b d"), ("- - m", "a b d"), ("m , - m", "a b d d b a"), ("257 * a", " ".join(["a"] * 257)), ("2.0 * a", "a a")):
        out.append(line("l : LINE = ( %s ) ;" % e, n, "l", pre))
    out.append(line("n : LINE = ( m , d ) ; l : LINE = ( - n , n ) ;", "d d b a a b d d", "l", pre))
    out.append(line("l : LINE = ( b ) ;", "b", "l", pre))
    out.append(line("l : LINE = ( b ) ; USE : m ;", "a b d", "m", pre))
    out.append(line("use : m ; l : LINE = ( b ) ;", "b", "l", pre))
    out.append(line("USE1 : m ; l : LINE = ( b ) ;", "b", "l", pre))
    out.append(line("k : LINE = ( d ) ; l : LINE = ( b ) ; i : LINE = ( a , d ) ;", "a d", "i", pre))
    out.append(line("k : LINE = ( d ) ; z : LINE = ( b ) ; i : LINE = ( a , d ) ; l : LINE = ( b , a ) ;", "b a", "l", pre))
    out.append(line("USE : l ; l : LINE = ( b ) ; n : LINE = ( a ) ;", "b", "l", pre))
    out.append(line("l : LINE = ( b ) ; END ;", "b", "l", pre))
    out.append(line("print ( 1 ) ; l : LINE = ( b ) ;", "b", "l", pre))
    # what must be refused
    def err(what, text, k=2):
        return (what, "q = @1 ;\n" + text + "\n" + LAT + "l : LINE = ( a ) ;", k)
    R = "refused"
    for t in ("E ;", "EN ;", "ENDX ;", "end ;", "prin ( 1 ) ;", "printx ( 1 ) ;", "Print ( 1 ) ;", "x = Sin ( 1 ) ;", "x = sinx ( 1 ) ;", "x = si ( 1 ) ;", "x = PI ;", "x = p ;", "x = pix ;", "x = Q ;",
              "e : drift ; m : LIN = ( e ) ;", "e : drift ; m : LINES = ( e ) ;", "e : drift ; m : LINE = ( E ) ;", "e : drift ; m : LINE = ( - 0.5 * e ) ;", "e : drift ; m : LINE = ( e * - 0.5 ) ;", "e : drift ; m : LINE = ( 4294967296 * e ) ;",
              "x = @1 ; x = @2 ;", "q = @2 ;", "x = nope ;", "x = nope + 1 ;", "x = y ; y = 1 ;", "x = [ \"s\" ] ;", "x = [ [ 1 ] ] ;", "x = [ @1 , \"s\" , @2 ] ;",
              "x = \"s\" + 1 ;", "x = 1 + \"s\" ;", "x = \"s\" + \"t\" ;", "x = - \"s\" ;", "x = [ 1 ] * 2 ;", "x = 2 * [ 1 ] ;", "x = [ 1 ] + [ 1 ] ;", "x = sin ( \"s\" ) ;", "x = sin ( [ 1 ] ) ;",
              "x = nosuch ( 1 ) ;", "x = file ( 1 ) ;", "x = parse ( 1 ) ;", "FOO ;", "foo ( 1 ) ;", "e : drift , L = nope ;",
              "e : drift ; e : quad ;", "e : drift ; x = e ;", "e : drift ; m : LINE = ( e ) ; m : LINE = ( e , e ) ;", "m : FOO = ( ) ;", "m : LINE = ( 1 ) ;", "m : LINE = ( \"s\" ) ;", "m : LINE = ( nope ) ;",
              "e : drift ; m : LINE = ( e , 1 ) ;", "e : drift ; m : LINE = ( e ) ; x = m ;", "e : drift ; m : LINE = ( - 1 * e ) ;", "e : drift ; m : LINE = ( 10000000000 * e ) ;", "e : drift ; m : LINE = ( e * e ) ;",
              "e : drift ; m : LINE = ( e + e ) ;", "e : drift ; m : LINE = ( e - e ) ;", "e : drift ; m : LINE = ( e / 2 ) ;", "e : drift ; m : LINE = ( \"2\" * e ) ;", "e : drift ; f : quad ; m : LINE = ( e ) ; x = sin ( m ) ;",
              "x = 1", "x 1 ;", "= 1 ;", "x = ;", "x = 1 + ;", "x = ( 1 ;", "x = [ 1 ;", "x = [ 1 2 ] ;", "e : ;", "e drift ;", "e : drift , ;", "e : drift , L ;", "e : drift , L = ;", "e : drift L = 1 ;",
              "m : LINE = ;", "m : LINE ( ) ;", "m : LINE = ( ;", "print ( ;", "x = sin ( ;", "x = sin ( 1 , 2 ) ;", "1 ;", "x = 1 * / 2 ;", "x = ) ;", "x = ] ;", ", ;", "x = * 2 ;", "x = + 2 ;", "x = / 2 ;", "e : drift , L = 1 ] ;"):
        t2 = err(R, t)
        if t == "x = 1":
            t2 = (R, "q = @1 ;\nx = 1\n\n" + LAT, 4)
        out.append(t2)
    for t in ("$", "x = $ 1 ;", "x = 1 $", "e : drift , $", "m : LINE = ( $", "x = [ 1 , $", "x = sin ( $"):
        out.append(err("refused character", t))
    # two errors: the first is reported
    out.append((R + " (first of two)", "q = @1 ;\nx = nope ;\n\n$", 2))
    out.append((R + " (first of two)", "q = @1 ;\nFOO ;\n\n$", 2))
    out.append((R + " (first of two)", "q = @1 ;\nx = nope ;\ny = 1 +\n;\n" + LAT, 2))
    for t in ("q = @2 ;", "FOO ;", "foo ( 1 ) ;", "e : drift ; e : quad ;", "m : FOO = ( ) ;", "e : drift ; x = e ;", "e : drift ; m : LINE = ( e ) ; m : LINE = ( e ) ;"):
        for t2 in ("y = nope ;", "y = \"s\" + 1 ;", "FOO ;", "x = ;", "g : quad ; m : LINE = ( - 1 * g ) ;", "q = @3 ;"):
            out.append((R + " (first of two)", "q = @1 ;\n%s\n\n%s\n%sl : LINE = ( a ) ;" % (t, t2, LAT), 2))
    N = "refused when the lattice is put together"
    out.append((N, "x = @1 ;", 0))
    out.append((N, "a : drift ;", 0))
    out.append((N, LAT + "l : LINE = ( ) ;", 0))
    out.append((N, LAT + "m : LINE = ( a ) ; l : LINE = ( ) ;", 0))
    out.append((N, LAT + "l : LINE = ( a ) ; USE : m ;", 0))
    out.append((N, LAT + "m : LINE = ( ) ; l : LINE = ( a ) ; USE : m ;", 0))
    out.append((N, LAT + "l : LINE = ( 0 * a ) ;", 0))
    out.append((N, "", 0))
    return out


def differs(got, want):
    """None, or how a value differs from what the text says"""
    kind, v = got
    if kind != want[0]:
        return "is a %s and not a %s" % (kind, want[0])
    if kind == "number":
        return None if same(v, want[1]) else "is %s and not %s" % (show(v, 60), want[1])
    if kind == "string":
        w = c(want[1]) if isinstance(want[1], str) else want[1]
        return None if place(v) is w else "is %s and not '%s'" % (show(v, 60), want[1])
    if kind == "configs":
        if v is None or len(v) != 1 or place(v[0][2]) is not want[1]:
            return "is not what is in the file named"
    if kind == "vector":
        if v is None or len(v) != len(want[1]):
            return "has %s elements and not %d" % ("?" if v is None else len(v), len(want[1]))
        for i, (x, y) in enumerate(zip(v, want[1])):
            if not same(x, y):
                return "has %s and not %s at position %d" % (show(x, 40), y, i)
    return None


def place(v):
    """a path, however it is put together: resolve(directory, name)"""
    if v.k != "op":
        return v
    o, xs = v.a[0], [place(x) for x in v.a[1:]]
    cwd = mk("op", "current_path")
    if o in ("canonical", "absolute") and xs:
        if xs[0].k == "op" and xs[0].a[0] == "/" and len(xs[0].a) == 3:
            d = xs[0].a[1]
            if d is cwd or d.k == "op" and d.a[0] in ("resolve", "parent") or len(xs) == 1:
                return place(op(o, xs[0].a[2], d))
        if xs[0] is cwd or xs[0].k == "op" and xs[0].a[0] in ("resolve", "parent"):
            return xs[0]
        return op("resolve", xs[1] if len(xs) > 1 else cwd, xs[0])
    return op(o, *xs)


def table(got, want, what):
    for k in want:
        if k not in got:
            return "%s '%s' is missing" % (what, k)
        d = differs(got[k], want[k])
        if d:
            return "%s '%s' %s" % (what, k, d)
    return None


def compare(o, exp, lattice=True):
    vs, lab, elems = exp
    cf = o.config()
    d = table(cf, vs, "variable")
    if d:
        return d
    extra = set(cf) - set(vs) - ({"name", "elements"} if lattice else set())
    if extra:
        return "there is a variable '%s'" % sorted(map(str, extra))[0]
    if not lattice:
        return None
    d = table(cf, {"name": ("string", lab)}, "the beam line's")
    if d:
        return d
    if "elements" not in cf or cf["elements"][0] != "configs" or cf["elements"][1] is None:
        return "there are no elements"
    got = cf["elements"][1]
    names = [g[0].get("name", (0, c("?")))[1] for g in got]
    if len(got) != len(elems):
        return "the line has %d elements and not %d" % (len(got), len(elems))
    for i, (g, (n, t, props)) in enumerate(zip(got, elems)):
        w = dict(props)
        w["name"], w["type"] = ("string", n), ("string", t)
        d = table(g[0], w, "element %d: property" % i)
        if d:
            return d
        ex = set(g[0]) - set(w)
        if ex:
            return "element %d has a property '%s'" % (i, sorted(map(str, ex))[0])
        d = table(g[1], vs, "element %d: the inherited variable" % i)
        if d:
            return d
    return None


def nonfinite(st):
    return any(v.k == "op" and v.a[0] == "isfinite" and r is False for v, r in st.facts.items())


def finite(st):
    return [v.a[1] for v, r in st.facts.items() if v.k == "op" and v.a[0] == "isfinite" and r is True]


def quotients(v, acc):
    if v.k == "op":
        if v.a[0] == "/":
            acc.append(v)
        for x in v.a[1:]:
            if isinstance(x, V):
                quotients(x, acc)
    return acc


def judge(R, what, text, exp, outs, lattice=True, mayfail=0, rule=None, src=None):
    short = " ".join(text.split())
    short = short if len(short) < 90 else short[:87] + "..."
    name = "%s: %s" % (what, short)
    outs = [o for o in outs if o.parsed]
    if not outs:
        raise Broken("the analysis does not reach the end of '%s'" % short)
    bad = None
    if isinstance(exp, int):
        rule = rule or "an error in the text is reported, with its line"
        for o in outs:
            if o.exc is None:
                bad = "the text is accepted"
            elif exp and o.lineno() != exp and not nonfinite(o.st):
                bad = "the error on line %d is reported as on line %s" % (exp, o.lineno())
            elif not exp and o.lineno() is not None:
                bad = "a text without a mistake in it is said to have one on line %s" % o.lineno()
    else:
        rule = rule or "the Config is what the text says"
        good = 0
        for o in outs:
            if src:
                bad = bad or src(o)
            if o.exc is not None:
                if mayfail:
                    if o.lineno() != mayfail:
                        bad = "a failure on line %d is reported as on line %s" % (mayfail, o.lineno())
                elif not nonfinite(o.st):
                    m = o.message()
                    bad = bad or "the text is refused: %s %s" % (o.exc.ty, show(m, 100) if m is not None else "")
                continue
            d = compare(o, exp, lattice)
            if d:
                bad = d
            for kind, v in o.config().values():
                if kind == "number":
                    fs = finite(o.st)
                    for qv in quotients(v, []):
                        if not any(qv is f for f in fs):
                            bad = bad or "a division is not checked to be finite"
            good += 1
        if not good and not bad:
            bad = "no way through the parser accepts the text"
    R.ob(rule, name, bad is None, "%s, for the text '%s' (src/glps.y, src/glps_parser.cpp)" % (bad, short))


def source(X, entry):
    """the scanner is given the whole of what the caller passed"""
    def f(o):
        v = o.E.rawread(o.st, (("G", "input"),))
        if v.k != "op" or v.a[0] != "input":
            return "the scanner is given nothing to read"
        s, n = v.a[1], v.a[2]
        whole = mk("op", "whole")
        if entry in ("string", "bytes"):
            if s is not whole:
                return "the scanner reads %s and not the text given" % show(s, 40)
            if n is not op("size", whole):
                return "the scanner reads %s characters and not all of the text" % show(n, 40)
        elif entry in ("stdin", "null"):
            if "stdin" not in show(s, 40):
                return "the scanner reads %s and not standard input" % show(s, 40)
        else:
            l = X.cl.hloc(s)
            nm = o.E.rawread(o.st, l + (".name",)) if l else top()
            if place(nm) not in (c("some.lat"), op("resolve", mk("op", "current_path"), c("some.lat"))):
                return "the scanner reads %s and not the file named" % show(s, 40)
        return None
    return f


def entries(X, R):
    L = ("l", [("a", "drift", {})])
    text = "x = @1 ;\na : drift ; l : LINE = ( a ) ;"
    n = 0
    rule = "every way of handing over a text gives the same Config"
    for e in ("string", "bytes", "stdin", "null", "file", "nolattice"):
        judge(R, "given as " + e, text, ({"x": ("number", "n1")},) + L, X.parse(text, None, e), e != "nolattice", 0, rule, source(X, e))
        judge(R, "given as " + e, "q = @1 ;\nx = nope ;\n" + LAT, 2, X.parse("q = @1 ;\nx = nope ;\n" + LAT, None, e), True, 0, rule)
        n += 2
    judge(R, "given as nolattice", "x = @1 ;", ({"x": ("number", "n1")}, None, None), X.parse("x = @1 ;", None, "nolattice"), False, 0, rule)
    # variables set beforehand
    rule = "a variable set beforehand is there for the text"
    st = X.setvar(X.st0, "y", "number", num(2))
    st = X.setvar(st, "z", "vector", [num(1), num(3)])
    st = X.setvar(st, "s", "string", c("text"))
    st = X.setvar(st, "f", "configs", None)
    pre = {"y": ("number", "n2"), "z": ("vector", ["n1", "n3"]), "s": ("string", "text")}
    for e in ("string", "bytes", "file", "nolattice"):
        t = "x = y - @1 ; w = z ; t = s ; a : drift , L = y ; l : LINE = ( a ) ;"
        vs = dict(pre, x=("number", "n2-n1"), w=pre["z"], t=pre["s"])
        judge(R, "given as " + e, t, (vs, "l", [("a", "drift", {"L": ("number", "n2")})]), X.parse(t, st, e), e != "nolattice", 0, rule)
        n += 1
    st2 = X.setvar(st, "y", "number", num(4))
    t = "x = y ; a : drift ; l : LINE = ( a ) ;"
    judge(R, "set twice", t, (dict(pre, x=("number", "n4"), y=("number", "n4")),) + L, X.parse(t, st2), True, 0, rule)
    judge(R, "set beforehand and in the text", "y = @1 ;\n" + LAT, 1, X.parse("y = @1 ;\n" + LAT, st), True, 0, rule)
    # a parser used again
    rule = "a parser that has read a text reads the next as if it were the first"
    o = [o for o in X.parse("x = @3 ; b : quad ; m : LINE = ( b ) ;") if o.parsed and o.exc is None][0]
    judge(R, "after another text", text, ({"x": ("number", "n1")},) + L, X.parse(text, o.st), True, 0, rule)
    o = [o for o in X.parse("x = @3 ; b : quad ;\n\nx = nope ;") if o.parsed and o.exc is not None][0]
    judge(R, "after a text with an error", text, ({"x": ("number", "n1")},) + L, X.parse(text, o.st), True, 0, rule)
    judge(R, "after a text with an error", "q = @1 ;\nx = nope ;\n" + LAT, 2, X.parse("q = @1 ;\nx = nope ;\n" + LAT, o.st), True, 0, rule)
    # files named in the text
    rule = "file names are relative to the text's directory"
    cwd = mk("op", "current_path")
    here = op("resolve", cwd, c("f"))
    there = op("resolve", op("parent", op("resolve", cwd, c("some.lat"))), c("f"))
    for e, w in (("string", here), ("bytes", here), ("stdin", here), ("null", here), ("file", there)):
        for fn in ("file", "dir"):
            t = 'q = @1 ;\nx = %s ( "f" ) ;\na : drift ; l : LINE = ( a ) ;' % fn
            judge(R, "given as " + e, t, ({"q": ("number", "n1"), "x": ("string", w)},) + L, X.parse(t, None, e), True, 2, rule)
            n += 1
        t = 'q = @1 ;\nx = parse ( "f" ) ;\na : drift ; l : LINE = ( a ) ;'
        judge(R, "given as " + e, t, ({"q": ("number", "n1"), "x": ("configs", w)},) + L, X.parse(t, None, e), True, 2, rule)
        n += 1
    return n


def scanner(P, X, R):
    Y = lexer.Lexer(P, X.G)
    rule = "characters become the tokens the language says"
    n, bad = 0, {}
    for t in lexer.texts(Y):
        got, want = Y.scan(t), lexer.meaning(t)
        k = 0
        while k < min(len(got), len(want)) and got[k] == want[k]:
            k += 1
        what = want[k][0] if k < len(want) else "end"
        if what in lexer.PUNCT:
            what = "punctuation"
        n += 1
        if got != want and what not in bad:
            bad[what] = "%r is read as %s and not as %s" % (t, got[k] if k < len(got) else "nothing", want[k] if k < len(want) else "nothing")
    for what in ("KEYWORD", "NUM", "STR", "punctuation", "error", "end"):
        R.ob(rule, what, what not in bad, "%s (src/glps.l)" % bad.get(what))
    R.floor("character sequences", n, 15000)
    return Y


def run(P, R):
    X = Run(P)
    n = 0
    scanner(P, X, R)
    for what, text, exp in cases():
        judge(R, what, text, exp, X.parse(text))
        n += 1
    n += entries(X, R)
    R.floor("texts", n, 180)
    R.floor("productions", len(X.M.reduced), 30)
