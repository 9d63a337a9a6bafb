"""C15: reading any text is safe.

Every text of C14, and for every state of the LALR automaton a text that reaches it followed by every token, is taken
through the parser with a typestate for each heap object, file and scanner: made, released once, not used afterwards,
nothing left over."""
import ctypes, gc, pickle, struct, sys, traceback
from glpsrun import *
import c14, lexer

RULES = ("nothing is released twice", "what new made is released with delete", "nothing is used after it is released", "no NULL pointer is followed",
         "no container is indexed outside its bounds", "variadic arguments are read as they were passed", "no exception passes through the C parser", "only a file opened here is closed")
PRE = "v = @1 ; s = \"t\" ; w = [ 1 , 2 ] ; e : drift ; m : LINE = ( e , e ) ;\n"


def yields(G):
    """a shortest token sequence for each nonterminal"""
    best = {}
    again = True
    while again:
        again = False
        for lhs, rhs in G.rules.values():
            y = []
            for s in rhs:
                if s in G.tok:
                    y.append(s)
                elif s in best:
                    y += best[s]
                else:
                    y = None
                    break
            if y is not None and (lhs not in best or len(y) < len(best[lhs])):
                best[lhs] = y
                again = True
    return best


def access(G):
    """a token sequence which brings the automaton into each state"""
    best = yields(G)
    seen, work = {0: []}, [0]
    while work:
        s = work.pop(0)
        sh, go, rd, errs = G.states[s]
        for sym, t in list(sh.items()) + list(go.items()):
            if t not in seen and sym != "$end":
                seen[t] = seen[s] + ([sym] if sym in G.tok else best.get(sym, []))
                work.append(t)
    return seen


def spell(toks, kw):
    out = []
    for t in toks:
        if t == "KEYWORD":
            out.append(kw)
        elif t == "STR":
            out.append('"t"')
        elif t == "NUM":
            out.append("@2")
        else:
            out.append(t.strip("'"))
    return " ".join(out)


def stuck(G, kws):
    toks = [t for t in G.tok if t not in ("$end", "error", "$undefined", "YYEOF", "YYerror", "YYUNDEF", "\"end of file\"", "\"invalid token\"")] + ["", "$"]
    for s, word in access(G).items():
        for kw in kws:
            if "KEYWORD" not in word and kw != kws[0]:
                continue
            for t in toks:
                for kw2 in (kws if t == "KEYWORD" else kws[:1]):
                    yield s, PRE + spell(word, kw) + " " + (t if t in ("", "$") else spell([t], kw2))


def keep():
    """memory once taken is not given back to the system: it is wanted again at once"""
    try:
        gc.set_threshold(1000000, 50, 1000)
        m = ctypes.CDLL(None).mallopt
        m(-3, 1 << 30)
        m(-1, 1 << 30)
    except (OSError, AttributeError):
        pass


def shared(items):
    """the items, one at a time, to whichever process asks first"""
    r, w = os.pipe()
    os.set_blocking(w, False)
    for i in range(len(items)):
        os.write(w, struct.pack("i", i))
    os.close(w)

    def get():
        while True:
            b = os.read(r, 4)
            if len(b) < 4:
                return
            yield items[struct.unpack("i", b)[0]]
    return get


def parallel(f, items, n, deal=False):
    """f over n parts of items, each in a process of its own"""
    kids = []
    gc.collect()
    gc.freeze()
    get = shared(items) if deal else None
    for i in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.close(r)
                keep()
                data = pickle.dumps(f(get() if deal else items[i::n]))
                with os.fdopen(w, "wb") as fp:
                    fp.write(data)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    out, failed = [], False
    for pid, r in kids:
        with os.fdopen(r, "rb") as fp:
            data = fp.read()
        _, status = os.waitpid(pid, 0)
        if status or not data:
            failed = True
        else:
            out.append(pickle.loads(data))
    if failed:
        raise Broken("a part of the analysis did not finish")
    return out


def left(X, o, base):
    """what is still there after a way out, other than the Config given to the caller"""
    l = o.live - base
    if o.exc is None and o.val is not None and o.val.k == "addr":
        l = l - {o.val.a[0][:1]}
    return l


def run(P, R):
    X = Run(P)
    base = X.st0.cl[0]
    leaks, dangling = {}, {}
    count = {"ways": 0, "texts": 0}

    def look(text, outs):
        count["texts"] += 1
        for o in outs:
            count["ways"] += 1
            for l in left(X, o, base):
                leaks.setdefault(X.cl.what(o.st, l), "%s is left over after %s, for the text '%s'" % (X.cl.what(o.st, l), "the text was read" if o.exc is None else "an error", short(text)))
            if o.exc is None:
                v = o.val
                if v is None or v.k != "addr" or v.a[0][:1] in o.st.cl[1]:
                    dangling.setdefault(0, "the Config given to the caller is %s, for the text '%s'" % ("NULL" if v is NULL else "already released" if v is not None and v.k == "addr" else "not known", short(text)))
        return outs

    def short(t):
        t = " ".join(t.replace(PRE, "").split())
        return t if len(t) < 90 else "..." + t[-87:]

    for what, text, exp in c14.cases():
        look(text, X.parse(text))
    for e in ("bytes", "stdin", "null", "file", "nolattice"):
        for t in ("x = @1 ;\na : drift ; l : LINE = ( a ) ;", "q = @1 ;\nx = nope ;\n" + c14.LAT, "x = 1 + ;", "", "x = @1 ;", 'x = file ( "f" ) ;\na : drift ; l : LINE = ( a ) ;', 'x = parse ( "f" ) ;\na : drift ; l : LINE = ( a ) ;'):
            look(t, X.parse(t, None, e))
    st = X.setvar(X.st0, "y", "number", num(2))
    st = X.setvar(st, "z", "vector", [num(1), num(3)])
    st = X.setvar(st, "t", "string", c("text"))
    look("x = y + 1 ;", X.parse("x = y + 1 ; l : LINE = ( y ) ;", st))
    # a second text with the same parser
    for o in X.parse("x = @3 ; b : quad ; m : LINE = ( b ) ;"):
        if o.parsed and o.exc is None:
            s2 = o.st.copy()
            mine = o.val.a[0][:1]
            s2.cl = (s2.cl[0] - {mine}, s2.cl[1])
            look("a second text", X.parse("x = nope ;", s2))
            look("a second text", X.parse("x = 1 ; b : quad ; m : LINE = ( b ) ;", s2))
            for s3 in X.destroy(s2):
                for l in s3.cl[0]:
                    leaks.setdefault(X.cl.what(s3, l), "%s is left over after the parser is gone" % X.cl.what(s3, l))
    kws = ("v", "e", "s", "w", "m", "u", "sin") if R.tier == "thorough" else ("v", "e", "sin")
    work = list(stuck(X.G, kws))
    states = {s for s, _ in work}
    tag = {}

    def part(items):
        for s, text in items:
            look(text, X.parse(text))
        return leaks, dangling, {r: {k: v for k, v in d.items()} for r, d in X.cl.bad.items()}, X.M.reduced, count
    done = parallel(part, work, 8)
    for l, d, b, red, n in done:
        leaks.update(l)
        dangling.update(d)
        for r, x in b.items():
            X.cl.bad.setdefault(r, {}).update(x)
        X.M.reduced |= red
        for k in n:
            tag[k] = tag.get(k, 0) + n[k] - count[k]
    for k in tag:
        count[k] += tag[k]
    # printing, and a parser told not to print
    mute = X.call(X.fn("GLPSParser::setPrinter", 1), X.st0, [NULL])[0][0]
    for t in (PRE + "foo ( 1 ) ; l : LINE = ( e ) ;", PRE + "FOO ;", PRE + "END ; l : LINE = ( e ) ;"):
        look(t, X.parse(t, mute))
    X.cl.printing = True
    for x in ("@1", '"s"', "[ @1 , @2 ]", "[ ]", "m", "e", "- m", "0 * m", "k", 'parse ( "f" )', 'file ( "f" )', "u", "sin ( @1 )"):
        t = PRE + "k : LINE = ( ) ; print ( %s ) ; l : LINE = ( e ) ;" % x
        look(t, X.parse(t))
        look(t, X.parse(t, mute))
    X.cl.printing = False
    Y = lexer.Lexer(P, X.G)
    for t in lexer.texts(Y):
        Y.scan(t)
    for r in RULES:
        bad = dict(X.cl.bad.get(r, {}))
        bad.update(Y.cl.bad.get(r, {}))
        R.ob(r, "all texts", not bad, "; ".join(sorted(bad.values())[:3]))
    for r in set(X.cl.bad) | set(Y.cl.bad):
        if r not in RULES:
            R.ob(r, "all texts", False, "; ".join(sorted(X.cl.bad.get(r, Y.cl.bad.get(r, {})).values())[:3]))
    R.ob("nothing is left over", "all texts", not leaks, "; ".join(sorted(leaks.values())[:3]))
    R.ob("the Config given to the caller is whole", "all texts", not dangling, "; ".join(dangling.values()))
    R.floor("texts", count["texts"], 800)
    R.floor("ways out", count["ways"], 2000)
    R.floor("states of the automaton", len(states), 40)
    R.floor("productions", len(X.M.reduced), 30)
