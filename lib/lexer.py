"""The generated scanner: flex's own tables, with the rules' actions interpreted abstractly."""
from glps import *

YYG, BUF, LVAL, LEXERR = (("P", "yyg"),), (("P", "lexbuf"),), (("P", "yylval"),), (("G", "lexerr"),)
ERRNO = (("G", "errno"),)


class LexCl(Glps):
    def c_misc(self, E, st, e, obj, args, n, q):
        if n in ("glps_error", "glps_verror"):
            st = st.copy()
            E.setcell(st, LEXERR, E.rawread(st, BUF + (".yy_bs_lineno",)))
            return [(st, None)]
        if n == "__errno_location":
            return [(st, addr(ERRNO))]
        if n in ("strtod", "atof", "__strtod_internal"):
            v = sval(self.cstr(E, st, args[0]))
            st = st.copy()
            try:
                x = float(v.a[1])
            except (ValueError, TypeError):
                return [(st, top())]
            z = not re.search(r"[1-9]", re.split("[eE]", v.a[1])[0])
            if x in (math.inf, -math.inf) or abs(x) < 2.3e-308 and not z:
                E.setcell(st, ERRNO, c(34))
            return [(st, c(x))]
        if n.startswith("__builtin_huge_val") or n.startswith("__builtin_inf"):
            return [(st, c(math.inf))]
        return super().c_misc(E, st, e, obj, args, n, q)


class Lexer:
    def __init__(self, P, G):
        self.P, self.G = P, G
        src = open(os.path.join(P.dir, "gen", "glps.tab.c")).read()
        self.cl = LexCl(P)
        self.E = GEngine(P, self.cl, cap=60, unroll=64, maxsteps=4000000)
        T = {}
        for m in re.finditer(r"static const \w+ (yy_\w+)\[\d+\]\s*=\s*\{([^}]*)\}", src):
            T[m.group(1)] = [int(x) for x in re.findall(r"-?\d+", m.group(2))]
        for k in ("yy_accept", "yy_ec", "yy_base", "yy_def", "yy_nxt", "yy_chk"):
            if k not in T:
                raise Broken("the scanner's table %s is not found" % k)
        self.T = T
        m = re.search(r"if \( yy_current_state >= (\d+) \)", src)
        self.templ = int(m.group(1)) if m else 1 << 30
        m = re.search(r"while \( yy_current_state != (\d+) \)", src)
        m2 = re.search(r"while \( yy_base\[yy_current_state\] != (\d+) \)", src)
        if not m and not m2:
            raise Broken("the scanner's matching loop is not recognised")
        self.jam = (lambda s: s == int(m.group(1))) if m else (lambda s: T["yy_base"][s] == int(m2.group(1)))
        self.eob = int(re.search(r"#define YY_END_OF_BUFFER (\d+)", src).group(1))
        self.eol = T.get("yy_rule_can_match_eol")
        self.bol = "YY_AT_BOL" in src[src.index("yy_match:") - 1200:src.index("yy_match:")]
        self.acts = G.cases(G.lfn, "yy_act")
        self.memo = {}

    def step(self, s, ch):
        T = self.T
        b = ord(ch)
        cc = T["yy_ec"][b] if b else 1
        while T["yy_chk"][T["yy_base"][s] + cc] != s:
            s = T["yy_def"][s]
            if s >= self.templ:
                cc = T["yy_meta"][cc]
        return T["yy_nxt"][T["yy_base"][s] + cc]

    def start(self, sc, bol):
        """yy_start is 1 + 2*condition"""
        return sc + (1 if self.bol and bol else 0)

    def match(self, text, pos, sc):
        """-> (end, rule): the longest lexeme"""
        s = self.start(sc, pos == 0 or text[pos - 1] == "\n")
        last = None
        i = pos
        while True:
            a = self.T["yy_accept"][s]
            if a and i > pos:
                last = (i, a)
            if i >= len(text):
                break
            s = self.step(s, text[i])
            i += 1
            if self.jam(s):
                break
        return last

    def act(self, rule, lexeme, sc, line):
        key = (rule, lexeme, sc, line)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.act1(rule, lexeme, sc, line)
        return r

    def act1(self, rule, lexeme, sc, line):
        """-> [(token or None, value, line, start, more, error line or None)]"""
        E, G = self.E, self.G
        fn = G.lfn
        body = self.acts.get(rule)
        if body is None:
            raise Broken("no action for the scanner's rule %s" % rule)
        fr = Frame(next(E.fid), fn, None, None)
        E.fr, E.stack, E.exc = fr, [fn], []
        st = St()
        st.cl = (frozenset(), frozenset())
        L = lambda name: (("L", fr.id, G.refid(fn, name), name),)
        put = lambda loc, v: E.setcell(st, loc, v)
        put(YYG + (".yytext_r",), addr((("S", lexeme), "[0]")))
        for i, ch in enumerate(lexeme):
            b = ord(ch)
            put((("S", lexeme), "[%d]" % i), c(b - 256 if b > 127 else b))
        put((("S", lexeme), "[%d]" % len(lexeme)), c(0))
        put(YYG + (".yyleng_r",), c(len(lexeme)))
        put(YYG + (".yy_start",), c(sc))
        put(YYG + (".yy_more_flag",), c(0))
        put(YYG + (".yyextra_r",), addr((CT,)))
        put(YYG + (".yy_buffer_stack",), addr((("P", "lexstk"), "[0]")))
        put(YYG + (".yy_buffer_stack_top",), c(0))
        put((("P", "lexstk"), "[0]"), addr(BUF))
        if self.eol and 0 < rule < len(self.eol) and self.eol[rule]:
            line += lexeme.count("\n")
        put(BUF + (".yy_bs_lineno",), c(line))
        put(ERRNO, c(0))
        for n, v in (("yyg", addr(YYG)), ("yyscanner", addr(YYG)), ("yylval_param", addr(LVAL)), ("yylval", addr(LVAL))):
            if G.refid(fn, n):
                put(L(n), v)
        put(YYG + (".yylval_r",), addr(LVAL))
        put(LEXERR, c(0))
        out = []
        for kind, s, v in E.seq(body, st):
            err = E.rawread(s, LEXERR)
            err = err.a[1] if err.k == "c" else -1
            g = lambda loc: (lambda x: x.a[1] if x.k == "c" else None)(E.rawread(s, loc))
            tok = val = None
            if kind == "r":
                tok = v.a[1] if v is not None and v.k == "c" else "?"
                val = self.value(s, tok)
            out.append((tok, val, g(BUF + (".yy_bs_lineno",)), g(YYG + (".yy_start",)), g(YYG + (".yy_more_flag",)), err or None))
        for x in E.exc:
            out.append(("exception " + x.ty, None, line, sc, 0, None))
        # running out of memory aside
        return [o for o in out if not (o[5] and any(p[5] is None for p in out))] or out

    def value(self, st, tok):
        E, G = self.E, self.G
        if tok in (G.tok["KEYWORD"], G.tok["STR"]):
            p = E.rawread(st, LVAL + (".string",))
            if p.k == "addr":
                v = sval(E.read(st, p.a[0] + (".str",)))
                return v.a[1] if v.k == "c" else show(v)
            return show(p)
        if tok == G.tok["NUM"]:
            v = E.rawread(st, LVAL + (".real",))
            return v.a[1] if v.k == "c" else show(v)
        return None

    def scan(self, text):
        """-> tokens [(kind, value, line)], ending with ('error', line) or ('end', line)"""
        G = self.G
        names = {G.tok["KEYWORD"]: "KEYWORD", G.tok["STR"]: "STR", G.tok["NUM"]: "NUM"}
        if any(ord(ch) >= len(self.T["yy_ec"]) for ch in text):
            return [("the scanner's tables are read outside their bounds", 0)]
        pos, sc, line, pre, out = 0, 1, 1, "", []
        for _ in range(200):
            if pos >= len(text):
                os_ = self.act(self.eob + (sc - 1) // 2 + 1, pre, sc, line)
                end = pos
            else:
                m = self.match(text, pos, sc)
                if m is None:
                    return out + [("nothing matches", text[pos:])]
                end, rule = m
                if rule == self.eob:
                    return out + [("nothing matches", text[pos:])]
                os_ = self.act(rule, pre + text[pos:end], sc, line)
            if len(set(os_)) != 1:
                return out + [("undecided", str(os_))]
            tok, val, nline, sc, more, err = os_[0]
            if nline is None or sc is None or more is None:
                return out + [("undecided", str(os_))]
            if err is not None:
                if tok is not None:
                    return out + [("error" if tok == 0 else "error, and goes on with %s" % tok, err)]
                out.append(("error, and goes on", err))
            elif tok == 0:
                return out + [("end", nline)]
            elif tok is not None:
                k = names.get(tok) or (chr(tok) if isinstance(tok, int) and 0 < tok < 256 else str(tok))
                out.append((k, val, nline))
            elif pos >= len(text):
                return out + [("goes on after the end", nline)]
            pre = pre + text[pos:end] if more else ""
            pos, line = end, nline
        return out + [("does not end", 0)]

    def words(self, alphabet):
        """a shortest text for each state of the scanner"""
        out = []
        for sc, pre in ((1, ""), (3, '"')):
            if sc >= len(self.T["yy_accept"]):
                continue
            seen = {self.start(sc, False): pre}
            work = [self.start(sc, False)]
            while work:
                s = work.pop(0)
                for ch in alphabet:
                    t = self.step(s, ch)
                    if not self.jam(t) and t not in seen:
                        seen[t] = seen[s] + ch
                        work.append(t)
            out += list(seen.values())
        return out


# ---------------------------------------------------------------- what the language says
KW = re.compile(r"[A-Za-z]([A-Za-z0-9_:]*[A-Za-z0-9_])?")
NM = re.compile(r"[0-9]+(\.[0-9]*)?([eE][+-]?[0-9]+)?")
PUNCT = "=:;()[],+*/-"


def meaning(text):
    pos, line, out = 0, 1, []
    while pos < len(text):
        ch = text[pos]
        if ch in " \t":
            pos += 1
        elif ch == "\n":
            line += 1
            pos += 1
        elif ch == "#":
            while pos < len(text) and text[pos] != "\n":
                pos += 1
        elif ch == '"':
            end = pos + 1
            while end < len(text) and text[end] not in '"\n\r':
                end += 1
            if end >= len(text) or text[end] != '"':
                return out + [("error", line)]
            out.append(("STR", text[pos + 1:end], line))
            pos = end + 1
        elif ch in PUNCT:
            out.append((ch, None, line))
            pos += 1
        elif KW.match(text, pos):
            m = KW.match(text, pos)
            out.append(("KEYWORD", m.group(), line))
            pos = m.end()
        elif NM.match(text, pos):
            m = NM.match(text, pos)
            x = float(m.group())
            if x == math.inf or x == 0 and re.search("[1-9]", re.split("[eE]", m.group())[0]):
                return out + [("error", line)]
            out.append(("NUM", x, line))
            pos = m.end()
        else:
            return out + [("error", line)]
    return out + [("end", line)]


ATOMS = list(PUNCT) + ["a", "a:", "a_", "a1", "a:b", "Ab_c9", "1", "12", "1.", "1.5", "1e", "1e+", "1E-", "1e5", "1.5E-7", "2e+06", "1e999", "1e-999", "0e999", "#", "#x", "# ; \"", "#x\n", '"', '"x', '"x"', '""', '"a b#;"',
                       "\n", " ", "\t", "\r", "$", "_", ".", ".5", "\x80", "\xff", "\0", "\x0b"]
SUFFIX = ["a", "E", "Z", "0", "9", ".", "_", ":", "+", "-", ";", '"', "#", "\n", " ", "\r", "$", "\xe9"]


def texts(X):
    """every state of the scanner and of the language, followed by everything"""
    alpha = [chr(i) for i in range(1, min(256, len(X.T["yy_ec"])))]
    reps = {}
    for ch in alpha:
        reps.setdefault((X.T["yy_ec"][ord(ch)]), ch)
    suf = SUFFIX + [r for r in reps.values() if r not in SUFFIX]
    ws = list(dict.fromkeys(X.words(alpha) + ATOMS))
    for w in ws:
        yield w
        for s in suf:
            yield w + s
            for t in SUFFIX:
                yield w + s + t
        yield w + '\n"q r"z\n7'
    for ch in alpha:
        yield ch
        yield "a" + ch + "b"
        yield "1" + ch + "2"
        yield '"' + ch + '"'
        yield "#" + ch + "\na"
