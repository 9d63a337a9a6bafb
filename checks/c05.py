"""C05: parameter lookup, update and scoping of configurations.

Each method of Config is interpreted on a symbolic configuration (inner map, outer
map).  Every outcome is judged in every scenario (name in the inner map or not,
outer map absent, holding the name or not) that its path does not exclude."""
import re
from absint import *
from common import *
from c04 import ptr_fields

CONF = (("P", "conf"),)
NAME = (("P", "name"),)


class Look(Client):
    """boost::get on a variant: holds the type, or bad_get / NULL"""
    def __init__(self):
        self.wrote = []

    def on_write(self, E, st, loc, val, node):
        if not E.probing and loc[0][0] in ("P", "D"):
            self.wrote.append((loc, node, E.fr.fn))

    def on_call(self, E, st, e, obj, args):
        if e.get("q", "").split("<")[0] in ("boost::get", "boost::strict_get", "boost::relaxed_get") and len(args) == 1:
            ptr = (e.get("pt") or [""])[0].endswith("*")
            l = E.loc_of(args[0])
            content = E.read(st, l)
            t = strip_cv(noptr(e["t"])) if ptr else strip_cv(e["t"].rstrip("& "))
            h = op("holds", content, c(t))
            out = []
            base = content.a[0] if content.k == "agg" else content
            if base.k == "op" and (base.a[0] == "empty" or base.a[0].startswith("ctor:boost::variant")):
                if base.a[0] != "empty":      # built from a value of a chosen type on this path
                    return [(st, addr(l + (".as<%s>" % t,)))]
                return [(st, args[0] if ptr else addr(l))]
            a = E.assume(st.copy(), h, True)
            if a is not None:
                out.append((a, addr(l + (".as<%s>" % t,))))
            b = E.assume(st.copy(), h, False)
            if b is not None:
                if ptr:
                    out.append((b, NULL))
                else:
                    E.throw(b, "boost::bad_get", e)
            return out
        return None


class Sym:
    def __init__(self, P):
        fields = ptr_fields(P)
        own = [n for n, t in fields.items() if not t.startswith("const ")]
        outer = [n for n, t in fields.items() if t.startswith("const ")]
        if len(own) != 1 or len(outer) != 1:
            if {"values", "implicit_values"} <= set(fields):
                own, outer = ["values"], ["implicit_values"]
            else:
                raise Broken("inner and outer parameter maps of Config not recognised: %s" % fields)
        self.of, self.uf = "." + own[0], "." + outer[0]
        self.ownp, self.outp = init(CONF + (self.of,)), init(CONF + (self.uf,))
        self.own, self.out = (("D", self.ownp),), (("D", self.outp),)
        self.key = mk("op", "key", init(NAME))

    def absent(self, loc):
        return op("==", self.key, op("size", init(loc)))

    def el(self, E, loc):
        return loc + (E.idx(self.key), ".second")

    def scen(self, E, st):
        """-> the scenarios this state's path allows: (name, state)"""
        s1 = st.copy()
        E.truth(s1, op("size", init(self.own)))
        r = []

        def go(label, *fs):
            s = st.copy()
            for f, v in fs:
                s = E.assume(s, f, v)
                if s is None:
                    return
            r.append((label, s))
        e_own = E.truth(st, op("==", op("size", init(self.own)), c(0)))
        e_out = E.truth(st, op("==", op("size", init(self.out)), c(0)))
        if e_own is not True:
            go("in the inner scope", (self.absent(self.own), False))
        go("in no scope (no outer scope)", (self.absent(self.own), True), (self.outp, False))
        if e_out is not True:
            go("in the outer scope only", (self.absent(self.own), True), (self.outp, True), (self.absent(self.out), False))
        go("in no scope", (self.absent(self.own), True), (self.outp, True), (self.absent(self.out), True))
        return r

    def where(self, label):
        return self.own if label == "in the inner scope" else self.out if label == "in the outer scope only" else None


def run(P, R):
    R.explain = ("symbolic interpretation of every Config accessor; each path's outcome is judged in every scenario (name present in "
                 "inner/outer scope, stored type) the path does not exclude")
    S = Sym(P)
    n = 0

    def start(f, extra=()):
        cl = Look()
        E = Engine(P, cl)
        E.keep_temps = True
        st = St()
        args = []
        for p in f["params"]:
            l = (("P", {0: "name"}.get(len(args), "arg%d" % len(args)) if f["params"][0]["t"].find("basic_string") >= 0 else "arg%d" % len(args)),)
            args.append(addr(l) if p["t"].endswith("&") or E.isrec(p["t"]) else init(l))
        E.exc = []
        st = E.assume(st, S.ownp, True)
        res = E.call_fn(f, st, addr(CONF), args)
        return cl, E, res, args

    def methods(name, np):
        r = [f for f in P.funcs.values() if f["q"] == "Config::" + name and "body" in f and len(f["params"]) == np]
        return sorted(r, key=lambda f: str(f.get("full")))

    def pure(cl, f, allowed, lab):
        bad = [w for w in cl.wrote if not allowed(w[0])]
        R.ob("a lookup changes no parameter", lab, not bad, bad and "%s: writes %s" % (where(bad[0][2], bad[0][1]) if bad[0][1] else where(f), show_loc(bad[0][0])))

    def val_of(E, s, v, f):
        """(location, content) a lookup returns"""
        if v is not None and v.k == "addr":
            return v.a[0], E.read(s, v.a[0])
        return None, v

    def getter(f, kind):
        nonlocal n
        n += 1
        cl, E, res, args = start(f)
        lab = f.get("full") or f["q"]
        lab += "(name, default)" if kind == "def" else "(name)"
        T = f["ta"][0] if f.get("ta") else None
        outarg = (("P", "arg1"),)
        pure(cl, f, lambda l: kind == "try" and l[0] == outarg[0], lab)
        for s, v in res:
            for sc, s2 in S.scen(E, s):
                home = S.where(sc)
                typed = [True, False] if T and home else [None]
                for h in typed:
                    s3 = s2
                    inst = "%s, name %s%s" % (lab, sc, "" if h is None else ", value of %s type" % ("that" if h else "another"))
                    if h is not None:
                        s3 = E.assume(s2.copy(), op("holds", init(S.el(E, home)), c(T)), h)
                        if s3 is None:
                            continue
                    el = home and S.el(E, home) + ((".as<%s>" % T,) if T else ())
                    if kind == "try":
                        tv = E.truth(s3, v)
                        want = bool(home) and h is not False
                        R.ob("the lookup reports exactly whether it found a value", inst, tv is want,
                             "%s: returns %s" % (where(f), v), key="try %s %s" % (lab, sc))
                        got = E.read(s3, outarg)
                        exp = init(el) if want else init(outarg)
                        R.ob("the value delivered is the one in scope", inst, got is exp,
                             "%s: the output holds %s instead of %s" % (where(f), got, exp), key="tryval %s %s" % (lab, sc))
                        continue
                    loc, got = val_of(E, s3, v, f)
                    if home and h is not False:
                        R.ob("the value delivered is the one in scope", inst, got is init(el),
                             "%s: returns %s instead of %s" % (where(f), got, init(el)), key="get %s %s" % (lab, sc))
                    elif kind == "def":
                        d = init((("P", "arg1"),))
                        R.ob("the default is returned when there is no such value", inst, got is d,
                             "%s: returns %s instead of the default" % (where(f), got), key="def %s %s" % (lab, sc))
                    else:
                        R.violation("a missing or mistyped parameter raises key_error", inst, "%s: returns %s" % (where(f), got), key="miss %s %s" % (lab, sc))
        for x in E.exc:
            for sc, s2 in S.scen(E, x.st):
                home = S.where(sc)
                for h in ([True, False] if T and home else [None]):
                    s3 = s2 if h is None else E.assume(s2.copy(), op("holds", init(S.el(E, home)), c(T)), h)
                    if s3 is None:
                        continue
                    inst = "%s, name %s%s" % (lab, sc, "" if h is None else ", value of %s type" % ("that" if h else "another"))
                    ok = kind == "get" and exc_isa(P, x.ty, "key_error") and (not home or h is False)
                    R.ob("only a missing or mistyped parameter raises key_error", inst, ok,
                         "%s: throws %s when the name is %s" % (where(x.fn, x.node) if x.fn else where(f), x.ty, sc), key="throw %s %s %s" % (lab, sc, x.ty))

    for f in methods("getAny", 1):
        getter(f, "get")
    for f in methods("tryGetAny", 2):
        getter(f, "try")
    for f in methods("get", 1):
        getter(f, "get")
    for f in methods("get", 2):
        getter(f, "def")
    for f in methods("tryGet", 2):
        getter(f, "try")

    # ---- updates
    def content(E, s, pf):
        p = E.rawread(s, CONF + (pf,))
        if isc(p) and p.a[1] == 0 or p.k == "op" and p.a[0] == "empty":
            return None
        return E.read(s, E.loc_of(p))

    def same(E, s, sc_s, cont, loc):
        return cont is init(loc)

    def setter(f, kind):
        nonlocal n
        n += 1
        cl, E, res, args = start(f)
        lab = (f.get("full") or f["q"])
        R.ob("an update succeeds", lab, bool(res) and not E.exc, "%s: throws %s" % (where(f), E.exc and E.exc[0].ty))
        T = f["ta"][0] if f.get("ta") else None
        for s, v in res:
            got = content(E, s, S.of)
            el = S.el(E, S.own)[1:]
            arg = init((("P", "arg1"),))
            ok = got is not None and got.k == "agg" and got.a[0] is init(S.own) and all(q[:len(el)] == el for q, _ in got.a[1]) \
                and stored(project(got, el), arg, T)
            R.ob("an update changes exactly the named parameter of the inner scope", lab, ok,
                 "%s: the inner scope becomes %s" % (where(f), got), key="set %s" % lab)
            R.ob("an update leaves the outer scope alone", lab, E.rawread(s, CONF + (S.uf,)) is S.outp and E.read(s, S.out) is init(S.out),
                 "%s: the outer scope becomes %s" % (where(f), E.rawread(s, CONF + (S.uf,))), key="setouter %s" % lab)
            # a typed exchange always stores; an untyped one hands the former value out
            if kind == "swap" and not T:
                for sc, s2 in S.scen(E, s):
                    if sc == "in the inner scope":
                        g = E.read(s2, (("P", "arg1"),))
                        R.ob("an exchange hands out the former value", lab, g is init(S.el(E, S.own)),
                             "%s: hands out %s" % (where(f), g), key="swapout %s" % lab)

    def stored(v, arg, T):
        if v is arg:
            return True
        if v.k == "op" and v.a[0].startswith(("call:boost::variant", "conv")) and arg in v.a:
            return True
        if v.k == "agg":
            return v.a[0].k == "op" and v.a[0].a[0].startswith(("ctor:boost::variant", "empty")) and len(v.a[1]) == 1 and v.a[1][0][1] is arg
        return False

    for f in methods("setAny", 2):
        setter(f, "set")
    for f in methods("set", 2):
        setter(f, "set")
    for f in methods("swapAny", 2):
        setter(f, "swap")
    for f in methods("swap", 2):
        setter(f, "swap")

    # ---- scopes
    def is_empty(v):
        return v is not None and v.k == "op" and v.a[0] == "empty"

    def norm(E, s, v, scen):
        """content normal form: list of maps, first wins; known-empty maps dropped"""
        if v is None or is_empty(v):
            return ()
        if v is init(S.own):
            return () if "own" in scen else ("own",)
        if v is init(S.out):
            return () if "out" in scen else ("out",)
        if v.k == "op" and v.a[0] == "overlay":
            a, b = norm(E, s, v.a[1], scen), norm(E, s, v.a[2], scen)
            if a is None or b is None:
                return None
            r = []
            for x in a + b:
                if x not in r:
                    r.append(x)
            return tuple(r)
        return None

    def scopes(s, E):
        """which maps this path knows to be empty (or absent)"""
        r = []
        for own in (True, False):
            for out in ("null", "empty", "full"):
                q = E.assume(s.copy(), op("==", op("size", init(S.own)), c(0)), own)
                q = q and E.assume(q, S.outp, out != "null")
                if q and out != "null":
                    q = E.assume(q, op("==", op("size", init(S.out)), c(0)), out == "empty")
                if q:
                    r.append((q, ({"own"} if own else set()) | ({"out"} if out != "full" else set()),
                              "inner scope %s, outer scope %s" % ("empty" if own else "not empty", {"null": "absent", "empty": "empty", "full": "not empty"}[out])))
        return r

    def scoped(f, want_own, want_out, getres):
        nonlocal n
        n += 1
        cl, E, res, args = start(f)
        lab = f["q"]
        R.ob("scope operations succeed", lab, bool(res) and not E.exc, "%s: throws" % where(f))
        for s, v in res:
            for q, known, text in scopes(s, E):
                base = getres(v)
                for pf, want, nm in ((S.of, want_own, "inner"), (S.uf, want_out, "outer")):
                    p = E.rawread(q, base + (pf,))
                    if isc(p) and p.a[1] == 0 or p.k == "op" and p.a[0] == "empty" or p.k == "uninit" and False:
                        cont = None
                    elif p is S.outp and "out" in known:
                        cont = None
                    else:
                        cont = E.read(q, E.loc_of(p))
                    if nm == "inner" and (cont is None):
                        R.violation("scopes nest: inner names hide outer ones", "%s, %s" % (lab, text), "%s: leaves no inner scope" % where(f))
                        continue
                    got = norm(E, q, cont, known)
                    w = tuple(x for x in want if x not in known)
                    R.ob("scopes nest: inner names hide outer ones", "%s, %s: %s" % (lab, text, nm), got == w,
                         "%s: with %s the resulting %s scope is %s, expected %s" % (where(f), text, nm, cont if got is None else list(got), list(w)),
                         key="scope %s %s %s" % (lab, nm, text))
            if f["q"] == "Config::new_scope":
                ok = E.rawread(s, CONF + (S.of,)) is S.ownp and E.rawread(s, CONF + (S.uf,)) is S.outp and E.read(s, S.own) is init(S.own) \
                    and E.read(s, S.out) is init(S.out)
                R.ob("creating an inner scope leaves the outer configuration alone", lab, ok, "%s: modifies the configuration it is called on" % where(f))

    scoped(one(P, "Config::new_scope", 0), (), ("own", "out"), lambda v: v.a[0])
    scoped(one(P, "Config::push_scope", 0), (), ("own", "out"), lambda v: CONF)
    scoped(one(P, "Config::flatten", 0), ("own", "out"), (), lambda v: CONF)
    R.floor("methods_judged", n, 18)

    # ---- value semantics of the object itself
    oth = (("P", "arg0"),)
    for f in [f for f in P.funcs.values() if "body" in f and len(f["params"]) == 1 and
              (f["q"] in ("Config::Config", "Config::operator=") or f["q"] == "Config::swap") and noptr(f["params"][0]["t"]) == "Config"]:
        cl, E, res, args = start(f)
        for s, v in res:
            if E.truth(s, op("==", addr(CONF), addr(oth))) is True:
                continue
            for pf in (S.of, S.uf):
                got = E.rawread(s, CONF + (pf,))
                if f["q"] == "Config::swap":
                    g2 = E.rawread(s, oth + (pf,))
                    ok = got is init(oth + (pf,)) and g2 is init(CONF + (pf,))
                else:
                    ok = (got is init(oth + (pf,)) or E.read(s, E.loc_of(got)) is init((("D", init(oth + (pf,))),))) and E.rawread(s, oth + (pf,)) is init(oth + (pf,))
                R.ob("copying and exchanging configurations carries both scopes", "%s(%s) %s" % (f["q"], f["params"][0]["t"], pf[1:]), ok,
                     "%s: %s becomes %s" % (where(f), pf[1:], got))
    R.assume += ["std::map and boost::variant behave as documented", "the inner map pointer is never null (constructor, checked by the scope rules)"]
