"""C09: what a pass through an element leaves is complete and consistent.

advance() of every element class is interpreted on an arbitrary state, forward and backward, with one,
two and three charge states.  On every normal outcome the position has moved by the element's length in
the direction of travel, the quantities derived from the energy and the averages over the charge states
agree with what they are derived from (deriving them again changes nothing), and every charge state
was treated like the others, from its own data."""
from absint import *
from common import *
from sized import *
from summ import Summaries
from c01 import member_dyn, state_class
from c08 import EL, S, advance_of, equiv, independent, loaders_of, name, one_pass, vector_members

AVERAGES = (".moment0_env", ".moment0_rms", ".moment1_env")


PER = (".real", ".moment0", ".moment1", ".transmat", ".transfer", ".misalign", ".misalign_inv", ".last_real_in", ".last_real_out")


def rename(loc, perm):
    if len(loc) > 2 and loc[1] in PER and loc[2] in perm:
        return loc[:2] + (perm[loc[2]],) + loc[3:]
    return loc


def again(P, E, st, cls, meth):
    """the state after calling one of its own methods once more"""
    sc = st.dyn[(S,)]
    for t in P.linear(sc):
        ms = [m for m in P.classes.get(t, {}).get("methods", []) if m["n"] == meth and m["usr"] in P.funcs]
        if ms:
            return E.call_fn(P.funcs[ms[0]["usr"]], st.copy(), addr((S,)), [])
    raise Broken("%s::%s not found" % (sc, meth))


def run(P, R):
    R.explain = "every normal outcome of advance() of every element class, both directions, one to three charge states"
    sm = Summaries(P)
    sm.terms = True
    n = 0
    pos, length = init((S, ".pos")), init((EL, ".length"))
    classes = sorted(x for x in P.subclasses("ElementVoid") if advance_of(P, x) and not P.classes[x].get("abstract"))
    fields = ["." + f["n"] for _, f in P.allfields("Particle")]
    recalc = next(P.funcs[m["usr"]] for m in P.classes["Particle"]["methods"] if m["n"] == "recalc" and m["usr"] in P.funcs)
    for cls in classes:
        fn = advance_of(P, cls)
        w = where(fn)
        moment = "MomentElementBase" in P.linear(cls)
        particles = ["." + f["n"] for _, f in P.allfields(cls) if f["t"] == "Particle"]
        lists = ["." + f["n"] for _, f in P.allfields(cls) if f["t"].startswith("std::vector<Particle")]
        kind = sname(cls).split("<")[0]
        for retreat in (False, True):
            bad = {}
            ob = lambda rule, text: bad.setdefault(rule, "%s: %s" % (w, text))
            rules = ["moves by its length"]
            for N in ((2, 1, 3) if moment else (2,)):
                vm = vector_members(P, cls)
                E, cl, res = one_pass(P, sm, cls, fn, retreat, S, {S: N, EL: N}, vm, loaders_of(P, sm, cls) if moment else set())
                n += len(res)
                for st, _ in res:
                    v = E.read(st, (S, ".pos"))
                    ok = moved(v, pos, length, retreat) or v is thin(kind, retreat) or (kind == "ElementStripper" and not retreat)
                    if not ok:
                        ob("moves by its length", "a %s pass leaves the position at %s" % (name(retreat), show(v)))
                    if not moment or kind in ("ElementSource", "ElementStripper"):
                        continue
                    for meth, rule, fs in (("recalc", "derived quantities agree", [(".ref", f) for f in fields] + [(".real", "[%d]" % i, f) for i in range(N) for f in fields]),
                                           ("calc_rms", "averages agree", [(f,) for f in AVERAGES])):
                        rules.append(rule)
                        for s2, _ in again(P, E, st, cls, meth):
                            for f in fs:
                                x, y = E.read(st, (S,) + f), E.read(s2, (S,) + f)
                                if not equiv(x, y) and not remembered(x, y):
                                    ob(rule, "a %s pass leaves %s out of date: %s() would change it" % (name(retreat), "".join(f)[1:], meth))
                    rules.append("what is remembered is up to date")
                    for m in [(x,) for x in particles] + [(x, "[%d]" % i) for x in lists for i in range(N)]:
                        for s2, _ in E.cl.on_enter(E, st, recalc, addr((EL,) + m), []) or E.call_fn(recalc, st.copy(), addr((EL,) + m), []):
                            for f in fields:
                                x, y = E.read(st, (EL,) + m + (f,)), E.read(s2, (EL,) + m + (f,))
                                if x is not init((EL,) + m + (f,)) and not equiv(x, y) and not remembered(x, y):
                                    ob("what is remembered is up to date", "a %s pass leaves the remembered %s out of date" % (name(retreat), "".join(m + (f,))[1:]))
                    rules += ["charge states are treated alike", "charge states do not mix"]
                    for i in range(N):
                        for f in (".real", ".moment0", ".moment1", ".transmat"):
                            d = src(E, st, (S, f, "[%d]" % i), fields if f == ".real" else [None])
                            for j in range(N):
                                if j == i:
                                    continue
                                o = sorted((x for x in d if len(x) > 2 and x[0] == S and x[2] == "[%d]" % j and x[1] in PER), key=show_loc)
                                if o:
                                    ob("charge states do not mix", "a %s pass computes %s[%d] from %s" % (name(retreat), f[1:], i, show_loc(o[0])))
                                d2 = src(E, st, (S, f, "[%d]" % j), fields if f == ".real" else [None])
                                perm = {"[%d]" % i: "[%d]" % j, "[%d]" % j: "[%d]" % i}
                                if {rename(x, perm) for x in d} != d2:
                                    ob("charge states are treated alike", "a %s pass treats charge state %d unlike %d: %s comes from other things" % (name(retreat), i, j, f[1:]))
            for rule in dict.fromkeys(rules):
                R.ob(rule, "%s, %s" % (cls, name(retreat)), rule not in bad, bad.get(rule))
    R.floor("outcomes", n, 150)
    R.floor("classes", len(classes), 25)


def moved(v, pos, length, retreat):
    return flat(v) == {pos: 1, length: -1 if retreat else 1}


def flat(v, sign=1):
    """the value as a sum of terms with signs: {term: coefficient}"""
    if v.k == "op" and v.a[0] in ("+", "-", "neg"):
        r = {}
        for i, x in enumerate(v.a[1:]):
            for t, c in flat(x, -sign if v.a[0] == "neg" or v.a[0] == "-" and (i or len(v.a) == 2) else sign).items():
                r[t] = r.get(t, 0) + c
        return {t: c for t, c in r.items() if c}
    if v.k == "op" and v.a[0] == "*" and len(v.a) == 3:
        for k, x in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            c = flat(k).get(None) if k.k == "c" or k.k == "op" and k.a[0] in ("neg", "-") else None
            if c is not None and len(flat(k)) == 1:
                return {t: c * n for t, n in flat(x, sign).items()}
    if v.k == "c" and isinstance(v.a[1], (int, float)):
        return {None: sign * v.a[1]} if v.a[1] else {}
    return {v: sign}


def thin(kind, retreat):
    if kind == "ElementSource":
        return init((S, ".pos")) if retreat else init((EL, ".istate", ".pos"))


def remembered(x, y):
    """a particle kept from an earlier pass, which was left up to date (see 'what is remembered is up to date')"""
    return x.k == "init" and x.a[0][0] == EL and y.k == "op" and y.a[0] == "fn:" + x.a[0][-1] and \
        all(z.k == "init" and z.a[0][:-1] == x.a[0][:-1] for z in y.a[1:])


def src(E, st, loc, fields):
    r = set()
    for f in fields:
        v = E.read(st, loc + (f,) if f else loc)
        r |= {d for d in deps(v) if d[-1] != ".#size"}
    return r
