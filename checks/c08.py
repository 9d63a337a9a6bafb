"""C08: what an element remembers from earlier passes never shows.

advance() of every moment element class is interpreted twice in a row: first with a state S and a
direction, on an element whose memory is arbitrary; then, from every outcome of that pass (including
failures), with an unrelated state S' and either direction.  What the second pass leaves in S' may
depend on S, or on what the element remembered before, only through quantities the path has compared
and found equal, with the comparison made against what was stored together with the reused results."""
import re
from absint import *
from common import *
from sized import *
from summ import Summaries, nodes
from c01 import member_dyn, state_class

EL, S, S2 = ("P", "element"), ("P", "state"), ("P", "state2")
CAP = 4


class Pass(Sized):
    def __init__(self, P, sm, cls, n, vm, loaders):
        self.P, self.sm, self.cls, self.n, self.vm, self.loaders = P, sm, cls, n, vm, loaders
        self.written = set()

    def vsize(self, loc):
        if len(loc) == 2 and loc[0] in self.n and (loc[0] != EL or loc[1] in self.vm):
            return self.n[loc[0]]
        return None

    def on_enter(self, E, st, fn, this, args):
        if fn["usr"] in self.loaders:
            # loads configuration data again: the same data a fresh element would hold
            M = self.sm.modref(fn)[1]
            st = st.copy()
            for m in sorted(M):
                E.setcell(st, (EL, m), init((EL, m)))
            E.throw(st.copy(), "?", None)
            return [(st, addr(E.newtemp()) if fn["rt"] != "void" else None)]
        if fn.get("cls") == "Particle" and fn.get("method") and not fn.get("ctor") and not fn["params"] and this is not None:
            fs = derived(self.P, fn)
            if fs is not None:
                # the same inputs give the same results
                l = E.loc_of(this)
                st = st.copy()
                new = {f: op("fn:" + f, *[E.read(st, l + d) for d in ds]) for f, ds in fs.items()}
                for f, v in new.items():
                    if f:
                        E.write(st, l + (f,), v, None)
                return [(st, new.get(""))]
        return self.sm.enter(E, st, fn, this, args)

    def on_write(self, E, st, loc, val, node):
        if loc[0] == EL and len(loc) > 1:
            if not E.probing:
                self.written.add(loc[1])
            if loc[1] != ".scratch":
                st.cl = (st.cl or frozenset()) | {loc[1]}


_der = {}


def derived(P, fn):
    """for a method that only computes fields of its object from other fields: {field: inputs}; '' is the result"""
    u = fn["usr"]
    if u not in _der:
        E = Engine(P, Client())
        L = (("P", "p"),)
        res = E.call_fn(fn, St(), addr(L), [])
        ok = not E.exc and res
        r = {}
        for s, v in res:
            if any(root[0] == "G" for root in s.mem):
                ok = False
            for p in s.mem.get(L[0], {}):
                x = E.read(s, L + p)
                if len(p) != 1:
                    ok = False
                elif x is not init(L + p):
                    r[p[0]] = r.get(p[0], EMPTY) | deps(x)
            if v is not None:
                r[""] = r.get("", EMPTY) | deps(v)
            for fact in s.facts:
                for f in r:
                    r[f] |= deps(fact)
        if any(d[0] != L[0] or len(d) < 2 for ds in r.values() for d in ds) or (fn["rt"] != "void" and "" not in r):
            ok = False
        _der[u] = {f: sorted({d[1:] for d in ds}) for f, ds in r.items()} if ok else None
    return _der[u]


def advance_of(P, cls):
    for t in P.linear(cls):
        ms = [m for m in P.classes.get(t, {}).get("methods", []) if m["n"] == "advance" and m["usr"] in P.funcs]
        if ms:
            return P.funcs[ms[0]["usr"]]


def loaders_of(P, sm, cls):
    """member functions the constructors call to read the configuration: no state or particle among their parameters"""
    r = set()
    own = P.linear(cls)
    todo = [f for f in P.funcs.values() if f.get("ctor") and f.get("cls") in own and "body" in f]
    for f in todo:
        for n, g in sm.callees(f):
            if g.get("method") and not g.get("ctor") and not g.get("sm") and g.get("cls") in own and \
                    any(strip_cv(noref(p["t"])) == "Config" for p in g["params"]) and not any("State" in p["t"] or "Particle" in p["t"] for p in g["params"]):
                if sm.modref(g)[1]:
                    r.add(g["usr"])
    return r


def one_pass(P, sm, cls, fn, retreat, root, n, vm, loaders, base=None):
    cl = Pass(P, sm, cls, n, vm, loaders)
    E = Engine(P, cl, cap=CAP)
    E.eager = True
    E.implicit = False
    E.alts = ALTS
    st = St()
    if base is not None:
        for r, m in base.mem.items():
            if r == EL or r[0] == "G":
                st.mem[r] = dict(m)
        st.facts = dict(base.facts)
    st.dyn[(EL,)] = cls
    member_dyn(P, st, (EL,), cls)
    st.dyn[(root,)] = state_class(P, cls)
    E.setcell(st, (root, ".retreat"), c(int(retreat)))
    res = E.call_fn(fn, st, addr((EL,)), [addr((root,))])
    return E, cl, res


def equalities(st):
    """pairs of locations found equal on the path"""
    r = set()
    for f, t in st.facts.items():
        if t and f.k == "op" and f.a[0] == "==" and f.a[1].k == "init" and f.a[2].k == "init":
            a, b = f.a[1].a[0], f.a[2].a[0]
            r.add((a, b))
            r.add((b, a))
    return r


class Judge:
    def __init__(self, n, fields):
        self.n, self.fields = n, fields

    def expand(self, d):
        """a whole particle stands for its independent fields"""
        root, path = d[0], d[1:]
        if path and path[0] == ".real":
            if len(path) == 1 or path[1] == "[*]":
                return [y for i in range(self.n[root]) for y in self.expand((root, ".real", "[%d]" % i) + path[2:])]
            if len(path) == 2:
                return [d + (f,) for f in self.fields]
        if path == (".ref",):
            return [d + (f,) for f in self.fields]
        return [d]

    def stale(self, ds, st, other, mut, root, may):
        """a dependency on something remembered that no comparison justifies"""
        eq = equalities(st)
        ds = [d for d in ds if d[-1] != ".#size"]
        known = {a for a, b in eq if b[0] == root}
        # found equal to what the element remembered then
        remembered = {a: b for a, b in eq if a[0] == other and b[0] == EL}
        extra = []
        for d in sorted(ds, key=show_loc):
            if d[0] == other and other != root:
                for x in self.expand(d):
                    if x in remembered and x not in known:
                        extra.append(remembered[x])
                    elif not may or x not in known:
                        return "%s of the state that went through before" % show_loc(x)[len("state"):].lstrip(".")
        old = sorted((d for d in ds + extra if d[0] == EL and len(d) > 1 and d[1] in mut), key=show_loc)
        if old and (not may or not any(a[0] == EL for a in known) or any(a[0] == other for a in known if other != root)):
            return "%s left over from before" % show_loc(old[0])
        return None


def vector_members(P, cls):
    return {"." + f["n"] for _, f in P.allfields(cls) if f["t"].startswith("std::vector<") and
            ("Particle" in f["t"] or "matrix" in f["t"] or "ublas" in f["t"] or "value_t" in f["t"])}


def independent(P):
    """fields of a particle that recalc() does not compute"""
    cls = "Particle"
    fs = [f["n"] for _, f in P.allfields(cls)]
    m = [x for x in P.classes[cls]["methods"] if x["n"] == "recalc" and x["usr"] in P.funcs]
    if not m:
        raise Broken("Particle::recalc not found")
    E = Engine(P, Client())
    st = St()
    L = (("P", "p"),)
    res = E.call_fn(P.funcs[m[0]["usr"]], st, addr(L), [])
    return ["." + f for f in fs if all(E.read(s, L + ("." + f,)) is init(L + ("." + f,)) for s, _ in res)]


def run(P, R):
    R.explain = ("two passes of advance() in a row are interpreted for every moment element class, direction, outcome of the first pass and "
                 "number of charge states; dependencies of the second result on the first pass must be covered by comparisons on the path")
    sm = Summaries(P)
    sm.terms = True
    fields = independent(P)
    classes = sorted(x for x in P.subclasses("MomentElementBase") if x != "MomentElementBase" and advance_of(P, x))
    sizes = [{S: 2, S2: 2, EL: 2}, {S: 2, S2: 1, EL: 2}, {S: 2, S2: 3, EL: 2}]
    n2 = nfail = nsame = 0
    for cls in classes:
        short = sname(cls)
        fn = advance_of(P, cls)
        loaders = loaders_of(P, sm, cls)
        vm = vector_members(P, cls)
        firsts = []
        mut = set()
        for r1 in (False, True):
            E, cl, res = one_pass(P, sm, cls, fn, r1, S, sizes[0], vm, loaders)
            outs = [(s, None) for s, _ in res] + [(x.st, x) for x in dedup(E.exc)]
            for s, x in outs:
                for m in {p[0] for p in s.mem.get(EL, {})}:
                    if E.read(s, (EL, m)) is not init((EL, m)):
                        mut.add(m)
            firsts.append((r1, E, outs))
        mut.discard(".scratch")
        bad, same = {}, {}
        for r1, E, outs in firsts:
            if not exempt(short, r1):
                for s, x in outs:
                    if x is None:
                        J = Judge(sizes[0], fields)
                        judge(J, E, s, None, mut, S, True, bad, "%s pass" % name(r1))
            for s, x in outs:
                if x is not None:
                    nfail += 1
                elif any(p[0] in mut for p in s.mem.get(EL, {})) and not reused(s, mut, S):
                    # the same state again: as if computed afresh
                    for r2, E0, outs0 in firsts:
                        if exempt(short, r2):
                            continue
                        cold = [t for t, y in outs0 if y is None and not reused(t, mut, S)]
                        E2, cl2, res2 = one_pass(P, sm, cls, fn, r2, S, sizes[0], vm, loaders, s)
                        nsame += 1
                        for t, _ in res2:
                            ds = [differ(E2, t, E0, t0, S, fields) for t0 in cold]
                            if ds and all(ds):
                                d = min(ds, key=len)
                                same.setdefault(d[0], "%s pass with the state of the %s pass before" % (name(r2), name(r1)))
                for r2 in (False, True):
                    if exempt(short, r2):
                        continue
                    for n in sizes if (x is None and r1 == r2) else sizes[:1]:
                        n2 += 1
                        E2, cl2, res2 = one_pass(P, sm, cls, fn, r2, S2, n, vm, loaders, s)
                        J = Judge(n, fields)
                        how = "%s pass after a %s%s pass%s" % (name(r2), "failed " if x else "", name(r1),
                                                              "" if n[S] == n[S2] else " with another number of charge states")
                        for t, _ in res2:
                            judge(J, E2, t, S, mut, S2, n[S] == n[S2], bad, how)
        R.ob("nothing remembered shows", short, not bad,
             bad and "%s: in a %s, %s of the resulting state depends on %s" % (where(fn), *next((how, f, w) for f, (w, how) in sorted(bad.items()))))
        R.ob("reused results are those a fresh computation gives", short, not same,
             same and "%s: in a %s, %s of the resulting state is not what an element without memory would give" % (where(fn), *next((h, f) for f, h in sorted(same.items()))))
        if exempt(short, True):
            # going back is refused unless the beam matches what the last forward pass left
            miss = set()
            for n in sizes:
                E, cl, res = one_pass(P, sm, cls, fn, True, S2, n, vm, loaders)
                for t, _ in res:
                    known = {b for a, b in equalities(t) if a[0] == EL}
                    for q in [(".ref",)] + [(".real", "[%d]" % i) for i in range(n[S2])]:
                        miss |= {"".join(q + (f,)) for f in fields if f != ".phis" and (S2,) + q + (f,) not in known}
                    if n[S2] != n[EL]:
                        miss.add(".real.size()")
            R.ob("going back needs a matching beam", short, not miss,
                 miss and "%s: a backward pass goes ahead although %s was not found to match what the element remembers" % (where(fn), ", ".join(sorted(miss))))
    R.cov["pass_pairs"] = n2 + nsame
    R.floor("classes", len(classes), 12)
    R.cov["failed_first_passes"] = nfail


def reused(st, mut, root):
    return any(d[0] == EL and len(d) > 1 and d[1] in mut and d[-1] != ".#size" for v in st.mem.get(root, {}).values() for d in deps(v))


def leaves(st, root):
    return {p for p in st.mem.get(root, {}) if p and N not in p}


_eq = {}
ALTS = {}


def equiv(x, y):
    """the same value, up to the identity of unknowns computed from the same things"""
    if x is y:
        return True
    if isinstance(x, V) and isinstance(y, V):
        k = (x, y)
        r = _eq.get(k)
        if r is None:
            if x.k == "top" and y.k == "top":
                u, v = alternatives(x), alternatives(y)
                r = alike(x, y) and (len(u) == 1 or len(v) == 1 or within(u, v) or within(v, u))
            elif x.k != y.k or len(x.a) != len(y.a):
                # one of them was joined with something: only what they are computed from can be compared
                r = (has_top(x) or has_top(y)) and alike(x, y)
            else:
                r = all(equiv(u, v) for u, v in zip(x.a, y.a)) or (x.k == "op" and x.a[0] == y.a[0] and x.a[0] in ("+", "*") and matched(x.a[1:], y.a[1:])) or ((has_top(x) or has_top(y)) and x.k == "agg" and alike(x, y))
            _eq[k] = r
        return r
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        return len(x) == len(y) and all(equiv(u, v) for u, v in zip(x, y))
    return x == y


def source(v):
    """what of the beam a value is computed from; the configuration is the same for all"""
    return {d for d in deps(v) if d[0] != EL and d[0][0] != "G" and d[-1] != ".#size"}


def alternatives(x):
    """the values a joined value stands for"""
    out, todo, seen = [], [x], set()
    while todo and len(out) < 40:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        if v in ALTS:
            todo += ALTS[v]
        else:
            out.append(v)
    return out


def within(u, v):
    return all(any(equiv(a, b) for b in v) for a in u)


def alike(x, y):
    """values joined over several paths: computed from the same things, apart from what chose the path"""
    a, b = source(x), source(y)
    return a <= b or b <= a


def matched(xs, ys):
    """the same operands in any order"""
    ys = list(ys)
    for x in xs:
        y = next((y for y in ys if equiv(x, y)), None)
        if y is None:
            return False
        ys.remove(y)
    return not ys


def differ(E1, a, E2, b, root, fields):
    """fields of the state whose values (or what they are computed from) differ"""
    r = []
    for p in sorted(leaves(a, root) | leaves(b, root)):
        for q in [p + (f,) for f in fields] if p[0] in (".ref", ".real") and len(p) == 1 + (p[0] == ".real") else [p]:
            x, y = E1.read(a, (root,) + q), E2.read(b, (root,) + q)
            if not equiv(x, y):
                r.append("".join(q).lstrip("."))
    return r


def name(r):
    return "backward" if r else "forward"


def exempt(short, retreat):
    # going back through a cavity is defined relative to the last forward pass, and refused if the state does not match it
    return short == "ElementRFCavity" and retreat


def dedup(excs):
    r = {}
    for x in excs:
        k = (frozenset(x.st.cl or ()),)
        r.setdefault(k, x)
    return list(r.values())


def judge(J, E, st, other, mut, root, may, bad, how):
    for p, v in sorted(st.mem.get(root, {}).items(), key=lambda z: z[0]):
        if N in p:
            continue
        w = J.stale(deps(v), st, other, mut, root, may)
        if w:
            bad.setdefault("".join(p).lstrip("."), (w, how))
