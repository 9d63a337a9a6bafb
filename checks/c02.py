"""C02: a beam state's copies (clone, assign) carry everything and nothing else."""
from absint import *
from common import *
from sized import Sized

THIS, OTHER = ("P", "state"), ("P", "other")
# where the state is in the lattice, which way it travels, and the script object wrapping it
PLACE = ("next_elem", "retreat")
HANDLE = "pyptr"


def concrete_states(P):
    r = []
    for t in P.subclasses("StateBase"):
        cu = [m for m in P.classes[t].get("methods", []) if m["n"] == "clone" and m["usr"] in P.funcs and "body" in P.funcs[m["usr"]]]
        if cu:
            r.append(t)
    return sorted(r)


def vmethod(P, cls, name, np=None):
    for t in P.linear(cls):
        for m in P.classes.get(t, {}).get("methods", []):
            f = P.funcs.get(m["usr"])
            if m["n"] == name and f and "body" in f and (np is None or len(f["params"]) == np):
                return f
    raise Broken("%s::%s not found" % (cls, name))


def member_dyn(P, st, loc, cls):
    st.dyn[loc] = cls
    for _, f in P.allfields(cls):
        if strip_cv(f["t"]) in P.classes:
            st.dyn[loc + ("." + f["n"],)] = strip_cv(f["t"])


class Obs(Client):
    def __init__(self):
        self.wrote = []

    def on_write(self, E, st, loc, val, node):
        if not E.probing:
            self.wrote.append((loc, node))


class Counted(Sized, Obs):
    """the containers of the source hold n entries, those of the target m"""
    def __init__(self, n, m):
        Obs.__init__(self)
        self.n = {THIS: m, OTHER: n}

    def vsize(self, loc):
        return self.n.get(loc[0])


def counted(P, cls, what, fn, member, memo={}):
    """the vectors copied entry by entry: follow the copy for 0 to 3 entries"""
    k = (fn["usr"], cls, what)
    if k not in memo:
        memo[k] = runs = []
        for n in range(4):
            for m in range(4) if what == "assign" else (n,):
                cl = Counted(n, m)
                E = Engine(P, cl, unroll=16)
                st = St()
                member_dyn(P, st, (THIS,), cls)
                member_dyn(P, st, (OTHER,), cls)
                res = E.call_fn(fn, st, addr((THIS,)), [addr((OTHER,))] if what == "assign" else [])
                runs.append((cl, E, n, res))
    src = OTHER if what == "assign" else THIS
    for cl, E, n, res in memo[k]:
        for s, v in res:
            obj = (THIS,) if what == "assign" else v.a[0]
            loc = obj + ("." + member,)
            if E.read(s, loc) is init((src, "." + member)):
                continue
            if cl.sizeof(E, s, loc) != n:
                return False
            if any(E.read(s, loc + ("[%d]" % i,)) is not init((src, "." + member, "[%d]" % i)) for i in range(n)):
                return False
        if not res:
            return False
    return True


def run(P, R):
    R.explain = ("value-flow abstract interpretation of clone() and assign() of every state class: each member of the result must "
                 "hold the source member's value on every path; an incompatible source must be refused before any member changes")
    states = concrete_states(P)
    R.floor("state_classes", len(states), 3)
    for cls in states:
        short = sname(cls)
        # ---- clone
        fn = vmethod(P, cls, "clone")
        cl = Obs()
        E = Engine(P, cl)
        st = St()
        member_dyn(P, st, (THIS,), cls)
        res = E.call_fn(fn, st, addr((THIS,)), [])
        R.ob("clone succeeds", short, bool(res), "%s: clone() never returns" % short)
        R.ob("clone leaves its source alone", short, not any(l[0] == THIS for l, _ in cl.wrote),
             "%s: clone() modifies the state it copies" % where(fn))
        for s, v in res:
            if v is None or v.k != "addr" or v.a[0][0][0] != "H":
                R.violation("clone returns a new object", short, "%s: clone() returns %s" % (where(fn), v))
                continue
            obj = v.a[0]
            R.ob("clone has the same type", short, s.dyn.get(obj) == cls, "%s: clone() of a %s makes a %s" % (where(fn), short, s.dyn.get(obj)))
            compare(P, R, E, s, cls, obj, THIS, "clone", fn)
            h = E.read(s, obj + ("." + HANDLE,))
            R.ob("clone has no script wrapper yet", short, isc(h) and h.a[1] == 0,
                 "%s: the clone's script handle is %s" % (where(fn), h), key="clone %s handle" % short)
        # ---- assign
        fn = vmethod(P, cls, "assign", 1)
        cl = Obs()
        E = Engine(P, cl)
        st = St()
        member_dyn(P, st, (THIS,), cls)
        member_dyn(P, st, (OTHER,), cls)
        res = E.call_fn(fn, st, addr((THIS,)), [addr((OTHER,))])
        R.ob("assign succeeds", short, bool(res), "%s: assign() never returns" % where(fn))
        R.ob("assign never fails between two states of one type", short, not E.exc, "%s: assign() may throw %s between two %s"
             % (where(fn), E.exc and E.exc[0].ty, short))
        R.ob("assign leaves its source alone", short, not any(l[0] == OTHER for l, _ in cl.wrote), "%s: assign() modifies its source" % where(fn))
        for s, v in res:
            compare(P, R, E, s, cls, (THIS,), OTHER, "assign", fn)
            for m in PLACE + (HANDLE,):
                got = E.read(s, (THIS, "." + m))
                R.ob("assign keeps place and wrapper", "%s.%s" % (short, m), got is init((THIS, "." + m)),
                     "%s: assign() changes %s to %s" % (where(fn), m, got), key="assign %s %s" % (short, m))
        # ---- incompatible source
        for o in states:
            if o == cls or cls in P.ancestors(o):
                continue
            cl = Obs()
            E = Engine(P, cl)
            st = St()
            member_dyn(P, st, (THIS,), cls)
            member_dyn(P, st, (OTHER,), o)
            res = E.call_fn(fn, st, addr((THIS,)), [addr((OTHER,))])
            R.ob("incompatible source refused", "%s <- %s" % (short, sname(o)), not res and E.exc,
                 "%s: assigning a %s to a %s does not fail" % (where(fn), sname(o), short))
            R.ob("refused assign changes nothing", "%s <- %s" % (short, sname(o)), not any(l[0] == THIS for l, _ in cl.wrote),
                 "%s: a refused assign() modifies the state" % where(fn))
    R.assume += ["copying a library container copies its elements", "Machine-independent: states are compared by class"]


def compare(P, R, E, s, cls, obj, src, what, fn):
    for dcl, f in P.allfields(cls):
        if f["n"] in PLACE or f["n"] == HANDLE:
            continue
        loc = obj + ("." + f["n"],)
        got = E.read(s, loc)
        want = init((src, "." + f["n"]))
        ok = got is want or same_content(P, E, s, f["t"], loc, want)
        if not ok and strip_cv(f["t"]).startswith(("std::vector<", "vector<")):
            ok = counted(P, cls, what, fn, f["n"])
        R.ob("%s carries every member" % what, "%s::%s" % (sname(cls), f["n"]), ok,
             "%s: after %s, member %s (%s:%s) holds %s instead of the source's value"
             % (where(fn), what, f["n"], sname(dcl), f["l"], got), key="%s %s::%s" % (what, sname(cls), f["n"]))
