"""C07: propagation visits exactly the requested elements, in order, once each.

Machine::propagate is interpreted for max<0 and max>=0 with a monitor: each call of an
element's advance() is a visit.  What the element leaves in next_elem is arbitrary."""
import re
from absint import *
from common import *
from lin import entails, feasible, lt, le

CAP = 4
S = ("P", "state")
M = ("P", "machine")


def nextsym(n):
    return init((("P", "next"), "[%d]" % n))


def mentions(v, s, memo):
    r = memo.get(v)
    if r is None:
        r = memo[v] = v is s or any(isinstance(x, V) and mentions(x, s, memo) for x in v.a) or \
            (v.k in ("init", "addr", "iter") and isinstance(v.a[0], tuple) and any(isinstance(p, str) and s is IDX.get(p) for p in v.a[0]))
    return r


IDX = {}


class Mon(Client):
    def __init__(self, P, neg, elems, obsf, fnext, fret):
        self.P, self.neg, self.elems, self.obsf = P, neg, elems, obsf
        self.fnext, self.fret = fnext, fret
        self.max = init((("P", "max"),))
        self.bad = {}
        self.visits = 0
        self.views = 0
        self.maxseen = 0

    def flag(self, E, rule, node, msg):
        if not E.probing:
            self.bad.setdefault(rule, []).append((node, E.fr.fn if E.fr else None, msg))

    def limit_(self):
        return op("neg", self.max) if self.neg else self.max

    def size(self, E, st):
        return op("size", E.read(st, (M, self.elems)))

    def cur(self, st):
        return st.cl[2]

    def feas(self, st):
        return feasible({f: t for f, t in st.facts.items() if mentions(f, self.max, {})})

    def on_call(self, E, st, e, obj, args):
        n = e.get("n")
        if n in ("signbit",) and len(args) == 1 and args[0] is self.max:
            return [(st, c(1 if self.neg else 0))]
        if n in ("abs", "labs", "llabs", "fabs") and len(args) == 1 and args[0] is self.max:
            return [(st, self.limit_())]
        if e.get("virt") and obj is not None:
            cls = strip_cv(e.get("cls", ""))
            if n == "advance" and "ElementVoid" in [cls] + list(self.P.ancestors(cls)):
                return self.advance(E, st.copy(), e, obj, args)
            if n == "view" and "Observer" in [cls] + list(self.P.ancestors(cls)):
                return self.view(E, st.copy(), e, obj, args)
        return None

    def pending(self, E, st, node):
        """the last visited element's observer must have been told, or be absent"""
        k, ph, cur, el = st.cl
        if ph == "advanced":
            o = E.read(st, E.loc_of(el) + (self.obsf,))
            if E.truth(st, o) is not False:
                self.flag(E, "observer", node, "an element is left without its observer having been called")

    def advance(self, E, st, e, obj, args):
        if not self.feas(st):
            return []
        k, ph, cur, el = st.cl
        self.visits += not E.probing
        self.maxseen = max(self.maxseen, k)
        self.pending(E, st, e)
        want = E.read(st, (M, self.elems, E.idx(cur)))
        if obj is not want:
            self.flag(E, "element", e, "visits %s instead of the element at the index next_elem had (%s)" % (show(obj), show(cur)))
            return []
        sz = self.size(E, st)
        if not entails(st.facts, lt(cur, sz)):
            self.flag(E, "bounds", e, "the index %s is not checked against the number of elements before it is used" % show(cur))
        if k < CAP and not entails(st.facts, lt(c(k), self.limit_())):
            self.flag(E, "count", e, "visit number %d happens although max may be %s%d" % (k + 1, "-" if self.neg else "", k))
        nx = E.read(st, (S, self.fnext))
        w = E.arith(st, "+", cur, c(-1 if self.neg else 1))
        if nx is not w:
            self.flag(E, "next", e, "during the visit next_elem is %s instead of %s" % (show(nx), show(w)))
        rt = E.read(st, (S, self.fret))
        if E.truth(st, rt) is not self.neg:
            self.flag(E, "retreat", e, "the retreat flag does not tell the direction of travel (%s)" % show(rt))
        if not args or args[0] is None or args[0].k != "addr" or args[0].a[0] != (S,):
            self.flag(E, "element", e, "the element is not given the caller's state")
        k2 = k + 1 if k <= CAP else CAP      # two names in turn for what elements leave in next_elem
        s = nextsym(k2)
        IDX[E.idx(s)] = s
        memo = {}
        st.facts = {f: t for f, t in st.facts.items() if not mentions(f, s, memo)}
        for root in list(st.mem):
            for path, v in list(st.mem[root].items()):
                if mentions(v, s, memo):
                    st.cells(root)[path] = init((("P", "stale"),))
        E.setcell(st, (S, self.fnext), s)
        st.cl = (k2, "advanced", s, obj)
        E.throw(st.copy(), "?", e)
        return [(st, None)]

    def view(self, E, st, e, obj, args):
        if not self.feas(st):
            return []
        k, ph, cur, el = st.cl
        self.views += not E.probing
        if ph == "none":
            self.flag(E, "observer", e, "an observer is called before any element has been visited")
            return [(st, None)]
        o = E.read(st, E.loc_of(el) + (self.obsf,))
        if ph == "viewed":
            self.flag(E, "observer", e, "an observer is called a second time for one visit")
        if obj is not o:
            self.flag(E, "observer", e, "calls an observer other than the visited element's own")
        if len(args) < 2 or args[0] is not el or args[1] is None or args[1].k != "addr" or args[1].a[0] != (S,):
            self.flag(E, "observer", e, "the observer is not given the visited element and the state")
        st.cl = (k, "viewed", cur, el)
        E.throw(st.copy(), "?", e)
        return [(st, None)]

    def key(self, st):
        return st.cl


def run(P, R):
    R.explain = ("typestate monitor over an abstract interpretation of Machine::propagate: every visit is judged for element, bounds, count, "
                 "direction, next_elem and observer; linear facts give the bounds")
    fn = one(P, "Machine::propagate")
    elems = E_elements_loc(P)
    obsf = [f["n"] for f in P.classes["ElementVoid"]["fields"] if noptr(f["t"]) == "Observer"]
    if len(obsf) != 1:
        raise Broken("ElementVoid has no single observer member")
    sf = {f["n"] for _, f in P.allfields("StateBase")}
    if not {"next_elem", "retreat"} <= sf:
        raise Broken("StateBase lacks next_elem/retreat")
    rules = [("element", "each visit is to the element next_elem pointed at, with the caller's state"),
             ("bounds", "no index outside the machine is used"),
             ("count", "no more than |max| elements are visited"),
             ("next", "next_elem points one further in the direction of travel during the visit"),
             ("retreat", "the state knows the direction of travel"),
             ("observer", "the visited element's observer, if any, sees the state exactly once, after the element"),
             ("stop", "propagation ends only at an end of the machine or after |max| visits"),
             ("start", "the first element is the requested one"),
             ("throw", "only elements and observers can make it fail")]
    for neg in (False, True):
        mon = Mon(P, neg, elems, "." + obsf[0], ".next_elem", ".retreat")
        E = Engine(P, mon, cap=200)
        st = St()
        st.facts[op("<", mon.max, c(0))] = neg
        start = init((("P", "start"),))
        st.cl = (0, "none", start, NULL)
        args = []
        for p in fn["params"]:
            t = p["t"]
            args.append(addr((S,)) if "StateBase" in t else (start if "unsigned" in t or "size_t" in t else mon.max))
        if len(args) != 3:
            raise Broken("Machine::propagate has other parameters than expected")
        rets = E.call_fn(fn, st, addr((M,)), args)
        nret = 0
        for s, _ in rets:
            if not mon.feas(s):
                continue
            nret += 1
            k, ph, cur, el = s.cl
            mon.pending(E, s, None)
            nx = E.read(s, (S, ".next_elem"))
            if nx is not cur:
                mon.flag(E, "next", None, "next_elem is %s instead of %s at the end" % (show(nx), show(cur)))
            if k < CAP and not (entails(s.facts, le(mon.size(E, s), cur)) or entails(s.facts, le(mon.limit_(), c(k)))):
                mon.flag(E, "stop", None, "may end after %d visits although elements remain and max is not reached" % k)
            if k == 0:
                rt = E.read(s, (S, ".retreat"))
                if E.truth(s, rt) is not neg:
                    mon.flag(E, "retreat", None, "the retreat flag does not tell the direction of travel")
        for x in E.exc:
            if x.ty != "?" and mon.feas(x.st):
                mon.flag(E, "throw", x.node, "throws %s of its own" % x.ty)
        R.floor("visits_%s" % ("backward" if neg else "forward"), mon.visits, CAP)
        R.floor("observer_calls_%s" % ("backward" if neg else "forward"), mon.views, 1)
        R.floor("returns_%s" % ("backward" if neg else "forward"), nret, 2)
        for r, text in rules:
            if r == "start":
                continue
            b = mon.bad.get(r)
            R.ob(text, "max %s 0" % ("<" if neg else ">="), not b,
                 b and "%s: %s" % (where(b[0][1] or fn, b[0][0]) if b[0][0] else where(fn), b[0][2]), key="%s %s" % (r, "backward" if neg else "forward"))
    R.assume += ["an element may leave any value in next_elem", "the count limit is followed exactly for the first %d visits; the other rules for every visit" % CAP]
