"""C12: every object is handled as what it is.

The registrations are read off by interpreting the code that makes them.  For every registered element class,
advance() is interpreted on a state of each registered type, and rebuild() on an element of each registered class
of the same simulation type: the right type is accepted, any other is refused before anything is changed, and no
object is ever converted to a class it is not."""
from absint import *
from common import *

ST, EL = ("P", "state"), ("P", "element")
FAMILIES = ("StateBase", "ElementVoid")


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def lib(fn):
    return "/src/" in fn["f"] and not os.path.basename(fn["f"]).startswith("test")


def reaching(P, hit):
    """library functions from which code satisfying hit(node) can be reached"""
    calls, T = {}, set()
    for u, f in P.funcs.items():
        if "body" not in f or not lib(f):
            continue
        cs = calls.setdefault(u, set())
        for x in walk([f["body"], f.get("inits")]):
            if hit(x):
                T.add(u)
            if x.get("k") in ("Call", "Ctor") and "fn" in x:
                cs.add(x["fn"])
                if x.get("virt"):
                    cs |= {P.resolve_virtual(x["fn"], t) for t in P.subclasses(strip_cv(x.get("cls", "")))}
    direct = set(T)
    while True:
        new = {u for u, cs in calls.items() if u not in T and cs & T}
        if not new:
            return T, direct
        T |= new


class TypeEngine(Engine):
    def cast(self, s, v, ck, t):
        self.cl.on_cast(self, s, v, ck, t)
        return super().cast(s, v, ck, t)


class Types(Client):
    def __init__(self, P, fns):
        self.P, self.fns = P, fns
        self.bad = {}
        self.casts = set()
        self.writes = []

    def inline(self, E, fn):
        return fn["usr"] in self.fns or fn["q"].split("::")[-1] == "type_name"

    def flag(self, E, node, msg):
        if not E.probing:
            w = where(E.fr.fn, node if node and "l" in node else None)
            self.bad.setdefault((w, msg), "%s: %s" % (w, msg))

    def on_call(self, E, st, e, obj, args):
        E.curnode = e
        return None

    def on_cast(self, E, st, v, ck, t):
        tgt = noptr(t)
        if v is None or v.k not in ("addr", "init") or tgt not in self.P.classes:
            return
        if not any(f in self.P.ancestors(tgt) for f in FAMILIES):
            return
        loc = E.loc_of(v)
        d = st.dyn.get(loc)
        if d is None:
            return
        if ck in ("BaseToDerived", "BitCast", "Dependent", "LValueBitCast"):
            if not E.probing:
                self.casts.add((E.fr.fn["usr"], tgt))
            if tgt not in self.P.ancestors(d):
                self.flag(E, getattr(E, "curnode", None), "a %s is taken for a %s" % (sname(d), sname(tgt)))

    def on_write(self, E, st, loc, val, node):
        if loc[0] in (ST, EL) and not E.probing:
            self.writes.append((E.fr.fn, node, loc))


class Registrar(Client):
    """collects registrations"""
    def __init__(self, P, fns):
        self.P, self.fns = P, fns
        self.states, self.elements, self.unknown = {}, {}, []

    def inline(self, E, fn):
        return fn["usr"] in self.fns and fn["n"] not in ("p_registerState", "p_registerElement")

    def text(self, E, st, v):
        if v is None:
            return None
        if v.k == "c" and isinstance(v.a[1], str):
            return v.a[1]
        if v.k == "addr":
            x = E.rawread(st, v.a[0])
            for y in walkv(x):
                if y.k == "c" and isinstance(y.a[1], str):
                    return y.a[1]
        for y in walkv(v):
            if y.k == "c" and isinstance(y.a[1], str):
                return y.a[1]

    def on_call(self, E, st, e, obj, args):
        n = e.get("n")
        if n not in ("p_registerState", "p_registerElement"):
            return None
        if E.probing:
            return [(st, None)]
        w = where(E.fr.fn, e)
        if n == "p_registerState":
            sim = self.text(E, st, args[0])
            m = re.search(r"state_builder_impl<(.*)>::", str(args[1]) + json_of(e["args"][1]))
            if sim is None or not m:
                self.unknown.append(w)
            else:
                self.states[sim] = (m.group(1), w)
        else:
            sim, name = self.text(E, st, args[0]), self.text(E, st, args[1])
            d = st.dyn.get(args[2].a[0]) if args[2].k == "addr" else None
            m = re.search(r"element_builder_impl<(.*)>", d or "")
            if sim is None or name is None or not m:
                self.unknown.append(w)
            else:
                self.elements[(sim, name)] = (m.group(1), d, w)
        return [(st, None)]


def walkv(v):
    yield v
    for x in v.a:
        if isinstance(x, V):
            yield from walkv(x)


def json_of(e):
    return " ".join(str(x.get("q", "")) for x in walk(e))


def registry(P):
    T, direct = reaching(P, lambda x: x.get("k") == "Call" and x.get("n") in ("p_registerState", "p_registerElement"))
    called = {x["fn"] for f in P.funcs.values() if "body" in f and lib(f) for x in walk(f["body"]) if x.get("k") == "Call" and "fn" in x}
    cl = Registrar(P, T)
    roots = [u for u in sorted(T) if u not in called]
    for u in roots:
        E = Engine(P, cl, cap=64, unroll=40)
        E.call_fn(P.funcs[u], St(), None, [])
    return cl, roots


def run(P, R):
    R.explain = "every registered element class against every registered state class, and every element class against every other of its simulation type"
    reg, roots = registry(P)
    if not reg.elements or not reg.states:
        raise Broken("no registrations found")
    for w in reg.unknown:
        R.ob("registrations are understood", w, False, "%s: what is registered here cannot be read off" % w)
    downs = lambda x: x.get("k") == "Cast" and x.get("ck") in ("BaseToDerived", "Dynamic", "BitCast", "LValueBitCast") and isinstance(x.get("e"), dict) and \
        any(f in P.ancestors(noptr(x["e"].get("t", ""))) for f in FAMILIES if noptr(x["e"].get("t", "")) in P.classes)
    fns, direct = reaching(P, downs)
    R.floor("state_types", len(reg.states), 3)
    R.floor("element_types", len(reg.elements), 25)
    R.cov["converting_functions"] = len(direct)
    pairs = 0
    judged = set()
    for (sim, name), (cls, bcls, w) in sorted(reg.elements.items()):
        what = "%s.%s" % (sim, name)
        if sim not in reg.states:
            R.ob("elements are registered for a simulation type that exists", what, False, "%s: element '%s' is registered for unknown simulation type '%s'" % (w, name, sim))
            continue
        R.ob("elements are registered for a simulation type that exists", what, True)
        own = reg.states[sim][0]
        # what it calls itself
        tn = virtual(P, cls, "type_name")
        E = Engine(P, Client(), cap=16)
        st = St()
        st.dyn[(EL,)] = cls
        vals = {str(v) for _, v in E.call_fn(tn, st, addr((EL,)), [])} if tn else set()
        got = {v.a[1] for _, v in E.call_fn(tn, st, addr((EL,)), []) if v is not None and v.k == "c"} if tn else set()
        R.ob("an element class names the type it is registered as", what, got == {name},
             "%s: registered as '%s' but type_name() gives %s: no lattice with it can be built" % (w, name, ", ".join(sorted(vals))))
        adv = virtual(P, cls, "advance")
        if adv is None:
            raise Broken("%s has no advance()" % cls)
        for osim, (scls, _) in sorted(reg.states.items()):
            pairs += 1
            cl = Types(P, fns | {adv["usr"]})
            E = TypeEngine(P, cl, cap=64, unroll=2)
            st = St()
            st.dyn[(EL,)] = cls
            st.dyn[(ST,)] = scls
            res = E.call_fn(adv, st, addr((EL,)), [addr((ST,))])
            for t in cl.bad.values():
                R.ob("no object is taken for what it is not", "%s on a %s state: %s" % (what, osim, t.split(": ", 1)[-1]), False, t)
            if not cl.bad:
                R.ob("no object is taken for what it is not", "%s on a %s state" % (what, osim), True)
            if own in P.ancestors(scls) or scls == own:
                R.ob("a state of its own simulation type is accepted", what, bool(res),
                     "%s: every pass of a %s state through a '%s' element fails" % (where(adv), osim, name))
            else:
                cl.writes = [x for x in cl.writes if x[2][0] == ST]
                R.ob("a state of another simulation type is refused", "%s, %s" % (what, osim), not res,
                     "%s: a %s state passes through a '%s' element of %s" % (where(adv), osim, name, sim))
                R.ob("a refused state is left alone", "%s, %s" % (what, osim), not cl.writes,
                     "%s: %s of a %s state is changed by a '%s' element of %s" % ((where(*cl.writes[0][:2]) if cl.writes[0][1] else where(cl.writes[0][0]), show_loc(cl.writes[0][2]), osim, name, sim) if cl.writes else ("",) * 5))
        # reconfiguring
        reb = virtual(P, bcls, "rebuild")
        if reb is None:
            raise Broken("%s has no rebuild()" % bcls)
        for (s2, n2), (c2, _, _) in sorted(reg.elements.items()):
            if s2 != sim:
                continue
            pairs += 1
            asg = {P.resolve_virtual(m["usr"], c2) for t in P.linear(c2) for m in P.classes.get(t, {}).get("methods", []) if m["n"] == "assign"}
            asg |= {m["usr"] for t in P.linear(c2) for m in P.classes.get(t, {}).get("methods", []) if m["n"] == "assign"}
            bld = {m["usr"] for t in P.linear(bcls) for m in P.classes.get(t, {}).get("methods", [])}
            cl = Types(P, fns | {reb["usr"]} | asg | bld)
            E = TypeEngine(P, cl, cap=64, unroll=2)
            st = St()
            st.dyn[(EL,)] = c2
            st.dyn[(("P", "builder"),)] = bcls
            res = E.call_fn(reb, st, addr((("P", "builder"),)), [addr((EL,)), addr((("P", "conf"),)), init((("P", "idx"),))])
            for t in cl.bad.values():
                R.ob("no object is taken for what it is not", "%s rebuilt as %s: %s" % (n2, what, t.split(": ", 1)[-1]), False, t)
            if not cl.bad:
                R.ob("no object is taken for what it is not", "%s rebuilt as %s" % (n2, what), True)
            if c2 == cls:
                R.ob("an element is rebuilt as its own type", what, bool(res), "%s: rebuilding a '%s' never succeeds" % (where(reb), name))
            else:
                R.ob("an element is not rebuilt as another type", "%s as %s" % (n2, what), not res and not cl.writes,
                     "%s: a '%s' element of %s can be %s as a '%s'" % (where(reb), n2, sim, "rebuilt" if res else "changed while being refused", name))
    R.floor("pairs", pairs, 300)


def virtual(P, cls, name):
    for t in P.linear(cls):
        for m in P.classes.get(t, {}).get("methods", []):
            if m["n"] == name and (m.get("virt") or m.get("over")):
                return P.funcs.get(P.resolve_virtual(m["usr"], cls))
    return None
