"""C01: reconfiguring one element in place leaves it as if it had been built afresh.

Entry: Machine::reconfigure.  For every element class E instantiated in the
factory: interpret reconfigure with the element being an E and the construction
of the replacement abstracted to 'an E whose members hold fresh.<member>'.
Afterwards every member of the element must hold the replacement's value, except
the position (the argument), the attached observer (unchanged) and members that
no behaviour of E reads before writing."""
import re
from absint import *
from common import *


class Recon(Client):
    def __init__(self, P, cls, ovr):
        self.P, self.cls, self.ovr = P, cls, ovr
        self.built = None
        self.early = []

    def virt(self, E, st, node, cands):
        x = [u for u in cands if u in self.ovr]
        return x or None

    def on_call(self, E, st, node, obj, args):
        if node["k"] == "Ctor" and self.cls_elem(node.get("cls", "")) and obj.a[0][0][0] == "H":
            E.setcell(st, obj.a[0], init((("P", "fresh"),)))
            st.dyn[obj.a[0]] = strip_cv(node["cls"])
            self.built = strip_cv(node["cls"])
            member_dyn(self.P, st, obj.a[0], self.built)
            st.cl = "built"
            return [(st, None)]
        return None

    def cls_elem(self, c):
        return "ElementVoid" in self.P.ancestors(strip_cv(c))

    def on_write(self, E, st, loc, val, node):
        if loc[0] == ELEM and st.cl != "built" and not E.probing:
            self.early.append((loc, node))


ELEM = ("P", "element")


def member_dyn(P, st, loc, cls):
    """a member object's class is its declared one"""
    for _, f in P.allfields(cls):
        if strip_cv(f["t"]) in P.classes:
            st.dyn[loc + ("." + f["n"],)] = strip_cv(f["t"])


# a state's position in the lattice and its scripting handle are not part of its contents
BOOKKEEPING = ("next_elem", "retreat", "pyptr")


class Exposed(Client):
    """does some path of one behaviour read a member's old value?"""
    def __init__(self, P, cls, member, touch):
        self.P, self.cls, self.member, self.touch = P, cls, member, touch
        self.read = None
        self.others = ["." + f["n"] for _, f in P.allfields(cls) if f["n"] != member]

    def note(self, E, st, loc, node):
        if E.probing:
            return
        if loc[0] != ELEM:
            return
        for l in deps(E.read(st, loc)):
            if l[0] == ELEM and (len(l) == 1 or l[1] == "." + self.member):
                self.read = self.read or (node, E.fr.fn)

    def on_read(self, E, st, loc, node):
        self.note(E, st, loc, node)

    def on_call(self, E, st, node, obj, args):
        # anything handed to library code is read by it, except pure outputs
        fn = E.P.funcs.get(node.get("fn"))
        if fn and "body" in fn and not node.get("impl"):
            return None
        if node.get("n") in ("noalias", "clear", "resize"):
            return None
        vs = list(args)
        if obj is not None and not (node.get("op") == "=" or node["k"] == "Ctor" or node.get("n") == "assign") and not elem_access(node):
            vs.append(obj)
        for v in vs:
            if v is not None and v.k == "addr" and v.a[0][0] == ELEM and len(v.a[0]) > 1:
                self.note(E, st, v.a[0], node)
        return None

    def on_enter(self, E, st, fn, this, args):
        if fn["usr"] in self.touch or any(v is not None and v.k in ("addr", "iter") and v.a[0][:2] == (ELEM, "." + self.member)
                                          for v in [this] + list(args)):
            return None
        # a callee that nowhere names the member cannot read it: forget everything else it may change
        for v in [this] + list(args):
            if v is not None and v.k in ("addr", "iter"):
                l = v.a[0]
                if l == (ELEM,):
                    for f in self.others:
                        E.setcell(st, (ELEM, f), top())
                elif not (l[0] == ELEM and l[1] == "." + self.member):
                    E.setcell(st, l, top())
        if E.isrec(fn["rt"]) or fn["rt"].endswith("&"):
            t = E.newtemp()
            E.setcell(st, t, top())
            return [(st, addr(t))]
        return [(st, top())]


def run(P, R):
    R.explain = ("value-flow abstract interpretation of the reconfigure path for every factory class: each member of the "
                 "reconfigured element must hold the freshly built element's value")
    rec = one(P, "Machine::reconfigure")
    cands = {}
    for cls in P.subclasses("Machine::element_builder_t"):
        m = re.match(r"Machine::element_builder_impl<(.*)>$", cls)
        if m and m.group(1) in P.classes:
            cands[m.group(1)] = cls
    if not cands:
        # the factory was reorganised: every concrete element class
        raise Broken("element factory classes not found")
    R.floor("element_classes", len(cands), 20)
    nf = 0
    for cls, bcls in sorted(cands.items()):
        ovr = {m["usr"] for t in P.linear(bcls) for m in P.classes.get(t, {}).get("methods", [])}
        own = set()
        for t in P.linear(bcls):
            for m in P.classes.get(t, {}).get("methods", []):
                own.add(P.resolve_virtual(m["usr"], bcls))
        cl = Recon(P, cls, own)
        E = Engine(P, cl)
        elem = (ELEM,)
        st = St()
        st.dyn[elem] = cls
        member_dyn(P, st, elem, cls)
        this = (("P", "machine"),)
        st.dyn[this] = "Machine"
        idx = (("P", "idx"),)
        cfg = (("P", "conf"),)
        # the addressed element
        st.mem[this[0]] = {}
        ep = E_elements_loc(P)
        E.setcell(st, this + (ep, E.idx(init(idx))), addr(elem))
        res = E.call_fn(rec, st, addr(this), [init(idx), addr(cfg)])
        short = sname(cls)
        R.ob("a reconfigure can succeed", short, bool(res), "reconfigure of a %s never succeeds" % short)
        R.ob("element untouched until its replacement was built", short, not cl.early,
             "%s: member %s written before the replacement is constructed" % (short, cl.early and show_loc(cl.early[0][0])))
        exposed = {}
        for s, _ in res:
            for dcl, f in P.allfields(cls):
                loc = elem + ("." + f["n"],)
                got = E.read(s, loc)
                want = init((("P", "fresh"), "." + f["n"]))
                ft = strip_cv(f["t"])
                if dcl == "ElementVoid" and f["n"] == "index":
                    ok = E.truth(s, mk("op", "==", got, init(idx))) is True or got is init(idx)
                    R.ob("position kept", short, ok, "%s: after reconfigure the element's index is %s, not its position" % (short, got))
                    continue
                if noptr(ft) == "Observer":
                    R.ob("observer kept", short, got is init(loc), "%s: reconfigure changes the attached observer to %s" % (short, got))
                    continue
                ok = got is want or E.truth(s, mk("op", "==", got, want)) is True or same_content(P, E, s, ft, loc, want, BOOKKEEPING if "StateBase" in P.ancestors(ft) else ())
                if not ok:
                    if f["n"] not in exposed:
                        exposed[f["n"]] = old_value_read(P, cls, f["n"])
                    if exposed[f["n"]] is None:
                        R.ob("member whose old value no behaviour reads", "%s (%s::%s)" % (short, sname(dcl), f["n"]), True)
                        continue
                nf += 1
                R.ob("member taken from the new configuration", "%s (%s::%s)" % (short, sname(dcl), f["n"]), ok,
                     "%s:%s after reconfiguring a %s, member %s::%s holds %s instead of the freshly built element's value"
                     % (relfile(rec["f"]), f["l"], short, sname(dcl), f["n"], got))
        # an element of another type is refused and left alone
        other = next(x for x in sorted(cands) if x not in P.ancestors(cls) and cls not in P.ancestors(x))
        cl = Recon(P, cls, own)
        E = Engine(P, cl)
        st = St()
        st.dyn[elem] = other
        E.setcell(st, this + (ep, E.idx(init(idx))), addr(elem))
        res = E.call_fn(rec, st, addr(this), [init(idx), addr(cfg)])
        bad = [s for s, _ in res]
        R.ob("type change refused", short, not bad and bool(E.exc), "reconfiguring a %s as a %s does not throw" % (sname(other), short))
        w = [x for x in E.exc if x.st.mem.get(ELEM)]
        R.ob("refused element untouched", short, not w, "a refused type change modifies the element")
    R.cov["member_obligations"] = nf
    R.assume += ["members of library type are compared as whole values", "the factory template argument names the class it builds"]


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def touching(P, member):
    """functions that name the member, directly or in a callee"""
    direct, calls = set(), {}
    for u, f in P.funcs.items():
        if "body" not in f:
            continue
        cs = calls.setdefault(u, set())
        for n in walk([f.get("inits", []), f["body"]]):
            k = n.get("k")
            if k == "Mem" and n.get("n") == member:
                direct.add(u)
            elif k in ("Call", "Ctor") and n.get("fn"):
                cs.add(n["fn"])
                if n.get("virt"):
                    for t in P.subclasses(strip_cv(n.get("cls", ""))):
                        r = P.resolve_virtual(n["fn"], t)
                        if r:
                            cs.add(r)
    res = set(direct)
    grew = True
    while grew:
        grew = False
        for u, cs in calls.items():
            if u not in res and cs & res:
                res.add(u)
                grew = True
    return res


_exp = {}


def old_value_read(P, cls, member):
    """a read of the member's previous value in some behaviour of cls, or None"""
    if member not in _exp:
        _exp[member] = touching(P, member)
    touch = _exp[member]
    for name in ("advance", "show"):
        fn = None
        for t in P.linear(cls):
            ms = [m for m in P.classes.get(t, {}).get("methods", []) if m["n"] == name and m["usr"] in P.funcs]
            if ms:
                fn = P.funcs[ms[0]["usr"]]
                break
        if fn is None or fn["usr"] not in touch:
            continue
        cl = Exposed(P, cls, member, touch)
        E = Engine(P, cl, cap=6, unroll=0)
        st = St()
        st.dyn[(ELEM,)] = cls
        args = []
        for p in fn["params"]:
            l = (("P", p["n"] or "arg"),)
            args.append(addr(l) if p["t"].endswith("&") else init(l))
            if "StateBase" in P.ancestors(noref(p["t"])):
                st.dyn[l] = state_class(P, cls)
        E.call_fn(fn, st, addr((ELEM,)), args)
        if cl.read:
            return cl.read
    return None


def state_class(P, cls):
    """the state class an element's advance casts to"""
    for t in ("MomentState", "MatrixState", "VectorState"):
        pass
    names = " ".join(P.linear(cls))
    for t in P.subclasses("StateBase"):
        if t != "StateBase" and t in names:
            return t
    return "MomentState"
