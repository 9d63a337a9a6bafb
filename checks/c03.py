"""C03: state introspection (getArray) describes real, distinct storage completely."""
import re
from absint import *
from common import *
from c02 import concrete_states, vmethod, member_dyn, THIS

INFO = ("P", "Info")
# the published names of each simulation type (the attributes scripts and output files rely on)
PART = ["IonZ", "IonQ", "IonEs", "IonW", "gamma", "beta", "bg", "SampleFreq", "SampleIonK", "phis", "IonEk"]
NAMES = {"MomentState": ["moment0", "moment1", "moment0_env", "moment0_rms", "moment1_env", "transmat", "last_caviphi0"]
         + PART + ["ref_" + x for x in PART],
         "MatrixState": ["state"], "VectorState": ["state"]}
COMMON = ["next_elem", "pos"]


class Ro(Client):
    def __init__(self):
        self.wrote = []

    def on_write(self, E, st, loc, val, node):
        if loc[0] == THIS and not E.probing:
            self.wrote.append(loc)


def shape(P, cls, loc):
    """axes of the storage a pointer to an element of a member designates: [(kind, container path)], element type, element stride"""
    path = loc[1:]
    i, ty, axes = 0, cls, []
    cur = loc[:1]
    esz = None
    while i < len(path):
        p = path[i]
        if p.startswith("."):
            f = next((f for _, f in P.allfields(ty) if f["n"] == p[1:]), None)
            if not f:
                return None
            ty, esz = strip_cv(f["t"]), f.get("esz")
            cur = cur + (p,)
            i += 1
            continue
        if ty.startswith("std::vector<"):
            axes.append(("vec", cur, esz))
            ty = targ(ty)
            cur = cur + (p,)
            esz = None
            i += 1
        elif ty.startswith("boost::numeric::ublas::matrix<"):
            axes.append(("row", cur, None))
            axes.append(("col", cur, None))
            ty = targ(ty)
            cur = cur + tuple(path[i:i + 2])
            i += 2
        elif ty.startswith("boost::numeric::ublas::vector<"):
            axes.append(("col", cur, None))
            ty = targ(ty)
            cur = cur + (p,)
            i += 1
        elif re.search(r"\[(\d+)\]$", ty):
            axes.append(("arr", cur, None))
            ty = re.sub(r" ?\[\d+\]$", "", ty)
            i += 1
        else:
            return None
    return axes, ty


def targ(t):
    """first template argument"""
    s = t[t.index("<") + 1:]
    d, o = 0, ""
    for ch in s:
        if ch == "<":
            d += 1
        if ch == ">":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            break
        o += ch
    return strip_cv(o.strip())


def ublas_size(P, cls, v):
    """is v the (fixed) phase-space dimension: the extent of some phase-space container, or the constant itself"""
    if v.k == "op" and v.a[0] in ("size1", "size2", "size") and v.a[1].k == "init":
        l = v.a[1].a[0]
        sh = type_at(P, cls, l)
        return bool(sh and sh.startswith("boost::numeric::ublas::"))
    return isc(v) and v.a[1] == maxsize(P, cls)


def maxsize(P, cls):
    for t in P.linear(cls):
        for e in P.enums:
            if e["q"].startswith(t + "::"):
                for n, v in e["vals"]:
                    if n == "maxsize":
                        return v
    return None


def type_at(P, cls, loc):
    ty = cls
    for p in loc[1:]:
        if p.startswith("."):
            f = next((f for _, f in P.allfields(ty) if f["n"] == p[1:]), None)
            if not f:
                return None
            ty = strip_cv(f["t"])
        else:
            ty = targ(ty) if "<" in ty else None
            if ty is None:
                return None
    return ty


def times8(P, cls, v):
    if v.k == "op" and v.a[0] == "*":
        a, b = v.a[1], v.a[2]
        return (isc(a) and a.a[1] == 8 and ublas_size(P, cls, b)) or (isc(b) and b.a[1] == 8 and ublas_size(P, cls, a))
    if v.k == "op" and v.a[0] == "<<":
        return isc(v.a[2]) and v.a[2].a[1] == 3 and ublas_size(P, cls, v.a[1])
    return isc(v) and maxsize(P, cls) is not None and v.a[1] == 8 * maxsize(P, cls)


def run(P, R):
    R.explain = ("per-index constant propagation through getArray of every state class: each returned descriptor must be complete, "
                 "name distinct storage of the state, and give that storage's own extents and strides")
    states = concrete_states(P)
    R.floor("state_classes", len(states), 3)
    sizet, dbl = enumval(P)
    total = 0
    for cls in states:
        short = sname(cls)
        fn = vmethod(P, cls, "getArray", 2)
        entries = []
        end = None
        for i in range(0, 200):
            cl = Ro()
            E = Engine(P, cl)
            st = St()
            member_dyn(P, st, (THIS,), cls)
            res = E.call_fn(fn, st, addr((THIS,)), [c(i), addr((INFO,))])
            R.ob("introspection does not modify the state", "%s[%d]" % (short, i), not cl.wrote, "%s: getArray(%d) writes %s" % (where(fn), i, cl.wrote[:1]))
            tv = {(v.a[1] != 0 if v is not None and isc(v) else None) for _, v in res}
            if tv == {False}:
                end = i
                break
            R.ob("index valid for every state of the type", "%s[%d]" % (short, i), tv == {True},
                 "%s: whether getArray(%d) returns a parameter depends on the state (%s)" % (where(fn), i, [show(v) if v is not None else None for _, v in res][:3]),
                 key="%s index %d not fixed" % (short, i))
            for s, v in res:
                if v is not None and isc(v) and v.a[1] == 0:
                    continue
                entries.append((i, E, s))
        if end is None:
            R.violation("enumeration ends", short, "%s: getArray never returns false" % where(fn))
            end = 200
        for i in (end + 1, end + 2, end + 50, 2 ** 31, 2 ** 32 - 1):
            E = Engine(P, Ro())
            st = St()
            member_dyn(P, st, (THIS,), cls)
            res = E.call_fn(fn, st, addr((THIS,)), [c(i), addr((INFO,))])
            R.ob("no parameter after the end", "%s[%d]" % (short, i), all(v is not None and isc(v) and v.a[1] == 0 for _, v in res),
                 "%s: getArray(%d) succeeds although getArray(%d) fails" % (where(fn), i, end))
        names, stores = {}, {}
        total += len(entries)
        for i, E, s in entries:
            def cell(x):
                return E.read(s, (INFO,) + x)
            nm = cell((".name",))
            good = nm.k == "c" and nm.a[0] == "str"
            R.ob("has a name", "%s[%d]" % (short, i), good, "%s: getArray(%d) gives name %s" % (where(fn), i, nm))
            label = "%s.%s" % (short, nm.a[1] if good else "#%d" % i)
            if good:
                R.ob("one fixed name per index", label, names.setdefault(nm.a[1], i) == i,
                     "%s: name '%s' is used by parameters %d and %d" % (where(fn), nm.a[1], names.get(nm.a[1], -1), i))
            nd, ty, pt = cell((".ndim",)), cell((".type",)), cell((".ptr",))
            R.ob("rank set", label, isc(nd) and 0 <= nd.a[1] <= 3, "%s: %s: number of dimensions is %s" % (where(fn), label, nd), key="%s ndim" % label)
            R.ob("type set", label, isc(ty), "%s: %s: element type not set (%s)" % (where(fn), label, ty), key="%s type" % label)
            if pt.k == "op" and pt.a[0].startswith("cast"):
                pt = pt.a[-1]
            inside = pt.k == "addr" and pt.a[0][0] == THIS
            R.ob("storage inside the state", label, inside, "%s: %s: pointer is %s" % (where(fn), label, pt), key="%s ptr" % label)
            if not inside or not isc(nd):
                continue
            l = pt.a[0]
            R.ob("storage not shared by two names", label, stores.setdefault(l, label) == label,
                 "%s: %s and %s both expose %s" % (where(fn), stores.get(l), label, show_loc(l)), key="%s aliases" % label)
            # a name that is another member's name
            own = [p[1:] for p in l[1:] if p.startswith(".")]
            if good:
                want = nm.a[1]
                other = named_member(P, cls, want)
                pub = "_".join(own) if own[0] == "ref" else own[-1]
                if other and pub != want:
                    R.violation("name denotes its own quantity", label, "%s: parameter '%s' exposes %s" % (where(fn), want, show_loc(l)), key="%s exposes other" % label)
                else:
                    R.ob("name denotes its own quantity", label, True)
            sh = shape(P, cls, l)
            if sh is None:
                R.violation("storage shape known", label, "%s: %s: cannot determine the storage behind %s" % (where(fn), label, show_loc(l)))
                continue
            axes, ety = sh
            R.ob("element type right", label, isc(ty) and ((ety == "double" and ty.a[1] == dbl) or (ety in ("unsigned long", "size_t") and ty.a[1] == sizet)),
                 "%s: %s: storage of type %s described as type %s" % (where(fn), label, ety, ty), key="%s etype" % label)
            R.ob("starts at the first element", label, all(p in ("[0]",) or p.startswith(".") for p in l[1:]),
                 "%s: %s starts at %s" % (where(fn), label, show_loc(l)), key="%s first" % label)
            # inner axes first, the charge-state axis last
            order = [a for a in axes if a[0] != "vec"] + [a for a in axes if a[0] == "vec"]
            R.ob("rank is the storage's", label, nd.a[1] == len(order), "%s: %s has %s dimensions, its storage %d" % (where(fn), label, nd, len(order)), key="%s rank" % label)
            if nd.a[1] != len(order):
                continue
            for k, (kind, cont, esz) in enumerate(order):
                d, sr = cell((".dim", "[%d]" % k)), cell((".stride", "[%d]" % k))
                if kind == "vec":
                    okd = d.k == "op" and d.a[0] == "size" and d.a[1].k == "init" and (type_at(P, cls, d.a[1].a[0]) or "").startswith("std::vector<")
                    oks = isc(sr) and esz is not None and sr.a[1] == esz
                elif kind == "row":
                    okd, oks = ublas_size(P, cls, d), times8(P, cls, sr)
                else:
                    okd, oks = ublas_size(P, cls, d), isc(sr) and sr.a[1] == 8
                R.ob("extent of axis", "%s axis %d" % (label, k), okd, "%s: %s: extent of axis %d is %s" % (where(fn), label, k, d), key="%s dim%d" % (label, k))
                R.ob("stride of axis", "%s axis %d" % (label, k), oks, "%s: %s: stride of axis %d is %s" % (where(fn), label, k, sr), key="%s stride%d" % (label, k))
        for n in NAMES.get(short, []) + COMMON:
            R.ob("published quantity present", "%s.%s" % (short, n), n in names, "%s: no parameter '%s'" % (where(fn), n))
    R.cov["descriptors"] = total
    R.assume += ["all charge-state vectors of a state have one length (C21)", "phase-space vectors and matrices have the fixed dimension"]


def named_member(P, cls, name):
    for _, f in P.allfields(cls):
        if f["n"] == name:
            return True
        if f["n"] in ("ref", "real"):
            for _, g in P.allfields(noptr(targ(f["t"]) if "<" in f["t"] else f["t"])):
                if ("ref_" if f["n"] == "ref" else "") + g["n"] == name:
                    return True
    return False


def enumval(P):
    """codes of the two element types, from the enumeration itself"""
    v = {}
    for e in P.enums:
        if e["q"].startswith("StateBase::ArrayInfo"):
            for k in e["vals"]:
                v[k[0]] = k[1]
    if "Double" not in v or "Sizet" not in v:
        raise Broken("the element types of StateBase::ArrayInfo were not found")
    return v["Sizet"], v["Double"]
