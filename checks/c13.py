"""C13: a machine holds exactly the lattice's elements, and lookup finds them.

The constructor is interpreted with lattices of zero to three entries, every element constructor able to fail; the
destructor with as many elements; the lookups on the ordered tables they search; reconfigure with the name changing or not."""
from absint import *
from common import *
from sized import *

M, LAT = ("P", "machine"), ("P", "lattice")
INS = ".#ins"
KEYMAP = re.compile(r"std::(multi)?map<Machine::LookupKey")


def EL(k):
    return ("P", "elem%d" % k)


class Build(Sized):
    oldname = None

    def __init__(self, P, n):
        self.P, self.n = P, n
        self.bad = {}
        self.builds = 0
        self.builder = "Machine::element_builder_t"

    def key(self, st):
        return st.cl

    def vsize(self, loc):
        return self.n if loc == (LAT,) or loc == (M, self.elems) else None

    def flag(self, E, rule, node, msg):
        if not E.probing:
            w = where(E.fr.fn, node if node and "l" in node else None) if E.fr else ""
            self.bad.setdefault(rule, {}).setdefault(msg, "%s: %s" % (w, msg))

    def inline(self, E, fn):
        return "/src/" in fn["f"] and os.path.basename(fn["f"]) in ("base.cpp", "base.h") and not re.search(r"Log|Config|operator<<|StateBase|ElementVoid::(?!set_)", fn["q"])

    # ---- the tables
    def entry(self, E, st, loc):
        v = E.rawread(st, loc)
        while v.k == "agg":
            v = v.a[0]
        if v.k == "init" and v.a[0][0] == LAT and len(v.a[0]) == 2:
            return int(v.a[0][1][1:-1]) if v.a[0][1][1:-1].isdigit() else None
        if loc[0] == LAT and len(loc) == 2 and loc[1][1:-1].isdigit():
            return int(loc[1][1:-1])
        return None

    def lookupkey(self, E, st, v):
        """(name, index) of a LookupKey, or None"""
        if v is None:
            return None
        l = v.a[0] if v.k == "addr" else None
        g = (lambda n: E.read(st, l + ("." + n,))) if l else (lambda n: project(v, ("." + n,)))
        return self.strval(E, st, g("name")), g("index")

    def strval(self, E, st, v):
        while v is not None and v.k == "agg":
            v = v.a[0]
        return v

    def on_call(self, E, st, e, obj, args):
        n, q = e.get("n", "") or "", e.get("q", "") or ""
        cls = strip_cv(e.get("cls", "") or "")
        if q.startswith("Config::") and n in ("get", "tryGet", "has") and args:
            return self.conf(E, st.copy(), e, obj, args)
        if cls == self.builder or self.builder in self.P.ancestors(cls) if cls in self.P.classes else False:
            if n == "build":
                return self.build(E, st.copy(), e, obj, args)
            if n == "rebuild":
                return self.rebuild(E, st.copy(), e, obj, args)
        if n == "type_name" and e.get("virt"):
            return [(st, init((EL(9), ".type")))]
        if KEYMAP.match(q) and obj is not None and obj.k == "addr" and n in ("insert", "emplace", "erase", "operator[]", "lower_bound", "upper_bound", "find", "equal_range", "swap", "begin", "end", "clear", "count"):
            return self.table(E, st.copy(), e, obj.a[0], n, args)
        if e.get("k") == "Ctor" and KEYMAP.match(q) and obj is not None and obj.k == "addr":
            st = st.copy()
            src = E.rawread(st, args[0].a[0] + (INS,)) if args and args[0] is not None and args[0].k == "addr" else c(0)
            E.setcell(st, obj.a[0] + (INS,), src)
            return [(st, None)]
        if n == "swap" and obj is None and len(args) == 2 and any(KEYMAP.match(t.replace("&", "").strip()) for t in e.get("pt", [])):
            return self.table(E, st.copy(), e, args[0].a[0], "swap", args[1:])
        return super().on_call(E, st, e, obj, args)

    def table(self, E, st, e, loc, n, args):
        cur = E.rawread(st, loc + (INS,))
        if not (cur.k == "c" or cur.k == "op" and cur.a[0] in ("ins", "del")):
            cur = c(0) if E.rawread(st, loc).k == "op" else init(loc + (INS,))
        if n == "swap":
            o = args[0].a[0]
            oc = E.rawread(st, o + (INS,))
            if not (oc.k == "c" or oc.k == "op" and oc.a[0] in ("ins", "del")):
                oc = c(0) if E.rawread(st, o).k == "op" else init(o + (INS,))
            E.setcell(st, loc + (INS,), oc)
            E.setcell(st, o + (INS,), cur)
            return [(st, None)]
        if n in ("lower_bound", "upper_bound", "find"):
            k = self.lookupkey(E, st, args[0])
            t = E.newtemp()
            it, end = mk("iter", loc + ("#",), op(n, *[x or c(0) for x in k])), mk("iter", loc + ("#",), op("tableend"))
            if n == "find" and self.oldname is not None:
                # the table held exactly the element's row: what is found follows from what was done since
                tab = [self.oldname]
                for o in chain(cur)[1]:
                    tab = [x for x in tab if x is not o[1]] + ([o[1]] if o[0] == "ins" else [])
                if any(x is k[0] for x in tab):
                    for a, b in ((it, end), (end, it)):
                        x = E.assume(st, op("==", a.a[1], b.a[1]), False)
                        st = st if x is None else x
            E.setcell(st, t, it)
            return [(st, addr(t))]
        if n in ("begin", "end"):
            t = E.newtemp()
            E.setcell(st, t, mk("iter", loc + ("#",), op("table" + n)))
            return [(st, addr(t))]
        if n == "clear":
            E.setcell(st, loc + (INS,), c(0))
            return [(st, None)]
        if n == "erase" and args and args[0] is not None:
            k = self.lookupkey(E, st, args[0])
            a = args[0]
            it = E.rawread(st, a.a[0]) if a.k == "addr" else a
            if it.k == "iter" and it.a[1].k == "op" and it.a[1].a[0] == "find":
                k = it.a[1].a[1], it.a[1].a[2]
            E.setcell(st, loc + (INS,), op("del", cur, k[0] or c(0), k[1] or c(0)))
            return [(st, top())]
        if n in ("insert", "emplace") and args:
            a = args[-1] if n == "insert" else None
            if n == "insert" and a.k == "addr":
                k = self.lookupkey(E, st, addr(a.a[0] + (".first",)))
                v = E.read(st, a.a[0] + (".second",))
            elif n == "emplace" and len(args) == 2:
                k = self.lookupkey(E, st, args[0])
                v = E.argval(st, args[1], (e.get("pt") or ["", ""])[1])
            else:
                return None
            E.setcell(st, loc + (INS,), op("ins", cur, k[0] or c(0), k[1] or c(0), v))
            t = E.newtemp()
            E.setcell(st, t, top())
            return [(st, addr(t))]
        if n == "operator[]":
            k = self.lookupkey(E, st, args[0])
            r = ("P", "slot%d" % e["l"], loc, k)
            return [(st, addr((r,)))]
        return None

    def on_write(self, E, st, loc, val, node):
        if isinstance(loc[0], tuple) and len(loc[0]) == 4 and str(loc[0][1]).startswith("slot") and len(loc) == 1:
            l, k = loc[0][2], loc[0][3]
            cur = E.rawread(st, l + (INS,))
            if not (cur.k == "c" or cur.k == "op" and cur.a[0] in ("ins", "del")):
                cur = c(0) if E.rawread(st, l).k == "op" else init(l + (INS,))
            E.setcell(st, l + (INS,), op("ins", cur, k[0] or c(0), k[1] or c(0), val))

    # ---- events
    def conf(self, E, st, e, obj, args):
        key = args[0]
        if key.k == "addr":
            key = next((y for y in walkv(E.rawread(st, key.a[0])) if y.k == "c" and isinstance(y.a[1], str)), key)
        key = key.a[1] if key.k == "c" else None
        if e.get("n") == "get" and len(args) == 1:
            E.throw(st.copy(), "key_error", e)
        i = self.entry(E, st, obj.a[0]) if obj is not None and obj.k == "addr" else None
        if key == "elements":
            return [(st, addr((LAT,)))]
        if i is not None:
            return [(st, addr((("P", "%s%d" % (key, i)),)))]
        return [(st, addr((("P", "%s" % key),)))]

    def keys(self, E, obj):
        """the map keys by which an object was looked up, and the maps"""
        out = []
        back = {"[~%d]" % n: v for v, n in getattr(E, "_vn", {}).items()}
        for x in walkv(obj):
            if x.k in ("init", "addr", "iter") and isinstance(x.a[0], tuple):
                for i, p in enumerate(x.a[0]):
                    if isinstance(p, str) and p in back and back[p].k == "op" and back[p].a[0] == "key":
                        out.append((back[p], x.a[0][:i]))
        return out

    def build(self, E, st, e, obj, args):
        built, dead = st.cl
        k = len(built)
        i = self.entry(E, st, args[0].a[0]) if args and args[0].k == "addr" else None
        if not E.probing:
            self.builds += 1
        E.throw(st.copy(), "?", e)
        if i is None:
            self.flag(E, "each entry is built once, in order", e, "an element is built from something else than an entry of the lattice")
        keys = self.keys(E, obj)
        d = {x for kk, _ in keys for x in roots(kk)}
        if i is not None and ("P", "type%d" % i) not in d:
            self.flag(E, "an element is of the type its entry names", e, "the class built for entry %s is not looked up by that entry's type" % i)
        if ("P", "sim_type") not in d:
            self.flag(E, "an element is of the type its entry names", e, "the class built is not looked up among those of the lattice's sim_type")
        for kk, l in keys:
            if E.assume(st.copy(), op("==", kk, op("size", E.rawread(st, l))), True) is not None:
                self.flag(E, "an unknown type is refused", e, "an element may be built from a class looked up under a type that is not registered")
        st.cl = (built + (i,), dead)
        st.dyn[(EL(k),)] = "ElementVoid"
        return [(st, addr((EL(k),)))]

    def rebuild(self, E, st, e, obj, args):
        E.throw(st.copy(), "?", e)
        if args[0].k != "addr" and args[0].k != "init":
            raise Broken("rebuild of an unknown element")
        l = E.loc_of(args[0])
        E.setcell(st, l + (".name",), init((("P", "newname"),)))
        st.cl = (st.cl[0] + ("rebuilt",), st.cl[1])
        return [(st, None)]

    def on_delete(self, E, st, v, node):
        built, dead = st.cl
        l = v.a[0] if v.k in ("addr", "init") else None
        if l and l[0][0] == "P" and str(l[0][1]).startswith("elem"):
            k = int(l[0][1][4:])
            if k in dead:
                self.flag(E, "elements are destroyed once", node, "an element is destroyed twice")
            st.cl = (built, dead | {k})
        elif v.k == "init" and l[0] == M:
            if l in dead:
                self.flag(E, "elements are destroyed once", node, "an element is destroyed twice")
            st.cl = (built, dead | {l})


def walkv(v):
    yield v
    for x in v.a:
        if isinstance(x, V):
            yield from walkv(x)


def roots(v):
    for x in walkv(v):
        if x.k in ("init", "addr", "iter") and isinstance(x.a[0], tuple):
            for p in x.a[0]:
                if isinstance(p, tuple):
                    yield p
                    for y in p:
                        if isinstance(y, V):
                            yield from roots(y)


def chain(v):
    """insertions and removals, oldest first"""
    out = []
    while v.k == "op" and v.a[0] in ("ins", "del"):
        out.append((v.a[0],) + tuple(v.a[2:]))
        v = v.a[1]
    return v, out[::-1]


def tables(P):
    """members of Machine that map lookup keys to elements"""
    return ["." + f["n"] for f in P.classes["Machine"]["fields"] if KEYMAP.match(f["t"])]


def machine(P, E, st, cl):
    cl.elems = E_elements_loc(P)


def run(P, R):
    R.explain = "constructor and destructor for lattices of zero to three entries with every step able to fail; lookups and reconfigure on any machine"
    ctor = next(f for f in P.funcs.values() if f["q"] == "Machine::Machine" and "body" in f and len(f["params"]) == 1 and "Config" in f["params"][0]["t"])
    ctors = 0
    where_ = {}
    for n in range(4):
        cl = Build(P, n)
        cl.elems = E_elements_loc(P)
        E = Engine(P, cl, cap=64, unroll=8)
        st = St()
        st.cl = ((), frozenset())
        st.dyn[(M,)] = "Machine"
        cl.vsize = lambda loc: n if loc == (LAT,) else None
        res = E.call_fn(ctor, st, addr((M,)), [addr((("P", "conf"),))])
        w = where(ctor)
        ob = lambda rule, ok, msg: R.ob(rule, "%d entries" % n, ok, "%s: with %d entries, %s" % (w, n, msg))
        for rule in ("each entry is built once, in order", "an element is of the type its entry names", "an unknown type is refused", "elements are destroyed once"):
            b = cl.bad.get(rule, {})
            R.ob(rule, "%d entries" % n, not b, next(iter(b.values()), ""))
        ob("a machine can be built", bool(res), "construction never succeeds")
        order = all(s.cl[0] == tuple(range(n)) for s, _ in res)
        ob("each entry is built once, in order", order, "the elements built are from entries %s" % [list(s.cl[0]) for s, _ in res if s.cl[0] != tuple(range(n))][:1])
        for s, _ in res:
            ctors += 1
            k = cl.sizeof(E, s, (M, cl.elems))
            got = [E.read(s, (M, cl.elems, "[%d]" % i)) for i in range(k or 0)]
            ob("the machine holds each element built, in order", k == n and all(g is addr((EL(i),)) for i, g in enumerate(got)),
               "the machine holds %s elements: %s" % (k, ", ".join(map(str, got))))
            ob("elements are destroyed once", not s.cl[1], "an element of the finished machine has been destroyed")
            for i in range(n):
                x = E.read(s, (EL(i), ".index"))
                ob("an element's index is its position", x.k == "c" and x.a[1] == i, "element %d gets index %s" % (i, x))
            kinds = {}
            for t in tables(P):
                base, ops = chain(E.rawread(s, (M, t, INS)))
                names = {}
                for o in ops:
                    if o[0] != "ins":
                        continue
                    el = next((i for i in range(n) if o[3] is addr((EL(i),))), None)
                    nm = "name" if el is not None and o[1] is init((EL(el), ".name")) else "type" if el is not None and (o[1] is init((("P", "type%d" % el),)) or o[1] is init((EL(9), ".type"))) else str(o[1])
                    ix = o[2].a[1] if o[2].k == "c" else str(o[2])
                    names.setdefault(nm, []).append((el, ix))
                for nm in names:
                    if nm in ("name", "type"):
                        where_.setdefault(nm, t)
                    kinds.setdefault(nm, []).append(sorted(names[nm], key=str))
            if n:
                want = [(i, i) for i in range(n)]
                for nm in ("name", "type"):
                    ob("every element is entered once under its name and its type", kinds.get(nm) == [want],
                       "entered by %s: %s (element, index)" % (nm, kinds.get(nm)))
                extra = [x for x in kinds if x not in ("name", "type")]
                ob("every element is entered once under its name and its type", not extra, "an element is entered under %s" % extra)
        nbad = 0
        for x in E.exc:
            b, d = x.st.cl
            left = [k for k in range(len(b)) if k not in d]
            if left and not nbad:
                nbad = 1
                wx = where(x.fn, x.node) if x.fn and x.node and "l" in x.node else w
                R.ob("a failed construction leaves nothing behind", "%d entries" % n, False, "%s: when this fails, %d element(s) already built are never destroyed" % (wx, len(left)))
        if not nbad:
            R.ob("a failed construction leaves nothing behind", "%d entries" % n, bool(E.exc))
        R.cov["failure_paths"] = R.cov.get("failure_paths", 0) + len(E.exc)
        # destructor
        dt = next(f for f in P.funcs.values() if f["q"] == "Machine::~Machine" and "body" in f)
        cl = Build(P, n)
        cl.elems = E_elements_loc(P)
        E = Engine(P, cl, cap=64, unroll=8)
        st = St()
        st.cl = ((), frozenset())
        st.dyn[(M,)] = "Machine"
        res = E.call_fn(dt, st, addr((M,)), [])
        want = frozenset((M, cl.elems, "[%d]" % i) for i in range(n))
        ok = bool(res) and all(s.cl[1] == want for s, _ in res) and not cl.bad
        R.ob("destroying a machine destroys each of its elements once", "%d elements" % n, ok,
             "%s: %s" % (where(dt), next((t for b in cl.bad.values() for t in b.values()), "destroys %s" % [len(s.cl[1]) for s, _ in res])))
    R.floor("successful_constructions", ctors, 4)
    if len(where_) != 2:
        raise Broken("tables by name and by type not recognised")
    lookups(P, R, where_["name"], where_["type"])
    rename(P, R, where_["name"])


MAXI = 2**64 - 1


def sc(x):
    return c(x)


class Look(Build):
    """the tables hold entries whose names lie before, at and after the name looked for"""
    def __init__(self, P, rows):
        super().__init__(P, 0)
        self.rows = rows                    # table -> sorted [(name, index, element)]
        self.query = {}
        self.uses = set()

    def inline(self, E, fn):
        return ("/src/" in fn["f"] or "/python/" in fn["f"]) and os.path.basename(fn["f"]) in ("base.cpp", "base.h", "util.h", "modmachine.cpp", "pyflame.h") and not re.search(r"Log|Config|StateBase|~", fn["q"])

    def vsize(self, loc):
        return 3 if loc == (M, self.elems) else None

    def text(self, E, st, v):
        for _ in range(4):
            if v is None or v.k == "c":
                break
            v = E.rawread(st, v.a[0]) if v.k == "addr" else v.a[0] if v.k == "agg" or v.k == "op" and len(v.a) == 1 else next((y for y in walkv(v) if y.k == "c" and isinstance(y.a[1], str)), None)
        return v.a[1] if v is not None and v.k == "c" and isinstance(v.a[1], str) else None

    def fill(self, E, st):
        for t, rows in self.rows.items():
            for i, (n, x, el) in enumerate(rows):
                l = (M, t, "[%d]" % i)
                E.setcell(st, l + (".first", ".name"), c(n))
                E.setcell(st, l + (".first", ".index"), c(x))
                E.setcell(st, l + (".second",), addr((el,)))

    def on_call(self, E, st, e, obj, args):
        n, q = e.get("n", "") or "", e.get("q", "") or ""
        o = e.get("op") or (n[8:] if n.startswith("operator") else "")
        if re.match(r"_?PyArg_ParseTuple", n):
            return self.parse(E, st.copy(), e, args)
        if n in ("PyLong_FromLong", "PyInt_FromLong", "PyLong_FromSize_t", "PyLong_FromUnsignedLong", "PyLong_FromSsize_t", "PyLong_FromUnsignedLongLong", "PyLong_FromLongLong", "Py_BuildValue"):
            return [(st, op("pyint", args[-1]))]
        if n == "PyList_New":
            return [(st, addr((("P", "list"),)))]
        if n == "PyList_Append":
            st = st.copy()
            st.cl = (st.cl[0] + (args[1],), st.cl[1])
            return [(st, c(0))]
        if n == "PyErr_Occurred":
            st = st.copy()
            st.cl = (st.cl[0] + ("failed",), st.cl[1])
            return [(st, c(1))]
        if n in ("PyErr_Format", "PyErr_SetString"):
            st = st.copy()
            st.cl = (st.cl[0] + ("error" if args[1].k == "c" else "failed",), st.cl[1])
            return [(st, c(0))]
        if n.startswith(("Py_", "_Py_")):
            return [(st, None)]
        if n in ("c_str", "data") and obj is not None and q.startswith("std::"):
            v = self.text(E, st, obj)
            if v is not None:
                return [(st, c(v))]
        if n in ("strcmp", "strcasecmp", "strncmp", "strncasecmp", "memcmp") and len(args) >= 2:
            ts = [self.text(E, st, x) for x in args[:2]]
            if None not in ts and all(x.k == "c" for x in args[2:]):
                a, b = [t.lower() if "case" in n else t for t in ts]
                if len(args) > 2:
                    a, b = a[:args[2].a[1]], b[:args[2].a[1]]
                return [(st, c((a > b) - (a < b)))]
        if q.startswith("std::") and n in ("size", "length", "empty") and obj is not None and "string" in q.split("<")[0]:
            v = self.text(E, st, obj)
            if v is not None:
                return [(st, c(len(v) if n != "empty" else int(not v)))]
        if q.startswith("std::") and n == "compare" and len(args) >= 3 and args[0].k == "c" and args[1].k == "c":
            a, b = self.text(E, st, obj), self.text(E, st, args[2])
            if a is not None and b is not None and len(args) == 3:
                a = a[args[0].a[1]:][:args[1].a[1]]
                return [(st, c((a > b) - (a < b)))]
            return [(st, top())]
        if q.startswith("std::") and (n == "compare" or o in ("<", ">", "==", "!=", "<=", ">=")) and "iterator" not in q.split("<")[0].lower():
            xs = ([obj] if obj is not None else []) + list(args)
            ts = [self.text(E, st, x) for x in xs[:2]]
            if len(ts) == 2 and None not in ts:
                a, b = ts
                return [(st, c((a > b) - (a < b)) if n == "compare" else c(int({"<": a < b, ">": a > b, "==": a == b, "!=": a != b, "<=": a <= b, ">=": a >= b}[o])))]
            tu = [self.tup(E, st, x) for x in xs[:2]]
            if len(tu) == 2 and None not in tu:
                a, b = tu
                return [(st, c(int({"<": a < b, ">": a > b, "==": a == b, "!=": a != b, "<=": a <= b, ">=": a >= b}[o])))]
        if q in ("std::tie", "std::make_tuple", "std::forward_as_tuple") or n in ("tie", "make_tuple", "forward_as_tuple") and q.startswith(("std::", "boost::")):
            t = E.newtemp()
            for i, a in enumerate(args):
                v = self.text(E, st, a)
                E.setcell(st, t + ("[t%d]" % i,), c(v) if v is not None else E.argval(st, a, (e.get("pt") or [""] * 9)[i]))
            return [(st, addr(t))]
        return super().on_call(E, st, e, obj, args)

    def tup(self, E, st, x):
        if x is None or x.k != "addr":
            return None
        vs = [E.rawread(st, x.a[0] + ("[t%d]" % i,)) for i in range(2)]
        return tuple(v.a[1] for v in vs) if all(v.k == "c" for v in vs) else None

    def parse(self, E, st, e, args):
        i = next((j for j, a in enumerate(args) if a is not None and a.k == "c" and isinstance(a.a[1], str)), None)
        names = args[i + 1]
        for j, a in enumerate(args[i + 2:]):
            key = self.text(E, st, E.rawread(st, E.loc_of(names) + ("[%d]" % j,)))
            self.uses.add(key)
            if key in self.query:
                E.setcell(st, E.loc_of(a), c(self.query[key]))
        return [(st, c(1))]

    def table(self, E, st, e, loc, n, args):
        rows = self.rows.get(loc[1]) if loc[0] == M and len(loc) == 2 else None
        if rows is None:
            return None
        ks = [(a, b) for a, b, _ in rows]
        if n in ("begin", "end"):
            p = 0 if n == "begin" else len(rows)
        else:
            nm, ix = self.lookupkey(E, st, args[0])
            nm, ix = self.text(E, st, nm), ix.a[1] if ix is not None and ix.k == "c" else None
            if nm is None or ix is None:
                raise Broken("lookup of an unknown key at %s" % where(E.fr.fn, e))
            ix &= MAXI
            lo, hi = sum(k < (nm, ix) for k in ks), sum(k <= (nm, ix) for k in ks)
            if n == "equal_range":
                t = E.newtemp()
                E.setcell(st, t + (".first",), mk("iter", loc, c(lo)))
                E.setcell(st, t + (".second",), mk("iter", loc, c(hi)))
                return [(st, addr(t))]
            if n == "count":
                return [(st, c(hi - lo))]
            p = {"lower_bound": lo, "upper_bound": hi, "find": lo if hi > lo else len(rows)}[n]
        t = E.newtemp()
        E.setcell(st, t, mk("iter", loc, c(p)))
        return [(st, addr(t))]


def start(P, rows):
    cl = Look(P, rows)
    cl.elems = E_elements_loc(P)
    E = Engine(P, cl, cap=64, unroll=12)
    st = St()
    st.cl = ((), frozenset())
    st.dyn[(M,)] = "Machine"
    cl.fill(E, st)
    return cl, E, st


def lookups(P, R, byname, bytype):
    # the order of the keys
    lt = next((f for f in P.funcs.values() if f["q"] == "Machine::LookupKey::operator<" and "body" in f), None)
    A, B = ("P", "a"), ("P", "b")
    if lt is None:
        raise Broken("no order on lookup keys")
    for na, nb in (("m", "m"), ("l", "m"), ("m", "l"), ("mm", "m"), ("m", "mm"), ("M", "m"), ("m", "M"), ("", "m"), ("m", "")):
        for ia, ib in ((1, 1), (1, 2), (2, 1), (0, MAXI), (MAXI, 0)):
            cl, E, st = start(P, {})
            for r, x, i in ((A, na, ia), (B, nb, ib)):
                E.setcell(st, (r, ".name"), c(x))
                E.setcell(st, (r, ".index"), c(i))
            vs = [v for _, v in E.call_fn(lt, st, addr((A,)), [addr((B,))])]
            want = (na, ia) < (nb, ib)
            got = {bool(v.a[1]) if v is not None and v.k == "c" else None for v in vs}
            if None in got:
                raise Broken("order of lookup keys not followed at %s" % where(lt))
            rel = lambda a, b: "less" if a < b else "greater" if a > b else "the same"
            how = lambda a, b: rel(a, b) + (" (differing in case)" if a != b and a.lower() == b.lower() else " (one begins with the other)" if a != b and (a.startswith(b) or b.startswith(a)) else "")
            R.ob("keys are ordered by name, then position", "name %s, index %s" % (how(na, nb), rel(ia, ib)), got == {want},
                 "%s: a key with name %s and index %s is %sconsidered less" % (where(lt), how(na, nb), rel(ia, ib), "not " if want else ""))
    # lookups on tables with names before, at and after the one looked for
    find = next(f for f in P.funcs.values() if f["q"] == "Machine::find" and "body" in f)
    pyfind = next((f for f in P.funcs.values() if f["q"].split("::")[-1] == "PyMachine_find" and "body" in f), None)
    for nb in range(2):
        for nm in range(4):
            for na in range(2):
                tabs = {}
                for t, pre in ((byname, "n"), (bytype, "t")):
                    rows = [("a", 7, ("P", "elem%d" % (10 + (pre == "t")))), ("l", MAXI, ("P", "elem12"))][:2 * nb]
                    rows += [("m", i, ("P", "elem%d" % ((20 if pre == "n" else 30) + k))) for k, i in enumerate([0, 5, 9][:nm])]
                    rows += [("mm", 0, ("P", "elem13")), ("z", 3, ("P", "elem14"))][:2 * na]
                    tabs[t] = rows
                inst = "%d before, %d matching, %d after" % (2 * nb, nm, 2 * na)
                for nth in range(nm + 2):
                    cl, E, st = start(P, tabs)
                    E.setcell(st, (("P", "q"),), c("m"))
                    vs = [v for _, v in E.call_fn(find, st, addr((M,)), [addr((("P", "q"),)), c(nth)])]
                    want = addr((("P", "elem%d" % (20 + nth)),)) if nth < nm else None
                    ok = bool(vs) and all(v is want if want else v is not None and v.k == "c" and v.a[1] == 0 for v in vs) and not E.exc
                    R.ob("find gives the nth element of the name, or nothing", "%s, n=%d" % (inst, nth), ok,
                         "%s: with %s, find(name, %d) gives %s" % (where(find), inst, nth, [str(v) for v in vs]))
                if pyfind is None:
                    continue
                for kind in ("name", "type", "all", "both"):
                    cl, E, st = start(P, tabs)
                    if kind in ("name", "both"):
                        cl.query["name"] = "m"
                    if kind in ("type", "both"):
                        cl.query["type"] = "m"
                    raw = ("P", "raw")
                    E.setcell(st, (raw, ".machine"), addr((M,)))
                    res = E.call_fn(pyfind, st, None, [addr((raw,)), addr((("P", "args"),)), addr((("P", "kws"),))])
                    if not {"name", "type"} <= cl.uses:
                        raise Broken("arguments of find() not followed")
                    n_ok = 0
                    idx = lambda el: init((el, ".index"))
                    for s, v in res:
                        got = [x if isinstance(x, str) else x.a[1] if x.k == "op" and x.a[0] == "pyint" else x for x in s.cl[0]]
                        if "failed" in got:
                            continue            # an allocation failed and was reported
                        n_ok += 1
                        if kind == "both":
                            ok, want = got == ["error"], "is refused"
                        else:
                            t = bytype if kind == "type" else byname
                            w = [idx(el) for n_, i_, el in tabs[t] if kind == "all" or n_ == "m"]
                            ok = got == w if kind != "all" else sorted(map(str, got)) == sorted(map(str, w))
                        R.ob("Machine.find lists the matching elements in lattice order" if kind != "all" else "Machine.find without a condition lists every element once",
                             "%s, by %s" % (inst, kind), ok, "%s: with %s, find by %s gives %s" % (where(pyfind), inst, kind, [str(g) for g in got]))
                    if not n_ok:
                        R.ob("Machine.find lists the matching elements in lattice order", "%s, by %s" % (inst, kind), False, "%s: never returns" % where(pyfind))


def rename(P, R, byname):
    rc = next(f for f in P.funcs.values() if f["q"] == "Machine::reconfigure" and "body" in f)
    cl = Build(P, 3)
    cl.elems = E_elements_loc(P)
    cl.oldname = init((("P", "elem1"), ".name"))
    E = Engine(P, cl, cap=64, unroll=8)
    st = St()
    st.cl = ((), frozenset())
    st.dyn[(M,)] = "Machine"
    el = ("P", "elem1")
    E.setcell(st, (M, cl.elems, "[1]"), addr((el,)))
    E.setcell(st, (M, byname, INS), c(0))
    old, new = init((el, ".name")), init((("P", "newname"),))
    res = E.call_fn(rc, st, addr((M,)), [c(1), addr((("P", "conf"),))])
    w = where(rc)
    same = op("==", *sorted((old, new), key=str))
    R.ob("an element is found under its new name after a reconfigure", "reconfigure succeeds", bool(res), "%s: never succeeds" % w)
    kept = 0
    for s, _ in res:
        R.ob("reconfigure rebuilds the element once", "element 1", s.cl[0] == ("rebuilt",), "%s: the element is rebuilt %d times" % (w, len(s.cl[0])))
        _, ops = chain(E.rawread(s, (M, byname, INS)))
        could = lambda val: any(E.assume(s.copy(), op("==", a, b), val) is not None for a, b in ((old, new), (new, old))) and all(
            E.assume(s.copy(), op("==", a, b), val) is not None for a, b in ((old, new), (new, old)))
        ixok = lambda x: x.k == "c" and x.a[1] == 1 or x is init((el, ".index"))
        tab = {"old"}
        bad = None
        for o in ops:
            who = "new" if o[1] is new else "old" if o[1] is old else None
            if who is None or not ixok(o[2]) or o[0] == "ins" and o[3] is not addr((el,)):
                bad = "the table gets an entry for something else: %s" % (o,)
                break
            tab = tab | {who} if o[0] == "ins" else tab - {who}
            if could(True) and o[0] == "del" and not bad:
                # the names may be the same: the entry goes, unless put back
                pass
        if bad is None and could(False) and tab != {"new"}:
            bad = "after a change of name the element is found under its %s name" % " and its ".join(sorted(tab) or ["no"])
        if bad is None and could(True):
            t = True
            for o in ops:
                t = o[0] == "ins"
            if not t:
                bad = "reconfiguring without a change of name removes the element from the table"
        kept += 1
        R.ob("an element is found under its new name after a reconfigure", "path %d" % kept, bad is None, "%s: %s" % (w, bad))
    for x in E.exc:
        _, ops = chain(E.rawread(x.st, (M, byname, INS)))
        if not ops:
            continue
        wx = where(x.fn, x.node) if x.fn and x.node and "l" in x.node else w
        R.ob("a refused reconfigure leaves the lookup alone", wx, "rebuilt" in x.st.cl[0] and all(o[0] == "ins" for o in ops), "%s: when this fails the table has been changed" % wx)
    R.ob("a refused reconfigure leaves the lookup alone", "all failures", bool(E.exc))
