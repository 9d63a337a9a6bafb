"""A value-flow abstract interpreter over the resolved AST (facts.py).

Abstract domain
  locations   (root, path...)      roots: locals, parameters' pointees, globals,
                                    allocation sites, temporaries, pointees of
                                    unknown pointers (named by the pointer value)
  values      c(const)  init(loc) = "whatever loc held on entry"
              addr(loc) op(name,args) = uninterpreted function (Herbrand term)
              iter(loc,i) top(uid,deps) uninit(loc) agg(base,overlays)
  states      memory: location -> value, branch facts, scope-exit obligations and a
              client component (lock sets, typestates...).  States are partitioned
              by trace up to a cap, then joined; loops are solved by widening the
              written cells to a fixpoint.
Calls of repository functions are inlined (bounded depth); library calls have
models below.  No code of the repository is run and no solver is used."""
import itertools, re, sys
from facts import Broken

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ values
class V:
    __slots__ = ("k", "a", "size", "_deps", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}
_uid = itertools.count(1)
EMPTY = frozenset()


def mk(k, *a):
    key = (k, a)
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k, v.a, v._deps = k, a, None
        v.size = 1 + sum(x.size for x in a if isinstance(x, V))
        if k == "agg":
            v.size += sum(x.size for _, x in a[1])
        _tab[key] = v
    return v


def c(x):
    if isinstance(x, bool):
        x = int(x)
    return mk("c", type(x).__name__, x)


NULL = c(0)


def init(loc): return mk("init", loc)
def addr(loc): return mk("addr", loc)


SIZE_CAP = 400


def op(name, *args):
    if sum(x.size for x in args if isinstance(x, V)) > SIZE_CAP:
        return top(deps_of(args))
    return mk("op", name, *args)


def top(deps=EMPTY):
    return mk("top", next(_uid), frozenset(deps))


def deps_of(vs):
    r = set()
    for v in vs:
        if isinstance(v, V):
            r |= deps(v)
    return frozenset(r)


def deps(v):
    d = v._deps
    if d is None:
        k = v.k
        if k == "init":
            l = v.a[0]
            if l[0][0] == "D" and has_top(l[0][1]):
                d = locdeps(l)
            else:
                d = frozenset([tuple("[*]" if isinstance(p, str) and (p.startswith("[#") or p.startswith("[~")) else p for p in l)]) | locdeps(l)
        elif k == "top":
            d = v.a[1]
        elif k == "agg":
            d = deps(v.a[0]) | deps_of([x for _, x in v.a[1]])
        elif k == "op" and v.a[0] in ("size", "size1", "size2") and isinstance(v.a[1], V):
            d = frozenset(l if l[-1] == ".#size" else l + (".#size",) for l in deps(v.a[1]))
        elif k == "op":
            d = deps_of(v.a[1:])
        elif k == "iter":
            d = deps_of(v.a[1:])
        elif k == "addr":
            d = locdeps(v.a[0])
        else:
            d = EMPTY
        v._deps = d
    return d


def locdeps(loc):
    r = loc[0]
    if r[0] == "D":
        return deps(r[1])
    return EMPTY


_dd = {}


def ddepth(v):
    """how many unknown-pointer hops name this value"""
    r = _dd.get(v)
    if r is None:
        r = 0
        if v.k in ("init", "addr", "uninit", "iter"):
            root = v.a[0][0]
            if root[0] == "D":
                r = 1 + ddepth(root[1])
        for x in v.a:
            if isinstance(x, V):
                r = max(r, ddepth(x))
        if v.k == "agg":
            for _, x in v.a[1]:
                r = max(r, ddepth(x))
        _dd[v] = r
    return r


def isc(v): return v.k == "c"


SUMMARY = mk("op", "somewhere")
_ht = {}


def has_top(v):
    r = _ht.get(v)
    if r is None:
        r = v.k == "top" or any(has_top(x) for x in v.a if isinstance(x, V))
        if not r and v.k in ("init", "addr", "uninit", "iter"):
            root = v.a[0][0]
            r = (root[0] == "D" and has_top(root[1])) or any(p.startswith("[#") or p.startswith("[~") for p in v.a[0][1:])
        _ht[v] = r
    return r


def show_loc(loc):
    r = loc[0]
    if r[0] == "L":
        s = "local %s" % (r[3] if len(r) > 3 else r[2])
    elif r[0] == "P":
        s = str(r[1])
    elif r[0] == "G":
        s = r[2] if len(r) > 2 else r[1]
    elif r[0] == "H":
        s = "new@%s" % (r[1],)
    elif r[0] == "T":
        s = "tmp%d" % r[1]
    elif r[0] == "D":
        s = "(*%s)" % show(r[1], 40)
    else:
        s = str(r)
    return s + "".join(loc[1:])


def show(v, lim=160):
    k = v.k
    if k == "c":
        s = repr(v.a[1])
    elif k == "init":
        s = show_loc(v.a[0])
    elif k == "addr":
        s = "&" + show_loc(v.a[0])
    elif k == "op":
        s = "%s(%s)" % (v.a[0], ", ".join(show(x, 60) if isinstance(x, V) else str(x) for x in v.a[1:]))
    elif k == "top":
        s = "unknown#%d" % v.a[0]
    elif k == "uninit":
        s = "uninitialised " + show_loc(v.a[0])
    elif k == "iter":
        s = "iterator into " + show_loc(v.a[0])
    elif k == "agg":
        s = "{%s with %s}" % (show(v.a[0], 40), ", ".join("".join(p) + "=" + show(x, 40) for p, x in v.a[1]))
    else:
        s = k
    return s if len(s) <= lim else s[:lim] + "..."


# ------------------------------------------------------------------ state
class St:
    __slots__ = ("mem", "dyn", "facts", "cleanup", "cl", "own")

    def __init__(self):
        self.mem = {}       # root -> {path: V}
        self.dyn = {}       # loc -> dynamic class
        self.facts = {}     # V -> bool
        self.cleanup = ()   # stack of (loc, dtor usr, type)
        self.cl = None      # client component (immutable, hashable)
        self.own = set()    # roots whose cell table is not shared with another state

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.dyn = dict(self.dyn)
        s.facts = dict(self.facts)
        s.cleanup = self.cleanup
        s.cl = self.cl
        return s

    def cells(self, root):
        """the cell table of root, for writing"""
        m = self.mem.get(root)
        if m is None:
            m = self.mem[root] = {}
            self.own.add(root)
        elif root not in self.own:
            m = self.mem[root] = dict(m)
            self.own.add(root)
        return m


def project(v, path):
    if not path:
        return v
    k = v.k
    if k == "init":
        return init(v.a[0] + tuple(path))
    if k == "uninit":
        return mk("uninit", v.a[0] + tuple(path))
    if k == "agg":
        base, ov = v.a
        path = tuple(path)
        sub = []
        b, best = None, -1
        for p, x in ov:
            if path[:len(p)] == p:
                if len(p) > best:
                    b, best = project(x, path[len(p):]), len(p)
            elif p[:len(path)] == path:
                sub.append((p[len(path):], x))
        if b is None:
            b = project(base, path)
        if sub and b.k == "agg":
            sub = sorted(dict(list(b.a[1]) + sub).items(), key=lambda x: x[0])
            b = b.a[0]
        if sub:
            return mk("agg", b, tuple(sub))
        return b
    if k == "c" and v.a[1] == 0:
        return v
    if k == "top":
        return op("proj", v, tuple(path))
    if k == "op" and v.a[0] == "proj":
        return op("proj", v.a[1], v.a[2] + tuple(path))
    return op("proj", v, tuple(path))


BITS = {"unsigned int": 32, "unsigned long": 64, "unsigned long long": 64, "unsigned char": 8, "unsigned short": 16,
        "int": -32, "long": -64, "long long": -64, "signed char": -8, "char": -8, "short": -16}


def wrap(x, t):
    """an integer as one of type t"""
    b = BITS.get(strip_cv(t))
    if b is None:
        return x
    x &= (1 << abs(b)) - 1
    if b < 0 and x >> (-b - 1):
        x -= 1 << -b
    return x


UNSURE = {}


def unsure(path):
    """does an index in the path stand for several?"""
    r = UNSURE.get(path)
    if r is None:
        r = UNSURE[path] = any(is_idx(p) and not p[1:-1].lstrip("-").isdigit() for p in path)
    return r


def is_idx(p): return p.startswith("[")


def strip_cv(t):
    while True:
        if t.startswith("const "):
            t = t[6:]
        elif t.startswith("volatile "):
            t = t[9:]
        elif t.endswith(" const"):
            t = t[:-6]
        elif t.endswith("*const"):
            t = t[:-5]
        else:
            return t


def noref(t):
    while t.endswith("&"):
        t = t[:-1].rstrip()
    return strip_cv(t)


class Exc:
    def __init__(self, st, ty, node, fn, val=None):
        self.st, self.ty, self.node, self.fn, self.val = st, ty, node, fn, val


class Frame:
    __slots__ = ("id", "fn", "this", "parent")

    def __init__(self, id, fn, this, parent):
        self.id, self.fn, self.this, self.parent = id, fn, this, parent


class Budget(Exception):
    pass


class Client:
    """Hooks; the default client observes nothing."""
    def key(self, st): return st.cl
    def on_call(self, E, st, node, obj, args): return None      # -> list[(st,V)] or None
    def on_enter(self, E, st, fn, this, args): return None      # -> list[(st,V)] or None (instead of inlining)
    def on_read(self, E, st, loc, node): pass
    def on_write(self, E, st, loc, val, node): pass
    def on_dtor(self, E, st, loc, ty, node): pass
    def on_exit(self, E, st, fn, ret): pass
    def on_delete(self, E, st, v, node): pass
    def on_new(self, E, st, loc, node): pass
    def may_throw(self, E, st, node): return False
    def inline(self, E, fn): return not fn["f"].endswith(".c")   # generated scanner and parser
    def skip(self, E, st, fn, this, args): return False         # treat a call as opaque
    def virt(self, E, st, node, cands): return None             # choose candidates when the class is unknown
    def on_branch(self, E, st, cond, val): pass


DEBUG = False
MAPRE = re.compile(r"(std|boost)::(unordered_)?map$|std::_Rb_tree")
PURE_PREFIX = ("std::", "boost::", "__builtin", "fabs", "sqrt", "sin", "cos", "tan", "atan", "pow", "exp", "log",
               "abs", "floor", "ceil", "strcmp", "strlen", "isnan", "isfinite", "fmod")


class Engine:
    def __init__(self, P, client=None, cap=24, depth=40, unroll=16, maxsteps=400000):
        self.P = P
        self.cl = client or Client()
        self.cap, self.maxdepth, self.unroll = cap, depth, unroll
        self.fid = itertools.count(1)
        self.tid = itertools.count(1)
        self.exc = []
        self.fr = None
        self.stack = []
        self.probing = 0
        self.visited = set()
        self.steps = 0
        self.maxsteps = maxsteps
        self.unmodelled = {}
        self.joinmemo = {}
        self.calls = 0
        self.keep_temps = False
        self.hsite = {}
        self.wlog = None
        self.insum = False
        self.eager = False
        self.alts = {}      # what a joined value was joined from
        self.implicit = True     # joined values depend on what chose the path

    # -------------------------------------------------------------- memory
    def fresh_root(self, loc):
        return loc[0][0] in ("L", "T", "H")

    def initial(self, loc):
        if self.fresh_root(loc):
            return mk("uninit", loc)
        return init(loc)

    def rawread(self, st, loc):
        m = st.mem.get(loc[0])
        path = loc[1:]
        if m:
            n = len(path)
            for i in range(n, -1, -1):
                v = m.get(path[:i])
                if v is not None:
                    return project(v, path[i:])
            # a wildcard cell covering this path
            for q, v in m.items():
                if len(q) <= n and any(x == "[*]" for x in q) and \
                        all(x == y or (x == "[*]" and is_idx(y)) for x, y in zip(q, path)):
                    return project(v, path[len(q):])
        return self.initial(loc)

    def read(self, st, loc):
        b = self.rawread(st, loc)
        m = st.mem.get(loc[0])
        if not m:
            return b
        path = loc[1:]
        n = len(path)
        ov = [(q[n:], v) for q, v in m.items() if len(q) > n and q[:n] == path]
        if ov:
            ov = [(q, v) for q, v in ov if project(b, q) is not v]
        if ov:
            ov.sort(key=lambda x: x[0])
            if b.k == "agg":
                d = dict(b.a[1])
                for q, v in ov:
                    for q2 in list(d):
                        if q2[:len(q)] == q:
                            del d[q2]
                    d[q] = v
                b, ov = b.a[0], sorted(d.items(), key=lambda x: x[0])
            return mk("agg", b, tuple(ov))
        return b

    def write(self, st, loc, val, node=None, quiet=False):
        if self.wlog is not None:
            self.wlog.append((loc, val))
        if not quiet:
            self.cl.on_write(self, st, loc, val, node)
        self.setcell(st, loc, val)

    def setcell(self, st, loc, val):
        m = st.cells(loc[0])
        path = loc[1:]
        n = len(path)
        uncertain = unsure(path)
        if uncertain and "[*]" in path:
            old = self.rawread(st, loc)
            val = self.join(old, val, EMPTY) if old is not val else val
        for q in [q for q in m if len(q) >= n and q[:n] == path]:
            del m[q]
        if val.k == "agg":
            m[path] = val.a[0]
            for q, v in val.a[1]:
                m[path + q] = v
        else:
            m[path] = val
        # other cells of the same container that this index may equal
        idx = [i for i, p in enumerate(path) if is_idx(p)]
        if idx:
            for q in list(m):
                if not uncertain and not unsure(q) or q == path or len(q) < idx[-1] + 1 or q[:n] == path:
                    continue
                ali = True
                differ = False
                for x, y in zip(q, path):
                    if x == y:
                        continue
                    if is_idx(x) and is_idx(y):
                        cx, cy = x[1:-1].lstrip("-").isdigit(), y[1:-1].lstrip("-").isdigit()
                        if cx and cy:
                            ali = False
                            break
                        differ = True
                    else:
                        ali = False
                        break
                if ali and differ:
                    m[q] = top(deps(m[q]) | deps(val))

    def join(self, a, b, extra=EMPTY):
        if a is b:
            return a
        if a.k == "iter" and b.k == "iter" and a.a[0] == b.a[0]:
            key = (a, b, "i")
            r = self.joinmemo.get(key)
            if r is None:
                r = mk("iter", a.a[0], top(deps(a) | deps(b) | extra))
                self.joinmemo[key] = r
            return r
        key = (a, b, extra)
        r = self.joinmemo.get(key)
        if r is None:
            d = deps(a) | deps(b) | extra
            if a.k == "uninit" or b.k == "uninit":
                r = mk("op", "maybe-uninit", top(d))
            else:
                r = top(d)
                self.alts[r] = (a, b)
            self.joinmemo[key] = r
        return r

    def merge(self, sts):
        """join states that share a client key; -> list"""
        if len(sts) <= 1:
            return list(sts)
        groups = {}
        for s in sts:
            groups.setdefault((self.cl.key(s), s.cleanup), []).append(s)
        out = []
        for g in groups.values():
            if self.eager:
                # first those that differ only in how they were reached
                u = []
                for s in g:
                    for i, x in enumerate(u):
                        if x.mem == s.mem:
                            u[i] = self.merge2(x, s)
                            break
                    else:
                        u.append(s)
                g = u
                if len(g) <= self.cap:
                    out += g
                    continue
            r = g[0]
            for s in g[1:]:
                r = self.merge2(r, s)
            out.append(r)
        return out

    def merge2(self, a, b):
        if a.mem == b.mem:
            r = a.copy()
            r.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
            r.dyn = {k: v for k, v in a.dyn.items() if b.dyn.get(k) == v}
            return r
        r = a.copy()
        extra = set()
        fx = {}
        for k, v in a.facts.items():
            if b.facts.get(k) is v:
                fx[k] = v
            else:
                extra |= deps(k)
        for k in b.facts:
            if k not in fx:
                extra |= deps(k)
        extra = frozenset(extra) if self.implicit else EMPTY
        r.facts = fx
        r.dyn = {k: v for k, v in a.dyn.items() if b.dyn.get(k) == v}
        for k, v in b.dyn.items():
            if k not in a.dyn:
                r.dyn[k] = v
        for root in set(a.mem) | set(b.mem):
            ma, mb = a.mem.get(root, {}), b.mem.get(root, {})
            if ma == mb:
                continue
            if not ma or not mb:
                # only one side knows the object (scratch of one branch)
                if root[0] in ("L", "T", "H"):
                    r.mem[root] = dict(ma or mb)
                    r.own.add(root)
                    continue
            out = {}
            for path in set(ma) | set(mb):
                va = ma.get(path)
                vb = mb.get(path)
                if va is None:
                    va = self.rawread(a, (root,) + path)
                if vb is None:
                    vb = self.rawread(b, (root,) + path)
                out[path] = self.join(va, vb, extra)
            r.mem[root] = out
            r.own.add(root)
        return r

    def limit(self, sts):
        if len(sts) > 1:
            uniq = {}
            for s in sts:
                uniq.setdefault(id(s), s)
            sts = list(uniq.values())
        if len(sts) > self.cap:
            return self.merge(sts)
        return sts

    # -------------------------------------------------------------- helpers
    def loc_of(self, v):
        if v.k == "addr":
            return v.a[0]
        if v.k == "iter":
            return v.a[0] + (self.idx(v.a[1]),)
        if ddepth(v) >= 4:
            return (("D", SUMMARY),)
        return (("D", v),)

    def idx(self, v):
        if isc(v) and isinstance(v.a[1], int):
            return "[%d]" % v.a[1]
        if v.k == "top":
            return "[#%d]" % v.a[0]
        return "[~%d]" % self.valnum(v)

    def valnum(self, v):
        n = getattr(self, "_vn", None)
        if n is None:
            n = self._vn = {}
        return n.setdefault(v, len(n) + 1)

    def newtemp(self):
        return (("T", next(self.tid)),)

    def isrec(self, t):
        t = strip_cv(t)
        return self.P.tk.get(t, 1 if t in self.P.classes else 0) == 1

    def fieldref(self, cls, n):
        key = (cls, n)
        cch = self.P.__dict__.setdefault("_fr", {})
        if key not in cch:
            r = False
            for b in self.P.linear(cls):
                for f in self.P.classes.get(b, {}).get("fields", []):
                    if f["n"] == n:
                        r = f["t"].endswith("&")
            cch[key] = r
        return cch[key]

    def truth(self, st, v):
        """True/False/None"""
        if v.k == "c":
            if v.a[1] is None:
                return False
            return bool(v.a[1]) if not isinstance(v.a[1], str) else True
        if v.k == "addr":
            return True
        v, neg = self.canon(v)
        r = self.lookup(st, v)
        if r is None:
            return None
        return (not r) if neg else r

    def canon(self, v):
        neg = False
        while v.k == "op":
            o = v.a[0]
            if o == "!":
                neg = not neg
                v = v.a[1]
            elif o == "bool":
                v = v.a[1]
            elif o == "!=":
                neg = not neg
                v = mk("op", "==", v.a[1], v.a[2])
            elif o == ">":
                v = mk("op", "<", v.a[2], v.a[1])
            elif o == "<=":
                neg = not neg
                v = mk("op", "<", v.a[2], v.a[1])
            elif o == ">=":
                neg = not neg
                v = mk("op", "<", v.a[1], v.a[2])
            elif o == "==":
                a, b = v.a[1], v.a[2]
                if a is NULL or (not isc(a) and isc(b)):
                    pass
                if isc(b) and b.a[1] == 0 and not isinstance(b.a[1], float):
                    neg = not neg
                    v = a
                    continue
                if isc(a) and a.a[1] == 0 and not isinstance(a.a[1], float):
                    neg = not neg
                    v = b
                    continue
                if id(a) > id(b):
                    v = mk("op", "==", b, a)
                break
            else:
                break
        return v, neg

    def lookup(self, st, v):
        r = st.facts.get(v)
        if r is not None:
            return r
        if v.k == "c":
            return bool(v.a[1])
        if v.k == "addr":
            return True
        if v.k == "op" and v.a[0] == "==":
            a, b = v.a[1], v.a[2]
            if a is b:
                return True
            if isc(a) and isc(b):
                return a.a[1] == b.a[1]
            if a.k == "addr" and b.k == "addr":
                return a.a[0] == b.a[0] if self.conc(a.a[0]) and self.conc(b.a[0]) else None
            x, k = (a, b) if isc(b) else (b, a)
            if isc(k):
                for f, t in st.facts.items():
                    if t and f.k == "op" and f.a[0] == "==":
                        if f.a[1] is x and isc(f.a[2]) and f.a[2] is not k:
                            return False
                        if f.a[2] is x and isc(f.a[1]) and f.a[1] is not k:
                            return False
        if v.k == "op" and v.a[0] == "<":
            a, b = v.a[1], v.a[2]
            if a is b:
                return False
            if isc(a) and isc(b):
                try:
                    return a.a[1] < b.a[1]
                except TypeError:
                    return None
        # a fact x == k decides the truth of x
        for f, t in st.facts.items():
            if t and f.k == "op" and f.a[0] == "==":
                for x, k in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                    if x is v and isc(k):
                        return bool(k.a[1])
        return None

    def conc(self, loc):
        return not any(is_idx(p) and not p[1:-1].isdigit() for p in loc[1:]) and loc[0][0] != "D"

    def assume(self, st, v, val):
        """-> state or None"""
        t = self.truth(st, v)
        if t is not None:
            return st if t == val else None
        st = st.copy()
        w, neg = self.canon(v)
        st.facts[w] = (not val) if neg else val
        return st

    def branch(self, e, st):
        """evaluate a condition expression -> ([true states],[false states])"""
        k = e["k"]
        if k in ("ICast", "Cast") and e.get("t") == "bool" and "cv" not in e:
            return self.branch(e["e"], st)
        if k == "Un" and e["op"] == "!" and "cv" not in e:
            a, b = self.branch(e["e"], st)
            return b, a
        if k == "Bin" and e["op"] in ("&&", "||"):
            ta, fa = self.branch(e["a"], st)
            T, F = [], []
            if e["op"] == "&&":
                F += fa
                for s in ta:
                    t, f = self.branch(e["b"], s)
                    T += t
                    F += f
            else:
                T += ta
                for s in fa:
                    t, f = self.branch(e["b"], s)
                    T += t
                    F += f
            return self.limit(T), self.limit(F)
        if k == "Full":
            depth = None
            T, F = [], []
            d0 = st.cleanup
            t, f = self.branch(e["e"], st)
            for s in t:
                T += self.pop(s, len(d0), e)
            for s in f:
                F += self.pop(s, len(d0), e)
            return T, F
        T, F = [], []
        for s, v in self.ev(e, st):
            if self.isrec(e.get("t", "")):
                v = self.read(s, self.loc_of(v))
            self.cl.on_branch(self, s, e, v)
            t = self.assume(s, v, True)
            f = self.assume(s, v, False)
            if t is not None:
                T.append(t)
            if f is not None:
                F.append(f)
        return self.limit(T), self.limit(F)

    # -------------------------------------------------------------- cleanup
    def push(self, st, loc, dtor, ty):
        st.cleanup = st.cleanup + ((loc, dtor, strip_cv(ty)),)

    def pop(self, st, depth, node):
        """run scope-exit destructors down to depth -> states"""
        if len(st.cleanup) <= depth:
            return [st]
        sts = [st.copy()]
        while len(sts[0].cleanup) > depth:
            out = []
            for s in sts:
                loc, dtor, ty = s.cleanup[-1]
                s.cleanup = s.cleanup[:-1]
                out += self.destroy(s, loc, dtor, ty, node)
            sts = out
            if not sts:
                return []
        return sts

    def destroy(self, st, loc, dtor, ty, node):
        self.cl.on_dtor(self, st, loc, ty, node)
        fn = self.P.funcs.get(dtor) if dtor else None
        sts = [st]
        cls = self.P.classes.get(ty)
        if fn and "body" in fn and cls and not self.recursing(fn) and self.cl.inline(self, fn):
            sts = [s for s, _ in self.call_fn(fn, st, addr(loc), [], node)]
        if cls:
            for f in reversed(cls.get("fields", [])):
                ft = strip_cv(f["t"])
                if self.isrec(ft):
                    out = []
                    for s in sts:
                        out += self.destroy(s, loc + ("." + f["n"],), self.dtor_of(ft), ft, node)
                    sts = out
            for b in reversed(self.P.bases(ty)):
                out = []
                for s in sts:
                    out += self.destroy(s, loc, self.dtor_of(b), b, node)
                sts = out
        return sts

    def dtor_of(self, ty):
        cls = self.P.classes.get(ty)
        if cls:
            for m in cls.get("methods", []):
                if m.get("dtor"):
                    return m["usr"]
        return None

    def recursing(self, fn):
        return sum(1 for f in self.stack if f is fn) >= 2 or len(self.stack) > self.maxdepth

    def throw(self, st, ty, node, val=None):
        if st is None:
            return
        self.exc.append(Exc(st, ty, node, self.fr.fn if self.fr else None, val))

    # -------------------------------------------------------------- functions
    def call_fn(self, fn, st, this, args, node=None):
        """inline fn; -> [(state, return value)]; exceptions go to self.exc"""
        self.visited.add(fn["usr"])
        self.calls += 1
        if self.calls > self.maxsteps:
            raise Budget()
        saved_fr, saved_exc = self.fr, self.exc
        fr = Frame(next(self.fid), fn, this, saved_fr)
        if fn.get("_lambda_frame"):
            fr = Frame(fn["_lambda_frame"].id, fn, fn["_lambda_frame"].this, saved_fr)
        self.exc = []
        self.fr = fr
        self.stack.append(fn)
        base = len(st.cleanup)
        t0 = next(self.tid)
        f0 = fr.id
        try:
            st = st.copy()
            for p, v in zip(fn["params"], args):
                loc = (("L", fr.id, p["id"], p["n"]),)
                if v is None:
                    v = top()
                if p["t"].endswith("&"):
                    self.setcell(st, loc, v)
                elif self.isrec(p["t"]):
                    src = self.loc_of(v)
                    self.setcell(st, loc, self.read(st, src))
                    if src in st.dyn:
                        st.dyn[loc] = st.dyn[src]
                else:
                    self.setcell(st, loc, v)
            sts = [st]
            for i in fn.get("inits", []):
                out = []
                for s in sts:
                    out += self.ctor_init(fn, i, s, this)
                sts = self.limit(out)
            res = []
            for kind, s, v in self.block_states(fn["body"], sts):
                if kind in ("n", "r"):
                    res.append((s, v if kind == "r" else None))
                elif kind == "goto":
                    raise Broken("goto out of a block in " + fn["q"])
            out = []
            rec = self.isrec(fn["rt"]) and not fn["rt"].endswith("&")
            for s, v in res:
                if rec and v is not None:
                    t = self.newtemp()
                    s = s.copy()
                    src = self.loc_of(v)
                    self.setcell(s, t, self.read(s, src))
                    v = addr(t)
                for s2 in self.pop(s, base, node or fn):
                    self.cl.on_exit(self, s2, fn, v)
                    out.append((s2, v))
            if len(out) > self.cap:
                groups = {}
                for s, v in out:
                    groups.setdefault(v, []).append(s)
                if len(groups) > self.cap:
                    vs = [v for v in groups if v is not None]
                    jv = top(deps_of(vs)) if not rec else vs[0]
                    out = [(s, jv) for s in self.merge([s for s, _ in out])]
                else:
                    out = [(s, v) for v, ss in groups.items() for s in self.merge(ss)]
            for s, v in out:
                self.collect(s, fr, t0, v)
            if self.eager and len(out) > 1:
                groups = {}
                for s, v in out:
                    for s2 in groups.setdefault((v, self.cl.key(s), s.cleanup), []):
                        if s2[0].mem == s.mem:
                            s2[0] = self.merge2(s2[0], s)
                            break
                    else:
                        groups[(v, self.cl.key(s), s.cleanup)].append([s])
                out = [(s2[0], k[0]) for k, g in groups.items() for s2 in g]
            excs = self.exc
        finally:
            self.stack.pop()
            self.fr, self.exc = saved_fr, saved_exc
        # unwinding
        for x in self.lim_exc(excs):
            for s in self.pop(x.st, base, node or fn):
                x2 = Exc(s, x.ty, x.node, x.fn, x.val)
                self.collect(s, fr, t0, x.val)
                self.exc.append(x2)
        return out

    def collect(self, st, fr, t0, ret):
        """forget the storage of a finished frame"""
        if fr.fn.get("_lambda_frame"):
            return
        keep = ret.a[0][0] if ret is not None and ret.k == "addr" else None
        dead = [r for r in st.mem if (r[0] == "L" and r[1] == fr.id or r[0] == "T" and r[1] > t0) and r != keep]
        for r in dead:
            del st.mem[r]
            st.own.discard(r)
            st.dyn.pop((r,), None)

    def lim_exc(self, excs):
        if len(excs) <= self.cap:
            return excs
        groups = {}
        for x in excs:
            groups.setdefault((x.ty, id(x.node)), []).append(x)
        out = []
        for g in groups.values():
            for s in self.merge([x.st for x in g]):
                out.append(Exc(s, g[0].ty, g[0].node, g[0].fn, g[0].val))
        return out

    def ctor_init(self, fn, i, st, this):
        tl = self.loc_of(this)
        e = i["e"]
        if "f" in i:
            loc = tl + ("." + i["f"],)
            cls = fn.get("cls")
            if self.fieldref(cls, i["f"]):
                return [self.w1(s, loc, v, e) for s, v in self.ev(e, st)]
            return self.init_into(loc, e, st, self.ftype(cls, i["f"]))
        # base / delegating: construct in place
        return self.init_into(tl, e, st, i.get("base", fn.get("cls")))

    def ftype(self, cls, n):
        for f in self.P.classes.get(cls, {}).get("fields", []):
            if f["n"] == n:
                return f["t"]
        return ""

    def w1(self, s, loc, v, node):
        s = s.copy()
        self.write(s, loc, v, node)
        return s

    def init_into(self, loc, e, st, ty):
        """initialise storage loc from expression e; -> states"""
        if e is None:
            return [st]
        k = e["k"]
        if k == "Full":
            d = len(st.cleanup)
            out = []
            for s in self.init_into(loc, e["e"], st, ty):
                out += self.pop(s, d, e)
            return out
        if k == "Tmp":
            return self.init_into(loc, e["e"], st, ty)
        if k == "Ctor":
            return self.construct(loc, e, st)
        if k == "Init":
            return self.init_list(loc, e, st, ty)
        if k == "Zero":
            return [self.w1(st, loc, c(0), e)]
        if k == "Cast" and e["e"] and e["e"]["k"] in ("Ctor", "Tmp", "Init") and self.isrec(e.get("t", "")) and not e.get("gl"):
            return self.init_into(loc, e["e"], st, ty)
        if k == "Cond" and not e.get("gl") and self.isrec(e.get("t", "")):
            t, f = self.branch(e["c"], st)
            out = []
            for s in t:
                out += self.init_into(loc, e["a"], s, ty)
            for s in f:
                out += self.init_into(loc, e["b"], s, ty)
            return self.limit(out)
        out = []
        for s, v in self.ev(e, st):
            s = s.copy()
            if self.isrec(e.get("t", ty or "")) or (not e.get("t") and self.isrec(ty or "")):
                src = self.loc_of(v)
                self.write(s, loc, self.read(s, src), e)
                if src in s.dyn:
                    s.dyn[loc] = s.dyn[src]
            else:
                self.write(s, loc, v, e)
            out.append(s)
        return out

    def init_list(self, loc, e, st, ty):
        t = strip_cv(e.get("t") or ty or "")
        sts = [self.w1(st, loc, c(0), e)]
        cls = self.P.classes.get(t)
        names = ["." + f["n"] for f in cls["fields"]] if cls else None
        if not cls and not t.endswith("]") and len(e["c"]) == 1:
            return self.init_into(loc, e["c"][0], st, ty)
        for j, x in enumerate(e["c"]):
            sub = names[j] if names and j < len(names) else "[%d]" % j
            if x is None or x["k"] == "Zero":
                continue
            out = []
            for s in sts:
                out += self.init_into(loc + (sub,), x, s, x.get("t", ""))
            sts = out
        return sts

    def construct(self, loc, e, st):
        """run constructor node e on storage loc -> states"""
        cls = strip_cv(e.get("cls") or e["t"])
        out = []
        for s, args in self.evargs(e["args"], st):
            s = s.copy()
            s.dyn.setdefault(loc, cls) if loc[1:] == () and loc[0][0] in ("T", "L", "H") else None
            r = self.cl.on_call(self, s, e, addr(loc), args)
            if r is not None:
                out += [x for x, _ in r]
                continue
            if self.cl.may_throw(self, s, e):
                self.throw(s.copy(), "?", e)
            fn = self.P.funcs.get(e["fn"])
            if fn and "body" in fn and not self.recursing(fn) and self.cl.inline(self, fn) and not (e.get("impl") and (e.get("copy") or e.get("move"))) \
                    and not self.cl.skip(self, s, fn, addr(loc), args):
                if e.get("zero"):
                    self.setcell(s, loc, c(0))
                pd = self.fr
                out += [x for x, _ in self.call_fn(fn, s, addr(loc), args, e)]
                continue
            if e.get("copy") or e.get("move"):
                src = self.loc_of(args[0])
                self.write(s, loc, self.read(s, src), e)
                self.ext_copy(s, e, loc, src)
                out.append(s)
                continue
            if cls in self.P.classes and e.get("dflt"):
                # implicit default construction of a repository class
                out += self.default_construct(s, loc, cls, e)
                continue
            out += self.ext_ctor(s, e, loc, cls, args)
        return self.limit(out)

    def default_construct(self, st, loc, cls, e):
        if e.get("zero"):
            self.setcell(st, loc, c(0))
        for _, f in self.P.allfields(cls):
            if self.isrec(f["t"]) and strip_cv(f["t"]) not in self.P.classes:
                self.setcell(st, loc + ("." + f["n"],), mk("op", "empty", strip_cv(f["t"])))
        return [st]

    def ext_copy(self, st, e, loc, src):
        pass

    def ext_ctor(self, st, e, loc, cls, args):
        """library class constructor"""
        if not args:
            self.write(st, loc, mk("op", "empty", cls), e)
            return [st]
        vals = []
        for a, t in zip(args, e.get("pt", []) + [""] * len(args)):
            vals.append(self.argval(st, a, t))
        if len(vals) == 1 and vals[0].k == "iter":
            self.write(st, loc, vals[0], e)        # iterator to const iterator
            return [st]
        if cls.startswith("std::pair") and len(vals) == 1 and args[0].k == "addr":
            for m in (".first", ".second"):
                self.write(st, loc + (m,), self.read(st, args[0].a[0] + (m,)), e)
            return [st]
        if cls.startswith(("std::basic_string", "std::auto_ptr", "std::unique_ptr", "boost::shared_ptr", "std::shared_ptr",
                           "boost::scoped_ptr", "boost::weak_ptr", "std::pair", "std::complex")) and len(args) >= 1:
            if cls.startswith("std::pair"):
                if len(vals) == 2:
                    self.write(st, loc + (".first",), vals[0], e)
                    self.write(st, loc + (".second",), vals[1], e)
                    return [st]
            elif cls.startswith("std::complex"):
                pass
            elif cls.startswith("std::basic_string"):
                if len([v for v in vals]) == 1 or (len(args) == 2 and "allocator" in e.get("pt", ["", ""])[1]):
                    self.write(st, loc, vals[0], e)
                    return [st]
            else:
                self.write(st, loc, vals[0], e)
                return [st]
        self.write(st, loc, op("ctor:" + cls.split("<")[0], *vals), e)
        return [st]

    # -------------------------------------------------------------- arguments
    def evargs(self, args, st):
        res = [(st, [])]
        for a in args:
            nxt = []
            for s, vs in res:
                if a is None:
                    nxt.append((s, vs + [top()]))
                    continue
                for s2, v in self.ev(a, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def argval(self, st, v, t):
        """content value of an argument (dereferencing references / class values)"""
        t = t or ""
        if t.endswith("&") or self.isrec(t):
            if v.k in ("addr",):
                return self.read(st, v.a[0])
            return v if v.k != "iter" else v
        return v

    # -------------------------------------------------------------- expressions
    def ev(self, e, st):
        self.steps += 1
        m = getattr(self, "x_" + e["k"], None)
        if m is None:
            raise Broken("no transfer function for expression %s" % e["k"])
        r = m(e, st)
        if len(r) > self.cap:
            groups = {}
            for s, v in r:
                groups.setdefault(v, []).append(s)
            if len(groups) > self.cap and not e.get("gl") and not self.isrec(e.get("t", "")):
                jv = top(deps_of([v for v in groups if v is not None]))
                r = [(s, jv) for s in self.merge([s for s, _ in r])]
            else:
                r = [(s, v) for v, ss in groups.items() for s in self.merge(ss)]
        return r

    def x_Full(self, e, st):
        d = len(st.cleanup)
        out = []
        for s, v in self.ev(e["e"], st):
            if v is not None and v.k == "addr" and v.a[0][0][0] == "T" and self.keep_temps:
                out.append((s, v))
                continue
            for s2 in self.pop(s, d, e):
                out.append((s2, v))
        return out

    def x_Tmp(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            if e.get("dtor") and v is not None and v.k == "addr":
                s = s.copy()
                self.push(s, v.a[0], e["dtor"], e["t"])
            out.append((s, v))
        return out

    def x_Ld(self, e, st):
        x = e["e"]
        if x["k"] == "Ref" and "cv" in x:
            return [(st, c(x["cv"]))]
        out = []
        for s, v in self.ev(x, st):
            if v is None:
                out.append((s, top()))
                continue
            loc = self.loc_of(v)
            self.cl.on_read(self, s, loc, e)
            r = self.read(s, loc)
            out.append((s, r))
        return out

    def x_ICast(self, e, st):
        if "cv" in e:
            return [(st, c(e["cv"]))]
        out = []
        for s, v in self.ev(e["e"], st):
            out.append((s, self.cast(s, v, e.get("ck", ""), e["t"])))
        return out

    def cast(self, s, v, ck, t):
        if ck.endswith("ToBoolean"):
            tr = self.truth(s, v)
            if tr is not None:
                return c(tr)
            return op("bool", v)
        if isc(v):
            if ck == "IntegralToFloating" and isinstance(v.a[1], int):
                return c(float(v.a[1]))
            if ck == "FloatingToIntegral" and isinstance(v.a[1], float):
                if v.a[1] != v.a[1] or abs(v.a[1]) > 1e300:
                    return top()
                return c(wrap(int(v.a[1]), t))
            if ck == "IntegralCast" and isinstance(v.a[1], int) and not isinstance(v.a[1], bool):
                return c(wrap(v.a[1], t))
        return v

    def x_Lit(self, e, st):
        v = e["v"]
        if e["lt"] == "null":
            return [(st, NULL)]
        if e["lt"] == "str":
            return [(st, c(v))]
        return [(st, c(v))]

    def x_This(self, e, st):
        return [(st, self.fr.this)]

    def x_Ref(self, e, st):
        dk = e["dk"]
        if dk in ("local", "param"):
            loc = (("L", self.fr.id, e["id"], e["n"]),)
            if e.get("vt", "").endswith("&"):
                v = st.mem.get(loc[0], {}).get(())
                if v is None:
                    v = addr((("P", e["n"]),))
                return [(st, v)]
            return [(st, addr(loc))]
        if dk == "global":
            loc = (("G", e["usr"], e.get("q", e["n"])),)
            if e.get("vt", "").endswith("&"):
                return [(st, self.read(st, loc))]
            return [(st, addr(loc))]
        if dk == "enum":
            return [(st, c(e["cv"]))]
        if dk == "func":
            return [(st, mk("fnptr", e["fn"]))]
        return [(st, top())]

    def x_Mem(self, e, st):
        out = []
        for s, v in self.ev(e["b"], st):
            if e.get("meth"):
                out.append((s, mk("fnptr", e["fn"])))
                continue
            loc = self.loc_of(v)
            if e.get("arrow"):
                self.deref(s, v, e)
            if not e.get("anon"):
                loc = loc + ("." + e["n"],)
            if self.fieldref(e.get("cls", ""), e["n"]):
                out.append((s, self.read(s, loc)))
            else:
                out.append((s, addr(loc)))
        return out

    def deref(self, st, v, e):
        h = getattr(self.cl, "on_deref", None)
        if h:
            h(self, st, v, e)

    def x_Sub(self, e, st):
        out = []
        for s, b in self.ev(e["b"], st):
            for s2, i in self.ev(e["i"], s):
                h = getattr(self.cl, "on_index", None)
                if h:
                    h(self, s2, b, i, e)
                if b.k == "c" and isinstance(b.a[1], str):
                    out.append((s2, addr((("S", b.a[1]), self.idx(i)))))
                    continue
                loc = self.loc_of(b)
                if "alen" not in e and b.k == "addr" and loc[1:] and is_idx(loc[-1]) and isc(i) and loc[-1][1:-1].isdigit():
                    out.append((s2, addr(loc[:-1] + ("[%d]" % (int(loc[-1][1:-1]) + i.a[1]),))))
                else:
                    out.append((s2, addr(loc + (self.idx(i),))))
        return out

    def x_Un(self, e, st):
        o = e["op"]
        if "cv" in e and o not in ("++", "--", "p++", "p--"):
            return [(st, c(e["cv"]))]
        if o == "!":
            t, f = self.branch(e["e"], st)
            return [(s, c(0)) for s in t] + [(s, c(1)) for s in f]
        out = []
        for s, v in self.ev(e["e"], st):
            if o == "&":
                out.append((s, v))
            elif o == "*":
                self.deref(s, v, e)
                if v.k == "c" and isinstance(v.a[1], str):
                    v = addr((("S", v.a[1]), "[0]"))
                out.append((s, addr(self.loc_of(v))))
            elif o in ("++", "--", "p++", "p--"):
                s = s.copy()
                loc = self.loc_of(v)
                self.cl.on_read(self, s, loc, e)
                old = self.read(s, loc)
                new = self.arith(s, "+" if "+" in o else "-", old, c(1), e.get("t", ""))
                self.write(s, loc, new, e)
                out.append((s, old if o[0] == "p" else (addr(loc) if e.get("gl") else new)))
            elif o == "-":
                out.append((s, c(-v.a[1]) if isc(v) and isinstance(v.a[1], (int, float)) else op("neg", v)))
            elif o == "+":
                out.append((s, v))
            elif o == "__extension__":
                out.append((s, v))
            else:
                out.append((s, op(o, v)))
        return out

    def arith(self, st, o, a, b, t=""):
        if isc(a) and isc(b) and isinstance(a.a[1], (int, float)) and isinstance(b.a[1], (int, float)):
            x, y = a.a[1], b.a[1]
            try:
                r = None
                if o == "+": r = x + y
                elif o == "-": r = x - y
                elif o == "*": r = x * y
                elif o == "/": r = (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)) if isinstance(x, int) and isinstance(y, int) else x / y
                elif o == "%": r = x % y if x >= 0 and y > 0 else None
                elif o == "<<": r = x << y
                elif o == ">>": r = x >> y
                elif o == "&": r = x & y
                elif o == "|": r = x | y
                elif o == "^": r = x ^ y
                if r is not None:
                    if isinstance(r, int) and t in ("unsigned long", "unsigned int"):
                        r &= (1 << (64 if t == "unsigned long" else 32)) - 1
                    return c(r)
            except Exception:
                pass
        if o in ("+", "-") and isc(b) and isinstance(b.a[1], int):
            if b.a[1] >= 1 << 63:           # x + (unsigned)-1
                b = c(b.a[1] - (1 << 64))
            elif b.a[1] >= 1 << 31 and t == "unsigned int":
                b = c(b.a[1] - (1 << 32))
            if b.a[1] == 0:
                return a
            if a.k == "iter":
                return mk("iter", a.a[0], self.arith(st, o, a.a[1], b))
            if a.k == "addr" and a.a[0][1:] and is_idx(a.a[0][-1]) and a.a[0][-1][1:-1].isdigit():
                n = int(a.a[0][-1][1:-1]) + (b.a[1] if o == "+" else -b.a[1])
                return addr(a.a[0][:-1] + ("[%d]" % n,))
            # normalise (x + k1) + k2
            if a.k == "op" and a.a[0] == "+" and isc(a.a[2]) and isinstance(a.a[2].a[1], int):
                k = a.a[2].a[1] + (b.a[1] if o == "+" else -b.a[1])
                return op("+", a.a[1], c(k)) if k else a.a[1]
            return op("+", a, c(b.a[1] if o == "+" else -b.a[1]))
        if a.k == "iter" and o in ("+", "-") and b.k != "iter":
            return mk("iter", a.a[0], op(o, a.a[1], b))
        if o == "+" and isc(a) and isinstance(a.a[1], int) and b.k != "c":
            return self.arith(st, "+", b, a, t)
        if o in ("+", "*") and not isc(a) and not isc(b) and a.k != "addr" and b.k != "addr" and id(a) > id(b):
            a, b = b, a
        if o == "*" and isc(a) and not isc(b):
            a, b = b, a
        return op(o, a, b)

    def x_Bin(self, e, st):
        o = e["op"]
        if "cv" in e:
            return [(st, c(e["cv"]))]
        if o in ("&&", "||"):
            t, f = self.branch(e, st)
            return [(s, c(1)) for s in t] + [(s, c(0)) for s in f]
        out = []
        if o == "=":
            for s, b in self.ev(e["b"], st):
                for s2, a in self.ev(e["a"], s):
                    s2 = s2.copy()
                    loc = self.loc_of(a)
                    self.write(s2, loc, b if b is not None else top(), e)
                    out.append((s2, addr(loc)))
            return out
        if o == ",":
            for s, a in self.ev(e["a"], st):
                out += self.ev(e["b"], s)
            return out
        if o.endswith("=") and o not in ("==", "!=", "<=", ">="):
            for s, b in self.ev(e["b"], st):
                for s2, a in self.ev(e["a"], s):
                    s2 = s2.copy()
                    loc = self.loc_of(a)
                    self.cl.on_read(self, s2, loc, e)
                    self.write(s2, loc, self.arith(s2, o[:-1], self.read(s2, loc), b, e.get("t", "")), e)
                    out.append((s2, addr(loc)))
            return out
        for s, a in self.ev(e["a"], st):
            for s2, b in self.ev(e["b"], s):
                out.append((s2, self.binop(s2, o, a, b, e.get("t", ""))))
        return out

    def binop(self, st, o, a, b, t=""):
        if a is None or b is None:
            return top()
        if o in ("==", "!=", "<", ">", "<=", ">="):
            if isc(a) and isc(b) and type(a.a[1]) is not str and type(b.a[1]) is not str:
                x, y = a.a[1], b.a[1]
                return c({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[o])
            v = mk("op", o, a, b)
            tr = self.truth(st, v)
            if tr is not None:
                return c(tr)
            if v.size > SIZE_CAP:
                return top(deps(v))
            return v
        return self.arith(st, o, a, b, t)

    def x_Cond(self, e, st):
        t, f = self.branch(e["c"], st)
        out = []
        for s in t:
            out += self.ev(e["a"], s)
        for s in f:
            out += self.ev(e["b"], s)
        return out

    def x_Cast(self, e, st):
        if "cv" in e:
            return [(st, c(e["cv"]))]
        out = []
        for s, v in self.ev(e["e"], st):
            if v is None:
                out.append((s, v))
                continue
            ck = e.get("ck", "")
            if ck == "Dynamic":
                out += self.dyncast(e, s, v)
            elif ck in ("ConstructorConversion", "UserDefinedConversion"):
                out.append((s, v))
            elif ck == "ToVoid":
                out.append((s, v))
            else:
                out.append((s, self.cast(s, v, ck, e["t"])))
        return out

    def dyncast(self, e, st, v):
        tgt = noref(e["t"])
        if tgt.endswith("*"):
            tgt = strip_cv(tgt[:-1].rstrip())
        loc = self.loc_of(v)
        d = st.dyn.get(loc)
        isref = e.get("gl") or e["t"].endswith("&")
        if d:
            if tgt in self.P.ancestors(d):
                return [(st, v)]
            if isref:
                self.throw(st, "std::bad_cast", e)
                return []
            return [(st, NULL)]
        ok = st.copy()
        f = mk("op", "isa:" + tgt, addr(loc))
        r1 = self.assume(st, f, True)
        r2 = self.assume(st, f, False)
        out = []
        if r1 is not None:
            out.append((r1, v))
        if r2 is not None:
            if isref:
                self.throw(r2, "std::bad_cast", e)
            else:
                out.append((r2, NULL))
        return out

    def x_Init(self, e, st):
        t = self.newtemp()
        return [(s, addr(t)) for s in self.init_list(t, e, st, e.get("t", ""))]

    def x_Zero(self, e, st):
        if self.isrec(e["t"]):
            t = self.newtemp()
            return [(self.w1(st, t, c(0), e), addr(t))]
        return [(st, c(0))]

    def x_SizeOf(self, e, st):
        return [(st, c(e["cv"]) if "cv" in e else top())]

    def x_Lambda(self, e, st):
        t = self.newtemp()
        s = st.copy()
        self.setcell(s, t, mk("lambda", e["fn"], self.fr.id))
        self.__dict__.setdefault("lamfr", {})[self.fr.id] = self.fr
        return [(s, addr(t))]

    def x_TypeId(self, e, st):
        return [(st, addr(self.newtemp()))]

    def x_ArrInitLoop(self, e, st):
        return self.ev(e["e"], st)

    def x_Other(self, e, st):
        if "cv" in e:
            return [(st, c(e["cv"]))]
        sts = [st]
        for x in e.get("c", []):
            sts = [s2 for s in sts for s2, _ in self.ev(x, s)]
        return [(s, top()) for s in sts]

    def x_Throw(self, e, st):
        if e.get("e") is None:
            cur = getattr(self, "curexc", None)
            self.throw(st, cur[-1] if cur else "?", e)
            return []
        for s, v in self.ev(e["e"], st):
            self.throw(s, noref(e["tt"]), e, v)
        return []

    def x_New(self, e, st):
        out = []
        pre = [st]
        if e.get("n") is not None:
            pre = [s for s, _ in self.ev(e["n"], st)]
        for s in pre:
            # allocation site, with one instance per visit along a trace
            key = (self.fr.fn["q"], e["l"], id(e))
            n = self.hsite.get(key, 0) + 1
            self.hsite[key] = n
            loc = (("H", "%s:%d" % key[:2], n),)
            s = s.copy()
            at = strip_cv(e["at"])
            if at in self.P.classes:
                s.dyn[loc] = at
            if e.get("place"):
                pl = list(self.evargs(e["place"], s))
                s, vs = pl[0]
            sts = [s]
            if e.get("init") is not None:
                sts = self.init_into(loc, e["init"], s, at)
            for s2 in sts:
                s2 = s2.copy()
                self.cl.on_new(self, s2, loc, e)
                out.append((s2, addr(loc)))
        return out

    def x_Del(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            s = s.copy()
            self.cl.on_delete(self, s, v, e)
            if v.k == "addr":
                loc = v.a[0]
                ty = s.dyn.get(loc, strip_cv(e.get("dt", "")))
                for s2 in self.destroy(s, loc, self.dtor_of(ty), ty, e):
                    out.append((s2, None))
            else:
                out.append((s, None))
        return out

    def x_Ctor(self, e, st):
        t = self.newtemp()
        return [(s, addr(t)) for s in self.construct(t, e, st)]

    # -------------------------------------------------------------- calls
    def x_Call(self, e, st):
        if "cv" in e:
            return [(st, c(e["cv"]))]
        out = []
        if e.get("obj") is not None:
            pre = self.ev(e["obj"], st)
            if e.get("arrow"):
                for s, v in pre:
                    if v is not None:
                        self.deref(s, v, e)
        else:
            pre = [(st, None)]
        callee = None
        for s, o in pre:
            if e.get("callee") is not None and "fn" not in e:
                for s1, fv in self.ev(e["callee"], s):
                    for s2, args in self.evargs(e["args"], s1):
                        out += self.dispatch(e, s2, fv, args)
                continue
            for s2, args in self.evargs(e["args"], s):
                out += self.docall(e, s2, o, args)
        return out

    def dispatch(self, e, st, fv, args):
        if fv.k == "fnptr":
            fn = self.P.funcs.get(fv.a[0])
            if fn and "body" in fn and not self.recursing(fn):
                return self.call_fn(fn, st, None, args, e)
        r = self.cl.on_call(self, st, e, None, args)
        if r is not None:
            return r
        if self.cl.may_throw(self, st, e):
            self.throw(st.copy(), "?", e)
        return self.ext_call(e, st.copy(), None, args)

    def docall(self, e, st, obj, args):
        if obj is None and e.get("obj") is not None:
            obj = addr(self.newtemp())
        # lambdas
        if e.get("op") == "()" and obj is not None and obj.k == "addr":
            lv = self.rawread(st, obj.a[0])
            if lv.k == "lambda":
                fn = self.P.funcs.get(lv.a[0])
                if fn:
                    fn = dict(fn)
                    fn["_lambda_frame"] = self.lamfr[lv.a[1]]
                    return self.call_fn(fn, st, None, args, e)
        usrs = [e["fn"]]
        if e.get("virt") and obj is not None:
            loc = self.loc_of(obj)
            d = st.dyn.get(loc)
            if d is None and self.fr and self.fr.this is not None and obj is self.fr.this:
                d = st.dyn.get(self.loc_of(self.fr.this))
            if d:
                usrs = [self.P.resolve_virtual(e["fn"], d)]
            else:
                cands = sorted({self.P.resolve_virtual(e["fn"], t) for t in self.P.subclasses(strip_cv(e.get("cls", "")))})
                r = self.cl.virt(self, st, e, cands)
                usrs = r if r is not None else [None]
        out = []
        for u in usrs:
            s = st if len(usrs) == 1 else st.copy()
            node = e
            r = self.cl.on_call(self, s, e, obj, args) if u == e["fn"] or u is None else self.cl.on_call(self, s, dict(e, fn=u), obj, args)
            if r is not None:
                out += r
                continue
            fn = self.P.funcs.get(u) if u else None
            if fn and "body" in fn and not e.get("impl") and self.cl.inline(self, fn) and not self.recursing(fn) \
                    and not self.cl.skip(self, s, fn, obj, args):
                r = self.cl.on_enter(self, s, fn, obj, args)
                if r is not None:
                    out += r
                    continue
                this = obj if fn.get("method") and not fn.get("sm") else None
                out += self.call_fn(fn, s, this, args, e)
                continue
            if self.cl.may_throw(self, s, e):
                self.throw(s.copy(), "?", e)
            if e.get("noreturn"):
                continue
            out += self.ext_call(e, s.copy(), obj, args)
        return out

    # ---- library model
    def ext_call(self, e, st, obj, args):
        n, q = e.get("n", ""), e.get("q", "")
        t = e.get("t", "")
        oploc = self.loc_of(obj) if obj is not None else None
        o = e.get("op")
        pts = e.get("pt", [])
        objval = None

        def ov():
            return self.read(st, oploc)
        vals = [self.argval(st, a, pts[i] if i < len(pts) else "") if a is not None else top() for i, a in enumerate(args)]

        def ret(v):
            """wrap a content value as the call's result"""
            if e.get("gl") or self.isrec(t):
                tl = self.newtemp()
                self.setcell(st, tl, v)
                return [(st, addr(tl))]
            return [(st, v)]

        # implicit member-wise assignment, and assignment of library types
        if o == "=" and obj is not None:
            self.write(st, oploc, vals[0], e)
            return [(st, addr(oploc))]
        if q.startswith(("std::", "boost::", "__gnu_cxx::")) or e.get("impl"):
            cn = q.split("<")[0]
            # element access
            if obj is not None and (o in ("[]", "()") or n == "at") and not n.startswith("operator bool") \
                    and not cn.startswith("boost::function") and not cn.startswith("std::function"):
                h = getattr(self.cl, "on_elem", None)
                if h:
                    h(self, st, obj, vals, e)
                if MAPRE.match(cn):
                    return [(st, addr(oploc + (self.idx(mk("op", "key", vals[0])), ".second")))]
                if len(vals) == 1:
                    el = oploc + (self.idx(vals[0]),)
                else:
                    el = oploc + tuple(self.idx(v) for v in vals)
                if e.get("gl"):
                    return [(st, addr(el))]
                return ret(self.read(st, el))
            if obj is not None and MAPRE.match(cn) and len(args) == 1 and n in ("find", "count"):
                k = mk("op", "key", vals[0])
                if n == "find":
                    return ret(mk("iter", oploc, k))
                out = []
                for val in (True, False):
                    s2 = self.assume(st.copy(), op("==", k, op("size", ov())), val)
                    if s2 is not None:
                        out.append((s2, c(0 if val else 1)))
                return out
            if obj is not None and MAPRE.match(cn) and n in ("insert", "emplace"):
                if len(vals) == 2 and vals[0].k == "iter" and vals[1].k == "iter" and vals[0].a[0] == vals[1].a[0]:
                    # existing keys win
                    self.write(st, oploc, op("overlay", ov(), self.read(st, vals[0].a[0])), e)
                    return [(st, None)]
                if len(args) == 1 and args[0].k == "addr" or len(args) == 2 and n == "emplace":
                    if len(args) == 1:
                        kv, nv = (self.read(st, args[0].a[0] + (m,)) for m in (".first", ".second"))
                    else:
                        kv, nv = vals
                    k = mk("op", "key", kv)
                    out = []
                    absent = op("==", k, op("size", ov()))
                    for val in (True, False):
                        s2 = self.assume(st.copy(), absent, val)
                        if s2 is None:
                            continue
                        if val:
                            self.write(s2, oploc + (self.idx(k), ".second"), nv, e)
                        t2 = self.newtemp()
                        self.setcell(s2, t2 + (".first",), mk("iter", oploc, k))
                        self.setcell(s2, t2 + (".second",), c(1 if val else 0))
                        out.append((s2, addr(t2)))
                    return out
            if obj is not None and o in ("+", "-", "+=", "-=", "++", "--") and len(vals) == 1 and "iterator" in cn:
                iv = self.rawread(st, oploc)
                if iv.k == "iter" and o in ("++", "--"):        # postfix
                    self.write(st, oploc, self.arith(st, o[0], iv, c(1)), e)
                    return ret(iv)
                if iv.k == "iter" and vals[0].k != "iter":
                    nv = self.arith(st, o[0], iv.a[1], vals[0])
                    nv = mk("iter", iv.a[0], vals[0] if o[0] == "+" and isc(iv.a[1]) and iv.a[1].a[1] == 0 else nv)
                    if o in ("+", "-"):
                        return ret(nv)
                    self.write(st, oploc, nv, e)
                    return [(st, addr(oploc))]
                if iv.k == "iter" and vals[0].k == "iter" and o == "-" and iv.a[0] == vals[0].a[0]:
                    return [(st, vals[0].a[1] and self.arith(st, "-", iv.a[1], vals[0].a[1]))]
            if obj is not None and not args:
                smart = cn.startswith(("boost::shared_ptr", "std::auto_ptr", "std::unique_ptr", "std::shared_ptr",
                                       "boost::scoped_ptr", "std::__shared_ptr", "boost::weak_ptr", "std::shared_ptr_access",
                                       "std::__shared_ptr_access"))
                if smart and (o in ("->", "*") or n == "get"):
                    pv = self.rawread(st, oploc)
                    if pv.k == "op" and pv.a[0] == "empty":
                        pv = NULL
                    if o == "*":
                        return [(st, addr(self.loc_of(pv)))]
                    return [(st, pv)]
                if smart and n == "release":
                    pv = self.rawread(st, oploc)
                    self.write(st, oploc, NULL, e)
                    return [(st, pv)]
                if smart and n == "use_count":
                    return [(st, op("use_count", self.rawread(st, oploc)))]
                if smart and n == "unique":
                    return [(st, op("unique", self.rawread(st, oploc)))]
                if smart and (n.startswith("operator bool") or n == "operator!" or n.startswith("operator ")):
                    pv = self.rawread(st, oploc)
                    if pv.k == "op" and pv.a[0] == "empty":
                        pv = NULL
                    tr = self.truth(st, pv)
                    v = c(tr) if tr is not None else op("bool", pv)
                    if o == "!":
                        v = c(not tr) if tr is not None else op("!", op("bool", pv))
                    return [(st, v)]
                if smart and n == "reset":
                    self.write(st, oploc, NULL, e)
                    return [(st, None)]
                if n in ("begin", "cbegin", "rbegin"):
                    return ret(mk("iter", oploc, c(0)))
                if n in ("end", "cend", "rend"):
                    return ret(mk("iter", oploc, op("size", ov())))
                if o == "*" or o == "->":
                    iv = self.rawread(st, oploc)
                    self.deref(st, iv, e)
                    if iv.k == "iter":
                        el = iv.a[0] + (self.idx(iv.a[1]),)
                        return [(st, addr(el))]
                    return [(st, addr((("D", iv),)))]
                if o in ("++", "--"):
                    iv = self.rawread(st, oploc)
                    self.write(st, oploc, self.arith(st, "+" if o == "++" else "-", iv, c(1)), e)
                    return [(st, addr(oploc))]
                if n in ("size", "empty", "size1", "size2"):
                    v = self.read(st, oploc)
                    if v.k == "op" and v.a[0] == "empty":
                        return [(st, c(1 if n == "empty" else 0))]
                    if n == "empty":
                        return [(st, op("==", op("size", v), c(0)))]
                    return [(st, op(n, v))]
                if n == "clear":
                    self.write(st, oploc, mk("op", "empty", cn), e)
                    return [(st, None)]
                if n in ("front", "back") and e.get("gl"):
                    return [(st, addr(oploc + ("[0]" if n == "front" else "[back]",)))]
                if n in ("c_str", "data", "str") and "basic_string" in cn:
                    return ret(ov()) if self.isrec(t) else [(st, ov())]
            if n == "data" and obj is not None and e.get("gl") and cn.startswith("boost::numeric::ublas::"):
                return [(st, addr(oploc))]      # the storage is the contents
            if n == "assign" and obj is not None and len(vals) == 1 and vals[0] is not None and cn.startswith("boost::numeric::ublas::"):
                self.write(st, oploc, vals[0], e)
                return ret(vals[0]) if not e.get("gl") else [(st, addr(oploc))]
            if obj is not None and smart_reset(cn, n) and args:
                self.write(st, oploc, vals[0], e)
                return [(st, None)]
            if n == "swap" and (obj is not None and len(args) == 1 or obj is None and len(args) == 2):
                l1 = oploc if obj is not None else self.loc_of(args[0])
                l2 = self.loc_of(args[-1])
                v1, v2 = self.read(st, l1), self.read(st, l2)
                self.write(st, l1, v2, e)
                self.write(st, l2, v1, e)
                return [(st, None)]
            if n in ("move", "forward") and len(args) == 1:
                return [(st, args[0])]
            if n == "copy" and obj is None and len(vals) == 3 and all(v.k == "iter" for v in vals) and vals[0].a[0] == vals[1].a[0]:
                sl, dl = vals[0].a[0], vals[2].a[0]
                if vals[0].a[1] is c(0) and vals[1].a[1] is op("size", self.read(st, sl)) and vals[2].a[1] is c(0) \
                        and self.samesize(st, dl, sl):
                    self.write(st, dl, self.read(st, sl), e)
                    return ret(mk("iter", dl, op("size", self.read(st, dl))))
            if n == "assign" and obj is not None and len(vals) == 2 and all(v.k == "iter" for v in vals) and vals[0].a[0] == vals[1].a[0]:
                sl = vals[0].a[0]
                if vals[0].a[1] is c(0) and vals[1].a[1] is op("size", self.read(st, sl)):
                    self.write(st, oploc, self.read(st, sl), e)
                    return [(st, None)]
            if n == "make_shared" and obj is None and len(vals) <= 1:
                h = (("H", "%s:%s" % (e.get("l"), n), next(self.tid)),)
                self.setcell(st, h, vals[0] if vals else mk("op", "empty", "std::map"))
                return ret(addr(h))
            if n == "make_pair" and len(vals) == 2:
                tl = self.newtemp()
                self.setcell(st, tl + (".first",), vals[0])
                self.setcell(st, tl + (".second",), vals[1])
                return [(st, addr(tl))]
            if n == "noalias" and len(args) == 1:
                return [(st, args[0])]
            if q.startswith("boost::numeric::ublas::") and obj is None and args and n in ("trans", "herm", "conj", "real", "imag"):
                return ret(op("call:" + q, *vals) if sum(v.size for v in vals) <= SIZE_CAP else top(deps_of(vals)))
            if q.startswith("boost::numeric::ublas::") and obj is None and n in ("project", "subrange", "subslice", "row", "column") \
                    and pts and pts[0].endswith("&") and not pts[0].startswith("const ") and not pts[0].endswith("&&"):
                return [(st, addr(self.loc_of(args[0]) + ("[*]",)))]      # a view of part of the first argument
            if o in ("==", "!=", "<", ">", "<=", ">=") and (len(vals) == 2 or (obj is not None and len(vals) == 1)):
                a, b = (vals[0], vals[1]) if obj is None else (ov(), vals[0])
                if a.k == "iter" or b.k == "iter":
                    if a.k == "iter" and b.k == "iter" and o in ("==", "!="):
                        r = self.binop(st, o, a.a[1], b.a[1]) if a.a[0] == b.a[0] else op(o, a, b)
                        return [(st, r)]
                    return [(st, op(o, a, b))]
                if a.k == "op" and a.a[0] == "empty" and "ptr" in cn:
                    a = NULL
                return [(st, self.binop(st, o, a, b))]
            if n == "get" and "tuple" not in cn and len(args) == 1 and obj is None:
                pass
        # iterator ops as free templates
        if o in ("==", "!=") and obj is None and len(vals) == 2:
            return [(st, self.binop(st, o, vals[0], vals[1]))]
        # stream output, compound ops on library objects: modifies the first operand
        return self.ext_default(e, st, obj, oploc, args, vals, ret)

    def ext_default(self, e, st, obj, oploc, args, vals, ret):
        n, q, t = e.get("n", ""), e.get("q", ""), e.get("t", "")
        pts = e.get("pt", [])
        alldeps = set()
        ins = []
        if obj is not None:
            if obj.k in ("addr", "iter") or True:
                ins.append(self.read(st, oploc))
        ins += [v for v in vals if v is not None]
        muts = []
        if obj is not None and not e.get("cm") and not e.get("sm"):
            if n not in ("find", "lower_bound", "upper_bound", "begin", "end", "c_str", "operator->", "operator*", "what",
                         "equal_range", "lookup"):
                muts.append(oploc)
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else "..."
            if a is None:
                continue
            if pt.endswith("&") and not pt.startswith("const ") and not pt.endswith("&&"):
                muts.append(self.loc_of(a))
            elif pt.endswith("*") and not pt.startswith("const ") and a.k == "addr":
                muts.append(a.a[0])
            elif pt == "..." and a.k == "addr":
                muts.append(a.a[0])
        name = "call:" + q
        base = op(name, *ins) if sum(v.size for v in ins) <= SIZE_CAP else top(deps_of(ins))
        if base.k == "op" and not q.startswith(("std::", "boost::", "__")) and not e.get("cm") and n not in PURE_NAMES:
            base = top(deps_of(ins))      # unknown function: result not a function of its arguments
        for j, m in enumerate(muts):
            self.write(st, m, op("out%d" % j, base) if base.k == "op" else top(deps(base)), e)
        if t == "void":
            return [(st, None)]
        if e.get("gl"):
            # returns a reference: to the object itself for fluent operators, else unknown storage
            if e.get("op") in ("<<", ">>", "+=", "-=", "*=", "/=", "|=") or n in ("append", "assign"):
                return [(st, addr(oploc) if obj is not None else (args[0] if args else top()))]
            if obj is not None:
                return [(st, addr((("D", base),)))]
            return [(st, addr((("D", base),)))]
        return ret(base)

    # -------------------------------------------------------------- statements
    # outcome: (kind, state, payload) kinds: n normal, b break, k continue, r return, goto
    def block_states(self, s, sts):
        out = []
        for st in sts:
            out += self.ex(s, st)
        return out

    def ex(self, s, st):
        if s is None:
            return [("n", st, None)]
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise Broken("no transfer function for statement %s" % s["k"])
        return m(s, st)

    def lim_out(self, outs):
        norm = [x for x in outs if x[0] == "n"]
        if len(norm) > self.cap:
            rest = [x for x in outs if x[0] != "n"]
            return [("n", s, None) for s in self.merge([x[1] for x in norm])] + rest
        return outs

    def seq(self, stmts, st):
        cur = [st]
        out = []
        i = 0
        for x in stmts:
            nxt = []
            for s in cur:
                for o in self.ex(x, s):
                    if o[0] == "n":
                        nxt.append(o[1])
                    else:
                        out.append(o)
            # forward gotos to a label later in this sequence
            if x is not None and any(o[0] == "goto" for o in out):
                pass
            cur = self.limit(nxt)
            if not cur and not any(o[0] == "goto" for o in out):
                break
            i += 1
            if i < len(stmts) and stmts[i] is not None and stmts[i]["k"] == "Label":
                lab = stmts[i]["n"]
                cur += [o[1] for o in out if o[0] == "goto" and o[2] == lab]
                out = [o for o in out if not (o[0] == "goto" and o[2] == lab)]
        return [("n", s, None) for s in cur] + out

    def s_Block(self, s, st):
        d = len(st.cleanup)
        out = []
        for kind, x, v in self.seq(s["c"], st):
            if kind == "r" and v is not None and len(x.cleanup) > d:
                # keep a by-value class result alive across scope exit: contents are copied by call_fn's caller
                out += [(kind, y, v) for y in self.pop(x, d, s)]
            else:
                out += [(kind, y, v) for y in self.pop(x, d, s)]
        return self.lim_out(out)

    def s_Expr(self, s, st):
        return [("n", x, None) for x in self.limit([x for x, _ in self.ev(s["e"], st)])]

    def s_Null(self, s, st):
        return [("n", st, None)]

    def s_Decl(self, s, st):
        cur = [st]
        for v in s["c"]:
            nxt = []
            for x in cur:
                nxt += self.declvar(v, x)
            cur = self.limit(nxt)
        return [("n", x, None) for x in cur]

    def declvar(self, v, st):
        if v.get("static"):
            loc = (("G", v["usr"], v["n"]),)
            h = getattr(self.cl, "on_static", None)
            if h:
                h(self, st, loc, v)
            return [st]
        loc = (("L", self.fr.id, v["id"], v["n"]),)
        t = v["t"]
        st = st.copy()
        st.mem.pop(loc[0], None)
        if t.endswith("&"):
            save = self.keep_temps
            self.keep_temps = True
            out = []
            try:
                rs = self.ev(v["init"], st) if v.get("init") is not None else [(st, top())]
            finally:
                self.keep_temps = save
            for s, x in rs:
                s = s.copy()
                self.setcell(s, loc, x)
                out.append(s)
            return out
        if self.isrec(t):
            st.dyn[loc] = strip_cv(t)
        if v.get("init") is None:
            self.setcell(st, loc, mk("uninit", loc))
            out = [st]
        else:
            out = self.init_into(loc, v["init"], st, t)
        if v.get("dtor"):
            for s in out:
                pass
            res = []
            for s in out:
                s = s.copy()
                self.push(s, loc, v["dtor"], t)
                res.append(s)
            out = res
        return out

    def s_If(self, s, st):
        d = len(st.cleanup)
        cur = [st]
        if s.get("init"):
            cur = [x for k, x, _ in self.ex(s["init"], st) if k == "n"]
        if s.get("var"):
            cur = [y for x in cur for y in self.declvar(s["var"], x)]
        out = []
        for x in cur:
            T, F = self.branch(s["c"], x)
            for y in T:
                out += self.ex(s["a"], y)
            for y in F:
                out += self.ex(s["b"], y)
        res = []
        for k, x, v in out:
            res += [(k, y, v) for y in self.pop(x, d, s)]
        return self.lim_out(res)

    def s_Ret(self, s, st):
        if s.get("e") is None:
            return [("r", st, None)]
        e = s["e"]
        rec = self.isrec(self.fr.fn["rt"]) and not self.fr.fn["rt"].endswith("&")
        if rec:
            t = self.newtemp()
            return [("r", x, addr(t)) for x in self.init_into(t, e, st, self.fr.fn["rt"])]
        return [("r", x, v) for x, v in self.ev(e, st)]

    def s_Break(self, s, st): return [("b", st, None)]
    def s_Continue(self, s, st): return [("k", st, None)]
    def s_Goto(self, s, st): return [("goto", st, s["n"])]
    def s_Label(self, s, st): return self.ex(s["s"], st)
    def s_Case(self, s, st): return self.ex(s["s"], st)
    def s_Default(self, s, st): return self.ex(s["s"], st)

    def s_OtherS(self, s, st):
        return [("n", st, None)]

    def s_Switch(self, s, st):
        d = len(st.cleanup)
        cur = [st]
        if s.get("var"):
            cur = self.declvar(s["var"], st)
        flat = []     # (labels, stmt)
        body = s["body"]["c"] if s["body"]["k"] == "Block" else [s["body"]]
        for x in body:
            labels = []
            while x is not None and x["k"] in ("Case", "Default"):
                labels.append("default" if x["k"] == "Default" else x.get("cv"))
                x = x["s"]
            flat.append((labels, x))
        out = []
        for x in cur:
            for y, v in self.ev(s["c"], x):
                self.cl.on_branch(self, y, s["c"], v)
                entries = []     # (state, index)
                left = y
                defidx = None
                for i, (labels, _) in enumerate(flat):
                    for lab in labels:
                        if lab == "default":
                            defidx = i
                            continue
                        if left is None:
                            continue
                        cond = self.binop(left, "==", v, c(lab))
                        t = self.assume(left, cond, True)
                        f = self.assume(left, cond, False)
                        if t is not None:
                            entries.append((t, i))
                        left = f
                if left is not None:
                    if defidx is not None:
                        entries.append((left, defidx))
                    else:
                        out.append(("n", left, None))
                for z, i in entries:
                    for k, w, val in self.seq([b for _, b in flat[i:]], z):
                        if k == "b":
                            k = "n"
                        out.append((k, w, val))
        res = []
        for k, x, v in out:
            res += [(k, y, v) for y in self.pop(x, d, s)]
        return self.lim_out(res)

    def s_Try(self, s, st):
        d = len(st.cleanup)
        saved = self.exc
        self.exc = []
        try:
            out = self.ex(s["body"], st)
            excs = self.exc
        finally:
            self.exc = saved
        for x in self.lim_exc(excs):
            for y in self.pop(x.st, d, s):
                handled = False
                for h in s["h"]:
                    r = self.catches(h, x)
                    if r:
                        z = y.copy()
                        if h.get("var"):
                            vl = (("L", self.fr.id, h["var"]["id"], h["var"]["n"]),)
                            if h["var"]["t"].endswith("&"):
                                self.setcell(z, vl, addr((("D", mk("op", "exc", id(x.node))),)))
                            if strip_cv(noref(h["var"]["t"])) in self.P.classes:
                                pass
                        self.__dict__.setdefault("curexc", []).append(x.ty)
                        hc = getattr(self.cl, "on_catch", None)
                        if hc:
                            hc(self, z, h, x)
                        try:
                            out += self.ex(h["body"], z)
                        finally:
                            self.curexc.pop()
                        if r == "must":
                            handled = True
                            break
                if not handled:
                    self.exc.append(Exc(y, x.ty, x.node, x.fn, x.val))
        return self.lim_out(out)

    def catches(self, h, x):
        """'must', 'may' or None"""
        if h.get("t") is None:
            return "must"
        ht = noref(h["t"])
        return exc_isa(self.P, x.ty, ht)

    # ---- loops
    def s_For(self, s, st):
        d = len(st.cleanup)
        cur = [st]
        if s.get("init"):
            cur = [x for k, x, _ in self.ex(s["init"], st) if k == "n"]
        out = []
        for x in cur:
            out += self.loop(s, x, s.get("c"), s.get("inc"), s["body"], s.get("var"))
        res = []
        for k, x, v in out:
            res += [(k, y, v) for y in self.pop(x, d, s)]
        return self.lim_out(res)

    def s_While(self, s, st):
        return self.loop(s, st, s["c"], None, s["body"], s.get("var"))

    def s_Do(self, s, st):
        out = []
        cont = []
        for k, x, v in self.ex(s["body"], st):
            if k in ("n", "k"):
                cont.append(x)
            elif k == "b":
                out.append(("n", x, None))
            else:
                out.append((k, x, v))
        for x in self.limit(cont):
            T, F = self.branch(s["c"], x)
            out += [("n", y, None) for y in F]
            for y in T:
                out += self.loop(s, y, s["c"], None, s["body"], None, dofirst=True)
        return self.lim_out(out)

    def s_ForRange(self, s, st):
        out = []
        save = self.keep_temps
        self.keep_temps = True
        try:
            rs = self.ev(s["range"], st)
        finally:
            self.keep_temps = save
        for x, rv in rs:
            rloc = self.loc_of(rv)
            out += self.loop(s, x, None, None, s["body"], None, rng=(rloc, s["var"]))
        return self.lim_out(out)

    def iterate(self, s, st, cond, inc, body, var, rng, dofirst=False):
        """one iteration from loop head st -> (exits, nexts, others)"""
        d = len(st.cleanup)
        exits, nexts, others = [], [], []
        if rng:
            T = []
            rloc, v = rng[:2]
            exits.append(st)
            x = st.copy()
            el = rloc + (rng[2] if len(rng) > 2 else "[#%d]" % next(_uid),)
            vl = (("L", self.fr.id, v["id"], v["n"]),)
            if v["t"].endswith("&"):
                self.setcell(x, vl, addr(el))
            else:
                self.setcell(x, vl, self.read(x, el))
            T = [x]
        else:
            cur = [st]
            if var:
                cur = [y for x in cur for y in self.declvar(var, x)]
            T, F = [], []
            for x in cur:
                if cond is None:
                    T.append(x)
                elif dofirst:
                    T.append(x)
                else:
                    t, f = self.branch(cond, x)
                    T += t
                    F += f
            for x in F:
                exits += self.pop(x, d, s)
        for x in self.limit(T):
            for k, y, v in self.ex(body, x):
                for y in self.pop(y, d, s):
                    if k in ("n", "k"):
                        zs = [y]
                        if inc is not None:
                            zs = [w for w, _ in self.ev(inc, y)]
                        if dofirst and cond is not None:
                            zz = []
                            for z in zs:
                                t, f = self.branch(cond, z)
                                zz += t
                                others += [("n", w, None) for w in f]
                            zs = zz
                        nexts += zs
                    elif k == "b":
                        others.append(("n", y, None))
                    else:
                        others.append((k, y, v))
        return exits, nexts, others

    def samesize(self, st, d, src):
        """is container d known to have as many elements as src"""
        cd, cs = self.read(st, d), self.read(st, src)
        if self.truth(st, op("==", op("size", cd), op("size", cs))) is True:
            return True
        return cd.k == "op" and cd.a[0].startswith("out") and cd.a[1].k == "op" and cd.a[1].a[0].endswith("::resize") \
            and any(x is op("size", cs) for x in cd.a[1].a[1:])

    def loopvar(self, s, st, cond, inc):
        """the local that counts 0,1,2... or walks from a container's begin"""
        fid = self.fr.id
        r = []
        for root, cells in st.mem.items():
            if root[0] == "L" and root[1] == fid:
                v = cells.get(())
                if v is not None and ((isc(v) and v.a[1] == 0 and v.a[0] == "int") or (v.k == "iter" and isc(v.a[1]) and v.a[1].a[1] == 0)):
                    r.append((root,))
        names = set()

        def walk(n):
            if isinstance(n, dict):
                if n.get("k") == "Ref" and "id" in n:
                    names.add(n["id"])
                for x in n.values():
                    walk(x)
            elif isinstance(n, list):
                for x in n:
                    walk(x)
        walk(inc)
        return [l for l in r if l[0][2] in names]

    def summarise(self, s, st, cond, inc, body, var, rng):
        """a loop that visits every element of a container once and copies it: its whole effect, or None"""
        if var or self.insum:
            return None
        cands = []
        I = mk("op", "generic", next(_uid))
        ix = self.idx(I)
        if rng:
            cands.append(None)
        elif inc is not None and cond is not None:
            cands = self.loopvar(s, st, cond, inc)
        for cv in cands:
            g = st.copy()
            if cv is not None:
                v0 = self.rawread(g, cv)
                src0 = v0.a[0] if v0.k == "iter" else None
                self.setcell(g, cv, mk("iter", v0.a[0], I) if v0.k == "iter" else I)
            saved, self.exc = self.exc, []
            slog, self.wlog = self.wlog, []
            self.probing += 1
            self.insum = True
            try:
                ex, nn, ot = self.iterate(s, g, cond, inc, body, None, rng and (rng[0], rng[1], ix))
                log, excs = self.wlog, self.exc
            finally:
                self.insum = False
                self.probing -= 1
                self.exc, self.wlog = saved, slog
            if ot or excs or not nn:
                continue
            if any(self.cl.key(n) != self.cl.key(st) for n in nn):
                continue
            live = {r for r in st.mem}
            eff = {}
            bad = False
            for loc, val in log:
                if cv is not None and loc == cv:
                    if not (val.k == "op" or val.k == "iter"):
                        bad = True
                    continue
                r = loc[0]
                if r[0] in ("L", "T") and r not in live:
                    continue
                eff.setdefault(loc, []).append(val)
            if bad or not eff:
                continue
            if cv is not None:
                nv = {self.rawread(n, cv) for n in nn}
                step = {self.arith(st, "+", mk("iter", v0.a[0], I) if v0.k == "iter" else I, c(1))}
                if nv != step:
                    continue
            sizes = set()
            part = False        # does something else limit which entries are visited
            for n in nn:
                for f, t in n.facts.items():
                    if f.k == "op" and ((f.a[0] == "<" and t and f.a[1] is I) or (f.a[0] == "==" and not t and I in f.a[1:3])):
                        o2 = f.a[2] if f.a[1] is I else f.a[1]
                        if o2.k == "op" and o2.a[0] == "size":
                            sizes.add(o2.a[1])
                            continue
                    if f not in st.facts and f.k == "op" and I in f.a[1:]:
                        part = True
            plan = []
            for loc, vals in eff.items():
                vals = set(vals)
                if len(vals) != 1:
                    plan = None
                    break
                v = vals.pop()
                if loc[-1] == ix and v.k == "init" and v.a[0][-1] == ix:
                    d, srcl = loc[:-1], v.a[0][:-1]
                    full = rng[0] in (srcl, d) if rng else sizes <= {self.read(st, d), self.read(st, srcl)} and sizes
                    if full and not part and self.samesize(st, d, srcl):
                        plan.append((d, self.read(st, srcl)))
                        continue
                if len(loc) > 2 and loc[-1] == ".second" and v.k == "init" and v.a[0][-2:] == (ix, ".second"):
                    d, m = loc[:-2], v.a[0][:-2]
                    key = mk("op", "key", init(m + (ix, ".first")))
                    if loc[-2] == self.idx(key) and (rng and rng[0] == m or self.read(st, m) in sizes):
                        cond_ = any(self.read(n, loc) is not v for n in nn)
                        a, b = self.read(st, d), self.read(st, m)
                        plan.append((d, op("overlay", a, b) if cond_ else op("overlay", b, a)))
                        continue
                plan = None
                break
            if not plan:
                continue
            # let the client see one generic iteration
            saved, self.exc = self.exc, []
            self.insum = True
            try:
                self.iterate(s, g, cond, inc, body, None, rng and (rng[0], rng[1], ix))
            finally:
                self.insum = False
                self.exc = saved
            out = st.copy()
            for d, val in plan:
                self.setcell(out, d, val)
            if cv is not None:
                self.setcell(out, cv, top())
            return [("n", out, None)]
        return None

    def loop(self, s, st, cond, inc, body, var, rng=None, dofirst=False):
        out = []
        size = getattr(self.cl, "sizeof", None)
        if size and rng:
            n = size(self, st, rng[0])
            if n is not None and n <= self.unroll:
                cur = [st]
                for i in range(n):
                    nx = []
                    for x in cur:
                        ex, nn, ot = self.iterate(s, x, None, None, body, None, (rng[0], rng[1], "[%d]" % i))
                        nx += nn
                        out += ot
                    cur = self.limit(nx)
                return self.lim_out(out + [("n", x, None) for x in cur])
        if not dofirst and not (size and cond is not None and self.decided(cond, st) is not None):
            r = self.summarise(s, st, cond, inc, body, var, rng)
            if r is not None:
                return r
        # 1. exact while the condition is decided by constants
        if not rng and not dofirst and self.unroll and cond is not None:
            cur = [st]
            saved = self.exc
            self.exc = []
            ok = True
            acc = []
            n = 0
            snap = self.calls
            try:
                self.probing += 1
                dec = self.decided(cond, st)
                self.probing -= 1
                while ok and cur and n <= self.unroll:
                    nx = []
                    for x in cur:
                        t = self.decided(cond, x)
                        if t is None:
                            ok = False
                            break
                    if not ok:
                        break
                    for x in cur:
                        ex, nn, ot = self.iterate(s, x, cond, inc, body, var, None)
                        acc += [("n", y, None) for y in ex] + ot
                        nx += nn
                    cur = self.limit(nx)
                    n += 1
                if cur and (n > self.unroll or not ok):
                    ok = False
                excs = self.exc
            finally:
                self.exc = saved
            if ok:
                self.exc += excs
                return self.lim_out(acc)
            if n:
                # keep the exactly executed prefix, continue from there with widening
                self.exc += excs
                out += acc
                heads = cur
            else:
                heads = [st]
        else:
            heads = [st]
        return self.lim_out(out + self.fix(s, heads, cond, inc, body, var, rng, dofirst))

    def decided(self, cond, st):
        """truth of a side-effect free condition, or None"""
        self.probing += 1
        saved = self.exc
        self.exc = []
        try:
            T, F = self.branch(cond, st)
        finally:
            self.exc = saved
            self.probing -= 1
        if T and not F:
            return True
        if F and not T:
            return False
        return None

    def fix(self, s, heads, cond, inc, body, var, rng, dofirst):
        # 2. widening to a fixpoint, one head state per client key
        H = {}
        for x in self.merge(heads):
            H[(self.cl.key(x), x.cleanup)] = x
        entry = dict(H)
        self.probing += 1
        saved = self.exc
        wid = {}
        try:
            for rnd in range(12):
                self.exc = []
                nxt = []
                for x in list(H.values()):
                    _, nn, _ = self.iterate(s, x, cond, inc, body, var, rng, dofirst)
                    nxt += nn
                changed = False
                if rnd > 8 and DEBUG:
                    print("round", rnd, len(H), [len(x.mem) for x in H.values()])
                for y in self.merge(nxt):
                    key = (self.cl.key(y), y.cleanup)
                    if key not in H:
                        H[key] = self.widen(y, y, wid.setdefault(key, {}), first=True)
                        changed = True
                    else:
                        w = self.widen(H[key], y, wid.setdefault(key, {}))
                        if w is not None:
                            H[key] = w
                            changed = True
                if not changed:
                    break
            else:
                raise Broken("loop at line %d in %s did not stabilise" % (s["l"], self.fr.fn["q"]))
        finally:
            self.exc = saved
            self.probing -= 1
        out = []
        for x in list(H.values()):
            ex, nn, ot = self.iterate(s, x, cond, inc, body, var, rng, dofirst)
            h = getattr(self.cl, "on_loop_exit", None)
            for y in ex:
                if h:
                    y = h(self, y, s, x) or y
                out.append(("n", self.generalise(y, x, s, cond, inc, body, nn), None))
            out += ot
        return out

    def widen(self, old, new, wid, first=False):
        """-> widened head or None when new adds nothing"""
        if first:
            return old.copy()
        r = None
        for root in set(old.mem) | set(new.mem):
            mo, mn = old.mem.get(root, {}), new.mem.get(root, {})
            if mo == mn:
                continue
            if root not in old.mem and root[0] in ("L", "T", "H"):
                continue       # storage created inside the body
            if root not in old.mem and root[0] == "D" and has_top(root[1]):
                continue       # pointee of a pointer made inside the body
            for path in set(mo) | set(mn):
                vo = mo.get(path)
                if vo is None:
                    vo = self.rawread(old, (root,) + path)
                vn = mn.get(path)
                if vn is None:
                    vn = self.rawread(new, (root,) + path)
                if vo is vn:
                    continue
                key = (root, path)
                if any(p.startswith("[#") or p.startswith("[~") for p in path) and path not in mo:
                    # element written at this iteration's index: the container is summarised
                    i = next(i for i, p in enumerate(path) if p.startswith("[#") or p.startswith("[~"))
                    key = (root, path[:i] + ("[*]",) + path[i + 1:])
                    g = self.rawread(old, (root,) + key[1])
                    dd = deps(g) | deps(vn)
                    cur = wid.get(key)
                    if cur is not None and dd <= deps(cur):
                        continue
                    w = top(dd | (deps(cur) if cur else EMPTY))
                    wid[key] = w
                    if r is None:
                        r = old.copy()
                    r.cells(root)[key[1]] = w
                    continue
                w = wid.get(key)
                if DEBUG:
                    print("  widen", show_loc((root,) + path), vo, "->", vn)
                if w is not None and vo is w:
                    nd = deps(vn)
                    if w.k == "iter" and vn.k == "iter" and vn.a[0] == w.a[0] and nd <= deps(w):
                        continue
                    if w.k == "top" and nd <= w.a[1]:
                        continue
                    if w.k == "op" and w.a[0] == "maybe-uninit" and nd <= deps(w):
                        continue
                if vo.k == "iter" and vn.k == "iter" and vo.a[0] == vn.a[0]:
                    w = mk("iter", vo.a[0], top(deps(vo) | deps(vn)))
                elif vo.k == "uninit" or (vo.k == "op" and vo.a[0] == "maybe-uninit"):
                    w = mk("op", "maybe-uninit", top(deps(vo) | deps(vn)))
                else:
                    w = top(deps(vo) | deps(vn))
                wid[key] = w
                if r is None:
                    r = old.copy()
                r.cells(root)[path] = w
        # facts must hold at every visit
        drop = [k for k, v in old.facts.items() if new.facts.get(k) is not v]
        if drop:
            if r is None:
                r = old.copy()
            for k in drop:
                r.facts.pop(k, None)
        return r

    def generalise(self, y, head, s, cond, inc, body, nexts):
        return y


PURE_NAMES = {"sqrt", "sin", "cos", "tan", "atan", "atan2", "pow", "exp", "log", "abs", "fabs", "floor", "ceil", "strcmp",
              "strlen", "isnan", "isfinite", "fmod", "sinh", "cosh", "tanh", "asin", "acos", "signbit", "hypot"}


def smart_reset(cn, n):
    return n == "reset" and cn.startswith(("boost::shared_ptr", "std::auto_ptr", "std::unique_ptr", "std::shared_ptr",
                                           "boost::scoped_ptr", "std::__shared_ptr"))


STD_EXC = {
    "std::exception": [],
    "std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"],
    "std::out_of_range": ["std::logic_error"], "std::invalid_argument": ["std::logic_error"],
    "std::length_error": ["std::logic_error"], "std::domain_error": ["std::logic_error"],
    "std::range_error": ["std::runtime_error"], "std::overflow_error": ["std::runtime_error"],
    "std::underflow_error": ["std::runtime_error"], "std::bad_alloc": ["std::exception"],
    "std::bad_cast": ["std::exception"], "boost::bad_get": ["std::exception"],
    "boost::bad_any_cast": ["std::bad_cast"], "boost::bad_lexical_cast": ["std::bad_cast"],
    "std::ios_base::failure": ["std::exception"],
    "boost::bad_function_call": ["std::runtime_error"],
    "boost::filesystem::filesystem_error": ["std::runtime_error"],
}


def exc_bases(P, t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.append(x)
        todo += P.bases(x) or STD_EXC.get(x, [])
        if x.startswith("H5::") and x != "H5::Exception":
            todo.append("H5::Exception")
    return out


def exc_isa(P, t, handler):
    if t == "?":
        return "must" if handler in ("std::exception",) else "may"
    if t == "std-exc":
        return "must" if handler == "std::exception" else "may"
    return "must" if handler in exc_bases(P, t) else None
