"""The lattice language: the grammar and scanner actions and the parser's callbacks, interpreted over abstract values.

Library containers have the shape (size, kind, keys) of the case being considered; numbers stay symbolic.
Every heap object carries a typestate: live, released, or handed over."""
import math, operator, xml.etree.ElementTree as ET
from absint import *
from common import *
from sized import *

CT = ("P", "ctxt")
HUGE = 1000  # no text at hand needs more
KIND, VAL = ".#kind", ".#val"
STR = "std::basic_string<char>"
MAP = re.compile(r"std::(multi)?map<")
VARIANT = re.compile(r"boost::variant<")
PTR = re.compile(r"std::(auto_ptr|unique_ptr)<|boost::scoped_ptr<")
SHARED = re.compile(r"(boost|std)::(__)?shared_ptr<")
KINDS = {"double": "number", "std::vector<double>": "vector", STR: "string",
         "std::vector<%s>" % STR: "line", "boost::shared_ptr<Config>": "config", "std::vector<Config>": "configs"}
ETYPES = {}
ERRCELL = (CT, ".last_error")


def uncv(t):
    return noref(t or "").replace("std::__cxx11::", "std::")


def sval(v):
    """a std::string's value"""
    while v is not None and v.k == "agg":
        v = v.a[0]
    if v is not None and v.k == "op" and v.a[0] == "empty":
        return c("")
    if v is NULL:
        return c("")
    return v


class GEngine(Engine):
    memo = None

    def call_fn(self, fn, st, this, args, node=None):
        """a parse_context is always built in the same way"""
        if not fn["q"].startswith("parse_context::parse_context") or this is None or this.k != "addr" or self.memo is None:
            return super().call_fn(fn, st, this, args, node)
        key = (fn["usr"], tuple(self.read(st, a.a[0]) if a is not None and a.k == "addr" else a for a in args))
        loc = this.a[0]
        if key in self.memo:
            st = st.copy()
            v, xs = self.memo[key]
            for x in xs:
                self.throw(st.copy(), x.ty, x.node, x.val)
            self.setcell(st, loc, v)
            return [(st, None)]
        ne, cl = len(self.exc), st.cl
        r = super().call_fn(fn, st, this, args, node)
        xs = self.exc[ne:]
        if len(r) == 1 and r[0][0].cl == cl and all(x.st.cl == cl for x in xs):
            v = self.read(r[0][0], loc)
            if not self.refers(v):
                self.memo[key] = v, xs
        return r

    def refers(self, v):
        """does a value point to somewhere on the stack or the heap?"""
        if v.k in ("addr", "iter"):
            return v.a[0][0][0] in "LTH"
        if v.k == "agg":
            return self.refers(v.a[0]) or any(self.refers(x) for _, x in v.a[1])
        return v.k == "op" and any(isinstance(x, V) and self.refers(x) for x in v.a[1:])

    def x_Un(self, e, st):
        if e["op"] in ("*", "&"):
            r = self.ev(e["e"], st)
            if r and all(v is not None and v.k == "fnptr" for _, v in r):
                return r
            if e["op"] == "&":
                return r
            out = []
            for s, v in r:
                self.deref(s, v, e)
                if v.k == "c" and isinstance(v.a[1], str):
                    v = addr((("S", v.a[1]), "[0]"))
                out.append((s, addr(self.loc_of(v))))
            return out
        return super().x_Un(e, st)

    def x_Other(self, e, st):
        ch = e.get("c", [])
        if len(ch) == 1 and isinstance(ch[0], dict) and "__va_list_tag" in (ch[0].get("t") or ch[0].get("vt") or ""):
            out = []
            for s, v in self.ev(ch[0], st):
                out += self.cl.vaarg(self, s.copy(), e, v)
            return out
        return super().x_Other(e, st)

    def x_Throw(self, e, st):
        if e.get("e") is None:
            cur = getattr(self, "curexc", None)
            self.throw(st, cur[-1] if cur else "?", e, getattr(self, "curval", None))
            return []
        return super().x_Throw(e, st)


class Glps(Sized):
    """client of the engine: the libraries the parser is written with"""
    def __init__(self, P):
        self.P = P
        self.bad = {}
        self.line = 0
        self.opaque = {}
        self.va = {}
        self.vacheck = True

    def key(self, st):
        return st.cl

    def flag(self, E, rule, node, msg):
        if E.probing:
            return
        w = where(E.fr.fn, node if node and "l" in node else None) if E.fr else ""
        self.bad.setdefault(rule, {}).setdefault((w, msg), "%s: %s" % (w, msg))

    def inline(self, E, fn):
        b = os.path.basename(fn["f"])
        if b in ("glps_parser.cpp", "glps_ops.cpp", "glps_parser.h", "glps.par.c"):
            return True
        return "/src/" in fn["f"] and not re.match(r"Config(::|$)|detail::|operator<<", fn["q"]) and b in ("config.cpp", "config.h")

    # ------------------------------------------------------------ heap
    def live(self, st): return st.cl[0]
    def dead(self, st): return st.cl[1]

    def on_new(self, E, st, loc, node):
        st.cl = (st.cl[0] | {loc}, st.cl[1])

    def hloc(self, v):
        if v is not None and v.k == "addr" and v.a[0][0][0] == "H":
            return v.a[0][:1]
        return None

    def release(self, E, st, v, node, how="delete"):
        if v is None or v is NULL or v.k in ("op",) and v.a[0] == "empty":
            return
        l = self.hloc(v)
        if l is None:
            if v.k in ("uninit",) or v.k == "op" and v.a[0] == "maybe-uninit":
                self.flag(E, "nothing is released twice", node, "an uninitialised pointer is released")
            return
        if l in st.cl[1]:
            self.flag(E, "nothing is released twice", node, "%s is released a second time" % self.what(st, l))
        elif l in st.cl[0]:
            if how == "free":
                self.flag(E, "what new made is released with delete", node, "%s, made with new, is given to free()" % self.what(st, l))
            st.cl = (st.cl[0] - {l}, st.cl[1] | {l})

    def what(self, st, l):
        return "a %s" % st.dyn.get(l, l[0][1].split(":")[-2] if ":" in str(l[0][1]) else "object")

    def on_delete(self, E, st, v, node):
        self.release(E, st, v, node)

    def used(self, E, st, loc, node):
        if loc and loc[0][0] == "H" and loc[:1] in st.cl[1]:
            self.flag(E, "nothing is used after it is released", node, "%s is used after it was released" % self.what(st, loc[:1]))

    def on_deref(self, E, st, v, e):
        if v is None:
            return
        if v is NULL or v.k == "op" and v.a[0] == "empty":
            self.flag(E, "no NULL pointer is followed", e, "a NULL pointer is followed")
        elif v.k == "uninit":
            self.flag(E, "no NULL pointer is followed", e, "an uninitialised pointer is followed")
        l = self.hloc(v)
        if l:
            self.used(E, st, v.a[0], e)

    def on_read(self, E, st, loc, node):
        self.used(E, st, loc, node)

    def on_dtor(self, E, st, loc, ty, node):
        if PTR.match(ty):
            v = E.rawread(st, loc)
            self.release(E, st, v, node)
            # what the object itself owns
            l = self.hloc(v)
            if l and st.dyn.get(l) in self.P.classes:
                for s in E.destroy(st, l, E.dtor_of(st.dyn[l]), st.dyn[l], node):
                    pass
        if "vector" in ty or MAP.match(ty) or "basic_string" in ty:
            return

    def on_catch(self, E, st, h, x):
        E.curval = x.val
        if h.get("var") and x.val is not None and h["var"]["t"].endswith("&"):
            E.setcell(st, (("L", E.fr.id, h["var"]["id"], h["var"]["n"]),), x.val)

    # ------------------------------------------------------------ variadic functions
    def on_enter(self, E, st, fn, this, args):
        n = len(fn["params"])
        if len(args) > n:
            self.va[fn["usr"]] = (tuple(args[n:]), None)
        return None

    def valist(self, E, st, v):
        return E.loc_of(v)

    def vaarg(self, E, st, e, v):
        loc = self.valist(E, st, v)
        if loc[-1] == "[0]":
            loc = loc[:-1]
        items, i = E.rawread(st, loc + (".#va",)), E.rawread(st, loc + (".#i",))
        if items.k != "op" or items.a[0] != "va" or i.k != "c":
            return [(st, top())]
        xs = items.a[1:]
        if i.a[1] >= len(xs):
            self.flag(E, "variadic arguments are read as they were passed", e, "more variadic arguments are read than were passed")
            return [(st, top())]
        x = xs[i.a[1]]
        t = e.get("t", "")
        num = x.k == "init" and x.a[0][0] == ("P", "num")
        isptr = x.k == "addr" or x is NULL
        if num and t != "double" or x.k == "addr" and "*" not in t or x.k == "c" and isinstance(x.a[1], int) and ("*" in t and x is not NULL or t == "double"):
            self.flag(E, "variadic arguments are read as they were passed", e, "a variadic argument is read as %s" % t)
        E.setcell(st, loc + (".#i",), c(i.a[1] + 1))
        return [(st, x)]

    # ------------------------------------------------------------ calls
    def vals(self, E, st, e, args):
        pts = e.get("pt", [])
        return [E.argval(st, a, pts[i] if i < len(pts) else "") if a is not None else None for i, a in enumerate(args)]

    def ret(self, E, st, e, v):
        if e.get("gl") or E.isrec(e.get("t", "")):
            t = E.newtemp()
            E.setcell(st, t, v)
            return [(st, addr(t))]
        return [(st, v)]

    def on_call(self, E, st, e, obj, args):
        n, q = e.get("n", "") or "", e.get("q", "") or ""
        if obj is not None and obj.k == "addr":
            self.used(E, st, obj.a[0], e)
        for a in args:
            if a is not None and a.k == "addr":
                self.used(E, st, a.a[0], e) if not (q.startswith(("glps_", "free")) or PTR.match(q) or (e.get("fn") in self.P.funcs)) else None
        for h in (self.c_va, self.c_ptr, self.c_variant, self.c_map, self.c_vector, self.c_string, self.c_algo, self.c_iter, self.c_misc, self.c_config):
            r = h(E, st, e, obj, args, n, q)
            if r is not None:
                return r
        return None

    def c_va(self, E, st, e, obj, args, n, q):
        if n in ("__builtin_va_start", "__builtin_c23_va_start"):
            st = st.copy()
            loc = E.loc_of(args[0])
            if loc[-1] == "[0]":
                loc = loc[:-1]
            xs = self.va.get(E.fr.fn["usr"], ((), None))[0]
            E.setcell(st, loc + (".#va",), mk("op", "va", *[x if x is not None else top() for x in xs]))
            E.setcell(st, loc + (".#i",), c(0))
            return [(st, None)]
        if n == "__builtin_va_end":
            return [(st, None)]
        return None

    # ---- owning pointers
    def c_ptr(self, E, st, e, obj, args, n, q):
        if obj is None or obj.k != "addr" or not (PTR.match(q) or SHARED.match(q)):
            if n == "free" and args:
                st = st.copy()
                self.release(E, st, args[0], e, "free")
                return [(st, None)]
            return None
        loc, o = obj.a[0], e.get("op")
        shared = not PTR.match(q)
        if e["k"] == "Ctor":
            st = st.copy()
            if not args:
                E.setcell(st, loc, NULL)
            elif e.get("copy") or e.get("move") or "_ptr" in (e.get("pt") or [""])[0].split("<")[0]:
                src = E.loc_of(args[0])
                E.setcell(st, loc, E.rawread(st, src))
                if not shared:
                    E.setcell(st, src, NULL)
            else:
                E.setcell(st, loc, args[0])
                if shared:
                    self.handover(st, args[0])
            return [(st, None)]
        v = E.rawread(st, loc)
        if v.k == "op" and v.a[0] == "empty":
            v = NULL
        if n == "reset":
            st = st.copy()
            new = args[0] if args else NULL
            if shared:
                self.handover(st, new)
            elif v is not new:
                self.drop_ptr(E, st, v, e)
            E.setcell(st, loc, new)
            return [(st, None)]
        if o == "=" and args:
            st = st.copy()
            if args[0].k == "addr":
                src = args[0].a[0]
                nv = E.rawread(st, src)
                if not shared:
                    self.drop_ptr(E, st, v, e)
                    E.setcell(st, src, NULL)
                E.setcell(st, loc, nv)
            else:
                if not shared:
                    self.drop_ptr(E, st, v, e)
                E.setcell(st, loc, args[0])
            return [(st, obj)]
        if n == "release":
            st = st.copy()
            E.setcell(st, loc, NULL)
            return [(st, v)]
        if n == "swap":
            st = st.copy()
            o2 = E.loc_of(args[0])
            w = E.rawread(st, o2)
            E.setcell(st, loc, w)
            E.setcell(st, o2, v)
            return [(st, None)]
        if n == "get":
            return [(st, v)]
        if o in ("->", "*"):
            self.on_deref(E, st, v, e)
            return [(st, v if o == "->" else addr(E.loc_of(v)))]
        if n.startswith("operator") and o == "!":
            return [(st, c(v is NULL))]
        if n.startswith("operator"):
            return [(st, c(v is not NULL))]
        return None

    def drop_ptr(self, E, st, v, e):
        self.release(E, st, v, e)

    def handover(self, st, v):
        l = self.hloc(v)
        if l:
            st.cl = (st.cl[0] - {l}, st.cl[1])

    # ---- variant
    def c_variant(self, E, st, e, obj, args, n, q):
        if q.startswith("boost::get") or q == "boost::relaxed_get" or q == "boost::strict_get":
            t = uncv(e.get("t", ""))
            isptr = t.endswith("*")
            want = KINDS.get(strip_cv(t[:-1].strip()) if isptr else t)
            loc = E.loc_of(args[0])
            self.used(E, st, loc, e)
            k = E.rawread(st, loc + (KIND,))
            if want is None or k.k != "c":
                return None
            if k.a[1] == want:
                return [(st, addr(loc + (VAL,)))]
            if isptr:
                return [(st, NULL)]
            E.throw(st.copy(), "boost::bad_get", e)
            return []
        if obj is None or obj.k != "addr" or not VARIANT.match(q):
            return None
        loc = obj.a[0]
        if e["k"] == "Ctor" or e.get("op") == "=":
            st = st.copy()
            r = [(st, None if e["k"] == "Ctor" else obj)]
            if not args:
                E.setcell(st, loc + (KIND,), c("number"))
                E.setcell(st, loc + (VAL,), c(0.0))
                return r
            pt = uncv(e["pt"][0])
            if VARIANT.match(pt):
                src = E.loc_of(args[0])
                for m in (KIND, VAL):
                    E.setcell(st, loc + (m,), E.read(st, src + (m,)))
                return r
            k = KINDS.get(pt) or ("number" if pt in ("int", "unsigned int", "float") else None)
            v = E.argval(st, args[0], e["pt"][0])
            if v.k == "init" and len(v.a[0]) == 1 and v.a[0][0][0] == "D":
                v = v.a[0][0][1]
            if k is None:
                return None
            E.setcell(st, loc, mk("op", "variant"))
            E.setcell(st, loc + (KIND,), c(k))
            if k in ("vector", "line", "configs") and sval(v) is c("") and v.k != "agg":
                E.setcell(st, loc + (VAL, N), c(0))
            else:
                E.setcell(st, loc + (VAL,), sval(v) if k == "string" else v)
            return r
        if n == "type":
            return [(st, addr((("D", op("typeinfo")),)))]
        if n == "which":
            k = E.rawread(st, loc + (KIND,))
            names = [x.strip() for x in splitargs(q[q.index("<") + 1:q.rindex(">")])]
            for i, x in enumerate(names):
                if k.k == "c" and KINDS.get(x) == k.a[1]:
                    return [(st, c(i))]
        return None

    # ---- maps, in key order
    def entries(self, E, st, loc):
        k = self.sizeof(E, st, loc)
        if k is None:
            b = E.rawread(st, loc)
            return None if b.k == "init" else []
        return [sval(E.read(st, loc + ("[%d]" % i, ".first"))) for i in range(k)]

    def mapins(self, E, st, loc, key, multi):
        """slot for a new key"""
        ks = self.entries(E, st, loc) or []
        pos = len(ks)
        for i, k in enumerate(ks):
            if k.k == "c" and key.k == "c" and str(k.a[1]) > str(key.a[1]):
                pos = i
                break
        old = [E.read(st, loc + ("[%d]" % i,)) for i in range(pos, len(ks))]
        for i, v in enumerate(old):
            E.setcell(st, loc + ("[%d]" % (pos + 1 + i),), v)
        el = loc + ("[%d]" % pos,)
        E.setcell(st, el, mk("uninit", el))
        E.setcell(st, el + (".first",), key)
        self.setsize(E, st, loc, len(ks) + 1)
        return el

    def iter(self, E, st, loc, i):
        t = E.newtemp()
        E.setcell(st, t, mk("iter", loc, c(i)))
        return [(st, addr(t))]

    def c_map(self, E, st, e, obj, args, n, q):
        if obj is None or obj.k != "addr" or not MAP.match(q) or "::iterator" in q:
            return None
        q0 = q[:q.rindex("::")] if "::" in q else q
        if not q0.rstrip().endswith(">") and not e["k"] == "Ctor":
            return None
        loc = obj.a[0]
        multi = q.startswith("std::multimap")
        if e["k"] == "Ctor":
            st = st.copy()
            if not args:
                E.setcell(st, loc, mk("op", "empty", "std::map"))
                self.setsize(E, st, loc, 0)
            else:
                src = E.loc_of(args[0])
                E.setcell(st, loc, E.read(st, src))
            return [(st, None)]
        ks = self.entries(E, st, loc)
        if ks is None:
            return None
        if n in ("begin", "end", "cbegin", "cend"):
            return self.iter(E, st, loc, 0 if "begin" in n else len(ks))
        if n in ("rbegin", "rend", "crbegin", "crend"):
            return self.iter(E, st, loc + ("#r",), 0 if "begin" in n else len(ks))
        if n == "size":
            return [(st, c(len(ks)))]
        if n == "empty":
            return [(st, c(not ks))]
        if n == "clear":
            st = st.copy()
            E.setcell(st, loc, mk("op", "empty", "std::map"))
            self.setsize(E, st, loc, 0)
            return [(st, None)]
        if n == "swap" or e.get("op") == "=":
            st = st.copy()
            o = E.loc_of(args[0])
            a, b = E.read(st, loc), E.read(st, o)
            E.setcell(st, loc, b)
            if n == "swap":
                E.setcell(st, o, a)
            return [(st, None if n == "swap" else obj)]
        if not args:
            return None
        vs = self.vals(E, st, e, args)
        if n in ("find", "count", "equal_range", "lower_bound", "upper_bound", "operator[]", "at", "erase"):
            k = sval(vs[0])
            if k.k == "iter":
                return None
            idx = [i for i, x in enumerate(ks) if x is k]
            less = [i for i, x in enumerate(ks) if x.k == "c" and k.k == "c" and x.a[1] < k.a[1]]
            lo = len(less)
            hi = lo + len(idx)
            if n == "find":
                return self.iter(E, st, loc, idx[0] if idx else len(ks))
            if n == "count":
                return [(st, c(len(idx)))]
            if n == "lower_bound":
                return self.iter(E, st, loc, lo)
            if n == "upper_bound":
                return self.iter(E, st, loc, hi)
            if n == "equal_range":
                t = E.newtemp()
                E.setcell(st, t + (".first",), mk("iter", loc, c(lo)))
                E.setcell(st, t + (".second",), mk("iter", loc, c(hi)))
                return [(st, addr(t))]
            if n == "at" and not idx:
                E.throw(st.copy(), "std::out_of_range", e)
                return []
            if n == "erase":
                st = st.copy()
                keep = [E.read(st, loc + ("[%d]" % i,)) for i in range(len(ks)) if i not in idx]
                for i, v in enumerate(keep):
                    E.setcell(st, loc + ("[%d]" % i,), v)
                self.setsize(E, st, loc, len(keep))
                return [(st, c(len(idx)))]
            if idx:
                return [(st, addr(loc + ("[%d]" % idx[0], ".second")))]
            st = st.copy()
            el = self.mapins(E, st, loc, k, multi)
            E.setcell(st, el + (".second",), c(0))
            self.newentry(E, st, e, el)
            return [(st, addr(el + (".second",)))]
        if n in ("insert", "emplace"):
            st = st.copy()
            if n == "insert" and len(args) == 1 and args[0].k == "addr":
                key, nv = sval(E.read(st, args[0].a[0] + (".first",))), E.read(st, args[0].a[0] + (".second",))
            elif n == "emplace" and len(args) == 2:
                key, nv = sval(vs[0]), vs[1]
            elif n == "insert" and len(args) == 2 and vs[1].k != "iter" and args[1].k == "addr":
                key, nv = sval(E.read(st, args[1].a[0] + (".first",))), E.read(st, args[1].a[0] + (".second",))
            else:
                return None
            idx = [i for i, x in enumerate(ks) if x is key]
            fresh = multi or not idx
            if fresh:
                el = self.mapins(E, st, loc, key, multi)
                E.setcell(st, el + (".second",), nv)
                i = int(el[-1][1:-1])
            else:
                i = idx[0]
            t = E.newtemp()
            if multi:
                E.setcell(st, t, mk("iter", loc, c(i)))
            else:
                E.setcell(st, t + (".first",), mk("iter", loc, c(i)))
                E.setcell(st, t + (".second",), c(fresh))
            return [(st, addr(t))]
        return None

    def newentry(self, E, st, e, el):
        """a default constructed mapped value"""
        t = uncv(e.get("t", ""))
        if t == "expr_t":
            E.setcell(st, el + (".second", ".etype"), c(-1))
            E.setcell(st, el + (".second", ".value", KIND), c("number"))
            E.setcell(st, el + (".second", ".value", VAL), c(0.0))

    # ---- vectors
    def c_vector(self, E, st, e, obj, args, n, q):
        if obj is None or obj.k != "addr" or not q.startswith("std::vector<"):
            return None
        loc = obj.a[0]
        if e["k"] == "Ctor":
            st = st.copy()
            pt = e.get("pt", [])
            real = [a for a, t in zip(args, pt) if "allocator" not in t.split("<")[0]]
            if not real:
                E.setcell(st, loc, mk("op", "empty", "std::vector"))
                self.setsize(E, st, loc, 0)
                return [(st, None)]
            if e.get("copy") or e.get("move"):
                src = E.loc_of(args[0])
                self.used(E, st, src, e)
                k = self.sizeof(E, st, src)
                v = E.read(st, src)
                E.setcell(st, loc, v)
                if k is not None:
                    self.setsize(E, st, loc, k)
                if e.get("move") and k is not None and src[0][0] in ("T",):
                    pass
                return [(st, None)]
            vs = self.vals(E, st, e, args)
            r = self.range(E, st, vs[0], vs[1]) if len(real) == 2 else None
            if r is not None:
                E.setcell(st, loc, mk("op", "vector"))
                for i, x in enumerate(r):
                    E.setcell(st, loc + ("[%d]" % i,), x)
                self.setsize(E, st, loc, len(r))
                return [(st, None)]
            if vs[0].k == "c" and isinstance(vs[0].a[1], int):
                E.setcell(st, loc, mk("op", "vector"))
                k = vs[0].a[1]
                if k > HUGE or k < 0:
                    E.throw(st, "std::bad_alloc", e)
                    return []
                if k <= 64:
                    for i in range(k):
                        E.setcell(st, loc + ("[%d]" % i,), vs[1] if len(real) == 2 else c(0))
                self.setsize(E, st, loc, k)
                return [(st, None)]
            # a size the analysis does not know
            E.setcell(st, loc, mk("op", "vector"))
            return [(st, None)]
        k = self.sizeof(E, st, loc)
        if n in ("resize", "reserve", "assign") and args:
            v = self.vals(E, st, e, args)[0]
            if v.k == "c" and isinstance(v.a[1], int) and (v.a[1] > HUGE or v.a[1] < 0):
                E.throw(st.copy(), "std::bad_alloc", e)
                return []
        if n in ("rbegin", "crbegin", "rend", "crend") and k is not None:
            return self.iter(E, st, loc + ("#r",), 0 if "begin" in n else k)
        if (n in ("operator[]", "at")) and k is not None:
            v = self.vals(E, st, e, args)[0]
            if v.k == "c":
                if not 0 <= v.a[1] < k:
                    if n == "at":
                        E.throw(st.copy(), "std::out_of_range", e)
                        return []
                    self.flag(E, "no container is indexed outside its bounds", e, "element %s of a container of %d is accessed" % (v.a[1], k))
                return [(st, addr(loc + ("[%d]" % v.a[1],)))]
        if n in ("front", "back") and k == 0:
            self.flag(E, "no container is indexed outside its bounds", e, "%s() of an empty container" % n)
            return [(st, addr(loc + ("[0]",)))]
        if n == "swap" and k is not None:
            return self.swapped(E, st, loc, E.loc_of(args[0]))
        if e.get("op") == "=" and args and args[0].k == "addr":
            st = st.copy()
            src = args[0].a[0]
            k2 = self.sizeof(E, st, src)
            E.setcell(st, loc, E.read(st, src))
            if k2 is not None:
                self.setsize(E, st, loc, k2)
            return [(st, obj)]
        if n == "insert" and len(args) >= 2 and k is not None:
            vs = self.vals(E, st, e, args)
            if vs[0].k == "iter" and vs[0].a[1].k == "c":
                p = vs[0].a[1].a[1]
                xs = self.range(E, st, vs[1], vs[2]) if len(args) == 3 else [vs[1]]
                if len(args) == 3 and xs is None and vs[1].k == "c":
                    xs = [vs[2]] * vs[1].a[1]
                if xs is not None:
                    st = st.copy()
                    old = [E.read(st, loc + ("[%d]" % i,)) for i in range(k)]
                    new = old[:p] + list(xs) + old[p:]
                    for i, x in enumerate(new):
                        E.setcell(st, loc + ("[%d]" % i,), x)
                    self.setsize(E, st, loc, len(new))
                    return self.iter(E, st, loc, p)
        if n == "assign" and len(args) == 2 and k is not None:
            vs = self.vals(E, st, e, args)
            xs = self.range(E, st, vs[0], vs[1])
            if xs is not None:
                st = st.copy()
                for i, x in enumerate(xs):
                    E.setcell(st, loc + ("[%d]" % i,), x)
                self.setsize(E, st, loc, len(xs))
                return [(st, None)]
        if n in ("push_back", "emplace_back") and k is not None and len(args) == 1 and args[0].k == "addr":
            st = st.copy()
            v = E.read(st, args[0].a[0])
            E.setcell(st, loc + ("[%d]" % k,), v)
            self.setsize(E, st, loc, k + 1)
            return [(st, None)]
        if n == "erase" and args and k is not None:
            vs = self.vals(E, st, e, args)
            if vs[0].k == "iter" and vs[0].a[1].k == "c" and (len(vs) == 1 or vs[1].a[1].k == "c"):
                a = vs[0].a[1].a[1]
                b = vs[1].a[1].a[1] if len(vs) == 2 else a + 1
                st = st.copy()
                old = [E.read(st, loc + ("[%d]" % i,)) for i in range(k)]
                new = old[:a] + old[b:]
                for i, x in enumerate(new):
                    E.setcell(st, loc + ("[%d]" % i,), x)
                self.setsize(E, st, loc, len(new))
                return self.iter(E, st, loc, a)
        if k is None and n in ("size",):
            return None
        return self.vec(E, st, e, obj, args)

    def swapped(self, E, st, a, b):
        st = st.copy()
        ka, kb = self.sizeof(E, st, a), self.sizeof(E, st, b)
        va, vb = E.read(st, a), E.read(st, b)
        E.setcell(st, a, vb)
        E.setcell(st, b, va)
        if kb is not None:
            self.setsize(E, st, a, kb)
        if ka is not None:
            self.setsize(E, st, b, ka)
        return [(st, None)]

    def range(self, E, st, x, y):
        """the elements between two iterators (or pointers)"""
        r = rng(x, y)
        if not r:
            if x is not None and y is not None and x.k == "addr" and y.k == "addr" and x.a[0][:-1] == y.a[0][:-1] and is_idx(x.a[0][-1]):
                r = x.a[0][:-1], int(x.a[0][-1][1:-1]), int(y.a[0][-1][1:-1])
            else:
                return None
        loc, a, b = r
        return [E.read(st, l) for l in self.cells(E, st, loc, a, b)]

    def cells(self, E, st, loc, a, b):
        if loc[-1] == "#r":
            n = self.sizeof(E, st, loc[:-1])
            return [loc[:-1] + ("[%d]" % (n - 1 - i),) for i in range(a, b)]
        return [loc + ("[%d]" % i,) for i in range(a, b)]

    # ---- strings
    def c_string(self, E, st, e, obj, args, n, q):
        if n in ("strcmp", "strcasecmp", "strncmp", "strncasecmp") and obj is None and len(args) >= 2:
            a, b = (sval(self.cstr(E, st, x)) for x in args[:2])
            if a.k == "c" and b.k == "c" and isinstance(a.a[1], str) and isinstance(b.a[1], str):
                x, y = a.a[1], b.a[1]
                if "case" in n:
                    x, y = x.lower(), y.lower()
                if n.startswith("strn"):
                    if args[2].k != "c":
                        return None
                    x, y = x[:args[2].a[1]], y[:args[2].a[1]]
                return [(st, c((x > y) - (x < y)))]
            return None
        if n == "strlen" and args:
            a = sval(self.cstr(E, st, args[0]))
            if a.k == "c" and isinstance(a.a[1], str):
                return [(st, c(len(a.a[1])))]
            return [(st, op("strlen", a))]
        if obj is None:
            if e.get("op") in ("==", "!=") and "basic_string" in " ".join(e.get("pt", [])) and len(args) == 2 and "iterator" not in e["pt"][0]:
                a, b = (sval(self.cstr(E, st, x)) for x in self.vals(E, st, e, args))
                if a.k == "c" and b.k == "c":
                    return [(st, c((a is b) == (e["op"] == "==")))]
                return [(st, op(e["op"], a, b))]
            if e.get("op") == "+" and "basic_string" in " ".join(e.get("pt", [])) and len(args) == 2 and "iterator" not in e["pt"][0]:
                a, b = (sval(self.cstr(E, st, x)) for x in self.vals(E, st, e, args))
                return self.ret(E, st, e, op("cat", a, b))
            return None
        if obj.k != "addr" or not q.startswith(STR):
            return None
        loc = obj.a[0]
        if e["k"] == "Ctor":
            st = st.copy()
            pt = e.get("pt", [])
            vs = [v for v, t in zip(self.vals(E, st, e, args), pt) if "allocator" not in t]
            if args and args[0] is NULL and "char *" in pt[0]:
                self.flag(E, "no NULL pointer is followed", e, "a string is made of a NULL pointer")
            if not vs:
                E.setcell(st, loc, c(""))
            elif len(vs) == 1:
                E.setcell(st, loc, sval(self.cstr(E, st, vs[0])))
            else:
                a, b = sval(self.cstr(E, st, vs[0])), vs[1]
                if a.k == "c" and isinstance(a.a[1], str) and b.k == "c" and isinstance(b.a[1], int) and "char *" in pt[0]:
                    if b.a[1] > len(a.a[1]):
                        self.flag(E, "no container is indexed outside its bounds", e, "%d characters of a text of %d are taken" % (b.a[1], len(a.a[1])))
                    E.setcell(st, loc, c(a.a[1][:b.a[1]]))
                elif b is op("size", a):
                    E.setcell(st, loc, a)
                else:
                    E.setcell(st, loc, op("text", a, b))
            return [(st, None)]
        v = sval(E.read(st, loc))
        if n in ("size", "length"):
            if v.k == "c" and isinstance(v.a[1], str):
                return [(st, c(len(v.a[1])))]
            return [(st, c(7) if v.k == "op" and v.a[0] in ("msg",) else op("size", v))]
        if n == "empty":
            if v.k == "c":
                return [(st, c(v.a[1] == ""))]
            return [(st, c(0))]
        if n in ("c_str", "data"):
            return [(st, self.chars(v))]
        if e.get("op") in ("==", "!="):
            a = sval(self.cstr(E, st, self.vals(E, st, e, args)[0]))
            if a.k == "c" and v.k == "c":
                return [(st, c((a is v) == (e["op"] == "==")))]
        if n == "compare" and len(args) == 1:
            a = sval(self.cstr(E, st, self.vals(E, st, e, args)[0]))
            if a.k == "c" and v.k == "c":
                return [(st, c((v.a[1] > a.a[1]) - (v.a[1] < a.a[1])))]
        if e.get("op") == "=" or n == "assign" and len(args) == 1:
            st = st.copy()
            E.write(st, loc, sval(self.cstr(E, st, self.vals(E, st, e, args)[0])), e)
            return [(st, obj)]
        if n == "clear":
            st = st.copy()
            E.write(st, loc, c(""), e)
            return [(st, None)]
        if n == "swap":
            st = st.copy()
            o = E.loc_of(args[0])
            w = sval(E.read(st, o))
            E.write(st, loc, w, e)
            E.write(st, o, v, e)
            return [(st, None)]
        return None

    def chars(self, v):
        """the pointer c_str() gives"""
        return v if v.k == "c" and v.a[1] else addr((("D", v),))

    def cstr(self, E, st, v):
        """the text a char pointer points to"""
        if v is None:
            return top()
        if v.k == "addr":
            l = v.a[0]
            if l[0][0] == "D":
                return l[0][1]
            if l[0][0] == "S":
                return c(l[0][1][int(l[1][1:-1]):]) if len(l) > 1 and l[1][1:-1].isdigit() else c(l[0][1])
            if l[-1] == "[0]" or l[0][0] == "L" and len(l) == 1:
                w = E.rawread(st, (l[:-1] if l[-1] == "[0]" else l) + (".#text",))
                if w.k != "uninit" and not (w.k == "op" and w.a[0] == "proj") and w.k != "init":
                    return w
            return op("bytes", E.rawread(st, l))
        return v

    # ---- algorithms and iterators
    def c_algo(self, E, st, e, obj, args, n, q):
        if obj is not None or not q.startswith(("std::", "boost::")):
            return None
        if n == "swap" and len(args) == 2 and args[0].k == "addr" and args[1].k == "addr":
            return self.swapped(E, st, args[0].a[0], args[1].a[0])
        if n in ("copy", "reverse", "reverse_copy", "for_each", "fill"):
            vs = self.vals(E, st, e, args)
            xs = self.range(E, st, vs[0], vs[1]) if len(vs) > 1 else None
            if xs is None:
                return None
            st = st.copy()
            if n == "reverse":
                ls = self.cells(E, st, *rng(vs[0], vs[1]))
                for l, x in zip(ls, reversed(xs)):
                    E.setcell(st, l, x)
                return [(st, None)]
            if n == "fill":
                for l in self.cells(E, st, *rng(vs[0], vs[1])):
                    E.setcell(st, l, vs[2])
                return [(st, None)]
            if n in ("copy", "reverse_copy"):
                if n == "reverse_copy":
                    xs = xs[::-1]
                d = vs[2]
                if d.k == "iter" and d.a[1].k == "c":
                    j = d.a[1].a[1]
                    base = d.a[0][:-1] if d.a[0][-1] == "#r" else d.a[0]
                    room = self.sizeof(E, st, base)
                    if room is not None and j + len(xs) > room:
                        self.flag(E, "no container is indexed outside its bounds", e, "%d elements are copied to where %d fit" % (len(xs), room - j))
                    for l, x in zip(self.cells(E, st, d.a[0], j, j + len(xs)), xs):
                        E.setcell(st, l, x)
                    return self.iter(E, st, d.a[0], j + len(xs))
                if d.k == "op" and d.a[0] == "back_inserter":
                    loc = d.a[1].a[0]
                    k = self.sizeof(E, st, loc)
                    if k is not None:
                        for i, x in enumerate(xs):
                            E.setcell(st, loc + ("[%d]" % (k + i),), x)
                        self.setsize(E, st, loc, k + len(xs))
                        t = E.newtemp()
                        E.setcell(st, t, d)
                        return [(st, addr(t))]
                if "ostream_iterator" in (e.get("pt") or ["", "", ""])[2]:
                    t = E.newtemp()
                    E.setcell(st, t, d)
                    return [(st, addr(t))]
            return None
        if n == "back_inserter":
            t = E.newtemp()
            E.setcell(st, t, mk("op", "back_inserter", addr(E.loc_of(args[0]))))
            return [(st, addr(t))]
        if n == "make_pair" and len(args) == 2:
            st = st.copy()
            t = E.newtemp()
            vs = self.vals(E, st, e, args)
            for m, v, p in ((".first", vs[0], e["pt"][0]), (".second", vs[1], e["pt"][1])):
                E.setcell(st, t + (m,), sval(self.cstr(E, st, v)) if "char *" in p else v)
            return [(st, addr(t))]
        if n in ("max",) and not args and "numeric_limits<unsigned int>" in q:
            return [(st, c(4294967295))]
        return None

    def c_iter(self, E, st, e, obj, args, n, q):
        o = e.get("op")
        if obj is not None and obj.k == "addr" and o in ("*", "->") and not args:
            v = E.rawread(st, obj.a[0])
            if v.k == "iter" and v.a[1].k == "c":
                base = v.a[0][:-1] if v.a[0][-1] == "#r" else v.a[0]
                k = self.sizeof(E, st, base)
                self.used(E, st, base, e)
                i = v.a[1].a[1]
                if k is not None and not 0 <= i < k:
                    self.flag(E, "no container is indexed outside its bounds", e, "an iterator at position %d of a container of %d is followed" % (i, k))
                return [(st, addr(self.cells(E, st, v.a[0], i, i + 1)[0]))]
            if v.k == "op" and v.a[0] == "back_inserter" and o == "*":
                return [(st, obj)]
        if obj is not None and obj.k == "addr" and o == "=" and "back_insert_iterator" in q and args:
            v = E.rawread(st, obj.a[0])
            if v.k == "op" and v.a[0] == "back_inserter" and args[0].k == "addr":
                st = st.copy()
                loc = v.a[1].a[0]
                k = self.sizeof(E, st, loc)
                if k is not None:
                    E.setcell(st, loc + ("[%d]" % k,), self.vals(E, st, e, args)[0])
                    self.setsize(E, st, loc, k + 1)
                    return [(st, obj)]
        if q.startswith("std::pair<") and e["k"] == "Ctor" and len(args) == 1 and args[0].k == "addr":
            st = st.copy()
            for m in (".first", ".second"):
                E.setcell(st, obj.a[0] + (m,), E.read(st, args[0].a[0] + (m,)))
            return [(st, None)]
        if obj is not None and e.get("op") == "=" and args and args[0].k == "addr" and "iterator" in q:
            st = st.copy()
            E.setcell(st, obj.a[0], E.rawread(st, args[0].a[0]))
            return [(st, obj)]
        return None

    # ---- the rest
    def c_misc(self, E, st, e, obj, args, n, q):
        if n == "isfinite" or n in ("__builtin_isfinite", "finite"):
            v = self.vals(E, st, e, args)[0]
            return [(st, op("isfinite", v))]
        if n == "isnan" or n == "__builtin_isnan":
            v = self.vals(E, st, e, args)[0]
            return [(st, op("isnan", v))]
        if n in ("vsnprintf", "snprintf"):
            st = st.copy()
            d = args[0]
            l = d.a[0] if d.k == "addr" else None
            if l and not (isinstance(l[-1], str) and is_idx(l[-1])):
                l = l + ("[0]",)
            if l and args[1].k == "c":
                k = self.sizeof(E, st, l[:-1])
                off = int(l[-1][1:-1])
                if k is not None and off + args[1].a[1] > k:
                    self.flag(E, "no container is indexed outside its bounds", e, "%d characters may be written to a buffer of %d" % (args[1].a[1], k - off))
                fmt = args[2]
                E.setcell(st, l[:-1] + (".#text",), mk("op", "msg", fmt if fmt.k == "c" else op("fmt"), *self.msgargs(E, st, n, args)))
            return [(st, top())]
        if n in ("glps_get_lineno",):
            b = E.rawread(st, (("G", "lineno"),))
            return [(st, c(b.a[1] + self.line - 1) if b.k == "c" else top())]
        if n == "glps_set_lineno":
            st = st.copy()
            E.setcell(st, (("G", "lineno"),), args[0])
            return [(st, None)]
        r = self.scan(E, st, e, obj, args, n, q)
        if r is not None:
            return r
        if q.startswith("boost::filesystem::"):
            return self.fs(E, st, e, obj, args, n, q)
        stream = "ostringstream" in q or "ostream" in q or "stringstream" in q
        if stream and obj is not None:
            if n == "str" and not args:
                v = E.rawread(st, obj.a[0] + (".#s",))
                return self.ret(E, st, e, v if v.k == "op" and v.a[0] == "msg" else c(""))
            if e["k"] == "Ctor":
                st = st.copy()
                E.setcell(st, obj.a[0], mk("op", "stream"))
                return [(st, None)]
        if n == "operator<<" and (obj is not None and stream or "ostream" in (e.get("pt") or [""])[0]):
            st = st.copy()
            dst = obj if obj is not None else args[0]
            pt = e.get("pt", [])
            v = args[-1]
            v = E.argval(st, v, pt[-1]) if v is not None else top()
            if "basic_string" in pt[-1] or "char *" in pt[-1]:
                v = sval(self.cstr(E, st, v))
            if dst.k == "addr" and E.rawread(st, dst.a[0]) is mk("op", "stream"):
                cur = E.rawread(st, dst.a[0] + (".#s",))
                xs = cur.a[1:] if cur.k == "op" and cur.a[0] == "msg" else ()
                if not (v.k == "addr" or v.k == "fnptr"):
                    E.setcell(st, dst.a[0] + (".#s",), mk("op", "msg", *xs, v))
            elif dst.k == "addr" and not E.probing:
                self.printed(E, st, dst, v, e)
            return [(st, dst)]
        if n == "what":
            v = E.rawread(st, obj.a[0] + (".#what",)) if obj is not None and obj.k == "addr" else top()
            return [(st, v if v.k in ("op", "c") and not (v.k == "op" and v.a[0] == "proj") else mk("op", "msg", c("what")))]
        if e["k"] == "Ctor" and re.match(r"std::(runtime_error|logic_error|exception|out_of_range|invalid_argument|bad_alloc|length_error|domain_error)::", q):
            st = st.copy()
            if args and (e.get("copy") or e.get("move")):
                E.setcell(st, obj.a[0], E.read(st, E.loc_of(args[0])))
            elif args:
                E.setcell(st, obj.a[0] + (".#what",), sval(self.cstr(E, st, self.vals(E, st, e, args)[0])))
            return [(st, None)]
        return None

    def printed(self, E, st, dst, v, e):
        pass

    # ---- the generated scanner and parser, seen from outside
    def scan(self, E, st, e, obj, args, n, q):
        if n == "glps_lex_init_extra" or n == "glps_lex_init":
            bad = st.copy()
            ok = st.copy()
            loc = (("H", "scanner:scanner:0", next(E.tid)),)
            ok.dyn[loc] = "scanner"
            self.on_new(E, ok, loc, e)
            E.setcell(ok, loc + (".buf",), NULL)
            E.setcell(ok, E.loc_of(args[-1]), addr(loc))
            return [(ok, c(0)), (bad, c(1))]
        if n == "glps_lex_destroy":
            st = st.copy()
            self.release(E, st, args[0], e)
            return [(st, c(0))]
        if n in ("glps__scan_bytes", "glps__scan_string", "glps__create_buffer"):
            st = st.copy()
            l = self.hloc(args[-1])
            self.used(E, st, l, e) if l else None
            src = args[0] if n.endswith("create_buffer") else sval(self.cstr(E, st, args[0]))
            size = args[1] if n.endswith("scan_bytes") else c(-1)
            ok = st.copy()
            b = (("P", "buffer"),)
            E.setcell(ok, b + (".src",), mk("op", "input", src, size))
            if l and not n.endswith("create_buffer"):
                E.setcell(ok, l + (".buf",), addr(b))
            return [(ok, addr(b)), (st, NULL)]
        if n == "glps__switch_to_buffer":
            st = st.copy()
            l = self.hloc(args[-1])
            if l:
                self.used(E, st, l, e)
                E.setcell(st, l + (".buf",), args[0])
            return [(st, None)]
        if n == "glps_restart" or n == "glps_set_in":
            st = st.copy()
            l = self.hloc(args[-1])
            if l:
                E.setcell(st, l + (".buf",), addr((("P", "buffer"),)))
                E.setcell(st, (("P", "buffer"), ".src"), mk("op", "input", args[0], c(-1)))
            return [(st, None)]
        if n == "glps_parse":
            return self.M.run(E, st.copy(), e, args)
        if n == "fopen":
            ok, bad = st.copy(), st.copy()
            loc = (("H", "file:FILE:0", next(E.tid)),)
            ok.dyn[loc] = "FILE"
            self.on_new(E, ok, loc, e)
            E.setcell(ok, loc + (".name",), sval(self.cstr(E, ok, args[0])))
            return [(ok, addr(loc)), (bad, NULL)]
        if n == "fclose":
            st = st.copy()
            if args[0] is NULL:
                self.flag(E, "no NULL pointer is followed", e, "fclose(NULL)")
            elif self.hloc(args[0]) is None:
                self.flag(E, "only a file opened here is closed", e, "%s is closed" % show(args[0], 40))
            self.release(E, st, args[0], e)
            return [(st, c(0))]
        return None

    def msgargs(self, E, st, n, args):
        return []

    def fs(self, E, st, e, obj, args, n, q):
        st = st.copy()
        vs = [sval(self.cstr(E, st, v)) if v is not None else top() for v in self.vals(E, st, e, args)]
        if e["k"] == "Ctor" and obj is not None:
            E.setcell(st, obj.a[0], vs[0] if vs else c(""))
            return [(st, None)]
        if e.get("op") == "=" and obj is not None:
            E.setcell(st, obj.a[0], vs[0])
            return [(st, obj)]
        if n == "c_str" and obj is not None:
            return [(st, self.chars(sval(E.read(st, obj.a[0]))))]
        if n in ("native", "string") and obj is not None:
            return [(st, obj if e.get("gl") else E.read(st, obj.a[0]))] if e.get("gl") or not E.isrec(e.get("t", "")) else self.ret(E, st, e, E.read(st, obj.a[0]))
        if n == "parent_path" and obj is not None:
            return self.ret(E, st, e, op("parent", E.read(st, obj.a[0])))
        if n == "exists":
            return [(st, op("exists", *vs))]
        if n in ("canonical", "absolute", "current_path"):
            E.throw(st.copy(), "boost::filesystem::filesystem_error", e)
            xs = [v for v in vs if v.k != "top"]
            return self.ret(E, st, e, op(n, *xs))
        if n in ("operator<<",):
            return [(st, args[0])]
        if n == "operator/":
            return self.ret(E, st, e, op("/", *vs))
        return None

    # ---- Config, as the values it was given
    def c_config(self, E, st, e, obj, args, n, q):
        if q == "boost::apply_visitor" and len(args) == 2:
            cls = uncv(e["pt"][0])
            loc = E.loc_of(args[1])
            k = E.rawread(st, loc + (KIND,))
            for f in self.P.funcs.values():
                if f.get("cls") == cls and f["q"].endswith("::operator()") and "body" in f and len(f["params"]) == 1 \
                        and k.k == "c" and KINDS.get(uncv(f["params"][0]["t"])) == k.a[1]:
                    t = f["params"][0]["t"]
                    a = addr(loc + (VAL,)) if t.endswith("&") or E.isrec(t) else E.read(st, loc + (VAL,))
                    return E.call_fn(f, st, args[0], [a], e)
            return None
        if q.startswith("GLPSParser::parse") and self.nested and obj is not None:
            E.throw(st.copy(), "std::runtime_error", e)
            st = st.copy()
            loc = (("H", "config:Config:0", next(E.tid)),)
            st.dyn[loc] = "Config"
            self.on_new(E, st, loc, e)
            E.setcell(st, loc + (".#from",), sval(self.cstr(E, st, args[0])))
            self.setsize(E, st, loc + (".#m",), 0)
            return [(st, addr(loc))]
        if not q.startswith("Config::") or obj is None or obj.k != "addr":
            return None
        loc = obj.a[0]
        m = loc + (".#m",)
        st = st.copy()
        if e["k"] == "Ctor":
            if args and args[0].k == "addr":
                E.setcell(st, loc, E.read(st, args[0].a[0]))
            else:
                E.setcell(st, loc, mk("op", "config"))
                self.setsize(E, st, m, 0)
            return [(st, None)]
        if e.get("op") == "=" and args:
            E.setcell(st, loc, E.read(st, args[0].a[0]))
            return [(st, obj)]
        if n in ("reserve", "clear"):
            if n == "clear":
                self.setsize(E, st, m, 0)
            return [(st, None)]
        if n == "new_scope":
            t = E.newtemp()
            E.setcell(st, t, mk("op", "config"))
            E.setcell(st, t + (".#parent",), E.read(st, m))
            self.setsize(E, st, t + (".#m",), 0)
            return [(st, addr(t))]
        if n == "swap" and len(args) == 1:
            o = args[0].a[0]
            a, b = E.read(st, loc), E.read(st, o)
            E.setcell(st, loc, b)
            E.setcell(st, o, a)
            return [(st, None)]
        if n in ("set", "swap", "setAny", "swapAny") and len(args) == 2:
            key = sval(self.cstr(E, st, E.argval(st, args[0], e["pt"][0])))
            v = E.argval(st, args[1], e["pt"][1])
            pt = uncv(e["pt"][1])
            ks = self.entries(E, st, m) or []
            idx = [i for i, x in enumerate(ks) if x is key]
            el = m + ("[%d]" % idx[0],) if idx else self.mapins(E, st, m, key, False)
            if VARIANT.match(pt):
                src = E.loc_of(args[1])
                k, v = E.rawread(st, src + (KIND,)), E.read(st, src + (VAL,))
            else:
                k = c(KINDS.get(pt, pt))
            E.setcell(st, el + (".second",), mk("op", "variant"))
            E.setcell(st, el + (".second", KIND), k)
            n0 = self.sizeof(E, st, args[1].a[0]) if args[1].k == "addr" else None
            E.setcell(st, el + (".second", VAL), v)
            if n0 is not None and "vector" in pt:
                self.setsize(E, st, el + (".second", VAL), n0)
            if n == "swap" and args[1].k == "addr":
                E.setcell(st, args[1].a[0], c(""))
            return [(st, None)]
        return None

    nested = False


def splitargs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


# ------------------------------------------------------------------ the grammar
class Grammar:
    def __init__(self, P, path):
        self.ids = {}
        t = ET.parse(path).getroot()
        g = t.find("grammar")
        self.rules = {}
        for r in g.find("rules"):
            rhs = [s.text for s in r.find("rhs") if s.tag == "symbol"]
            self.rules[int(r.get("number"))] = (r.find("lhs").text, rhs)
        self.symnum = {}
        for grp in ("terminals", "nonterminals"):
            for s in g.find(grp):
                self.symnum[s.get("name")] = int(s.get("symbol-number"))
        self.tok = {s.get("name"): int(s.get("token-number")) for s in g.find("terminals")}
        self.states = {}
        for s in t.find("automaton"):
            sh, go, rd = {}, {}, {}
            a = s.find("actions")
            for x in a.find("transitions"):
                (sh if x.get("type") == "shift" else go)[x.get("symbol")] = int(x.get("state"))
            for x in a.find("reductions"):
                if x.get("enabled") != "false":
                    rd[x.get("symbol")] = x.get("rule")
            errs = [x.get("symbol") for x in a.find("errors")] if a.find("errors") is not None else []
            self.states[int(s.get("number"))] = (sh, go, rd, errs)
        self.fn = [f for f in P.funcs.values() if f["q"] == "glps_parse" and "body" in f][0]
        self.dfn = [f for f in P.funcs.values() if f["q"] == "yydestruct" and "body" in f][0]
        self.lfn = [f for f in P.funcs.values() if f["q"] == "glps_lex" and "body" in f][0]
        self.acts = {k - 1: v for k, v in self.cases(self.fn, "yyn").items() if isinstance(k, int)}
        self.dtors = self.cases(self.dfn, "yykind")

    @staticmethod
    def find(n, k):
        if isinstance(n, dict):
            if n.get("k") == k:
                yield n
            for v in n.values():
                yield from Grammar.find(v, k)
        elif isinstance(n, list):
            for v in n:
                yield from Grammar.find(v, k)

    def cases(self, fn, on):
        out = {}
        for sw in self.find(fn["body"], "Switch"):
            if not any(r.get("n") == on for r in self.find(sw["c"], "Ref")):
                continue
            items = sw["body"]["c"]
            for i, x in enumerate(items):
                labels = []
                y = x
                while y is not None and y.get("k") in ("Case", "Default"):
                    labels.append(y.get("cv") if y["k"] == "Case" else "default")
                    y = y["s"]
                if labels:
                    seq = [y]
                    for z in items[i + 1:]:
                        if z.get("k") in ("Case", "Default"):
                            break
                        seq.append(z)
                        if z.get("k") == "Break":
                            break
                    for l in labels:
                        out.setdefault(l, seq)
        return out

    def refid(self, fn, name):
        t = self.ids.get(id(fn))
        if t is None:
            t = self.ids[id(fn)] = {}
            for r in self.find(fn["body"], "Ref"):
                if r.get("dk") in ("local", "param"):
                    t.setdefault(r.get("n"), r["id"])
        return t.get(name)


class Machine:
    """the LALR automaton with its actions, over abstract semantic values"""
    TAG = {"KEYWORD": ".string", "STR": ".string", "NUM": ".real"}

    def __init__(self, P, G, E):
        self.P, self.G, self.E = P, G, E
        self.reduced = set()

    def frame(self, fn):
        fr = Frame(next(self.E.fid), fn, None, None)
        self.E.fr = fr
        self.E.stack = [fn]
        return fr

    def action(self, st, rule, vals):
        """-> [(state, outcome, value)]"""
        E, G = self.E, self.G
        self.reduced.add(rule)
        fr = self.frame(G.fn)
        st = st.copy()
        n = len(vals)
        base = (("P", "yyvs"),)
        st.mem.pop(base[0], None)
        for i, v in enumerate(vals):
            E.setcell(st, base + ("[%d]" % (20 - n + 1 + i),), v if v is not None else mk("uninit", base + ("x",)))
        L = lambda name: (("L", fr.id, G.refid(G.fn, name), name),)
        E.setcell(st, L("yyvsp"), addr(base + ("[20]",)))
        yv = L("yyval")
        if n and vals[0] is not None:
            E.setcell(st, yv, vals[0])
        parg = L("parg")
        E.setcell(st, parg, self.parg)
        out = []
        body = G.acts.get(rule)
        if body is None:
            return [(st, "n", E.read(st, yv))]
        saved, E.exc = E.exc, []
        d = len(st.cleanup)
        for kind, s, v in E.seq(body, st):
            for s2 in E.pop(s, d, G.fn):
                w = E.read(s2, yv)
                if kind in ("n", "b"):
                    out.append((s2, "n", w))
                elif kind == "goto":
                    out.append((s2, "error" if "err" in v else v, w))
                else:
                    out.append((s2, kind, w))
        if E.exc:
            x = E.exc[0]
            E.cl.flag(E, "no exception passes through the C parser", x.node, "an exception (%s) leaves the action of '%s: %s'" % (x.ty, G.rules[rule][0], " ".join(G.rules[rule][1])))
        E.exc = saved
        return out

    def destruct(self, st, sym, val):
        E, G = self.E, self.G
        body = G.dtors.get(G.symnum[sym])
        if body is None or val is None:
            return [st]
        fr = self.frame(G.dfn)
        st = st.copy()
        slot = (("P", "yyv"), "[0]")
        st.mem.pop(slot[0], None)
        E.setcell(st, slot, val)
        E.setcell(st, (("L", fr.id, G.refid(G.dfn, "yyvaluep"), "yyvaluep"),), addr(slot))
        saved, E.exc = E.exc, []
        out = [s2 for _, s, _ in E.seq(body, st) for s2 in E.pop(s, 0, G.dfn)]
        E.exc = saved
        return out

    def unwind(self, st, stack):
        sts = [st]
        for _, sym, val in reversed(stack[1:]):
            sts = [t for s in sts for t in self.destruct(s, sym, val)]
        return sts

    def bad(self, st):
        """the scanner reports an error and ends the text"""
        E = self.E
        fn = [f for f in self.P.funcs.values() if f["q"] == "glps_error" and "body" in f][0]
        self.frame(self.G.lfn)
        return [s for s, _ in E.call_fn(fn, st.copy(), None, [self.scanner, self.ctx, c("a character")])]

    def token(self, st, tok):
        kind, x = tok
        if kind in ("KEYWORD", "STR"):
            E = self.E
            loc = (("H", "token:string_t:%s" % x, next(E.tid)),)
            st = st.copy()
            st.dyn[loc] = "string_t"
            E.setcell(st, loc + (".str",), c(x) if isinstance(x, str) else x)
            E.cl.on_new(E, st, loc, None)
            return st, mk("agg", mk("uninit", (("P", "tok"),)), (((".string",), addr(loc)),))
        if kind == "NUM":
            return st, mk("agg", mk("uninit", (("P", "tok"),)), (((".real",), x),))
        return st, None

    def run(self, E, st, e, args):
        """glps_parse(arg), on the text at hand"""
        saved = E.fr, E.stack, E.exc, E.cl.nested, self.parg
        self.parg = E.read(st, E.loc_of(args[0]))
        self.ctx = project(self.parg, (".ctxt",))
        self.scanner = project(self.parg, (".scanner",))
        E.cl.nested = True
        E.exc = []
        h = getattr(E.cl, "on_parse", None)
        if h:
            h(E, st, e, self)
        try:
            return [(s, c(0 if o == "accept" else 1)) for s, o in self.parse(st, self.toks, self.lines)]
        finally:
            E.fr, E.stack, E.exc, E.cl.nested, self.parg = saved

    parg = None
    toks, lines = (), ()

    def yyerror(self, st):
        E = self.E
        fn = [f for f in self.P.funcs.values() if f["q"] == "yyerror" and "body" in f and f["f"].endswith(".c")]
        if not fn:
            return [st]
        self.frame(self.G.fn)
        t = E.newtemp()
        st = st.copy()
        E.setcell(st, t, self.parg)
        return [s for s, _ in E.call_fn(fn[0], st, None, [addr(t), c("syntax error")])]

    def parse(self, st, toks, lines=None):
        """-> [(state, 'accept' or 'error')]; the tokens are those of one file"""
        E, G = self.E, self.G
        done = []
        work = [(st, [(0, "$", None)], 0, None)]
        toks = list(toks) + [("$end", None)]
        while work:
            st, stack, pos, la = work.pop()
            E.cl.line = (lines[min(max(pos - 1, 0), len(lines) - 1)] if lines else 0)
            sh, go, rd, errs = G.states[stack[-1][0]]
            name = None
            if sh or any(k != "$default" for k in rd):
                if la is None:
                    if toks[pos][0] == "BAD":
                        E.cl.line = lines[min(pos, len(lines) - 1)] if lines else 0
                        work += [(s, stack, pos + 1, ("$end", None)) for s in self.bad(st)]
                        continue
                    st, la = self.token(st, toks[pos])
                    la = (toks[pos][0], la)
                    pos += 1
                    E.cl.line = (lines[min(pos - 1, len(lines) - 1)] if lines else 0)
                name = la[0]
            if name is not None and name in sh:
                if name == "$end":
                    done.append((st, "accept"))
                    continue
                work.append((st, stack + [(sh[name], name, la[1])], pos, None))
                continue
            r = rd.get(name) if name is not None and name in rd else rd.get("$default")
            if r == "accept":
                done.append((st, "accept"))
                continue
            if r is None or name in errs:
                for s in self.yyerror(st):
                    for s2 in self.unwind(s, stack):
                        if la is not None:
                            done += [(s3, "error") for s3 in self.destruct(s2, la[0], la[1])]
                        else:
                            done.append((s2, "error"))
                continue
            r = int(r)
            lhs, rhs = G.rules[r]
            n = len(rhs)
            args = [v for _, _, v in stack[len(stack) - n:]] if n else []
            rest = stack[:len(stack) - n]
            for s, out, val in self.action(st, r, args):
                if out == "n":
                    g = G.states[rest[-1][0]][1][lhs]
                    work.append((s, rest + [(g, lhs, val)], pos, la))
                else:
                    for s2 in self.unwind(s, rest):
                        if la is not None:
                            done += [(s3, "error") for s3 in self.destruct(s2, la[0], la[1])]
                        else:
                            done.append((s2, "error"))
        return done
