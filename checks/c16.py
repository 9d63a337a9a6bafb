"""C16: settings of any length are used safely.

Constructors of every state and element class, and passes through the elements made, are interpreted with vector settings of
chosen lengths (each length from none to more than enough, for each setting and for pairs of them) and unknown contents."""
import json
import os
from glps import *
from glps import NULL
from common import *
from summ import nodes
from c01 import state_class
from c15 import parallel

EL, ST, CONF = ("P", "element"), ("P", "state"), ("P", "conf")
# documented lengths; others are given two entries
USUAL = {"attr": 23, "EnergyLimit": 2, "NormLimit": 2, "SyncFit": 5, "Ez": 6, "Stripper_Para": 3, "Stripper_E0Para": 3,
         "IonChargeStates": 2, "NCharge": 2, "use_range": 2, "elements": 2, "curve": 3,
         "moment": 7, "initial": 49, "transfer": 49, "?": 7}
# texts that select a way to use the settings; unknown ("given") in one variant
TEXTS = {"cavtype": "Generic", "file.elements0.type": "AccGap"}
# settings that count or select entries: their values are chosen
COUNTS = {"ncurve": (2, 0, 1), "cstate": (None, 0, 1, 2, 7)}
PASSES = ((1,), (2,), (1, 3), (3, 1))
RULE = "no container is indexed outside its bounds"
NULLS = "nothing is read through a null pointer"
SHAPE = "a beam state has at least one charge state, and as many of everything"
RULES = (RULE, NULLS, SHAPE)
BOUND = re.compile(r"bounded_array<double, (\d+)")
QUIET = re.compile(r"Machine::LogRecord|std::basic_ostream|operator<<$")
MAT = re.compile(r"boost::numeric::ublas::matrix<double[^>]*(?:>|basic_row_major[^>]*>, boost::numeric::ublas::unbounded_array)")


def text(v):
    """a text put together from known pieces"""
    if v.k == "c":
        x = v.a[1]
        return x if isinstance(x, str) else "%d" % x if float(x).is_integer() else repr(x)
    if v.k == "op" and v.a[0] in ("cat", "msg", "str"):
        xs = [text(sval(x)) for x in v.a[1:]]
        return None if None in xs else "".join(xs)
    return None


class Settings(Glps):
    def __init__(self, P, want, sizes, n=None):
        Glps.__init__(self, P)
        self.want, self.sizes = want, sizes
        self.n = n or {}
        self.usualof = {}
        self.seen = {}
        self.undecided = 0
        self.decided_ = 0

    def vsize(self, loc):
        return self.n.get(loc)

    def inline(self, E, fn):
        return fn["usr"] in self.want

    def on_dtor(self, E, st, loc, ty, node):
        pass

    def used(self, E, st, loc, node):
        pass

    def on_delete(self, E, st, v, node):
        pass

    def on_deref(self, E, st, v, e):
        if v is NULL or v is not None and v.k == "c" and v.a[1] == 0:
            self.flag(E, NULLS, e, "a null pointer is followed")

    # ---- configurations
    def c_config(self, E, st, e, obj, args, n, q):
        if q.startswith("GLPSParser::parse"):
            E.throw(st.copy(), "std::runtime_error", e)
            st = st.copy()
            t = (("P", "fileconf"),)
            E.setcell(st, t, mk("op", "conf", "file."))
            return [(st, addr(t))]
        if not q.startswith("Config::") or obj is None or obj.k != "addr":
            return None
        loc = obj.a[0]
        st = st.copy()
        if e["k"] == "Ctor":
            E.setcell(st, loc, E.rawread(st, args[0].a[0]) if args and args[0].k == "addr" else mk("op", "conf", ""))
            return [(st, None)]
        if e.get("op") == "=" and args:
            E.setcell(st, loc, E.rawread(st, args[0].a[0]))
            return [(st, obj)]
        if n not in ("get", "tryGet", "has", "getAny"):
            return None
        v = E.rawread(st, loc)
        who = v.a[1] if v.k == "op" and v.a[0] == "conf" else ""
        key = sval(self.cstr(E, st, E.argval(st, args[0], e["pt"][0])))
        key = text(key) or "?"
        ty = uncv(e["pt"][1]) if len(e.get("pt", [])) > 1 else uncv(e.get("t", ""))
        name = who + key
        if n == "has":
            return [(st, init((("P", "has:" + name),)))]
        out = []
        if "vector<" in ty:
            k = self.size(name, ty, n == "get" and len(args) == 1)
            src = (("P", "set:" + name),)
            if k is not None:
                self.setsize(E, st, src, k)
                if "Config" in ty:
                    for i in range(k):
                        E.setcell(st, src + ("[%d]" % i,), mk("op", "conf", "%s%d." % (name, i)))
                else:
                    for i in range(k):
                        x = self.contents(key, i)
                        E.setcell(st, src + ("[%d]" % i,), x if x is not None else init(src + ("[%d]" % i,)))
                val = addr(src)
            else:
                val = None
        elif key in COUNTS:
            self.seen.setdefault(key, "count")
            k = self.sizes.get(key, COUNTS[key][0])
            val = c(float(k)) if k is not None and "string" not in ty else None
        else:
            val = init((("P", "set:%s:%s" % (name, "s" if "string" in ty else "d")),))
        if n == "tryGet":
            if val is None:
                return [(st, c(0))]
            if val.k == "addr":
                E.setcell(st, args[1].a[0], E.read(st, val.a[0]))
                self.setsize(E, st, args[1].a[0], k)
                return [(st, c(1))]
            if val.k == "c":
                E.setcell(st, args[1].a[0], val)
                return [(st, c(1))]
            s2 = st.copy()
            E.setcell(s2, args[1].a[0], val)
            return [(s2, c(1)), (st, c(0))]
        if len(args) == 1 and (val is None or val.k == "init"):
            E.throw(st.copy(), "key_error", e)
        if val is None:
            return [] if len(args) == 1 else [(st, args[1])] if args[1].k == "addr" and e.get("gl") else self.ret(E, st, e, E.argval(st, args[1], e["pt"][1]))
        if val.k == "addr":
            return [(st, val)]
        if len(args) == 2 and "string" in ty:
            self.seen.setdefault(name, "text")
            if not self.sizes.get(name):
                val = sval(E.argval(st, args[1], e["pt"][1]))
        elif "string" in ty and name in TEXTS:
            self.seen.setdefault(name, "text")
            if not self.sizes.get(name):
                val = c(TEXTS[name])
        return self.ret(E, st, e, val)

    def size(self, name, ty, need):
        base = name.split(".")[-1]
        self.seen.setdefault(name, "vector")
        if name in self.sizes:
            return self.sizes[name]
        return self.usual(name)

    def usual(self, name):
        base = re.sub(r"\d+$", "", name.split(".")[-1])
        return self.usualof.get(base, USUAL.get(base, 2))

    def contents(self, key, i):
        r = self.sizes.get("=" + key)
        return c(float(r[i])) if r is not None and i < len(r) else None

    def c_map(self, E, st, e, obj, args, n, q):
        # the caches of data files: nothing has been read when the analysis begins
        if obj is not None and obj.k == "addr" and e["k"] != "Ctor" and q.startswith("std::map<") and "shared_ptr<Config>" in q \
                and self.entries(E, st, obj.a[0]) is None:
            st = st.copy()
            E.setcell(st, obj.a[0], mk("op", "empty", "std::map"))
            self.setsize(E, st, obj.a[0], 0)
        return Glps.c_map(self, E, st, e, obj, args, n, q)

    # ---- the rest of the libraries
    def c_misc(self, E, st, e, obj, args, n, q):
        if q.startswith("boost::lexical_cast") or n == "lexical_cast":
            v = self.vals(E, st, e, args)[0]
            t = uncv(e.get("t", ""))
            if v.k == "c" and not isinstance(v.a[1], str):
                x = v.a[1]
                if "string" in t:
                    return self.ret(E, st, e, c(str(int(x)) if float(x).is_integer() else repr(x)))
                if "double" in t:
                    return [(st, c(float(x)))]
                if float(x).is_integer() and (x >= 0 or "unsigned" not in t):
                    return [(st, c(int(x)))]
            E.throw(st.copy(), "boost::bad_lexical_cast", e)
            if "string" in t:
                return self.ret(E, st, e, op("str", v))
            return [(st, op("num", v))]
        b = BOUND.search(q)
        if b and q.startswith("boost::numeric::ublas::vector<") and obj is not None and obj.k == "addr":
            loc = obj.a[0]
            if e["k"] == "Ctor" and 1 <= len(args) <= 2 and "size_type" in e["pt"][0] or e["k"] == "Ctor" and args and re.match(r"(unsigned |std::)", e["pt"][0]):
                v = self.vals(E, st, e, args)[0]
                if v.k == "c":
                    st = st.copy()
                    E.setcell(st, loc, mk("op", "fill"))
                    E.setcell(st, loc + (".#n",), v)
                    if v.a[1] > int(b.group(1)):
                        self.flag(E, RULE, e, "a vector of %d with room for %s" % (v.a[1], b.group(1)))
                    return [(st, None)]
            v = E.rawread(st, loc + (".#n",))
            k = v.a[1] if v.k == "c" else int(b.group(1))
            if n == "size":
                return [(st, c(k))]
            if n in ("begin", "end", "cbegin", "cend"):
                st = st.copy()
                self.setsize(E, st, loc, k)
                return self.place(E, st, e, loc, 0 if "begin" in n else k)
        if q.startswith("boost::numeric::ublas::bounded_array<") and b and obj is not None and obj.k == "addr":
            k = int(b.group(1))
            if n in ("size", "max_size"):
                return [(st, c(k))]
            if n in ("begin", "end", "cbegin", "cend"):
                st = st.copy()
                self.setsize(E, st, obj.a[0], k)
                return self.place(E, st, e, obj.a[0], 0 if "begin" in n else k)
        if re.match(r"boost::numeric::ublas::(identity|zero|scalar)_matrix<", q) and e["k"] == "Ctor" and args and obj is not None and obj.k == "addr":
            vs = [v for v, t in zip(self.vals(E, st, e, args), e["pt"]) if "size_type" in t or re.match(r"(const )?(std::|unsigned)", t)]
            if vs and all(v.k == "c" for v in vs):
                st = st.copy()
                E.setcell(st, obj.a[0], mk("op", "table"))
                E.setcell(st, obj.a[0] + (".#r",), vs[0])
                E.setcell(st, obj.a[0] + (".#c",), vs[-1])
                return [(st, None)]
        if q.startswith("boost::numeric::ublas::unbounded_array<") and obj is not None and obj.k == "addr":
            r, w = E.rawread(st, obj.a[0] + (".#r",)), E.rawread(st, obj.a[0] + (".#c",))
            if r.k == "c" and w.k == "c":
                k = r.a[1] * w.a[1]
                if n == "size":
                    return [(st, c(k))]
                if n in ("begin", "end", "cbegin", "cend"):
                    st = st.copy()
                    self.setsize(E, st, obj.a[0], k)
                    return self.place(E, st, e, obj.a[0], 0 if "begin" in n else k)
        if q.startswith("boost::numeric::ublas::matrix<") and not b and obj is not None and obj.k == "addr":
            r = self.table(E, st, e, obj.a[0], args, n)
            if r is not None:
                return r
        if q.startswith("boost::numeric::ublas::") and b and obj is not None and n in ("operator()", "operator[]") and args:
            vs = self.vals(E, st, e, args)
            k = int(b.group(1))
            k = int(k ** .5) if "::matrix<" in q else k
            for v in vs:
                self.judge(E, e, v, k)
        return Glps.c_misc(self, E, st, e, obj, args, n, q)

    def c_string(self, E, st, e, obj, args, n, q):
        if obj is not None and obj.k == "addr" and q.startswith(STR) and (e.get("op") == "+=" or n == "append") and len(args) == 1:
            st = st.copy()
            E.write(st, obj.a[0], op("cat", sval(E.read(st, obj.a[0])), sval(self.cstr(E, st, self.vals(E, st, e, args)[0]))), e)
            return [(st, obj)]
        return Glps.c_string(self, E, st, e, obj, args, n, q)

    def place(self, E, st, e, loc, k):
        """an iterator, which for arrays is a pointer"""
        if uncv(e.get("t", "")).rstrip().endswith("*"):
            return [(st, mk("iter", loc, c(k)))]
        return self.iter(E, st, loc, k)

    def judge(self, E, e, v, k):
        if v is not None and v.k == "c" and isinstance(v.a[1], int):
            if not E.probing:
                self.decided_ += 1
            if not 0 <= v.a[1] < k:
                self.flag(E, RULE, e, "element %s of a container of %d is accessed" % (v.a[1], k))
        elif not E.probing:
            self.undecided += 1

    def table(self, E, st, e, loc, args, n):
        if e["k"] == "Ctor" and len(args) == 2:
            vs = self.vals(E, st, e, args)
            if all(v.k == "c" for v in vs):
                st = st.copy()
                E.setcell(st, loc, mk("op", "table"))
                E.setcell(st, loc + (".#r",), vs[0])
                E.setcell(st, loc + (".#c",), vs[1])
                return [(st, None)]
        if e["k"] == "Ctor" and len(args) == 1 and args[0].k == "addr":
            r, w = E.rawread(st, args[0].a[0] + (".#r",)), E.rawread(st, args[0].a[0] + (".#c",))
            if r.k == "c" and w.k == "c":
                st = st.copy()
                E.setcell(st, loc, mk("op", "table"))
                E.setcell(st, loc + (".#r",), r)
                E.setcell(st, loc + (".#c",), w)
                return [(st, None)]
        r, w = E.rawread(st, loc + (".#r",)), E.rawread(st, loc + (".#c",))
        if r.k == "c" and w.k == "c":
            if n in ("size1", "size2"):
                return [(st, r if n == "size1" else w)]
            if n == "operator()" and len(args) == 2:
                vs = self.vals(E, st, e, args)
                self.judge(E, e, vs[0], r.a[1])
                self.judge(E, e, vs[1], w.a[1])
        return None

    def c_vector(self, E, st, e, obj, args, n, q):
        if n == "operator[]" and q.startswith("std::vector<") and obj is not None and obj.k == "addr":
            k = self.sizeof(E, st, obj.a[0])
            v = self.vals(E, st, e, args)[0]
            if not E.probing:
                if k is not None and v.k == "c":
                    self.decided_ += 1
                else:
                    self.undecided += 1
        if q.startswith("std::vector<") and obj is not None and obj.k == "addr" and (e["k"] == "Ctor" or n in ("assign", "insert")) and len(args) >= 2:
            vs = [v for v in self.vals(E, st, e, args) if v is not None and v.k == "iter"]
            if len(vs) == 2 and vs[0].a[0] == vs[1].a[0]:
                a, b = vs[0].a[1], vs[1].a[1]
                k = self.sizeof(E, st, vs[0].a[0])
                if a.k == "c" and b.k == "c" and k is not None and not 0 <= a.a[1] <= b.a[1] <= k:
                    self.flag(E, RULE, e, "entries %s to %s of a container of %d are taken" % (a.a[1], b.a[1], k))
        return Glps.c_vector(self, E, st, e, obj, args, n, q)


def interesting(P, focus=""):
    """functions that, themselves or through others, work on vectors, tables or settings"""
    own = {}
    for u, f in P.funcs.items():
        if "body" not in f or "/src/" not in f["f"] or f["f"].endswith(".c"):
            continue
        own[u] = f
    hot = set()
    calls = {}
    for u, f in own.items():
        s = json.dumps([f["body"], f.get("inits"), f["params"]])
        if re.search(r'std::vector<|Config::|numeric_table|shared_ptr', s):
            hot.add(u)
        calls[u] = {x["fn"] for x in nodes(f) if x.get("fn") in own}
    while True:
        new = {u for u in own if u not in hot and calls[u] & hot}
        if not new:
            break
        hot |= new
    drop = re.compile(r"Config(::|$)|detail::|operator<<|GLPSParser|numeric_table::read$|numeric_table_cache|Machine::|.*::show$|parse_context|LogRecord")
    hot = {u for u in hot if own[u]["n"] not in OPAQUE or own[u]["n"] in focus.split()}
    hot |= {u for u in own if own[u].get("ctor") or own[u]["n"] in ("advance", "assign") or own[u].get("cls") == "SB"}
    return {u for u in hot if not drop.match(own[u]["q"])}


def ctor_of(P, cls):
    for f in P.funcs.values():
        if f.get("cls") == cls and f.get("ctor") and "body" in f and len(f["params"]) == 1 and strip_cv(noref(f["params"][0]["t"])) == "Config":
            return f


def method_of(P, cls, name):
    for t in P.linear(cls):
        for m in P.classes.get(t, {}).get("methods", []):
            f = P.funcs.get(m["usr"])
            if m["n"] == name and f and "body" in f:
                return f


# long computations inside a cavity: entered one at a time (FOCUS), left out of the other runs
OPAQUE = ("GetCavMat", "GetCavMatGeneric", "GetCavMatParams", "GenCavMat2", "calRFcaviEmitGrowth", "TransFacts", "calTransfac", "GetCavBoost", "calGapTrans")
FOCUS = ("GetCavBoost", "TransFacts calTransfac", "calRFcaviEmitGrowth", "GetCavMat GetCavMatParams", "GetCavMat GenCavMat2", "GetCavMatGeneric")
LISTS = (".real", ".moment0", ".moment1", ".transmat")


class Run:
    def __init__(self, P, want):
        self.P, self.want, self.wants = P, want, {}
        self.bad = {}
        self.stats = dict(runs=0, decided=0, undecided=0, refused=0, passes=0)

    def engine(self, sizes, usual, n=None):
        focus = sizes.get("!focus", "")
        if focus not in self.wants:
            self.wants[focus] = interesting(self.P, focus) & (self.want | {u for u, f in self.P.funcs.items() if f["n"] in OPAQUE})
        cl = Settings(self.P, self.wants[focus], sizes, n)
        cl.usualof = usual
        E = GEngine(self.P, cl, cap=6, unroll=64)
        E.implicit = False
        st = St()
        st.cl = (frozenset(), frozenset())
        E.setcell(st, (CONF,), mk("op", "conf", ""))
        return E, cl, st

    def done(self, cl, inst):
        self.stats["runs"] += 1
        self.stats["decided"] += cl.decided_
        self.stats["undecided"] += cl.undecided
        for rule, m in cl.bad.items():
            for (w, msg), text in m.items():
                self.bad.setdefault(rule, {}).setdefault(text, inst)

    def construct(self, cls, sizes, usual, passes):
        f = ctor_of(self.P, cls)
        inst = "%s with %s" % (sname(cls), ", ".join("%s=%s" % x for x in sorted(sizes.items()) if x[0][0] != "!") or "usual settings")
        E, cl, st = self.engine(sizes, usual)
        st.dyn[(EL,)] = cls
        res = E.call_fn(f, st, addr((EL,)), [addr((CONF,))])
        if not res:
            self.stats["refused"] += 1
        seen = dict(cl.seen)
        adv = method_of(self.P, cls, "advance")
        sc = state_class(self.P, cls)
        if adv is not None and "ElementVoid" in self.P.ancestors(cls):
            for ns in passes:
                for retreat in (0, 1) if len(ns) == 1 and "!passes" in sizes else (0,):
                    cur = [s for s, _ in res][:6]
                    for k, n in enumerate(ns):
                        S = ("P", "state%d" % k)
                        nx = []
                        for s in cur:
                            for l in LISTS:
                                cl.n[(S, l)] = n
                            s = s.copy()
                            s.dyn[(S,)] = sc
                            E.setcell(s, (S, ".retreat"), c(retreat))
                            self.stats["passes"] += 1
                            for s2, _ in E.call_fn(adv, s, addr((EL,)), [addr((S,))]):
                                if sc == "MomentState":
                                    self.shape(E, cl, s2, (S,), adv, inst)
                                nx.append(s2)
                        cur = nx[:4]
        elif cls == "MomentState":
            for s, _ in res:
                self.shape(E, cl, s, (EL,), f, inst)
        seen.update(cl.seen)
        self.done(cl, inst)
        return seen

    def shape(self, E, cl, s, loc, fn, inst):
        ks = [cl.sizeof(E, s, loc + (l,)) for l in LISTS]
        if None in ks:
            self.stats["undecided"] += 1
            return
        if len(set(ks)) != 1 or ks[0] < 1:
            self.bad.setdefault(SHAPE, {}).setdefault(
                "%s: leaves a state with %s" % (where(fn), ", ".join("%d %s" % (k, l[1:]) for k, l in zip(ks, LISTS))), inst)


def lengths(name, u):
    if name.endswith("elements"):
        return [None, 0, 1, u + 1]
    if re.match(r"initial|moment|transfer|\?", name):
        return [None] + [x for x in (0, 1, 2, 5, 6, 7, 8, 35, 36, 37, 48, 49, 50, 98) if x != u]
    return [None] + sorted(set(range(9)) | {u - 1, u + 1, u + 2, 2 * u} - {u})


def variants(seen, usual, pairs=True):
    """each setting in every length, each two settings in lengths around the usual one"""
    out = []
    us = {}
    for name, kind in sorted(seen.items()):
        if re.search(r"elements[2-9]\.", name):
            continue
        if kind == "count":
            us[name] = list(COUNTS[name])
            out += [{name: v} for v in COUNTS[name][1:]]
        elif kind == "text":
            us[name] = ["", "given"]
            out.append({name: "given"})
        else:
            u = usual(name)
            us[name] = [None, 0, u - 1, u + 1]
            out += [{name: v} for v in lengths(name, u) if v != u]
        if name == "use_range":
            out += [{"=use_range": (a, b)} for a in range(6) for b in range(6)]
    names = sorted(us) if pairs else []
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            out += [{a: x, b: y} for x in dict.fromkeys(us[a]) for y in dict.fromkeys(us[b])]
    return out


def usualof(P, cls):
    sc = cls if "StateBase" in P.ancestors(cls) else state_class(P, cls)
    return {"MatrixState": {"initial": 36, "transfer": 36}, "VectorState": {"initial": 6, "transfer": 36}}.get(sc, {})


def key(v):
    return tuple(sorted(v.items(), key=str))


def run(P, R):
    deep = R.tier == "thorough"
    want = interesting(P)
    classes = sorted(x for x in P.subclasses("ElementVoid") if ctor_of(P, x) and not P.classes[x].get("abstract") and method_of(P, x, "advance"))
    states = sorted(x for x in P.subclasses("StateBase") if ctor_of(P, x) and method_of(P, x, "clone"))
    only = os.environ.get("C16")
    bad, stats, seen, accepted = {}, {}, {x: {} for x in classes + states if not only or (only[1:] not in x if only[0] == "-" else only in x)}, set()

    def part(items):
        G, saw = Run(P, want), {}
        for cls, v in items:
            r = G.stats["refused"]
            m = G.construct(cls, v, usualof(P, cls), PASSES if "!passes" in v else ((1,),) if "RFCavity" in cls else ((2,),))
            saw.setdefault(cls, {}).update({k: x for k, x in m.items() if k not in saw[cls]} if cls in saw else m)
            if not v and r == G.stats["refused"]:
                saw[cls][""] = "accepted"
        return G.bad, G.stats, saw

    done = {(x, ()) for x in seen}
    todo = [(x, {}) for x in seen]
    while todo:
        for b, n, saw in parallel(part, sorted(todo, key=lambda x: (x[1].get('!focus', '') != FOCUS[-1], min(x[1], default='')[:1] != '!', 'RFCavity' not in x[0])), 8, True):
            for r, m in b.items():
                for t, inst in m.items():
                    bad.setdefault(r, {}).setdefault(t, set()).add(inst)
            for k in n:
                stats[k] = stats.get(k, 0) + n[k]
            for cls, m in saw.items():
                if m.pop("", None):
                    accepted.add(cls)
                for k, x in m.items():
                    seen[cls].setdefault(k, x)
        todo = []
        for cls in seen:
            u = Settings(P, want, {})
            u.usualof = usualof(P, cls)
            more = [{"!passes": "all"}]
            if "file.elements" in seen[cls]:
                more += [dict(x, **{"!focus": f}) for f in FOCUS for x in ({}, {"cavtype": "given"}, {"file.Ez": 4}, {"file.elements": 1}, {"file.elements0.type": "given", "file.elements": 1})]
            for v in more + variants(seen[cls], u.usual, deep or "file.elements" not in seen[cls]):
                if (cls, key(v)) not in done:
                    done.add((cls, key(v)))
                    todo.append((cls, v))
    for cls in sorted(seen):
        R.ob("usual settings are accepted", sname(cls), cls in accepted, "no way through the constructor of %s with usual settings" % cls)
    for r in RULES:
        m = bad.get(r, {})
        R.ob(r, "all classes", not m, "; ".join("%s, for %s" % (t, min(m[t], key=lambda x: (len(x), x))) for t in sorted(m)[:4]))
    if only:
        R.cov.update(stats)
        return
    R.floor("classes", len(seen), 20)
    R.floor("vector settings", sum(x == "vector" for m in seen.values() for x in m.values()), 25)
    R.floor("combinations of settings", stats["runs"], 1500)
    R.floor("passes of a beam", stats["passes"], 1000)
    R.floor("indexed accesses decided", stats["decided"], 100000)
