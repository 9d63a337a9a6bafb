"""Summaries for large or uninteresting callees: everything they may read flows into everything they may write."""
from absint import *
from common import noptr


def nodes(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(x)


def this_obj(o):
    return o.get("k") == "This" or (o.get("k") == "Un" and o.get("e", {}).get("k") == "This")


class Member:
    def __init__(self, m):
        self.m = m

    def __call__(self, x):
        return x.get("k") == "Mem" and "." + x.get("n", "") == self.m and x.get("b", {}).get("k") == "This"


class Summaries:
    def __init__(self, P):
        self.P = P
        self.terms = False      # equal inputs give equal results
        self._size, self._mr, self._thr, self._own, self._out = {}, {}, {}, {}, {}
        self.const = {m["usr"] for c in P.classes.values() for m in c.get("methods", []) if m.get("const")}

    def own(self, fn):
        u = fn["usr"]
        if u not in self._own:
            self._own[u] = sum(1 for _ in nodes(fn.get("body")))
        return self._own[u]

    def enter(self, E, st, fn, this, args):
        """the usual policy: None to inline"""
        q = fn["q"]
        if q.startswith("Config::") and not fn.get("ctor") and this is not None:
            return config_call(E, st, fn, this, args, self.terms)
        if q.startswith("Machine::LogRecord"):
            return [(st, addr(E.newtemp()) if fn["rt"] != "void" else None)]
        outs = any(p["t"].endswith(("&", "*")) and not p["t"].startswith("const ") for p in fn["params"])
        meth = fn.get("method") and not fn.get("sm")
        const = fn["usr"] in self.const
        if fn.get("ctor"):
            return None
        if not meth:
            big = self.own(fn) > 120 or self.size(fn) > 300 or (not outs and fn["rt"] not in ("bool", "void") and self.own(fn) > 60)
        elif const:
            big = self.size(fn) > 1000
        else:
            big = self.own(fn) > 800
        return self.apply(E, st, fn, this, args) if big else None

    def callees(self, fn):
        for n in nodes([fn.get("inits", []), fn.get("body")]):
            if n.get("k") in ("Call", "Ctor") and n.get("fn"):
                g = self.P.funcs.get(n["fn"])
                if g and "body" in g and not n.get("impl"):
                    yield n, g

    def size(self, fn, stack=()):
        """syntax nodes reachable through calls"""
        u = fn["usr"]
        if u in self._size:
            return self._size[u]
        if u in stack:
            return 0
        seen, todo, n = {u}, [fn], 0
        while todo:
            f = todo.pop()
            if f["q"].startswith(("Config::", "Machine::LogRecord")):
                continue
            n += sum(1 for _ in nodes(f.get("body")))
            if n > 60000:
                break
            for _, g in self.callees(f):
                if g["usr"] not in seen:
                    seen.add(g["usr"])
                    todo.append(g)
        self._size[u] = n
        return n

    def throws(self, fn):
        u = fn["usr"]
        if u not in self._thr:
            seen, todo, r = {u}, [fn], False
            while todo and not r:
                f = todo.pop()
                if any(n.get("k") == "Throw" for n in nodes(f.get("body"))):
                    r = True
                for _, g in self.callees(f):
                    if g["q"].startswith("Machine::LogRecord"):
                        continue
                    if g["usr"] not in seen:
                        seen.add(g["usr"])
                        todo.append(g)
            self._thr[u] = r
        return self._thr[u]

    def modref(self, fn, stack=()):
        """members of this that fn (or a callee on this) mentions / may change"""
        u = fn["usr"]
        if u in self._mr:
            return self._mr[u]
        if u in stack:
            return set(), set()
        R, M = set(), set()
        const = u in self.const
        for n in nodes([fn.get("inits", []), fn.get("body")]):
            if n.get("k") == "Mem" and n.get("b", {}).get("k") == "This" and not n.get("meth"):
                R.add("." + n["n"])
                if not const:
                    M.add("." + n["n"])
        if not const:
            # a member that is only ever loaded is not changed
            loaded, other = set(), set()

            def walk(n, ld):
                if isinstance(n, list):
                    for x in n:
                        walk(x, False)
                    return
                if not isinstance(n, dict):
                    return
                if n.get("k") == "Mem" and n.get("b", {}).get("k") == "This":
                    (loaded if ld else other).add("." + n["n"])
                for key, v in n.items():
                    walk(v, n.get("k") == "Ld" and key == "e" or (n.get("k") == "Call" and n.get("cm") and key == "obj"))
            walk([fn.get("inits", []), fn.get("body")], False)
            M &= other
        for n, g in self.callees(fn):
            o = n.get("obj")
            if n["k"] == "Call" and o is not None and g.get("method") and not g.get("sm") and (o.get("k") == "This" or (o.get("k") == "Un" and o["e"].get("k") == "This")):
                r, m = self.modref(g, stack + (u,))
                R |= r
                M |= m
        if not stack:
            self._mr[u] = (R, M)
        return R, M

    def outonly(self, fn, i, stack=()):
        """parameter i (a reference) is overwritten before anything reads it: 'k'; read first: 'r'; else None"""
        key = (fn["usr"], i)
        if key in self._out:
            return self._out[key]
        if key in stack or "body" not in fn:
            return "r"
        p = fn["params"][i]
        r = self._flow(fn["body"], lambda x: x.get("k") == "Ref" and x.get("n") == p["n"], stack + (key,))
        if not stack:
            self._out[key] = r
        return r

    def memberout(self, fn, m, stack=()):
        """the same for a data member of *this"""
        key = (fn["usr"], m)
        if key in self._out:
            return self._out[key]
        if key in stack or "body" not in fn:
            return "r"
        r = self._flow(fn["body"], Member(m), stack + (key,))
        if not stack:
            self._out[key] = r
        return r

    def _mention(self, n, match):
        return any(match(x) for x in nodes(n)) or isinstance(match, Member) and \
            any(x.get("k") == "Call" and isinstance(x.get("obj"), dict) and this_obj(x["obj"]) for x in nodes(n))

    def _flow(self, n, match, stack):
        if isinstance(n, list):
            for x in n:
                r = self._flow(x, match, stack)
                if r:
                    return r
            return None
        if not isinstance(n, dict) or not self._mention(n, match):
            return None
        k = n.get("k")
        if match(n):
            return "r"
        if k in ("Expr", "Full") and any("Machine::LogRecord" in str(x.get("t", "")) + str(x.get("q", "")) for x in nodes(n)):
            return None      # only reported
        if k == "If":
            r = self._flow([n.get("init"), n.get("c")], match, stack)
            if r:
                return r
            t, e = self._flow(n.get("a"), match, stack), self._flow(n.get("b"), match, stack)
            if "r" in (t, e):
                return "r"
            return "k" if t == "k" and e == "k" else None
        if k in ("For", "While", "Do", "ForRange", "Switch", "Try"):
            return "r" if self._flow([v for v in n.values() if isinstance(v, (dict, list))], match, stack) == "r" else None
        if k in ("Call", "Ctor"):
            o = n.get("obj")
            direct = lambda x: isinstance(x, dict) and match(x)
            rest = [a for a in n.get("args", [])]
            if direct(o) and (n.get("op") == "=" or n.get("n") == "clear"):
                return self._flow(rest, match, stack) or "k"
            g = self.P.funcs.get(n.get("fn"))
            if g and "body" in g and not n.get("virt"):
                r = self._flow([o] + [a for a in rest if not direct(a)], match, stack)
                if r:
                    return r
                if isinstance(match, Member) and isinstance(o, dict) and this_obj(o):
                    r = self.memberout(g, match.m, stack)
                    if r:
                        return r
                rs = [self.outonly(g, i, stack) for i, a in enumerate(rest) if direct(a) and i < len(g["params"])]
                return "r" if "r" in rs else ("k" if "k" in rs else None)
            return "r"
        if k == "Bin" and n.get("op") == "=" and isinstance(n.get("a"), dict) and match(n["a"]):
            return self._flow(n.get("b"), match, stack) or "k"
        return self._flow([v for v in n.values() if isinstance(v, (dict, list))], match, stack)

    def apply(self, E, st, fn, this, args):
        """-> [(st, value)]"""
        d = set()
        vals = []
        st = st.copy()
        outs, maybe = [], []
        for i, (p, v) in enumerate(zip(fn["params"], args)):
            t = p["t"]
            if v is None:
                continue
            if v.k in ("addr", "iter") and (t.endswith(("&", "*")) or E.isrec(t)):
                l = E.loc_of(v)
                if t.endswith("&") and not t.startswith("const "):
                    how = self.outonly(fn, i)
                    if how != "r":
                        (outs if how == "k" else maybe).append(l)
                        continue
                vals.append(E.read(st, l))
                d |= deps(vals[-1])
                E.cl.on_read(E, st, l, None)
                if t.endswith(("&", "*")) and not t.startswith("const "):
                    outs.append(l)
            else:
                vals.append(v)
                d |= deps(v)
        ms = []
        if this is not None and fn.get("method") and not fn.get("sm"):
            tl = E.loc_of(this)
            R, M = self.modref(fn)
            for m in sorted(R):
                if self.memberout(fn, m) == "k":
                    continue
                vals.append(E.read(st, tl + (m,)))
                d |= deps(vals[-1])
                E.cl.on_read(E, st, tl + (m,), None)
            ms = [tl + (m,) for m in sorted(M)]
        d = frozenset(d)

        def result(slot, *more):
            if self.terms and all(v is not None for v in vals):
                return op("%s:%s" % (fn["q"], slot), *vals, *more)
            return top(d | deps_of(more))
        if self.throws(fn):
            E.throw(st.copy(), "?", None)
        for i, l in enumerate(outs + ms):
            E.write(st, l, result(i), None)
        for i, l in enumerate(maybe):
            E.write(st, l, result("m%d" % i, E.read(st, l)), None)
        if fn["rt"] == "void":
            return [(st, None)]
        if E.isrec(fn["rt"]) or fn["rt"].endswith("&"):
            t = E.newtemp()
            E.setcell(st, t, result("r"))
            return [(st, addr(t))]
        return [(st, result("r"))]


def config_call(E, st, fn, this, args, terms=False):
    """lookups in a configuration: a value that depends on the configuration alone, or key_error"""
    n = fn["q"].split("::")[-1].split("<")[0]
    st = st.copy()
    d = set()
    vals = []
    outs = []
    for p, v in zip(fn["params"], args):
        if v is None:
            continue
        if v.k in ("addr", "iter"):
            l = E.loc_of(v)
            vals.append(E.read(st, l))
            d |= deps(vals[-1])
            if p["t"].endswith(("&", "*")) and not p["t"].startswith("const "):
                outs.append(l)
        else:
            vals.append(v)
            d |= deps(v)
    l = E.loc_of(this)
    vals.append(E.read(st, l))
    d |= deps(vals[-1])
    d = frozenset(d)

    def result(slot):
        return op("%s:%s" % (fn["q"], slot), *vals) if terms else top(d)
    if n == "get" and len(fn["params"]) == 1 or n in ("getAny", "set", "setAny"):
        E.throw(st.copy(), "key_error", None)
    for i, o in enumerate(outs):
        E.write(st, o, result(i), None)
    if n in ("set", "setAny", "push_scope", "pop_scope", "flatten", "swap"):
        E.write(st, l, result("this"), None)
    if fn["rt"] == "void":
        return [(st, None)]
    if E.isrec(fn["rt"]) or fn["rt"].endswith("&"):
        t = E.newtemp()
        E.setcell(st, t, result("r"))
        return [(st, addr(t))]
    return [(st, result("r"))]
