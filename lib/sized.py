"""Containers of a chosen, concrete size: loops over them are followed element by element.

A client derives from Sized and gives vsize(loc) for the containers that exist on entry.  The size
travels with the container as a pseudo member '.#n'."""
from absint import *

N = ".#n"


class Sized(Client):
    def vsize(self, loc):
        return None

    def sizeof(self, E, st, loc):
        v = E.read(st, loc + (N,))
        if v.k == "c":
            return v.a[1]
        b = E.rawread(st, loc)
        while b.k == "agg":
            b = b.a[0]
        if b.k == "init":
            return self.vsize(b.a[0])
        if b.k == "op" and b.a[0] == "empty":
            return 0
        return None

    def setsize(self, E, st, loc, n):
        E.setcell(st, loc + (N,), c(n))

    def drop(self, E, st, loc, lo, hi):
        for i in range(lo, hi):
            E.setcell(st, loc + ("[%d]" % i,), c(0))

    def on_call(self, E, st, e, obj, args):
        return self.vec(E, st, e, obj, args)

    def vec(self, E, st, e, obj, args):
        n, q = e.get("n", ""), e.get("q", "")
        if obj is None:
            if n in ("equal", "copy") and q.startswith("std::") and len(args) >= 3:
                return self.algo(E, st, e, n, args)
            if n == "swap" and q.startswith("std::") and len(args) == 2 and all(a is not None and a.k == "addr" for a in args) \
                    and "vector<" in " ".join(e.get("pt", [])):
                return self.swapvec(E, st, args[0].a[0], args[1].a[0])
            return None
        if not q.startswith("std::vector<") or obj.k != "addr":
            return None
        loc = obj.a[0]
        if e["k"] == "Ctor":
            return self.vctor(E, st, e, loc, [a for a in args if a is not None])
        if n == "swap" and args and args[0] is not None and args[0].k == "addr":
            return self.swapvec(E, st, loc, args[0].a[0])
        k = self.sizeof(E, st, loc)
        if n == "clear":
            st = st.copy()
            E.write(st, loc, mk("op", "empty", "std::vector"), e)
            self.setsize(E, st, loc, 0)
            return [(st, None)]
        if k is None:
            return None
        if n in ("size", "capacity"):
            return [(st, c(k))]
        if n == "empty":
            return [(st, c(int(k == 0)))]
        if n == "reserve":
            return [(st, None)]
        if n in ("begin", "cbegin", "end", "cend"):
            t = E.newtemp()
            E.setcell(st, t, mk("iter", loc, c(0 if "begin" in n else k)))
            return [(st, addr(t))]
        if n in ("front", "back") and k:
            return [(st, addr(loc + ("[%d]" % (0 if n == "front" else k - 1),)))]
        pts = e.get("pt", [])
        vals = [E.argval(st, a, pts[i] if i < len(pts) else "") if a is not None else None for i, a in enumerate(args)]
        if n == "resize" and vals and vals[0] is not None and vals[0].k == "c":
            m = vals[0].a[1]
            st = st.copy()
            E.cl.on_write(E, st, loc + (N,), c(m), e)
            for i in range(k, m):
                E.setcell(st, loc + ("[%d]" % i,), vals[1] if len(vals) > 1 else c(0))
            self.drop(E, st, loc, m, k)
            self.setsize(E, st, loc, m)
            return [(st, None)]
        if n == "push_back" and len(vals) == 1:
            st = st.copy()
            E.write(st, loc + ("[%d]" % k,), vals[0], e)
            self.setsize(E, st, loc, k + 1)
            return [(st, None)]
        if n == "pop_back" and k:
            st = st.copy()
            self.setsize(E, st, loc, k - 1)
            return [(st, None)]
        if n == "assign" and len(vals) == 2:
            if vals[0].k == "c":
                st = st.copy()
                for i in range(vals[0].a[1]):
                    E.write(st, loc + ("[%d]" % i,), vals[1], e)
                self.setsize(E, st, loc, vals[0].a[1])
                return [(st, None)]
            r = rng(vals[0], vals[1])
            if r:
                st = st.copy()
                src, a, b = r
                xs = [E.read(st, src + ("[%d]" % i,)) for i in range(a, b)]
                for i, x in enumerate(xs):
                    E.write(st, loc + ("[%d]" % i,), x, e)
                self.setsize(E, st, loc, b - a)
                return [(st, None)]
        return None

    def vctor(self, E, st, e, loc, args):
        """a vector made of a number of entries or of a range"""
        pts = e.get("pt", [])
        if not args or (pts and "vector<" in pts[0]) or len(args) > 3:
            return None
        vals = [E.argval(st, a, pts[i] if i < len(pts) else "") for i, a in enumerate(args)]
        if vals[0].k == "c" and vals[0].a[0] == "int" and (len(vals) == 1 or "alloc" in " ".join(pts[1:2])):
            xs = [c(0)] * vals[0].a[1]
        elif vals[0].k == "c" and vals[0].a[0] == "int" and len(vals) >= 2:
            xs = [vals[1]] * vals[0].a[1]
        else:
            r = rng(vals[0], vals[1]) if len(vals) >= 2 else None
            if not r:
                return None
            xs = [E.read(st, r[0] + ("[%d]" % i,)) for i in range(r[1], r[2])]
        if len(xs) > 400:
            return None
        st = st.copy()
        E.write(st, loc, mk("op", "empty", "std::vector"), e)
        for i, x in enumerate(xs):
            E.write(st, loc + ("[%d]" % i,), x, e)
        self.setsize(E, st, loc, len(xs))
        return [(st, None)]

    def swapvec(self, E, st, a, b):
        st = st.copy()
        na, nb = self.sizeof(E, st, a), self.sizeof(E, st, b)
        if na is None or nb is None:
            return None
        xa = [E.read(st, a + ("[%d]" % i,)) for i in range(na)]
        xb = [E.read(st, b + ("[%d]" % i,)) for i in range(nb)]
        for l, xs in ((a, xb), (b, xa)):
            for i, x in enumerate(xs):
                E.write(st, l + ("[%d]" % i,), x, None)
            self.setsize(E, st, l, len(xs))
        return [(st, None)]

    def algo(self, E, st, e, n, args):
        pts = e.get("pt", [])
        vals = [E.argval(st, a, pts[i] if i < len(pts) else "") if a is not None else None for i, a in enumerate(args)]
        if any(v is None for v in vals[:3]):
            return None
        r = rng(vals[0], vals[1])
        d = vals[2]
        if not r or d.k != "iter" or d.a[1].k != "c":
            return None
        src, a, b = r
        dst, j = d.a[0], d.a[1].a[1]
        if n == "copy":
            st = st.copy()
            xs = [E.read(st, src + ("[%d]" % i,)) for i in range(a, b)]
            for i, x in enumerate(xs):
                E.write(st, dst + ("[%d]" % (j + i),), x, e)
            t = E.newtemp()
            E.setcell(st, t, mk("iter", dst, c(j + b - a)))
            return [(st, addr(t))]
        if len(args) > 3:
            return None
        f = self.eqfn(E, src, dst, pts)
        cur, out = [st], []
        for i in range(a, b):
            nx = []
            A, B = src + ("[%d]" % i,), dst + ("[%d]" % (j + i),)
            for s in cur:
                rs = E.call_fn(f, s, None, [addr(A), addr(B)]) if f else [(s, E.binop(s, "==", E.read(s, A), E.read(s, B)))]
                for s2, v in rs:
                    t, g = E.assume(s2, v, True), E.assume(s2, v, False)
                    if t is not None:
                        nx.append(t)
                    if g is not None:
                        out.append((g, c(0)))
            cur = nx
        gs = E.limit([g for g, _ in out])
        return [(g, c(0)) for g in gs] + [(s, c(1)) for s in cur]

    def eqfn(self, E, a, b, pts):
        for f in E.P.funcs.values():
            if f["q"].split("::")[-1] == "operator==" and "body" in f and len(f["params"]) == 2 and not f.get("method"):
                t = noref(f["params"][0]["t"])
                if any(t in p for p in pts):
                    return f
        return None


def rng(x, y):
    if x is not None and y is not None and x.k == "iter" and y.k == "iter" and x.a[0] == y.a[0] and x.a[1].k == "c" and y.a[1].k == "c":
        return x.a[0], x.a[1].a[1], y.a[1].a[1]
    return None
