"""Lock regions: a structured walk of every function giving, at each access and call,
the mutexes certainly and possibly held; contexts propagate over the call graph."""
import re
from facts import Broken

LOCKT = re.compile(r"(boost|std)::(unique_lock|lock_guard|scoped_lock|shared_lock|strict_lock|detail::try_lock_wrapper|unique_lock_try|upgrade_lock)\b|interprocess::scoped_lock")
MUTEXT = re.compile(r"(const )?(boost|std)::(recursive_|timed_|shared_|recursive_timed_)?mutex( const)?$")
RECURSIVE = re.compile(r"recursive")
READS = {"find", "begin", "end", "lower_bound", "upper_bound", "equal_range", "size", "empty", "count", "at", "get", "rbegin", "rend", "c_str",
         "front", "back", "cbegin", "cend", "str", "data"}


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("Ld", "ICast", "Full", "Tmp", "Cast", "Paren"):
        e = e["e"]
    return e


def mutex_key(e):
    """identity of the mutex an expression denotes"""
    e = strip(e)
    if not isinstance(e, dict):
        return None
    if e["k"] == "Ref" and MUTEXT.match(e.get("t", "")):
        return e.get("usr") or ("local %s" % e.get("id"))
    if e["k"] == "Mem" and MUTEXT.match(e.get("t", "")):
        return "%s::%s" % (e["cls"], e["n"])
    if e["k"] == "Un" and e["op"] in ("*", "&"):
        return mutex_key(e["e"])
    return None


class Walk:
    """one function"""
    def __init__(self, P, fn, palias=None):
        self.P, self.fn = P, fn
        self.binds = []        # (callee, parameter index, keys): globals handed on by reference
        self.ev = []           # (kind, key, node, must, may, extra)
        self.locks = {}        # local lock object id -> mutex key
        self.alias = {}        # local id -> set of keys it points into
        self.ptrlike = set()   # alias locals that are iterators or pointers (assigning them touches nothing)
        for i, ks in (palias or {}).items():
            self.alias[fn["params"][i]["id"]] = set(ks)
        self.explicit = set()  # mutexes locked by hand, without a guard object
        self.find_aliases()
        h = (frozenset(), frozenset())
        for i in fn.get("inits", []) or []:
            h = self.expr(i.get("e"), h) or h
        self.stmt(fn["body"], h)

    # ---- aliases: iterators, references and pointers into a tracked object
    def find_aliases(self):
        decls = []

        def w(n):
            if isinstance(n, dict):
                if n.get("k") == "Var" and n.get("init"):
                    decls.append((n["id"], n["t"], n["init"]))
                if n.get("k") == "Bin" and n.get("op") == "=":
                    a = strip(n["a"])
                    if isinstance(a, dict) and a.get("k") == "Ref" and "id" in a:
                        decls.append((a["id"], a.get("vt") or a.get("t", ""), n["b"]))
                if n.get("k") == "Call" and n.get("op") == "=" and n.get("obj") is not None:
                    a = strip(n["obj"])
                    if isinstance(a, dict) and a.get("k") == "Ref" and "id" in a:
                        decls.append((a["id"], a.get("vt") or a.get("t", ""), n["args"]))
                for v in n.values():
                    w(v)
            elif isinstance(n, list):
                for v in n:
                    w(v)
        w(self.fn["body"])
        for _ in range(4):
            ch = False
            for i, t, e in decls:
                if not (t.endswith(("&", "*")) or "iterator" in t):
                    continue
                ks = self.roots(e)
                if not t.endswith("&"):
                    self.ptrlike.add(i)
                if not ks <= self.alias.get(i, set()):
                    self.alias.setdefault(i, set()).update(ks)
                    ch = True
            if not ch:
                break

    def roots(self, e):
        """tracked objects that the value of e points into"""
        e = strip(e)
        if isinstance(e, list):
            r = set()
            for x in e:
                r |= self.roots(x)
            return r
        if not isinstance(e, dict):
            return set()
        k = e["k"]
        if k == "Ref":
            if e.get("dk") == "global":
                return {e["usr"]}
            return set(self.alias.get(e.get("id"), ()))
        if k == "Mem":
            r = self.derefd(e["b"]) if e.get("arrow") else self.roots(e["b"])
            r.add("%s::%s" % (e["cls"], e["n"]))
            return r
        if k == "Call":
            if e.get("obj") is not None:
                return self.roots(e["obj"])
            if e.get("op") and e.get("args"):
                return self.roots(e["args"][0])
            return set()
        if k in ("Un",):
            return self.derefd(e["e"]) if e["op"] == "*" else self.roots(e["e"])
        if k == "Sub":
            return self.roots(e["b"])
        if k == "Ctor":
            return self.roots(e["args"])
        if k == "Cond":
            return self.roots(e["a"]) | self.roots(e["b"])
        return set()

    def derefd(self, e):
        """what the pointee of e lies in: a local alias points into its container, a pointer member or global owns elsewhere"""
        b = strip(e)
        if isinstance(b, dict) and b.get("k") == "Call" and b.get("op") in ("->", "*"):
            b = strip(b["obj"] if b.get("obj") is not None else b["args"][0])
        if isinstance(b, dict) and b.get("k") == "Mem":
            return set()
        if isinstance(b, dict) and b.get("k") == "Ref" and b.get("dk") == "global":
            return set()
        return self.roots(b)

    # ---- walk
    def add(self, kind, key, node, h, x=None):
        self.ev.append((kind, key, node, h[0], h[1], x))

    def acquire(self, m, node, h):
        self.add("acquire", m, node, h)
        return (h[0] | {m}, h[1] | {m})

    def release(self, m, h):
        return (h[0] - {m}, h[1] - {m})

    def without(self, h, ms):
        for m in ms:            # scoped locks of the blocks that are left
            h = self.release(m, h)
        return h

    def merge(self, *hs):
        hs = [h for h in hs if h is not None]
        if not hs:
            return None
        a, b = hs[0]
        for x, y in hs[1:]:
            a, b = a & x, b | y
        return (a, b)

    def exprs(self, es, h):
        for e in es or []:
            h = self.expr(e, h)
        return h

    def access(self, e, h, write):
        for k in self.roots(e) if e.get("k") != "Ref" or e.get("dk") != "global" else {e["usr"]}:
            self.add("access", k, e, h, write)

    def expr(self, e, h, write=False):
        """-> held set after evaluating e"""
        if isinstance(e, list):
            return self.exprs(e, h)
        if not isinstance(e, dict) or h is None:
            return h
        k = e.get("k")
        if k == "Call":
            q = e.get("q", "")
            o = e.get("obj")
            n = e.get("n", "")
            if e.get("callee") is not None and "fn" not in e:
                h = self.expr(e["callee"], h)
                self.add("callptr", None, e, h)
            so = strip(o) if o is not None else None
            mut = o is not None and not e.get("cm") and not e.get("sm") and n not in READS and e.get("op") not in ("->", "*", "()") or e.get("op") == "[]"
            if o is not None:
                if e.get("op") in ("->", "*") and write and isinstance(so, dict) and so.get("k") == "Ref" and so.get("id") in self.alias:
                    for x in self.alias[so["id"]]:
                        self.add("access", x, so, h, True)
                else:
                    h = self.expr(o, h, mut)
            pts = e.get("pt", [])
            for i, a in enumerate(e.get("args", [])):
                pt = pts[i] if i < len(pts) else ""
                sa = strip(a)
                if pt.endswith("&") and isinstance(sa, dict) and sa.get("k") == "Ref" and e.get("fn") in self.P.funcs \
                        and "body" in self.P.funcs[e["fn"]] and i < len(self.P.funcs[e["fn"]]["params"]) and not e.get("virt"):
                    ks = {sa["usr"]} if sa.get("dk") == "global" else self.alias.get(sa.get("id"))
                    if ks:
                        self.binds.append((e["fn"], i, frozenset(ks)))
                        continue
                h = self.expr(a, h, pt.endswith("&") and not pt.startswith("const "))
            if o is not None and isinstance(so, dict):
                if so.get("k") == "Ref" and so.get("id") in self.locks and n in ("unlock", "release"):
                    return self.release(self.locks[so["id"]], h)
                if so.get("k") == "Ref" and so.get("id") in self.locks and n in ("lock",):
                    return self.acquire(self.locks[so["id"]], e, h)
                m = mutex_key(so)
                if m and n in ("lock", "lock_shared"):
                    self.explicit.add(m)
                    return self.acquire(m, e, h)
                if m and n in ("unlock", "unlock_shared"):
                    return self.release(m, h)
            if "fn" in e:
                self.add("call", e, e, h)
                if self.explicit & h[1] and not e.get("nothrow"):
                    self.add("unsafe", sorted(self.explicit & h[1])[0], e, h)
            return h
        if k == "Ctor":
            h = self.exprs(e.get("args"), h)
            self.add("call", e, e, h)
            return h
        if k == "Tmp":
            h = self.expr(e["e"], h, write)
            if e.get("dtor"):
                self.add("call", {"fn": e["dtor"]}, e, h)
            return h
        if k == "Del":
            h = self.expr(e["e"], h)
            if e.get("dtor"):
                self.add("call", {"fn": e["dtor"], "virt": True, "cls": e.get("dt", "")}, e, h)
            return h
        if k == "Ref":
            if e.get("dk") == "global":
                self.add("access", e["usr"], e, h, write)
            elif e.get("dk") == "func":
                self.add("addrof", e.get("fn"), e, h)
            elif e.get("id") in self.alias and not (write and e["id"] in self.ptrlike):
                for x in self.alias[e["id"]]:
                    self.add("access", x, e, h, write)
            return h
        if k == "Mem":
            h = self.expr(e["b"], h, write)
            self.add("access", "%s::%s" % (e["cls"], e["n"]), e, h, write)
            return h
        if k == "Bin":
            asg = e["op"] == "=" or (e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="))
            h = self.expr(e["a"], h, asg)
            h2 = self.expr(e["b"], h)
            return self.merge(h, h2) if e["op"] in ("&&", "||") else h2
        if k == "Un":
            return self.expr(e["e"], h, e["op"] in ("++", "--", "&") or write)
        if k == "Cond":
            h = self.expr(e["c"], h)
            return self.merge(self.expr(e["a"], h), self.expr(e["b"], h))
        if k == "Sub":
            h = self.expr(e["b"], h, write)
            return self.expr(e["i"], h)
        if k == "Lambda":
            return h
        if k in ("Ld", "ICast", "Full", "Cast", "Paren"):
            return self.expr(e["e"], h, write)
        for x in ("e", "init", "c", "a", "b", "args"):
            if x in e:
                h = self.expr(e[x], h)
        return h

    def decl(self, v, h):
        if v.get("k") != "Var":
            return h
        i = v.get("init")
        h = self.expr(i, h) if i is not None else h
        if LOCKT.search(v.get("t", "")):
            c = strip(i)
            args = c.get("args", []) if isinstance(c, dict) else []
            m = next((mutex_key(a) for a in args if mutex_key(a)), None)
            defer = any("defer_lock" in str(strip(a).get("t", "")) for a in args if isinstance(strip(a), dict))
            if m:
                self.locks[v["id"]] = m
                self.mine.append(m)
                self.allmine.append(m)
                return h if defer else self.acquire(m, v, h)
            if args:
                self.add("badlock", None, v, h)
        elif v.get("dtor"):
            self.dtors.append((v["dtor"], v, h, len(self.mine)))
        return h

    def stmt(self, s, h):
        if s is None or h is None:
            return h
        k = s["k"]
        if k == "Block":
            return self.block(s["c"], h)
        if k == "Expr":
            return self.expr(s["e"], h)
        if k == "Decl":
            for v in s["c"]:
                h = self.decl(v, h)
            return h
        if k == "If":
            if s.get("var"):
                h = self.decl(s["var"], h) if isinstance(s["var"], dict) and s["var"].get("k") == "Var" else h
            h = self.expr(s["c"], h)
            return self.merge(self.stmt(s["a"], h), self.stmt(s["b"], h) if s.get("b") else h)
        if k in ("For", "While", "Do", "ForRange"):
            old = self.mine, self.dtors
            self.mine, self.dtors = [], []
            if s.get("init"):
                h = self.stmt(s["init"], h) if s["init"].get("k") in ("Decl", "Expr", "Block", "Null") else self.expr(s["init"], h)
            for x in ("rng", "range"):
                if s.get(x):
                    h = self.expr(s[x], h)
            if s.get("var") and isinstance(s["var"], dict) and s["var"].get("k") == "Var":
                h = self.decl(s["var"], h)
            if s.get("c"):
                h = self.expr(s["c"], h)
            self.brk.append(([], []))
            n0 = len(self.allmine)
            h1 = self.stmt(s["body"], h)
            brk, cont = [[self.without(x, self.allmine[n0:]) for x in y] for y in self.brk.pop()]
            h1 = self.merge(h1, *cont)
            if s.get("inc"):
                h1 = self.expr(s["inc"], h1)
            h = self.merge(h, h1, *brk)
            for m in self.mine:
                h = self.release(m, h) if h else h
            self.mine, self.dtors = old
            return h
        if k == "Switch":
            h = self.expr(s["c"], h)
            self.brk.append(([], self.brk[-1][1] if self.brk else []))
            n0 = len(self.allmine)
            h1 = self.stmt(s["body"], h)
            brk = [self.without(x, self.allmine[n0:]) for x in self.brk.pop()[0]]
            return self.merge(h, h1, *brk)
        if k in ("Case", "Default", "Label"):
            return self.stmt(s["s"], h)
        if k == "Try":
            h1 = self.stmt(s["body"], h)
            outs = [h1]
            for c in s.get("h", []):
                outs.append(self.stmt(c.get("body"), h))
            return self.merge(*outs)
        if k in ("Ret", "Throw"):
            h2 = self.expr(s.get("e"), h)
            if h2 and self.explicit & h2[1]:
                self.add("unsafe", sorted(self.explicit & h2[1])[0], s, h2)
            return None
        if k == "Ret":
            return None
        if k == "Throw":
            self.expr(s.get("e"), h)
            return None
        if k in ("Break", "Continue") and self.brk:
            self.brk[-1][0 if k == "Break" else 1].append(h)
            return None
        if k in ("Break", "Continue", "Goto"):
            return None
        if k == "Null":
            return h
        return self.expr(s, h)

    mine, dtors, brk, allmine = [], [], [], []

    def block(self, stmts, h):
        old = self.mine, self.dtors
        self.mine, self.dtors = [], []
        brk = None
        cur = h
        for s in stmts:
            if cur is None:
                if s.get("k") in ("Case", "Default", "Label"):
                    cur = h
                else:
                    continue
            elif s.get("k") in ("Case", "Default"):
                cur = self.merge(cur, h)
            cur = self.stmt(s, cur)
        for d, v, hd, n in reversed(self.dtors):
            # run at the end of the block, or by an exception any time after the declaration; locks taken later are gone by then
            x = self.merge(cur, hd)
            for m in self.mine[n:]:
                x = self.release(m, x)
            self.add("call", {"fn": d}, v, x)
        if cur is not None:
            for m in self.mine:
                cur = self.release(m, cur)
        self.mine, self.dtors = old
        return cur


class Locks:
    def __init__(self, P, select):
        self.P = P
        self.w = {}
        for u, f in P.funcs.items():
            if "body" in f and select(f):
                self.w[u] = Walk(P, f)
        bound = {}
        for _ in range(4):
            ch = set()
            for w in list(self.w.values()):
                for cu, i, ks in w.binds:
                    if cu in self.w:
                        d = bound.setdefault(cu, {}).setdefault(i, set())
                        if not ks <= d:
                            d |= ks
                            ch.add(cu)
            for cu in ch:
                self.w[cu] = Walk(P, P.funcs[cu], bound[cu])
            if not ch:
                break
        self.taken = set()
        for w in self.w.values():
            for kind, key, node, must, may, x in w.ev:
                if kind == "addrof" and key:
                    self.taken.add(key)
        self.callees = {}
        for u, w in self.w.items():
            out = []
            for kind, key, node, must, may, x in w.ev:
                if kind == "call":
                    for t in self.targets(key):
                        if t in self.w:
                            out.append((t, must, may, node))
                elif kind == "callptr":
                    for t in self.taken:
                        if t in self.w and self.ptrmatch(t, node):
                            out.append((t, must, may, node))
            self.callees[u] = out
        callers = {}
        for u, cs in self.callees.items():
            for t, a, b, n in cs:
                callers.setdefault(t, []).append((u, a, b))
        self.callers = callers
        # greatest / least fixpoints
        ALL = None
        must = {u: (frozenset() if not self.internal(u) or u in self.taken or u not in callers else ALL) for u in self.w}
        may = {u: frozenset() for u in self.w}
        ch = True
        while ch:
            ch = False
            for u, cs in callers.items():
                ny = may[u]
                nm = ALL
                for cu, a, b in cs:
                    ny = ny | may[cu] | b
                    if must[cu] is not None:
                        x = must[cu] | a
                        nm = x if nm is None else nm & x
                if ny != may[u]:
                    may[u] = ny
                    ch = True
                if self.internal(u) and u not in self.taken and nm is not None and nm != must[u]:
                    if must[u] is None or nm < must[u]:
                        must[u] = nm
                        ch = True
        self.must = {u: (m if m is not None else frozenset()) for u, m in must.items()}
        self.may = may

    def ptrmatch(self, t, node):
        f = self.P.funcs[t]
        return len(f["params"]) == len(node.get("args", []))

    def targets(self, e):
        u = e.get("fn")
        if not u:
            return []
        if e.get("virt"):
            cls = (e.get("cls") or "").replace("const ", "").rstrip("*& ")
            subs = self.P.subclasses(cls) if cls in self.P.classes else []
            r = {self.P.resolve_virtual(u, t) for t in subs}
            r.discard(None)
            return sorted(r) or [u]
        return [u]

    def internal(self, u):
        """cannot be called from outside this library"""
        f = self.P.funcs[u]
        if "(anon" in f["q"] or (f.get("static") and not f.get("method")):
            return True
        if f.get("method"):
            c = self.P.classes.get(f.get("cls", ""))
            if c and c.get("f", "").endswith(".cpp"):
                return True
            if f.get("access", 0) == 2:
                return True
        return False

    def path(self, u, pred, lim=8):
        """a call chain from a function satisfying pred to u"""
        seen, q = {u: None}, [u]
        while q:
            x = q.pop(0)
            if pred(x):
                r = []
                while x is not None:
                    r.append(self.P.funcs[x]["q"])
                    x = seen[x]
                return r
            for cu, a, b in self.callers.get(x, []):
                if cu not in seen:
                    seen[cu] = x
                    q.append(cu)
        return [self.P.funcs[u]["q"]]
