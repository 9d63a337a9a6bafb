"""C06: machines in different threads share nothing unguarded, and no lock order can deadlock."""
import re
from facts import REPO, Broken
from common import *
from locks import Locks, MUTEXT, LOCKT, RECURSIVE, strip

# C library functions with hidden shared state
NONREENTRANT = {"strtok", "asctime", "ctime", "localtime", "gmtime", "rand", "srand", "setlocale", "tmpnam", "getenv_s", "strerror",
                "drand48", "lgamma", "ecvt", "fcvt", "putenv", "setenv", "chdir", "umask"}
CALLBACKS = {"Machine::Logger", "Observer"}


def run(P, R):
    R.explain = ("lockset analysis: every access to process-wide mutable data (globals, class statics, function statics, members behind "
                 "process-wide singletons) with the mutexes certainly held there, contexts propagated over the call graph; acquisition-order graph for deadlock")
    prog = {f["tu"] for f in P.funcs.values() if f["q"] == "main" and "body" in f}

    def lib(f):
        return (f["f"].startswith(REPO + "/src/") or "/gen/" in f["f"]) and f.get("tu") not in prog
    L = Locks(P, lib)
    R.floor("functions_walked", len(L.w), 300)

    def dtor_or_ctor(f, cls=None):
        n = f["q"].split("::")[-1]
        return f.get("method") and (n.startswith("~") or f.get("ctor") or n == re.sub(r"<.*", "", (f.get("cls") or "").split("::")[-1]))

    acc = {}
    for u, w in L.w.items():
        for kind, key, node, must, may, x in w.ev:
            if kind == "access":
                acc.setdefault(key, []).append((u, node, x, must | L.must[u]))
    # ---- what is process-wide and mutable
    glob = {k: g for k, g in P.globals.items() if not g["const"] and not g.get("tls") and (g["f"].startswith(REPO + "/src/") or "/gen/" in g["f"])
            and g["tu"] not in prog and not MUTEXT.match(g["t"]) and "atomic" not in g["t"] and "once_flag" not in g["t"]}
    R.floor("process_wide_variables", len(glob), 6)
    guarded = {}

    def reach(t, seen):
        """classes whose members are process-wide because a global holds or owns them"""
        t = strip_cv(t)
        m = re.match(r"(?:std|boost)::(?:auto_ptr|unique_ptr|shared_ptr|scoped_ptr)<(.*?)(?:, std::default_delete<.*)?>$", t)
        t = strip_cv(m.group(1)) if m else noptr(t)
        c = P.classes.get(t)
        if not c or t in seen or t.startswith(("std::", "boost::")):
            return
        seen.add(t)
        for _, f in P.allfields(t):
            reach(f["t"], seen)
    owned = set()
    for k, g in glob.items():
        if noptr(g["t"]) in P.classes and not g["t"].startswith(("std::", "boost::")) and any(x[2] for x in acc.get(k, [])):
            reach(g["t"], owned)
    locked_cls = {t for t, c in P.classes.items() if any(MUTEXT.match(f["t"]) for f in c.get("fields", []))}
    nacc = 0
    for k, g in sorted(glob.items()):
        a = acc.get(k, [])
        if strip_cv(g["t"]) in owned:
            continue            # judged by its members
        writes = [x for x in a if x[2]]
        if not writes:
            R.ob("process-wide data is guarded or never changed", "%s: never written after initialisation (%d reads)" % (g["q"], len(a)), True)
            continue
        common = None
        for u, node, x, must in a:
            common = must if common is None else common & must
        # majority lock: the one most accesses hold, to name the odd one out
        cnt = {}
        for u, node, x, must in a:
            for m in must:
                cnt[m] = cnt.get(m, 0) + 1
        best = max(cnt, key=lambda m: cnt[m]) if cnt else None
        if common:
            guarded[k] = sorted(common)[0]
        for u, node, x, must in a:
            nacc += 1
            ok = bool(common)
            bad = not ok and (best is None or best not in must)
            R.ob("process-wide data is guarded or never changed", "%s at %s" % (g["q"], where(P.funcs[u], node)), not bad,
                 "%s: %s of %s without %s (call chain: %s)" % (where(P.funcs[u], node), "write" if x else "read", g["q"],
                 "the mutex that guards it elsewhere" if best else "any mutex", " <- ".join(L.path(u, lambda z: not L.callers.get(z))[:1] + [P.funcs[u]["q"]])),
                 key="unguarded %s in %s" % (g["q"], P.funcs[u]["q"]))
    for t in sorted(owned | locked_cls):
        for f in P.classes[t].get("fields", []):
            if MUTEXT.match(f["t"]) or f["t"].startswith("const "):
                continue
            k = "%s::%s" % (t, f["n"])
            a = [x for x in acc.get(k, []) if not (P.funcs[x[0]].get("cls") == t and dtor_or_ctor(P.funcs[x[0]]))]
            # pointers to owned parts are dereferenced, not changed
            writes = [x for x in a if x[2]]
            if not writes:
                continue
            mine = [m for x in a for m in x[3]]
            common = None
            for u, node, x, must in a:
                common = must if common is None else common & must
            own = ["%s::%s" % (t, g["n"]) for g in P.classes[t]["fields"] if MUTEXT.match(g["t"])]
            for u, node, x, must in a:
                nacc += 1
                ok = any(m in must for m in own) if own else bool(common)
                R.ob("members behind a mutex are accessed with it held", "%s at %s" % (k, where(P.funcs[u], node)), ok,
                     "%s: %s of %s without holding %s" % (where(P.funcs[u], node), "write" if x else "read", k, own or "any mutex"),
                     key="member %s in %s" % (k, P.funcs[u]["q"]))
            guarded[k] = k
    R.floor("guarded_accesses", nacc, 20)

    # ---- nothing guarded escapes its lock by reference
    def rets(n, out):
        if isinstance(n, dict):
            if n.get("k") == "Ret" and n.get("e"):
                out.append(n)
            for v in n.values():
                rets(v, out)
        elif isinstance(n, list):
            for v in n:
                rets(v, out)
    for u, w in L.w.items():
        f = P.funcs[u]
        if not (f["rt"].endswith(("&", "*")) or "iterator" in f["rt"]):
            continue
        rs = []
        rets(f["body"], rs)
        for r in rs:
            esc = [k for k in w.roots(r["e"]) if k in guarded]
            if f["rt"].endswith("*") and esc:      # a pointer copied out of a guarded table by value
                e = strip(r["e"])
                esc = [k for k in esc if isinstance(e, dict) and e.get("k") == "Un" and e.get("op") == "&"]
            ok = not esc or L.internal(u)
            if esc:
                R.ob("guarded data does not leave its lock by reference", where(f, r), ok,
                     "%s: returns a reference into %s" % (where(f, r), esc))

    # ---- deadlock
    order = {}
    nacq = 0
    for u, w in L.w.items():
        for kind, key, node, must, may, x in w.ev:
            if kind == "acquire":
                nacq += 1
                held = may | L.may[u]
                g = P.globals.get(key)
                rec = RECURSIVE.search(g["t"]) if g else False
                chain = L.path(u, lambda z: any(key in b for t, a, b, n in L.callees[z]) and z != u)
                R.ob("no mutex is acquired while already held", "%s at %s" % (key, where(P.funcs[u], node)), rec or key not in held,
                     "%s: acquires %s, which a caller already holds: %s" % (where(P.funcs[u], node), key, " -> ".join(chain)), key="selflock %s in %s" % (key, P.funcs[u]["q"]))
                R.ob("a mutex is released on every way out", "%s at %s" % (key, where(P.funcs[u], node)), True)
                for h in held:
                    if h != key:
                        order.setdefault(h, {})[key] = where(P.funcs[u], node)
            elif kind == "unsafe":
                R.violation("a mutex is released on every way out", "%s in %s" % (key, P.funcs[u]["q"]),
                            "%s: may leave the function (return or exception) with %s still locked" % (where(P.funcs[u], node), key))
            elif kind == "badlock":
                R.violation("every lock object locks a recognisable mutex", where(P.funcs[u], node), "%s: lock on an unknown mutex" % where(P.funcs[u], node))
            elif kind == "call" and (may | L.may[u]):
                e = key
                cls = (e.get("cls") or "").replace("const ", "")
                if e.get("virt") and e.get("q") and cls in CALLBACKS:
                    R.violation("no user callback runs with a lock held", "%s at %s" % (e.get("q"), where(P.funcs[u], node)),
                                "%s: calls %s while %s is (or may be) held: a callback that logs, registers or builds a machine deadlocks"
                                % (where(P.funcs[u], node), e.get("q"), sorted(may | L.may[u])))
            if kind == "call":
                e = key
                if e.get("virt") and (e.get("cls") or "").replace("const ", "") in CALLBACKS and not (may | L.may[u]):
                    R.ob("no user callback runs with a lock held", "%s at %s" % (e.get("q"), where(P.funcs[u], node)), True)
                q = e.get("q", "")
                if q.replace("std::", "").lstrip(":") in NONREENTRANT:
                    R.violation("no library function with hidden shared state is used", where(P.funcs[u], node), "%s: calls %s" % (where(P.funcs[u], node), q))
    R.floor("lock_acquisitions", nacq, 7)

    def cyc(x, path):
        for y in order.get(x, {}):
            if y in path:
                return path[path.index(y):] + [y]
            r = cyc(y, path + [y])
            if r:
                return r
    for x in order:
        cy = cyc(x, [x])
        R.ob("mutexes are always acquired in one order", "from %s" % x, not cy, "lock order cycle %s: %s" % (" -> ".join(cy or []),
             "; ".join(order[a][b] for a, b in zip(cy or [], (cy or [])[1:]))))
    R.ob("mutexes are always acquired in one order", "%d ordered pairs" % sum(len(v) for v in order.values()), True)
    R.assume += ["each Machine, State and Config object is used by one thread at a time (documented)", "static initialisation is single threaded",
                 "Python module data is protected by the interpreter lock", "programs with their own main() are single threaded"]
