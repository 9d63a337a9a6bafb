"""The Python boundary: a typestate client over the interpreter of absint.py.

Calls of the Python C API (and of numpy's) split into success and failure.  Per path it tracks the error
indicator and, for every object, how many references (or, for C++ objects, ownerships) the code at hand
has to dispose of.  Everything is judged on the source; nothing is run."""
import re
from collections import namedtuple
from absint import *
from common import *
from lin import entails, lt, le

C = namedtuple("C", "err refs held dead wrote cmp obs untracked")
START = C(False, frozenset(), frozenset(), frozenset(), None, False, frozenset(), False)

PYOBJ = re.compile(r"(_object|tagPyArrayObject(_fields)?|PyArrayObject|_typeobject|PyTypeObject|_PyArray_Descr|PyArray_Descr) \*$")
# borrowed results: (may fail with error, may be NULL without error)
BORROW = {"PyDict_GetItem": (0, 1), "PyDict_GetItemString": (0, 1), "PyDict_GetItemWithError": (1, 1), "PyList_GetItem": (1, 0),
          "PyTuple_GetItem": (1, 0), "PyImport_AddModule": (1, 0), "PySys_GetObject": (0, 1), "PyModule_GetDict": (0, 0),
          "PyList_GET_ITEM": (0, 0), "PyTuple_GET_ITEM": (0, 0), "Py_TYPE": (0, 0), "PyEval_GetBuiltins": (0, 0),
          "PyWeakref_GetObject": (1, 0), "PyWeakref_GET_OBJECT": (0, 0), "PyModule_GetState": (0, 1)}
STEALS = {"PyTuple_SET_ITEM": 2, "PyList_SET_ITEM": 2, "PyTuple_SetItem": 2, "PyList_SetItem": 2}
SETERR = {"PyErr_SetString", "PyErr_SetObject", "PyErr_SetNone", "PyErr_BadArgument", "PyErr_BadInternalCall", "PyErr_SetImportError"}
NULLOK = {"Py_XINCREF", "Py_XDECREF", "_Py_XINCREF", "_Py_XDECREF", "Py_XNewRef", "PyObject_GC_UnTrack", "PyErr_WriteUnraisable",
          "PyErr_Restore", "PyErr_Fetch", "PyErr_SetObject", "PyErr_SetNone", "PyErr_SetString", "PyErr_Format"}
NULLARG = {"PyObject_GenericSetAttr": (2,), "PyObject_SetAttr": (2,), "PyObject_SetAttrString": (2,), "PyArg_ParseTupleAndKeywords": (1,),
           "_PyArg_ParseTupleAndKeywords_SizeT": (1,), "PyObject_Call": (2,), "PyObject_CallObject": (1,), "PyErr_NormalizeException": (0, 1, 2)}
# never fails and leaves the error indicator alone
QUIET = re.compile(r"(Py\w+_Check(Exact)?|PyObject_TypeCheck|PyType_\w*Subclass|PyType_HasFeature|PyType_IsSubtype|PyCallable_Check|"
                   r"PyObject_HasAttr(String)?|PyMapping_Check|PySequence_Check|PyNumber_Check|PyIndex_Check|PyIter_Check|Py_IS_TYPE|Py_SIZE|Py_REFCNT|"
                   r"PyUnicode_GET_LENGTH|PyTuple_GET_SIZE|PyList_GET_SIZE|PyBytes_GET_SIZE|PyArray_\w+|PyDataType_\w+|Py_AtExit|PyObject_ClearWeakRefs|"
                   r"PyObject_GC_\w+|PyErr_\w+|PyGILState_\w+|PyEval_\w+|Py_IsNone|Py_Is|Py_IsTrue|Py_IsFalse|PyObject_IS_GC|PyDict_Size|"
                   r"PyType_Modified|_Py\w*IMMORTAL|_Py_IsImmortal|PyDict_Contains|PyObject_ClearManagedDict|PyModule_AddIntConstant|PyModule_AddStringConstant)$")
NOFAIL = {"PyObject_Type", "PyErr_Occurred", "Py_NewRef", "Py_XNewRef"}
NOTNULLCHECK = {"PyObject_TypeCheck": 0, "Py_IS_TYPE": 0, "Py_TYPE": 0}


def sy(*k):
    return init((k,))


def issym(v):
    return v is not None and v.k == "init" and len(v.a[0]) >= 1 and isinstance(v.a[0][0], tuple)


def root(v):
    return v.a[0][0]


class PyEngine(Engine):
    def lookup(self, st, v):
        if v.k == "init" and len(v.a[0]) == 1 and v.a[0][0][0] in ("O", "B", "S0", "X"):
            return True
        r = super().lookup(st, v)
        if r is None and v.k == "op" and v.a[0] == "<" and isc(v.a[1]) and v.a[1].a[1] == 0 and \
                (mentionsroot(v.a[2], "info") or v.a[2].k == "op" and v.a[2].a[0] == "size"):
            # an unsigned quantity
            if st.facts.get(v.a[2]) is True:
                return True
        return r

    def loop(self, s, st, cond, inc, body, var, rng=None, dofirst=False):
        other = othersize(cond, body)
        was = self.cl.partial
        self.cl.partial = was or other
        out = super().loop(s, st, cond, inc, body, var, rng, dofirst)
        self.cl.partial = was
        if not other and unobserves(self.P, body, 3):
            # over all elements, or over those observed: none is left
            for o in out:
                if o[0] == "n" and o[1].cl.obs:
                    o[1].cl = o[1].cl._replace(obs=frozenset())
        return out

    bounded = False

    def fix(self, s, heads, cond, inc, body, var, rng, dofirst):
        if not self.bounded:
            return super().fix(s, heads, cond, inc, body, var, rng, dofirst)
        # the first two rounds only: what is found there is real, nothing is claimed of the others
        out, cur = [], self.merge(heads)
        for i in range(2):
            nx = []
            for x in cur:
                ex, nn, ot = self.iterate(s, x, cond, inc, body, var, rng, dofirst)
                out += [("n", y, None) for y in ex] + ot
                nx += nn
            cur = self.limit(self.merge(nx))
        return self.lim_out(out)

    def cast(self, s, v, ck, t):
        self.cl.on_cast(self, s, v, ck, t)
        return super().cast(s, v, ck, t)

    def ext_ctor(self, st, e, loc, cls, args):
        if cls.startswith("std::basic_string") and args and e.get("pt", [""])[0].startswith("const char *"):
            self.cl.need(self, st, args[0], e, "a NULL string is used")
        return super().ext_ctor(st, e, loc, cls, args)


class Py(Client):
    def __init__(self, P, entry, slot):
        self.P, self.entry, self.slot = P, entry, slot
        self.bad = {}          # (rule, line, msg) -> text
        self.sites = {}
        self.count = {}
        self.selfsym = None
        self.partial = False
        self.maybe = set()
        self.throwing = throwing(P)
        self.callsites = set()
        self.exits = 0
        self.dealloc = slot == "tp_dealloc"

    # ------------------------------------------------------------ reporting
    def flag(self, E, rule, node, msg):
        if E.probing:
            return
        fr = E.fr
        fn = fr.fn if fr else self.entry
        while fr and not inpy(fr.fn) and fr.parent:
            fr = fr.parent
            fn = fr.fn
        w = where(fn, node if node and "l" in node and fr and fr.fn is fn else None)
        self.bad.setdefault((rule, w, msg), "%s: %s" % (w, msg))

    def key(self, st):
        if st.cl.held or st.cl.dead:
            # objects no variable leads to any more
            live = set()
            seen = set()
            for r, cells in st.mem.items():
                for v in cells.values():
                    symbols(v, live, seen)
            k = {v for v, _ in st.cl.refs} | live
            held = frozenset(v for v in st.cl.held if v in k or self.isfield(v) or v.k == "addr")
            dead = frozenset(v for v in st.cl.dead if v in k or self.isfield(v) or v.k == "addr")
            if held != st.cl.held or dead != st.cl.dead:
                st.cl = st.cl._replace(held=held, dead=dead)
        return st.cl

    def inline(self, E, fn):
        return inpy(fn) or fn["n"] in ("ndindex_iterate",) and False

    def on_enter(self, E, st, fn, this, args):
        """functions that call themselves are judged on their own and stand for their contract here"""
        if fn["usr"] not in recursive(self.P) or fn is self.entry or fn["n"].startswith("operator"):
            if fn is not self.entry or not E.stack:
                return None
        e = E.curnode
        if any(p["t"].endswith("*") and self.null(E, st, a) is True for p, a in zip(fn["params"], args)):
            return None
        for p, a in zip(fn["params"], args):
            if p["t"].endswith("*"):
                self.need(E, st, a, e, "NULL is passed to %s()" % fn["n"])
        st = st.copy()
        E.throw(st.copy(), "?", e)
        E.throw(self.fail(st, None)[0], "?", e)
        out = []
        if PYOBJ.search(fn["rt"]):
            if returns_null(self.P, fn):
                out.append(self.fail(st, NULL))
            ok, v = self.newobj(E, st, e, fn["n"])
            return out + [(ok, v)]
        return [(st, None if fn["rt"] == "void" else top())]

    # ------------------------------------------------------------ objects
    def site(self, e):
        s = self.sites.get(id(e))
        if s is None:
            s = self.sites[id(e)] = (len(self.sites), e)
        return s[0]

    def fresh(self, E, st, e, kind, what, tag=0):
        """a symbol for a new object made at e on this path"""
        live = {s for s, _ in st.cl.refs}
        k = 0
        while True:
            v = sy(kind, what, self.site(e), tag, k)
            if v not in live and not (v in st.cl.held and k < 2):
                break
            k += 1
            if k > 6:
                break
        self.renew(st, v)
        st.cl = st.cl._replace(dead=frozenset(x for x in st.cl.dead if x is not v), held=frozenset(x for x in st.cl.held if x is not v))
        return v

    def renew(self, st, v):
        """v now stands for another object: forget what was known of the former one"""
        memo = {}
        if any(mentions(f, v, memo) for f in st.facts):
            st.facts = {f: t for f, t in st.facts.items() if not mentions(f, v, memo)}
        stale = sy("X", "stale")
        for r in list(st.mem):
            if r[0] == "D" and isinstance(r[1], V) and mentions(r[1], v, memo):
                del st.mem[r]
                st.own.discard(r)
                continue
            for path, x in list(st.mem[r].items()):
                if mentions(x, v, memo):
                    st.cells(r)[path] = stale

    def get(self, st, v):
        for s, n in st.cl.refs:
            if s is v:
                return n
        return 0

    def put(self, st, v, n):
        r = {(s, k) for s, k in st.cl.refs if s is not v}
        if n:
            r.add((v, n))
        st.cl = st.cl._replace(refs=frozenset(r))

    def tracked(self, v):
        if v is None or v.k == "c":
            return False
        if v.k == "addr":
            return v.a[0][0][0] == "H" and len(v.a[0]) == 1
        return issym(v) and (root(v)[0] in ("O", "B", "A") and len(v.a[0]) == 1 or self.isfield(v))

    def isfield(self, v):
        """the value a field of the object at hand had on entry"""
        return issym(v) and len(v.a[0]) == 2 and self.selfsym is not None and root(v) == ("D", self.selfsym)

    def adj(self, E, st, v, d, node, what="reference"):
        if not self.tracked(v):
            return
        n = self.get(st, v) + d
        if n == -1 and self.isfield(v) and not self.dealloc:
            # to be replaced before anybody looks (leaks() judges at the end)
            self.put(st, v, n)
            st.cl = st.cl._replace(dead=st.cl.dead | {v})
            return
        if n < 0:
            self.flag(E, "released once", node, "%s is released by code which does not own it" % name(v))
            n = 0
        self.put(st, v, n)
        if d < 0 and n == 0 and v not in st.cl.held and (v.k == "addr" or root(v)[0] == "O"):
            st.cl = st.cl._replace(dead=st.cl.dead | {v})

    def hold(self, st, v):
        st.cl = st.cl._replace(held=st.cl.held | {v}, dead=frozenset(x for x in st.cl.dead if x is not v))

    # ------------------------------------------------------------ NULL and lifetime
    def null(self, E, st, v):
        """True: certainly NULL, None: may be, False: not"""
        if v is None:
            return False
        t = E.truth(st, v)
        if t is True:
            return False
        if t is False:
            return True if v.k != "addr" else False
        if v in self.maybe or issym(v) and root(v)[0] == "A?":
            return None
        return False

    def need(self, E, st, v, node, msg):
        n = self.null(E, st, v)
        if n is not False:
            self.flag(E, "no NULL is used", node, msg + ("" if n else " (%s can be NULL)" % name(v)))
            return False
        if v is not None and (v in st.cl.dead or issym(v) and root(v)[0] == "I" and root(v)[1] in st.cl.dead):
            self.flag(E, "nothing is used after its release", node, "%s is used after its release" % name(v))
        return True

    def on_deref(self, E, st, v, e):
        self.need(E, st, v, e, "a NULL pointer is dereferenced")
        t = e.get("b", e.get("e", {})) or {}
        t = t.get("t", "") if isinstance(t, dict) else ""
        cls = noptr(t)
        if issym(v) and cls in OWN(self.P) and v is not self.selfsym and root(v)[0] in ("A", "A?", "B"):
            if not any(tt and f.k == "op" and f.a[0] == "pytype" and f.a[1] is v for f, tt in st.facts.items()):
                self.flag(E, "objects of other types are refused", e, "%s is taken for a %s without a check" % (name(v), sname(cls)))

    def on_cast(self, E, st, v, ck, t):
        if ck == "IntegralCast" and issym(v) and root(v)[0] == "N" and strip_cv(t) in ("int", "short", "unsigned int", "unsigned short", "char"):
            hi = {"int": 2**31, "unsigned int": 2**32, "short": 2**15, "unsigned short": 2**16, "char": 128}[strip_cv(t)]
            lo = 0 if "unsigned" in t else -hi
            if not (entails(st.facts, lt(v, c(hi))) and entails(st.facts, le(c(lo), v))):
                self.flag(E, "integers are not cut off", getattr(E, "curnode", None), "a Python integer is cut down to %s without a check" % strip_cv(t))

    # ------------------------------------------------------------ memory of Python objects
    def on_write(self, E, st, loc, val, node):
        r = loc[0]
        if r[0] == "D" and isinstance(r[1], V):
            base = r[1]
            if len(loc) == 2 and (base is self.selfsym or issym(base) and root(base)[0] == "O"):
                if self.ownfield(loc[1][1:]):
                    old = E.rawread(st, loc)
                    if not self.dealloc or base is not self.selfsym:
                        if self.null(E, st, old) is not True and self.tracked(old) and old is not val:
                            self.put(st, old, self.get(st, old) + 1)
                            st.cl = st.cl._replace(held=frozenset(x for x in st.cl.held if x is not old))
                        if self.tracked(val) and old is not val:
                            self.put(st, val, self.get(st, val) - 1)
                            self.hold(st, val)
            if mentionsroot(base, "info"):
                st.cl = st.cl._replace(wrote=(E.fr.fn["q"], node["l"] if node else 0))
                if self.slot == "tp_setattro" and mentionsraw(base) and not st.cl.cmp:
                    self.flag(E, "array shapes are compared", node, "values are copied into the state before the array's shape has been compared with the attribute's")
        elif r[0] == "G" and self.tracked(val):
            self.put(st, val, self.get(st, val) - 1)
            self.hold(st, val)

    def ownfield(self, n):
        return n in FIELDS(self.P)

    def on_branch(self, E, st, cond, val):
        d = deps(val)
        if any(mloc(x, "dims") for x in d) and any(mloc(x, "info") and ".dim" in x for x in d):
            st.cl = st.cl._replace(cmp=True)

    def on_dtor(self, E, st, loc, ty, node):
        if ty.startswith(("std::auto_ptr<", "std::unique_ptr<", "boost::scoped_ptr<")):
            self.cppdel(E, st, E.rawread(st, loc), node)
        for l in st.cl.obs:
            if l == loc:
                self.flag(E, "observers do not outlive the call", node, "an element still points to an observer which is destroyed")

    def on_delete(self, E, st, v, node):
        self.cppdel(E, st, v, node)

    def cppdel(self, E, st, v, node):
        if v is None or v.k == "op" or self.null(E, st, v) is True:
            return
        self.adj(E, st, v, -1, node, "object")

    def on_new(self, E, st, loc, node):
        self.put(st, addr(loc), 1)

    # ------------------------------------------------------------ calls
    def on_call(self, E, st, e, obj, args):
        E.curnode = e
        n, q = e.get("n", "") or "", e.get("q", "") or ""
        if "fn" not in e:
            return self.indirect(E, st, e, args)
        if n.startswith(("Py", "_Py")) or n == "_import_array":
            fn = self.P.funcs.get(e["fn"])
            if not (fn and "body" in fn and inpy(fn)):
                return self.api(E, st.copy(), e, n, args)
        if q.startswith("std::auto_ptr") or q.startswith("std::unique_ptr") or q.startswith("boost::scoped_ptr"):
            return self.smart(E, st, e, obj, n, args)
        if n == "apply_visitor":
            return self.visitor(E, st, e, args)
        if n == "equal" and q == "std::equal":
            vs = [E.read(st, a.a[0]) if a is not None and a.k == "addr" else a for a in args]
            if any(mentionsroot(a, "info") for a in args if a is not None) or any(mentionsroot(v, "info") for v in vs if v is not None):
                st = st.copy()
                if any(dimrange(a, b) for a, b in zip(args, args[1:])):
                    st.cl = st.cl._replace(cmp=True)
                return [(st, sy("N0", self.site(e)))]
        fn = self.P.funcs.get(e["fn"])
        if fn is not None and inpy(fn) and "body" in fn or q.startswith(("std::", "boost::", "__")) or fn is None and not obj and not q:
            return None
        if e.get("k") == "Ctor" and (e.get("copy") or e.get("move") or e.get("dflt")):
            return None
        return self.core(E, st, e, obj, n, q, args)

    def core(self, E, st, e, obj, n, q, args):
        """a function of the library behind the boundary: may fail with a C++ exception"""
        st = st.copy()
        if e.get("k") == "Ctor":
            if e["fn"] in self.throwing:
                E.throw(st.copy(), "?", e)
            E.setcell(st, obj.a[0], top())
            return [(st, None)]
        if n == "set_observer" and args:
            a = args[0]
            if a.k == "addr":
                st.cl = st.cl._replace(obs=st.cl.obs | {a.a[0]})
            elif E.truth(st, a) is False and not self.partial:
                st.cl = st.cl._replace(obs=frozenset())
        if e["fn"] in self.throwing or e.get("virt"):
            if n not in ("set_observer", "size", "conf"):
                E.throw(st.copy(), "?", e)
        if n == "getArray" and len(args) == 2:
            lo = E.loc_of(args[1])
            E.setcell(st, lo, sy("info"))
            return [(st, sy("N0", self.site(e)))]
        if n == "raw" and obj is not None:
            p = E.read(st, E.loc_of(obj) + (".ptr",))
            return [(st, sy("raw", p))]
        if q.startswith("Machine::operator[]"):
            self.index(E, st, e, obj, args)
            return [(st, sy("X", "elem", self.site(e)))]
        t = e.get("t", "")
        if t.endswith("*") and n in ("clone", "allocState", "parse_byte", "parse_file") and not PYOBJ.search(t):
            v = self.fresh(E, st, e, "O", "cpp:" + noptr(t))
            self.put(st, v, 1)
            return [(st, v)]
        if n == "size" and obj is not None:
            return [(st, op("size", sy("X", "machine")))]
        if n in ("set", "swap") and q.startswith("Config"):
            return [(st, None)]
        if e.get("op") in ("<<", "=", "+=") and obj is not None:
            return [(st, obj)]
        if e.get("op") in ("<<", "=", "+=") and args:
            return [(st, args[0])]
        if t == "void":
            return [(st, None)]
        if e.get("gl") or t.endswith("&"):
            return [(st, addr((("D", sy("X", "ref", self.site(e))),)))]
        if E.isrec(t):
            tl = E.newtemp()
            E.setcell(st, tl, top())
            return [(st, addr(tl))]
        return [(st, sy("X", "ptr", self.site(e)) if t.endswith("*") else top())]

    def index(self, E, st, e, obj, args):
        i = args[0]
        sz = op("size", sy("X", "machine"))
        if not entails(st.facts, lt(i, sz)) and (frompython(i) or isc(i) or st.facts.get(op("<", sz, i)) is False):
            # an index running over all elements
            self.flag(E, "element indices are checked", e, "an element index is used without being compared with the number of elements")
        w, neg = E.canon(op("<", c(0), sz))
        st.facts[w] = not neg

    def smart(self, E, st, e, obj, n, args):
        if obj is None or obj.k != "addr":
            return None
        loc = obj.a[0]
        o = e.get("op")
        if n == "reset":
            st = st.copy()
            self.cppdel(E, st, E.rawread(st, loc), e)
            E.setcell(st, loc, args[0] if args else NULL)
            return [(st, None)]
        if o in ("->", "*"):
            v = E.rawread(st, loc)
            if v.k == "op" and v.a[0] == "empty":
                v = NULL
            self.need(E, st, v, e, "a NULL pointer is dereferenced")
        if o == "=" and args and args[0].k == "addr":
            st = st.copy()
            src = args[0].a[0]
            self.cppdel(E, st, E.rawread(st, loc), e)
            E.setcell(st, loc, E.rawread(st, src))
            E.setcell(st, src, NULL)
            return [(st, obj)]
        if e.get("k") == "Ctor" and (e.get("copy") or e.get("move") or "auto_ptr" in (e.get("pt") or [""])[0]) and args and args[0].k == "addr":
            st = st.copy()
            src = args[0].a[0]
            E.setcell(st, loc, E.rawread(st, src))
            E.setcell(st, src, NULL)
            return [(st, None)]
        return None

    def visitor(self, E, st, e, args):
        cls = None
        for a, t in zip(args, e.get("pt", [])):
            t = noptr(t)
            if t in self.P.classes and any(m["n"] == "operator()" for m in self.P.classes[t]["methods"]):
                cls = t
                this = a
                break
        if cls is None:
            return None
        out = []
        for m in self.P.classes[cls]["methods"]:
            f = self.P.funcs.get(m["usr"])
            if m["n"] == "operator()" and f and "body" in f:
                if E.recursing(f):
                    s = st.copy()
                    E.throw(s.copy(), "?", e)
                    t = E.newtemp()
                    v = self.fresh(E, s, e, "O", "value")
                    self.put(s, v, 1)
                    E.setcell(s, t + ("._ptr",), v)
                    out.append((s, addr(t)))
                else:
                    out += E.call_fn(f, st.copy(), this, [addr((("P", "value"),)) for _ in f["params"]], e)
        return out

    def indirect(self, E, st, e, args):
        st = st.copy()
        cal = e.get("callee") or {}
        names = {x.get("n") for x in walk(cal) if x.get("k") == "Mem"}
        if "tp_free" in names:
            return [(st, None)]
        t = e.get("t", "")
        for a in args:
            if issym(a) and a in st.cl.dead:
                self.need(E, st, a, e, "")
        if "tp_alloc" in names or "tp_new" in names:
            tv = args[0].a[0][0][2] if args and args[0].k == "addr" and args[0].a[0][0][0] == "G" else None
            ok, v = self.newobj(E, st, e, "tp_alloc", tv)
            E.setcell(ok, (("D", v),), c(0))
            return [(ok, v), self.fail(st, NULL)]
        if not any(x.get("n", "").endswith("PyArray_API") for x in walk(cal)):
            if t == "int":
                return [(st, sy("N0", self.site(e)))]
            return None
        for x, a in zip(e.get("args", []), args):
            at = x.get("t", "")
            if PYOBJ.search(at) and "Descr" not in at and "typeobject" not in at and "TypeObject" not in at and not isnull(x):
                self.need(E, st, a, e, "NULL is passed to numpy")
            if "Descr" in at and self.tracked(a):
                self.adj(E, st, a, -1, e)
        if PYOBJ.search(t) or t.endswith("*"):
            ok, v = self.newobj(E, st, e, "ndarray" if "Descr" not in t else "descr")
            return [(ok, v)] + ([] if "Descr" in t else [self.fail(st, NULL)])
        if t == "int":
            return [(st.copy(), sy("N0", self.site(e))), self.fail(st, c(-1))]
        return [(st, top() if t != "void" else None)]

    def newobj(self, E, st, e, what, tag=0):
        s = st.copy()
        v = self.fresh(E, s, e, "O", what, tag)
        self.put(s, v, 1)
        return s, v

    def fail(self, st, v):
        s = st.copy()
        s.cl = s.cl._replace(err=True)
        return s, v

    def api(self, E, st, e, n, args):
        self.callsites.add(id(e))
        n0 = n
        n = n[1:].replace("_SizeT", "") if n.startswith("_Py") and n.endswith("_SizeT") else n
        pts = e.get("pt", [])
        site = self.site(e)
        # arguments
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else e["args"][i].get("t", "") if i < len(e.get("args", [])) else ""
            if PYOBJ.search(pt) and n not in NULLOK and i not in NULLARG.get(n, ()):
                self.need(E, st, a, e, "NULL is passed to %s()" % n)
            elif issym(a) and (a in st.cl.dead or root(a)[0] == "I" and root(a)[1] in st.cl.dead):
                self.need(E, st, a, e, "")
        # reference counts
        if n in ("Py_INCREF", "Py_XINCREF", "_Py_INCREF", "_Py_XINCREF", "Py_NewRef", "Py_XNewRef"):
            if self.null(E, st, args[0]) is True:
                return [(st, args[0])]
            if self.tracked(args[0]):
                self.put(st, args[0], self.get(st, args[0]) + 1)
            return [(st, args[0] if "NewRef" in n else None)]
        if n in ("Py_DECREF", "Py_XDECREF", "_Py_DECREF", "_Py_XDECREF", "Py_DecRef", "Py_CLEAR"):
            return self.decref(E, st, e, args[0])
        if n == "PyObject_GC_UnTrack":
            st.cl = st.cl._replace(untracked=True)
            return [(st, None)]
        # the error indicator
        if n in SETERR:
            st.cl = st.cl._replace(err=True)
            return [(st, None)]
        if n in ("PyErr_Format", "PyErr_NoMemory", "PyErr_SetFromErrno", "PyErr_SetFromErrnoWithFilename"):
            st.cl = st.cl._replace(err=True)
            return [(st, NULL)]
        if n in ("PyErr_Clear", "PyErr_Print", "PyErr_PrintEx", "PyErr_WriteUnraisable"):
            st.cl = st.cl._replace(err=False)
            return [(st, None)]
        if n == "PyErr_Fetch":
            was = st.cl.err
            for a in args:
                if a.k == "addr":
                    E.setcell(st, a.a[0], sy("A?", "err", len(a.a[0]) and id(a) % 97) if was else NULL)
            st.cl = st.cl._replace(err=False)
            return [(st, None)]
        if n == "PyErr_Restore":
            st.cl = st.cl._replace(err=self.null(E, st, args[0]) is not True)
            return [(st, None)]
        if n in ("PyErr_GetRaisedException",):
            if not st.cl.err:
                return [(st, NULL)]
            ok, v = self.newobj(E, st, e, "exception")
            ok.cl = ok.cl._replace(err=False)
            return [(ok, v)]
        if n == "PyErr_SetRaisedException":
            if self.null(E, st, args[0]) is not True:
                self.adj(E, st, args[0], -1, e)
                st.cl = st.cl._replace(err=True)
            return [(st, None)]
        if n == "PyErr_Occurred":
            return [(st, sy("X", "type") if st.cl.err else NULL)]
        if n == "PyErr_ExceptionMatches":
            return [(st, sy("N0", site))]
        # arguments from Python
        if n in ("PyArg_ParseTuple", "PyArg_ParseTupleAndKeywords", "PyArg_Parse"):
            return self.parse(E, st, e, n, args)
        if n == "PyArg_UnpackTuple":
            for i, a in enumerate(args[4:]):
                if a.k == "addr":
                    E.setcell(st, a.a[0], sy("A" if i < args[2].a[1] else "A?", site, i))
            return [(st, c(1)), self.fail(st, c(0))]
        # types
        if n in ("PyObject_TypeCheck", "Py_IS_TYPE", "PyObject_IsInstance"):
            if len(args) == 2:
                v = op("pytype", args[0], args[1])
                return [(st, v)] + ([self.fail(st, c(-1))] if n == "PyObject_IsInstance" else [])
        if n in ("PyType_HasFeature", "PyType_FastSubclass", "PyType_IsSubtype"):
            a = args[0]
            o = root(a)[1] if issym(a) and root(a)[0] == "typeof" else a
            return [(st, op("pytype", o, args[1] if len(args) > 1 else NULL))]
        if n in ("PyArray_DIMS", "PyArray_SHAPE"):
            return [(st, sy("dims", args[0]))]
        if n == "PyArray_DIM":
            return [(st, E.read(st, (("D", sy("dims", args[0])), "[]")))]
        if n == "Py_TYPE":
            return [(st, sy("typeof", args[0]))]
        if n == "PyDict_Next":
            out = [(st.copy(), c(0))]
            for i, a in enumerate(args[2:]):
                if a.k == "addr":
                    E.setcell(st, a.a[0], self.fresh(E, st, e, "B", "item", i))
            return out + [(st, c(1))]
        if n in STEALS:
            a = args[STEALS[n]]
            if self.tracked(a):
                self.adj(E, st, a, -1, e)
                self.hold(st, a)
            if n in ("PyTuple_SetItem", "PyList_SetItem") and not (issym(args[0]) and root(args[0])[0] == "O" and root(args[0])[1] == ("PyTuple_New" if "Tuple" in n else "PyList_New")):
                return [(st, c(0)), self.fail(st, c(-1))]
            return [(st, c(0) if e.get("t") == "int" else None)]
        if n in ("PyModule_AddObject",):
            f = self.fail(st, c(-1))
            a = args[2]
            if self.tracked(a):
                self.adj(E, st, a, -1, e)
                self.hold(st, a)
            return [(st, c(0)), f]
        if n in ("PyList_Append", "PyDict_SetItem", "PyDict_SetItemString", "PySet_Add", "PyObject_SetAttr", "PyObject_SetAttrString",
                 "PyObject_SetItem", "PySequence_SetItem", "PyList_Insert", "PyModule_AddObjectRef"):
            f = self.fail(st, c(-1))
            for a in args[1:]:
                if self.tracked(a):
                    self.hold(st, a)
                    if n.startswith("PyDict_Set") and a is args[-1] and not (issym(a) and root(a)[0] == "O" and str(root(a)[1]).startswith("PyLong_From")):
                        self.__dict__.setdefault("dictvals", set()).add(E.fr.fn["q"])
            return [(st, c(0)), f]
        # buffers
        if n == "PyObject_GetBuffer":
            f = self.fail(st, c(-1))
            if args[1].k == "addr":
                v = self.fresh(E, st, e, "O", "buffer")
                self.put(st, v, 1)
                E.setcell(st, args[1].a[0], sy("bufmem", v))
                E.setcell(st, args[1].a[0] + (".obj",), v)
            return [(st, c(0)), f]
        if n == "PyBuffer_Release":
            v = E.rawread(st, args[0].a[0] + (".obj",)) if args[0].k == "addr" else None
            if v is not None and self.tracked(v):
                self.adj(E, st, v, -1, e)
            return [(st, None)]
        if n in BORROW:
            err, nul = BORROW[n]
            out = []
            if nul:
                out.append((st.copy(), NULL))
            if err:
                out.append(self.fail(st, NULL))
            v = self.fresh(E, st, e, "B", "own" if self.ownmap(args[0] if args else None) else n)
            return out + [(st, v)]
        if n == "PyIter_Next":
            ok, v = self.newobj(E, st, e, n)
            return [(ok, v), (st.copy(), NULL), self.fail(st, NULL)]
        if n in ("PyBytes_AsString", "PyUnicode_AsUTF8", "PyBytes_AS_STRING", "PyUnicode_AsUTF8AndSize"):
            v = sy("I", args[0], site)
            if n == "PyBytes_AS_STRING":
                return [(st, v)]
            return [(st, v), self.fail(st, NULL)]
        if n in ("PyObject_IsTrue", "PyObject_Not", "PyObject_RichCompareBool", "PySequence_Contains", "PyDict_Contains"):
            return [(st.copy(), c(0)), (st.copy(), c(1)), self.fail(st, c(-1))]
        t = e.get("t", "")
        if QUIET.match(n) and not PYOBJ.search(t):
            if t == "void":
                return [(st, None)]
            m = re.match(r"(Py\w+?)_Check(Exact)?$", n)
            if m and args:
                return [(st, op("pytype", args[0], sy("G0", m.group(1))))]
            return [(st, sy("N0", site))]
        if PYOBJ.search(t):
            fi = {"Py_BuildValue": 0, "PyObject_CallFunction": 1, "PyObject_CallMethod": 2}.get(n)
            if fi is not None and len(args) > fi and isc(args[fi]) and isinstance(args[fi].a[1], str):
                # the objects behind a format: 'N' takes the reference over
                i = fi
                for u in re.findall(r"[a-zA-Z]#?", args[fi].a[1]):
                    i += 2 if u.endswith("#") else 1
                    if i >= len(args):
                        self.flag(E, "argument formats match", e, "the format %r has more units than there are values" % args[fi].a[1])
                        break
                    if u[0] in "ON" and self.null(E, st, args[i]) is not False:
                        pass        # becomes a failure of the call itself
                    elif u == "N" and self.tracked(args[i]):
                        self.adj(E, st, args[i], -1, e)
                        self.hold(st, args[i])
            ok, v = self.newobj(E, st, e, n)
            return [(ok, v)] + ([] if n in NOFAIL else [self.fail(st, NULL)])
        if t == "void":
            return [(st, None)]
        if t.endswith("*"):
            return [(st, sy("A?", n, site))]
        if re.match(r"Py\w+_As\w+$", n) or n in ("PyObject_Length", "PyObject_Size", "PySequence_Size", "PyMapping_Size", "PySequence_Length", "PyObject_Hash", "PyObject_LengthHint"):
            v = sy("N", site, n)
            self.renew(st, v)
            bad = c(-1.0) if t == "double" else c(-1) if "unsigned" not in t else c(2**64 - 1)
            a = args[0]
            if issym(a) and root(a)[0] == "B" and root(a)[1] == "own":
                return [(st, sy("N0", site))]
            if n == "PyFloat_AsDouble" and (issym(a) and root(a)[0] == "O" and root(a)[1] in ("PyNumber_Float", "PyFloat_FromDouble") or
                                            any(x and f.k == "op" and f.a[0] == "pytype" and f.a[1] is a and "PyFloat" in str(f.a[2]) for f, x in st.facts.items())):
                return [(st, v)]
            if n in ("PyObject_Length", "PyObject_Size", "PySequence_Size"):
                st.facts[op("<", v, c(0))] = False
            return [(st, v), self.fail(st, bad)]
        if t in ("int", "long", "Py_ssize_t"):
            return [(st, c(0)), self.fail(st, c(-1))]
        return [(st, top())]

    def ownmap(self, a):
        """the attribute table made by the wrapper itself"""
        return issym(a) and len(a.a[0]) == 2 and self.isfield(a) and a.a[0][1] in OWNMAPS(self.P)

    def decref(self, E, st, e, v):
        if v is None or self.null(E, st, v) is True:
            return [(st, None)]
        if self.dealloc and gc_type(self.P, self.entry) and not st.cl.untracked and self.isfield(v):
            self.flag(E, "a dying object is first taken from the garbage collector", e, "members are released before PyObject_GC_UnTrack()")
        last = self.tracked(v) and self.get(st, v) == 1 and v not in st.cl.held and issym(v) and root(v)[0] == "O"
        if last and root(v)[1] == "tp_alloc":
            # the object dies: its tp_dealloc runs
            self.put(st, v, 0)
            f = self.P.funcs.get(typevars(self.P).get(root(v)[3], {}).get("tp_dealloc"))
            if f is not None:
                out = []
                n = len(E.exc)
                for s, _ in E.call_fn(f, st.copy(), None, [v], e):
                    s.cl = s.cl._replace(dead=s.cl.dead | {v})
                    out.append((s, None))
                return out
        self.adj(E, st, v, -1, e)
        return [(st, None)]

    def parse(self, E, st, e, n, args):
        site = self.site(e)
        f = self.fail(st, c(0))
        fi = 2 if n == "PyArg_ParseTupleAndKeywords" else 1
        fmt = args[fi].a[1] if len(args) > fi and isc(args[fi]) and isinstance(args[fi].a[1], str) else None
        outs = args[fi + 2:] if n == "PyArg_ParseTupleAndKeywords" else args[fi + 1:]
        if fmt is None:
            return [(st, c(1)), f]
        units = re.findall(r"O!|O&|s#|z#|y#|s\*|z\*|y\*|[|$:;]|[a-zA-Z]", re.split(r"[:;]", fmt)[0])
        sts = [st]
        opt = False
        i = 0
        for u in units:
            if u in "|$":
                opt = opt or u == "|"
                continue
            if i >= len(outs):
                self.flag(E, "argument formats match", e, "the format %r has more units than there are variables" % fmt)
                break
            if u == "O!":
                i += 1
            if u == "O&":
                i += 1
            a = outs[i]
            i += 1
            nx = []
            for s in sts:
                if a is None or a.k != "addr":
                    nx.append(s)
                    continue
                loc = a.a[0]
                if u in ("O", "O!", "S", "U"):
                    cur = E.rawread(s, loc)
                    if opt and (E.truth(s, cur) is not True):
                        nx.append(s.copy())
                    v = sy("A", site, i)
                    s = s.copy()
                    E.setcell(s, loc, v)
                    s.facts[v] = True
                    if u == "O!":
                        s.facts[op("pytype", v, outs[i - 2])] = True
                elif u[0] in "zsy":
                    v = sy("A?" if u[0] == "z" else "A", "string", site, i)
                    s = s.copy()
                    if opt and u[0] != "z" and E.truth(s, E.rawread(s, loc)) is not True:
                        nx.append(s.copy())
                    E.setcell(s, loc, v)
                    if u[0] != "z":
                        s.facts[v] = True
                    if u.endswith("#"):
                        i += 1
                else:
                    s = s.copy()
                    w = {"k": "unsigned long", "l": "long", "i": "int", "I": "unsigned int", "H": "unsigned short", "h": "short", "d": "double",
                         "f": "float", "n": "long", "K": "unsigned long", "L": "long", "p": "int", "b": "unsigned char", "B": "unsigned char"}.get(u)
                    x = e["args"][fi + 1 + i] if n == "PyArg_ParseTupleAndKeywords" and fi + 1 + i < len(e["args"]) else \
                        e["args"][fi + i] if fi + i < len(e["args"]) else {}
                    got = strip_cv(x.get("t", "").rstrip("*").rstrip()) if x.get("t", "").endswith("*") else None
                    if w and got and norm(got) != norm(w):
                        self.flag(E, "argument formats match", e, "format unit '%s' (%s) is stored into a variable of type %s" % (u, w, got))
                    E.setcell(s, loc, sy("K", site, i))
                nx.append(s)
            sts = nx
        if i != len(outs):
            self.flag(E, "argument formats match", e, "the format %r has fewer units than there are variables" % fmt)
        return [(s, c(1)) for s in sts] + [f]


def norm(t):
    return {"unsigned long long": "unsigned long", "long long": "long"}.get(t, t)


def name(v):
    if v.k == "addr":
        return "the object made at " + v.a[0][0][1]
    if issym(v):
        r = root(v)
        if r[0] == "O":
            return "the result of %s" % r[1].replace("cpp:", "a call returning a new ") if isinstance(r[1], str) else "a new object"
        if r[0] == "D" and len(v.a[0]) == 2:
            return "member '%s'" % v.a[0][1][1:]
        if r[0] in ("A", "A?"):
            return "an argument"
        if r[0] == "B":
            return "a borrowed reference (%s)" % (r[1],)
        if r[0] == "I":
            return "a string inside " + name(r[1])
        if r[0] == "Param":
            return "parameter '%s'" % r[1]
    return show(v, 60)


def isnull(x):
    while x.get("k") in ("ICast", "Cast"):
        x = x["e"]
    return x.get("k") == "Lit" and (x.get("lt") == "null" or x.get("v") == 0)


def frompython(v):
    """computed from a number the caller passed"""
    if v is None or v.k == "op" and v.a[0] not in ("+", "-", "*", "/", "%", "&", "cast", "min", "max", "?:"):
        return False    # read back from a container: judged when it was stored
    return issym(v) and root(v)[0] in ("N", "K") or v.k == "op" and any(isinstance(x, V) and frompython(x) for x in v.a)


def mloc(loc, what):
    return any(p == (what,) or isinstance(p, tuple) and len(p) > 1 and isinstance(p[1], V) and mentionsroot(p[1], what) for p in loc if isinstance(p, tuple)) \
        or what == "dims" and any(p == ".dimensions" for p in loc)


def mentionsroot(v, what):
    if v is None:
        return False
    if v.k in ("init", "addr", "iter") and isinstance(v.a[0], tuple):
        for p in v.a[0]:
            if isinstance(p, tuple) and (p[0] == what or any(isinstance(x, V) and mentionsroot(x, what) for x in p)):
                return True
    return any(isinstance(x, V) and mentionsroot(x, what) for x in v.a)


def mentionsraw(v):
    return mentionsroot(v, "raw")


def symbols(v, out, seen):
    if v is None or v in seen:
        return
    seen.add(v)
    if v.k in ("init", "addr", "iter") and isinstance(v.a[0], tuple):
        out.add(v)
        for p in v.a[0]:
            if isinstance(p, tuple):
                for x in p:
                    if isinstance(x, V):
                        symbols(x, out, seen)
        return
    for x in v.a:
        if isinstance(x, V):
            symbols(x, out, seen)


def mentions(v, s, memo):
    r = memo.get(v)
    if r is None:
        memo[v] = False
        r = v is s or any(isinstance(x, V) and mentions(x, s, memo) for x in v.a)
        if not r and v.k in ("init", "addr", "iter") and isinstance(v.a[0], tuple):
            r = any(isinstance(p, tuple) and any(isinstance(x, V) and mentions(x, s, memo) for x in p) for p in v.a[0])
        memo[v] = r
    return r


def walk(n):
    if isinstance(n, dict):
        yield n
        for x in n.values():
            if isinstance(x, (dict, list)):
                yield from walk(x)
    elif isinstance(n, list):
        for x in n:
            if isinstance(x, (dict, list)):
                yield from walk(x)


def inpy(fn):
    return "/python/flame/" in fn["f"]


def memo(f):
    def g(P, *a):
        d = P.__dict__.setdefault("_py_" + f.__name__, {})
        if a not in d:
            d[a] = f(P, *a)
        return d[a]
    return g


@memo
def throwing(P):
    """functions that can leave by a C++ exception (memory exhaustion aside)"""
    calls, T = {}, set()
    for u, f in P.funcs.items():
        cs = set()
        for x in walk([f.get("body"), f.get("inits")]):
            if x.get("k") == "Throw":
                T.add(u)
            if x.get("k") in ("Call", "Ctor") and "fn" in x:
                cs.add(x["fn"])
                if x.get("virt") and x.get("n") not in ("what",):
                    cs |= {P.resolve_virtual(x["fn"], t) for t in P.subclasses(strip_cv(x.get("cls", "")))}
            if x.get("k") == "Call" and x.get("n") == "at":
                T.add(u)
        calls[u] = cs
    while True:
        new = {u for u, cs in calls.items() if u not in T and cs & T}
        if not new:
            return T
        T |= new


@memo
def recursive(P):
    """functions of the boundary that can reach themselves"""
    calls = {}
    for u, f in P.funcs.items():
        if inpy(f) and "body" in f:
            cs = calls.setdefault(u, set())
            for x in walk(f["body"]):
                if x.get("k") == "Call" and "fn" in x:
                    cs.add(x["fn"])
                if x.get("k") == "Call" and x.get("n") == "apply_visitor":
                    for t in x.get("pt", []):
                        for m in P.classes.get(noptr(t), {}).get("methods", []):
                            if m["n"] == "operator()":
                                cs.add(m["usr"])
    out = set()
    for u in calls:
        seen, todo = set(), list(calls[u])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += calls.get(x, ())
        if u in seen:
            out.add(u)
    return out


def returns_null(P, fn):
    d = P.__dict__.setdefault("_py_nulls", {})
    if fn["usr"] not in d:
        d[fn["usr"]] = False        # inside its own body: what is shown here for the others
        d[fn["usr"]] = any(analyse(P, fn, "helper")[0].nullexit)
    return d[fn["usr"]]


@memo
def OWN(P):
    """the structures behind the Python objects: they start with a PyObject header"""
    return {t for t, k in P.classes.items() if any(f["n"] == "ob_base" for f in k.get("fields", [])[:1]) and "/python/flame/" in k.get("f", "")}


@memo
def FIELDS(P):
    """members holding a reference or owning an object (the weak reference list belongs to Python)"""
    weak = {x["n"] for x in weaklist(P)}
    r = set()
    for t in OWN(P):
        for f in P.classes[t]["fields"][1:]:
            if f["t"].endswith("*") and f["n"] not in weak:
                r.add(f["n"])
    return r


@memo
def weaklist(P):
    out = []
    for f in P.funcs.values():
        if inpy(f) and "body" in f:
            for x in walk(f["body"]):
                if x.get("k") == "Bin" and x.get("op") == "=" and x["a"].get("k") == "Mem" and x["a"].get("n") == "tp_weaklistoffset":
                    out += [{"n": y["n"]} for y in walk(x["b"]) if "n" in y and y.get("k") in ("OffsetOf", "Mem")]
                    if "off" in x["b"]:
                        out.append({"n": x["b"]["off"]})
    for t in OWN(P):
        out += [{"n": f["n"]} for f in P.classes[t]["fields"] if f["n"].startswith("weak")]
    return out


@memo
def OWNMAPS(P):
    """dictionary members filled only by the wrapper itself, with integers"""
    good = {}
    for f in P.funcs.values():
        if not (inpy(f) and "body" in f):
            continue
        for x in walk(f["body"]):
            if x.get("k") == "Call" and x.get("n") in ("PyDict_SetItem", "PyDict_SetItemString", "PyDict_Update", "PyDict_Merge") and x.get("args"):
                ms = [y["n"] for y in walk(x["args"][0]) if y.get("k") == "Mem"]
                if ms:
                    good.setdefault("." + ms[0], []).append(f)
    return set(good)


@memo
def slots(P):
    """entry functions: usr -> slot name"""
    out = {}
    for g in P.globals.values():
        if "/python/flame/" not in g.get("f", "") or not g.get("init"):
            continue
        for x in walk(g["init"]):
            if x.get("k") == "Ref" and x.get("dk") == "func":
                out[x["fn"]] = "method" if "MethodDef" in g.get("t", "") else "slot"
    for f in P.funcs.values():
        if not (inpy(f) and "body" in f):
            continue
        for x in walk(f["body"]):
            if x.get("k") == "Bin" and x.get("op") == "=" and x["a"].get("k") == "Mem" and x["a"]["n"].startswith(("tp_", "sq_", "mp_", "nb_", "am_")):
                for y in walk(x["b"]):
                    if y.get("k") == "Ref" and y.get("dk") == "func":
                        out[y["fn"]] = x["a"]["n"]
        if f["n"].startswith("PyInit_"):
            out[f["usr"]] = "init"
    return {u: s for u, s in out.items() if u in P.funcs and "body" in P.funcs[u]}


@memo
def typevars(P):
    """PyTypeObject variable -> {slot: function usr or flag values}"""
    out = {}
    for f in P.funcs.values():
        if not (inpy(f) and "body" in f):
            continue
        for x in walk(f["body"]):
            if x.get("k") == "Bin" and x.get("op") == "=" and x["a"].get("k") == "Mem" and x["a"]["n"].startswith("tp_"):
                b = x["a"]["b"]
                if b.get("k") == "Ref":
                    fn = next((y["fn"] for y in walk(x["b"]) if y.get("k") == "Ref" and y.get("dk") == "func"), None)
                    cv = x["b"].get("cv") or next((y["cv"] for y in walk(x["b"]) if "cv" in y), None)
                    out.setdefault(b.get("q", b["n"]), {})[x["a"]["n"]] = fn or cv or True
    return out


def typeof_entry(P, fn):
    """the type variable whose slots or methods lead to fn; methods by the file they are in"""
    for tv, sl in typevars(P).items():
        if fn["usr"] in sl.values():
            return tv
    for tv, sl in typevars(P).items():
        d = sl.get("tp_dealloc")
        if d in P.funcs and P.funcs[d]["f"] == fn["f"]:
            return tv


def gc_type(P, fn):
    sl = typevars(P).get(typeof_entry(P, fn), {})
    return "tp_traverse" in sl


RULES = ["errors are reported", "no C++ exception escapes", "no NULL is used", "objects of other types are refused",
         "element indices are checked", "integers are not cut off", "argument formats match", "a failed assignment changes nothing",
         "array shapes are compared"]
REFRULES = ["what is acquired is released", "released once", "nothing is used after its release", "observers do not outlive the call",
            "a dying object is first taken from the garbage collector"]


def entries(P):
    out = [(P.funcs[u], "helper") for u in sorted(recursive(P)) if not P.funcs[u]["n"].startswith("operator")]
    for u, slot in sorted(slots(P).items(), key=lambda x: (P.funcs[x[0]]["f"], P.funcs[x[0]]["l"])):
        out.append((P.funcs[u], slot))
    for cls, k in sorted(P.classes.items()):
        if "/python/flame/" not in k.get("f", ""):
            continue
        for m in k.get("methods", []):
            f = P.funcs.get(m["usr"])
            if f and "body" in f and m.get("over") and not m.get("dtor"):
                out.append((f, "callback"))
    return out


def analyse(P, fn, slot):
    """-> (client, engine)"""
    try:
        return analyse1(P, fn, slot, False)
    except (Broken, Budget):
        r = analyse1(P, fn, slot, True)
        if r[0].bad:
            return r
        raise


def analyse1(P, fn, slot, bounded):
    cl = Py(P, fn, slot)
    E = PyEngine(P, cl, cap=160, unroll=3, maxsteps=300000)
    E.bounded = bounded
    st = St()
    st.cl = START
    this = None
    args = []
    cl.nullexit = []
    if slot == "helper":
        args = [sy("X", "p", p["n"]) if p["t"].endswith("&") or not p["t"].endswith("*") else sy("A", p["n"]) for p in fn["params"]]
        for a in args:
            st.facts[a] = True
        args = [addr((("P", p["n"]),)) if p["t"].endswith("&") else a for a, p in zip(args, fn["params"])]
    elif slot == "callback":
        this = addr((("P", "this"),))
        args = [sy("X", "p", p["n"]) for p in fn["params"]]
        # reference members of the callback object are live
    else:
        cl.selfsym = sy("S0", "self")
        tv = typeof_entry(P, fn)
        for i, p in enumerate(fn["params"]):
            if i == 0:
                v = cl.selfsym
            elif p["t"].startswith("_object *"):
                q = i == 2 and (slot in ("method", "tp_init", "tp_new", "tp_call", "tp_setattro", "mp_ass_subscript", "sq_ass_item"))
                v = sy("A?" if q else "A", p["n"])
                if not q:
                    st.facts[v] = True
            else:
                v = sy("X", p["n"])
            args.append(v)
        sl = typevars(P).get(tv, {})
        if "tp_new" in sl:
            for t in OWN(P):
                if P.classes[t]["f"] == fn["f"]:
                    for f in P.classes[t]["fields"][1:]:
                        if f["t"].endswith("*") and f["n"] in FIELDS(P):
                            cl.maybe.add(init((("D", cl.selfsym), "." + f["n"])))
        if slot == "tp_dealloc":
            for t in OWN(P):
                if P.classes[t]["f"] == fn["f"]:
                    for f in P.classes[t]["fields"][1:]:
                        if f["n"] in FIELDS(P):
                            cl.put(st, init((("D", cl.selfsym), "." + f["n"])), 1)
    res = E.call_fn(fn, st, this, args)
    rt = strip_cv(fn["rt"])
    for s, v in res:
        cl.exits += 1
        judge(P, E, cl, fn, slot, rt, s, v)
    for x in E.exc:
        cl.exits += 1
        if slot not in ("callback", "helper") or slot == "callback" and callback_noexcept(P, fn):
            E.fr = None
            key = ("no C++ exception escapes", where(fn), "%s" % x.ty)
            w = where(x.fn, x.node) if x.fn and x.node and "l" in x.node and inpy(x.fn) else where(fn)
            cl.bad.setdefault(key, "%s: an exception (%s) leaves %s and ends the process" % (w, x.ty if x.ty != "?" else "of the library", sname(fn["q"])))
        leaks(E, cl, fn, x.st, "when it fails with an exception")
    return cl, E


def dimrange(a, b):
    """[a, b) covers all dimensions of an array"""
    return b is not None and b.k == "op" and b.a[0] == "+" and (b.a[1] is a and alldims(b.a[2]) or b.a[2] is a and alldims(b.a[1]))


def alldims(v):
    return v.k == "init" and v.a[0][-1] in (".ndim", ".nd")


def othersize(cond, body):
    """a loop counting the entries of some vector which takes the counter itself for an element index"""
    vec = [x for x in walk(cond) if x.get("k") == "Call" and x.get("n") == "size" and (x.get("q") or "").startswith("std::vector")
           and "Machine" not in (x.get("q") or "")] if cond else []
    if not vec or any(x.get("k") == "Call" and x.get("n") == "size" and (x.get("q") or "").startswith("Machine") for x in walk(cond)):
        return False
    for x in walk(body):
        if x.get("k") == "Call" and (x.get("q") or "").startswith("Machine::operator[]"):
            a = x["args"][-1] if x.get("args") else None
            while a and a.get("k") in ("ICast", "Cast", "Ld"):
                a = a["e"]
            if a and a.get("k") == "Ref" and any(y.get("k") == "Ref" and y.get("n") == a.get("n") for y in walk(cond)):
                return True
    return False


def unobserves(P, body, depth):
    for x in walk(body):
        if x.get("k") == "Call" and x.get("n") == "set_observer" and x.get("args") and isnull(x["args"][0]):
            return True
        if x.get("k") == "Call" and depth and "fn" in x:
            f = P.funcs.get(x["fn"])
            if f and "body" in f and inpy(f) and unobserves(P, f["body"], depth - 1):
                return True
    return False


def callback_noexcept(P, fn):
    """callbacks the library makes from a destructor"""
    over = set(P.overclosure(P.method(fn["usr"]))) | {fn["usr"]}
    for f in P.funcs.values():
        m = P.method(f["usr"])
        if m and m.get("dtor") and "body" in f:
            if reaches(P, f, over, 4):
                return True
    return False


def reaches(P, f, targets, depth):
    for x in walk(f.get("body")):
        if x.get("k") == "Call" and "fn" in x:
            if x["fn"] in targets:
                return True
            g = P.funcs.get(x["fn"])
            if depth and g and "body" in g and not x["fn"].startswith("c:@N@std") and reaches(P, g, targets, depth - 1):
                return True
    return False


def judge(P, E, cl, fn, slot, rt, s, v):
    def bad(rule, msg):
        cl.bad.setdefault((rule, where(fn), msg), "%s: %s" % (where(fn), msg))
    if slot == "callback":
        if s.cl.err:
            bad("errors are reported", "returns to the library with a Python error pending")
    elif slot == "tp_traverse":
        pass
    elif slot == "helper" and rt == "void":
        if s.cl.err:
            bad("errors are reported", "returns normally with a Python error pending")
    elif rt == "void":
        if s.cl.err and slot != "tp_dealloc":
            bad("errors are reported", "leaves a Python error pending")
    else:
        failed = v is not None and (E.truth(s, v) is False if rt.endswith("*") else v.k == "c" and v.a[1] in (-1, 2**64 - 1))
        cl.nullexit.append(failed)
        if failed and not s.cl.err:
            bad("errors are reported", "reports failure without a Python exception")
        if not failed and s.cl.err:
            bad("errors are reported", "returns a result although a Python error is pending (SystemError)")
        if failed and s.cl.wrote and slot in ("tp_setattro",):
            bad("a failed assignment changes nothing", "the state has been changed when the assignment fails")
        if rt.endswith("*") and cl.tracked(v) and not failed:
            if v in s.cl.dead:
                bad("nothing is used after its release", "%s is returned after its release" % name(v))
            else:
                cl.adj(E, s, v, -1, None)
    leaks(E, cl, fn, s, "")


def leaks(E, cl, fn, s, when):
    for v, n in s.cl.refs:
        if n > 0 and not (issym(v) and E.truth(s, v) is False):
            cl.bad.setdefault(("what is acquired is released", where(fn), name(v)),
                              "%s: %s is never released %s" % (where(fn), name(v), when))
        elif n < 0:
            cl.bad.setdefault(("released once", where(fn), name(v)),
                              "%s: %s is released by more than one owner %s" % (where(fn), name(v), when))
