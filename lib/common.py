import os, re
from facts import Broken, REPO
from absint import *


def one(P, q, nparams=None):
    r = [f for f in P.fn(q, nparams) if "body" in f]
    if not r:
        raise Broken("function %s not found" % q)
    return r[0]


def sname(t):
    return t.replace("(anon:", "(").split("(")[-1] if False else re.sub(r"\(anon:[^)]*\)::", "", t)


def relfile(f):
    return os.path.relpath(f, REPO) if f.startswith(REPO) else os.path.basename(f)


def noptr(t):
    t = strip_cv(t)
    while t.endswith("*") or t.endswith("&"):
        t = strip_cv(t[:-1].rstrip())
    return t


def elem_access(node):
    return node.get("op") in ("[]", "()", "*", "->") or node.get("n") in ("at", "begin", "end", "size", "size1", "size2", "empty", "get")


def E_elements_loc(P):
    """the Machine member that stores the elements (vector of ElementVoid*)"""
    for f in P.classes["Machine"]["fields"]:
        if re.match(r"std::vector<.*ElementVoid \*", f["t"]):
            return "." + f["n"]
    raise Broken("Machine has no vector of elements")


def same_content(P, E, st, ty, loc, want, exempt=()):
    """aggregate equality, member by member"""
    c = P.classes.get(strip_cv(ty))
    if not c:
        return False
    ok = False
    for _, f in P.allfields(strip_cv(ty)):
        if f["n"] in exempt:
            continue
        got = E.read(st, loc + ("." + f["n"],))
        w = project(want, ("." + f["n"],))
        if got is not w and not same_content(P, E, st, f["t"], loc + ("." + f["n"],), w):
            return False
        ok = True
    return ok


def where(fn, node=None):
    return "%s:%s (%s)" % (relfile(fn["f"]), node["l"] if node else fn["l"], sname(fn["q"]))
