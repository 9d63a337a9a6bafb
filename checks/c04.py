"""C04: configurations are values: changing one never changes another.

A Config holds shared pointers to its parameter maps.  Every method is interpreted
with the maps it starts with considered shared; a mutation of a map is allowed only
when the map was allocated in the method (and given to one holder at most) or is
known to have no other holder (unique/use_count tested on this path)."""
import re
from absint import *
from common import *

MUT = ("insert", "erase", "clear", "swap", "emplace", "emplace_hint", "insert_or_assign", "try_emplace", "merge", "assign", "operator[]", "operator=")


def ptr_fields(P):
    r = {}
    for f in P.classes["Config"]["fields"]:
        m = re.match(r"(boost|std)::shared_ptr<(.*)>$", f["t"])
        if m:
            r[f["n"]] = m.group(2)
    return r


class Cow(Client):
    def __init__(self, P, fields):
        self.P, self.fields = P, fields
        self.bad = []
        self.writes = 0

    def holders(self, E, st, target):
        n = 0
        for root, cells in st.mem.items():
            for path, v in cells.items():
                if path and path[-1].lstrip(".") in self.fields and v.k == "addr" and v.a[0] == target:
                    n += 1
        return n

    def alone(self, E, st, p):
        u = E.truth(st, op("unique", p))
        if u is True:
            return True
        uc = op("use_count", p)
        for f, val in ((op("==", uc, c(1)), True), (op(">", uc, c(1)), False), (op("<=", uc, c(1)), True), (op("<", uc, c(2)), True),
                       (op("!=", uc, c(1)), False), (op(">=", uc, c(2)), False)):
            if E.truth(st, f) is val:
                return True
        return False

    def on_write(self, E, st, loc, val, node):
        if E.probing:
            return
        root = loc[0]
        if root[0] == "D":
            p = root[1]
            if p.k == "init" and len(p.a[0]) > 1 and p.a[0][-1].lstrip(".") in self.fields and p.a[0][0][0] == "P":
                self.writes += 1
                if not self.alone(E, st, p):
                    self.bad.append((node, E.fr.fn, "the map behind %s, which other configurations may share" % show(p)))
                else:
                    # somebody else was given the pointer meanwhile
                    n = sum(1 for r, cells in st.mem.items() for path, v in cells.items()
                            if v is p and path and path[-1].lstrip(".") in self.fields and (r,) + path != p.a[0])
                    if n:
                        self.bad.append((node, E.fr.fn, "the map behind %s after it was shared" % show(p)))
        elif root[0] == "H":
            if self.holders(E, st, (root,)) > 1:
                self.writes += 1
                self.bad.append((node, E.fr.fn, "a map that two configurations hold"))


def run(P, R):
    R.explain = ("ownership analysis: every method of the configuration class is interpreted with its parameter maps shared; a map may be "
                 "mutated only where it is provably held by this configuration alone")
    fields = ptr_fields(P)
    R.floor("shared_map_members", len(fields), 2)
    ms = [f for f in P.funcs.values() if f["q"].startswith("Config::") and f.get("method") and "body" in f
          and not f.get("dtorf") and not f["q"].split("::")[-1].startswith("~")]
    R.floor("config_methods", len(ms), 15)
    nw = 0
    for f in sorted(ms, key=lambda f: f["l"]):
        cl = Cow(P, fields)
        E = Engine(P, cl)
        st = St()
        args = []
        for p in f["params"]:
            l = (("P", p["n"] or "arg"),)
            args.append(addr(l) if p["t"].endswith("&") or E.isrec(p["t"]) else init(l))
        E.call_fn(f, st, addr((("P", "conf"),)), args)
        nw += cl.writes
        label = "%s (%s)" % (f["full"] if "full" in f else f["q"], relfile(f["f"]))
        R.ob("shared parameters are never modified", label, not cl.bad,
             "%s: writes %s" % (where(cl.bad[0][1], cl.bad[0][0]) if cl.bad and cl.bad[0][0] else where(f), cl.bad[0][2] if cl.bad else ""),
             key="cow %s" % f["q"])
        if f.get("access", 0) == 0:
            rt = f["rt"]
            bad = (rt.endswith(("&", "*")) and not rt.startswith("const ") and noptr(rt) != "Config") or re.search(r"_Rb_tree_iterator<", rt)
            R.ob("no writable access to parameters is handed out", label, not bad,
                 "%s: returns %s, a writable handle to parameters other configurations may share" % (where(f), rt))
    R.floor("guarded_map_writes", nw, 1)
    # the class holds no other mutable shared storage
    for f in P.classes["Config"]["fields"]:
        raw = f["t"].endswith("*") or f["t"].endswith("&")
        R.ob("no raw shared storage", f["n"], not raw, "Config::%s is a raw pointer to shared storage" % f["n"])
        if f["n"] in fields:
            continue
    R.assume += ["maps are reachable only through the private shared pointers (compiler-enforced)", "single-threaded use of one Config object"]
