"""Build the fact base: every C++ translation unit of /repo, type-checked by
clang and dumped as a resolved AST (tool/fdump.cc).  Nothing is executed."""
import fcntl, glob, hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
TOOLSRC = os.path.join(VERIF, "tool", "fdump.cc")
LLVM = "/usr/lib/llvm-18"


class Broken(Exception):
    """The analysis cannot give an answer (exit 2)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tool():
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "fdump-" + sha(rd(TOOLSRC)))
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = ["/usr/bin/g++", "-O1", "-std=c++17", "-fno-rtti", "-I%s/include" % LLVM,
           "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
           "-D__STDC_LIMIT_MACROS", TOOLSRC, "-o", tmp, "-L%s/lib" % LLVM,
           "-Wl,-rpath,%s/lib" % LLVM, "%s/lib/libclang-cpp.so.18.1" % LLVM, "-lLLVM-18"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("cannot build the AST dumper: " + r.stdout[-2000:])
    os.replace(tmp, out)
    return out


def sources():
    def nontest(p):
        b = os.path.basename(p)
        return not (b.startswith("test_") or b.endswith("test.cpp"))
    core = [p for p in sorted(glob.glob(REPO + "/src/*.cpp")) if nontest(p)]
    py = [p for p in sorted(glob.glob(REPO + "/python/flame/*.cpp")) if nontest(p)]
    tl = [p for p in sorted(glob.glob(REPO + "/tools/*.cpp")) if nontest(p)]
    return core, py, tl


def tree_hash():
    h = []
    for d in ("src", "python", "tools"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cpp", ".h", ".hpp", ".c", ".cc", ".y", ".l", ".hh", ".ipp", ".inc")):
                    p = os.path.join(root, f)
                    h.append(p.encode())
                    h.append(rd(p))
    return sha("facts 2", rd(TOOLSRC), *h)


FLAGS = ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-std=gnu++17", "-DUSE_HDF5",
         "-DNDEBUG", "-I/usr/include/hdf5/serial", "-w",
         "-I/usr/lib/python3/dist-packages/numpy/core/include", "-I/usr/include/python3.12"]


def dump():
    """-> directory with one JSON per TU, for the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return dump_locked()


def dump_locked():
    key = tree_hash()
    out = os.path.join(CACHE, "facts-" + key)
    if os.path.exists(os.path.join(out, "ok")):
        return out
    t = tool()
    tmp = tempfile.mkdtemp(prefix="facts-", dir=CACHE)
    try:
        gen = os.path.join(tmp, "gen")
        os.makedirs(gen)
        for cmd in (["bison", "--xml=glps.xml", "-o", "glps.par.c", "--defines=glps.par.h", REPO + "/src/glps.y"],
                    ["flex", "-o", "glps.tab.c", "--header-file=glps.tab.h", REPO + "/src/glps.l"]):
            r = subprocess.run(cmd, cwd=gen, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise Broken(" ".join(cmd) + ": " + r.stdout[-2000:])
        core, py, tl = sources()
        files = core + py + tl + [gen + "/glps.par.c", gen + "/glps.tab.c"]

        def one(i):
            p = files[i]
            o = os.path.join(tmp, "tu%02d.json" % i)
            args = [t, o, REPO + "," + gen, "--", p] + FLAGS + ["-I" + REPO + "/src", "-I" + gen]
            if p.endswith(".c"):
                args = [a for a in args if not a.startswith("-std=")]
            r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode or not os.path.exists(o):
                raise Broken("clang cannot analyse %s: %s" % (p, r.stdout[-3000:]))
            return o
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, range(len(files))))
        with open(os.path.join(tmp, "files"), "w") as f:
            json.dump([p.replace(tmp, "<gen>") for p in files], f)
        open(os.path.join(tmp, "ok"), "w").close()
        if os.path.exists(out):
            shutil.rmtree(tmp)
        else:
            os.rename(tmp, out)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    # keep the cache small
    ents = sorted((os.path.getmtime(os.path.join(CACHE, e)), e) for e in os.listdir(CACHE) if e.startswith("facts-"))
    for _, e in ents[:-10]:
        if os.path.join(CACHE, e) != out:
            shutil.rmtree(os.path.join(CACHE, e), ignore_errors=True)
    return out


class Program:
    def __init__(self):
        self.funcs = {}      # usr -> record
        self.classes = {}    # type string -> record
        self.cls_by_usr = {}
        self.globals = {}    # usr -> record
        self.enums = []
        self.tus = []
        self.derived = {}    # class type -> [direct derived]
        self.files = []
        self.tk = {}         # type -> 0 scalar 1 record 2 enum 3 array 4 reference 5 pointer

    def fn(self, q, nparams=None):
        r = [f for f in self.funcs.values() if f["q"] == q and (nparams is None or len(f["params"]) == nparams)]
        return r

    def load(self, d):
        self.dir = d
        files = json.load(open(os.path.join(d, "files")))
        self.files = files
        for i, p in enumerate(files):
            tu = json.load(open(os.path.join(d, "tu%02d.json" % i)))
            b = os.path.basename(p)
            anon = "(anonymous namespace)"
            types = [t.replace(anon, "(anon:%s)" % b) for t in tu["types"]]
            for t, k in zip(types, tu["tk"]):
                self.tk[t] = k

            def conv(o):
                if isinstance(o, dict):
                    for k, v in o.items():
                        if k in TYKEYS and isinstance(v, int) and not isinstance(v, bool):
                            o[k] = types[v] if v >= 0 else ""
                        elif k in TYLIST and isinstance(v, list):
                            o[k] = [(types[x] if x >= 0 else "") if isinstance(x, int) else x for x in v]
                        elif isinstance(v, (dict, list)):
                            conv(v)
                elif isinstance(o, list):
                    for x in o:
                        if isinstance(x, (dict, list)):
                            conv(x)
            conv(tu["functions"]); conv(tu["classes"]); conv(tu["globals"])
            self.tus.append((p, len(tu["functions"])))
            for f in tu["functions"]:
                f["tu"] = p
                for k in ("q", "full"):
                    if k in f:
                        f[k] = f[k].replace(anon, "(anon:%s)" % b)
                o = self.funcs.get(f["usr"])
                if o is None or ("body" not in o and "body" in f):
                    self.funcs[f["usr"]] = f
            for c in tu["classes"]:
                c["tu"] = p
                c["q"] = c["q"].replace(anon, "(anon:%s)" % b)
                if c["ty"] not in self.classes or len(c.get("methods", [])) > len(self.classes[c["ty"]].get("methods", [])):
                    self.classes[c["ty"]] = c
                self.cls_by_usr[c["usr"]] = c
            for e in tu.get("enums", []):
                e["tu"] = p
                e["q"] = e["q"].replace(anon, "(anon:%s)" % b)
                self.enums.append(e)
            for g in tu["globals"]:
                g["tu"] = p
                g["q"] = g["q"].replace(anon, "(anon:%s)" % b)
                o = self.globals.get(g["usr"])
                if o is None or ("init" not in o and "init" in g):
                    self.globals[g["usr"]] = g
        for c in self.classes.values():
            for b in c.get("bases", []):
                self.derived.setdefault(btype(b), []).append(c["ty"])
        return self

    # ---- class helpers
    def bases(self, ty):
        c = self.classes.get(ty)
        return [btype(b) for b in c.get("bases", [])] if c else []

    def ancestors(self, ty):
        out, todo = [], [ty]
        while todo:
            t = todo.pop()
            if t in out:
                continue
            out.append(t)
            todo += self.bases(t)
        return out

    def subclasses(self, ty):
        out, todo = [], [ty]
        while todo:
            t = todo.pop()
            if t in out:
                continue
            out.append(t)
            todo += self.derived.get(t, [])
        return out

    def allfields(self, ty):
        """[(declaring class, field record)] including bases."""
        out = []
        c = self.classes.get(ty)
        if not c:
            return out
        for b in self.bases(ty):
            out += self.allfields(b)
        out += [(ty, f) for f in c.get("fields", [])]
        return out

    def resolve_virtual(self, usr, dyn):
        """method usr called on dynamic class dyn -> final overrider usr"""
        for t in self.linear(dyn):
            c = self.classes.get(t)
            if not c:
                continue
            for m in c.get("methods", []):
                if m["usr"] == usr or usr in self.overclosure(m):
                    return m["usr"]
        return usr

    def linear(self, ty):
        out, todo = [], [ty]
        while todo:
            t = todo.pop(0)
            if t not in out:
                out.append(t)
                todo += self.bases(t)
        return out

    def overclosure(self, m):
        out, todo = set(), list(m.get("over", []))
        while todo:
            u = todo.pop()
            if u in out:
                continue
            out.add(u)
            mm = self.method(u)
            if mm:
                todo += mm.get("over", [])
        return out

    def method(self, usr):
        if not hasattr(self, "_m"):
            self._m = {}
            for c in self.classes.values():
                for m in c.get("methods", []):
                    self._m[m["usr"]] = m
                    m["cls"] = c["ty"]
        return self._m.get(usr)


def btype(b):
    return b["t"] if isinstance(b, dict) else b


TYKEYS = {"t", "cls", "rt", "ty", "vt", "objt", "tt", "at", "ft", "base", "dt"}
TYLIST = {"pt", "ta", "bases"}


def program():
    return Program().load(dump())
