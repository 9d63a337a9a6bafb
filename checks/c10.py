"""C10: whatever a Python caller does wrong ends as a Python exception.

Every function Python can call (method tables, type slots, module init) and every callback the library makes
into Python is interpreted with the Python API split into success and failure (lib/pyapi.py)."""
from common import *
import pyapi


def run(P, R, rules=None):
    rules = rules or pyapi.RULES
    R.explain = "every path, with every API call able to fail, through every function of the Python module reachable from Python"
    ents = pyapi.entries(P)
    calls = exits = 0
    for fn, slot in ents:
        cl, E = pyapi.analyse(P, fn, slot)
        calls += len(cl.callsites)
        exits += cl.exits
        for r in rules:
            bad = [t for (rule, _, _), t in cl.bad.items() if rule == r]
            if not bad:
                R.ob(r, sname(fn["q"]), True)
            for t in bad:
                R.ob(r, "%s: %s" % (sname(fn["q"]), t.split(": ", 1)[-1]), False, t)
    R.floor("entry_functions", len(ents), 20)
    R.floor("api_calls", calls, 150)
    R.floor("path_ends", exits, 500)
