"""Linear integer facts: entailment by Fourier-Motzkin elimination over a handful of constraints.
A constraint is ({var: coef}, k) meaning sum(coef*var) + k <= 0."""
from fractions import Fraction
from absint import isc, c

ZERO = c(0)


def form(v):
    """linear form of an abstract integer value -> ({atom: coef}, const)"""
    if isc(v) and isinstance(v.a[1], (int, bool)):
        return {}, int(v.a[1])
    if v.k == "op":
        o = v.a[0]
        if o in ("+", "-") and len(v.a) == 3:
            a, ka = form(v.a[1])
            b, kb = form(v.a[2])
            s = 1 if o == "+" else -1
            r = dict(a)
            for x, q in b.items():
                r[x] = r.get(x, 0) + s * q
            return {x: q for x, q in r.items() if q}, ka + s * kb
        if o in ("neg", "u-") or (o == "-" and len(v.a) == 2):
            a, k = form(v.a[1])
            return {x: -q for x, q in a.items()}, -k
        if o == "*" and isc(v.a[2]) and isinstance(v.a[2].a[1], int):
            a, k = form(v.a[1])
            m = v.a[2].a[1]
            return {x: q * m for x, q in a.items() if m}, k * m
    return {v: 1}, 0


def sub(f, g):
    r = dict(f[0])
    for x, q in g[0].items():
        r[x] = r.get(x, 0) - q
    return {x: q for x, q in r.items() if q}, f[1] - g[1]


def lt(a, b):       # a < b   (integers)
    f = sub(form(a), form(b))
    return f[0], f[1] + 1


def le(a, b):
    return sub(form(a), form(b))


def facts_of(facts):
    cs = []
    for f, t in facts.items():
        if f.k != "op":
            continue
        if f.a[0] == "<":
            cs.append(lt(f.a[1], f.a[2]) if t else le(f.a[2], f.a[1]))
        elif f.a[0] == "==" and t:
            cs += [le(f.a[1], f.a[2]), le(f.a[2], f.a[1])]
    # x known to be zero (canonical form of x == 0 is "not x")
    for f, t in facts.items():
        if not t and not (f.k == "op" and f.a[0] in ("<", "==")) and f.k in ("init", "op"):
            cs += [form(f), tuple(({x: -q for x, q in form(f)[0].items()}, -form(f)[1]))]
    return cs


def infeasible(cs):
    cs = [(dict(a), k) for a, k in cs]
    while True:
        for a, k in cs:
            if not a and k > 0:
                return True
        cs = [(a, k) for a, k in cs if a]
        if not cs:
            return False
        # eliminate the atom with the fewest products
        cnt = {}
        for a, _ in cs:
            for x, q in a.items():
                p = cnt.setdefault(x, [0, 0])
                p[q > 0] += 1
        x = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1])
        pos = [(a, k) for a, k in cs if a.get(x, 0) > 0]
        neg = [(a, k) for a, k in cs if a.get(x, 0) < 0]
        rest = [(a, k) for a, k in cs if not a.get(x)]
        if len(pos) * len(neg) > 400:
            return False
        new = {}
        for a, k in pos:
            for b, j in neg:
                p, q = Fraction(a[x]), Fraction(-b[x])
                r = {}
                for y in set(a) | set(b):
                    if y is x:
                        continue
                    z = q * a.get(y, 0) + p * b.get(y, 0)
                    if z:
                        r[y] = z
                kk = q * k + p * j
                new[(frozenset((id(y), z) for y, z in r.items()), kk)] = (r, kk)
        cs = rest + list(new.values())


def relevant(cs, goal):
    """constraints connected with the goal"""
    seen = set(goal[0])
    out, todo = [], list(cs)
    ch = True
    while ch:
        ch = False
        for t in list(todo):
            if any(x in seen for x in t[0]):
                todo.remove(t)
                out.append(t)
                seen |= set(t[0])
                ch = True
    return out


def prove(cs, goal):
    neg = ({x: -q for x, q in goal[0].items()}, -goal[1] + 1)
    return infeasible(relevant(cs, neg) + [neg])


def close(facts, cs):
    """x != y together with x <= y gives x < y"""
    ne = []
    for f, t in facts.items():
        if f.k == "op" and f.a[0] == "==" and not t:
            ne.append((f.a[1], f.a[2]))
        elif t and f.k in ("init", "op") and not (f.k == "op" and f.a[0] in ("<", "==")):
            ne.append((f, ZERO))
    for a, b in ne:
        if prove(cs, le(a, b)):
            cs.append(lt(a, b))
        elif prove(cs, le(b, a)):
            cs.append(lt(b, a))
    return cs


def entails(facts, goal, extra=()):
    """do the facts imply goal (a constraint)?"""
    cs = close(facts, facts_of(facts) + list(extra))
    neg = ({x: -q for x, q in goal[0].items()}, -goal[1] + 1)
    cs = relevant(cs, neg)
    return infeasible(cs + [neg])


def feasible(facts, extra=()):
    return not infeasible(close(facts, facts_of(facts) + list(extra)))
