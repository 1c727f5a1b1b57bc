"""Linear arithmetic over monomials: refutes a set of polynomial inequalities
by an exact non-negative combination of them (and of a few products of them)
that is a negative constant.  All arithmetic is over the integers."""
from math import gcd
from . import terms as T
from .terms import Poly

STATS = [0, 0, 0]


def _mono_bound(F, m):
    l = h = 1
    for i in m:
        a, b = F.atom(i)
        if a is None or a < 0:
            return None, None
        l = l * a
        h = None if (h is None or b is None) else h * b
    return l, h


def farkas(rows, limit=400):
    """rows: list of dicts monomial -> int, each denoting p >= 0.
    True when some non-negative combination is a negative constant."""
    mons = {}
    for r in rows:
        for m in r:
            if m != () and m not in mons:
                mons[m] = len(mons)
    n = len(rows)
    k = len(mons)
    # tableau rows: for each monomial sum lam_i*a_i = 0; last: sum lam_i*(-b_i) = 1
    tab = [dict() for _ in range(k + 1)]
    for j, r in enumerate(rows):
        for m, c in r.items():
            if m == ():
                tab[k][j] = -c
            else:
                tab[mons[m]][j] = c
    R = n          # right-hand side column
    tab[k][R] = 1
    # phase 1 with artificial basis: only the last row is infeasible at the start (rhs 1), the others are degenerate (rhs 0)
    basis = [None] * (k + 1)
    # objective: minimise sum of artificials = sum of rows without a structural basis
    it = 0
    while True:
        it += 1
        if it > limit:
            return None
        # reduced costs: sum over artificial rows, each normalised (row i means artificial_i = rhs - row)
        # artificial rows with rhs 0 are pivoted out first on any column (degenerate pivots keep feasibility)
        done = True
        for i in range(k):
            if basis[i] is None and tab[i]:
                # choose a column for this zero row: any pivot keeps rhs >= 0 only if rhs_i == 0
                if tab[i].get(R, 0) == 0:
                    cols = [j for j in tab[i] if j != R]
                    if not cols:
                        tab[i] = {}
                        continue
                    j = min(cols, key=lambda j: (sum(1 for r in tab if j in r), j))
                    _pivot(tab, i, j)
                    basis[i] = j
                    done = False
                    break
        if done:
            break
    # now only the last row is artificial
    STATS[1] += 1
    last = k
    for it in range(limit):
        row = tab[last]
        if row.get(R, 0) == 0:
            return True
        # entering: positive coefficient in the last row (rhs > 0); Bland
        # last row: art = rhs - sum row_j lam_j, rows normalised so that rhs >= 0
        cands = [j for j, c in row.items() if j != R and c > 0]
        if not cands:
            return False
        ent = min(cands) if it > 40 else max(cands, key=lambda j: (row[j], -j))
        best = None
        for i in range(k + 1):
            c = tab[i].get(ent, 0)
            if c > 0:
                b = tab[i].get(R, 0)
                if best is None or b * best[1] < best[0] * c or (b * best[1] == best[0] * c and (basis[i] if basis[i] is not None else -1) < best[3]):
                    best = (b, c, i, basis[i] if basis[i] is not None else -1)
        i = best[2]
        STATS[2] += 1
        _pivot(tab, i, ent)
        basis[i] = ent
        if i == last:
            return True
    return None


def _pivot(tab, i, j):
    r = tab[i]
    p = r[j]
    if p < 0:
        r = tab[i] = {a: -b for a, b in r.items()}
        p = -p
    for q in range(len(tab)):
        if q == i:
            continue
        s = tab[q]
        c = s.get(j)
        if not c:
            continue
        g = gcd(p, c)
        x, y = p // g, c // g
        t = {a: b * x for a, b in s.items()}
        for a, b in r.items():
            v = t.get(a, 0) - b * y
            if v:
                t[a] = v
            else:
                t.pop(a, None)
        g = 0
        for v in t.values():
            g = gcd(g, v)
            if g == 1:
                break
        if g > 1:
            t = {a: b // g for a, b in t.items()}
        tab[q] = t


MAXROWS = 70
WIDE = False        # consider every fact, not only those over the goal's atoms
BASE = set()        # atoms whose facts are always relevant (the divisor's digits)
CANDS = ()          # bounds worth trying for a single quotient


def closure(atoms):
    """Atoms reachable through the arguments of derived atoms, except through opaque names."""
    out = set()
    work = list(atoms)
    while work:
        i = work.pop()
        if i in out:
            continue
        out.add(i)
        a = T.ATOMS[i]
        if a.kind in ("V", "OPQ"):
            continue
        for x in a.args:
            if x.__class__ is Poly:
                for m in x.t:
                    work.extend(m)
    # plain input atoms multiplied with one of these
    return out


def refute(F, goals, rounds=3):
    """True when facts F and the polynomials goals (each >= 0) are contradictory."""
    STATS[0] += 1
    rows = []
    seen = set()

    def put(p):
        if p.__class__ is int:
            return p < 0
        k = p.key()
        if k in seen:
            return False
        seen.add(k)
        rows.append(p)
        return False
    for g in goals:
        if put(g):
            return True
    mons = set()
    for r in rows:
        mons.update(r.t)
    allf = []
    near = closure({i for m in mons for i in m})
    for f, (lo, hi) in F.m.items():
        if not WIDE and not all(i in near or i in BASE for m in f.t for i in m):
            continue
        if lo is not None:
            allf.append(T.sub(f, lo))
        if hi is not None:
            allf.append(T.sub(hi, f))
    used = set()
    for rnd in range(8 if WIDE else rounds):
        new = []
        atoms = {i for m in mons for i in m}
        for n, f in enumerate(allf):
            if n in used or f.__class__ is int:
                continue
            ms = [m for m in f.t if m != ()]
            if any(m in mons for m in ms) and len(ms) > 1:
                used.add(n)
                new.append(f)
        for i in atoms:
            if ("a", i) in used:
                continue
            used.add(("a", i))
            for p, lo, hi in F.implicit(i):
                if len(p.t) > 30:
                    continue
                if lo is not None:
                    new.append(T.sub(p, lo))
                if hi is not None:
                    new.append(T.sub(hi, p))
        for f in new:
            if f.__class__ is Poly and len(f.t) <= 30:
                put(f)
                mons.update(f.t)
        if len(rows) > (200 if WIDE else MAXROWS):
            break
    # products of a row of degree 1 with an atom of a quadratic monomial
    quad = {m for m in mons if len(m) == 2}
    prods = []
    base = list(rows)
    qat = {i for m in quad for i in m}
    for r in base:
        if r.__class__ is int or len(r.t) > 8:
            continue
        if any(len(m) > 1 for m in r.t):
            continue
        ats = {m[0] for m in r.t if m}
        for i in qat:
            if len(r.t) == 1:
                continue
            # only when most products are monomials in play
            n = sum(1 for a in ats if tuple(sorted((a, i))) in quad)
            if not n:
                continue
            l, h = F.atom(i)
            if l is not None:
                prods.append((n - len(ats), T.mul(r, T.sub(T.ap(T.ATOMS[i]), l))))
            if h is not None and h.bit_length() <= 130:
                prods.append((n - len(ats), T.mul(r, T.sub(h, T.ap(T.ATOMS[i])))))
    prods.sort(key=lambda x: -x[0])
    for _, p in prods[:24]:
        put(p)
    mons = set()
    for r in rows:
        mons.update(r.t)
    # bounds of the monomials
    for m in list(mons):
        if m == ():
            continue
        if len(m) == 1:
            l, h = F.atom(m[0])
        else:
            l, h = _mono_bound(F, m)
        if l is not None:
            rows.append(T.sub(Poly({m: 1}), l))
        if h is not None:
            rows.append(T.sub(h, Poly({m: 1})))
        if len(m) == 2 and m[0] != m[1]:
            (l1, h1), (l2, h2) = F.atom(m[0]), F.atom(m[1])
            x, y = T.ap(T.ATOMS[m[0]]), T.ap(T.ATOMS[m[1]])
            if None not in (l1, l2):
                rows.append(T.mul(T.sub(x, l1), T.sub(y, l2)))
            if None not in (h1, h2):
                rows.append(T.mul(T.sub(h1, x), T.sub(h2, y)))
            if None not in (l1, h2):
                rows.append(T.mul(T.sub(x, l1), T.sub(h2, y)))
            if None not in (h1, l2):
                rows.append(T.mul(T.sub(h1, x), T.sub(y, l2)))
    if any(r.__class__ is int and r < 0 for r in rows):
        return True
    rows = [r.t for r in rows if r.__class__ is Poly]
    return farkas(rows, 3000 if WIDE else 400) is True


def prove(F, p, lo, hi):
    """lo <= p <= hi is implied by F (each bound by refutation of its negation)."""
    if lo is not None and not refute(F, [T.sub(lo - 1, p)]):
        return False
    if hi is not None and not refute(F, [T.sub(p, hi + 1)]):
        return False
    return True


def bounded(F, p):
    """Facts with single-quotient bounds derived, for goals mixing several quotients; None when contradictory."""
    qs = sorted({m[0] for m in p.t if len(m) == 1 and T.ATOMS[m[0]].kind == "DIV"})
    if len(qs) < 2:
        return F
    for i in qs:
        h = F.atom(i)[1]
        x = T.ap(T.ATOMS[i])
        for c in CANDS:
            if h is not None and h <= c:
                break
            if F.smp and any(T.evaluate(x, e, m) > c for e, m in F.smp):
                continue
            if refute(F, [T.sub(x, c + 1)]):
                smp = F.smp
                F = F.assume(x, None, c)
                F.smp = smp
                break
    return F


def zeros(F, term):
    """Facts plus x = 0 for the named words that must be zero (the samples say so, refutation proves it)."""
    if term.__class__ is int or not any(T.ATOMS[i].kind == "OPQ" for m in term.t for i in m):
        return F
    smp = F.smp
    ids = sorted({i for f in F.m for m in f.t for i in m if T.ATOMS[i].kind == "OPQ"})
    for i in ids:
        l, h = F.atom(i)
        if l != 0 or h == 0:
            continue
        x = T.ap(T.ATOMS[i])
        if any(T.evaluate(x, e, m) for e, m in smp):
            continue
        if refute(F, [T.sub(x, 1)]):
            F = F.assume(x, 0, 0)
            F.smp = smp
    return F


def nonzero(F, goals):
    """Facts plus x > l for every quotient x of the goals that cannot equal its small lower bound l."""
    seen = set()
    for g in goals:
        if g.__class__ is int:
            continue
        for m in g.t:
            if len(m) < 2:
                continue
            for i in m:
                if i in seen or T.ATOMS[i].kind != "DIV" or F.atom(i)[0] not in (0, 1, 2):
                    continue
                seen.add(i)
                x = T.ap(T.ATOMS[i])
                l = F.atom(i)[0]
                smp = F.smp
                if smp and any(T.evaluate(x, e, mm) == l for e, mm in smp):
                    continue
                try:
                    z = F.assume(x, l, l)
                    if not refute(z, [T.renorm(y, z) for y in goals]):
                        continue
                except T.Contradiction:
                    pass
                F = F.assume(x, l + 1, None)
                F.smp = smp
    return F
