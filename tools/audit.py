"""Development aid: do the cases of a specification cover the region they are stated for?

For every group of cells (same entry point, same region) points of the region are drawn and at least
one case must apply to each.  A region no case applies to would be a silent hole: its cells would all
be reported EMPTY.   usage: audit.py cfg [C01,C02,...]
"""
import os
import random
import sys
from collections import defaultdict
from multiprocessing import Pool

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import cells, registry, terms as T  # noqa: E402
from sa.cells import Facts, Contradiction, State  # noqa: E402
from sa.extract import OVF  # noqa: E402


def work(i):
    g = GROUPS[i]
    c = g[0]
    holes = 0
    pts = 0
    rng = random.Random(i)
    T.reset()
    cells.HINTS[:] = []
    cells.HINTER[0] = None
    st = State({}, Facts())
    env = cells.Env()
    I = Dummy()
    env["_fid"] = 0
    try:
        for (n, ty), dom in zip(ROOTS[c.cfg].items[c.root][0], c.doms):
            cells.build_arg(n, ty, dom, env, st, I)
        env["F"] = st.facts
        conds = list(env.get("_conds", ()))
        own = {a.name for a in T.ATOMS if a.kind == "V"}
        cases = c.spec(env)
    except Contradiction:
        return (c.name(), "region", "contradiction", None)
    except Exception as e:
        return (c.name(), "skip", repr(e)[:100], None)
    if not isinstance(cases, list):
        return None
    ex = []
    for assume, _o in cases:
        f = st.facts
        try:
            for p, lo, hi in assume:
                f = f.assume(p, lo, hi)
            dead = False
        except Contradiction:
            dead = True
        ex.append((dead, assume))
    for k in range(12):
        w = cells.witness(conds, lambda e, m: True, st.facts, rng, tries=60, budget=0.1)
        if w is None:
            continue
        for a in T.ATOMS:
            if a.kind == "V" and a.name in own:
                w.setdefault(a.name, a.lo or 0)
        pts += 1
        n = 0
        for dead, assume in ex:
            ok = True
            for p, lo, hi in assume:
                vs = set()
                T.vars_of(p, vs)
                if any(T.ATOMS[v].name not in own for v in vs if isinstance(v, int)):
                    continue
                try:
                    v = T.evaluate(p, w, {})
                except Exception:
                    continue
                if (lo is not None and v < lo) or (hi is not None and v > hi):
                    ok = False
            if ok and not dead:
                n += 1
        if n == 0:
            return (c.name(), "HOLE", "", {k: hex(v) for k, v in w.items()})
    return None if pts else (c.name(), "nopoints", "", None)


class Dummy:
    def __getattr__(self, n):
        raise AttributeError(n)


if __name__ == "__main__":
    cfg = sys.argv[1]
    want = sys.argv[2].split(",") if len(sys.argv) > 2 else None
    ROOTS = {cfg: registry.roots_for(cfg)}
    GROUPS = []
    for pid, P in sorted(registry.PROPS.items()) if isinstance(registry.PROPS, dict) else [(p.id, p) for p in registry.PROPS]:
        if want and pid not in want or not P.fn:
            continue
        by = defaultdict(list)
        try:
            for c in P.fn(ROOTS[cfg], cfg, OVF[cfg]):
                by[(c.root, c.label, str(c.doms))].append(c)
        except Exception as e:
            print(pid, "skipped", repr(e)[:80])
            continue
        GROUPS += by.values()
    print(len(GROUPS), "groups")
    with Pool(6) as p:
        out = [r for r in p.imap_unordered(work, range(len(GROUPS)), chunksize=8) if r]
    from collections import Counter
    print(Counter(r[1] for r in out))
    seen = Counter()
    for r in sorted(out, key=str):
        k = (r[1], r[0].split("[")[0])
        seen[k] += 1
        if seen[k] <= 2:
            print(*r)
