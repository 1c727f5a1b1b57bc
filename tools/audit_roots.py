"""Development aid: do the regions of an entry point cover its whole argument space?

Points of the argument types are drawn (corners and random) and each must lie in a region of some cell.
usage: audit_roots.py cfg [C01,...]
"""
import os
import random
import sys
from collections import defaultdict
from multiprocessing import Pool

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import cells, registry, terms as T  # noqa: E402
from sa.cells import Facts, Contradiction, State, M  # noqa: E402
from sa.extract import OVF  # noqa: E402
from sa.roots import PRIMS  # noqa: E402

W = 1 << 128


def solve(t, target, env):
    if t.__class__ is int:
        return t == target
    c0, rest = T.split_const(t)
    rest = []
    c0 = 0
    for mono, c in (t.t.items() if isinstance(t.t, dict) else t.t):
        if mono == ():
            c0 = c
            continue
        if len(mono) != 1:
            return None
        a = T.ATOMS[mono[0]]
        if a.kind != "V":
            return None
        rest.append((c, a))
    need = target - c0
    rest.sort(key=lambda x: -abs(x[0]))
    for i, (c, a) in enumerate(rest):
        if a.name in env:
            v = env[a.name]
        else:
            lo_r = sum(min(k * b.lo, k * b.hi) for k, b in rest[i + 1:])
            v = (need - lo_r) // c if c > 0 else -((need - lo_r) // -c)
            v = max(a.lo, min(a.hi, v))
            env[a.name] = v
        need -= c * v
    return need == 0


def member(ty, dom, val, name="x"):
    T.reset()
    st = State({}, Facts())
    env = cells.Env()
    if isinstance(dom, tuple) and dom and dom[0] == "range":
        return dom[1] <= val <= dom[2]
    try:
        args = cells.build_arg(name, ty, dom, env, st, None)
    except Contradiction:
        return False
    except Exception:
        return None
    asg = {}
    if len(args) == 2:
        u = val % M
        r = [solve(args[0], u // W, asg), solve(args[1], u % W, asg)]
    elif ty in ("U", "I"):
        return None
    elif env[name].__class__ in (int, T.Poly):
        r = [solve(env[name], val, asg)]
    else:
        return None
    if None in r:
        return None
    if not all(r):
        return False
    for p, lo, hi in env.get("_conds", ()):
        v = T.evaluate(p, asg, {})
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            return False
    return True


def rngof(ty):
    if ty == "U":
        return 0, M - 1
    if ty == "I":
        return -M // 2, M // 2 - 1
    if ty == "bool":
        return 0, 1
    b = 64 if ty.endswith("size") else int(ty[1:])
    return (0, (1 << b) - 1) if ty[0] == "u" else (-(1 << b - 1), (1 << b - 1) - 1)


def draw(rng, lo, hi):
    k = rng.randrange(6)
    if k == 0:
        v = rng.choice((lo, hi, 0, 1, -1, lo + 1, hi - 1, W, W - 1, -W, W + 1, -W - 1, 2 * W, -2 * W))
    elif k == 1:
        v = rng.choice((1, -1)) * (1 << rng.randrange(256)) + rng.choice((0, 1, -1))
    elif k == 2:
        v = rng.randrange(lo, hi + 1)
    elif k == 3:
        v = rng.choice((1, -1)) * rng.randrange(1 << rng.randrange(1, 257))
    elif k == 4:
        v = rng.choice((1, -1)) * (rng.randrange(W) << 128)
    else:
        v = sum(rng.choice((0, 1, (1 << 64) - 1, rng.randrange(1 << 64))) << (64 * i) for i in range(4)) - (M if lo < 0 and rng.random() < .5 else 0)
    if v < lo or v > hi:
        v = lo + (v - lo) % (hi - lo + 1)
    return v


def work(k):
    prop, root = k
    combos = BY[k]
    args = ROOTS[CFG].items[root][0]
    rng = random.Random(str(k))
    doms = [list({str(c[i]) + str(id(c[i]) if callable(c[i]) else ""): c[i] for c in combos}.values()) for i in range(len(args))]
    keyed = {tuple(str(d) + str(id(d) if callable(d) else "") for d in c) for c in combos}
    unk = False
    for _ in range(60):
        vals = [draw(rng, *rngof(ty)) for _n, ty in args]
        ms = []
        for (n, ty), v, ds in zip(args, vals, doms):
            hit = []
            for d in ds:
                r = member(ty, d, v)
                if r is None:
                    unk = True
                elif r:
                    hit.append(str(d) + str(id(d) if callable(d) else ""))
            ms.append(hit)
        from itertools import product
        if not any(h in keyed for h in product(*ms)):
            return (prop, root, "unknown" if unk else "HOLE", [hex(v) for v in vals])
    return None


if __name__ == "__main__":
    CFG = cfg = sys.argv[1]
    want = sys.argv[2].split(",") if len(sys.argv) > 2 else None
    ROOTS = {cfg: registry.roots_for(cfg)}
    BY = defaultdict(list)
    for pid, P in sorted(registry.PROPS.items()):
        if want and pid not in want or not P.fn:
            continue
        try:
            cs = P.fn(ROOTS[cfg], cfg, OVF[cfg])
        except Exception as e:
            print(pid, "skipped", repr(e)[:80])
            continue
        for c in cs:
            if c.root in ROOTS[cfg].items and all(ty in ("U", "I", "bool") or ty in PRIMS for _n, ty in ROOTS[cfg].items[c.root][0]):
                BY[pid, c.root].append(tuple(c.doms))
    print(len(BY), "roots")
    with Pool(6) as p:
        out = [r for r in p.imap_unordered(work, list(BY), chunksize=4) if r]
    from collections import Counter
    print(Counter((r[0], r[2]) for r in out))
    for r in sorted(out, key=str):
        print(*r)
