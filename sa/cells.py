"""Proof obligations ("cells"): a region of inputs of one entry point and the
outcome the specification demands there; and the procedure deciding them."""
import random
import time
import zlib
from itertools import product
from . import terms as T
from .terms import Poly, Facts, Contradiction, TooBig
from .interp import Interp, Program, State, Blob, Ptr, FnP, Flt, TOP, UNINIT, Undecided, NeedSplit

M = 1 << 256
H = 1 << 255
ANY = object()


class Ret:
    def __init__(self, v):
        self.v = v


class Panic:
    def __init__(self, what=None):
        self.what = what


class Pred:
    """obligations(ret, facts) -> [(term, lo, hi, text)]"""

    def __init__(self, f):
        self.f = f


class NoPanic:
    pass


class Cell:
    __slots__ = ("prop", "cfg", "root", "doms", "spec", "case", "label", "hook", "contracts", "key", "limit", "view")

    def __init__(self, prop, cfg, root, doms, spec, case, label, contracts=None, hook=None):
        self.prop, self.cfg, self.root, self.doms, self.spec, self.case, self.label = prop, cfg, root, doms, spec, case, label
        self.contracts = contracts
        self.hook = hook
        self.limit = 0
        self.view = None      # which events the property at hand is about (None: the whole outcome)

    def name(self):
        return "%s/%s[%s]%s" % (self.cfg, self.root, self.label, "" if self.case is None else "#%s" % self.case)


class Result:
    def __init__(self, cell, status, detail="", construct="", witness=None, fns=(), blocks=0, secs=0.0):
        self.name = cell.name()
        self.root = cell.root
        self.cfg = cell.cfg
        self.status, self.detail, self.construct, self.witness = status, detail, construct, witness
        self.fns, self.blocks, self.secs = fns, blocks, secs


class Env(dict):
    __getattr__ = dict.__getitem__


# ------------------------------------------------------------- inputs


def limbs(name, n=4, top=None):
    out = []
    for i in range(n):
        lo, hi = 0, (1 << 64) - 1
        if i == n - 1 and top is not None:
            lo, hi = top
        out.append(T.var("%s%d" % (name, i), lo, hi))
    return out


def lincomb(ls, w=64):
    r = 0
    for i, l in enumerate(ls):
        r = T.add(r, T.scale(l, 1 << (w * i)))
    return r


def build_arg(name, ty, dom, env, st, I):
    """-> list of interpreter argument values (in root order); fills env[name] with the value term."""
    if callable(dom):
        return dom(name, ty, env, st, I)
    if isinstance(dom, tuple) and dom and dom[0] == "c":     # ("c", base, lo, hi): constrained value
        r = build_arg(name, ty, dom[1], env, st, I)
        v = env[name]
        env.setdefault("_conds", []).append((v, dom[2], dom[3]))
        st.facts = st.facts.assume(v, dom[2], dom[3])
        return r
    if ty in ("U", "I"):
        if dom is None:
            ls = limbs(name)
            u = lincomb(ls)
            v = u
        elif dom == "+":
            ls = limbs(name, top=(0, (1 << 63) - 1))
            u = v = lincomb(ls)
        elif dom == "-":
            ls = limbs(name, top=(1 << 63, (1 << 64) - 1))
            u = lincomb(ls)
            v = T.add(u, -M) if ty == "I" else u
        elif dom == "bytes":         # 32 byte atoms
            bs = [T.var("%s_%d" % (name, i), 0, 255) for i in range(32)]
            ls = [lincomb(bs[8 * i:8 * i + 8], 8) for i in range(4)]
            u = v = lincomb(ls)
            env[name + "_bytes"] = bs
        elif dom == "neg":           # negative, top bit explicit
            ls = limbs(name, top=(0, (1 << 63) - 1))
            ls[3] = T.add(ls[3], 1 << 63)
            u = lincomb(ls)
            v = T.add(u, -M)
        elif isinstance(dom, int):
            u = dom % M
            v = dom
            ls = [(u >> (64 * i)) & ((1 << 64) - 1) for i in range(4)]
        elif dom[0] == "wide":       # two 128-bit atoms
            l = T.var(name + "l", *(dom[3:5] if len(dom) > 3 else (0, (1 << 128) - 1)))
            h = T.var(name + "h", dom[1], dom[2])
            u = T.add(T.scale(h, 1 << 128), l)
            v = T.add(u, -M) if (ty == "I" and dom[1] >= 1 << 127) else u
            env[name] = v
            env[name + "_u"] = u
            env[name + "_hi"], env[name + "_lo"] = h, l
            return [h, l]
        elif dom[0] == "range":      # one atom for the whole value
            x = T.var(name, dom[1], dom[2])
            env[name] = x
            env[name + "_u"] = T.mod(x, M, st.facts)
            lo = T.mod(x, 1 << 128, st.facts)
            hi = T.mod(T.fl(x, 1 << 128, st.facts), 1 << 128, st.facts)
            return [hi, lo]
        elif dom[0] == "limbs":
            ls = []
            for i, (lo, hi) in enumerate(dom[1]):
                ls.append(T.var("%s%d" % (name, i), lo, hi))
            u = lincomb(ls)
            v = T.add(u, -M) if (ty == "I" and dom[1][3][0] >= 1 << 63) else u
        else:
            raise ValueError(dom)
        env[name] = v
        env[name + "_u"] = u
        env[name + "_hi"] = T.add(T.scale(ls[3], 1 << 64), ls[2])
        env[name + "_lo"] = T.add(T.scale(ls[1], 1 << 64), ls[0])
        env[name + "_l"] = ls
        return [env[name + "_hi"], env[name + "_lo"]]
    if ty == "bool":
        x = T.var(name, 0, 1) if dom is None else dom
        env[name] = x
        return [x]
    if ty[0] in "ui":
        bits = 64 if ty.endswith("size") else int(ty[1:])
        s = ty[0] == "i"
        Mb = 1 << bits
        if isinstance(dom, int):
            env[name] = dom
            return [dom % Mb]
        if isinstance(dom, tuple):
            lo, hi = dom
        elif dom == "neg":
            l = T.var(name + "0", 0, (1 << 64) - 1)
            h = T.var(name + "1", 0, (1 << 63) - 1)
            x = T.add(T.add(T.scale(h, 1 << 64), l), -(1 << 127))
            env[name] = x
            return [T.mod(x, Mb, st.facts)]
        elif dom == "+":
            lo, hi = 0, Mb // 2 - 1
        elif dom == "-":
            lo, hi = -(Mb // 2), -1
        else:
            lo, hi = (-(Mb // 2), Mb // 2 - 1) if s else (0, Mb - 1)
        if bits == 128 and (lo, hi) in ((0, Mb - 1), (0, Mb // 2 - 1), (-(Mb // 2), -1), (Mb // 2, Mb - 1)):
            l = T.var(name + "0", 0, (1 << 64) - 1)
            h = T.var(name + "1", lo >> 64, hi >> 64)
            x = T.add(T.scale(h, 1 << 64), l)
        else:
            x = T.var(name, lo, hi)
        env[name] = x
        return [T.mod(x, Mb, st.facts) if lo >= 0 or hi < 0 else T.mod(x, Mb, st.facts)]
    if ty == "[u8; 32]":
        bs = [T.var("%s_%d" % (name, i), 0, 255) for i in range(32)]
        env[name] = bs
        return [Blob(32, [(i, 1, b) for i, b in enumerate(bs)])]
    raise ValueError(ty)


# ------------------------------------------------------------- results


def decode(I, st, ret, t):
    """Nested value of a returned blob according to its type."""
    p = I.p
    ty = p.types[t]
    d = ty["d"]
    s = p.scalar(t)
    if s is not None:
        v = ret
        if v.__class__ is Blob:
            v = I.from_blob(st, v, t)
        if s[0] == "i":
            if v.__class__ not in (int, Poly):
                return v
            if ty["k"] == "bool":
                return v
            return I.val(st, v, s[1], s[2])
        if v.__class__ is Flt:
            return I.flt_bits(v)
        return v
    b = ret
    if d in ("W", "S") or d.endswith("::W") or d.endswith("::S"):
        u = ty["v"][0][2][0]
        fs = []
        for i in range(2):
            off = p.field_off(t, None, i)
            fs.append(I.from_blob(st, Blob(16, [(o - off, n, v) for o, n, v in b.ch if off <= o < off + 16]), u))
        for f in fs:
            if f.__class__ not in (int, Poly):
                return f
        hi, lo = fs
        if I.ghost:
            v = I.ghost.get((hi, lo))
            if v is not None:
                return v
        v = T.add(T.scale(hi, 1 << 128), lo)
        return v
    if ty["k"] == "tuple" or (ty["k"] == "adt" and ty["ak"] == "struct"):
        fl = ty["f"] if ty["k"] == "tuple" else ty["v"][0][2]
        out = []
        for i, f in enumerate(fl):
            off = p.field_off(t, None, i)
            sz = p.size(f)
            out.append(decode(I, st, Blob(sz, [(o - off, n, v) for o, n, v in b.ch if off <= o < off + sz]), f))
        return out
    if ty["k"] == "array":
        sz = p.size(ty["e"])
        out = []
        for i in range(ty["n"]):
            off = i * sz
            pieces = [(o, n, v) for o, n, v in b.ch if o < off + sz and o + n > off]
            if len(pieces) == 1 and pieces[0][0] == off and pieces[0][1] == sz:
                out.append(pieces[0][2])
            else:
                from .interp import Alloc
                out.append(I.assemble(st, Alloc(b.size, {o: (n, v) for o, n, v in b.ch}), off, sz))
        return out
    return b


def modred(p, m):
    """Reduce coefficients modulo m (p only matters modulo m)."""
    if p.__class__ is int:
        return p % m
    t = {}
    for k, c in p.t.items():
        c %= m
        if c:
            if c > m // 2:
                c -= m
            t[k] = c
    return T.mk(t)


def split_atom(d, F, skip):
    """A boolean atom of d (innermost first) not decided by F."""
    best = None
    seen = set()

    def walk(p):
        nonlocal best
        if p.__class__ is int:
            return
        for m in p.t:
            for i in m:
                if i in seen:
                    continue
                seen.add(i)
                a = T.ATOMS[i]
                if a.kind in ("NEG", "Z") and i not in skip:
                    l, h = F.atom(i)
                    if l != h and (best is None or i < best):
                        best = i
                if a.kind != "V":
                    for x in a.args:
                        if x.__class__ is Poly:
                            walk(x)
    walk(d)
    return best


def equal(p, q, F, modulus=None, depth=0, skip=()):
    """True when p == q (mod modulus) is proved, splitting on undecided booleans."""
    if equal0(p, q, F, modulus):
        return True
    if depth >= 7:
        return False
    d = T.sub(p, q)
    if modulus:
        d = modred(d, modulus)
    if d.__class__ is int or len(d.t) > 400:
        return False
    i = split_atom(d, F, skip)
    if i is None:
        return False
    for v in (0, 1):
        try:
            f = F.assume(Poly({(i,): 1}), v, v)
        except Contradiction:
            continue
        d2 = d
        if any(i in m for m in d.t):
            d2 = T.subst1(d, i, v)
        if not equal(d2, 0, f, modulus, depth + 1, skip + (i,)):
            return False
    return True


def equal0(p, q, F, modulus=None):
    """True when p == q (mod modulus) is proved; False = not proved."""
    d = T.sub(p, q)
    if modulus:
        d = modred(d, modulus)
    if d == 0:
        return True
    for _ in range(3):
        d2 = T.fold(T.renorm(d, F), F)
        if modulus:
            d2 = modred(d2, modulus)
        if d2 == 0:
            return True
        if d2 == d:
            break
        d = d2
    if modulus and d.__class__ is not int:
        m = T.mod(d, modulus, F)
        if m == 0:
            return True
        lo, hi = F.bound(m) if m.__class__ is not int else (m, m)
        if lo == 0 and hi == 0:
            return True
    elif d.__class__ is not int:
        lo, hi = F.bound(d)
        if lo == 0 and hi == 0:
            return True
    return False


# ------------------------------------------------------------- witnesses


def has_havoc(p, memo=None):
    if p.__class__ is int:
        return False
    vs = set()
    T.vars_of(p, vs)
    return any(isinstance(i, int) and T.ATOMS[i].name.startswith("?") for i in vs)


def holds(p, lo, hi, env, memo):
    v = T.evaluate(p, env, memo)
    return (lo is None or v >= lo) and (hi is None or v <= hi)


def top_vars(p):
    """V atoms appearing linearly at top level with their coefficient."""
    out = []
    if p.__class__ is int:
        return out
    for m, c in p.t.items():
        if len(m) == 1 and T.ATOMS[m[0]].kind == "V":
            out.append((T.ATOMS[m[0]], c))
    return out


def expand(conds):
    """Unfold boolean-atom conditions into linear ones for repair."""
    out = []
    for p, lo, hi in conds:
        out.append((p, lo, hi))
        if p.__class__ is int:
            continue
        q, s, c = T.norm_key(p)
        if len(q.t) == 1:
            mon = next(iter(q.t))
            if len(mon) == 1 and q.t[mon] == 1:
                a = T.ATOMS[mon[0]]
                # p = s*a + c in [lo,hi]
                vals = [v for v in (0, 1) if (lo is None or s * v + c >= lo) and (hi is None or s * v + c <= hi)]
                if a.kind == "NEG" and len(vals) == 1:
                    out += expand([(a.args[0], None, -1) if vals[0] else (a.args[0], 0, None)])
                elif a.kind == "Z" and vals == [1]:
                    out += expand([(a.args[0], 0, 0)])
                elif a.kind == "FL" and s == 1:
                    m = a.args[1]
                    out += expand([(a.args[0], None if lo is None else (lo - c) * m, None if hi is None else (hi - c) * m + m - 1)])
    return out


def choose(pc, rng):
    """One conjunction out of a path condition with disjunctions."""
    out = []
    for c in pc:
        if c[0].__class__ is str:
            out += choose(c[1][rng.randrange(len(c[1]))], rng)
        else:
            out.append(c)
    return out


def corner(rng, lo, hi):
    if lo >= hi:
        return lo
    k = rng.randrange(8)
    if k == 0:
        return lo
    if k == 1:
        return hi
    if k == 2:
        return min(hi, lo + rng.randrange(4))
    if k == 3:
        return max(lo, hi - rng.randrange(4))
    if k == 4:
        b = 1 << rng.randrange(max(1, (hi - lo).bit_length()))
        return max(lo, min(hi, lo + b - rng.randrange(2)))
    if k == 5:
        b = (1 << rng.randrange(max(1, hi.bit_length()))) if hi > 0 else 0
        return max(lo, min(hi, b - rng.randrange(2)))
    return rng.randint(lo, hi)


HINTS = []      # (valuation, memo) pairs worth trying first
HINTER = [None]  # makes them, once, when a witness is first looked for


def holds_pc(c, env, memo):
    if c[0].__class__ is str:
        return any(all(holds_pc(x, env, memo) for x in alt) for alt in c[1])
    return holds(c[0], c[1], c[2], env, memo)


def witness(conds, bad, F, rng, tries=1500, budget=2.0):
    """A valuation satisfying every condition where bad(env, memo) is true, or None.
    Only terms are evaluated, never the program."""
    vs = set()
    for c in pc_terms(conds):
        T.vars_of(c[0], vs)
    for a in T.ATOMS:
        if a.kind == "V":
            vs.add(a.id)
    vs = [T.ATOMS[i] for i in vs if isinstance(i, int)]
    if any(a.name.startswith("?") for a in vs if any(True for _ in ())):
        return None
    vs = [a for a in vs if not a.name.startswith("?")]
    box = {}
    for a in vs:
        lo, hi = F.atom(a.id)
        box[a.name] = (lo if lo is not None else a.lo, hi if hi is not None else a.hi)
    fixed_conds = not any(c[0].__class__ is str for c in conds)
    allconds = conds
    if HINTER[0] is not None:
        HINTS[:] = HINTER[0]()
        HINTER[0] = None
        budget = max(budget, 2.0) + 0.01
    for env, memo in HINTS:
        try:
            if all(holds_pc(c, env, memo) for c in conds) and bad(env, memo):
                return env
        except ZeroDivisionError:
            continue
    if HINTS and budget == 2.0:
        budget = 0.3
    if fixed_conds:
        ex = expand(conds)
    t0 = time.time()
    for n in range(tries):
        if n & 15 == 15 and time.time() - t0 > budget:
            break
        env = {a.name: corner(rng, *box[a.name]) for a in vs}
        if not fixed_conds:
            conds = choose(allconds, rng)
            ex = expand(conds)
        ok = False
        for _ in range(12):
            memo = {}
            try:
                viol = [(p, lo, hi) for p, lo, hi in ex if not holds(p, lo, hi, env, memo)]
            except ZeroDivisionError:
                break
            if not viol:
                ok = True
                break
            fixed = False
            for p, lo, hi in viol:
                tv = top_vars(p)
                if not tv:
                    continue
                rng.shuffle(tv)
                val = T.evaluate(p, env, {})
                target = lo if (lo is not None and val < lo) else hi
                need = target - val
                for a, c in sorted(tv, key=lambda x: -abs(x[1])):
                    d = need // c if (need % c == 0) else (-((-need) // c) if (need > 0) == (c > 0) else need // c)
                    if need % c and ((need > 0) != (d * c >= need)):
                        d = d + (1 if (need > 0) == (c > 0) else -1) if d * c < need else d
                    nv = env[a.name] + d
                    l, h = box[a.name]
                    nv2 = max(l, min(h, nv))
                    if nv2 != env[a.name]:
                        need -= c * (nv2 - env[a.name])
                        env[a.name] = nv2
                        fixed = True
                        if need == 0:
                            break
                if fixed:
                    break
            if not fixed:
                break
        if not ok:
            continue
        try:
            memo = {}
            if all(holds(p, lo, hi, env, memo) for p, lo, hi in conds) and bad(env, memo):
                return env
        except ZeroDivisionError:
            continue
    return None


# ------------------------------------------------------------- deciding


def flat(v, out=None):
    if out is None:
        out = []
    if isinstance(v, (list, tuple)):
        for x in v:
            flat(x, out)
    else:
        out.append(v)
    return out


def decide(prog, cell, roots, ovf, seed=1, contracts=None, budget=None, setup=None):
    T.reset()
    HINTS[:] = []
    HINTER[0] = None
    t0 = time.time()
    I = Interp(prog, contracts=contracts if contracts is not None else cell.contracts, overflow_checks=ovf)
    st = State({}, Facts())
    env = Env()
    rng = random.Random(zlib.crc32(("%s/%s" % (seed, cell.root)).encode()))
    if cell.root[0] == "@":      # a private function, analysed on its own
        fid = next((i for i, f in prog.fns.items() if f.name == cell.root[1:]), None)
        if fid is None or len(cell.doms) != prog.fns[fid].nargs:
            return Result(cell, "UNDECIDED", "no such function")
        argdef = [("p%d" % i, None) for i in range(len(cell.doms))]
    else:
        fid = prog.roots.get("root_" + cell.root)
        if fid is None:
            return Result(cell, "UNDECIDED", "root missing", "anchor")
        argdef = roots.items[cell.root][0]
    conds = []
    env["_fid"] = fid
    try:
        args = []
        for (n, ty), dom in zip(argdef, cell.doms):
            args += build_arg(n, ty, dom, env, st, I)
        env["F"] = st.facts
        if "_conds" in env:
            conds += env["_conds"]
        cases = cell.spec(env)
        assume, outcome = cases[cell.case] if cell.case is not None else ([], cases)
        f = st.facts
        for p, lo, hi in assume:
            f = f.assume(p, lo, hi)
            conds.append((p, lo, hi))
        # second pass: later facts may sharpen earlier ones
        for p, lo, hi in assume:
            f = f.assume(p, lo, hi)
        st.facts = f
    except Contradiction:
        return Result(cell, "EMPTY", "no input in this region")
    I.budget = budget
    if setup is not None:
        setup(I, env, st)
    try:
        res = I.run(fid, args, st)
    except Undecided as e:
        # definite events found before losing precision still count
        r = judge_events(I, cell, conds, outcome, rng)
        if r is not None:
            return fin(r, I, t0)
        return fin(Result(cell, "UNDECIDED", str(e), where(I)), I, t0)
    except (TooBig, NeedSplit) as e:
        return fin(Result(cell, "UNDECIDED", "term growth"), I, t0)
    r = judge(prog, I, cell, fid, res, conds, outcome, rng)
    return fin(r, I, t0)


def where(I):
    return ""


def fin(r, I, t0):
    r.fns = [I.p.fns[i].name for i in I.visited]
    r.blocks = I.nblocks
    r.secs = time.time() - t0
    return r


def pc_terms(pc):
    for c in pc:
        if c[0].__class__ is str:
            for a in c[1]:
                yield from pc_terms(a)
        else:
            yield c


def exact_state(s):
    return s.exact and not any(has_havoc(c[0]) for c in pc_terms(s.pc))


VIEWS = {None: ("panic", "ub", "uninit", "oob"), "panic": ("panic",), "ub": ("ub", "uninit", "oob")}


def judge_events(I, cell, conds, outcome, rng):
    want = isinstance(outcome, Panic)
    und = None
    kinds = VIEWS[cell.view]
    for kind, detail, wh, s, stack in I.events:
        if kind == "panic" and want:
            continue
        if kind in kinds:
            if not exact_state(s):
                und = Result(cell, "UNDECIDED", "possible %s (%s) on an imprecise path" % (kind, detail), wh or stack[-1] if stack else "")
                continue
            w = witness(list(conds) + list(s.pc), lambda e, m: True, s.facts, rng)
            if w is not None:
                return Result(cell, "VIOLATED", "%s: %s (in %s)" % (kind, detail, stack[-1] if stack else "?"), "%s %s" % (wh or "", stack[-1] if stack else ""), w)
            und = Result(cell, "UNDECIDED", "possible %s (%s), no witness" % (kind, detail), wh or "")
    return und if und is not None and False else (und if und else None)


def judge(prog, I, cell, fid, res, conds, outcome, rng):
    ev = judge_events(I, cell, conds, outcome, rng)
    if ev is not None and ev.status == "VIOLATED":
        return ev
    fn = prog.fns[fid]
    rt = fn.locals[0]
    und = ev
    if cell.view == "panic" and isinstance(outcome, Panic):
        return Result(cell, "EMPTY", "a documented panic")
    if cell.view is not None:
        if cell.view == "ub":
            for s, r in res:
                if any(v is UNINIT for v in flat(decode(I, s, r, rt))) and exact_state(s) and witness(list(conds) + list(s.pc), lambda e, m: True, s.facts, rng) is not None:
                    return Result(cell, "VIOLATED", "returns uninitialised memory", fn.name)
        return und or Result(cell, "PROVED", "no undefined behaviour" if cell.view == "ub" else "no panic")
    if isinstance(outcome, Panic):
        for s, r in res:
            if exact_state(s):
                w = witness(list(conds) + list(s.pc), lambda e, m: True, s.facts, rng)
                if w is not None:
                    return Result(cell, "VIOLATED", "returns where a panic is specified", fn.name, w)
            und = Result(cell, "UNDECIDED", "may return where a panic is specified")
        return und or Result(cell, "PROVED", "always panics")
    if isinstance(outcome, NoPanic):
        return und or Result(cell, "PROVED", "no panic, no UB")
    if not res and und is None:
        return Result(cell, "UNDECIDED", "no returning path")
    for s, r in res:
        v = decode(I, s, r, rt)
        if isinstance(outcome, Pred):
            obs = outcome.f(v, s)
        else:
            try:
                obs = compare(v, outcome.v, s.facts, prog, rt)
            except Shape as e:
                und = Result(cell, "UNDECIDED", "result not representable: %s" % e)
                continue
        for ob in obs:
            kind = ob[0]
            if kind == "eq":
                _, x, y, m, txt = ob
                if x is UNINIT:
                    return Result(cell, "VIOLATED", "returns uninitialised memory (%s)" % txt, fn.name)
                if x.__class__ not in (int, Poly):
                    und = Result(cell, "UNDECIDED", "imprecise result %s %r" % (txt, x))
                    continue
                if equal(x, y, s.facts, m):
                    continue
                if exact_state(s) and not has_havoc(x):
                    d = T.sub(x, y)
                    if m:
                        bad = lambda e, mm, d=d, m=m: T.evaluate(d, e, mm) % m != 0
                    else:
                        bad = lambda e, mm, d=d: T.evaluate(d, e, mm) != 0
                    w = witness(list(conds) + list(s.pc), bad, s.facts, rng)
                    if w is not None:
                        mm = {}
                        return Result(cell, "VIOLATED", "%s: computed %s, specified %s" % (txt, T.cshow(T.evaluate(x, w, mm)), T.cshow(T.evaluate(y, w, mm))), fn.name, w)
                    und = Result(cell, "UNDECIDED", "%s: not proved equal, no witness" % txt)
                else:
                    lo, hi = s.facts.bound(x)
                    l2, h2 = s.facts.bound(y)
                    und = Result(cell, "UNDECIDED", "%s: imprecise" % txt)
            elif kind == "in":
                _, x, lo, hi, txt = ob
                if x.__class__ not in (int, Poly):
                    und = Result(cell, "UNDECIDED", "imprecise result %s" % txt)
                    continue
                l, h = s.facts.bound(x) if x.__class__ is not int else (x, x)
                if (lo is None or (l is not None and l >= lo)) and (hi is None or (h is not None and h <= hi)):
                    continue
                x2 = T.renorm(x, s.facts)
                l, h = s.facts.bound(x2) if x2.__class__ is not int else (x2, x2)
                if (lo is None or (l is not None and l >= lo)) and (hi is None or (h is not None and h <= hi)):
                    continue
                if T.DEEP is not None and (lo is None or T.entails_nonneg(s.facts, T.sub(x, lo))) and (hi is None or T.entails_nonneg(s.facts, T.sub(hi, x))):
                    continue
                if exact_state(s) and not has_havoc(x):
                    bad = lambda e, mm: not holds(x, lo, hi, e, mm)
                    w = witness(list(conds) + list(s.pc), bad, s.facts, rng)
                    if w is not None:
                        return Result(cell, "VIOLATED", "%s: value %s out of range" % (txt, T.cshow(T.evaluate(x, w, {}))), fn.name, w)
                und = Result(cell, "UNDECIDED", "%s: bound not proved" % txt)
            elif kind == "true":
                if not ob[1]:
                    if exact_state(s):
                        w = witness(list(conds) + list(s.pc), lambda e, m: True, s.facts, rng)
                        if w is not None:
                            return Result(cell, "VIOLATED", ob[2], fn.name, w)
                    und = Result(cell, "UNDECIDED", ob[2])
    return und or Result(cell, "PROVED", "%d path(s)" % len(res))


class Shape(Exception):
    pass


def compare(v, e, F, prog, t):
    """Pairs of (value, expected) leaves with their modulus."""
    out = []
    _cmp(v, e, prog, t, out, "result")
    return out


def _cmp(v, e, prog, t, out, txt):
    if e is ANY:
        return
    ty = prog.types[t]
    d = ty["d"]
    s = prog.scalar(t)
    if s is not None:
        if s[0] == "i":
            out.append(("eq", v, e, None if ty["k"] == "bool" else 1 << s[1], txt))
            return
        if s[0] == "f":         # a float is compared by its bits
            out.append(("eq", v, e, None, txt))
            return
        raise Shape(s[0])
    if d in ("W", "S") or d.endswith("::W") or d.endswith("::S"):
        out.append(("eq", v, e, M, txt))
        return
    if ty["k"] == "tuple":
        for i, f in enumerate(ty["f"]):
            _cmp(v[i], e[i], prog, f, out, "%s.%d" % (txt, i))
        return
    if ty["k"] == "array":
        for i in range(ty["n"]):
            _cmp(v[i], e[i], prog, ty["e"], out, "%s[%d]" % (txt, i))
        return
    raise Shape(d)
