"""Specifications of compile-time literals."""
from . import terms as T
from .cells import Cell, Ret, Panic, M, H
from .specs4 import hints, WORDS, draws, digits_of, text_dom, Dig, num, bts, nondigits

SEP = ((9, 10), (12, 13), (32, 32), (95, 95))        # ASCII white space and the underscore
RADIX = (("0b", 2), ("0o", 8), ("0x", 16), ("", 10))
LIT = dict(WORDS)


def hook(P, cell, roots, ovf, seed=1, contracts=None, **kw):
    from .cells import decide

    def setup(I, env, st):
        I.width = 64
        hints(env)
        I.bytecls = frozenset("k%d" % i for i in range(400))
        I.ghost = {}
        I.limbs = True
    return decide(P, cell, roots, ovf, seed=seed, contracts=contracts, setup=setup, **kw)


def lit(P, cfg, root, label, pre, radix, boxes, seps, outcome, post=(), case=None):
    """One region of literal texts; seps: {position: separator box} (before that digit; len(boxes) = at the end)."""
    def make(env):
        ds = [Dig(i, radix, lo, hi) for i, (lo, hi) in enumerate(boxes)]
        env["v"] = num(ds, radix)
        env["ds"], env["_radix"] = ds, radix
        out = list(pre)
        for i in range(len(ds) + 1):
            for j, (lo, hi) in enumerate(seps.get(i, ())):
                out.append(T.var("s%d_%d" % (i, j), lo, hi) if lo != hi else lo)
            if i < len(ds):
                out.append(ds[i].c)
        return out + [T.var("z%d" % i, lo, hi) if lo != hi else lo for i, (lo, hi) in enumerate(post)]
    return Cell(P, cfg, root, (text_dom(label, make),), outcome, case, label, LIT, hook)


def negative(e):
    """Zero or a proper negative value."""
    return [([(e.v, 1, None)], Ret(T.neg(e.v))), ([(e.v, 0, 0)], Ret(0))]


def bad_bytes(radix):
    """Bytes that are neither digits nor separators (nor valid only at the front)."""
    out = []
    for lo, hi in nondigits(radix):
        cur = lo
        for a, b in SEP:
            if b < cur or a > hi:
                continue
            if a > cur:
                out.append((cur, a - 1))
            cur = b + 1
        if cur <= hi:
            out.append((cur, hi))
    return out


def c15(R, cfg, dbg, tier="quick"):
    out = []
    P = "C15"
    quick = tier == "quick"
    for x in "ui":
        root = x + "_const_str"
        for pre, radix in RADIX:
            for sign in ("", "+", "-"):
                if sign == "-" and x == "u":
                    continue
                lim = M - 1 if x == "u" else (H if sign == "-" else H - 1)
                nL = len(digits_of(lim, radix))
                lead = bts(sign + pre)
                name = sign + pre + "%d"
                lens = {1, 2, 3, nL // 2, nL - 1, nL, nL + 1}
                if not quick:
                    lens |= {5, 16, 17, 32, 33, nL + 2}
                for n in sorted(lens):
                    for lab, boxes, fits in draws(n, radix, lim, 8 if quick else 40):
                        if fits and sign == "-":
                            for k in (0, 1):
                                out.append(lit(P, cfg, root, "%s, %d digits %s" % (name % radix, n, lab), lead, radix, boxes, {}, negative, case=k))
                            continue
                        if fits:
                            oc = lambda e: Ret(e.v)
                        else:
                            oc = lambda e: Panic()
                        # without a prefix a leading 0b, 0o, 0x is not made of digits, so no clash
                        out.append(lit(P, cfg, root, "%s, %d digits %s" % (name % radix, n, lab), lead, radix, boxes, {}, oc))
                # separators
                for n in (2, 5, 18) if quick else (2, 5, 18, 40):
                    if n > nL - 1:
                        continue
                    for sep in SEP:
                        for ps in ((1,), (n,), (1, n), tuple(range(1, n + 1)), (n // 2,)) + (((0,),) if pre else ()):
                            sp = {p: (sep,) for p in ps}
                            if 2 in ps:
                                sp[2] = (sep, SEP[3])
                            for k in (0, 1) if sign == "-" else (None,):
                                out.append(lit(P, cfg, root, "%s, %d digits, separators %s at %s" % (name % radix, n, sep, ps), lead, radix, [(0, radix - 1)] * n, sp,
                                               (lambda e: Ret(e.v)) if k is None else negative, case=k))
                # invalid bytes
                for p in (0, 1, 2, 7) if quick else (0, 1, 2, 7, 20, nL - 2):
                    for lo, hi in bad_bytes(radix):
                        if p == 0 and not pre and not sign:
                            cuts = [(a, b) for a, b in ((lo, min(hi, 42)), (max(lo, 44), min(hi, 44)), (max(lo, 46 if x == "i" else 44), hi)) if a <= b] if lo <= 45 else [(lo, hi)]
                            if x == "u":
                                cuts = [(a, b) for a, b in ((lo, min(hi, 42)), (max(lo, 44), hi)) if a <= b]
                        else:
                            cuts = [(lo, hi)]
                        for a, b in cuts:
                            for tail in ([], [(0, 127)] * 2):
                                bx = [(0, radix - 1)] * p
                                if not pre and p == 1 and tail:
                                    # 0b.., 0o.., 0x.. are prefixes
                                    if a <= 120 and b >= 98:
                                        bx = [(1, 9)]
                                out.append(lit(P, cfg, root, "%s, %d digits then %d..%d+%d" % (name % radix, p, a, b, len(tail)), lead, radix, bx, {}, lambda e: Panic(), [(a, b)] + tail))
            # nothing but a sign, or nothing
        for s in ("", "+") + (("-",) if x == "i" else ()):
            out.append(lit(P, cfg, root, "'%s' alone" % s, bts(s), 10, [], {}, lambda e: Panic()))
        for s in ("-1", "-", "-0x1") if x == "u" else ():
            out.append(lit(P, cfg, root, "'%s'" % s, bts(s), 10, [], {}, lambda e: Panic()))
        for s in ("++1", "+-1", "0x", "0b", "0o", "+0x", "0x+1", "0x-1"):
            out.append(lit(P, cfg, root, "'%s'" % s, bts(s), 10, [], {}, lambda e: Panic()))
        out.append(lit(P, cfg, root, "two-byte character", [], 10, [(0, 9)], {}, lambda e: Panic(), [(0xc2, 0xdf), (0x80, 0xbf)]))
    return out
