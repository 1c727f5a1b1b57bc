"""C12, C13: conversions from and to floating point, on exact bit patterns.

A float argument is sign * exponent * symbolic fraction, with sign and exponent
concrete; an integer is a symbolic fraction below a concrete leading one, cut
where the format rounds."""
from . import terms as T
from .cells import Cell, Ret, M, H
from .specs import words256, CMPC
from .specs6 import ARITH

CON = dict(ARITH, **CMPC)
FMT = {"f32": (32, 23, 127), "f64": (64, 52, 1023)}


# ------------------------------------------------------------------ C12


def dom_float(w, m, s, e, lo, hi):
    def f(name, ty, env, st, I):
        from .interp import Flt
        d = e - FMT["f%d" % w][2]
        x = T.var(name, lo, hi)
        if lo == 0 and hi == (1 << m) - 1 and 0 < d < 320:
            # cut where the point falls, or where a 64-bit word of the value ends
            cuts = [m - d] if d < m else [64 * i - (d - m) for i in range(1, 5) if 0 < 64 * i - (d - m) < m]
            if cuts:
                x = T.add(T.scale(T.var(name + "w", 0, (1 << (m - cuts[0])) - 1), 1 << cuts[0]), T.var(name + "f", 0, (1 << cuts[0]) - 1))
        env[name] = x
        if I is not None:
            I.width = 64
        return [Flt(w, bits=T.add(x, (s << (w - 1)) + (e << m)))]
    f.label = "%sexponent %d, fraction %s..%s" % ("-" if s else "", e, T.cshow(lo), T.cshow(hi))
    return f


def trunc(x, w, m, b, s, e, F, lo, hi):
    """Float with fraction x as an integer of the range lo..hi."""
    def f(env):
        fr = env.a
        if e < b:
            return Ret(0)
        d = e - b
        if e == 2 * b + 1:
            return Ret((lo if s else hi) if fr == 0 else 0)
        if d >= 256 or (s and x == "u"):
            return Ret(lo if s else hi)
        mant = T.add(fr, 1 << m)
        v = T.fl(mant, 1 << (m - d), env["F"]) if d <= m else T.scale(mant, 1 << (d - m))
        if x == "i" and d == 255:
            return Ret(-H if s else H - 1)
        return Ret(T.neg(v) if s else v)
    return f


def c12(R, cfg, dbg, tier="quick"):
    out = []
    for x in "ui":
        lo, hi = (0, M - 1) if x == "u" else (-H, H - 1)
        for t, (w, m, b) in FMT.items():
            root = "%s_from_as_%s" % (x, t)
            for s in (0, 1):
                for e in range(2 * b + 2):
                    top = 2 * b + 1
                    regs = [(0, (1 << m) - 1)]
                    if e in (top, 0, b + 64):
                        regs = [(0, 0), (1, (1 << m) - 1)]
                    for l, h in regs:
                        d = dom_float(w, m, s, e, l, h)
                        out.append(Cell("C12", cfg, root, (d,), trunc(x, w, m, b, s, e, None, lo, hi), None, d.label))
    return out


# ------------------------------------------------------------------ C13


def pieces(name, lo_bit, hi_bit, first, cuts):
    """A number whose bits lo_bit..hi_bit-1 are symbolic, in pieces cut at the given bits (so that it parts at word
    boundaries): its value, with the pieces above index `first` zero and piece `first` non-zero (None: all zero)."""
    bs = [lo_bit] + sorted(c for c in set(cuts) if lo_bit < c < hi_bit) + [hi_bit]
    v = 0
    for i in range(len(bs) - 1):
        if first is None or i > first:
            continue
        top = (1 << (bs[i + 1] - bs[i])) - 1
        v = T.add(v, T.scale(T.var("%s%d" % (name, i), 1 if i == first else 0, top), 1 << bs[i]))
    return v


def free(name, lo_bit, hi_bit, cuts):
    """Any number on the bits lo_bit..hi_bit-1."""
    bs = [lo_bit] + sorted(c for c in set(cuts) if lo_bit < c < hi_bit) + [hi_bit]
    v = 0
    for i in range(len(bs) - 1):
        if bs[i + 1] > bs[i]:
            v = T.add(v, T.scale(T.var("%s%d" % (name, i), 0, (1 << (bs[i + 1] - bs[i])) - 1), 1 << bs[i]))
    return v


def npieces(lo_bit, hi_bit, cuts):
    return len([c for c in set(cuts) if lo_bit < c < hi_bit]) + 1


def cuts(p, m):
    return [64, 128, 192]


def dom_int(x, w, m, p, neg, tail, odd):
    """|a| has its leading one at bit p; tail: None (nothing below the precision),
    or (half bit, which piece below it is the first non-zero one); odd: the last kept bit (None: either)."""
    s = p - m

    def f(name, ty, env, st, I):
        if p == 255 and neg:
            v = H
            env["_q"] = 1 << m
        elif tail is None:
            env["_q"] = v = T.add(1 << p, free(name + "q", 0, p, cuts(p, m)))
        else:
            a = s if odd is None else s + 1
            v = T.add(1 << p, free(name + "q", a, p, cuts(p, m)))
            if odd:
                v = T.add(v, 1 << s)
            env["_q"] = T.mk({k: c >> s for k, c in v.t.items()}) if v.__class__ is not int else v >> s
            v = T.add(v, tail[0] << (s - 1))
            k = 0 if len(tail) == 2 else 2
            if k:
                v = T.add(v, tail[2])
            if tail[1] is not None:
                v = T.add(v, pieces(name + "r", k, s - 1, tail[1], cuts(p, m)))
        env["_v"] = v
        v = T.neg(v) if neg else v
        env[name] = v
        if I is not None and I.ghost is None:
            I.ghost = {}
        if v.__class__ is int:
            return [(v % M) >> 128, v % (1 << 128)]
        return list(words256(I, st, v))
    f.label = "%sleading one at bit %d%s%s" % ("negative, " if neg else "", p, "" if tail is None else ", next bit %d, %s below" % (tail[0], "nothing" if tail[1] is None else "piece %d" % tail[1]) + (" and %d" % tail[2] if len(tail) > 2 else ""),
                                               "" if odd is None else ", last kept bit %d" % odd)
    return f


def nearest(w, m, b, p, neg, tail, odd):
    def f(env):
        so = neg << (w - 1)
        if p > b:
            return Ret(so + ((2 * b + 1) << m))
        q = env["_q"]
        if tail is None:
            return Ret(T.add(T.scale(T.add(q, -(1 << p)), 1 << (m - p)), so + ((p + b) << m)))
        up = tail[0] and (tail[1] is not None or odd or (len(tail) > 2 and tail[2]))
        return Ret(T.add(q, so + ((p + b - 1) << m) + (1 if up else 0)))
    return f


def c13(R, cfg, dbg, tier="quick"):
    out = []
    for x in "ui":
        for t, (w, m, b) in FMT.items():
            for k in ("as", "into"):
                root = "%s_%s_%s" % (x, k, t)
                out.append(Cell("C13", cfg, root, (0,), lambda env: Ret(0), None, "zero"))
                for neg in (0, 1) if x == "i" else (0,):
                    for p in range(256 if x == "u" else 255 + neg):
                        if p <= m:
                            regs = [(None, None)]
                        elif neg and p == 255:
                            regs = [((0, None), None)]
                        else:
                            regs = [((0, None), None), ((1, None), 0), ((1, None), 1)]
                            if p > m + 1:
                                n = npieces(2 if p == 128 else 0, p - m - 1, cuts(p, m))
                                if p == 128:     # the last two bits apart
                                    regs += [((h, i, k), None) for h in (0, 1) for i in [None] + list(range(n)) for k in range(4) if k or i is not None]
                                else:
                                    regs += [((h, i), None) for h in (0, 1) for i in range(n)]
                        for tail, odd in regs:
                            d = dom_int(x, w, m, p, neg, tail, odd)
                            out.append(Cell("C13", cfg, root, (d,), nearest(w, m, b, p, neg, tail, odd), None, d.label, CON))
    return out
