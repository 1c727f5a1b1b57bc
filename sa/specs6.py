"""Specifications of text formatting."""
from . import terms as T
from .cells import Cell, Pred, M, H
from .interp import Ptr, Blob, Undecided
from .specs import words256, CMPC, DIVW
from .specs4 import hints, ARITH, WORDS, Dig, draws, digits_of, num

FLAG = dict(plus=21, minus=22, alt=23, zero=24, lower=25, upper=26)


def value_dom(label, make):
    """High word of a parameter pair; the low word comes from low_dom."""
    def dom(name, ty, env, st, I):
        v = make(env, st)
        if I.ghost is None:
            I.ghost = {}
        I.width = 80
        if v.__class__ is not int:
            hi, lo = words256(I, st, v)
        else:
            hi, lo = (v % M) >> 128, v % (1 << 128)
        env["_lo"] = lo
        return [hi]
    dom.label = label
    return dom


def low_dom(name, ty, env, st, I):
    return [env["_lo"]]


def fmt_dom(cons):
    """A formatter with arbitrary options, some flags fixed."""
    def dom(name, ty, env, st, I):
        fid = env["_fid"]
        p = I.p
        t = p.types[p.fns[fid].locals[3]]["e"]
        ot = p.types[t]["v"][0][2][0]
        oo = p.field_off(t, None, 0)
        ots = p.types[ot]["v"][0][2]
        fi = [i for i, x in enumerate(ots) if p.types[x]["k"] == "int" and p.types[x]["bits"] == 32]
        if len(fi) != 1:
            raise Undecided("layout of the formatter")
        fo = oo + p.field_off(ot, None, fi[0])
        fl = T.add(T.var("fl_low", 0, (1 << 21) - 1), T.scale(T.var("fl_high", 0, 31), 1 << 27))
        for k, b in FLAG.items():
            x = cons.get(k)
            if x is None:
                x = T.var("fl_" + k, 0, 1)
            fl = T.add(fl, T.scale(x, 1 << b))
        ch = {fo: (4, fl)}
        for i, x in enumerate(ots):
            if i != fi[0]:
                n = p.size(x)
                ch[oo + p.field_off(ot, None, i)] = (n, T.var("fl_f%d" % i, 0, (1 << 8 * n) - 1))
        a = I.new_alloc(st, p.size(t), ch)
        return [Ptr(a, 0)]
    dom.label = ",".join("%s=%d" % kv for kv in sorted(cons.items()))
    return dom


def shown(nonneg, prefix, text):
    """The formatter receives exactly this sign, prefix and text, once, and its answer is returned."""
    def f(v, s):
        obs = [o for o in s.obs if o[0] == "pad"]
        out = [("true", len(obs) == 1 and len(s.obs) == 1, "one call of pad_integral expected, %d found" % len(obs))]
        if len(obs) != 1:
            return out
        _, nn, px, bs = obs[0]
        want = text()
        out.append(("eq", nn, nonneg, None, "sign passed to the formatter (is_nonnegative)"))
        out.append(("true", tuple(px) == tuple(ord(c) for c in prefix), "prefix passed to the formatter: computed %r, specified %r" % ("".join(chr(c) if c.__class__ is int else "?" for c in px), prefix)))
        out.append(("true", len(bs) == len(want), "text of %d characters, specified %d" % (len(bs), len(want))))
        if len(bs) == len(want):
            for i, (x, y) in enumerate(zip(bs, want)):
                out.append(("eq", x, y, None, "character %d of %d" % (i, len(want))))
        if v.__class__ is Blob:
            v = v.ch[0][2]
        out.append(("eq", v, T.var("pad_result", 0, 1), None, "the formatter's answer"))
        return out
    return Pred(f)


FMTC = dict(ARITH, **CMPC)
FMTC.update(WORDS)
FMTC.update(DIVW)


def hook(P, cell, roots, ovf, seed=1, contracts=None, **kw):
    from .cells import decide

    def setup(I, env, st):
        hints(env)
        I.width = 80
        I.use_phi = True
    return decide(P, cell, roots, ovf, seed=seed, contracts=contracts, setup=setup, **kw)


def region(P, cfg, x, trait, label, radix, boxes, sign, cons, nonneg, prefix, case, concrete=None, twos=False):
    """x: type; sign: the value is sign * the digits (or, for twos, the digits are of the two's complement)."""
    root = "@roots::root_%s_fmt_%s" % (x, trait)

    def make(env, st):
        ds = [Dig(i, radix, lo, hi, case) for i, (lo, hi) in enumerate(boxes)]
        env["ds"], env["_radix"] = ds, radix
        v = num(ds, radix)
        return T.neg(v) if sign < 0 else v

    def spec(env):
        return shown(nonneg, prefix, lambda: [d.c for d in env["ds"]])
    return Cell(P, cfg, root, (value_dom(label, make), low_dom, fmt_dom(cons)), spec, None,
                "%s%s, %s" % ("-" if sign < 0 else "", label, ",".join("%s=%d" % kv for kv in sorted(cons.items())) or "any options"), FMTC, hook)


RADIX = {"Binary": (2, "0b", None), "Octal": (8, "0o", None), "LowerHex": (16, "0x", 0), "UpperHex": (16, "0x", 1)}


def lead(n, radix, lim, width, floor=1):
    """Partition of the n-digit numerals without leading zeros and <= lim (and >= floor)."""
    out = []
    if n == 1:
        return [("*", [(0, radix - 1)])]
    for lab, boxes, fits in draws(n, radix, lim, width):
        if not fits:
            continue
        boxes = list(boxes)
        lo, hi = boxes[0]
        if hi == 0:
            continue
        boxes[0] = (max(1, lo), hi)
        out.append((lab, boxes))
    return out


def c16(R, cfg, dbg, tier="quick"):
    out = []
    P = "C16"
    quick = tier == "quick"
    for x in "ui":
        U = x == "u"
        # decimal
        for sign in (1, -1):
            if U and sign < 0:
                continue
            lim = M - 1 if U else (H if sign < 0 else H - 1)
            nL = len(digits_of(lim, 10))
            for trait in ("Display", "Debug"):
                L = range(1, nL + 1)
                if trait == "Debug" and quick:
                    L = [1, 2, 3, 4, 5, 20, nL]
                for n in L:
                    for lab, boxes in lead(n, 10, lim, (8 if trait == "Display" else 2) if quick else 80):
                        if n == 1 and sign < 0:
                            boxes = [(1, 9)]
                        cons = {} if trait == "Display" else dict(lower=0, upper=0)
                        out.append(region(P, cfg, x, trait, "decimal, %d digits %s" % (n, lab), 10, boxes, sign, cons, 1 if sign > 0 else 0, "", None))
        # powers of two
        for trait, (radix, px, case) in list(RADIX.items()) + [("Debug", (16, "0x", 0)), ("Debug", (16, "0x", 1))]:
            conss = [{}]
            if trait == "Debug":
                conss = [dict(lower=1)] if case == 0 else [dict(lower=0, upper=1)]
            for sign in (1, -1):
                if U and sign < 0:
                    continue
                for minus in ((None,) if U or sign > 0 else (0, 1)):
                    lim = M - 1 if U else (H - 1 if sign > 0 else (H if minus else M - 1))
                    nL = len(digits_of(lim, radix))
                    lens = set(range(1, nL + 1))
                    if quick and (trait == "Debug" or cfg != "nd"):
                        lens &= {1, 2, 3, 16, 32, 33, 43, 64, 127, 128, 129, nL - 1, nL}
                    for n in sorted(lens):
                        if minus == 0:         # two's complement of a negative number: H <= u < M
                            if n != nL:
                                continue
                            top = {2: (1, 1), 8: (1, 1), 16: (8, 15)}[radix]
                            bs = [top, (4, 7) if radix == 8 else (0, radix - 1)] + [(0, radix - 1)] * (n - 2)
                            if radix == 8:
                                bs = [(1, 1)] + [(0, 7)] * (n - 1)
                            regs = [("*", bs)]
                        else:
                            regs = lead(n, radix, lim, 4 if quick else 40)
                        for lab, boxes in regs:
                            if n == 1 and sign < 0:
                                boxes = [(1, radix - 1)]
                            for cons in conss:
                                cons = dict(cons)
                                if minus is not None:
                                    cons["minus"] = minus
                                out.append(region(P, cfg, x, trait, "radix %d, %d digits %s" % (radix, n, lab), radix, boxes, -1 if minus == 1 else 1, cons,
                                                  0 if minus == 1 else 1, px, case))
    return out
