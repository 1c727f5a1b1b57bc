"""Specifications of serialization as bytes."""
from . import terms as T
from .cells import Cell, Ret, ANY, M, H
from .interp import Ptr, Blob
from .specs import words256, CMPC
from .specs4 import WORDS

ENDS = ("le", "be", "ne")


def little(cfg, en):
    return en == "le" or en == "ne" and not cfg.startswith("sb")


def value(bs, signed):
    """Value of the little-endian bytes bs, sign or zero extended."""
    v = 0
    for i, b in enumerate(bs):
        v = T.add(v, T.scale(b, 1 << (8 * i)))
    if signed and bs:
        b = bs[-1]
        lo, hi = T.Facts().bound(b) if b.__class__ is not int else (b, b)
        if lo >= 128:
            v = T.add(v, -(1 << (8 * len(bs))))
        else:
            assert hi < 128
    return v


def boxes(name, bx):
    return [T.var("%s%d" % (name, i), lo, hi) if lo != hi else lo for i, (lo, hi) in enumerate(bx)]


def value_dom(bx, signed):
    def dom(name, ty, env, st, I):
        bs = boxes("b", bx)
        v = value(bs, signed)
        env["bs"], env["v"] = bs, v
        ext = [255 if signed and bx and bx[-1][0] >= 128 else 0] * (32 - len(bs))
        full = bs + ext
        env["full"] = full
        out = []
        for w in (1, 0):
            x = 0
            for i in range(16):
                x = T.add(x, T.scale(full[16 * w + i], 1 << (8 * i)))
            out.append(x)
        return out
    return dom


def bytes_dom(bx, order):
    """A byte slice holding bx (given from the least significant byte on) in the given order."""
    def dom(name, ty, env, st, I):
        bs = boxes("b", bx)
        env["bs"] = bs
        mem = bs if order else bs[::-1]
        a = I.new_alloc(st, len(mem), {i: (1, b) for i, b in enumerate(mem)})
        return [Blob(16, [(0, 8, Ptr(a, 0)), (8, 8, len(mem))])]
    return dom


def long_dom(name, ty, env, st, I):
    """A byte slice of any length above 40 whose first bytes are arbitrary."""
    n = T.var("len", 41, (1 << 63) - 1)
    a = I.new_alloc(st, n, {i: (1, T.var("b%d" % i, 0, 255)) for i in range(40)})
    return [Blob(16, [(0, 8, Ptr(a, 0)), (8, 8, n)])]


FULL = (0, 255)


def minimal(signed, n):
    """Regions of the values whose shortest encoding has n bytes: [(label, boxes, extended)]"""
    if n == 0:
        return [("zero", [])]
    low = [FULL] * (n - 1)
    if not signed:
        return [("", low + [(1 << k, (2 << k) - 1)]) for k in range(8)]
    out = [("+%d" % k, low + [(1 << k, (2 << k) - 1)]) for k in range(7)] + \
          [("-%d" % k, low + [(255 - (2 << k) + 1, 255 - (1 << k))]) for k in range(7)]
    if n == 1:
        return out + [("-1", [(255, 255)])]
    return out + [("+", [FULL] * (n - 2) + [(128, 255), (0, 0)]), ("-", [FULL] * (n - 2) + [(0, 127), (255, 255)])]


def written(order, n):
    def spec(env):
        bs = env["full"][:n]
        out = (bs if order else bs[::-1]) + [0] * (80 - n)
        return Ret([0, [1, [n, out]]])
    return spec


def read(signed):
    return lambda env: Ret([0, value(env["bs"], signed)])


ERR = lambda env: Ret([1, ANY])
OK = None


def halves(signed, n):
    """The slices of n bytes, apart by sign where it matters."""
    if not signed or n == 0:
        return [("", [FULL] * n)]
    return [("+", [FULL] * (n - 1) + [(0, 127)]), ("-", [FULL] * (n - 1) + [(128, 255)])]


def c18(R, cfg, dbg, tier="quick"):
    out = []
    P = "C18"
    TOP = (1 << 64) - 1
    quick = tier == "quick"
    few = (0, 1, 2, 31, 32, 33, 34, 40)
    for x in "ui":
        S = x == "i"
        for en in ENDS:
            o = little(cfg, en)
            for lab, bx in halves(S, 32):
                out.append(Cell(P, cfg, "sd_ser_%s_fix_%s" % (x, en), (value_dom(bx, S),), written(o, 32), None, "any" + lab, CON))
            for n in range(33):
                for lab, bx in minimal(S, n):
                    out.append(Cell(P, cfg, "sd_ser_%s_min_%s" % (x, en), (value_dom(bx, S),), written(o, n), None, "%d bytes%s" % (n, lab), CON))
            for k in ("fix", "min"):
                good = (lambda n: n == 32) if k == "fix" else (lambda n: n <= 32)
                deb, des = "sd_deb_%s_%s_%s" % (x, k, en), "sd_des_%s_%s_%s" % (x, k, en)
                for n in range(41):
                    if quick and en == "ne" and n not in few:
                        continue
                    for lab, bx in halves(S, n):
                        out.append(Cell(P, cfg, deb, (bytes_dom(bx, o),), read(S) if good(n) else ERR, None, "%d bytes%s" % (n, lab), CON))
                out.append(Cell(P, cfg, deb, (long_dom,), ERR, None, "over 40 bytes", CON))
                hints = [("no hint", 0, (0, TOP), True)] + ([("hint 32", 1, 32, True), ("hint below 32", 1, (0, 31), False)] if k == "fix" else [("hint up to 32", 1, (0, 32), True)]) + \
                    [("hint above 32", 1, (33, TOP), False)]
                for n in range(35):
                    if quick and (en == "ne" or cfg == "sr") and n not in few:
                        continue
                    for hl, kn, hint, hok in hints:
                        for lab, bx in halves(S, n):
                            ok = hok and good(n)
                            out.append(Cell(P, cfg, des, (bytes_dom(bx, o), kn, hint, (min(n, 33) + 1, TOP)), read(S) if ok else ERR, None, "%d elements%s, %s" % (n, lab, hl), CON))
                            if ok and en != "ne":
                                for f in range(n + 1) if lab != "-" else (0, n):
                                    out.append(Cell(P, cfg, des, (bytes_dom(bx, o), kn, hint, f), ERR, None, "%d elements%s, %s, failing at %d" % (n, lab, hl, f), CON))
    return out


CON = dict(CMPC)
CON.update(WORDS)
