"""C20 (soundness of unsafe code) and C21 (no undocumented panic): the regions
of the functional properties, judged on undefined behaviour and on panics only.
A region says which inputs are looked at; what the result should be plays no
part, except that C21 leaves out the regions whose documented outcome is a
panic."""
from . import specs, specs3, specs4, specs5, specs6, specs7, specs8, specs10, specs11

ARITH = (specs.c01, specs.c02, specs.c04, specs.c05, specs.c06, specs.c07, specs.c08, specs.c09, specs.c11, specs.c19, specs.c23, specs.c24, specs.c25)


def thin(cs, k):
    """Every k-th region of each entry point, first and last included (and every text with a character of several bytes)."""
    if k <= 1:
        return cs
    by = {}
    for c in cs:
        by.setdefault(c.root, []).append(c)
    out = []
    for v in by.values():
        out += v if len(v) <= 12 else [c for i, c in enumerate(v) if i % k == 0 or i == len(v) - 1 or "a character of" in c.name()]
    return out


def regions(R, cfg, ovf, tier):
    q = tier == "quick"
    if cfg[0] in "nb" and not cfg.startswith("s"):
        for f in ARITH:
            yield f(R, cfg, ovf), 4 if q and f in (specs.c05, specs.c06, specs.c24) else 1
        yield specs3.c03full(R, cfg, ovf, tier), 4 if q else 1
        if cfg[0] == "n":
            yield specs10.c10(R, cfg, ovf), 4 if q else 1
            yield specs11.c12(R, cfg, ovf), 6 if q else 2
            yield specs11.c13(R, cfg, ovf), 12 if q else 2
            yield specs4.c14(R, cfg, ovf), 8 if q else 2
            yield specs5.c15(R, cfg, ovf), 12 if q else 2
            yield specs6.c16(R, cfg, ovf), 4 if q else 1
    elif cfg[0] == "l":
        yield specs3.c22(R, cfg, ovf, tier), 6 if q else 2
    elif cfg in ("sfd", "sfr"):
        yield specs8.c17(R, cfg, ovf), 10 if q else 2
    else:
        yield specs7.c18(R, cfg, ovf), 2 if q else 1


def cells(view):
    def f(R, cfg, ovf, tier="quick"):
        out = []
        for cs, k in regions(R, cfg, ovf, tier):
            for c in thin(cs, k):
                c.view = view
                out.append(c)
        return out
    return f


c20 = cells("ub")
c21 = cells("panic")
