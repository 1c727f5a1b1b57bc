"""The claimed properties and how each is decided."""
from . import cells, roots, specs, specs3, specs4, specs5, specs6, specs7, specs8, specs9, specs10, specs11, effects
from .cells import Cell, Ret

_roots = {}


def roots_for(cfg):
    from .extract import CONFIGS
    k = "serde" if CONFIGS[cfg][3] else ("be" if cfg.startswith("b") else "")
    if k not in _roots:
        _roots[k] = roots.build(k)
    return _roots[k]


_con = {}


def decide(P, c, R, cfg, seed):
    con = None
    ir = getattr(P, "ir", None)
    if c.contracts or ir:
        key = (cfg, id(c.contracts))
        con = _con.get(key)
        if con is None:
            con = _con[key] = dict(ir or {}, **(specs.contracts_for(P, c.contracts) if c.contracts else {}))
    from .extract import OVF
    f = c.hook or cells.decide
    return f(P, c, R[cfg], OVF[cfg], seed=seed, contracts=con)


def selftest(cfg):
    if cfg is None:
        return []
    out = []
    for n, want in (("selftest_good", "PROVED"), ("selftest_bad", "VIOLATED")):
        spec = lambda e: Ret(specs.add_(e))
        out.append(Cell("selftest", cfg, n, ((0, (1 << 128) - 1),) * 2, spec, None, "want:" + want))
    return out


TRUST = ["rustc's MIR construction (nightly 1.101) for /repo's sources", "the abstract interpreter /verif/sa (terms, interp, models)",
         "the specification tables in /verif/sa/specs*.py"]


class Prop:
    level = "other"
    trusted = TRUST
    assumptions = ["the code generator implements MIR semantics", "obligations left undecided are not claimed; they are counted in the evidence"]

    def __init__(self, id, fn, cfgs, explanation, thorough=None, classical=None, assumptions=None):
        self.id, self.fn, self.cfgs, self.explanation = id, fn, cfgs, explanation
        self.tcfgs = thorough or cfgs
        self._classical = classical
        self.tiered = "tier" in fn.__code__.co_varnames[:fn.__code__.co_argcount] if fn else False
        if assumptions:
            self.assumptions = self.assumptions + assumptions

    def configs(self, tier):
        return list(self.tcfgs if tier == "thorough" else self.cfgs)

    def cells(self, R, cfg, ovf, tier):
        if self.fn is None:
            return []
        return self.fn(R, cfg, ovf, tier) if self.tiered else self.fn(R, cfg, ovf)

    def classical(self, P, x, ws, tier):
        return self._classical(P, x, ws, tier) if self._classical else []

    def floor(self, tier):
        return 1

    def note(self):
        return (self.explanation + " Discharged obligations hold for every input of their region, relative to the MIR and the trusted base; "
                "a violation is reported only with an exact path condition and a concrete input satisfying it (found by evaluating terms, never the program). "
                "Undecided obligations are listed in the evidence and are not claimed.")


HOW = "Abstract interpretation of the type-checked MIR of every entry point, from one entry point's parameters to its return, in a domain of exact integer terms with linear facts and path partitioning; each obligation is one region of the input space with the outcome the specification demands there. "

NAT = ["nd", "nr"]
NATBE = NAT + ["bd", "br"]
PROPS = {p.id: p for p in [
    Prop("C01", specs.c01, NAT, HOW + "Addition and subtraction in every spelling.", thorough=NATBE),
    Prop("C02", specs.c02, NAT, HOW + "Multiplication in every spelling; division inside the overflow test is used through its contract (C03), comparisons through theirs (C07).", thorough=NATBE),
    Prop("C03", specs.c03full, NAT, HOW + "Truncated division and remainder in every spelling, relative to the contract of the unsigned core routine udivmod4 (quotient and remainder enter as opaque words tied by q*b + r = a, 0 <= r < b); that contract is discharged on the body of udivmod4 itself, one obligation per normalisation shift and shape of the divisor, with polynomial entailment over exact rationals (the two helpers of the long division are proved first and used by contract; when that proof fails they are inlined)."),
    Prop("C04", specs.c04, NAT, HOW + "Euclidean division and the paired forms, relative to the same contract of udivmod4 as C03."),
    Prop("C05", specs.c05, NAT, HOW + "Shifts: every in-range amount separately, and every residue class of out-of-range amounts with the multiple of 256 left symbolic.", thorough=NATBE),
    Prop("C06", specs.c06, NAT, HOW + "Rotations (every residue class of amounts), counts (partitioned by the position of the deciding bit), byte swap, bit reversal.", thorough=NATBE),
    Prop("C07", specs.c07, NAT, HOW + "Equality, order, minimum, maximum, clamp, including against 128-bit primitives from either side; the bytes a hasher is given by two copies of a value (that they depend on the value alone also follows from the effect rules of C26).", thorough=NATBE),
    Prop("C08", specs.c08, NAT, HOW + "Bitwise operators in every spelling.", thorough=NATBE),
    Prop("C09", specs.c09, NAT, HOW + "Negation, absolute values, sign, distance.", thorough=NATBE),
    Prop("C10", specs10.c10, NAT, HOW + "Exponentiation: the base is one symbol, the exponent concrete; the multiplication primitives are used through their contracts (C02), products being named by the power of the base they are, so that each overflow test is a linear test of the base against an integer root of the bound. One obligation per entry point, exponent, sign of the base and side of the largest base that fits.", thorough=NATBE),
    Prop("C11", specs.c11, NAT, HOW + "Integer conversions from, to and between every integer type.", thorough=NATBE),
    Prop("C12", specs11.c12, NAT, HOW + "Conversions from floats, which are exact bit patterns: one obligation per float width, target, sign and exponent (and, at the ends, zero or not), the fraction symbolic.", thorough=NATBE),
    Prop("C13", specs11.c13, NAT, HOW + "Conversions to floats: one obligation per float width, sign, position of the leading one, value of the first dropped bit, and (for ties) of the last kept bit, with something or nothing below; all other bits symbolic. The compiler's own integer-to-float conversion is modelled as IEEE 754 rounds.", thorough=NATBE),
    Prop("C14", specs4.c14, NAT, HOW + "Text parsing: texts are byte strings whose digits are symbolic, one obligation per radix, sign, prefix, digit count and position at which the text first departs from the type's bound, and per position and class of the first invalid byte; the 256-bit arithmetic inside is used through its contracts (C01, C02, C07), char::to_digit through its documented one.", thorough=NATBE),
    Prop("C15", specs5.c15, NAT, HOW + "Compile-time literals: the const parser on symbolic literal texts (digits, sign, prefix, separators), the value or the refusal; one obligation per radix, sign, digit count and position at which the text departs from the bound, per placement of separators and per position and class of the first invalid byte.", thorough=NATBE),
    Prop("C16", specs6.c16, NAT, HOW + "Integer formatting: the value is drawn as symbolic digits of the radix, one obligation per trait, sign, number of digits and position at which the numeral departs from the type's bound; the formatter (arbitrary options) must receive through Formatter::pad_integral exactly the sign, prefix and digits the specification demands, once, and its answer is returned. Division, comparison and arithmetic inside are used through their contracts (C01, C03, C07).", thorough=NATBE),
    Prop("C17", specs8.c17, ["sfd", "sfr"], HOW + "Serialization as text: a serializer of the harness receives the text (the standard library's formatting machinery is analysed from its source, down to the crate's own text buffer), a deserializer of the harness offers a text, a byte string or a number; values are drawn as symbolic digits, texts as in C14, one obligation per form, sign, number of digits and position at which the numeral departs from the type's bound.", thorough=["sfd", "sfr", "sbd", "sbr"]),
    Prop("C18", specs7.c18, ["sd", "sr"], HOW + "Serialization as bytes: a serializer of the harness receives the bytes, a deserializer of the harness offers a byte slice or a sequence (any declared length or none, an element failing at any position); values are drawn as symbolic bytes, one obligation per encoded length, sign, position of the deciding bit, slice length, sequence length and kind of declared length. Slices above 40 bytes have a symbolic length.", thorough=["sd", "sr", "sbd", "sbr"]),
    Prop("C19", specs.c19, NATBE, HOW + "Byte-array conversions and byte-order conversions, byte by byte."),
    Prop("C20", specs9.c20, ["nr", "br", "lr", "sr", "sfr"], HOW + "Every region of the functional properties judged on undefined behaviour alone: reads of uninitialised memory (including results returned uninitialised), accesses outside an allocation or outside the reference a pointer was derived from, misaligned dereferences, writes through pointers derived from shared references, pointer arithmetic leaving its allocation, overflow of unchecked arithmetic, unreachable code reached, transmutes to an invalid value, non-ASCII bytes declared to be text, violated promises of the foreign primitives' declarations.", thorough=["nd", "nr", "bd", "br", "ld", "lr", "sd", "sr", "sfd", "sfr"]),
    Prop("C21", specs9.c21, ["nd", "nr", "ld", "sd", "sfd"], HOW + "Every region of the functional properties whose documented outcome is not a panic, judged on panics alone.", thorough=["nd", "nr", "bd", "br", "ld", "lr", "sd", "sr", "sfd", "sfr"]),
    Prop("C22", specs3.c22, ["ld", "lr"], HOW + "The same obligations as for the native build, on the build with the generated primitives: each foreign entry point is interpreted from the LLVM IR the template crate compiles to, widened as the build script does."),
    Prop("C23", specs.c23, NAT, HOW + "Sum and product of iterators of up to three (sum) or two (product) items, owned and borrowed.", thorough=NATBE),
    Prop("C24", specs.c24, NAT, HOW + "Power-of-two queries, partitioned by the position of the leading one.", thorough=NATBE),
    Prop("C25", specs.c25, NATBE, HOW + "Constants, constructors and word access."),
    Prop("C26", None, ["nd", "ld", "bd", "sd"], "Effect rules over the MIR of every monomorphic function of the crate (public or private) and everything reachable from it and from the harness's entry points, in four configurations: no mutable or interior-mutable static, thread-local, address turned into a number, inline assembly, atomic or volatile intrinsic, foreign function other than the crate's own primitives, or operating-system facility; and items the compiler must accept (the types are Copy, Send, Sync, 'static and 32 bytes; each documented compile-time function in a constant).", thorough=["nd", "nr", "ld", "lr", "bd", "br", "sd", "sr"], classical=effects.c26),
]}
