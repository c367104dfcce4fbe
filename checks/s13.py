"""S13: number conversion against exact arithmetic."""
import math
import struct
from decimal import Decimal
from fractions import Fraction

from gen.base import G

F = Fraction


def exact(text):
    """Exact value of a decimal literal, by hand (not with float())."""
    if "/" in text:
        a, b = text.split("/")
        return exact(a) / exact(b)
    t = text.lower()
    mant, _, ex = t.partition("e")
    sign = -1 if mant.startswith("-") else 1
    mant = mant.lstrip("+-")
    ip, _, fp = mant.partition(".")
    v = F(int((ip + fp) or "0"), 10 ** len(fp))
    e = int(ex or "0")
    return sign * v * (F(10) ** e)


def nearest(q):
    """Correctly rounded double of a rational (round half even), independently of float()."""
    if q == 0:
        return 0.0
    s = -1.0 if q < 0 else 1.0
    q = abs(q)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if q < F(2) ** e:
        e -= 1
    e = max(e, -1022)
    m = q / F(2) ** (e - 52)
    n = m.numerator // m.denominator
    rem = m - n
    if rem > F(1, 2) or (rem == F(1, 2) and n % 2):
        n += 1
    return s * math.ldexp(n, e - 52)


def real(g):
    """A real in some CASTEP notation."""
    k = g.ri(0, 11)
    sign = g.choice(["", "", "-", "+"])
    if k < 3:
        t = f"{abs(g.mag(-6, 8)):.{g.ri(1, 16)}f}"
    elif k < 6:
        t = f"{abs(g.mag(0, 0)):.{g.ri(1, 17)}f}{g.choice('Ee')}{g.choice(['+', '-', ''])}{g.ri(0, 99):0{g.ri(1, 3)}d}"
    elif k == 6:
        t = f".{g.ri(0, 10 ** g.ri(1, 18))}"
    elif k == 7:
        t = f"{g.ri(0, 10 ** g.ri(1, 18))}."
        if g.maybe(0.4):
            t += f"{g.choice('Ee')}{g.choice(['+', '-', ''])}{g.ri(0, 280)}"
    elif k == 8:
        t = f"{g.ri(0, 9)}{g.choice('Ee')}{g.choice(['+', '-', ''])}{g.ri(0, 299)}"
    elif k == 9:      # hard cases: half way between doubles, subnormals, extremes
        t = g.choice([halfway(g), "4.9406564584124654E-324", "2.4703282292062327E-324", "2.2250738585072011E-308",
                      "1.7976931348623157E+308", "9007199254740993.0", "9007199254740992.5", "0.1000000000000000055511151231257827"])
    elif k == 10:
        t = f"0.{'0' * g.ri(0, 30)}{g.ri(1, 999999)}"
    else:
        t = g.choice(["0.0", "0.", ".0", "0.000000E+000", "0E0", "1.0", "100.0"])
    return sign + t


def halfway(g):
    m = g.r.getrandbits(52) | (1 << 52)
    e = g.ri(-60, 20)
    q = (F(m) + F(1, 2)) * F(2) ** e
    if q.denominator.bit_length() > 120:
        return "0.5"
    d = Decimal(q.numerator) / 1
    k = q.denominator.bit_length() - 1
    digits = q.numerator * 5 ** k
    s = str(digits).rjust(k + 1, "0")
    return (s[:-k] + "." + s[-k:]) if k else f"{d}."


def integer(g):
    return g.choice(["", "", "-", "+"]) + g.choice([str(g.ri(0, 9)), str(g.ri(0, 10 ** 6)), str(g.r.getrandbits(80)), f"{g.ri(0, 999):05d}"])


def rational(g):
    n = 10 ** g.choice([1, 3, 3, 3, 17, 25])
    return f"{g.choice(['', '', '-', '+'])}{g.ri(0, n)}/{g.ri(1, n)}"


WORDS = ["eV", "O_00.usp", "123abc", "1.2.3", "1-2", "--3", "+-1", "e5", "1e", "1e+", "E+12", ".", "-", "+", "", " ", "1/2/3", "1/",
         "/2", "1,2", "3 eV", "1 2 x", "(1)", "1_000", "0x1F", "1.0f", "1d0x", "Tr", "Falsey", "TT", "1 T", "one", "1/2.5", "#", "7:8",
         "2.0*", "x1", "1x", "3.4.5 1", "5%", "default", "Thomas-Fermi"]


def run(ctx):
    from castep_outputs.utilities import type_conv as tc
    from castep_outputs.utilities.castep_res import get_numbers
    ctx.rule = ("random integers, reals (with or without leading/trailing digits, exponents of 1-3 digits, half-way, "
                "subnormal and extreme values), rationals, logicals, vectors of them in random spacing, text that is not "
                "a number, and random big-endian values; expected values from exact rational arithmetic; distinct by text")
    ctx.need("real", "integer", "rational", "logical", "vector", "not a number", "binary", "numbers in a line")

    def conv(text, typ, exp, what):
        ok, got = ctx.call(f"{what}: conversion", tc.to_type, text, typ, replay={"text": text})
        if ok:
            ctx.expect(f"{what}: value", exp, got, text=repr(text))

    def kind(text, exp, what):
        ok, got = ctx.call(f"{what}: type", tc.determine_type, text, replay={"text": text})
        if ok and got is not exp:
            ctx.fail(f"{what}: type", f"{text!r} judged {got.__name__}, expected {exp.__name__}", text=text)

    for i in range(ctx.n(12000, 300000)):
        if not ctx.time_left(30, 560):
            break
        g = G(ctx.rng("n", i))
        t = real(g)
        v = nearest(exact(t))
        ctx.case(t, "real", t)
        conv(t, float, v, "real")
        kind(t, float, "real")
        t = integer(g)
        ctx.case(t, "integer", t)
        conv(t, int, int(exact(t)), "integer")
        conv(t, float, nearest(exact(t)), "integer as real")
        kind(t, int, "integer")
        t = rational(g)
        ctx.case(t, "rational", t)
        conv(t, float, nearest(exact(t)), "rational")
        kind(t, float, "rational")
        t = g.choice(["T", "F", "t", "f", "true", "FALSE", "True", "false", "TRUE", "False", "tRuE", "fAlSe"])
        ctx.case(t, "logical", t)
        conv(t, bool, t.lower() in ("t", "true"), "logical")
        kind(t, bool, "logical")
        # vectors
        sub = g.choice([[integer], [real], [rational], [real, integer], [rational, integer], [real, rational, integer]])
        toks = [g.choice(sub)(g) for _ in range(g.ri(2, 9))]
        text = "".join(g.choice([" ", "  ", "\t", "   "]) + t for t in toks) if g.maybe() else " ".join(toks)
        allint = all(not set(t) & set("./eE") for t in toks)
        ctx.case(text, "vector", text)
        kind(text, int if allint else float, "vector")
        conv(toks, float, tuple(nearest(exact(t)) for t in toks), "vector")
        if allint:
            conv(toks, int, tuple(int(exact(t)) for t in toks), "integer vector")
            conv({"a": toks, "b": toks[0]}, int, {"a": tuple(int(exact(t)) for t in toks), "b": int(exact(toks[0]))}, "mapping")
        d = {"x": toks[0], "v": toks, "other": "3"}
        tc.fix_data_types(d, {"x": float, "v": float, "absent": int})
        ctx.expect("fix_data_types", {"x": nearest(exact(toks[0])), "v": tuple(nearest(exact(t)) for t in toks), "other": "3"}, d)
        if i % 4 == 0:
            ctx.count("numbers in a line")
            # digits glued to words are not numbers of their own in the lines used here
            plain = [t for t in toks if "/" not in t]
            line = " ".join(x for t in plain for x in (g.choice(["value", "is", "E(eV)", "=", "--", "|", "and"]), t))
            ctx.expect("numbers in a line", plain, get_numbers(line), line=line)
            nn = [x for x in plain if x.isdigit()] if g.maybe() else plain
            if nn:
                exp = tuple(int(x) for x in nn) if all(x.isdigit() for x in nn) else tuple(nearest(exact(x)) for x in nn)
                ctx.expect("integers or reals", exp, tc.parse_int_or_float(nn), numbers=nn)
        # text
        t = g.choice(WORDS)
        if g.maybe(0.3):
            t = g.choice([t + " " + g.word(), g.word() + " " + real(g), integer(g) + g.choice("xyzQ_:"), real(g) + g.choice(["eV", "ang", "%", "*"])])
        ctx.case(t, "not a number")
        kind(t, str, "not a number")
        conv(t, str, t, "text")
        # binary
        n = g.ri(1, 6)
        ints = [g.choice([g.ri(-9, 9), -2 ** 31, 2 ** 31 - 1, g.ri(-2 ** 31, 2 ** 31 - 1)]) for _ in range(n)]
        dbl = [g.choice([g.mag(), 0.0, 1e-310, 1.7976931348623157e308, -5e-324, math.inf]) for _ in range(n)]
        ctx.case((ints, dbl), "binary")
        true = g.choice([1, -1])
        word = g.choice(["", " ", "\0", "  "]) + g.words(g.ri(1, 3)) + g.choice(["", "  ", "\0\0", "\n", "\t "])
        ok, got = ctx.call("binary str", tc.parse_bytes, word.encode(), str, replay={"word": word})
        if ok:
            ctx.expect("binary str", word, got, word=word)

        for typ, vals, raw in ((int, ints, b"".join(x.to_bytes(4, "big", signed=True) for x in ints)),
                               (float, dbl, struct.pack(f">{n}d", *dbl)),
                               (bool, [x % 2 == 0 for x in ints],  # true is 1 or -1 by compiler
                                b"".join((true if x % 2 == 0 else 0).to_bytes(4, "big", signed=True) for x in ints)),
                               (complex, [complex(a, b) for a, b in zip(dbl, reversed(dbl))],
                                b"".join(struct.pack(">dd", a, b) for a, b in zip(dbl, reversed(dbl))))):
            ok, got = ctx.call(f"binary {typ.__name__}", tc.parse_bytes, raw, (typ, ...), replay={"raw": raw.hex()})
            if ok:
                ctx.expect(f"binary {typ.__name__}", vals, got, raw=raw.hex())
            try:
                got = tc.parse_bytes(raw, typ)
            except ValueError:
                if n == 1:
                    ctx.fail(f"binary {typ.__name__}", "single value refused", raw=raw.hex())
            else:
                if n > 1:
                    ctx.fail(f"binary {typ.__name__}", f"{n} values returned as the single {got!r}", raw=raw.hex())
                else:
                    ctx.expect(f"binary {typ.__name__}", vals[0], got, raw=raw.hex())
