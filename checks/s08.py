"""S08: a file cut at a line never yields data the complete file contradicts."""
import io
import re

from gen import castep as gc
from gen import castep_run as gr
from gen import corpus
from gen.base import G
from lib.castepcheck import FULL, parse
from lib.vf import kind, short

TEXT = [e for e in corpus.TEXT if e != "castep"]


#: Values printed one after the other over a run, given as a tuple.
HISTORY = ("'energies'", "'solvation'")


def within(part, whole, path="", fixed=False):
    """Nothing in ``part`` that is not at the same place in ``whole`` (sequences: a prefix). First discrepancy or None."""
    kp, kw = kind(part), kind(whole)
    if kp != kw:
        return f"{path or '/'}: {short(part)} where the complete file gives {short(whole)}"
    if kp == "map":
        for k, v in part.items():
            if k not in whole:
                if isinstance(v, (dict, list, tuple)) and not v:
                    continue                    # no data
                return f"{path}/{k!r}: {short(v)} is not in the complete file"
            d = within(v, whole[k], f"{path}/{k!r}", fixed)
            if d:
                return d
    elif kp == "seq":
        if len(part) > len(whole):
            return f"{path or '/'}: {len(part)} items of {len(whole)}"
        fixed = fixed and not any(h in path for h in HISTORY)
        if fixed and len(part) < len(whole) and isinstance(part, tuple) and isinstance(whole, tuple):
            return f"{path or '/'}: {len(part)} of the {len(whole)} components of a value"
        for i, (a, b) in enumerate(zip(part, whole)):
            d = within(a, b, f"{path}/{i}", fixed)
            if d:
                return d
    elif "'warning'" in path and isinstance(part, str) and isinstance(whole, str) and whole.startswith(part):
        return None                             # the rest of the text is past the cut
    elif not (part == whole or part != part and whole != whole):
        return f"{path or '/'}: {short(part)} where the complete file gives {short(whole)}"
    return None


#: Formats whose tuples are columns or lists of any length, not vectors.
VARIABLE = ("bands", "hug")


#: Defects recorded in known_findings.txt: (mechanism, format or section, what the discrepancy looks like).
KNOWN = [
    ("bands-cut-before-down-spin-block", "bands",
     lambda d, full: re.match(r"/'bands'/\d+/'(band' *: .* is not in the complete file|spin_comp': False where the complete file gives True)", d)
     and int(d.split("/")[2]) < len(full["bands"]) and "band_up" in full["bands"][int(d.split("/")[2])]),
    ("berry-phase-reciprocal-tables-in-cut-file", "berry_phase",
     lambda d, _: re.search(r"'berry_phase'/'polarisation'/'[a-z_ ]+'(/'[A-Za-z]+')?: .* is not in the complete file$", d, re.S)),
    ("md-step-memory-estimate-replaces-earlier", "castep",
     lambda d, full: re.match(r"(/0/)?'memory_estimate'", d) and any("md" in r for r in (full if isinstance(full, list) else [full]))),
]


def report(ctx, mech, d, full, message, **replay):
    """True when it is not one of the recorded defects."""
    for name, what, match in KNOWN:
        if (mech.startswith(what) or mech.endswith(what)) and match(d, full):
            ctx.fail(name, message, **replay)
            return False
    ctx.fail(mech, message, **replay)
    return True


def cuts(g, n, most):
    """Numbers of lines kept."""
    if n <= most:
        return list(range(n))
    edge = set(range(min(6, n))) | set(range(max(0, n - 12), n))
    return sorted(edge | set(g.sample(list(range(n)), most)))


def simple(ctx, ext, raw, most, g, label):
    func = corpus.parser_for(ext)
    text = raw.decode()
    ok, full = ctx.call(f"{ext}: complete file raises", lambda: plainly(func(io.StringIO(text))), replay={"text": text})
    if not ok:
        return
    lines = text.splitlines(True)
    ctx.case((ext, text), label)
    for k in cuts(g, len(lines), most):
        cut = "".join(lines[:k])
        for c in (cut, cut.rstrip("\n")) if g.maybe(0.2) and k else (cut,):
            try:
                got = plainly(func(io.StringIO(c)))
            except Exception:  # noqa: BLE001
                ctx.count("cut rejected")
                continue
            ctx.case((ext, c), f"cut {ext}")
            d = within(got, full, "", ext not in VARIABLE)
            if d and report(ctx, ext, d, full, f"cut after line {k} of {len(lines)}: {d}", text=text, kept=k):
                return


def plainly(x):
    return list(x) if hasattr(x, "__next__") else x


def castep(ctx, g, most):
    """Runs made of sections: what a cut file gives lies within what the sections complete before, or up to, the cut give."""
    runs = []
    for _ in range(g.choice([1, 1, 2])):
        _, head, secs = gr.run_secs(g, closed=True)
        runs += head + secs
    texts = [s.text for s in runs]
    text = "".join(texts)
    lines = text.splitlines(True)
    if len(lines) > 2500:
        return
    ok, full = ctx.call("castep: complete file raises", parse, text, replay={"text": text})
    if not ok:
        return
    ctx.case(text, "castep files")
    ends, n = [], 0                             # line at which each section ends
    for t in texts:
        n += t.count("\n")
        ends.append(n)
    cache = {}

    def upto(j):
        """Parse of the first j sections, or of as many more as make a file that can be parsed."""
        while j not in cache:
            try:
                cache[j] = parse("".join(texts[:j]))
            except Exception:  # noqa: BLE001
                j += 1
        return cache[j]
    cache[len(texts)] = full
    for k in cuts(g, len(lines), most):
        try:
            got = parse("".join(lines[:k]))
        except Exception:  # noqa: BLE001
            ctx.count("cut rejected")
            continue
        ctx.case((text, k), "cut castep")
        j = sum(e <= k for e in ends)
        lo, hi = upto(j), upto(min(j + 1, len(texts)))
        if len(got) > len(hi):
            ctx.fail("castep-runs", f"{len(got)} runs of {len(hi)}", text=text, kept=k)
            continue
        for i, r in enumerate(got):
            for key, val in r.items():
                d = within(val, hi[i][key], repr(key), True) if key in hi[i] else f"{key!r} is not in the complete file"
                if d and i < len(lo) and key in lo[i] and not within(val, lo[i][key], "", True):
                    d = None                    # still what was printed before
                if d:
                    names = [s.name for s in runs]
                    if report(ctx, f"castep-{names[min(j, len(names) - 1)]}", d, hi[i], f"cut after line {k} of {len(lines)}: {d}",
                              text=text, kept=k):
                        return


def section(ctx, w, g):
    """One section, every line."""
    s = gc.Sys(g, nmax=4)
    first, sec = gc.build_info(g, s), w(g, s)
    text = first.text + sec.text
    ok, full = ctx.call("castep: complete file raises", parse, text, replay={"text": text})
    if not ok:
        return
    lines, n0 = text.splitlines(True), first.text.count("\n")
    ctx.case(text, "castep sections")
    for k in range(n0, len(lines)):
        try:
            got = parse("".join(lines[:k]))
        except Exception:  # noqa: BLE001
            ctx.count("cut rejected")
            continue
        ctx.case((text, k), "cut castep section")
        d = within(got, full, "", True)
        if d and report(ctx, f"castep-{sec.name}", d, full, f"cut after line {k - n0} of {len(lines) - n0}: {d}", text=text, kept=k):
            return


def binary(ctx, ext, raw, most, g):
    func = corpus.parser_for(ext)
    ok, full = ctx.call(f"{ext}: complete file raises", lambda: plainly(func(io.BytesIO(raw))), replay={"raw": raw.hex()})
    if not ok:
        return
    ctx.case((ext, raw), "binary files")
    for k in cuts(g, len(raw), most):
        try:
            got = plainly(func(io.BytesIO(raw[:k])))
        except Exception:  # noqa: BLE001
            ctx.count("cut rejected")
            continue
        ctx.case((ext, raw, k), f"cut {ext}")
        d = within(got, full)
        if d:
            ctx.fail(ext, f"cut after byte {k} of {len(raw)}: {d}", raw=raw.hex(), kept=k)
            return


def run(ctx):
    ctx.level = "fault_enumeration"
    ctx.rule = ("distinct (file, cut): every line (long files: the first and last lines and a random sample) of generated and recorded files of "
                "all formats; every line of every .castep section; random bytes of the binary formats")
    for k in range(ctx.n(3, 40)):
        for ext in TEXT:
            if not ctx.time_left(20, 240):
                break
            g = G(ctx.rng(ext, k))
            simple(ctx, ext, corpus.some(g, ext), ctx.n(60, 400), g, f"{ext} files")
    for k in range(ctx.n(3, 40)):
        for ext in corpus.BINARY:
            g = G(ctx.rng(ext, k))
            binary(ctx, ext, corpus.some(g, ext), ctx.n(60, 300), g)
    for k in range(ctx.n(1, 12)):
        for w in gr.ALL:
            if not ctx.time_left(45, 480):
                break
            section(ctx, w, G(ctx.rng("section", w.__name__, k)))
    for name, ext in corpus.samples("castep"):
        if not ctx.quick:
            simple(ctx, ext, corpus.sample(name), 150, G(ctx.rng(name)), "recorded castep")
    for k in range(ctx.n(12, 300)):
        if not ctx.time_left(75, 780):
            break
        castep(ctx, G(ctx.rng("castep", k)), ctx.n(25, 80))
    ctx.need("cut rejected", "cut castep", "cut castep section", *(f"cut {e}" for e in TEXT))
