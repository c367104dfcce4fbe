"""S14: files embedded in a .castep output are read as if they stood alone."""
import io

from gen import castep as gc
from gen import castep_run as gr
from gen import corpus
from gen.base import G
from gen.castep import Sec, put
from lib.castepcheck import FULL, matches, parse

KINDS = ("bands", "hug", "phonon_dos", "efield", "xrd_sf", "elf_fmt", "chdiff_fmt", "pot_fmt", "den_fmt", "elastic")


def run(ctx):
    import castep_outputs as co
    ctx.rule = "distinct .castep texts holding 1-10 embedded files of the ten formats, between other sections, after runs with and without a blank line"
    for k in range(ctx.n(500, 12000)):
        if not ctx.time_left(30, 560):
            break
        g = G(ctx.rng(k))
        s = gc.Sys(g, nmax=4)
        kinds = g.sample(KINDS, g.choice([1, 1, 2, 4, 10]))
        ext, secs, raws = {}, [], {}
        for kind in kinds:
            raw = corpus.some(g, kind).decode()
            if g.maybe(0.1) and kind in ("hug", "efield", "phonon_dos", "elastic"):
                raw = g.choice(["", "\n", " \n"])       # nothing was written yet
                ctx.count("empty copy")
            raw += "" if raw.endswith("\n") or not raw else "\n"
            ok, ext[kind] = ctx.call(f"alone-{kind}", getattr(co, f"parse_{kind}_file"), io.StringIO(raw), replay={"text": raw})
            raws[kind] = raw
            if not ok:
                return

            def eff(run, filters, wrong, kind=kind):
                run.setdefault("external_files", {})[kind] = ext[kind]
            secs.append(Sec("external_" + kind, f"<BEGIN {kind}>\n{raw}<END {kind}>\n", ["TEST_EXTRA_DATA"], eff))
            ctx.count("embedded " + kind)
        before = [gc.build_info(g, s)] + [w(g, s) for w in g.sample(gr.ALL, g.ri(0, 3))]
        if g.maybe(0.6):                        # directly after the timings, as the test suite writes them
            before.append(gc.finalisation(g, s, blank=g.maybe()))
        between = [w(g, s) for w in g.sample([gc.warning, gc.memory, gc.mass, gc.parallel], g.ri(0, 2))] if g.maybe(0.3) else []
        at = g.ri(0, len(secs))
        secs = before + secs[:at] + between + secs[at:]
        if before[-1].name == "finalisation" and not before[-1].text.endswith("\n\n") and secs[len(before)].name[:8] != "external":
            continue
        text = "".join(x.text for x in secs)
        for filters in (FULL, frozenset(["TEST_EXTRA_DATA"]), FULL - {"TEST_EXTRA_DATA"}, FULL - {"SYS_INFO"}):
            rep = {"text": text, "filters": sorted(filters)}
            ok, res = ctx.call("embedded-raises", parse, text, filters, replay=rep)
            if not ok:
                break
            ctx.case((text, filters), "embedded")
            d = matches(ctx, secs, filters, res[0] if res else {})
            if d:
                ctx.fail("embedded-" + (kinds[0] if len(kinds) == 1 else "files"), "; ".join(d[:4]), **rep)
                break
    ctx.need("embedded", "empty copy", *("embedded " + k for k in KINDS))
