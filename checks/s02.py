"""S02: section filters select and never alter."""
from gen import castep as gc
from gen import castep_dyn as gd
from gen import castep_run as gr
from gen.base import G
from lib.castepcheck import FULL, matches, parse
from lib.vf import diff

NAMES = sorted(FULL)
LOW = frozenset(gd.HIGH - {"PARAMETERS", "GEOM_OPT", "MD", "PHONON", "PSPOT", "SYMMETRIES", "SYS_INFO"})


def check(ctx, label, secs, text, filters, **more):
    rep = {"text": text, "filters": sorted(filters)}
    ok, res = ctx.call("filtered-parse-raises", parse, text, filters, replay=rep)
    if not ok:
        return None
    ctx.case((text, filters), label)
    got = res[0] if res else {}
    if len(res) > 1:
        ctx.fail("runs", f"{len(res)} runs", **rep)
        return None
    d = matches(ctx, secs, filters, got)
    if d:
        ctx.fail("selection", f"{label}: " + "; ".join(d[:4]), **rep)
        return None
    return got


def run(ctx):
    from castep_outputs.parsers.castep_file_parser import Filters
    ctx.rule = "distinct (text, filter set): every category alone and all but it, named presets, random subsets, on generated runs"
    # the named presets are nested, and full is everything but the test extras
    for a, b in (("NONE", "LOW"), ("LOW", "MEDIUM"), ("MEDIUM", "HIGH"), ("HIGH", "FULL"), ("FULL", "ALL"), ("TESTING", "ALL")):
        if not {a, b} <= set(Filters.__members__):
            ctx.fail("preset-missing", f"{a} or {b} is not a preset")
            return
        if a != "TESTING" and Filters[a] & Filters[b] != Filters[a]:
            ctx.fail("presets-not-nested", f"{a} is not within {b}")
    sets = {n: frozenset(m.name for m in Filters if m in Filters[n]) for n in ("LOW", "MEDIUM", "HIGH", "FULL", "TESTING", "NONE")}
    singles = {m.name for m in Filters}
    if singles != set(NAMES):
        raise RuntimeError(f"section categories differ from those modelled: {singles ^ set(NAMES)}")
    if set(NAMES) - sets["FULL"] - {"TEST_EXTRA_DATA"} or sets["NONE"]:
        ctx.fail("full-not-all", f"{set(NAMES) - sets['FULL']}")
    # every section, with each category alone and without it
    for w in [gc.build_info, *gr.ALL, gd.md_data]:
        for k in range(ctx.n(1, 8)):
            if not ctx.time_left(30, 300):
                break
            g = G(ctx.rng("each", w.__name__, k))
            s = gc.Sys(g)
            other = g.choice(gr.ALL if w is not gd.md_data else gr.SETUP)
            secs = [w(g, s), other(g, s)]
            text = "".join(x.text for x in secs)
            for n in NAMES:
                if check(ctx, "one category", secs, text, frozenset([n])) is None:
                    break
                if ctx.quick and g.maybe(0.7):
                    continue
                if check(ctx, "all but one category", secs, text, FULL - {n}) is None:
                    break
    # the variants of a section, without and with nothing but its own categories
    for w in [gc.build_info, *gr.ALL]:
        for k in range(ctx.n(24, 80)):
            if not ctx.time_left(45, 380):
                break
            g = G(ctx.rng("variant", w.__name__, k))
            s = gc.Sys(g, nmax=3)
            secs = [w(g, s), w(g, s)] if w is not gc.build_info and g.maybe(0.2) else [w(g, s)]
            text = "".join(x.text for x in secs)
            own = sorted(frozenset().union(*(f for x in secs for f in x.flags)))
            for f in (FULL, FULL - {g.choice(own)} if own else frozenset(), frozenset(own), FULL - frozenset(own)):
                if check(ctx, "variant", secs, text, f) is None:
                    break
    # titles and warnings are free text: they may look like the start of any section
    for v in gc.TITLES:
        for k in range(ctx.n(2, 8)):
            if not ctx.time_left(50, 420):
                break
            g = G(ctx.rng("title", v, k))
            s = gc.Sys(g)
            secs = [gc.title(g, s, v) if g.maybe() else gc.warning(g, s, g.choice([0, 3]), [v]), *(g.choice(gr.ALL)(g, s) for _ in range(g.ri(1, 3)))]
            text = "".join(x.text for x in secs)
            for f in (FULL, LOW, FULL - {"PARAMETERS"}, frozenset(g.sample(NAMES, 9)), frozenset([g.choice(NAMES)])):
                if check(ctx, "free text", secs, text, f) is None:
                    break
    # mixtures
    for k in range(ctx.n(100, 1500)):
        if not ctx.time_left(85, 780):
            break
        g = G(ctx.rng("mixture", k))
        kind, head, secs = gr.run_secs(g, g.choice(["single", "single", "md", "geom"]), closed=True)
        if g.maybe(0.3):
            secs = secs[1:]
        text = "".join(x.text for x in secs)
        ctx.count("mixture " + kind.split()[0])
        full = check(ctx, "full", secs, text, FULL)
        if full is None:
            continue
        for n, f in sets.items():
            if g.maybe(0.5):
                check(ctx, "preset " + n, secs, text, f)
        one = frozenset(g.sample(NAMES, g.ri(1, 4)))
        two = frozenset(g.sample(NAMES, g.choice([1, 3, 8, 20])))
        a, b = check(ctx, "subset", secs, text, one), check(ctx, "subset", secs, text, two)
        both = check(ctx, "union", secs, text, one | two)
        # nothing is lost or altered by asking for more
        if both is not None:
            for part in (a, b):
                for key, val in (part or {}).items():
                    if "geom_opt" in both and key in gd.MOVED:
                        continue            # kept with the step they belong to
                    if key not in both:
                        ctx.fail("lost-by-asking-for-more", f"{key} missing from the union", text=text, filters=[sorted(one), sorted(two)])
                    elif key not in ("md", "geom_opt", "energies", "species_properties", "external_files", "thermodynamics", "memory_estimate",
                                     "delocalised_internal") and diff(val, both[key]):
                        # containers filled by several categories may only grow
                        if not isinstance(val, (dict, list)) or len(val) == len(both[key]):
                            ctx.fail("altered-by-asking-for-more", key, text=text, filters=[sorted(one), sorted(two)])
    # default
    import io
    from castep_outputs.parsers.castep_file_parser import parse_castep_file
    for k in range(ctx.n(4, 60)):
        g = G(ctx.rng("default", k))
        _, _, secs = gr.run_secs(g, closed=True)
        text = "".join(x.text for x in secs)
        ok, res = ctx.call("default-raises", parse_castep_file, io.StringIO(text), replay={"text": text})
        if ok:
            ctx.case(text, "default filters")
            d = matches(ctx, secs, sets["HIGH"], res[0] if res else {})
            if d:
                ctx.fail("default", "; ".join(d[:3]), text=text)
    ctx.need("one category", "all but one category", "full", "union", "default filters", "mixture md", "mixture geom",
             *(f"preset {n}" for n in sets))
