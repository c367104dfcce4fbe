"""S01: runs appended to one .castep file stay separate."""
from gen import castep as gc
from gen import castep_run as gr
from gen.base import G
from lib.castepcheck import FULL, matches, parse
from lib import vf
from lib.vf import diff

HIGH = frozenset(FULL - {"SCF", "TEST_EXTRA_DATA"})


def run(ctx):
    ctx.rule = ("distinct .castep texts of 2-6 appended runs (single points, MD, geometry optimisations; complete or ended early), compared "
                "with what each run states and with the result of parsing each alone")
    for k in range(ctx.n(120, 1200)):
        if not ctx.time_left(35, 780):
            break
        g = G(ctx.rng("runs", k))
        runs = [gr.run_secs(g) for _ in range(g.choice([1, 1, 2, 3, 5]))] + [gr.run_secs(g, closed=True)]
        if g.maybe(0.2):                            # the very same run again
            j = g.ri(0, len(runs) - 1)
            runs.insert(g.ri(0, j), runs[j])
        filters = g.choice([FULL, FULL, HIGH, frozenset(g.sample(sorted(FULL), g.ri(1, 25))) | {"SYS_INFO"}])
        heads = ["".join(x.text for x in h) for _, h, _ in runs]
        texts = ["".join(x.text for x in s) for _, _, s in runs]
        text = "".join(h + t for h, t in zip(heads, texts))
        rep = {"text": text, "filters": sorted(filters), "kinds": [n for n, _, _ in runs]}
        ok, res = ctx.call("appended-raises", parse, text, filters, replay=rep)
        if not ok:
            continue
        ctx.case(text, "appended files", sample=text[:300])
        for n, _, _ in runs:
            ctx.count("run " + n)
        # each run in a file of its own
        alone = []
        for h, t, (_, _, secs) in zip(heads, texts, runs):
            if gr.is_open(secs):            # alone, an unfinished step is an error
                ctx.count("run ended within a step")
                alone.append(None)
                continue
            ok, a = ctx.call("alone-raises", parse, h + t, filters, replay=rep)
            alone.extend(a if ok else [None])
        if len(res) != len(runs):
            ctx.fail("run-count", f"{len(res)} results of {len(runs)} runs", **rep)
            continue
        for i, (got, one, (_, _, secs)) in enumerate(zip(res, alone, runs)):
            ctx.count("runs compared")
            d = diff(one, got) if one is not None else None
            if d:
                ctx.fail("not-as-alone", f"run {i + 1}/{len(runs)}: " + "; ".join(d[:3]), **rep)
                break
            d = matches(ctx, secs, filters, got)
            if d:
                ctx.fail("not-as-stated", f"run {i + 1}/{len(runs)}: " + "; ".join(d[:3]), **rep)
                break
            if any(got is other for other in res[:i]):
                ctx.fail("shared-result", "two runs are one object", **rep)
    # runs of which the filters leave nothing are not returned at all: results of appended files are those of their runs in order
    for k in range(ctx.n(70, 1500)):
        if not ctx.time_left(55, 820):
            break
        g = G(ctx.rng("filtered", k))
        parts = ["".join(x.text for x in h + s) for _, h, s in (gr.run_secs(g, g.choice(["single", "single", "md", "geom"]), closed=True) for _ in range(g.ri(2, 4)))]
        filters = frozenset(g.sample(sorted(FULL), g.choice([0, 1, 1, 2, 5, 15])))
        rep = {"text": "".join(parts), "filters": sorted(filters)}
        ok, res = ctx.call("appended-raises", parse, "".join(parts), filters, replay=rep)
        if not ok:
            continue
        ctx.case((parts, filters), "filtered files")
        one = [x for p in parts for x in (ctx.call("alone-raises", parse, p, filters, replay=rep)[1] or [])]
        d = diff(one, res)
        if d:
            ctx.fail("not-as-alone", "; ".join(d[:3]), **rep)
    # files put together with nothing in between: a run need not leave a blank line behind
    recorded = [p.read_text() for p in sorted((vf.REPO / "test/data_files").glob("*.castep"))]
    for k in range(ctx.n(60, 1200)):
        if not ctx.time_left(65, 850):
            break
        g = G(ctx.rng("close", k))
        parts, one = [], []
        while len(parts) < g.ri(2, 4):
            if recorded and g.maybe(0.15):
                t = g.choice(recorded)
            else:
                _, h, s = gr.run_secs(g, "single", closed=True)
                t = "".join(x.text for x in [gr.banner(g, None), *s]).rstrip() + "\n"
            try:
                one += parse(t, FULL)
            except Exception:  # noqa: BLE001 -- its last section wants its end
                ctx.count("run that wants an end")
                continue
            parts.append(t)
        if g.maybe(0.2):
            j = g.ri(0, len(parts) - 1)
            parts.append(parts[j])
            one = [x for t in parts for x in parse(t, FULL)]
        rep = {"text": "".join(parts)}
        ok, res = ctx.call("appended-raises", parse, "".join(parts), FULL, replay=rep)
        if not ok:
            continue
        ctx.case(parts, "files put together")
        d = diff(one, res)
        if d:
            ctx.fail("not-as-alone", "; ".join(d[:3]), **rep)
    ctx.need("files put together", "appended files", "runs compared", "filtered files", "run md", "run geom", "run single", "run single cut", "run ended within a step")
