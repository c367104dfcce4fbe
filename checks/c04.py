"""C04: steps of MD and geometry optimisation own exactly their own data."""
from gen import castep as gc
from gen import castep_dyn as gd
from gen.base import G
from lib.castepcheck import check_run, sections_check


def run(ctx):
    ctx.rule = "distinct generated .castep texts of MD runs and geometry optimisations"
    sections_check(ctx, [gd.internal_constraints, gd.deloc_table, gd.deloc_active, gd.md_data], quick=(30, 120), thorough=(100, 1000), again=(20, 60))
    for k in range(ctx.n(320, 3000)):
        if not ctx.time_left(40, 780):
            break
        for kind in ("md", "geom"):
            g = G(ctx.rng(kind, k))
            s = gc.Sys(g, nmax=g.choice([2, 5, 12]), tags=g.maybe(0.2), labels=False)
            secs = gd.dyn_secs(g, s, kind)
            n = sum(x.name in ("md_step", "geom_step") for x in secs)
            ctx.count("steps", n)
            res = check_run(ctx, kind, secs, mech=kind + "-steps")
            if res:
                got = len(res[0].get("md", ())) if kind == "md" else len(res[0].get("geom_opt", {}).get("iterations", ()))
                ctx.count(f"{kind} steps returned", got)
    ctx.need("md", "geom", "steps", "md steps returned", "geom steps returned")
