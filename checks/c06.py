"""C06: .md/.geom/.ts frames: generated files against the data they state."""
import io

from gen.base import G
from gen import traj


def run(ctx):
    import castep_outputs as co
    ctx.rule = ("random trajectory files (1-8 frames, 1-8 atoms, optional tags, headers, random line "
                "types, fixed or varying between frames); non-trivial: at least one frame; "
                "distinct by text")
    ctx.need("md file", "geom file", "ts file", "frames compared")
    n = ctx.n(1500, 30000)
    for i in range(n):
        if not ctx.time_left(30, 400):
            break
        g = G(ctx.rng("md", i))
        kind = g.choice(["md", "geom"])
        text, exp, _ = traj.md_file(g, kind, fixed=g.maybe(0.5), n=g.many(1, 2, 3, 4, 6, 8, p=0.005), nmax=8,
                                    final_blank=g.maybe(0.8))
        ok, got = ctx.call(f"{kind}: parse", co.parse_md_geom_file, io.StringIO(text),
                           replay={"text": text})
        ctx.case(text, f"{kind} file", text)
        if ok:
            ctx.count("frames compared", len(exp))
            ctx.expect(f"{kind}: frames", exp, got, text=text)
    for i in range(n):
        if not ctx.time_left(42, 560):
            break
        g = G(ctx.rng("ts", i))
        text, exp = traj.ts_file(g)
        ok, got = ctx.call("ts: parse", co.parse_ts_file, io.StringIO(text), replay={"text": text})
        ctx.case(text, "ts file", text)
        if ok:
            ctx.expect("ts: frames", exp, got, text=text)
