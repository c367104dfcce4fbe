"""C11: formatted grid files (.den_fmt, .pot_fmt, .elf_fmt, .chdiff_fmt)."""
import io

from gen import files
from gen.base import G


def run(ctx):
    import castep_outputs as co
    ctx.rule = "random grids up to 5x5x5 with 1, 2 or 4 data columns in each of the four formats; distinct by text"
    funcs = {"elf_fmt": co.parse_elf_fmt_file, "chdiff_fmt": co.parse_chdiff_fmt_file,
             "pot_fmt": co.parse_pot_fmt_file, "den_fmt": co.parse_den_fmt_file}
    ctx.need(*funcs)
    for i in range(ctx.n(1500, 40000)):
        if not ctx.time_left(30, 560):
            break
        for kind, func in funcs.items():
            g = G(ctx.rng(kind, i))
            text, exp = files.fmt(g, kind)
            ok, got = ctx.call(f"{kind}: parse", func, io.StringIO(text), replay={"text": text})
            ctx.case(text, kind, text)
            ctx.count("grid points", len(exp["q"]))
            if ok:
                ctx.expect(f"{kind}: contents", exp, got, text=text)
            # a ragged row (a value lost or too many) must not shift the columns: reject
            if len(exp) > 2:
                lines = text.splitlines(True)
                k = g.choice([j for j, ln in enumerate(lines) if ln.strip()][-len(exp["q"]):])
                bad = lines[:k] + [" ".join(lines[k].split()[:-1]) + "\n"] + lines[k + 1:]
                try:
                    got = func(io.StringIO("".join(bad)))
                except Exception:  # noqa: BLE001
                    ctx.count("ragged rows rejected")
                else:
                    ls = {len(v) for v in got.values()}
                    if len(ls) > 1:
                        ctx.fail(f"{kind}: ragged row shifts columns", f"column lengths {ls}", text="".join(bad))
