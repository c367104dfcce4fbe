"""C09: .bands, .tddft and .epme files."""
import io

from gen import files
from gen.base import G
from lib import vf


def run(ctx):
    import castep_outputs as co
    ctx.rule = ("random .bands (1-2 spins with different band counts, k-points in any order), .tddft and .epme files; "
                "distinct by text")
    ctx.need("bands", "tddft", "epme", "bands spin-polarised")
    n = ctx.n(2000, 40000)
    for i in range(n):
        if not ctx.time_left(30, 560):
            break
        g = G(ctx.rng("bands", i))
        text, exp = files.bands(g)
        ok, got = ctx.call("bands: parse", co.parse_bands_file, io.StringIO(text), replay={"text": text})
        ctx.case(text, "bands", text)
        if exp["spin components"] == 2:
            ctx.count("bands spin-polarised")
        if ok:
            ctx.expect("bands: contents", exp, got, text=text)

        g = G(ctx.rng("tddft", i))
        text, exp, occ = files.tddft(g)
        ok, got = ctx.call("tddft: parse", co.parse_tddft_file, io.StringIO(text), replay={"text": text})
        ctx.case(text, "tddft", text)
        if ok:
            if ctx.expect("tddft: contents", exp, {k: v for k, v in got.items() if "occupied band" not in k}, text=text):
                if not any("occupied band" in k for k in got):
                    ctx.fail("tddft-occupied-band-lost", "header line 'Highest occupied band' not reported", text=text)

        g = G(ctx.rng("epme", i))
        text, exp, shifted = files.epme(g)
        ok, got = ctx.call("epme: parse", co.parse_epme_file, io.StringIO(text), replay={"text": text})
        ctx.case(text, "epme", text)
        if not ok:
            continue
        if vf.diff(exp, got) and not vf.diff({**exp, "data": shifted}, got):
            ctx.fail("epme-columns-shifted", "columns after the band indices are read one column early", text=text)
            continue
        ctx.expect("epme: contents", exp, got, text=text)
