"""C10: .magres, .efield, .elastic, .xrd_sf, .hug and .err files."""
import io

from gen import files
from gen.base import G
from lib import vf


def run(ctx):
    import castep_outputs as co
    ctx.rule = ("random .magres (1-3 species, glued species+index, every tensor kind, pair tensors, optional old-style "
                "block), .efield, .elastic, .xrd_sf, .hug and .err files; distinct by text")
    ctx.need("magres", "efield", "elastic", "xrd_sf", "hug", "err", "magres glued index")
    n = ctx.n(1200, 20000)

    def do(kind, func, i, writer):
        g = G(ctx.rng(kind, i))
        text, exp, *known = writer(g)
        ok, got = ctx.call(f"{kind}: parse", func, io.StringIO(text), replay={"text": text})
        ctx.case(text, kind, text)
        return text, exp, (known[0] if known else None), ok, got

    for i in range(n):
        if not ctx.time_left(30, 560):
            break
        for kind, func in (("xrd_sf", co.parse_xrd_sf_file), ("hug", co.parse_hug_file), ("err", co.parse_err_file)):
            text, exp, _, ok, got = do(kind, func, i, getattr(files, kind))
            if ok:
                ctx.expect(f"{kind}: contents", exp, got, text=text)

        text, exp, known, ok, got = do("efield", co.parse_efield_file, i, files.efield)
        if ok:
            got = vf.plain(got)
            for key, mech in (("oscillator_strengths", "efield-oscillator-columns-shifted-last-row-lost"),
                              ("permittivity", "efield-last-permittivity-row-lost")):
                if key in exp and vf.diff(exp[key], got.get(key)) and not vf.diff(known[key], got.get(key)):
                    ctx.fail(mech, "known wrong table", text=text)
                    exp.pop(key), got.pop(key)
            ctx.expect("efield: contents", exp, got, text=text)

        text, exp, known, ok, got = do("elastic", co.parse_elastic_file, i, files.elastic)
        if ok:
            got = vf.plain(got)
            k = "internal_strain"
            if k in exp and vf.diff(exp[k], got.get(k)) and not vf.diff(known[k], got.get(k)):
                ctx.fail("elastic-internal-strain-has-atom-index", "atom index returned as a strain", text=text)
                exp.pop(k), got.pop(k)
            ctx.expect("elastic: contents", exp, got, text=text)

        text, exp, known, ok, got = do("magres", co.parse_magres_file, i, files.magres)
        if any(len(str(a[1])) >= 3 for a in exp["atoms"]["coords"]):
            ctx.count("magres glued index")
        if ok:
            got = vf.plain(got)
            if known:
                ts, per_atom = got.pop("total_shielding", None), exp.pop("total_shielding")
                if len(per_atom) == 1:
                    ctx.expect("magres: total shielding", known["total_shielding"], ts, text=text)
                elif not vf.diff(known["total_shielding"], ts):
                    ctx.fail("magres-only-last-total-shielding",
                             f"{len(per_atom)} atoms, only the last total shielding tensor is kept", text=text)
                elif vf.diff(per_atom, ts):
                    ctx.fail("magres: total shielding", f"{vf.short(ts)}", text=text)
            ctx.expect("magres: contents", exp, got, text=text)
