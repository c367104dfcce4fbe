"""C13: .cst_esp and .epme_bin files."""
import io

from gen import binary
from gen.base import G


def run(ctx):
    from castep_outputs.bin_parsers.cst_esp_file_parser import parse_cst_esp_file
    from castep_outputs.bin_parsers.epme_bin_parser import parse_epme_bin_file
    ctx.rule = ("random .cst_esp (grids 2-6 x 1-5 x 1-6, with and without a second potential) and .epme_bin files "
                "(1-2 spins, 1-3 k-point pairs, 1-4 bands, k-points in any order), plus .epme_bin files whose markers "
                "or counts disagree, which must be rejected; distinct by content")
    ctx.need("cst_esp", "cst_esp with mgga", "epme_bin", "epme_bin rejected")
    breaks = ["atom marker", "kpoint marker", "coupling marker", "pair count", "band count"]
    for i in range(ctx.n(2500, 60000)):
        if not ctx.time_left(30, 560):
            break
        g = G(ctx.rng("esp", i))
        raw, exp = binary.cst_esp(g)
        ok, got = ctx.call("cst_esp: parse", parse_cst_esp_file, io.BytesIO(raw), replay={"raw": raw.hex()})
        ctx.case(raw, "cst_esp", f"grid {exp['grid']}")
        if "mgga" in exp:
            ctx.count("cst_esp with mgga")
        if ok:
            ctx.expect("cst_esp: contents", exp, got, raw=raw.hex())

        g = G(ctx.rng("epme", i))
        raw, exp = binary.epme_bin(g)
        ok, got = ctx.call("epme_bin: parse", parse_epme_bin_file, io.BytesIO(raw), replay={"raw": raw.hex()})
        ctx.case(raw, "epme_bin", f"ions {list(exp['ions'])} kpoints {list(exp['kpoints'])}")
        if ok:
            ctx.expect("epme_bin: contents", exp, got, raw=raw.hex())
        br = breaks[i % len(breaks)]
        raw, _ = binary.epme_bin(G(ctx.rng("epme", i)), br)
        try:
            parse_epme_bin_file(io.BytesIO(raw))
        except Exception:  # noqa: BLE001  any error is a rejection
            ctx.count("epme_bin rejected")
        else:
            ctx.fail("epme_bin: inconsistent header accepted", br, raw=raw.hex(), breakage=br)
