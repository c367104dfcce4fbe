"""C08: .phonon and .phonon_dos files."""
import io

from gen import files
from gen.base import G
from lib import vf


def run(ctx):
    import castep_outputs as co
    ctx.rule = ("random .phonon (1-4 atoms, 1-4 q-points, optional IR/Raman/direction; a few of 10000 q-points or 1000 ions) and .phonon_dos files "
                "(with/without gradients, 1-3 species); plus the same .phonon files with one data row removed or "
                "duplicated, which have to be rejected; distinct by text")
    ctx.need("large phonon", "phonon", "phonon_dos", "rejected")
    n = ctx.n(1200, 20000)
    for i in range(n):
        if not ctx.time_left(25, 350):
            break
        g = G(ctx.rng("ph", i))
        text, exp = files.phonon(g, g.choice([1, 2, 4, 4, 8]))
        ok, got = ctx.call("phonon: parse", co.parse_phonon_file, io.StringIO(text), replay={"text": text})
        ctx.case(text, "phonon", text)
        if ok:
            ctx.expect("phonon: contents", exp, got, text=text)
        # Reject inconsistent counts
        lines = text.splitlines(True)
        starts = [k for k, ln in enumerate(lines) if "q-pt=" in ln]
        nb, ni = exp["branches"], exp["ions"]
        s = g.choice(starts)
        rows = list(range(s + 1, s + 1 + nb)) + list(range(s + 3 + nb, s + 3 + nb + nb * ni))
        k = g.choice(rows)
        what = g.choice(["drop", "dup"])
        if what == "dup" and k == rows[-1]:
            what = "drop"
        bad = lines[:k] + ([] if what == "drop" else [lines[k]] * 2) + lines[k + 1:]
        bad = "".join(bad)
        try:
            got = co.parse_phonon_file(io.StringIO(bad))
        except Exception:  # noqa: BLE001  any error is a rejection
            ctx.count("rejected")
        else:
            ctx.fail("phonon: inconsistent row count accepted",
                     f"{what} of line {k} accepted: {vf.short(got, 200)}", text=bad)
    # Numbers which fill their columns
    for i in range(ctx.n(2, 6)):
        g = G(ctx.rng("large", i))
        sp = g.species()[0]
        if i % 2:
            text, exp = files.phonon(g, nq=g.ri(1, 2), atoms=[(sp, k) for k in range(1, g.ri(1001, 1010))],
                                     nb=g.choice([3, 6]))
        else:
            text, exp = files.phonon(g, nq=10000 + g.ri(0, 9), atoms=[(sp, 1)])
        ok, got = ctx.call("phonon: parse", co.parse_phonon_file, io.StringIO(text), replay={"text": text[:20000]})
        ctx.case(text, "large phonon", text[:2000])
        if ok:
            ctx.expect("phonon: contents", exp, got, text=text[:20000])
    for i in range(n):
        if not ctx.time_left(45, 560):
            break
        g = G(ctx.rng("dos", i))
        text, exp = files.phonon_dos(g)
        ok, got = ctx.call("phonon_dos: parse", co.parse_phonon_dos_file, io.StringIO(text), replay={"text": text})
        ctx.case(text, "phonon_dos", text)
        if not ok:
            continue
        got = vf.plain(got)
        if "" in got and got[""] in ((), []):
            got.pop("")
            ctx.fail("phonon_dos-empty-key", "an entry '' that states nothing", text=text)
        if vf.diff(exp, got):
            # recognise the recorded finding exactly: the last row, and only it, is missing
            cut = {**exp, "dos": [{k: v[:-1] for k, v in exp["dos"][0].items()}]}
            if not vf.diff(cut, got):
                ctx.fail("phonon_dos-last-dos-row-lost", "the last DOS row is dropped", text=text)
                continue
        ctx.expect("phonon_dos: contents", exp, got, text=text)
