"""Oracle shared by the checks of .castep sections."""
from __future__ import annotations

import io
import itertools

from gen import castep as gc
from gen.base import G
from lib.vf import Ctx, diff

FULL = frozenset("BS CELL CHEM_SHIELDING DELTA_SCF DIPOLE ELASTIC ELF FINAL_CONFIG FORCE GEOM_OPT MD MD_SUMMARY OPTICS "
                 "PARAMETERS PHONON POLARISATION POPN_ANALYSIS POSITION PSPOT SCF SOLVATION SPECIES_PROPS SPIN STRESS "
                 "SYMMETRIES SYS_INFO TDDFT THERMODYNAMICS TSS TEST_EXTRA_DATA".split())


def parse(text, filters=FULL):
    from castep_outputs.parsers import castep_file_parser as p
    f = p.Filters.NONE
    for n in filters:
        f |= p.Filters[n]
    return p.parse_castep_file(io.StringIO(text), f)


def mech_of(name, d):
    return f"{name}"


def check_run(ctx: Ctx, label, secs, filters=FULL, text=None, mech=None):
    """Parse one run built of ``secs`` and compare with what they state."""
    text = "".join(s.text for s in secs) if text is None else text
    names = [s.name for s in secs]
    mech = mech or ("section-" + "+".join(sorted(set(names))) if len(set(names)) < 3 else "mixture")
    ok, res = ctx.call(mech + "-raises", parse, text, filters, replay={"text": text, "sections": names})
    if not ok:
        return None
    ctx.case((label, text), label, sample=text if len(text) < 900 else None)
    exp = gc.build(secs, filters)
    want = [exp] if exp else []
    if len(res) != len(want):
        ctx.fail(mech, f"{len(res)} runs instead of {len(want)}", text=text, sections=names)
        return None
    if not want:
        return res
    d = matches(ctx, secs, filters, res[0])
    if not d:
        return res
    ctx.fail(mech, "; ".join(d[:4]), differences=d, text=text, sections=names, filters=sorted(filters))
    return None


def matches(ctx, secs, filters, got):
    """Differences between what the sections state and the result, listed defects apart."""
    d = diff(gc.build(secs, filters), got)
    if not d:
        return d
    known = sorted({k for s in secs for k in s.known if k in ctx.known_any})
    for r in range(len(known), 0, -1):
        for wrong in itertools.combinations(known, r):
            if not diff(gc.build(secs, filters, frozenset(wrong)), got):
                for k in wrong:
                    if any(k == x["mechanism"] for x in ctx.known):
                        ctx.fail(k, "known form")
                    else:       # a listed defect of another property, reported by its check
                        ctx.count("listed elsewhere: " + k)
                return []
    return d


def sections_check(ctx: Ctx, writers, quick=(60, 1200), thorough=(200, 12000), again=(12, 60), assume=()):
    """Each section alone, printed again (by the same and by kindred writers), and shuffled mixtures with repetitions."""
    alone, mixed, again = ctx.n(quick[0], thorough[0]), ctx.n(quick[1], thorough[1]), ctx.n(*again)
    for w in writers:
        for k in range(alone):
            g = G(ctx.rng("alone", w.__name__, k))
            s = gc.Sys(g)
            sec = w(g, s)
            ctx.count("section " + w.__name__)
            check_run(ctx, "alone", [sec])
        ctx.need("section " + w.__name__)
        if w is gc.build_info:
            continue
        for k, n in enumerate(ctx.n((30, 104), (30, 104, 130, 1002))):  # systems of many atoms
            g = G(ctx.rng("large", w.__name__, k))
            s = gc.Sys(g, nmax=1)
            s.atoms = [(x, i + 1) for x in s.species[:2] for i in range(n)]
            check_run(ctx, "large system", [w(g, s)])
        for k in range(again):
            g = G(ctx.rng("again", w.__name__, k))
            s = gc.Sys(g, nmax=g.choice([1, 2, 6]))
            secs = [w(g, s) for _ in range(g.ri(2, 4))]
            if g.maybe(0.3):
                secs.insert(g.ri(1, len(secs)), secs[0])
            check_run(ctx, "again", secs)
    for k in range(mixed):
        if not ctx.time_left(40, 700):
            break
        g = G(ctx.rng("mixture", k))
        s = gc.Sys(g, nmax=g.choice([2, 6, 12]))
        ws = [g.choice(writers) for _ in range(g.ri(2, 14))]
        ws.sort(key=lambda w: w is not gc.build_info)      # starts a run: first, and once
        while ws[1:2] == [gc.build_info]:
            ws.pop(0)
        secs = [w(g, s) for w in ws]
        for w in ws:
            ctx.count("section " + w.__name__)
        if g.maybe(0.3):                                   # printed again, word for word
            again = g.choice([x for x, w in zip(secs, ws) if w is not gc.build_info] or [None])
            if again:
                secs.insert(g.ri(secs.index(again) + 1, len(secs)), again)
                ctx.count("a section printed again word for word")
        check_run(ctx, "mixture", secs)
    ctx.need("alone", "again", "mixture", "large system")
