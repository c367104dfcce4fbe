"""Whole runs of CASTEP, of every kind."""
from __future__ import annotations

from . import castep as gc
from . import castep_analysis as ga
from . import castep_dyn as gd
from . import castep_ground as gg

SETUP = [w for w in gc.SETUP if w is not gc.build_info]
ALL = [*SETUP, *gg.GROUND, *ga.ANALYSIS, gd.internal_constraints, gd.deloc_table, gd.deloc_active]


def banner(g, s):
    t = "".join(" " + x + "\n" for x in (
        "+-------------------------------------------------+", "|                                                 |",
        "|      CCC   AA    SSS  TTTTT  EEEEE  PPPP        |", "|     C     A  A  S       T    E      P   P       |",
        "|      CCC  A  A  SSS     T    EEEEE  P           |", "+-------------------------------------------------+",
        f"| Welcome to Academic Release CASTEP version {g.ri(18, 25)}.{g.ri(1, 9)} |".ljust(51), "| Ab Initio Total Energy Program                  |",
        "| R. T. Strong, A. M. Reilly                      |", "| Please cite                                     |",
        "|     \"First principles methods using CASTEP\"     |", "|              http://www.castep.org              |",
        "+-------------------------------------------------+")) + "\n\n\n"
    return gc.Sec("banner", t, [], lambda *a: None)


def small_run(g, n=None):
    """A single point of a few sections of any kind."""
    s = gc.Sys(g, nmax=g.choice([2, 6]))
    return s, [w(g, s) for w in g.sample(ALL, n or g.ri(1, 9))]


def is_open(secs):
    """The run ends within a step, whose end has not been printed."""
    last = secs[-1]
    return last.name in ("geom_step", "geom_done") and any(x.name == "geom_step" for x in secs) and \
        not any(x.name == "geom_finished" for x in secs) or \
        last.name == "md_step" and " ... finished MD" not in last.text or last.name == "md_start" and not last.text.endswith(gd.EQ)


def run_secs(g, kind=None, closed=False):
    while closed:
        res = run_secs(g, kind)
        if not is_open(res[2]):
            return res
    kind = kind or g.choice(["single", "single", "single", "md", "geom"])
    if kind == "single":
        s, secs = small_run(g)
    else:
        s = gc.Sys(g, nmax=g.choice([2, 4]), labels=False)
        secs = [x for x in gd.dyn_secs(g, s, kind) if x.name != "build_info"]
    cut = g.maybe(0.25)
    if cut and kind != "single" and g.maybe(0.6):   # a job killed within a step
        if kind == "md":
            secs = [x for x in gd.preamble(g, s) if x.name != "build_info"] + gd.md_secs(g, s, g.ri(0, 3), ended=False)
        else:
            while secs and not is_open(secs):
                secs = secs[:-1]
    elif cut:                                     # a job killed between two sections
        secs = secs[:g.ri(0, len(secs))]
    elif g.maybe(0.5):
        secs.append(gc.finalisation(g, s))
        if g.maybe(0.4):
            secs.append(gc.parallel(g, s))
    head = [banner(g, s)] if g.maybe(0.6) else []
    return kind + (" cut" if cut else ""), head, [gc.build_info(g, s), *secs]
