"""C04: MD and geometry optimisation: steps which own what is printed in them."""
from __future__ import annotations

from . import castep as gc
from . import castep_ground as gg
from .base import vals
from .castep import Sec, app, build, ext, fl, line, put, upd

HIGH = frozenset("BS CELL CHEM_SHIELDING DIPOLE ELASTIC ELF FINAL_CONFIG FORCE MD_SUMMARY OPTICS POPN_ANALYSIS POSITION "
                 "POLARISATION SOLVATION SPECIES_PROPS SPIN STRESS TDDFT THERMODYNAMICS TSS DELTA_SCF PARAMETERS GEOM_OPT MD "
                 "PHONON PSPOT SYMMETRIES SYS_INFO".split())
ALIAS = {"initial_positions": "positions", "initial_cell": "cell"}
EQ = "=" * 80 + "\n"
PRESSURE = "md-pressure-lost"
MEMORY = "memory-estimates-before-md-lost"


def aliased(d):
    for a, b in ALIAS.items():
        if a in d:
            d[b] = d.pop(a)
    return d


def inner(secs, filters, wrong, md=False):
    return aliased(build(secs, HIGH | filters if not md or "MD" in filters else frozenset(["MD_SUMMARY"]), wrong))


def knowns(secs, *more):
    return list(dict.fromkeys([k for x in secs for k in x.known] + list(more)))


# what a step may print ------------------------------------------------------
USUAL = [gc.unit_cell, gc.positions, gg.scf, gg.energies, gg.forces, gg.stresses]
ODD = [gc.memory, gc.warning, gc.positions_labelled, gg.spin, gg.occupancies, gg.com_removal, gc.symmetry, gc.kpoints,
       gg.energies_dispersion, gg.forces, gg.stresses, gg.line_min, gg.efield_forces]


def step_secs(g, s):
    """Sections of one step in the order of CASTEP, some missing, some repeated, a few odd ones."""
    kind = g.ri(0, 9)
    if kind == 0:
        return []
    ws = [w for w in USUAL if g.maybe(0.85 if kind < 8 else 0.4)]
    if kind > 5 and g.maybe():
        ws += [w for w in USUAL if g.maybe(0.5)]        # line minimisation: a second configuration
    if g.maybe(0.35):
        for w in g.sample(ODD, g.ri(1, 3)):
            ws.insert(g.ri(0, len(ws)), w)
    return [w(g, s) for w in ws]


# MD -------------------------------------------------------------------------
MD_ROWS = [("Potential Energy", "eV", "potential_energy"), ("Kinetic   Energy", "eV", "kinetic_energy"),
           ("Total     Energy", "eV", "total_energy"), ("        Enthalpy", "eV", "enthalpy"),
           ("Hamilt    Energy", "eV", "hamilt_energy"), (None, None, None), ("     Temperature", "K", "temperature"),
           ("   T/=0 Pressure", "GPa", "t/=0_pressure")]


def md_data(g, s):
    pad = " " * 12
    bl = line(pad, "x", " " * 60, "x")
    t = line(pad, "x" * 62) + line(pad, "x", "MD Data:     x".rjust(61)) + bl
    full = {}
    x = fl(g, 14, 6, signed=False, lo=-3, hi=2)
    t += line(pad, f"x              time :{x}                   ps     x") + bl
    full["time"] = x.v
    for lab, u, key in MD_ROWS:
        if lab is None:
            t += bl
            continue
        if g.maybe(0.15):
            continue
        x = fl(g, 14, 6, lo=-4, hi=4)
        t += line(pad, f"x   {lab}:{x}", f"{u:>21s}     x")
        full[key] = x.v
    part = {k: v for k, v in full.items() if k != "t/=0_pressure"}

    def eff(run, filters, wrong):
        run.update(part if PRESSURE in wrong else full)
    return Sec("md_data", t + line(pad, "x" * 62) + "\n", ["MD", "MD_SUMMARY"], eff, [PRESSURE])


def step_effect(secs):
    def eff(run, filters, wrong):
        d = inner(secs, filters, wrong, True)
        if "memory_estimate" in d:
            m = d.pop("memory_estimate")
            if MEMORY in wrong:
                run["memory_estimate"] = m
            else:
                run.setdefault("memory_estimate", []).extend(m)
        run.setdefault("md", []).append(d)
    return eff


def md_secs(g, s, n=None, ended=True):
    """An MD run as a list of Secs (initial stage, then its steps); not ended: killed in a step."""
    n = g.many(1, 2, 3, 5, 12, p=0.008) if n is None else n
    out = []
    if g.maybe(0.7):
        secs = ([gg.forces(g, s)] if g.maybe() else []) + ([md_data(g, s)] if g.maybe(0.9) else [])
        out.append(Sec("md_start", line(" Starting MD") + "\n" + "".join(x.text for x in secs) + "\n" + (EQ if ended or n else ""), ["MD", "MD_SUMMARY"],
                       step_effect(secs), knowns(secs, MEMORY)))
    else:
        out.append(Sec("md_start", EQ, ["MD"], lambda *a: None))
    if not ended and not n:
        return out
    for k in range(n):
        secs = step_secs(g, s) + ([md_data(g, s)] if g.maybe(0.9) else [])
        t = ("" if k == 0 else EQ) + line(f" Starting MD iteration {k + 1:10d} ...") + EQ + "\n"
        t += "".join(x.text for x in secs)
        if not ended and k + 1 == n:
            out.append(Sec("md_step", t, ["MD", "MD_SUMMARY"], step_effect(secs), knowns(secs, MEMORY)))
            return out
        t += "\n" + "-" * 80 + "\n" + line(f" ... finished MD iteration {k + 1:10d}")
        if k + 1 < n:
            t += "\n"
        out.append(Sec("md_step", t, ["MD", "MD_SUMMARY"], step_effect(secs), knowns(secs, MEMORY)))
    out.append(Sec("md_end", line(" Finished MD") + "\n", ["MD"], lambda *a: None))
    return out


# geometry optimisation --------------------------------------------------------
MINS = ["BFGS", "LBFGS", "FIRE", "TPSD", "DMD", "DI"]
MOVED = ("enthalpy", "initial_cell", "initial_positions", "scf", "forces", "stresses", "minimisation")


def param_table(g, m):
    bar = f" +-----------+-----------------+-----------------+------------+-----+ <-- {m}\n"
    t = bar + f" | Parameter |      value      |    tolerance    |    units   | OK? | <-- {m}\n" + bar
    exp = {}
    for lab, key, u in (("dE/ion", "de_ion", "eV"), ("|F|max", "f_max", "eV/A"), ("|dR|max", "dr_max", "A"), ("Smax", "smax", "GPa")):
        if g.maybe(0.1):
            continue
        v, tol, ok = g.e(15, 6, lo=-8, hi=2), g.e(15, 6, lo=-6, hi=1, signed=False), g.maybe()
        t += line(f" | {lab:^9s} | {v} | {tol} | {u:>10s} | {'Yes' if ok else 'No '} | <-- {m}")
        exp[key] = {"value": v.v, "tolerance": tol.v, "converged": ok}
    return t + bar + "\n", exp


def step_table(g, m, steps):
    bar = f" +------------+-------------+-------------+-----------------+ <-- min {m}\n"
    t = bar + f" |    Step    |   lambda    |   F.delta'  |    enthalpy     | <-- min {m}\n" + bar
    exp = {}
    for k in steps:
        a, b, c = fl(g, 11, 6, lo=-2, hi=1), fl(g, 11, 6, lo=-3, hi=2), fl(g, 15, 6, hi=4)
        t += line(f" | {k:^10s} | {a} | {b} | {c} | <-- min {m}")
        exp[k] = {"lambda": a.v, "fdelta": b.v, "enthalpy": c.v}
    return t + bar + "\n", exp


def enthalpy(g, m, k):
    e = g.e(17, 8, lo=0, hi=3)
    t, exp = param_table(g, m)
    return [Sec("geom_enthalpy", line(f" {m}: finished iteration {k:5d} with enthalpy={e} eV") + "\n", ["GEOM_OPT"],
                lambda run, f, w: (run.setdefault("geom_opt", {}), run.setdefault("enthalpy", []).append(e.v))),
            Sec("geom_table", t, ["GEOM_OPT"], app("minimisation", exp))]


def tidy(d):
    """An optimisation step says nothing of the optimisation as a whole."""
    if not d.get("geom_opt", True):
        d.pop("geom_opt")
    return d


def geom_step(g, s, m, k):
    secs = []
    lm = g.maybe(0.6)
    if lm:
        t, exp = step_table(g, m, ["previous"])
        secs.append(Sec("geom_min", t, ["GEOM_OPT"], app("minimisation", exp)))
    tries = g.ri(0, 3)
    for j in range(tries):
        lam = fl(g, 10, 6, lo=-2, hi=1)
        word = "starting" if j == 0 else "improving"
        if j == 0:
            t = "-" * 80 + "\n" + line(f" {m}: starting iteration {k:9d} with trial guess (lambda={lam})") + "-" * 80 + "\n\n"
            secs.append(Sec("geom_trial", t, ["GEOM_OPT"], gc.app2("geom_opt", "trial", lam.v)))
        else:
            kind = g.choice(["line", "quad"])
            t = "-" * 80 + "\n" + line(f" {m}: {word} iteration {k:9d} with {kind} minimization (lambda={lam})") + "-" * 80 + "\n\n"
            secs.append(Sec("geom_improve", t, ["GEOM_OPT"], lambda *a: None))
        secs += step_secs(g, s)
        if lm:
            t, exp = step_table(g, m, ["previous", "trial step", *["line step", "quad step"][:j]])
            secs.append(Sec("geom_min", t, ["GEOM_OPT"], app("minimisation", exp)))
    if m == "DI" and g.maybe(0.7):
        secs.append(deloc_active(g, s))
    for _ in range(g.choice([0, 1, 1, 1, 1, 1, 1, 2])):
        secs += enthalpy(g, m, k)
    return secs


def geom_effect(secs):
    def eff(run, filters, wrong):
        geo = run.setdefault("geom_opt", {})
        if "iterations" not in geo:
            first = {k: run[k] for k in MOVED if k in run}
            for k in MOVED:
                if not k.startswith("initial_"):
                    run.pop(k, None)
            geo["iterations"] = [aliased(first)]
        geo["iterations"].append(inner(secs, filters, wrong))
    return eff


def final_config(g, s, m):
    t = EQ + line(f" {m}: Final Configuration:") + EQ + "\n"
    exp, more = {}, {}
    if g.maybe(0.8):
        ct, exp["cell"] = gc.cell_text(g)
        t += ct
    at, exp["atoms"] = gc.atom_table(g, s)
    t += gc.box("Cell Contents") + "\n" + at + "\n"
    e = g.e(17, 8, lo=0, hi=3)
    t += line(f" {m}: Final Enthalpy     ={e} eV")
    exp["final_enthalpy"] = e.v
    for lab, key, u in (("Final <frequency>", "final_<frequency>", "cm-1"), ("Final bulk modulus", "final_bulk_modulus", "GPa")):
        r = g.ri(0, 2)
        if r == 0:
            t += line(f" {m}: {lab:<18s} unchanged from initial value")
        elif r == 1:
            v = fl(g, 14, 5, signed=False, hi=3)
            t += line(f" {m}: {lab:<18s} ={v} {u}")
            exp[key] = v.v
    return Sec("final_configuration", t + "\n", ["GEOM_OPT", "FINAL_CONFIG"], gc.upd("geom_opt", {"final_configuration": exp}))


def geom_secs(g, s, n=None, m=None):
    """A geometry optimisation: initial configuration, its steps, final configuration."""
    m = m or g.choice(MINS)
    n = g.many(0, 1, 1, 2, 3, 4, 12, p=0.008) if n is None else n
    out = []
    if m == "DI":
        out += [deloc_table(g, s), deloc_active(g, s)]
        if g.maybe(0.4):
            out.insert(0, internal_constraints(g, s))
    for w in (gg.scf, gg.energies, gg.forces, gg.stresses):
        if g.maybe(0.8):
            out.append(w(g, s))
    for _ in range(g.choice([0, 1, 1, 1, 1, 1, 1, 2])):
        out += enthalpy(g, m, 0)
    for k in range(1, n + 1):
        secs = geom_step(g, s, m, k)
        t = EQ + line(f" Starting {m} iteration {k:10d} ...") + EQ + "\n" + "".join(x.text for x in secs)
        out.append(Sec("geom_step", t, ["GEOM_OPT"], geom_effect(secs), knowns(secs)))
    fin = g.maybe(0.85)
    if n and (not fin or g.maybe(0.2)):
        out.append(Sec("geom_finished", line(f" Finished {m}"), [], lambda *a: None))
    if fin:
        word = g.choice([f" {m}: Geometry optimization completed successfully.", f" {m} : Geometry optimization failed to converge after {n:4d} steps."])
        out.append(Sec("geom_done", line(word) + "\n", [], lambda *a: None))
        out.append(final_config(g, s, m))
    return out


# delocalised internals --------------------------------------------------------
def internal_constraints(g, s):
    t = line("  INTERNAL CONSTRAINTS") + line(" #  Type     Target    Actual           Definition") + "\n"
    exp = []
    for k in range(g.many(*range(1, 13), big=(45, 101))):
        typ = g.choice(["Bond", "Angle", "Torsion"])
        at = g.sample(list(range(1, 40)), {"Bond": 2, "Angle": 3, "Torsion": 4}[typ])
        v = fl(g, 8, 3, signed=typ != "Bond", hi=2)
        c = {a: (g.ri(-1, 1), g.ri(-1, 1), g.ri(-1, 1)) for a in at}
        d = "".join(f"{a:4d} ({x:2d}{y:2d}{z:2d})" for a, (x, y, z) in c.items())
        if g.maybe():
            t += line(f"{k + 1:3d} {typ:<8s}{v} Satisfied", d)
            exp.append({"type": typ, "target": None, "current": v.v, "satisfied": True, "constraints": c})
        else:
            w = fl(g, 10, 3, signed=typ != "Bond", hi=4)
            t += line(f"{k + 1:3d} {typ:<8s}{v}{w}", d)
            exp.append({"type": typ, "target": v.v, "current": w.v, "satisfied": False, "constraints": c})
    return Sec("internal_constraints", t + "\n", ["GEOM_OPT"], put("internal_constraints", exp))


def deloc_table(g, s):
    t = line("Message: Generating delocalized internals")
    d = {"constraint_mapping": {}}
    for k in range(g.many(0, 1, 2, 12)):
        v = g.ri(1, 999)
        t += line(f" constraint #{k + 1:6d} is a primitive #{v:6d}")
        d["constraint_mapping"][k + 1] = v
    t += "\n"
    for n in ("bonds", "angles", "dihedrals", "internals"):
        v = g.ri(0, 9999)
        t += ("\n" if n == "internals" else "") + line(f"Total number of primitive {n}:".ljust(36), f"{v:10d}")
        d["num_" + n] = v
    return Sec("deloc_table", t + "\n" + line("Message: Generation of delocalized internals is successful"), ["GEOM_OPT"],
               upd("delocalised_internal", d))


def deloc_active(g, s):
    a, b, c = g.ri(1, 999), g.ri(1, 999), g.ri(1, 999)
    t = line(" Startup Hessian in Internal Coordinates") + "\n" + line(f" The size of active space is :{a:6d}")
    t += line(f" There are :{b:7d}  degrees of freedom") + line(f" There are :{c:7d}  primitive internals") + "\n"
    return Sec("deloc_active", t, ["GEOM_OPT"],
               upd("delocalised_internal", {"active_space_size": a, "num_dof": b, "num_primitive_internals": c}))


def preamble(g, s):
    return [w(g, s) for w in (gc.build_info, gc.time_started, gc.options, gc.memory, gc.unit_cell, gc.positions) if g.maybe(0.7)]


def closing(g, s):
    return [w(g, s) for w in (gg.forces, gg.stresses, gg.energies, gc.memory, gc.finalisation, gc.parallel) if g.maybe(0.4)]


def dyn_secs(g, s, kind=None):
    kind = kind or g.choice(["md", "geom"])
    body = ([gg.scf(g, s), gg.energies(g, s)] if kind == "md" and g.maybe() else []) + (md_secs(g, s) if kind == "md" else geom_secs(g, s))
    return preamble(g, s) + body + closing(g, s)
