"""Sections of a .castep file: text as CASTEP prints it, with the data it states.

A *section* is a ``Sec``: its text, the filter categories that select it, and an ``effect``
that writes what the section states into the dictionary expected for its run.  Runs are
built by concatenating sections, so the expectation for any mixture, order and repetition
follows from the sections themselves.
"""
from __future__ import annotations

from lib.vf import Near

from . import cellparam
from .base import G, Tok, vals

SHELLS = ("s", "p", "d", "f")


class Sec:
    """One printed section.

    flags: alternatives, each a set of filter names which together select the section;
           () means the section is reported whatever the filters.
    effect(run, filters, wrong): put what is stated into ``run``; ``wrong`` names the known
           defects whose (wrong) form is to be produced instead of the printed data.
    """

    def __init__(self, name, text, flags, effect, known=()):
        self.name, self.text, self.effect, self.known = name, text, effect, tuple(known)
        self.flags = tuple(frozenset(f.split("+")) for f in flags)

    def selected(self, filters):
        return not self.flags or any(f <= filters for f in self.flags)


def put(key, val):
    def eff(run, filters, wrong):
        run[key] = val
    return eff


def app(key, val):
    def eff(run, filters, wrong):
        run.setdefault(key, []).append(val)
    return eff


def ext(key, items):
    def eff(run, filters, wrong):
        run.setdefault(key, []).extend(items)
    return eff


def upd(key, dct):
    def eff(run, filters, wrong):
        run.setdefault(key, {}).update(dct)
    return eff


def app2(key, sub, val):
    def eff(run, filters, wrong):
        run.setdefault(key, {}).setdefault(sub, []).append(val)
    return eff


def both(*effs):
    def eff(run, filters, wrong):
        for e in effs:
            e(run, filters, wrong)
    return eff


def build(secs, filters, wrong=()):
    run = {}
    for s in secs:
        if s.selected(filters):
            s.effect(run, filters, wrong)
    return run


class Sys:
    """The system a run is about."""

    def __init__(self, g: G, nmax=6, tags=None, labels=None):
        self.g = g
        tags = g.maybe(0.3) if tags is None else tags
        if nmax > 4 and g.maybe(0.03):
            nmax = g.choice([30, 120])
        self.atoms = g.atoms(nmax, tags=tags)
        if tags is False or g.maybe(0.9):
            pass
        else:   # large systems: indices are not small
            moved = [(s, i + g.choice([0, 98, 996])) for s, i in self.atoms]
            # (a tag and four digits with nothing in between could not be told apart by anybody)
            self.atoms = list(dict.fromkeys((s, i - 100) if i > 999 and ":" in s else (s, i) for s, i in moved))
        self.species = list(dict.fromkeys(s for s, _ in self.atoms))
        lab = g.maybe(0.15) if labels is None else labels
        self.labels = {a: (f"{a[0][:1]}{a[1]}{g.choice(['', 'x', '_b', '-a', chr(39), '+', '.1', '*'])}"[:8] if g.maybe(0.7) else None)
                       for a in self.atoms} if lab else {}

    def key(self, a):
        """Species as printed with a label attached."""
        lab = self.labels.get(a)
        return (f"{a[0]} [{lab}]" if lab else a[0], a[1])


def fl(g, w, d, **kw):
    """A token that leaves at least one blank in its column."""
    for _ in range(50):
        t = g.f(width=w, dec=d, **kw)
        if len(t) == w and t.startswith(" "):
            return t
    return g.f(width=w, dec=d, lo=-1, hi=0)


def line(*parts):
    return "".join(parts) + "\n"


def box(title, width=31, indent=27):
    pad = " " * indent
    return (line(pad, "-" * width) + line(pad, title.center(width).rstrip()) + line(pad, "-" * width))


# ---------------------------------------------------------------------------
# C02: set-up
# ---------------------------------------------------------------------------
def build_info(g, s):
    comp = g.choice(["GNU Fortran 12.3.0; Optimisation: FAST", "Intel Fortran 2021.5; Optimisation: debug"])
    head1 = f"Compiled for {g.choice(['linux_x86_64', 'darwin_arm64'])}_gfortran{g.ri(4, 12)} on {g.choice(['Wed', 'Fri'])}, {g.ri(1, 28)} Mar 2024 {g.ri(10, 23)}:{g.ri(10, 59)}:29 +0000"
    head2 = f"from code version {g.ri(10**8, 10**9)}b+  {g.word()}  Wed Mar {g.ri(1, 28)} 11:30:47 2024 +0000"
    rows = [("Compiler", comp), ("Comms   ", g.choice(["serial", f"Open MPI v4.{g.ri(0, 9)}.4"])),
            ("MATHLIBS", f"openblas (LAPACK version 3.{g.ri(1, 20)}.0)"),
            ("FFT Lib ", f"fftw3 version fftw-3.3.{g.ri(1, 20)}"),
            ("Fundamental constants values", f"CODATA {g.choice([2010, 2014, 2018])}")]
    rows = rows[:g.ri(2, 5)]
    t = line(" ", head1) + line(" ", head2) + "".join(line(" ", k, ": ", v) for k, v in rows) + "\n"
    exp = {"summary": " ".join((head1 + " " + head2).split())}
    exp.update({"_".join(k.lower().split()): " ".join(v.split()) for k, v in rows})
    return Sec("build_info", t, ["SYS_INFO"], put("build_info", exp))


def time_started(g, s):
    v = f"Wed, {g.ri(1, 28)} Mar 20{g.ri(10, 30)} {g.ri(0, 23):02d}:{g.ri(0, 59):02d}:26 {g.choice(['+0000', '+0100', '-0730', 'UTC', 'GMT'])}"
    return Sec("time_started", line(" Run started: ", v) + "\n", ["SYS_INFO"], put("time_started", v))


def finalisation(g, s, blank=True):
    rows = [("Initialisation time", "s"), ("Calculation time", "s"), ("Finalisation time", "s"),
            ("Total time", "s"), ("Peak Memory Use", "kB")]
    if g.maybe(0.2):
        rows = rows[:4]
    t, exp = "", {}
    for k, u in rows:
        tok = Tok(f"{(n := g.ri(1000, 10**7)):d}", float(n)) if u == "kB" else fl(g, 10, 2, signed=False, hi=4)
        t += line(f"{k:<19s} ={tok}" if u == "s" else f"{k:<19s} = {tok}", f" {u}")
        exp["_".join(k.lower().split())] = tok.v
    def eff(run, filters, wrong):
        run.update(exp)
    return Sec("finalisation", t + ("\n" if blank else ""), ["SYS_INFO"], eff)


def parallel(g, s):
    n = g.ri(1, 100)
    word = g.choice(["Satisfactory", "Terrible", "Very good", "Poor"])
    return Sec("parallel_efficiency", line(f"Overall parallel efficiency rating: {word} ({n}%)") + "\n",
               ["SYS_INFO"], put("parallel_efficiency", float(n)))


def continuation(g, s):
    f = f"{g.choice(['', '', './', '../old/', '/data/run_1/'])}{g.word()}-{g.ri(1, 99)}.{g.choice(['check', 'castep_bin'])}"
    return Sec("continuation", line("Reading continuation data from model file ", f) + "\n", ["SYS_INFO"],
               put("continuation", f))


def warning(g, s, form=None, say=()):
    form = g.ri(0, 3) if form is None else form
    body = [g.words(g.ri(2, 5)) for _ in range(g.ri(1, 4))] + list(say)
    if form == 0:                                    # continuation lines are indented further
        head = f"{g.choice(['Warning', 'WARNING', 'warning'])} {g.choice(['-', 'in'])} {g.words(2)}{g.choice(['', ':'])}"
        t = line(" ", head) + "".join(line("   ", b) for b in body) + "\n"
        exp = [" ".join([head, *body])]
    elif form == 1:                                  # several, one line each
        exp = [f"Warning - {b} {g.ri(1, 99)}" for b in body]
        t = "".join(line(" ", x) for x in exp) + "\n"
    elif form == 2:
        exp = [f"{g.choice(['TS', 'BFGS', 'Phonon'])}: Warning - {b} {g.ri(1, 99)}" for b in body]
        t = "".join(line(x) for x in exp) + "\n"
    else:
        t = line("?" * 71) + line(" " * 20, body[0]) + "".join(line("    ", b) for b in body[1:]) + line("?" * g.ri(60, 72))
        exp = [" ".join(body)]
    return Sec("warning", t, ["SYS_INFO"], ext("warning", exp))


MEM = ["Baseline code, static data and system overhead", "BLAS internal memory storage",
       "Model and support data", "Molecular Dynamics requirements", "Electronic energy minimisation requirements",
       "Force calculation requirements", "Stress calculation requirements", "Phonon requirements"]


def memory(g, s):
    rows = [r for r in MEM if g.maybe(0.8)]
    w = 77
    t = line("+", " MEMORY AND SCRATCH DISK ESTIMATES PER PROCESS ".center(w, "-"), "+")
    t += line("|", " " * 53, "Memory          Disk    |")
    full, part = {}, {}

    def row(k):
        nonlocal t
        m, d = fl(g, 11, 1, signed=False, hi=4), fl(g, 11, 1, signed=False, hi=3)
        t += line(f"| {k:<47s}{m} MB {d} MB |")
        key = "_".join("".join(c for c in k.lower() if c not in ",.").split())
        full[key] = {"memory": m.v, "disk": d.v}
        if "," not in k and "." not in k:
            part[key] = full[key]
    for k in rows:
        row(k)
    t += line("|", " " * 47, "-" * 29, " |")
    row("Approx. total storage required per process")
    t += line("|", " " * w, "|") + line("| Requirements will fluctuate during execution and may exceed these estimates |")
    t += line("+", "-" * w, "+")

    def eff(run, filters, wrong):
        run.setdefault("memory_estimate", []).append(part if "memory-rows-with-punctuation-lost" in wrong else full)
    return Sec("memory_estimate", t, ["SYS_INFO"], eff, ["memory-rows-with-punctuation-lost"])


#: Free text that looks like something the parser knows.
TITLES = ["Final energy of Si", "SCF loop convergence", "Warning: k-points", "Mass of species in AMU", "Run started: again", "Forces on C60",
          "Unit Cell", "Dynamical matrix of Si", "Quantisation axis: 1 0 0", "Quantisation axis scan", "Thermodynamics of TiO2", "Vibrational Frequencies",
          "with  3 cut-off energies.", "ATOMIC CHARGES", "Final free energy (E-TS)    = 1.0", "Starting MD", "BFGS: finished iteration 2", "Initialisation time",
          "Polarisability (A**3)", "test of <-- SCF", "Hirshfeld Analysis", "Overall parallel efficiency rating: 3%", "Electric Quadrupole Moment"]


def title(g, s, v=None):
    if v is None:
        v = g.words(g.ri(1, 5)) if g.maybe(0.8) else ""
        if g.maybe(0.2):
            v = v.replace(" ", g.choice(["  ", ": ", " = ", "   - "]), 1)
        if g.maybe(0.25):
            v = g.choice(TITLES)
    return Sec("title", line(" ", "*" * 36, " Title ", "*" * 35) + line(" ", v) + "\n", ["PARAMETERS"], put("title", v))


GROUPS = ["General", "Exchange-Correlation", "Pseudopotential", "Basis Set", "Electronic", "Electronic Minimization",
          "Density Mixing", "Population Analysis", "Geometry Optimization", "Molecular Dynamics", "Phonon",
          "Electric Field", "Band Structure", "Optics", "Magnetic Resonance", "Path Integral MD"]
UNITS = ["eV", "A", "eV/A", "GPa", "K", "1/A", "amu", "ps", "A**3", "eV/A**2"]


def unit(g):
    """A unit as one or several words, and what follows the number in the result."""
    u = g.choice(UNITS) if g.maybe(0.8) else g.choice(["eV / atom", "cm-1 per K", "SCF cycles", "eV (default)", "1 / A"])
    return u, tuple(u.split())



def options(g, s):
    names = g.sample(GROUPS, g.ri(1, 6))
    t, exp, units = "", {}, {}
    for n in names:
        t += line(" " + f" {n} Parameters ".center(79, "*")) + line("  ")
        grp = {}
        for _ in range(g.many(*range(1, 8), big=(30,))):
            k = g.words(g.ri(1, 4)) + g.choice(["", "", " (ELF)", " 2", " of 1st kind"])
            if k in grp or k.startswith("output"):
                continue
            kind = g.ri(0, 6)
            if kind == 0:
                v = g.words(g.ri(1, 3)) + g.choice(["", "  (1)", " +/-"])
                e = " ".join(v.split())
            elif kind == 1:
                tok = g.i(-999, 10**6, 10)
                v, e = tok, tok.v
            elif kind == 2:
                tok = g.f(10, 4)
                u, words = unit(g)
                v, e = f"{tok}   {u}", (tok.v, *words)
            elif kind == 3:
                tok = g.e(12, 4, lo=-8, hi=6, exp3=False)
                u, words = unit(g)
                v, e = f"{tok}   {u}", (tok.v, *words)
            elif kind == 4:
                tok = g.f(10, 4)
                v, e = tok, tok.v
            elif kind == 5:
                v = e = g.choice(["on", "off", "Si8-md.check", "LDA", "PBE"])
            else:
                tok = g.i(1, 500, 10)
                u = g.choice(["steps", "K", "%"])
                v, e = f"{tok} {u}", (tok.v, u)
            t += line(f" {k:<47s}: {v}")
            grp[k] = e
        if g.maybe(0.3):
            t += line(" unlimited duration calculation")
        if g.maybe(0.3):
            for q in g.sample(["length", "mass", "force constant", "IR intensity", "efield chi2", "energy"], g.ri(1, 5)):
                u = g.choice(UNITS)
                t += line(f" output {q:>14s} unit".ljust(48), ": ", u)
                units[q] = u
        t += line("  ") + "\n" if g.maybe() else "\n"
        if grp:
            exp[n.lower()] = grp
    if units:
        exp["output_units"] = units
    if g.maybe(0.3):
        t += line(" " + " Developer Code ".center(79, "*")) + "\n"
        rows, dev = cellparam.devel_code(g)
        t += "".join(line(" ", " ".join(r)) for r in rows) + "\n"
        exp["devel_code"] = dev
    t += line(" ", "*" * 79) + "\n"
    return Sec("options", t, ["PARAMETERS"], put("options", exp))


def quantisation(g, s):
    v = [fl(g, 10, 5, hi=1) for _ in range(3)]
    return Sec("quantisation_axis", line("         Quantisation axis:", *v) + "\n", ["SPECIES_PROPS"],
               put("quantisation_axis", vals(v)))


def sp_upd(rows):
    """species_properties[spec].update(...)"""
    def eff(run, filters, wrong):
        d = run.setdefault("species_properties", {})
        for k, v in rows:
            d.setdefault(k, {}).update(v(filters) if callable(v) else v)
    return eff


def shells(g):
    return " ".join(f"{g.ri(1, 7)}{g.choice('spdf')}{g.ri(1, 14)}" for _ in range(g.ri(1, 4)))


def ps_energy(g, s):
    sp = g.choice(s.species).split(":")[0]
    e = fl(g, 12, 4, hi=4).strip()
    d = {"pseudo_atomic_energy": float(e)}
    t = line(f" Pseudo atomic calculation performed for {sp} {shells(g)}") + "\n"
    t += line(f" Converged in {g.ri(5, 99)} iterations to a total energy of {e} eV")
    if g.maybe(0.5):
        sp_ = []
        for k in range(g.ri(1, 2)):
            p = p if k and g.maybe(0.2) else f"{g.r.uniform(0, 3):.2f}"
            t += line(f"Charge spilling parameter for spin component {k + 1} = {p}%")
            sp_.append(Near(float(p) / 100))
        d["charge_spilling"] = sp_
    return Sec("pseudo_atomic_energy", t + "\n", ["SPECIES_PROPS"], sp_upd([(sp, d)]))


def mass(g, s):
    t = line(" " * 31, "Mass of species in AMU")
    rows = []
    for sp in s.species:
        m = fl(g, 13, 7, signed=False, lo=0, hi=2)
        t += line(" " * 36, f"{sp:<4s}{m}" if len(sp) < 5 else f"{sp} {m}")
        rows.append((sp, {"mass": m.v}))
    return Sec("mass", t + "\n", ["SPECIES_PROPS"], sp_upd(rows))


def quadrupole(g, s):
    t = line(" " * 26, "Electric Quadrupole Moment (Barn)")
    rows = []
    for sp in s.species:
        m = fl(g, 13, 7, lo=-2, hi=0)
        t += line(" " * 36, f"{sp:<4s} {m} ", g.choice([f"Isotope {g.ri(1, 209)}", "No Isotope Defined"]))
        rows.append((sp, {"electric_quadrupole_moment": m.v}))
    return Sec("electric_quadrupole_moment", t + "\n", ["SPECIES_PROPS"], sp_upd(rows))


def pspots(g, s):
    t = line(" " * 26, "Files used for pseudopotentials:")
    rows = []
    for sp in s.species:
        if g.maybe(0.5):
            txt, e = cellparam.pspot(g)
            rows.append((sp, lambda filters, txt=txt, e=e: {"pseudopot": e if "PSPOT" in filters else txt}))
        else:
            txt = g.choice(["Si_00PBE.usp", "my_pot.usp", "on-the-fly", f"{sp.split(':')[0]}_C19_PBE_OTF.usp", "./pots/x.recpot"])
            rows.append((sp, {"pseudopot": txt}))
        t += line(" " * 36, f"{sp:<3s}", txt) if len(sp) < 3 else line(" " * 36, sp, " ", txt)
    return Sec("pseudopotentials", t + "\n", ["SPECIES_PROPS"], sp_upd(rows))


def pspot_report(g, s):
    el = g.choice(s.species).split(":")[0]
    W = 58

    def ln(x):
        return line("   | ", f"{x:<{W - 1}s}", "|")
    z = f"{g.ri(1, 30)}.{g.ri(0, 99):02d}"
    xc = g.choice(["LDA", "PBE", "PBESOL", "RPBE", "PW91", "WC"])
    solver = g.choice(["Koelling-Harmon", "Schroedinger", "Dirac", "ZORA", "Scalar relativistic"])
    exp = {"element": el, "ionic_charge": float(z), "level_of_theory": xc, "solver": solver,
           "reference_electronic_structure": [], "pseudopotential_definition": []}
    bar = line("   ", "-" * 60)
    t = line("   ", "=" * 60) + ln(f"Pseudopotential Report - Date of generation {g.ri(10, 28)}-0{g.ri(1, 9)}-2023") + bar
    t += ln(f"Element: {el} Ionic charge: {z} Level of theory: {xc}") + ln(f"Atomic Solver: {solver}") + ln("")
    t += ln("              Reference Electronic Structure") + ln("        Orbital         Occupation         Energy")
    for _ in range(g.many(*range(1, 8), big=(12, 22))):
        orb = f"{g.ri(1, 7)}{g.choice('spdf')}" + (f"{g.choice([1, 3, 5, 7])}/2" if g.maybe(0.4) else "")
        o, e = f"{0.0 if g.maybe(0.1) else g.r.uniform(0, 14):.3f}", f"{0.0 if g.maybe(0.1) else g.r.uniform(-30, 1):.3f}"
        t += ln(f"         {orb:<7s}{o:>14s}{e:>16s}")
        exp["reference_electronic_structure"].append({"orb": orb, "occupation": float(o), "energy": float(e)})
    t += ln("") + ln("                Pseudopotential Definition") + ln("     Beta    l   2j     e      Rc     scheme   norm")
    for k in range(g.many(*range(1, 13), big=(22, 31))):
        beta = "loc" if g.maybe(0.2) else k + 1
        l, nrm, j = g.ri(0, 3), g.ri(0, 4), (g.ri(0, 7) if g.maybe() else None)
        e, rc, sch = f"{g.r.uniform(-20, 1):.3f}", f"{g.r.uniform(0.5, 3):.3f}", g.choice(["qc", "pn", "us", "nc", "tm"])
        t += ln(f"     {beta!s:>4s}{l:6d}{'' if j is None else j!s:>5s}{e:>9s}{rc:>8s}     {sch}     {nrm:d}")
        exp["pseudopotential_definition"].append({"beta": beta, "l": l, "j": j, "e": float(e), "Rc": float(rc), "scheme": sch, "norm": nrm})
    t += ln("")
    if g.maybe(0.6):
        r = f"{g.r.uniform(0.3, 2):.3f}"
        t += ln(f"Augmentation charge Rinner = {r}")
        exp["augmentation_charge_rinner"] = [float(r)]
    else:
        t += ln("No charge augmentation")
    if g.maybe(0.6):
        r = f"{g.r.uniform(0.3, 2):.3f}"
        t += ln(f"Partial core correction Rc = {r}")
        exp["partial_core_correction"] = [float(r)]
    else:
        t += ln("No partial core correction")
    ptxt, pexp = cellparam.pspot(g)
    t += bar + ln(f'"{ptxt}"') + bar + ln("     Author: Chris J. Pickard, Cambridge University") + line("   ", "=" * 60) + "\n"
    t = t if len(ptxt) < W - 4 else t.replace(ln(f'"{ptxt}"'), line(f'   | "{ptxt}" |'))

    def eff(run, filters, wrong):
        run.setdefault("pspot_detail", []).append(exp if "pspot-report-string-lost" in wrong else {**exp, "detail": pexp})
    return Sec("pspot_detail", t, ["PSPOT"], eff, ["pspot-report-string-lost"])


def pspot_debug(g, s):
    t, rows = line(" ", "-" * 39), []
    for typ in ("AE", "PS"):
        for _ in range(g.many(1, 2, 3, 4, 5, big=(22,))):
            nl, e = g.ri(1, 6) * 10 + g.ri(0, 3), f"{g.r.uniform(-100, 1):.8f}"
            t += line(f" {typ} eigenvalue nl {nl} = {e}")
            rows.append({"type": typ, "nl": nl, "eigenvalue": float(e)})
        t += line(" ", "-" * 39)
    return Sec("pspot_debug", t + line(f" Maximum eigenvalue error:   3.26E-05") + "\n", ["PSPOT"], ext("pspot_debug", rows))


def cell_text(g):
    """Unit cell block and what it states."""
    real = [[fl(g, 14, 7, hi=2) for _ in range(3)] for _ in range(3)]
    rec = [[fl(g, 14, 9, hi=1) for _ in range(3)] for _ in range(3)]
    t = box("Unit Cell") + line("        Real Lattice(A)                      Reciprocal Lattice(1/A)")
    for a, b in zip(real, rec):
        t += line("  ", *a, "     ", *b)
    lp = [fl(g, 14, 6, signed=False, lo=0, hi=2) for _ in range(3)]
    an = [Tok(x := f"{g.r.uniform(10, 170):11.6f}", float(x)) for _ in range(3)]
    t += "\n" + line(" " * 23, "Lattice parameters(A)       Cell Angles")
    for n, m, a, b in zip("abc", ("alpha", "beta ", "gamma"), lp, an):
        t += line(f"                    {n} ={a}          {m} ={b}")
    v, d1, d2 = (fl(g, 20, 6, signed=False, lo=0, hi=k) for k in (4, 1, 1))
    t += "\n" + line(" " * 23, f"Current cell volume ={v}       A**3") + line(" " * 35, f"density ={d1}   AMU/A**3")
    t += line(" " * 43, f"={d2}     g/cm^3") + "\n"
    exp = {"real_lattice": [vals(r) for r in real], "recip_lattice": [vals(r) for r in rec],
           "lattice_parameters": vals(lp), "cell_angles": vals(an), "volume": v.v, "density_amu": d1.v, "density_g": d2.v}
    return t, exp


def unit_cell(g, s):
    t, exp = cell_text(g)
    return Sec("initial_cell", t, ["CELL"], put("initial_cell", exp))


def supercell(g, s):
    m = [[g.ri(-12, 12) for _ in range(3)] for _ in range(3)]
    t = line("    Supercell generated using matrix  [", "; ".join(",".join(map(str, r)) for r in m), "]") + "\n"
    return Sec("supercell", t, [], put("supercell", [[float(x) for x in r] for r in m]))


def atom_table(g, s, what="Fractional coordinates of atoms  ", cols=("u", "v", "w"), indent=8, hi=1):
    pad = " " * indent
    t = line(pad, "x" * 60)
    t += line(pad, "x  Element    Atom        ", f"{what:<34s}"[:33], "x") + line(pad, f"x            Number           {cols[0]}          {cols[1]}          {cols[2]}      x")
    t += line(pad, "x", "-" * 58, "x")
    exp = {}
    for a in s.atoms:
        v = [fl(g, 11, 6, hi=hi, lo=-3) for _ in range(3)]
        t += line(pad, f"x  {a[0]:<8s}{a[1]:6d}      ", *v, "   x")
        exp[a] = vals(v)
    return t + line(pad, "x" * 60), exp


def positions(g, s):
    t, exp = atom_table(g, s)
    return Sec("initial_positions", box("Cell Contents") + "\n" + t + "\n", ["POSITION"], put("initial_positions", exp))


def positions_labelled(g, s):
    pad = "     "
    t = line(pad, "x" * 74) + line(pad, "x  Element    Atom        Fractional coordinates of atoms  User-defined  x")
    t += line(pad, "x            Number           u          v          w          LABEL     x") + line(pad, "x", "-" * 72, "x")
    pos, lab = {}, {}
    for a in s.atoms:
        v = [fl(g, 11, 6, hi=1) for _ in range(3)]
        lb = f"{a[0][:1]}{a[1] % 100}{g.choice(['', 'x', '_b', '-c'])}"[:8] if g.maybe(0.7) else ""
        t += line(pad, f"x  {a[0]:<8s}{a[1]:6d}      ", *v, f"     {lb:<10s}  x")
        lab[a] = lb or "NULL"
        pos[(f"{a[0]} [{lb}]", a[1]) if lb else a] = vals(v)
    return Sec("labelled_positions", t + line(pad, "x" * 74) + "\n", ["POSITION"],
               both(put("initial_positions", pos), upd("labels", lab)))


def positions_mixed(g, s):
    pad = "        "
    t = line(pad, "x" * 68) + line(pad, "x  Mixture   Fractional coordinates of atoms  Components  Weights  x")
    t += line(pad, "x   atoms       u          v          w                            x") + line(pad, "x", "-" * 66, "x")
    exp = {}
    for i in range(1, g.many(*range(2, 15), big=(45, 103, 1002))):
        v = [fl(g, 11, 6, hi=1) for _ in range(3)]
        sp = [x + g.choice(["", "", ":1", ":tag", " [A1]"]) for x in g.sample(["Si", "Ge", "C", "Sn", "Fe"], g.ri(2, 3))]
        for k, x in enumerate(sp):
            w = Tok(z := f"{g.r.uniform(0, 1):.6f}", float(z))
            if k == 0:
                t += line(pad, f"x {i:4d}     ", *v, f"   {x:<8s}  {w}  x")
            else:
                t += line(pad, "x", " " * 46, f"{x:<8s}  {w}  x")
            exp[(x, i)] = {"pos": vals(v), "weight": w.v}
    return Sec("mixed_positions", t + line(pad, "x" * 68) + "\n", ["POSITION"], put("initial_positions", exp))


def velocities(g, s):
    t, exp = atom_table(g, s, "User Supplied Ionic Velocities ", ("Vx", "Vy", "Vz"), 12, hi=2)
    return Sec("initial_velocities", t + "\n", ["POSITION"], put("initial_velocities", exp))


def init_spins(g, s):
    pad = "         "
    t = line(pad, "x" * 70) + line(pad, "|  Element    Atom         Initial            Initial magnetic       |")
    t += line(pad, "|            Number    spin polarization        moment (uB)     Fix? |") + line(pad, "|", "-" * 68, "|")
    exp = {}
    for a in s.atoms:
        sp, m, f = fl(g, 12, 6, lo=-2, hi=0), fl(g, 12, 3, lo=-1, hi=0), g.maybe()
        t += line(pad, f"| {a[0]:<8s}{a[1]:8d}     ", sp, "         ", m, "       ", "T" if f else "F", "       |")
        exp[a] = {"spin": sp.v, "magmom": m.v, "fix": f}
    return Sec("initial_spins", t + line(pad, "x" * 70) + "\n", ["PARAMETERS"], put("initial_spins", exp))


def dftd(g, s):
    sch = g.choice(["G06", "TS", "XDM", "OBS", "JCHS", "D3", "D3-BJ", "MBD*"])
    t = box("DFT-D parameters", 20, 32) + "\n" + line(" " * 26, f"Dispersion-correction scheme : {sch}")
    exp = {"dispersion_correction_scheme": sch, "species": {}}
    for p in g.sample(["s6", "d", "sc", "a1", "a2", "sR", "beta"], g.ri(1, 4)):
        v = fl(g, 11, 6, lo=-1, hi=1, signed=g.maybe(0.3))
        t += line(" " * 24, f"Parameter {p:<3s}:{v} {g.choice(['(default)', '(user)', ''])}")
        exp["parameter_" + p.lower()] = v.v
    t += "\n"
    if g.maybe(0.7):
        pad = " " * 8
        t += line(pad, "x" * 68) + line(pad, "x              Atomic DFT-D parameters                             x")
        t += line(pad, "x  Species      C6            R0                                   x")
        t += line(pad, "x               eV A^6        Ang                                  x") + line(pad, "x", "-" * 66, "x")
        for sp in s.species:
            c, r = fl(g, 11, 4, signed=False, hi=3), fl(g, 13, 4, signed=False, hi=0)
            t += line(pad, f"x  {sp:<8s} {c}{r}   (default)                   x")
            exp["species"][sp] = {"c6": c.v, "r0": r.v}
        t += line(pad, "x" * 68)
    else:
        t += "\n"
    return Sec("dftd", t + "\n", ["PARAMETERS"], put("dftd", exp))


def com_removal(g, s):
    v = [g.e(27, 16, lo=-9, hi=0) for _ in range(3)]
    t = line("firstd_calculate: removing force on centre of mass")
    for c, x in zip("xyz", v):
        t += line(f" dF{c}:{x} eV/A")
    return Sec("com_force_removal", t + "\n", ["FORCE"], app2("forces", "com_force_removal", vals(v)))


def kpoints(g, s):
    t = box("k-Points For BZ Sampling")
    exp = {}
    if g.maybe(0.7):
        grid, off = [g.ri(1, 24) for _ in range(3)], [fl(g, 7, 3, lo=-2, hi=-1) for _ in range(3)]
        t += line(" " * 23, "MP grid size for SCF calculation is", *(f"{x:3d}" for x in grid))
        t += line(" " * 28, "with an offset of ", *off)
        exp = {"kpoint_mp_grid": grid, "kpoint_mp_offset": vals(off)}
    n = g.choice([1, g.ri(1, 5000), g.ri(10**4, 10**6)])
    exp["num_kpoints"] = n
    t += line(" " * 23, f"Number of kpoints used ={n:14d}") + "\n"
    return Sec("k-points", t, ["PARAMETERS"], upd("k-points", exp))


def kpoints_list(g, s):
    pad = " " * 13
    t = line(pad, "+" * 55) + line(pad, "+  Number       Fractional coordinates        Weight  +") + line(pad, "+", "-" * 53, "+")
    pts = []
    for i in range(1, g.choice([g.ri(1, 9), g.ri(10, 14), g.ri(99, 102)]) + 1):
        v, w = [fl(g, 11, 6, hi=0) for _ in range(3)], fl(g, 12, 7, signed=False, lo=-3, hi=0)
        t += line(pad, f"+{i:6d}", *v, w, "  +")
        pts.append((vals(v), w.v))
    t += line(pad, "+" * 55) + "\n"

    def eff(run, filters, wrong):
        bad = "kpoints-third-component" in wrong
        run.setdefault("k-points", {}).update(
            {"points": [{"qpt": [v[0], v[1], v[0] if bad else v[2]], "weight": w} for v, w in pts], "num_kpoints": len(pts)})
    return Sec("k-points_list", t, ["PARAMETERS"], eff, ["kpoints-third-component"])


def efield(g, s):
    v = [fl(g, 10, 5, lo=-4, hi=1) for _ in range(3)]
    t = line(" " * 26, f"Applied Electric Field ({g.choice(['eV/A/e', 'hartree/bohr/e'])})") + line(" " * 25, *v) + "\n"
    return Sec("applied_field", t, ["PARAMETERS"], put("applied_field", vals(v)))


def target_stress(g, s):
    v = [fl(g, 10, 5, hi=2) for _ in range(6)]
    t = line(" " * 25, f"External pressure/stress ({g.choice(['GPa', 'GPa', 'eV/A**3', 'eV/ang**3'])})")
    t += line(" " * 24, *v[:3]) + line(" " * 34, *v[3:5]) + line(" " * 44, v[5]) + "\n"
    return Sec("target_stress", t, ["PARAMETERS"], app("target_stress", vals(v)))


PG = [(1, "C1", "1", "1"), (16, "D2", "222", "222"), (20, "D3d", "-3m", "-3 2/m"), (32, "Oh", "m-3m", "4/m -3 2/m")]
SG = [(1, "P1", "P 1"), (213, "P4_132", "P 4bd 2ab 3"), (227, "Fd-3m", "-F 4vw 2vw 3"), (166, "R-3m", '-R 3 2"'), (2, "P-1", "-P 1")]


def symmetry(g, s):
    t = box("Symmetry and Constraints") + "\n"
    sym, con = {}, {}
    P = " " * 22
    if g.maybe(0.3):
        n = g.ri(2, 200)
        t += line(P, f"Cell is a supercell containing {n} primitive cells")
        sym["n_primitives"] = n
    d = f"{g.r.uniform(0, 1):.6f}" if g.maybe() else "0.00000"
    nops = g.choice([0, 0, 1, 2, 12])
    nsym, nion, ncell = (nops or g.ri(1, 48)), g.choice([0, 1, g.ri(0, 3000)]), g.ri(0, 6)
    pg, sg = g.choice(PG), g.choice(SG)
    t += line(P, f"Maximum deviation from symmetry =  {d}         ANG") + "\n"
    t += line(P, f"Number of symmetry operations   = {nsym:11d}") + line(P, f"Number of ionic constraints     = {nion:11d}")
    t += line(P, f"Point group of crystal = {pg[0]:5d}: {pg[1]}, {pg[2]}, {pg[3]}") + line(P, f"Space group of crystal = {sg[0]:5d}: {sg[1]}, {sg[2]}") + "\n"
    sym.update({"max_deviation": float(d), "num_symmetry_operations": nsym,
                "point_group": {"id": pg[0], "schoenflies": pg[1], "hermann_mauguin": pg[2], "hermann_mauguin_full": pg[3]},
                "space_group": {"id": sg[0], "international": sg[1], "hall": sg[2]}})
    con["num_ionic_constraints"] = nion
    if not nops:
        t += line("             Set iprint > 1 for details on symmetry rotations/translations") + "\n"
    for k in range(nops):
        rot = [[fl(g, 16, 11, lo=-1, hi=0) for _ in range(3)] for _ in range(3)]
        dis = [fl(g, 16, 11, lo=-2, hi=-1) for _ in range(3)]
        t += line(f"{'':14s}{k + 1:7d} rotation") + "".join(line(" " * 17, "(", *r, " )") for r in rot)
        t += line(f"{'':14s}{k + 1:7d} displacement") + line(" " * 17, "(", *dis, " )") + line(" " * 22, "symmetry related atoms:")
        rel = []
        for sp in s.species:
            ids = [i for x, i in s.atoms if x == sp]
            t += line(" " * 13, sp, ":", *(f"{i:5d}" for i in ids))
            rel += [(sp, i) for i in ids]
        t += "\n"
        sym.setdefault("symop", []).append({"rotation": [vals(r) for r in rot], "displacement": vals(dis), "symmetry_related": rel})
    com = g.maybe()
    con["com_constrained"] = com
    t += line(" " * 25, "Centre of mass is ", "" if com else "NOT ", "constrained") + ("\n" if g.maybe() else "")
    if g.maybe(0.5):
        pad = " " * 12
        t += line(pad, "x" * 62, "....") + line(pad, "x  Species       atom   co-ordinate  constraints.....") + line(pad, "x", "-" * 61, "....")
        con["ionic_constraints"] = {}
        for a in s.atoms:
            if g.maybe(0.3) and con["ionic_constraints"]:
                continue
            for c in g.sample("xyz", g.ri(1, 3)):
                v = [fl(g, 12, 4, hi=5) for _ in range(3)]
                t += line(pad, f"x {a[0]:<8s}{a[1]:11d}       {c}      ", *v)
                con["ionic_constraints"].setdefault(a, []).append(vals(v))
        t += line(pad, "x" * 62, "....") + "\n"
    else:
        t += line("             Set iprint > 1 for details of linear ionic constraints") + "\n"
    cc = [g.ri(0, 6) for _ in range(6)]
    t += line(" " * 25, f"Number of cell constraints= {ncell}") + line(" " * 25, "Cell constraints are: ", *(f"{x:2d}" for x in cc)) + "\n"
    con["num_cell_constraints"], con["cell_constraints"] = ncell, cc
    return Sec("symmetries", t, ["SYMMETRIES"], both(put("symmetries", sym), put("constraints", con)))


def tss_structure(g, s):
    mode = g.choice(["Reactant", "Product"])
    pad = " " * 12
    body, exp = atom_table(g, s, indent=12)
    return Sec(mode.lower(), line(pad, "x" * 60) + line(pad, "x", mode.center(58), "x") + line(pad, "x" * 60)
               + "".join(body.splitlines(True)[1:]) + "\n", ["TSS+POSITION"], put(mode.lower(), exp))


def pair_params(g, s):
    tag = g.choice(["", "", "SR", "WL"])
    pre = f"{tag:<3s}" if tag else "   "
    W = 66
    star = line(pre, "*" * (W + 2))

    def mid(x):
        return line(pre, "*", x.center(W), "*")
    t = line(pre, "*" * 24, "     PairParams     ", "*" * 24) + line(pre, "*", " " * W, "*")
    exp = {}
    pot = lambda n: f"{tag}_{n}" if tag else n

    def val(lab, toks, unit, typ):
        if len(toks) > 1:
            body = f"{lab:>5s}   " + "".join(toks) + f"   {unit}"
        else:
            body = f"{lab:>5s}  {toks[0]:>34s}" + f"{unit:>19s}" if False else f"{lab:>5s}{toks[0]:>34s}" + (f"{'':18s}{unit:<8s}" if unit else "")
        return line(pre, "*", f"{body:<{W}s}", f"* <--{typ:>5s}")
    sp = s.species[:3]
    secs = g.sample(["pair", "one", "three", "glob"], g.ri(1, 4))
    if "pair" in secs:
        pairs = [(a, b) for a in sp for b in sp]
        typ = g.choice(["LJ", "BUCK", "COUL", "MORS"])
        labs = g.sample(["r", "e", "s", "a", "rho", "c"], g.ri(1, 4))
        units = [g.choice(["A", "eV", "", "1/A", "eV/A^2"]) for _ in labs]
        step = g.ri(1, 4)                       # as many pairs as fit next to each other
        d = exp.setdefault(pot(typ), {})
        for k in range(0, len(pairs), step):
            now = pairs[k:k + step]
            t += mid("Two Body") + line(pre, "*", f"      {'   '.join(f'{a:>4s}-{b:<4s}' for a, b in now)}".ljust(W), "*")
            for lab, u in zip(labs, units):
                v = [fl(g, 12, 5, hi=2) for _ in now]
                t += val(lab, v, u, typ)
                d.setdefault(lab, {}).update(zip(now, vals(v)))
            t += star
    if "one" in secs:
        d = exp.setdefault(pot("SHO"), {})
        labs = g.sample(["r", "r_d", "k"], g.ri(1, 3))
        for a in g.sample(sp, g.ri(1, len(sp))):
            t += mid("Two Body") + mid(a)
            for lab in labs:
                v = fl(g, 18, 10, hi=1)
                t += val(lab, [v], g.choice(["A", "eV/A^2", ""]), "SHO")
                d.setdefault(lab, {})[(a,)] = v.v
            t += star
    if "three" in secs:
        d = exp.setdefault(pot("SW"), {})
        labs = g.sample(["l", "c", "C", "gam"], g.ri(1, 3))
        for tri in dict.fromkeys(tuple(g.choice(sp) for _ in range(3)) for _ in range(g.choice([1, 1, 2, 4]))):
            t += mid("Three Body") + mid("   ".join(tri))
            for lab in labs:
                v = fl(g, 18, 10, hi=1)
                t += val(lab, [v], "", "SW")
                d.setdefault(lab, {})[tri] = v.v
            t += star
    if "glob" in secs:
        typ = g.choice(["DZ", "SW"])
        if typ == "SW":
            t += mid("SW Units")
        d = exp.setdefault(pot(typ), {})
        for lab in g.sample(["A", "B", "D", "CUT1", "CUT2", "EPS", "SIG", "m"], g.ri(1, 5)):
            v = fl(g, 18, 10, hi=1)
            t += val(lab, [v], g.choice(["A", "eV", "", ""]), typ)
            d[lab] = v.v
        t += star
    return Sec("pair_params", t + "\n", ["PARAMETERS"], app("pair_params", exp))


SETUP = [build_info, time_started, finalisation, parallel, continuation, warning, memory, title, options,
         quantisation, ps_energy, mass, quadrupole, pspots, pspot_report, pspot_debug, unit_cell, supercell,
         positions, positions_labelled, positions_mixed, velocities, init_spins, dftd, pair_params, kpoints,
         kpoints_list, efield, target_stress, symmetry, tss_structure]


# ---------------------------------------------------------------------------
def small(g):
    """A short run: its heading and a few sections."""
    s = Sys(g, nmax=4)
    return "".join(w(g, s).text for w in [build_info, *g.sample(SMALL, g.ri(2, 6))])


SMALL = [w for w in SETUP if w is not build_info]
