"""C01: ground-state sections of a .castep file (see gen/castep.py)."""
from __future__ import annotations

from .base import Tok, vals
from .castep import Sec, app, app2, both, fl, line, put


def e3(g, lo=0, hi=3, **kw):
    return g.e(17, 8, lo=lo, hi=hi, **kw)


SCF = " <-- SCF"
BAR = "-" * 72
CONTRIB = [("Exchange-correlation energy      ", "exchange_correlation_energy"), ("+Hartree energy                  ", "hartree_energy"),
           ("+Local pseudopotential energy    ", "local_pseudopotential_energy"), ("Potential energy (total)         ", "potential_energy_total"),
           ("+Kinetic energy                  ", "kinetic_energy"), ("+Non-local energy                ", "non_local_energy"),
           ("+Electronic entropy term (-TS)   ", "electronic_entropy_term_ts"), ("+Ewald energy (const)            ", "ewald_energy_const"),
           ("+non-Coulombic energy (const)    ", "non_coulombic_energy_const"), ("Total free energy (E-TS)         ", "total_free_energy_e_ts")]


def scf_rows(g, debug=False):
    """SCF table: text and rows."""
    fermi = g.maybe(0.75)
    n = g.many(0, 1, 2, 3, 9, 11, 30) if not debug else g.ri(1, 4)
    head = "SCF loop      Energy           Fermi           Energy gain       Timer  " if fermi else \
           "SCF loop      Energy                           Energy gain       Timer  "
    sub = "                               energy          per atom          (sec)  " if fermi else \
          "                                               per atom          (sec)  "
    t = line(BAR, SCF) + line(head, SCF) + line(sub, SCF) + line(BAR, SCF)
    rows = []
    time = g.r.uniform(0.01, 2000)
    resid = g.maybe(0.3)
    cons, dip = g.maybe(0.15), g.maybe(0.15)
    for k in range(n + 1):
        row = {}
        if debug and k:
            dt, row["debug_info"] = scf_debug(g, k)
            t += dt
        time += g.choice([g.r.uniform(0.01, 10), 0]) if g.few else g.r.uniform(0.01, 10)
        tm = f"{time:.2f}"
        e = e3(g, lo=0, hi=4, zero=0)
        f = e3(g, lo=-3, hi=1) if fermi else None
        gain = None if k == 0 else e3(g, lo=-9, hi=1)
        t += line(f"{'Initial' if k == 0 else f'{k:7d}'}{e}", f if fermi else " " * 16, f"{'' if gain is None else gain:>18s}",
                  f"{tm:>11s}", " ", SCF)
        row |= {"energy": e.v, "fermi_energy": f.v if fermi else None, "energy_gain": None if gain is None else gain.v, "time": float(tm)}
        if resid and k:
            if g.maybe(0.3):
                t += line(" Density was not mixed in this cycle")
                row["density_residual"] = None
            else:
                r = g.e(24, 16, lo=-8, hi=0, signed=False)
                t += line(" Norm of density residual is ", r)
                row["density_residual"] = r.v
        if cons and k:
            r = g.e(26, 16, lo=-9, hi=0)
            t += line(" Total constraint energy:", r, " eV")
            row["constraint_energy"] = r.v
        if dip and k:
            r = fl(g, 14, 5, hi=1)
            t += line(" Correcting PBC dipole-dipole with self-consistent method: dE =", r, " eV")
            row["dipole_corr_energy"] = r.v
        rows.append(row)
    return t + line(BAR, SCF), rows


def scf_debug(g, k):
    d = {}
    t = line(f"Starting SCF cycle {k:5d} of up to {g.ri(30, 99):5d}")
    nb = g.ri(1, 200)
    t += line(f" no. bands in each block={nb:12d}")
    d["no_bands"] = nb
    kin, eig = [], []
    m = g.ri(1, 12)
    for b in range(m):
        x = g.e(17, 8, lo=-2, hi=2, exp3=False)
        t += line(f"Kinetic eigenvalue #{b + 1:4d} = {x}")
        kin.append(x.v)
    t += line(" Calculating the R matrix for the precon Sinv operator")
    for _ in range(g.ri(1, 3)):
        t += line(" Diagonalising expanded subspace") + line(" Copying updated data back")
        grp = []
        for b in range(m):
            i, f, c = fl(g, 7, 2), fl(g, 7, 2), g.f(7, 4, hi=0)
            t += line(f"eigenvalue {b + 1:4d} init={i}     fin={f}     change={c}")
            grp.append({"initial": i.v, "final": f.v, "change": c.v})
        t += line(" Checking convergence criteria")
        eig.append(grp)
    d["kinetic_eigenvalue"], d["eigenvalue"] = kin, eig
    con = {}
    if g.maybe(0.8):
        x = g.e(12, 4, lo=-2, hi=1)
        t += line("(Entering electronic_find_fermi_free)") + line(f"Fermi energy = {x.strip()} eV [lower bound; range =  1.43E-014 eV]")
        t += line("(Leaving electronic_find_fermi_free)") + line("Calculating KE and non-local eigenvalues to find total energy") + "\n"
        con["fermi_energy"] = x.v
    if g.maybe(0.8):
        t += line("End of SCF cycle energies")
        for lab, key in CONTRIB:
            x = g.f(26, 17, hi=3)
            if lab.startswith(("Potential", "Total free")):
                t += line("-" * 34)
            t += line(lab, "=", x, " eV")
            con[key] = x.v
        t += "\n"
        for lab, key in (("(XC correction to eigenvalue sum =", "xc_correction"), ("(Apolar corr to eigenvalue sum   =", "apolar_correction"),
                         ("(Hubbard U correction to eigenvalu", "hubbard_u_correction")):
            x = g.f(27, 17, hi=2)
            t += line(lab, x, " eV)")
            con[key] = x.v
        t += "\n"
    if con:
        d["contributions"] = con
    return t, d


def scf(g, s):
    t, rows = scf_rows(g, debug=g.maybe(0.2))
    return Sec("scf", t + g.choice(["\n", "Total energy has converged after 11 SCF iterations.\n"]), ["SCF"], app("scf", rows))


ENERGY = [("Final energy, E             =", "final_energy"), ("Final energy =", "final_energy"), ("Final free energy (E-TS)    =", "free_energy"),
          ("NB est. 0K energy (E-0.5TS)      =", "est_0K"), ("Dispersion corrected final energy* =", "disperson_corrected"),
          ("Dispersion corrected final energy*, Ecor          =", "disperson_corrected"),
          (" Total energy corrected for finite basis set =", "final_basis_set_corrected"), ("(SEDC) Total Energy Correction :", "sedc_correction"),
          (" Free energy of solvation         =", "solvation")]
LOST = [("Dispersion corrected final free energy* (Ecor-TS) =", "dispersion_corrected_free"),
        ("NB dispersion corrected est. 0K energy* (Ecor-0.5TS) =", "dispersion_corrected_est_0K")]


def energy_line(g, lab, key):
    if key == "sedc_correction":
        x = g.e(14, 6, lo=-2, hi=2, exp3=False)
        return line(lab, " ", x.strip(), " eV"), x.v
    x = g.f(20, 10, lo=0, hi=5)
    return line(lab, x, "     eV" if key != "final_basis_set_corrected" else " eV"), x.v


def energies(g, s):
    t, effs = "", []
    for lab, key in g.sample(ENERGY, g.ri(1, 6)):
        txt, v = energy_line(g, lab, key)
        t += txt
        if key == "free_energy":
            t += line("(energies not corrected for finite basis set)") + "\n"

        def eff(run, filters, wrong, key=key, v=v):
            if key != "solvation" or "SOLVATION" in filters:
                run.setdefault("energies", {}).setdefault(key, []).append(v)
        effs.append(eff)
    return Sec("energies", t + "\n", [], both(*effs))


def energies_dispersion(g, s):
    """The block printed with a dispersion correction."""
    t, effs = "", []
    mech = "dispersion-corrected-free-energies-lost"
    for lab, key in [ENERGY[5], LOST[0], LOST[1]]:
        txt, v = energy_line(g, lab, key)
        t += txt

        def eff(run, filters, wrong, key=key, v=v):
            if key == "disperson_corrected" or mech not in wrong:
                run.setdefault("energies", {}).setdefault(key, []).append(v)
        effs.append(eff)
    return Sec("dispersion_energies", t + "\n", [], both(*effs), [mech])


def dedlne(g, s):
    x = fl(g, 15, 6, hi=2)
    return Sec("dedlne", line(" For future reference: finite basis dEtot/dlog(Ecut) =", x, "eV") + "\n", [], put("dedlne", x.v))


def bsc(g, s):
    n = g.choice([2, 3, 3, 3, 5, 10, 11])
    t = line(f"Calculating finite basis set correction with {n:2d} cut-off energies.")
    tabs, effs, en = [], [], {}
    for k in range(n):
        cut = g.r.uniform(100, 900)
        t += line(f"Calculating total energy with cut-off of  {cut:.3f} eV.")
        if k == 0:
            t += line("Calculating approximate eigenstates for fixed initial Hamiltonian") + line("Cut-off for approx. calculation is   80.000 eV")
        x, rows = scf_rows(g)
        t += x + "\n"
        tabs.append(rows)
        if k < n - 1:
            for lab, key in ENERGY[0], ENERGY[2], ENERGY[3]:
                txt, v = energy_line(g, lab, key)
                t += txt
                en.setdefault(key, []).append(v)
            t += "\n"
            if g.maybe(0.2):
                sp = spin(g, s)
                t += sp.text
                effs.append(lambda r, f, w, sp=sp: sp.effect(r, f, w) if sp.selected(f) else None)

    def eff(run, filters, wrong):
        run["bsc_energies"] = en
        if "SCF" in filters:
            run["bsc_scf"] = tabs[:-1]
            if "bsc-scf-flattened" in wrong:
                run["scf"] = list(tabs[-1])
            else:
                run.setdefault("scf", []).append(tabs[-1])
    return Sec("bsc", t, [], both(eff, *effs), ["bsc-scf-flattened"])


def occupancies(g, s):
    t = line(f"Bands above band {g.ri(1, 99)} are completely empty                           <- occ")
    t += line("Band energies and occupancies for bands close to Fermi energy     <- occ") + line("Smearing width is  0.200 eV                                       <- occ")
    k = [f"{g.r.uniform(-1, 1):.6f}" for _ in range(3)]
    t += line(f"Spin {g.ri(1, 2)}, kpoint ( {k[0]:>9s} {k[1]:>9s} {k[2]:>9s} ) weight = {g.r.random():.6f}")
    bar = "+--------+-------------------+----------------+"
    t += line(bar) + line("|  Band  |   Eigenvalue      |    Occupancy   |                   <- occ") + line(bar, " " * 19, "<- occ")
    rows, first = [], g.choice([1, 1, 95, 998])
    for b in range(first, first + g.many(1, 2, 5, 10, 15)):
        ev = zero_e(g)
        oc = zero_e(g, signed=False) if g.maybe() else g.f(7, 5, signed=False, hi=0)
        t += line(f"|{b:6d}  |{ev:>15s}    |{oc.strip():>13s}   |", " " * 19, "<- occ")
        rows.append({"band": b, "eigenvalue": float(ev), "occupancy": float(oc)})
    t += line(bar, " " * 19, "<- occ") + line("Have a nice day.")
    return Sec("occupancies", t, ["SCF"], app("occupancies", rows))


def zero_e(g, signed=True):
    """Ew.d of old Fortran: 0.123456E+02, the leading zero dropped where there is a sign."""
    m, x = f"{abs(g.mag(-9, 2)):.5E}".split("E")
    z = f"{m[0]}{m[2:]}"
    neg = signed and g.maybe()
    t = f"{'-.' if neg else '0.'}{z}E{int(x) + 1:+03d}"
    return Tok(t, float(t))


def line_min(g, s):
    m = g.ri(1, 5)
    W = 71
    e = g.e(14, 6, lo=0, hi=4)
    d = g.e(11, 3, lo=-6, hi=1)
    t = line("+------------------- WAVEFUNCTION LINE MINIMISATION --------------------+<- line")
    t += line("|", f" Initial energy = {e.strip()} eV; initial dE/dstep = {d.strip()} eV".ljust(W), "|<- line") + line("|", " " * W, "|<- line")
    t += line("|            1st step    2nd step    3rd step    4th step    5th step   |<- line")
    t += line("+--------+--------------------------------------------------------------+<- line")
    exp = {"init_energy": e.v, "init_de_dstep": d.v}
    for lab in ("step", "gain"):
        xs = [g.e(10, 3, lo=-5, hi=1, zero=0) for _ in range(m)]
        t += line(f"| {lab}   | ", "  ".join(x + ("*" if k == m - 1 else "") for k, x in enumerate(xs)), " unnecessary" * (5 - m), "  |<- line")
        exp["steps" if lab == "step" else lab] = vals(xs)
    t += line("+--------+--------------------------------------------------------------+<- line")
    t += line(" * indicates the final, accepted state (should have the lowest energy)")
    return Sec("wvfn_line_min", t, ["SCF"], app("wvfn_line_min", exp))


def spin(g, s):
    t, effs = "", []
    vec = g.maybe(0.4)
    for key, mod in (("spin", False), ("modspin", True)):
        if g.maybe(0.15):
            continue
        if vec:
            x = [fl(g, 15, 5, hi=2, signed=not mod) for _ in range(3)]
            if g.maybe(0.2):                        # along an axis
                k = g.ri(0, 2)
                x = [a if i == k else Tok(f"{0.0:15.5f}", 0.0) for i, a in enumerate(x)]
            t += line("2*Integrated |Spin Density| (|Sx|,|Sy|,|Sz|) = " if mod else "2*Integrated Spin Density (Sx,Sy,Sz) = ", *x, "     hbar/2")
            v = vals(x)
        else:
            x = g.e(15, 6, lo=-9, hi=2, exp3=False, signed=not mod) if g.maybe() else fl(g, 12, 5, signed=not mod)
            t += line("Integrated |Spin Density|   = " if mod else "Integrated Spin Density     = ", x, "     hbar/2")
            v = x.v
        effs.append(app(key, v))
    return Sec("spin", t + "\n", ["SPIN", "SCF"], both(*effs))


FORCES = ["", "", "Constrained", "Symmetrised", "Constrained Symmetrised", "Unconstrained", "Fun"]


def forces(g, s, kind=None):
    k = g.choice(FORCES) if kind is None else kind
    title = f" {k} Forces " if k else " Forces "
    W = 84
    t = line(" ", title.center(W, "*")) + line(" *", " " * 82, "*") + line(" *", "Cartesian components (eV/A)".center(82), "*")
    t += line(" * ", "-" * 80, " *") + line(" *", "                         x                    y                    z              ", "*") + line(" *", " " * 82, "*")
    exp = {}
    suf = g.choice(["", "", "(cons'd)", " (mixed)"]) if k else ""
    for a in s.atoms:
        sp, i = s.key(a)
        v, cells = [], ""
        for _ in range(3):
            x = fl(g, 14, 5)
            v.append(x.v)
            cells += x + f"{suf if suf and g.maybe() else '':<8s}" + " " * 0
        t += line(f" * {sp:<8s}{i:9d}" if len(sp) <= 8 else f" * {sp} {i}", cells, " *")
        exp[sp, i] = v
    t += line(" *", " " * 82, "*") + line(" ", "*" * W) + "\n"
    return Sec("forces", t, ["FORCE"], app2("forces", "_".join(k.lower().split()) or "non_descript", exp))


def efield_forces(g, s):
    """Printed, and not one of the tables of forces."""
    t = line(" ************** External Efield and/or dipole ***************") + line(" *", " " * 58, "*")
    t += line(" *               Cartesian components (eV/A)                *") + line(" * ", "-" * 56, " *")
    for a in s.atoms:
        t += line(f" * {a[0]:<8s}{a[1]:9d}", *(fl(g, 13, 5) for _ in range(3)), " *")
    return Sec("efield_forces", t + line(" ", "*" * 60) + "\n", [], lambda *_: None)


STRESSES = ["", "", "Symmetrised", "Constrained", "Fun", "Symmetrised Constrained"]


def stresses(g, s):
    k = g.choice(STRESSES)
    W = 49
    t = line(" ", (f" {k} Stress Tensor " if k else " Stress Tensor ").center(W, "*")) + line(" *", " " * 47, "*")
    t += line(" *          Cartesian components (GPa)           *") + line(" * ", "-" * 45, " *")
    t += line(" *             x             y             z     *") + line(" *", " " * 47, "*")
    v = {}
    wide = g.maybe(0.08)
    for i, a in enumerate("xyz"):
        row = []
        for j in range(3):
            x = v[j, i] if j < i else fl(g, 13 if not j else 14, 6)
            if 0 < j and i <= j and wide:       # fills its column: touches its left neighbour
                t14 = f"{-g.r.uniform(1e5, 9e5):14.6f}"
                x = Tok(t14, float(t14))
            v[i, j] = x
            row.append(f"{x:>{13 if not j else 14}s}")
        t += line(f" *  {a}", *row, "  *")
    p = fl(g, 11, 4)
    t += line(" *", " " * 47, "*") + line(f" *  Pressure: {p}                         *"[:50], "*") + line(" *", " " * 47, "*") + line(" ", "*" * W) + "\n"
    exp = [v[i, j].v for i in range(3) for j in range(i, 3)]
    return Sec("stresses", t, ["STRESS"], app2("stresses", "_".join(k.lower().split()) or "non_descript", exp))


def autosolvation(g, s):
    t = line(" ********************** AUTOSOLVATION CALCULATION RESULTS **********************") + line(" Calculation succeeded:")
    t += line("  - Vacuum calculation converged to a ground state") + "\n"
    exp = {}
    for lab, key, paren in ((" Total energy in solvent          ", "total_energy_in_solvent", 0), (" -Total energy in vacuum          ", "total_energy_in_vacuum", 0),
                            (None, None, 0), (" Free energy of solvation         ", "free_energy_of_solvation", 0),
                            ("  (Apolar cavitation energy       ", "apolar_cavitation_energy", 1), ("  (Apolar dis-rep energy          ", "apolar_dis_rep_energy", 1),
                            ("  (Total apolar solvation energy  ", "total_apolar_solvation_energy", 1),
                            ("  (Total polar solvation energy   ", "total_polar_solvation_energy", 1)):
        if lab is None:
            t += line(" ", "-" * 34)
            continue
        x = g.f(28, 17, hi=3)
        t += line(lab, "=", x, " eV)" if paren else " eV")
        exp[key] = x.v
    return Sec("autosolvation", t + line(" ", "*" * 79) + "\n", ["SOLVATION"], put("autosolvation", exp))


def enthalpy(g, s):
    m, x = g.choice(["BFGS", "LBFGS", "TPSD", "FIRE"]), g.e(17, 8, lo=0, hi=4)
    t = line(f" {m}: finished iteration {g.ri(0, 120):5d} with enthalpy= {x.strip()} eV")

    def eff(run, filters, wrong):
        run.setdefault("geom_opt", {})
        run.setdefault("enthalpy", []).append(x.v)
    return Sec("enthalpy", t + "\n", ["GEOM_OPT"], eff)


from .castep import com_removal  # noqa: E402

GROUND = [scf, scf, energies, energies, energies_dispersion, dedlne, bsc, occupancies, line_min, spin, forces, forces, efield_forces, stresses,
          com_removal, autosolvation, enthalpy]
