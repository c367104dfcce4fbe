"""C03: response and analysis sections of a .castep file (see gen/castep.py)."""
from __future__ import annotations

from lib.vf import Near

from .base import Tok, vals
from .castep import Sec, app, fl, line, put, upd

# ------------------------------------------------------------------ phonons
W = 76


def row(x):
    return line(" +", f"{x:<{W}s}", "+")


IRREPS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUV"
ROT = ["E", "2'", "2", "4", '2"', "I", "m_v", "m_h", "-4", "m", "3", "-3", "6"]


def phonons(g, s):
    nq = g.many(1, 1, 2, 3, 9, 12)
    t = line(" ", "=" * 78) + row("                           Vibrational Frequencies") + row("                           -----------------------") + row("")
    t += row(f" Performing frequency calculation at {nq:2d} wavevectors (q-pts)") + row(" " + "=" * 74 + " ") + row("")
    out = []
    nm = g.many(1, 3, 6, 11)
    prev = None
    for q in range(nq):
        qv = [fl(g, 10, 6, lo=-2, hi=-1) for _ in range(3)]
        if prev and g.maybe(0.15):
            qv = prev                                   # Gamma again, approached along another direction
        prev = qv
        wt = g.f(12, 10, signed=False, lo=-2, hi=-1)
        t += row(" " + "-" * 74 + " ") + row(f"  q-pt={q + 1:5d} ({''.join(qv)})  {wt}")
        if g.maybe(0.4):
            t += row(f"  q->0 along ({''.join(fl(g, 10, 6, lo=-1, hi=-1) for _ in range(3))})")
        t += row(" " + "-" * 74 + " ")
        if g.maybe(0.7):
            t += row(f"  Acoustic sum rule correction < {fl(g, 10, 6, signed=False)} cm-1 applied")
        form = g.choice(["plain", "ir", "ir+raman"])
        irrep = g.maybe(0.7)
        reps = g.sample(IRREPS, min(nm, g.ri(1, 6)))
        t += row("     N      Frequency irrep." + {"plain": "", "ir": "    ir intensity active            raman active",
                                                "ir+raman": "    ir intensity active  raman activity  active"}[form])
        t += row("                (cm-1)" + {"plain": "", "ir": "         ((D/A)**2/amu)", "ir+raman": "         ((D/A)**2/amu)              (A**4/amu)"}[form])
        t += row("")
        d = {"qpt": vals(qv), "N": [], "frequency": []}
        if irrep:
            d["irrep"] = []
        if form != "plain":
            d |= {"ir_intensity": [], "ir_active": [], "raman_active": []}
        if form == "ir+raman":
            d["raman_intensity"] = []
        start = 1
        for k in range(nm):
            f = g.f(15, 6, lo=-1, hi=3)
            r = f"{start + k:6d}{f}   "
            d["N"].append(start + k)
            d["frequency"].append(f.v)
            if irrep:
                c = g.choice(reps)
                r += c
                d["irrep"].append(c)
            else:
                r += " "
            if form != "plain":
                x, a, b = g.f(18, 7, signed=False), g.choice("YN"), g.choice("YN")
                r += f"{x}  {a}"
                d["ir_intensity"].append(x.v)
                d["ir_active"].append(a)
                if form == "ir+raman":
                    y = g.f(21, 7, signed=False)
                    r += f"{y}  {b}"
                    d["raman_intensity"].append(y.v)
                else:
                    r += " " * 23 + b
                d["raman_active"].append(b)
            t += row(r)
        if irrep and g.maybe(0.7):
            dots = row(" " + "." * 74 + " ")
            ops = [g.choice(ROT) for _ in range(g.ri(1, 10))]
            t += dots + row("        Character table from group theory analysis of eigenvectors") + row("                           Point Group =  32, Oh") + dots
            t += row("  Rep  Mul |" + "".join(f"{o:>4s}" if k else f"{o:>5s}" for k, o in enumerate(ops)))
            t += row("           | " + "-" * 4 * len(ops))
            tab = []
            for c in reps:
                name, mul, ch = g.choice(["", "Eu", "A2u", "Tg", "B1", "A''", "E1g"]), g.ri(1, 40), [g.ri(-3, 3) for _ in ops]
                t += row(f" {c} {name:<4s}{mul:4d} |" + "".join(f"{o:4d}" if k else f"{o:5d}" for k, o in enumerate(ch)))
                e = {"rep": c, "mul": mul, "chars": [(o, x) for o, x in zip(ops, ch)]}
                if name:
                    e["name"] = name
                tab.append(e)
            d["char_table"] = tab
        out.append(d)
    t += line(" ", "=" * 78) + "\n"
    return Sec("phonons", t, ["PHONON"], put("phonons", out))


def phonon_symmetry(g, s):
    title, m = g.choice([("Elements of D with same absolute magnitude", "i"), ("Elements of BEC  with same absolute magnitude", "i"),
                         ("   Phase of Born Effective Charge elements", "f"), ("Phase of D elements", "f")])
    n = 3 * g.ri(1, 5)
    t = line("  ", "*" * 72) + line(f"  Phonon Symmetry Analysis: {title}") + line("  ", "*" * 72)
    mat = []
    for _ in range(n):
        r = [g.i(0, 200, 6) for _ in range(n)] if m == "i" else [Tok(f"{(v := g.choice([0, 0, 90, 180, 120, -60])):6.1f}", float(v)) for _ in range(n)]
        t += line(*r)
        mat.append(vals(r))
    return Sec("phonon_symmetry_analysis", t + "\n", ["PHONON"], app("phonon_symmetry_analysis", {"title": " ".join(title.split()), "mat": mat}))


def dynamical_matrix(g, s):
    n = 3 * g.choice([1, 2, 3, 4])
    t = line("  ", "-" * 114) + line("            Dynamical matrix")
    part, zero = {}, g.choice(["imaginary", None, None, "real"])      # at gamma the matrix is real
    for p in ("real", "imaginary"):
        t += line(f" Ion XYZ        {p} part  ((cm-1)**2)")
        part[p] = []
        for k in range(n):
            v = [Tok(f"{0.0:18.6f}", 0.0) for _ in range(n)] if p == zero else [fl(g, 18, 6, lo=-3, hi=6) for _ in range(n)]
            t += line(f"{k // 3 + 1:4d}{k % 3 + 1:4d}", *v)
            part[p].append(vals(v))
    t += line("  ", "-" * 114)
    return Sec("dynamical_matrix", t, ["PHONON"],
               put("dynamical_matrix", [[complex(a, b) for a, b in zip(x, y)] for x, y in zip(part["real"], part["imaginary"])]))


def raman(g, s):
    t = line(" ", "=" * 78) + row("                      Raman Susceptibility Tensors ((A/amu)*0.5)") + row("-" * 76)
    modes = []
    for k in range(g.many(1, 2, 6, 12)):
        t += row(f" Mode number: {k + 1:3d} Raman tensor       Depolarisation Ratio")
        dep = g.f(14, 6, signed=False, lo=-2, hi=-1)
        m = []
        for i in range(3):
            v = [g.f(10, 4, lo=-2, hi=1) for _ in range(3)]
            while any(not x.startswith(" ") for x in v):
                v = [g.f(10, 4, lo=-2, hi=1) for _ in range(3)]
            t += row(f" {''.join(v)}" + (dep if i == 0 else ""))
            m.append(vals(v))
        t += row("")
        tr = sum(m[i][i] for i in range(3))
        ii = sum(m[i][i] * m[j][j] - m[i][j] * m[j][i] for i in range(3) for j in range(i))
        modes.append({"tensor": m, "depolarisation": dep.v, "trace": Near(tr), "ii": Near(ii)})
    return Sec("raman", t + row("-" * 76) + "\n", ["PHONON"], app("raman", modes))


def mat(g, n, m, w=12, d=5, hi=2):
    rows = [[fl(g, w, d, lo=-2, hi=hi) for _ in range(m)] for _ in range(n)]
    if g.maybe(0.15):                               # cubic: what is off the diagonals is zero
        rows = [[x if j % n == i else Tok(f"{0.0:{w}.{d}f}", 0.0) for j, x in enumerate(r)] for i, r in enumerate(rows)]
    if m == 2 * n and g.maybe(0.15):                # both halves the same
        rows = [r[:n] * 2 for r in rows]
    return rows, [vals(r) for r in rows]


def permittivity(g, s):
    two = g.maybe()
    bar = line(" ", "=" * (79 if two else 39))
    rows, v = mat(g, 3, 6 if two else 3)
    if two:
        t = line("        Optical Permittivity (f->infinity)             DC Permittivity (f=0)") + line("        ----------------------------------             ---------------------")
    else:
        t = line("      Optical Permittivity (f->infinity)") + line("      ----------------------------------")
    t = bar + t + "".join(line("    ", *r[:3], "    " if two else "", *r[3:]) for r in rows) + bar + "\n"
    d = {"optical_permittivity": [r[:3] for r in v]}
    if two:
        d["dc_permittivity"] = [r[3:] for r in v]
    return Sec("permittivity", t, ["OPTICS"], lambda run, f, w: run.update(d))


def polarisability(g, s):
    two = g.maybe()
    bar = line(" ", "=" * (79 if two else 39))
    rows, v = mat(g, 3, 6 if two else 3)
    if two:
        t = line("                                    Polarisabilities (A**3)") + line("                Optical (f->infinity)                       Static  (f=0)")
        t += line("                ---------------------                       -------------")
    else:
        t = line("             Polarisability (A**3)") + line("                   Optical (f->infinity)") + line("                   ---------------------")
    t = bar + t + "".join(line("    ", *r[:3], "    " if two else "", *r[3:]) for r in rows) + bar + "\n"
    d = {"optical_polarisability": [r[:3] for r in v]}
    if two:
        d["static_polarisability"] = [r[3:] for r in v]
    return Sec("polarisability", t, ["OPTICS"], lambda run, f, w: run.update(d))


def nlo(g, s):
    rows, v = mat(g, 3, 6)
    t = line(" ", "=" * 75) + line("      Nonlinear Optical Susceptibility (pm/V)") + line("      ---------------------------------------")
    return Sec("nlo", t + "".join(line("    ", *r) for r in rows) + line(" ", "=" * 75) + "\n", ["OPTICS"], put("nlo", v))


def thermodynamics(g, s):
    z = fl(g, 16, 6, signed=False, lo=-3, hi=1)
    dash = line(" ", "-" * 78)
    t = line(" ", "=" * 69) + line(" " * 29, "Thermodynamics") + line(" " * 29, "==============") + "\n"
    t += line("            Zero-point energy =", z, "  eV") + dash
    t += line("       T(K)        E(eV)           F(eV)         S(J/mol/K)      Cv(J/mol/K)") + dash
    d = {"zero_point_energy": z.v, "t": [], "e": [], "f": [], "s": [], "cv": []}
    T, dT = 0.0, g.choice([0.04, None, None, None])
    for _ in range(g.many(1, 2, 5, 31)):
        v = [fl(g, 16, 6), fl(g, 16, 6), fl(g, 16, 3), fl(g, 16, 3)]
        t += line(f"{T:10.1f}", *v)
        for k, x in zip("t e f s cv".split(), [T, *vals(v)]):
            d[k].append(float(f"{x:.1f}") if k == "t" else x)
        T += dT or g.choice([5.0, 10.0, 100.5])
    return Sec("thermodynamics", t + dash + "\n" + line(" ", "=" * 78) + "\n", ["THERMODYNAMICS"], put("thermodynamics", d))


def displacements(g, s):
    dash = line(" ", "-" * 78)
    t = line(" ", "=" * 78) + line(" " * 22, "Atomic Displacement Parameters (A**2)") + line(" " * 22, "=" * 30) + "\n" + dash
    t += line("      T(K)  Ion        U11       U22       U33       U23       U31       U12") + dash
    exp = {}
    T = 0.0
    for _ in range(g.many(1, 2, 3, 4, big=(22, 101))):
        for a in s.atoms:
            v = [fl(g, 10, 6, lo=-5, hi=0) for _ in range(6)]
            t += line(f"{T:10.1f}  {a[0]} {a[1]}   ", *v)
            exp.setdefault(f"{T:.1f}", {})[a] = vals(v)
        T += g.choice([10.0, 100.5])
    return Sec("atomic_displacements", t + dash + "\n", ["THERMODYNAMICS"], put("atomic_displacements", exp))


# -------------------------------------------------------------- populations
def mulliken(g, s):
    spin = g.choice(["", "sep", "total"])
    t = line("     Atomic Populations (Mulliken)") + line("     -----------------------------")
    exp = {}
    p = lambda **k: fl(g, 8, 3, hi=1, lo=-2, **k)
    if spin == "sep":
        t += line("Species          Ion Spin      s       p       d       f      Total   Charge(e)   Spin(hbar/2)") + line("=" * 94)
    else:
        t += line("Species          Ion     s       p       d       f      Total   Charge (e)", "  Spin (hbar/2)" if spin else "") + line("=" * 74)
    for a in s.atoms:
        v = [p(signed=False) for _ in range(5)]
        if spin == "sep":
            c, sp = fl(g, 10, 3, hi=0), fl(g, 13, 3, hi=0)
            dn = [p(signed=False) for _ in range(5)]
            t += line(f"  {a[0]:<8s}{a[1]:9d}   up: ", *v, c, sp) + line(" " * 10, f"{a[1]:9d}   dn: ", *dn)
            d = {f"up_{k}": x.v for k, x in zip(("s", "p", "d", "f", "total"), v)} | {f"dn_{k}": x.v for k, x in zip(("s", "p", "d", "f", "total"), dn)}
            d |= {"charge": c.v, "spin": sp.v, "spin_sep": True, "total": Near(v[4].v + dn[4].v)}
        else:
            c, sp = fl(g, 10, 3, hi=0), fl(g, 10, 3, hi=0)
            t += line(f"  {a[0]:<8s}{a[1]:9d}  ", *v, c, sp if spin else "")
            d = dict(zip(("s", "p", "d", "f", "total"), vals(v))) | {"charge": c.v, "spin": sp.v if spin else None, "spin_sep": False}
        exp[a] = d
    return Sec("mulliken", t + line("=" * (94 if spin == "sep" else 74)) + "\n", ["POPN_ANALYSIS"], put("mulliken_popn", exp))


def born(g, s):
    t = line(" ", "=" * 51) + line("                   Born Effective Charges") + line("                   ----------------------")
    exp = {}
    for a in s.atoms:
        rows, v = mat(g, 3, 3)
        lab = g.choice(["geoff", "H1", "x_b", "O-a", "x.1", "C'", "2nd", "7"]) if g.maybe(0.35) else None
        t += line(f"   {a[0]:<5s}{a[1]:4d}     " if len(a[0]) < 6 else f"   {a[0]} {a[1]}  ", *rows[0], f" ID={lab}" if lab else "") + line(" " * 17, *rows[1]) + line(" " * 17, *rows[2])
        exp[f"{a[0]} [{lab}]" if lab else a[0], a[1]] = v
    return Sec("born", t + line(" ", "=" * 51) + "\n", ["POPN_ANALYSIS"], app("born", exp))


ORBITALS = ["S", "Px", "Py", "Pz", "Dzz", "Dzy", "Dzx", "Dxx-yy", "Dxy", "Fxxx", "Fyyy", "Fzzz", "Fxyz", "Fz(xx-yy)", "Fy(zz-xx)", "Fx(yy-zz)"]


def orbitals(g, s):
    dash = line("  ", "-" * 43)
    t = line("            Orbital Populations") + line("     Ion    Atom   Orbital             Charge") + dash
    exp = {}
    for a in s.atoms:
        for o in ORBITALS[:g.choice([1, 4, 4, 9, 16])]:
            v = fl(g, 12, 3, hi=0)
            t += line(f"{a[0]:>7s}{a[1]:6d}      {o:<10s}     {v}" if len(a[0]) < 6 else f"     {a[0]} {a[1]}      {o:<10s}   {v}")
            exp.setdefault(a, {})[o] = v.v
    tot = fl(g, 13, 3, signed=False, hi=3)
    t += dash + line(" " * 27, "Total:", tot) + dash
    exp["total"] = tot.v
    pr = [fl(g, 9, 3, signed=False) for _ in range(2)]
    t += line("The total projected population is", *pr) + "\n"
    mech = "orbital-total-projected-lost"

    def eff(run, filters, wrong):
        run["orbital_popn"] = exp if mech in wrong else {**exp, "total_projected": vals(pr)}
    return Sec("orbital_popn", t, ["POPN_ANALYSIS"], eff, [mech])


def bonds(g, s):
    spin = g.maybe()
    pairs = [(a, b) for i, a in enumerate(s.atoms) for b in s.atoms[i:] if a != b or g.maybe(0.3)]
    pairs = g.sample(pairs, min(len(pairs), g.ri(1, 12))) if pairs else [(s.atoms[0], s.atoms[0])]
    t = line("                 Bond                   Population", "        Spin       Length (A)" if spin else "      Length (A)") + line("=" * (80 if spin else 70))
    exp = {}
    for a, b in pairs:
        p, sp, ln = fl(g, 12, 2, hi=1, lo=-1), fl(g, 13, 2, hi=0, lo=-1, zero=0.2), fl(g, 16, 5, signed=False, hi=0)
        t += line(f"              {a[0]:<3s}{a[1]:d} -- {b[0]:<3s}{b[1]:d}         " if max(len(a[0]), len(b[0])) < 3 else f"       {a[0]} {a[1]:d} -- {b[0]} {b[1]:d}     ", p, sp if spin else "", ln)
        exp[a, b] = {"population": p.v, "length": ln.v} | ({"spin": sp.v} if spin else {})
    return Sec("bonds", t + line("=" * (80 if spin else 70)) + "\n", ["POPN_ANALYSIS"], put("bonds", exp))


def hirshfeld(g, s):
    t = line("     Hirshfeld Analysis") + line("     ------------------") + line("Species   Ion     Hirshfeld Charge (e)") + line("=" * 38)
    exp = {}
    for a in s.atoms:
        v = fl(g, 12, 2, hi=1, lo=-1)
        t += line(f"  {a[0]:<5s}{a[1]:5d}          " if len(a[0]) < 6 else f"  {a[0]} {a[1]}     ", v)
        exp[a] = v.v
    return Sec("hirshfeld", t + line("=" * 38) + "\n", ["POPN_ANALYSIS"], put("hirshfeld", exp))


def elf(g, s):
    t, v = line("      ELF grid sample") + line("-" * 23), []
    for k in range(g.choice([1, 3, 12, 120])):
        x = f"{g.choice([0.0, 1.0]) if g.maybe(0.05) else g.r.random():.6f}"
        t += line(f" ELF {k + 1:8d} {x}")
        v.append(float(x))
    return Sec("elf", t + line("-" * 23) + "\n", ["ELF"], put("elf", v))


# ------------------------------------------------------------------- others
def magres(g, s):
    task = g.ri(0, 4)
    w = 80

    def r(x):
        return line("  |", f"{x:<{w}s}", "|")
    title = ["Chemical Shielding Tensor", "Chemical Shielding and Electric Field Gradient Tensors", "Electric Field Gradient Tensor",
             g.choice(["Isotropic J-coupling", "Anisotropic J-coupling"]), "Hyperfine Tensor"][task]
    t = line("  ", "=" * (w + 2)) + r(title.center(w)) + r("-" * w) + r("     Nucleus                            values")
    t += r(["  Species            Ion            Iso(ppm)   Aniso(ppm)  Asym", "    Species            Ion    Iso(ppm)   Aniso(ppm)  Asym    Cq(MHz)    Eta",
            "    Species            Ion             Cq(MHz)        Asym", "  Species          Ion     FC           SD         PARA       DIA       TOT(Hz)",
            "    Species          Ion                 Iso(MHz)"][task])
    exp = {"task": ["Chemical Shielding", "Chemical Shielding and Electric Field Gradient", "Electric Field Gradient", "(An)Isotropic J-coupling", "Hyperfine"][task]}
    asym = lambda: ("     N/A  ", None) if g.maybe(0.2) else ((x := fl(g, 8, 2, signed=False, hi=-1)) + "  ", x.v)
    pert = g.ri(0, len(s.atoms) - 1)
    for k, a in enumerate(s.atoms):
        d = {}
        head = f"    {a[0]:<8s}{a[1]:9d}   "
        if task in (0, 1):
            i, an = fl(g, 14, 2, hi=2), fl(g, 12, 2, hi=2)
            at, d["asym"] = asym()
            head += i + an + at
            d |= {"cs_iso": i.v, "cs_aniso": an.v}
        if task in (1, 2):
            c = g.e(12, 3, lo=-3, hi=2, exp3=False)
            d["cq"] = c.v
            if task == 1:
                e = fl(g, 7, 2, signed=False, hi=-1)
                d["eta"] = e.v
                head += c + e
            else:
                at, d["asym"] = asym()
                head += c + "    " + at
        if task == 3:
            if k == pert:
                t += r(f"** {a[0]:<8s}{a[1]:10d}     --.--       --.--       --.--      --.--       --.--")
                continue
            v = [fl(g, 11, 2, hi=2) for _ in range(5)]
            head += "".join(v)
            d = dict(zip(("fermi_contact", "spin_dipolar", "paramagnetic", "diamagnetic", "total"), vals(v)))
        if task == 4:
            x = g.e(18, 3, lo=-2, hi=3, exp3=False)
            head += x
            d = {"hf_iso": x.v}
        t += r(head)
        exp[a] = d
    if task == 3:
        t += r("") + r("** Signifies Perturbing Nucleus A of coupling J_AB")
    return Sec("magres", t + line("  ", "=" * (w + 2)) + "\n", ["CHEM_SHIELDING"], app("magres", exp))


def elastic_matrix(g, s):
    which = g.choice(["constants", "compliance"])
    rows, v = mat(g, 6, 6, w=14, d=6 if which == "constants" else 9, hi=2)
    t = line(" ", "=" * 79) + line("                          ", "Elastic Constants Tensor (GPa)" if which == "constants" else " Compliance Matrix (GPa^-1)") + line(" ", "-" * 79)
    t += "".join(line(*r) for r in rows) + line(" ", "=" * 79) + "\n"
    return Sec("elastic_matrix", t, ["ELASTIC"], upd("elastic", {"elastic_constants" if which == "constants" else "compliance_matrix": v}))


def elastic_contribution(g, s):
    typ = g.choice(["Ewald", "<psi^1|H^(1)|psi^0>", "Kinetic", "XC core", "Local PSPot", "Hartree"])
    rows, v = mat(g, 6, 6, w=16, d=8, hi=1)
    return Sec("elastic_contribution", line(f"{typ} Contribution ::") + "".join(line(*r) for r in rows) + "\n", ["ELASTIC"],
               upd("elastic", {f"{typ} Contribution": v}))


def elastic_properties(g, s):
    dash = line(" ", "-" * 79)
    d = {}

    def vec(key, lab, n, w, dec, unit):
        v = [fl(g, w, dec, hi=2 if w > 12 else 0) for _ in range(n)]
        d[key] = vals(v) if n > 1 else v[0].v
        return line(f"{lab} ::", *v, unit)
    t = line(" ", "=" * 79) + line(" " * 31, "Elastic Properties") + dash + line(" " * 28, "x              y              z") + dash
    t += vec("young_s_modulus", "  Young's Modulus", 3, 15, 6, "     (GPa)") + "\n" + dash
    t += line("                        xy        xz        yx        yz        zx        zy") + dash
    t += vec("poisson_ratios", "  Poisson Ratios ", 6, 10, 6, "") + "\n" + dash
    t += line("                          Voigt          Reuss          Hill") + dash
    t += vec("bulk_modulus", "   Bulk Modulus  ", 3, 15, 6, "     (GPa)") + vec("shear_modulus", "  Shear Modulus  ", 3, 15, 6, "     (GPa)") + "\n"
    if g.maybe(0.8):
        rows, d["speed_of_sound"] = mat(g, 3, 3, w=15, d=6)
        t += dash + line(" " * 33, "Speed of Sound") + dash + line(" " * 28, "x              y              z") + dash
        for p, r in zip(("                  x", "  (Anisotropic)   y", "                  z"), rows):
            t += line(p, *r, "     (A/ps)")
        t += "\n" + line(" Assuming Isotropic material") + vec("longitudinal_waves", "  Longitudinal waves", 1, 15, 6, "   (A/ps)")
        t += vec("transverse_waves", "   Transverse waves ", 1, 15, 6, "   (A/ps)")
    return Sec("elastic_properties", t + line(" ", "=" * 79) + "\n", ["ELASTIC"], upd("elastic", d))


def band_structure(g, s):
    w = 67

    def r(x):
        return line("  +", f"{x:<{w}s}", "+")
    dash, eq = r(" " + "-" * 65 + " "), r(" " + "=" * 65 + " ")
    nk, ns, nb = g.many(1, 2, 10), g.ri(1, 2), g.many(1, 3, 12)
    t = eq + r("")
    if g.maybe():
        t += r("     Band Structure Calculation: Progress report on root process") + r("")
        t += r(f"   There are {nk:4d} BS k-points. Root process contains {nk:4d} of them. ") + r("")
        for k in range(nk):
            t += r(f"   Spin= 1 of  {ns}, K-point={k + 1:4d} of {nk:4d} completed, Time:     0.11s. ")
        t += r("   Finished BS calculation on root process (waiting for others).   ") + r("") + eq
    else:
        t += r("                   B A N D   S T R U C T U R E") + eq
    t += r("                       Electronic energies") + r("                       -------------------") + r("") + r("   Band number   Energy in eV") + eq + r("")
    out = []
    for sp in range(ns):
        for k in range(nk):
            q = [fl(g, 10, 6, lo=-2, hi=-1) for _ in range(3)]
            grp, last = g.ri(1, 9), len(t)
            t += dash + r(f"  Spin={sp + 1} kpt={k + 1:5d} ({''.join(q)}) kpt-group={grp:3d}  ") + dash + r("")
            d = {"spin": sp + 1, "kx": q[0].v, "ky": q[1].v, "kz": q[2].v, "kpgrp": grp, "band": [], "energy": []}
            for b in range(nb):
                e = fl(g, 18, 6, hi=2)
                t += r(f"{b + 1:12d}{e}")
                d["band"].append(b + 1)
                d["energy"].append(e.v)
            out.append(d)
            if g.maybe(0.1):                        # a path that comes back, word for word
                t += t[last:]
                out.append(d)
    return Sec("band_structure", t + line("  ", "=" * 69) + "\n", ["BS"], put("bs", out))


def dipole(g, s):
    def r(x):
        return line("  +", f"{x:<67s}", "+")
    q = [fl(g, 13, 4, signed=g.maybe(0.3), hi=2) for _ in range(2)]
    c = [[fl(g, 12, 4, hi=1) for _ in range(3)] for _ in range(2)]
    m, dr = fl(g, 10, 5, signed=False), [fl(g, 12, 6, hi=-1) for _ in range(3)]
    t = line("  ", "=" * 69) + r("") + r("   D I P O L E   O F   M O L E C U L E   I N   S U P E R C E L L   ") + r("      Cite: S. J. Clark, et al. Europhys Lett 44, 578 (1998)") + r("")
    t += r("      WARNING: This is only correct for isolated molecules") + r("") + r(f"    Total  ionic  charge in supercell:{q[0]} electrons") + r(f"    Total valence charge in supercell:{q[1]} electrons") + r("")
    t += r("   Centre of electronic charge for system:") + r(" " + "".join(c[0]) + "       ANG") + r("   Centre of positive ionic charges:") + r(" " + "".join(c[1]) + "       ANG") + r("")
    t += r(f"  Magnitude of Dipole ={m}  DEBYE") + r(f"  Direction of Dipole = {''.join(dr)}") + r("") + line("  ", "=" * 69) + "\n"
    return Sec("dipole", t, ["DIPOLE"], put("molecular_dipole", {
        "total_ionic": q[0].v, "total_valence": q[1].v, "centre_electronic": vals(c[0]), "centre_positive": vals(c[1]),
        "dipole_magnitude": m.v, "dipole_direction": vals(dr)}))


def tddft(g, s):
    def r(x):
        return line("  +", f"{x:<67s}", "+TDDFT")
    eq = r(" " + "=" * 65 + " ")
    t = eq + r("                     TDDFT excitation energies") + r("                     -------------------------") + r("   State number         Energy in   eV     Estimated error") + eq + r("")
    out = []
    for k in range(g.many(1, 3, 11)):
        e, err, typ = fl(g, 20, 15, hi=1), g.e(19, 10, lo=-9, hi=-3, exp3=False), g.choice(["spurious", "Singlet", "Triplet", "Mixed"])
        t += r(f"{k + 1:10d}{e}{err}     {typ}")
        out.append({"energy": e.v, "error": err.v, "type": typ})
    return Sec("tddft", t + r("") + eq + r("  TDDFT calculation time:      39.35") + eq + "\n", ["TDDFT"], put("tddft", out))


def delta_scf(g, s):
    stem = g.choice(["N2-modos", "spin-up", "run_nr.5", "C60", "a.b"])
    f = g.choice(["N2-base.check", "spin_2.check", "x.castep_bin"])
    t = line("               Calculating MODOS weights") + line(" +-------------------INPUT PARAMETERS-------------------+") + line("Taking band from model   ", f)
    st = []
    same = g.maybe(0.5)
    for _ in range(g.many(1, 2, 3, 4, 5, big=(25,))):
        b, sp = g.ri(1, 3 if same else 40), g.ri(1, 2)
        if (b, sp) not in [(x["band"], x["spin"]) for x in st]:
            st.append({"band": b, "spin": sp})
    for k, x in enumerate(st):
        t += line(f"  MODOS state {k + 1:15d}") + line(f"  MODOS band  nr.{x['band']:12d}") + line(f"  MODOS band has spin{x['spin']:8d}")
    part = g.maybe(0.4)
    for what in ("pop", "file"):
        for x in g.sample(st, len(st)) if g.maybe(0.2) else st:
            if part and g.maybe(0.3):
                continue
            if what == "pop":
                p = f"{g.r.random():.6f}"
                x["pop"] = float(p)
                t += line(f"|DeltaSCF| Population of state:{x['band']:6d}{x['spin']:6d}   {p}")
            else:
                x["file"] = f"{stem}.modos_state_{x['band']}_{x['spin']}"
                t += line(" Writing file   ", x["file"])
    return Sec("delta_scf", t + "\n", ["DELTA_SCF"], put("delta_scf", {"file": f, "states": st}))


def berry(g, s):
    verbose = g.maybe()
    eq = line("=" * 85)
    mech = "berry-phase-reciprocal-tables-lost"
    full, got = {}, {}
    t = line("         ------------------------------------") + line("         Berry phase polarisation calculation") + line("         ------------------------------------")
    v = lambda n=3: [fl(g, 12, 6, hi=1) for _ in range(n)]
    pol = {}
    if verbose:
        t += eq + line("             Ionic contribution to polarisation (phase) [-1:1]") + eq
        t += line("ni nsp  Zion     frac_a1     frac_a2     frac_a3      pol_G1      pol_G2     pol_G3")
        ions = {}
        nsp = {x: k + 1 for k, x in enumerate(s.species)}
        for a in s.atoms:
            c, p = v(), v()
            ni = 1 + sum(1 for b in s.atoms if b[0] == a[0] and b[1] < a[1])
            t += line(f"{ni:3d}{nsp[a[0]]:2d}{g.r.uniform(1, 30):7.2f}", *c, *p)
            ions[nsp[a[0]], ni] = {"coords": vals(c), "polarisation": vals(p)}
        tot = v()
        t += line(" Total ionic polarisation (phase [-1:1])        ", *tot) + eq + "\n"
        full["ionic_contribution_to_polarisation"] = {"units": "phase", "total": vals(tot), "ions": ions}
        for head, key in (("             Polarisation (phase) [-1:1] in", "phase"), ("             Polarisation (e bohr)       in", "val"),
                          ("      Volume Polarisation (e /bohr^2)    in", None), ("      Volume Polarisation (C/m^2)        in", "vol")):
            t += eq + line(head, " Recip Lattice Basis (G_1, G_2, G_3)") + eq
            d = {}
            for lab in ("Electronic", "Ionic", "Total"):
                x = v()
                t += line(f"{lab} polarisation".ljust(24), *x)
                d[lab] = vals(x)
            t += eq + "\n"
            if key in ("phase", "val"):
                pol[key] = d
                if key == "val":
                    pol["units"] = "e bohr"
            elif key == "vol":
                full["volume_polarisation"] = {"units": "C/m^2", **d}
    t += eq + line(" Polarisation (C/m^2) in Recip Lattice Basis defined on range [-Quantum/2:Quantum/2]")
    t += line("              Direction                   Electronic   Ionic    Total    (Quantum)") + eq
    dirs = {}
    sign = g.choice([1, 1, 1, -1])
    for k in range(3):
        e = [float(i == k) * sign for i in range(3)]
        e = [Tok(f"{x + 0.0:8.4f}", x + 0.0) for x in e]
        x = [fl(g, 10, 4, hi=0) for _ in range(3)]
        q = fl(g, 10, 4, signed=False, hi=0)
        t += line(f" G_{k + 1}:  ({','.join(e)}   )  ", *x, f" ({q} )")
        dirs[tuple(vals(e))] = {"elec": x[0].v, "ionic": x[1].v, "total": x[2].v, "quantum": q.v, "units": "C/m^2"}
    t += eq + "\n"
    for unit in ("e/bohr^2", "C/m^2"):
        t += eq
        for lab in ("Ionic", "Elec ", "Total"):
            x = v()
            t += line(f" {lab} Polarisation (Cartesian Basis):", *x, f" ({unit})")
            full[lab.strip().lower()] = {"units": unit, "val": vals(x)}
        t += eq + "\n"
    full["polarisation"] = {**pol, **dirs}
    got = {**full, "polarisation": dirs}

    def eff(run, filters, wrong):
        run.setdefault("berry_phase", {}).update(got if mech in wrong else full)
    return Sec("berry_phase", t, ["POLARISATION"], eff, [mech] if verbose else [])


ANALYSIS = [phonons, phonon_symmetry, dynamical_matrix, raman, permittivity, polarisability, nlo, thermodynamics, displacements, mulliken, born,
            orbitals, bonds, hirshfeld, elf, magres, elastic_matrix, elastic_contribution, elastic_properties, band_structure, dipole, tddft,
            delta_scf, berry]
