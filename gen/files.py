"""Writers for the smaller text formats: text plus the data it states."""
from __future__ import annotations

from .base import G, Tok, vals


def cell_rows(g: G, width=12, dec=6):
    rows = [[g.f(width, dec, -1, 1) for _ in range(3)] for _ in range(3)]
    return ["".join(r) for r in rows], [vals(r) for r in rows]


def count_line(indent, label, *vs, width=10):
    return f"{indent}Number of {label} " + "".join(f"{v:>{width}}" for v in vs)


def frac_block(g: G, atoms):
    lines, exp = [], {k: [] for k in ("index", "u", "v", "w", "spec", "mass")}
    mass = {s: g.f(12, 6, 0, 1, signed=False, zero=0) for s, _ in atoms}
    for i, (s, _) in enumerate(atoms, 1):
        p = g.vec(3, width=12, dec=6, lo=-2, hi=-1)
        lines.append(f"{i:6d}" + " " + "".join(p) + f"   {s:<4s}" + "  " + mass[s])
        exp["index"].append(i)
        for k, t in zip("uvw", p):
            exp[k].append(t.v)
        exp["spec"].append(s)
        exp["mass"].append(mass[s].v)
    return lines, exp


def phonon(g: G, nmax_atoms=4, nq=None, atoms=None, nb=None):
    atoms = atoms or g.atoms(nmax_atoms)
    ni = len(atoms)
    nb = nb or 3 * ni
    nq = nq if nq is not None else g.many(1, 2, 3, 4, 11)
    ir, raman = g.maybe(0.6), g.maybe(0.4)
    cl, ce = cell_rows(g)
    fl, fe = frac_block(g, atoms)
    L = [" BEGIN header", f" Number of ions         {ni}", f" Number of branches     {nb}",
         f" Number of wavevectors  {nq}", " Frequencies in         cm-1",
         " IR intensities in      (D/A)**2/amu", " Raman activities in    A**4 amu**(-1)",
         " Unit cell vectors (A)", *cl, " Fractional Co-ordinates", *fl, " END header"]
    exp = {"ions": ni, "branches": nb, "wavevectors": nq, "unit_cell": ce, "coords": fe, "qpts": []}
    for q in range(1, nq + 1):
        k = g.vec(3, width=10, dec=6, lo=-2, hi=-1)
        w = g.f(16, 10, -3, -1, signed=False)
        cur = {"qpt": vals(k), "weight": w.v}
        line = f"     q-pt={q:5d}  " + "".join(k) + "  " + w
        if g.maybe(0.3):
            d = g.vec(3, width=10, dec=6, lo=-2, hi=-1)
            line += "  " + "".join(d)
            cur["dir"] = vals(d)
        L.append(line)
        for m in range(1, nb + 1):
            f = g.f(15, 6, -2, 3)
            line = f"{m:8d}{f}"
            cur.setdefault("eigenvalues", []).append(f.v)
            if ir:
                t = g.f(15, 7, -3, 2, signed=False)
                line += " " * 8 + t
                cur.setdefault("ir_intensity", []).append(t.v)
            else:
                line += " " * 23
            if raman:
                t = g.f(15, 7, -3, 2, signed=False)
                line += " " * 9 + t
                cur.setdefault("raman_intensity", []).append(t.v)
            else:
                line += " " * 24
            L.append(line)
        L.append("                        Phonon Eigenvectors")
        L.append("Mode Ion                X                                   Y                                   Z")
        ev = []
        for m in range(1, nb + 1):
            for i in range(1, ni + 1):
                t = g.vec(6, width=16, dec=12, lo=-3, hi=-1)
                L.append(f"{m:4d}{i:4d}{t[0]}{t[1]}    {t[2]}{t[3]}    {t[4]}{t[5]}")
                v = vals(t)
                ev.append([complex(v[j], v[j + 1]) for j in (0, 2, 4)])
        cur["eigenvectors"] = ev
        exp["qpts"].append(cur)
    return "\n".join(L) + "\n", exp


def phonon_dos(g: G, nmax_atoms=4):
    atoms = g.atoms(nmax_atoms)
    ni, nb = len(atoms), 3 * len(atoms)
    spec = list(dict.fromkeys(s for s, _ in atoms))
    cl, ce = cell_rows(g)
    fl, fe = frac_block(g, atoms)
    nbins = g.many(2, 3, 5, 9, 12)
    L = [" BEGIN header", f"  Number of ions         {ni:8d}", f"  Number of species      {len(spec):8d}",
         f"  Number of branches     {nb:8d}", f"  Number of bins in DOS  {nbins:8d}",
         " Unit cell vectors (A)", *cl, " Fractional Co-ordinates", *fl, " END header"]
    exp = {"ions": ni, "species": len(spec), "branches": nb, "bins in DOS": nbins,
           "unit_cell": ce, "coords": fe}
    if g.maybe(0.7):
        L.append(" BEGIN GRADIENTS   n   f   |Grad_q f|")
        exp["gradients"] = []
        for q in range(1, g.many(1, 2, 3, 4, 11) + 1):
            if exp["gradients"] and g.maybe(0.1):      # The same point again
                L += [f"     q-pt={q:5d}  " + "".join(k) + w, *L[-nb:]]
                exp["gradients"].append(cur)
                continue
            k = g.vec(3, width=10, dec=6, lo=-2, hi=-1)
            w = g.f(18, 10, -3, -1, signed=False)
            L.append(f"     q-pt={q:5d}  " + "".join(k) + w)
            cur = {"qpt": vals(k), "pth": [w.v], "n": [], "f": [], "Grad_qf": []}
            for m in range(1, nb + 1):
                f, d = g.f(15, 6, -2, 3), g.f(23, 7, -3, 3, signed=False)
                L.append(f"{m:8d}{f}{d}")
                cur["n"].append(m)
                cur["f"].append(f.v)
                cur["Grad_qf"].append(d.v)
            exp["gradients"].append(cur)
        L.append(" END GRADIENTS")
    L.append(" BEGIN DOS   Freq (cm-1)  g(f)   " + "   ".join(spec))
    dos = {k: [] for k in ("freq", "g", *spec)}
    for b in range(nbins):
        row = [g.f(8, 1, -1, 2)] + [g.f(11, 6, -3, 1, signed=False) for _ in range(1 + len(spec))]
        L.append("".join(row))
        for k, t in zip(dos, row):
            dos[k].append(t.v)
    L.append("  END DOS")
    exp["dos"] = [dos]
    return "\n".join(L) + "\n", exp


def bands(g: G, nk=None):
    nk = nk or g.many(1, 2, 3, 5, 11)
    spins = g.choice([1, 1, 2])
    nb = [g.many(1, 2, 3, 5, 8, 12) for _ in range(spins)]
    cl, ce = cell_rows(g)
    ne = []
    for _ in range(spins):
        v = g.ri(1, 400) if not ne or g.maybe(0.9) else 0
        ne.append((f"{v:5d}", v) if g.maybe(0.4) else
                  ((f"{v:6d}.00", v) if g.maybe(0.7) else (f"{v:6d}.50", v + 0.5)))
    fe = [g.f(12, 6, -2, 0) for _ in range(spins)]
    L = [f"Number of k-points {nk:4d}", f"Number of spin components {spins}",
         "Number of electrons " + " ".join(t for t, _ in ne),
         "Number of eigenvalues " + "".join(f"{n:5d}" for n in nb),
         ("Fermi energy" if spins == 1 else "Fermi energies") + " (in atomic units) " + "".join(fe),
         "Unit cell vectors", *cl]
    exp = {"k-points": nk, "spin components": spins,
           "electrons": ne[0][1] if spins == 1 else [v for _, v in ne],
           "eigenvalues": nb[0] if spins == 1 else nb,
           ("Fermi energy" if spins == 1 else "Fermi energies"): vals(fe),
           "unit_cell": ce, "coords": {}, "bands": []}
    order = list(range(1, nk + 1))
    if g.maybe(0.3):
        g.r.shuffle(order)          # k-points are written in the order they were done
    for k in order:
        if exp["bands"] and g.maybe(0.1):       # The same point again, with the same energies
            L += [f"K-point {k:5d}" + "".join(q) + w, *L[start + 1:]]
            start = len(L) - (len(L) - start) // 2
            exp["bands"].append(cur)
            continue
        start = len(L)
        q = g.vec(3, width=12, dec=8, lo=-2, hi=-1)
        w = g.f(12, 8, -3, -1, signed=False)
        L.append(f"K-point {k:5d}" + "".join(q) + w)
        cur = {"qpt": vals(q), "weight": w.v, "spin_comp": spins == 2}
        for s in range(spins):
            L.append(f"Spin component {s + 1}")
            ev = [g.f(14, 8, -3, 1) for _ in range(nb[s])]
            if g.maybe(0.1):
                ev[g.ri(0, nb[s] - 1)] = Tok(f"{'-0.00000000':>14s}", -0.0)
            L.extend(ev)
            cur["band" if spins == 1 else ("band_up", "band_down")[s]] = vals(ev)
        exp["bands"].append(cur)
    return "\n".join(L) + "\n", exp


def tddft(g: G):
    atoms = g.atoms(5)
    cl, ce = cell_rows(g)
    occ = [g.many(g.ri(1, 400), big=(999, 1000, 1001, 1536, 12000), p=0.05) for _ in range(g.choice([1, 2]))]
    L = ["BEGIN header", " CASTEP generated TDDFT output"]
    L += [f" Highest occupied band for spin channel {s}  {n:9d}" for s, n in enumerate(occ, 1)]
    L += [" Energies in eV", " Unit cell vectors (A)", *cl, " Fractional Co-ordinates"]
    exp = {"unit_cell": ce, "coords": {}}
    for s, k in atoms:
        p = g.vec(3, width=13, dec=6, lo=-2, hi=-1)
        L.append(f" {s:<4s}{k:7d}" + "".join(p))
        exp["coords"][s, k] = vals(p)
    L.append("END header")
    n = g.many(1, 2, 3, 6, 11)
    if g.maybe(0.85):
        L += ["BEGIN Characterisation of states as Kohn-Sham bands",
              " State      Occ.         Unocc.        Overlap"]
        exp["overlap"] = []
        first = g.choice([1, 1, 1, 2, 5, 99])
        for s in range(first, first + n):
            cur = {}
            pairs = g.sample([(a, b) for a in range(1, 8) for b in range(8, 14)], g.ri(1, 6))
            if g.maybe(0.2):
                pairs = [(a + 1990, b + 2200) for a, b in pairs]
            if g.maybe(0.07):
                pairs = []              # Nothing above the threshold
            for a, b in pairs:
                o = g.f(15, 6, -3, -1, signed=False)
                L.append(f"{s:10d}{a:10d} -->{b:11d}{o}")
                cur[a, b] = o.v
            t = g.f(8, 6, -1, -1, signed=False)
            L.append(f" Total overlap for state{s:5d} = {t}")
            cur["total"] = t.v
            exp["overlap"].append(cur)
        L.append("END Characterisation of states as Kohn-Sham bands")
    if g.maybe(0.85):
        L += ["BEGIN TDDFT Spectroscopic Data",
              " State   Excitation Energy         Characterisation   Converged  Transition Dipoles (x,y,z)"]
        exp["spectroscopic_data"] = []
        first = g.choice([1, 1, 1, 2, 5, 99])
        for s in range(first, first + n):
            e = g.e(26, 16, 0, 1, signed=g.maybe(0.1), zero=0)
            ch, cv = g.choice(["Singlet", "Triplet", "unknown"]), g.maybe()
            d = g.evec(6, width=25, dec=16)
            L.append(f"{s:10d}{e}       {ch:<18s}{'Yes' if cv else 'No ':<3s}     " +
                     "   ".join(f"({d[j]}{d[j+1]})" for j in (0, 2, 4)))
            v = vals(d)
            exp["spectroscopic_data"].append(
                {"energy": e.v, "characterisation": ch, "converged": cv,
                 "dipoles": [complex(v[j], v[j + 1]) for j in (0, 2, 4)]})
        L.append("END TDDFT Spectroscopic Data")
    return "\n".join(L) + "\n", exp, occ


def epme(g: G):
    nb, nbr = g.many(1, 2, 3, big=(12,)), g.many(1, 2, 3, 6, big=(102,), p=0.01)
    vol, fe = g.f(22, 14, 1, 2, signed=False, zero=0), g.e(26, 16, -3, 0)
    ver = g.ri(1, 3)
    L = [" Electron-phonon coupling file", f" Version{ver:12d}", " All units are atomic units",
         f" Unit cell volume{vol}     ", f" Fermi Energy{fe}", f" Number of bands:{nb:12d}",
         f" Number of phonon branches:{nbr:12d}"]
    exp = {"version": ver, "volume": vol.v, "fermi_energy": fe.v, "n_bands": nb, "n_branches": nbr, "data": []}
    shifted = []                      # what the column off-by-one of known_findings.txt yields
    for _ in range(g.many(1, 2, 3, big=(11,))):
        a, b = g.vec(3, width=12, dec=6, lo=-2, hi=-1), g.vec(3, width=12, dec=6, lo=-2, hi=-1)
        L.append("Electron-Phonon coupling matrix elements between kpoints (" + "".join(a) +
                 ") and (" + "".join(b) + ")")
        L.append("Ph index  Band_i  Band_f      ph_freq         E_i         E_f          velocity for band 1"
                 "                 velocity for band 2                EP Matrix Element")
        for p in range(1, nbr + 1):
            for i in range(1, nb + 1):
                for f in range(1, nb + 1):
                    t = g.vec(11, width=12, dec=6, lo=-3, hi=0)
                    L.append(f"{p:8d}{i:8d}{f:8d} " + "".join(t[:3]) + " " + "".join(t[3:9]) + " " + "".join(t[9:]))
                    v = vals(t)
                    base = {"kpt_i": vals(a), "kpt_f": vals(b), "ph_index": p, "band_i": i, "band_f": f}
                    exp["data"].append({**base, "ph_freq": v[0], "e_i": v[1], "e_f": v[2],
                                        "velocity": [v[3:6], v[6:9]], "e_p_matrix": complex(v[9], v[10])})
                    shifted.append({**base, "e_i": v[0], "e_f": v[1],
                                    "velocity": [v[2:5], v[5:8]], "e_p_matrix": complex(v[8], v[9])})
    return "\n".join(L) + "\n", exp, shifted


VOIGT = ("xx", "yy", "zz", "yz", "xz", "xy")


def efield(g: G):
    atoms = g.atoms(3)
    ni, nb = len(atoms), 3 * len(atoms)
    cl, ce = cell_rows(g)
    fl, fe = frac_block(g, atoms)
    nf, q = g.many(2, 3, 5, 9, 10, 12), g.f(10, 1, 0, 1, signed=False, zero=0)
    L = [" BEGIN header", f"  Number of ions         {ni:8d}", f"  Number of branches     {nb:8d}",
         f"  Number of frequencies  {nf:8d}", f"  Oscillator Q         {q}", " Unit cell vectors (A)", *cl,
         " Fractional Co-ordinates", *fl, " END header"]
    exp = {"ions": ni, "branches": nb, "frequencies": nf, "Oscillator Q": [q.v], "unit_cell": ce, "coords": fe}
    known = {}
    # The sections are lists in the result: one entry per section in the file.
    for _ in range(g.choice([0, 1, 1, 1, 1, 1, 2])):
        L.append(" BEGIN Oscillator Strengths   Freq (cm-1)   S xx yy zz yz zx xy ((D/A)**2/amu)")
        tab = {k: [] for k in ("freq", *VOIGT)}
        kt = {k: [] for k in ("freq", *VOIGT)}
        for m in range(1, nb + 1):
            f, t = g.f(16, 6, -2, 3), g.vec(6, width=15, dec=6)
            L.append(f"{m:9d}{f}     " + "".join(t))
            for k, v in zip(tab, [f, *t]):
                tab[k].append(v.v)
            for k, v in zip(kt, [float(m), f.v, *vals(t)]):
                kt[k].append(v)
        L.append(" END Oscillator Strengths")
        exp.setdefault("oscillator_strengths", []).append(tab)
        known.setdefault("oscillator_strengths", []).append({k: v[:-1] for k, v in kt.items()})
    for _ in range(g.choice([0, 1, 1, 1, 1, 1, 2])):
        L.append(" BEGIN permittivity   Freq (cm-1)    e_r  xx yy zz yz zx xy")
        tab = {k: [] for k in ("freq", *VOIGT)}
        for _ in range(nf):
            t = [g.f(22, 6, 0, 3, signed=False), g.f(20, 6), *g.vec(5, width=15, dec=6)]
            L.append("".join(t))
            for k, v in zip(tab, t):
                tab[k].append(v.v)
        L.append(" END permittivity")
        exp.setdefault("permittivity", []).append(tab)
        known.setdefault("permittivity", []).append({k: v[:-1] for k, v in tab.items()})
    return "\n".join(L) + "\n", exp, known


def _g16(g: G):
    """Fortran G22.16 style: fixed, or .ddddE-xx without a leading zero."""
    from .base import Tok
    if g.maybe(0.06) or g.few and g.maybe(0.5):
        return Tok("   0.000000000000000    ", 0.0)
    if g.maybe(0.6):
        v = g.r.uniform(1, 999) * g.choice([1, -1])
        ip = len(str(int(abs(v))))
        t = f"{v:.{16 - ip}f}"
        return Tok(f"{t:>20s}    ", float(t))
    m, e = f"{g.r.uniform(1, 10):.15E}".split("E")
    digits = m.replace(".", "")
    x = g.ri(-30, -2)
    neg = g.maybe()
    t = ("-." if neg else "0.") + digits + f"E{x:+03d}"
    return Tok(f"{t:>24s}", float(t))


ELASTIC = (("Elastic Constants ", "GPa", 6), ("Compliance Matrix ", "GPa^-1", 6),
           ("Elastic Constants [Frozen Ion]", "GPa", 6), ("Relaxed Ion Contribution", "GPa", 6),
           ("Internal Strain", "eV/A", 0), ("Piezoelectric", "C/m^2", 3),
           ("Piezoelectric [Frozen Ion]", "C/m^2", 3),
           ("Relaxed Ion Piezoelectric Contribution", "C/m^2", 3))
ELASTIC_KEYS = ("elastic_constants", "compliance_matrix", "elastic_constants_frozen_ion",
                "relaxed_ion_contribution", "internal_strain", "piezoelectric", "piezoelectric_frozen_ion",
                "relaxed_ion_piezoelectric_contribution")


def elastic(g: G):
    atoms = g.atoms(4)
    cl, ce = cell_rows(g, 24, 15)
    fl, fe = frac_block(g, atoms)
    L = [" BEGIN header", f"  Number of ions         {len(atoms):8d}", " Unit cell vectors (A)", *cl,
         " Fractional Co-ordinates", *fl, " END header"]
    exp = {"ions": len(atoms), "unit_cell": ce, "coords": fe}
    known = {}
    for (name, unit, rows), key in zip(ELASTIC, ELASTIC_KEYS):
        if g.maybe(0.15):
            continue
        L.append(f" BEGIN {name} ({unit})")
        if rows:
            m = []
            for _ in range(rows):
                if not m or not g.maybe(0.1):
                    t = [_g16(g) for _ in range(6)]
                L.append("  " + "".join(t))
                m.append(vals(t))
            exp[key] = known[key] = {"units": unit, "val": m}
        else:
            cur, kn, t = {"units": unit}, {"units": unit}, None
            for i, (s, _) in enumerate(atoms, 1):
                for d in "XYZ":
                    if not t or not g.maybe(0.15):      # Else as the row before
                        t = [_g16(g) for _ in range(6)]
                    L.append(f"{i:6d}   {s:<4s}    {d}  " + "".join(t))
                    cur.setdefault((s, i), []).append(vals(t))
                    kn.setdefault((s, i), []).append([float(i), *vals(t)])
            exp[key], known[key] = cur, kn
        L.append(f" END {name}")
    return "\n".join(L) + "\n", exp, {**exp, **known}


XRD = ("F_PAW", "F_IAM", "F_PP", "F_core", "F_soft", "F_aug")


def xrd_sf(g: G):
    cols = [c for c in XRD if g.maybe(0.85)] or ["F_PAW"]
    L = ["   h   k   l" + "".join(f"{'Re(' + c + ')':>12s}{'Im(' + c + ')':>12s}" for c in cols)]
    exp = {c.lower(): [] for c in cols}
    exp["qvec"] = []
    for _ in range(g.many(1, 2, 5, 9, 12)):
        h = [g.ri(-99, 99) for _ in range(3)]
        t = g.vec(2 * len(cols), width=12, dec=6)
        L.append("".join(f"{x:4d}" for x in h) + "".join(t))
        exp["qvec"].append(h)
        v = vals(t)
        for i, c in enumerate(cols):
            exp[c.lower()].append(complex(v[2 * i], v[2 * i + 1]))
    return "\n".join(L) + "\n", exp


def hug(g: G):
    exp = {k: [] for k in ("compression", "temperature", "pressure", "energy")}
    L = []
    for _ in range(g.many(1, 2, 5, 9, 12)):
        t = [g.f(16, 12, -1, 0, signed=False), g.f(18, 8, 0, 3, signed=False), g.f(18, 8, -2, 3), g.f(18, 8, -2, 3)]
        L.append("".join(t) + "  <-- cTPE")
        for k, v in zip(exp, t):
            exp[k].append(v.v)
    return "\n".join(L) + "\n", exp


def err(g: G):
    msg = [g.words(g.ri(1, 6)) for _ in range(g.many(1, 2, 3, 4, big=(41, 90)))]
    if g.maybe(0.3):
        msg.insert(g.ri(0, len(msg)), "")
    text = [m.replace(" ", "\t") if g.maybe(0.1) else m for m in msg]
    stack = ["_".join(g.sample("electronic basis pspot cell nlpot wave calc find check".split(), g.ri(1, 4)))
             for _ in range(g.many(*range(10), big=(41, 120)))]
    lines = [*text, "Current trace stack:", *[" " + s for s in stack]]
    return "\n".join(lines) + "\n", {"message": "\n".join(text).strip(), "stack": stack}


MAGRES_ALIAS = {"ms": "magnetic_resonance_shielding", "efg": "electric_field_gradient",
                "efg_local": "local_electric_field_gradient", "efg_nonlocal": "nonlocal_electric_field_gradient",
                "isc_fc": "j_coupling_fc", "isc_orbital_p": "j_coupling_orbital_p",
                "isc_orbital_d": "j_coupling_orbital_d", "isc_spin": "j_coupling_spin",
                "isc": "j_coupling_k_total"}


def magres(g: G):
    """(text, exp, known): known = magres_old with only the last atom's total shielding."""
    species = g.species()
    counts = {s: g.many(1, 1, 2, 2, 3, 3, big=(10, 12)) for s in species}
    big = g.maybe(0.3)                       # indices wide enough to be glued to the species
    major = g.choice([19, 20, 21, 22, 23, 24])
    iw = 3 if major < 22 else 5
    atoms = []
    for s in species:
        start = 1
        if big and g.maybe():
            start = g.ri(10 ** (iw - 1), 10 ** iw - 5)
        atoms += [(s, start + k) for k in range(counts[s])]
    calc = {"code": "CASTEP", "code_version": f"{major}.{g.ri(0, 3)}",
            "code_hgversion": f"{g.ri(10**8, 10**9)}+  " + g.words(2), "code_platform": "linux_x86_64",
            "name": g.word(), "comment": g.choice(["", g.words(3)]), "xcfunctional": g.choice(["PBE", "LDA"]),
            "cutoffenergy": f"{g.f(12, 8, 1, 2, signed=False, zero=0).strip()} eV",
            "kpoint_mp_grid": " ".join(str(g.ri(1, 9)) for _ in range(3)),
            "kpoint_mp_offset": "      ".join(t.strip() for t in g.vec(3, width=10, dec=8, lo=-2, hi=-1))}
    L = ["#$magres-abinitio-v1.0", "# See http://www.ccpnc.ac.uk/pmwiki.php/CCPNC/Fileformat for format definition",
         "[calculation]", *[f"calc_{k} {v}".rstrip() for k, v in calc.items()], "[/calculation]", "[atoms]",
         "units lattice Angstrom"]
    exp = {"calc": {k: v for k, v in calc.items() if v}}
    lat = g.evec(9, width=26, dec=16)
    L.append("lattice" + "".join(lat))
    L += ["units atom Angstrom", "symmetry x,y,z"]
    coords = {}
    for s, i in atoms:
        p = g.evec(3, width=26, dec=16)
        L.append(f"atom {s:<7s} {s:<3s} {i}" + "".join(p))
        coords[s, i] = vals(p)
    L.append("[/atoms]")
    exp["atoms"] = {"units": {"lattice": "Angstrom", "atom": "Angstrom"}, "lattice": vals(lat), "coords": coords}
    L.append("[magres]")
    mag = {}
    tens = [k for k in ("ms", "efg", "efg_local", "efg_nonlocal") if g.maybe(0.6)] or ["ms"]
    pairs = [k for k in ("isc", "isc_fc", "isc_orbital_p", "isc_orbital_d", "isc_spin") if g.maybe(0.3)]
    units = {"ms": "ppm", "efg": "au", "isc": "10^19.T^2.J^-1"}
    for k in ("ms", "efg", "isc"):
        if any(t.startswith(k) for t in tens + pairs):
            L.append(f"units {k} {units[k]}")
            mag.setdefault("units", {})[k] = units[k]
    for k in tens:
        mag[k] = {}
        for s, i in atoms:
            t = g.evec(9, width=26, dec=16)
            glued = len(str(i)) == iw
            L.append(f"{k} {s}{i}" + "".join(t) if glued else f"{k} {s} {i:4d}" + "".join(t))
            mag[k][s, i] = vals(t)
    for k in pairs:
        mag[k] = {}
        for a in g.sample(atoms, min(len(atoms), 2)):
            for b in atoms:
                t = g.evec(9, width=26, dec=16)
                L.append(f"{k} {a[0]} {a[1]:4d} {b[0]} {b[1]:4d}" + "".join(t))
                mag[k][a, b] = vals(t)
    for k, a in MAGRES_ALIAS.items():
        if k in mag:
            mag[a] = mag[k]
    exp["magres"] = mag
    L.append("[/magres]")
    known = None
    if g.maybe(0.7):
        L.append("[magres_old]")
        info, tot = {}, {}
        for s, i in atoms:
            at = f"{s:<3s}{i:7d}"
            L += ["============", f"Atom: {at}", "============"]
            p = g.vec(3, width=9, dec=3)
            L += [f"{at} Coordinates " + "".join(p) + "   A", "", "TOTAL Shielding Tensor", ""]
            m = [g.vec(3, width=12, dec=4) for _ in range(3)]
            L += ["          " + "".join(r) for r in m] + [""]
            tot[s, i] = [vals(r) for r in m]
            cur = {"coords": coords[s, i], "eigvenvalue": [], "eigvenvector": []}
            for ax in ("xx", "yy", "zz"):
                e, v = g.f(12, 4), g.vec(3, width=12, dec=4, lo=-2, hi=-1)
                L += [f"{at} Eigenvalue  sigma_{ax} {e} (ppm)", f"{at} Eigenvector sigma_{ax} " + "".join(v)]
                cur["eigvenvalue"].append(e.v)
                cur["eigvenvector"].append(vals(v))
            a, b, c = g.vec(3, width=12, dec=4)
            L += ["", f"{at} Isotropic:  {a} (ppm)", f"{at} Anisotropy: {b} (ppm)", f"{at} Asymmetry:  {c}", ""]
            cur.update(isotropic=a.v, anisotropy=b.v, asymmetry=c.v)
            info[s, i] = cur
        L.append("[/magres_old]")
        exp["atom_info"] = info
        exp["total_shielding"] = tot
        known = {**exp, "total_shielding": list(tot.values())[-1]}
    return "\n".join(L) + "\n", exp, known


FMT = {"elf_fmt": ["chi_alpha", "chi_beta"], "chdiff_fmt": ["charge"], "pot_fmt": ["pot"], "den_fmt": ["charge"]}


def fmt(g: G, kind):
    """Formatted grids; one, two or four columns."""
    cols = {"elf_fmt": [["chi"], ["chi_alpha", "chi_beta"]],
            "chdiff_fmt": [["charge"], ["charge", "spin"], ["charge", "spin_x", "spin_y", "spin_z"]],
            "den_fmt": [["charge"], ["charge", "spin"], ["charge", "spin_x", "spin_y", "spin_z"]],
            "pot_fmt": [["pot"], ["pot_up", "pot_down"]]}[kind]
    cols = g.choice(cols)
    n = [g.ri(1, 5) for _ in range(3)]
    if g.maybe(0.02):
        n[g.ri(0, 2)] = g.choice([12, 108])
    cell = [g.vec(3, width=14, dec=7) for _ in range(3)]
    ab = [(g.f(12, 6, 0, 1, signed=False, zero=0), g.f(12, 6, 1, 1, signed=False, zero=0)) for _ in range(3)]
    L = [" BEGIN header", "  ", "           Real Lattice(A)               Lattice parameters(A)    Cell Angles"]
    for r, (a, b), x, y in zip(cell, ab, "abc", ("alpha", "beta ", "gamma")):
        L.append("".join(r) + f"     {x} ={a}  {y} ={b}")
    units = {"pot_fmt": " in units of Hartrees", "elf_fmt": ""}.get(
        kind, " in units of electrons/grid_point * number of grid_points")
    L += ["  ", f"{g.choice([1, 2]):4d}                            ! nspins",
          "".join(f"{x:6d}" for x in n) + "                ! fine FFT grid along <a,b,c>",
          f" END header: data is \"<a b c> {' '.join(cols)}\"{units}", "  "]
    exp = {"q": [], **{c: [] for c in cols}}
    order = [(a, b, c) for c in range(1, n[2] + 1) for b in range(1, n[1] + 1) for a in range(1, n[0] + 1)]
    big, spaced = g.maybe(0.2), g.maybe(0.1)
    for q in order:
        if big:
            q = (q[0] + 195, q[1], q[2])
        t = g.vec(len(cols), width=20, dec=6)
        if g.maybe(0.05):
            t = g.evec(len(cols), width=20, dec=6)
        if spaced and g.maybe(0.2):
            L.append(g.choice(["", "  "]))
        L.append("".join(f"{x:6d}" for x in q) + "".join(t))
        exp["q"].append(q)
        for c, v in zip(cols, t):
            exp[c].append(v.v)
    return "\n".join(L) + "\n", exp
