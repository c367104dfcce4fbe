"""Writer for .cell / .param files: a list of (name, lines-with-freedom, expected value).

An item renders itself with random letter case, spacing and separators; the values it
states are known from the tokens that were printed, never from the package under test.
"""
from __future__ import annotations

from fractions import Fraction

from .base import Tok

PARAM_TEXT = ["singlepoint", "GeometryOptimisation", "PBE", "rscan", "density", "default", "LBFGS",
              "collinear", "reciprocal", "all", "none", "Phonon+Efield", "ultrasoft", "linear-response"]
UNITS = ["eV", "Ha", "Ry", "K", "GPa", "ang", "bohr", "1/ang", "ps", "fs", "eV/ang", "kB", "THz", "cm-1", "eV/ang**3"]
INT_KEYS = ["max_scf_cycles", "nextra_bands", "geom_max_iter", "md_num_iter", "iprint", "num_backup_iter", "bs_nextra_bands"]
REAL_KEYS = ["grid_scale", "mix_spin_amp", "mix_metric_q", "charge", "spin", "sedc_s6_g06", "sedc_d_g06", "sedc_s6_d4",
             "fine_grid_scale", "sedc_lambda_xdm"]
UNIT_KEYS = ["cut_off_energy", "elec_energy_tol", "smearing_width", "geom_modulus_est", "md_temperature",
             "md_delta_t", "geom_force_tol", "kpoint_mp_spacing", "phonon_kpoint_mp_spacing", "sedc_r0_xdm2"]
BOOL_KEYS = ["write_bib", "fix_occupancy", "calculate_stress", "popn_calculate", "symmetry_generate_x",
             "fix_all_cell", "fix_com", "snap_to_symmetry", "write_cif"]
TEXT_KEYS = ["task", "xc_functional", "opt_strategy", "metals_method", "page_wvfns_mode", "spin_treatment",
             "write_checkpoint", "phonon_method", "sedc_scheme"]
PATH_KEYS = ["continuation", "reuse", "nlxc_file", "checkpoint_2"]
VEC_KEYS = ["kpoint_mp_grid", "supercell_kpoint_mp_grid", "kpoint_mp_offset", "phonon_kpoint_mp_offset",
            "spectral_kpoint_mp_grid", "ngx_2"]
SPECIES = ["H", "C", "N", "O", "Si", "Ti", "Fe", "Mn", "Ni", "Al", "Sm", "U"]
LABELS = ["exi", "1", "up", "tag", "Fe2", "x_1"]
ORB = "spdf"


def num(g, kind=None):
    """A number as people write it, with its value and python type."""
    k = kind or g.choice(["int", "real", "real", "exp", "lead", "trail"])
    if k == "int":
        t = g.choice(["", "", "", "+"]) + str(g.ri(0, 400)) if g.maybe(0.9) else str(g.ri(-40, -1))
        return Tok(t, int(t))
    if k == "uint":
        t = str(g.ri(0, 400))
        return Tok(t, int(t))
    if k == "real":
        t = f"{g.mag(-2, 2):.{g.ri(1, 10)}f}"
    elif k == "exp":
        mant = g.choice([f"{g.mag(0, 0):.{g.ri(1, 6)}f}", str(g.ri(1, 9)), f"{g.ri(1, 9)}.", f".{g.ri(1, 999)}"])
        t = f"{mant}{g.choice('eE')}{g.choice(['', '-', '+'])}{g.ri(0, 12)}"
    elif k == "lead":
        t = f"{g.choice(['', '-', '+'])}.{g.ri(1, 9999)}"
    elif k == "trail":
        t = f"{g.choice(['', '-', '+'])}{g.ri(1, 999)}."
    elif k == "rat":
        a, b = g.ri(-9, 9), g.ri(1, 12)
        t = f"{a}/{b}"
        return Tok(t, float(Fraction(a, b)) if a else 0.0)
    v = float(t)
    return Tok(t, 0.0 if v == 0 else v)


def recase(g, text):
    return g.choice([text, text.upper(), text.capitalize(), "".join(g.choice([c, c.upper()]) for c in text)])


def ws(g, lo=1, hi=4):
    return "".join(g.choice("    \t") for _ in range(g.ri(lo, hi)))


def row(g, toks, indent=True):
    return (ws(g, 0, 5) if indent else "") + "".join((ws(g) if i else "") + str(t) for i, t in enumerate(toks))


def spec(g, labels=0.2, sp=None):
    s = sp or g.choice(SPECIES)
    return s + (":" + g.choice(LABELS) if g.maybe(labels) else "")


def distinct_specs(g, n):
    out = []
    while len(out) < n:
        s = spec(g, 0.3)
        if s not in out:
            out.append(s)
    return out


# ---- keyword items: each returns (name, (value tokens text), expected) -----------------
def keyword_item(g, name, kind):
    if kind == "int":
        t = num(g, "int")
        return [t], t.v
    if kind == "real":
        t = num(g, g.choice(["real", "exp", "lead", "trail", "rat"]))
        return [t], t.v
    if kind == "unit":
        t, u = num(g), g.choice(UNITS)
        return [t, u], (t.v, u)
    if kind == "bool":
        t = g.choice(["true", "false", "T", "F", "TRUE", "FALSE", "True", "False", "t", "f"])
        return [t], t.lower() in ("t", "true")
    if kind == "text":
        return [w := g.choice(PARAM_TEXT)], w
    if kind == "words":
        w = [g.choice(["very", "long", "title", "of", "3", "(calc)", "+U", "a/b"]) for _ in range(g.ri(2, 6))]
        w[-1] = "run"          # the text is not just numbers and a unit
        w[0] = g.choice(["3", "first", "my"]) if len(w) > 2 and w[1] not in "3" else "my"
        if w[0] == "3" and len(w) == 2:
            w[0] = "my"
        return ["\x00" + " ".join(w)], " ".join(w)
    if kind == "path":
        w = g.choice(["../run.check", "./x-1.check", "default", "12.check", "-tmp/a.b", "/abs/dir/seed.check", "+x", ".hidden"])
        return [w], w
    if kind == "vec":
        n = g.choice([2, 3, 3, 3, 4])
        sub = g.choice(["int", "real", "rat", "mix"])
        toks = [num(g, {"int": "int", "real": "real", "rat": "rat"}.get(sub) or g.choice(["int", "real", "rat", "exp"]))
                for _ in range(n)]
        allint = all(isinstance(t.v, int) for t in toks)
        val = tuple(t.v if allint else float(t.v) for t in toks)
        if g.maybe(0.3):
            u = g.choice(UNITS)
            return [*toks, u], (val, u)
        return toks, val
    raise KeyError(kind)


def rows_of(g, most):
    """A number of rows: rarely that of a big cell."""
    return g.many(*range(1, most + 1), big=(41, 64, 101, 150, 270), p=0.015)


def index(g):
    """Of an atom within its species."""
    return g.many(*range(1, 15), big=(99, 100, 216, 1000, 12345), p=0.04)


def keywords(g, n):
    pools = {"int": INT_KEYS, "real": REAL_KEYS, "unit": UNIT_KEYS, "bool": BOOL_KEYS, "text": TEXT_KEYS,
             "path": PATH_KEYS, "vec": VEC_KEYS, "words": ["comment", "title"]}
    out = {}
    for _ in range(n):
        k = g.choice(list(pools))
        name = g.choice(pools[k])
        if name not in out:
            out[name] = ("kw", *keyword_item(g, name, k))
    return out


# ---- block items: (rows of tokens, expected) -------------------------------------------
def general(g, name, ncol, nrow, units=(), kinds=("real", "int", "rat", "exp", "lead", "trail")):
    rows, data = [], []
    exp = {}
    if units and g.maybe(0.6):
        u = g.choice(units)
        rows.append([u])
        exp["units"] = u
    kind = g.choice([None, *kinds])
    for _ in range(nrow):
        if not data or g.maybe(0.85):           # Else the row before, again
            toks = [num(g, kind or g.choice(kinds)) for _ in range(ncol)]
        rows.append(toks)
        data.append(tuple(float(t.v) for t in toks))
    exp["data"] = data
    return rows, exp


def species_rows(g, name, kind, units=()):
    rows, exp = [], {}
    if units and g.maybe(0.5):
        u = g.choice(units)
        rows.append([u])
        exp["units"] = u
    d = {}
    for s in distinct_specs(g, g.ri(1, 5)):
        t = num(g, "uint" if kind == "int" else g.choice(["real", "trail", "rat"]))
        if kind == "text":
            t = Tok(*[g.choice(["basis.dat", "H_00.recpot", "qc_8"])] * 2)
        rows.append([s, t])
        d[s] = t.v
    exp["data"] = d
    return rows, exp


def positions(g, name):
    absolute = "_abs" in name
    units = "Ang"
    rows, exp = [], {}
    if g.maybe(0.5):
        u = g.choice(["bohr", "ang", "nm", "ANG", "m"]) if absolute else "ANG"
        rows.append([u])
        units = u
    count = {}
    for _ in range(rows_of(g, 14)):
        if count and g.maybe(0.1):              # The same line again
            rows.append(rows[-1])
            count[s] += 1
            exp[(s, count[s])] = dict(info)
            continue
        s = spec(g, 0.25)
        count[s] = count.get(s, 0) + 1
        toks = [num(g, g.choice(["real", "real", "rat", "int", "lead", "exp"])) for _ in range(3)]
        r = [s, *toks]
        info = {"pos": tuple(float(t.v) for t in toks)}
        if absolute:
            info["units"] = units
        extras = []
        if g.maybe(0.3):
            t = num(g, g.choice(["real", "int", "rat"]))
            key = recase(g, g.choice(["spin", "magmom"]))
            sep = g.choice(["=", " = ", ":", ": ", " :", " ", "\t", "= "])
            extras.append(f"{key}{sep}{t}")
            info["spin"] = float(t.v)
        if g.maybe(0.25):
            m, w = g.ri(1, 12), num(g, "lead").lstrip("-+")
            sep = g.choice([":", "=", " = ", ": ", " : "])
            lp, mp, rp = ws(g, 0, 3), ws(g, 1, 3), ws(g, 0, 2)
            extras.append(f"{recase(g, 'mixture')}{sep}({lp}{m}{mp}{w}{rp})")
            info["mix_index"], info["weight"] = m, float(w)
        g.r.shuffle(extras)
        rows.append([*r, *extras])
        exp[(s, count[s])] = info
    return rows, exp


def ionic_constraints(g):
    rows, exp = [], {}
    for i in range(rows_of(g, 16)):
        if not rows or g.maybe(0.7):        # Else another constraint on the same atom, perhaps the same again
            s, k = spec(g), index(g)
        if not rows or g.maybe(0.9):
            toks = [num(g, g.choice(["real", "int", "lead"])) for _ in range(3)]
        rows.append([str(i + 1), s, str(k), *toks])
        exp.setdefault((s, k), []).append(tuple(float(t.v) for t in toks))
    return rows, exp


def nonlinear_constraints(g):
    rows, exp = [], []
    for _ in range(rows_of(g, 6)):
        if rows and g.maybe(0.1):
            rows.append(rows[-1])
            exp.append(exp[-1])
            continue
        key, n = g.choice([("distance", 2), ("bend", 3), ("torsion", 4)])
        toks, atoms = [key], {}
        while len(atoms) < n:
            a = (spec(g, 0.1), index(g))
            if a in atoms:
                continue
            v = tuple(g.ri(-3, 3) for _ in range(3))
            atoms[a] = v
            toks += [a[0], str(a[1]), *map(str, v)]
        rows.append(toks)
        exp.append({"key": key, "atoms": atoms})
    return rows, exp


def symmetry_ops(g):
    rows, exp = [], []
    for _ in range(rows_of(g, 12)):
        if rows and g.maybe(0.1):
            toks = toks[:]
        elif g.maybe(0.3):                      # Rows that recur: unit vectors, no translation
            unit = [["1.0", "0.0", "0.0"], ["0.0", "1.0", "0.0"], ["0.0", "0.0", "1.0"], ["0.0"] * 3]
            toks = [[Tok(t, float(t)) for t in g.choice(unit)] for _ in range(3)]
            toks.append([Tok("0.0", 0.0) for _ in range(3)])
        else:
            toks = [[num(g, g.choice(["int", "real", "rat", "trail"])) for _ in range(3)] for _ in range(4)]
        rows += toks
        v = [tuple(float(t.v) for t in r) for r in toks]
        exp.append({"r": v[:3], "t": v[3]})
    return rows, exp


def colon_pairs(g, keys):
    toks, d = [], {}
    for k in keys:
        t = num(g, g.choice(["int", "real", "lead", "exp"]))
        toks.append(f"{k}{g.choice([':', ': ', ' : ', ' :'])}{t}")
        d[k] = t.v
    return toks, d


def hubbard_u(g):
    rows, exp = [], {"units": "eV"}
    if g.maybe(0.5):
        u = g.choice(["eV", "Ha", "Ry"])
        rows.append([u])
        exp["units"] = u
    for s in distinct_specs(g, g.ri(1, 4)):
        toks, d = colon_pairs(g, g.sample(ORB, g.ri(1, 3)))
        if g.maybe(0.5):
            k = index(g)
            rows.append([s, str(k), *toks])
            exp[(s, k)] = d
        else:
            rows.append([s, *toks])
            exp[s] = d
    return rows, exp


def sedc(g):
    rows, exp = [], {"units": {"energy": "eV", "distance": "Ang"}}
    if g.maybe(0.5):
        e, d = g.choice(["eV", "Ha"]), g.choice(["bohr", "ang", "nm"])
        rows.append([e, d])
        exp["units"] = {"energy": e, "distance": d}
    for s in distinct_specs(g, g.ri(1, 4)):
        toks, d = colon_pairs(g, g.sample(["C6", "R0", "alpha", "Neff"], g.ri(1, 4)))
        rows.append([s, *toks])
        exp[s] = d
    return rows, exp


def xc_definition(g):
    rows, exp = [], {"xc": {}, "params": {}}
    for k in g.sample(["lda", "hf", "pbe", "oep", "LIBXC_MGGA_XC_ZLP", "b88", "LYP"], g.ri(1, 5)):
        t = num(g, g.choice(["real", "trail", "lead", "int"]))
        rows.append([recase(g, k), t])
        exp["xc"][k.lower()] = float(t.v)
    if g.maybe():
        t = num(g, g.choice(["real", "trail", "int"]))
        rows.append([recase(g, "nlxc_screening_length"), t])
        exp["params"]["nlxc_screening_length"] = float(t.v)
    if g.maybe():
        v = g.choice(["THOMAS-FERMI", "ERROR_FUNCTION"])
        rows.append([recase(g, "nlxc_screening_function"), v])
        exp["params"]["nlxc_screening_function"] = v
    for k in ("nlxc_ppd_int", "nlxc_divergence_corr"):
        if g.maybe():
            v = g.choice(["ON", "OFF", "on", "off"])
            rows.append([recase(g, k), v])
            exp["params"][k] = v.upper() == "ON"
    g.r.shuffle(rows)
    return rows, exp


def pspot(g):
    """A pseudopotential string and what it says."""
    r = [f"{g.r.uniform(0.5, 3):.{g.ri(1, 3)}f}" for _ in range(3)]
    e = [str(g.ri(2, 40)) if g.maybe() else f"{g.r.uniform(2, 20):.3f}" for _ in range(3)]
    loc = str(g.ri(0, 4))
    exp = {"poly_fit": g.maybe(0.2), "local_channel": float(loc), "core_radius": float(r[0]),
           "coarse": float(e[0]), "medium": float(e[1]), "fine": float(e[2])}
    text = loc + ("-" if exp["poly_fit"] else "") + "|" + r[0] + "|"
    if g.maybe():
        text += r[1] + "|" + r[2] + "|"
        exp["beta_radius"], exp["r_inner"] = float(r[1]), float(r[2])
    text += "|".join(e) + "|"
    betas, bstr = [], []
    for _ in range(g.ri(1, 4)):
        orb, sh = g.ri(1, 7), g.ri(0, 3)
        s, projs = f"{orb}{sh}", []
        for _ in range(g.ri(0, 3)):
            p = {"type": g.choice("UNGHLP")}
            s += p["type"]
            if g.maybe(0.4):
                t = f"{g.r.uniform(0.5, 3):.{g.ri(1, 2)}f}"
                s += t
                p["beta_rc"] = float(t)
            if g.maybe(0.3):
                t = f"{g.r.uniform(0, 2):.{g.ri(1, 2)}f}"
                sep = g.choice(["+", "-", "=", "=-", "=+"])
                s += sep + t
                p["beta_e"] = -float(t) if sep.endswith("-") else float(t)
            if g.maybe(0.2):
                t = f"{g.r.uniform(0, 2):.2f}"
                s += "@" + t
                p["beta_delta"] = float(t)
            projs.append(p)
        betas.append({"orbital": orb, "shell": "spdf"[sh], "shell_ind": sh, "projectors": projs})
        bstr.append(s)
    exp["beta_functions"] = betas
    exp["beta_function_string"] = ":".join(bstr)
    text += ":".join(bstr)
    tail = []

    def shells():
        return [f"{g.ri(1, 7)}{g.choice(ORB)}" + (str(g.ri(1, 14)) if g.maybe(0.6) else "")
                + (f".{g.ri(1, 99)}" if g.maybe(0.2) else "") for _ in range(g.ri(1, 3))]

    if g.maybe(0.4):
        exp["adjustment"] = shells()
        tail.append("{" + ",".join(exp["adjustment"]) + "}")
    if g.maybe(0.5):
        exp["flags"] = g.sample(["qc=6", "tm", "nonlcc", "scalrel", "schro"], g.ri(1, 3))
        tail.append("(" + ",".join(exp["flags"]) + ")")
    exp["print"] = False
    if g.maybe(0.4):
        exp["print"] = True
        exp["testing"] = shells() if g.maybe(0.6) else [""]
        tail.append("[" + ",".join(exp["testing"]) + "]")
    text += "".join(tail)
    exp["string"] = text
    return text, exp


def species_pot(g):
    rows, exp = [], {}
    for s in distinct_specs(g, g.ri(1, 4)):
        if g.maybe(0.6):
            t, e = pspot(g)
        else:
            t = e = g.choice(["O_00.usp", "Si_C18_PBE_OTF.usp", "./pots/Fe.recpot", "H_00PBE.usp"])
        rows.append([s, t])
        exp[s] = e
    if g.maybe(0.3):
        lib = g.choice(["C18", "QC5", "SOC19"])
        rows.append([lib])
        exp[None] = lib
    g.r.shuffle(rows)
    return rows, exp


def devel_code(g):
    rows, exp = [], {}

    def pair():
        k = g.choice(["improve", "n", "min", "float_number", "Test_Par", "x2", "aa", "a", "debug"]) + g.choice(["", "", "2"])
        t = g.choice([num(g, "int"), num(g, "real"), num(g, "exp"), Tok("T", True), Tok("false", False),
                      Tok("Hello", "Hello"), Tok("a.b", "a.b"), Tok("Thomas-Fermi", "Thomas-Fermi")])
        return k, t, f"{k}{g.choice('=:=')}{t}"

    blocks = g.sample(["PP", "XC", "GEOM", "Memory"], g.ri(0, 3))
    for b in blocks:
        for _ in range(g.choice([1, 1, 2])):
            d = exp.setdefault(b.lower(), {})
            toks, data = [], []
            for _ in range(g.ri(0, 4)):
                k, t, s = pair()
                if k.lower() in d:
                    continue
                d[k.lower()] = t.v
                toks.append(s)
            if g.maybe(0.3) and "data" not in d:
                for _ in range(g.ri(1, 3)):
                    t = g.choice([num(g, "int"), num(g, "real"), Tok("rdm", "rdm"), Tok("T", True)])
                    data.append(t)
                d["data"] = [t.v for t in data]
            rows.append([f"{b}:", *toks, *data, f":END{b}"])
    seen = {b.lower() for b in blocks}
    for _ in range(g.ri(0, 5)):
        k, t, s = pair()
        if k.lower() in seen:
            continue
        seen.add(k.lower())
        rows.append([s])
        exp[k.lower()] = t.v
    for k in g.sample(["present_value", "flag2", "other-flag", "NLXC"], g.ri(0, 3)):
        rows.append([k])
        exp[k.lower().replace("-", "_")] = None
    g.r.shuffle(rows)
    return rows, exp


def block_item(g, name):
    if name.startswith("lattice"):
        return general(g, name, 3, 2 if name == "lattice_abc" else 3, ("ang", "bohr", "nm", "ANG"), ("real", "int", "exp", "trail"))
    if name in ("bs_kpoint_path", "kpoint_list", "kpoints_list", "phonon_kpoint_list", "supercell_kpoint_list",
                "spectral_kpoint_path", "phonon_gamma_directions"):
        return general(g, name, g.choice([3, 4]) if "list" in name else 3, rows_of(g, 25))
    if name == "cell_constraints":
        return general(g, name, 3, 2, kinds=("int",))
    if name == "phonon_supercell_matrix":
        return general(g, name, 3, 3, kinds=("int",))
    if name == "external_efield":
        return general(g, name, 3, 1, ("HARTREE/BOHR/E", "eV/ang/e", "eV/ang**2/e"))
    if name == "ionic_velocities":
        return general(g, name, 3, rows_of(g, 12), ("ang/ps", "bohr/fs", "auv"))
    if name == "external_pressure":
        u = [["GPa"]] if g.maybe(0.6) else []
        rows = [[num(g, "real") for _ in range(3 - i)] for i in range(3)]
        exp = {"data": [tuple(t.v for t in r) for r in rows]}
        if u:
            exp["units"] = "GPa"
        return u + rows, exp
    if name == "species_mass":
        return species_rows(g, name, "real", ("amu", "g"))
    if name == "species_q":
        return species_rows(g, name, "real", ("fm2", "barn"))
    if name == "species_lcao_states":
        return species_rows(g, name, "int")
    if name.startswith("positions"):
        return positions(g, name)
    return {"ionic_constraints": ionic_constraints, "nonlinear_constraints": nonlinear_constraints,
            "symmetry_ops": symmetry_ops, "hubbard_u": hubbard_u, "sedc_custom_params": sedc,
            "xc_definition": xc_definition, "species_pot": species_pot, "devel_code": devel_code}[name](g)


BLOCKS = ["lattice_cart", "lattice_abc", "bs_kpoint_path", "kpoint_list", "phonon_kpoint_list", "spectral_kpoint_path",
          "phonon_gamma_directions", "cell_constraints", "phonon_supercell_matrix", "external_efield",
          "ionic_velocities", "external_pressure", "species_mass", "species_q", "species_lcao_states",
          "positions_frac", "positions_abs", "positions_frac_product", "positions_frac_intermediate",
          "positions_abs_product", "positions_abs_intermediate",
          "ionic_constraints", "nonlinear_constraints", "symmetry_ops", "hubbard_u", "sedc_custom_params",
          "xc_definition", "species_pot", "devel_code"]


def items(g, nkw=None, blocks=None):
    """{name: ("kw"|"blk", content, expected)}"""
    out = keywords(g, g.ri(0, 10) if nkw is None else nkw)
    for b in (g.sample(BLOCKS, g.ri(0, 5)) if blocks is None else blocks):
        out[b] = ("blk", *block_item(g, b))
    return out


def comment(g):
    return g.choice("#!") + g.choice(["", " "]) + g.choice(
        ["", "a comment", "task : phonon", "%BLOCK LATTICE_CART", "%ENDBLOCK", "1 2 3", "# ! nested", "cut_off_energy 4 eV"])


def filler(g):
    return g.choice(["", "", "   ", "\t", comment(g), "  " + comment(g)])


def render(g, its, noise=True):
    """Text of the file: any order, case, spacing, separators, comments and blank lines."""
    order = list(its)
    g.r.shuffle(order)
    lines = []

    def emit(text):
        while noise and g.maybe(0.25):
            lines.append(filler(g))
        if noise and g.maybe(0.2):
            text += ws(g) + comment(g)
        elif noise and g.maybe(0.15):
            text += ws(g)
        lines.append(text)

    for name in order:
        what, content, _ = its[name]
        if what == "kw":
            toks = [t[1:] if t.startswith("\x00") else t for t in content]
            sep = g.choice([" : ", ":", "=", " = ", "\t:\t", " ", "   ", "\t", ": ", " =", "  :  "])
            emit(ws(g, 0, 3) + recase(g, name) + sep + row(g, toks, indent=False))
        else:
            emit(ws(g, 0, 3) + recase(g, "%block") + ws(g, 1, 2) + recase(g, name))
            typed = {}
            for r in content:                   # The same row again may well be spaced the same
                key = tuple(map(str, r))
                if key not in typed or g.maybe(0.3):
                    typed[key] = row(g, r)
                emit(typed[key])
            emit(ws(g, 0, 3) + recase(g, "%endblock") + ws(g, 1, 2) + recase(g, name))
    while noise and g.maybe(0.4):
        lines.append(filler(g))
    text = "\n".join(lines)
    return text + ("\n" if g.maybe(0.9) or not lines else "")


def expected(its):
    return {k: v[2] for k, v in its.items()}
