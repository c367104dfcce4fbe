"""S11: predicted output files under every way of asking, hash order, renaming and switching outputs on."""
import copy
import itertools
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

from gen import cellparam as cp
from gen.base import G
from gen.predict import SPECTRAL, Impossible, predict
from lib import vf

TASKS = {"singlepoint": ["singlepoint", "SPE", "energy"], "geom": ["geom", "GeomOpt", "GeometryOptimisation", "GeometryOptimization"],
         "md": ["MolecularDynamics", "md", "dynamics"], "tss": ["tss", "TransitionStateSearch"], "phonon": ["phonon"],
         "phonon_efield": ["phonon+efield", "phonon_efield"], "efield": ["efield"], "magres": ["magres"],
         "spectral": ["spectral", "elnes", "optics"], "epcoupling": ["epcoupling"], "thermodynamics": ["thermodynamics"],
         "autosolvation": ["autosolvation"], "elastic": ["elastic"], "bandstructure": ["bandstructure"],
         "electronicspectroscopy": ["electronicspectroscopy"], "wannier": ["wannier"], "socket": ["SocketDriver", "socket_driver"]}
TASK_FILE = {"geom": ["{}.geom"], "md": ["{}.md"], "tss": ["{}.ts"], "phonon": ["{}.phonon"], "phonon_efield": ["{}.phonon", "{}.efield"],
             "efield": ["{}.efield"], "magres": ["{}.magres"], "epcoupling": ["{}.epme"], "autosolvation": ["{}.vacuum_den"],
             "spectral": ["{}-out.cell"]}
# switch (a logical parameter) -> file it turns on
SWITCH = {"write_formatted_potential": "{}.pot_fmt", "write_formatted_density": "{}.den_fmt", "calculate_densdiff": "{}.chdiff",
          "calculate_elf": "{}.elf", "write_formatted_dielec_perm": "{}.eps_format", "write_orbitals": "{}.orbitals",
          "write_cif_structure": "{}-out.cif", "write_cell_structure": "{}-out.cell", "efield_calc_ion_permittivity": "{}.efield",
          "calculate_modos": "{}.modos_state*", "write_bib": "{}.bib", "write_bands": "{}.bands", "write_cst_esp": "{}.cst_esp",
          "pdos_calculate_weights": None, "write_formatted_elf": None, "write_geom": None, "write_md": None,
          "phonon_calculate_dos": None, "spectral_restart": None, "write_otfg": None, "magres_write_response": None}
DEVEL = {"zdos_scf": "{}.scf_zdos", "write_unformatted_density": "{}.altden", "trace": "{}.*.profile", "prof": "{}.*.profile",
         "calculate_xrd_sf": "{}.xrd_sf", "calc_elastic": "{}.elastic", "write_formatted_bands": "{}_*.orbit_fmt", "pp_hybrid": None,
         "zdos_spectral": None, "lda_sf_pot_write": None, "profclass": "{}.*.profile", "spectral_spinvec": None, "spectral_spinvec_append": None}
UNSEEDED = {"current.dat", "gsden.cube", "den_dump*.dat", "born.dat"}
XC = ["lda", "pbe", "PBE", "rscan", "hf", "pbe0", "pw91", "blyp", "ms2", "hse06", "lda_pw", "r2scan", "oep", "wc", "rpbe",
      "pbesol", "hf-lda", "shf", "sx-lda", "shf-lda", "b3lyp", "hse03", "spbe0", "lfx", "elp", "ceda"]


def describe(g):
    """A random calculation: (param items, cell items) of gen.cellparam."""
    p, devel, drow = {}, {}, []
    task = g.choice(list(TASKS))

    def text(k, v):
        p[k] = ("kw", [v], v)

    def flag(k, v):
        p[k] = ("kw", [g.choice(["true", "T", "TRUE"]) if v else g.choice(["false", "F"])], v)
    if g.maybe(0.95):
        text("task", g.choice(TASKS[task]))
    else:
        task = "singlepoint"
    if g.maybe(0.5):
        text("xc_functional", g.choice(XC))
    if g.maybe(0.4):
        rows, exp = [], {"xc": {}, "params": {}}
        for f in g.sample(["lda", "pbe", "rpbe", "hf", "wc", "blyp", "pbesol", "LIBXC_GGA_X_B86", "libxc_mgga_x_scan", "libxc_hyb_gga_xc_b3", "libxc_lda_c_vwn", "rscan", "libxc_hyb_mgga_xc_revtpssh", "b3lyp", "ceda", "ms2", "lda_pw", "pw91"], g.choice([1, 1, 2, 3, 4])):
            t = cp.num(g, "lead")
            rows.append([f, t])
            exp["xc"][f.lower()] = t.v
        p["xc_definition"] = ("blk", rows, exp)
    for k in SWITCH:
        if g.maybe(0.2):
            flag(k, g.maybe())
    if g.maybe(0.3):
        text("write_checkpoint", g.choice(["all", "ALL", "none", "minimal", "Minimal", "both", "full", "true", "FALSE", "none"]))
    for k, vs in (("spin_treatment", ["vector", "VECTOR", "none", "scalar"]), ("geom_method", ["pes", "PES", "lbfgs"]),
                  ("md_ensemble", ["nvhug", "NPHUG", "nve"]), ("md_extrap", ["first", "SECOND", "mixed", "none"]),
                  ("opt_strategy", ["speed", "Memory", "default"]), ("metals_method", ["dm", "EDFT"]),
                  ("spectral_task", ["dos", "Optics", "all", "coreloss", "bandstructure"]), ("spectral_theory", ["dft", "TDDFT"])):
        if g.maybe(0.8 if k.startswith("spectral") and task in SPECTRAL else 0.25):
            text(k, g.choice(vs))
    for k in ("spin_polarised", "spin_polarized", "spin_orbit_coupling", "write_none"):
        if g.maybe(0.2):
            flag(k, g.maybe())
    if g.maybe(0.15):
        n = g.ri(0, 3)
        p["tddft_selected_state"] = ("kw", [str(n)], n)
    if g.maybe(0.2):
        n = g.ri(-3, 3)
        p["opt_strategy_bias"] = ("kw", [str(n)], n)
    for k in ("md_num_beads", "num_farms"):
        if g.maybe(0.2):
            n = g.ri(1, 12)
            p[k] = ("kw", [str(n)], n)
    if g.maybe(0.5):
        for k in DEVEL:
            if g.maybe(0.2):
                v = g.maybe(0.7)
                devel[k] = v
                drow.append([f"{k}{g.choice(':=')}{'T' if v else 'F'}"])
        own = {"phonon": "phonon", "phonon_efield": "phonon"}.get(task, "spectral" if task in SPECTRAL else "pp")
        for b, keys in (("phonon", ["write_first_order_potential"]), ("elastic", ["deform_pot"]), ("tddft", ["den1_write", "save_td_den_fmt"]),
                        ("spectral", ["calc_core", "calc_ome", "calc_pdos", "calc_dome"]), ("pp", ["pot_print", "fd_check"])):
            if g.maybe(0.5 if b == own else 0.2):
                if b != "pp" and g.maybe(0.3):
                    devel[b] = None
                    drow.append([b])
                    continue
                d = {k: g.maybe(0.7) for k in keys if g.maybe(0.7)}
                row = [f"{b}:", *(f"{k}={'T' if v else 'F'}" for k, v in d.items())]
                if b == "phonon" and g.maybe(0.3):
                    d["write_external_born"] = "born.dat"
                    row.append("write_external_born=born.dat")
                drow.append([*row, f":END{b}"])
                devel[b] = d
                if b == "pp" and g.maybe(0.8):
                    drow.append([f"pp={'T' if (v := g.maybe(0.8)) else 'F'}"])
                    devel["_pp"] = v
        g.r.shuffle(drow)
        p["devel_code"] = ("blk", drow, devel)
    c = {}
    for b in g.sample(["lattice_cart", "positions_frac", "species_pot", "species_mass", "symmetry_ops"], g.ri(0, 5)):
        c[b] = ("blk", *cp.block_item(g, b))
    return task, p, c


def ask(func, **kw):
    try:
        return ["ok", func(**kw)]
    except (KeyError, NotImplementedError, ValueError) as err:
        return ["err", type(err).__name__]


WORKER = """
import json, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
from pathlib import Path
from castep_outputs.tools.get_generated_files import get_generated_files
out = {}
for line in sys.stdin:
    seed = line.rstrip("\\n")
    try:
        out[seed] = ["ok", get_generated_files(seed)]
    except (KeyError, NotImplementedError, ValueError) as err:
        out[seed] = ["err", type(err).__name__]
print(json.dumps(out))
"""


def run(ctx):
    from castep_outputs import parse_cell_file, parse_param_file
    from castep_outputs.tools.get_generated_files import get_generated_files as ggf
    ctx.rule = ("random calculations (17 tasks in every spelling, 21 output switches, 10 developer switches, developer blocks, "
                "mixed functionals, spin, pseudopotential strings) written to .cell/.param files; asked by seedname, paths, parsed "
                "data, repeatedly, re-spelt, renamed, with outputs switched on, and in processes of other hash seeds; distinct by text")
    ctx.need("calculations", "switch added its file", "developer switch added its file", "hash seeds", "renamed", "task file present",
             "re-spelt", "mixed functionals", "names", "spin re-spelt", "grid of choices", "prediction: ok", "prediction: err")
    seeds = {}
    for i in range(ctx.n(1500, 20000)):
        if not ctx.time_left(40, 480):
            break
        g = G(ctx.rng(i))
        task, p, c = describe(g)
        d = ctx.scratch / f"d{i}"
        d.mkdir()
        seed = g.choice(["seed", "my.run", "a b", "x-1", "Si_8", "v1.2.3", "seedname", "x.castep"])
        ptext, ctext = cp.render(g, p), cp.render(g, c)
        pf, cf = d / f"{seed}.param", d / f"{seed}.cell"
        pf.write_text(ptext)
        cf.write_text(ctext)
        rep = {"param": ptext, "cell": ctext, "seedname": seed}
        ctx.case((ptext, ctext), "calculations", ptext)
        if "xc_definition" in p and len(p["xc_definition"][2]["xc"]) > 1 and "species_pot" in c:
            ctx.count("mixed functionals")
        pd, cd = parse_param_file(pf)[0], parse_cell_file(cf)[0]
        pd0, cd0 = copy.deepcopy(pd), copy.deepcopy(cd)
        ok, ref = ctx.call("prediction raised", ask, ggf, seedname=d / seed, replay=rep)
        if not ok:
            continue
        seeds[str(d / seed)] = ref
        ways = {"seedname text": {"seedname": str(d / seed)},
                "paths": {"seedname": seed, "param_file": pf, "cell_file": cf},
                "data": {"seedname": seed, "param_data": pd, "cell_data": cd},
                "data and path": {"seedname": Path(seed), "param_data": pd, "cell_file": cf},
                "path and data": {"seedname": Path("elsewhere") / seed, "param_file": pf, "cell_data": cd},
                "cell path as seedname": {"seedname": d / f"{seed}.cell"},
                "param path as seedname": {"seedname": str(d / f"{seed}.param")},
                "data again": {"seedname": seed, "param_data": pd, "cell_data": cd}}
        good = True
        for way, kw in ways.items():
            ok, got = ctx.call("prediction raised", ask, ggf, replay=rep, **kw)
            if not ok or not ctx.expect(f"{way}: prediction differs", ref, got, **rep):
                good = False
                break
        if pd != pd0 or cd != cd0 or repr(pd) != repr(pd0) or repr(cd) != repr(cd0):
            ctx.fail("given data modified", "param or cell data changed", **rep)
        if not good:
            continue
        try:
            want = ["ok", sorted(predict(task, p["task"][1][0].lower() if "task" in p else "singlepoint", pd, cd, seed))]
        except Impossible as err:
            want = ["err", str(err)]
        ctx.count("prediction: " + want[0])
        if ref != want:
            ctx.fail("prediction: files", f"missing {sorted(set(want[1]) - set(ref[1]))} unexpected {sorted(set(ref[1]) - set(want[1]))}"
                     if want[0] == ref[0] == "ok" else f"{ref[0]} instead of {want[0]}", **rep)
        if ref[0] != "ok":
            continue
        names = ref[1]
        if len(set(names)) != len(names):
            ctx.fail("prediction: duplicates", str(names), **rep)
        specs = [s for s, v in cd.get("species_pot", {}).items() if isinstance(v, dict)]
        for nm in names:
            ctx.count("names")
            if not (nm.startswith(seed) or nm in UNSEEDED or any(nm.startswith(f"{s}_EXT_") for s in specs)):
                ctx.fail("prediction: name does not start with the seedname", nm, **rep)
        must = [f"{seed}.castep", *(t.format(seed) for t in TASK_FILE.get(task, ()))]
        if pd.get("write_geom") is False or pd.get("write_md") is False or pd.get("write_none"):
            must = [m for m in must if not m.endswith((".geom", ".md"))]
        for m in must:
            ctx.count("task file present")
            if m not in names:
                ctx.fail("prediction: file of the task missing", f"{m} (task {task})", **rep)
        # another spelling of the same description
        p2 = dict(p)
        if "task" in p:
            p2["task"] = ("kw", [cp.recase(g, g.choice(TASKS[task]))], None)
        for k in ("xc_functional", "write_checkpoint", "spin_treatment", "geom_method", "md_ensemble", "md_extrap", "opt_strategy",
                  "metals_method", "spectral_task", "spectral_theory"):
            if k in p:
                p2[k] = ("kw", [cp.recase(g, p[k][1][0].lower())], None)
        for a, b in (("spin_polarised", "spin_polarized"), ("spin_polarized", "spin_polarised")):
            if a in p and b not in p and g.maybe():
                p2[b] = p2.pop(a)
                ctx.count("spin re-spelt")
                break
        pf.write_text(cp.render(g, p2))
        cf.write_text(cp.render(g, c))
        ctx.count("re-spelt")
        ok, got = ctx.call("prediction raised", ask, ggf, seedname=d / seed, replay=rep)
        if ok:
            ctx.expect("re-spelt: prediction differs", ref, got, again=pf.read_text(), **rep)
        pf.write_text(ptext)
        cf.write_text(ctext)
        # another seedname
        other = g.choice(["other", "q.w.e", "zz 9"])
        ok, got = ctx.call("prediction raised", ask, ggf, seedname=other, param_data=pd, cell_data=cd, replay=rep)
        if ok:
            ctx.count("renamed")
            want = sorted(other + nm[len(seed):] if nm.startswith(seed) and nm not in UNSEEDED
                          and not any(nm.startswith(f"{s}_EXT_") for s in specs) else nm for nm in names)
            ctx.expect("renamed: prediction differs", want, sorted(got[1]), **rep)
        # outputs switched on
        if not pd.get("write_none"):
            for k in g.sample(SWITCH, 5):
                off, on = {**pd, k: False}, {**pd, k: True}
                a = ask(ggf, seedname=seed, param_data=off, cell_data=cd)
                b = ask(ggf, seedname=seed, param_data=on, cell_data=cd)
                if a[0] != "ok" or b[0] != "ok":
                    ctx.expect(f"switch {k}: outcome", a, b, **rep)
                    continue
                if set(a[1]) - set(b[1]):
                    ctx.fail(f"switch {k}: removed a file", f"{set(a[1]) - set(b[1])}", **rep)
                f = SWITCH[k]
                if k == "pdos_calculate_weights" and task not in ("bandstructure", "electronicspectroscopy"):
                    f = "{}.pdos_weights"
                if k == "write_formatted_elf" and pd.get("calculate_elf"):
                    f = "{}.elf_fmt"
                if k == "write_geom" and task == "geom":
                    f = "{}.geom"
                if k == "write_md" and task == "md":
                    f = "{}.md"
                if k == "phonon_calculate_dos" and task.startswith("phonon"):
                    f = "{}.phonon_dos"
                pp = (pd.get("devel_code") or {}).get("_pp")
                if k in ("write_bands", "write_cst_esp") and pp:
                    f = None
                if k == "write_bands" and pd.get("tddft_selected_state"):
                    f = f and "{}_tddft.bands"
                if f:
                    ctx.count("switch added its file")
                    if f.format(seed) not in b[1]:
                        ctx.fail(f"switch {k}: its file is missing", f.format(seed), **rep)
                    # off: only present if something else asks for it
                    if f.format(seed) in a[1] and k not in ("write_orbitals", "write_cell_structure", "efield_calc_ion_permittivity"):
                        ctx.fail(f"switch {k}: off, yet its file is there", f.format(seed), **rep)
            for k in g.sample(DEVEL, 2):
                dc = pd.get("devel_code") or {}
                a = ask(ggf, seedname=seed, param_data={**pd, "devel_code": {**dc, k: False}}, cell_data=cd)
                b = ask(ggf, seedname=seed, param_data={**pd, "devel_code": {**dc, k: True}}, cell_data=cd)
                if a[0] != "ok" or b[0] != "ok":
                    ctx.expect(f"developer switch {k}: outcome", a, b, **rep)
                    continue
                if set(a[1]) - set(b[1]):
                    ctx.fail(f"developer switch {k}: removed a file", f"{set(a[1]) - set(b[1])}", **rep)
                if DEVEL[k]:
                    ctx.count("developer switch added its file")
                    if DEVEL[k].format(seed) not in b[1]:
                        ctx.fail(f"developer switch {k}: its file is missing", DEVEL[k].format(seed), **rep)
            levels = [set(ask(ggf, seedname=seed, param_data={**pd, "write_checkpoint": v}, cell_data=cd)[1])
                      for v in ("none", "minimal", "all")]
            if not levels[0] < levels[1] < levels[2]:
                ctx.fail("write_checkpoint: levels not nested", f"{levels}", **rep)
    # every combination of what decides the matrices of spectra, the extrapolation files of MD, and pseudopotentials
    spec_pot = {"Si": {"string": "2|1.8|4|4|5|30:31:32", "print": True}, "O": "O_00.usp", "H": {"string": "1|0.6|1|6|10|10(qc=8)"}}

    def grid():
        for xc, what, theory, task in itertools.product([None, *XC], [None, "dos", "optics", "all", "coreloss", "bandstructure"],
                                                        [None, "dft", "tddft"], ["spectral", "bandstructure", "electronicspectroscopy"]):
            yield task, {"xc_functional": xc, "spectral_task": what, "spectral_theory": theory}
        for extrap, opt, bias, metals, ens in itertools.product([None, "first", "second", "mixed", "none"], [None, "speed", "memory", "default"],
                                                                [None, -1, 0, 1], [None, "dm", "edft"], [None, "nve", "nphug", "nvhug"]):
            yield "md", {"md_extrap": extrap, "opt_strategy": opt, "opt_strategy_bias": bias, "metals_method": metals, "md_ensemble": ens}
        for task, xc, spin, check in itertools.product(TASKS, [None, *XC], [None, "vector", "scalar"], [None, "all", "minimal", "none"]):
            yield task, {"xc_functional": xc, "spin_treatment": spin, "write_checkpoint": check}
        for xc, spin in itertools.product(["libxc_mgga_x_scan", "libxc_hyb_mgga_xc", "libxc_gga_x", "libxc_hyb_gga_xc", "libxc_lda_c", "libxc_hyb_lda_xc",
                                           *map(str.lower, XC)], [None, True]):
            yield "singlepoint", {"xc_definition": {"xc": {xc: 1.0}}, "spin_polarized": spin}
    for task, given in grid():
        given = {"task": TASKS[task][0], **{k: v for k, v in given.items() if v is not None}}
        cell = {"species_pot": dict(spec_pot)}
        try:
            want = ["ok", sorted(predict(task, given["task"].lower(), given, cell, "seed"))]
        except Impossible as err:
            want = ["err", str(err)]
        ok, got = ctx.call("prediction raised", ask, ggf, seedname="seed", param_data=given, cell_data=cell, replay={"param_data": given})
        ctx.count("grid of choices")
        ctx.case(("grid", repr(given)), "grid of choices", given)
        if ok:
            ctx.expect("prediction: files", want, got, param_data=given, cell_data=cell)
    # the same questions under other hash seeds
    for hs in ctx.n(["0", "1", "7"], ["0", "1", "2", "3", "7", "42", "99"]):
        env = {**os.environ, "PYTHONHASHSEED": hs, "PYTHONDONTWRITEBYTECODE": "1"}
        r = subprocess.run([sys.executable, "-c", WORKER, str(vf.REPO)], input="\n".join(seeds), env=env, capture_output=True, text=True, timeout=600)
        if r.returncode:
            ctx.fail("hash seed: prediction raised", r.stderr[-600:])
            continue
        got = json.loads(r.stdout)
        ctx.count("hash seeds")
        for s, ref in seeds.items():
            if not ctx.expect("hash seed: prediction differs", ref, got[s], seed_dir=s, hash_seed=hs,
                              param=Path(f"{s}.param").read_text(), cell=Path(f"{s}.cell").read_text()):
                break
    for s in list(seeds):
        shutil.rmtree(Path(s).parent, ignore_errors=True)
