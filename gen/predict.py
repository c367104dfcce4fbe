"""S11: the files each part of a calculation's description calls for (own table, from data)."""
from __future__ import annotations

import itertools

META_GGA = ("ms2", "rscan", "r2scan")
NON_LOCAL = ("hf", "hf-lda", "shf", "sx-lda", "shf-lda", "pbe0", "b3lyp", "hse03", "hse06", "spbe0")
OEP = ("oep", "lfx", "elp", "ceda")
THEORY = {"pw91": "pbe", "pbe": "pbe", "rpbe": "rpbe", "pbesol": "pbesol", "wc": "wc", "blyp": "blyp", "ms2": "ms2", "rscan": "rscan",
          "r2scan": "rscan", "lda_pw": "lda_pw"}
ALWAYS_FALSE = {"write_bib", "write_checkpoint", "write_cst_esp", "write_bands", "write_geom", "write_md"}
SPECTRAL = ("spectral", "bandstructure", "electronicspectroscopy")
MATRICES = {("tddft", "optics"): "dome", ("tddft", "dos"): "", ("tddft", "bandstructure"): "", ("tddft", "all"): "dome",
            ("dft", "coreloss"): "elnes ome", ("dft", "optics"): "dome", ("dft", "dos"): "ome", ("dft", "bandstructure"): "",
            ("dft", "all"): "elnes ome dome"}


class Impossible(Exception):
    pass


def predict(task, raw, p, c, seed):
    """Set of names; raises Impossible for a combination CASTEP does not have."""
    if task == "wannier":
        raise Impossible("KeyError")
    if task == "socket":                        # whoever drives it decides what is run
        raise Impossible("NotImplementedError")
    low = lambda k, d: str(p.get(k, d)).lower()
    dev = p.get("devel_code") or {}
    sub = lambda k: dev.get(k) or {}
    on = lambda k, d=None: (False if p.get("write_none") and k in ALWAYS_FALSE else p.get(k, d))
    xc = {k.lower() for k in p["xc_definition"]["xc"]} if p.get("xc_definition") else {low("xc_functional", "lda")}
    libs = {k for k in ("mgga", "gga", "lda") for x in xc if x.startswith(("libxc_" + k, "libxc_hyb_" + k))}
    mgga = "mgga" in libs or any(x in META_GGA for x in xc)
    non_local = any(x in NON_LOCAL for x in xc)
    spin = low("spin_treatment", "none") == "vector" or any(p.get(k) for k in ("spin_orbit_coupling", "spin_polarised", "spin_polarized"))
    model = bool(dev.get("_pp"))
    state = p.get("tddft_selected_state", 0)
    md, geom, spectral, phonon = task == "md", task == "geom", task in SPECTRAL, task.startswith("phonon")
    check = low("write_checkpoint", "all") if on("write_checkpoint", "x") else "none"
    early = low("md_extrap", "first")
    memory = low("metals_method", "dm") == "dm" and (low("opt_strategy", "default") == "memory" or p.get("opt_strategy_bias", 0) >= 0)

    rules = [
        (True, "{}.castep"),
        (check in ("true", "all", "both", "full"), "{}.check"),
        (check in ("true", "all", "both", "full", "minimal"), "{}.castep_bin"),
        (on("write_bands", True) and not model, "{}_tddft.bands" if state else "{}.bands"),
        (dev.get("write_formatted_bands"), "{}_*.orbit_fmt"),
        (on("write_bib", True), "{}.bib"),
        (on("write_cst_esp", True) and not model, "{}.cst_esp"),
        (p.get("write_formatted_potential"), "{}.pot_fmt"),
        (p.get("write_formatted_potential") and any(x in OEP for x in xc), "{}.oep_fmt"),
        (p.get("write_formatted_density"), "{}.den_fmt"),
        (p.get("calculate_densdiff"), "{}.chdiff"),
        (p.get("calculate_densdiff") and p.get("write_formatted_density"), "{}.chdiff_fmt"),
        (p.get("calculate_elf"), "{}.elf"),
        (p.get("calculate_elf") and p.get("write_formatted_elf"), "{}.elf_fmt"),
        (p.get("write_formatted_dielec_perm"), "{}.eps_format"),
        (p.get("write_orbitals") or raw == "bandstructure", "{}.orbitals"),
        (p.get("write_cif_structure"), "{}-out.cif"),
        (p.get("write_cell_structure") or spectral, "{}-out.cell"),
        (p.get("efield_calc_ion_permittivity") or "efield" in task, "{}.efield"),
        (p.get("calculate_modos"), "{}.modos_state*"),
        (dev.get("zdos_scf"), "{}.scf_zdos"),
        (dev.get("write_unformatted_density"), "{}.altden"),
        (dev.get("trace") or dev.get("prof") or dev.get("profclass"), "{}.*.profile"),
        (dev.get("pp_hybrid") and (geom or md), "{}.hybrid-md.xyz"),
        (dev.get("lda_sf_pot_write") and spin, "{}.B_xc.pot_fmt"),
        (dev.get("calculate_xrd_sf"), "{}.xrd_sf"),
        (dev.get("zdos_spectral") and spectral, "{}.spectral_zdos"),
        (model and sub("pp").get("fd_check"), "{}.fd"),
        (p.get("pdos_calculate_weights") and raw not in ("bandstructure", "electronicspectroscopy"), "{}.pdos_weights"),
        (dev.get("calc_elastic") or "elastic" in dev, "{}.elastic"),
        (task == "autosolvation", "{}.vacuum_den"),
        (task == "epcoupling", "{}.epme"),
        (task == "epcoupling" or phonon and sub("phonon").get("write_first_order_potential"), "{}-*-*-*.ep_pot"),
        (geom and on("write_geom", True), "{}.geom"),
        (geom and low("geom_method", "") == "pes", "{}.pes"),
        (md and on("write_md", True), "{}.md"),
        (md and low("md_ensemble", "") in ("nvhug", "nphug"), "{}.hug"),
        (md and memory and early in ("first", "second", "mixed"), "{}.*.wfm"),
        (md and memory and early in ("first", "second", "mixed"), "{}.*.drhom"),
        (md and memory and early in ("second", "mixed"), "{}.*.wf2m"),
        (md and memory and early in ("second", "mixed"), "{}.*.drho2m"),
        (task == "magres", "{}.magres"),
        (task == "magres" and p.get("magres_write_response"), "current.dat"),
        (task == "magres" and p.get("magres_write_response"), "gsden.cube"),
        (task == "tss", "{}.ts"),
        (phonon, "{}.phonon"),
        (phonon and p.get("phonon_calculate_dos"), "{}.phonon_dos"),
        (phonon and sub("phonon").get("write_external_born"), str(sub("phonon").get("write_external_born"))),
        (state > 0, "{}.tddft"),
        (state > 0 and sub("tddft").get("den1_write"), "{}.td_den"),
        (state > 0 and sub("tddft").get("save_td_den_fmt"), "den_dump*.dat"),
        (spectral and p.get("spectral_restart", True), "{}.*.spec"),
        (spectral and "spectral_spinvec" in dev and "spectral_spinvec_append" in dev, "{}.nc_spinvec"),
    ]
    out = {name.format(seed) for cond, name in rules if cond}
    if md and p.get("md_num_beads", 1) > 1 and p.get("num_farms", 1) > 1:
        out |= {f"{seed}_farm{k:03d}.castep" for k in range(p["num_farms"])}
    if model and sub("pp").get("pot_print"):
        specs = list(dict.fromkeys(x for x, _ in c.get("positions_frac", ())))
        out |= {f"{seed}_{a}_{b}.pot" for a, b in itertools.combinations_with_replacement(specs, 2)} if c else {f"{seed}_*_.pot"}
    if spectral:
        theory, what = low("spectral_theory", "dft"), low("spectral_task", "bandstructure")
        if (theory, what) not in MATRICES or (theory == "dft" and what == "coreloss" and non_local):
            raise Impossible("KeyError")
        mats = set(MATRICES[theory, what].split())
        if non_local and theory == "dft" and what in ("dos", "all"):
            mats = set()
        dflt = {"pdos": bool(p.get("pdos_calculate_weights")), **{k: k in mats for k in ("elnes", "ome", "dome")}}
        for name, switch in (("elnes", "calc_core"), ("ome", "calc_ome"), ("pdos", "calc_pdos"), ("dome", "calc_dome")):
            if sub("spectral").get(switch, dflt[name]):
                out.add(f"{seed}{'_tddft' if theory == 'tddft' else ''}.{name}_bin")
    for spec, pot in (c.get("species_pot") or {}).items():
        if isinstance(pot, str):
            continue
        if libs & {"mgga"}:
            fam = "RSCAN"
        elif "gga" in libs:
            fam = "PBE"
        else:
            fam = next((THEORY[x] for x in sorted(xc) if x in THEORY), "LDA")
        stem = f"{spec}_EXT_{fam}_OTF"
        if pot.get("print"):
            out |= {f"{stem}.{e}" for e in ("gamma", "pwave", "beta", "econv")}
        if not mgga and p.get("write_otfg", True):
            out.add(f"{stem}.usp{'so' if spin else ''}")
    return out
