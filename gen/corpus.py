"""Small realistic files of every format, by extension (bytes)."""
from __future__ import annotations

import functools
from pathlib import Path

from . import binary, cellparam, files, traj

CORPUS = Path(__file__).resolve().parent.parent / "corpus"


@functools.cache
def sample(name):
    return (CORPUS / name).read_bytes()


def samples(ext=None):
    """(name, ext) of the recorded sample files."""
    out = []
    for f in sorted(CORPUS.iterdir()):
        e = f.name.split(".", 1)[1]
        if ext is None or e == ext:
            out.append((f.name, e))
    return out


def castep(g):
    try:
        from . import castep as gc
    except ImportError:
        return sample(g.choice(["pp-md.castep", "si8-md.castep", "test.castep"])).decode()
    return gc.small(g)


def cellparam_text(g, blocks):
    return cellparam.render(g, cellparam.items(g, blocks=g.sample(blocks, g.ri(1, min(4, len(blocks))))))


CELL = [b for b in cellparam.BLOCKS if b not in ("devel_code", "xc_definition")]
TEXT = {
    "castep": castep,
    "cell": lambda g: cellparam_text(g, CELL),
    "param": lambda g: cellparam_text(g, ["devel_code", "xc_definition"]),
    "geom": lambda g: traj.md_file(g, "geom", fixed=g.maybe(), n=g.ri(1, 4))[0],
    "md": lambda g: traj.md_file(g, "md", fixed=g.maybe(), n=g.ri(1, 4))[0],
    "bands": lambda g: files.bands(g)[0],
    "hug": lambda g: files.hug(g)[0],
    "phonon_dos": lambda g: files.phonon_dos(g)[0],
    "efield": lambda g: files.efield(g)[0],
    "xrd_sf": lambda g: files.xrd_sf(g)[0],
    "elf_fmt": lambda g: files.fmt(g, "elf_fmt")[0],
    "chdiff_fmt": lambda g: files.fmt(g, "chdiff_fmt")[0],
    "pot_fmt": lambda g: files.fmt(g, "pot_fmt")[0],
    "den_fmt": lambda g: files.fmt(g, "den_fmt")[0],
    "elastic": lambda g: files.elastic(g)[0],
    "ts": lambda g: traj.ts_file(g)[0],
    "magres": lambda g: files.magres(g)[0],
    "tddft": lambda g: files.tddft(g)[0],
    "err": lambda g: files.err(g)[0],
    "phonon": lambda g: files.phonon(g)[0],
    "epme": lambda g: files.epme(g)[0],
}
BINARY = {
    "cst_esp": lambda g: binary.cst_esp(g)[0],
    "epme_bin": lambda g: binary.epme_bin(g)[0],
}
KINDS = [*TEXT, *BINARY]


def make(g, ext):
    """A generated file of that kind, as bytes."""
    if ext in TEXT:
        return TEXT[ext](g).encode()
    return BINARY[ext](g)


def some(g, ext, recorded=0.2):
    """A generated or (sometimes) recorded file."""
    rec = samples(ext)
    if rec and g.maybe(recorded):
        return sample(g.choice(rec)[0])
    return make(g, ext)


def parser_for(ext):
    from castep_outputs.bin_parsers import PARSERS as B
    from castep_outputs.parsers import PARSERS as P
    return P[ext] if ext in P else B[ext]
