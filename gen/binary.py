"""Fortran sequential unformatted files, and the two binary formats made of them."""
from __future__ import annotations

import struct

from .base import G


def rec(b: bytes) -> bytes:
    m = struct.pack(">I", len(b))
    return m + b + m


def d(g: G):
    return g.choice([0.0, -0.0, 1.0, -1.5, 5e-324, -1.7976931348623157e308, g.r.uniform(-1, 1),
                     g.r.uniform(-1e6, 1e6), g.r.uniform(-1, 1) * 10.0 ** g.ri(-30, 30)])


def i4(g: G):
    return g.choice([0, 1, -1, 2**31 - 1, -2**31, g.ri(-1000, 1000), g.ri(-2**31, 2**31 - 1)])


def typed(g: G):
    """(python type spec, value, payload)."""
    k = g.choice(["int", "float", "str", "bool", "complex", "ints", "floats", "complexes", "bools"])
    n = g.choice([0, 1, 2, 3, 7, 40])
    if k == "int":
        v = i4(g)
        return int, v, struct.pack(">i", v)
    if k == "float":
        v = d(g)
        return float, v, struct.pack(">d", v)
    if k == "str":
        v = g.words(g.ri(1, 4)).ljust(g.choice([0, 20, 60]))
        return str, v, v.encode("ascii")
    if k == "bool":
        v = g.maybe()
        return bool, v, struct.pack(">i", g.choice([1, -1]) if v else 0)
    if k == "complex":
        v = complex(d(g), d(g))
        return complex, v, struct.pack(">dd", v.real, v.imag)
    if k == "ints":
        v = tuple(i4(g) for _ in range(n))
        return (int, ...), v, struct.pack(f">{n}i", *v)
    if k == "bools":
        v = tuple(g.maybe() for _ in range(n))
        return (bool, ...), v, struct.pack(f">{n}i", *map(int, v))
    if k == "floats":
        v = tuple(d(g) for _ in range(n))
        return (float, ...), v, struct.pack(f">{n}d", *v)
    v = tuple(complex(d(g), d(g)) for _ in range(n))
    return (complex, ...), v, b"".join(struct.pack(">dd", c.real, c.imag) for c in v)


def cst_esp(g: G):
    n = [g.ri(2, 6), g.ri(1, 5), g.ri(1, 6)]
    if g.maybe(0.02):
        n[g.ri(0, 2)] = g.choice([17, 140])
    spins = g.choice([1, 1, 2])
    out = [rec(struct.pack(">i", spins)), rec(struct.pack(">3i", *n))]
    exp = {"n_spins": spins, "grid": n}
    for key in ["esp"] + (["mgga"] if g.maybe(0.35) else []):
        pot = []
        for x in range(1, n[0] + 1):
            plane = []
            for y in range(1, n[1] + 1):
                col = [complex(d(g), d(g)) for _ in range(n[2])]
                out.append(rec(struct.pack(">2i", x, y) + b"".join(struct.pack(">dd", c.real, c.imag) for c in col)))
                plane.append(col)
            pot.append(plane)
        exp[key] = pot
    return b"".join(out), exp


def epme_bin(g: G, breakage=None):
    ns, npair, nb = g.choice([1, 1, 2]), g.many(1, 2, 3, big=(12,)), g.many(1, 2, 3, 4, big=(13,))
    atoms = g.atoms(4, tags=g.maybe(0.2))
    lat = [d(g) for _ in range(9)]
    fe, ver = d(g), g.ri(1, 5)
    # FILE_TYPE, version, HEADER marker, spins, fermi energy
    out = [rec(b"EPME"), rec(struct.pack(">i", ver)), rec(b"HEADER"), rec(struct.pack(">i", ns)),
           rec(struct.pack(">d", fe)), rec(b"ATOM"), rec(struct.pack(">i", len(atoms))),
           rec(struct.pack(">9d", *lat))]
    if breakage == "atom marker":
        out[5] = rec(g.choice([b"ATOX", b"ATOMS", b"ATO", b"", b"atom", b"ATOM    "]))
    exp = {"version": ver, "n_spins": ns, "fermi_energy": fe, "n_ions": len(atoms), "real_lattice": lat, "ions": {}}
    for s, i in atoms:
        p = [d(g) for _ in range(3)]
        out += [rec(struct.pack(">i", i)), rec(s.ljust(g.choice([3, 8])).encode()), rec(struct.pack(">3d", *p))]
        exp["ions"][s, i] = p
    out += [rec(g.choice([b"KPOIMT", b"KPOINTS", b"KPOIN", b"", b"EPCOUPLING"]) if breakage == "kpoint marker" else b"KPOINT"), rec(struct.pack(">i", 2 * npair)),
            rec(struct.pack(">i", nb))]
    exp.update(n_kpoint_pairs=npair, n_bands=nb, kpoints={}, phonons=[])
    order = [(s, k) for k in range(1, 2 * npair + 1) for s in range(1, ns + 1)]
    if g.maybe(0.3):
        g.r.shuffle(order)
    for s, k in order:
        mb, ev, vel = g.ri(1, 9), [d(g) for _ in range(nb)], [d(g) for _ in range(3 * nb)]
        out += [rec(struct.pack(">i", v)) for v in (s, k, nb, mb)]
        out += [rec(struct.pack(f">{nb}d", *ev)), rec(struct.pack(f">{3 * nb}d", *vel))]
        exp["kpoints"][s, k] = {"n_bands": nb, "min_band": mb, "eigenvalues": ev, "velocities": vel}
    np2 = npair + (g.choice([1, -1, 3]) if breakage == "pair count" else 0)
    nb2 = (nb + g.choice([1, -1, 4])) ** 2 if breakage == "band count" else nb * nb
    out += [rec(g.choice([b"EPCOUPLIMG", b"EPCOUPLINGS", b"EPC", b"", b"KPOINT"]) if breakage == "coupling marker" else b"EPCOUPLING"), rec(struct.pack(">i", np2)),
            rec(struct.pack(">i", nb2))]
    for q in range(1, npair + 1):
        kp = [g.ri(1, 2 * npair), g.ri(1, 2 * npair)]
        n3 = 3 * len(atoms)
        fr = [d(g) for _ in range(n3)]
        modes = [complex(d(g), d(g)) for _ in range(n3 * n3)]
        me = [complex(d(g), d(g)) for _ in range(n3 * nb * nb * ns)]

        def cb(v):
            return rec(b"".join(struct.pack(">dd", c.real, c.imag) for c in v))
        out += [rec(struct.pack(">i", v)) for v in (q, n3, nb * nb)]
        out += [rec(struct.pack(">2i", *kp)), rec(struct.pack(f">{n3}d", *fr)), cb(modes), cb(me)]
        exp["phonons"].append({"kpts": kp, "frequencies": fr, "modes": modes, "matrix_elements": me})
    return b"".join(out), exp
