""".md / .geom / .ts writers."""
from __future__ import annotations

from .base import G, vals

ALIAS = {"E": "energy", "T": "temperature", "P": "pressure", "h": "lattice_vectors",
         "hv": "lattice_velocity", "S": "stress", "R": "position", "V": "velocity", "F": "force"}


def alias(d):
    for k, v in list(d.items()):
        if k in ALIAS:
            d[ALIAS[k]] = v
    return d


def header(g: G, style):
    if style == "none":
        return "", ""
    comment = g.words(g.ri(1, 5)) if g.maybe(0.7) else ""
    if comment and g.maybe(0.08):
        comment += " " + g.choice(["\u00c5ngstr\u00f6m", "\u0414\u041d\u041a", "\u78b3"])
    more = [g.words(g.ri(1, 4)) for _ in range(g.ri(1, 3))] if comment and g.maybe(0.15) else []
    lines = [" BEGIN header", "  " + comment, *("  " + x for x in more), " END header"]
    if style == "blank":
        lines.append("  ")
    return "\n".join(lines) + "\n", "\n".join([comment, *more])


def frames(g: G, kind="md", n=None, fixed=True, nmax=6, wide=False):
    """Frames as (list of lines without the blank separator, expected dict)."""
    n = n or g.many(1, 2, 3, 4, 6)
    atoms = g.atoms(nmax, tags=g.maybe(0.3))
    if wide:
        atoms = [(s, k + g.choice([0, 0, 998])) for s, k in atoms]
    ne = g.choice([2, 3])
    opt = {"T": g.maybe(0.7), "P": g.maybe(0.5), "h": g.maybe(0.9), "hv": g.maybe(0.4),
           "S": g.maybe(0.5), "V": g.maybe(0.7), "F": g.maybe(0.85), "R": True}
    if kind == "geom":
        opt["T"] = opt["P"] = opt["hv"] = opt["V"] = False
    blk = " " * 18

    def one(step):
        if not fixed:
            for k in opt:
                if k not in "R" and g.maybe(0.15):
                    opt[k] = not opt[k]
        lines, exp = [], {}
        if kind == "geom" and g_style == "int":
            t = g.i(0, 9999, 20)
            lines.append(f"{t}" + " " * 40)
            exp["time"] = float(t.v)
        else:
            t = g.e(lo=-1, hi=4)
            lines.append(blk + t)
            exp["time"] = t.v

        def row(tag, toks):
            lines.append(blk + "".join("  " + x for x in toks) + "  <-- " + tag)
            exp.setdefault(tag, []).append(vals(toks))

        row("E", g.evec(ne))
        for tag, k in (("T", 1), ("P", 1)):
            if opt[tag]:
                row(tag, g.evec(k))
        for tag in ("h", "hv", "S"):
            if opt[tag]:
                zero = tag == "hv" and g.maybe(0.3)     # A cell at rest
                for _ in range(3):
                    row(tag, [g.e(lo=0, hi=0, zero=1) for _ in range(3)] if zero else g.evec(3))
        ions = {}
        for tag in ("R", "V", "F"):
            if opt[tag]:
                for s, k in atoms:
                    toks = g.evec(3)
                    lines.append(f" {s:<8s}{k:8d}" + "".join("  " + x for x in toks) + "  <-- " + tag)
                    ions.setdefault((s, k), {})[tag] = vals(toks)
        exp["ions"] = {a: alias(d) for a, d in ions.items()}
        return lines, alias(exp)

    g_style = g.choice(["int", "e"])
    out = []
    for i in range(n):          # A stuck step repeats the record before it word for word
        out.append(out[-1] if out and g.maybe(0.06) else one(i))
    return out


def md_file(g: G, kind="md", *, fixed=True, n=None, head=None, nmax=6, final_blank=True):
    """Whole file: (text, expected list, comment)."""
    head = head or g.choice(["blank", "blank", "noblank", "none"])
    htxt, comment = header(g, head)
    fr = frames(g, kind, n, fixed, nmax)
    sep = g.choice(["", "  ", "  ", " "])
    body = ""
    for i, (lines, _) in enumerate(fr):
        body += "\n".join(lines) + "\n"
        if i < len(fr) - 1 or final_blank:
            body += sep + "\n"
    return htxt + body, [e for _, e in fr], comment


TS = {"REA": "reagent", "PRO": "product", "TST": "test"}


def ts_file(g: G):
    atoms = g.atoms(6, tags=g.maybe(0.3))
    lines, exp = [], {}
    late = False
    if g.maybe(0.7):
        if not (late := g.maybe(0.15)):
            lines.append(" TSTYPE TSConfirmation")
        exp["confirmation"] = True
    else:
        lines.append(" TSTYPE " + g.choice(["LSTMaximum", "Halgren-Lipscomb", "LST/QST"]))
    kinds = ["REA", "PRO"] + ["TST"] * g.many(0, 1, 2, 3, 5, 12)
    late = late and g.ri(1, len(kinds) - 1)
    for n, k in enumerate(kinds):
        if late and n == late:
            lines += [" TSTYPE TSConfirmation", ""]
        if k == "TST" and g.maybe(0.15):  # The same record again
            same, k, cur = mark
            lines += same
            exp[TS[k]].append(cur)
            continue
        start = len(lines)
        t = g.e(18, 8, -3, 0, signed=g.maybe(0.2))
        lines.append(f" {k}{g.ri(1, 120):5d} {t}")
        cur = {"reaction_coordinate": t.v}

        def row(tag, toks):
            lines.append(" " * 10 + "".join(toks) + " " * g.choice([2, 24]) + "<-- " + tag)
            cur.setdefault(tag, []).append(vals(toks))
        row("E", g.evec(2, width=22, dec=8))
        if g.maybe(0.8):
            for _ in range(3):
                row("h", g.evec(3, width=22, dec=8))
        for tag in ("R", "V", "F"):
            if tag == "V" and g.maybe(0.7):
                continue
            for s, i in atoms:
                toks = g.evec(3, width=22, dec=8)
                lines.append(f" {s:<8s}{i:4d}" + "".join(toks) + "  <-- " + tag)
                cur.setdefault((s, i), {})[tag] = vals(toks)
        for key, v in list(cur.items()):
            if isinstance(key, tuple):
                alias(v)
        alias(cur)
        exp.setdefault(TS[k], []).append(cur)
        lines.append("")
        mark = lines[start:], k, cur
    if g.maybe(0.4):
        lines.pop()
    return "\n".join(lines) + "\n", exp
