"""C05: .cell and .param files."""
import io

from gen import cellparam as cp
from gen.base import G


def run(ctx):
    import castep_outputs as co
    ctx.rule = ("random .cell/.param files of 0-10 keywords (integer, real in every notation, rational, logical, text, "
                "path, vector, each with or without unit) and 0-5 of 29 block kinds, each file rendered several times "
                "with different order, letter case, spacing, separators, comments and blank lines; distinct by text")
    ctx.need("renderings", *("block " + b for b in cp.BLOCKS), "valueless keyword", "vector spin", "atom twice in a constraint")
    for i in range(ctx.n(4000, 80000)):
        if not ctx.time_left(30, 560):
            break
        g = G(ctx.rng("file", i))
        its = cp.items(g, blocks=[cp.BLOCKS[i % len(cp.BLOCKS)], *g.sample(cp.BLOCKS, g.ri(0, 3))])
        exp = cp.expected(its)
        for b in its:
            if its[b][0] == "blk":
                ctx.count("block " + b)
            else:
                ctx.count("keywords")
        for k in range(3):
            text = cp.render(G(ctx.rng("render", i, k)), its, noise=k > 0)
            func = (co.parse_cell_file, co.parse_param_file, co.parse_cell_param_file)[k]
            ok, got = ctx.call("cell/param: parse", func, io.StringIO(text), replay={"text": text})
            ctx.case(text, "renderings", text)
            if not ok:
                break
            if len(got) != 1:
                ctx.fail("cell/param: one result per file", f"{len(got)} results", text=text)
                break
            bad = False
            for name in exp:       # one mechanism per kind of item
                kind = "keyword" if its[name][0] == "kw" else "block " + name
                if name not in got[0]:
                    ctx.fail(f"{kind}: missing", f"{name} not returned", text=text)
                    bad = True
                elif not ctx.expect(f"{kind}: value", exp[name], got[0][name], text=text):
                    bad = True
            extra = set(got[0]) - set(exp)
            if extra:
                ctx.fail("cell/param: invented entries", f"{sorted(extra)}", text=text)
                bad = True
            if bad:
                break
    # recorded findings, observed directly
    for name in ("symmetry_generate", "SNAP_TO_SYMMETRY"):
        ctx.count("valueless keyword")
        got = co.parse_cell_file(io.StringIO(f"{name}\nkpoint_mp_grid 1 2 3\n"))[0]
        if name.lower() not in got:
            ctx.fail("valueless-keyword-dropped", f"{name} not returned")
        got.pop(name.lower(), None)
        ctx.expect("valueless keyword: neighbours", {"kpoint_mp_grid": (1, 2, 3)}, got)
    ctx.count("vector spin")
    got = co.parse_cell_file(io.StringIO(
        "%block positions_frac\nFe 0 0 0 Spin = 5/2 1 -3\nFe .5 0 0\n%endblock positions_frac\n"))[0]
    sp = got["positions_frac"][("Fe", 1)].pop("spin", None)
    ctx.expect("vector spin: rest", {"positions_frac": {("Fe", 1): {"pos": (0., 0., 0.)}, ("Fe", 2): {"pos": (.5, 0., 0.)}}}, got)
    if sp == 2.5:
        ctx.fail("vector-spin-only-first-component", "spin 5/2 1 -3 returned as 2.5")
    else:
        ctx.expect("vector spin", (2.5, 1.0, -3.0), sp)
    ctx.count("atom twice in a constraint")
    for k in range(ctx.n(20, 200)):         # a constraint between an atom and an image of it
        g = G(ctx.rng("image", k))
        (sp, i), u = (g.choice(cp.SPECIES), g.ri(1, 9)), [[0, 0, 0], [g.ri(1, 3), g.ri(-3, 3), 0]]
        other = [cp.spec(g, 0), g.ri(10, 19), *(g.ri(-2, 2) for _ in range(3))] if g.maybe() else []
        row = [("bend" if other else "distance"), sp, i, *u[0], *other, sp, i, *u[1]]
        got = co.parse_cell_file(io.StringIO("%block nonlinear_constraints\n" + " ".join(map(str, row)) + "\n%endblock nonlinear_constraints\n"))[0]
        rest = {(other[0], other[1]): tuple(other[2:])} if other else {}
        atoms = got["nonlinear_constraints"][0].pop("atoms", None)
        ctx.case((tuple(row),), "image constraint")
        ctx.expect("image constraint: rest", {"nonlinear_constraints": [{"key": row[0]}]}, got)
        if atoms == {(sp, i): tuple(u[1]), **rest}:
            ctx.fail("nonlinear-constraint-image-lost", f"{row}: {atoms}")
        elif sum(map(len, (atoms,))) < 2:
            ctx.fail("image constraint: atoms", f"{row}: {atoms}")
