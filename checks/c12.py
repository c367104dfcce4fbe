"""C12: Fortran record navigation, by operation histories against a record-list model."""
import io

from gen import binary
from gen.base import G
from lib import vf


def run(ctx):
    from castep_outputs.bin_parsers.fortran_bin_parser import FortranBinaryReader
    ctx.rule = ("random record files (0-25 records, payloads of 0-640 bytes, contents that look like record markers) and random "
                "histories of next/skip/rewind/get/get_dtype_*/for on BytesIO, buffered and unbuffered files, each step "
                "compared with a list-and-cursor model; distinct by history")
    ctx.need("op next", "op skip", "op rewind", "op get", "op iter", "op dict", "op cycle", "op end", "op for", "long file", "large record op")
    for i in range(ctx.n(6000, 200000)):
        if not ctx.time_left(30, 560):
            break
        g = G(ctx.rng("h", i))
        recs = [binary.typed(g) for _ in range(g.ri(0, 25))]
        if i % 40 == 0:                     # a long file
            recs = (recs or [binary.typed(g)]) * g.ri(60, 400)
            ctx.count("long file")
        raw = b"".join(binary.rec(b) for _, _, b in recs)
        n = len(recs)
        how = g.choice(["bytes", "file", "raw"])
        if how == "bytes":
            fh = io.BytesIO(raw)
        else:
            p = ctx.scratch / "r.bin"
            p.write_bytes(raw)
            fh = p.open("rb", buffering=-1 if how == "file" else 0)
        rd = FortranBinaryReader(fh)
        c, hist = 0, []
        try:
            for _ in range(g.ri(5, 40)):
                op = g.choice(["next", "next", "skip", "rewind", "get", "iter", "dict", "cycle", "end", "for"])
                if op == "next":
                    if c >= n:
                        continue
                    hist.append("next")
                    got, exp, c = next(rd), recs[c][2], c + 1
                elif op == "end":
                    if c < n and g.maybe(0.8):
                        continue
                    hist.append(("to end", n - c))
                    rd.skip(n - c)
                    c = n
                    got, exp = [next(rd, "stop"), next(rd, "stop"), list(rd)], ["stop", "stop", []]
                elif op == "skip":
                    k = g.ri(-c, n - c)
                    hist.append(("skip", k))
                    got, exp, c = rd.skip(k), None, c + k
                elif op == "rewind":
                    k = g.ri(-min(2, n - c), c)
                    if c and g.maybe(0.3):
                        hist.append("rewind")       # one record back, by default
                        got, exp, c = rd.rewind(), None, c - 1
                    else:
                        hist.append(("rewind", k))
                        got, exp, c = rd.rewind(k), None, c - k
                elif op == "get":
                    if c >= n:
                        continue
                    hist.append("get")
                    got, exp, c = rd.get(recs[c][0]), recs[c][1], c + 1
                elif op == "for":
                    if c >= n:
                        continue
                    k = g.ri(1, n - c)
                    hist.append(("for", k))
                    got = []
                    for r in rd:
                        got.append(r)
                        if len(got) == k:
                            break
                    exp, c = [r[2] for r in recs[c:c + k]], c + k
                else:
                    k = g.ri(0 if op == "iter" else 1, min(6, n - c)) if n > c else 0
                    if k == 0 and op != "iter":
                        continue
                    sub = recs[c:c + k]
                    hist.append((op, k))
                    if op == "iter":
                        got, exp = list(rd.get_dtype_iter([t for t, _, _ in sub])), [v for _, v, _ in sub]
                    elif op == "dict":
                        got = rd.get_dtype_dict({f"k{j}": t for j, (t, _, _) in enumerate(sub)})
                        exp = {f"k{j}": v for j, (_, v, _) in enumerate(sub)}
                    elif g.maybe():
                        got = list(rd.get_dtype_cycle(tuple(t for t, _, _ in sub), n=1))
                        exp = [[v for _, v, _ in sub]]
                    else:
                        got = list(rd.get_dtype_cycle({f"k{j}": t for j, (t, _, _) in enumerate(sub)}, n=1))
                        exp = [{f"k{j}": v for j, (_, v, _) in enumerate(sub)}]
                    c += k
                ctx.count(f"op {op}")
                if vf.diff(exp, got):
                    ctx.fail(f"record reader: {op}", f"after {hist[-6:]}: {vf.diff(exp, got)[0]}",
                             history=hist, raw=raw.hex(), how=how)
                    break
        except Exception as err:  # noqa: BLE001
            ctx.fail("record reader: error on a legal move", f"{type(err).__name__}: {err} after {hist[-6:]}",
                     history=hist, raw=raw.hex(), how=how)
        finally:
            fh.close()
        ctx.case((how, raw, hist), f"history on {how}", hist[:12])

    # Records as long as real grids: each length crosses a byte boundary of the record marker.
    big = [0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10005, 0x7fffff, 0x800000, 0xffffff, 0x1000000, 0x1000005]
    for i in range(ctx.n(12, 60)):
        if not ctx.time_left(30, 100):
            break
        g = G(ctx.rng("big", i))
        sizes = [g.ri(0, 40) for _ in range(g.ri(2, 5))]
        for n in g.sample(big, g.ri(2, 4)):
            sizes.insert(g.ri(0, len(sizes)), n)
        recs = [bytes([j + 1]) * n for j, n in enumerate(sizes)]
        p = ctx.scratch / "big.bin"
        with p.open("wb") as fh:
            for r in recs:
                fh.write(binary.rec(r))
        hist, c = [], 0
        with p.open("rb") as fh:
            rd = FortranBinaryReader(fh)
            try:
                for _ in range(12):
                    op = g.choice(["next", "skip", "rewind"])
                    if op == "next":
                        if c >= len(recs):
                            continue
                        hist.append("next")
                        got, exp, c = next(rd), recs[c], c + 1
                        ok = got == exp
                    else:
                        k = g.ri(-c, len(recs) - c)
                        hist.append((op, k))
                        rd.skip(k) if op == "skip" else rd.rewind(-k)
                        c += k
                        exp, got = recs[c] if c < len(recs) else "stop", next(rd, "stop")
                        ok = got == exp
                        c = min(c + 1, len(recs))
                    ctx.count("large record op")
                    if not ok:
                        ctx.fail(f"record reader: {op} over large records",
                                 f"sizes {sizes}, after {hist[-6:]}: expected {len(exp)} bytes, got {len(got)}",
                                 history=hist, sizes=sizes)
                        break
            except Exception as err:  # noqa: BLE001
                ctx.fail("record reader: error on a legal move over large records",
                         f"{type(err).__name__}: {err}; sizes {sizes}, after {hist[-6:]}", history=hist, sizes=sizes)
        p.unlink()
        ctx.case(("big", sizes, hist), "history on large records", [sizes, hist[:12]])
