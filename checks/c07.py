"""C07: random operation histories on the lazy trajectory reader against a list model.

The model is the list of frames the writer stated (so the lazy reader is compared with the
truth and, in the same run, with what the eager parser returned).
"""
import gc
import sys

from gen.base import G
from gen import traj
from lib import vf


class Model:
    """What the reader's public cursor must do: next_frame is the next frame or None."""

    def __init__(self, frames):
        self.frames = frames
        self.next = 0

    def after(self, i):
        self.next = i + 1 if i + 1 < len(self.frames) else None


def run(ctx):
    import castep_outputs as co
    from castep_outputs.tools import MDGeomParser
    ctx.rule = ("random histories (up to 60 operations: [i], [-i], [slice], [iterable], get_frame, read_next, "
                "iterate, interleaved iterators, generator send, len, out-of-range) over random fixed-layout "
                "trajectory files; distinct by (file, history)")
    ctx.need("files", "files without a blank line at their end", "missing file", "files with CR LF", "op getitem", "op slice", "op iter", "op send", "op out of range",
             "op read_next", "op list", "op interleave", "eager agreements")
    # a file that is not there: an error, and nothing else
    said = []
    hook, sys.unraisablehook = sys.unraisablehook, said.append
    try:
        for name in ("nothing.md", str(ctx.scratch / "no/such.geom"), str(ctx.scratch)):
            try:
                MDGeomParser(name)
            except OSError:
                ctx.count("missing file")
            else:
                ctx.fail("lazy open of a missing file", f"{name}: no error")
        gc.collect()
    finally:
        sys.unraisablehook = hook
    for x in said:
        ctx.fail("lazy open of a missing file", f"error in {x.object}: {x.exc_value!r}")
    nfiles = ctx.n(400, 10000)
    for i in range(nfiles):
        if not ctx.time_left(35, 500):
            break
        g = G(ctx.rng("file", i))
        kind = g.choice(["md", "geom"])
        n = g.many(1, 2, 3, 4, 5, 7, 9, big=(40, 101, 230))
        if i == 3:
            n = g.choice([1000, 1001, 1024, 1300])      # A run of some length
        text, exp, comment = traj.md_file(g, kind, fixed=True, n=n, nmax=5 if n < 1000 else 1, final_blank=g.maybe(0.85))
        if g.maybe(0.1):
            text = text.rstrip() if g.maybe() else text.rstrip("\n")
        if not text.endswith(("\n\n", " \n")):
            ctx.count("files without a blank line at their end")
        path = ctx.scratch / f"f{i}.{kind}"
        raw = text.encode()
        if g.maybe(0.15):                       # line ends of another system
            raw = raw.replace(b"\n", b"\r\n")
            ctx.count("files with CR LF")
        path.write_bytes(raw)
        ctx.count("files")
        ok, eager = ctx.call("eager parse", co.parse_md_geom_file, str(path), replay={"text": text})
        if ok and ctx.expect("eager frames", exp, eager, text=text):
            ctx.count("eager agreements")
        for h in range(ctx.n(2, 4)):
            history(ctx, G(ctx.rng("hist", i, h)), MDGeomParser, path, exp, comment, text, kind)
        path.unlink()
    gc.collect()


def history(ctx, g, MDGeomParser, path, exp, comment, text, kind):
    n = len(exp)
    log = []
    rep = {"text": text, "history": log}
    ok, p = ctx.call("lazy open", MDGeomParser, g.choice([str(path), path]), replay=rep)
    if not ok:
        return
    m = Model(exp)
    its = []

    def check(what, e, got):
        ctx.count("frames observed")
        d = vf.diff(e, got)
        if d:
            ctx.fail(f"lazy {what}", f"after {log[-6:]}: " + "; ".join(d[:3]), **rep)
            return False
        return True

    if [x.split() for x in str(p.comment).strip().split("\n")] != [x.split() for x in comment.split("\n")]:
        ctx.fail("lazy comment", f"{p.comment!r} != {comment!r}", **rep)
    nops = g.ri(5, 60)
    for _ in range(nops):
        op = g.choice(["get", "get", "neg", "slice", "iterable", "frame", "next", "next", "len", "oob",
                       "full", "inter", "inter", "newit", "send", "cursor", "str"])
        try:
            if op == "get":
                k = g.ri(0, n - 1); log.append(("get", k)); ctx.count("op getitem")
                if not check("getitem", exp[k], p[k]):
                    return
                m.after(k)
            elif op == "neg":
                k = -g.ri(1, n); log.append(("get", k)); ctx.count("op getitem")
                if not check("negative index", exp[k], p[k]):
                    return
                m.after(k + n)
            elif op == "frame":
                k = g.ri(-n, n - 1); log.append(("get_frame", k)); ctx.count("op getitem")
                if not check("get_frame", exp[k], p.get_frame(k)):
                    return
                m.after(k % n)
            elif op == "slice":
                b = lambda: g.choice([None, g.ri(-n - 2, n + 2)])  # noqa: E731
                sl = slice(b(), b(), g.choice([None, 1, 2, -1, -2, 3])); log.append(("slice", str(sl)))
                ctx.count("op slice")
                if not check("slice", exp[sl], p[sl]):
                    return
                idx = range(n)[sl]
                if len(idx):
                    m.after(idx[-1])
            elif op == "iterable":
                ks = [g.ri(-n, n - 1) for _ in range(g.ri(0, 4))]; log.append(("iterable", ks))
                ctx.count("op slice")
                if not check("iterable", [exp[k] for k in ks], p[ks]):
                    return
                if ks:
                    m.after(ks[-1] % n)
            elif op == "next":
                log.append(("read_next", m.next)); ctx.count("op read_next")
                if m.next is None:
                    # at the end: StopIteration, and later accesses still work
                    try:
                        got = p.read_next()
                    except StopIteration:
                        ctx.count("op read_next at end")
                    else:
                        ctx.fail("lazy read past end", f"returned {vf.short(got)}", **rep)
                        return
                else:
                    k = m.next
                    if not check("read_next", exp[k], p.read_next()):
                        return
                    m.after(k)
            elif op == "len":
                log.append("len")
                if len(p) != n:
                    ctx.fail("lazy len", f"len {len(p)} != {n}", **rep)
                    return
            elif op == "oob":
                k = g.choice([n, n + 1, n + 7, -n - 1, -n - 5]); log.append(("get", k))
                ctx.count("op out of range")
                try:
                    got = p[k]
                except IndexError:
                    pass
                else:
                    ctx.fail("lazy out of range accepted", f"[{k}] of {n} gave {vf.short(got)}", **rep)
                    return
            elif op == "full":
                log.append("list"); ctx.count("op list")
                if not check("iteration", exp, list(p)):
                    return
                m.after(n - 1)
            elif op == "newit":
                log.append("iter"); ctx.count("op iter")
                its.append([iter(p), 0])
                its = its[-3:]
            elif op == "inter" and its:
                it = g.choice(its); ctx.count("op interleave")
                log.append(("next(iter)", it[1]))
                if it[1] >= n:
                    if next(it[0], "end") != "end":
                        ctx.fail("lazy iterator too long", "yielded after last frame", **rep)
                        return
                    its.remove(it)
                else:
                    if not check("iterator", exp[it[1]], next(it[0])):
                        return
                    m.after(it[1])
                    it[1] += 1
            elif op == "send" and its:
                it = g.choice(its)
                if it[1] == 0:
                    continue        # generator not started yet
                if it[1] >= n:
                    pass
                k = g.ri(0, n - 1); log.append(("send", k)); ctx.count("op send")
                if not check("send", exp[k], it[0].send(k)):
                    return
                m.after(k)
                it[1] = k + 1
            elif op == "cursor":
                if p.next_frame != m.next:
                    ctx.fail("lazy next_frame", f"{p.next_frame} != {m.next}", **rep)
                    return
                ctx.count("cursor compared")
            elif op == "str":
                str(p)
        except Exception as err:  # noqa: BLE001
            import traceback
            ctx.fail(f"lazy {op} raised", f"{type(err).__name__}: {err} after {log[-6:]}",
                     traceback=traceback.format_exc()[-2000:], **rep)
            return
    ctx.case((text, tuple(map(str, log))), "history", {"history": log[:12], "frames": n})
