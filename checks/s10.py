"""S10: FileWrapper and Block against a list-of-lines model, over random operation histories."""
import io
import re

from gen.base import G

START = re.compile(r"^\s*BEGIN")
END = re.compile(r"^\s*END")


def text_for(g):
    n = g.ri(0, 30)
    L = []
    for i in range(n):
        k = g.ri(0, 9)
        if k < 2:
            L.append(f" BEGIN block {i}\n")
        elif k < 4:
            L.append(f"  END block {i}\n")
        elif k == 4:
            L.append(g.choice(["\n", "   \n", "\t\n"]))
        else:
            L.append(f"line {i} {g.word()} \u00e5\n" if g.maybe(0.3) else f"line {i} {g.words(g.ri(1, 8))}\n")
    if L and g.maybe(0.3):
        L[-1] = L[-1].rstrip("\n") or "x"
    return L


class Reader:
    """Model of a cursor over lines; FileWrapper and Block share it."""

    def __init__(self, lines, base, wrapper):
        self.lines, self.base, self.wrapper = lines, base, wrapper
        self.pos = 0           # lines consumed
        self.back = False      # FileWrapper: can go one back

    def __repr__(self):
        return f"pos={self.pos}/{len(self.lines)}"


def run(ctx):
    from castep_outputs.utilities.filewrapper import Block, FileWrapper
    ctx.rule = ("random texts (0-30 lines, block markers, blank and non-ASCII lines, with or without final newline) on "
                "real files and in-memory handles; random histories of next, rewind, line number, block extraction by "
                "marker (n-th end) and by count, nested blocks, indexing and bound removal, each step compared with a "
                "list-of-lines model; distinct by (text, history)")
    ctx.need("steps", "rewind", "block by marker", "block by count", "nested block", "unexpected end reported",
             "block ended by end of file", "n-th end", "real file", "block text", "block from iterable")
    scratch = ctx.scratch / "f.txt"
    for i in range(ctx.n(40000, 900000)):
        if not ctx.time_left(30, 560):
            break
        g = G(ctx.rng("h", i))
        lines = text_for(g)
        text = "".join(lines)
        hist = []
        if g.maybe(0.25):
            ctx.count("real file")
            scratch.write_text(text, encoding="utf-8")
            fh = scratch.open(encoding="utf-8")
            name = str(scratch)
        else:
            fh = io.StringIO(text)
            name = "unknown"
        fw = FileWrapper(fh)
        top = Reader(lines, 0, True)
        stack = [(fw, top)]
        bad = None
        for _ in range(g.ri(1, 60)):
            obj, m = stack[-1]
            ops = ["next", "next", "next", "lineno", "re", "lines", "name"]
            if m.wrapper or m.pos > 0:
                ops += ["rewind"]
            if not m.wrapper:
                ops += ["rewind0", "index", "len", "list", "bool", "drop", "bounds", "text", "copy"]
            op = g.choice(ops)
            ctx.count("steps")
            hist.append(op)
            try:
                bad = step(ctx, g, op, obj, m, stack, hist, Block, name)
            except Exception as err:  # noqa: BLE001
                bad = f"{op} raised {type(err).__name__}: {err}"
            if bad:
                break
        ctx.case((text, tuple(map(str, hist))), "histories", {"text": text[:200], "history": hist[:20]})
        if bad:
            ctx.fail(f"cursor: {hist[-1] if isinstance(hist[-1], str) else hist[-1][0]}", bad,
                     text=text, history=[str(h) for h in hist])
        if not fh.closed:
            fh.close()


def step(ctx, g, op, obj, m, stack, hist, Block, name):
    if op == "next":
        try:
            got = next(obj)
        except StopIteration:
            got = None
        exp = m.lines[m.pos] if m.pos < len(m.lines) else None
        if got != exp:
            return f"next gave {got!r}, expected {exp!r} ({m})"
        if exp is None:
            m.back = False
            if not m.wrapper:       # an exhausted block is left
                stack.pop()
        else:
            m.pos += 1
            m.back = True
        return None if exp is None else lineno(obj, m)
    if op == "lineno":
        return lineno(obj, m)
    if op == "name":
        return None if obj.name == name else f"name is {obj.name!r}, expected {name!r}"
    if op == "rewind":
        obj.rewind()
        ctx.count("rewind")
        if m.wrapper:
            if m.back:
                m.pos -= 1
            m.back = False      # one step only
        else:
            m.pos -= 1
        return lineno(obj, m)
    if op == "rewind0":
        if m.pos:
            return None
        try:
            obj.rewind()
        except ValueError:
            return lineno(obj, m)
        return "rewinding a fully rewound block did not raise ValueError"
    if op == "index":
        if m.lines:
            k = g.ri(-len(m.lines), len(m.lines) - 1)
            if obj[k] != m.lines[k]:
                return f"block[{k}] gave {obj[k]!r}, expected {m.lines[k]!r}"
            a, b = sorted((g.ri(0, len(m.lines)), g.ri(0, len(m.lines))))
            if list(obj[a:b]) != m.lines[a:b]:
                return f"block[{a}:{b}] gave {obj[a:b]!r}"
        return None
    if op == "len":
        return None if len(obj) == len(m.lines) else f"len {len(obj)} expected {len(m.lines)}"
    if op == "list":
        return None if obj.aslist() == m.lines else f"aslist {obj.aslist()!r} expected {m.lines!r}"
    if op == "text":
        ctx.count("block text")
        exp = [ln.removesuffix("\n") for ln in m.lines]
        for way, got in (("str", str(obj)), ("asstringio", obj.asstringio().getvalue())):
            if got.removesuffix("\n").split("\n") != (exp or [""]) and got.split("\n") != exp:
                return f"{way} gave {got!r} for {m.lines!r}"
        got = [ln.removesuffix("\n") for ln in obj.asstringio()]
        if got != exp and got != exp[:-1] + [x for x in exp[-1:] if x]:     # a last empty line has no text
            return f"asstringio reads as {got!r} for {m.lines!r}"
        return None
    if op == "copy":
        ctx.count("block from iterable")
        src = g.choice([list(m.lines), tuple(m.lines), iter(m.lines), (x for x in m.lines),
                        [x.removesuffix("\n") for x in m.lines]])
        exp = src if isinstance(src, list) else m.lines
        got = Block.from_iterable(src, parent=g.choice([None, obj]))
        if got.aslist() != list(exp) or list(got) != list(exp) or len(got) != len(exp):
            return f"from_iterable holds {got.aslist()!r}, expected {list(exp)!r}"
        return None
    if op == "bool":
        exp = any(ln.strip() for ln in m.lines)
        return None if bool(obj) == exp else f"bool {bool(obj)} expected {exp} for {m.lines!r}"
    if op == "drop":
        stack.pop()
        return None
    if op == "bounds":
        n = len(m.lines)
        if m.pos or not n:
            return None
        fore, back = (g.ri(0, 2), g.ri(0, 2)) if n >= 4 and g.maybe(0.8) else (g.ri(0, n), g.ri(0, n))
        if fore + back > n:     # asked for more than there is: nothing is left
            ctx.count("bounds beyond the block")
        hist[-1] = ("bounds", fore, back)
        obj.remove_bounds(fore, back)
        m.lines = m.lines[fore:max(fore, n - back)]
        m.base += fore
        return None if obj.aslist() == m.lines else f"remove_bounds({fore}, {back}) left {obj.aslist()!r}"
    eof = g.maybe(0.4)
    rest = m.lines[m.pos:]
    if op == "lines":
        n = g.ri(0, 6)
        short = len(rest) < n
        hist[-1] = ("lines", n, eof)
        try:
            blk = Block.get_lines(obj, n, eof_possible=eof)
        except OSError:
            if not short or eof:
                return f"get_lines({n}) raised OSError with {len(rest)} lines left (eof_possible={eof})"
            ctx.count("unexpected end reported")
            m.pos, m.back = len(m.lines), False
            if not m.wrapper:
                stack.pop()
            return None
        if short and not eof:
            return f"get_lines({n}) did not report the end of the file ({len(rest)} lines left)"
        exp = rest[:n]
        base = m.base + m.pos
        ctx.count("block by count")
        if short:
            ctx.count("block ended by end of file")
    else:
        # the start line is the one last read
        if not m.pos or (m.wrapper and not m.back):
            return None
        init = m.lines[m.pos - 1]
        n_end = g.choice([1, 1, 1, 2, 3])
        hist[-1] = ("re", n_end, eof)
        # the pattern may be a string or compiled
        st, en = (START, END) if g.maybe() else (START.pattern, END.pattern)
        hit = START.search(init) is not None
        k, found = 0, 0
        for k, ln in enumerate(rest, 1):
            if END.search(ln):
                found += 1
                if found == n_end:
                    break
        short = found < n_end
        try:
            blk = Block.from_re(init, obj, st, en, n_end=n_end, eof_possible=eof)
        except OSError:
            if not hit or not short or eof:
                return f"from_re raised OSError (start matches: {hit}, complete: {not short}, eof_possible={eof})"
            ctx.count("unexpected end reported")
            m.pos, m.back = len(m.lines), False
            if not m.wrapper:
                stack.pop()
            return None
        if not hit:
            if blk or len(blk):
                return f"block of {len(blk)} lines from a line that does not start one: {init!r}"
            return lineno(obj, m)
        if short and not eof:
            return "from_re did not report the end of the file"
        exp = [init, *rest[:k]]
        base = m.base + m.pos - 1
        ctx.count("block by marker")
        if short:
            ctx.count("block ended by end of file")
        if n_end > 1:
            ctx.count("n-th end")
    if blk.aslist() != exp:
        return f"block {hist[-1]} holds {blk.aslist()!r}, expected {exp!r}"
    if len(blk) != len(exp):
        return f"block length {len(blk)}, expected {len(exp)}"
    used = len(exp) if op == "lines" else len(exp) - 1
    if used:
        m.pos += used
        m.back = True
    if short:
        m.back = False
    err = lineno(obj, m) if (m.wrapper or not short) else None
    if err:
        return err
    if not m.wrapper and short:
        stack.pop()
    if not m.wrapper:
        ctx.count("nested block")
    if len(stack) < 4:
        stack.append((blk, Reader(exp, base, False)))
    return None


def lineno(obj, m):
    """The line number reported is that of the line last read."""
    if not m.wrapper and m.pos == 0:
        return None         # nothing read from the block yet
    exp = m.base + m.pos
    if obj.lineno != exp:
        return f"line number {obj.lineno}, expected {exp} ({m})"
    return None
