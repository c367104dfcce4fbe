"""S04: dumps in every format, read back by an independent loader and compared."""
import ast
import io
import json
import re
from collections import defaultdict

from checks.s03 import jsonable, memory
from gen import corpus
from gen.base import G
from lib import vf

ATOM = re.compile(r"""'(?:\\.|[^'\\])*'|"(?:\\.|[^"\\])*"|defaultdict\(<(?:[^<>]|<[^<>]*>)*>,\s*""")


def read_python(text):
    """Read printed Python data: literals, once the wrappers of default dictionaries are taken off."""
    out, depth_marks, pos = [], [], 0
    # drop "defaultdict(<...>, " and the bracket that closes it, leaving string literals alone
    depth = 0
    i = 0
    while i < len(text):
        m = ATOM.match(text, i)
        if m:
            if m.group().startswith("defaultdict("):
                depth += 1
                depth_marks.append(depth)
            else:
                out.append(m.group())
            i = m.end()
            continue
        c = text[i]
        if c == "(":
            depth += 1
        elif c == ")":
            if depth_marks and depth_marks[-1] == depth:
                depth_marks.pop()
                depth -= 1
                i += 1
                continue
            depth -= 1
        out.append(c)
        i += 1
    return ast.literal_eval("".join(out))


def strict_json(text):
    def no_dups(pairs):
        d = {}
        for k, v in pairs:
            if k in d:
                raise ValueError(f"key {k!r} appears twice in one JSON object")
            d[k] = v
        return d

    def bad(x):
        raise ValueError(f"{x} is not JSON")
    return json.loads(text, object_pairs_hook=no_dups, parse_constant=bad)


def loaders():
    import yaml
    from ruamel import yaml as ruamel

    def rload(text):
        return ruamel.YAML(typ="unsafe").load(text)
    # "yaml" is whichever engine is available
    return {"json": strict_json, "pyyaml": yaml.unsafe_load, "ruamel": rload, "yaml": rload,
            "print": read_python, "pprint": read_python}


def result_like(g):
    """Nested data of the shape parsers return, with hostile text and keys."""
    texts = ["", " ", "null", "true", "no", "1", "1.0", "1e3", "1_000", "0x10", "a: b", "- x", "# c", "'q'", '"dq"', "a\nb", "tab\t", "\u00e9\u00c5",
             "{", "[1, 2]", "~", "!!python/tuple", "2020-01-01", "12:30:00", "<class 'x'>", "defaultdict(<class 'list'>, {})", "\\", "%x", "@", "*", "&a",
             "trailing ", " leading", "=", "<<", "on", "N/A", "(", ")", ": ", "a #b", "\u2028", "1/2"]

    def leaf():
        return g.choice([g.ri(-10 ** 6, 10 ** 6), g.mag(-8, 8), g.e().v, g.choice(texts), None, True, False, complex(g.mag(), g.mag()),
                         10 ** 20, 1e22, -0.0, 1e-7, 123456789.123456789, g.choice(texts)])

    def key():
        return g.choice([g.word(), g.choice(texts), ("Si", g.ri(1, 20)), (("H", g.ri(1, 9)), ("C", g.ri(1, 9))), g.ri(0, 30), None, (g.word(), g.word()),
                         ("H:tag", g.ri(1, 9)), ("H [a b]", 1)])

    def node(depth):
        k = g.ri(0, 5)
        if depth == 0 or k == 0:
            return leaf()
        if k < 4:
            d = defaultdict(list) if g.maybe(0.3) else {}
            seen = set()
            for _ in range(g.ri(0, 5)):
                kk = key()
                if (t := "null" if kk is None else flat(kk)) in seen:
                    continue
                seen.add(t)
                d[kk] = node(depth - 1)
            return d
        seq = [node(depth - 1) for _ in range(g.ri(0, 4))]
        return tuple(seq) if g.maybe() else seq
    top = {g.word(): node(g.ri(1, 4)) for _ in range(g.ri(1, 4))}
    return [top]


def flat(k):
    return "_".join(flat(x) for x in k) if isinstance(k, tuple) else str(k)


def run(ctx):
    from castep_outputs.cli import castep_outputs_main as main
    from castep_outputs.utilities.dumpers import get_dumpers
    ctx.rule = ("parsed files of every format, and random nested data of the shape parsers return with hostile text and keys, "
                "written through parse_all in each of the 6 output formats and read back by an independent strict loader; "
                "distinct by (content, output format)")
    ctx.need(*(f"{f} dump" for f in loaders()), "synthetic", "complex numbers", "tuple keys", "unknown format refused")
    load = loaders()

    def check(data, text, fmt, what, **rep):
        try:
            got = load[fmt](text)
        except Exception as err:  # noqa: BLE001
            ctx.fail(f"{fmt}: {what}: not readable", f"{type(err).__name__}: {err}", dump=text[:5000], **rep)
            return
        ctx.count(f"{fmt} dump")
        exp = jsonable(data) if fmt == "json" else data
        ctx.expect(f"{fmt}: {what}: data", exp, got, dump=text[:5000], **rep)

    def seen(data):
        for p, v in vf.leaves(data):
            if isinstance(v, complex):
                ctx.count("complex numbers")
            if any(isinstance(k, tuple) for k in p):
                ctx.count("tuple keys")

    # data of the same shape through the whole of parse_all: the parser is ours
    for i in range(ctx.n(150, 3000)):
        if not ctx.time_left(25, 250):
            break
        data = result_like(G(ctx.rng("syn", i)))
        seen(data)
        for fmt in load:
            name = f"verif_{i}"
            parser = lambda f, data=data: data  # noqa: E731
            buf = io.StringIO()
            ctx.case((repr(data), fmt), "synthetic", repr(data))
            before = repr(data)
            ok, out = ctx.call(f"{fmt}: synthetic: conversion", main.parse_single, name, parser, fmt, replay={"data": repr(data)})
            if not ok:
                continue
            ok, _ = ctx.call(f"{fmt}: synthetic: dump", get_dumpers(fmt), out, buf, replay={"data": repr(data)})
            if ok:
                check(data, buf.getvalue(), fmt, "synthetic", repr=repr(data))
            if repr(data) != before:
                ctx.fail(f"{fmt}: parsed data changed by dumping", "parsed data were modified", data=before)
    for i in range(ctx.n(6, 200)):
        for ext in corpus.KINDS:
            if not ctx.time_left(60, 560):
                break
            g = G(ctx.rng(ext, i))
            raw = corpus.some(g, ext, 0.15)
            path = ctx.scratch / f"seed.{ext}"
            path.write_bytes(raw)
            data = corpus.parser_for(ext)(memory(ext, raw))
            seen(data)
            for fmt in load:
                if fmt in ("pyyaml", "ruamel", "yaml") and len(raw) > 20000 and ctx.quick and i:
                    continue
                ctx.case((raw, fmt), "parsed files")
                buf = io.StringIO()
                ok, _ = ctx.call(f"{fmt}: {ext}: dump", main.parse_all, buf, fmt, replay={"raw": raw.hex()}, **{ext: [path]})
                if ok:
                    check(data, buf.getvalue(), fmt, ext, raw=raw.hex())
    for fmt in ("xml", "", "JSON", "jsonl"):
        try:
            get_dumpers(fmt)
        except ValueError:
            ctx.count("unknown format refused")
        else:
            ctx.fail("unknown output format accepted", fmt)
