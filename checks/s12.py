"""S12: flatten_dict against an independent path walk."""
import io
import json
from collections import defaultdict

from checks.s03 import jsonable
from checks.s06 import main_inproc
from gen import corpus
from gen.base import G
from lib import vf


def keytext(k):
    """A key as the serialised forms write it: the parts of a tuple key joined."""
    if isinstance(k, (tuple, list)):
        return "_".join(str(y) for x in k for y in (x if isinstance(k[0], tuple) else (x,)))
    return str(k)


def safe_walk(obj, path=()):
    """The leaves of the testing form: tuple keys joined, complex numbers in two parts."""
    if isinstance(obj, dict):
        for k, v in obj.items():
            yield from safe_walk(v, (*path, keytext(k)))
    elif isinstance(obj, (list, tuple)):
        for i, v in enumerate(obj):
            yield from safe_walk(v, (*path, str(i)))
    elif isinstance(obj, complex):
        yield (*path, "real"), obj.real
        yield (*path, "imag"), obj.imag
    else:
        yield path, obj


def value(g, depth, sep):
    k = g.ri(0, 9)
    if depth and k < 3:
        return mapping(g, depth - 1, sep)
    if depth and k < 6:
        seq = [value(g, depth - 1, sep) for _ in range(g.ri(0, 4))]
        return tuple(seq) if g.maybe() else seq
    return g.choice([g.ri(-9, 9), g.mag(), "text", " lead", "trail \n", "", " ", None, True, 0, 0.0, False, complex(1, g.ri(0, 9)), b"x"])


def key(g):
    return g.choice([g.word(), f"{g.word()}{g.ri(0, 9)}", g.ri(0, 12), ("Si", g.ri(1, 9)), None, g.word().upper(),
                     f"{g.word()} {g.word()}", True, 0.5, (("H", 1), ("C", 2))])


def mapping(g, depth, sep):
    out = defaultdict(list) if g.maybe(0.3) else {}
    seen = set()
    for _ in range(g.ri(0, 5)):
        k = key(g)
        if str(k) in seen or sep in str(k):
            continue
        seen.add(str(k))
        out[k] = value(g, depth, sep)
    return out


def walk(obj, path=()):
    if isinstance(obj, dict):
        for k, v in obj.items():
            yield from walk(v, (*path, str(k)))
    elif isinstance(obj, (list, tuple)):
        for i, v in enumerate(obj):
            yield from walk(v, (*path, str(i)))
    else:
        yield path, obj


def same(a, b):
    return a is b or (type(a) is type(b) and (a == b or a != a))


def run(ctx):
    from castep_outputs.utilities.utility import flatten_dict
    ctx.rule = ("random nested results (dicts, defaultdicts, lists, tuples, text/tuple/number/None keys, every leaf type, "
                "depth up to 5) and parsed files of every format, flattened with several separators; distinct by content")
    ctx.need("random", "parsed file", "separator _", "separator other", "leaves", "testing mode", "testing command")

    def testing(raw, ext):
        """``parse_single(testing=True)`` is the flattened form of what the parser returns."""
        from castep_outputs.cli.castep_outputs_main import parse_single
        from castep_outputs.parsers.castep_file_parser import Filters
        path = ctx.scratch / f"t.{ext}"
        path.write_bytes(raw)
        parser = corpus.parser_for(ext)
        base = parser(path, filters=Filters.TESTING) if ext == "castep" else parser(path)
        many = isinstance(base, (list, tuple))
        exp, total = [], 0
        for r in base if many else [base]:
            lv = list(safe_walk(r))
            exp.append({"_".join(p): v for p, v in lv})
            if len(exp[-1]) != len(lv):
                return      # paths are not distinct as text
            total += len(lv)
        rep = {"ext": ext, "raw": raw.hex()}
        for how in (ext, None):
            ok, got = ctx.call("testing mode: raised", parse_single, path, how, testing=True, replay=rep)
            if not ok:
                return
            if many != isinstance(got, (list, tuple)) or (many and len(got) != len(exp)):
                ctx.fail("testing mode: runs", f"{type(got).__name__} of {len(got)}, the parser gave {len(exp)} runs", **rep)
                return
            for e, r in zip(exp, got if many else [got], strict=True):
                r = {str(k): v for k, v in r.items()} if isinstance(r, dict) else r
                d = vf.diff(e, r)
                if d:
                    ctx.fail("testing mode: content", f".{ext}: {d[0]}", **rep)
                    return
        ctx.count("testing mode")
        plainkeys = lambda o: {str(k): v for k, v in o.items()}  # noqa: E731
        rc, out, err = main_inproc(["-t", "-f", "json", f"--{ext}", path.name], ctx.scratch)
        if rc:
            ctx.fail("command in testing mode: failed", f"status {rc}: {err}", **rep)
            return
        doc = json.loads(out)
        d = vf.diff(jsonable(exp if many else exp[0]), [plainkeys(r) for r in doc] if many else plainkeys(doc))
        if d:
            ctx.fail("command in testing mode: content", f".{ext}: {d[0]}", **rep)
        ctx.count("testing command")

    def check(obj, sep, prefix, what):
        before = repr(obj)
        ok, got = ctx.call(f"flatten {what}: raised", flatten_dict, obj, *([prefix] if prefix else []), separator=sep,
                           replay={"data": before, "separator": sep})
        if not ok:
            return
        exp = {}
        for p, v in walk(obj):
            exp[sep.join(((prefix,) if prefix else ()) + p)] = v
        total = sum(1 for _ in walk(obj))
        if len(exp) != total:
            return          # paths are not distinct as text with this separator: nothing is promised
        ctx.count("leaves", total)
        gk = [str(k) for k in got]
        if sorted(gk) != sorted(exp):
            ctx.fail(f"flatten {what}: keys", f"missing {sorted(set(exp) - set(gk))[:5]} unexpected {sorted(set(gk) - set(exp))[:5]}",
                     data=before, separator=sep)
        else:
            for k, v in got.items():
                if not same(v, exp[str(k)]):
                    ctx.fail(f"flatten {what}: value", f"{k!r}: {v!r} expected {exp[str(k)]!r}", data=before, separator=sep)
                    break
        if repr(obj) != before:
            ctx.fail(f"flatten {what}: input changed", "the input was modified", data=before)

    for i in range(ctx.n(12000, 200000)):
        if not ctx.time_left(30, 300):
            break
        g = G(ctx.rng("r", i))
        sep = g.choice(["_", "_", "/", ".", "--", "\x1f", " | "])
        ctx.count("separator _" if sep == "_" else "separator other")
        obj = mapping(g, g.ri(1, 5), sep)
        prefix = g.choice([None, None, "run", "0"])
        ctx.case((repr(obj), sep), "random", repr(obj))
        check(obj, sep, prefix, "random")
    for ext in ("cell", "param"):           # a run that gives nothing is still a run
        testing(b"", ext)
        testing(b"! nothing\n", ext)
    for i in range(ctx.n(12, 200)):
        for ext in corpus.KINDS:
            if not ctx.time_left(60, 560):
                return
            g = G(ctx.rng("f", ext, i))
            raw = corpus.some(g, ext)
            fh = io.BytesIO(raw) if ext in corpus.BINARY else io.StringIO(raw.decode())
            res = corpus.parser_for(ext)(fh)
            for runi in res if isinstance(res, list) else [res]:
                ctx.case((ext, raw), "parsed file")
                for sep in ("\x1f", "_"):
                    check(runi, sep, None, "parsed")
            if i % 3 == 0:
                testing(raw, ext)
