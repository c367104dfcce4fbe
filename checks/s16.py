"""S16: the helpers parsers are built with do what they document, whatever they are given."""
import contextlib
import io
import re
from collections import defaultdict
from copy import deepcopy

from gen.base import ELEMENTS, WORDS, G

MARKS = ["#", "!", "//", "/*", "*", ".", "|", "+", "^", "$", "(", "[", "\\", "?", "--", "REM", "c ", ";;", "%", "{"]
BLANKS = ["", " ", "  ", "\t", "   ", " \t "]


def ascii_text(g, n=30):
    alphabet = "abcXYZ019 _-.;:!?,<>()[]{}|\\/#*+^$%&'\"@~`\t" + g.choice(["", "éßñØ"])
    return "".join(g.choice(alphabet) for _ in range(g.ri(0, n)))


def comments(ctx, g):
    from castep_outputs.utilities.filewrapper import Block, FileWrapper
    from castep_outputs.utilities.utility import strip_comments
    marks = g.sample(MARKS, g.ri(1, 4))
    lines = []
    for _ in range(g.many(*range(13), big=(41, 64, 150), p=0.02)):
        k = g.ri(0, 6)
        body = " ".join(g.sample(WORDS, g.ri(0, 3)))
        if k == 0:
            body = g.choice(BLANKS)
        elif k < 3:
            body = g.choice(BLANKS) + g.choice(marks) + body
        elif k < 5:
            body = g.choice(BLANKS) + body + g.choice(BLANKS) + g.choice(marks) + g.choice(["", " ", "x"]) + g.choice([*marks, g.word()])
        else:
            body = g.choice(BLANKS) + body + g.choice(MARKS) + g.word() + g.choice(BLANKS)
        lines.append(body)
    text = "\n".join(lines) + g.choice(["", "\n"])
    inline = g.maybe()
    single = all(len(m) == 1 for m in marks)
    given = "".join(marks) if single and g.maybe(0.6) else g.choice([set, list, tuple, frozenset])(marks)
    if g.maybe(0.15):
        marks, given = ["#", "!"], None
    want = []
    for line in text.split("\n"):
        if inline:
            cut = min((line.find(m) for m in marks if m in line), default=len(line))
            line = line[:cut]
        elif any(line.lstrip().startswith(m) for m in marks):
            continue
        if line.strip():
            want.append(line.rstrip())
    data = io.StringIO(text)
    data.name = "named"
    src = g.choice(["handle", "wrapper", "block"])
    if src != "handle":
        data = FileWrapper(data)
    if src == "block":
        if text == "":
            return
        data = Block.from_iterable(list(io.StringIO(text)), parent=data)
    kw = {} if given is None else {"comment_char": given}
    if inline or g.maybe():
        kw["remove_inline"] = inline
    rep = dict(text=text, marks=marks, given=repr(given), inline=inline, source=src)
    ok, res = ctx.call("comments-raises", lambda: list(strip_comments(data, **kw)), replay=rep)
    ctx.case((text, tuple(marks), inline, src), "comments")
    if ok:
        ctx.expect("comments-inline" if inline else "comments-initial", want, res, **rep)


def keys(ctx, g):
    from castep_outputs.utilities.utility import normalise_key, normalise_string
    t = ascii_text(g)
    ctx.case(t, "keys")
    runs, cur = [], ""
    for ch in t:
        if ch.isalnum():
            cur += ch
        else:
            runs, cur = runs + [cur] * bool(cur), ""
    want = "_".join(runs + [cur] * bool(cur)).lower()
    got = normalise_key(t)
    ctx.expect("key", want, got, text=t)
    ctx.expect("key-again", want, normalise_key(got), text=t)
    words = g.sample(WORDS, g.ri(0, 5))
    sep = [g.choice([" ", "  ", "\t", "\n", " \n\t", "\r\n", "\x0b"]) for _ in range(len(words) + 1)]
    s = (sep[0] if g.maybe() else "") + "".join(w + x for w, x in zip(words, sep[1:]))
    ctx.expect("string", " ".join(words), normalise_string(s), text=s)


def value(g):
    return g.choice([None, None, 0, 1.5, "", "x", [], [None], {}, {"a": None}, False, (1, None)])


def dictionaries(ctx, g):
    from castep_outputs.utilities.utility import add_aliases, filter_underscore, get_only, stack_dict, strip_nones
    names = [*g.sample(WORDS, g.ri(0, 8)), *[f"_{w}" for w in g.sample(WORDS, g.ri(0, 3))], *g.choice([[], ["", "_", "__x", "a_", "a_b"]])]
    names += [f"k{i}" for i in range(g.many(0, big=(33, 41, 101, 300), p=0.02))]
    g.r.shuffle(names)
    src = {k: value(g) for k in names}
    # Nones
    pool = [*names, "absent", "x"]
    kw = {}
    if g.maybe(0.6):
        kw["include"] = g.sample(pool, g.ri(0, len(pool)))
    if g.maybe(0.6):
        kw["exclude"] = g.sample(pool, g.ri(0, len(pool)))
    want = {k: v for k, v in src.items() if v is not None or k in kw.get("exclude", ()) or "include" in kw and k not in kw["include"]}
    d = deepcopy(src)
    form = g.choice([list, tuple, set, lambda x: dict.fromkeys(x).keys(), iter])
    ok, res = ctx.call("nones-raises", strip_nones, d, **{k: form(v) for k, v in kw.items()}, replay=dict(data=repr(src), args=repr(kw)))
    ctx.case(("nones", repr(src), repr(kw)), "dictionaries")
    if ok:
        ctx.expect("nones", list(want.items()), list(d.items()), data=repr(src), args=repr(kw))
    # underscores
    d = deepcopy(src)
    got = filter_underscore(d)
    ctx.expect("underscores", list((k, v) for k, v in src.items() if k[:1] != "_"), list(got.items()), data=repr(src))
    if d != src or got is d:
        ctx.fail("underscores-changes-its-input", repr(src))
    # aliases
    froms = g.sample(pool, g.ri(0, min(4, len(pool))))
    tos = [f"new{i}" if g.maybe(0.8) else g.choice([n for n in names if n not in froms] or ["newest"]) for i in range(len(froms))]
    if len(set(tos)) == len(tos):
        alias = dict(zip(froms, tos))
        replace, inplace = g.maybe(), g.maybe()
        kw = {}
        if replace or g.maybe():
            kw["replace"] = replace
        if not inplace or g.maybe():
            kw["inplace"] = inplace
        d, a = deepcopy(src), dict(alias)
        ok, got = ctx.call("aliases-raises", add_aliases, d, a, **kw, replay=dict(data=repr(src), alias=alias, args=kw))
        want = dict(src)
        for f, t in alias.items():
            if f in src:
                want[t] = src[f]
                if replace:
                    del want[f]
        ctx.case(("alias", repr(src), repr(alias), replace, inplace), "dictionaries")
        if ok:
            rep = dict(data=repr(src), alias=alias, args=kw)
            ctx.expect("aliases", sorted(want.items(), key=lambda x: x[0]), sorted(got.items(), key=lambda x: x[0]), **rep)
            if (got is d) != inplace:
                ctx.fail("aliases-in-place", f"inplace={inplace}, and the result is {'' if got is d else 'not '}the dictionary given", **rep)
            if not inplace and (d != src or list(d) != list(src)):
                ctx.fail("aliases-changes-its-input", repr(d), **rep)
            if a != alias:
                ctx.fail("aliases-changes-the-mapping", repr(a), **rep)
    # stacking
    out, want = defaultdict(list), {}
    for _ in range(g.ri(0, 5)):
        row = {k: g.ri(0, 99) for k in g.sample(WORDS[:5], g.ri(0, 4))}
        stack_dict(out, row)
        for k, v in row.items():
            want.setdefault(k, []).append(v)
    ctx.expect("stack", want, dict(out))
    ctx.count("dictionaries")
    # the only one
    seq = [value(g) for _ in range(g.choice([0, 1, 1, 1, 2, 3]))]
    seq = g.choice([list, tuple, iter])(seq) if g.maybe() else seq
    n = len(seq) if hasattr(seq, "__len__") else None
    try:
        items = list(seq) if n is None else seq
        got = get_only(iter(items) if n is None else seq)
        if len(items) != 1 or got is not items[0]:
            ctx.fail("only-one", f"{got!r} is the only one of {items!r}")
    except ValueError:
        if len(items) == 1:
            ctx.fail("only-one", f"{items!r} has just one")
    ctx.count("sequences of one")


def atoms(ctx, g):
    from castep_outputs.processing.processing import AtomLabel
    from castep_outputs.utilities.castep_res import get_atom_parts
    from castep_outputs.utilities.utility import atreg_to_index
    want = {"species": g.choice(ELEMENTS + ["Uue", "X"])}
    text = want["species"]
    if g.maybe():
        want["tag"] = g.choice(["1", "tag", "T2", "a_b", "0", "Si", "down"])
        text += ":" + want["tag"]
    if g.maybe():
        lab = g.choice(["label", "my label", "1", "a-b", "x:y", "Fe2+", "(1)", ""])
        text += g.choice(BLANKS) + "[" + g.choice(["", " "]) + lab + g.choice(["", "  "]) + "]"
        if lab:
            want["label"] = lab
    ok, got = ctx.call("atom-raises", get_atom_parts, text, replay=dict(text=text))
    ctx.case(text, "atom names")
    if ok:
        ctx.expect("atom-parts", want, {k: v for k, v in got.items() if v}, text=text)
    try:
        lab = AtomLabel.from_str(text)
        ctx.expect("atom-label", want, {k: v for k, v in lab._asdict().items() if v and k != "index"}, text=text)
    except TypeError as err:
        if "index" in str(err):
            ctx.fail("atom-label-has-no-index", f"AtomLabel.from_str({text!r}): {err}", text=text)
        else:
            raise
    # references to atoms
    ind = g.choice([g.ri(0, 9), g.ri(1, 100000)])
    spec = text.strip()
    row = {"spec": spec, "index": g.choice([str(ind), f"  {ind}", f"{ind} "]), "x": "1.5"}
    clear = g.choice([True, False, None])
    d = dict(row)
    kw = {} if clear is None else {"clear": clear}
    got = atreg_to_index(d, **kw)
    ctx.expect("atom-index", (spec, ind), got, row=row)
    ctx.expect("atom-index-left", {"x": "1.5"} if clear is not False else row, d, row=row)
    m = re.match(r"(?P<spec>\S+) +(?P<index>\d+)", f"{want['species']}  {ind} 1.5")
    ctx.expect("atom-index", (want["species"], ind), atreg_to_index(m, **kw), row=row)
    ctx.count("atom references")


def number(g):
    v = g.ri(-999, 999)
    t = g.choice([f"{v}", f"{g.mag():.4f}", f"{g.mag():.3E}", f"{v}.", f"{g.mag():+.2f}", f".{abs(v)}", f"{g.mag():.2e}"])
    return t


def labelled(ctx, g):
    from castep_outputs.utilities.castep_res import get_numbers, labelled_floats
    labels = [f"v{i}" for i in range(g.ri(1, 5))]
    sep, text = g.choice([(None, " "), (r"\s+", "   "), (":", ":"), (r"\s*,\s*", " , "), (r"\s*;", "  ;"), (r"\s*=\s*", " = "), (r"\|", "|")])
    counts, suffix, suf = None, "", ""
    if g.maybe(0.4):
        counts = tuple(g.choice([None, 1, 2, 3, 6]) for _ in range(g.ri(1, len(labels))))
    elif g.maybe(0.4):
        suffix, suf = g.choice([(r"\s*eV", " eV"), (r"\%", "%"), (r"\s+\(A\)", "  (A)")])
    kw = {} if counts is None else {"counts": tuple(str(c) if c and g.maybe(0.3) else c for c in counts)}
    if sep is not None:
        kw["sep"] = sep
    if suffix:
        kw["suffix"] = suffix
    line, want = "", {}
    for i, lab in enumerate(labels):
        cnt = (counts[i] if counts and i < len(counts) else None)
        toks = [number(g) for _ in range(cnt or 1)]
        for t in toks:
            line += text + t + suf
        want[lab] = (bool(cnt), toks)
    rep = dict(labels=labels, args=repr(kw), line=line)
    ok, pat = ctx.call("labelled-raises", labelled_floats, labels, **kw, replay=rep)
    ctx.case(("labelled", line, repr(kw)), "labelled numbers")
    if not ok:
        return
    m = re.fullmatch(pat, line)
    if not m:
        ctx.fail("labelled-no-match", f"{line!r} is not matched with {labels} {kw}", **rep)
        return
    for lab, (many, toks) in want.items():
        got = get_numbers(m[lab]) if many else [m[lab]]
        ctx.expect("labelled", toks, got, **rep)
    # one number too few, or none where one is due
    short = "".join(line.rsplit(toks[-1], 1))
    if re.fullmatch(pat, short) and len(toks[-1]) == 1:
        ctx.fail("labelled-missing-number", f"{short!r} is matched too", **rep)
    if suffix and counts is None:
        with contextlib.suppress(NotImplementedError):
            labelled_floats(labels, counts=(2,), suffix=suffix)
            ctx.fail("labelled-suffix-and-counts", "not refused", **rep)


def tables(ctx, g):
    from castep_outputs.utilities.castep_res import gen_table_re
    content = g.choice([("Heading of it", "Heading of it"), ("-+", "-----"), (r"\d+ rows", "12 rows"), ("", ""), ("[xyz] axis", "y axis"), ("=+", "====")])
    border = g.choice([None, ("x", "x"), (r"\+", "+"), (r"\*+", "***"), (r"\|", "|"), ("[+|]", "|")])
    pre = g.choice([("", ""), (r"\d+\)", "7)"), ("begin", "begin")])
    post = g.choice([("", ""), (r"<-- \w+", "<-- tag"), ("end", "end")])
    whole = g.maybe(0.7)
    if not content[0] and border is None:
        return
    args = [content[0]] + ([border[0]] if border else [])
    kw = {k: v[0] for k, v in (("pre", pre), ("post", post)) if v[0]}
    if not whole or g.maybe():
        kw["whole_line"] = whole
    b = border[1] if border else ""
    parts = [pre[1], b, content[1], b, post[1]] if content[0] else [pre[1], b, post[1]]
    gap = lambda: g.choice(["", " ", "    ", "\t"])     # noqa: E731
    line = gap() + "".join(p + gap() for p in parts if p)
    rep = dict(args=args, kw=kw, line=line)
    ok, pat = ctx.call("table-raises", gen_table_re, *args, **kw, replay=rep)
    ctx.case(("table", line, repr(args), repr(kw)), "tables")
    if not ok:
        return
    if not re.search(pat, line + g.choice(["", "\n"])):
        ctx.fail("table-no-match", f"{line!r} is not matched by {args} {kw}", **rep)
    around = "@@" + line + "@@"
    if bool(re.search(pat, around)) == whole:
        ctx.fail("table-whole-line", f"{around!r} is {'' if whole else 'not '}matched by {args} {kw}", **rep)
    for i, p in enumerate(parts):
        if p and set(p) - set("*-="):           # runs may be split, others are needed
            other = "".join(gap() + ("@" if i == j else q) for j, q in enumerate(parts) if q)
            if re.search(pat, other):
                ctx.fail("table-part-missing", f"{other!r} is matched by {args} {kw}", **rep)
    ctx.count("tables told from others")


def types(ctx, g):
    from castep_outputs.utilities.type_conv import fix_data_types
    src, kinds, want = {}, {}, {}
    for k in g.sample(WORDS, g.ri(0, 8)):
        v = g.ri(-99, 99)
        what = g.ri(0, 6)
        src[k], typ, want[k] = [(str(v), int, v), (f"{v}.25", float, float(f"{v}.25")), (g.choice("TF"), bool, None), (["3", str(v)], float, (3.0, float(v))),
                                ("text", str, "text"), (v, float, v), ({"a": str(v)}, int, {"a": v})][what]
        if what == 2:
            want[k] = src[k] == "T"
        if g.maybe(0.7):
            kinds[k] = typ
        else:
            want[k] = src[k]
    kinds |= {"absent": int} if g.maybe() else {}
    d = deepcopy(src)
    if g.maybe(0.3):
        d = defaultdict(list, d)
    asked = dict(kinds)
    ok, res = ctx.call("types-raises", fix_data_types, d, kinds, replay=dict(data=repr(src), types=repr(kinds)))
    ctx.case(("types", repr(src), repr(kinds)), "typed dictionaries")
    if ok:
        ctx.expect("types", list(want.items()), list(d.items()), data=repr(src), types=repr(kinds))
        if asked != kinds or res is not None:
            ctx.fail("types-side-effect", f"{res!r} {kinds!r}", data=repr(src))


def opening(ctx, g, k):
    from castep_outputs.utilities.utility import file_or_path
    binary = g.maybe(0.4)
    raw = g.choice([b"", b"one\ntwo\n", "\u00fc \u2265\n".encode(), b"a\r\nb\r\n"])
    kw = {} if binary else {"encoding": "utf-8", **({"newline": ""} if g.maybe() else {})}
    seen, fails = [], g.maybe(0.3)

    @file_or_path(mode="rb" if binary else "r", **kw)
    def reader(handle, *args, **named):
        """Text of it."""
        seen.append(handle)
        if fails:
            raise KeyError("within")
        return handle.read(), args, named

    path = ctx.scratch / f"h{k % 7}.txt"
    path.write_bytes(raw)
    text = raw if binary else raw.decode() if "newline" in kw else raw.decode().replace("\r\n", "\n")
    how = g.choice(["path", "string", "handle", "memory"])
    args, named = g.choice([((), {}), ((1, None), {}), ((), {"flag": "x"}), ((2,), {"flag": None, "mode": "r"})])
    handle = path.open("rb" if binary else "r", **kw) if how == "handle" else (io.BytesIO(raw) if binary else io.StringIO(text)) if how == "memory" else None
    rep = dict(how=how, raw=raw.hex(), args=repr((args, named)), fails=fails, opened=repr(kw))
    ctx.case((how, raw, fails, binary, repr(args), repr(named), repr(kw)), "opened for a reader")
    try:
        got = reader({"path": path, "string": str(path)}.get(how, handle), *args, **named)
        if fails:
            ctx.fail("opening-hides-error", "the reader's error is gone", **rep)
        ctx.expect("opening", (text, args, named), got, **rep)
    except KeyError:
        if not fails:
            ctx.fail("opening", "raised", **rep)
    if len(seen) != 1:
        ctx.fail("opening-calls", f"called {len(seen)} times", **rep)
    elif handle is not None:
        if seen[0] is not handle or handle.closed:
            ctx.fail("opening-handle", f"the handle given was {'closed' if handle.closed else 'replaced'}", **rep)
        handle.close()
    elif not seen[0].closed:
        ctx.fail("opening-left-open", "the file is open still", **rep)
    if reader.__name__ != "reader" or reader.__doc__ != "Text of it.":
        ctx.fail("opening-name", f"{reader.__name__} {reader.__doc__!r}", **rep)


def run(ctx):
    ctx.rule = "distinct arguments of each helper, against a direct statement of what it documents"
    for k in range(ctx.n(4000, 40000)):
        if not ctx.time_left(60, 500):
            break
        g = G(ctx.rng("helper", k))
        comments(ctx, g)
        keys(ctx, g)
        dictionaries(ctx, g)
        atoms(ctx, g)
        labelled(ctx, g)
        tables(ctx, g)
        types(ctx, g)
        opening(ctx, g, k)
    ctx.need("comments", "keys", "dictionaries", "sequences of one", "atom names", "atom references", "labelled numbers", "tables",
             "tables told from others", "typed dictionaries", "opened for a reader")
