"""S15: log messages can be formatted and point at the file, and the line, they speak of."""
import io
import logging
import os
import re
import subprocess
import sys
from pathlib import Path

from gen import castep_run as gr
from gen import corpus
from gen.base import G
from lib import vf

NAMES = ["plain", "with blank", "50%", "%s", "%d done", "a%", "%(name)s", "[x]", "a:7", "{0}", "ünï", "back\\slash", "%%", "run.1", "-x", "'q'", "100%-s"]
PLACE = re.compile(r"\[(.*?)(?::(\d+))?\] (.*)\Z", re.S)
LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]


class Watch(logging.Handler):
    """Every record, with what has been read of the file by then."""

    def __init__(self, tell=None):
        super().__init__(logging.DEBUG)
        self.seen, self.tell = [], tell

    def emit(self, record):
        self.seen.append((record, self.tell() if self.tell else None))

    def __enter__(self):
        root = logging.getLogger()
        self.old = root.level, root.handlers[:], logging.root.manager.disable
        root.handlers[:] = [self]
        root.setLevel(logging.DEBUG)
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *_):
        root = logging.getLogger()
        root.level, root.handlers[:] = self.old[0], self.old[1]
        root.setLevel(self.old[0])
        logging.disable(self.old[2])


class Counting(io.StringIO):
    """A named text in memory that knows how many lines of it have been read."""

    def __init__(self, text, name):
        super().__init__(text)
        self.name = name
        self.starts, at = {0: 0}, 0
        for n, line in enumerate(io.StringIO(text), 1):
            at += len(line)
            self.starts[at] = n


def messages(ctx, watch, name, rep):
    """(place's line number or None, text, lines read) of every message; formatting is checked on the way."""
    for rec, at in watch.seen:
        ctx.count("log records")
        try:
            text = rec.getMessage()
        except Exception as err:  # noqa: BLE001
            ctx.fail("message-cannot-be-formatted", f"{rec.msg!r} % {rec.args!r}: {err!r}", **rep)
            continue
        if name is not None and text.startswith(f"[{name}"):
            m = re.match(rf"\[{re.escape(name)}(?::(\d+))?\] (.*)\Z", text, re.S)
            if not m:
                ctx.fail("place-malformed", f"{text!r} for the file {name!r}", **rep)
                continue
            ctx.count("messages naming their file")
            yield rec, m[1] and int(m[1]), m[2], at
        elif name is not None and re.match(r"\[[^\]]*:\d+\] |\[unknown", text):
            ctx.fail("message-names-another-file", f"{text!r} for the file {name!r}", **rep)
        else:
            yield rec, None, text, at


def castep_in_memory(ctx, k):
    g = G(ctx.rng("castep", k))
    text = "".join(x.text for _, h, s in (gr.run_secs(g, closed=True) for _ in range(g.choice([1, 1, 2]))) for x in h + s)
    text = "\n" * g.choice([0, 0, 1, 7]) + text
    name = g.choice(NAMES) + ".castep"
    handle = Counting(text, name)
    lines = text.split("\n")
    used = handle
    if g.maybe(0.3):            # a reader that has been wrapped, and read from, by the caller
        from castep_outputs.utilities.filewrapper import FileWrapper
        used = FileWrapper(handle)
        ctx.count("files wrapped by the caller")
    rep = dict(text=text, name=name)
    from castep_outputs.parsers import parse_castep_file
    with Watch(handle.tell) as w:
        try:
            parse_castep_file(used)
        except Exception as err:  # noqa: BLE001 - not for this property to judge
            ctx.count("parses that failed")
            rep["error"] = repr(err)
    ctx.case((name, text), "castep files")
    last = 0
    known = set(lines)
    for rec, n, said, at in messages(ctx, w, name, rep):
        if n is None:
            continue
        read = handle.starts.get(at)
        if not 0 <= n <= len(lines):
            ctx.fail("line-outside-file", f"{n} of {len(lines)}: {said!r}", **rep)
        if read is not None and n > read:
            ctx.fail("line-not-yet-read", f"line {n} is named when {read} have been read: {said!r}", **rep)
        if rec.levelno == logging.DEBUG and said.strip() and said.rstrip("\n") in known:
            ctx.count("messages quoting a line")
            if lines[n - 1] != said.rstrip("\n"):
                ctx.fail("line-number-wrong", f"{said!r} is said to be line {n}, which is {lines[n - 1]!r}", **rep)
            last = n
        elif n < last:
            ctx.fail("line-number-goes-back", f"{said!r} at line {n}, after line {last}", **rep)
        else:
            ctx.count("messages with a line number")


def any_format(ctx, k):
    g = G(ctx.rng("any", k))
    ext = g.choice(corpus.KINDS)
    raw = corpus.make(g, ext)
    if g.maybe(0.3):
        lines = raw.split(b"\n")
        for _ in range(g.ri(1, 3)):
            at = g.ri(0, len(lines) - 1)
            if g.maybe():
                del lines[at:at + g.ri(1, 2)]
            else:
                lines.insert(at, g.choice([b"%s %d", b"100%", lines[at], b"- ? -"]))
            lines = lines or [b""]
        raw = b"\n".join(lines)
    path = ctx.scratch / f"{g.choice(NAMES)}.{ext}"
    path.write_bytes(raw)
    how = g.choice(["path", "string", "handle", "memory"])
    rep = dict(raw=raw.hex(), name=path.name, how=how)
    parser = corpus.parser_for(ext)
    name = str(path)
    with Watch() as w:
        try:
            if how == "handle":
                with path.open("rb" if ext in corpus.BINARY else "r") as fh:
                    parser(fh)
            elif how == "memory":
                name = None
                parser(io.BytesIO(raw) if ext in corpus.BINARY else io.StringIO(raw.decode()))
            else:
                parser(path if how == "path" else str(path))
        except Exception:  # noqa: BLE001 - damaged files may be refused
            ctx.count("parses that failed")
    ctx.case((ext, how, path.name, raw), "files of any format")
    total = raw.count(b"\n") + 1
    for _, n, said, _ in messages(ctx, w, name, rep):
        if n is not None and not 0 <= n <= total:
            ctx.fail("line-outside-file", f"{n} of {total}: {said!r}", **rep)
    path.unlink()


def lazy_reader(ctx, k):
    """A trajectory whose frames do not tile the file is reported, with its name."""
    from castep_outputs.tools.md_geom_parser import MDGeomParser
    g = G(ctx.rng("lazy", k))
    path = ctx.scratch / f"{g.choice(NAMES)}.md"
    path.write_bytes(corpus.make(g, "md") + g.choice([b"", b" extra\n", b"\n\n\n"]))
    with Watch() as w:
        try:
            for _ in MDGeomParser(path):
                pass
        except Exception:  # noqa: BLE001
            ctx.count("parses that failed")
    ctx.case((path.name, path.read_bytes()), "lazy readers")
    list(messages(ctx, w, str(path), dict(raw=path.read_bytes().hex(), name=path.name)))
    path.unlink()


def command(ctx, k):
    """What the command says at each level: whole messages, none below the level asked for, none about a sound file."""
    g = G(ctx.rng("command", k))
    d = ctx.scratch / f"c{k}"
    d.mkdir()
    name = g.choice([n for n in NAMES if not n.startswith("-")])
    text = "".join(x.text for _, h, s in (gr.run_secs(g, closed=True),) for x in h + s)
    (d / f"{name}.castep").write_text(text)
    level = g.choice([*LEVELS, None])
    args = (["-L", level] if g.maybe() else [f"--log={level}"]) if level else []
    env = {**os.environ, "PYTHONPATH": str(vf.REPO), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONIOENCODING": "utf-8"}
    p = subprocess.run([sys.executable, "-m", "castep_outputs", "-f", "print", *args, "--castep", f"{name}.castep"],
                       cwd=d, env=env, capture_output=True, timeout=300, check=False)
    err = p.stderr.decode("utf-8", "replace")
    rep = dict(text=text, name=name, level=level, stderr=err[-2000:])
    ctx.case((name, level, text), "commands", f"{level} {name}")
    if "--- Logging error ---" in err or "Traceback" in err:
        ctx.fail("command-logging-error", err[-600:], **rep)
    if p.returncode:
        ctx.count("commands that failed")
        return
    said = re.findall(r"^([A-Z]+): \[", err, re.M)
    low = LEVELS.index(level or "WARNING")
    for s in said:
        if s in LEVELS and LEVELS.index(s) < low:
            ctx.fail("command-level-ignored", f"{s} message at level {level or 'WARNING'}", **rep)
            break
    if low >= 2 and err.strip():
        ctx.fail("command-not-quiet", f"at level {level or 'WARNING'}: {err[:300]!r}", **rep)
    if low == 0:
        body = [ln for ln in text.split("\n") if ln.strip()]
        if body and not said:
            ctx.fail("command-silent", f"nothing said at level {level}", **rep)
        ctx.count("verbose commands")
    if low < 2:
        ctx.count("messages of commands", len(said))
        for m in re.findall(r"^[A-Z]+: (\[.*?\.castep.*?\]) ", err, re.M):
            if not re.fullmatch(rf"\[{re.escape(name)}\.castep:\d+\]", m):
                ctx.fail("command-place", f"{m!r} for {name}.castep", **rep)
                break


def cursors(ctx, k):
    """A logger on any cursor of a file, however nested, gives the number of the line read last."""
    import fileinput
    from castep_outputs.utilities.filewrapper import Block, FileWrapper
    from castep_outputs.utilities.utility import log_factory
    g = G(ctx.rng("cursor", k))
    lines = [f"line {i} {g.choice(['', '%d', 'x'])}\n" for i in range(1, g.ri(4, 30))]
    text = "".join(lines)
    name = g.choice([*NAMES, None])
    source = io.StringIO(text)
    if name is not None:
        source.name = name
    said = g.choice([("plain", ()), ("%s of %d", ("x", 3)), ("100%% %s", ("y",)), ("50%", ())])
    want = said[0] % said[1] if said[1] else said[0]
    level = g.choice(["debug", "info", "warning", "error", "critical"])
    rep = dict(text=text, name=name, said=said[0], level=level)

    def expect(cursor, place, what):
        with Watch() as w:
            log_factory(cursor)(said[0], *said[1], level=level)
        ctx.case((text, name, said[0], place, what), "messages of cursors")
        if len(w.seen) != 1 or w.seen[0][0].levelname != level.upper():
            ctx.fail("cursor-level", f"{[(r.levelname, r.msg) for r, _ in w.seen]} for one message at {level}", **rep)
            return
        try:
            got = w.seen[0][0].getMessage()
        except Exception as err:  # noqa: BLE001
            ctx.fail("message-cannot-be-formatted", f"{w.seen[0][0].msg!r} % {w.seen[0][0].args!r}: {err!r}", **rep)
            return
        exp = f"[{place}] {want}" if place is not None else want
        if name is None and place is not None:      # what a nameless file is called is not specified
            got, exp = (x.rsplit(":", 1)[-1] for x in (got, exp))
        if got != exp:
            ctx.fail(f"cursor-{what}", f"{got!r} instead of {exp!r}", **rep)

    expect(source, name, "handle")
    cur, what = FileWrapper(source), "wrapper"
    for _ in range(g.ri(1, 3)):
        at = None
        for _ in range(g.ri(1, 3)):
            at = next(cur, None)
            if at is None:
                return
        n = int(at.split()[1])
        if g.maybe(0.2):
            cur.rewind()
            at = next(cur)
        expect(cur, f"{name}:{n}", what)
        if len(lines) - n < 4:
            return
        size = g.ri(3, len(lines) - n)
        if g.maybe():
            cur = Block.get_lines(cur, size, eof_possible=True)
        else:
            first = next(cur, None)
            if first is None:
                return
            cur = Block.from_re(first, cur, "^line", rf"^line {n + size} ", eof_possible=True)
        lines = lines[:n + size] if len(lines) > n + size else lines
        what = "block"
        if g.maybe(0.3) and size > 4 and len(cur) > 4:
            cur.remove_bounds(1, 1)
            lines = lines[:-1]
    if g.maybe(0.3):
        path = ctx.scratch / f"i{k % 5}.txt"
        path.write_text(text)
        with fileinput.FileInput(files=[str(path)]) as f:
            for _ in range(g.ri(1, 4)):
                next(f, None)
            name = str(path)
            expect(f, f"{path}:{f.lineno()}", "fileinput")


def warned(ctx, k):
    """A trajectory without header is warned of, unless only graver things are asked for."""
    g = G(ctx.rng("warned", k))
    d = ctx.scratch / f"w{k}"
    d.mkdir()
    name = g.choice([n for n in NAMES if not n.startswith("-")])
    text = corpus.make(g, "md").decode()
    if "END header" in text:
        text = text.split("END header", 1)[1].lstrip("\n")
    first = next((ln for ln in text.split("\n") if ln.strip()), "")
    if not re.fullmatch(r"\s*\S+\s*", first):
        return
    (d / f"{name}.md").write_text(text)
    level = LEVELS[k % 5]
    env = {**os.environ, "PYTHONPATH": str(vf.REPO), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONIOENCODING": "utf-8"}
    p = subprocess.run([sys.executable, "-m", "castep_outputs", "-L", level, "-f", "print", "--md", f"{name}.md"],
                       cwd=d, env=env, capture_output=True, timeout=300, check=False)
    err = p.stderr.decode("utf-8", "replace")
    ctx.case((name, level, text), "commands on files to be warned of")
    if p.returncode:
        ctx.count("commands that failed")
        return
    rep = dict(text=text, name=name, level=level, stderr=err[-2000:])
    if "--- Logging error ---" in err:
        ctx.fail("command-logging-error", err[-600:], **rep)
    warns = [ln for ln in err.split("\n") if ln.startswith(("WARNING: ", "ERROR: "))]
    if LEVELS.index(level) > 3 and err.strip():
        ctx.fail("command-level-ignored", f"at level {level}: {err[:300]!r}", **rep)
    if LEVELS.index(level) == 3 and any(ln.startswith("WARNING: ") for ln in warns):
        ctx.fail("command-level-ignored", f"at level {level}: {err[:300]!r}", **rep)
    if LEVELS.index(level) <= 2:
        if not warns:
            ctx.fail("command-no-warning", f"no warning of a missing header at level {level}", **rep)
        elif not any(f"{name}.md" in ln for ln in warns):
            ctx.fail("command-place", f"{warns[0]!r} for {name}.md", **rep)


def run(ctx):
    ctx.rule = "distinct (content, name, way of being parsed); every log record of each is formatted and its place compared with the file"
    for k in range(ctx.n(250, 2500)):
        if not ctx.time_left(40, 300):
            break
        castep_in_memory(ctx, k)
    for k in range(ctx.n(500, 5000)):
        if not ctx.time_left(55, 420):
            break
        any_format(ctx, k)
    for k in range(ctx.n(40, 400)):
        lazy_reader(ctx, k)
    for k in range(ctx.n(24, 150)):
        if not ctx.time_left(75, 560):
            break
        command(ctx, k)
    for k in range(ctx.n(1500, 20000)):
        if not ctx.time_left(85, 600):
            break
        cursors(ctx, k)
    for k in range(ctx.n(15, 100)):
        warned(ctx, k)
    ctx.need("messages of cursors", "commands on files to be warned of", "log records", "messages naming their file", "messages quoting a line", "messages with a line number", "files of any format",
             "lazy readers", "commands", "verbose commands", "messages of commands")
