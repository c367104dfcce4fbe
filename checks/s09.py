"""S09: parsing ends, reads each line a few times at most, and touches nothing but its input, whatever the input."""
import gc as gc_module
import io
import logging
import os
import re
import resource
import signal
import sys
import time

from gen import castep as gc
from gen import castep_run as gr
from gen import corpus
from gen.base import G
from lib.castepcheck import FULL
from lib.vf import Steps, StepBudget

TEXT = list(corpus.TEXT)
NUM = re.compile(r"([+-]?\d*\.?\d+)(?:[eE][+-]?\d+)?")
READS = 4           # times a line may be read
CPU = 40            # s of CPU for one file of at most a few hundred kB (they take well under one)


class Hang(BaseException):
    """CPU guard."""


class Reader(io.StringIO):
    """Text handle that counts the lines handed out."""

    name = "monitored"

    def __init__(self, text):
        super().__init__(text)
        self.lines = 0
        self.limit = READS * (text.count("\n") + 1) + 100

    def _tick(self, n=1):
        self.lines += n
        if self.lines > self.limit:
            raise StepBudget(f"more than {self.limit} lines read")

    def readline(self, *a):
        self._tick()
        return super().readline(*a)

    def __next__(self):
        self._tick()
        return super().__next__()

    def read(self, *a):
        out = super().read(*a)
        self._tick(out.count("\n") + 1)
        return out

    def readlines(self, *a):
        out = super().readlines(*a)
        self._tick(len(out))
        return out


class ByteReader(io.BytesIO):
    """Binary handle that counts reads and bytes handed out."""

    name = "monitored"

    def __init__(self, raw):
        super().__init__(raw)
        self.reads = self.bytes = 0
        self.limit = 8 * len(raw) + 4096

    def read(self, *a):
        out = super().read(*a)
        self.reads += 1
        self.bytes += len(out)
        if self.reads > self.limit or self.bytes > self.limit:
            raise StepBudget(f"{self.reads} reads of {self.bytes} bytes of a file of {self.getbuffer().nbytes}")
        return out


class Audit:
    """What the interpreter is asked to do outside itself while armed."""

    WATCH = ("os.", "shutil.", "subprocess.", "socket.", "urllib.", "ftplib.", "http.", "smtplib.", "tempfile.", "pty.", "ctypes.dlopen",
             "sqlite3.", "fcntl.", "winreg.", "signal.pthread_kill", "open", "pathlib.", "glob.")

    def __init__(self):
        self.on = False
        self.allowed = ()
        self.seen = []
        sys.addaudithook(self._hook)

    def _hook(self, event, args):
        if not self.on or not event.startswith(self.WATCH):
            return
        if event == "open":
            path, mode, flags = (*args, None, None, None)[:3]
            if path in self.allowed and (mode is None or not set(mode) & set("wax+")) and not (flags or 0) & (os.O_WRONLY | os.O_RDWR):
                return
            if isinstance(path, str) and path.startswith((sys.prefix, sys.base_prefix, os.__file__.rsplit("/", 1)[0])) and "w" not in (mode or "r"):
                return                          # the interpreter's own library
        elif event in ("os.listdir", "os.scandir") and args and isinstance(args[0], str) and \
                args[0].startswith((sys.prefix, sys.base_prefix, os.__file__.rsplit("/", 1)[0])):
            return                              # import system
        self.seen.append((event, repr(args)[:200]))


class Monitor:
    """Runs a parser under all the budgets."""

    #: Package lines executed for a line and for a character of the file (measured: see evidence), with a wide margin.
    PER_LINE, PER_CHAR, FIXED = {"castep": 12000}, 800, 200000

    def __init__(self, ctx):
        self.ctx = ctx
        self.steps = Steps()
        self.audit = Audit()
        self.worst = {}
        signal.signal(signal.SIGVTALRM, self._hang)

    @staticmethod
    def _hang(*_):
        raise Hang

    def budget(self, what, data):
        if isinstance(data, bytes):
            return self.FIXED + self.PER_CHAR * len(data)
        return self.FIXED + self.PER_LINE.get(what.split("-")[0], 800) * (data.count("\n") + 1) + self.PER_CHAR * len(data)

    def run(self, what, func, data, allowed=(), limit=None, **replay):
        """Steps taken, or None after a violation."""
        ctx = self.ctx
        handle = (ByteReader if isinstance(data, bytes) else Reader)(data) if not allowed else None
        replay = {"raw": data.hex()} if isinstance(data, bytes) else {"text": data[:200000]}
        self.audit.allowed = tuple(allowed)
        self.audit.seen.clear()
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU)
        self.audit.on = True
        outcome = "returned"
        bad = None
        try:
            self.steps.run(limit or self.budget(what, data), func, handle if handle is not None else allowed[0])
        except StepBudget as err:
            bad = f"effort out of bounds: {err} ({replay_size(data)})"
        except Hang:
            bad = f"no end after {CPU} s of CPU ({replay_size(data)})"
        except RecursionError:
            bad = "unbounded recursion"
        except MemoryError:
            bad = f"memory exhausted ({replay_size(data)})"
        except (SystemExit, KeyboardInterrupt, GeneratorExit) as err:
            bad = f"{type(err).__name__} instead of a result or an error"
        except Exception as err:  # noqa: BLE001
            outcome = "raised"
            ctx.count(f"raised {type(err).__name__}")
        finally:
            self.audit.on = False
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        ctx.case((what, data), outcome)
        if bad:
            ctx.fail(f"effort-{what}", f"{what}: {bad}", **replay)
            return None
        if self.audit.seen:
            ctx.fail(f"touches-{what}", f"{what}: {self.audit.seen[:3]}", **replay)
            return None
        ratio = self.steps.n / self.budget(what, data)
        if ratio > self.worst.get(what, 0):
            self.worst[what] = round(ratio, 4)
        return self.steps.n


def replay_size(data):
    return f"{len(data)} bytes" if isinstance(data, bytes) else f"{data.count(chr(10))} lines, {len(data)} characters"


# -- corruption ------------------------------------------------------------
TOKENS = ["", "0", "-1", "1", "NaN", "Inf", "-inf", "1e400", "999999999999", "4294967296", "-2147483648", "***********", "1.0E", "E", "--", "\x00", "é",
          "٣", "²", "\ufeff", "True", "None", "[]", "{}", "(((((((((", "))))", "%block", "%endblock", "x" * 300, "1 " * 200, "-" * 200, "=" * 200,
          "+" * 200, "*" * 200, " " * 300, "." * 200, "0" * 300, "\t" * 50, "|" * 100, "__import__('builtins').open('/nonexistent-verif-probe')",
          "END header", "BEGIN header", "begin", "end", "<--", "<-- c", "\r", "\x0b", "\x1c", "\u2028"]


def marks(lines):
    """Lines that look like starts and ends."""
    return [ln for ln in lines if any(c in ln for c in "=*+-%<#") or "nd" in ln or "tart" in ln or not ln.strip()] or lines


def corrupt(g, text, others):
    lines = text.splitlines(True)
    for _ in range(g.choice([1, 1, 2, 3, 6, 20])):
        n = len(lines)
        i = g.ri(0, max(0, n - 1))
        j = min(n, i + g.choice([1, 1, 2, 5, 20, 100]))
        op = g.choice(["delete", "dup", "swap", "move", "splice", "garble", "token", "column", "blank", "cut", "eol", "repeat", "mark", "chars", "number",
                       "join", "tail"])
        if op == "delete":
            del lines[i:j]
        elif op == "dup":
            lines[i:i] = lines[i:j]
        elif op == "repeat":
            lines[i:i] = lines[i:j] * g.ri(2, 30)
        elif op == "swap" and n > 1:
            k = g.ri(0, n - 1)
            lines[i], lines[k] = lines[k], lines[i]
        elif op == "move":
            part, lines[i:j] = lines[i:j], []
            k = g.ri(0, len(lines))
            lines[k:k] = part
        elif op == "splice":
            o = g.choice(others).splitlines(True)
            a = g.ri(0, max(0, len(o) - 1))
            lines[i:i] = o[a:a + g.choice([1, 3, 20, 200])]
        elif op == "mark" and n:
            lines.insert(i, g.choice(marks(lines if g.maybe() else g.choice(others).splitlines(True) or [""])))
        elif op == "garble" and n and lines[i]:
            lines[i] = "".join(g.choice(lines[i] + "0.-*=+ \t:<>|%#!\x00é") for _ in lines[i]) + "\n"
        elif op == "chars" and n and lines[i]:
            ln = list(lines[i])
            for _ in range(g.ri(1, 3)):
                k = g.ri(0, len(ln) - 1)
                ln[k] = g.choice("0 9.-+*=:<>|%#xE\x00\xa0é")
            lines[i] = "".join(ln)
        elif op == "token" and n:
            words = lines[i].split(" ")
            words[g.ri(0, len(words) - 1)] = g.choice(TOKENS)
            lines[i] = " ".join(words)
        elif op == "number" and n:
            words = lines[i].split(" ")
            at = [k for k, w in enumerate(words) if w.strip("+-.").isdigit()]
            if at:
                words[g.choice(at)] = g.choice(["0", "-1", "7", "1000000", "99999999999", "2147483648", "1E-99999999", "1e99999999"])
                lines[i] = " ".join(words)
        elif op == "column":
            a, b = sorted((g.ri(0, 80), g.ri(0, 80)))
            lines[i:j] = [ln[:a] + ln[b:] for ln in lines[i:j]]
        elif op == "blank":
            lines[i:j] = ["\n"] * (j - i)
        elif op == "cut":
            del lines[i:]
        elif op == "tail":
            del lines[:i]
        elif op == "eol" and n:
            e = g.choice(["\r\n", "\r", "", "\n\n", "\x0c", "\u2028", "   \n", "\x00\n"])
            lines[i:j] = [ln.rstrip("\n") + e for ln in lines[i:j]]
        elif op == "join" and n:
            lines[i] = lines[i].rstrip("\n") * g.ri(2, 20) + "\n"
    return "".join(lines)[:600000]


def corrupt_bytes(g, raw):
    b = bytearray(raw)
    for _ in range(g.choice([1, 1, 2, 4])):
        n = max(1, len(b))
        i = g.ri(0, n - 1)
        j = min(len(b), i + g.choice([1, 4, 8, 40, 400]))
        op = g.choice(["delete", "dup", "flip", "word", "cut", "tail", "zero", "ff", "repeat"])
        if op == "delete":
            del b[i:j]
        elif op == "dup":
            b[i:i] = b[i:j]
        elif op == "repeat":
            b[i:i] = b[i:j] * g.ri(2, 30)
        elif op == "flip" and b:
            b[min(i, len(b) - 1)] ^= 1 << g.ri(0, 7)
        elif op == "word":
            i &= ~3
            b[i:i + 4] = g.choice([0, 1, 3, 4, 8, 255, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 1 << 20]).to_bytes(4, "big")
        elif op == "cut":
            del b[i:]
        elif op == "tail":
            del b[:i]
        elif op == "zero":
            b[i:j] = bytes(j - i)
        elif op == "ff":
            b[i:j] = b"\xff" * (j - i)
    return bytes(b)


def runner(ext):
    func = corpus.parser_for(ext)
    if ext == "castep":
        return lambda h: func(h, filters=FULL)

    def run(h):
        out = func(h)
        return list(out) if hasattr(out, "__next__") else out
    return run


def growth(ctx, mon, what, func, make, reps=(1, 4, 12)):
    """Effort for r copies grows no faster than r."""
    got = []
    for r in reps:
        n = mon.run(what, func, make(r))
        if n is None:
            return
        got.append(n)
    ctx.case((what, "growth", got[0]), "growth measured")
    (a, b, c), (x, y, z) = got, reps
    per = max((b - a) / (y - x), a / x, 1.0)
    if c - b > 2 * per * (z - y) + 5000:
        ctx.fail(f"growth-{what}", f"{what}: {got} steps for {reps} copies", text=make(reps[1])[:200000] if isinstance(make(1), str) else "")


def cpu(func, text):
    handle = io.StringIO(text)
    t = time.process_time()
    try:
        func(handle)
    except Exception:  # noqa: BLE001  time to the error counts as well
        pass
    return time.process_time() - t


def cpu_growth(ctx, what, func, make, start=1):
    """CPU time (which also sees what happens within built-in operations) for 4r copies is nowhere near 16 times that for r."""
    r = start
    d = cpu(func, make(r))
    while d < 0.04 and len(make(1)) * r < 1.5e6 and r < 60000:
        r *= 4
        d = cpu(func, make(r))
    ctx.count("CPU time measured")
    ratios = []
    for _ in range(4):                      # measured again, on larger files, before it is believed
        big = cpu(func, make(4 * r))
        ctx.case((what, "cpu", len(ratios), r), "CPU growth")
        if big < 0.5 or big < 9 * d:
            return
        ratios.append(round(big / d, 1))
        r, d = (2 * r, cpu(func, make(2 * r))) if big < 4 else (r, max(cpu(func, make(r)), cpu(func, make(r))))
    ctx.fail(f"cpu-growth-{what}", f"{what}: 4 times the file took {ratios} times the CPU time (last {big:.1f} s)", text=make(min(r, 100))[:200000], copies=r)


def run(ctx):
    ctx.rule = "distinct inputs (corrupted files of all formats, and repeated contents) parsed under line-read, executed-line, CPU and memory budgets"
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    mon = Monitor(ctx)
    g0 = G(ctx.rng("warm"))
    pool = []
    for ext in TEXT:                            # well-formed first (also loads everything that is loaded lazily)
        text = corpus.some(g0, ext).decode()
        try:
            runner(ext)(io.StringIO(text))
        except Exception:  # noqa: BLE001
            ctx.count("warm-up raised")
        pool.append(text[:40000])
        mon.run(ext, runner(ext), text)
    for ext in corpus.BINARY:
        raw = corpus.some(g0, ext)
        runner(ext)(io.BytesIO(raw))
        mon.run(ext, runner(ext), raw)
    # nothing, and next to nothing
    for ext in TEXT:
        for text in ("", "\n", "\n" * 500, " ", "\x00", "\r\n" * 50, "x" * 5000, "1 " * 2000, "a\n" * 500, "END\n", "=" * 3000, "-" * 3000 + "\n",
                     " " * 3000 + "x\n", "0" * 3000, "(" * 3000, "+" * 3000):
            mon.run(ext, runner(ext), text)
            ctx.count("degenerate")
    for ext in corpus.BINARY:
        for raw in (b"", b"\0", b"\0" * 4, b"\0" * 4096, b"\xff" * 4096, b"\0\0\0\x04", b"\x7f\xff\xff\xff" * 64):
            mon.run(ext, runner(ext), raw)
            ctx.count("degenerate")
    # numbers whose exponent runs away (columns run together, garbled digits), on every kind of line
    for k in range(ctx.n(1, 4)):
        for ext in (*TEXT, "castep", "castep"):
            g = G(ctx.rng("exponent", ext, k))
            lines = corpus.some(g, ext).decode().splitlines(True)
            shapes = {re.sub(r"[\d.+-]+", "0", ln): i for i, ln in enumerate(lines[:4000]) if NUM.search(ln)}
            for i in g.sample(list(shapes.values()), min(len(shapes), 40 if ext == "castep" else 12)):
                if not ctx.time_left(45, 120):
                    break
                tail = g.choice(["E-99999999", "E+99999999", "E-0399999999", "e99999999"])
                bad = NUM.sub(lambda m, t=tail: m[1] + t, lines[i])
                ctx.count("runaway exponent")
                mon.run(ext, runner(ext), "".join([*lines[:i], bad, *lines[i + 1:]])[:200000])
    # growth
    for k in range(ctx.n(1, 6)):
        for ext in TEXT:
            if not ctx.time_left(20, 120):
                break
            g = G(ctx.rng("grow", ext, k))
            text = corpus.make(g, ext).decode()
            growth(ctx, mon, f"{ext}", runner(ext), lambda r, t=text: t * r, (1, 4, 12))
            lines = text.splitlines(True)
            i = g.ri(0, len(lines) - 1)
            j = min(len(lines), i + g.choice([1, 2, 10]))
            growth(ctx, mon, f"{ext}", runner(ext),
                   lambda r, ls=lines, i=i, j=j: "".join(ls[:i] + ls[i:j] * (10 * r) + ls[j:]), (1, 4, 12))
        for w in gr.ALL:
            if not ctx.time_left(75, 300):
                break
            g = G(ctx.rng("growsec", w.__name__, k))
            s = gc.Sys(g, nmax=4)
            first, sec = gc.build_info(g, s), w(g, s)
            growth(ctx, mon, f"castep-{sec.name}", runner("castep"), lambda r, a=first.text, b=sec.text: a + b * r)
            lines = sec.text.splitlines(True)       # a longer section
            i = g.ri(0, len(lines) - 1)
            j = min(len(lines), i + g.choice([1, 1, 2, 4]))
            growth(ctx, mon, f"castep-{sec.name}", runner("castep"),
                   lambda r, a=first.text, ls=lines, i=i, j=j: a + "".join(ls[:i] + ls[i:j] * (10 * r) + ls[j:]))
            ctx.count("growth within a section")
    # growth of the time on large files
    gc_module.disable()
    logging.disable(logging.CRITICAL)
    for k in range(ctx.n(1, 3)):
        for ext in TEXT:
            if not ctx.time_left(100, 150):
                break
            g = G(ctx.rng("cpu", ext, k))
            text = corpus.make(g, ext).decode()
            cpu_growth(ctx, ext, runner(ext), lambda r, t=text: t * r)
            lines = text.splitlines(True)
            for i in (0, 1, g.ri(0, len(lines) - 1)) if len(lines) < 60 else (g.ri(0, len(lines) - 1),):
                j = min(len(lines), i + g.choice([1, 2, 10]))
                cpu_growth(ctx, ext, runner(ext), lambda r, ls=lines, i=i, j=j: "".join(ls[:i] + ls[i:j] * r + ls[j:]), 64)
        for w in gr.ALL:
            if not ctx.time_left(150, 330):
                break
            g = G(ctx.rng("cpusec", w.__name__, k))
            s = gc.Sys(g, nmax=4)
            first, sec = gc.build_info(g, s), w(g, s)
            cpu_growth(ctx, f"castep-{sec.name}", runner("castep"), lambda r, a=first.text, b=sec.text: a + b * r, 16)
            lines = sec.text.splitlines(True)
            i = g.ri(0, len(lines) - 1)
            j = min(len(lines), i + g.choice([1, 1, 2, 4]))
            cpu_growth(ctx, f"castep-{sec.name}", runner("castep"), lambda r, a=first.text, ls=lines, i=i, j=j: a + "".join(ls[:i] + ls[i:j] * r + ls[j:]), 64)
            gc_module.collect()
    logging.disable(logging.NOTSET)
    gc_module.enable()
    # corrupted
    k = 0
    while ctx.time_left(200, 760):
        for ext in (*TEXT, "castep", "castep", "castep", "castep"):
            g = G(ctx.rng("corrupt", ext, k, ctx.counts.get("corrupted", 0)))
            if ext == "castep" and g.maybe(0.7):
                _, head, secs = gr.run_secs(g, closed=g.maybe())
                base = "".join(x.text for x in head + secs)
            else:
                base = corpus.some(g, ext).decode()
            base = base[:60000]
            pool[g.ri(0, len(pool) - 1)] = base
            for _ in range(3):
                text = corrupt(g, base, pool)
                ctx.count("corrupted")
                ctx.count(f"corrupted {ext}")
                if g.maybe(0.05):
                    path = ctx.scratch / f"seed.{ext}"
                    path.write_bytes(text.encode("utf-8", "surrogatepass"))
                    mon.run(ext, runner(ext), text, allowed=(str(path),))
                    ctx.count("by path")
                else:
                    mon.run(ext, runner(ext), text)
        for ext in corpus.BINARY:
            g = G(ctx.rng("corrupt", ext, k))
            raw = corpus.some(g, ext)
            for _ in range(4):
                ctx.count("corrupted binary")
                mon.run(ext, runner(ext), corrupt_bytes(g, raw))
        k += 1
        if k >= ctx.n(60, 100000):
            break
    ctx.extra["budget_used_at_most"] = dict(sorted(mon.worst.items(), key=lambda x: -x[1])[:25])
    ctx.need("corrupted", "corrupted binary", "growth measured", "growth within a section", "CPU time measured", "degenerate", "runaway exponent", "returned", "raised", "by path")
