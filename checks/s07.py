"""S07: parsing is a pure function of the file."""
import copy
import io
import json
import logging
import multiprocessing
import multiprocessing.pool
import os
import pickle
import subprocess
import sys
import threading
import types
from pathlib import Path

from gen import castep as gc
from gen import castep_run as gr
from gen import cellparam
from gen import corpus
from gen.base import G
from lib import vf
from lib.purity import canon, digest, outcome, how_much

HIST = "history"
EMBEDDED = ("bands", "hug", "phonon_dos", "efield", "xrd_sf", "elf_fmt", "chdiff_fmt", "pot_fmt", "den_fmt", "elastic")


def workload(ctx, n):
    """Files of every format: {name: bytes}."""
    out = {}
    for ext in corpus.KINDS:
        for k in range(n):
            g = G(ctx.rng("file", ext, k))
            raw = corpus.some(g, ext)
            if ext == "castep" and g.maybe(0.85):
                raw = "".join(x.text for _, h, s in (gr.run_secs(g, closed=True) for _ in range(g.choice([1, 1, 2]))) for x in h + s).encode()
            out[f"f{k}.{ext}"] = raw
            if g.maybe(0.4):                    # a damaged one: it must not disturb others
                lines = raw.split(b"\n")
                out[f"cut{k}.{ext}"] = b"\n".join(lines[:g.ri(0, len(lines))]) + b"\n"
    # many small ones of the formats with the most optional parts: what one has, another lacks
    for ext, m in (("cell", 30), ("param", 15), ("phonon", 8), ("magres", 8), ("efield", 6), ("md", 6), ("ts", 5), ("tddft", 5),
                   ("elastic", 5), ("err", 5), ("bands", 5), ("epme", 4), ("xrd_sf", 4)):
        for k in range(m * max(1, n // 3)):
            g = G(ctx.rng("small", ext, k))
            out[f"s{k}.{ext}"] = corpus.make(g, ext)
    # the same kind of block, or section, several times over: what one states, the next may leave out
    for b in cellparam.BLOCKS:
        for k in range(4):
            g = G(ctx.rng("block", b, k))
            ext = "param" if b in ("devel_code", "xc_definition") else "cell"
            out[f"g-{b}-{k}.{ext}"] = corpus.cellparam_text(g, [b]).encode()
    for w in gr.ALL:
        for k in range(3):
            g = G(ctx.rng("one section", w.__name__, k))
            out[f"g-{w.__name__}-{k}.castep"] = w(g, gc.Sys(g, nmax=2)).text.encode()
    for ext in EMBEDDED:                        # copies of other files, twice each, next to each other and not
        for k in range(2):
            g = G(ctx.rng("embedded", ext, k))
            raws = [(e, corpus.some(g, e).decode()) for e in [ext, *g.sample(EMBEDDED, g.choice([0, 1, 3]))]]
            out[f"e-{ext}-{k}.castep"] = (gc.build_info(g, gc.Sys(g, nmax=2)).text + "".join(
                f"<BEGIN {e}>\n{r.rstrip(chr(10))}\n<END {e}>\n" for e, r in raws)).encode()
    for ext in corpus.KINDS:                    # characters outside ASCII: in comments, headers, titles, messages
        if ext in corpus.BINARY:
            continue
        g = G(ctx.rng("letters", ext))
        word = g.choice(["\u00c5ngstr\u00f6m", "caf\u00e9", "\u0414\u041d\u041a", "\u78b3", "\U0001d6c2-Fe"])
        lines = corpus.make(g, ext).decode().splitlines(True)
        if ext in ("cell", "param"):
            lines.insert(g.ri(0, len(lines)), f"# {word}\n")
        elif ext == "err":
            lines = [ln.replace("Error", f"Error ({word})") if "Error" in ln else ln for ln in lines] + [f" {word}\n"]
        else:
            k = next((i for i, ln in enumerate(lines) if "BEGIN header" in ln), len(lines) - 1)
            lines.insert(k + 1, f" {word}\n")
        out[f"u0.{ext}"] = "".join(lines).encode()
    g = G(ctx.rng("letters"))
    out["u1.castep"] = (gc.build_info(g, gc.Sys(g, nmax=2)).text + " Warning: Fe\u00e9 \u2192 Fe\u00e9\n\n").encode()
    out["u1.param"] = "task : SinglePoint\ncomment : Caf\u00e9 \u0414\u041d\u041a\n".encode()
    for k in range(8 * n):
        out[f"s{k}.castep"] = "".join(x.text for x in gr.small_run(G(ctx.rng("section", k)))[1]).encode()
    return out


def shared_state():
    """Canonical form of everything mutable that the modules of the package hold."""
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if name.split(".")[0] != "castep_outputs" or mod is None:
            continue
        for key, val in sorted(vars(mod).items()):
            if key.startswith("__") and key != "__all__":
                continue
            if isinstance(val, (dict, list, set, bytearray)) or type(val).__name__ in ("defaultdict", "deque", "OrderedDict"):
                out[f"{name}.{key}"] = _state(val)
            elif isinstance(val, types.FunctionType):
                for i, d in enumerate(val.__defaults__ or ()):
                    if isinstance(d, (dict, list, set)):
                        out[f"{name}.{key}.default{i}"] = _state(d)
                for k, d in (val.__kwdefaults__ or {}).items():
                    if isinstance(d, (dict, list, set)):
                        out[f"{name}.{key}.default {k}"] = _state(d)
                for k, d in vars(val).items():
                    if isinstance(d, (dict, list, set)) and k != "__wrapped__":
                        out[f"{name}.{key}.attribute {k}"] = _state(d)
            elif isinstance(val, type) and val.__module__.startswith("castep_outputs"):
                for k, d in vars(val).items():
                    if isinstance(d, (dict, list, set)) and not k.startswith("_"):
                        out[f"{name}.{key}.{k}"] = _state(d)
    return out


def _state(x):
    if isinstance(x, dict):
        return "{" + ",".join(f"{_state(k)}:{_state(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(map(_state, x)) + "]"
    if isinstance(x, (set, frozenset)):
        return "<" + ",".join(sorted(map(_state, x))) + ">"
    if isinstance(x, (str, bytes, int, float, complex, bool, type(None))):
        return repr(x)
    return type(x).__name__ + getattr(x, "__qualname__", "")


def scramble(x, g, depth=0):
    """Change a returned result in place, everywhere."""
    if isinstance(x, dict):
        for k in list(x):
            scramble(x[k], g, depth + 1)
        if g.maybe(0.5):
            x.clear()
        x["scrambled"] = depth
    elif isinstance(x, list):
        for v in x:
            scramble(v, g, depth + 1)
        x.append("scrambled") if g.maybe() else x.clear()
    elif isinstance(x, tuple):
        for v in x:
            scramble(v, g, depth + 1)
    elif isinstance(x, set):
        x.add("scrambled")


def in_worker(ext, path, kwargs):
    """The result itself, which has to travel; None where the file is refused."""
    try:
        return corpus.parser_for(ext)(path, **kwargs)
    except Exception:  # noqa: BLE001
        return None


def run(ctx):
    from castep_outputs.parsers.castep_file_parser import Filters
    ctx.rule = ("distinct (file, way of being parsed again): random call histories with other, failing and filtered parses in between, "
                "changed results, threads with forced switches, other processes with other hash seeds, locales, directories, log levels and orders")
    files = workload(ctx, ctx.n(3, 12))
    folder = ctx.scratch / "files"
    folder.mkdir()
    for n, raw in files.items():
        (folder / n).write_bytes(raw)
    slots = ctx.scratch / "slots"
    slots.mkdir()
    stat0 = {n: ((folder / n).stat().st_mtime_ns, (folder / n).stat().st_size) for n in files}

    def parser(n):
        return corpus.parser_for(n.rsplit(".", 1)[1])

    def parse(n, how):
        ext, raw = n.rsplit(".", 1)[1], files[n]
        binary = ext in corpus.BINARY
        if how == "slot":                       # one and the same path, its contents replaced (same time stamp)
            p = slots / f"{threading.get_ident()}.{ext}"
            p.write_bytes(raw)
            os.utime(p, (10**9, 10**9))
            return outcome(parser(n), str(p), **how_much(n))
        if how == "path":
            return outcome(parser(n), str(folder / n), **how_much(n))
        if how == "memory":
            handle = io.BytesIO(raw) if binary else io.StringIO(raw.decode())
            res = outcome(parser(n), handle, **how_much(n))
            if not handle.closed and handle.getvalue() != (raw if binary else raw.decode()):
                ctx.fail("input-modified", f"{n}: the handle's contents changed", file=n, raw=raw.hex())
            return res
        with (folder / n).open("rb") if binary else (folder / n).open("r", encoding="utf-8") as fh:
            return outcome(parser(n), fh, **how_much(n))

    # reference: every file in a process of its own order, one fixed hash seed
    env0 = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONHASHSEED": "0", "VERIF_REPO": str(vf.REPO), "PYTHONDONTWRITEBYTECODE": "1"}

    def process(order, cwd=vf.VERIF, **env):
        e = dict(env0) | {"PYTHONPATH": str(vf.VERIF)} | env
        r = subprocess.run([sys.executable, "-m", "lib.purity", str(folder), str(order)], cwd=cwd, env=e,
                           capture_output=True, text=True, check=False)
        if r.returncode:
            raise RuntimeError(r.stderr[-2000:])
        return json.loads(r.stdout)

    ref = process(0)
    ctx.count("reference parses", len(ref))
    ctx.count("reference failures", sum(v.startswith("raised") for v in ref.values()))

    # 1. other processes
    envs = [dict(PYTHONHASHSEED=str(h)) for h in range(1, ctx.n(4, 12))]
    envs += [dict(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"), dict(LC_ALL="C.UTF-8"), dict(VERIF_LOGLEVEL="DEBUG"), dict(VERIF_LOGLEVEL="INFO"),
             dict(PYTHONOPTIMIZE="1"), dict(TZ="Asia/Tokyo", COLUMNS="20", LANG="xx"), dict(VERIF_RELATIVE="1")]
    cwds = [vf.VERIF, ctx.scratch, Path("/")]
    for k, env in enumerate(envs):
        got = process(100 + k, cwds[k % 3], **env)
        ctx.count("processes")
        for n in files:
            ctx.case((n, tuple(env.items())), "process parses")
            if got[n] != ref[n]:
                ctx.fail("process-" + next(iter(env)).lower(), f"{n}: {ref[n]} became {got[n]} under {env}", file=n, raw=files[n].hex(), env=env)

    # 2. call histories in this process
    before = shared_state()
    ctx.count("pieces of shared state", len(before))
    names = sorted(files)
    by = {e: [n for n in names if n.rsplit(".", 1)[1] == e] for e in corpus.KINDS}
    kept = []
    for h in range(ctx.n(3, 12)):
        g = G(ctx.rng("order", h))
        seq = [g.choice(names) for _ in range(ctx.n(400, 2500))]
        if h == 0:          # files of one format after each other
            seq = [n for e in g.sample(corpus.KINDS, len(corpus.KINDS)) for n in g.sample(by[e], len(by[e]))] + seq[:100]
            groups = {}
            for n in names:
                if n.startswith(("g-", "e-")):
                    groups.setdefault((n.rsplit("-", 1)[0]), []).append(n)
            seq += [n for v in groups.values() for n in g.sample(v, len(v)) + g.sample(v, len(v))]
        verbose = h % 2 == 1
        if verbose:
            logging.disable(logging.NOTSET)
            logging.getLogger().setLevel(logging.DEBUG)
            logging.getLogger().handlers[:] = [logging.NullHandler()]
        prev = None
        for n in seq:
            if not ctx.time_left(70, 500):
                break
            how = g.choice(["path", "memory", "handle", "slot"])
            if n.endswith(".castep") and g.maybe(0.3):     # a filtered parse in between
                outcome(parser(n), str(folder / n), filters=Filters(g.ri(0, Filters.ALL.value)))
            d, res = parse(n, how)
            ctx.case((n, how, verbose), "history parses")
            if d != ref[n]:
                ctx.fail("history", f"{n} by {how} after {prev}: {ref[n]} became {d}", file=n, raw=files[n].hex(), after=prev)
            prev = n
            if res is None:
                continue
            if g.maybe(0.3):
                scramble(res, g)
                ctx.count("results changed by the caller")
            elif len(kept) < 400:
                kept.append((n, res, d))
        if verbose:
            logging.disable(logging.CRITICAL)
    for n, res, d in kept:
        ctx.case((n, "kept"), "earlier results looked at again")
        if digest(res) != d:
            ctx.fail("earlier-result-changed", f"{n}: a result returned earlier has changed", file=n, raw=files[n].hex())
        ctx.count("results sent and copied")
        for way, f in (("pickled", lambda x: pickle.loads(pickle.dumps(x))), ("copied", copy.deepcopy)):
            try:
                twin = f(res)
            except Exception as err:  # noqa: BLE001
                ctx.fail("result-not-" + way, f"{n}: {type(err).__name__}: {err}", file=n, raw=files[n].hex())
                continue
            if digest(twin) != d:
                ctx.fail("result-not-" + way, f"{n}: the copy differs", file=n, raw=files[n].hex())
            elif ctx.rng("twin", n).random() < 0.5:
                scramble(twin, G(ctx.rng("twin", n, way)))
                if digest(res) != d:
                    ctx.fail("result-not-" + way, f"{n}: changing the copy changed the result", file=n, raw=files[n].hex())
    # results made by worker processes
    g = G(ctx.rng("workers"))
    some = g.sample(names, min(len(names), ctx.n(80, 400)))
    with multiprocessing.get_context("fork").Pool(3) as pool:
        try:
            done = pool.starmap_async(in_worker, [(n.rsplit(".", 1)[1], str(folder / n), how_much(n)) for n in some]).get(120)
        except multiprocessing.pool.MaybeEncodingError as err:
            ctx.fail("worker", f"a result cannot be sent: {err}")
            done = []
    for n, d in zip(some, done):
        ctx.case((n, "worker"), "parses in worker processes")
        if d is not None and digest(d) != ref[n]:
            ctx.fail("worker", f"{n}: {ref[n]} became {digest(d)} in a worker process", file=n, raw=files[n].hex())
    after = shared_state()
    for key in sorted(set(before) | set(after)):
        if before.get(key) != after.get(key):
            ctx.fail("shared-state", f"{key} changed while parsing", key=key)

    # 3. threads
    old = sys.getswitchinterval()
    switches = 0
    try:
        for t in range(ctx.n(6, 40)):
            if not ctx.time_left(80, 600):
                break
            g = G(ctx.rng("threads", t))
            sys.setswitchinterval(g.choice([1e-6, 1e-5, 1e-4]))
            k = g.choice([2, 4, 8])
            same = g.maybe(0.5)
            pool = [n for n in names if not same or n.endswith(g.choice([".castep", ".cell", ".md", ".phonon"]))] or names
            jobs = [[(g.choice(pool), g.choice(["path", "memory", "handle", "slot"])) for _ in range(12)] for _ in range(k)]
            got = [[] for _ in range(k)]
            trace = []
            start = threading.Barrier(k)

            def work(i, jobs=jobs, got=got, start=start, trace=trace):
                start.wait()
                for n, how in jobs[i]:
                    trace.append(i)
                    got[i].append((n, how, parse(n, how)[0]))
                    trace.append(i)
            ts = [threading.Thread(target=work, args=(i,)) for i in range(k)]
            for x in ts:
                x.start()
            for x in ts:
                x.join()
            s = sum(a != b for a, b in zip(trace, trace[1:]))
            switches += s
            ctx.count("thread switches between parser calls seen", s)
            for i in range(k):
                if len(got[i]) != len(jobs[i]):
                    ctx.fail("threads", f"a thread stopped after {len(got[i])} of {len(jobs[i])} parses", jobs=jobs)
                for n, how, d in got[i]:
                    ctx.case((n, how, "threads"), "threaded parses")
                    if d != ref[n]:
                        ctx.fail("threads", f"{n}: {ref[n]} became {d} among {k} threads", file=n, raw=files[n].hex(), jobs=jobs)
    finally:
        sys.setswitchinterval(old)

    # 4. the inputs are as they were
    for n in files:
        p = folder / n
        if p.read_bytes() != files[n] or (p.stat().st_mtime_ns, p.stat().st_size) != stat0[n]:
            ctx.fail("input-modified", f"{n} was changed", file=n)
        ctx.count("inputs compared")
    extra = sorted({p.name for p in folder.iterdir()} - set(files))
    if extra:
        ctx.fail("files-left", f"files appeared beside the inputs: {extra}")
    ctx.need("process parses", "results sent and copied", "parses in worker processes", "history parses", "threaded parses", "thread switches between parser calls seen",
             "results changed by the caller", "earlier results looked at again", "pieces of shared state", "inputs compared")
