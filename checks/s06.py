"""S06: the command writes one document holding exactly what the library parses."""
import contextlib
import io
import os
import shutil
import subprocess
import sys

from checks.s03 import jsonable, memory
from checks.s04 import loaders
from gen import corpus
from gen.base import G
from lib import vf


#: Formats of which a file without any data is parsed (into nothing).
EMPTIES = ("castep", "cell", "param", "hug", "phonon_dos", "efield", "elastic", "ts", "magres", "tddft")


def broken(g, ext, raw):
    """A file of that type no parser can accept, if there is one."""
    if ext == "cst_esp":
        return raw[:9]
    if ext == "epme_bin":
        return raw[:30]
    return {"castep": b" Run started: now\n\n Unit Cell\n  x\n",
            "bands": b"Number of k-points    two\n", "cell": b"%BLOCK LATTICE_CART\n 1 2 3\n", "param": b"%block devel_code\nx=1\n",
            "phonon": b" BEGIN header\n Number of ions 1\n"}.get(ext, b"\xff\xfe\x00 not text \xff\n")


def main_inproc(argv, cwd):
    """Run the command in this process: (status, stdout)."""
    from castep_outputs.cli.castep_outputs_main import main
    out, here, old = io.StringIO(), os.getcwd(), sys.argv
    sys.argv = ["castep_outputs", *argv]
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            main()
        return 0, out.getvalue(), None
    except SystemExit as err:
        return (err.code if isinstance(err.code, int) else 1 if err.code else 0), out.getvalue(), err
    except BaseException as err:  # noqa: BLE001
        return 1, out.getvalue(), err
    finally:
        sys.argv = old
        os.chdir(here)


def main_subproc(argv, cwd):
    env = {**os.environ, "PYTHONPATH": str(vf.REPO), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONIOENCODING": "utf-8"}
    p = subprocess.run([sys.executable, "-m", "castep_outputs", *argv], cwd=cwd, env=env, capture_output=True, timeout=300)
    return p.returncode, p.stdout.decode(), p.stderr.decode()[-300:]


def run(ctx):
    from castep_outputs.cli.castep_outputs_main import parse_all
    ctx.rule = ("random sets of 1-6 generated files of any of the 23 formats, through the command (in process and as a "
                "separate process) and parse_all (text or path names, handle or file output), every output format, one "
                "unparsable file mixed in for part of the runs; distinct by (files, command line)")
    load = loaders()
    ctx.need("command", "separate process", "parse_all", "identical files", "file without data", "single file", "several files", "output file", "standard output",
             "failure visible", "output file was there already", *(f"format {f}" for f in load))
    dirs_made = 0
    for i in range(ctx.n(260, 6000)):
        if not ctx.time_left(60, 560):
            break
        g = G(ctx.rng(i))
        d = ctx.scratch / f"d{i}"
        (d / "sub").mkdir(parents=True)
        dirs_made += 1
        names, content = [], {}
        n = g.choice([1, 1, 2, 3, 4, 6])
        for k in range(n):
            ext = g.choice(corpus.KINDS)
            if ext == "castep" and ctx.quick and g.maybe(0.7):
                ext = "cell"
            if names and g.maybe(0.25):
                ext = names[-1][1]
            name = g.choice(["", "", "sub/"]) + g.choice(["seed", "my run", "a.b", "x[1]", "\u00e9", "S i"]) + f".{ext}"
            if name in content:
                continue
            raw = corpus.make(g, ext)
            if g.maybe(0.15) and any(e == ext for _, e in names):   # a copy of another file of the set
                raw = content[next(x for x, e in names if e == ext)]
                ctx.count("identical files")
            if ext in EMPTIES and g.maybe(0.1):         # nothing in it yet: an empty result, not an absent one
                raw = g.choice([b"", b"\n"])
                ctx.count("file without data")
            (d / name).write_bytes(raw)
            names.append((name, ext))
            content[name] = raw
        bad = None
        if g.maybe(0.25):
            ext = g.choice(corpus.KINDS)
            if f"bad.{ext}" not in content:
                bad = (f"bad.{ext}", ext)
                (d / bad[0]).write_bytes(broken(g, ext, corpus.make(g, ext)))
                try:        # only counts as unparsable if the library itself refuses it
                    corpus.parser_for(ext)(d / bad[0])
                    (d / bad[0]).unlink()
                    bad = None
                except Exception:  # noqa: BLE001
                    names.insert(g.ri(0, len(names)), bad)
        fmt = g.choice(list(load))
        ctx.count(f"format {fmt}")
        outname = g.choice([None, "out.dat", "sub/o.txt"]) if g.maybe() else None
        earlier = ""
        if outname and g.maybe(0.4):        # the output file may be there already
            earlier = g.choice(["x\n", "{}\n", "# something earlier\n" * g.choice([1, 3, 2000])])
            (d / outname).write_text(earlier, encoding="utf-8")
            ctx.count("output file was there already")
        way = "separate process" if i % (20 if ctx.quick else 12) == 0 else g.choice(["command", "command", "parse_all"])
        rep = {"files": {k: v.hex() for k, v in content.items()}, "way": way, "format": fmt}
        if way == "parse_all":
            here = os.getcwd()
            os.chdir(d)
            by = {}
            for nm, ext in names:
                by.setdefault(ext, []).append(nm if g.maybe() else vf.Path(nm))
            buf, held = io.StringIO(), g.choice(["", "", "held before\n" * 300])
            buf.write(held)
            target = outname if outname and g.maybe() else vf.Path(outname) if outname else g.choice([None, buf])
            try:
                with contextlib.redirect_stdout(buf):
                    parse_all(target, fmt, **by)
                rc, out, err = 0, buf.getvalue(), None
            except Exception as e:  # noqa: BLE001
                rc, out, err = 1, buf.getvalue(), e
            finally:
                if not out.startswith(held):
                    ctx.fail("output: text already in the handle is gone", out[:200], **rep)
                out = out[len(held):]
                os.chdir(here)
        else:
            argv = []
            for nm, ext in names:
                if g.maybe(0.4):
                    argv += [f"--{ext}", *[x for x, e in names if e == ext]]
            explicit = {a[2:] for a in argv if a.startswith("--")}
            # nargs="*" options given twice replace each other: give each once
            argv = [a for t in sorted(explicit) for a in (f"--{t}", *[x for x, e in names if e == t])]
            if outname:
                argv += [g.choice(["-o", "--output"]), outname]
            argv += [g.choice(["-f", "--out-format"]), fmt]
            if fmt == "json" and g.maybe():
                argv = argv[:-2] + ["-L", "ERROR"]      # the default format
            seeds = [x for x, e in names if e not in explicit]
            rep["argv"] = argv + seeds
            rc, out, err = (main_subproc if way == "separate process" else main_inproc)(argv + seeds, d)
        ctx.count(way)
        ctx.case((sorted(content), way, fmt, outname, bad), "runs", f"{way} {fmt} {names}")
        if outname:
            f = d / outname
            written = f.read_text(encoding="utf-8") if f.exists() else ""
            if earlier and rc == 0 and written.startswith(earlier):
                written = written[len(earlier):]        # added to what was there; replacing it is as good
            elif earlier and rc and written in ("", earlier):
                written = ""
            if out:
                ctx.fail("output: standard output used although a file was asked for", out[:200], **rep)
            ctx.count("output file")
        else:
            written = out
            ctx.count("standard output")
        if bad:
            if rc == 0:
                ctx.fail("failure not visible", f"status 0 although {bad[0]} cannot be parsed; wrote {written[:200]!r}", **rep)
            elif written:
                ctx.fail("partial result written", f"{written[:300]!r}", **rep)
            else:
                ctx.count("failure visible")
            shutil.rmtree(d)
            continue
        if rc:
            ctx.fail(f"{way}: failed on parsable files", f"status {rc}: {vf.short(err, 400)}", **rep)
            shutil.rmtree(d)
            continue
        try:
            doc = load[fmt](written)
        except Exception as e:  # noqa: BLE001
            ctx.fail(f"{fmt}: document not well formed", f"{type(e).__name__}: {e}", document=written[:4000], **rep)
            shutil.rmtree(d)
            continue
        exp = {nm: corpus.parser_for(ext)(memory(ext, content[nm])) for nm, ext in names}
        if len(exp) == 1:
            ctx.count("single file")
            exp = next(iter(exp.values()))
        else:
            ctx.count("several files")
        ctx.expect(f"{fmt}: document", jsonable(exp) if fmt == "json" else exp, doc, document=written[:4000], **rep)
        left = sorted(p.name for p in d.rglob("*") if p.is_file())
        want = sorted([vf.Path(x).name for x in content] + ([vf.Path(outname).name] if outname else []))
        if left != want:
            ctx.fail("other files touched", f"{left} expected {want}", **rep)
        for nm, raw in content.items():
            if (d / nm).read_bytes() != raw:
                ctx.fail("input file modified", nm, **rep)
        shutil.rmtree(d)
