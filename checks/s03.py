"""S03: every way of naming the same input gives the same result."""
import gc
import io
import gzip
import os
import shutil
from pathlib import Path

from gen import corpus
from gen.base import G
from lib import vf

BAD_NAMES = ["", "castepp", "Castep", "CASTEP", ".castep", "cel", "phonon-dos", "json", "parse_castep_file", "xyz", "0", "castep "]


#: Extensions that are nearly those of a format.
NEAR = [f for k in corpus.KINDS for f in (k + "-out", "old-" + k, k + "_1", k + "+", k[:-1], k + "0", k.upper(), k.title(), k + " ") if f not in corpus.KINDS]


def handle(ext, path):
    return path.open("rb") if ext in corpus.BINARY else path.open("r")


def memory(ext, raw):
    return io.BytesIO(raw) if ext in corpus.BINARY else io.StringIO(raw.decode())


def open_fds(path):
    """File descriptors of this process that point at the file."""
    n = 0
    want = os.path.realpath(path)
    for fd in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink(f"/proc/self/fd/{fd}") == want
        except OSError:
            pass
    return n


def run(ctx):
    import castep_outputs as co
    from castep_outputs.cli.castep_outputs_main import parse_single
    ctx.rule = ("generated and recorded files of all 23 formats, read through str / Path / open handle / in-memory handle by "
                "the format function and by parse_single with parser by function, name and extension, odd file names, "
                "unknown names and extensions, and unparsable files; open file descriptors inspected after every call; "
                "distinct by (format, content)")
    ctx.need("ways compared", "handles used again", "descriptor checks", "unknown rejected", "failing parse", "plain json data", "odd file names", "relative names")
    # the documented names of the format functions
    func_name = {"geom": "parse_md_geom_file", "md": "parse_md_geom_file"}
    for i in range(ctx.n(14, 300)):
        for ext in corpus.KINDS:
            if not ctx.time_left(60, 560):
                break
            g = G(ctx.rng(ext, i))
            raw = corpus.some(g, ext)
            d = ctx.scratch / f"{ext}-{i}"
            d.mkdir()
            stem = g.choice(["seed", "my seed", "a.b.c", "x[1]", "UPPER", "-dash", "\u00e9t\u00e9", "castep", "md.cell", " lead", "trail ", "  a  b  ", "tab\there"])
            path = d / f"{stem}.{ext}"
            path.write_bytes(raw)
            func = getattr(co, func_name.get(ext, f"parse_{ext}_file"))
            ways = {
                "str": lambda: func(str(path)),
                "path": lambda: func(path),
                "handle": lambda: func(handle(ext, path)),
                "memory": lambda: func(memory(ext, raw)),
                "single path by extension": lambda: parse_single(path),
                "single str by extension": lambda: parse_single(str(path)),
                "single path by name": lambda: parse_single(path, ext),
                "single str by name": lambda: parse_single(str(path), ext),
                "single path by function": lambda: parse_single(path, func),
                "single str by function": lambda: parse_single(str(path), func),
                "single handle by name": lambda: parse_single(handle(ext, path), ext),
                "single handle by function": lambda: parse_single(handle(ext, path), func),
                "single print": lambda: parse_single(path, ext, "print"),
                "single pprint": lambda: parse_single(path, None, "pprint"),
            }
            if ext not in corpus.BINARY:
                crlf = d / f"crlf.{ext}"        # line ends of another system
                crlf.write_bytes(raw.replace(b"\n", b"\r\n"))
                ways["line ends CR LF"] = lambda: func(crlf)
                ways["single line ends CR LF"] = lambda: parse_single(str(crlf))
            if g.maybe(0.5):
                packed = d / f"packed.{ext}.gz"
                packed.write_bytes(gzip.compress(raw))
                ways["handle of packed file"] = lambda: func(gzip.open(packed, "rb") if ext in corpus.BINARY else
                                                             gzip.open(packed, "rt", encoding="utf-8"))
            if ext in ("cell", "param"):
                ways["cell_param"] = lambda: co.parse_cell_param_file(path)
            ref = None
            ctx.case((ext, raw), "files", f"{path.name}: {raw[:200]!r}")
            for way, f in ways.items():
                owned = "handle" in way
                ok, got = ctx.call(f"{ext}: {way}", f, replay={"file": path.name, "raw": raw.hex(), "way": way})
                if not ok:
                    break
                ctx.count("ways compared")
                if ref is None:
                    ref = got
                else:
                    if not ctx.expect(f"{ext}: {way} differs", ref, got, raw=raw.hex(), way=way):
                        break
                if not owned:
                    ctx.count("descriptor checks")
                    if open_fds(path):
                        ctx.fail(f"{way.split()[0]}: file left open", f"{ext} via {way}", raw=raw.hex())
            # a handle is the caller's: still open afterwards, and once rewound gives the same again
            for way, h in (("handle", handle(ext, path)), ("memory", memory(ext, raw))):
                ctx.count("handles used again")
                with h:
                    ok, _ = ctx.call(f"{ext}: {way}", func, h, replay={"raw": raw.hex(), "way": way})
                    if not ok:
                        break
                    gc.collect()
                    if h.closed:
                        ctx.fail("caller's handle closed", f"{ext} via {way}", raw=raw.hex())
                        break
                    h.seek(0)
                    ok, got = ctx.call(f"{ext}: {way} again", parse_single, h, ext, replay={"raw": raw.hex(), "way": way})
                    if ok and ref is not None:
                        ctx.expect(f"{ext}: {way} again differs", ref, got, raw=raw.hex(), way=way)
            # with a wrong extension the given parser is still the one used
            other = d / f"{stem}.{g.choice(['txt', 'cell', 'castep', 'dat'])}"
            if other != path:
                other.write_bytes(raw)
                ok, got = ctx.call(f"{ext}: named parser on other extension", parse_single, other, ext, replay={"raw": raw.hex()})
                if ok and ref is not None:
                    ctx.expect(f"{ext}: named parser on other extension", ref, got, raw=raw.hex())
            # names the format function can only take literally: no extension, blanks at either end, text that looks like something else
            for odd in g.sample([f"{stem}.{ext} ", f" {stem}.{ext}", "noext", " ", "~", "$HOME", "%41", "a\nb", "..x", f"{stem}.{ext}.gz", "-", "*.castep"], 4):
                of = d / "odd" / odd
                of.parent.mkdir(exist_ok=True)
                of.write_bytes(raw)
                for arg in (of, str(of)):
                    ctx.count("odd file names")
                    ok, got = ctx.call(f"{ext}: odd file name", func, arg, replay={"file": odd, "raw": raw.hex()})
                    if ok and ref is not None:
                        ctx.expect(f"{ext}: odd file name", ref, got, file=odd, raw=raw.hex())
                of.unlink()
            if g.maybe(0.5):        # a name relative to the current directory
                here = os.getcwd()
                os.chdir(d)
                try:
                    for arg in (path.name, Path(path.name), f"./{path.name}", f"../{d.name}/{path.name}"):
                        ok, got = ctx.call(f"{ext}: relative name", func, arg, replay={"file": str(arg), "raw": raw.hex()})
                        if ok and ref is not None:
                            ctx.count("relative names")
                            ctx.expect(f"{ext}: relative name", ref, got, file=str(arg), raw=raw.hex())
                finally:
                    os.chdir(here)
            # unknown names
            for name in g.sample(BAD_NAMES, 3):
                try:
                    got = parse_single(path, name)
                except ValueError:
                    ctx.count("unknown rejected")
                except Exception as err:  # noqa: BLE001
                    ctx.fail("unknown parser name: error", f"{name!r}: {type(err).__name__}: {err}")
                else:
                    ctx.fail("unknown parser name: accepted", f"{name!r} on {path.name} gave {vf.short(got)}")
            bad = d / f"seed.{g.choice(['txt', 'Castep', 'castep~', 'md2', 'castep.bak', 'phonon dos', 'cells', 'out', 'log', 'dat', 'bin', 'json', 'xyz', 'gz'] + NEAR)}"
            bad.write_bytes(raw)
            for f in (bad, str(bad), d / "noext"):
                (d / "noext").write_bytes(raw)
                try:
                    got = parse_single(f)
                except ValueError:
                    ctx.count("unknown rejected")
                except Exception as err:  # noqa: BLE001
                    ctx.fail("unknown extension: error", f"{f}: {type(err).__name__}: {err}")
                else:
                    ctx.fail("unknown extension: accepted", f"{f} gave {vf.short(got)}")
            # unparsable: the file is closed and the error comes out, however it is named
            broken = d / f"broken.{ext}"
            broken.write_bytes(raw[: max(8, len(raw) // 3)] + (b"\x00\x00\x00\x08\xff" if ext in corpus.BINARY else
                               g.choice([b"\nBEGIN %BLOCK <--\n", b"\xff\xfe\n", b"\nEND header\n1 2 x y\n"])))
            outcomes = {}
            for way, f in {"str": lambda: func(str(broken)), "path": lambda: func(broken),
                           "single": lambda: parse_single(broken), "name": lambda: parse_single(str(broken), ext),
                           "handle": lambda: func(handle(ext, broken))}.items():
                try:
                    outcomes[way] = ("ok", vf.plain(f()))
                except Exception as err:  # noqa: BLE001
                    outcomes[way] = ("err", type(err).__name__)
                    ctx.count("failing parse")
                    if way != "handle" and open_fds(broken):
                        ctx.fail("file left open after a failed parse", f"{ext} via {way}: {err}", raw=broken.read_bytes().hex())
            kinds = {k: (v[0], v[1] if v[0] == "err" else None) for k, v in outcomes.items()}
            if len(set(kinds.values())) > 1:
                ctx.fail(f"{ext}: ways of naming a broken file disagree", f"{kinds}", raw=broken.read_bytes().hex())
            # json conversion asked of parse_single: same data in JSON's terms
            ok, got = ctx.call(f"{ext}: single json", parse_single, path, ext, "json", replay={"raw": raw.hex()})
            if ok and ref is not None:
                ctx.count("plain json data")
                ctx.expect(f"{ext}: single json", jsonable(ref), stringify(got), raw=raw.hex())
            shutil.rmtree(d)


def keytext(k):
    if isinstance(k, (tuple, list)):
        return "_".join(keytext(x) for x in k)
    return str(k)


def jsonable(x):
    """What the data look like in JSON's terms, by our own reading of the documentation."""
    if isinstance(x, complex):
        return {"real": x.real, "imag": x.imag}
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            kk = "null" if k is None else keytext(k)
            if kk in out:
                raise KeyError(f"two entries spelt {kk!r}")
            out[kk] = jsonable(v)
        return out
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    return x


def stringify(x):
    """Leave the values, spell remaining non-text keys the way json does."""
    if isinstance(x, dict):
        return {("null" if k is None else k if isinstance(k, str) else str(k)): stringify(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [stringify(v) for v in x]
    return x
