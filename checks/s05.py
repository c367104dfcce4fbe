"""S05: which (file, type) pairs the command line selects, against a model over the directory listing."""
import os
import shutil
import sys

from gen import corpus
from gen.base import G

SEEDS = ["seed", "Si8", "my.run", "a b", "x[1]", "q*", "w?", "run-1", "run_1", "UPPER", "na\u00efve", "1", "castep", "x.cell", "md", "{a,b}", "~t", "run.2.old", "%s", "s$eed", "it's"]
DIRS = ["", "", "sub/", "./", "sub/deep/", "d[0]/", "d.cell/", "c d/", "../up/"]


def build(g, root, kinds):
    """A random directory tree; returns every path written below root (relative to work)."""
    work = root / "work"
    work.mkdir(parents=True)
    (root / "up").mkdir()
    seeds = g.sample(SEEDS, g.ri(2, 4))
    dirs = sorted({*g.sample(DIRS, g.ri(1, 3)), ""})
    for d in dirs:
        base = work / d if d else work
        base.mkdir(parents=True, exist_ok=True)
        for s in seeds:
            for ext in g.sample([*kinds, "txt", "castep~", "bak", "err", "0001.err", "12.err", ".err", "err.old", "0001.Err", "x.y.err", "CASTEP", "den"], g.ri(0, 8)):
                p = base / f"{s}.{ext}"
                if os.path.lexists(p):
                    continue
                k = g.ri(0, 9)
                if k == 0:
                    p.mkdir()
                elif k == 1:
                    p.symlink_to("no-such-target")
                elif k == 2:
                    (base / f"target-{ext}").write_text("x")
                    p.symlink_to(f"target-{ext}")
                else:
                    p.write_text("x")
            if g.maybe(0.05):       # a run of many processes, all of which complained
                for k in range(1, g.ri(20, 140)):
                    p = base / f"{s}.{k:04d}.err"
                    if not os.path.lexists(p):
                        p.write_text("x")
            # neighbours that must not be picked up
            for n in g.sample([f"{s}2.castep", f"x{s}.castep", f"{s}castep", f"{s}-out.cell", f"{s}.", f"{s}", f"{s}2.0001.err", f"{s}_0001.err"], 3):
                p = base / n
                if not os.path.lexists(p):
                    p.write_text("x")
    if g.maybe(0.05):               # a series of runs
        for k in range(g.ri(20, 120)):
            (work / f"series-{k}.{g.choice(['castep', 'castep', *kinds])}").write_text("x")
    return work, seeds, dirs


def model(work, seeds, explicit, inc, kinds):
    """The documented selection, from directory listings only."""
    want = {(p, t) for t, ps in explicit.items() for p in ps}
    for s in seeds:
        name = s.rsplit("/", 1)[-1]
        d = s[: len(s) - len(name)]
        full = work / s
        stem, dot, ext = name.rpartition(".")
        if full.is_file() and dot and stem and ext in kinds:
            want.add((s, ext))
            continue
        listing = os.listdir(work / d) if os.path.isdir(work / d) else []
        for f in listing:
            if not (work / d / f).is_file():
                continue
            for t in kinds:
                if t in inc and f == f"{name}.{t}":
                    want.add((d + f, t))
            if "err" in inc and f.startswith(name + ".") and f.endswith(".err") and len(f) >= len(name) + 5:
                want.add((d + f, "err"))
    return want


def norm(p):
    return os.path.normpath(p)


def run(ctx):
    import castep_outputs.cli.args as A
    kinds = list(corpus.KINDS)
    ctx.rule = ("random directory trees (files, directories, dangling and good symbolic links; names with dots, brackets, "
                "glob characters, blanks; per-process error files; near-miss neighbours) and random command lines of seeds, "
                "explicit file arguments and include switches; the selected (file, type) pairs against a model working on "
                "directory listings; distinct by (tree, command line)")
    ctx.need("command lines of many seeds", "command lines", "explicit files", "include switches", "seed in other directory", "seed is a file", "error files", "pairs selected",
             "types asked by the caller")
    here = os.getcwd()
    old_argv = sys.argv
    try:
        for i in range(ctx.n(500, 12000)):
            if not ctx.time_left(60, 560):
                break
            g = G(ctx.rng("t", i))
            root = ctx.scratch / f"t{i}"
            work, seeds, dirs = build(g, root, kinds)
            allfiles = [str(p.relative_to(work)) for p in sorted(work.rglob("*")) if p.is_file()]
            os.chdir(work)
            for k in range(4):
                g = G(ctx.rng("c", i, k))
                argv, inc, explicit, asked = ["castep_outputs"], set(), {}, ()
                if g.maybe(0.5):
                    for t in g.sample(kinds, g.ri(1, 4)):
                        argv.append(f"--inc-{t}")
                        inc.add(t)
                    if g.maybe(0.5) and "err" not in inc:
                        argv.append("--inc-err")
                        inc.add("err")
                    ctx.count("include switches")
                if g.maybe(0.15):       # a program that asks for these types of its own accord
                    asked = tuple(g.sample(kinds, g.ri(1, 4)))
                    inc |= set(asked)
                    ctx.count("types asked by the caller")
                elif g.maybe(0.2):
                    argv.append(g.choice(["-A", "--inc-all"]))
                    inc = set(kinds)
                if not inc:
                    inc = set(kinds)
                if g.maybe(0.4):
                    for t in g.sample(kinds, g.ri(1, 3)):
                        ps = [p for p in (g.choice(allfiles) if allfiles and g.maybe(0.7) else f"named.{g.ri(1, 9)}" for _ in range(g.ri(1, 3)))
                              if not p.startswith("-")]
                        if ps:
                            argv += [f"--{t}", *ps]
                            explicit[t] = ps
                            ctx.count("explicit files")
                # an option ends the list of explicit files before the seeds start
                argv += g.choice([["-f", g.choice(["json", "yaml", "pprint"])], ["-L", "ERROR"]])
                args = []
                for _ in range(g.ri(0, 4)):
                    d = g.choice(dirs)
                    s = d + g.choice(seeds)
                    j = g.ri(0, 9)
                    if j == 0 and allfiles:
                        s = g.choice(allfiles)
                        ctx.count("seed is a file")
                    elif j == 1:
                        s = d + "missing"
                    elif j == 2:
                        s = str(work / s)
                    elif j == 3:
                        s += "." + g.choice(kinds)
                    if not s.startswith("-"):
                        args.append(s)
                        if d:
                            ctx.count("seed in other directory")
                series = [p for p in allfiles if p.startswith("series-")]
                if series and g.maybe():
                    cut = g.maybe()
                    args += [p.rpartition(".")[0] if cut else p for p in series]
                    ctx.count("command lines of many seeds")
                sys.argv = argv + args
                ctx.case((sorted(allfiles), argv, args), "command lines", " ".join(sys.argv[1:]))
                ok, ns = ctx.call("command line: raised", A.parse_args, *((asked,) if asked else ()),
                                  replay={"argv": sys.argv, "files": allfiles, "asked": asked})
                if not ok:
                    continue
                got = A.extract_parsables(ns)
                pairs = {(norm(p), t) for t, ps in got.items() for p in ps}
                want = {(norm(p), t) for p, t in model(work, args, explicit, inc, kinds)}
                ctx.count("pairs selected", len(want))
                ctx.count("error files", sum(1 for p, t in want if t == "err" and p.count(".") > 1))
                if set(got) != set(kinds):
                    ctx.fail("selection: types", f"{sorted(set(got) ^ set(kinds))}", argv=sys.argv)
                if pairs != want:
                    ctx.fail("selection: " + ("missing" if want - pairs else "extra"),
                             f"missing {sorted(want - pairs)[:4]} extra {sorted(pairs - want)[:4]}", argv=sys.argv, files=sorted(allfiles), asked=asked)
            os.chdir(here)
            shutil.rmtree(root)
    finally:
        sys.argv = old_argv
        os.chdir(here)
