"""C01: ground-state sections of .castep files."""
from gen import castep_ground as gg
from lib.castepcheck import sections_check


def run(ctx):
    ctx.rule = "distinct generated .castep texts (one section alone, or 2-14 ground-state sections in random order)"
    sections_check(ctx, gg.GROUND)
