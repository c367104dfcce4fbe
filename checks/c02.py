"""C02: set-up sections of .castep files."""
from gen import castep as gc
from lib.castepcheck import sections_check


def run(ctx):
    ctx.rule = "distinct generated .castep texts (one section alone, or 2-14 set-up sections in random order)"
    sections_check(ctx, gc.SETUP)
