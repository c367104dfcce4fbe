"""C03: response and analysis sections of .castep files."""
from gen import castep_analysis as ga
from lib.castepcheck import sections_check


def run(ctx):
    ctx.rule = "distinct generated .castep texts (one section alone, or 2-14 analysis sections in random order)"
    sections_check(ctx, ga.ANALYSIS)
