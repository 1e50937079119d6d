"""C03: tags are tokenised exactly, by all three tag parsers."""
import scan
def check(ctx):
    ctx.rule('abstract interpretation of each tag parser over positions of the line: every pair that is stored starts where the previous one ended, its key ends at its first `=`, its value at the first `;` or at the first space; '
             'all pairs are returned in order; none is left out; nothing is consumed without `@` and a space')
    ctx.assumes += ['lines shorter than 4 GiB; allocation succeeds; the vendor intrinsics behave as documented (byte compare, move mask)']
    for cfg in ('scalar', 'full', 'sse2'): scan.report(ctx, scan.tags(ctx, cfg), ('func',))
