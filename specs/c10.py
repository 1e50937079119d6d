"""C10: into_owned keeps every field."""
from common import *
def check(ctx):
    ctx.rule('the value returned by into_owned equals its argument: same variant, every field the same value (text compared by content)')
    roots_ = [r for r in ctx.prog().roots if r.startswith('h_into_owned__')]
    if len(roots_) < 22: ctx.bad('anchor', 'into_owned', f'only {len(roots_)} types have into_owned')
    for r in roots_:
        ty = r.split('__', 1)[1]
        v = run(ctx, r[2:])
        if v is None: continue
        ctx.equal(f'{ty}::into_owned', f'tmi::{ty}::into_owned', v.value, v.args[0], ())
