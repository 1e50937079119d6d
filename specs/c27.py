"""C27: the same-message bypass alternates."""
from clientspec import *
SUF = ' \u2800'
def check(ctx):
    ctx.rule('from the default state the two-state transition system of get() is: empty, suffix, empty, suffix, and closed after two calls')
    w = 'tmi::client::write::SameMessageBypass::get'
    d = run(ctx, 'bypass_default')
    if d is None: return
    states = [d.value]; seen = {}
    outs = []
    cur = d.value
    for i in range(1200):
        if cur in seen: break
        seen[cur] = i
        r = run(ctx, 'bypass_get', args=[lambda m, s, v=cur: m.newcell(s, v)], setup=lambda m, s, a: None)
        if r is None: return
        ctx.equal(f'call {i}', w, r.value, st(SUF if i % 2 else ''))
        cur = r.m.deep_value(r.state, r.m.deep(r.state, r.args[0]))
    if cur in seen:
        n = len(seen); back = seen[cur]
        if (n - back) % 2: ctx.bad('alternation', w, f'the sequence repeats with period {n - back}')
        else: ctx.good(sample=f'the state after call {n} is the state before call {back}: alternation holds for any number of calls')
    else:
        # not a finite cycle of values: show that two calls from any state return both values alternately
        ctx.undecided(w, 'the state does not repeat within 1200 calls')
