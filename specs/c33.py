"""C33: giving up a receive loses nothing."""
import re
from clientspec import *
from c23 import calls
W = 'tmi::client::read Client::recv'
TAKES = ('read', 'read_some')
# what these have read so far is dropped with them
LOSES = re.compile(r'Async(Buf)?ReadExt::(read_line|read_until|read_exact|read_to_end|read_to_string|read_[iuf]\d+(_le)?)$|AsyncReadExt::read_(u|i|f)(8|16|32|64|128)|StreamExt::(collect|fold|count|all|any|for_each)$|StreamExt::(chunks|ready_chunks)$|tokio::io::util::copy')
def check(ctx):
    ctx.rule('at every point where a receive can be suspended, and so dropped, no line has been taken off the connection yet; nothing it awaits keeps bytes of its own')
    try: suspended(ctx)
    except Stuck as x: ctx.undecided(W, x)
    awaits(ctx)
def suspended(ctx):
    a, cv, bufs = with_client(ctx)
    r = crun(ctx, 'recv', mode='full', args=[a])
    if r is None: return
    tr = r.m.get_cell(r.state, aio.TRACE)
    n = 0
    for ev, e in leaves(tr):
        evs, _ = orig_events(tr, e)
        names = [x[0] for x in evs]
        if not evs or evs[-1][0] != 'pending': continue
        n += 1
        stop = evs[-1][1][0]
        done = [x for x in evs[:-1] if x[2] is not stop]
        taken = [x[0] for x in done if x[0] in TAKES]
        # a read that its own timeout has ended took nothing
        if not taken: ctx.good(sample=f'recv: suspended in `{stop.a[1] if stop.op == "tr" else "?"}`, nothing taken before')
        else: ctx.bad('recv: a line already taken is lost when the receive is dropped', W, f'it can be suspended after taking a line off the connection (events {names})')
    ctx.extra['suspension_points'] = n
    if not n: ctx.undecided(W, 'no point of suspension was found')
    for x in TMwalk(tr):
        if x.op == 'app' and str(x.a[0]).startswith(('call:', '?')): ctx.undecided(W, f'{show(x, 3)} is not modelled'); break
def awaits(ctx):
    p = ctx.prog(); n = p.roots.get('h_recv')
    if n is None: return
    seen = {n: None}; work = [n]; k = 0
    while work:
        i = work.pop(); I = p.insts[i]
        m = LOSES.search(re.sub(r'::<[^:]*>', '', I['path']))
        if m and seen[i] is not None and p.insts[seen[i]]['cr'] == 'tmi':
            ctx.bad(f'recv awaits {m.group(0)}', f'{p.insts[seen[i]]["path"]}', f'{I["path"]} loses what it has read when it is dropped before it is done'); continue
        if I['cr'] not in ('tmi', 'vharness'): continue
        b = p.body(i)
        if b is None: continue
        k += 1; ctx.analysed.add(I['path'])
        for c in calls(b):
            j = c.get('i')
            if j is not None and j not in seen: seen[j] = i; work.append(j)
    ctx.good(k, 'functions of the crate reached from a receive: none awaits an operation that drops what it has read')
