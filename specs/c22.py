"""C22: waits while connecting are bounded."""
from loginspec import *
import c18
from c17 import cfgfield
def check(ctx):
    ctx.rule('on every way connect and reconnect can run, every wait is inside a timeout of the configured length, each wait for a reply also inside one of five seconds, the only waits outside are the backoff sleeps, and an expired timeout is the last event and gives a timeout error')
    try: body(ctx)
    except Stuck as x: ctx.undecided('tmi::Client::connect', x)
WAITS = ('write', 'write_some', 'flush', 'shutdown', 'read', 'read_try', 'tcp', 'tls', 'tls_with')
def scan(ctx, where, what, evs, e, conf, result, terr, reconnect):
    m = Mon(ctx, where, evs, e, {'scope'}, what)
    for i, (n, a, tr) in enumerate(evs):
        if n in WAITS:
            m.scope(i, e, [(conf.timeout, 'the configured timeout')] + ([(num(5 * SECOND), 'five seconds')] if n in ('read', 'read_try') else []))
        elif n == 'elapsed':
            m.need('scope', f'{what}: nothing is waited for after a timeout', i == len(evs) - 1, 'the operation goes on after a timeout')
            if i == len(evs) - 1: ctx.equal(f'{what}: a timeout is reported', where, result, terr, VOCC, env=e)
        elif n in ('sleep', 'sleep_until'):
            if not reconnect: m.need('scope', f'{what}: no other wait', False, 'waits for a fixed time while connecting')
            elif not (i == 0 or any(x[0] in ('tcp', 'tls', 'write', 'flush') for x in evs[:i])): m.need('scope', f'{what}: one wait per attempt', False, 'waits twice before an attempt')
            elif i + 1 < len(evs): m.need('scope', f'{what}: the wait is the one before an attempt', evs[i + 1][0] in ('tcp', 'elapsed'), f'a wait is followed by {evs[i + 1][0]}')
def body(ctx):
    n = 0
    x = connect_run(ctx)
    if x is not None:
        r, tr = x
        conf = Conf(ctx, cfgfield(ctx, r))
        for ev, e in leaves(tr):
            evs, _ = orig_events(tr, e); n += 1
            scan(ctx, 'tmi::Client::connect', 'connect', evs, e, conf, r.value, ready(err(E(ctx, CE, 'Timeout'))), False)
    for k in (1, 2) if ctx.tier == 'quick' else (1, 2, 3):
        y = c18.rec_run(ctx, k)
        if y is None: continue
        r, tr, v, c, e0, bufs, cv = y
        if loopsyms(tr) or loopsyms(v): ctx.undecided('tmi::Client::reconnect', 'the loop does not unroll'); continue
        for ev, e in leaves(tr, e0):
            evs, _ = orig_events(tr, e); n += 1
            scan(ctx, 'tmi::Client::reconnect', f'reconnect ({k})', evs, e, c, v, ready(err(adt(RCE, 0, [E(ctx, CE, 'Timeout')]))), True)
    ctx.extra['ways_to_run'] = n
