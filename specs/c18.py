"""C18: reconnecting."""
from loginspec import *
W = 'tmi::Client::reconnect'
def check(ctx):
    ctx.rule('for 0..n allowed attempts, every way reconnect can run has exactly the specified waits, attempts and result; for an arbitrary attempt the loop state evolves as specified')
    try: body(ctx)
    except Stuck as x: ctx.undecided(W, x)
def cfgof(ctx):
    """the configuration held by a client value, through its public accessor"""
    x = run(ctx, 'config', hooks=HK)
    if x is None: return None
    return x
def rec_run(ctx, k, mode='ready'):
    """reconnect with at most k attempts"""
    x = cfgof(ctx)
    if x is None: return None
    a, cv, bufs = with_client(ctx)
    config = subst(x.value, {x.args[0]: cv})
    c = Conf(ctx, config)
    def env(m, s, args):
        e = assume(EMPTYENV, isSome(c.tries), k is not None)
        if k is not None and val(c.tries) not in KNOWN: e = assume(e, ieq(val(c.tries), num(k)), True)
        if val(c.tries) in KNOWN: return EMPTYENV
        return e
    SORT.setdefault(val(c.tries), 'u64'); SORT.setdefault(c.mult, 'u32')
    for d in (c.delay0, c.maxdelay, c.timeout): SORT.setdefault(d, 'dur')
    nolimit = k is None and not KNOWN
    if nolimit: KNOWN[c.tries] = NONE
    try: r = crun(ctx, 'reconnect', mode=mode, args=[a], env=env, symexit=100000 if k is not None else 0, cutloop=k + 2 if k is not None else 1 << 30)
    finally:
        if nolimit: KNOWN.clear()
    if r is None: return None
    sub0 = {b: EMPTY for b in bufs}
    return r, subst(r.m.get_cell(r.state, aio.TRACE), sub0), subst(r.value, sub0), c, env(None, None, None), bufs, cv
def leftover_reconnect(ctx, k):
    y = rec_run(ctx, k, 'full')
    if y is None: return None
    r, tr, v, c, e, bufs, cv = y
    raw = r.m.get_cell(r.state, aio.TRACE)
    end = subst(r.m.deep_value(r.state, r.m.deep(r.state, r.args[0])), {b: EMPTY for b in bufs})
    return depends(raw, bufs), [(i, restrict(fld(end, None, i), e)) for i in string_fields(ctx)]
def connected(ctx):
    """the buffers of a freshly connected client"""
    x = connect_run(ctx)
    if x is None: return None
    r, tr = x
    v = rdy(r.value)
    c = is_(v, 0, 2)
    return [(i, ite(c, fld(fld(v, 0, 0), None, i), EMPTY)) for i in string_fields(ctx)]
def DMAX(): return num(2**64 * 10**9 - 1)
def next_delay(S, c, d):
    sat = mul(d, c.mult)
    return c
def reconnect(ctx, k, tags, value=True):
    y = rec_run(ctx, k)
    if y is None: return 0
    r, tr, v, c, e0, bufs, cv = y
    if loopsyms(tr) or loopsyms(v): ctx.undecided(W, f'reconnect with {k} attempts: the loop does not unroll'); return 0
    n = 0
    if value:
        import panics
        panics.panics(ctx, W, f'reconnect ({k} attempts)', r)
    for ev, e in leaves(tr, e0):
        n += 1
        evs, _ = orig_events(tr, e)
        m = Mon(ctx, W, evs, e, tags, f'reconnect ({k} attempts)')
        L = Login(m, c, lambda ce: err(adt(RCE, 0, [ce])))
        if 'net' in tags: L.tls_args = lambda a, e: client_tls(ctx, m, a, e, cv)
        def attempt(i, env, done, delay, cause):
            if done == k: return m.end(i, err(adt(RCE, 0, [cause])))
            if not m.at(i, 'sleep', 'sleep_until'): return m.over(i, 'wait before the attempt')
            nme, a, t = m.ev[i]
            m.same('delay', f'wait before attempt {done + 1}', env, a[0], delay)
            m.need('scope', 'backoff waits are not cut short by a timeout', not flat(a[-1]), 'the wait runs under a timeout') if False else None
            nxt = dmin(c.maxdelay, satmul(a[0], c.mult))     # a[0] was just shown equal to the required delay
            retry = lambda j, e2, ce: attempt(j, e2, done + 1, nxt, ce)
            giveup = lambda j, e2, ce: m.end(j, err(adt(RCE, 0, [ce])))
            def failed(j, e2, ce):
                return retry(j, e2, ce) if isio(ctx, ce) else giveup(j, e2, ce)
            return L.open(i + 1, env,
                          lambda j, e2, s: L.handshake(j, e2, s, lambda q, e3: m.end(q, ok(UNIT)), failed),
                          lambda j, e2, oe: retry(j, e2, E(ctx, CE, 'Open', oe)))
        want = attempt(0, e, 0, c.delay0, E(ctx, CE, 'Timeout'))
        if value: ctx.equal(f'reconnect ({k} attempts): result', W, v, ready(want), VOCC, env=e)
    return n
def unlimited(ctx, tags):
    """no limit: an arbitrary iteration, from an arbitrary loop state"""
    y = rec_run(ctx, None)
    if y is None: return
    r, tr, v, c, e0, bufs, cv = y
    logs = [L for L in r.m.looplog if any(cell == aio.TRACE for cell, path in L['lvs'])]
    if len(logs) < 1: ctx.undecided(W, 'unlimited attempts: no loop around the attempts was found'); return
    L = logs[-1]
    t0 = next(s for (cell, path), s in L['lvs'].items() if cell == aio.TRACE)
    lvs = set(L['lvs'].values())
    n = 0
    for kind, group in (('back', [(c_, s) for c_, s in L['back']]), ('exit', [(c_, s) for c_, t, s in L['exits']])):
        for cond, s in group:
            env = assume(s.env, truth(restrict(cond, s.env)), True) or s.env
            t = restrict(r.m.get_cell(s, aio.TRACE), env)
            for ev, e in [(ev, e2) for ev, e1 in leaves(t, env) for e2 in holds(cond, e1)]:
                n += 1
                evs, rt = orig_events(t, e)
                if rt is not t0: ctx.undecided(W, 'unlimited attempts: trace of the iteration'); return
                counted = [a for a in e.d if a.op in ('le', 'ieq') and lvs & set(x for x in TMwalk(a) if x.op == 'sym') and not any(x.op == 'tr' for x in TMwalk(a))]
                dl = evs[0][1][0] if evs and evs[0][0].startswith('sleep') else None
                if dl is not None: counted = [a for a in counted if dl not in set(TMwalk(a))]
                m = Mon(ctx, W, evs, e, tags & {'delay'}, 'reconnect (no limit)')
                LG = Login(m, c, lambda ce: app('give-up'))
                retry = app('retry')
                if not m.at(0, 'sleep', 'sleep_until'): want = m.over(0, 'wait before the attempt')
                else:
                    def failed(j, e2, ce): return m.end(j, retry) if isio(ctx, ce) else m.end(j, app('give-up'))
                    want = LG.open(1, e, lambda j, e2, st_: LG.handshake(j, e2, st_, lambda q, e3: m.end(q, app('done')), failed), lambda j, e2, oe: m.end(j, retry))
                if counted:
                    ctx.undecided(W, 'unlimited attempts: the iteration depends on a counter: ' + show(counted[0], 4)); continue
                w = restrict(want, e)
                if kind == 'back':
                    ctx.equal('no limit: another attempt only after an I/O failure', W, retry, w, VOCC, env=e)
                    if dl is not None and dl in lvs:
                        cell, path = next(k for k, x in L['lvs'].items() if x is dl)
                        nd = r.m.leafget(r.m.get_cell(s, cell), path)
                        if TM.Equiv().check(nd, dmin(c.maxdelay, satmul(dl, c.mult)), e) is None: ctx.good(sample='the delay of any attempt is the capped multiple of the one before')
                        else: ctx.undecided(W, 'the recurrence of the delay is not of the expected form (its first values are checked above)')
                    elif dl is not None: ctx.undecided(W, 'recurrence of the delay')
                else: ctx.equal('no limit: stops only on success or a failure that is not retried', W, is_retry(w), ZERO, VOCC, env=e)
    ctx.extra['ways_one_iteration_can_run'] = n
def holds(c, e):
    """the cases of the conditions e in which c holds"""
    c = restrict(c, e)
    if c.op not in ATOMS and c.op not in ('ite', 'int'): c = truth(c)
    if c is ONE: return [e]
    if c is ZERO: return []
    a = c.a[0] if c.op == 'ite' else c
    out = []
    for v in (True, False):
        e2 = assume(e, a, v)
        if e2 is not None: out += holds(c, e2)
    return out
def is_retry(w):
    if w.op == 'ite': return ite(w.a[0], is_retry(w.a[1]), is_retry(w.a[2]))
    return ONE if w.op == 'app' and w.a[0] in ('retry', 'ended-too-early', 'unexpected-event') else ZERO
def isio(ctx, ce): return ce.a[1] == variant(ctx, CE, 'Io')
def dmin(a, b): return ite(le(b, a), b, a)
def satmul(d, k):
    x = mul(d, k)
    return ite(le(x, DMAX()), x, DMAX())
def client_tls(ctx, m, a, e, cv):
    """reconnecting uses the TLS configuration the client was opened with"""
    ti = typed_field(ctx, 'TlsConfig')
    if ti is None: ctx.undecided(W, 'no TLS configuration in the client'); return
    t = fld(sym('c'), None, ti)
    m.need('net', f'{m.what}: the stored TLS configuration is used', any(x is t for x in TMwalk(a[0])) and any(x is t for x in TMwalk(a[1])) and not calls(a[0]), f'TLS is set up with {show(a[0], 5)} for {show(a[1], 5)}')
def calls(t): return [x.a[0] for x in TMwalk(t) if x.op == 'app' and x.a[0].startswith('call:')]
def body(ctx):
    T = {'delay', 'order'}
    ks = (0, 1, 2, 3) if ctx.tier == 'quick' else (0, 1, 2, 3, 4)
    ways = ctx.extra['ways_reconnect_can_run'] = {}
    for k in ks:
        ways[k] = reconnect(ctx, k, T)
        if k == 0: unlimited(ctx, T)
        if ctx.viols: break        # longer histories only repeat it
