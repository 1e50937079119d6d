"""C28: the configuration of the builder is the configuration used."""
from loginspec import *
from c17 import cfgfield
W = 'tmi::client::ClientBuilder'
def check(ctx):
    ctx.rule('each setter replaces its own setting and nothing else; defaults have their documented values; a connected client holds the builder\'s configuration unchanged, and the TLS connection, login and timeouts use it')
    try: body(ctx)
    except Stuck as x: ctx.undecided(W, x)
def parts(ctx, c):
    cr = field(ctx, c, CFG, 'credentials'); bo = field(ctx, c, CFG, 'backoff')
    return {'login': field(ctx, cr, CR, 'login'), 'token': field(ctx, cr, CR, 'token'), 'timeout': field(ctx, c, CFG, 'timeout'),
            **{n: field(ctx, bo, BO, n) for n in ('max_tries', 'initial_delay', 'delay_multiplier', 'max_delay')}}
def builder_config(ctx, b):
    class R: args = [b]
    return cfgfield(ctx, R)
RNG = ('call:rand',)
def body(ctx):
    # setters
    for name, ty in (('credentials', CR), ('timeout', None), ('backoff', BO)):
        x = run(ctx, 'builder_' + name, hooks=HK)
        if x is None: continue
        old = parts(ctx, builder_config(ctx, x.args[0])); new = parts(ctx, builder_config(ctx, x.value))
        v = x.args[1]
        for k in old:
            mine = {'credentials': ('login', 'token'), 'timeout': ('timeout',), 'backoff': ('max_tries', 'initial_delay', 'delay_multiplier', 'max_delay')}[name]
            want = old[k] if k not in mine else v if name == 'timeout' else field(ctx, v, ty, k)
            ctx.equal(f'{name}(): {k}', f'{W}::{name}', new[k], want)
    # defaults
    want = {'timeout': num(30 * SECOND), 'max_tries': some(num(8)), 'initial_delay': num(SECOND), 'delay_multiplier': num(3), 'max_delay': num(12 * SECOND), 'token': NONE}
    for root, where, get in (('builder', 'tmi::Client::builder', lambda v: parts(ctx, builder_config(ctx, v))), ('config_default', CFG + '::default', lambda v: parts(ctx, v))):
        x = run(ctx, root, hooks=HK)
        if x is None: continue
        p = get(x.value)
        for k, w in want.items(): ctx.equal(f'{root}: default {k}', where, p[k], w)
        anon(ctx, where, p['login'])
    x = run(ctx, 'backoff_default', hooks=HK)
    if x is not None:
        for n in ('max_tries', 'initial_delay', 'delay_multiplier', 'max_delay'): ctx.equal(f'default backoff: {n}', BO + '::default', field(ctx, x.value, BO, n), want[n])
    # credentials
    x = run(ctx, 'credentials_new', hooks=HK)
    if x is not None:
        ctx.equal('Credentials::new: login', CR + '::new', field(ctx, x.value, CR, 'login'), x.args[0])
        ctx.equal('Credentials::new: token', CR + '::new', field(ctx, x.value, CR, 'token'), some(x.args[1]))
    for root in ('credentials_anon', 'credentials_default'):
        x = run(ctx, root, hooks=HK)
        if x is None: continue
        anon(ctx, CR + '::anon', field(ctx, x.value, CR, 'login'))
        ctx.equal(f'{root}: no token', CR + '::anon', field(ctx, x.value, CR, 'token'), NONE)
    for root, f in (('credentials_is_anon', lambda c: truth(ite(isSome(field(ctx, c, CR, 'token')), ZERO, ONE))), ('credentials_login', lambda c: field(ctx, c, CR, 'login')), ('credentials_token', lambda c: field(ctx, c, CR, 'token'))):
        x = run(ctx, root, hooks=HK)
        if x is not None: ctx.equal(root, CR, x.value, f(x.args[0]))
    for root, f in (('config', lambda c: None), ('client_credentials', lambda c: 'credentials')):
        x = run(ctx, root, hooks=HK)
        y = run(ctx, 'config', hooks=HK)
        if x is None or y is None: continue
        if f(0): ctx.equal('Client::credentials', 'tmi::Client::credentials', x.value, subst(field(ctx, y.value, CFG, 'credentials'), {y.args[0]: x.args[0]}))
    # what connecting uses and keeps
    T = {'order', 'config'}
    def kept(cfgt):
        def f(ctx, m, L, r, v, e):
            if restrict(is_(v, 0, 2), e) is not ONE: return
            y = run(ctx, 'config', hooks=HK)
            if y is None: return
            cl = okval(v)
            have = parts(ctx, subst(y.value, {y.args[0]: cl}))
            for k, w in parts(ctx, cfgt(r)).items(): ctx.equal(f'connect: the client keeps {k}', 'tmi::Client::connect', restrict(have[k], e), w, VOCC, env=e)
        return f
    used(ctx, 'connect', lambda r: cfgfield(ctx, r), kept(lambda r: cfgfield(ctx, r)))
    def configured(r):
        c, t, b = r.args[:3]
        vals = {'credentials': c, 'timeout': t, 'backoff': b}
        order = [(f.get('n') if isinstance(f, dict) else f[0]) for f in next(t for t in ctx.prog().types if t and t['k'] == 'adt' and t['n'] == CFG)['v'][0]['f']]
        if set(order) - set(vals): raise Stuck(f'{CFG} has settings this check does not know: {sorted(set(order) - set(vals))}')
        return adt(CFG, 0, [vals[n] for n in order])
    used(ctx, 'connect_configured', configured, kept(configured))
    # what reconnecting uses
    import c18
    for k in (1, 2):
        y = c18.rec_run(ctx, k)
        if y is None: continue
        r, tr, v, c, e0, bufs, cv = y
        if loopsyms(tr): ctx.undecided('tmi::Client::reconnect', 'the loop does not unroll'); continue
        traffic(ctx, f'reconnect ({k} attempts)', 'tmi::Client::reconnect', tr, c, e0)
        delays(ctx, f'reconnect ({k} attempts)', 'tmi::Client::reconnect', tr, c, e0)
    x = connect_run(ctx, 'connect_default')
    for root in ('connect_default', 'anonymous'):
        x = connect_run(ctx, root)
        if x is None: continue
        r, tr = x
        for ev, e in leaves(tr):
            v = restrict(rdy(r.value), e)
            if restrict(is_(v, 0, 2), e) is not ONE: continue
            y = run(ctx, 'config', hooks=HK)
            have = parts(ctx, subst(y.value, {y.args[0]: okval(v)}))
            for k, w in want.items(): ctx.equal(f'{root}: {k}', 'tmi::Client::connect', restrict(have[k], e), w, VOCC, env=e)
            anon(ctx, 'tmi::Client::connect', restrict(have['login'], e))
            for n, a, t in orig_events(tr, e)[0]:
                if n in ('tcp', 'tls', 'write', 'flush', 'read'):
                    if any(d is want['timeout'] for d in flat(a[-1])): ctx.good(sample=f'{root}: {n} under the default timeout')
                    else: ctx.bad(f'{root}: timeout used', 'tmi::Client::connect', f'`{n}` runs under {[show(d, 3) for d in flat(a[-1])]}')
def used(ctx, root, cfgt, okc):
    """the settings appear where they are used: checked by the monitor of C17 and C22, restricted to what depends on the configuration"""
    x = connect_run(ctx, root)
    if x is None: return
    r, tr = x
    c = Conf(ctx, cfgt(r))
    traffic(ctx, root, 'tmi::Client::connect', tr, c, EMPTYENV, lambda m, e: okc(ctx, m, None, r, restrict(rdy(r.value), e), e))
def delays(ctx, what, where, tr, c, e0):
    """the first wait is the configured one (the others are C18's)"""
    seen = set()
    for ev, e in leaves(tr, e0):
        for n, a, t in orig_events(tr, e)[0]:
            if not n.startswith('sleep'): continue
            if t not in seen: seen.add(t); ctx.equal(f'{what}: first wait', where, restrict(a[0], e), restrict(c.delay0, e), VOCC, env=e)
            break
def traffic(ctx, root, w, tr, c, e0, then=None):
    for ev, e in leaves(tr, e0):
        evs, _ = orig_events(tr, e)
        m = Mon(ctx, w, evs, e, {'scope'}, root)
        sofar = EMPTY
        for i, (n, a, t) in enumerate(evs):
            if n.startswith('sleep') or n == 'tcp': sofar = EMPTY      # a new attempt
            if n in ('tcp', 'tls', 'write', 'flush', 'read'): m.scope(i, e, [(c.timeout, 'the configured timeout')])
            if n == 'write': sofar = cat(sofar, a[1])
        sent = restrict(sofar, e)
        if sent is not EMPTY:
            for nm, t in (('login', c.login), ('token', val(c.token))):
                if nm == 'token' and restrict(isSome(c.token), e) is ZERO: continue
                if t in set(TMwalk(sent)): ctx.good(sample=f'{root}: the login sends the configured {nm}')
                elif not loopsyms(sent) and any(n == 'flush' for n, a, t in evs): ctx.bad(f'{root}: {nm} used', w, f'the login text {show(sent, 6)} does not contain the configured {nm}')
        if then: then(m, e)
def anon(ctx, where, t):
    """justinfan followed by a random number in 10000..99999"""
    ok_ = t.op == 'cat' and len(t.a[0]) == 2 and t.a[0][0] is st('justinfan')
    if not ok_:
        if unmod(t): ctx.undecided(where, 'anonymous login: ' + show(t, 5)); return
        ctx.bad('anonymous login', where, f'the anonymous login is {show(t, 6)}'); return
    rng = [x for x in TMwalk(t) if x.op == 'adt' and x.a[0] == 'std::ops::Range']
    if any('gen_range' in x.a[0] for x in TMwalk(t) if x.op == 'app') and len(rng) == 1:
        a = rng[0].a[2]
        if a[0] is num(10000) and a[1] is num(99999): ctx.good(sample='anonymous login: justinfan + number in 10000..99999')
        elif a[0].op == 'int' and a[1].op == 'int': ctx.bad('anonymous login number', where, f'the number is drawn from {show(a[0])}..{show(a[1])}')
        else: ctx.undecided(where, 'range of the anonymous login: ' + show(rng[0], 4))
    else: ctx.undecided(where, 'anonymous login: ' + show(t, 5))
def unmod(t): return any(x.op == 'app' and x.a[0].startswith('call:') and 'gen_range' not in x.a[0] for x in TMwalk(t))
