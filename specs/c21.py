"""C21: receiving."""
from clientspec import *
def check(ctx):
    ctx.rule('one read per receive; its outcome determines the result exactly; disconnects are exactly the listed failures')
    try: body(ctx)
    except Stuck as x: ctx.undecided('tmi::Client::recv', x)
def recv_result(ctx, m, i, tr, env, k, fail):
    """result of a receive whose read event has trace tr: k(message, env) or fail(RecvError, env)"""
    o = app('res', tr)
    line = val(o)
    def got(e): return m.br(isOk(line), e, parsed, lambda e2: fail(E(ctx, RE, 'Io', fld(line, 1, 0)), e2))
    def parsed(e):
        t = okval(line); p = app('irc.parse', t)
        return m.br(isSome(p), e, lambda e2: k(val(p), e2), lambda e2: fail(E(ctx, RE, 'Parse', t), e2))
    return m.br(isSome(o), env, got, lambda e: fail(E(ctx, RE, 'StreamClosed'), e))
def body(ctx):
    w = 'tmi::client::read Client::recv'
    a, cv, bufs = with_client(ctx)
    r = crun(ctx, 'recv', args=[a])
    if r is not None:
        import panics
        panics.panics(ctx, w, 'recv', r)
        tr = r.m.get_cell(r.state, aio.TRACE)
        ri = typed_field(ctx, 'ReadHalf')
        for ev, e in leaves(tr):
            evs, _ = orig_events(tr, e)
            m = Mon(ctx, w, evs, e, {'target'}, 'recv')
            if not m.at(0, 'read'): want = m.over(0, 'read one line')
            else:
                if ri is not None: m.same('target', 'recv: reads the client\'s own stream', e, evs[0][1][0], fld(sym('c'), None, ri))
                want = recv_result(ctx, m, 0, evs[0][2], e, lambda msg, e2: m.end(1, ok(msg)), lambda er, e2: m.end(1, err(er)))
            ctx.equal('recv: result', w, r.value, ready(want), VOCC, env=e)
    x = run(ctx, 'is_disconnect', hooks=HC)
    if x is not None:
        n = None
        for t in ctx.prog().types:
            if t and t['k'] == 'adt' and t['n'] == RE: n = len(t['v'])
        er = x.args[0]
        isv = lambda v: is_(er, variant(ctx, RE, v), n)
        kind = app('io.kind', fld(er, variant(ctx, RE, 'Io'), 0))
        nk = None
        for t in ctx.prog().types:
            if t and t['k'] == 'adt' and t['n'].endswith('io::ErrorKind'): nk = t
        if nk is None: ctx.undecided('is_disconnect', 'std::io::ErrorKind not found'); return
        ks = [i for i, v in enumerate(nk['v']) if v['n'] in ('UnexpectedEof', 'ConnectionAborted', 'TimedOut')]
        NVAR[nk['n']] = len(nk['v'])
        for i, v in enumerate(nk['v']): VNAMES[(nk['n'], i)] = v['n']
        want = OR(isv('StreamClosed'), conj(isv('Io'), OR(*[is_(kind, i, len(nk['v'])) for i in ks])))
        ctx.equal('is_disconnect', 'tmi::client::read::RecvError::is_disconnect', x.value, want, VOCC)
