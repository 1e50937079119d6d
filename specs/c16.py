"""C16: sends are complete, gated and reported; nothing is left behind."""
from clientspec import *
from c15 import W
def check(ctx):
    ctx.rule('every way a send can run: refused without any I/O unless the text ends in CRLF; otherwise all of it is written, then flushed, before Ok; each I/O failure is returned; the scratch text does not survive any exit, including cancellation at every await')
    try: body(ctx)
    except Stuck as x: ctx.undecided('tmi::Client', x)
SENDERS = [('ping', W + ' Client::ping'), ('pong', W + ' Client::pong'), ('join', W + ' Client::join'), ('join_all', W + ' Client::join_all'),
           ('send_privmsg', W + '::Privmsg::send'), ('send_privmsg_both', W + '::Privmsg::send')]
def body(ctx):
    T = ('order', 'value', 'text', 'target')
    sender(ctx, 'send_raw', W + ' Client::send_raw', 'raw send', lambda a: a[1], gate=lambda a: pred('ends', a[1], st('\r\n')), tags=T)
    x = run(ctx, 'raw_try_from')
    if x is not None:
        c = pred('ends', x.args[0], st('\r\n'))
        ctx.equal('raw message accepted', W + '::RawMessage (TryFrom<&str>)', isOk(x.value), c)
        # a checked message is sent whole
        d = sym('data', 'str')
        raw = subst(okval(restrict(x.value, assume(EMPTYENV, c, True))), {x.args[0]: d})
        if raw.op in ('adt', 'str', 'sym'):
            sender(ctx, 'send_raw_msg', W + ' Client::send_raw', 'checked raw send', lambda a: d, tags=T, extra=[raw], gate=lambda a: pred('ends', d, st('\r\n')) if rechecks(ctx, raw, d) else ONE)
    for root, where in SENDERS:
        gated_value(ctx, root, where)
    # text left behind
    users, ends = [], []
    ops = [(r, w, None) for r, w in SENDERS + [('send_raw', W + ' Client::send_raw')]]
    for root, where, ex in ops:
        r = leftover(ctx, root, where, root)
        if r is None: continue
        if r[0]: users.append(where)
        ends.append((where, r[1]))
    import c18
    for k in (1, 2):
        r = c18.leftover_reconnect(ctx, k)
        if r is None: continue
        where = 'tmi::Client::reconnect'
        if r[0]: users.append(where)
        ends.append((where, r[1]))
    r = c18.connected(ctx)
    if r is not None: ends.append(('tmi::Client::connect', r))
    ctx.extra['sends_that_use_the_buffer'] = sorted(set(users))
    for where, fs in ends:
        for i, v in fs:
            if not users: ctx.good(sample='no send transmits text found in the buffer'); continue
            if loopsyms(v): ctx.undecided(where, 'loop'); continue
            ctx.equal(f'{where}: buffer empty however it ends', where, v, EMPTY, VOCC)
def rechecks(ctx, raw, d): return False
def gated_value(ctx, root, where):
    """any text, but complete, flushed and reported"""
    a, cv, bufs = with_client(ctx)
    r = crun(ctx, root, args=[a])
    if r is None: return
    sub0 = {b: EMPTY for b in bufs}
    tr = subst(r.m.get_cell(r.state, aio.TRACE), sub0); v = subst(r.value, sub0)
    for ev, e in leaves(tr):
        evs, _ = orig_events(tr, e)
        m = Mon(ctx, where, evs, e, {'order'}, root)
        text = cat(*[x[1] for n, x, t in evs if n == 'write'])
        io = lambda x: err(E(ctx, SE, 'Io', x))
        want = write_phase(m, 0, e, None, text, lambda i, e2: m.end(i, ok(UNIT)), err=io)
        ctx.equal(f'{root}: result', where, v, ready(want), VOCC, env=e)
        if evs and evs[-1][0] == 'flush': ctx.equal(f'{root}: ends in CRLF', where, pred('ends', text, st('\r\n')), ONE, VOCC, env=e)
