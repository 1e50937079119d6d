"""C15: exact wire text of every outgoing command."""
from clientspec import *
S = sym
def hashed(ch): return ite(pred('starts', ch, st('#')), ch, cat(st('#'), ch))
W = 'tmi::client::write'
TAGS = ('text',)
def check(ctx):
    ctx.rule('for every way a send can run, the bytes written before the flush are exactly the specified text as a function of the arguments')
    try: body(ctx)
    except Stuck as x: ctx.undecided('tmi::Client', x)
def body(ctx):
    sender(ctx, 'ping', W + ' Client::ping', 'PING', lambda a: cat(st('PING :'), a[1], st('\r\n')), tags=TAGS)
    n = run(ctx, 'ping_nonce', hooks=HK)
    if n is not None:
        nn = lambda a: subst(n.value, {n.args[0]: a[1]})
        sender(ctx, 'pong', W + ' Client::pong', 'PONG', lambda a: cat(st('PONG'), ite(isSome(nn(a)), cat(st(' :'), val(nn(a))), EMPTY), st('\r\n')), tags=TAGS)
    sender(ctx, 'join', W + ' Client::join', 'JOIN', lambda a: cat(st('JOIN '), hashed(a[1]), st('\r\n')), tags=TAGS)
    def many(chs):
        out = [st('JOIN ')]
        for i, c in enumerate(chs): out += [st(',')] * (i > 0) + [hashed(c)]
        return cat(*out, st('\r\n'))
    for k in range(4):
        chs = [S('channel%d' % i, 'str') for i in range(k)]
        sender(ctx, 'join_all', W + ' Client::join_all', f'JOIN of {k} channels', lambda a: many(chs), extra=[lst([one(c) for c in chs])], tags=TAGS)
    # any number of channels: the text is the first channel and then `,channel` for each of the rest
    a, cv, bufs = with_client(ctx)
    r = crun(ctx, 'join_all', args=[a])
    done = False
    if r is not None:
        tr = subst(r.m.get_cell(r.state, aio.TRACE), {b: EMPTY for b in bufs})
        done = general_join(ctx, tr, r.args[1])
    if not done:
        # the same, for an empty list (above) and for one channel followed by any others
        a, cv, bufs = with_client(ctx)
        c0, more = S('channel0', 'str'), S('channels')
        r = crun(ctx, 'join_all', args=[a, lst([one(c0), mk('sub', more)])])
        if r is not None:
            tr = subst(r.m.get_cell(r.state, aio.TRACE), {b: EMPTY for b in bufs})
            want = cat(st('JOIN '), hashed(c0), mk('many', more, 0, cat(st(','), hashed(MD.elem(more, 0)))), st('\r\n'))
            done = join_leaves(ctx, tr, want)
    if not done:
        # longer lists, one by one
        for k in (8, 20, 50, 110):
            chs = [S('channel%d' % i, 'str') for i in range(k)]
            sender(ctx, 'join_all', W + ' Client::join_all', f'JOIN of {k} channels', lambda a: many(chs), extra=[lst([one(c) for c in chs])], tags=TAGS)
            if ctx.viols: break
        ctx.undecided(W + ' Client::join_all', 'lists of more than 3 channels: the loop is not of a recognised shape')
    pv = lambda *tags: (lambda a: cat(*([st('@'), *tags_(a, tags), st(' ')] if tags else []), st('PRIVMSG '), a[1], st(' :'), a[2], st('\r\n')))
    def tags_(a, ts):
        out = []
        for i, (k, j) in enumerate(ts): out += [st(';')] * (i > 0) + [st(k + '='), a[j]]
        return out
    R, N = 'reply-parent-msg-id', 'client-nonce'
    w = W + '::Privmsg::send'
    sender(ctx, 'send_privmsg', w, 'PRIVMSG', pv(), tags=TAGS)
    sender(ctx, 'send_privmsg_reply', w, 'PRIVMSG reply', pv((R, 3)), tags=TAGS)
    sender(ctx, 'send_privmsg_nonce', w, 'PRIVMSG nonce', pv((N, 3)), tags=TAGS)
    sender(ctx, 'send_privmsg_both', w, 'PRIVMSG reply+nonce', pv((R, 3), (N, 4)), tags=TAGS)
    sender(ctx, 'send_privmsg_both2', w, 'PRIVMSG nonce+reply', pv((R, 3), (N, 4)), tags=TAGS)
def general_join(ctx, tr, chs):
    first = app('nth', chs, num(0))
    rest = app('drop', chs, num(1))
    e = lambda s: mk('elem', s, 0)
    el = MD.elem(rest, 0)
    want = cat(st('JOIN '), ite(isSome(first), hashed(val(first)), EMPTY), mk('many', rest, 0, cat(st(','), hashed(el))), st('\r\n'))
    return join_leaves(ctx, tr, want)
def join_leaves(ctx, tr, want):
    n = 0
    for ev, env in leaves(tr):
        evs, _ = orig_events(tr, env)
        got = cat(*[unfold(x) for a in [a[1] for n, a, t in evs if n == 'write'] for x in (a.a[0] if a.op == 'cat' else (a,))])
        if not evs or [n for n, a, t in evs][-1] != 'flush': continue
        if TM.Equiv().check(got, want, env) is not None: return False
        n += 1
    if not n: return False
    ctx.good(n, sample='JOIN of any number of channels: first, then `,channel` for each of the rest')
    return True
def unfold(t):
    """a text built in a loop over `head, tail...` with further loop variables: the first turn is taken, and the others are shown
    to append the same function of the element each, with the variables constant or (counters) at least their value after the first turn"""
    if t.op != 'fold': return t
    Sq, lvl, inits, steps, k = t.a
    if not (Sq.op == 'list' and len(Sq.a[0]) == 2 and Sq.a[0][0].op == 'one' and Sq.a[0][1].op == 'sub'): return t
    accs = [next((x for x in free_accs(steps) if x.a[0] == 'acc%d' % j), sym('acc%d' % j)) for j in range(len(inits))]
    e = mk('elem', Sq, lvl)
    one_turn = lambda vals, el: [subst(x, {**dict(zip(accs, vals)), e: el}) for x in steps]
    first = one_turn(inits, Sq.a[0][0].a[0])
    tail = Sq.a[0][1].a[0]; el = MD.elem(tail, 0)
    env = TM.EMPTYENV; vals = []
    for j, x in enumerate(first):
        if j == k: vals.append(accs[k]); continue
        nx = subst(steps[j], {accs[j]: x, e: el})
        if x.op in ('int', 'str', 'adt') and nx is x: vals.append(x); continue
        d = sub(steps[j], accs[j])
        if x.op == 'int' and d.op == 'int' and d.a[0] >= 0:
            at = le(accs[j], sub(x, num(1)))
            if at.op in TM.ATOMS: env = env.add(at, False)
            vals.append(accs[j]); continue
        return t
    if env is None: return t
    nxt = TM.restrict(one_turn(vals, el)[k], env)
    r = dict_delta(accs[k], nxt)
    if r is None or any(a in M_free(r) for a in accs): return t
    return cat(first[k], mk('many', tail, 0, r))
def M_free(t): return free_accs((t,))
def free_accs(ts):
    import machine
    out = set()
    for t in ts: out |= {x for x in machine.free_syms(t) if isinstance(x.a[0], str) and x.a[0].startswith('acc')}
    return out
def dict_delta(acc, n):
    if n is acc: return EMPTY
    if n.op == 'ite':
        if acc in M_free(n.a[0]): return None
        a, b = dict_delta(acc, n.a[1]), dict_delta(acc, n.a[2])
        return None if a is None or b is None else ite(n.a[0], a, b)
    if n.op == 'cat':
        h = dict_delta(acc, n.a[0][0])
        return None if h is None else cat(h, *n.a[0][1:])
    return None
