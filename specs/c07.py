"""C07: typed dispatch."""
from common import *
import boundaries
def check(ctx):
    ctx.rule('the value of the conversion to Message equals, per command variant, that type\'s own conversion wrapped in its variant; Reconnect and Other as specified; every type rejects other commands')
    cmds = variant_index(ctx, 'Command', 'Ping')[2]['v']
    msgs = variant_index(ctx, 'Message', 'Ping')[2]['v']
    msgn = [v['n'] for v in msgs]
    v = value(ctx, 'parse__Message')
    w = 'tmi::Message (FromIrc::from_irc)'
    typed = [r.split('__')[1] for r in ctx.prog().roots if r.startswith('h_parse__') and r != 'h_parse__Message']
    if len(typed) < 13: ctx.bad('anchor', w, f'only {len(typed)} typed messages')
    if v is not None:
        seen = set(); rest = ONE
        for ci, c in enumerate(cmds):
            name = c['n']
            cond = is_(command(), ci, len(cmds))
            if name in typed:
                p = value(ctx, 'parse__' + name)
                if p is None: continue
                seen.add(name)
                mi = msgn.index(name)
                ctx.equal(f'{name}: conversion succeeds like {name}\'s own', w, ite(cond, isOk(v), ZERO), ite(cond, isOk(p), ZERO), VOC)
                okc = ite(cond, isOk(p), ZERO)
                ctx.equal(f'{name}: variant', w, ite(okc, is_(okval(v), mi, len(msgs)), ONE), ONE, VOC)
                ctx.equal(f'{name}: payload', w, ite(okc, fld(okval(v), mi, 0), ZERO), ite(okc, okval(p), ZERO), VOC)
            else:
                target = 'Reconnect' if name == 'Reconnect' else 'Other'
                mi = msgn.index(target)
                ctx.equal(f'{name}: becomes {target}', w, ite(cond, isOk(v), ONE), ONE, VOC)
                ctx.equal(f'{name}: is {target}', w, ite(cond, is_(okval(v), mi, len(msgs)), ONE), ONE, VOC)
                if target == 'Other': ctx.equal(f'{name}: message kept', w, ite(cond, fld(okval(v), mi, 0), ZERO), ite(cond, M, ZERO), VOC)
        for t in typed:
            if t not in seen: ctx.bad(f'{t}: no command', w, f'{t} has no command variant of its name')
        # no private test for a command is missing: a type accepts only its own command
    for t in typed:
        p = value(ctx, 'parse__' + t)
        if p is None: continue
        ci = [c['n'] for c in cmds].index(t) if t in [c['n'] for c in cmds] else None
        if ci is None: continue
        ctx.equal(f'{t}: rejects other commands', f'tmi::{t} (FromIrc::from_irc)', ite(is_(command(), ci, len(cmds)), ZERO, isOk(p)), ZERO, VOC)
        im = run(ctx, 'into_message__' + t, hooks=HK)
        if im is not None:
            ctx.equal(f'{t}: wrapping', f'tmi::Message (From<{t}>)', im.value, adt('tmi::Message', msgn.index(t), [im.args[0]]))
    # all ways to convert agree
    H = dict(HK)
    H["tmi::IrcMessageRef::<'src>::parse"] = lambda S, c: app('irc.parse', c.m.deep(c.st, c.args[0]))
    H['tmi::IrcMessage::as_ref'] = lambda S, c: c.m.deep(c.st, c.args[0])
    if v is not None:
        for root in ('message_try_from', 'as_typed_ref', 'as_typed_owned'):
            x = run(ctx, root, hooks=H)
            if x is None: continue
            g, a = x.value, x.args[0]
            ctx.equal(f'{root}: succeeds alike', root, isOk(g), isOk(subst(v, {M: a})), VOC)
            ctx.equal(f'{root}: same value', root, ite(isOk(g), okval(g), ZERO), ite(isOk(g), okval(subst(v, {M: a})), ZERO), VOC)
        x = run(ctx, 'message_parse', hooks=H)
        if x is not None:
            p = app('irc.parse', x.args[0])
            c = ite(isSome(p), isOk(subst(v, {M: val(p)})), ZERO)
            ctx.equal('Message::parse succeeds', 'tmi::Message::parse', isOk(x.value), c, VOC)
            ctx.equal('Message::parse value', 'tmi::Message::parse', ite(c, okval(x.value), ZERO), ite(c, okval(subst(v, {M: val(p)})), ZERO), VOC)
