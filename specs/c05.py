"""C05: owned and borrowed messages agree."""
from common import *
import irc
ACC = ['raw', 'tags', 'prefix', 'command', 'channel', 'params', 'text', 'tag', 'tag_str']
TM.REAPP['tagname'] = lambda t: t.a[1][0] if t.op == 'app' and t.a[0] == 'tagof' else mk('app', 'tagname', (t,))
def hooks(ctx):
    """names of tags are leaves here (C06 decides them)"""
    h = {}
    for i in ctx.prog().insts:
        p = i['path']
        if p.startswith('tmi::Tag') and p.endswith('::as_str'): h[p] = lambda S, c: app('tagname', c.m.deep(c.st, c.args[0]))
        if p.startswith('tmi::Tag') and p.endswith('::parse'): h[p] = lambda S, c: app('tagof', c.m.deep(c.st, c.args[0]))
    return h
def ap(ctx, root, m, *more):
    r = run(ctx, root, hooks=hooks(ctx), opts=irc.OPTS)
    if r is None: return None
    s = {r.args[0]: m}
    for a, b in zip(r.args[1:], more): s[a] = b
    return subst(r.value, s)
def check(ctx):
    ctx.rule('each accessor composed with the owned parser has the same value as composed with the borrowed one, and each accessor is unchanged by converting between the forms')
    v, h = irc.parsed(ctx); o, _ = irc.parsed(ctx, 'own_parse'); o2, _ = irc.parsed(ctx, 'own_parse_ref')
    T = sym('t')
    if v is None or o is None:
        if len(h) < 2: ctx.undecided('tmi::IrcMessage::parse', 'scanners not found')
    else:
        for nm, x in (('own_parse', o), ('own_parse_ref', o2)):
            if x is None: continue
            if not ctx.equal(f'{nm} succeeds alike', 'tmi::IrcMessage::parse', isSome(x), isSome(v)): continue
            i = ap(ctx, 'ref_into_owned', val(v))
            if i is not None: ctx.equal(f'{nm}: equals parsing borrowed and converting', 'tmi::IrcMessage::parse', ite(isSome(v), val(x), ZERO), ite(isSome(v), i, ZERO))
    # conversions
    m = sym('m')
    i = ap(ctx, 'ref_into_owned', m); r = ap(ctx, 'own_as_ref', m); c = ap(ctx, 'ref_clone', m)
    for a in ACC:
        if i is not None:
            g, w = ap(ctx, 'own_' + a, i, T), ap(ctx, 'ref_' + a, m, T)
            if g is not None and w is not None: ctx.equal(f'into_owned keeps {a}', f'tmi::IrcMessageRef::into_owned / {a}', g, w)
        if r is not None:
            g, w = ap(ctx, 'ref_' + a, r, T), ap(ctx, 'own_' + a, m, T)
            if g is not None and w is not None: ctx.equal(f'as_ref keeps {a}', f'tmi::IrcMessage::as_ref / {a}', g, w)
        if c is not None:
            g, w = ap(ctx, 'ref_' + a, c, T), ap(ctx, 'ref_' + a, m, T)
            if g is not None and w is not None: ctx.equal(f'clone keeps {a}', f'tmi::IrcMessageRef::clone / {a}', g, w)
    # lookup, text, channel of names replies
    for f in ('ref', 'own'):
        W = f'tmi::IrcMessage{"Ref" if f == "ref" else ""}'
        tags = ap(ctx, f + '_tags', m)
        for root in ('tag', 'tag_str'):
            g = ap(ctx, f + '_' + root, m, T)
            if g is None or tags is None: continue
            name = T if root == 'tag_str' else app('tagname', T)
            try: want = subst_run(ctx, tags, name)
            except VIOL_UNSUP as x: ctx.undecided(W + '::tag', x); continue
            if want is not None: ctx.equal(f'{f} {root}: value of the first pair with that key', W + '::tag', g, want)
        params = ap(ctx, f + '_params', m); text = ap(ctx, f + '_text', m); ch = ap(ctx, f + '_channel', m); cmd = ap(ctx, f + '_command', m)
        if params is not None and text is not None: ctx.equal(f'{f} text', W + '::text', text, irc.text_of(params))
        if ch is not None and params is not None and cmd is not None:
            n1, n2 = variant_index(ctx, 'Command', 'RplNames'), variant_index(ctx, 'Command', 'RplEndOfNames')
            word = ap(ctx, 'spec_nth_word', val(params))
            if word is not None:
                a = is_(cmd, n1[0], n1[1]); b = is_(cmd, n2[0], n2[1])
                ctx.equal(f'{f} channel of a names reply', W + '::channel', ite(a, ch, ZERO), ite(a, oand(params, lambda p: fld(word, None, 1)), ZERO))
                ctx.equal(f'{f} channel of an end of names reply', W + '::channel', ite(b, ch, ZERO), ite(b, oand(params, lambda p: fld(word, None, 0)), ZERO))
def subst_run(ctx, tags, name):
    r = run(ctx, 'spec_lookup', hooks=None, args=[tags, name], opts=irc.OPTS)
    return r.value if r else None
