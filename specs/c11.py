"""C11: accessors, predicates and badge conversions."""
from common import *
import c08
ALIAS = {('Subscriber', 'months'): 'months_n', ('Privmsg', 'raw_emotes'): 'emotes', ('UserNotice', 'raw_emotes'): 'emotes', ('Whisper', 'raw_emotes'): 'emotes'}
UNESC = {('User', 'name'), ('GlobalUserState', 'name'), ('Reply', 'text'), ('UserNotice', 'system_message'), ('SubOrResub', 'sub_plan_name'), ('SubGift', 'sub_plan_name')}
OTHER = {('ClearChat', 'target'), ('Action', 'is_clear'), ('Action', 'is_ban'), ('Action', 'is_time_out'), ('PinnedChatLevel', 'as_str')}

def accessors(ctx):
    for r in sorted(ctx.prog().roots):
        if not r.startswith('h_get__'): continue
        _, ty, g = r.split('__')
        if (ty, g) in OTHER: continue
        where = f'tmi::{ty}::{g}'
        s = c08.variant_index_struct(ctx, ty)
        if s is None: ctx.undecided(where, f'type {ty} not found'); continue
        names = [f[0] for f in s[2]['v'][0]['f']]
        base = g[4:] if g.startswith('num_') and g[4:] in names else g
        base = ALIAS.get((ty, base), base)
        if base not in names: ctx.undecided(where, f'no field {base} in {ty}'); continue
        v = value(ctx, r[2:])
        if v is None: continue
        x = fld(sym('x'), None, names.index(base))
        if base != g and g == 'num_' + base: want = length(x)
        elif (ty, g) in UNESC:
            want = omap(x, lambda y: app('unescape', y)) if (ty, g) == ('UserNotice', 'system_message') else app('unescape', x)
        else: want = x
        ctx.equal(f'{ty}.{g}', where, v, want)

def action_kind(ctx):
    x = sym('x')
    vi = lambda n: variant_index(ctx, 'Action', n)[:2]
    for g, n in (('is_clear', 'Clear'), ('is_ban', 'Ban'), ('is_time_out', 'TimeOut')):
        v = value(ctx, f'get__Action__{g}')
        if v is not None: ctx.equal(f'Action.{g}', f'tmi::Action::{g}', v, is_(x, *vi(n)))
    v = value(ctx, 'get__ClearChat__target')
    s = c08.variant_index_struct(ctx, 'ClearChat')
    names = [f[0] for f in s[2]['v'][0]['f']]
    if v is not None and 'action' in names:
        a = apply_root(ctx, 'get__ClearChat__action', x)
        bi, ti = vi('Ban'), vi('TimeOut')
        bu = apply_root(ctx, 'get__Ban__user', fld(a, bi[0], 0)); tu = apply_root(ctx, 'get__TimeOut__user', fld(a, ti[0], 0))
        ctx.equal('ClearChat.target', 'tmi::ClearChat::target', v, ite(is_(a, *bi), some(bu), ite(is_(a, *ti), some(tu), NONE)))

def badges(ctx):
    c08.badge_kinds(ctx)
    KINDS = c08.KINDS; v = value(ctx, 'data_to_badge')
    b = sym('b'); G = lambda f, x: apply_root(ctx, 'get__BadgeData__' + f, x)
    for root, w2 in (('badge_as_data', 'tmi::Badge::as_badge_data'), ('badge_to_data', 'tmi::BadgeData (From<Badge>)')):
        d = value(ctx, root)
        if d is None: continue
        si, nv, _ = variant_index(ctx, 'Badge', 'Subscriber'); oi = variant_index(ctx, 'Badge', 'Other')[0]
        rest = ONE
        for s, vn in KINDS:
            i = variant_index(ctx, 'Badge', vn)[0]
            c = is_(b, i, nv)
            o = Obj('BadgeData', name=st(s), version=st('1'), extra=NONE)
            if vn == 'Subscriber':
                sub = fld(b, i, 0)
                o = Obj('BadgeData', name=st(s), version=apply_root(ctx, 'get__Subscriber__version', sub))
                # the months text is private: it must be what conversion to a badge reads back (checked below)
            compare(ctx, f'{root} {vn}', w2, d, o, ite(rest, c, ZERO))
            rest = ite(rest, NOT(c), ZERO)
        ob = fld(b, oi, 0)
        compare(ctx, f'{root} Other', w2, d, Obj('BadgeData', name=G('name', ob), version=G('version', ob), extra=G('extra', ob)), rest)
        if v is not None:
            # data -> badge -> data -> badge gives the same badge
            b1 = v
            d1 = apply_root(ctx, root, b1)
            b2 = apply_root(ctx, 'data_to_badge', d1)
            ctx.equal(f'data to badge to data ({root}) to badge', w2, b2, b1)
            # the months text survives
            sc = eq(G('name', b), st('subscriber'))
            compare(ctx, f'{root} subscriber months text', w2, d1, Obj('BadgeData', version=G('version', b), extra=some(orelse(G('extra', b), st('1')))), sc)
def check(ctx):
    ctx.rule('each accessor on an arbitrary value equals its own field (unescaped where documented, length for counts, all elements for iterators); predicates and target follow the variant; badge conversions compose to the identity')
    accessors(ctx); action_kind(ctx); badges(ctx)
