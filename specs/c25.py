"""C25: pinned chat levels."""
from common import *
NAMES = ['ONE', 'TWO', 'THREE', 'FOUR', 'FIVE', 'SIX', 'SEVEN', 'EIGHT', 'NINE', 'TEN']
def check(ctx):
    ctx.rule('each conversion equals the table ONE..TEN / 0..9 for every input value; anything else is an error')
    x = sym('x')
    V = [variant_index(ctx, 'PinnedChatLevel', n) for n in NAMES]
    if any(v is None for v in V): ctx.bad('anchor', 'tmi::PinnedChatLevel', 'a level is missing'); return
    n = V[0][1]
    if n != 10: ctx.bad('levels', 'tmi::PinnedChatLevel', f'{n} levels')
    lv = lambda i: adt('tmi::PinnedChatLevel', V[i][0], [])
    def table(c, f, d):
        r = d
        for i in reversed(range(10)): r = ite(c(i), f(i), r)
        return r
    v = run(ctx, 'get__PinnedChatLevel__as_str')
    if v: 
        a = v.args[0]
        ctx.equal('as_str', 'tmi::PinnedChatLevel::as_str', v.value, table(lambda i: is_(a, V[i][0], n), lambda i: st(NAMES[i]), ZERO))
    v = run(ctx, 'pinned_level_from_str')
    if v: ctx.equal('from_str', 'tmi::PinnedChatLevel (FromStr)', v.value, table(lambda i: eq(v.args[0], st(NAMES[i])), lambda i: some(lv(i)), NONE))
    v = run(ctx, 'pinned_level_to_u8')
    if v:
        a = v.args[0]
        ctx.equal('u8 from level', 'tmi::PinnedChatLevel (Into<u8>)', v.value, table(lambda i: is_(a, V[i][0], n), lambda i: num(i), ZERO))
    v = run(ctx, 'pinned_level_from_u8')
    if v:
        a = v.args[0]
        ctx.equal('level from u8 succeeds', 'tmi::PinnedChatLevel (TryFrom<u8>)', isOk(v.value), le(a, num(9)))
        ctx.equal('level from u8', 'tmi::PinnedChatLevel (TryFrom<u8>)', ite(le(a, num(9)), okval(v.value), ZERO),
                  table(lambda i: ieq(a, num(i)), lambda i: lv(i), ZERO))
        for o in v.m.oblig_static:
            if 'transmute' in str(o): ctx.extra.setdefault('transmute_sites', []).append(str(o)[:200])
