"""C32: the text of a prefix."""
from common import *
import scan
from clientspec import field
PX = 'tmi::Prefix'
def check(ctx):
    w = 'tmi::Prefix as Display'
    ctx.rule('value graph of the text of a prefix equals nick!user@host, nick@host or host by the parts present')
    r = run(ctx, 'prefix_display')
    if r is not None:
        x = r.args[0]
        f = lambda n: field(ctx, x, PX, n)
        nick, user, host = f('nick'), f('user'), f('host')
        out = r.m.deep(r.state, r.args[1])
        want = cat(sym('out', 'str'), ite(isSome(nick), cat(val(nick), ite(isSome(user), cat(st('!'), val(user)), st('')), st('@')), st('')), host)
        # a user without a nick is never read from a line
        ok_ = OR(isSome(nick), NOT(isSome(user)))
        ctx.equal('printing a prefix', w, ite(ok_, out, ZERO), ite(ok_, want, ZERO))
        ctx.equal('printing a prefix succeeds', w, ite(ok_, isOk(r.value), ZERO), ite(ok_, ONE, ZERO))
    ctx.rule('abstract interpretation of the prefix scanner over positions of the line, for each shape of prefix: the parts that read back are exactly nick, user and host')
    scan.report(ctx, scan.prefix(ctx), ('func',))
