"""C02: decomposition of a line."""
from common import *
import irc, scan
def skeleton(ctx, cfg='full'):
    v, h = irc.parsed(ctx, cfg=cfg)
    w = "tmi::IrcMessageRef::parse"
    if v is None:
        if len(h) < 2: ctx.undecided(w, 'the tag and prefix scanners were not found')
        return
    d = irc.decompose()
    if not ctx.equal('parsing succeeds exactly when the command is not empty', w, isSome(v), d.ok): return
    ok = d.ok
    A = lambda n: irc.acc(ctx, n, val(v), cfg)
    def cmp(name, got, want, cond=ok):
        if got is None: return
        ctx.equal(name, w + ' / ' + name, ite(cond, got, ZERO), ite(cond, want, ZERO))
    cmp('raw', A('ref_raw'), irc.S)
    cmp('params', A('ref_params'), d.params)
    names = OR(eq(d.cmd, st('353')), eq(d.cmd, st('366')))
    cmp('channel', A('ref_channel'), d.channel, ite(names, ZERO, ok))
    cmp('text', A('ref_text'), irc.text_of(d.params))
    # command text through the command's own printing
    a = run(ctx, 'command_as_str')
    c = A('ref_command')
    if a is not None and c is not None: cmp('command', subst(a.value, {a.args[0]: c}), d.cmd)
    p = A('ref_prefix')
    if p is not None: cmp('prefix present', isSome(p), isSome(d.prefix))
def check(ctx):
    ctx.rule('with the tag and prefix scanners as leaves, every accessor of a parsed line equals the specified substring, and parsing succeeds exactly when the command is not empty')
    skeleton(ctx)
    ctx.rule('abstract interpretation of the prefix scanner over positions of the line, for each shape of prefix: the parts that read back are exactly nick, user and host, and parsing continues after the space')
    scan.report(ctx, scan.prefix(ctx), ('func',))
