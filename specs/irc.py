"""Boundaries of the line parser: the tag and prefix scanners are leaves here (C02, C03 decide them)."""
from common import *
import re

def scanner(prog, ret, path_re):
    """instances with a (&str, &mut usize) -> Option<ret> signature"""
    out = []
    for n, i in enumerate(prog.insts):
        if i.get('cr') != 'tmi': continue
        b = prog.body(n)
        if b is None or b.argc != 2: continue
        t = prog.types[b.locals[0]]; a = [prog.types[b.locals[k]] for k in (1, 2)]
        if t['k'] != 'adt' or t['n'] != OPTION: continue
        inner = prog.types[t['a'][0]] if isinstance(t['a'], list) and t['a'] else {}
        if a[0]['k'] != 'ref' or a[1]['k'] != 'ref' or not a[1]['m']: continue
        if prog.types[a[1]['to']].get('n') != 'usize': continue
        if ret in str(inner.get('n', '')) : out.append(i['path'])
    if not out: out = [i['path'] for i in prog.insts if re.search(path_re, i['path'])]
    return sorted(set(out))

def stub(name):
    def f(S, c):
        m = c.m
        s = m.deep(c.st, c.args[0])
        p0 = m.deref(c.st, c.args[1])
        o = app('irc.' + name, s, p0)
        e = app('irc.' + name + '_end', s, p0)
        SORT.setdefault(e, 'usize')
        TM.ATMOST.add('irc.' + name + '_end')     # C01, C02, C03: the scanners stop within the line
        newp = ite(isSome(o), e, p0)
        m.assign(c.st, c.args[1], newp)
        return o
    return f
def parse_hooks(prog, tags=True, prefix=True):
    h = {}
    if tags:
        for p in scanner(prog, 'RawTags', r'^tmi::irc::tags::(\w+::)?parse$'): h[p] = stub('tags')
    if prefix:
        for p in scanner(prog, 'RawPrefix', r'^tmi::irc::prefix::parse$'): h[p] = stub('prefix')
    return h

S = sym('s', 'str')
OPTS = {'small_text': True}
KEYWORDS = [('Ping', 'PING'), ('Pong', 'PONG'), ('Join', 'JOIN'), ('Part', 'PART'), ('Privmsg', 'PRIVMSG'), ('Whisper', 'WHISPER'),
            ('ClearChat', 'CLEARCHAT'), ('ClearMsg', 'CLEARMSG'), ('GlobalUserState', 'GLOBALUSERSTATE'), ('Notice', 'NOTICE'), ('Reconnect', 'RECONNECT'),
            ('RoomState', 'ROOMSTATE'), ('UserNotice', 'USERNOTICE'), ('UserState', 'USERSTATE'), ('Capability', 'CAP'), ('RplWelcome', '001'),
            ('RplYourHost', '002'), ('RplCreated', '003'), ('RplMyInfo', '004'), ('RplNames', '353'), ('RplEndOfNames', '366'), ('RplMotd', '372'),
            ('RplMotdStart', '375'), ('RplEndOfMotd', '376')]
class Parts: pass
def decompose():
    """the specified parts of line S after its tags and prefix"""
    p = Parts()
    n = length(S)
    t = app('irc.tags', S, ZERO)
    p.p0 = ite(isSome(t), app('irc.tags_end', S, ZERO), ZERO)
    x = app('irc.prefix', S, p.p0)
    p.tags = t; p.prefix = x
    p1 = ite(isSome(x), app('irc.prefix_end', S, p.p0), p.p0)
    r = sl(S, p1, n)
    f = MD.sfind(r, st(' '))
    p.cmd = ite(isSome(f), sl(S, p1, add(p1, val(f))), r)
    p2 = ite(isSome(f), add(p1, add(val(f), ONE)), n)
    r2 = sl(S, p2, n)
    f2 = MD.sfind(r2, st(' '))
    has = MD.starts(r2, st('#'))
    p.channel = ite(has, some(ite(isSome(f2), sl(S, p2, add(p2, val(f2))), r2)), NONE)
    p3 = ite(has, ite(isSome(f2), add(p2, add(val(f2), ONE)), n), p2)
    r3 = sl(S, p3, n)
    p.params = ite(eq(r3, st('')), NONE, some(r3))
    p.ok = NOT(eq(p.cmd, st('')))
    p.has_cmd_space = isSome(f)
    return p
def text_of(params):
    def f(t):
        c = MD.split_once(t, st(':'))
        return ite(isSome(c), fld(val(c), None, 1), t)
    return omap(params, f)
def parsed(ctx, root='ref_parse', cfg='full'):
    prog = ctx.prog(cfg)
    h = parse_hooks(prog)
    if len(h) < 2: return None, h
    r = run(ctx, root, hooks=h, opts=OPTS, args=[S], cfg=cfg)
    return (r.value if r else None), h
def acc(ctx, name, m, cfg='full'):
    """accessor value on message term m"""
    r = run(ctx, name, hooks=None, opts=OPTS, cfg=cfg)
    if r is None: return None
    return subst(r.value, {r.args[0]: m})
