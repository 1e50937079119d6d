"""Functions treated as leaves by the checks on typed messages: the base-message accessors and the
unescape functions (their own behaviour is decided by C02, C03, C05, C06 and C13)."""
from term import *
import term as TM
from machine import Unsupported

def _unescape(S, c):
    v = c.m.deep(c.st, c.args[0])
    return app('unescape', v)
def tag_key(S, c, i=1):
    m = c.m
    v = m.deep(c.st, c.args[i])
    t = m.ty(m.peel(c.atys[i])) if c.atys else None
    if t is not None and t['k'] == 'adt' and t['n'].endswith('Tag'):
        for k in m.p.bypath.get("tmi::Tag::<'src>::as_str", ()) or [n for p, ns in m.p.bypath.items() if p.startswith('tmi::Tag') and p.endswith('::as_str') for n in ns]:
            r, s = m.call_inst(k, [v], c.st)
            c.st = s
            return r
        raise Unsupported('Tag::as_str not found')
    return v
def _tag(S, c):
    k = tag_key(S, c)
    return tagval(c.m.deep(c.st, c.args[0]), k)
def tagval(msg, k): return app('tag', msg, k)
def part(name):
    def f(S, c): return app(name, c.m.deep(c.st, c.args[0]))
    return f
def msg_hooks():
    h = {'tmi::unescape': _unescape, 'tmi::maybe_unescape': _unescape}
    for ty in ("tmi::IrcMessageRef::<'src>::", 'tmi::IrcMessage::'):
        h[ty + 'tag'] = _tag
        for n in ('channel', 'params', 'text', 'prefix', 'command', 'raw', 'tags'):
            h[ty + n] = part('msg.' + n)
    return h
