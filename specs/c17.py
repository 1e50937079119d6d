"""C17: the login handshake."""
from loginspec import *
import c18
def check(ctx):
    ctx.rule('every way connect (and one reconnect attempt) can run: one TLS connection, then the exact login text, flush, a CAP acknowledgement, a 001 welcome; the result is the specified one in every other case')
    try:
        connect(ctx, {'text', 'order', 'target'}, config=lambda r: cfgfield(ctx, r))
        c18.reconnect(ctx, 1, {'text', 'order', 'target'})
    except Stuck as x: ctx.undecided('tmi::Client::connect', x)
def cfgfield(ctx, r):
    """the configuration inside a builder"""
    for t in ctx.prog().types:
        if t and t['k'] == 'adt' and t['n'] == 'tmi::client::ClientBuilder':
            for i, f in enumerate(t['v'][0]['f']):
                ft = ctx.prog().types[f[1]]
                if ft.get('n') == CFG: return fld(r.args[0], None, i)
    raise Stuck('no configuration in ClientBuilder')
