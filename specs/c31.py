"""C31: errors keep what went wrong."""
from common import *
from clientspec import HC
ERR = {'connect': 'tmi::client::ConnectError', 'recv': 'tmi::client::read::RecvError', 'send': 'tmi::client::write::SendError',
       'open': 'tmi::client::conn::OpenStreamError', 'tls': 'tmi::client::conn::TlsConfigError', 'reconnect': 'tmi::client::ReconnectError'}
def etype(ctx, root):
    """the error type a `show_*` root takes"""
    p = ctx.prog(); n = p.roots.get('h_show_' + root)
    if n is None: return None
    t = p.types[p.body(n).locals[1]]
    while t['k'] == 'ref': t = p.types[t['to']]
    return t
def fields(ctx, t, i):
    return [ctx.prog().types[f.get('t') if isinstance(f, dict) else f[1]] for f in t['v'][i]['f']]
def pieces(x):
    """a text as its list of pieces"""
    if x.op == 'cat': return [z for y in x.a[0] for z in pieces(y)]
    if x.op == 'str' and not x.a[0]: return []
    return [x]
def merged(ps):
    out = []
    for x in ps:
        if out and x.op == 'str' and out[-1].op == 'str': out[-1] = st(out[-1].a[0] + x.a[0])
        else: out.append(x)
    return out
def inside(a, b):
    """text a (pieces) occurs as one run in text b"""
    a, b = merged(a), merged(b)
    if not a: return True
    if len(a) == 1 and a[0].op == 'str': return any(x.op == 'str' and a[0].a[0] in x.a[0] for x in b)
    for k in range(len(b) - len(a) + 1):
        for j, (x, y) in enumerate(zip(a, b[k:])):
            if x is y: continue
            if x.op == y.op == 'str' and (j == 0 and y.a[0].endswith(x.a[0]) or j == len(a) - 1 and y.a[0].startswith(x.a[0])): continue
            break
        else: return True
    return False
def mentions(x, p, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(x, T):
        return any(mentions(y, p, seen) for y in x) if isinstance(x, (tuple, list)) else False
    if x is p: return True
    if id(x) in seen: return False
    seen.add(id(x))
    return any(mentions(y, p, seen) for y in x.a)
def alone(x, p):
    """the piece prints the payload itself"""
    return x is p or x.op == 'app' and str(x.a[0]).startswith('fmt:') and any(y is p for y in x.a[1])
def partial(x, p):
    """the piece prints only the kind or the length of the payload"""
    if x.op != 'app': return False
    n, a = str(x.a[0]), x.a[1]
    if n == 'dec': return True
    return n.startswith('fmt:') and len(a) == 1 and a[0].op == 'app' and str(a[0].a[0]) == 'io.kind'
def cases(x):
    """the texts an expression can be"""
    x = lift(x)
    if x.op == 'ite':
        return cases(x.a[1]) + cases(x.a[2])
    return [x]
def lift(x):
    if x.op == 'cat':
        for k, y in enumerate(x.a[0]):
            if y.op == 'ite':
                f = lambda z: lift(cat(*x.a[0][:k], z, *x.a[0][k + 1:]))
                return ite(y.a[0], f(y.a[1]), f(y.a[2]))
    return x
def texts(ctx):
    """root -> (type, function from an error to its text)"""
    out = {}
    for root in ERR:
        r = run(ctx, 'show_' + root, hooks=HC)
        if r is None: continue
        t = etype(ctx, root)
        if t is None: continue
        x = r.m.deep(r.state, r.args[1])
        def of(v, x=x, a=r.args[0]): return subst(subst(x, {sym('out', 'str'): st('')}), {a: v})
        out[t['n']] = (t, of, root)
    return out
def instances(ctx, shows, t, path, depth=0):
    """every shape of an error of type t: [(value, [innermost payloads])]"""
    res = []
    for i, v in enumerate(t['v']):
        fs = fields(ctx, t, i); opts = [[]]
        for k, f in enumerate(fs):
            nm = f'{path}.{v["n"]}.{k}'
            if f['k'] == 'adt' and f['n'] in shows and depth < 3: alts = [x for x, _ in instances(ctx, shows, shows[f['n']][0], nm, depth + 1)]
            elif f['k'] == 'str' or f['k'] == 'adt' and f['n'] in ('std::string::String', 'alloc::string::String'): alts = [sym(nm, 'str')]
            else: alts = [sym(nm)]
            opts = [o + [a] for o in opts for a in alts]
        res += [(adt(t['n'], i, o), i) for o in opts]
    return res
def shown(ctx):
    shows = texts(ctx)
    for tn, (t, of, root) in shows.items():
        fixed = {}
        for v, i in instances(ctx, shows, t, root):
            vn = t['v'][i]['n'] if t['ak'] == 'enum' else tn.split('::')[-1]
            w = f'{tn} as Display / {vn}'
            fs = fields(ctx, t, i)
            for text in cases(of(v)):
                ps = pieces(text)
                if any(x.op == 'ite' for x in ps): ctx.undecided(w, f'text is {show(text)}'); continue
                if not fs:
                    if any(x.op != 'str' for x in ps): ctx.undecided(w, f'text is {show(text)}'); continue
                    s = b''.join(x.a[0] for x in ps)
                    if not s.strip(): ctx.bad(f'{root}: {vn} prints nothing', w, 'the text is empty')
                    elif s in fixed and fixed[s] != vn: ctx.bad(f'{root}: {vn} prints like another failure', w, f'{fixed[s]} has the same text {s!r}')
                    else: fixed[s] = vn; ctx.good(sample=f'{w}: prints {s!r}')
                for k, f in enumerate(fs):
                    pay = v.a[2][k]
                    if pay.op == 'adt' and f['n'] in shows:
                        for inner in cases(shows[f['n']][1](pay)):
                            if inside(pieces(inner), ps) or any(alone(x, pay) and 'Display' in str(x.a[0]) for x in ps): ctx.good(sample=f'{w}: contains the text of the {f["n"]} it wraps')
                            elif any('?' in str(x.a[0]) or str(x.a[0]).startswith('call:') for x in ps if x.op == 'app' and not str(x.a[0]).startswith('fmt:')): ctx.undecided(w, f'text is {show(text)}')
                            else: ctx.bad(f'{root}: the text of {vn} leaves out the failure it wraps', w, f'text is {show(text)}; the failure prints {show(inner)}')
                    elif f.get('n', '').startswith('tmi::') and not f['v'][0]['f'] and len(f['v']) == 1: ctx.good(sample=f'{w}: its payload carries nothing')
                    elif any(alone(x, pay) for x in ps): ctx.good(sample=f'{w}: prints its payload')
                    elif any(mentions(x, pay) and not partial(x, pay) for x in ps): ctx.undecided(w, f'text is {show(text)}')
                    else: ctx.bad(f'{root}: the text of {vn} leaves out the failure it wraps', w, f'text is {show(text)}')
def wrapped(ctx):
    for root in ('connect', 'recv', 'send', 'open', 'tls', 'reconnect'):
        r = run(ctx, 'rewrap_' + root, hooks=HC)
        if r is None: continue
        t = etype(ctx, 'connect' if root == 'reconnect' else root)
        if t is None: continue
        for i, v in enumerate(t['v']):
            e = adt(t['n'], i, [sym(f'{root}.{v["n"]}.{k}') for k in range(len(v['f']))])
            want = e
            if root == 'reconnect':
                rt = etype(ctx, 'reconnect')
                if rt is None: continue
                want = adt(rt['n'], 0, [e])
            w = f'{ERR[root]}: From<payload of {t["n"].split("::")[-1]}::{v["n"]}>'
            ctx.equal(f'{root}: a failure wrapped as {v["n"]} is that failure', w, subst(r.value, {r.args[0]: e}), want)
def check(ctx):
    ctx.rule('value graphs of the conversions into each error type: what goes in comes out under its own variant, unchanged')
    wrapped(ctx)
    r = run(ctx, 'source_reconnect', hooks=HC)
    if r is not None:
        ctx.equal('the source of a reconnect error is its cause', 'tmi::client::ReconnectError as Error', r.value, some(fld(r.args[0], None, 0)))
    ctx.rule('value graphs of the texts, for each shape of error: the text contains the text of what is wrapped, and failures that wrap nothing have texts of their own')
    shown(ctx)
