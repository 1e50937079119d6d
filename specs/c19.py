"""C19: the token goes nowhere but into PASS."""
from loginspec import *
from machine import Machine
import roots, re, c18
from c17 import cfgfield
W = 'tmi::Client'
HOLDERS = (CR, 'tmi::client::Credentials', CFG, 'tmi::client::ClientBuilder', CLIENT, 'tmi::client::Client')
SINK = re.compile(r'^(<?(tracing|tracing_core|log|env_logger|std::fs|tokio::fs|std::process|std::env::set|std::panicking|core::panicking|std::rt|std::io::stdio|std::io::_|std::fmt::(Formatter|Debug)|core::fmt))|::(begin_panic|panic_fmt|panic_display|unwrap_failed|expect_failed)')
def check(ctx):
    ctx.rule('the value graph of every operation is built with logging enabled; every value that is logged, printed, formatted for debugging, put into an error or written, is walked for the token\'s text; functions that read the token outside these operations are examined on their own')
    try: body(ctx)
    except Stuck as x: ctx.undecided(W, x)
def leak(t, toks, seen=None):
    """None, or the part of the value through which the token's text is visible; 'wrapped' for a new holder type"""
    seen = set() if seen is None else seen
    st_ = [t]; wrapped = None
    while st_:
        x = st_.pop()
        if x in seen: continue
        seen.add(x)
        if x in toks: return x
        if x.op == 'adt' and x.a[0] in HOLDERS: continue
        if x.op == 'adt' and x.a[0].startswith('tmi::') and not x.a[0].endswith('Error'):
            if any(leak(y, toks) for y in x.a[2]): wrapped = 'wrapped'
            continue
        if x.op == 'app' and x.a[0] in ('res', 'irc.parse'): continue
        if x.op in ('tr', 'pred', 'is', 'le', 'ieq', 'len', 'eq') or x.op in ATOMS: continue
        if x.op == 'ite': st_ += [x.a[1], x.a[2]]; continue
        st_.extend(children(x))
    return wrapped
def srun(ctx, root, args=None, mode='ready', env=None, symexit=6, cutloop=1 << 30):
    P = ctx.prog()
    try:
        r = roots.run(P, root, args=args, hooks=HC, opts={'aio': mode, 'strict_loops': False, 'symexit': symexit, 'cutloop': cutloop, 'logs': True}, setup=(lambda m, s, a: setattr(s, 'env', env(m, s, a))) if env else None)
    except (Unsupported, Summarise, RecursionError) as x:
        ctx.undecided(root, f'not analysable: {x}'); return None
    except KeyError as x:
        ctx.undecided(root, f'no such entry point: {x}'); return None
    ctx.touch(r.m)
    return r
def logs(ctx, what, r, toks):
    n = 0
    for name, vals, site, env, info in r.m.oplog:
        n += 1
        for v in vals:
            x = leak(v, toks)
            if x is None: continue
            where = at(site) or what
            if x == 'wrapped' : ctx.undecided(where, f'{what}: {name} is given a value that wraps the token')
            elif SINK.search(name) or SINK.search(info.get('p') or ''): ctx.bad(f'{what}: token given to {name}', where, f'{name} receives {show(v, 6)[:300]}')
            elif name.startswith('mut') or not info.get('rp'): pass
            # any other function: its result still contains the token, which is followed further
    ctx.good(n, sample=f'{what}: {n} calls of logging, formatting and other external functions')
def at(site):
    if not site: return None
    fr, b = site
    try: return f'{fr.body.name} {fr.body.blocks[b]["sp"]}'
    except Exception: return None
def events_(ctx, what, where, tr, toks, passok):
    n = 0
    seen = set()
    for t in TMwalk(tr):
        if t.op != 'tr' or t in seen: continue
        seen.add(t)
        name, args = t.a[1], t.a[2]
        for a in args[:-1]:
            x = leak(a, toks)
            n += 1
            if x is None: continue
            if name == 'write' and passok and inpass(a, toks): continue
            if x == 'wrapped': ctx.undecided(where, f'{what}: `{name}` is given a wrapped token'); continue
            ctx.bad(f'{what}: token in `{name}`', where, f'the event `{name}` carries {show(a, 7)[:400]}')
    ctx.good(n, sample=f'{what}: {n} arguments of I/O events')
def inpass(t, toks):
    """the token occurs only right after `PASS `"""
    parts = list(t.a[0]) if t.op == 'cat' else [t]
    prev = ''
    for p in parts:
        if leak(p, toks) is not None:
            if not re.search(r'(^|\n)PASS (oauth:)?$', prev) and prev is not None: return False
            if p.op not in ('ite', 'fld', 'slice', 'cat', 'app'): return False
            prev = None
        elif p.op == 'str': prev = p.a[0].decode('utf8', 'replace')
        elif p.op == 'ite' and prev is not None and prev.endswith('PASS '): pass      # the optional `oauth:`
        else: prev = ''
    return True
def errs(ctx, what, where, v, toks):
    """the error inside Poll<Result<_, E>>"""
    e = fld(fld(v, 0, 0), 1, 0)
    x = leak(e, toks)
    if x is None: ctx.good(sample=f'{what}: error value')
    elif x == 'wrapped': ctx.undecided(where, f'{what}: wrapped token in the error')
    else: ctx.bad(f'{what}: token in the error', where, f'the error is {show(e, 7)[:400]}')
def body(ctx):
    visited = set()
    def done(r): visited.update(r.m.p.insts[x]['path'] for x in r.m.visited)
    for root in ('connect', 'connect_configured'):
        r = srun(ctx, root)
        if r is None: continue
        done(r)
        config = cfgfield(ctx, r) if root == 'connect' else None
        tok = Conf(ctx, config).token if config is not None else field(ctx, r.args[0], CR, 'token')
        logs(ctx, root, r, {tok}); events_(ctx, root, 'tmi::Client::connect', r.m.get_cell(r.state, aio.TRACE), {tok}, True); errs(ctx, root, 'tmi::Client::connect', r.value, {tok})
    x = c18.cfgof(ctx)
    if x is not None:
        a, cv, bufs = with_client(ctx)
        c = Conf(ctx, subst(x.value, {x.args[0]: cv})); tok = c.token
        for k in (1, 2):
            SORT.setdefault(val(c.tries), 'u64')
            r = srun(ctx, 'reconnect', args=[a], env=lambda m, s, args: assume(assume(EMPTYENV, isSome(c.tries), True), ieq(val(c.tries), num(k)), True), symexit=100000, cutloop=k + 2)
            if r is None: continue
            done(r)
            w = 'tmi::Client::reconnect'
            logs(ctx, 'reconnect', r, {tok}); events_(ctx, 'reconnect', w, r.m.get_cell(r.state, aio.TRACE), {tok}, True); errs(ctx, 'reconnect', w, r.value, {tok})
            end = r.m.deep_value(r.state, r.m.deep(r.state, r.args[0]))
        for root in ('send_raw', 'send_raw_msg', 'ping', 'pong', 'join', 'join_all', 'send_privmsg', 'send_privmsg_reply', 'send_privmsg_nonce', 'send_privmsg_both', 'recv'):
            r = srun(ctx, root, args=[a])
            if r is None: continue
            done(r)
            w = f'tmi::Client::{root}'
            logs(ctx, root, r, {tok}); events_(ctx, root, w, r.m.get_cell(r.state, aio.TRACE), {tok}, False); errs(ctx, root, w, r.value, {tok})
        remains(ctx, tok, done)
    # text representations
    for ty in ('credentials', 'config', 'builder', 'client'):
        for tr in ('debug', 'display'):
            r = srun(ctx, f'{tr}_{ty}')
            if r is None: continue
            done(r)
            v = r.args[0]
            try:
                tok = field(ctx, v, CR, 'token') if ty == 'credentials' else Conf(ctx, v).token if ty == 'config' else Conf(ctx, cfgfield_of(ctx, v)).token if ty == 'builder' else subst(c.token, {cv: v, sym('c'): v}) 
            except (Stuck, NameError) as y: ctx.undecided(ty, y); continue
            n = len(r.m.oplog)
            what = f'{tr} of {ty}'
            logs(ctx, what, r, {tok})
            x = leak(r.m.deep_value(r.state, r.m.deep(r.state, r.args[1])), {tok} )
            if x is not None and x != 'wrapped': ctx.bad(f'{what}: token shown', what, f'the output contains {show(x, 4)}')
    for root in ('credentials_token', 'credentials_new', 'credentials_is_anon', 'credentials_login', 'client_credentials'):
        r = srun(ctx, root)
        if r is not None:
            done(r)
            if root in ('credentials_is_anon', 'credentials_login'):
                # only the accessor of the token gives it out
                x = leak(r.m.deep_value(r.state, r.value), {field(ctx, r.args[0], CR, 'token')}) if r.state is not None else None
                if x is None: ctx.good(sample=f'{root}: the result is not the token')
                elif x == 'wrapped': ctx.undecided(root, 'the result wraps the token')
                else: ctx.bad(f'{root}: returns the token', f'{CR}::{root.split("_", 1)[1]}', f'the result is {show(r.value, 6)}')
            logs(ctx, root, r, {field(ctx, r.args[0], CR, 'token')} if root not in ('credentials_new', 'client_credentials') else {r.args[1]} if root == 'credentials_new' else set())
    readers(ctx, visited)
def remains(ctx, tok, done):
    """the PASS line does not stay in a buffer that a later command sends again"""
    users = []
    for root, where in (('ping', 'ping'), ('join', 'join'), ('send_privmsg', 'privmsg().send'), ('send_raw', 'send_raw')):
        r = leftover(ctx, root, f'tmi::Client::{where}', root)
        if r is not None and r[0]: users.append(where)
    r = c18.leftover_reconnect(ctx, 1)
    if r is None: return
    w = 'tmi::Client::reconnect'
    for i, v in r[1]:
        x = leak(v, {tok}) if users else None
        if x is None: ctx.good(sample='the buffers after the login hold no token' if users else 'no command sends what an earlier one left behind')
        elif x == 'wrapped': ctx.undecided(w, 'a buffer wraps the token')
        else: ctx.bad('token left behind for the next command', w, f'a buffer of the client still holds {show(v, 7)[:300]} when the login ends, and {", ".join(users)} sends what is in it')
def cfgfield_of(ctx, b):
    class R: args = [b]
    return cfgfield(ctx, R)
# ---------------------------------------------------------------- functions not reached above
TEXT = re.compile(r'\bstr\b|String|Vec<u8>|\[u8\]|Cow<|Box<dyn')
def readers(ctx, visited):
    tmi = ctx.prog('full', 'tmi'); T = tmi.types
    fi = field_ix(ctx, CR, 'token')
    seen = {re.sub(r'^tmi::', '', v if isinstance(v, str) else str(v)) for v in visited}
    n = k = 0
    for b in tmi.raw['bodies']:
        n += 1
        src = token_locals(b, T, fi)
        if not src: continue
        k += 1
        name = b['name']
        if 'Clone>::clone' in name: continue
        if covered(name, seen): continue
        if re.search(r'as (std|core)::fmt::', name) : 
            if b['exp'] : ctx.bad(f'{name}: derived output shows the token', name + ' ' + b['span'], 'a derived text representation prints the token field'); 
            else: ctx.undecided(name, 'formats something that reads the token')
            continue
        t = taint(b, T, src)
        if '{closure' in name: ctx.undecided(name, 'reads the token and is not reached from the operations above'); continue
        for f, sp in t[1]:
            if SINK.search(f) and not f.startswith('core::fmt'): ctx.bad(f'{name}: token given to {f}', f'{name} {sp}', f'{f} receives text derived from the token')
        if t[0] and b['pub'] and b['reach'] and TEXT.search(T[b['locals'][0]]['s']) and name not in ('client::Credentials::token',):
            ctx.bad(f'{name}: returns the token', f'{name} {b["span"]}', 'a public function other than the accessor returns text derived from the token')
    ctx.extra['functions_scanned_for_token_reads'] = n; ctx.extra['functions_that_read_the_token'] = k
    ctx.good(n, sample=f'{k} of {n} functions read the token')
def covered(name, seen):
    def norm(x):
        m = re.search(r'(\w+)>?::(\w+)((::\{closure#\d+\})*)$', re.sub(r' as [^>]*', '', x))
        return m.groups()[:3] if m else x
    return norm(name) in {norm(x) for x in seen}
def token_locals(b, T, fi):
    """(block, statement) places that read Credentials.token, or calls of the accessor"""
    out = set()
    for bi, blk in enumerate(b['blocks']):
        for s in blk['s']:
            if s[0] == '=' and s[2][0] != 'discr' and mentions(b, s[2], T, fi): out.add(s[1][0])
        t = blk['t']
        if t[0] == 'call':
            f = t[1][2][1]['p'] if t[1][0] == 'k' and t[1][2][0] == 'fn' else ''
            if f.endswith('Credentials::token') or any(mentions(b, a, T, fi) for a in t[2]): out.add(t[3][0])
    return out
def mentions(b, j, T, fi):
    """does a place inside j project the token field out of Credentials"""
    if not isinstance(j, list): return False
    if len(j) == 2 and isinstance(j[0], int) and isinstance(j[1], list) and j[0] < len(b['locals']):
        ty = T[b['locals'][j[0]]]
        for p in j[1]:
            if p == 'd': ty = T[ty['to']] if ty.get('k') in ('ref', 'ptr') else (T[ty['a'][0]] if ty.get('k') == 'adt' and ty.get('a') else {'k': '?'})
            elif isinstance(p, list) and p[0] == 'f':
                if ty.get('k') == 'adt' and ty['n'] in ('client::Credentials', 'tmi::Credentials', 'tmi::client::Credentials', 'Credentials') and p[1] == fi: return True
                ty = T[p[2]] if len(p) > 2 and isinstance(p[2], int) else {'k': '?'}
            elif isinstance(p, list) and p[0] == 'v': pass
            else: ty = {'k': '?'}
        return False
    return any(mentions(b, x, T, fi) for x in j)
def taint(b, T, src):
    """flow-insensitive: locals that may hold the token's text; (returned, external calls that receive it)"""
    bad = set(src); calls = []
    def plain(ty): return T[ty]['k'] in ('bool', 'int', 'uint', 'char', 'never') or T[ty]['s'] == '()'
    def uses(j):
        if not isinstance(j, list): return False
        if len(j) == 2 and isinstance(j[0], int) and isinstance(j[1], list): return j[0] in bad
        return any(uses(x) for x in j)
    ch = True
    while ch:
        ch = False
        for blk in b['blocks']:
            for s in blk['s']:
                if s[0] == '=' and s[1][0] not in bad and s[2][0] not in ('discr', 'len') and not plain(b['locals'][s[1][0]]) and uses(s[2]): bad.add(s[1][0]); ch = True
            t = blk['t']
            if t[0] == 'call' and any(uses(a) for a in t[2]):
                d = t[3][0]
                if d not in bad and not plain(b['locals'][d]): bad.add(d); ch = True
                for a in t[2]:      # filled through a reference
                    if isinstance(a, list) and a[0] in ('c', 'm') and a[1][0] not in bad and T[b['locals'][a[1][0]]].get('m'): bad.add(a[1][0]); ch = True
    for blk in b['blocks']:
        t = blk['t']
        if t[0] == 'call' and any(uses(a) for a in t[2]) and t[1][0] == 'k' and t[1][2][0] == 'fn': calls.append((t[1][2][1]['p'], blk['sp']))
    return 0 in bad, calls
