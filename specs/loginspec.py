"""Specification of opening a connection, the login handshake, connect and reconnect, as a monitor over event traces."""
from clientspec import *
from c21 import recv_result
CAPS = 'twitch.tv/commands twitch.tv/tags twitch.tv/membership'
HOST, PORT = 'irc.chat.twitch.tv', 6697
OSE = 'tmi::client::conn::OpenStreamError'
CFG, BO, CR = 'tmi::client::Config', 'tmi::client::Backoff', 'tmi::Credentials'

def cfg(ctx, c, *path):
    v = c
    for ty, n in path: v = field(ctx, v, ty, n)
    return v
class Conf:
    """the configuration an operation must use"""
    def __init__(self, ctx, config):
        self.timeout = field(ctx, config, CFG, 'timeout')
        cr = field(ctx, config, CFG, 'credentials')
        self.login = field(ctx, cr, CR, 'login'); self.token = field(ctx, cr, CR, 'token')
        bo = field(ctx, config, CFG, 'backoff')
        self.tries = field(ctx, bo, BO, 'max_tries'); self.delay0 = field(ctx, bo, BO, 'initial_delay')
        self.mult = field(ctx, bo, BO, 'delay_multiplier'); self.maxdelay = field(ctx, bo, BO, 'max_delay')
    def login_text(self):
        t = val(self.token)
        pw = ite(isSome(self.token), cat(ite(pred('starts', t, st('oauth:')), EMPTY, st('oauth:')), t), st('oauth:just_a_lil_guy'))
        return cat(st(f'CAP REQ :{CAPS}\r\nPASS '), pw, st('\r\nNICK '), self.login, st('\r\n'))

def roots_ok(t):
    """the verifier is built from the system's certificates"""
    def f(n): return lambda x: x.op == 'app' and x.a[0] == n
    return t

class Login:
    def __init__(self, m, conf, wrap):
        self.m = m; self.c = conf; self.wrap = wrap; self.ctx = m.ctx
    def timeout(self, i, env): return self.wrap(E(self.ctx, CE, 'Timeout'))
    def elapsed(self, i, env):
        """an expired timeout ends the operation"""
        return self.m.end(i + 1, self.timeout(i, env))
    def open(self, i, env, k, ioerr):
        m = self.m
        if m.at(i, 'elapsed'): return self.elapsed(i, env)
        if not m.at(i, 'tcp'): return m.over(i, 'open a TCP connection')
        n, a, tr = m.ev[i]
        m.same('net', f'{m.what}: host and port', env, a[0], mk('tup', (st(HOST), num(PORT))))
        m.scope(i, env, [(self.c.timeout, 'the configured timeout')])
        fail = lambda x: (lambda e: ioerr(i + 1, e, E(self.ctx, OSE, 'Io', x)))
        def tls(e):
            j = i + 1
            if m.at(j, 'elapsed'): return self.elapsed(j, e)
            if not m.at(j, 'tls'): return m.over(j, 'establish TLS on the connection')
            n2, a2, t2 = m.ev[j]
            m.scope(j, e, [(self.c.timeout, 'the configured timeout')])
            m.same('net', f'{m.what}: TLS runs over the opened connection', e, a2[2], resval(tr))
            self.tls_args(a2, e)
            return m.br(resok(t2), e, lambda e2: k(j + 1, e2, resval(t2)), lambda e2: ioerr(j + 1, e2, E(self.ctx, OSE, 'Io', reserr(t2))))
        return m.br(resok(tr), env, tls, fail(reserr(tr)))
    def tls_args(self, a, e): pass
    def wants(self): return [(self.c.timeout, 'the configured timeout')]
    def handshake(self, i, env, stream, k, fail):
        """k(i, env) on success, fail(i, env, ConnectError) otherwise"""
        m = self.m; ctx = self.ctx
        if m.at(i, 'elapsed'): return self.elapsed(i, env)
        w = app('half.write', stream)
        rd = app('fuse', app('linestream', app('lines', app('bufreader', app('half.read', stream)))))
        self.rd = rd
        sent = lambda j, e: self.reply(j, e, rd, lambda i2, e2, msg: self.cap(i2, e2, msg, rd, k, fail), fail)
        def io(x): return ('io', x)
        return self.writes(i, env, w, sent, fail)
    def writes(self, i, env, target, k, fail):
        m = self.m; text = self.c.login_text()
        def step(i, env, sofar):
            if m.at(i, 'elapsed'): return self.elapsed(i, env)
            if m.at(i, 'write_some'):
                m.need('order', f'{m.what}: complete write of the login', False, 'a write that may be partial is used'); return m.over(i, 'partial write')
            if m.at(i, 'write'):
                n, a, tr = m.ev[i]
                m.same('target', f'{m.what}: login written to the TLS stream', env, a[0], target)
                m.scope(i, env, self.wants())
                return m.br(resok(tr), env, lambda e: step(i + 1, e, cat(sofar, a[1])), lambda e: fail(i + 1, e, E(self.ctx, CE, 'Io', reserr(tr))))
            if m.at(i, 'flush'):
                n, a, tr = m.ev[i]
                m.same('target', f'{m.what}: the TLS stream is flushed', env, a[0], target)
                m.scope(i, env, self.wants())
                bad = lambda e: fail(i + 1, e, E(self.ctx, CE, 'Io', reserr(tr)))
                if m.at(i + 1, 'write', 'flush'): return m.br(resok(tr), env, lambda e: step(i + 1, e, sofar), bad)
                m.same('text', f'{m.what}: capability request, PASS and NICK', env, sofar, text)
                return m.br(resok(tr), env, lambda e: k(i + 1, e), bad)
            if m.at(i, 'read'): m.need('order', f'{m.what}: login sent and flushed before reading', False, 'a read happens before the login is flushed')
            return m.over(i, 'send the login and flush')
        return step(i, env, EMPTY)
    def reply(self, i, env, rd, k, fail):
        m = self.m; ctx = self.ctx
        if m.at(i, 'elapsed'):
            return self.elapsed(i, env)
        if not m.at(i, 'read'): return m.over(i, 'wait for a reply')
        n, a, tr = m.ev[i]
        m.same('target', f'{m.what}: replies are read from the TLS stream', env, a[0], rd)
        m.scope(i, env, self.wants() + [(num(5 * SECOND), 'five seconds')])
        return recv_result(ctx, m, i, tr, env, lambda msg, e: k(i + 1, e, msg), lambda er, e: fail(i + 1, e, E(ctx, CE, 'Read', er)))
    def iscmd(self, msg, name):
        ci = variant_index(self.ctx, 'Command', name)
        return is_(app('msg.command', msg), ci[0], ci[1])
    def cap(self, i, env, msg, rd, k, fail):
        m = self.m; ctx = self.ctx
        p = app('msg.params', msg)
        def acked(e): return self.reply(i, e, rd, lambda i2, e2, msg2: self.welcome(i2, e2, msg2, k, fail), fail)
        def iscap(e): return m.br(conj(isSome(p), pred('starts', val(p), st('* ACK'))), e, acked, lambda e2: fail(i, e2, E(ctx, CE, 'Auth')))
        return m.br(self.iscmd(msg, 'Capability'), env, iscap, lambda e: fail(i, e, E(ctx, CE, 'Welcome', msg)))
    def welcome(self, i, env, msg, k, fail):
        m = self.m; ctx = self.ctx
        p = app('msg.params', msg)
        authfail = conj(isSome(p), pred('contains', val(p), st('authentication failed')))
        notice = lambda e: m.br(authfail, e, lambda e2: fail(i, e2, E(ctx, CE, 'Auth')), lambda e2: fail(i, e2, E(ctx, CE, 'Notice', msg)))
        other = lambda e: m.br(self.iscmd(msg, 'Notice'), e, notice, lambda e2: fail(i, e2, E(ctx, CE, 'Welcome', msg)))
        return m.br(self.iscmd(msg, 'RplWelcome'), env, lambda e: k(i, e), other)

# ---------------------------------------------------------------- connect
TCE = 'tmi::client::conn::TlsConfigError'
def connect_run(ctx, root='connect'):
    r = crun(ctx, root)
    if r is None: return None
    tr = r.m.get_cell(r.state, aio.TRACE)
    if loopsyms(tr) or loopsyms(r.value): ctx.undecided('tmi::Client::connect', 'a loop without a summary'); return None
    return r, tr
def connect(ctx, tags, root='connect', config=None, value=True, okcheck=None):
    """the connect operation, one leaf at a time"""
    x = connect_run(ctx, root)
    if x is None: return
    r, tr = x
    where = 'tmi::Client::connect'
    config = config(r)
    conf = Conf(ctx, config)
    n = 0
    if value:
        import panics
        panics.panics(ctx, where, 'connect', r)
    for ev, e in leaves(tr):
        evs, _ = orig_events(tr, e)
        m = Mon(ctx, where, evs, e, tags, 'connect')
        L = Login(m, conf, lambda ce: err(ce))
        if 'net' in tags: L.tls_args = lambda a, e: tls_args(ctx, m, a, e)
        n += 1
        if not evs:
            # failed before any I/O: only for lack of a usable TLS configuration
            if value: ctx.equal('connect: fails before opening only if TLS cannot be set up', where, ite(isready(r.value), is_(rdy(r.value), 1, 2), ZERO), ONE, VOCC, env=e)
            continue
        fail = lambda i, e2, ce: m.end(i, ('err', ce))
        good = app('connected')
        want = L.open(0, e,
                      lambda i, e2, s: L.handshake(i, e2, s, lambda j, e3: m.end(j, good), lambda j, e3, ce: m.end(j, err(ce))),
                      lambda i, e2, oe: m.end(i, err(E(ctx, CE, 'Open', oe))))
        if value:
            got = rdy(r.value)
            got = ite(is_(got, 0, 2), good, err(fld(got, 1, 0)))
            ctx.equal('connect: result', where, got, want, VOCC, env=e)
        if okcheck: okcheck(ctx, m, L, r, restrict(rdy(r.value), e), e)
    ctx.extra['ways_connect_can_run'] = n
def isready(v): return is_(v, 0, 2)
def rdy(v): return fld(v, 0, 0)
def tls_args(ctx, m, a, e):
    """verified TLS: the standard client configuration over the system's root certificates, and the Twitch host name"""
    w = 'tmi::client::conn::TlsConfig::load'
    sn = app('tls.server_name', st(HOST))
    m.same('net', f'{m.what}: server name that is verified', e, restrict(a[1], e), okval(sn))
    t = restrict(a[0], e)
    chain = []
    for nm in ('tls.connector', 'tls.no_client_auth', 'tls.with_roots'):
        if not (t.op == 'app' and t.a[0] == nm): break
        chain.append(nm); b = t; t = b.a[1][0]
    if chain != ['tls.connector', 'tls.no_client_auth', 'tls.with_roots']:
        if any(x.op == 'app' and x.a[0].startswith('call:') and not ('verif' in x.a[0].lower() or 'danger' in x.a[0].lower()) for x in TMwalk(t)): ctx.undecided(w, 'TLS configuration: ' + show(t, 4)); return
        m.need('net', f'{m.what}: standard verification', False, f'the TLS configuration is {show(a[0], 8)}'); return
    m.same('net', f'{m.what}: safe defaults', e, t, app('tls.safe_defaults', app('tls.builder')))
    roots = b.a[1][1]
    certs = okval(app('native_certs'))
    m.need('net', f'{m.what}: trusted roots are exactly certificates of the system', roots_from(roots, certs), f'the root store is {show(roots, 8)}')
def roots_from(t, certs):
    """every element of the root list is Certificate(c.0) for a native certificate c, and the list is not always empty"""
    if t.op == 'ite': return roots_from(t.a[1], certs) and roots_from(t.a[2], certs)
    if t.op != 'list' or not t.a[0]: return False
    def cert(x, S, lvl):
        return x.op == 'adt' and len(x.a[2]) == 1 and x.a[2][0] is fld(mk('elem', S, lvl), None, 0)
    def body(b, S, lvl):
        if b.op == 'ite': return body(b.a[1], S, lvl) and body(b.a[2], S, lvl)
        return b.op == 'list' and all(p.op == 'one' and cert(p.a[0], S, lvl) or p.op == 'opt' and body(lst(p.a[1]), S, lvl) and body(lst(p.a[2]), S, lvl) for p in b.a[0])
    for p in t.a[0]:
        if p.op != 'many': return False
        S, lvl, b = p.a
        src = S
        while src.op == 'app' and src.a[0] in ('until', 'drop', 'after'): src = src.a[1][0]
        if src is not certs or not body(b, S, lvl): return False
    return True
