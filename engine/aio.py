"""Asynchronous I/O as a trace of events. Futures of the I/O libraries are values `fut(kind, args)`; polling one appends an
event to the trace (ghost cell) and yields its result, an unknown that depends on the whole trace up to and including it.
Modes: 'ready' (every operation completes or its surrounding timeout elapses before it starts) and 'full' (every operation may
also be pending, in which case the poll returns and the state is what a cancellation leaves behind)."""
from term import *
import term as TM
import re
from machine import Unsupported, State

FUT = {}      # constructor path -> (event name, argument indices)
for k, v in {
    'tokio::io::util::async_write_ext::AsyncWriteExt::write_all': ('write', (0, 1)),
    'tokio::io::util::async_write_ext::AsyncWriteExt::write': ('write_some', (0, 1)),
    'tokio::io::util::async_write_ext::AsyncWriteExt::write_buf': ('write_some', (0, 1)),
    'tokio::io::util::async_write_ext::AsyncWriteExt::write_all_buf': ('write', (0, 1)),
    'tokio::io::util::async_write_ext::AsyncWriteExt::flush': ('flush', (0,)),
    'tokio::io::util::async_write_ext::AsyncWriteExt::shutdown': ('shutdown', (0,)),
    'tokio_stream::stream_ext::StreamExt::next': ('read', (0,)),
    'futures_util::stream::stream::StreamExt::next': ('read', (0,)),
    'tokio_stream::stream_ext::StreamExt::try_next': ('read_try', (0,)),
    'futures_util::stream::try_stream::TryStreamExt::try_next': ('read_try', (0,)),
    'tokio::time::sleep::sleep': ('sleep', (0,)),
    'tokio::task::yield_now::yield_now': ('yield', ()),
    'tokio::time::sleep::sleep_until': ('sleep_until', (0,)),
    'tokio::net::tcp::stream::TcpStream::connect': ('tcp', (0,)),
    'tokio_rustls::TlsConnector::connect': ('tls', (0, 1, 2)),
    'tokio_rustls::TlsConnector::connect_with': ('tls_with', (0, 1, 2)),
}.items(): FUT[k] = v
TRACE = ('trace',)
SCOPE = ('scope',)
POLL = 'std::task::Poll'
NVAR[POLL] = 2; VNAMES[(POLL, 0)] = 'Ready'; VNAMES[(POLL, 1)] = 'Pending'
RES = 'std::result::Result'; OPTN = 'std::option::Option'
def ready(x): return adt(POLL, 0, [x])
PENDING = adt(POLL, 1, [])
ELAPSED = adt('tokio::time::error::Elapsed', 0, [])
def res(tr): return app('res', tr)
def scope_of(st): return st.store.get(SCOPE, NIL)

def step(S, c, fut):
    """complete one I/O operation: returns (result value, state)"""
    m, st = c.m, c.st
    tr = m.get_cell(st, TRACE)
    name, args = fut.a[1][0].a[0].decode(), fut.a[1][1:]
    t2 = trace(tr, 'read' if name == 'read_try' else name, *[m.deep_value(st, a) for a in args], scope_of(st))
    r = UNIT if name in ('sleep', 'sleep_until', 'yield') else res(t2)
    if name == 'read_try':
        # the same read, with its result turned inside out
        x = fld(r, 1, 0)
        r = ite(is_(r, 1, 2), ite(is_(x, 0, 2), adt(RES, 0, [adt(OPTN, 1, [fld(x, 0, 0)])]), adt(RES, 1, [fld(x, 1, 0)])), adt(RES, 0, [adt(OPTN, 0, [])]))
    return t2, r
def poll_fut(S, c, ptr, fut):
    m = c.m
    if fut.op == 'ite':
        return S.branch(m, c.st, fut.a[0], lambda s: poll_in(S, c, ptr, fut.a[1], s), lambda s: poll_in(S, c, ptr, fut.a[2], s))
    if fut.op == 'app' and fut.a[0] == 'fut':
        t2, r = step(S, c, fut)
        if m.opts.get('aio') == 'full':
            pend = pred('pending', t2)
            def no(s): s.store[TRACE] = t2; return ready(r), s
            def yes(s): s.store[TRACE] = trace(m.get_cell(s, TRACE), 'pending', t2); return PENDING, s
            return S.branch(m, c.st, pend, yes, no)
        c.st.store[TRACE] = t2
        return ready(r), c.st
    if fut.op == 'adt' and fut.a[0] == 'aio.Timeout':
        return poll_timeout(S, c, ptr, fut)
    if fut.op == 'adt' and fut.a[0] in ('std::future::Ready', 'core::future::Ready'):
        return ready(fld(fut, None, 0)), c.st
    if fut.op == 'cor':
        i = cor_inst(m, fut.a[0])
        if i is None: raise Unsupported('no body for coroutine ' + m.ty(fut.a[0])['s'])
        return m.call_inst(i, [ptr, c.args[1]], c.st)
    return None
def poll_in(S, c, ptr, fut, st):
    c2 = copy_ctx(c); c2.st = st
    r = poll_fut(S, c2, ptr, fut)
    if r is None: raise Unsupported('poll of ' + show(fut, 3))
    return r
def copy_ctx(c):
    x = c.__class__()
    for k in ('m', 'info', 'args', 'st', 'fr', 'rty', 'b', 'atys'): setattr(x, k, getattr(c, k))
    return x
def poll_timeout(S, c, ptr, fut):
    m = c.m
    d = fut.a[2][1]
    inner_ptr = mk('ptr', ptr.a[0], ptr.a[1] + (('f', None, 0, None),), None) if ptr.op == 'ptr' else fut.a[2][0]
    outer = scope_of(c.st)
    def inside(s):
        s.store[SCOPE] = lst((sub_(outer), one(d)))
        r, s2 = poll_in(S, c, inner_ptr, fut.a[2][0], s)
        if s2 is None: return r, None
        s2.store[SCOPE] = outer
        return r, s2
    if m.opts.get('aio') == 'full':
        r, s = inside(c.st)
        if s is None: return r, None
        tr = m.get_cell(s, TRACE)
        isp = truth(restrict(is_(r, 1, 2), s.env))
        def p(s1):
            return S.branch(m, s1, pred('elapsed', tr, d), lambda s2: (ready(adt(RES, 1, [ELAPSED])), s2), lambda s2: (PENDING, s2))
        def q(s1): return ready(adt(RES, 0, [fld(restrict(r, s1.env), 0, 0)])), s1
        return S.branch(m, s, isp, p, q)
    tr = m.get_cell(c.st, TRACE)
    el = pred('elapsed', tr, d, outer)
    def e(s):
        s.store[TRACE] = trace(tr, 'elapsed', d, outer); return ready(adt(RES, 1, [ELAPSED])), s
    def g(s):
        r, s2 = inside(s)
        if s2 is None: return r, None
        return ready(adt(RES, 0, [fld(restrict(r, s2.env), 0, 0)])), s2
    return S.branch(m, c.st, el, e, g)
def sub_(l): return mk('sub', l)
def cor_inst(m, ty):
    ix = getattr(m.p, '_cori', None)
    if ix is None:
        ix = m.p._cori = {}
        for k in range(len(m.p.insts)):
            if not m.p.insts[k]['path'].endswith('}'): continue
            b = m.p.body(k)
            if b is None or b.argc != 2: continue
            t = m.peel(b.locals[1])
            if m.ty(t)['k'] == 'coroutine': ix[t] = k
    return ix.get(ty)
def h_poll(S, c):
    m = c.m
    if len(c.args) != 2: return None
    p = c.args[0]
    v = m.deep(c.st, p)
    return poll_fut(S, c, p, v)
def mkfut(name, idx):
    def f(S, c): return app('fut', TM.st(name.encode()), *[c.m.deep_value(c.st, c.args[i]) for i in idx])
    return f
def h_timeout(S, c): return adt('aio.Timeout', 0, [c.args[1], c.args[0]])
# ---- the TLS configuration: a root store is the list of its certificates
def h_roots_empty(S, c): return NIL
def h_roots_add(S, c):
    m = c.m
    cert = m.deep_value(c.st, c.args[1])
    r = app('rootadd', cert)
    old = m.deref(c.st, c.args[0])
    new = lst((sub_(old), one(cert)))
    m.assign(c.st, c.args[0], new, is_(r, 0, 2))
    return r
def leaf(name): 
    def f(S, c): return app(name, *[c.m.deep_value(c.st, a) for a in c.args])
    return f
def h_io_kind(S, c):
    x = c.m.deep(c.st, c.args[0])
    return x.a[1][0] if x.op == 'app' and x.a[0] == 'io.error' else app('io.kind', x)
def h_parse_irc(S, c): return app('irc.parse', c.m.deep_value(c.st, c.args[0]))
def arc_clone(S, c): return c.m.deep(c.st, c.args[0])

def hooks():
    h = {}
    for k, (n, idx) in FUT.items(): h[k] = mkfut(n, idx)
    h['tokio::time::timeout::timeout'] = h_timeout
    h['std::future::Future::poll'] = h_poll
    h['rustls::anchors::RootCertStore::empty'] = h_roots_empty
    h['rustls::anchors::RootCertStore::add'] = h_roots_add
    h['rustls::client::client_conn::ClientConfig::builder'] = leaf('tls.builder')
    h['rustls::builder::ConfigBuilder::<S, rustls::builder::WantsCipherSuites>::with_safe_defaults'] = leaf('tls.safe_defaults')
    h['rustls::client::builder::<impl rustls::builder::ConfigBuilder<rustls::client::client_conn::ClientConfig, rustls::builder::WantsVerifier>>::with_root_certificates'] = leaf('tls.with_roots')
    h['rustls::client::builder::<impl rustls::builder::ConfigBuilder<rustls::client::client_conn::ClientConfig, rustls::client::builder::WantsTransparencyPolicyOrClientCert>>::with_no_client_auth'] = leaf('tls.no_client_auth')
    h['rustls_native_certs::load_native_certs'] = lambda S, c: app('native_certs')
    h['<tokio_rustls::TlsConnector as std::convert::From<std::sync::Arc<rustls::client::client_conn::ClientConfig>>>::from'] = leaf('tls.connector')
    h['<rustls::client::client_conn::ServerName as std::convert::TryFrom<&str>>::try_from'] = leaf('tls.server_name')
    h['<rustls::client::client_conn::ServerName as std::clone::Clone>::clone'] = arc_clone
    h['<std::sync::Arc<T, A> as std::clone::Clone>::clone'] = arc_clone
    h['tokio::io::split::split'] = lambda S, c: mk('tup', (app('half.read', c.args[0]), app('half.write', c.args[0])))
    h['tokio::io::util::buf_reader::BufReader::<R>::new'] = leaf('bufreader')
    h['tokio::io::util::async_buf_read_ext::AsyncBufReadExt::lines'] = leaf('lines')
    h['tokio_stream::wrappers::lines::LinesStream::<R>::new'] = leaf('linestream')
    h['futures_util::stream::stream::StreamExt::fuse'] = leaf('fuse')
    h['std::io::Error::kind'] = h_io_kind
    for q in ('std::io::Error', 'alloc::io::error::<impl std::io::Error>'): h[q + '::new'] = leaf('io.error'); h[q + '::other'] = leaf('io.error.other')
    for q in ('<std::io::Error as std::convert::From<std::io::ErrorKind>>::from', 'core::io::error::<impl std::convert::From<std::io::ErrorKind> for std::io::Error>::from'): h[q] = leaf('io.error')
    # what the surroundings of the process say
    for n in ('std::env::var', 'std::env::var_os', 'std::env::args', 'std::env::args_os', 'std::env::vars', 'std::fs::read', 'std::fs::read_to_string', 'std::process::id', 'std::thread::panicking', 'std::env::current_dir'): h[n] = leaf('outside.' + n)
    h['tmi::IrcMessage::parse'] = h_parse_irc
    return h
VOC = ('res', 'fut', 'elapsed', 'pending')

# ---- reading a trace
def events(tr):
    out = []
    while tr.op == 'tr': out.append((tr.a[1], tr.a[2], tr)); tr = tr.a[0]
    out.reverse()
    return out, tr
