"""C20: one verified TLS connection to the Twitch host carries all traffic."""
from loginspec import *
import c18, re
W = 'tmi::client::conn'
def check(ctx):
    ctx.rule('every socket opened on any path is (irc.chat.twitch.tv, 6697) and its only use is as the transport of a TLS connection whose configuration trusts exactly the native roots and whose verified name is that host; every read, write and flush is on such a connection; no function of the crate names another way to open a socket or to replace the certificate verifier')
    try: body(ctx)
    except Stuck as x: ctx.undecided(W, x)
WRAP = ('half.read', 'half.write', 'bufreader', 'lines', 'linestream', 'fuse')
IO = ('write', 'write_some', 'flush', 'shutdown', 'read', 'read_try')
def base(t):
    while t.op == 'app' and t.a[0] in WRAP: t = t.a[1][-1]
    return t
def stream_of(t):
    """the event whose result the value is, or None"""
    if t.op == 'fld' and t.a[1] == 0 and t.a[2] == 0 and t.a[0].op == 'app' and t.a[0].a[0] == 'res': return t.a[0].a[1][0]
    return None
def scan(ctx, where, what, evs, e, tls):
    """all events of one way to run"""
    for n, a, tr in evs:
        m = Mon(ctx, where, evs, e, {'net'}, what)
        if n == 'tcp': m.same('net', f'{what}: host and port', e, a[0], mk('tup', (st(HOST), num(PORT))))
        elif n == 'tls':
            s = stream_of(restrict(a[2], e))
            if s is None or s.op != 'tr' or s.a[1] != 'tcp': odd(ctx, m, where, f'{what}: TLS runs over the opened connection', a[2])
            else: m.need('net', f'{what}: TLS runs over the opened connection', True, '')
            tls(m, a, e)
        elif n == 'tls_with': ctx.undecided(where, 'TLS connection with a callback')
        elif n in IO:
            s = stream_of(base(restrict(a[0], e)))
            if s is not None and s.op == 'tr': m.need('net', f'{what}: {n} on the TLS connection', s.a[1] == 'tls', f'`{n}` uses the result of `{s.a[1]}`')
            else: odd(ctx, m, where, f'{what}: {n} on the TLS connection', a[0])
def odd(ctx, m, where, key, t):
    if any(x.op == 'app' and x.a[0].startswith('call:') for x in TMwalk(t)) or loopsyms(t): ctx.undecided(where, f'{key}: {show(t, 4)}')
    else: ctx.bad(key, where, f'the stream is {show(t, 6)}')
def halves(ctx, where, what, v, e):
    for part in ('ReadHalf', 'WriteHalf'):
        i = typed_field(ctx, part)
        if i is None: ctx.undecided(where, f'no {part} in the client'); continue
        t = restrict(fld(v, None, i), e)
        s = stream_of(base(t))
        if s is not None and s.op == 'tr':
            if s.a[1] == 'tls': ctx.good(sample=f'{what}: the {part} kept by the client is of the TLS connection')
            else: ctx.bad(f'{what}: {part} kept', where, f'the client keeps a {part} of the result of `{s.a[1]}`')
        else: odd(ctx, None, where, f'{what}: {part} kept', t)
def body(ctx):
    x = connect_run(ctx)
    n = 0
    if x is not None:
        r, tr = x
        w = 'tmi::Client::connect'
        for ev, e in leaves(tr):
            evs, _ = orig_events(tr, e); n += 1
            scan(ctx, w, 'connect', evs, e, lambda m, a, e: tls_args(ctx, m, a, e))
            v = restrict(rdy(r.value), e)
            if restrict(is_(v, 0, 2), e) is ONE: halves(ctx, w, 'connect', okval(v), e)
        # the configuration kept for reconnecting
        ti = typed_field(ctx, 'TlsConfig')
        for ev, e in leaves(tr):
            v = restrict(rdy(r.value), e)
            if restrict(is_(v, 0, 2), e) is not ONE or ti is None: continue
            t = restrict(fld(okval(v), None, ti), e)
            if t.op == 'adt' and len(t.a[2]) == 2:
                used = [a for nme, a, _ in orig_events(tr, e)[0] if nme == 'tls']
                if used:
                    # the stored values are the ones the connection was opened with
                    ctx.equal('connect: stored server name', w, t.a[2][1], restrict(used[0][1], e), VOCC, env=e)
                    ctx.equal('connect: stored TLS configuration', w, app('tls.connector', t.a[2][0]), restrict(used[0][0], e), VOCC, env=e)
            else: ctx.undecided(w, 'stored TLS configuration: ' + show(t, 3))
    for k in (1, 2):
        y = c18.rec_run(ctx, k)
        if y is None: continue
        r, tr, v, c, e0, bufs, cv = y
        w = 'tmi::Client::reconnect'
        if loopsyms(tr): ctx.undecided(w, 'the loop does not unroll'); continue
        end = subst(r.m.deep_value(r.state, r.m.deep(r.state, r.args[0])), {b: EMPTY for b in bufs})
        for ev, e in leaves(tr, e0):
            evs, _ = orig_events(tr, e); n += 1
            scan(ctx, w, 'reconnect', evs, e, lambda m, a, e: c18.client_tls(ctx, m, a, e, cv))
            if restrict(is_(rdy(v), 0, 2), e) is ONE: halves(ctx, w, 'reconnect', end, e)
    ctx.extra['ways_to_run'] = n
    names(ctx)
BAD = [(r'^(std|tokio|mio|socket2|async_std)::net::', 'opens or handles a bare socket'), (r'dangerous|DangerousClientConfig|set_certificate_verifier|with_custom_certificate_verifier', 'replaces the certificate verifier'),
       (r'^(native_tls|openssl|tokio_native_tls|hyper|reqwest|curl)::', 'another network stack'), (r'^(std|tokio)::process::', 'starts a process'),
       (r'TlsConnector.*::connect$|::connect_with$', None)]
OKNET = re.compile(r'^tokio::net::(tcp::stream::)?TcpStream::(connect|set_\w+|nodelay|peer_addr|local_addr|linger|ttl|readable|writable|ready)$|^std::net::(\w+::)*(Ipv4Addr|Ipv6Addr|IpAddr|SocketAddr)')
def names(ctx):
    """which functions the crate names at all"""
    tmi = ctx.prog('full', 'tmi')
    calls = bodies = 0
    for b in tmi.raw['bodies']:
        bodies += 1
        for blk in b['blocks']:
            for f in fnrefs(blk):
                calls += 1
                p = f['p']
                for rx, why in BAD[:4]:
                    if re.search(rx, p) and not OKNET.search(p):
                        ctx.bad(f'forbidden function: {p}', b['name'] + ' ' + blk['sp'].replace(os_repo(), ''), f'calls {p}, which {why}')
    ctx.extra['functions_scanned'] = bodies; ctx.extra['function_references_scanned'] = calls
    ctx.good(bodies, sample=f'{calls} function references in {bodies} functions name no other socket or verifier')
    for tr, ty, d, sp in tmi.raw['impls']:
        if tr and re.search(r'ServerCertVerifier|ServerVerifier', tr): ctx.bad('verifier implemented in the crate', sp, f'{tr} is implemented for {tmi.types[ty]["s"]}')
    ctx.good(sample=f'{len(tmi.raw["impls"])} trait implementations, none a certificate verifier')
def os_repo():
    import build
    return build.REPO
def fnrefs(j):
    """all function references anywhere in a block"""
    if isinstance(j, dict):
        if 'p' in j: yield j
        return
    if isinstance(j, list):
        for x in j:
            if isinstance(x, (list, dict)): yield from fnrefs(x)
