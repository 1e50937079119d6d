"""The client as a monitor over traces of I/O events (see engine/aio.py).

For every reachable way an operation can run, the value graph gives the pair (trace of I/O events, result). `leaves` enumerates
those pairs; the Spec below reads the events of a leaf one by one and builds the result that the specification demands after
exactly these events, as a value graph again, which is compared with the result of the code under the leaf's conditions."""
from common import *
import aio
from aio import events
from machine import assume
HC = dict(HK); HC.update(aio.hooks())
HC_READY = HC
CE = 'tmi::client::ConnectError'; RE = 'tmi::client::read::RecvError'; SE = 'tmi::client::write::SendError'; RCE = 'tmi::client::ReconnectError'
SECOND = 10**9
class Stuck(Exception): pass

KNOWN = {}      # parts of the arguments and of messages that are known (panics.py)
AGAIN = []      # running again, to confirm a witness
def crun(ctx, root, mode='ready', args=None, setup=None, env=None, symexit=6, cutloop=1 << 30):
    def su(m, s, a):
        if setup: setup(m, s, a)
        if env: s.env = env(m, s, a)
    r = run(ctx, root, args=args, hooks=HC, opts={'aio': mode, 'strict_loops': False, 'symexit': symexit, 'cutloop': cutloop, 'known': dict(KNOWN)}, setup=su if (setup or env or mode != 'ready' or KNOWN) else None)
    if AGAIN: return r
    if r is not None:
        r.again = lambda known: rerun(known, lambda: crun(ctx, root, mode, args, setup, env, symexit, cutloop))
    if r is not None and r.state is None:
        # no way to return: it panics for every argument (or never ends)
        import panics
        if not panics.panics(ctx, f'tmi::Client ({root})', root, r): ctx.undecided(root, 'there is no way for it to return')
        return None
    return r

def rerun(known, f):
    KNOWN.clear(); KNOWN.update(known); AGAIN.append(1)
    try: return f()
    finally: KNOWN.clear(); AGAIN.pop()
def variant(ctx, path, name):
    for t in ctx.prog().types:
        if t and t['k'] == 'adt' and t['n'] == path:
            for i, v in enumerate(t['v']):
                if v['n'] == name:
                    NVAR.setdefault(path, len(t['v']))
                    VNAMES.setdefault((path, i), name)
                    return i
    raise Stuck(f'no variant {path}::{name}')
def field_ix(ctx, path, name):
    for t in ctx.prog().types:
        if t and t['k'] == 'adt' and t['n'] == path:
            for i, f in enumerate(t['v'][0]['f']):
                if (f.get('n') if isinstance(f, dict) else f[0]) == name: return i
    raise Stuck(f'no field {path}.{name}')
def field(ctx, v, path, name): return fld(v, None, field_ix(ctx, path, name))
def E(ctx, path, name, *fs): return adt(path, variant(ctx, path, name), list(fs))
def resok(tr): return is_(app('res', tr), 0, 2)
def resval(tr): return fld(app('res', tr), 0, 0)
def reserr(tr): return fld(app('res', tr), 1, 0)

def loopsyms(t): return sorted({x.a[0] for x in TMwalk(t) if x.op == 'sym' and x.a[0].startswith('lv')})
def TMwalk(t, seen=None):
    from ctx import walk
    return walk(t)

def leaves(tr, env=EMPTYENV, limit=20000):
    """(events, conditions) of every way the trace can come out"""
    out = []
    def spine(t):
        """first gating condition on the spine, or None"""
        while True:
            if t.op == 'ite': return t.a[0]
            if t.op == 'tr': t = t.a[0]; continue
            return None
    def go(t, e):
        if len(out) > limit: raise Stuck('too many ways to run')
        t = restrict_spine(t, e)
        c = spine(t)
        if c is None: out.append((events(t), e)); return
        for v in (True, False):
            e2 = assume(e, c, v)
            if e2 is not None: go(t, e2)
    def restrict_spine(t, e):
        ev = []
        while True:
            if t.op == 'ite':
                d = e.decide(t.a[0])
                if d is None: break
                t = t.a[1] if d else t.a[2]; continue
            if t.op == 'tr': ev.append(t); t = t.a[0]; continue
            break
        for x in reversed(ev): t = mk('tr', t, x.a[1], x.a[2])
        return t
    go(tr, env)
    return out
def orig_events(tr, env):
    """events of a trace under conditions that decide its spine: (name, args, trace up to and including it)"""
    out = []
    while True:
        if tr.op == 'ite':
            d = env.decide(tr.a[0])
            tr = tr.a[1] if d else tr.a[2]; continue
        if tr.op == 'tr': out.append((tr.a[1], tr.a[2], tr)); tr = tr.a[0]; continue
        break
    out.reverse()
    return out, tr

class Mon:
    """reads one leaf"""
    def __init__(self, ctx, where, evs, env, tags, what):
        self.ctx = ctx; self.where = where; self.ev = evs; self.env0 = env; self.tags = tags; self.what = what
    def short(self): return [e[0] for e in self.ev]
    # ---- checks made when an event is matched
    def same(self, tag, key, env, got, want, vocab=()):
        if tag in self.tags: self.ctx.equal(key, self.where, got, want, tuple(vocab) + VOCC, env=env)
    def need(self, tag, key, cond, msg):
        if tag not in self.tags: return
        if cond: self.ctx.good(sample=key)
        else: self.ctx.bad(key, self.where, msg + f' (events {self.short()})')
    def br(self, c, env, t, f):
        c = restrict(c, env)
        if c.op != 'int' and c.op not in ATOMS and c.op != 'ite': c = truth(c)
        if c is ONE: return t(env)
        if c is ZERO: return f(env)
        if c.op == 'ite':
            e1 = assume(env, c.a[0], True); e2 = assume(env, c.a[0], False)
            x = self.br(c.a[1], e1, t, f) if e1 is not None else UNREACH
            y = self.br(c.a[2], e2, t, f) if e2 is not None else UNREACH
            return ite(c.a[0], x, y)
        e1 = assume(env, c, True); e2 = assume(env, c, False)
        x = t(e1) if e1 is not None else UNREACH
        y = f(e2) if e2 is not None else UNREACH
        return ite(c, x, y)
    def over(self, i, why):
        """the specification wants more to happen (or something else) at this point"""
        if i < len(self.ev): return app('unexpected-event', TM.st(self.ev[i][0]), TM.st(why))
        return app('ended-too-early', TM.st(why))
    def at(self, i, *names):
        return i < len(self.ev) and self.ev[i][0] in names
    def end(self, i, v):
        return v if i >= len(self.ev) else app('unexpected-event', TM.st(self.ev[i][0]), TM.st('nothing more may happen'))
    def scope(self, i, env, wants):
        """the event's active timeouts include each wanted duration"""
        if 'scope' not in self.tags: return
        sc = self.ev[i][1][-1]
        ds = flat(sc)
        for w, name in wants:
            self.need('scope', f'{self.what}: {self.ev[i][0]} is bounded by {name}', any(self.equalterm(d, w, env) for d in ds), f'the waits around `{self.ev[i][0]}` are {[show(d, 3) for d in ds]}, none is {name}')
    def equalterm(self, a, b, env):
        return TM.Equiv().check(a, b, env) is None
VOCC = ('res', 'fut', 'elapsed', 'pending', 'native_certs', 'rootadd', 'irc.parse', 'unexpected-event', 'ended-too-early', 'call:rand')
def flat(sc):
    out = []
    if sc.op == 'list':
        for p in sc.a[0]:
            if p.op == 'sub': out += flat(p.a[0])
            elif p.op == 'one': out.append(p.a[0])
    return out

# ---------------------------------------------------------------- writing one message
def write_phase(m, i, env, target, text, k, wants=(), err=None, texttag='text', ordertag='order'):
    """expects writes of exactly `text` to `target`, then a flush; k(i, env) continues; err(e) is the result of an I/O failure"""
    def step(i, env, sofar):
        if m.at(i, 'write'):
            n, a, tr = m.ev[i]
            m.same('target', f'{m.what}: written to the open connection', env, a[0], target)
            m.scope(i, env, wants)
            return m.br(resok(tr), env, lambda e: step(i + 1, e, cat(sofar, a[1])), lambda e: m.end(i + 1, err(reserr(tr))))
        if m.at(i, 'write_some'):
            m.need(ordertag, f'{m.what}: complete write', False, 'a write that may be partial is used')
            return m.over(i, 'partial write')
        if m.at(i, 'flush'):
            n, a, tr = m.ev[i]
            m.same('target', f'{m.what}: the open connection is flushed', env, a[0], target)
            m.scope(i, env, wants)
            m.same(texttag, f'{m.what}: exact text sent', env, sofar, text)
            def after(e):
                # flushing again, or nothing left to write
                j = i + 1
                while m.at(j, 'flush'): j += 1
                return k(j, e)
            if m.at(i + 1, 'write'):
                # flushed in the middle of the message: go on as long as text is missing
                if restrict(sofar, env) is not restrict(text, env):
                    return m.br(resok(tr), env, lambda e: step(i + 1, e, sofar), lambda e: m.end(i + 1, err(reserr(tr))))
            return m.br(resok(tr), env, after, lambda e: m.end(i + 1, err(reserr(tr))))
        return m.over(i, 'write and flush')
    return step(i, env, EMPTY)

# ---------------------------------------------------------------- the client as an argument
CLIENT = 'tmi::Client'
def client_ty(ctx):
    for i, t in enumerate(ctx.prog().types):
        if t and t['k'] == 'adt' and t['n'] == CLIENT: return t
    raise Stuck('no type tmi::Client')
def string_fields(ctx):
    """indices of the client's own text buffers"""
    P = ctx.prog(); out = []
    for i, f in enumerate(client_ty(ctx)['v'][0]['f']):
        ft = P.types[f[1]]
        if ft and (ft['s'] in ('alloc::string::String', 'std::string::String', 'String') or ft.get('n') == 'std::string::String' or (ft.get('n') == 'std::vec::Vec' and 'u8' in ft['s']) or ft.get('n', '').endswith('BytesMut')): out.append(i)
    return out
def typed_field(ctx, part):
    P = ctx.prog()
    for i, f in enumerate(client_ty(ctx)['v'][0]['f']):
        if part in P.types[f[1]]['s']: return i
    return None
def client_arg(ctx):
    t = client_ty(ctx); c = sym('c'); sf = string_fields(ctx)
    NVAR[CLIENT] = 1
    v = adt(CLIENT, 0, [sym('buffer%d' % i, 'str') if i in sf else fld(c, None, i) for i in range(len(t['v'][0]['f']))])
    return v, [sym('buffer%d' % i, 'str') for i in sf]
def with_client(ctx):
    v, bufs = client_arg(ctx)
    def a(m, st): return m.newcell(st, v)
    return a, v, bufs
def depends(t, bufs): return any(x in bufs for x in TMwalk(t))

def sender(ctx, root, where, what, text, gate=None, tags=('text', 'order', 'value', 'target'), extra=None):
    """a command that writes one message: text(args) is what must be written"""
    a, cv, bufs = with_client(ctx)
    r = crun(ctx, root, args=[a] + (extra or []))
    if r is None: return
    import panics
    panics.panics(ctx, where, what, r)
    sub0 = {b: EMPTY for b in bufs}
    tr = subst(r.m.get_cell(r.state, aio.TRACE), sub0); val_ = subst(r.value, sub0)
    if loopsyms(tr) or loopsyms(val_): ctx.undecided(where, 'a loop without a summary'); return
    t = text(r.args)
    wi = typed_field(ctx, 'WriteHalf')
    target = fld(sym('c'), None, wi) if wi is not None else None
    tg = set(tags) - (set() if target is not None else {'target'})
    for (ev, e) in leaves(tr):
        evs, root_ = orig_events(tr, e)
        m = Mon(ctx, where, evs, e, tg, what)
        succ = ok(UNIT)
        io = lambda x: err(E(ctx, SE, 'Io', x))
        def go(env): return write_phase(m, 0, env, target, t, lambda i, e2: m.end(i, succ), err=io)
        if gate is not None:
            want = m.br(gate(r.args), e, go, lambda e2: m.end(0, err(E(ctx, SE, 'InvalidMessage', adt('tmi::client::write::InvalidMessage', 0, [])))))
        else: want = go(e)
        if 'value' in tg: ctx.equal(f'{what}: result', where, val_, ready(want), VOCC, env=e)
def leftover(ctx, root, where, what, extra=None, args=None, setup=None):
    """nothing written depends on text left behind, or nothing is left behind however the operation ends"""
    a, cv, bufs = with_client(ctx)
    r = crun(ctx, root, mode='full', args=args or ([a] + (extra or [])), setup=setup)
    if r is None: return None
    tr = r.m.get_cell(r.state, aio.TRACE)
    uses = depends(tr, bufs)
    sub0 = {b: EMPTY for b in bufs}
    end = subst(r.m.deep_value(r.state, r.m.deep(r.state, r.args[0])), sub0)
    return uses, [(i, fld(end, None, i)) for i in string_fields(ctx)]
