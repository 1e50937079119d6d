"""C12: serialised messages read back with the same fields.
The writer and the reader of harness-ser are opaque: what Serialize hands to the writer becomes a tree of entries
(key, value), and Deserialize is analysed on that same tree.  Values of std, chrono and of the other serialisable types
of the crate are leaves, written and read as one (their own entry is checked on its own)."""
from common import *
import re
from machine import assume, State
from term import EMPTYENV
HN = 'harness-ser'
class Split(Exception):
    def __init__(self, c): self.c = c
def node(kind, *a): return adt('@node:' + kind, 0, list(a))
def kind(n): return n.a[0][6:] if n.op == 'adt' and str(n.a[0]).startswith('@node:') else None
NODE_NONE = node('none'); ABSENT = node('absent')
def force(c, v):
    v = restrict(v, c.st.env)
    return v
def only(c, v):
    """the one node this is in the current case"""
    v = force(c, v)
    if v.op == 'ite': raise Split(v.a[0])
    if kind(v) is None: raise Unsupported('what is written is ' + show(v, 4)[:120])
    return v
def ask(c, v, f):
    v = force(c, v)
    if v.op == 'ite': return ite(v.a[0], ask(c, v.a[1], f), ask(c, v.a[2], f))
    if kind(v) is None: raise Unsupported('what is written is ' + show(v, 4)[:120])
    return f(v)
def arg(c, i): return c.m.deep(c.st, c.args[i])
def tyname(m, i):
    i = m.peel(i)
    return re.sub(r"'\w+\s*,?\s*|<>", '', m.ty(i)['s']).replace('<>', '')
H = {}
def hook(name):
    def d(f): H[name] = f; return f
    return d
def const(name, n): H[name] = lambda S, c: n
const('m_none', NODE_NONE); const('m_unit', NODE_NONE)
const('m_map', node('map', ABSENT)); const('m_seq', node('seq', ABSENT))
for k in ('bool', 'int', 'uint', 'text'):
    H['m_' + k] = lambda S, c, k=k: node(k, arg(c, 0))
    H['r_is_' + k] = lambda S, c, k=k: ask(c, arg(c, 0), lambda n: isk(n, k))
    if k != 'text': H['r_' + k] = lambda S, c, k=k: ask(c, arg(c, 0), lambda n: n.a[2][0] if kind(n) == k else UNREACH)
for k in ('none', 'map', 'seq', 'bare', 'variant'):
    H['r_is_' + k] = lambda S, c, k=k: ask(c, arg(c, 0), lambda n: isk(n, k))
def isk(n, k):
    if kind(n) == 'atom':
        if k == 'none': return ZERO
        raise Unsupported(f'a {n.a[2][1].a[0].decode()} is read in another way than it was written')
    return ONE if kind(n) == k else ZERO
@hook('r_text')
def _(S, c): return ask(c, arg(c, 0), lambda n: n.a[2][0] if kind(n) in ('text', 'variant', 'bare') else UNREACH)
@hook('m_bare')
def _(S, c): return node('bare', arg(c, 0))
@hook('m_variant')
def _(S, c): return node('variant', arg(c, 0), arg(c, 1))
@hook('r_inner')
def _(S, c): return ask(c, arg(c, 0), lambda n: n.a[2][1] if kind(n) == 'variant' else UNREACH)
def entries(n): return list(n.a[2][1:])
def put(S, c, key, v):
    n = only(c, arg(c, 0))
    c.m.assign(c.st, c.args[0], adt(n.a[0], 0, list(n.a[2]) + [mk('tup', (key, v))]))
    return mk('tup', ())
@hook('m_put')
def _(S, c): return put(S, c, arg(c, 1), arg(c, 2))
@hook('m_skip')
def _(S, c): return put(S, c, arg(c, 1), ABSENT)
@hook('m_add')
def _(S, c): return put(S, c, st(''), arg(c, 1))
def left(c, n):
    es = []
    for e in entries(n):
        k, v = e.a[0]; v = force(c, v)
        if v is ABSENT: continue
        if v.op == 'ite' and has_absent(v): raise Split(v.a[0])
        es.append(mk('tup', (k, v)))
    return es
def has_absent(v): return v is ABSENT or (v.op == 'ite' and (has_absent(v.a[1]) or has_absent(v.a[2])))
@hook('r_has')
def _(S, c): return ONE if left(c, only(c, arg(c, 0))) else ZERO
@hook('r_key')
def _(S, c):
    n = only(c, arg(c, 0)); es = left(c, n); back = arg(c, 1)
    if not es: return UNREACH
    e = es.pop(-1 if back is ONE else 0)
    k = force(c, e.a[0][0])
    if k.op == 'ite': raise Split(k.a[0])
    c.m.assign(c.st, c.args[0], adt(n.a[0], 0, [e.a[0][1]] + es))
    return k
@hook('r_value')
def _(S, c):
    n = only(c, arg(c, 0))
    if kind(n) == 'map': return n.a[2][0]
    es = left(c, n)
    if not es: return UNREACH
    c.m.assign(c.st, c.args[0], adt(n.a[0], 0, [ABSENT] + es[1:]))
    return es[0].a[0][1]
ATOM_STD = re.compile(r'^(std::vec::Vec|chrono::.*DateTime|std::time::Duration|smallvec::SmallVec|std::collections::.*|std::ops::Range)\b')
# chrono's own field adaptors: messages carry milliseconds, so finer or equal units keep the value
UNITS = {'ts_seconds': False, 'ts_milliseconds': True, 'ts_microseconds': True, 'ts_seconds_option': False, 'ts_milliseconds_option': True, 'ts_microseconds_option': True}
def chrono_with(h):
    for u, keeps in UNITS.items():
        def ser(S, c, u=u, keeps=keeps):
            v = arg(c, 0)
            return adt('std::result::Result', 0, [node('atom', v if keeps else app('dt:' + u, v), st(u))])
        def de(S, c, u=u):
            r = arg(c, 0)
            if r.op != 'adt' or str(r.a[0]).split('::')[-1] != 'R': return None
            def f(n):
                if kind(n) == 'atom' and n.a[2][1] is st(u): return adt('std::result::Result', 0, [n.a[2][0]])
                if kind(n) == 'none': return adt('std::result::Result', 1, [adt('E', 0, [])])
                raise Unsupported(f'read with {u}, written otherwise')
            return ask(c, r.a[2][0], f)
        for base in ('chrono::datetime::serde', 'chrono::serde'):
            h[f'{base}::{u}::serialize'] = ser; h[f'{base}::{u}::deserialize'] = de
def atoms(prog, types, me, deep=False):
    """hooks for (de)serialize of every leaf type; deep: the other types of the crate are not leaves"""
    h = dict(H); chrono_with(h)
    def isatom(t):
        if deep and (t.startswith('tmi::') or t == 'std::time::Duration'): return False
        if ATOM_STD.match(t): return True
        return t.startswith('tmi::') and t.rsplit('::', 1)[1] in types and t.rsplit('::', 1)[1] != me
    def ser(S, c):
        t = tyname(c.m, c.atys[0])
        if not isatom(t): return None
        v = c.m.deep(c.st, c.args[0])
        return adt('std::result::Result', 0, [node('atom', v, st(t))])
    def de(S, c):
        rt = c.m.ty(c.rty)
        if rt['k'] != 'adt': return None
        t = tyname(c.m, rt['a'][0]) if rt.get('a') else None
        if t is None or not isatom(t): return None
        r = arg(c, 0)
        if r.op != 'adt' or not str(r.a[0]).split('::')[-1] == 'R': return None
        def f(n):
            if kind(n) == 'atom':
                if n.a[2][1] is not st(t): raise Unsupported(f'written as {n.a[2][1].a[0].decode()}, read as {t}')
                return adt('std::result::Result', 0, [n.a[2][0]])
            if kind(n) == 'none': return adt('std::result::Result', 1, [adt('E', 0, [])])
            raise Unsupported(f'written as {kind(n)}, read as {t}')
        return ask(c, r.a[2][0], f)
    for i in prog.insts:
        p = i['path']
        if p.endswith('::serialize') and 'Serialize for' in p: h[p] = ser
        elif p.endswith('::deserialize') and 'Deserialize<' in p: h[p] = de
        # the nanoseconds of a Duration are below one second: nothing to carry over
        elif p.endswith('::check_overflow') and 'Duration' in p: h[p] = lambda S, c: adt('std::result::Result', 0, [mk('tup', ())])
    for n in ('serde::Serialize::serialize',): h[n] = ser
    for n in ('serde::Deserialize::deserialize',): h[n] = de
    return h
import roots as RT
def trip(ctx, prog, root, hooks, facts):
    def setup(m, s, a):
        t = m.ty(m.peel(prog.body(prog.roots['h_' + root]).locals[1]))
        for vi, v in enumerate(t['v']):
            for i, f in enumerate(v['f']): m.note_sort(fld(a[0], vi, i) if len(t['v']) > 1 else fldof(a[0], i), f[1])
        for cnd, val in facts(a[0]):
            e = assume(s.env, cnd, val)
            if e is None: raise Infeasible
            s.env = e
    return RT.run(prog, root, args=[sym('a ' + root.split('__')[1])], hooks=hooks, setup=setup)
class Infeasible(Exception): pass
def check(ctx):
    ctx.rule('for every serialisable type and both reader modes (entries in order with borrowed text; entries in reverse order with transient text): reading what was written succeeds and gives the same value, field by field')
    prog = ctx.prog('full', harness=HN)
    types = [r[6:] for r in prog.roots if r.startswith('h_rt__')]
    if len(types) < 36: ctx.bad('anchor', 'harness-ser', f'only {len(types)} serialisable types')
    impls = {i['path'] for i in prog.insts if i['path'].endswith('::serialize')}
    ctx.extra['types'] = types
    for t in types:
        hooks = atoms(prog, set(types), t)
        for root in (f'rt__{t}', f'rtb__{t}'):
            n = prog.roots['h_' + root]; tid = prog.strip_ref(prog.body(n).locals[1]); ty = prog.types[tid]
            nv = len(ty['v'])
            for vi in range(nv):
                one(ctx, prog, root, hooks, ty, t, vi, nv, set(types))
class Deeper(Exception): pass
def one(ctx, prog, root, hooks, ty, t, vi, nv, types):
    try: return one_(ctx, prog, root, hooks, ty, t, vi, nv, False)
    except Deeper: pass
    one_(ctx, prog, root, atoms(prog, types, t, True), ty, t, vi, nv, True)
def one_(ctx, prog, root, hooks, ty, t, vi, nv, deep):
    work = [[]]; done = 0
    name = t + ('::' + ty['v'][vi]['n'] if nv > 1 else '')
    mode = 'in reverse order' if root.startswith('rtb') else 'in order'
    while work:
        fs = work.pop(); done += 1
        if done > 64: ctx.undecided(name, 'too many cases'); return
        facts = lambda x: ([(is_(x, vi, nv), True)] if nv > 1 else []) + fs
        try: r = trip(ctx, prog, root, hooks, facts)
        except Split as s:
            if any(c is s.c for c, _ in fs): ctx.undecided(name, f'{mode}: the case {show(s.c)} is not settled'); return
            work += [fs + [(s.c, True)], fs + [(s.c, False)]]; continue
        except Infeasible: continue
        except VIOL_UNSUP as x:
            if not deep and 'another way than' in str(x): raise Deeper
            ctx.undecided(name, f'{mode}: {x}'); continue
        for k in r.m.visited: ctx.analysed.add(prog.insts[k]['path'])
        x = r.args[0]
        env = EMPTYENV
        for cnd, v in facts(x): env = assume(env, cnd, v)
        where = f'Serialize/Deserialize of tmi::{t}'
        what = f'{name} read {mode}' + (' when ' + ', '.join(('' if v else 'not ') + show(c, 3) for c, v in fs) if fs else '')
        if r.value is None: ctx.undecided(name, f'{mode}: never returns'); continue
        if not ctx.equal(f'{what}: is accepted', where, restrict(isOk(r.value), env), ONE, env=env): continue
        got = okval(r.value)
        if nv > 1:
            if not ctx.equal(f'{what}: is the same variant', where, restrict(is_(got, vi, nv), env), ONE, env=env): continue
        fields = ty['v'][vi]['f']
        for fi, f in enumerate(fields):
            a = restrict(fld(got, vi if nv > 1 else None, fi) if nv > 1 else fldof(got, fi), env); b = restrict(fld(x, vi, fi) if nv > 1 else fldof(x, fi), env)
            if t == 'Subscriber' and prog.types[f[1]]['k'] == 'uint':
                # the number of months is either kept or computed from its text
                if a is b: ctx.good(1); continue
                txt = [fldof(x, j) for j, g in enumerate(fields) if prog.types[g[1]]['k'] != 'uint']
                alts = [orelse(parse(prog.types[f[1]]['n'], s), num(1)) for s in txt]
                e = TM.Equiv()
                if any(TM.Equiv().check(a, w, env) is None for w in alts): ctx.good(1, f'{what}: {f[0]} is computed from its text'); continue
                ctx.equal(f'{what}: field {f[0]}', where, a, alts[-1], env=env); continue
            ctx.equal(f'{what}: field {f[0]}', where, a, b, env=env)
def fldof(x, i): return fld(x, None, i) if x.op != 'adt' else x.a[2][i]
