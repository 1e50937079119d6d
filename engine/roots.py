"""Runs the value-graph construction on harness entry points with opaque arguments."""
from term import *
from mir import Program
from machine import Machine, State, Unsupported, Summarise
from models import Models

def opaque_arg(m, st, tyid, name):
    t = m.ty(tyid)
    if t['k'] == 'ref' and t['m']:
        inner = t['to']
        return m.newcell(st, opaque_arg(m, st, inner, name), inner)
    if t['k'] == 'ref': return opaque_arg(m, st, t['to'], name)
    if t['k'] in ('int', 'uint'): return sym(name, t['n'])
    if t['k'] in ('bool', 'char', 'str'): return sym(name, t['k'])
    if t['k'] == 'adt':
        if t['n'] in ('std::string::String', 'std::borrow::Cow'): return sym(name, 'str')
        if t['n'] == 'std::time::Duration': return sym(name, 'dur')
        if t['ak'] == 'enum': NVAR.setdefault(t['n'], len(t['v']))
        else: NVAR.setdefault(t['n'], 1)
    return sym(name)

def strip(m, ty):
    while ty is not None and m.ty(ty)['k'] == 'ref': ty = m.ty(ty)['to']
    return ty
def plug(m, v, ty, known):
    """an argument of which some parts are known"""
    if v in known: return known[v]
    if v.op == 'ptr' or ty is None: return v
    def above(x):
        out = []
        while x.op == 'fld': x = x.a[0]; out.append(x)
        return out
    t = m.ty(ty)
    if v.op == 'adt' and t['k'] == 'adt':
        fs = t['v'][v.a[1]]['f']
        return adt(v.a[0], v.a[1], [plug(m, x, strip(m, _fty(f)), known) for x, f in zip(v.a[2], fs)])
    inside = [k for k in known if v in above(k)]
    if not inside: return subst(v, known)
    if t['k'] != 'adt': return v
    var = None
    for k in inside:
        while k.a[0] is not v: k = k.a[0]
        var = k.a[1]
    fs = t['v'][var or 0]['f']
    return adt(t['n'], var or 0, [plug(m, mk('fld', v, var, i), strip(m, _fty(f)), known) for i, f in enumerate(fs)])
def _fty(f): return f.get('t') if isinstance(f, dict) else f[1]
def _knowing(f, known):
    def g(S, c):
        r = f(S, c)
        if isinstance(r, T): return subst(r, known)
        return (subst(r[0], known),) + tuple(r[1:]) if isinstance(r, tuple) and isinstance(r[0], T) else r
    return g
class Result: pass
def run(prog, root, args=None, hooks=None, opts=None, setup=None):
    """value of harness function h_<root> applied to opaque (or given) arguments"""
    known = (opts or {}).get('known')
    if known: hooks = {k: (_knowing(f, known) if 'IrcMessage' in k else f) for k, f in (hooks or {}).items()}
    m = Machine(prog, Models(hooks), opts)
    n = prog.roots['h_' + root] if 'h_' + root in prog.roots else prog.roots[root]
    body = prog.body(n)
    st = State({}, EMPTYENV)
    a = []
    for i in range(body.argc):
        nm = next((x[0] for x in body.names if x[1][0] == i + 1 and not x[1][1]), 'a%d' % i)
        if args and i < len(args) and args[i] is not None:
            x = args[i]
            a.append(x(m, st) if callable(x) else x)
        else: a.append(opaque_arg(m, st, body.locals[i + 1], nm))
    if known:
        tys = [body.locals[i + 1] for i in range(body.argc)]
        a = [plug(m, x, strip(m, t), known) for x, t in zip(a, tys)]
        for k in list(st.store):
            v = st.store[k]
            if isinstance(v, T): st.store[k] = plug(m, v, strip(m, next((t for x, t in zip(a, tys) if x.op == 'ptr'), None)), known)
    if setup: setup(m, st, a)
    r = Result()
    r.args = a; r.m = m
    r.value, r.state = m.run_root(n, a, st)
    return r
