"""Shared vocabulary of the specifications."""
import roots, boundaries
from term import *
import term as TM
import models as MD
from machine import Unsupported, Summarise

VIOL_UNSUP = (Unsupported, Summarise)
_cache = {}
def run(ctx, root, args=None, hooks=None, cfg='full', setup=None, opts=None, harness='harness'):
    """value-graph of a harness entry point; None (and an undecided obligation) if it has constructs outside the analysis"""
    prog = ctx.prog(cfg, harness=harness)
    key = (cfg, harness, root, tuple(args) if args else None, frozenset((hooks or {}).items()) if hooks is HK else frozenset(hooks or ()))
    if setup is None and key in _cache: return _cache[key]
    try: r = roots.run(prog, root, args=args, hooks=hooks, setup=setup, opts=opts)
    except VIOL_UNSUP as x:
        ctx.undecided('h_' + root, x); r = None
    else:
        for n in r.m.visited: ctx.analysed.add(prog.insts[n]['path'])
    if setup is None: _cache[key] = r
    return r
HK = boundaries.msg_hooks()
def value(ctx, root, hooks=HK, **kw):
    r = run(ctx, root, hooks=hooks, **kw)
    return None if r is None else r.value
def apply_root(ctx, root, *args, **kw):
    """the value of a one/two-argument entry point, as a function applied to the given terms"""
    r = run(ctx, root, hooks=kw.pop('hooks', HK), **kw)
    if r is None: return None
    m = {}
    for s, a in zip(r.args, args): m[s] = a
    return subst(r.value, m)

M = sym('m')
def tag(k, m=M): return app('tag', m, st(k))
def channel(m=M): return app('msg.channel', m)
def params(m=M): return app('msg.params', m)
def text(m=M): return app('msg.text', m)
def prefix(m=M): return app('msg.prefix', m)
def command(m=M): return app('msg.command', m)
def isSome(o): return is_(o, 1, 2)
def val(o): return fld(o, 1, 0)
def isOk(o): return is_(o, 0, 2)
def okval(o): return fld(o, 0, 0)
def omap(o, f): return ite(isSome(o), some(f(val(o))), NONE)
def oand(o, f): return ite(isSome(o), f(val(o)), NONE)
def orelse(o, d): return ite(isSome(o), val(o), d)
def unopt(c, v): return ite(c, some(v), NONE)
def parse(ty, s):
    """FromStr of a primitive as an Option"""
    r = MD.parse_prim(ty, s)
    return ite(isOk(r), some(okval(r)), NONE)
def ptag(ty, k): return oand(tag(k), lambda v: parse(ty, v))
def nonempty(o): return oand(o, lambda v: ite(eq(v, st('')), NONE, some(v)))
def conj(*cs):
    r = ONE
    for c in reversed(cs): r = ite(c, r, ZERO)
    return r
def NOT(c): return ite(c, ZERO, ONE)
def OR(*cs):
    r = ZERO
    for c in reversed(cs): r = ite(c, ONE, r)
    return r
def cow_eq(a, s): return eq(a, st(s))
VOC = {'ts.millis'}

def maplist(t, f):
    """f applied to every element of a list value"""
    if t.op == 'ite': return ite(t.a[0], maplist(t.a[1], f), maplist(t.a[2], f))
    if t.op == 'list':
        out = []
        for p in t.a[0]:
            if p.op == 'one': out.append(mk('one', f(p.a[0])))
            elif p.op == 'many': out.append(mk('many', p.a[0], p.a[1], maplist(p.a[2], f)))
            elif p.op == 'opt': out.append(opt_part(p.a[0], [q for q in maplist(lst(p.a[1]), f).a[0]], [q for q in maplist(lst(p.a[2]), f).a[0]]))
            else: raise Unsupported('list part ' + p.op)
        return lst(out)
    raise Unsupported('list ' + t.op)

class Obj:
    """a value of public type T, described through its accessors"""
    def __init__(self, ty, **f): self.ty = ty; self.f = f
class Opt:
    def __init__(self, cond, obj): self.cond = cond; self.obj = obj
class Sum:
    """enum value: list of (condition, variant name, payload Obj/term/None)"""
    def __init__(self, ty, cases): self.ty = ty; self.cases = cases

def variant_index(ctx, ty, name, cfg='full'):
    for t in ctx.prog(cfg).types:
        if t and t['k'] == 'adt' and t['n'].endswith('::' + ty) and t['n'].startswith('tmi'):
            for i, v in enumerate(t['v']):
                if v['n'] == name: return i, len(t['v']), t
    return None

def path_loc(ctx, suffixes, cfg='full'):
    """source location of the first function whose path ends with one of these"""
    for i in ctx.prog(cfg).insts:
        if i['path'].endswith(tuple(suffixes)) and i.get('cr') == 'tmi': return i['path']
    return suffixes[0]

def compare(ctx, key, where, got, want, cond=ONE, vocab=VOC):
    """got (a value of the code) against want (term, Obj, Opt or Sum), in the cases where cond holds"""
    if isinstance(want, TM.T):
        return ctx.equal(key, where, ite(cond, got, ZERO), ite(cond, want, ZERO), vocab)
    if isinstance(want, Obj):
        okall = True
        for g, w in want.f.items():
            v = apply_root(ctx, f'get__{want.ty}__{g}', got)
            if v is None: okall = False; continue
            okall &= bool(compare(ctx, f'{key}.{g}', where, v, w, cond, vocab))
        return okall
    if isinstance(want, Opt):
        a = ctx.equal(key + ' present', where, ite(cond, isSome(got), ZERO), ite(cond, want.cond, ZERO), vocab)
        return a and compare(ctx, key, where, val(got), want.obj, ite(cond, want.cond, ZERO), vocab)
    if isinstance(want, Sum):
        r = True
        rest = cond
        for c, vn, pl in want.cases:
            vi = variant_index(ctx, want.ty, vn)
            if vi is None: ctx.undecided(where, f'{key}: no variant {want.ty}::{vn}'); return False
            i, n, t = vi
            cc = ite(rest, c, ZERO)
            rest = ite(rest, NOT(c), ZERO)
            a = ctx.equal(f'{key} is {vn}', where, ite(cc, is_(got, i, n), ONE), ONE, vocab)
            r &= bool(a)
            if a and pl is not None: r &= bool(compare(ctx, f'{key}.{vn}', where, fld(got, i, 0), pl, cc, vocab))
        return r
    raise TypeError(want)
