"""Value-graph construction from MIR: every local and memory cell is mapped to a gated value term,
control-flow joins become gating nodes (placed at immediate postdominators), loops become stream
summaries.  One pass over the control-flow graph per calling context; nothing is executed."""
import re, sys
from term import *
import term as TM
from mir import Program, Body, Cfg

class Unsupported(Exception): pass
class Summarise(Exception):
    def __init__(self, ctx): self.ctx = ctx
class SplitLoop(Unsupported):
    def __init__(self, where, cond): self.where = where; self.cond = cond; Unsupported.__init__(self, 'a loop over one of two streams')

class State:
    __slots__ = ('store', 'env')
    def __init__(self, store, env): self.store = store; self.env = env
    def copy(self): return State(dict(self.store), self.env)

class Frame:
    n = 0
    def __init__(self, inst, body):
        Frame.n += 1; self.id = Frame.n; self.inst = inst; self.body = body
        self.active = {}
        self.where = None

class LoopCtx:
    def __init__(self, mode, entry, key): self.mode = mode; self.entry = entry; self.count = 0; self.sym = 0; self.deep = 0; self.key = key; self.streams = {}

def assume(env, c, val):
    if env is None: return None
    if c.op == 'int': return env if bool(c.a[0]) == val else None
    if c.op == 'ite':
        d = env.decide(c.a[0])
        if d is not None: return assume(env, c.a[1] if d else c.a[2], val)
        x, y = c.a[1], c.a[2]
        for side, k in ((x, True), (y, False)):
            other = y if k else x
            if other.op == 'int' and bool(other.a[0]) != val:
                e = assume(env, c.a[0], k)
                return assume(e, side, val)
        return env
    if c.op in ('unreach',): return None
    d = env.decide(c)
    if d is not None: return env if d == val else None
    if c.op not in ATOMS: return env
    return env.add(c, val)

class Machine:
    def __init__(self, prog, models, opts=None):
        self.p = prog; self.models = models; self.opts = opts or {}
        self.guards = []         # conditions of the branches being followed: (condition, value)
        self.oblig = []          # possible panics: (env, kind, site, detail)
        self.loops = []          # loop contexts, innermost last
        self.depth = 0
        self.visited = {}        # inst -> blocks visited (coverage)
        self.ncalls = 0
        self.opaque_calls = {}
        self.oplog = [] if self.opts.get('logs') else None
        self.boundary = self.opts.get('boundary', {})
        self.max_depth = self.opts.get('max_depth', 90)
        self.keep_cow = self.opts.get('keep_cow', False)
        self.looplog = []
        self.site = None
        self.stack = []
        self.fresh = 0
        self.ptypes = {}
        self.oblig_static = []

    # ------------------------------------------------------------ types
    def ty(self, i): return self.p.types[i]
    def tyname(self, i):
        t = self.ty(i)
        return t.get('n') if t['k'] == 'adt' else t['k']
    def peel(self, i):
        while True:
            t = self.ty(i)
            if t['k'] in ('ref', 'ptr'): i = t['to']
            elif t['k'] == 'adt' and t['n'] in ('std::boxed::Box', 'std::sync::Arc', 'std::rc::Rc', 'std::pin::Pin'): i = t['a'][0]
            else: return i
    def place_ty(self, body, place):
        i = body.locals[place[0]]
        for pr in place[1]:
            i = self.step_ty(i, pr)
            if i is None: return None
        return i
    def step_ty(self, i, pr):
        t = self.ty(i)
        if pr == 'd':
            if t['k'] in ('ref', 'ptr'): return t['to']
            if t['k'] == 'adt' and t['a']: return t['a'][0]
            return i
        if pr[0] == 'f': return pr[2]
        if pr[0] == 'v': return i
        if pr[0] in ('i', 'ci'): return t.get('e', i) if isinstance(t.get('e'), int) else i
        return i

    def ident(self, n): return n in IDENT_ADT or (n == 'std::borrow::Cow' and not self.keep_cow)
    def peel_ref(self, i):
        while self.ty(i)['k'] in ('ref', 'ptr'): i = self.ty(i)['to']
        return i
    # ------------------------------------------------------------ values
    def note_sort(self, t, tyid):
        if t.op in ('fld', 'app', 'sym', 'discr', 'elem') and t not in SORT and not (t.op == 'app' and t.a[0] == 'mul'):
            ty = self.ty(tyid)
            if ty['k'] in ('int', 'uint'): SORT[t] = ty['n']
            elif ty['k'] in ('bool', 'char', 'str'): SORT[t] = ty['k']
            elif ty['k'] == 'ref' and self.ty(ty['to'])['k'] == 'str': SORT[t] = 'str'
            elif ty['k'] == 'adt' and ty['n'] in ('std::string::String', 'std::borrow::Cow'): SORT[t] = 'str'
            elif ty['k'] == 'adt' and ty['n'] == 'std::time::Duration': SORT[t] = 'dur'
        elif t.op == 'ite':
            self.note_sort(t.a[1], tyid); self.note_sort(t.a[2], tyid)
    def read(self, t, step, pty=None):
        """project a value"""
        if step[0] == 'f': return fld(t, step[1], step[2])
        if step[0] == 'i': return self.index(t, step[1])
        raise Unsupported('projection %r' % (step,))
    def index(self, t, i):
        return lift(self._index, (t, i))
    def _index(self, t, i):
        if t.op in ('unreach',): return t
        if t.op == 'arr' and i.op == 'int':
            return t.a[0][i.a[0]] if i.a[0] < len(t.a[0]) else UNREACH
        if t.op == 'str':
            if i.op == 'int': return num(t.a[0][i.a[0]]) if i.a[0] < len(t.a[0]) else UNREACH
            return byteat(t, i)
        if t.op == 'list':
            if i.op == 'int' and all(p.op == 'one' for p in t.a[0][:i.a[0] + 1]) and i.a[0] < len(t.a[0]): return t.a[0][i.a[0]].a[0]
            return rawapp('at', t, i)
        if t.op == 'slice': return byteat(t.a[0], add(t.a[1], i)) if self.isstr(t) else rawapp('at', t.a[0], add(t.a[1], i))
        if t.op == 'app' and t.a[0] == 'store':
            if t.a[1][1] is i: return t.a[1][2]
        if self.isstr(t): return byteat(t, i)
        return rawapp('at', t, i)
    def isstr(self, t):
        if t.op in ('str', 'cat'): return True
        if t.op == 'slice': return self.isstr(t.a[0])
        if t.op == 'sym': return t.a[1] == 'str'
        return SORT.get(t) == 'str'

    def get_cell(self, st, cell):
        v = st.store.get(cell)
        if v is None:
            if cell[0] == 'opq': return cell[1]
            if cell[0] == 'static': return sym('static:' + cell[1])
            if cell == ('trace',): return TR0
            return UNREACH
        return v
    def load_path(self, v, path):
        for s in path: v = self.read(v, s)
        return v
    def update(self, v, path, new):
        if not path: return new
        s = path[0]
        if v.op == 'ite': return ite(v.a[0], self.update(v.a[1], path, new), self.update(v.a[2], path, new))
        if s[0] == 'f':
            var, i, pty = s[1], s[2], s[3]
            if v.op == 'adt':
                if var is not None and v.a[1] != var and v.a[0] != 'uninit': 
                    # writing a field of another variant: build it
                    v = self.blank(pty, var)
                fs = list(v.a[2])
                while len(fs) <= i: fs.append(UNREACH)
                fs[i] = self.update(fs[i], path[1:], new)
                return adt(v.a[0], v.a[1], fs)
            if v.op == 'tup':
                fs = list(v.a[0])
                while len(fs) <= i: fs.append(UNREACH)
                fs[i] = self.update(fs[i], path[1:], new)
                return mk('tup', tuple(fs))
            if v.op == 'cor':
                ty, state, ups, saved = v.a
                if var is None:
                    ups = list(ups)
                    while len(ups) <= i: ups.append(UNREACH)
                    ups[i] = self.update(ups[i], path[1:], new); ups = tuple(ups)
                    return mk('cor', ty, state, ups, saved)
                d = dict(saved)
                d[(var, i)] = self.update(d.get((var, i), UNREACH), path[1:], new)
                return mk('cor', ty, state, ups, tuple(sorted(d.items(), key=lambda x: x[0])))
            if v.op == 'clo':
                fs = list(v.a[1]); fs[i] = self.update(fs[i], path[1:], new)
                return mk('clo', v.a[0], tuple(fs))
            if v.op == 'arr':
                fs = list(v.a[0]); fs[i] = self.update(fs[i], path[1:], new); return mk('arr', tuple(fs))
            b = self.expand(v, pty, var)
            if b is None:
                raise Unsupported('field write into %s' % show(v, 3))
            return self.update(b, path, new)
        if s[0] == 'i':
            i = s[1]
            if v.op == 'arr' and i.op == 'int' and i.a[0] < len(v.a[0]):
                fs = list(v.a[0]); fs[i.a[0]] = self.update(fs[i.a[0]], path[1:], new); return mk('arr', tuple(fs))
            if v.op == 'list' and i.op == 'int' and all(p.op == 'one' for p in v.a[0]) and i.a[0] < len(v.a[0]):
                fs = list(v.a[0]); fs[i.a[0]] = one(self.update(fs[i.a[0]].a[0], path[1:], new)); return lst(fs)
            return rawapp('store', v, i, self.update(self.index(v, i), path[1:], new))
        raise Unsupported('update %r' % (s,))
    def blank(self, tyid, var):
        t = self.ty(tyid)
        if t['k'] == 'adt':
            n = len(t['v'][var or 0]['f'])
            return adt(t['n'], var or 0, [UNREACH] * n)
        raise Unsupported('blank of ' + t['s'])
    def expand(self, v, tyid, var):
        if tyid is None: return None
        t = self.ty(tyid)
        if t['k'] == 'adt' and t['v']:
            vi = var if var is not None else 0
            n = len(t['v'][vi]['f'])
            if v is UNREACH: return adt(t['n'], vi, [UNREACH] * n)
            return adt(t['n'], vi, [fld(v, var if t['ak'] == 'enum' else None, j) for j in range(n)])
        if t['k'] == 'tuple':
            n = len(t['e'])
            return mk('tup', tuple(UNREACH if v is UNREACH else fld(v, None, j) for j in range(n)))
        if t['k'] in ('closure',):
            return mk('clo', t['s'], tuple(fld(v, None, j) for j in range(len(t['u']))))
        if t['k'] == 'coroutine' and v is UNREACH:
            return mk('cor', tyid, 0, (), ())
        return None

    # ------------------------------------------------------------ places
    # a resolved place: ('lv', cell, path, tyid) | ('val', T, tyid) | ('ite', c, r1, r2)
    def resolve(self, fr, st, place):
        body = fr.body
        cur = ('lv', (fr.id, place[0]), (), body.locals[place[0]])
        var = None
        for pr in place[1]:
            if pr == 'd':
                cur = self.r_deref(st, cur); var = None
            elif pr[0] == 'v': var = pr[1]
            elif pr[0] == 'f':
                cur = self.r_step(cur, ('f', self.varof(cur, var), pr[1]), pr[2]); var = None
            elif pr[0] == 'i':
                iv = self.get_cell(st, (fr.id, pr[1]))
                cur = self.r_step(cur, ('i', iv), None)
            elif pr[0] == 'ci':
                if pr[3]:   # from end
                    n = self.r_len(st, cur)
                    cur = self.r_step(cur, ('i', sub(n, num(pr[1]))), None)
                else: cur = self.r_step(cur, ('i', num(pr[1])), None)
            elif pr[0] == 'ss':
                v = self.r_load(st, cur)
                n = length(v)
                cur = ('val', sl(v, num(pr[1]), sub(n, num(pr[2])) if pr[3] else num(pr[2])), self.r_ty(cur))
            else: raise Unsupported('place projection %r' % (pr,))
        return cur
    def varof(self, cur, var):
        return var
    def r_ty(self, r):
        if r[0] == 'lv': return r[3]
        if r[0] == 'val': return r[2]
        return self.r_ty(r[2])
    def r_len(self, st, cur): return length(self.r_load(st, cur))
    def elem_ty(self, tyid):
        if tyid is None: return None
        t = self.ty(tyid)
        e = t.get('e')
        return e if isinstance(e, int) else None
    def r_step(self, r, step, tyid):
        if r[0] == 'lv':
            if step[0] == 'f':
                t = self.ty(r[3]) if r[3] is not None else None
                v = step[1]
                if t is not None and t['k'] == 'adt' and self.ident(t['n']): return ('lv', r[1], r[2], tyid)
                if v is None and t is not None and t['k'] == 'adt' and t['ak'] == 'enum': v = 0
                s = ('f', v, step[2], r[3])
            else: s = step; tyid = self.elem_ty(r[3])
            return ('lv', r[1], r[2] + (s,), tyid)
        if r[0] == 'val':
            if step[0] == 'f':
                t = self.ty(r[2]) if r[2] is not None else None
                if t is not None and t['k'] == 'adt' and self.ident(t['n']): return ('val', r[1], tyid)
                v = fld(r[1], step[1], step[2])
            else: v = self.index(r[1], step[1]); tyid = self.elem_ty(r[2])
            if tyid is not None: self.note_sort(v, tyid)
            return ('val', v, tyid)
        return ('ite', r[1], self.r_step(r[2], step, tyid), self.r_step(r[3], step, tyid))
    def r_deref(self, st, r):
        if r[0] == 'ite': return ('ite', r[1], self.r_deref(st, r[2]), self.r_deref(st, r[3]))
        tyid = self.r_ty(r)
        v = self.r_load(st, r)
        to = self.step_ty(tyid, 'd') if tyid is not None else None
        return self.v_deref(st, v, tyid, to)
    def v_deref(self, st, v, tyid, to):
        if v.op == 'ptr': return ('lv', v.a[0], v.a[1], v.a[2] if v.a[2] is not None else to)
        if v.op == 'ite':
            d = st.env.decide(v.a[0]) if v.a[0].op in ATOMS else None
            if d is not None: return self.v_deref(st, v.a[1] if d else v.a[2], tyid, to)
            a = self.v_deref(st, v.a[1], tyid, to); b = self.v_deref(st, v.a[2], tyid, to)
            if a[0] == 'val' and b[0] == 'val': return ('val', v, to)
            return ('ite', v.a[0], a, b)
        t = self.ty(tyid) if tyid is not None else None
        if t is not None and (t['k'] in ('ref', 'ptr') and t.get('m')) and v.op in ('fld', 'sym', 'app', 'elem'):
            return ('lv', ('opq', v), (), to)
        return ('val', v, to)
    def r_load(self, st, r):
        if r[0] == 'val': return r[1]
        if r[0] == 'ite': return ite(r[1], self.r_load(st, r[2]), self.r_load(st, r[3]))
        v = self.get_cell(st, r[1])
        for s in r[2]:
            v = self.read(v, s)
        if r[3] is not None: self.note_sort(v, r[3])
        return v
    def r_store(self, st, r, new, cond=None):
        if r[0] == 'val':
            if r[1] is UNREACH: return
            raise Unsupported('store through a shared reference')
        if r[0] == 'ite':
            self.r_store(st, r[2], new, self.andc(cond, r[1]))
            self.r_store(st, r[3], new, self.andc(cond, ite(r[1], ZERO, ONE)))
            return
        old = self.get_cell(st, r[1])
        val = new
        if cond is not None: val = ite(cond, new, self.r_load(st, r))
        st.store[r[1]] = self.update(old, r[2], val) if r[2] else val
    @staticmethod
    def andc(a, b): return b if a is None else ite(a, b, ZERO)

    def ref(self, st, r, mut):
        """value of &place / &mut place"""
        if r[0] == 'ite': return ite(r[1], self.ref(st, r[2], mut), self.ref(st, r[3], mut))
        if r[0] == 'val': return r[1]
        if mut or (r[3] is not None and self.is_cellty(r[3])): return mk('ptr', r[1], r[2], r[3])
        return self.r_load(st, r)
    def is_cellty(self, tyid):
        t = self.ty(tyid)
        return t['k'] == 'adt' and t['n'] in CELL_TYPES

    # ptr helpers for models
    def deref(self, st, v):
        """value behind a (possibly mutable) reference value"""
        if v.op == 'ptr': return self.load_path(self.get_cell(st, v.a[0]), v.a[1])
        if v.op == 'ite': return ite(v.a[0], self.deref(st, v.a[1]), self.deref(st, v.a[2]))
        c = ('opq', v)
        if c in st.store: return st.store[c]
        return v
    def deep(self, st, v):
        n = 0
        while v.op == 'ptr' and n < 10:
            v = self.deref(st, v); n += 1
        return v
    def assign(self, st, p, new, cond=None):
        if p.op == 'ptr': self.r_store(st, ('lv', p.a[0], p.a[1], p.a[2]), new, cond)
        elif p.op == 'ite':
            self.assign(st, p.a[1], new, self.andc(cond, p.a[0])); self.assign(st, p.a[2], new, self.andc(cond, ite(p.a[0], ZERO, ONE)))
        elif p is UNREACH: pass
        else:
            c = ('opq', p)
            old = self.get_cell(st, c)
            st.store[c] = new if cond is None else ite(cond, new, old)
    def newcell(self, st, v, tyid=None):
        self.fresh += 1
        c = ('tmp', self.fresh)
        st.store[c] = v
        return mk('ptr', c, (), tyid)

    # ------------------------------------------------------------ operands / rvalues
    def const(self, tyid, c, name=None):
        k = c[0]
        t = self.ty(tyid)
        if k == 'int':
            n = int(c[1])
            return num(n)
        if k == 'str': return st(c[1])
        if k == 'bytes': return st(bytes.fromhex(c[1]))
        if k == 'arr':
            e = t.get('e')
            if t['k'] in ('ref', 'ptr'): e = self.ty(t['to']).get('e')
            return mk('arr', tuple(self.const(e, x) for x in c[1]))
        if k == 'ref': return self.const(t['to'] if t['k'] in ('ref', 'ptr') else tyid, c[1])
        if k == 'adt':
            if t['k'] == 'tuple': return mk('tup', tuple(self.const(e, x) for e, x in zip(t['e'], c[2])))
            if t['k'] == 'adt':
                fs = [self.const(f[1], x) for f, x in zip(t['v'][c[1]]['f'], c[2])]
                return self.mkadt(tyid, c[1], fs)
            return mk('tup', tuple())
        if k == 'fn': return mk('fn', c[1]['i'] if c[1]['i'] is not None else -1, c[1]['p'])
        if k == 'fnptr': return mk('fn', c[1], self.p.insts[c[1]]['path'])
        if k == 'static': return mk('ptr', ('static', c[1]), (), None)
        if k == 'zst':
            if t['k'] == 'closure': return mk('clo', t['s'], ())
            if t['k'] == 'tuple': return UNIT
            if t['k'] == 'adt' and t['v']: return self.mkadt(tyid, 0, [])
            return mk('tup', ())
        if t['k'] == 'tuple' and not t['e']: return UNIT
        return sym('const:' + (name or t['s']))
    def mkadt(self, tyid, var, fs):
        t = self.ty(tyid)
        n = t['n']
        if n not in NVAR and t['ak'] == 'enum': NVAR[n] = len(t['v'])
        elif n not in NVAR: NVAR[n] = 1
        VNAMES.setdefault((n, var), t['v'][var]['n'] if var < len(t['v']) else n)
        if n == 'std::borrow::Cow' and not self.keep_cow: return fs[0]
        if n == 'std::borrow::Cow': return mk('cow', var, fs[0])
        if n in IDENT_ADT and fs: return fs[0]
        if n == 'std::time::Duration' and len(fs) == 2:
            ns = fs[1].a[2][0] if fs[1].op == 'adt' and fs[1].a[2] else fs[1]
            return add(mul(fs[0], num(10**9)), ns)
        h = self.models.mkadt.get(n)
        if h: return h(self, t, var, fs)
        return adt(n, var, fs)
    def operand(self, fr, st, o):
        if o[0] in ('c', 'm'):
            return self.r_load(st, self.resolve(fr, st, o[1]))
        if o[0] == 'k':
            return self.const(o[1], o[2], o[3] if len(o) > 3 else None)
        if o[0] == 'rc': return ONE if self.opts.get('checks', True) else ZERO
        raise Unsupported('operand %r' % (o,))
    def op_ty(self, fr, o):
        if o[0] in ('c', 'm'): return self.place_ty(fr.body, o[1])
        if o[0] == 'k': return o[1]
        return None
    def rvalue(self, fr, st, r, dty):
        k = r[0]
        if k == 'use': return self.operand(fr, st, r[1])
        if k in ('ref', 'rawptr'):
            return self.ref(st, self.resolve(fr, st, r[2]), r[1])
        if k == 'agg':
            fs = [self.operand(fr, st, o) for o in r[4]]
            if any(f is UNREACH for f in fs) and r[1] != 'coroutine': pass
            if r[1] == 'tuple': return mk('tup', tuple(fs))
            if r[1] == 'array': 
                if self.ty(r[2])['k'] == 'uint' and self.ty(r[2])['n'] == 'u8' and all(f.op == 'int' for f in fs): return st_bytes(fs)
                return mk('arr', tuple(fs))
            if r[1] == 'adt': return self.mkadt(r[2], r[3], fs)
            if r[1] == 'closure': return mk('clo', self.ty(r[2])['s'], tuple(fs))
            if r[1] == 'coroutine': return mk('cor', r[2], 0, tuple(fs), ())
            if r[1] == 'rawptr': return fs[0]
            if r[1] == 'union': return fs[0]
        if k == 'discr': return self.discr_of(st, self.resolve(fr, st, r[1]))
        if k == 'bin': return self.binop(fr, st, r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), self.op_ty(fr, r[2]), dty)
        if k == 'un':
            x = self.operand(fr, st, r[2])
            if r[1] == 'Not':
                ty = self.ty(self.op_ty(fr, r[2]))
                if ty['k'] == 'bool': return ite(truth(x), ZERO, ONE)
                if ty['k'] == 'uint' and x.op == 'int': return num(RANGE[ty['n']][1] - x.a[0])
                return app('bitnot', x)
            if r[1] == 'Neg': return neg(x)
            if r[1] == 'PtrMetadata': return length(self.deep(st, x))
            return app('un:' + r[1], x)
        if k == 'cast': return self.cast(fr, st, r[1], self.operand(fr, st, r[2]), self.op_ty(fr, r[2]), r[3])
        if k == 'repeat':
            x = self.operand(fr, st, r[1])
            n = int(r[2]) if r[2] is not None else None
            if n is not None and n <= 256:
                if x.op == 'int' and dty is not None:
                    e = self.elem_ty(dty)
                    if e is not None and self.ty(e).get('n') == 'u8': return TM.st(bytes([x.a[0]]) * n)
                return mk('arr', (x,) * n)
            return app('repeat', x, num(n or 0))
        return sym('rvalue:' + str(r[:2]))
    def discr_of(self, st, r):
        tyid = self.r_ty(r)
        v = self.r_load(st, r)
        t = self.ty(tyid) if tyid is not None else None
        if t is not None and t['k'] == 'coroutine':
            if v.op == 'cor': return num(v.a[1])
            return app('state', v)
        if t is None or t['k'] != 'adt' or t['ak'] != 'enum': return discr(v, 1 << 30)
        n = t['n']
        NVAR.setdefault(n, len(t['v']))
        for i, x in enumerate(t['v']): VNAMES.setdefault((n, i), x['n'])
        if n == 'std::borrow::Cow':
            return self.models.cow_discr(self, v)
        ds = [self.dval(x['d']) for x in t['v']]
        d = discr(v, len(ds))
        if ds == list(range(len(ds))): return d
        return self.mapd(d, ds, v)
    def mapd(self, d, ds, v):
        if d.op == 'ite': return ite(d.a[0], self.mapd(d.a[1], ds, v), self.mapd(d.a[2], ds, v))
        if d.op == 'int': return num(ds[d.a[0]])
        if d.op in ('unreach', 'skip'): return d
        r = num(ds[-1])
        x = d.a[0]
        for i in range(len(ds) - 2, -1, -1): r = ite(is_(x, i, len(ds)), num(ds[i]), r)
        return r
    @staticmethod
    def dval(d):
        d = int(d)
        return d - (1 << 128) if d >= 1 << 127 else d
    def sort_of(self, tyid):
        if tyid is None: return None
        t = self.ty(tyid)
        if t['k'] in ('int', 'uint'): return t['n']
        if t['k'] in ('bool', 'char'): return t['k']
        return None
    def fits(self, st, v, sort):
        """condition: v is representable in sort"""
        if sort not in RANGE: return ONE
        lo, hi = RANGE[sort]
        c = ite(le(v, num(hi)), le(num(lo), v), ZERO)
        return truth(restrict(c, st.env))
    def binop(self, fr, st, op, a, b, aty, dty):
        if a is UNREACH or b is UNREACH: return UNREACH
        s = self.sort_of(aty)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            v = {'A': add, 'S': sub, 'M': mul}[op[0]](a, b)
            return mk('tup', (v, ite(self.fits(st, v, s), ZERO, ONE)))
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            v = {'A': add, 'S': sub, 'M': mul}[op[0]](a, b)
            if op.endswith('Unchecked'): return v
            c = self.fits(st, v, s)
            if c is ONE: return v
            if v.op == 'int' and s in RANGE:
                lo, hi = RANGE[s]; return num((v.a[0] - lo) % (hi - lo + 1) + lo)
            r = app('wrap:' + str(s), v); self.note(r, s)
            return ite(c, v, r)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            a, b = self.deep(st, a), self.deep(st, b)
            if op == 'Eq': return self.equal(a, b, aty)
            if op == 'Ne': return ite(truth(self.equal(a, b, aty)), ZERO, ONE)
            if op == 'Lt': return lt(a, b)
            if op == 'Le': return le(a, b)
            if op == 'Gt': return lt(b, a)
            return le(b, a)
        if op == 'Cmp':
            O = 'std::cmp::Ordering'
            return ite(truth(lt(a, b)), adt(O, 0, ()), ite(truth(ieq(a, b)), adt(O, 1, ()), adt(O, 2, ())))
        if s == 'bool':
            a, b = truth(a), truth(b)
            if op == 'BitAnd': return ite(a, b, ZERO)
            if op == 'BitOr': return ite(a, ONE, b)
            if op == 'BitXor': return ite(a, ite(b, ZERO, ONE), b)
        def f(x, y):
            if x.op == 'int' and y.op == 'int':
                X, Y = x.a[0], y.a[0]
                try:
                    if op == 'BitAnd': return num(X & Y)
                    if op == 'BitOr': return num(X | Y)
                    if op == 'BitXor': return num(X ^ Y)
                    lo, hi = RANGE.get(s, (0, 2**64 - 1))
                    if op in ('Shl', 'ShlUnchecked'): return num((X << Y) & hi) if lo == 0 else num(X << Y)
                    if op in ('Shr', 'ShrUnchecked'): return num(X >> Y)
                    if op == 'Div': return num(abs(X) // abs(Y) * (1 if (X < 0) == (Y < 0) else -1)) if Y else UNREACH
                    if op == 'Rem': return num(abs(X) % abs(Y) * (1 if X >= 0 else -1)) if Y else UNREACH
                except Exception: pass
            if op == 'Offset':
                if x.op == 'ptr': raise Unsupported('pointer arithmetic')
                return add(x, y)
            if op == 'BitAnd':
                for u, w in ((x, y), (y, x)):
                    if w.op == 'int' and w.a[0] >= 0 and w.a[0] & (w.a[0] + 1) == 0:
                        lo, hi = TM.bounds(u)
                        if lo is not None and hi is not None and lo >= 0 and hi <= w.a[0]: return u
            r = rawapp('op:' + op, x, y); self.note(r, s)
            return r
        return lift(f, (a, b))
    def note(self, r, s):
        if s and r.op in ('app', 'fld'): SORT.setdefault(r, s)
    def equal(self, a, b, tyid):
        if tyid is not None:
            k = self.ty(tyid)['k']
            if k in ('int', 'uint', 'char', 'bool'): return ieq(a, b)
        if a.op in ('int', 'lin') or b.op in ('int', 'lin'): return ieq(a, b)
        return eq(a, b)
    def cast(self, fr, st, kind, v, sty, dty):
        if v is UNREACH: return v
        if kind == 'IntToInt':
            s = self.sort_of(dty)
            if v.op == 'int':
                lo, hi = RANGE.get(s, (0, 2**64 - 1)); return num((v.a[0] - lo) % (hi - lo + 1) + lo)
            src = self.sort_of(sty)
            if src == 'bool' or (src is None and v.op in ATOMS): return v
            if src is None and sty is not None:   # enum as int
                return v
            if src in RANGE and s in RANGE and RANGE[s][0] <= RANGE[src][0] and RANGE[s][1] >= RANGE[src][1]: return v
            c = self.fits(st, v, s)
            if c is ONE: return v
            if s == 'u32' and src == 'usize' and self.opts.get('small_text'): return v   # premise: text below 4 GiB
            r = app('cast:' + str(s), v); self.note(r, s)
            return ite(c, v, r)
        if kind in ('Transmute',):
            return self.models.transmute(self, st, v, sty, dty)
        if kind.startswith('coerce') or kind in ('PtrToPtr', 'FnPtrToPtr', 'Subtype'):
            if kind == 'coerce:ReifyFnPointer(Safe)' and v.op == 'tup':
                pass
            return v
        if kind == 'PointerExposeProvenance': return app('addr', v)
        return app('cast:' + kind, v)

    # ------------------------------------------------------------ control flow
    def run_root(self, inst, args, st=None):
        st = st or State({}, EMPTYENV)
        return self.call_inst(inst, args, st)
    def call_inst(self, n, args, st):
        """returns (value, state) or (None, None) if it never returns"""
        body = self.p.body(n)
        if body is None: raise Unsupported('no body: ' + self.p.insts[n]['path'])
        if self.depth > self.max_depth: raise Unsupported('inlining too deep at ' + self.p.insts[n]['path'])
        if sum(1 for f in self.stack if f.inst == n) > 6: raise Unsupported('recursion in ' + self.p.insts[n]['path'])
        self.ncalls += 1
        self.depth += 1
        fr = Frame(n, body)
        self.stack.append(fr)
        self.visited.setdefault(n, set())
        try:
            if body.spread is not None and len(args) > 0:
                # the spread argument is a tuple local holding the rest
                k = body.spread
                fixed = args[:k - 1]; rest = args[k - 1:]
                if len(args) != body.argc: args = list(fixed) + [mk('tup', tuple(rest))]
            if len(args) != body.argc:
                raise Unsupported('argument count for ' + self.p.insts[n]['path'])
            for i, a in enumerate(args): st.store[(fr.id, i + 1)] = a
            cut = self.cut_edges(fr, st)
            cfg = body.cfg(cut)
            out = self.exec(fr, cfg, 0, st, -1)
            if out is None: return None, None
            ret = self.get_cell(out, (fr.id, 0))
            for i in range(len(body.locals)): out.store.pop((fr.id, i), None)
            return ret, out
        finally:
            self.depth -= 1; self.stack.pop()
    def cut_edges(self, fr, st):
        """for a coroutine body entered in a known state, the other resume edges are infeasible"""
        b0 = fr.body.blocks[0]
        if b0['t'][0] == 'switch' and len(self.stack) and 'coroutine' in self.cor_hint(fr):
            # determine the state concretely
            t = b0['t']
            tmp = st.copy()
            try:
                for s in b0['s']: self.stmt(fr, tmp, s)
                v = self.operand(fr, tmp, t[1])
            except Unsupported: return frozenset()
            if v.op == 'int':
                keep = None
                for val, blk in t[3]:
                    if int(val) == v.a[0]: keep = blk
                if keep is None: keep = t[4]
                return frozenset((0, x) for x in [y[1] for y in t[3]] + [t[4]] if x != keep)
        return frozenset()
    def cor_hint(self, fr):
        ty = self.ty(fr.body.locals[1]) if fr.body.argc >= 1 else {'s': ''}
        return self.ty(self.peel(fr.body.locals[1]))['k'] if fr.body.argc >= 1 else ''

    def exec(self, fr, cfg, b, st, stop):
        deep = []
        try: return self.exec_(fr, cfg, b, st, stop, deep)
        finally:
            for c in deep: c.deep -= 1
    def exec_(self, fr, cfg, b, st, stop, deep):
        """run from block b until block stop (-1: function return); returns merged state or None"""
        while True:
            if b == stop: return st
            if b in cfg.loops and b not in fr.active:
                r = self.run_loop(fr, cfg, b, st, stop)
                if r is None: return None
                b, st = r
                continue
            elif b in fr.active:
                ctx = fr.active[b]
                ctx.count += 1
                if ctx.count > self.opts.get('unroll', 400): raise Summarise(ctx)
                ctx.deep += 1; deep.append(ctx)
                if ctx.sym and ctx.deep > self.opts.get('cutloop', 1 << 30): return None
            self.visited[fr.inst].add(b)
            blk = fr.body.blocks[b]
            for s in blk['s']: self.stmt(fr, st, s)
            t = blk['t']; k = t[0]
            self.site = (fr, b)
            if k == 'goto': b = t[1]
            elif k == 'return':
                return st if stop == -1 else self.lost(fr, b, stop)
            elif k == 'unreachable': return None
            elif k == 'drop':
                self.models.drop(self, st, self.resolve(fr, st, t[1]) if self.opts.get('drops') else None, t[2])
                b = t[3]
            elif k == 'assert':
                st = self.do_assert(fr, st, t, b)
                if st is None: return None
                b = t[4]
            elif k == 'call':
                v, st2 = self.do_call(fr, st, t, b)
                if st2 is None: return None
                st = st2
                if t[4] is None: return None
                self.r_store(st, self.resolve(fr, st, t[3]), v)
                b = t[4]
            elif k == 'switch':
                arms = self.arms(fr, st, t)
                if not arms: return None
                if len(arms) == 1:
                    b = arms[0][1]
                    if arms[0][0] is not ONE:
                        e = assume(st.env, arms[0][0], True)
                        if e is None: return None
                        st.env = e
                    continue
                for h, L in self.loops_of(cfg, fr):
                    if b in L and any(x[1] not in L for x in arms):
                        ctx = fr.active.get(h)
                        if ctx is not None and ctx.mode == 'unroll':
                            ctx.sym += 1
                            if ctx.sym > self.opts.get('symexit', 6): raise Summarise(ctx)
                ip = cfg.ipdom.get(b, -1)
                env0 = st.env
                outs = []
                prev = env0
                g0 = self.guards
                for c, target in arms:
                    s2 = st.copy(); s2.env = assume(prev, c, True)
                    o = None
                    if s2.env is not None:
                        g = self.guards
                        self.guards = g + [(c, True)]
                        o = self.exec(fr, cfg, target, s2, ip)
                        self.guards = g + [(c, False)]
                    outs.append((c, o))
                    prev = assume(prev, c, False) or prev
                self.guards = g0
                m = self.merge_arms(fr, outs, env0)
                if m is None: return None
                st = m; b = ip
                if ip == stop: return st
                if ip == -1: return st if stop == -1 else self.lost(fr, b, stop)
            else:
                raise Unsupported('terminator ' + k)
    def lost(self, fr, b, stop): raise Unsupported('control reached the exit of %s before its join point' % self.p.insts[fr.inst]['path'])
    def loops_of(self, cfg, fr):
        return [(h, cfg.loops[h]) for h in fr.active if h in cfg.loops]
    def arms(self, fr, st, t):
        """feasible (condition, target) pairs of a switch, conditions relative to the previous ones failing"""
        v = self.operand(fr, st, t[1])
        v = restrict(v, st.env)
        if v is UNREACH: return []
        sort = self.sort_of(t[2])
        if sort == 'bool' and v.op != 'int': v = truth(v)
        groups = {}
        order = []
        for val, blk in t[3]:
            n = int(val)
            if sort in RANGE and n > RANGE[sort][1]: n -= 1 << {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}.get(sort, 128)
            c = restrict(truth(ieq(v, num(n))), st.env)
            if c is ZERO or c is UNREACH: continue
            if blk not in groups: groups[blk] = c; order.append(blk)
            else: groups[blk] = ite(groups[blk], ONE, c)
        arms = []
        rest = ONE
        env = st.env
        if len(order) and all(g.op != 'int' for g in groups.values()) and v.op == 'app' and len(order) > 40: pass
        other = t[4]
        for blk in order:
            c = groups[blk]
            if c is ONE: return arms + [(ONE, blk)]
            if blk == other: continue
            arms.append((c, blk))
        ob = fr.body.blocks[other]
        dead = ob['t'][0] == 'unreachable' and not ob['s']
        if not dead:
            e = env
            for c, _ in arms:
                e = assume(e, c, False)
                if e is None: break
            if e is not None: arms.append((ONE, other))
        elif arms:
            arms[-1] = (ONE, arms[-1][1])
        # drop arms made infeasible by the facts
        if len(arms) == 1: return arms
        out = []
        e = env
        for c, blk in arms:
            if e is None: break
            if c is not ONE and assume(e, c, True) is None:
                continue
            out.append((c, blk))
            if c is not ONE: 
                e2 = assume(e, c, False)
                if e2 is None: out[-1] = (ONE, blk); e = None
                else: e = e2
        return out
    def merge_arms(self, fr, outs, env0):
        acc = None
        for c, s in reversed(outs):
            if acc is None:
                acc = s
                if acc is not None: acc = State(acc.store, env0)
                lastc = c
                continue
            if s is None: continue
            acc = self.merge(c, s, acc, env0)
        return acc
    def merge(self, c, a, b, env):
        store = {}
        sa, sb = a.store, b.store
        for k, x in sa.items():
            y = sb.get(k)
            if y is None:
                if k[0] in ('opq', 'static', 'trace'): y = self.get_cell(b, k)
                else:
                    store[k] = x; continue
            store[k] = x if x is y else self.gate(c, x, y)
        for k, y in sb.items():
            if k not in sa:
                if k[0] in ('opq', 'static', 'trace'): store[k] = self.gate(c, self.get_cell(a, k), y)
                else: store[k] = y
        return State(store, env)
    def gate(self, c, x, y):
        if x is y: return x
        # merge inside equal constructors so that unrelated fields stay ungated
        if x.op == y.op:
            if x.op == 'adt' and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a[2]) == len(y.a[2]):
                return adt(x.a[0], x.a[1], [self.gate(c, p, q) for p, q in zip(x.a[2], y.a[2])])
            if x.op == 'tup' and len(x.a[0]) == len(y.a[0]):
                return mk('tup', tuple(self.gate(c, p, q) for p, q in zip(x.a[0], y.a[0])))
            if x.op == 'cor' and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a[2]) == len(y.a[2]):
                dx, dy = dict(x.a[3]), dict(y.a[3])
                ks = sorted(set(dx) | set(dy))
                return mk('cor', x.a[0], x.a[1], tuple(self.gate(c, p, q) for p, q in zip(x.a[2], y.a[2])),
                          tuple((k, self.gate(c, dx.get(k, UNREACH), dy.get(k, UNREACH))) for k in ks))
            if x.op == 'clo' and x.a[0] == y.a[0]:
                return mk('clo', x.a[0], tuple(self.gate(c, p, q) for p, q in zip(x.a[1], y.a[1])))
        return ite(c, x, y)

    # ------------------------------------------------------------ loops
    def exit_of(self, cfg, h, L, stop):
        p = cfg.ipdom.get(h, -1)
        while p in L and p != stop:
            n = cfg.ipdom.get(p, -1)
            if n == p: break
            p = n
        return p
    def run_loop(self, fr, cfg, h, st, stop):
        L = cfg.loops[h]
        P = self.exit_of(cfg, h, L, stop)
        saved = st.copy()
        nob = len(self.oblig)
        ctx = LoopCtx('unroll', saved.store, (fr.id, h))
        fr.active[h] = ctx; self.loops.append(ctx)
        keep = dict(fr.active); nl = len(self.loops); ns = len(self.stack); d = self.depth
        try:
            out = self.exec(fr, cfg, h, st, P) if not self.opts.get('nounroll') else self._raise(ctx)
            self.loops.pop(); del fr.active[h]
            return None if out is None else (P, out)
        except Summarise as e:
            if e.ctx is not ctx:
                raise
            del self.loops[nl - 1:]; del self.stack[ns:]; self.depth = d
            fr.active = {k: v for k, v in keep.items() if k != h}
            del self.oblig[nob:]
        return self.split_loop(fr, cfg, h, L, P, saved, stop)
    def split_loop(self, fr, cfg, h, L, P, saved, stop, depth=0):
        """a loop over one of two streams is summarised once for each"""
        keep = dict(fr.active); nl = len(self.loops); ns = len(self.stack); d = self.depth; nob = len(self.oblig)
        st = saved.copy() if depth < 4 else saved
        try: return self.summarise_mir(fr, cfg, h, L, P, st, stop)
        except SplitLoop as e:
            if e.where != (fr.id, h) or depth >= 4: raise
            del self.loops[nl:]; del self.stack[ns:]; self.depth = d; del self.oblig[nob:]
            fr.active = dict(keep)
            outs = []
            for k, sign in ((e.cond, True), (ONE, False)):
                env = assume(saved.env, e.cond, sign)
                if env is None: continue
                s = saved.copy(); s.env = env
                r = self.split_loop(fr, cfg, h, L, P, s, stop, depth + 1)
                if r is not None: outs.append((k, r[1]))
            if not outs: return None
            return P, self.merge_arms(fr, outs, saved.env)
    def _raise(self, ctx): raise Summarise(ctx)

    def region(self, cfg, h, L):
        r = getattr(cfg, '_regions', None)
        if r is None: r = cfg._regions = {}
        if h not in r:
            EXIT = -1
            c = object.__new__(Cfg)
            succ = {EXIT: []}
            for b in L:
                ss = []
                for s in cfg.succ.get(b, ()):
                    x = s if (s in L and s != h) else EXIT
                    if x not in ss: ss.append(x)
                succ[b] = ss
            pred = {b: [] for b in succ}
            for b, ss in succ.items():
                for s in ss: pred[s].append(b)
            c.succ, c.pred, c.full, c.live = succ, pred, succ, set(succ)
            c.ipdom = Cfg._idom(EXIT, pred, succ); c.idom = Cfg._idom(h, succ, pred)
            c.loops = {}
            for b in succ:
                for s in succ[b]:
                    if s != EXIT and c.dominates(s, b): c.loops.setdefault(s, set()).update(c._loop(s, b))
            r[h] = c
        return r[h]
    def outcomes(self, fr, cfg, rcfg, h, L, b, st, cond, first=True):
        """explore one iteration; list of (cond, target or 'back', state)"""
        res = []
        while True:
            if b == h and not first: return res + [(cond, 'back', st)]
            if b not in L: return res + [(cond, b, st)]
            first = False
            if b in rcfg.loops and b not in fr.active:
                r = self.run_loop(fr, rcfg, b, st, -1)
                if r is None: return res
                b, st = r
                if b == -1: raise Unsupported('inner loop leaves the outer loop')
                continue
            self.visited[fr.inst].add(b)
            blk = fr.body.blocks[b]
            for s in blk['s']: self.stmt(fr, st, s)
            t = blk['t']; k = t[0]
            self.site = (fr, b)
            if k == 'goto': b = t[1]
            elif k == 'drop': b = t[3]
            elif k == 'return': return res + [(cond, -1, st)]
            elif k == 'unreachable': return res
            elif k == 'assert':
                st = self.do_assert(fr, st, t, b)
                if st is None: return res
                b = t[4]
            elif k == 'call':
                v, st2 = self.do_call(fr, st, t, b)
                if st2 is None or t[4] is None: return res
                st = st2
                self.r_store(st, self.resolve(fr, st, t[3]), v)
                b = t[4]
            elif k == 'switch':
                v = restrict(self.operand(fr, st, t[1]), st.env)
                sk = self.skipcond(v)
                if sk is not ZERO:
                    if sk is ONE: return res + [(cond, 'back', st)]
                    e = assume(st.env, sk, True)
                    if e is not None:
                        s2 = st.copy(); s2.env = e
                        res.append((ite(cond, sk, ZERO), 'back', s2))
                    st.env = assume(st.env, sk, False) or st.env
                    cond = ite(cond, ite(sk, ZERO, ONE), ZERO)
                arms = self.arms(fr, st, t)
                if not arms: return res
                if len(arms) == 1:
                    if arms[0][0] is not ONE: st.env = assume(st.env, arms[0][0], True)
                    b = arms[0][1]; continue
                ip = rcfg.ipdom.get(b, -1)
                prev = st.env
                if ip != -1:
                    outs = []
                    env0 = st.env
                    for c, target in arms:
                        s2 = st.copy(); s2.env = assume(prev, c, True)
                        o = self.exec(fr, rcfg, target, s2, ip) if s2.env is not None else None
                        outs.append((c, o)); prev = assume(prev, c, False) or prev
                    m = self.merge_arms(fr, outs, env0)
                    if m is None: return res
                    st = m; b = ip; continue
                rest = cond
                for c, target in arms:
                    s2 = st.copy(); s2.env = assume(prev, c, True)
                    if s2.env is not None:
                        res += self.outcomes(fr, cfg, rcfg, h, L, target, s2, ite(rest, c, ZERO), False)
                    rest = ite(rest, ite(c, ZERO, ONE), ZERO)
                    prev = assume(prev, c, False) or prev
                return res
            else: raise Unsupported('terminator ' + k)
    def skipcond(self, v):
        if v is SKIP: return ONE
        if v.op == 'ite':
            a, b = self.skipcond(v.a[1]), self.skipcond(v.a[2])
            if a is b: return a
            return ite(v.a[0], a, b)
        return ZERO

    def summarise_mir(self, fr, cfg, h, L, P, st, stop):
        rcfg = self.region(cfg, h, L)
        key = (fr.id, h)
        def runner(s):
            fr.active[h] = ctx
            try: return self.outcomes(fr, cfg, rcfg, h, L, h, s, ONE)
            finally: del fr.active[h]
        ctx = LoopCtx('sum', st.store, key)
        local = set()
        results = self.summarise(ctx, st, runner, where='%s bb%d' % (self.p.insts[fr.inst]['path'], h))
        outs = []
        for c, target, s in results:
            if target != P:
                if target == -1 and P != -1: raise Unsupported('loop returns past its join point')
                s = self.exec(fr, cfg, target, s, P)
            outs.append((c, s))
        m = self.merge_arms(fr, [(c if i < len(outs) - 1 else ONE, s) for i, (c, s) in enumerate(outs)], st.env)
        if m is None: return None
        return (P, m)

    def leafdiff(self, a, b, path, out):
        if a is b: return
        if a.op == b.op:
            if a.op == 'adt' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
                for i, (x, y) in enumerate(zip(a.a[2], b.a[2])): self.leafdiff(x, y, path + (i,), out)
                return
            if a.op == 'tup' and len(a.a[0]) == len(b.a[0]):
                for i, (x, y) in enumerate(zip(a.a[0], b.a[0])): self.leafdiff(x, y, path + (i,), out)
                return
            if a.op == 'cor' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
                for i, (x, y) in enumerate(zip(a.a[2], b.a[2])): self.leafdiff(x, y, path + (('u', i),), out)
                dx, dy = dict(a.a[3]), dict(b.a[3])
                for k in sorted(set(dx) | set(dy)):
                    x, y = dx.get(k, UNREACH), dy.get(k, UNREACH)
                    if x is UNREACH or y is UNREACH: 
                        if x is UNREACH: continue      # created inside the iteration: dead at the header
                    self.leafdiff(x, y, path + (('s', k),), out)
                return
            if a.op == 'clo' and a.a[0] == b.a[0]:
                for i, (x, y) in enumerate(zip(a.a[1], b.a[1])): self.leafdiff(x, y, path + (i,), out)
                return
            if a.op == 'iter' and a.a[0] is b.a[0]: pass
        out.append(path)
    def leafget(self, v, path):
        for s in path:
            if isinstance(s, tuple):
                v = v.a[2][s[1]] if s[0] == 'u' else dict(v.a[3]).get(s[1], UNREACH)
            elif v.op == 'adt': v = v.a[2][s]
            elif v.op == 'tup': v = v.a[0][s]
            elif v.op == 'clo': v = v.a[1][s]
            else: return None
        return v
    def leafset(self, v, path, x):
        if not path: return x
        s = path[0]
        if isinstance(s, tuple):
            ty, stt, ups, saved = v.a
            if s[0] == 'u':
                ups = list(ups); ups[s[1]] = self.leafset(ups[s[1]], path[1:], x); return mk('cor', ty, stt, tuple(ups), saved)
            d = dict(saved); d[s[1]] = self.leafset(d[s[1]], path[1:], x)
            return mk('cor', ty, stt, ups, tuple(sorted(d.items(), key=lambda y: y[0])))
        if v.op == 'adt':
            fs = list(v.a[2]); fs[s] = self.leafset(fs[s], path[1:], x); return adt(v.a[0], v.a[1], fs)
        if v.op == 'tup':
            fs = list(v.a[0]); fs[s] = self.leafset(fs[s], path[1:], x); return mk('tup', tuple(fs))
        if v.op == 'clo':
            fs = list(v.a[1]); fs[s] = self.leafset(fs[s], path[1:], x); return mk('clo', v.a[0], tuple(fs))
        raise Unsupported('leafset')

    def overiter(self, x):
        while x.op == 'ite': x = x.a[1]
        return x.op == 'iter'
    def summarise(self, ctx, st, runner, where='', peel=True):
        """runner(state) -> [(cond, 'back' | exit target, state)] for one iteration.
        Returns [(cond, exit target, state)] describing the loop's exits, conditions in sequence."""
        base = st.copy()
        leaves = []       # (cell, path)
        self.fresh += 1
        lid = self.fresh
        nob = len(self.oblig)
        for _round in range(12):
            hdr = base.copy()
            lvs = {}
            for n, (cell, path) in enumerate(leaves):
                init = self.leafget(self.get_cell(base, cell), path)
                if init.op == 'ite' and self.overiter(init):
                    r = restrict(init, base.env)
                    if r.op == 'ite': raise SplitLoop(ctx.key, r.a[0])
                    base.store[cell] = self.leafset(self.get_cell(base, cell), path, r)
                    hdr.store[cell] = self.leafset(self.get_cell(hdr, cell), path, r)
                    init = r
                if init.op in ('iter', 'iterN') : continue
                s = sym('lv%d.%d' % (lid, n), SORT.get(init) or (init.a[1] if init.op == 'sym' else None) or ('str' if self.isstr(init) else None))
                lvs[(cell, path)] = s
                hdr.store[cell] = self.leafset(self.get_cell(hdr, cell), path, s)
            del self.oblig[nob:]
            self.loops.append(ctx)
            nl = len(self.loops)
            ctx.mode = 'sum'
            try: outs = runner(hdr.copy())
            finally: del self.loops[nl - 1:]
            new = []
            for c, tgt, s in outs:
                if tgt != 'back': continue
                for cell in list(base.store) + [k for k in s.store if k not in base.store and k[0] in ('opq', 'static', 'trace')]:
                    a = self.get_cell(hdr, cell); b = self.get_cell(s, cell)
                    if a is UNREACH: continue
                    if b is UNREACH: continue
                    d = []
                    self.leafdiff(a, b, (), d)
                    for path in d:
                        if (cell, path) not in leaves and (cell, path) not in new: new.append((cell, path))
            # drop leaves below a newly found coarser one
            if not new: break
            leaves = [l for l in leaves if not any(l[0] == n[0] and l[1][:len(n[1])] == n[1] for n in new)] + new
        else: raise Unsupported('loop variables do not stabilise at ' + where)
        back = [(c, s) for c, t, s in outs if t == 'back']
        exits = [(c, t, s) for c, t, s in outs if t != 'back']
        self.looplog.append(dict(where=where, base=base, hdr=hdr, leaves=leaves, lvs=lvs, back=back, exits=exits, lid=lid))
        if not back:
            return exits
        # the stream driving the loop
        stream = None
        for cell, path in leaves:
            init = self.leafget(self.get_cell(base, cell), path)
            if init is not None and init.op == 'iter':
                vals = {self.leafget(self.get_cell(s, cell), path) for c, s in back}
                if len(vals) == 1 and next(iter(vals)).op == 'iterN':
                    if stream is not None: raise Unsupported('two streams advance in one loop at ' + where)
                    stream = (cell, path, init, next(iter(vals)))
                else: raise Unsupported('iterator not advanced uniformly at ' + where)
        if stream is None:
            return self.generic_loop(ctx, base, hdr, leaves, lvs, back, exits, where, lid)
        cell, path, init, adv = stream
        S, lvl = adv.a
        e = mk('elem', S, lvl); more = mk('more', S, lvl)
        nxt = {}
        lvset = set(lvs.values())
        early = []; done = []
        for c, t, s in exits:
            cm = truth(restrict1(c, more, True)); cd = truth(restrict1(c, more, False))
            if cm is not ZERO: early.append((cm, t, s))
            if cd is not ZERO: done.append((cd, t, s))
        found = ZERO
        for c, t, s in early: found = ite(found, ONE, c)
        found = canon(found) if found.op != 'int' else found
        if lvset & free_syms(found):
            return self.generic_loop(ctx, base, hdr, leaves, lvs, back, exits, where, lid)
        final = {}
        SS = S
        fop = None
        if found is not ZERO:
            h, fc = bindcanon(S, lvl, found)
            fop = mk('sfindp', S, h, canon(fc))
        # value of each loop variable after a full iteration
        bk = None
        for c, s in reversed(back):
            cm = truth(restrict1(c, more, True))
            if cm is ZERO: continue
            bk = s if bk is None else self.merge(cm, s, bk, s.env)
        if bk is None: bk = back[0][1]
        retry = False
        deltas = {}
        for (cl, pt), lv in lvs.items():
            n = self.leafget(self.get_cell(bk, cl), pt)
            n = restrict1(n, more, True)
            if found is not ZERO:
                ee = assume(EMPTYENV, found, False)
                if ee is not None: n = restrict(n, ee)
            i0 = self.leafget(self.get_cell(base, cl), pt)
            d = self.delta(lv, n, i0)
            if d is not None and not (lvset & free_syms(d[1])):
                deltas[lv] = (d[0], d[1], i0)
                continue
            if not (lvset & free_syms(n)) and e not in fe(n) and n.op in ('int', 'adt', 'str'):
                # becomes constant after one iteration
                deltas[lv] = ('const', n, i0); continue
            deltas[lv] = ('fold', n, i0)
        def fin(lv, upto):
            k, d, i0 = deltas[lv]
            Sx = S if upto is None else rawapp('until', S, upto)
            if k in ('list', 'str', 'sum', 'trace'):
                if Sx is not S: d = subst(d, {e: copysort(e, mk('elem', Sx, lvl))})
                h, d = bindcanon(Sx, lvl, d)
            if k == 'list': return lst((i0, mk('many', Sx, h, d)))
            if k == 'str': return cat(i0, mk('many', Sx, h, d))
            if k == 'sum' and d.op == 'int':
                # a count of bytes: up to an ASCII byte, or of all of them
                if upto is not None:
                    bf = TM.bytefind(upto, False)
                    if bf is not None: return add(i0, mul(d, fld(TM.REAPP['sfind'](*bf), 1, 0)))
                elif S.op in ('slice', 'str', 'cat') or S.op == 'sym' and SORT.get(S) == 'str' or S.op == 'app' and S.a[0] == 'bytes':
                    return add(i0, mul(d, length(S.a[1][0] if S.op == 'app' else S)))
            if k == 'sum':
                return add(i0, rawapp('sum', lst((mk('many', Sx, h, lst((one(d),))),))))
            if k == 'trace':
                return mk('trmany', i0, Sx, h, d)
            if k == 'const': return ite(mk('pred', 'nonempty', (Sx,)), d, i0)
            # general fold: all mutually dependent variables
            vs = sorted(deltas, key=lambda x: x.id)
            m = {v: sym('acc%d' % j, SORT.get(v)) for j, v in enumerate(vs)}
            return mk('fold', Sx, lvl, tuple(subst(deltas[v][2], m) for v in vs), tuple(subst(deltas[v][1], m) if deltas[v][0] in ('fold', 'const') else self.redelta(m[v], deltas[v]) for v in vs), vs.index(lv))
        res = []
        def finish(s, m, env):
            memo = {}
            ns = {}
            for k, v in s.store.items(): ns[k] = subst(v, m, memo)
            return State(ns, env)
        if fop is not None:
            pay = fld(fop, 1, 0)
            isf = is_(fop, 1, 2)
            m = {e: pay, more: ONE}
            for lv in lvs.values():
                m[lv] = fin(lv, fop)
            rest = isf
            for c, t, s in early:
                c2 = truth(subst(c, m))
                s2 = finish(s, m, st.env)
                s2.store[cell] = self.leafset(s2.store[cell], path, mk('iter', rawapp('after', S, fop), 0))
                res.append((ite(isf, c2, ZERO), t, s2))
            # last early arm is implied by found
            if res: res[-1] = (isf, res[-1][1], res[-1][2])
        m = {more: ZERO}
        for lv in lvs.values(): m[lv] = fin(lv, None)
        for c, t, s in done:
            c2 = truth(subst(c, m))
            res.append((c2, t, finish(s, m, st.env)))
        if not done and not res: return []
        return res
    def redelta(self, acc, d):
        k, x, i0 = d
        if k == 'list': return lst((acc, x))
        if k == 'str': return cat(acc, x)
        if k == 'sum': return add(acc, x)
        return x
    def delta(self, lv, n, i0):
        """n as lv extended at its end: ('list'|'str'|'sum'|'trace', extension)"""
        if n is lv: return ('list', NIL) if i0.op == 'list' else (('str', EMPTY) if self.isstr(i0) else ('sum', ZERO))
        k, d = self._delta(lv, n)
        if k is None: return None
        return (k, d)
    def _delta(self, lv, n):
        if n.op == 'ite':
            if lv in free_syms(n.a[0]): return None, None
            ka, a = self._delta(lv, n.a[1]); kb, b = self._delta(lv, n.a[2])
            if ka is None or kb is None: return None, None
            if ka == 'id' and kb == 'id': return 'id', None
            k = kb if ka == 'id' else ka
            if 'id' not in (ka, kb) and ka != kb: return None, None
            z = {'list': NIL, 'str': EMPTY, 'sum': ZERO}.get(k)
            if z is None: return None, None
            return k, ite(n.a[0], z if ka == 'id' else a, z if kb == 'id' else b)
        if n is lv: return 'id', None
        if n.op == 'list' and n.a[0] and n.a[0][0].op == 'sub' and n.a[0][0].a[0] is lv: return 'list', lst(n.a[0][1:])
        if n.op == 'cat' and n.a[0] and n.a[0][0] is lv: return 'str', cat(*n.a[0][1:])
        if n.op == 'lin' and (1, lv) in n.a[1]: return 'sum', sub(n, lv)
        if n.op == 'tr':
            ev = []
            x = n
            while x.op == 'tr' and x is not lv: ev.append((x.a[1], x.a[2])); x = x.a[0]
            if x is lv:
                r = TR0
                for nm, ar in reversed(ev): r = mk('tr', r, nm, ar)
                return 'trace', r
        return None, None
    def byte_scan(self, base, lvs, back, exits):
        """`while i < text.len() && text[i] != c { i += 1 }`: i ends at the first c, or at the end of the text"""
        if not lvs or not back or not exits: return None
        stay = ZERO
        for c, s in back: stay = ite(stay, ONE, c)
        ats = set()
        def walk(t):
            if t.op == 'ite': walk(t.a[0]); walk(t.a[1]); walk(t.a[2])
            elif t.op != 'int': ats.add(t)
        walk(stay)
        bs = [t for t in ats if t.op == 'byteis']
        if len(ats) != 2 or len(bs) != 1: return None
        b = bs[0]; T, i, ch = b.a
        if hasattr(ch, 'op'):
            if ch.op != 'int': return None
            ch = ch.a[0]
        if i not in lvs.values() or not 0 <= ch < 128 or set(lvs.values()) & free_syms(T): return None
        out = le(length(T), i)
        if out not in ats: return None
        r = lambda c, x, v: truth(restrict1(c, x, v))
        if r(stay, out, True) is not ZERO or r(r(stay, out, False), b, True) is not ZERO or r(r(stay, out, False), b, False) is not ONE: return None
        step = {}
        for (cl, pt), lv in lvs.items():
            i0 = self.leafget(self.get_cell(base, cl), pt)
            ds = set()
            for c, s in back:
                n = sub(self.leafget(self.get_cell(s, cl), pt), lv)
                ds.add(n)
            d = ds.pop() if len(ds) == 1 else None
            if d is None or d.op != 'int': return None
            step[lv] = (i0, d)
        if step[i][1] is not ONE: return None
        i0 = step[i][0]
        f = TM.REAPP['sfind'](sl(T, i0, length(T)), TM.st(chr(ch)))
        inside = truth(restrict(le(i0, length(T)), base.env))
        res = []
        found = ite(inside, is_(f, 1, 2), ZERO)
        for hit in (True, False):
            env = assume(base.env, found, hit)
            if env is None: continue
            n = fld(f, 1, 0) if hit else ite(inside, sub(length(T), i0), ZERO)
            n = restrict(n, env)
            m = {lv: add(a, mul(n, d)) for lv, (a, d) in step.items()}
            m[b] = ONE if hit else ZERO
            rest = found if hit else ONE
            last = None
            for c, t, s in exits:
                c2 = r(r(c, out, not hit), b, True) if hit else r(c, out, True)
                if c2 is ZERO: continue
                memo = {}
                ns = {k: restrict(subst(v, m, memo), env) for k, v in s.store.items()}
                res.append((ite(rest, subst(c2, m), ZERO), t, State(ns, env)))
        return res
    def generic_loop(self, ctx, base, hdr, leaves, lvs, back, exits, where, lid):
        """a loop that is not driven by a stream: its exits are described with opaque loop-variable values"""
        r = self.byte_scan(base, lvs, back, exits)
        if r is not None: return r
        if self.opts.get('strict_loops', True):
            raise Unsupported('loop without a recognised summary at ' + where)
        return exits

    # ------------------------------------------------------------ statements, asserts, calls
    def stmt(self, fr, st, s):
        k = s[0]
        if k == '=':
            fr.where = s[3]
            dty = self.place_ty(fr.body, s[1])
            v = self.rvalue(fr, st, s[2], dty)
            if s[1][1]:
                self.r_store(st, self.resolve(fr, st, s[1]), v)
            else: st.store[(fr.id, s[1][0])] = v
        elif k == 'sd':
            r = self.resolve(fr, st, s[1])
            v = self.r_load(st, r)
            self.r_store(st, r, self.set_variant(v, s[2], self.r_ty(r)))
        elif k == 'cno':
            self.models.copy_nonoverlapping(self, fr, st, s)
    def set_variant(self, v, var, tyid):
        if v.op == 'ite': return ite(v.a[0], self.set_variant(v.a[1], var, tyid), self.set_variant(v.a[2], var, tyid))
        if v.op == 'cor': return mk('cor', v.a[0], var, v.a[2], v.a[3])
        if v.op == 'adt' and v.a[1] == var: return v
        return self.blank(tyid, var)
    def tight(self, env):
        """the conditions, with those of the branches being followed that became decidable since; None: there is no such way"""
        ch = True
        while ch and env is not None:
            ch = False
            for c, v in self.guards:
                if c.op != 'ite': continue
                c = truth(restrict(c, env))
                if c.op == 'int':
                    if bool(c.a[0]) != v: return None
                    continue
                e = assume(env, c, v)
                if e is None: return None
                if len(e.d) > len(env.d): env = e; ch = True
        return env
    def panic_at(self, fr, st, b, kind, detail):
        e = self.tight(st.env)
        if e is None: return
        st = State(st.store, e)
        self.oblig.append((st.env, kind, self.p.insts[fr.inst]['path'], fr.body.blocks[b]['sp'], detail, tuple(self.p.insts[f.inst]['path'] for f in self.stack)))
    def do_assert(self, fr, st, t, b):
        c = truth(restrict(self.operand(fr, st, t[1]), st.env))
        want = bool(t[2])
        if c.op == 'int':
            if bool(c.a[0]) == want: return st
            self.panic_at(fr, st, b, 'assert', str(t[3][0])); return None
        if c is UNREACH: return None
        e = assume(st.env, c, not want)
        if e is not None:
            self.panic_at(fr, State(st.store, e), b, 'assert', (t[3][0], c))
        e = assume(st.env, c, want)
        if e is None: return None
        st.env = e
        return st
    def do_call(self, fr, st, t, b):
        f = t[1]
        args = [self.operand(fr, st, o) for o in t[2]]
        if f[0] == 'k' and f[2][0] == 'fn':
            info = f[2][1]
        else:
            v = self.operand(fr, st, f)
            if v.op == 'fn':
                n = v.a[0]
                info = dict(p=v.a[1], i=n if n >= 0 else None, rp=self.p.insts[n]['path'] if n >= 0 else v.a[1], kind='item', tr=None, a=[], cr='')
            else:
                fty = self.ty(self.op_ty(fr, f))
                info = self.fn_of_type(fty)
        return self.call(info, args, st, fr, t[6] if len(t) > 6 else None, b, [self.op_ty(fr, o) for o in t[2]])
    def fn_of_type(self, fty):
        if fty['k'] == 'fndef':
            name, targs = fty['n'], fty['a']
            for n in self.p.bypath.get(name, ()):
                if self.p.insts[n]['a'] == targs: return dict(p=name, i=n, rp=name, kind='item', tr=None, a=targs, cr='')
            c = self.ctor(name)
            return dict(p=name, i=None, rp=name, kind='ctor' if c else 'item', tr=None, a=targs, cr='')
        raise Unsupported('indirect call through ' + fty.get('s', '?'))
    def ctor(self, name):
        return None
    def call(self, info, args, st, fr=None, rty=None, b=0, atys=None):
        self.site = (fr, b)
        if any(a is UNREACH for a in args): return UNREACH, st
        r = self.models.call(self, info, args, st, fr, rty, b, atys)
        if r is not None:
            return r
        i = info.get('i')
        p = info['p']
        if i is not None and self.p.body(i):
            a = list(args)
            body = self.p.body(i)
            if info.get('tr') in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn') and len(a) == 2:
                k = self.p.insts[i]['kind']
                if body.spread is None and body.argc != 2 or (body.spread is None and self.is_closure_inst(i)):
                    tupv = a[1]
                    if tupv.op == 'tup': a = [a[0]] + list(tupv.a[0])
                    else: a = [a[0]] + [fld(tupv, None, j) for j in range(body.argc - 1)]
                if self.is_closure_inst(i):
                    want = self.ty(body.locals[1])
                    if want['k'] == 'ref' and want.get('m') and a[0].op == 'clo': a[0] = self.newcell(st, a[0], want['to'])
                    elif want['k'] == 'ref' and not want.get('m'): a[0] = self.deep_clo(st, a[0])
                elif len(a) == body.argc + 1: a = a[1:]
            return self.call_inst(i, a, st)
        if i is not None and self.p.insts[i]['kind'] == 'item' and p != info.get('rp') : pass
        return self.opaque_call(info, args, st, rty, atys)
    def deep_clo(self, st, v):
        n = 0
        while v.op == 'ptr' and n < 5: v = self.deref(st, v); n += 1
        return v
    def is_closure_inst(self, i):
        return re.search(r'\{closure#\d+\}$', self.p.insts[i]['path']) is not None
    def opaque_call(self, info, args, st, rty, atys=None):
        name = info.get('rp') or info['p']
        self.opaque_calls.setdefault(name, 0); self.opaque_calls[name] += 1
        vals = []
        for a in args:
            vals.append(self.deep_value(st, a))
        if self.oplog is not None: self.oplog.append((name, vals, self.frames[-1] if getattr(self, 'frames', None) else None, st.env, info))
        r = app('call:' + name, *vals)
        for j, a in enumerate(args):
            if a.op == 'ptr':
                self.assign(st, a, app('mut%d:%s' % (j, name), *vals))
        if rty is not None: self.note_sort(r, rty)
        return r, st
    def deep_value(self, st, v, depth=0):
        """replace pointers inside a value by what they point to (for opaque uses)"""
        if depth > 6: return v
        if v.op == 'ptr': return self.deep_value(st, self.deref(st, v), depth + 1)
        if v.op in ('tup', 'arr'): return mk(v.op, tuple(self.deep_value(st, x, depth + 1) for x in v.a[0]))
        if v.op == 'adt': return adt(v.a[0], v.a[1], [self.deep_value(st, x, depth + 1) for x in v.a[2]])
        if v.op == 'clo': return mk('clo', v.a[0], tuple(self.deep_value(st, x, depth + 1) for x in v.a[1]))
        if v.op == 'ite': return ite(v.a[0], self.deep_value(st, v.a[1], depth + 1), self.deep_value(st, v.a[2], depth + 1))
        return v

def copysort(a, b):
    if a in SORT: SORT.setdefault(b, SORT[a])
    return b
def bindcanon(S, lvl, *ts):
    """rename the bound element elem(S,lvl) to the lowest level free in the terms"""
    used = set(); seen = set()
    def go(t):
        if t in seen: return
        seen.add(t)
        if t.op == 'elem' and t.a[0] is S and t.a[1] != lvl: used.add(t.a[1])
        for c in children(t): go(c)
    for t in ts: go(t)
    h = 0
    while h in used: h += 1
    if h == lvl: return (lvl,) + ts
    e = mk('elem', S, lvl)
    m = {e: copysort(e, mk('elem', S, h))}
    return (h,) + tuple(subst(t, m) for t in ts)
_fs = {}
def free_syms(t):
    r = _fs.get(t)
    if r is None:
        if t.op == 'sym': r = frozenset((t,))
        else:
            r = frozenset()
            for c in children(t): r = r | free_syms(c)
            if t.op == 'fix' or t.op == 'fold': pass
        _fs[t] = r
    return r
def st_bytes(fs): return TM.st(bytes(f.a[0] for f in fs))

IDENT_ADT = {'std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'std::mem::ManuallyDrop', 'std::mem::MaybeUninit',
             'std::num::Wrapping', 'std::cell::UnsafeCell', 'std::mem::MaybeDangling', 'std::pin::Pin'}
CELL_TYPES = {'std::cell::RefCell', 'std::cell::Cell', 'std::sync::Mutex', 'std::sync::RwLock', 'std::sync::atomic::AtomicUsize', 'std::sync::atomic::AtomicBool', 'std::cell::OnceCell', 'std::sync::OnceLock'}
