"""What the standard-library (and a few dependency) functions mean, as value-graph transformers.
Everything that is not listed here is analysed from its own body, or left opaque if it has none."""
import re
from term import *
import term as TM
from machine import Unsupported, Summarise, LoopCtx, State, assume, CELL_TYPES, bindcanon

EV_WRITE, EV_FLUSH = 'write', 'flush'
DUR_MAX = (2**64 - 1) * 10**9 + 999999999
RANGE['dur'] = (0, DUR_MAX)
ORDERING = 'std::cmp::Ordering'
BR = 'std::ops::ControlFlow'
FMTERR = 'std::fmt::Error'

def utf8(c):
    try: return chr(c).encode()
    except Exception: return None
def to_str(p):
    """a char or string pattern as a string term"""
    if p.op == 'ite': return ite(p.a[0], to_str(p.a[1]), to_str(p.a[2]))
    if p.op == 'int':
        b = utf8(p.a[0])
        if b is not None: return st(b)
    if is_strlike(p): return p
    if SORT.get(p) == 'char' or (p.op == 'sym' and p.a[1] == 'char') or (p.op == 'elem' and p.a[0].op == 'app' and p.a[0].a[0] == 'chars'): return rawapp('chstr', p)
    return p
def is_strlike(t): return t.op in ('str', 'cat', 'slice', 'fld', 'sym', 'app', 'elem', 'ite') and SORT.get(t) not in RANGE and not (t.op == 'sym' and t.a[1] in RANGE)
def mkchstr(x):
    if x.op == 'int':
        b = utf8(x.a[0])
        if b is not None: return st(b)
    return rawapp('chstr', x)
TM.REAPP['chstr'] = mkchstr

# ---------------------------------------------------------------- string functions
def sfind(s, p): return lift(_sfind, (s, p))
def _sfind(s, p):
    if s.op == 'str' and p.op == 'str':
        i = s.a[0].find(p.a[0])
        return some(num(i)) if i >= 0 else NONE
    r = rawapp('sfind', s, p)
    SORT.setdefault(mk('fld', r, 1, 0), 'usize')
    return r
TM.REAPP['sfind'] = sfind
def plen(p): return length(p)
def split_once(s, p):
    f = sfind(s, p)
    i = fld(f, 1, 0)
    return ite(is_(f, 1, 2), some(mk('tup', (sl(s, ZERO, i), sl(s, add(i, plen(p)), length(s))))), NONE)
def rsplit_once(s, p):
    f = app('rfind', s, p); i = fld(f, 1, 0)
    return ite(is_(f, 1, 2), some(mk('tup', (sl(s, ZERO, i), sl(s, add(i, plen(p)), length(s))))), NONE)
def nthsplit(s, p, k, n=None):
    """Option: k-th piece of s split at p (at most n pieces)"""
    f = sfind(s, p); i = fld(f, 1, 0)
    has = is_(f, 1, 2)
    if n is not None and n <= 0: return NONE
    if n == 1: return some(s) if k == 0 else NONE
    if k == 0: return some(ite(has, sl(s, ZERO, i), s))
    return ite(has, nthsplit(sl(s, add(i, plen(p)), length(s)), p, k - 1, None if n is None else n - 1), NONE)
def starts(s, p): return pred('starts', s, p)
def ends(s, p): return pred('ends', s, p)
def strip_prefix(s, p): return ite(starts(s, p), some(sl(s, plen(p), length(s))), NONE)
def strip_suffix(s, p): return ite(ends(s, p), some(sl(s, ZERO, sub(length(s), plen(p)))), NONE)
def parse_prim(ty, s):
    def f(s):
        if s.op == 'str' and ty in RANGE and ty not in ('bool', 'char'):
            t = s.a[0].decode(errors='replace')
            lo, hi = RANGE[ty]
            if re.fullmatch(r'\+?[0-9]+', t) and lo <= int(t) <= hi: return ok(num(int(t)))
            if lo < 0 and re.fullmatch(r'-[0-9]+', t) and lo <= int(t): return ok(num(int(t)))
            return err(rawapp('parseerr', s))
        r = rawapp('parse:' + ty, s)
        SORT.setdefault(mk('fld', r, 0, 0), ty)
        return r
    return lift(f, (s,))

for _t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    TM.REAPP['parse:' + _t] = (lambda ty: lambda s: parse_prim(ty, s))(_t)

def as_list(v):
    if v.op == 'ite': return ite(v.a[0], as_list(v.a[1]), as_list(v.a[2]))
    if v.op == 'arr': return lst([one(x) for x in v.a[0]])
    return v
def elem(S, lvl):
    e = mk('elem', S, lvl)
    s = stream_sort(S)
    if s: SORT.setdefault(e, s)
    return e
def stream_sort(S):
    if S.op == 'app':
        n = S.a[0]
        if n in ('split', 'splitn', 'split_ws', 'lines'): return 'str'
        if n == 'chars': return 'char'
        if n == 'bytes': return 'u8'
        if n in ('after', 'until', 'drop', 'rev'): return stream_sort(S.a[1][0])
    return None

def list_iter(v):
    """an iterator over list value v"""
    v = as_list(v)
    if v.op == 'ite': return ite(v.a[0], list_iter(v.a[1]), list_iter(v.a[2]))
    if v.op == 'list' and len(v.a[0]) == 1 and v.a[0][0].op == 'many':
        S, lvl, body = v.a[0][0].a
        if bindbody(body) is not None: return adt('@bind', 0, (mk('iter', S, 0), mk('lam', S, lvl, body)))
    return mk('iter', v, 0)
def bindbody(body):
    """a list with at most one element per case, as Some/SKIP"""
    if body.op == 'ite':
        a, b = bindbody(body.a[1]), bindbody(body.a[2])
        return None if a is None or b is None else ite(body.a[0], a, b)
    if body.op == 'list':
        ps = body.a[0]
        if not ps: return SKIP
        if len(ps) == 1 and ps[0].op == 'one': return some(ps[0].a[0])
    return None

# ---------------------------------------------------------------- formatting
def parse_template(b):
    out = []; i = 0; arg = 0
    while i < len(b):
        n = b[i]; i += 1
        if n == 0: break
        if n < 0x80:
            out.append(('lit', bytes(b[i:i + n]))); i += n
        elif n == 0x80:
            n = b[i] | b[i + 1] << 8; i += 2
            out.append(('lit', bytes(b[i:i + n]))); i += n
        elif n & 0xC0 == 0xC0:
            flags = width = prec = None
            if n & 1: flags = int.from_bytes(b[i:i + 4], 'little'); i += 4
            if n & 2: width = int.from_bytes(b[i:i + 2], 'little'); i += 2
            if n & 4: prec = int.from_bytes(b[i:i + 2], 'little'); i += 2
            if n & 8: arg = int.from_bytes(b[i:i + 2], 'little'); i += 2
            out.append(('arg', arg, (flags, width, prec, n & 0x30))); arg += 1
        else: raise Unsupported('format template byte %x' % n)
    return out

class Ctx:
    __slots__ = ('info', 'args', 'st', 'fr', 'rty', 'b', 'atys', 'm')

PANIC = re.compile(r'^(core|std)::panicking::|^(core|std)::(option|result)::(expect_failed|unwrap_failed)|^(core|std)::cell::panic_|^(core|std)::slice::index::slice_.*fail|^(core|std)::str::slice_error_fail|::handle_alloc_error$|^std::rt::(begin_panic|panic_)|^alloc::raw_vec::(handle_error|capacity_overflow)|^core::str::traits::str_index_overflow_fail|^std::process::(exit|abort)|index_fail|::panic_(fmt|display|str|const)')

H = {}
def model(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d
I_ = {}
def imethod(*names):
    def d(f):
        for n in names: I_[n] = f
        return f
    return d

class Models:
    def __init__(self, hooks=None):
        self.hooks = hooks or {}       # path -> handler, consulted first (boundaries of a check)
        self.mkadt = {}
        self.used = {}
    # -------------------------------------------------- dispatch
    def call(self, m, info, args, st, fr, rty, b, atys):
        c = Ctx()
        c.m, c.info, c.args, c.st, c.fr, c.rty, c.b, c.atys = m, info, args, st, fr, rty, b, atys
        p, rp = info['p'], info.get('rp') or info['p']
        for key in (rp, p):
            h = self.hooks.get(key)
            if h:
                r = h(self, c)
                if r is not None: return self.out(r, c)
        name = (info.get('rp') or p)
        if PANIC.search(name):
            m.panic_at(fr, st, b, 'panic', (name, self.panic_detail(c)))
            return UNREACH, None
        if name in ('core::hint::unreachable_unchecked', 'std::hint::unreachable_unchecked', 'std::intrinsics::unreachable'): 
            return UNREACH, None
        h = H.get(rp) or H.get(p)
        if h is None and info.get('tr') and info.get('cr') not in ('tmi', 'vharness'):
            pass
        if h is not None:
            self.used[p] = self.used.get(p, 0) + 1
            r = h(self, c)
            if r is not None: return self.out(r, c)
        if info.get('tr') in ('std::iter::Iterator', 'std::iter::DoubleEndedIterator', 'std::iter::ExactSizeIterator'):
            r = self.iterator_call(c, p.rsplit('::', 1)[1])
            if r is not None: return self.out(r, c)
        k = self.ctor_of(c)
        if k is not None: return k, st
        return None
    def out(self, r, c):
        if isinstance(r, T): return r, c.st
        return r
    def panic_detail(self, c):
        a = [x for x in c.args if x.op == 'str']
        return a[0].a[0].decode(errors='replace') if a else None
    def ctor_of(self, c):
        """tuple-struct and tuple-variant constructors used as functions"""
        i = c.info
        if i.get('kind') not in ('item', 'ctor') : return None
        if i.get('i') is not None and c.m.p.body(i['i']): return None
        p = i['p']
        tid = c.rty
        if tid is None:
            idx = getattr(c.m.p, 'adt_index', None)
            if idx is None:
                idx = c.m.p.adt_index = {}
                for k, t in enumerate(c.m.p.types):
                    if t and t['k'] == 'adt': idx.setdefault(t['n'], k)
            base = re.sub(r'::<.*?>', '', p)
            tid = idx.get(base.rsplit('::', 1)[0], idx.get(base))
            if tid is None: return None
        t = c.m.ty(tid)
        if t['k'] != 'adt': return None
        last = re.sub(r'::<.*?>$', '', p).rsplit('::', 1)[-1]
        for vi, v in enumerate(t['v']):
            if v['n'] == last and len(v['f']) == len(c.args) and re.sub(r'::<.*?>', '', p).startswith(re.sub(r'<.*', '', t['n'])):
                return c.m.mkadt(tid, vi, c.args)
        return None

    # -------------------------------------------------- helpers
    def tname(self, m, tyid):
        t = m.ty(tyid)
        return t.get('n') if t['k'] == 'adt' else t.get('n', t['k']) if t['k'] in ('int', 'uint', 'float') else t['k']
    def val(self, c, i): return c.m.deep(c.st, c.args[i])
    def branch(self, m, st, cond, ft, ff):
        """evaluate ft/ff under cond; returns (value, state)"""
        cond = truth(restrict(cond, st.env))
        if cond is ONE: return ft(st)
        if cond is ZERO: return ff(st)
        env0 = st.env
        e1 = assume(st.env, cond, True); e2 = assume(st.env, cond, False)
        if e1 is None: return ff(st)
        if e2 is None: return ft(st)
        a, sa = ft(State(dict(st.store), e1)); b, sb = ff(State(dict(st.store), e2))
        if sa is None and sb is None: return UNREACH, None
        if sa is None: return b, State(sb.store, env0)
        if sb is None: return a, State(sa.store, env0)
        sa.store[('rv',)] = a; sb.store[('rv',)] = b
        s = m.merge(cond, sa, sb, env0)
        return s.store.pop(('rv',)), s
    def on_option(self, m, st, o, fsome, fnone):
        """case split on an Option value that may also be SKIP"""
        if o.op == 'ite':
            sk = m.skipcond(o)
            if sk is not ZERO:
                return self.branch(m, st, sk, lambda s: (SKIP, s), lambda s: self.on_option(m, s, self.noskip(o), fsome, fnone))
        if o is SKIP: return SKIP, st
        c = is_(o, 1, 2)
        return self.branch(m, st, c, lambda s: fsome(s, fld(restrict(o, s.env) if o.op == 'ite' else o, 1, 0)), fnone)
    def noskip(self, v):
        if v.op == 'ite':
            a, b = self.noskip(v.a[1]), self.noskip(v.a[2])
            if a is None or a is SKIP: return b
            if b is None or b is SKIP: return a
            return ite(v.a[0], a, b)
        return v
    def apply(self, c, f, args, st):
        """call a closure / fn value"""
        m = c.m
        f = m.deep(st, f) if f.op == 'ptr' and self.is_fnptr(m, st, f) else f
        target = f
        ptr = None
        if f.op == 'ptr': ptr = f; target = m.deref(st, f)
        if target.op == 'clo':
            i = self.clo_inst(m, target, len(args))
            body = m.p.body(i)
            want = m.ty(body.locals[1])
            if want['k'] == 'ref' and want.get('m'):
                a0 = ptr if ptr is not None else m.newcell(st, target, want['to'])
            else: a0 = target
            a = [a0] + list(args)
            if body.argc != len(a):
                a = [a0] + [mk('tup', tuple(args))] if body.argc == 2 else a
            return m.call_inst(i, a, st)
        if target.op == 'fn':
            n = target.a[0]
            path = target.a[1]
            if n >= 0 and m.p.body(n) and path not in self.hooks and path not in H:
                return m.call_inst(n, list(args), st)
            info = dict(p=path, i=n if n >= 0 else None, rp=m.p.insts[n]['path'] if n >= 0 else path, kind='item', tr=None, a=[], cr='')
            return m.call(info, list(args), st, c.fr, None, c.b, None)
        raise Unsupported('call of an unknown function value ' + show(target, 3))
    def is_fnptr(self, m, st, f):
        return m.deref(st, f).op in ('fn', 'ptr')
    def clo_inst(self, m, clo, n):
        s = clo.a[0]
        ix = getattr(m.p, '_clo', None)
        if ix is None:
            ix = m.p._clo = {}
            for k, i in enumerate(m.p.insts):
                b = m.p.body(k)
                if b and b.argc >= 1 and re.search(r'\{closure#\d+\}$', i['path']):
                    t = m.ty(m.peel_ref(b.locals[1]))
                    if t['k'] == 'closure': ix.setdefault(t['s'], []).append(k)
        l = ix.get(s)
        if not l: raise Unsupported('no body for closure ' + s)
        return l[0]

    # -------------------------------------------------- Cow, transmute, drop
    def cow_discr(self, m, v):
        if v.op == 'cow': return num(v.a[0])
        if v.op == 'ite': return ite(v.a[0], self.cow_discr(m, v.a[1]), self.cow_discr(m, v.a[2]))
        return discr(rawapp('cow', v), 2)
    def transmute(self, m, st, v, sty, dty):
        t = m.ty(dty)
        if t['k'] == 'adt' and t['ak'] == 'enum' and v.op != 'adt':
            ds = [m.dval(x['d']) for x in t['v']]
            NVAR.setdefault(t['n'], len(ds))
            for i, x in enumerate(t['v']): VNAMES.setdefault((t['n'], i), x['n'])
            v = restrict(v, st.env)
            if v.op == 'int' and v.a[0] in ds: return adt(t['n'], ds.index(v.a[0]), ())
            if all(not x['f'] for x in t['v']):
                r = UNREACH
                for i in range(len(ds) - 1, -1, -1):
                    c = restrict(truth(ieq(v, num(ds[i]))), st.env)
                    r = ite(c, adt(t['n'], i, ()), r) if r is not UNREACH else (adt(t['n'], i, ()) if c is not ZERO else UNREACH)
                inr = ite(le(v, num(max(ds))), le(num(min(ds)), v), ZERO)
                m.oblig_static.append(('transmute', m.site, restrict(truth(inr), st.env), st.env))
                return r
        return v
    def drop(self, m, st, r, tyid): pass
    def copy_nonoverlapping(self, m, fr, st, s): raise Unsupported('raw memory copy')

    # -------------------------------------------------- strings with obligations
    def known_le(self, m, st, a, b):
        r = truth(restrict(le(a, b), st.env))
        if r is ONE: return True
        d = sub(b, a)     # need d >= 0
        k, ts = aslin(d)
        # len(s) - find(s, p) - k, k <= len(p)
        for co, x in ts:
            if co == -1 and x.op == 'fld' and x.a[0].op == 'app' and x.a[0].a[0] in ('sfind', 'rfind'):
                s, p = x.a[0].a[1]
                rest = sub(add(d, x), length(s))
                lo = bounds(add(rest, length(p)))[0]
                if lo is not None and lo >= 0: return True
        return False
    def boundary_ok(self, st, s, i):
        """is byte offset i of string s known to be a character boundary"""
        if i is ZERO or i is length(s): return True
        if i.op == 'ite':
            e1 = assume(st.env, i.a[0], True); e2 = assume(st.env, i.a[0], False)
            return (e1 is None or self.boundary_ok(State(st.store, e1), s, i.a[1])) and (e2 is None or self.boundary_ok(State(st.store, e2), s, i.a[2]))
        if s.op == 'str' and i.op == 'int':
            b = s.a[0]; n = i.a[0]
            return n <= len(b) and (n == len(b) or (b[n] & 0xC0) != 0x80)
        k, ts = aslin(i)
        if len(ts) == 1 and ts[0][0] == 1:
            x = ts[0][1]
            if x.op == 'fld' and x.a[0].op == 'app' and x.a[0].a[0] in ('sfind', 'rfind') and x.a[0].a[1][0] is s:
                p = x.a[0].a[1][1]
                if k == 0: return True
                if p.op == 'str' and 0 <= k <= len(p.a[0]): return k == len(p.a[0]) or (p.a[0][k] & 0xC0) != 0x80
                if length(p).op == 'int' and k == length(p).a[0]: return True
            if x.op == 'fld' and x.a[0].op == 'app' and x.a[0].a[0] == 'char_index' and x.a[0].a[1][0] is s: return k == 0
        if st.env.decide(mk('pred', 'is_char_boundary', (s, i))) is True: return True
        if not ts:
            # constant offset: the bytes before it are known and ASCII / complete
            fs = st.env.subj.get(('s', s))
            if fs:
                text, lo, hi, by, nb, *_ = Env.strfacts(st.env, fs, None)
                if text is not None: return k <= len(text) and (k == len(text) or (text[k] & 0xC0) != 0x80)
                if all(j in by for j in range(k)):
                    try: bytes(by[j] for j in range(k)).decode(); return True
                    except UnicodeDecodeError: return False
                # suffix facts
        # len(s) - n with a known suffix
        d = sub(length(s), i)
        if d.op == 'int':
            fs = st.env.subj.get(('s', s))
            if fs:
                suf = Env.strfacts(st.env, fs, None)[8]
            else: suf = []
            # what is known about the end of a part of s that reaches to its end
            for (kk, y), fs2 in st.env.subj.items():
                if kk == 's' and y.op == 'slice' and y.a[0] is s and y.a[2] is length(s): suf = suf + Env.strfacts(st.env, fs2, None)[8]
            if suf:
                for q in suf:
                    if len(q) >= d.a[0]:
                        t = q[len(q) - d.a[0]:]
                        if not t or (t[0] & 0xC0) != 0x80: return True
        return False
    def slice_str(self, c, s, a, b, what='slice'):
        """s[a..b] with its panic obligations; returns (value, state)"""
        m, st = c.m, c.st
        s = m.deep(st, s)
        if s.op == 'ite' or a.op == 'ite' or b.op == 'ite':
            for x in (s, a, b):
                if x.op == 'ite':
                    k = x.a[0]
                    def side(v, stt):
                        c2 = Ctx(); c2.m, c2.info, c2.args, c2.st, c2.fr, c2.rty, c2.b, c2.atys = c.m, c.info, c.args, stt, c.fr, c.rty, c.b, c.atys
                        return self.slice_str(c2, restrict1(s, k, v) if s is not x else x.a[1 if v else 2], restrict1(a, k, v) if a is not x else x.a[1 if v else 2], restrict1(b, k, v) if b is not x else x.a[1 if v else 2], what)
                    return self.branch(m, st, k, lambda q: side(True, q), lambda q: side(False, q))
        isb = what == 'bytes'
        def verdict(stt):
            if not self.known_le(m, stt, a, b): return 'start may exceed end'
            if not self.known_le(m, stt, b, length(s)): return 'end may exceed the length'
            if not isb and not self.boundary_ok(stt, s, a): return 'start may not be a character boundary'
            if not isb and not self.boundary_ok(stt, s, b): return 'end may not be a character boundary'
        why = verdict(st)
        if why:
            e = m.tight(st.env)
            if e is None: why = None
            elif e is not st.env: why = verdict(State(st.store, e))
        okk = why is None
        if not okk and not m.opts.get('assume_slices'):
            cond = ite(le(a, b), le(b, length(s)), ZERO)
            d = truth(restrict(cond, st.env))
            if d is ZERO:
                m.panic_at(c.fr, st, c.b, 'slice', (why, s, a, b)); return UNREACH, None
            m.panic_at(c.fr, st, c.b, 'slice', (why, s, a, b))
        return sl(s, a, b), st
    def range_of(self, c, r, n):
        """(start, end) of a range value of any of the range types, given its type name"""
        return None

    # -------------------------------------------------- iterators
    def to_iter(self, c, v, st):
        """value of v.into_iter()"""
        m = c.m
        if v.op == 'ptr': v = m.deref(st, v)
        if v.op == 'ite': return ite(v.a[0], self.to_iter(c, v.a[1], st), self.to_iter(c, v.a[2], st))
        if v.op in ('iter', 'iterN') or (v.op == 'adt' and v.a[0].startswith('@')): return v
        if v.op in ('list', 'arr'): return list_iter(v)
        if v.op == 'adt' and v.a[0].startswith('std::ops::Range'): return v
        if v.op == 'adt' and v.a[0] == OPTION: return adt('@opt', 0, (v,))
        return None
    def into_iter_ty(self, c, v, tyid, st):
        m = c.m
        x = self.to_iter(c, v, st)
        if x is not None and not (x.op == 'ite'): return x
        t = m.ty(m.peel(tyid)) if tyid is not None else None
        n = t.get('n') if t and t['k'] == 'adt' else (t['k'] if t else None)
        if n == OPTION: return adt('@opt', 0, (m.deep(st, v),))
        if n in ('std::vec::Vec', 'smallvec::SmallVec', 'slice', 'array', 'std::collections::VecDeque'): return list_iter(m.deep(st, v))
        return x
    def nth_of(self, S, k, m=None):
        """Option: element k of stream S"""
        if S.op == 'app' and S.a[0] == 'split' and k <= 3: return lift(lambda s, p: nthsplit(s, p, k), S.a[1])
        if S.op == 'app' and S.a[0] == 'splitn' and k <= 3: return nthsplit(S.a[1][0], S.a[1][1], k, S.a[1][2].a[0])
        if S.op == 'list':
            ps = S.a[0]
            if all(p.op == 'one' for p in ps[:k + 1]):
                if k < len(ps): return some(ps[k].a[0])
                if len(ps) <= k and all(p.op == 'one' for p in ps): return NONE
        if S.op == 'str': pass
        r = rawapp('nth', S, num(k))
        s = stream_sort(S)
        if s: SORT.setdefault(mk('fld', r, 1, 0), s)
        return r
    def finite(self, S):
        return S.op == 'list' and all(p.op == 'one' for p in S.a[0])
    def inext(self, c, p, st):
        """advance the iterator at pointer p; returns (Option or SKIP value, state)"""
        m = c.m
        v = m.deref(st, p)
        v = restrict(v, st.env)
        if v.op == 'ptr': return self.inext(c, v, st)
        if v.op == 'ite':
            def side(x):
                def g(s):
                    m.assign(s, p, x); return self.inext(c, p, s)
                return g
            return self.branch(m, st, v.a[0], side(v.a[1]), side(v.a[2]))
        if v.op == 'iter':
            S, k = v.a
            loop = m.loops[-1] if m.loops else None
            if self.finite(S):
                if k < len(S.a[0]):
                    m.assign(st, p, mk('iter', S, k + 1)); return some(S.a[0][k].a[0]), st
                return NONE, st
            if loop is not None and p.a[0] in loop.entry:
                if loop.mode == 'unroll': raise Summarise(loop)
                if k: S = rawapp('drop', S, num(k))
                lvl = sum(1 for l in m.loops if l.mode == 'sum') - 1
                m.assign(st, p, mk('iterN', S, lvl))
                return ite(mk('more', S, lvl), some(elem(S, lvl)), NONE), st
            m.assign(st, p, mk('iter', S, k + 1))
            return self.nth_of(S, k, m), st
        if v.op == 'iterN':
            raise Unsupported('iterator advanced twice in one iteration')
        if v.op == 'adt':
            n, fs = v.a[0], v.a[2]
            sub_ = lambda i: self.field_ptr(m, p, v, i)
            if n == '@map':
                o, st = self.inext(c, sub_(0), st)
                if st is None: return UNREACH, None
                def f(s, x):
                    r, s = self.apply(c, sub_(1), [x], s)
                    return (some(r), s) if s is not None else (UNREACH, None)
                return self.on_option(m, st, o, f, lambda s: (NONE, s))
            if n in ('@filter', '@filter_map', '@flat_map', '@bind', '@take_while', '@map_while'):
                if self.is_finite_iter(fs[0]): return self.finite_next(c, p, st)
                if not self.in_sum_loop(m, p):
                    return self.search_next(c, p, st)
                return self.step(c, p, v, st)
            if n == '@inspect':
                o, st = self.inext(c, sub_(0), st)
                if st is None: return UNREACH, None
                def f(s, x):
                    r, s = self.apply(c, sub_(1), [x], s)
                    return (some(x), s) if s is not None else (UNREACH, None)
                return self.on_option(m, st, o, f, lambda s: (NONE, s))
            if n == '@enumerate':
                o, st = self.inext(c, sub_(0), st)
                if st is None: return UNREACH, None
                def f(s, x):
                    i = m.deref(s, sub_(1))
                    m.assign(s, sub_(1), add(i, ONE))
                    return some(mk('tup', (i, x))), s
                return self.on_option(m, st, o, f, lambda s: (NONE, s))
            if n == '@id': return self.inext(c, sub_(0), st)
            if n == '@opt':
                x = fs[0]
                m.assign(st, sub_(0), NONE)
                return x, st
            if n == '@once':
                x = fs[0]
                m.assign(st, sub_(0), NONE)
                return x, st
            if n == '@peek':
                q = fs[1]     # Option<Option<item>>
                def have(s):
                    m.assign(s, sub_(1), NONE); return fld(q, 1, 0), s
                return self.branch(m, st, is_(q, 1, 2), have, lambda s: self.inext(c, sub_(0), s))
            if n == '@chain':
                if not (self.is_finite_iter(fs[0]) and self.is_finite_iter(fs[1])) and m.loops: raise Unsupported('stepping a chained iterator')
                o, st = self.inext(c, sub_(0), st)
                if st is None: return UNREACH, None
                return self.on_option(m, st, o, lambda s, x: (some(x), s), lambda s: self.inext(c, sub_(1), s))
            if n == '@zip':
                a, st = self.inext(c, sub_(0), st)
                def f(s, x):
                    b, s = self.inext(c, sub_(1), s)
                    return self.on_option(m, s, b, lambda s2, y: (some(mk('tup', (x, y))), s2), lambda s2: (NONE, s2))
                return self.on_option(m, st, a, f, lambda s: (NONE, s))
            if n == '@take':
                k = fs[1]
                def f(s):
                    m.assign(s, sub_(1), sub(k, ONE)); return self.inext(c, sub_(0), s)
                return self.branch(m, st, le(k, ZERO), lambda s: (NONE, s), f)
            if n == 'std::ops::Range':
                a, b = fs
                def f(s):
                    m.assign(s, sub_(0), add(a, ONE)); return some(a), s
                return self.branch(m, st, lt(a, b), f, lambda s: (NONE, s))
            if n == '@user':
                raise Unsupported('user iterator')
        raise Unsupported('advancing %s' % show(v, 3))
    def finite_next(self, c, p, st):
        """next() of a filtering iterator over known elements: stepped until an element is not skipped"""
        m = c.m
        v = restrict(m.deref(st, p), st.env)
        if v.op == 'ite':
            def side(x):
                def g(s):
                    m.assign(s, p, x); return self.finite_next(c, p, s)
                return g
            return self.branch(m, st, v.a[0], side(v.a[1]), side(v.a[2]))
        o, st = self.step(c, p, v, st)
        if st is None: return UNREACH, None
        o = restrict(o, st.env)
        return self.branch(m, st, m.skipcond(o), lambda s: self.finite_next(c, p, s), lambda s: (restrict(self.noskip(o), s.env), s))
    def field_ptr(self, m, p, v, i):
        return mk('ptr', p.a[0], p.a[1] + (('f', None, i, None),), None)
    def in_sum_loop(self, m, p):
        l = m.loops[-1] if m.loops else None
        return l is not None and p.a[0] in l.entry and l.mode == 'sum' or (l is not None and p.a[0] in l.entry and l.mode == 'unroll')
    def step(self, c, p, v, st):
        m = c.m
        n, fs = v.a[0], v.a[2]
        sub_ = lambda i: self.field_ptr(m, p, v, i)
        o, st = self.inext(c, sub_(0), st)
        if st is None: return UNREACH, None
        if n == '@filter':
            def f(s, x):
                r, s = self.apply(c, sub_(1), [x], s)
                if s is None: return UNREACH, None
                return ite(truth(r), some(x), SKIP), s
        elif n == '@filter_map':
            def f(s, x):
                r, s = self.apply(c, sub_(1), [x], s)
                if s is None: return UNREACH, None
                return ite(is_(r, 1, 2), some(fld(r, 1, 0)), SKIP), s
        elif n == '@map_while':
            def f(s, x):
                return self.apply(c, sub_(1), [x], s)
        elif n == '@take_while':
            def f(s, x):
                r, s = self.apply(c, sub_(1), [x], s)
                return ite(truth(r), some(x), NONE), s
        elif n == '@flat_map':
            def f(s, x):
                r, s = self.apply(c, sub_(1), [x], s) if len(fs) > 1 else (x, s)
                if s is None: return UNREACH, None
                return self.optlike(c, r), s
        elif n == '@bind':
            lam = fs[1]
            S, lvl, body = lam.a
            def f(s, x):
                return bindbody(subst(body, {mk('elem', S, lvl): x})), s
        return self.on_option(m, st, o, f, lambda s: (NONE, s))
    def optlike(self, c, r):
        """an inner iterable with at most one element, as Some/SKIP"""
        if r.op == 'ite': return ite(r.a[0], self.optlike(c, r.a[1]), self.optlike(c, r.a[2]))
        if r.op == 'adt':
            if r.a[0] == OPTION: return some(r.a[2][0]) if r.a[1] == 1 else SKIP
            if r.a[0] == RESULT: return some(r.a[2][0]) if r.a[1] == 0 else SKIP
            if r.a[0] in ('@opt', '@once'): return self.optlike(c, r.a[2][0])
        if r.op == 'unreach': return r
        if r.op in ('app', 'fld', 'elem', 'sfindp'):
            return ite(is_(r, 1, 2), some(fld(r, 1, 0)), SKIP)
        raise Unsupported('flattening ' + show(r, 3))
    def search_next(self, c, p, st):
        """next() of a filtering iterator outside a loop: first element that is not skipped"""
        v = c.m.deref(st, p)
        def body(s, x): return [(ONE, 'hit', s, x)]
        return self.find_loop(c, p, st, lambda s, x: (ONE, s, x))
    # virtual loop: repeatedly call next(p) and run body
    def lift_ite(self, v):
        """an iterator over one of two sources, as one of two iterators"""
        if v.op == 'adt' and v.a[0].startswith('@') and v.a[0] not in ('@opt', '@once') and v.a[2]:
            x = self.lift_ite(v.a[2][0])
            if x.op == 'ite':
                f = lambda y: self.lift_ite(adt(v.a[0], v.a[1], (y,) + tuple(v.a[2][1:])))
                return ite(x.a[0], f(x.a[1]), f(x.a[2]))
        return v
    def vloop(self, c, p, st, body, where):
        """body(state, item) -> list of (cond, 'back' | tag, state). Returns [(cond, tag, state)], tag 'done' at exhaustion"""
        m = c.m
        v = self.lift_ite(restrict(m.deref(st, p), st.env))
        if v.op == 'ite':
            out = []
            for k, x, sign in ((v.a[0], v.a[1], True), (ite(v.a[0], ZERO, ONE), v.a[2], False)):
                e = assume(st.env, v.a[0], sign)
                if e is None: continue
                s = State(dict(st.store), e); m.assign(s, p, restrict(x, e))
                out += [(ite(k, kk, ZERO), t, s2) for kk, t, s2 in self.vloop(c, p, s, body, where)]
            return out
        # concrete streams are stepped
        if self.is_finite_iter(v):
            res = []; cond = ONE
            for _ in range(300):
                o, st = self.inext_plain(c, p, st)
                if st is None: return res
                if o is NONE: return res + [(cond, 'done', st)]
                env0 = st.env
                def go(o, st, cond):
                    """returns list of (cond, tag, state)"""
                    if o is SKIP: return [(cond, 'back', st)]
                    if o is UNREACH: return []
                    if o.op == 'ite':
                        k = o.a[0]
                        e1 = assume(st.env, k, True); e2 = assume(st.env, k, False)
                        out = []
                        if e1 is not None: out += go(o.a[1], State(dict(st.store), e1), ite(cond, k, ZERO))
                        if e2 is not None: out += go(o.a[2], State(dict(st.store), e2), ite(cond, ite(k, ZERO, ONE), ZERO))
                        return out
                    if o is NONE: return [(cond, 'done', st)]
                    if o.op == 'adt' and o.a[1] == 1:
                        return [(ite(cond, k, ZERO), t, s) for k, t, s in body(st, o.a[2][0])]
                    k = truth(restrict(is_(o, 1, 2), st.env)); out = []
                    e1 = assume(st.env, k, True); e2 = assume(st.env, k, False)
                    if e1 is not None: out += [(ite(ite(cond, k, ZERO), kk, ZERO), t, s) for kk, t, s in body(State(dict(st.store), e1), fld(o, 1, 0))]
                    if e2 is not None: out.append((ite(cond, ite(k, ZERO, ONE), ZERO), 'done', State(dict(st.store), e2)))
                    return out
                outs = go(o, st, ONE)
                back = [(k, s) for k, t, s in outs if t == 'back']
                for k, t, s in outs:
                    if t != 'back': res.append((ite(cond, k, ZERO), t, s))
                if not back: return res
                bs = m.merge_arms(c.fr, [(k if i < len(back) - 1 else ONE, s) for i, (k, s) in enumerate(back)], env0)
                bk = ZERO
                for k, s in back: bk = ite(bk, ONE, k)
                cond = ite(cond, bk, ZERO)
                st = bs
            raise Unsupported('finite iteration too long')
        ctx = LoopCtx('sum', dict(st.store), ('v',))
        def runner(s):
            o, s = self.inext(c, p, s)
            if s is None: return []
            out = []
            def go(o, s, cond):
                sk = c.m.skipcond(o)
                if sk is ONE: out.append((cond, 'back', s)); return
                if sk is not ZERO:
                    e = assume(s.env, sk, True)
                    if e is not None: out.append((ite(cond, sk, ZERO), 'back', State(dict(s.store), e)))
                    e = assume(s.env, sk, False)
                    if e is None: return
                    go(restrict(self.noskip(o), e), State(dict(s.store), e), ite(cond, ite(sk, ZERO, ONE), ZERO)); return
                k = truth(restrict(is_(o, 1, 2), s.env))
                if k is not ZERO:
                    e = assume(s.env, k, True)
                    if e is not None:
                        s2 = State(dict(s.store), e)
                        for kk, t, s3 in body(s2, fld(restrict(o, e), 1, 0)): out.append((ite(ite(cond, k, ZERO), kk, ZERO), t, s3))
                if k is not ONE:
                    e = assume(s.env, k, False)
                    if e is not None: out.append((ite(cond, ite(k, ZERO, ONE), ZERO), 'done', State(dict(s.store), e)))
            go(o, s, ONE)
            return out
        return m.summarise(ctx, st, runner, where=where)
    def inext_plain(self, c, p, st):
        v = c.m.deref(st, p)
        if v.op == 'adt' and v.a[0] in ('@filter', '@filter_map', '@flat_map', '@bind', '@take_while', '@map_while'):
            return self.step(c, p, v, st)
        return self.inext(c, p, st)
    def is_finite_iter(self, v):
        if v.op == 'iter': return self.finite(v.a[0])
        if v.op == 'adt':
            if v.a[0] in ('@opt', '@once'): return True
            if v.a[0] == '@chain': return self.is_finite_iter(v.a[2][0]) and self.is_finite_iter(v.a[2][1])
            if v.a[0] == '@zip': return self.is_finite_iter(v.a[2][0]) or self.is_finite_iter(v.a[2][1])
            if v.a[0] == '@take' and v.a[2][1].op == 'int': return True
            if v.a[0] == 'std::ops::Range': return all(x.op == 'int' for x in v.a[2])
            if v.a[0].startswith('@') and v.a[2]: return self.is_finite_iter(v.a[2][0])
        if v.op == 'ite': return self.is_finite_iter(v.a[1]) and self.is_finite_iter(v.a[2])
        return False
    def merge_exits(self, c, exits, value):
        """join loop exits; value(tag, state) gives the result in each"""
        m = c.m
        outs = []
        for i, (k, t, s) in enumerate(exits):
            s.store[('rv',)] = value(t, s)
            outs.append((k if i < len(exits) - 1 else ONE, s))
        if not outs: return UNREACH, None
        s = m.merge_arms(c.fr, outs, c.st.env)
        if s is None: return UNREACH, None
        return s.store.pop(('rv',)), s
    def find_loop(self, c, p, st, test):
        """first item x with test(state,x) -> (cond, state, value); returns (Option value, state)"""
        m = c.m
        v = m.deref(st, p)
        if v.op == 'adt' and v.a[0] == '@chain':
            return self.chain_do(c, p, st, lambda q, s: self.find_loop(c, q, s, test), True)
        slot = m.newcell(st, NONE)
        def body(s, x):
            k, s, val = test(s, x)
            if s is None: return []
            k = truth(restrict(k, s.env))
            out = []
            if k is not ZERO:
                e = assume(s.env, k, True)
                if e is not None:
                    s2 = State(dict(s.store), e); m.assign(s2, slot, some(val)); out.append((k, 'hit', s2))
            if k is not ONE:
                e = assume(s.env, k, False)
                if e is not None: out.append((ite(k, ZERO, ONE), 'back', State(s.store, e)))
            return out
        ex = self.vloop(c, p, st, body, 'search')
        return self.merge_exits(c, ex, lambda t, s: m.deref(s, slot) if t == 'hit' else NONE)
    def chain_do(self, c, p, st, f, first):
        m = c.m
        v = m.deref(st, p)
        o, st = f(self.field_ptr(m, p, v, 0), st)
        if st is None: return UNREACH, None
        return self.on_option(m, st, o, lambda s, x: (some(x), s), lambda s: f(self.field_ptr(m, p, v, 1), s))
    def each(self, c, p, st, body, init):
        """run body(state, item) -> state on every item (no early exit)"""
        m = c.m
        v = m.deref(st, p)
        if v.op == 'adt' and v.a[0] == '@chain':
            for i in (0, 1):
                st = self.each(c, self.field_ptr(m, p, v, i), st, body, init)
                if st is None: return None
            return st
        if v.op == 'adt' and v.a[0] == '@map' and v.a[2][0].op == 'adt' and v.a[2][0].a[0] == '@chain':
            f = self.field_ptr(m, p, v, 1); inner = self.field_ptr(m, p, v, 0)
            def b2(s, x):
                r, s = self.apply(c, f, [x], s)
                return body(s, r) if s is not None else None
            return self.each(c, inner, st, b2, init)
        def b(s, x):
            s = body(s, x)
            return [] if s is None else [(ONE, 'back', s)]
        ex = self.vloop(c, p, st, b, 'iteration')
        r, s = self.merge_exits(c, ex, lambda t, s: UNIT)
        return s
    def collect(self, c, itv, st, tyid):
        m = c.m
        n = self.tname(m, tyid) if tyid is not None else 'std::vec::Vec'
        p = itv if itv.op == 'ptr' else m.newcell(st, itv)
        if n in ('std::vec::Vec', 'smallvec::SmallVec', 'std::collections::VecDeque'):
            acc = m.newcell(st, NIL)
            def body(s, x):
                m.assign(s, acc, lst((m.deref(s, acc), one(x)))); return s
            s = self.each(c, p, st, body, NIL)
            return (m.deref(s, acc), s) if s is not None else (UNREACH, None)
        if n == 'std::boxed::Box': return self.collect(c, itv, st, None)
        if n == 'std::string::String' or n == 'std::borrow::Cow':
            acc = m.newcell(st, EMPTY)
            def body(s, x):
                m.assign(s, acc, cat(m.deref(s, acc), to_str(m.deep(s, x)))); return s
            s = self.each(c, p, st, body, EMPTY)
            return (m.deref(s, acc), s) if s is not None else (UNREACH, None)
        if n in (OPTION, RESULT):
            good = 1 if n == OPTION else 0
            inner = m.ty(tyid)['a'][0]
            it = self.tname(m, inner)
            acc = m.newcell(st, EMPTY if it == 'std::string::String' else NIL)
            slot = m.newcell(st, NONE)
            def body(s, x):
                k = truth(restrict(is_(x, good, 2), s.env))
                out = []
                e = assume(s.env, k, False) if k is not ONE else None
                if e is not None:
                    s2 = State(dict(s.store), e); m.assign(s2, slot, restrict(x, e)); out.append((ite(k, ZERO, ONE), 'bad', s2))
                e = assume(s.env, k, True) if k is not ZERO else None
                if e is not None:
                    s2 = State(dict(s.store), e)
                    y = fld(restrict(x, e), good, 0)
                    a = m.deref(s2, acc)
                    m.assign(s2, acc, cat(a, to_str(y)) if it == 'std::string::String' else lst((a, one(y))))
                    out.append((k, 'back', s2))
                return out
            ex = self.vloop(c, p, st, body, 'collect')
            def val(t, s):
                if t == 'bad':
                    x = m.deref(s, slot)
                    return NONE if n == OPTION else err(fld(x, 1, 0))
                return adt(n, good, (m.deref(s, acc),))
            return self.merge_exits(c, ex, val)
        raise Unsupported('collect into ' + str(n))

    def iterator_call(self, c, name):
        m, st = c.m, c.st
        a = c.args
        f = I_.get(name)
        if f is None: return None
        # user-defined iterators with their own bodies keep them
        if c.info.get('rp') and c.info.get('cr') in ('tmi', 'vharness') and name == 'next': return None
        self.used['Iterator::' + name] = self.used.get('Iterator::' + name, 0) + 1
        return f(self, c)
    # fmt
    def render_args(self, c, av, st):
        """string for a fmt::Arguments value"""
        m = c.m
        av = m.deep(st, av)
        if av.op == 'ite':
            return self.branch(m, st, av.a[0], lambda s: self.render_args(c, av.a[1], s), lambda s: self.render_args(c, av.a[2], s))
        if av.op == 'adt' and av.a[0] == '@fmtargs':
            tmpl, args = av.a[2]
            if tmpl.op != 'str': raise Unsupported('non-constant format template')
            parts = []
            for p in parse_template(tmpl.a[0]):
                if p[0] == 'lit': parts.append(TM.st(p[1]))
                else:
                    x = args.a[0][p[1]]
                    r, st = self.render_one(c, x, st)
                    if st is None: return UNREACH, None
                    if p[2][0] not in (None, 0xE0000020) or p[2][1] or p[2][2] is not None or p[2][3]:
                        r = app('fmtspec', r, TM.st(repr(p[2])))
                    parts.append(r)
            return cat(*parts), st
        if av.op == 'str': return av, st
        return app('fmtargs', av), st
    def render_one(self, c, x, st):
        m = c.m
        x = m.deep(st, x)
        if x.op == 'ite':
            return self.branch(m, st, x.a[0], lambda s: self.render_one(c, x.a[1], s), lambda s: self.render_one(c, x.a[2], s))
        if x.op != 'adt' or x.a[0] != '@fmtarg': return app('fmt', x), st
        trait, inst, v = x.a[2]
        return self.display(c, trait.a[0].decode(), inst.a[0], v, st)
    def display(self, c, trait, inst, v, st):
        m = c.m
        path = m.p.insts[inst]['path'] if inst >= 0 else ''
        body = m.p.body(inst) if inst >= 0 else None
        v = m.deep(st, v)
        if trait == 'Display':
            if inst >= 0:
                ty = self.disp_type(m, inst)
                if ty in ('str', 'std::string::String', 'std::borrow::Cow'): return v, st
                if ty == 'char': return to_str(v), st
                if ty in RANGE: return (TM.st(str(v.a[0])) if v.op == 'int' else app('dec', v)), st
            if body is not None and m.p.insts[inst]['cr'] in ('tmi', 'vharness'):
                cell = m.newcell(st, EMPTY)
                r, st = m.call_inst(inst, [v, cell], st)
                if st is None: return UNREACH, None
                return m.deref(st, cell), st
        return app('fmt:%s:%s' % (trait, path), m.deep_value(st, v)), st
    def disp_type(self, m, inst):
        b = m.p.body(inst)
        i = m.p.insts[inst]
        path = i['path']
        mm = re.match(r'<(.+) as std::fmt::\w+>::fmt$', path)
        if mm:
            t = mm.group(1)
            if t in ('&T', '&mut T'):
                ty = m.p.insts[inst]['a']
                if ty: return self.tyname_peel(m, ty[0])
            if t.startswith('std::borrow::Cow'): return 'std::borrow::Cow'
            if t == 'std::boxed::Box<T, A>': return self.tyname_peel(m, i['a'][0])
            return t
        mm = re.search(r'<impl std::fmt::Display for (\w+)>::fmt', path)
        if mm: return mm.group(1)
        return None
    def tyname_peel(self, m, tyid):
        return self.tname(m, m.peel(tyid))

# ================================================================ handlers
def h_id0(S, c): return c.m.deep(c.st, c.args[0]) if c.args[0].op == 'ptr' else c.args[0]
def h_raw0(S, c): return c.args[0]

# ---- references and conversions that do not change the value
@model('std::ops::Deref::deref', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::borrow::ToOwned::to_owned',
       'std::string::String::as_str', 'core::str::<impl str>::as_bytes', 'std::string::String::as_bytes', 'std::string::String::into_bytes', 'std::slice::<impl [T]>::to_vec', 'std::vec::Vec::<T, A>::as_slice',
       'std::string::String::into_boxed_str', 'std::borrow::Cow::<\'_, B>::into_owned', 'core::str::<impl str>::to_string', 'std::str::<impl str>::to_owned',
       'std::slice::<impl [T]>::into_vec', 'std::vec::Vec::<T, A>::into_boxed_slice', 'std::str::<impl str>::into_string', 'core::str::<impl str>::as_str', 'std::hint::must_use', 'core::hint::must_use', 'std::hint::black_box',
       'std::boxed::Box::<T>::new', 'std::sync::Arc::<T>::new', 'std::rc::Rc::<T>::new', 'std::cell::RefCell::<T>::new', 'std::cell::Cell::<T>::new', 'core::slice::<impl [T]>::as_slice', 'std::cell::RefCell::<T>::into_inner',
       'core::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_slice', 'std::vec::Vec::<T, A>::into_iter_noop', 'std::string::String::from_utf8_unchecked', 'core::str::from_utf8_unchecked', 'std::str::from_utf8_unchecked',
       'std::mem::ManuallyDrop::<T>::new', 'std::mem::ManuallyDrop::<T>::into_inner', 'core::str::<impl str>::as_ref', 'std::string::String::as_mut_str', 'std::pin::Pin::<Ptr>::get_ref')
def h_ident(S, c):
    a = c.args[0]
    p = c.info['p']
    if c.info.get('cr') in ('tmi', 'vharness') and c.info.get('i') is not None and c.m.p.insts[c.info['i']]['cr'] in ('tmi', 'vharness'): return None
    if c.info.get('i') is not None and c.m.p.insts[c.info['i']]['cr'] == 'tmi': return None
    if c.info.get('tr') == 'std::convert::AsRef' and c.info['a']:
        t = c.m.ty(c.m.peel(c.info['a'][0]))
        if t['k'] == 'adt' and t['n'].startswith('tmi::'): return None
    return c.m.deep(c.st, a) if a.op == 'ptr' and not _cellptr(c, a) else a
def _cellptr(c, a): return a.a[2] is not None and c.m.is_cellty(a.a[2])
@model('std::ops::DerefMut::deref_mut', 'std::pin::Pin::<Ptr>::new_unchecked', 'std::pin::Pin::<&\'a mut T>::get_unchecked_mut', 'std::pin::Pin::<&\'a mut T>::get_mut', 'std::pin::Pin::<Ptr>::as_mut', 'std::convert::AsMut::as_mut', 'std::pin::Pin::<Ptr>::new', 'std::borrow::BorrowMut::borrow_mut', 'std::future::get_context')
def h_mutident(S, c):
    if c.info['p'] == 'std::pin::Pin::<Ptr>::as_mut':
        a = c.args[0]
        v = c.m.deref(c.st, a) if a.op == 'ptr' else a
        return v if v.op == 'ptr' else a
    return c.args[0]
@model('std::prelude::v1::Some', 'std::option::Option::Some')
def _(S, c): return some(c.args[0])
@model('std::prelude::v1::Ok', 'std::result::Result::Ok')
def _(S, c): return ok(c.args[0])
@model('std::prelude::v1::Err', 'std::result::Result::Err')
def _(S, c): return adt(RESULT, 1, (c.args[0],))
@model('std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::borrow_mut', 'std::cell::Cell::<T>::as_ptr', 'std::cell::RefCell::<T>::get_mut')
def h_refcell(S, c): return c.args[0]
@model('std::borrow::Cow::<\'_, B>::to_mut')
def h_tomut(S, c): return c.args[0]
@model('std::borrow::Cow::<\'_, B>::is_borrowed')
def h_cowb(S, c): return ieq(S.cow_discr(c.m, c.m.deep(c.st, c.args[0])), ZERO)
@model('std::borrow::Cow::<\'_, B>::is_owned')
def h_cowo(S, c): return ieq(S.cow_discr(c.m, c.m.deep(c.st, c.args[0])), ONE)

IDENT_CONV = {'std::string::String', 'std::borrow::Cow', 'str', 'std::boxed::Box', 'std::sync::Arc', 'std::vec::Vec', 'slice'}
@model('std::convert::From::from', 'std::convert::Into::into', 'std::string::ToString::to_string')
def h_from(S, c):
    m = c.m
    i = c.info.get('i')
    if c.info['p'].endswith('from'):
        dst = c.info['a'][0] if c.info['a'] else c.rty; src = c.info['a'][1] if len(c.info['a']) > 1 else (c.atys[0] if c.atys else None)
    else:
        src = c.info['a'][0] if c.info['a'] else None
        dst = c.info['a'][1] if len(c.info['a']) > 1 else c.rty
    if i is not None and m.p.insts[i]['cr'] in ('tmi', 'vharness'): return None
    if src is None: return None
    sn = S.tyname_peel(m, src)
    if c.info['p'] == 'std::string::ToString::to_string':
        v = m.deep(c.st, c.args[0])
        if sn in ('str', 'std::string::String', 'std::borrow::Cow'): return v
        if sn == 'char': return to_str(v)
        if sn in RANGE: return TM.st(str(v.a[0])) if v.op == 'int' else app('dec', v)
        # the type's Display impl
        for k in m.p.bypath.get('<%s as std::fmt::Display>::fmt' % sn, ()): pass
        j = S.find_display(m, src)
        if j is not None: return S.display(c, 'Display', j, v, c.st)
        if sn and '::' in sn and not sn.startswith(('tmi::', 'vharness')): return app('fmt:Display:<%s as std::fmt::Display>::fmt' % sn, m.deep_value(c.st, v))
        return None
    if dst is None: return None
    dn = S.tname(m, dst)
    if src == dst: return c.args[0]
    if dn in IDENT_CONV and sn in IDENT_CONV: return m.deep(c.st, c.args[0])
    if dn in IDENT_CONV and sn == 'char': return to_str(c.args[0])
    if dn in RANGE and sn in RANGE: return c.args[0]
    if dn == OPTION: return some(c.args[0])
    return None
def find_display(self, m, tyid):
    tn = m.ty(m.peel(tyid))
    for k, i in enumerate(m.p.insts):
        if i['path'].endswith('as std::fmt::Display>::fmt') and i['cr'] == 'tmi' and m.p.body(k):
            b = m.p.body(k)
            if m.ty(m.peel(b.locals[1]))['s'].split('<')[0] == tn['s'].split('<')[0]: return k
    return None
Models.find_display = find_display

@model('std::clone::Clone::clone')
def h_clone(S, c):
    i = c.info.get('i')
    if i is not None and c.m.p.insts[i]['cr'] in ('tmi', 'vharness') and c.m.p.body(i): return None
    if i is not None and c.info['rp'] in ('<std::option::Option<T> as std::clone::Clone>::clone',) and c.m.p.body(i):
        t = c.m.ty(c.info['a'][0])
        inner = c.m.ty(c.m.peel(t['a'][0])) if t['k'] == 'adt' and t['a'] else None
        if inner is not None and inner['k'] == 'adt' and inner['n'].startswith('tmi::'): return None
    if S.keep_cow(c) and c.info['rp'].startswith('<std::borrow::Cow'): 
        v = c.m.deep(c.st, c.args[0])
        return v
    return c.m.deep(c.st, c.args[0])
Models.keep_cow = lambda self, c: c.m.keep_cow

# ---- comparison
def str_type(S, m, tyid):
    return tyid is not None and S.tyname_peel(m, tyid) in ('str', 'std::string::String', 'std::borrow::Cow')
@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def h_eq(S, c):
    m = c.m
    i = c.info.get('i')
    a, b = m.deep(c.st, c.args[0]), m.deep(c.st, c.args[1])
    ta = c.info['a'][0] if c.info['a'] else (c.atys[0] if c.atys else None)
    neg_ = c.info['p'].endswith('::ne')
    if ta is None: return None
    n = S.tyname_peel(m, ta)
    if n in RANGE or n == 'std::time::Duration': r = ieq(a, b)
    elif n in ('str', 'std::string::String', 'std::borrow::Cow'): r = eq(a, b)
    elif n in ('slice', 'array', 'std::vec::Vec'): r = eq(as_list(a), as_list(b)) if not (a.op == 'str' or b.op == 'str') else eq(a, b)
    elif i is not None and m.p.body(i) and not neg_: return None
    elif i is not None and m.p.body(i): return None
    else:
        t = m.ty(m.peel(ta))
        if t['k'] == 'adt' and t['ak'] == 'enum' and all(not v['f'] for v in t['v']):
            r = ieq(discr(a, len(t['v'])), discr(b, len(t['v'])))
        else: r = eq(a, b)
    return ite(truth(r), ZERO, ONE) if neg_ else r
@model('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge', 'std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp', 'std::cmp::Ord::min', 'std::cmp::Ord::max', 'std::cmp::min', 'std::cmp::max', 'std::cmp::Ord::clamp')
def h_cmp(S, c):
    m = c.m
    if 'tracing_core::metadata::LevelFilter' in (c.info.get('rp') or ''): return ONE if c.m.opts.get('logs') else ZERO   # logging is analysed by C19 only
    ta = c.info['a'][0] if c.info['a'] else None
    if ta is None: return None
    n = S.tyname_peel(m, ta)
    if n not in RANGE and n != 'std::time::Duration': return None
    a, b = m.deep(c.st, c.args[0]), m.deep(c.st, c.args[1])
    k = c.info['p'].rsplit('::', 1)[1]
    if k == 'lt': return lt(a, b)
    if k == 'le': return le(a, b)
    if k == 'gt': return lt(b, a)
    if k == 'ge': return le(b, a)
    if k == 'min': return ite(truth(le(a, b)), a, b)
    if k == 'max': return ite(truth(le(a, b)), b, a)
    if k == 'clamp':
        hi = m.deep(c.st, c.args[2])
        return ite(truth(lt(a, b)), b, ite(truth(lt(hi, a)), hi, a))
    o = ite(truth(lt(a, b)), adt(ORDERING, 0, ()), ite(truth(ieq(a, b)), adt(ORDERING, 1, ()), adt(ORDERING, 2, ())))
    NVAR.setdefault(ORDERING, 3)
    return o if k == 'cmp' else some(o)
@model('core::str::<impl str>::eq_ignore_ascii_case')
def h_eqic(S, c): return truth(app('eq_ignore_case', S.val(c, 0), S.val(c, 1)))

# ---- strings
@model('core::str::<impl str>::len', 'std::string::String::len', 'core::slice::<impl [T]>::len', 'std::vec::Vec::<T, A>::len', 'smallvec::SmallVec::<A>::len', 'std::iter::ExactSizeIterator::len')
def h_len(S, c):
    v = S.val(c, 0)
    if v.op == 'iter': return sub(length(v.a[0]), num(v.a[1]))
    if v.op == 'adt' and v.a[0] == '@bind': return length(lst((mk('many', v.a[2][0].a[0], v.a[2][1].a[1], v.a[2][1].a[2]),)))
    if v.op == 'adt' and v.a[0].startswith('@'): return None
    return length(v)
@model('core::str::<impl str>::is_empty', 'std::string::String::is_empty', 'core::slice::<impl [T]>::is_empty', 'std::vec::Vec::<T, A>::is_empty', 'smallvec::SmallVec::<A>::is_empty')
def h_isempty(S, c):
    v = S.val(c, 0)
    return ieq(length(v), ZERO)
@model('core::str::<impl str>::starts_with')
def h_starts(S, c): return S.patpred(c, 'starts')
@model('core::str::<impl str>::ends_with')
def h_ends(S, c): return S.patpred(c, 'ends')
@model('core::str::<impl str>::contains')
def h_contains(S, c): return S.patpred(c, 'contains')
def patpred(self, c, n):
    s = self.val(c, 0); p = c.m.deep(c.st, c.args[1])
    if p.op in ('clo', 'arr', 'fn', 'list'): return truth(app(n + '_by', s, c.m.deep_value(c.st, p)))
    return pred(n, s, to_str(p))
Models.patpred = patpred
def pat(S, c, i=1):
    p = c.m.deep(c.st, c.args[i])
    if p.op in ('clo', 'arr', 'fn', 'list'): return None
    return to_str(p)
def byp(S, c, n, i=1):
    """string function with a non-constant pattern"""
    r = app(n, S.val(c, 0), c.m.deep_value(c.st, c.args[i]))
    return r
@model('core::str::<impl str>::find')
def h_find(S, c):
    p = pat(S, c)
    return byp(S, c, 'sfind_by') if p is None else sfind(S.val(c, 0), p)
@model('core::str::<impl str>::rfind')
def h_rfind(S, c):
    p = pat(S, c)
    if p is None: return byp(S, c, 'rfind_by')
    r = app('rfind', S.val(c, 0), p)
    if r.op == 'app': SORT.setdefault(mk('fld', r, 1, 0), 'usize')
    return r
@model('core::str::<impl str>::split_once')
def h_split_once(S, c):
    p = pat(S, c)
    return byp(S, c, 'split_once_by') if p is None else lift(split_once, (S.val(c, 0), p))
@model('core::str::<impl str>::rsplit_once')
def h_rsplit_once(S, c):
    p = pat(S, c)
    return byp(S, c, 'rsplit_once_by') if p is None else lift(rsplit_once, (S.val(c, 0), p))
@model('core::str::<impl str>::strip_prefix')
def h_strip_prefix(S, c):
    p = pat(S, c)
    return byp(S, c, 'strip_prefix_by') if p is None else lift(strip_prefix, (S.val(c, 0), p))
@model('core::str::<impl str>::strip_suffix')
def h_strip_suffix(S, c):
    p = pat(S, c)
    return byp(S, c, 'strip_suffix_by') if p is None else lift(strip_suffix, (S.val(c, 0), p))
@model('core::str::<impl str>::split')
def h_split(S, c):
    p = pat(S, c)
    x = app('split', S.val(c, 0), p) if p is not None else byp(S, c, 'split_by')
    return lift(lambda x: mk('iter', x, 0), (x,))
@model('core::str::<impl str>::splitn')
def h_splitn(S, c):
    n = c.args[1]; p = pat(S, c, 2)
    if p is None or n.op != 'int': return None
    return mk('iter', app('splitn', S.val(c, 0), p, n), 0)
@model('core::str::<impl str>::split_whitespace', 'core::str::<impl str>::split_ascii_whitespace')
def h_splitws(S, c):
    return lift(lambda x: mk('iter', x, 0), (app('split_ws' if 'ascii' not in c.info['p'] else 'split_aws', S.val(c, 0)),))
@model('core::str::<impl str>::chars')
def h_chars(S, c): return mk('iter', app('chars', S.val(c, 0)), 0)
@model('core::str::<impl str>::bytes')
def h_bytes(S, c): return mk('iter', app('bytes', S.val(c, 0)), 0)
@model('core::str::<impl str>::char_indices')
def h_ci(S, c): return mk('iter', app('char_indices', S.val(c, 0)), 0)
@model('core::str::<impl str>::lines')
def h_lines(S, c): return mk('iter', app('lines', S.val(c, 0)), 0)
for _n in ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'is_ascii', 'trim_start_matches', 'trim_end_matches', 'trim_matches', 'replace', 'repeat', 'replacen', 'trim_ascii'):
    def _f(S, c, n=_n):
        r = app('str:' + n, S.val(c, 0), *[c.m.deep_value(c.st, x) for x in c.args[1:]])
        return r
    for _pre in ('core::str::<impl str>::', 'std::str::<impl str>::'): H[_pre + _n] = _f
@model('core::str::<impl str>::parse')
def h_parse(S, c): return None
@model('std::str::FromStr::from_str')
def h_fromstr(S, c):
    i = c.info.get('i')
    if i is not None and c.m.p.insts[i]['cr'] in ('tmi', 'vharness'): return None
    t = c.m.ty(c.info['a'][0])
    n = t.get('n') or t['k']
    if n == 'std::string::String': return ok(S.val(c, 0))
    return parse_prim(n, S.val(c, 0))
@model('core::str::<impl str>::is_char_boundary')
def h_icb(S, c):
    s = S.val(c, 0)
    return ONE if S.boundary_ok(c.st, s, c.args[1]) and S.known_le(c.m, c.st, c.args[1], length(s)) else pred('is_char_boundary', s, c.args[1])
@model('core::str::<impl str>::get')
def h_strget(S, c):
    m = c.m
    s = S.val(c, 0)
    ab = S.bounds_of(c, c.args[1], s, c.info['a'][0] if c.info['a'] else c.atys[1])
    if ab is None: return None
    a, b = ab
    if S.boundary_ok(c.st, s, a) and S.boundary_ok(c.st, s, b):
        return ite(ite(le(a, b), le(b, length(s)), ZERO), some(sl(s, a, b)), NONE)
    at = lambda i: ONE if S.boundary_ok(c.st, s, i) else pred('is_char_boundary', s, i)
    return ite(ite(le(a, b), ite(le(b, length(s)), ite(at(a), at(b), ZERO), ZERO), ZERO), some(sl(s, a, b)), NONE)
def bounds_of(self, c, r, s, tyid):
    m = c.m
    t = m.ty(m.peel(tyid)) if tyid is not None else None
    n = t.get('n') if t and t['k'] == 'adt' else None
    if n is None: return None
    f = lambda i: fld(r, None, i)
    for i in range(2):
        x = fld(r, None, i) if not (r.op == 'adt' and len(r.a[2]) <= i) else None
        if x is not None: SORT.setdefault(x, 'usize')
    if n == 'std::ops::Range': return f(0), f(1)
    if n == 'std::ops::RangeFrom': return f(0), length(s)
    if n == 'std::ops::RangeTo': return ZERO, f(0)
    if n == 'std::ops::RangeFull': return ZERO, length(s)
    if n == 'std::ops::RangeToInclusive': return ZERO, add(f(0), ONE)
    return None
Models.bounds_of = bounds_of
@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def h_index(S, c):
    m = c.m
    i = c.info.get('i')
    if i is not None and m.p.insts[i]['cr'] in ('tmi', 'vharness'): return None
    st_ = c.info['a'][0]; it = c.info['a'][1] if len(c.info['a']) > 1 else c.atys[1]
    sn = S.tyname_peel(m, st_)
    inn = S.tname(m, it)
    if inn in RANGE:
        if c.info['p'].endswith('index_mut') or c.args[0].op == 'ptr':
            p = c.args[0]
            if p.op == 'ptr':
                v = m.deref(c.st, p)
                if v.op == 'ptr': p = v; v = m.deref(c.st, p)
                S.check_index(c, v, c.args[1], st_)
                if c.info['p'].endswith('index_mut'): return mk('ptr', p.a[0], p.a[1] + (('i', c.args[1]),), m.elem_ty(st_))
        v = S.val(c, 0)
        if S.check_index(c, v, c.args[1], st_) is None: return UNREACH, None
        r = m.index(v, c.args[1])
        return r
    v = S.val(c, 0)
    ab = S.bounds_of(c, c.args[1], v, it)
    if ab is None: raise Unsupported('index by ' + str(inn))
    if c.info['p'].endswith('index_mut'): raise Unsupported('mutable subslice')
    return S.slice_str(c, v, ab[0], ab[1], 'slice' if sn in ('str', 'std::string::String') else 'bytes')
def check_index(self, c, v, i, tyid):
    m, st = c.m, c.st
    cond = truth(restrict(lt(i, length(v)), st.env))
    t = m.ty(m.peel(tyid)) if tyid is not None else None
    if t and t['k'] == 'array' and t.get('len') is not None: cond = truth(restrict(lt(i, num(int(t['len']))), st.env))
    if cond is ONE: return True
    if cond is ZERO:
        m.panic_at(c.fr, st, c.b, 'index', (v, i)); return None
    e = assume(st.env, cond, False)
    if e is not None: m.panic_at(c.fr, State(st.store, e), c.b, 'index', (v, i))
    st.env = assume(st.env, cond, True) or st.env
    return True
Models.check_index = check_index
@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::first')
def h_get(S, c):
    m = c.m
    v = S.val(c, 0)
    if c.info['p'].endswith('first'): i = ZERO; n = 'usize'
    else:
        i = c.args[1]; n = S.tname(m, c.info['a'][-1] if c.info['a'] else c.atys[1])
    if n not in RANGE:
        ab = S.bounds_of(c, i, v, c.info['a'][-1])
        if ab is None: return None
        a, b = ab
        return ite(ite(le(a, b), le(b, length(v)), ZERO), some(sl(v, a, b)), NONE)
    c0 = truth(lt(i, length(v)))
    return ite(c0, some(m.index(v, i)), NONE)
@model('core::slice::<impl [T]>::last')
def h_last_(S, c):
    v = S.val(c, 0)
    return ite(ieq(length(v), ZERO), NONE, some(c.m.index(v, sub(length(v), ONE))))
@model('core::slice::<impl [T]>::contains')
def h_scontains(S, c):
    p = c.m.newcell(c.st, list_iter(S.val(c, 0)))
    x = S.val(c, 1)
    r, s = S.find_loop(c, p, c.st, lambda s, e: (eq(e, x), s, e))
    return (is_(r, 1, 2), s) if s is not None else (UNREACH, None)
@model('core::slice::<impl [T]>::starts_with')
def h_sstarts(S, c): return pred('starts', S.val(c, 0), S.val(c, 1))
@model('core::slice::<impl [T]>::ends_with')
def h_sends(S, c): return pred('ends', S.val(c, 0), S.val(c, 1))
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def h_iter(S, c):
    if c.info['p'].endswith('iter_mut'): raise Unsupported('mutable iteration')
    return list_iter(S.val(c, 0))
@model('std::slice::<impl [S]>::join', 'std::slice::<impl [T]>::join', 'std::slice::<impl [V]>::join')
def h_join(S, c):
    l = as_list(S.val(c, 0)); sep = to_str(S.val(c, 1))
    if S.finite(l):
        parts = []
        for i, x in enumerate(l.a[0]):
            if i: parts.append(sep)
            parts.append(x.a[0])
        return cat(*parts)
    if l.op == 'list' and len(l.a[0]) == 1 and l.a[0][0].op == 'many' and l.a[0][0].a[1] == 0:
        # the first, and then `sep x` for each of the others
        Sq, lvl, b = l.a[0][0].a; e = mk('elem', Sq, lvl)
        if b.op == 'list' and len(b.a[0]) == 1 and b.a[0][0].op == 'one':
            x = b.a[0][0].a[0]; out = []
            rest = Sq
            if Sq.op == 'list' and len(Sq.a[0]) > 1 and all(p.op == 'one' for p in Sq.a[0][:-1]) and Sq.a[0][-1].op == 'sub':
                for i, p in enumerate(Sq.a[0][:-1]): out += ([sep] if i else []) + [TM.subst(x, {e: p.a[0]})]
                rest = Sq.a[0][-1].a[0]
            elif Sq.op in ('sym', 'fld') or Sq.op == 'app' and Sq.a[0] not in ('chain', 'zip'):
                o = S.nth_of(Sq, 0, c.m)
                out.append(ite(is_(o, 1, 2), TM.subst(x, {e: fld(o, 1, 0)}), EMPTY))
                rest = app('drop', Sq, num(1))
            if rest is not Sq: return cat(*out, mk('many', rest, 0, cat(sep, TM.subst(x, {e: elem(rest, 0)}))))
    return joined(l, sep)
@model('std::slice::<impl [T]>::concat', 'std::slice::<impl [V]>::concat')
def h_concat(S, c):
    l = as_list(S.val(c, 0))
    p = c.m.newcell(c.st, list_iter(l))
    return S.collect_str(c, p)
def joined(l, sep): return lift(lambda l, s: mk('app', 'joined', (l, s)), (l, sep))
# ---- String building
def sappend(S, c, ptr, x):
    m = c.m
    old = m.deref(c.st, ptr)
    m.assign(c.st, ptr, cat(old, x))
@model('std::string::String::push_str', 'std::string::String::push', 'std::string::String::extend_from_within_noop')
def h_push_str(S, c):
    sappend(S, c, c.args[0], to_str(S.val(c, 1))); return UNIT
@model('std::fmt::Write::write_str', 'std::fmt::Write::write_char', 'std::fmt::Formatter::<\'a>::write_str', 'std::fmt::Formatter::<\'a>::write_char')
def h_write_str(S, c):
    i = c.info.get('i')
    if i is not None and c.m.p.insts[i]['cr'] in ('tmi', 'vharness'): return None
    p = c.args[0]
    v = c.m.deref(c.st, p) if p.op == 'ptr' else p
    if v.op == 'ptr': p = v
    sappend(S, c, p, to_str(S.val(c, 1))); return ok(UNIT)
@model('std::fmt::Formatter::<\'a>::pad')
def h_pad(S, c): return h_write_str(S, c)
@model('std::fmt::Write::write_fmt', 'std::fmt::Formatter::<\'a>::write_fmt')
def h_write_fmt(S, c):
    p = c.args[0]
    r, st2 = S.render_args(c, c.args[1], c.st)
    if st2 is None: return UNREACH, None
    v = c.m.deref(st2, p) if p.op == 'ptr' else p
    if v.op == 'ptr': p = v
    c.st = st2
    sappend(S, c, p, r)
    return ok(UNIT), st2
@model('std::fmt::Display::fmt')
def h_display_fmt(S, c):
    # printed into the given formatter
    m, i = c.m, c.info.get('i')
    if i is not None and m.p.insts[i]['cr'] in ('tmi', 'vharness'): return None
    r, st2 = S.display(c, 'Display', i if i is not None else -1, c.args[0], c.st)
    if st2 is None: return UNREACH, None
    c.st = st2
    p = c.args[1]
    v = m.deref(st2, p) if p.op == 'ptr' else p
    if v.op == 'ptr': p = v
    if p.op != 'ptr': return None
    sappend(S, c, p, r)
    return ok(UNIT), st2
@model('std::fmt::format', 'alloc::fmt::format')
def h_format(S, c): return S.render_args(c, c.args[0], c.st)
@model('std::fmt::Arguments::<\'a>::new', 'core::fmt::rt::<impl std::fmt::Arguments<\'a>>::new_v1')
def h_args_new(S, c):
    t = c.m.deep(c.st, c.args[0]); a = c.m.deep(c.st, c.args[1])
    if t.op == 'arr' and all(x.op == 'int' for x in t.a[0]): t = TM.st(bytes(x.a[0] for x in t.a[0]))
    return adt('@fmtargs', 0, (t, a))
@model('std::fmt::Arguments::<\'a>::from_str', 'std::fmt::Arguments::<\'a>::new_const', 'std::fmt::Arguments::<\'a>::from_str_nonconst')
def h_args_str(S, c): return c.m.deep(c.st, c.args[0])
def _mkarg(trait):
    def f(S, c):
        inst = -1
        i = c.info.get('i')
        b = c.m.p.body(i) if i is not None else None
        if b:
            for blk in b.blocks:
                for s in blk['s']:
                    if s[0] == '=' and s[2][0] == 'cast' and s[2][2][0] == 'k' and s[2][2][2][0] == 'fn':
                        k = s[2][2][2][1]
                        if k['i'] is not None: inst = k['i']
                        # look through references
        inst = S.see_through(c.m, inst)
        return adt('@fmtarg', 0, (TM.st(trait), num(inst), c.m.deep(c.st, c.args[0])))
    return f
def see_through(self, m, inst):
    n = 0
    while inst >= 0 and n < 6 and m.p.insts[inst]['path'] in ('<&T as std::fmt::Display>::fmt', '<&T as std::fmt::Debug>::fmt', '<&mut T as std::fmt::Display>::fmt'):
        n += 1
        b = m.p.body(inst); nx = -1
        if b:
            for blk in b.blocks:
                t = blk['t']
                if t[0] == 'call' and t[1][0] == 'k' and t[1][2][0] == 'fn' and t[1][2][1]['p'].endswith('::fmt') and t[1][2][1]['i'] is not None: nx = t[1][2][1]['i']
        if nx < 0: break
        inst = nx
    return inst
Models.see_through = see_through
H['core::fmt::rt::Argument::<\'_>::new_display'] = _mkarg('Display')
H['core::fmt::rt::Argument::<\'_>::new_debug'] = _mkarg('Debug')
@model('std::string::String::new', 'std::string::String::with_capacity', 'std::string::String::default_noop')
def h_snew(S, c): return EMPTY
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'smallvec::SmallVec::<A>::new', 'smallvec::SmallVec::<A>::with_capacity', 'std::vec::Vec::<T, A>::new_in')
def h_vnew(S, c): return NIL
@model('std::default::Default::default')
def h_default(S, c):
    i = c.info.get('i')
    if i is not None and c.m.p.insts[i]['cr'] in ('tmi', 'vharness'): return None
    t = c.m.ty(c.info['a'][0]) if c.info['a'] else c.m.ty(c.rty)
    n = t.get('n') or t['k']
    if n in ('std::vec::Vec', 'smallvec::SmallVec'): return NIL
    if n in ('std::string::String', 'str', 'std::borrow::Cow'): return EMPTY
    if t['k'] == 'ref' and c.m.ty(t['to'])['k'] == 'str': return EMPTY
    if n in RANGE or n == 'std::time::Duration': return ZERO
    if n == OPTION: return NONE
    if t['k'] == 'tuple' and not t['e']: return UNIT
    return None
@model('std::string::String::clear')
def h_clear(S, c): c.m.assign(c.st, c.args[0], EMPTY); return UNIT
@model('std::vec::Vec::<T, A>::clear', 'smallvec::SmallVec::<A>::clear')
def h_vclear(S, c): c.m.assign(c.st, c.args[0], NIL); return UNIT
@model('std::string::String::truncate')
def h_trunc(S, c):
    v = c.m.deref(c.st, c.args[0]); n = c.args[1]
    c.m.assign(c.st, c.args[0], ite(truth(le(length(v), n)), v, sl(v, ZERO, n))); return UNIT
@model('std::string::String::pop')
def h_spop(S, c):
    v = c.m.deref(c.st, c.args[0])
    if v.op == 'str' and v.a[0]:
        t = v.a[0].decode()
        c.m.assign(c.st, c.args[0], TM.st(t[:-1])); return some(num(ord(t[-1])))
    if v.op == 'cat' and v.a[0] and v.a[0][-1].op == 'str':
        t = v.a[0][-1].a[0].decode()
        c.m.assign(c.st, c.args[0], cat(*v.a[0][:-1], TM.st(t[:-1]))); return some(num(ord(t[-1])))
    c.m.assign(c.st, c.args[0], app('str:popped', v))
    return app('str:pop', v)
@model('std::string::String::insert', 'std::string::String::insert_str')
def h_sinsert(S, c):
    v = c.m.deref(c.st, c.args[0]); x = to_str(S.val(c, 2))
    if c.args[1] is ZERO: c.m.assign(c.st, c.args[0], cat(x, v)); return UNIT
    i = c.args[1]
    c.m.assign(c.st, c.args[0], cat(sl(v, ZERO, i), x, sl(v, i, length(v)))); return UNIT
@model('std::string::String::reserve', 'std::vec::Vec::<T, A>::reserve', 'std::string::String::shrink_to_fit', 'std::vec::Vec::<T, A>::shrink_to_fit', 'smallvec::SmallVec::<A>::reserve', 'std::string::String::reserve_exact', 'std::vec::Vec::<T, A>::reserve_exact', 'smallvec::SmallVec::<A>::shrink_to_fit')
def h_noop(S, c): return UNIT
@model('std::vec::Vec::<T, A>::push', 'smallvec::SmallVec::<A>::push')
def h_push(S, c):
    old = c.m.deref(c.st, c.args[0])
    c.m.assign(c.st, c.args[0], lst((old, one(c.args[1])))); return UNIT
@model('std::vec::Vec::<T, A>::extend_from_slice', 'std::vec::Vec::<T, A>::append', 'smallvec::SmallVec::<A>::extend_from_slice')
def h_extend_slice(S, c):
    old = c.m.deref(c.st, c.args[0]); x = S.val(c, 1)
    if c.m.isstr(old) or c.m.isstr(x): c.m.assign(c.st, c.args[0], cat(old if old is not NIL else EMPTY, x))
    else: c.m.assign(c.st, c.args[0], lst((old, as_list(x))))
    if c.info['p'].endswith('append'): c.m.assign(c.st, c.args[1], NIL)
    return UNIT
@model('std::iter::Extend::extend')
def h_extend(S, c):
    m = c.m
    n = S.tyname_peel(m, c.info['a'][0])
    it = S.into_iter_ty(c, c.args[1], c.atys[1] if c.atys else None, c.st)
    if it is None: return None
    p = m.newcell(c.st, it)
    dst = c.args[0]
    def body(s, x):
        o = m.deref(s, dst)
        m.assign(s, dst, cat(o, to_str(m.deep(s, x))) if n == 'std::string::String' else lst((o, one(x)))); return s
    s = S.each(c, p, c.st, body, None)
    return (UNIT, s) if s is not None else (UNREACH, None)
@model('std::iter::FromIterator::from_iter')
def h_from_iter(S, c):
    it = S.into_iter_ty(c, c.args[0], c.atys[0] if c.atys else None, c.st)
    if it is None: return None
    return S.collect(c, it, c.st, c.info['a'][0])
@model('std::vec::Vec::<T, A>::into_iter_', 'std::iter::IntoIterator::into_iter')
def h_into_iter(S, c):
    i = c.info.get('i')
    if i is not None and c.m.p.insts[i]['cr'] in ('tmi', 'vharness'): return None
    a = c.args[0]
    if a.op == 'ptr':
        v = c.m.deref(c.st, a)
        if v.op in ('iter', 'iterN') or (v.op == 'adt' and (v.a[0].startswith('@') or v.a[0] == 'std::ops::Range')):
            t = c.m.ty(c.atys[0]) if c.atys else None
            return a         # &mut iterator
    return S.into_iter_ty(c, a, c.atys[0] if c.atys else c.info['a'][0], c.st)
# ---- mem
@model('std::mem::take', 'core::mem::take')
def h_take(S, c):
    m = c.m
    v = m.deref(c.st, c.args[0])
    t = m.ty(c.info['a'][0]); n = t.get('n') or t['k']
    if n == 'std::string::String': d = EMPTY
    elif n in ('std::vec::Vec', 'smallvec::SmallVec'): d = NIL
    elif n == OPTION: d = NONE
    elif n in RANGE: d = ZERO
    else: return None
    m.assign(c.st, c.args[0], d); return v
@model('std::mem::replace', 'core::mem::replace')
def h_replace(S, c):
    v = c.m.deref(c.st, c.args[0]); c.m.assign(c.st, c.args[0], c.args[1]); return v
@model('std::mem::swap', 'core::mem::swap')
def h_swap(S, c):
    a, b = c.m.deref(c.st, c.args[0]), c.m.deref(c.st, c.args[1])
    c.m.assign(c.st, c.args[0], b); c.m.assign(c.st, c.args[1], a); return UNIT
@model('std::mem::drop', 'core::mem::drop', 'std::mem::forget')
def h_drop(S, c): return UNIT
@model('std::option::Option::<T>::take')
def h_otake(S, c):
    v = c.m.deref(c.st, c.args[0]); c.m.assign(c.st, c.args[0], NONE); return v
@model('std::option::Option::<T>::replace')
def h_oreplace(S, c):
    v = c.m.deref(c.st, c.args[0]); c.m.assign(c.st, c.args[0], some(c.args[1])); return v
@model('std::option::Option::<T>::insert')
def h_oinsert(S, c):
    c.m.assign(c.st, c.args[0], some(c.args[1]))
    p = c.args[0]
    return mk('ptr', p.a[0], p.a[1] + (('f', 1, 0, None),), None)
@model('std::option::Option::<T>::as_ref', 'std::option::Option::<T>::as_deref', 'std::option::Option::<&T>::cloned', 'std::option::Option::<&T>::copied', 'std::result::Result::<T, E>::as_ref', 'std::result::Result::<T, E>::as_deref', 'std::option::Option::<T>::as_slice_noop')
def h_oref(S, c):
    i = c.info
    if i['p'].endswith('cloned') and i['a']:
        t = c.m.ty(c.m.peel(i['a'][0]))
        if t['k'] == 'adt' and t['n'].startswith('tmi::'): return None
    return c.m.deep(c.st, c.args[0])
@model('std::option::Option::<T>::as_mut', 'std::option::Option::<T>::as_deref_mut')
def h_omut(S, c):
    p = c.args[0]
    v = c.m.deref(c.st, p)
    return ite(is_(v, 1, 2), some(mk('ptr', p.a[0], p.a[1] + (('f', 1, 0, p.a[2]),), None)), NONE) if p.op == 'ptr' else v
@model('std::option::Option::<T>::iter', 'std::option::Option::<T>::into_iter_noop')
def h_oiter(S, c): return adt('@opt', 0, (c.m.deep(c.st, c.args[0]),))
@model('std::option::Option::<T>::unwrap_unchecked', 'std::result::Result::<T, E>::unwrap_unchecked')
def h_unwrapu(S, c): return None
# ---- integers
def _sat(op):
    def f(S, c):
        a, b = c.args
        t = re.search(r'<impl (\w+)>', c.info['p']).group(1)
        lo, hi = RANGE[t]
        v = op(a, b)
        return ite(truth(le(v, num(hi))), ite(truth(le(num(lo), v)), v, num(lo)), num(hi))
    return f
def _chk(op):
    def f(S, c):
        a, b = c.args
        t = re.search(r'<impl (\w+)>', c.info['p']).group(1)
        lo, hi = RANGE[t]
        v = op(a, b)
        return ite(truth(ite(le(v, num(hi)), le(num(lo), v), ZERO)), some(v), NONE)
    return f
def _wrp(op):
    def f(S, c):
        a, b = c.args
        t = re.search(r'<impl (\w+)>', c.info['p']).group(1)
        lo, hi = RANGE[t]
        v = op(a, b)
        if v.op == 'int': return num((v.a[0] - lo) % (hi - lo + 1) + lo)
        k = c.m.fits(c.st, v, t)
        r = app('wrap:' + t, v); c.m.note(r, t)
        return ite(k, v, r)
    return f
def _ovf(op):
    def f(S, c):
        a, b = c.args
        t = re.search(r'<impl (\w+)>', c.info['p']).group(1)
        lo, hi = RANGE[t]
        v = op(a, b)
        k = c.m.fits(c.st, v, t)
        r = app('wrap:' + t, v); c.m.note(r, t)
        return mk('tup', (ite(k, v, r), ite(k, ZERO, ONE)))
    return f
for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128', 'i128'):
    for _o, _f in (('add', add), ('sub', sub), ('mul', mul)):
        H['core::num::<impl %s>::saturating_%s' % (_t, _o)] = _sat(_f)
        H['core::num::<impl %s>::checked_%s' % (_t, _o)] = _chk(_f)
        H['core::num::<impl %s>::wrapping_%s' % (_t, _o)] = _wrp(_f)
        H['core::num::<impl %s>::overflowing_%s' % (_t, _o)] = _ovf(_f)
@model('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def h_tryfrom(S, c):
    m = c.m
    i = c.info.get('i')
    if i is not None and m.p.insts[i]['cr'] in ('tmi', 'vharness'): return None
    if c.info['p'].endswith('try_into'): return None
    d, s = S.tname(m, c.info['a'][0]), S.tname(m, c.info['a'][1])
    if d in RANGE and s in RANGE:
        k = m.fits(c.st, c.args[0], d)
        return ite(k, ok(c.args[0]), err(adt('std::num::TryFromIntError', 0, ())))
    return None
@model('core::char::methods::<impl char>::from_u32')
def h_noop2(S, c): return None
# ---- time
@model('std::time::Duration::from_secs')
def h_dsecs(S, c): return mul(c.args[0], num(10**9))
@model('std::time::Duration::from_millis')
def h_dms(S, c): return mul(c.args[0], num(10**6))
@model('std::time::Duration::from_micros')
def h_dus(S, c): return mul(c.args[0], num(10**3))
@model('std::time::Duration::from_nanos')
def h_dns(S, c): return c.args[0]
@model('std::time::Duration::new')
def h_dnew(S, c):
    a, b = c.args
    if a.op == b.op == 'app' and a.a[0] == 'secs' and b.a[0] == 'subns' and a.a[1] == b.a[1]: return a.a[1][0]
    return add(mul(c.args[0], num(10**9)), c.args[1])
@model('std::time::Duration::saturating_mul')
def h_dsmul(S, c):
    v = mul(c.args[0], c.args[1])
    return ite(truth(le(v, num(DUR_MAX))), v, num(DUR_MAX))
@model('std::time::Duration::checked_mul')
def h_dcmul(S, c):
    v = mul(c.args[0], c.args[1])
    return ite(truth(le(v, num(DUR_MAX))), some(v), NONE)
@model('std::time::Duration::saturating_add')
def h_dsadd(S, c):
    v = add(c.args[0], c.args[1])
    return ite(truth(le(v, num(DUR_MAX))), v, num(DUR_MAX))
@model('std::time::Duration::checked_add')
def h_dcadd(S, c):
    v = add(c.args[0], c.args[1])
    return ite(truth(le(v, num(DUR_MAX))), some(v), NONE)
@model('std::time::Duration::as_nanos')
def h_dnanos(S, c): return S.val(c, 0)
@model('std::time::Duration::subsec_nanos')
def h_dsub(S, c):
    r = app('subns', S.val(c, 0))
    if r.op == 'app': SORT.setdefault(r, 'u32')
    return r
@model('std::time::Duration::as_secs')
def h_dassecs(S, c):
    r = app('secs', S.val(c, 0))
    if r.op == 'app': SORT.setdefault(r, 'u64')
    return r
def _durop(op, over):
    def f(S, c):
        n = [S.tyname_peel(c.m, t) for t in c.info['a'][:2]] if c.info['a'] else []
        if 'std::time::Duration' not in n: return None
        a, b = S.val(c, 0), S.val(c, 1)
        if c.info['p'].endswith('_assign'):
            v = op(c.m.deref(c.st, c.args[0]), b)
        else: v = op(a, b)
        k = truth(restrict(ite(le(v, num(DUR_MAX)), le(ZERO, v), ZERO), c.st.env))
        if k is not ONE:
            e = assume(c.st.env, k, False)
            if e is not None: c.m.panic_at(c.fr, State(c.st.store, e), c.b, 'overflow', (over, v))
            if k is ZERO: return UNREACH, None
            c.st.env = assume(c.st.env, k, True) or c.st.env
        if c.info['p'].endswith('_assign'): c.m.assign(c.st, c.args[0], v); return UNIT
        return v
    return f
for _n, _f in (('Mul::mul', mul), ('Add::add', add), ('Sub::sub', sub), ('MulAssign::mul_assign', mul), ('AddAssign::add_assign', add), ('SubAssign::sub_assign', sub)):
    H['std::ops::' + _n] = _durop(_f, 'duration overflow')
# ---- chrono: a timestamp in milliseconds names at most one UTC instant
TSM = lambda v: app('ts.millis', v)
@model('chrono::DateTime::<chrono::Utc>::from_timestamp_millis')
def h_fts(S, c): return TSM(S.val(c, 0))
@model('chrono::TimeZone::timestamp_millis_opt')
def h_tsopt(S, c):
    if not c.info['a'] or S.tyname_peel(c.m, c.info['a'][0]) not in ('chrono::Utc', 'chrono::offset::Utc') or c.rty is None: return None
    o = TSM(S.val(c, 1))
    t = c.m.ty(c.rty)
    ix = {v['n']: i for i, v in enumerate(t['v'])}
    if set(ix) != {'Single', 'Ambiguous', 'None'}: return None
    return ite(is_(o, 1, 2), c.m.mkadt(c.rty, ix['Single'], [fld(o, 1, 0)]), c.m.mkadt(c.rty, ix['None'], []))
def h_tssingle(S, c):
    v = S.val(c, 0)
    t = c.m.ty(c.atys[0]) if c.atys else None
    if not t or t['k'] != 'adt': return None
    i = [j for j, x in enumerate(t['v']) if x['n'] == 'Single']
    if not i: return None
    k = is_(v, i[0], 3)
    return ite(k, some(fld(v, i[0], 0)), NONE)
for _n in ('chrono::offset::LocalResult::<T>::single', 'chrono::offset::MappedLocalTime::<T>::single', 'chrono::LocalResult::<T>::single', 'chrono::MappedLocalTime::<T>::single'): H[_n] = h_tssingle
def h_tsearliest(S, c):
    # a moment in UTC is never ambiguous: only where the value is one of ours
    v = S.val(c, 0)
    return h_tssingle(S, c) if _unamb(v) else None
def _unamb(v):
    if v.op == 'ite': return _unamb(v.a[1]) and _unamb(v.a[2])
    return v.op == 'adt' and len(v.a[2]) <= 1
for _n in ('earliest', 'latest'):
    for _q in ('chrono::offset::LocalResult', 'chrono::offset::MappedLocalTime', 'chrono::LocalResult', 'chrono::MappedLocalTime'): H[_q + '::<T>::' + _n] = h_tsearliest
# ---- atomics / misc opaque with identity-ish meaning
@model('std::intrinsics::cold_path', 'core::intrinsics::cold_path')
def h_cold(S, c): return UNIT
@model('std::intrinsics::likely', 'std::intrinsics::unlikely', 'std::hint::likely', 'std::hint::unlikely')
def h_likely(S, c): return c.args[0]
@model('core::str::converts::from_utf8', 'core::str::from_utf8', 'std::str::from_utf8')
def h_from_utf8(S, c): return None
# ---- tracing: events only matter to C19, which has its own rule
@model('tracing::__macro_support::__is_enabled')
def h_trace(S, c): return ONE if c.m.opts.get('logs') else ZERO
@model('tracing_core::metadata::LevelFilter::current', 'tracing_core::callsite::DefaultCallsite::interest')
def h_lvl(S, c): return sym('logging')
@model('tracing_core::subscriber::Interest::is_never')
def h_never(S, c): return ZERO if c.m.opts.get('logs') else ONE
@model('tracing_core::field::FieldSet::iter')
def h_fields(S, c): return app('tracing.fields')
@model('tracing_core::field::FieldSet::value_set', 'tracing_core::event::Event::<\'a>::dispatch', 'tracing_core::event::Event::<\'a>::child_of')
def h_valueset(S, c):
    if c.m.oplog is not None: c.m.oplog.append((c.info['p'], [c.m.deep_value(c.st, a) for a in c.args], c.m.site, c.st.env, c.info))
    return app('tracing.values')

# ---- Iterator methods
def itp(S, c, st=None):
    """pointer to the iterator passed by value (args[0])"""
    m = c.m
    a = c.args[0]
    v = S.to_iter(c, a, c.st) if a.op != 'ptr' else a
    if v is None: v = S.into_iter_ty(c, a, c.atys[0] if c.atys else None, c.st)
    if v is None: raise Unsupported('iteration over ' + show(a, 3))
    if v.op == 'ptr':
        w = m.deref(c.st, v)
        if w.op in ('iter', 'iterN', 'ite', 'ptr') or (w.op == 'adt' and (w.a[0].startswith('@') or w.a[0] == 'std::ops::Range')): return v
        w2 = S.to_iter(c, w, c.st)
        if w2 is None: raise Unsupported('iteration over ' + show(w, 3))
        m.assign(c.st, v, w2); return v
    return m.newcell(c.st, v)
@imethod('next')
def i_next(S, c):
    a = c.args[0]
    if a.op != 'ptr': return None
    v = c.m.deref(c.st, a)
    n = 0
    while v.op == 'ptr' and n < 4: a = v; v = c.m.deref(c.st, a); n += 1
    if v.op in ('sym', 'fld', 'app') : return None
    return S.inext(c, a, c.st)
def _adapt(name, nargs):
    def f(S, c):
        it = c.args[0]
        if it.op == 'ptr': pass
        else:
            it = S.to_iter(c, it, c.st) or S.into_iter_ty(c, it, c.atys[0] if c.atys else None, c.st)
            if it is None: return None
        if it.op == 'ptr': it = adt('@id', 0, (it,))
        extra = list(c.args[1:1 + nargs])
        if name == '@flat_map' and it.op == 'adt' and it.a[0] == '@opt':
            r = flat_opt(S, c, it.a[2][0], extra)
            if r is not None: return r
        return adt(name, 0, [it] + extra)
    return f
def flat_opt(S, c, o, extra):
    """flattening what an Option holds: the inner iterator, or an empty one"""
    m = c.m
    f = m.newcell(c.st, extra[0]) if extra else None
    inner = []
    def some_(s, x):
        r = x
        if f is not None:
            r, s = S.apply(c, f, [x], s)
            if s is None: return UNREACH, None
        it = S.to_iter(c, r, s) if not (r.op == 'adt' and r.a[0] in (OPTION, RESULT)) else None
        inner.append(it)
        return it if it is not None else UNIT, s
    st = State(dict(c.st.store), c.st.env)
    v, s = S.on_option(m, st, o, some_, lambda s: (list_iter(mk('list', ())), s))
    if s is None or any(i is None for i in inner): return None
    return v, s
I_['map'] = _adapt('@map', 1); I_['filter'] = _adapt('@filter', 1); I_['filter_map'] = _adapt('@filter_map', 1)
I_['flat_map'] = _adapt('@flat_map', 1); I_['flatten'] = _adapt('@flat_map', 0)
I_['take_while'] = _adapt('@take_while', 1); I_['map_while'] = _adapt('@map_while', 1)
I_['fuse'] = _adapt('@id', 0); I_['inspect_noop'] = _adapt('@id', 0)
@imethod('cloned', 'copied', 'by_ref')
def i_same(S, c):
    if c.info['p'].endswith('by_ref'): return c.args[0]
    return c.args[0]
@imethod('enumerate')
def i_enum(S, c): return adt('@enumerate', 0, (S.to_iter(c, c.args[0], c.st), ZERO))
@imethod('peekable')
def i_peekable(S, c): return adt('@peek', 0, (S.to_iter(c, c.args[0], c.st), NONE))
@model('std::iter::Peekable::<I>::peek')
def h_peek(S, c):
    m = c.m
    p = c.args[0]
    v = m.deref(c.st, p)
    if not (v.op == 'adt' and v.a[0] == '@peek'): return None
    q = v.a[2][1]
    def fill(s):
        x, s = S.inext(c, S.field_ptr(m, p, v, 0), s)
        m.assign(s, S.field_ptr(m, p, v, 1), some(x)); return x, s
    return S.branch(m, c.st, is_(q, 1, 2), lambda s: (fld(q, 1, 0), s), fill)
@imethod('chain')
def i_chain(S, c):
    a = S.to_iter(c, c.args[0], c.st); b = S.into_iter_ty(c, c.args[1], c.atys[1] if c.atys else None, c.st)
    if a is None or b is None: return None
    return adt('@chain', 0, (a, b))
@imethod('zip')
def i_zip(S, c):
    a = S.to_iter(c, c.args[0], c.st); b = S.into_iter_ty(c, c.args[1], c.atys[1] if c.atys else None, c.st)
    if a is None or b is None: return None
    return adt('@zip', 0, (a, b))
@imethod('take')
def i_take(S, c):
    it = S.to_iter(c, c.args[0], c.st); n = c.args[1]
    if it is not None and n.op == 'int' and n.a[0] > 8 and not S.is_finite_iter(it):
        # the first n of an unbounded sequence
        l, s = S.collect(c, it, c.st, None)
        if s is None: return UNREACH, None
        return mk('iter', app('take', l, n), 0), s
    return adt('@take', 0, (it, n))
@imethod('rev')
def i_rev(S, c):
    v = c.args[0]
    if v.op == 'iter' and S.finite(v.a[0]): return mk('iter', lst(tuple(reversed(v.a[0].a[0][v.a[1]:]))), 0)
    if v.op == 'iter': return mk('iter', app('rev', rawapp('drop', v.a[0], num(v.a[1])) if v.a[1] else v.a[0]), 0)
    if v.op == 'adt' and v.a[0] in ('@map', '@filter', '@filter_map', '@flat_map', '@bind', '@cloned', '@copied'):
        l, s = S.collect(c, v, c.st, None)
        if s is None: return UNREACH, None
        return list_iter(app('rev', l)), s
    return None
def mkrev(l):
    """a list with at most one entry per element of a sequence, backwards: the same over the reversed sequence"""
    if l.op == 'ite': return ite(l.a[0], mkrev(l.a[1]), mkrev(l.a[2]))
    if l.op == 'list':
        if S_finite(l): return lst(tuple(reversed(l.a[0])))
        if len(l.a[0]) == 1 and l.a[0][0].op == 'many':
            Sq, lvl, body = l.a[0][0].a
            if bindbody(body) is not None:
                r = mkrev(Sq)
                return lst([mk('many', r, lvl, TM.subst(body, {mk('elem', Sq, lvl): mk('elem', r, lvl)}))])
    if l.op == 'app' and l.a[0] == 'rev': return l.a[1][0]
    return mk('app', 'rev', (l,))
def S_finite(l): return all(p.op == 'one' for p in l.a[0])
TM.REAPP['rev'] = mkrev
@imethod('skip')
def i_skip(S, c):
    v = c.args[0]
    if v.op == 'iter' and c.args[1].op == 'int': return mk('iter', v.a[0], v.a[1] + c.args[1].a[0])
    return None
@imethod('nth')
def i_nth(S, c):
    p = c.args[0]
    v = c.m.deref(c.st, p)
    k = c.args[1]
    if k.op != 'int' or k.a[0] > 8: return None
    st = c.st
    if v.op == 'iter' and not (c.m.loops and p.a[0] in c.m.loops[-1].entry):
        c.m.assign(st, p, mk('iter', v.a[0], v.a[1] + k.a[0] + 1))
        return S.nth_of(v.a[0], v.a[1] + k.a[0], c.m)
    o = None
    for _ in range(k.a[0] + 1):
        if o is None: o, st = S.inext(c, p, st)
        else: o, st = S.on_option(c.m, st, o, lambda s, x: S.inext(c, p, s), lambda s: (NONE, s))
        if st is None: return UNREACH, None
    return o, st
@imethod('last')
def i_last(S, c):
    p = itp(S, c)
    acc = c.m.newcell(c.st, NONE)
    def body(s, x): c.m.assign(s, acc, some(x)); return s
    s = S.each(c, p, c.st, body, None)
    return (c.m.deref(s, acc), s) if s else (UNREACH, None)
@imethod('find')
def i_find(S, c):
    p = itp(S, c); f = c.m.newcell(c.st, c.args[1]) if c.args[1].op != 'ptr' else c.args[1]
    def test(s, x):
        r, s = S.apply(c, f, [x], s)
        return truth(r) if s is not None else ZERO, s, x
    return S.find_loop(c, p, c.st, test)
def posof(o):
    """index of what a search found; for one ASCII byte among the bytes of a text, the same as searching for the character"""
    if o.op == 'ite':
        if o.a[2] is not NONE and o.a[1] is not NONE: return ite(o.a[0], posof(o.a[1]), posof(o.a[2]))
        x, pos = (o.a[1], True) if o.a[2] is NONE else (o.a[2], False)
        if x.op == 'ite': return ite(o.a[0], posof(o.a[1]), posof(o.a[2]))
        if x.op == 'adt' and x.a[1] == 1 and x.a[2][0].op == 'fld':
            b = TM.bytefind(x.a[2][0].a[0], False)
            if b is not None:
                y = some(fld(sfind(*b), 1, 0))
                return ite(o.a[0], y, NONE) if pos else ite(o.a[0], NONE, y)
    if o is NONE: return NONE
    return ite(is_(o, 1, 2), some(rawapp('position', o)), NONE)
@model('core::array::<impl [T; N]>::map', 'std::array::<impl [T; N]>::map')
def h_arrmap(S, c):
    v = c.m.deep(c.st, c.args[0]) if c.args[0].op == 'ptr' else c.args[0]
    if v.op != 'arr': return None
    f = c.m.newcell(c.st, c.args[1]); s = c.st; out = []
    for x in v.a[0]:
        r, s = S.apply(c, f, [x], s)
        if s is None: return UNREACH, None
        out.append(r)
    return mk('arr', tuple(out)), s
@imethod('position')
def i_position(S, c):
    p = itp(S, c); f = c.m.newcell(c.st, c.args[1])
    v = c.m.deref(c.st, p)
    if not S.is_finite_iter(v):
        # opaque index of the first match
        o, s = i_find(S, c)
        if s is None: return UNREACH, None
        return posof(o), s
    cnt = c.m.newcell(c.st, ZERO)
    def test(s, x):
        r, s = S.apply(c, f, [x], s)
        n = c.m.deref(s, cnt)
        c.m.assign(s, cnt, add(n, ONE))
        return truth(r), s, n
    return S.find_loop(c, p, c.st, test)
@imethod('find_map')
def i_find_map(S, c):
    p = itp(S, c); f = c.m.newcell(c.st, c.args[1])
    def test(s, x):
        r, s = S.apply(c, f, [x], s)
        return (is_(r, 1, 2), s, fld(r, 1, 0)) if s is not None else (ZERO, None, UNREACH)
    return S.find_loop(c, p, c.st, test)
@imethod('any')
def i_any(S, c):
    o = i_find(S, c)
    return (is_(o[0], 1, 2), o[1]) if o[1] is not None else (UNREACH, None)
@imethod('all')
def i_all(S, c):
    p = itp(S, c); f = c.m.newcell(c.st, c.args[1]) if c.args[1].op != 'ptr' else c.args[1]
    def test(s, x):
        r, s = S.apply(c, f, [x], s)
        return ite(truth(r), ZERO, ONE) if s is not None else ZERO, s, x
    o, s = S.find_loop(c, p, c.st, test)
    return (ite(is_(o, 1, 2), ZERO, ONE), s) if s is not None else (UNREACH, None)
@imethod('collect')
def i_collect(S, c):
    p = itp(S, c)
    ty = c.info['a'][1] if len(c.info['a']) > 1 else c.rty
    return S.collect(c, p, c.st, c.rty if c.rty is not None else ty)
@imethod('fold')
def i_fold(S, c):
    p = itp(S, c)
    acc = c.m.newcell(c.st, c.args[1]); f = c.m.newcell(c.st, c.args[2])
    def body(s, x):
        r, s = S.apply(c, f, [c.m.deref(s, acc), x], s)
        if s is None: return None
        c.m.assign(s, acc, r); return s
    s = S.each(c, p, c.st, body, None)
    return (c.m.deref(s, acc), s) if s is not None else (UNREACH, None)
@imethod('for_each')
def i_for_each(S, c):
    p = itp(S, c)
    f = c.m.newcell(c.st, c.args[1])
    def body(s, x):
        r, s = S.apply(c, f, [x], s); return s
    s = S.each(c, p, c.st, body, None)
    return (UNIT, s) if s is not None else (UNREACH, None)
def try_each(S, c, step, final):
    """step(state, item) -> (Try value, state); stops at the first value that is not its type's continuing variant"""
    m = c.m
    n = S.tname(m, c.rty) if c.rty is not None else None
    if n not in (OPTION, RESULT, 'std::ops::ControlFlow'): return None
    good, bad = (1, 0) if n == OPTION else (0, 1)
    p = itp(S, c)
    slot = m.newcell(c.st, NONE)
    def body(s, x):
        r, s = step(s, x)
        if s is None: return []
        k = truth(restrict(is_(r, good, 2), s.env)); out = []
        e = assume(s.env, k, False) if k is not ONE else None
        if e is not None:
            s2 = State(dict(s.store), e); m.assign(s2, slot, some(restrict(r, e))); out.append((ite(k, ZERO, ONE), 'bad', s2))
        e = assume(s.env, k, True) if k is not ZERO else None
        if e is not None:
            s2 = State(dict(s.store), e); final(s2, fld(restrict(r, e), good, 0)); out.append((k, 'back', s2))
        return out
    ex = S.vloop(c, p, c.st, body, 'try_fold')
    def val(t, s):
        if t == 'bad':
            x = m.deref(s, slot)
            x = fld(x, 1, 0)
            return NONE if n == OPTION else adt(n, bad, (fld(x, bad, 0),))
        return adt(n, good, (final(s, None),))
    return S.merge_exits(c, ex, val)
@imethod('try_for_each')
def i_try_for_each(S, c):
    f = c.m.newcell(c.st, c.args[1])
    return try_each(S, c, lambda s, x: S.apply(c, f, [x], s), lambda s, v: UNIT)
@imethod('try_fold')
def i_try_fold(S, c):
    acc = c.m.newcell(c.st, c.args[1]); f = c.m.newcell(c.st, c.args[2])
    def final(s, v):
        if v is None: return c.m.deref(s, acc)
        c.m.assign(s, acc, v)
    return try_each(S, c, lambda s, x: S.apply(c, f, [c.m.deref(s, acc), x], s), final)
@imethod('inspect')
def i_inspect(S, c):
    it = S.to_iter(c, c.args[0], c.st)
    return adt('@inspect', 0, (it, c.args[1])) if it is not None else None
@imethod('count')
def i_count(S, c):
    p = itp(S, c)
    acc = c.m.newcell(c.st, ZERO)
    def body(s, x): c.m.assign(s, acc, add(c.m.deref(s, acc), ONE)); return s
    s = S.each(c, p, c.st, body, None)
    return (c.m.deref(s, acc), s) if s is not None else (UNREACH, None)
@imethod('sum')
def i_sum(S, c):
    p = itp(S, c)
    acc = c.m.newcell(c.st, ZERO)
    def body(s, x): c.m.assign(s, acc, add(c.m.deref(s, acc), x)); return s
    s = S.each(c, p, c.st, body, None)
    return (c.m.deref(s, acc), s) if s is not None else (UNREACH, None)
@imethod('size_hint')
def i_sh(S, c): return mk('tup', (sym('size_hint'), NONE))
@imethod('next_back')
def i_nb(S, c): return None
@model('std::iter::once', 'core::iter::once')
def h_once(S, c): return adt('@once', 0, (some(c.args[0]),))
@model('std::iter::empty')
def h_emptyit(S, c): return mk('iter', NIL, 0)
