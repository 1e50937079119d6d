"""Value graphs: hash-consed normal-form terms, gating (ite) nodes, and equality of value graphs.

A term denotes the value an expression of the analysed program has, as a function of opaque
leaves (parameters, results of calls that are analysed elsewhere).  Gating nodes carry atomic
conditions.  Equality is decided by normal forms plus case distinction over the finitely many
gating atoms; there is no search over program paths and no solver.
"""
import sys
sys.setrecursionlimit(200000)

class T:
    __slots__ = ('op', 'a', 'id', '_sup', '_fe')
    def __repr__(self): return show(self)

_tab = {}
def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.id = len(_tab); t._sup = None; t._fe = None
        _tab[k] = t
    return t

ATOMS = {'is', 'eq', 'ieq', 'le', 'tru', 'pred', 'byteis', 'more'}

def num(n): return mk('int', int(n))
ZERO, ONE = num(0), num(1)
UNREACH = mk('unreach')
SKIP = mk('skip')
UNIT = mk('tup', ())
def st(s):
    if isinstance(s, str): s = s.encode()
    return mk('str', s)
EMPTY = st('')
def sym(name, sort=None): return mk('sym', name, sort)
def adt(path, v, fields): return mk('adt', path, v, tuple(fields))
def tup(fs): return mk('tup', tuple(fs))
def app(f, *args): return lift(lambda *x: mk('app', f, tuple(x)), args)
def rawapp(f, *args): return mk('app', f, tuple(args))

OPTION = 'std::option::Option'
RESULT = 'std::result::Result'
POLL = 'std::task::Poll'
def some(x): return adt(OPTION, 1, (x,))
NONE = adt(OPTION, 0, ())
def ok(x): return adt(RESULT, 0, (x,))
def err(x): return adt(RESULT, 1, (x,))
def ready(x): return adt(POLL, 0, (x,))

def children(t):
    o = t.op
    if o in ('int', 'str', 'sym'): return ()
    out = []
    for x in t.a:
        if isinstance(x, T): out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T): out.append(y)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T): out.append(z)
    return out

def fe(t):
    """bound stream elements occurring free in t"""
    if t._fe is None:
        s = frozenset()
        for c in children(t): s = s | fe(c)
        if t.op == 'elem': s = s | {t}
        if t.op == 'many': s = s - {mk('elem', t.a[0], t.a[1])}
        elif t.op in ('sfindp',): s = s - {mk('elem', t.a[0], t.a[1])}
        t._fe = s
    return t._fe

def sup(t):
    """gating atoms that t's value depends on (atoms over bound elements excluded)"""
    if t._sup is None:
        s = set()
        for c in children(t): s |= sup(c)
        if t.op in ATOMS: s.add(t)
        if t.op in ('many', 'sfindp'):
            e = mk('elem', t.a[0], t.a[1])
            s = {x for x in s if e not in fe(x)}
        t._sup = frozenset(s)
    return t._sup

# ---------------------------------------------------------------- gating
def truth(t):
    """condition form of a boolean value"""
    if t.op == 'int': return ONE if t.a[0] else ZERO
    if t.op in ATOMS: return t
    if t.op == 'ite': return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.op in ('unreach', 'skip'): return t
    return mk('tru', t)

def ite(c, a, b):
    if a is b: return a
    if c.op == 'int': return a if c.a[0] else b
    if a is UNREACH: return b
    if b is UNREACH: return a
    if c.op == 'ite':
        return ite(c.a[0], ite(c.a[1], a, b), ite(c.a[2], a, b))
    if c.op == 'unreach': return UNREACH
    if c.op not in ATOMS: c = truth(c)
    if c.op not in ATOMS: return ite(c, a, b)
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if c in sup(a): a = restrict1(a, c, True)
    if c in sup(b): b = restrict1(b, c, False)
    if a is b: return a
    if a is ONE and b is ZERO:
        return c.a[0] if c.op == 'tru' else c
    # ite(is(x,1), Some(x.1.0), None) == x
    if c.op == 'is':
        x = c.a[0]
        if _eta(a, x, c.a[1]) and c.a[2] == 2 and _eta(b, x, 1 - c.a[1]): return x
    return mk('ite', c, a, b)

def _eta(t, x, v):
    if t is x: return True
    if t.op != 'adt' or t.a[1] != v: return False
    for i, f in enumerate(t.a[2]):
        if not (f.op == 'fld' and f.a[0] is x and f.a[1] == v and f.a[2] == i): return False
    return True

_r1 = {}
def restrict1(t, c, val):
    if c not in sup(t): return t
    k = (t.id, c.id, val)
    r = _r1.get(k)
    if r is None:
        r = rebuild(t, lambda x: restrict1(x, c, val), {c: val})
        _r1[k] = r
    return r

def rebuild(t, f, dec):
    """rebuild t with f applied to children; dec maps atoms to truth values"""
    o = t.op
    if t in dec: return ONE if dec[t] else ZERO
    if o == 'ite':
        d = dec.get(t.a[0])
        if d is True: return f(t.a[1])
        if d is False: return f(t.a[2])
        c = f(t.a[0])
        return ite(truth(c), f(t.a[1]), f(t.a[2]))
    return remake(t, f)

def remake(t, f):
    o, a = t.op, t.a
    if o in ('int', 'str', 'sym', 'unreach', 'skip', 'fn', 'never'): return t
    g = lambda xs: tuple(f(x) for x in xs)
    if o == 'adt': return adt(a[0], a[1], g(a[2]))
    if o == 'tup': return tup(g(a[0]))
    if o == 'arr': return mk('arr', g(a[0]))
    if o == 'app': return lift(lambda *x: reapp(a[0], x), g(a[1]))
    if o == 'is': return is_(f(a[0]), a[1], a[2])
    if o == 'fld': return fld(f(a[0]), a[1], a[2])
    if o == 'eq': return eq(f(a[0]), f(a[1]))
    if o == 'lin':
        r = num(a[0])
        for k, x in a[1]: r = add(r, mul(num(k), f(x)))
        return r
    if o == 'le': return le(f(a[0]), num(a[1]))
    if o == 'ieq': return ieq(f(a[0]), num(a[1]))
    if o == 'tru': return truth(f(a[0]))
    if o == 'pred': return pred(a[0], *g(a[1]))
    if o == 'byteis': return byteis(f(a[0]), f(a[1]), a[2])
    if o == 'ite': return ite(truth(f(a[0])), f(a[1]), f(a[2]))
    if o == 'clo': return mk('clo', a[0], g(a[1]))
    if o == 'dyn': return mk('dyn', f(a[0]), a[1])
    if o == 'ptr': return t
    if o == 'slice': return sl(f(a[0]), f(a[1]), f(a[2]))
    if o == 'len': return length(f(a[0]))
    if o == 'cat': return cat(*g(a[0]))
    if o == 'list': return lst(g(a[0]))
    if o == 'one': return mk('one', f(a[0]))
    if o == 'opt': return opt_part(truth(f(a[0])), g(a[1]), g(a[2]))
    if o == 'many': return mk('many', f(a[0]), a[1], f(a[2]))
    if o == 'sfindp': return mk('sfindp', f(a[0]), a[1], canon(f(a[2])))
    if o == 'elem': return mk('elem', f(a[0]), a[1])
    if o == 'more': return t
    if o == 'discr': return discr(f(a[0]), a[1])
    if o == 'iter': return mk('iter', f(a[0]), a[1])
    if o == 'fix': return mk('fix', a[0], g(a[1]), g(a[2]), f(a[3]), g(a[4]), a[5])
    if o == 'tr': return trace(f(a[0]), a[1], *g(a[2]))
    if o == 'cow': return mk('cow', a[0], f(a[1]))
    if o == 'cor': return mk('cor', a[0], a[1] if not isinstance(a[1], T) else f(a[1]), g(a[2]), tuple((k, f(y)) for k, y in a[3]))
    return mk(o, *[f(x) if isinstance(x, T) else (g(x) if isinstance(x, tuple) and x and all(isinstance(y, T) for y in x) else x) for x in a])

REAPP = {}
def reapp(name, args):
    r = REAPP.get(name)
    if r is not None: return r(*args)
    return mk('app', name, tuple(args))

def lift(f, args):
    """apply a strict function to values, moving gating nodes outwards"""
    for i, x in enumerate(args):
        if x.op == 'ite':
            c = x.a[0]
            ta = tuple(restrict1(y, c, True) if y is not x else x.a[1] for y in args)
            fa = tuple(restrict1(y, c, False) if y is not x else x.a[2] for y in args)
            return ite(c, lift(f, ta), lift(f, fa))
        if x.op == 'unreach': return UNREACH
    return f(*args)

# ---------------------------------------------------------------- algebraic data
def is_(x, v, n):
    if x.op == 'ite': return ite(x.a[0], is_(x.a[1], v, n), is_(x.a[2], v, n))
    if x.op == 'adt': return ONE if x.a[1] == v else ZERO
    if x.op in ('unreach', 'skip'): return UNREACH
    r = known_variant(x)
    if r is not None: return ONE if r == v else ZERO
    if x.op == 'app' and x.a[0] == 'nth' and x.a[1][1] is ZERO and x.a[1][0].op == 'app' and x.a[1][0].a[0] in ('chars', 'bytes'):
        # there is a first character exactly if the text is not empty
        e = eq(x.a[1][0].a[1][0], EMPTY)
        return ite(truth(e), ZERO, ONE) if v == 1 else truth(e)
    if n == 1: return ONE
    if x.op == 'sfindp':
        b = bytefind(x, True)
        if b is not None: return is_(REAPP['sfind'](*b), v, n)
    if n == 2 and v == 0: return ite(mk('is', x, 1, 2), ZERO, ONE)
    return mk('is', x, v, n)

def bytefind(x, anyof):
    """(text, character) if x is the search for one ASCII character among the bytes (or, if only whether there is one matters, characters) of a text"""
    if x.op != 'sfindp' or 'sfind' not in REAPP: return None
    S, h, p = x.a
    if S.op == 'app' and (S.a[0] == 'bytes' or anyof and S.a[0] == 'chars') and len(S.a[1]) == 1: T = S.a[1][0]
    elif S.op in ('sym', 'slice', 'cat', 'str'): T = S
    else: return None
    if p.op not in ('ieq', 'eq'): return None
    a, b = p.a
    if p.op == 'ieq': b = num(b)
    if a.op != 'elem' or a.a[0] is not S or b.op != 'int' or not 0 <= b.a[0] < 128: return None
    return T, st(chr(b.a[0]))
def known_variant(x):
    if x.op == 'app' and x.a[0] == 'nth' and x.a[1][1].op == 'int' and x.a[1][1].a[0] == 0 and x.a[1][0].op == 'app' and x.a[1][0].a[0] == 'split':
        return 1
    return None

FLD = {}
def fld(x, v, i):
    """field i of x viewed as variant v (v None: struct/tuple)"""
    if x.op == 'ite': return ite(x.a[0], fld(x.a[1], v, i), fld(x.a[2], v, i))
    if x.op == 'adt':
        if v is not None and x.a[1] != v: return UNREACH
        return x.a[2][i] if i < len(x.a[2]) else UNREACH
    if x.op in ('tup', 'arr'): return x.a[0][i]
    if x.op == 'clo': return x.a[1][i]
    if x.op == 'cor':
        if v is None: return x.a[2][i] if i < len(x.a[2]) else UNREACH
        for k, y in x.a[3]:
            if k == (v, i): return y
        return UNREACH
    if x.op in ('unreach', 'skip'): return UNREACH
    if x.op == 'app' and x.a[0] in FLD:
        r = FLD[x.a[0]](x, v, i)
        if r is not None: return r
    return mk('fld', x, v, i)

def discr(x, n):
    if x.op == 'ite': return ite(x.a[0], discr(x.a[1], n), discr(x.a[2], n))
    if x.op == 'adt': return num(x.a[1])
    if x.op in ('unreach', 'skip'): return x
    return mk('discr', x, n)

# ---------------------------------------------------------------- integers (mathematical)
def aslin(x):
    if x.op == 'int': return x.a[0], ()
    if x.op == 'lin': return x.a[0], x.a[1]
    return 0, ((1, x),)
def mklin(c, d):
    items = tuple(sorted(((k, x) for x, k in d.items() if k), key=lambda p: p[1].id))
    if not items: return num(c)
    if c == 0 and len(items) == 1 and items[0][0] == 1: return items[0][1]
    return mk('lin', c, items)
def _add(a, b):
    if a.op in ('unreach', 'skip') : return a
    ca, ta = aslin(a); cb, tb = aslin(b)
    d = {}
    for k, x in ta: d[x] = d.get(x, 0) + k
    for k, x in tb: d[x] = d.get(x, 0) + k
    return mklin(ca + cb, d)
def add(a, b): return lift(_add, (a, b))
def _mul(a, b):
    if a.op == 'int' or b.op == 'int':
        if b.op == 'int': a, b = b, a
        k = a.a[0]; c, t = aslin(b)
        return mklin(c * k, {x: kk * k for kk, x in t})
    if a.id > b.id: a, b = b, a
    return mk('app', 'mul', (a, b))
def mul(a, b): return lift(_mul, (a, b))
REAPP["mul"] = mul
def neg(a): return mul(num(-1), a)
def sub(a, b): return add(a, neg(b))

RANGE = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1), 'u128': (0, 2**128 - 1),
         'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1),
         'char': (0, 0x10ffff), 'bool': (0, 1)}
SORT = {}    # term -> int sort, when known

MAXLEN = 2**32 - 1
ATMOST = set()     # names of leaves f(text, ..) that are positions within the text
def bounds(x):
    if x.op == 'int': return x.a[0], x.a[0]
    if x.op in ATOMS: return 0, 1
    if x.op == 'len': return 0, MAXLEN
    if x.op == 'fld' and x.a[0].op == 'app' and x.a[0].a[0] in ('sfind', 'rfind') and x.a[1] == 1: return 0, MAXLEN
    if x.op == 'discr': return 0, x.a[1] - 1
    if x.op == 'ite':
        a, b = bounds(x.a[1]), bounds(x.a[2])
        return (None if None in (a[0], b[0]) else min(a[0], b[0])), (None if None in (a[1], b[1]) else max(a[1], b[1]))
    if x.op == 'lin':
        lo = hi = x.a[0]
        ts = x.a[1]
        if ATMOST and len(ts) > 1:
            # a position within a text is at most its length
            for k, y in ts:
                if y.op == 'app' and y.a[0] in ATMOST:
                    n = mk('len', y.a[1][0])
                    if any(z is n and j == -k for j, z in ts):
                        ts = tuple((j, z) for j, z in ts if z is not n and z is not y)
                        if k > 0: lo = None if lo is None else lo - k * MAXLEN
                        else: hi = None if hi is None else hi - k * MAXLEN
                        break
        for k, y in ts:
            l, h = bounds(y)
            if k < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        if (hi is None or hi > 0) and (lo is None or lo <= 0):
            # what was found lies within the text
            for k, y in x.a[1]:
                if y.op == 'fld' and y.a[1] == 1 and y.a[0].op == 'app' and y.a[0].a[0] == 'sfind':
                    T, p = y.a[0].a[1]
                    t = mklin(x.a[0], {z: j for j, z in x.a[1] if z is not y})
                    l, h = bounds(add(t, mul(num(k), sub(length(T), length(p)))))
                    if k > 0 and h is not None and (hi is None or h < hi): hi = h
                    if k < 0 and l is not None and (lo is None or l > lo): lo = l
        return lo, hi
    s = SORT.get(x)
    if s is None and x.op == 'sym': s = x.a[1]
    if s in RANGE: return RANGE[s]
    return None, None

def _le(a, b):
    """a <= b"""
    if a.op in ('unreach', 'skip'): return UNREACH
    d = sub(a, b)
    if d.op == 'int': return ONE if d.a[0] <= 0 else ZERO
    lo, hi = bounds(d)
    if hi is not None and hi <= 0: return ONE
    if lo is not None and lo > 0: return ZERO
    c, ts = aslin(d)
    # sum ts <= -c
    g = 0
    from math import gcd
    for k, _ in ts: g = gcd(g, abs(k))
    ts = tuple((k // g, x) for k, x in ts)
    r = (-c) // g           # floor
    if ts[0][0] > 0: return _le0(ts, r)
    # -s <= r  <=>  s >= -r  <=> not (s <= -r-1)
    return ite(_le0(tuple((-k, x) for k, x in ts), -r - 1), ZERO, ONE)
def _le0(ts, r):
    l = mklin(0, {x: k for k, x in ts})
    lo, hi = bounds(l)
    if lo is not None and lo == r: return ieq(l, num(r))
    if hi is not None and r == hi - 1: return ite(ieq(l, num(hi)), ZERO, ONE)
    return mk('le', l, r)
def le(a, b): return lift(_le, (a, b))
def lt(a, b): return le(add(a, ONE), b)

def _ieq(a, b):
    if a.op in ('unreach', 'skip'): return UNREACH
    if a is b: return ONE
    for x, y in ((a, b), (b, a)):
        if y.op == 'int' and x.op != 'lin':
            if x.op == 'discr':
                n = x.a[1]
                return is_(x.a[0], y.a[0], n) if 0 <= y.a[0] < n else ZERO
            if x.op in ATOMS:
                return x if y.a[0] == 1 else (ite(x, ZERO, ONE) if y.a[0] == 0 else ZERO)
            if x.op == 'app' and x.a[0] == 'byte': return byteis(x.a[1][0], x.a[1][1], y.a[0])
            if y is ZERO and x.op == 'fld' and x.a[1] == 1 and x.a[0].op == 'app' and x.a[0].a[0] == 'sfind' and x.a[0].a[1][1].op == 'str':
                return pred('starts', *x.a[0].a[1])      # found at the very beginning
            if x.op == 'fld' and x.a[1] == 1 and x.a[0].op == 'app' and x.a[0].a[0] == 'nth' and x.a[0].a[1][1] is ZERO and x.a[0].a[1][0].op == 'app' and 0 <= y.a[0] < 0x110000 and not 0xD800 <= y.a[0] < 0xE000:
                q = x.a[0].a[1][0]
                if q.a[0] == 'chars': return pred('starts', q.a[1][0], st(chr(y.a[0])))
                if q.a[0] == 'bytes' and y.a[0] < 256: return byteis(q.a[1][0], ZERO, y.a[0])
    d = sub(a, b)
    if d.op == 'int': return ONE if d.a[0] == 0 else ZERO
    lo, hi = bounds(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return ZERO
    c, ts = aslin(d)
    from math import gcd
    g = 0
    for k, _ in ts: g = gcd(g, abs(k))
    if c % g: return ZERO
    if ts[0][0] < 0: g = -g
    ts = tuple((k // g, x) for k, x in ts); r = -c // g
    if len(ts) == 1 and ts[0][0] == 1 and ts[0][1].op == 'len' and r == 0: return eq(ts[0][1].a[0], EMPTY)
    if len(ts) == 1 and ts[0][0] == 1 and not (b.op == 'int' and a is ts[0][1]) and not (a.op == 'int' and b is ts[0][1]): return _ieq(ts[0][1], num(r))
    return mk('ieq', mklin(0, {x: k for k, x in ts}), r)
def ieq(a, b): return lift(_ieq, (a, b))

# ---------------------------------------------------------------- strings
def length(s): return lift(_length, (s,))
def _length(s):
    if s.op == 'str': return num(len(s.a[0]))
    if s.op == 'slice': return sub(s.a[2], s.a[1])
    if s.op == 'arr': return num(len(s.a[0]))
    if s.op == 'list':
        r = ZERO
        for p in s.a[0]:
            if p.op == 'one': r = add(r, ONE)
            elif p.op == 'opt': r = add(r, ite(p.a[0], length(lst(p.a[1])), length(lst(p.a[2]))))
            else: r = add(r, mk('len', lst((p,))) if p.op != 'sub' else mk('len', p.a[0]))
        if r.op == 'len' and r.a[0] is s: return r
        return r
    if s.op == 'cat':
        r = ZERO
        for p in s.a[0]: r = add(r, length(p) if p.op not in ('many', 'opt') else mk('len', p))
        return r
    if s.op in ('unreach', 'skip'): return UNREACH
    return mk('len', s)

def sl(s, a, b): return lift(_sl, (s, a, b))
def _sl(s, a, b):
    if a is ZERO and b is length(s): return s
    if a is b and s.op not in ('list', 'arr'): return EMPTY
    if s.op == 'str' and a.op == 'int' and b.op == 'int': return st(s.a[0][a.a[0]:b.a[0]])
    if s.op == 'slice': return sl(s.a[0], add(s.a[1], a), add(s.a[1], b))
    if s.op == 'arr' and a.op == 'int' and b.op == 'int': return mk('arr', s.a[0][a.a[0]:b.a[0]])
    return mk('slice', s, a, b)

def eq(a, b): return lift(_eq, (a, b))
def _eq(a, b):
    if a is b: return ONE
    if a.op in ('unreach', 'skip') or b.op in ('unreach', 'skip'): return UNREACH
    if a.op == 'str' and b.op == 'str': return ZERO
    if b.op == 'str' and a.op != 'str': pass
    elif a.op == 'str' or a.id > b.id: a, b = b, a
    if b is EMPTY and a.op == 'slice':
        return ieq(a.a[1], a.a[2])
    if b.op == 'str' and a.op == 'slice':
        # a part of a text that is compared with a constant of the same length
        n = sub(a.a[2], a.a[1])
        if n.op == 'int':
            if n.a[0] != len(b.a[0]): return ZERO
            if a.a[0].op in ('sym', 'fld', 'app') and not (a.a[0].op == 'app' and a.a[0].a[0] in STREAMFN):
                if a.a[1] is ZERO: return pred('starts', a.a[0], b)
                if a.a[2] is length(a.a[0]): return pred('ends', a.a[0], b)
    for x, y in ((a, b), (b, a)):
        # comparison with a variant that carries no data
        if y.op == 'adt' and not y.a[2]:
            if x.op == 'adt' and x.a[0] == y.a[0]: return ONE if x.a[1] == y.a[1] else ZERO
            n = NVAR.get(y.a[0])
            if x.op != 'adt' and n: return is_(x, y.a[1], n)
    return mk('eq', a, b)

def pred(name, *args): return lift(lambda *x: _pred(name, x), args)
PRED = {}
def _pred(name, args):
    r = PRED.get(name)
    if r:
        v = r(*args)
        if v is not None: return v
    return mk('pred', name, tuple(args))

def _starts(s, p):
    if p.op == 'str':
        if p.a[0] == b'': return ONE
        if s.op == 'str': return ONE if s.a[0].startswith(p.a[0]) else ZERO
        if s.op == 'cat' and s.a[0] and s.a[0][0].op == 'str':
            h = s.a[0][0].a[0]
            if len(h) >= len(p.a[0]): return ONE if h.startswith(p.a[0]) else ZERO
            if not p.a[0].startswith(h): return ZERO
PRED['starts'] = _starts
def _ends(s, p):
    if p.op == 'str':
        if p.a[0] == b'': return ONE
        if s.op == 'str': return ONE if s.a[0].endswith(p.a[0]) else ZERO
        if s.op == 'cat' and s.a[0] and s.a[0][-1].op == 'str':
            h = s.a[0][-1].a[0]
            if len(h) >= len(p.a[0]): return ONE if h.endswith(p.a[0]) else ZERO
            if not p.a[0].endswith(h): return ZERO
PRED['ends'] = _ends
def _contains(s, p):
    if p.op == 'str':
        if s.op == 'str': return ONE if p.a[0] in s.a[0] else ZERO
        return is_(rawapp('sfind', s, p), 1, 2)
PRED['contains'] = _contains

def _bnd(s, i):
    """is i at the start of a character of s, or at its end"""
    if i is ZERO or i is length(s): return ONE
    if i.op == 'int':
        n = i.a[0]
        if n < 0: return ZERO
        if s.op == 'str': return ONE if n == len(s.a[0]) or n < len(s.a[0]) and (s.a[0][n] & 0xC0) != 0x80 else ZERO
PRED['is_char_boundary'] = _bnd
def whole(p):
    """is the constant a whole number of characters"""
    try: p.decode(); return True
    except UnicodeDecodeError: return False
def byteis(s, i, v): return lift(lambda x, y: _byteis(x, y, v), (s, i))
def _byteis(s, i, v):
    if s.op == 'str' and i.op == 'int': return ONE if i.a[0] < len(s.a[0]) and s.a[0][i.a[0]] == v else ZERO
    return mk('byteis', s, i, v)
def byteat(s, i):
    def g(s, i):
        if s.op == 'str' and i.op == 'int' and i.a[0] < len(s.a[0]): return num(s.a[0][i.a[0]])
        r = rawapp('byte', s, i); SORT[r] = 'u8'; return r
    return lift(g, (s, i))

def _joinstr(parts):
    out = []
    for p in parts:
        if p.op == 'cat': out.extend(p.a[0])
        elif p.op == 'str' and not p.a[0]: pass
        else: out.append(p)
    res = []
    for p in out:
        if p.op == 'str' and res and res[-1].op == 'str': res[-1] = st(res[-1].a[0] + p.a[0])
        else: res.append(p)
    return res
def cat(*parts):
    if any(p is UNREACH for p in parts): return UNREACH
    res = _joinstr(parts)
    if not res: return EMPTY
    if len(res) == 1 and res[0].op != 'many': return res[0]
    return mk('cat', tuple(res))

# ---------------------------------------------------------------- lists
# list = list(parts); part = one(x) | opt(cond, parts, parts) | many(S, lvl, list-term per element) | sub(opaque list)
def one(x): return mk('one', x)
def opt_part(c, a, b):
    a, b = tuple(a), tuple(b)
    if a == b: return mk('opt', ONE, a, a) if a else None
    return mk('opt', c, a, b)
def lst(parts):
    out = []
    for p in parts:
        if p is None: continue
        if p is UNREACH: return UNREACH
        if p.op == 'list': out.extend(p.a[0])
        elif p.op == 'opt' and p.a[0].op == 'int': out.extend(p.a[1] if p.a[0].a[0] else p.a[2])
        elif p.op == 'opt' and p.a[0].op == 'ite':
            c = p.a[0]
            x = lst((opt_part(c.a[1], p.a[1], p.a[2]),)); y = lst((opt_part(c.a[2], p.a[1], p.a[2]),))
            out.append(mk('opt', c.a[0], x.a[0], y.a[0])) if x is not y else out.extend(x.a[0])
        elif p.op in ('one', 'opt', 'many', 'sub'): out.append(p)
        elif p.op == 'ite':
            out.append(mk('opt', p.a[0], lst((p.a[1],)).a[0], lst((p.a[2],)).a[0]))
        else: out.append(mk('sub', p))
    if len(out) == 1 and out[0].op == 'sub': return out[0].a[0]
    if len(out) == 1 and out[0].op == 'opt':
        return ite(out[0].a[0], lst(out[0].a[1]), lst(out[0].a[2]))
    # many over identity
    if len(out) == 1 and out[0].op == 'many':
        S, lvl, body = out[0].a
        if body.op == 'list' and len(body.a[0]) == 1 and body.a[0][0].op == 'one' and body.a[0][0].a[0] is mk('elem', S, lvl) and S.op in ('sym', 'fld', 'app', 'list') and not (S.op == 'app' and S.a[0] in STREAMFN):
            return S
    return mk('list', tuple(out))
STREAMFN = {'split', 'split_ws', 'chars', 'bytes', 'lines', 'drop', 'char_indices', 'splitn'}
NIL = mk('list', ())
def seq_concat(a, b):
    """list ++ list or string ++ string"""
    return lst((a, b))

# effect traces: a snoc list of events
def trace(prev, name, *args): return mk('tr', prev, name, tuple(args))
TR0 = mk('tr0')

# ---------------------------------------------------------------- canonical booleans (ordered decision graphs)
def akey(t, memo={}):
    k = memo.get(t)
    if k is None:
        k = memo[t] = show(t, 0)
    return k
_canon = {}
def canon(c):
    c = truth(c) if c.op not in ('int',) else c
    r = _canon.get(c)
    if r is None:
        atoms = sorted(bool_atoms(c), key=akey)
        r = _canon[c] = _canon_on(c, atoms, 0)
    return r
def bool_atoms(c):
    s = set()
    def go(t):
        if t.op == 'ite': go(t.a[0]); go(t.a[1]); go(t.a[2])
        elif t.op in ATOMS: s.add(t)
    go(c)
    return s
def _canon_on(c, atoms, i):
    while i < len(atoms) and atoms[i] not in sup(c): i += 1
    if i == len(atoms) or c.op == 'int': return c
    a = atoms[i]
    x = _canon_on(truth(decided(c, {a: True})), atoms, i + 1)
    y = _canon_on(truth(decided(c, {a: False})), atoms, i + 1)
    if x is y: return x
    if x is ONE and y is ZERO: return a
    return mk('ite', a, x, y)
def decided(c, d):
    env = Env()
    for a, v in d.items(): env = env.add(a, v)
    return restrict(c, env) if env else UNREACH

def subst(t, m, memo=None):
    if memo is None: memo = {}
    def go(x):
        if x in m: return m[x]
        r = memo.get(x)
        if r is None:
            r = memo[x] = remake(x, go)
        return r
    return go(t)

# ---------------------------------------------------------------- facts
class Env:
    """a consistent set of decided atoms, with the consequences needed for strings, enums and integers"""
    __slots__ = ('d', 'id', 'subj')
    n = 0
    def __init__(self, d=None, subj=None):
        self.d = d or {}; self.subj = subj or {}
        Env.n += 1; self.id = Env.n
    def add(self, atom, val):
        d = dict(self.d); d[atom] = val
        s = dict(self.subj); key = self.key(atom)
        s[key] = s.get(key, ()) + ((atom, val),)
        e = Env(d, s)
        # consistency: every fact on the same subject must not be contradicted by the others
        for a, v in s[key]:
            if a is not atom and not (v is None):
                r = e._decide(a, skip=a)
                if r is not None and r != v: return None
        if e.dead(key): return None
        if key[0] == 's':
            # a search in this text whose outcome is known
            for k, fs in self.subj.items():
                if k[0] == 'is' and k[1].op == 'app' and k[1].a[0] == 'sfind' and k[1].a[1][0] is key[1]:
                    for a, v in fs:
                        r = e.found(a)
                        if r is not None and r != v: return None
                elif k[0] == 'i' and k[1].op == 'fld' and k[1].a[0].op == 'app' and k[1].a[0].a[0] == 'sfind' and k[1].a[0].a[1][0] is key[1]:
                    lo, hi, ne = e.interval(k[1], fs, None)
                    if lo is not None and hi is not None and lo > hi: return None
        elif key[0] == 'is' and key[1].op == 'app' and key[1].a[0] == 'sfind':
            r = e.found(atom)
            if r is not None and r != val: return None
        if key[0] == 's' and key[1].op in ('slice', 'cat'):
            # what is known about the text bounds its end points
            text, lo, hi, *_ = e.strfacts(s[key], None, None)
            L = length(key[1])
            if text is not None: lo = hi = len(text)
            for a, v in ((ieq(L, num(lo)), True),) if lo == hi else ((le(num(lo), L), True), (le(L, num(hi)), True) if hi is not None else (ONE, True)):
                if a is ONE: continue
                if a is ZERO: return None
                if a.op == 'ite' and a.a[1] is ZERO and a.a[2] is ONE: a = a.a[0]; v = not v
                if a.op not in ATOMS or e.key(a)[0] not in ('i', 's'): continue
                r = e.decide(a)
                if r is None:
                    e = e.add(a, v)
                    if e is None: return None
                elif r != v: return None
        return e
    def lenbounds(self, x):
        L = length(x)
        a0, a1 = ieq(L, ZERO), ieq(L, ONE)
        if a0.op != 'ieq' or a1.op != 'ieq' or a0.a[0] is not a1.a[0]: return None
        l, c0, c1 = a0.a[0], a0.a[1], a1.a[1]
        fs = self.subj.get(('i', l))
        if not fs: return None
        lo, hi, ne = self.interval(l, fs, None)
        sg = c1 - c0
        if sg == 1: return (None if lo is None else lo - c0, None if hi is None else hi - c0)
        if sg == -1: return (None if hi is None else c0 - hi, None if lo is None else c0 - lo)
        return None
    @staticmethod
    def key(atom):
        o = atom.op
        if o in ('is',): return ('is', atom.a[0])
        if o in ('le', 'ieq'):
            l = atom.a[0]
            if l.op == 'len': return ('s', l.a[0])
            return ('i', l)
        if o == 'eq': return ('s', atom.a[0])
        if o == 'byteis': return ('s', atom.a[0])
        if o == 'pred': return ('s', atom.a[1][0])
        return ('a', atom)
    def decide(self, atom):
        v = self.d.get(atom)
        if v is not None: return v
        return self._decide(atom, None)
    def _decide(self, atom, skip):
        key = self.key(atom)
        fs = self.subj.get(key)
        o = atom.op
        if o == 'is' and skip is None and key[1].op == 'app' and key[1].a[0] == 'sfind':
            r = self.found(atom)
            if r is not None: return r
        if not fs:
            if key[0] == 'i':
                if key[1].op != 'fld' or key[1].a[0].op != 'app' or key[1].a[0].a[0] != 'sfind': return None
            elif key[0] != 's' or key[1].op not in ('slice', 'cat') and (o != 'pred' or atom.a[0] != 'starts'): return None
            fs = ()
        if o == 'is':
            no = set()
            for a, v in fs:
                if a is skip: continue
                if v: return a.a[1] == atom.a[1]
                no.add(a.a[1])
            if atom.a[1] in no: return False
            if len(no) == atom.a[2] - 1: return True
            return None
        if key[0] == 'i':
            lo, hi, ne = self.interval(key[1], fs, skip)
            return self._int(atom, lo, hi, ne)
        if key[0] == 's': return self._str(atom, fs, skip)
        for a, v in fs:
            if a is skip: continue
            if a is atom: return v
        return None
    def interval(self, l, fs, skip, link=True):
        lo, hi = bounds(l); ne = set()
        if link and l.op == 'fld' and l.a[0].op == 'app' and l.a[0].a[0] == 'sfind' and l.a[0].a[1][1].op == 'str':
            # a search: found at the beginning or later
            q = pred('starts', *l.a[0].a[1])
            if q.op == 'pred':
                f2 = self.subj.get(('s', q.a[1][0]))
                r = self._str(q, f2, None, False) if f2 else None
                if r: lo = hi = 0
                elif r is False: lo = max(lo or 0, 1)
        for a, v in fs:
            if a is skip: continue
            if a.op == 'le':
                if v: hi = a.a[1] if hi is None else min(hi, a.a[1])
                else: lo = a.a[1] + 1 if lo is None else max(lo, a.a[1] + 1)
            elif a.op == 'ieq':
                if v: lo = a.a[1] if lo is None else max(lo, a.a[1]); hi = a.a[1] if hi is None else min(hi, a.a[1])
                else: ne.add(a.a[1])
        while lo is not None and lo in ne: lo += 1
        while hi is not None and hi in ne: hi -= 1
        return lo, hi, ne
    @staticmethod
    def _int(atom, lo, hi, ne):
        n = atom.a[1]
        if atom.op == 'le':
            if hi is not None and hi <= n: return True
            if lo is not None and lo > n: return False
            return None
        if n in ne: return False
        if (lo is not None and n < lo) or (hi is not None and n > hi): return False
        if lo is not None and lo == hi == n: return True
        return None
    def strfacts(self, fs, skip, subj=None):
        """(known text or None, lenlo, lenhi, bytes{i:v}, notbytes{i:set}, negtexts, prefixes, notprefixes, suffixes)"""
        lo, hi = 0, None; by = {}; nb = {}; neg = set(); pre = []; npre = []; suf = []; nsuf = []; ne = set(); text = None
        for a, v in fs:
            if a is skip: continue
            if a.op in ('le', 'ieq'):
                n = a.a[1]
                if a.op == 'le':
                    if v: hi = n if hi is None else min(hi, n)
                    else: lo = max(lo, n + 1)
                elif v: lo = max(lo, n); hi = n if hi is None else min(hi, n)
                else: ne.add(n)
            elif a.op == 'eq':
                if a.a[1].op == 'str':
                    if v: text = a.a[1].a[0]
                    else: neg.add(a.a[1].a[0])
            elif a.op == 'byteis':
                i = a.a[1]
                if i.op == 'int':
                    if v: by[i.a[0]] = a.a[2]; lo = max(lo, i.a[0] + 1)
                    else: nb.setdefault(i.a[0], set()).add(a.a[2])
            elif a.op == 'pred' and a.a[0] in ('starts', 'ends') and a.a[1][1].op == 'str':
                p = a.a[1][1].a[0]
                if v: lo = max(lo, len(p))
                if a.a[0] == 'starts':
                    (pre if v else npre).append(p)
                    if v:
                        for i, c in enumerate(p): by[i] = c
                else: (suf if v else nsuf).append(p)
            elif a.op == 'pred' and a.a[0] == 'is_char_boundary' and v and a.a[1][1].op == 'int': lo = max(lo, a.a[1][1].a[0])
        if subj is not None and subj.op in ('slice', 'cat'):
            lb = self.lenbounds(subj)
            if lb is not None:
                if lb[0] is not None: lo = max(lo, lb[0])
                if lb[1] is not None: hi = lb[1] if hi is None else min(hi, lb[1])
        if b'' in neg: ne.add(0)
        while lo in ne: lo += 1
        while hi is not None and hi in ne: hi -= 1
        if text is None and hi is not None and lo == hi and all(i in by for i in range(lo)):
            text = bytes(by[i] for i in range(lo))
        return text, lo, hi, by, nb, neg, pre, npre, suf, nsuf, ne
    def _str(self, atom, fs, skip, link=True):
        if link and atom.op == 'pred' and atom.a[0] == 'starts' and atom.a[1][1].op == 'str':
            l = fld(rawapp('sfind', *atom.a[1]), 1, 0)
            f2 = self.subj.get(('i', l))
            if f2:
                lo, hi, ne = self.interval(l, f2, None, False)
                if (lo or 0) > 0: return False
                if hi == 0: return True
        text, lo, hi, by, nb, neg, pre, npre, suf, nsuf, ne = self.strfacts(fs, skip, self.key(atom)[1])
        o = atom.op
        if o in ('le', 'ieq'):
            if text is not None: lo = hi = len(text)
            return self._int(atom, lo, hi, ne)
        if o == 'eq':
            if atom.a[1].op != 'str': return None
            w = atom.a[1].a[0]
            if text is not None: return text == w
            if w in neg: return False
            if len(w) < lo or (hi is not None and len(w) > hi) or len(w) in ne: return False
            for i, c in by.items():
                if i < len(w) and w[i] != c: return False
            for i, cs in nb.items():
                if i < len(w) and w[i] in cs: return False
            if any(not w.startswith(p) for p in pre) or any(w.startswith(p) for p in npre): return False
            if any(not w.endswith(p) for p in suf) or any(w.endswith(p) for p in nsuf): return False
            return None
        if o == 'byteis':
            i = atom.a[1]
            if i.op != 'int': return None
            i = i.a[0]
            if text is not None: return i < len(text) and text[i] == atom.a[2]
            if i in by: return by[i] == atom.a[2]
            if atom.a[2] in nb.get(i, ()): return False
            if hi is not None and i >= hi: return False
            return None
        if o == 'pred' and atom.a[0] in ('starts', 'ends') and atom.a[1][1].op == 'str':
            p = atom.a[1][1].a[0]
            if atom.a[0] == 'starts':
                if text is not None: return text.startswith(p)
                if hi is not None and hi < len(p): return False
                if any(p.startswith(q) for q in npre): return False
                if all(by.get(i) == c for i, c in enumerate(p)): return True
                if any(i in by and by[i] != c for i, c in enumerate(p)): return False
            else:
                if text is not None: return text.endswith(p)
                if hi is not None and hi < len(p): return False
                if any(q.endswith(p) for q in suf): return True
                if any(p.endswith(q) for q in nsuf): return False
                for q in suf:
                    if not p.endswith(q) and not q.endswith(p): return False
            return None
        if o == 'pred' and atom.a[0] == 'is_char_boundary' and atom.a[1][1].op == 'int':
            n = atom.a[1][1].a[0]
            if hi is not None and n > hi: return False
            if hi is not None and lo == hi == n: return True
            if text is not None: return n == len(text) or n < len(text) and (text[n] & 0xC0) != 0x80
            if n in by: return (by[n] & 0xC0) != 0x80
            for p in pre:
                if n == len(p) and whole(p): return True
        for a, v in fs:
            if a is not skip and a is atom: return v
        if o == 'is': return None
        return None
    def found(self, atom):
        """is(sfind(s, p), 1): what is known about the beginning and the end of s"""
        x = atom.a[0]
        if x.op != 'app' or x.a[0] != 'sfind' or x.a[1][1].op != 'str': return None
        s, p = x.a[1]; fs = self.subj.get(('s', s))
        if not fs: return None
        p = p.a[0]
        text, lo, hi, by, nb, neg, pre, npre, suf, nsuf, ne = self.strfacts(fs, None, s)
        if text is not None: return (p in text) == (atom.a[1] == 1)
        if any(p in q for q in pre) or any(p in q for q in suf): return atom.a[1] == 1
        if hi is not None and hi < len(p): return atom.a[1] != 1
        return None
    def dead(self, key):
        fs = self.subj[key]
        if key[0] == 's':
            text, lo, hi, by, nb, neg, pre, npre, suf, nsuf, ne = self.strfacts(fs, None, key[1])
            if hi is not None and lo > hi: return True
            if text is not None and text in neg: return True
            return False
        if key[0] == 'is':
            no = {a.a[1] for a, v in fs if not v}
            if fs and len(no) >= fs[0][0].a[2]: return True
        if key[0] == 'i':
            lo, hi, ne = self.interval(key[1], fs, None)
            if lo is not None and hi is not None and lo > hi: return True
        return False
    def text_of(self, s):
        fs = self.subj.get(('s', s))
        return self.strfacts(fs, None, s)[0] if fs else None

EMPTYENV = Env()
_rm = {}
def restrict(t, env):
    if not env.d: return t
    dec = {}
    for a in sup(t):
        v = env.decide(a)
        if v is not None: dec[a] = v
    if not dec: return t
    k = (t.id, env.id)
    r = _rm.get(k)
    if r is None:
        memo = {}
        def go(x):
            if x in memo: return memo[x]
            if sup(x).isdisjoint(dec): r = x
            else: r = rebuild(x, go, dec)
            memo[x] = r
            return r
        r = go(t)
        if r is not t and r.op != 'int': r = restrict(r, env)
        _rm[k] = r
    return r

# ---------------------------------------------------------------- equality
def glue(t, env):
    """joins the pieces of a text that is known to be a continuous part of another: "#" ++ s[1..] is s where s starts with '#'"""
    if t.op != 'cat': return t
    ps = list(t.a[0]); i = 0; ch = False
    while i + 1 < len(ps):
        x, y = ps[i], ps[i + 1]
        if x.op == 'slice' and y.op == 'slice' and x.a[0] is y.a[0] and x.a[2] is y.a[1]:
            ps[i:i + 2] = [sl(x.a[0], x.a[1], y.a[2])]; ch = True; continue
        if x.op == 'str' and y.op == 'slice' and y.a[1].op == 'int' and 0 < y.a[1].a[0] <= len(x.a[0]):
            n = y.a[1].a[0]; by = env.strfacts(env.subj.get(('s', y.a[0]), ()), None, y.a[0])[3]
            if all(by.get(j) == c for j, c in enumerate(x.a[0][-n:])):
                w = sl(y.a[0], ZERO, y.a[2])
                ps[i:i + 2] = ([st(x.a[0][:-n])] if x.a[0][:-n] else []) + [w]; ch = True; i = max(i - 1, 0); continue
        if x.op == 'slice' and y.op == 'str':
            d = sub(length(x.a[0]), x.a[2])
            if d.op == 'int' and 0 < d.a[0] <= len(y.a[0]):
                n = d.a[0]; suf = env.strfacts(env.subj.get(('s', x.a[0]), ()), None, x.a[0])[8]
                if any(q.endswith(y.a[0][:n]) for q in suf):
                    ps[i:i + 2] = [sl(x.a[0], x.a[1], length(x.a[0]))] + ([st(y.a[0][n:])] if y.a[0][n:] else []); ch = True; i = max(i - 1, 0); continue
        i += 1
    return cat(*ps) if ch else t

def known_texts(t, env):
    """puts the texts that are known in a case in place of what they are the value of, and writes out what runs over their pieces"""
    m = {}
    for k in env.subj:
        if k[0] == 's' and k[1].op in ('sym', 'fld', 'app', 'slice'):
            x = env.text_of(k[1])
            if x is not None: m[k[1]] = st(x)
    if not m: return t
    memo = {}
    def pieces(S):
        if S.op == 'app' and S.a[0] == 'split' and all(y.op == 'str' for y in S.a[1]) and S.a[1][1].a[0]:
            return [st(y) for y in S.a[1][0].a[0].split(S.a[1][1].a[0])]
    def go(x):
        if x in m: return m[x]
        r = memo.get(x)
        if r is None:
            if x.op == 'list':
                ps = []
                for y in x.a[0]:
                    q = pieces(go(y.a[0])) if y.op == 'many' else None
                    if q is not None and len(q) <= 8: ps += [go(subst(y.a[2], {mk('elem', y.a[0], y.a[1]): z})) for z in q]
                    else: ps.append(go(y))
                r = lst(ps)
            else: r = remake(x, go)
            memo[x] = r
        return r
    return go(t)

class Diff(Exception):
    def __init__(self, env, a, b): self.env, self.a, self.b = env, a, b

class Equiv:
    def __init__(self, limit=400000):
        self.memo = {}; self.steps = 0; self.limit = limit; self.cases = 0
    def check(self, a, b, env=None):
        """returns None if equal in every case consistent with env, else a Diff"""
        return self.go(a, b, env or EMPTYENV, 0)
    def rel(self, env, a, b):
        s = sup(a) | sup(b)
        keys = {Env.key(x) for x in s}
        out = []
        for k in list(keys):
            if k[0] == 's' and k[1].op in ('slice', 'cat'):
                x = ieq(length(k[1]), ZERO)
                if x.op in ATOMS: keys.add(Env.key(x))
        for k in keys:
            for f in env.subj.get(k, ()): out.append(f)
        return frozenset(out)
    def go(self, a, b, env, depth):
        if a is b: return None
        a = restrict(a, env); b = restrict(b, env)
        if a is b: return None
        key = (a, b, self.rel(env, a, b))
        if key in self.memo: return self.memo[key]
        self.steps += 1
        if self.steps > self.limit: raise RuntimeError('equality check exceeded its step limit')
        r = self._go(a, b, env, depth)
        self.memo[key] = r
        return r
    def split(self, atom, a, b, env, depth):
        if atom.op == 'tru' and atom.a[0].op == 'ite': raise RuntimeError('bad atom')
        for val in (True, False):
            e = env.add(atom, val)
            if e is None: continue
            self.cases += 1
            r = self.go(a, b, e, depth + 1)
            if r: return r
        return None
    def head(self, t):
        if t.op == 'ite': return t.a[0]
        if t.op in ATOMS: return t
        return None
    def _go(self, a, b, env, depth):
        if a is UNREACH or b is UNREACH:
            # an impossible case on one side: the other side must agree that it cannot happen
            return Diff(env, a, b)
        for t in (a, b):
            h = self.head(t)
            if h is not None: return self.split(h, a, b, env, depth)
        if a.op == 'cat' or b.op == 'cat':
            ga, gb = glue(a, env), glue(b, env)
            if ga is not a or gb is not b: return self.go(ga, gb, env, depth)
        if a.op == b.op:
            if a.op == 'adt':
                if a.a[0] != b.a[0] or a.a[1] != b.a[1] or len(a.a[2]) != len(b.a[2]): return Diff(env, a, b)
                return self.each(a.a[2], b.a[2], env, depth)
            if a.op in ('tup', 'arr'):
                if len(a.a[0]) != len(b.a[0]): return Diff(env, a, b)
                return self.each(a.a[0], b.a[0], env, depth)
            if a.op == 'clo' and a.a[0] == b.a[0]: return self.each(a.a[1], b.a[1], env, depth)
            if a.op == 'many' and a.a[1] == b.a[1] and a.a[0] is b.a[0]:
                return self.go(a.a[2], b.a[2], env, depth)
            if a.op in ('list', 'cat'):
                r = self.parts(list(a.a[0]), list(b.a[0]), env, depth)
                if r is None: return None
            if a.op == 'one': return self.go(a.a[0], b.a[0], env, depth)
            if a.op == 'tr':
                if a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
                    return self.go(a.a[0], b.a[0], env, depth) or self.each(a.a[2], b.a[2], env, depth)
                return Diff(env, a, b)
            if a.op == 'app' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
                r = self.each(a.a[1], b.a[1], env, depth)
                if r is None: return None
            if a.op == 'fld' and a.a[1:] == b.a[1:]:
                r = self.go(a.a[0], b.a[0], env, depth)
                if r is None: return None
        # eta: a list rebuilt element by element
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if x.op == 'list' and len(x.a[0]) == 1 and x.a[0][0].op == 'many' and x.a[0][0].a[0] is y:
                S, lvl, body = x.a[0][0].a
                w = lst([one(mk('elem', S, lvl))])
                return self.go(body, w, env, depth) if not sw else self.go(w, body, env, depth)
        # eta: opaque against constructor
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if y.op == 'adt' and x.op not in ('adt', 'tup', 'int', 'str', 'cat', 'list', 'lin'):
                v = self.variant(x, env)
                if v is None: 
                    n = NVAR.get(y.a[0])
                    if n == 1: v = 0
                if v == y.a[1]:
                    fs = tuple(fld(x, v if NVAR.get(y.a[0]) != 1 else None, i) for i in range(len(y.a[2])))
                    return self.each(fs, y.a[2], env, depth) if not sw else self.each(y.a[2], fs, env, depth)
                if v is None:
                    n = NVAR.get(y.a[0])
                    if n: return self.split(mk('is', x, 1 if n == 2 else y.a[1], n), a, b, env, depth)
            if y.op == 'tup' and x.op not in ('adt', 'tup', 'int', 'str'):
                fs = tuple(fld(x, None, i) for i in range(len(y.a[0])))
                return self.each(fs, y.a[0], env, depth) if not sw else self.each(y.a[0], fs, env, depth)
            if y.op == 'str':
                t = env.text_of(x)
                if t is not None: return None if t == y.a[0] else Diff(env, a, b)
                if x.op in ('sym', 'fld', 'app', 'slice') and x.op != 'str' and mk('eq', x, y) not in env.d:
                    e = env.add(mk('eq', x, y), False)
                    if e is None: return None
            if y.op == 'int' and x.op not in ('int',) and x.op not in ATOMS:
                l = aslin(x)
                at = ieq(x, y)
                if at is ONE: return None
                if at.op in ATOMS and env.decide(at) is True: return None
                if at.op == 'ite' or at.op in ATOMS:
                    if restrict(at, env) is ONE: return None
        if a.op in INTISH and b.op in INTISH and not isstrsym(a) and not isstrsym(b):
            at = restrict(ieq(a, b), env) if (a.op == 'lin' or b.op == 'lin' or any(k[0] == 'i' for k in env.subj)) else None
            if at is ONE: return None
        # case-split on anything the two still depend on
        s = [x for x in (sup(a) ^ sup(b)) | (sup(a) | sup(b)) if env.decide(x) is None]
        if s:
            d = [x for x in s if (x in sup(a)) != (x in sup(b))]
            c = min(d or s, key=lambda x: x.id)
            return self.split(c, a, b, env, depth)
        ka, kb = known_texts(a, env), known_texts(b, env)
        if ka is not a or kb is not b: return self.go(ka, kb, env, depth)
        return Diff(env, a, b)
    def variant(self, x, env):
        for a, v in env.subj.get(('is', x), ()):
            if v: return a.a[1]
        fs = env.subj.get(('is', x), ())
        if fs:
            n = fs[0][0].a[2]; no = {a.a[1] for a, v in fs if not v}
            rest = [i for i in range(n) if i not in no]
            if len(rest) == 1: return rest[0]
        return None
    def each(self, xs, ys, env, depth):
        for x, y in zip(xs, ys):
            r = self.go(x, y, env, depth)
            if r: return r
        return None
    def parts(self, xs, ys, env, depth):
        if len(xs) != len(ys):
            # let the caller split on remaining atoms
            return Diff(env, mk('list', tuple(xs)), mk('list', tuple(ys)))
        for x, y in zip(xs, ys):
            if x is y: continue
            if x.op == y.op == 'opt':
                if x.a[0] is not y.a[0]: return Diff(env, x, y)
                r = self.go(lst((x,)), lst((y,)), env, depth)
            elif x.op == 'opt' or y.op == 'opt': return Diff(env, x, y)
            else: r = self.go(x, y, env, depth)
            if r: return r
        return None

NVAR = {OPTION: 2, RESULT: 2, POLL: 2}
INTISH = {'lin', 'app', 'fld', 'sym', 'len', 'int'}
def isstrsym(t): return t.op == 'sym' and t.a[1] == 'str'

def show(t, depth=6):
    if not isinstance(t, T): return repr(t)
    if depth == 1: return '…' if children(t) else show(t, 0) if not children(t) else '…'
    d = depth - 1 if depth else 0
    o, a = t.op, t.a
    s = lambda x: show(x, d)
    if o == 'int': return str(a[0])
    if o == 'str': return repr(a[0].decode(errors='replace')).replace("'", '"')
    if o == 'sym': return a[0]
    if o == 'adt':
        n = a[0].split('::')[-1]
        n = VNAMES.get((a[0], a[1]), f'{n}#{a[1]}')
        return n + ('(' + ', '.join(map(s, a[2])) + ')' if a[2] else '')
    if o == 'tup': return '(' + ', '.join(map(s, a[0])) + ')'
    if o == 'ite': return f'[{s(a[0])} ? {s(a[1])} : {s(a[2])}]'
    if o == 'app': return f'{a[0]}(' + ', '.join(map(s, a[1])) + ')'
    if o == 'fld': return f'{s(a[0])}.{"" if a[1] is None else str(a[1])+"."}{a[2]}'
    if o == 'is': return f'{s(a[0])} is #{a[1]}'
    if o == 'eq': return f'{s(a[0])} == {s(a[1])}'
    if o == 'le': return f'{s(a[0])} <= {a[1]}'
    if o == 'ieq': return f'{s(a[0])} == {a[1]}'
    if o == 'lin': return '(' + ' + '.join([f'{k}*{s(x)}' if k != 1 else s(x) for k, x in a[1]] + ([str(a[0])] if a[0] else [])) + ')'
    if o == 'slice': return f'{s(a[0])}[{s(a[1])}..{s(a[2])}]'
    if o == 'cat': return ' ++ '.join(map(s, a[0]))
    if o == 'pred': return f'{a[0]}(' + ', '.join(map(s, a[1])) + ')'
    if o == 'many': return f'for {s(a[0])}: {s(a[2])}'
    if o == 'one': return s(a[0])
    if o == 'list': return 'list[' + ', '.join(map(s, a[0])) + ']'
    if o == 'tru': return s(a[0])
    if o == 'tr': return f'{s(a[0])}; {a[1]}(' + ', '.join(map(s, a[2])) + ')'
    def r(x):
        if isinstance(x, T): return s(x)
        if isinstance(x, tuple): return '(' + ','.join(map(r, x)) + ')'
        return str(x)
    return o + '<' + ', '.join(map(r, a)) + '>'
VNAMES = {}
def show_env(env, n=8):
    out = []
    for a, v in list(env.d.items())[-n:]: out.append(('' if v else 'not ') + show(a, 4))
    return ' and '.join(out) or 'always'
