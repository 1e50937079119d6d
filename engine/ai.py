"""Abstract interpreter for byte scanners: MIR over a relational domain.

An abstract state is a conjunction of difference bounds and congruences on positions (lin.py), facts `no byte c in
[lo,hi)` and `the byte at x is (not) one of ..` about the input text, and the structure of the store (variants, vectors,
match masks, containers).  Loops are closed by joining the states that reach a loop head (grouped by their discrete
shape) until nothing changes; the joined state keeps exactly the facts that all of them have.  The same transfer
functions can follow a bounded number of rounds of each loop without joining, to show that an obligation which could not
be discharged really fails (the state then describes concrete inputs, of which one is built as the witness)."""
import re, time, itertools
from lin import Lin, Num, Z, INF
from lin import S as sym
from lin import L as lit

class Stuck(Exception): pass
B0, B1 = ('bool', 0), ('bool', 1)
UNIT = ('adt', '()', 0, ())
OPT = 'std::option::Option'
def boolv(b): return B1 if b else B0
def adt(n, v, fs): return ('adt', n, v, tuple(fs))
def some(x): return ('adt', OPT, 1, (x,))
NONE = ('adt', OPT, 0, ())
def isadt(v): return isinstance(v, tuple) and v[0] == 'adt'
UTF8W = lambda c: 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4

class Frame:
    __slots__ = ('inst', 'id', 'pc', 'dest', 'target', 'k')
    def __init__(self, inst, id, pc, dest, target, k=None):
        self.inst = inst; self.id = id; self.pc = pc; self.dest = dest; self.target = target; self.k = k
    def at(self, pc): return Frame(self.inst, self.id, pc, self.dest, self.target, self.k)

class St:
    __slots__ = ('frames', 'store', 'num', 'none', 'pts', 'bnd', 'ghost', 'n', 'exact', 'trail', 'wid', 'snap', 'path')
    def __init__(self):
        self.frames = (); self.store = {}; self.num = Num(); self.none = frozenset(); self.pts = {}; self.bnd = frozenset()
        self.ghost = {}; self.n = 0; self.exact = True; self.trail = (); self.wid = (); self.snap = (); self.path = ()
    def copy(self):
        s = St.__new__(St)
        s.frames = self.frames; s.store = dict(self.store); s.num = self.num.copy(); s.none = self.none; s.pts = dict(self.pts); s.bnd = self.bnd
        s.ghost = dict(self.ghost); s.n = self.n; s.exact = self.exact; s.trail = self.trail; s.wid = self.wid; s.snap = self.snap; s.path = self.path
        return s
    def fresh(self, hint='v', lo=0, hi=None):
        n = f'{hint}{self.n}'; self.n += 1
        while n in self.num.d: n = f'{hint}{self.n}'; self.n += 1
        self.num.new(n, lo, hi)
        return sym(n)
    @property
    def dead(self): return self.num.bot
    # ---------------------------------------------------------------- facts
    def le(self, a, b):
        self.num.le(a - b); return self
    def eq(self, a, b):
        self.num.eq(a - b); return self
    def lt(self, a, b):
        self.num.le(a - b + 1); return self
    def point(self, base, x):
        """(singletons allowed or None, excluded) known about the code at x"""
        inn, out = None, frozenset()
        for (b, y), (i, o) in self.pts.items():
            if b == base and self.num.same(x, y):
                if i is not None: inn = i if inn is None else inn & i
                out = out | o
        if inn is not None: inn = inn - out
        return inn, out
    def learn(self, base, x, inn=None, out=frozenset()):
        i, o = self.point(base, x)
        if inn is not None: i = inn if i is None else i & inn
        o = o | out
        if i is not None: i = i - o
        if i is not None and not i: self.num.bot = True; return self
        for k in [k for k in self.pts if k[0] == base and k[1] != x and self.num.same(k[1], x)]: del self.pts[k]
        if i is not None and len({UTF8W(c) for c in i}) == 1:
            for b, y, n in self.wid:
                if b == base and self.num.same(x, y): self.num.eq(n - y - UTF8W(next(iter(i))))
        self.pts[(base, x)] = (i, o)
        return self.sat()
    def width(self, base, x, hi):
        """the position after the character at x"""
        i, _ = self.point(base, x)
        if i is not None and len({UTF8W(c) for c in i}) == 1:
            n = x + UTF8W(next(iter(i))); self.bnd = self.bnd | {(base, n)}
            return n
        for b, y, n in self.wid:
            if b == base and self.num.same(x, y): return n
        n = self.fresh('n'); self.le(x + 1, n); self.le(n, x + 4); self.le(n, hi)
        self.bnd = self.bnd | {(base, n), (base, x)}
        self.wid = self.wid + ((base, x, n),)
        return n
    def nothing(self, base, c, lo, hi):
        """no code c in [lo,hi)"""
        if self.num.isle(hi, lo): return self
        self.none = self.none | {(base, c, lo, hi)}
        return self.sat()
    def sat(self):
        """propagates between points and absence facts"""
        n = self.num
        for _ in range(6):
            if n.bot: return self
            ch = False
            singles = [(k[0], k[1], v[0]) for k, v in self.pts.items() if v[0] is not None]
            for base, x, i in singles:
                for (b, c, lo, hi) in self.none:
                    if b != base or i != frozenset((c,)): continue
                    a, d = n.isle(lo, x), n.islt(x, hi)
                    if a and d: n.bot = True; return self
                    if a and not n.isle(hi, x): n.le(hi - x); ch = True
                    elif d and not n.islt(x, lo): n.le(x - lo + 1); ch = True
            pl = list(self.pts.items())
            for p in range(len(pl)):
                for q in range(p + 1, len(pl)):
                    (b1, x), (i1, o1) = pl[p]; (b2, y), (i2, o2) = pl[q]
                    if b1 != b2: continue
                    dis = (i1 is not None and i2 is not None and not (i1 & i2)) or (i1 is not None and i1 <= o2) or (i2 is not None and i2 <= o1)
                    if not dis: continue
                    if n.isle(x, y):
                        if not n.islt(x, y): n.le(x - y + 1); ch = True
                    elif n.isle(y, x):
                        if not n.islt(y, x): n.le(y - x + 1); ch = True
            if not ch: return self
        return self
    def absent(self, base, c, lo, hi):
        """is `no c in [lo,hi)` known"""
        n = self.num
        if n.bot or n.isle(hi, lo): return True
        return self.frontier(base, c, lo, hi) is True
    def frontier(self, base, c, lo, hi=None):
        """positions up to which c is known to be absent from lo on"""
        n = self.num
        facts = [(f[2], f[3]) for f in self.none if f[0] == base and f[1] == c]
        pts = [k[1] for k, (i, o) in self.pts.items() if k[0] == base and (c in o or (i is not None and c not in i))]
        seen = []; work = [lo]
        while work:
            p = work.pop()
            if hi is not None and n.isle(hi, p): return True
            if any(n.same(p, q) for q in seen) or len(seen) > 12: continue
            seen.append(p)
            for a, b in facts:
                if n.isle(a, p) and not n.isle(b, p): work.append(b)
            for x in pts:
                if n.same(x, p):
                    work.append(p + 1)
                    if c < 128:
                        for b, y, q in self.wid:
                            if b == base and n.same(y, x): work.append(q)
            # a character other than c hides no start of c
            if c >= 128:
                for b, y, q in self.wid:
                    if b == base and n.same(y, p) and any(n.same(x, p) for x in pts): work.append(q)
        return seen
    def boundary(self, base, x):
        n = self.num
        if n.same(x, Z) or n.same(x, sym(base + '.len')): return True
        if any(b == base and n.same(x, y) for b, y in self.bnd): return True
        for d in (0, 1):
            i, _ = self.point(base, x - d)
            if i is not None and all(c < 128 for c in i): return True
        return False

class Panic(Exception): pass
def pending(st): return any(x[1][0] in ('again', 'armed') for x in st.snap)
def steps(v, w, out):
    """do v and w differ by constants only"""
    if isinstance(v, Lin) and isinstance(w, Lin):
        d = w - v
        if not d.const(): return False
        if d.c: out[(v, w)] = d.c
        return True
    if isinstance(v, tuple) and isinstance(w, tuple): return len(v) == len(w) and all(steps(x, y, out) for x, y in zip(v, w))
    return type(v) == type(w) and v == w
def stepped(v, w, f):
    if isinstance(v, Lin): return f(v, w)
    if isinstance(v, tuple): return tuple(stepped(x, y, f) for x, y in zip(v, w))
    return w
def pieces(a, b):
    """what b knows about the text beyond a, if only absence: (kind, base, code, from, length)"""
    out = set()
    for (base, x), (i, o) in b.pts.items():
        if (base, x) in a.pts:
            if a.pts[(base, x)] != (i, o): return None
            continue
        if i is not None: return None
        for c in o: out.add(('pt', base, c, x, 1))
    for f in b.none - a.none:
        n = f[3] - f[2]
        if not n.const() or n.c <= 0: return None
        out.add(('none', f[0], f[1], f[2], n.c))
    while True:
        # neighbours make one piece
        x = next(((p, q) for p in out for q in out if p[0] == q[0] == 'none' and p[1:3] == q[1:3] and p[3] + p[4] == q[3]), None)
        if x is None: return out
        p, q = x; out -= {p, q}; out.add(p[:4] + (p[4] + q[4],))

PATIENCE = 20
class AI:
    def __init__(self, prog, spec, mode='join', rounds=3, limit=6000, seconds=120, anchors=()):
        self.p = prog; self.spec = spec; self.mode = mode; self.rounds = rounds
        self.cuts = {}; self.sure = {}
        self.heads = {}; self.final = False
        self.obl = {}            # (kind, site) -> [proved, state or None, text]
        self.exits = []; self.steps = 0; self.limit = limit; self.deadline = time.time() + seconds
        self.anchors = tuple(anchors); self.cache = {}; self.visited = set(); self.cut = 0; self.tolerant = self.leap = False; self.notes = []; self.alpha = set(); self.consts = set(); self.ncons = -1; self.patience = PATIENCE
    # ---------------------------------------------------------------- types
    def ty(self, i): return self.p.types[i]
    def thresh(self, c):
        """the next bound to try: one that has to do with a constant of the program"""
        if len(self.consts) != self.ncons:
            self.ncons = len(self.consts)
            t = {-1, 0, 1}
            for k in self.consts:
                for d in (-1, 0, 1): t.add(k + d); t.add(d - k)
            self.thr = sorted(t)
        return next((t for t in self.thr if t >= c), INF)
    def body(self, n):
        b = self.p.body(n)
        if b is None: raise Stuck('no body: ' + self.p.insts[n]['path'])
        return b
    # ---------------------------------------------------------------- obligations
    def need(self, st, kind, site, ok, text='', neg=None):
        """records an obligation; `neg` gives the states (a list) in which it fails for certain"""
        if self.mode == 'join' and not self.final: return ok
        if pending(st): return ok
        o = self.obl.setdefault((kind, site), [True, None, text, 0])
        o[3] += 1
        if not ok and (o[0] or self.mode != 'join'):
            if self.mode == 'join':
                o[0] = False; o[1] = st; o[2] = text
                for w, e in self.cuts.items():
                    if re.search(r'\b' + w + r'\b', text): self.sure[(kind, site)] = text + f' (where {w} is {e} cut to fewer bits than the length of a line needs)'
            else:
                for s in (neg(st) if neg else [st.copy()]):
                    if s.dead: continue
                    w = self.witness(s)
                    if w is not None: o[0] = False; o[1] = w; o[2] = text; break
                else: self.cut += 1
        return ok
    def panic(self, st, kind, site, text):
        if self.mode == 'join' and not self.final or pending(st): return
        o = self.obl.setdefault((kind, site), [True, None, text, 0]); o[3] += 1
        if self.mode == 'join':
            o[0] = False; o[1] = st; o[2] = text
            t = st.ghost.get('t');
            if kind == 'index in range' and t is not None and 16 <= st.num.lb(t) < 1 << 16:
                self.sure[(kind, site)] = f'{text} for the element after the first {int(st.num.lb(t))}'
        else:
            w = self.witness(st)
            if w is not None: o[0] = False; o[1] = w; o[2] = text
    def fine(self, kind, site, text=''):
        if self.mode == 'join' and not self.final: return
        o = self.obl.setdefault((kind, site), [True, None, text, 0]); o[3] += 1
    def witness(self, st):
        """a concrete text described by an exact state"""
        if not st.exact or pending(st): return None
        st.sat()
        if st.dead: return None
        m = st.num.model()
        if m is None: return None
        ev = lambda e: e.sub({k: Lin(v) for k, v in m.items()}).c
        out = {}
        for base in self.spec.bases(st):
            n = ev(sym(base + '.len'))
            if n > 100000: return None
            t = [None] * n; no = [set() for _ in range(n)]
            for (b, c, lo, hi) in st.none:
                if b == base:
                    for k in range(max(0, ev(lo)), min(n, ev(hi))): no[k].add(c)
            wd = {ev(x): ev(y) - ev(x) for b, x, y in st.wid if b == base}
            pts = [(ev(x), i, o) for (b, x), (i, o) in st.pts.items() if b == base]
            for k, i, o in pts:
                if not 0 <= k < n: return None
                no[k] |= o
            for k, i, o in pts:
                if i is not None:
                    c = sorted(y for y in i if y not in no[k] and (k not in wd or wd[k] == UTF8W(y)))
                    if t[k] is not None and t[k] not in c: return None
                    if not c: return None
                    t[k] = c[0] if t[k] is None else t[k]
            for k, w in wd.items():
                if 0 <= k < n and t[k] is None and w > 1:
                    t[k] = next(c for c in ((0xE9, 0xE8) if w == 2 else (0x20AC, 0x3042) if w == 3 else (0x1F600, 0x1F601)) if c not in no[k])
            k = 0; chars = []
            while k < n:
                if t[k] is None:
                    t[k] = next(c for c in b'xyzuvwabcdefghijklmnopqrstuvwXYZ0123456789_' if c not in no[k])
                elif t[k] in no[k]: return None
                w = UTF8W(t[k])
                if k + w > n or any(t[k + d] is not None for d in range(1, w)): return None
                chars.append(chr(t[k])); k += w
            out[base] = ''.join(chars)
            b = set(); q = 0
            for ch in chars: b.add(q); q += UTF8W(ord(ch))
            b.add(q)
            if any(x == base and ev(y) not in b for x, y in st.bnd): return None
        for b, lo, hi, t in st.ghost.get('neq', ()):
            if b in out and out[b].encode()[ev(lo):ev(hi)] == t: return None
        self.last = m
        return out
    # ---------------------------------------------------------------- values
    def const(self, tyid, c):
        k = c[0]; t = self.ty(tyid)
        if k == 'int':
            n = int(c[1])
            if n < 1 << 17 and t['s'] not in ('u8', 'i8', 'char', 'bool'): self.consts.add(n)
            if t['k'] == 'bool': return boolv(n)
            if t['k'] == 'char': self.alpha.add(n); return ('chr', n)
            return Lin(n)
        if k == 'str': return ('text', c[1].encode())
        if k == 'bytes':
            b = bytes.fromhex(c[1])
            if t['k'] == 'array': return ('arr', tuple(Lin(x) for x in b))
            return ('text', b)
        if k == 'arr':
            e = t.get('e')
            if t['k'] in ('ref', 'ptr'): e = self.ty(t['to']).get('e')
            return ('arr', tuple(self.const(e, x) for x in c[1]))
        if k == 'ref': return self.const(t['to'] if t['k'] in ('ref', 'ptr') else tyid, c[1])
        if k == 'adt':
            if t['k'] == 'tuple': return adt('()', 0, [self.const(e, x) for e, x in zip(t['e'], c[2])])
            if t['k'] == 'adt': return self.mkadt(tyid, c[1], [self.const(f[1], x) for f, x in zip(t['v'][c[1]]['f'], c[2])])
        if k == 'fn': return ('fn', c[1])
        if k == 'fnptr': return ('fn', {'i': c[1], 'rp': self.p.insts[c[1]]['path'], 'p': self.p.insts[c[1]]['path'], 'a': []})
        if k == 'zst':
            if t['k'] == 'closure': return ('clo', tyid, ())
            if t['k'] == 'fndef': return ('opaque', t['n'])
            if t['k'] == 'adt' and t['v']: return self.mkadt(tyid, 0, [])
            return UNIT
        if t['k'] == 'tuple' and not t['e']: return UNIT
        return ('opaque', t['s'])
    def mkadt(self, tyid, var, fs):
        t = self.ty(tyid)
        return ('adt', t['n'], var, tuple(fs))
    def operand(self, st, fr, o):
        if o[0] in ('c', 'm'): return self.load(st, self.place(st, fr, o[1]))
        if o[0] == 'k': return self.const(o[1], o[2])
        if o[0] == 'rc': return B1
        raise Stuck('operand %r' % (o,))
    def op_ty(self, fr, o):
        if o[0] in ('c', 'm'): return self.place_ty(self.body(fr.inst), o[1])
        if o[0] == 'k': return o[1]
    def place_ty(self, body, place):
        i = body.locals[place[0]]
        for pr in place[1]:
            t = self.ty(i)
            if pr == 'd':
                if t['k'] in ('ref', 'ptr'): i = t['to']
                elif t['k'] == 'adt' and t['a']: i = t['a'][0]
            elif pr[0] == 'f': i = pr[2]
            elif pr[0] in ('i', 'ci'): i = t.get('e', i) if isinstance(t.get('e'), int) else i
        return i
    # places: ('cell', cell, path) | ('sl', slice value) | ('slidx', slice value, index) | ('val', value)
    def place(self, st, fr, pl):
        loc = ('cell', (fr.id, pl[0]), ())
        for pr in pl[1]: loc = self.project(st, fr, loc, pr)
        return loc
    def project(self, st, fr, loc, pr):
        if pr == 'd':
            v = self.load(st, loc)
            return self.deref(v)
        if pr[0] == 'f':
            if loc[0] == 'cell': return ('cell', loc[1], loc[2] + (('f', pr[1]),))
            if loc[0] == 'val': return ('val', self.step(st, loc[1], ('f', pr[1])))
        if pr[0] == 'v':
            if loc[0] == 'cell': return ('cell', loc[1], loc[2] + (('v', pr[1]),))
            return loc
        if pr[0] in ('i', 'ci'):
            if pr[0] == 'i': ix = st.store.get((fr.id, pr[1]))
            else:
                ix = Lin(pr[1])
                if pr[3]:
                    if loc[0] != 'sl' or loc[1][0] != 'slice': raise Stuck('index from the end')
                    ix = loc[1][3] - loc[1][2] - pr[1]
            if loc[0] == 'cell': return ('cell', loc[1], loc[2] + (('i', ix),))
            if loc[0] == 'sl': return ('slidx', loc[1], ix)
            if loc[0] == 'val': return ('val', self.step(st, loc[1], ('i', ix)))
        if pr[0] == 'ss' and loc[0] == 'sl' and loc[1][0] == 'slice':
            _, b, lo, hi, k = loc[1]
            return ('sl', ('slice', b, lo + pr[1], (hi - pr[2]) if pr[3] else lo + pr[2], k))
        raise Stuck('projection %r of %s' % (pr, loc[0]))
    def deref(self, v):
        if v[0] == 'ref': return ('cell', v[1], v[2])
        if v[0] in ('slice', 'text', 'cslice', 'cseq', 'arr', 'list', 'tagbag'): return ('sl', v)
        if v[0] == 'box': return ('val', v[1])
        if v[0] == 'ptr' and v[1][0] == 'cell': return ('cell', v[1][1], v[1][2])
        if v[0] == 'vref': return ('val', v[1])
        if v[0] in ('opaque',): return ('val', v)
        raise Stuck('dereference of ' + str(v[0]))
    def step(self, st, v, s):
        if s[0] == 'f':
            if v[0] == 'adt':
                if s[1] < len(v[3]): return v[3][s[1]]
            if v[0] == 'clo': return v[2][s[1]]
            if v[0] == 'opaque': return ('opaque', v[1])
            raise Stuck('field %s of %s' % (s[1], show(v)))
        if s[0] == 'v': return v
        if s[0] == 'i':
            i = s[1]
            if v[0] == 'arr':
                if i.const() and i.c < len(v[1]): return v[1][i.c]
            if v[0] == 'rep': return v[1]
            if v[0] == 'list' and i.const() and i.c < len(v[1]): return v[1][i.c]
            raise Stuck('element of %s' % (v[0],))
    def load(self, st, loc):
        if loc[0] == 'cell':
            v = st.store.get(loc[1])
            if v is None: raise Stuck('read of an unset cell')
            for s in loc[2]: v = self.step(st, v, s)
            return v
        if loc[0] == 'sl': return loc[1]
        if loc[0] == 'val': return loc[1]
        if loc[0] == 'slidx':
            v, i = loc[1], loc[2]
            if v[0] == 'slice': return ('byte', v[1], v[2] + i)
            if v[0] == 'text' and i.const(): return Lin(v[1][i.c])
            if v[0] in ('arr', 'list') and i.const(): return v[1][i.c]
            raise Stuck('element of a ' + v[0])
    def storeto(self, st, loc, val, site=None):
        if loc[0] != 'cell': raise Stuck('write through ' + loc[0])
        if not loc[2]: st.store[loc[1]] = val; return
        old = st.store.get(loc[1])
        st.store[loc[1]] = self.upd(st, old, loc[2], val, site)
    def upd(self, st, old, path, val, site):
        s = path[0]
        if s[0] == 'v': return self.upd(st, old, path[1:], val, site) if len(path) > 1 else val
        if s[0] == 'f':
            if old is None: old = adt('?', 0, ())
            if old[0] in ('adt', 'clo'):
                k = 3 if old[0] == 'adt' else 2
                fs = list(old[k])
                while len(fs) <= s[1]: fs.append(None)
                fs[s[1]] = val if len(path) == 1 else self.upd(st, fs[s[1]], path[1:], val, site)
                return old[:k] + (tuple(fs),)
            raise Stuck('field write into ' + str(old[0]))
        if s[0] == 'i':
            if len(path) == 1 and old[0] in ('seq', 'rep'):
                if old[0] == 'rep':
                    if isinstance(old[1], Lin) or not (isadt(old[1]) or old[1][0] == 'uninit'): raise Stuck('element write')
                    old = ('seq', (), old[2])
                return self.put(st, old, s[1], val, site)
            if old[0] == 'arr' and s[1].const():
                x = list(old[1]); x[s[1].c] = val if len(path) == 1 else self.upd(st, x[s[1].c], path[1:], val, site)
                return ('arr', tuple(x))
        raise Stuck('write of %r into %s' % (s[0], old and old[0]))
    # containers of produced elements: ('seq', ((a,b),...), capacity): the elements are the produced ones number a..b
    def seqlen(self, v):
        n = Z
        for a, b in v[1]: n = n + (b - a)
        return n
    def put(self, st, seq, ix, val, site):
        n = self.seqlen(seq)
        if not st.num.same(ix, n): raise Stuck('container written out of order')
        return self.append(st, seq, val, site)
    def append(self, st, seq, val, site):
        t = self.spec.produced(self, st, val, site)
        segs = seq[1]
        segs = tuple(s for s in segs if not st.num.same(s[0], s[1]))
        if segs and st.num.same(segs[-1][1], t): segs = segs[:-1] + ((segs[-1][0], t + 1),)
        else: segs = segs + ((t, t + 1),)
        return ('seq', segs, seq[2])
    # ---------------------------------------------------------------- forks
    def cmp(self, st, op, a, b):
        """[(state, bool)] for an integer comparison"""
        if not self.leap: return self.cmp1(st, op, a, b)
        out = self.cmp1(st, op, a, b)
        for s, v in out: s.path = s.path + ((op, v, 0 if s.num.same(a, b) else -1 if s.num.islt(a, b) else 1),)
        return out
    def cmp1(self, st, op, a, b):
        n = st.num
        if op == 'Gt': return self.cmp1(st, 'Lt', b, a)
        if op == 'Ge': return self.cmp1(st, 'Le', b, a)
        if op == 'Ne': return [(s, 1 - v) for s, v in self.cmp1(st, 'Eq', a, b)]
        if op == 'Le':
            if n.isle(a, b): return [(st, 1)]
            if n.islt(b, a): return [(st, 0)]
            x, y = st.copy(), st
            x.le(a, b).sat(); y.lt(b, a).sat()
            return [(s, v) for s, v in ((x, 1), (y, 0)) if not s.dead]
        if op == 'Lt':
            return [(s, 1 - v) for s, v in self.cmp1(st, 'Le', b, a)]
        if op == 'Eq':
            if n.same(a, b): return [(st, 1)]
            if n.islt(a, b) or n.islt(b, a): return [(st, 0)]
            x = st.copy(); x.eq(a, b).sat()
            out = [(x, 1)]
            if n.isle(a, b): st.lt(a, b).sat(); out.append((st, 0))
            elif n.isle(b, a): st.lt(b, a).sat(); out.append((st, 0))
            else:
                y = st.copy(); y.lt(a, b).sat(); st.lt(b, a).sat()
                out += [(y, 0), (st, 0)]
            return [(s, v) for s, v in out if not s.dead]
        raise Stuck('comparison ' + op)
    def codes(self, st, base, x, cs):
        """[(state, code or None)]: which of the codes cs is at x"""
        i, o = st.point(base, x)
        out = []
        if self.leap: st.path = st.path + (('codes', base),)
        for c in cs:
            self.alpha.add(c)
            if (i is not None and c not in i) or c in o: continue
            s = st.copy().learn(base, x, frozenset((c,)))
            s = self.split(s, base, x)
            out += [(y, c) for y in s]
        if i is None or i - frozenset(cs):
            s = st.learn(base, x, None, frozenset(cs))
            out += [(y, None) for y in self.split(s, base, x)]
        return out
    def split(self, st, base, x):
        """case distinction of a read position against the given landmarks of the text"""
        work = [st]
        for b, a in self.anchors:
            if b != base: continue
            nw = []
            for s in work:
                if s.dead: continue
                n = s.num
                if n.islt(x, a) or n.islt(a, x) or n.same(x, a): nw.append(s); continue
                p = s.copy(); p.lt(x, a); p.sat()
                q = s.copy(); q.eq(x, a); q.sat()
                r = s; r.lt(a, x); r.sat()
                nw += [y for y in (p, q, r) if not y.dead]
            work = nw
        return [s for s in work if not s.dead]
    def eqval(self, st, a, b):
        """[(state, bool)]"""
        if isinstance(a, Lin) and isinstance(b, Lin): return self.cmp(st, 'Eq', a, b)
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, Lin) and x[0] in ('byte', 'char'):
                if x[0] == 'byte' and isinstance(y, Lin) and y.const() and y.c > 127: raise Stuck('comparison with a non-ASCII byte')
                c = y.c if isinstance(y, Lin) and y.const() else y[1] if not isinstance(y, Lin) and y[0] == 'chr' else None
                if c is not None: return [(s, 1 if k == c else 0) for s, k in self.codes(st, x[1], x[2], [c])]
            if not isinstance(x, Lin) and x[0] == 'bits' and isinstance(y, Lin) and y.const() and y.c == 0:
                return [(s, 0 if ne else 1) for s, ne in self.nonempty(st, x)]
        if not isinstance(a, Lin) and not isinstance(b, Lin):
            if a[0] == 'bool' and b[0] == 'bool': return [(st, int(a[1] == b[1]))]
            if a[0] == 'chr' and b[0] == 'chr': return [(st, int(a[1] == b[1]))]
            if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1]:
                if a[2] != b[2]: return [(st, 0)]
                work = [(st, 1)]
                for x, y in zip(a[3], b[3]):
                    work = [r for s, v in work for r in (self.eqval(s, x, y) if v else [(s, 0)])]
                return work
        raise Stuck('comparison of %s and %s' % (show(a), show(b)))
    def nonempty(self, st, b):
        """is a match mask non-empty"""
        _, base, off, lo, hi, T, c = b
        out = []
        s = st.copy()
        p = s.fresh('p'); s.le(lo, p); s.lt(p, hi)
        if not s.dead:
            s.nothing(base, c, lo, p); s.learn(base, p, frozenset((c,)))
            if not s.dead: out += [(y, True) for y in self.split(s, base, p)]
        st.nothing(base, c, lo, hi)
        if not st.dead: out.append((st, False))
        return out
    def first(self, st, b):
        """[(state, index of the first match or None)]"""
        _, base, off, lo, hi, T, c = b
        out = []
        s = st.copy()
        p = s.fresh('m'); s.le(lo, p); s.lt(p, hi)
        if not s.dead:
            s.nothing(base, c, lo, p); s.learn(base, p, frozenset((c,)))
            # the same match may be known already
            for (b2, x), (i, o) in list(s.pts.items()):
                if b2 == base and x != p and i == frozenset((c,)): s.sat()
            if not s.dead: out += [(y, p - off) for y in self.split(s, base, p)]
        st.nothing(base, c, lo, hi)
        if not st.dead: out.append((st, None))
        return out
    # ---------------------------------------------------------------- rvalues: [(state, value)]
    def rvalue(self, st, fr, r, dty, site):
        k = r[0]
        if k == 'use': return [(st, self.operand(st, fr, r[1]))]
        if k in ('ref', 'rawptr'):
            loc = self.place(st, fr, r[2])
            if loc[0] == 'cell':
                v = self.peek(st, loc)
                if v is not None and not isinstance(v, Lin) and v[0] in ('slice', 'text', 'cslice', 'cseq') and r[2][1] and r[2][1][-1] == 'd': return [(st, v)]
                return [(st, ('ref', loc[1], loc[2]))]
            if loc[0] in ('sl',): return [(st, loc[1])]
            if loc[0] == 'val': return [(st, ('vref', loc[1]))]
            if loc[0] == 'slidx' and loc[1][0] == 'slice': return [(st, ('vref', ('byte', loc[1][1], loc[1][2] + loc[2])))]
            raise Stuck('reference to ' + loc[0])
        if k == 'agg':
            fs = [self.operand(st, fr, o) for o in r[4]]
            if r[1] == 'tuple': return [(st, adt('()', 0, fs))]
            if r[1] == 'array':
                return [(st, ('arr', tuple(fs)))]
            if r[1] == 'adt': return [(st, self.mkadt(r[2], r[3], fs))]
            if r[1] == 'closure': return [(st, ('clo', r[2], tuple(fs)))]
            raise Stuck('aggregate ' + r[1])
        if k == 'discr':
            v = self.load(st, self.place(st, fr, r[1]))
            if v[0] == 'adt':
                t = self.ty(self.place_ty(self.body(fr.inst), r[1]))
                d = int(t['v'][v[2]]['d']) if t['k'] == 'adt' and v[2] < len(t['v']) else v[2]
                return [(st, Lin(d - (1 << 128) if d >= 1 << 127 else d))]
            raise Stuck('discriminant of ' + show(v))
        if k == 'bin': return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.op_ty(fr, r[2]))
        if k == 'un':
            x = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if not isinstance(x, Lin):
                    if x[0] == 'bool': return [(st, boolv(1 - x[1]))]
                    if x[0] == 'range': return [(st, ('corange', x[1], x[2], x[3]))]
                    if x[0] == 'corange': return [(st, ('range', x[1], x[2], x[3]))]
                elif x.const():
                    T = self.bits_of(self.op_ty(fr, r[2]))
                    return [(st, Lin((1 << T) - 1 - x.c))]
            if r[1] == 'PtrMetadata': return [(st, self.length(st, x))]
            if r[1] == 'Neg' and isinstance(x, Lin): return [(st, -x)]
            raise Stuck('operator %s on %s' % (r[1], show(x)))
        if k == 'cast': return self.cast(st, fr, r[1], self.operand(st, fr, r[2]), self.op_ty(fr, r[2]), r[3])
        if k == 'repeat':
            x = self.operand(st, fr, r[1])
            return [(st, ('rep', x, int(r[2]) if r[2] is not None else None))]
        raise Stuck('rvalue ' + k)
    def peek(self, st, loc):
        try: return self.load(st, loc)
        except Stuck: return None
    def bits_of(self, tyid):
        n = self.ty(tyid).get('n', '')
        m = re.search(r'(\d+)$', n)
        return int(m.group(1)) if m else 64
    def limits(self, tyid):
        t = self.ty(tyid); b = self.bits_of(tyid)
        return (0, (1 << b) - 1) if t['k'] == 'uint' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    def length(self, st, v):
        if isinstance(v, Lin): raise Stuck('length of a number')
        if v[0] == 'slice': return v[3] - v[2]
        if v[0] == 'cslice': return v[3] - v[2]
        if v[0] == 'text': return Lin(len(v[1]))
        if v[0] in ('arr', 'list'): return Lin(len(v[1]))
        if v[0] == 'rep': return Lin(v[2])
        if v[0] == 'seq': return Lin(v[2]) if v[2] is not None else self.seqlen(v)
        if v[0] == 'cseq': return v[3] - v[2]
        if v[0] == 'ref': return self.length(st, self.load(st, ('cell', v[1], v[2])))
        if v[0] == 'vref': return self.length(st, v[1])
        if v[0] == 'tagbag': return st.fresh('tags', 0, 1 << 31)
        raise Stuck('length of ' + show(v))
    def binop(self, st, op, a, b, tyid):
        n = st.num
        wo = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Eq', 'Ne'):
            return [(s, boolv(v if base == 'Eq' else 1 - v)) for s, v in self.eqval(st, a, b)]
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            r = self.bitop(st, base, a, b, tyid)
            if r is None: raise Stuck('%s of %s and %s' % (op, show(a), show(b)))
            if wo: r = [(s, adt('()', 0, (v, B0))) for s, v in r]
            return r
        if base in ('Lt', 'Le', 'Gt', 'Ge'): return [(s, boolv(v)) for s, v in self.cmp(st, base, a, b)]
        if base in ('Add', 'Sub', 'Mul'):
            if base == 'Mul':
                if b.const(): v = a.scale(b.c)
                elif a.const(): v = b.scale(a.c)
                else: raise Stuck('product of variables')
            else: v = a + b if base == 'Add' else a - b
            if op.endswith('Unchecked'): return [(st, v)]
            return self.ranged(st, v, tyid, wo)
        if base in ('Rem', 'Div', 'BitAnd', 'Shr', 'Shl', 'BitOr', 'BitXor'):
            T = self.bits_of(tyid)
            if a.const() and b.const():
                x, y = a.c, b.c
                if base in ('Rem', 'Div') and y == 0: raise Stuck('division by zero')
                v = {'Rem': lambda: x % y, 'Div': lambda: x // y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shr': lambda: x >> (y % T), 'Shl': lambda: (x << (y % T)) & ((1 << T) - 1)}[base]()
                return [(st, Lin(v))]
            if base == 'Rem' and b.const() and b.c > 0: return [(st, self.rem(st, a, b.c))]
            if base == 'BitAnd':
                if b.const() and b.c & (b.c + 1) == 0: return [(st, self.rem(st, a, b.c + 1))]
                if a.const() and a.c & (a.c + 1) == 0: return [(st, self.rem(st, b, a.c + 1))]
                for x, y in ((a, b), (b, a)):
                    if y.const():
                        m = ((1 << T) - 1) ^ y.c
                        if m and m & (m + 1) == 0: return [(st, x - self.rem(st, x, m + 1))]
            if base == 'Div' and b.const() and b.c > 0:
                r = self.rem(st, a, b.c)
                q = st.fresh('q', 0); st.num.eq(q.scale(b.c) + r - a)
                return [(st, q)]
            if base in ('Shr', 'Shl') and a.const():
                full = (1 << T) - 1
                # bit sets given by their range of indices
                if base == 'Shr' and a.c == full: return [(st, ('range', Z, lit(T) - b, T))]
                if base == 'Shl' and a.c == full: return [(st, ('range', b, lit(T), T))]
                if base == 'Shl' and a.c == 1: return [(st, ('range', b, b + 1, T))]
                if base == 'Shl' and a.c == full - 1: return [(st, ('range', b + 1, lit(T), T))]
            if base == 'Shl' and b.const(): return self.ranged(st, a.scale(1 << b.c), tyid, False)
        raise Stuck('%s of %s and %s' % (op, a, b))
    def ranged(self, st, v, tyid, wo):
        lo, hi = self.limits(tyid)
        n = st.num
        W = (lambda x, o: adt('()', 0, (x, boolv(o)))) if wo else (lambda x, o: x)
        a, b = n.isle(lit(lo), v), n.isle(v, lit(hi))
        if a and b: return [(st, W(v, 0))]
        out = []
        s = st.copy(); s.le(lit(lo), v); s.le(v, lit(hi)); s.sat()
        if not s.dead: out.append((s, W(v, 0)))
        for c in ((v, lit(lo)), (lit(hi), v)):
            s = st.copy(); s.lt(*c); s.sat()
            if not s.dead:
                w = s.fresh('w', lo, hi); s.exact = s.exact and wo
                out.append((s, W(w, 1)))
        return out
    def rem(self, st, e, m):
        c = st.num.cong(e, m)
        if c is not None: return Lin(c)
        if st.num.isle(Z, e) and st.num.islt(e, lit(m)): return e
        r = st.fresh('r', 0, m - 1)
        st.num.congr = st.num.congr | {(e - r, m)}
        return r
    def bitop(self, st, op, a, b, tyid):
        ka = a[0] if not isinstance(a, Lin) else 'lin'; kb = b[0] if not isinstance(b, Lin) else 'lin'
        if ka == 'bool' and kb == 'bool':
            x, y = a[1], b[1]
            v = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y, 'Lt': int(x < y)}.get(op)
            return None if v is None else [(st, boolv(v))]
        if kb == 'bits' and ka != 'bits': a, b, ka, kb = b, a, kb, ka
        if ka == 'bits':
            _, base, off, lo, hi, T, c = a       # bit i is set iff lo <= off+i < hi and the byte there is c
            if op == 'BitAnd':
                if kb in ('range', 'corange'):
                    x, y = off + b[1], off + b[2]
                    keep = st.num
                    if kb == 'corange':
                        if not (keep.isle(x, lo) or st.absent(base, c, lo, x)): return None
                        x, y = y, off + T
                    out = []
                    for s, w in self.cmp(st, 'Le', x, lo):
                        lo2 = lo if w else x
                        for s2, w2 in self.cmp(s, 'Le', hi, y):
                            hi2 = hi if w2 else y
                            for s3, w3 in self.cmp(s2, 'Le', lo2, hi2): out.append((s3, ('bits', base, off, lo2 if w3 else hi2, hi2, T, c)))
                    return out
                if kb == 'lin' and b.const() and b.c == (1 << T) - 1: return [(st, a)]
                if kb == 'bitsm1' and b[1] == a:
                    return [(s, a if i is None else ('bits', base, off, off + i + 1, hi, T, c)) for s, i in self.first(st, a)]
            if op == 'Sub' and kb == 'lin' and b.const() and b.c == 1: return [(st, ('bitsm1', a))]
            if op == 'BitXor' and kb == 'range' and st.num.same(b[2], b[1] + 1):
                i, _ = st.point(base, off + b[1])
                if i == frozenset((c,)) and st.absent(base, c, lo, off + b[1]): return [(st, ('bits', base, off, off + b[2], hi, T, c))]
            if op in ('Gt', 'Ne') and kb == 'lin' and b.const() and b.c == 0: return [(s, boolv(ne)) for s, ne in self.nonempty(st, a)]
            return None
        if ka == 'range' and kb == 'lin' and op == 'Sub' and b.const() and b.c == 1 and st.num.same(a[2], a[1] + 1): return [(st, ('range', Z, a[1], a[3]))]
        if ka in ('byte', 'char') and op in ('Lt', 'Le', 'Gt', 'Ge') and kb in ('lin', 'chr'): return self.bytecmp(st, op, a, b.c if kb == 'lin' else b[1])
        if kb in ('byte', 'char') and op in ('Lt', 'Le', 'Gt', 'Ge') and ka in ('lin', 'chr'): return self.bytecmp(st, {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}[op], b, a.c if ka == 'lin' else a[1])
        return None
    def bytecmp(self, st, op, x, k):
        f = {'Lt': lambda c: c < k, 'Le': lambda c: c <= k, 'Gt': lambda c: c > k, 'Ge': lambda c: c >= k}[op]
        yes = frozenset(c for c in range(256) if f(c)) ; no = frozenset(range(256)) - yes
        small = yes if len(yes) <= len(no) else no
        if len(small) > 128: return None
        out = []
        s = st.copy().learn(x[1], x[2], small)
        if not s.dead: out.append((s, boolv(small is yes)))
        st.learn(x[1], x[2], None, small)
        if not st.dead: out.append((st, boolv(small is not yes)))
        return out
    def cast(self, st, fr, kind, v, sty, dty):
        if kind == 'IntToInt':
            t = self.ty(dty)
            if isinstance(v, Lin):
                lo, hi = self.limits(dty)
                if t['k'] == 'char': return [(st, ('chr', v.c))] if v.const() else None
                if st.num.isle(lit(lo), v) and st.num.isle(v, lit(hi)): return [(st, v)]
                if v.const(): return [(st, Lin((v.c - lo) % (hi - lo + 1) + lo))]
                out = []
                s = st.copy(); s.le(lit(lo), v); s.le(v, lit(hi)); s.sat()
                if not s.dead: out.append((s, v))
                for a, b in ((v, lit(lo)), (lit(hi), v)):
                    s = st.copy(); s.lt(a, b); s.sat()
                    if not s.dead:
                        w = s.fresh('trunc', lo, hi)
                        if 7 < hi.bit_length() < 32 and lo == 0 and s.num.ub(v) > 1 << 31 and v.t: self.cuts[w.t[0][0]] = v
                        if not s.num.islt(v, lit(lo)) : s.num.congr = s.num.congr | {(v - w, hi - lo + 1)}
                        s.lt(w, v) if s.num.islt(lit(hi), v) else None
                        out.append((s, w))
                return out
            if v[0] == 'bool': return [(st, Lin(v[1]))]
            if v[0] in ('bits', 'range', 'corange'): return [(st, v)]
            if v[0] == 'byte' and t['k'] in ('char', 'uint', 'int'): return [(st, v)]
            if v[0] == 'chr': return [(st, Lin(v[1]))]
        if kind == 'Transmute':
            if not isinstance(v, Lin):
                if v[0] in ('bits', 'slice', 'cseq', 'seq', 'uninit', 'text', 'cslice'): return [(st, v)]
                if v[0] == 'rep': return [(st, ('splat', v[1]))]
                if v[0] == 'arr' and len(set(v[1])) == 1: return [(st, ('splat', v[1][0]))]
            raise Stuck('transmute of ' + show(v))
        if kind.startswith('coerce') or kind in ('PtrToPtr', 'FnPtrToPtr', 'Subtype'):
            if kind.startswith('coerce:Unsize') and not isinstance(v, Lin) and v[0] == 'ref':
                x = self.load(st, ('cell', v[1], v[2]))
                t = self.ty(dty)
                if not isinstance(x, Lin) and x[0] == 'rep' and not isinstance(x[1], Lin) and x[1][0] == 'uninit': return [(st, ('cseq', (v[1], v[2]), Z, Lin(x[2])))]
                if not isinstance(x, Lin) and x[0] in ('rep', 'buf') : return [(st, ('cslice', (v[1], v[2]), Z, Lin(x[2] if x[0] == 'rep' else x[1])))]
                if not isinstance(x, Lin) and x[0] == 'seq' : return [(st, ('cseq', (v[1], v[2]), Z, Lin(x[2]) if x[2] is not None else self.seqlen(x)))]
                if not isinstance(x, Lin) and x[0] == 'arr': return [(st, x)]
            return [(st, v)]
        if kind in ('PointerExposeProvenance', 'PointerExposeAddress'): return [(st, self.address(st, v))]
        raise Stuck('cast %s of %s' % (kind, show(v)))
    def address(self, st, v):
        if v[0] == 'ptr' and v[1][0] == 'base': return sym(v[1][1] + '.addr') + v[2]
        raise Stuck('address of ' + show(v))
    # ---------------------------------------------------------------- exploration
    def run(self, inst, args, st):
        st.frames = (Frame(inst, (), 0, None, None),)
        for i, a in enumerate(args): st.store[((), i + 1)] = a
        if self.mode == 'join':
            for rnd in range(200):
                self.changed = False
                self.explore(st.copy())
                if not self.changed: break
            else: raise Stuck('no fixpoint')
            self.final = True
            self.exits = []
            self.explore(st.copy())
        else: self.explore(st.copy())
    def explore(self, st):
        work = [st]; self.seen = set()
        while work:
            s = work.pop()
            self.steps += 1
            if self.steps > self.limit or time.time() > self.deadline:
                if self.mode == 'join': raise Stuck('the analysis does not converge within its limits')
                self.cut += 1; return
            if not self.tolerant: work.extend(self.block(s)); continue
            try: work.extend(self.block(s))
            except Stuck as e:
                # this path is not followed any further
                self.cut += 1
                if str(e) not in self.notes and len(self.notes) < 5: self.notes.append(str(e))
    def block(self, st):
        fr = st.frames[-1]
        body = self.body(fr.inst)
        self.visited.add(fr.inst)
        if fr.pc in body.cfg().loops:
            if self.mode == 'join':
                st = self.head(st, fr, body)
                if st is None: return []
                fr = st.frames[-1]
            else:
                t = dict(st.trail); k = (fr.id, fr.pc); t[k] = t.get(k, 0) + 1
                st.trail = tuple(sorted(t.items(), key=repr))
                if t[k] > self.rounds + 1: self.cut += 1; return []
                if self.leap:
                    st, more = self.accelerate(st, k)
                    if st is None: return []
                    if more is not None: return [st, more]
        if self.leap: st.path = st.path + (fr.pc,)
        cur = [st]
        blk = body.blocks[fr.pc]
        for s in blk['f']:
            nxt = []
            for x in cur:
                f = x.frames[-1]
                if s[0] == '=':
                    dty = None
                    rs = self.rvalue(x, f, s[2], dty, s[3])
                    for y, v in rs:
                        if y.dead: continue
                        if s[1][1]: self.storeto(y, self.place(y, f, s[1]), v, s[3])
                        else: y.store[(f.id, s[1][0])] = v
                        nxt.append(y)
                elif s[0] == 'x':
                    x.store.pop((f.id, s[1]), None); nxt.append(x)
                elif s[0] == 'sd':
                    loc = self.place(x, f, s[1]); v = self.peek(x, loc)
                    if v is None or v[0] != 'adt': raise Stuck('set discriminant')
                    self.storeto(x, loc, ('adt', v[1], s[2], v[3])); nxt.append(x)
                else: raise Stuck('statement ' + s[0])
            cur = nxt
        out = []
        for x in cur: out += self.term(x, x.frames[-1], blk)
        return out
    # ---------------------------------------------------------------- many rounds at once (unjoined mode)
    def accelerate(self, st, k):
        """a state after any number of further rounds of a loop like the last one.

        Two consecutive visits of the head that differ by constant steps, the round in between having learnt nothing but the
        absence of bytes, are continued by a state in which an unknown number of such rounds has passed.  It counts only
        once one more round has taken the same decisions: these are linear in the number of rounds and hold for the first
        and the last of them, so they hold for all in between."""
        old = dict(st.snap).get(k)
        path, st.path = st.path, ()
        if old is not None and old[0] == 'armed':
            st.snap = tuple(x for x in st.snap if x[0] != k) + ((k, ('again',) + old[1:]),)
            return st, None
        if old is not None and old[0] == 'again':
            _, a, want, learnt = old
            ok = path == want and not st.dead and pieces(a, st) == learnt
            st.snap = tuple(x for x in st.snap if x[0] != k) + ((k, ('done',)),)
            return (st, None) if ok else (None, None)
        if pending(st) or not st.exact or old is not None and old[0] == 'done': return st, None
        more = None
        if old is not None:
            _, a, _, _ = old
            more = self.jump(a, st, k, path)
        c = st.copy(); c.snap = ()
        st.snap = tuple(x for x in st.snap if x[0] != k) + ((k, ('seen', c, path, None)),)
        if more is not None:
            # both go on from here without another look at the head
            t = dict(st.trail); t[k] -= 1; st.trail = tuple(sorted(t.items(), key=repr))
            st.snap = tuple(x for x in st.snap if x[0] != k) + ((k, ('done',)),)
        return st, more
    def jump(self, a, b, k, path):
        if a.store.keys() != b.store.keys() or not b.exact or a.dead or b.dead: return None
        if a.wid != b.wid or a.ghost.keys() != b.ghost.keys() or a.ghost.get('neq') != b.ghost.get('neq'): return None
        ds = {}
        for x in a.store:
            if not steps(a.store[x], b.store[x], ds): return None
        for x in a.ghost:
            if not steps(a.ghost[x], b.ghost[x], ds): return None
        got = pieces(a, b)
        if got is None or not ds: return None
        unit = next((x for (x, y), d in ds.items() if d == 1), None)
        s = b.copy()
        if unit is not None:
            y = unit + 1; q = s.fresh('k'); s.lt(y, q); cnt = q - y
        else: q = s.fresh('k', 1); cnt = q
        move = lambda v, w: w + cnt.scale((w - v).c) if (w - v).c else w
        s.store = {x: stepped(a.store[x], b.store[x], move) for x in b.store}
        s.ghost = {x: stepped(a.ghost[x], b.ghost[x], move) for x in b.ghost}
        learnt = set()
        for kind, base, c, lo, d in got:
            # the piece [lo,lo+d) of the last round, and those of the rounds passed over
            if d not in ds.values(): return None
            s.nothing(base, c, lo + d, lo + d + cnt.scale(d))
            learnt.add((kind, base, c, lo + d + cnt.scale(d), d))
        s.sat()
        if s.dead: return None
        t = dict(s.trail); t[k] = 0; s.trail = tuple(sorted(t.items(), key=repr))
        c = s.copy(); c.snap = ()
        s.snap = tuple(x for x in s.snap if x[0] != k) + ((k, ('armed', c, path, learnt)),)
        return s
    def go(self, st, pc):
        st.frames = st.frames[:-1] + (st.frames[-1].at(pc),)
        return [st]
    def term(self, st, fr, blk):
        t = blk['t']; k = t[0]
        if k == 'goto': return self.go(st, t[1])
        if k == 'drop': return self.go(st, t[3])
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            tg = [(int(a), b) for a, b in t[3]]
            if not isinstance(v, Lin):
                if v[0] == 'bool' or v[0] == 'chr': v = Lin(v[1])
                elif v[0] in ('byte', 'char'):
                    out = []
                    if v[0] == 'byte' and any(a > 127 for a, _ in tg): raise Stuck('comparison with a non-ASCII byte')
                    for s, c in self.codes(st, v[1], v[2], [a for a, _ in tg]):
                        out += self.go(s, t[4] if c is None else dict(tg)[c])
                    return out
                elif v[0] == 'bits' and [a for a, _ in tg] == [0]:
                    return [y for s, ne in self.nonempty(st, v) for y in self.go(s, t[4] if ne else tg[0][1])]
                else: raise Stuck('switch on ' + show(v))
            if v.const():
                for a, b in tg:
                    if a == v.c: return self.go(st, b)
                return self.go(st, t[4])
            out = []; rest = [st]
            for a, b in tg:
                nr = []
                for s in rest:
                    for s2, e in self.cmp(s, 'Eq', v, lit(a)):
                        if e: out += self.go(s2, b)
                        else: nr.append(s2)
                rest = nr
            for s in rest: out += self.go(s, t[4])
            return out
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            site = blk['sp']
            if v[0] != 'bool': raise Stuck('assert on ' + show(v))
            what = {'bounds': 'index in range', 'overflow': 'no arithmetic overflow'}.get(t[3][0], t[3][0])
            if v[1] == t[2]:
                self.fine(what, site); return self.go(st, t[4])
            self.panic(st, what, site, t[3][0] + ' assertion fails')
            return []
        if k == 'return':
            if len(st.frames) == 1:
                v = st.store.get((fr.id, 0), UNIT)
                self.spec.returned(self, st, v)
                self.exits.append(st)
                return []
            v = st.store.get((fr.id, 0), UNIT)
            fid = fr.id
            st.store = {c: x for c, x in st.store.items() if c[0] != fid}
            st.frames = st.frames[:-1]
            caller = st.frames[-1]
            if fr.k is not None: return fr.k(self, st, v)
            return self.ret(st, caller, fr.dest, v, fr.target)
        if k == 'call': return self.call(st, fr, t, blk)
        if k == 'unreachable': return []
        raise Stuck('terminator ' + k)
    def ret(self, st, fr, dest, v, target):
        if target is None: return []
        if v is not None:
            if dest[1]: self.storeto(st, self.place(st, fr, dest), v)
            else: st.store[(fr.id, dest[0])] = v
        return self.go(st, target)
    def own_site(self, st, sp):
        """the innermost call in the crate's own code"""
        for f in reversed(st.frames):
            if '/rustlib/' not in sp: break
            sp = self.body(f.inst).blocks[f.pc]['sp']
        return sp
    def call(self, st, fr, t, blk):
        f = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, a) for a in t[2]]
        if isinstance(f, Lin) or f[0] != 'fn': raise Stuck('call of ' + show(f))
        f = f[1]
        name = f.get('rp') or f['p']
        c = Call(self, st, fr, f, name, args, [self.op_ty(fr, a) for a in t[2]], t[6], blk['sp'])
        if t[4] is None:
            self.panic(st, 'no explicit panic', self.own_site(st, blk['sp']), 'calls ' + name); return []
        if re.search(r'^std::ops::(Fn|FnMut|FnOnce)::call(_mut|_once)?$', f['p']):
            g = args[0]
            while not isinstance(g, Lin) and g[0] in ('ref', 'vref'): g = g[1] if g[0] == 'vref' else self.load(st, ('cell', g[1], g[2]))
            if isinstance(g, Lin): raise Stuck('call of a number')
            xs = list(args[1][3])
            if g[0] == 'clo':
                i = self.closure_body(g)
                b = self.body(i)
                self1 = ('vref', g) if self.ty(b.locals[1])['k'] == 'ref' else g
                return self.enter(st, fr, i, [self1] + xs, t[3], t[4], plain=True)
            if g[0] == 'fn':
                f = g[1]; name = f.get('rp') or f['p']; args = xs
                c = Call(self, st, fr, f, name, args, [None] * len(args), t[6], blk['sp'])
            else: raise Stuck('call of ' + show(g))
        m = getattr(self.spec, 'hooks', {}).get(name) or find_model(name, f['p'])
        if m is not None:
            rs = m(self, st, c)
            if rs is not None:
                out = []
                for s, v in rs:
                    if s.dead: continue
                    out += self.ret(s, s.frames[-1], t[3], v, t[4])
                return out
        i = f.get('i')
        if i is None: raise Stuck('call of ' + name)
        if self.p.insts[i]['cr'] not in ('tmi', 'vharness') and not INLINE.search(name) and not self.small(i):
            raise Stuck('no model for ' + name)
        return self.enter(st, fr, i, args, t[3], t[4])
    def small(self, i):
        """a library function that can be followed into"""
        b = self.p.body(i)
        return b is not None and len(b.blocks) <= 24 and not b.cfg().loops
    def enter(self, st, fr, i, args, dest, target, k=None, plain=False):
        if len(st.frames) > 24 or sum(1 for g in st.frames if g.inst == i) > 1: raise Stuck('recursion in ' + self.p.insts[i]['path'])
        b = self.body(i)
        fid = fr.id + (fr.pc,)
        if b.spread is not None and not plain and len(args) != b.argc:
            tup = args[b.spread - 1] if len(args) >= b.spread else UNIT
            args = args[:b.spread - 1] + list(tup[3])
        for n, a in enumerate(args): st.store[(fid, n + 1)] = a
        st.frames = st.frames + (Frame(i, fid, 0, dest, target, k),)
        return [st]
    def closure(self, st, clo, args, byref=True):
        """runs a closure to its end (no loops inside): [(state, value)]"""
        if isinstance(clo, Lin): raise Stuck('not a closure')
        if clo[0] == 'fn':
            i = clo[1].get('i'); a = list(args)
            m = find_model(clo[1].get('rp') or clo[1]['p'], clo[1]['p'])
            if m is not None:
                c = Call(self, st, st.frames[-1], clo[1], clo[1].get('rp') or clo[1]['p'], list(args), [None] * len(args), None, '')
                rs = m(self, st, c)
                if rs is not None: return rs
            if i is None: raise Stuck('call of ' + clo[1]['p'])
        elif clo[0] == 'clo':
            i = self.closure_body(clo)
            self1 = ('vref', clo) if self.ty(self.body(i).locals[1])['k'] == 'ref' else clo
            b = self.body(i)
            a = [self1] + (list(args) if b.argc == 1 + len(args) else [adt('()', 0, args)])
        else: raise Stuck('call of ' + show(clo))
        depth = len(st.frames)
        fr = st.frames[-1]
        self.enter(st, Frame(fr.inst, fr.id + ('c',), fr.pc, None, None), i, a, None, None, k=lambda ai, s, v: [('done', s, v)])
        out = []; work = [st]; n = 0
        while work:
            s = work.pop(); n += 1
            if n > 400: raise Stuck('closure too complex')
            if s.frames[-1].pc in self.body(s.frames[-1].inst).cfg().loops: raise Stuck('loop in a closure')
            for y in self.block(s):
                if isinstance(y, tuple): out.append((y[1], y[2]))
                else: work.append(y)
        return out
    def closure_body(self, clo):
        path = self.ty(clo[1])['n']
        cands = [n for n in self.p.bypath.get(path, ()) if self.p.body(n)]
        if len(cands) != 1:
            cands = [n for n in cands if self.ty(self.peel(self.body(n).locals[1])) == self.ty(clo[1])]
        if not cands: raise Stuck('closure body not found')
        return cands[0]
    def peel(self, i):
        while self.ty(i)['k'] in ('ref', 'ptr'): i = self.ty(i)['to']
        return i
    # ---------------------------------------------------------------- joins at loop heads
    def leaves(self, v, key, out, st):
        if isinstance(v, Lin):
            key.append('#')
            for b, a in self.anchors:
                key.append('>' if st.num.islt(a, v) else '<=' if st.num.isle(v, a) else '?')
            out.append(v); return
        if isinstance(v, tuple):
            if v and v[0] == 'seq':
                segs = tuple(s for s in v[1] if not st.num.same(s[0], s[1]))
                key.append(('seq', len(segs), v[2]))
                for a, b in segs: out.append(a); out.append(b)
                return
            key.append('(')
            for x in v: self.leaves(x, key, out, st)
            key.append(')'); return
        if isinstance(v, frozenset): key.append(v); return
        if isinstance(v, dict): key.append(v.get('rp') or v.get('p')); return
        key.append(v)
    def rebuild(self, v, it, st):
        if isinstance(v, Lin): return next(it)
        if isinstance(v, tuple):
            if v and v[0] == 'seq':
                segs = tuple(s for s in v[1] if not st.num.same(s[0], s[1]))
                return ('seq', tuple((next(it), next(it)) for _ in segs), v[2])
            return tuple(self.rebuild(x, it, st) for x in v)
        return v
    def head(self, st, fr, body):
        # forget what is no longer needed
        keep = {}
        for f in st.frames:
            b = self.body(f.inst)
            lv, taken = b.live()
            pc = f.pc if f is st.frames[-1] else None
            for (fid, l), v in st.store.items():
                if fid != f.id: continue
                if pc is not None and not isinstance(l, str) and l not in lv[pc]: continue
                if pc is None:
                    # a waiting frame: live after the call
                    nx = st.frames[st.frames.index(f) + 1]
                    if nx.target is not None and l not in lv[nx.target] and not isinstance(l, str): continue
                keep[(fid, l)] = v
        for c, v in st.store.items():
            if c[0] in (('arg',), ('heap',)): keep[c] = v
        st.store = keep
        cells = sorted(keep, key=repr)
        key = [(f.inst, f.id, f.pc) for f in st.frames]; exprs = []
        for c in cells: key.append(c); self.leaves(keep[c], key, exprs, st)
        gk = sorted(st.ghost)
        for g in gk: key.append(g); self.leaves(st.ghost[g], key, exprs, st)
        key = tuple(key)
        hd = self.heads.get(key)
        if hd is None:
            if self.final: raise Stuck('fixpoint not reached')
            if len(self.heads) > 400: raise Stuck('too many shapes at a loop')
            h = self.heads[key] = Head(len(self.heads), st.copy(), exprs)
            self.changed = True
            self.seen.add(key)
            r = st.copy(); r.exact = False
            return r
        if not hd.covers(self, st, exprs):
            if self.final: raise Stuck('fixpoint not reached')
            hd.join(self, st, exprs, cells, gk)
            self.changed = True
            self.seen.discard(key)
        if key in self.seen: return None
        self.seen.add(key)
        r = hd.st.copy(); r.frames = st.frames; r.exact = False; r.n = max(r.n, st.n)
        return r

class Head:
    def __init__(self, k, st, exprs):
        self.k = k; self.st = st; self.exprs = exprs; self.n = 0; self.widened = {}
    def names(self, exprs_new):
        return None
    def covers(self, ai, st, exprs):
        """is the new state described by this one"""
        if self.n == 0: # no join yet: the same state only
            if any(a != b for a, b in zip(self.exprs, exprs)): return False
            J = self.st
        J = self.st
        m = {}
        for a, b in zip(self.exprs, exprs):
            if len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1 and a.t[0][0].startswith(f'h{self.k}.'): m[a.t[0][0]] = b
            elif a != b and not st.num.same(a, b): return False
        own = f'h{self.k}.'
        E = lambda e: e.sub(m)
        n = st.num
        for x, row in J.num.d.items():
            for y, c in row.items():
                if x == y: continue
                if x and x not in m and x.startswith(own): continue
                if y and y not in m and y.startswith(own): continue
                ex = (E(sym(x)) if x else Z) - (E(sym(y)) if y else Z)
                if n.ub(ex) > c: return False
        for e in J.num.extra:
            if not n.ent(E(e)): return False
        for f, q in J.num.congr:
            if n.cong(E(f), q) != 0: return False
        for b, c, lo, hi in J.none:
            if not st.absent(b, c, E(lo), E(hi)): return False
        for (b, x), (i, o) in J.pts.items():
            i2, o2 = st.point(b, E(x))
            if i is not None and not (i2 is not None and i2 <= i): return False
            if o and not (o <= o2 or (i2 is not None and not (i2 & o))): return False
        for b, x in J.bnd:
            if not st.boundary(b, E(x)): return False
        return True
    def join(self, ai, st, exprs, cells, gk):
        J = self.st; own = f'h{self.k}.'
        T = {}      # name -> (expression in J, expression in st)
        newex = []; grown = False
        for i, (a, b) in enumerate(zip(self.exprs, exprs)):
            nm = f'{own}{i}'
            if a == sym(nm) or not (a == b):
                T[nm] = (a, b); newex.append(sym(nm)); grown = grown or a != sym(nm)
            else: newex.append(a)
        kept = set()
        for e in newex: kept |= {s for s in e.syms() if not s.startswith(own)}
        for s in J.num.d:
            if s and not s.startswith(own) and s in st.num.d and ai.spec.keeps(s): kept.add(s)
        for s in kept:
            if s in st.num.d and s in J.num.d: T.setdefault(s, (sym(s), sym(s)))
        self.n += 1
        num = Num()
        names = [''] + sorted(T)
        for s in T: num.new(s, None)
        ex = lambda s, k: T[s][k] if s else Z
        cand = []
        for x in names:
            for y in names:
                if x == y or (x and y and (x.endswith('.addr') or y.endswith('.addr'))): continue
                a = J.num.ub(ex(x, 0) - ex(y, 0)); b = st.num.ub(ex(x, 1) - ex(y, 1))
                c = max(a, b)
                if c == INF: continue
                if b > a:
                    w = self.widened.get((x, y), 0) + 1; self.widened[(x, y)] = w
                    if w > 2:
                        c = ai.thresh(c) if w < ai.patience else INF
                if c < INF: cand.append((x, y, c))
        for x, y, c in cand: num.le((sym(x) if x else Z) - (sym(y) if y else Z) - int(c))
        for e in set(J.num.extra) | set(st.num.extra):
            if all(s in T and T[s][0] == T[s][1] for s in e.syms()) and J.num.ent(e) and st.num.ent(e) and e not in num.extra and not num.ent(e): num.extra = num.extra + (e,)
        # congruences
        cg = set()
        for f, q in J.num.congr | st.num.congr:
            if all(s in T and not s.startswith(own) for s in f.syms()):
                if J.num.cong(f, q) == 0 and st.num.cong(f, q) == 0: cg.add((f, q))
            for base in ai.spec.bases(st):
                A = base + '.addr'
                if A not in T: continue
                for x in T:
                    if not x.startswith(own): continue
                    a = J.num.cong(sym(A) + T[x][0], q)
                    if a is not None and a == st.num.cong(sym(A) + T[x][1], q): cg.add((sym(A) + sym(x) - a, q))
        num.congr = frozenset(cg)
        new = J.copy(); new.num = num; new.none = frozenset(); new.pts = {}; new.bnd = frozenset(); new.wid = (); new.exact = False
        # facts about the text
        ends = {}
        for x in T:
            for d in (0, 1): ends[sym(x) + d] = (T[x][0] + d, T[x][1] + d)
        for d in (0, 1): ends[Lin(d)] = (Lin(d), Lin(d))
        for b, c, lo, hi in J.none | st.none:
            for e in (lo, hi):
                if all(s in T and not s.startswith(own) for s in e.syms()): ends.setdefault(e, (e, e))
        classes = {(f[0], f[1]) for f in J.none} | {(f[0], f[1]) for f in st.none} | {(b, c) for b in ai.spec.bases(st) for c in ai.alpha}
        facts = []
        keys = list(ends)
        fJ, fS = {}, {}
        def known(S, memo, k, base, c, lo, hi):
            q = memo.get((base, c, lo))
            if q is None: q = memo[(base, c, lo)] = S.frontier(base, c, ends[lo][k])
            h = ends[hi][k]
            return any(S.num.isle(h, x) for x in q)
        for base, c in classes:
            mine = [f for f in J.none if f[0] == base and f[1] == c]
            if self.n > 1 and not grown and all(all(x in ends for x in f[2:]) and known(st, fS, 1, base, c, f[2], f[3]) for f in mine):
                facts += mine; continue
            for lo in keys:
                q = J.frontier(base, c, ends[lo][0])
                if len(q) == 1: continue          # nothing is known to be absent from here on
                q2 = st.frontier(base, c, ends[lo][1])
                if len(q2) == 1: 
                    # an empty range in the new state only
                    if self.n == 1 or True:
                        q2 = [ends[lo][1]]
                for hi in keys:
                    if lo == hi or num.isle(hi, lo): continue
                    h0, h1 = ends[hi]
                    if not any(J.num.isle(h0, x) for x in q): continue
                    if not any(st.num.isle(h1, x) for x in q2): continue
                    facts.append((base, c, lo, hi))
            for lo in keys:
                # ranges that are empty in the old state
                q = J.frontier(base, c, ends[lo][0])
                if len(q) != 1: continue
                q2 = None
                for hi in keys:
                    if lo == hi or num.isle(hi, lo) or not J.num.isle(ends[hi][0], ends[lo][0]): continue
                    if q2 is None: q2 = st.frontier(base, c, ends[lo][1])
                    if any(st.num.isle(ends[hi][1], x) for x in q2): facts.append((base, c, lo, hi))
        # keep the strongest ones
        def stronger(f, g): return f[:2] == g[:2] and num.isle(f[2], g[2]) and num.isle(g[3], f[3])
        out = []
        for f in facts:
            if any(stronger(g, f) for g in out): continue
            out = [g for g in out if not stronger(f, g)] + [f]
        new.none = frozenset(out)
        for base in ai.spec.bases(st):
            for x in [''] + list(T):
                for d in (0, -1, 1):
                    if not x and d < 0: continue
                    i1, o1 = J.point(base, ex(x, 0) + d); i2, o2 = st.point(base, ex(x, 1) + d)
                    i = i1 | i2 if i1 is not None and i2 is not None else None
                    full = lambda i, o, other: o | (frozenset(c for c in other if i is not None and c not in i))
                    o = full(i1, o1, o2) & full(i2, o2, o1)
                    if i is not None: o = frozenset()
                    if i is not None or o: new.pts[(base, (sym(x) if x else Z) + d)] = (i, o)
            for x in T:
                if J.boundary(base, T[x][0]) and st.boundary(base, T[x][1]): new.bnd = new.bnd | {(base, sym(x))}
        it = iter(newex)
        store = {}
        for c in cells: store[c] = ai.rebuild(st.store[c], it, st)
        gh = {g: ai.rebuild(st.ghost[g], it, st) for g in gk}
        new.store = store; new.ghost = gh; new.n = max(J.n, st.n)
        new.trail = ()
        self.st = new; self.exprs = newex

class Call:
    def __init__(self, ai, st, fr, f, name, args, atys, rty, site):
        self.ai = ai; self.st = st; self.fr = fr; self.f = f; self.name = name; self.args = args; self.atys = atys; self.rty = rty; self.site = site
def show(v):
    if isinstance(v, Lin): return repr(v)
    if isinstance(v, tuple) and not v: return '()'
    if isinstance(v, tuple):
        if v and v[0] == 'adt': return '%s#%s(%s)' % (v[1].split('::')[-1], v[2], ', '.join(show(x) for x in v[3]))
        return str(v[0]) + '(' + ', '.join(show(x) for x in v[1:]) + ')'
    return str(v)[:60]
INLINE = re.compile(r'^(std::option::Option::<T>::(is_some|is_none|map|and_then|ok_or|unwrap_or|map_or|as_ref|copied|take|filter|or_else|unwrap_or_default|unwrap_or_else|zip|ok_or_else|is_some_and)|<std::option::Option<T> as std::ops::(Try|FromResidual)|<I as std::iter::IntoIterator>|<T as std::convert::(Into|From)|std::mem::(swap|replace|take)|core::num::<impl \w+>::(wrapping_add|min|max)|std::cmp::Ord::(min|max)|std::bool::)')
from aimodels import find_model
