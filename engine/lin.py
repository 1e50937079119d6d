"""Numeric part of the abstract domain: linear expressions, difference bounds, congruences."""
INF = float('inf')
class Lin:
    __slots__ = ('c', 't', 'h')
    def __init__(self, c=0, t=()):
        self.c = c; self.t = t; self.h = hash((c, t))
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def __add__(self, o):
        if isinstance(o, int): return Lin(self.c + o, self.t)
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            n = d.get(s, 0) + k
            if n: d[s] = n
            else: d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))
    def __neg__(self): return Lin(-self.c, tuple((s, -k) for s, k in self.t))
    def __sub__(self, o): return self + (-o)
    def scale(self, n): return Lin(self.c * n, tuple((s, k * n) for s, k in self.t)) if n else Lin(0)
    def const(self): return not self.t
    def syms(self): return [s for s, _ in self.t]
    def sub(self, m):
        r = Lin(self.c)
        for s, k in self.t: r = r + (m[s].scale(k) if s in m else Lin(0, ((s, k),)))
        return r
    def __repr__(self):
        if not self.t: return str(self.c)
        s = ''
        for x, k in self.t:
            s += ('+' if k > 0 else '-') + ('' if abs(k) == 1 else str(abs(k)) + '*') + x
        s = s.lstrip('+')
        return s + ('%+d' % self.c if self.c else '')
def L(x): return Lin(x) if isinstance(x, int) else x
def S(n): return Lin(0, ((n, 1),))
Z = Lin(0)

class Num:
    """conjunction of constraints e <= 0 and congruences"""
    __slots__ = ('d', 'names', 'extra', 'congr', 'bot')
    def __init__(self):
        self.d = {'': {'': 0}}; self.extra = (); self.congr = frozenset(); self.bot = False
    def copy(self):
        n = Num.__new__(Num); n.d = {k: dict(v) for k, v in self.d.items()}; n.extra = self.extra; n.congr = self.congr; n.bot = self.bot
        return n
    def new(self, s, lo=0, hi=None):
        if s in self.d: self.forget(s)
        self.d[s] = {s: 0}
        if lo is not None: self.le(Lin(lo) - S(s))
        if hi is not None: self.le(S(s) - L(hi))
    def forget(self, s):
        self.d.pop(s, None)
        for r in self.d.values(): r.pop(s, None)
        self.extra = tuple(e for e in self.extra if s not in e.syms())
        self.congr = frozenset(x for x in self.congr if s not in x[0].syms())
    def b(self, x, y):
        """least known c with x - y <= c"""
        r = self.d.get(x)
        if r is None: return INF if x != y else 0
        return r.get(y, INF)
    def _add(self, x, y, c):
        # x - y <= c, keep closed
        for s in (x, y):
            if s not in self.d: self.d[s] = {s: 0}
        if self.b(x, y) <= c: return
        if self.b(y, x) + c < 0: self.bot = True; return
        d = self.d
        # u - v <= (u - x) + c + (y - v)
        into = [(u, d[u][x]) for u in d if x in d[u]]
        out = list(d[y].items())
        for u, a in into:
            ru = d[u]
            for v, e in out:
                n = a + c + e
                if n < ru.get(v, INF): ru[v] = n
    def le(self, e):
        """assume e <= 0"""
        if self.bot: return
        if not e.t:
            if e.c > 0: self.bot = True
            return
        t = e.t
        if len(t) == 1:
            s, k = t[0]
            if k > 0: self._add(s, '', (-e.c) // k)
            else: self._add('', s, (-e.c) // (-k))
            return
        if len(t) == 2 and t[0][1] + t[1][1] == 0:
            k = abs(t[0][1])
            p, n = (t[0][0], t[1][0]) if t[0][1] > 0 else (t[1][0], t[0][0])
            self._add(p, n, (-e.c) // k); return
        if e not in self.extra:
            u = self.ub(e)
            if u <= 0: return
            if self.lb(e) > 0: self.bot = True; return
            self.extra = self.extra + (e,)
            self.tighten(e)
    def tighten(self, e):
        # derive unary bounds and differences from a general constraint
        for i, (s, k) in enumerate(e.t):
            rest = Lin(e.c, tuple(x for x in e.t if x[0] != s))
            lo = self.lb(rest)
            if lo > -INF:
                if k > 0: self._add(s, '', int((-lo) // k))
                else: self._add('', s, int((-lo) // (-k)))
        if len(e.t) == 3:
            for i in range(3):
                s, k = e.t[i]
                o = [x for x in e.t if x[0] != s]
                if o[0][1] + o[1][1] == 0 and abs(o[0][1]) == 1:
                    lo = self.lb(Lin(e.c, ((s, k),)))
                    if lo > -INF:
                        p, n = (o[0][0], o[1][0]) if o[0][1] > 0 else (o[1][0], o[0][0])
                        self._add(p, n, -int(lo))
    def eq(self, e): self.le(e); self.le(-e)
    def ub(self, e, depth=1):
        if not e.t: return e.c
        t = e.t
        if len(t) == 1:
            s, k = t[0]
            v = self.b(s, '') if k > 0 else self.b('', s)
            r = e.c + abs(k) * v
        else:
            pos, neg = [], []
            for s, k in t:
                if abs(k) > 4: 
                    v = self.b(s, '') if k > 0 else self.b('', s)
                    return self._big(e)
                (pos if k > 0 else neg).extend([s] * abs(k))
            n = max(len(pos), len(neg))
            pos += [''] * (n - len(pos)); neg += [''] * (n - len(neg))
            r = e.c + self._match(pos, neg)
        if depth and r > 0 and self.extra:
            for f in self.extra:
                if any(s in dict(f.t) for s, _ in t):
                    v = self.ub(e - f, depth - 1)
                    if v < r: r = v
        return r
    def _big(self, e):
        r = e.c
        for s, k in e.t: r += abs(k) * (self.b(s, '') if k > 0 else self.b('', s))
        return r
    def _match(self, pos, neg):
        if len(pos) == 1: return self.b(pos[0], neg[0])
        if len(pos) > 5: return INF
        best = INF
        p = pos[0]; seen = set()
        for i, n in enumerate(neg):
            if n in seen: continue
            seen.add(n)
            v = self.b(p, n)
            if v == INF: continue
            w = v + self._match(pos[1:], neg[:i] + neg[i + 1:])
            if w < best: best = w
        return best
    def lb(self, e): return -self.ub(-e)
    def isle(self, a, b):
        # fast path: one symbol on each side
        ta, tb = a.t, b.t
        if self.bot: return True
        if ta == tb: return a.c <= b.c
        if len(ta) <= 1 and len(tb) <= 1 and (not ta or ta[0][1] == 1) and (not tb or tb[0][1] == 1):
            r = self.d.get(ta[0][0] if ta else '')
            if r is None: return False
            v = r.get(tb[0][0] if tb else '')
            if v is not None and v + a.c - b.c <= 0: return True
            if not self.extra: return False
        return self.ent(a - b)
    def ent(self, e): return self.bot or self.ub(e) <= 0          # e <= 0
    def eqz(self, e): return self.bot or (not e.t and e.c == 0) or (self.ub(e) <= 0 and self.lb(e) >= 0)
    def islt(self, a, b): return self.ent(a - b + 1)
    def same(self, a, b): return a == b or (self.isle(a, b) and self.isle(b, a))
    def cong(self, e, m):
        """e mod m if known"""
        if not e.t: return e.c % m
        for f, n in self.congr:
            if n % m: continue
            for sg in (1, -1):
                g = e - f.scale(sg)
                if all(k % m == 0 for _, k in g.t): return g.c % m
        if all(k % m == 0 for _, k in e.t): return e.c % m
        return None
    def model(self):
        """a small integer solution, or None if none of the usual candidates works"""
        if self.bot: return None
        for mode, shift in [(x, 0) for x in ('min', 'max', 'mid', 'low2', 'cong')] + ([('cong', k) for k in (16, 15, 1, 31, 24, 7)] if self.congr else []):
            m = {}; first = True
            n = self.copy()
            ok = True
            for s in sorted(self.d, key=lambda x: (not x.endswith('.addr') if self.congr else False, x)):
                if s == '': continue
                lo, hi = -n.b('', s), n.b(s, '')
                if mode == 'min': v = lo if lo > -INF else min(hi, 0)
                elif mode == 'max': v = hi if hi < 1 << 12 else max(lo, 200)
                elif mode == 'low2': v = min(hi, lo + 2)
                elif mode == 'cong': v = lo if lo > -INF else 0
                else: v = (lo + min(hi, lo + 64)) // 2
                v = int(v)
                cands = [v]
                if any(s in f.syms() for f, _ in n.congr):
                    b = int(max(lo, 0)) + (shift if first else 0); first = False; cands = list(range(b, int(min(hi, b + 256)) + 1))
                done = False
                for v in cands:
                    n2 = n.copy(); n2.eq(S(s) - v)
                    if n2.bot: continue
                    if any(not (f.sub({k: Lin(x) for k, x in {**m, s: v}.items()})).t and (f.sub({k: Lin(x) for k, x in {**m, s: v}.items()})).c % q for f, q in n.congr): continue
                    n = n2; m[s] = v; done = True
                    if self.extra:
                        mk = {k: Lin(x) for k, x in m.items()}
                        for e in self.extra:
                            if any(k == s for k, _ in e.t): n.le(e.sub(mk))
                        if n.bot: done = False
                    break
                if not done: ok = False; break
            if not ok: continue
            mm = {k: Lin(x) for k, x in m.items()}
            if all(e.sub(mm).c <= 0 for e in self.extra): return m
        return None
