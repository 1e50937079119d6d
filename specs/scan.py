"""Specifications of the byte scanners (tags, prefix, unescaping) for the analyser in engine/ai.py."""
import re, time
from lin import Lin, Z, INF, S as sym, L as lit
import ai as A
from ai import AI, St, Stuck, adt, some, NONE, UNIT, isadt, OPT, show
POS = (('arg',), 'pos')
class Spec:
    def __init__(self, prog): self.p = prog; self.found = []
    def bases(self, st): return ['s']
    def keeps(self, s): return s.startswith('s.') or s in ('p', 'E', 'A', 'B')
    def produced(self, ai, st, v, site): raise Stuck('element produced')
    def pushed(self, ai, st, w, item, site): raise Stuck('text produced')
    def returned(self, ai, st, v): pass
    def definite(self, ai, kind, site, text, what):
        o = ai.obl.setdefault((kind, site), [True, None, '', 0])
        o[0] = False; o[1] = text; o[2] = what
def start(st=None, name='s'):
    st = st or St()
    st.num.new(name + '.len', 0, (1 << 32) - 1); st.num.new(name + '.addr', 1, 1 << 62)
    return st
def value_at(e, m): return e.sub({k: Lin(v) for k, v in m.items()}).c

# ---------------------------------------------------------------- reading back what was produced
def build_msg(prog, ty, src, tags, prefix):
    """a message value with the given tags and prefix fields (the rest is opaque)"""
    t = prog.types[ty]
    if t['k'] == 'ref' and prog.types[t['to']]['s'] == 'str': return src
    if t['k'] == 'adt' and t['n'] == 'std::string::String': return src
    if t['k'] == 'adt' and t['n'].endswith('RawTags') or t['k'] == 'adt' and t['n'].startswith('std::vec::Vec'):
        if t['n'].startswith('std::vec::Vec'): return tags
        return ('adt', t['n'], 0, tuple(build_msg(prog, f[1], src, tags, prefix) for f in t['v'][0]['f']))
    if t['k'] == 'adt' and t['n'] == OPT and 'RawPrefix' in t['s']: return prefix
    if t['k'] == 'adt' and t['n'].startswith('tmi::') and len(t['v']) == 1:
        return ('adt', t['n'], 0, tuple(build_msg(prog, f[1], src, tags, prefix) for f in t['v'][0]['f']))
    return ('opaque', t['s'])
def root(prog, name):
    n = prog.roots.get(name)
    if n is None: raise Stuck('no root ' + name)
    return n
def read_back(prog, name, tags=NONE, prefix=NONE, st=None):
    """runs an accessor on a message value; [(state, value)]"""
    n = root(prog, name)
    ty = prog.body(n).locals[1]
    src = ('slice', 's', Z, sym('s.len'), 'str')
    msg = build_msg(prog, prog.strip_ref(ty), src, tags, prefix)
    st = st or start()
    out = []
    class R(Spec):
        def returned(self, ai, s, v): out.append((s, v))
    a = AI(prog, R(prog), mode='unroll', rounds=8, limit=4000, seconds=20)
    cell = (('arg',), 'msg'); st.store[cell] = msg
    a.run(n, [('ref', cell, ())], st)
    return out, a

class TagSpec(Spec):
    """the tags of a line"""
    def __init__(self, prog):
        super().__init__(prog); self.pair = None
    def entry(self):
        st = start()
        st.store[POS] = Z
        st.ghost = {'gs': Lin(1), 't': Z, 'le': Lin(1), 'done': 0, 'ev': ()}
        return st, [('slice', 's', Z, sym('s.len'), 'str'), ('ref', POS, ())]
    def spans(self, val):
        """(kb, ke, vb, ve) of a produced pair"""
        if not isadt(val) or not all(isinstance(x, Lin) for x in flat(val)): raise Stuck('pair ' + show(val))
        fs = flat(val)
        if self.pair is None:
            names = [f'f{i}' for i in range(len(fs))]
            st = start()
            for n in names: st.num.new(n, 0, (1 << 32) - 1)
            v = unflat(val, iter([sym(n) for n in names]))
            out, _ = read_back(self.p, 'h_ref_tags', tags=('list', (v,)), st=st)
            self.pair = (names, [(s, self.span_of(r)) for s, r in out])
        names, alts = self.pair
        m = dict(zip(names, fs))
        if len(alts) == 1: return [x.sub(m) for x in alts[0][1]]
        return fs
    def span_of(self, r):
        if r[0] != 'list' or len(r[1]) != 1: raise Stuck('reading a tag back')
        k, w = r[1][0][3]
        if k[0] != 'slice' or w[0] != 'slice': raise Stuck('reading a tag back')
        return [k[2], k[3], w[2], w[3]]
    def read(self, st, val):
        """the spans of a pair in a joined state"""
        sp = self.spans(val)
        if len(self.pair[1]) == 1: return sp
        b = St(); b.num = st.num.copy(); b.bnd = st.bnd
        out, _ = read_back(self.p, 'h_ref_tags', tags=('list', (val,)), st=b)
        rs = [self.span_of(r) for s, r in out]
        if not rs or any(not all(st.num.same(x, y) for x, y in zip(rs[0], r)) for r in rs[1:]): raise Stuck('reading a tag back has %d outcomes' % len(rs))
        return rs[0]
    def spans_at(self, e, m):
        v = [value_at(x, m) for x in e]
        if len(self.pair[1]) == 1: return tuple(v)
        for s, x in self.pair[1]:
            n = s.num.copy()
            for a, b in zip(self.pair[0], v): n.eq(sym(a) - b)
            if not n.bot: return tuple(value_at(y, dict(zip(self.pair[0], v))) for y in x)
        raise Stuck('reading a tag back')
    def produced(self, ai, st, val, site):
        g = st.ghost
        t = g['t']
        n = st.num
        if ai.mode != 'join':
            g['ev'] = g['ev'] + (adt('ev', 0, self.spans(val)),)
            g['t'] = t + 1
            return t
        kb, ke, vb, ve = self.read(st, val)
        gs = g['gs']
        isc = lambda x, c: st.point('s', x)[0] == frozenset((c,))
        N = lambda what, ok: ai.need(st, what, site, ok, f'key {kb}..{ke}, value {vb}..{ve}, text from {gs}')
        N('no pair follows the last one', g['done'] == 0)
        N('a key starts where the previous value ended', n.same(kb, gs))
        N('a key ends at a =', isc(ke, 61))
        N('a key ends at its first =', st.absent('s', 61, gs, ke) and n.isle(gs, ke))
        N('a value starts right after the =', n.same(vb, ke + 1))
        N('a value ends at its first ;', st.absent('s', 59, vb, ve) and n.isle(vb, ve))
        N('a pair lies before the first space', st.absent('s', 32, Lin(1), ve))
        if isc(ve, 59): g['gs'] = ve + 1
        elif isc(ve, 32): g['done'] = 1; g['le'] = ve
        else:
            N('a value ends at a ; or at the space', False)
            g['gs'] = ve + 1
        if ai.mode == 'join': st.nothing  # facts stay as they are
        g['t'] = t + 1
        return t
    def returned(self, ai, st, v):
        g = st.ghost; n = st.num; L = sym('s.len'); site = 'return'
        if not isadt(v): raise Stuck('result ' + show(v))
        pos = st.store[POS]
        if ai.mode != 'join': return self.concrete(ai, st, v, pos)
        N = lambda what, ok: ai.need(st, what, site, ok, f'position {pos}, text from {g["gs"]}')
        isc = lambda x, c: st.point('s', x)[0] == frozenset((c,))
        if v[2] == 0:
            i, o = st.point('s', Z)
            noat = n.isle(L, Z) or 64 in o or (i is not None and 64 not in i)
            N('there are no tags only without an @ or a space', noat or st.absent('s', 32, Lin(1), L) or n.isle(L, Lin(1)))
            N('nothing is consumed when there are no tags', n.same(pos, Z))
            return
        E = pos - 1
        N('tags start with @', isc(Z, 64))
        N('parsing continues right after the first space', isc(E, 32) and st.absent('s', 32, Lin(1), E) and n.isle(Lin(1), E))
        if g['done']: N('the last value ends at the space', n.same(g['le'], E))
        else: N('no pair is left out', st.absent('s', 61, g['gs'], E))
        c = self.container(v)
        segs = tuple(x for x in c[1] if not n.same(x[0], x[1]))
        whole = (not segs and n.same(g['t'], Z)) or (len(segs) == 1 and n.same(segs[0][0], Z) and n.same(segs[0][1], g['t']))
        N('all pairs are returned in order', whole)
        if not whole: self.lost(ai, st, segs, g['t'])
    def lost(self, ai, st, segs, t):
        """the number of pairs of a line is free: a list that lacks some for a number of pairs is wrong"""
        lo = st.num.lb(t)
        if not 16 <= lo < 1 << 16 or st.num.ub(t) < 1 << 20: return
        for n in (lo, lo + 1, lo + 2, lo + 10):
            s = st.copy(); s.eq(t, Lin(int(n))); s.sat()
            if s.dead: continue
            v = [(s.num.lb(a), s.num.ub(a), s.num.lb(b), s.num.ub(b)) for a, b in segs]
            if any(a != b or c != d for a, b, c, d in v): continue
            got = [i for a, _, b, _ in v for i in range(int(a), int(b))]
            if got != list(range(int(n))):
                ai.sure[('all pairs are returned in order', 'return')] = f'of a line with {int(n)} tags {len(got)} are returned' + ('' if len(got) != n else ', in another order')
                return
    def container(self, v):
        x = v[3][0]
        while isadt(x) and len(x[3]) == 1: x = x[3][0]
        if isinstance(x, Lin) or x[0] != 'seq': raise Stuck('result ' + show(v))
        return x
    def oracle(self, text):
        b = text.encode('latin1')
        if not b.startswith(b'@'): return None, 0
        e = b.find(b' ', 1)
        if e < 0: return None, 0
        out = []; s = 1
        while True:
            k = b.find(b'=', s, e)
            if k < 0: break
            w = b.find(b';', k + 1, e)
            if w < 0: out.append((s, k, k + 1, e)); break
            out.append((s, k, k + 1, w)); s = w + 1
        return out, e + 1
    def concrete(self, ai, st, v, pos):
        """the result that this path gives for members of its class of lines"""
        g = st.ghost
        for s in self.variants(ai, st):
            r = ai.witness(s)
            if r is None: continue
            text, m = r['s'], ai.last
            ok, p = self.oracle(text)
            got = None
            if v[2] == 1:
                ev = [self.spans_at(e[3], m) for e in g['ev']]
                got = []
                for a, b in self.container(v)[1]: got += ev[value_at(a, m):value_at(b, m)]
            q = value_at(pos, m)
            if got != ok or q != p:
                B = text
                f = lambda l: l if l is None else [(B[a:b], B[c:d]) for a, b, c, d in l]
                what = (f'on the line {text[:200]!r} the path to this return yields {f(got)} and position {q}; expected {f(ok)} and {p}')
                self.definite(ai, 'tags of a line', 'result', text, what[:900])
                n = len(text.encode('latin1')) if all(ord(c) < 128 for c in text) else None
                for a, b, c, d in got or ():
                    if n is not None and not (a <= b <= n and c <= d <= n):
                        self.definite(ai, 'slice index in range', 'reading a tag back', text, f'on the line {text[:200]!r} a tag is stored with key {a}..{b} and value {c}..{d}')
                if n is not None and q > n: self.definite(ai, 'slice index in range', 'parsing after the tags', text, f'on the line {text[:200]!r} parsing continues at {q}')
                return
    def variants(self, ai, st):
        """members of the class worth comparing: any, and those that single out unproved facts"""
        yield st
        g = st.ghost; n = st.num; L = sym('s.len')
        prev = Lin(1)
        def miss(c, lo, hi):
            if st.absent('s', c, lo, hi): return
            s = st.copy(); p = s.fresh('z'); s.le(lo, p); s.lt(p, hi); s.learn('s', p, frozenset((c,)))
            if not s.dead: yield s
        for e in g['ev']:
            if len(self.pair[1]) > 1:
                for x in e[3]:
                    for c in (0, 1):
                        s = st.copy(); s.eq(x, Lin(c)); s.sat()
                        if not s.dead: yield s
                continue
            kb, ke, vb, ve = e[3]
            for a, b in ((kb, prev), (vb, ke + 1)):
                if not n.same(a, b):
                    for x, y in ((a, b), (b, a)):
                        s = st.copy(); s.lt(x, y); s.sat()
                        if not s.dead: yield s
            yield from miss(61, kb, ke); yield from miss(59, vb, ve); yield from miss(32, Lin(1), ve)
            prev = ve + 1
        yield from miss(61, prev, L); yield from miss(59, prev, L); yield from miss(32, Lin(1), L)
def flat(v):
    if isinstance(v, Lin): return [v]
    if isadt(v): return [y for x in v[3] for y in flat(x)]
    return [v]
def unflat(v, it):
    if isinstance(v, Lin): return next(it)
    if isadt(v): return v[:3] + (tuple(unflat(x, it) for x in v[3]),)
    return next(it)

class PrefixSpec(Spec):
    """the prefix of a line at a position p, under one of the shapes of the text up to the first space"""
    SHAPES = ('none', 'host', 'nick@host', 'nick!user@host', 'unended')
    def __init__(self, prog, shape): super().__init__(prog); self.shape = shape
    def entry(self):
        st = start(); L = sym('s.len')
        st.num.new('p', 0); st.le(sym('p'), L)
        p = sym('p'); E = sym('E')
        st.bnd = frozenset([('s', p)])
        st.store[POS] = p
        self.anchors = ()
        sh = self.shape
        if sh == 'none':
            self.alt = 1
        else:
            st.num.new('E', 0)
            st.lt(p, L); st.learn('s', p, frozenset((58,)))
            st.le(p + 1, E)
            st.nothing('s', 32, p + 1, E)
            if sh == 'unended': st.eq(E, L)
            else: st.lt(E, L); st.learn('s', E, frozenset((32,)))
            anch = [('s', E)]
            if sh == 'host':
                st.nothing('s', 33, p, E); st.nothing('s', 64, p, E)
            elif sh == 'nick@host':
                st.num.new('A', 0); a = sym('A'); st.le(p + 1, a); st.lt(a, E); st.learn('s', a, frozenset((64,)))
                st.nothing('s', 33, p, E); st.nothing('s', 64, p, a); st.nothing('s', 64, a + 1, E)
                anch.append(('s', a))
            elif sh == 'nick!user@host':
                st.num.new('A', 0); st.num.new('B', 0); a, b = sym('A'), sym('B')
                st.le(p + 1, b); st.lt(b, a); st.lt(a, E); st.learn('s', a, frozenset((64,))); st.learn('s', b, frozenset((33,)))
                st.nothing('s', 33, p, b); st.nothing('s', 33, b + 1, E); st.nothing('s', 64, p, a); st.nothing('s', 64, a + 1, E)
                anch += [('s', a), ('s', b)]
            self.anchors = tuple(anch)
        return st, [('slice', 's', Z, L, 'str'), ('ref', POS, ())]
    def entries(self):
        st, args = self.entry()
        if self.shape != 'none': return [(st, args)]
        a = st.copy(); a.eq(sym('p'), sym('s.len'))
        b = st; b.lt(sym('p'), sym('s.len')); b.learn('s', sym('p'), None, frozenset((58,)))
        return [(a, args), (b, args)]
    def want(self):
        p, E, a, b = sym('p'), sym('E'), sym('A'), sym('B')
        sh = self.shape
        if sh in ('none', 'unended'): return None, p
        if sh == 'host': return [None, None, (p + 1, E)], E + 1
        if sh == 'nick@host': return [(p + 1, a), None, (a + 1, E)], E + 1
        return [(p + 1, b), (b + 1, a), (a + 1, E)], E + 1
    def returned(self, ai, st, v):
        n = st.num; site = 'return'
        if ai.mode == 'join' and not ai.final: return
        pos = st.store[POS]; w, q = self.want()
        if not isadt(v): raise Stuck('result')
        def N(what, ok, got, want):
            if ai.mode == 'join': ai.need(st, what, site, ok, f'{self.shape}: got {got}, expected {want}')
            elif ok: ai.fine(what, site)
            else:
                m = None
                for s in (got_ne(st, got, want) or [st]):
                    if s.dead: continue
                    m = ai.witness(s)
                    if m is not None: break
                if m is not None: self.definite(ai, what, site, m['s'], f'for a line with a prefix of the shape {self.shape}, e.g. {m["s"]!r} parsed from position {value_at(sym("p"), ai.last)}: got {got}, expected {want}')
                else: ai.cut += 1
        N('position after the prefix', n.same(pos, q), pos, q)
        if v[2] == 0 or w is None:
            N('a prefix is found exactly when it is there', (v[2] == 0) == (w is None), ['None', 'Some'][v[2]], 'None' if w is None else 'Some')
            return
        out, _ = read_back(self.p, 'h_ref_prefix', prefix=v, st=self.bare(st))
        if len(out) != 1: raise Stuck('reading the prefix back has %d outcomes' % len(out))
        r = out[0][1]
        if r[2] != 1: N('the prefix reads back', False, 'None', 'Some'); return
        for name, x, y in zip(('nick', 'user', 'host'), r[3][0][3], w):
            if isadt(x) and x[1] == OPT:
                if x[2] == 0 or y is None:
                    N(name, x[2] == 0 and y is None, 'None' if x[2] == 0 else show(x), 'None' if y is None else f'{y[0]}..{y[1]}'); continue
                x = x[3][0]
            if isinstance(x, Lin) or x[0] != 'slice': raise Stuck('prefix part ' + show(x))
            N(name, n.same(x[2], y[0]) and n.same(x[3], y[1]), f'{x[2]}..{x[3]}', f'{y[0]}..{y[1]}')
    def bare(self, st):
        s = St(); s.num = st.num.copy(); s.none = st.none; s.pts = dict(st.pts); s.bnd = st.bnd
        return s
def got_ne(st, a, b):
    if isinstance(a, Lin) and isinstance(b, Lin):
        out = []
        for x, y in ((a, b), (b, a)):
            s = st.copy(); s.lt(x, y); s.sat(); out.append(s)
        return out
    return None

TABLE = {ord(':'): ord(';'), ord('s'): 32, ord('\\'): 92, ord('r'): 13, ord('n'): 10}
BS, SUBST = 92, 0x2E1D
class UnescSpec(Spec):
    """`sp`: how much of the input the output so far accounts for"""
    def __init__(self, prog, cow): super().__init__(prog); self.cow = cow
    def entry(self):
        st = start(); st.ghost = {'sp': Z, 'out': (), 'special': 0}
        v = ('slice', 's', Z, sym('s.len'), 'str')
        if self.cow: v = adt('std::borrow::Cow', 0, [v])
        return st, [v]
    def code(self, st, x):
        i, o = st.point('s', x)
        return next(iter(i)) if i is not None and len(i) == 1 else None
    def pushed(self, ai, st, w, item, site):
        g = st.ghost; n = st.num; sp = g['sp']
        if ai.mode != 'join':
            g['out'] = g['out'] + (item,)
            return [(st, w)]
        N = lambda what, ok, d='': ai.need(st, what, site, ok, d or f'{show(item)} with the input accounted for up to {sp}')
        c = self.code(st, sp)
        new = None
        if c in (BS, SUBST): g['special'] = 1
        if not isinstance(item, Lin) and item[0] == 'slice':
            a, b = item[2], item[3]
            ok = n.same(a, sp) or (c == BS and False)
            plain = st.absent('s', BS, a, b) and st.absent('s', SUBST, a, b)
            N('text copied verbatim is the next unread text', ok)
            N('text copied verbatim holds no backslash or substitute comma', plain)
            new = b
        elif not isinstance(item, Lin) and item[0] == 'text':
            if item[1] == b'': return [(st, w)]
            raise Stuck('constant text')
        elif not isinstance(item, Lin) and item[0] == 'char':
            x = item[2]
            i, o = st.point('s', x)
            def never(cs): return all(k in o or (i is not None and k not in i) for k in cs)
            if n.same(x, sp):
                N('a character copied verbatim is not special', never((BS, SUBST)))
            else:
                N('a character copied after a backslash is not an escape', c == BS and n.same(x, sp + 1) and never(tuple(TABLE) + (SUBST,)))
            if i is not None and len({A.UTF8W(k) for k in i}) == 1: new = x + A.UTF8W(next(iter(i)))
            else:
                e = [q for b, y, q in st.wid if b == 's' and n.same(y, x)]
                if not e: raise Stuck('width of a character')
                new = e[0]
        elif not isinstance(item, Lin) and item[0] == 'chr':
            k = item[1]
            d = self.code(st, sp + 1) if c == BS else None
            if c == SUBST: ok = k == 44; new = sp + 3
            elif c == BS and d in TABLE: ok = k == TABLE[d]; new = sp + 2
            elif c == BS and d == SUBST: ok = k == 44; new = sp + 4
            elif c == BS and d is not None: ok = k == d; new = sp + 1 + A.UTF8W(d)
            elif c is not None and c != BS: ok = k == c; new = sp + A.UTF8W(c)
            else: ok = False; new = sp
            N('an inserted character is the one the escape stands for', ok, f'{chr(k)!r} for ' + (f'escape of {chr(d)!r}' if d else repr(chr(c)) if c else 'unread text'))
        else: raise Stuck('text produced: ' + show(item))
        g['sp'] = new
        return [(st, w)]
    def returned(self, ai, st, v):
        if ai.mode != 'join': return self.concrete(ai, st, v)
        g = st.ghost; n = st.num; L = sym('s.len'); sp = g['sp']
        N = lambda what, ok: ai.need(st, what, 'return', ok, f'the output accounts for the input up to {sp}')
        if isadt(v) and v[1].endswith('Cow'):
            x = v[3][0]
            if v[2] == 0:
                N('a borrowed result is the whole input', x[0] == 'slice' and n.same(x[2], Z) and n.same(x[3], L))
                N('a borrowed result needs no unescaping', st.absent('s', BS, Z, L) and st.absent('s', SUBST, Z, L))
                return
            N('a result is only allocated for an escape', g['special'] == 1 or self.code(st, sp) == BS)
            v = x
        if isinstance(v, Lin) or v[0] != 'ostr': raise Stuck('result ' + show(v))
        end = n.same(sp, L) or (n.same(sp + 1, L) and self.code(st, sp) == BS)
        N('the output accounts for all of the input', end)
    def oracle(self, t):
        out = []; esc = False
        for ch in t:
            c = ord(ch)
            if esc:
                out.append(chr(TABLE[c]) if c in TABLE else ',' if c == SUBST else ch); esc = False
            elif c == BS: esc = True
            else: out.append(',' if c == SUBST else ch)
        return ''.join(out)
    def concrete(self, ai, st, v):
        for s in self.variants(ai, st):
            r = ai.witness(s)
            if r is None: continue
            text, m = r['s'], ai.last
            b = text.encode()
            want = self.oracle(text)
            borrowed = False
            if isadt(v) and v[1].endswith('Cow'):
                borrowed = v[2] == 0
                if borrowed and v[3][0][0] == 'slice':
                    x = v[3][0]; got = b[value_at(x[2], m):value_at(x[3], m)].decode('utf8', 'replace')
            if not borrowed:
                got = ''
                for x in st.ghost['out']:
                    if x[0] == 'chr': got += chr(x[1])
                    elif x[0] == 'char': got += b[value_at(x[2], m):].decode('utf8', 'ignore')[:1]
                    elif x[0] == 'text': got += x[1].decode()
                    else: got += b[value_at(x[2], m):value_at(x[3], m)].decode('utf8', 'replace')
            need = '\\' in text or chr(SUBST) in text
            if got != want or (isadt(v) and borrowed == need):
                self.definite(ai, 'unescaping follows the table', 'result', text, f'on the string {text!r} this path yields {got!r}{" borrowed" if borrowed else ""}; expected {want!r}')
                return
    def variants(self, ai, st):
        yield st
        L = sym('s.len')
        for c in (BS, SUBST):
            if not st.absent('s', c, Z, L):
                # somewhere, or behind the text known not to hold it
                for lo in [Z] + [f[3] for f in st.none if f[0] == 's' and f[1] == c]:
                    s = st.copy(); p = s.fresh('z'); s.le(lo, p); s.le(p + A.UTF8W(c), L); s.learn('s', p, frozenset((c,))); s.bnd = s.bnd | {('s', p)}
                    if not s.dead: yield s

# ---------------------------------------------------------------- running
class Outcome:
    def __init__(self): self.proved = {}; self.unproved = {}; self.definite = {}; self.stuck = None; self.visited = set(); self.steps = 0; self.note = []
SPENT = [0]
def analyse(prog, inst, make, entries=None, seconds=40, rounds=(2, 5, 8), unroll=True):
    """proves the obligations on the joined states, and classifies what is left on the unjoined ones"""
    o = Outcome()
    try:
        spec = make()
        for st, args in (spec.entries() if hasattr(spec, 'entries') else [spec.entry()]):
            a = AI(prog, spec, mode='join', limit=40000, seconds=seconds, anchors=getattr(spec, 'anchors', ()))
            a.run(inst, args, st)
            o.visited |= a.visited; o.steps += a.steps
            for k, (ok, s, text, n) in a.obl.items():
                if ok: o.proved[k] = o.proved.get(k, 0) + n
                else: o.unproved[k] = (text, s)
                if k in a.sure: o.definite[k] = (a.sure[k], None)
    except Stuck as e: o.stuck = str(e)
    for k in list(o.unproved): o.proved.pop(k, None)
    # first a few rounds of each loop, then any number of equal rounds of a loop as well
    for rounds, leap in [(r, False) for r in rounds] + [(r, True) for r in rounds[:2]] if (o.unproved or o.stuck) and unroll else ():
        if o.definite or SPENT[0] > 240: break
        t0 = time.time()
        try:
            spec = make()
            for st, args in (spec.entries() if hasattr(spec, 'entries') else [spec.entry()]):
                a = AI(prog, spec, mode='unroll', rounds=rounds, limit=400000, seconds=min(seconds, 25) if leap else seconds, anchors=getattr(spec, 'anchors', ()))
                a.tolerant = a.leap = leap
                try: a.run(inst, args, st)
                except Stuck as e: o.note.append(str(e))
                o.note += a.notes
                o.visited |= a.visited; o.steps += a.steps
                for k, (ok, w, text, n) in a.obl.items():
                    if not ok: o.definite[k] = (text, w)
        except Stuck as e: o.note.append(str(e))
        SPENT[0] += time.time() - t0
    return o

# ---------------------------------------------------------------- reporting
PANIC = ('index in range', 'no arithmetic overflow', 'slice index in range', 'slice at a character boundary', 'no explicit panic', 'rem0', 'div0',
         'copy between slices of equal length')
MEM = ('vector load within the text', 'vector load within its buffer', 'aligned vector load', 'unchecked access in bounds', 'pointer offset within the text',
       'only initialised elements are read', 'pointer offset within the buffer')
def kind_of(k, site=''):
    # the assertions of the vector types are the preconditions of their loads
    if k not in MEM and '/irc/wide/' in site: return 'mem'
    return 'panic' if k in PANIC or k.startswith('mis') or k in ('div', 'rem', 'neg') else 'mem' if k in MEM else 'func'
MEMO = {}
def insts(prog, paths): return [n for pa in paths for n in prog.bypath.get(pa, ()) if prog.body(n)]
def tags(ctx, cfg, **kw):
    """[(label, outcome)] of the tag parser of a configuration"""
    import irc
    p = ctx.prog(cfg)
    ks = insts(p, irc.scanner(p, 'RawTags', r'^tmi::irc::tags::(\w+::)?parse$'))
    return [(f'{p.insts[i]["path"]} ({cfg})', memo(('tags', cfg, i), lambda i=i: analyse(p, i, lambda: TagSpec(p), **kw))) for i in ks]
def prefix(ctx, cfg='scalar'):
    import irc
    p = ctx.prog(cfg)
    ks = insts(p, irc.scanner(p, 'RawPrefix', r'^tmi::irc::prefix::parse$'))
    return [(f'{p.insts[i]["path"]} ({s})', memo(('prefix', cfg, i, s), lambda i=i, s=s: analyse(p, i, lambda: PrefixSpec(p, s)))) for i in ks for s in PrefixSpec.SHAPES]
UNESC = (('h_unescape', False), ('h_maybe_unescape_str', False), ('h_maybe_unescape', True))
def unescape(ctx, cfg='scalar'):
    p = ctx.prog(cfg)
    return [(r[2:] if r != 'h_maybe_unescape_str' else 'maybe_unescape of a str', memo(('un', cfg, r), lambda r=r, c=c: analyse(p, root(p, r), lambda: UnescSpec(p, c)))) for r, c in UNESC]
def memo(k, f):
    if k not in MEMO: MEMO[k] = f()
    return MEMO[k]
def report(ctx, runs, kinds):
    if not runs: ctx.undecided('scanners', 'not found')
    for label, o in runs:
        p = ctx.prog('scalar' if '(scalar)' in label else 'sse2' if '(sse2)' in label else 'full' if '(full)' in label else 'scalar')
        ctx.analysed |= {p.insts[i]['path'] for i in o.visited}
        ctx.extra['abstract_steps'] = ctx.extra.get('abstract_steps', 0) + o.steps
        for (k, site), n in sorted(o.proved.items()):
            if kind_of(k, site) in kinds: ctx.good(1, f'{label}: {k} at {site} ({n} abstract states)')
        shown = set()
        for (k, site), (text, w) in sorted(o.definite.items(), key=lambda x: str(x[0])):
            if kind_of(k, site) in kinds or ('func' in kinds and (kind_of(k, site) == 'panic' or kind_of(k, site) == 'mem' and k not in MEM)):
                shown.add((k, site))
                ctx.bad(f'{label}: {k} at {site}', site, f'{label}: the obligation `{k}` fails: {text}' + (f'; witness text {w!r}'[:600] if w else ''))
        for (k, site), (text, _) in sorted(o.unproved.items()):
            if kind_of(k, site) in kinds and (k, site) not in shown: ctx.undecided(site, f'{label}: `{k}` could not be proved: {text}')
        if o.stuck: ctx.undecided(label, 'the analysis stopped: ' + o.stuck + (' / ' + '; '.join(o.note) if o.note else ''))
