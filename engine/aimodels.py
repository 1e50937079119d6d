"""Models of the library functions used by the byte scanners, for the analyser in ai.py.

A model takes (ai, state, call) and returns [(state, value)], or None to analyse the function's own body."""
import re
import ai as A
from ai import Stuck, adt, some, NONE, UNIT, B0, B1, boolv, isadt, OPT, show, UTF8W
from lin import Lin, Z, S as sym, L as lit
RANGES = {'Range', 'RangeFrom', 'RangeTo', 'RangeFull', 'RangeInclusive', 'RangeToInclusive'}
EXACT, PATS = {}, []
def model(*names):
    def d(f):
        for n in names:
            if n.startswith('~'): PATS.append((re.compile(n[1:]), f))
            else: EXACT[n] = f
        return f
    return d
_cache = {}
def find_model(name, p):
    k = (name, p)
    if k in _cache: return _cache[k]
    r = EXACT.get(name) or EXACT.get(p)
    if r is None:
        for rx, f in PATS:
            if rx.search(name) or rx.search(p): r = f; break
    _cache[k] = r
    return r
def peel(ai, st, v):
    """the slice, number or structure a (possibly nested) reference stands for"""
    for _ in range(6):
        if isinstance(v, Lin): return v
        if v[0] == 'ref':
            w = ai.load(st, ('cell', v[1], v[2]))
            if not isinstance(w, Lin) and w[0] in ('rep', 'buf', 'seq', 'uninit'): return v
            v = w
        elif v[0] == 'vref': v = v[1]
        elif v[0] == 'box': v = v[1]
        elif isadt(v) and v[1].endswith('borrow::Cow'): v = v[3][0]
        else: return v
    return v
def text(ai, st, v):
    v = peel(ai, st, v)
    if isinstance(v, Lin) or v[0] not in ('slice', 'text'): raise Stuck('text expected, not ' + show(v))
    return v
def newcell(st, v):
    c = (('heap',), 'h%d' % st.n); st.n += 1
    st.store[c] = v
    return c
# ------------------------------------------------------------------ ranges and indexing
def bounds(ai, st, r, n):
    """(lo, hi) of a range value over n elements"""
    k = r[1].split('::')[-1] if isadt(r) else None
    f = r[3] if isadt(r) else ()
    if k == 'Range': return f[0], f[1]
    if k == 'RangeFrom': return f[0], n
    if k == 'RangeTo': return Z, f[0]
    if k == 'RangeFull': return Z, n
    if k == 'RangeInclusive': return f[0], f[1] + 1
    if k == 'RangeToInclusive': return Z, f[0] + 1
    if isadt(r) and r[1].endswith('common::Span'): return f[0], f[1]
    raise Stuck('index by ' + show(r))
def check_range(ai, st, site, lo, hi, n, what='slice index in range'):
    ok = st.num.isle(Z, lo) and st.num.isle(lo, hi) and st.num.isle(hi, n)
    def neg(s):
        a = s.copy(); a.lt(hi, lo).sat()
        b = s.copy(); b.lt(n, hi).sat()
        return [a, b]
    ai.need(st, what, site, ok, f'range {lo}..{hi} of a text of {n} bytes', neg)
    if not ok: st.le(lo, hi); st.le(hi, n); st.sat()
def check_boundary(ai, st, site, base, x, lo):
    ok = st.boundary(base, x)
    def neg(s):
        s = s.copy()
        if not s.num.islt(lo, x): s.lt(lo, x)
        s.learn(base, x - 1, frozenset((0xE9,)))
        return [s]
    ai.need(st, 'slice at a character boundary', site, ok, f'index {x - lo} of the text', neg)
    if not ok: st.bnd = st.bnd | {(base, x)}
def do_index(ai, st, v, r, site, get=False):
    if v[0] == 'slice':
        _, base, a, b, kind = v
        lo, hi = bounds(ai, st, r, b - a)
        if kind == 'str':
            check_range(ai, st, site, lo, hi, b - a)
            for x in (lo, hi): check_boundary(ai, st, site, base, a + x, a)
        else: check_range(ai, st, site, lo, hi, b - a)
        return [(st, ('slice', base, a + lo, a + hi, kind))]
    if v[0] == 'text':
        lo, hi = bounds(ai, st, r, Lin(len(v[1])))
        if lo.const() and hi.const() and 0 <= lo.c <= hi.c <= len(v[1]): return [(st, ('text', v[1][lo.c:hi.c]))]
        raise Stuck('index into a constant text')
    if v[0] == 'ref':
        w = ai.load(st, ('cell', v[1], v[2]))
        if w[0] in ('rep', 'buf'):
            n = Lin(w[2] if w[0] == 'rep' else w[1])
            lo, hi = bounds(ai, st, r, n)
            check_range(ai, st, site, lo, hi, n)
            return [(st, ('cseq' if w[0] == 'rep' and not isinstance(w[1], Lin) and w[1][0] == 'uninit' else 'cslice', (v[1], v[2]), lo, hi))]
        if w[0] == 'seq':
            n = Lin(w[2]) if w[2] is not None else ai.seqlen(w)
            lo, hi = bounds(ai, st, r, n)
            check_range(ai, st, site, lo, hi, n)
            return [(st, ('cseq', (v[1], v[2]), lo, hi))]
    if v[0] in ('cslice', 'cseq'):
        lo, hi = bounds(ai, st, r, v[3] - v[2])
        check_range(ai, st, site, lo, hi, v[3] - v[2])
        return [(st, (v[0], v[1], v[2] + lo, v[2] + hi))]
    if v[0] == 'seq':
        c = newcell(st, v)
        return do_index(ai, st, ('ref', c, ()), r, site)
    raise Stuck('index into ' + show(v))
@model('~Index(Mut)?<I> for (str|\\[T\\]|\\[T; N\\])>::index(_mut)?$', '~Index(Mut)?<I>> for std::(vec::Vec|string::String).*index(_mut)?$', '~^<std::(vec::Vec|string::String).* as std::ops::Index(Mut)?<I>>::index(_mut)?$', '~^std::string::.*Index<I> for std::string::String>::index$')
def m_index(ai, st, c):
    v = peel(ai, st, c.args[0]); r = c.args[1]
    if isinstance(r, Lin):
        if v[0] == 'slice':
            n = v[3] - v[2]
            check_range(ai, st, c.site, r, r + 1, n, 'index in range')
            return [(st, ('vref', ('byte', v[1], v[2] + r)))]
        if v[0] == 'ref':
            w = ai.load(st, ('cell', v[1], v[2]))
            n = Lin(w[2]) if w[0] == 'seq' and w[2] is not None else ai.length(st, w)
            check_range(ai, st, c.site, r, r + 1, n, 'index in range')
            return [(st, ('ref', v[1], v[2] + (('i', r),)))]
        raise Stuck('index into ' + show(v))
    return do_index(ai, st, v, r, c.site)
@model('core::str::<impl str>::get', 'core::slice::<impl [T]>::get', 'core::str::<impl str>::get_mut', 'core::slice::<impl [T]>::get_mut')
def m_get(ai, st, c):
    v = peel(ai, st, c.args[0]); r = c.args[1]
    if v[0] != 'slice': raise Stuck('get on ' + show(v))
    _, base, a, b, kind = v
    n = b - a
    if isinstance(r, Lin):
        out = []
        for s, y in ai.cmp(st, 'Lt', r, n): out.append((s, some(('vref', ('byte', base, a + r))) if y else NONE))
        return out
    lo, hi = bounds(ai, st, r, n)
    out = []
    for s, y in ai.cmp(st, 'Le', lo, hi):
        if not y: out.append((s, NONE)); continue
        for s2, y2 in ai.cmp(s, 'Le', hi, n):
            if not y2: out.append((s2, NONE)); continue
            if kind == 'str' and not (s2.boundary(base, a + lo) and s2.boundary(base, a + hi)):
                for x in {a + lo, a + hi}:
                    if s2.boundary(base, x): continue
                    s3 = s2.copy()
                    if ai.mode == 'join': s3.exact = False; out.append((s3, NONE)); break
                    # one of the texts with a character across x
                    if not s3.num.islt(a, x): s3.lt(a, x)
                    s3.learn(base, x - 1, frozenset((0xE9,)))
                    if not s3.dead: out.append((s3, NONE))
                s2.bnd = s2.bnd | {(base, a + lo), (base, a + hi)}
            out.append((s2, some(('slice', base, a + lo, a + hi, kind))))
    return out
@model('core::slice::<impl [T]>::get_unchecked', 'core::str::<impl str>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def m_getu(ai, st, c):
    v = peel(ai, st, c.args[0]); r = c.args[1]
    if v[0] != 'slice':
        if v[0] in ('ref', 'cseq'): raise Stuck('unchecked access to a buffer')
        raise Stuck('get_unchecked on ' + show(v))
    _, base, a, b, kind = v
    n = b - a
    lo, hi = (r, r + 1) if isinstance(r, Lin) else bounds(ai, st, r, n)
    check_range(ai, st, c.site, lo, hi, n, 'unchecked access in bounds')
    if isinstance(r, Lin): return [(st, ('vref', ('byte', base, a + r)))]
    if kind == 'str':
        for x in (lo, hi):
            if not st.boundary(base, a + x): check_boundary(ai, st, c.site, base, a + x, a)
    return [(st, ('slice', base, a + lo, a + hi, kind))]
@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def m_first(ai, st, c):
    v = peel(ai, st, c.args[0])
    if v[0] != 'slice': raise Stuck('first of ' + show(v))
    out = []
    for s, e in ai.cmp(st, 'Eq', v[2], v[3]):
        out.append((s, NONE if e else some(('vref', ('byte', v[1], v[2] if c.name.endswith('first') else v[3] - 1)))))
    return out
@model('core::str::<impl str>::split_at', 'core::slice::<impl [T]>::split_at')
def m_split_at(ai, st, c):
    v = peel(ai, st, c.args[0]); i = c.args[1]
    if v[0] != 'slice': raise Stuck('split_at')
    _, base, a, b, kind = v
    check_range(ai, st, c.site, Z, i, b - a)
    if kind == 'str': check_boundary(ai, st, c.site, base, a + i, a)
    return [(st, adt('()', 0, [('slice', base, a, a + i, kind), ('slice', base, a + i, b, kind)]))]
@model('core::str::<impl str>::len', 'core::slice::<impl [T]>::len', '~^std::(vec::Vec|string::String).*::len$')
def m_len(ai, st, c): return [(st, ai.length(st, c.args[0]))]
@model('core::str::<impl str>::is_empty', 'core::slice::<impl [T]>::is_empty', '~^std::(vec::Vec|string::String).*::is_empty$')
def m_empty(ai, st, c): return [(s, boolv(e)) for s, e in ai.cmp(st, 'Eq', ai.length(st, c.args[0]), Z)]
@model('core::str::<impl str>::as_bytes')
def m_bytes(ai, st, c):
    v = text(ai, st, c.args[0])
    return [(st, v[:4] + ('u8',) if v[0] == 'slice' else v)]
@model('core::str::<impl str>::is_char_boundary')
def m_isb(ai, st, c):
    v = text(ai, st, c.args[0])
    if v[0] == 'slice' and st.boundary(v[1], v[2] + c.args[1]): return [(st, B1)]
    raise Stuck('is_char_boundary')
@model('~^<std::string::String as std::ops::Deref>::deref$', '~::as_str$', '~borrow::Cow<.* as std::ops::Deref>::deref$', '~^<std::borrow::Cow<.*AsRef', '~^<str as std::convert::AsRef', '~^<std::string::String as std::convert::AsRef')
def m_deref(ai, st, c):
    v = peel(ai, st, c.args[0])
    if not isinstance(v, Lin) and v[0] in ('slice', 'text'): return [(st, v)]
    return None
# ------------------------------------------------------------------ searching
def pattern(ai, st, p):
    """the set of codes of a pattern, or ('text', bytes)"""
    p = peel(ai, st, p)
    if isinstance(p, Lin): return frozenset((p.c,)) if p.const() else None
    if p[0] == 'chr': return frozenset((p[1],))
    if p[0] in ('arr', 'list'):
        s = set()
        for x in p[1]:
            q = pattern(ai, st, x)
            if q is None or isinstance(q, tuple): return None
            s |= q
        return frozenset(s)
    if p[0] == 'text':
        t = p[1].decode('utf8')
        if len(t) == 1: return frozenset((ord(t),))
        return None
    if p[0] == 'clo':
        return None
    return None
def closure_set(ai, st, clo):
    """codes accepted by a pure character predicate with finitely many of them: evaluated case by case"""
    s = st.copy()
    base = '?c'
    s.num.new(base + '.len', 1, 1); s.num.new(base + '.addr', 1)
    acc = set(); neg = False
    for s2, v in ai.closure(s, clo, [('char', base, Z)]):
        i, o = s2.point(base, Z)
        if isinstance(v, Lin) or v[0] != 'bool': raise Stuck('predicate')
        if v[1]:
            if i is None: raise Stuck('predicate accepts infinitely many characters')
            acc |= i
    return frozenset(acc)
def codeset(ai, st, p):
    q = pattern(ai, st, p)
    if q is not None: return q
    w = peel(ai, st, p)
    if not isinstance(w, Lin) and w[0] in ('clo', 'fn'): return closure_set(ai, st, w)
    raise Stuck('pattern ' + show(w))
def at(ai, st, base, x, hi, cs):
    """[(state, code or None)] is one of the codes at x (< hi)"""
    out = []
    for s, e in ai.cmp(st, 'Lt', x, hi):
        if not e: out.append((s, None)); continue
        out += ai.codes(s, base, x, sorted(cs))
    return out
def search(ai, st, base, lo, hi, cs, chars):
    """[(state, position or None, code)] of the first code out of cs in [lo,hi)"""
    for c in cs: ai.alpha.add(c)
    out = []
    for c in sorted(cs):
        s = st.copy()
        p = s.fresh('f'); s.le(lo, p); s.le(p + (UTF8W(c) if chars else 1), hi)
        for d in cs: s.nothing(base, d, lo, p)
        s.learn(base, p, frozenset((c,)))
        if s.dead: continue
        if chars: s.bnd = s.bnd | {(base, p)}
        out += [(y, p, c) for y in ai.split(s, base, p)]
    for c in cs: st.nothing(base, c, lo, hi)
    if not st.dead: out.append((st, None, None))
    return out
@model('core::str::<impl str>::strip_prefix')
def m_strip(ai, st, c):
    v = text(ai, st, c.args[0]); cs = codeset(ai, st, c.args[1])
    if v[0] != 'slice': raise Stuck('strip_prefix of a constant')
    out = []
    for s, k in at(ai, st, v[1], v[2], v[3], cs):
        if k is None: out.append((s, NONE)); continue
        p = v[2] + UTF8W(k); s.bnd = s.bnd | {(v[1], p)}
        out.append((s, some(('slice', v[1], p, v[3], v[4]))))
    return out
@model('core::str::<impl str>::starts_with', 'core::slice::<impl [T]>::starts_with')
def m_starts(ai, st, c):
    v = text(ai, st, c.args[0])
    if v[0] != 'slice': raise Stuck('starts_with on a constant')
    return [(s, boolv(k is not None)) for s, k in at(ai, st, v[1], v[2], v[3], codeset(ai, st, c.args[1]))]
@model('core::str::<impl str>::ends_with')
def m_ends(ai, st, c):
    v = text(ai, st, c.args[0]); cs = codeset(ai, st, c.args[1])
    if v[0] != 'slice' or any(x > 127 for x in cs): raise Stuck('ends_with')
    out = []
    for s, e in ai.cmp(st, 'Lt', v[2], v[3]):
        if not e: out.append((s, B0)); continue
        out += [(s2, boolv(k is not None)) for s2, k in ai.codes(s, v[1], v[3] - 1, sorted(cs))]
    return out
@model('core::str::<impl str>::find')
def m_find(ai, st, c):
    v = text(ai, st, c.args[0])
    if v[0] != 'slice': raise Stuck('find in a constant')
    cs = codeset(ai, st, c.args[1])
    return [(s, NONE if p is None else some(p - v[2])) for s, p, k in search(ai, st, v[1], v[2], v[3], cs, True)]
@model('core::str::<impl str>::contains', '~^core::slice::<impl \\[T\\]>::contains$')
def m_contains(ai, st, c):
    v = text(ai, st, c.args[0])
    if v[0] != 'slice': raise Stuck('contains on a constant')
    return [(s, boolv(p is not None)) for s, p, k in search(ai, st, v[1], v[2], v[3], codeset(ai, st, c.args[1]), v[4] == 'str')]
@model('core::str::<impl str>::split_once')
def m_split_once(ai, st, c):
    v = text(ai, st, c.args[0])
    if v[0] != 'slice': raise Stuck('split_once on a constant')
    out = []
    for s, p, k in search(ai, st, v[1], v[2], v[3], codeset(ai, st, c.args[1]), True):
        if p is None: out.append((s, NONE)); continue
        q = p + UTF8W(k); s.bnd = s.bnd | {(v[1], q)}
        out.append((s, some(adt('()', 0, [('slice', v[1], v[2], p, v[4]), ('slice', v[1], q, v[3], v[4])]))))
    return out
@model('~memchr::memchr$', '~memchr::memchr::memchr$')
def m_memchr(ai, st, c):
    k = c.args[0]; v = peel(ai, st, c.args[1])
    if not (isinstance(k, Lin) and k.const()) or v[0] != 'slice': return None
    return [(s, NONE if p is None else some(p - v[2])) for s, p, _ in search(ai, st, v[1], v[2], v[3], frozenset((k.c,)), False)]
# ------------------------------------------------------------------ iterators: ('it', kind, slice, counter)
def it(kind, v, n=None): return adt('@it:' + kind, 0, [v] if n is None else [v, n])
@model('core::str::<impl str>::chars')
def m_chars(ai, st, c): return [(st, it('chars', text(ai, st, c.args[0])))]
@model('core::str::<impl str>::char_indices')
def m_chari(ai, st, c):
    v = text(ai, st, c.args[0])
    return [(st, it('chari', v, v[2]))]
@model('core::str::<impl str>::bytes')
def m_bytesit(ai, st, c):
    v = text(ai, st, c.args[0]); return [(st, it('bytes', v[:4] + ('u8',)))]
@model('core::slice::<impl [T]>::iter', "~^<&'a \\[T\\] as std::iter::IntoIterator>::into_iter$")
def m_iter(ai, st, c):
    v = peel(ai, st, c.args[0])
    if v[0] == 'slice': return [(st, it('refs', v))]
    if v[0] in ('list', 'arr'): return [(st, it('list', v, Z))]
    if v[0] == 'tagbag': return [(st, it('bag', v))]
    if v[0] == 'ref':
        w = ai.load(st, ('cell', v[1], v[2]))
        if w[0] == 'seq': return [(st, it('elems', ('cseq', (v[1], v[2]), Z, ai.seqlen(w))))]
    if v[0] == 'cseq': return [(st, it('elems', v))]
    raise Stuck('iter over ' + show(v))
@model("~^(core|std)::array::iter::<impl std::iter::IntoIterator for \\[T; N\\]>::into_iter$", "~^<\\[T; N\\] as std::iter::IntoIterator>::into_iter$")
def m_arrinto(ai, st, c):
    v = c.args[0]
    if v[0] in ('list', 'arr'): return [(st, it('vals', v, Z))]
    return None
@model('std::iter::Iterator::enumerate')
def m_enum(ai, st, c):
    x = c.args[0]
    if isadt(x) and x[1].startswith('@it:'): return [(st, adt('@it:enum', 0, [x, Z]))]
    return None
@model('std::iter::Iterator::copied', 'std::iter::Iterator::cloned')
def m_copied(ai, st, c):
    x = c.args[0]
    if isadt(x) and x[1] == '@it:refs': return [(st, it('bytes', x[3][0]))]
    if isadt(x) and x[1].startswith('@it:'): return [(st, x)]
    return None
@model('std::iter::Iterator::skip')
def m_skip(ai, st, c):
    x, n = c.args
    if not (isadt(x) and x[1].startswith('@it:')) or not isinstance(n, Lin): return None
    if x[1] == '@it:enum' and x[3][0][1] in ('@it:bytes', '@it:refs'):
        v = x[3][0][3][0]
        out = []
        for s, e in ai.cmp(st, 'Le', n, v[3] - v[2]):
            m = n if e else v[3] - v[2]
            out.append((s, adt('@it:enum', 0, [it(x[3][0][1][4:], ('slice', v[1], v[2] + m, v[3], v[4])), x[3][1] + m])))
        return out
    if x[1] in ('@it:bytes', '@it:refs'):
        v = x[3][0]; out = []
        for s, e in ai.cmp(st, 'Le', n, v[3] - v[2]):
            m = n if e else v[3] - v[2]
            out.append((s, it(x[1][4:], ('slice', v[1], v[2] + m, v[3], v[4]))))
        return out
    raise Stuck('skip')
@model('std::iter::Iterator::by_ref')
def m_byref(ai, st, c): return [(st, c.args[0])]
@model('std::iter::Iterator::peekable')
def m_peekable(ai, st, c): return [(st, adt('@it:peek', 0, [c.args[0], NONE]))] if isadt(c.args[0]) and c.args[0][1].startswith('@it:') else None
@model('std::iter::Iterator::rev')
def m_rev(ai, st, c): raise Stuck('reverse iteration')
def advance(ai, st, x):
    """[(state, new iterator, item or None)]"""
    k = x[1][4:]
    if k in ('bytes', 'refs', 'chars', 'chari'):
        v = x[3][0]; out = []
        if v[0] != 'slice': raise Stuck('iteration over a constant')
        _, base, lo, hi, kind = v
        for s, e in ai.cmp(st, 'Lt', lo, hi):
            if not e: out.append((s, x, None)); continue
            if k in ('bytes', 'refs'):
                b = ('byte', base, lo)
                out.append((s, it(k, ('slice', base, lo + 1, hi, kind)), b if k == 'bytes' else ('vref', b)))
            else:
                n = s.width(base, lo, hi)
                item = ('char', base, lo)
                y = ('slice', base, n, hi, kind)
                out.append((s, it(k, y), item) if k == 'chars' else (s, it(k, y, x[3][1]), adt('()', 0, [lo - x[3][1], item])))
        return out
    if k in ('list', 'vals'):
        v, n = x[3]
        if not n.const(): raise Stuck('list position')
        if n.c >= len(v[1]): return [(st, x, None)]
        return [(st, it(k, v, n + 1), ('vref', v[1][n.c]) if k == 'list' else v[1][n.c])]
    if k == 'enum':
        return [(s, adt('@it:enum', 0, [y, x[3][1] + (0 if i is None else 1)]), None if i is None else adt('()', 0, [x[3][1], i])) for s, y, i in advance(ai, st, x[3][0])]
    if k == 'peek':
        if x[3][1][2] == 1: return [(st, adt('@it:peek', 0, [x[3][0], NONE]), x[3][1][3][0][3][0] if x[3][1][3][0][2] == 1 else None)]
        return [(s, adt('@it:peek', 0, [y, NONE]), i) for s, y, i in advance(ai, st, x[3][0])]
    if k == 'map':
        out = []
        for s, y, i in advance(ai, st, x[3][0]):
            if i is None: out.append((s, adt('@it:map', 0, [y, x[3][1]]), None)); continue
            for s2, v in ai.closure(s, x[3][1], [i]): out.append((s2, adt('@it:map', 0, [y, x[3][1]]), v))
        return out
    if k == 'elems':
        v = x[3][0]; vals = st.ghost.get('vals')
        if v[0] == 'cseq' and st.num.same(v[2], v[3]): return [(st, x, None)]
        if vals is None or ai.mode == 'join' or v[0] != 'cseq' or not v[2].const() or not v[3].const(): raise Stuck('iteration over produced elements')
        if v[2].c >= v[3].c: return [(st, x, None)]
        w = ai.load(st, ('cell',) + v[1]); ix = [i for a, b in w[1] for i in range(a.c, b.c)]
        return [(st, it('elems', (v[0], v[1], v[2] + 1, v[3])), ('vref', vals[ix[v[2].c]]))]
    if k == 'bag':
        # a list of unknown length whose elements all satisfy a contract
        return [(st.copy(), x, None)] + [(s, x, ('vref', e)) for s, e in ai.spec.fresh_pair(ai, st, x[3][0])]
    if k == 'words':
        v = x[3][0]; out = [(st.copy(), x, None)]
        if ai.mode != 'join': out += [(y, x, None) for y, e in ai.cmp(st.copy(), 'Eq', v[2], v[3]) if e]       # nothing is left: no word, for certain
        a = st.fresh('w'); b = st.fresh('w'); st.le(v[2], a); st.lt(a, b); st.le(b, v[3])
        if ai.mode == 'join': st.exact = False
        else:
            for ch in WHITE: st.nothing(v[1], ch, a, b)
            for ch in WHITE: st.nothing(v[1], ch, v[2], a)     # the words that follow no white space
            for y, e in ai.cmp(st.copy(), 'Eq', b, v[3]):
                if e: y.bnd = y.bnd | {(v[1], a), (v[1], b)}; out.append((y, it('words', ('slice', v[1], b, v[3], v[4])), ('slice', v[1], a, b, v[4])))
            st.lt(b, v[3]); st.learn(v[1], b, frozenset((32,)))
            if not st.dead and st.num.same(a, v[2]) is False: st.eq(a, v[2])
        st.bnd = st.bnd | {(v[1], a), (v[1], b)}
        st.sat()
        if not st.dead: out.append((st, it('words', ('slice', v[1], b + (1 if ai.mode != 'join' else 0), v[3], v[4])), ('slice', v[1], a, b, v[4])))
        out[0][0].exact = False
        return out
    raise Stuck('iterator ' + k)
@model('~Iterator>::next$', 'std::iter::Iterator::next', '~impl std::iter::Iterator for .*>::next$')
def m_next(ai, st, c):
    r = c.args[0]
    if r[0] != 'ref': return None
    x = ai.load(st, ('cell', r[1], r[2]))
    while not isinstance(x, Lin) and x[0] == 'ref': r = x; x = ai.load(st, ('cell', r[1], r[2]))
    if not isadt(x): return None
    if x[1] == 'std::ops::Range':
        a, b = x[3]
        if not isinstance(a, Lin) or not isinstance(b, Lin): return None
        out = []
        for s, e in ai.cmp(st, 'Lt', a, b):
            if e: ai.storeto(s, ('cell', r[1], r[2]), adt(x[1], 0, [a + 1, b])); out.append((s, some(a)))
            else: out.append((s, NONE))
        return out
    if x[1] == 'std::ops::RangeInclusive' and isinstance(x[3][0], Lin):
        a, b = x[3][:2]; out = []
        for s, e in ai.cmp(st, 'Le', a, b):
            if e: ai.storeto(s, ('cell', r[1], r[2]), adt(x[1], 0, [a + 1, b, boolv(0)])); out.append((s, some(a)))
            else: out.append((s, NONE))
        return out
    if x[1] == 'std::ops::RangeFrom' and isinstance(x[3][0], Lin):
        ai.storeto(st, ('cell', r[1], r[2]), adt(x[1], 0, [x[3][0] + 1])); return [(st, some(x[3][0]))]
    if not x[1].startswith('@it:'): return None
    out = []
    for s, y, i in advance(ai, st, x):
        ai.storeto(s, ('cell', r[1], r[2]), y)
        out.append((s, NONE if i is None else some(i)))
    return out
@model('std::iter::Peekable::<I>::peek')
def m_peek(ai, st, c):
    r = c.args[0]; x = ai.load(st, ('cell', r[1], r[2]))
    if not isadt(x) or x[1] != '@it:peek': return None
    if x[3][1][2] == 0:
        out = []
        for s, y, i in advance(ai, st, x[3][0]):
            o = NONE if i is None else some(i)
            ai.storeto(s, ('cell', r[1], r[2]), adt('@it:peek', 0, [y, some(o)]))
            out.append((s, NONE if i is None else some(('vref', i))))
        return out
    o = x[3][1][3][0]
    return [(st, NONE if o[2] == 0 else some(('vref', o[3][0])))]
@model("std::str::Chars::<'a>::as_str", '~str::Chars.*::as_str$')
def m_asstr(ai, st, c):
    x = peel(ai, st, c.args[0])
    if isadt(x) and x[1] == '@it:chars': return [(st, x[3][0])]
    return None
@model('std::iter::Iterator::position', '~^<std::slice::Iter<.*::position$')
def m_position(ai, st, c):
    r = c.args[0]; x = ai.load(st, ('cell', r[1], r[2]))
    if not isadt(x) or x[1] not in ('@it:bytes', '@it:refs'): raise Stuck('position over ' + show(x))
    v = x[3][0]
    clo = c.args[1]
    s = st.copy()
    cs = closure_bytes(ai, s, clo, x[1] == '@it:refs')
    out = []
    for s, p, k in search(ai, st, v[1], v[2], v[3], cs, False):
        ai.storeto(s, ('cell', r[1], r[2]), it(x[1][4:], ('slice', v[1], v[3] if p is None else p + 1, v[3], v[4])))
        out.append((s, NONE if p is None else some(p - v[2])))
    return out
def closure_bytes(ai, s, clo, ref):
    base = '?b'
    s.num.new(base + '.len', 1, 1); s.num.new(base + '.addr', 1)
    acc = set()
    b = ('byte', base, Z)
    for s2, v in ai.closure(s, clo, [('vref', b) if ref else b]):
        if isinstance(v, Lin) or v[0] != 'bool': raise Stuck('predicate')
        if v[1]:
            i, _ = s2.point(base, Z)
            if i is None: raise Stuck('predicate accepts infinitely many bytes')
            acc |= i
    return frozenset(acc)
WHITE = (9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000)
@model('core::str::<impl str>::split_whitespace')
def m_words(ai, st, c):
    v = text(ai, st, c.args[0])
    if v[0] != 'slice': raise Stuck('words of a constant')
    return [(st, it('words', v))]
@model('std::iter::Iterator::nth', '~Iterator>::nth$')
def m_nth(ai, st, c):
    r = c.args[0]; x = ai.load(st, ('cell', r[1], r[2])); n = c.args[1]
    if not isadt(x) or not x[1].startswith('@it:') or not n.const() or n.c > 16: return None
    work = [(st, x, None)]; out = []
    for k in range(n.c + 1):
        nw = []
        for s, y, _ in work:
            for s2, y2, i in advance(ai, s, y):
                if i is None: ai.storeto(s2, ('cell', r[1], r[2]), y2); out.append((s2, NONE))
                else: nw.append((s2, y2, i))
        work = nw
    for s, y, i in work: ai.storeto(s, ('cell', r[1], r[2]), y); out.append((s, some(i)))
    return out
@model('std::iter::Iterator::find', 'std::iter::Iterator::any', 'std::iter::Iterator::all', 'std::iter::Iterator::find_map', '~Iterator>::(find|any|all|find_map)$')
def m_ifind(ai, st, c):
    r = c.args[0]; x = ai.load(st, ('cell', r[1], r[2])); clo = c.args[1]
    if not isadt(x) or not x[1].startswith('@it:'): return None
    inner = x
    while inner[1] in ('@it:map', '@it:enum'): inner = inner[3][0]
    if inner[1] not in ('@it:bag', '@it:elems', '@it:list'): return None
    what = c.name.split('::')[-1]
    bag = inner[1] == '@it:bag'
    end = {'find': NONE, 'find_map': NONE, 'any': B0, 'all': B1}[what]
    out = []; work = [(st, x)]
    while work:
        s, y = work.pop()
        for s2, y2, i in advance(ai, s, y):
            if i is None: ai.storeto(s2, ('cell', r[1], r[2]), y2); out.append((s2, end)); continue
            for s3, v in ai.closure(s2, clo, [('vref', i) if what == 'find' else i]):
                stop = v[2] == 1 if what == 'find_map' else v[1] == (0 if what == 'all' else 1)
                if stop:
                    ai.storeto(s3, ('cell', r[1], r[2]), y2)
                    out.append((s3, some(i) if what == 'find' else v if what == 'find_map' else boolv(what == 'any')))
                elif not bag: work.append((s3, y2))
    return out
def same_text(ai, st, a, b):
    """[(state, bool)] equality of two texts"""
    if a[0] == 'text' and b[0] == 'text': return [(st, int(a[1] == b[1]))]
    if a[0] == 'text': a, b = b, a
    _, base, lo, hi, kind = a
    if b[0] == 'text':
        n = len(b[1]); out = []
        try: cs = b[1].decode() if kind == 'str' else b[1].decode('ascii')
        except UnicodeDecodeError: raise Stuck('comparison with bytes')
        s = st.copy(); s.eq(hi - lo, lit(n)); x = lo
        for ch in cs:
            if s.dead: break
            s.learn(base, x, frozenset((ord(ch),))); x = x + UTF8W(ord(ch))
            if kind == 'str': s.bnd = s.bnd | {(base, x)}
        if not s.dead: out.append((s.sat(), 1))
        out = [q for q in out if not q[0].dead]
        if n == 0:
            st.lt(lo, hi); st.sat()
            if not st.dead: out.append((st, 0))
            return out
        if out and ai.mode != 'join': st.ghost['neq'] = st.ghost.get('neq', ()) + ((base, lo, hi, b[1]),)
        if not (out and st.num.same(hi - lo, lit(n)) and n == 1): out.append((st, 0))
        else:
            st.learn(base, lo, None, frozenset((ord(cs[0]),)))
            if not st.dead: out.append((st, 0))
        return out
    if b[1] == base and st.num.same(lo, b[2]) and st.num.same(hi, b[3]): return [(st, 1)]
    s = st.copy(); s.eq(hi - lo, b[3] - b[2]); s.exact = False; st.exact = False; s.sat()
    return [q for q in ((s, 1), (st, 0)) if not q[0].dead]
@model('core::str::traits::<impl std::cmp::PartialEq for str>::eq', '~slice::.*<impl std::cmp::PartialEq<\\[U\\]> for \\[T\\]>::eq$', 'std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::eq', 'std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def m_streq(ai, st, c):
    a, b = peel(ai, st, c.args[0]), peel(ai, st, c.args[1])
    if isinstance(a, Lin) or isinstance(b, Lin) or a[0] not in ('slice', 'text') or b[0] not in ('slice', 'text'): return None
    ne = c.name.endswith('::ne')
    return [(s, boolv(v ^ ne)) for s, v in same_text(ai, st, a, b)]
@model('std::iter::Iterator::map')
def m_map(ai, st, c):
    if isadt(c.args[0]) and c.args[0][1].startswith('@it:'): return [(st, adt('@it:map', 0, list(c.args)))]
    return None
@model('std::iter::Iterator::collect')
def m_collect(ai, st, c):
    x = c.args[0]
    if not isadt(x) or not x[1].startswith('@it:'): return None
    inner = x
    while inner[1] in ('@it:map', '@it:enum'): inner = inner[3][0]
    if inner[1] == '@it:bag':
        return [(s, ('list', () if i is None else (i,))) for s, y, i in advance(ai, st, x)]
    if inner[1] not in ('@it:list', '@it:elems'): raise Stuck('collect')
    work = [(st, x, ())]; done = []
    while work:
        s, y, acc = work.pop()
        for s2, y2, i in advance(ai, s, y):
            if i is None: done.append((s2, ('list', acc)))
            else: work.append((s2, y2, acc + (i,)))
    return done
# ------------------------------------------------------------------ pointers and vectors
@model('core::slice::<impl [T]>::as_ptr', 'core::str::<impl str>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
def m_asptr(ai, st, c):
    v = peel(ai, st, c.args[0])
    if v[0] == 'slice': return [(st, ('ptr', ('base', v[1]), v[2]))]
    if v[0] == 'ref': return [(st, ('ptr', ('cell', v[1], v[2]), Z))]
    if v[0] in ('cslice', 'cseq'): return [(st, ('ptr', ('cell',) + v[1], v[2]))]
    raise Stuck('as_ptr of ' + show(v))
def esize(ai, ty):
    t = ai.ty(ty); t = ai.ty(t['to']) if t['k'] in ('ref', 'ptr') else t
    if t['k'] in ('uint', 'int'):
        return max(1, ai.bits_of(t['n']) // 8) if False else {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8}.get(t['n'])
    return None
@model('~ptr::(const|mut)_ptr::<impl \\*(const|mut) T>::(add|wrapping_add)$')
def m_add(ai, st, c):
    v, n = c.args
    if v[0] != 'ptr' or v[1][0] != 'base' or esize(ai, c.atys[0]) != 1: raise Stuck('pointer arithmetic')
    e = v[2] + n
    L = sym(v[1][1] + '.len')
    if c.name.endswith('::add'):
        ok = st.num.isle(Z, e) and st.num.isle(e, L)
        def neg(s):
            s = s.copy(); s.lt(L, e).sat(); return [s]
        ai.need(st, 'pointer offset within the text', c.site, ok, f'offset {e} of a text of {L} bytes', neg)
        if not ok: st.le(e, L); st.sat()
    return [(st, ('ptr', v[1], e))]
@model('~ptr::(const|mut)_ptr::<impl \\*(const|mut) T>::(cast|cast_mut|cast_const)$')
def m_cast(ai, st, c): return [(st, c.args[0])]
@model('~ptr::(const|mut)_ptr::<impl \\*(const|mut) T>::addr$')
def m_addr(ai, st, c): return [(st, ai.address(st, c.args[0]))]
@model('~ptr::(const|mut)_ptr::<impl \\*(const|mut) T>::(read|read_unaligned)$', 'std::ptr::read', 'std::ptr::read_unaligned')
def m_read(ai, st, c):
    p = c.args[0]
    if p[0] in ('ref', 'ptr') and (p[0] == 'ref' or p[1][0] == 'cell'):
        cell = (p[1], p[2]) if p[0] == 'ref' else (p[1][1], p[1][2])
        v = ai.load(st, ('cell',) + cell)
        if not isinstance(v, Lin) and v[0] == 'uninit':
            t = ai.ty(c.rty)
            if t['k'] == 'array': return [(st, ('rep', ('uninit',), int(t['len'])))]
            raise Stuck('read of uninitialised memory')
        return [(st, v)]
    if p[0] == 'ptr' and p[1][0] == 'base' and esize(ai, c.atys[0]) == 1:
        L = sym(p[1][1] + '.len')
        check_range(ai, st, c.site, p[2], p[2] + 1, L, 'unchecked access in bounds')
        return [(st, ('byte', p[1][1], p[2]))]
    raise Stuck('read through a pointer')
@model('~MaybeUninit::<T>::uninit$', '~MaybeUninit::<.*>::uninit$')
def m_uninit(ai, st, c):
    t = ai.ty(c.rty)
    return [(st, ('uninit',))]
@model('~MaybeUninit::<\\[T; N\\]>::transpose$', '~MaybeUninit::<.*>::uninit_array$')
def m_transpose(ai, st, c):
    t = ai.ty(c.rty)
    if t['k'] == 'array': return [(st, ('rep', ('uninit',), int(t['len'])))]
    raise Stuck('transpose')
@model('~MaybeUninit::<T>::as_(mut_)?ptr$')
def m_muptr(ai, st, c):
    r = c.args[0]
    return [(st, ('ptr', ('cell', r[1], r[2]), Z))]
@model('~MaybeUninit::<T>::assume_init$')
def m_assume(ai, st, c):
    v = c.args[0]
    if not isinstance(v, Lin) and v[0] == 'uninit':
        t = ai.ty(c.rty)
        if t['k'] == 'array' and 'MaybeUninit' in ai.ty(t['e'])['s']: return [(st, ('rep', ('uninit',), int(t['len'])))]
        raise Stuck('assume_init of uninitialised memory')
    return [(st, v)]
@model('~MaybeUninit::<T>::new$')
def m_munew(ai, st, c): return [(st, c.args[0])]
@model('~MaybeUninit::<T>::write$')
def m_muwrite(ai, st, c):
    r = c.args[0]
    if r[0] != 'ref': raise Stuck('write through ' + r[0])
    ai.storeto(st, ('cell', r[1], r[2]), c.args[1], c.site)
    return [(st, r)]
@model('~copy_from_slice$')
def m_copy(ai, st, c):
    d, s0 = c.args[0], peel(ai, st, c.args[1])
    if d[0] == 'ref':
        w = ai.load(st, ('cell', d[1], d[2]))
        if w[0] == 'rep': d = ('cslice', (d[1], d[2]), Z, Lin(w[2]))
    if d[0] != 'cslice' or s0[0] != 'slice': raise Stuck('copy_from_slice')
    cell, lo, hi = d[1:]
    n, m = hi - lo, s0[3] - s0[2]
    ok = st.num.same(n, m)
    def neg(s):
        a = s.copy(); a.lt(n, m).sat(); b = s.copy(); b.lt(m, n).sat(); return [a, b]
    ai.need(st, 'copy between slices of equal length', c.site, ok, f'{n} and {m} bytes', neg)
    if not ok: st.eq(n, m); st.sat()
    w = ai.load(st, ('cell',) + cell)
    if w[0] != 'rep' or not st.num.same(lo, Z): raise Stuck('copy into a used buffer')
    if not (isinstance(w[1], Lin) and w[1].const()): raise Stuck('buffer fill')
    ai.storeto(st, ('cell',) + cell, ('buf', w[2], s0[1], s0[2], m, w[1].c))
    return [(st, UNIT)]
WIDTH = {'_mm_load_si128': (16, 1), '_mm_loadu_si128': (16, 0), '_mm_lddqu_si128': (16, 0), '_mm256_load_si256': (32, 1), '_mm256_loadu_si256': (32, 0), '_mm256_lddqu_si256': (32, 0)}
@model('~arch::x86_64::_mm(256)?_(load|loadu|lddqu)_si(128|256)$')
def m_load(ai, st, c):
    W, al = WIDTH[c.name.split('::')[-1]]
    p = c.args[0]
    if p[0] == 'ref': p = ('ptr', ('cell', p[1], p[2]), Z)
    if p[0] != 'ptr': raise Stuck('vector load from ' + show(p))
    if p[1][0] == 'base':
        base = p[1][1]; L = sym(base + '.len')
        check_range(ai, st, c.site, p[2], p[2] + W, L, 'vector load within the text')
        if al:
            g = ai_al = st.num.cong(sym(base + '.addr') + p[2], W)
            def neg(s):
                # an address for which the load is not aligned
                out = []
                for r in (1, W // 2):
                    t = s.copy(); q = t.fresh('al', r, r); t.num.congr = t.num.congr | {(sym(base + '.addr') + p[2] - r, W)}
                    out.append(t)
                return out
            ai.need(st, 'aligned vector load', c.site, g == 0, f'address of the text plus {p[2]}', neg)
            if g != 0: st.num.congr = st.num.congr | {(sym(base + '.addr') + p[2], W)}
        return [(st, ('vec', base, p[2], Lin(W), W, None))]
    cell = p[1][1:]
    w = ai.load(st, ('cell',) + cell)
    if w[0] == 'rep': raise Stuck('load of a constant buffer')
    if w[0] != 'buf': raise Stuck('vector load from ' + show(w))
    check_range(ai, st, c.site, p[2], p[2] + W, Lin(w[1]), 'vector load within its buffer')
    if al:
        f = [x for x in st.frames if x.id == cell[0][0]]
        good = False
        if f and all(x == ('f', 0) for x in cell[1]) and st.num.cong(p[2], W) == 0:
            t = ai.ty(ai.body(f[0].inst).locals[cell[0][1]])
            good = (t.get('al') or 0) >= W
            if not good and t.get('al') is None: raise Stuck('unknown alignment')
        ai.need(st, 'aligned vector load', c.site, good, 'local buffer', None)
    if not st.num.same(p[2], Z): raise Stuck('load from the middle of a buffer')
    return [(st, ('vec', w[2], w[3], w[4], W, w[5]))]
@model('~arch::x86_64::_mm(256)?_set1_epi8$')
def m_set1(ai, st, c): return [(st, ('splat', c.args[0]))]
@model('~arch::x86_64::_mm(256)?_cmpeq_epi8$')
def m_cmpeq(ai, st, c):
    a, b = c.args
    if a[0] == 'splat': a, b = b, a
    if a[0] != 'vec' or b[0] != 'splat' or not (isinstance(b[1], Lin) and b[1].const()): raise Stuck('vector comparison')
    k = b[1].c & 255
    if a[5] is not None and a[5] == k: raise Stuck('the padding matches')
    if k > 127: raise Stuck('non-ASCII byte')
    ai.alpha.add(k)
    return [(st, ('lmask',) + a[1:5] + (frozenset((k,)),))]
@model('~arch::x86_64::_mm(256)?_or_si(128|256)$')
def m_or(ai, st, c): raise Stuck('union of masks')
@model('~arch::x86_64::_mm(256)?_movemask_epi8$')
def m_movemask(ai, st, c):
    v = c.args[0]
    if v[0] != 'lmask': raise Stuck('movemask of ' + show(v))
    (k,) = v[5]
    return [(st, ('bits', v[1], v[2], v[2], v[2] + v[3], 32, k))]
@model('~num::<impl u\\d+>::trailing_zeros$', '~num::<impl i\\d+>::trailing_zeros$')
def m_tz(ai, st, c):
    v = c.args[0]
    if isinstance(v, Lin):
        if v.const(): return [(st, Lin((v.c & -v.c).bit_length() - 1 if v.c else ai.bits_of(c.atys[0])))]
        raise Stuck('trailing zeros of a number')
    if v[0] != 'bits': raise Stuck('trailing zeros of ' + show(v))
    return [(s, lit(v[5]) if i is None else i) for s, i in ai.first(st, v)]
# ------------------------------------------------------------------ containers
@model('~^std::vec::Vec::<T>::(new|with_capacity)$', '~^<std::vec::Vec<T> as std::default::Default>::default$', '~^std::vec::Vec::<T, A>::new_in$')
def m_vnew(ai, st, c): return [(st, ('seq', (), None))]
def seqcell(ai, st, v):
    while v[0] == 'ref':
        w = ai.load(st, ('cell', v[1], v[2]))
        if isinstance(w, Lin): break
        if w[0] == 'seq': return ('cell', v[1], v[2]), w
        if w[0] == 'rep' and not isinstance(w[1], Lin) and w[1][0] == 'uninit': return ('cell', v[1], v[2]), ('seq', (), w[2])
        if w[0] != 'ref': break
        v = w
    raise Stuck('container expected')
@model('~^std::vec::Vec::<T, A>::push$')
def m_push(ai, st, c):
    loc, s = seqcell(ai, st, c.args[0])
    ai.storeto(st, loc, ai.append(st, s, c.args[1], c.site))
    return [(st, UNIT)]
def cat(st, a, b):
    segs = tuple(x for x in a if not st.num.same(x[0], x[1]))
    for x in b:
        if st.num.same(x[0], x[1]): continue
        if segs and st.num.same(segs[-1][1], x[0]): segs = segs[:-1] + ((segs[-1][0], x[1]),)
        else: segs += (x,)
    return segs
def sub(ai, st, v, site):
    """segments of a view of a container"""
    if v[0] == 'ref': loc, s = seqcell(ai, st, v); lo, hi = Z, ai.seqlen(s)
    elif v[0] == 'cseq':
        s = ai.load(st, ('cell',) + v[1]); lo, hi = v[2], v[3]
        if s[0] == 'rep' and not isinstance(s[1], Lin) and s[1][0] == 'uninit': s = ('seq', (), s[2])
        if s[0] != 'seq': raise Stuck('elements of ' + show(s))
    elif v[0] == 'seq': s = v; lo, hi = Z, ai.seqlen(v)
    else: raise Stuck('elements of ' + show(v))
    n = ai.seqlen(s)
    ok = st.num.isle(hi, n)
    def neg(s):
        s = s.copy(); s.lt(n, hi).sat(); return [s]
    ai.need(st, 'only initialised elements are read', site, ok, f'elements {lo}..{hi} of {n} written', neg)
    if not ok: st.le(hi, n); st.sat()
    if st.num.same(lo, Z) and st.num.same(hi, n): return s[1]
    segs = s[1]
    if len(segs) == 1: return ((segs[0][0] + lo, segs[0][0] + hi),)
    if not segs or st.num.same(lo, hi): return ()
    raise Stuck('part of a container')
@model('~slice::<impl \\[T\\]>::to_vec$', '~^<std::vec::Vec<T.*> as std::convert::From<&.*>>::from$', '~slice::<impl \\[T\\]>::into_vec$', '~slice::<impl std::borrow::ToOwned for \\[T\\]>::to_owned$')
def m_tovec(ai, st, c): return [(st, ('seq', sub(ai, st, c.args[0], c.site), None))]
@model('~^<std::vec::Vec<T.*> as std::clone::Clone>::clone$')
def m_vclone(ai, st, c):
    v = peel(ai, st, c.args[0])
    if v[0] in ('tagbag', 'list'): return [(st, v)]
    return [(st, ('seq', sub(ai, st, c.args[0], c.site), None))]
@model('~^std::vec::Vec::<T, A>::(extend_from_slice|append)$')
def m_extend(ai, st, c):
    loc, s = seqcell(ai, st, c.args[0])
    x = sub(ai, st, c.args[1], c.site)
    if c.name.endswith('append'): ai.storeto(st, seqcell(ai, st, c.args[1])[0], ('seq', (), None))
    ai.storeto(st, loc, ('seq', cat(st, s[1], x), s[2]))
    return [(st, UNIT)]
@model('~^<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$', '~^std::vec::Vec::<T, A>::as_(mut_)?slice$')
def m_vderef(ai, st, c):
    v = peel(ai, st, c.args[0])
    if v[0] in ('list', 'arr', 'tagbag'): return [(st, v)]
    loc, s = seqcell(ai, st, c.args[0])
    return [(st, ('cseq', (loc[1], loc[2]), Z, ai.seqlen(s)))]
@model('~^std::vec::Vec::<T, A>::clear$')
def m_clear(ai, st, c):
    loc, s = seqcell(ai, st, c.args[0]); ai.storeto(st, loc, ('seq', (), s[2])); return [(st, UNIT)]
@model('~^std::vec::Vec::<T, A>::(reserve|shrink_to_fit|reserve_exact)$', '~^std::string::String::(reserve|shrink_to_fit)$')
def m_nop(ai, st, c): return [(st, UNIT)]
@model('~^std::vec::Vec::<T, A>::(truncate|pop|insert|remove|swap_remove|set_len|drain|retain|dedup.*)$')
def m_vbad(ai, st, c): raise Stuck('container operation ' + c.name)
# strings being built
@model('~^std::string::String::(new|with_capacity)$', '~^<std::string::String as std::default::Default>::default$')
def m_snew(ai, st, c): return [(st, ('ostr', ()))]
def ocell(ai, st, v):
    while v[0] == 'ref':
        w = ai.load(st, ('cell', v[1], v[2]))
        if isinstance(w, Lin): break
        if w[0] == 'ostr': return ('cell', v[1], v[2]), w
        if w[0] != 'ref': break
        v = w
    raise Stuck('string expected')
def emit(ai, st, loc, w, items, site):
    out = []
    for s, v in ai.spec.pushed(ai, st, w, items, site): 
        ai.storeto(s, loc, v); out.append((s, UNIT))
    return out
@model('~^std::string::String::push$')
def m_spush(ai, st, c):
    loc, w = ocell(ai, st, c.args[0])
    return emit(ai, st, loc, w, c.args[1], c.site)
@model('~^std::string::String::push_str$')
def m_spushs(ai, st, c):
    loc, w = ocell(ai, st, c.args[0])
    return emit(ai, st, loc, w, text(ai, st, c.args[1]), c.site)
@model('~^<(str|std::string::String) as std::(borrow::ToOwned>::to_owned|string::ToString>::to_string|convert::From<&.*>::from)$', '~impl std::borrow::ToOwned for str>::to_owned$', '~^<std::string::String as std::convert::From<&.*str>>::from$', '~^<T as std::string::ToString>::to_string$', '~^<str as std::string::SpecToString>::spec_to_string$')
def m_own(ai, st, c):
    return ai.spec.pushed(ai, st, ('ostr', ()), text(ai, st, c.args[0]), c.site)
@model("~impl std::convert::From<&'a str> for std::borrow::Cow<'a, str>>::from$", "~^<std::borrow::Cow<'a, str> as std::convert::From<&'a str>>::from$")
def m_cowb(ai, st, c): return [(st, adt('std::borrow::Cow', 0, [c.args[0]]))]
@model("~^<std::borrow::Cow<'a, str> as std::convert::From<std::string::String>>::from$", "~impl std::convert::From<std::string::String> for std::borrow::Cow<'a, str>>::from$")
def m_cowo(ai, st, c): return [(st, adt('std::borrow::Cow', 1, [c.args[0]]))]
@model('~borrow::Cow::<.*>::into_owned$')
def m_into_owned(ai, st, c):
    v = c.args[0]
    if not isadt(v): return None
    if v[2] == 1: return [(st, v[3][0])]
    return ai.spec.pushed(ai, st, ('ostr', ()), text(ai, st, v), c.site)
@model('std::mem::drop', 'std::ptr::drop_in_place', 'std::mem::forget', 'std::hint::black_box')
def m_drop(ai, st, c): return [(st, c.args[0] if c.name.endswith('black_box') else UNIT)]
# numbers
@model('~num::<impl [ui]\\w+>::(wrapping|saturating|checked)_(add|sub)$')
def m_arith(ai, st, c):
    k = c.name.split('::')[-1].split('_')
    a, b = c.args
    if not (isinstance(a, Lin) and isinstance(b, Lin)): raise Stuck('arithmetic')
    v = a + b if k[1] == 'add' else a - b
    ty = c.atys[0]; lo, hi = ai.limits(ty)
    out = []
    for s, w in ai.ranged(st, v, ty, True):
        o = w[3][1][1]
        if k[0] == 'checked': out.append((s, NONE if o else some(w[3][0])))
        elif k[0] == 'saturating': out.append((s, w[3][0] if not o else lit(hi if k[1] == 'add' else lo)))
        else:
            if o: s.exact = False
            out.append((s, w[3][0]))
    return out
@model('std::cmp::Ord::min', 'std::cmp::min', 'std::cmp::Ord::max', 'std::cmp::max', '~num::<impl.*>::(min|max)$')
def m_minmax(ai, st, c):
    a, b = c.args
    if not (isinstance(a, Lin) and isinstance(b, Lin)): return None
    mn = c.name.endswith('min')
    return [(s, (a if e else b) if mn else (b if e else a)) for s, e in ai.cmp(st, 'Le', a, b)]
CLASSES = {'': range(128), '_digit': b'0123456789', '_lowercase': range(97, 123), '_uppercase': range(65, 91), '_alphabetic': [*range(65, 91), *range(97, 123)],
    '_alphanumeric': [*range(48, 58), *range(65, 91), *range(97, 123)], '_whitespace': b' \t\n\r\x0c', '_hexdigit': b'0123456789abcdefABCDEF', '_control': [*range(32), 127],
    '_graphic': range(33, 127), '_punctuation': [k for k in range(33, 127) if not chr(k).isalnum()]}
@model('~(num|slice::ascii)::<impl u8>::is_ascii(_\\w+)?$', '~char::methods::<impl char>::is_ascii(_\\w+)?$')
def m_isascii(ai, st, c):
    ks = frozenset(CLASSES[re.search(r'is_ascii(\w*)$', c.name)[1]])
    v = peel(ai, st, c.args[0])
    if isinstance(v, Lin) and v.const(): return [(st, boolv(v.c in ks))]
    if isinstance(v, Lin): return None
    if v[0] == 'chr': return [(st, boolv(v[1] in ks))]
    if v[0] not in ('byte', 'char'): return None
    out = []
    s = st.copy().learn(v[1], v[2], ks)
    if not s.dead: out.append((s, boolv(1)))
    st.learn(v[1], v[2], None, ks)
    if not st.dead: out.append((st, boolv(0)))
    return out
@model('~^std::ops::RangeInclusive::<.*>::new$')
def m_rinew(ai, st, c): return [(st, adt('std::ops::RangeInclusive', 0, [c.args[0], c.args[1], boolv(0)]))]
@model('~^<std::option::Option<T> as std::cmp::PartialEq>::(eq|ne)$')
def m_opteq(ai, st, c):
    a, b = peel(ai, st, c.args[0]), peel(ai, st, c.args[1])
    return [(s, boolv(v if c.name.endswith('eq') else 1 - v)) for s, v in ai.eqval(st, a, b)]
