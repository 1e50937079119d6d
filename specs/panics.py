"""Panics that an operation of the client can reach.

An obligation of the value graph is a place that panics together with the conditions of the way that leads there.  It is reported when
values of the arguments (texts, numbers) and of the message received are found under which every condition on them holds; the outcomes
of the I/O events that are also on the way are independent of them.  An obligation for which no such values are found is left undecided."""
import itertools
import witness
from clientspec import *
from witness import leaves as msgleaves, isleaf, SINGLE
from machine import free_syms
U64 = 2**64
NUMS = {'u8': 255, 'u16': 2**16 - 1, 'u32': 2**32 - 1, 'u64': U64 - 1, 'usize': U64 - 1, 'dur': U64 * 10**9 - 1}
def rooted(t):
    """part of an argument: a symbol, or a field of one"""
    while t.op == 'fld': t = t.a[0]
    return t.op == 'sym' and not t.a[0].startswith(('lv', 'ext'))
def texts_and_numbers(ts):
    tx, nm, seen = [], [], set()
    def f(x):
        for s in text_places(x):
            if rooted(s) and s not in tx: tx.append(s)
        if x.op == 'le' or x.op == 'ieq':
            for y in number_places(x):
                if rooted(y) and y not in nm: nm.append(y)
    for t in ts: witness.walk(t, seen, f)
    return [x for x in tx if x not in nm], [x for x in nm if x not in tx]
def text_places(x):
    if x.op in ('len', 'slice'): yield x.a[0]
    elif x.op == 'cat': yield from x.a[0]
    elif x.op in ('pred', 'app', 'find', 'rfind', 'sfindp', 'parse', 'eq', 'seq'):
        for y in x.a:
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, TM.T) and (x.op == 'pred' or x.op not in ('app',) or x.a[0] == 'atchar') : yield z
def number_places(x):
    out = set(); seen = set()
    def f(y):
        if rooted(y): out.add(y)
    def go(y):
        if y in seen: return
        seen.add(y)
        if rooted(y): out.add(y); return
        if y.op in ('len', 'slice', 'cat', 'pred', 'is') or y.op == 'app' and y.a[0] != 'mul': return
        for c in children(y): go(c)
    for c in children(x): go(c)
    return sorted(out, key=lambda y: y.id)
def conditions(ob):
    ats = witness.atoms_of(ob)
    env, kind, path, span, detail, stack = ob
    if kind == 'overflow' and isinstance(detail, tuple) and detail[0] == 'duration overflow':
        v = detail[1]
        ats.append((truth(ite(le(v, num(U64 * 10**9 - 1)), ite(le(ZERO, v), ZERO, ONE), ONE)), 1))
    if kind == 'assert' and isinstance(detail, tuple): pass
    return ats
TEXTS = ['', 'a', 'ab', '#', '#a', 'é', 'oauth:', 'oauth:a', '\r\n', 'a\r\n', 'aaaaaaa', 'éééééé', 'a' * 40, 'aé' * 20, 'a' * 600, 'é' * 300 + 'a', 'aé' * 200]
def panics(ctx, where, what, r):
    """a panic that some argument reaches is a way for the operation not to do what it must"""
    n = 0
    for ob in r.m.oblig:
        env, kind, path, span, detail, stack = ob
        ats = conditions(ob)
        site = next((p for p in reversed(stack) if p.startswith('tmi')), path)
        w = search(ats, lambda m: confirm(r, ob, m))
        if w is None: ctx.undecided(where, f'{what}: possible {kind} panic in {site} ({span})'); continue
        n += 1
        ctx.bad(f'{what}: {kind} panic', f'{site} {span}', f'{what} panics ({kind}: {path}) with {w}')
        break
    if not r.m.oblig: ctx.good(sample=f'{what}: no panic is reachable')
    return n
def confirm(r, ob, m):
    """repeats the analysis with these values: the same place is reached, and only outcomes of events decide whether it is"""
    if not hasattr(r, 'again'): return False
    m = {l: c for l, c in m.items()}
    for l in list(m):
        if m[l] is NONE: continue
    r2 = r.again(m)
    if r2 is None: return False
    for o in r2.m.oblig:
        if o[1:4] != ob[1:4]: continue
        ats = []
        for a, v in conditions(o):
            if a in (ONE, ZERO):
                if (a is ONE) != bool(v): break
            else: ats.append((a, v))
        else:
            if any(x.op == 'sym' and x.a[0].startswith('lv') for a, v in ats for x in TMwalk(a)): continue
            if free_choice(abstract(ats)[0]): return True
    return False
SPENT = [0.0]
def search(ats, sure=lambda m: True):
    if SPENT[0] > 45: return None
    import time; t0 = time.time()
    try: return search_(ats, sure)
    finally: SPENT[0] += time.time() - t0
def search_(ats, sure):
    ats = [(a, v) for a, v in ats]
    if any(a in (ONE, ZERO) and (a is ONE) != bool(v) for a, v in ats): return None
    ats = [(a, v) for a, v in ats if a not in (ONE, ZERO)]
    if any(x.op == 'sym' and x.a[0].startswith('lv') for a, v in ats for x in TMwalk(a)): return None
    ats, back = abstract(ats)
    orig = lambda m: {subst(l, back): c for l, c in m.items()}
    ts = [a for a, v in ats]
    tx, nm = texts_and_numbers(ts)
    ml, consts, nums = msgleaves(ts)
    ls = [(t, [st(c) for c in cands(consts, nums)]) for t in tx] + [(t, [num(c) for c in ncands(t, nums)]) for t in nm]
    for l in ml: ls.append((l, [NONE] + [some(st(c)) for c in witness.candidates(l, consts, nums)[:120]]))
    if not ls: return describe({}) if consistent(ats, {}) and sure({}) else None
    # values of one leaf that meet the conditions on it alone
    lists = []
    for l, cs in ls:
        own = [(a, v) for a, v in ats if l in set(TMwalk(a)) and not any(q is not l and q in set(TMwalk(a)) for q, _ in ls)]
        okc = [c for c in cs if all(one(a, v, {l: c}) is not False for a, v in own)]
        if not okc: return None
        lists.append((l, okc))
    shared = [l for l, _ in ls if any(l in set(TMwalk(a)) and any(q is not l and q in set(TMwalk(a)) for q, _ in ls) for a, v in ats)]
    pick = [cs[:60] if l in shared else cs[:8] for l, cs in lists]
    failed = 0
    for k, combo in enumerate(itertools.islice(itertools.product(*pick), 20000)):
        m = {l: c for (l, _), c in zip(lists, combo)}
        if consistent(ats, m):
            if sure(orig(m)): return describe(m)
            failed += 1
            if failed > 3: return None
    return None
EXT = ('res', 'elapsed', 'pending', 'fut', 'native_certs', 'tls.server_name')
def abstract(ats):
    """the outcomes of events, as values of their own"""
    m = {}
    def top(x, seen):
        if x in seen: return
        seen.add(x)
        if x.op in ('app', 'pred') and x.a[0] in EXT or x.op == 'sfindp' and any(y.op == 'app' and y.a[0] in EXT for y in TMwalk(x)): m.setdefault(x, sym('ext%d' % len(m))); return
        for c in children(x): top(c, seen)
    seen = set()
    for a, v in ats: top(a, seen)
    return [(subst(a, m), v) for a, v in ats], {s: t for t, s in m.items()}
def cands(consts, nums):
    cs = sorted({c.decode('utf8', 'replace') for c in consts if len(c) < 40})
    lens = sorted({n + d for n in nums if 0 <= n < 2000 for d in (-1, 0, 1)} - {-1})
    out = list(TEXTS)
    for c in cs: out += [c, c + 'a', 'a' + c, c + 'é', 'é' + c, 'a' + c + 'a']
    for n in lens: out += ['a' * n, 'a' + 'é' * n, 'é' * n] + [c + 'a' * n for c in cs[:4]] + [c + 'é' * n for c in cs[:4]] + ['a' * n + c for c in cs[:4]]
    return list(dict.fromkeys(out))
def ncands(t, nums):
    top = NUMS.get(SORT.get(t), U64 * 10**9 - 1)
    out = [0, 1, 2, 3, 5, 1000, top, top - 1, 2**32 - 1, 2**32, 2**31, U64 - 1, 10**9, 60 * 10**9, 3600 * 10**9] + [n + d for n in sorted(nums) for d in (-1, 0, 1)]
    return [c for c in dict.fromkeys(out) if 0 <= c <= top]
def one(a, v, m):
    """does the condition hold: True, False, or None when it says nothing about what was substituted any more"""
    x = witness.unfold(subst(a, m), {})
    if x.op not in ('int',) and x.op == 'ite': x = truth(x)
    if x.op == 'unreach': return False
    if x is ONE or x is ZERO: return (x is ONE) == bool(v)
    return None
def consistent(ats, m):
    rest = []
    for a, v in ats:
        h = one(a, v, m)
        if h is False: return False
        if h is None: rest.append((witness.unfold(subst(a, m), {}), v))
    return free_choice(rest)
def free_choice(rest):
    """what is left must be the choice of a variant of independent values: outcomes of events, presence of optional settings"""
    pos, neg = {}, {}
    for x, v in rest:
        if x.op == 'is' and opaque(x.a[0]):
            if v:
                if pos.setdefault(x.a[0], x.a[1]) != x.a[1]: return False
            else: neg.setdefault(x.a[0], {}).setdefault(x.a[1], x.a[2])
        elif x.op == 'tru' and opaque(x.a[0]) or opaque(x): continue
        else: return False
    for t, vs in neg.items():
        if t in pos:
            if pos[t] in vs: return False
        elif len(vs) >= next(iter(vs.values())): return False
    return True
def opaque(t):
    while t.op == 'fld': t = t.a[0]
    return t.op == 'sym' or t.op == 'app' and t.a[0] in ('res', 'elapsed', 'pending', 'native_certs', 'irc.parse', 'msg.command', 'msg.prefix', 'io.kind', 'tls.server_name') or isleaf(t)
def describe(m):
    out = [f'{show(l, 3)} = {showv(c)}' for l, c in m.items()]
    return ', '.join(out)[:400] or 'any arguments'
def showv(c):
    if c.op == 'str': return repr(c.a[0].decode('utf8', 'replace')[:60]) + (f' ({len(c.a[0])} bytes)' if len(c.a[0]) > 60 else '')
    if c is NONE: return 'absent'
    if c.op == 'adt' and c.a[2]: return showv(c.a[2][0])
    return show(c, 3)
