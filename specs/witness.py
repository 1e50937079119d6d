"""Is a path condition met by some message?  Candidate texts for the leaves (tags, params, text ...) are taken from the constants of the condition;
a candidate counts when the analysis, repeated with those leaves known, reaches the same place under conditions that all hold."""
import time, itertools, machine
from common import *
import term as TM
SPENT = [0.0]
LEAF = ('tag', 'msg.channel', 'msg.params', 'msg.text')
INTS = ('0', '1', '2', '-1', '9', '11', '255', '256', '65536', '4294967296', '9223372036854775807', '18446744073709551615', '-9223372036854775808', '8300000000000000', '307445734561825861', '153722867280912931')
def isleaf(t): return t.op == 'app' and t.a[0] in LEAF and (t.a[0] != 'tag' or t.a[1][1].op == 'str')
def walk(t, seen, f):
    if t in seen: return
    seen.add(t); f(t)
    for c in children(t): walk(c, seen, f)
def leaves(ts):
    out = []; consts = set(); nums = set(); seen = set()
    def f(t):
        if isleaf(t):
            if t not in out: out.append(t)
        elif t.op == 'str' : consts.add(t.a[0])
        elif t.op in ('le', 'ieq') and isinstance(t.a[1], int): nums.add(t.a[1])
        elif t.op == 'int': nums.add(t.a[0])
        elif t.op == 'lin': nums.update({abs(t.a[0])})
    for t in ts: walk(t, seen, f)
    return out, consts, nums
def candidates(leaf, consts, nums):
    cs = sorted({c.decode('utf8', 'replace') for c in consts if len(c) < 40})
    if leaf.a[0] == 'tag':
        k = leaf.a[1][1].a[0].decode('utf8', 'replace'); cs = [c for c in cs if c != k and not c.endswith('-id')]
    small = sorted({n + d for n in nums if 0 <= n < 70 for d in (-1, 0, 1)} - {-1} | {0, 1, 2})
    base = ['', 'x', 'é'] + list(INTS) + [str(n + d) for n in sorted(nums) for d in (0, 1)]
    base += ['a' * n for n in small] + ['a' + 'é' * n for n in small] + ['é' * n for n in small]
    seps = [c for c in cs if 0 < len(c) <= 2]
    words = [c for c in cs if c][:24]
    base += words
    for w in words: base += [w + 'x', 'x' + w, w + 'é', 'é' + w, w + w, 'x' + w + 'x', w + '1', w + '/', w + '/0', w + '/1', w + '/2', w + '0', 'é' + w + 'é', w + 'xé']
    for w in words[:10]:
        for q in words[:10]: base += [w + q, w + 'x' + q, 'x' + w + 'x' + q + 'x', w + 'é' + q]
    if leaf.a[0] == 'msg.channel': base = ['#' + b for b in ['x'] + base if ' ' not in b]
    if leaf.a[0] == 'tag': base = [b for b in base if ' ' not in b and ';' not in b]
    return [b for b in dict.fromkeys(base) if leaf.a[0] != 'msg.channel' or '\0' not in b][:700]
def pieces(t):
    """elements of a constant stream"""
    if t.op == 'app' and t.a[0] == 'split' and all(x.op == 'str' for x in t.a[1]):
        s, p = t.a[1][0].a[0], t.a[1][1].a[0]
        return [st(x) for x in s.split(p)] if p else None
    if t.op == 'list' and all(p.op == 'one' for p in t.a[0]): return [p.a[0] for p in t.a[0]]
    return None
def unfold(t, memo):
    """evaluates searches over constant streams"""
    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == 'sfindp':
                S = go(x.a[0]); ps = pieces(S)
                if ps is not None:
                    r = NONE
                    e = mk('elem', x.a[0], x.a[1])
                    for p in reversed(ps):
                        r = ite(truth(go(subst(x.a[2], {e: p}))), some(p), r)
                    memo[x] = r; return r
            r = memo[x] = TM.remake(x, go)
        return r
    return go(t)
def holds(atoms, m):
    """do all (atom, value) hold after the substitution: True, False or None when open"""
    memo = {}; opn = []
    rest = []
    for a, v in atoms:
        if a.op == 'more':
            ps = pieces(subst(a.a[0], m, memo))
            x = a if ps is None else ONE if ps else ZERO
            if a in m: x = m[a]
        else: x = unfold(subst(a, m, memo), {})
        if x.op == 'unreach': return False
        if x is ONE or x is ZERO:
            if (x is ONE) != bool(v): return False
        else: rest.append((x, v))
    if not rest: return True
    # bound elements of constant streams
    es = set()
    for x, v in rest:
        def f(t):
            if t.op in ('elem', 'more') and isinstance(t.a[1], int): es.add((t.a[0], t.a[1]))
        walk(x, set(), f)
    es = [e for e in es if pieces(e[0]) is not None]
    if not es: return None
    es.sort(key=lambda e: e[0].id)
    S, lvl = es[0]
    res = False
    for p in pieces(S)[:6]:
        r = holds(rest, {mk('elem', S, lvl): p, mk('more', S, lvl): ONE})
        if r: return True
        if r is None: res = None
    return res
def atoms_of(ob):
    env, kind, path, span, detail, stack = ob
    out = [(a, v) for a, v in env.d.items()]
    if kind == 'slice':
        why, s, a, b = detail
        bad = ite(le(a, b), ite(le(b, length(s)), ite(app('atchar', s, a), ite(app('atchar', s, b), ZERO, ONE), ONE), ONE), ONE)
        out.append((truth(bad), 1))
    return out
def _atchar(s, i):
    if s.op == 'str' and i.op == 'int':
        b, n = s.a[0], i.a[0]
        return ONE if 0 <= n <= len(b) and (n == len(b) or (b[n] & 0xC0) != 0x80) else ZERO
    return mk('app', 'atchar', (s, i))
TM.REAPP['atchar'] = _atchar
def instant(x):
    """is a constant time in the range of the calendar library"""
    if x.op == 'app' and x.a[0].startswith('call:chrono::TimeZone::timestamp_') and x.a[1][-1].op == 'int':
        n = x.a[1][-1].a[0]; k = {'millis_opt': 1, 'opt': 1000}.get(x.a[0].split('timestamp_')[1])
        if k: return -8334601228800000 <= n * k <= 8210266876799999
    return None
def _single(x):
    ok = instant(x)
    return mk('app', SINGLE, (x,)) if ok is None else some(mk('app', 'instant', (x,))) if ok else NONE
SINGLE = 'call:chrono::offset::LocalResult::<T>::single'
TM.REAPP[SINGLE] = _single
TM.REAPP['call:chrono::LocalResult::<T>::single'] = _single
def _unwrap(S, c):
    """the calendar library's own unwrap"""
    m = c.m; x = m.deep(c.st, c.args[0]); o = app(SINGLE, x); good = isSome(o)
    e = machine.assume(c.st.env, good, False) if good.op != 'int' else (None if good is ONE else c.st.env)
    if e is not None: m.panic_at(c.fr, type(c.st)(c.st.store, e), c.b, 'panic', ('unwrap of a time that is out of range', x))
    return fld(o, 1, 0)
CHRONO = {f'chrono::{q}{t}::<T>::{f}': _unwrap for q in ('', 'offset::') for t in ('LocalResult', 'MappedLocalTime') for f in ('unwrap', 'expect')}
HOOKS = dict(HK, **CHRONO)
def facts_of(ob, pre=()):
    ats = []
    for a, v in list(pre) + atoms_of(ob):
        if a.op == 'ite' or a.op == 'int': ats.append((a, v))
        else: ats.append((a, v))
    return ats
def find(ctx, root, ob, pre=(), given=None, replay=True):
    if SPENT[0] > 200: return None
    t0 = time.time()
    try: return search(ctx, root, ob, list(pre), given, t0)
    finally: SPENT[0] += time.time() - t0
def search(ctx, root, ob, pre, given, t0):
    ats = facts_of(ob, pre)
    if given: ats = [(subst(a, given), v) for a, v in ats]
    ls, consts, nums = leaves([a for a, _ in ats])
    m = {}; needs = {}
    free = []
    for a, v in ats:
        got = leaves([a])[0]
        if len(got) == 1 and a.op == 'is' and a.a[0] is got[0] and not v: m[got[0]] = NONE
    ls = [l for l in ls if l not in m]
    per = {l: [(a, v) for a, v in ats if leaves([a])[0] == [l]] for l in ls}
    multi = [(a, v) for a, v in ats if len(leaves([a])[0]) > 1]
    def local(l):
        """texts for this leaf that meet the conditions on it alone"""
        own, c2, n2 = leaves([a for a, _ in per[l]])
        c3, n3 = (consts, nums) if multi and any(l in leaves([a])[0] for a, _ in multi) else (c2, n2)
        for t in candidates(l, c3, n3):
            if time.time() - t0 > 25: return
            h = holds(per[l], {l: some(st(t))})
            if h: yield t
            elif h is None and all(l in leaves([a])[0] for a, _ in per[l]): yield t
    lists = []
    order = sorted(ls, key=lambda l: not any(l in leaves([a])[0] for a, _ in multi))
    tied = [l for l in order if any(l in leaves([a])[0] for a, _ in multi)]
    for l in ls:
        lists.append(list(itertools.islice(local(l), 700 if l in tied else 3)))
        if not lists[-1]: return None
    tl = [lists[ls.index(l)] for l in tied]
    tries = 0
    for combo in itertools.product(*tl):
        tries += 1
        if tries > 4000 or time.time() - t0 > 40: return None
        mm = dict(m)
        for l in ls:
            if l not in tied: mm[l] = some(st(lists[ls.index(l)][0]))
        for l, t in zip(tied, combo): mm[l] = some(st(t))
        mm.update(consistent(mm))
        h = holds([x for x in ats if any(y in mm for y in leaves([x[0]])[0])], mm)
        if h is False: continue
        r = confirm(ctx, root, ob, mm, pre, given, ats)
        if r: return describe(mm, ats)
    return None
def consistent(m):
    """text is the part of the params after the colon"""
    for l in list(m):
        if l.a[0] == 'msg.text' and m[l] is not NONE:
            p = mk('app', 'msg.params', l.a[1])
            if p not in m: return {p: some(st(b':' + m[l].a[2][0].a[0]))}
            if m[p] is not NONE: 
                s = m[p].a[2][0].a[0]
                return {l: some(st(s.split(b':', 1)[1] if b':' in s else s))}
    return {}
def confirm(ctx, root, ob, m, pre, given, ats):
    """the analysis with the leaves known reaches the place of the obligation under conditions that hold"""
    def wrap(f): 
        def g(S, c):
            r = f(S, c)
            if isinstance(r, TM.T): return subst(r, m)
            return (subst(r[0], m),) + tuple(r[1:]) if isinstance(r, tuple) and isinstance(r[0], TM.T) else r
        return g
    hooks = {k: (wrap(f) if 'IrcMessage' in k else f) for k, f in HOOKS.items()}
    if given: # a getter or a conversion of a parsed value: its argument is known
        args = [subst(x, m) for x in given.values()]
    else: args = None
    p = ctx.prog('full')
    try: r = roots.run(p, root, hooks=hooks, args=args)
    except VIOL_UNSUP: return False
    cmds = [(a, v) for a, v in ats if not leaves([a])[0]]
    pos = [a for a, v in cmds if v and a.op == 'is']
    for o in r.m.oblig:
        if (o[1], o[2], o[3]) != (ob[1], ob[2], ob[3]): continue
        rest = []
        for a, v in facts_of(o):
            x = unfold(a, {})
            if x.op == 'unreach': break
            if x is ONE or x is ZERO:
                if (x is ONE) != bool(v): break
                continue
            rest.append((x, v))
        else:
            if decide(rest): return True
    return False
def decide(rest):
    """can the conditions that are left be chosen freely: which variant an opaque value has, at most one per value"""
    pos = {}
    other = []
    for x, v in rest:
        if x.op == 'is' and free(x.a[0]):
            if v:
                if pos.setdefault(x.a[0], x.a[1]) != x.a[1]: return False
        else: other.append((x, v))
    for x, v in rest:
        if x.op == 'is' and free(x.a[0]) and not v and pos.get(x.a[0]) == x.a[1]: return False
    neg = {}
    for x, v in rest:
        if x.op == 'is' and free(x.a[0]) and not v and x.a[0] not in pos: neg.setdefault(x.a[0], set()).add(x.a[1])
    for x, v in rest:
        if x.op == 'is' and x.a[0] in neg and len(neg[x.a[0]]) >= x.a[2]: return False
    return holds(other, {}) is True if other else True
def free(t):
    if isleaf(t): return True
    if t.op == 'app' and t.a[0] in ('msg.command', 'msg.prefix'): return True
    return t.op == 'fld' and t.a[0].op == 'fld' and t.a[0].a[0].op == 'app' and t.a[0].a[0].a[0] == 'msg.prefix'
def describe(m, ats):
    out = []
    for l, v in m.items():
        nm = l.a[1][1].a[0].decode() if l.a[0] == 'tag' else l.a[0][4:]
        out.append(f'{nm} absent' if v is NONE else f'{nm} = {v.a[2][0].a[0].decode("utf8", "replace")!r}'[:90])
    for a, v in ats:
        if v and a.op == 'is' and a.a[0].op == 'app' and a.a[0].a[0] == 'msg.command': out.insert(0, f'command #{a.a[1]}')
    return 'a message with ' + ', '.join(out)
