"""The line parser as a whole and the accessors of its result, over positions of an arbitrary line (panics only).

The tag scanner is its contract (decided by C03: pairs in order inside the line, position after the space) when states are
joined; when paths are followed one by one its own code is."""
import scan
from scan import *
import aimodels
DEBUG = 0
ACC = ('raw', 'tags', 'prefix', 'command', 'channel', 'params', 'tag', 'tag_str', 'text')
class LineSpec(Spec):
    """mode of the tag scanner: 'contract', 'absent' (lines without @) or 'code'"""
    def __init__(self, prog, tags='contract', prefix=True, args=None, own=False):
        super().__init__(prog); self.mode = tags; self.args = args; self.found = []; self.hooks = {}
        import irc
        self.pairs = TagSpec(prog)
        self.tagfns = irc.scanner(prog, 'RawTags', r'^tmi::irc::tags::(\w+::)?parse$')
        if tags != 'code':
            for p in self.tagfns: self.hooks[p] = self.tag_contract
        if not prefix:
            for p in irc.scanner(prog, 'RawPrefix', r'^tmi::irc::prefix::parse$'): self.hooks[p] = self.no_prefix
        self.prefix = prefix
    def entry(self):
        if self.args is not None: return self.args
        st = start(); st.ghost = {'vals': ()}
        if self.mode == 'absent': st.learn('s', Z, None, frozenset((64,)))
        return st, [('slice', 's', Z, sym('s.len'), 'str')]
    def ret_ty(self, ai, c): return ai.ty(c.rty)
    def no_prefix(self, ai, st, c):
        p = aimodels.peel(ai, st, c.args[1])
        if not isinstance(p, Lin): raise Stuck('position')
        out = []
        for s, e in ai.cmp(st, 'Lt', p, sym('s.len')):
            if e: s.learn('s', p, None, frozenset((58,)))
            if not s.dead: out.append((s, NONE))
        return out
    def tag_contract(self, ai, st, c):
        t = ai.ty(c.rty); raw = ai.ty(t['a'][0] if isinstance(t['a'][0], int) else t['a'][0][1])
        r = c.args[1]
        out = [(st, NONE)]
        if self.mode == 'absent': return out
        s = st.copy(); L = sym('s.len')
        e = s.fresh('tend', 2); s.le(e, L); s.learn('s', Z, frozenset((64,))); s.learn('s', e - 1, frozenset((32,))); s.bnd = s.bnd | {('s', e)}
        p = aimodels.peel(ai, st, r)
        if not (isinstance(p, Lin) and st.num.same(p, Z)): raise Stuck('tags parsed from another position')
        ai.storeto(s, ('cell', r[1], r[2]), e)
        out.append((s, some(('adt', raw['n'], 0, (('tagbag', e, self.pair_ty(ai, raw)),)))))
        return out
    def pair_ty(self, ai, raw):
        t = raw
        for _ in range(4):
            if t['k'] == 'adt' and t['n'].startswith('std::vec::Vec'): return t['a'][0]
            if t['k'] == 'adt' and t['v']: t = ai.ty(t['v'][0]['f'][0][1])
        raise Stuck('list of pairs')
    def fresh_pair(self, ai, st, v):
        """one of the pairs of the list, by the contract of the scanner: [(state, pair)]"""
        val = self.blank(ai, st, v[2])
        self.pairs.spans(val)
        names, alts = self.pairs.pair
        m = dict(zip(names, flat(val)))
        out = []
        for a, sp in alts:
            s = st.copy()
            for x, row in a.num.d.items():
                for y, k in row.items():
                    if x != y and all(q in m or q in ('', 's.len') for q in (x, y)):
                        ex = lambda q: m[q] if q in m else sym(q) if q else Z
                        s.le(ex(x) - ex(y), lit(int(k)))
            kb, ke, vb, ve = [x.sub(m) for x in sp]
            s.le(Lin(1), kb); s.le(kb, ke); s.le(ke + 1, vb); s.le(vb, ve); s.lt(ve, v[1])
            s.learn('s', ke, frozenset((61,)))
            s.bnd = s.bnd | {('s', kb), ('s', ke), ('s', vb), ('s', ve)}
            s.exact = False
            s.sat()
            if not s.dead: out.append((s, val))
        return out
    def blank(self, ai, st, ty):
        t = ai.ty(ty)
        if t['k'] in ('uint', 'int'):
            lo, hi = ai.limits(ty); return st.fresh('pair', lo, hi)
        if t['k'] == 'adt' and len(t['v']) == 1: return ('adt', t['n'], 0, tuple(self.blank(ai, st, f[1]) for f in t['v'][0]['f']))
        raise Stuck('pair of ' + t['s'])
    def produced(self, ai, st, val, site):
        if ai.mode == 'join': raise Stuck('pair produced')
        st.ghost['vals'] = st.ghost['vals'] + (val,)
        return Lin(len(st.ghost['vals']) - 1)
    def pushed(self, ai, st, w, item, site):
        if w[1] == (): return [(st, item)]
        return [(st, ('ostr', ()))]
    def returned(self, ai, st, v):
        if ai.mode == 'join' and not ai.final: return
        if isadt(v) and v[1] == OPT and v[2] == 1: self.found.append((st, v[3][0]))
    def keeps(self, s): return s.startswith('s.') or s.startswith('tend')
def entries(prog, name, found):
    """states in which an accessor runs on the messages found"""
    n = root(prog, name); b = prog.body(n)
    out = []
    for st, m in found:
        st = st.copy(); st.frames = (); st.trail = ()
        keep = {c: v for c, v in st.store.items() if c[0] in (('heap',),)}
        st.store = keep
        ref = prog.types[b.locals[1]]['k'] == 'ref'
        cell = (('arg',), 'msg'); 
        if ref: st.store[cell] = m
        args = [('ref', cell, ()) if ref else m]
        if b.argc == 2:
            t = prog.types[prog.strip_ref(b.locals[2])]
            if t['s'] == 'str': alts = [('text', b'id')]
            else:
                vs = [i for i, x in enumerate(t['v']) if not x['f']]
                un = [i for i, x in enumerate(t['v']) if x['f']]
                alts = [('adt', t['n'], vs[0], ())] + [('adt', t['n'], i, (('text', b'some-tag'),)) for i in un[:1]]
            for a in alts: out.append((st.copy(), args + [a]))
        else: out.append((st, args))
    return out
def lins(v, out):
    if isinstance(v, Lin): out.append(v)
    elif isinstance(v, tuple):
        for x in v: lins(x, out)
    return out
def swap(v, f):
    if isinstance(v, Lin): return f(v)
    return tuple(swap(x, f) for x in v) if isinstance(v, tuple) else v
def opaque_enum(v, prog):
    """the message with its large enumerations left open"""
    if isadt(v):
        if v[1] in big(prog): return ('opaque', v[1])
        return v[:3] + (tuple(opaque_enum(x, prog) for x in v[3]),)
    return v
def big(prog):
    if not hasattr(prog, '_big'):
        prog._big = {t['n'] for t in prog.types if t['k'] == 'adt' and len(t.get('v') or ()) > 8 and t['n'].startswith('tmi::')}
    return prog._big
def weaken(st, m):
    """a weaker state with the order of the positions in m only: (key, state, message)"""
    es = []
    for e in lins(m, []):
        if e.t and e not in es: es.append(e)
    L = sym('s.len')
    es = [e for e in es if e != L]
    names = {e: f'q{i}' for i, e in enumerate(es)}
    names[L] = 's.len'
    r = start(); r.exact = False; key = []
    allp = [(e, sym(n)) for e, n in names.items()] + [(Z, Z)]
    for e in es: r.num.new(names[e], 0, None)
    for a, x in allp:
        for b, y in allp:
            if a is b: continue
            for k in (2, 1, 0):
                if st.num.isle(a + k, b):
                    r.le(x + k, y); key.append((str(x), str(y), k)); break
    for e, x in allp:
        if e.t and st.boundary('s', e): r.bnd = r.bnd | {('s', x)}; key.append(str(x))
    r.bnd = r.bnd | {(b, y) for b, y in st.bnd if b == 's' and not y.t}
    for e in lins(m, []):
        if not e.t and e.c and st.boundary('s', e): r.bnd = r.bnd | {('s', e)}; key.append(str(e))
    m2 = swap(m, lambda e: sym(names[e]) if e in names else e)
    return (m2, tuple(key)), r, m2
def entries_weak(prog, spec, open_):
    memo = spec.__dict__.setdefault('memo', {})
    if open_ in memo: return memo[open_]
    seen = {}
    for st, m in spec.found:
        if open_: m = opaque_enum(m, prog)
        k, s, m2 = weaken(st, m)
        if k not in seen: seen[k] = (s, m2)
    memo[open_] = list(seen.values())
    return memo[open_]
class AccSpec(LineSpec):
    def __init__(self, prog, ents, mode): super().__init__(prog, mode); self.ents = ents
    def entries(self): return [(s.copy(), a) for s, a in self.ents]
    def returned(self, ai, st, v): pass
def roots_of(prog, own):
    k = 'own' if own else 'ref'
    return [f'h_{k}_{a}' for a in ACC if f'h_{k}_{a}' in prog.roots] + ([] if own else [f for f in ('h_ref_into_owned', 'h_ref_clone') if f in prog.roots]) + (['h_own_as_ref'] if own and 'h_own_as_ref' in prog.roots else [])
def collect(o, a):
    for k, (ok, s, text, n) in a.obl.items():
        if a.mode == 'join':
            if ok: o.proved[k] = o.proved.get(k, 0) + n
            else: o.unproved[k] = (text, s)
        elif not ok: o.definite[k] = (text, s)
    o.visited |= a.visited; o.steps += a.steps
def drive(prog, own, mode, ai_mode, tags, prefix, seconds, rounds=3, o=None):
    o = o or Outcome(); o.plans = {}
    t0 = time.time()
    try:
        spec = LineSpec(prog, tags, prefix)
        a = AI(prog, spec, mode=ai_mode, rounds=rounds, limit=400000, seconds=seconds)
        try: a.run(root(prog, 'h_own_parse' if own else 'h_ref_parse'), spec.entry()[1], spec.entry()[0])
        except Stuck as e:
            o.note.append('parse: ' + str(e))
            if ai_mode == 'join': o.stuck = 'parse: ' + str(e)
        collect(o, a)
        o.count = len(spec.found)
        for r in roots_of(prog, own):
            plans = [('orders', lambda: entries_weak(prog, spec, True)), ('orders of all commands', lambda: entries_weak(prog, spec, False)), ('all', lambda: spec.found)]
            if ai_mode != 'join': plans = plans[2:]
            for what, mk in plans:
                ent = entries(prog, r, mk())
                s2 = AccSpec(prog, ent, tags); t = Outcome(); stuck = None
                for st, args in s2.entries():
                    if time.time() - t0 > seconds: stuck = 'time'; break
                    b = AI(prog, s2, mode=ai_mode, rounds=rounds, limit=20000, seconds=10)
                    try: b.run(root(prog, r), args, st)
                    except Stuck as e: stuck = r + ': ' + str(e)
                    collect(t, b)
                    if ai_mode == 'join' and what != 'all' and (stuck or t.unproved):
                        if DEBUG: print(r, what, stuck, list(t.unproved)[:1], args, st.bnd)
                        break
                    if stuck: break
                if what == 'all' or not (stuck or t.unproved): break
                if stuck == 'time': break
            o.plans[r] = (what, len(ent))
            if stuck:
                o.note.append(stuck)
                if ai_mode == 'join': o.stuck = stuck
            for k, n in t.proved.items(): o.proved[k] = o.proved.get(k, 0) + n
            o.unproved.update(t.unproved); o.definite.update(t.definite); o.visited |= t.visited; o.steps += t.steps
    except Stuck as e:
        o.stuck = str(e)
    for k in o.unproved: o.proved.pop(k, None)
    return o

def lines(ctx):
    """[(label, outcome)] of the whole line parser with its accessors, borrowed and owned"""
    p = ctx.prog('scalar'); out = []
    for own in (False, True):
        def f(own=own):
            o = drive(p, own, None, 'join', 'contract', True, 150)
            if o.unproved or o.stuck or any(t.unproved or t.stuck for _, t in scan.tags(ctx, 'scalar')):
                t0 = time.time()
                for tags, prefix in (('absent', True), ('code', False)):
                    if scan.SPENT[0] > 240: break
                    u = drive(p, own, None, 'unroll', tags, prefix, 60)
                    o.definite.update(u.definite); o.visited |= u.visited; o.steps += u.steps
                    if u.note: o.note += u.note
                scan.SPENT[0] += time.time() - t0
            return o
        out.append((('IrcMessage' if own else 'IrcMessageRef') + ' and its accessors (scalar)', memo(('line', own), f)))
    return out
