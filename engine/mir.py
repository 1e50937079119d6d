"""Loads the compiler's intermediate representation written by the driver; control-flow helpers."""
import json, os

class Body:
    def __init__(self, j):
        self.name = j['name']; self.argc = j['argc']; self.spread = j['spread']
        self.locals = j['locals']; self.blocks = j['blocks']; self.span = j['span']; self.names = j.get('names', [])
        self.extra = j
        for b in self.blocks:
            if 'f' not in b:
                b['f'] = b['s']
                if any(x[0] == 'x' for x in b['s']): b['s'] = [x for x in b['s'] if x[0] != 'x']
        self._cfg = {}
    def live(self):
        """locals live at the start of each block (those whose address is taken: everywhere)"""
        if hasattr(self, '_live'): return self._live
        taken = set(); use = []; dfn = []
        def pl(p, acc, write=False):
            if not (write and not p[1]): acc.add(p[0])
            for e in p[1]:
                if e[0] == 'i': acc.add(e[1])
        def op(o, acc):
            if o[0] in ('c', 'm'): pl(o[1], acc)
        def rv(r, acc):
            k = r[0]
            if k in ('ref', 'rawptr'):
                pl(r[2], acc)
                if 'd' not in r[2][1]: taken.add(r[2][0])
            elif k == 'agg':
                for o in r[4]: op(o, acc)
            elif k == 'discr': pl(r[1], acc)
            else:
                for o in r[1:]:
                    if isinstance(o, list) and o and o[0] in ('c', 'm'): op(o, acc)
        for b in self.blocks:
            u, d = set(), set()
            def note(acc, w):
                u.update(acc - d)
                if w is not None: d.add(w)
            for s in b['s']:
                acc = set()
                if s[0] == '=':
                    rv(s[2], acc); pl(s[1], acc, True); note(acc, s[1][0] if not s[1][1] else None)
                elif s[0] == 'sd': pl(s[1], acc); note(acc, None)
                elif s[0] == 'cno':
                    for o in s[1:]: op(o, acc)
                    note(acc, None)
            t = b['t']; acc = set(); w = None
            if t[0] == 'switch': op(t[1], acc)
            elif t[0] == 'call':
                op(t[1], acc)
                for o in t[2]: op(o, acc)
                pl(t[3], acc, True)
                if not t[3][1]: w = t[3][0]
            elif t[0] == 'assert':
                op(t[1], acc)
                for o in t[3][1:]:
                    if isinstance(o, list): op(o, acc)
            elif t[0] == 'return': acc.add(0)
            elif t[0] == 'yield': op(t[1], acc)
            note(acc, w)
            use.append(u); dfn.append(d)
        lv = [set() for _ in self.blocks]
        ch = True
        while ch:
            ch = False
            for b in range(len(self.blocks) - 1, -1, -1):
                out = set()
                for s in self.succ(b): out |= lv[s]
                n = use[b] | (out - dfn[b])
                if n != lv[b]: lv[b] = n; ch = True
        self._live = ([x | taken for x in lv], taken)
        return self._live
    def succ(self, b):
        t = self.blocks[b]['t']; k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[3]] + [t[4]]
        if k == 'drop': return [t[3]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[4]]
        if k == 'yield': return [t[2]]
        return []
    def cfg(self, cut=frozenset()):
        c = self._cfg.get(cut)
        if c is None: c = self._cfg[cut] = Cfg(self, cut)
        return c

class Cfg:
    """reachable graph, postdominators (diverging blocks ignored), natural loops"""
    def __init__(self, body, cut=frozenset()):
        succ = {}
        work = [0]
        while work:
            b = work.pop()
            if b in succ: continue
            s = []
            for x in body.succ(b):
                if (b, x) in cut or x in s: continue
                if body.blocks[x]['t'][0] == 'unreachable' and not body.blocks[x]['s']: continue
                s.append(x)
            succ[b] = s
            work.extend(s)
        EXIT = -1
        for b in succ:
            if body.blocks[b]['t'][0] == 'return': succ[b] = [EXIT]
        succ[EXIT] = []
        # can reach exit
        pred = {b: [] for b in succ}
        for b, ss in succ.items():
            for s in ss: pred[s].append(b)
        live = set(); work = [EXIT]
        while work:
            b = work.pop()
            if b in live: continue
            live.add(b); work.extend(pred[b])
        self.live = live
        if 0 not in live: live = set(succ)      # function never returns normally
        self.succ = {b: [s for s in succ[b] if s in live] for b in succ if b in live}
        self.full = succ
        self.pred = {b: [p for p in pred[b] if p in live] for b in live}
        self.ipdom = self._idom(EXIT, self.pred, self.succ) if EXIT in live else {}
        self.idom = self._idom(0, self.succ, self.pred) if 0 in live else {}
        self.loops = {}
        for b in self.succ:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    self.loops.setdefault(s, set()).update(self._loop(s, b))
    @staticmethod
    def _idom(root, succ, pred):
        order = []; seen = set()
        stack = [(root, iter(succ.get(root, ())))]
        seen.add(root)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(succ.get(s, ())))); break
            else:
                order.append(n); stack.pop()
        num = {n: i for i, n in enumerate(order)}
        idom = {root: root}
        changed = True
        while changed:
            changed = False
            for n in reversed(order):
                if n == root: continue
                new = None
                for p in pred.get(n, ()):
                    if p in idom:
                        if new is None: new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while num[a] < num[b]: a = idom[a]
                                while num[b] < num[a]: b = idom[b]
                            new = a
                if new is not None and idom.get(n) != new: idom[n] = new; changed = True
        return idom
    def dominates(self, a, b):
        while True:
            if a == b: return True
            n = self.idom.get(b)
            if n is None or n == b: return False
            b = n
    def _loop(self, h, t):
        s = {h}; w = [t]
        while w:
            b = w.pop()
            if b in s: continue
            s.add(b); w.extend(self.pred[b])
        return s

class Program:
    def __init__(self, path):
        with open(path) as f: j = json.load(f)
        self.types = j['types']; self.crate = j['crate']
        self.insts = j.get('insts', [])
        self.roots = dict(j.get('roots', []))
        self._b = {}
        self.raw = j
        self.bypath = {}
        for n, i in enumerate(self.insts): self.bypath.setdefault(i['path'], []).append(n)
    def body(self, n):
        b = self._b.get(n)
        if b is None:
            j = self.insts[n]['body']
            b = self._b[n] = Body(j) if j else False
        return b or None
    def ty(self, i): return self.types[i]
    def strip_ref(self, i):
        while self.types[i]['k'] in ('ref', 'ptr'): i = self.types[i]['to']
        return i
    def adt_name(self, i):
        t = self.types[i]
        return t.get('n') if t['k'] == 'adt' else None
