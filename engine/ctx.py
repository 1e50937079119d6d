"""Bookkeeping of a check: obligations, violations, known findings, evidence."""
import json, os, sys, time, traceback
import build
from term import *
import term as TM
from machine import Unsupported, Summarise
from mir import Program

def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); yield x
        st.extend(children(x))
def unmodelled(t):
    """names of calls in a value that the analysis does not interpret"""
    return sorted({x.a[0] for x in walk(t) if x.op == 'app' and (x.a[0].startswith('call:') or x.a[0].startswith('?'))})

class Ctx:
    def __init__(self, prop, tier='quick', seed=1):
        self.prop = prop; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.obl = 0; self.ok = 0; self.viols = []; self.und = []; self.samples = []
        self.analysed = set(); self.cases = 0; self.rules = []; self.extra = {}
        self._prog = {}; self.level = 'other'; self.assumes = []
    def prog(self, cfg='full', crate='vharness', harness='harness'):
        k = (cfg, crate, harness)
        if k not in self._prog:
            d = build.dump(cfg, harness=harness)
            self._prog[k] = Program(os.path.join(d, crate + '.json'))
        return self._prog[k]
    def rule(self, s): self.rules.append(s)
    def touch(self, m):
        for x in getattr(m, 'visited', ()): self.analysed.add(m.p.insts[x]['path'])
    # one obligation: discharged, violated or undecided
    def good(self, n=1, sample=None):
        self.obl += n; self.ok += n
        if sample and len(self.samples) < 12: self.samples.append(sample)
    def bad(self, key, where, msg):
        self.obl += 1
        self.viols.append({'key': key, 'where': where, 'what': msg})
    def undecided(self, where, why):
        self.obl += 1
        self.und.append({'where': where, 'why': str(why)[:400]})
    def equal(self, key, where, got, want, vocab=(), sample=None, env=None):
        """the value computed by the code equals the specified one in every case"""
        e = TM.Equiv()
        try: d = e.check(got, want, env)
        except RuntimeError as x:
            self.undecided(where, f'{key}: {x}'); return False
        self.cases += e.cases + 1
        if d is None:
            self.good(sample=sample or f'{key}: {show(want, 7)[:300]}'); return True
        bad = [x for x in unmodelled(got) if x not in vocab]
        if bad:
            loc = sorted(set(unmodelled(d.a)) - set(vocab)) if isinstance(d.a, TM.T) else bad
            envbad = [x for a in d.env.d for x in unmodelled(a) if x not in vocab]
            if loc or envbad:
                self.undecided(where, f'{key}: uses {", ".join(sorted(set(loc + envbad)))}, which the analysis does not interpret'); return False
        self.bad(key, where, f'when {show_env(d.env)}: the code gives {show(d.a, 7)[:600]}, expected {show(d.b, 7)[:600]}')
        return False
    # -------- results
    def finish(self):
        known = load_known()
        out, fresh = [], []
        for v in self.viols:
            if any(k['property'] == self.prop and k['key'] == v['key'] for k in known): out.append(v)
            else: fresh.append(v)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': {'explanation': self.explain(), 'rules': self.rules, 'obligations': self.obl, 'discharged': self.ok,
                           'case_splits': self.cases, 'functions_analysed': len(self.analysed),
                           'functions': sorted(self.analysed)[:400], 'undecided': self.und, 'violations': self.viols, 'samples': self.samples, **self.extra},
              'wall_s': round(time.time() - self.t0, 2)}
        if self.assumes: ev['coverage']['assumes'] = self.assumes
        os.makedirs(build.EVID, exist_ok=True)
        with open(os.path.join(build.EVID, self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print(f'{self.prop}: {self.obl} obligations, {self.ok} discharged, {len(self.und)} undecided, {len(self.viols)} violated ({ev["wall_s"]} s)')
        for u in self.und: print(f'  undecided: {u["where"]}: {u["why"]}')
        for v in out: print(f'KNOWN-FINDING: property={self.prop} {v["key"]}: {v["what"][:300]}')
        if fresh:
            rp = os.path.join(build.EVID, self.prop + '.violation.txt')
            with open(rp, 'w') as f:
                for v in fresh: f.write(f'{v["key"]}\n  at {v["where"]}\n  {v["what"]}\n\n')
            for v in fresh[:20]: print(f'  {v["key"]}\n    at {v["where"]}\n    {v["what"]}')
            print(f'VIOLATION property={self.prop} replay={rp}')
            return 1
        return 0
    def explain(self):
        return (f'Static analysis of the current MIR of /repo: {self.obl} obligations over {len(self.analysed)} functions; '
                f'{self.ok} discharged, {len(self.und)} left undecided, {len(self.viols)} violated. Rules: ' + '; '.join(self.rules))

def load_known():
    p = os.path.join(build.VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                j = json.loads(l)
                if j.get('status') == 'known': out.append(j)
    return out
