"""C23: parsing and every accessor are pure: an effect analysis over the call graph of the type-checked program.
Every function reachable from the parsing and accessor roots is visited; no body may refer to a static that can change, a thread-local,
or reach a source of effects; and no type handed out may have interior mutability behind it."""
import re
from common import *
from mir import Body
CFGS = ('full', 'sse2', 'scalar')
# sources of effects: (pattern on the path, what it is)
DENY = [(re.compile(p), w) for p, w in [
 (r'^std::env::', 'the environment'), (r'^std::time::(Instant|SystemTime)', 'the clock'), (r'::(now|today)(_utc)?$', 'the clock'), (r'\bchrono::(offset::)?Local\b', 'the time zone of the machine'),
 (r'^std::thread::', 'the current thread'), (r'\bLocalKey\b', 'a thread-local'), (r'thread_local', 'a thread-local'),
 (r'^std::sync::(poison::|nonpoison::|mpsc::|mpmc::|reentrant_lock::|barrier::|once|lazy_lock|mutex|rwlock|condvar)?.*(Mutex|RwLock|Condvar|Once|OnceLock|LazyLock|Barrier|ReentrantLock|mpsc|mpmc)', 'locking'),
 (r'^std::(fs|net|process|os)::', 'the operating system'),
 (r'^std::io::(stdio|Stdin|Stdout|Stderr|stdin|stdout|stderr|_print|_eprint|print|eprint|Read\b|Write\b|copy|util)', 'I/O'), (r'_e?print$', 'I/O'),
 (r'^(rand|fastrand|getrandom|rand_core|rand_chacha)::', 'random numbers'),
 (r'^(tracing|tracing_core|log)::', 'logging'), (r'^(tokio|mio|socket2|tokio_rustls)::', 'the runtime'),
 (r'_(rdtsc|rdtscp|rdrand\w*|rdseed\w*)$', 'the clock or random numbers'),
 (r'::fmt::Pointer.*::fmt$', 'the address of a value'),
 (r'^(once_cell|lazy_static|parking_lot)::', 'global state'),
]]
OKCRATES = {'tmi', 'core', 'alloc', 'smallvec', 'chrono', 'hashbrown'}
# a randomly seeded table is harmless as long as nothing sees its order or the hashes
SEED = re.compile(r'\bRandomState\b|::hash::random::'); ORDER = re.compile(r'\bhash_(map|set)::(Iter|IterMut|IntoIter|Keys|IntoKeys|Values|ValuesMut|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b|\bHash(Map|Set)::<[^>]*>::(iter|iter_mut|keys|values|into_keys|into_values|values_mut|drain|retain|extract_if|union|intersection|difference)$|<std::collections::Hash(Map|Set)<.*as std::(fmt::Debug|iter::IntoIterator)>|<std::collections::hash_(map|set)')
def denied(path):
    for r, w in DENY:
        if r.search(path): return w
def calls(b, dead_ok=True):
    """functions a body refers to: called, or made into a pointer"""
    out = {}
    def walk(o):
        if isinstance(o, dict):
            if 'p' in o and 'kind' in o: out[(o['p'], o.get('rp'), o.get('i'))] = o
            for x in o.values(): walk(x)
        elif isinstance(o, list):
            if len(o) == 2 and o[0] == 'fnptr' and isinstance(o[1], int): out[(None, None, o[1])] = {'i': o[1]}
            for x in o: walk(x)
    for bl in b.blocks:
        if bl.get('c'): continue
        walk(bl['s']); walk(bl['t'])
    return out.values()
def asm(b): return any(bl['t'][0] == 'asm' for bl in b.blocks)
def state_of(st):
    """what is wrong with referring to these statics"""
    for path, mut, freeze, tls in st:
        if path.startswith(('std_detect::', 'std::std_detect', 'core::unicode')): continue
        if tls: yield f'the thread-local {path}'
        elif mut: yield f'the mutable static {path}'
        elif not freeze: yield f'the static {path}, which has interior mutability'
def reach(ctx, prog, cfg, skip):
    seen = {}; work = []
    for n, i in prog.roots.items():
        if n not in skip: seen[i] = None; work.append(i)
    ctx.extra.setdefault('roots', {})[cfg] = len(work)
    def chain(i):
        out = []
        while i is not None: out.append(prog.insts[i]['path']); i = seen[i]
        return ' < '.join(x for x in out[:6])
    nb = 0; seeds = []; orders = []
    while work:
        i = work.pop()
        I = prog.insts[i]; path = I['path']
        if ORDER.search(path): orders.append(i)
        if SEED.search(path):
            seeds.append(i)
            if seen[i] is not None and prog.insts[seen[i]]['cr'] == 'tmi': ctx.bad(path, chain(i), f'a random seed is used while parsing or by an accessor: {path}')
            continue
        w = denied(path)
        if w:
            ctx.bad(f'{path}', chain(i), f'{w} can be reached while parsing or from an accessor: {path}'); continue
        b = prog.body(i)
        if b is None:
            if I['cr'] in OKCRATES or I['kind'] in ('intrinsic',) or I['kind'].startswith('shim'): ctx.good(1); continue
            if any(f in path for f in ('panic', 'std::rt::begin', '::abort')): continue
            ctx.undecided(chain(i), f'{path} (crate {I["cr"]}) has no body to look at and is not known to be free of effects'); continue
        nb += 1; ctx.analysed.add(path)
        n = 0
        for w in state_of(b.extra.get('st', ())):
            n += 1; ctx.bad(f'{path}: {w}', chain(i), f'{w}, can be reached while parsing or from an accessor')
        if asm(b) and I['cr'] == 'tmi': n += 1; ctx.undecided(chain(i), 'inline assembly')
        if not n: ctx.good(1, f'{cfg}: {path}: no global state, no source of effects')
        for c in calls(b):
            j = c.get('i')
            if j is None: continue
            if j not in seen: seen[j] = i; work.append(j)
    for i in orders if seeds else ():
        ctx.bad(prog.insts[i]['path'], chain(i), 'the order of a randomly seeded table can be seen')
    return seen
def cells(prog, t, memo):
    """the first path of fields from a type to a cell"""
    if t in memo: return memo[t]
    memo[t] = None
    ty = prog.types[t]
    if ty['k'] == 'adt' and ty['n'].endswith('cell::UnsafeCell'): memo[t] = ty['n']; return memo[t]
    k = ty['k']
    subs = [f[1] for v in ty['v'] for f in v['f']] if k == 'adt' else [ty['to']] if k in ('ref', 'ptr') else ty['e'] if k == 'tuple' else [ty['e']] if k in ('array', 'slice') else ty.get('u', ())
    for s in subs:
        r = cells(prog, s, memo)
        if r: memo[t] = f'{ty["s"]} > {r}'; return memo[t]
    return None
def poly(ctx):
    """every body of the parser's and the messages' modules, called from the harness or not"""
    prog = ctx.prog('full', 'tmi')
    n = 0
    for j in prog.raw['bodies']:
        f = j['span'].split(':')[0]
        if not re.search(r'src/(irc|msg)(\.rs|/)|src/lib\.rs', f): continue
        b = Body(j); n += 1
        k = 0
        for w in state_of(b.extra.get('st', ())): k += 1; ctx.bad(f'{b.name}: {w}', f'{b.name} ({b.span})', f'refers to {w}')
        for c in calls(b):
            for p in (c.get('p'), c.get('rp')):
                w = denied(p) if p else None
                if w: k += 1; ctx.bad(f'{b.name}: {p}', f'{b.name} ({b.span})', f'{w}: {p}'); break
        if not k: ctx.good(1)
    ctx.extra['bodies of the modules'] = n
    if n < 50: ctx.bad('anchor', 'src', 'the bodies of the parser modules were not found')
def check(ctx):
    ctx.rule('effect analysis: no function reachable from a parsing or accessor root refers to a mutable or interior-mutable static or a thread-local, or calls a source of effects; no type they hand out contains a cell')
    for cfg in CFGS:
        prog = ctx.prog(cfg, 'vharness')
        skip = {n for n, i in prog.roots.items() if prog.insts[i]['path'].startswith('client::')}
        seen = reach(ctx, prog, cfg, skip)
        memo = {}
        tys = set()
        for n, i in prog.roots.items():
            if n in skip: continue
            b = prog.body(i)
            for t in b.locals[:b.argc + 1]: tys.add(t)
        for t in sorted(tys):
            r = cells(prog, t, memo)
            name = prog.types[t]['s']
            if r: ctx.bad(f'type {name}', name, f'interior mutability behind a value of the parser: {r}')
            else: ctx.good(1)
        ctx.extra.setdefault('types', {})[cfg] = len(tys)
        ctx.extra.setdefault('functions', {})[cfg] = len(seen)
    poly(ctx)
    ctx.assumes += ['functions of core, alloc, smallvec and chrono without a body in the dump (formatting, panics, search tables, time conversion) have no effects', 'std_detect\'s cache of processor features is not counted as state']
