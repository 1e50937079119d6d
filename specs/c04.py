"""C04: unsafe operations stay within bounds."""
import re
from common import *
import irc, scan
DANGER = re.compile(r'unchecked|_mm\d*_(mask_)?(load|store|gather)|::ptr::|zeroed|assume_init|MaybeUninit|from_raw|set_len|static_mut|transmute|write_bytes|copy_nonoverlapping|align_to')
# `async` blocks are lowered to these
LOWERED = re.compile(r'pin::Pin::<.*>::(new_unchecked|get_unchecked_mut|map_unchecked)')
def walk(x):
    yield x
    if isinstance(x, (list, tuple)):
        for y in x: yield from walk(y)
    elif isinstance(x, dict):
        for y in x.values(): yield from walk(y)
def inventory(p):
    """[(instance, operation, place)] of the operations in the crate that only unsafe code can do"""
    out = []
    for n, i in enumerate(p.insts):
        if i['cr'] != 'tmi': continue
        b = p.body(n)
        if not b: continue
        coro = '{closure' in i['path'] and any(x is not None and 'ResumeTy' in str(p.types[x].get('s', '')) or 'Context' in str(p.types[x].get('s', '')) for x in b.locals[:4])
        for blk in b.blocks:
            for s in blk['f']:
                if s[0] == '=' and s[2][0] == 'cast' and 'Transmute' in s[2]:
                    tys = [p.types[x]['s'] for x in s[2][3:] if isinstance(x, int) and x < len(p.types) and p.types[x]]
                    if coro or any('Context' in t or 'ResumeTy' in t for t in tys): continue
                    out.append((n, 'transmute', s[-1] if isinstance(s[-1], str) else blk['sp']))
                for x in walk(s):
                    if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and 'd' in x[1]:
                        t = p.types[b.locals[x[0]]]
                        if t and t['k'] == 'ptr' and x[1][0] == 'd': out.append((n, 'raw pointer read', s[-1] if isinstance(s[-1], str) else blk['sp']))
            t = blk['t']
            if t[0] == 'call':
                for x in walk(t[1]):
                    if isinstance(x, dict) and 'p' in x:
                        nm = x.get('rp') or x['p']
                        if DANGER.search(nm) and not LOWERED.search(nm): out.append((n, nm, blk['sp']))
    return out
def level(ctx):
    """the conversion of a number to an enum"""
    w = 'TryFrom<u8> for tmi::PinnedChatLevel'
    v = run(ctx, 'pinned_level_from_u8')
    if v is None: return set()
    x = v.args[0]
    for k, site, cond, env in v.m.oblig_static:
        if k != 'transmute': continue
        site = place(v, site)
        if truth(restrict(cond, env)) is ONE or truth(cond) is ONE:
            ctx.good(sample=f'{w}: the value converted at {site} is a level in every case'); continue
        bad = []
        for i in range(256):
            e = env
            ok = all(truth(subst(c, {x: num(i)})) is (ONE if b else ZERO) for c, b in facts(env))
            if ok and truth(subst(cond, {x: num(i)})) is ZERO: bad.append(i)
        if bad: ctx.bad('transmute', site, f'{w}: {bad[0]} reaches the conversion and is not a level')
        else: ctx.undecided(site, 'the range of the converted value is not known')
    return {v.m.p.insts[n]['path'] for n in v.m.visited}
def facts(env): return list(env.d.items())
def place(v, site):
    try: return site[0].body.blocks[site[1]]['sp']
    except Exception: return str(site)
def check(ctx):
    ctx.rule('abstract interpretation of the scanners over positions of the line and of the address of its first byte: every vector load, unchecked index, pointer step and read of an uninitialised slot stays inside; '
             'every value converted to an enum is one of its values; every unsafe operation of the crate is one of those analysed')
    ctx.assumes += ['lines shorter than 4 GiB; x86-64 (the NEON code cannot be compiled here)']
    done = level(ctx)
    runs = []
    for cfg in ('scalar', 'full', 'sse2'): runs += scan.tags(ctx, cfg)
    runs += scan.prefix(ctx)
    scan.report(ctx, runs, ('mem',))
    done |= ctx.analysed
    for cfg in ('scalar', 'full', 'sse2'):
        p = ctx.prog(cfg)
        for n, op, sp in sorted(set(inventory(p))):
            path = p.insts[n]['path']
            if path in done: ctx.good(sample=f'{op} at {sp} is covered ({cfg})')
            else: ctx.undecided(sp, f'`{op}` in {path} is not covered by the analysis ({cfg})')
