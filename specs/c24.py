"""C24: every feature combination type-checks with exactly the promised parts, and the types keep their thread-safety.
The deciding step is the compiler's own type checker, run over the witnesses of harness-feat once per combination."""
import itertools, json, os, re, shutil, subprocess, tomllib
import build
KNOWN = ['message-types', 'simd', 'client', 'serde']
FLAGS = {'sse2': build.SSE2, 'avx2': build.AVX2}
def crate():
    h = os.path.join(build.VERIF, 'harness-feat')
    if build.REPO != '/repo':
        c = os.path.join(build.CACHE, 'harness-feat'); shutil.rmtree(c, ignore_errors=True); shutil.copytree(h, c, ignore=shutil.ignore_patterns('target')); h = c
        t = open(h + '/Cargo.toml').read(); open(h + '/Cargo.toml', 'w').write(t.replace('"/repo"', '"%s"' % build.REPO))
    return h
def witnesses(path):
    """line ranges of the witness functions, with the cfg conditions of their module"""
    out = []
    for n, l in enumerate(open(path).read().splitlines(), 1):
        for m in re.finditer(r'\b(witness__\w+)', l): out.append((n, m.group(1)))
    return out
def typecheck(h, feats, cpu):
    e = build.env(RUSTFLAGS=FLAGS[cpu] + ' --cap-lints allow', CARGO_TARGET_DIR=os.path.join(build.CACHE, 'tgt-feat-' + cpu))
    own = [f for f in feats if f in KNOWN]; other = ['tmi/' + f for f in feats if f not in KNOWN]
    p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--locked', '--message-format=json', '--features', ','.join(own + other)], env=e, cwd=h, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs, done, log = [], set(), p.stderr
    for l in p.stdout.splitlines():
        if not l.startswith('{'): continue
        j = json.loads(l)
        if j.get('reason') == 'compiler-artifact': done.add(j['target']['name'])
        if j.get('reason') == 'compiler-message' and j['message']['level'].startswith('error') and j['message']['spans']:
            ps = [s for s in j['message']['spans'] if s['is_primary']] or j['message']['spans']
            s = ps[0]
            while s.get('expansion') and not os.path.isabs(s['file_name']) and s['file_name'].startswith('<'): s = s['expansion']['span']
            errs.append((j['target']['name'], s['file_name'], s['line_start'], j['message']['message'], j['message'].get('rendered') or ''))
    return p.returncode, errs, done, log
def check(ctx):
    ctx.rule('the crate and the witnesses type-check under every combination of features (with simd also for both vector widths): promised items exist, items of disabled features do not, messages and typed messages and the client are Send and Sync, every future of the client and its output is Send')
    with open(os.path.join(build.REPO, 'Cargo.toml'), 'rb') as f: cargo = tomllib.load(f)
    declared = [f for f in cargo.get('features', {}) if f != 'default']
    for f in KNOWN:
        if f not in declared: ctx.bad(f'feature {f}', 'Cargo.toml [features]', f'the feature {f} does not exist')
    if any(f not in declared for f in KNOWN): return
    feats = KNOWN + [f for f in declared if f not in KNOWN][:2]
    h = crate(); src = os.path.join(h, 'src', 'lib.rs'); W = witnesses(src)
    lk = build.lock()
    combos = [c for n in range(len(feats) + 1) for c in itertools.combinations(feats, n)]
    seen = set(); table = {}
    for c in combos:
        for cpu in (('sse2', 'avx2') if 'simd' in c else ('sse2',)):
            rc, errs, done, log = typecheck(h, c, cpu)
            name = '+'.join(c) or 'none'
            n = sum(1 for _, w in W if applies(w, c))
            table[f'{name} ({cpu})'] = 'ok' if rc == 0 else f'{len(errs)} errors'
            if rc == 0: ctx.good(n + 1, f'{name} ({cpu}): the crate and {n} witnesses type-check'); continue
            if not errs:
                if any(x in log for x in ('no matching package', 'failed to select a version', 'failed to parse', 'does not have')):
                    ctx.bad(f'features {name}', 'Cargo.toml', 'cargo cannot resolve this combination:\n' + log[-1500:]); continue
                ctx.undecided(name, 'the build failed outside the crate: ' + log[-300:]); continue
            for tgt, file, line, msg, full in errs:
                if tgt == 'vfeat':
                    w = [x for l, x in W if l <= line]
                    k = ('witness', w[-1] if w else '?', msg)
                    where = f'witness {w[-1] if w else "?"} of {file}:{line}'
                    what = f'with features {name} ({cpu}): {full.strip()[:1500]}'
                else:
                    file = file.removeprefix(build.REPO + "/"); k = (file, line, msg); where = f'{file}:{line}'; what = f'does not compile with features {name} ({cpu}): {msg}'
                if k in seen: continue
                seen.add(k); ctx.bad(f'{k[0]} {k[1]}', where, what)
    lk.close()
    ctx.extra['combinations'] = table
    for f in build.repo_files():
        if '/src/' in f and '/xtask/' not in f: ctx.analysed.add(os.path.relpath(f, build.REPO))
def applies(w, c):
    has = lambda f: f in c
    n, kind = w.split('__')[1:3]
    if kind == 'absent': return not has({'types': 'message-types', 'client': 'client', 'serde': 'serde'}[n]) and (n != 'serde' or has('message-types'))
    if n == 'serde': return has('serde') and has('message-types')
    if n == 'pong' and kind == 'future': return has('client') and has('message-types')
    if kind == 'future' or n in ('Client', 'Credentials'): return has('client')
    if n in ('IrcMessageRef', 'IrcMessage', 'parts', 'parser'): return True
    return has('message-types')
