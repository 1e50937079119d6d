"""Builds the MIR driver and dumps the compiler's intermediate representation of /repo.
Everything is cached under /verif/.cache, keyed by the content of the inputs."""
import hashlib, os, subprocess, sys, time, shutil, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TMI_REPO', '/repo')
CACHE = os.environ.get('TMI_CACHE') or os.path.join(VERIF, '.cache')
EVID = os.environ.get('TMI_EVID') or os.path.join(VERIF, 'evidence')
AVX2 = '-C target-cpu=x86-64 -C target-feature=+avx2'
SSE2 = '-C target-cpu=x86-64'
CONFIGS = {
    # name: (harness features, cpu flags)
    'full': ('full', AVX2),
    'scalar': ('types,client,serde', AVX2),
    'sse2': ('full', SSE2),
}
class BuildError(Exception):
    def __init__(self, stage, log): self.stage = stage; self.log = log; super().__init__(stage)

def env(**kw):
    e = dict(os.environ)
    for k in ('CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTFLAGS'): e.pop(k, None)
    e.update({'HOME': '/root', 'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never', 'CARGO_INCREMENTAL': '0'})
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.update(kw)
    return e
def sh(cmd, e=None, cwd=None, stage=''):
    p = subprocess.run(cmd, env=e or env(), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError(stage or cmd[0], p.stdout)
    return p.stdout
def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\1')
    return h.hexdigest()[:20]
def repo_files():
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ('target', '.git', 'node_modules', 'benches', 'tests', 'examples') and not d.startswith('target')]
        for f in files:
            if f.endswith(('.rs', '.toml', '.lock')): out.append(os.path.join(base, f))
    return out
def under(*d):
    out = []
    for base, dirs, files in os.walk(os.path.join(VERIF, *d)):
        dirs[:] = [x for x in dirs if x != 'target']
        out += [os.path.join(base, f) for f in files if f.endswith(('.rs', '.toml', '.lock'))]
    return out
def lock():
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f
def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot'], stage='sysroot').strip()
def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    out = os.path.join(CACHE, 'drv-' + filehash([src]))
    exe = os.path.join(out, 'tmi-mir')
    if not os.path.exists(exe):
        os.makedirs(out, exist_ok=True)
        sh(['rustc', '+nightly', '--edition', '2024', '-O', '-o', exe + '.tmp', src], stage='driver')
        os.rename(exe + '.tmp', exe)
    return exe
def dump(cfg='full', crates='vharness,tmi', harness='harness', feats=None, retry=True):
    """directory with <crate>.json for the given configuration, built from /repo's current tree"""
    lk = lock()
    drv = driver()
    fs, cpu = CONFIGS[cfg]
    if feats: fs = feats
    key = filehash(repo_files() + under(harness) + [os.path.join(VERIF, 'driver', 'main.rs')])
    out = os.path.join(CACHE, 'mir', cfg + '-' + harness + '-' + key)
    done = os.path.join(out, 'ok')
    if os.path.exists(done): return out
    base = os.path.join(CACHE, 'mir')
    if os.path.isdir(base):
        old = [os.path.join(base, d) for d in os.listdir(base) if d.startswith(cfg + '-' + harness + '-')]
        for d in sorted(old, key=os.path.getmtime)[:-3]: shutil.rmtree(d, ignore_errors=True)
    if os.path.isdir(out): shutil.rmtree(out)
    os.makedirs(out)
    tgt = os.path.join(CACHE, 'tgt-' + cfg)
    # forget the units that are dumped, so that cargo runs the driver on them
    for sub in ('.fingerprint', 'build'):
        fp = os.path.join(tgt, 'debug', sub)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.split('-')[0] in crates.split(','): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    h = os.path.join(VERIF, harness)
    if REPO != '/repo':
        c = os.path.join(CACHE, harness); shutil.rmtree(c, ignore_errors=True); shutil.copytree(h, c, ignore=shutil.ignore_patterns('target')); h = c
        t = open(h + '/Cargo.toml').read(); open(h + '/Cargo.toml', 'w').write(t.replace('"/repo"', '"%s"' % REPO))
    e = env(TMI_MIR_OUT=out, TMI_MIR_CRATES=crates, TMI_MIR_KEEP='serde' if harness == 'harness-ser' else '', RUSTC_WRAPPER=drv, LD_LIBRARY_PATH=sysroot() + '/lib',
            RUSTFLAGS=cpu + ' -Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no --cap-lints allow', CARGO_TARGET_DIR=tgt)
    cmd = ['cargo', '+nightly', 'check', '--offline', '--locked']
    if fs: cmd += ['--features', fs]
    try: sh(cmd, e, h, 'dump ' + cfg)
    except BuildError as x:
        shutil.rmtree(out, ignore_errors=True); raise
    if not all(os.path.exists(os.path.join(out, c + '.json')) for c in crates.split(',')):
        shutil.rmtree(out, ignore_errors=True); shutil.rmtree(tgt, ignore_errors=True)
        if retry: lk.close(); return dump(cfg, crates, harness, feats, False)
        raise BuildError('driver', 'the driver wrote no output')
    open(done, 'w').close()
    lk.close()
    return out
def dump_xtask():
    """directory with xtask.json: the task runner of /repo, built from a copy of its directory"""
    lk = lock()
    drv = driver()
    src = os.path.join(REPO, 'xtask')
    files = [f for f in repo_files() if f.startswith(src + os.sep)]
    key = filehash(files + [os.path.join(VERIF, 'driver', 'main.rs')])
    out = os.path.join(CACHE, 'mir', 'xtask-' + key)
    if os.path.exists(os.path.join(out, 'ok')): return out
    base = os.path.join(CACHE, 'mir')
    if os.path.isdir(base):
        for d in os.listdir(base):
            if d.startswith('xtask-'): shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    os.makedirs(out)
    work = os.path.join(CACHE, 'xtask-src'); shutil.rmtree(work, ignore_errors=True)
    for f in files:
        to = os.path.join(work, os.path.relpath(f, src)); os.makedirs(os.path.dirname(to), exist_ok=True); shutil.copyfile(f, to)
    readme = os.path.join(REPO, 'README.md')
    if os.path.exists(readme): shutil.copyfile(readme, os.path.join(CACHE, 'README.md'))
    tgt = os.path.join(CACHE, 'tgt-xtask')
    fp = os.path.join(tgt, 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith('xtask-'): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    e = env(TMI_MIR_OUT=out, TMI_MIR_CRATES='xtask', TMI_MIR_KEEP='xtask', TMI_MIR_ROOTS='main', RUSTC_WRAPPER=drv, LD_LIBRARY_PATH=sysroot() + '/lib',
            RUSTFLAGS=SSE2 + ' -Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no --cap-lints allow', CARGO_TARGET_DIR=tgt)
    try: sh(['cargo', '+nightly', 'check', '--offline', '--bins'], e, work, 'dump xtask')
    except BuildError: shutil.rmtree(out, ignore_errors=True); raise
    if not os.path.exists(os.path.join(out, 'xtask.json')): raise BuildError('driver', 'the driver wrote no output')
    open(os.path.join(out, 'ok'), 'w').close()
    lk.close()
    return out
if __name__ == '__main__':
    t = time.time()
    try:
        for c in sys.argv[1:] or ['full']: print(dump(c), '%.1f s' % (time.time() - t))
    except BuildError as x: print(x.stage); print(x.log); sys.exit(2)
