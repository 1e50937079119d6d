"""python3 tools/mutate.py FILE.py [names..]: runs checks against textual variants of a scratch copy of /repo.
FILE defines MUTS: [(name, 'bug'|'same', [(file, old, new)..], [check ids])]; 'bug' wants a VIOLATION, 'same' wants silence."""
import sys, os, subprocess, shutil, tempfile, runpy, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import queue
SRC = os.environ.get('MUTSRC', '/repo')
BASE = os.environ.get('MUTBASE', '/tmp/mut')
SLOTS = queue.Queue()
for _ in range(int(os.environ.get('MUTN', '4'))): SLOTS.put(_)
def one(m):
    name, kind, edits, ids = m
    w = SLOTS.get()
    d = f'{BASE}{w}/repo'; os.makedirs(d, exist_ok=True)
    try:
        subprocess.run(['rsync', '-a', '--delete', '--exclude', '/target', '--exclude', '.git', SRC + '/', d + '/'] if shutil.which('rsync') else
            ['sh', '-c', f'rm -rf {d} && mkdir -p {d} && cd {SRC} && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C {d}'], check=True)
        for f, old, new in edits:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(old) < 1: return name, 'EDIT NOT APPLICABLE ' + old[:40]
            open(p, 'w').write(s.replace(old, new, 1))
        out = []
        for i in ids:
            r = subprocess.run(['python3', 'check.py', i], cwd=V, env=dict(os.environ, TMI_REPO=d, TMI_CACHE=f'{BASE}{w}/cache', TMI_EVID=f'{BASE}{w}/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            vio = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            und = [l for l in r.stdout.splitlines() if 'undecided' in l.lower()]
            good = (r.returncode == 1 and vio) if kind == 'bug' else r.returncode == 0
            out.append(f'{"ok  " if good else "MISS" if kind == "bug" else "ALARM"} {i} rc={r.returncode} und={len(und)} ' + ('\n        '.join([''] + [l[:260] for l in (r.stdout.splitlines()[:4] if r.returncode else und[:4])])))
        return name, kind + ' ' + '\n     '.join(out)
    finally: SLOTS.put(w)
if __name__ == '__main__':
    import fcntl
    lk = open(BASE + '.lock', 'w'); fcntl.flock(lk, fcntl.LOCK_EX)   # one run per scratch area
    ms = runpy.run_path(sys.argv[1])['MUTS']
    if sys.argv[2:]: ms = [m for m in ms if any(m[0].startswith(a) for a in sys.argv[2:])]
    with cf.ThreadPoolExecutor(SLOTS.qsize()) as ex:
        for n, r in ex.map(one, ms): print(f'== {n}: {r}', flush=True)
