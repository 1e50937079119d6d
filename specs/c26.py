"""C26: a failing command of the task runner is never reported as success.
The whole runner is one value graph from `main`; starting a process, waiting for it and touching a file are events of a trace."""
from clientspec import *
import os
import build
from mir import Program
ST = 'std::process::Command'; CH = 'std::process::Child'
def res_of(t): return app('res', t)
def okc(t): return is_(app('res', t), 0, 2)
def fres(tr): return fld(app('res', tr), 0, 0)
def event(name, nargs=1):
    def f(S, c):
        tr = c.m.get_cell(c.st, aio.TRACE)
        a = [c.m.deep_value(c.st, c.m.deep(c.st, x)) for x in c.args[:nargs]]
        own = [c.m.p.insts[f.inst] for f in c.m.stack]
        where = ' > '.join(i['path'] for i in own if i['cr'] == 'xtask') or 'xtask'
        t2 = trace(tr, name, *a, num(SITE.setdefault(where, len(SITE))))
        c.st.store[aio.TRACE] = t2
        return app('res', t2)
    return f
def same(S, c): return c.args[0]
def success(x): return pred('succeeds', x)
def h_success(S, c): return success(c.m.deep(c.st, c.args[0]))
def h_code(S, c):
    # the code of a process that did not succeed is not 0, or there is none
    x = c.m.deep(c.st, c.args[0])
    u = app('code-1', x); SORT.setdefault(u, 'u16')
    return ite(success(x), some(num(0)), ite(pred('signalled', x), NONE, some(add(u, num(1)))))
def h_exit_ok(S, c):
    x = c.m.deep(c.st, c.args[0])
    return ite(success(x), ok(UNIT), err(app('exit-error', x)))
EXITS = []; SITE = {}
def h_exit(S, c):
    EXITS.append((list(c.st.env.d.items()) + c.m.guards, c.st.env, c.m.get_cell(c.st, aio.TRACE), c.args[0])); return UNREACH, None
HX = {f'{ST}::{k}': same for k in ('arg', 'args', 'env', 'envs', 'env_remove', 'env_clear', 'current_dir', 'stdin', 'stdout', 'stderr')}
HX.update({
    f'{ST}::new': lambda S, c: app('command', c.m.deep_value(c.st, c.m.deep(c.st, c.args[0]))),
    f'{ST}::spawn': event('spawn', 0), f'{ST}::status': event('status', 0), f'{ST}::output': event('output', 0),
    f'{CH}::wait': event('wait'), f'{CH}::wait_with_output': event('wait_with_output'), f'{CH}::try_wait': event('try_wait'), f'{CH}::kill': event('kill'),
    'std::process::ExitStatus::success': h_success, 'std::process::ExitStatus::code': h_code, 'std::process::ExitStatus::exit_ok': h_exit_ok,
    'std::process::Stdio::piped': lambda S, c: app('stdio'), 'std::process::Stdio::inherit': lambda S, c: app('stdio'), 'std::process::Stdio::null': lambda S, c: app('stdio'),
    'std::fs::read_to_string': event('read', 0), 'std::fs::read': event('read', 0), 'std::fs::write': event('write', 0),
    'std::fs::OpenOptions::open': event('open', 0), 'std::fs::File::open': event('open', 0), 'std::fs::File::create': event('open', 0),
    'std::process::exit': h_exit, 'argp::parse_args_or_exit': lambda S, c: sym('cli'),
    'std::io::stderr': lambda S, c: app('stderr'), 'std::io::stdout': lambda S, c: app('stdout'),
})
for p in ('std::process::ExitStatus::code',): HX[p] = h_code
def status_of(name, v):
    """the exit status in the result of a waiting event"""
    return v if name in ('wait', 'status') else fld(v, None, 0)
WAITS = ('wait', 'status', 'wait_with_output', 'output')
STARTS = ('spawn', 'status', 'output')
def check(ctx):
    ctx.rule('on every path from main: every started process is waited for; once starting, waiting, the exit status or a file operation has failed, no further process or file operation follows and the runner does not exit with success')
    prog = Program(os.path.join(build.dump_xtask(), 'xtask.json'))
    k = int(os.environ.get('C26_UNROLL', '3'))
    try: r = roots.run(prog, 'main', hooks=HX, opts={'strict_loops': False, 'symexit': 100000, 'cutloop': k})
    except VIOL_UNSUP as x: ctx.undecided('xtask::main', x); return
    for n in r.m.visited: ctx.analysed.add(prog.insts[n]['path'])
    tr = r.m.get_cell(r.state, aio.TRACE)
    judge(ctx, r, tr, r.value)
    # leaving by std::process::exit
    for conds, env, t, code in list(EXITS): judge(ctx, r, t, code, env, conds=conds)
    # loops that go on for longer than they were unrolled: an arbitrary iteration, from an arbitrary state before it
    loops(ctx, r)
    ctx.extra['sites'] = sorted(SITE)
    if not SITE: ctx.bad('anchor', 'xtask', 'no process is started anywhere')
def code_of(v, env):
    """the exit code of what main returns"""
    v = restrict(v, env)
    if v.op == 'ite': return ite(v.a[0], code_of(v.a[1], env), code_of(v.a[2], env))
    if v.op == 'adt' and v.a[0].endswith('ExitCode'): return code_of(v.a[2][0], env)
    if v.op == 'adt' and v.a[0] == 'std::result::Result': return num(1) if v.a[1] == 1 else (code_of(v.a[2][0], env) if v.a[2] and v.a[2][0] is not UNIT else ZERO)
    if v.op == 'tup' or v is UNIT: return ZERO
    return v
def fails(name, t, e):
    """conditions under which an event counts as failed, each with the conditions of the ones before being met"""
    out = [(okc(t), 'cannot be carried out')]
    if name in WAITS: out.append((success(restrict(status_of(name, fres(t)), e)), 'the process exits with failure'))
    return out
def site(args): return next(k for k, v in SITE.items() if num(v) is args[-1])
def holds(a, v, env):
    """does env make the condition a come out as v"""
    d = env.decide(a) if a.op != 'int' else bool(a.a[0])
    if d is None:
        c = truth(restrict(a, env)); f, t = assume(env, c, False), assume(env, c, True)
        d = True if f is None else False if t is None else None
    return None if d is None else d == v
def judge(ctx, r, tr, value, env0=EMPTYENV, go_on=False, what='', conds=None):
    for evs_, env in leaves(tr, env0):
        evs, rest = orig_events(tr, env)
        started = {}
        e = env
        for i, (name, args, t) in enumerate(evs):
            where = site(args)
            later = [n for n, a, _ in evs[i + 1:]]
            for cond, why in fails(name, t, e):
                if e is None: break
                c = truth(restrict(cond, e))
                f = assume(e, c, False)
                if f is not None:
                    key = f'{what}{where}: {name}: {why}'
                    # the exit being judged: not on this path?
                    if conds is not None and any(holds(a, v, f) is False for a, v in conds): e = assume(e, c, True); continue
                    left = [list(o[0].d.items()) for o in r.m.oblig] + [x[0] for x in EXITS if x[0] is not conds]
                    if any(all(holds(a, v, f) for a, v in o) for o in left): ctx.good(1, key + ': leaves by a panic or std::process::exit'); e = assume(e, c, True); continue
                    if later or go_on:
                        ctx.bad(key, where, f'if this {name} fails ({why}), the runner goes on with: {", ".join(later) or "the next round"}')
                    elif value is not None:
                        v = code_of(value, f)
                        if v is UNREACH: ctx.good(1, f'{key}: stops with a panic')
                        else: ctx.equal(key + ': not reported as success', where, ieq(v, ZERO), ZERO, env=f)
                e = assume(e, c, True)
                if e is None: break
            if e is None: break
            if name == 'spawn': started[fres(t)] = (where, i)
            for a in args:
                if name in WAITS: started.pop(restrict(a, e), None); started.pop(a, None)
        if e is not None:
            for ch, (where, i) in started.items(): ctx.bad(f'{what}{where}: never waited for', where, f'a process is started and never waited for on the way {[n for n, _, _ in evs]}')
            ctx.good(1)
def loops(ctx, r):
    n = 0
    for L in r.m.looplog:
        t0 = next((s for (cell, path), s in L['lvs'].items() if cell == aio.TRACE), None)
        if t0 is None: continue
        n += 1
        for cond, s in L['back']:
            env = assume(s.env, truth(restrict(cond, s.env)), True)
            if env is None: continue
            judge(ctx, r, restrict(r.m.get_cell(s, aio.TRACE), env), None, env, True, 'in a loop: ')
    ctx.extra['loops_with_processes'] = n
