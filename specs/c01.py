"""C01: parsing never panics."""
from common import *
import re, irc, scan, line, witness
def check(ctx):
    ctx.rule('abstract interpretation of the scanners, of the line parser and of every accessor over positions of an arbitrary line: every index, slice boundary, sum and unwrap is in order; '
             'value graph of every typed conversion, getter and into_owned: no path ends in a panic')
    ctx.assumes += ['lines shorter than 4 GiB; allocation succeeds']
    runs = []
    for cfg in ('scalar', 'full', 'sse2'): runs += scan.tags(ctx, cfg)
    runs += scan.prefix(ctx) + scan.unescape(ctx) + line.lines(ctx)
    scan.report(ctx, runs, ('panic',))
    typed(ctx)
def typed(ctx):
    p = ctx.prog('full')
    names = sorted((r[2:] for r in p.roots if r.startswith(('h_parse__', 'h_get__', 'h_into_owned__', 'h_into_message__')) or r in EXTRA), key=lambda r: (not r.startswith('parse__'), r == 'parse__Message', r))
    known = {}
    for r in names:
        v = run(ctx, r, hooks=witness.HOOKS)
        if v is None: continue
        for name, n in v.m.opaque_calls.items():
            if not TOTAL.search(name): ctx.undecided(name, f'{r}: calls {name}, which is not analysed')
        if not v.m.oblig: ctx.good(1, f'{r}: no path ends in a panic'); continue
        for ob in v.m.oblig:
            env, kind, path, span, detail, stack = ob
            site = (kind, span, tuple(x for x in stack if 'tmi::' in x)[-1:])
            if True in known.get(site, ()): continue
            pre, given = (), None
            if r.startswith(('get__', 'into_owned__', 'into_message__')):
                # of a value that some message converts to
                q = run(ctx, 'parse__' + r.split('__')[1], hooks=witness.HOOKS) if 'h_parse__' + r.split('__')[1] in p.roots else None
                if q is None: ctx.undecided(f'{path} {span}', f'{r}: {kind}: could not be excluded'); continue
                pre, given = [(isOk(q.value), 1)], {v.args[0]: okval(q.value)}
            w = witness.find(ctx, r, ob, pre, given) if len(known.get(site, ())) < 4 else None
            known.setdefault(site, []).append(bool(w))
            where = next((s for s in reversed(stack) if s.startswith(('tmi::', '<tmi::'))), path)
            if w: ctx.bad(f'{kind} at {span} in {where}', f'{where} {span}', f'{r}: {kind} {short(detail)}; reached for ' + w)
            else: ctx.undecided(f'{where} {span}', f'{r}: {kind} {short(detail)} could not be excluded')
def short(d): return str(d)[:200]
TOTAL = re.compile(r'^chrono::TimeZone::timestamp_millis_opt$|^chrono::(offset::)?(LocalResult|MappedLocalTime)::<T>::single$')
EXTRA = ('h_pinned_level_from_u8', 'h_pinned_level_from_str', 'h_badge_as_data', 'h_badge_to_data', 'h_data_to_badge', 'h_message_try_from', 'h_as_typed_ref', 'h_as_typed_owned', 'h_tag_as_str', 'h_tag_parse', 'h_command_as_str')
