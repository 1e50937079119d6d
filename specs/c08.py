"""C08: typed fields come from their documented sources."""
from common import *

def cmd_is(ctx, name):
    i, n, _ = variant_index(ctx, 'Command', name)
    return is_(command(), i, n)
def pfield(ctx, name):
    _, _, t = variant_index_struct(ctx, 'Prefix')
    ix = [f[0] for f in t['v'][0]['f']].index(name)
    return oand(prefix(), lambda p: fld(p, None, ix))
def variant_index_struct(ctx, ty):
    for t in ctx.prog().types:
        if t and t['k'] == 'adt' and t['n'] == 'tmi::' + ty: return 0, 1, t
    return None
def dur(s): return mul(s, num(10**9))
def timestamp():
    ms = ptag('i64', 'tmi-sent-ts')
    return oand(ms, lambda v: app('ts.millis', v))
def split_comma(ctx, s): return apply_root(ctx, 'spec_split_comma', s)
def badge_data(ctx, name, version, extra):
    _, _, t = variant_index_struct(ctx, 'BadgeData')
    d = {'name': name, 'version': version, 'extra': extra}
    return adt('tmi::BadgeData', 0, [d[f[0]] for f in t['v'][0]['f']])
def badges(ctx):
    """what the badge list must be: one badge per `name/version` entry, extra from badge-info"""
    b, i = tag('badges'), tag('badge-info')
    spec = apply_root(ctx, 'spec_badges', val(b), val(i))
    lam = lambda e: apply_root(ctx, 'data_to_badge', badge_data(ctx, fld(e, None, 0), fld(e, None, 1), fld(e, None, 2)))
    return ite(conj(isSome(b), isSome(i)), maplist(spec, lam), lst(()))
def emote_sets(ctx):
    e = tag('emote-sets')
    return ite(isSome(e), split_comma(ctx, val(e)), lst(()))
def action_text(ctx, t):
    r = apply_root(ctx, 'spec_action', t)
    return fld(r, None, 0), fld(r, None, 1)
def parse_bool(o): return ite(isSome(o), ite(isSome(parse('u8', val(o))), le(ONE, val(parse('u8', val(o)))), ZERO), ZERO)
def flag(k):
    o = tag(k)
    return ite(isSome(o), some(parse_bool(o)), NONE)

def user(i, login, name): return Obj('User', id=i, login=login, name=app('unescape', name))

def check_type(ctx, ty, cmd, req, fields, vocab=VOC):
    """req: Options/conditions that must all be present for the parse to succeed"""
    where = f'tmi::{ty} (FromIrc::from_irc)'
    v = value(ctx, 'parse__' + ty)
    if v is None: return
    f = fields()
    cond = conj(cmd_is(ctx, cmd), *[isSome(r) if not (r.op in TM.ATOMS or is_bool(r)) else r for r in req()])
    if not ctx.equal(f'{ty}: parse succeeds', where, isOk(v), cond, vocab): return
    p = okval(v)
    for name, want in f.items():
        g = apply_root(ctx, f'get__{ty}__{name}', p)
        if g is None: continue
        compare(ctx, f'{ty}.{name}', f'tmi::{ty}::{name} / {where}', g, want, cond, vocab)
def is_bool(t): return t.op == 'int' or t.op in TM.ATOMS or (t.op == 'ite' and is_bool(t.a[1]))

def message_types(ctx):
    T = tag
    need_ts = timestamp
    check_type(ctx, 'Join', 'Join', lambda: [channel(), pfield(ctx, 'nick')], lambda: dict(channel=val(channel()), user=val(pfield(ctx, 'nick'))))
    check_type(ctx, 'Part', 'Part', lambda: [channel(), pfield(ctx, 'nick')], lambda: dict(channel=val(channel()), user=val(pfield(ctx, 'nick'))))
    check_type(ctx, 'Ping', 'Ping', lambda: [], lambda: dict(nonce=text()))
    check_type(ctx, 'Pong', 'Pong', lambda: [], lambda: dict(nonce=text()))
    check_type(ctx, 'Notice', 'Notice', lambda: [text()], lambda: dict(channel=channel(), text=val(text()), id=T('msg-id')))
    def clear_chat_action():
        d = ptag('u64', 'ban-duration')
        tid = T('target-user-id')
        both = conj(isSome(text()), isSome(d))
        return Sum('Action', [
            (both, 'TimeOut', Obj('TimeOut', user=val(text()), id=val(tid), duration=dur(val(d)))),
            (isSome(text()), 'Ban', Obj('Ban', user=val(text()), id=val(tid))),
            (ONE, 'Clear', None)])
    check_type(ctx, 'ClearChat', 'ClearChat',
        lambda: [channel(), T('room-id'), need_ts(), OR(NOT(isSome(text())), isSome(T('target-user-id')))],
        lambda: dict(channel=val(channel()), channel_id=val(T('room-id')), action=clear_chat_action(), timestamp=val(need_ts())))
    def cm():
        t, a = action_text(ctx, val(text()))
        return dict(channel=val(channel()), channel_id=val(T('room-id')), sender=val(T('login')), target_message_id=val(T('target-msg-id')),
                    text=t, is_action=a, timestamp=val(need_ts()))
    check_type(ctx, 'ClearMsg', 'ClearMsg', lambda: [channel(), text(), T('room-id'), T('login'), T('target-msg-id'), need_ts()], cm)
    check_type(ctx, 'GlobalUserState', 'GlobalUserState', lambda: [T('user-id'), T('display-name')],
        lambda: dict(id=val(T('user-id')), name=app('unescape', val(T('display-name'))), badges=badges(ctx), num_badges=length(badges(ctx)),
                     emote_sets=emote_sets(ctx), num_emote_sets=length(emote_sets(ctx)), color=nonempty(T('color'))))
    check_type(ctx, 'UserState', 'UserState', lambda: [channel(), T('display-name')],
        lambda: dict(channel=val(channel()), user_name=val(T('display-name')), badges=badges(ctx), num_badges=length(badges(ctx)),
                     emote_sets=emote_sets(ctx), num_emote_sets=length(emote_sets(ctx)), color=nonempty(T('color'))))
    def followers():
        n = ptag('i64', 'followers-only')
        v = val(n)
        return Opt(isSome(n), Sum('FollowersOnly', [
            (le(v, num(-1)), 'Disabled', None),
            (ieq(v, ZERO), 'Enabled', NONE),
            (ONE, 'Enabled', some(dur_sat(v)))]))
    def dur_sat(v):
        # minutes to seconds, saturating at the largest u64 number of seconds
        lim = (2**64 - 1) // 60
        return dur(ite(le(v, num(lim)), mul(v, num(60)), num(2**64 - 1)))
    check_type(ctx, 'RoomState', 'RoomState', lambda: [channel(), T('room-id')],
        lambda: dict(channel=val(channel()), channel_id=val(T('room-id')), emote_only=flag('emote-only'), r9k=flag('r9k'), subs_only=flag('subs-only'),
                     slow=omap(ptag('u64', 'slow'), dur), followers_only=followers()))
    def wh():
        w = apply_root(ctx, 'spec_whisper', val(params()))
        return ite(isSome(params()), w, NONE)
    check_type(ctx, 'Whisper', 'Whisper', lambda: [wh(), T('user-id'), pfield(ctx, 'nick'), T('display-name')],
        lambda: dict(recipient=fld(val(wh()), None, 0), text=fld(val(wh()), None, 1),
                     sender=user(val(T('user-id')), val(pfield(ctx, 'nick')), val(T('display-name'))),
                     badges=badges(ctx), num_badges=length(badges(ctx)), raw_emotes=orelse(T('emotes'), st('')), color=nonempty(T('color'))))
    def pm():
        t, a = action_text(ctx, val(text()))
        R = ['reply-parent-msg-id', 'reply-thread-parent-msg-id', 'reply-thread-parent-user-login', 'reply-parent-user-id',
             'reply-parent-user-login', 'reply-parent-display-name', 'reply-parent-msg-body']
        rc = conj(*[isSome(T(k)) for k in R])
        reply = Opt(rc, Obj('Reply', thread_parent_message_id=val(T(R[1])), thread_parent_user_login=val(T(R[2])), message_id=val(T(R[0])),
                            sender=user(val(T(R[3])), val(T(R[4])), val(T(R[5]))), text=app('unescape', val(T(R[6])))))
        amt, exp = ptag('i64', 'pinned-chat-paid-amount'), ptag('i64', 'pinned-chat-paid-exponent')
        cur, sysm = T('pinned-chat-paid-currency'), T('pinned-chat-paid-is-system-message')
        lvl = oand(T('pinned-chat-paid-level'), lambda v: apply_root(ctx, 'pinned_level_from_str', v))
        pc = conj(isSome(amt), isSome(cur), isSome(exp), isSome(lvl), isSome(sysm))
        pin = Opt(pc, Obj('PinnedChat', paid_amount=val(amt), paid_currency=val(cur), paid_exponent=val(exp), paid_level=val(lvl), is_system_message=parse_bool(sysm)))
        return dict(id=val(T('id')), channel=val(channel()), channel_id=val(T('room-id')), msg_id=T('msg-id'),
                    sender=user(val(T('user-id')), val(pfield(ctx, 'nick')), val(T('display-name'))), reply_to=reply, pinned_chat=pin,
                    text=t, is_action=a, badges=badges(ctx), num_badges=length(badges(ctx)), color=nonempty(T('color')),
                    custom_reward_id=nonempty(T('custom-reward-id')), bits=ptag('u64', 'bits'), raw_emotes=orelse(T('emotes'), st('')),
                    timestamp=val(need_ts()))
    check_type(ctx, 'Privmsg', 'Privmsg',
        lambda: [channel(), text(), T('room-id'), T('id'), T('user-id'), pfield(ctx, 'nick'), T('display-name'), need_ts()], pm)

def user_notice(ctx):
    T = tag
    mid = T('msg-id'); V = lambda k: val(T(k)); IS = lambda *s: OR(*[eq(val(mid), st(x)) for x in s])
    anon_id = eq(V('user-id'), st('274598607'))
    giftanon = conj(isSome(T('user-id')), anon_id)
    P = lambda k: T('msg-param-' + k)
    PU = lambda k: ptag('u64', 'msg-param-' + k)
    plan, planname = P('sub-plan'), P('sub-plan-name')
    unesc = lambda o: app('unescape', val(o))
    promo_c = conj(isSome(PU('promo-gift-total')), isSome(P('promo-name')))
    promo = Opt(promo_c, Obj('SubGiftPromo', total_gifts=val(PU('promo-gift-total')), promo_name=val(P('promo-name'))))
    streak = PU('streak-months')
    sub = IS('sub', 'resub'); 
    subgift = IS('subgift', 'anonsubgift')
    anon_myst = OR(IS('anonsubmysterygift'), conj(IS('submysterygift'), giftanon))
    myst = conj(IS('submysterygift'), NOT(giftanon))
    cases = [
        (sub, 'SubOrResub', Obj('SubOrResub', is_resub=IS('resub'), cumulative_months=val(PU('cumulative-months')),
            streak_months=oand(streak, lambda v: ite(ieq(v, ZERO), NONE, some(v))), sub_plan=val(plan), sub_plan_name=unesc(planname)),
            [PU('cumulative-months'), plan, planname]),
        (IS('raid'), 'Raid', Obj('Raid', viewer_count=val(PU('viewerCount')), profile_image_url=val(P('profileImageURL'))), [PU('viewerCount'), P('profileImageURL')]),
        (subgift, 'SubGift', Obj('SubGift', cumulative_months=val(PU('months')), recipient=user(val(P('recipient-id')), val(P('recipient-user-name')), val(P('recipient-display-name'))),
            sub_plan=val(plan), sub_plan_name=unesc(planname), num_gifted_months=val(PU('gift-months'))),
            [PU('months'), P('recipient-id'), P('recipient-user-name'), P('recipient-display-name'), plan, planname, PU('gift-months')]),
        (anon_myst, 'AnonSubMysteryGift', Obj('AnonSubMysteryGift', count=val(PU('mass-gift-count')), sub_plan=val(plan)), [PU('mass-gift-count'), plan]),
        (myst, 'SubMysteryGift', Obj('SubMysteryGift', count=val(PU('mass-gift-count')), sender_total_gifts=val(PU('sender-count')), sub_plan=val(plan)),
            [PU('mass-gift-count'), PU('sender-count'), plan]),
        (IS('giftpaidupgrade'), 'GiftPaidUpgrade', Obj('GiftPaidUpgrade', gifter_login=val(P('sender-login')), gifter_name=val(P('sender-name')), promotion=promo),
            [P('sender-login'), P('sender-name')]),
        (IS('anongiftpaidupgrade'), 'AnonGiftPaidUpgrade', Obj('AnonGiftPaidUpgrade', promotion=promo), []),
        (IS('ritual'), 'Ritual', Obj('Ritual', name=val(P('ritual-name'))), [P('ritual-name')]),
        (IS('bitsbadgetier'), 'BitsBadgeTier', Obj('BitsBadgeTier', tier=val(PU('threshold'))), [PU('threshold')]),
        (IS('announcement'), 'Announcement', Obj('Announcement', highlight_color=orelse(P('color'), st('PRIMARY'))), []),
        (ONE, 'Unknown', None, [])]
    anon_kind = OR(IS('anonsubgift', 'anonsubmysterygift', 'anongiftpaidupgrade'), conj(IS('subgift', 'submysterygift'), giftanon))
    known = OR(*[c[0] for c in cases[:-1]])
    no_sender = OR(anon_kind, NOT(known))
    need = [channel(), T('room-id'), T('id'), mid, OR(no_sender, conj(isSome(T('user-id')), isSome(T('login')), isSome(T('display-name'))))]
    rest = ZERO
    for c, _, _, r in reversed(cases): rest = ite(c, conj(*[isSome(x) for x in r]), rest)
    need.append(rest)
    ts = timestamp
    check_type(ctx, 'UserNotice', 'UserNotice', lambda: need + [ts()],
        lambda: dict(channel=val(channel()), channel_id=V('room-id'), text=text(), system_message=omap(nonempty(T('system-msg')), lambda v: app('unescape', v)),
            event=Sum('Event', [(c, n, o) for c, n, o, _ in cases]), event_id=V('msg-id'),
            sender=Opt(NOT(no_sender), user(V('user-id'), V('login'), V('display-name'))),
            badges=badges(ctx), num_badges=length(badges(ctx)), raw_emotes=orelse(T('emotes'), st('')), color=nonempty(T('color')),
            message_id=V('id'), timestamp=val(ts())))

KINDS = [('staff', 'Staff'), ('turbo', 'Turbo'), ('broadcaster', 'Broadcaster'), ('moderator', 'Moderator'), ('subscriber', 'Subscriber')]
def badge_kinds(ctx):
    """badge data becomes the badge its name says"""
    b = sym('b'); w = 'tmi::Badge (From<BadgeData>)'
    G = lambda f, x: apply_root(ctx, 'get__BadgeData__' + f, x)
    v = value(ctx, 'data_to_badge')
    if v is not None:
        name, ver, extra = G('name', b), G('version', b), G('extra', b)
        months = orelse(extra, st('1'))
        n = parse('u64', months)
        rest = ONE
        for s, vn in KINDS:
            i, nv, _ = variant_index(ctx, 'Badge', vn)
            c = ite(rest, eq(name, st(s)), ZERO)
            rest = ite(rest, NOT(eq(name, st(s))), ZERO)
            ctx.equal(f'badge `{s}` becomes {vn}', w, ite(c, is_(v, i, nv), ONE), ONE)
            if vn == 'Subscriber':
                p = fld(v, i, 0)
                compare(ctx, 'Subscriber', w, p, Obj('Subscriber', version=ver, months=orelse(n, ONE)), c)
        i, nv, _ = variant_index(ctx, 'Badge', 'Other')
        ctx.equal('other badges stay as they are', w, ite(rest, is_(v, i, nv), ONE), ONE)
        compare(ctx, 'Other', w, fld(v, i, 0), Obj('BadgeData', name=name, version=ver, extra=extra), rest)

def check(ctx):
    ctx.rule('for each message type, the value each public accessor returns on a successfully parsed message equals the documented conversion of its documented tag or message part, and parsing succeeds exactly when the required ones are present and convertible')
    message_types(ctx)
    user_notice(ctx)
    badge_kinds(ctx)
