"""C06: names of commands and tags."""
from common import *
import irc
TAGS = """MsgId=msg-id Badges=badges BadgeInfo=badge-info DisplayName=display-name EmoteOnly=emote-only Emotes=emotes Flags=flags Id=id Mod=mod RoomId=room-id
Subscriber=subscriber TmiSentTs=tmi-sent-ts Turbo=turbo UserId=user-id UserType=user-type ClientNonce=client-nonce FirstMsg=first-msg
ReplyParentDisplayName=reply-parent-display-name ReplyParentMsgBody=reply-parent-msg-body ReplyParentMsgId=reply-parent-msg-id ReplyParentUserId=reply-parent-user-id
ReplyParentUserLogin=reply-parent-user-login ReplyThreadParentMsgId=reply-thread-parent-msg-id ReplyThreadParentUserLogin=reply-thread-parent-user-login
FollowersOnly=followers-only R9K=r9k Rituals=rituals Slow=slow SubsOnly=subs-only MsgParamCumulativeMonths=msg-param-cumulative-months
MsgParamDisplayName=msg-param-displayName MsgParamLogin=msg-param-login MsgParamMonths=msg-param-months MsgParamPromoGiftTotal=msg-param-promo-gift-total
MsgParamPromoName=msg-param-promo-name MsgParamRecipientDisplayName=msg-param-recipient-display-name MsgParamRecipientId=msg-param-recipient-id
MsgParamRecipientUserName=msg-param-recipient-user-name MsgParamSenderLogin=msg-param-sender-login MsgParamSenderName=msg-param-sender-name
MsgParamShouldShareStreak=msg-param-should-share-streak MsgParamStreakMonths=msg-param-streak-months MsgParamSubPlan=msg-param-sub-plan
MsgParamSubPlanName=msg-param-sub-plan-name MsgParamViewerCount=msg-param-viewerCount MsgParamRitualName=msg-param-ritual-name
MsgParamThreshold=msg-param-threshold MsgParamGiftMonths=msg-param-gift-months MsgParamColor=msg-param-color Login=login Bits=bits SystemMsg=system-msg
EmoteSets=emote-sets ThreadId=thread-id MessageId=message-id ReturningChatter=returning-chatter Color=color Vip=vip TargetUserId=target-user-id
TargetMsgId=target-msg-id BanDuration=ban-duration MsgParamMultimonthDuration=msg-param-multimonth-duration MsgParamWasGifted=msg-param-was-gifted
MsgParamMultimonthTenure=msg-param-multimonth-tenure SentTs=sent-ts MsgParamOriginId=msg-param-origin-id MsgParamFunString=msg-param-fun-string
MsgParamSenderCount=msg-param-sender-count MsgParamProfileImageUrl=msg-param-profileImageURL MsgParamMassGiftCount=msg-param-mass-gift-count
MsgParamGiftMonthBeingRedeemed=msg-param-gift-month-being-redeemed MsgParamAnonGift=msg-param-anon-gift CustomRewardId=custom-reward-id
PinnedChatPaidAmount=pinned-chat-paid-amount PinnedChatPaidCanonicalAmount=pinned-chat-paid-canonical-amount PinnedChatPaidCurrency=pinned-chat-paid-currency
PinnedChatPaidExponent=pinned-chat-paid-exponent PinnedChatPaidLevel=pinned-chat-paid-level PinnedChatPaidIsSystemMessage=pinned-chat-paid-is-system-message""".split()
TAGS = [t.split('=') for t in TAGS]

def chain(cases, d):
    for c, v in reversed(cases): d = ite(c, v, d)
    return d
def names(ctx):
    vs = variant_index(ctx, 'Tag', 'MsgId')[2]['v']
    ix = {v['n']: i for i, v in enumerate(vs)}; n = len(vs)
    missing = [t for t, _ in TAGS if t not in ix]
    if missing: ctx.bad('anchor', 'tmi::Tag', f'no variant {missing}'); return
    # a new variant must have a name of its own: compared with what as_str says
    known = {t for t, _ in TAGS}
    extra = [v['n'] for v in vs if v['n'] not in known and v['n'] != 'Unknown']
    a = run(ctx, 'tag_as_str')
    if a is None: return
    x = a.args[0]
    table = list(TAGS)
    for e in extra:
        v = subst(a.value, {x: adt('tmi::Tag', ix[e], [])})
        if v.op != 'str': ctx.undecided('tmi::Tag::as_str', f'name of {e} is {show(v)}'); return
        table.append((e, v.a[0].decode()))
    if len({k for _, k in table}) != len(table): ctx.bad('two tags share a name', 'tmi::Tag::as_str', str([k for _, k in table]))
    ctx.equal('Tag::as_str', 'tmi::Tag::as_str', a.value, chain([(is_(x, ix[t], n), st(k)) for t, k in table], fld(x, ix['Unknown'], 0)))
    for root in ('tag_parse', 'tag_from'):
        p = run(ctx, root)
        if p is None: continue
        s = p.args[0]
        ctx.equal(f'{root}: name to variant', f'tmi::Tag ({root})', p.value,
                  chain([(eq(s, st(k)), adt('tmi::Tag', ix[t], [])) for t, k in table], adt('tmi::Tag', ix['Unknown'], [s])))
        ctx.equal(f'{root}: printing is the inverse', f'tmi::Tag ({root})', subst(a.value, {x: p.value}), s)
def commands(ctx, cfg='full'):
    vs = variant_index(ctx, 'Command', 'Ping', cfg)[2]['v']
    ix = {v['n']: i for i, v in enumerate(vs)}; n = len(vs)
    a = run(ctx, 'command_as_str')
    if a is None: return
    c = a.args[0]
    table = list(irc.KEYWORDS)
    missing = [t for t, _ in table if t not in ix]
    if missing: ctx.bad('anchor', 'tmi::Command', f'no variant {missing}'); return
    for v in vs:
        if v['n'] not in dict(table) and v['n'] != 'Other':
            s = subst(a.value, {c: adt('tmi::Command', ix[v['n']], [])})
            if s.op == 'str': table.append((v['n'], s.a[0].decode()))
    if len({k for _, k in table}) != len(table): ctx.bad('two commands share a name', 'tmi::Command::as_str', str(table))
    ctx.equal('Command::as_str', 'tmi::Command::as_str', a.value, chain([(is_(c, ix[t], n), st(k)) for t, k in table], fld(c, ix['Other'], 0)))
    v, h = irc.parsed(ctx)
    if v is None: 
        ctx.undecided('tmi::IrcMessageRef::parse', 'the tag and prefix scanners were not found'); return
    d = irc.decompose()
    got = irc.acc(ctx, 'ref_command', val(v))
    if got is None: return
    w = 'tmi::irc::command'
    want = chain([(eq(d.cmd, st(k)), adt('tmi::Command', ix[t], [])) for t, k in table], adt('tmi::Command', ix['Other'], [d.cmd]))
    ctx.equal('command text to variant', w, ite(isSome(v), ite(d.ok, got, ZERO), ZERO), ite(isSome(v), ite(d.ok, want, ZERO), ZERO))
    ctx.equal('printing a parsed command gives its text', w, ite(isSome(v), ite(d.ok, subst(a.value, {c: got}), ZERO), ZERO), ite(isSome(v), ite(d.ok, d.cmd, ZERO), ZERO))
def display(ctx):
    # Display prints exactly as_str
    for root, acc_ in (('command_display', 'command_as_str'), ('tag_display', 'tag_as_str')):
        r = run(ctx, root); a = run(ctx, acc_)
        if r is None or a is None: continue
        out = r.m.deep(r.state, r.args[1])
        o0 = sym('out', 'str')
        ctx.equal(f'{root} prints the name', root, out, cat(o0, subst(a.value, {a.args[0]: r.args[0]})))
def check(ctx):
    ctx.rule('variant-to-text and text-to-variant tables, extracted as value graphs of the matching code, equal the documented table and compose to the identity for every text')
    names(ctx); commands(ctx); display(ctx)
