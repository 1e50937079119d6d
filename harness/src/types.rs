// Generated list of entry points: each fn names one public API of tmi so that the
// compiler resolves and monomorphises everything it reaches. Never executed.
#![allow(clippy::all)]
use chrono::{DateTime, Utc};
use std::borrow::Cow;
use std::time::Duration;
use tmi::*;

pub fn h_get__Subscriber__version<'r, 's>(x: &'r Subscriber<'s>) -> &'r str { x.version() }
pub fn h_get__Subscriber__months<'r, 's>(x: &'r Subscriber<'s>) -> u64 { x.months() }
pub fn h_get__BadgeData__name<'r, 's>(x: &'r BadgeData<'s>) -> &'r str { x.name() }
pub fn h_get__BadgeData__version<'r, 's>(x: &'r BadgeData<'s>) -> &'r str { x.version() }
pub fn h_get__BadgeData__extra<'r, 's>(x: &'r BadgeData<'s>) -> Option<&'r str> { x.extra() }
pub fn h_get__User__id<'r, 's>(x: &'r User<'s>) -> &'r str { x.id() }
pub fn h_get__User__login<'r, 's>(x: &'r User<'s>) -> &'r str { x.login() }
pub fn h_get__User__name<'r, 's>(x: &'r User<'s>) -> Cow<'s, str> { x.name() }
pub fn h_get__ClearChat__channel<'r, 's>(x: &'r ClearChat<'s>) -> &'r str { x.channel() }
pub fn h_get__ClearChat__channel_id<'r, 's>(x: &'r ClearChat<'s>) -> &'r str { x.channel_id() }
pub fn h_get__ClearChat__action<'r, 's>(x: &'r ClearChat<'s>) -> &'r Action<'s> { x.action() }
pub fn h_get__ClearChat__timestamp<'r, 's>(x: &'r ClearChat<'s>) -> DateTime<Utc> { x.timestamp() }
pub fn h_get__ClearChat__target<'r, 's>(x: &'r ClearChat<'s>) -> Option<&'r str> { x.target() }
pub fn h_get__Action__is_clear<'r, 's>(x: &'r Action<'s>) -> bool { x.is_clear() }
pub fn h_get__Action__is_ban<'r, 's>(x: &'r Action<'s>) -> bool { x.is_ban() }
pub fn h_get__Action__is_time_out<'r, 's>(x: &'r Action<'s>) -> bool { x.is_time_out() }
pub fn h_get__Ban__user<'r, 's>(x: &'r Ban<'s>) -> &'r str { x.user() }
pub fn h_get__Ban__id<'r, 's>(x: &'r Ban<'s>) -> &'r str { x.id() }
pub fn h_get__TimeOut__user<'r, 's>(x: &'r TimeOut<'s>) -> &'r str { x.user() }
pub fn h_get__TimeOut__id<'r, 's>(x: &'r TimeOut<'s>) -> &'r str { x.id() }
pub fn h_get__TimeOut__duration<'r, 's>(x: &'r TimeOut<'s>) -> Duration { x.duration() }
pub fn h_get__ClearMsg__channel<'r, 's>(x: &'r ClearMsg<'s>) -> &'r str { x.channel() }
pub fn h_get__ClearMsg__channel_id<'r, 's>(x: &'r ClearMsg<'s>) -> &'r str { x.channel_id() }
pub fn h_get__ClearMsg__sender<'r, 's>(x: &'r ClearMsg<'s>) -> &'r str { x.sender() }
pub fn h_get__ClearMsg__target_message_id<'r, 's>(x: &'r ClearMsg<'s>) -> &'r str { x.target_message_id() }
pub fn h_get__ClearMsg__text<'r, 's>(x: &'r ClearMsg<'s>) -> &'r str { x.text() }
pub fn h_get__ClearMsg__is_action<'r, 's>(x: &'r ClearMsg<'s>) -> bool { x.is_action() }
pub fn h_get__ClearMsg__timestamp<'r, 's>(x: &'r ClearMsg<'s>) -> DateTime<Utc> { x.timestamp() }
pub fn h_get__GlobalUserState__id<'r, 's>(x: &'r GlobalUserState<'s>) -> &'r str { x.id() }
pub fn h_get__GlobalUserState__name<'r, 's>(x: &'r GlobalUserState<'s>) -> Cow<'s, str> { x.name() }
pub fn h_get__GlobalUserState__num_badges<'r, 's>(x: &'r GlobalUserState<'s>) -> usize { x.num_badges() }
pub fn h_get__GlobalUserState__num_emote_sets<'r, 's>(x: &'r GlobalUserState<'s>) -> usize { x.num_emote_sets() }
pub fn h_get__GlobalUserState__color<'r, 's>(x: &'r GlobalUserState<'s>) -> Option<&'r str> { x.color() }
pub fn h_get__Join__channel<'r, 's>(x: &'r Join<'s>) -> &'r str { x.channel() }
pub fn h_get__Join__user<'r, 's>(x: &'r Join<'s>) -> &'r str { x.user() }
pub fn h_get__Notice__channel<'r, 's>(x: &'r Notice<'s>) -> Option<&'r str> { x.channel() }
pub fn h_get__Notice__text<'r, 's>(x: &'r Notice<'s>) -> &'r str { x.text() }
pub fn h_get__Notice__id<'r, 's>(x: &'r Notice<'s>) -> Option<&'r str> { x.id() }
pub fn h_get__Part__channel<'r, 's>(x: &'r Part<'s>) -> &'r str { x.channel() }
pub fn h_get__Part__user<'r, 's>(x: &'r Part<'s>) -> &'r str { x.user() }
pub fn h_get__Ping__nonce<'r, 's>(x: &'r Ping<'s>) -> Option<&'r str> { x.nonce() }
pub fn h_get__Pong__nonce<'r, 's>(x: &'r Pong<'s>) -> Option<&'r str> { x.nonce() }
pub fn h_get__Privmsg__id<'r, 's>(x: &'r Privmsg<'s>) -> &'r str { x.id() }
pub fn h_get__Privmsg__channel<'r, 's>(x: &'r Privmsg<'s>) -> &'r str { x.channel() }
pub fn h_get__Privmsg__channel_id<'r, 's>(x: &'r Privmsg<'s>) -> &'r str { x.channel_id() }
pub fn h_get__Privmsg__msg_id<'r, 's>(x: &'r Privmsg<'s>) -> Option<&'r str> { x.msg_id() }
pub fn h_get__Privmsg__sender<'r, 's>(x: &'r Privmsg<'s>) -> &'r User<'s> { x.sender() }
pub fn h_get__Privmsg__reply_to<'r, 's>(x: &'r Privmsg<'s>) -> Option<&'r Reply<'s>> { x.reply_to() }
pub fn h_get__Privmsg__pinned_chat<'r, 's>(x: &'r Privmsg<'s>) -> Option<&'r PinnedChat<'s>> { x.pinned_chat() }
pub fn h_get__Privmsg__text<'r, 's>(x: &'r Privmsg<'s>) -> &'r str { x.text() }
pub fn h_get__Privmsg__is_action<'r, 's>(x: &'r Privmsg<'s>) -> bool { x.is_action() }
pub fn h_get__Privmsg__num_badges<'r, 's>(x: &'r Privmsg<'s>) -> usize { x.num_badges() }
pub fn h_get__Privmsg__color<'r, 's>(x: &'r Privmsg<'s>) -> Option<&'r str> { x.color() }
pub fn h_get__Privmsg__custom_reward_id<'r, 's>(x: &'r Privmsg<'s>) -> Option<&'r str> { x.custom_reward_id() }
pub fn h_get__Privmsg__bits<'r, 's>(x: &'r Privmsg<'s>) -> Option<u64> { x.bits() }
pub fn h_get__Privmsg__raw_emotes<'r, 's>(x: &'r Privmsg<'s>) -> &'r str { x.raw_emotes() }
pub fn h_get__Privmsg__timestamp<'r, 's>(x: &'r Privmsg<'s>) -> DateTime<Utc> { x.timestamp() }
pub fn h_get__Reply__thread_parent_message_id<'r, 's>(x: &'r Reply<'s>) -> &'r str { x.thread_parent_message_id() }
pub fn h_get__Reply__thread_parent_user_login<'r, 's>(x: &'r Reply<'s>) -> &'r str { x.thread_parent_user_login() }
pub fn h_get__Reply__message_id<'r, 's>(x: &'r Reply<'s>) -> &'r str { x.message_id() }
pub fn h_get__Reply__sender<'r, 's>(x: &'r Reply<'s>) -> &'r User<'s> { x.sender() }
pub fn h_get__Reply__text<'r, 's>(x: &'r Reply<'s>) -> Cow<'s, str> { x.text() }
pub fn h_get__PinnedChat__paid_amount<'r, 's>(x: &'r PinnedChat<'s>) -> i64 { x.paid_amount() }
pub fn h_get__PinnedChat__paid_currency<'r, 's>(x: &'r PinnedChat<'s>) -> &'r str { x.paid_currency() }
pub fn h_get__PinnedChat__paid_exponent<'r, 's>(x: &'r PinnedChat<'s>) -> i64 { x.paid_exponent() }
pub fn h_get__PinnedChat__paid_level<'r, 's>(x: &'r PinnedChat<'s>) -> PinnedChatLevel { x.paid_level() }
pub fn h_get__PinnedChat__is_system_message<'r, 's>(x: &'r PinnedChat<'s>) -> bool { x.is_system_message() }
pub fn h_get__RoomState__channel<'r, 's>(x: &'r RoomState<'s>) -> &'r str { x.channel() }
pub fn h_get__RoomState__channel_id<'r, 's>(x: &'r RoomState<'s>) -> &'r str { x.channel_id() }
pub fn h_get__RoomState__emote_only<'r, 's>(x: &'r RoomState<'s>) -> Option<bool> { x.emote_only() }
pub fn h_get__RoomState__followers_only<'r, 's>(x: &'r RoomState<'s>) -> Option<FollowersOnly> { x.followers_only() }
pub fn h_get__RoomState__r9k<'r, 's>(x: &'r RoomState<'s>) -> Option<bool> { x.r9k() }
pub fn h_get__RoomState__slow<'r, 's>(x: &'r RoomState<'s>) -> Option<Duration> { x.slow() }
pub fn h_get__RoomState__subs_only<'r, 's>(x: &'r RoomState<'s>) -> Option<bool> { x.subs_only() }
pub fn h_get__UserNotice__channel<'r, 's>(x: &'r UserNotice<'s>) -> &'r str { x.channel() }
pub fn h_get__UserNotice__channel_id<'r, 's>(x: &'r UserNotice<'s>) -> &'r str { x.channel_id() }
pub fn h_get__UserNotice__sender<'r, 's>(x: &'r UserNotice<'s>) -> Option<&'r User<'s>> { x.sender() }
pub fn h_get__UserNotice__text<'r, 's>(x: &'r UserNotice<'s>) -> Option<&'r str> { x.text() }
pub fn h_get__UserNotice__system_message<'r, 's>(x: &'r UserNotice<'s>) -> Option<Cow<'s, str>> { x.system_message() }
pub fn h_get__UserNotice__event<'r, 's>(x: &'r UserNotice<'s>) -> &'r Event<'s> { x.event() }
pub fn h_get__UserNotice__event_id<'r, 's>(x: &'r UserNotice<'s>) -> &'r str { x.event_id() }
pub fn h_get__UserNotice__num_badges<'r, 's>(x: &'r UserNotice<'s>) -> usize { x.num_badges() }
pub fn h_get__UserNotice__raw_emotes<'r, 's>(x: &'r UserNotice<'s>) -> &'r str { x.raw_emotes() }
pub fn h_get__UserNotice__color<'r, 's>(x: &'r UserNotice<'s>) -> Option<&'r str> { x.color() }
pub fn h_get__UserNotice__message_id<'r, 's>(x: &'r UserNotice<'s>) -> &'r str { x.message_id() }
pub fn h_get__UserNotice__timestamp<'r, 's>(x: &'r UserNotice<'s>) -> DateTime<Utc> { x.timestamp() }
pub fn h_get__SubOrResub__is_resub<'r, 's>(x: &'r SubOrResub<'s>) -> bool { x.is_resub() }
pub fn h_get__SubOrResub__cumulative_months<'r, 's>(x: &'r SubOrResub<'s>) -> u64 { x.cumulative_months() }
pub fn h_get__SubOrResub__streak_months<'r, 's>(x: &'r SubOrResub<'s>) -> Option<u64> { x.streak_months() }
pub fn h_get__SubOrResub__sub_plan<'r, 's>(x: &'r SubOrResub<'s>) -> &'r str { x.sub_plan() }
pub fn h_get__SubOrResub__sub_plan_name<'r, 's>(x: &'r SubOrResub<'s>) -> Cow<'s, str> { x.sub_plan_name() }
pub fn h_get__Raid__viewer_count<'r, 's>(x: &'r Raid<'s>) -> u64 { x.viewer_count() }
pub fn h_get__Raid__profile_image_url<'r, 's>(x: &'r Raid<'s>) -> &'r str { x.profile_image_url() }
pub fn h_get__SubGift__cumulative_months<'r, 's>(x: &'r SubGift<'s>) -> u64 { x.cumulative_months() }
pub fn h_get__SubGift__recipient<'r, 's>(x: &'r SubGift<'s>) -> &'r User<'s> { x.recipient() }
pub fn h_get__SubGift__sub_plan<'r, 's>(x: &'r SubGift<'s>) -> &'r str { x.sub_plan() }
pub fn h_get__SubGift__sub_plan_name<'r, 's>(x: &'r SubGift<'s>) -> Cow<'s, str> { x.sub_plan_name() }
pub fn h_get__SubGift__num_gifted_months<'r, 's>(x: &'r SubGift<'s>) -> u64 { x.num_gifted_months() }
pub fn h_get__SubMysteryGift__count<'r, 's>(x: &'r SubMysteryGift<'s>) -> u64 { x.count() }
pub fn h_get__SubMysteryGift__sender_total_gifts<'r, 's>(x: &'r SubMysteryGift<'s>) -> u64 { x.sender_total_gifts() }
pub fn h_get__SubMysteryGift__sub_plan<'r, 's>(x: &'r SubMysteryGift<'s>) -> &'r str { x.sub_plan() }
pub fn h_get__AnonSubMysteryGift__count<'r, 's>(x: &'r AnonSubMysteryGift<'s>) -> u64 { x.count() }
pub fn h_get__AnonSubMysteryGift__sub_plan<'r, 's>(x: &'r AnonSubMysteryGift<'s>) -> &'r str { x.sub_plan() }
pub fn h_get__GiftPaidUpgrade__gifter_login<'r, 's>(x: &'r GiftPaidUpgrade<'s>) -> &'r str { x.gifter_login() }
pub fn h_get__GiftPaidUpgrade__gifter_name<'r, 's>(x: &'r GiftPaidUpgrade<'s>) -> &'r str { x.gifter_name() }
pub fn h_get__GiftPaidUpgrade__promotion<'r, 's>(x: &'r GiftPaidUpgrade<'s>) -> Option<&'r SubGiftPromo<'s>> { x.promotion() }
pub fn h_get__AnonGiftPaidUpgrade__promotion<'r, 's>(x: &'r AnonGiftPaidUpgrade<'s>) -> Option<&'r SubGiftPromo<'s>> { x.promotion() }
pub fn h_get__Ritual__name<'r, 's>(x: &'r Ritual<'s>) -> &'r str { x.name() }
pub fn h_get__Announcement__highlight_color<'r, 's>(x: &'r Announcement<'s>) -> &'r str { x.highlight_color() }
pub fn h_get__SubGiftPromo__total_gifts<'r, 's>(x: &'r SubGiftPromo<'s>) -> u64 { x.total_gifts() }
pub fn h_get__SubGiftPromo__promo_name<'r, 's>(x: &'r SubGiftPromo<'s>) -> &'r str { x.promo_name() }
pub fn h_get__UserState__channel<'r, 's>(x: &'r UserState<'s>) -> &'r str { x.channel() }
pub fn h_get__UserState__user_name<'r, 's>(x: &'r UserState<'s>) -> &'r str { x.user_name() }
pub fn h_get__UserState__num_badges<'r, 's>(x: &'r UserState<'s>) -> usize { x.num_badges() }
pub fn h_get__UserState__num_emote_sets<'r, 's>(x: &'r UserState<'s>) -> usize { x.num_emote_sets() }
pub fn h_get__UserState__color<'r, 's>(x: &'r UserState<'s>) -> Option<&'r str> { x.color() }
pub fn h_get__Whisper__recipient<'r, 's>(x: &'r Whisper<'s>) -> &'r str { x.recipient() }
pub fn h_get__Whisper__sender<'r, 's>(x: &'r Whisper<'s>) -> User<'s> { x.sender() }
pub fn h_get__Whisper__text<'r, 's>(x: &'r Whisper<'s>) -> &'r str { x.text() }
pub fn h_get__Whisper__num_badges<'r, 's>(x: &'r Whisper<'s>) -> usize { x.num_badges() }
pub fn h_get__Whisper__raw_emotes<'r, 's>(x: &'r Whisper<'s>) -> &'r str { x.raw_emotes() }
pub fn h_get__Whisper__color<'r, 's>(x: &'r Whisper<'s>) -> Option<&'r str> { x.color() }
pub fn h_get__BitsBadgeTier__tier(x: &BitsBadgeTier) -> u64 { x.tier() }
pub fn h_get__Privmsg__badges<'r, 's>(x: &'r Privmsg<'s>) -> Vec<&'r Badge<'s>> { x.badges().collect() }
pub fn h_get__UserNotice__badges<'r, 's>(x: &'r UserNotice<'s>) -> Vec<&'r Badge<'s>> { x.badges().collect() }
pub fn h_get__UserState__badges<'r, 's>(x: &'r UserState<'s>) -> Vec<&'r Badge<'s>> { x.badges().collect() }
pub fn h_get__GlobalUserState__badges<'r, 's>(x: &'r GlobalUserState<'s>) -> Vec<&'r Badge<'s>> { x.badges().collect() }
pub fn h_get__Whisper__badges<'r, 's>(x: &'r Whisper<'s>) -> Vec<&'r Badge<'s>> { x.badges().collect() }
pub fn h_get__UserState__emote_sets<'r, 's>(x: &'r UserState<'s>) -> Vec<&'r str> { x.emote_sets().collect() }
pub fn h_get__GlobalUserState__emote_sets<'r, 's>(x: &'r GlobalUserState<'s>) -> Vec<&'r str> { x.emote_sets().collect() }
pub fn h_get__PinnedChatLevel__as_str<'r>(x: &'r PinnedChatLevel) -> &'static str { x.as_str() }
pub fn h_parse__ClearChat<'s>(m: IrcMessageRef<'s>) -> Result<ClearChat<'s>, MessageParseError> { <ClearChat<'s> as FromIrc<'s>>::from_irc(m) }
pub fn h_into_message__ClearChat<'s>(m: ClearChat<'s>) -> Message<'s> { m.into() }
pub fn h_parse__ClearMsg<'s>(m: IrcMessageRef<'s>) -> Result<ClearMsg<'s>, MessageParseError> { <ClearMsg<'s> as FromIrc<'s>>::from_irc(m) }
pub fn h_into_message__ClearMsg<'s>(m: ClearMsg<'s>) -> Message<'s> { m.into() }
pub fn h_parse__GlobalUserState<'s>(m: IrcMessageRef<'s>) -> Result<GlobalUserState<'s>, MessageParseError> { <GlobalUserState<'s> as FromIrc<'s>>::from_irc(m) }
pub fn h_into_message__GlobalUserState<'s>(m: GlobalUserState<'s>) -> Message<'s> { m.into() }
pub fn h_parse__Join<'s>(m: IrcMessageRef<'s>) -> Result<Join<'s>, MessageParseError> { <Join<'s> as FromIrc<'s>>::from_irc(m) }
pub fn h_into_message__Join<'s>(m: Join<'s>) -> Message<'s> { m.into() }
pub fn h_parse__Notice<'s>(m: IrcMessageRef<'s>) -> Result<Notice<'s>, MessageParseError> { <Notice<'s> as FromIrc<'s>>::from_irc(m) }
pub fn h_into_message__Notice<'s>(m: Notice<'s>) -> Message<'s> { m.into() }
pub fn h_parse__Part<'s>(m: IrcMessageRef<'s>) -> Result<Part<'s>, MessageParseError> { <Part<'s> as FromIrc<'s>>::from_irc(m) }
pub fn h_into_message__Part<'s>(m: Part<'s>) -> Message<'s> { m.into() }
pub fn h_parse__Ping<'s>(m: IrcMessageRef<'s>) -> Result<Ping<'s>, MessageParseError> { <Ping<'s> as FromIrc<'s>>::from_irc(m) }
pub fn h_into_message__Ping<'s>(m: Ping<'s>) -> Message<'s> { m.into() }
pub fn h_parse__Pong<'s>(m: IrcMessageRef<'s>) -> Result<Pong<'s>, MessageParseError> { <Pong<'s> as FromIrc<'s>>::from_irc(m) }
pub fn h_into_message__Pong<'s>(m: Pong<'s>) -> Message<'s> { m.into() }
pub fn h_parse__Privmsg<'s>(m: IrcMessageRef<'s>) -> Result<Privmsg<'s>, MessageParseError> { <Privmsg<'s> as FromIrc<'s>>::from_irc(m) }
pub fn h_into_message__Privmsg<'s>(m: Privmsg<'s>) -> Message<'s> { m.into() }
pub fn h_parse__RoomState<'s>(m: IrcMessageRef<'s>) -> Result<RoomState<'s>, MessageParseError> { <RoomState<'s> as FromIrc<'s>>::from_irc(m) }
pub fn h_into_message__RoomState<'s>(m: RoomState<'s>) -> Message<'s> { m.into() }
pub fn h_parse__UserNotice<'s>(m: IrcMessageRef<'s>) -> Result<UserNotice<'s>, MessageParseError> { <UserNotice<'s> as FromIrc<'s>>::from_irc(m) }
pub fn h_into_message__UserNotice<'s>(m: UserNotice<'s>) -> Message<'s> { m.into() }
pub fn h_parse__UserState<'s>(m: IrcMessageRef<'s>) -> Result<UserState<'s>, MessageParseError> { <UserState<'s> as FromIrc<'s>>::from_irc(m) }
pub fn h_into_message__UserState<'s>(m: UserState<'s>) -> Message<'s> { m.into() }
pub fn h_parse__Whisper<'s>(m: IrcMessageRef<'s>) -> Result<Whisper<'s>, MessageParseError> { <Whisper<'s> as FromIrc<'s>>::from_irc(m) }
pub fn h_into_message__Whisper<'s>(m: Whisper<'s>) -> Message<'s> { m.into() }
pub fn h_parse__Message<'s>(m: IrcMessageRef<'s>) -> Result<Message<'s>, MessageParseError> { <Message<'s> as FromIrc<'s>>::from_irc(m) }
pub fn h_message_parse<'s>(s: &'s str) -> Result<Message<'s>, MessageParseError> { Message::parse(s) }
pub fn h_message_try_from<'s>(m: IrcMessageRef<'s>) -> Result<Message<'s>, MessageParseError> { Message::try_from(m) }
pub fn h_as_typed_owned<'r>(m: &'r IrcMessage) -> Result<Message<'r>, MessageParseError> { m.as_typed() }
pub fn h_as_typed_ref<'s>(m: IrcMessageRef<'s>) -> Result<Message<'s>, MessageParseError> { m.as_typed() }
pub fn h_into_owned__ClearChat<'s>(m: ClearChat<'s>) -> ClearChat<'static> { m.into_owned() }
pub fn h_into_owned__ClearMsg<'s>(m: ClearMsg<'s>) -> ClearMsg<'static> { m.into_owned() }
pub fn h_into_owned__GlobalUserState<'s>(m: GlobalUserState<'s>) -> GlobalUserState<'static> { m.into_owned() }
pub fn h_into_owned__Join<'s>(m: Join<'s>) -> Join<'static> { m.into_owned() }
pub fn h_into_owned__Notice<'s>(m: Notice<'s>) -> Notice<'static> { m.into_owned() }
pub fn h_into_owned__Part<'s>(m: Part<'s>) -> Part<'static> { m.into_owned() }
pub fn h_into_owned__Ping<'s>(m: Ping<'s>) -> Ping<'static> { m.into_owned() }
pub fn h_into_owned__Pong<'s>(m: Pong<'s>) -> Pong<'static> { m.into_owned() }
pub fn h_into_owned__Privmsg<'s>(m: Privmsg<'s>) -> Privmsg<'static> { m.into_owned() }
pub fn h_into_owned__RoomState<'s>(m: RoomState<'s>) -> RoomState<'static> { m.into_owned() }
pub fn h_into_owned__UserNotice<'s>(m: UserNotice<'s>) -> UserNotice<'static> { m.into_owned() }
pub fn h_into_owned__UserState<'s>(m: UserState<'s>) -> UserState<'static> { m.into_owned() }
pub fn h_into_owned__Whisper<'s>(m: Whisper<'s>) -> Whisper<'static> { m.into_owned() }
pub fn h_into_owned__Badge<'s>(m: Badge<'s>) -> Badge<'static> { m.into_owned() }
pub fn h_into_owned__Subscriber<'s>(m: Subscriber<'s>) -> Subscriber<'static> { m.into_owned() }
pub fn h_into_owned__BadgeData<'s>(m: BadgeData<'s>) -> BadgeData<'static> { m.into_owned() }
pub fn h_into_owned__User<'s>(m: User<'s>) -> User<'static> { m.into_owned() }
pub fn h_into_owned__Action<'s>(m: Action<'s>) -> Action<'static> { m.into_owned() }
pub fn h_into_owned__Reply<'s>(m: Reply<'s>) -> Reply<'static> { m.into_owned() }
pub fn h_into_owned__PinnedChat<'s>(m: PinnedChat<'s>) -> PinnedChat<'static> { m.into_owned() }
pub fn h_into_owned__Event<'s>(m: Event<'s>) -> Event<'static> { m.into_owned() }
pub fn h_into_owned__SubGiftPromo<'s>(m: SubGiftPromo<'s>) -> SubGiftPromo<'static> { m.into_owned() }
pub fn h_badge_to_data<'s>(b: Badge<'s>) -> BadgeData<'s> { b.into() }
pub fn h_badge_as_data<'r, 's>(b: &'r Badge<'s>) -> BadgeData<'s> { b.as_badge_data() }
pub fn h_data_to_badge<'s>(b: BadgeData<'s>) -> Badge<'s> { b.into() }
pub fn h_pinned_level_from_str(s: &str) -> Option<PinnedChatLevel> { s.parse::<PinnedChatLevel>().ok() }
pub fn h_pinned_level_to_u8(x: PinnedChatLevel) -> u8 { x.into() }
pub fn h_pinned_level_from_u8(x: u8) -> Result<PinnedChatLevel, ()> { PinnedChatLevel::try_from(x) }
