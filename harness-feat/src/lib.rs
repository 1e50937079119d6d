//! Type-level witnesses: this crate type-checks under a combination of features if and only if tmi exposes what the
//! combination promises, nothing else of the gated parts, and its types keep their thread-safety.
#![allow(unused, non_snake_case, non_camel_case_types)]
fn send<T: ?Sized + Send>() {}
fn sync<T: ?Sized + Sync>() {}
fn send_v<T: Send>(_: T) {}
fn send_fut<F: std::future::Future + Send>(_: F) where F::Output: Send {}

// the parser: always there
mod parser {
  use super::*;
  pub fn witness__IrcMessageRef__threads<'s>() { send::<tmi::IrcMessageRef<'s>>(); sync::<tmi::IrcMessageRef<'s>>(); }
  pub fn witness__IrcMessage__threads() { send::<tmi::IrcMessage>(); sync::<tmi::IrcMessage>(); }
  pub fn witness__parts__threads<'s>() {
    send::<tmi::Tag<'s>>(); sync::<tmi::Tag<'s>>(); send::<tmi::Command<'s>>(); sync::<tmi::Command<'s>>();
    send::<tmi::Prefix<'s>>(); sync::<tmi::Prefix<'s>>();
  }
  pub fn witness__parser__exposed<'s>(s: &'s str) {
    let m: Option<tmi::IrcMessageRef<'s>> = tmi::IrcMessageRef::parse(s);
    let o: Option<tmi::IrcMessage> = tmi::IrcMessage::parse(s.to_owned());
    let Some(m) = m else { return };
    let _: tmi::Command<'s> = m.command(); let _: Option<tmi::Prefix<'s>> = m.prefix();
    let _: Option<&'s str> = m.tag(tmi::Tag::Id); let _: Option<&'s str> = m.params(); let _: Option<&'s str> = m.text();
    let _: Option<&'s str> = m.channel(); let _: &str = m.raw(); for (k, v) in m.tags() { let _ = (k, v); }
    let _ = tmi::maybe_unescape(s); let _ = tmi::irc::IrcMessageRef::parse(s);
  }
}

#[cfg(feature = "message-types")]
mod types {
  use super::*;
  macro_rules! threads { ($($n:ident: $t:ty;)*) => { $(pub fn $n<'s>() { send::<$t>(); sync::<$t>(); })* } }
  threads! {
    witness__Message__threads: tmi::Message<'s>;
    witness__Badge__threads: tmi::Badge<'s>;
    witness__Subscriber__threads: tmi::msg::Subscriber<'s>;
    witness__BadgeData__threads: tmi::BadgeData<'s>;
    witness__User__threads: tmi::User<'s>;
    witness__ClearChat__threads: tmi::ClearChat<'s>;
    witness__Action__threads: tmi::Action<'s>;
    witness__Ban__threads: tmi::Ban<'s>;
    witness__TimeOut__threads: tmi::TimeOut<'s>;
    witness__ClearMsg__threads: tmi::ClearMsg<'s>;
    witness__GlobalUserState__threads: tmi::GlobalUserState<'s>;
    witness__Join__threads: tmi::Join<'s>;
    witness__Notice__threads: tmi::Notice<'s>;
    witness__Part__threads: tmi::Part<'s>;
    witness__Ping__threads: tmi::Ping<'s>;
    witness__Pong__threads: tmi::Pong<'s>;
    witness__Privmsg__threads: tmi::Privmsg<'s>;
    witness__Reply__threads: tmi::Reply<'s>;
    witness__PinnedChat__threads: tmi::PinnedChat<'s>;
    witness__PinnedChatLevel__threads: tmi::PinnedChatLevel;
    witness__RoomState__threads: tmi::RoomState<'s>;
    witness__FollowersOnly__threads: tmi::FollowersOnly;
    witness__UserNotice__threads: tmi::UserNotice<'s>;
    witness__Event__threads: tmi::Event<'s>;
    witness__SubOrResub__threads: tmi::SubOrResub<'s>;
    witness__Raid__threads: tmi::Raid<'s>;
    witness__SubGift__threads: tmi::SubGift<'s>;
    witness__SubMysteryGift__threads: tmi::SubMysteryGift<'s>;
    witness__AnonSubMysteryGift__threads: tmi::AnonSubMysteryGift<'s>;
    witness__GiftPaidUpgrade__threads: tmi::GiftPaidUpgrade<'s>;
    witness__AnonGiftPaidUpgrade__threads: tmi::AnonGiftPaidUpgrade<'s>;
    witness__Ritual__threads: tmi::Ritual<'s>;
    witness__BitsBadgeTier__threads: tmi::BitsBadgeTier;
    witness__Announcement__threads: tmi::Announcement<'s>;
    witness__SubGiftPromo__threads: tmi::SubGiftPromo<'s>;
    witness__UserState__threads: tmi::UserState<'s>;
    witness__Whisper__threads: tmi::Whisper<'s>;
    witness__MessageParseError__threads: tmi::MessageParseError;
  }
  pub fn witness__types__exposed<'s>(m: tmi::IrcMessageRef<'s>) {
    use tmi::FromIrc;
    let _ = tmi::Message::from_irc(m.clone()); let _: Result<tmi::Message<'s>, _> = m.as_typed();
  }
}

#[cfg(feature = "client")]
mod client {
  use super::*;
  pub fn witness__Client__threads() { send::<tmi::Client>(); sync::<tmi::Client>(); }
  pub fn witness__Credentials__threads() { send::<tmi::Credentials>(); sync::<tmi::Credentials>(); }
  pub fn witness__connect__future() { send_fut(tmi::Client::builder().credentials(tmi::Credentials::anon()).connect()); }
  pub fn witness__anonymous__future() { send_fut(tmi::Client::anonymous()); }
  pub fn witness__reconnect__future(c: &mut tmi::Client) { send_fut(c.reconnect()); }
  pub fn witness__recv__future(c: &mut tmi::Client) { send_fut(c.recv()); }
  pub fn witness__send_raw__future(c: &mut tmi::Client) { send_fut(c.send_raw("X\r\n")); }
  pub fn witness__privmsg__future(c: &mut tmi::Client) { send_fut(c.privmsg("#a", "b").reply_to("x").client_nonce("y").send()); }
  pub fn witness__ping__future(c: &mut tmi::Client) { send_fut(c.ping("x")); }
  pub fn witness__join__future(c: &mut tmi::Client) { send_fut(c.join("#a")); }
  pub fn witness__join_all__future(c: &mut tmi::Client) { send_fut(c.join_all(vec![String::from("#a")])); }
  pub fn witness__join_all_ref__future(c: &mut tmi::Client, v: &[&str]) { send_fut(c.join_all(v)); }
  #[cfg(feature = "message-types")]
  pub fn witness__pong__future(c: &mut tmi::Client, p: &tmi::Ping<'_>) { send_fut(c.pong(p)); }
}

#[cfg(all(feature = "serde", feature = "message-types"))]
mod serialisation {
  fn ser<T: serde::Serialize + serde::Deserialize<'static>>() {}
  pub fn witness__serde__exposed() { ser::<tmi::Privmsg<'static>>(); ser::<tmi::Badge<'static>>(); ser::<tmi::UserNotice<'static>>(); ser::<tmi::PinnedChatLevel>(); }
}

// What is not enabled is not there: a name which two globs bring in is ambiguous, so each use below is an error as
// soon as tmi has that name too.
mod absent {
  mod fallback {
    pub mod msg { pub struct Absent; }
    pub mod client { pub struct Absent; }
    pub struct Message; pub struct Privmsg; pub struct UserNotice; pub struct Badge; pub struct Client; pub struct Credentials;
  }
  mod both { pub use super::fallback::*; pub use tmi::*; }
  #[cfg(not(feature = "message-types"))]
  pub fn witness__types__absent(_: both::Message, _: both::Privmsg, _: both::UserNotice, _: both::Badge, _: both::msg::Absent) {}
  #[cfg(not(feature = "client"))]
  pub fn witness__client__absent(_: both::Client, _: both::Credentials, _: both::client::Absent) {}
}
#[cfg(all(not(feature = "serde"), feature = "message-types"))]
mod no_serialisation {
  // two impls apply to a serialisable type, so `f` is ambiguous for it
  trait Probe<A> { fn f() {} }
  impl<T: ?Sized> Probe<()> for T {}
  struct Yes;
  impl<T: ?Sized + serde::Serialize> Probe<Yes> for T {}
  pub fn witness__serde__absent() { <tmi::Privmsg<'static> as Probe<_>>::f(); <tmi::Badge<'static> as Probe<_>>::f(); <tmi::UserNotice<'static> as Probe<_>>::f(); }
}
