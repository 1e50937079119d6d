M = 'src/msg.rs'; P = 'src/msg/privmsg.rs'; CC = 'src/msg/clear_chat.rs'; RS = 'src/msg/room_state.rs'; UN = 'src/msg/user_notice.rs'
RT = r'''
  #![allow(unused)]
  use tmi::{FromIrc, IrcMessageRef};
'''
DEPS = 'serde_json = "1"'
SEEDS = [
 dict(id='c12-bits-zero', prop='C12', feats='serde,message-types', deps=DEPS, edits=[(P, '''  bits: Option<u64>,

  #[cfg_attr''', '''  #[cfg_attr(
    feature = "serde",
    serde(default, skip_serializing_if = "no_bits")
  )]
  bits: Option<u64>,

  #[cfg_attr'''), (P, '''use std::borrow::Cow;
''', '''use std::borrow::Cow;

/// Messages without bits are written without the field.
#[cfg(feature = "serde")]
fn no_bits(bits: &Option<u64>) -> bool {
  bits.unwrap_or_default() == 0
}
''')],
  needs='a message with bits=0, written and read back', breaks='Some(0) bits read back as None',
  main=RT + r'''
  fn main() {
    for t in ["", "bits=1;", "bits=0;", "bits=100;", "bits=;"] {
      let l = format!("@badge-info=;badges=;{t}color=;display-name=a;emotes=;id=x;mod=0;room-id=1;subscriber=0;tmi-sent-ts=1594553828245;turbo=0;user-id=1;user-type= :a!a@a.tmi.twitch.tv PRIVMSG #a :hi");
      let a = tmi::Privmsg::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap();
      let s = serde_json::to_string(&a).unwrap();
      let b: tmi::Privmsg<'_> = serde_json::from_str(&s).unwrap();
      assert_eq!(a, b, "{l}");
    }
  }
  '''),
 dict(id='c12-borrow-only', prop='C12', feats='serde,message-types', deps=DEPS, edits=[(UN, '''pub struct Ritual<'src> {
  name: Cow<'src, str>,''', '''pub struct Ritual<'src> {
  #[cfg_attr(
    feature = "serde",
    serde(borrow, deserialize_with = "without_copy")
  )]
  name: Cow<'src, str>,'''), (UN, '''use std::borrow::Cow;
''', '''use std::borrow::Cow;

/// Reads a name in place.
#[cfg(feature = "serde")]
fn without_copy<'de: 'src, 'src, D>(deserializer: D) -> Result<Cow<'src, str>, D::Error>
where
  D: serde::Deserializer<'de>,
{
  <&'de str as serde::Deserialize<'de>>::deserialize(deserializer).map(Cow::Borrowed)
}
''')],
  needs='a ritual whose name the format has to escape, or a reader that does not keep its input', breaks='what was written is rejected',
  main=RT + r'''
  fn main() {
    for n in ["new_chatter", "x\"y", "caf\u{e9}", "a\\\\b"] {
      let l = format!("@badge-info=;badges=;color=;display-name=a;emotes=;id=x;login=a;mod=0;msg-id=ritual;msg-param-ritual-name={n};room-id=1;subscriber=0;system-msg=s;tmi-sent-ts=1594553828245;turbo=0;user-id=1;user-type= :tmi.twitch.tv USERNOTICE #a :hi");
      let a = tmi::UserNotice::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap();
      let s = serde_json::to_string(&a).unwrap();
      let b: tmi::UserNotice<'_> = serde_json::from_str(&s).unwrap();
      assert_eq!(a, b, "{l}");
    }
  }
  '''),
 dict(id='c12-months', prop='C12', feats='serde,message-types', deps=DEPS, edits=[(M, '        months_n: t.months.parse().unwrap_or(1),', '        months_n: t.months.parse::<u16>().map_or(1, u64::from),')],
  needs='a subscriber badge of more than 65535 months', breaks='the number of months reads back as 1',
  main=RT + r'''
  fn main() {
    for n in ["1", "0", "12", "x", "", "70000", "18446744073709551615", "18446744073709551616"] {
      let l = format!("@badge-info=subscriber/{n};badges=subscriber/0;color=;display-name=a;emotes=;id=x;mod=0;room-id=1;subscriber=0;tmi-sent-ts=1594553828245;turbo=0;user-id=1;user-type= :a!a@a.tmi.twitch.tv PRIVMSG #a :hi");
      let a = tmi::Privmsg::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap();
      let s = serde_json::to_string(&a).unwrap();
      let b: tmi::Privmsg<'_> = serde_json::from_str(&s).unwrap();
      assert_eq!(a, b, "{l}");
    }
  }
  '''),
 dict(id='c12-plain-chat', prop='C12', feats='serde,message-types', deps=DEPS, edits=[(CC, '''  serde(rename_all = "lowercase")
)]
pub enum Action<'src> {''', '''  serde(untagged)
)]
pub enum Action<'src> {'''), (CC, '''  /// A single user was banned, clearing only their messages.
  #[cfg_attr(feature = "serde", serde(borrow))]
  Ban(Ban<'src>),

  /// A single user was timed out, clearing only their messages.
  #[cfg_attr(feature = "serde", serde(borrow))]
  TimeOut(TimeOut<'src>),
}
''', '''  /// A single user was timed out, clearing only their messages.
  #[cfg_attr(feature = "serde", serde(borrow))]
  TimeOut(TimeOut<'src>),

  /// A single user was banned, clearing only their messages.
  #[cfg_attr(feature = "serde", serde(borrow, deserialize_with = "only_ban"))]
  Ban(Ban<'src>),
}

/// A ban lasts, so it must come without a duration.
#[cfg(feature = "serde")]
fn only_ban<'de: 'src, 'src, D>(deserializer: D) -> Result<Ban<'src>, D::Error>
where
  D: serde::Deserializer<'de>,
{
  let ban = <Ban<'src> as serde::Deserialize<'de>>::deserialize(deserializer)?;
  if ban.id.is_empty() {
    return Err(serde::de::Error::custom("not a ban"));
  }
  Ok(ban)
}
''')],
  needs='a ban whose target id is empty, written and read back', breaks='what was written is rejected',
  main=RT + r'''
  fn main() {
    for t in ["", "target-user-id=5;", "ban-duration=7;target-user-id=5;", "target-user-id=;", "ban-duration=7;target-user-id=;"] {
      for u in ["", " :b"] {
        let l = format!("@{t}room-id=1;tmi-sent-ts=1594553828245 :tmi.twitch.tv CLEARCHAT #a{u}");
        let Ok(a) = tmi::ClearChat::from_irc(IrcMessageRef::parse(&l).unwrap()) else { continue };
        let s = serde_json::to_string(&a).unwrap();
        let b: tmi::ClearChat<'_> = serde_json::from_str(&s).unwrap();
        assert_eq!(a, b, "{l}");
      }
    }
  }
  '''),
]
