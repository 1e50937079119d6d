TYPED = 'use tmi::{FromIrc, IrcMessageRef};\n'
SEEDS = [
 dict(id='c08-ban-duration', prop='C08', edits=[('src/msg.rs', 'Some(std::time::Duration::from_secs(s.parse().ok()?))', 'Some(std::time::Duration::from_secs(u64::from(s.parse::<u16>().ok()?)))')],
  needs='a ban-duration above 65535 seconds', breaks='a timeout longer than 65535 s (up to two weeks are allowed) is parsed as a permanent ban',
  main=r'''
  use tmi::{FromIrc, IrcMessageRef};
  fn main() {
    for secs in [1u64, 600, 65535, 65536, 1209600] {
      let l = format!("@ban-duration={secs};room-id=1;target-user-id=2;tmi-sent-ts=1594553828245 :tmi.twitch.tv CLEARCHAT #a :b");
      let m = tmi::ClearChat::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap();
      match m.action() {
        tmi::msg::clear_chat::Action::TimeOut(t) => assert_eq!(t.duration().as_secs(), secs),
        a => panic!("{secs}: {a:?}"),
      }
    }
  }
  '''),
 dict(id='c09-anon-gifter', prop='C09', edits=[('src/msg/user_notice.rs', '''      "submysterygift" if sender_id == AN_ANONYMOUS_GIFTER => (
        Event::AnonSubMysteryGift(AnonSubMysteryGift {
          count: message
            .tag(Tag::MsgParamMassGiftCount)
            .and_then(|v| v.parse().ok())?,
          sub_plan: message.tag(Tag::MsgParamSubPlan)?.into(),
        }),
        true,
      ),''', '''      "submysterygift" if sender_id == AN_ANONYMOUS_GIFTER => (
        Event::AnonSubMysteryGift(AnonSubMysteryGift {
          count: message
            .tag(Tag::MsgParamMassGiftCount)
            .and_then(|v| v.parse().ok())?,
          sub_plan: message.tag(Tag::MsgParamSubPlan)?.into(),
        }),
        message.tag(Tag::DisplayName) == Some("AnAnonymousGifter"),
      ),''')],
  needs='a submysterygift from the anonymous gifter account whose display name is spelled differently', breaks='the sender of an anonymous mystery gift is exposed as if it were a named user',
  main=r'''
  use tmi::{FromIrc, IrcMessageRef};
  fn main() {
    for name in ["AnAnonymousGifter", "ananonymousgifter", ""] {
      let l = format!("@badge-info=;badges=;color=;display-name={name};emotes=;flags=;id=x;login=ananonymousgifter;mod=0;msg-id=submysterygift;msg-param-mass-gift-count=10;msg-param-sub-plan=1000;room-id=1;subscriber=0;system-msg=a;tmi-sent-ts=1594553828245;user-id=274598607;user-type= :tmi.twitch.tv USERNOTICE #a");
      let m = tmi::UserNotice::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap();
      assert!(m.sender().is_none(), "{name}");
    }
  }
  '''),
 dict(id='c02-blank-params', prop='C02', edits=[('src/irc/params.rs', 'if !src[*pos..].is_empty() {', 'if !src[*pos..].trim_start().is_empty() {')],
  needs='a line whose remaining text is only whitespace', breaks='params consisting of spaces are dropped instead of being returned as they are',
  main=r'''
  fn main() {
    let m = tmi::IrcMessageRef::parse("PRIVMSG #a  ").unwrap();
    assert_eq!(m.params(), Some(" "));
    let m = tmi::IrcMessageRef::parse("PRIVMSG #a :x").unwrap();
    assert_eq!(m.params(), Some(":x"));
  }
  '''),
 dict(id='c05-owned-tag-order', prop='C05', edits=[('src/irc.rs', '''      .find(|pair| &self.src.as_str()[pair.key()] == tag.as_str())''', '''      .filter(|pair| &self.src.as_str()[pair.key()] == tag.as_str())
      .last()''')],
  needs='a message in which a tag key occurs twice', breaks='the owned message returns the last of two equal keys where the borrowed one returns the first',
  main=r'''
  fn main() {
    let l = "@a=1;b=2;a=3 :x PING";
    let r = tmi::IrcMessageRef::parse(l).unwrap();
    let o = tmi::IrcMessage::parse(l).unwrap();
    assert_eq!(r.tag("a"), Some("1"));
    assert_eq!(o.tag("a"), r.tag("a"));
    assert_eq!(r.into_owned().tag("a"), Some("1"));
  }
  '''),
 dict(id='c07-ping-command', prop='C07', edits=[('src/msg/ping.rs', 'if message.command() != Command::Ping {', 'if !matches!(message.command(), Command::Ping | Command::Pong) {')],
  needs='a PONG message converted directly to the ping type', breaks='a PONG converts to a Ping instead of failing',
  main=r'''
  use tmi::{FromIrc, IrcMessageRef};
  fn main() {
    assert!(tmi::Ping::from_irc(IrcMessageRef::parse("PING :a").unwrap()).is_ok());
    for l in ["PONG :a", ":tmi.twitch.tv PONG tmi.twitch.tv :x", "PRIVMSG #a :x"] {
      assert!(tmi::Ping::from_irc(IrcMessageRef::parse(l).unwrap()).is_err(), "{l}");
    }
  }
  '''),
 dict(id='c25-level-ten', prop='C25', edits=[('src/msg/privmsg.rs', 'if value < PinnedChatLevel::MIN as u8 || value > PinnedChatLevel::MAX as u8 {', 'if value < PinnedChatLevel::MIN as u8 || value >= PinnedChatLevel::MAX as u8 {')],
  needs='the highest level, 9', breaks='the highest pinned chat level cannot be read back from its number',
  main=r'''
  use tmi::msg::privmsg::PinnedChatLevel as L;
  fn main() {
    for i in 0..=255u8 {
      match L::try_from(i) { Ok(l) => { assert!(i <= 9); assert_eq!(u8::from(l), i); } Err(_) => assert!(i > 9, "{i}") }
    }
  }
  '''),
]
