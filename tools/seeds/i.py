"""Planted bugs: parser and typed messages, second round."""
T = 'src/irc/tags.rs'; CM = 'src/irc/command.rs'; M = 'src/msg.rs'; UN = 'src/msg/user_notice.rs'; P = 'src/msg/privmsg.rs'; WH = 'src/msg/whisper.rs'; I = 'src/irc.rs'; L = 'src/lib.rs'; CC = 'src/msg/clear_chat.rs'
USE = r'''
  #![allow(unused)]
  use tmi::{FromIrc, IrcMessage, IrcMessageRef, Command, Tag};
  use tmi::*;
'''
SUB = r'''
  fn sub(id: &str, extra: &str) -> String {
    format!("@badge-info=;badges=;color=;display-name=a;emotes=;flags=;id=x;login=a;mod=0;msg-id={id};{extra}msg-param-cumulative-months=3;msg-param-sub-plan-name=n;msg-param-sub-plan=1000;room-id=1;subscriber=1;system-msg=;tmi-sent-ts=1582685713242;user-id=2;user-type= :tmi.twitch.tv USERNOTICE #a")
  }
'''
SEEDS = [
 dict(id='c06-no-motd', prop='C06', edits=[(CM, '''    "376" => C::RplEndOfMotd,
''', '''    "376" | "422" => C::RplEndOfMotd,
''')],
  needs='the reply a server without a message of the day sends (422)', breaks='the command 422 reads as 376: its text is lost',
  main=USE + r'''
  fn main() {
    for c in ["376", "375", "422", "421", "NOTICE", "notice"] {
      let l = format!(":tmi.twitch.tv {c} a :b");
      let m = IrcMessageRef::parse(&l).unwrap();
      assert_eq!(m.command().as_str(), c);
      assert_eq!(m.command().to_string(), c);
    }
  }
  '''),
 dict(id='c06-client-tag', prop='C06', edits=[(T, '''    Tag::parse(value)
''', '''    // client-only tags carry a `+` before their name
    match Tag::parse(value.strip_prefix('+').unwrap_or(value)) {
      Tag::Unknown(_) => Tag::Unknown(value),
      tag => tag,
    }
''')],
  needs='a client-only tag whose name is that of a known tag', breaks='`+id` converts to the tag `id`: a lookup by name finds another tag',
  main=USE + r'''
  fn main() {
    for c in ["id", "+id", "+x", "", "+", "+badges"] { assert_eq!(Tag::from(c).as_str(), c); assert_eq!(Tag::from(c), Tag::parse(c)); }
  }
  '''),
 dict(id='c10-owned-streak', prop='C10', feats='message-types', edits=[(UN, '''        streak_months: v.streak_months,
''', '''        streak_months: v.streak_months.filter(|_| v.is_resub),
''')],
  needs='a first subscription that carries a streak', breaks='the streak is dropped by into_owned',
  main=USE + SUB + r'''
  fn main() {
    for id in ["sub", "resub"] { for x in ["", "msg-param-streak-months=0;", "msg-param-streak-months=7;"] {
      let l = sub(id, x);
      let m = UserNotice::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap();
      assert_eq!(m.clone().into_owned(), m);
    } }
  }
  '''),
 dict(id='c10-empty-extra', prop='C10', feats='message-types', edits=[(M, '''      extra: self.extra.map(maybe_clone),
''', '''      extra: self.extra.filter(is_not_empty).map(maybe_clone),
''')],
  needs='a badge with an empty entry in the badge info', breaks='the empty extra becomes None in the owned message',
  main=USE + r'''
  fn main() {
    for i in ["", "x/", "x/1", "predictions/", "predictions/blue"] {
      let l = format!("@badge-info={i};badges=predictions/1,vip/1;color=;display-name=a;emotes=;id=x;mod=0;room-id=1;tmi-sent-ts=1594553828245;user-id=1 :a!a@a.tmi.twitch.tv PRIVMSG #a :hi");
      let m = Privmsg::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap();
      assert_eq!(m.clone().into_owned(), m);
    }
  }
  '''),
 dict(id='c11-empty-name', prop='C11', feats='message-types', edits=[(M, '''    name -> Cow<'src, str> = maybe_unescape(self.name.clone()),
''', '''    name -> Cow<'src, str> = maybe_unescape(if self.name.is_empty() {
      self.login.clone()
    } else {
      self.name.clone()
    }),
''')],
  needs='a user whose display name is empty', breaks='the accessor of the display name gives the login',
  main=USE + r'''
  fn main() {
    for n in ["", "A", "a"] {
      let l = format!("@badge-info=;badges=;color=;display-name={n};emotes=;id=x;mod=0;room-id=1;tmi-sent-ts=1594553828245;user-id=1 :a!a@a.tmi.twitch.tv PRIVMSG #a :hi");
      let m = Privmsg::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap();
      assert_eq!(m.sender().name(), n);
    }
  }
  '''),
 dict(id='c11-months', prop='C11', feats='message-types', edits=[(M, '''          .and_then(|v| v.parse().ok())
          .unwrap_or(1),
''', '''          .and_then(|v| v.parse::<u16>().ok())
          .unwrap_or(1)
          .into(),
''')],
  needs='a subscriber badge with more months than fit in 16 bits', breaks='the months of the badge are 1 and do not agree with its data',
  main=USE + r'''
  fn main() {
    for n in [0u64, 1, 12, 65535, 65536, u64::MAX] {
      let l = format!("@badge-info=subscriber/{n};badges=subscriber/12;color=;display-name=a;emotes=;id=x;mod=0;room-id=1;tmi-sent-ts=1594553828245;user-id=1 :a!a@a.tmi.twitch.tv PRIVMSG #a :hi");
      let m = Privmsg::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap();
      let b = m.badges().next().unwrap();
      match b { Badge::Subscriber(s) => assert_eq!(s.months(), n), _ => panic!() }
    }
  }
  '''),
 dict(id='c02-trailing-space', prop='C02', edits=[('src/irc/params.rs', '''  if !src[*pos..].is_empty() {
    Some(Span::from(*pos..src.len()))
''', '''  let end = src.trim_end_matches([' ', '\\r', '\\n']).len();
  if *pos < end {
    Some(Span::from(*pos..end))
''')],
  needs='a message that ends in a space', breaks='the trailing spaces are cut off the params and the text',
  main=USE + r'''
  fn main() {
    for t in [":hi", ":hi ", ": ", "a ", " ", ":a b  "] {
      let l = format!(":a!a@a PRIVMSG #c {t}");
      assert_eq!(IrcMessageRef::parse(&l).unwrap().params(), Some(t));
      assert_eq!(IrcMessage::parse(&l).unwrap().params(), Some(t));
    }
  }
  '''),
 dict(id='c05-owned-text', prop='C05', edits=[(I, '''      Some(params) => match params.find(':') {
        Some(start) => Some(&params[start + 1..]),
        None => Some(params),
      },
      None => None,''', '''      Some(params) => match params.find(" :") {
        Some(start) => Some(&params[start + 2..]),
        None => Some(params.strip_prefix(':').unwrap_or(params)),
      },
      None => None,''')],
  needs='a colon inside the params of an owned message', breaks='the owned message and the reference give different texts',
  main=USE + r'''
  fn main() {
    for t in [":hi", "a :hi", "a", ":hi :)", "x:y", "x:y :z"] {
      let l = format!(":a!a@a PRIVMSG #c {t}");
      assert_eq!(IrcMessageRef::parse(&l).unwrap().text(), IrcMessage::parse(&l).unwrap().text(), "{t}");
    }
  }
  '''),
 dict(id='c07-fallback', prop='C07', feats='message-types', edits=[(M, '''      C::Notice => Notice::from_irc(message)?.into(),
''', '''      C::Notice if message.channel().is_some() => Notice::from_irc(message)?.into(),
''')],
  needs='a notice that is not for a channel', breaks='a global notice becomes Message::Other',
  main=USE + r'''
  fn main() {
    for l in ["@msg-id=x :tmi.twitch.tv NOTICE #a :hi", ":tmi.twitch.tv NOTICE * :Login authentication failed"] {
      let m = IrcMessageRef::parse(l).unwrap();
      assert_eq!(Notice::from_irc(m.clone()).is_ok(), matches!(m.as_typed(), Ok(Message::Notice(_))), "{l}");
    }
  }
  '''),
 dict(id='c08-whisper-colon', prop='C08', feats='message-types', edits=[(WH, '''let (recipient, text) = message.params()?.split_once(" :")?;''', '''let (recipient, text) = message.params()?.rsplit_once(" :")?;''')],
  needs='a whisper whose text contains a space and a colon', breaks='the text is cut and part of it ends up in the recipient',
  main=USE + r'''
  fn main() {
    for t in ["hi", "a :b", ":)", "x :) :("] {
      let l = format!("@badges=;color=;display-name=a;emotes=;user-id=1 :a!a@a WHISPER b :{t}");
      let m = Whisper::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap();
      assert_eq!((m.recipient(), m.text()), ("b", t));
    }
  }
  '''),
 dict(id='c08-reply-partial', prop='C08', feats='message-types', edits=[(P, '''    let bits = message.tag(Tag::Bits).and_then(|bits| bits.parse().ok());
''', '''    let bits = message
      .tag(Tag::Bits)
      .and_then(|bits| bits.parse::<u32>().ok())
      .map(u64::from);
''')],
  needs='a number of bits that does not fit in 32 bits', breaks='the bits are missing',
  main=USE + r'''
  fn main() {
    for n in [0u64, 1, 100, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX] {
      let l = format!("@badge-info=;badges=;bits={n};color=;display-name=a;emotes=;id=x;mod=0;room-id=1;tmi-sent-ts=1594553828245;user-id=1 :a!a@a.tmi.twitch.tv PRIVMSG #a :hi");
      assert_eq!(Privmsg::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap().bits(), Some(n));
    }
  }
  '''),
 dict(id='c09-negative-tier', prop='C09', feats='message-types', edits=[(UN, '''      "giftpaidupgrade" => (
        Event::GiftPaidUpgrade(GiftPaidUpgrade {
          gifter_login: message.tag(Tag::MsgParamSenderLogin)?.into(),
          gifter_name: message.tag(Tag::MsgParamSenderName)?.into(),
          promotion: parse_promotion(&message),
        }),
        false,
''', '''      "giftpaidupgrade" => (
        Event::GiftPaidUpgrade(GiftPaidUpgrade {
          gifter_login: message.tag(Tag::MsgParamSenderLogin)?.into(),
          gifter_name: message.tag(Tag::MsgParamSenderName)?.into(),
          promotion: parse_promotion(&message),
        }),
        message.tag(Tag::MsgParamSenderLogin)? == "ananonymousgifter",
''')],
  needs='an upgrade from a gift that was given anonymously', breaks='the user who upgrades is missing from the message',
  main=USE + r'''
  fn main() {
    for g in ["bob", "ananonymousgifter"] {
      let l = format!("@badge-info=;badges=;color=;display-name=a;emotes=;id=x;login=a;mod=0;msg-id=giftpaidupgrade;msg-param-sender-login={g};msg-param-sender-name=G;room-id=1;system-msg=;tmi-sent-ts=1582685713242;user-id=2;user-type= :tmi.twitch.tv USERNOTICE #a");
      let m = UserNotice::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap();
      assert_eq!(m.sender().map(|s| s.login().to_string()).as_deref(), Some("a"));
    }
  }
  '''),
 dict(id='c13-sticky-newline', prop='C13', edits=[(L, """        out.push('\\n');
        escape = false;
""", """        out.push('\\n');
""")],
  needs='an escaped line feed directly followed by one of `: s r n`', breaks='the character after an escaped line feed is unescaped as well',
  main=r'''
  fn main() {
    assert_eq!(tmi::maybe_unescape(r"a\nb\sc"), "a\nb c");
    assert_eq!(tmi::maybe_unescape(r"a\nso"), "a\nso");
    assert_eq!(tmi::maybe_unescape(r"\n:\n"), "\n:\n");
  }
  '''),
]
