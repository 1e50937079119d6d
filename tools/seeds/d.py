I = 'src/irc.rs'; PM = 'src/msg/privmsg.rs'; M = 'src/msg.rs'; WH = 'src/msg/whisper.rs'
SEEDS = [
 dict(id='c01-names-cut', prop='C01', edits=[(I, '''        .and_then(|params| params.split_whitespace().nth(1)),
      _ => self.parts.channel.map(|span| &self.src[span]),''', '''        .and_then(|params| params.split_whitespace().nth(1))
        .map(|name| &name[..name.len().min(26)]),
      _ => self.parts.channel.map(|span| &self.src[span]),''')],
  needs='an end-of-names reply whose channel word is longer than 26 bytes with a multi-byte character across byte 26', breaks='channel() panics on such a line',
  main=r'''
  fn main() {
    for w in ["#jerma985", "xxxxxxxxxxxxxxxxxxxxxxxxx", "#xxxxxxxxxxxxxxxxxxxxxxxx\u{e9}x", "\u{3042}\u{3042}\u{3042}\u{3042}\u{3042}\u{3042}\u{3042}\u{3042}\u{3042}\u{3042}"] {
      let l = format!(":tmi.twitch.tv 366 justinfan1 {w} :End of /NAMES list");
      let m = tmi::IrcMessageRef::parse(&l).unwrap();
      let _ = m.channel();
    }
  }
  '''),
 dict(id='c01-badge-version', prop='C01', edits=[(M, '''    .flat_map(|badge| badge.split_once('/'))''', '''    .map(|badge| badge.split_at(badge.find('/').unwrap_or(badge.len())))
    .map(|(name, version)| (name, &version[1..]))''')],
  needs='a badge without a version', breaks='converting a message with such a badge panics',
  main=r'''
  use tmi::{FromIrc, IrcMessageRef};
  fn main() {
    for b in ["", "subscriber/0", "moderator/1,subscriber/12", "moderator", "moderator/1,", "/"] {
      let l = format!("@badge-info=;badges={b};color=;display-name=a;emotes=;id=x;mod=0;room-id=1;subscriber=0;tmi-sent-ts=1594553828245;turbo=0;user-id=1;user-type= :a!a@a.tmi.twitch.tv PRIVMSG #a :hi");
      let _ = tmi::Privmsg::from_irc(IrcMessageRef::parse(&l).unwrap());
    }
  }
  '''),
 dict(id='c01-action-end', prop='C01', edits=[(M, '''  let Some(s) = s.strip_suffix('\\u{0001}') else {
    return (input, false);
  };
  (s, true)''', '''  // the marker at the end
  (&s[..s.len() - 1], true)''')],
  needs='an action message that ends right after its opening marker, or in a multi-byte character', breaks='converting the message panics instead of treating the text as it is',
  main=r'''
  use tmi::{FromIrc, IrcMessageRef};
  fn main() {
    for t in ["\u{1}ACTION waves\u{1}", "\u{1}ACTION ", "\u{1}ACTION \u{1}", "\u{1}ACTION caf\u{e9}", "hi"] {
      let l = format!("@badge-info=;badges=;color=;display-name=a;emotes=;id=x;mod=0;room-id=1;subscriber=0;tmi-sent-ts=1594553828245;turbo=0;user-id=1;user-type= :a!a@a.tmi.twitch.tv PRIVMSG #a :{t}");
      let _ = tmi::Privmsg::from_irc(IrcMessageRef::parse(&l).unwrap());
    }
  }
  '''),
]
