"""Planted bugs: sizes beyond what a bounded exploration reaches."""
PF='src/irc/prefix.rs'
SEEDS = [
 dict(id='c02-long-prefix', prop='C02', edits=[(PF, 'for i in start..bytes.len() {', '// a whole line was once limited to this\n  for i in start..bytes.len().min(start + 512) {')],
  needs='a line whose prefix is longer than 512 bytes', breaks='the prefix is not recognised and ends up as the command',
  main=r'''
  #![allow(unused)]
  use tmi::{IrcMessage, IrcMessageRef};
  use tmi::*;
  fn main() {
    for n in [1usize, 60, 500, 600, 5000] {
      let h = "h".repeat(n);
      let line = format!(":nick!user@{h} PING :x");
      let m = IrcMessageRef::parse(&line).expect("a message");
      assert_eq!(m.command(), Command::Ping, "{n}");
      let p = m.prefix().expect("a prefix");
      assert_eq!((p.nick, p.user, p.host), (Some("nick"), Some("user"), h.as_str()));
    }
  }
  '''),
]
