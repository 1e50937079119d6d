"""Planted bugs in C23 (purity)."""
M = 'src/msg.rs'; I = 'src/irc.rs'
LINE = r'''
  #![allow(unused)]
  use tmi::{FromIrc, IrcMessageRef};
  fn line(ts: &str) -> String {
    format!("@badge-info=;badges=;color=;display-name=a;emotes=;id=x;mod=0;room-id=1;subscriber=0;tmi-sent-ts={ts};turbo=0;user-id=1;user-type= :a!a@a.tmi.twitch.tv PRIVMSG #a :hi")
  }
  fn at(ts: &str) -> i64 { let l = line(ts); tmi::Privmsg::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap().timestamp().timestamp_millis() }
'''
SEEDS = [
 dict(id='c23-second-memo', prop='C23', feats='message-types', edits=[(M, '''  chrono::Utc.timestamp_millis_opt(s.parse().ok()?).single()
''', '''  // bursts of messages carry the same timestamp: remember the last one
  std::thread_local! {
    static LAST: std::cell::Cell<(u64, i64)> = const { std::cell::Cell::new((0, 0)) };
  }
  let prefix = s.get(..10).and_then(|s| s.parse::<u64>().ok())?;
  let (key, millis) = LAST.with(|last| last.get());
  let millis = if key == prefix && s.ends_with("000") {
    millis
  } else {
    s.parse().ok()?
  };
  LAST.with(|last| last.set((prefix, millis)));
  chrono::Utc.timestamp_millis_opt(millis).single()
''')],
  needs='two messages parsed on one thread within the same second, the later one on the full second', breaks='the time of the second message is that of the first',
  main=LINE + r'''
  fn main() {
    assert_eq!(at("1594553828245"), 1594553828245);
    assert_eq!(at("1594553828000"), 1594553828000);
    assert_eq!(at("1594553829000"), 1594553829000);
  }
  '''),
 dict(id='c23-badge-table', prop='C23', feats='message-types', edits=[(M, '''    .flat_map(|info| info.split_once('/'))
    .collect::<SmallVec<[_; 32]>>();
''', '''    .flat_map(|info| info.split_once('/'))
    .enumerate()
    .map(|(i, info)| (i, info))
    .collect::<std::collections::HashMap<_, _>>()
    .into_values()
    .collect::<SmallVec<[_; 32]>>();
''')],
  needs='badge info that names a badge twice', breaks='which value is used depends on the random seed of a hash table: equal lines give different messages',
  main=LINE + r'''
  fn main() {
    let info: Vec<String> = (0..40).map(|i| format!("subscriber/{i}")).collect();
    let l = line("1594553828245").replace("badge-info=;badges=;", &format!("badge-info={};badges=subscriber/6;", info.join(",")));
    let parse = || tmi::Privmsg::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap();
    let first = parse();
    for _ in 0..50 { assert_eq!(first, parse()); }
  }
  '''),
 dict(id='c23-clock-skew', prop='C23', feats='message-types', edits=[(M, '''fn parse_duration(s: &str) -> Option<std::time::Duration> {
  Some(std::time::Duration::from_secs(s.parse().ok()?))
''', '''/// The longest timeout seen so far, for capping malformed values.
static LONGEST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1_209_600);

fn parse_duration(s: &str) -> Option<std::time::Duration> {
  use std::sync::atomic::Ordering;
  let secs: u64 = s.parse().ok()?;
  let longest = LONGEST.load(Ordering::Relaxed);
  if secs > 10 * longest {
    return Some(std::time::Duration::from_secs(longest));
  }
  LONGEST.fetch_max(secs, Ordering::Relaxed);
  Some(std::time::Duration::from_secs(secs))
''')],
  needs='a timeout far longer than any seen before, then again after longer ones were seen', breaks='the duration in a message depends on which messages were parsed before',
  main=r'''
  use tmi::{FromIrc, IrcMessageRef};
  #[allow(unused)]
  fn secs(n: u64) -> u64 {
    let l = format!("@ban-duration={n};room-id=1;target-user-id=2;tmi-sent-ts=1594553828245 :tmi.twitch.tv CLEARCHAT #a :b");
    let m = tmi::ClearChat::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap();
    match m.action() { tmi::Action::TimeOut(t) => t.duration().as_secs(), _ => unreachable!() }
  }
  fn main() {
    let a = secs(20_000_000); secs(5_000_000); let b = secs(20_000_000);
    assert_eq!((a, b), (20_000_000, 20_000_000));
  }
  '''),
]
