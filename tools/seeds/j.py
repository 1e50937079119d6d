"""Planted bugs: the client again, and text, badges and serialization."""
import runpy, os
LOGIN = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b.py'))['LOGIN']
C='src/client.rs'; N='src/client/conn.rs'; MC='src/client/macros.rs'; R='src/client/read.rs'; W='src/client/write.rs'; U='src/client/util.rs'
L='src/lib.rs'; M='src/msg.rs'; P='src/msg/privmsg.rs'; RS='src/msg/room_state.rs'; UN='src/msg/user_notice.rs'; NO='src/msg/notice.rs'
DEPS = 'serde_json = "1"'
USE = r'''
  #![allow(unused)]
  use tmi::{FromIrc, IrcMessage, IrcMessageRef};
  use tmi::*;
'''
SEEDS = [
 dict(id='c12-exponent-sign', prop='C12', feats='serde,message-types', deps=DEPS, edits=[(P, '''  paid_exponent: i64,''', '''  #[cfg_attr(
    feature = "serde",
    serde(serialize_with = "exponent", rename(serialize = "exponent"), alias = "exponent")
  )]
  paid_exponent: i64,'''), (P, '''use std::str::FromStr;
''', '''use std::str::FromStr;

/// The exponent is never negative.
#[cfg(feature = "serde")]
fn exponent<S: serde::Serializer>(value: &i64, serializer: S) -> Result<S::Ok, S::Error> {
  serializer.serialize_u64(value.unsigned_abs())
}
'''),],
  needs='a pinned chat with a negative exponent, written and read back', breaks='the sign of the exponent is lost',
  main=USE + r'''
  fn main() {
    for e in ["2", "0", "-2"] {
      let l = format!("@badge-info=;badges=;color=;display-name=a;emotes=;id=x;mod=0;room-id=1;subscriber=0;tmi-sent-ts=1594553828245;turbo=0;user-id=1;user-type=;pinned-chat-paid-amount=200;pinned-chat-paid-currency=EUR;pinned-chat-paid-exponent={e};pinned-chat-paid-is-system-message=0;pinned-chat-paid-level=ONE :a!a@a.tmi.twitch.tv PRIVMSG #a :hi");
      let a = tmi::Privmsg::from_irc(IrcMessageRef::parse(&l).unwrap()).unwrap();
      assert!(a.pinned_chat().is_some());
      let s = serde_json::to_string(&a).unwrap();
      let b: tmi::Privmsg<'_> = serde_json::from_str(&s).unwrap();
      assert_eq!(a, b, "{l}");
    }
  }
  '''),
 dict(id='c13-ascii-copy', prop='C13', edits=[(L, """  for char in input[start..].chars() {
    match char {""", """  let mut rest = input[start..].char_indices().peekable();
  while let Some((at, char)) = rest.next() {
    match char {
      // `\\\\s` at the end stands for itself
      '\\\\' if !escape && rest.peek().is_some() && input[start + at..] == *"\\\\s" => break,""")],
  needs='a value whose very last character is an escaped space', breaks='the trailing escaped space is dropped',
  main=USE + r'''
  fn main() {
    for (a, b) in [("a\\sb", "a b"), ("\\s", " "), ("a\\s\\s", "a  "), ("x\\s", "x "), ("\\\\s", "\\s"), ("\\\\\\s", "\\ ")] { assert_eq!(maybe_unescape(a), b, "{a:?}"); }
  }
  '''),
 dict(id='c16-stale-scratch', prop='C16', kit=1, edits=[(MC, '''    scratch.clear();
    $client.scratch = scratch;
    result''', '''    if result.is_ok() {
      scratch.clear();
    }
    $client.scratch = scratch;
    result''')],
  needs='a failed send, followed by a successful reconnection', breaks='the text of the message that failed is sent as part of the next one',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let d = Duration::from_millis(10);
    let (mut c, p, _) = up(&s, Client::builder().backoff(Backoff { max_tries: Some(3), initial_delay: d, delay_multiplier: 1, max_delay: d })).await;
    drop(p);
    let mut failed = false;
    for _ in 0..200 {
      if c.privmsg("#a", "lost").send().await.is_err() { failed = true; break }
      tokio::time::sleep(Duration::from_millis(10)).await;
    }
    assert!(failed, "expected the connection to fail");
    let (r, mut p) = tokio::join!(c.reconnect(), s.login());
    r.unwrap();
    c.privmsg("#a", "next").send().await.unwrap();
    assert_eq!(p.0.lines(1).await, "PRIVMSG #a :next\r\n");
  }
  '''),
 dict(id='c15-short-channel', prop='C15', kit=1, edits=[(W, '''    if !channel.starts_with('#') {''', '''    if &channel[..1] != "#" {''')],
  needs='a channel name that is empty or starts with a character that is not ASCII', breaks='joining panics',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let (mut c, mut p, _) = up(&s, Client::builder()).await;
    for (t, w) in [("a", "#a"), ("#a", "#a"), ("\u{e9}a", "#\u{e9}a"), ("", "#")] {
      c.join(t).await.unwrap();
      assert_eq!(p.lines(1).await, format!("JOIN {w}\r\n"));
    }
  }
  '''),
 dict(id='c15-tag-order', prop='C15', kit=1, edits=[(W, """        let tags = reply_parent_msg_id
          .iter()
          .chain(client_nonce.iter())
          .join(';');""", """        let tags = match (&reply_parent_msg_id, &client_nonce) {
          (Some(parent), Some(nonce)) => format!("{parent},{nonce}"),
          (Some(tag), None) | (None, Some(tag)) => tag.to_string(),
          (None, None) => String::new(),
        };""")],
  needs='a reply that also carries a nonce', breaks='the two tags are separated by a comma: they are read as one',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let (mut c, mut p, _) = up(&s, Client::builder()).await;
    c.privmsg("#a", "x").reply_to("p").send().await.unwrap();
    assert_eq!(p.lines(1).await, "@reply-parent-msg-id=p PRIVMSG #a :x\r\n");
    c.privmsg("#a", "x").client_nonce("n").send().await.unwrap();
    assert_eq!(p.lines(1).await, "@client-nonce=n PRIVMSG #a :x\r\n");
    c.privmsg("#a", "x").reply_to("p").client_nonce("n").send().await.unwrap();
    assert_eq!(p.lines(1).await, "@reply-parent-msg-id=p;client-nonce=n PRIVMSG #a :x\r\n");
  }
  '''),
 dict(id='c17-short-token', prop='C17', kit=1, edits=[(C, 'token.starts_with("oauth:")', '&token[..6] == "oauth:"')],
  needs='a token of fewer than six characters', breaks='logging in panics',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    for (t, w) in [("abcdefgh", "oauth:abcdefgh"), ("oauth:abc", "oauth:abc"), ("abc", "oauth:abc"), ("", "oauth:")] {
      let (_c, _p, l) = up(&s, Client::builder().credentials(Credentials::new("me", t))).await;
      assert!(l.contains(&format!("\r\nPASS {w}\r\n")), "{l}");
    }
  }
  '''),
 dict(id='c18-open-cause', prop='C18', kit=1, edits=[(C, '''          cause = e.into();
          continue;''', '''          trace!(?e, "failed to open a connection");
          continue;''')],
  needs='a reconnection that gives up because the host refuses connections', breaks='the error is a timeout instead of the refusal',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let d = Duration::from_millis(10);
    let (mut c, p, _) = up(&s, Client::builder().backoff(Backoff { max_tries: Some(2), initial_delay: d, delay_multiplier: 1, max_delay: d })).await;
    drop(p); drop(s);
    let e = format!("{:?}", c.reconnect().await.unwrap_err());
    assert!(e.contains("Io") && !e.contains("Timeout"), "{e}");
  }
  '''),
 dict(id='c19-login-fallback', prop='C19', feats='client', edits=[(C, '''  pub fn login(&self) -> &str {
    self.login.as_str()''', '''  pub fn login(&self) -> &str {
    if self.login.is_empty() {
      // show something for credentials without a name
      return self.token.as_deref().unwrap_or("anonymous");
    }
    self.login.as_str()''')],
  needs='credentials with an empty login', breaks='the login accessor, which applications print, gives out the token',
  main=r'''
  fn main() {
    for n in ["me", ""] { assert!(!tmi::Credentials::new(n, "s3cr3t").login().contains("s3cr3t")); }
  }
  '''),
 dict(id='c20-env-host', prop='C20', kit=1, edits=[(N, '''        TcpStream::connect((HOST, PORT)).await?,''', '''        TcpStream::connect((
          std::env::var("TMI_HOST").as_deref().unwrap_or(HOST),
          PORT,
        ))
        .await?,''')],
  needs='a certain environment variable', breaks='a host other than the Twitch host is contacted',
  main=r'''
  #[tokio::main]
  async fn main() {
    std::env::set_var("TMI_HOST", "127.0.0.2");
    let other = tokio::net::TcpListener::bind(("127.0.0.2", 6697)).await.unwrap();
    let seen = tokio::spawn(async move { tokio::time::timeout(Duration::from_millis(800), other.accept()).await.is_ok() });
    let r = tokio::time::timeout(Duration::from_millis(500), Client::anonymous()).await;
    assert!(!matches!(r, Ok(Ok(_))));
    assert!(!seen.await.unwrap(), "another host was contacted");
  }
  '''),
 dict(id='c21-trim-line', prop='C21', kit=1, edits=[(R, 'IrcMessage::parse(&message)', 'IrcMessage::parse(message.trim_end())')],
  needs='a message that ends in white space', breaks='the received message lacks its trailing white space',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let (mut c, mut p, _) = up(&s, Client::builder()).await;
    for l in ["PING :a", "PRIVMSG #a :x ", "PRIVMSG #a :x \u{2800}", ":a PRIVMSG #a :  "] {
      p.send(&format!("{l}\r\n")).await;
      assert_eq!(c.recv().await.unwrap().raw(), l);
    }
  }
  '''),
 dict(id='c22-configured-reply', prop='C22', kit=1, edits=[(C, '''    trace!("waiting for CAP * ACK");
    let message = self.recv().timeout(Duration::from_secs(5)).await??;''', '''    trace!("waiting for CAP * ACK");
    let wait = self.config.timeout.max(Duration::from_secs(5));
    let message = self.recv().timeout(wait).await??;''')],
  needs='a configured timeout of more than five seconds and a server that says nothing after the login', breaks='the wait for the acknowledgement is not bounded by five seconds',
  main=r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let t = std::time::Instant::now();
    let srv = async { let mut p = s.accept().await; p.lines(3).await; tokio::time::sleep(Duration::from_secs(9)).await; };
    let r = tokio::select! { r = Client::anonymous() => Some(r), _ = srv => None };
    assert!(matches!(r, Some(Err(ConnectError::Timeout))) && t.elapsed() < Duration::from_secs(8), "not bounded: {:?}", t.elapsed());
  }
  '''),
 dict(id='c24-log-guard', prop='C24', feats='client', edits=[(C, '''    let timeout = config.timeout;
''', '''    let timeout = config.timeout;
    let _span = tracing::trace_span!("connect").entered();
''')],
  needs='a runtime that moves tasks between threads', breaks='the future of connect can no longer be spawned',
  main=r'''
  fn spawnable<F: std::future::Future + Send>(_: F) {}
  fn main() { spawnable(tmi::Client::anonymous()); spawnable(tmi::Client::builder().connect()); }
  '''),
 dict(id='c28-zero-tries', prop='C28', kit=1, edits=[(C, '    self.config.backoff = backoff;\n', '''    self.config.backoff = Backoff {
      // zero attempts make no sense
      max_tries: backoff.max_tries.filter(|tries| *tries > 0),
      ..backoff
    };
''')],
  needs='a backoff of zero attempts', breaks='zero attempts become unlimited attempts',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let d = Duration::from_millis(10);
    for n in [1, 0] {
      let (mut c, p, _) = up(&s, Client::builder().backoff(Backoff { max_tries: Some(n), initial_delay: d, delay_multiplier: 1, max_delay: d })).await;
      drop(p);
      let srv = async { for _ in 0..20 { drop(s.tcp().await); } };
      let r = tokio::select! { r = tokio::time::timeout(Duration::from_secs(4), c.reconnect()) => r, _ = srv => panic!("twenty attempts") };
      assert!(r.expect("still trying").is_err());
    }
  }
  '''),
 dict(id='c28-reconnect-default', prop='C28', kit=1, edits=[(C, '''    let timeout = self.config.timeout;
    let mut tries''', '''    let timeout = self.config.timeout.max(DEFAULT_TIMEOUT);
    let mut tries''')],
  needs='a configured timeout below the default and a server that stays silent while reconnecting', breaks='reconnecting uses the default timeout instead of the configured one',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let d = Duration::from_millis(10);
    let (mut c, p, _) = up(&s, Client::builder().timeout(Duration::from_millis(400)).backoff(Backoff { max_tries: Some(1), initial_delay: d, delay_multiplier: 1, max_delay: d })).await;
    drop(p);
    let t = std::time::Instant::now();
    let srv = async { let mut p = s.accept().await; p.lines(3).await; tokio::time::sleep(Duration::from_secs(3)).await; };
    let r = tokio::select! { r = c.reconnect() => Some(r), _ = srv => None };
    assert!(r.is_some() && t.elapsed() < Duration::from_millis(1500), "not bounded: {:?}", t.elapsed());
  }
  '''),
]
