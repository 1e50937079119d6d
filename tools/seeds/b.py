LOGIN = '''
async fn up(s: &Server, cfg: ClientBuilder) -> (Client, Conn, String) {
  let (a, b) = tokio::join!(cfg.connect(), s.login());
  (a.unwrap(), b.0, b.1)
}
'''
SEEDS = [
 dict(id='c15-trailing-space', prop='C15', kit=1, edits=[('src/client/write.rs', 'let _ = write!(f, "PRIVMSG {channel} :{text}\\r\\n");', 'let _ = write!(f, "PRIVMSG {channel} :{}\\r\\n", text.trim_end());')],
  needs='a message that ends in white space, such as the same-message bypass suffix', breaks='the invisible suffix of the same-message bypass is stripped from the outgoing message',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let (mut c, mut p, _) = up(&s, Client::builder()).await;
    let mut by = tmi::client::write::SameMessageBypass::default();
    for t in ["hello", " x", "a :b", "ends with a space ", "e \u{2800}", by.get(), by.get()] {
      c.privmsg("#a", t).send().await.unwrap();
      assert_eq!(p.lines(1).await, format!("PRIVMSG #a :{t}\r\n"));
    }
  }
  '''),
 dict(id='c15-join-hash', prop='C15', kit=1, edits=[('src/client/write.rs', '''    if !channel.starts_with('#') {
      write!(f, "#")?;
    }
    write!(f, "{channel}")''', '''    write!(f, "#{}", channel.trim_start_matches('#'))''')],
  needs='a channel name that starts with two hashes (chatrooms are named that way)', breaks='a leading hash that belongs to the name is removed',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let (mut c, mut p, _) = up(&s, Client::builder()).await;
    for (t, w) in [("a", "#a"), ("#a", "#a"), ("##room", "##room")] {
      c.join(t).await.unwrap();
      assert_eq!(p.lines(1).await, format!("JOIN {w}\r\n"));
      c.join_all([t, "x"]).await.unwrap();
      assert_eq!(p.lines(1).await, format!("JOIN {w},#x\r\n"));
    }
  }
  '''),
 dict(id='c16-partial-write', prop='C16', kit=1, edits=[('src/client/write.rs', 'self.writer.write_all(data.as_bytes()).await?;', 'let _ = self.writer.write(data.as_bytes()).await?;')],
  needs='a message larger than what one write to the TLS session accepts', breaks='the rest of the message is silently not sent although the send reports success',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let (mut c, mut p, _) = up(&s, Client::builder()).await;
    for n in [10usize, 1 << 10, 1 << 20, 32 << 20] {
      let m = format!("PRIVMSG #a :{}\r\n", "x".repeat(n));
      let (r, got) = tokio::join!(c.send_raw(m.as_str()), tokio::time::timeout(Duration::from_secs(20), p.lines(1)));
      r.unwrap();
      assert_eq!(got.expect("the message is incomplete").len(), m.len());
    }
  }
  '''),
 dict(id='c16-missing-flush', prop='C16', kit=1, edits=[('src/client/write.rs', '    self.writer.flush().await?;\n    Ok(())', '    if data.len() > 16 {\n      self.writer.flush().await?;\n    }\n    Ok(())')],
  needs='a short message while the connection does not take all of it at once', breaks='success is reported for a short message that is still in the TLS buffer',
  main=LOGIN + r'''
  use std::os::fd::AsRawFd;
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let (mut c, mut p, _) = up(&s, Client::builder()).await;
    // the peer does not read: fill the connection, so that nothing more is taken from the session
    let m = format!("PRIVMSG #a :{}\r\n", "x".repeat(8 << 10));
    let mut full = false;
    for _ in 0..20000 {
      if tokio::time::timeout(Duration::from_millis(700), c.send_raw(m.as_str())).await.is_err() { full = true; break }
    }
    assert!(full, "expected the connection to be full");
    // a short message cannot have been flushed now
    let r = tokio::time::timeout(Duration::from_millis(500), c.send_raw("PING :a\r\n")).await;
    assert!(!matches!(r, Ok(Ok(()))), "success was reported for a message that was not flushed");
  }
  '''),
 dict(id='c17-oauth-inside', prop='C17', kit=1, edits=[('src/client.rs', 'let oauth = if token.starts_with("oauth:") {', 'let oauth = if token.contains("oauth:") {')],
  needs='a token with the text `oauth:` somewhere inside', breaks='the PASS line lacks its prefix',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    for (t, w) in [("abc", "oauth:abc"), ("oauth:abc", "oauth:abc"), ("xoauth:abc", "oauth:xoauth:abc")] {
      let (_c, _p, l) = up(&s, Client::builder().credentials(Credentials::new("me", t))).await;
      assert_eq!(l, format!("CAP REQ :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\nPASS {w}\r\nNICK me\r\n"));
    }
  }
  '''),
 dict(id='c17-nak-accepted', prop='C17', kit=1, edits=[('src/client.rs', 'if message.params().is_some_and(|v| v.starts_with("* ACK")) {', 'if message.params().is_some_and(|v| !v.starts_with("* NAK")) {')],
  needs='a capability reply that is neither ACK nor NAK (a listing)', breaks='a capability listing is taken for an acknowledgement',
  main=r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    for (reply, good) in [(ACK, true), (":tmi.twitch.tv CAP * NAK :twitch.tv/commands\r\n", false), (":tmi.twitch.tv CAP * LS :twitch.tv/commands\r\n", false), (":tmi.twitch.tv CAP\r\n", false)] {
      let srv = async { let mut p = s.accept().await; p.lines(3).await; p.send(reply).await; p.send(WELCOME).await; p.rest(50).await; };
      let (r, _) = tokio::join!(Client::anonymous(), srv);
      assert_eq!(r.is_ok(), good, "{reply:?}");
      if !good { assert!(matches!(r, Err(ConnectError::Auth)), "{reply:?}"); }
    }
  }
  '''),
 dict(id='c18-uncounted', prop='C18', kit=1, edits=[('src/client.rs', '''      if let Some(tries) = &mut tries {
        *tries -= 1;
      }
      delay = std::cmp::min(''', '''      delay = std::cmp::min('''), ('src/client.rs', '''        if e.should_retry() {
          cause = e;''', '''        if e.should_retry() {
          if let Some(tries) = &mut tries {
            *tries -= 1;
          }
          cause = e;''')],
  needs='a connection that cannot be opened at all', breaks='attempts that fail while opening are not counted, so reconnecting never gives up',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let d = Duration::from_millis(10);
    let (mut c, p, _) = up(&s, Client::builder().backoff(Backoff { max_tries: Some(3), initial_delay: d, delay_multiplier: 1, max_delay: d })).await;
    drop(p); drop(s);
    let r = tokio::time::timeout(Duration::from_secs(3), c.reconnect()).await;
    assert!(r.expect("still trying").is_err());
  }
  '''),
 dict(id='c18-max-delay', prop='C18', kit=1, edits=[('src/client.rs', '''      delay = std::cmp::min(
        backoff.max_delay,
        delay.saturating_mul(backoff.delay_multiplier),
      );''', '''      if delay < backoff.max_delay {
        delay = delay.saturating_mul(backoff.delay_multiplier);
      }''')],
  needs='a multiplier that overshoots the maximum delay', breaks='a wait can be longer than the configured maximum delay',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let (mut c, p, _) = up(&s, Client::builder().backoff(Backoff { max_tries: Some(3), initial_delay: Duration::from_millis(100), delay_multiplier: 30, max_delay: Duration::from_millis(300) })).await;
    drop(p); drop(s);
    let t = std::time::Instant::now();
    let r = tokio::time::timeout(Duration::from_secs(6), c.reconnect()).await;
    assert!(r.is_ok() && t.elapsed() >= Duration::from_millis(700) && t.elapsed() < Duration::from_millis(1500), "{:?}", t.elapsed());
  }
  '''),
 dict(id='c19-debug-token', prop='C19', edits=[('src/client.rs', '''      .field("nick", &self.login)
      .finish_non_exhaustive()''', '''      .field("nick", &self.login)
      .field("token", &self.token.as_deref().map(|t| t.find(':').map_or(t, |i| &t[..i])))
      .finish_non_exhaustive()''')],
  needs='debug output of credentials whose token was given without the oauth: prefix', breaks='the token is shown in debug output and logs of the configuration',
  feats='client', main=r'''
  fn main() {
    for t in ["oauth:s3cr3t", "s3cr3t"] {
      let c = tmi::Credentials::new("me", t);
      assert!(!format!("{c:?}").contains("s3cr3t"), "shown: {c:?}");
      let c = tmi::client::Config { credentials: c, ..Default::default() };
      assert!(!format!("{c:#?}").contains("s3cr3t"), "shown: {c:?}");
    }
  }
  '''),
 dict(id='c19-log-pass', prop='C19', kit=1, edits=[('src/client.rs', '''    trace!("waiting for CAP * ACK");
''', '''    trace!("sent login for {:?}", credentials.token.as_ref().map_or("anon", |t| t.trim_start_matches("oauth:")).get(..4));
    trace!("waiting for CAP * ACK");
''')],
  needs='trace logging switched on and a login with a token', breaks='the beginning of the token is written to the log',
  main=LOGIN + r'''
  use std::sync::Mutex;
  static OUT: Mutex<String> = Mutex::new(String::new());
  struct Sub;
  struct V;
  impl tracing::field::Visit for V { fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) { OUT.lock().unwrap().push_str(&format!("{v:?}\n")); } }
  impl tracing::Subscriber for Sub {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) { e.record(&mut V); }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
  }
  #[tokio::main]
  async fn main() {
    tracing::subscriber::set_global_default(Sub).unwrap();
    let s = Server::new().await;
    let (_c, _p, l) = up(&s, Client::builder().credentials(Credentials::new("me", "oauth:zq9jk2"))).await;
    assert!(l.contains("PASS oauth:zq9jk2"));
    let o = OUT.lock().unwrap().clone();
    assert!(o.contains("performing handshake") && !o.contains("zq9j"), "the log shows the token:\n{o}");
  }
  '''),
 dict(id='c20-fallback-port', prop='C20', kit=1, edits=[('src/client/conn.rs', '''        TcpStream::connect((HOST, PORT)).await?,''', '''        match TcpStream::connect((HOST, PORT)).await {
          Ok(stream) => stream,
          Err(e) if e.kind() == io::ErrorKind::ConnectionRefused => TcpStream::connect((HOST, 443)).await?,
          Err(e) => return Err(e.into()),
        },''')],
  needs='the chat port being refused', breaks='another port of the host is contacted instead',
  main=r'''
  #[tokio::main]
  async fn main() {
    let other = tokio::net::TcpListener::bind(("127.0.0.1", 443)).await.unwrap();
    let seen = tokio::spawn(async move { tokio::time::timeout(Duration::from_millis(800), other.accept()).await.is_ok() });
    let r = tokio::time::timeout(Duration::from_millis(500), Client::anonymous()).await;
    assert!(!matches!(r, Ok(Ok(_))));
    assert!(!seen.await.unwrap(), "port 443 was contacted");
  }
  '''),
 dict(id='c20-parent-name', prop='C20', kit=1, edits=[('src/client.rs', 'let tls = TlsConfig::load(ServerName::try_from(conn::HOST)?)?;', 'let tls = TlsConfig::load(ServerName::try_from(conn::HOST.trim_start_matches("irc."))?)?;')],
  needs='a server whose certificate is valid for the parent name only (the real one has both)', breaks='the name that is verified is not that of the host that is contacted',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let srv = async { match s.try_accept().await { Ok(mut p) => { p.lines(3).await; p.send(ACK).await; p.send(WELCOME).await; true } Err(_) => false } };
    let (c, ok) = tokio::join!(Client::anonymous(), srv);
    assert!(ok && c.is_ok(), "the certificate of irc.chat.twitch.tv was not accepted for it");
  }
  '''),
 dict(id='c21-skip-unparsable', prop='C21', kit=1, edits=[('src/client/read.rs', '''    if let Some(message) = self.reader.next().await {
      let message = message?;
      Ok(IrcMessage::parse(&message).ok_or(RecvError::Parse(message))?)
    } else {
      Err(RecvError::StreamClosed)
    }''', '''    while let Some(message) = self.reader.next().await {
      let message = message?;
      if message.is_empty() {
        continue;
      }
      return IrcMessage::parse(&message).ok_or(RecvError::Parse(message));
    }
    Err(RecvError::StreamClosed)''')],
  needs='an empty line from the server', breaks='an empty line is dropped instead of being reported as unparsable',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let (mut c, mut p, _) = up(&s, Client::builder()).await;
    p.send("PING :a\r\n\r\n \r\nPING :b\r\n").await;
    assert_eq!(c.recv().await.unwrap().raw(), "PING :a");
    match c.recv().await { Err(tmi::client::read::RecvError::Parse(l)) => assert_eq!(l, ""), o => panic!("{o:?}") }
    match c.recv().await { Err(tmi::client::read::RecvError::Parse(l)) => assert_eq!(l, " "), o => panic!("{o:?}") }
    assert_eq!(c.recv().await.unwrap().raw(), "PING :b");
  }
  '''),
 dict(id='c21-timed-out', prop='C21', edits=[('src/client/read.rs', 'io::ErrorKind::UnexpectedEof | io::ErrorKind::ConnectionAborted | io::ErrorKind::TimedOut', 'io::ErrorKind::UnexpectedEof | io::ErrorKind::ConnectionAborted | io::ErrorKind::ConnectionReset')],
  needs='a connection that fails by timing out', breaks='a timed-out connection no longer counts as a disconnect, a reset one does',
  feats='client', main=r'''
  use std::io::{Error, ErrorKind as K};
  fn main() {
    for (k, w) in [(K::UnexpectedEof, true), (K::ConnectionAborted, true), (K::TimedOut, true), (K::ConnectionReset, false), (K::Other, false), (K::InvalidData, false)] {
      assert_eq!(tmi::client::read::RecvError::Io(Error::from(k)).is_disconnect(), w, "{k:?}");
    }
    assert!(tmi::client::read::RecvError::StreamClosed.is_disconnect());
    assert!(!tmi::client::read::RecvError::Parse(String::new()).is_disconnect());
  }
  '''),
 dict(id='c22-reconnect-handshake', prop='C22', kit=1, edits=[('src/client.rs', 'if let Err(e) = self.handshake().timeout(timeout).await? {', 'if let Err(e) = self.handshake().await {')],
  needs='a server that accepts the connection while reconnecting and then says nothing', breaks='the configured timeout does not bound the handshake of a reconnection',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let d = Duration::from_millis(10);
    let (mut c, p, _) = up(&s, Client::builder().timeout(Duration::from_millis(400)).backoff(Backoff { max_tries: Some(1), initial_delay: d, delay_multiplier: 1, max_delay: d })).await;
    drop(p);
    let t = std::time::Instant::now();
    let srv = async { let mut p = s.accept().await; p.lines(3).await; tokio::time::sleep(Duration::from_secs(3)).await; };
    let r = tokio::select! { r = c.reconnect() => Some(r), _ = srv => None };
    assert!(r.is_some() && t.elapsed() < Duration::from_millis(1500), "not bounded: {:?}", t.elapsed());
    assert!(r.unwrap().is_err());
  }
  '''),
 dict(id='c22-reply-timeout', prop='C22', kit=1, edits=[('src/client.rs', '''    trace!("waiting for NOTICE 001");
    let message = self.recv().timeout(Duration::from_secs(5)).await??;''', '''    trace!("waiting for NOTICE 001");
    let message = self.recv().await?;''')],
  needs='a server that acknowledges the capabilities and then stays silent, with a long configured timeout', breaks='the wait for the welcome is not bounded by five seconds',
  main=r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let t = std::time::Instant::now();
    let srv = async { let mut p = s.accept().await; p.lines(3).await; p.send(ACK).await; tokio::time::sleep(Duration::from_secs(9)).await; };
    let r = tokio::select! { r = Client::anonymous() => Some(r), _ = srv => None };
    assert!(matches!(r, Some(Err(ConnectError::Timeout))) && t.elapsed() < Duration::from_secs(8), "not bounded: {:?}", t.elapsed());
  }
  '''),
 dict(id='c27-counter', prop='C27', edits=[('src/client/write.rs', '''  append: bool,
}''', '''  append: u8,
}'''), ('src/client/write.rs', '''    let out = match self.append {
      false => "",
      true => {
        concat!(" ", "⠀")
      }
    };
    self.append = !self.append;''', '''    let out = match self.append % 2 {
      0 => "",
      _ => {
        concat!(" ", "⠀")
      }
    };
    self.append = self.append.saturating_add(1);'''), ('src/client/write.rs', 'SameMessageBypass { append: false }', 'SameMessageBypass { append: 0 }')],
  needs='more than 255 uses of one bypass', breaks='the bypass stops alternating',
  feats='client', main=r'''
  fn main() {
    let mut b = tmi::client::write::SameMessageBypass::default();
    for i in 0..2000 { assert_eq!(b.get(), if i % 2 == 0 { "" } else { " \u{2800}" }, "call {i}"); }
  }
  '''),
 dict(id='c28-min-timeout', prop='C28', kit=1, edits=[('src/client.rs', '    self.config.timeout = timeout;', '    self.config.timeout = timeout.max(Duration::from_secs(1));')],
  needs='a configured timeout below one second', breaks='the timeout used is not the one that was configured',
  main=r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    for ms in [200u64, 1100] {
      let t = std::time::Instant::now();
      let srv = async { let mut p = s.accept().await; p.lines(3).await; tokio::time::sleep(Duration::from_secs(5)).await; };
      let r = tokio::select! { r = Client::builder().timeout(Duration::from_millis(ms)).connect() => Some(r), _ = srv => None };
      assert!(matches!(r, Some(Err(ConnectError::Timeout))));
      assert!(t.elapsed() < Duration::from_millis(ms + 600), "{ms}: {:?}", t.elapsed());
    }
  }
  '''),
]
