"""Planted bugs: errors, prefixes and dropped receives."""
import runpy, os
LOGIN = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b.py'))['LOGIN']
C='src/client.rs'; N='src/client/conn.rs'; R='src/client/read.rs'; W='src/client/write.rs'; PF='src/irc/prefix.rs'
USE = r'''
  #![allow(unused)]
  use tmi::{IrcMessage, IrcMessageRef};
  use tmi::*;
'''
ERR = r'''
  #![allow(unused)]
  use tmi::client::{ConnectError, ReconnectError};
  use tmi::client::read::RecvError;
  use tmi::client::write::SendError;
  use tmi::client::conn::{OpenStreamError, TlsConfigError};
  use std::io;
'''
SEEDS = [
 dict(id='c31-eof-closed', prop='C31', feats='client', edits=[(R, '''    Self::Io(value)
''', '''    match value.kind() {
      // the peer is gone either way
      io::ErrorKind::UnexpectedEof | io::ErrorKind::ConnectionReset => Self::StreamClosed,
      _ => Self::Io(value),
    }
''')],
  needs='a read that fails because the peer resets the connection or cuts it off', breaks='the I/O failure is dropped, a reset looks like an orderly close',
  main=ERR + r'''
  fn main() {
    for k in [io::ErrorKind::BrokenPipe, io::ErrorKind::TimedOut, io::ErrorKind::UnexpectedEof, io::ErrorKind::ConnectionReset] {
      let e: RecvError = io::Error::new(k, "what happened").into();
      assert!(matches!(&e, RecvError::Io(e) if e.kind() == k && e.to_string() == "what happened"), "{k:?}: {e:?}");
    }
  }
  '''),
 dict(id='c31-nested-io', prop='C31', feats='client', edits=[(C, '''impl From<RecvError> for ConnectError {
  fn from(value: RecvError) -> Self {
    Self::Read(value)
''', '''impl From<RecvError> for ConnectError {
  fn from(value: RecvError) -> Self {
    match value {
      RecvError::Io(e) => Self::Io(e),
      value => Self::Read(value),
    }
''')],
  needs='a connect that fails because a read during the handshake fails', breaks='the failed read is reported as another kind of failure, and becomes one that is retried',
  main=ERR + r'''
  fn main() {
    let e: ConnectError = RecvError::StreamClosed.into();
    assert!(matches!(e, ConnectError::Read(RecvError::StreamClosed)));
    let e: ConnectError = RecvError::Io(io::Error::new(io::ErrorKind::Other, "x")).into();
    assert!(matches!(e, ConnectError::Read(RecvError::Io(_))), "{e:?}");
  }
  '''),
 dict(id='c31-cause-text', prop='C31', feats='client', edits=[(C, '''      "all reconnect attempts failed. last error was: {}",
      self.cause
    )''', '''      "all reconnect attempts failed. last error was: {}",
      match &self.cause {
        ConnectError::Open(OpenStreamError::Io(e)) => e.kind().to_string(),
        cause => cause.to_string(),
      }
    )''')],
  needs='a reconnect whose last attempt failed to open the connection', breaks='the text names only the kind of the failure and drops what it says',
  main=ERR + r'''
  fn main() {
    let io_ = || io::Error::new(io::ErrorKind::Other, "certificate expired");
    for c in [ConnectError::Io(io_()), ConnectError::Timeout, ConnectError::Read(RecvError::Io(io_())), ConnectError::Tls(TlsConfigError::Io(io_())), ConnectError::Open(OpenStreamError::Io(io_()))] {
      let t = c.to_string();
      let r = ReconnectError::from(c).to_string();
      assert!(r.contains(&t), "{r:?} leaves out {t:?}");
    }
  }
  '''),
 dict(id='c32-same-user', prop='C32', edits=[(PF, '''      (Some(nick), Some(user), host) => write!(f, "{nick}!{user}@{host}"),
      (Some(nick), None, host)''', '''      (Some(nick), Some(user), host) if nick != user => write!(f, "{nick}!{user}@{host}"),
      (Some(nick), _, host)''')],
  needs='a prefix whose user equals its nick', breaks='the user is left out of the text',
  main=USE + r'''
  fn main() {
    for p in ["tmi.twitch.tv", "a@h", "a!b@h", "a!a@a.tmi.twitch.tv"] {
      let l = format!(":{p} PING");
      let m = IrcMessage::parse(&l).unwrap();
      assert_eq!(m.prefix().unwrap().to_string(), p);
    }
  }
  '''),
 dict(id='c32-empty-nick', prop='C32', edits=[(PF, '''      (Some(nick), None, host) => write!(f, "{nick}@{host}"),
      (None, None, host)''', '''      (Some(nick), None, host) if !nick.is_empty() => write!(f, "{nick}@{host}"),
      (_, None, host)''')],
  needs='a prefix with an empty nick before its `@`', breaks='the `@` is left out of the text',
  main=USE + r'''
  fn main() {
    for p in ["tmi.twitch.tv", "a@h", "a!b@h", "!@h", "@h", "@"] {
      let l = format!(":{p} PING");
      let m = IrcMessage::parse(&l).unwrap();
      assert_eq!(m.prefix().unwrap().to_string(), p);
    }
  }
  '''),
 dict(id='c33-fair-reader', prop='C33', kit=1, edits=[(R, '''      let message = message?;
''', '''      let message = message?;
      // a busy channel must not starve the other tasks
      if message.len() > 400 {
        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
      }
''')],
  needs='a long line, and a receive that is dropped right after it has been taken', breaks='the long line is lost',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let (mut c, mut p, _) = up(&s, Client::builder()).await;
    for n in [3usize, 300, 3000] {
      p.send(&format!("PING :{}\r\n", "x".repeat(n))).await;
      tokio::time::sleep(Duration::from_millis(300)).await;
      let mut got = 0;
      // as in `select!` with something that is often ready
      for _ in 0..50 {
        tokio::select! { biased; m = c.recv() => { m.unwrap(); got += 1; } _ = tokio::task::yield_now() => {} }
        if got > 0 { break }
        tokio::time::sleep(Duration::from_millis(20)).await;
      }
      assert_eq!(got, 1, "a line was lost");
    }
  }
  '''),
 dict(id='c33-read-line', prop='C33', kit=1, edits=[(R, '''    if let Some(message) = self.reader.next().await {
      let message = message?;
      Ok(IrcMessage::parse(&message).ok_or(RecvError::Parse(message))?)
    } else {
      Err(RecvError::StreamClosed)
    }''', '''    let reader = AsMut::<tokio::io::Lines<_>>::as_mut(self.reader.get_mut()).get_mut();
    let mut message = String::new();
    if reader.read_line(&mut message).await? == 0 {
      return Err(RecvError::StreamClosed);
    }
    if message.ends_with('\\n') {
      message.pop();
      if message.ends_with('\\r') {
        message.pop();
      }
    }
    Ok(IrcMessage::parse(&message).ok_or(RecvError::Parse(message))?)'''), (R, '''use tokio::io;
''', '''use tokio::io;
use tokio::io::AsyncBufReadExt;
'''), (R, '''use tokio_stream::StreamExt;
''', '')],
  needs='a line that arrives in two pieces, and a receive that is dropped between them', breaks='the first piece is lost',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let (mut c, mut p, _) = up(&s, Client::builder()).await;
    p.send("PING :one\r\n").await;
    assert_eq!(c.recv().await.unwrap().raw(), "PING :one");
    p.send("PING :tw").await;
    assert!(tokio::time::timeout(Duration::from_millis(400), c.recv()).await.is_err());
    p.send("o\r\n").await;
    let m = tokio::time::timeout(Duration::from_secs(5), c.recv()).await.unwrap().unwrap();
    assert_eq!(m.raw(), "PING :two");
  }
  '''),
 dict(id='c33-flush-reconnect', prop='C33', kit=1, edits=[(R, '''      let message = message?;
      Ok(IrcMessage::parse(&message).ok_or(RecvError::Parse(message))?)
''', '''      let message = message?;
      let message = IrcMessage::parse(&message).ok_or(RecvError::Parse(message))?;
      if message.command() == crate::Command::Reconnect {
        // what is still unsent would be lost with the connection
        let _ = tokio::io::AsyncWriteExt::flush(&mut self.writer).await;
      }
      Ok(message)
''')],
  needs='a RECONNECT message while the connection takes no more output, and a receive that is dropped while it flushes', breaks='the RECONNECT message is lost',
  main=LOGIN + r'''
  #[tokio::main]
  async fn main() {
    let s = Server::new().await;
    let (mut c, mut p, _) = up(&s, Client::builder()).await;
    // the peer does not read: fill the connection
    let m = format!("PRIVMSG #a :{}\r\n", "x".repeat(8 << 10));
    let mut full = false;
    for _ in 0..20000 {
      if tokio::time::timeout(Duration::from_millis(700), c.send_raw(m.as_str())).await.is_err() { full = true; break }
    }
    assert!(full, "expected the connection to be full");
    p.send(":tmi.twitch.tv RECONNECT\r\n").await;
    for _ in 0..5 {
      if let Ok(m) = tokio::time::timeout(Duration::from_secs(2), c.recv()).await {
        assert_eq!(m.unwrap().raw(), ":tmi.twitch.tv RECONNECT");
        return;
      }
    }
    panic!("the message was lost");
  }
  '''),
]
