#![allow(dead_code)]
// a stand-in for the chat server on the loopback network
use std::sync::Arc;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio_rustls::rustls::{Certificate, PrivateKey, ServerConfig};
use tokio_rustls::{server::TlsStream, TlsAcceptor};
fn der(pem: &str, what: &str) -> Vec<u8> {
  let b: String = pem.lines().skip_while(|l| !(l.starts_with("-----BEGIN") && l.contains(what))).skip(1).take_while(|l| !l.starts_with("-----")).collect();
  let v = |c: u8| match c { b'A'..=b'Z' => c - 65, b'a'..=b'z' => c - 71, b'0'..=b'9' => c + 4, b'+' => 62, _ => 63 } as u32;
  let mut o = vec![];
  for q in b.trim_end_matches('=').as_bytes().chunks(4) {
    let n = q.iter().fold(0u32, |a, &c| a << 6 | v(c)) << (6 * (4 - q.len()));
    o.extend_from_slice(&n.to_be_bytes()[1..q.len()]);
  }
  o
}
pub struct Server { l: TcpListener, a: TlsAcceptor }
pub struct Conn { pub s: TlsStream<TcpStream>, pub got: Vec<u8> }
pub const WELCOME: &str = ":tmi.twitch.tv 001 justinfan12345 :Welcome, GLHF!\r\n";
pub const ACK: &str = ":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n";
impl Server {
  pub async fn with(cert: &str, key: &str) -> Server {
    let c = ServerConfig::builder().with_safe_defaults().with_no_client_auth().with_single_cert(vec![Certificate(der(cert, "CERTIFICATE"))], PrivateKey(der(key, "PRIVATE KEY"))).unwrap();
    Server { l: TcpListener::bind(("127.0.0.1", 6697)).await.unwrap(), a: TlsAcceptor::from(Arc::new(c)) }
  }
  pub async fn new() -> Server { Self::with(include_str!("cert.pem"), include_str!("key.pem")).await }
  pub async fn tcp(&self) -> TcpStream { self.l.accept().await.unwrap().0 }
  pub async fn accept(&self) -> Conn { let t = self.tcp().await; Conn { s: self.a.accept(t).await.unwrap(), got: vec![] } }
  pub async fn try_accept(&self) -> Result<Conn, std::io::Error> { let t = self.tcp().await; Ok(Conn { s: self.a.accept(t).await?, got: vec![] }) }
  /// accepts, performs the usual login dialogue, returns the connection and the login text
  pub async fn login(&self) -> (Conn, String) {
    let mut c = self.accept().await;
    let t = c.lines(3).await;
    c.send(ACK).await; c.send(WELCOME).await;
    (c, t)
  }
}
impl Conn {
  /// everything received up to and including the n-th line
  pub async fn lines(&mut self, n: usize) -> String {
    let (mut at, mut k) = (0, 0);
    loop {
      while at < self.got.len() && k < n { if self.got[at] == b'\n' { k += 1 } at += 1; }
      if k >= n { let r = self.got.drain(..at).collect(); return String::from_utf8(r).unwrap(); }
      let mut b = [0; 65536];
      let r = self.s.read(&mut b).await.unwrap_or(0);
      if r == 0 { return String::from_utf8(std::mem::take(&mut self.got)).unwrap(); }
      self.got.extend_from_slice(&b[..r]);
    }
  }
  /// whatever arrives within the given time
  pub async fn rest(&mut self, ms: u64) -> String {
    let _ = tokio::time::timeout(std::time::Duration::from_millis(ms), async { loop { let mut b = [0; 4096]; let k = self.s.read(&mut b).await.unwrap_or(0); if k == 0 { break } self.got.extend_from_slice(&b[..k]); } }).await;
    String::from_utf8(std::mem::take(&mut self.got)).unwrap()
  }
  pub async fn send(&mut self, s: &str) { let _ = self.s.write_all(s.as_bytes()).await; let _ = self.s.flush().await; }
}
