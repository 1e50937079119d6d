#![allow(clippy::all)]
use std::future::Future;
use tmi::client::write::{InvalidMessage, Privmsg, RawMessage, SameMessageBypass, SendError};
use tmi::client::read::RecvError;
use tmi::client::*;
use tmi::*;

macro_rules! poll {
    ($f:expr, $cx:ident) => {{ let mut f = $f; unsafe { std::pin::Pin::new_unchecked(&mut f) }.poll($cx) }};
}
type Cx<'a, 'b> = &'a mut std::task::Context<'b>;
type P<T> = std::task::Poll<T>;

pub fn h_send_raw(c: &mut Client, s: &str, cx: Cx) -> P<Result<(), SendError>> { poll!(c.send_raw(s), cx) }
pub fn h_send_raw_msg(c: &mut Client, s: RawMessage<'_>, cx: Cx) -> P<Result<(), SendError>> { poll!(c.send_raw(s), cx) }
pub fn h_send_privmsg(c: &mut Client, ch: &str, text: &str, cx: Cx) -> P<Result<(), SendError>> { poll!(c.privmsg(ch, text).send(), cx) }
pub fn h_send_privmsg_reply(c: &mut Client, ch: &str, text: &str, id: &str, cx: Cx) -> P<Result<(), SendError>> { poll!(c.privmsg(ch, text).reply_to(id).send(), cx) }
pub fn h_send_privmsg_nonce(c: &mut Client, ch: &str, text: &str, nonce: &str, cx: Cx) -> P<Result<(), SendError>> { poll!(c.privmsg(ch, text).client_nonce(nonce).send(), cx) }
pub fn h_send_privmsg_both(c: &mut Client, ch: &str, text: &str, id: &str, nonce: &str, cx: Cx) -> P<Result<(), SendError>> { poll!(c.privmsg(ch, text).reply_to(id).client_nonce(nonce).send(), cx) }
pub fn h_send_privmsg_both2(c: &mut Client, ch: &str, text: &str, id: &str, nonce: &str, cx: Cx) -> P<Result<(), SendError>> { poll!(c.privmsg(ch, text).client_nonce(nonce).reply_to(id).send(), cx) }
#[cfg(feature = "types")]
pub fn h_ping_nonce<'a, 'b>(p: &'a Ping<'b>) -> Option<&'a str> { p.nonce() }
pub fn h_connect_configured(c: Credentials, t: std::time::Duration, b: Backoff, cx: Cx) -> P<Result<Client, ConnectError>> { poll!(Client::builder().credentials(c).timeout(t).backoff(b).connect(), cx) }
pub fn h_connect_default(cx: Cx) -> P<Result<Client, ConnectError>> { poll!(Client::builder().connect(), cx) }
pub fn h_credentials_new(l: &str, t: &str) -> Credentials { Credentials::new(l, t) }
pub fn h_credentials_anon() -> Credentials { Credentials::anon() }
pub fn h_credentials_default() -> Credentials { Credentials::default() }
pub fn h_credentials_is_anon(c: &Credentials) -> bool { c.is_anon() }
pub fn h_credentials_login(c: &Credentials) -> &str { c.login() }
pub fn h_credentials_token(c: &Credentials) -> Option<&str> { c.token() }
pub fn h_ping(c: &mut Client, nonce: &str, cx: Cx) -> P<Result<(), SendError>> { poll!(c.ping(nonce), cx) }
#[cfg(feature = "types")]
pub fn h_pong(c: &mut Client, p: &Ping<'_>, cx: Cx) -> P<Result<(), SendError>> { poll!(c.pong(p), cx) }
pub fn h_join(c: &mut Client, ch: &str, cx: Cx) -> P<Result<(), SendError>> { poll!(c.join(ch), cx) }
pub fn h_join_all(c: &mut Client, chs: Vec<&str>, cx: Cx) -> P<Result<(), SendError>> { poll!(c.join_all(chs), cx) }
pub fn h_privmsg_send(p: Privmsg<'_>, cx: Cx) -> P<Result<(), SendError>> { poll!(p.send(), cx) }
pub fn h_privmsg_new<'a>(c: &'a mut Client, ch: &'a str, text: &'a str) -> Privmsg<'a> { c.privmsg(ch, text) }
pub fn h_privmsg_reply_to<'a>(p: Privmsg<'a>, id: &'a str) -> Privmsg<'a> { p.reply_to(id) }
pub fn h_privmsg_client_nonce<'a>(p: Privmsg<'a>, id: &'a str) -> Privmsg<'a> { p.client_nonce(id) }
pub fn h_recv(c: &mut Client, cx: Cx) -> P<Result<IrcMessage, RecvError>> { poll!(c.recv(), cx) }
pub fn h_reconnect(c: &mut Client, cx: Cx) -> P<Result<(), ReconnectError>> { poll!(c.reconnect(), cx) }
pub fn h_connect(b: ClientBuilder, cx: Cx) -> P<Result<Client, ConnectError>> { poll!(b.connect(), cx) }
pub fn h_anonymous(cx: Cx) -> P<Result<Client, ConnectError>> { poll!(Client::anonymous(), cx) }
pub fn h_open(t: conn::TlsConfig, cx: Cx) -> P<Result<conn::Stream, conn::OpenStreamError>> { poll!(conn::open(t), cx) }
pub fn h_raw_try_from<'a>(s: &'a str) -> Result<RawMessage<'a>, InvalidMessage> { RawMessage::try_from(s) }
pub fn h_bypass_get(b: &mut SameMessageBypass) -> &'static str { b.get() }
pub fn h_bypass_default() -> SameMessageBypass { Default::default() }
pub fn h_builder_credentials(b: ClientBuilder, x: Credentials) -> ClientBuilder { b.credentials(x) }
pub fn h_builder_timeout(b: ClientBuilder, x: std::time::Duration) -> ClientBuilder { b.timeout(x) }
pub fn h_builder_backoff(b: ClientBuilder, x: Backoff) -> ClientBuilder { b.backoff(x) }
pub fn h_builder() -> ClientBuilder { Client::builder() }
pub fn h_config_default() -> Config { Config::default() }
pub fn h_backoff_default() -> Backoff { Backoff::default() }
pub fn h_config(c: &Client) -> &Config { c.config() }
pub fn h_client_credentials(c: &Client) -> &Credentials { c.credentials() }
pub fn h_is_disconnect(e: &RecvError) -> bool { e.is_disconnect() }

// ---- Debug and Display of the types that hold the token, if they have them
pub struct Show<'a, T>(pub &'a T);
pub trait NoDebug { fn dbg(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result; }
impl<'a, T> NoDebug for &Show<'a, T> { fn dbg(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
pub trait HasDebug { fn dbg(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result; }
impl<'a, T: std::fmt::Debug> HasDebug for Show<'a, T> { fn dbg(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(self.0, f) } }
pub trait NoDisplay { fn dsp(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result; }
impl<'a, T> NoDisplay for &Show<'a, T> { fn dsp(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
pub trait HasDisplay { fn dsp(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result; }
impl<'a, T: std::fmt::Display> HasDisplay for Show<'a, T> { fn dsp(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(self.0, f) } }
macro_rules! shown { ($($d:ident $p:ident $t:ty;)*) => { $(
    pub fn $d(x: &$t, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { (&Show(x)).dbg(f) }
    pub fn $p(x: &$t, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { (&Show(x)).dsp(f) }
)* } }
shown! {
    h_debug_credentials h_display_credentials Credentials;
    h_debug_config h_display_config Config;
    h_debug_builder h_display_builder ClientBuilder;
    h_debug_client h_display_client Client;
}

// ---- errors: conversions from the failures they wrap, and their texts
use tmi::client::conn::{OpenStreamError, TlsConfigError};
pub fn h_rewrap_connect(e: ConnectError) -> ConnectError { match e {
    ConnectError::Read(x) => x.into(), ConnectError::Io(x) => x.into(), ConnectError::Dns(x) => x.into(), ConnectError::Tls(x) => x.into(), ConnectError::Open(x) => x.into(), o => o } }
pub fn h_rewrap_reconnect(e: ConnectError) -> ReconnectError { match e {
    ConnectError::Read(x) => x.into(), ConnectError::Io(x) => x.into(), ConnectError::Dns(x) => x.into(), ConnectError::Tls(x) => x.into(), ConnectError::Open(x) => x.into(), o => o.into() } }
pub fn h_rewrap_recv(e: RecvError) -> RecvError { match e { RecvError::Io(x) => x.into(), o => o } }
pub fn h_rewrap_send(e: SendError) -> SendError { match e { SendError::Io(x) => x.into(), SendError::InvalidMessage(x) => x.into(), o => o } }
pub fn h_rewrap_open(e: OpenStreamError) -> OpenStreamError { match e { OpenStreamError::Io(x) => x.into() } }
pub fn h_rewrap_tls(e: TlsConfigError) -> TlsConfigError { match e { TlsConfigError::Io(x) => x.into(), TlsConfigError::Tls(x) => x.into() } }
pub fn h_show_connect(e: &ConnectError, out: &mut String) -> std::fmt::Result { use std::fmt::Write; write!(out, "{e}") }
pub fn h_show_reconnect(e: &ReconnectError, out: &mut String) -> std::fmt::Result { use std::fmt::Write; write!(out, "{e}") }
pub fn h_show_recv(e: &RecvError, out: &mut String) -> std::fmt::Result { use std::fmt::Write; write!(out, "{e}") }
pub fn h_show_send(e: &SendError, out: &mut String) -> std::fmt::Result { use std::fmt::Write; write!(out, "{e}") }
pub fn h_show_open(e: &OpenStreamError, out: &mut String) -> std::fmt::Result { use std::fmt::Write; write!(out, "{e}") }
pub fn h_show_tls(e: &TlsConfigError, out: &mut String) -> std::fmt::Result { use std::fmt::Write; write!(out, "{e}") }
pub fn h_source_reconnect<'a>(e: &'a ReconnectError) -> Option<&'a (dyn std::error::Error + 'static)> { std::error::Error::source(e) }
