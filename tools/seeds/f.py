C = 'src/client.rs'
SEEDS = [
 dict(id='c24-rng-await', prop='C24', feats='client', deps='', edits=[(C, '''    let mut cause = ConnectError::Timeout;
    while matches''', '''    let mut cause = ConnectError::Timeout;
    let mut rng = thread_rng();
    while matches'''), (C, '''      trace!("opening connection to twitch");
      let stream = match''', '''      trace!(attempt = rng.gen::<u32>(), "opening connection to twitch");
      let stream = match''')],
  needs='spawning reconnect on a runtime with several threads', breaks='the future of reconnect is no longer Send, so such programs no longer compile',
  main=r'''
  fn spawnable<F: std::future::Future + Send>(_: F) {}
  #[allow(dead_code)]
  fn reconnect(c: &mut tmi::Client) { spawnable(c.reconnect()) }
  #[allow(dead_code)]
  fn recv(c: &mut tmi::Client) { spawnable(c.recv()) }
  #[allow(dead_code)]
  fn connect() { spawnable(tmi::Client::anonymous()) }
  fn main() {}
  '''),
 dict(id='c24-client-alone', prop='C24', feats='client', edits=[(C, '''    trace!("waiting for NOTICE 001");
    let message = self.recv().timeout(Duration::from_secs(5)).await??;
    trace!(?message, "received message");
''', '''    trace!("waiting for NOTICE 001");
    let message = self.recv().timeout(Duration::from_secs(5)).await??;
    trace!(message = ?message.as_typed(), "received message");
''')],
  needs='building with the client but without the typed messages', breaks='that combination of features does not compile',
  main=r'''
  fn main() { let _ = tmi::Client::builder().credentials(tmi::Credentials::anon()); }
  '''),
]
