TAGS = r'''
fn check(tags: &str, rest: &str) {
  let line = format!("@{tags} {rest}");
  let m = tmi::IrcMessageRef::parse(&line).expect("the line is well formed");
  let got: Vec<(String, String)> = m.tags().map(|(k, v)| (k.to_string(), v.to_string())).collect();
  let mut want = vec![];
  let mut left = tags;
  while let Some((k, r)) = left.split_once('=') {
    let (v, r) = match r.split_once(';') { Some((v, r)) => (v, r), None => (r, "") };
    want.push((k.to_string(), v.to_string()));
    left = r;
  }
  assert_eq!(got, want, "{line}");
}
'''
M = 'src/irc/tags/simd.rs'; S = 'src/irc/tags/scalar.rs'; A = 'src/irc/wide/x86_64/avx2.rs'; P = 'src/irc/prefix.rs'; U = 'src/lib.rs'
SEEDS = [
 dict(id='c03-tail-overread', prop='C03', pre=TAGS, feats='message-types,simd', edits=[(M, '    let chunk = V::load_unaligned_remainder(remainder, offset);', '    let chunk = if offset + V::SIZE <= src.len() {\n      V::load_unaligned(src, offset)\n    } else {\n      V::load_unaligned_remainder(remainder, offset)\n    };')],
  needs='separators just after the tags, within the last 32-byte chunk of the tag section', breaks='bytes of the message after the tags are taken for tag separators',
  main=r'''
  fn main() {
    for r in ["PING", "PRIVMSG #forsen :hello there, how are you", "PING :1+1=2;2+2=4 and a little more text here", "NOTICE * :a=b;c=d;e=f                   "] { check("id=1;flags=", r); }
  }
  '''),
 dict(id='c03-long-value', prop='C03', pre=TAGS, feats='message-types', edits=[(S, 'value_end: (offset - (key_end + 1)) as u32', 'value_end: (offset - (key_end + 1)) as u16 as u32')], multi=1,
  needs='the scalar parser and a tag value longer than 65535 bytes', breaks='the length of the value wraps at 16 bits',
  main=r'''
  fn main() {
    for n in [0usize, 1, 255, 256, 65535, 65536, 70000] { let v = "x".repeat(n); check(&format!("a={v};b={v};c="), "PING"); }
  }
  '''),
 dict(id='c03-bare-key', prop='C03', pre=TAGS, feats='message-types', edits=[(S, "        if let State::Value { key_start, key_end } = state {\n          tags.push(TagPair {\n            key_start: key_start as u32 + 1,\n            key_end: (key_end - key_start) as u32,\n            value_end: (offset - (key_end + 1)) as u32,\n          });\n          state", "        if let State::Key { key_start } = &mut state {\n          *key_start = offset + 1;\n        }\n        if let State::Value { key_start, key_end } = state {\n          tags.push(TagPair {\n            key_start: key_start as u32 + 1,\n            key_end: (key_end - key_start) as u32,\n            value_end: (offset - (key_end + 1)) as u32,\n          });\n          state")],
  needs='the scalar parser and a tag without an equals sign in front of another tag', breaks='the scalar parser skips a bare key which the SIMD parser keeps as part of the next key',
  main=r'''
  fn main() {
    for t in ["a=b", "a=b;c=d", "a=b;x;c=d", "x;c=d", ";c=d"] { check(t, "PING"); }
  }
  '''),
 dict(id='c04-level-eleven', prop='C04', edits=[('src/msg/privmsg.rs', 'value > PinnedChatLevel::MAX as u8', 'value > PinnedChatLevel::MAX as u8 + 1')],
  needs='the number 11 as a pinned-chat level', breaks='a value that is no variant of the enum is transmuted into it',
  main=r'''
  use tmi::msg::privmsg::PinnedChatLevel as L;
  fn main() {
    for n in 0..=255u8 {
      let r = L::try_from(n);
      assert_eq!(r.is_ok(), (0..=9).contains(&n), "{n}");
    }
  }
  '''),
 dict(id='c04-prefix-bound', prop='C04', edits=[(P, 'for i in start..bytes.len() {', 'for i in start..bytes.len().max(start + 8) {')],
  needs='a line that ends inside a prefix shorter than eight bytes', breaks='bytes behind the end of the line are read without a bounds check',
  main=r'''
  fn main() {
    for n in 0..40 {
      let mut l = String::from(":");
      l.extend(std::iter::repeat('x').take(n));
      let _ = tmi::IrcMessageRef::parse(l.clone().into_boxed_str().as_ref());
    }
  }
  '''),
 dict(off=1, id='c13-find-window', prop='C13', edits=[(U, "if let Some(i) = value.find(['\\\\', '⸝']) {", "let head = value.get(..256).unwrap_or(&value);\n  if let Some(i) = head.find(['\\\\', '⸝']) {")],
  needs='a value whose first escape lies behind its first 256 bytes', breaks='such a value is returned with its escapes in place',
  main=r'''
  fn main() {
    for n in [0usize, 1, 100, 254, 255, 256, 1000] {
      let p = "é".repeat(n);
      assert_eq!(tmi::maybe_unescape(format!("{p}\\sx")), format!("{p} x"));
      assert_eq!(tmi::maybe_unescape(format!("{p}⸝x")), format!("{p},x"));
    }
  }
  '''),
 dict(id='c13-comma-escape', prop='C13', edits=[(U, "      '⸝' => {\n        out.push(',');\n        escape = false;", "      '⸝' => {\n        out.push(',');")],
  needs='a backslash in front of the comma stand-in, followed by an escape letter', breaks='the escape state survives the comma, so the letter after it is replaced',
  main=r'''
  fn main() {
    for (a, b) in [("a\\sb", "a b"), ("⸝s", ",s"), ("\\⸝s", ",s"), ("\\⸝\\s", ", "), ("x\\⸝n", "x,n")] { assert_eq!(tmi::maybe_unescape(a), b, "{a}"); }
  }
  '''),
]
