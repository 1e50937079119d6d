From 5767447146e3fb87361153e4bb775b30225d0e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 01/13] fix: IrcMessage::text returns all params when there is
 no `:`, like IrcMessageRef::text

---
 src/irc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irc.rs b/src/irc.rs
index 3478b40..1a66103 100644
--- a/src/irc.rs
+++ b/src/irc.rs
@@ -265,7 +265,7 @@ impl IrcMessage {
     match self.params() {
       Some(params) => match params.find(':') {
         Some(start) => Some(&params[start + 1..]),
-        None => None,
+        None => Some(params),
       },
       None => None,
     }
-- 
2.43.0


From beefbbfe233f0e8636fd2cdd5e9e0b800c1244b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 02/13] fix: Tag::PinnedChatPaidCanonicalAmount maps to its own
 tag name

---
 src/irc/tags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index c02837c..955b216 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -173,7 +173,7 @@ tags_def! {
   b"pinned-chat-paid-amount"; "pinned-chat-paid-amount" = PinnedChatPaidAmount,
 
   /// The value of the Hype Chat sent by the user. This seems to always be the same as `pinned-chat-paid-amount`.
-  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-amount" = PinnedChatPaidCanonicalAmount,
+  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-canonical-amount" = PinnedChatPaidCanonicalAmount,
 
   /// The ISO 4217 alphabetic currency code the user has sent the Hype Chat in.
   b"pinned-chat-paid-currency"; "pinned-chat-paid-currency" = PinnedChatPaidCurrency,
-- 
2.43.0


From 2c968206d32cb2ebe83ab5d88bdbee9273930456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 03/13] fix: followers-only duration no longer overflows

---
 src/msg/room_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msg/room_state.rs b/src/msg/room_state.rs
index 2c5f07d..402682b 100644
--- a/src/msg/room_state.rs
+++ b/src/msg/room_state.rs
@@ -103,7 +103,7 @@ impl<'src> RoomState<'src> {
         .tag(Tag::FollowersOnly)
         .and_then(|v| v.parse().ok())
         .map(|n: i64| match n {
-          n if n > 0 => FollowersOnly::Enabled(Some(Duration::from_secs((n * 60) as u64))),
+          n if n > 0 => FollowersOnly::Enabled(Some(Duration::from_secs((n as u64).saturating_mul(60)))),
           0 => FollowersOnly::Enabled(None),
           _ => FollowersOnly::Disabled,
         }),
-- 
2.43.0


From 12b56dd11233cec0e46f88b2df44cd016fcccc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 04/13] fix: reconnect delay saturates instead of panicking on
 overflow

---
 src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index ed0421f..566e5f1 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -291,7 +291,10 @@ impl Client {
       if let Some(tries) = &mut tries {
         *tries -= 1;
       }
-      delay = std::cmp::min(backoff.max_delay, delay * backoff.delay_multiplier);
+      delay = std::cmp::min(
+        backoff.max_delay,
+        delay.saturating_mul(backoff.delay_multiplier),
+      );
 
       trace!("opening connection to twitch");
       let stream = match conn::open(self.tls.clone()).timeout(timeout).await? {
-- 
2.43.0


From 4444bf4187ee515b6b9ccad540abc356970c9c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 05/13] fix: flush the TLS stream after sending a message

---
 src/client/write.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/write.rs b/src/client/write.rs
index 502b7ff..f6b4602 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -85,6 +85,7 @@ impl Client {
     let RawMessage { data } = s.try_into()?;
     trace!(data, "sending message");
     self.writer.write_all(data.as_bytes()).await?;
+    self.writer.flush().await?;
     Ok(())
   }
 
-- 
2.43.0


From f6da1523c7976d0811276a3a08564f2fbb732609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 06/13] fix: client feature builds without message-types

---
 src/client/write.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/write.rs b/src/client/write.rs
index f6b4602..2c94845 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -126,6 +126,7 @@ impl Client {
   }
 
   /// Send a `PONG` command in response to a `PING`.
+  #[cfg(feature = "message-types")]
   pub async fn pong(&mut self, ping: &crate::Ping<'_>) -> Result<(), SendError> {
     with_scratch!(self, |f| {
       if let Some(nonce) = ping.nonce() {
-- 
2.43.0


From e5f3e7f1c1bebbe055bc4985e5c663f1f62a1a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 07/13] fix: a subscriber badge which was serialized can be
 deserialized again

---
 src/msg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/msg.rs b/src/msg.rs
index 4ff0e04..e4112e2 100644
--- a/src/msg.rs
+++ b/src/msg.rs
@@ -441,7 +441,7 @@ static_assert_sync!(Message<'_>);
 #[cfg(feature = "serde")]
 mod _serde {
   use super::*;
-  use serde::{de, Deserialize, Deserializer};
+  use serde::{Deserialize, Deserializer};
 
   #[cfg(feature = "serde")]
   impl<'de: 'src, 'src> Deserialize<'de> for Subscriber<'src> {
@@ -459,7 +459,7 @@ mod _serde {
       let t = _T::deserialize(deserializer)?;
       Ok(Subscriber {
         version: t.version,
-        months_n: t.months.parse().map_err(de::Error::custom)?,
+        months_n: t.months.parse().unwrap_or(1),
         months: t.months,
       })
     }
-- 
2.43.0


From 3a525e67a3c4d51f66cbb196e5597f4a47f48a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 08/13] fix: a failed or cancelled handshake leaves nothing in
 the scratch buffer

---
 src/client.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 566e5f1..611fd18 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -327,7 +327,9 @@ impl Client {
     let credentials = &self.config.credentials;
     const CAP: &str = "twitch.tv/commands twitch.tv/tags twitch.tv/membership";
     trace!("CAP REQ {CAP:?}; NICK {:?}; PASS ***", credentials.login);
-    write!(&mut self.scratch, "CAP REQ :{CAP}\r\n").unwrap();
+    // taken out of `self`, so that nothing is left behind in it if we fail or get cancelled
+    let mut scratch = std::mem::take(&mut self.scratch);
+    write!(&mut scratch, "CAP REQ :{CAP}\r\n").unwrap();
 
     let login = credentials.login.as_str();
     let token = match credentials.token.as_ref() {
@@ -339,12 +341,13 @@ impl Client {
     } else {
       "oauth:"
     };
-    write!(&mut self.scratch, "PASS {oauth}{token}\r\n").unwrap();
-    write!(&mut self.scratch, "NICK {login}\r\n").unwrap();
+    write!(&mut scratch, "PASS {oauth}{token}\r\n").unwrap();
+    write!(&mut scratch, "NICK {login}\r\n").unwrap();
 
-    self.writer.write_all(self.scratch.as_bytes()).await?;
+    self.writer.write_all(scratch.as_bytes()).await?;
     self.writer.flush().await?;
-    self.scratch.clear();
+    scratch.clear();
+    self.scratch = scratch;
 
     trace!("waiting for CAP * ACK");
     let message = self.recv().timeout(Duration::from_secs(5)).await??;
-- 
2.43.0


From 6ee9e369477585957be0ddc93f0f2e2c81b05c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 09/13] fix: an escape applies to the next character only when
 unescaping

---
 src/irc.rs | 10 ++++++++--
 src/lib.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/irc.rs b/src/irc.rs
index 1a66103..d5ba06a 100644
--- a/src/irc.rs
+++ b/src/irc.rs
@@ -361,9 +361,15 @@ pub fn unescape(value: &str) -> String {
         out.push('\n');
         escape = false;
       }
-      '⸝' => out.push(','),
+      '⸝' => {
+        out.push(',');
+        escape = false;
+      }
       '\\' => escape = true,
-      c => out.push(c),
+      c => {
+        out.push(c);
+        escape = false;
+      }
     }
   }
   out
diff --git a/src/lib.rs b/src/lib.rs
index b9ced7f..462587f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -85,8 +85,14 @@ fn actually_unescape(input: &str, start: usize) -> String {
         out.push('\n');
         escape = false;
       }
-      '⸝' => out.push(','),
-      c => out.push(c),
+      '⸝' => {
+        out.push(',');
+        escape = false;
+      }
+      c => {
+        out.push(c);
+        escape = false;
+      }
     }
   }
 
-- 
2.43.0


From cec23bd5f13497dbf0bad2d6b047870e90b2ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 10/13] fix: scalar tag parser no longer panics if tags are not
 followed by a space

---
 src/irc/tags/scalar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 0ef9d8f..0b401a8 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -46,6 +46,11 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
     offset += 1;
   }
 
+  if offset == src.len() {
+    // tags must be followed by a space
+    return None;
+  }
+
   *pos += offset + 2; // skip '@' + space
 
   Some(RawTags(tags.to_vec()))
-- 
2.43.0


From 14f1c26dfdb376a017d145a9ece3857606f3070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 11/13] fix: parsing a message with more than 128 tags no
 longer panics

---
 src/irc/tags.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index 955b216..209c767 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -262,6 +262,8 @@ impl TagPair {
 struct Array<const CAPACITY: usize, T> {
   data: [core::mem::MaybeUninit<T>; CAPACITY],
   len: usize,
+  // values which did not fit into `data`
+  spill: Vec<T>,
 }
 
 impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
@@ -276,11 +278,17 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
       Self {
         data: array_of_uninit,
         len: 0,
+        spill: Vec::new(),
       }
     }
   }
 
   fn push(&mut self, value: T) {
+    if self.len == CAPACITY {
+      self.spill.push(value);
+      return;
+    }
+
     self.data[self.len].write(value);
     self.len += 1;
   }
@@ -288,7 +296,9 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
   fn to_vec(&self) -> Vec<T> {
     let init = &self.data[..self.len];
     let init = unsafe { core::mem::transmute::<&[core::mem::MaybeUninit<T>], &[T]>(init) };
-    init.to_vec()
+    let mut out = init.to_vec();
+    out.extend_from_slice(&self.spill);
+    out
   }
 }
 
-- 
2.43.0


From af489c5c38f82881a87d4d1f3bf00dc2939fe5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 12/13] fix: tag keys and values of 64 KiB and more are no
 longer truncated

---
 src/irc/tags.rs        | 10 +++++-----
 src/irc/tags/scalar.rs |  8 ++++----
 src/irc/tags/simd.rs   |  8 ++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index 209c767..a23a519 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -227,11 +227,11 @@ pub(super) struct TagPair {
   key_start: u32,
   // key=value
   //    ^
-  key_end: u16,
+  key_end: u32,
 
   // key=value
   //          ^
-  value_end: u16,
+  value_end: u32,
 }
 
 impl TagPair {
@@ -240,7 +240,7 @@ impl TagPair {
   #[inline]
   pub fn key(&self) -> Span {
     let start = self.key_start;
-    let end = start + self.key_end as u32;
+    let end = start + self.key_end;
     Span { start, end }
   }
 
@@ -248,8 +248,8 @@ impl TagPair {
   //     ^    ^
   #[inline]
   pub fn value(&self) -> Span {
-    let start = self.key_start + self.key_end as u32 + 1;
-    let end = start + self.value_end as u32;
+    let start = self.key_start + self.key_end + 1;
+    let end = start + self.value_end;
     Span { start, end }
   }
 
diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 0b401a8..5a0786d 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -22,8 +22,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
           state = State::Key {
             key_start: offset + 1,
@@ -34,8 +34,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
         }
         break;
diff --git a/src/irc/tags/simd.rs b/src/irc/tags/simd.rs
index b70e887..4d9b390 100644
--- a/src/irc/tags/simd.rs
+++ b/src/irc/tags/simd.rs
@@ -31,9 +31,9 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
       tags.push(TagPair {
         // relative to original `src`
         key_start: key_start as u32 + 1,
-        key_end: (key_end - key_start) as u16,
+        key_end: (key_end - key_start) as u32,
         // starts after `=`
-        value_end: (pos - (key_end + 1)) as u16,
+        value_end: (pos - (key_end + 1)) as u32,
       });
     }
   }
@@ -86,9 +86,9 @@ fn parse_chunk(offset: usize, chunk: V, state: &mut State, tags: &mut Array<128,
         tags.push(TagPair {
           // relative to original `src`
           key_start: key_start as u32 + 1,
-          key_end: (key_end - key_start) as u16,
+          key_end: (key_end - key_start) as u32,
           // starts after `=`
-          value_end: (pos - (key_end + 1)) as u16,
+          value_end: (pos - (key_end + 1)) as u32,
         });
       }
     }
-- 
2.43.0


From 168afba236debd12a2b5fbabd4a1f317bc7084a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 13/13] fix: maybe_unescape also replaces the substitute comma
 when there is no escape before it

---
 src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 462587f..9ea0fd9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -47,11 +47,8 @@ use std::borrow::Cow;
 /// Otherwise, it returns a borrow of the original `value`.
 pub fn maybe_unescape<'a>(value: impl Into<Cow<'a, str>>) -> Cow<'a, str> {
   let mut value: Cow<'_, str> = value.into();
-  for i in 0..value.len() {
-    if value.as_bytes()[i] == b'\\' {
-      value = Cow::Owned(actually_unescape(&value, i));
-      break;
-    }
+  if let Some(i) = value.find(['\\', '⸝']) {
+    value = Cow::Owned(actually_unescape(&value, i));
   }
   value
 }
-- 
2.43.0

