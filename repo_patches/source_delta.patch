From f303cfc890d4f51e360e87ac3a909578c3a27b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 01/19] fix: scalar tag parser: tags without a terminating
 space are not tags

Without the `simd` feature, a message such as `@a=b` moved the parse position
past the end of the input, and slicing the rest of the message panicked. The
SIMD parser returns no tags in this case.
---
 src/irc/tags/scalar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 0ef9d8f..15e0613 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -46,6 +46,11 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
     offset += 1;
   }
 
+  // tags must be terminated by a space
+  if offset == src.len() {
+    return None;
+  }
+
   *pos += offset + 2; // skip '@' + space
 
   Some(RawTags(tags.to_vec()))
-- 
2.43.0


From 589f0bc0feb81ebca30a3204718b4a0add78928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 02/19] fix: accept messages with more than 128 tags

The tag parsers collect tags in an array of 128 elements, and panicked on the
129th.
---
 src/irc/tags.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index c02837c..32f645b 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -262,6 +262,8 @@ impl TagPair {
 struct Array<const CAPACITY: usize, T> {
   data: [core::mem::MaybeUninit<T>; CAPACITY],
   len: usize,
+  // holds the values which do not fit into `data`
+  rest: Vec<T>,
 }
 
 impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
@@ -276,11 +278,17 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
       Self {
         data: array_of_uninit,
         len: 0,
+        rest: Vec::new(),
       }
     }
   }
 
   fn push(&mut self, value: T) {
+    if self.len == CAPACITY {
+      self.rest.push(value);
+      return;
+    }
+
     self.data[self.len].write(value);
     self.len += 1;
   }
@@ -288,7 +296,7 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
   fn to_vec(&self) -> Vec<T> {
     let init = &self.data[..self.len];
     let init = unsafe { core::mem::transmute::<&[core::mem::MaybeUninit<T>], &[T]>(init) };
-    init.to_vec()
+    [init, &self.rest[..]].concat()
   }
 }
 
-- 
2.43.0


From f2ef209f99ff732a116d4bedb6df482d0a54dc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 03/19] fix: do not truncate the length of tags longer than
 65535 bytes

The length of a key or value was cast to u16, so the parser returned a wrong
slice, or panicked when the slice was not on a character boundary.
---
 src/irc/tags.rs        | 10 +++++-----
 src/irc/tags/scalar.rs |  8 ++++----
 src/irc/tags/simd.rs   |  8 ++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index 32f645b..fe6bfb7 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -227,11 +227,11 @@ pub(super) struct TagPair {
   key_start: u32,
   // key=value
   //    ^
-  key_end: u16,
+  key_end: u32,
 
   // key=value
   //          ^
-  value_end: u16,
+  value_end: u32,
 }
 
 impl TagPair {
@@ -240,7 +240,7 @@ impl TagPair {
   #[inline]
   pub fn key(&self) -> Span {
     let start = self.key_start;
-    let end = start + self.key_end as u32;
+    let end = start + self.key_end;
     Span { start, end }
   }
 
@@ -248,8 +248,8 @@ impl TagPair {
   //     ^    ^
   #[inline]
   pub fn value(&self) -> Span {
-    let start = self.key_start + self.key_end as u32 + 1;
-    let end = start + self.value_end as u32;
+    let start = self.key_start + self.key_end + 1;
+    let end = start + self.value_end;
     Span { start, end }
   }
 
diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 15e0613..4e664a7 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -22,8 +22,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
           state = State::Key {
             key_start: offset + 1,
@@ -34,8 +34,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
         }
         break;
diff --git a/src/irc/tags/simd.rs b/src/irc/tags/simd.rs
index b70e887..4d9b390 100644
--- a/src/irc/tags/simd.rs
+++ b/src/irc/tags/simd.rs
@@ -31,9 +31,9 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
       tags.push(TagPair {
         // relative to original `src`
         key_start: key_start as u32 + 1,
-        key_end: (key_end - key_start) as u16,
+        key_end: (key_end - key_start) as u32,
         // starts after `=`
-        value_end: (pos - (key_end + 1)) as u16,
+        value_end: (pos - (key_end + 1)) as u32,
       });
     }
   }
@@ -86,9 +86,9 @@ fn parse_chunk(offset: usize, chunk: V, state: &mut State, tags: &mut Array<128,
         tags.push(TagPair {
           // relative to original `src`
           key_start: key_start as u32 + 1,
-          key_end: (key_end - key_start) as u16,
+          key_end: (key_end - key_start) as u32,
           // starts after `=`
-          value_end: (pos - (key_end + 1)) as u16,
+          value_end: (pos - (key_end + 1)) as u32,
         });
       }
     }
-- 
2.43.0


From d3af62ad99df468832e183a56e4ebd960531f948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 04/19] fix: IrcMessage::text returns all params if there is no
 colon

`IrcMessageRef::text` does (and documents it), the owned variant returned None
for the same message.
---
 src/irc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irc.rs b/src/irc.rs
index 3478b40..ab3b9a9 100644
--- a/src/irc.rs
+++ b/src/irc.rs
@@ -261,11 +261,13 @@ impl IrcMessage {
   }
 
   /// Returns the contents of the params after the last `:`.
+  ///
+  /// If `:` is not present, returns all params.
   pub fn text(&self) -> Option<&str> {
     match self.params() {
       Some(params) => match params.find(':') {
         Some(start) => Some(&params[start + 1..]),
-        None => None,
+        None => Some(params),
       },
       None => None,
     }
-- 
2.43.0


From c92d9ad49e909b50aafca34b749ba9b371ab6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 05/19] fix: Tag::PinnedChatPaidCanonicalAmount has its own
 name

Its string value was that of `PinnedChatPaidAmount`, so that looking it up in a
message returned the value of the other tag.
---
 src/irc/tags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index fe6bfb7..654c6dc 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -173,7 +173,7 @@ tags_def! {
   b"pinned-chat-paid-amount"; "pinned-chat-paid-amount" = PinnedChatPaidAmount,
 
   /// The value of the Hype Chat sent by the user. This seems to always be the same as `pinned-chat-paid-amount`.
-  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-amount" = PinnedChatPaidCanonicalAmount,
+  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-canonical-amount" = PinnedChatPaidCanonicalAmount,
 
   /// The ISO 4217 alphabetic currency code the user has sent the Hype Chat in.
   b"pinned-chat-paid-currency"; "pinned-chat-paid-currency" = PinnedChatPaidCurrency,
-- 
2.43.0


From 0f2c425b78fd98c026def96fdc81a4b7bc0fdfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 06/19] fix: an invalid escape sequence does not affect the
 text after it

`unescape` and `maybe_unescape` stayed in the escaped state after a backslash
which is followed by a character without an escaped meaning, so the next
matching character was unescaped: `\xs` became `x ` instead of `xs`.
---
 src/irc.rs | 11 +++++++++--
 src/lib.rs | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/irc.rs b/src/irc.rs
index ab3b9a9..e3067f4 100644
--- a/src/irc.rs
+++ b/src/irc.rs
@@ -363,9 +363,16 @@ pub fn unescape(value: &str) -> String {
         out.push('\n');
         escape = false;
       }
-      '⸝' => out.push(','),
+      '⸝' => {
+        out.push(',');
+        escape = false;
+      }
       '\\' => escape = true,
-      c => out.push(c),
+      // not a valid escape, which drops only the `\`
+      c => {
+        out.push(c);
+        escape = false;
+      }
     }
   }
   out
diff --git a/src/lib.rs b/src/lib.rs
index b9ced7f..2f2f3fa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -85,8 +85,15 @@ fn actually_unescape(input: &str, start: usize) -> String {
         out.push('\n');
         escape = false;
       }
-      '⸝' => out.push(','),
-      c => out.push(c),
+      '⸝' => {
+        out.push(',');
+        escape = false;
+      }
+      // not a valid escape, which drops only the `\`
+      c => {
+        out.push(c);
+        escape = false;
+      }
     }
   }
 
-- 
2.43.0


From 28b7a5a639dae2b0c171f5acb63dd8560d3728da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 07/19] fix: maybe_unescape also unescapes commas in text
 without a backslash
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

`unescape` turns every `⸝` into a comma, `maybe_unescape` only did so if the
`⸝` comes after a backslash.
---
 src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2f2f3fa..251ff21 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -47,11 +47,8 @@ use std::borrow::Cow;
 /// Otherwise, it returns a borrow of the original `value`.
 pub fn maybe_unescape<'a>(value: impl Into<Cow<'a, str>>) -> Cow<'a, str> {
   let mut value: Cow<'_, str> = value.into();
-  for i in 0..value.len() {
-    if value.as_bytes()[i] == b'\\' {
-      value = Cow::Owned(actually_unescape(&value, i));
-      break;
-    }
+  if let Some(i) = value.find(['\\', '⸝']) {
+    value = Cow::Owned(actually_unescape(&value, i));
   }
   value
 }
-- 
2.43.0


From e680fe767e446d4813d46df03f10f11479905b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 08/19] fix: followers-only duration does not overflow

Converting the number of minutes to seconds panicked with overflow checks, and
wrapped without them.
---
 src/msg/room_state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/msg/room_state.rs b/src/msg/room_state.rs
index 2c5f07d..059a315 100644
--- a/src/msg/room_state.rs
+++ b/src/msg/room_state.rs
@@ -103,7 +103,9 @@ impl<'src> RoomState<'src> {
         .tag(Tag::FollowersOnly)
         .and_then(|v| v.parse().ok())
         .map(|n: i64| match n {
-          n if n > 0 => FollowersOnly::Enabled(Some(Duration::from_secs((n * 60) as u64))),
+          n if n > 0 => {
+            FollowersOnly::Enabled(Some(Duration::from_secs((n as u64).saturating_mul(60))))
+          }
           0 => FollowersOnly::Enabled(None),
           _ => FollowersOnly::Disabled,
         }),
-- 
2.43.0


From a1bd7754f46df678f8bb05c73bd0f24c1a40ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 09/19] fix: keep badges of messages which have no badge-info
 tag

All badges were dropped, although `badge-info` only adds details to some.
---
 src/msg/global_user_state.rs | 3 +--
 src/msg/privmsg.rs           | 6 ++----
 src/msg/user_notice.rs       | 3 +--
 src/msg/user_state.rs        | 3 +--
 src/msg/whisper.rs           | 3 +--
 5 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/msg/global_user_state.rs b/src/msg/global_user_state.rs
index dbe320a..1fb95c8 100644
--- a/src/msg/global_user_state.rs
+++ b/src/msg/global_user_state.rs
@@ -73,8 +73,7 @@ impl<'src> GlobalUserState<'src> {
       name: message.tag(Tag::DisplayName)?.into(),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emote_sets: message
         .tag(Tag::EmoteSets)
diff --git a/src/msg/privmsg.rs b/src/msg/privmsg.rs
index 98b2ca6..ca92cc1 100644
--- a/src/msg/privmsg.rs
+++ b/src/msg/privmsg.rs
@@ -321,8 +321,7 @@ generate_getters! {
   is_action,
   badges: message
     .tag(Tag::Badges)
-    .zip(message.tag(Tag::BadgeInfo))
-    .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+    .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
     .unwrap_or_default(),
   color: message
     .tag(Tag::Color)
@@ -386,8 +385,7 @@ impl<'src> Privmsg<'src> {
     let text = text.into();
     let badges = message
       .tag(Tag::Badges)
-      .zip(message.tag(Tag::BadgeInfo))
-      .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+      .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
       .unwrap_or_default();
     let color = message
       .tag(Tag::Color)
diff --git a/src/msg/user_notice.rs b/src/msg/user_notice.rs
index 316a0ee..81d2db0 100644
--- a/src/msg/user_notice.rs
+++ b/src/msg/user_notice.rs
@@ -601,8 +601,7 @@ impl<'src> UserNotice<'src> {
       event_id: event_id.into(),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emotes: message.tag(Tag::Emotes).unwrap_or_default().into(),
       color: message
diff --git a/src/msg/user_state.rs b/src/msg/user_state.rs
index 69f8c99..3cbb544 100644
--- a/src/msg/user_state.rs
+++ b/src/msg/user_state.rs
@@ -76,8 +76,7 @@ impl<'src> UserState<'src> {
       user_name: message.tag(Tag::DisplayName)?.into(),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emote_sets: message
         .tag(Tag::EmoteSets)
diff --git a/src/msg/whisper.rs b/src/msg/whisper.rs
index 1df8148..441e66a 100644
--- a/src/msg/whisper.rs
+++ b/src/msg/whisper.rs
@@ -83,8 +83,7 @@ impl<'src> Whisper<'src> {
         .map(|v| v.into()),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emotes: message.tag(Tag::Emotes).unwrap_or_default().into(),
     })
-- 
2.43.0


From 0968d28556c00173d8b18280dbcc8f7e761c4f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 10/19] fix: deserialize subscriber badges with malformed
 months

Parsing a message accepts such a badge and counts it as 1 month, but the
serialized message could not be deserialized.
---
 src/msg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/msg.rs b/src/msg.rs
index 4ff0e04..e4112e2 100644
--- a/src/msg.rs
+++ b/src/msg.rs
@@ -441,7 +441,7 @@ static_assert_sync!(Message<'_>);
 #[cfg(feature = "serde")]
 mod _serde {
   use super::*;
-  use serde::{de, Deserialize, Deserializer};
+  use serde::{Deserialize, Deserializer};
 
   #[cfg(feature = "serde")]
   impl<'de: 'src, 'src> Deserialize<'de> for Subscriber<'src> {
@@ -459,7 +459,7 @@ mod _serde {
       let t = _T::deserialize(deserializer)?;
       Ok(Subscriber {
         version: t.version,
-        months_n: t.months.parse().map_err(de::Error::custom)?,
+        months_n: t.months.parse().unwrap_or(1),
         months: t.months,
       })
     }
-- 
2.43.0


From e64b92d42fd9d19041421c3eb1ba83c8eb023185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 11/19] fix: unescape user_name, gifter_name and promo_name

Every other getter of a display name or free text returns it unescaped.
---
 src/msg/user_notice.rs | 4 ++--
 src/msg/user_state.rs  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/msg/user_notice.rs b/src/msg/user_notice.rs
index 81d2db0..4788ce1 100644
--- a/src/msg/user_notice.rs
+++ b/src/msg/user_notice.rs
@@ -450,7 +450,7 @@ fn parse_promotion<'src>(message: &IrcMessageRef<'src>) -> Option<SubGiftPromo<'
   ) {
     (Some(total_gifts), Some(promo_name)) => Some(SubGiftPromo {
       total_gifts,
-      promo_name: promo_name.into(),
+      promo_name: maybe_unescape(promo_name),
     }),
     _ => None,
   }
@@ -544,7 +544,7 @@ impl<'src> UserNotice<'src> {
       "giftpaidupgrade" => (
         Event::GiftPaidUpgrade(GiftPaidUpgrade {
           gifter_login: message.tag(Tag::MsgParamSenderLogin)?.into(),
-          gifter_name: message.tag(Tag::MsgParamSenderName)?.into(),
+          gifter_name: maybe_unescape(message.tag(Tag::MsgParamSenderName)?),
           promotion: parse_promotion(&message),
         }),
         false,
diff --git a/src/msg/user_state.rs b/src/msg/user_state.rs
index 3cbb544..67861b8 100644
--- a/src/msg/user_state.rs
+++ b/src/msg/user_state.rs
@@ -5,7 +5,9 @@
 //!
 //! For example, [`UserState::badges`] may be different from [`GlobalUserState::badges`][crate::msg::global_user_state::GlobalUserState::badges].
 
-use super::{is_not_empty, maybe_clone, parse_badges, split_comma, Badge, MessageParseError};
+use super::{
+  is_not_empty, maybe_clone, maybe_unescape, parse_badges, split_comma, Badge, MessageParseError,
+};
 use crate::irc::{Command, IrcMessageRef, Tag};
 use std::borrow::Cow;
 
@@ -73,7 +75,7 @@ impl<'src> UserState<'src> {
 
     Some(UserState {
       channel: message.channel()?.into(),
-      user_name: message.tag(Tag::DisplayName)?.into(),
+      user_name: maybe_unescape(message.tag(Tag::DisplayName)?),
       badges: message
         .tag(Tag::Badges)
         .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
-- 
2.43.0


From 4682432e2015f0870f9efe849aa149bd7fd2afc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 12/19] fix: a failed handshake does not leave the credentials
 in the scratch buffer

---
 src/client.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index ed0421f..6d85df2 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -324,7 +324,10 @@ impl Client {
     let credentials = &self.config.credentials;
     const CAP: &str = "twitch.tv/commands twitch.tv/tags twitch.tv/membership";
     trace!("CAP REQ {CAP:?}; NICK {:?}; PASS ***", credentials.login);
-    write!(&mut self.scratch, "CAP REQ :{CAP}\r\n").unwrap();
+
+    // leave `self.scratch` empty in case sending the handshake fails
+    let mut scratch = std::mem::take(&mut self.scratch);
+    write!(&mut scratch, "CAP REQ :{CAP}\r\n").unwrap();
 
     let login = credentials.login.as_str();
     let token = match credentials.token.as_ref() {
@@ -336,12 +339,13 @@ impl Client {
     } else {
       "oauth:"
     };
-    write!(&mut self.scratch, "PASS {oauth}{token}\r\n").unwrap();
-    write!(&mut self.scratch, "NICK {login}\r\n").unwrap();
+    write!(&mut scratch, "PASS {oauth}{token}\r\n").unwrap();
+    write!(&mut scratch, "NICK {login}\r\n").unwrap();
 
-    self.writer.write_all(self.scratch.as_bytes()).await?;
+    self.writer.write_all(scratch.as_bytes()).await?;
     self.writer.flush().await?;
-    self.scratch.clear();
+    scratch.clear();
+    self.scratch = scratch;
 
     trace!("waiting for CAP * ACK");
     let message = self.recv().timeout(Duration::from_secs(5)).await??;
-- 
2.43.0


From b75a00f5ac38dbeae560725ac9743b8843bd61d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 13/19] fix: flush the stream after sending a message

Under backpressure the TLS layer accepts the data without writing all of it to
the socket, and it stayed there until the next call.
---
 src/client/write.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/write.rs b/src/client/write.rs
index 502b7ff..f6b4602 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -85,6 +85,7 @@ impl Client {
     let RawMessage { data } = s.try_into()?;
     trace!(data, "sending message");
     self.writer.write_all(data.as_bytes()).await?;
+    self.writer.flush().await?;
     Ok(())
   }
 
-- 
2.43.0


From fdc7352c32d621bd35f493d9fff9e4328a9109ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 14/19] fix: escape the values of tags in Privmsg

---
 src/client/write.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/client/write.rs b/src/client/write.rs
index f6b4602..90482a1 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -1,7 +1,7 @@
 use super::{conn, Client};
 use crate::common::JoinIter;
 use std::convert::Infallible;
-use std::fmt::Display;
+use std::fmt::{Display, Write};
 use tokio::io;
 use tokio::io::{AsyncWriteExt, WriteHalf};
 
@@ -23,8 +23,18 @@ struct Tag<'a> {
 impl<'a> std::fmt::Display for Tag<'a> {
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
     let Self { key, value } = self;
-    // TODO: handle escaping
-    write!(f, "{key}={value}")
+    write!(f, "{key}=")?;
+    for c in value.chars() {
+      match c {
+        ';' => f.write_str("\\:")?,
+        ' ' => f.write_str("\\s")?,
+        '\\' => f.write_str("\\\\")?,
+        '\r' => f.write_str("\\r")?,
+        '\n' => f.write_str("\\n")?,
+        c => f.write_char(c)?,
+      }
+    }
+    Ok(())
   }
 }
 
-- 
2.43.0


From 3b51c0232b3e23a138048d147c0e219cf81ff624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 15/19] fix: refuse to send messages with line breaks in their
 arguments

---
 src/client/write.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/client/write.rs b/src/client/write.rs
index 90482a1..7146117 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -76,7 +76,7 @@ impl<'a> Privmsg<'a> {
         let _ = write!(f, "@{tags} ");
       }
       let _ = write!(f, "PRIVMSG {channel} :{text}\r\n");
-      client.send_raw(f.as_str()).await
+      client.send_line(f.as_str()).await
     })
   }
 }
@@ -99,6 +99,14 @@ impl Client {
     Ok(())
   }
 
+  /// Send a message which was formatted from arguments that must not contain line breaks.
+  async fn send_line(&mut self, s: &str) -> Result<(), SendError> {
+    if s.strip_suffix("\r\n").unwrap_or(s).contains(['\r', '\n']) {
+      return Err(InvalidMessage.into());
+    }
+    self.send_raw(s).await
+  }
+
   /// Create a `privmsg` from a `channel` and `text`.
   ///
   /// ```rust,no_run
@@ -131,7 +139,7 @@ impl Client {
   pub async fn ping(&mut self, nonce: &str) -> Result<(), SendError> {
     with_scratch!(self, |f| {
       let _ = write!(f, "PING :{nonce}\r\n");
-      self.send_raw(f.as_str()).await
+      self.send_line(f.as_str()).await
     })
   }
 
@@ -143,7 +151,7 @@ impl Client {
       } else {
         let _ = write!(f, "PONG\r\n");
       }
-      self.send_raw(f.as_str()).await
+      self.send_line(f.as_str()).await
     })
   }
 
@@ -156,7 +164,7 @@ impl Client {
     with_scratch!(self, |f| {
       let channel = Channel(channel);
       let _ = write!(f, "JOIN {channel}\r\n");
-      Ok(self.send_raw(f.as_str()).await?)
+      Ok(self.send_line(f.as_str()).await?)
     })
   }
 
@@ -181,7 +189,7 @@ impl Client {
         let _ = write!(f, ",{channel}");
       }
       let _ = f.write_str("\r\n");
-      self.send_raw(f.as_str()).await
+      self.send_line(f.as_str()).await
     })
   }
 }
@@ -282,7 +290,7 @@ pub struct RawMessage<'a> {
 pub struct InvalidMessage;
 impl std::fmt::Display for InvalidMessage {
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-    f.write_str("not terminated by \"\\r\\n\"")
+    f.write_str("not a single line terminated by \"\\r\\n\"")
   }
 }
 impl std::error::Error for InvalidMessage {}
-- 
2.43.0


From 3a456e71cfde63e774cf5269ae94f6f8044f8b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 16/19] fix: a connection reset is a disconnect

---
 src/client/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/read.rs b/src/client/read.rs
index 9b2e59a..dd4128c 100644
--- a/src/client/read.rs
+++ b/src/client/read.rs
@@ -42,7 +42,10 @@ impl RecvError {
       RecvError::Io(e)
         if matches!(
           e.kind(),
-          io::ErrorKind::UnexpectedEof | io::ErrorKind::ConnectionAborted | io::ErrorKind::TimedOut
+          io::ErrorKind::UnexpectedEof
+            | io::ErrorKind::ConnectionAborted
+            | io::ErrorKind::ConnectionReset
+            | io::ErrorKind::TimedOut
         ) =>
       {
         true
-- 
2.43.0


From c201eaa84c03bd3079c467a9182e47b1d38b3b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 17/19] fix: recv does not panic after a disconnect in the
 middle of a line

In debug builds tokio panics if its line reader is polled again after an I/O
error while it holds a partial line.
---
 src/client.rs      | 3 +++
 src/client/read.rs | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 6d85df2..62533f0 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -239,6 +239,7 @@ impl ClientBuilder {
 pub struct Client {
   reader: ReadStream,
   writer: WriteStream,
+  disconnected: bool,
 
   scratch: String,
   tls: TlsConfig,
@@ -269,6 +270,7 @@ impl Client {
     let mut client = Client {
       reader,
       writer,
+      disconnected: false,
       scratch: String::with_capacity(1024),
       tls,
       config,
@@ -303,6 +305,7 @@ impl Client {
       };
 
       (self.reader, self.writer) = split(stream);
+      self.disconnected = false;
 
       if let Err(e) = self.handshake().timeout(timeout).await? {
         if e.should_retry() {
diff --git a/src/client/read.rs b/src/client/read.rs
index dd4128c..6b0b3d8 100644
--- a/src/client/read.rs
+++ b/src/client/read.rs
@@ -12,8 +12,14 @@ pub type ReadStream = Fuse<LinesStream<BufReader<ReadHalf<conn::Stream>>>>;
 impl Client {
   /// Read a single [`IrcMessage`] from the underlying stream.
   pub async fn recv(&mut self) -> Result<IrcMessage, RecvError> {
+    if self.disconnected {
+      return Err(RecvError::StreamClosed);
+    }
     if let Some(message) = self.reader.next().await {
-      let message = message?;
+      let message = message.map_err(RecvError::Io).inspect_err(|e| {
+        // the line reader must not be polled again, it may still hold a partial line
+        self.disconnected = e.is_disconnect();
+      })?;
       Ok(IrcMessage::parse(&message).ok_or(RecvError::Parse(message))?)
     } else {
       Err(RecvError::StreamClosed)
-- 
2.43.0


From 5aa06c51186281b4562ddee671451354112288f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 18/19] fix: the changelog's range link ends where the range
 ends

---
 xtask/src/task/changelog.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xtask/src/task/changelog.rs b/xtask/src/task/changelog.rs
index d1e471e..0708c9c 100644
--- a/xtask/src/task/changelog.rs
+++ b/xtask/src/task/changelog.rs
@@ -40,7 +40,11 @@ impl Changelog {
     }
 
     let latest_commit = git("log")
-      .with_args(["-1", "--pretty=format:%h"])
+      .with_args([
+        "-1",
+        "--pretty=format:%h",
+        self.until.as_deref().unwrap_or("HEAD"),
+      ])
       .run_with_output()?;
     let gh_commit_range = format!(
       "[{0}..{1}](https://github.com/jprochazk/tmi-rs/compare/{0}...{1})",
-- 
2.43.0


From 820c6b5224efe0d81e47e9241301acc1ed5d058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:30 +0000
Subject: [PATCH 19/19] fix: the client feature builds without message-types

---
 src/client/write.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/write.rs b/src/client/write.rs
index 7146117..18afeba 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -144,6 +144,7 @@ impl Client {
   }
 
   /// Send a `PONG` command in response to a `PING`.
+  #[cfg(feature = "message-types")]
   pub async fn pong(&mut self, ping: &crate::Ping<'_>) -> Result<(), SendError> {
     with_scratch!(self, |f| {
       if let Some(nonce) = ping.nonce() {
-- 
2.43.0

