From 16c41b8ee002f67cd02531d04f3364692b2d9f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 1/5] fix: parse two-digit xterm codes as their decimal value

---
 src/from_str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_str.rs b/src/from_str.rs
index bcf5b5c..ce39583 100644
--- a/src/from_str.rs
+++ b/src/from_str.rs
@@ -48,7 +48,7 @@ impl FromStr for Color {
                 })
             }
             &[a @ b'0'..=b'9'] => Self::Xterm((a - b'0').into()),
-            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + b).into()),
+            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + (b - b'0')).into()),
             &[a @ b'0'..=b'1', b @ b'0'..=b'9', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'0'..=b'4', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'5', c @ b'0'..=b'5'] => {
-- 
2.43.0


From 9d0c90043abb920452f75992d437118bb4919f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 2/5] fix: write foreground arguments for Color::Rgb
 foregrounds

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 796c728..ada56f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -235,7 +235,7 @@ impl WriteColor for Color {
             Color::Ansi(color) => color.fmt_foreground_args(f),
             Color::Css(color) => color.fmt_foreground_args(f),
             Color::Xterm(color) => color.fmt_foreground_args(f),
-            Color::Rgb(color) => color.fmt_background_args(f),
+            Color::Rgb(color) => color.fmt_foreground_args(f),
         }
     }
 
-- 
2.43.0


From 671ce0ac637970a3fe42a5a793b36188116923ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 3/5] fix: use SGR 74 for SubScript

---
 src/style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/style.rs b/src/style.rs
index 6a05a64..9536dd4 100644
--- a/src/style.rs
+++ b/src/style.rs
@@ -558,7 +558,7 @@ Effect! {
     ///
     /// println!("{}", "hello world".subscript());
     /// ```
-    SubScript 73 75 -> subscript,
+    SubScript 74 75 -> subscript,
 }
 
 const ANY_UNDERLINE: EffectFlags = EffectFlags::new()
-- 
2.43.0


From bf367230c4eb71abf50e0eb6cd2ec46107af262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 4/5] fix: reject six byte modes and streams that end in a
 space or nul

---
 src/mode.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mode.rs b/src/mode.rs
index 19a46c3..164e466 100644
--- a/src/mode.rs
+++ b/src/mode.rs
@@ -74,6 +74,8 @@ impl Mode {
 
         let data = match *s {
             [a, b, c, d, e] => u64::from_ne_bytes([a, b, c, d, e, 0, 0, 0]),
+            // these would be indistinguishable from the padding of a shorter word
+            [_, _, _, _, _, 0 | b' '] => return Err(ModeFromStrError),
             [a, b, c, d, e, f] => u64::from_ne_bytes([a, b, c, d, e, f, 0, 0]),
             _ => return Err(ModeFromStrError),
         };
@@ -139,6 +141,8 @@ impl Stream {
 
         let data = match *s {
             [a, b, c, d, e] => u64::from_ne_bytes([a, b, c, d, e, 0, 0, 0]),
+            // these would be indistinguishable from the padding of a shorter word
+            [_, _, _, _, _, 0 | b' '] => return Err(StreamFromStrError),
             [a, b, c, d, e, f] => u64::from_ne_bytes([a, b, c, d, e, f, 0, 0]),
             _ => return Err(StreamFromStrError),
         };
-- 
2.43.0


From 90cf4d6b3ef48b11ca433ad0aad1738567a403c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:17 +0000
Subject: [PATCH 5/5] fix: let the ansi default color reset the underline color

---
 src/ansi.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ansi.rs b/src/ansi.rs
index f52af4b..d570429 100644
--- a/src/ansi.rs
+++ b/src/ansi.rs
@@ -91,7 +91,11 @@ macro_rules! MkAnsiColor {
             #[inline]
             /// The ANSI background color args
             pub const fn underline_args(self) -> &'static str {
-                self.to_xterm().underline_args()
+                match self {
+                    // there is no xterm color which means the default color
+                    Self::Default => "59",
+                    _ => self.to_xterm().underline_args(),
+                }
             }
 
             #[inline]
@@ -113,7 +117,11 @@ macro_rules! MkAnsiColor {
             #[inline]
             /// The ANSI underline color escape sequence
             pub const fn underline_escape(self) -> &'static str {
-                self.to_xterm().underline_escape()
+                match self {
+                    // there is no xterm color which means the default color
+                    Self::Default => "\x1b[59m",
+                    _ => self.to_xterm().underline_escape(),
+                }
             }
 
             #[inline]
@@ -145,7 +153,7 @@ macro_rules! MkAnsiColor {
 
             #[inline]
             fn underline_args(self) -> &'static str {
-                self.to_xterm().underline_args()
+                self.underline_args()
             }
 
             #[inline]
@@ -170,7 +178,7 @@ macro_rules! MkAnsiColor {
 
             #[inline]
             fn underline_escape(self) -> &'static str {
-                self.to_xterm().underline_escape()
+                self.underline_escape()
             }
         }
 
@@ -217,7 +225,7 @@ macro_rules! MkAnsiColor {
 
                 #[inline]
                 fn underline_args(self) -> &'static str {
-                    <xterm_from_code!($xterm)>::UNDERLINE_ARGS
+                    Self::DYNAMIC.underline_args()
                 }
 
                 #[inline]
@@ -232,7 +240,7 @@ macro_rules! MkAnsiColor {
 
                 #[inline]
                 fn underline_escape(self) -> &'static str {
-                    <xterm_from_code!($xterm)>::UNDERLINE_ESCAPE
+                    Self::DYNAMIC.underline_escape()
                 }
             }
         )*
-- 
2.43.0

