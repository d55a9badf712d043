From fceff9afbaec3918d2b3fa6e17fcdd8b6b1dc822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 01/17] fix: record a symbol's name before its code is visible
 to other threads

---
 src/symbols.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/symbols.rs b/src/symbols.rs
index 5d736a3..ea433e7 100644
--- a/src/symbols.rs
+++ b/src/symbols.rs
@@ -71,11 +71,9 @@ pub fn get_code(name: &str) -> Result<u32, Error> {
     }
 
     let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);
-    register.insert(name.clone(), code);
-    drop(register);
-
-    let mut register = get_name_register().write()?;
-    register.insert(code, name);
+    // The code must not become visible to other threads before its name is.
+    get_name_register().write()?.insert(code, name.clone());
+    register.insert(name, code);
     drop(register);
 
     Ok(code)
-- 
2.43.0


From 8ada33575e79cc55c1f9cbc3b59a024eb5d06731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 02/17] fix: do not end a production string at punctuation that
 follows whitespace

---
 src/parser/iterator.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/iterator.rs b/src/parser/iterator.rs
index acd88f1..d4506fd 100644
--- a/src/parser/iterator.rs
+++ b/src/parser/iterator.rs
@@ -37,7 +37,7 @@ impl<'a> Iterator for TokenIterator<'a> {
             let brk = next_break(text, index);
 
             if let Break::Token(i, c) = brk {
-                if i == 0 {
+                if i == index {
                     let mut chars : Vec<char> = vec![c];
                     let mut lookahead = next_break(text, index + 1);
                     while lookahead.is_token() && lookahead.index() == index + chars.len() {
@@ -45,15 +45,15 @@ impl<'a> Iterator for TokenIterator<'a> {
                         lookahead = next_break(text, index + chars.len())
                     }
 
-                    let index_start = self.current;
-                    let index_end = self.current + chars.len();
-                    self.current += chars.len();
+                    let index_start = self.current + index;
+                    let index_end = index_start + chars.len();
+                    self.current = index_end;
 
                     return Some(Token::new(&text[index..index + chars.len()], index_start, index_end));
                 }
             }
 
-            let index_start = self.current;
+            let index_start = self.current + index;
             let index_end = self.current + brk.index();
             self.current += brk.index();
 
-- 
2.43.0


From e1c1b360cc61b396a138140133a4598147ddf3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 03/17] fix: do not panic on whitespace longer than one byte
 between tokens

---
 src/parser/iterator.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/parser/iterator.rs b/src/parser/iterator.rs
index d4506fd..b853a8e 100644
--- a/src/parser/iterator.rs
+++ b/src/parser/iterator.rs
@@ -57,8 +57,8 @@ impl<'a> Iterator for TokenIterator<'a> {
             let index_end = self.current + brk.index();
             self.current += brk.index();
 
-            if brk.is_ignore() {
-                self.current += 1;
+            if let Break::Ignore(_, c) = brk {
+                self.current += c.len_utf8();
             }
 
             if brk.is_end() {
@@ -133,11 +133,6 @@ impl Break {
         matches!(self, Break::End(_))
     }
 
-    #[inline]
-    fn is_ignore(self) -> bool {
-        matches!(self, Break::Ignore(_, _))
-    }
-
     #[inline]
     fn is_token(self) -> bool {
         matches!(self, Break::Token(_, _))
-- 
2.43.0


From b63113063caf94a39311b05d434a3a82c271665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 04/17] fix: accept a production chance of 0 instead of
 panicking

---
 src/productions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/productions.rs b/src/productions.rs
index 0b80a52..a7383ed 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -37,7 +37,7 @@ pub struct Chance {
 impl Chance {
     /// Creates a new [`ChanceKind::Set`] chance value.
     pub fn new(chance: f32) -> Self {
-        assert!(chance > 0_f32, "chance should be positive");
+        assert!(chance >= 0_f32, "chance should not be negative");
         assert!(chance <= 1.0_f32, "chance should be less than or equal to 1.0");
 
         Chance {
-- 
2.43.0


From 7b0ccaff6d61b3c5a0ea3d2e4db18696ae5df28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 05/17] fix: do not reject chances that only exceed 1 by
 rounding

---
 src/productions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index a7383ed..8d66ab2 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -279,7 +279,8 @@ impl Production {
             return Err(Error::execution("chance should never be negative"));
         }
 
-        if total_chance > 1.0 {
+        // Allow for the rounding error of the sum, so that (say) ten chances of 0.1 are accepted.
+        if total_chance > 1.0 + f32::EPSILON * self.body.len() as f32 {
             return Err(Error::execution("total chance of production bodies should not be greater than 1.0"));
         }
 
@@ -287,7 +288,7 @@ impl Production {
         let default_chance = if remaining == 0 {
             0_f32
         } else {
-            (1.0_f32 - total_chance) / (remaining as f32)
+            (1.0_f32 - total_chance).max(0.0) / (remaining as f32)
         };
 
         let mut current = 0_f32;
-- 
2.43.0


From b268a146acec4ed62c77736bcb631132473c40ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 06/17] fix: never choose a production body that has no chance
 left

---
 src/productions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/productions.rs b/src/productions.rs
index 8d66ab2..8d346e9 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -292,7 +292,7 @@ impl Production {
         };
 
         let mut current = 0_f32;
-        let random : f32 = thread_rng().gen_range(0.0..=1.0);
+        let random : f32 = thread_rng().gen_range(0.0..1.0);
 
         for body in &self.body {
             current += body.chance.unwrap_or(default_chance);
-- 
2.43.0


From 39b83799dda9e333d68fe9944487f310b32a0ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 07/17] fix: do not panic when matching past the end of a
 string

---
 src/productions.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index 8d346e9..7898192 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -121,12 +121,12 @@ impl ProductionHead {
     /// Returns true iff this matches the given
     /// string's index position of the string.
     pub fn matches(&self, string: &ProductionString, index: usize) -> bool {
-        self.pre_matches(string, index) &&
-        self.post_matches(string, index) &&
-            string.symbols()
-                .get(index)
-                .map(|symbol| self.target == *symbol)
-                .unwrap_or(false)
+        string.symbols()
+            .get(index)
+            .map(|symbol| self.target == *symbol)
+            .unwrap_or(false) &&
+            self.pre_matches(string, index) &&
+            self.post_matches(string, index)
     }
 
     pub fn pre_matches(&self, string: &ProductionString, index: usize) -> bool {
-- 
2.43.0


From 02847a60fd3e6ac4e907bf5711acf363bf3dfd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 08/17] fix: an empty path has no bounds

---
 src/geometry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometry.rs b/src/geometry.rs
index 7732e6b..15de0ac 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -380,6 +380,10 @@ impl Bounds for Path {
     /// Returns the bounds for the path.
 
     fn bounds(&self) -> Option<BoundingBox> {
+        if self.is_empty() {
+            return None
+        }
+
         let mut bounds = BoundingBox::initial_infinite();
 
         let mut center = Point::zero();
-- 
2.43.0


From 29e2e53231017653828e79c3517695269fe3f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 09/17] fix: return an error for a ] without a matching [

---
 src/interpretation/abop.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index 28ecdf2..cefd5f1 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -119,7 +119,8 @@ impl Interpretation for AbopTurtleInterpretation {
             } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
                 pos_stack.push((pos, dir));
             } else if token == pop {                // interpret pop tokens. This ends "a branch", returning to where the branch started.
-                (pos, dir) = pos_stack.pop().expect("Nothing to pop");
+                (pos, dir) = pos_stack.pop()
+                    .ok_or_else(|| Error::execution("Found a ] without a matching ["))?;
                 if path.len() > 1 {
                     paths.push(path)
                 }
-- 
2.43.0


From 6d78a2b759d13421672c7aab7279ec60ac6bd21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 10/17] fix: interpret systems that do not have all of the
 turtle's symbols

---
 src/interpretation/abop.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index cefd5f1..a8a9d8b 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -82,13 +82,14 @@ impl Interpretation for AbopTurtleInterpretation {
     fn interpret<S: SymbolStore>(&self,
                                  tokens: &S,
                                  string: &ProductionString) -> crate::Result<Self::Item> {
-        // We need token values to interpret the strings.
-        let forward = tokens.get_symbol("Forward").unwrap();
-        let space = tokens.get_symbol("Move").unwrap();
-        let right = tokens.get_symbol("+").unwrap();
-        let left = tokens.get_symbol("-").unwrap();
-        let push = tokens.get_symbol("[").unwrap();
-        let pop = tokens.get_symbol("]").unwrap();
+        // We need token values to interpret the strings. A token that is not in the
+        // store is never matched.
+        let forward = tokens.get_symbol("Forward");
+        let space = tokens.get_symbol("Move");
+        let right = tokens.get_symbol("+");
+        let left = tokens.get_symbol("-");
+        let push = tokens.get_symbol("[");
+        let pop = tokens.get_symbol("]");
 
         // We will interpret the tokens as instructions to a LOGO turtle. The following
         // variables keep track of the position that we're at and the direction we're facing.
@@ -106,19 +107,19 @@ impl Interpretation for AbopTurtleInterpretation {
 
         // todo indicate what productions / tokens haven't been used
         for token in string {
-            if token == forward {                   // interpret forward tokens.
+            if Some(token) == forward {                   // interpret forward tokens.
                 pos = pos + dir;
                 path.push(pos);
-            } else if token == space {
+            } else if Some(token) == space {
                 pos = pos + dir;
                 if path.len() > 1 {
                     paths.push(path)
                 }
                 path = Path::new();
                 path.push(pos);
-            } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
+            } else if Some(token) == push {               // interpret push tokens. This starts "a branch" of the plant.
                 pos_stack.push((pos, dir));
-            } else if token == pop {                // interpret pop tokens. This ends "a branch", returning to where the branch started.
+            } else if Some(token) == pop {                // interpret pop tokens. This ends "a branch", returning to where the branch started.
                 (pos, dir) = pos_stack.pop()
                     .ok_or_else(|| Error::execution("Found a ] without a matching ["))?;
                 if path.len() > 1 {
@@ -126,9 +127,9 @@ impl Interpretation for AbopTurtleInterpretation {
                 }
                 path = Path::new();
                 path.push(pos);
-            } else if token == left {               // Rotate a bit
+            } else if Some(token) == left {               // Rotate a bit
                 dir = dir.rotate(-angle);
-            } else if token == right {              // Rotate in the other direction.
+            } else if Some(token) == right {              // Rotate in the other direction.
                 dir = dir.rotate(angle);
             }
         }
-- 
2.43.0


From 6b449ea81dc5f547638f199084d234ecffa26a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 11/17] fix: do not panic when there is nothing to draw in an
 SVG

---
 src/interpretation/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 78194cd..24cb300 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -90,7 +90,7 @@ impl<T> Interpretation for SvgPathInterpretation<T>
         let paths = self.initial.interpret(tokens, string)?;
         let bounds = paths.bounds();
 
-        let center = bounds.as_ref().unwrap().center();
+        let center = bounds.as_ref().map(|bounds| bounds.center()).unwrap_or_default();
         let canvas_centre = Point::new(self.width as f64 / 2.0, self.height as f64 / 2.0);
 
         let scale = bounds.as_ref()
-- 
2.43.0


From 41b571b4cb5ed35b7fae17fbf47668b0d185a1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 12/17] fix: do not write an infinite scale to an SVG of a
 single point

---
 src/interpretation/svg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 24cb300..cd0a889 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -98,6 +98,7 @@ impl<T> Interpretation for SvgPathInterpretation<T>
                 let scale_y = self.height() as f64 / bounds.height();
                 let scale_x = self.width() as f64 / bounds.width();
                 let scale = scale_x.min(scale_y);
+                let scale = if scale.is_finite() { scale } else { 1.0 };
 
                 Point::new(scale, -scale)
             })
-- 
2.43.0


From b10cd552b3c8026bd8b44895528aded530ade376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 13/17] fix: do not panic on a file name that is not UTF-8

---
 src/bin/lsystem/derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/lsystem/derive.rs b/src/bin/lsystem/derive.rs
index 2798540..cbc2b79 100644
--- a/src/bin/lsystem/derive.rs
+++ b/src/bin/lsystem/derive.rs
@@ -9,7 +9,7 @@ use crate::cli::{Cli, InterpretationArgs};
 
 pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     if args.verbose {
-        print!("Reading {} ", derive.file.to_str().unwrap());
+        print!("Reading {} ", derive.file.to_string_lossy());
     }
 
     let (interpretation, system, axiom) = {
-- 
2.43.0


From 1e13796238c2316add4ef1e14a4035fcf985bd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:44 +0000
Subject: [PATCH 14/17] fix: escape attribute values of SVG elements

---
 src/interpretation/svg.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index cd0a889..068f88c 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -139,6 +139,22 @@ impl<T> Interpretation for SvgPathInterpretation<T>
 }
 
 
+/// Escapes text so that it can stand in a (double-quoted) attribute value.
+fn escape(text: &str) -> String {
+    let mut result = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '&' => result.push_str("&amp;"),
+            '<' => result.push_str("&lt;"),
+            '"' => result.push_str("&quot;"),
+            // These would be read back as spaces.
+            '\t' | '\n' | '\r' => result.push_str(format!("&#{};", c as u32).as_str()),
+            _ => result.push(c)
+        }
+    }
+    result
+}
+
 pub trait SvgElement : Debug {
     fn to_svg(&self) -> String;
 
@@ -216,10 +232,10 @@ impl SvgElement for SvgPath {
         string.push_str("<path");
 
         if let Some(fill) = self.fill() {
-            string.push_str(format!(" fill=\"{}\"", fill).as_str());
+            string.push_str(format!(" fill=\"{}\"", escape(fill)).as_str());
         }
         if let Some(stroke) = self.stroke() {
-            string.push_str(format!(" stroke=\"{}\"", stroke).as_str());
+            string.push_str(format!(" stroke=\"{}\"", escape(stroke)).as_str());
         }
 
         if !self.is_empty() {
@@ -255,8 +271,8 @@ pub struct SvgDecorations {
 impl SvgDecorations {
     pub fn to_attr_string(&self) -> String {
         [
-            self.fill.as_ref().map(|fill| format!("fill=\"{}\"", fill)).unwrap_or_default(),
-            self.stroke.as_ref().map(|stroke| format!("stroke=\"{}\"", stroke)).unwrap_or_default(),
+            self.fill.as_ref().map(|fill| format!("fill=\"{}\"", escape(fill))).unwrap_or_default(),
+            self.stroke.as_ref().map(|stroke| format!("stroke=\"{}\"", escape(stroke))).unwrap_or_default(),
             self.stroke_width.as_ref().map(|width| format!("stroke-width=\"{}\"", width)).unwrap_or_default()
         ].join(" ")
 
-- 
2.43.0


From 6450e82e2b1ea175569bfe3b15b4c182da9cc97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 15/17] fix: a body without probability is not chosen when
 equal shares are rounded

With many bodies that share what is left equally, the rounded shares can add up
to less than 1. The draw that is left over went to the last body, even if its
chance is 0.
---
 src/productions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/productions.rs b/src/productions.rs
index 7898192..eceed35 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -301,6 +301,11 @@ impl Production {
             }
         }
 
+        // The sum of equal shares may have been rounded to less than 1.
+        if let Some(body) = self.body.iter().rfind(|b| b.chance.is_derived()) {
+            return Ok(body);
+        }
+
         // All remaining chance given to last body.
         return Ok(self.body.last().unwrap());
     }
-- 
2.43.0


From 6c72d144ab2eb1d215f95fb7b36ff722b9c549ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:07 +0000
Subject: [PATCH 16/17] fix: a panicking initialiser no longer breaks the
 family registry

---
 src/system/family.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/system/family.rs b/src/system/family.rs
index 3c82c54..701387f 100644
--- a/src/system/family.rs
+++ b/src/system/family.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 use std::fmt::Debug;
+use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
 use std::sync::{Arc, OnceLock, RwLock};
 
 use crate::error::{Error, ErrorKind};
@@ -158,7 +159,15 @@ pub fn get_or_init_family<S, F>(name: S, default: F) -> Arc<SystemFamily>
     }
 
     // Build, but now synchronised via the above write guard.
-    let family = default();
+    let family = catch_unwind(AssertUnwindSafe(default));
+    // A panic must not poison the registry: nothing has been changed.
+    let family = match family {
+        Ok(family) => family,
+        Err(panic) => {
+            drop(map);
+            resume_unwind(panic)
+        }
+    };
 
     let family = Arc::new(family);
     map.insert(name.as_ref().to_string(), family.clone());
-- 
2.43.0


From d1fa0b19dfb7dab8ba1f3bc40947797a84cd8bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:58 +0000
Subject: [PATCH 17/17] fix: not being able to write to the terminal neither
 panics nor prevents saving

---
 src/bin/lsystem/derive.rs   | 35 +++++++++++++++++------------------
 src/bin/lsystem/describe.rs | 29 +++++++++++++++++++----------
 2 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/bin/lsystem/derive.rs b/src/bin/lsystem/derive.rs
index cbc2b79..b9efd78 100644
--- a/src/bin/lsystem/derive.rs
+++ b/src/bin/lsystem/derive.rs
@@ -1,3 +1,4 @@
+use std::io::Write;
 use std::process::ExitCode;
 
 use rusty_systems::prelude::*;
@@ -8,39 +9,40 @@ use crate::{error_style, green};
 use crate::cli::{Cli, InterpretationArgs};
 
 pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
-    if args.verbose {
-        print!("Reading {} ", derive.file.to_string_lossy());
-    }
+    // Not being able to write to the terminal is no reason to stop, or to panic.
+    let progress = |text: String| {
+        if args.verbose {
+            let mut out = std::io::stdout();
+            let _ = write!(out, "{text}").and_then(|_| out.flush());
+        }
+    };
+
+    progress(format!("Reading {} ", derive.file.to_string_lossy()));
 
     let (interpretation, system, axiom) = {
         let result = parser::parse_file(derive.file.as_ref());
         if let Err(e) = result {
-            if args.verbose { println!("❌") }
-            eprint!("\n{}: ", error_style().paint("Error"));
-            eprintln!("{}", e);
+            progress(String::from("❌\n"));
+            let _ = writeln!(std::io::stderr(), "\n{}: {}", error_style().paint("Error"), e);
             return ExitCode::FAILURE;
         }
 
         result.unwrap()
     };
 
-    if args.verbose {
-        println!("{}", green().paint("\t✔"));
-    }
+    progress(format!("{}\n", green().paint("\t✔")));
 
     let interpretation = SvgPathInterpretation::new_with(derive.width, derive.height, interpretation);
 
     let result = system.derive(axiom, interpretation.run_settings());
     if let Err(e) = result {
-        eprintln!("\n{}", error_style().paint("Error"));
-        eprintln!("{}", e);
+        let _ = writeln!(std::io::stderr(), "\n{}\n{}", error_style().paint("Error"), e);
         return ExitCode::FAILURE;
     }
     let result = interpretation.interpret(&system, &result.unwrap());
 
     if let Err(e) = result {
-        eprintln!("\n{}", error_style().paint("Error"));
-        eprintln!("{}", e);
+        let _ = writeln!(std::io::stderr(), "\n{}\n{}", error_style().paint("Error"), e);
         return ExitCode::FAILURE;
     }
     let result = result.unwrap();
@@ -52,14 +54,11 @@ pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     }
 
     if let Some(e) = result.save_file(output.as_path()).err() {
-        eprintln!("\n{}", error_style().paint("Error"));
-        eprintln!("{}", e);
+        let _ = writeln!(std::io::stderr(), "\n{}\n{}", error_style().paint("Error"), e);
         return ExitCode::FAILURE;
     }
 
-    if args.verbose {
-        println!("Saved SVG file to {} {}", output.to_string_lossy(), green().paint("\t✔"));
-    }
+    progress(format!("Saved SVG file to {} {}\n", output.to_string_lossy(), green().paint("\t✔")));
 
     ExitCode::SUCCESS
 }
diff --git a/src/bin/lsystem/describe.rs b/src/bin/lsystem/describe.rs
index 869cf2e..7badc64 100644
--- a/src/bin/lsystem/describe.rs
+++ b/src/bin/lsystem/describe.rs
@@ -1,23 +1,32 @@
+use std::io::Write;
 use std::process::ExitCode;
 use rusty_systems::interpretation::abop;
 use rusty_systems::system::family::SymbolDescription;
-use crate::heading_style;
+use crate::{error_style, heading_style};
 
 
 pub fn describe() -> ExitCode {
+    match print_symbols(&mut std::io::stdout()) {
+        Ok(()) => ExitCode::SUCCESS,
+        Err(e) => {
+            let _ = writeln!(std::io::stderr(), "\n{}: {}", error_style().paint("Error"), e);
+            ExitCode::FAILURE
+        }
+    }
+}
+
+fn print_symbols<W: Write>(out: &mut W) -> std::io::Result<()> {
     let family = abop::abop_family();
 
-    let print= |t : &SymbolDescription| {
-        print!("  {: <10}", t.name);
-        t.description.iter().for_each(|d| print!("{}", d));
-        println!();
+    let print = |out: &mut W, t : &SymbolDescription| {
+        writeln!(out, "  {: <10}{}", t.name, t.description.as_deref().unwrap_or_default())
     };
 
-    println!("{}", heading_style().paint("Terminals:"));
-    family.terminals().for_each(&print);
+    writeln!(out, "{}", heading_style().paint("Terminals:"))?;
+    family.terminals().try_for_each(|t| print(out, t))?;
 
-    println!("\n{}", heading_style().paint("Productions:"));
-    family.productions().for_each(&print);
+    writeln!(out, "\n{}", heading_style().paint("Productions:"))?;
+    family.productions().try_for_each(|t| print(out, t))?;
 
-    ExitCode::SUCCESS
+    out.flush()
 }
-- 
2.43.0

