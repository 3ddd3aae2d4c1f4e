From abbe99175299fea51ce177b98a884d42793a41f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 01/16] fix: accept whitespace and comments in empty keyframes
 and nested at-rules

`@keyframes a {}` renders as `@keyframes a {\n}`, which was rejected when the
rendered style is parsed again.
---
 packages/stylist-core/src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index d51dceb..3f407d5 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -355,7 +355,7 @@ impl Parser {
                     cond,
                     tag("{"),
                     // Collect contents with-in rules.
-                    terminated(Self::rule_block_contents, tag("}")),
+                    terminated(Self::trimmed(Self::rule_block_contents), tag("}")),
                 ),
                 // Map Results into a scope
                 |p: (Vec<StringFragment>, Vec<RuleBlockContent>)| Rule {
@@ -437,7 +437,9 @@ impl Parser {
                     tag("{"),
                     // Collect contents with-in rules.
                     terminated(
-                        many0(|i| Parser::rule_block(i, RuleBlockKind::Keyframes)),
+                        Self::trimmed(many0(|i| {
+                            Parser::rule_block(i, RuleBlockKind::Keyframes)
+                        })),
                         tag("}"),
                     ),
                 ),
-- 
2.43.0


From e3d7eafdbea7259ec55d2ddde4bd0b1312472a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 02/16] fix: trim only the whitespace the parser skips

Tokens were trimmed of any Unicode whitespace while only space, tab, CR and LF
are skipped, so `a:\x0c;` yielded an empty value that renders to `a: ;`, which
does not parse.
---
 packages/stylist-core/src/parser.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 3f407d5..9997cc7 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -82,6 +82,14 @@ where
     }
 }
 
+/// Characters that are insignificant around tokens.
+const WHITESPACE: &str = " \t\r\n";
+
+/// Removes insignificant whitespace around a token, and nothing that [`Parser::sp`] would keep.
+fn trim(i: &str) -> &str {
+    i.trim_matches(|c| WHITESPACE.contains(c))
+}
+
 /// A lightweight CSS Parser.
 #[derive(Debug)]
 pub(crate) struct Parser {}
@@ -126,8 +134,7 @@ impl Parser {
 
     /// Parse whitespace
     fn sp(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
-        let chars = " \t\r\n";
-        let whitespace = take_while1(move |c| chars.contains(c));
+        let whitespace = take_while1(|c| WHITESPACE.contains(c));
         traced_context("Whitespace", recognize(many0(alt((whitespace, Self::cmt)))))(i)
     }
 
@@ -170,7 +177,7 @@ impl Parser {
                     recognize(preceded(tag("/"), none_of("${;}\"*"))),
                 )))),
                 |m: &str| StringFragment {
-                    inner: m.to_string().trim().to_string().into(),
+                    inner: trim(m).to_string().into(),
                 },
             )),
         )(i)
@@ -189,7 +196,7 @@ impl Parser {
                     Self::style_attr_value,
                 ),
                 move |p: (&str, StringFragment)| StyleAttribute {
-                    key: p.0.trim().to_string().into(),
+                    key: trim(p.0).to_string().into(),
                     value: vec![p.1].into(),
                 },
             ))),
@@ -257,7 +264,7 @@ impl Parser {
                     Self::string,
                     recognize(Self::interpolation),
                 )))),
-                |p: &str| vec![p.trim().to_owned().into()].into(),
+                |p: &str| vec![trim(p).to_owned().into()].into(),
             ))),
         )(i)
     }
@@ -343,7 +350,7 @@ impl Parser {
                 Self::at_rule_condition(i, (tag("@container"), tag("@media"), tag("@supports")))
             }
             RuleBlockKind::Keyframes => map(recognize(Self::condition), |m| {
-                vec![m.trim().to_string().into()]
+                vec![trim(m).to_string().into()]
             })(i),
         };
 
@@ -411,7 +418,7 @@ impl Parser {
                     map(
                         recognize(many1(alt((is_not("${"), recognize(Self::interpolation))))),
                         |m: &str| StringFragment {
-                            inner: m.trim().to_string().into(),
+                            inner: trim(m).to_string().into(),
                         },
                     ),
                 ),
-- 
2.43.0


From fbbed7a4d3062f7e0b3461e2d77268dd6e5cf997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 03/16] fix: reject stray delimiters in selectors and at-rule
 conditions

`a } b {}` and `@media } a {}` were accepted with the delimiter as part of the
selector or condition, and rendered as text that closes or ends other rules.
Delimiters inside strings stay accepted, in conditions as in selectors.
---
 packages/stylist-core/src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 9997cc7..74399fe 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -260,7 +260,7 @@ impl Parser {
             "Selector",
             Self::trimmed(expect_non_empty(map(
                 recognize(many1(alt((
-                    recognize(preceded(none_of("$,}@{\""), opt(is_not("$,\"{")))),
+                    recognize(preceded(none_of("$,}@{\";"), opt(is_not("$,\"{};")))),
                     Self::string,
                     recognize(Self::interpolation),
                 )))),
@@ -416,7 +416,11 @@ impl Parser {
                 pair(
                     tags,
                     map(
-                        recognize(many1(alt((is_not("${"), recognize(Self::interpolation))))),
+                        recognize(many1(alt((
+                            is_not("${}\""),
+                            Self::string,
+                            recognize(Self::interpolation),
+                        )))),
                         |m: &str| StringFragment {
                             inner: trim(m).to_string().into(),
                         },
-- 
2.43.0


From 3f7510a4ee4d399ed7fec9171fd9bc3c77690414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 04/16] fix: accept a slash at the end of a value

`a: / ;` was accepted but `a: /;`, which it renders to, was not.
---
 packages/stylist-core/src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 74399fe..c0fcc16 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -175,6 +175,7 @@ impl Parser {
                     recognize(Self::interpolation),
                     Self::string,
                     recognize(preceded(tag("/"), none_of("${;}\"*"))),
+                    recognize(terminated(tag("/"), not(char('*')))),
                 )))),
                 |m: &str| StringFragment {
                     inner: trim(m).to_string().into(),
-- 
2.43.0


From c8f1aec97d25856aecd53e2dd23eaea4159014ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 05/16] fix: unregistering a stale style keeps an equal style
 registered since

---
 packages/stylist/src/manager/content.rs  | 2 +-
 packages/stylist/src/manager/mod.rs      | 4 ++--
 packages/stylist/src/manager/registry.rs | 7 +++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index 9c28968..07ea68d 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -35,7 +35,7 @@ impl StyleContent {
 
     pub fn unregister(&self) {
         if let Some(mgr) = self.manager() {
-            mgr.unregister_style(self.key());
+            mgr.unregister_style(self);
         }
     }
 }
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index c85ef2e..0f71689 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -207,8 +207,8 @@ impl StyleManager {
         Ok(content)
     }
 
-    pub(crate) fn unregister_style(&self, key: &Rc<StyleKey>) {
-        self.inner.registry.borrow_mut().unregister(key);
+    pub(crate) fn unregister_style(&self, content: &StyleContent) {
+        self.inner.registry.borrow_mut().unregister(content);
     }
 
     /// Return a reference of style key.
diff --git a/packages/stylist/src/manager/registry.rs b/packages/stylist/src/manager/registry.rs
index 31ac89d..609f7af 100644
--- a/packages/stylist/src/manager/registry.rs
+++ b/packages/stylist/src/manager/registry.rs
@@ -16,8 +16,11 @@ impl StyleRegistry {
         }
     }
 
-    pub fn unregister(&mut self, key: &StyleKey) {
-        self.styles.remove(key);
+    pub fn unregister(&mut self, content: &StyleContent) {
+        // An equal style may have been registered anew since this one was unregistered.
+        if self.get(content.key()).is_some_and(|m| m.id() == content.id()) {
+            self.styles.remove(content.key());
+        }
     }
 
     pub fn get(&self, key: &StyleKey) -> Option<Rc<StyleContent>> {
-- 
2.43.0


From 2d542463b8f7be8c15f319148802ae7964f8aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 06/16] fix: hydrated global styles render as on the server

---
 packages/stylist/src/manager/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 0f71689..602b4a5 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -386,7 +386,8 @@ mod feat_hydration {
                         m.insert(
                             StyleContent {
                                 id: id.clone(),
-                                style_str: key.ast.to_style_str(Some(id)),
+                                // Non-global styles have ids prefixed in classes.
+                                style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
                                 manager: self.downgrade(),
                                 key: key.clone(),
                             }
-- 
2.43.0


From 31055ac574b7c3584d86f43501647c96709398b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 07/16] fix: load style data in which a style was registered
 again

---
 packages/stylist/src/manager/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 602b4a5..1ab62f7 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -355,6 +355,7 @@ mod feat_hydration {
 
     use crate::ast::ToStyleStr;
     use std::collections::hash_map::Entry;
+    use std::collections::HashSet;
 
     impl StyleManager {
         /// Loads StyleData of current style manager.
@@ -371,7 +372,15 @@ mod feat_hydration {
         pub fn load_style_data(&self, data: &StyleData) {
             let mut reg = self.inner.registry.borrow_mut();
 
-            for StyleDataContent { id, key, .. } in data.0.iter() {
+            // A style that has been unregistered and created again appears more than once, the last
+            // one is current.
+            let mut loaded = HashSet::new();
+
+            for StyleDataContent { id, key, .. } in data.0.iter().rev() {
+                if !loaded.insert(key) {
+                    continue;
+                }
+
                 let key = Rc::new(key.clone());
 
                 match reg.styles.entry(key.clone()) {
-- 
2.43.0


From ef52e3a63f69604f922d8431617551cda728cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 08/16] fix: keep keywords and groups apart in inline at-rule
 conditions

`@media screen and (max-width: 500px)` was emitted as
`@media screen and(max-width:500px)`, in which `and(` starts a function, so
that the rule never applied.
---
 .../stylist-macros/src/inline/parse/rule.rs   | 33 +++++++++++++++++--
 packages/stylist/src/macros.rs                |  3 ++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-macros/src/inline/parse/rule.rs b/packages/stylist-macros/src/inline/parse/rule.rs
index 35ed37a..81b949e 100644
--- a/packages/stylist-macros/src/inline/parse/rule.rs
+++ b/packages/stylist-macros/src/inline/parse/rule.rs
@@ -1,7 +1,8 @@
+use proc_macro2::Delimiter;
 use syn::parse::{Error as ParseError, Parse, ParseBuffer, Result as ParseResult};
 use syn::token;
 
-use super::super::component_value::{ComponentValue, ComponentValueStream};
+use super::super::component_value::{ComponentValue, ComponentValueStream, PreservedToken};
 use super::super::css_ident::CssIdent;
 use super::{fragment_spacing, CssScope, IntoOutputContext};
 use crate::output::{OutputFragment, OutputRule};
@@ -66,6 +67,34 @@ impl Parse for CssAtRule {
     }
 }
 
+/// Spacing in conditions: `and`, `or` and `not` are keywords there, unless they follow a colon (as in
+/// `selector(:not(a))`). They must be separated from the parenthesis after them, as they would start
+/// a function otherwise.
+fn condition_spacing(
+) -> impl FnMut(&OutputFragment, &OutputFragment) -> Option<OutputFragment> {
+    let mut after_colon = false;
+
+    move |l, r| {
+        let is_keyword = match l {
+            OutputFragment::Token(PreservedToken::Ident(m)) if !after_colon => {
+                let name = m.to_output_string();
+                ["and", "or", "not"]
+                    .iter()
+                    .any(|keyword| name.eq_ignore_ascii_case(keyword))
+            }
+            _ => false,
+        };
+        after_colon =
+            matches!(l, OutputFragment::Token(PreservedToken::Punct(p)) if p.as_char() == ':');
+
+        if is_keyword && matches!(r, OutputFragment::Delimiter(Delimiter::Parenthesis, true)) {
+            Some(' '.into())
+        } else {
+            fragment_spacing(l, r)
+        }
+    }
+}
+
 impl CssAtRule {
     pub fn condition_output(&self) -> Vec<OutputFragment> {
         let mut prelude = vec![OutputFragment::Str(format!(
@@ -77,7 +106,7 @@ impl CssAtRule {
                 .clone()
                 .into_iter()
                 .flat_map(|p| p.to_output_fragments())
-                .spaced_with(fragment_spacing),
+                .spaced_with(condition_spacing()),
         );
 
         prelude
diff --git a/packages/stylist/src/macros.rs b/packages/stylist/src/macros.rs
index e625768..a3eb275 100644
--- a/packages/stylist/src/macros.rs
+++ b/packages/stylist/src/macros.rs
@@ -102,6 +102,9 @@
 //!   number `3px`, or the '*' character.
 //! - `R` is either an identifier, a literal string or number, the '*' or '#' character.
 //!
+//! or, in the condition of an at-rule, if `L` is `and`, `or` or `not` and `R` is an opening
+//! parenthesis.
+//!
 //! Spacing around interpolation is ignored regardless.
 //!
 //! Be aware that the above is subject to change once the Span API is stabilized. To avoid future
-- 
2.43.0


From c673cf2507e3c9a65e85e6df901869e7a5516952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 09/16] fix: keep dollar signs and braces in literal styles

Text such as `content: "{"` or `content: "$"` is accepted at run time
but was rejected in the string literal of a macro, as the format string parser
took any of the two characters for the start of an interpolation.
---
 packages/stylist-macros/src/literal/fstring.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/packages/stylist-macros/src/literal/fstring.rs b/packages/stylist-macros/src/literal/fstring.rs
index 20f9995..18641d1 100644
--- a/packages/stylist-macros/src/literal/fstring.rs
+++ b/packages/stylist-macros/src/literal/fstring.rs
@@ -1,10 +1,10 @@
 use nom::branch::alt;
 use nom::bytes::complete::{is_not, tag, take_while};
 use nom::character::complete::{alpha1, alphanumeric1};
-use nom::combinator::{all_consuming, cut, map, opt, recognize};
+use nom::combinator::{all_consuming, cut, map, not, opt, recognize};
 use nom::error::{context, convert_error, ErrorKind, ParseError, VerboseError};
-use nom::multi::many0;
-use nom::sequence::{delimited, preceded};
+use nom::multi::{many0, many1};
+use nom::sequence::{delimited, preceded, terminated};
 use nom::IResult;
 use stylist_core::{Error, Result};
 
@@ -99,7 +99,14 @@ impl Parser {
 
         let result = context(
             "Literal",
-            map(is_not("${"), |m: &str| Fragment::Literal(m.to_string())),
+            map(
+                recognize(many1(alt((
+                    is_not("$"),
+                    // a dollar sign that starts neither an interpolation nor an escape sequence.
+                    terminated(tag("$"), not(alt((tag("{"), tag("${"))))),
+                )))),
+                |m: &str| Fragment::Literal(m.to_string()),
+            ),
         )(i);
 
         #[cfg(test)]
-- 
2.43.0


From dff39d296c4ed3aa2639df0a506dd408a64f5f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 10/16] fix: prepend style elements to the container

---
 packages/stylist/src/manager/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 1ab62f7..8cd5494 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -234,7 +234,9 @@ impl StyleManager {
             // Prepend element
             if !self.inner.append {
                 if let Some(m) = container.first_child() {
-                    return m.insert_before(&style_element, Some(&m)).map(|_m| ());
+                    return container
+                        .insert_before(&style_element, Some(&m))
+                        .map(|_m| ());
                 }
             }
 
-- 
2.43.0


From fcb0885f77ac2a73d34345893c050ec330ca3027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 11/16] fix: remove style elements from containers outside of
 the document

---
 packages/stylist/src/manager/content.rs |  2 +-
 packages/stylist/src/manager/mod.rs     | 36 +++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index 07ea68d..a51c5cd 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -22,7 +22,7 @@ impl StyleContent {
     }
 
     pub fn unmount(&self) -> Result<()> {
-        StyleManager::unmount(self.id())
+        StyleManager::unmount(self)
     }
 
     pub fn key(&self) -> &Rc<StyleKey> {
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 8cd5494..cf34b13 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -109,6 +109,8 @@ impl StyleManagerBuilder {
 // A style manager, but with a weak reference.
 #[derive(Debug, Clone)]
 pub(crate) struct WeakStyleManager {
+    #[cfg(target_arch = "wasm32")]
+    container: Option<Node>,
     inner: Weak<StyleManagerBuilder>,
 }
 
@@ -137,6 +139,8 @@ impl StyleManager {
 
     pub(crate) fn downgrade(&self) -> WeakStyleManager {
         WeakStyleManager {
+            #[cfg(target_arch = "wasm32")]
+            container: self.container(),
             inner: Rc::downgrade(&self.inner),
         }
     }
@@ -248,10 +252,38 @@ impl StyleManager {
 
     /// Unmount the [`Style`](crate::Style) from the DOM tree.
     #[cfg(target_arch = "wasm32")]
-    pub(crate) fn unmount(id: &StyleId) -> Result<()> {
+    pub(crate) fn unmount(content: &StyleContent) -> Result<()> {
+        use wasm_bindgen::JsCast;
+        use web_sys::Element;
+
         use crate::arch::document;
         use crate::Error;
 
+        let id: &str = content.id();
+
+        // The document cannot find the elements in a container that is not part of it
+        // (e.g.: a shadow root).
+        if let Some(ref container) = content.manager.container {
+            let mut child = container.first_child();
+
+            while let Some(m) = child {
+                let is_style = m.dyn_ref::<Element>().is_some_and(|m| {
+                    m.tag_name().eq_ignore_ascii_case("style")
+                        && m.get_attribute("data-style").as_deref() == Some(id)
+                });
+
+                if is_style {
+                    return container
+                        .remove_child(&m)
+                        .map(|_m| ())
+                        .map_err(|e| Error::Web(Some(e)));
+                }
+
+                child = m.next_sibling();
+            }
+        }
+
+        // Styles rendered on the server may be anywhere in the document.
         let document = document()?;
         (|| {
             if let Some(m) = document.query_selector(&format!("style[data-style={}]", id))? {
@@ -276,7 +308,7 @@ impl StyleManager {
     /// Unmount the [`Style`] from the DOM tree.
     #[cfg(not(target_arch = "wasm32"))]
     #[allow(unused_variables)]
-    pub(crate) fn unmount(id: &StyleId) -> Result<()> {
+    pub(crate) fn unmount(content: &StyleContent) -> Result<()> {
         // Does nothing on non-wasm targets.
         Ok(())
     }
-- 
2.43.0


From 3b8b0ed88ee35d1c3498a23f7c552877a15e94b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 12/16] fix: limit the nesting the parser follows

---
 packages/stylist-core/src/parser.rs | 49 +++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index c0fcc16..dc29c32 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -1,4 +1,5 @@
 use std::borrow::Cow;
+use std::cell::Cell;
 use std::fmt;
 
 use nom::branch::{alt, Alt};
@@ -82,6 +83,50 @@ where
     }
 }
 
+/// The deepest nesting of at-rules the parser follows, so that no input can exhaust the stack.
+const MAX_NESTING: usize = 64;
+
+thread_local! {
+    static NESTING: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Leaves a level of nesting when dropped.
+struct Nested;
+
+impl Nested {
+    fn enter() -> Option<Self> {
+        NESTING.with(|m| {
+            let level = m.get();
+            (level < MAX_NESTING).then(|| {
+                m.set(level + 1);
+                Self
+            })
+        })
+    }
+}
+
+impl Drop for Nested {
+    fn drop(&mut self) {
+        NESTING.with(|m| m.set(m.get() - 1));
+    }
+}
+
+/// Fails when blocks are nested too deeply.
+fn nested<'a, O, F>(
+    mut p: impl nom::Parser<&'a str, O, F>,
+) -> impl FnMut(&'a str) -> IResult<&'a str, O, F>
+where
+    F: nom::error::ParseError<&'a str>,
+{
+    move |i| match Nested::enter() {
+        Some(_nested) => p.parse(i),
+        None => Err(nom::Err::Failure(ParseError::from_error_kind(
+            i,
+            ErrorKind::TooLarge,
+        ))),
+    }
+}
+
 /// Characters that are insignificant around tokens.
 const WHITESPACE: &str = " \t\r\n";
 
@@ -363,7 +408,7 @@ impl Parser {
                     cond,
                     tag("{"),
                     // Collect contents with-in rules.
-                    terminated(Self::trimmed(Self::rule_block_contents), tag("}")),
+                    terminated(Self::trimmed(nested(Self::rule_block_contents)), tag("}")),
                 ),
                 // Map Results into a scope
                 |p: (Vec<StringFragment>, Vec<RuleBlockContent>)| Rule {
@@ -483,7 +528,7 @@ impl Parser {
                     },
                     tag("{"),
                     // Collect contents with-in rules.
-                    terminated(Parser::scope_contents, tag("}")),
+                    terminated(nested(Parser::scope_contents), tag("}")),
                 ),
                 // Map Results into a scope
                 |p: (Vec<StringFragment>, Vec<ScopeContent>)| {
-- 
2.43.0


From d9cbb7f78bbcbeef207185a29b49e656ee3f644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:01 +0000
Subject: [PATCH 13/16] fix: report errors on very long lines without panicking

---
 packages/stylist-core/src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index dc29c32..a208af1 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -581,12 +581,22 @@ impl Parser {
         )(i)
     }
 
+    /// Describes a parse error for the user.
+    fn reason(css: &str, e: &VerboseError<&str>) -> String {
+        // convert_error points at the position with a format width, which is limited to u16.
+        if css.split('\n').any(|m| m.len() >= usize::from(u16::MAX)) {
+            return e.to_string();
+        }
+
+        convert_error(css, e.clone())
+    }
+
     /// The parse the style and returns a `Result<Sheet>`.
     pub fn parse(css: &str) -> Result<Sheet> {
         match Self::sheet(css) {
             // Converting to String, primarily due to lifetime requirements.
             Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => Err(Error::Parse {
-                reason: convert_error(css, e.clone()),
+                reason: Self::reason(css, &e),
                 source: Some(VerboseError {
                     errors: e
                         .errors
-- 
2.43.0


From 6887be25c3e52bf05b18f2609ac46fb305813e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:50 +0000
Subject: [PATCH 14/16] fix: read the media query again when it changes

use_media_query kept the match state of the previous query until the new
one changed.
---
 packages/stylist/src/yew/hooks/use_media_query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/stylist/src/yew/hooks/use_media_query.rs b/packages/stylist/src/yew/hooks/use_media_query.rs
index f66a5ee..ed34db3 100644
--- a/packages/stylist/src/yew/hooks/use_media_query.rs
+++ b/packages/stylist/src/yew/hooks/use_media_query.rs
@@ -38,6 +38,9 @@ pub fn use_media_query(query: &str) -> bool {
         let match_media = match_media();
         let match_media_clone = match_media.clone();
 
+        // The query may differ from the one that the current value was read for.
+        state_clone.set(match_media.matches());
+
         let listener = EventListener::new(&match_media, "change", move |_event| {
             state_clone.set(match_media_clone.matches());
         });
-- 
2.43.0


From 1756a43bfedecb2ae0ac4a3e0aaa0ca4830c81b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 15/16] fix: accept a selector with a colon after declarations

---
 packages/stylist-core/src/parser.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index a208af1..eaf7e6e 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -253,20 +253,21 @@ impl Parser {
         i: &str,
         dangling: bool,
     ) -> IResult<&str, Vec<StyleAttribute>, VerboseError<&str>> {
-        let final_semicolon = |i| {
+        let attributes = |i| {
             if dangling {
-                map(tag(";"), Some)(i)
+                // What follows the last semicolon may be a selector with a colon.
+                many1(terminated(Self::attribute, tag(";")))(i)
             } else {
-                opt(tag(";"))(i)
+                terminated(
+                    separated_list1(tag(";"), Self::attribute),
+                    preceded(opt(Self::sp), opt(tag(";"))),
+                )(i)
             }
         };
 
         traced_context(
             "StyleAttributes",
-            Self::trimmed(expect_non_empty(terminated(
-                separated_list1(tag(";"), Self::attribute),
-                preceded(opt(Self::sp), final_semicolon),
-            ))),
+            Self::trimmed(expect_non_empty(attributes)),
         )(i)
     }
 
-- 
2.43.0


From a02d3d027dd37bc84eb4febd90b6aab4b3f26ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:40 +0000
Subject: [PATCH 16/16] fix: counted style ids differ from those of the server

---
 packages/stylist/src/manager/mod.rs |  4 ++++
 packages/stylist/src/utils.rs       | 24 ++++++++++++++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index cf34b13..d1ab72c 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -411,6 +411,10 @@ mod feat_hydration {
             let mut loaded = HashSet::new();
 
             for StyleDataContent { id, key, .. } in data.0.iter().rev() {
+                // The ids of the styles to be created must be different.
+                #[cfg(not(feature = "random"))]
+                crate::utils::skip_style_id(id);
+
                 if !loaded.insert(key) {
                     continue;
                 }
diff --git a/packages/stylist/src/utils.rs b/packages/stylist/src/utils.rs
index 21e015a..a08bd22 100644
--- a/packages/stylist/src/utils.rs
+++ b/packages/stylist/src/utils.rs
@@ -6,16 +6,32 @@ fn get_rand_str() -> String {
 }
 
 #[cfg(any(test, not(feature = "random")))]
-pub(crate) fn get_next_style_id() -> String {
-    use once_cell::sync::Lazy;
-    use std::sync::atomic::{AtomicU64, Ordering};
+static CTR: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
 
-    static CTR: Lazy<AtomicU64> = Lazy::new(AtomicU64::default);
+#[cfg(any(test, not(feature = "random")))]
+pub(crate) fn get_next_style_id() -> String {
+    use std::sync::atomic::Ordering;
 
     let ctr = CTR.fetch_add(1, Ordering::SeqCst);
     format!("style-{}", ctr)
 }
 
+/// Leaves out the number of a style id that was counted elsewhere (e.g.: on the server side).
+#[cfg(all(feature = "hydration", not(feature = "random")))]
+pub(crate) fn skip_style_id(id: &str) {
+    use std::sync::atomic::Ordering;
+
+    let next = id
+        .rsplit('-')
+        .next()
+        .and_then(|m| m.parse::<u64>().ok())
+        .and_then(|m| m.checked_add(1));
+
+    if let Some(m) = next {
+        CTR.fetch_max(m, Ordering::SeqCst);
+    }
+}
+
 pub(crate) fn get_entropy() -> String {
     #[cfg(feature = "random")]
     let entropy = get_rand_str();
-- 
2.43.0

