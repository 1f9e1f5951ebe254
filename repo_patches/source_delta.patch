From 57f7c757127250db4e33192cd3fa95f1361c30b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 1/8] fix: clear the previous intensity when switching between
 bold and faint

Terminals track bold and faint as separate attributes that only SGR 22 resets,
so switching directly between them left text both bold and faint.
---
 ansi/src/ansi.rs |  3 ++-
 ansi/src/io.rs   |  3 ++-
 ansi/src/util.rs | 14 +++++++++-----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/ansi/src/ansi.rs b/ansi/src/ansi.rs
index 899e015..bce11c0 100644
--- a/ansi/src/ansi.rs
+++ b/ansi/src/ansi.rs
@@ -59,7 +59,8 @@ impl<T: fmt::Write> Write for Ansi<T> {
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity
+                    .map(|new| util::intensity(self.current.intensity, new)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/io.rs b/ansi/src/io.rs
index d54e5be..5a460b8 100644
--- a/ansi/src/io.rs
+++ b/ansi/src/io.rs
@@ -61,7 +61,8 @@ impl<T: std::io::Write> Write for Ansi<T> {
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity
+                    .map(|new| util::intensity(self.current.intensity, new)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/util.rs b/ansi/src/util.rs
index fd7fbca..5a4c560 100644
--- a/ansi/src/util.rs
+++ b/ansi/src/util.rs
@@ -50,11 +50,15 @@ pub(crate) fn background(color: Color) -> &'static str {
     }
 }
 
-pub(crate) fn intensity(intensity: Intensity) -> &'static str {
-    match intensity {
-        Intensity::Bold => "1",
-        Intensity::Faint => "2",
-        Intensity::Normal => "22",
+/// Terminals track bold and faint separately and only `22` turns either off, so
+/// switching directly between them must clear the previous intensity first.
+pub(crate) fn intensity(current: Intensity, new: Intensity) -> &'static str {
+    match (current, new) {
+        (Intensity::Normal, Intensity::Bold) => "1",
+        (Intensity::Normal, Intensity::Faint) => "2",
+        (_, Intensity::Bold) => "22;1",
+        (_, Intensity::Faint) => "22;2",
+        (_, Intensity::Normal) => "22",
         _ => "22",
     }
 }
-- 
2.43.0


From 5efc8e84b4d1234d2332cd0849c53e4f36f9718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 2/8] fix: apply attributes naming the default colors or normal
 intensity

The attributes were folded onto the default style and then diffed from it, which
dropped any attribute that named a default value instead of resetting to it.
---
 macros/src/format.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 896a3eb..6a92b54 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -9,7 +9,7 @@ use nom::{
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
-use stylish_style::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};
+use stylish_style::{Color, Intensity, StyleDiff};
 
 fn identifier(input: &str) -> IResult<&str, &str> {
     recognize(pair(
@@ -48,19 +48,25 @@ impl<'a> Parse<'a> for Intensity {
     }
 }
 
-impl<'a> Parse<'a> for Box<dyn Restyle> {
-    #[allow(trivial_casts)]
+#[derive(Debug, Clone, Copy)]
+enum Attribute {
+    Foreground(Color),
+    Background(Color),
+    Intensity(Intensity),
+}
+
+impl<'a> Parse<'a> for Attribute {
     fn parse(input: &'a str) -> IResult<&'a str, Self> {
         alt((
             map(
                 preceded(tag("fg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Foreground(color)) as _,
+                Self::Foreground,
             ),
             map(
                 preceded(tag("bg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Background(color)) as _,
+                Self::Background,
             ),
-            map(Intensity::parse, |intensity| Box::new(intensity) as _),
+            map(Intensity::parse, Self::Intensity),
         ))(input)
     }
 }
@@ -70,11 +76,19 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(<Box<dyn Restyle>>::parse)),
-            |restyles| {
-                Style::default()
-                    .with(restyles.as_slice())
-                    .diff_from(Style::default())
+            separated_list0(tag(","), cut(Attribute::parse)),
+            |attributes| {
+                // Collect exactly the named attributes, going via a `Style` would lose any
+                // that name the default value.
+                let mut diff = StyleDiff::default();
+                for attribute in attributes {
+                    match attribute {
+                        Attribute::Foreground(color) => diff.foreground = Some(color),
+                        Attribute::Background(color) => diff.background = Some(color),
+                        Attribute::Intensity(intensity) => diff.intensity = Some(intensity),
+                    }
+                }
+                diff
             },
         )(input)
     }
-- 
2.43.0


From 3a204005a7c40769213907f7e742fd81433be023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 3/8] fix: accept an empty attribute list and a trailing comma

Both are part of the documented grammar for attributes.
---
 macros/src/format.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 6a92b54..156f359 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -4,8 +4,8 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{anychar, char, digit1, none_of, satisfy},
-    combinator::{all_consuming, cut, map, map_res, opt, recognize, value},
-    multi::{many0, many1, separated_list0},
+    combinator::{all_consuming, cut, map, map_res, opt, recognize, success, value},
+    multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
@@ -76,7 +76,10 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(Attribute::parse)),
+            alt((
+                terminated(separated_list1(tag(","), Attribute::parse), opt(tag(","))),
+                success(Vec::new()),
+            )),
             |attributes| {
                 // Collect exactly the named attributes, going via a `Style` would lose any
                 // that name the default value.
-- 
2.43.0


From f7e6af8ec8c7102c765eb045736417a6fb861c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 4/8] fix: accept the bright colors in format string attributes

fg and bg are documented as taking any Color value in lowercase.
---
 macros/src/format.rs    | 8 ++++++++
 macros/src/to_tokens.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 156f359..a8657f5 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -33,6 +33,14 @@ impl<'a> Parse<'a> for Color {
             value(Color::Magenta, tag("magenta")),
             value(Color::Cyan, tag("cyan")),
             value(Color::White, tag("white")),
+            value(Color::BrightBlack, tag("brightblack")),
+            value(Color::BrightRed, tag("brightred")),
+            value(Color::BrightGreen, tag("brightgreen")),
+            value(Color::BrightYellow, tag("brightyellow")),
+            value(Color::BrightBlue, tag("brightblue")),
+            value(Color::BrightMagenta, tag("brightmagenta")),
+            value(Color::BrightCyan, tag("brightcyan")),
+            value(Color::BrightWhite, tag("brightwhite")),
             value(Color::Default, tag("default")),
         ))(input)
     }
diff --git a/macros/src/to_tokens.rs b/macros/src/to_tokens.rs
index 5a6d4ea..1b36de9 100644
--- a/macros/src/to_tokens.rs
+++ b/macros/src/to_tokens.rs
@@ -59,6 +59,14 @@ impl<'a> ToTokens for Scoped<'a, Color> {
             Color::Magenta => quote!(#export::Color::Magenta),
             Color::Cyan => quote!(#export::Color::Cyan),
             Color::White => quote!(#export::Color::White),
+            Color::BrightBlack => quote!(#export::Color::BrightBlack),
+            Color::BrightRed => quote!(#export::Color::BrightRed),
+            Color::BrightGreen => quote!(#export::Color::BrightGreen),
+            Color::BrightYellow => quote!(#export::Color::BrightYellow),
+            Color::BrightBlue => quote!(#export::Color::BrightBlue),
+            Color::BrightMagenta => quote!(#export::Color::BrightMagenta),
+            Color::BrightCyan => quote!(#export::Color::BrightCyan),
+            Color::BrightWhite => quote!(#export::Color::BrightWhite),
             Color::Default => quote!(#export::Color::Default),
             color => unreachable!("unknown color {color:?}"),
         }
-- 
2.43.0


From 68fc5be6e3894095e0f6ff4c1c328a3a459cd3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 5/8] fix: accept any argument expression in format macros, not
 only those that bind tighter than &

---
 macros/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index a8632fb..0077cf9 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -113,7 +113,7 @@ fn format_args_impl(
     assert!(leftover.is_empty());
     let num_positional_args = positional_args.len();
     let positional_args = positional_args.into_iter();
-    let positional_args = quote! { (#(&#positional_args,)*) };
+    let positional_args = quote! { (#(&(#positional_args),)*) };
     let (named_args_names, named_args_values): (Vec<_>, Vec<_>) = named_args.into_iter().unzip();
     let named_args_names: HashMap<String, usize> = named_args_names
         .into_iter()
@@ -123,7 +123,7 @@ fn format_args_impl(
         .collect();
     let named_args_values = named_args_values.into_iter();
     let named_args_values = quote! {
-        (#(&#named_args_values,)*)
+        (#(&(#named_args_values),)*)
     };
     let mut implicit_named_args_values = Vec::new();
     let mut used_positional_args = HashSet::new();
-- 
2.43.0


From d8159de415a7402707e140e4c54e9b47441fac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 6/8] fix: accept whitespace before the closing brace of a
 placeholder, as std does

---
 macros/src/format.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index a8657f5..2318cd6 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -2,7 +2,7 @@ use std::str::FromStr;
 
 use nom::{
     branch::alt,
-    bytes::complete::tag,
+    bytes::complete::{tag, take_while},
     character::complete::{anychar, char, digit1, none_of, satisfy},
     combinator::{all_consuming, cut, map, map_res, opt, recognize, success, value},
     multi::{many0, many1, separated_list1},
@@ -298,7 +298,11 @@ impl<'a> Piece<'a> {
 
     pub fn parse_arg(input: &'a str) -> IResult<&'a str, Self> {
         map(
-            delimited(tag("{"), cut(FormatArg::parse), tag("}")),
+            delimited(
+                tag("{"),
+                cut(FormatArg::parse),
+                preceded(take_while(char::is_whitespace), tag("}")),
+            ),
             Self::Arg,
         )(input)
     }
-- 
2.43.0


From 403de48ebc9244da65cb32984d5f5b1d39c1a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 7/8] fix: match a raw identifier argument name with its
 placeholder

---
 macros/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 0077cf9..5518351 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -10,6 +10,7 @@ use std::collections::{HashMap, HashSet};
 use proc_macro2::Span;
 use quote::{quote, ToTokens};
 use syn::{
+    ext::IdentExt,
     parse::{ParseStream, Result},
     parse_macro_input, Expr, ExprAssign, ExprPath, Ident, Index, LitStr, Path, PathArguments,
     Token,
@@ -71,7 +72,7 @@ impl syn::parse::Parse for ArgsInput {
                 Expr::Assign(ExprAssign { left, right, .. }) if matches!(&*left, Expr::Path(ExprPath { path, .. }) if path.segments.len() == 1 && matches!(path.segments[0].arguments, PathArguments::None)) =>
                 {
                     let ident = if let Expr::Path(ExprPath { mut path, .. }) = *left {
-                        path.segments.pop().unwrap().into_value().ident
+                        path.segments.pop().unwrap().into_value().ident.unraw()
                     } else {
                         panic!()
                     };
-- 
2.43.0


From be867e164ab1e8d3c31aa15a505e0a5c3b41f949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 8/8] fix: reject a named argument given twice

---
 macros/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 5518351..99a5ab6 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -76,6 +76,9 @@ impl syn::parse::Parse for ArgsInput {
                     } else {
                         panic!()
                     };
+                    if named_args.iter().any(|(name, _)| *name == ident) {
+                        panic!("duplicate argument named `{ident}`")
+                    }
                     named_args.push((ident, *right));
                     onto_named = true;
                 }
-- 
2.43.0

