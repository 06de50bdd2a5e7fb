From bf1db614d31a5fdb3a8c34b83964a1d6b1e1dd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 01/42] fix: unfold lines before interpreting them

A line may be folded anywhere (RFC 6350 section 3.2), and the library's own
output is folded at 75 octets wherever that falls. Folds inside an escape
sequence corrupted the value and folds inside a parameter or its name made
the card unreadable.
---
 src/lib.rs    | 35 +++++++++++++++++++++++++++++++++--
 src/parser.rs | 33 +++++++++++++++------------------
 2 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5518dd1..8dfd1a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -108,6 +108,8 @@ mod serde;
 mod uri;
 mod vcard;
 
+use std::borrow::Cow;
+
 pub use builder::VcardBuilder;
 pub use error::Error;
 pub use iter::VcardIterator;
@@ -154,10 +156,39 @@ pub(crate) fn escape_value(value: &str, semi_colons: bool) -> String {
     }
 }
 
+/// Join folded lines.
+///
+/// A line may be folded between any two characters, for example inside
+/// an escape sequence or a parameter, so this must happen before the
+/// content of the lines is interpreted.
+///
+/// https://www.rfc-editor.org/rfc/rfc6350#section-3.2
+pub(crate) fn unfold(source: &str) -> Cow<'_, str> {
+    if !source.contains("\n ") && !source.contains("\n\t") {
+        return Cow::Borrowed(source);
+    }
+    let mut unfolded = String::with_capacity(source.len());
+    for (index, line) in source.split_inclusive('\n').enumerate() {
+        let mut line = line;
+        if index > 0
+            && let Some(folded) = line.strip_prefix([' ', '\t'])
+        {
+            // Remove the line break that ended the previous line
+            unfolded.pop();
+            if unfolded.ends_with('\r') {
+                unfolded.pop();
+            }
+            line = folded;
+        }
+        unfolded.push_str(line);
+    }
+    Cow::Owned(unfolded)
+}
+
 pub(crate) fn unescape_value(value: &str) -> String {
     use aho_corasick::AhoCorasick;
-    let patterns = &["\r", "\n ", "\n\t", "\\n", "\\N", "\\,"];
-    let replace_with = &["", "", "", "\n", "\n", ","];
+    let patterns = &["\\n", "\\N", "\\,"];
+    let replace_with = &["\n", "\n", ","];
     let ac = AhoCorasick::new(patterns).unwrap();
     ac.replace_all(value, replace_with)
 }
diff --git a/src/parser.rs b/src/parser.rs
index b6a0680..3d382d5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,7 +11,7 @@ use mime::Mime;
 
 use crate::{
     Error, Result, Uri, Vcard, error::LexError, escape_control, helper::*,
-    name::*, parameter::*, property::*, unescape_value,
+    name::*, parameter::*, property::*, unescape_value, unfold,
 };
 
 type LexResult<T> = std::result::Result<T, LexError>;
@@ -58,9 +58,6 @@ pub(crate) enum Token {
     #[token(":")]
     PropertyDelimiter,
 
-    #[regex("\\r?\\n( |\\t)")]
-    FoldedLine,
-
     #[token("\\,")]
     EscapedComma,
 
@@ -92,13 +89,17 @@ pub(crate) enum Token {
 /// Parses vCards from a string.
 pub(crate) struct VcardParser<'s> {
     strict: bool,
-    pub(crate) source: &'s str,
+    /// Source with folded lines joined.
+    pub(crate) source: Cow<'s, str>,
 }
 
 impl<'s> VcardParser<'s> {
     /// Create a new parser.
     pub fn new(source: &'s str, strict: bool) -> Self {
-        Self { source, strict }
+        Self {
+            source: unfold(source),
+            strict,
+        }
     }
 
     /// Parse a UTF-8 encoded string into a list of vCards.
@@ -126,8 +127,8 @@ impl<'s> VcardParser<'s> {
     }
 
     /// Get a lexer for the current source.
-    pub(crate) fn lexer(&self) -> Lexer<'s, Token> {
-        Token::lexer(self.source)
+    pub(crate) fn lexer(&self) -> Lexer<'_, Token> {
+        Token::lexer(&self.source)
     }
 
     /// Parse a single vCard.
@@ -431,7 +432,7 @@ impl<'s> VcardParser<'s> {
     ) -> Result<(String, LexResult<Token>, bool)> {
         let mut first_range: Option<Range<usize>> = None;
         let mut quoted = false;
-        let mut is_folded_or_escaped = false;
+        let mut is_escaped = false;
 
         while let Some(mut token) = lex.next() {
             let span = lex.span();
@@ -442,12 +443,11 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
-            if token == Ok(Token::FoldedLine)
-                || token == Ok(Token::EscapedNewLine)
+            if token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedBackSlash)
             {
-                is_folded_or_escaped = true;
+                is_escaped = true;
             }
 
             let completed = if first_range.is_some() && quoted {
@@ -490,7 +490,7 @@ impl<'s> VcardParser<'s> {
                     };
                 }
 
-                let value = if is_folded_or_escaped {
+                let value = if is_escaped {
                     unescape_value(value)
                 } else {
                     value.to_string()
@@ -1015,8 +1015,7 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
-            if token == Ok(Token::FoldedLine)
-                || token == Ok(Token::EscapedSemiColon)
+            if token == Ok(Token::EscapedSemiColon)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedBackSlash)
@@ -1036,9 +1035,7 @@ impl<'s> VcardParser<'s> {
             if needs_transform {
                 let mut value = String::new();
                 for (token, span) in tokens {
-                    if token == Ok(Token::FoldedLine) {
-                        continue;
-                    } else if token == Ok(Token::EscapedComma) {
+                    if token == Ok(Token::EscapedComma) {
                         value.push(',');
                         continue;
                     } else if token == Ok(Token::EscapedSemiColon) {
-- 
2.43.0


From b49dbc25c7ad7da271b499878a16c0906018ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 02/42] fix: require the end of a vCard

A vCard cut off at a line boundary (torn write, truncated download) was
returned as a complete card without its lost properties.
---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3d382d5..08cc98b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -158,7 +158,7 @@ impl<'s> VcardParser<'s> {
     ) -> Result<()> {
         while let Some(first) = lex.next() {
             if first == Ok(Token::End) {
-                break;
+                return Ok(());
             }
             if let Ok(Token::Version) = first {
                 return Err(Error::VersionMisplaced);
@@ -180,7 +180,8 @@ impl<'s> VcardParser<'s> {
                 return Err(e);
             }
         }
-        Ok(())
+        // Reached EOF without the end of the vCard
+        Err(Error::TokenExpected)
     }
 
     /// Parse a single property.
-- 
2.43.0


From 3f110f703d17f778810c266e38fa77fedae466d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:26 +0000
Subject: [PATCH 03/42] fix: end iteration and continue after a damaged vCard

The iterator returned the same error forever once a vCard could not be
parsed, and an endless error after the newline that ends the library's own
output. Errors now advance to the next line that begins a vCard and trailing
newlines end the iteration.
---
 src/iter.rs | 48 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 7e32c7f..8f7e1ac 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,6 +1,7 @@
 //! Iterator for parsing vCards.
 use crate::{
-    Error, Result, Vcard,
+    Result, Vcard,
+    name::BEGIN,
     parser::{Token, VcardParser},
 };
 use std::ops::Range;
@@ -21,17 +22,44 @@ impl<'s> VcardIterator<'s> {
     }
 
     /// Parse the next vCard.
-    fn parse_next(&self, offset: usize) -> Result<(Vcard, Range<usize>)> {
+    ///
+    /// Returns `None` when only newlines remain.
+    fn parse_next(
+        &self,
+        offset: usize,
+    ) -> Option<(usize, Result<(Vcard, Range<usize>)>)> {
         let mut lex = self.parser.lexer();
         lex.bump(offset);
         while let Some(first) = lex.next() {
             if first == Ok(Token::NewLine) {
                 continue;
             } else {
-                return self.parser.parse_one(&mut lex, Some(first));
+                let start = lex.span().start;
+                return Some((
+                    start,
+                    self.parser.parse_one(&mut lex, Some(first)),
+                ));
             }
         }
-        Err(Error::TokenExpected)
+        None
+    }
+
+    /// Offset of the first line after the given offset that begins
+    /// a vCard or the end of the source.
+    fn next_begin(&self, offset: usize) -> usize {
+        let source = &self.parser.source;
+        let mut begin = offset;
+        for line in source[offset..].split_inclusive('\n') {
+            if begin > offset
+                && line
+                    .get(..BEGIN.len())
+                    .is_some_and(|s| s.eq_ignore_ascii_case(BEGIN))
+            {
+                break;
+            }
+            begin += line.len();
+        }
+        begin
     }
 }
 
@@ -43,11 +71,19 @@ impl<'s> Iterator for VcardIterator<'s> {
             return None;
         }
         match self.parse_next(self.offset) {
-            Ok((card, span)) => {
+            Some((_, Ok((card, span)))) => {
                 self.offset = span.end;
                 Some(Ok(card))
             }
-            Err(e) => Some(Err(e)),
+            Some((start, Err(e))) => {
+                // Continue with the next vCard
+                self.offset = self.next_begin(start);
+                Some(Err(e))
+            }
+            None => {
+                self.offset = self.parser.source.len();
+                None
+            }
         }
     }
 }
-- 
2.43.0


From e66e12a28f389934fb4f3c55f443ef5ba881f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 04/42] fix: do not panic on a date that starts with a
 multi-byte character

---
 src/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 7b39a64..0b4a675 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -539,8 +539,8 @@ impl FromStr for DateAndOrTime {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        if !s.is_empty() && &s[0..1] == "T" {
-            return Ok(Self::Time(parse_time(&s[1..])?));
+        if let Some(time) = s.strip_prefix('T') {
+            return Ok(Self::Time(parse_time(time)?));
         }
 
         match parse_date_time(s) {
-- 
2.43.0


From 2ae598642d9d6289911cc0ebcb5bebdab1433db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 05/42] fix: keep the sign of UTC offsets between -0059 and
 -0001

---
 src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index 0b4a675..768a422 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -759,7 +759,7 @@ impl From<UtcOffset> for UtcOffsetProperty {
 impl fmt::Display for UtcOffsetProperty {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let (h, m, _) = self.value.as_hms();
-        let sign = if h >= 0 { '+' } else { '-' };
+        let sign = if self.value.is_negative() { '-' } else { '+' };
         let h = h.abs();
         let m = m.abs();
         let h = if h < 10 {
-- 
2.43.0


From e3626fc6a6d2d5c9299ec35f25d06fa8bb8200ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 06/42] fix: do not read the clock when parsing dates and times

now_utc() panics when the clock is out of range, and the result never
depended on it.
---
 src/helper.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index b99932b..08c4fe7 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -238,11 +238,8 @@ pub fn parse_date_time(value: &str) -> Result<DateTime> {
     let date = parse_date(date)?;
     let (time, offset) = parse_time(time)?;
 
-    let utc = OffsetDateTime::now_utc()
-        .replace_date(date)
-        .replace_time(time)
-        .replace_offset(offset);
-    Ok(utc.into())
+    let date_time = PrimitiveDateTime::new(date, time).assume_offset(offset);
+    Ok(date_time.into())
 }
 
 pub(crate) fn format_date_time(d: &DateTime) -> Result<String> {
@@ -299,12 +296,10 @@ pub fn parse_timestamp(value: &str) -> Result<DateTime> {
     {
         Ok(result.into())
     } else if let Ok(result) = PrimitiveDateTime::parse(value, &utc_format) {
-        let result = OffsetDateTime::now_utc().replace_date_time(result);
-        Ok(result.into())
+        Ok(result.assume_utc().into())
     } else {
         let result = PrimitiveDateTime::parse(value, &implicit_utc_format)?;
-        let result = OffsetDateTime::now_utc().replace_date_time(result);
-        Ok(result.into())
+        Ok(result.assume_utc().into())
     }
 }
 
-- 
2.43.0


From 77ccac95d605226ecf492b0cee46a731cc81b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 07/42] fix: split structured values before unescaping them

An escaped delimiter inside a component of N, ORG, ADR or CATEGORIES
was taken for the end of the component.
---
 src/parser.rs   | 67 +++++++++++++++++++++++++++++++++----------------
 src/property.rs | 11 +++++++-
 2 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 08cc98b..1c861a8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -513,7 +513,7 @@ impl<'s> VcardParser<'s> {
         parameters: Option<Parameters>,
         group: Option<String>,
     ) -> Result<()> {
-        let value = self.parse_property_value(lex)?;
+        let (value, escaped) = self.parse_property_value(lex)?;
 
         let upper_name = name.to_uppercase();
 
@@ -566,11 +566,10 @@ impl<'s> VcardParser<'s> {
                 if card.name.is_some() {
                     return Err(Error::OnlyOnce(upper_name));
                 }
-                let value = value
-                    .as_ref()
-                    .split(';')
-                    .map(|s| s.to_string())
-                    .collect::<Vec<_>>();
+                let value =
+                    split_unescaped(&value, ';', usize::MAX, &escaped)
+                        .map(|s| s.to_string())
+                        .collect::<Vec<_>>();
                 card.name = Some(TextListProperty {
                     value,
                     parameters,
@@ -642,7 +641,10 @@ impl<'s> VcardParser<'s> {
             // Delivery Addressing
             // https://www.rfc-editor.org/rfc/rfc6350#section-6.3
             ADR => {
-                let value: DeliveryAddress = value.as_ref().parse()?;
+                let value = DeliveryAddress::from_components(
+                    &value,
+                    split_unescaped(&value, ';', 7, &escaped),
+                )?;
                 card.address.push(AddressProperty {
                     value,
                     parameters,
@@ -764,11 +766,10 @@ impl<'s> VcardParser<'s> {
                 });
             }
             ORG => {
-                let value = value
-                    .as_ref()
-                    .split(';')
-                    .map(|s| s.to_string())
-                    .collect::<Vec<_>>();
+                let value =
+                    split_unescaped(&value, ';', usize::MAX, &escaped)
+                        .map(|s| s.to_string())
+                        .collect::<Vec<_>>();
                 card.org.push(TextListProperty {
                     value,
                     parameters,
@@ -796,11 +797,10 @@ impl<'s> VcardParser<'s> {
             // Explanatory
             // https://www.rfc-editor.org/rfc/rfc6350#section-6.7
             CATEGORIES => {
-                let value = value
-                    .as_ref()
-                    .split(',')
-                    .map(|s| s.to_string())
-                    .collect::<Vec<_>>();
+                let value =
+                    split_unescaped(&value, ',', usize::MAX, &escaped)
+                        .map(|s| s.to_string())
+                        .collect::<Vec<_>>();
                 card.categories.push(TextListProperty {
                     value,
                     parameters,
@@ -993,11 +993,12 @@ impl<'s> VcardParser<'s> {
         Ok(())
     }
 
-    /// Get the slice for the property value.
+    /// Get the slice for the property value and the positions of the
+    /// characters in it that were escaped.
     fn parse_property_value<'a>(
         &self,
         lex: &'a mut Lexer<'_, Token>,
-    ) -> Result<Cow<'a, str>> {
+    ) -> Result<(Cow<'a, str>, Vec<usize>)> {
         let mut first_range: Option<Range<usize>> = None;
         let mut last_range: Option<Range<usize>> = None;
 
@@ -1035,11 +1036,14 @@ impl<'s> VcardParser<'s> {
         if let (Some(first), Some(last)) = (first_range, last_range) {
             if needs_transform {
                 let mut value = String::new();
+                let mut escaped = Vec::new();
                 for (token, span) in tokens {
                     if token == Ok(Token::EscapedComma) {
+                        escaped.push(value.len());
                         value.push(',');
                         continue;
                     } else if token == Ok(Token::EscapedSemiColon) {
+                        escaped.push(value.len());
                         value.push(';');
                         continue;
                     } else if token == Ok(Token::EscapedNewLine) {
@@ -1053,10 +1057,11 @@ impl<'s> VcardParser<'s> {
                     let source = lex.source();
                     value.push_str(&source[span]);
                 }
-                Ok(Cow::Owned(value))
+                Ok((Cow::Owned(value), escaped))
             } else {
                 let source = lex.source();
-                Ok(Cow::Borrowed(&source[first.start..last.start]))
+                let value = &source[first.start..last.start];
+                Ok((Cow::Borrowed(value), Vec::new()))
             }
         } else {
             Err(Error::InvalidPropertyValue)
@@ -1126,6 +1131,26 @@ impl<'s> VcardParser<'s> {
     }
 }
 
+/// Split a value on the delimiters that were not escaped into
+/// at most as many parts as the limit.
+fn split_unescaped<'a>(
+    value: &'a str,
+    delimiter: char,
+    limit: usize,
+    escaped: &[usize],
+) -> impl Iterator<Item = &'a str> {
+    let mut parts = Vec::new();
+    let mut start = 0;
+    for (index, _) in value.match_indices(delimiter) {
+        if parts.len() + 1 < limit && escaped.binary_search(&index).is_err() {
+            parts.push(&value[start..index]);
+            start = index + delimiter.len_utf8();
+        }
+    }
+    parts.push(&value[start..]);
+    parts.into_iter()
+}
+
 fn parse_date_time_or_text(
     prop_name: &str,
     value: Cow<'_, str>,
diff --git a/src/property.rs b/src/property.rs
index 768a422..be8b16a 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -135,7 +135,16 @@ impl FromStr for DeliveryAddress {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        let mut it = s.splitn(7, ';');
+        Self::from_components(s, s.splitn(7, ';'))
+    }
+}
+
+impl DeliveryAddress {
+    /// Create an address from the components of a value.
+    pub(crate) fn from_components<'a>(
+        s: &str,
+        mut it: impl Iterator<Item = &'a str>,
+    ) -> Result<Self> {
         let po_box = it
             .next()
             .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
-- 
2.43.0


From 1d1b222da35d70e7e9e48d2033757bbd53b2073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 08/42] fix: skip the whole line of a property that is ignored

In loose mode an error in the name or parameters of a property left
the parser in the middle of the line and failed the vCard.
---
 src/parser.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1c861a8..40b0056 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -164,20 +164,28 @@ impl<'s> VcardParser<'s> {
                 return Err(Error::VersionMisplaced);
             }
 
-            self.assert_token(
-                Some(&first),
-                &[
-                    Token::PropertyName,
-                    Token::ExtensionName,
-                    Token::TimeZone,
-                    Token::Geo,
-                ],
-            )?;
+            if first == Ok(Token::Begin) {
+                return Err(Error::IncorrectToken(format!("{:#?}", first)));
+            }
 
-            if let Err(e) = self.parse_property(lex, first, card)
-                && self.strict
-            {
-                return Err(e);
+            let result = self
+                .assert_token(
+                    Some(&first),
+                    &[
+                        Token::PropertyName,
+                        Token::ExtensionName,
+                        Token::TimeZone,
+                        Token::Geo,
+                    ],
+                )
+                .and_then(|_| self.parse_property(lex, first, card));
+
+            if let Err(e) = result {
+                if self.strict {
+                    return Err(e);
+                }
+                // Ignore the rest of the line
+                while !lex.slice().ends_with('\n') && lex.next().is_some() {}
             }
         }
         // Reached EOF without the end of the vCard
-- 
2.43.0


From 326dbefe7896a179b77c5522a127171e356aa400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 09/42] fix: do not let a parameter value continue on the next
 line

An unclosed quote swallowed the lines that follow.
---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 40b0056..2408727 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -452,6 +452,11 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
+            // Parameters must end before the line does
+            if token == Ok(Token::NewLine) {
+                return Err(Error::DelimiterExpected);
+            }
+
             if token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedBackSlash)
-- 
2.43.0


From d8657b9e6a356e00ca4bde4d8e61fd5c926177de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 10/42] fix: remove the quotes of an empty parameter value

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2408727..72877a9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -486,7 +486,7 @@ impl<'s> VcardParser<'s> {
                 let mut value = &source[begin..end];
 
                 // Remove double quotes if necessary
-                if value.len() >= 2 && quoted {
+                if quoted {
                     value = &source[begin + 1..end];
                 }
 
-- 
2.43.0


From 6e78320e3e6376cc556116e29297477b250e3074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 11/42] fix: refuse a quote inside an unquoted parameter value

RFC 6350 does not allow it and it could not be written back.
---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 72877a9..709cfc3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -477,6 +477,9 @@ impl<'s> VcardParser<'s> {
                 if token == Ok(Token::DoubleQuote) {
                     quoted = true;
                 }
+            } else if token == Ok(Token::DoubleQuote) && !quoted {
+                // Only allowed around the entire value
+                return Err(Error::DelimiterExpected);
             }
 
             if completed {
-- 
2.43.0


From a6a5997b107db9fd99d8b1c4d0ea8f1855fe7159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 12/42] fix: read TZ and GEO in any case and with a group like
 other properties

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 709cfc3..75439ff 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -26,11 +26,11 @@ pub(crate) enum Token {
     Version,
 
     // Special case shared between property and parameter
-    #[token("TZ")]
+    #[regex("(?i:([a-z0-9-]+\\.)?TZ)")]
     TimeZone,
 
     // Special case shared between property and parameter
-    #[token("GEO")]
+    #[regex("(?i:([a-z0-9-]+\\.)?GEO)")]
     Geo,
 
     #[regex(
-- 
2.43.0


From a47b103330cb3bcfa980ccc01644a52218318289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 13/42] fix: zeroize the group of BDAY and ANNIVERSARY

---
 src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index be8b16a..2f358d5 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -568,6 +568,7 @@ impl FromStr for DateAndOrTime {
 /// Date and or time property.
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
 pub struct DateAndOrTimeProperty {
     /// Group for this property.
     #[cfg_attr(
@@ -576,6 +577,7 @@ pub struct DateAndOrTimeProperty {
     )]
     pub group: Option<String>,
     /// The value for the property.
+    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     pub value: Vec<DateAndOrTime>,
     /// The property parameters.
     #[cfg_attr(
@@ -678,7 +680,6 @@ impl fmt::Display for TextOrUriProperty {
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum DateTimeOrTextProperty {
     /// Date time value.
-    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     DateTime(DateAndOrTimeProperty),
     /// Text value.
     Text(TextProperty),
-- 
2.43.0


From 122730f9634d74514ab5acfb79f814a4306e2120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 14/42] fix: accept VALUE=text for the TZ property

---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 75439ff..c4f9a65 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -713,6 +713,15 @@ impl<'s> VcardParser<'s> {
 
                 if let Some(value_type) = value_type {
                     match value_type {
+                        ValueType::Text => {
+                            card.timezone.push(TimeZoneProperty::Text(
+                                TextProperty {
+                                    value: value.into_owned(),
+                                    parameters,
+                                    group,
+                                },
+                            ));
+                        }
                         ValueType::UtcOffset => {
                             let mut value: UtcOffsetProperty =
                                 value.as_ref().parse()?;
-- 
2.43.0


From c37c737010aa1188a6c3c9736acfeca25d6c53ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 15/42] fix: escape language values that are plain text

---
 src/property.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/property.rs b/src/property.rs
index 2f358d5..56cb6bb 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -398,7 +398,12 @@ impl fmt::Display for AnyProperty {
             Self::Timestamp(val) => format_timestamp_list(f, val),
             Self::UtcOffset(val) => format_utc_offset(f, val),
             Self::Uri(val) => write!(f, "{}", val),
+            #[cfg(feature = "language-tags")]
             Self::Language(val) => write!(f, "{}", val),
+            #[cfg(not(feature = "language-tags"))]
+            Self::Language(val) => {
+                write!(f, "{}", escape_value(val, false))
+            }
         }
     }
 }
@@ -442,6 +447,13 @@ impl From<String> for LanguageProperty {
     }
 }
 
+#[cfg(not(feature = "language-tags"))]
+impl fmt::Display for LanguageProperty {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "{}", escape_value(&self.value, false))
+    }
+}
+
 #[cfg(feature = "language-tags")]
 impl From<LanguageTag> for LanguageProperty {
     fn from(value: LanguageTag) -> Self {
@@ -1266,6 +1278,7 @@ display_impl!(KindProperty);
 property_impl!(TextProperty);
 
 property_impl!(LanguageProperty);
+#[cfg(feature = "language-tags")]
 display_impl!(LanguageProperty);
 
 property_impl!(DateTimeProperty);
-- 
2.43.0


From bb510ccccab797c3456f815ac46900c75c92b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 16/42] fix: quote and escape parameter values so they can be
 read back

---
 src/lib.rs       |  4 ++--
 src/parameter.rs | 44 ++++++++++++++++++++++++++++++++++++--------
 src/parser.rs    |  1 +
 3 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8dfd1a2..33be409 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -187,8 +187,8 @@ pub(crate) fn unfold(source: &str) -> Cow<'_, str> {
 
 pub(crate) fn unescape_value(value: &str) -> String {
     use aho_corasick::AhoCorasick;
-    let patterns = &["\\n", "\\N", "\\,"];
-    let replace_with = &["\n", "\n", ","];
+    let patterns = &["\\n", "\\N", "\\,", "\\;", "\\\\"];
+    let replace_with = &["\n", "\n", ",", ";", "\\"];
     let ac = AhoCorasick::new(patterns).unwrap();
     ac.replace_all(value, replace_with)
 }
diff --git a/src/parameter.rs b/src/parameter.rs
index 5620496..c9bbeda 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -562,7 +562,7 @@ impl fmt::Display for Parameters {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         use crate::name::*;
         if let Some(language) = &self.language {
-            write!(f, ";{}={}", LANGUAGE, language)?;
+            write!(f, ";{}={}", LANGUAGE, quote_parameter(language))?;
         }
         if let Some(value) = &self.value {
             write!(f, ";{}={}", VALUE, value)?;
@@ -571,22 +571,32 @@ impl fmt::Display for Parameters {
             write!(f, ";{}={}", PREF, pref)?;
         }
         if let Some(alt_id) = &self.alt_id {
-            write!(f, ";{}=\"{}\"", ALTID, alt_id)?;
+            write!(f, ";{}=\"{}\"", ALTID, escape_parameter(alt_id))?;
         }
         if let Some(pids) = &self.pid {
             write!(f, ";{}={}", PID, comma_delimited(pids))?;
         }
         if let Some(types) = &self.types {
-            write!(f, ";{}={}", TYPE, comma_delimited(types))?;
+            write!(
+                f,
+                ";{}={}",
+                TYPE,
+                quote_parameter(comma_delimited(types))
+            )?;
         }
         if let Some(media_type) = &self.media_type {
-            write!(f, ";{}={}", MEDIATYPE, media_type)?;
+            write!(f, ";{}={}", MEDIATYPE, quote_parameter(media_type))?;
         }
         if let Some(calscale) = &self.calscale {
-            write!(f, ";{}={}", CALSCALE, calscale)?;
+            write!(f, ";{}={}", CALSCALE, quote_parameter(calscale))?;
         }
         if let Some(sort_as) = &self.sort_as {
-            write!(f, ";{}=\"{}\"", SORT_AS, comma_delimited(sort_as))?;
+            write!(
+                f,
+                ";{}=\"{}\"",
+                SORT_AS,
+                escape_parameter(&comma_delimited(sort_as))
+            )?;
         }
         if let Some(geo) = &self.geo {
             write!(f, ";{}=\"{}\"", GEO, geo)?;
@@ -594,6 +604,8 @@ impl fmt::Display for Parameters {
         if let Some(tz) = &self.timezone {
             match tz {
                 TimeZoneParameter::Text(val) => {
+                    // Text must not be quoted
+                    let val = escape_parameter(val).replace(';', "\\;");
                     write!(f, ";{}={}", TZ, val)?;
                 }
                 TimeZoneParameter::UtcOffset(val) => {
@@ -611,7 +623,12 @@ impl fmt::Display for Parameters {
         }
         if let Some(extensions) = &self.extensions {
             for (name, value) in extensions {
-                write!(f, ";{}=\"{}\"", name, comma_delimited(value))?;
+                write!(
+                    f,
+                    ";{}=\"{}\"",
+                    name,
+                    escape_parameter(&comma_delimited(value))
+                )?;
             }
         }
         Ok(())
@@ -619,7 +636,18 @@ impl fmt::Display for Parameters {
 }
 
 fn escape_parameter(s: &str) -> String {
-    s.replace('\n', "\\n")
+    s.replace('\\', "\\\\").replace('\n', "\\n")
+}
+
+/// Escape a parameter value and quote it when it would otherwise
+/// end early.
+fn quote_parameter(value: impl fmt::Display) -> String {
+    let value = escape_parameter(&value.to_string());
+    if value.contains([':', ';']) {
+        format!("\"{}\"", value)
+    } else {
+        value
+    }
 }
 
 fn comma_delimited(items: &[impl std::fmt::Display]) -> String {
diff --git a/src/parser.rs b/src/parser.rs
index c4f9a65..b012a02 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -458,6 +458,7 @@ impl<'s> VcardParser<'s> {
             }
 
             if token == Ok(Token::EscapedNewLine)
+                || token == Ok(Token::EscapedSemiColon)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedBackSlash)
             {
-- 
2.43.0


From de63f8d37675a87d518e2cceafb2bee4ae3c4f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 17/42] fix: end a parameter value before VCARD or a version
 number

END:VCARD, BEGIN:VCARD and VERSION:4.0 were taken as one token inside
a line so that the delimiter in them was missed.
---
 src/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index b012a02..b776b9b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -444,6 +444,18 @@ impl<'s> VcardParser<'s> {
         let mut is_escaped = false;
 
         while let Some(mut token) = lex.next() {
+            // Only special at the beginning of a line
+            if let Ok(Token::Begin | Token::Version | Token::End) = token
+                && !quoted
+            {
+                let start = lex.span().start;
+                let colon = start + lex.slice().find(':').unwrap_or(0);
+                *lex = Token::lexer(lex.source());
+                lex.bump(colon);
+                first_range.get_or_insert(start..colon);
+                token = lex.next().unwrap_or(token);
+            }
+
             let span = lex.span();
 
             if token == Ok(Token::Control) {
-- 
2.43.0


From 493509550312d597b4d97974c0c05876e611c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 18/42] fix: deserialize dates in the format they are
 serialized in

---
 src/date_time.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/date_time.rs b/src/date_time.rs
index 92aba7d..4aed1f1 100644
--- a/src/date_time.rs
+++ b/src/date_time.rs
@@ -1,6 +1,9 @@
 use crate::Error;
 use std::{fmt, str::FromStr};
-use time::{OffsetDateTime, format_description::well_known::Rfc3339};
+use time::{
+    OffsetDateTime,
+    format_description::{self, well_known::Rfc3339},
+};
 
 #[cfg(feature = "serde")]
 use serde_with::{DeserializeFromStr, SerializeDisplay, serde_as};
@@ -84,6 +87,10 @@ impl FromStr for Date {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(OffsetDateTime::parse(s, &Rfc3339)?.date()))
+        let format = format_description::parse("[year]-[month]-[day]")?;
+        match time::Date::parse(s, &format) {
+            Ok(date) => Ok(Self(date)),
+            Err(_) => Ok(Self(OffsetDateTime::parse(s, &Rfc3339)?.date())),
+        }
     }
 }
-- 
2.43.0


From 62ab359e344abd346d6a2c46b287f8cd8a228c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:43 +0000
Subject: [PATCH 19/42] fix: deserialize URIs as URIs and not as text

---
 src/property.rs | 68 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 66 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 56cb6bb..0df9e60 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -30,6 +30,9 @@ use crate::{
     parameter::Parameters,
 };
 
+#[cfg(feature = "serde")]
+use crate::parameter::ValueType;
+
 const INDIVIDUAL: &str = "individual";
 const GROUP: &str = "group";
 const ORG: &str = "org";
@@ -637,7 +640,7 @@ impl fmt::Display for DateAndOrTimeProperty {
 
 /// Either text or a Uri.
 #[derive(Debug, Eq, PartialEq, Clone)]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
 #[cfg_attr(feature = "serde", serde(untagged))]
 #[allow(clippy::large_enum_variant)]
@@ -648,6 +651,27 @@ pub enum TextOrUriProperty {
     Uri(UriProperty),
 }
 
+// Text and URIs are serialized alike, tell them apart as the parser does
+#[cfg(feature = "serde")]
+impl<'de> Deserialize<'de> for TextOrUriProperty {
+    fn deserialize<D>(deserializer: D) -> std::result::Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        let mut text = TextProperty::deserialize(deserializer)?;
+        match text.value.parse() {
+            Ok(value) if text.value_type() != Some(&ValueType::Text) => {
+                Ok(Self::Uri(UriProperty {
+                    value,
+                    group: text.group.take(),
+                    parameters: text.parameters.take(),
+                }))
+            }
+            _ => Ok(Self::Text(text)),
+        }
+    }
+}
+
 impl From<String> for TextOrUriProperty {
     fn from(value: String) -> Self {
         Self::Text(value.into())
@@ -813,7 +837,7 @@ impl FromStr for UtcOffsetProperty {
 
 /// Value for a timezone property.
 #[derive(Debug, Eq, PartialEq, Clone)]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
 #[cfg_attr(feature = "serde", serde(untagged))]
 #[allow(clippy::large_enum_variant)]
@@ -826,6 +850,39 @@ pub enum TimeZoneProperty {
     UtcOffset(UtcOffsetProperty),
 }
 
+// Text and URIs are serialized alike, tell them apart as the parser does
+#[cfg(feature = "serde")]
+impl<'de> Deserialize<'de> for TimeZoneProperty {
+    fn deserialize<D>(deserializer: D) -> std::result::Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        #[derive(Deserialize)]
+        #[serde(untagged)]
+        #[allow(clippy::large_enum_variant)]
+        enum TextOrUtcOffset {
+            Text(TextProperty),
+            UtcOffset(UtcOffsetProperty),
+        }
+
+        match TextOrUtcOffset::deserialize(deserializer)? {
+            TextOrUtcOffset::UtcOffset(offset) => Ok(Self::UtcOffset(offset)),
+            TextOrUtcOffset::Text(mut text) => {
+                if text.value_type() != Some(&ValueType::Uri) {
+                    return Ok(Self::Text(text));
+                }
+                let value =
+                    text.value.parse().map_err(serde::de::Error::custom)?;
+                Ok(Self::Uri(UriProperty {
+                    value,
+                    group: text.group.take(),
+                    parameters: text.parameters.take(),
+                }))
+            }
+        }
+    }
+}
+
 impl From<String> for TimeZoneProperty {
     fn from(value: String) -> Self {
         Self::Text(value.into())
@@ -893,6 +950,13 @@ pub struct TextProperty {
     pub parameters: Option<Parameters>,
 }
 
+#[cfg(feature = "serde")]
+impl TextProperty {
+    fn value_type(&self) -> Option<&ValueType> {
+        self.parameters.as_ref().and_then(|p| p.value.as_ref())
+    }
+}
+
 impl fmt::Display for TextProperty {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "{}", escape_value(&self.value, false))
-- 
2.43.0


From 052b88a4d19c414957ebb031373ac6a42739e2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 20/42] fix: respect VALUE=text for the PHOTO property

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b776b9b..41ba1ac 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -614,14 +614,17 @@ impl<'s> VcardParser<'s> {
                 });
             }
             PHOTO => match value.as_ref().parse::<Uri>() {
-                Ok(value) => {
+                Ok(value)
+                    if parameters.as_ref().and_then(|p| p.value.as_ref())
+                        != Some(&ValueType::Text) =>
+                {
                     card.photo.push(TextOrUriProperty::Uri(UriProperty {
                         value,
                         parameters,
                         group,
                     }));
                 }
-                Err(_) => {
+                _ => {
                     card.photo.push(TextOrUriProperty::Text(TextProperty {
                         value: value.into_owned(),
                         parameters,
-- 
2.43.0


From 61440787ff6bb90c78fe12028ab72b8d9b96a5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 21/42] fix: keep the time when deserializing a date and time

---
 src/property.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 0df9e60..2549bd4 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -515,10 +515,11 @@ impl fmt::Display for DateTimeProperty {
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum DateAndOrTime {
-    /// Date value.
-    Date(Date),
+    // NOTE: must be before the date as a date accepts any date time
     /// Date and time value.
     DateTime(DateTime),
+    /// Date value.
+    Date(Date),
     /// Time value.
     Time((Time, UtcOffset)),
 }
-- 
2.43.0


From cba032fc06fdc11f5d4603e3fddff1783c323aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 22/42] fix: deserialize extension values as the type they
 declare

---
 src/property.rs | 89 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 85 insertions(+), 4 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 2549bd4..6d754f5 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -316,7 +316,7 @@ pub struct ClientPidMapProperty {
 
 /// Extension property.
 #[derive(Debug, Eq, PartialEq, Clone)]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
 pub struct ExtensionProperty {
     /// The property name.
@@ -337,6 +337,46 @@ pub struct ExtensionProperty {
     pub parameters: Option<Parameters>,
 }
 
+#[cfg(feature = "serde")]
+impl<'de> Deserialize<'de> for ExtensionProperty {
+    fn deserialize<D>(deserializer: D) -> std::result::Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        #[derive(Deserialize)]
+        struct Extension {
+            name: String,
+            #[serde(default)]
+            group: Option<String>,
+            value: AnyProperty,
+            #[serde(default)]
+            parameters: Option<Parameters>,
+        }
+
+        let Extension {
+            name,
+            group,
+            mut value,
+            parameters,
+        } = Extension::deserialize(deserializer)?;
+
+        if let Some(parameters) = &parameters
+            && let Some(value_type) = &parameters.value
+        {
+            value
+                .set_value_type(value_type)
+                .map_err(serde::de::Error::custom)?;
+        }
+
+        Ok(Self {
+            name,
+            group,
+            value,
+            parameters,
+        })
+    }
+}
+
 /// Value for any property type.
 #[derive(Debug, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", cfg_eval::cfg_eval, serde_as)]
@@ -354,12 +394,13 @@ pub enum AnyProperty {
     /// Boolean property.
     Boolean(bool),
 
-    /// Date value.
-    #[cfg_attr(feature = "zeroize", zeroize(skip))]
-    Date(Vec<Date>),
+    // NOTE: must be before the date as a date accepts any date time
     /// Date and time value.
     #[cfg_attr(feature = "zeroize", zeroize(skip))]
     DateTime(Vec<DateTime>),
+    /// Date value.
+    #[cfg_attr(feature = "zeroize", zeroize(skip))]
+    Date(Vec<Date>),
     /// Time value.
     #[cfg_attr(feature = "zeroize", zeroize(skip))]
     Time(Vec<(Time, UtcOffset)>),
@@ -387,6 +428,46 @@ pub enum AnyProperty {
 
 impl Eq for AnyProperty {}
 
+#[cfg(feature = "serde")]
+impl AnyProperty {
+    /// Convert a deserialized value that looks like another type.
+    fn set_value_type(&mut self, value_type: &ValueType) -> Result<()> {
+        let value = match (&mut *self, value_type) {
+            (Self::Text(val), ValueType::Uri) => Self::Uri(val.parse()?),
+            #[cfg(feature = "language-tags")]
+            (Self::Text(val), ValueType::LanguageTag) => {
+                Self::Language(val.parse()?)
+            }
+            #[cfg(not(feature = "language-tags"))]
+            (Self::Text(val), ValueType::LanguageTag) => {
+                Self::Language(std::mem::take(val))
+            }
+            (Self::Integer(val), ValueType::UtcOffset) => {
+                let mut hms = [0; 3];
+                for (to, from) in hms.iter_mut().zip(val) {
+                    *to = (*from).try_into().unwrap_or(i8::MAX);
+                }
+                Self::UtcOffset(UtcOffset::from_hms(hms[0], hms[1], hms[2])?)
+            }
+            (Self::DateTime(val), ValueType::Timestamp) => {
+                Self::Timestamp(std::mem::take(val))
+            }
+            (Self::DateTime(val), ValueType::DateAndOrTime) => {
+                Self::DateAndOrTime(val.drain(..).map(Into::into).collect())
+            }
+            (Self::Date(val), ValueType::DateAndOrTime) => {
+                Self::DateAndOrTime(val.drain(..).map(Into::into).collect())
+            }
+            (Self::Time(val), ValueType::DateAndOrTime) => {
+                Self::DateAndOrTime(val.drain(..).map(Into::into).collect())
+            }
+            _ => return Ok(()),
+        };
+        *self = value;
+        Ok(())
+    }
+}
+
 impl fmt::Display for AnyProperty {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-- 
2.43.0


From ddb1ed98cb7314636b514f84b0f00ca75f5e7867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:02 +0000
Subject: [PATCH 23/42] fix: refuse URIs that start with a colon instead of
 panicking

---
 src/uri.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/uri.rs b/src/uri.rs
index 1b94dfc..5ee810e 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -1,6 +1,6 @@
 use crate::Error;
 use std::{fmt, str::FromStr};
-use uriparse::URI;
+use uriparse::{URIError, URIReference, URI};
 
 /// URI type for the library.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -15,6 +15,11 @@ impl FromStr for Uri {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(URI::try_from(s)?.into_owned()))
+        // URI::try_from() on text panics when the text starts with a
+        // colon because URIError cannot express that error
+        let reference = URIReference::try_from(s).map_err(|e| {
+            URIError::try_from(e).unwrap_or(URIError::NotURI)
+        })?;
+        Ok(Self(URI::try_from(reference)?.into_owned()))
     }
 }
-- 
2.43.0


From 1252ecd2143023b62a3a5030f6035fdc79f05da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:53 +0000
Subject: [PATCH 24/42] fix: keep the times of a list of dates and times when
 deserializing

---
 src/property.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index 6d754f5..37dcc3a 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -400,7 +400,13 @@ pub enum AnyProperty {
     DateTime(Vec<DateTime>),
     /// Date value.
     #[cfg_attr(feature = "zeroize", zeroize(skip))]
-    Date(Vec<Date>),
+    Date(
+        #[cfg_attr(
+            feature = "serde",
+            serde(deserialize_with = "deserialize_dates")
+        )]
+        Vec<Date>,
+    ),
     /// Time value.
     #[cfg_attr(feature = "zeroize", zeroize(skip))]
     Time(Vec<(Time, UtcOffset)>),
@@ -428,6 +434,23 @@ pub enum AnyProperty {
 
 impl Eq for AnyProperty {}
 
+/// Deserialize a list of dates that does not contain date times.
+#[cfg(feature = "serde")]
+fn deserialize_dates<'de, D>(
+    deserializer: D,
+) -> std::result::Result<Vec<Date>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    Vec::<DateAndOrTime>::deserialize(deserializer)?
+        .into_iter()
+        .map(|value| match value {
+            DateAndOrTime::Date(value) => Ok(value),
+            _ => Err(serde::de::Error::custom("expected a date")),
+        })
+        .collect()
+}
+
 #[cfg(feature = "serde")]
 impl AnyProperty {
     /// Convert a deserialized value that looks like another type.
-- 
2.43.0


From 7ee1387ffc20a787c97b8b8e4cca82845b1bdba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 25/42] fix: write the T in front of a time without date

---
 src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index 37dcc3a..528f94d 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -658,7 +658,7 @@ impl fmt::Display for DateAndOrTime {
                 format_date_time(val).map_err(|_| fmt::Error)?
             ),
             Self::Time(val) => {
-                write!(f, "{}", format_time(val).map_err(|_| fmt::Error)?)
+                write!(f, "T{}", format_time(val).map_err(|_| fmt::Error)?)
             }
         }
     }
-- 
2.43.0


From f30add75bcb8b01512c657c99cb712e109671731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 26/42] fix: read a month without year and day as a date

---
 src/helper.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 08c4fe7..cf58f44 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -160,7 +160,11 @@ pub fn parse_date(value: &str) -> Result<Date> {
             *val = "01";
         }
 
-        let value = parts.join("");
+        let mut value = parts.join("");
+        // Got a --MM format need to use 01 for the day
+        if parts.len() == 6 && value.len() == 6 {
+            value.push_str("01");
+        }
         do_parse_date(&value)
     // Got a YYYY-MM format need to use 01 for the day
     } else if value.len() == 7 {
-- 
2.43.0


From 96a00846e315dc92b2405d8c18afd7b51b1a306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 27/42] fix: read the types home and work in any letter case

---
 src/parameter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parameter.rs b/src/parameter.rs
index c9bbeda..6c5943e 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -92,8 +92,8 @@ impl FromStr for TypeParameter {
 
     fn from_str(s: &str) -> Result<Self> {
         match s {
-            HOME => Ok(Self::Home),
-            WORK => Ok(Self::Work),
+            _ if s.eq_ignore_ascii_case(HOME) => Ok(Self::Home),
+            _ if s.eq_ignore_ascii_case(WORK) => Ok(Self::Work),
             _ => {
                 if s.starts_with("x-") || s.starts_with("X-") {
                     let value = if s.len() > 2 {
-- 
2.43.0


From 2ee065debde13532b1e8bbdc81904da2db47cb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 28/42] fix: refuse times that contain a date

---
 src/helper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helper.rs b/src/helper.rs
index cf58f44..813a7d4 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -95,6 +95,11 @@ fn do_parse_time(mut value: &str) -> Result<(Time, UtcOffset)> {
         value = &value[0..value.len() - 1];
     }
 
+    // Parsing the time would ignore a date, even an invalid one
+    if value.rfind('T').is_some_and(|pos| pos > 0) {
+        return Err(Error::InvalidTime(value.to_string()));
+    }
+
     let time = Time::parse(value, &Iso8601::DEFAULT)?;
     Ok((time, offset))
 }
-- 
2.43.0


From 4b83d6f3f2795af4b9b7314db9c6aa4a326c2e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 29/42] fix: refuse dates that contain a time

---
 src/helper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helper.rs b/src/helper.rs
index 813a7d4..467f7c8 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -185,6 +185,11 @@ pub fn parse_date(value: &str) -> Result<Date> {
 }
 
 fn do_parse_date(s: &str) -> Result<Date> {
+    // Parsing the date would ignore a time
+    if s.contains('T') {
+        return Err(Error::InvalidDate(s.to_string()));
+    }
+
     let date_separator = format_description::parse("[year]-[month]-[day]")?;
     let date = format_description::parse("[year][month][day]")?;
 
-- 
2.43.0


From 46471e9b84d1151e80e51e617219c986446e1d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 30/42] fix: find embedded photos with other types and
 parameters

---
 src/vcard.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/vcard.rs b/src/vcard.rs
index c7a68c2..90653b4 100644
--- a/src/vcard.rs
+++ b/src/vcard.rs
@@ -301,13 +301,14 @@ impl Vcard {
                 && let Some(params) = &prop.parameters
                 && let (Some(types), Some(extensions)) =
                     (&params.types, &params.extensions)
-                && let (
-                    Some(TypeParameter::Extension(value)),
-                    Some((name, values)),
-                ) = (types.first(), extensions.first())
-                && name.to_uppercase() == "ENCODING"
-                && values.first() == Some(&"b".to_string())
-                && &value.to_uppercase() == "JPEG"
+                && types.iter().any(|t| {
+                    matches!(t, TypeParameter::Extension(value)
+                        if value.to_uppercase() == "JPEG")
+                })
+                && extensions.iter().any(|(name, values)| {
+                    name.to_uppercase() == "ENCODING"
+                        && values.first() == Some(&"b".to_string())
+                })
             {
                 let encoded = &prop.value;
                 let buffer = general_purpose::STANDARD.decode(encoded)?;
-- 
2.43.0


From 722ccf7dbf23305e07d45f5985583158b4b208ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 31/42] fix: refuse times with more than one zone

---
 src/helper.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 467f7c8..1a1efb8 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -89,10 +89,13 @@ fn do_parse_time(mut value: &str) -> Result<(Time, UtcOffset)> {
         let offset_value = &value[pos..];
         offset = parse_utc_offset(offset_value)?;
         value = &value[0..pos];
+    } else if value.ends_with('Z') {
+        value = &value[0..value.len() - 1];
     }
 
+    // Parsing the time would ignore another zone
     if value.ends_with('Z') {
-        value = &value[0..value.len() - 1];
+        return Err(Error::InvalidTime(value.to_string()));
     }
 
     // Parsing the time would ignore a date, even an invalid one
-- 
2.43.0


From caa084769c231268c43985969034743895f71e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 32/42] fix: refuse truncated dates that miss a digit

---
 src/helper.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helper.rs b/src/helper.rs
index 1a1efb8..da090ed 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -173,6 +173,10 @@ pub fn parse_date(value: &str) -> Result<Date> {
         if parts.len() == 6 && value.len() == 6 {
             value.push_str("01");
         }
+        // Fewer digits would be a day of the year
+        if value.len() != 8 {
+            return Err(Error::InvalidDate(value));
+        }
         do_parse_date(&value)
     // Got a YYYY-MM format need to use 01 for the day
     } else if value.len() == 7 {
-- 
2.43.0


From 1baf872fe1cd55f682f94fb5df279e254d1fe61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 33/42] fix: reject dates that begin with a single hyphen

---
 src/helper.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index da090ed..10171c5 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -159,9 +159,11 @@ pub fn parse_date(value: &str) -> Result<Date> {
         let val = parts
             .get_mut(2)
             .ok_or_else(|| Error::InvalidDate(value.to_string()))?;
-        if *val == "-" {
-            *val = "00";
+        // A date without a year starts with two hyphens
+        if *val != "-" {
+            return Err(Error::InvalidDate(value.to_string()));
         }
+        *val = "00";
         if let Some(val) = parts.get_mut(3)
             && *val == "-"
         {
-- 
2.43.0


From 5760c3a3d013d5d7b7b4c5961bfabb247de9eb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 34/42] fix: reject times without digits after the hyphens

---
 src/helper.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/helper.rs b/src/helper.rs
index 10171c5..00ec690 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -75,6 +75,12 @@ pub fn parse_time(value: &str) -> Result<(Time, UtcOffset)> {
         if *val == "-" {
             *val = "00";
         }
+
+        // A time without an hour has at least a minute or a second
+        let rest = value.strip_prefix("--").unwrap_or(&value[1..]);
+        if !rest.starts_with(|c: char| c.is_ascii_digit()) {
+            return Err(Error::InvalidTime(value.to_string()));
+        }
         let value = parts.join("");
         do_parse_time(&value)
     } else {
-- 
2.43.0


From 8b40d393abebbadfffe813899872674fc07a6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 35/42] fix: reject times with two UTC offsets

---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 00ec690..addf14a 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -90,7 +90,7 @@ pub fn parse_time(value: &str) -> Result<(Time, UtcOffset)> {
 
 fn do_parse_time(mut value: &str) -> Result<(Time, UtcOffset)> {
     let mut offset = UtcOffset::UTC;
-    let pos = value.find('-').or_else(|| value.find('+'));
+    let pos = value.find(['-', '+']);
     if let Some(pos) = pos {
         let offset_value = &value[pos..];
         offset = parse_utc_offset(offset_value)?;
-- 
2.43.0


From d859b141bff8bf2272c278730d6d3f443d6adf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 36/42] fix: reject dates and timestamps with a signed year

---
 src/helper.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index addf14a..d4ccfab 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -182,7 +182,7 @@ pub fn parse_date(value: &str) -> Result<Date> {
             value.push_str("01");
         }
         // Fewer digits would be a day of the year
-        if value.len() != 8 {
+        if value.len() != 8 || !value.chars().all(|c| c.is_ascii_digit()) {
             return Err(Error::InvalidDate(value));
         }
         do_parse_date(&value)
@@ -200,8 +200,8 @@ pub fn parse_date(value: &str) -> Result<Date> {
 }
 
 fn do_parse_date(s: &str) -> Result<Date> {
-    // Parsing the date would ignore a time
-    if s.contains('T') {
+    // Parsing the date would ignore a time and accept a signed year
+    if s.contains('T') || s.starts_with('+') {
         return Err(Error::InvalidDate(s.to_string()));
     }
 
@@ -305,6 +305,11 @@ pub(crate) fn format_date_time_list(
 
 /// Parse a timestamp.
 pub fn parse_timestamp(value: &str) -> Result<DateTime> {
+    // Parsing the year would accept a sign
+    if value.starts_with(['+', '-']) {
+        return Err(Error::InvalidDateTime(value.to_string()));
+    }
+
     let offset_format = format_description::parse(
         "[year][month][day]T[hour][minute][second][offset_hour sign:mandatory][offset_minute]",
     )?;
-- 
2.43.0


From 4f6b518989ed56102e226eb20a45cd51ab93e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:41 +0000
Subject: [PATCH 37/42] fix: reject dates and times with two time designators

---
 src/helper.rs   | 5 +++++
 src/property.rs | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/helper.rs b/src/helper.rs
index d4ccfab..a5e4253 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -264,6 +264,11 @@ pub fn parse_date_time(value: &str) -> Result<DateTime> {
         .next()
         .ok_or_else(|| Error::InvalidDateTime(value.to_owned()))?;
 
+    // Parsing the time would accept another designator
+    if time.starts_with('T') {
+        return Err(Error::InvalidDateTime(value.to_owned()));
+    }
+
     let date = parse_date(date)?;
     let (time, offset) = parse_time(time)?;
 
diff --git a/src/property.rs b/src/property.rs
index 528f94d..36377b7 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -669,6 +669,10 @@ impl FromStr for DateAndOrTime {
 
     fn from_str(s: &str) -> Result<Self> {
         if let Some(time) = s.strip_prefix('T') {
+            // Parsing the time would accept another designator
+            if time.starts_with('T') {
+                return Err(Error::InvalidTime(s.to_string()));
+            }
             return Ok(Self::Time(parse_time(time)?));
         }
 
-- 
2.43.0


From 9783e87a686da36a0074fbf28567a18be57d1d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:36 +0000
Subject: [PATCH 38/42] fix: only ASCII letters make up names and keywords

---
 src/parser.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 41ba1ac..71bd150 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -19,26 +19,26 @@ type LexResult<T> = std::result::Result<T, LexError>;
 #[derive(Logos, Debug, PartialEq)]
 #[logos(error = LexError)]
 pub(crate) enum Token {
-    #[regex("(?i:BEGIN:VCARD)")]
+    #[regex("(?i-u:BEGIN:VCARD)")]
     Begin,
 
-    #[regex("(?i:VERSION:[3-4]\\.0)")]
+    #[regex("(?i-u:VERSION:[3-4]\\.0)")]
     Version,
 
     // Special case shared between property and parameter
-    #[regex("(?i:([a-z0-9-]+\\.)?TZ)")]
+    #[regex("(?i-u:([a-z0-9-]+\\.)?TZ)")]
     TimeZone,
 
     // Special case shared between property and parameter
-    #[regex("(?i:([a-z0-9-]+\\.)?GEO)")]
+    #[regex("(?i-u:([a-z0-9-]+\\.)?GEO)")]
     Geo,
 
     #[regex(
-        "(?i:([a-z0-9-]+\\.)?(SOURCE|KIND|FN|N|NICKNAME|PHOTO|BDAY|ANNIVERSARY|GENDER|ADR|TEL|EMAIL|IMPP|LANG|TITLE|ROLE|LOGO|ORG|MEMBER|RELATED|CATEGORIES|NOTE|PRODID|REV|SOUND|UID|CLIENTPIDMAP|URL|KEY|FBURL|CALADRURI|CALURI|XML|VERSION|(X-[a-z0-9-]+)))"
+        "(?i-u:([a-z0-9-]+\\.)?(SOURCE|KIND|FN|N|NICKNAME|PHOTO|BDAY|ANNIVERSARY|GENDER|ADR|TEL|EMAIL|IMPP|LANG|TITLE|ROLE|LOGO|ORG|MEMBER|RELATED|CATEGORIES|NOTE|PRODID|REV|SOUND|UID|CLIENTPIDMAP|URL|KEY|FBURL|CALADRURI|CALURI|XML|VERSION|(X-[a-z0-9-]+)))"
     )]
     PropertyName,
 
-    #[regex("(?i:x-[a-z0-9-]+)")]
+    #[regex("(?i-u:x-[a-z0-9-]+)")]
     ExtensionName,
 
     #[token(";")]
@@ -48,7 +48,7 @@ pub(crate) enum Token {
     DoubleQuote,
 
     #[regex(
-        "(?i:LANGUAGE|VALUE|PREF|ALTID|PID|TYPE|MEDIATYPE|CALSCALE|SORT-AS|CHARSET|LABEL|ENCODING)"
+        "(?i-u:LANGUAGE|VALUE|PREF|ALTID|PID|TYPE|MEDIATYPE|CALSCALE|SORT-AS|CHARSET|LABEL|ENCODING)"
     )]
     ParameterKey,
 
@@ -67,7 +67,7 @@ pub(crate) enum Token {
     #[token("\\\\")]
     EscapedBackSlash,
 
-    #[regex("(?i:\\\\n)")]
+    #[regex("(?i-u:\\\\n)")]
     EscapedNewLine,
 
     #[regex("\\r?\\n", priority = 3)]
@@ -79,7 +79,7 @@ pub(crate) enum Token {
     #[regex("[[:cntrl:]]", priority = 1)]
     Control,
 
-    #[regex("(?i:END:VCARD)")]
+    #[regex("(?i-u:END:VCARD)")]
     End,
 
     #[regex("[\u{00}-\u{7F}]", priority = 0)]
-- 
2.43.0


From 7f999981d2f28806af126093403134b351c0ea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 39/42] fix: keep types that only look like kin or co-worker

---
 src/parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter.rs b/src/parameter.rs
index 6c5943e..1d2955c 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -251,7 +251,7 @@ impl FromStr for RelatedType {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        match &s.to_lowercase()[..] {
+        match &s.to_ascii_lowercase()[..] {
             "contact" => Ok(Self::Contact),
             "acquaintance" => Ok(Self::Acquaintance),
             "friend" => Ok(Self::Friend),
-- 
2.43.0


From 2ba4f8bcce79b010f8b324197c1cd34ace5abf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:47 +0000
Subject: [PATCH 40/42] fix: read the text of an address as it is displayed

DeliveryAddress::from_str() split the text at every semicolon and kept
the escapes, so an address whose components contain a semicolon, comma,
backslash or line break did not survive to_string() and parse().
---
 src/property.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index 36377b7..530fd12 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -28,6 +28,7 @@ use crate::{
         parse_date_time, parse_time, parse_utc_offset,
     },
     parameter::Parameters,
+    unescape_value,
 };
 
 #[cfg(feature = "serde")]
@@ -138,7 +139,19 @@ impl FromStr for DeliveryAddress {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        Self::from_components(s, s.splitn(7, ';'))
+        // The components are escaped when an address is displayed
+        let mut components = Vec::new();
+        let mut start = 0;
+        let mut escaped = false;
+        for (index, c) in s.char_indices() {
+            if c == ';' && !escaped && components.len() < 6 {
+                components.push(unescape_value(&s[start..index]));
+                start = index + 1;
+            }
+            escaped = c == '\\' && !escaped;
+        }
+        components.push(unescape_value(&s[start..]));
+        Self::from_components(s, components.iter().map(|s| &s[..]))
     }
 }
 
-- 
2.43.0


From 98a79556d350828653dc435c29fa85711d541d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:49 +0000
Subject: [PATCH 41/42] fix: read the text of a gender as it is displayed

Gender::from_str() kept the escapes of the identity that to_string()
writes. The value of a property is unescaped before, so the parser does
not go through it.
---
 src/builder.rs  |  2 +-
 src/parser.rs   |  2 +-
 src/property.rs | 12 ++++++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 4a125fc..01a864f 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -102,7 +102,7 @@ impl VcardBuilder {
     /// If the value cannot be parsed in to a gender according to
     /// RFC6350 then the gender will not be set.
     pub fn gender(mut self, value: &str) -> Self {
-        if let Ok(gender) = value.parse::<Gender>() {
+        if let Ok(gender) = Gender::from_components(value) {
             self.card.gender = Some(gender.into());
         }
         self
diff --git a/src/parser.rs b/src/parser.rs
index 71bd150..ce06ddf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -662,7 +662,7 @@ impl<'s> VcardParser<'s> {
                 if card.gender.is_some() {
                     return Err(Error::OnlyOnce(upper_name));
                 }
-                let value: Gender = value.as_ref().parse()?;
+                let value = Gender::from_components(&value)?;
                 card.gender = Some(GenderProperty {
                     value,
                     parameters,
diff --git a/src/property.rs b/src/property.rs
index 530fd12..f30a752 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -1354,6 +1354,18 @@ impl FromStr for Gender {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
+        // The identity is escaped when a gender is displayed
+        let mut gender = Self::from_components(s)?;
+        if let Some(identity) = &mut gender.identity {
+            *identity = unescape_value(identity);
+        }
+        Ok(gender)
+    }
+}
+
+impl Gender {
+    /// Create a gender from the components of a value.
+    pub(crate) fn from_components(s: &str) -> Result<Self> {
         if s.is_empty() {
             return Ok(Gender {
                 sex: Sex::None,
-- 
2.43.0


From d6316879abc58c111a75f3dbe9ab524b44241fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 42/42] fix: refuse signs in PREF, PID and CLIENTPIDMAP

They are digits, but parsing an integer accepts a leading plus sign.
---
 src/parameter.rs | 5 +++++
 src/parser.rs    | 4 ++++
 src/property.rs  | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/src/parameter.rs b/src/parameter.rs
index 1d2955c..abc0ac7 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -148,6 +148,11 @@ impl FromStr for Pid {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
+        // Digits only, parsing accepts a sign
+        if s.contains('+') {
+            return Err(Error::InvalidPid(s.to_string()));
+        }
+
         let mut parts = s.splitn(2, '.');
         let local = parts
             .next()
diff --git a/src/parser.rs b/src/parser.rs
index ce06ddf..7f08785 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -304,6 +304,10 @@ impl<'s> VcardParser<'s> {
                             }
                         }
                         PREF => {
+                            // Digits only, parsing accepts a sign
+                            if value.starts_with('+') {
+                                return Err(Error::InvalidPropertyValue);
+                            }
                             let value: u8 = value.parse()?;
                             if !(1..=100).contains(&value) {
                                 return Err(Error::PrefOutOfRange(value));
diff --git a/src/property.rs b/src/property.rs
index f30a752..558f630 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -293,6 +293,10 @@ impl FromStr for ClientPidMap {
         let uri = it
             .next()
             .ok_or_else(|| Error::InvalidClientPidMap(s.to_string()))?;
+        // Digits only, parsing accepts a sign
+        if source.starts_with('+') {
+            return Err(Error::InvalidClientPidMap(s.to_string()));
+        }
         let source: u64 = source.parse()?;
 
         // Must be positive according to the RFC
-- 
2.43.0

