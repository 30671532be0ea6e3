From b7f1c424c533cb8c73232b29a2d13fb585efbe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 01/33] fix: json: a backslash in a string escapes exactly one
 character

---
 src/json/json_minifier.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index ad9fae2..1d9cdd7 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -32,13 +32,14 @@ pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, item2: Option<&ch
 fn is_whitespace_outside_string(
     minifier: &mut JsonMinifier,
     item1: &char,
-    item2: Option<&char>,
+    _item2: Option<&char>,
 ) -> bool {
     if !minifier.is_string && item1.eq(&'"') {
         minifier.is_string = true;
     } else if minifier.is_string {
-        if item1.eq(&'\\') && item2.eq(&Some(&'"')) {
-            minifier.escaped_quotation = 4;
+        // A backslash escapes exactly the character following it.
+        if minifier.escaped_quotation == 0 && item1.eq(&'\\') {
+            minifier.escaped_quotation = 2;
         }
         if minifier.escaped_quotation > 0 {
             minifier.escaped_quotation -= 1;
-- 
2.43.0


From 87cf85a716b0b8773fd6e1173ec0a8e1e82d0e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 02/33] fix: json: keep U+007F inside strings

---
 src/json/json_minifier.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index 1d9cdd7..1b61894 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -23,8 +23,9 @@ impl JsonMinifier {
 
 #[inline]
 pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, item2: Option<&char>) -> bool {
-    let remove_element =
-        item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1, item2);
+    // U+007F is allowed unescaped in JSON strings, unlike the C0 control characters.
+    let is_control = item1.is_ascii_control() && item1.ne(&'\u{7f}');
+    let remove_element = is_control || is_whitespace_outside_string(minifier, item1, item2);
     !remove_element
 }
 
-- 
2.43.0


From ac1ca3d164e4576e336a0b846b04474741192afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 03/33] fix: json: a short read is not the end of the input

---
 src/json/read/internal_buffer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/json/read/internal_buffer.rs b/src/json/read/internal_buffer.rs
index 90eebcd..428abfd 100644
--- a/src/json/read/internal_buffer.rs
+++ b/src/json/read/internal_buffer.rs
@@ -6,7 +6,6 @@ const ARRAY_DEFAULT: u8 = 0;
 pub struct Buffer {
     buffer: Vec<u8>,
     read_pos: usize,
-    buffer_size: usize,
     data_size: usize,
 }
 
@@ -15,7 +14,6 @@ impl Buffer {
         Buffer {
             buffer: vec![ARRAY_DEFAULT; size],
             read_pos: 0,
-            buffer_size: size,
             data_size: 0,
         }
     }
@@ -39,6 +37,7 @@ impl Buffer {
     }
 
     pub fn cont(&self) -> bool {
-        self.data_size == self.buffer_size
+        // A read is allowed to return less than what was asked for: only an empty one is the end.
+        self.data_size != 0
     }
 }
-- 
2.43.0


From ca937aa6a0d8eca63e13fcd4ee1b68bb4a53b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 04/33] fix: json: keep the bytes of a character which don't
 fit in the read buffer

---
 src/json/read/json_read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 338db13..2112937 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -85,6 +85,12 @@ where
             self.initialized = true;
         }
 
+        // The end of a character which didn't fit in the previous buffer.
+        self.add_char_to_buffer(buf, &mut buf_pos);
+        if buf_pos >= buf.len() {
+            return Ok(buf_pos);
+        }
+
         while let Some(item) = self.item1.take() {
             self.item1 = self.get_next()?;
             if (self.predicate)(&mut self.minifier, &item, self.item1.as_ref()) {
-- 
2.43.0


From bd01a70e4f0add175cefe9a986d49db4857efbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 05/33] fix: json: an I/O error in a reader neither panics, nor
 loses data, nor changes kind

---
 src/json/read/internal_buffer.rs |  5 +++--
 src/json/read/internal_reader.rs | 21 +++++++++++++--------
 src/json/read/json_read.rs       | 31 +++++++++++++++++++++++++++----
 3 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/json/read/internal_buffer.rs b/src/json/read/internal_buffer.rs
index 428abfd..f62d559 100644
--- a/src/json/read/internal_buffer.rs
+++ b/src/json/read/internal_buffer.rs
@@ -13,8 +13,9 @@ impl Buffer {
     pub fn new(size: usize) -> Buffer {
         Buffer {
             buffer: vec![ARRAY_DEFAULT; size],
-            read_pos: 0,
-            data_size: 0,
+            // Everything is consumed and it isn't the end: the first byte asked for is read.
+            read_pos: size,
+            data_size: size,
         }
     }
 
diff --git a/src/json/read/internal_reader.rs b/src/json/read/internal_reader.rs
index 45f178f..b5efe6c 100644
--- a/src/json/read/internal_reader.rs
+++ b/src/json/read/internal_reader.rs
@@ -3,7 +3,7 @@
 use super::internal_buffer::Buffer;
 use std::{
     fmt,
-    io::{Error, Read},
+    io::{Error, ErrorKind, Read},
 };
 
 pub struct InternalReader<R> {
@@ -13,20 +13,25 @@ pub struct InternalReader<R> {
 }
 
 impl<R: Read> InternalReader<R> {
-    pub fn new(mut read: R, buffer_size: usize) -> Result<Self, Error> {
-        let mut buffer = Buffer::new(buffer_size);
-        InternalReader::read_data(&mut read, &mut buffer)?;
+    pub fn new(read: R, buffer_size: usize) -> Result<Self, Error> {
         Ok(InternalReader {
             read,
             buffer_size,
-            buffer,
+            buffer: Buffer::new(buffer_size),
         })
     }
 
     fn read_data(read: &mut R, buffer: &mut Buffer) -> Result<(), Error> {
-        let size = read.read(buffer.as_mut())?;
-        buffer.update_metadata(size);
-        Ok(())
+        loop {
+            match read.read(buffer.as_mut()) {
+                Ok(size) => {
+                    buffer.update_metadata(size);
+                    return Ok(());
+                }
+                Err(err) if err.kind() == ErrorKind::Interrupted => {}
+                Err(err) => return Err(err),
+            }
+        }
     }
 }
 
diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 2112937..0a25f4a 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -18,6 +18,7 @@ pub struct JsonRead<P, R> {
     initialized: bool,
     item_iter: Option<IntoIter<u8>>,
     item1: Option<char>,
+    error: Option<Error>,
 }
 
 impl<P, R: Read> JsonRead<P, R> {
@@ -31,6 +32,7 @@ impl<P, R: Read> JsonRead<P, R> {
             initialized: false,
             item_iter: None,
             item1: None,
+            error: None,
         }
     }
 
@@ -79,8 +81,14 @@ where
             return Ok(0);
         }
 
+        if let Some(err) = self.error.take() {
+            return Err(err);
+        }
+
         if !self.initialized {
-            self.iter = Some(ByteToChar::new(self.read.take().unwrap(), buf.len())?);
+            if let Some(read) = self.read.take() {
+                self.iter = Some(ByteToChar::new(read, buf.len())?);
+            }
             self.item1 = self.get_next()?;
             self.initialized = true;
         }
@@ -92,7 +100,19 @@ where
         }
 
         while let Some(item) = self.item1.take() {
-            self.item1 = self.get_next()?;
+            match self.get_next() {
+                Ok(next) => self.item1 = next,
+                Err(err) => {
+                    // Nothing already read may be lost: the bytes put in `buf` come first and
+                    // `item` has not been handled yet.
+                    self.item1 = Some(item);
+                    if buf_pos == 0 {
+                        return Err(err.into());
+                    }
+                    self.error = Some(err.into());
+                    return Ok(buf_pos);
+                }
+            }
             if (self.predicate)(&mut self.minifier, &item, self.item1.as_ref()) {
                 self.item_iter = Some(item.to_string().into_bytes().into_iter());
                 self.add_char_to_buffer(buf, &mut buf_pos);
@@ -106,7 +126,10 @@ where
 }
 
 impl From<CharsError> for Error {
-    fn from(_: CharsError) -> Self {
-        Error::from(ErrorKind::InvalidData)
+    fn from(err: CharsError) -> Self {
+        match err {
+            CharsError::NotUtf8 => Error::from(ErrorKind::InvalidData),
+            CharsError::Other(err) => err,
+        }
     }
 }
-- 
2.43.0


From e33a4c1842665fc6ff119bcf3ed443d5ca9701c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 06/33] fix: json: an I/O error in the middle of a character
 loses no byte

---
 src/json/read/byte_to_char.rs | 49 +++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/json/read/byte_to_char.rs b/src/json/read/byte_to_char.rs
index a1ca6ec..1863b08 100644
--- a/src/json/read/byte_to_char.rs
+++ b/src/json/read/byte_to_char.rs
@@ -9,6 +9,9 @@ use std::{
 
 pub struct ByteToChar<R> {
     iter: InternalReader<R>,
+    // The bytes of the current character, kept if an error happens in the middle of it.
+    buf: [u8; 4],
+    len: usize,
 }
 
 impl<R: Read> ByteToChar<R> {
@@ -16,6 +19,8 @@ impl<R: Read> ByteToChar<R> {
     pub fn new(read: R, buffer_size: usize) -> Result<Self, Error> {
         Ok(ByteToChar {
             iter: InternalReader::new(read, buffer_size)?,
+            buf: [0; 4],
+            len: 0,
         })
     }
 
@@ -40,34 +45,40 @@ impl<R: Read> Iterator for ByteToChar<R> {
     type Item = Result<char, CharsError>;
 
     fn next(&mut self) -> Option<Result<char, CharsError>> {
-        let first_byte = match self.get_next() {
-            Err(err) => return Some(Err(err)),
-            Ok(item) => item?,
-        };
+        if self.len == 0 {
+            self.buf[0] = match self.get_next() {
+                Err(err) => return Some(Err(err)),
+                Ok(item) => item?,
+            };
+            self.len = 1;
+        }
 
+        let first_byte = self.buf[0];
         let width = utf8_char_width(first_byte);
         if width == 1 {
+            self.len = 0;
             return Some(Ok(first_byte as char));
         }
         if width == 0 {
+            self.len = 0;
             return Some(Err(CharsError::NotUtf8));
         }
-        let mut buf = [first_byte, 0, 0, 0];
-        {
-            let mut start = 1;
-            while start < width {
-                let byte = match self.get_next() {
-                    Err(err) => return Some(Err(err)),
-                    Ok(item) => match item {
-                        Some(item) => item,
-                        None => return Some(Err(CharsError::NotUtf8)),
-                    },
-                };
-                buf[start] = byte;
-                start += 1;
-            }
+        while self.len < width {
+            let byte = match self.get_next() {
+                Err(err) => return Some(Err(err)),
+                Ok(item) => match item {
+                    Some(item) => item,
+                    None => {
+                        self.len = 0;
+                        return Some(Err(CharsError::NotUtf8));
+                    }
+                },
+            };
+            self.buf[self.len] = byte;
+            self.len += 1;
         }
-        Some(match from_utf8(&buf[..width]).ok() {
+        self.len = 0;
+        Some(match from_utf8(&self.buf[..width]).ok() {
             Some(s) => Ok(s.chars().next().unwrap()),
             None => Err(CharsError::NotUtf8),
         })
-- 
2.43.0


From 486fe73d6bf87a2b40c91e5ffdd7219ad5bd0602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 07/33] fix: css: keep the white space which is a descendant
 combinator

It was lost before pseudo-classes, `::`, `[` after a class or `)`, `*` after `)`
and escaped identifiers: 'a ::before' became 'a::before'.
---
 src/css/token.rs | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 5645e3c..4a0fe03 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -316,6 +316,16 @@ impl Token<'_> {
         matches!(*self, Token::License(_))
     }
 
+    /// If a simple selector (or any other word) can end with this token.
+    fn ends_simple_selector(&self) -> bool {
+        match *self {
+            Token::SelectorElement(_) => !self.is_a_media(),
+            Token::Other(_) => true,
+            Token::Char(c) => matches!(c, ReservedChar::CloseParenthese | ReservedChar::Star),
+            _ => false,
+        }
+    }
+
     fn is_operator(&self) -> bool {
         match *self {
             Token::Operator(_) => true,
@@ -579,6 +589,25 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     Ok(Tokens(clean_tokens(v)))
 }
 
+/// If a simple selector (or any other word) starts at the given position.
+fn starts_simple_selector(v: &[Token<'_>], pos: usize) -> bool {
+    match v.get(pos) {
+        Some(Token::SelectorElement(_) | Token::Other(_)) => true,
+        Some(Token::Char(
+            ReservedChar::Star | ReservedChar::OpenBracket | ReservedChar::Backslash,
+        )) => true,
+        // `::before` or, when it is not known to be in a selector, `color: red`.
+        Some(Token::Char(ReservedChar::Colon)) => matches!(
+            v.get(pos + 1),
+            Some(
+                Token::Char(ReservedChar::Colon)
+                    | Token::SelectorElement(SelectorElement::PseudoClass(_))
+            )
+        ),
+        _ => false,
+    }
+}
+
 fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     // This function may remove multiple elements from the vector. Ideally we'd
     // use `Vec::retain`, but the traversal requires inspecting the previously
@@ -623,15 +652,10 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                 {
                     // retain the space between keywords
                     // and the space that disambiguates functions from keyword-plus-parens
-                } else if v[previous_element_index].is_a_selector_element()
-                    && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::Star)))
-                {
-                    // retain the space before `*` if it's preceded by a selector.
-                } else if matches!(v[previous_element_index], Token::Char(ReservedChar::Star))
-                    && v.get(i + 1)
-                        .is_some_and(|elem| elem.is_a_selector_element())
+                } else if v[previous_element_index].ends_simple_selector()
+                    && starts_simple_selector(&v, i + 1)
                 {
-                    // retain the space after `*` if it's followed by a selector.
+                    // retain the space which is a descendant combinator.
                 } else if matches!(
                     v[previous_element_index],
                     Token::Char(
-- 
2.43.0


From 83e6f09543a98668ad5096173639c618ff2c4224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 08/33] fix: css: keep the spaces around + and - in every math
 function

Only those in a calc() which is not in lower case, or not directly in an @page or
@font-face block, were kept: 'min(1px + 2px,3px)' became 'min(1px+2px,3px)'.
---
 src/css/token.rs | 49 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 3 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 4a0fe03..c256ee7 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -5,6 +5,34 @@ use std::fmt;
 use std::iter::Peekable;
 use std::str::CharIndices;
 
+/// The CSS functions whose arguments are calculations.
+const MATH_FUNCTIONS: &[&str] = &[
+    "calc",
+    "calc-size",
+    "-webkit-calc",
+    "-moz-calc",
+    "min",
+    "max",
+    "clamp",
+    "round",
+    "mod",
+    "rem",
+    "sin",
+    "cos",
+    "tan",
+    "asin",
+    "acos",
+    "atan",
+    "atan2",
+    "pow",
+    "sqrt",
+    "hypot",
+    "log",
+    "exp",
+    "abs",
+    "sign",
+];
+
 #[derive(Debug, PartialEq, Eq, Clone, Copy)]
 pub enum ReservedChar {
     Comma,
@@ -326,6 +354,18 @@ impl Token<'_> {
         }
     }
 
+    /// If this is the name of a function in whose arguments the white space around `+` and `-` is
+    /// required.
+    fn is_math_function(&self) -> bool {
+        match *self {
+            Token::Other(name)
+            | Token::SelectorElement(
+                SelectorElement::Tag(name) | SelectorElement::PseudoClass(name),
+            ) => MATH_FUNCTIONS.iter().any(|f| f.eq_ignore_ascii_case(name)),
+            _ => false,
+        }
+    }
+
     fn is_operator(&self) -> bool {
         match *self {
             Token::Operator(_) => true,
@@ -622,15 +662,18 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     let mut b = Vec::with_capacity(v.len());
 
     while i < v.len() {
-        if v[i] == Token::Other("calc") {
-            is_in_calc = true;
-        } else if is_in_calc {
+        if is_in_calc {
             if v[i] == Token::Char(ReservedChar::CloseParenthese) {
                 paren -= 1;
                 is_in_calc = paren != 0;
             } else if v[i] == Token::Char(ReservedChar::OpenParenthese) {
                 paren += 1;
             }
+        } else if v[i].is_math_function() {
+            is_in_calc = matches!(
+                v.get(i + 1),
+                Some(Token::Char(ReservedChar::OpenParenthese))
+            );
         }
 
         let mut retain = true;
-- 
2.43.0


From ea68b72a188714ad7b55a82404b5f5f9046c52e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 09/33] fix: css: keep the space between a keyword and a
 parenthesis in every block

In an @media nested in another one 'print and (x)' became 'print and(x)', a function.
---
 src/css/token.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index c256ee7..20b1ab9 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -687,7 +687,9 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                     {
                         retain = false;
                     }
-                } else if matches!(v[previous_element_index], Token::Other(_))
+                } else if (matches!(v[previous_element_index], Token::Other(_))
+                    || v[previous_element_index].is_a_selector_element())
+                    && !v[previous_element_index].is_a_media()
                     && matches!(
                         v.get(i + 1),
                         Some(Token::Other(_) | Token::Char(ReservedChar::OpenParenthese))
-- 
2.43.0


From 535b9bc7e88feb310f378c38f4ec104c65288f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:36 +0000
Subject: [PATCH 10/33] fix: js: after a failed regex, read on from the right
 place

MyPeekable::peek ignored the saved characters, so a number after an
unterminated regex duplicated and reordered characters.
---
 src/js/token.rs | 39 +++++++++------------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 1241141..7d2e500 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -845,50 +845,38 @@ fn check_if_number(iterator: &mut MyPeekable<'_>, start: usize, pos: usize, sour
 
 struct MyPeekable<'a> {
     inner: CharIndices<'a>,
-    saved: Vec<(usize, char)>,
     peeked: Option<(usize, char)>,
-    is_saving: bool,
+    saved: Option<(CharIndices<'a>, Option<(usize, char)>)>,
 }
 
 impl<'a> MyPeekable<'a> {
     fn new(indices: CharIndices<'a>) -> MyPeekable<'a> {
         MyPeekable {
             inner: indices,
-            saved: Vec::with_capacity(500),
             peeked: None,
-            is_saving: false,
+            saved: None,
         }
     }
 
     fn start_save(&mut self) {
-        self.is_saving = true;
-        if let Some(p) = self.peeked {
-            self.saved.push(p);
-        }
+        self.saved = Some((self.inner.clone(), self.peeked));
     }
 
     fn drop_save(&mut self) {
-        self.is_saving = false;
-        self.saved.clear();
+        self.saved = None;
     }
 
+    /// Goes back to where `start_save` was called.
     fn stop_save(&mut self) {
-        self.is_saving = false;
-        if let Some(p) = self.peeked {
-            self.saved.push(p);
+        if let Some((inner, peeked)) = self.saved.take() {
+            self.inner = inner;
+            self.peeked = peeked;
         }
-        self.peeked = None;
     }
 
-    /// Returns None if saving.
     fn peek(&mut self) -> Option<(usize, char)> {
         if self.peeked.is_none() {
             self.peeked = self.inner.next();
-            if self.is_saving {
-                if let Some(p) = self.peeked {
-                    self.saved.push(p);
-                }
-            }
         }
         self.peeked
     }
@@ -901,16 +889,7 @@ impl Iterator for MyPeekable<'_> {
         if self.peeked.is_some() {
             self.peeked.take()
         } else {
-            if !self.is_saving && !self.saved.is_empty() {
-                return Some(self.saved.remove(0));
-            }
-            match self.inner.next() {
-                Some(r) if self.is_saving => {
-                    self.saved.push(r);
-                    Some(r)
-                }
-                r => r,
-            }
+            self.inner.next()
         }
     }
 }
-- 
2.43.0


From 9770aafed340801e04ff59ae25c8cc4e29df2549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:02 +0000
Subject: [PATCH 11/33] fix: js: keep a line comment at the end of the source a
 comment

It was dropped, its last characters were taken for code, and a
multi-byte character in it could panic.
---
 src/js/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 7d2e500..d9813db 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -557,7 +557,10 @@ fn get_line_comment<'a>(
             }
         }
     }
-    None
+    // The source ends with this comment.
+    let ret = Some(Token::Comment(&source[*start_pos..]));
+    *start_pos = source.len();
+    ret
 }
 
 fn get_regex<'a>(
-- 
2.43.0


From 985e81de802bfb5004b574f09a8320abb36c04f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:06 +0000
Subject: [PATCH 12/33] fix: js: an unclosed comment which ends in a multi-byte
 character doesn't panic

---
 src/js/token.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index d9813db..487f9fd 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -650,12 +650,12 @@ fn get_comment<'a>(
         Token::Comment
     };
 
-    let mut current_pos = *start_pos;
+    // Unclosed comment: it runs to the end of the source.
+    let mut end = source.len();
     for (pos, c) in iterator {
-        current_pos = pos;
         if let Ok(c) = ReservedChar::try_from(c) {
             if c == ReservedChar::Slash && prev == ReservedChar::Star {
-                current_pos -= 2;
+                end = pos - 1;
                 break;
             }
             prev = c;
@@ -663,10 +663,8 @@ fn get_comment<'a>(
             prev = ReservedChar::Space;
         }
     }
-    // Unclosed comment so returning it anyway...
-    current_pos = std::cmp::min(current_pos, source.len() - 1);
-    let ret = builder(&source[*start_pos..=current_pos]);
-    *start_pos = current_pos + 2;
+    let ret = builder(&source[*start_pos..end]);
+    *start_pos = end + 1;
     ret
 }
 
-- 
2.43.0


From ab4843e0be699e317da5253a64650ad378654577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 13/33] fix: js: keep the leading zeros of a number

---
 src/js/token.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 487f9fd..11a194b 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -767,7 +767,11 @@ fn fill_other<'a>(source: &'a str, v: &mut Vec<Token<'a>>, start: usize, pos: us
     if start < pos {
         if let Ok(w) = Keyword::try_from(&source[start..pos]) {
             v.push(Token::Keyword(w));
-        } else if let Ok(n) = usize::from_str(&source[start..pos]) {
+        } else if let (false, Ok(n)) = (
+            // The leading zeros are part of the number: `010` is 8.
+            pos - start > 1 && source[start..pos].starts_with('0'),
+            usize::from_str(&source[start..pos]),
+        ) {
             v.push(Token::Number(n))
         } else if f64::from_str(&source[start..pos]).is_ok() {
             v.push(Token::FloatingNumber(&source[start..pos]))
-- 
2.43.0


From ed40771d1087670260b3b90c6e8b9c64e5630eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 14/33] fix: js: keep the quote of an unclosed string

---
 src/js/token.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 11a194b..eaf0aee 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -931,11 +931,15 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 ReservedChar::Quote | ReservedChar::DoubleQuote => {
                     if let Some(s) = get_string(source, &mut iterator, &mut pos, c) {
                         v.push(s);
+                    } else {
+                        v.push(Token::Char(c));
                     }
                 }
                 ReservedChar::BackTick => {
                     if let Some(s) = get_backtick_string(source, &mut iterator, &mut pos, 0)? {
                         v.push(s);
+                    } else {
+                        v.push(Token::Char(c));
                     }
                 }
                 ReservedChar::Slash
-- 
2.43.0


From 19af827f12e300f00f1ead8d5716e962cdde5687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 15/33] fix: js: a slash after a keyword starts a regex

Blanks and quotes inside such a regex (return / +'/) were taken for code.
---
 src/js/token.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index eaf0aee..c47d328 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -163,6 +163,14 @@ impl Keyword {
     fn requires_before(&self) -> bool {
         matches!(*self, Keyword::In | Keyword::InstanceOf)
     }
+
+    /// Returns true for the keywords after which a `/` is a division.
+    fn is_value(&self) -> bool {
+        matches!(
+            *self,
+            Keyword::False | Keyword::Null | Keyword::This | Keyword::True
+        )
+    }
 }
 
 impl fmt::Display for Keyword {
@@ -587,6 +595,7 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Backline)
             | Token::Char(ReservedChar::Pipe)
             | Token::Char(ReservedChar::Ampersand) => break,
+            Token::Keyword(k) if !k.is_value() => break,
             t if t.is_operation() || t.is_condition() => break,
             _ => return None,
         }
-- 
2.43.0


From 9d338f15fe4b99441895037a1029dfdba25e5a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 16/33] fix: js: don't glue a number or a created variable to
 the next word

---
 src/js/token.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index c47d328..0fa1c0f 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -536,6 +536,7 @@ impl Token<'_> {
             Token::Keyword(_)
             | Token::Other(_)
             | Token::CreatedVarDecl(_)
+            | Token::CreatedVar(_)
             | Token::Number(_)
             | Token::FloatingNumber(_) => Some(' '),
             _ => None,
@@ -1027,12 +1028,21 @@ macro_rules! tokens_writer {
                 && !tokens[i - 1].is_other()
                 && !tokens[i - 1].is_reserved_char()
                 && !tokens[i - 1].is_string()
+                && !tokens[i - 1].is_created_var()
+                && !tokens[i - 1].is_number()
+                && !tokens[i - 1].is_floating_number()
             {
                 write!($w, " ")?;
             }
             write!($w, "{}", tokens[i])?;
             if let Some(c) = match tokens[i] {
-                Token::Keyword(_) | Token::Other(_) if i + 1 < tokens.len() => {
+                Token::Keyword(_)
+                | Token::Other(_)
+                | Token::CreatedVar(_)
+                | Token::Number(_)
+                | Token::FloatingNumber(_)
+                    if i + 1 < tokens.len() =>
+                {
                     tokens[i + 1].get_required()
                 }
                 _ => None,
-- 
2.43.0


From 6991ad611cd2994164d893f5dcf119cfd590b189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 17/33] fix: js: keep a blank between two tokens which would be
 read as another one

a + +b gave a++b, a / /*! b */ c gave a comment, 1 .x gave 1.x.
---
 src/js/utils.rs | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index fd47c28..2689b6c 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -1,6 +1,6 @@
 // Take a look at the license at the top of the repository in the LICENSE file.
 
-use crate::js::token::{Keyword, Operation, ReservedChar, Token, Tokens};
+use crate::js::token::{Condition, Keyword, Operation, ReservedChar, Token, Tokens};
 use std::vec::IntoIter;
 
 pub(crate) struct VariableNameGenerator<'a> {
@@ -240,10 +240,30 @@ pub fn get_variable_name_and_value_positions<'a>(
     None
 }
 
+/// Returns true if the two tokens would be read as something else without a blank in between.
+fn need_blank(prev: &Token<'_>, next: &Token<'_>) -> bool {
+    match *prev {
+        // `a + +b`, `a - -b`
+        Token::Operation(Operation::Addition) => next.eq_operation(Operation::Addition),
+        Token::Operation(Operation::Subtract) => next.eq_operation(Operation::Subtract),
+        // `a / /b/`, `a / /*! b */ c`
+        Token::Operation(Operation::Divide) => {
+            next.is_regex() || next.is_license() || next.is_comment()
+        }
+        // `1 .toString()`
+        Token::Number(_) | Token::FloatingNumber(_) => next.eq_char(ReservedChar::Dot),
+        // `a < !--b`
+        Token::Condition(Condition::InferiorThan) => next.eq_char(ReservedChar::ExclamationMark),
+        _ => false,
+    }
+}
+
 #[inline]
-fn get_next<'a>(it: &mut IntoIter<Token<'a>>) -> Option<Token<'a>> {
+fn get_next<'a>(it: &mut IntoIter<Token<'a>>, skipped: &mut bool) -> Option<Token<'a>> {
+    *skipped = false;
     for t in it {
         if t.is_comment() || t.is_white_character() {
+            *skipped = true;
             continue;
         }
         return Some(t);
@@ -271,7 +291,8 @@ pub fn clean_tokens(tokens: Tokens<'_>) -> Tokens<'_> {
     let mut it = tokens.0.into_iter();
 
     loop {
-        let token = get_next(&mut it);
+        let mut skipped = false;
+        let token = get_next(&mut it, &mut skipped);
         if token.is_none() {
             break;
         }
@@ -292,6 +313,9 @@ pub fn clean_tokens(tokens: Tokens<'_>) -> Tokens<'_> {
             // }
             // continue;
         }
+        if skipped && v.last().is_some_and(|prev| need_blank(prev, &token)) {
+            v.push(Token::Char(ReservedChar::Space));
+        }
         v.push(token);
     }
     v.into()
@@ -315,9 +339,12 @@ pub fn clean_token(token: &Token<'_>, next_token: &Option<&Token<'_>>) -> bool {
 fn get_next_except<'a, F: Fn(&Token<'a>) -> bool>(
     it: &mut IntoIter<Token<'a>>,
     f: &F,
+    skipped: &mut bool,
 ) -> Option<Token<'a>> {
+    *skipped = false;
     for t in it {
         if (t.is_comment() || t.is_white_character()) && f(&t) {
+            *skipped = true;
             continue;
         }
         return Some(t);
@@ -350,7 +377,8 @@ pub fn clean_tokens_except<'a, F: Fn(&Token<'a>) -> bool>(tokens: Tokens<'a>, f:
     let mut it = tokens.0.into_iter();
 
     loop {
-        let token = get_next_except(&mut it, &f);
+        let mut skipped = false;
+        let token = get_next_except(&mut it, &f, &mut skipped);
         if token.is_none() {
             break;
         }
@@ -366,7 +394,7 @@ pub fn clean_tokens_except<'a, F: Fn(&Token<'a>) -> bool>(tokens: Tokens<'a>, f:
                 }
                 continue;
             }
-            if let Some(next) = get_next_except(&mut it, &f) {
+            if let Some(next) = get_next_except(&mut it, &f, &mut skipped) {
                 if next != Token::Char(ReservedChar::CloseCurlyBrace) || !f(&token) {
                     v.push(token);
                 }
@@ -376,6 +404,9 @@ pub fn clean_tokens_except<'a, F: Fn(&Token<'a>) -> bool>(tokens: Tokens<'a>, f:
             }
             continue;
         }
+        if skipped && v.last().is_some_and(|prev| need_blank(prev, &token)) {
+            v.push(Token::Char(ReservedChar::Space));
+        }
         v.push(token);
     }
     v.into()
-- 
2.43.0


From 47102e854682a4531ec435b16302a54af83ed438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:08 +0000
Subject: [PATCH 18/33] fix: js: clean_tokens_except keeps the semicolon of an
 empty statement

while (x);} gave while(x)}.
---
 src/js/utils.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 2689b6c..99d08d1 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -352,6 +352,19 @@ fn get_next_except<'a, F: Fn(&Token<'a>) -> bool>(
     None
 }
 
+/// Returns true if a `;` after these tokens can be a statement: `while (x);`, `else;`, `a:;`.
+fn needs_statement(v: &[Token<'_>]) -> bool {
+    for t in v.iter().rev() {
+        if t.is_comment() || t.is_license() || t.is_white_character() {
+            continue;
+        }
+        return t.eq_char(ReservedChar::CloseParenthese)
+            || t.eq_char(ReservedChar::Colon)
+            || t.is_keyword();
+    }
+    false
+}
+
 /// Same as `clean_tokens` except that if a token is considered as not desired,
 /// the callback is called. If the callback returns `false` as well, it will
 /// be removed.
@@ -395,11 +408,14 @@ pub fn clean_tokens_except<'a, F: Fn(&Token<'a>) -> bool>(tokens: Tokens<'a>, f:
                 continue;
             }
             if let Some(next) = get_next_except(&mut it, &f, &mut skipped) {
-                if next != Token::Char(ReservedChar::CloseCurlyBrace) || !f(&token) {
+                if next != Token::Char(ReservedChar::CloseCurlyBrace)
+                    || needs_statement(&v)
+                    || !f(&token)
+                {
                     v.push(token);
                 }
                 v.push(next);
-            } else if !f(&token) {
+            } else if needs_statement(&v) || !f(&token) {
                 v.push(token);
             }
             continue;
-- 
2.43.0


From 1460328b3d6d32937c424c3a7a4ea5dff5d22b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 19/33] fix: js: print a comment as a comment

The text of a comment which is kept was printed without its delimiters,
as code.
---
 src/js/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 0fa1c0f..cc3e03a 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -396,7 +396,10 @@ impl fmt::Display for Token<'_> {
         match *self {
             Token::Keyword(x) => write!(f, "{x}"),
             Token::Char(x) => write!(f, "{x}"),
-            Token::String(x) | Token::Comment(x) | Token::Other(x) => write!(f, "{x}"),
+            Token::String(x) | Token::Other(x) => write!(f, "{x}"),
+            // A line comment can contain `*/`.
+            Token::Comment(x) if x.contains("*/") => writeln!(f, "//{x}"),
+            Token::Comment(x) => write!(f, "/*{x}*/"),
             Token::License(x) => write!(f, "/*!{x}*/"),
             Token::Regex {
                 regex,
-- 
2.43.0


From 18a67ce370785663299fbd159f87a1c3fc2a86ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:53 +0000
Subject: [PATCH 20/33] fix: js: don't aggregate template literals

Their value can differ from place to place, and from where the
declarations are inserted.
---
 src/js/tools.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index d264c7c..ccb8d5b 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -259,6 +259,10 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
         for pos in 0..tokens.len() {
             let token = &tokens[pos];
             if let Some(str_token) = token.get_string() {
+                // A template can have another value at each of its places.
+                if str_token.starts_with('`') {
+                    continue;
+                }
                 if let Some((var_pos, string_pos)) = values.get(&str_token) {
                     if pos != *string_pos {
                         to_replace.push((pos, *var_pos));
@@ -427,7 +431,8 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             }
             let token = &tokens[pos];
             if let Some(str_token) = token.get_string() {
-                if !filter(&tokens, pos) {
+                // A template can have another value at each of its places.
+                if str_token.starts_with('`') || !filter(&tokens, pos) {
                     continue;
                 }
                 let s = &str_token[1..str_token.len() - 1];
-- 
2.43.0


From e0f8ff6363d5219a0788dd1a8940fdc1bc0be4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 21/33] fix: js: a created variable never takes a name which
 the source uses

A variable declared without a literal value, or a parameter, could be
redeclared.
---
 src/js/tools.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index ccb8d5b..407b34b 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -205,11 +205,21 @@ impl fmt::Display for Minified<'_> {
     }
 }
 
+/// Returns every name of the source which could clash with a created one, however it is declared.
+fn get_used_names<'a>(tokens: &'a Tokens<'a>) -> HashSet<&'a str> {
+    tokens
+        .iter()
+        .filter_map(|t| t.get_other().or_else(|| t.get_string()))
+        .flat_map(|s| s.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '$'))
+        .filter(|name| name.starts_with("r_"))
+        .collect()
+}
+
 // TODO: No scope handling or anything. Might be nice as a second step to add it...
 fn get_variables_name<'a>(
     tokens: &'a Tokens<'a>,
 ) -> (HashSet<&'a str>, HashMap<&'a str, (usize, usize)>) {
-    let mut ret = HashSet::new();
+    let ret = get_used_names(tokens);
     let mut variables = HashMap::new();
     let mut pos = 0;
 
@@ -224,7 +234,6 @@ fn get_variables_name<'a>(
                         pos += 1;
                         continue;
                     }
-                    ret.insert(var_name);
                 }
                 if let Some(s) = tokens[value_pos].get_string() {
                     variables.insert(s, (var_pos, value_pos));
-- 
2.43.0


From b572121995675a615d1c14020338738ed2380c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 22/33] fix: js: don't reuse a variable whose value only starts
 with the string

---
 src/js/tools.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 407b34b..adce659 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -205,6 +205,18 @@ impl fmt::Display for Minified<'_> {
     }
 }
 
+/// Returns true if nothing but the end of the declaration follows: in `var x = "a" + b;`, `"a"` is
+/// not the value.
+fn is_whole_value(tokens: &[Token<'_>], pos: usize) -> bool {
+    for t in &tokens[pos + 1..] {
+        if t.is_comment() || t.is_white_character() {
+            continue;
+        }
+        return t.eq_char(ReservedChar::Comma) || t.eq_char(ReservedChar::SemiColon);
+    }
+    true
+}
+
 /// Returns every name of the source which could clash with a created one, however it is declared.
 fn get_used_names<'a>(tokens: &'a Tokens<'a>) -> HashSet<&'a str> {
     tokens
@@ -236,7 +248,9 @@ fn get_variables_name<'a>(
                     }
                 }
                 if let Some(s) = tokens[value_pos].get_string() {
-                    variables.insert(s, (var_pos, value_pos));
+                    if is_whole_value(tokens, value_pos) {
+                        variables.insert(s, (var_pos, value_pos));
+                    }
                 }
             }
         }
-- 
2.43.0


From 4baa859e4996d4b6ff801e4c7f509432d57c45c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:33 +0000
Subject: [PATCH 23/33] fix: js: a created variable never takes the name of an
 earlier created one

---
 src/js/tools.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index adce659..2d1932a 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -221,7 +221,10 @@ fn is_whole_value(tokens: &[Token<'_>], pos: usize) -> bool {
 fn get_used_names<'a>(tokens: &'a Tokens<'a>) -> HashSet<&'a str> {
     tokens
         .iter()
-        .filter_map(|t| t.get_other().or_else(|| t.get_string()))
+        .filter_map(|t| match t {
+            Token::CreatedVarDecl(s) | Token::CreatedVar(s) => Some(s.as_str()),
+            t => t.get_other().or_else(|| t.get_string()),
+        })
         .flat_map(|s| s.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '$'))
         .filter(|name| name.starts_with("r_"))
         .collect()
-- 
2.43.0


From f506a30f4062f558e101159788505bebf9205c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 24/33] fix: js: keep the quotes of a string which contains
 double quotes

'say "hi"' became "say "hi"" in the array.
---
 src/js/tools.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 2d1932a..9a059d1 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -524,7 +524,11 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             if !create_array_entry {
                 continue;
             }
-            to_insert.push((end_bracket, Token::CreatedVar(format!("\"{}\"", *s))));
+            let literal = match tokens[tokens_pos[0]].get_string() {
+                Some(literal) if s.contains('"') => literal.to_owned(),
+                _ => format!("\"{s}\""),
+            };
+            to_insert.push((end_bracket, Token::CreatedVar(literal)));
             if iter.peek().is_none() && current_array_values.is_empty() {
                 continue;
             }
-- 
2.43.0


From 1f977a0f27e00e72a20f4f702e34ce326693aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 25/33] fix: js: only add strings to an array of strings

In [1, 'a'] the index of 'a' was taken to be 0, in ['a',] the next
string's to be 1.
---
 src/js/tools.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 9a059d1..26d7cdb 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -419,12 +419,34 @@ pub fn aggregate_strings_with_separation<'a, 'b: 'a>(
     aggregate_strings_inner(tokens, Some(separation_token))
 }
 
+/// Returns true if the values are string literals: only then is the index of each known.
+fn is_strings_array(tokens: &[Token<'_>], values: &[usize]) -> bool {
+    for (i, pos) in values.iter().enumerate() {
+        let is_expected = if i % 2 == 0 {
+            tokens[*pos]
+                .get_string()
+                .is_some_and(|s| !s.starts_with('`'))
+        } else {
+            tokens[*pos].eq_char(ReservedChar::Comma)
+        };
+        if !is_expected {
+            return false;
+        }
+    }
+    values.is_empty() || values.len() % 2 == 1
+}
+
 fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> bool>(
     mut tokens: Tokens<'a>,
     array_name: &str,
     separation_token: Option<Token<'b>>,
     filter: T,
 ) -> Tokens<'a> {
+    if let Some((values, _)) = get_array(&tokens, array_name) {
+        if !is_strings_array(&tokens, &values) {
+            return tokens;
+        }
+    }
     let mut to_insert = Vec::with_capacity(100);
     let mut to_replace = Vec::with_capacity(100);
 
-- 
2.43.0


From 9089df13a4767558f477756efaecc761db89d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 26/33] fix: js: a slash in a class doesn't end a regex

---
 src/js/token.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index cc3e03a..6670e99 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -605,6 +605,8 @@ fn get_regex<'a>(
         }
     }
     iterator.start_save();
+    // A `/` inside of `[...]` doesn't end the regex.
+    let mut in_class = false;
     while let Some((pos, c)) = iterator.next() {
         if c == '\\' {
             // we skip next character
@@ -612,7 +614,11 @@ fn get_regex<'a>(
             continue;
         }
         if let Ok(c) = ReservedChar::try_from(c) {
-            if c == ReservedChar::Slash {
+            if c == ReservedChar::OpenBracket {
+                in_class = true;
+            } else if c == ReservedChar::CloseBracket {
+                in_class = false;
+            } else if c == ReservedChar::Slash && !in_class {
                 let mut is_global = false;
                 let mut is_interactive = false;
                 let mut add = 0;
-- 
2.43.0


From 8ee0d8bdd6ec2755fbf5b0c6dd2a896684920e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 27/33] fix: js: stop writing a regex after a failed write

---
 src/js/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 6670e99..14a9ca5 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -406,14 +406,14 @@ impl fmt::Display for Token<'_> {
                 is_global,
                 is_interactive,
             } => {
-                let x = write!(f, "/{regex}/");
+                write!(f, "/{regex}/")?;
                 if is_global {
                     write!(f, "g")?;
                 }
                 if is_interactive {
                     write!(f, "i")?;
                 }
-                x
+                Ok(())
             }
             Token::Condition(x) => write!(f, "{x}"),
             Token::Operation(x) => write!(f, "{x}"),
-- 
2.43.0


From 7a1c59341729503ba5a91ecbfa100fa04a51db18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 28/33] fix: js: keep the blank before an identifier which
 starts with an escape

---
 src/js/utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 99d08d1..eb44dff 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -254,6 +254,8 @@ fn need_blank(prev: &Token<'_>, next: &Token<'_>) -> bool {
         Token::Number(_) | Token::FloatingNumber(_) => next.eq_char(ReservedChar::Dot),
         // `a < !--b`
         Token::Condition(Condition::InferiorThan) => next.eq_char(ReservedChar::ExclamationMark),
+        // `var \u0061`
+        Token::Keyword(_) | Token::Other(_) => next.eq_char(ReservedChar::Backslash),
         _ => false,
     }
 }
-- 
2.43.0


From d59e85d38d620909574def908ede213a1509198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 29/33] fix: js: keep the sign of a number after an unclosed
 string

---
 src/js/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 14a9ca5..a752214 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -787,8 +787,8 @@ fn fill_other<'a>(source: &'a str, v: &mut Vec<Token<'a>>, start: usize, pos: us
         if let Ok(w) = Keyword::try_from(&source[start..pos]) {
             v.push(Token::Keyword(w));
         } else if let (false, Ok(n)) = (
-            // The leading zeros are part of the number: `010` is 8.
-            pos - start > 1 && source[start..pos].starts_with('0'),
+            // The leading zeros are part of the number: `010` is 8. And so is a sign.
+            pos - start > 1 && source[start..pos].starts_with(['0', '+']),
             usize::from_str(&source[start..pos]),
         ) {
             v.push(Token::Number(n))
-- 
2.43.0


From a6035f4cab8edfc740bf7daed159e806742f34e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 30/33] fix: cli: minify the file before the output is
 truncated

---
 src/cli.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 7625228..9e5b252 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -139,6 +139,17 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
     };
     match get_all_data(file_path) {
         Ok(content) => {
+            let minified = match file_ext {
+                FileType::Css => css::minify(&content).map(|m| m.to_string()),
+                FileType::Js => js::minify(&content).map(|m| m.to_string()),
+                FileType::Json => Ok(json::minify(&content).to_string()),
+                FileType::Unknown => Err("unknow file extension..."),
+            };
+            // Only a file that can be minified is allowed to replace the output.
+            let minified = match minified {
+                Ok(minified) => minified,
+                Err(e) => panic!("{file_path:?}: minification failed: {e}"),
+            };
             let out = match out_path {
                 Some(op) => {
                     let mut op = op.clone();
@@ -163,17 +174,7 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 .create(true)
                 .open(&out)
             {
-                let func = |s: &str| -> String {
-                    match file_ext {
-                        FileType::Css => {
-                            css::minify(s).expect("css minification failed").to_string()
-                        }
-                        FileType::Js => js::minify(s).expect("js minification failed").to_string(),
-                        FileType::Json => json::minify(s).to_string(),
-                        FileType::Unknown => panic!("{file_path:?}: unknow file extension..."),
-                    }
-                };
-                if let Err(e) = write!(file, "{}", func(&content)) {
+                if let Err(e) = write!(file, "{minified}") {
                     eprintln!("Impossible to write into {out:?}: {e}");
                 } else {
                     println!("{file_path:?}: done -> generated into {out:?}");
-- 
2.43.0


From 48f46e9a6350f7ee0fc0c1c8f12801542421324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 31/33] fix: cli: report a file that is not written through the
 exit status

---
 src/cli.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 9e5b252..e5aa4a6 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -50,8 +50,12 @@ type will detect via extension of input file.
             .collect::<Vec<_>>();
         let ext: Option<&FileType> = matches.get_one::<FileType>("FileType");
         let out: Option<&PathBuf> = matches.get_one::<PathBuf>("output");
+        let mut all_written = true;
         for path in args.into_iter() {
-            write_out_file(path, out, ext);
+            all_written &= write_out_file(path, out, ext);
+        }
+        if !all_written {
+            std::process::exit(1);
         }
     }
 }
@@ -127,7 +131,12 @@ pub fn get_all_data<T: AsRef<Path>>(file_path: T) -> io::Result<String> {
     Ok(data)
 }
 
-fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&FileType>) {
+/// Returns false, after having said why, if the minified file was not written.
+fn write_out_file(
+    file_path: &PathBuf,
+    out_path: Option<&PathBuf>,
+    ext: Option<&FileType>,
+) -> bool {
     let file_ext = if let Some(v) = ext {
         v
     } else {
@@ -135,7 +144,7 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
     };
     if file_ext == &FileType::Unknown {
         eprintln!("{file_path:?}: unknow file extension...");
-        return;
+        return false;
     };
     match get_all_data(file_path) {
         Ok(content) => {
@@ -148,7 +157,10 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
             // Only a file that can be minified is allowed to replace the output.
             let minified = match minified {
                 Ok(minified) => minified,
-                Err(e) => panic!("{file_path:?}: minification failed: {e}"),
+                Err(e) => {
+                    eprintln!("{file_path:?}: minification failed: {e}");
+                    return false;
+                }
             };
             let out = match out_path {
                 Some(op) => {
@@ -176,13 +188,19 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
             {
                 if let Err(e) = write!(file, "{minified}") {
                     eprintln!("Impossible to write into {out:?}: {e}");
+                    false
                 } else {
                     println!("{file_path:?}: done -> generated into {out:?}");
+                    true
                 }
             } else {
                 eprintln!("Impossible to create new file: {out:?}");
+                false
             }
         }
-        Err(e) => eprintln!("{file_path:?}: {e}"),
+        Err(e) => {
+            eprintln!("{file_path:?}: {e}");
+            false
+        }
     }
 }
-- 
2.43.0


From 34a4e30e16dbfe743176ff21695c5fbb05ad2c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 32/33] fix: cli: go on with the next file where one cannot be
 read or its directory created

---
 src/cli.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index e5aa4a6..1d49b47 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -115,7 +115,7 @@ impl From<&PathBuf> for FileType {
         if ext.is_none() {
             return Self::Unknown;
         };
-        match ext.unwrap().to_ascii_lowercase().to_str().unwrap() {
+        match ext.unwrap().to_ascii_lowercase().to_str().unwrap_or("") {
             "css" => Self::Css,
             "js" => Self::Js,
             "json" => Self::Json,
@@ -127,16 +127,12 @@ impl From<&PathBuf> for FileType {
 pub fn get_all_data<T: AsRef<Path>>(file_path: T) -> io::Result<String> {
     let mut file = File::open(file_path)?;
     let mut data = String::new();
-    file.read_to_string(&mut data).unwrap();
+    file.read_to_string(&mut data)?;
     Ok(data)
 }
 
 /// Returns false, after having said why, if the minified file was not written.
-fn write_out_file(
-    file_path: &PathBuf,
-    out_path: Option<&PathBuf>,
-    ext: Option<&FileType>,
-) -> bool {
+fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&FileType>) -> bool {
     let file_ext = if let Some(v) = ext {
         v
     } else {
@@ -170,7 +166,10 @@ fn write_out_file(
                         op.set_extension(format!("min.{}", file_ext.as_str()));
                     };
                     if op.parent().is_some() && !op.parent().unwrap().is_dir() {
-                        std::fs::create_dir_all(op.parent().unwrap()).unwrap();
+                        if let Err(e) = std::fs::create_dir_all(op.parent().unwrap()) {
+                            eprintln!("Impossible to create the directory of {op:?}: {e}");
+                            return false;
+                        }
                     };
                     op
                 }
-- 
2.43.0


From b2475988266a64265b2dad376292c4f4d1dc8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:04 +0000
Subject: [PATCH 33/33] fix: html: drop only the default type attributes of
 style and script start tags

---
 src/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index b6fa993..31c3019 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -17,7 +17,7 @@ fn condense_whitespace(source: &str) -> String {
 
 fn condense(source: &str) -> String {
     let re = Regex::new(r"<(style|script)[\w|\s].*?>").unwrap();
-    let type_reg = Regex::new(r#"\s*?type="[\w|\s].*?""#).unwrap();
+    let type_reg = Regex::new(r#"\s+type="text/(css|javascript)""#).unwrap();
     re.replace_all(source, |caps: &Captures| {
         type_reg.replace_all(&caps[0], "").into_owned()
     })
-- 
2.43.0

