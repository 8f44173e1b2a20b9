From 41835848dc5db3e57505b1ec77539877cbe8e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:52 +0000
Subject: [PATCH 01/19] fix: keep the already consumed part of a request method
 that starts like HTTP/

detect2..detect5 consume the leading H, HT, HTT or HTTP of a request method (HEAD,
HOST, HTTPX...) when fewer than nine bytes are available, and never handed it to
on_method, so the method reported depended on how the stream was segmented.
---
 src/http1/parser.rs | 56 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index e95d2da..a8c2211 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -558,7 +558,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect2(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect2(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -572,11 +572,17 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // this is not a response version, so it must be a request method, and the portion of it
+        // that was already consumed still has to be supplied to the handler
+        if context.byte == b' ' || (context.byte > 0x40 && context.byte < 0x5B) {
+            bs_replay!(context);
+
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"H",
                 RequestMethod,
                 request_method
             );
@@ -586,7 +592,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect3(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect3(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -600,11 +606,17 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // this is not a response version, so it must be a request method, and the portion of it
+        // that was already consumed still has to be supplied to the handler
+        if context.byte == b' ' || (context.byte > 0x40 && context.byte < 0x5B) {
+            bs_replay!(context);
+
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"HT",
                 RequestMethod,
                 request_method
             );
@@ -614,7 +626,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect4(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect4(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -628,11 +640,17 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // this is not a response version, so it must be a request method, and the portion of it
+        // that was already consumed still has to be supplied to the handler
+        if context.byte == b' ' || (context.byte > 0x40 && context.byte < 0x5B) {
+            bs_replay!(context);
+
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"HTT",
                 RequestMethod,
                 request_method
             );
@@ -642,7 +660,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect5(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect5(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -656,11 +674,17 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // this is not a response version, so it must be a request method, and the portion of it
+        // that was already consumed still has to be supplied to the handler
+        if context.byte == b' ' || (context.byte > 0x40 && context.byte < 0x5B) {
+            bs_replay!(context);
+
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"HTTP",
                 RequestMethod,
                 request_method
             );
-- 
2.43.0


From ff44d8526d3a8d548b17ac49d3421498ac9ff032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 02/19] fix: do not read past the end of an empty slice in the
 first resume()

A parser fresh out of new() starts in detect1, which compared the first byte of the
stream before checking that there is one.
---
 src/http1/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index a8c2211..b2c97e2 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -449,6 +449,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn detect1(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        exit_if_eos!(self, context);
+
         macro_rules! method {
             ($method:expr, $length:expr) => (
                 bs_jump!(context, $length);
@@ -540,7 +542,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             }
         }
 
-        exit_if_eos!(self, context);
         bs_next!(context);
 
         // make sure we have an upper-cased alphabetical character
-- 
2.43.0


From cb7df10fdfa7c436b24e250d31201f1f37b8da01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:11 +0000
Subject: [PATCH 03/19] fix: cover byte 0xFF in the header and token byte
 tables

The tables had 255 entries, so 0xFF anywhere in a header or chunk extension name or
value panicked with an index out of bounds.
---
 src/byte.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/byte.rs b/src/byte.rs
index e604a3d..6d8c83a 100644
--- a/src/byte.rs
+++ b/src/byte.rs
@@ -17,7 +17,7 @@
 //! Byte verification functions.
 
 /// Bytes allowed in non-quoted header fields.
-static HEADER_FIELDS: [bool; 255] = [
+static HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -86,12 +86,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true,  true
 
 ];
 
 /// Bytes allowed in quoted header fields.
-static QUOTED_HEADER_FIELDS: [bool; 255] = [
+static QUOTED_HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -160,12 +160,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true,  true
 
 ];
 
 /// Bytes that are considered tokens.
-static TOKENS: [bool; 255] = [
+static TOKENS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, false,
@@ -234,7 +234,7 @@ false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
-false, false, false, false, false, false, false
+false, false, false, false, false, false, false, false
 
 ];
 
-- 
2.43.0


From 0744d08cdd73a5d65bd6ebaf6a79fd02a385e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:15 +0000
Subject: [PATCH 04/19] fix: finish a chunked body whose last chunk has
 extensions

A zero length chunk with extensions went on to chunk data, so the body never finished
and the bytes that follow it were parsed as another chunk.
---
 src/http1/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index b2c97e2..7f1c7c0 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2189,6 +2189,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         bs_next!(context);
 
         if context.byte == b'\n' {
+            // the last chunk has no data, and is followed by the trailers
+            if self.length == 0 {
+                transition!(
+                    self,
+                    context,
+                    HeaderCr2,
+                    header_cr2
+                );
+            }
+
             transition!(
                 self,
                 context,
-- 
2.43.0


From d1304cdadb549ad459d551703ad81a9360f9eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 05/19] fix: find multipart boundaries that follow a carriage
 return in the data

While scanning data byte by byte, the byte that showed a possible boundary not to be
one was always taken as data. When it was a carriage return it could have been the
start of the real boundary, which was then missed.
---
 src/http1/parser.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 7f1c7c0..5a62403 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2558,12 +2558,15 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
             // so let's send the data to the callback and get back to parsing
+            // replay this byte, because it may be the start of the boundary
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', context.byte],
+                b"\r\n",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2588,12 +2591,15 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
             // so let's send the data to the callback and get back to parsing
+            // replay this byte, because it may be the start of the boundary
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', b'-', context.byte],
+                b"\r\n-",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2878,12 +2884,15 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
+        // replay this byte, because it may be the start of the boundary
+        bs_replay!(context);
+
         callback_transition!(
             self,
             handler,
             context,
             on_multipart_data,
-            &[b'\r', context.byte],
+            b"\r",
             MultipartDataByByte,
             multipart_data_by_byte
         );
-- 
2.43.0


From 50e9c44da10244e16f3e009de722bb4c4f9b35ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:47 +0000
Subject: [PATCH 06/19] fix: count the last bytes of URL encoded data once

The stream that completes the data is parsed twice, and byte_count() included it twice.
---
 src/http1/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 5a62403..41574a5 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -295,6 +295,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             match self.parse(&mut handler, &mut context) {
                 Ok(Success::Eos(length)) => {
                     if self.length - length == 0 {
+                        // this context is parsed a second time, so don't count its bytes twice
+                        self.byte_count -= length;
+
                         self.state          = ParserState::BodyFinished;
                         self.state_function = Parser::body_finished;
 
-- 
2.43.0


From 80423e8670803fb3660b79f8cf9f944cb30d50df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 07/19] fix: report the byte that does not match a required
 multipart boundary

The error named the first byte of whatever part of the boundary was compared in one
piece, so it depended on how the stream was segmented and could name a valid byte.
---
 src/http1/parser.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 41574a5..d370a2c 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2672,12 +2672,18 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 );
             }
 
-            // we're parsing the initial boundary, and it's invalid
-            //
-            // there is one caveat to this error:
-            //     it will always report the first byte being invalid, even if
-            //     it's another byte that did not match, because we're using
-            //     bs_starts_with!() vs an individual byte check
+            // we're parsing a boundary that is required, and it's invalid, so locate the byte that
+            // did not match
+            let matched = {
+                let boundary = self.boundary.unwrap();
+
+                boundary[get_upper14!(self) as usize..].iter()
+                    .zip(context.stream[context.stream_index..].iter())
+                    .take_while(|&(expected, byte)| expected == byte)
+                    .count()
+            };
+
+            bs_jump!(context, matched);
             bs_next!(context);
 
             exit_error!(MultipartBoundary, context.byte);
-- 
2.43.0


From 856fead28da601213d9dee7a2876600a652578a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:22 +0000
Subject: [PATCH 08/19] fix: keep every byte of a segmented HTTP/2 stream
 identifier

The second and third bytes overwrote the ones before them.
---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 5a926fe..29aaf96 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -411,7 +411,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 16;
+        self.bit_data32b |= (get_u8!(context) as u32) << 16;
 
         transition!(
             self,
@@ -426,7 +426,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 8;
+        self.bit_data32b |= (get_u8!(context) as u32) << 8;
 
         transition!(
             self,
-- 
2.43.0


From a7faa1969a2320422aa66f875345bf0f6ac7e741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 09/19] fix: parse the last byte of a segmented HTTP/2 go away
 stream identifier

The third byte transitioned to itself, which swallowed the rest of the connection.
---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 29aaf96..2d772e4 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -658,8 +658,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            GoAwayStreamId3,
-            go_away_stream_id3
+            GoAwayStreamId4,
+            go_away_stream_id4
         );
     }
 
-- 
2.43.0


From 489c984a9973f83cf374595aa4756a461b370ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:26 +0000
Subject: [PATCH 10/19] fix: parse the last byte of a segmented HTTP/2 settings
 value

The third byte transitioned to itself, which swallowed the rest of the connection.
---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 2d772e4..41515a7 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1388,8 +1388,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            SettingsValue3,
-            settings_value3
+            SettingsValue4,
+            settings_value4
         );
     }
 
-- 
2.43.0


From 58265025b696c8ac51146901be854ddcbb29d5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:28 +0000
Subject: [PATCH 11/19] fix: ignore the reserved bit of HTTP/2 push promise and
 window update frames

It was reported as part of the stream identifier and size increment.
---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 41515a7..18fa6d3 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1174,7 +1174,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
-        if handler.on_push_promise(self.bit_data32b) {
+        if handler.on_push_promise(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
@@ -1508,7 +1508,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn window_update_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        if handler.on_window_update(self.bit_data32b) {
+        if handler.on_window_update(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
-- 
2.43.0


From e7e1f467a761e4658a1db60708b142267ec75bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:50 +0000
Subject: [PATCH 12/19] fix: report empty HTTP/2 payloads and push promises
 when they are complete

Both waited for a byte of the next frame, so the empty data frame that ends a stream
was not reported until the peer sent something else.
---
 src/http2/parser.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 18fa6d3..09a4cc9 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -88,6 +88,11 @@ macro_rules! payload_length {
 /// Parse payload data.
 macro_rules! parse_payload_data {
     ($parser:expr, $handler:expr, $context:expr, $callback:ident) => ({
+        // an empty payload is complete without any more data
+        if actual_length!($parser) > 0 {
+            exit_if_eos!($parser, $context);
+        }
+
         if bs_available!($context) >= actual_length!($parser) as usize {
             // collect remaining data
             bs_jump!($context, actual_length!($parser) as usize);
@@ -591,8 +596,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn data_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -776,8 +779,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn go_away_debug_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -942,8 +943,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn headers_fragment(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -959,8 +958,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn ping_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -1169,8 +1166,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn push_promise_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
@@ -1549,8 +1544,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn unsupported_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
-- 
2.43.0


From 5f9d44479b148f4e1a3db7ab83015740830b2879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:52 +0000
Subject: [PATCH 13/19] fix: do not take the frame that follows an empty HTTP/2
 settings frame as settings

A settings acknowledgement has no payload, but six bytes of the next frame were parsed
as a setting, and every frame after that was misread.
---
 src/http2/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 09a4cc9..3c88617 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -496,7 +496,12 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 set_state!(self, RstStreamErrorCode1, rst_stream_error_code1);
             },
             FR_SETTINGS => {
-                set_state!(self, SettingsId1, settings_id1);
+                if payload_length!(self) == 0 {
+                    // there are no settings, which is the case for an acknowledgement
+                    set_state!(self, FrameLength1, frame_length1);
+                } else {
+                    set_state!(self, SettingsId1, settings_id1);
+                }
             },
             FR_PUSH_PROMISE => {
                 if has_flag!(self, FL_PADDED) {
-- 
2.43.0


From 5b757886e337e32d8d279af22c9b2010a245e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:20 +0000
Subject: [PATCH 14/19] fix: reject HTTP/2 frames whose payload cannot hold
 their fields and padding

The remaining payload length underflowed, which panicked with overflow checks, and
without them took gigabytes of the following frames as payload.
---
 src/http2/parser.rs | 69 ++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 3c88617..1a4ae53 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -125,6 +125,21 @@ macro_rules! parse_payload_data {
     });
 }
 
+/// Read the pad length, and exit with an error when the payload cannot hold it or the padding.
+macro_rules! read_pad_length {
+    ($parser:expr, $context:expr) => ({
+        require_payload_length!($parser, 1);
+        exit_if_eos!($parser, $context);
+
+        let pad_length = get_u8!($context) as u32;
+
+        dec_payload_length!($parser, 1);
+        require_payload_length!($parser, pad_length);
+
+        $parser.bit_data32a |= pad_length;
+    });
+}
+
 /// Read a u16.
 macro_rules! read_u16 {
     ($context:expr, $into:expr) => ({
@@ -147,13 +162,25 @@ macro_rules! read_u32 {
     });
 }
 
+/// Exit with an error when the payload, without its padding, is shorter than `$length` bytes.
+macro_rules! require_payload_length {
+    ($parser:expr, $length:expr) => ({
+        if actual_length!($parser) < $length {
+            exit_error!(PayloadLength);
+        }
+    });
+}
+
 // -------------------------------------------------------------------------------------------------
 
 /// Parser error messages.
 #[derive(Clone,Copy,PartialEq)]
 pub enum ParserError {
     /// Parsing has failed.
-    Dead
+    Dead,
+
+    /// Invalid frame payload length.
+    PayloadLength
 }
 
 impl ParserError {
@@ -163,6 +190,9 @@ impl ParserError {
             ParserError::Dead => {
                 write!(formatter, "<ParserError::Dead>")
             },
+            ParserError::PayloadLength => {
+                write!(formatter, "<ParserError::PayloadLength>")
+            }
         }
     }
 }
@@ -584,11 +614,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn data_pad_length(&mut self, _handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
-        self.bit_data32a |= get_u8!(context) as u32;
-
-        dec_payload_length!(self, 1);
+        read_pad_length!(self, context);
 
         transition!(
             self,
@@ -616,6 +642,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn go_away_stream_id1(&mut self, _handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        require_payload_length!(self, 8);
         exit_if_eos!(self, context);
 
         if bs_available!(context) >= 4 {
@@ -799,11 +826,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn headers_pad_length_with_priority(&mut self, _handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
-        self.bit_data32a |= get_u8!(context) as u32;
-
-        dec_payload_length!(self, 1);
+        read_pad_length!(self, context);
 
         transition!(
             self,
@@ -816,11 +839,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn headers_pad_length_without_priority(&mut self, _handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
-        self.bit_data32a |= get_u8!(context) as u32;
-
-        dec_payload_length!(self, 1);
+        read_pad_length!(self, context);
 
         transition!(
             self,
@@ -833,6 +852,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn headers_stream_id1(&mut self, _handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        require_payload_length!(self, 5);
         exit_if_eos!(self, context);
 
         if bs_available!(context) >= 4 {
@@ -978,6 +998,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn priority_stream_id1(&mut self, _handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        require_payload_length!(self, 5);
         exit_if_eos!(self, context);
 
         if bs_available!(context) >= 4 {
@@ -1081,11 +1102,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn push_promise_pad_length(&mut self, _handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
-        self.bit_data32a |= get_u8!(context) as u32;
-
-        dec_payload_length!(self, 1);
+        read_pad_length!(self, context);
 
         transition!(
             self,
@@ -1098,6 +1115,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn push_promise_stream_id1(&mut self, _handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        require_payload_length!(self, 4);
         exit_if_eos!(self, context);
 
         if bs_available!(context) >= 4 {
@@ -1198,6 +1216,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn rst_stream_error_code1(&mut self, _handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        require_payload_length!(self, 4);
         exit_if_eos!(self, context);
 
         if bs_available!(context) >= 4 {
@@ -1295,6 +1314,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn settings_id1(&mut self, _handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        require_payload_length!(self, 6);
         exit_if_eos!(self, context);
 
         if bs_available!(context) >= 2 {
@@ -1435,6 +1455,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn window_update_increment1(&mut self, _handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        require_payload_length!(self, 4);
         exit_if_eos!(self, context);
 
         if bs_available!(context) >= 4 {
@@ -1532,11 +1553,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn unsupported_pad_length(&mut self, _handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
-        self.bit_data32a |= get_u8!(context) as u32;
-
-        dec_payload_length!(self, 1);
+        read_pad_length!(self, context);
 
         transition!(
             self,
-- 
2.43.0


From 91c9c0f6011885d3ddb0e749389a75c91ff8bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:48 +0000
Subject: [PATCH 15/19] fix: report HTTP/2 headers frames that have neither
 padding nor priority

on_headers is documented to be executed when a headers frame has been located, and was
for padded frames without priority, but not for frames without both.
---
 src/http2/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 1a4ae53..faf0a7c 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -516,7 +516,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 } else if has_flag!(self, FL_PRIORITY) {
                     set_state!(self, HeadersStreamId1, headers_stream_id1);
                 } else {
-                    set_state!(self, HeadersFragment, headers_fragment);
+                    set_state!(self, HeadersCallback, headers_callback);
                 }
             },
             FR_PRIORITY => {
-- 
2.43.0


From 17bac06b1aa1d1ff4b205eb53760710e0b25eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 16/19] fix: accept header values that start with an 8bit byte

---
 src/http1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index d370a2c..0cacbaf 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -1703,7 +1703,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         );
 
         // make sure we have something visible to collect in next state
-        if is_visible_7bit!(context.byte) {
+        if is_visible_7bit!(context.byte) || context.byte > 0x7F {
             bs_replay!(context);
 
             transition!(
-- 
2.43.0


From 571632bec14e568da470a980d0fc0fc24a869dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:13 +0000
Subject: [PATCH 17/19] fix: accept responses with an empty status

---
 src/http1/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 0cacbaf..88e058d 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -1414,8 +1414,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         exit_if_eos!(self, context);
         bs_next!(context);
 
-        // status is any 8bit non-control byte
-        if context.byte > 0x1F && context.byte != 0x7F {
+        // status is any 8bit non-control byte, and may be empty
+        if (context.byte > 0x1F && context.byte != 0x7F) || context.byte == b'\r' {
             bs_replay!(context);
 
             transition!(
-- 
2.43.0


From c60cbe8afb66810181657ec2d745df0ca54dc488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 18/19] fix: accept headers with an empty value

---
 src/http1/parser.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 88e058d..7472786 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -1693,7 +1693,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn strip_header_value(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn strip_header_value(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         consume_linear_space!(
             context,
@@ -1714,6 +1714,19 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
+        // an empty value is reported too, otherwise nothing would tell this name from the next one
+        if context.byte == b'\r' {
+            callback_transition!(
+                self,
+                handler,
+                context,
+                on_header_value,
+                b"",
+                HeaderLf1,
+                header_lf1
+            );
+        }
+
         Err(ParserError::HeaderValue(context.byte))
     }
 
-- 
2.43.0


From 11daec40a04eb6b64bab2288bf8e2f79c066364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:01 +0000
Subject: [PATCH 19/19] fix: accept chunk lengths with leading zeros

---
 src/http1/parser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 7472786..753e993 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -1949,9 +1949,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         exit_if_eos!(self, context);
         bs_next!(context);
 
-        if context.byte == b'0' {
-            set_state!(self, ChunkLengthCr, chunk_length_cr);
-        } else if is_hex!(context.byte) {
+        if is_hex!(context.byte) {
             self.length = hex_to_byte!(context.byte) as usize;
 
             set_state!(self, ChunkLength2, chunk_length2);
-- 
2.43.0

