From b2e7244c4ccd822906ccec305139bd844790ed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 01/21] fix: do not panic on whitespace at the end of a command

The tokenizer indexed past the end of the command while skipping
whitespace that no token follows.
---
 server/src/analysis/tokenizer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index ea50b7e..c0ee157 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -57,9 +57,6 @@ impl Tokenizer {
 
     /// Retrieve the next token
     fn get_next_token(&mut self) -> Result<Token, ServerError> {
-        while self.view().is_whitespace() {
-            self.advance();
-        }
         self.token_start_index = self.current_index;
         let next_char = self.view();
         
@@ -96,6 +93,13 @@ impl Tokenizer {
         next_token
     }
 
+    /// Move past any whitespace before the next token
+    fn skip_whitespace(&mut self) {
+        while !self.is_at_end() && self.view().is_whitespace() {
+            self.advance();
+        }
+    }
+
     /// Check if we are at the end of the command
     fn is_at_end(&self) -> bool {
         self.current_index >= self.command.len()
@@ -236,6 +240,7 @@ impl Tokenizer {
 impl Iterator for Tokenizer {
     type Item = Result<AnnotatedToken, ServerError>;
     fn next(&mut self) -> Option<Self::Item> {
+        self.skip_whitespace();
         if self.is_at_end() | self.error_detected {
             return None
         }
-- 
2.43.0


From c9e00451f95d9d66224040c61acfb0b8eef818e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 02/21] fix: do not panic on a string literal at the end of a
 command

The check of the character after the closing quote indexed past the end
of the command.
---
 server/src/analysis/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index c0ee157..56e7361 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -195,7 +195,7 @@ impl Tokenizer {
                 char_vec.push(next_char);
             }
         }
-        if !is_valid_literal_end_char(self.view()) {
+        if !self.is_at_end() && !is_valid_literal_end_char(self.view()) {
             return Err(
                 ServerError::TokenizationError(
                     "Invalid character found at the end of a string.".to_string()
-- 
2.43.0


From 680f42b5dc9dad34f47b95fec11a7953dd1fa86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 03/21] fix: keep the case of string literals

The tokenizer lowercased the whole command, so upper case characters in
stored string values and map keys were lost. Only keywords and
identifiers are case insensitive.
---
 server/src/analysis/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index 56e7361..fe3f2c4 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -31,7 +31,6 @@ pub struct Tokenizer {
 impl Tokenizer {
     /// Build a new tokenizer
     pub fn new(command: &str) -> Tokenizer {
-        let command = command.to_lowercase();
         let command = Vec::from_iter(command.chars());
         Tokenizer {
             command,
@@ -228,7 +227,8 @@ impl Tokenizer {
             }
 
         }
-        let token_string: String = char_vec.into_iter().collect();
+        // Keywords and identifiers are not case sensitive, but literals are kept as given
+        let token_string = char_vec.into_iter().collect::<String>().to_lowercase();
         let token = match get_word_to_token_map().get(&token_string) {
             Some(keyword_token) => keyword_token.clone(),
             None => Token::Identifier(Box::new(token_string)),
-- 
2.43.0


From dd13dcc562004dd9ce8099d4bfd5cd3d032da02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 04/21] fix: reject a command that ends after its keyword

A statement such as "get" without an identifier made the parser index
past the last token and panic.
---
 server/src/analysis/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index afb409a..e385c34 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -116,6 +116,9 @@ impl Parser {
     fn process_identifier_statement<F>(&mut self, f: F) -> Result<Statement, ServerError>
     where F: Fn(&String) -> Statement
     {
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Expected an identifier instead of the end of the query.".to_string()));
+        }
         let next_token = self.advance();
         
         match &next_token.token {
-- 
2.43.0


From a7111b825f504ccd4c82bef5cb6e5ab1e56731cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 05/21] fix: reject unfinished vector and map literals

A query ending inside a collection literal made the parser index past
the last token and panic.
---
 server/src/analysis/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index e385c34..d48feca 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -436,6 +436,9 @@ impl Parser {
         let mut value = StorageVector::new(collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()))
+        }
         if let Token::RightBracket = self.view().token {
             return Ok(StorageValue::Vector(value));
         }
@@ -462,6 +465,9 @@ impl Parser {
         let mut value = StorageMap::new(key_type, collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+        }
         if let Token::RightCurlyBracket = self.view().token {
             return Ok(StorageValue::Map(value));
         }
@@ -479,6 +485,9 @@ impl Parser {
             if let Err(_) = value.set(element_key, element_value) {
                 return Err(ServerError::ParseError("Could not add element to map.".to_string()));
             }
+            if self.is_at_end() {
+                return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+            }
             if let Token::RightCurlyBracket = self.view().token {
                 break;
             } else if let Token::Comma = self.view().token {
-- 
2.43.0


From 2b62e44d9b965e4cbdde46715b404f3706cb8560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:37 +0000
Subject: [PATCH 06/21] fix: accept empty vector and map literals

The closing bracket of [] and {} was not consumed, so a query with an
empty literal was always rejected.
---
 server/src/analysis/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index d48feca..29a02ab 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -440,6 +440,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()))
         }
         if let Token::RightBracket = self.view().token {
+            self.advance(); // ]
             return Ok(StorageValue::Vector(value));
         }
 
@@ -469,6 +470,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
         }
         if let Token::RightCurlyBracket = self.view().token {
+            self.advance(); // }
             return Ok(StorageValue::Map(value));
         }
 
-- 
2.43.0


From 0d0c023586f3361765da1871f23f1078fd0215dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:04 +0000
Subject: [PATCH 07/21] fix: reject lifetimes beyond the range of the clock

Adding a very large lifetime to the current time overflowed and
panicked, which stopped the server.
---
 server/src/analysis/interpreter.rs | 32 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/server/src/analysis/interpreter.rs b/server/src/analysis/interpreter.rs
index 3e22f20..3aa0c40 100644
--- a/server/src/analysis/interpreter.rs
+++ b/server/src/analysis/interpreter.rs
@@ -225,10 +225,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn set(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.set(key, element)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
@@ -238,10 +235,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn set_if_not_exists(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         let result = self.storage.set_if_not_exists(key, element)?;
         Ok(InterpreterResponse::Bool(result))
@@ -251,10 +245,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn update(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.update(key, element)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
@@ -264,10 +255,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn update_expiration(
         &mut self, key: &StorageKey, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration(expiration)?;
         self.storage.update_expiration(key, expiration)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
     }
@@ -406,6 +394,18 @@ impl<S: Storage + Send> Interpreter<S> {
 }
 
 
+/// Convert a lifetime in seconds into the time at which an entry expires.
+fn get_expiration(lifetime: Option<u64>) -> Result<Option<SystemTime>, ServerError> {
+    match lifetime {
+        None => Ok(None),
+        Some(time) => match SystemTime::now().checked_add(Duration::from_secs(time)) {
+            None => Err(ServerError::RequestError(format!("Lifetime {} is too long.", time))),
+            expiration => Ok(expiration),
+        },
+    }
+}
+
+
 /// Validate that a statement is available at the given authorization level.
 fn validate_authorization(
     statements: &Vec<Statement>, authorization: AuthorizationLevel
-- 
2.43.0


From 93c99d831fb34472d938df080acaa0860c774795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:05 +0000
Subject: [PATCH 08/21] fix: let try_set replace an expired entry

An expired entry that had not been removed yet counted as existing, so
SetIfNotExists refused a key that every other operation reports missing.
---
 server/src/storage/hashmap_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index 70a1375..a1f2de4 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -180,7 +180,7 @@ impl Storage for HashMapStorage {
     fn set_if_not_exists(
         &mut self, key: &str, value: StorageElement
     ) -> Result<bool, ServerError> {
-        if self.storage.contains_key(key) {
+        if self.contains_key(key)? {
             Ok(false)
         } else {
             match self.set(key, value) {
-- 
2.43.0


From 2d68547bf1a8243c94423e458ab9e9e6ca7a06fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 09/21] fix: forget the keys of expired entries when they are
 removed

check_and_expire left the key in the list of expiring keys. The stale key
made later expirations fail with a KeyError, and moving it while removing
another key panicked.
---
 server/src/storage/hashmap_storage.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index a1f2de4..49989c3 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -256,6 +256,9 @@ impl Storage for HashMapStorage {
             None => return Err(ServerError::KeyError(format!("Key {} not found.", key))),
         };
         if item.element.is_expired() {
+            if let Some(index) = item.key_index {
+                self.invalidate_key_index(index);
+            }
             match self.storage.remove(key) {
                 _ => Ok(true),
             }
-- 
2.43.0


From da06e57329d626c2e8d2a5e9269583a52843e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 10/21] fix: stop the single threaded server only when a
 shutdown is executed

A request containing a shutdown statement stopped the server even if the
user was not authorized for it or the request failed before reaching it.
---
 server/src/single_threaded.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/server/src/single_threaded.rs b/server/src/single_threaded.rs
index 61a0f50..442d78e 100644
--- a/server/src/single_threaded.rs
+++ b/server/src/single_threaded.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use crate::auth::{AuthenticationResult, AuthenticationService, MockAuthenticator};
 use crate::error::ServerError;
 use crate::io::stream::{StreamHandler, StreamRequest};
-use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Tokenizer};
+use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Tokenizer};
 use crate::storage::hashmap_storage::HashMapStorage;
 use crate::storage::Storage;
 
@@ -84,15 +84,9 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
             return (Err(error), false)
         }
         let statements = statements.unwrap();
-        let mut shut_down = false;
-        for statement in statements.iter() {
-            if let Statement::Shutdown = statement {
-                shut_down = true;
-                break;
-            }
-        }
         let int_request = InterpreterRequest{statements, authorization};
         let result = self.interpreter.interpret(int_request);
+        let shut_down = matches!(result, Ok(InterpreterResponse::ShuttingDown));
         (result, shut_down)
     }
 }
-- 
2.43.0


From 519be5288adb77bfbdc8e07a0de4cfc6006e3df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 11/21] fix: report request errors before authentication

A request that could not be read has no headers, so the single threaded
server answered every malformed request with an authentication error
instead of the error that occurred. The other servers already do this.
---
 server/src/single_threaded.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/src/single_threaded.rs b/server/src/single_threaded.rs
index 442d78e..46bae59 100644
--- a/server/src/single_threaded.rs
+++ b/server/src/single_threaded.rs
@@ -47,6 +47,10 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
     
     /// Handle a single stream request to the server. 
     fn handle_request(&mut self, request: Result<String, ServerError>, headers: HashMap<String, String>) -> (Result<InterpreterResponse, ServerError>, bool) {
+        let request_string = match request {
+            Ok(request) => request,
+            Err(error) => return (Err(error), false),
+        };
         let authentication = self.authenticator.authenticate(&headers);
         let (username, authorization)= match authentication {
             Ok(AuthenticationResult::Authenticated(username, level)) => (username, level),
@@ -67,10 +71,6 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
             },
             Some(auth) => auth,
         };
-        if let Err(error) = &request {
-            return (Err(error.clone()), false);
-        }
-        let request_string = request.unwrap();
 
         let mut tokenizer = Tokenizer::new(&request_string);
         let tokens = tokenizer.tokenize();
-- 
2.43.0


From c3ca27f9717298a8abaa4fcd272ffe0d425de856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:42 +0000
Subject: [PATCH 12/21] fix: do not loop forever when a client closes an
 unfinished request

A read of zero bytes means that no more data will arrive, but the TCP
handlers kept reading and stopped serving anyone.
---
 server/src/io/tcp.rs       | 7 +++++++
 server/src/io/tcp_async.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 8696881..dd6d23e 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -126,6 +126,13 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 };
             },
         };
+        if size_read == 0 {
+            return StreamRequest {
+                request: Err(ServerError::RequestError("Incomplete request.".to_string())),
+                headers,
+                sender: Some(Box::new(TcpStreamSender{stream})),
+            };
+        }
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 69c19bd..a0847fd 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -137,6 +137,13 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 };
             },
         };
+        if size_read == 0 {
+            return StreamRequest {
+                request: Err(ServerError::RequestError("Incomplete request.".to_string())),
+                headers,
+                sender: Some(TcpStreamSender{stream}),
+            };
+        }
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
-- 
2.43.0


From 37c8d1138b4e4f79b5c1db4cce05934243fdcf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:43 +0000
Subject: [PATCH 13/21] fix: accept requests whose headers arrive in several
 reads

The TCP handlers rejected a request unless its first read contained all
of its headers.
---
 server/src/io/tcp.rs       | 1 +
 server/src/io/tcp_async.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index dd6d23e..c8790d2 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -136,6 +136,7 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
+            Ok(Status::Partial) => continue,
             _ => return StreamRequest {
                 request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
                 headers,
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index a0847fd..b0fbe1b 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -147,6 +147,7 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
+            Ok(Status::Partial) => continue,
             _ => return StreamRequest {
                 request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
                 headers,
-- 
2.43.0


From fcb03af7345a5a40305fe7ae0c5f53240d087471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 14/21] fix: reject a Content-Length beyond the address range

Adding the length to the start of the body overflowed and panicked.
---
 server/src/io/tcp.rs       | 12 ++++++++++--
 server/src/io/tcp_async.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index c8790d2..acc340e 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -157,7 +157,15 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             None => continue,
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        let body_end = match body_start.checked_add(body_length) {
+            Some(body_end) => body_end,
+            None => return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                headers,
+                sender: Some(Box::new(TcpStreamSender{stream})),
+            },
+        };
+        if body_end <= buffer.len() {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
@@ -167,7 +175,7 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 }
             }
             headers = convert_headers_to_map(&request);
-            let body = String::from_utf8_lossy(&buffer[body_start..(body_start + body_length)]);
+            let body = String::from_utf8_lossy(&buffer[body_start..body_end]);
 
             break (headers, body);
         }
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index b0fbe1b..6125ac4 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -168,7 +168,15 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             None => continue,
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        let body_end = match body_start.checked_add(body_length) {
+            Some(body_end) => body_end,
+            None => return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                headers,
+                sender: Some(TcpStreamSender{stream}),
+            },
+        };
+        if body_end <= buffer.len() {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
@@ -178,7 +186,7 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 }
             }
             headers = convert_headers_to_map(&request);
-            let body = String::from_utf8_lossy(&buffer[body_start..(body_start + body_length)]);
+            let body = String::from_utf8_lossy(&buffer[body_start..body_end]);
 
             break (headers, body);
         }
-- 
2.43.0


From ae46e1869084e9a2fd6d4b159d20f49ac015216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 15/21] fix: match the Content-Length header without regard to
 case

HTTP header names are case insensitive.
---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index acc340e..8a83347 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -65,7 +65,7 @@ impl StreamSender for TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 6125ac4..afe6f69 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -76,7 +76,7 @@ impl TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
-- 
2.43.0


From 09b1ea76f11dcf63a8c63d017b9a5a33851abb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:46 +0000
Subject: [PATCH 16/21] fix: reject requests without a Content-Length

The TCP handlers waited for more data after the headers of such a
request, although nothing can complete it.
---
 server/src/io/tcp.rs       | 6 +++++-
 server/src/io/tcp_async.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 8a83347..64cca0f 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -154,7 +154,11 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
         };
         let body_length = match body_length {
-            None => continue,
+            None => return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                headers,
+                sender: Some(Box::new(TcpStreamSender{stream})),
+            },
             Some(body_length) => body_length,
         };
         let body_end = match body_start.checked_add(body_length) {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index afe6f69..b0c0272 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -165,7 +165,11 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
         };
         let body_length = match body_length {
-            None => continue,
+            None => return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                headers,
+                sender: Some(TcpStreamSender{stream}),
+            },
             Some(body_length) => body_length,
         };
         let body_end = match body_start.checked_add(body_length) {
-- 
2.43.0


From b824109d7638c7f9207b63ea53c46b5c6c5de132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:47 +0000
Subject: [PATCH 17/21] fix: write the whole response to the client

A single write may accept only part of a large response; the rest was
dropped.
---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 64cca0f..c8b8b8e 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -50,7 +50,7 @@ impl StreamSender for TcpStreamSender {
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
 
-        if let Err(_) = self.stream.write(http_bytes) {
+        if let Err(_) = self.stream.write_all(http_bytes) {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush() {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index b0c0272..c9d73b7 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -61,7 +61,7 @@ impl TcpStreamSender {
 
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
-        if let Err(_) = self.stream.write(http_bytes).await {
+        if let Err(_) = self.stream.write_all(http_bytes).await {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush().await {
-- 
2.43.0


From 145a3f0a0493d1e2d36d7fa0345957648973dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 18/21] fix: do not panic when a response contains a map with
 entries

JSON objects only have string keys, so serializing the entries of a map
panicked while the response was being sent. They are now written as a
list of key-value pairs.
---
 server/src/storage/types.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/server/src/storage/types.rs b/server/src/storage/types.rs
index 2196c63..7522708 100644
--- a/server/src/storage/types.rs
+++ b/server/src/storage/types.rs
@@ -242,6 +242,7 @@ impl StorageVector {
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct StorageMap {
     /// The raw map to be accessed
+    #[serde(with = "map_entries")]
     map: HashMap<StorageValue, StorageValue>,
     /// The type of key to be used
     pub key_type: KeyType,
@@ -249,6 +250,26 @@ pub struct StorageMap {
     pub collection_type: CollectionType,    
 }
 
+/// Serialization of the raw map as a sequence of key-value pairs, as its keys are not strings.
+mod map_entries {
+    use std::collections::HashMap;
+    use serde::{Deserialize, Deserializer, Serializer};
+    use super::StorageValue;
+
+    pub fn serialize<S: Serializer>(
+        map: &HashMap<StorageValue, StorageValue>, serializer: S
+    ) -> Result<S::Ok, S::Error> {
+        serializer.collect_seq(map.iter())
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(
+        deserializer: D
+    ) -> Result<HashMap<StorageValue, StorageValue>, D::Error> {
+        let entries = Vec::<(StorageValue, StorageValue)>::deserialize(deserializer)?;
+        Ok(entries.into_iter().collect())
+    }
+}
+
 
 impl StorageMap {
     /// Create a new map with keys and data of the given types.
-- 
2.43.0


From 88f1b73aa006a29006036c473775e5ea33622ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:23 +0000
Subject: [PATCH 19/21] fix: do not panic on a map type at the end of a command

---
 server/src/analysis/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index 29a02ab..1c4817c 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -378,7 +378,7 @@ impl Parser {
             self.advance();
             let key_type = get_key_type(&type_token.token)?;
             let collection_type = get_collection_type(&next_token.token)?;
-            let map = if self.is_at_statement_end() | (self.view().token != Token::LeftCurlyBracket) {
+            let map = if self.is_at_statement_end() || (self.view().token != Token::LeftCurlyBracket) {
                 StorageValue::Map(StorageMap::new(key_type, collection_type))
             } else {
                 self.get_map_value(key_type, collection_type)?
-- 
2.43.0


From 04d28f647e334ecdf654480059b9f88f9267ba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 20/21] fix: the asynchronous server could exit before the
 client asking for the shutdown had its response

---
 server/src/async.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/server/src/async.rs b/server/src/async.rs
index f25cdb2..64e97f0 100644
--- a/server/src/async.rs
+++ b/server/src/async.rs
@@ -31,7 +31,7 @@ fn authenticate(authenticator: Arc<Mutex<MockAuthenticator>>, headers: &HashMap<
 }
 
 
-async fn listen_for_requests(analysis_sender: AnalysisSender) {
+async fn listen_for_requests(analysis_sender: AnalysisSender, shutdown_flag: Arc<Mutex<bool>>) {
     let authenticator = Arc::new(Mutex::new(MockAuthenticator));
     let mut stream_handler = TcpStreamHandler::new(IpAddr::V4(Ipv4Addr::new(127, 0,0,1)), 7878).await;
     loop {
@@ -81,8 +81,13 @@ async fn listen_for_requests(analysis_sender: AnalysisSender) {
 
         }
         let response = job_receiver.recv().await.unwrap();
+        let shutting_down = matches!(response, Ok(InterpreterResponse::ShuttingDown));
         send_response_to_client(sender, response).await;
-
+        if shutting_down {
+            // The process exits once the flag is set, so the client needs its response first
+            println!("Received shutdown signal!");
+            reset_flag(&shutdown_flag, true);
+        }
 
         println!("Listening for requests");
     }
@@ -157,17 +162,12 @@ fn check_flag(flag: &Arc<Mutex<bool>>) -> bool {
     *flag.lock().unwrap()
 }
 
-async fn execute_requests(mut receiver: ExecuteReceiver, shutdown_flag: Arc<Mutex<bool>>) {
+async fn execute_requests(mut receiver: ExecuteReceiver) {
     let storage = HashMapStorage::new();
     let mut interpreter = Interpreter::new(storage);
     loop {
         let (request, sender) = receiver.recv().await.unwrap();
         let response = interpreter.interpret(request);
-        let shutting_down = if let Ok(InterpreterResponse::ShuttingDown) = &response {
-            true
-        } else {
-            false
-        };
         if let Some(sender) = sender {
             match sender.send(response).await {
                 Ok(_) => (),
@@ -176,10 +176,6 @@ async fn execute_requests(mut receiver: ExecuteReceiver, shutdown_flag: Arc<Mute
                 }
             }
         }
-        if shutting_down {
-            println!("Received shutdown signal!");
-            reset_flag(&shutdown_flag, true);
-        }
     }
 }
 
@@ -202,7 +198,7 @@ async fn serve() {
 
     let shutdown_copy = Arc::clone(&shutdown_flag);
     tokio::spawn(async move {
-        execute_requests(execute_receiver, shutdown_copy).await;
+        execute_requests(execute_receiver).await;
     });
 
     let execute_sender_analyze = execute_sender.clone();
@@ -213,7 +209,7 @@ async fn serve() {
         expire_old_keys(execute_sender).await;
     });
     tokio::spawn(async move {
-        listen_for_requests(analysis_sender).await;
+        listen_for_requests(analysis_sender, shutdown_copy).await;
     });
     let mut count = 0;
     async {
-- 
2.43.0


From 85918d0039ad11008633531087ea669cda0a50c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 21/21] fix: refuse a request body that is not UTF-8 instead of
 altering it

---
 server/src/io/tcp.rs       | 9 ++++++++-
 server/src/io/tcp_async.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index c8b8b8e..ef87743 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -179,7 +179,14 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 }
             }
             headers = convert_headers_to_map(&request);
-            let body = String::from_utf8_lossy(&buffer[body_start..body_end]);
+            let body = match String::from_utf8(buffer[body_start..body_end].to_vec()) {
+                Ok(body) => body,
+                Err(_) => return StreamRequest {
+                    request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                    headers,
+                    sender: Some(Box::new(TcpStreamSender{stream})),
+                }
+            };
 
             break (headers, body);
         }
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index c9d73b7..709afe6 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -190,7 +190,14 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 }
             }
             headers = convert_headers_to_map(&request);
-            let body = String::from_utf8_lossy(&buffer[body_start..body_end]);
+            let body = match String::from_utf8(buffer[body_start..body_end].to_vec()) {
+                Ok(body) => body,
+                Err(_) => return StreamRequest {
+                    request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                    headers,
+                    sender: Some(TcpStreamSender{stream}),
+                }
+            };
 
             break (headers, body);
         }
-- 
2.43.0

