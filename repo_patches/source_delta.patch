From 585b9400849f59699112621ccaaabee89a3214f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 01/14] fix: report a dump that cannot be restored instead of
 claiming success

---
 src/server/state.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/state.rs b/src/server/state.rs
index f0ebc24..9c0698b 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -136,8 +136,7 @@ impl AuthenticatorState {
             .decrypt(Nonce::from_slice(nonce), encrypted.as_ref())
             .map_err(|_| "Restoring dump failed")?;
 
-        let lk = self.locked_state.lock().unwrap().restore(d);
-        drop(lk);
+        self.locked_state.lock().unwrap().restore(d)?;
         self.notifier.notify_changes();
         self.refresher.notify_changes();
         Ok(())
-- 
2.43.0


From 8d6ffce1253381838fa666e49972717138e21799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 02/14] fix: drop every queued token event when no
 token_event_cmd is set

Previously only the first was dropped: the others stayed queued and were reported
(late, and out of context) once a configuration with token_event_cmd was loaded.
---
 src/server/eventer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/eventer.rs b/src/server/eventer.rs
index 0be2e67..701c9d1 100644
--- a/src/server/eventer.rs
+++ b/src/server/eventer.rs
@@ -71,7 +71,9 @@ impl Eventer {
                 {
                     token_event_cmd
                 } else {
-                    break;
+                    // Without a command to run, this event is dropped: carry on emptying the
+                    // queue so that old events aren't reported after a later configuration change.
+                    continue;
                 };
                 match env::var("SHELL") {
                     Ok(s) => {
-- 
2.43.0


From 679b5feacd56c4846a78609319af4ab1d4f59357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 03/14] fix: release the global lock before sending status
 output

A client that does not read its reply could otherwise stall every other part of the server.
---
 src/server/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 331bd7b..7a60e7c 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -288,6 +288,7 @@ fn request(pstate: Arc<AuthenticatorState>, mut stream: UnixStream) -> Result<()
                 };
                 acts.push(format!("{}: {st}", act.name));
             }
+            drop(ct_lk);
             acts.sort();
             if acts.is_empty() {
                 stream.write_all(b"error:No accounts configured")?;
-- 
2.43.0


From e4be178c5137c4d6afa3ff71bac7ca8826b68474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 04/14] fix: only report token_invalidated when the token was
 invalidated

If the account changed while transient_error_if_cmd ran, its token is left alone.
---
 src/server/refresher.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 00795ad..6093ab6 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -120,7 +120,9 @@ impl Refresher {
                                                     }
                                                     Err(e) => {
                                                         ct_lk = pstate.ct_lock();
-                                                        if ct_lk.is_act_id_valid(act_id) {
+                                                        let is_valid =
+                                                            ct_lk.is_act_id_valid(act_id);
+                                                        if is_valid {
                                                             ct_lk.tokenstate_replace(
                                                                 act_id,
                                                                 TokenState::Empty,
@@ -128,10 +130,12 @@ impl Refresher {
                                                         }
                                                         drop(ct_lk);
                                                         info!("Permanent refresh error for {act_name} : {e}");
-                                                        pstate.eventer.token_event(
-                                                            act_name,
-                                                            TokenEvent::Invalidated,
-                                                        );
+                                                        if is_valid {
+                                                            pstate.eventer.token_event(
+                                                                act_name,
+                                                                TokenEvent::Invalidated,
+                                                            );
+                                                        }
                                                     }
                                                 };
                                             } else {
-- 
2.43.0


From 55951f4bbf95347c32d1d98dbbd6e8f38239c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 05/14] fix: report token_invalidated when a token without a
 refresh token is discarded

---
 src/server/refresher.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 6093ab6..649f31b 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -71,7 +71,12 @@ impl Refresher {
                         let act_name = ct_lk.account(act_id).name.clone();
                         match refresher.inner_refresh(&pstate, ct_lk, act_id) {
                             RefreshKind::AccountOrTokenStateChanged => (),
-                            RefreshKind::NoRefreshToken => (),
+                            RefreshKind::NoRefreshToken => {
+                                info!("No refresh token for {act_name}");
+                                pstate
+                                    .eventer
+                                    .token_event(act_name, TokenEvent::Invalidated);
+                            }
                             RefreshKind::PermanentError(msg) => {
                                 info!("Permanent refresh error for {act_name}: {msg}");
                                 pstate
-- 
2.43.0


From f6118cee378b7b4d5ef5eb75a2936300fa93c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 06/14] fix: treat an unrepresentable token expiry as failed
 authentication

Previously the account was left pending on a code which had already been used, and the user
was not told.
---
 src/server/http_server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index c232e0e..1296fc1 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -219,7 +219,14 @@ fn request<T: Read + Write>(
     ) {
         (Some("Bearer"), Some(expires_in), Some(access_token), refresh_token) => {
             let now = Instant::now();
-            let expiry = expiry_instant(&ct_lk, act_id, now, expires_in)?;
+            let expiry = match expiry_instant(&ct_lk, act_id, now, expires_in) {
+                Ok(x) => x,
+                Err(e) => {
+                    drop(ct_lk);
+                    fail(pstate, act_id, &e.to_string())?;
+                    return Ok(());
+                }
+            };
             let act_name = ct_lk.account(act_id).name.to_owned();
             ct_lk.tokenstate_replace(
                 act_id,
-- 
2.43.0


From 618c784d6998474219bb4b3dfd1c19f01ccfabd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 07/14] fix: bound the size of a single HTTP request line

read_line buffers until it sees a newline, so the request size limit did not apply to a line
which never ends.
---
 src/server/http_server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index 1296fc1..550345a 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -287,7 +287,8 @@ fn fail(
 /// A very literal, and rather unforgiving, implementation of RFC2616 (HTTP/1.1), returning the URL
 /// of GET requests: returns `Err` for anything else.
 fn parse_get<T: Read + Write>(stream: &mut T, is_https: bool) -> Result<Url, Box<dyn Error>> {
-    let mut rdr = BufReader::new(stream);
+    // Bound what we read in total: `read_line` on its own will happily buffer an endless line.
+    let mut rdr = BufReader::new(stream.take(MAX_HTTP_REQUEST_SIZE as u64));
     let mut req_line = String::new();
     rdr.read_line(&mut req_line)?;
     let mut http_req_size = req_line.len();
-- 
2.43.0


From ee56458a9b211fc241a7f75b089c8659b6688072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 08/14] fix: decide between HTTP and HTTPS by the scheme of the
 redirect URI

URI schemes are case insensitive and surrounding whitespace is ignored, so comparing the raw
string could accept an account whose redirect server is disabled, or give it the wrong port.
---
 src/config.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index ac01eb8..26af28e 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -206,14 +206,16 @@ impl Config {
         }
 
         for (act_name, act) in &accounts {
-            if act.redirect_uri.starts_with("https") {
+            // `Account::from_fields` has checked that `redirect_uri` is a valid URI.
+            let redirect_uri = Url::parse(&act.redirect_uri).unwrap();
+            if redirect_uri.scheme() == "https" {
                 match https_listen {
                     Some(Some(_)) | None => (),
                     Some(None) => {
                         return Err(format!("Account {act_name} has an 'https' redirect but the HTTPS server is set to 'none'"));
                     }
                 }
-            } else if act.redirect_uri.starts_with("http") {
+            } else {
                 match http_listen {
                     Some(Some(_)) | None => (),
                     Some(None) => {
@@ -551,7 +553,7 @@ impl Account {
     ) -> Result<Url, Box<dyn Error>> {
         assert!(http_port.is_some() || https_port.is_some());
         let mut url = Url::parse(&self.redirect_uri)?;
-        if https_port.is_some() && self.redirect_uri.to_lowercase().starts_with("https") {
+        if https_port.is_some() && url.scheme() == "https" {
             url.set_port(https_port)
                 .map_err(|_| "Cannot set https port")?;
         } else {
-- 
2.43.0


From 8256b79f854a3dc15a7aee18a9ad13f951dc1c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 09/14] fix: do not panic in status if a token expires in the
 far future

chrono panics when asked to represent such dates, which took the whole server down.
---
 src/server/mod.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 7a60e7c..0643584 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -16,7 +16,7 @@ use std::{
 };
 
 use boot_time::Instant;
-use chrono::{DateTime, Local};
+use chrono::{DateTime, Datelike, Local};
 use log::warn;
 use nix::sys::signal::{raise, Signal};
 #[cfg(target_os = "openbsd")]
@@ -309,14 +309,28 @@ fn instant_fmt(i: Instant) -> String {
     if i < now {
         if let Some(d) = now.checked_duration_since(i) {
             if let Some(st) = SystemTime::now().checked_sub(d) {
-                let dt: DateTime<Local> = st.into();
-                return dt.to_rfc2822();
+                return systemtime_fmt(st);
             }
         }
     } else if let Some(d) = i.checked_duration_since(now) {
         if let Some(st) = SystemTime::now().checked_add(d) {
-            let dt: DateTime<Local> = st.into();
-            return dt.to_rfc2822();
+            return systemtime_fmt(st);
+        }
+    }
+    "<unknown time>".into()
+}
+
+/// Print `st` as a user-readable string if it is within the range of dates that RFC2822 can
+/// represent: OAuth servers can (and do) use very large values of `expires_in`.
+fn systemtime_fmt(st: SystemTime) -> String {
+    if let Ok(d) = st.duration_since(SystemTime::UNIX_EPOCH) {
+        if let Ok(secs) = i64::try_from(d.as_secs()) {
+            if let Some(dt) = DateTime::from_timestamp(secs, d.subsec_nanos()) {
+                // Leave some slack for the conversion to the local timezone.
+                if dt.year() < 9999 {
+                    return dt.with_timezone(&Local).to_rfc2822();
+                }
+            }
         }
     }
     "<unknown time>".into()
-- 
2.43.0


From 8d8cd0c109b174a762f544b2130e0d115acb9cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:34 +0000
Subject: [PATCH 10/14] fix: do not repeat a notification whose next due time
 is unrepresentable

If last_notification + auth_notify_interval exceeds Instant's bounds, the
account was announced again on every wake-up of the notifier.
---
 src/server/notifier.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index f4b54fe..fad50ed 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -67,10 +67,11 @@ impl Notifier {
                 } = ts
                 {
                     if let Some(t) = last_notification {
-                        if let Some(t) = t.checked_add(notify_interval) {
-                            if t > now {
-                                continue;
-                            }
+                        match t.checked_add(notify_interval) {
+                            Some(t) if t <= now => (),
+                            // If `t + notify_interval` exceeds Instant's bounds, the next
+                            // notification is never due.
+                            _ => continue,
                         }
                     }
                     *last_notification = Some(now);
-- 
2.43.0


From 496d9ff5ff406e21e0a75ca9acb7e01b719854bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:37 +0000
Subject: [PATCH 11/14] fix: announcing an authentication must not invalidate
 it

The notifier recorded the time of an announcement by replacing the
tokenstate, which changes its version: an authorisation code that was being
exchanged at that moment was then thrown away.
---
 src/server/notifier.rs | 10 ++++------
 src/server/state.rs    | 23 +++++++++++++++++++++++
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index fad50ed..9ae1ae6 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -59,12 +59,11 @@ impl Notifier {
             let now = Instant::now();
             let notify_interval = ct_lk.config().auth_notify_interval; // Pulled out to avoid borrow checker problems.
             for act_id in ct_lk.act_ids().collect::<Vec<_>>() {
-                let mut ts = ct_lk.tokenstate(act_id).clone();
                 if let TokenState::Pending {
-                    ref mut last_notification,
-                    ref url,
+                    last_notification,
+                    url,
                     ..
-                } = ts
+                } = ct_lk.tokenstate(act_id)
                 {
                     if let Some(t) = last_notification {
                         match t.checked_add(notify_interval) {
@@ -74,13 +73,12 @@ impl Notifier {
                             _ => continue,
                         }
                     }
-                    *last_notification = Some(now);
                     let url = url.clone();
                     let act = ct_lk.account(act_id);
                     if let Some(ref cmd) = ct_lk.config().auth_notify_cmd {
                         auth_cmds.push((act.name.to_owned(), cmd.clone(), url));
                     }
-                    ct_lk.tokenstate_replace(act_id, ts);
+                    ct_lk.set_last_notification(act_id, now);
                 }
             }
             drop(ct_lk);
diff --git a/src/server/state.rs b/src/server/state.rs
index 9c0698b..c236305 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -401,6 +401,29 @@ impl<'a> CTGuard<'a> {
         self.guard.details[i].2 = new_tokenstate;
         new_id
     }
+
+    /// If `act_id` is `Pending`, record that the user was last notified of that at `t`. Since this
+    /// is purely for bookkeeping, the tokenstate version is not updated: anything that is being
+    /// done for this authentication (e.g. exchanging its authorisation code) remains valid.
+    ///
+    /// # Panics
+    ///
+    /// If `act_id` is not valid.
+    pub fn set_last_notification(&mut self, act_id: AccountId, t: Instant) {
+        let i = self
+            .guard
+            .details
+            .iter()
+            .position(|x| x.1 == act_id)
+            .unwrap();
+        if let TokenState::Pending {
+            ref mut last_notification,
+            ..
+        } = self.guard.details[i].2
+        {
+            *last_notification = Some(t);
+        }
+    }
 }
 
 #[derive(Copy, Clone, Debug, Eq, Hash, PartialEq)]
-- 
2.43.0


From 4e5e54eaa2c67a49c3d238081b640936a7ec94cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:49 +0000
Subject: [PATCH 12/14] fix: dump reports an empty reply as an error

The server replies nothing when it cannot produce a dump, or goes away first:
an empty dump was then reported as success.
---
 src/user_sender.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/user_sender.rs b/src/user_sender.rs
index 22d0ab7..179f400 100644
--- a/src/user_sender.rs
+++ b/src/user_sender.rs
@@ -19,6 +19,10 @@ pub fn dump(cache_path: &Path) -> Result<Vec<u8>, Box<dyn Error>> {
 
     let mut buf = Vec::new();
     stream.read_to_end(&mut buf)?;
+    // A dump is never empty: the server went away, or could not produce the dump.
+    if buf.is_empty() {
+        return Err("Malformed response ''".into());
+    }
     Ok(buf)
 }
 
-- 
2.43.0


From e0be00b9f9a8c941fa40047ba6b6d20501359b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:49 +0000
Subject: [PATCH 13/14] fix: dump fails if the dump cannot be written

Errors when writing to stdout were ignored, so that a truncated dump was
reported as success.
---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 5cae972..2f6d498 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -159,7 +159,11 @@ fn main() {
                 .unwrap();
             match user_sender::dump(&cache_path) {
                 Ok(d) => {
-                    stdout().write_all(&d).ok();
+                    let mut out = stdout();
+                    if let Err(e) = out.write_all(&d).and_then(|()| out.flush()) {
+                        error!("Cannot write dump: {e:}");
+                        process::exit(1);
+                    }
                 }
                 Err(e) => {
                     error!("{e:}");
-- 
2.43.0


From 15545c93adc1c128560f9159dcd023480591a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:49 +0000
Subject: [PATCH 14/14] fix: a repeated empty list is rejected without a panic

'scopes' and 'auth_uri_fields' can be empty lists, but giving one a second
time as an empty list violated a debug assertion.
---
 src/config.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 26af28e..ebde740 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -384,7 +384,6 @@ impl Account {
                 }
                 config_ast::AccountField::AuthUriFields(span, spans) => {
                     if auth_uri_fields.is_some() {
-                        debug_assert!(!spans.is_empty());
                         return Err(error_at_span(
                             lexer,
                             span,
@@ -452,7 +451,6 @@ impl Account {
                 }
                 config_ast::AccountField::Scopes(span, spans) => {
                     if scopes.is_some() {
-                        debug_assert!(!spans.is_empty());
                         return Err(error_at_span(
                             lexer,
                             span,
-- 
2.43.0

