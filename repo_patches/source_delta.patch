From dae203758bc9b7cc37e49daa7d00c17001e5ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 1/9] fix: keep the range of an unterminated ANSI sequence
 inside the string

Without a terminator the sequence runs through the end of the string, but the
end was computed as start + len, so stripping "a\x1b[" panicked or ate into
the next message part.
---
 fyi_msg/src/ansi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fyi_msg/src/ansi.rs b/fyi_msg/src/ansi.rs
index 24bfb4c..4834b25 100644
--- a/fyi_msg/src/ansi.rs
+++ b/fyi_msg/src/ansi.rs
@@ -352,7 +352,7 @@ pub(crate) fn next_ansi(src: &str) -> Option<Range<usize>> {
 		_ => {},
 	}
 
-	Some(start..start + end.unwrap_or(len))
+	Some(start..end.map_or(len, |end| start + end))
 }
 
 
-- 
2.43.0


From bdcced484472983f24e1ad43e5e8675d1b266f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 2/9] fix: do not double the line break after an unterminated
 ANSI sequence

---
 fyi_msg/src/fitted.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fyi_msg/src/fitted.rs b/fyi_msg/src/fitted.rs
index e6c4439..a01bb74 100644
--- a/fyi_msg/src/fitted.rs
+++ b/fyi_msg/src/fitted.rs
@@ -120,9 +120,12 @@ pub fn fit_to_width(src: &str, width: usize) -> Cow<str> {
 					};
 
 					// Keep the fitable, "lost" ANSI, and trailing breaks.
+					// (An unterminated sequence would otherwise take the break
+					// with it, doubling it up.)
+					let eol = terminator($line);
 					$out.push_str(keep);
-					$out.extend(OnlyAnsi::new(kill));
-					$out.push_str(terminator($line));
+					$out.extend(OnlyAnsi::new(kill.strip_suffix(eol).unwrap_or(kill)));
+					$out.push_str(eol);
 				);
 			}
 
-- 
2.43.0


From cd6765296b2f85529998a821db41316c7dd922f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 3/9] fix: update the done count atomically

increment_n() and set_done() loaded the combined done/total, worked out the new
value, and stored it, so concurrent calls could overwrite each other (or a
finish that happened in between).
---
 fyi_msg/src/progress/mod.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 8da7400..98e996a 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -403,14 +403,13 @@ impl ProglessInner {
 		if n != 0 && self.running() {
 			// Don't bother recasting the parts to u32; leaving them as-is
 			// moots addition overflow and simplifies the subsequent joining.
-			let done_total = self.done_total.load(SeqCst);
-			let done = done!(done_total) + u64::from(n);
-			let total = total!(done_total);
+			let res = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
+				let done = done!(done_total) + u64::from(n);
+				let total = total!(done_total);
+				(done < total).then_some(done_total!(done, total))
+			});
 
-			if done < total {
-				self.done_total.store(done_total!(done, total), SeqCst);
-				self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
-			}
+			if res.is_ok() { self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst); }
 			// Time to call it quits!
 			else { self.stop(); }
 		}
@@ -504,15 +503,20 @@ impl ProglessInner {
 	fn set_done(&self, done: u32) {
 		if self.running() {
 			let done = u64::from(done);
-			let done_total = self.done_total.load(SeqCst);
-			if done != done!(done_total) {
+			let res = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
+				let before = done!(done_total);
 				let total = total!(done_total);
-				if done < total {
-					self.done_total.store(done_total!(done, total), SeqCst);
+
+				// Once finished, it has to stay finished.
+				(before < total && done < total).then_some(done_total!(done, total))
+			});
+
+			match res {
+				Ok(done_total) => if done != done!(done_total) {
 					self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
-				}
+				},
 				// Time to call it quits!
-				else { self.stop(); }
+				Err(_) => { self.stop(); },
 			}
 		}
 	}
-- 
2.43.0


From 2ae891b1d7596c8f56469fe2741158d4ca69ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 4/9] fix: do not accept tasks after progress has been stopped

---
 fyi_msg/src/progress/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 98e996a..4be9950 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -384,9 +384,14 @@ impl ProglessInner {
 	///
 	/// Returns `true` if the task was accepted.
 	fn add(&self, txt: &str) -> bool {
+		// Note: the status has to be checked with the list locked, otherwise a
+		// task could slip in after stop() has cleared it.
 		if
 			self.running() &&
-			progless_task(txt).is_some_and(|m| mutex!(self.doing).insert(m))
+			progless_task(txt).is_some_and(|m| {
+				let mut ptr = mutex!(self.doing);
+				self.running() && ptr.insert(m)
+			})
 		{
 			self.flags.fetch_or(TICK_DOING, SeqCst);
 			true
-- 
2.43.0


From 27b6170e632469115a09e670c876742497a15341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 5/9] fix: do not repaint progress after it has been stopped

---
 fyi_msg/src/progress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 4be9950..7be454a 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -592,6 +592,9 @@ impl ProglessInner {
 		// possible, even though we may well not end up using it.
 		let mut handle = std::io::stderr().lock();
 
+		// We might have been stopped while waiting for it.
+		if ! self.running() { return false; }
+
 		// Pull the terminal dimensions.
 		let Some((width, height)) = self.tick_set_size() else {
 			// The size either changed between ticks or cannot be determined.
-- 
2.43.0


From c33b7c10c192a408529acc5986db1670cfe48122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 6/9] fix: avoid overflow when sizing the bar for large counts

---
 fyi_msg/src/progress/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 7be454a..d90a517 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -982,7 +982,7 @@ impl ProglessBuffer {
 			else if done == total { w_done = space; }
 			// Working on it!
 			else {
-				w_done = u8::saturating_from((done * u32::from(space)).wrapping_div(total));
+				w_done = u8::saturating_from((u64::from(done) * u64::from(space)).wrapping_div(u64::from(total)));
 				w_undone = space.saturating_sub(w_done);
 			}
 
-- 
2.43.0


From b55f00e2f19d2cc42f72431bb6a19d8cb854983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:05 +0000
Subject: [PATCH 7/9] fix: do not lock stderr from SIGINT handlers

The interrupted thread may be holding a lock the thread painting to stderr
is waiting for, in which case eprint! inside the handler never returns.
---
 fyi_msg/src/progress/signals.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index b4152c4..555bf36 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -276,7 +276,7 @@ fn sigint_default() -> Arc<AtomicBool> {
 		if signal_hook::low_level::register(SIGINT, move || {
 			// Unhide our cursor if we changed state.
 			if ! t_switch.swap(true, SeqCst) {
-				eprint!("{}", Progless::CURSOR_UNHIDE);
+				unhide_cursor();
 			}
 
 			// One strike and you're out!
@@ -308,7 +308,7 @@ fn sigint_two_strike() -> Arc<AtomicBool> {
 			// Terminate the process if the switch was already true.
 			if t_switch.swap(true, SeqCst) { signal_hook::low_level::exit(1); }
 			// Otherwise just unhide the cursor.
-			else { eprint!("{}", Progless::CURSOR_UNHIDE); }
+			else { unhide_cursor(); }
 		).is_err() { sigint_error(); }
 	}
 
@@ -335,7 +335,7 @@ fn sigint_keepalive() -> Arc<AtomicBool> {
 		if signal_hook::low_level::register(SIGINT, move ||
 			// Unhide the cursor.
 			if ! t_switch.swap(true, SeqCst) {
-				eprint!("{}", Progless::CURSOR_UNHIDE);
+				unhide_cursor();
 			}
 		).is_err() { sigint_error(); }
 	}
@@ -352,3 +352,25 @@ fn sigint_error() -> ! {
 	Msg::error("Unable to register a SIGINT handler!").eprint();
 	std::process::exit(1);
 }
+
+#[cfg(all(feature = "signals_sigint", unix))]
+/// # Unhide Cursor (From a Signal Handler).
+///
+/// The interrupted thread might be holding the lock on STDERR, or another lock
+/// the thread that _is_ holding it is waiting for, so this writes straight to
+/// the underlying descriptor instead.
+fn unhide_cursor() {
+	use std::{
+		fs::File,
+		io::Write,
+		os::fd::AsFd,
+	};
+
+	if let Ok(fd) = std::io::stderr().as_fd().try_clone_to_owned() {
+		let _res = File::from(fd).write_all(Progless::CURSOR_UNHIDE.as_bytes());
+	}
+}
+
+#[cfg(all(feature = "signals_sigint", not(unix)))]
+/// # Unhide Cursor (From a Signal Handler).
+fn unhide_cursor() { eprint!("{}", Progless::CURSOR_UNHIDE); }
-- 
2.43.0


From 1f5e31988e65f83f7ccf46b523bcd26e4729c466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:38 +0000
Subject: [PATCH 8/9] fix: always unhide the cursor before dying from a SIGINT

A ticker can check the flag right before it changes and hide the cursor right
after, and a second SIGINT can end the process before the first one's handler
gets that far.
---
 fyi_msg/src/progress/signals.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index 555bf36..6d3e973 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -274,10 +274,11 @@ fn sigint_default() -> Arc<AtomicBool> {
 	unsafe {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move || {
-			// Unhide our cursor if we changed state.
-			if ! t_switch.swap(true, SeqCst) {
-				unhide_cursor();
-			}
+			t_switch.store(true, SeqCst);
+
+			// Unhide our cursor, no matter what the state was; another thread
+			// might be between changing it and doing the same.
+			unhide_cursor();
 
 			// One strike and you're out!
 			signal_hook::low_level::exit(1);
@@ -304,12 +305,16 @@ fn sigint_two_strike() -> Arc<AtomicBool> {
 	// callbacks can be race-prone, but our inner operations are atomic.
 	unsafe {
 		let t_switch = Arc::clone(&switch);
-		if signal_hook::low_level::register(SIGINT, move ||
+		if signal_hook::low_level::register(SIGINT, move || {
+			let again = t_switch.swap(true, SeqCst);
+
+			// Unhide the cursor, no matter what the state was; a new ticker
+			// might have checked it right before it changed.
+			unhide_cursor();
+
 			// Terminate the process if the switch was already true.
-			if t_switch.swap(true, SeqCst) { signal_hook::low_level::exit(1); }
-			// Otherwise just unhide the cursor.
-			else { unhide_cursor(); }
-		).is_err() { sigint_error(); }
+			if again { signal_hook::low_level::exit(1); }
+		}).is_err() { sigint_error(); }
 	}
 
 	switch
-- 
2.43.0


From d563b30d65ca1afc15984627573563211914e02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 9/9] fix: do not detach or kill another thread's ticker when
 (re)starting concurrently

---
 fyi_msg/src/progress/steady.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/fyi_msg/src/progress/steady.rs b/fyi_msg/src/progress/steady.rs
index 618dd6b..3906ca5 100644
--- a/fyi_msg/src/progress/steady.rs
+++ b/fyi_msg/src/progress/steady.rs
@@ -76,13 +76,17 @@ impl ProglessSteady {
 	///
 	/// Make sure the steady ticker is up and running!
 	pub(super) fn start(&self, t_inner: Arc<ProglessInner>) {
+		// Hold the handle until the swap is complete so concurrent starts and
+		// stops can't detach — or kill — each other's threads.
+		let mut ticker = mutex!(self.ticker);
+
 		// Make sure the old steady ticker is dead.
-		self.stop();
+		self.join(ticker.take());
 
 		// Reset!
 		*mutex!(self.state.0) = false;
 		let t_state = Arc::clone(&self.state);
-		mutex!(self.ticker).replace(spawn_ticker(t_state, t_inner));
+		ticker.replace(spawn_ticker(t_state, t_inner));
 	}
 
 	#[inline]
@@ -92,7 +96,15 @@ impl ProglessSteady {
 	/// automatically when [`Progless::finish`](crate::Progless::finish) is called or the instance is
 	/// dropped.
 	pub(super) fn stop(&self) {
-		let handle = mutex!(self.ticker).take();
+		let mut ticker = mutex!(self.ticker);
+		self.join(ticker.take());
+	}
+
+	/// # Join.
+	///
+	/// Signal and wait for the thread, if any, to end. The `ticker` lock
+	/// should be held for the duration; the thread itself has no need of it.
+	fn join(&self, handle: Option<JoinHandle<()>>) {
 		if let Some(handle) = handle {
 			if ! *mutex!(self.state.0) {
 				*mutex!(self.state.0) = true;
-- 
2.43.0

