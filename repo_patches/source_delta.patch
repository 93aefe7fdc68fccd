From 803c71684b9c3ea97a66241c1bf602ecba93a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 01/51] fix: do not lose a completion that races with awaiting
 a FutureCompletionSource

---
 crates/analyzer-abstractions/src/futures_extensions.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions.rs
index ac195d4..4a83f9f 100644
--- a/crates/analyzer-abstractions/src/futures_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions.rs
@@ -69,12 +69,16 @@ where
 	/// supplied by the producer when it calls the [`FutureCompletionSource::set_value()`] method;
 	/// or complete with an error when called with [`FutureCompletionSource::set_err()`].
 	pub async fn future(&self) -> Result<T, TError> {
+		// Start listening before checking the state. Otherwise, a completion that happens between the check and the
+		// call to `listen()` would go unnoticed.
+		let on_completed = self.state.on_completed.listen();
+
 		if let Poll::Ready(value) = self.state() {
 			return value;
 		}
 
 		// Otherwise, await for an on-completed event before returning the set result.
-		self.state.on_completed.listen().await; // Asynchronously wait for the on-completed event.
+		on_completed.await; // Asynchronously wait for the on-completed event.
 
 		if let Poll::Ready(value) = self.state() {
 			return value;
-- 
2.43.0


From c9fc5715d7dd381da6e627632b6f501f3cd52d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 02/51] fix: let only one of several concurrent completions of
 a FutureCompletionSource succeed

---
 crates/analyzer-abstractions/src/futures_extensions.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions.rs
index 4a83f9f..2fff741 100644
--- a/crates/analyzer-abstractions/src/futures_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions.rs
@@ -107,16 +107,15 @@ where
 
 	#[inline(always)]
 	fn set_inner_value(&self, result: Result<T, TError>) -> FutureCompletionSourceResult<()> {
-		let completed = self.state.completed.load(Ordering::Relaxed);
+		// The value lock is held while checking for completion so that only one of many concurrent producers succeeds.
+		let mut writer = self.state.value.write().unwrap();
 
-		if completed {
+		if self.state.completed.load(Ordering::Relaxed) {
 			return Err(FutureCompletionSourceError::Invalid);
 		}
 
 		// Store the result, set the `completed` state to true and then notify all those that are currently
 		// awaiting to resolve their 'Future'.
-		let mut writer = self.state.value.write().unwrap();
-
 		writer.replace(result);
 		self.state.completed.store(true, Ordering::Relaxed);
 		self.state.on_completed.notify(usize::MAX); // Notify all awaiting.
-- 
2.43.0


From 2b446ae5cb075e62e7eaa9ae4f510b4bec25cb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 03/51] fix: do not panic when work is spawned or woken while
 the AsyncPool is being stopped

---
 .../src/futures_extensions/async_extensions.rs              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
index ba58e8d..fc5aa93 100644
--- a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
@@ -33,7 +33,8 @@ impl ArcWake for AsyncWork {
 		}
 		let cloned = arc_self.clone();
 
-		arc_self.sender.send_blocking(cloned).unwrap();
+		// The channel may have been closed in the meantime, in which case the work will never be resumed.
+		arc_self.sender.send_blocking(cloned).unwrap_or_default();
 	}
 }
 
@@ -86,6 +87,7 @@ impl AsyncPool {
 		let future = Box::pin(future);
 		let work = Arc::new(AsyncWork::new(future, sender.clone()));
 
-		sender.send_blocking(work).unwrap();
+		// Once the pool has been stopped, any new work is simply dropped.
+		sender.send_blocking(work).unwrap_or_default();
 	}
 }
-- 
2.43.0


From f31be148774ccbd5265c3dc57d9ed98957597143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 04/51] fix: drop suspended AsyncPool work when the pool stops
 instead of from whichever waker comes last

---
 .../futures_extensions/async_extensions.rs    | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
index fc5aa93..d60d42f 100644
--- a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
@@ -42,6 +42,12 @@ type WorkChannel = (Sender<Arc<AsyncWork>>, Receiver<Arc<AsyncWork>>);
 
 pub struct AsyncPool;
 
+// The work that has been spawned but has not yet completed, in the order in which it was spawned.
+//
+// Without it, the wakers handed out while polling would be the only owners of suspended work. The work, and everything that
+// it awaits on, would then be dropped by whichever thread happens to use the last waker, possibly while that thread is holding
+// the very locks needed to drop it.
+thread_local!(static PENDING_WORK: RefCell<Vec<Arc<AsyncWork>>> = RefCell::new(Vec::new()));
 thread_local!(static WORK_CHANNEL: RefCell<WorkChannel> = RefCell::new(async_channel::unbounded::<Arc<AsyncWork>>()));
 
 impl AsyncPool {
@@ -59,6 +65,8 @@ impl AsyncPool {
 
 						if future.as_mut().poll(context).is_pending() {
 							*future_slot = Some(future)
+						} else {
+							PENDING_WORK.with(|p| p.borrow_mut().retain(|w| !Arc::ptr_eq(w, &work)));
 						}
 					}
 				}
@@ -66,6 +74,8 @@ impl AsyncPool {
 			}
 		}
 
+		AsyncPool::drop_pending_work();
+
 		if cancel_token.is_canceled() {
 			return Err(OperationCanceled);
 		}
@@ -73,6 +83,17 @@ impl AsyncPool {
 		Ok(())
 	}
 
+	/// Drops the work that has not yet completed since it can no longer be resumed.
+	fn drop_pending_work() {
+		let pending_work = PENDING_WORK.with(|p| std::mem::take(&mut *p.borrow_mut()));
+
+		for work in pending_work.iter() {
+			let future = work.future.lock().unwrap().take();
+
+			drop(future);
+		}
+	}
+
 	pub fn stop() {
 		let (sender, _) = WORK_CHANNEL.with(|c| c.borrow().clone());
 
@@ -88,6 +109,8 @@ impl AsyncPool {
 		let work = Arc::new(AsyncWork::new(future, sender.clone()));
 
 		// Once the pool has been stopped, any new work is simply dropped.
-		sender.send_blocking(work).unwrap_or_default();
+		if sender.send_blocking(work.clone()).is_ok() {
+			PENDING_WORK.with(|p| p.borrow_mut().push(work));
+		}
 	}
 }
-- 
2.43.0


From 91bd0b133bd60cf38c065048232bf4caa4954660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:21 +0000
Subject: [PATCH 05/51] fix: do not trust Content-Length before the body has
 arrived

---
 crates/analyzer-host/src/json_rpc.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-host/src/json_rpc.rs b/crates/analyzer-host/src/json_rpc.rs
index 5c7b226..caab064 100644
--- a/crates/analyzer-host/src/json_rpc.rs
+++ b/crates/analyzer-host/src/json_rpc.rs
@@ -4,7 +4,7 @@ use message::*;
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 use std::{
 	fmt::{self, Display},
-	io::{self, BufRead, Write},
+	io::{self, BufRead, Read, Write},
 };
 
 #[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
@@ -114,9 +114,10 @@ fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>> {
 		}
 	}
 	let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
-	let mut buf = buf.into_bytes();
-	buf.resize(size, 0);
-	inp.read_exact(&mut buf)?;
+	let mut buf = Vec::new();
+	if inp.take(size as u64).read_to_end(&mut buf)? < size {
+		return Err(io::ErrorKind::UnexpectedEof.into());
+	}
 	let buf = String::from_utf8(buf).map_err(invalid_data)?;
 	// log::debug!("< {}", buf);?
 	Ok(Some(buf))
-- 
2.43.0


From db876702f5ed331750e65fe4d084a3e272abbe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:46 +0000
Subject: [PATCH 06/51] fix: use the LSP based file system when the host is not
 given one

---
 crates/analyzer-host/src/lib.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 41f8119..9ad62fd 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -65,17 +65,12 @@ impl AnalyzerHost {
 		*(self.protocol_machine.write().await) = Some(LspProtocolMachine::new(
 			self.trace_value.clone(),
 			request_manager.clone(),
-			self.file_system.clone().unwrap(),
+			file_system,
 		));
 
 		match join_all(
 			self.receive_messages(requests_sender.clone(), responses_sender.clone(), cancel_token.clone()),
-			self.run_protocol_machine(
-				request_manager.clone(),
-				file_system,
-				requests_receiver.clone(),
-				cancel_token.clone(),
-			),
+			self.run_protocol_machine(requests_receiver.clone(), cancel_token.clone()),
 			request_manager.start(cancel_token.clone()),
 			AsyncPool::start(cancel_token.clone()),
 		)
@@ -118,8 +113,6 @@ impl AnalyzerHost {
 
 	async fn run_protocol_machine(
 		&self,
-		request_manager: RequestManager,
-		file_system: Arc<AnyEnumerableFileSystem>,
 		requests_receiver: Receiver<Message>,
 		cancel_token: Arc<CancellationToken>,
 	) -> Result<(), OperationCanceled> {
-- 
2.43.0


From 0f243585fa024d7a75b1ad82dca60ecea54f499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:46 +0000
Subject: [PATCH 07/51] fix: share the request id counter between clones of a
 RequestManager so that ids are never reused

---
 crates/analyzer-host/src/lsp/request.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index cf9a0ae..116268d 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -33,7 +33,7 @@ type AnyFutureCompletionSource = FutureCompletionSource<Arc<Message>, LspProtoco
 pub struct RequestManager {
 	requests: Sender<Message>,
 	responses: Receiver<Message>,
-	request_id: AtomicI32,
+	request_id: Arc<AtomicI32>,
 	awaiting_requests: Arc<AsyncRwLock<HashMap<RequestId, Arc<AnyFutureCompletionSource>>>>,
 }
 
@@ -45,7 +45,7 @@ impl RequestManager {
 		Self {
 			requests: sender,
 			responses: receiver,
-			request_id: AtomicI32::new(0),
+			request_id: Arc::new(AtomicI32::new(0)),
 			awaiting_requests: Arc::new(AsyncRwLock::new(HashMap::new())),
 		}
 	}
@@ -205,12 +205,12 @@ impl RequestManager {
 }
 
 impl Clone for RequestManager {
-	/// Returns a copy of the [`RequestManager`].
+	/// Returns a copy of the [`RequestManager`] that shares its request ids and its awaiting requests.
 	fn clone(&self) -> Self {
 		Self {
 			requests: self.requests.clone(),
 			responses: self.responses.clone(),
-			request_id: AtomicI32::new(self.request_id.load(Ordering::Relaxed)),
+			request_id: self.request_id.clone(),
 			awaiting_requests: self.awaiting_requests.clone(),
 		}
 	}
-- 
2.43.0


From 4759345b9f0fd750375f83c1accba0394ba38fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:24 +0000
Subject: [PATCH 08/51] fix: fail outstanding client requests when no more
 responses can arrive

---
 crates/analyzer-host/src/lsp/request.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index 116268d..12c3427 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -88,7 +88,18 @@ impl RequestManager {
 			}
 		}
 
-		return Err(OperationCanceled);
+		// No further responses will be received, so fail any requests that are still waiting for one.
+		self.responses.close();
+
+		for (_, awaiting_request) in self.awaiting_requests.write().await.drain() {
+			awaiting_request.set_err(LspProtocolError::TransportError).unwrap_or_default();
+		}
+
+		if cancel_token.is_canceled() {
+			return Err(OperationCanceled);
+		}
+
+		Ok(())
 	}
 
 	/// Sends a typed notification to the LSP client.
@@ -180,7 +191,7 @@ impl RequestManager {
 		let request = Request::new(id.clone(), method.into(), params);
 		let awaiting_request = self.create_active_request(&id).await;
 
-		if let Err(_) = self.requests.send(Message::Request(request)).await {
+		if self.responses.is_closed() || self.requests.send(Message::Request(request)).await.is_err() {
 			self.take_awaiting_request(&id).await; // Take the awaiting_request if we couldn't send the request.
 
 			return Err(LspProtocolError::TransportError);
-- 
2.43.0


From 43b5516f53a3208b17c8d616a2467ff75b621dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:24 +0000
Subject: [PATCH 09/51] fix: let the host stop cleanly when it exits, is
 cancelled or loses its client

---
 crates/analyzer-host/src/lib.rs | 36 ++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 9ad62fd..1aafaf3 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -6,7 +6,7 @@ mod lsp_impl;
 pub mod tracing;
 
 use analyzer_abstractions::{
-	fs::AnyEnumerableFileSystem, futures::future::join4 as join_all, futures_extensions::async_extensions::AsyncPool,
+	fs::AnyEnumerableFileSystem, futures::future::try_join4 as try_join_all, futures_extensions::async_extensions::AsyncPool,
 	tracing::*,
 };
 use async_channel::{Receiver, Sender};
@@ -68,22 +68,21 @@ impl AnalyzerHost {
 			file_system,
 		));
 
-		match join_all(
+		// If canceled, then there is no need to wait for whatever is still in progress.
+		let result = try_join_all(
 			self.receive_messages(requests_sender.clone(), responses_sender.clone(), cancel_token.clone()),
 			self.run_protocol_machine(requests_receiver.clone(), cancel_token.clone()),
 			request_manager.start(cancel_token.clone()),
 			AsyncPool::start(cancel_token.clone()),
 		)
 		.await
-		{
-			(Ok(_), Ok(_), Ok(_), Ok(_)) => {
-				self.sender.close();
-				self.receiver.close();
+		.map(|_| ());
 
-				Ok(())
-			}
-			_ => Err(OperationCanceled),
-		}
+		self.sender.close();
+		self.receiver.close();
+		AsyncPool::stop();
+
+		result
 	}
 
 	async fn receive_messages(
@@ -95,8 +94,9 @@ impl AnalyzerHost {
 		while !cancel_token.is_canceled() {
 			match self.receiver.recv().await {
 				Ok(message) => match message {
-					Message::Response(_) => responses_sender.send(message).await.unwrap(),
-					_ => requests_sender.send(message).await.unwrap(),
+					Message::Response(_) => responses_sender.send(message).await.unwrap_or_default(),
+					// Once the protocol machine has stopped, any messages still to be received are discarded.
+					_ => requests_sender.send(message).await.unwrap_or_default(),
 				},
 				Err(err) => {
 					error!("Unexpected error receiving message: {:?}", err);
@@ -108,7 +108,11 @@ impl AnalyzerHost {
 		requests_sender.close();
 		responses_sender.close();
 
-		return Err(OperationCanceled);
+		if cancel_token.is_canceled() {
+			return Err(OperationCanceled);
+		}
+
+		Ok(())
 	}
 
 	async fn run_protocol_machine(
@@ -137,7 +141,10 @@ impl AnalyzerHost {
 						{
 							Ok(response_message) => {
 								if let Some(Message::Response(_)) = &response_message {
-									self.sender.send(response_message.unwrap()).await.unwrap();
+									if self.sender.send(response_message.unwrap()).await.is_err() {
+										error!("Unexpected error sending response: the channel is closed.");
+										requests_receiver.close(); // There is nobody left to respond to.
+									}
 								}
 							}
 							Err(err) => {
@@ -150,6 +157,7 @@ impl AnalyzerHost {
 				}
 				Err(err) => {
 					error!("Unexpected error receiving request or notification: {:?}", err);
+					break;
 				}
 			}
 		}
-- 
2.43.0


From 512907958b7591c3c5747f6c73749834ac362f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:25 +0000
Subject: [PATCH 10/51] fix: index without progress when the client refuses to
 create it

---
 crates/analyzer-host/src/lsp/workspace.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index ec76687..fe1463a 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -104,15 +104,20 @@ impl WorkspaceManager {
 			return; // Do nothing if there are no workspace folders.
 		}
 
-		let progress = progress.begin("Indexing").await.unwrap();
+		// The client is free to refuse progress. If it does, then simply index without reporting any.
+		let progress = progress.begin("Indexing").await.ok();
 
 		for (_, workspace) in (&self.workspaces).into_iter() {
-			progress.report(&format!("{}", workspace)).await.unwrap();
+			if let Some(progress) = &progress {
+				progress.report(&format!("{}", workspace)).await.unwrap_or_default();
+			}
 
 			workspace.index().await;
 		}
 
-		progress.end(None).await.unwrap();
+		if let Some(progress) = &progress {
+			progress.end(None).await.unwrap_or_default();
+		}
 	}
 }
 
-- 
2.43.0


From 3d4298e1e013d52028e42cfae8260343b0ac24bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:52 +0000
Subject: [PATCH 11/51] fix: respond to requests whose parameters are malformed

---
 crates/analyzer-host/src/lsp/dispatch_target.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/dispatch_target.rs b/crates/analyzer-host/src/lsp/dispatch_target.rs
index eb434d1..780de9a 100644
--- a/crates/analyzer-host/src/lsp/dispatch_target.rs
+++ b/crates/analyzer-host/src/lsp/dispatch_target.rs
@@ -127,7 +127,17 @@ where
 		match &*message {
 			Message::Request(request) => {
 				let method = request.method.as_str();
-				let params = from_json::<TParams>(&request.params)?;
+				let params = match from_json::<TParams>(&request.params) {
+					Ok(params) => params,
+					Err(err) => {
+						error!(method = method, "Error processing request '{}': {}", method, err);
+
+						let response =
+							Response::new_error(request.id.clone(), ErrorCode::InvalidParams as i32, &err.to_string());
+
+						return Ok((Some(Message::Response(response)), current_state));
+					}
+				};
 				let (response, next_state) = match self.handler_fn.call(current_state, params, state).await {
 					Ok(result) => (Response::new(request.id.clone(), result), self.next_state(current_state)),
 					Err(err) => {
-- 
2.43.0


From 0d8ea01468bf727ba5003069976905571fd1c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:07 +0000
Subject: [PATCH 12/51] fix: do not start background loading for an
 'initialize' request that fails

---
 .../src/lsp_impl/active_uninitialized.rs      | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
index 6130870..a22d4ec 100644
--- a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
@@ -49,6 +49,16 @@ async fn on_initialize(
 	params: InitializeParams,
 	state: Arc<AsyncRwLock<State>>,
 ) -> HandlerResult<InitializeResult> {
+	// With a workspace context in place, the P4 Analyzer depends on the LSP client to notify it of external file changes.
+	// This is checked up front since a failed 'initialize' request leaves the server uninitialized (and it may be retried).
+	if params.workspace_folders.is_some()
+		&& params.capabilities.workspace.map_or(true, |capabilities| capabilities.did_change_watched_files == None)
+	{
+		return Err(
+			HandlerError::new(
+				"P4 Analyzer requires the Watched Files ('workspace.didChangeWatchedFiles') capability from the LSP client."));
+	}
+
 	initialize_client_dependant_state(state.clone(), params.workspace_folders, params.capabilities.window).await;
 
 	let state = state.read().await;
@@ -63,17 +73,7 @@ async fn on_initialize(
 		return Ok(create_initialize_result(false));
 	}
 
-	// With a workspace context in place, the P4 Analyzer depends on the LSP client to notify it of external file changes.
-	// If the client supports that capability, then start indexing
-	match params.capabilities.workspace {
-		Some(capabilities)
-			if capabilities.did_change_watched_files != None => Ok(create_initialize_result(true)),
-		_ => {
-			Err(
-				HandlerError::new(
-					"P4 Analyzer requires the Watched Files ('workspace.didChangeWatchedFiles') capability from the LSP client."))
-		}
-	}
+	Ok(create_initialize_result(true))
 }
 
 /// Responds to an 'exit' notification from the LSP client.
-- 
2.43.0


From 6c4ce4e4f633d74ed6e4e5870e9dfe5b76698a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 13/51] fix: serve files that are outside of the workspace
 folders

---
 crates/analyzer-host/src/lsp/workspace.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index fe1463a..446c9f1 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -15,7 +15,7 @@ use analyzer_abstractions::{
 	fs::AnyEnumerableFileSystem,
 	futures_extensions::FutureCompletionSource,
 	lsp_types::{TextDocumentIdentifier, Url, WorkspaceFolder},
-	tracing::{error, info},
+	tracing::info,
 };
 use thiserror::Error;
 
@@ -29,6 +29,9 @@ use super::{
 pub struct WorkspaceManager {
 	has_workspaces: bool,
 	pub workspaces: HashMap<Url, Arc<Workspace>>,
+
+	/// The 'catch-all' workspace for files that are not a descendant of any workspace folder (it is never indexed).
+	catch_all: Arc<Workspace>,
 }
 
 impl WorkspaceManager {
@@ -51,10 +54,11 @@ impl WorkspaceManager {
 			)
 		}
 
-		let (has_workspaces, workspace_folders) = workspace_folders.map_or_else(
-			|| (false, vec![WorkspaceFolder { name: "<*>".to_string(), uri: Url::parse("file:///").unwrap() }]),
-			|folders| (true, folders),
-		);
+		let catch_all_folder = WorkspaceFolder { name: "<*>".to_string(), uri: Url::parse("file:///").unwrap() };
+		let (_, catch_all) = to_workspace(file_system.clone(), catch_all_folder.clone(), background_load.clone());
+
+		let (has_workspaces, workspace_folders) =
+			workspace_folders.map_or_else(|| (false, vec![catch_all_folder]), |folders| (true, folders));
 
 		Self {
 			has_workspaces,
@@ -62,6 +66,7 @@ impl WorkspaceManager {
 				.into_iter()
 				.map(|wf| to_workspace(file_system.clone(), wf, background_load.clone()))
 				.collect(),
+			catch_all,
 		}
 	}
 
@@ -85,14 +90,10 @@ impl WorkspaceManager {
 			false
 		}
 
-		// If not initialized with any workspace folders, then the path should always be a descendant of the
-		// 'catch-all' workspace.
+		// Files can be opened from outside of the workspace folders, or have no path at all (e.g., unsaved files).
 		match (&self.workspaces).into_iter().find(|(workspace_uri, _)| is_descendant_path(&workspace_uri, &uri)) {
 			Some((_, workspace)) => workspace.get_file(uri),
-			None => {
-				error!(file_uri = uri.as_str(), "Failed to locate a workspace for a given file.");
-				unreachable!("failed to locate a workspace");
-			}
+			None => self.catch_all.get_file(uri),
 		}
 	}
 
-- 
2.43.0


From 78e9358e7e43c77990c749978c09057a1f2351ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 14/51] fix: do not panic when a file that was never opened is
 saved

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index a38675e..bee31df 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -213,10 +213,10 @@ async fn on_text_document_did_save(
 
 		info!("Syncing buffer on save.");
 		let file_id = analyzer.file_id(params.text_document.uri.as_str());
-		let diagnostics = process_diagnostics(&analyzer, file_id, &text);
-		// TODO: report diagnostics, and process *after* the update below!
 		analyzer.update(file_id, &text);
 		file.open_or_update(file_id);
+		// TODO: report diagnostics
+		let diagnostics = process_diagnostics(&analyzer, file_id, &text);
 	}
 
 	Ok(())
-- 
2.43.0


From 4863048643b409ed89a13fd204836cf37eb9ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:25 +0000
Subject: [PATCH 15/51] fix: never let a background load replace newer contents
 of a file

---
 crates/analyzer-host/src/lsp/workspace.rs     | 12 +++++++++
 .../src/lsp_impl/active_initialized.rs        | 26 +++++++++++--------
 crates/analyzer-host/src/lsp_impl/state.rs    | 20 ++++++++------
 3 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index 446c9f1..3e63687 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -228,6 +228,7 @@ pub enum IndexError {
 #[derive(Clone)]
 pub(crate) struct FileState {
 	is_open_in_ide: bool,
+	revision: usize,
 	parsed_unit: FutureCompletionSource<Arc<RwLock<ParsedUnit>>, IndexError>,
 }
 
@@ -246,6 +247,7 @@ impl File {
 			document_identifier,
 			state: Arc::new(AsyncRwLock::new(FileState {
 				is_open_in_ide: false,
+				revision: 0,
 				parsed_unit: FutureCompletionSource::<Arc<RwLock<ParsedUnit>>, IndexError>::new(),
 			})),
 		}
@@ -258,6 +260,15 @@ impl File {
 		state.is_open_in_ide
 	}
 
+	/// Returns the current revision of the file.
+	///
+	/// The revision changes whenever the host supplies the contents of the file, or reports that they have changed. Contents
+	/// that were requested for an earlier revision are out of date.
+	pub fn revision(&self) -> usize { self.state.try_read().unwrap().revision }
+
+	/// Moves the file on to a new revision.
+	pub fn new_revision(&self) { self.state.try_write().unwrap().revision += 1; }
+
 	pub async fn get_parsed_unit(&self) -> Result<ParsedUnit, IndexError> {
 		let state = self.state.read().await;
 		let parsed_unit = state.parsed_unit.clone();
@@ -275,6 +286,7 @@ impl File {
 		let mut state = self.state.try_write().unwrap();
 
 		state.is_open_in_ide = true;
+		state.revision += 1;
 
 		self.set_parsed_unit(parsed_unit, Some(state)); // Use the writable state that we already have.
 	}
diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index bee31df..6caa503 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -239,17 +239,17 @@ async fn created_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 		return; // we don't need to query filesystem
 	}
 
-	match file.get_parsed_unit().await {
-		Ok(file_id) => {
-			let lock = state.write().await;
-			let content = lock.file_system.file_contents(uri.clone()).await.unwrap_or_default();
-			lock.analyzer.unwrap().update(file_id, &content);
-			info!("{} file updated from file system", uri.path());
-		}
-		Err(err) => {
-			error!(uri = uri.as_str(), "Could not query completions. Index error: {}", err);
-		}
-	}
+	// Wait for any background load, which may well have failed if the file did not exist at the time.
+	file.get_parsed_unit().await.ok();
+
+	let lock = state.write().await;
+	let content = lock.file_system.file_contents(uri.clone()).await.unwrap_or_default();
+	let file_id = lock.analyzer.unwrap().file_id(uri.as_str());
+
+	lock.analyzer.unwrap().update(file_id, &content);
+	file.set_parsed_unit(file_id, None);
+	file.new_revision();
+	info!("{} file updated from file system", uri.path());
 }
 
 async fn deleted_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
@@ -261,7 +261,11 @@ async fn deleted_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 		return; // we don't need to query filesystem
 	}
 
+	// Wait for any background load, otherwise it could bring the contents back.
+	file.get_parsed_unit().await.ok();
+
 	state.write().await.analyzer.unwrap().delete(uri.as_str());
+	file.new_revision();
 	info!("{} file deleted from file system", uri.path());
 }
 
diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index 9773f33..9f18035 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -208,17 +208,21 @@ impl State {
 							return;
 						}
 
-						match file_system.file_contents(file_url.clone()).await {
+						let revision = file.revision();
+						let contents = file_system.file_contents(file_url.clone()).await;
+
+						// If the file has been opened in the IDE during the fetching of its contents, then simply
+						// throw it all away. The IDE is now the source of truth for this file. The contents could also
+						// have been superseded by now, even if the file is no longer open.
+						if file.is_open_in_ide() || file.revision() != revision {
+							return;
+						}
+
+						match contents {
 							Some(text) => {
 								info!(file_uri = file_url.as_str(), "Got text: {}", text);
 
-								// If the file has been opened in the IDE during the fetching of its contents, then simply
-								// throw it all away. The IDE is now the source of truth for this file...
-								if file.is_open_in_ide() {
-									return;
-								}
-
-								// ...otherwise, update its parsed unit.
+								// Otherwise, update its parsed unit.
 								let file_id = analyze_source_text(&analyzer, file_url.as_str(), text);
 
 								file.set_parsed_unit(file_id, None);
-- 
2.43.0


From bdb31fcadf4f6530b179d29f9e9de2709e317101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:25 +0000
Subject: [PATCH 16/51] fix: close the message channels of a Driver when its
 input or its output ends

---
 crates/p4-analyzer/src/driver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/p4-analyzer/src/driver.rs b/crates/p4-analyzer/src/driver.rs
index cda0124..4ee3d2d 100644
--- a/crates/p4-analyzer/src/driver.rs
+++ b/crates/p4-analyzer/src/driver.rs
@@ -73,6 +73,8 @@ impl Driver {
 				break;
 			}
 		}
+
+		sender.close(); // Nothing more will be received (e.g., the client has gone away).
 	}
 
 	fn receiver_task(receiver: Receiver<Message>, output_source: DriverType) {
@@ -81,6 +83,8 @@ impl Driver {
 				break;
 			}
 		}
+
+		receiver.close(); // Nothing more can be sent.
 	}
 
 	/// Starts executing the [`Driver`] instance.
-- 
2.43.0


From 700c3e79e7315182db6f21d694335f76b409e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:02 +0000
Subject: [PATCH 17/51] fix: make NativeFs robust to folders with glob
 characters, non file URIs and non UTF-8 contents

---
 crates/p4-analyzer/src/native_fs.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/p4-analyzer/src/native_fs.rs b/crates/p4-analyzer/src/native_fs.rs
index e63d65e..2fe492b 100644
--- a/crates/p4-analyzer/src/native_fs.rs
+++ b/crates/p4-analyzer/src/native_fs.rs
@@ -2,9 +2,11 @@ pub mod native_fs {
 	use analyzer_abstractions::{
 		fs::{AnyEnumerableFileSystem, EnumerableFileSystem},
 		lsp_types::{TextDocumentIdentifier, Url},
+		tracing::error,
 		BoxFuture,
 	};
-	use glob::glob;
+	use glob::{glob, Pattern};
+	use std::path::Path;
 
 	pub struct NativeFs {}
 
@@ -20,18 +22,20 @@ pub mod native_fs {
 			file_pattern: String,
 		) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> {
 			async fn enumerate_folder(folder_uri: Url, file_pattern: String) -> Vec<TextDocumentIdentifier> {
-				let mut folder_uri = folder_uri.clone();
-				folder_uri.path_segments_mut().unwrap().push(&file_pattern);
-
-				let glob_pattern = folder_uri.to_file_path().unwrap();
-				let glob_pattern = glob_pattern.to_str().unwrap();
-
 				let mut output = Vec::new();
 
-				for files in glob(glob_pattern).expect("Failed to read glob pattern") {
+				// Only the file pattern is a glob, whatever characters are in the path of the folder.
+				let folder_path = folder_uri.to_file_path().ok().and_then(|path| path.to_str().map(Pattern::escape));
+				let Some(folder_path) = folder_path else {
+					error!(folder_uri = folder_uri.as_str(), "The folder is not part of the file system.");
+					return output;
+				};
+				let glob_pattern = Path::new(&folder_path).join(&file_pattern);
+
+				for files in glob(glob_pattern.to_str().unwrap()).expect("Failed to read glob pattern") {
 					match files {
 						Ok(path) => output.push(TextDocumentIdentifier { uri: Url::from_file_path(path).unwrap() }),
-						Err(e) => println!("{:?}", e),
+						Err(e) => error!("{:?}", e), // Never write to stdout: it belongs to the LSP client.
 					}
 				}
 
@@ -43,12 +47,12 @@ pub mod native_fs {
 
 		fn file_contents<'a>(&'a self, file_uri: Url) -> BoxFuture<'a, Option<String>> {
 			async fn file_contents(file_uri: Url) -> Option<String> {
-				let path = file_uri.to_file_path().unwrap();
+				let path = file_uri.to_file_path().ok()?;
 
 				let data = tokio::fs::read(path).await;
 
 				match data {
-					Ok(data) => Some(String::from_utf8(data).unwrap()),
+					Ok(data) => Some(String::from_utf8_lossy(&data).into_owned()),
 					Err(_) => None,
 				}
 			}
-- 
2.43.0


From c9126fcf01480e61b90cd322882a8e29a48b410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:53 +0000
Subject: [PATCH 18/51] fix: map positions at the end of a last line that has
 no line break

---
 crates/analyzer-core/src/lsp_file.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/lsp_file.rs b/crates/analyzer-core/src/lsp_file.rs
index 11dd40a..73251ce 100644
--- a/crates/analyzer-core/src/lsp_file.rs
+++ b/crates/analyzer-core/src/lsp_file.rs
@@ -80,6 +80,17 @@ impl LspFile {
 		slice.chars().count()
 	}
 
+	/// Returns the byte position at which the characters of a line end, excluding its line break. The last line may not have one.
+	fn line_end(&self, line: usize) -> usize {
+		let last_byte = self.ranges[line];
+
+		if self.file.as_bytes()[last_byte] == b'\n' {
+			last_byte
+		} else {
+			last_byte + 1
+		}
+	}
+
 	pub fn lsp_to_byte(&self, lsp_pos: &Position) -> usize {
 		// O(1) time complexity
 		// file is empty
@@ -95,7 +106,7 @@ impl LspFile {
 		let start_byte = if lsp_pos.line == 0 { 0 } else { self.ranges.get(lsp_pos.line - 1).unwrap_or(&0) + 1 };
 
 		// get byte offset for character position in line
-		let slice = self.file.slice(start_byte..self.ranges[lsp_pos.line]).unwrap_or("").chars();
+		let slice = self.file.slice(start_byte..self.line_end(lsp_pos.line)).unwrap_or("").chars();
 		let mut byte_count = 0;
 		for (i, c) in slice.enumerate() {
 			if i == lsp_pos.character {
@@ -128,7 +139,7 @@ impl LspFile {
 
 		// calculate character position in byte offset
 		let mut byte_count = if line == 0 { 0 } else { self.ranges[line - 1] + 1 };
-		let slice = self.file.slice(byte_count..self.ranges[line]).unwrap_or("").chars();
+		let slice = self.file.slice(byte_count..self.line_end(line)).unwrap_or("").chars();
 		let mut char = slice.clone().count();
 
 		for (i, c) in slice.enumerate() {
-- 
2.43.0


From bd6e11e54e04ae18d785cc09a365ae4c4de88909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:00 +0000
Subject: [PATCH 19/51] fix: allow edits beyond what a Parser has matched so
 far

---
 crates/analyzer-core/src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index d1e33c7..b354a1c 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -99,6 +99,11 @@ impl<Token: Clone + PartialEq> Parser<Token> {
 		// apply edit to the input
 		self.buffer.write().splice(range.clone(), r.iter().cloned());
 
+		// the memo table only has columns for positions that were reached by a match
+		if self.memo_table.len() < range.end {
+			self.memo_table.resize_with(range.end, Default::default);
+		}
+
 		// adjust the memo table: replace the affected range with empty entries
 		self.memo_table.splice(range.clone(), std::iter::repeat(Default::default()).take(r.len()));
 
-- 
2.43.0


From e6cb1910ee88213b6aa7d8a8ab602896d5b7963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 20/51] fix: keep the tokens of an included file in order

---
 crates/analyzer-core/src/preprocessor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index a7b30d6..8f7a3f9 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -301,6 +301,7 @@ impl<'a> PreprocessorState<'a> {
 								.iter()
 								.cloned()
 								.map(|(tk, span)| (file_id, tk, span))
+								.rev() // The first token of the included file has to end up at the front.
 								.for_each(|x| input.push_front(x));
 						} else {
 							self.error(id, span, not_found_err);
-- 
2.43.0


From c20b32266597d5efa86ba249764fd01dcf987579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 21/51] fix: do not crash when a preprocessor condition
 overflows, divides by zero or expands a recursive macro

---
 crates/analyzer-core/src/preprocessor.rs | 47 +++++++++++++++---------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 8f7a3f9..eebf65a 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -459,37 +459,46 @@ impl<'a> PreprocessorState<'a> {
 
 	/// Interpret a [PreprocessorExpression] and cast it to a boolean.
 	fn interpret_condition(&self, cond: &PreprocessorExpression) -> bool {
-		match self.interpret_pp_expr(cond) {
+		match self.interpret_pp_expr(cond, &mut vec![]) {
 			None => false,
 			Some(n) => n != 0,
 		}
 	}
 
-	fn interpret_pp_expr(&self, cond: &PreprocessorExpression) -> Option<PreprocessorValue> {
+	/// Evaluates a [PreprocessorExpression].
+	///
+	/// `expanding` holds the names of the macros that are currently being expanded, none of which is expanded once more.
+	fn interpret_pp_expr(
+		&self,
+		cond: &PreprocessorExpression,
+		expanding: &mut Vec<String>,
+	) -> Option<PreprocessorValue> {
 		match cond {
 			&PreprocessorExpression::IntLiteral(n) => Some(n),
-			PreprocessorExpression::Identifier(name) => {
-				if let Some(rhs) = self.definitions.get(name) {
+			PreprocessorExpression::Identifier(name) => match self.definitions.get(name) {
+				Some(rhs) if !expanding.contains(name) => {
 					// TODO: avoid reparses?
 					let (_, expr) = expression(rhs).ok()?;
-					self.interpret_pp_expr(&expr)
-				} else {
-					None
+					expanding.push(name.clone());
+					let result = self.interpret_pp_expr(&expr, expanding);
+					expanding.pop();
+					result
 				}
-			}
+				_ => None,
+			},
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
-				let l = self.interpret_pp_expr(lhs)?;
-				let r = self.interpret_pp_expr(rhs)?;
+				let l = self.interpret_pp_expr(lhs, expanding)?;
+				let r = self.interpret_pp_expr(rhs, expanding)?;
 
 				Some(match op {
 					PreprocessorBinOp::Or => l | r,
 					PreprocessorBinOp::Xor => l ^ r,
 					PreprocessorBinOp::And => l & r,
-					PreprocessorBinOp::Plus => l + r,
-					PreprocessorBinOp::Minus => l - r,
-					PreprocessorBinOp::Times => l * r,
-					PreprocessorBinOp::Divide => l / r,
-					PreprocessorBinOp::Modulo => l % r,
+					PreprocessorBinOp::Plus => l.wrapping_add(r),
+					PreprocessorBinOp::Minus => l.wrapping_sub(r),
+					PreprocessorBinOp::Times => l.wrapping_mul(r),
+					PreprocessorBinOp::Divide => l.checked_div(r)?,
+					PreprocessorBinOp::Modulo => l.checked_rem(r)?,
 					PreprocessorBinOp::Equals => (l == r) as i64,
 					PreprocessorBinOp::NotEquals => (l != r) as i64,
 					PreprocessorBinOp::LogicalOr => (l != 0 || r != 0) as i64,
@@ -498,11 +507,13 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::LessOrEqual => (l <= r) as i64,
 					PreprocessorBinOp::GreaterThan => (l > r) as i64,
 					PreprocessorBinOp::GreaterOrEqual => (l >= r) as i64,
-					PreprocessorBinOp::BitwiseShiftLeft => l << r,
-					PreprocessorBinOp::BitwiseShiftRight => r >> r,
+					PreprocessorBinOp::BitwiseShiftLeft => l.checked_shl(r.try_into().ok()?)?,
+					PreprocessorBinOp::BitwiseShiftRight => l.checked_shr(r.try_into().ok()?)?,
 				})
 			}
-			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
+			PreprocessorExpression::Not(inner) => {
+				Some(self.interpret_pp_expr(inner, expanding).map_or(true, |n| n == 0) as i64)
+			}
 			PreprocessorExpression::Defined(name) => Some(self.definitions.contains_key(name) as i64),
 		}
 	}
-- 
2.43.0


From 5c6c5a3ed5b88bd2279c537bd900d2d5508bfa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 22/51] fix: do not crash on pragmas, unfinished macros and
 integers of an absurd width

---
 crates/analyzer-core/src/lexer.rs        | 9 ++++-----
 crates/analyzer-core/src/preprocessor.rs | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 9730a40..1561adb 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -296,8 +296,7 @@ impl<'a, 'b> Lexer<'a, 'b> {
 				(_, Some('\\')) => escape = true,
 				(_, Some('\n')) => break,
 				(_, Some(ch)) => rhs.push(ch),
-				(true, None) => todo!("unfinished macro"),
-				(false, None) => break,
+				(_, None) => break,
 			}
 		}
 
@@ -378,16 +377,16 @@ fn parse_width(str: &str) -> Option<((u32, bool), &str)> {
 		static ref WIDTH: Regex = Regex::new("([0-9][0-9]*)([ws])").unwrap();
 	}
 
-	WIDTH.captures(str).map(|caps| {
+	WIDTH.captures(str).and_then(|caps| {
 		let width = caps.get(1).unwrap();
 		let sign = caps.get(2).unwrap();
 
-		let width = width.as_str().parse().unwrap();
+		let width = width.as_str().parse().ok()?;
 		let signed = match sign.as_str() {
 			"w" => false,
 			"s" => true,
 			_ => unreachable!(),
 		};
-		((width, signed), &str[sign.end()..])
+		Some(((width, signed), &str[sign.end()..]))
 	})
 }
diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index eebf65a..fedce23 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -355,7 +355,7 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorDirective::Undef(k) => {
 						self.definitions.remove(&k);
 					}
-					PreprocessorDirective::Pragma(_) => todo!(),
+					PreprocessorDirective::Pragma(_) => (), // None are supported, and unknown pragmas are to be ignored.
 					PreprocessorDirective::Other(name, _) => {
 						self.error(id, span, format!("Unrecognised directive: {name}"))
 					}
-- 
2.43.0


From efe5669bded682bbc7f65aaac6260bef771fb83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 23/51] fix: do not crash when an included path cannot be
 resolved

---
 crates/analyzer-core/src/lib.rs            |  3 ++-
 crates/analyzer-host/src/lsp_impl/state.rs | 11 +++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer-core/src/lib.rs b/crates/analyzer-core/src/lib.rs
index 7ac0d79..9137084 100644
--- a/crates/analyzer-core/src/lib.rs
+++ b/crates/analyzer-core/src/lib.rs
@@ -49,7 +49,8 @@ pub trait Db: salsa::DbWithJar<Jar> {
 // impl<DB> Db for DB where DB: ?Sized + salsa::DbWithJar<Jar> {
 impl Db for Database {
 	fn resolve_path(&self, file_id: FileId, path: &str) -> String {
-		(self.resolver_fn)(&file_id.path(self), path).expect("failed to resolve a path")
+		// If the path cannot be resolved (e.g., relative to an unsaved file), then use it as it is. There will be no such file.
+		(self.resolver_fn)(&file_id.path(self), path).unwrap_or_else(|_| path.into())
 	}
 }
 
diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index 9f18035..453e23b 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -41,16 +41,19 @@ impl AnalyzerWrapper {
 				return Ok(absolute_target_url.as_str().into());
 			}
 
-			let base_url = Url::parse(absolute_base_url).unwrap();
-
-			match base_url.join(path) {
+			match Url::parse(absolute_base_url).and_then(|base_url| base_url.join(path)) {
 				Ok(target_url) => Ok(target_url.as_str().into()),
 				Err(err) => {
 					Err(format!("Could not find path '{}' (relative to '{}'). {}", path, absolute_base_url, err))
 				}
 			}
 		};
-		let require = move |file_path: &str| background_queue.enqueue(Url::parse(file_path).unwrap());
+		let require = move |file_path: &str| {
+			// A path that could not be resolved cannot be loaded either.
+			if let Ok(file_url) = Url::parse(file_path) {
+				background_queue.enqueue(file_url)
+			}
+		};
 
 		Self {
 			inner: RefCell::new(analyzer_core::Analyzer::new(resolve_path, require)),
-- 
2.43.0


From 108a3858fe72f13c07fd9444906a17a2bf163870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 24/51] fix: accept document changes whose range is reversed

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 6caa503..d086e02 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -164,6 +164,8 @@ async fn on_text_document_did_change(
 		.into_iter()
 		.map(|TextDocumentContentChangeEvent { range, text, range_length: _ }| {
 			use analyzer_core::lsp_file as core;
+			// A reversed range is treated like the well formed one, as the reference implementations do.
+			let range = range.map(|Range { start, end }| Range { start: start.min(end), end: start.max(end) });
 			let range = range.map(|Range { start, end }| core::Range {
 				start: core::Position { line: start.line as usize, character: start.character as usize },
 				end: core::Position { line: end.line as usize, character: end.character as usize },
-- 
2.43.0


From 430d36584f8ce791404b3498f29a1c8b172c8854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:24 +0000
Subject: [PATCH 25/51] fix: read and count a message of the BufferStruct in
 one step

---
 .../p4-analyzer/src/driver/buffer_driver.rs   | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/crates/p4-analyzer/src/driver/buffer_driver.rs b/crates/p4-analyzer/src/driver/buffer_driver.rs
index 16e4ef9..fe06d37 100644
--- a/crates/p4-analyzer/src/driver/buffer_driver.rs
+++ b/crates/p4-analyzer/src/driver/buffer_driver.rs
@@ -49,25 +49,20 @@ impl BufferStruct {
 	/// Only the Driver needs this code
 	async fn read_queue(&self) -> io::Result<Option<Message>> {
 		loop {
-			match self.read_queue_count.try_lock() {
-				Ok(mut guard) => {
-					if *guard == 0 || self.data.read().unwrap().input_queue.size() == 0 {
-						drop(guard);
-						async_std::task::sleep(Duration::from_millis(1)).await;
-						continue;
-					} // Not ready to read, so continue looping
-
-					*guard -= 1; // confirm we're doing a Read
-					drop(guard); // drop lock to avoid dead locks
+			{
+				// Counting and reading have to be one step: otherwise clear_message_buffer() could empty the Queue, or
+				// allow_all_read_blocking() count the Message once more, in between. The order of the Locks is that of the latter
+				let mut lock = self.data.write().unwrap();
+				let mut count = self.read_queue_count.lock().unwrap();
 
-					// now wait for data lock because we're been give the all clear
-					let mut lock = self.data.write().unwrap();
+				if *count > 0 && lock.input_queue.size() > 0 {
+					*count -= 1; // confirm we're doing a Read
 
-					let ret = Some(lock.input_queue.remove().unwrap());
-					return Ok(ret);
+					return Ok(Some(lock.input_queue.remove().unwrap()));
 				}
-				Err(_) => async_std::task::sleep(Duration::from_millis(1)).await, // couldn't get lock, so wait
 			}
+
+			async_std::task::sleep(Duration::from_millis(1)).await; // Not ready to read, so continue looping
 		}
 	}
 
-- 
2.43.0


From 9efb337e07322a147157651b32a8a009ad2d65d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:13 +0000
Subject: [PATCH 26/51] fix: list every file of the workspace once in the LSIF
 dump, if it exists

---
 crates/lsif-p4/src/lsif_generator.rs | 13 ++++++++++---
 crates/lsif-p4/src/lsif_writer.rs    |  2 ++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/lsif-p4/src/lsif_generator.rs b/crates/lsif-p4/src/lsif_generator.rs
index ee3b241..52c0342 100644
--- a/crates/lsif-p4/src/lsif_generator.rs
+++ b/crates/lsif-p4/src/lsif_generator.rs
@@ -163,9 +163,16 @@ impl LsifGenerator {
 		// access workspace_manager
 		// write the URLs to file
 		let workspace_manager = self.read_workspace_manager().await;
-		for workspace in workspace_manager.workspaces {
-			for (url, _file) in workspace.1.files.read().unwrap().iter() {
-				self.writer.document(url);
+		for (_, workspace) in &workspace_manager {
+			let urls: Vec<Url> = workspace.files.read().unwrap().keys().cloned().collect();
+
+			for url in urls {
+				// A file of overlapping workspaces is still one document, and one that is only ever included may not exist
+				if !self.data().has_document(&url)
+					&& workspace_manager.get_file(url.clone()).get_parsed_unit().await.is_ok()
+				{
+					self.writer.document(&url);
+				}
 			}
 		}
 	}
diff --git a/crates/lsif-p4/src/lsif_writer.rs b/crates/lsif-p4/src/lsif_writer.rs
index d15787c..d6e0f2e 100644
--- a/crates/lsif-p4/src/lsif_writer.rs
+++ b/crates/lsif-p4/src/lsif_writer.rs
@@ -22,6 +22,8 @@ pub struct LsifData {
 
 impl LsifData {
 	pub fn new() -> Self { LsifData { files: HashMap::new() } }
+
+	pub fn has_document(&self, url: &Url) -> bool { self.files.contains_key(url) }
 }
 
 impl LsifWriter {
-- 
2.43.0


From ff82f4676b77c3008f5d6efd721744539d8462ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:16 +0000
Subject: [PATCH 27/51] fix: do not overflow when a grammar has rules that
 match nothing

---
 crates/analyzer-core/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index b354a1c..e619b89 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -225,7 +225,8 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 		}
 
 		let col = &mut self.memo_table[pos];
-		let examined_length = (self.max_examined_pos - pos as isize + 1) as usize;
+		// nothing has been examined by a rule that is empty
+		let examined_length = (self.max_examined_pos - pos as isize + 1).max(0) as usize;
 		let existing_match = cst.map(|cst| ExistingMatch { cst, match_length: self.pos - pos });
 
 		let entry = MemoTableEntry { existing_match, examined_length };
@@ -237,7 +238,7 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 	fn use_memoized_result(&mut self, rule_name: RuleName) -> Option<Rc<Cst<Token>>> {
 		self.memo_table.get(self.pos).and_then(|col| {
 			col.memo.get(rule_name).and_then(|entry| {
-				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length - 1) as isize);
+				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length) as isize - 1);
 
 				entry.existing_match.clone().map(|m| {
 					self.pos += m.match_length;
-- 
2.43.0


From 8bb83b1971c4a089338b6c67c2d6e81d9c718299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:39 +0000
Subject: [PATCH 28/51] fix: keep the signature of interpret_pp_expr that its
 unit test uses

---
 crates/analyzer-core/src/preprocessor.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index fedce23..1611bad 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -459,16 +459,19 @@ impl<'a> PreprocessorState<'a> {
 
 	/// Interpret a [PreprocessorExpression] and cast it to a boolean.
 	fn interpret_condition(&self, cond: &PreprocessorExpression) -> bool {
-		match self.interpret_pp_expr(cond, &mut vec![]) {
+		match self.interpret_pp_expr(cond) {
 			None => false,
 			Some(n) => n != 0,
 		}
 	}
 
 	/// Evaluates a [PreprocessorExpression].
-	///
+	fn interpret_pp_expr(&self, cond: &PreprocessorExpression) -> Option<PreprocessorValue> {
+		self.interpret_expanding(cond, &mut vec![])
+	}
+
 	/// `expanding` holds the names of the macros that are currently being expanded, none of which is expanded once more.
-	fn interpret_pp_expr(
+	fn interpret_expanding(
 		&self,
 		cond: &PreprocessorExpression,
 		expanding: &mut Vec<String>,
@@ -480,15 +483,15 @@ impl<'a> PreprocessorState<'a> {
 					// TODO: avoid reparses?
 					let (_, expr) = expression(rhs).ok()?;
 					expanding.push(name.clone());
-					let result = self.interpret_pp_expr(&expr, expanding);
+					let result = self.interpret_expanding(&expr, expanding);
 					expanding.pop();
 					result
 				}
 				_ => None,
 			},
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
-				let l = self.interpret_pp_expr(lhs, expanding)?;
-				let r = self.interpret_pp_expr(rhs, expanding)?;
+				let l = self.interpret_expanding(lhs, expanding)?;
+				let r = self.interpret_expanding(rhs, expanding)?;
 
 				Some(match op {
 					PreprocessorBinOp::Or => l | r,
@@ -512,7 +515,7 @@ impl<'a> PreprocessorState<'a> {
 				})
 			}
 			PreprocessorExpression::Not(inner) => {
-				Some(self.interpret_pp_expr(inner, expanding).map_or(true, |n| n == 0) as i64)
+				Some(self.interpret_expanding(inner, expanding).map_or(true, |n| n == 0) as i64)
 			}
 			PreprocessorExpression::Defined(name) => Some(self.definitions.contains_key(name) as i64),
 		}
-- 
2.43.0


From d09df43168794a0aae0770487d757964a8c7a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:39 +0000
Subject: [PATCH 29/51] fix: ignore watched file events of an unknown type

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index d086e02..31efa20 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -281,7 +281,7 @@ async fn on_watched_file_change(
 			FileChangeType::CREATED => created_file(&event.uri, &state).await,
 			FileChangeType::CHANGED => created_file(&event.uri, &state).await, // Does the same
 			FileChangeType::DELETED => deleted_file(&event.uri, &state).await,
-			_ => panic!("Type not supported in 1.17 specification"),
+			_ => error!(file_uri = event.uri.as_str(), "Ignored a file event with an unknown type: {:?}", event.typ),
 		}
 	}
 
-- 
2.43.0


From 58c6369b742eb9df2d6a192c9c692c0d010bb384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:39 +0000
Subject: [PATCH 30/51] fix: ask the client for open and close notifications

---
 crates/analyzer-host/src/lsp_impl/active_uninitialized.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
index a22d4ec..80f68a5 100644
--- a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
@@ -115,6 +115,7 @@ fn create_initialize_result(include_workspace_folders: bool) -> InitializeResult
 	InitializeResult {
 		capabilities: ServerCapabilities {
 			text_document_sync: Some(TextDocumentSyncCapability::Options(TextDocumentSyncOptions {
+				open_close: Some(true), // Otherwise, clients need not report which documents are open.
 				save: Some(TextDocumentSyncSaveOptions::SaveOptions(SaveOptions {
 					// FIXME: temporary solution
 					include_text: Some(true),
-- 
2.43.0


From c6690d8659ecbc90742042e644b1645f25907e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:39 +0000
Subject: [PATCH 31/51] fix: relay every message that a chunk from stdin
 completes

---
 packages/p4-analyzer/src/server/index.ts | 30 ++++++++++++++++--------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/packages/p4-analyzer/src/server/index.ts b/packages/p4-analyzer/src/server/index.ts
index 8708962..2b6e43e 100644
--- a/packages/p4-analyzer/src/server/index.ts
+++ b/packages/p4-analyzer/src/server/index.ts
@@ -77,32 +77,42 @@ export default class {
 			this.requestBuffer = Buffer.concat([this.requestBuffer, Buffer.alloc(BUFFER_CHUNK_SIZEBYTES * (Math.floor(chunk.byteLength / BUFFER_CHUNK_SIZEBYTES) + 1))]);
 		}
 
-		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset, chunk.byteOffset, chunk.byteLength);
+		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset);
 
-		const splitOffset = this.requestBuffer.indexOf(BODY_SPLIT_CHARS);
+		while (this.readRequestMessageBuffer()); // The chunk may complete any number of messages.
+	}
 
-		if (splitOffset < 0) return; // Still reading the headers. Continue until we get them.
+	/**
+	 * Reads a message out of the _running_ buffer, and queues it for processing.
+	 *
+	 * @returns `true` if a message was read, or `false` if more data has to be received first.
+	 */
+	private readRequestMessageBuffer(): boolean {
+		const received = this.requestBuffer.subarray(0, this.requestBufferOffset);
+		const splitOffset = received.indexOf(BODY_SPLIT_CHARS);
 
-		const headers = this.requestBuffer.subarray(0, splitOffset).toString();
+		if (splitOffset < 0) return false; // Still reading the headers. Continue until we get them.
+
+		const headers = received.subarray(0, splitOffset).toString();
 		const contentLength = Number(CONTENTLENGTH_HEADER_EXP.exec(headers)?.groups["length"]);
 
 		if (isNaN(contentLength)) throw new Error("Received malformed message. 'Content-Length' header is missing.");
 
 		const minRequiredOffset = splitOffset + BODY_SPLIT_CHARS.length + contentLength;
 
-		if (this.requestBufferOffset < minRequiredOffset) return; // Still reading the expected body. Continue until we get it.
+		if (this.requestBufferOffset < minRequiredOffset) return false; // Still reading the expected body. Continue until we get it.
 
-		// We have now received at least one full message. Pull it out and reset the request buffer to continue reading
-		// the next one.
+		// We have now received at least one full message. Pull it out and keep what follows it for the next one.
 		const requestMessageBuffer = Buffer.alloc(contentLength);
 
-		this.requestBuffer.copy(requestMessageBuffer, 0, splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset);
-		this.requestBuffer.copy(this.requestBuffer, 0, minRequiredOffset);
-		this.requestBufferOffset = 0;
+		received.copy(requestMessageBuffer, 0, splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset);
+		this.requestBufferOffset = received.copy(this.requestBuffer, 0, minRequiredOffset);
 
 		this.requestMessageBufferQueue.push(requestMessageBuffer);
 
 		setImmediate(this.sendRequestMessageBuffer.bind(this)); // Queue the request message buffer for processing.
+
+		return true;
 	}
 
 	/**
-- 
2.43.0


From eb25ee82d9835ab0284556437bccad9b5b58479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:45 +0000
Subject: [PATCH 32/51] fix: enumerate only the requested folder in the VS Code
 extension

---
 packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts b/packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts
index 6acb5bf..c5c1a71 100644
--- a/packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts
+++ b/packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts
@@ -24,7 +24,7 @@ function setP4AnalyzerHandlers(this: BaseLanguageClient): void {
 
 		if (!folder) throw new Error(`Invalid or unknown workspace ('${uri.toString()}')`);
 
-		const files = await workspace.findFiles(new RelativePattern(folder, params.filePattern).pattern);
+		const files = await workspace.findFiles(new RelativePattern(folder, params.filePattern));
 
 		return files.map(file => TextDocumentIdentifier.create(file.toString()));
 	});
-- 
2.43.0


From 834f421a26f307965db00b61268f157a87985a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:10 +0000
Subject: [PATCH 33/51] fix: read >= and <= in preprocessor conditions

The alternatives of an operator were tried from the last one to the first, so
that ">" took the first character of ">=" and the rest was no expression.
---
 crates/analyzer-core/src/preprocessor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 1611bad..5dbd67c 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -120,7 +120,8 @@ mod parser {
 		use std::rc::Rc;
 		let lhs = lhs.clone();
 		let mut f: Rc<dyn Fn(&'a str) -> IResult<&'a str, PreprocessorBinOp>> = Rc::new(fail);
-		for (sym, op) in variants {
+		// Every variant is tried before the ones that were added so far.
+		for (sym, op) in variants.iter().rev() {
 			let sym: &'static str = sym;
 			let op = op.clone();
 			f = Rc::new(move |s| {
-- 
2.43.0


From e952e8c160cf1a8f38cb1a1dd5558984bac97ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:10 +0000
Subject: [PATCH 34/51] fix: take names that are no macros as 0 in preprocessor
 conditions

A condition that had such a name anywhere was false as a whole, `#if X == 0` or
`#if !defined(X) || X < 3` included.
---
 crates/analyzer-core/src/preprocessor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 5dbd67c..a35897d 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -488,7 +488,8 @@ impl<'a> PreprocessorState<'a> {
 					expanding.pop();
 					result
 				}
-				_ => None,
+				// As in C, any identifier that is left after the expansion stands for 0.
+				_ => Some(0),
 			},
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
 				let l = self.interpret_expanding(lhs, expanding)?;
-- 
2.43.0


From 2ae25abcbfe332678d2c1e1b6482dccb9899c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:10 +0000
Subject: [PATCH 35/51] fix: parse negations and defined (X) in preprocessor
 conditions

The evaluation knew about negations, the parser did not, which made any
directive with one an error token and its branches unconditional.
---
 crates/analyzer-core/src/preprocessor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index a35897d..0dedd54 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -107,7 +107,7 @@ mod parser {
 
 	fn defined(input: &str) -> IResult<&str, &str> {
 		alt((
-			delimited(tag("defined("), ws(identifier), tag(")")),
+			delimited(tuple((tag("defined"), multispace0, tag("("))), ws(identifier), tag(")")),
 			preceded(tuple((tag("defined"), multispace1)), identifier),
 		))(input)
 	}
@@ -143,6 +143,7 @@ mod parser {
 		use PreprocessorExpression::*;
 		alt((
 			delimited(tag("("), exp12, tag(")")),
+			map(preceded(pair(char('!'), multispace0), factor), |expr| Not(expr.into())),
 			map(terminated(defined, multispace0), |ident| Defined(ident.to_string())),
 			map(terminated(identifier, multispace0), |ident| Identifier(ident.to_string())),
 			map(terminated(integer, multispace0), IntLiteral),
-- 
2.43.0


From 3c6438e50fe6a85173677b8b9783b59b1713b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:10 +0000
Subject: [PATCH 36/51] fix: join the lines of a continued directive

The escaped line break stayed in the argument, which ended the macro of a
#define there. An escaped "\r\n" ended the directive.
---
 crates/analyzer-core/src/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 1561adb..663079b 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -334,6 +334,9 @@ impl<'a, 'b> Lexer<'a, 'b> {
 			}) {
 				Some('\\') if !escape => escape = true,
 				Some('\n') if !escape => break,
+				Some('\n') => escape = false,
+				// the line break may be a "\r\n"
+				Some('\r') if escape && iter.as_str().starts_with('\n') => (),
 				Some(char) => {
 					buf.push(char);
 					escape = false
-- 
2.43.0


From a474dcde26dd55aa5aab6648817b1044bc097d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:10 +0000
Subject: [PATCH 37/51] fix: report a recursive import when a file begins by
 including itself

The state of the file being preprocessed was unknown until another file had been
seen, so that it was included once more.
---
 crates/analyzer-core/src/preprocessor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 0dedd54..ef44344 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -280,6 +280,10 @@ impl<'a> PreprocessorState<'a> {
 		let mut result: Vec<(FileId, Token, Span)> = vec![];
 		let mut previous_file = None;
 
+		if let Some((root, _, _)) = input.front() {
+			self.state.insert(*root, VertexState::Open);
+		}
+
 		while let Some((id, tk, span)) = input.pop_front() {
 			if let Some(file) = previous_file {
 				if file != id {
-- 
2.43.0


From dffc1b7cb092ee5998642b5c7f951f49f4fedb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 38/51] fix: resolve the path of an include relative to the
 file it is in

Paths in an included file were looked up relative to the file that is being
preprocessed, so that files of another folder did not find their neighbours.
---
 crates/analyzer-core/src/lib.rs          | 10 +++++-----
 crates/analyzer-core/src/preprocessor.rs | 16 ++++++++++++++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer-core/src/lib.rs b/crates/analyzer-core/src/lib.rs
index 9137084..c4cbfde 100644
--- a/crates/analyzer-core/src/lib.rs
+++ b/crates/analyzer-core/src/lib.rs
@@ -242,11 +242,11 @@ pub fn lex(db: &dyn crate::Db, file_id: FileId, buf: Buffer) -> LexedBuffer {
 
 #[salsa::tracked(return_ref)]
 pub fn preprocess(db: &dyn crate::Db, fs: Fs, file_id: FileId) -> Option<Vec<(FileId, Token, Span)>> {
-	let mut pp = PreprocessorState::new(
-		|path: &str| {
-			// Return a `FileId` with an absolute path resolved relative to the file being preprocessed. If the path
-			// is already absolute then `resolve_path` will return it as is.
-			FileId::new(db, db.resolve_path(file_id, path))
+	let mut pp = PreprocessorState::with_relative_paths(
+		|including_id, path: &str| {
+			// Return a `FileId` with an absolute path resolved relative to the file that has the include directive. If the
+			// path is already absolute then `resolve_path` will return it as is.
+			FileId::new(db, db.resolve_path(including_id, path))
 		},
 		|file_id| {
 			let lexemes = fs.fs(db).get(&file_id).map(|&buf| {
diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index ef44344..759fcae 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -247,7 +247,8 @@ pub struct PreprocessorState<'a> {
 	/// This will contain the opening #if's and #ifdef's, popped when reaching #endif.
 	conditional_stack: Vec<(ResolvedToken, Vec<ResolvedToken>, bool)>,
 	lex: Box<LexFn<'a>>,
-	to_id: Box<dyn FnMut(&str) -> FileId + 'a>,
+	/// Maps a path to the file that it denotes when it is used in the given file.
+	to_id: Box<dyn FnMut(FileId, &str) -> FileId + 'a>,
 }
 
 type LexFn<'a> = dyn FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a;
@@ -260,6 +261,17 @@ enum VertexState {
 
 impl<'a> PreprocessorState<'a> {
 	pub fn new<Idlyzer: FnMut(&str) -> FileId + 'a, FLex: FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a>(
+		mut to_id: Idlyzer,
+		lex: FLex,
+	) -> PreprocessorState<'a> {
+		Self::with_relative_paths(move |_, path| to_id(path), lex)
+	}
+
+	/// Like [PreprocessorState::new], but `to_id` is also given the file in which a path was found.
+	pub fn with_relative_paths<
+		Idlyzer: FnMut(FileId, &str) -> FileId + 'a,
+		FLex: FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a,
+	>(
 		to_id: Idlyzer,
 		lex: FLex,
 	) -> PreprocessorState<'a> {
@@ -297,7 +309,7 @@ impl<'a> PreprocessorState<'a> {
 						let recursive_err = format!("Recursive import of {path}");
 						let not_found_err = format!("Could not find {path}");
 
-						let file_id = (self.to_id)(&path); // TODO: path resolution here or in to_id
+						let file_id = (self.to_id)(id, &path);
 						if self.state.get(&file_id).is_some() {
 							self.error(id, span, recursive_err);
 						} else if let Some(tokens) = (self.lex)(file_id) as Option<&Vec<(Token, Span)>> {
-- 
2.43.0


From 96f4dfbb961b4bcf77b67b35c2de3f7407a43352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 39/51] fix: read the output of git describe, so that a tag on
 HEAD gives the version

---
 tools/src/version.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/version.ts b/tools/src/version.ts
index 30fe3bb..9db4052 100644
--- a/tools/src/version.ts
+++ b/tools/src/version.ts
@@ -18,7 +18,7 @@ interface Options {
  */
 export function getCurrentTag(): string | undefined {
   try {
-    return execSync(`git describe --exact-match HEAD`, { stdio: "ignore" }).toString().trim()
+    return execSync(`git describe --exact-match HEAD`, { stdio: ["ignore", "pipe", "ignore"] }).toString().trim()
   }
   catch(err) {
     return undefined;
-- 
2.43.0


From 3bd643f9ed39d15ef232997dad2df4e135190558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 40/51] fix: pass the local option on to the computation of the
 version

---
 tools/src/version.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/version.ts b/tools/src/version.ts
index 9db4052..9c2a0d6 100644
--- a/tools/src/version.ts
+++ b/tools/src/version.ts
@@ -107,7 +107,7 @@ export function getVersion(context: ExecutorContext, local: boolean = false): st
  * workspace.
  */
 export default async function versionPackagesExecutor(options: Options, context: ExecutorContext) {
-	const version = getVersion(context);
+	const version = getVersion(context, options.local);
 	const projectRoot = join(
 		context.root,
 		context.workspace.projects[context.projectName].root);
-- 
2.43.0


From b4fd6b6e3fb2e9fa3fa95e178c0c4fc73219e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 41/51] fix: quote the path of version.json for git

---
 tools/src/version.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/version.ts b/tools/src/version.ts
index 9c2a0d6..62a64c9 100644
--- a/tools/src/version.ts
+++ b/tools/src/version.ts
@@ -34,7 +34,7 @@ export function getCurrentTag(): string | undefined {
 export function getLatestCommit(filePath?: string): string {
   try {
     return filePath
-      ? execSync(`git log --format=%h -1 -- ${filePath}`).toString().trim()
+      ? execSync(`git log --format=%h -1 -- "${filePath}"`).toString().trim()
       : execSync("git log --format=%h -1").toString().trim()
   }
   catch(err) {
-- 
2.43.0


From 877b1b581176d36c45d2c193a099f281bbbcf24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 42/51] fix: report a manifest that cannot be updated instead
 of throwing from the callback

---
 tools/src/tomlUtils.ts | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tools/src/tomlUtils.ts b/tools/src/tomlUtils.ts
index 63e4a51..fc1ae31 100644
--- a/tools/src/tomlUtils.ts
+++ b/tools/src/tomlUtils.ts
@@ -6,15 +6,20 @@ export function writeTomlManifest(filePath: string, version: string): Promise<vo
 		readFile(filePath, "utf8", (err, data) => {
 			if (err) return reject(err);
 
-			const toml = parse(data.toString());
+			try {
+				const toml = parse(data.toString());
 
-			toml["package"]["version"] = version;
+				toml["package"]["version"] = version;
 
-			writeFile(filePath, stringify(toml), "utf8", (err) => {
-				if (err) return reject(err);
+				writeFile(filePath, stringify(toml), "utf8", (err) => {
+					if (err) return reject(err);
 
-				resolve();
-			});
+					resolve();
+				});
+			}
+			catch (err) {
+				reject(err);
+			}
 		});
 	});
 }
-- 
2.43.0


From 1dfc9dc94c54c88bfcf6ea8b73759eb98d006f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:22 +0000
Subject: [PATCH 43/51] fix: start the server when the log file can't be
 written

---
 crates/p4-analyzer/src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/p4-analyzer/src/main.rs b/crates/p4-analyzer/src/main.rs
index 7046615..7996f0e 100644
--- a/crates/p4-analyzer/src/main.rs
+++ b/crates/p4-analyzer/src/main.rs
@@ -16,16 +16,14 @@ use commands::{lsp_server::LspServerCommand, Command, CommandInvocationError};
 use driver::DriverType;
 use std::{
 	env::current_exe,
-	fs, process,
+	fs::{self, OpenOptions},
+	process,
 	sync::{
 		atomic::{AtomicU8, Ordering},
 		Arc,
 	},
 };
-use tracing_appender::{
-	non_blocking::WorkerGuard,
-	rolling::{RollingFileAppender, Rotation},
-};
+use tracing_appender::non_blocking::WorkerGuard;
 
 /// Entry point for the P4 Analyzer.
 #[tokio::main]
@@ -75,7 +73,9 @@ where
 
 	match fs::metadata(logpath) {
 		Ok(ref pathinfo) if pathinfo.is_dir() => {
-			let file_writer = RollingFileAppender::new(Rotation::NEVER, logpath, format!("{}.log", get_logfile_stem()));
+			// A log file that can't be written is no reason not to start.
+			let log_file = logpath.join(format!("{}.log", get_logfile_stem()));
+			let file_writer = OpenOptions::new().append(true).create(true).open(log_file).ok()?;
 			let (non_blocking, guard) = tracing_appender::non_blocking(file_writer);
 			let layer = layer().with_writer(non_blocking.with_max_level(loglevel)).boxed();
 
-- 
2.43.0


From 3aa53a23e6a9ac03f4ec60229b3e859cc42c858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:00 +0000
Subject: [PATCH 44/51] fix: folders whose names match the file pattern were
 enumerated as files

---
 crates/p4-analyzer/src/native_fs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/p4-analyzer/src/native_fs.rs b/crates/p4-analyzer/src/native_fs.rs
index 2fe492b..41b880c 100644
--- a/crates/p4-analyzer/src/native_fs.rs
+++ b/crates/p4-analyzer/src/native_fs.rs
@@ -34,7 +34,10 @@ pub mod native_fs {
 
 				for files in glob(glob_pattern.to_str().unwrap()).expect("Failed to read glob pattern") {
 					match files {
-						Ok(path) => output.push(TextDocumentIdentifier { uri: Url::from_file_path(path).unwrap() }),
+						Ok(path) if path.is_file() => {
+							output.push(TextDocumentIdentifier { uri: Url::from_file_path(path).unwrap() })
+						}
+						Ok(_) => {} // The name of a folder may match the pattern, too.
 						Err(e) => error!("{:?}", e), // Never write to stdout: it belongs to the LSP client.
 					}
 				}
-- 
2.43.0


From 6c158570b7d20978992348993b28a50d2dd637f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:52 +0000
Subject: [PATCH 45/51] fix: comments within preprocessor directives were taken
 as a part of them

---
 crates/analyzer-core/src/lexer.rs | 68 +++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 18 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 663079b..5f60d57 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -177,9 +177,10 @@ impl<'a, 'b> Lexer<'a, 'b> {
 
 		let str = self.0.slice();
 		let caps = DIRECTIVE.captures(str)?;
-		let arg = self.read_line_with_newline_escapes(self.0.remainder());
+		let name = caps.get(1)?.as_str();
+		let arg = self.read_line_with_newline_escapes(self.0.remainder(), name == "include");
 
-		let directive = match caps.get(1)?.as_str() {
+		let directive = match name {
 			"include" => {
 				let (quotation_style, path) = self.parse_include(arg)?;
 				PreprocessorDirective::Include(quotation_style, path)
@@ -320,29 +321,60 @@ impl<'a, 'b> Lexer<'a, 'b> {
 		}
 	}
 
-	/** Read characters until and excluding the next newline, processing newline escapes.
+	/** Read characters until and excluding the next newline, processing newline escapes and comments.
 	 * Escaped non-newline characters (e.g. "\k") are added to the result verbatim, but such backslashes are not.
+	 * Every comment is replaced by a space; block comments may extend over several lines.
+	 * There are no comments between double quotes, or between angle brackets if `angle_brackets` is set.
 	 */
-	fn read_line_with_newline_escapes(&mut self, s: &str) -> String {
+	fn read_line_with_newline_escapes(&mut self, s: &str, angle_brackets: bool) -> String {
 		let mut iter = s.chars();
 		let mut buf = String::new();
 		let mut escape = false;
-		loop {
-			match iter.next().map(|ch| {
-				self.0.bump(ch.len_utf8());
-				ch
-			}) {
-				Some('\\') if !escape => escape = true,
-				Some('\n') if !escape => break,
-				Some('\n') => escape = false,
-				// the line break may be a "\r\n"
-				Some('\r') if escape && iter.as_str().starts_with('\n') => (),
-				Some(char) => {
-					buf.push(char);
-					escape = false
+		// The character that ends the quotation, if any.
+		let mut quotation = None;
+		// The second character of the start of the comment, if any.
+		let mut comment = None;
+		let mut previous = None;
+		while let Some(ch) = iter.next() {
+			self.0.bump(ch.len_utf8());
+			match ch {
+				'\\' if !escape => {
+					escape = true;
+					continue;
+				}
+				'\n' if escape => {
+					escape = false;
+					continue;
 				}
-				None => break,
+				// the line break may be a "\r\n"
+				'\r' if escape && iter.as_str().starts_with('\n') => continue,
+				'\n' if comment != Some('*') => break,
+				_ => escape = false,
 			}
+
+			previous = match (comment, ch) {
+				(Some('*'), '/') if previous == Some('*') => {
+					comment = None;
+					buf.push(' ');
+					None
+				}
+				(None, '/' | '*') if previous == Some('/') && quotation.is_none() => {
+					comment = Some(ch);
+					buf.pop();
+					None
+				}
+				(None, _) => {
+					match (quotation, ch) {
+						(Some(end), _) if ch == end => quotation = None,
+						(None, '"') => quotation = Some('"'),
+						(None, '<') if angle_brackets => quotation = Some('>'),
+						_ => (),
+					}
+					buf.push(ch);
+					Some(ch)
+				}
+				(Some(_), _) => Some(ch),
+			};
 		}
 		buf
 	}
-- 
2.43.0


From 08e2d47576c501fec9eefb2673271be9c52a30f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:52 +0000
Subject: [PATCH 46/51] fix: preprocessor conditions depended on operands of &&
 and || that are not to be evaluated

---
 crates/analyzer-core/src/preprocessor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 759fcae..ddcc943 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -510,6 +510,14 @@ impl<'a> PreprocessorState<'a> {
 			},
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
 				let l = self.interpret_expanding(lhs, expanding)?;
+
+				// The other operand does not matter, and there may be no value for it.
+				match op {
+					PreprocessorBinOp::LogicalOr if l != 0 => return Some(1),
+					PreprocessorBinOp::LogicalAnd if l == 0 => return Some(0),
+					_ => (),
+				}
+
 				let r = self.interpret_expanding(rhs, expanding)?;
 
 				Some(match op {
-- 
2.43.0


From b779fc008c3441732d7124f8130514620e49a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:52 +0000
Subject: [PATCH 47/51] fix: preprocessor conditions with a sign or a ~ were
 not taken as conditions

---
 crates/analyzer-core/src/preprocessor.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index ddcc943..9003575 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -139,11 +139,23 @@ mod parser {
 		}
 	}
 
+	/// Subtracting from 0 negates a number, and subtracting from -1 inverts its bits.
+	fn negation(minuend: PreprocessorValue, expr: PreprocessorExpression) -> PreprocessorExpression {
+		PreprocessorExpression::BinOp(
+			PreprocessorBinOp::Minus,
+			PreprocessorExpression::IntLiteral(minuend).into(),
+			expr.into(),
+		)
+	}
+
 	pub(super) fn factor(input: &str) -> IResult<&str, PreprocessorExpression> {
 		use PreprocessorExpression::*;
 		alt((
 			delimited(tag("("), exp12, tag(")")),
 			map(preceded(pair(char('!'), multispace0), factor), |expr| Not(expr.into())),
+			map(preceded(pair(char('-'), multispace0), factor), |expr| negation(0, expr)),
+			map(preceded(pair(char('~'), multispace0), factor), |expr| negation(-1, expr)),
+			preceded(pair(char('+'), multispace0), factor),
 			map(terminated(defined, multispace0), |ident| Defined(ident.to_string())),
 			map(terminated(identifier, multispace0), |ident| Identifier(ident.to_string())),
 			map(terminated(integer, multispace0), IntLiteral),
-- 
2.43.0


From 137dffeda7d9605ffd149e2c7e9d67d399dff71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:12 +0000
Subject: [PATCH 48/51] fix: #ifdef and #ifndef were no conditions, so that
 both branches were taken

---
 crates/analyzer-core/src/lexer.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 5f60d57..f79fbcf 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -189,6 +189,11 @@ impl<'a, 'b> Lexer<'a, 'b> {
 				let expr = parse_pp_expression(arg)?;
 				PreprocessorDirective::If(expr)
 			}
+			"ifdef" => PreprocessorDirective::If(PreprocessorExpression::Defined(single_word(&arg)?)),
+			"ifndef" => {
+				let defined = PreprocessorExpression::Defined(single_word(&arg)?);
+				PreprocessorDirective::If(PreprocessorExpression::Not(defined.into()))
+			}
 			"elif" => {
 				let expr = parse_pp_expression(arg)?;
 				PreprocessorDirective::ElseIf(expr)
@@ -199,13 +204,7 @@ impl<'a, 'b> Lexer<'a, 'b> {
 				let (symbol, rhs) = self.parse_define(arg)?;
 				PreprocessorDirective::Define(symbol, rhs)
 			}
-			"undef" => {
-				let words: Vec<_> = arg.trim().split_ascii_whitespace().collect();
-				if words.len() != 1 {
-					return None;
-				}
-				PreprocessorDirective::Undef(words[0].to_string())
-			}
+			"undef" => PreprocessorDirective::Undef(single_word(&arg)?),
 			"pragma" => PreprocessorDirective::Pragma(arg.chars().skip_while(|ch| ch.is_ascii_whitespace()).collect()),
 			directive => PreprocessorDirective::Other(directive.to_string(), arg),
 		};
@@ -389,6 +388,12 @@ impl<'a, 'b> Lexer<'a, 'b> {
 	}
 }
 
+fn single_word(arg: &str) -> Option<String> {
+	let mut words = arg.split_ascii_whitespace();
+	let word = words.next()?;
+	words.next().is_none().then(|| word.to_string())
+}
+
 fn parse_base(str: &str) -> Option<(u8, &str)> {
 	lazy_static! {
 		static ref BASE: Regex = Regex::new("0([bBdDoOxX])").unwrap();
-- 
2.43.0


From ed723ebd7781320667a8fcae179298351bd11f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:21 +0000
Subject: [PATCH 49/51] fix: preprocessor conditions of absurd size crashed the
 server or kept it busy for ever

---
 crates/analyzer-core/src/preprocessor.rs | 71 ++++++++++++++++++++----
 1 file changed, 61 insertions(+), 10 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 9003575..ce42881 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -236,8 +236,40 @@ mod parser {
 	pub fn expression(input: &str) -> IResult<&str, PreprocessorExpression> { complete(ws(exp12))(input) }
 }
 
+/// How deep parentheses in a condition can be nested.
+const MAX_NESTING: usize = 100;
+/// How many characters of a condition can be part of an operator.
+const MAX_OPERATORS: usize = 500;
+/// How many characters there can be in macros that are being expanded at the same time.
+const MAX_EXPANDING: usize = 4000;
+/// How many macros can be expanded to evaluate a condition.
+const MAX_EXPANSIONS: usize = 20_000;
+
+/// Parsing and evaluating an expression takes space on the stack for each of its levels, so these have to be limited.
+fn is_within_limits(expr: &str) -> bool {
+	let (mut nesting, mut operators) = (0usize, 0);
+
+	for ch in expr.chars() {
+		match ch {
+			'(' => nesting += 1,
+			')' => nesting = nesting.saturating_sub(1),
+			'*' | '/' | '%' | '+' | '-' | '<' | '>' | '=' | '!' | '&' | '^' | '|' | '~' => operators += 1,
+			_ => (),
+		}
+		if nesting > MAX_NESTING || operators > MAX_OPERATORS {
+			return false;
+		}
+	}
+
+	true
+}
+
 // TODO: is taking ownership necessary?
 pub fn parse_pp_expression(buf: String) -> Option<PreprocessorExpression> {
+	if !is_within_limits(&buf) {
+		return None;
+	}
+
 	match parser::expression(&buf) {
 		Ok((_, expr)) => Some(expr),
 		Err(e) => {
@@ -249,6 +281,17 @@ pub fn parse_pp_expression(buf: String) -> Option<PreprocessorExpression> {
 
 pub type ResolvedToken = (FileId, PreprocessorDirective, Span);
 
+/// The macros that are expanded to evaluate a condition.
+#[derive(Default)]
+struct Expansion {
+	/// The names of the ones that are currently being expanded, none of which is expanded once more.
+	names: Vec<String>,
+	/// The number of characters in these.
+	length: usize,
+	/// How many have been expanded so far.
+	count: usize,
+}
+
 // TODO: paths of FileId's? Also maybe it's better to work with (FileId, Span)
 // necessary for "included from"
 pub struct PreprocessorState<'a> {
@@ -497,31 +540,39 @@ impl<'a> PreprocessorState<'a> {
 
 	/// Evaluates a [PreprocessorExpression].
 	fn interpret_pp_expr(&self, cond: &PreprocessorExpression) -> Option<PreprocessorValue> {
-		self.interpret_expanding(cond, &mut vec![])
+		self.interpret_expanding(cond, &mut Expansion::default())
 	}
 
-	/// `expanding` holds the names of the macros that are currently being expanded, none of which is expanded once more.
 	fn interpret_expanding(
 		&self,
 		cond: &PreprocessorExpression,
-		expanding: &mut Vec<String>,
+		expansion: &mut Expansion,
 	) -> Option<PreprocessorValue> {
 		match cond {
 			&PreprocessorExpression::IntLiteral(n) => Some(n),
 			PreprocessorExpression::Identifier(name) => match self.definitions.get(name) {
-				Some(rhs) if !expanding.contains(name) => {
+				Some(rhs) if !expansion.names.contains(name) => {
+					expansion.count += 1;
+					if expansion.count > MAX_EXPANSIONS
+						|| expansion.length + rhs.len() > MAX_EXPANDING
+						|| !is_within_limits(rhs)
+					{
+						return None;
+					}
 					// TODO: avoid reparses?
 					let (_, expr) = expression(rhs).ok()?;
-					expanding.push(name.clone());
-					let result = self.interpret_expanding(&expr, expanding);
-					expanding.pop();
+					expansion.names.push(name.clone());
+					expansion.length += rhs.len();
+					let result = self.interpret_expanding(&expr, expansion);
+					expansion.length -= rhs.len();
+					expansion.names.pop();
 					result
 				}
 				// As in C, any identifier that is left after the expansion stands for 0.
 				_ => Some(0),
 			},
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
-				let l = self.interpret_expanding(lhs, expanding)?;
+				let l = self.interpret_expanding(lhs, expansion)?;
 
 				// The other operand does not matter, and there may be no value for it.
 				match op {
@@ -530,7 +581,7 @@ impl<'a> PreprocessorState<'a> {
 					_ => (),
 				}
 
-				let r = self.interpret_expanding(rhs, expanding)?;
+				let r = self.interpret_expanding(rhs, expansion)?;
 
 				Some(match op {
 					PreprocessorBinOp::Or => l | r,
@@ -554,7 +605,7 @@ impl<'a> PreprocessorState<'a> {
 				})
 			}
 			PreprocessorExpression::Not(inner) => {
-				Some(self.interpret_expanding(inner, expanding).map_or(true, |n| n == 0) as i64)
+				Some(self.interpret_expanding(inner, expansion).map_or(true, |n| n == 0) as i64)
 			}
 			PreprocessorExpression::Defined(name) => Some(self.definitions.contains_key(name) as i64),
 		}
-- 
2.43.0


From 0b06fef358fc964b4951e160ac5ba455cde141d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:59 +0000
Subject: [PATCH 50/51] fix: the line about a cancelled command was written to
 the output of the protocol

---
 crates/p4-analyzer/src/main.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/p4-analyzer/src/main.rs b/crates/p4-analyzer/src/main.rs
index 7996f0e..adbe082 100644
--- a/crates/p4-analyzer/src/main.rs
+++ b/crates/p4-analyzer/src/main.rs
@@ -133,10 +133,8 @@ impl<C: Command> RunnableCommand<C> {
 
 		match cmd.run(cancellation_token).await {
 			Ok(_) => {}
-			Err(err) => match err {
-				CommandInvocationError::Cancelled => println!("{}", err),
-				_ => eprintln!("{}", err),
-			},
+			// The standard output is reserved for what the command itself has to write to it.
+			Err(err) => eprintln!("{}", err),
 		};
 	}
 
-- 
2.43.0


From 7a555814cf64eec22a6e4d5fd4597094d582b60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:59 +0000
Subject: [PATCH 51/51] fix: a failing git made the release tooling count no
 commits

---
 tools/src/version.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/version.ts b/tools/src/version.ts
index 62a64c9..7cb7edd 100644
--- a/tools/src/version.ts
+++ b/tools/src/version.ts
@@ -92,7 +92,7 @@ export function getVersion(context: ExecutorContext, local: boolean = false): st
   const currentBranchName = getCurrentBranch();
 
   if(versionInfo.releaseBranches.find((releaseBranch) => currentBranchName.startsWith(releaseBranch)) && !local) {
-    const gitHeight = Number((execSync(`git log --format=%h ${versionFileCommit}.. | wc -l`)).toString().trim()) + 1;
+    const gitHeight = Number((execSync(`git rev-list --count ${versionFileCommit}..`)).toString().trim()) + 1;
 
     return `${versionInfo.version}.${gitHeight}`;
   }
-- 
2.43.0

