From fc3664e12251424a1d636209b11bce35fe5d03f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 01/19] fix: don't run the dependents of a task that failed in
 an earlier execute() call

A task that failed is in 'completed', so a later execute() call dropped it
from the graph, together with its outgoing edges, and its dependents became
runnable.
---
 src/execgraph.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 6cb05a5..a27e33a 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -491,13 +491,35 @@ fn get_subgraph<'a, 'b: 'a>(
         None => deps.filter_map(|_n, w| Some(w), |_e, _w| Some(())),
     };
 
+    let already_run = |w: &Cmd| completed.contains(&w.key);
+    let has_success = |w: &Cmd| logfile.has_success(&w.key);
+
+    // A task that ran in an earlier call to execute() without succeeding isn't run again, so
+    // nothing that is waiting for it can be run either.
+    let mut unreachable = HashSet::new();
+    for n in petgraph::algo::toposort(&subgraph, None).map_err(|_| anyhow!("Graph has a cycle"))? {
+        let w = subgraph[n];
+        let blocked = if has_success(w) {
+            false
+        } else if already_run(w) {
+            true
+        } else {
+            subgraph
+                .neighbors_directed(n, Direction::Incoming)
+                .any(|parent| unreachable.contains(&parent))
+        };
+        if blocked {
+            unreachable.insert(n);
+        }
+    }
+
     let mut reused_old_keys = HashSet::new();
 
     // Now let's remove all edges from the dependency graph if the source has already finished
     // or if we've already exeuted the task in a previous call to execute
     let mut filtered_subgraph = subgraph.filter_map(
-        |_n, &w| {
-            if completed.contains(&w.key) {
+        |n, &w| {
+            if already_run(w) {
                 // if we already ran this command within this process, don't record it
                 // in reused_old_keys. that's only for stuff that was run in a previous
                 // session
@@ -507,7 +529,7 @@ fn get_subgraph<'a, 'b: 'a>(
                 );
                 return None; // returning none excludes it from filtered_subgraph
             }
-            if logfile.has_success(&w.key) {
+            if has_success(w) {
                 trace!(
                     "Skipping {} because it already ran successfully accord to the log file",
                     w.key
@@ -516,6 +538,14 @@ fn get_subgraph<'a, 'b: 'a>(
                 return None;
             }
 
+            if unreachable.contains(&n) {
+                trace!(
+                    "Skipping {} because it's downstream of a task that failed within this session",
+                    w.key
+                );
+                return None;
+            }
+
             trace!("Retaining {} because it has not been run before", w.key);
             Some(w)
         },
-- 
2.43.0


From 59759e70c185861d271027239d8835d926a5e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 02/19] fix: never skip a task whose key is empty

add_task documents that such a task is always considered out of date.
---
 src/execgraph.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index a27e33a..429ba88 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -491,8 +491,9 @@ fn get_subgraph<'a, 'b: 'a>(
         None => deps.filter_map(|_n, w| Some(w), |_e, _w| Some(())),
     };
 
-    let already_run = |w: &Cmd| completed.contains(&w.key);
-    let has_success = |w: &Cmd| logfile.has_success(&w.key);
+    // Tasks with an empty key are always considered out of date.
+    let already_run = |w: &Cmd| !w.key.is_empty() && completed.contains(&w.key);
+    let has_success = |w: &Cmd| !w.key.is_empty() && logfile.has_success(&w.key);
 
     // A task that ran in an earlier call to execute() without succeeding isn't run again, so
     // nothing that is waiting for it can be run either.
@@ -562,7 +563,7 @@ fn get_subgraph<'a, 'b: 'a>(
             .node_indices()
             .filter(|&n| {
                 let w = tc[n];
-                logfile.has_failure(&w.key)
+                !w.key.is_empty() && logfile.has_failure(&w.key)
             })
             .collect::<HashSet<NodeIndex>>();
 
-- 
2.43.0


From 91d48875a700879f4ce2f05ca1c2f1631820a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 03/19] fix: an /end from the wrong slurm job must not lose the
 task

---
 src/server.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index ddc1ffe..8289d0b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -463,15 +463,15 @@ async fn end_handler(
     let cstate = {
         let (_transaction_id, cstate) = state
             .connections
-            .remove(&request.transaction_id)
+            // If the RPC trying to end a job is coming from a different slurm jobid
+            // than the RPC which started the job, something fishy is going on, and
+            // the transaction has to stay open for its own runner.
+            .remove_if(&request.transaction_id, |_, cstate| {
+                cstate.slurm_jobid == runner_slurm_jobid
+            })
             .ok_or(AppError::NoSuchTransaction)?;
         cstate
     };
-    // If the RPC trying to end a job is coming from a different slurm jobid
-    // than the RPC which started the job, something fishy is going on.
-    if cstate.slurm_jobid != runner_slurm_jobid {
-        return Err(AppError::NoSuchTransaction);
-    };
 
     state.timeouts.cancel(cstate.timer_id);
     let flag = AsyncFlag::new();
-- 
2.43.0


From 2c4c287ffd1d3859d74630d5872118fecfd33cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 04/19] fix: a repeated /begun must not bring down the
 scheduler

---
 src/server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 8289d0b..4aa4ecc 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -52,6 +52,7 @@ struct ConnectionState {
     timer_id: TimerID,
     disconnect_error_message: String,
     slurm_jobid: String,
+    begun: bool,
 }
 
 pub struct State<'a> {
@@ -387,6 +388,7 @@ async fn start_request_impl(
             node_id,
             disconnect_error_message: request.disconnect_error_message,
             slurm_jobid: runner_slurm_jobid,
+            begun: false,
         },
     );
 
@@ -408,7 +410,7 @@ async fn begun_handler(
     if authorization.token() != state.authorization_token {
         return Err(AppError::Unauthorized);
     };
-    let cstate = state
+    let mut cstate = state
         .connections
         .get_mut(&request.transaction_id)
         .ok_or(AppError::NoSuchTransaction)?;
@@ -424,6 +426,11 @@ async fn begun_handler(
         None => return Err(AppError::BadRequest),
     };
 
+    // A repeated message (the runner didn't see our reply) must not start the task again.
+    if std::mem::replace(&mut cstate.begun, true) {
+        return Ok((StatusCode::OK, "").into_response());
+    }
+
     state
         .tracker
         .send_started(
-- 
2.43.0


From ebcc530e348ec89321149ee3a1eb15d7c66cefcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 05/19] fix: call the preamble once, before the task starts,
 and not again afterwards

---
 src/localrunner.rs | 4 ++--
 src/server.rs      | 3 ---
 src/sync.rs        | 2 --
 3 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/localrunner.rs b/src/localrunner.rs
index f521600..7baf71e 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -98,7 +98,7 @@ pub async fn run_local_process_loop(
             Ok(child) => child,
             Err(e) => {
                 tracker
-                    .send_started(subgraph_node_id, cmd, &hostname, 0, "".to_string())
+                    .send_started(subgraph_node_id, &hostname, 0, "".to_string())
                     .await;
                 tracker
                     .send_finished(
@@ -127,7 +127,7 @@ pub async fn run_local_process_loop(
             .expect("child hasn't been waited for yet, so its pid should exist");
 
         tracker
-            .send_started(subgraph_node_id, cmd, &hostname, pid, "".to_string())
+            .send_started(subgraph_node_id, &hostname, pid, "".to_string())
             .await;
 
         let output: ChildOutput = tokio::select! {
diff --git a/src/server.rs b/src/server.rs
index 4aa4ecc..9c3bbc8 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -47,7 +47,6 @@ lazy_static::lazy_static! {
 #[derive(Debug)]
 struct ConnectionState {
     node_id: NodeIndex,
-    cmd: Cmd,
     start_time_approx: Instant,
     timer_id: TimerID,
     disconnect_error_message: String,
@@ -384,7 +383,6 @@ async fn start_request_impl(
         ConnectionState {
             start_time_approx: std::time::Instant::now(),
             timer_id,
-            cmd: cmd.clone(),
             node_id,
             disconnect_error_message: request.disconnect_error_message,
             slurm_jobid: runner_slurm_jobid,
@@ -435,7 +433,6 @@ async fn begun_handler(
         .tracker
         .send_started(
             cstate.node_id,
-            &cstate.cmd,
             &request.host,
             request.pid,
             runner_slurm_jobid,
diff --git a/src/sync.rs b/src/sync.rs
index 1af1d8d..d05d1d7 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -644,12 +644,10 @@ impl ReadyTrackerClient {
     pub async fn send_started(
         &self,
         v: NodeIndex,
-        cmd: &Cmd,
         host: &str,
         pid: u32,
         slurm_jobid: String,
     ) {
-        cmd.call_preamble();
         let r = self
             .s
             .send(Event::Started(StartedEvent {
-- 
2.43.0


From d0b774e881155d11202184d69e51272f5d153b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 06/19] fix: a task that doesn't read its fd_input must not
 bring down its runner

Writing the input panicked when the task exited first, and kept the task from
being reported as started (or ended) while it didn't read. An fd_input on a
descriptor that cannot be mapped is a failure to start the task, not a panic.
---
 src/bin/execgraph-remote.rs | 11 ++++-------
 src/localrunner.rs          | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index a3ab2f8..f02436e 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -5,7 +5,7 @@ use execgraph::{
     http_extensions::reqwest::{RequestBuilderExt, ResponseExt},
     httpinterface::*,
     localrunner::{
-        wait_with_output, ChildOutput, ChildProcessError
+        wait_with_output, write_fd_input, ChildOutput, ChildProcessError
     },
 };
 use execgraph::logfile2::ValueMaps;
@@ -18,7 +18,6 @@ use notify::Watcher;
 use reqwest::header::{HeaderMap, HeaderValue};
 use std::{convert::TryInto, io::Read, os::unix::prelude::AsRawFd, sync::atomic::AtomicBool, time::Duration};
 use thiserror::Error;
-use tokio::io::AsyncWriteExt;
 use tokio_command_fds::{CommandFdExt, FdMapping};
 use tokio_util::sync::CancellationToken;
 use tracing::warn;
@@ -336,8 +335,8 @@ async fn run_command(
         .stdout(std::process::Stdio::piped())
         .stderr(std::process::Stdio::piped())
         .fd_mappings(fd_mapping)
-        .unwrap()
-        .spawn();
+        .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidInput, e))
+        .and_then(|command| command.spawn());
 
     // Deadlock potential: After spawning the command and passing it the
     // write end of the pipe we need to close it ourselves
@@ -393,9 +392,7 @@ async fn run_command(
     // dump input into fd4 immediately
     if let Some(p) = fd4_write_pipe {
         let (_fd, buf) = start.fd_input.as_ref().unwrap();
-        let mut writer = tokio::io::BufWriter::new(p);
-        writer.write_all(buf).await.unwrap();
-        writer.flush().await.unwrap();
+        tokio::spawn(write_fd_input(p, buf.clone()));
     }
 
     let pid = child
diff --git a/src/localrunner.rs b/src/localrunner.rs
index 7baf71e..a8550b8 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -16,7 +16,7 @@ use tokio::{
     process::Command,
 };
 use tokio_command_fds::{CommandFdExt, FdMapping};
-use tokio_pipe::PipeRead;
+use tokio_pipe::{PipeRead, PipeWrite};
 use tracing::debug;
 
 use crate::{
@@ -85,8 +85,8 @@ pub async fn run_local_process_loop(
                 .stderr(Stdio::inherit()),
         }
         .fd_mappings(fd_mapping)
-        .unwrap()
-        .spawn();
+        .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidInput, e))
+        .and_then(|command| command.spawn());
 
         // Deadlock potential: After spawning the command and passing it the
         // write end of the pipe we need to close it ourselves
@@ -116,9 +116,7 @@ pub async fn run_local_process_loop(
         // Dump input into fd4 immediately
         if let Some(p) = fd4_write_pipe {
             let (_fd, buf) = cmd.fd_input.as_ref().unwrap();
-            let mut writer = tokio::io::BufWriter::new(p);
-            writer.write_all(buf).await.unwrap();
-            writer.flush().await.unwrap();
+            tokio::spawn(write_fd_input(p, buf.clone()));
         }
 
         // Get PID from fd3, or if it doesn't send one, just the child PID
@@ -158,6 +156,14 @@ pub async fn run_local_process_loop(
     );
 }
 
+/// Feed a child process its input. This has to go on concurrently with waiting for the process,
+/// which may take its time to read the input, or never read all of it.
+pub async fn write_fd_input(mut pipe: PipeWrite, buf: Vec<u8>) {
+    if let Err(e) = pipe.write_all(&buf).await {
+        debug!("Input was not read completely: {}", e);
+    }
+}
+
 pub async fn wait_with_output(
     mut child: tokio::process::Child,
     fd: PipeRead,
-- 
2.43.0


From 940964c66d9dac1e1e4e1538d2d59fb858e104a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 07/19] fix: the reaper must survive an /end that arrives while
 it cancels tasks

---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 9c3bbc8..5db8211 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -136,7 +136,10 @@ impl<'a> State<'a> {
                     }
                 }
                 for key in keys_to_remove {
-                    expired.push(self.connections.remove(&key).unwrap().1);
+                    // the runner may have ended it in the meantime
+                    if let Some((_, cstate)) = self.connections.remove(&key) {
+                        expired.push(cstate);
+                    }
                 }
             }
 
-- 
2.43.0


From 56cd288d2426a6eb0e36cdc41664f51e562717ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 08/19] fix: a soft cancellation must not undo a concurrent
 hard one

---
 src/fancy_cancellation_token.rs | 35 ++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/fancy_cancellation_token.rs b/src/fancy_cancellation_token.rs
index f3fcfcf..748e552 100644
--- a/src/fancy_cancellation_token.rs
+++ b/src/fancy_cancellation_token.rs
@@ -77,24 +77,27 @@ impl CancellationToken {
     }
 
     pub fn cancel(&self, state: CancellationState) {
-        if let CancellationState::CancelledAfterTime(new_time) = state {
-            // if we're trying to do a soft cancel, check the current state
-            let existing = self.inner.receiver.borrow();
-            match *existing {
-                Some(CancellationState::CancelledAfterTime(existing_time))
-                    if new_time > existing_time =>
-                {
-                    // if the existing time is older than the new time, no need to do anything
-                    return;
-                }
-                Some(CancellationState::HardCancelled) => {
-                    // if we're already hard canceled, don't override it with a new soft cancel
-                    return;
+        // check and replace the state in one step, so that a concurrent hard cancel isn't lost
+        self.inner.sender.send_if_modified(|existing| {
+            if let CancellationState::CancelledAfterTime(new_time) = state {
+                // if we're trying to do a soft cancel, check the current state
+                match *existing {
+                    Some(CancellationState::CancelledAfterTime(existing_time))
+                        if new_time > existing_time =>
+                    {
+                        // if the existing time is older than the new time, no need to do anything
+                        return false;
+                    }
+                    Some(CancellationState::HardCancelled) => {
+                        // if we're already hard canceled, don't override it with a new soft cancel
+                        return false;
+                    }
+                    _ => {}
                 }
-                _ => {}
             }
-        }
-        self.inner.sender.send_replace(Some(state));
+            *existing = Some(state);
+            true
+        });
     }
 }
 
-- 
2.43.0


From b927e692b502fdc54ac300a634aa0d45e3eccc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 09/19] fix: a shutdown must wait for exactly the tasks that
 were given out

A soft shutdown with nothing running never returned; tasks given to a worker
that hadn't called /begun yet were killed; and tasks could still be given out
after the ready channels were closed.
---
 src/sync.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/sync.rs b/src/sync.rs
index d05d1d7..5daf827 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -339,7 +339,7 @@ impl<'a> ReadyTrackerServer<'a> {
                                 self.shutdown_state = ShutdownState::SoftShutdown;
                             }
 
-                            if self.n_ready_or_inflight == 0 || (self.shutdown_state == ShutdownState::SoftShutdown && self.inflight.is_empty()) {
+                            if self.n_ready_or_inflight == 0 || (self.shutdown_state == ShutdownState::SoftShutdown && self.n_given_out() == 0) {
                                 // Drop the send side of the `self.ready` channel. This will cause the receive side
                                 // to start returning errors when localrunner.rs and server.rs call recv(), which is exactl
                                 // what we want and will break the run_local_process_loop runners at the point where they're
@@ -363,6 +363,10 @@ impl<'a> ReadyTrackerServer<'a> {
                     }
                     self.shutdown_state = ShutdownState::SoftShutdown;
                     self.soft_shutdown_trigger.unset();
+                    if self.n_given_out() == 0 {
+                        debug!("background_serve breaking on soft shutdown with nothing running");
+                        break;
+                    }
                 },
                 _ = token.hard_cancelled() => {
                     debug!("background_serve breaking on token cancellation");
@@ -389,6 +393,12 @@ impl<'a> ReadyTrackerServer<'a> {
         Ok(())
     }
 
+    /// Number of tasks that have been taken by a runner and haven't finished, whether or not
+    /// we've been told yet that they were started.
+    fn n_given_out(&self) -> u32 {
+        self.queuestate.iter().map(|item| item.num_inflight).sum()
+    }
+
     async fn _finished_bookkeeping(&mut self, e: &mut FinishedEvent) -> Result<()> {
         self._finished_bookkeeping_1(e)?;
         let out = self._finished_bookkeeping_2(e).await;
@@ -632,6 +642,12 @@ impl ReadyTrackerClient {
             let (task, _priority) = receiver.recv().await?;
             if !task.taken.fetch_or(true, SeqCst) {
                 let mut x = self.queuestate.get_mut(&task.affinity.data).expect("bar");
+                // Items that were in the channel when it was closed can still be received, but
+                // must not be given out. Checked with the lock on the counters held, so that the
+                // server sees either the closed channel respected or the task as inflight.
+                if receiver.is_closed() {
+                    return Err(ReadyTrackerClientError::SoftShutdown);
+                }
                 x.num_ready -= 1;
                 x.num_inflight += 1;
                 self.ratecounter_launch.update(std::time::Instant::now());
-- 
2.43.0


From 7cddcbb93067f81946bb828a2d4b13859972bc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 10/19] fix: events still queued when execute() stops count
 like any others

Tasks started or finished just before a shutdown were logged with a made-up
host and pid, and missing from the list of finished tasks.
---
 src/sync.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sync.rs b/src/sync.rs
index 5daf827..65df0c9 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -189,14 +189,15 @@ impl<'a> ReadyTrackerServer<'a> {
                     let cmd = self.g[e.id];
                     self.logfile.write(LogEntry::new_started(
                         &cmd.key,
-                        "host",
-                        0,
-                        "".to_string(),
+                        &e.host,
+                        e.pid,
+                        e.slurm_jobid,
                     ))?;
                     assert!(inflight.insert(e.id, Instant::now()).is_none());
                 }
                 Ok(Event::Finished(e)) => {
                     let cmd = self.g[e.id];
+                    self.finished_order.push(e.id);
                     self._finished_bookkeeping_1(&e)?;
                     if inflight.remove(&e.id).is_none() {
                         // With execgraph-remote workers, it's  possible to get a FinishedEvent
-- 
2.43.0


From 373cd68004b99fa13fc2c9bb18f2924b8c1b652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 11/19] fix: flush the log when there is nothing to execute

---
 src/execgraph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 429ba88..8884ba8 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -267,6 +267,7 @@ impl ExecGraph {
         )?);
         if subgraph.raw_nodes().is_empty() {
             trace!("Short-circuiting execution because subgraph N=0.");
+            self.logfile.flush()?;
             return Ok((0, vec![]));
         }
         trace!(
-- 
2.43.0


From b1f9b4e9a6d580ba7a4c9b220d3319f6be4122aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 12/19] fix: a log whose last record was cut short by a crash
 can be opened again

---
 src/logfile2.rs | 64 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 17 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index 583a37c..e8ab04e 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -163,6 +163,16 @@ pub struct LogFileSnapshotReader {
     f: std::fs::File,
 }
 
+/// How a log file ends. If the process writing it gets killed, its last line can be cut short.
+enum Tail {
+    /// In a newline, as it should
+    Terminated,
+    /// In a complete record, only the newline is missing
+    Unterminated,
+    /// In an incomplete record, which starts at this offset
+    Torn { offset: u64 },
+}
+
 #[derive(Clone, Debug)]
 pub enum RuncountStatus {
     Ready {
@@ -199,7 +209,15 @@ impl LogFile<LogFileRW> {
             .create(true)
             .write(true)
             .open(&path)?;
-        let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        let (runcounts, header, tail) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        match tail {
+            Tail::Terminated => {}
+            Tail::Unterminated => f.write_all(&[b'\n'])?,
+            Tail::Torn { offset } => {
+                f.set_len(offset)?;
+                f.seek(std::io::SeekFrom::End(0))?;
+            }
+        }
         Ok(LogFile {
             f: BufReaderWriter::new_reader(f),
             path: path.as_ref().to_path_buf().canonicalize()?,
@@ -281,7 +299,7 @@ impl LogFile<LogFileRO> {
     #[tracing::instrument]
     fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
         let mut f = std::fs::OpenOptions::new().read(true).open(&path)?;
-        let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        let (runcounts, header, _tail) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
         Ok(LogFile {
             f: BufReaderWriter::new_reader(f),
             path: path.as_ref().to_path_buf().canonicalize()?,
@@ -296,27 +314,41 @@ impl LogFile<LogFileRO> {
 impl<T> LogFile<T> {
     fn load_runcounts(
         f: &mut std::fs::File,
-    ) -> Result<(HashMap<String, RuncountStatus>, Option<HeaderEntry>)> {
+    ) -> Result<(HashMap<String, RuncountStatus>, Option<HeaderEntry>, Tail)> {
         let mut runcounts = HashMap::new();
         let mut header = None;
+        let mut tail = Tail::Terminated;
+        let mut offset = 0;
         let mut workflow_key = None;
 
         let mut reader = std::io::BufReader::new(f);
-        let mut line = String::new();
+        let mut line = Vec::new();
         let mut iline = 0;
         loop {
             line.clear();
-            let nbytes = reader.read_line(&mut line)?;
+            let nbytes = reader.read_until(b'\n', &mut line)?;
             if nbytes == 0 {
                 break;
             }
-            let len = line.trim_end_matches(&['\r', '\n'][..]).len();
-            line.truncate(len);
-            let value: LogEntry = serde_json::from_str(&line).map_err(|e| {
-                tracing::error!("Unable to parse {}th line. Got {}", iline, line);
-                e
-            })?;
+            let terminated = line.ends_with(&[b'\n']);
+            let value: LogEntry = match serde_json::from_slice(&line) {
+                Ok(value) => value,
+                Err(_) if !terminated => {
+                    // the process that was writing this record died before it was done
+                    tail = Tail::Torn { offset };
+                    break;
+                }
+                Err(e) => {
+                    let line = String::from_utf8_lossy(&line);
+                    tracing::error!("Unable to parse {}th line. Got {}", iline, line);
+                    return Err(e.into());
+                }
+            };
+            if !terminated {
+                tail = Tail::Unterminated;
+            }
             iline += 1;
+            offset += nbytes as u64;
             match value {
                 LogEntry::Header(h) => {
                     match workflow_key {
@@ -386,7 +418,7 @@ impl<T> LogFile<T> {
             }
         }
 
-        Ok((runcounts, header))
+        Ok((runcounts, header, tail))
     }
 
     pub fn workflow_key(&self) -> Option<String> {
@@ -572,16 +604,14 @@ impl LogFileSnapshotReader {
         self.f.seek(std::io::SeekFrom::Start(0))?;
         let mut reader = std::io::BufReader::new(&self.f);
         let mut v = Vec::new();
-        let mut line = String::new();
+        let mut line = Vec::new();
         loop {
             line.clear();
-            let nbytes = reader.read_line(&mut line)?;
+            let nbytes = reader.read_until(b'\n', &mut line)?;
             if nbytes == 0 {
                 break;
             }
-            let len = line.trim_end_matches(&['\r', '\n'][..]).len();
-            line.truncate(len);
-            match serde_json::from_str(&line) {
+            match serde_json::from_slice(&line) {
                 Ok(value) => v.push(value),
                 Err(e) if e.is_data() => {}
                 Err(e) => {
-- 
2.43.0


From 0596409808c035e67945d13298bde6fba7fca3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:56 +0000
Subject: [PATCH 13/19] fix: two sessions could hold the lock of one log when
 one was just closing it

---
 src/logfile2.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index e8ab04e..5c59e0b 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -6,6 +6,7 @@ use std::{
     env,
     io::{BufRead, Seek, Write},
     marker::PhantomData,
+    os::unix::fs::MetadataExt,
     path::PathBuf,
     time::SystemTime,
 };
@@ -195,11 +196,24 @@ impl LogFile<LogFileRW> {
     pub fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
         // acquire the lock file and write something to it
         let lockf_path = path.as_ref().with_file_name(".wrk.lock");
-        let lockf = std::fs::OpenOptions::new()
-            .create(true)
-            .write(true)
-            .open(&lockf_path)?;
-        lockf.try_lock(FileLockMode::Exclusive)?;
+        let lockf = loop {
+            let lockf = std::fs::OpenOptions::new()
+                .create(true)
+                .write(true)
+                .open(&lockf_path)?;
+            lockf.try_lock(FileLockMode::Exclusive)?;
+            // The previous holder removes the lock file when it closes the log. If that happened
+            // between our open and our lock, then we've locked a file that nobody else can see.
+            let locked = lockf.metadata()?;
+            match std::fs::metadata(&lockf_path) {
+                Ok(current) if (current.dev(), current.ino()) == (locked.dev(), locked.ino()) => {
+                    break lockf
+                }
+                Ok(_) => {}
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
+                Err(e) => return Err(e.into()),
+            }
+        };
         let mut lockf = std::io::BufWriter::new(lockf);
         serde_json::to_writer(&mut lockf, &LogEntry::new_header("", vec![])?)?;
         lockf.flush()?;
@@ -486,6 +500,8 @@ impl<T> LogFile<T> {
 impl<T> Drop for LogFile<T> {
     fn drop(&mut self) {
         if let Some((_f, lockf_path)) = self.lockf.as_ref() {
+            // whoever locks the log next has to see everything that we wrote to it
+            drop(self.f.flush());
             drop(std::fs::remove_file(lockf_path));
         }
     }
-- 
2.43.0


From d022e139a8c486df36b4ab89b327567f4c06ca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:21 +0000
Subject: [PATCH 14/19] fix: never hand a task to a runner whose slurm job has
 been cancelled while it waited

---
 src/server.rs | 84 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 28 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 5db8211..7b3dcee 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -21,7 +21,9 @@ use petgraph::graph::{DiGraph, NodeIndex};
 use serde_json::json;
 use std::{
     collections::{HashMap, HashSet},
+    future::Future,
     sync::{Arc, RwLock},
+    task::Poll,
     time::Instant,
 };
 use std::{sync::Mutex, time::Duration};
@@ -329,17 +331,6 @@ async fn start_handler(
         None => return Err(AppError::BadRequest),
     };
 
-    // If this jobid has been scanceled, don't give out a job and just tell the runner
-    // to shut down. This happens with a read lock on cancelled_slurm_jobids so if someone
-    // is modying the set of cancelled_slurm_jobids, we have to wait till they finish to
-    // know if we should tell this runner to shut down.
-    {
-        let cancelled_slurm_jobids = state.cancelled_slurm_jobids.read().unwrap();
-        if cancelled_slurm_jobids.contains(&runner_slurm_jobid) {
-            return Err(AppError::Shutdown);
-        }
-    }
-
     Ok(Postcard(
         start_request_impl(state, request, runner_slurm_jobid).await?,
     ))
@@ -350,11 +341,43 @@ async fn start_request_impl(
     request: StartRequest,
     runner_slurm_jobid: String,
 ) -> Result<StartResponse, AppError> {
+    // Take the next task and open its transaction.
+    //
+    // If this jobid has been scanceled, don't give out a job and just tell the runner
+    // to shut down. This happens with a read lock on cancelled_slurm_jobids, which is held
+    // from the check until the transaction is open, so that someone who is modifying the set of
+    // cancelled_slurm_jobids either sees the task running, or the runner sees the cancelation.
+    let recv = state.tracker.recv(request.runnertypeid);
+    tokio::pin!(recv);
+    let claim = std::future::poll_fn(|cx| {
+        let cancelled_slurm_jobids = state.cancelled_slurm_jobids.read().unwrap();
+        if cancelled_slurm_jobids.contains(&runner_slurm_jobid) {
+            return Poll::Ready(Err(AppError::Shutdown));
+        }
+        recv.as_mut().poll(cx).map(|r| match r {
+            Ok(node_id) => Ok((
+                node_id,
+                open_transaction(
+                    &state,
+                    node_id,
+                    request.disconnect_error_message.clone(),
+                    runner_slurm_jobid.clone(),
+                ),
+            )),
+            Err(e) => Err(match e {
+                crate::sync::ReadyTrackerClientError::ChannelRecvError(_) => AppError::Shutdown,
+                crate::sync::ReadyTrackerClientError::SoftShutdown => AppError::Shutdown,
+                crate::sync::ReadyTrackerClientError::NoSuchRunnerType => AppError::NoSuchRunnerType,
+                crate::sync::ReadyTrackerClientError::ChannelTryRecvError(_) => unreachable!(),
+            }),
+        })
+    });
+
     // Grab the next task off the ready queue, which might pause if we're rate limited.
     // Hold the connection for up to ``HOLD_RATELIMITED_TIME`` (30 seconds), and then if
     // we're still rate limited, respond to the execgraph-remote with a "RateLimited"
     // (a 429 http code) which will cause it to exit.
-    let node_id = async {
+    let (node_id, transaction_id) = async {
         tokio::select! {
             _ = state.token.hard_cancelled() => {
                 Err(AppError::Shutdown)
@@ -362,17 +385,27 @@ async fn start_request_impl(
             _ = tokio::time::sleep(HOLD_RATETIMITED_TIME) => {
                 Err(AppError::RateLimited)
             }
-            r = state.tracker.recv(request.runnertypeid) => {
-                r.map_err(|e| match e {
-                    crate::sync::ReadyTrackerClientError::ChannelRecvError(_) => AppError::Shutdown,
-                    crate::sync::ReadyTrackerClientError::SoftShutdown => AppError::Shutdown,
-                    crate::sync::ReadyTrackerClientError::NoSuchRunnerType => AppError::NoSuchRunnerType,
-                    crate::sync::ReadyTrackerClientError::ChannelTryRecvError(_) => unreachable!(),
-                })
-            }
+            r = claim => r,
         }
     }.await?;
     let cmd = state.subgraph[node_id];
+
+    Ok(StartResponse {
+        transaction_id,
+        cmdline: cmd.cmdline.clone(),
+        fd_input: cmd.fd_input.clone(),
+        ping_interval_msecs: PING_INTERVAL_MSECS,
+    })
+}
+
+/// Register that a task has been given to a runner
+fn open_transaction(
+    state: &State<'static>,
+    node_id: NodeIndex,
+    disconnect_error_message: String,
+    slurm_jobid: String,
+) -> u32 {
+    let cmd = state.subgraph[node_id];
     cmd.call_preamble();
     let transaction_id = rand::random::<u32>();
 
@@ -387,18 +420,13 @@ async fn start_request_impl(
             start_time_approx: std::time::Instant::now(),
             timer_id,
             node_id,
-            disconnect_error_message: request.disconnect_error_message,
-            slurm_jobid: runner_slurm_jobid,
+            disconnect_error_message,
+            slurm_jobid,
             begun: false,
         },
     );
 
-    Ok(StartResponse {
-        transaction_id,
-        cmdline: cmd.cmdline.clone(),
-        fd_input: cmd.fd_input.clone(),
-        ping_interval_msecs: PING_INTERVAL_MSECS,
-    })
+    transaction_id
 }
 
 // POST /begun
-- 
2.43.0


From 00bb46e83fc1ac4c0e68e3ed2930ba6f40dc61d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:29 +0000
Subject: [PATCH 15/19] fix: answer long-polling status requests on a hard
 shutdown

---
 src/server.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 7b3dcee..0b79d02 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -206,14 +206,19 @@ pub async fn status_handler(
         Some(Json(r)) => r,
     };
 
-    let (etag, snapshot) = state
-        .tracker
-        .get_queuestate(
-            request.etag,
-            Duration::from_millis(request.timemin_ms),
-            Duration::from_millis(request.timeout_ms),
-        )
-        .await;
+    // A client that is waiting for more tasks must not hold up a hard shutdown
+    let (etag, snapshot) = tokio::select! {
+        r = state
+            .tracker
+            .get_queuestate(
+                request.etag,
+                Duration::from_millis(request.timemin_ms),
+                Duration::from_millis(request.timeout_ms),
+            ) => r,
+        _ = state.token.hard_cancelled() => {
+            state.tracker.get_queuestate(0, Duration::ZERO, Duration::ZERO).await
+        }
+    };
 
     let resp = snapshot
         .into_iter()
-- 
2.43.0


From 001c142657a21153f023638f545440ea60836088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 16/19] fix: a task's input and value descriptors must be
 blocking

---
 src/bin/execgraph-remote.rs |  4 +++-
 src/localrunner.rs          | 11 +++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index f02436e..9a36eab 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -5,7 +5,7 @@ use execgraph::{
     http_extensions::reqwest::{RequestBuilderExt, ResponseExt},
     httpinterface::*,
     localrunner::{
-        wait_with_output, write_fd_input, ChildOutput, ChildProcessError
+        make_blocking, wait_with_output, write_fd_input, ChildOutput, ChildProcessError
     },
 };
 use execgraph::logfile2::ValueMaps;
@@ -312,6 +312,8 @@ async fn run_command(
     } else {
         (None, None)
     };
+    make_blocking(&write_fd3);
+    fd4_read_pipe.iter().for_each(make_blocking);
     let mut fd_mapping = vec![
         // Map the pipe as FD 3 in the child process.
         FdMapping {
diff --git a/src/localrunner.rs b/src/localrunner.rs
index a8550b8..74d1d41 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -55,6 +55,8 @@ pub async fn run_local_process_loop(
         } else {
             (None, None)
         };
+        make_blocking(&fd3_write_pipe);
+        fd4_read_pipe.iter().for_each(make_blocking);
         let mut fd_mapping = vec![
             // Map the pipe as FD 3 in the child process.
             FdMapping {
@@ -156,6 +158,15 @@ pub async fn run_local_process_loop(
     );
 }
 
+/// Our ends of the pipes are non-blocking, but a child process has to be able to wait for its input
+/// and for room for its output like with any other descriptor.
+pub fn make_blocking(fd: &impl AsRawFd) {
+    unsafe {
+        let flags = libc::fcntl(fd.as_raw_fd(), libc::F_GETFL);
+        libc::fcntl(fd.as_raw_fd(), libc::F_SETFL, flags & !libc::O_NONBLOCK);
+    }
+}
+
 /// Feed a child process its input. This has to go on concurrently with waiting for the process,
 /// which may take its time to read the input, or never read all of it.
 pub async fn write_fd_input(mut pipe: PipeWrite, buf: Vec<u8>) {
-- 
2.43.0


From 55fa254cb670452f622415dbb4c1383852baeb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 17/19] fix: accept the output of remote tasks whatever its
 size

---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 0b79d02..319807c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -10,6 +10,7 @@ use crate::{
 };
 use anyhow::Result;
 use axum::{
+    extract::DefaultBodyLimit,
     headers::authorization::Bearer,
     middleware::Next,
     response::{IntoResponse, Response},
@@ -644,7 +645,8 @@ pub fn router(state: Arc<State<'static>>) -> Router {
     Router::new()
         .route("/start", get(start_handler))
         .route("/begun", post(begun_handler))
-        .route("/end", post(end_handler))
+        // a task's output can be of any size
+        .route("/end", post(end_handler).layer(DefaultBodyLimit::disable()))
         .route("/ping", post(ping_handler))
         .route("/status", get(status_handler))
         .route(
-- 
2.43.0


From 74178572a138449a467b58234322ccd7b5e49297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 18/19] fix: ask a task to terminate once at the time limit

After the deadline the worker's loop went round without ever waiting, and
sent the task SIGTERM after SIGTERM, tens of thousands per second, for as
long as it took to clean up.
---
 src/bin/execgraph-remote.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index 9a36eab..3d97192 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -458,8 +458,8 @@ async fn run_command(
                     }
                 return Err(RemoteError::Sigterm)
             },
-            _ = tokio::time::sleep_until(time_to_sigterm_child.deadline) => {
-                // send sigterm to child, but then go back into this loop and continue, waiting for the child to
+            _ = tokio::time::sleep_until(time_to_sigterm_child.deadline), if stderr_prefix.is_none() => {
+                // send sigterm to child (once), but then go back into this loop and continue, waiting for the child to
                 // hopefully actually exit itself.
                 unsafe { libc::kill(pid.try_into().unwrap(), libc::SIGTERM); }
                 stderr_prefix = Some(time_to_sigterm_child.message());
-- 
2.43.0


From 5e48d9d75bfe818de4544b5608e7b5f97afa3fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 19/19] fix: hand out nothing after a hard shutdown request

A worker whose /end asks for another task waits for its completion to be
processed or for the hard shutdown. In the second case the select below it
picked at random between refusing and taking a task that was still queued.
---
 src/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 319807c..69233d4 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -385,6 +385,8 @@ async fn start_request_impl(
     // (a 429 http code) which will cause it to exit.
     let (node_id, transaction_id) = async {
         tokio::select! {
+            // nothing is handed out any more after a hard shutdown, even if a task is available
+            biased;
             _ = state.token.hard_cancelled() => {
                 Err(AppError::Shutdown)
             },
-- 
2.43.0

