From 33b92d230491429739c9a0e574b6b279c2862387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:32 +0000
Subject: [PATCH 01/28] fix: do not roll back an already rolled back
 transaction in client_state::close()

---
 src/client_state.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index a5995cd..ae0642b 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -70,7 +70,12 @@ void wsrep::client_state::close()
     if (transaction_.active() &&
         (mode_ != m_local || !client_service_.is_prepared_xa()))
     {
-        client_service_.bf_rollback();
+        // The background rollbacker may have rolled the transaction
+        // back already while the client was idle.
+        if (transaction_.state() != wsrep::transaction::s_aborted)
+        {
+            client_service_.bf_rollback();
+        }
         transaction_.after_statement();
     }
     if (mode_ == m_local)
-- 
2.43.0


From 3c53238ce4727fdfc7d03d1cde138c0e5faba259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:03 +0000
Subject: [PATCH 02/28] fix: do not interrupt server state waiters without a
 state change

---
 src/server_state.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index c727dba..d783a98 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1395,13 +1395,17 @@ void wsrep::server_state::wait_until_state(
     enum wsrep::server_state::state state) const
 {
     ++state_waiters_[state];
+    const std::vector<enum state>::size_type state_changes(state_hist_.size());
     while (state_ != state)
     {
         cond_.wait(lock);
         // If the waiter waits for any other state than disconnecting
         // or disconnected and the state has been changed to disconnecting,
-        // this usually means that some error was encountered 
+        // this usually means that some error was encountered. A wakeup
+        // without a state change must not interrupt the wait, the server
+        // may be still waiting to get connected.
         if (state != s_disconnecting && state != s_disconnected
+            && state_hist_.size() != state_changes
             && (state_ == s_disconnecting || state_ == s_disconnected))
         {
           --state_waiters_[state];
-- 
2.43.0


From 7858d8e44492cc21fee76d716b33a71cb5f8bbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:37 +0000
Subject: [PATCH 03/28] fix: abort a streaming transaction which is not allowed
 to commit

---
 src/transaction.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 6647cfc..0ddb604 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -306,6 +306,12 @@ int wsrep::transaction::before_prepare(wsrep::unique_lock<wsrep::mutex>& lock,
             lock.unlock();
             if (client_service_.statement_allowed_for_streaming() == false)
             {
+                lock.lock();
+                if (state() == s_executing)
+                {
+                    state(lock, s_must_abort);
+                }
+                lock.unlock();
                 client_state_.override_error(
                     wsrep::e_error_during_commit,
                     wsrep::provider::error_not_allowed);
@@ -331,7 +337,7 @@ int wsrep::transaction::before_prepare(wsrep::unique_lock<wsrep::mutex>& lock,
             lock.lock();
             client_service_.debug_crash(
                 "crash_last_fragment_commit_after_fragment_removal");
-            if (state() == s_must_abort)
+            if (ret == 0 && state() == s_must_abort)
             {
                 client_state_.override_error(wsrep::e_deadlock_error);
                 ret = 1;
-- 
2.43.0


From e165caadabf42d4c29f56b38be7b27324a0ff5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:34 +0000
Subject: [PATCH 04/28] fix: BF abort must not start streaming rollback after
 victim's own one

---
 src/transaction.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 0ddb604..00273f6 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1077,8 +1077,12 @@ bool wsrep::transaction::bf_abort(
         // In other states the BF abort will be detected outside of
         // storage engine operations and streaming rollback will be
         // handled from before_rollback() call.
+        // If the victim is already in streaming rollback, there is nothing
+        // to initiate. Waiting for the victim here would allow it to
+        // complete the rollback and clean up the streaming context.
         if (client_state_.mode() == wsrep::client_state::m_local &&
-            is_streaming() && state_at_enter == s_executing)
+            is_streaming() && state_at_enter == s_executing &&
+            not streaming_rollback_in_progress_)
         {
             streaming_rollback(lock);
         }
-- 
2.43.0


From 4ae3d9bc658c58cfeffa1e44c0d846dc574f3286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:36 +0000
Subject: [PATCH 05/28] fix: repeated total order BF abort must not clear the
 total order flag

---
 src/transaction.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 00273f6..192b587 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1131,13 +1131,15 @@ bool wsrep::transaction::total_order_bf_abort(
 {
     /* We must set this flag before entering bf_abort() in order
      * to streaming_rollback() work correctly. The flag will be
-     * unset if BF abort was not allowed. Note that we rely in
+     * restored if BF abort was not allowed, for example because the
+     * victim has been BF aborted in total order already. Note that we rely in
      * bf_abort() not to release lock if the BF abort is not allowed. */
+    const bool was_bf_aborted_in_total_order(bf_aborted_in_total_order_);
     bf_aborted_in_total_order_ = true;
     bool ret(bf_abort(lock, bf_seqno, victim_ctx));
     if (not ret)
     {
-        bf_aborted_in_total_order_ = false;
+        bf_aborted_in_total_order_ = was_bf_aborted_in_total_order;
     }
     return ret;
 }
-- 
2.43.0


From 8d587e1e66ed7014748827bcdffc891b7e6d9048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:13 +0000
Subject: [PATCH 06/28] fix: failed replication of a BF aborted transaction
 must not make a disallowed state transition

---
 src/transaction.cpp | 56 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 192b587..c3e4efc 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1330,7 +1330,6 @@ int wsrep::transaction::xa_replay_commit(wsrep::unique_lock<wsrep::mutex>& lock)
         // error and let the client retry
         state(lock, s_preparing);
         state(lock, s_prepared);
-        client_state_.override_error(wsrep::e_error_during_commit, status);
     }
 
     client_service_.signal_replayed();
@@ -1533,7 +1532,10 @@ int wsrep::transaction::certify_fragment(
             << status << " ("
             << wsrep::provider::to_string(status) << ")";
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         return 1;
     }
 
@@ -1542,7 +1544,10 @@ int wsrep::transaction::certify_fragment(
     if (client_service_.prepare_fragment_for_replication(data, log_position))
     {
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
@@ -1552,6 +1557,11 @@ int wsrep::transaction::certify_fragment(
     {
         wsrep::log_warning() << "Attempt to replicate empty data buffer";
         lock.lock();
+        if (state() == s_must_abort)
+        {
+            client_state_.override_error(wsrep::e_deadlock_error);
+            return 1;
+        }
         state(lock, s_executing);
         return 0;
     }
@@ -1560,7 +1570,10 @@ int wsrep::transaction::certify_fragment(
                                wsrep::const_buffer(data.data(), data.size())))
     {
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
@@ -1808,7 +1821,10 @@ int wsrep::transaction::certify_commit(
         if (!is_xa())
         {
             lock.lock();
-            state(lock, s_must_abort);
+            if (state() != s_must_abort)
+            {
+                state(lock, s_must_abort);
+            }
             return 1;
         }
     }
@@ -1891,11 +1907,17 @@ int wsrep::transaction::certify_commit(
         break;
     case wsrep::provider::error_warning:
         assert(ordered() == false);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     case wsrep::provider::error_transaction_missing:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         // The execution should never reach this point if the
         // transaction has not generated any keys or data.
         wsrep::log_warning() << "Transaction was missing in provider";
@@ -1918,7 +1940,10 @@ int wsrep::transaction::certify_commit(
         client_state_.override_error(wsrep::e_deadlock_error);
         break;
     case wsrep::provider::error_size_exceeded:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     case wsrep::provider::error_connection_failed:
@@ -1957,19 +1982,28 @@ int wsrep::transaction::certify_commit(
         break;
     case wsrep::provider::error_fatal:
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_service_.emergency_shutdown();
         break;
     case wsrep::provider::error_not_implemented:
     case wsrep::provider::error_not_allowed:
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         wsrep::log_warning() << "Certification operation was not allowed: "
                              << "id: " << id().get()
                              << " flags: " << std::hex << flags() << std::dec;
         break;
     default:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     }
-- 
2.43.0


From b409465340886ab1a6ea43b1f0125f2c3ccfdade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:13 +0000
Subject: [PATCH 07/28] fix: set client error if replicating pending rollback
 events fails

---
 src/transaction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index c3e4efc..be9216c 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1330,6 +1330,7 @@ int wsrep::transaction::xa_replay_commit(wsrep::unique_lock<wsrep::mutex>& lock)
         // error and let the client retry
         state(lock, s_preparing);
         state(lock, s_prepared);
+        client_state_.override_error(wsrep::e_error_during_commit, status);
     }
 
     client_service_.signal_replayed();
@@ -1536,6 +1537,7 @@ int wsrep::transaction::certify_fragment(
         {
             state(lock, s_must_abort);
         }
+        client_state_.override_error(wsrep::e_error_during_commit, status);
         return 1;
     }
 
@@ -1825,6 +1827,7 @@ int wsrep::transaction::certify_commit(
             {
                 state(lock, s_must_abort);
             }
+            client_state_.override_error(wsrep::e_error_during_commit, status);
             return 1;
         }
     }
-- 
2.43.0


From 7f261c8b94cdbd281863368054ea3ea911ae34ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:05 +0000
Subject: [PATCH 08/28] fix: notify waiters when a streaming client is
 converted to applier

---
 src/server_state.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index d783a98..6005d01 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1182,6 +1182,8 @@ void wsrep::server_state::convert_streaming_client_to_applier(
     else
     {
         streaming_clients_.erase(i);
+        // close_orphaned_sr_transactions() may be waiting for this client
+        cond_.notify_all();
     }
 
     // Convert to applier only if the state is not disconnected. In
-- 
2.43.0


From c0022a5b2df86992c4c773579f2645fbf6f72d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:45 +0000
Subject: [PATCH 09/28] fix: do not replicate commit fragment if appending its
 keys failed

---
 src/transaction.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index be9216c..beeb0a0 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -351,9 +351,21 @@ int wsrep::transaction::before_prepare(wsrep::unique_lock<wsrep::mutex>& lock,
                 // Force fragment replication on XA prepare
                 flags(flags() | wsrep::provider::flag::prepare);
                 pa_unsafe(true);
-                append_sr_keys_for_commit();
-                const bool force_streaming_step = true;
-                ret = streaming_step(lock, force_streaming_step);
+                ret = append_sr_keys_for_commit();
+                if (ret)
+                {
+                    if (state() != s_must_abort)
+                    {
+                        state(lock, s_must_abort);
+                    }
+                    client_state_.override_error(
+                        wsrep::e_error_during_commit);
+                }
+                else
+                {
+                    const bool force_streaming_step = true;
+                    ret = streaming_step(lock, force_streaming_step);
+                }
                 if (ret == 0)
                 {
                     assert(state() == s_executing);
@@ -1834,9 +1846,15 @@ int wsrep::transaction::certify_commit(
 
     if (is_streaming())
     {
-        if (!is_xa())
+        if (!is_xa() && append_sr_keys_for_commit())
         {
-            append_sr_keys_for_commit();
+            lock.lock();
+            if (state() != s_must_abort)
+            {
+                state(lock, s_must_abort);
+            }
+            client_state_.override_error(wsrep::e_error_during_commit);
+            return 1;
         }
         pa_unsafe(true);
     }
-- 
2.43.0


From edc81e33a583e4a521b077a4b2d370dff5487639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:25 +0000
Subject: [PATCH 10/28] fix: Clear the error after XA commit succeeds through
 replay

A BF abort before the commit was replicated leaves a deadlock error behind
although the transaction commits by xid in replay.
---
 src/transaction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index beeb0a0..2d3db79 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1334,6 +1334,9 @@ int wsrep::transaction::xa_replay_commit(wsrep::unique_lock<wsrep::mutex>& lock)
         streaming_context_.cleanup();
         provider().release(ws_handle_);
         cleanup();
+        // The transaction committed, clear the error which may have
+        // been raised because of BF abort.
+        client_state_.reset_error();
         ret = 0;
         break;
     default:
-- 
2.43.0


From b033492bb600a090b4b303cc8f56c63baf5d2a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:25 +0000
Subject: [PATCH 11/28] fix: BF abort while detaching a prepared XA transaction

A prepared transaction which was BF aborted before xa_detach() was dropped
locally without handing it over to a streaming applier.
---
 src/transaction.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 2d3db79..91c3cde 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1262,17 +1262,31 @@ int wsrep::transaction::commit_or_rollback_by_xid(const wsrep::xid& xid,
 
 void wsrep::transaction::xa_detach()
 {
+    wsrep::unique_lock<wsrep::mutex> lock(client_state_.mutex_);
     debug_log_state("xa_detach enter");
-    assert(state() == s_prepared ||
+    assert(state() == s_prepared || state() == s_must_abort ||
            client_state_.state() == wsrep::client_state::s_quitting);
+    if (state() == s_must_abort && is_streaming() &&
+        bf_abort_state_ == s_prepared)
+    {
+        // The transaction was BF aborted after it was prepared. Roll back
+        // and let a streaming applier to take over by replaying.
+        after_command_must_abort(lock);
+        debug_log_state("xa_detach leave");
+        return;
+    }
     if (state() == s_prepared)
     {
+        // The transaction must not be BF aborted while it is being
+        // handed over to the streaming applier.
+        is_bf_immutable_ = true;
         wsrep::server_state& server_state(client_state_.server_state());
+        lock.unlock();
         server_state.convert_streaming_client_to_applier(&client_state_);
         client_service_.store_globals();
         client_service_.cleanup_transaction();
+        lock.lock();
     }
-    wsrep::unique_lock<wsrep::mutex> lock(client_state_.mutex_);
     streaming_context_.cleanup();
     state(lock, s_aborting);
     state(lock, s_aborted);
-- 
2.43.0


From a71845fff23dc07eb3d01f80e24ec480197cef92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:25 +0000
Subject: [PATCH 12/28] fix: Do not roll back prepared XA transaction because
 of BF abort

If a prepared XA transaction is BF aborted while its session executes a
later statement, let a streaming applier take over instead of rolling the
transaction back in the whole cluster.
---
 src/transaction.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 91c3cde..df5d2a7 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -885,6 +885,15 @@ int wsrep::transaction::after_statement(wsrep::unique_lock<wsrep::mutex>& lock)
         assert(is_streaming() == false);
         break;
     case s_must_abort:
+        if (is_xa() && is_streaming() && bf_abort_state_ == s_prepared)
+        {
+            // Prepared XA transaction must not be rolled back because
+            // of BF abort. Let a streaming applier to take over, the
+            // transaction may be committed or rolled back by xid.
+            after_command_must_abort(lock);
+            break;
+        }
+        WSREP_FALLTHROUGH;
     case s_cert_failed:
         // Error may be set already. For example, if fragment size
         // exceeded the maximum size in certify_fragment(), then
-- 
2.43.0


From 4aa2dc9204385255f99109c56d446274413186b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:58 +0000
Subject: [PATCH 13/28] fix: Replay BF aborted XA transaction only if it was
 prepared

A streaming XA transaction which was BF aborted before it was prepared
was taken for a prepared one, and its rollback tried to hand over a
streaming client which does not exist anymore.
---
 src/transaction.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index df5d2a7..035ced6 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -973,7 +973,11 @@ void wsrep::transaction::after_command_must_abort(
     assert(active());
     assert(state_ == s_must_abort);
 
-    if (is_xa() && is_streaming())
+    // Only a prepared XA transaction is replayed, otherwise the
+    // transaction is rolled back as any other.
+    const bool replay_xa(is_xa() && is_streaming() &&
+                         bf_abort_state_ == s_prepared);
+    if (replay_xa)
     {
         state(lock, s_must_replay);
     }
@@ -982,7 +986,7 @@ void wsrep::transaction::after_command_must_abort(
     client_service_.bf_rollback();
     lock.lock();
 
-    if (is_xa() && is_streaming())
+    if (replay_xa)
     {
         xa_replay(lock);
     }
-- 
2.43.0


From 5f1a37fb0cc6feffa21293c2d0efbe50552a97e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:46 +0000
Subject: [PATCH 14/28] fix: Clear command error if a prepared XA transaction
 stays active

The error of a failed XA commit was left for the following commands of
the session.
---
 src/client_state.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index ae0642b..d4a9d32 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -222,8 +222,12 @@ void wsrep::client_state::after_command_after_result()
         transaction_.after_command_must_abort(lock);
         assert(transaction_.state() == wsrep::transaction::s_aborted);
     }
-    else if (transaction_.active() == false && not keep_command_error_)
+    else if ((transaction_.active() == false ||
+              transaction_.state() == wsrep::transaction::s_prepared) &&
+             not keep_command_error_)
     {
+        // A prepared transaction stays active if the commit failed,
+        // the error must not be left for the retry.
         current_error_ = wsrep::e_success;
         current_error_status_ = wsrep::provider::success;
     }
-- 
2.43.0


From 9993484e79d0a078e42ede97286b107120682dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:46 +0000
Subject: [PATCH 15/28] fix: XA transaction state after failed commit by xid in
 replay

The transaction was left prepared in the session although it had been
handed over to a streaming applier, and after_statement() hit an assert.
---
 src/transaction.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 035ced6..bd154d4 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1369,10 +1369,13 @@ int wsrep::transaction::xa_replay_commit(wsrep::unique_lock<wsrep::mutex>& lock)
     default:
         log_warning() << "Failed to commit by xid during replay";
         // Commit by xid failed, return a commit
-        // error and let the client retry
-        state(lock, s_preparing);
-        state(lock, s_prepared);
+        // error and let the client retry. The transaction was handed
+        // over to a streaming applier, the retry must be done by xid.
         client_state_.override_error(wsrep::e_error_during_commit, status);
+        state(lock, s_aborted);
+        streaming_context_.cleanup();
+        provider().release(ws_handle_);
+        cleanup();
     }
 
     client_service_.signal_replayed();
-- 
2.43.0


From 6b830bddd6b52dc7de9cbd41b192afc3e800cadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:57 +0000
Subject: [PATCH 16/28] fix: Keep fragments of a transaction that is going to
 be replayed

A streaming transaction which is BF aborted in total order but goes to
replay needs its fragments.
---
 src/transaction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index bd154d4..a7c3e58 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -782,7 +782,9 @@ int wsrep::transaction::after_rollback()
     // We assume that the application does not let the TOI
     // to proceed until this method returns, e.g. by holding
     // MDL locks. It is not clear how to enforce that though.
-    if (is_streaming() && bf_aborted_in_total_order_)
+    // If the transaction will be replayed, its fragments are still needed.
+    if (is_streaming() && bf_aborted_in_total_order_ &&
+        state() == s_aborting)
     {
         remove_fragments_in_storage_service_scope(lock);
     }
-- 
2.43.0


From 9422b892c8d376f1958d75da36ce2a6b671c519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:12 +0000
Subject: [PATCH 17/28] fix: reporter must not publish truncated report or
 leave temporary files

A short write was taken for success and the truncated document was
renamed over the previous report. A failed write or rename left the
temporary file behind.
---
 src/reporter.cpp | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index 3b21a19..f22ae47 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -27,7 +27,7 @@
 #include <cstring>  // strerror()
 #include <cstdlib>  // mkstemp()
 #include <cerrno>   // errno
-#include <unistd.h> // write()
+#include <unistd.h> // write(), unlink()
 #include <cstdio>   // rename(), snprintf()
 #include <ctime>    // clock_gettime()
 #include <cmath>    // floor()
@@ -284,18 +284,43 @@ wsrep::reporter::write_file(double const tstamp)
                   << "': " << strerror(errno) << " (" << errno << ")\n";
         return;
     }
-    ssize_t err(write(fd, str.c_str(), str.length()));
-    close(fd);
-    if (err < 0)
+
+    size_t written(0);
+    int    err(0);
+    while (written < str.length())
+    {
+        ssize_t const ret(write(fd, str.c_str() + written,
+                                str.length() - written));
+        if (ret > 0)
+        {
+            written += static_cast<size_t>(ret);
+        }
+        else if (ret == 0 || errno != EINTR)
+        {
+            err = (ret == 0 ? ENOSPC : errno);
+            break;
+        }
+    }
+    if (close(fd) && !err) err = errno;
+
+    if (err)
     {
         std::cerr << "Could not write " << str.length()
                   << " bytes to temporary file '"
-                  << template_ << "': " << strerror(errno)
-                  << " (" << errno << ")\n";
+                  << template_ << "': " << strerror(err)
+                  << " (" << err << ")\n";
+        unlink(template_);
         return;
     }
 
-    rename(template_, file_name_.c_str());
+    if (rename(template_, file_name_.c_str()))
+    {
+        err = errno;
+        std::cerr << "Could not rename temporary file '" << template_
+                  << "' to '" << file_name_ << "': " << strerror(err)
+                  << " (" << err << ")\n";
+        unlink(template_);
+    }
 }
 
 void
-- 
2.43.0


From b8e92ef07e652b27a8d11a7d0efde4106f3c93a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:12 +0000
Subject: [PATCH 18/28] fix: reporter must compare repeated messages in the
 same encoding

The new message was compared unescaped to the previous one which had
been stored escaped. A message was lost if it was equal to the escaped
text of the previous message.
---
 src/reporter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index f22ae47..e47cfbf 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -380,15 +380,17 @@ wsrep::reporter::report_log_msg(log_level const    lvl,
 
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
 
-    if (deque.empty() || msg != deque.back().msg)
+    /* Log messages are not expected to be json formatted, so we escape
+       the message strings here to keep the report file well formatted. */
+    const std::string escaped(escape_json(msg));
+
+    if (deque.empty() || escaped != deque.back().msg)
     {
         if (deque.size() == max_msg_) deque.pop_front();
 
         if (tstamp <= undefined) tstamp = timestamp();
 
-        /* Log messages are not expected to be json formatted, so we escape
-           the message strings here to keep the report file well formatted. */
-        log_msg_t entry({tstamp, escape_json(msg)});
+        log_msg_t entry({tstamp, escaped});
         deque.push_back(entry);
         write_file(tstamp);
     }
-- 
2.43.0


From 71650bd5ef2973cf1c65d85d3a196dbc89a9be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:12 +0000
Subject: [PATCH 19/28] fix: reporter with zero maximum number of messages

Reporting popped the first message from an empty deque.
---
 src/reporter.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index e47cfbf..10b70b3 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -363,11 +363,14 @@ void
 wsrep::reporter::report_event(const std::string& json)
 {
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
-    if (events_.size() == max_msg_)
+    if (max_msg_ > 0)
     {
-        events_.pop_front();
+        if (events_.size() == max_msg_)
+        {
+            events_.pop_front();
+        }
+        events_.push_back({timestamp(), json});
     }
-    events_.push_back({timestamp(), json});
     write_file(timestamp());
 }
 
@@ -386,12 +389,14 @@ wsrep::reporter::report_log_msg(log_level const    lvl,
 
     if (deque.empty() || escaped != deque.back().msg)
     {
-        if (deque.size() == max_msg_) deque.pop_front();
-
         if (tstamp <= undefined) tstamp = timestamp();
 
-        log_msg_t entry({tstamp, escaped});
-        deque.push_back(entry);
+        if (max_msg_ > 0)
+        {
+            if (deque.size() == max_msg_) deque.pop_front();
+            log_msg_t entry({tstamp, escaped});
+            deque.push_back(entry);
+        }
         write_file(tstamp);
     }
 }
-- 
2.43.0


From 2e2a4c2b97ae615e03a5ed2cd317b4b259509b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:15 +0000
Subject: [PATCH 20/28] fix: detect duplicate provider options by their
 sanitized name

A second option with the same name was reported as stored but dropped
if its name contained dots, and caused an assertion otherwise.
---
 src/provider_options.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/provider_options.cpp b/src/provider_options.cpp
index fcd7a95..142b952 100644
--- a/src/provider_options.cpp
+++ b/src/provider_options.cpp
@@ -22,7 +22,6 @@
 #include "wsrep/logger.hpp"
 
 #include <algorithm>
-#include <cassert>
 #include <cctype>
 #include <cstring>
 
@@ -148,12 +147,11 @@ enum wsrep::provider::status wsrep::provider_options::set_default(
     std::unique_ptr<wsrep::provider_options::option_value> default_value,
     int flags)
 {
-    auto found(options_.find(name));
     auto opt(std::unique_ptr<provider_options::option>(
         new option{ name, std::move(value), std::move(default_value), flags }));
-    if (found != options_.end())
+    // Options are stored by sanitized name
+    if (options_.find(opt->name()) != options_.end())
     {
-        assert(0);
         return wsrep::provider::error_not_allowed;
     }
     options_.emplace(std::string(opt->name()), std::move(opt));
-- 
2.43.0


From 181a6c6b439b5027c04d20576ba892a5a9d5f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:03 +0000
Subject: [PATCH 21/28] fix: client_state::close() must read transaction state
 under lock

---
 src/client_state.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index d4a9d32..341a5f8 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -66,13 +66,15 @@ void wsrep::client_state::close()
 
     state(lock, s_quitting);
     keep_command_error_ = false;
+    // The background rollbacker may have rolled the transaction
+    // back already while the client was idle.
+    const bool rolled_back(transaction_.state() ==
+                           wsrep::transaction::s_aborted);
     lock.unlock();
     if (transaction_.active() &&
         (mode_ != m_local || !client_service_.is_prepared_xa()))
     {
-        // The background rollbacker may have rolled the transaction
-        // back already while the client was idle.
-        if (transaction_.state() != wsrep::transaction::s_aborted)
+        if (not rolled_back)
         {
             client_service_.bf_rollback();
         }
-- 
2.43.0


From 4ccb16be9c47c0476fb113a978ea328bc25b2acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:03 +0000
Subject: [PATCH 22/28] fix: BF abort must not read streaming context of a
 session replicating a fragment

---
 src/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index a7c3e58..c48a805 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1108,7 +1108,7 @@ bool wsrep::transaction::bf_abort(
         // to initiate. Waiting for the victim here would allow it to
         // complete the rollback and clean up the streaming context.
         if (client_state_.mode() == wsrep::client_state::m_local &&
-            is_streaming() && state_at_enter == s_executing &&
+            state_at_enter == s_executing && is_streaming() &&
             not streaming_rollback_in_progress_)
         {
             streaming_rollback(lock);
-- 
2.43.0


From aa1b7517e42014a49f961cf9bc483b9e3cf59a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:53 +0000
Subject: [PATCH 23/28] fix: apply fragments of a transaction with implicit
 dependencies

Fragments of a streaming transaction which has implicit dependencies carry
the implicit_deps flag, but the applying side recognized fragments only by
an empty flag set or pa_unsafe alone and ended up in assert(0), without
assertions the fragment was silently not applied.
---
 src/server_state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 6005d01..58dab2b 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -365,7 +365,8 @@ static int apply_write_set(wsrep::server_state& server_state,
                              ws_meta,
                              data);
     }
-    else if (ws_meta.flags() == 0 || ws_meta.flags() == wsrep::provider::flag::pa_unsafe ||
+    else if ((ws_meta.flags() & ~(wsrep::provider::flag::pa_unsafe |
+                                  wsrep::provider::flag::implicit_deps)) == 0 ||
              wsrep::prepares_transaction(ws_meta.flags()))
     {
         wsrep::high_priority_service* sa(
-- 
2.43.0


From 01cf29a57135a8247af7b0bb341728f11b822b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:26 +0000
Subject: [PATCH 24/28] fix: XA decision for a transaction which is gone must
 not assert

The streaming applier of a prepared transaction may be closed between the
application's decision and commit_or_rollback_by_xid(), for example when
the server disconnects. Report an error as is done without assertions.
---
 src/transaction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index c48a805..8a2d248 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1221,7 +1221,8 @@ int wsrep::transaction::commit_or_rollback_by_xid(const wsrep::xid& xid,
 
     if (!sa)
     {
-        assert(sa);
+        // The applier may have been closed meanwhile, e.g. because of
+        // disconnect or because the transaction was decided elsewhere.
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
-- 
2.43.0


From a9b3c1507c8773feed7eab047ee41b380c41e9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:19 +0000
Subject: [PATCH 25/28] fix: clear the error when a prepared transaction is
 handed over after a command

A prepared XA transaction which is BF aborted after the result of a failed
command was sent is replayed by a streaming applier and the session has no
transaction anymore, but the already reported error stayed set and made the
next command of the session fail.
---
 src/client_state.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index 341a5f8..9aa8b49 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -223,6 +223,13 @@ void wsrep::client_state::after_command_after_result()
     {
         transaction_.after_command_must_abort(lock);
         assert(transaction_.state() == wsrep::transaction::s_aborted);
+        if (transaction_.active() == false && not keep_command_error_)
+        {
+            // A prepared transaction was handed over, there is nothing
+            // to report in the next command.
+            current_error_ = wsrep::e_success;
+            current_error_status_ = wsrep::provider::success;
+        }
     }
     else if ((transaction_.active() == false ||
               transaction_.state() == wsrep::transaction::s_prepared) &&
-- 
2.43.0


From a8ecfe28f36e64ab57efd80c92e2cc2db23b99d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:28 +0000
Subject: [PATCH 26/28] fix: release commit order if rolled back fragments
 cannot be removed

---
 src/server_state.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 58dab2b..12d4859 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -268,6 +268,14 @@ static int rollback_fragment(wsrep::server_state& server_state,
                 }
             }
         }
+        else if (ws_meta.ordered())
+        {
+            // The fragments could not be removed, but the commit order
+            // must be released anyway.
+            wsrep::mutable_buffer no_error;
+            ret = high_priority_service.log_dummy_write_set(
+                ws_handle, ws_meta, no_error);
+        }
     }
     return ret;
 }
-- 
2.43.0


From 7859374df6093cd8e4da4f7a55be38107a7004c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 27/28] fix: resync after failed desync_and_pause() only if
 desync succeeded

---
 src/server_state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 12d4859..8d0cfb0 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -630,7 +630,10 @@ wsrep::seqno wsrep::server_state::desync_and_pause()
     if (ret.is_undefined())
     {
         wsrep::log_warning() << "Failed to pause provider";
-        resync();
+        if (desync_successful)
+        {
+            resync();
+        }
         return wsrep::seqno::undefined();
     }
     else
-- 
2.43.0


From 2c052b15c836d231515de52379445acb0db11222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 28/28] fix: wake up waiting pause() calls if pausing the
 provider fails

---
 src/server_state.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 8d0cfb0..8de2b97 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -585,6 +585,8 @@ wsrep::seqno wsrep::server_state::pause()
     if (pause_seqno_.is_undefined())
     {
         --pause_count_;
+        // Let the next pause() waiting for its turn to proceed.
+        cond_.notify_all();
     }
     return pause_seqno_;
 }
-- 
2.43.0

