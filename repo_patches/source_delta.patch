From 25f07c739c0e93ee23c31f04576e68960500f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:14 +0000
Subject: [PATCH 01/50] fix: a leader must not commit entries of earlier terms
 by counting replicas

---
 src/raft_server_resp_handlers.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index c1a4ab9..29507b7 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -114,7 +114,15 @@ void raft_server::handle_append_entries_resp(resp_msg& resp)
         }
 
         std::sort(matched_indexes.begin(), matched_indexes.end(), std::greater<ulong>());
-        commit(matched_indexes[(peers_.size() + 1) / 2]);
+        ulong quorum_idx = matched_indexes[(peers_.size() + 1) / 2];
+
+        // entries from previous terms must not be committed by counting replicas, they get committed along with an
+        // entry of current term (refer to section 5.4.2 of the Raft paper)
+        if (quorum_idx > quick_commit_idx_ && term_for_log(quorum_idx) == state_->get_term())
+        {
+            commit(quorum_idx);
+        }
+
         need_to_catchup = p->clear_pending_commit() || resp.get_next_idx() < log_store_->next_slot();
     }
     else
-- 
2.43.0


From ee5195c598c937742387c180f3d036f51a12a060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:14 +0000
Subject: [PATCH 02/50] fix: ignore responses that belong to an earlier term

---
 src/raft_server_resp_handlers.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 29507b7..a78c692 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -61,6 +61,13 @@ void raft_server::handle_peer_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>
         }
 
         // ignore the response that with lower term for safety
+        if (resp->get_term() < state_->get_term())
+        {
+            l_->info(sstrfmt("Received an outdated response at term %llu v.s. current term %llu")
+                         .fmt(resp->get_term(), state_->get_term()));
+            return;
+        }
+
         switch (resp->get_type())
         {
             case msg_type::vote_response:
-- 
2.43.0


From fc96e28e61431f51a9fe44320fed61e694e6a9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:14 +0000
Subject: [PATCH 03/50] fix: a new leader must forget the match indexes of its
 earlier leaderships

---
 src/raft_server.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 2cd053b..bfec783 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -439,6 +439,7 @@ void raft_server::become_leader()
         for (peer_itor it = peers_.begin(); it != peers_.end(); ++it)
         {
             it->second->set_next_log_idx(log_store_->next_slot());
+            it->second->set_matched_idx(0);
             it->second->set_snapshot_in_sync(nil_snp);
             it->second->set_free();
             enable_hb_for_peer(*(it->second));
-- 
2.43.0


From 0ea6fdf538aaec8e488d86fc4a52527ff63e79ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:59 +0000
Subject: [PATCH 04/50] fix: roll back every entry that a conflicting append
 removes from the log, not only the overwritten one

---
 src/raft_server_req_handlers.cxx | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 41d9891..88d3787 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -137,20 +137,26 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
             }
         }
 
-        // dealing with overwrites
-        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        // dealing with overwrites, all entries from the first conflicting one will be gone, so roll back all of them
+        if (log_idx < req.log_entries().size())
         {
-            ptr<log_entry> old_entry(log_store_->entry_at(idx));
-            if (old_entry->get_val_type() == log_val_type::app_log)
-            {
-                state_machine_->rollback(idx, old_entry->get_buf(), old_entry->get_cookie());
-            }
-            else if (old_entry->get_val_type() == log_val_type::conf)
+            for (ulong old_idx = log_store_->next_slot(); old_idx-- > idx;)
             {
-                l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
-                config_changing_ = false;
+                ptr<log_entry> old_entry(log_store_->entry_at(old_idx));
+                if (old_entry->get_val_type() == log_val_type::app_log)
+                {
+                    state_machine_->rollback(old_idx, old_entry->get_buf(), old_entry->get_cookie());
+                }
+                else if (old_entry->get_val_type() == log_val_type::conf)
+                {
+                    l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
+                    config_changing_ = false;
+                }
             }
+        }
 
+        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        {
             ptr<log_entry> entry = req.log_entries().at(log_idx);
             log_store_->write_at(idx, entry);
             if (entry->get_val_type() == log_val_type::app_log)
-- 
2.43.0


From 39628d7f2d2570a27f9704b73275b29709656002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:59 +0000
Subject: [PATCH 05/50] fix: a follower must not commit entries beyond the ones
 verified by the append request

---
 src/raft_server_req_handlers.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 88d3787..d2cd35f 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -191,7 +191,8 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     }
 
     leader_ = req.get_src();
-    commit(req.get_commit_idx());
+    // only entries that are verified by this request are known to be the same as leader's
+    commit(std::min(req.get_commit_idx(), req.get_last_log_idx() + (ulong)req.log_entries().size()));
     resp->accept(req.get_last_log_idx() + req.log_entries().size() + 1);
     return resp;
 }
-- 
2.43.0


From dbe2b9e48befa3da39fddfc52cdccebec015d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:59 +0000
Subject: [PATCH 06/50] fix: compare logs with the term of the snapshot when
 the log store has been fully compacted

---
 src/raft_server_req_handlers.cxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index d2cd35f..2b90175 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -200,9 +200,10 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
 ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::vote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
-                     log_store_->next_slot() - 1 <= req.get_last_log_idx());
+    ulong last_log_term = term_for_log(log_store_->next_slot() - 1);
+    bool log_okay =
+        req.get_last_log_term() > last_log_term ||
+        (req.get_last_log_term() == last_log_term && log_store_->next_slot() - 1 <= req.get_last_log_idx());
     bool grant = req.get_term() == state_->get_term() && log_okay &&
                  (state_->get_voted_for() == req.get_src() || state_->get_voted_for() == -1);
     if (grant)
@@ -218,9 +219,10 @@ ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 ptr<resp_msg> raft_server::handle_prevote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::prevote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
-                     log_store_->next_slot() - 1 <= req.get_last_log_idx());
+    ulong last_log_term = term_for_log(log_store_->next_slot() - 1);
+    bool log_okay =
+        req.get_last_log_term() > last_log_term ||
+        (req.get_last_log_term() == last_log_term && log_store_->next_slot() - 1 <= req.get_last_log_idx());
     bool grant = req.get_term() >= state_->get_term() && log_okay;
     if (ctx_->params_->defensive_prevote_)
     {
-- 
2.43.0


From b1f2ba199b3a833ebc6525d38bcc5741b670d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:41 +0000
Subject: [PATCH 07/50] fix: start a new pre-vote round when the previous one
 got stuck because of lost messages

---
 src/raft_server.cxx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index bfec783..e5c0aef 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -218,14 +218,17 @@ void raft_server::handle_election_timeout()
 
     if (ctx_->params_->prevote_enabled_ && role_ == srv_role::follower)
     {
-        if (prevote_state_ && !prevote_state_->empty())
+        if (prevote_state_)
         {
-            l_->debug("Election timeout, but there is already a prevote ongoing, ignore this event");
+            // some responses for the previous round must have been lost, start a new round
+            prevote_state_->reset();
         }
-        else
+
+        l_->debug("Election timeout, start prevoting");
+        request_prevote();
+        if (role_ == srv_role::follower)
         {
-            l_->debug("Election timeout, start prevoting");
-            request_prevote();
+            restart_election_timer();
         }
     }
     else
-- 
2.43.0


From 5b650d0dd8e0a464bb336518e06257fe4ff394a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:41 +0000
Subject: [PATCH 08/50] fix: abandon the pre-vote round when the leader is
 heard again

---
 src/raft_server_req_handlers.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 2b90175..2767926 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -101,6 +101,7 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         }
         else
         {
+            prevote_state_.reset();
             restart_election_timer();
         }
     }
@@ -320,6 +321,7 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
         }
         else
         {
+            prevote_state_.reset();
             restart_election_timer();
         }
     }
-- 
2.43.0


From 5314e7a0648a71069a641f180f3a925b7b3e292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:41 +0000
Subject: [PATCH 09/50] fix: a candidate whose election timed out must pass a
 pre-vote again before it raises its term

---
 src/raft_server.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index e5c0aef..52969ac 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -216,7 +216,7 @@ void raft_server::handle_election_timeout()
         return;
     }
 
-    if (ctx_->params_->prevote_enabled_ && role_ == srv_role::follower)
+    if (ctx_->params_->prevote_enabled_ && (role_ == srv_role::follower || role_ == srv_role::candidate))
     {
         if (prevote_state_)
         {
@@ -226,7 +226,7 @@ void raft_server::handle_election_timeout()
 
         l_->debug("Election timeout, start prevoting");
         request_prevote();
-        if (role_ == srv_role::follower)
+        if (prevote_state_)
         {
             restart_election_timer();
         }
-- 
2.43.0


From c9f3f3ca1849be38cf9da53edb91b1e041b132d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:00 +0000
Subject: [PATCH 10/50] fix: send a snapshot to a peer that needs entries which
 have been compacted away

---
 src/raft_server.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 52969ac..3d32fee 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -673,8 +673,12 @@ ptr<req_msg> raft_server::create_append_entries_req(peer& p)
         return ptr<req_msg>();
     }
 
-    // for syncing the snapshots, for starting_idx - 1, we can check with last snapshot
-    if (last_log_idx > 0 && last_log_idx < starting_idx - 1)
+    // for syncing the snapshots, for starting_idx - 1, we can check with last snapshot, as long as that is where the last
+    // snapshot ends
+    ptr<snapshot> last_snapshot(state_machine_->last_snapshot());
+    if (last_log_idx < starting_idx - 1 ||
+        (last_log_idx > 0 && last_log_idx == starting_idx - 1 &&
+         (!last_snapshot || last_snapshot->get_last_log_idx() != last_log_idx)))
     {
         return create_sync_snapshot_req(p, last_log_idx, term, commit_idx);
     }
@@ -813,7 +817,7 @@ ptr<req_msg> raft_server::create_sync_snapshot_req(peer& p, ulong last_log_idx,
         {
             l_->err(lstrfmt("system is running into fatal errors, failed to find a snapshot for peer %d(snapshot null: "
                             "%d, snapshot doesn't contais lastLogIndex: %d")
-                        .fmt(p.get_id(), snp == nilptr ? 1 : 0, last_log_idx > snp->get_last_log_idx() ? 1 : 0));
+                        .fmt(p.get_id(), snp == nilptr ? 1 : 0, snp != nilptr && last_log_idx > snp->get_last_log_idx() ? 1 : 0));
             ctx_->state_mgr_->system_exit(-1);
             return ptr<req_msg>();
         }
-- 
2.43.0


From 6a129bce3268b83697ca44c0c9d648e91fe991d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:00 +0000
Subject: [PATCH 11/50] fix: keep the size of a snapshot that was created
 locally and never compact backwards

---
 src/raft_server.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 3d32fee..8ebd726 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -629,10 +629,14 @@ void raft_server::on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr
             recur_lock(lock_);
             l_->debug("snapshot created, compact the log store");
 
-            last_snapshot_ = s;
-            if (s->get_last_log_idx() > (ulong)ctx_->params_->reserved_log_items_)
+            // the state machine knows the size of the snapshot, and it may have received a newer one meanwhile
+            ptr<snapshot> latest(state_machine_->last_snapshot());
+            last_snapshot_ = latest ? latest : s;
+            ulong last_log_idx = last_snapshot_->get_last_log_idx();
+            ulong reserved = (ulong)ctx_->params_->reserved_log_items_;
+            if (last_log_idx > reserved && last_log_idx - reserved >= log_store_->start_index())
             {
-                log_store_->compact(s->get_last_log_idx() - (ulong)ctx_->params_->reserved_log_items_);
+                log_store_->compact(last_log_idx - reserved);
             }
         }
     } while (false);
-- 
2.43.0


From 4fd826c7e4e2ecabe13dfe37478fffbe23fb1f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:00 +0000
Subject: [PATCH 12/50] fix: let leader move on when a follower already has
 what is in the snapshot

---
 src/raft_server_req_handlers.cxx  | 2 ++
 src/raft_server_resp_handlers.cxx | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 2767926..3911a5c 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -343,8 +343,10 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
     ptr<snapshot_sync_req> sync_req(snapshot_sync_req::deserialize(entries[0]->get_buf()));
     if (sync_req->get_snapshot().get_last_log_idx() <= sm_commit_index_)
     {
+        // this server has everything that is in the snapshot, tell leader to move on, otherwise leader will retry forever
         l_->warn(sstrfmt("received a snapshot (%llu) that is older than current log store")
                      .fmt(sync_req->get_snapshot().get_last_log_idx()));
+        resp->accept(sync_req->get_snapshot().size());
         return resp;
     }
 
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index a78c692..d32d259 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -187,7 +187,7 @@ void raft_server::handle_install_snapshot_resp(resp_msg& resp)
                 p->set_next_log_idx(sync_ctx->get_snapshot()->get_last_log_idx() + 1);
                 p->set_matched_idx(sync_ctx->get_snapshot()->get_last_log_idx());
                 p->set_snapshot_in_sync(nil_snp);
-                need_to_catchup = p->clear_pending_commit() || resp.get_next_idx() < log_store_->next_slot();
+                need_to_catchup = p->clear_pending_commit() || p->get_next_log_idx() < log_store_->next_slot();
             }
             else
             {
-- 
2.43.0


From a08bebac7e8fe712fd4c0ca35d046c7a709eb4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:00 +0000
Subject: [PATCH 13/50] fix: a follower must survive append requests that start
 before its compacted log

---
 src/raft_server_req_handlers.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 3911a5c..2b39b12 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -112,8 +112,11 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     // log_store_->next_slot() for the leader to quick jump to the index that might aligned
     ptr<resp_msg> resp(cs_new<resp_msg>(
         state_->get_term(), msg_type::append_entries_response, id_, req.get_src(), log_store_->next_slot()));
-    bool log_okay = req.get_last_log_idx() == 0 || (req.get_last_log_idx() < log_store_->next_slot() &&
-                                                    req.get_last_log_term() == term_for_log(req.get_last_log_idx()));
+    // All entries before log_store_->start_index() are committed, so that they are the same as leader's
+    ulong first_idx = log_store_->start_index();
+    bool log_okay = req.get_last_log_idx() < first_idx ||
+                    (req.get_last_log_idx() < log_store_->next_slot() &&
+                     req.get_last_log_term() == log_store_->term_at(req.get_last_log_idx()));
     if (req.get_term() < state_->get_term() || !log_okay)
     {
         return resp;
@@ -127,7 +130,7 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         size_t log_idx = 0;
         while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
         {
-            if (log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())
+            if (idx < first_idx || log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())
             {
                 idx++;
                 log_idx++;
-- 
2.43.0


From a6669e4035c310b12649535b211b46af1870fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:09 +0000
Subject: [PATCH 14/50] fix: do not install a snapshot while the committing
 thread is applying an entry

---
 include/raft_server.hxx          |  1 +
 src/raft_server.cxx              | 36 +++++++++++++++++++++++++++-----
 src/raft_server_req_handlers.cxx |  7 +++++++
 3 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index d9044fc..12e0e2b 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -143,6 +143,7 @@ private:
     ptr<srv_config> conf_to_add_;
     std::recursive_mutex lock_;
     std::mutex commit_lock_;
+    std::mutex apply_lock_;
     std::mutex rpc_clients_lock_;
     std::condition_variable commit_cv_;
     std::mutex stopping_lock_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 8ebd726..ce8352f 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -75,6 +75,7 @@ raft_server::raft_server(context* ctx)
       conf_to_add_(),
       lock_(),
       commit_lock_(),
+      apply_lock_(),
       rpc_clients_lock_(),
       commit_cv_(),
       stopping_lock_(),
@@ -920,17 +921,33 @@ void raft_server::commit_in_bg()
                 }
             }
 
-            while (sm_commit_index_ < quick_commit_idx_ && sm_commit_index_ < log_store_->next_slot() - 1)
+            while (true)
             {
-                sm_commit_index_ += 1;
-                ptr<log_entry> log_entry(log_store_->entry_at(sm_commit_index_));
+                // a snapshot must not be installed while an entry is being applied
+                std::unique_lock<std::mutex> apply_guard(apply_lock_);
+                if (sm_commit_index_ >= quick_commit_idx_ || sm_commit_index_ >= log_store_->next_slot() - 1)
+                {
+                    break;
+                }
+
+                ulong idx_to_apply = sm_commit_index_ + 1;
+                ptr<log_entry> log_entry(log_store_->entry_at(idx_to_apply));
                 if (log_entry->get_val_type() == log_val_type::app_log)
                 {
-                    state_machine_->commit(sm_commit_index_, log_entry->get_buf(), log_entry->get_cookie());
+                    sm_commit_index_ = idx_to_apply;
+                    state_machine_->commit(idx_to_apply, log_entry->get_buf(), log_entry->get_cookie());
                 }
                 else if (log_entry->get_val_type() == log_val_type::conf)
                 {
+                    apply_guard.unlock();
                     recur_lock(lock_);
+                    if (sm_commit_index_ + 1 != idx_to_apply)
+                    {
+                        // a snapshot was installed before the lock could be acquired
+                        continue;
+                    }
+
+                    sm_commit_index_ = idx_to_apply;
                     log_entry->get_buf().pos(0);
                     ptr<cluster_config> new_conf = cluster_config::deserialize(log_entry->get_buf());
                     l_->info(sstrfmt("config at index %llu is committed").fmt(new_conf->get_log_idx()));
@@ -947,8 +964,17 @@ void raft_server::commit_in_bg()
                         catching_up_ = false;
                     }
                 }
+                else
+                {
+                    sm_commit_index_ = idx_to_apply;
+                }
+
+                if (apply_guard)
+                {
+                    apply_guard.unlock();
+                }
 
-                snapshot_and_compact(sm_commit_index_);
+                snapshot_and_compact(idx_to_apply);
             }
         }
         catch (std::exception& err)
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 2b39b12..274697e 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -376,6 +376,13 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
                 ::exit(-1);
             }
 
+            std::unique_lock<std::mutex> apply_guard(apply_lock_, std::try_to_lock);
+            if (!apply_guard)
+            {
+                l_->info("a log entry is being applied to the state machine, will ask the leader to retry");
+                return false;
+            }
+
             l_->debug("sucessfully receive a snapshot from leader");
             if (log_store_->compact(req.get_snapshot().get_last_log_idx()))
             {
-- 
2.43.0


From 18d2f097e6968206752eeb9d1d60e004140a7597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:09 +0000
Subject: [PATCH 15/50] fix: a crash while a snapshot is being installed must
 not make the server unable to start

---
 src/raft_server.cxx              |  6 ++++
 src/raft_server_req_handlers.cxx | 58 +++++++++++++++++---------------
 2 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index ce8352f..13bc142 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -99,6 +99,12 @@ raft_server::raft_server(context* ctx)
         state_->set_voted_for(-1);
     }
 
+    if (last_snapshot_ && last_snapshot_->get_last_log_idx() >= log_store_->next_slot())
+    {
+        // the server went down after a snapshot was installed but before the log store was compacted
+        log_store_->compact(last_snapshot_->get_last_log_idx());
+    }
+
     /**
      * I found this implementation is also a victim of bug https://groups.google.com/forum/#!topic/raft-dev/t4xj6dJTP6E
      * As the implementation is based on Diego's thesis
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 274697e..1aeac92 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -349,7 +349,12 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
         // this server has everything that is in the snapshot, tell leader to move on, otherwise leader will retry forever
         l_->warn(sstrfmt("received a snapshot (%llu) that is older than current log store")
                      .fmt(sync_req->get_snapshot().get_last_log_idx()));
-        resp->accept(sync_req->get_snapshot().size());
+        if (sync_req->get_snapshot().get_last_log_idx() < log_store_->next_slot() ||
+            log_store_->compact(sm_commit_index_))
+        {
+            resp->accept(sync_req->get_snapshot().size());
+        }
+
         return resp;
     }
 
@@ -384,35 +389,32 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
             }
 
             l_->debug("sucessfully receive a snapshot from leader");
-            if (log_store_->compact(req.get_snapshot().get_last_log_idx()))
-            {
-                // The state machine will not be able to commit anything before the snapshot is applied, so make this
-                // synchronously with election timer stopped as usually applying a snapshot may take a very long time
-                stop_election_timer();
-                l_->info("successfully compact the log store, will now ask the statemachine to apply the snapshot");
-                if (!state_machine_->apply_snapshot(req.get_snapshot()))
-                {
-                    l_->info("failed to apply the snapshot after log compacted, to ensure the safety, will shutdown "
-                             "the system");
-                    ctx_->state_mgr_->system_exit(-1);
-                    ::exit(-1);
-                    return false;
-                }
 
-                reconfigure(req.get_snapshot().get_last_config());
-                ctx_->state_mgr_->save_config(*config_);
-                sm_commit_index_ = req.get_snapshot().get_last_log_idx();
-                quick_commit_idx_ = req.get_snapshot().get_last_log_idx();
-                ctx_->state_mgr_->save_state(*state_);
-                last_snapshot_ = cs_new<snapshot>(
-                    req.get_snapshot().get_last_log_idx(),
-                    req.get_snapshot().get_last_log_term(),
-                    config_,
-                    req.get_snapshot().size());
-                restart_election_timer();
-                l_->info("snapshot is successfully applied");
+            // The state machine will not be able to commit anything before the snapshot is applied, so make this
+            // synchronously with election timer stopped as usually applying a snapshot may take a very long time.
+            // The logs must not be dropped before the snapshot is applied, as this server may crash in between
+            stop_election_timer();
+            if (!state_machine_->apply_snapshot(req.get_snapshot()))
+            {
+                l_->info("failed to apply the snapshot, to ensure the safety, will shutdown the system");
+                ctx_->state_mgr_->system_exit(-1);
+                ::exit(-1);
+                return false;
             }
-            else
+
+            reconfigure(req.get_snapshot().get_last_config());
+            ctx_->state_mgr_->save_config(*config_);
+            sm_commit_index_ = req.get_snapshot().get_last_log_idx();
+            quick_commit_idx_ = req.get_snapshot().get_last_log_idx();
+            ctx_->state_mgr_->save_state(*state_);
+            last_snapshot_ = cs_new<snapshot>(
+                req.get_snapshot().get_last_log_idx(),
+                req.get_snapshot().get_last_log_term(),
+                config_,
+                req.get_snapshot().size());
+            restart_election_timer();
+            l_->info("snapshot is successfully applied, will now compact the log store");
+            if (!log_store_->compact(req.get_snapshot().get_last_log_idx()))
             {
                 l_->err("failed to compact the log store after a snapshot is received, will ask the leader to retry");
                 return false;
-- 
2.43.0


From 275742f36397fa858aa554fb8c3cb1a28bb233e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:09 +0000
Subject: [PATCH 16/50] fix: a crash while a snapshot is being installed must
 not lose its configuration

---
 src/raft_server.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 13bc142..22ce45d 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -105,6 +105,14 @@ raft_server::raft_server(context* ctx)
         log_store_->compact(last_snapshot_->get_last_log_idx());
     }
 
+    if (last_snapshot_ && last_snapshot_->get_last_log_idx() <= sm_commit_index_ &&
+        last_snapshot_->get_last_config()->get_log_idx() > config_->get_log_idx())
+    {
+        // same for the configuration that came along with the snapshot
+        config_ = last_snapshot_->get_last_config();
+        ctx_->state_mgr_->save_config(*config_);
+    }
+
     /**
      * I found this implementation is also a victim of bug https://groups.google.com/forum/#!topic/raft-dev/t4xj6dJTP6E
      * As the implementation is based on Diego's thesis
-- 
2.43.0


From 909b277e2715d99e1c08527b30ddabe67026e211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:09 +0000
Subject: [PATCH 17/50] fix: do not stop the server when it is about to create
 a snapshot before the initial configuration

---
 src/raft_server.cxx | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 22ce45d..5e40693 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -577,10 +577,16 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
             l_->info(sstrfmt("creating a snapshot for index %llu").fmt(committed_idx));
 
             // get the latest configuration info
-            ptr<cluster_config> conf(config_);
+            ptr<cluster_config> conf;
+            {
+                recur_lock(lock_);
+                conf = config_;
+            }
+
             while (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() >= log_store_->start_index())
             {
                 ptr<log_entry> conf_log(log_store_->entry_at(conf->get_prev_log_idx()));
+                conf_log->get_buf().pos(0);
                 conf = cluster_config::deserialize(conf_log->get_buf());
             }
 
@@ -599,8 +605,9 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
             }
             else if (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() == 0)
             {
-                l_->err("BUG!!! stop the system, there must be a configuration at index one");
-                ctx_->state_mgr_->system_exit(-1);
+                // this server wrote the initial configuration to its log after it got logs from previous leaders
+                l_->info("the initial configuration is not committed yet, skip this snapshot");
+                snp_in_progress_.store(false);
                 return;
             }
 
-- 
2.43.0


From 26a27e6f1a92988a6fb8905e52a7266c5ef275a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:09 +0000
Subject: [PATCH 18/50] fix: a configuration change is in progress as long as
 any configuration in the log is not committed

---
 include/raft_server.hxx          |  1 +
 src/raft_server.cxx              | 28 +++++++++++++++++-----------
 src/raft_server_req_handlers.cxx |  4 +++-
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 12e0e2b..c1613e2 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -110,6 +110,7 @@ private:
     void on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req);
     ulong term_for_log(ulong log_idx);
     void commit_in_bg();
+    bool has_conf_log(ulong start, ulong end);
     ptr<async_result<bool>> send_msg_to_leader(ptr<req_msg>& req);
 
 private:
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 5e40693..1949ecc 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -129,16 +129,7 @@ raft_server::raft_server(context* ctx)
      * - 1) + Majority(S0) > S0 => Vote(A) < Majority(S0)
      * -|
      */
-    for (ulong i = std::max(sm_commit_index_ + 1, log_store_->start_index()); i < log_store_->next_slot(); ++i)
-    {
-        ptr<log_entry> entry(log_store_->entry_at(i));
-        if (entry->get_val_type() == log_val_type::conf)
-        {
-            l_->info(sstrfmt("detect a configuration change that is not committed yet at index %llu").fmt(i));
-            config_changing_ = true;
-            break;
-        }
-    }
+    config_changing_ = has_conf_log(sm_commit_index_ + 1, log_store_->next_slot());
 
     std::list<ptr<srv_config>>& srvs(config_->get_servers());
     for (cluster_config::srv_itor it = srvs.begin(); it != srvs.end(); ++it)
@@ -913,6 +904,21 @@ ulong raft_server::term_for_log(ulong log_idx)
     return last_snapshot->get_last_log_term();
 }
 
+bool raft_server::has_conf_log(ulong start, ulong end)
+{
+    for (ulong i = std::max(start, log_store_->start_index()); i < end; ++i)
+    {
+        ptr<log_entry> entry(log_store_->entry_at(i));
+        if (entry->get_val_type() == log_val_type::conf)
+        {
+            l_->info(sstrfmt("detect a configuration change that is not committed yet at index %llu").fmt(i));
+            return true;
+        }
+    }
+
+    return false;
+}
+
 void raft_server::commit_in_bg()
 {
     while (true)
@@ -973,7 +979,7 @@ void raft_server::commit_in_bg()
                     ptr<cluster_config> new_conf = cluster_config::deserialize(log_entry->get_buf());
                     l_->info(sstrfmt("config at index %llu is committed").fmt(new_conf->get_log_idx()));
                     ctx_->state_mgr_->save_config(*new_conf);
-                    config_changing_ = false;
+                    config_changing_ = has_conf_log(idx_to_apply + 1, log_store_->next_slot());
                     if (config_->get_log_idx() < new_conf->get_log_idx())
                     {
                         reconfigure(new_conf);
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 1aeac92..c7d44b2 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -154,7 +154,7 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
                 else if (old_entry->get_val_type() == log_val_type::conf)
                 {
                     l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
-                    config_changing_ = false;
+                    config_changing_ = has_conf_log(sm_commit_index_ + 1, old_idx);
                 }
             }
         }
@@ -419,6 +419,8 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
                 l_->err("failed to compact the log store after a snapshot is received, will ask the leader to retry");
                 return false;
             }
+
+            config_changing_ = has_conf_log(sm_commit_index_ + 1, log_store_->next_slot());
         }
     }
     catch (...)
-- 
2.43.0


From a571ae7e853465d5656ec94d2fa0e3de3a571b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:09 +0000
Subject: [PATCH 19/50] fix: only responses of the server that is joining may
 drive the join, and a declined join ends

---
 src/raft_server_req_handlers.cxx  |  2 +-
 src/raft_server_resp_handlers.cxx | 19 +++++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index c7d44b2..037a55c 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -523,7 +523,7 @@ ptr<resp_msg> raft_server::handle_add_srv_req(req_msg& req)
         }
     }
 
-    if (config_changing_)
+    if (config_changing_ || srv_to_join_)
     {
         // the previous config has not committed yet
         l_->info("previous config has not committed yet");
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index d32d259..cc33603 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -310,8 +310,15 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
     switch (resp->get_type())
     {
         case msg_type::sync_log_response:
-            if (srv_to_join_)
+            if (srv_to_join_ && srv_to_join_->get_id() == resp->get_src())
             {
+                if (!resp->get_accepted())
+                {
+                    l_->info("new server doesn't accept the logs, give up");
+                    srv_to_join_.reset();
+                    break;
+                }
+
                 // we are reusing heartbeat interval value to indicate when to stop retry
                 srv_to_join_->resume_hb_speed();
                 srv_to_join_->set_next_log_idx(resp->get_next_idx());
@@ -320,7 +327,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             }
             break;
         case msg_type::join_cluster_response:
-            if (srv_to_join_)
+            if (srv_to_join_ && srv_to_join_->get_id() == resp->get_src())
             {
                 if (resp->get_accepted())
                 {
@@ -330,6 +337,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
                 else
                 {
                     l_->debug("new server cannot accept the invitation, give up");
+                    srv_to_join_.reset();
                 }
             }
             else
@@ -349,7 +357,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             break;
         case msg_type::install_snapshot_response:
         {
-            if (!srv_to_join_)
+            if (!srv_to_join_ || srv_to_join_->get_id() != resp->get_src())
             {
                 l_->info("no server to join, the response must be very old.");
                 return;
@@ -358,15 +366,14 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             if (!resp->get_accepted())
             {
                 l_->info("peer doesn't accept the snapshot installation request");
+                srv_to_join_.reset();
                 return;
             }
 
             ptr<snapshot_sync_ctx> sync_ctx = srv_to_join_->get_snapshot_sync_ctx();
             if (sync_ctx == nilptr)
             {
-                l_->err("Bug! SnapshotSyncContext must not be null");
-                ctx_->state_mgr_->system_exit(-1);
-                ::exit(-1);
+                l_->info("no snapshot is being synced to the new server, the response must be very old.");
                 return;
             }
 
-- 
2.43.0


From d09cdec8e35cac64c3d7fdbaf4f553a045677908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:09 +0000
Subject: [PATCH 20/50] fix: start a configuration change only as leader and
 only when no other one is in progress

---
 src/raft_server_req_handlers.cxx  | 17 +++++++++++++++++
 src/raft_server_resp_handlers.cxx | 13 +++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 037a55c..05969c8 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -566,6 +566,23 @@ void raft_server::sync_log_to_new_srv(ulong start_idx)
     int32 gap = (int32)(quick_commit_idx_ - start_idx);
     if (gap < ctx_->params_->log_sync_stop_gap_)
     {
+        if (config_changing_)
+        {
+            // another server is being removed, the new server cannot be added before that is committed
+            ptr<peer> p(srv_to_join_);
+            timer_task<void>::executor exec = [this, p, start_idx]()
+            {
+                recur_lock(lock_);
+                if (srv_to_join_ == p)
+                {
+                    sync_log_to_new_srv(start_idx);
+                }
+            };
+            ptr<delayed_task> task(cs_new<timer_task<void>>(exec));
+            scheduler_->schedule(task, ctx_->params_->heart_beat_interval_);
+            return;
+        }
+
         l_->info(lstrfmt("LogSync is done for server %d with log gap %d, now put the server into cluster")
                      .fmt(srv_to_join_->get_id(), gap));
         ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_log_idx());
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index cc33603..deeb46a 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -352,6 +352,12 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
                 return;
             }
 
+            if (role_ != srv_role::leader || config_changing_ || !config_->get_server(resp->get_src()))
+            {
+                l_->info("not able to remove the server as this is not the leader or another config is not committed yet");
+                return;
+            }
+
             l_->debug("peer accepted to stepping down, removing this server from cluster");
             rm_srv_from_cluster(resp->get_src());
             break;
@@ -435,6 +441,13 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
             {
                 if (req->get_type() == msg_type::leave_cluster_request)
                 {
+                    if (role_ != srv_role::leader || config_changing_ || !config_->get_server(p->get_id()))
+                    {
+                        l_->info("not able to remove the server as this is not the leader or another config is not "
+                                 "committed yet");
+                        return;
+                    }
+
                     l_->info(lstrfmt("rpc failed again for the removing server (%d), will remove this server directly")
                                  .fmt(p->get_id()));
 
-- 
2.43.0


From 61606cc42a5c409ca8b40be49d56bf4d5b5c2fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:09 +0000
Subject: [PATCH 21/50] fix: a failed join must not hide an uncommitted
 configuration, and must be retried while syncing a snapshot

---
 src/raft_server_req_handlers.cxx  | 8 ++++++++
 src/raft_server_resp_handlers.cxx | 5 ++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 05969c8..236ef07 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -436,6 +436,14 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
 
 void raft_server::on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req)
 {
+    recur_lock(lock_);
+    if (role_ != srv_role::leader || req->get_term() != state_->get_term() ||
+        (req->get_type() != msg_type::leave_cluster_request && srv_to_join_ != p))
+    {
+        l_->info("the request is outdated, stop retrying");
+        return;
+    }
+
     l_->debug(sstrfmt("retry the request %s for %d").fmt(__msg_type_str[req->get_type()], p->get_id()));
     p->send_req(req, ex_resp_handler_);
 }
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index deeb46a..919afaf 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -418,7 +418,7 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
     l_->debug(lstrfmt("receive an rpc error response from peer server, %s").fmt(err.what()));
     ptr<req_msg> req = err.req();
     if (req->get_type() == msg_type::sync_log_request || req->get_type() == msg_type::join_cluster_request ||
-        req->get_type() == msg_type::leave_cluster_request)
+        req->get_type() == msg_type::leave_cluster_request || req->get_type() == msg_type::install_snapshot_request)
     {
         ptr<peer> p;
         if (req->get_type() == msg_type::leave_cluster_request)
@@ -430,7 +430,7 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                 p = pit->second;
             }
         }
-        else
+        else if (srv_to_join_ && srv_to_join_->get_id() == req->get_dst())
         {
             p = srv_to_join_;
         }
@@ -483,7 +483,6 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                 {
                     l_->info(lstrfmt("rpc failed again for the new coming server (%d), will stop retry for this server")
                                  .fmt(p->get_id()));
-                    config_changing_ = false;
                     srv_to_join_.reset();
                 }
             }
-- 
2.43.0


From 4856f328271d83efc89f4ac0ff6cca6cf6d6b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:09 +0000
Subject: [PATCH 22/50] fix: a member must not reset itself on an old join
 request

---
 src/raft_server_req_handlers.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 236ef07..7a65832 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -659,6 +659,12 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
         return resp;
     }
 
+    if (config_->get_log_idx() > 0 && config_->get_server(id_) && config_->get_server(req.get_src()))
+    {
+        l_->info("this server is already a member of the cluster, the request must be very old");
+        return resp;
+    }
+
     catching_up_ = true;
     role_ = srv_role::follower;
     leader_ = req.get_src();
-- 
2.43.0


From e0164ee82760fbce4cf2bd4306d20b174a74de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:15 +0000
Subject: [PATCH 23/50] fix: a leader must find out at any time whether it
 still hears from a majority

---
 src/raft_server.cxx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 1949ecc..5adadb4 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1117,10 +1117,8 @@ ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
 
 bool raft_server::is_leader() const
 {
-    static volatile int32 time_elasped_since_quorum_resp(std::numeric_limits<int32>::max());
     read_lock(peers_lock_);
-    if (role_ == srv_role::leader && peers_.size() > 0 &&
-        time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
+    if (role_ == srv_role::leader && peers_.size() > 0)
     {
         std::vector<time_point> peer_resp_times;
         for (auto& peer : peers_)
@@ -1129,11 +1127,11 @@ bool raft_server::is_leader() const
         }
 
         std::sort(peer_resp_times.begin(), peer_resp_times.end());
-        time_elasped_since_quorum_resp =
-            static_cast<int32>(std::chrono::duration_cast<std::chrono::milliseconds>(
-                                   system_clock::now() - peer_resp_times[peers_.size() / 2])
-                                   .count());
-        if (time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
+        int64_t time_elasped_since_quorum_resp =
+            static_cast<int64_t>(std::chrono::duration_cast<std::chrono::milliseconds>(
+                                     system_clock::now() - peer_resp_times[peers_.size() / 2])
+                                     .count());
+        if (time_elasped_since_quorum_resp > static_cast<int64_t>(ctx_->params_->election_timeout_upper_bound_) * 2)
         {
             return false;
         }
-- 
2.43.0


From 8a458be82068e170d02210949438969bd1bcd36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:15 +0000
Subject: [PATCH 24/50] fix: replicate_log must report success, announce the
 entry and not race with term changes

---
 src/raft_server.cxx | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 5adadb4..88cfe18 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1142,6 +1142,7 @@ bool raft_server::is_leader() const
 
 bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cookie_tag)
 {
+    recur_lock(lock_);
     if (!is_leader())
     {
         return false;
@@ -1153,11 +1154,8 @@ bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cooki
         entry->set_cookie(cookie_tag, cookie);
     }
 
-    log_store_->append(entry);
-    {
-        recur_lock(lock_);
-        request_append_entries();
-    }
-
-    return false;
+    ulong log_idx = log_store_->append(entry);
+    state_machine_->pre_commit(log_idx, entry->get_buf(), entry->get_cookie());
+    request_append_entries();
+    return true;
 }
-- 
2.43.0


From 00fcea6d718a28d417b9387c0a29c212ee2dbf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:15 +0000
Subject: [PATCH 25/50] fix: an election timer that expires while the server
 wins the election must not stop the server

---
 src/raft_server.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 88cfe18..443584d 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -217,8 +217,8 @@ void raft_server::handle_election_timeout()
 
     if (role_ == srv_role::leader)
     {
-        l_->err("A leader should never encounter election timeout, illegal application state, stop the application");
-        ctx_->state_mgr_->system_exit(-1);
+        // the timer had already expired when this server won the election
+        l_->info("election timeout while this is the leader, ignore it.");
         return;
     }
 
-- 
2.43.0


From f174dcbfd91796f1b1f1d453d9c4c9eeceb5285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:15 +0000
Subject: [PATCH 26/50] fix: responses and heartbeat events of a removed peer
 must not touch freed memory

---
 include/peer.hxx    |  2 +-
 src/peer.cxx        |  6 ++++--
 src/raft_server.cxx | 12 ++++++++++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/peer.hxx b/include/peer.hxx
index 9418c0e..f43c7a8 100644
--- a/include/peer.hxx
+++ b/include/peer.hxx
@@ -23,7 +23,7 @@
 
 namespace cornerstone
 {
-class peer
+class peer : public std::enable_shared_from_this<peer>
 {
 public:
     peer(ptr<srv_config>& config, const context& ctx, timer_task<peer&>::executor& hb_exec)
diff --git a/src/peer.cxx b/src/peer.cxx
index c87f893..562ae98 100644
--- a/src/peer.cxx
+++ b/src/peer.cxx
@@ -21,8 +21,10 @@ using namespace cornerstone;
 void peer::send_req(ptr<req_msg>& req, rpc_handler& handler)
 {
     ptr<rpc_result> pending = cs_new<rpc_result>(handler);
-    rpc_handler h = [this, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
-    { this->handle_rpc_result(req, pending, resp, ex); };
+    // this peer may be removed before the response arrives
+    ptr<peer> self(shared_from_this());
+    rpc_handler h = [self, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
+    { self->handle_rpc_result(req, pending, resp, ex); };
     rpc_->send(req, h);
 }
 
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 443584d..aa9fd7e 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -382,6 +382,18 @@ bool raft_server::request_append_entries(peer& p)
 void raft_server::handle_hb_timeout(peer& p)
 {
     recur_lock(lock_);
+    {
+        // the peer may have been removed while this event was waiting for the lock
+        read_lock(peers_lock_);
+        if (std::none_of(
+                peers_.begin(),
+                peers_.end(),
+                [&p](const std::pair<const int32, ptr<peer>>& item) { return item.second.get() == &p; }))
+        {
+            return;
+        }
+    }
+
     l_->debug(sstrfmt("Heartbeat timeout for %d").fmt(p.get_id()));
     if (role_ == srv_role::leader)
     {
-- 
2.43.0


From c3ab9e5cbb4a088410d6cffa07390d372b548ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:15 +0000
Subject: [PATCH 27/50] fix: the committing thread must never miss a wakeup,
 and the destructor must not wait for it forever

---
 include/raft_server.hxx |  1 +
 src/raft_server.cxx     | 31 +++++++++++++++++++++++--------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index c1613e2..3ab645f 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -124,6 +124,7 @@ private:
     bool config_changing_;
     bool catching_up_;
     bool stopping_;
+    bool commit_stopped_;
     int32 steps_to_down_;
     std::atomic_bool snp_in_progress_;
     std::unique_ptr<context> ctx_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index aa9fd7e..beed063 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -56,6 +56,7 @@ raft_server::raft_server(context* ctx)
       config_changing_(false),
       catching_up_(false),
       stopping_(false),
+      commit_stopped_(false),
       steps_to_down_(0),
       snp_in_progress_(),
       ctx_(ctx),
@@ -152,14 +153,19 @@ raft_server::raft_server(context* ctx)
 
 raft_server::~raft_server()
 {
+    {
+        auto_lock(commit_lock_);
+        stopping_ = true;
+        commit_cv_.notify_all();
+    }
+
+    {
+        // lock_ must not be held here as the committing thread may need it before it can stop
+        std::unique_lock<std::mutex> lock(stopping_lock_);
+        ready_to_stop_cv_.wait(lock, [this]() { return commit_stopped_; });
+    }
+
     recur_lock(lock_);
-    stopping_ = true;
-    std::unique_lock<std::mutex> commit_lock(commit_lock_);
-    commit_cv_.notify_all();
-    std::unique_lock<std::mutex> lock(stopping_lock_);
-    commit_lock.unlock();
-    commit_lock.release();
-    ready_to_stop_cv_.wait(lock);
     if (election_task_)
     {
         scheduler_->cancel(election_task_);
@@ -555,6 +561,8 @@ void raft_server::commit(ulong target_idx)
 
     if (log_store_->next_slot() - 1 > sm_commit_index_ && quick_commit_idx_ > sm_commit_index_)
     {
+        // the committing thread must not check for work before this and start waiting after this
+        auto_lock(commit_lock_);
         commit_cv_.notify_one();
     }
 }
@@ -946,13 +954,20 @@ void raft_server::commit_in_bg()
                 }
 
                 std::unique_lock<std::mutex> lock(commit_lock_);
-                commit_cv_.wait(lock);
+                commit_cv_.wait(
+                    lock,
+                    [this]()
+                    {
+                        return stopping_ ||
+                               (quick_commit_idx_ > sm_commit_index_ && sm_commit_index_ < log_store_->next_slot() - 1);
+                    });
                 if (stopping_)
                 {
                     lock.unlock();
                     lock.release();
                     {
                         auto_lock(stopping_lock_);
+                        commit_stopped_ = true;
                         ready_to_stop_cv_.notify_all();
                     }
 
-- 
2.43.0


From 9ddd34abd5597810bc8b5c66f1dcdf488e613b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:04 +0000
Subject: [PATCH 28/50] fix: drop the logs that contradict an installed
 snapshot if the server crashed while it was being installed

---
 src/raft_server.cxx              | 5 ++++-
 src/raft_server_req_handlers.cxx | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index beed063..1534fd7 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -100,7 +100,10 @@ raft_server::raft_server(context* ctx)
         state_->set_voted_for(-1);
     }
 
-    if (last_snapshot_ && last_snapshot_->get_last_log_idx() >= log_store_->next_slot())
+    if (last_snapshot_ && (last_snapshot_->get_last_log_idx() >= log_store_->next_slot() ||
+                           (last_snapshot_->get_last_log_idx() >= log_store_->start_index() &&
+                            log_store_->term_at(last_snapshot_->get_last_log_idx()) !=
+                                last_snapshot_->get_last_log_term())))
     {
         // the server went down after a snapshot was installed but before the log store was compacted
         log_store_->compact(last_snapshot_->get_last_log_idx());
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 7a65832..16783b0 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -349,7 +349,10 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
         // this server has everything that is in the snapshot, tell leader to move on, otherwise leader will retry forever
         l_->warn(sstrfmt("received a snapshot (%llu) that is older than current log store")
                      .fmt(sync_req->get_snapshot().get_last_log_idx()));
-        if (sync_req->get_snapshot().get_last_log_idx() < log_store_->next_slot() ||
+        ulong last_idx = sync_req->get_snapshot().get_last_log_idx();
+        if (last_idx < log_store_->start_index() ||
+            (last_idx < log_store_->next_slot() &&
+             log_store_->term_at(last_idx) == sync_req->get_snapshot().get_last_log_term()) ||
             log_store_->compact(sm_commit_index_))
         {
             resp->accept(sync_req->get_snapshot().size());
-- 
2.43.0


From 6d3957f0d99c39c9a84c1783b98e48eff879e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:33 +0000
Subject: [PATCH 29/50] fix: applying logs again after a restart must not bring
 back an old configuration

---
 src/raft_server.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 1534fd7..52d01f4 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1008,7 +1008,12 @@ void raft_server::commit_in_bg()
                     log_entry->get_buf().pos(0);
                     ptr<cluster_config> new_conf = cluster_config::deserialize(log_entry->get_buf());
                     l_->info(sstrfmt("config at index %llu is committed").fmt(new_conf->get_log_idx()));
-                    ctx_->state_mgr_->save_config(*new_conf);
+                    if (config_->get_log_idx() <= new_conf->get_log_idx())
+                    {
+                        // logs may be applied again after a restart, that must not bring an old configuration back
+                        ctx_->state_mgr_->save_config(*new_conf);
+                    }
+
                     config_changing_ = has_conf_log(idx_to_apply + 1, log_store_->next_slot());
                     if (config_->get_log_idx() < new_conf->get_log_idx())
                     {
-- 
2.43.0


From 47ffee9121df65ea0725a974fc71d690bd4cbf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:33 +0000
Subject: [PATCH 30/50] fix: a joining server must be able to receive a
 snapshot that has more than one block

---
 src/raft_server_resp_handlers.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 919afaf..9c29520 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -332,6 +332,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
                 if (resp->get_accepted())
                 {
                     l_->debug("new server confirms it will join, start syncing logs to it");
+                    srv_to_join_->set_next_log_idx(resp->get_next_idx());
                     sync_log_to_new_srv(resp->get_next_idx());
                 }
                 else
-- 
2.43.0


From dfd8fd8acdc52ba4b60f6b8b7e8bf6fc3aa5bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:13 +0000
Subject: [PATCH 31/50] fix: a server must not leave the cluster for an
 outdated leader

---
 src/raft_server_req_handlers.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 16783b0..fcedb77 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -684,7 +684,7 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
 ptr<resp_msg> raft_server::handle_leave_cluster_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::leave_cluster_response, id_, req.get_src()));
-    if (!config_changing_)
+    if (!config_changing_ && req.get_term() >= state_->get_term() && role_ != srv_role::leader)
     {
         steps_to_down_ = 2;
         resp->accept(log_store_->next_slot());
-- 
2.43.0


From 55fe62526855141aadde8a70257dc6b6bc67b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:41 +0000
Subject: [PATCH 32/50] fix: an rpc client must not mix up the responses of
 requests that are outstanding at the same time

A client that got another request while one was outstanding (or while it
was still connecting) wrote both to the socket and read both responses
concurrently, so a response could be delivered to the handler of the other
request (a leader steps down or stops when it gets an append response for
a pre-vote). Send one request at a time, and close the socket after a
failed connect so that the next request connects again.
---
 src/asio_service.cxx | 58 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index a8cebf1..38d207d 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -385,7 +385,7 @@ class asio_rpc_client : public rpc_client, public std::enable_shared_from_this<a
 {
 public:
     asio_rpc_client(asio::io_service& io_svc, std::string& host, std::string& port)
-        : resolver_(io_svc), socket_(io_svc), host_(host), port_(port)
+        : resolver_(io_svc), socket_(io_svc), host_(host), port_(port), lock_(), busy_(false), pending_()
     {
     }
     virtual ~asio_rpc_client()
@@ -398,6 +398,24 @@ public:
 
 public:
     virtual void send(ptr<req_msg>& req, rpc_handler& when_done) __override__
+    {
+        // one request at a time, a response could otherwise be taken for the response of another request
+        {
+            auto_lock(lock_);
+            if (busy_)
+            {
+                pending_.emplace(req, when_done);
+                return;
+            }
+
+            busy_ = true;
+        }
+
+        start(req, when_done);
+    }
+
+private:
+    void start(ptr<req_msg>& req, rpc_handler& when_done)
     {
         ptr<asio_rpc_client> self(this->shared_from_this());
         if (!socket_.is_open())
@@ -420,7 +438,7 @@ public:
                         ptr<resp_msg> rsp;
                         ptr<rpc_exception> except(cs_new<rpc_exception>(
                             lstrfmt("failed to resolve host %s due to error %d").fmt(host_.c_str(), err.value()), req));
-                        when_done(rsp, except);
+                        complete(when_done, rsp, except);
                     }
                 });
         }
@@ -469,7 +487,27 @@ public:
         }
     }
 
-private:
+    void complete(rpc_handler& when_done, ptr<resp_msg>& rsp, ptr<rpc_exception>& except)
+    {
+        when_done(rsp, except);
+        ptr<req_msg> req;
+        rpc_handler next_done;
+        {
+            auto_lock(lock_);
+            if (pending_.empty())
+            {
+                busy_ = false;
+                return;
+            }
+
+            req = pending_.front().first;
+            next_done = pending_.front().second;
+            pending_.pop();
+        }
+
+        start(req, next_done);
+    }
+
     void connected(
         ptr<req_msg>& req,
         rpc_handler& when_done,
@@ -478,14 +516,15 @@ private:
     {
         if (!err)
         {
-            this->send(req, when_done);
+            this->start(req, when_done);
         }
         else
         {
             ptr<resp_msg> rsp;
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to connect to remote socket %d").fmt(err.value()), req));
-            when_done(rsp, except);
+            socket_.close();
+            complete(when_done, rsp, except);
         }
     }
 
@@ -515,7 +554,7 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to send request to remote socket %d").fmt(err.value()), req));
             socket_.close();
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
     }
 
@@ -536,7 +575,7 @@ private:
             byte accepted_val = resp_buf->get_byte();
             ptr<resp_msg> rsp(cs_new<resp_msg>(term, (msg_type)msg_type_val, src, dst, nxt_idx, accepted_val == 1));
             ptr<rpc_exception> except;
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
         else
         {
@@ -544,7 +583,7 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to read response to remote socket %d").fmt(err.value()), req));
             socket_.close();
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
     }
 
@@ -553,6 +592,9 @@ private:
     asio::ip::tcp::socket socket_;
     std::string host_;
     std::string port_;
+    std::mutex lock_;
+    bool busy_;
+    std::queue<std::pair<ptr<req_msg>, rpc_handler>> pending_;
 };
 } // namespace cornerstone
 
-- 
2.43.0


From f751221a914cad398fefc8bcfe462661b4e80a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:57 +0000
Subject: [PATCH 33/50] fix: overwriting the last log entry with a shorter one
 must not leave the rest of the old one behind

---
 src/fs_log_store.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index a19b2fb..2d92980 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -333,8 +333,9 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
     ulong ndata_len = data_file_.tellp();
     ulong nidx_len = idx_file_.tellp();
     idx_file_.seekp(0, std::fstream::end);
-    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len)
-    { // new index length is less than current file size, truncate it
+    data_file_.seekp(0, std::fstream::end);
+    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len || static_cast<ulong>(data_file_.tellp()) > ndata_len)
+    { // new length is less than current file size, truncate it
         std::string idx_path = log_folder_ + LOG_INDEX_FILE;
         std::string data_path = log_folder_ + LOG_DATA_FILE;
         idx_file_.close();
@@ -611,7 +612,7 @@ void fs_log_store::apply_pack(ulong index, buffer& pack)
     ulong data_pos = data_file_.tellp();
     idx_file_.seekp(0, std::fstream::end);
     data_file_.seekp(0, std::fstream::end);
-    if (idx_pos < static_cast<ulong>(idx_file_.tellp()))
+    if (idx_pos < static_cast<ulong>(idx_file_.tellp()) || data_pos < static_cast<ulong>(data_file_.tellp()))
     {
         std::string idx_path = log_folder_ + LOG_INDEX_FILE;
         std::string data_path = log_folder_ + LOG_DATA_FILE;
-- 
2.43.0


From 063ad8cb4ccd55a99d451902a8e8e73c863cfa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:57 +0000
Subject: [PATCH 34/50] fix: overwriting a log entry that is older than the
 buffered ones must drop the buffered ones

---
 src/fs_log_store.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 2d92980..1649945 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -128,6 +128,9 @@ void log_store_buffer::trim(ulong start)
     write_lock(lock_);
     if (start < start_idx_)
     {
+        // nothing that is buffered exists any more, the next entry will be the one at start
+        buf_.clear();
+        start_idx_ = start;
         return;
     }
 
-- 
2.43.0


From 03d9d0c173d16bd9a76e8ce5deb0d8722c6bccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:57 +0000
Subject: [PATCH 35/50] fix: log_entries must not return more entries than
 requested when none of them is buffered

---
 src/fs_log_store.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 1649945..62c0d8f 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -412,7 +412,7 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
             throw std::runtime_error("IO fails, data cannot be saved");
         }
 
-        lend = buffer_first_idx - start_idx_;
+        lend = std::min(buffer_first_idx, good_end) - start_idx_;
         idx_file_.seekg(lstart * sz_ulong);
         bufptr d_start_idx_buf(buffer::alloc(sz_ulong));
         idx_file_ >> *d_start_idx_buf;
-- 
2.43.0


From 2fe1a1af30d5f011e202c531a9281951cabe4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:57 +0000
Subject: [PATCH 36/50] fix: asking for the term of a log entry that does not
 exist must not break the log store

---
 src/fs_log_store.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 62c0d8f..7d32f1c 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -503,7 +503,12 @@ ulong fs_log_store::term_at(ulong index)
             throw std::runtime_error("IO fails, data cannot be saved");
         }
 
-        idx_file_.seekg(static_cast<int>(index - start_idx_) * sz_ulong);
+        if (index >= start_idx_ + entries_in_store_)
+        {
+            return 0;
+        }
+
+        idx_file_.seekg((index - start_idx_) * sz_ulong);
         bufptr d_start_idx_buf(buffer::alloc(sz_ulong));
         idx_file_ >> *d_start_idx_buf;
         data_file_.seekg(d_start_idx_buf->get_ulong());
-- 
2.43.0


From 0a19142c70815601352e9463be1b09d644d77549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:57 +0000
Subject: [PATCH 37/50] fix: reading from the log store must not see a half
 done append, overwrite or compaction

---
 src/fs_log_store.cxx | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 7d32f1c..dd37402 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -267,6 +267,7 @@ ulong fs_log_store::start_index() const
 
 ptr<log_entry> fs_log_store::last_entry() const
 {
+    recur_lock(store_lock_);
     ptr<log_entry> entry = buf_->last_entry();
     if (entry == nilptr)
     {
@@ -372,25 +373,22 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
 
 ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong end)
 {
-    ulong lstart(0), lend(0), good_end(0);
+    // the buffer and the files must not change while they are being read
+    recur_lock(store_lock_);
+    if (start < start_idx_)
     {
-        recur_lock(store_lock_);
-        if (start < start_idx_)
-        {
-            throw std::range_error("index out of range");
-        }
-
-        if (start >= end || start >= (start_idx_ + entries_in_store_))
-        {
-            return ptr<std::vector<ptr<log_entry>>>();
-        }
+        throw std::range_error("index out of range");
+    }
 
-        lstart = start - start_idx_;
-        lend = end - start_idx_;
-        lend = lend > entries_in_store_ ? entries_in_store_ : lend;
-        good_end = lend + start_idx_;
+    if (start >= end || start >= (start_idx_ + entries_in_store_))
+    {
+        return ptr<std::vector<ptr<log_entry>>>();
     }
 
+    ulong lstart = start - start_idx_;
+    ulong lend = end - start_idx_;
+    lend = lend > entries_in_store_ ? entries_in_store_ : lend;
+    ulong good_end = lend + start_idx_;
     if (lstart >= lend)
     {
         return ptr<std::vector<ptr<log_entry>>>();
@@ -406,7 +404,6 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
     if (start < buffer_first_idx)
     {
         // in this case, we need to read from store file
-        recur_lock(store_lock_);
         if (!data_file_ || !idx_file_)
         {
             throw std::runtime_error("IO fails, data cannot be saved");
@@ -444,6 +441,7 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
 
 ptr<log_entry> fs_log_store::entry_at(ulong index)
 {
+    recur_lock(store_lock_);
     ptr<log_entry> entry = (*buf_)[index];
     if (entry)
     {
@@ -453,7 +451,6 @@ ptr<log_entry> fs_log_store::entry_at(ulong index)
     {
         // since we don't hit the buffer, so this must not be the last entry
         // (according to Assumption: buffer.last_index() == entries_in_store_ + start_idx_)
-        recur_lock(store_lock_);
         if (index < start_idx_)
         {
             throw std::range_error("index out of range");
@@ -486,13 +483,13 @@ ptr<log_entry> fs_log_store::entry_at(ulong index)
 
 ulong fs_log_store::term_at(ulong index)
 {
+    recur_lock(store_lock_);
     if (index >= buf_->first_idx() && index < buf_->last_idx())
     {
         return buf_->get_term(index);
     }
 
     {
-        recur_lock(store_lock_);
         if (index < start_idx_)
         {
             throw std::range_error("index out of range");
@@ -860,6 +857,7 @@ bool fs_log_store::compact(ulong last_log_index)
 
 void fs_log_store::close()
 {
+    recur_lock(store_lock_);
     idx_file_.close();
     data_file_.close();
     start_idx_file_.close();
-- 
2.43.0


From befbda9c77dfe3618b69eb9c53787e01daa968ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:19 +0000
Subject: [PATCH 38/50] fix: a compaction that fails must leave the log as it
 was

---
 include/fs_log_store.hxx |   3 +
 src/fs_log_store.cxx     | 266 +++++++++++++++------------------------
 2 files changed, 106 insertions(+), 163 deletions(-)

diff --git a/include/fs_log_store.hxx b/include/fs_log_store.hxx
index 2a8744d..6583d3d 100644
--- a/include/fs_log_store.hxx
+++ b/include/fs_log_store.hxx
@@ -70,6 +70,9 @@ namespace cornerstone {
         // trimming the buffer [start, end)
         void trim(ulong start);
 
+        // drop all entries before start
+        void drop_before(ulong start);
+
         void append(ptr<log_entry>& entry);
 
         inline void reset(ulong start_idx) {
diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index dd37402..7d060b2 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -74,6 +74,45 @@ int truncate(const char* path, ulong new_size)
 #endif
 
 using namespace cornerstone;
+
+// appends everything from the position on that is in the file src to the file dst
+static bool copy_file(std::fstream& src, ulong pos, std::fstream& dst)
+{
+    src.clear();
+    dst.clear();
+    src.seekg(0, std::fstream::end);
+    ulong len = static_cast<ulong>(src.tellg());
+    dst.seekp(0, std::fstream::end);
+    ulong dst_len = static_cast<ulong>(dst.tellp());
+    if (!src || !dst || len < pos)
+    {
+        return false;
+    }
+
+    if (len > pos)
+    {
+        src.seekg(pos);
+        dst << src.rdbuf();
+    }
+
+    dst.flush();
+    dst.seekp(0, std::fstream::end);
+    return src && dst && static_cast<ulong>(dst.tellp()) == dst_len + len - pos;
+}
+
+// (re)opens the file as an empty one
+static bool open_empty(std::fstream& file, const std::string& path)
+{
+    if (file.is_open())
+    {
+        file.close();
+    }
+
+    file.clear();
+    file.open(path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::trunc);
+    return !!file;
+}
+
 ptr<log_entry> empty_entry(cs_new<log_entry>(0, buffer::alloc(0), log_val_type::app_log));
 
 ptr<log_entry> log_store_buffer::operator[](ulong idx)
@@ -141,6 +180,20 @@ void log_store_buffer::trim(ulong start)
     }
 }
 
+// drop all entries before start
+void log_store_buffer::drop_before(ulong start)
+{
+    write_lock(lock_);
+    if (start <= start_idx_)
+    {
+        return;
+    }
+
+    size_t cnt = static_cast<size_t>(start - start_idx_);
+    buf_.erase(buf_.begin(), cnt < buf_.size() ? buf_.begin() + cnt : buf_.end());
+    start_idx_ = start;
+}
+
 void log_store_buffer::append(ptr<log_entry>& entry)
 {
     write_lock(lock_);
@@ -656,202 +709,89 @@ bool fs_log_store::compact(ulong last_log_index)
     }
 
     // backup the files
-    idx_file_.seekg(0);
-    data_file_.seekg(0);
-    start_idx_file_.seekg(0);
     std::string idx_bak_path = log_folder_ + LOG_INDEX_FILE_BAK;
     std::string data_bak_path = log_folder_ + LOG_DATA_FILE_BAK;
     std::string start_idx_bak_path = log_folder_ + LOG_START_INDEX_FILE_BAK;
     std::string data_file_path = log_folder_ + LOG_DATA_FILE;
     std::string idx_file_path = log_folder_ + LOG_INDEX_FILE;
     std::string start_idx_file_path = log_folder_ + LOG_START_INDEX_FILE;
-    std::remove(idx_bak_path.c_str());
-    std::remove(data_bak_path.c_str());
-    std::remove(start_idx_bak_path.c_str());
-
     std::fstream idx_bak_file, data_bak_file, start_idx_bak_file;
-    idx_bak_file.open(idx_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
-    if (!idx_bak_file)
+    if (!open_empty(idx_bak_file, idx_bak_path) || !open_empty(data_bak_file, data_bak_path) ||
+        !open_empty(start_idx_bak_file, start_idx_bak_path) || !copy_file(idx_file_, 0, idx_bak_file) ||
+        !copy_file(data_file_, 0, data_bak_file) || !copy_file(start_idx_file_, 0, start_idx_bak_file))
     {
-        idx_bak_file.open(idx_bak_path, std::fstream::out);
-        idx_bak_file.close();
-        idx_bak_file.open(idx_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
+        // we cannot proceed as backup files are bad
+        idx_file_.clear();
+        data_file_.clear();
+        start_idx_file_.clear();
+        return false;
     }
 
-    data_bak_file.open(data_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
-    if (!data_bak_file)
-    {
-        data_bak_file.open(data_bak_path, std::fstream::out);
-        data_bak_file.close();
-        data_bak_file.open(data_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
-    }
-
-    start_idx_bak_file.open(start_idx_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
-    if (!start_idx_bak_file)
-    {
-        start_idx_bak_file.open(start_idx_bak_path, std::fstream::out);
-        start_idx_bak_file.close();
-        start_idx_bak_file.open(start_idx_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
-    }
-
-    if (!idx_bak_file || !data_bak_file || !start_idx_bak_file)
-        return false; // we cannot proceed as backup files are bad
-
-    idx_file_.seekg(0);
-    data_file_.seekg(0);
-    start_idx_file_.seekg(0);
-    idx_bak_file << idx_file_.rdbuf();
-    data_bak_file << data_file_.rdbuf();
-    start_idx_bak_file << start_idx_file_.rdbuf();
-    idx_bak_file.flush();
-    data_bak_file.flush();
-    start_idx_bak_file.flush();
-
     do
     {
-        if (last_log_index >= start_idx_ + entries_in_store_ - 1)
+        ulong cnt = std::min(last_log_index - start_idx_ + 1, entries_in_store_);
+        ulong data_pos = 0;
+        if (cnt < entries_in_store_)
         {
-            // need to clear all entries in this store and update the start index
-            idx_file_.close();
-            data_file_.close();
-            if (std::remove(idx_file_path.c_str()) != 0)
-                break;
-            if (std::remove(data_file_path.c_str()) != 0)
+            bufptr data_pos_buf(buffer::alloc(sz_ulong));
+            idx_bak_file.seekg(cnt * sz_ulong);
+            idx_bak_file.read(reinterpret_cast<char*>(data_pos_buf->data()), sz_ulong);
+            if (!idx_bak_file)
                 break;
-            idx_file_.open(idx_file_path, std::fstream::out);
-            idx_file_.close();
-            idx_file_.open(
-                idx_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-            data_file_.open(data_file_path, std::fstream::out);
-            data_file_.close();
-            data_file_.open(
-                data_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-            if (!idx_file_ || !data_file_)
-                break;
-
-            // save the logstore state
-            start_idx_file_.seekp(0);
-            bufptr start_idx_buf(buffer::alloc(sz_ulong));
-            start_idx_buf->put(last_log_index + 1);
-            start_idx_buf->pos(0);
-            start_idx_file_ << *start_idx_buf;
-            start_idx_file_.flush();
-            start_idx_ = last_log_index + 1;
-            entries_in_store_ = 0;
-            buf_->reset(start_idx_);
-
-            // close all backup files
-            idx_bak_file.close();
-            data_bak_file.close();
-            start_idx_bak_file.close();
-            return true;
+            data_pos = data_pos_buf->get_ulong();
         }
 
-        // else, we need to compact partial of the logs
-        ulong local_last_idx = last_log_index - start_idx_;
-        ulong idx_pos = (local_last_idx + 1) * sz_ulong;
-        bufptr data_pos_buf(buffer::alloc(sz_ulong));
-        idx_file_.seekg(idx_pos);
-        idx_file_ >> *data_pos_buf;
-        idx_file_.seekp(0, std::fstream::end);
-        data_file_.seekp(0, std::fstream::end);
-        ulong data_pos = data_pos_buf->get_ulong();
-        ulong idx_len = static_cast<ulong>(idx_file_.tellp()) - idx_pos;
-        ulong data_len = static_cast<ulong>(data_file_.tellp()) - data_pos;
-
-        // compact the data file
-        data_bak_file.seekg(data_pos);
-        data_file_.seekp(0);
-        data_file_ << data_bak_file.rdbuf();
-
-        // truncate the data file
-        data_file_.close();
-        if (0 != truncate(data_file_path.c_str(), data_len))
-            break;
-        data_file_.open(
-            data_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-        if (!data_file_)
+        // compact the data file and the index file
+        if (!open_empty(data_file_, data_file_path) || !open_empty(idx_file_, idx_file_path))
             break;
-
-        // compact the index file
-        idx_bak_file.seekg(idx_pos);
-        idx_file_.seekp(0);
-        for (ulong i = 0; i < idx_len / sz_ulong; ++i)
+        if (cnt < entries_in_store_)
         {
-            data_pos_buf->pos(0);
-            idx_bak_file >> *data_pos_buf;
-            ulong new_pos = data_pos_buf->get_ulong() - data_pos;
-            data_pos_buf->pos(0);
-            data_pos_buf->put(new_pos);
-            data_pos_buf->pos(0);
-            idx_file_ << *data_pos_buf;
-        }
-
-        // truncate the index file
-        idx_file_.close();
-        if (0 != truncate(idx_file_path.c_str(), idx_len))
-            break;
-        idx_file_.open(idx_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-        if (!idx_file_)
-            break;
+            if (!copy_file(data_bak_file, data_pos, data_file_))
+                break;
+            ulong left = entries_in_store_ - cnt;
+            bufptr idx_buf(buffer::alloc(static_cast<size_t>(left * sz_ulong)));
+            idx_bak_file.seekg(cnt * sz_ulong);
+            idx_bak_file.read(reinterpret_cast<char*>(idx_buf->data()), idx_buf->size());
+            if (!idx_bak_file)
+                break;
+            for (ulong i = 0; i < left; ++i)
+            {
+                size_t buf_pos = idx_buf->pos();
+                ulong new_pos = idx_buf->get_ulong() - data_pos;
+                idx_buf->pos(buf_pos);
+                idx_buf->put(new_pos);
+            }
 
-        // close all backup files
-        idx_bak_file.close();
-        data_bak_file.close();
-        start_idx_bak_file.close();
+            idx_buf->pos(0);
+            idx_file_.write(reinterpret_cast<const char*>(idx_buf->data()), idx_buf->size());
+            idx_file_.flush();
+            if (!idx_file_)
+                break;
+        }
 
-        start_idx_file_.seekp(0);
+        // save the logstore state
         bufptr start_idx_buf(buffer::alloc(sz_ulong));
         start_idx_buf->put(last_log_index + 1);
         start_idx_buf->pos(0);
-        start_idx_file_ << *start_idx_buf;
+        start_idx_file_.seekp(0);
+        start_idx_file_.write(reinterpret_cast<const char*>(start_idx_buf->data()), sz_ulong);
         start_idx_file_.flush();
-        entries_in_store_ -= (last_log_index - start_idx_ + 1);
+        if (!start_idx_file_)
+            break;
+        entries_in_store_ -= cnt;
         start_idx_ = last_log_index + 1;
-        buf_->reset(entries_in_store_ > (size_t)buf_size_ ? entries_in_store_ + start_idx_ - buf_size_ : start_idx_);
-        fill_buffer();
+        buf_->drop_before(start_idx_);
         return true;
     } while (false);
 
     // restore the state due to errors
-    if (idx_file_)
-        idx_file_.close();
-    if (data_file_)
-        data_file_.close();
-    if (start_idx_file_)
-        start_idx_file_.close();
-    std::remove(idx_file_path.c_str());
-    std::remove(data_file_path.c_str());
-    std::remove(start_idx_file_path.c_str());
-    idx_bak_file.seekg(0);
-    data_bak_file.seekg(0);
-    start_idx_bak_file.seekg(0);
-    data_file_.open(data_bak_path, std::fstream::out);
-    data_file_.close();
-    data_file_.open(data_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-    idx_file_.open(idx_file_path, std::fstream::out);
-    idx_file_.close();
-    idx_file_.open(idx_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-    start_idx_file_.open(start_idx_file_path, std::fstream::out);
-    start_idx_file_.close();
-    start_idx_file_.open(
-        start_idx_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-    if (!idx_file_ || !data_file_ || !start_idx_file_)
+    if (!open_empty(data_file_, data_file_path) || !open_empty(idx_file_, idx_file_path) ||
+        !open_empty(start_idx_file_, start_idx_file_path) || !copy_file(data_bak_file, 0, data_file_) ||
+        !copy_file(idx_bak_file, 0, idx_file_) || !copy_file(start_idx_bak_file, 0, start_idx_file_))
     {
         throw std::runtime_error("IO error, fails to restore files back.");
     }
 
-    data_file_ << data_bak_file.rdbuf();
-    idx_file_ << idx_bak_file.rdbuf();
-    start_idx_file_ << start_idx_bak_file.rdbuf();
-    data_file_.flush();
-    idx_file_.flush();
-    start_idx_file_.flush();
-
-    // close all backup files
-    idx_bak_file.close();
-    data_bak_file.close();
-    start_idx_bak_file.close();
     return false;
 }
 
-- 
2.43.0


From df68012c42e8d6406fff9ff430f38cce44085774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:05 +0000
Subject: [PATCH 39/50] fix: an async result must call its handler exactly once
 and wake up its waiters only when it is set

---
 include/async.hxx | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/include/async.hxx b/include/async.hxx
index e03b0a2..85c8101 100644
--- a/include/async.hxx
+++ b/include/async.hxx
@@ -36,7 +36,7 @@ public:
     explicit async_result(T& result) : result_(result), err_(), has_result_(true), lock_(), cv_()
     {
     }
-    explicit async_result(handler_type& handler) : err_(), has_result_(true), handler_(handler), lock_(), cv_()
+    explicit async_result(handler_type& handler) : err_(), has_result_(false), handler_(handler), lock_(), cv_()
     {
     }
 
@@ -52,13 +52,14 @@ public:
     {
         {
             std::lock_guard<std::mutex> guard(lock_);
-            handler_ = std::forward<_THandler>(handler);
+            if (!has_result_)
+            {
+                handler_ = std::forward<_THandler>(handler);
+                return;
+            }
         }
 
-        if (has_result_)
-        {
-            handler_(result_, err_);
-        }
+        handler(result_, err_);
     }
 
     template <typename _TResult, typename _TException>
@@ -70,34 +71,20 @@ public:
             result_ = std::forward<_TResult>(result);
             err_ = std::forward<_TException>(err);
             has_result_ = true;
-            if (handler_)
-            {
-                handler = handler_; // copy handler as std::function assignment is not atomic guaranteed
-            }
+            handler.swap(handler_); // it must not be called again
+            cv_.notify_all();
         }
 
         if (handler)
         {
             handler(result_, err_);
         }
-
-        cv_.notify_all();
     }
 
     T& get()
     {
         std::unique_lock<std::mutex> lock(lock_);
-        if (has_result_)
-        {
-            if (err_ == nullptr)
-            {
-                return result_;
-            }
-
-            throw err_;
-        }
-
-        cv_.wait(lock);
+        cv_.wait(lock, [this]() { return has_result_; });
         if (err_ == nullptr)
         {
             return result_;
-- 
2.43.0


From 70895a2fc7f0aaa0ea6063c0e591bb3c1dc3f961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:03 +0000
Subject: [PATCH 40/50] fix: reading a buffer out of another one must not read
 beyond its end

---
 src/buffer.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.cxx b/src/buffer.cxx
index 50678e6..68de92e 100644
--- a/src/buffer.cxx
+++ b/src/buffer.cxx
@@ -245,6 +245,11 @@ void buffer::put(const std::string& str)
 void buffer::get(bufptr& dst)
 {
     size_t sz = dst->size() - dst->pos();
+    if (size() - pos() < sz)
+    {
+        throw std::overflow_error("insufficient buffer available to fill the other buffer");
+    }
+
     ::memcpy(dst->data(), data(), sz);
     __mv_fw_block(this, sz);
 }
-- 
2.43.0


From 5d71461fbb2fd520fd99cc30c6f21f8307b4f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:03 +0000
Subject: [PATCH 41/50] fix: an empty string that was put into a buffer must be
 read back as such

---
 src/buffer.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.cxx b/src/buffer.cxx
index 68de92e..c8a2331 100644
--- a/src/buffer.cxx
+++ b/src/buffer.cxx
@@ -172,7 +172,7 @@ const char* buffer::get_str()
     byte* d = data();
     while ((p + i) < s && *(d + i))
         ++i;
-    if (p + i >= s || i == 0)
+    if (p + i >= s)
     {
         return nilptr;
     }
-- 
2.43.0


From 9801f573d138a29413c04db9b02b5bef0279c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:03 +0000
Subject: [PATCH 42/50] fix: a task that throws must not take down a thread of
 the service

---
 src/asio_service.cxx | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 38d207d..0195b5b 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -653,13 +653,18 @@ void asio_service_impl::run()
 
 void asio_service_impl::worker_entry()
 {
-    try
+    bool done(false);
+    while (!done)
     {
-        io_svc_.run();
-    }
-    catch (...)
-    {
-        // ignore all exceptions
+        try
+        {
+            io_svc_.run();
+            done = true;
+        }
+        catch (...)
+        {
+            // ignore all exceptions, but keep on serving the other tasks
+        }
     }
 }
 
-- 
2.43.0


From c238fb0da9e351de6f5fd1b4128cb890e4efdcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:03 +0000
Subject: [PATCH 43/50] fix: a response handler that throws must not block the
 requests behind it

---
 src/asio_service.cxx | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 0195b5b..4a54d69 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -489,7 +489,21 @@ private:
 
     void complete(rpc_handler& when_done, ptr<resp_msg>& rsp, ptr<rpc_exception>& except)
     {
-        when_done(rsp, except);
+        try
+        {
+            when_done(rsp, except);
+        }
+        catch (...)
+        {
+            start_next();
+            throw;
+        }
+
+        start_next();
+    }
+
+    void start_next()
+    {
         ptr<req_msg> req;
         rpc_handler next_done;
         {
-- 
2.43.0


From be1d945604ab73b7341c3177c640c1ed8de0dc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:03 +0000
Subject: [PATCH 44/50] fix: stopping the service must not miss the final flush
 of the loggers

---
 src/asio_service.cxx | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 4a54d69..6e44706 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -120,6 +120,7 @@ private:
     std::mutex logger_list_lock_;
     std::list<ptr<impls::fs_based_logger>> loggers_;
     bool stopping_;
+    bool flushed_;
     std::mutex stopping_lock_;
     std::condition_variable stopping_cv_;
     friend asio_service;
@@ -636,6 +637,7 @@ asio_service_impl::asio_service_impl()
       logger_list_lock_(),
       loggers_(),
       stopping_(false),
+      flushed_(false),
       stopping_lock_(),
       stopping_cv_()
 {
@@ -684,11 +686,16 @@ void asio_service_impl::worker_entry()
 
 void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
 {
-    if (continue_.load() == 1)
+    bool stopping(false);
     {
-        log_flush_tm_.expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::hours(1000)));
-        log_flush_tm_.async_wait([self = shared_from_this()](asio::error_code err) mutable
-                                 { self->flush_all_loggers(err); });
+        std::lock_guard<std::mutex> guard(stopping_lock_);
+        stopping = stopping_;
+        if (!stopping)
+        {
+            log_flush_tm_.expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::hours(1000)));
+            log_flush_tm_.async_wait([self = shared_from_this()](asio::error_code err) mutable
+                                     { self->flush_all_loggers(err); });
+        }
     }
 
     {
@@ -699,8 +706,10 @@ void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
         }
     }
 
-    if (stopping_)
+    if (stopping)
     {
+        std::lock_guard<std::mutex> guard(stopping_lock_);
+        flushed_ = true;
         stopping_cv_.notify_all();
     }
 }
@@ -713,7 +722,7 @@ void asio_service_impl::stop()
         std::unique_lock<std::mutex> lock(stopping_lock_);
         stopping_ = true;
         log_flush_tm_.cancel();
-        stopping_cv_.wait(lock);
+        stopping_cv_.wait(lock, [this]() { return flushed_; });
         lock.unlock();
         lock.release();
     }
-- 
2.43.0


From 091e844af2cf3532aa589e555c05c667ce72dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:08 +0000
Subject: [PATCH 45/50] fix: a task that is cancelled after its timer expired
 must not run when it is scheduled again

---
 src/asio_service.cxx | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 6e44706..09c74b6 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -616,15 +616,27 @@ private:
 using namespace cornerstone;
 using namespace cornerstone::impls;
 
+// the timer of a task, and how often the task has been scheduled or cancelled, an expired timer whose handler is not
+// executed yet cannot be cancelled
+struct task_timer
+{
+    explicit task_timer(asio::io_service& io) : timer_(io), version_(0)
+    {
+    }
+
+    asio::steady_timer timer_;
+    std::atomic<ulong> version_;
+};
+
 void _free_timer_(void* ptr)
 {
-    asio::steady_timer* timer = static_cast<asio::steady_timer*>(ptr);
+    task_timer* timer = static_cast<task_timer*>(ptr);
     delete timer;
 }
 
-void _timer_handler_(ptr<delayed_task>& task, asio::error_code err)
+void _timer_handler_(ptr<delayed_task>& task, ulong version, asio::error_code err)
 {
-    if (!err)
+    if (!err && static_cast<task_timer*>(task->get_impl_context())->version_.load() == version)
     {
         task->execute();
     }
@@ -790,21 +802,25 @@ void asio_service::schedule(ptr<delayed_task>& task, int32 milliseconds)
 {
     if (task->get_impl_context() == nilptr)
     {
-        task->set_impl_context(new asio::steady_timer(impl_->io_svc_), &_free_timer_);
+        task->set_impl_context(new task_timer(impl_->io_svc_), &_free_timer_);
     }
     // ensure it's not in cancelled state
     task->reset();
 
-    asio::steady_timer* timer = static_cast<asio::steady_timer*>(task->get_impl_context());
+    task_timer* ctx = static_cast<task_timer*>(task->get_impl_context());
+    ulong version = ++(ctx->version_);
+    asio::steady_timer* timer = &(ctx->timer_);
     timer->expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::milliseconds(milliseconds)));
-    timer->async_wait([task](const asio::error_code err) mutable { _timer_handler_(task, err); });
+    timer->async_wait([task, version](const asio::error_code err) mutable { _timer_handler_(task, version, err); });
 }
 
 void asio_service::cancel_impl(ptr<delayed_task>& task)
 {
     if (task->get_impl_context() != nilptr)
     {
-        static_cast<asio::steady_timer*>(task->get_impl_context())->cancel();
+        task_timer* ctx = static_cast<task_timer*>(task->get_impl_context());
+        ++(ctx->version_);
+        ctx->timer_.cancel();
     }
 }
 
-- 
2.43.0


From c29c58bedf2891448def077e9f9a2a59eb8d0c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 46/50] fix: a crash while entries are written must not make
 the log store unreadable or corrupt entries

---
 include/fs_log_store.hxx |   2 +
 src/fs_log_store.cxx     | 169 +++++++++++++++++----------------------
 2 files changed, 75 insertions(+), 96 deletions(-)

diff --git a/include/fs_log_store.hxx b/include/fs_log_store.hxx
index 6583d3d..c661af1 100644
--- a/include/fs_log_store.hxx
+++ b/include/fs_log_store.hxx
@@ -172,6 +172,8 @@ namespace cornerstone {
         void close();
     private:
         void fill_buffer();
+        void drop_from(ulong local_idx);
+        void drop_incomplete();
     private:
         std::fstream idx_file_;
         std::fstream data_file_;
diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 7d060b2..204cfa6 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -287,7 +287,7 @@ fs_log_store::fs_log_store(const std::string& log_folder, int buf_size)
         bufptr idx_buf(buffer::alloc(sz_ulong));
         start_idx_file_ >> *idx_buf;
         start_idx_ = idx_buf->get_ulong();
-        entries_in_store_ = idx_file_.tellp() / sz_ulong;
+        drop_incomplete();
     }
     else
     {
@@ -339,11 +339,11 @@ ulong fs_log_store::append(ptr<log_entry>& entry)
     idx_buf->put(static_cast<ulong>(data_file_.tellp()));
     idx_buf->pos(0);
     idx_file_ << *idx_buf;
+    idx_file_.flush(); // the index must not be behind the data
     bufptr entry_buf = entry->serialize();
     data_file_ << *entry_buf;
     buf_->append(entry);
     entries_in_store_ += 1;
-    idx_file_.flush();
     data_file_.flush();
     if (!data_file_ || !idx_file_)
     {
@@ -361,67 +361,14 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
         throw std::range_error("index out of range");
     }
 
-    ulong local_idx = index - start_idx_ + 1; // start_idx is one based
-    ulong idx_pos = (local_idx - 1) * sz_ulong;
-    if (local_idx <= entries_in_store_)
-    {
-        idx_file_.seekg(idx_pos, std::fstream::beg);
-        bufptr buf(buffer::alloc(sz_ulong));
-        idx_file_ >> *buf;
-        data_file_.seekp(buf->get_ulong(), std::fstream::beg);
-    }
-    else
-    {
-        data_file_.seekp(0, std::fstream::end);
-    }
-
-    idx_file_.seekp(idx_pos, std::fstream::beg);
-    ulong data_pos = data_file_.tellp();
-    bufptr ibuf(buffer::alloc(sz_ulong));
-    ibuf->put(data_pos);
-    ibuf->pos(0);
-    idx_file_ << *ibuf;
-    bufptr ebuf = entry->serialize();
-    data_file_ << *ebuf;
-    idx_file_.flush();
-    data_file_.flush();
-
-    // truncate the files if necessary
-    ulong ndata_len = data_file_.tellp();
-    ulong nidx_len = idx_file_.tellp();
-    idx_file_.seekp(0, std::fstream::end);
-    data_file_.seekp(0, std::fstream::end);
-    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len || static_cast<ulong>(data_file_.tellp()) > ndata_len)
-    { // new length is less than current file size, truncate it
-        std::string idx_path = log_folder_ + LOG_INDEX_FILE;
-        std::string data_path = log_folder_ + LOG_DATA_FILE;
-        idx_file_.close();
-        data_file_.close();
-        if (truncate(idx_path.c_str(), nidx_len) < 0)
-        {
-            throw std::ios_base::failure("failed to truncate the index file");
-        }
-
-        if (truncate(data_path.c_str(), ndata_len) < 0)
-        {
-            throw std::ios_base::failure("failed to truncate the data file");
-        }
-
-        idx_file_.open(idx_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-        data_file_.open(data_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-    }
-
-    if (local_idx <= entries_in_store_)
+    if (index < start_idx_ + entries_in_store_)
     {
+        // drop what is overwritten first, a crash must not leave the entries behind it with other data
+        drop_from(index - start_idx_);
         buf_->trim(index);
     }
 
-    buf_->append(entry);
-    entries_in_store_ = local_idx;
-    if (!data_file_ || !idx_file_)
-    {
-        throw std::runtime_error("IO fails, data cannot be saved");
-    }
+    append(entry);
 }
 
 ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong end)
@@ -629,21 +576,13 @@ void fs_log_store::apply_pack(ulong index, buffer& pack)
     int32 idx_len = pack.get_int();
     int32 data_len = pack.get_int();
     ulong local_idx = index - start_idx_;
-    if (local_idx == entries_in_store_)
+    if (local_idx < entries_in_store_)
     {
-        idx_file_.seekp(0, std::fstream::end);
-        data_file_.seekp(0, std::fstream::end);
-    }
-    else
-    {
-        ulong idx_pos = local_idx * sz_ulong;
-        idx_file_.seekg(idx_pos);
-        bufptr data_pos_buf(buffer::alloc(sz_ulong));
-        idx_file_ >> *data_pos_buf;
-        idx_file_.seekp(idx_pos);
-        data_file_.seekp(data_pos_buf->get_ulong());
+        drop_from(local_idx);
     }
 
+    idx_file_.seekp(0, std::fstream::end);
+    data_file_.seekp(0, std::fstream::end);
     ulong prev_data_pos = data_file_.tellp();
     size_t prev_pack_pos = pack.pos();
     ulong first_idx = pack.get_ulong();
@@ -663,33 +602,10 @@ void fs_log_store::apply_pack(ulong index, buffer& pack)
         }
         pack.pos(prev_pack_pos);
     }
+
+    idx_file_.flush(); // the index must not be behind the data
     data_file_.write(reinterpret_cast<const char*>(pack.data() + idx_len), data_len);
-    idx_file_.flush();
     data_file_.flush();
-    ulong idx_pos = idx_file_.tellp();
-    ulong data_pos = data_file_.tellp();
-    idx_file_.seekp(0, std::fstream::end);
-    data_file_.seekp(0, std::fstream::end);
-    if (idx_pos < static_cast<ulong>(idx_file_.tellp()) || data_pos < static_cast<ulong>(data_file_.tellp()))
-    {
-        std::string idx_path = log_folder_ + LOG_INDEX_FILE;
-        std::string data_path = log_folder_ + LOG_DATA_FILE;
-        idx_file_.close();
-        data_file_.close();
-        if (truncate(idx_path.c_str(), idx_pos) < 0)
-        {
-            throw std::ios_base::failure("failed to truncate the index file");
-        }
-
-        if (truncate(data_path.c_str(), data_pos) < 0)
-        {
-            throw std::ios_base::failure("failed to truncate the data file");
-        }
-
-        idx_file_.open(idx_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-        data_file_.open(data_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-    }
-
     if (!data_file_ || !idx_file_)
     {
         throw std::runtime_error("IO fails, data cannot be saved");
@@ -803,6 +719,67 @@ void fs_log_store::close()
     start_idx_file_.close();
 }
 
+// removes the entries from the given one (zero based) on from the files
+void fs_log_store::drop_from(ulong local_idx)
+{
+    ulong idx_pos = local_idx * sz_ulong;
+    idx_file_.seekg(idx_pos);
+    bufptr data_pos_buf(buffer::alloc(sz_ulong));
+    idx_file_ >> *data_pos_buf;
+    ulong data_pos = data_pos_buf->get_ulong();
+    std::string idx_path = log_folder_ + LOG_INDEX_FILE;
+    std::string data_path = log_folder_ + LOG_DATA_FILE;
+    idx_file_.close();
+    data_file_.close();
+
+    // the data first, index entries without data are dropped when the store is opened
+    if (truncate(data_path.c_str(), data_pos) < 0)
+    {
+        throw std::ios_base::failure("failed to truncate the data file");
+    }
+
+    if (truncate(idx_path.c_str(), idx_pos) < 0)
+    {
+        throw std::ios_base::failure("failed to truncate the index file");
+    }
+
+    idx_file_.open(idx_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
+    data_file_.open(data_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
+    entries_in_store_ = local_idx;
+}
+
+// drops the last entries whose data did not make it to the data file before a crash
+void fs_log_store::drop_incomplete()
+{
+    ulong data_len = data_file_.tellp();
+    ulong idx_len = idx_file_.tellp();
+    ulong cnt = idx_len / sz_ulong;
+    for (; cnt > 0; --cnt)
+    {
+        bufptr data_pos_buf(buffer::alloc(sz_ulong));
+        idx_file_.seekg((cnt - 1) * sz_ulong);
+        idx_file_ >> *data_pos_buf;
+        if (data_pos_buf->get_ulong() < data_len)
+        {
+            break;
+        }
+    }
+
+    if (cnt * sz_ulong < idx_len)
+    {
+        std::string idx_path = log_folder_ + LOG_INDEX_FILE;
+        idx_file_.close();
+        if (truncate(idx_path.c_str(), cnt * sz_ulong) < 0)
+        {
+            throw std::ios_base::failure("failed to truncate the index file");
+        }
+
+        idx_file_.open(idx_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
+    }
+
+    entries_in_store_ = cnt;
+}
+
 void fs_log_store::fill_buffer()
 {
     ulong first_idx = buf_->first_idx();
-- 
2.43.0


From 53620fb3944b334aff6712e7efd54e2febc41083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 47/50] fix: a crash while the log store is compacted must not
 lose the log

---
 src/fs_log_store.cxx | 48 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 204cfa6..9526361 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -23,6 +23,7 @@
 #define LOG_INDEX_FILE_BAK "store.idx.bak"
 #define LOG_DATA_FILE_BAK "store.dat.bak"
 #define LOG_START_INDEX_FILE_BAK "store.sti.bak"
+#define LOG_COMPACTING_FILE "store.cmp" // has content as long as the backup files must be used
 
 #ifdef _WIN32
 #include <Windows.h>
@@ -113,6 +114,36 @@ static bool open_empty(std::fstream& file, const std::string& path)
     return !!file;
 }
 
+static bool clear_file(const std::string& path)
+{
+    return ::remove(path.c_str()) == 0 || truncate(path.c_str(), ulong(0)) == 0;
+}
+
+// puts the backup files back if the process ended while the store was being compacted
+static void undo_compaction(const std::string& folder)
+{
+    std::ifstream mark(folder + LOG_COMPACTING_FILE, std::fstream::binary);
+    if (!mark || mark.get() == std::ifstream::traits_type::eof())
+    {
+        return;
+    }
+
+    for (const char* name : {LOG_DATA_FILE, LOG_INDEX_FILE, LOG_START_INDEX_FILE})
+    {
+        std::fstream file, bak(folder + name + ".bak", std::fstream::in | std::fstream::binary);
+        if (!bak || !open_empty(file, folder + name) || !copy_file(bak, 0, file))
+        {
+            throw std::runtime_error("IO error, fails to restore files back.");
+        }
+    }
+
+    mark.close();
+    if (!clear_file(folder + LOG_COMPACTING_FILE))
+    {
+        throw std::runtime_error("IO error, fails to restore files back.");
+    }
+}
+
 ptr<log_entry> empty_entry(cs_new<log_entry>(0, buffer::alloc(0), log_val_type::app_log));
 
 ptr<log_entry> log_store_buffer::operator[](ulong idx)
@@ -240,6 +271,7 @@ fs_log_store::fs_log_store(const std::string& log_folder, int buf_size)
         log_folder_.push_back(PATH_SEPARATOR);
     }
 
+    undo_compaction(log_folder_);
     idx_file_.open(
         log_folder_ + LOG_INDEX_FILE, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
     if (!idx_file_)
@@ -631,10 +663,12 @@ bool fs_log_store::compact(ulong last_log_index)
     std::string data_file_path = log_folder_ + LOG_DATA_FILE;
     std::string idx_file_path = log_folder_ + LOG_INDEX_FILE;
     std::string start_idx_file_path = log_folder_ + LOG_START_INDEX_FILE;
-    std::fstream idx_bak_file, data_bak_file, start_idx_bak_file;
+    std::string mark_path = log_folder_ + LOG_COMPACTING_FILE;
+    std::fstream idx_bak_file, data_bak_file, start_idx_bak_file, mark_file;
     if (!open_empty(idx_bak_file, idx_bak_path) || !open_empty(data_bak_file, data_bak_path) ||
         !open_empty(start_idx_bak_file, start_idx_bak_path) || !copy_file(idx_file_, 0, idx_bak_file) ||
-        !copy_file(data_file_, 0, data_bak_file) || !copy_file(start_idx_file_, 0, start_idx_bak_file))
+        !copy_file(data_file_, 0, data_bak_file) || !copy_file(start_idx_file_, 0, start_idx_bak_file) ||
+        !open_empty(mark_file, mark_path))
     {
         // we cannot proceed as backup files are bad
         idx_file_.clear();
@@ -645,6 +679,11 @@ bool fs_log_store::compact(ulong last_log_index)
 
     do
     {
+        // from now on the backup files are used if the process ends
+        mark_file.put('c');
+        mark_file.close();
+        if (!mark_file)
+            break;
         ulong cnt = std::min(last_log_index - start_idx_ + 1, entries_in_store_);
         ulong data_pos = 0;
         if (cnt < entries_in_store_)
@@ -692,7 +731,7 @@ bool fs_log_store::compact(ulong last_log_index)
         start_idx_file_.seekp(0);
         start_idx_file_.write(reinterpret_cast<const char*>(start_idx_buf->data()), sz_ulong);
         start_idx_file_.flush();
-        if (!start_idx_file_)
+        if (!start_idx_file_ || !clear_file(mark_path))
             break;
         entries_in_store_ -= cnt;
         start_idx_ = last_log_index + 1;
@@ -703,7 +742,8 @@ bool fs_log_store::compact(ulong last_log_index)
     // restore the state due to errors
     if (!open_empty(data_file_, data_file_path) || !open_empty(idx_file_, idx_file_path) ||
         !open_empty(start_idx_file_, start_idx_file_path) || !copy_file(data_bak_file, 0, data_file_) ||
-        !copy_file(idx_bak_file, 0, idx_file_) || !copy_file(start_idx_bak_file, 0, start_idx_file_))
+        !copy_file(idx_bak_file, 0, idx_file_) || !copy_file(start_idx_bak_file, 0, start_idx_file_) ||
+        !clear_file(mark_path))
     {
         throw std::runtime_error("IO error, fails to restore files back.");
     }
-- 
2.43.0


From 87dbe7b7eac1a8c833d7ebc0c7c13dabe2625472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:16 +0000
Subject: [PATCH 48/50] fix: forwarding a call to the leader must not read the
 configuration while it is replaced

---
 src/raft_server.cxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 52d01f4..a415595 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1089,8 +1089,15 @@ ptr<async_result<bool>> raft_server::remove_srv(const int srv_id)
 ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
 {
     typedef std::unordered_map<int32, ptr<rpc_client>>::const_iterator rpc_client_itor;
-    int32 leader_id = leader_;
-    ptr<cluster_config> cluster = config_;
+    int32 leader_id(-1);
+    ptr<srv_config> srv_conf;
+    {
+        // the leader and the configuration may be changed by another thread
+        recur_lock(lock_);
+        leader_id = leader_;
+        srv_conf = config_->get_server(leader_id);
+    }
+
     bool result(false);
     if (leader_id == -1)
     {
@@ -1110,7 +1117,6 @@ ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
         rpc_client_itor itor = rpc_clients_.find(leader_id);
         if (itor == rpc_clients_.end())
         {
-            ptr<srv_config> srv_conf = config_->get_server(leader_id);
             if (!srv_conf)
             {
                 return cs_new<async_result<bool>>(result);
-- 
2.43.0


From 2abac79b818aa1d23eea2aa8b4009cbff93cfeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:50 +0000
Subject: [PATCH 49/50] fix: a server whose pre-vote is declined by a server of
 a newer term must learn that term

---
 src/raft_server_resp_handlers.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 9c29520..60faeb2 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -262,6 +262,13 @@ void raft_server::handle_prevote_resp(resp_msg& resp)
         return;
     }
 
+    // servers of a newer term decline every pre-vote of this server, and without a leader nobody else would tell the term
+    if (!resp.get_accepted() && update_term(resp.get_term()))
+    {
+        l_->info(sstrfmt("Prevote is declined by a server of a newer term %llu").fmt(resp.get_term()));
+        return;
+    }
+
     {
         read_lock(peers_lock_);
         bool vote_added = prevote_state_->add_voted_server(resp.get_src());
-- 
2.43.0


From 7e3e8556242bd062e16f582fa2470b2641b09962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 50/50] fix: a compaction that cannot set its mark must not
 touch the files

---
 src/fs_log_store.cxx | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 9526361..d81a048 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -677,13 +677,22 @@ bool fs_log_store::compact(ulong last_log_index)
         return false;
     }
 
+    // from now on the backup files are used if the process ends
+    mark_file.put('c');
+    mark_file.close();
+    if (!mark_file)
+    {
+        // nothing has been changed yet, without the mark nothing may be changed
+        if (!clear_file(mark_path))
+        {
+            throw std::runtime_error("IO error, fails to start the compaction.");
+        }
+
+        return false;
+    }
+
     do
     {
-        // from now on the backup files are used if the process ends
-        mark_file.put('c');
-        mark_file.close();
-        if (!mark_file)
-            break;
         ulong cnt = std::min(last_log_index - start_idx_ + 1, entries_in_store_);
         ulong data_pos = 0;
         if (cnt < entries_in_store_)
-- 
2.43.0

