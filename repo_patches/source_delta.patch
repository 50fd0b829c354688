From d4cfae6f5ec078891e8575a3a1c1683699971197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:30 +0000
Subject: [PATCH 01/41] fix: hold the breakpoint lock whenever the scheduler's
 breakpoint list is used

---
 src/scheduler.cc | 11 ++++++++++-
 src/scheduler.hh |  3 ++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 5a612b3..133ef26 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -219,6 +219,12 @@ std::vector<DebugBreakPoint *> Scheduler::next_reverse_breakpoints() {
 }
 
 DebugBreakPoint *Scheduler::get_breakpoint(uint32_t id) const {
+    std::lock_guard guard(breakpoint_lock_);
+    return find_breakpoint(id);
+}
+
+DebugBreakPoint *Scheduler::find_breakpoint(uint32_t id) const {
+    // notice that this is not locked! the caller has to hold the breakpoint lock
     auto pos = std::find_if(breakpoints_.begin(), breakpoints_.end(),
                             [id](auto const &b) { return b->id == id; });
     if (pos != breakpoints_.end()) [[likely]] {
@@ -284,7 +290,7 @@ void Scheduler::remove_assert_breakpoints() {
     auto ids =
         std::unordered_set<uint32_t>(inserted_breakpoints_.begin(), inserted_breakpoints_.end());
     for (auto bp_id : ids) {
-        auto *bp = get_breakpoint(bp_id);
+        auto *bp = find_breakpoint(bp_id);
         if (bp && bp->has_type_flag(DebugBreakPoint::Type::assert) && bp->evaluated) {
             remove_breakpoint(bp_id, DebugBreakPoint::Type::assert);
         }
@@ -298,6 +304,7 @@ void clear_breakpoints(std::vector<std::unique_ptr<DebugBreakPoint>> &breakpoint
 }
 
 void Scheduler::start_breakpoint_evaluation() {
+    std::lock_guard guard(breakpoint_lock_);
     // remove assertions first
     remove_assert_breakpoints();
     // unset all the breakpoints
@@ -306,6 +313,7 @@ void Scheduler::start_breakpoint_evaluation() {
 }
 
 void Scheduler::set_evaluation_mode(EvaluationMode mode) {
+    std::lock_guard guard(breakpoint_lock_);
     if (evaluation_mode_ != mode) {
         clear_breakpoints(breakpoints_);
         evaluation_mode_ = mode;
@@ -313,6 +321,7 @@ void Scheduler::set_evaluation_mode(EvaluationMode mode) {
 }
 
 void Scheduler::clear() {
+    std::lock_guard guard(breakpoint_lock_);
     inserted_breakpoints_.clear();
     breakpoints_.clear();
 }
diff --git a/src/scheduler.hh b/src/scheduler.hh
index eee36d3..0b5ab59 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -95,7 +95,7 @@ private:
     std::unordered_map<uint32_t, uint64_t> bp_ordering_table_;
     std::vector<uint32_t> bp_ordering_;
     // need to ensure there is no concurrent modification
-    std::mutex breakpoint_lock_;
+    mutable std::mutex breakpoint_lock_;
     // holder for step over breakpoint, not used for normal purpose
     std::vector<DebugBreakPoint> next_temp_breakpoints_;
 
@@ -113,6 +113,7 @@ private:
         const std::optional<BreakPoint> &bp_info);
     std::unique_ptr<DebugBreakPoint> remove_breakpoint(uint64_t bp_id, DebugBreakPoint::Type type);
     void remove_assert_breakpoints();
+    [[nodiscard]] DebugBreakPoint *find_breakpoint(uint32_t id) const;
 
     // log
     static void log_error(const std::string &msg);
-- 
2.43.0


From 234edc7b0575cb3518f0dd7cf14f1d9e55ca3b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:42 +0000
Subject: [PATCH 02/41] fix: hold the connection lock whenever the server's
 connection tables are used

---
 src/server.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/server.cc b/src/server.cc
index 1f5865f..0d56ddf 100644
--- a/src/server.cc
+++ b/src/server.cc
@@ -26,7 +26,7 @@ DebugServer::DebugServer(bool enable_logging) {
     };
     // on disconnection
     auto on_disconnect = [this](websocketpp::connection_hdl hdl) {
-        std::lock_guard<std::mutex> guard{connections_lock_};
+        std::unique_lock<std::mutex> guard{connections_lock_};
         auto conn = server_.get_con_from_hdl(std::move(hdl));
         // not efficient, but we assume client won't disconnect often
         for (auto const &[id, c] : connections_) {
@@ -36,7 +36,10 @@ DebugServer::DebugServer(bool enable_logging) {
                 break;
             }
         }
-        if (connections_.empty() && on_all_client_disconnect_) {
+        bool all_disconnected = connections_.empty();
+        // the callback may use the server again, so never call it with the lock held
+        guard.unlock();
+        if (all_disconnected && on_all_client_disconnect_) {
             (*on_all_client_disconnect_)();
         }
     };
@@ -75,12 +78,14 @@ void DebugServer::stop() {
 }
 
 void DebugServer::send(const std::string &payload) {
+    std::lock_guard guard(connections_lock_);
     for (const auto &[id, conn] : connections_) {
         conn->send(payload);
     }
 }
 
 void DebugServer::send(const std::string &payload, const std::string &topic) {
+    std::lock_guard guard(connections_lock_);
     if (topics_.find(topic) != topics_.end()) [[likely]] {
         auto const &ids = topics_.at(topic);
         // to ensure high performance during runtime, we don't do clean up
@@ -94,6 +99,7 @@ void DebugServer::send(const std::string &payload, const std::string &topic) {
 }
 
 void DebugServer::send(const std::string &payload, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     if (connections_.find(conn_id) != connections_.end()) [[likely]] {
         connections_.at(conn_id)->send(payload);
     }
@@ -105,7 +111,14 @@ void DebugServer::set_on_message(
                                        const raw_message &msg) {
         auto str = msg->get_payload();
         auto conn = server_.get_con_from_hdl(hdl);
-        auto id = connection_id_map_.at(conn.get());
+        uint64_t id;
+        {
+            std::lock_guard guard(connections_lock_);
+            auto pos = connection_id_map_.find(conn.get());
+            // the connection has been dropped already
+            if (pos == connection_id_map_.end()) return;
+            id = pos->second;
+        }
         callback(str, id);
     };
     server_.set_message_handler(on_message);
@@ -116,10 +129,12 @@ void DebugServer::set_on_call_client_disconnect(const std::function<void()> &fun
 }
 
 void DebugServer::add_to_topic(const std::string &topic, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     topics_[topic].emplace(conn_id);
 }
 
 void DebugServer::remove_from_topic(const std::string &topic, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     if (topics_[topic].find(conn_id) != topics_[topic].end()) {
         topics_[topic].erase(conn_id);
     }
-- 
2.43.0


From 45aedc1bf9f61019042a3438f784df6023dbf78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:42 +0000
Subject: [PATCH 03/41] fix: clear the signal value cache under its lock

---
 src/debug.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index 9aaa5c4..2fc43b3 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1371,7 +1371,10 @@ void Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp
 
 void Debugger::start_breakpoint_evaluation() {
     scheduler_->start_breakpoint_evaluation();
-    cached_signal_values_.clear();
+    {
+        std::lock_guard guard(cached_signal_values_lock_);
+        cached_signal_values_.clear();
+    }
     update_delayed_values();
 }
 
-- 
2.43.0


From 87d8e696d59cb311c2ae3d7c34d64291a86b88ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:40 +0000
Subject: [PATCH 04/41] fix: do not write neighbouring hit bits from two
 evaluation threads

---
 src/debug.cc | 7 ++++---
 src/debug.hh | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 2fc43b3..a841d81 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1321,8 +1321,9 @@ bool Debugger::eval_breakpoint(DebugBreakPoint *bp) {
     return false;
 }
 
-std::vector<bool> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *> &bps) {
-    std::vector<bool> hits(bps.size());
+std::vector<uint8_t> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *> &bps) {
+    // one byte per breakpoint: the bits of a vector<bool> cannot be written concurrently
+    std::vector<uint8_t> hits(bps.size());
     std::fill(hits.begin(), hits.end(), false);
     // most of the time is on getting simulation values, so using many threads
     // doesn't make any sense
@@ -1356,7 +1357,7 @@ std::vector<bool> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *
     return hits;
 }
 
-void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
+void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<uint8_t> &result,
                                uint64_t start, uint64_t end) {
     for (auto index = start; index < end; index++) {
         bool r = eval_breakpoint(bps[index]);
diff --git a/src/debug.hh b/src/debug.hh
index fdf35dd..98beb31 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -155,9 +155,9 @@ private:
     // scheduler
     bool should_trigger(DebugBreakPoint *bp);
     bool eval_breakpoint(DebugBreakPoint *bp);
-    void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
+    void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<uint8_t> &result,
                          uint64_t start, uint64_t end);
-    std::vector<bool> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
+    std::vector<uint8_t> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
     void add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
     void start_breakpoint_evaluation();
 
-- 
2.43.0


From 55854de2d730b9ef575e381d6a5907989422e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:52 +0000
Subject: [PATCH 05/41] fix: guard the monitor's table of watched variables
 with a lock

---
 src/monitor.cc | 15 +++++++++++++++
 src/monitor.hh |  6 +++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/monitor.cc b/src/monitor.cc
index 3a188a7..cb4f06a 100644
--- a/src/monitor.cc
+++ b/src/monitor.cc
@@ -7,6 +7,7 @@ namespace hgdb {
 Monitor::Monitor(RTLSimulatorClient* rtl) : rtl_(rtl) {}
 
 uint64_t Monitor::add_monitor_variable(const std::string& full_name, WatchType watch_type) {
+    std::lock_guard guard(watched_variables_lock_);
     // we assume full name is checked already
     // need to search if we have the same handle already
     if (!rtl_) return std::numeric_limits<uint64_t>::max();
@@ -21,6 +22,7 @@ uint64_t Monitor::add_monitor_variable(const std::string& full_name, WatchType w
 
 uint64_t Monitor::add_monitor_variable(const std::string& full_name, WatchType watch_type,
                                        std::shared_ptr<std::optional<int64_t>> value) {
+    std::lock_guard guard(watched_variables_lock_);
     if (!rtl_) return std::numeric_limits<uint64_t>::max();
     auto* handle = rtl_->get_handle(full_name);
     auto watched = is_monitored(handle, watch_type);
@@ -42,12 +44,14 @@ uint64_t Monitor::add_monitor_variable(const std::string& full_name, uint32_t de
 }
 
 void Monitor::remove_monitor_variable(uint64_t watch_id) {
+    std::lock_guard guard(watched_variables_lock_);
     if (watched_variables_.find(watch_id) != watched_variables_.end()) {
         watched_variables_.erase(watch_id);
     }
 }
 
 void Monitor::set_monitor_variable_condition(uint64_t id, std::function<bool()> cond) {
+    std::lock_guard guard(watched_variables_lock_);
     if (watched_variables_.find(id) != watched_variables_.end()) [[likely]] {
         watched_variables_.at(id)->enable_cond = std::move(cond);
     }
@@ -55,6 +59,7 @@ void Monitor::set_monitor_variable_condition(uint64_t id, std::function<bool()>
 
 // NOLINTNEXTLINE
 std::optional<uint64_t> Monitor::is_monitored(vpiHandle handle, WatchType watch_type) const {
+    std::lock_guard guard(watched_variables_lock_);
     for (auto const& [id, var] : watched_variables_) {
         if (var->handle == handle && var->type == watch_type) [[unlikely]] {
             // reuse the existing ID
@@ -66,6 +71,7 @@ std::optional<uint64_t> Monitor::is_monitored(vpiHandle handle, WatchType watch_
 
 std::shared_ptr<std::optional<int64_t>> Monitor::get_watched_value_ptr(
     const std::unordered_set<std::string>& var_names, WatchType type) const {
+    std::lock_guard guard(watched_variables_lock_);
     for (auto const& [id, var] : watched_variables_) {
         if (var_names.find(var->full_name) != var_names.end() && var->type == type) {
             // reuse the existing ID
@@ -77,6 +83,7 @@ std::shared_ptr<std::optional<int64_t>> Monitor::get_watched_value_ptr(
 
 std::vector<std::pair<uint64_t, std::optional<int64_t>>> Monitor::get_watched_values(
     WatchType type) {
+    std::lock_guard guard(watched_variables_lock_);
     if (watched_variables_.empty() || !rtl_) return {};
     std::vector<std::pair<uint64_t, std::optional<int64_t>>> result;
     // this is the maximum size
@@ -119,7 +126,13 @@ std::vector<std::pair<uint64_t, std::optional<int64_t>>> Monitor::get_watched_va
     return result;
 }
 
+bool Monitor::empty() const {
+    std::lock_guard guard(watched_variables_lock_);
+    return watched_variables_.empty();
+}
+
 uint64_t Monitor::num_watches(const std::string& name, WatchType type) const {
+    std::lock_guard guard(watched_variables_lock_);
     uint64_t result = 0;
     for (auto const& iter : watched_variables_) {
         if (iter.second->full_name == name && iter.second->type == type) {
@@ -131,6 +144,7 @@ uint64_t Monitor::num_watches(const std::string& name, WatchType type) const {
 }
 
 std::pair<bool, std::optional<int64_t>> Monitor::var_changed(uint64_t id) {
+    std::lock_guard guard(watched_variables_lock_);
     if (watched_variables_.find(id) == watched_variables_.end() || !rtl_) [[unlikely]] {
         return {false, {}};
     }
@@ -149,6 +163,7 @@ std::pair<bool, std::optional<int64_t>> Monitor::var_changed(uint64_t id) {
 }
 
 uint32_t Monitor::add_watch_var(std::unique_ptr<WatchVariable> w) {
+    std::lock_guard guard(watched_variables_lock_);
     watched_variables_.emplace(watch_id_count_, std::move(w));
     return watch_id_count_++;
 }
diff --git a/src/monitor.hh b/src/monitor.hh
index a6365f3..24f0534 100644
--- a/src/monitor.hh
+++ b/src/monitor.hh
@@ -2,6 +2,7 @@
 #define HGDB_MONITOR_HH
 
 #include <functional>
+#include <mutex>
 #include <queue>
 #include <unordered_set>
 
@@ -33,7 +34,7 @@ public:
     // compute a list of signals that need to be sent
     std::vector<std::pair<uint64_t, std::optional<int64_t>>> get_watched_values(WatchType type);
 
-    [[nodiscard]] bool empty() const { return watched_variables_.empty(); }
+    [[nodiscard]] bool empty() const;
     [[nodiscard]] uint64_t num_watches(const std::string& name, WatchType type) const;
 
     // notice that each call will change the internal stored value
@@ -77,6 +78,9 @@ private:
         std::queue<std::optional<int64_t>> values_;
     };
 
+    // the table is changed by client requests while the simulation side reads it. recursive since
+    // evaluating a watched variable's condition may query the monitor again
+    mutable std::recursive_mutex watched_variables_lock_;
     uint64_t watch_id_count_ = 0;
     std::unordered_map<uint64_t, std::unique_ptr<WatchVariable>> watched_variables_;
 
-- 
2.43.0


From 78e1f617ae2408e416bacdb3fb931d1ea678d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:35 +0000
Subject: [PATCH 06/41] fix: look up slice handles under the lock that guards
 their creation

---
 src/rtl.cc | 33 +++++++++++++++++++++------------
 src/rtl.hh |  4 +++-
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index e36525b..211e6e2 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -266,8 +266,7 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
         return std::nullopt;
     }
 
-    bool is_slice_handle = false;
-    auto *target_handle = handle;
+    std::optional<SliceInfo> slice;
 
     if (is_signal) {
         // get value size. Verilator will freak out if the width is larger than 64
@@ -284,9 +283,9 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
 
         // if we have mock vpi handle, use it
         // optimize for unlikely
-        is_slice_handle = mock_slice_handles_.find(handle) != mock_slice_handles_.end();
-        if (is_slice_handle) [[unlikely]]
-            handle = std::get<0>(mock_slice_handles_.at(handle));
+        slice = get_mock_slice(handle);
+        if (slice) [[unlikely]]
+            handle = std::get<0>(*slice);
     }
 
     s_vpi_value v;
@@ -294,8 +293,8 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
     vpi_->vpi_get_value(handle, &v);
     int64_t result = v.value.integer;
 
-    if (is_slice_handle) [[unlikely]] {
-        result = get_slice(result, mock_slice_handles_.at(target_handle));
+    if (slice) [[unlikely]] {
+        result = get_slice(result, *slice);
     }
 
     return result;
@@ -359,15 +358,15 @@ std::optional<std::string> RTLSimulatorClient::get_str_value(vpiHandle handle, b
     if (is_signal) {
         vpiHandle request_handle = handle;
 
-        bool is_slice = mock_slice_handles_.find(handle) != mock_slice_handles_.end();
-        handle = is_slice ? std::get<0>(mock_slice_handles_.at(handle)) : handle;
+        auto slice = get_mock_slice(handle);
+        handle = slice ? std::get<0>(*slice) : handle;
 
         s_vpi_value v;
-        v.format = is_slice ? vpiBinStrVal : vpiHexStrVal;
+        v.format = slice ? vpiBinStrVal : vpiHexStrVal;
         vpi_->vpi_get_value(handle, &v);
         std::string result = v.value.str;
-        if (is_slice) [[unlikely]] {
-            result = get_slice(result, mock_slice_handles_.at(request_handle));
+        if (slice) [[unlikely]] {
+            result = get_slice(result, *slice);
         }
         // we only add 0x to any signal that has more than 1bit
         auto width = get_vpi_size(request_handle);
@@ -1069,6 +1068,16 @@ vpiHandle RTLSimulatorClient::add_mock_slice_vpi(vpiHandle parent, const std::st
     return new_handle;
 }
 
+std::optional<RTLSimulatorClient::SliceInfo> RTLSimulatorClient::get_mock_slice(vpiHandle handle) {
+    // slices are created when names are resolved, hence the same lock
+    std::lock_guard guard(handle_map_lock_);
+    auto it = mock_slice_handles_.find(handle);
+    if (it == mock_slice_handles_.end()) [[likely]] {
+        return std::nullopt;
+    }
+    return it->second;
+}
+
 vpiHandle RTLSimulatorClient::get_handle_raw(const std::string &handle_name) {
     vpiHandle ptr = nullptr;
     if (handle_map_.find(handle_name) != handle_map_.end()) {
diff --git a/src/rtl.hh b/src/rtl.hh
index d829b69..34608b9 100644
--- a/src/rtl.hh
+++ b/src/rtl.hh
@@ -190,7 +190,8 @@ private:
     // notice that to my best knowledge, there is no command VPI routine that shared by all
     // simulator vendors that deal with slices. As a result, we need to fake vpiHandles to deal
     // with slices
-    std::unordered_map<vpiHandle, std::tuple<vpiHandle, uint32_t, uint32_t>> mock_slice_handles_;
+    using SliceInfo = std::tuple<vpiHandle, uint32_t, uint32_t>;
+    std::unordered_map<vpiHandle, SliceInfo> mock_slice_handles_;
     vpiHandle mock_slice_handle_counter_ = nullptr;
     std::optional<std::function<vpiHandle()>> vpi_allocator_;
 
@@ -229,6 +230,7 @@ private:
         const std::unordered_set<std::string> &)>>
         custom_hierarchy_func_;
     vpiHandle add_mock_slice_vpi(vpiHandle parent, const std::string &slice);
+    std::optional<SliceInfo> get_mock_slice(vpiHandle handle);
     vpiHandle get_handle_raw(const std::string &handle_name);
 };
 }  // namespace hgdb
-- 
2.43.0


From fffc7d1e1d771eb6c8778b252ff049c8e58df45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:41 +0000
Subject: [PATCH 07/41] fix: query the assertion's module through the locked
 simulator interface

---
 src/rtl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 211e6e2..e0ef392 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -1023,7 +1023,7 @@ std::optional<RTLSimulatorClient::AssertInfo> RTLSimulatorClient::get_assert_inf
         auto type = vpi_->vpi_get(vpiType, it);
         if (type == vpiModule) {
             // this is the module
-            res.full_name = vpi_get_str(vpiFullName, it);
+            res.full_name = vpi_->vpi_get_str(vpiFullName, it);
         } else if (type == vpiConstant) {
             auto const_type = vpi_->vpi_get(vpiConstType, it);
             if (const_type == vpiStringConst) {
-- 
2.43.0


From 0ac3a1d98a95e990070f735d7640643b01a023af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:48 +0000
Subject: [PATCH 08/41] fix: do not index past the names of a short instance
 path

---
 src/rtl.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index e0ef392..b4b132f 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -740,9 +740,8 @@ std::pair<bool, std::string> match(const std::string &full_name,
     static const std::pair<bool, std::string> false_ = {false, ""};
     if (tokens.empty()) return false_;
     auto full_tokens = util::get_tokens(full_name, ".");
-    // the test bench should contain the top, as a result, the full token should be
-    // at least + 1
-    if (full_tokens.size() < (tokens.size() - 1)) return false_;
+    // every token needs a counterpart in the full name
+    if (full_tokens.size() < tokens.size()) return false_;
 
     for (auto i = 0u; i < tokens.size(); i++) {
         auto const &t_value = tokens[tokens.size() - 1 - i];
@@ -797,7 +796,7 @@ std::vector<RTLSimulatorClient::IPMapping> RTLSimulatorClient::compute_hierarchy
         handle_queues.pop();
         auto *handle_iter = vpi_->vpi_iterate(vpiModule, mod_handle);
         if (!handle_iter) {
-            if (is_verilator() && !mod_handle) {
+            if (is_verilator() && !mod_handle && !map_instance_mapping.empty()) {
                 // verilator... why would you do this?
                 auto const &top_name = map_instance_mapping.begin()->first;
                 return {{top_name, fmt::format("TOP.{0}.", top_name)}};
-- 
2.43.0


From ea2651c7d448715d0cd982d15bcca19c9d456163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:54 +0000
Subject: [PATCH 09/41] fix: treat an array index that does not fit as an
 unknown signal

---
 src/rtl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index b4b132f..04985f9 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -243,8 +243,9 @@ vpiHandle RTLSimulatorClient::access_arrays(StringIterator begin, StringIterator
         if (!std::all_of(idx.begin(), idx.end(), ::isdigit)) {
             return nullptr;
         }
-        auto index_value = std::stoi(idx);
-        var_handle = vpi_->vpi_handle_by_index(var_handle, index_value);
+        auto index_value = util::stoul(idx);
+        if (!index_value || *index_value > std::numeric_limits<PLI_INT32>::max()) return nullptr;
+        var_handle = vpi_->vpi_handle_by_index(var_handle, static_cast<PLI_INT32>(*index_value));
         if (!var_handle) return nullptr;
         it++;
     }
-- 
2.43.0


From 67b202fff06ae69ffff9bedd45f5e86ec19be2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:51 +0000
Subject: [PATCH 10/41] fix: complete one symbol table exchange before starting
 the next

---
 src/symbol.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/symbol.cc b/src/symbol.cc
index 0a6d542..1b85804 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -458,10 +458,13 @@ public:
 
 private:
     std::unique_ptr<NetworkProvider> network_;
+    // one exchange at a time, otherwise a query could pick up the answer to another one
+    std::mutex exchange_lock_;
 
     hgdb::SymbolResponse get_resp(const hgdb::SymbolRequest &req) {
         SymbolResponse resp(req.req_type());
         if (network_) {
+            std::lock_guard guard(exchange_lock_);
             network_->send(req.str());
             auto str = network_->receive();
             resp.parse(str);
-- 
2.43.0


From 92c72cb160d0bdcdd0434879c10dc02bdc180b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:39 +0000
Subject: [PATCH 11/41] fix: answer with an error instead of crashing when no
 symbol table is loaded

---
 src/debug.cc | 61 ++++++++++++++++++++++++++++++++++++----------------
 src/debug.hh |  2 +-
 2 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index a841d81..c493338 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -45,7 +45,8 @@ bool Debugger::initialize_db(const std::string &filename) {
 }
 
 void Debugger::initialize_db(std::unique_ptr<SymbolTableProvider> db) {
-    // reset db_ for every new connection
+    // reset db_ for every new connection. the scheduler refers to it
+    scheduler_ = nullptr;
     db_ = nullptr;
     if (!db) return;
     db_ = std::move(db);
@@ -120,7 +121,8 @@ void Debugger::eval() {
     start_breakpoint_evaluation();  // clean the state and fetch values
 
     // main loop to fetch breakpoints
-    while (true) {
+    // without a symbol table there is nothing to schedule
+    while (scheduler_) {
         std::vector<DebugBreakPoint *> bps;
         {
             perf::PerfCount perf_get_bp("next breakpoints", perf_count_);
@@ -176,6 +178,10 @@ void Debugger::handle_assert() {
         log_error("Invalid assertion call site");
         return;
     }
+    if (!db_ || !scheduler_) {
+        log_error("Database is not initialized or is initialized incorrectly");
+        return;
+    }
     auto breakpoints =
         db_->get_breakpoints(assert_info->filename, assert_info->line, assert_info->column);
     if (breakpoints.empty()) {
@@ -474,6 +480,10 @@ std::optional<std::string> Debugger::resolve_var_name(
     uint32_t ns_id, const std::string &var_name, const std::optional<uint64_t> &instance_id,
     const std::optional<uint64_t> &breakpoint_id) {
     std::optional<std::string> full_name;
+    if ((breakpoint_id || instance_id) && !db_) {
+        // no symbol table to resolve the name with
+        return std::nullopt;
+    }
     if (breakpoint_id) {
         auto bp = *breakpoint_id;
         full_name = db_->resolve_scoped_name_breakpoint(var_name, bp);
@@ -539,7 +549,7 @@ void Debugger::handle_connection(const ConnectionRequest &req, uint64_t conn_id)
 }
 
 void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id) {
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
 
     // depends on whether it is "add" or "remove"
     auto const &bp_info = req.breakpoint();
@@ -580,7 +590,7 @@ void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id)
 }
 
 void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t conn_id) {
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
     // depends on whether it is "add" or "remove"
     auto const &bp_info = req.breakpoint();
     if (req.bp_action() == BreakPointRequest::action::add) {
@@ -604,7 +614,7 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
 
 void Debugger::handle_bp_location(const BreakPointLocationRequest &req, uint64_t conn_id) {
     // if db is not connected correctly, abort
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
 
     auto const &filename = req.filename();
     auto const &line_num = req.line_num();
@@ -631,17 +641,22 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
     status_code status = status_code::success;
     std::string error;
 
+    // without a symbol table there is no scheduler, but the simulation can still be resumed
+    auto set_evaluation_mode = [this](Scheduler::EvaluationMode mode) {
+        if (scheduler_) scheduler_->set_evaluation_mode(mode);
+    };
+
     switch (req.command_type()) {
         case CommandRequest::CommandType::continue_: {
             log_info("handle_command: continue_");
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::BreakPointOnly);
+            set_evaluation_mode(Scheduler::EvaluationMode::BreakPointOnly);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::stop: {
             log_info("handle_command: stop");
-            scheduler_->clear();
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::None);
+            if (scheduler_) scheduler_->clear();
+            set_evaluation_mode(Scheduler::EvaluationMode::None);
             // we will unlock the lock during the stop step to ensure proper shutdown
             // of the runtime
             namespaces_.default_rtl()->finish_sim();
@@ -651,26 +666,27 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
         case CommandRequest::CommandType::step_over: {
             log_info("handle_command: step_over");
             // change the mode into step through
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::StepOver);
+            set_evaluation_mode(Scheduler::EvaluationMode::StepOver);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::reverse_continue: {
             log_info("handle_command: reverse_continue");
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::ReverseBreakpointOnly);
+            set_evaluation_mode(Scheduler::EvaluationMode::ReverseBreakpointOnly);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::step_back: {
             log_info("handle_command: step_back");
             // change the mode into step back
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::StepBack);
+            set_evaluation_mode(Scheduler::EvaluationMode::StepBack);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::jump: {
             log_info(fmt::format("handle_command: jump ({0})", req.time()));
-            auto res = namespaces_.default_rtl()->rewind(req.time(), scheduler_->clock_handles());
+            auto res = scheduler_ && namespaces_.default_rtl()->rewind(
+                                         req.time(), scheduler_->clock_handles());
             if (!res) {
                 status = status_code::error;
                 error = "Underlying RTL simulator does not support rewind";
@@ -693,6 +709,7 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
 void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t conn_id) {
     switch (req.command_type()) {
         case DebuggerInformationRequest::CommandType::breakpoints: {
+            if (!check_send_db_error(req, conn_id)) return;
             auto bps = scheduler_->get_current_breakpoints();
             std::vector<const DebugBreakPoint *> bps_;
             bps_.reserve(bps.size());
@@ -737,6 +754,7 @@ void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t
             return;
         }
         case DebuggerInformationRequest::CommandType::filename: {
+            if (!check_send_db_error(req, conn_id)) return;
             auto filenames = db_->get_filenames();
             auto resp = DebuggerInformationResponse(filenames);
             req.set_token(resp);
@@ -787,6 +805,8 @@ DebuggerNamespace *get_namespace(std::optional<uint32_t> instance_id,
             return namespaces_[*namespace_id];
         }
     }
+    // an instance or a breakpoint means nothing without a symbol table
+    if ((instance_id || breakpoint_id) && !db) return nullptr;
     std::optional<std::string> instance_name;
     if (instance_id) {
         instance_name = db->get_instance_name(*instance_id);
@@ -885,6 +905,10 @@ void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
         // depends on whether it is an add or remove action
         auto *ns = get_namespace(req.instance_id(), req.breakpoint_id(), req.namespace_id(),
                                  namespaces_, db_.get());
+        if (!ns) {
+            send_error(req, "Unable to determine design namespace", conn_id);
+            return;
+        }
 
         auto &monitor = *ns->monitor;
         if (req.action_type() == MonitorRequest::ActionType::add) {
@@ -970,6 +994,7 @@ void Debugger::handle_symbol(const SymbolRequest &, uint64_t) {
 
 // NOLINTNEXTLINE
 void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t conn_id) {
+    if (!check_send_db_error(req, conn_id)) return;
     auto *ns = get_namespace(std::nullopt, req.breakpoint_id(), req.namespace_id(), namespaces_,
                              db_.get());
     if (!ns) {
@@ -1198,12 +1223,10 @@ void Debugger::set_vendor_initial_options() {
     }
 }
 
-bool Debugger::check_send_db_error(RequestType type, uint64_t conn_id) {
-    if (!db_) {
+bool Debugger::check_send_db_error(const Request &req, uint64_t conn_id) {
+    if (!db_ || !scheduler_) {
         // need to send error response
-        auto resp = GenericResponse(status_code::error, type,
-                                    "Database is not initialized or is initialized incorrectly");
-        send_message(resp.str(log_enabled_), conn_id);
+        send_error(req, "Database is not initialized or is initialized incorrectly", conn_id);
         return false;
     }
     return true;
@@ -1371,7 +1394,7 @@ void Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp
 }
 
 void Debugger::start_breakpoint_evaluation() {
-    scheduler_->start_breakpoint_evaluation();
+    if (scheduler_) scheduler_->start_breakpoint_evaluation();
     {
         std::lock_guard guard(cached_signal_values_lock_);
         cached_signal_values_.clear();
@@ -1491,7 +1514,7 @@ void Debugger::update_delayed_values() {
 }
 
 void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
-    if (!db_) [[unlikely]]
+    if (!db_ || !scheduler_) [[unlikely]]
         return;
     auto *bp = scheduler_->get_breakpoint(bp_id);
     if (!bp) return;
diff --git a/src/debug.hh b/src/debug.hh
index 98beb31..4aa01dd 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -150,7 +150,7 @@ private:
     void set_vendor_initial_options();
 
     // common checker
-    bool check_send_db_error(RequestType type, uint64_t conn_id);
+    bool check_send_db_error(const Request &req, uint64_t conn_id);
 
     // scheduler
     bool should_trigger(DebugBreakPoint *bp);
-- 
2.43.0


From f8f688ce8a6cad9cb8319e9b81ad51a1ee7ceb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:25 +0000
Subject: [PATCH 12/41] fix: do not keep a pointer to a breakpoint that may be
 removed in a delayed variable's condition

---
 src/debug.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index c493338..b5cd052 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1520,11 +1520,15 @@ void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
     if (!bp) return;
     auto context_vars = db_->get_context_delayed_variables(bp_id);
     auto instance_name = db_->get_instance_name_from_bp(bp_id);
-    auto const &namespaces = namespaces_.get_namespaces(*instance_name);
+    auto const &namespaces = namespaces_.get_namespaces(instance_name);
     for (auto *ns : namespaces) {
         auto *rtl = ns->rtl.get();
         auto *monitor = ns->monitor.get();
-        auto func = [this, bp]() { return eval_breakpoint(bp); };
+        // the breakpoint may be removed before the monitor evaluates the condition
+        auto func = [this, bp_id]() {
+            auto *current = scheduler_ ? scheduler_->get_breakpoint(bp_id) : nullptr;
+            return current && eval_breakpoint(current);
+        };
 
         for (auto const &[ctx, v] : context_vars) {
             auto var_names = resolve_context_name(v.value, ctx.name, bp_id, rtl, db_.get());
-- 
2.43.0


From 844b2fa703ee48491d09dc5ba9899b46603695df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:36 +0000
Subject: [PATCH 13/41] fix: keep the assignment's own condition when a data
 breakpoint has a user condition

---
 src/debug.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index b5cd052..bbb10bc 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1042,7 +1042,7 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                 std::string bp_condition;
                 if (req.condition().empty())
                     bp_condition = data_condition;
-                else if (bp_condition.empty())
+                else if (data_condition.empty())
                     bp_condition = req.condition();
                 else
                     // merge these two
-- 
2.43.0


From 288e13d7e14b13b8917654b1e7d8ac43b76cb462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:51 +0000
Subject: [PATCH 14/41] fix: report a breakpoint whose condition cannot be
 resolved, and keep the breakpoints ordered

---
 src/debug.cc     | 27 +++++++++++++++++++++------
 src/debug.hh     |  2 +-
 src/scheduler.cc |  1 +
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index bbb10bc..118cc55 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -192,7 +192,11 @@ void Debugger::handle_assert() {
     auto &bp = breakpoints[0];
     bp.condition.clear();
     // need to insert it into the scheduler
-    scheduler_->add_assert_breakpoint(ns, bp);
+    if (!scheduler_->add_assert_breakpoint(ns, bp)) {
+        log_error("Unable to insert breakpoint for assertion");
+        return;
+    }
+    scheduler_->reorder_breakpoints();
 }
 
 void Debugger::set_option(const std::string &name, bool value) {
@@ -570,11 +574,16 @@ void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id)
             return;
         }
 
+        bool added = true;
         for (auto const &bp : bps) {
-            add_breakpoint(bp_info, bp);
+            if (!add_breakpoint(bp_info, bp)) added = false;
         }
 
         scheduler_->reorder_breakpoints();
+        if (!added) {
+            send_error(req, "Invalid breakpoint condition: " + bp_info.condition, conn_id);
+            return;
+        }
     } else {
         // remove
         auto bps = db_->get_breakpoints(bp_info.filename, bp_info.line_num, bp_info.column_num);
@@ -603,7 +612,12 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
             send_message(error_response.str(log_enabled_), conn_id);
             return;
         }
-        add_breakpoint(bp_info, *bp);
+        auto added = add_breakpoint(bp_info, *bp);
+        scheduler_->reorder_breakpoints();
+        if (!added) {
+            send_error(req, "Invalid breakpoint condition: " + bp_info.condition, conn_id);
+            return;
+        }
     } else {
         scheduler_->remove_breakpoint(bp_info, DebugBreakPoint::Type::normal);
     }
@@ -977,7 +991,7 @@ void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {
             send_message(resp.str(log_enabled_), conn_id);
             return;
         } else {
-            send_error(req, req.error_reason(), conn_id);
+            send_error(req, "Unable to set value for " + *full_name, conn_id);
             return;
         }
 
@@ -1388,9 +1402,10 @@ void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::v
     }
 }
 
-void Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp) {
-    scheduler_->add_breakpoint(bp_info, db_bp);
+bool Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp) {
+    if (!scheduler_->add_breakpoint(bp_info, db_bp)) return false;
     process_delayed_breakpoint(db_bp.id);
+    return true;
 }
 
 void Debugger::start_breakpoint_evaluation() {
diff --git a/src/debug.hh b/src/debug.hh
index 4aa01dd..aa98fbc 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -158,7 +158,7 @@ private:
     void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<uint8_t> &result,
                          uint64_t start, uint64_t end);
     std::vector<uint8_t> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
-    void add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
+    bool add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
     void start_breakpoint_evaluation();
 
     // cached wrapper
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 133ef26..ad4d390 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -411,6 +411,7 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
                 DebugBreakPoint *p = nullptr;
                 for (auto *ns : namespaces) {
                     p = insert_bp(ns);
+                    if (!p) return nullptr;
                 }
                 // Only need to return one
                 return p;
-- 
2.43.0


From 0c2935318510141bc704e68918262a31867968c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:58 +0000
Subject: [PATCH 15/41] fix: do not step back from a breakpoint that is not in
 the table

---
 src/scheduler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index ad4d390..015c827 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -129,6 +129,7 @@ std::vector<DebugBreakPoint *> Scheduler::next_step_back_breakpoints() {
     } else {
         auto current_id = *current_breakpoint_id_;
         auto pos = std::find(bp_ordering_.begin(), bp_ordering_.end(), current_id);
+        if (pos == bp_ordering_.end()) return {};
         auto index = static_cast<uint64_t>(std::distance(bp_ordering_.begin(), pos));
         if (index != 0) {
             next_breakpoint_id = bp_ordering_[index - 1];
@@ -200,7 +201,7 @@ std::vector<DebugBreakPoint *> Scheduler::next_reverse_breakpoints() {
         target_index = breakpoints_.size() - 1;
     }
 
-    if (!target_index && target_index >= breakpoints_.size()) {
+    if (!target_index || *target_index >= breakpoints_.size()) {
         current_breakpoint_id_ = std::nullopt;
         return {};
     }
-- 
2.43.0


From 97e059fd8e101dd46f147df918e2ddd5c942b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:08 +0000
Subject: [PATCH 16/41] fix: insert, update and remove a breakpoint in every
 namespace, or refuse it

---
 src/scheduler.cc | 79 ++++++++++++++++++++++++------------------------
 src/scheduler.hh |  2 +-
 2 files changed, 40 insertions(+), 41 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 015c827..e4d249d 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -237,7 +237,7 @@ DebugBreakPoint *Scheduler::find_breakpoint(uint32_t id) const {
 
 std::vector<DebugBreakPoint *> Scheduler::create_next_breakpoints(
     const std::optional<BreakPoint> &bp_info) {
-    if (!bp_info) return {};
+    if (!bp_info || !bp_info->instance_id) return {};
     std::string cond = bp_info->condition.empty() ? "1" : bp_info->condition;
     auto instance_name = db_->get_instance_name(*bp_info->instance_id);
     auto const &namespaces = namespaces_.get_namespaces(instance_name);
@@ -266,25 +266,30 @@ std::vector<DebugBreakPoint *> Scheduler::create_next_breakpoints(
 std::unique_ptr<DebugBreakPoint> Scheduler::remove_breakpoint(uint64_t bp_id,
                                                               DebugBreakPoint::Type type) {
     // notice that removal doesn't need reordering
-    for (auto pos = breakpoints_.begin(); pos != breakpoints_.end(); pos++) {
-        if ((*pos)->id == bp_id) {
-            // erase the type first. if the remaining type is 0, then we completely erase the
-            // breakpoint
-            auto t = static_cast<uint32_t>((*pos)->type);
-            t &= ~(static_cast<uint32_t>(type));
-            if (t == 0) {
-                // remove it before after transfer the ownership
-                std::unique_ptr<DebugBreakPoint> res = std::move(*pos);
-                breakpoints_.erase(pos);
-                inserted_breakpoints_.erase(bp_id);
-                return res;
-            } else {
-                (*pos)->type = static_cast<DebugBreakPoint::Type>(t);
-            }
-            break;
+    // there can be several entries with the same id, e.g. one per namespace
+    std::unique_ptr<DebugBreakPoint> res;
+    bool remaining = false;
+    for (auto pos = breakpoints_.begin(); pos != breakpoints_.end();) {
+        if ((*pos)->id != bp_id) {
+            pos++;
+            continue;
+        }
+        // erase the type first. if the remaining type is 0, then we completely erase the
+        // breakpoint
+        auto t = static_cast<uint32_t>((*pos)->type);
+        t &= ~(static_cast<uint32_t>(type));
+        if (t == 0) {
+            // remove it before after transfer the ownership
+            res = std::move(*pos);
+            pos = breakpoints_.erase(pos);
+        } else {
+            (*pos)->type = static_cast<DebugBreakPoint::Type>(t);
+            remaining = true;
+            pos++;
         }
     }
-    return nullptr;
+    if (!remaining) inserted_breakpoints_.erase(bp_id);
+    return res;
 }
 
 void Scheduler::remove_assert_breakpoints() {
@@ -334,7 +339,7 @@ std::unordered_map<std::string, vpiHandle> compute_trigger_symbol(const BreakPoi
     auto const &trigger_str = bp.trigger;
     auto tokens = util::get_tokens(trigger_str, " ");
     std::unordered_map<std::string, vpiHandle> result;
-    if (!tokens.empty()) {
+    if (!tokens.empty() && bp.instance_id) {
         auto instance_name = db->get_instance_name(*bp.instance_id);
         if (!instance_name) return {};
         for (auto const &symbol : tokens) {
@@ -355,6 +360,8 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
                                            DebugBreakPoint::Type bp_type,
                                            const std::string &target_var, bool dry_run,
                                            DebuggerNamespace *target_ns) {
+    // a breakpoint always belongs to an instance
+    if (!db_bp.instance_id) return nullptr;
     // add them to the eval vector
     std::string cond = "1";
     if (!db_bp.condition.empty()) cond = db_bp.condition;
@@ -417,23 +424,26 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
                 // Only need to return one
                 return p;
             } else {
-                // update breakpoint entry
+                // update breakpoint entry, in every namespace it has been inserted to
+                DebugBreakPoint *p = nullptr;
                 for (auto &b : breakpoints_) {
                     if (db_bp.id == b->id) {
-                        b->expr = std::make_unique<DebugExpression>(cond);
+                        auto expr = std::make_unique<DebugExpression>(cond);
                         auto *ns = namespaces_[b->ns_id];
                         auto *rtl = ns->rtl.get();
-                        util::validate_expr(rtl, db_, b->expr.get(), db_bp.id, *db_bp.instance_id);
-                        if (!b->expr->correct()) [[unlikely]] {
+                        util::validate_expr(rtl, db_, expr.get(), db_bp.id, *db_bp.instance_id);
+                        if (!expr->correct()) [[unlikely]] {
                             log_error("Unable to validate breakpoint expression: " + cond);
+                            return nullptr;
                         }
+                        b->expr = std::move(expr);
                         // need to update the bp type flag
                         b->type = static_cast<DebugBreakPoint::Type>(static_cast<int>(b->type) |
                                                                      static_cast<int>(bp_type));
-                        return b.get();
+                        p = b.get();
                     }
                 }
-                return nullptr;
+                return p;
             }
         }
         case DebugBreakPoint::Type::data: {
@@ -449,7 +459,6 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
             }
             DebugBreakPoint *data_bp = nullptr;
             for (auto *ns : namespaces) {
-                data_bp = insert_bp(ns);
                 auto *rtl = ns->rtl.get();
                 auto expr = DebugExpression(target_var);
                 util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
@@ -458,6 +467,8 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
                     log_error("Unable to validate variable in data breakpoint: " + target_var);
                     return nullptr;
                 }
+                data_bp = insert_bp(ns);
+                if (!data_bp) return nullptr;
                 data_bp->full_rtl_handle = handles.begin()->second;
                 data_bp->full_rtl_name = rtl->get_full_name(data_bp->full_rtl_handle);
                 data_bp->target_rtl_var_name = target_var;
@@ -495,22 +506,10 @@ void Scheduler::clear_data_breakpoints() {
     // else remove this breakpoint
     std::unordered_set<uint32_t> bps;
     for (auto &bp : breakpoints_) {
-        if (bp->has_type_flag(DebugBreakPoint::Type::data)) {
-            if (bp->has_type_flag(DebugBreakPoint::Type::normal)) {
-                bp->type = DebugBreakPoint::Type::normal;
-            } else {
-                // remove this breakpoint
-                bps.emplace(bp->id);
-            }
-        }
+        if (bp->has_type_flag(DebugBreakPoint::Type::data)) bps.emplace(bp->id);
     }
     for (auto id : bps) {
-        auto pos = std::find_if(breakpoints_.begin(), breakpoints_.end(),
-                                [id](auto const &bp) { return bp->id == id; });
-        if (pos != breakpoints_.end()) {
-            breakpoints_.erase(pos);
-            inserted_breakpoints_.erase(id);
-        }
+        remove_breakpoint(id, DebugBreakPoint::Type::data);
     }
 }
 
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 0b5ab59..48f9164 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -32,7 +32,7 @@ struct DebugBreakPoint {
 
     // used for data breakpoint
     Type type = Type::normal;
-    vpiHandle full_rtl_handle;
+    vpiHandle full_rtl_handle = nullptr;
     std::string full_rtl_name;
     std::string target_rtl_var_name;
     uint64_t watch_id = 0;
-- 
2.43.0


From 2a307ca41da71681218c39c3002c1ce19a5ffd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:03 +0000
Subject: [PATCH 17/41] fix: keep the operator precedence when a user condition
 is combined with a breakpoint's own

---
 src/debug.cc     | 2 +-
 src/scheduler.cc | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 118cc55..1509fb9 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1060,7 +1060,7 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                     bp_condition = req.condition();
                 else
                     // merge these two
-                    bp_condition = fmt::format("{0} && {1}", req.condition(), data_condition);
+                    bp_condition = fmt::format("({0}) && ({1})", req.condition(), data_condition);
                 auto *bp =
                     scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run);
                 if (!bp) {
diff --git a/src/scheduler.cc b/src/scheduler.cc
index e4d249d..67ff035 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -366,7 +366,8 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
     std::string cond = "1";
     if (!db_bp.condition.empty()) cond = db_bp.condition;
     if (!bp_info.condition.empty()) {
-        cond.append(" && " + bp_info.condition);
+        // both have to hold, whatever operators they use
+        cond = fmt::format("({0}) && ({1})", cond, bp_info.condition);
     }
 
     auto insert_bp = [bp_type, this, &db_bp, cond,
-- 
2.43.0


From f706ae3afaed445f3806b18228789db72acafff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:11 +0000
Subject: [PATCH 18/41] fix: do not trap when an expression divides by zero

---
 src/eval.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 5a783a1..c703581 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -376,6 +376,19 @@ Expr* parse(const std::string& value, DebugExpression& debug_expression) {
     }
 }
 
+// division must not trap: the operands come from the design
+static ExpressionType divide_(ExpressionType left, ExpressionType right) {
+    if (right == 0) return 0;
+    // the most negative value divided by -1 doesn't fit
+    if (right == -1) return static_cast<ExpressionType>(0u - static_cast<uint64_t>(left));
+    return left / right;
+}
+
+static ExpressionType mod_(ExpressionType left, ExpressionType right) {
+    if (right == 0 || right == -1) return 0;
+    return left % right;
+}
+
 ExpressionType Expr::eval() const {
     switch (op) {
         case Operator::None:
@@ -391,9 +404,9 @@ ExpressionType Expr::eval() const {
         case Operator::Multiply:
             return left->eval() * right->eval();
         case Operator::Divide:
-            return left->eval() / right->eval();
+            return divide_(left->eval(), right->eval());
         case Operator::Mod:
-            return left->eval() % right->eval();
+            return mod_(left->eval(), right->eval());
         case Operator::Eq:
             return left->eval() == right->eval();
         case Operator::Neq:
-- 
2.43.0


From 19e7e208fcc27d6d76ce6510b07340005a451337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:16 +0000
Subject: [PATCH 19/41] fix: do not map the same namespace again when a client
 reconnects

---
 src/namespace.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/namespace.cc b/src/namespace.cc
index 5a8ce9a..df64206 100644
--- a/src/namespace.cc
+++ b/src/namespace.cc
@@ -33,7 +33,8 @@ void DebuggerNamespaceManager::compute_instance_mapping(SymbolTableProvider *db)
     auto mapping =
         default_rtl()->compute_instance_mapping(instances, default_rtl()->vpi()->has_defname());
 
-    for (auto i = 1u; i < mapping.size(); i++) {
+    // the namespaces may have been created for an earlier connection
+    for (auto i = namespaces_.size(); i < mapping.size(); i++) {
         add_namespace(default_rtl()->vpi());
     }
 
@@ -45,6 +46,7 @@ void DebuggerNamespaceManager::compute_instance_mapping(SymbolTableProvider *db)
 }
 
 void DebuggerNamespaceManager::compute_mapping() {
+    mapped_namespaces_.clear();
     for (auto &ns : namespaces_) {
         mapped_namespaces_[ns->def_name].emplace_back(ns.get());
     }
@@ -54,7 +56,9 @@ const std::vector<DebuggerNamespace *> &DebuggerNamespaceManager::get_namespaces
     const std::optional<std::string> &instance_name) {
     const static std::vector<DebuggerNamespace *> empty = {};
     if (!instance_name) return empty;
-    auto def_name = util::get_tokens(*instance_name, ".")[0];
+    auto tokens = util::get_tokens(*instance_name, ".");
+    if (tokens.empty()) return empty;
+    auto const &def_name = tokens[0];
     if (mapped_namespaces_.find(def_name) != mapped_namespaces_.end()) [[likely]] {
         return mapped_namespaces_.at(def_name);
     } else {
-- 
2.43.0


From 1a4b46c481adcb63cb0eaa8fd9cac88a4deccce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 20/41] fix: do not read a delayed value before enough of its
 history is known

---
 src/monitor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/monitor.cc b/src/monitor.cc
index cb4f06a..f45102f 100644
--- a/src/monitor.cc
+++ b/src/monitor.cc
@@ -116,7 +116,7 @@ std::vector<std::pair<uint64_t, std::optional<int64_t>>> Monitor::get_watched_va
                 // we assume this will be called every clock cycle
                 auto new_value = rtl_->get_value(watch_var->handle);
                 // we use the old value
-                auto old_value = *watch_var->get_value();
+                auto old_value = watch_var->get_value();
                 watch_var->set_value(new_value);
                 result.emplace_back(std::make_pair(watch_id, old_value));
             }
@@ -191,7 +191,7 @@ Monitor::WatchVariableBuffer::WatchVariableBuffer(std::string full_name, vpiHand
     : WatchVariable(WatchType::delay_clock_edge, std::move(full_name), handle), depth_(depth) {}
 
 std::optional<int64_t> Monitor::WatchVariableBuffer::get_value() const {
-    if (values_.size() == depth_) [[likely]] {
+    if (!values_.empty() && values_.size() == depth_) [[likely]] {
         return values_.front();
     } else {
         return std::nullopt;
-- 
2.43.0


From ef6e4b60ca9223aacf1409ca3f2580fd36de135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:32 +0000
Subject: [PATCH 21/41] fix: reject protocol messages whose fields are missing
 or have the wrong type

---
 src/proto.cc | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 1ca4c3e..89c5834 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -179,7 +179,7 @@ namespace hgdb {
 template <typename T>
 static bool check_member(T &document, const char *member_name, std::string &error,
                          bool set_error = true) {
-    if (!document.HasMember(member_name)) {
+    if (!document.IsObject() || !document.HasMember(member_name)) {
         if (set_error) error = fmt::format("Unable to find member {0}", member_name);
         return false;
     }
@@ -197,7 +197,7 @@ static std::optional<T> get_member(K &document, const char *member_name, std::st
             error = fmt::format("Invalid type for {0}", member_name);
         }
     } else if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value) {
-        if (document[member_name].IsNumber()) {
+        if (document[member_name].template Is<T>()) {
             return document[member_name].template Get<T>();
         } else if (check_type) {
             error = fmt::format("Invalid type for {0}", member_name);
@@ -786,7 +786,11 @@ void BreakPointRequest::parse_payload(const std::string &payload) {
 
     bool line_num_required = bp_action_ == action::add;
     auto line_num = get_member<uint64_t>(document, "line_num", error_reason_, line_num_required);
-    if (line_num_required || line_num)
+    if (line_num_required && !line_num) {
+        status_code_ = status_code::error;
+        return;
+    }
+    if (line_num)
         bp_.line_num = *line_num;
     else
         bp_.line_num = 0;
@@ -980,6 +984,12 @@ void OptionChangeRequest::parse_payload(const std::string &payload) {
     document.Parse(payload.c_str());
     if (!check_json(document, status_code_, error_reason_)) return;
 
+    if (!document.IsObject()) {
+        status_code_ = status_code::error;
+        error_reason_ = "Invalid payload";
+        return;
+    }
+
     // need to loop through the map by hand
     for (auto const &option : document.GetObject()) {
         std::string name = option.name.GetString();
@@ -1178,7 +1188,7 @@ void SymbolRequest::parse_payload(const std::string &payload) {
             break;
         }
         case request_type::get_instance_id: {
-            if (document.HasMember("breakpoint_id")) {
+            if (check_member(document, "breakpoint_id", error_reason_, false)) {
                 auto id = get_member<uint32_t>(document, "breakpoint_id", error_reason_);
                 if (!id) return;
                 breakpoint_id = *id;
@@ -1397,7 +1407,8 @@ void SymbolResponse::parse(const std::string &str) {
     document.Parse(str.c_str());
     if (document.HasParseError()) return;
 
-    if (!document.HasMember("result")) return;
+    std::string error;
+    if (!check_member(document, "result", error, false)) return;
     auto const &result = document["result"];
 
     // we ignore type since it's a single thread model
@@ -1424,7 +1435,7 @@ void SymbolResponse::parse(const std::string &str) {
             break;
         }
         case SymbolRequest::request_type::get_instance_id: {
-            if (!result.IsNumber()) return;
+            if (!result.IsUint64()) return;
             uint64_t_result = result.GetUint64();
             break;
         }
@@ -1472,7 +1483,7 @@ void SymbolResponse::parse(const std::string &str) {
         case SymbolRequest::request_type::get_execution_bp_orders: {
             if (!result.IsArray()) return;
             for (auto const &entry : result.GetArray()) {
-                if (!entry.IsNumber()) return;
+                if (!entry.IsUint64()) return;
                 uint64_t_results.emplace_back(entry.GetUint64());
             }
             break;
@@ -1486,10 +1497,10 @@ void SymbolResponse::parse(const std::string &str) {
                 std::optional<uint32_t> breakpoint_id;
                 std::optional<std::string> var_name, condition;
                 for (auto const &[key, value] : entry.GetObject()) {
-                    if ((key == "id" || key == "breakpoint_id") && value.IsNumber()) {
+                    if ((key == "id" || key == "breakpoint_id") && value.IsUint64()) {
                         breakpoint_id = value.GetUint64();
                     } else if ((key == "var" || key == "value" || key == "var_name" ||
-                                key == "variable_name") ||
+                                key == "variable_name") &&
                                value.IsString()) {
                         var_name = value.GetString();
                     } else if ((key == "condition" || key == "cond") && value.IsString()) {
-- 
2.43.0


From 077f39371621497af0b5b147fac80dd30f995e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:41 +0000
Subject: [PATCH 22/41] fix: keep the token of a request that cannot be parsed

---
 src/proto.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 89c5834..eb3ae2a 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -693,16 +693,23 @@ std::unique_ptr<Request> Request::parse_request(const std::string &str) {
     if (document.HasParseError()) return std::make_unique<ErrorRequest>("Invalid json object");
 
     std::string error;
+    // get token
+    auto token = get_member<std::string>(document, "token", error, false, false);
+    auto error_request = [&token](std::string reason) {
+        std::unique_ptr<Request> req = std::make_unique<ErrorRequest>(std::move(reason));
+        if (token) req->token_ = *token;
+        return req;
+    };
+
     auto request = get_member<bool>(document, "request", error);
-    if (!request || !(*request)) return std::make_unique<ErrorRequest>(error);
+    if (!request) return error_request(error);
+    if (!*request) return error_request("Not a request");
 
     auto type = get_member<std::string>(document, "type", error);
-    if (!type) return std::make_unique<ErrorRequest>(error);
+    if (!type) return error_request(error);
     // get payload
     auto payload = check_member(document, "payload", error);
-    if (!payload) return std::make_unique<ErrorRequest>(error);
-    // get token
-    auto token = get_member<std::string>(document, "token", error, false, true);
+    if (!payload) return error_request(error);
 
     auto const &type_str = *type;
     std::unique_ptr<Request> result;
-- 
2.43.0


From 22d9adbd51da6a89291aa5fac4719baf765353ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:47 +0000
Subject: [PATCH 23/41] fix: report unknown actions and incomplete symbol
 requests as errors

---
 src/proto.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/proto.cc b/src/proto.cc
index eb3ae2a..27da66c 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -788,6 +788,7 @@ void BreakPointRequest::parse_payload(const std::string &payload) {
         bp_action_ = action::remove;
     } else {
         status_code_ = status_code::error;
+        error_reason_ = "Unknown action " + action_str;
         return;
     }
 
@@ -833,6 +834,7 @@ void BreakPointIDRequest::parse_payload(const std::string &payload) {
         bp_action_ = action::remove;
     } else {
         status_code_ = status_code::error;
+        error_reason_ = "Unknown action " + action_str;
         return;
     }
 
@@ -1032,6 +1034,7 @@ void MonitorRequest::parse_payload(const std::string &payload) {
     } else if (*action_type == "remove") {
         action_type_ = ActionType::remove;
     } else {
+        status_code_ = status_code::error;
         error_reason_ = "Unknown action type " + *action_type;
         return;
     }
@@ -1053,6 +1056,7 @@ void MonitorRequest::parse_payload(const std::string &payload) {
             monitor_type_ = MonitorType::changed;
         } else {
             status_code_ = status_code::error;
+            error_reason_ = "Unknown monitor type " + *monitor_type;
             return;
         }
 
@@ -1135,6 +1139,8 @@ void SymbolRequest::parse_payload(const std::string &payload) {
     document.Parse(payload.c_str());
     if (!check_json(document, status_code_, error_reason_)) return;
 
+    // only a complete request is valid
+    status_code_ = status_code::error;
     auto type_str = get_member<std::string>(document, "type", error_reason_);
     if (!type_str) return;
 
@@ -1227,6 +1233,7 @@ void SymbolRequest::parse_payload(const std::string &payload) {
             break;
         }
     }
+    status_code_ = status_code::success;
 }
 
 std::string SymbolRequest::str() const {
-- 
2.43.0


From f2986238d48dadbfa87ef02944a7dca5bce22615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:56 +0000
Subject: [PATCH 24/41] fix: order variable names consistently and for indices
 of any size

---
 src/proto.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 27da66c..aea58fa 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -499,13 +499,14 @@ bool BreakPointResponse::LocalVarNameCompare::operator()(const std::string &var1
             auto const &t1 = var1_tokens[i];
             auto const &t2 = var2_tokens[i];
 
-            if (std::all_of(t1.begin(), t1.end(), ::isdigit) &&
-                std::all_of(t2.begin(), t2.end(), ::isdigit)) {
-                auto v1 = std::stoul(t1);
-                auto v2 = std::stoul(t2);
-                if (v1 != v2) {
-                    return v1 < v2;
-                }
+            auto const is_num1 = std::all_of(t1.begin(), t1.end(), ::isdigit);
+            auto const is_num2 = std::all_of(t2.begin(), t2.end(), ::isdigit);
+            if (is_num1 != is_num2) {
+                // numbers first, so that the ordering is transitive
+                return is_num1;
+            } else if (is_num1 && t1.size() != t2.size()) {
+                // indices are written without leading zeros, and can be arbitrarily large
+                return t1.size() < t2.size();
             } else if (t1 != t2) {
                 // for some reason clang-tidy wants us to use nullptr here
                 // https://github.com/Kuree/hgdb/runs/6166140093
-- 
2.43.0


From 6834468250e5792e8672d8b5851484a1b3f9a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:03 +0000
Subject: [PATCH 25/41] fix: do not dereference absent symbol results, and send
 variables the way they are parsed

---
 src/proto.cc | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index aea58fa..78a819e 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -305,7 +305,7 @@ template <typename T, typename K, typename A>
 void set_member(K &v, A &allocator, const T &value) {
     if constexpr (std::is_same<T, BreakPoint>::value) {
         set_member(v, allocator, "id", value.id);
-        set_member(v, allocator, "instance_id", *value.instance_id);
+        if (value.instance_id) set_member(v, allocator, "instance_id", *value.instance_id);
         set_member(v, allocator, "filename", value.filename);
         set_member(v, allocator, "line_num", value.line_num);
         set_member(v, allocator, "column_num", value.column_num);
@@ -317,16 +317,27 @@ void set_member(K &v, A &allocator, const T &value) {
         set_member(v, allocator, "is_rtl", value.is_rtl);
     } else if constexpr (std::is_same<T, std::pair<ContextVariable, Variable>>::value) {
         auto const &[context, var] = value;
-        set_member(v, allocator, "name", context.name);
-        set_member(v, allocator, "breakpoint_id", *context.breakpoint_id);
-        set_member(v, allocator, "variable_id", *context.variable_id);
-        set_member(v, allocator, var);
+        rapidjson::Value entry(rapidjson::kObjectType);
+        rapidjson::Value var_entry(rapidjson::kObjectType);
+        set_member(entry, allocator, "name", context.name);
+        if (context.breakpoint_id)
+            set_member(entry, allocator, "breakpoint_id", *context.breakpoint_id);
+        if (context.variable_id) set_member(entry, allocator, "variable_id", *context.variable_id);
+        set_member(var_entry, allocator, var);
+        v.SetArray();
+        v.PushBack(entry.Move(), allocator);
+        v.PushBack(var_entry.Move(), allocator);
     } else if constexpr (std::is_same<T, std::pair<GeneratorVariable, Variable>>::value) {
         auto const &[gen, var] = value;
-        set_member(v, allocator, "name", gen.name);
-        set_member(v, allocator, "instance_id", *gen.instance_id);
-        set_member(v, allocator, "variable_id", *gen.variable_id);
-        set_member(v, allocator, var);
+        rapidjson::Value entry(rapidjson::kObjectType);
+        rapidjson::Value var_entry(rapidjson::kObjectType);
+        set_member(entry, allocator, "name", gen.name);
+        if (gen.instance_id) set_member(entry, allocator, "instance_id", *gen.instance_id);
+        if (gen.variable_id) set_member(entry, allocator, "variable_id", *gen.variable_id);
+        set_member(var_entry, allocator, var);
+        v.SetArray();
+        v.PushBack(entry.Move(), allocator);
+        v.PushBack(var_entry.Move(), allocator);
     } else if constexpr (std::is_same<T, std::tuple<uint32_t, std::string, std::string>>::value) {
         set_member(v, allocator, "id", std::get<0>(value));
         set_member(v, allocator, "var", std::get<1>(value));
@@ -592,9 +603,9 @@ std::string DebuggerInformationResponse::str(bool pretty_print) const {
             for (auto const &[key, value] : options_) {
                 if (value == "true" || value == "false") {
                     set_member(v, allocator, key.c_str(), value == "true");
-                } else if (std::all_of(value.begin(), value.end(), isdigit)) {
-                    int64_t i = std::stoll(value);
-                    set_member(v, allocator, key.c_str(), i);
+                } else if (auto i = util::stoul(value);
+                           i && std::all_of(value.begin(), value.end(), ::isdigit)) {
+                    set_member(v, allocator, key.c_str(), static_cast<int64_t>(*i));
                 } else {
                     set_member(v, allocator, key.c_str(), value);
                 }
@@ -1543,6 +1554,8 @@ std::string SymbolResponse::str(bool pretty_print) const {
 
     switch (type_) {
         case SymbolRequest::request_type::get_breakpoint: {
+            // no result if the breakpoint is unknown
+            if (!bp_result) break;
             result = Value(kObjectType);
             set_member(result, allocator, *bp_result);
             break;
@@ -1553,6 +1566,7 @@ std::string SymbolResponse::str(bool pretty_print) const {
             break;
         }
         case SymbolRequest::request_type::get_instance_name: {
+            if (!str_result) break;
             result = Value(kStringType);
             result.SetString(str_result->c_str(), str_result->size());
             break;
@@ -1568,6 +1582,7 @@ std::string SymbolResponse::str(bool pretty_print) const {
             break;
         }
         case SymbolRequest::request_type::get_instance_id: {
+            if (!uint64_t_result) break;
             result = Value(kNumberType);
             result.SetUint64(*uint64_t_result);
             break;
-- 
2.43.0


From 7e4b3a1b3d74f833f27ce8fe3aeec2254f620e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:03 +0000
Subject: [PATCH 26/41] fix: answer the breakpoint order query by the name the
 debugger sends

---
 bindings/python/hgdb/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/hgdb/symbol.py b/bindings/python/hgdb/symbol.py
index 95dd6e8..b0f1e71 100644
--- a/bindings/python/hgdb/symbol.py
+++ b/bindings/python/hgdb/symbol.py
@@ -71,7 +71,7 @@ class SymbolTableProvider:
                 resp = self.get_annotation_values(payload["name"])
             elif req_type == "get_all_array_names":
                 resp = self.get_all_array_names()
-            elif req_type == "execution_bp_orders":
+            elif req_type == "get_execution_bp_orders":
                 resp = self.execution_bp_orders()
 
             await self.__send_resp(websocket, resp)
-- 
2.43.0


From 35dd4a88c17e6dce4603817f34c44430b0c325cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:48 +0000
Subject: [PATCH 27/41] fix: say why a request fails when there is no symbol
 table

---
 src/debug.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index 1509fb9..7d700b4 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -784,7 +784,8 @@ void Debugger::handle_path_mapping(const PathMappingRequest &req, uint64_t conn_
         auto resp = GenericResponse(status_code::success, req);
         send_message(resp.str(log_enabled_), conn_id);
     } else {
-        auto resp = GenericResponse(status_code::error, req, req.error_reason());
+        auto const reason = db_ ? req.error_reason() : "Database is not initialized";
+        auto resp = GenericResponse(status_code::error, req, reason);
         send_message(resp.str(log_enabled_), conn_id);
     }
 }
@@ -888,6 +889,7 @@ void Debugger::handle_evaluation(const EvaluationRequest &req, uint64_t conn_id)
         send_message(eval_resp.str(log_enabled_), conn_id);
         return;
     } else {
+        if (!db_) error_reason = "Database is not initialized";
         send_error(req, error_reason, conn_id);
     }
 }
-- 
2.43.0


From a57a738681a317d9c88f08208d6c5a35dd46c75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:57 +0000
Subject: [PATCH 28/41] fix: forget the instance names of the previous symbol
 table

---
 src/debug.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index 7d700b4..ddb9892 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -48,6 +48,11 @@ void Debugger::initialize_db(std::unique_ptr<SymbolTableProvider> db) {
     // reset db_ for every new connection. the scheduler refers to it
     scheduler_ = nullptr;
     db_ = nullptr;
+    {
+        // the names belong to the previous symbol table
+        std::lock_guard guard(cached_instance_name_lock_);
+        cached_instance_name_.clear();
+    }
     if (!db) return;
     db_ = std::move(db);
 
-- 
2.43.0


From d4cf843587b369f5c1e76dad3c3a097442a2331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:06 +0000
Subject: [PATCH 29/41] fix: evaluate a stepping breakpoint by its enable
 condition whatever the mode

---
 src/debug.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index ddb9892..eb2922f 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1332,7 +1332,9 @@ std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle hand
 }
 
 bool Debugger::eval_breakpoint(DebugBreakPoint *bp) {
-    const auto &bp_expr = scheduler_->breakpoint_only() ? bp->expr : bp->enable_expr;
+    // breakpoints created for stepping only have an enable condition, and the mode may change while
+    // they are being evaluated
+    const auto &bp_expr = scheduler_->breakpoint_only() && bp->expr ? bp->expr : bp->enable_expr;
     if (!bp_expr->correct()) return false;
     bool res;
     {
-- 
2.43.0


From eb2ce2aa2d68b049dde6f069240e8967bf1e0629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:25 +0000
Subject: [PATCH 30/41] fix: going in reverse gets past breakpoints that are
 inserted several times

---
 src/scheduler.cc | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 67ff035..f73921e 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -157,6 +157,8 @@ std::vector<DebugBreakPoint *> Scheduler::next_step_back_breakpoints() {
     return create_next_breakpoints(bp_info);
 }
 
+void clear_breakpoints(std::vector<std::unique_ptr<DebugBreakPoint>> &breakpoints);
+
 std::vector<DebugBreakPoint *> Scheduler::next_reverse_breakpoints() {
     // if no breakpoint inserted. return early
     std::lock_guard guard(breakpoint_lock_);
@@ -169,7 +171,14 @@ std::vector<DebugBreakPoint *> Scheduler::next_reverse_breakpoints() {
     // cycle
     std::optional<uint64_t> target_index;
     if (current_breakpoint_id_) {
-        if (breakpoints_.front()->id == *current_breakpoint_id_) {
+        // find the current one. notice that there can be several entries with the same id, e.g. one
+        // per namespace, in which case it is the one we got to last, i.e. the first evaluated one
+        std::optional<uint64_t> pos;
+        for (uint64_t i = 0; i < breakpoints_.size(); i++) {
+            if (breakpoints_[i]->id != *current_breakpoint_id_) continue;
+            if (!pos || (breakpoints_[i]->evaluated && !breakpoints_[*pos]->evaluated)) pos = i;
+        }
+        if (pos && *pos == 0) {
             // we have reached the first one of the current
             // call reverse
             auto handles = clock_handles_;
@@ -181,20 +190,12 @@ std::vector<DebugBreakPoint *> Scheduler::next_reverse_breakpoints() {
             } else {
                 // time reversed
                 current_breakpoint_id_ = std::nullopt;
+                clear_breakpoints(breakpoints_);
                 target_index = breakpoints_.size() - 1;
             }
-        } else {
-            // find the next inserted breakpoint
-            // notice that breakpoints are already ordered,
-            // so we search from the beginning
-            for (auto i = breakpoints_.size() - 1; i >= 1; i--) {
-                auto id = breakpoints_[i]->id;
-                if (id == *current_breakpoint_id_) {
-                    // find it
-                    target_index = i - 1;
-                    break;
-                }
-            }
+        } else if (pos) {
+            // breakpoints are already ordered, so the next inserted breakpoint is right before it
+            target_index = *pos - 1;
         }
     } else {
         // just return the last one
-- 
2.43.0


From 60df5a46274fe92125036fb9332b37935db2e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:35 +0000
Subject: [PATCH 31/41] fix: scheduling breakpoints together does not skip the
 ones in between

---
 src/scheduler.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index f73921e..c5917d8 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -588,20 +588,20 @@ void Scheduler::scan_breakpoints(uint64_t ref_index, bool forward,
             next_bp->column_num != ref_bp->column_num) {
             return false;
         }
-        // if we see a data breakpoint, don't stop, just skip it
-        if (next_bp->type == DebugBreakPoint::Type::data) {
-            return true;
-        }
+        // anything we cannot take along has to be scheduled on its own, so stop there: breakpoints
+        // before the last scheduled one are never looked at again in the same cycle
+        if (next_bp->type == DebugBreakPoint::Type::data) return false;
         // same enable expression but different instance id
-        if (next_bp->instance_id != ref_bp->instance_id &&
-            next_bp->enable_expr->expression() == target_expr) {
-            result.emplace_back(next_bp.get());
+        if (next_bp->instance_id == ref_bp->instance_id ||
+            next_bp->enable_expr->expression() != target_expr) {
+            return false;
         }
+        result.emplace_back(next_bp.get());
         return true;
     };
 
     if (forward) {
-        for (auto i = ref_index; i < static_cast<uint64_t>(breakpoints_.size()); i++) {
+        for (auto i = ref_index + 1; i < static_cast<uint64_t>(breakpoints_.size()); i++) {
             if (!match(i)) break;
         }
     } else {
-- 
2.43.0


From c034c9c7b5a9795415bc1855e3d002dbec004ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:23 +0000
Subject: [PATCH 32/41] fix: values cached before the simulation time was moved
 are not used

---
 src/debug.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index eb2922f..8a39190 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -125,6 +125,8 @@ void Debugger::eval() {
     log_info("Start breakpoint evaluation...");
     start_breakpoint_evaluation();  // clean the state and fetch values
 
+    auto *rtl = namespaces_.default_rtl();
+    auto time = rtl->get_simulation_time();
     // main loop to fetch breakpoints
     // without a symbol table there is nothing to schedule
     while (scheduler_) {
@@ -135,6 +137,13 @@ void Debugger::eval() {
         }
 
         if (bps.empty()) break;
+        // the simulation time can be moved by a reverse or a jump request, the cached values belong
+        // to the old one
+        if (auto const now = rtl->get_simulation_time(); now != time) [[unlikely]] {
+            std::lock_guard guard(cached_signal_values_lock_);
+            cached_signal_values_.clear();
+            time = now;
+        }
         auto hits = eval_breakpoints(bps);
 
         std::vector<const DebugBreakPoint *> result;
-- 
2.43.0


From 341293d21b726fa8786a647b1e46bab457f67efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:36 +0000
Subject: [PATCH 33/41] fix: a data breakpoint on an already watched variable
 uses that watch

---
 src/debug.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index 8a39190..93ae07d 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1102,6 +1102,8 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                         bp->watch_id = monitor->add_monitor_variable(
                             bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
                         log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
+                    } else {
+                        bp->watch_id = *watched;
                     }
                 }
             }
-- 
2.43.0


From 18697df8095abf806f24a61cde7ac029751ba8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:46 +0000
Subject: [PATCH 34/41] fix: keep the breakpoints in order when a data
 breakpoint can only be inserted in part

---
 src/debug.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 93ae07d..2268c12 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1079,6 +1079,8 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                     bp_condition = fmt::format("({0}) && ({1})", req.condition(), data_condition);
                 auto *bp =
                     scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run);
+                // sort the breakpoints, since we may have to stop before all of them are inserted
+                scheduler_->reorder_breakpoints();
                 if (!bp) {
                     send_error(req, "Invalid data breakpoint expression/data_condition", conn_id);
                     return;
@@ -1108,9 +1110,6 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                 }
             }
 
-            // sort the breakpoints
-            scheduler_->reorder_breakpoints();
-
             // tell client we're good
             auto success_resp = GenericResponse(status_code::success, req);
             send_message(success_resp.str(log_enabled_), conn_id);
-- 
2.43.0


From a121c5dab762a6d1cc5d338dbe8aea095c810499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 35/41] fix: tell delayed values of different namespaces apart

---
 src/debug.cc | 2 ++
 src/debug.hh | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index 2268c12..09157a2 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1537,6 +1537,7 @@ void Debugger::update_delayed_values() {
             ns->monitor->get_watched_values(MonitorRequest::MonitorType::delay_clock_edge);
         for (auto &iter : delayed_variables_) {
             auto &var_info = iter.second;
+            if (var_info.ns_id != ns->id) continue;
             auto pos = std::find_if(values.begin(), values.end(), [&var_info](auto const &iter) {
                 return iter.first == var_info.watch_id;
             });
@@ -1576,6 +1577,7 @@ void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
                 DelayedVariable delayed_var;
                 delayed_var.rtl_name = rtl_name;
                 delayed_var.watch_id = watch_id;
+                delayed_var.ns_id = ns->id;
                 auto *handle = rtl->get_handle(rtl_name);
                 if (handle) {
                     delayed_variables_.emplace(handle, delayed_var);
diff --git a/src/debug.hh b/src/debug.hh
index aa98fbc..f00991e 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -81,7 +81,9 @@ private:
     struct DelayedVariable {
         std::string rtl_name;
         std::optional<int64_t> value;
+        // watch ids are only unique within a namespace
         uint64_t watch_id;
+        uint32_t ns_id;
     };
     std::unordered_map<vpiHandle, DelayedVariable> delayed_variables_;
 
-- 
2.43.0


From 7d37f7eda88ea7d3fbae6aae8ff5df47c21a1e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 36/41] fix: keep a variable watched while other data
 breakpoints need it

---
 src/scheduler.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index c5917d8..14e2b29 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -535,11 +535,14 @@ void Scheduler::remove_breakpoint(const BreakPoint &bp, DebugBreakPoint::Type ty
 std::optional<uint64_t> Scheduler::remove_data_breakpoint(uint64_t bp_id) {
     std::lock_guard guard(breakpoint_lock_);
     auto ptr = remove_breakpoint(bp_id, DebugBreakPoint::Type::data);
-    if (ptr) {
-        return ptr->watch_id;
-    } else {
-        return std::nullopt;
-    }
+    if (!ptr) return std::nullopt;
+    // other data breakpoints may watch the same variable, in which case it has to stay watched
+    auto shared = std::any_of(breakpoints_.begin(), breakpoints_.end(), [&ptr](auto const &b) {
+        return b->has_type_flag(DebugBreakPoint::Type::data) && b->ns_id == ptr->ns_id &&
+               b->watch_id == ptr->watch_id;
+    });
+    if (shared) return std::nullopt;
+    return ptr->watch_id;
 }
 
 std::vector<const DebugBreakPoint *> Scheduler::get_current_breakpoints() {
-- 
2.43.0


From a544d847a6f96889e98ccaac0581a407e614edba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 37/41] fix: watch a data breakpoint's variable in the
 breakpoint's own namespace

---
 src/debug.cc     | 51 ++++++++++++++++++++++++++++--------------------
 src/scheduler.cc | 13 ++++++++++++
 src/scheduler.hh |  2 ++
 3 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 09157a2..43930d8 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1056,11 +1056,36 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                 send_error(req, "Invalid data breakpoint", conn_id);
                 return;
             }
-            std::unordered_set<std::string> var_names;
+            std::vector<std::string> full_names;
             for (auto const &iter : bp_ids) {
-                auto full_name = fmt::format("{0}.{1}", *inst_name, std::get<1>(iter));
-                var_names.emplace(ns->rtl->get_full_name(full_name));
+                full_names.emplace_back(fmt::format("{0}.{1}", *inst_name, std::get<1>(iter)));
             }
+            // watch the variable of an inserted data breakpoint in the namespace it belongs to
+            auto watch = [&](DebugBreakPoint *bp) {
+                auto *bp_ns = namespaces_[bp->ns_id];
+                auto &monitor = bp_ns->monitor;
+                auto watched = monitor->is_monitored(bp->full_rtl_handle,
+                                                     MonitorRequest::MonitorType::data);
+                if (watched) {
+                    bp->watch_id = *watched;
+                    return;
+                }
+                std::unordered_set<std::string> var_names;
+                for (auto const &name : full_names) {
+                    var_names.emplace(bp_ns->rtl->get_full_name(name));
+                }
+                // they share the same variable
+                // notice that in case some breakpoints got deleted, we need to get it from the
+                // monitor itself
+                auto value_ptr =
+                    monitor->get_watched_value_ptr(var_names, MonitorRequest::MonitorType::data);
+                if (!value_ptr) {
+                    value_ptr = std::make_shared<std::optional<int64_t>>();
+                }
+                bp->watch_id = monitor->add_monitor_variable(
+                    bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
+                log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
+            };
 
             for (auto const &[id, var_name, data_condition] : bp_ids) {
                 auto bp_opt = db_->get_breakpoint(id);
@@ -1086,26 +1111,10 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                     return;
                 }
 
-                // they share the same variable
-                // notice that in case some breakpoints got deleted, we need to get it from the
-                // monitor itself
-                auto &monitor = ns->monitor;
-                auto value_ptr =
-                    monitor->get_watched_value_ptr(var_names, MonitorRequest::MonitorType::data);
-                if (!value_ptr) {
-                    value_ptr = std::make_shared<std::optional<int64_t>>();
-                }
-
                 // add it to the monitor
                 if (!dry_run) {
-                    auto watched = monitor->is_monitored(bp->full_rtl_handle,
-                                                         MonitorRequest::MonitorType::data);
-                    if (!watched) {
-                        bp->watch_id = monitor->add_monitor_variable(
-                            bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
-                        log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
-                    } else {
-                        bp->watch_id = *watched;
+                    for (auto *data_bp : scheduler_->get_data_breakpoints(id, var_name)) {
+                        watch(data_bp);
                     }
                 }
             }
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 14e2b29..88b24ef 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -555,6 +555,19 @@ std::vector<const DebugBreakPoint *> Scheduler::get_current_breakpoints() {
     return bps;
 }
 
+std::vector<DebugBreakPoint *> Scheduler::get_data_breakpoints(uint32_t id,
+                                                               const std::string &var_name) {
+    std::vector<DebugBreakPoint *> bps;
+    std::lock_guard guard(breakpoint_lock_);
+    for (auto const &bp : breakpoints_) {
+        if (bp->id == id && bp->has_type_flag(DebugBreakPoint::Type::data) &&
+            bp->target_rtl_var_name == var_name) {
+            bps.emplace_back(bp.get());
+        }
+    }
+    return bps;
+}
+
 bool Scheduler::breakpoint_only() const {
     return evaluation_mode_ == EvaluationMode::BreakPointOnly ||
            evaluation_mode_ == EvaluationMode::ReverseBreakpointOnly;
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 48f9164..48465c7 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -75,6 +75,8 @@ public:
                                          bool dry_run);
     DebugBreakPoint *add_assert_breakpoint(DebuggerNamespace *ns, const BreakPoint &db_bp);
     void clear_data_breakpoints();
+    // the entries of a data breakpoint, one per namespace
+    std::vector<DebugBreakPoint *> get_data_breakpoints(uint32_t id, const std::string &var_name);
     // also return associated monitor id, if any
     std::optional<uint64_t> remove_data_breakpoint(uint64_t bp_id);
 
-- 
2.43.0


From 8059a086e4ca8cd056df7b582f1f79889585676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:02 +0000
Subject: [PATCH 38/41] fix: cut exactly the requested bits out of a sliced
 signal

---
 src/rtl.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 04985f9..c57c8c6 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -256,8 +256,13 @@ int64_t get_slice(int64_t value, const std::tuple<vpiHandle, uint32_t, uint32_t>
     // notice that hi and lo are inclusive
     auto [parent, hi, lo] = info;
     auto v = static_cast<uint64_t>(value);
-    auto hi_mask = ~(std::numeric_limits<uint64_t>::max() << (hi + 1));
-    v = v & hi_mask;
+    // shifting by the size of the value or more is undefined
+    auto constexpr bits = std::numeric_limits<uint64_t>::digits;
+    if (lo >= bits) return 0;
+    if (hi < bits - 1) {
+        auto hi_mask = ~(std::numeric_limits<uint64_t>::max() << (hi + 1));
+        v = v & hi_mask;
+    }
     v = v >> lo;
     return static_cast<int64_t>(v);
 }
@@ -325,12 +330,13 @@ std::string get_slice(const std::string &value,
     auto [parent, hi, lo] = info;
     // notice that it's in reverse order!
     // hi and lo are inclusive as in RTL
-    if (lo > value.size() - 1) {
+    if (lo >= value.size()) {
         return "0";
     }
 
-    auto pos = std::min<uint32_t>(value.size() - hi - 1, 0);
-    auto lo_pos = std::max<uint32_t>(value.size() - lo - 1, 0);
+    // bits beyond the size of the signal are left out
+    auto pos = hi < value.size() ? value.size() - hi - 1 : 0;
+    auto lo_pos = value.size() - lo - 1;
     auto result = value.substr(pos, lo_pos - pos + 1);
     // now we have binary result, need to convert it into hex
     // pad string to multiple of 4
@@ -340,6 +346,11 @@ std::string get_slice(const std::string &value,
     std::string s;
     for (auto i = 0u; i < result.size(); i += 4) {
         auto str = result.substr(i, 4);
+        if (str.find_first_not_of("01") != std::string::npos) {
+            // unknown or high impedance bits
+            s.append("X");
+            continue;
+        }
         auto v = std::stoul(str, nullptr, 2);
         s.append(fmt::format("{0:X}", v));
     }
-- 
2.43.0


From ca8da99b29a15b59b50118e3206cd0a687ba8e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:09 +0000
Subject: [PATCH 39/41] fix: remember handles of array elements and slices
 under their full name

---
 src/rtl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index c57c8c6..4f5c562 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -169,7 +169,7 @@ vpiHandle RTLSimulatorClient::get_handle(const std::string &name) {
             // deal with verilator. remove []
             auto tokens = util::get_tokens(full_name, ".[]");
             ptr = get_handle(tokens);
-            if (ptr) handle_map_.emplace(name, ptr);
+            if (ptr) handle_map_.emplace(full_name, ptr);
         }
         return ptr;
     }
-- 
2.43.0


From ca6f652d77e9fb0b769fef14d7050206533b5ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 40/41] fix: never hand the made-up handle of a slice to the
 simulator

---
 src/rtl.cc | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 4f5c562..1c04a80 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -229,6 +229,8 @@ vpiHandle RTLSimulatorClient::get_handle(const std::vector<std::string> &tokens)
 bool RTLSimulatorClient::is_valid_signal(const std::string &name) {
     auto *handle = get_handle(name);
     if (!handle) return false;
+    // the simulator does not know about slices
+    if (auto slice = get_mock_slice(handle)) handle = std::get<0>(*slice);
     auto type = get_vpi_type(handle);
     return type == vpiReg || type == vpiNet || type == vpiRegArray || type == vpiRegBit ||
            type == vpiNetArray || type == vpiNetBit || type == vpiPartSelect ||
@@ -275,6 +277,12 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
     std::optional<SliceInfo> slice;
 
     if (is_signal) {
+        // if we have mock vpi handle, use it
+        // optimize for unlikely
+        slice = get_mock_slice(handle);
+        if (slice) [[unlikely]]
+            handle = std::get<0>(*slice);
+
         // get value size. Verilator will freak out if the width is larger than 64
         // notice this is mostly cached result
         if (is_verilator()) {
@@ -286,12 +294,6 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
                 return {};
             }
         }
-
-        // if we have mock vpi handle, use it
-        // optimize for unlikely
-        slice = get_mock_slice(handle);
-        if (slice) [[unlikely]]
-            handle = std::get<0>(*slice);
     }
 
     s_vpi_value v;
@@ -307,6 +309,10 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
 }
 
 std::optional<uint32_t> RTLSimulatorClient::get_signal_width(vpiHandle handle) {
+    if (auto slice = get_mock_slice(handle)) [[unlikely]] {
+        auto [parent, hi, lo] = *slice;
+        return hi - lo + 1;
+    }
     auto w = get_vpi_size(handle);
     if (w == 0) [[unlikely]] {
         return std::nullopt;
@@ -362,17 +368,16 @@ std::optional<std::string> RTLSimulatorClient::get_str_value(vpiHandle handle, b
     if (!handle) [[unlikely]] {
         return std::nullopt;
     }
+    // the simulator does not know about slices
+    auto *request_handle = handle;
+    auto slice = get_mock_slice(handle);
+    if (slice) handle = std::get<0>(*slice);
     auto type = get_vpi_type(handle);
     if (type == vpiModule) [[unlikely]] {
         return std::nullopt;
     }
 
     if (is_signal) {
-        vpiHandle request_handle = handle;
-
-        auto slice = get_mock_slice(handle);
-        handle = slice ? std::get<0>(*slice) : handle;
-
         s_vpi_value v;
         v.format = slice ? vpiBinStrVal : vpiHexStrVal;
         vpi_->vpi_get_value(handle, &v);
@@ -381,8 +386,8 @@ std::optional<std::string> RTLSimulatorClient::get_str_value(vpiHandle handle, b
             result = get_slice(result, *slice);
         }
         // we only add 0x to any signal that has more than 1bit
-        auto width = get_vpi_size(request_handle);
-        if (width > 1) result = fmt::format("0x{0}", result);
+        auto width = get_signal_width(request_handle);
+        if (width && *width > 1) result = fmt::format("0x{0}", result);
         return result;
     } else {
         s_vpi_value v;
@@ -394,6 +399,9 @@ std::optional<std::string> RTLSimulatorClient::get_str_value(vpiHandle handle, b
 
 bool RTLSimulatorClient::set_value(vpiHandle handle, int64_t value) {
     if (!handle) return false;
+    // only whole signals can be set
+    if (get_mock_slice(handle)) [[unlikely]]
+        return false;
     s_vpi_value vpi_value;
     vpi_value.value.integer = static_cast<int>(value);
     vpi_value.format = vpiIntVal;
@@ -596,7 +604,8 @@ std::vector<std::pair<std::string, std::string>> RTLSimulatorClient::resolve_rtl
     rtl_name = resolve_rtl_path(rtl_name);
     auto *handle = get_handle(rtl_name);
     // if null handle, we will report it as ERROR, which will be handled elsewhere
-    if (!handle) return {{front_name, rtl_name}};
+    // a slice has no parts to be resolved
+    if (!handle || get_mock_slice(handle)) return {{front_name, rtl_name}};
     auto type = get_vpi_type(handle);
 
     auto iterate_type = [handle, this, &front_name](
-- 
2.43.0


From 0bb2a6db8ee1cd5b502df0bb780c3e2dbebbd532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:15 +0000
Subject: [PATCH 41/41] fix: never take an instance for a signal in it that
 does not exist

---
 src/rtl.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 1c04a80..6b23c4d 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -192,6 +192,8 @@ vpiHandle RTLSimulatorClient::get_handle(const std::vector<std::string> &tokens)
             auto handle_name = util::join(
                 tokens.begin(), tokens.begin() + static_cast<uint32_t>(tokens.size()) - 1, ".");
             ptr = get_handle_raw(handle_name);
+            // instances don't have bits
+            if (ptr && get_vpi_type(ptr) == vpiModule) ptr = nullptr;
         }
 
         if (!ptr) [[likely]] {
@@ -201,15 +203,17 @@ vpiHandle RTLSimulatorClient::get_handle(const std::vector<std::string> &tokens)
             for (auto i = array_size_end; i > 0; i--) {
                 auto pos = tokens.begin() + i;
                 auto handle_name = util::join(tokens.begin(), pos, ".");
-                ptr = get_handle_raw(handle_name);
+                // only the variable that the rest of the name indexes counts, not the instances
+                // it is in
+                auto *var = get_handle_raw(handle_name);
 
-                if (ptr) {
-                    auto type = get_vpi_type(ptr);
+                if (var) {
+                    auto type = get_vpi_type(var);
                     if (type != vpiModule) {
                         // best effort
                         // notice that we only support array indexing, since struct
                         // access should be handled by simulator properly
-                        ptr = access_arrays(pos, tokens.begin() + array_size_end + 1, ptr);
+                        ptr = access_arrays(pos, tokens.begin() + array_size_end + 1, var);
                         break;
                     }
                 }
-- 
2.43.0

