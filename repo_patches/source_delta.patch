From ca260f527294b320a71883edfb5c2d5c47caea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 001/101] fix: priority_queue keeps its order after a node is
 drained; front/iteration follow pop order

---
 .../include/cmdr11/cmdr_priority_queue.hh     | 70 +++++++++++++------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
index 7844388..18a8cee 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
@@ -79,6 +79,8 @@ namespace cmdr::queue {
       int _min_value;
       std::shared_ptr<element> _left{};
       std::shared_ptr<element> _right{};
+      value_type _key{};    // the equivalence class of this node, still valid while `_list` is drained
+      element *_parent{};   // nullptr for the root
       element()  = default;
       ~element() = default;
       element(Container &&l, int m)
@@ -86,7 +88,8 @@ namespace cmdr::queue {
           , _min_value(m) {}
       element(value_type l, int m)
           : _list{}
-          , _min_value(m) {
+          , _min_value(m)
+          , _key(l) {
         _list.push_back(std::move(l));
       }
       // pre-order traversal
@@ -186,14 +189,25 @@ namespace cmdr::queue {
                 return p;
             }
           } else {
-            assert(!_list.empty() && _list.size() >= pos);
-            if (pos < _list.size() - 1)
+            if (pos + 1 < _list.size())
               return {this, pos + 1};
             if (_right) {
-              auto p = _right->next(0);
+              auto p = _right->next((std::size_t) -1);
               if (p._el != nullptr)
                 return p;
             }
+            for (auto *at = this; at->_parent != nullptr; at = at->_parent) {
+              auto *up = at->_parent;
+              if (at != up->_left.get())
+                continue;
+              if (!up->_list.empty())
+                return {up, 0};
+              if (up->_right) {
+                auto p = up->_right->next((std::size_t) -1);
+                if (p._el != nullptr)
+                  return p;
+              }
+            }
           }
           return _It{};
         }
@@ -214,14 +228,25 @@ namespace cmdr::queue {
               return p;
           }
         } else {
-          assert(!_list.empty() && _list.size() >= pos);
-          if (pos < _list.size() - 1)
+          if (pos + 1 < _list.size())
             return {this, pos + 1};
           if (_left) {
-            auto p = _left->next(0);
+            auto p = _left->next((std::size_t) -1);
             if (p._el != nullptr)
               return p;
           }
+          for (auto *at = this; at->_parent != nullptr; at = at->_parent) {
+            auto *up = at->_parent;
+            if (at != up->_right.get())
+              continue;
+            if (!up->_list.empty())
+              return {up, 0};
+            if (up->_left) {
+              auto p = up->_left->next((std::size_t) -1);
+              if (p._el != nullptr)
+                return p;
+            }
+          }
         }
         return _It{};
       }
@@ -281,7 +306,10 @@ namespace cmdr::queue {
         , _comparer{} {}
     virtual ~priority_queue() {}
 
-    my_iterator begin() { return my_iterator{_root.get(), 0}; }
+    my_iterator begin() {
+      auto const it = _root->next((std::size_t) -1);
+      return my_iterator{it._el, it._pos};
+    }
     my_iterator end() { return my_iterator(nullptr); }
     void push_back(T const &data) { push(data); }
     void pop_front() { _root->pop(_count); }
@@ -307,24 +335,23 @@ namespace cmdr::queue {
   private:
     void _push(std::shared_ptr<element> &at, T data) {
       PT l{}, r{};
-      if (!at->_list.empty()) {
-        for (auto const &v: at->_list) {
-          PT ret = _comparer(data, v);
-          if (ret < 0) {
-            if (ret < l)
-              l = ret;
-          } else if (ret > 0) {
-            if (ret > r)
-              r = ret;
-          }
-        }
+      if (at->_list.empty() && !at->_left && !at->_right) {
+        at->_key = data;
+      } else {
+        // a drained node with children still separates them, so compare with its key
+        PT ret = _comparer(data, at->_key);
+        if (ret < 0)
+          l = ret;
+        else if (ret > 0)
+          r = ret;
       }
 
       if (l < 0) {
         if (at->_left) {
           _push(at->_left, data);
         } else {
-          at->_left = std::make_shared<element>(element{data, l});
+          at->_left          = std::make_shared<element>(element{data, l});
+          at->_left->_parent = at.get();
         }
         return;
       }
@@ -333,7 +360,8 @@ namespace cmdr::queue {
         if (at->_right) {
           _push(at->_right, data);
         } else {
-          at->_right = std::make_shared<element>(element{data, r});
+          at->_right          = std::make_shared<element>(element{data, r});
+          at->_right->_parent = at.get();
         }
         return;
       }
-- 
2.43.0


From 69c581f34a4d675e276b6db02437fbf57546926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 002/101] fix: observable copies its observer list under the
 lock and notifies a snapshot

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index e4925a9..d854bac 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1013,9 +1013,9 @@ namespace cmdr::util {
     observable &add_observer(observer_t const &o) {
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.push_back(o);
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
@@ -1029,9 +1029,9 @@ namespace cmdr::util {
       observer_t wp = o;
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.push_back(wp);
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
@@ -1045,6 +1045,7 @@ namespace cmdr::util {
     observable &remove_observer(observer_t_naked *o) {
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.erase(std::remove_if(copy.begin(), copy.end(), [o](observer_t const &rhs) {
                        if (auto spt = rhs.lock())
@@ -1052,7 +1053,6 @@ namespace cmdr::util {
                        return false;
                      }),
                      copy.end());
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
@@ -1088,8 +1088,13 @@ namespace cmdr::util {
      */
     void emit(subject_t const &event_or_subject) {
       if (AutoLock) {
-        std::lock_guard _l(_m);
-        for (auto const &wp: _observers)
+        // notify a snapshot, without the lock: an observer may add or remove observers
+        std::vector<observer_t> observers;
+        {
+          std::lock_guard _l(_m);
+          observers = _observers;
+        }
+        for (auto const &wp: observers)
           if (auto spt = wp.lock())
             spt->observe(event_or_subject);
       } else {
-- 
2.43.0


From 8351e3bef1af6ca2ab9f649e4f8d800dc64a10ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 003/101] fix: wait_for() without a time limit waits instead of
 returning false at once

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 15e620f..eaf31e2 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -100,7 +100,10 @@ namespace cmdr::pool {
       return _cv.wait_for(lk, rel_time, _p);
     }
 
-    bool wait_for() { return wait_for(std::chrono::hours::max()); }
+    bool wait_for() {
+      wait(); // hours::max() does not fit the clock's duration
+      return ConditionMatched;
+    }
 
     /**
      * @brief wait_until causes the current thread to block until the
@@ -295,7 +298,7 @@ namespace cmdr::pool {
     }
 
     bool wait_for() {
-      return wait_for(std::chrono::hours::max());
+      return conditional_wait_for_bool::wait_for();
     }
 
     /**
-- 
2.43.0


From 1bb8a14d3a067bf3e3a94fdb4920b4588276582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 004/101] fix: threaded_message_queue::empty() takes the lock

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index eaf31e2..c43138f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -413,11 +413,14 @@ namespace cmdr::pool {
 
     ~threaded_message_queue() { clear(); }
 
-    bool empty() const { return _data.empty(); }
+    bool empty() const {
+      const locker l_(_m);
+      return _data.empty();
+    }
 
   private:
     std::condition_variable _cv{};
-    std::mutex _m{};
+    mutable std::mutex _m{};
     mutable Coll _data{};
     bool _abort = false;
   }; // class threaded_message_queue
-- 
2.43.0


From 02e6c586fe772f663b8abeea89e201b23b7c08b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 005/101] fix: timer_killer::terminated() takes the lock

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index c43138f..b9c59d7 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -58,7 +58,7 @@ namespace cmdr::pool {
 
   protected:
     std::condition_variable _cv{};
-    std::mutex _m{};
+    mutable std::mutex _m{};
     T _var{};
 
   public:
@@ -271,7 +271,10 @@ namespace cmdr::pool {
     //     std::unique_lock<std::mutex> lock(_m);
     //     return !_cv.wait_for(lock, time, [&] { return _terminate; });
     // }
-    bool terminated() const { return val(); }
+    bool terminated() const {
+      std::unique_lock<std::mutex> const lk(_m);
+      return val();
+    }
 
     /**
      * @brief wait for Pred condition matched
-- 
2.43.0


From 6dbcbc8fcf593a718e067ebd43804909d2c3b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 006/101] fix: singleton_with_optional_construction_args
 constructs once when first used by several threads

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index d854bac..a2aeab3 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -863,6 +863,8 @@ namespace cmdr::util {
       _instance = nullptr;
     }
     static C &instance(Args... args) {
+      static std::mutex m;
+      std::lock_guard<std::mutex> const l(m); // the first call may come from several threads
       if (_instance == nullptr)
         _instance = new C(args...);
       return *_instance;
-- 
2.43.0


From b2e691dfc2a4a915293b858d2ab9fa34a2dd29a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 007/101] fix: store has(prefix, key) looks up the prefixed key

---
 libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
index 10a07a4..6e7bc99 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
@@ -129,7 +129,7 @@ namespace cmdr::vars {
     sk << key;
 
     std::shared_lock<std::shared_mutex> lock(mutex_);
-    auto it = _indexes.find(key);
+    auto it = _indexes.find(sk.str());
     if (it != _indexes.end()) {
       return true;
     }
-- 
2.43.0


From a5c84a84985973a6b43e31548220d16513cc3dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 008/101] fix: thread_pool::queue_task accepts tasks with a
 result and const tasks

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index b9c59d7..0eb182b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -461,7 +461,7 @@ namespace cmdr::pool {
       // std::packaged_task<R()> p(std::move(task));
       auto r = p.get_future();
       // _tasks.push_back(std::move(p));
-      _tasks.emplace_back(std::move(p));
+      _tasks.emplace_back(std::packaged_task<void()>(std::move(p)));
       pool_debug("queue_task.");
       std::this_thread::yield();
       return r;
@@ -469,11 +469,11 @@ namespace cmdr::pool {
 
     template<class F, class R = std::invoke_result_t<F>>
     std::future<R> queue_task(F const &task) {
-      auto p = std::packaged_task<R()>(std::forward<F>(task));
+      auto p = std::packaged_task<R()>(task);
       // std::packaged_task<R()> p(std::move(task));
       auto r = p.get_future();
       // _tasks.push_back(std::move(p));
-      _tasks.emplace_back(std::move(p));
+      _tasks.emplace_back(std::packaged_task<void()>(std::move(p)));
       pool_debug("queue_task (copy).");
       std::this_thread::yield();
       return r;
-- 
2.43.0


From 1f33bd7b52643d6e20e467cc93791399d3291528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 009/101] fix: matching_command no longer overwrites the table
 of long command names with the short ones

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 8060aae..6dd57cb 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -237,16 +237,16 @@ namespace cmdr {
 
   inline typename app::cmd_matching_result app::matching_command(opt::types::parsing_context &pc) {
     cmd_matching_result cmr;
-    auto &c                          = pc.curr_command();
-    opt::types::indexed_commands &li = c._long_commands;
+    auto &c        = pc.curr_command();
+    auto const &li = c._long_commands;
     if (auto const &it = li.find(pc.title); it != li.end()) {
       cmr.matched = true;
       auto *p2    = it->second;
       cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, true));
     } else {
-      li              = c._short_commands;
-      auto const &it1 = li.find(pc.title);
-      if (it1 != li.end()) {
+      auto const &ls  = c._short_commands;
+      auto const &it1 = ls.find(pc.title);
+      if (it1 != ls.end()) {
         cmr.matched = true;
         auto *p2    = it1->second;
         cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, false));
-- 
2.43.0


From fb7bf1747d3260206319d84595b44cbed52d0583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 010/101] fix: a flag argument hits only the flag it finally
 matches

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 30 ++++++++++++-------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 6dd57cb..e3dfd05 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -260,33 +260,26 @@ namespace cmdr {
                         bool is_long, bool is_special,
                         std::function<opt::types::indexed_args const &(opt::cmd *)> const &li) {
     arg_matching_result amr;
+    opt::arg *best{};
+    std::string best_title{};
     auto &mc = pc.matched_commands();
 
     for (auto it = mc.rbegin(); it != mc.rend(); it++) {
       auto *ptr  = (*it);
       auto title = pc.title.substr(pc.pos);
     lookup_parents:
-      auto z = li(ptr);
+      auto const &z = li(ptr);
       // std::unordered_map<std::string, arg *> z{};
       for (auto &itz: z) {
         if (string::has_prefix(title, itz.first)) {
-          if (_longest_first) {
-            if (itz.first.length() > static_cast<std::size_t>(amr.matched_length)) {
-              amr.matched        = true;
-              amr.matched_length = (int) itz.first.length();
-              amr.matched_str    = itz.first;
-              is_long |= itz.second->hit_long();
-              is_special |= itz.second->hit_special();
-              amr.obj = (cmdr::opt::arg *) &(itz.second->update_hit_count(title.substr(0, itz.first.length()), 1, is_long, is_special));
-            }
-          } else {
+          // the nearest command wins if the names have the same length
+          auto len = static_cast<int>(itz.first.length());
+          if (!amr.matched || (_longest_first ? len > amr.matched_length : len < amr.matched_length)) {
             amr.matched        = true;
-            amr.matched_length = (int) itz.first.length();
+            amr.matched_length = len;
             amr.matched_str    = itz.first;
-            is_long |= itz.second->hit_long();
-            is_special |= itz.second->hit_special();
-            amr.obj = (cmdr::opt::arg *) &(itz.second->update_hit_count(title.substr(0, itz.first.length()), 1, is_long, is_special));
-            break;
+            best               = itz.second;
+            best_title         = title.substr(0, itz.first.length());
           }
         }
       }
@@ -296,6 +289,11 @@ namespace cmdr {
         goto lookup_parents;
       }
     }
+    if (best) { // only the flag chosen finally is hit
+      is_long |= best->hit_long();
+      is_special |= best->hit_special();
+      amr.obj = (cmdr::opt::arg *) &(best->update_hit_count(best_title, 1, is_long, is_special));
+    }
     return amr;
   }
 
-- 
2.43.0


From 77abdf78f2d2d601aa7091cbfcc013330b517f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 011/101] fix: hitting a member of a toggle group resets its
 siblings, under the keys of their command

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index e3dfd05..2cd303b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -491,11 +491,12 @@ namespace cmdr {
 
     if (a->is_toggleable() && a->default_value()->type() == typeid(bool)) {
       auto *cc        = a->owner();
-      auto const &cck = a->dotted_key();
+      auto const &cck = cc->dotted_key();
       auto const &k   = a->toggle_group_name();
 
       for (auto *o: cc->_toggle_groups[k]) {
-        _store.set_raw_p(cck.c_str(), o->title_long().c_str(), false);
+        if (o != a)
+          _store.set_raw_p(cck.c_str(), o->title_long().c_str(), false);
       }
 
       cc->toggle_group_set(k, a);
-- 
2.43.0


From 392387020b47719cdf7b13c07b2e15519e66f410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 012/101] fix: strip_quotes(str) strips both ends and stays
 inside the string

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 68372ef..a9972de 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -440,11 +440,10 @@ namespace cmdr::string {
 
   inline std::string strip_quotes(const std::string &str) {
     if (str.empty()) return str;
-    std::size_t p1 = 0, p2 = str.length() - 1;
-    while (str[p1] == '"' || str[p1] == '\'') p1++;
-    while (str[p2] == '"' || str[p2] == '\'') p2--;
-    if (p2 + 1 < p1) p2 = p1 - 1;
-    return str.substr(p1, p2 + 1);
+    auto p1 = str.find_first_not_of("\"'");
+    if (p1 == std::string::npos) return std::string{};
+    auto p2 = str.find_last_not_of("\"'");
+    return str.substr(p1, p2 + 1 - p1);
   }
 
   inline void strip_quotes(std::istream &is, std::string &s) {
-- 
2.43.0


From b3df912f8f281f42aed61ff5af6347e08a1bcd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 013/101] fix: reading a text value takes the whole plain text,
 and undoes what std::quoted did

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index a9972de..1f6391b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -30,6 +30,7 @@
 #include <chrono>
 
 #include <iomanip>
+#include <iterator>
 #include <sstream>
 
 #include <any>
@@ -449,11 +450,11 @@ namespace cmdr::string {
   inline void strip_quotes(std::istream &is, std::string &s) {
     auto ch = is.peek();
     if (ch == '\'' || ch == '"') {
-      char c;
-      is >> c;
-      s = read_until(is, (char) ch);
-    } else
-      is >> s;
+      is >> std::quoted(s, (char) ch);
+    } else {
+      // a plain text is taken as it is, blanks included
+      s.assign(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>());
+    }
   }
 
 
-- 
2.43.0


From 9a15f3468f714a911f19bd0eee29c8d1f0d77c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 014/101] fix: parse_bool recognises its documented words

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 115 ++---------------------
 1 file changed, 10 insertions(+), 105 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 5ae99f4..a061717 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -328,118 +328,23 @@ namespace cmdr::vars {
      * @return
      */
     static bool parse_bool(std::istream &is, bool &x) {
-      int ch;
-      ch = is.peek();
-      if (ch == '0') {
-        x = false;
-        is >> ch;
-        return true;
-      }
-      if (ch == '1') {
-        x = true;
-        is >> ch;
-        return true;
+      std::string word;
+      if (auto ch = is.peek(); ch == '0' || ch == '1') {
+        word += (char) is.get();
+      } else {
+        for (; std::isalpha(ch); ch = is.peek()) word += (char) is.get();
       }
-
-      if (ch == 't' || ch == 'T') {
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'r' || ch == 'R') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 'u' || ch == 'U') {
-            is >> ch;
-            ch = is.peek();
-            if (ch == 'e' || ch == 'E') {
-              is >> ch;
-              x = true;
-              return true;
-            }
-            is.unget();
-          }
-          is.unget();
-        } else {
+      string::to_lower(word);
+      for (auto const *t: {"1", "t", "y", "true", "yes", "on"})
+        if (word == t) {
           x = true;
           return true;
         }
-        is.unget();
-      } else if (ch == 'y' || ch == 'Y') {
-        is >> ch;
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'e' || ch == 'E') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 's' || ch == 'S') {
-            is >> ch;
-            x = true;
-            return true;
-          }
-          is.unget();
-        } else {
-          x = true;
-          return true;
-        }
-        is.unget();
-      } else if (ch == 'f' || ch == 'F') {
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'a' || ch == 'A') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 'l' || ch == 'L') {
-            is >> ch;
-            ch = is.peek();
-            if (ch == 's' || ch == 'S') {
-              is >> ch;
-              ch = is.peek();
-              if (ch == 'e' || ch == 'E') {
-                is >> ch;
-                x = false;
-                return true;
-              }
-              is.unget();
-            }
-            is.unget();
-          }
-          is.unget();
-        } else {
-          x = false;
-          return true;
-        }
-        is.unget();
-      } else if (ch == 'n' || ch == 'N') {
-        is >> ch;
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'o' || ch == 'O') {
-          is >> ch;
+      for (auto const *t: {"0", "f", "n", "false", "no", "off"})
+        if (word == t) {
           x = false;
           return true;
         }
-        x = false;
-        return true;
-
-      } else if (ch == 'o' || ch == 'O') {
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'n' || ch == 'N') {
-          is >> ch;
-          x = true;
-          return true;
-        }
-        if (ch == 'f' || ch == 'F') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 'f' || ch == 'F') {
-            is >> ch;
-            x = false;
-            return true;
-          }
-          is.unget();
-        }
-        is.unget();
-      }
       return false;
     }
 
-- 
2.43.0


From b268ad7d7e7459a619205d00a9d5519c5bc307d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 015/101] fix: the value of a flag is taken whole, '=' included
 in the match, and only if it can be parsed

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 34 +++++++++++++------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 2cd303b..a584f30 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -108,12 +108,10 @@ namespace cmdr {
           typ != typeid(bool) && typ != typeid(void)) {
 
         // try solving the following input as value of this matched arg.
-        auto remains          = pc.title.substr(pc.pos + amr.matched_length);
-        auto remains_orig_len = remains.length();
-        if (remains[0] == '=') {
-          remains = remains.substr(1);
-        }
-        remains = string::strip_quotes(remains);
+        auto const tail         = pc.title.substr(pc.pos + amr.matched_length);
+        std::size_t const eq    = tail[0] == '=' ? 1 : 0;
+        auto remains            = string::strip_quotes(tail.substr(eq));
+        bool const quoted       = remains.length() + eq != tail.length();
         if (remains.empty() && pc.index + 1 < argc) {
           remains    = argv[++pc.index];
           extra_argv = true;
@@ -121,25 +119,29 @@ namespace cmdr {
 
         std::stringstream sst(remains);
         opt::arg::var_type &val = amr.obj->default_value();
-        auto xb                 = sst.tellg();
-        sst >> *val.get();
-        auto xe      = sst.tellg();
-        int read     = static_cast<int>(xe - xb);
-        value_parsed = read > 0 || sst.eof();
+        vars::variable parsed;
+        val->clone_to(parsed);
+        sst >> parsed;
+        bool const is_text     = typ == typeid(std::string) || typ == typeid(const_chars);
+        std::size_t const read = sst.eof() ? remains.length() : (sst.fail() ? 0 : (std::size_t) sst.tellg());
+        value_parsed           = is_text || (!sst.fail() && read > 0);
         if (!value_parsed) {
           if (extra_argv) {
             --pc.index; // restore the parsing pointer
           }
-        } else if (read > 0) {
-          amr.matched_length += read;
-        } else if (!extra_argv) {
-          amr.matched_length += (int) remains_orig_len;
+        } else if (extra_argv || quoted) {
+          amr.matched_length += (int) tail.length();
+        } else {
+          amr.matched_length += (int) (eq + read);
         }
 
         pc.add_matched_arg(amr.obj, val);
         cmdr_verbose_debug("   -> value: %s", val->as_string().c_str());
 
-        get_app().on_arg_matched(amr.obj, val);
+        if (value_parsed) {
+          parsed.clone_to(*val);
+          get_app().on_arg_matched(amr.obj, val);
+        }
 
       } else if (typ == typeid(bool)) {
         pc.add_matched_arg(amr.obj);
-- 
2.43.0


From cc84723440196b79e8e0a4b15c3530f99943423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 016/101] fix: app::reset() also forgets toggle groups and the
 cached command line

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index a584f30..f159417 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -752,6 +752,8 @@ namespace cmdr {
     _indexed_args.clear();
     _short_args.clear();
     _long_args.clear();
+    _hit_toggle_groups.clear();
+    _toggle_groups.clear();
     _all_commands.clear();
     _grouped_commands.clear();
     _indexed_commands.clear();
@@ -763,6 +765,7 @@ namespace cmdr {
     _on_pre_invoke      = nullptr;
     _on_invoke          = nullptr;
     _on_post_invoke     = nullptr;
+    _args_cache.clear();
 
     // rebuilt the builtin commands and flags
 
-- 
2.43.0


From 1e23cf0f32c8f9a7eab5f98f2d09fc065048f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 017/101] fix: the post-invoke hooks run exactly once, also if
 a pre-invoke or post-invoke hook throws

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 45 ++++++++++++++-----------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index f159417..718cd9d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -547,15 +547,24 @@ namespace cmdr {
     UNUSED(pc, c);
 
     int rc{0};
-    if (_global_on_pre_invoke) {
-      rc = _global_on_pre_invoke(c, remain_args);
-    }
-    if (rc == 0) {
-      if (c.on_pre_invoke()) {
-        rc = c.on_pre_invoke()(c, remain_args);
+    std::exception_ptr eptr{};
+    auto keep_exception = [&eptr](auto &&fn) {
+      try {
+        fn();
+      } catch (...) {
+        if (!eptr) eptr = std::current_exception();
+      }
+    };
+
+    keep_exception([&]() {
+      if (_global_on_pre_invoke) {
+        rc = _global_on_pre_invoke(c, remain_args);
+      }
+      if (rc == 0) {
+        if (c.on_pre_invoke()) {
+          rc = c.on_pre_invoke()(c, remain_args);
+        }
       }
-    }
-    try {
       if (rc == 0) {
         if (c.on_invoke()) {
           rc = c.on_invoke()(c, remain_args);
@@ -569,26 +578,22 @@ namespace cmdr {
 #endif
         }
       }
+    });
 
+    // the post-hooks are always invoked, exactly once
+    keep_exception([&]() {
       if (c.on_post_invoke()) {
         c.on_post_invoke()(c, remain_args);
       }
+    });
+    keep_exception([&]() {
       if (_global_on_post_invoke) {
         _global_on_post_invoke(c, remain_args);
       }
+    });
 
-    } catch (...) {
-      if (c.on_post_invoke()) {
-        c.on_post_invoke()(c, remain_args);
-      }
-      if (_global_on_post_invoke) {
-        _global_on_post_invoke(c, remain_args);
-      }
-
-      std::exception_ptr eptr = std::current_exception();
-      if (eptr) {
-        std::rethrow_exception(eptr);
-      }
+    if (eptr) {
+      std::rethrow_exception(eptr);
     }
     return rc;
   }
-- 
2.43.0


From ecda788982a6c3008dfbb17d3fcddd8406ef167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 018/101] fix: uncaught cmdr_biz_error keeps its type

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 718cd9d..e541097 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -955,7 +955,7 @@ namespace cmdr {
 
     } catch (cmdr::exception::cmdr_biz_error const &e) {
       if (_no_catch_cmdr_biz_error) {
-        throw e;
+        throw;
       }
       CMDR_DUMP_WITHOUT_STACK_TRACE(e);
 
-- 
2.43.0


From e9ecb52edf9f11e005aa881351f740f1a3ce8366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 019/101] fix: arg::default_value(variable) stores the value,
 not a variable holding it

---
 libs/cmdr11/include/cmdr11/cmdr_imp1.hh | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_imp1.hh b/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
index 9eb28fb..9835472 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
@@ -111,11 +111,7 @@ namespace cmdr::opt {
     if (_default.get() == nullptr)
       _default = std::make_shared<vars::variable>(v);
     else
-#if __GNUC__ > 9
-      _default->emplace(v);
-#else
       _default->emplace(v.underlying_value());
-#endif
     return (*this);
   }
   inline arg &arg::default_value(const_chars v) {
-- 
2.43.0


From 7b57d24ed001e7ec09555f44aea4c33cfc0801e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 020/101] fix: parse_array reads the elements between the
 brackets, each once

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 37 +++++++++++++-----------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index a061717..28f91f6 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -292,24 +292,27 @@ namespace cmdr::vars {
 
     template<class T>
     static bool parse_array(std::istream &is, std::vector<T> &a) {
-      bool ok;
-      char ch;
-      std::string s;
-      is >> ch;
-      if (ch != '[') s += ch;
-      while ((ok = string::read_until(is, s, ",")) == true) {
-        std::stringstream ss(s);
-        T t;
-        ss >> t;
-        a.push_back(t);
+      std::string s(std::istreambuf_iterator<char>(is), {});
+      s = string::strip(s, "[", "]");
+      if (s.empty()) return true;
+      for (std::size_t pos = 0; pos <= s.length();) {
+        auto end = s.find(',', pos);
+        if (end == std::string::npos) end = s.length();
+        auto item = s.substr(pos, end - pos);
+        if constexpr (std::is_same_v<T, std::string>) {
+          a.push_back(item);
+        } else {
+          T t{};
+          std::stringstream ss(item);
+          if constexpr (std::is_same_v<T, bool>) {
+            parse_bool(ss, t);
+          } else {
+            ss >> t;
+          }
+          a.push_back(t);
+        }
+        pos = end + 1;
       }
-
-      std::getline(is, s);
-      s = string::strip(s, "", "]");
-      T t;
-      std::stringstream ss(s);
-      ss >> t;
-      a.push_back(t);
       return true;
     }
 
-- 
2.43.0


From 9c62b9046264137f3a326925f3fd40829e0ebecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 021/101] fix: complex values without one of their parts are
 printed and read back

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 35 ++++++++++++++----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 28f91f6..c24a077 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -267,26 +267,33 @@ namespace cmdr::vars {
           os << '+';
         os << i << 'i';
       }
+      if (r == 0 && i == 0)
+        os << r;
     }
 
     template<class T>
     static bool parse_complex(std::istream &is, std::complex<T> &a) {
-      bool ok;
-      std::string s;
-      ok = string::read_until(is, s, "+");
-      {
-        std::stringstream ss(s);
-        T t;
-        ss >> t;
-        a.real(t);
-      }
-      if (ok) {
-        ok = string::read_until(is, s, "i");
-        std::stringstream ss(s);
-        T t;
+      std::string s(std::istreambuf_iterator<char>(is), {});
+      auto to_value = [](std::string const &str) {
+        T t{};
+        std::stringstream ss(str);
         ss >> t;
-        a.imag(t);
+        return t;
+      };
+      T r{}, i{};
+      if (string::has_suffix(s, "i")) {
+        s.pop_back();
+        auto pos = s.rfind('+'); // skip the sign of an exponent
+        while (pos != std::string::npos && pos > 0 && (s[pos - 1] == 'e' || s[pos - 1] == 'E')) pos = s.rfind('+', pos - 1);
+        if (pos != std::string::npos) {
+          r = to_value(s.substr(0, pos));
+          s = s.substr(pos + 1);
+        }
+        i = to_value(s);
+      } else {
+        r = to_value(s);
       }
+      a = std::complex<T>(r, i);
       return true;
     }
 
-- 
2.43.0


From f9c0940c1e9a219534cf516ab517b4d865eeca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 022/101] fix: a duplicated long flag is reported as
 dup_long_flag_found

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index f64a7bd..524f9c8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -128,7 +128,7 @@ namespace cmdr::opt {
 
       if (auto const &it = _long_args.find(a.title_long()); it != _long_args.end())
         // cmdr_throw_line(std::string("duplicated long flag found: --") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-        cmdr_throw_as(dup_short_flag_found, &a, this);
+        cmdr_throw_as(dup_long_flag_found, &a, this);
       _long_args.insert({a.title_long(), ptr});
 
       for (auto const &itz: a.title_aliases()) {
-- 
2.43.0


From bc64fc6eab1b1ce6f266cd893d4a22fa96293ddb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 023/101] fix: enable_feel_like_mode sets the option that the
 parser reads

---
 libs/cmdr11/include/cmdr11/cmdr_app.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app.hh b/libs/cmdr11/include/cmdr11/cmdr_app.hh
index 6395388..60e5ce9 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_app.hh
@@ -210,7 +210,7 @@ namespace cmdr {
      * @return
      */
     app &enable_feel_like_mode(bool b = true) {
-      set("feel-like", b);
+      _store.set_raw_p(_long.c_str(), "feel-like", b);
       return (*this);
     }
 
-- 
2.43.0


From 354dedd4c2bc6d2d5e2e5dc8909633dd2ff71441 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 024/101] fix: an empty argument reaches the action

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index e541097..6a0ffa5 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -900,8 +900,11 @@ namespace cmdr {
         pc.index       = i;
         pc.pos         = 0;
         auto title_len = pc.title.length();
-        if (title_len == 0)
+        if (title_len == 0) {
+          if (auto &c = pc.last_matched_cmd(); c.valid() && c.no_sub_commands())
+            pc.add_remain_arg(pc.title); // an empty argument is an argument, too
           continue;
+        }
 
         if (title_len >= 2 && pc.title[0] == '~' && pc.title[1] == '~') {
           // special flags
-- 
2.43.0


From 3ae08b1ff0a8710f4a30c0fb8586107035c09367 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 025/101] fix: an empty value after "=" does not take the next
 argument instead

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 6a0ffa5..5a9aba7 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -112,7 +112,7 @@ namespace cmdr {
         std::size_t const eq    = tail[0] == '=' ? 1 : 0;
         auto remains            = string::strip_quotes(tail.substr(eq));
         bool const quoted       = remains.length() + eq != tail.length();
-        if (remains.empty() && pc.index + 1 < argc) {
+        if (tail.empty() && pc.index + 1 < argc) {
           remains    = argv[++pc.index];
           extra_argv = true;
         }
-- 
2.43.0


From 4cb4ff783c5ca38fa8e504623501fe3607c6184a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 026/101] fix: a new colorizer has no colours instead of black
 on black

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 90ad0e3..8e66ac8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -125,13 +125,12 @@ namespace cmdr::terminal::colors {
     // protected:
   public:
     explicit colorize(bool true_color_enabled = true)
-        : _fg{}
-        , _bg{}
+        : _fg{-1}
+        , _bg{-1}
         , _st{}
         , _true_color_enabled(true_color_enabled) {
       _init();
       if (_colors <= 256) _true_color_enabled = false;
-      if (_true_color_enabled) _fg = _bg = -1;
       _colorful = _default_colorful;
     }
 
@@ -790,9 +789,8 @@ namespace cmdr::terminal::colors {
 
     void clear() {
       // NOTE: _colorful, _default_colorful, _colors, _true_color_enabled will be kept.
-      _fg = _bg = {};
+      _fg = _bg = -1;
       _st._i    = 0;
-      if (_true_color_enabled) _fg = _bg = -1;
       _auto_reset = true;
       _cc         = {};
       _ss.clear();
-- 
2.43.0


From 61df289ff927f5f74ca2b60c5390293ec86b6001 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 027/101] fix: styles without a colour are not reset by an
 empty parameter, colours keep their own mode

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 41 ++++++++++-----------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 8e66ac8..6e2eb8f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -136,6 +136,7 @@ namespace cmdr::terminal::colors {
 
   protected:
     int _fg, _bg;
+    bool _fg_rgb{}, _bg_rgb{}; // the color is a true-color
 
     union _status {
       struct {
@@ -563,23 +564,27 @@ namespace cmdr::terminal::colors {
     colorize &fg(int r, int g, int b) {
       // CMDR_ASSERT(c >= 0 && c <= 256);
       _fg                 = (r << 16) | (g << 8) | b;
+      _fg_rgb             = true;
       _true_color_enabled = true;
       return (*this);
     }
     colorize &fg(Colors256 color256) {
       // CMDR_ASSERT(color256 >= 0 && color256 <= 256);
       _fg                 = (int) color256;
+      _fg_rgb             = false;
       _true_color_enabled = false;
       return (*this);
     }
     colorize &bg(int r, int g, int b) {
       // CMDR_ASSERT(c >= 0 && c <= 256);
-      _bg = (r << 16) | (g << 8) | b;
+      _bg     = (r << 16) | (g << 8) | b;
+      _bg_rgb = true;
       return (*this);
     }
     colorize &bg(Colors256 color256) {
       // CMDR_ASSERT(color256 >= 0 && color256 <= 256);
-      _bg = (int) color256;
+      _bg     = (int) color256;
+      _bg_rgb = false;
       return (*this);
     }
 
@@ -738,25 +743,19 @@ namespace cmdr::terminal::colors {
     }
     friend std::ostream &operator<<(std::ostream &os, const colorize &o) {
       if (o._colorful) {
-        os << "\033[" << o.modifiers();
-        if (o._true_color_enabled) {
-          if (o._fg != -1) {
-            os << "38;2;" << __R(o._fg) << ';' << __G(o._fg) << ';' << __B(o._fg);
-            if (o._bg != -1) os << ';';
-          }
-          if (o._bg != -1) {
-            os << "48;2;" << __R(o._bg) << ';' << __G(o._bg) << ';' << __B(o._bg);
-          }
-        } else {
-          if (o._fg >= 0 && o._fg < 256) {
-            os << "38;5;" << o._fg;
-            if (o._bg >= 0 && o._bg < 256) os << ';';
-          }
-          if (o._bg >= 0 && o._bg < 256) {
-            os << "48;5;" << o._bg;
-          }
-        }
-        os << 'm';
+        std::stringstream seq;
+        seq << o.modifiers();
+        auto const color = [&seq](char const *lead, int c, bool rgb) {
+          if (rgb && c != -1)
+            seq << lead << "2;" << __R(c) << ';' << __G(c) << ';' << __B(c) << ';';
+          else if (!rgb && c >= 0 && c < 256)
+            seq << lead << "5;" << c << ';';
+        };
+        color("38;", o._fg, o._fg_rgb);
+        color("48;", o._bg, o._bg_rgb);
+        auto params = seq.str();
+        if (!params.empty()) params.pop_back(); // an empty last parameter would reset everything
+        os << "\033[" << params << 'm';
       }
 
       // text
-- 
2.43.0


From 8cfc454824256b15104509e135d84fb32e2ad1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 028/101] fix: resetting one 16-colour style does not set it

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 6e2eb8f..ce604d2 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -686,7 +686,7 @@ namespace cmdr::terminal::colors {
       return os;
     }
     friend std::ostream &operator<<(std::ostream &os, const enum reset o) {
-      if (_default_colorful) os << "\033[" << (int) o << ";m";
+      if (_default_colorful) os << "\033[" << (o == reset::all ? 0 : 20 + (int) o) << 'm';
       return os;
     }
 
-- 
2.43.0


From df1018063622edde0e1fb4d6d45744fbca98413c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 029/101] fix: a text replaces the text a colorizer kept

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index ce604d2..6f229e2 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -259,10 +259,12 @@ namespace cmdr::terminal::colors {
 
     colorize &s(const_chars str) {
       _cc = str;
+      _ss.clear();
       return (*this);
     }
     colorize &s(const std::string &str) {
       _ss = str;
+      _cc = nullptr;
       return (*this);
     }
 
-- 
2.43.0


From 8fe8de8a5f2a1d7157626018e0a773706c0a9963 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 030/101] fix: the first help screen of a process shows the
 command tree, too

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 5a9aba7..ddf3234 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -670,7 +670,7 @@ namespace cmdr {
 
     if (saved_minimal_tab_width < _minimal_tab_width) {
       std::ostringstream os3;
-      cc->print_commands(os3, c, _minimal_tab_width, true, show_hidden_items, shell_completion_mode, -1);
+      cc->print_commands(os3, c, _minimal_tab_width, true, show_hidden_items, shell_completion_mode, tree_mode ? 0 : -1);
       ss << os3.str();
     } else {
       ss << os1.str();
-- 
2.43.0


From f191c9491e3def51a2f41e1f30f13c83e311d79c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 031/101] fix: a rejected duplicate definition leaves nothing
 behind

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 40 +++++++++++++----------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 524f9c8..757c8db 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -84,6 +84,17 @@ namespace cmdr::opt {
 
   inline void cmd::add(arg const &a) {
     if (a.valid()) {
+      // a rejected flag must not be left behind in any of the tables
+      if (!a.title_short().empty() && _short_args.find(a.title_short()) != _short_args.end())
+        cmdr_throw_as(dup_short_flag_found, &a, this);
+      if (_long_args.find(a.title_long()) != _long_args.end())
+        cmdr_throw_as(dup_long_flag_found, &a, this);
+      std::set<std::string> own{a.title_long()};
+      for (auto const &itz: a.title_aliases()) {
+        if (_long_args.find(itz) != _long_args.end() || !own.insert(itz).second)
+          cmdr_throw_as(dup_alias_flag_found, itz.c_str(), &a, this);
+      }
+
       auto gn = a.group_name();
       if (gn.empty()) {
         if (a.toggle_group_name().empty())
@@ -120,21 +131,12 @@ namespace cmdr::opt {
       _indexed_args.insert({a.title_long(), ptr});
 
       if (!a.title_short().empty()) {
-        if (auto const &it = _short_args.find(a.title_short()); it != _short_args.end())
-          // cmdr_throw_line(std::string("duplicated short flag found: -") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_short_flag_found, &a, this);
         _short_args.insert({a.title_short(), ptr});
       }
 
-      if (auto const &it = _long_args.find(a.title_long()); it != _long_args.end())
-        // cmdr_throw_line(std::string("duplicated long flag found: --") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-        cmdr_throw_as(dup_long_flag_found, &a, this);
       _long_args.insert({a.title_long(), ptr});
 
       for (auto const &itz: a.title_aliases()) {
-        if (auto const &it = _long_args.find(itz); it != _long_args.end())
-          // cmdr_throw_line(std::string("duplicated alias flag found: -") + itz + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_alias_flag_found, itz.c_str(), &a, this);
         _long_args.insert({itz, ptr});
       }
 
@@ -163,6 +165,17 @@ namespace cmdr::opt {
 
   inline void cmd::add(cmd const &a) {
     if (a.valid()) {
+      // a rejected command must not be left behind in any of the tables
+      if (!a.title_short().empty() && _short_commands.find(a.title_short()) != _short_commands.end())
+        cmdr_throw_as(dup_short_cmd_found, &a, this);
+      if (_long_commands.find(a.title_long()) != _long_commands.end())
+        cmdr_throw_as(dup_long_cmd_found, &a, this);
+      std::set<std::string> own{a.title_long()};
+      for (auto const &itz: a.title_aliases()) {
+        if (_long_commands.find(itz) != _long_commands.end() || !own.insert(itz).second)
+          cmdr_throw_as(dup_alias_cmd_found, itz.c_str(), &a, this);
+      }
+
       auto gn = a.group_name();
       if (gn.empty()) {
         gn = UNSORTED_GROUP;
@@ -190,19 +203,10 @@ namespace cmdr::opt {
 
       _indexed_commands.insert({a.title_long(), ptr});
       if (!a.title_short().empty()) {
-        if (auto const &it = _short_commands.find(a.title_short()); it != _short_commands.end())
-          // cmdr_throw_line(std::string("duplicated short command found: ") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_short_cmd_found, &a, this);
         _short_commands.insert({a.title_short(), ptr});
       }
-      if (auto const &it = _long_commands.find(a.title_long()); it != _long_commands.end())
-        // cmdr_throw_line(std::string("duplicated long command found: ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-        cmdr_throw_as(dup_long_cmd_found, &a, this);
       _long_commands.insert({a.title_long(), ptr});
       for (auto const &itz: a.title_aliases()) {
-        if (auto const &it = _long_commands.find(itz); it != _long_commands.end())
-          // cmdr_throw_line(std::string("duplicated alias command found: ") + itz + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_alias_cmd_found, itz.c_str(), &a, this);
         _long_commands.insert({itz, ptr});
       }
 
-- 
2.43.0


From f8be0e920de3e92e1f9ef15b1dd237a813c910b0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 032/101] fix: looking up a flag by its short title or alias
 ignores leading dashes, too

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 757c8db..563e246 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -290,10 +290,10 @@ namespace cmdr::opt {
       return (*it).second;
     if (extensive) {
       for (auto itz: _indexed_args) {
-        if (itz.second->title_short() == long_title)
+        if (itz.second->title_short() == s)
           return (itz).second;
         for (auto &k: itz.second->title_aliases()) {
-          if (k == long_title)
+          if (k == s)
             return (itz).second;
         }
       }
-- 
2.43.0


From b01362474a7c72d15a06cbc2277d127762c7d044 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 033/101] fix: groups whose names share the part before the dot
 all appear on help screens

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 563e246..31a54dd 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -390,9 +390,9 @@ namespace cmdr::opt {
 
   namespace detail {
 
-    inline std::map<std::string, std::string> sort_keys(types::grouped_cmd_list const &grouped_commands) {
+    inline std::multimap<std::string, std::string> sort_keys(types::grouped_cmd_list const &grouped_commands) {
       std::set<std::string> keys;
-      std::map<std::string, std::string> dotted_key_on_keys;
+      std::multimap<std::string, std::string> dotted_key_on_keys;
       auto nobody_num = std::stoi(NOBODY_GROUP_SORTER);
       for (auto &it: grouped_commands) {
         auto &title = it.first;
@@ -408,9 +408,9 @@ namespace cmdr::opt {
       return dotted_key_on_keys;
     }
 
-    inline std::map<std::string, std::string> sort_keys(types::grouped_arg_list const &grouped_args) {
+    inline std::multimap<std::string, std::string> sort_keys(types::grouped_arg_list const &grouped_args) {
       std::set<std::string> keys;
-      std::map<std::string, std::string> dotted_key_on_keys;
+      std::multimap<std::string, std::string> dotted_key_on_keys;
       auto nobody_num = std::stoi(NOBODY_GROUP_SORTER);
       for (auto &it: grouped_args) {
         keys.insert(it.first);
@@ -474,7 +474,7 @@ namespace cmdr::opt {
       return std::make_tuple(wf, ws, wa, w, valid_count);
     }
 
-    inline void populate_tab_stop_width(std::map<std::string, std::string> const &dotted_key_on_keys,
+    inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_cmd_list const &grouped_commands,
                                         bool show_hidden_items,
                                         int &wt) {
@@ -539,7 +539,7 @@ namespace cmdr::opt {
       return std::make_tuple(wf, ws, wa, w, valid_count);
     }
 
-    inline void populate_tab_stop_width(std::map<std::string, std::string> const &dotted_key_on_keys,
+    inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_arg_list const &grouped_args,
                                         bool show_hidden_items,
                                         int &wt) {
@@ -756,7 +756,7 @@ namespace cmdr::opt {
     if (shell_completion_mode) tw = 9999; // don't wrap the long line
 
     int count_all{};
-    std::map<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
+    std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
     detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_commands, show_hidden_items, wt);
 
     for (auto &it: dotted_key_on_keys) {
@@ -860,7 +860,7 @@ namespace cmdr::opt {
     if (shell_completion_mode) tw = 9999;
 
     int count_all{};
-    std::map<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_args);
+    std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_args);
     detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_args, show_hidden_items, wt);
 
     for (auto &it: dotted_key_on_keys) {
-- 
2.43.0


From 0f7894b82605afe84d3acc9baaceb71304a4f09f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 034/101] fix: help screens on terminals without room for
 descriptions no longer hang

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 31a54dd..9d55c47 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -586,7 +586,7 @@ namespace cmdr::opt {
                                  int wt_real) {
       std::ostringstream ss;
       auto d  = desc;
-      auto rw = (std::size_t)((std::size_t)(tw <= 0 ? 1000 : tw) - wt_real - 2);
+      auto rw = (std::size_t)(tw > wt_real + 2 ? tw - wt_real - 2 : 1000); // no room: don't wrap
       int w   = 0;
       do {
         if (w++ != 0) {
-- 
2.43.0


From 954037b1a07a85b29629732633dabe30220367a8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 035/101] fix: setting an existing key to a moved variable
 stores its value, not an any holding it

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index c24a077..3fabfc7 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -152,6 +152,7 @@ namespace cmdr::vars {
     }
     void emplace(std::any &&o) { _value.swap(o); }
     void emplace(std::any const &o) { _value = o; }
+    void emplace(std::any &o) { _value = o; } // otherwise the template is chosen and the any gets nested
 
     [[nodiscard]] target_type const &underlying_value() const { return _value; }
     target_type &underlying_value() { return _value; }
-- 
2.43.0


From d4f937c162a5cd01b66cee91bfd7125df7596777 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 036/101] fix: subtree("") of the store does not read outside
 its empty path

---
 libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
index 6e7bc99..c227456 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
@@ -50,6 +50,7 @@ namespace cmdr::vars {
     std::shared_lock<std::shared_mutex> lock(mutex_);
 
     auto vec = string::split(prefix, '.');
+    if (vec.empty()) return null_node();
     std::size_t upr = vec.size() - 1, idx = 0;
     auto key = vec[idx];
     auto ptr = this;
-- 
2.43.0


From 96c8445780cc2fafefc8f3de470a066dcfb3fa22 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 037/101] fix: assigning to a variable copies lvalues and other
 variables instead of moving from or wrapping them

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 3fabfc7..5a10919 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -124,14 +124,10 @@ namespace cmdr::vars {
     //     : _value(std::move(a._value)) {}
     virtual ~variable() = default;
 
-    template<typename T>
-    variable &operator=(T const &o) {
-      _value = o;
-      return (*this);
-    }
-    template<typename T>
+    // a variable is copied (by the implicit operator=), not wrapped; an lvalue is copied, not moved from
+    template<typename T, std::enable_if_t<!std::is_base_of<variable, std::decay_t<T>>::value, int> = 0>
     variable &operator=(T &&o) {
-      _value = std::move(o);
+      _value = std::forward<T>(o);
       return (*this);
     }
 
-- 
2.43.0


From e4799bcf063f9f19742bf2b70415bd10fed0afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 038/101] fix: emplacing a variable in a variable stores its
 value, not a variable holding it

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 5a10919..df50328 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -146,6 +146,9 @@ namespace cmdr::vars {
       // auto v = {args...};
       // (void) v;
     }
+    void emplace(variable &&o) { _value = std::move(o._value); }
+    void emplace(variable const &o) { _value = o._value; }
+    void emplace(variable &o) { _value = o._value; }
     void emplace(std::any &&o) { _value.swap(o); }
     void emplace(std::any const &o) { _value = o; }
     void emplace(std::any &o) { _value = o; } // otherwise the template is chosen and the any gets nested
-- 
2.43.0


From 2fea9359e9fcb693df36de84f0a5142f8bf8a872 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 039/101] fix: printing a bool value does not leave
 std::boolalpha on the stream

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index df50328..7a71935 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -431,7 +431,7 @@ namespace cmdr::vars {
     static R &any_visitors() {
       static R _registry{
           detail::to_any_visitor<void>([](std::ostream &os) { os << "{}"; }),
-          detail::to_any_visitor<bool>([](std::ostream &os, bool x) { os << std::boolalpha << x; }),
+          detail::to_any_visitor<bool>([](std::ostream &os, bool x) { os << (x ? "true" : "false"); }),
           detail::to_any_visitor<int>([](std::ostream &os, int x) { os << x; }),
           detail::to_any_visitor<int8_t>([](std::ostream &os, int8_t x) { os << x; }),
           detail::to_any_visitor<int16_t>([](std::ostream &os, int16_t x) { os << x; }),
-- 
2.43.0


From 828eb3796647db6e8407b249aac3940b5748b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 040/101] fix: 8-bit integers in variables print and read as
 numbers, not as raw characters

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 28 +++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 7a71935..a343c62 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -237,7 +237,10 @@ namespace cmdr::vars {
       for (typename std::vector<T>::const_iterator it = o.begin(); it != o.end(); it++) {
         if (i++)
           os << ',';
-        os << (*it);
+        if constexpr (std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t>)
+          os << (int) (*it);
+        else
+          os << (*it);
       }
       os << ']';
     }
@@ -313,6 +316,8 @@ namespace cmdr::vars {
           std::stringstream ss(item);
           if constexpr (std::is_same_v<T, bool>) {
             parse_bool(ss, t);
+          } else if constexpr (std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t>) {
+            parse_byte(ss, t);
           } else {
             ss >> t;
           }
@@ -323,6 +328,19 @@ namespace cmdr::vars {
       return true;
     }
 
+    // a byte is a number, not a character
+    template<class T>
+    static bool parse_byte(std::istream &is, T &x) {
+      int n{};
+      if (!(is >> n)) return false;
+      if (n < std::numeric_limits<T>::min() || n > std::numeric_limits<T>::max()) {
+        is.setstate(std::ios_base::failbit);
+        return false;
+      }
+      x = (T) n;
+      return true;
+    }
+
     static bool parse_void(std::istream &is) {
       std::string tmp;
       if (is.peek() == '{') {
@@ -365,12 +383,12 @@ namespace cmdr::vars {
         detail::from_any_visitor<void>([](std::istream &is) { parse_void(is); }),
             detail::from_any_visitor<bool>([](std::istream &is, bool &x) { parse_bool(is, x); }),
             detail::from_any_visitor<int>([](std::istream &is, int &x) { is >> x; }),
-            detail::from_any_visitor<int8_t>([](std::istream &is, int8_t &x) { is >> x; }),
+            detail::from_any_visitor<int8_t>([](std::istream &is, int8_t &x) { parse_byte(is, x); }),
             detail::from_any_visitor<int16_t>([](std::istream &is, int16_t &x) { is >> x; }),
             detail::from_any_visitor<int32_t>([](std::istream &is, int32_t &x) { is >> x; }),
             detail::from_any_visitor<int64_t>([](std::istream &is, int64_t &x) { is >> x; }),
             detail::from_any_visitor<unsigned>([](std::istream &is, unsigned &x) { is >> x; }),
-            detail::from_any_visitor<uint8_t>([](std::istream &is, uint8_t &x) { is >> x; }),
+            detail::from_any_visitor<uint8_t>([](std::istream &is, uint8_t &x) { parse_byte(is, x); }),
             detail::from_any_visitor<uint16_t>([](std::istream &is, uint16_t &x) { is >> x; }),
             detail::from_any_visitor<uint32_t>([](std::istream &is, uint32_t &x) { is >> x; }),
             detail::from_any_visitor<uint64_t>([](std::istream &is, uint64_t &x) { is >> x; }),
@@ -433,12 +451,12 @@ namespace cmdr::vars {
           detail::to_any_visitor<void>([](std::ostream &os) { os << "{}"; }),
           detail::to_any_visitor<bool>([](std::ostream &os, bool x) { os << (x ? "true" : "false"); }),
           detail::to_any_visitor<int>([](std::ostream &os, int x) { os << x; }),
-          detail::to_any_visitor<int8_t>([](std::ostream &os, int8_t x) { os << x; }),
+          detail::to_any_visitor<int8_t>([](std::ostream &os, int8_t x) { os << (int) x; }),
           detail::to_any_visitor<int16_t>([](std::ostream &os, int16_t x) { os << x; }),
           detail::to_any_visitor<int32_t>([](std::ostream &os, int32_t x) { os << x; }),
           detail::to_any_visitor<int64_t>([](std::ostream &os, int64_t x) { os << x; }),
           detail::to_any_visitor<unsigned>([](std::ostream &os, unsigned x) { os << x; }),
-          detail::to_any_visitor<uint8_t>([](std::ostream &os, uint8_t x) { os << x; }),
+          detail::to_any_visitor<uint8_t>([](std::ostream &os, uint8_t x) { os << (int) x; }),
           detail::to_any_visitor<uint16_t>([](std::ostream &os, uint16_t x) { os << x; }),
           detail::to_any_visitor<uint32_t>([](std::ostream &os, uint32_t x) { os << x; }),
           detail::to_any_visitor<uint64_t>([](std::ostream &os, uint64_t x) { os << x; }),
-- 
2.43.0


From 0d07977422bdb934acb1c1a1f0525d3723cc99a6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 041/101] fix: durations of milliseconds with microseconds or
 nanoseconds print their exact value

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 76894c0..5717881 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -439,12 +439,12 @@ namespace cmdr::chrono {
     }
     bool z2{}, zdot1{}, zdot2{};
     const auto us = duration_cast<microseconds>(ns);
-    if (us.count() || z2) {
+    if (us.count() || (z1 && (ns - us).count())) {
       if (z1) {
         os << '.';
         zdot1 = true;
       }
-      if (foundNonZero)
+      if (foundNonZero || z1)
         os << std::setw(3) << us.count();
       else
         os << us.count();
-- 
2.43.0


From a51e82cad64979f1c518cecb88ffc3fc66a3f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 042/101] fix: printing a duration does not leave another fill
 character on the stream

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 5717881..8564d80 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -391,7 +391,7 @@ namespace cmdr::chrono {
     nanoseconds ns    = duration_cast<nanoseconds>(timeunit);
     // std::ostringstream os;
     bool foundNonZero = false;
-    os.fill('0');
+    const auto fill   = os.fill('0');
     typedef duration<int, std::ratio<86400 * 365>> years_;
     const auto y = duration_cast<years_>(ns);
     if (y.count()) {
@@ -469,6 +469,7 @@ namespace cmdr::chrono {
       else
         os << "ms";
     }
+    os.fill(fill);
     return os; // .str();
   }
 
-- 
2.43.0


From d0f96103194bf86891def390459e6129d59392e9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 043/101] fix: choosing the precision of printed times keeps
 the chosen time zone

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 8564d80..bbda284 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -291,7 +291,7 @@ namespace cmdr::chrono {
         return;
       }
       if (v < fmtflags::mask_extra_fields) {
-        _flags = (fmtflags) ((unsigned int) _flags & ((unsigned int) fmtflags::mask_extra_fields + 1));
+        _flags = (fmtflags) ((unsigned int) _flags & ~(unsigned int) fmtflags::mask_extra_fields);
         _flags = (fmtflags) ((unsigned int) _flags | (unsigned int) (v));
         return;
       }
-- 
2.43.0


From 705214b9d888128ff681d0fd1ccc4fd555b549e3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 044/101] fix: formatting the current time to local uses the
 local time zone

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index bbda284..4e83458 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -657,7 +657,7 @@ namespace cmdr::chrono {
     serialize_time_point(ss, time, format);
     return ss.str();
   }
-  inline std::string format_time_point_to_local(const char *format = "%Y-%m-%d %H:%M:%S") { return format_time_point(std::chrono::system_clock::now(), format); }
+  inline std::string format_time_point_to_local(const char *format = "%Y-%m-%d %H:%M:%S") { return format_time_point_to_local(std::chrono::system_clock::now(), format); }
 
   inline std::ostream &serialize_tm(std::ostream &os, std::tm const *tm, const char *format = "%Y-%m-%d %H:%M:%S") {
     os << std::put_time(tm, format);
-- 
2.43.0


From 05b257cb8d74951960b69aa399214f7a8878885f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 045/101] fix: compare_date_part tells earlier from later
 dates, also on days with a DST change

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 4e83458..c18162d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -765,12 +765,13 @@ namespace cmdr::chrono {
 
 
   template<typename Clock = std::chrono::system_clock>
-  inline bool compare_date_part(typename Clock::time_point const &lhs, typename Clock::time_point const &rhs) {
+  inline int compare_date_part(typename Clock::time_point const &lhs, typename Clock::time_point const &rhs) {
     std::tm tml = time_point_2_tm(lhs);
     std::tm tmr = time_point_2_tm(rhs);
     tml.tm_sec  = tmr.tm_sec;
     tml.tm_min  = tmr.tm_min;
     tml.tm_hour = tmr.tm_hour;
+    tml.tm_isdst = tmr.tm_isdst = -1; // the lhs time of day might have been on the other side of a DST change
     auto l      = tm_2_time_point(tml);
     auto r      = tm_2_time_point(tmr);
     return l == r ? 0 : l < r ? -1
-- 
2.43.0


From 8cbff9ac9652302323117a8b1ed09f08e33948a4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 046/101] fix: last_day_at_this_month() is about this month by
 default

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index c18162d..9b34c5f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -687,7 +687,7 @@ namespace cmdr::chrono {
    * @return new time point
    */
   template<typename Clock = std::chrono::system_clock, bool GMT = false>
-  inline typename Clock::time_point last_day_at_this_month_in_time_point(std::tm const &tm, int day_offset = 1, int month_delta = 0, int mday = 1) {
+  inline typename Clock::time_point last_day_at_this_month_in_time_point(std::tm const &tm, int day_offset = 1, int month_delta = 1, int mday = 1) {
     std::tm tmp = tm;
     if (day_offset < 1 || day_offset > 31)
       return tm_2_time_point(tmp);
@@ -718,7 +718,7 @@ namespace cmdr::chrono {
    * @return new time point in std::tm structure
    */
   template<typename Clock = std::chrono::system_clock, bool GMT = false>
-  inline std::tm last_day_at_this_month(std::tm const &tm, int day_offset = 1, int month_delta = 0, int mday = 1) {
+  inline std::tm last_day_at_this_month(std::tm const &tm, int day_offset = 1, int month_delta = 1, int mday = 1) {
     auto t = last_day_at_this_month_in_time_point(tm, day_offset, month_delta, mday);
     return time_point_2_tm(t);
   }
-- 
2.43.0


From 385bf411ec207c669ef0581502821889f5b79124 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 047/101] fix: last days of months and years are right in time
 zones with daylight saving time

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 9b34c5f..9686154 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -700,10 +700,10 @@ namespace cmdr::chrono {
       tmp.tm_year++;
     }
 
-    // subtract day_offset
-    auto t = Clock::from_time_t(std::mktime(&tmp));
-    // printf("  . . . . got next month 1st: %s\n", format_time_point(t).c_str());
-    t -= std::chrono::hours((day_offset) * 24); // and subtract 1 day, so we get the last day in this month
+    // subtract day_offset: as calendar days, since a day with a DST change has no 24 hours
+    tmp.tm_mday -= day_offset;
+    tmp.tm_isdst = -1;
+    auto t       = Clock::from_time_t(std::mktime(&tmp));
     // printf("  . . . . got next month 1st - %d day: %s\n", day_offset, format_time_point(t).c_str());
     return t;
   }
@@ -742,10 +742,10 @@ namespace cmdr::chrono {
     tmp.tm_mon  = 0; // Dec 31th
     tmp.tm_year++;
 
-    // subtract day_offset
-    auto t = Clock::from_time_t(std::mktime(&tmp));
-    // printf("  . . . . got December 31st: %s\n", format_time_point(t).c_str());
-    t -= std::chrono::hours((day_offset) * 24); // and subtract 1 day, so we get the last day in this month
+    // subtract day_offset: as calendar days, since a day with a DST change has no 24 hours
+    tmp.tm_mday -= day_offset;
+    tmp.tm_isdst = -1;
+    auto t       = Clock::from_time_t(std::mktime(&tmp));
     // printf("  . . . . got December 31st + 1 - %d day: %s\n", day_offset, format_time_point(t).c_str());
     return t;
   }
-- 
2.43.0


From ffdb217723d4c84bbf7f8302473deaea20dfc3fb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 048/101] fix: parse_datetime() does not ignore the time behind
 a date written with slashes

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 9686154..adf6349 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -916,8 +916,8 @@ namespace cmdr::chrono {
     }
 
     if (try_parse_by(tm, str,
-                     "%Y-%m-%d", "%Y/%m/%d", "%H:%M:%S",
-                     "%Y-%m-%d %H:%M:%S", "%Y/%m/%d %H:%M:%S")) {
+                     "%Y/%m/%d %H:%M:%S", // longer formats first, "%Y/%m/%d" would take only the date
+                     "%Y-%m-%d", "%Y/%m/%d", "%H:%M:%S")) {
       n = Clock::from_time_t(std::mktime(&tm));
       // printf("  . . . . parsed: %s\n", format_time_point(n).c_str());
     }
-- 
2.43.0


From 6d341113df705530ed62a56e207e6c342c93036f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 049/101] fix: parse_datetime() finds out itself whether
 daylight saving time applies to the parsed date

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index adf6349..3739938 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -918,7 +918,8 @@ namespace cmdr::chrono {
     if (try_parse_by(tm, str,
                      "%Y/%m/%d %H:%M:%S", // longer formats first, "%Y/%m/%d" would take only the date
                      "%Y-%m-%d", "%Y/%m/%d", "%H:%M:%S")) {
-      n = Clock::from_time_t(std::mktime(&tm));
+      tm.tm_isdst = -1; // the one of now means nothing for the parsed date
+      n           = Clock::from_time_t(std::mktime(&tm));
       // printf("  . . . . parsed: %s\n", format_time_point(n).c_str());
     }
 
-- 
2.43.0


From 66c4a32e5d91247208f4674be5c352bdc1df45bc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 050/101] fix: times before 1970 with a fraction of a second
 are printed right

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 3739938..ef390db 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -501,7 +501,7 @@ namespace cmdr::chrono {
   template<class _Clock, class _Duration = typename _Clock::duration>
   inline auto time_point_get_ms(std::chrono::time_point<_Clock, _Duration> const &time) {
     using namespace std::chrono;
-    milliseconds ms                = duration_cast<milliseconds>(time.time_since_epoch());
+    milliseconds ms                = duration_cast<milliseconds>(time.time_since_epoch() - floor<seconds>(time.time_since_epoch()));
     // seconds s = duration_cast<seconds>(ms);
     // std::time_t t = s.count();
     std::size_t fractional_seconds = ms.count() % 1000;
@@ -511,7 +511,7 @@ namespace cmdr::chrono {
   template<class _Clock, class _Duration = typename _Clock::duration>
   inline auto time_point_get_us(std::chrono::time_point<_Clock, _Duration> const &time) {
     using namespace std::chrono;
-    microseconds us                = duration_cast<microseconds>(time.time_since_epoch());
+    microseconds us                = duration_cast<microseconds>(time.time_since_epoch() - floor<seconds>(time.time_since_epoch()));
     // seconds s = duration_cast<seconds>(ms);
     // std::time_t t = s.count();
     std::size_t fractional_seconds = us.count() % 1000;
@@ -521,7 +521,7 @@ namespace cmdr::chrono {
   template<class _Clock, class _Duration = typename _Clock::duration>
   inline auto time_point_get_ns(std::chrono::time_point<_Clock, _Duration> const &time) {
     using namespace std::chrono;
-    nanoseconds ns                 = duration_cast<nanoseconds>(time.time_since_epoch());
+    nanoseconds ns                 = duration_cast<nanoseconds>(time.time_since_epoch() - floor<seconds>(time.time_since_epoch()));
     // seconds s = duration_cast<seconds>(ms);
     // std::time_t t = s.count();
     std::size_t fractional_seconds = ns.count() % 1000;
@@ -580,9 +580,7 @@ namespace cmdr::chrono {
   inline std::ostream &serialize_time_point(std::ostream &os, std::chrono::time_point<_Clock, _Duration> const &time, const char *format = "%Y-%m-%d %H:%M:%S") {
     using iom_     = cmdr::chrono::iom;
     // using tp = std::chrono::time_point<_Clock, _Duration>;
-    std::time_t tt = _Clock::to_time_t(time);
-    if (tt == -1)
-      return os;
+    std::time_t tt = _Clock::to_time_t(std::chrono::floor<std::chrono::seconds>(time)); // the fraction counts from there, also before the epoch
     std::tm *tm{nullptr};
     if (iom_::has(iom_::fmtflags::gmt_or_local)) {
 #if defined(_WIN32) || defined(_WIN64)
-- 
2.43.0


From 2363d7ce32065d3950aaeef19097e5f63ce93bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 051/101] fix: printing a time does not leave another fill
 character on the stream

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index ef390db..cbb8191 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -609,7 +609,8 @@ namespace cmdr::chrono {
     // else
     //     tm = std::gmtime(&tt); //GMT (UTC)
 
-    std::size_t ms = time_point_get_ms(time);
+    auto const fill = os.fill();
+    std::size_t ms  = time_point_get_ms(time);
     if (iom_::has(iom_::fmtflags::ns)) {
       // auto t0 = std::chrono::high_resolution_clock::now();
       // auto nanosec = t0.time_since_epoch();
@@ -637,6 +638,7 @@ namespace cmdr::chrono {
       os << std::put_time(tm, format);
     }
 
+    os.fill(fill);
     return os;
   }
   template<class _Clock, class _Duration = typename _Clock::duration>
@@ -824,6 +826,7 @@ namespace cmdr::chrono {
     // else
     //     tm = std::gmtime(&tt); //GMT (UTC)
 
+    auto const fill = os.fill();
     if (iom_::has(iom_::fmtflags::ns)) {
       auto const _nsec = in_nsec();
       os << std::put_time(tm, format) << '.' << std::setfill('0')
@@ -840,6 +843,7 @@ namespace cmdr::chrono {
       os << std::put_time(tm, format);
     }
 
+    os.fill(fill);
     return os;
   }
 } // namespace cmdr::chrono
-- 
2.43.0


From f0cdcb06b1fb6074a4f841d9117408ddb8eb907a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 052/101] fix: durations and times print right on left-aligned
 and hexadecimal streams

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index cbb8191..736769b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -392,6 +392,7 @@ namespace cmdr::chrono {
     // std::ostringstream os;
     bool foundNonZero = false;
     const auto fill   = os.fill('0');
+    const auto flags  = os.flags(std::ios_base::dec | std::ios_base::right);
     typedef duration<int, std::ratio<86400 * 365>> years_;
     const auto y = duration_cast<years_>(ns);
     if (y.count()) {
@@ -469,6 +470,7 @@ namespace cmdr::chrono {
       else
         os << "ms";
     }
+    os.flags(flags);
     os.fill(fill);
     return os; // .str();
   }
@@ -609,8 +611,9 @@ namespace cmdr::chrono {
     // else
     //     tm = std::gmtime(&tt); //GMT (UTC)
 
-    auto const fill = os.fill();
-    std::size_t ms  = time_point_get_ms(time);
+    auto const fill  = os.fill();
+    auto const flags = os.flags(std::ios_base::dec | std::ios_base::right);
+    std::size_t ms   = time_point_get_ms(time);
     if (iom_::has(iom_::fmtflags::ns)) {
       // auto t0 = std::chrono::high_resolution_clock::now();
       // auto nanosec = t0.time_since_epoch();
@@ -638,6 +641,7 @@ namespace cmdr::chrono {
       os << std::put_time(tm, format);
     }
 
+    os.flags(flags);
     os.fill(fill);
     return os;
   }
@@ -826,7 +830,8 @@ namespace cmdr::chrono {
     // else
     //     tm = std::gmtime(&tt); //GMT (UTC)
 
-    auto const fill = os.fill();
+    auto const fill  = os.fill();
+    auto const flags = os.flags(std::ios_base::dec | std::ios_base::right);
     if (iom_::has(iom_::fmtflags::ns)) {
       auto const _nsec = in_nsec();
       os << std::put_time(tm, format) << '.' << std::setfill('0')
@@ -843,6 +848,7 @@ namespace cmdr::chrono {
       os << std::put_time(tm, format);
     }
 
+    os.flags(flags);
     os.fill(fill);
     return os;
   }
-- 
2.43.0


From 8e6f581bbf809790239523d2c3a49a3245373c18 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 053/101] fix: read_until() ends at the end of the stream and
 finds delimiters of several characters

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 40 +++++++----------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 1f6391b..0ff3dcb 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -390,41 +390,25 @@ namespace cmdr::string {
 
   inline std::string read_until(std::istream &in, char delimiter) {
     std::string cr;
-    size_t sz = 1, tot;
-    do {
-      std::string temp;
-      std::getline(in, temp, delimiter);
-      cr += temp + delimiter;
-      tot = cr.size();
-    } while ((tot < sz) || (cr.at(tot - sz) != delimiter));
-    return cr.substr(0, tot - sz); // or return cr; if you want to keep the delimiter
+    std::getline(in, cr, delimiter);
+    return cr;
   }
 
   inline std::string read_until(std::istream &in, char const *delimiter = ",") {
     std::string cr;
-    char de   = *delimiter;
-    size_t sz = std::strlen(delimiter), tot;
-    do {
-      std::string temp;
-      std::getline(in, temp, de);
-      cr += temp + de;
-      tot = cr.size();
-    } while ((tot < sz) || (cr.substr(tot - sz, sz) != delimiter));
-    return cr.substr(0, tot - sz); // or return cr; if you want to keep the delimiter
+    size_t sz = std::strlen(delimiter);
+    for (char ch; in.get(ch);) {
+      cr += ch;
+      if (has_suffix(cr, delimiter))
+        return cr.substr(0, cr.size() - sz); // or return cr; if you want to keep the delimiter
+    }
+    return cr; // no more delimiter up to the end
   }
 
   inline bool read_until(std::istream &in, std::string &ret, char const *delimiter = ",") {
-    std::string cr;
-    char delim = *delimiter;
-    size_t sz  = std::strlen(delimiter), tot;
-    do {
-      std::string temp;
-      if (!std::getline(in, temp, delim))
-        return false;
-      cr += temp + delim;
-      tot = cr.size();
-    } while ((tot < sz) || (cr.substr(tot - sz, sz) != delimiter));
-    ret = cr.substr(0, tot - sz); // or return cr; if you want to keep the delimiter
+    if (in.peek() == std::istream::traits_type::eof())
+      return false;
+    ret = read_until(in, delimiter);
     return true;
   }
 
-- 
2.43.0


From 5a56c9a150db0fed48452b9bf7279423fd4824f5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 054/101] fix: expand_env() ends when a value refers to its own
 variable

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 0ff3dcb..4944785 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -490,24 +490,26 @@ namespace cmdr::string {
     // static const std::regex env_re{R"--(\$\{?([^}]+)\}?)--"};
     static const std::regex env_re{R"(\$\{?([a-z0-9_]+)\}?)", std::regex::icase};
     std::smatch match;
+    std::string expanded; // a value is not expanded again, it might refer to itself
     while (std::regex_search(text, match, env_re)) {
-      auto const &from     = match[0];
       auto const &th       = match[1];
       auto const &var_name = th.str();
+      expanded += match.prefix();
 #if defined(_WIN32) || defined(_WIN64)
       char* buf = nullptr;
       size_t sz = 0;
       if (_dupenv_s(&buf, &sz, var_name.c_str()) == 0 && buf != nullptr)
       {
-        text.replace(from.first, from.second, buf);
+        expanded += buf;
         free(buf);
       }
 #else
       auto *ptr            = std::getenv(var_name.c_str());
-      text.replace(from.first, from.second, ptr ? ptr : "");
+      expanded += ptr ? ptr : "";
 #endif
+      text = match.suffix().str();
     }
-    return text;
+    return expanded + text;
   }
 
 
-- 
2.43.0


From cb69736cc0a405e4cfd2178e8576064931830625 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 055/101] fix: expand_env() takes only braces that belong to a
 reference

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 4944785..930cd40 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -488,11 +488,11 @@ namespace cmdr::string {
 
   inline std::string expand_env(std::string text) {
     // static const std::regex env_re{R"--(\$\{?([^}]+)\}?)--"};
-    static const std::regex env_re{R"(\$\{?([a-z0-9_]+)\}?)", std::regex::icase};
+    static const std::regex env_re{R"(\$(?:\{([a-z0-9_]+)\}|([a-z0-9_]+)))", std::regex::icase};
     std::smatch match;
     std::string expanded; // a value is not expanded again, it might refer to itself
     while (std::regex_search(text, match, env_re)) {
-      auto const &th       = match[1];
+      auto const &th       = match[1].matched ? match[1] : match[2];
       auto const &var_name = th.str();
       expanded += match.prefix();
 #if defined(_WIN32) || defined(_WIN64)
-- 
2.43.0


From dd663902bcf77d6de2f576c8f88039868deb8ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 056/101] fix: equal texts are reported as matched by the
 similarity object, too

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 930cd40..5cbd2d7 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -796,7 +796,7 @@ namespace cmdr::text {
 
       // Exit early if they're an exact match.
       if (s1 == s2) {
-        return 1;
+        return _distance = 1;
       }
 
       // Maximum distance upto which matching
-- 
2.43.0


From 2da7a09cd9f1f284684bc197196ee345a3cf6211 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 057/101] fix: itoa() does not overflow for the smallest
 integer

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 5cbd2d7..a2b3e43 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -543,7 +543,7 @@ namespace cmdr::string {
       }
 
       int sign         = -(n < 0);
-      unsigned int val = (n ^ sign) - sign;
+      unsigned int val = ((unsigned int) n ^ (unsigned int) sign) - (unsigned int) sign; // no overflow for INT_MIN
 
       int size;
       if (val >= 10000) {
-- 
2.43.0


From 14a8d0d7843bf5ef273fc3035509c0d373f4423f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 058/101] fix: a signal can be emitted by calling it with its
 subjects

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index a2aeab3..96296db 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1211,7 +1211,7 @@ namespace cmdr::util {
         fn(std::move(event_or_subjects)...);
       return (*this);
     }
-    signal &operator()(SignalSubjects &&...event_or_subjects) { return emit(event_or_subjects...); }
+    signal &operator()(SignalSubjects &&...event_or_subjects) { return emit(std::forward<SignalSubjects>(event_or_subjects)...); }
 
   private:
     void clear() {}
-- 
2.43.0


From ace4d9b6e36e43a4c472e9208615325d4e121ccd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 059/101] fix: a signal gives every slot the emitted values,
 not what an earlier slot left of them

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index 96296db..bee3788 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1208,7 +1208,7 @@ namespace cmdr::util {
      */
     signal &emit(SignalSubjects &&...event_or_subjects) {
       for (auto &fn: _callbacks)
-        fn(std::move(event_or_subjects)...);
+        fn(_for_slot<SignalSubjects>(event_or_subjects)...);
       return (*this);
     }
     signal &operator()(SignalSubjects &&...event_or_subjects) { return emit(std::forward<SignalSubjects>(event_or_subjects)...); }
@@ -1216,6 +1216,15 @@ namespace cmdr::util {
   private:
     void clear() {}
 
+    // every slot gets its own copy: a slot may move from what it receives
+    template<typename T>
+    static T _for_slot(std::remove_reference_t<T> &subject) {
+      if constexpr (std::is_constructible_v<T, std::remove_reference_t<T> &>)
+        return subject;
+      else
+        return std::move(subject);
+    }
+
   private:
     std::vector<FN> _callbacks{};
   };
-- 
2.43.0


From 069846b1d8a890b75e27b342225408bb4b12fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 060/101] fix: defer of an object compiles without an action
 and with an action that captures

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index bee3788..ead5ecb 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -925,7 +925,11 @@ namespace cmdr::util {
         , _fn(fn) {}
     ~defer() {
       _c.close();
-      if (_fn) { _fn(); }
+      if constexpr (std::is_constructible_v<bool, _D const &>) {
+        if (_fn) { _fn(); }
+      } else if constexpr (std::is_invocable_v<_D &>) {
+        _fn(); // e.g. a lambda with captures; the default is no action
+      }
     }
 
   private:
-- 
2.43.0


From 118edde576963dfecafa469fa8c356ecb1143001 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 061/101] fix: a fixed-capacity string does not take more than
 its capacity from a std::string

---
 libs/cmdr11/include/cmdr11/cmdr_small_string.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
index 908ae5e..056d8f5 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
@@ -54,7 +54,7 @@ namespace cmdr::string {
     small_string_preallocated(
         const std::basic_string<T, Traits, Allocator> &str) noexcept
         : _buffer{} {
-      auto size = str.size() >= Size ? Size : str.size();
+      auto size = str.size() >= Size ? Size - 1 : str.size();
       std::memcpy(_buffer, str.c_str(), size);
       set_size(size);
     }
@@ -79,7 +79,7 @@ namespace cmdr::string {
     template<class Traits, class Allocator>
     small_string_preallocated &
     operator=(const std::basic_string<T, Traits, Allocator> &str) noexcept {
-      auto size = str.size() >= Size ? Size : str.size();
+      auto size = str.size() >= Size ? Size - 1 : str.size();
       std::memcpy(_buffer, str.c_str(), size);
       set_size(size);
       return *this;
-- 
2.43.0


From 816e18634da65a9e27e69c88b595d43ebd451aad Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 062/101] fix: a fixed-capacity string copies the content, not
 the capacity, of one of another size

---
 libs/cmdr11/include/cmdr11/cmdr_small_string.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
index 056d8f5..694810d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
@@ -63,7 +63,7 @@ namespace cmdr::string {
     constexpr small_string_preallocated(
         const small_string_preallocated<N> &rhs) noexcept
         : _buffer{} {
-      auto size = N >= Size ? Size : N;
+      auto size = rhs.size() >= Size ? Size - 1 : rhs.size();
       std::memcpy(_buffer, rhs.c_str(), size);
       set_size(size);
     }
@@ -89,7 +89,7 @@ namespace cmdr::string {
     constexpr small_string_preallocated &
     operator=(const small_string_preallocated<N> &rhs) noexcept {
       if ((void *) this != (void *) &rhs) {
-        auto size = N >= Size ? Size : N;
+        auto size = rhs.size() >= Size ? Size - 1 : rhs.size();
         std::memcpy(_buffer, rhs.c_str(), size);
         set_size(size);
       }
@@ -98,7 +98,7 @@ namespace cmdr::string {
 
     template<size_type N>
     small_string_preallocated(small_string_preallocated<N> &&rhs) {
-      auto size = N >= Size ? Size : N;
+      auto size = rhs.size() >= Size ? Size - 1 : rhs.size();
       std::memcpy(_buffer, rhs.c_str(), size);
       set_size(size);
     }
@@ -106,7 +106,7 @@ namespace cmdr::string {
     template<size_type N>
     small_string_preallocated &operator=(small_string_preallocated<N> &&rhs) {
       if ((void *) this != (void *) &rhs) {
-        auto size = N >= Size ? Size : N;
+        auto size = rhs.size() >= Size ? Size - 1 : rhs.size();
         std::memcpy(_buffer, rhs.c_str(), size);
         set_size(size);
       }
-- 
2.43.0


From c9d78a597540b295c1036f8c8e7d836823ffb5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 063/101] fix: to_string() of a fixed-capacity string does not
 take its length for an address

---
 libs/cmdr11/include/cmdr11/cmdr_small_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
index 694810d..c43ef35 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
@@ -123,7 +123,7 @@ namespace cmdr::string {
     inline const value_type *c_str() const noexcept { return _buffer; }
 
     inline std::string to_string() const {
-      return {reinterpret_cast<const char *>(_buffer, size())};
+      return {reinterpret_cast<const char *>(_buffer), size()};
     }
 
     constexpr size_type size() const noexcept {
-- 
2.43.0


From 1e09b3a16fa02ff6e7f10a230975cd087592c77e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 064/101] fix: a fixed-capacity string stays terminated when it
 gets shorter and knows its length for any capacity

---
 libs/cmdr11/include/cmdr11/cmdr_small_string.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
index c43ef35..d62a6de 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
@@ -127,7 +127,7 @@ namespace cmdr::string {
     }
 
     constexpr size_type size() const noexcept {
-      return capacity() - _buffer[capacity()];
+      return _size;
     }
 
     constexpr size_type capacity() const noexcept { return Size - 1; }
@@ -170,7 +170,8 @@ namespace cmdr::string {
 
   private:
     inline void set_size(size_type size) noexcept {
-      _buffer[capacity()] = Size - 1 - size;
+      _buffer[size] = value_type{};
+      _size         = size;
     }
 
     constexpr bool compare(const value_type *lhs,
@@ -179,7 +180,8 @@ namespace cmdr::string {
                             : (!*lhs && !*rhs);
     }
 
-    value_type _buffer[Size];
+    value_type _buffer[Size]{};
+    size_type _size{0};
   };
 
   template<std::size_t SizeA, std::size_t SizeB, class T>
-- 
2.43.0


From 8e9a0901f4fcba713a8a1ccff86b7aa757172f01 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 065/101] fix: adding a fixed-capacity string to a literal puts
 the literal first

---
 libs/cmdr11/include/cmdr11/cmdr_small_string.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
index d62a6de..b18dd4c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
@@ -210,8 +210,9 @@ namespace cmdr::string {
   template<std::size_t Size, class T, std::size_t N>
   small_string_preallocated<Size, T>
   operator+(const T (&str)[N], small_string_preallocated<Size, T> ss) noexcept {
-    ss += str;
-    return ss;
+    small_string_preallocated<Size, T> result{str};
+    result += ss;
+    return result;
   }
 
   template<std::size_t SizeA, std::size_t SizeB, class T>
-- 
2.43.0


From 4ed10ae6d0716a01bcf7017b74f5d0d94a0fbc22 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 066/101] fix: fixed-capacity strings compare and print their
 whole content, also behind a null character

---
 libs/cmdr11/include/cmdr11/cmdr_small_string.hh | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
index b18dd4c..d39f215 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
@@ -8,6 +8,7 @@
 #include <cstring> // for memcpy
 #include <iosfwd>  // ostream operator <<
 #include <string>
+#include <string_view>
 
 // NOTE: SSO has been paused and the codes in this header is not final.
 
@@ -135,7 +136,7 @@ namespace cmdr::string {
     template<size_type N>
     constexpr bool
     compare(const small_string_preallocated<N> &rhs) const noexcept {
-      return compare(_buffer, rhs.c_str());
+      return size() == rhs.size() && std::char_traits<value_type>::compare(_buffer, rhs.c_str(), size()) == 0;
     }
 
     inline const value_type *begin() const { return _buffer; }
@@ -174,12 +175,6 @@ namespace cmdr::string {
       _size         = size;
     }
 
-    constexpr bool compare(const value_type *lhs,
-                           const value_type *rhs) const noexcept {
-      return (*lhs && *rhs) ? (*lhs == *rhs && compare(lhs + 1, rhs + 1))
-                            : (!*lhs && !*rhs);
-    }
-
     value_type _buffer[Size]{};
     size_type _size{0};
   };
@@ -226,7 +221,7 @@ namespace cmdr::string {
   bool operator==(
       const small_string_preallocated<Size, CharT> &lhs,
       const std::basic_string<CharT, Traits, Allocator> &rhs) noexcept {
-    return std::strncmp(lhs.c_str(), rhs.c_str(), Size) == 0;
+    return lhs.size() == rhs.size() && Traits::compare(lhs.c_str(), rhs.data(), rhs.size()) == 0;
   }
 
   template<class CharT, class Traits, class Allocator, std::size_t Size>
@@ -238,7 +233,7 @@ namespace cmdr::string {
   template<std::size_t Size, class T>
   std::ostream &operator<<(std::ostream &os,
                            const small_string_preallocated<Size, T> &s) {
-    return os << s.c_str();
+    return os << std::basic_string_view<T>(s.c_str(), s.size());
   }
 
 } // namespace cmdr::string
-- 
2.43.0


From 801cac86a36a9b67394d7dfc9b02013c9cfd81ee Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 067/101] fix: cmdr_small_string.hh includes what it uses

---
 libs/cmdr11/include/cmdr11/cmdr_small_string.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
index d39f215..2d21c81 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
@@ -5,8 +5,11 @@
 #ifndef CMDR_CXX11_CMDR_SHORT_STRING_HH
 #define CMDR_CXX11_CMDR_SHORT_STRING_HH
 
+#include <array>
 #include <cstring> // for memcpy
 #include <iosfwd>  // ostream operator <<
+#include <memory>
+#include <ostream>
 #include <string>
 #include <string_view>
 
-- 
2.43.0


From 8242820f1d18920457bfe32448245228dadb0e7a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 068/101] fix: fixed-capacity strings of wide characters copy
 whole characters

---
 libs/cmdr11/include/cmdr11/cmdr_small_string.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
index 2d21c81..ab5ee1b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
@@ -50,7 +50,7 @@ namespace cmdr::string {
     constexpr explicit small_string_preallocated(const T (&str)[N]) noexcept
         : _buffer{} {
       auto size = N >= Size ? Size - 1 : N - 1;
-      std::memcpy(_buffer, str, size);
+      std::memcpy(_buffer, str, size * sizeof(T));
       set_size(size);
     }
 
@@ -59,7 +59,7 @@ namespace cmdr::string {
         const std::basic_string<T, Traits, Allocator> &str) noexcept
         : _buffer{} {
       auto size = str.size() >= Size ? Size - 1 : str.size();
-      std::memcpy(_buffer, str.c_str(), size);
+      std::memcpy(_buffer, str.c_str(), size * sizeof(T));
       set_size(size);
     }
 
@@ -68,14 +68,14 @@ namespace cmdr::string {
         const small_string_preallocated<N> &rhs) noexcept
         : _buffer{} {
       auto size = rhs.size() >= Size ? Size - 1 : rhs.size();
-      std::memcpy(_buffer, rhs.c_str(), size);
+      std::memcpy(_buffer, rhs.c_str(), size * sizeof(T));
       set_size(size);
     }
 
     template<size_type N>
     constexpr small_string_preallocated &operator=(const T (&str)[N]) noexcept {
       auto size = N >= Size ? Size - 1 : N - 1;
-      std::memcpy(_buffer, str, size);
+      std::memcpy(_buffer, str, size * sizeof(T));
       set_size(size);
       return *this;
     }
@@ -84,7 +84,7 @@ namespace cmdr::string {
     small_string_preallocated &
     operator=(const std::basic_string<T, Traits, Allocator> &str) noexcept {
       auto size = str.size() >= Size ? Size - 1 : str.size();
-      std::memcpy(_buffer, str.c_str(), size);
+      std::memcpy(_buffer, str.c_str(), size * sizeof(T));
       set_size(size);
       return *this;
     }
@@ -94,7 +94,7 @@ namespace cmdr::string {
     operator=(const small_string_preallocated<N> &rhs) noexcept {
       if ((void *) this != (void *) &rhs) {
         auto size = rhs.size() >= Size ? Size - 1 : rhs.size();
-        std::memcpy(_buffer, rhs.c_str(), size);
+        std::memcpy(_buffer, rhs.c_str(), size * sizeof(T));
         set_size(size);
       }
       return *this;
@@ -103,7 +103,7 @@ namespace cmdr::string {
     template<size_type N>
     small_string_preallocated(small_string_preallocated<N> &&rhs) {
       auto size = rhs.size() >= Size ? Size - 1 : rhs.size();
-      std::memcpy(_buffer, rhs.c_str(), size);
+      std::memcpy(_buffer, rhs.c_str(), size * sizeof(T));
       set_size(size);
     }
 
@@ -111,7 +111,7 @@ namespace cmdr::string {
     small_string_preallocated &operator=(small_string_preallocated<N> &&rhs) {
       if ((void *) this != (void *) &rhs) {
         auto size = rhs.size() >= Size ? Size - 1 : rhs.size();
-        std::memcpy(_buffer, rhs.c_str(), size);
+        std::memcpy(_buffer, rhs.c_str(), size * sizeof(T));
         set_size(size);
       }
       return *this;
-- 
2.43.0


From 7bac122678de08506a9cd3c6e0609fe7d2d2d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 069/101] fix: fixed-capacity strings of wide characters can be
 compared and converted between sizes

---
 libs/cmdr11/include/cmdr11/cmdr_small_string.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
index ab5ee1b..5a37a7e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_small_string.hh
@@ -65,7 +65,7 @@ namespace cmdr::string {
 
     template<size_type N>
     constexpr small_string_preallocated(
-        const small_string_preallocated<N> &rhs) noexcept
+        const small_string_preallocated<N, T> &rhs) noexcept
         : _buffer{} {
       auto size = rhs.size() >= Size ? Size - 1 : rhs.size();
       std::memcpy(_buffer, rhs.c_str(), size * sizeof(T));
@@ -91,7 +91,7 @@ namespace cmdr::string {
 
     template<size_type N>
     constexpr small_string_preallocated &
-    operator=(const small_string_preallocated<N> &rhs) noexcept {
+    operator=(const small_string_preallocated<N, T> &rhs) noexcept {
       if ((void *) this != (void *) &rhs) {
         auto size = rhs.size() >= Size ? Size - 1 : rhs.size();
         std::memcpy(_buffer, rhs.c_str(), size * sizeof(T));
@@ -101,14 +101,14 @@ namespace cmdr::string {
     }
 
     template<size_type N>
-    small_string_preallocated(small_string_preallocated<N> &&rhs) {
+    small_string_preallocated(small_string_preallocated<N, T> &&rhs) {
       auto size = rhs.size() >= Size ? Size - 1 : rhs.size();
       std::memcpy(_buffer, rhs.c_str(), size * sizeof(T));
       set_size(size);
     }
 
     template<size_type N>
-    small_string_preallocated &operator=(small_string_preallocated<N> &&rhs) {
+    small_string_preallocated &operator=(small_string_preallocated<N, T> &&rhs) {
       if ((void *) this != (void *) &rhs) {
         auto size = rhs.size() >= Size ? Size - 1 : rhs.size();
         std::memcpy(_buffer, rhs.c_str(), size * sizeof(T));
@@ -138,7 +138,7 @@ namespace cmdr::string {
 
     template<size_type N>
     constexpr bool
-    compare(const small_string_preallocated<N> &rhs) const noexcept {
+    compare(const small_string_preallocated<N, T> &rhs) const noexcept {
       return size() == rhs.size() && std::char_traits<value_type>::compare(_buffer, rhs.c_str(), size()) == 0;
     }
 
-- 
2.43.0


From acf93ec56cfe3e61653f5e64551705b01df68815 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 070/101] fix: a file that cannot be opened or examined is not
 mapped through an invalid descriptor

---
 libs/cmdr11/include/cmdr11/cmdr_mmap.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
index ca5be49..69221f0 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
@@ -173,14 +173,14 @@ namespace cmdr::mmap {
       UNUSED(shareable);
 #else
       if (fd == -1) {
-        std::runtime_error("");
+        return; // see is_open()
       }
 
       fd_ = fd;
       struct stat sb;
       if (fstat(fd, &sb) == -1) {
         cleanup();
-        std::runtime_error("");
+        return;
       }
       size_ = sb.st_size;
 
@@ -190,7 +190,6 @@ namespace cmdr::mmap {
 
       if (addr_ == MAP_FAILED) {
         cleanup();
-        std::runtime_error("");
       }
     }
 
-- 
2.43.0


From 07236ef0af5616caf41c1ced366e8a24b9f33998 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 071/101] fix: connecting a mapping again releases what it was
 connected to

---
 libs/cmdr11/include/cmdr11/cmdr_mmap.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
index 69221f0..0a98cb3 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
@@ -153,6 +153,7 @@ namespace cmdr::mmap {
       // #endif
     }
     inline void mmaplib::connect(bool writeable, bool shareable, FILE_HANDLE fd) {
+      cleanup(); // release what was connected before
 #if defined(_WIN32)
       if (fd == INVALID_HANDLE_VALUE) {
         std::runtime_error("");
-- 
2.43.0


From ae3ddf6161ae0004e8fd32de2d4d613e4e6cf16a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 072/101] fix: moving a mapping takes it over and leaves the
 source closed

---
 libs/cmdr11/include/cmdr11/cmdr_mmap.hh | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
index 0a98cb3..3417383 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
@@ -15,6 +15,7 @@
 #include <unistd.h>
 #endif
 #include <stdexcept>
+#include <utility>
 
 #include "cmdr_defs.hh"
 #include "cmdr_path.hh"
@@ -44,19 +45,27 @@ namespace cmdr::mmap {
 
   namespace detail {
 
+#if defined(_WIN32)
+#define MAP_FAILED NULL
+#endif
+
     class mmaplib {
     public:
       mmaplib();
       ~mmaplib();
       mmaplib(const char *path, bool writeable, bool shareable);
       mmaplib(mmaplib const &mm) { __copy(mm); }
-      mmaplib(mmaplib &&mm) { __copy(mm); }
+      mmaplib(mmaplib &&mm) noexcept
+          : mmaplib() { __copy(std::move(mm)); }
       mmaplib &operator=(mmaplib const &o) {
         __copy(o);
         return (*this);
       }
-      mmaplib &operator=(mmaplib &&o) {
-        __copy(o);
+      mmaplib &operator=(mmaplib &&o) noexcept {
+        if (this != &o) {
+          cleanup();
+          __copy(std::move(o));
+        }
         return (*this);
       }
 
@@ -83,7 +92,8 @@ namespace cmdr::mmap {
 #endif
         size_    = mm.size_;
         addr_    = mm.addr_;
-        mm.addr_ = nullptr;
+        mm.size_ = 0;
+        mm.addr_ = MAP_FAILED;
       }
 
     public:
@@ -109,11 +119,6 @@ namespace cmdr::mmap {
       void *addr_;
     };
 
-#if defined(_WIN32)
-#define MAP_FAILED NULL
-#endif
-
-
     inline mmaplib::mmaplib()
 #if defined(_WIN32)
         : hFile_(INVALID_HANDLE_VALUE)
-- 
2.43.0


From 1aa3f1934ed96816978a2790e1354fba8b185253 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 073/101] fix: copying a mapping maps the file again instead of
 replacing its descriptor by the standard input

---
 libs/cmdr11/include/cmdr11/cmdr_mmap.hh | 32 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
index 3417383..90e6749 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
@@ -54,11 +54,13 @@ namespace cmdr::mmap {
       mmaplib();
       ~mmaplib();
       mmaplib(const char *path, bool writeable, bool shareable);
-      mmaplib(mmaplib const &mm) { __copy(mm); }
+      mmaplib(mmaplib const &mm)
+          : mmaplib() { __copy(mm); }
       mmaplib(mmaplib &&mm) noexcept
           : mmaplib() { __copy(std::move(mm)); }
       mmaplib &operator=(mmaplib const &o) {
-        __copy(o);
+        if (this != &o)
+          __copy(o);
         return (*this);
       }
       mmaplib &operator=(mmaplib &&o) noexcept {
@@ -70,15 +72,17 @@ namespace cmdr::mmap {
       }
 
     private:
+      // a copy maps the same file through a handle of its own
       void __copy(mmaplib const &mm) {
+        cleanup();
+        if (!mm.is_open()) return;
 #if defined(_WIN32)
-        ::DuplicateHandle(GetCurrentProcess(), mm.hFile_, GetCurrentProcess(), &hFile_, 0, FALSE, DUPLICATE_SAME_ACCESS);
-        ::DuplicateHandle(GetCurrentProcess(), mm.hMapping_, GetCurrentProcess(), &hMapping_, 0, FALSE, DUPLICATE_SAME_ACCESS);
+        FILE_HANDLE fd = INVALID_HANDLE_VALUE;
+        ::DuplicateHandle(GetCurrentProcess(), mm.hFile_, GetCurrentProcess(), &fd, 0, FALSE, DUPLICATE_SAME_ACCESS);
 #else
-        fd_    = dup2(0, mm.fd_);
+        FILE_HANDLE fd = dup(mm.fd_);
 #endif
-        size_ = mm.size_;
-        addr_ = mm.addr_;
+        connect(mm.writeable_, mm.shareable_, fd);
       }
       void __copy(mmaplib &&mm) {
 #if defined(_WIN32)
@@ -90,10 +94,12 @@ namespace cmdr::mmap {
         fd_    = mm.fd_;
         mm.fd_ = INVALID_HANDLE_VALUE;
 #endif
-        size_    = mm.size_;
-        addr_    = mm.addr_;
-        mm.size_ = 0;
-        mm.addr_ = MAP_FAILED;
+        size_      = mm.size_;
+        addr_      = mm.addr_;
+        writeable_ = mm.writeable_;
+        shareable_ = mm.shareable_;
+        mm.size_   = 0;
+        mm.addr_   = MAP_FAILED;
       }
 
     public:
@@ -117,6 +123,8 @@ namespace cmdr::mmap {
 #endif
       std::size_t size_;
       void *addr_;
+      bool writeable_{false};
+      bool shareable_{false};
     };
 
     inline mmaplib::mmaplib()
@@ -159,6 +167,8 @@ namespace cmdr::mmap {
     }
     inline void mmaplib::connect(bool writeable, bool shareable, FILE_HANDLE fd) {
       cleanup(); // release what was connected before
+      writeable_ = writeable;
+      shareable_ = shareable;
 #if defined(_WIN32)
       if (fd == INVALID_HANDLE_VALUE) {
         std::runtime_error("");
-- 
2.43.0


From 8b52c96a03788f3aef1d4506cda2f8c718dd7123 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 074/101] fix: exec runs long commands completely, not their
 first 511 characters

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index d24ba8e..0a94a56 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -206,10 +206,9 @@ namespace cmdr::process {
 
 #else // try POSIX
         tmpfile_stderr = path::tmpname_for_stderr();
-        std::array<char, 512> cmd;
-        std::snprintf(cmd.data(), 512, "%s 2>%s", command, tmpfile_stderr.c_str());
+        std::string const cmd = std::string(command) + " 2>" + tmpfile_stderr;
         // std::unique_ptr<FILE, decltype(&pclose)> pipe(popen(command, "r"), pclose);
-        std::unique_ptr<FILE, std::function<void(FILE *)>> pipe(popen(cmd.data(), "r"), [this](FILE *f) {
+        std::unique_ptr<FILE, std::function<void(FILE *)>> pipe(popen(cmd.c_str(), "r"), [this](FILE *f) {
           _rc = pclose(f);
           if (_rc == EXIT_SUCCESS) {        // == 0
           } else if (_rc == EXIT_FAILURE) { // EXIT_FAILURE is not used by all programs, maybe needs some adaptation.
-- 
2.43.0


From 81db28462f217d4ec508dbdbc6ac63b194faa1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 075/101] fix: exec captures the stderr of every part of a
 command

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index 0a94a56..9c9902a 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -206,7 +206,8 @@ namespace cmdr::process {
 
 #else // try POSIX
         tmpfile_stderr = path::tmpname_for_stderr();
-        std::string const cmd = std::string(command) + " 2>" + tmpfile_stderr;
+        // redirect the shell itself: command may be a list, end with a comment, ...
+        std::string const cmd = "exec 2>'" + tmpfile_stderr + "'\n" + command;
         // std::unique_ptr<FILE, decltype(&pclose)> pipe(popen(command, "r"), pclose);
         std::unique_ptr<FILE, std::function<void(FILE *)>> pipe(popen(cmd.c_str(), "r"), [this](FILE *f) {
           _rc = pclose(f);
-- 
2.43.0


From 8e513343237c0738b56d9c70000c69dc74762923 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 076/101] fix: exec does not report success for a command that
 was killed by a signal

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index 9c9902a..93d5abc 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -17,6 +17,9 @@
 #include <thread>
 #if defined(WIN32) || defined(_WIN32) || defined(__WIN32__) || defined(__NT__)
 #include <windows.h>
+#else
+#include <cerrno>
+#include <sys/wait.h>
 #endif
 #include <array>
 
@@ -265,7 +268,14 @@ namespace cmdr::process {
       this->rdbuf(&buffer);
     }
 
-    int ret_code() const { return buffer._rc / 256; }
+    int ret_code() const {
+#if defined(WIN32) || defined(_WIN32) || defined(__WIN32__) || defined(__NT__)
+      return buffer._rc / 256;
+#else
+      if (buffer._rc != -1 && WIFSIGNALED(buffer._rc)) return 128 + WTERMSIG(buffer._rc); // as shells report it
+      return buffer._rc == -1 ? -1 : WEXITSTATUS(buffer._rc);
+#endif
+    }
     std::ifstream &stderr_stream() { return buffer._ef; }
 
     friend std::ostream &operator<<(std::ostream &os, exec const &o) {
-- 
2.43.0


From 1266a2c0342ac3b57e7a07743d349ef4a7e3ab12 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 077/101] fix: the captured stderr of a command is not
 overwritten by the next one's

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh    | 13 ++++++++++++-
 libs/cmdr11/include/cmdr11/cmdr_process.hh |  1 +
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index 9fdc148..41bc65b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -7,6 +7,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <chrono>
 #include <filesystem>
 #include <string>
@@ -469,10 +470,20 @@ namespace cmdr::path {
     return p;
   }
 
+  inline std::string process_id() {
+#if defined(_WIN32)
+    return std::to_string(GetCurrentProcessId());
+#else
+    return std::to_string(getpid());
+#endif
+  }
+
+  /** @brief a file name that no other call, in this or another running process, gets */
   inline std::filesystem::path tmpname_for_stderr() {
     auto p = fs::temp_directory_path();
+    static std::atomic<unsigned> id{0};
     p /= "logs";
-    p /= "stderr.txt";
+    p /= "stderr." + process_id() + "." + std::to_string(id++) + ".txt";
     ensure_directory(path::dirname(p));
     return p;
   }
diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index 93d5abc..a2ae0dd 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -234,6 +234,7 @@ namespace cmdr::process {
         setg((char *) this->output.data(), (char *) this->output.data(), (char *) (this->output.data() + this->output.size()));
 
         _ef = std::ifstream(tmpfile_stderr);
+        io::delete_file(tmpfile_stderr.c_str()); // it stays readable as long as it is open
 
         // auto rc = pclose(pipe);
 #endif
-- 
2.43.0


From a7c2235ef52736e3749ddade0bed3f919ff8c74f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 078/101] fix: temporary files of several processes or threads
 do not get the same name

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index 41bc65b..64a140f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -500,9 +500,10 @@ namespace cmdr::path {
    */
   inline std::filesystem::path tmpname_autoincr(char const *name_template = nullptr) {
     std::filesystem::path p = fs::temp_directory_path();
-    static int id           = 0;
+    static std::atomic<int> id{0};
     char buf[MAX_PATH];
-    snprintf(buf, MAX_PATH, name_template ? name_template : "_%05d", id++);
+    auto const by_default = "_" + process_id() + "_%05d"; // other processes use other names
+    snprintf(buf, MAX_PATH, name_template ? name_template : by_default.c_str(), id++);
     p /= buf;
     ensure_directory(path::dirname(p));
     return p;
-- 
2.43.0


From 5f189960a52f290289df7ec0338ac16435272c11 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 079/101] fix: exec does not lose output when a signal arrives
 meanwhile

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index a2ae0dd..9048348 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -224,8 +224,12 @@ namespace cmdr::process {
 
         // std::array<char, 128> buffer;
         int ch;
-        while ((ch = fgetc(pipe.get())) != EOF) {
-          this->output += (char) ch;
+        for (;;) {
+          while ((ch = fgetc(pipe.get())) != EOF) {
+            this->output += (char) ch;
+          }
+          if (!ferror(pipe.get()) || errno != EINTR) break;
+          clearerr(pipe.get()); // a signal arrived, the output goes on
         }
         // while (fgets(buffer.data(), buffer.size(), pipe.get()) != nullptr) {
         //     this->output += buffer.data();
-- 
2.43.0


From 8f39873045d52438d2b13b49a481b1e74e58965f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 080/101] fix: the default chosen for colours is not lost when
 the next colorizer is created

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 6f229e2..6d1b1de 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -175,7 +175,9 @@ namespace cmdr::terminal::colors {
     bool _colorful;
     static bool _default_colorful;
     static int _colors;
+    static bool _default_chosen; // by set_default_colorful()
     static void _init() {
+      if (_default_chosen) return;
       _default_colorful = terminfo::is_colorful();
       _colors           = terminfo::support_colors();
 #if defined(_DEBUG)
@@ -722,6 +724,7 @@ namespace cmdr::terminal::colors {
      * @param enable_colors
      */
     [[maybe_unused]] static void set_default_colorful(bool enable_colors = true) {
+      _default_chosen   = true;
       _default_colorful = enable_colors;
       if (enable_colors && _colors == 0) _colors = 256;
     }
@@ -805,6 +808,7 @@ namespace cmdr::terminal::colors {
   //     return *instance;
   // }
 
+  inline bool colorize::_default_chosen{};
   inline bool colorize::_default_colorful{};
   inline int colorize::_colors{};
 
-- 
2.43.0


From 128fc5e924d2203b466abbaad2d35d51868f7894 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 081/101] fix: escape sequences do not depend on the format and
 the width set for the stream

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 38 +++++++++++++--------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 6d1b1de..46d48e3 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -16,9 +16,13 @@
 
 #include <cstdlib>
 #include <cstring>
-#include <iosfwd>
+#include <algorithm>
+#include <iostream>
+#include <iterator>
 #include <sstream>
 #include <string.h>
+#include <string>
+#include <tuple>
 
 
 namespace cmdr::terminal {
@@ -188,6 +192,16 @@ namespace cmdr::terminal::colors {
 #endif
     }
 
+    // writes an escape sequence, whatever the format of the stream is set to,
+    // and leaves the field width to the text.
+    static std::ostream &_put(std::ostream &os, std::string const &params) {
+      auto const seq = "\033[" + params + 'm';
+      return os.write(seq.data(), (std::streamsize) seq.size());
+    }
+    static std::ostream &_put(std::ostream &os, int code) {
+      return _default_colorful ? _put(os, std::to_string(code)) : os;
+    }
+
     std::string modifiers() const {
 #if 0
             std::stringstream ss;
@@ -670,28 +684,22 @@ namespace cmdr::terminal::colors {
     };
 
     friend std::ostream &operator<<(std::ostream &os, const enum style o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
-      return os;
+      return _put(os, (int) o);
     }
     friend std::ostream &operator<<(std::ostream &os, const enum fg o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
-      return os;
+      return _put(os, (int) o);
     }
     friend std::ostream &operator<<(std::ostream &os, const enum bg o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
-      return os;
+      return _put(os, (int) o);
     }
     friend std::ostream &operator<<(std::ostream &os, const enum fgB o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
-      return os;
+      return _put(os, (int) o);
     }
     friend std::ostream &operator<<(std::ostream &os, const enum bgB o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
-      return os;
+      return _put(os, (int) o);
     }
     friend std::ostream &operator<<(std::ostream &os, const enum reset o) {
-      if (_default_colorful) os << "\033[" << (o == reset::all ? 0 : 20 + (int) o) << 'm';
-      return os;
+      return _put(os, o == reset::all ? 0 : 20 + (int) o);
     }
 
 
@@ -760,7 +768,7 @@ namespace cmdr::terminal::colors {
         color("48;", o._bg, o._bg_rgb);
         auto params = seq.str();
         if (!params.empty()) params.pop_back(); // an empty last parameter would reset everything
-        os << "\033[" << params << 'm';
+        _put(os, params);
       }
 
       // text
@@ -773,7 +781,7 @@ namespace cmdr::terminal::colors {
       //  reset
       if (o._auto_reset) {
         if (o._colorful)
-          os << "\033[0m";
+          _put(os, "0");
 
         auto *xo                                = const_cast<colorize *>(&o);
         xo->_st._i                              = 0;
-- 
2.43.0


From ec68d32000e7d6f66fa1c1742e66369235a2a34c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 082/101] fix: the 16-colour operators work before a colorizer
 is created

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 46d48e3..241c7af 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -199,7 +199,8 @@ namespace cmdr::terminal::colors {
       return os.write(seq.data(), (std::streamsize) seq.size());
     }
     static std::ostream &_put(std::ostream &os, int code) {
-      return _default_colorful ? _put(os, std::to_string(code)) : os;
+      static bool const detected = (_init(), true); // no colorizer might exist yet
+      return detected && _default_colorful ? _put(os, std::to_string(code)) : os;
     }
 
     std::string modifiers() const {
-- 
2.43.0


From 2b32ae9c865acf5002379096783eb1f4e8292937 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 083/101] fix: a version, debug or other information request
 holds wherever it stands on the command line

---
 libs/cmdr11/include/cmdr11/cmdr_cmn.hh  | 6 ++++++
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 8 ++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmn.hh b/libs/cmdr11/include/cmdr11/cmdr_cmn.hh
index 44e8504..3c4b603 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmn.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmn.hh
@@ -204,6 +204,7 @@ namespace cmdr::opt {
       bool passthru_flag{false};    //
       int matching_flag_type{};     // short: 0, long: 1, special: 2, ...
       std::size_t pos{};            // start position of title
+      Action request{Action::OK};   // the last internal action requested by a hit handler
 
       explicit parsing_context(cmd *a)
           : _root(a) {}
@@ -228,6 +229,11 @@ namespace cmdr::opt {
         return (*this);
       }
 
+      Action note_request(Action rc) {
+        if (rc > Action::OK && rc < Action::Continue) request = rc;
+        return rc;
+      }
+
       void add_matched_cmd(cmd *obj) { _matched_commands.push_back(obj); }
       void add_matched_arg(arg *obj) { matched_flags.push_back(obj); }
       void add_matched_arg(arg *obj, std::shared_ptr<vars::variable> const &v);
diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index ddf3234..6fedaf6 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -63,7 +63,7 @@ namespace cmdr {
             pc.last_matched_cmd(),
             remain_args(argv, pc.index + 1, argc));
         // if (rc < opt::Action::OK || rc >= opt::Action::Abortion)
-        return rc;
+        return pc.note_request(rc);
       }
       return opt::Action::Continue;
     }
@@ -174,10 +174,10 @@ namespace cmdr {
       pc.title_fragment = amr.matched_str;
 
       if (amr.obj->on_flag_hit()) {
-        rc = amr.obj->on_flag_hit()(
+        rc = pc.note_request(amr.obj->on_flag_hit()(
             pc.last_matched_cmd(),
             pc.last_matched_flg(),
-            remain_args(argv, pc.index + 1, argc));
+            remain_args(argv, pc.index + 1, argc)));
         if (rc < opt::Action::OK || rc >= opt::Action::Abortion) {
           return rc;
         }
@@ -954,7 +954,7 @@ namespace cmdr {
       }
 
       cmdr_verbose_debug("   - app::after_run (cmdline args parsed, try invoking the matched command or show help screen) ...");
-      return after_run(rc, pc, argc, argv);
+      return after_run(pc.request, pc, argc, argv);
 
     } catch (cmdr::exception::cmdr_biz_error const &e) {
       if (_no_catch_cmdr_biz_error) {
-- 
2.43.0


From d71289b0d46e8e7cbd86e42d4e9c03b84fa3f268 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:21:49 +0000
Subject: [PATCH 084/101] fix: --no-color, PLAIN and NO_COLOR disable the
 colors of the tree, the debug information and the messages, too

---
 libs/cmdr11/include/cmdr11/cmdr_app.hh    |  1 +
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h |  8 ++++----
 libs/cmdr11/include/cmdr11/cmdr_impl.hh   | 14 +++++++++++---
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app.hh b/libs/cmdr11/include/cmdr11/cmdr_app.hh
index 60e5ce9..499643f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_app.hh
@@ -334,6 +334,7 @@ namespace cmdr {
     void prepare_env_vars();
     void load_externals();
     void apply_env_vars();
+    static tcolorize &colorizer(); // what this run prints with: without colors if they are disabled
     int after_run(opt::Action rc, opt::types::parsing_context &pc, int argc, char *argv[]);
     int internal_action(opt::Action rc, opt::types::parsing_context &pc, int argc, char *argv[]);
     int invoke_command(opt::cmd &cc, string_array const &remain_args, opt::types::parsing_context &pc);
diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index f855015..be27d95 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -222,12 +222,12 @@ namespace cmdr {
         auto &v = _store.get_raw(k);
         std::ostringstream os1, os2, os3, os4;
         os1 << a.hit_count() << " hits: ";
-        os2 << vars::store::_c.fg(Colors256::Green).s(os1.str());
+        os2 << colorizer().fg(Colors256::Green).s(os1.str());
         os3 << " (hit title: " << std::quoted(a.hit_title())
             << ", spec:" << a.hit_special()
             << ", long:" << a.hit_long()
             << ", env:" << a.hit_env() << ")";
-        os4 << vars::store::_c.fg(Colors256::Grey).italic().s(os3.str());
+        os4 << colorizer().fg(Colors256::Grey).italic().s(os3.str());
         std::cout << " - " << os2.str() << std::quoted(a.title())
                   << os4.str() << ": '" << k << "' => " << v << '\n';
       }
@@ -295,7 +295,7 @@ namespace cmdr {
 
         using namespace cmdr::terminal::colors;
         // auto &c = colorize::instance();
-        auto c = colorize::create();
+        auto &c = colorizer();
         std::cout << c.fg(colorize::Colors256::Purple3).bg(colorize::Colors256::Default).underline().bold().s("some text") << '\n';
         std::cout << c.dim().s("dim text") << '\n';
         std::cout << (int) colorize::Colors256::Purple3 << " << want 56" << '\n';
@@ -335,7 +335,7 @@ namespace cmdr {
     bool const sc_mode           = get_for_cli("shell-completion").as<bool>();
 
     // _pr_tree(std::cout, &pc.last_matched_cmd());
-    auto c                       = cmdr::terminal::colors::colorize::create();
+    auto &c                      = colorizer();
     pc.last_matched_cmd().print_commands(std::cout, c, _minimal_tab_width, true, show_hidden_items, sc_mode, 0);
     return 0;
   }
diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 6fedaf6..f46b737 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -196,9 +196,10 @@ namespace cmdr {
       {
         std::ostringstream osn;
         std::ostringstream os1;
-        os1 << vars::store::_c.bold().s(amr.matched_str);
-        osn << vars::store::_c.bold().s("[!]")
-            << vars::store::_c.fg(terminal::colors::colorize::Colors256::Red).s(" cannot parse the value of the flag ")
+        auto &c = colorizer();
+        os1 << c.bold().s(amr.matched_str);
+        osn << c.bold().s("[!]")
+            << c.fg(terminal::colors::colorize::Colors256::Red).s(" cannot parse the value of the flag ")
             << std::quoted(os1.str());
         std::cerr << osn.str() << '\n';
       }
@@ -986,7 +987,14 @@ namespace cmdr {
     } while ((ptr = ptr->owner()) != nullptr);
   }
 
+  inline app::tcolorize &app::colorizer() {
+    auto &c = vars::store::_c;
+    c.enable(tcolorize::create().is_colorful() && !is_no_color());
+    return c;
+  }
+
   inline int app::after_run(opt::Action rc, opt::types::parsing_context &pc, int argc, char *argv[]) {
+    colorizer(); // the dumps of the option store use it, too
     if (rc > opt::Action::OK && rc < opt::Action::Continue) {
       return internal_action(rc, pc, argc, argv);
     }
-- 
2.43.0


From e7f9fe6e22177f659e6474e6bf4d50d218120848 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:54:24 +0000
Subject: [PATCH 085/101] fix: an application can be created without author and
 copyright, as the defaults say

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index be27d95..9e2d995 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -37,8 +37,8 @@ namespace cmdr {
                   const_chars examples_)
       : _name(name)
       , _version(version)
-      , _author(author)
-      , _copyright(copyright)
+      , _author(author ? author : "")
+      , _copyright(copyright ? copyright : "")
   // , _description(description)
   // , _examples(examples)
   {
-- 
2.43.0


From b735bb0eaf29bf57f895a6c55fa785f1e1cc2f73 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:54:24 +0000
Subject: [PATCH 086/101] fix: the descriptions of grouped commands stand in
 the same column as all others

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 9d55c47..cb2a171 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -827,7 +827,7 @@ namespace cmdr::opt {
 
         w            = wf + 2 + ws + 2 + wa;
         auto wt_real = (wt < 43 ? 43 : wt);
-        ss << std::setw(((std::size_t) wt_real - w - ((level >= 0 ? level : 0) + level_pad) * 2)) << ' ';
+        ss << std::setw(((std::size_t) wt_real - w - (level >= 0 ? level + level_pad : 0) * 2)) << ' ';
 
         if (shell_completion_mode) ss << '|'; // print a delimiter char for shell completion parser
 
-- 
2.43.0


From 69baadf52424fdd7f79a32b27c1fe7de3c4c105a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 087/101] fix: to_unique doesn't return the object it
 destroyed, and to_shared takes a unique_ptr

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index ead5ecb..718f7a2 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -50,9 +50,9 @@ namespace std {
   inline unique_ptr<T> to_unique(T *ptr) { return unique_ptr<T>(ptr); }
   template<typename T>
   inline unique_ptr<T> to_unique(shared_ptr<T> &&ptr) {
-    auto p = ptr.get();
+    // a shared object can't be released, so the new one takes over its content
+    auto pnew = unique_ptr<T>(ptr ? new T(std::move(*ptr)) : nullptr);
     ptr.reset();
-    auto pnew = unique_ptr<T>(p);
     return pnew;
   }
   template<typename T>
@@ -68,7 +68,7 @@ namespace std {
   template<typename T>
   inline shared_ptr<T> to_shared(shared_ptr<T> const &ptr) { return ptr; }
   template<typename T>
-  inline shared_ptr<T> to_shared(unique_ptr<T> &&ptr) { return ptr; }
+  inline shared_ptr<T> to_shared(unique_ptr<T> &&ptr) { return std::move(ptr); }
 
 } // namespace std
 
-- 
2.43.0


From 8358e371409a8a19197a689425a244163842255a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 088/101] fix: file_exists() of a temporary path object links
 (it was declared for one, but never defined)

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index 64a140f..8ace168 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -42,7 +42,7 @@ namespace cmdr::path {
   std::filesystem::path merge(std::string pathA, std::string pathB);
 
   bool file_exists(const std::string &filePath);
-  bool file_exists(std::filesystem::path const &&filePath);
+  bool file_exists(std::filesystem::path const &filePath);
 
 } // namespace cmdr::path
 
-- 
2.43.0


From 13a6beeb7d21840a9a7f2a154829a503eea02f8b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 089/101] fix: read_file_content() returns the whole content of
 a file that was partly read before

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index 8ace168..a5ea538 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -345,6 +345,8 @@ namespace cmdr::io {
   inline void close_file(std::fstream &fs) { fs.close(); }
 
   inline std::string read_file_content(std::ifstream &ifs) {
+    ifs.clear();
+    ifs.seekg(0);
     ifs.ignore((std::numeric_limits<std::streamsize>::max)());
     std::string data(ifs.gcount(), 0);
     ifs.seekg(0);
-- 
2.43.0


From 735ef154ada6217a0b8b2ee6555c0f9a27d3e002 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 090/101] fix: create_sparse_file() does not report success for
 a file it could not create

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index a5ea538..b02183f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -396,9 +396,13 @@ namespace cmdr::io {
     std::filesystem::resize_file(name, size);
 #else
     std::ofstream ofs(name, std::ios_base::out | std::ios_base::binary);
-    ofs.seekp(size - 1);
-    char const ch = '\0';
-    ofs.write(&ch, 1);
+    if (size > 0) {
+      ofs.seekp(size - 1);
+      char const ch = '\0';
+      ofs.write(&ch, 1);
+    }
+    ofs.close();
+    return !ofs.fail();
 #endif
     return true;
   }
-- 
2.43.0


From 790906f5dc6c29af0815720962c36ea6788bfecd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 091/101] fix: stat() of a missing file does not return an
 uninitialized structure

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index b02183f..ceff09b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -413,7 +413,7 @@ namespace cmdr::path {
   // https://docs.microsoft.com/en-us/cpp/c-runtime-library/reference/stat-functions
   // https://linux.die.net/man/2/stat
   inline hz_stat stat(std::filesystem::path const &name) {
-    hz_stat st;
+    hz_stat st{};
 #ifdef _WIN32
     int result = _stat(name.string().c_str(), &st);
 #else
-- 
2.43.0


From 561b508836d7f8817bf41d6f9f5be65d590a5f96 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 092/101] fix: is_sparse_file() counts the blocks of a file in
 their unit, not in the preferred size for I/O

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index ceff09b..091465c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -449,7 +449,7 @@ namespace cmdr::path {
     return (bhfi.dwFileAttributes & FILE_ATTRIBUTE_SPARSE_FILE);
 #else
     struct stat const st = stat(name);
-    return (st.st_blksize * st.st_blocks < st.st_size);
+    return (st.st_blocks * 512 < st.st_size); // st_blocks is counted in units of 512 bytes
 #endif
   }
 
-- 
2.43.0


From 1999063380bcfd85db142dd276a9b90b4e19b768 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 093/101] fix: ensure_file() does not report success for a file
 it could not create

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index 091465c..92a69db 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -461,8 +461,8 @@ namespace cmdr::path {
   /** create a file if not exists */
   inline bool ensure_file(std::filesystem::path const &name) {
     if (!file_exists(name)) {
-      io::close_file(io::create_file(name));
-      return true;
+      auto ofs = io::create_file(name);
+      return ofs.is_open();
     }
     return false;
   }
-- 
2.43.0


From cf38bf12afa9038768bb8cb5263290989434ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 094/101] fix: a line that is not understood is not reported
 without colors because an earlier run disabled them

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index f46b737..8ce5704 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -784,6 +784,7 @@ namespace cmdr {
     prepare_env_vars();
     load_externals();
     apply_env_vars();
+    colorizer(); // not what an earlier run left
   }
 
   inline void app::prepare_common_env() {
-- 
2.43.0


From 77a76c7d47c8c0c12d5dd704232834a4416d4126 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 095/101] fix: a tuple is printed to the given stream, not to
 std::cout

---
 libs/cmdr11/include/cmdr11/cmdr_defs.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_defs.hh b/libs/cmdr11/include/cmdr11/cmdr_defs.hh
index 35ef293..a885b12 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_defs.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_defs.hh
@@ -1164,7 +1164,7 @@ namespace detail {
     if constexpr (I == sizeof...(Ts)) {
       return os << ')';
     } else {
-      std::cout << std::get<I>(tuples);
+      os << std::get<I>(tuples);
       if constexpr (I + 1 != sizeof...(Ts)) {
         os << ", ";
       }
-- 
2.43.0


From 41b5293190b54392f0dc321f3de7fa40693f7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 096/101] fix: short_type_name() compiles and ends where the
 name of the type ends

---
 libs/cmdr11/include/cmdr11/cmdr_dbg.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_dbg.hh b/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
index fa6a80d..b0ee59d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
@@ -215,9 +215,9 @@ namespace cmdr::debug {
    */
   template<typename T>
   constexpr auto short_type_name() -> std::string_view {
-    constexpr auto &value = type_name<T>();
-    constexpr auto end    = value.rfind("::");
-    return std::string_view{value.data() + (end != std::string_view::npos ? end + 2 : 0)};
+    constexpr auto value = type_name<T>();
+    constexpr auto end   = value.rfind("::");
+    return value.substr(end != std::string_view::npos ? end + 2 : 0);
   }
 
   // https://stackoverflow.com/questions/81870/is-it-possible-to-print-a-variables-type-in-standard-c
-- 
2.43.0


From 1f6678f547106c7b17d9737bd5ce212acb86590e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 097/101] fix: printing a saved stack trace does not modify it

---
 libs/cmdr11/include/cmdr11/cmdr_dbg.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_dbg.hh b/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
index b0ee59d..7ad506a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
@@ -584,9 +584,9 @@ namespace cmdr::debug {
 
     size_t funcnamesize = 256;
     auto funcname      = static_cast<char *>(malloc(funcnamesize));
-    for (auto const &str: st) {
+    for (std::string str: st) { // a copy, since the pieces are terminated in place
       char *begin_name = nullptr, *begin_offset = nullptr, *end_offset = nullptr;
-      const auto data = const_cast<char *>(str.c_str());
+      const auto data = str.data();
 
       // find parentheses and +address offset surrounding the mangled name:
       // ./module(function+0x15c) [0x8048a6d]
-- 
2.43.0


From d26fb42f4fced1784bb082e6ab16d6bfc3e3ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 098/101] fix: printing a stack trace does not read past the
 end of a line that ends in a space

---
 libs/cmdr11/include/cmdr11/cmdr_dbg.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_dbg.hh b/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
index 7ad506a..acaa1ed 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
@@ -536,6 +536,7 @@ namespace cmdr::debug {
             sp++;
             while (*(++p) == ' ')
               ;
+            if (*p == '\0') break;
             if (*p == '+' && begin_name)
               begin_offset = p - 1;
             else if (sp == 3) {
@@ -613,6 +614,7 @@ namespace cmdr::debug {
             sp++;
             while (*(++p) == ' ')
               ;
+            if (*p == '\0') break;
             if (*p == '+' && begin_name)
               begin_offset = p - 1;
             else if (sp == 3) {
-- 
2.43.0


From 2f0f2be2c5491937335e50025c55d7f20c273e23 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:12:09 +0000
Subject: [PATCH 099/101] fix: every dash of the name is replaced in the name
 of the completion script

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index 9e2d995..9d3e48b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -734,7 +734,7 @@ fi
     const auto *name    = get_for_cli("generate.shell.name").as<const_chars>();
     const const_chars n = name && *name ? name : exe_name;
     std::string sn      = n;
-    string::replace(sn, "-", "_");
+    string::replace_all(sn, "-", "_");
     cross::setenv("SAFE_APP_NAME", sn.c_str());
     std::filesystem::path safe_name(sn);
 
-- 
2.43.0


From 994e0e86a068e244e64c398d649f2a5acbabeeee Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:12:09 +0000
Subject: [PATCH 100/101] fix: the completion script leaves no placeholder of
 its zsh function unfilled

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index 9d3e48b..fc8720c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -706,8 +706,8 @@ if type complete >/dev/null 2>&1; then
 	complete -F _cmdr_cmd_%{SAFE_APP_NAME} %{EXE_NAME}
 elif type compdef >/dev/null 2>&1; then
 	# zsh
-	_cmdr_cmd_${SAFE_APP_NAME}_zsh() { compadd $(_cmdr_cmd_%{SAFE_APP_NAME}); }
-	compdef _cmdr_cmd_${SAFE_APP_NAME}_zsh %{EXE_NAME}
+	_cmdr_cmd_%{SAFE_APP_NAME}_zsh() { compadd $(_cmdr_cmd_%{SAFE_APP_NAME}); }
+	compdef _cmdr_cmd_%{SAFE_APP_NAME}_zsh %{EXE_NAME}
 fi
 
 )SH-EOF";
-- 
2.43.0


From 829f45d29341fcdff1e3e0c3c419e9e12f1548ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:12:22 +0000
Subject: [PATCH 101/101] fix: the suggestions for an unknown title follow
 their heading, which is not printed alone

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 8ce5704..25111a8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -358,8 +358,7 @@ namespace cmdr {
         }
       } while ((c = c->owner()) != nullptr);
       if (os.tellp() > 0) {
-        os << "  Did you mean";
-        std::cerr << os.str();
+        std::cerr << "  Did you mean" << os.str();
       }
     }
     std::cerr << '\n';
@@ -395,8 +394,7 @@ namespace cmdr {
         }
       } while ((c = c->owner()) != nullptr);
       if (os.tellp() > 0) {
-        os << "  Did you mean";
-        std::cerr << os.str();
+        std::cerr << "  Did you mean" << os.str();
       }
     }
     std::cerr << '\n';
@@ -460,7 +458,9 @@ namespace cmdr {
     std::cerr << "Unknown command: " << std::quoted(pc.title);
     std::cerr << " under matched command: " << std::quoted(c.title_sequences());
     std::cerr << '\n';
-    std::cerr << "  Did you mean" << os.str();
+    if (os.tellp() > 0) {
+      std::cerr << "  Did you mean" << os.str();
+    }
     std::cerr << '\n';
     return opt::Action::Abortion;
   }
-- 
2.43.0

