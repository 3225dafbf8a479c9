From ba56afa04458a1bf4d3088c350760101be9619a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 01/51] fix: shareable_cache consumers no longer miss, repeat
 or stall on messages

---
 .../include/thread/shareable_cache.hpp        | 13 ++-
 app/tenncor/src/thread/shareable_cache.ipp    | 85 +++++++++----------
 2 files changed, 51 insertions(+), 47 deletions(-)

diff --git a/app/tenncor/include/thread/shareable_cache.hpp b/app/tenncor/include/thread/shareable_cache.hpp
index e95a484..fcfb22c 100644
--- a/app/tenncor/include/thread/shareable_cache.hpp
+++ b/app/tenncor/include/thread/shareable_cache.hpp
@@ -8,6 +8,8 @@
 
 #include <mutex>
 #include <memory>
+#include <functional>
+#include <condition_variable>
 #include <unordered_map>
 #include <experimental/optional>
 
@@ -30,6 +32,7 @@ struct cache_node
 	std::shared_ptr<cache_node<T> > next_ = nullptr;
 	std::shared_ptr<cache_node<T> > prev_;
 	T data_;
+	bool broken_ = false; // removed from the cache
 };
 
 // shared_cache considers 2 types of actors: consumers and producers
@@ -38,8 +41,8 @@ struct cache_node
 // key is unique, meaning when a new key-value pair is inserted,
 // the old pair with the same key is obsolete
 // because producers may reference some obsolete pairs, we handle obsolecse by shared_pointers to nodes
-// obsolete nodes always link to a valid node or nullptr
-// obsolete nodes have prev of null
+// obsolete nodes always lead to the oldest valid node that is newer than them
+// obsolete nodes are marked broken
 // the producer determines a key-value relationship using hash function (hasher_)
 // each consumer holds one shared_ptr to some node in the cache (content_)
 // if the shared_ptr is null, the consumer is expected to consume from the start of the cache
@@ -53,12 +56,14 @@ public:
 	// assert that iter's data has been read
 	// grab data from iter->next_ and increment iter if possible
 	// if value is unavailable wait until the next value is available and return unset optional
-	optional<T> get_latest (std::shared_ptr<cache_node<T> >& iter) const;
+	// don't wait if waitable is set and returns false, waitable is called while the cache is locked
+	optional<T> get_latest (std::shared_ptr<cache_node<T> >& iter,
+		std::function<bool(void)> waitable = nullptr) const;
 
 	// add data mapped by key remove previous iterators mapped by it if necessary
 	void add_latest (T data);
 
-	// escape get_latest's wait by forceable notifying cond_
+	// escape every get_latest's wait by forceable notifying cond_
 	void escape_wait (void);
 
 private:
diff --git a/app/tenncor/src/thread/shareable_cache.ipp b/app/tenncor/src/thread/shareable_cache.ipp
index 78912d5..a62e354 100644
--- a/app/tenncor/src/thread/shareable_cache.ipp
+++ b/app/tenncor/src/thread/shareable_cache.ipp
@@ -15,6 +15,17 @@ template <typename K, typename T>
 class shareable_cache<K, T>::cache_list
 {
 public:
+	// neighboring nodes own each other
+	~cache_list (void)
+	{
+		while (nullptr != head_)
+		{
+			std::shared_ptr<cache_node<T> > next = head_->next_;
+			head_->prev_ = head_->next_ = nullptr;
+			head_ = next;
+		}
+	}
+
 	std::shared_ptr<cache_node<T> > begin (void) const
 	{
 		return head_;
@@ -34,47 +45,34 @@ public:
 	}
 
 	// remove it node from the link
-	// invariant: broken it chain always ends in an unbroken node or null
-	// after: if it == nullptr, then everything starting from head_ is unread
+	// expects it to have a successor, so a broken node always leads
+	// to an unbroken node: the oldest one that is newer than it
 	void unlink (std::shared_ptr<cache_node<T> > it)
 	{
-		if (nullptr != it)
+		if (nullptr == it) return;
+		if (head_ == it)
+		{
+			head_ = it->next_;
+		}
+		if (nullptr != it->prev_)
+		{
+			it->prev_->next_ = it->next_;
+		}
+		if (nullptr != it->next_)
 		{
-			bool is_tail = tail_ == it;
-			if (head_ == it)
-			{
-				head_ = it->next_;
-			}
-			if (is_tail)
-			{
-				tail_ = it->prev_;
-			}
-			if (nullptr != it->prev_)
-			{
-				it->prev_->next_ = it->next_;
-			}
-			if (nullptr != it->next_)
-			{
-				it->next_->prev_ = it->prev_;
-			}
-			it->prev_ = nullptr;
-			if (is_tail)
-			{
-				// if broken node was a tail, link to the closest unbroken (new tail)
-				it->next_ = tail_;
-			}
-			// invariant: if (tail_ == nullptr) then head_ == nullptr && it == nullptr
+			it->next_->prev_ = it->prev_;
 		}
+		it->prev_ = nullptr;
+		it->broken_ = true;
 	}
 
-	// sometimes, nodes can be broken (if it->prev_ is null and is not head)
+	// sometimes, nodes can be broken (unlinked since they were read)
 	// update input it shared_ptr to reference the next unbroken node
 	// return true if it was broken
 	bool grab_truth (std::shared_ptr<cache_node<T> >& it) const
 	{
-		if (head_ == it || nullptr == it) return false;
-		bool broken = nullptr == it->prev_;
-		while (nullptr == it->prev_)
+		bool broken = it->broken_;
+		while (it->broken_)
 		{
 			it = it->next_;
 		}
@@ -92,7 +90,8 @@ shareable_cache<K, T>::shareable_cache (std::function<K(const T&)> hasher) :
 	hasher_(hasher) {}
 
 template <typename K, typename T>
-optional<T> shareable_cache<K, T>::get_latest (std::shared_ptr<cache_node<T> >& iter) const
+optional<T> shareable_cache<K, T>::get_latest (std::shared_ptr<cache_node<T> >& iter,
+	std::function<bool(void)> waitable) const
 {
 	std::unique_lock<std::mutex> locker(mutex_);
 
@@ -106,8 +105,7 @@ optional<T> shareable_cache<K, T>::get_latest (std::shared_ptr<cache_node<T> >&
 		}
 	}
 	// ensure iter is not broken
-	else if (content_.grab_truth(iter) &&
-		nullptr != iter)
+	else if (content_.grab_truth(iter))
 	{
 		// iter was broken, we grab data from iter instead,
 		// since we've never visited it before
@@ -119,7 +117,7 @@ optional<T> shareable_cache<K, T>::get_latest (std::shared_ptr<cache_node<T> >&
 		value = iter->next_->data_;
 		iter = iter->next_;
 	}
-	if (!value)
+	if (!value && (!waitable || waitable()))
 	{
 		cond_.wait(locker); // no current wait to check for spurious wait
 	}
@@ -132,19 +130,20 @@ void shareable_cache<K, T>::add_latest (T data)
 	std::unique_lock<std::mutex> locker(mutex_);
 
 	K key = hasher_(data);
-	auto iter = umap_.find(key);
-	if (umap_.end() != iter)
-	{
-		content_.unlink(iter->second);
-	}
-	umap_[key] = content_.push_back(data);
-	cond_.notify_one();
+	std::shared_ptr<cache_node<T> >& entry = umap_[key];
+	std::shared_ptr<cache_node<T> > obsolete = entry;
+	// link the new node first, so that the obsolete node has a successor
+	entry = content_.push_back(data);
+	content_.unlink(obsolete);
+	cond_.notify_all(); // every waiting consumer has yet to read data
 }
 
 template <typename K, typename T>
 void shareable_cache<K, T>::escape_wait (void)
 {
-	cond_.notify_one();
+	// locking ensures that consumers are either waiting or have yet to check whether to wait
+	std::unique_lock<std::mutex> locker(mutex_);
+	cond_.notify_all();
 }
 
 }
-- 
2.43.0


From 885dc2a3aaa6117b22c7c64b1e9b820b2ed2ee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 02/51] fix: stop flag is shared by the thread and its handle

---
 app/tenncor/include/thread/stop_flag.hpp      | 12 ++++++----
 .../include/thread/stoppable_thread.hpp       | 13 ++++------
 app/tenncor/src/thread/stop_flag.cpp          | 24 +++++++++++--------
 3 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/app/tenncor/include/thread/stop_flag.hpp b/app/tenncor/include/thread/stop_flag.hpp
index 3708213..0caa9fb 100755
--- a/app/tenncor/include/thread/stop_flag.hpp
+++ b/app/tenncor/include/thread/stop_flag.hpp
@@ -2,7 +2,8 @@
 // Created by Mingkai Chen on 2017-10-01.
 //
 
-#include <atomic>
+#include <memory>
+#include <mutex>
 #include <condition_variable>
 
 #pragma once
@@ -19,17 +20,20 @@ public:
 
 	bool is_set (void) const;
 
-	std::condition_variable& get_condition (void) { return cond_; }
+	void wait (void); // wait until set
 
 private:
-	std::atomic<bool> flag_;
+	bool flag_ = false;
+
+	mutable std::mutex mutex_;
 
 	std::condition_variable cond_;
 };
 
 struct thread_interrupted {};
 
-extern thread_local stop_flag thread_stop_flag;
+// shared with the handle of the thread, since either can outlive the other
+extern thread_local std::shared_ptr<stop_flag> thread_stop_flag;
 
 void stop_throw (void); // exit thread by throwing
 
diff --git a/app/tenncor/include/thread/stoppable_thread.hpp b/app/tenncor/include/thread/stoppable_thread.hpp
index eacc01c..50bef16 100755
--- a/app/tenncor/include/thread/stoppable_thread.hpp
+++ b/app/tenncor/include/thread/stoppable_thread.hpp
@@ -3,7 +3,7 @@
 //
 
 #include <thread>
-#include <future>
+#include <memory>
 #include <experimental/tuple>
 
 #include "thread/stop_flag.hpp"
@@ -23,13 +23,13 @@ public:
 	template <typename FUNC, typename... ARGS>
 	explicit stoppable_thread (FUNC&& f, ARGS&&... args)
 	{
-		std::promise<stop_flag*> promise_flag;
+		flag_ = std::make_shared<stop_flag>();
 
-		internal_op_ = std::thread([&promise_flag,
+		internal_op_ = std::thread([flag = flag_,
 			f = std::forward<FUNC>(f),
 			args = std::make_tuple(std::forward<ARGS>(args)...)]
 		{
-			promise_flag.set_value(&thread_stop_flag);
+			thread_stop_flag = flag;
 
 			try
 			{
@@ -37,9 +37,6 @@ public:
 			}
 			catch (thread_interrupted const&) {}
 		});
-
-		// expose flag to main thread
-		flag_ = promise_flag.get_future().get();
 	}
 
 	~stoppable_thread (void);
@@ -59,7 +56,7 @@ public:
 private:
 	std::thread internal_op_;
 	
-	stop_flag* flag_;
+	std::shared_ptr<stop_flag> flag_;
 };
 
 }
diff --git a/app/tenncor/src/thread/stop_flag.cpp b/app/tenncor/src/thread/stop_flag.cpp
index 9d52bb0..901a738 100755
--- a/app/tenncor/src/thread/stop_flag.cpp
+++ b/app/tenncor/src/thread/stop_flag.cpp
@@ -2,7 +2,6 @@
 // Created by Mingkai Chen on 2017-10-01.
 //
 
-#include <mutex>
 #include "thread/stop_flag.hpp"
 
 #ifdef STOP_FLAG_HPP
@@ -10,22 +9,30 @@
 namespace nnet
 {
 
-thread_local stop_flag thread_stop_flag;
+thread_local std::shared_ptr<stop_flag> thread_stop_flag = std::make_shared<stop_flag>();
 
 void stop_flag::set (void)
 {
-	flag_.store(true, std::memory_order_relaxed); // no constraints
-	cond_.notify_one(); // should have only stopped once per thread
+	std::lock_guard<std::mutex> lk(mutex_);
+	flag_ = true;
+	cond_.notify_all();
 }
 
 bool stop_flag::is_set (void) const
 {
-	return flag_.load(std::memory_order_relaxed);
+	std::lock_guard<std::mutex> lk(mutex_);
+	return flag_;
+}
+
+void stop_flag::wait (void)
+{
+	std::unique_lock<std::mutex> lk(mutex_);
+	cond_.wait(lk, [this]{ return flag_; });
 }
 
 void stop_throw (void)
 {
-	if (thread_stop_flag.is_set())
+	if (thread_stop_flag->is_set())
 	{
 		throw thread_interrupted(); // force worker to stop operation
 	}
@@ -33,10 +40,7 @@ void stop_throw (void)
 
 void stop_wait (void)
 {
-	std::mutex mut;
-	std::unique_lock<std::mutex> lk(mut);
-	thread_stop_flag.get_condition().wait(lk,
-	[]{ return thread_stop_flag.is_set(); });
+	thread_stop_flag->wait();
 }
 
 }
-- 
2.43.0


From 8242d677928af84e13d6c9829347ce807719d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 03/51] fix: subscriptions can be ended while streams are being
 opened or closed

---
 .../edgeinfo/grpc_vis/gui_notifier.hpp        | 13 +++++-
 .../src/edgeinfo/grpc_vis/gui_notifier.cpp    | 44 ++++++++++++++-----
 2 files changed, 46 insertions(+), 11 deletions(-)

diff --git a/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp b/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
index 6f27490..dd82ba3 100644
--- a/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
+++ b/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
@@ -9,6 +9,8 @@
 #pragma once
 #ifdef EDGE_RCD
 
+#include <mutex>
+#include <unordered_set>
 #include <experimental/optional>
 
 #include <grpc++/grpc++.h>
@@ -58,8 +60,17 @@ private:
 
 	edgecache_t* edge_src_;
 
-	// own
+	void subscribe (const std::string& cli_id);
+
+	bool is_subscribed (const std::string& cli_id) const;
+
+	// own, accessed by every call's thread
+	mutable std::mutex mutex_;
+
 	std::unordered_set<std::string> subscriptions_;
+
+	// no subscription is accepted after subscriptions are cleared
+	bool closed_ = false;
 };
 
 void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_src);
diff --git a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
index 85c5068..604e1d3 100644
--- a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
+++ b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
@@ -20,13 +20,13 @@ grpc::Status gui_notifier::SubscribeNode (grpc::ServerContext*,
 	grpc::ServerWriter<visor::NodeMessage>* writer)
 {
 	std::string cli_id = client->id();
-	subscriptions_.emplace(cli_id);
-	auto et = subscriptions_.end();
+	subscribe(cli_id);
+	auto subscribed = [this, &cli_id] { return is_subscribed(cli_id); };
 	std::shared_ptr<nnet::cache_node<visor::NodeMessage> > iter = nullptr;
 
-	while (et != subscriptions_.find(cli_id))
+	while (subscribed())
 	{
-		if (optional<visor::NodeMessage> msg = node_src_->get_latest(iter))
+		if (optional<visor::NodeMessage> msg = node_src_->get_latest(iter, subscribed))
 		{
 			writer->Write(*msg);
 		}
@@ -39,13 +39,13 @@ grpc::Status gui_notifier::SubscribeEdge (grpc::ServerContext*,
 	grpc::ServerWriter<visor::EdgeMessage>* writer)
 {
 	std::string cli_id = client->id();
-	subscriptions_.emplace(cli_id);
-	auto et = subscriptions_.end();
+	subscribe(cli_id);
+	auto subscribed = [this, &cli_id] { return is_subscribed(cli_id); };
 	std::shared_ptr<nnet::cache_node<visor::EdgeMessage> > iter = nullptr;
 
-	while (et != subscriptions_.find(cli_id))
+	while (subscribed())
 	{
-		if (optional<visor::EdgeMessage> msg = edge_src_->get_latest(iter))
+		if (optional<visor::EdgeMessage> msg = edge_src_->get_latest(iter, subscribed))
 		{
 			writer->Write(*msg);
 		}
@@ -56,7 +56,12 @@ grpc::Status gui_notifier::SubscribeEdge (grpc::ServerContext*,
 grpc::Status gui_notifier::EndSubscription (grpc::ServerContext*,
 	const visor::StringId* client, visor::Empty*)
 {
-	subscriptions_.erase(client->id());
+	{
+		std::lock_guard<std::mutex> locker(mutex_);
+		subscriptions_.erase(client->id());
+	}
+	node_src_->escape_wait();
+	edge_src_->escape_wait();
 	return grpc::Status::OK;
 }
 
@@ -70,11 +75,30 @@ grpc::Status gui_notifier::GetNodeData (grpc::ServerContext* context,
 
 void gui_notifier::clear_subscriptions (void)
 {
-	subscriptions_.clear();
+	{
+		std::lock_guard<std::mutex> locker(mutex_);
+		closed_ = true;
+		subscriptions_.clear();
+	}
 	node_src_->escape_wait();
 	edge_src_->escape_wait();
 }
 
+void gui_notifier::subscribe (const std::string& cli_id)
+{
+	std::lock_guard<std::mutex> locker(mutex_);
+	if (!closed_)
+	{
+		subscriptions_.emplace(cli_id);
+	}
+}
+
+bool gui_notifier::is_subscribed (const std::string& cli_id) const
+{
+	std::lock_guard<std::mutex> locker(mutex_);
+	return subscriptions_.end() != subscriptions_.find(cli_id);
+}
+
 void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_src)
 {
 	gui_notifier service(node_src, edge_src);
-- 
2.43.0


From f592c91945f252858d93f73eb7d423dff56a1c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 04/51] fix: identifiers are unique and never copied along with
 a node

---
 app/tenncor/include/graph/react/identifiable.hpp | 8 ++++++++
 app/tenncor/src/utils/utils.cpp                  | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/app/tenncor/include/graph/react/identifiable.hpp b/app/tenncor/include/graph/react/identifiable.hpp
index 678a0ff..0e6f44d 100644
--- a/app/tenncor/include/graph/react/identifiable.hpp
+++ b/app/tenncor/include/graph/react/identifiable.hpp
@@ -26,6 +26,14 @@ namespace nnet
 class identifiable
 {
 public:
+	identifiable (void) {}
+
+	//! copies are identified independently
+	identifiable (const identifiable&) {}
+
+	//! moved nodes are identified independently
+	identifiable (identifiable&&) {}
+
 	virtual ~identifiable (void) {}
 
 	//! get the unique hash value
diff --git a/app/tenncor/src/utils/utils.cpp b/app/tenncor/src/utils/utils.cpp
index 1b26582..b5a3bef 100644
--- a/app/tenncor/src/utils/utils.cpp
+++ b/app/tenncor/src/utils/utils.cpp
@@ -1,3 +1,4 @@
+#include <atomic>
 #include <iostream>
 
 #include "utils/utils.hpp"
@@ -29,6 +30,8 @@ std::string formatter::operator >> (convert_to_string)
 std::string uuid (const void* addr)
 {
 	static std::uniform_int_distribution<size_t> tok_dist(0, 15);
+	// time, address, and tokens (of a seeded generator) can all repeat
+	static std::atomic<size_t> count(0);
 	auto now = std::chrono::system_clock::now();
 	std::time_t now_c = std::chrono::system_clock::to_time_t(now);
 
@@ -40,6 +43,7 @@ std::string uuid (const void* addr)
 		size_t token = tok_dist(get_generator());
 		ss << std::hex << token;
 	}
+	ss << '-' << std::hex << count++;
 	return ss.str();
 }
 
-- 
2.43.0


From bcd21d99e240215c00521323702f51bd64ea6379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 05/51] fix: graph_manager drops updates of dead nodes, keeps
 failed ones and stays frozen when merged

---
 .../include/graph/connector/iconnector.hpp    |  3 +
 .../src/graph/connector/iconnector.ipp        | 75 +++++++++++--------
 2 files changed, 47 insertions(+), 31 deletions(-)

diff --git a/app/tenncor/include/graph/connector/iconnector.hpp b/app/tenncor/include/graph/connector/iconnector.hpp
index 5eef3f9..33320dc 100644
--- a/app/tenncor/include/graph/connector/iconnector.hpp
+++ b/app/tenncor/include/graph/connector/iconnector.hpp
@@ -153,6 +153,9 @@ private:
 
 	//! the distance between this node and the furthest dependent leaf (maximum spanning tree height)
 	size_t depth_ = 0;
+
+	//! whether an update of this node is queued in g_man_
+	bool pending_ = false;
 };
 
 }
diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index f8ef05f..016c4b7 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -6,7 +6,7 @@
 //  Copyright © 2016 Mingkai Chen. All rights reserved.
 //
 
-#include <queue>
+#include <list>
 
 #ifdef TENNCOR_ICONNECTOR_HPP
 
@@ -351,15 +351,6 @@ struct iconnector<T>::JList
 	bool terminal_ = false;
 };
 
-template <typename T>
-struct small_leafset
-{
-	bool operator() (const iconnector<T>* c1, const iconnector<T>* c2) const
-	{
-		return c1->get_depth() > c2->get_depth();
-	}
-};
-
 template <typename T>
 struct iconnector<T>::graph_manager
 {
@@ -379,6 +370,12 @@ struct iconnector<T>::graph_manager
 
 	void suicide (iconnector<T>* user)
 	{
+		// a user that left can't be updated
+		if (user->pending_)
+		{
+			updates_.remove_if([user](const update_info& info) { return user == info.first; });
+			user->pending_ = false;
+		}
 		users_.erase(user);
 		if (users_.empty()) delete this;
 	}
@@ -386,28 +383,25 @@ struct iconnector<T>::graph_manager
 	void consume (graph_manager* other)
 	{
 		if (this == other) return;
-		while (false == other->updates_.empty())
-		{
-			updates_.push(other->updates_.top());
-			other->updates_.pop();
-		}
-		update_map_.insert(other->update_map_.begin(), other->update_map_.end());
-		std::unordered_set<iconnector<T>*> otherusers = other->users_;
-		for (iconnector<T>* ouser : otherusers)
+		users_.insert(other->users_.begin(), other->users_.end());
+		for (iconnector<T>* ouser : other->users_)
 		{
-			other->suicide(ouser);
 			ouser->g_man_ = this;
 		}
-		users_.insert(otherusers.begin(), otherusers.end());
+		updates_.merge(other->updates_, shallower);
+		freeze_ = freeze_ || other->freeze_;
+		delete other;
 	}
 
 	void add_update (iconnector<T>* dependent, std::function<void(void)> update)
 	{
 		// assert dependent is in users_
-		if (update_map_.end() == update_map_.find(dependent))
+		if (false == dependent->pending_)
 		{
-			updates_.push(dependent);
-			update_map_[dependent] = update;
+			std::list<update_info> entry;
+			entry.push_back({dependent, update});
+			updates_.merge(entry, shallower);
+			dependent->pending_ = true;
 		}
 	}
 
@@ -416,21 +410,40 @@ struct iconnector<T>::graph_manager
 		// todo: add multithreading
 		while (false == updates_.empty())
 		{
-			iconnector<T>* iconn = updates_.top();
-			auto updater = update_map_[iconn];
-			updates_.pop();
-			updater();
-			iconn->notify(UPDATE);
+			std::list<update_info> current;
+			current.splice(current.begin(), updates_, updates_.begin());
+			iconnector<T>* iconn = current.front().first;
+			iconn->pending_ = false;
+			try
+			{
+				current.front().second();
+				iconn->notify(UPDATE);
+			}
+			catch (...)
+			{
+				// still outdated, retry on the next update
+				if (false == iconn->pending_)
+				{
+					updates_.merge(current, shallower);
+					iconn->pending_ = true;
+				}
+				throw;
+			}
 		}
-		update_map_.clear();
 	}
 
 	bool freeze_ = false;
 
 private:
-	std::priority_queue<iconnector<T>*,std::vector<iconnector<T>*>,small_leafset<T> > updates_;
+	using update_info = std::pair<iconnector<T>*,std::function<void(void)> >;
+
+	static bool shallower (const update_info& a, const update_info& b)
+	{
+		return a.first->get_depth() < b.first->get_depth();
+	}
 
-	std::unordered_map<iconnector<T>*,std::function<void(void)> > update_map_;
+	//! pending updates ordered by depth
+	std::list<update_info> updates_;
 
 	std::unordered_set<iconnector<T>*> users_;
 	
-- 
2.43.0


From d6f8714cd9bbe24a165c4db150acb441ad1918d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 06/51] fix: copied and moved connectors keep their depth and
 pending update

---
 .../src/graph/connector/iconnector.ipp        | 26 ++++++++++++++++---
 .../connector/immutable/base_immutable.ipp    |  4 +--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 016c4b7..617c4d7 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -302,7 +302,9 @@ void iconnector<T>::copy_helper (const iconnector<T>& other)
 	jacobian_correction(&other);
 	// this copies other's dependencies so, this and other share a graph
 	if (g_man_) g_man_->suicide(this);
+	depth_ = other.depth_;
 	g_man_ = graph_manager::get(const_cast<iconnector<T>*>(&other), this);
+	g_man_->copy_update(&other, this);
 }
 
 template <typename T>
@@ -315,7 +317,9 @@ void iconnector<T>::move_helper (iconnector<T>&& other)
 	{
 		g_man_->suicide(this);
 	}
+	depth_ = other.depth_;
 	g_man_ = graph_manager::get(&other, this);
+	g_man_->copy_update(&other, this);
 	if (other.g_man_)
 	{
 		other.g_man_->suicide(&other);
@@ -334,7 +338,7 @@ void iconnector<T>::jacobian_correction (const inode<T>* other)
 	for (auto& jpair : jacobians_)
 	{
 		std::list<std::pair<JTRANSFER<T>,inode<T>*> >& js = jpair.second.list_;
-		if (js.back().second == other)
+		if (false == js.empty() && js.back().second == other)
 		{
 			js.back().second = this;
 		}
@@ -393,7 +397,7 @@ struct iconnector<T>::graph_manager
 		delete other;
 	}
 
-	void add_update (iconnector<T>* dependent, std::function<void(void)> update)
+	void add_update (iconnector<T>* dependent, std::function<void(iconnector<T>*)> update)
 	{
 		// assert dependent is in users_
 		if (false == dependent->pending_)
@@ -405,6 +409,20 @@ struct iconnector<T>::graph_manager
 		}
 	}
 
+	//! dest takes data from source, so it is as outdated as source
+	void copy_update (const iconnector<T>* source, iconnector<T>* dest)
+	{
+		if (false == source->pending_) return;
+		for (const update_info& info : updates_)
+		{
+			if (source == info.first)
+			{
+				add_update(dest, info.second);
+				break;
+			}
+		}
+	}
+
 	void update (void)
 	{
 		// todo: add multithreading
@@ -416,7 +434,7 @@ struct iconnector<T>::graph_manager
 			iconn->pending_ = false;
 			try
 			{
-				current.front().second();
+				current.front().second(iconn);
 				iconn->notify(UPDATE);
 			}
 			catch (...)
@@ -435,7 +453,7 @@ struct iconnector<T>::graph_manager
 	bool freeze_ = false;
 
 private:
-	using update_info = std::pair<iconnector<T>*,std::function<void(void)> >;
+	using update_info = std::pair<iconnector<T>*,std::function<void(iconnector<T>*)> >;
 
 	static bool shallower (const update_info& a, const update_info& b)
 	{
diff --git a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
index 1d10a3a..23a9e9f 100644
--- a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
@@ -159,9 +159,9 @@ void base_immutable<T>::update (std::unordered_set<size_t>)
 		// n-aries are pull update
 		{
 			this->g_man_->add_update(this,
-			[this]
+			[](iconnector<T>* self)
 			{
-				forward_pass();
+				static_cast<base_immutable<T>*>(self)->forward_pass();
 			});
 		}
 		else
-- 
2.43.0


From 465bf2e90e011ab128e747d8b8e6d5132925ec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 07/51] fix: failed tensor allocations are reported and leave
 the tensor as it was

---
 .../graph/connector/immutable/immutable.ipp   |  5 +-
 app/tenncor/src/graph/leaf/constant.ipp       |  5 +-
 app/tenncor/src/graph/leaf/ileaf.ipp          | 13 ++--
 app/tenncor/src/graph/leaf/placeholder.ipp    |  5 +-
 app/tenncor/src/tensor/tensor.ipp             | 75 ++++++++++++++-----
 5 files changed, 74 insertions(+), 29 deletions(-)

diff --git a/app/tenncor/src/graph/connector/immutable/immutable.ipp b/app/tenncor/src/graph/connector/immutable/immutable.ipp
index e0a5432..a11763d 100644
--- a/app/tenncor/src/graph/connector/immutable/immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/immutable.ipp
@@ -165,7 +165,10 @@ void immutable<T>::forward_pass (void)
 		// otherwise allocate data_
 		else
 		{
-			this->data_->allocate(s);
+			if (false == this->data_->allocate(s))
+			{
+				throw std::runtime_error("failed to allocate output of " + this->get_label());
+			}
 		}
 	}
 	// assert none of tens is null
diff --git a/app/tenncor/src/graph/leaf/constant.ipp b/app/tenncor/src/graph/leaf/constant.ipp
index 8b503e2..35b548c 100644
--- a/app/tenncor/src/graph/leaf/constant.ipp
+++ b/app/tenncor/src/graph/leaf/constant.ipp
@@ -87,7 +87,10 @@ constant<T>::constant (std::vector<T> raw, tensorshape shape) :
 		}
 		optional<tensorshape> propershape = this->data_->loosely_guess_shape(raw);
 		assert((bool) propershape);
-		this->data_->allocate(*propershape);
+		if (false == this->data_->allocate(*propershape))
+		{
+			throw std::bad_alloc();
+		}
 	}
 	assert(this->data_->is_alloc());
 	// we should also pad 0s for well defined shapes
diff --git a/app/tenncor/src/graph/leaf/ileaf.ipp b/app/tenncor/src/graph/leaf/ileaf.ipp
index 9d6b49e..a1c97c9 100644
--- a/app/tenncor/src/graph/leaf/ileaf.ipp
+++ b/app/tenncor/src/graph/leaf/ileaf.ipp
@@ -143,17 +143,16 @@ const tensor<T>* ileaf<T>::get_eval (void) const
 template <typename T>
 void ileaf<T>::copy_helper (const ileaf<T>& other)
 {
-	if (data_)
-	{
-		delete data_;
-		data_ = nullptr;
-	}
-	is_init_ = other.is_init_;
+	tensor<T>* data = nullptr;
 	// copy over data if other has good_status (we want to ignore uninitialized data)
 	if (other.data_)
 	{
-		data_ = other.data_->clone(!other.good_status());
+		data = other.data_->clone(!other.good_status());
 	}
+	// replace existing data only once the copy succeeded
+	delete data_;
+	data_ = data;
+	is_init_ = other.is_init_;
 }
 
 template <typename T>
diff --git a/app/tenncor/src/graph/leaf/placeholder.ipp b/app/tenncor/src/graph/leaf/placeholder.ipp
index fcc34bd..7158c4d 100644
--- a/app/tenncor/src/graph/leaf/placeholder.ipp
+++ b/app/tenncor/src/graph/leaf/placeholder.ipp
@@ -65,7 +65,10 @@ placeholder<T>& placeholder<T>::operator = (std::vector<T> data)
 	{
 		if (optional<tensorshape> cand_shape = this->data_->guess_shape(data))
 		{
-			this->data_->allocate(*cand_shape);
+			if (false == this->data_->allocate(*cand_shape))
+			{
+				throw std::bad_alloc();
+			}
 		}
 		// we would reach here if data is empty... (todo: test. currently never reached)
 		else
diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 5cb649c..ef8aae2 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -7,6 +7,7 @@
 //
 
 #include <cstring>
+#include <new>
 #include <functional> // for std::bad_function_call();
 
 #include "memory/alloc_builder.hpp"
@@ -86,6 +87,10 @@ tensor<T>::tensor (tensorshape shape, size_t alloc_id) :
 		alloc_shape_ = shape;
 		this->raw_data_ = alloc_->template allocate<T>(
 			this->alloc_shape_.n_elems());
+		if (nullptr == this->raw_data_)
+		{
+			throw std::bad_alloc();
+		}
 	}
 }
 
@@ -380,6 +385,19 @@ void tensor<T>::set_allocator (size_t alloc_id)
 	if (iallocator* alloc =
 		alloc_builder::get_instance().get(alloc_id))
 	{
+		// existing data must be released by the allocator it came from
+		if (raw_data_ && alloc != alloc_)
+		{
+			size_t ns = alloc_shape_.n_elems();
+			T* temp = alloc->template allocate<T>(ns);
+			if (nullptr == temp)
+			{
+				throw std::bad_alloc();
+			}
+			std::memcpy(temp, raw_data_, sizeof(T) * ns);
+			alloc_->dealloc(raw_data_, ns);
+			raw_data_ = temp;
+		}
 		alloc_ = alloc;
 	}
 	else
@@ -391,6 +409,7 @@ void tensor<T>::set_allocator (size_t alloc_id)
 template <typename T>
 void tensor<T>::set_shape (tensorshape shape)
 {
+	tensorshape prev_allowed = allowed_shape_;
 	// allowed shape update
 	if (false == allowed_shape_.is_compatible_with(shape) || false == is_alloc())
 	{
@@ -412,7 +431,14 @@ void tensor<T>::set_shape (tensorshape shape)
 		}
 		// shape now represent the desired alloc_shape_
 		// reshape by allocate
-		allocate(shape);
+		if (false == allocate(shape) &&
+			shape.is_fully_defined() &&
+			shape.is_compatible_with(allowed_shape_) &&
+			false == shape.is_compatible_with(alloc_shape_))
+		{
+			allowed_shape_ = prev_allowed;
+			throw std::bad_alloc();
+		}
 	}
 }
 
@@ -459,21 +485,21 @@ bool tensor<T>::allocate (const tensorshape shape)
 	if (shape.is_compatible_with(allowed_shape_) &&
 		shape.is_fully_defined())
 	{
+		T* temp = alloc_->template allocate<T>(shape.n_elems());
+		if (nullptr == temp)
+		{
+			return false; // existing data and shape remain as they were
+		}
 		success = true;
 		// dealloc before reallocation
 		if (is_alloc())
 		{
-			T* temp = alloc_->template allocate<T>(shape.n_elems());
 			// move raw_data to temp matching new shape
 			// we want to only copy over the minimum data to lower cost
 			fit_toshape(temp, shape, raw_data_, alloc_shape_);
 			alloc_->dealloc(raw_data_, alloc_shape_.n_elems());
-			raw_data_ = temp;
-		}
-		else
-		{
-			raw_data_ = alloc_->template allocate<T>(shape.n_elems());
 		}
+		raw_data_ = temp;
 		alloc_shape_ = shape;
 	}
 	return success;
@@ -486,6 +512,11 @@ bool tensor<T>::copy_from (const tensor<T>& other, const tensorshape shape)
 	if (other.is_alloc() &&
 		shape.is_fully_defined())
 	{
+		T* temp = alloc_->template allocate<T>(shape.n_elems());
+		if (nullptr == temp)
+		{
+			return false; // existing data and shape remain as they were
+		}
 		// allowed shape update
 		if (!allowed_shape_.is_compatible_with(shape))
 		{
@@ -494,7 +525,6 @@ bool tensor<T>::copy_from (const tensor<T>& other, const tensorshape shape)
 
 		success = true;
 		tensorshape olds = other.get_shape();
-		T* temp = alloc_->template allocate<T>(shape.n_elems());
 		fit_toshape(temp, shape, other.raw_data_, olds);
 		
 		if (is_alloc())
@@ -570,23 +600,30 @@ itensor<T>* tensor<T>::move_impl (void)
 template <typename T>
 void tensor<T>::copy_helper (const tensor<T>& other, bool shapeonly)
 {
-	if (raw_data_)
-	{
-		alloc_->dealloc(raw_data_, alloc_shape_.n_elems());
-		raw_data_ = nullptr;
-	}
-	alloc_ = other.alloc_;
-	alloc_shape_ = other.alloc_shape_;
-	allowed_shape_ = other.allowed_shape_;
+	tensorshape alloc_shape = other.alloc_shape_;
+	tensorshape allowed_shape = other.allowed_shape_;
+	T* temp = nullptr;
 	if (other.is_alloc())
 	{
-		size_t ns = alloc_shape_.n_elems();
-		raw_data_ = alloc_->template allocate<T>(ns);
+		size_t ns = alloc_shape.n_elems();
+		temp = other.alloc_->template allocate<T>(ns);
+		if (nullptr == temp)
+		{
+			throw std::bad_alloc();
+		}
 		if (false == shapeonly)
 		{
-			std::memcpy(raw_data_, other.raw_data_, sizeof(T) * ns);
+			std::memcpy(temp, other.raw_data_, sizeof(T) * ns);
 		}
 	}
+	if (raw_data_)
+	{
+		alloc_->dealloc(raw_data_, alloc_shape_.n_elems());
+	}
+	raw_data_ = temp;
+	alloc_ = other.alloc_;
+	alloc_shape_ = std::move(alloc_shape);
+	allowed_shape_ = std::move(allowed_shape);
 }
 
 template <typename T>
-- 
2.43.0


From 81bc9b160867f2056b93cd6f776c42d08c2c4e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 08/51] fix: tensors read from corrupt protos are refused
 instead of overrunning or aborting

---
 app/tenncor/src/tensor/tensor.ipp | 36 +++++++++++++++++++------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index ef8aae2..1c98dda 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -540,24 +540,32 @@ bool tensor<T>::copy_from (const tensor<T>& other, const tensorshape shape)
 template <typename T>
 bool tensor<T>::from_proto (const tenncor::tensor_proto& other)
 {
-	std::string protostr = other.data();
-	const char* protoraw = protostr.c_str();
-	// shapes must have same dimensionality... (otherwise, input data is definitely corrupt)
-	assert(other.alloc_shape_size() == other.allow_shape_size());
+	const std::string& protostr = other.data();
 	std::vector<size_t> allow(other.allow_shape().begin(), other.allow_shape().end());
 	std::vector<size_t> alloc(other.alloc_shape().begin(), other.alloc_shape().end());
-	allowed_shape_ = tensorshape(allow);
-	tensorshape temp_alloc_shape(alloc);
-	// another sanity check, be less stringent, since this may represent some less evident issue
-	if (false == temp_alloc_shape.is_compatible_with(allowed_shape_) ||
-		false == temp_alloc_shape.is_fully_defined()) return false;
+	tensorshape allowed_shape(allow);
+	tensorshape alloc_shape(alloc);
+	// proto is checked before anything changes, since its content may be corrupt
+	if (false == alloc_shape.is_compatible_with(allowed_shape) ||
+		false == alloc_shape.is_fully_defined()) return false;
+	// data must hold exactly as many elements as the allocated shape
+	size_t ns = 1;
+	for (size_t dim : alloc)
+	{
+		if (dim > protostr.size() / ns) return false;
+		ns *= dim;
+	}
+	if (protostr.size() % sizeof(T) != 0 || protostr.size() / sizeof(T) != ns) return false;
 
-	deallocate();
-	alloc_shape_ = temp_alloc_shape;
-	assert(allocate());
+	T* temp = alloc_->template allocate<T>(ns);
+	if (nullptr == temp) return false;
+	// copy data over from proto
+	std::memcpy(temp, protostr.data(), protostr.size());
 
-	// copy data over from protoraw
-	std::memcpy(raw_data_, protoraw, protostr.size());
+	deallocate();
+	raw_data_ = temp;
+	alloc_shape_ = std::move(alloc_shape);
+	allowed_shape_ = std::move(allowed_shape);
 
 	return true;
 }
-- 
2.43.0


From d9d8d13b722da69d3a6c4bb2dbb6cfe1586a6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 09/51] fix: variable keeps its initializer when copying the
 new one fails

---
 app/tenncor/src/graph/leaf/variable.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/leaf/variable.ipp b/app/tenncor/src/graph/leaf/variable.ipp
index c28ddc5..9ba5b1d 100644
--- a/app/tenncor/src/graph/leaf/variable.ipp
+++ b/app/tenncor/src/graph/leaf/variable.ipp
@@ -43,11 +43,12 @@ variable<T>* variable<T>::move (void)
 template <typename T>
 void variable<T>::set_initializer (const initializer<T>& init)
 {
+	initializer<T>* cloned = init.clone();
 	if (this->init_)
 	{
 		delete this->init_;
 	}
-	this->init_ = init.clone();
+	this->init_ = cloned;
 }
 
 template <typename T>
-- 
2.43.0


From 2e54609f90abc98f45816c964447c9e90268bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 10/51] fix: axial operators stay within their operands

---
 app/tenncor/src/graph/operations/elementary.ipp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 17caa94..54047e3 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -132,12 +132,19 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 				dest[i] = aggregate(srcs[idx][0], srcs[(idx + 1) % 2][i]);
 			}
 		}
+		else if (1 == shapes.ins_[(idx + 1) % 2].n_elems())
+		{
+			for (size_t i = 0; i < n_elems; i++)
+			{
+				dest[i] = aggregate(srcs[idx][i], srcs[(idx + 1) % 2][0]);
+			}
+		}
 		else
 		{
 			for (size_t i = 0; i < n_elems; i++)
 			{
 				size_t axis_idx = i;
-				if (axis == 0 && ilist[axis] != olist[axis])
+				if (axis == 0 && (ilist.size() < olist.size() || ilist[axis] != olist[axis]))
 				{
 					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
 					if (ilist[axis] != olist[axis+1])
-- 
2.43.0


From 6e415a77740849ab997220f3b7925b55e59f7368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 11/51] fix: operators on different scalars no longer share a
 node

---
 app/tenncor/include/utils/utils.hpp           |  4 +++
 .../src/graph/operations/elementary.ipp       |  2 +-
 app/tenncor/src/utils/utils.cpp               | 29 +++++++++++++++++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/include/utils/utils.hpp b/app/tenncor/include/utils/utils.hpp
index 3d84dcd..07120f2 100644
--- a/app/tenncor/include/utils/utils.hpp
+++ b/app/tenncor/include/utils/utils.hpp
@@ -60,6 +60,10 @@ public:
 		return *this;
 	}
 
+	//! real values are written with enough digits to tell them apart
+	formatter& operator << (const double& value);
+	formatter& operator << (const float& value);
+
 	//! overload << operator for vectors
 	//! add values to string delimited by comma
 	template <typename T>
diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 54047e3..82529cf 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1108,7 +1108,7 @@ varptr<T> conditional (T a, const varptr<T> b, std::function<bool(T,T)> compare,
 		}
 		return constant<T>::get(bcvec, bconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << "conditional_" << name << "_" << a;
+	std::string opname = nnutils::formatter() << a << "_conditional_" << name;
 	if (inode<T>* parent = unary_parent_search(b.get(), opname))
 	{
 		return parent;
diff --git a/app/tenncor/src/utils/utils.cpp b/app/tenncor/src/utils/utils.cpp
index b5a3bef..2854606 100644
--- a/app/tenncor/src/utils/utils.cpp
+++ b/app/tenncor/src/utils/utils.cpp
@@ -1,5 +1,7 @@
 #include <atomic>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
 
 #include "utils/utils.hpp"
 
@@ -12,6 +14,33 @@ formatter::formatter (void) {}
 
 formatter::~formatter (void) {}
 
+template <typename T>
+static std::string distinct_real (T value)
+{
+	std::string out;
+	for (int digits = 6; digits <= std::numeric_limits<T>::max_digits10; digits++)
+	{
+		std::stringstream ss;
+		ss.precision(digits);
+		ss << value;
+		out = ss.str();
+		if ((T) std::strtod(out.c_str(), nullptr) == value) break;
+	}
+	return out;
+}
+
+formatter& formatter::operator << (const double& value)
+{
+	stream_ << distinct_real<double>(value);
+	return *this;
+}
+
+formatter& formatter::operator << (const float& value)
+{
+	stream_ << distinct_real<float>(value);
+	return *this;
+}
+
 std::string formatter::str (void) const
 {
 	return stream_.str();
-- 
2.43.0


From 3258669d3fcb08e69486cb29c2307a27c7bc2517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 12/51] fix: asking a frozen connector for its shape does not
 update it

---
 app/tenncor/src/graph/connector/immutable/base_immutable.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
index 23a9e9f..2a10f4c 100644
--- a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
@@ -97,7 +97,7 @@ void base_immutable<T>::temporary_eval (const iconnector<T>* target, inode<T>*&
 template <typename T>
 tensorshape base_immutable<T>::get_shape (void) const
 {
-	if (this->g_man_) this->g_man_->update();
+	if (this->g_man_ && false == this->g_man_->freeze_) this->g_man_->update();
 	if (nullptr == data_)
 	{
 		return tensorshape();
-- 
2.43.0


From 77a27e3fe0f92a602e2c6073405f4f9c69462779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 13/51] fix: axial operators map trailing unit dimensions along
 axis 0

---
 app/tenncor/src/graph/operations/elementary.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 82529cf..4d8c7ae 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -144,7 +144,7 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 			for (size_t i = 0; i < n_elems; i++)
 			{
 				size_t axis_idx = i;
-				if (axis == 0 && (ilist.size() < olist.size() || ilist[axis] != olist[axis]))
+				if (axis == 0 && shapes.ins_[idx].n_elems() < n_elems)
 				{
 					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
 					if (ilist[axis] != olist[axis+1])
-- 
2.43.0


From f75d4b535325ecca202c3db03333a1a634ff217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 14/51] fix: jacobians follow a connector that is moved

---
 app/tenncor/src/graph/connector/iconnector.ipp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 617c4d7..e7722bd 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -320,6 +320,7 @@ void iconnector<T>::move_helper (iconnector<T>&& other)
 	depth_ = other.depth_;
 	g_man_ = graph_manager::get(&other, this);
 	g_man_->copy_update(&other, this);
+	g_man_->moved_origin(&other, this);
 	if (other.g_man_)
 	{
 		other.g_man_->suicide(&other);
@@ -397,6 +398,21 @@ struct iconnector<T>::graph_manager
 		delete other;
 	}
 
+	//! jacobians taken at source are now taken at dest
+	void moved_origin (iconnector<T>* source, iconnector<T>* dest)
+	{
+		for (iconnector<T>* user : users_)
+		{
+			for (auto& jpair : user->jacobians_)
+			{
+				for (auto& jac : jpair.second.list_)
+				{
+					if (jac.second == source) jac.second = dest;
+				}
+			}
+		}
+	}
+
 	void add_update (iconnector<T>* dependent, std::function<void(iconnector<T>*)> update)
 	{
 		// assert dependent is in users_
-- 
2.43.0


From 0600c44f354bcdfa75513bb34c473f25b224f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 15/51] fix: moving an unmanaged node no longer destroys it
 midway

---
 app/tenncor/src/graph/react/subject.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/tenncor/src/graph/react/subject.cpp b/app/tenncor/src/graph/react/subject.cpp
index fc298da..5baf710 100644
--- a/app/tenncor/src/graph/react/subject.cpp
+++ b/app/tenncor/src/graph/react/subject.cpp
@@ -47,6 +47,8 @@ subject& subject::operator = (subject&& other)
 	if (this != &other)
 	{
 		std::unordered_map<iobserver*, std::unordered_set<size_t> > temp = other.audience_;
+		// an unmanaged other must outlive the move, even once its last observer left
+		other.audience_[nullptr];
 		for (auto& audpair : temp)
 		{
 			iobserver* aud = audpair.first;
@@ -136,6 +138,8 @@ subject::subject (const subject&) {}
 subject::subject (subject&& other)
 {
 	std::unordered_map<iobserver*, std::unordered_set<size_t> > temp = other.audience_;
+	// an unmanaged other must outlive the move, even once its last observer left
+	other.audience_[nullptr];
 	for (auto& audpair : temp)
 	{
 		iobserver* aud = audpair.first;
-- 
2.43.0


From 2c51e46c773b2aa35323683f8754ad9aec180691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 16/51] fix: observers with empty argument positions can be
 destroyed and copied

---
 app/tenncor/src/graph/react/iobserver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index 5e9ca90..09e0970 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -15,8 +15,8 @@ namespace nnet
 
 iobserver::~iobserver (void)
 {
-	size_t ndeps = dependencies_.size();
-	for (size_t i = 0; i < ndeps; i++)
+	// removing a dependency also trims trailing empty positions
+	for (size_t i = 0; i < dependencies_.size(); i++)
 	{
 		remove_dependency(i);
 	}
@@ -178,7 +178,7 @@ void iobserver::copy_helper (const iobserver& other)
 	dependencies_.clear();
 	for (subject* dep : other.dependencies_)
 	{
-		if (dep) add_dependency(dep);
+		add_dependency(dep); // keep empty positions, argument order matters
 	}
 }
 
-- 
2.43.0


From 312a556acf30f74858c41fd0b366a2b3e7ee236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 17/51] fix: move assignment of nodes carries their observers
 over

---
 app/tenncor/src/graph/inode.ipp      | 2 +-
 app/tenncor/src/graph/leaf/ileaf.ipp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/inode.ipp b/app/tenncor/src/graph/inode.ipp
index 78e47fb..9721e3b 100644
--- a/app/tenncor/src/graph/inode.ipp
+++ b/app/tenncor/src/graph/inode.ipp
@@ -42,7 +42,7 @@ inode<T>& inode<T>::operator = (inode<T>&& other)
 {
 	if (this != &other)
 	{
-		subject::operator = (other);
+		subject::operator = (std::move(other));
 		label_ = std::move(other.label_);
 	}
 	return *this;
diff --git a/app/tenncor/src/graph/leaf/ileaf.ipp b/app/tenncor/src/graph/leaf/ileaf.ipp
index a1c97c9..a629c82 100644
--- a/app/tenncor/src/graph/leaf/ileaf.ipp
+++ b/app/tenncor/src/graph/leaf/ileaf.ipp
@@ -46,7 +46,7 @@ ileaf<T>& ileaf<T>::operator = (ileaf<T>&& other)
 {
 	if (this != &other)
 	{
-		inode<T>::operator = (other);
+		inode<T>::operator = (std::move(other));
 		move_helper(std::move(other));
 		this->notify(UPDATE); // content changed
 	}
-- 
2.43.0


From dc44112bba19c0cba90bcda2b6e54da3b73fc43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 18/51] fix: clearing an empty node handle does nothing

---
 app/tenncor/src/graph/varptr.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/varptr.ipp b/app/tenncor/src/graph/varptr.ipp
index a3255b9..7e7883c 100644
--- a/app/tenncor/src/graph/varptr.ipp
+++ b/app/tenncor/src/graph/varptr.ipp
@@ -47,7 +47,11 @@ template <typename T>
 void varptr<T>::update (std::unordered_set<size_t>) {}
 
 template <typename T>
-void varptr<T>::clear (void) { this->remove_dependency(0); }
+void varptr<T>::clear (void)
+{
+	if (false == this->dependencies_.empty())
+		this->remove_dependency(0);
+}
 
 template <typename T>
 void varptr<T>::death_on_broken (void)
-- 
2.43.0


From ce01069e4f4cd78136ff68cf63c1070ed42a3cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 19/51] fix: gradients follow a leaf that is moved

---
 .../connector/immutable/base_immutable.hpp    |  3 ++
 app/tenncor/include/graph/inode.hpp           |  3 ++
 .../connector/immutable/base_immutable.ipp    | 43 +++++++++++++++++++
 app/tenncor/src/graph/inode.ipp               | 12 ++++++
 app/tenncor/src/graph/leaf/ileaf.ipp          |  2 +
 5 files changed, 63 insertions(+)

diff --git a/app/tenncor/include/graph/connector/immutable/base_immutable.hpp b/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
index 4913123..2547d8f 100644
--- a/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
+++ b/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
@@ -104,6 +104,9 @@ protected:
 	//! delay instantiate gcache elements if target leaf was never instantiated
 	virtual inode<T>* get_gradient (variable<T>* leaf);
 
+	//! replace moved leaf in the leaf set, caches and jacobians
+	virtual void leaf_moved (ileaf<T>* from, ileaf<T>* to);
+
 	// >>>> FORWARD & BACKWARD <<<<
 	//! forward pass step: populate data_
 	virtual void forward_pass (void) = 0;
diff --git a/app/tenncor/include/graph/inode.hpp b/app/tenncor/include/graph/inode.hpp
index 1475287..9594493 100644
--- a/app/tenncor/include/graph/inode.hpp
+++ b/app/tenncor/include/graph/inode.hpp
@@ -141,6 +141,9 @@ protected:
 	//! allow inheritants to access source's get_gradient with parameter leaf
 	inode<T>* take_gradient (inode<T>* source, variable<T>* leaf) const;
 
+	//! leaf from has been moved to leaf to: tell every node computed from it
+	virtual void leaf_moved (ileaf<T>* from, ileaf<T>* to);
+
 private:
 	//! describes this node's purpose
 	std::string label_;
diff --git a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
index 2a10f4c..c536ae3 100644
--- a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
@@ -231,6 +231,49 @@ inode<T>* base_immutable<T>::get_gradient (variable<T>* leaf)
 	return gcache_[leaf];
 }
 
+template <typename T>
+void base_immutable<T>::leaf_moved (ileaf<T>* from, ileaf<T>* to)
+{
+	auto it = gcache_.find(from);
+	if (gcache_.end() == it)
+	{
+		return; // not computed from moved leaf, or already told
+	}
+	varptr<T> grad = it->second;
+	gcache_.erase(it);
+	bool merge = gcache_.end() != gcache_.find(to);
+	// depending on both leaves invalidates gradients of either
+	if (merge) gcache_[to] = nullptr;
+	else gcache_[to] = grad.get();
+
+	variable<T>* fromvar = static_cast<variable<T>*>(from);
+	auto jit = this->jacobians_.find(fromvar);
+	if (this->jacobians_.end() != jit)
+	{
+		auto j = jit->second;
+		this->jacobians_.erase(jit);
+		variable<T>* tovar = static_cast<variable<T>*>(to);
+		auto tit = this->jacobians_.find(tovar);
+		if (this->jacobians_.end() == tit)
+		{
+			this->jacobians_[tovar] = j;
+		}
+		else
+		{
+			// jacobians of different origins can't be shared
+			auto& tlist = tit->second.list_;
+			if (j.terminal_ || j.list_.size() != tlist.size() ||
+				false == std::equal(j.list_.begin(), j.list_.end(), tlist.begin(),
+				[](const auto& a, const auto& b) { return a.second == b.second; }))
+			{
+				tit->second.terminal_ = true;
+				tlist.clear();
+			}
+		}
+	}
+	inode<T>::leaf_moved(from, to);
+}
+
 template <typename T>
 void base_immutable<T>::copy_helper (const base_immutable& other)
 {
diff --git a/app/tenncor/src/graph/inode.ipp b/app/tenncor/src/graph/inode.ipp
index 9721e3b..5fb1469 100644
--- a/app/tenncor/src/graph/inode.ipp
+++ b/app/tenncor/src/graph/inode.ipp
@@ -89,6 +89,18 @@ bool inode<T>::find_audience (std::string label, std::unordered_set<inode<T>*>&
 	return false == audience.empty();
 }
 
+template <typename T>
+void inode<T>::leaf_moved (ileaf<T>* from, ileaf<T>* to)
+{
+	for (auto audpair : audience_)
+	{
+		if (inode<T>* aud = dynamic_cast<inode<T>*>(audpair.first))
+		{
+			aud->leaf_moved(from, to);
+		}
+	}
+}
+
 template <typename T>
 void inode<T>::set_metadata (std::string key, size_t value)
 {
diff --git a/app/tenncor/src/graph/leaf/ileaf.ipp b/app/tenncor/src/graph/leaf/ileaf.ipp
index a629c82..e5ee17f 100644
--- a/app/tenncor/src/graph/leaf/ileaf.ipp
+++ b/app/tenncor/src/graph/leaf/ileaf.ipp
@@ -165,6 +165,8 @@ void ileaf<T>::move_helper (ileaf<T>&& other)
 	is_init_ = std::move(other.is_init_);
 	data_ = std::move(other.data_);
 	other.data_ = nullptr;
+	// gradients of other are gradients of this from here on
+	this->leaf_moved(&other, this);
 }
 
 }
-- 
2.43.0


From 245e7c26cf6eb76211c00443da47ba449249fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 20/51] fix: saving replaces the model file only once
 everything reached the disk

write_inorder truncated the file before writing, did not notice errors of the
final flush, and started a new file whenever the existing one could not be
opened.
---
 app/tenncor/include/memory/tensor_io.hpp | 13 ++++
 app/tenncor/src/memory/tensor_io.cpp     | 78 ++++++++++++++++++++++++
 app/tenncor/src/memory/tensor_io.ipp     | 48 ++++++++++-----
 3 files changed, 124 insertions(+), 15 deletions(-)
 create mode 100644 app/tenncor/src/memory/tensor_io.cpp

diff --git a/app/tenncor/include/memory/tensor_io.hpp b/app/tenncor/include/memory/tensor_io.hpp
index ce2c338..8138b08 100644
--- a/app/tenncor/include/memory/tensor_io.hpp
+++ b/app/tenncor/include/memory/tensor_io.hpp
@@ -22,10 +22,23 @@
 
 namespace nnet {
 
+//! read the entire content of file, missing is set if there is no such file
+//! returns false if the file exists but can not be read
+bool read_file (std::string& content, bool& missing, const std::string& fname);
+
+//! replace the content of file
+//! if the replacement fails or is interrupted, the file keeps its previous content
+//! returns true only if content has reached the disk
+bool replace_file (const std::string& content, const std::string& fname);
+
 //! write inodes in order of serialvec by referencing protobuf objects labeled with <label + ":" + serialvec index>
 template<typename T>
 bool write_inorder (std::vector<inode<T>*>& serialvec, std::string label, std::string fname = "default.pbx");
 
+//! write several vectors of inodes, each under its own label, all of them or (if writing fails) none
+template<typename T>
+bool write_inorder (std::vector<std::pair<std::string,std::vector<inode<T>*> > >& serialgroups, std::string fname);
+
 //! read inodes in order of deserialvec by referencing protobuf objects labeled with <label + ":" + deserialvec index>
 //! returns false if fname is not a protobuf parsable file
 //! nodes not found in serialized file will be found in deserialvec, otherwise found nodes are removed
diff --git a/app/tenncor/src/memory/tensor_io.cpp b/app/tenncor/src/memory/tensor_io.cpp
new file mode 100644
index 0000000..9b2ad1f
--- /dev/null
+++ b/app/tenncor/src/memory/tensor_io.cpp
@@ -0,0 +1,78 @@
+//
+//  tensor_io.cpp
+//  cnnet
+//
+
+#include <cerrno>
+#include <cstdio>
+
+#include <fcntl.h>
+#include <unistd.h>
+
+#include "memory/tensor_io.hpp"
+
+#ifdef TENNCOR_WRITER_HPP
+
+namespace nnet
+{
+
+bool read_file (std::string& content, bool& missing, const std::string& fname)
+{
+	content.clear();
+	missing = false;
+	int fd = open(fname.c_str(), O_RDONLY | O_CLOEXEC);
+	if (fd < 0)
+	{
+		missing = ENOENT == errno;
+		return missing;
+	}
+	char buffer[8192];
+	ssize_t n;
+	while ((n = read(fd, buffer, sizeof(buffer))) > 0 || (n < 0 && EINTR == errno))
+	{
+		if (n > 0) content.append(buffer, n);
+	}
+	close(fd);
+	return 0 == n;
+}
+
+static bool write_fully (int fd, const std::string& content)
+{
+	size_t written = 0;
+	while (written < content.size())
+	{
+		ssize_t n = write(fd, content.data() + written, content.size() - written);
+		if (n < 0 && EINTR == errno) continue;
+		if (n <= 0) return false;
+		written += n;
+	}
+	return 0 == fsync(fd);
+}
+
+bool replace_file (const std::string& content, const std::string& fname)
+{
+	// write aside, so fname always names a complete file
+	std::string tempname = fname + ".tmp";
+	int fd = open(tempname.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0666);
+	if (fd < 0) return false;
+	bool success = write_fully(fd, content);
+	success = 0 == close(fd) && success;
+	if (false == success || 0 != std::rename(tempname.c_str(), fname.c_str()))
+	{
+		unlink(tempname.c_str());
+		return false;
+	}
+
+	// the new name must reach the disk too
+	size_t dirlen = fname.find_last_of('/');
+	std::string dir = std::string::npos == dirlen ? "." : fname.substr(0, dirlen + 1);
+	int dirfd = open(dir.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
+	if (dirfd < 0) return false;
+	success = 0 == fsync(dirfd);
+	close(dirfd);
+	return success;
+}
+
+}
+
+#endif
diff --git a/app/tenncor/src/memory/tensor_io.ipp b/app/tenncor/src/memory/tensor_io.ipp
index b144dc3..f426988 100644
--- a/app/tenncor/src/memory/tensor_io.ipp
+++ b/app/tenncor/src/memory/tensor_io.ipp
@@ -13,39 +13,56 @@ namespace nnet
 
 template <typename T>
 bool write_inorder (std::vector<inode<T>*>& serialvec, std::string label, std::string fname)
+{
+	std::vector<std::pair<std::string,std::vector<inode<T>*> > > serialgroups = {{label, serialvec}};
+	return write_inorder<T>(serialgroups, fname);
+}
+
+template <typename T>
+bool write_inorder (std::vector<std::pair<std::string,std::vector<inode<T>*> > >& serialgroups, std::string fname)
 {
 	GOOGLE_PROTOBUF_VERIFY_VERSION;
 	tenncor::repository repo;
 
 	{
 		// Read the existing address book.
-		std::fstream input(fname, std::ios::in | std::ios::binary);
-		if (!input)
+		std::string content;
+		bool missing = false;
+		if (!read_file(content, missing, fname))
+		{
+			std::cerr << "Failed to read tenncor repository." << std::endl;
+			return false;
+		}
+		if (missing)
 		{
 			std::cout << fname << ": File not found. Creating a new file." << std::endl;
 		}
-		else if (!repo.ParseFromIstream(&input))
+		else if (!repo.ParseFromString(content))
 		{
 			std::cerr << "Failed to parse tenncor repository." << std::endl;
 			return false;
 		}
 	}
 
-	for (size_t i = 0, n = serialvec.size(); i < n; i++)
+	for (std::pair<std::string,std::vector<inode<T>*> >& group : serialgroups)
 	{
-		std::string node_label = label + ":" + std::to_string(i);
-		nnet::inode<T>* serialelem = serialvec[i];
-		tenncor::tensor_proto proto;
-		const nnet::tensor<T>* serialtens = serialelem->eval();
-		if (nullptr == serialtens) continue; // we can't serialize something not initialized
-		serialtens->serialize(&proto);
-		(*repo.mutable_node_map())[node_label] = proto;
+		for (size_t i = 0, n = group.second.size(); i < n; i++)
+		{
+			std::string node_label = group.first + ":" + std::to_string(i);
+			nnet::inode<T>* serialelem = group.second[i];
+			tenncor::tensor_proto proto;
+			const nnet::tensor<T>* serialtens = serialelem->eval();
+			if (nullptr == serialtens) continue; // we can't serialize something not initialized
+			serialtens->serialize(&proto);
+			(*repo.mutable_node_map())[node_label] = proto;
+		}
 	}
 
 	{
 		// Write the new address book back to disk.
-		std::fstream output(fname, std::ios::out | std::ios::trunc | std::ios::binary);
-		if (!repo.SerializeToOstream(&output)) {
+		std::string content;
+		if (!repo.SerializeToString(&content) || !replace_file(content, fname))
+		{
 			std::cerr << "Failed to write address book." << std::endl;
 			return false;
 		}
@@ -64,8 +81,9 @@ bool read_inorder (std::vector<inode<T>*>& deserialvec, std::string label, std::
 	tenncor::repository repo;
 
 	{
-		std::fstream input(fname, std::ios::in | std::ios::binary);
-		if (!repo.ParseFromIstream(&input))
+		std::string content;
+		bool missing = false;
+		if (!read_file(content, missing, fname) || missing || !repo.ParseFromString(content))
 		{
 			return false;
 		}
-- 
2.43.0


From 121439fb59c7c29b82ce1cdf20238aa2c1d0f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 21/51] fix: dq_net saves its networks in one write

---
 app/rocnnet/src/models/dq_net.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index 61d6a27..a2e46f7 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -171,9 +171,14 @@ void dq_net::initialize (std::string serialname, std::string readscope)
 bool dq_net::save (std::string fname, std::string writescope) const
 {
 	if (writescope.empty()) writescope = scope_;
-	bool source_save = source_qnet_->save(fname, writescope);
-	bool target_save = target_qnet_->save(fname, "target_" + writescope);
-	return source_save && target_save;
+	std::vector<nnet::variable<double>*> source_vars = source_qnet_->get_variables();
+	std::vector<nnet::variable<double>*> target_vars = target_qnet_->get_variables();
+	// both networks are saved or none is
+	std::vector<std::pair<std::string,std::vector<nnet::inode<double>*> > > groups = {
+		{writescope, std::vector<nnet::inode<double>*>(source_vars.begin(), source_vars.end())},
+		{"target_" + writescope, std::vector<nnet::inode<double>*>(target_vars.begin(), target_vars.end())}
+	};
+	return nnet::write_inorder<double>(groups, fname);
 }
 
 void dq_net::tear_down (void)
-- 
2.43.0


From 0246fe327af0f01aa044ef178a72b9fa0008672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:24 +0000
Subject: [PATCH 22/51] fix: leaves refuse content saved for another shape

---
 app/tenncor/include/tensor/tensor.hpp |  4 ++++
 app/tenncor/src/graph/leaf/ileaf.ipp  |  3 ++-
 app/tenncor/src/tensor/tensor.ipp     | 11 +++++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/include/tensor/tensor.hpp b/app/tenncor/include/tensor/tensor.hpp
index a0882c1..c8d4683 100644
--- a/app/tenncor/include/tensor/tensor.hpp
+++ b/app/tenncor/include/tensor/tensor.hpp
@@ -109,6 +109,10 @@ public:
 	//! data is loosely compatible if data.size() < (innate or external) shape size
 	bool is_loosely_compatible_with (std::vector<T> data) const;
 
+	//! check if proto was taken from a tensor of the same allowed (innate) shape,
+	//! or its data has a shape that allowed shape describes
+	bool is_allowed (const tenncor::tensor_proto& proto) const;
+
 	//! return compatible shape with n_elems == data.size()
 	//! or undefined if compatibility is impossible
 	// implementation detail:
diff --git a/app/tenncor/src/graph/leaf/ileaf.ipp b/app/tenncor/src/graph/leaf/ileaf.ipp
index e5ee17f..60c965e 100644
--- a/app/tenncor/src/graph/leaf/ileaf.ipp
+++ b/app/tenncor/src/graph/leaf/ileaf.ipp
@@ -102,7 +102,8 @@ bool ileaf<T>::good_status (void) const
 template <typename T>
 bool ileaf<T>::read_proto (const tenncor::tensor_proto& proto)
 {
-	bool success = data_->from_proto(proto);
+	// content saved for a leaf of another shape is not for this leaf
+	bool success = data_->is_allowed(proto) && data_->from_proto(proto);
 	if (success)
 	{
 		is_init_ = true;
diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 1c98dda..5fe1b93 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -235,6 +235,17 @@ bool tensor<T>::is_loosely_compatible_with (std::vector<T> data) const
 	return compatible;
 }
 
+template <typename T>
+bool tensor<T>::is_allowed (const tenncor::tensor_proto& proto) const
+{
+	std::vector<size_t> allowed = allowed_shape_.as_list();
+	std::vector<size_t> allow(proto.allow_shape().begin(), proto.allow_shape().end());
+	if (allowed.empty() || allowed == allow) return true;
+	std::vector<size_t> alloc(proto.alloc_shape().begin(), proto.alloc_shape().end());
+	return std::equal(allowed.begin(), allowed.end(), alloc.begin(), alloc.end(),
+	[](size_t mine, size_t other) { return 0 == mine || mine == other; });
+}
+
 template <typename T>
 optional<tensorshape> tensor<T>::guess_shape (const std::vector<T>& data) const
 {
-- 
2.43.0


From 8077981e15ce1eda90cf64df173b3774a1dc8bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 23/51] fix: saving and loading leave the protobuf library
 usable

---
 app/tenncor/src/memory/tensor_io.ipp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/app/tenncor/src/memory/tensor_io.ipp b/app/tenncor/src/memory/tensor_io.ipp
index f426988..027af28 100644
--- a/app/tenncor/src/memory/tensor_io.ipp
+++ b/app/tenncor/src/memory/tensor_io.ipp
@@ -68,7 +68,6 @@ bool write_inorder (std::vector<std::pair<std::string,std::vector<inode<T>*> > >
 		}
 	}
 
-	google::protobuf::ShutdownProtobufLibrary();
 	return true;
 }
 
@@ -110,8 +109,6 @@ bool read_inorder (std::vector<inode<T>*>& deserialvec, std::string label, std::
 	}
 	deserialvec = unfound;
 
-	google::protobuf::ShutdownProtobufLibrary();
-
 	return true;
 }
 
-- 
2.43.0


From 781a4a26c5d5142e4710440485bce5a75468599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 24/51] fix: corrupted contents of a model file are not loaded

---
 app/tenncor/include/memory/tensor_io.hpp |  7 +++++
 app/tenncor/proto/serial/tenncor.proto   |  1 +
 app/tenncor/src/memory/tensor_io.cpp     | 36 ++++++++++++++++++++++++
 app/tenncor/src/memory/tensor_io.ipp     |  4 ++-
 4 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/include/memory/tensor_io.hpp b/app/tenncor/include/memory/tensor_io.hpp
index 8138b08..15659ae 100644
--- a/app/tenncor/include/memory/tensor_io.hpp
+++ b/app/tenncor/include/memory/tensor_io.hpp
@@ -31,6 +31,13 @@ bool read_file (std::string& content, bool& missing, const std::string& fname);
 //! returns true only if content has reached the disk
 bool replace_file (const std::string& content, const std::string& fname);
 
+//! checksum of a labelled tensor, never 0
+uint64_t tensor_checksum (const std::string& node_label, const tenncor::tensor_proto& proto);
+
+//! check that proto is what was stored under node_label
+//! (tensors stored without checksum can't be checked)
+bool is_intact (const std::string& node_label, const tenncor::tensor_proto& proto);
+
 //! write inodes in order of serialvec by referencing protobuf objects labeled with <label + ":" + serialvec index>
 template<typename T>
 bool write_inorder (std::vector<inode<T>*>& serialvec, std::string label, std::string fname = "default.pbx");
diff --git a/app/tenncor/proto/serial/tenncor.proto b/app/tenncor/proto/serial/tenncor.proto
index c6307b7..59a2e4d 100644
--- a/app/tenncor/proto/serial/tenncor.proto
+++ b/app/tenncor/proto/serial/tenncor.proto
@@ -6,6 +6,7 @@ message tensor_proto {
 	bytes data = 1;
 	repeated uint64 allow_shape = 2;
 	repeated uint64 alloc_shape = 3;
+	fixed64 checksum = 4; // of a tensor stored in a repository, 0 in files without checksums
 }
 
 message repository {
diff --git a/app/tenncor/src/memory/tensor_io.cpp b/app/tenncor/src/memory/tensor_io.cpp
index 9b2ad1f..4ab8ded 100644
--- a/app/tenncor/src/memory/tensor_io.cpp
+++ b/app/tenncor/src/memory/tensor_io.cpp
@@ -73,6 +73,42 @@ bool replace_file (const std::string& content, const std::string& fname)
 	return success;
 }
 
+// FNV-1a
+static void hash_bytes (uint64_t& hash, const std::string& bytes)
+{
+	for (unsigned char c : bytes)
+	{
+		hash = (hash ^ c) * 1099511628211ull;
+	}
+}
+
+static void hash_shape (uint64_t& hash, const google::protobuf::RepeatedField<uint64_t>& shape)
+{
+	std::string dims = std::to_string(shape.size());
+	for (uint64_t dim : shape)
+	{
+		dims += "," + std::to_string(dim);
+	}
+	hash_bytes(hash, dims + ";");
+}
+
+uint64_t tensor_checksum (const std::string& node_label, const tenncor::tensor_proto& proto)
+{
+	uint64_t hash = 14695981039346656037ull;
+	hash_bytes(hash, node_label + ";");
+	hash_shape(hash, proto.allow_shape());
+	hash_shape(hash, proto.alloc_shape());
+	hash_bytes(hash, proto.data());
+	return 0 == hash ? 1 : hash;
+}
+
+bool is_intact (const std::string& node_label, const tenncor::tensor_proto& proto)
+{
+	// fields that were never written result from corruption
+	if (false == proto.GetReflection()->GetUnknownFields(proto).empty()) return false;
+	return 0 == proto.checksum() || tensor_checksum(node_label, proto) == proto.checksum();
+}
+
 }
 
 #endif
diff --git a/app/tenncor/src/memory/tensor_io.ipp b/app/tenncor/src/memory/tensor_io.ipp
index 027af28..e46694a 100644
--- a/app/tenncor/src/memory/tensor_io.ipp
+++ b/app/tenncor/src/memory/tensor_io.ipp
@@ -54,6 +54,7 @@ bool write_inorder (std::vector<std::pair<std::string,std::vector<inode<T>*> > >
 			const nnet::tensor<T>* serialtens = serialelem->eval();
 			if (nullptr == serialtens) continue; // we can't serialize something not initialized
 			serialtens->serialize(&proto);
+			proto.set_checksum(tensor_checksum(node_label, proto));
 			(*repo.mutable_node_map())[node_label] = proto;
 		}
 	}
@@ -101,7 +102,8 @@ bool read_inorder (std::vector<inode<T>*>& deserialvec, std::string label, std::
 			// warn
 			unfound.push_back(deserelem);
 		}
-		else if (false == deserelem->read_proto(it->second))
+		else if (false == is_intact(node_label, it->second) ||
+			false == deserelem->read_proto(it->second))
 		{
 			// warn2
 			unfound.push_back(deserelem);
-- 
2.43.0


From 06c9cfa6e9b69b2e687b097608b2b2247ef4d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:09 +0000
Subject: [PATCH 25/51] fix: rmsprop momentum accumulates

---
 app/tenncor/src/utils/gd_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/src/utils/gd_utils.cpp b/app/tenncor/src/utils/gd_utils.cpp
index 2da02d5..3db94eb 100644
--- a/app/tenncor/src/utils/gd_utils.cpp
+++ b/app/tenncor/src/utils/gd_utils.cpp
@@ -230,6 +230,8 @@ variable_updater<double> rmspropupdater::process_update (varptr<double>& gres,
 	{
 		momentum_update(false);
 		leaf_update(notify);
+		// leaf's step has been taken, so the next one can observe the new momentum
+		momentum->notify(UPDATE);
 	};
 }
 
-- 
2.43.0


From 500eeed25a5e1fdac8ebc521b253d431da5f2d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:09 +0000
Subject: [PATCH 26/51] fix: clip_norm clips by the norm of all elements, and
 only above the cap

---
 app/tenncor/src/graph/operations/elementary.ipp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 4d8c7ae..aa8326d 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1013,7 +1013,7 @@ varptr<T> l2norm (const varptr<T> a)
 		{
 			l2norm += acv * acv;
 		}
-		return constant<T>::get(l2norm);
+		return constant<T>::get(std::sqrt(l2norm));
 	}
 	std::string opname = "l2norm";
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
@@ -1026,7 +1026,7 @@ varptr<T> l2norm (const varptr<T> a)
 	[](T* dest, std::vector<const T*> src, shape_io shape)
 	{
 		assert(1 == src.size());
-		size_t n_elems = shape.outs_.n_elems();
+		size_t n_elems = shape.ins_[0].n_elems();
 		// l2norm = sqrt(sum_i=0:n(sqr(xi)))
 		dest[0] = std::sqrt(std::accumulate(src[0], src[0] + n_elems, (T) 0,
 		[](const T left, const T right)
@@ -1056,6 +1056,7 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		{
 			l2norm += acv * acv;
 		}
+		l2norm = std::sqrt(l2norm);
 		for (T& acv : acvec)
 		{
 			if (l2norm > cap)
@@ -1082,7 +1083,7 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		std::transform(srcs[1], srcs[1] + n_out, dest,
 		[cap, l2norm](const T data)
 		{
-			return data * cap / l2norm;
+			return l2norm > cap ? data * cap / l2norm : data;
 		});
 	}),
 	[cap](std::vector<std::pair<inode<T>*,inode<T>*> > args)
-- 
2.43.0


From 175f2c4a6c92a7575165a1d42f964ba8033ad280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:09 +0000
Subject: [PATCH 27/51] fix: training steps that throw do not leave the model
 frozen

---
 app/rocnnet/src/models/db_net.cpp | 12 ++++++++++--
 app/rocnnet/src/models/dq_net.cpp | 12 ++++++++++--
 app/rocnnet/src/models/gd_net.cpp | 12 ++++++++++--
 app/rocnnet/src/models/rbm.cpp    | 12 ++++++++++--
 4 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/app/rocnnet/src/models/db_net.cpp b/app/rocnnet/src/models/db_net.cpp
index c531ba3..dfab499 100644
--- a/app/rocnnet/src/models/db_net.cpp
+++ b/app/rocnnet/src/models/db_net.cpp
@@ -118,9 +118,17 @@ update_cost_t db_net::build_finetune_functions (
 	return {[uvec, ft_cost_icon](bool)
 	{
 		ft_cost_icon->freeze_status(true); // freeze
-		for (nnet::variable_updater<double> trainer : uvec)
+		try
 		{
-			trainer(true);
+			for (nnet::variable_updater<double> trainer : uvec)
+			{
+				trainer(true);
+			}
+		}
+		catch (...)
+		{
+			ft_cost_icon->freeze_status(false); // never stay frozen
+			throw;
 		}
 		ft_cost_icon->freeze_status(false); // update again
 	}, error};
diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index a2e46f7..df0c77a 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -146,9 +146,17 @@ void dq_net::train (void)
 
 		prediction_error_->freeze_status(true); // freeze
 		// update source
-		for (auto& trainer : source_updates_)
+		try
 		{
-			trainer(true);
+			for (auto& trainer : source_updates_)
+			{
+				trainer(true);
+			}
+		}
+		catch (...)
+		{
+			prediction_error_->freeze_status(false); // never stay frozen
+			throw;
 		}
 		prediction_error_->freeze_status(false); // update again
 		// update target
diff --git a/app/rocnnet/src/models/gd_net.cpp b/app/rocnnet/src/models/gd_net.cpp
index 8f9f786..68a4e8d 100644
--- a/app/rocnnet/src/models/gd_net.cpp
+++ b/app/rocnnet/src/models/gd_net.cpp
@@ -80,9 +80,17 @@ void gd_net::train (std::vector<double>& train_in, std::vector<double>& expected
 	*train_in_ = train_in;
 	*expected_out_ = expected_out;
 	error_->freeze_status(true); // freeze
-	for (auto& trainer : updates_)
+	try
 	{
-		trainer(true);
+		for (auto& trainer : updates_)
+		{
+			trainer(true);
+		}
+	}
+	catch (...)
+	{
+		error_->freeze_status(false); // never stay frozen
+		throw;
 	}
 	error_->freeze_status(false); // update again
 }
diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index 10052e8..f7dfcfd 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -167,9 +167,17 @@ update_cost_t rbm::train (
 	return { [uvec, cost_icon](bool)
 	{
 		cost_icon->freeze_status(true); // freeze
-		for (nnet::variable_updater<double> trainer : uvec)
+		try
 		{
-			trainer(true);
+			for (nnet::variable_updater<double> trainer : uvec)
+			{
+				trainer(true);
+			}
+		}
+		catch (...)
+		{
+			cost_icon->freeze_status(false); // never stay frozen
+			throw;
 		}
 		cost_icon->freeze_status(false); // update again
 	}, monitoring_cost };
-- 
2.43.0


From af50480580d32e4f5f05604a02ed3efbbe122412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 28/51] fix: moved gd_net continues where its source was

---
 app/rocnnet/src/models/gd_net.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/app/rocnnet/src/models/gd_net.cpp b/app/rocnnet/src/models/gd_net.cpp
index 68a4e8d..aaea8ec 100644
--- a/app/rocnnet/src/models/gd_net.cpp
+++ b/app/rocnnet/src/models/gd_net.cpp
@@ -120,7 +120,7 @@ void gd_net::setup (void)
 
 void gd_net::copy_helper (const gd_net& other, std::string scope)
 {
-	scope_ = other.scope_;
+	scope_ = scope.empty() ? other.scope_ : scope;
 	updater_ = other.updater_->clone();
 	test_in_ = other.test_in_->clone();
 	train_in_ = other.train_in_->clone();
@@ -131,14 +131,24 @@ void gd_net::copy_helper (const gd_net& other, std::string scope)
 
 void gd_net::move_helper (gd_net&& other)
 {
+	// the graph is independent of its owner, so all of it (including pending optimizer state) changes hands
 	scope_ = std::move(other.scope_);
-	updater_ = other.updater_->move();
-	test_in_ = other.test_in_->move();
-	test_out_ = other.test_out_->move();
-	train_in_ = other.train_in_->move();
-	expected_out_ = other.expected_out_->move();
-	brain_ = other.brain_->move();
-	setup();
+	updates_ = std::move(other.updates_);
+	updater_ = other.updater_;
+	brain_ = other.brain_;
+	test_in_ = other.test_in_;
+	test_out_ = other.test_out_;
+	train_in_ = other.train_in_;
+	expected_out_ = other.expected_out_;
+	error_ = other.error_;
+	other.updates_.clear();
+	other.updater_ = nullptr;
+	other.brain_ = nullptr;
+	other.test_in_ = nullptr;
+	other.test_out_ = nullptr;
+	other.train_in_ = nullptr;
+	other.expected_out_ = nullptr;
+	other.error_ = nullptr;
 }
 
 void gd_net::clean_up (void)
@@ -154,6 +164,7 @@ void gd_net::clean_up (void)
 	expected_out_ = nullptr;
 	updater_ = nullptr;
 	brain_ = nullptr;
+	error_ = nullptr;
 	updates_.clear();
 }
 
-- 
2.43.0


From d14506e09413dd72ef936adc83f45c9ee76b8261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 29/51] fix: copied and moved dq_net keep their experiences

---
 app/rocnnet/src/models/dq_net.cpp | 47 +++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index df0c77a..4dcff4d 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -235,7 +235,7 @@ void dq_net::tear_down (void)
 
 void dq_net::copy_helper (const dq_net& other, std::string scope)
 {
-	scope_ = other.scope_;
+	scope_ = scope.empty() ? other.scope_ : scope;
 
 	// copy over parameters
 	params_  = other.params_;
@@ -245,6 +245,7 @@ void dq_net::copy_helper (const dq_net& other, std::string scope)
 	n_train_called_ = other.n_train_called_;
 	explore_ = other.explore_;
 	generator_ = other.generator_;
+	experiences_ = other.experiences_;
 
 	// copy over actors
 	updater_ = other.updater_->clone();
@@ -258,7 +259,7 @@ void dq_net::copy_helper (const dq_net& other, std::string scope)
 
 void dq_net::move_helper (dq_net&& other, std::string scope)
 {
-	scope_ = std::move(other.scope_);
+	scope_ = scope.empty() ? std::move(other.scope_) : scope;
 
 	// move parameters
 	params_  = std::move(other.params_);
@@ -268,15 +269,39 @@ void dq_net::move_helper (dq_net&& other, std::string scope)
 	n_train_called_ = std::move(other.n_train_called_);
 	explore_ = std::move(other.explore_);
 	generator_ = std::move(other.generator_);
-
-	// move over actors
-	updater_ = other.updater_->move();
-	updater_->clear_ignore();
-	
-	source_qnet_ = other.source_qnet_->move();
-	target_qnet_ = other.target_qnet_->move();
-
-	variable_setup();
+	experiences_ = std::move(other.experiences_);
+
+	// the graph is independent of its owner, so all of it (including pending optimizer state) changes hands
+	updater_ = other.updater_;
+	source_qnet_ = other.source_qnet_;
+	target_qnet_ = other.target_qnet_;
+	input_ = other.input_;
+	output_ = other.output_;
+	best_output_ = other.best_output_;
+	train_input_ = other.train_input_;
+	train_output_ = other.train_output_;
+	next_input_ = other.next_input_;
+	next_output_mask_ = other.next_output_mask_;
+	next_output_ = other.next_output_;
+	reward_ = other.reward_;
+	future_reward_ = other.future_reward_;
+	output_mask_ = other.output_mask_;
+	score_ = other.score_;
+	prediction_error_ = other.prediction_error_;
+	source_updates_ = std::move(other.source_updates_);
+	target_updates_ = std::move(other.target_updates_);
+
+	// other has nothing left to delete
+	other.updater_ = nullptr;
+	other.source_qnet_ = nullptr;
+	other.target_qnet_ = nullptr;
+	other.input_ = nullptr;
+	other.train_input_ = nullptr;
+	other.output_mask_ = nullptr;
+	other.next_input_ = nullptr;
+	other.next_output_mask_ = nullptr;
+	other.reward_ = nullptr;
+	other.tear_down();
 }
 
 void dq_net::variable_setup (void)
-- 
2.43.0


From d1a1acf268a21fe723363b8c03add61f23154118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 30/51] fix: rbm assignment assigns, copies and moves keep the
 hidden size

---
 app/rocnnet/src/models/rbm.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index f7dfcfd..8d084dd 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -48,7 +48,7 @@ rbm* rbm::move (void)
 
 rbm& rbm::operator = (const rbm& other)
 {
-	if (this == &other)
+	if (this != &other)
 	{
 		ilayer::operator = (other);
 		clean_up();
@@ -59,7 +59,7 @@ rbm& rbm::operator = (const rbm& other)
 
 rbm& rbm::operator = (rbm&& other)
 {
-	if (this == &other)
+	if (this != &other)
 	{
 		ilayer::operator = (std::move(other));
 		clean_up();
@@ -217,6 +217,7 @@ ilayer* rbm::move_impl (void)
 void rbm::copy_helper (const rbm& other)
 {
 	n_input_ = other.n_input_;
+	n_hidden_ = other.n_hidden_;
 	weight_ = other.weight_->clone();
 	hbias_ = other.hbias_->clone();
 	vbias_ = other.vbias_->clone();
@@ -225,9 +226,13 @@ void rbm::copy_helper (const rbm& other)
 void rbm::move_helper (rbm&& other)
 {
 	n_input_ = std::move(other.n_input_);
-	weight_ = other.weight_->move();
-	hbias_ = other.hbias_->move();
-	vbias_ = other.vbias_->move();
+	n_hidden_ = std::move(other.n_hidden_);
+	weight_ = other.weight_;
+	hbias_ = other.hbias_;
+	vbias_ = other.vbias_;
+	other.weight_ = nullptr;
+	other.hbias_ = nullptr;
+	other.vbias_ = nullptr;
 }
 
 void rbm::clean_up (void)
-- 
2.43.0


From 5ed1b287d6c344a449f55a7e110c41acc25d0ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 31/51] fix: copied and moved db_net keep their output layer

---
 app/rocnnet/src/models/db_net.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/rocnnet/src/models/db_net.cpp b/app/rocnnet/src/models/db_net.cpp
index dfab499..f6dd336 100644
--- a/app/rocnnet/src/models/db_net.cpp
+++ b/app/rocnnet/src/models/db_net.cpp
@@ -184,6 +184,7 @@ void db_net::copy_helper (const db_net& other)
 			nnutils::formatter() << scope_ << ":rbm_" << i);
 		layers_.push_back(rlayer);
 	}
+	log_layer_ = other.log_layer_->clone(scope_ + ":logres");
 }
 
 void db_net::move_helper (db_net&& other)
@@ -192,6 +193,9 @@ void db_net::move_helper (db_net&& other)
 	n_input_ = std::move(other.n_input_);
 	n_output_ = std::move(other.n_output_);
 	layers_ = std::move(other.layers_);
+	log_layer_ = other.log_layer_;
+	other.layers_.clear();
+	other.log_layer_ = nullptr;
 }
 
 void db_net::clean_up (void)
-- 
2.43.0


From b984ce8267952f5629c216e1b63c7ff8c2bab605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 32/51] fix: random initialisations draw from the shared
 generator itself, not a copy of it

---
 app/tenncor/src/tensor/tensor_handler.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor_handler.ipp b/app/tenncor/src/tensor/tensor_handler.ipp
index 5c8e66a..f9a6dbc 100644
--- a/app/tenncor/src/tensor/tensor_handler.ipp
+++ b/app/tenncor/src/tensor/tensor_handler.ipp
@@ -268,7 +268,7 @@ template <typename T>
 void rand_uniform<T>::calc_data (T* dest, tensorshape outshape)
 {
 	size_t len = outshape.n_elems();
-	auto gen = std::bind(distribution_, nnutils::get_generator());
+	auto gen = std::bind(distribution_, std::ref(nnutils::get_generator()));
 	std::generate(dest, dest+len, gen);
 }
 
@@ -304,7 +304,7 @@ template <typename T>
 void rand_normal<T>::calc_data (T* dest, tensorshape outshape)
 {
 	size_t len = outshape.n_elems();
-	auto gen = std::bind(distribution_, nnutils::get_generator());
+	auto gen = std::bind(distribution_, std::ref(nnutils::get_generator()));
 	std::generate(dest, dest+len, gen);
 }
 
-- 
2.43.0


From 3bbbb9036df16ac3d36922db90bd08335927b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 33/51] fix: draw replay batches from the seeded generator

---
 app/rocnnet/src/models/dq_net.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index 4dcff4d..990a0d2 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -379,7 +379,7 @@ std::vector<dq_net::exp_batch> dq_net::random_sample (void)
 {
 	std::vector<size_t> indices(experiences_.size());
 	std::iota(indices.begin(), indices.end(), 0);
-	std::random_shuffle(indices.begin(), indices.end());
+	std::shuffle(indices.begin(), indices.end(), nnutils::get_generator());
 	std::vector<dq_net::exp_batch> res;
 	for (size_t i = 0; i < params_.mini_batch_size_; i++)
 	{
-- 
2.43.0


From 49cd9fba4326a69fcec46720300ecef014ff41fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 34/51] fix: binomial samples depend on the operands they are
 drawn from

---
 app/tenncor/src/graph/operations/elementary.ipp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index aa8326d..49a351d 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1233,7 +1233,7 @@ varptr<T> binomial_sample (T n, const varptr<T> p)
 	{
 		std::default_random_engine& gen = nnutils::get_generator();
 		std::vector<T> pcvec = expose<T>(pconst);
-		std::vector<T> pvec((T) 0, pcvec.size());
+		std::vector<T> pvec(pcvec.size(), (T) 0);
 		std::transform(pcvec.begin(), pcvec.end(), pvec.begin(),
 		[&gen, n](T pcv)
 		{
@@ -1271,7 +1271,7 @@ varptr<T> binomial_sample (const varptr<T> n, T p)
 	{
 		std::default_random_engine& gen = nnutils::get_generator();
 		std::vector<T> ncvec = expose<T>(nconst);
-		std::vector<T> nvec((T) 0, ncvec.size());
+		std::vector<T> nvec(ncvec.size(), (T) 0);
 		std::transform(ncvec.begin(), ncvec.end(), nvec.begin(),
 		[&gen, p](T ncv)
 		{
@@ -1285,7 +1285,7 @@ varptr<T> binomial_sample (const varptr<T> n, T p)
 	{
 		return parent;
 	}
-	return immutable<T>::get(std::vector<inode<T>*>{p}, elementary_shaper,
+	return immutable<T>::get(std::vector<inode<T>*>{n}, elementary_shaper,
 	new transfer_func<T>([p](T* dest, std::vector<const T*> srcs, shape_io shapes)
 	{
 		size_t n_out = shapes.outs_.n_elems();
@@ -1320,15 +1320,15 @@ varptr<T> binomial_sample (const varptr<T> n, const varptr<T> p)
 	{
 		return parent;
 	}
-	return immutable<T>::get(std::vector<inode<T>*>{p}, elementary_shaper,
+	return immutable<T>::get(std::vector<inode<T>*>{n, p}, elementary_shaper,
 	new transfer_func<T>([](T* dest, std::vector<const T*> srcs, shape_io shapes)
 	{
 		size_t n_out = shapes.outs_.n_elems();
 		std::default_random_engine& gen = nnutils::get_generator();
 		for (size_t i = 0; i < n_out; i++)
 		{
-			size_t n = srcs[0][i];
-			T p = srcs[1][i];
+			size_t n = srcs[0][shapes.ins_[0].n_elems() > 1 ? i : 0];
+			T p = srcs[1][shapes.ins_[1].n_elems() > 1 ? i : 0];
 			assert(p >= 0 && p <= 1);
 			std::binomial_distribution<int> dist(n, p);
 			dest[i] = dist(gen);
-- 
2.43.0


From e0393e154195966ee0b03c4a0e4e9ebae990c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 35/51] fix: notify observers and update nodes in an order
 independent of their addresses

---
 app/tenncor/include/graph/react/iobserver.hpp  | 6 ++++++
 app/tenncor/src/graph/connector/iconnector.ipp | 6 ++++--
 app/tenncor/src/graph/react/iobserver.cpp      | 8 ++++++++
 app/tenncor/src/graph/react/subject.cpp        | 5 +++++
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/include/graph/react/iobserver.hpp b/app/tenncor/include/graph/react/iobserver.hpp
index ba98685..a3deaf2 100644
--- a/app/tenncor/include/graph/react/iobserver.hpp
+++ b/app/tenncor/include/graph/react/iobserver.hpp
@@ -84,7 +84,13 @@ protected:
 	//! observer-subject relation is non-unique
 	std::vector<subject*> dependencies_;
 
+	//! position in order of creation, orders observers independent of their addresses
+	const size_t serial_ = next_serial();
+
 private:
+	//! count observers created
+	static size_t next_serial (void);
+
 	// >>>> NOTIFICATION MESSAGE MANAGER <<<
 	//! update observer value with notification
 	virtual void update (std::unordered_set<size_t> dep_indices, notification msg);
diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index e7722bd..214f01b 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -473,10 +473,12 @@ private:
 
 	static bool shallower (const update_info& a, const update_info& b)
 	{
-		return a.first->get_depth() < b.first->get_depth();
+		size_t adepth = a.first->get_depth();
+		size_t bdepth = b.first->get_depth();
+		return adepth < bdepth || (adepth == bdepth && a.first->serial_ < b.first->serial_);
 	}
 
-	//! pending updates ordered by depth
+	//! pending updates ordered by depth, then by creation
 	std::list<update_info> updates_;
 
 	std::unordered_set<iconnector<T>*> users_;
diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index 09e0970..f85e762 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -6,6 +6,8 @@
 //  Copyright © 2016 Mingkai Chen. All rights reserved.
 //
 
+#include <atomic>
+
 #include "graph/react/iobserver.hpp"
 
 #ifdef TENNCOR_IOBSERVER_HPP
@@ -168,6 +170,12 @@ bool iobserver::is_recordable (void) const
 	return recordable_;
 }
 
+size_t iobserver::next_serial (void)
+{
+	static std::atomic<size_t> count(0);
+	return count++;
+}
+
 void iobserver::copy_helper (const iobserver& other)
 {
 	recordable_ = other.recordable_;
diff --git a/app/tenncor/src/graph/react/subject.cpp b/app/tenncor/src/graph/react/subject.cpp
index 5baf710..28a5ee9 100644
--- a/app/tenncor/src/graph/react/subject.cpp
+++ b/app/tenncor/src/graph/react/subject.cpp
@@ -80,6 +80,11 @@ if (rocnnet_record::record_status::rec_good && UPDATE == msg)
 	{
 		obs.push_back(it->first);
 	}
+	// notify in order of creation, audience_ is ordered by address
+	std::sort(obs.begin(), obs.end(), [](const iobserver* a, const iobserver* b)
+	{
+		return a && (nullptr == b || a->serial_ < b->serial_);
+	});
 
 	for (iobserver* viewer : obs)
 	{
-- 
2.43.0


From c5de683f14a70867a20d959394f46b6c70b69e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:03 +0000
Subject: [PATCH 36/51] fix: build parameter updates in an order independent of
 addresses

---
 app/tenncor/src/utils/gd_utils.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/utils/gd_utils.cpp b/app/tenncor/src/utils/gd_utils.cpp
index 3db94eb..e7abb76 100644
--- a/app/tenncor/src/utils/gd_utils.cpp
+++ b/app/tenncor/src/utils/gd_utils.cpp
@@ -17,10 +17,34 @@ gd_updater* gd_updater::clone (void) const { return clone_impl(); }
 
 gd_updater* gd_updater::move (void) { return move_impl(); }
 
+//! order leaves by the arguments leading to them, independent of addresses
+static std::vector<ileaf<double>*> ordered_leaves (inode<double>* root)
+{
+	std::unordered_set<ileaf<double>*> leafset = root->get_leaves();
+	std::vector<ileaf<double>*> leaves;
+	std::unordered_set<inode<double>*> visited;
+	std::vector<inode<double>*> stack = {root};
+	while (false == stack.empty())
+	{
+		inode<double>* node = stack.back();
+		stack.pop_back();
+		if (nullptr == node || false == visited.emplace(node).second) continue;
+		ileaf<double>* leaf = dynamic_cast<ileaf<double>*>(node);
+		if (leaf && leafset.erase(leaf))
+		{
+			leaves.push_back(leaf);
+		}
+		std::vector<inode<double>*> args = node->get_arguments();
+		stack.insert(stack.end(), args.rbegin(), args.rend());
+	}
+	leaves.insert(leaves.end(), leafset.begin(), leafset.end());
+	return leaves;
+}
+
 updates_t gd_updater::calculate (inode<double>* root, grad_process intermediate_process)
 {
 	std::vector<variable_updater<double> > updates;
-	std::unordered_set<ileaf<double>*> leafset = root->get_leaves();
+	std::vector<ileaf<double>*> leafset = ordered_leaves(root);
 	std::vector<std::pair<inode<double>*,variable<double>*> > gress;
 	for (ileaf<double>* l : leafset)
 	{
-- 
2.43.0


From 6c26744caaa878d05ced3f3912ad1e1f2cd5f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 37/51] fix: identifiers no longer consume the seeded
 generator's numbers

---
 app/tenncor/include/utils/utils.hpp | 2 +-
 app/tenncor/src/utils/utils.cpp     | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/include/utils/utils.hpp b/app/tenncor/include/utils/utils.hpp
index 07120f2..4383f10 100644
--- a/app/tenncor/include/utils/utils.hpp
+++ b/app/tenncor/include/utils/utils.hpp
@@ -94,7 +94,7 @@ private:
 };
 
 //! generates a "unique" string based on input address and current time
-//! uses cstdlib rand, so use srand to seed
+//! independent of the seeded generator
 std::string uuid (const void* addr);
 
 std::default_random_engine& get_generator (void);
diff --git a/app/tenncor/src/utils/utils.cpp b/app/tenncor/src/utils/utils.cpp
index 2854606..fbb5bac 100644
--- a/app/tenncor/src/utils/utils.cpp
+++ b/app/tenncor/src/utils/utils.cpp
@@ -59,7 +59,9 @@ std::string formatter::operator >> (convert_to_string)
 std::string uuid (const void* addr)
 {
 	static std::uniform_int_distribution<size_t> tok_dist(0, 15);
-	// time, address, and tokens (of a seeded generator) can all repeat
+	// identifiers must not consume the numbers drawn by a seeded program
+	static std::default_random_engine tok_generator(std::time(nullptr));
+	// time, address, and tokens can all repeat
 	static std::atomic<size_t> count(0);
 	auto now = std::chrono::system_clock::now();
 	std::time_t now_c = std::chrono::system_clock::to_time_t(now);
@@ -69,7 +71,7 @@ std::string uuid (const void* addr)
 
 	for (size_t i = 0; i < 16; i++)
 	{
-		size_t token = tok_dist(get_generator());
+		size_t token = tok_dist(tok_generator);
 		ss << std::hex << token;
 	}
 	ss << '-' << std::hex << count++;
-- 
2.43.0


From a5ed14283bee7293d69dd01c038bb2ab72a7f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:33 +0000
Subject: [PATCH 38/51] fix: shapes too large to count are refused, and
 resizing keeps tensor and block in step when memory runs out

---
 app/tenncor/src/tensor/tensor.ipp      | 33 ++++++++++++++++++++------
 app/tenncor/src/tensor/tensorshape.cpp | 12 +++++++++-
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 5fe1b93..06b393e 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -496,6 +496,7 @@ bool tensor<T>::allocate (const tensorshape shape)
 	if (shape.is_compatible_with(allowed_shape_) &&
 		shape.is_fully_defined())
 	{
+		tensorshape next_shape = shape; // copied before anything changes
 		T* temp = alloc_->template allocate<T>(shape.n_elems());
 		if (nullptr == temp)
 		{
@@ -507,11 +508,19 @@ bool tensor<T>::allocate (const tensorshape shape)
 		{
 			// move raw_data to temp matching new shape
 			// we want to only copy over the minimum data to lower cost
-			fit_toshape(temp, shape, raw_data_, alloc_shape_);
+			try
+			{
+				fit_toshape(temp, shape, raw_data_, alloc_shape_);
+			}
+			catch (...)
+			{
+				alloc_->dealloc(temp, shape.n_elems());
+				throw;
+			}
 			alloc_->dealloc(raw_data_, alloc_shape_.n_elems());
 		}
 		raw_data_ = temp;
-		alloc_shape_ = shape;
+		alloc_shape_ = std::move(next_shape);
 	}
 	return success;
 }
@@ -523,27 +532,37 @@ bool tensor<T>::copy_from (const tensor<T>& other, const tensorshape shape)
 	if (other.is_alloc() &&
 		shape.is_fully_defined())
 	{
+		tensorshape olds = other.get_shape();
+		// copied before anything changes
+		tensorshape next_alloc = shape;
+		tensorshape next_allowed = shape;
 		T* temp = alloc_->template allocate<T>(shape.n_elems());
 		if (nullptr == temp)
 		{
 			return false; // existing data and shape remain as they were
 		}
+		try
+		{
+			fit_toshape(temp, shape, other.raw_data_, olds);
+		}
+		catch (...)
+		{
+			alloc_->dealloc(temp, shape.n_elems());
+			throw;
+		}
 		// allowed shape update
 		if (!allowed_shape_.is_compatible_with(shape))
 		{
-			allowed_shape_ = shape;
+			allowed_shape_ = std::move(next_allowed);
 		}
 
 		success = true;
-		tensorshape olds = other.get_shape();
-		fit_toshape(temp, shape, other.raw_data_, olds);
-		
 		if (is_alloc())
 		{
 			alloc_->dealloc(raw_data_, alloc_shape_.n_elems());
 		}
 		raw_data_ = temp;
-		alloc_shape_ = shape;
+		alloc_shape_ = std::move(next_alloc);
 	}
 	return success;
 }
diff --git a/app/tenncor/src/tensor/tensorshape.cpp b/app/tenncor/src/tensor/tensorshape.cpp
index cd113cb..d5cb99c 100644
--- a/app/tenncor/src/tensor/tensorshape.cpp
+++ b/app/tenncor/src/tensor/tensorshape.cpp
@@ -6,6 +6,8 @@
 //  Copyright © 2016 Mingkai Chen. All rights reserved.
 //
 
+#include <limits>
+
 #include "tensor/tensorshape.hpp"
 
 #ifdef TENNCOR_TENSORSHAPE_HPP
@@ -33,8 +35,16 @@ size_t tensorshape::n_elems (void) const
 	{
 		return 0;
 	}
+	// saturates, so shapes too large to count are not mistaken for small ones
 	size_t elems = std::accumulate(dimensions_.begin(), dimensions_.end(),
-	(size_t) 1, std::multiplies<size_t>());
+	(size_t) 1, [](size_t a, size_t b) -> size_t
+	{
+		if (b != 0 && a > std::numeric_limits<size_t>::max() / b)
+		{
+			return std::numeric_limits<size_t>::max();
+		}
+		return a * b;
+	});
 	return elems;
 }
 
-- 
2.43.0


From 220e753381227f48fec8d79f56ba0bcb029c0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:25 +0000
Subject: [PATCH 39/51] fix: transposing a dimension beyond the rank keeps
 elements in order

---
 .../src/graph/operations/transform.ipp        | 23 ++++---------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 6e8095e..9db804c 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -57,26 +57,13 @@ varptr<T> transpose (const varptr<T> a, std::pair<size_t,size_t> axis_swap)
 	{
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		size_t rank = shape.ins_[0].rank();
-		if (axis_swap.first >= rank)
-		{
-			return;
-		}
 		std::vector<size_t> coords;
-		if (axis_swap.second >= rank)
-		{
-			// we're transposing with a previously non-existent dimension,
-			// so there is a 1-1 correspondence between src and dest
-			std::memcpy(dest, src[0], n_elems * sizeof(T));
-		}
-		else
+		for (size_t i = 0; i < n_elems; i++)
 		{
-			for (size_t i = 0; i < n_elems; i++)
-			{
-				coords = shape.outs_.coordinate_from_idx(i);
-				std::swap(coords[axis_swap.first], coords[axis_swap.second]);
-				dest[i] = src[0][shape.ins_[0].flat_idx(coords)];
-			}
+			// out coordinates cover both axes, dimensions src lacks are of size 1
+			coords = shape.outs_.coordinate_from_idx(i);
+			std::swap(coords[axis_swap.first], coords[axis_swap.second]);
+			dest[i] = src[0][shape.ins_[0].flat_idx(coords)];
 		}
 	}),
 	[axis_swap](std::vector<std::pair<inode<T>*,inode<T>*> > args)
-- 
2.43.0


From 864881a025ecefa0c72b4842dfebb91cb5b6bbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:25 +0000
Subject: [PATCH 40/51] fix: flip stays within the rank of its operand

---
 app/tenncor/src/graph/operations/transform.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 9db804c..bccfb74 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -477,7 +477,11 @@ varptr<T> flip (const varptr<T> a, std::vector<size_t> dims)
 			std::vector<size_t> coord = shape.outs_.coordinate_from_idx(i);
 			for (size_t d : dims)
 			{
-				coord[d] = outlist[d] - coord[d] - 1;
+				// flipping a dimension of size 1 changes nothing
+				if (d < coord.size())
+				{
+					coord[d] = outlist[d] - coord[d] - 1;
+				}
 			}
 			dest[i] = src[0][shape.ins_[0].flat_idx(coord)];
 		}
-- 
2.43.0


From a9cc2964a6d07d34f00d59d1f2dec66425b24c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:25 +0000
Subject: [PATCH 41/51] fix: extending a dimension beyond the rank reads within
 the operand

---
 app/tenncor/src/graph/operations/transform.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index bccfb74..8ac89d1 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -159,7 +159,7 @@ varptr<T> extend (const varptr<T> a, size_t index, size_t multiplier)
 	{
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		size_t dim = shape.ins_[0].as_list()[index];
+		size_t dim = index < shape.ins_[0].rank() ? shape.ins_[0].as_list()[index] : 1;
 		std::vector<size_t> coords;
 		for (size_t i = 0; i < n_elems; i++)
 		{
-- 
2.43.0


From e36f72615b175620dd45b762d2dd17f4cb5cfbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:25 +0000
Subject: [PATCH 42/51] fix: mean along a dimension beyond the rank divides by
 one

---
 app/tenncor/src/graph/operations/transform.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 8ac89d1..e2246e5 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -323,7 +323,8 @@ varptr<T> reduce_mean (const varptr<T> a, optional<size_t> dimension)
 		denom = shape_dep<T>::get({ a },
 		[dimension](tensorshape& s) -> std::vector<size_t>
 		{
-			return { s.as_list()[*dimension] };
+			// summing along a dimension beyond the rank adds nothing up
+			return { *dimension < s.rank() ? s.as_list()[*dimension] : 1 };
 		}, std::vector<size_t>{1},
 		nnutils::formatter() << "axis_" << *dimension << "_size");
 	}
-- 
2.43.0


From 5d4c135ada669441e2b0812bd73aeee07d1f5b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:08 +0000
Subject: [PATCH 43/51] fix: axial operators leave out only dimensions that
 exist

---
 app/tenncor/src/graph/operations/elementary.ipp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 49a351d..aa2fae1 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -60,7 +60,11 @@ static inline SHAPER binary_axial_shape (size_t axis, bool left)
 
 		std::vector<size_t> s2list = shape2.as_list();
 
-		if (axis == 0)
+		if (axis >= s2list.size())
+		{
+			// there is no such dimension to leave out
+		}
+		else if (axis == 0)
 		{
 			s2list = std::vector<size_t>(s2list.begin()+1, s2list.end());
 		}
@@ -160,7 +164,8 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 					coords = std::vector<size_t>(coords.begin()+1, coords.end());
 					axis_idx = shapes.ins_[idx].flat_idx(coords);
 				}
-				else if (axis >= ilist.size() || (ilist[axis] == 1 && olist[axis] > 1))
+				else if (axis < olist.size() &&
+					(axis >= ilist.size() || (ilist[axis] == 1 && olist[axis] > 1)))
 				{
 					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
 					coords[axis] = 0;
-- 
2.43.0


From 294a5518ad9d4017f74fa8048972292c422638bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:59 +0000
Subject: [PATCH 44/51] fix: a gradient chain that grows is told apart from the
 one it continues

---
 app/tenncor/src/graph/connector/iconnector.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 214f01b..9bce601 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -156,7 +156,9 @@ void iconnector<T>::set_jacobian_front (JTRANSFER<T> jac, std::vector<variable<T
 {
 	for (variable<T>* l : leaves)
 	{
-		jacobians_[l].list_.push_front({jac, this});
+		JList& chain = jacobians_[l];
+		chain.list_.push_front({jac, this});
+		chain.uid_ = nnutils::uuid(this); // no longer the chain of the arguments
 	}
 }
 
@@ -165,7 +167,9 @@ void iconnector<T>::set_jacobian_back (JTRANSFER<T> jac, std::vector<variable<T>
 {
 	for (variable<T>* l : leaves)
 	{
-		jacobians_[l].list_.push_back({jac, this});
+		JList& chain = jacobians_[l];
+		chain.list_.push_back({jac, this});
+		chain.uid_ = nnutils::uuid(this); // no longer the chain of the arguments
 	}
 }
 
-- 
2.43.0


From 9c89a3a68c0a453a2e8de39f04c12c77b741f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:36 +0000
Subject: [PATCH 45/51] fix: matmul rejects operands of different rank beyond
 the second dimension

---
 app/tenncor/src/graph/operations/matmul.ipp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index 158b380..16d0af4 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -205,11 +205,15 @@ static inline tensorshape matmul_shaper (std::vector<tensorshape> shapes)
 			print_shape(t2s, ss);
 			throw std::logic_error(ss.str());
 		}
-		// check that remaining shape values are ones,
-		// otherwise one shape is larger than the other
+	}
+	// check that remaining shape values are ones,
+	// otherwise one shape is larger than the other
+	size_t maxend = std::max(rank1, rank2);
+	if (maxend > 2)
+	{
 		auto it = rank1 > rank2 ? al.begin() : bl.begin();
 		auto et = rank1 > rank2 ? al.end() : bl.end();
-		if (!std::all_of(it + minend, et, [](size_t e) { return e == 1; }))
+		if (!std::all_of(it + std::max<size_t>(minend, 2), et, [](size_t e) { return e == 1; }))
 		{
 			std::stringstream ss;
 			ss << "attempting to matrix multiple different sized shapes ";
-- 
2.43.0


From a523ddb0fee5882557c4f92f2d06db7ac11f31da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:44 +0000
Subject: [PATCH 46/51] fix: a copied or assigned node carries its special-case
 data

---
 app/tenncor/src/graph/inode.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/inode.ipp b/app/tenncor/src/graph/inode.ipp
index 5fb1469..82819a8 100644
--- a/app/tenncor/src/graph/inode.ipp
+++ b/app/tenncor/src/graph/inode.ipp
@@ -33,6 +33,7 @@ inode<T>& inode<T>::operator = (const inode<T>& other)
 	{
 		subject::operator = (other);
 		label_ = other.label_;
+		metadata_ = other.metadata_;
 	}
 	return *this;
 }
@@ -44,6 +45,7 @@ inode<T>& inode<T>::operator = (inode<T>&& other)
 	{
 		subject::operator = (std::move(other));
 		label_ = std::move(other.label_);
+		metadata_ = std::move(other.metadata_);
 	}
 	return *this;
 }
@@ -144,12 +146,14 @@ inode<T>::inode (std::string label) :
 template <typename T>
 inode<T>::inode (const inode<T>& other) :
 	subject(other),
-	label_(other.label_) {}
+	label_(other.label_),
+	metadata_(other.metadata_) {}
 
 template <typename T>
 inode<T>::inode (inode<T>&& other) :
 	subject(std::move(other)),
-	label_(std::move(other.label_)) {}
+	label_(std::move(other.label_)),
+	metadata_(std::move(other.metadata_)) {}
 
 template <typename T>
 const tensor<T>* inode<T>::take_eval (inode<T>* source) const
-- 
2.43.0


From 7a65524c6d1412553024cb30b2013c5025b772d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:49 +0000
Subject: [PATCH 47/51] fix: a graph server that can't listen leaves the
 program running

---
 app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
index 604e1d3..ada68cd 100644
--- a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
+++ b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
@@ -108,6 +108,12 @@ void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_sr
 	builder.RegisterService(&service);
 
 	std::unique_ptr<grpc::Server> server(builder.BuildAndStart());
+	if (nullptr == server)
+	{
+		// address is unavailable, the graph is recorded without being served
+		std::cout << "server failed to listen on " << addr << std::endl;
+		return;
+	}
 	std::cout << "server listening on " << addr << std::endl;
 	std::thread server_wait([&server]
 	{
-- 
2.43.0


From 415f5f26f7644bfb2db097e19a2bbc853aad0740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:56 +0000
Subject: [PATCH 48/51] fix: loading leaves a leaf's allowed shape as it was

Reading content saved by a leaf of looser shape replaced the reader's allowed
shape, so a later load could install content of any shape in its place.
---
 app/tenncor/include/tensor/tensor.hpp |  4 ++++
 app/tenncor/src/graph/leaf/ileaf.ipp  |  2 +-
 app/tenncor/src/tensor/tensor.ipp     | 12 ++++++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/include/tensor/tensor.hpp b/app/tenncor/include/tensor/tensor.hpp
index c8d4683..342ddde 100644
--- a/app/tenncor/include/tensor/tensor.hpp
+++ b/app/tenncor/include/tensor/tensor.hpp
@@ -185,6 +185,10 @@ public:
 	//! read data and shape from other, reassign allocator
 	bool from_proto (const tenncor::tensor_proto& other, size_t alloc_id);
 
+	//! read data and shape from proto, keeping the allowed (innate) shape if there is one
+	//! return true if successful
+	bool refill (const tenncor::tensor_proto& other);
+
 	// slice along the first dimension
 	tensor<T> slice (size_t dim_start, size_t limit);
 
diff --git a/app/tenncor/src/graph/leaf/ileaf.ipp b/app/tenncor/src/graph/leaf/ileaf.ipp
index 60c965e..c612b4b 100644
--- a/app/tenncor/src/graph/leaf/ileaf.ipp
+++ b/app/tenncor/src/graph/leaf/ileaf.ipp
@@ -103,7 +103,7 @@ template <typename T>
 bool ileaf<T>::read_proto (const tenncor::tensor_proto& proto)
 {
 	// content saved for a leaf of another shape is not for this leaf
-	bool success = data_->is_allowed(proto) && data_->from_proto(proto);
+	bool success = data_->is_allowed(proto) && data_->refill(proto);
 	if (success)
 	{
 		is_init_ = true;
diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 06b393e..e0351fb 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -607,6 +607,18 @@ bool tensor<T>::from_proto (const tenncor::tensor_proto& other, size_t alloc_id)
 	return from_proto(other);
 }
 
+template <typename T>
+bool tensor<T>::refill (const tenncor::tensor_proto& other)
+{
+	tensorshape allowed = allowed_shape_;
+	bool success = from_proto(other);
+	if (success && allowed.is_part_defined())
+	{
+		allowed_shape_ = allowed;
+	}
+	return success;
+}
+
 // slice along the first dimension
 template <typename T>
 tensor<T> tensor<T>::slice (size_t /*dim_start*/, size_t /*limit*/)
-- 
2.43.0


From 9daa5da67de8b084d084c278290b39d706f2a585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:48 +0000
Subject: [PATCH 49/51] fix: a clone's jacobians point at the clone wherever
 the original was in the list

---
 app/tenncor/src/graph/connector/iconnector.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 9bce601..b38ee65 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -342,10 +342,10 @@ void iconnector<T>::jacobian_correction (const inode<T>* other)
 	// check other's jacobians leafset for references to other and set to this
 	for (auto& jpair : jacobians_)
 	{
-		std::list<std::pair<JTRANSFER<T>,inode<T>*> >& js = jpair.second.list_;
-		if (false == js.empty() && js.back().second == other)
+		// a node's own jacobians can be at both ends
+		for (std::pair<JTRANSFER<T>,inode<T>*>& js : jpair.second.list_)
 		{
-			js.back().second = this;
+			if (js.second == other) js.second = this;
 		}
 	}
 }
-- 
2.43.0


From 67fa4201e37f36289623b5e4fb53fd9b961e4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:48 +0000
Subject: [PATCH 50/51] fix: moving a node moves the unmanaged helpers that die
 with it

---
 app/tenncor/src/graph/react/iobserver.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index f85e762..529e2aa 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -209,6 +209,13 @@ void iobserver::move_helper (iobserver&& other)
 			dependencies_[i]->detach(&other, i);
 		}
 	}
+	// unmanaged helpers die with this instead of other
+	std::unordered_set<subject*> deps = other.ondeath_deps_;
+	for (subject* dep : deps)
+	{
+		other.remove_ondeath_dependent(dep);
+		add_ondeath_dependent(dep);
+	}
 }
 
 }
-- 
2.43.0


From 0d0cf68520ea8bd40a9bfb012796d3e5885ade0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:46 +0000
Subject: [PATCH 51/51] fix: a generator asked for its shape settles pending
 updates first, as other connectors do

---
 app/tenncor/src/graph/connector/immutable/generator.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/tenncor/src/graph/connector/immutable/generator.ipp b/app/tenncor/src/graph/connector/immutable/generator.ipp
index 6785991..2d68f2d 100644
--- a/app/tenncor/src/graph/connector/immutable/generator.ipp
+++ b/app/tenncor/src/graph/connector/immutable/generator.ipp
@@ -81,6 +81,7 @@ varptr<T> generator<T>::derive (inode<T>* wrt)
 template <typename T>
 tensorshape generator<T>::get_shape (void) const
 {
+	if (this->g_man_ && false == this->g_man_->freeze_) this->g_man_->update();
 	if (nullptr == data_)
 	{
 		return tensorshape{};
-- 
2.43.0

