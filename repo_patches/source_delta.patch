From 11e41d41ec5c5da625d67f4229aecb04d242428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 01/20] fix: asynchronous actions own what they use

Actions run by the job queue or in detached threads referred to the action
function and the counter inside the place, which may be destroyed (clearNet,
destruction of the engine) before the action ends.
---
 PTN_Engine/Executor/DetachedExecutor.cpp     | 9 +++++----
 PTN_Engine/Executor/DetachedExecutor.h       | 3 ++-
 PTN_Engine/Executor/IActionsExecutor.h       | 9 ++++++++-
 PTN_Engine/Executor/JobQueueExecutor.cpp     | 9 +++++----
 PTN_Engine/Executor/JobQueueExecutor.h       | 3 ++-
 PTN_Engine/Executor/SingleThreadExecutor.cpp | 7 ++++---
 PTN_Engine/Executor/SingleThreadExecutor.h   | 3 ++-
 PTN_Engine/Place.cpp                         | 2 +-
 PTN_Engine/Place.h                           | 4 ++--
 9 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/PTN_Engine/Executor/DetachedExecutor.cpp b/PTN_Engine/Executor/DetachedExecutor.cpp
index c7ff828..282cbf5 100644
--- a/PTN_Engine/Executor/DetachedExecutor.cpp
+++ b/PTN_Engine/Executor/DetachedExecutor.cpp
@@ -25,13 +25,14 @@ namespace ptne
 
 using namespace std;
 
-void DetachedExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
+void DetachedExecutor::executeAction(const ActionFunction &action,
+                                    const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++actionsInExecution;
-	auto job = [&actionsInExecution, &action]()
+	++*actionsInExecution;
+	auto job = [actionsInExecution, action]()
 	{
 		action();
-		--actionsInExecution;
+		--*actionsInExecution;
 	};
 	auto t = thread(job);
 	t.detach();
diff --git a/PTN_Engine/Executor/DetachedExecutor.h b/PTN_Engine/Executor/DetachedExecutor.h
index 7316589..0881601 100644
--- a/PTN_Engine/Executor/DetachedExecutor.h
+++ b/PTN_Engine/Executor/DetachedExecutor.h
@@ -26,7 +26,8 @@ namespace ptne
 class DetachedExecutor : public IActionsExecutor
 {
 public:
-    void executeAction(const ActionFunction &action, std::atomic<size_t> &actionsInExecution) override;
+    void executeAction(const ActionFunction &action,
+					   const std::shared_ptr<std::atomic<size_t>> &actionsInExecution) override;
 };
 
 } // namespace ptne
diff --git a/PTN_Engine/Executor/IActionsExecutor.h b/PTN_Engine/Executor/IActionsExecutor.h
index 362157e..cccf633 100644
--- a/PTN_Engine/Executor/IActionsExecutor.h
+++ b/PTN_Engine/Executor/IActionsExecutor.h
@@ -19,6 +19,8 @@
 #pragma once
 
 #include "PTN_Engine/PTN_Engine.h"
+#include <atomic>
+#include <memory>
 
 namespace ptne
 {
@@ -26,7 +28,12 @@ class IActionsExecutor
 {
 public:
 	virtual ~IActionsExecutor() = default;
-	virtual void executeAction(const ActionFunction &action, std::atomic<size_t> &counter) = 0;
+	//!
+	//! \brief Executes an action. The action may be executed after the place it belongs to was destroyed.
+	//! \param action - The action.
+	//! \param counter - Counter of actions in execution.
+	//!
+	virtual void executeAction(const ActionFunction &action, const std::shared_ptr<std::atomic<size_t>> &counter) = 0;
 };
 
 } // namespace ptne
diff --git a/PTN_Engine/Executor/JobQueueExecutor.cpp b/PTN_Engine/Executor/JobQueueExecutor.cpp
index 51ddaec..0f7021e 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.cpp
+++ b/PTN_Engine/Executor/JobQueueExecutor.cpp
@@ -24,13 +24,14 @@ namespace ptne
 
 using namespace std;
 
-void JobQueueExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
+void JobQueueExecutor::executeAction(const ActionFunction &action,
+                                    const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++actionsInExecution;
-	auto f = [&actionsInExecution, &action]()
+	++*actionsInExecution;
+	auto f = [actionsInExecution, action]()
 	{
 		action();
-		--actionsInExecution;
+		--*actionsInExecution;
 	};
 	m_jobQueue.addJob(f);
 }
diff --git a/PTN_Engine/Executor/JobQueueExecutor.h b/PTN_Engine/Executor/JobQueueExecutor.h
index 36b451c..f4d469e 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.h
+++ b/PTN_Engine/Executor/JobQueueExecutor.h
@@ -27,7 +27,8 @@ namespace ptne
 class JobQueueExecutor : public IActionsExecutor
 {
 public:
-	void executeAction(const ActionFunction &action, std::atomic<size_t> &actionsInExecution) override;
+	void executeAction(const ActionFunction &action,
+					   const std::shared_ptr<std::atomic<size_t>> &actionsInExecution) override;
 
 private:
 	//! Job queue to dispatch actions.
diff --git a/PTN_Engine/Executor/SingleThreadExecutor.cpp b/PTN_Engine/Executor/SingleThreadExecutor.cpp
index 09e3d7d..28bb5e0 100644
--- a/PTN_Engine/Executor/SingleThreadExecutor.cpp
+++ b/PTN_Engine/Executor/SingleThreadExecutor.cpp
@@ -24,11 +24,12 @@ namespace ptne
 
 using namespace std;
 
-void SingleThreadExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
+void SingleThreadExecutor::executeAction(const ActionFunction &action,
+                                        const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++actionsInExecution;
+	++*actionsInExecution;
 	action();
-	--actionsInExecution;
+	--*actionsInExecution;
 }
 
 } // namespace ptne
diff --git a/PTN_Engine/Executor/SingleThreadExecutor.h b/PTN_Engine/Executor/SingleThreadExecutor.h
index 8f2448e..7c0214d 100644
--- a/PTN_Engine/Executor/SingleThreadExecutor.h
+++ b/PTN_Engine/Executor/SingleThreadExecutor.h
@@ -26,7 +26,8 @@ namespace ptne
 class SingleThreadExecutor : public IActionsExecutor
 {
 public:
-    void executeAction(const ActionFunction &action, std::atomic<size_t> &actionsInExecution) override;
+    void executeAction(const ActionFunction &action,
+					   const std::shared_ptr<std::atomic<size_t>> &actionsInExecution) override;
 };
 
 } // namespace ptne
diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index 27a6f7b..4b9ff75 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -150,7 +150,7 @@ string Place::getOnExitActionName() const
 
 bool Place::isOnEnterActionInExecution() const
 {
-	return m_onEnterActionsInExecution > 0;
+	return *m_onEnterActionsInExecution > 0;
 }
 
 void Place::blockStartingOnEnterActions(const bool value)
diff --git a/PTN_Engine/Place.h b/PTN_Engine/Place.h
index b07186a..946eb61 100755
--- a/PTN_Engine/Place.h
+++ b/PTN_Engine/Place.h
@@ -153,7 +153,7 @@ private:
 	std::string m_onEnterActionName;
 
 	//! Counter of on enter functions being executed.
-	std::atomic<size_t> m_onEnterActionsInExecution = 0;
+	const std::shared_ptr<std::atomic<size_t>> m_onEnterActionsInExecution = std::make_shared<std::atomic<size_t>>(0);
 
 	//! Function to be called when a token leaves the place.
 	const ActionFunction m_onExitAction = nullptr;
@@ -162,7 +162,7 @@ private:
 	std::string m_onExitActionName;
 
 	//! Counter of on exit functions being executed.
-	std::atomic<size_t> m_onExitActionsInExecution = 0;
+	const std::shared_ptr<std::atomic<size_t>> m_onExitActionsInExecution = std::make_shared<std::atomic<size_t>>(0);
 
 	//! Actions executor.
 	std::weak_ptr<IActionsExecutor> m_actionsExecutor;
-- 
2.43.0


From 69a6818e2ee2e11343172b183db12378c44075db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 02/20] fix: entering a blocked place must not lock the place
 while waiting

An injection into a place whose on-enter actions were blocked by a transition
that requires no actions in execution slept with the place's mutex locked, and
the transition needed that mutex to get on: both waited forever.
---
 PTN_Engine/Place.cpp | 19 ++++++++++---------
 PTN_Engine/Place.h   |  6 +++++-
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index 4b9ff75..93b4e5b 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -23,8 +23,6 @@
 #include "PTN_Engine/Utilities/LockWeakPtr.h"
 #include <mutex>
 #include <string>
-#include <thread>
-
 
 namespace ptne
 {
@@ -61,18 +59,16 @@ string Place::getName() const
 void Place::enterPlace(const size_t tokens)
 {
 	unique_lock guard(m_mutex);
+	if (m_onEnterAction != nullptr)
+	{
+		// the mutex is released while waiting, such that the place can be inspected and exited meanwhile
+		m_startingOnEnterActionsUnblocked.wait(guard, [this] { return !m_blockStartingOnEnterActions; });
+	}
 	increaseNumberOfTokens(tokens);
 	if (m_onEnterAction == nullptr)
 	{
 		return;
 	}
-	while (m_blockStartingOnEnterActions)
-	{
-		// TO DO make this wait period configurable
-		// add a max wait time after which an exception
-		// is thrown.
-		this_thread::sleep_for(100ms);
-	}
 	lockWeakPtr(m_actionsExecutor)->executeAction(m_onEnterAction, m_onEnterActionsInExecution);
 }
 
@@ -155,7 +151,12 @@ bool Place::isOnEnterActionInExecution() const
 
 void Place::blockStartingOnEnterActions(const bool value)
 {
+	unique_lock guard(m_mutex);
 	m_blockStartingOnEnterActions = value;
+	if (!value)
+	{
+		m_startingOnEnterActionsUnblocked.notify_all();
+	}
 }
 
 PlaceProperties Place::placeProperties() const
diff --git a/PTN_Engine/Place.h b/PTN_Engine/Place.h
index 946eb61..41a992d 100755
--- a/PTN_Engine/Place.h
+++ b/PTN_Engine/Place.h
@@ -20,6 +20,7 @@
 
 #include "PTN_Engine/PTN_Engine.h"
 #include <atomic>
+#include <condition_variable>
 #include <functional>
 #include <shared_mutex>
 
@@ -132,7 +133,10 @@ private:
 	void increaseNumberOfTokens(const size_t tokens = 1);
 
 	//! Flag to block triggering on enter actions.
-	std::atomic<bool> m_blockStartingOnEnterActions = false;
+	bool m_blockStartingOnEnterActions = false;
+
+	//! Notified when triggering on enter actions is no longer blocked.
+	std::condition_variable_any m_startingOnEnterActionsUnblocked;
 
 	//! Flag that determines if the place can be added tokens from outside the net.
 	bool m_isInputPlace = false;
-- 
2.43.0


From e09d580045632d974f6a809e8f4cb618f5496c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 03/20] fix: unblock on enter actions before entering
 destination places, and on exceptions

A transition that requires no actions in execution waited forever for itself
when a destination place with an on enter action was also an activation place,
and left its activation places blocked when a callback threw.
---
 PTN_Engine/Transition.cpp | 42 +++++++++++++++++++++------------------
 PTN_Engine/Transition.h   |  3 ---
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 4ac0a5f..54d5708 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -80,23 +80,33 @@ string Transition::getName() const
 bool Transition::execute()
 {
 	unique_lock guard(m_mutex);
-	bool result = false;
 
-	blockStartingOnEnterActions(true);
-
-	if (!isActive())
-	{
-		result = false;
-	}
-	else
 	{
-		performTransit();
-		result = true;
-	}
+		// Keeps the on enter actions of the activation places blocked, also if an exception is thrown. They
+		// must be unblocked before entering the destination places, which may be activation places as well.
+		struct BlockGuard
+		{
+			explicit BlockGuard(const Transition &transition)
+			: m_transition(transition)
+			{
+				m_transition.blockStartingOnEnterActions(true);
+			}
+			~BlockGuard()
+			{
+				m_transition.blockStartingOnEnterActions(false);
+			}
+			const Transition &m_transition;
+		} blockGuard(*this);
 
-	blockStartingOnEnterActions(false);
+		if (!isActive())
+		{
+			return false;
+		}
+		exitActivationPlaces();
+	}
 
-	return result;
+	enterDestinationPlaces();
+	return true;
 }
 
 bool Transition::isEnabled() const
@@ -363,12 +373,6 @@ bool Transition::noActionsInExecution() const
 	return true;
 }
 
-void Transition::performTransit() const
-{
-	exitActivationPlaces();
-	enterDestinationPlaces();
-}
-
 void Transition::exitActivationPlaces() const
 {
 	for (const Arc &activationArc : m_activationArcs)
diff --git a/PTN_Engine/Transition.h b/PTN_Engine/Transition.h
index 41f8146..df1d5c2 100755
--- a/PTN_Engine/Transition.h
+++ b/PTN_Engine/Transition.h
@@ -156,9 +156,6 @@ private:
 	//!
 	bool noActionsInExecution() const;
 
-	//! Moves the tokens from the inputs to the outputs.
-	void performTransit() const;
-
 	std::vector<Arc> m_activationArcs;
 
 	//! Pointers to the controller's functions that evaluate if the transition can be fired.
-- 
2.43.0


From 4ecf779a63f92f3cad4fa9ec8ea39c87de8e3ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 04/20] fix: stop() joins the event loop thread

The barrier shared with the event loop thread could be replaced by the next
start, or destroyed with the engine, while the stopped thread was still using it.
---
 PTN_Engine/EventLoop.cpp | 10 ++++------
 PTN_Engine/EventLoop.h   |  4 ----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index f1b7028..e280a7f 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -39,15 +39,15 @@ bool EventLoop::isRunning() const
 
 void EventLoop::stop() noexcept
 {
-	if (!isRunning())
+	if (!m_eventLoopThread.joinable())
 	{
 		return;
 	}
 
-	if (m_eventLoopThread.get_stop_token().stop_possible())
+	m_eventLoopThread.request_stop();
+	if (m_eventLoopThread.get_id() != this_thread::get_id())
 	{
-		m_eventLoopThread.request_stop();
-		m_barrier->arrive_and_wait();
+		m_eventLoopThread.join();
 	}
 }
 
@@ -64,7 +64,6 @@ void EventLoop::start(const bool log, ostream &o)
 	}
 	else
 	{
-		m_barrier = make_unique<barrier<>>(2);
 		m_eventLoopThreadRunning = true;
 		m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
 	}
@@ -102,6 +101,5 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 		}
 	}
 	m_eventLoopThreadRunning = false;
-	m_barrier->arrive_and_wait();
 }
 } // namespace ptne
diff --git a/PTN_Engine/EventLoop.h b/PTN_Engine/EventLoop.h
index e4db3f6..119051a 100755
--- a/PTN_Engine/EventLoop.h
+++ b/PTN_Engine/EventLoop.h
@@ -19,7 +19,6 @@
 #pragma once
 
 #include <atomic>
-#include <barrier>
 #include <chrono>
 #include <condition_variable>
 #include <mutex>
@@ -99,9 +98,6 @@ private:
 	//! Reference to the petri net engine.
 	IPTN_EngineEL &m_ptnEngine;
 
-	//! Barrier to synchronize the event loop thread.
-	std::unique_ptr<std::barrier<>> m_barrier = nullptr;
-
 	//! Event loop thread.
 	std::jthread m_eventLoopThread;
 
-- 
2.43.0


From 324c2ca6e7d9197019093c427b9ef3d6f599ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 05/20] fix: stop() wakes up the idle event loop

Stopping or destroying an engine waited until the event loop's idle period was over.
---
 PTN_Engine/EventLoop.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index e280a7f..a77c4e0 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -44,7 +44,12 @@ void EventLoop::stop() noexcept
 		return;
 	}
 
-	m_eventLoopThread.request_stop();
+	{
+		unique_lock eventNotifierGuard(m_eventNotifierMutex);
+		m_eventLoopThread.request_stop();
+		m_eventNotifier.notify_all();
+	}
+
 	if (m_eventLoopThread.get_id() != this_thread::get_id())
 	{
 		m_eventLoopThread.join();
@@ -97,7 +102,8 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 			shared_lock lock(m_sleepDurationMutex);
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
 			m_eventNotifier.wait_for(eventNotifierGuard, m_sleepDuration,
-									 [this] { return m_ptnEngine.getNewInputReceived(); });
+									 [this, &stopToken]
+									 { return m_ptnEngine.getNewInputReceived() || stopToken.stop_requested(); });
 		}
 	}
 	m_eventLoopThreadRunning = false;
-- 
2.43.0


From e198fddd3677df989839518e31126f68a8716aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 06/20] fix: setSleepDuration() must not wait for the idle
 period

The event loop kept the mutex of the sleep duration locked while idle.
---
 PTN_Engine/EventLoop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index a77c4e0..47f9a42 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -99,9 +99,9 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 	{
 		if (!m_ptnEngine.executeInt(log, o))
 		{
-			shared_lock lock(m_sleepDurationMutex);
+			const auto sleepDuration = getSleepDuration();
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
-			m_eventNotifier.wait_for(eventNotifierGuard, m_sleepDuration,
+			m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,
 									 [this, &stopToken]
 									 { return m_ptnEngine.getNewInputReceived() || stopToken.stop_requested(); });
 		}
-- 
2.43.0


From ed99528e3d9e0b6f048c7d58888e261f7b3dffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 07/20] fix: read a place's number of tokens under its mutex in
 placeProperties()

---
 PTN_Engine/Place.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index 93b4e5b..c8e4dc7 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -161,6 +161,7 @@ void Place::blockStartingOnEnterActions(const bool value)
 
 PlaceProperties Place::placeProperties() const
 {
+	shared_lock guard(m_mutex);
 	PlaceProperties placeProperties;
 	placeProperties.name = m_name;
 	placeProperties.onEnterActionFunctionName = m_onEnterActionName;
-- 
2.43.0


From 4c0b579b546a9425df1e7cce3ffef572fc3a07e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 08/20] fix: adding or removing a bidirectional arc has no
 partial effect when refused

---
 PTN_Engine/Transition.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 54d5708..ae3e220 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -228,7 +228,7 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 {
 	unique_lock guard(m_mutex);
 
-	auto addArcTo = [&place, weight](auto &placesContainer)
+	auto checkNew = [&place](const auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
 		{ return lockWeakPtr(arc.place)->getName() == place->getName(); };
@@ -237,6 +237,11 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 		{
 			throw PTN_Exception("Arc already exists");
 		}
+	};
+
+	auto addArcTo = [&place, &checkNew, weight](auto &placesContainer)
+	{
+		checkNew(placesContainer);
 		placesContainer.push_back({ place, weight });
 	};
 
@@ -254,6 +259,7 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 	}
 	case BIDIRECTIONAL:
 	{
+		checkNew(m_destinationArcs);
 		addArcTo(m_activationArcs);
 		addArcTo(m_destinationArcs);
 		break;
@@ -275,22 +281,22 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 {
 	unique_lock guard(m_mutex);
 
-	auto removePlaceFrom = [&place](auto &placesContainer)
+	auto findPlaceIn = [&place](auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
 		{ return lockWeakPtr(arc.place)->getName() == place->getName(); };
 
 		auto it = ranges::find_if(placesContainer, sameNameAs);
-		if (it != placesContainer.cend())
-		{
-			placesContainer.erase(it);
-		}
-		else
+		if (it == placesContainer.cend())
 		{
 			throw PTN_Exception("Cannot remove palce " + place->getName());
 		}
+		return it;
 	};
 
+	auto removePlaceFrom = [&findPlaceIn](auto &placesContainer)
+	{ placesContainer.erase(findPlaceIn(placesContainer)); };
+
 	using enum ArcProperties::Type;
 	switch (type)
 	{
@@ -305,6 +311,7 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 	}
 	case BIDIRECTIONAL:
 	{
+		findPlaceIn(m_destinationArcs);
 		removePlaceFrom(m_activationArcs);
 		removePlaceFrom(m_destinationArcs);
 		break;
-- 
2.43.0


From f6616477c54fb7d6849efa01c46526a012cdc87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 09/20] fix: addArc refuses a weight of zero except for reset
 arcs

A destination arc without weight was accepted, and firing the transition then
threw, after tokens were removed from its activation places.
---
 PTN_Engine/PTN_EngineImp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PTN_Engine/PTN_EngineImp.cpp b/PTN_Engine/PTN_EngineImp.cpp
index f4429b1..ffc6993 100755
--- a/PTN_Engine/PTN_EngineImp.cpp
+++ b/PTN_Engine/PTN_EngineImp.cpp
@@ -217,6 +217,12 @@ void PTN_EngineImp::addArc(const ArcProperties &arcProperties) const
 							" must already exist in order to link to an arc.");
 	}
 
+	// only an activation arc may have no weight: it resets the place
+	if (arcProperties.weight == 0 && arcProperties.type != ArcProperties::Type::ACTIVATION)
+	{
+		throw ZeroValueWeightException();
+	}
+
 	auto spTransition = m_transitions.getTransition(arcProperties.transitionName);
 	spTransition->addArc(spPlace, arcProperties.type, arcProperties.weight);
 }
-- 
2.43.0


From cfdf5a17d425fd4616e0b3a8b10c5935f216f852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 10/20] fix: an exporter used again must not repeat the
 previous document

---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
index bc4127d..afd48ff 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
@@ -31,6 +31,7 @@ XML_FileExporter::~XML_FileExporter() = default;
 void XML_FileExporter::_export(const PTN_Engine &ptnEngine, const string &filePath)
 {
 	m_filePath = filePath;
+	m_document.reset();
 	m_rootNode = m_document.append_child("PTN-Engine");
 	m_rootNode.append_attribute("version").set_value("3.0");
 	m_rootNode.append_attribute("format").set_value("1");
-- 
2.43.0


From 1b886e89c6b74116f51f9fa5143c03fe3f297b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 11/20] fix: report that the exported file could not be written

---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
index afd48ff..fc06ac5 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
@@ -18,6 +18,7 @@
 
 #include "XML/XML_FileExporter.h"
 #include "PTN_Engine/PTN_Engine.h"
+#include "PTN_Engine/PTN_Exception.h"
 #include <pugixml.hpp>
 #include <vector>
 
@@ -101,7 +102,10 @@ void XML_FileExporter::exportTransition(const TransitionProperties &transitionPr
 
 void XML_FileExporter::saveFile() const
 {
-	m_document.save_file(m_filePath.c_str());
+	if (!m_document.save_file(m_filePath.c_str()))
+	{
+		throw PTN_Exception("Could not write " + m_filePath);
+	}
 }
 
 } // namespace ptne
-- 
2.43.0


From 27c346638ae122940315bffab9f98558742b5381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 12/20] fix: the importer refuses malformed numbers and
 booleans

Numbers of tokens and weights were converted with atol, which turns garbage
into 0 and limits values to LONG_MAX; trailing garbage was accepted for the
weights of arcs, and any value of input other than true meant false.
---
 .../XML/src/XML/XML_FileImporter.cpp          | 61 +++++++++++--------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
index 4061133..d90689b 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
@@ -34,6 +34,35 @@ string getAttributeValue(const xml_node &node, const string &attrName)
 	return node.attribute(attrName.c_str()).value();
 }
 
+size_t toSize(const string &value)
+{
+	size_t result{};
+	const auto [ptr, ec] = from_chars(value.data(), value.data() + value.size(), result);
+
+	if (ec != errc() || ptr != value.data() + value.size())
+	{
+		throw PTN_Exception("Could not convert from string to int");
+	}
+
+	return result;
+}
+
+bool toBool(const string &name, const string &value)
+{
+	if (value == "true")
+	{
+		return true;
+	}
+	else if (value == "false")
+	{
+		return false;
+	}
+	else
+	{
+		throw PTN_Exception("Invalid value for " + name + ": " + value);
+	}
+}
+
 vector<string> collectTransitionAttributes(const xml_node &transition, const string &attribute)
 {
 	vector<string> activationConditions;
@@ -54,7 +83,7 @@ collectArcAttributes(const xml_node &transition, const string &attribute, const
 		const string weightStr(activationCondition.attribute("weight").value());
 		if (!string(activationCondition.attribute("weight").value()).empty())
 		{
-			weight = static_cast<size_t>(atol(weightStr.c_str()));
+			weight = toSize(weightStr);
 		}
 
 		arcsProperties.emplace_back(weight, activationCondition.attribute("name").value(), activationConditionName,
@@ -72,35 +101,13 @@ T getNodeValue(const string &nodeName, const xml_node &xmlNode)
 template <>
 bool getNodeValue(const string &nodeName, const xml_node &xmlNode)
 {
-	const string v = xmlNode.child(nodeName.c_str()).attribute("value").value();
-	if (v == "true")
-	{
-		return true;
-	}
-	else if (v == "false")
-	{
-		return false;
-	}
-	else
-	{
-		throw PTN_Exception("Invalid value for " + nodeName + ": " + v);
-	}
+	return toBool(nodeName, xmlNode.child(nodeName.c_str()).attribute("value").value());
 }
 
 template <>
 size_t getNodeValue(const string &nodeName, const xml_node &xmlNode)
 {
-	const string v = xmlNode.child(nodeName.c_str()).attribute("value").value();
-
-	size_t result{};
-	auto [ptr, ec] = from_chars(v.data(), v.data() + v.size(), result);
-
-	if (ec != errc())
-	{
-		throw PTN_Exception("Could not convert from string to int");
-	}
-
-	return result;
+	return toSize(xmlNode.child(nodeName.c_str()).attribute("value").value());
 }
 
 } // namespace
@@ -132,13 +139,13 @@ vector<PlaceProperties> XML_FileImporter::importPlaces() const
 		bool isInput = false;
 		if (const string isInputStr = getAttributeValue(place, "input"); !isInputStr.empty())
 		{
-			isInput = isInputStr == "true" ? true : false;
+			isInput = toBool("input", isInputStr);
 		}
 
 		size_t numberOfTokens = 0;
 		if (const string numberOfTokensStr = getAttributeValue(place, "tokens"); !numberOfTokensStr.empty())
 		{
-			numberOfTokens = static_cast<size_t>(atol(numberOfTokensStr.c_str()));
+			numberOfTokens = toSize(numberOfTokensStr);
 		}
 
 		placeProperties.name = getAttributeValue(place, "name");
-- 
2.43.0


From 095ff016cd4749291955d9e0cffe97400db6988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 13/20] fix: deactivating the job queue

Deactivating twice without a job in between joined a thread that was already
joined and terminated; a job added while deactivating could start after it; and
the worker thread was accessed without synchronization.
---
 PTN_Engine/JobQueue/JobQueue.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/PTN_Engine/JobQueue/JobQueue.cpp b/PTN_Engine/JobQueue/JobQueue.cpp
index bde84e0..8e47a3c 100755
--- a/PTN_Engine/JobQueue/JobQueue.cpp
+++ b/PTN_Engine/JobQueue/JobQueue.cpp
@@ -40,16 +40,21 @@ void JobQueue::activate()
 
 void JobQueue::deactivate() noexcept
 {
-	if (!m_isJobQueueActive)
+	jthread workerThread;
 	{
-		return;
+		lock_guard l(m_jobQueueMutex);
+		m_isJobQueueActive = false;
+		if (m_workerThread.get_id() == this_thread::get_id())
+		{
+			// called from a job: it is the last one to run
+			return;
+		}
+		workerThread.swap(m_workerThread);
 	}
-	if (m_workerThread.get_stop_token().stop_possible())
+	if (workerThread.joinable())
 	{
-		m_workerThread.request_stop();
-		m_workerThread.join();
+		workerThread.join();
 	}
-	m_isJobQueueActive = false;
 }
 
 bool JobQueue::isActive() const
@@ -77,7 +82,7 @@ void JobQueue::launch()
 void JobQueue::run(stop_token stopToken)
 {
 	unique_lock l(m_jobQueueMutex);
-	while (!m_jobQueue.empty() && !stopToken.stop_requested())
+	while (!m_jobQueue.empty() && m_isJobQueueActive && !stopToken.stop_requested())
 	{
 		ActionFunction job = m_jobQueue.back();
 		m_jobQueue.pop_back();
-- 
2.43.0


From 9594c1b816589f40baaff2ace25e8ce21ced0771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 14/20] fix: execute() that cannot create the event loop thread
 leaves the engine stopped

---
 PTN_Engine/EventLoop.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index 47f9a42..2b9c7bd 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -70,7 +70,15 @@ void EventLoop::start(const bool log, ostream &o)
 	else
 	{
 		m_eventLoopThreadRunning = true;
-		m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
+		try
+		{
+			m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
+		}
+		catch (...)
+		{
+			m_eventLoopThreadRunning = false;
+			throw;
+		}
 	}
 }
 
-- 
2.43.0


From d01339decaac577609ec5bbb2b7436d0eb6722b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 15/20] fix: an action that throws is no longer in execution

---
 PTN_Engine/Executor/SingleThreadExecutor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/Executor/SingleThreadExecutor.cpp b/PTN_Engine/Executor/SingleThreadExecutor.cpp
index 28bb5e0..19ebcac 100644
--- a/PTN_Engine/Executor/SingleThreadExecutor.cpp
+++ b/PTN_Engine/Executor/SingleThreadExecutor.cpp
@@ -28,7 +28,15 @@ void SingleThreadExecutor::executeAction(const ActionFunction &action,
                                         const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
 	++*actionsInExecution;
-	action();
+	try
+	{
+		action();
+	}
+	catch (...)
+	{
+		--*actionsInExecution;
+		throw;
+	}
 	--*actionsInExecution;
 }
 
-- 
2.43.0


From ccbf0e862ec2982d23972f30bd9ce3c346a4cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 16/20] fix: an action whose thread cannot be created is not in
 execution

---
 PTN_Engine/Executor/DetachedExecutor.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/Executor/DetachedExecutor.cpp b/PTN_Engine/Executor/DetachedExecutor.cpp
index 282cbf5..30dce2e 100644
--- a/PTN_Engine/Executor/DetachedExecutor.cpp
+++ b/PTN_Engine/Executor/DetachedExecutor.cpp
@@ -34,8 +34,16 @@ void DetachedExecutor::executeAction(const ActionFunction &action,
 		action();
 		--*actionsInExecution;
 	};
-	auto t = thread(job);
-	t.detach();
+	try
+	{
+		auto t = thread(job);
+		t.detach();
+	}
+	catch (...)
+	{
+		--*actionsInExecution;
+		throw;
+	}
 }
 
 } // namespace ptne
-- 
2.43.0


From 5c43bdccd0bfc0cd52a2af1d471c267e785c4c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 17/20] fix: changing the actions thread option does not drop
 pending actions

The job queue was destroyed, and the actions waiting in it never executed; a
transition requiring no actions in execution then waited for them forever. The
thread changing the option also waited for an action in execution, which never
ends if the action calls the engine.
---
 PTN_Engine/PTN_EngineImp.cpp | 8 +++++++-
 PTN_Engine/PTN_EngineImp.h   | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/PTN_EngineImp.cpp b/PTN_Engine/PTN_EngineImp.cpp
index ffc6993..f500a48 100755
--- a/PTN_Engine/PTN_EngineImp.cpp
+++ b/PTN_Engine/PTN_EngineImp.cpp
@@ -33,6 +33,7 @@ PTN_EngineImp::PTN_EngineImp(PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOpti
 , m_actionsExecutor(ActionsExecutorFactory::createExecutor(actionsThreadOption))
 , m_eventLoop(*this)
 {
+	m_actionsExecutors[actionsThreadOption] = m_actionsExecutor;
 }
 
 PTN_EngineImp::~PTN_EngineImp()
@@ -130,7 +131,12 @@ void PTN_EngineImp::setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTI
 		return;
 	}
 
-	m_actionsExecutor = ActionsExecutorFactory::createExecutor(actionsThreadOption);
+	auto &actionsExecutor = m_actionsExecutors[actionsThreadOption];
+	if (actionsExecutor == nullptr)
+	{
+		actionsExecutor = ActionsExecutorFactory::createExecutor(actionsThreadOption);
+	}
+	m_actionsExecutor = actionsExecutor;
 	m_actionsThreadOption = actionsThreadOption;
 
 	m_places.setActionsExecutor(m_actionsExecutor);
diff --git a/PTN_Engine/PTN_EngineImp.h b/PTN_Engine/PTN_EngineImp.h
index 143a4b9..a6e0ff1 100755
--- a/PTN_Engine/PTN_EngineImp.h
+++ b/PTN_Engine/PTN_EngineImp.h
@@ -28,6 +28,7 @@
 #include "PTN_Engine/PlacesManager.h"
 #include "PTN_Engine/TransitionsManager.h"
 #include <atomic>
+#include <map>
 #include <shared_mutex>
 
 namespace ptne
@@ -193,6 +194,9 @@ private:
 	//! Container with all the actions available to this Petri net.
 	ManagedContainer<ActionFunction> m_actions;
 
+	//! The executors used so far. They are kept, because they may still have actions to execute.
+	std::map<PTN_Engine::ACTIONS_THREAD_OPTION, std::shared_ptr<IActionsExecutor>> m_actionsExecutors;
+
 	//! Executes the actions associated to each place, when tokens enter or exit them.z
 	std::shared_ptr<IActionsExecutor> m_actionsExecutor;
 
-- 
2.43.0


From b5df1698dde2ecf8447d3e0538bffcd1f012192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:19 +0000
Subject: [PATCH 18/20] fix: an executed job is destroyed without holding the
 job queue's mutex

The destruction of a job's captures may add a job to the queue, which locked the
mutex already held by the same thread.
---
 PTN_Engine/JobQueue/JobQueue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/JobQueue/JobQueue.cpp b/PTN_Engine/JobQueue/JobQueue.cpp
index 8e47a3c..9fe823e 100755
--- a/PTN_Engine/JobQueue/JobQueue.cpp
+++ b/PTN_Engine/JobQueue/JobQueue.cpp
@@ -88,6 +88,7 @@ void JobQueue::run(stop_token stopToken)
 		m_jobQueue.pop_back();
 		l.unlock();
 		job();
+		job = nullptr; // its destruction may call the job queue
 		l.lock();
 	}
 	m_isJobQueueRunning = false;
-- 
2.43.0


From d47e0199803416aebaa3ff5a390f26407dd1390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 19/20] fix: the factorial example computed 0 for 0!

---
 Doc/User Guide/UserGuide.md | 4 ++--
 Examples/Factorial/main.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Doc/User Guide/UserGuide.md b/Doc/User Guide/UserGuide.md
index 4b2be4e..b043165 100644
--- a/Doc/User Guide/UserGuide.md	
+++ b/Doc/User Guide/UserGuide.md	
@@ -39,9 +39,9 @@ These are the functions you want to invoke when a token enters or exits a given
 Example:
 ```cpp
 ActionFunction compute = [&x, &result](){
-	result *= x;
 	if (x > 0)
 	{
+		result *= x;
 		--x;
 	}
 };
@@ -116,9 +116,9 @@ int main(int, char **)
 
     ActionFunction compute = [&x, &result]()
     {
-    	result *= x;
     	if (x > 0)
     	{
+    		result *= x;
     		--x;
     	}
     };
diff --git a/Examples/Factorial/main.cpp b/Examples/Factorial/main.cpp
index 38beab1..7ec4924 100755
--- a/Examples/Factorial/main.cpp
+++ b/Examples/Factorial/main.cpp
@@ -31,9 +31,9 @@ int main(int, char **)
 
 	ActionFunction compute = [&x, &result]()
 	{
-		result *= x;
 		if (x > 0)
 		{
+			result *= x;
 			--x;
 		}
 	};
-- 
2.43.0


From 84b624e9bddc1de189da1494db1c97ff15211750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 20/20] fix: destroy the elevator's net before the lists its
 actions use

---
 Examples/Elevator/Controller/ElevatorController.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Examples/Elevator/Controller/ElevatorController.h b/Examples/Elevator/Controller/ElevatorController.h
index 855e12a..c83f3bf 100755
--- a/Examples/Elevator/Controller/ElevatorController.h
+++ b/Examples/Elevator/Controller/ElevatorController.h
@@ -60,11 +60,6 @@ public:
 private:
 	mutable std::shared_mutex m_mutex;
 
-	using PtrPetriNet = std::unique_ptr<IElevatorPetriNet>;
-
-	//! The state machine of the controller.
-	PtrPetriNet m_pPetriNet = nullptr;
-
 	//! Floor where the elevator currently is.
 	int m_currentFloor = 0;
 
@@ -139,4 +134,9 @@ private:
 	bool isMinGreaterThanCurrent() const;
 	bool isMaxSmallerThanCurrent() const;
 	bool isMaxGreaterThanCurrent() const;
+
+	using PtrPetriNet = std::unique_ptr<IElevatorPetriNet>;
+
+	//! The state machine of the controller. The last member: its actions use the others until it is destroyed.
+	PtrPetriNet m_pPetriNet = nullptr;
 };
-- 
2.43.0

