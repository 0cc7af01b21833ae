// Small programs with known verdicts: the model checker must find each planted error and stay quiet on the
// correct variants. Scenario names start with bad_ (a violation must be reported) or ok_.
#include "mc.h"
#include <atomic>
#include <barrier>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

MC_SCENARIO(bad_lostupdate, { .p = 1 })
{
	std::atomic<int> x{ 0 };
	auto f = [&] { int v = x.load(); x.store(v + 1); };
	std::thread a(f), b(f);
	a.join();
	b.join();
	mc::outcome("%d", x.load());
	MC_CHECK(x == 2, "lost update");
}
MC_SCENARIO(ok_update, {})
{
	std::atomic<int> x{ 0 };
	auto f = [&] { x++; };
	std::thread a(f), b(f);
	a.join();
	b.join();
	MC_CHECK(x == 2, "lost update");
}
MC_SCENARIO(bad_deadlock, { .p = 1 })
{
	std::mutex m, n;
	std::thread a([&] { std::lock_guard l(m); std::lock_guard k(n); });
	std::thread b([&] { std::lock_guard l(n); std::lock_guard k(m); });
	a.join();
	b.join();
}
MC_SCENARIO(ok_scopedlock, {})
{
	std::mutex m, n;
	std::thread a([&] { std::scoped_lock l(m, n); });
	std::thread b([&] { std::scoped_lock l(n, m); });
	a.join();
	b.join();
}
MC_SCENARIO(bad_race, { .p = 0 })
{
	int x = 0;
	std::thread a([&] { x = 1; });
	std::thread b([&] { x = 2; });
	a.join();
	b.join();
}
MC_SCENARIO(bad_race_relaxed, { .p = 1 })
{
	int *x = new int(0);
	std::atomic<bool> f{ false };
	std::thread a([&] { *x = 1; f.store(true, std::memory_order_relaxed); });
	if (f.load(std::memory_order_acquire))
		MC_CHECK(*x == 1, "x");
	a.join();
	delete x;
}
MC_SCENARIO(ok_release, {})
{
	int *x = new int(0);
	std::atomic<bool> f{ false };
	std::thread a([&] { *x = 1; f.store(true, std::memory_order_release); });
	if (f.load(std::memory_order_acquire))
		MC_CHECK(*x == 1, "x");
	a.join();
	delete x;
}
MC_SCENARIO(ok_mutexed, {})
{
	int x = 0;
	std::mutex m;
	std::vector<std::thread> t;
	for (int i = 0; i < 3; ++i)
		t.emplace_back([&] { std::lock_guard l(m); x++; });
	for (auto &k : t)
		k.join();
	MC_CHECK(x == 3, "x=%d", x);
}
MC_SCENARIO(ok_rwlock, {})
{
	int x = 0;
	std::shared_mutex m;
	std::thread a([&] { std::unique_lock l(m); x++; });
	std::thread b([&] { std::shared_lock l(m); mc::outcome("%d", x); });
	std::thread c([&] { std::shared_lock l(m); (void)x; });
	a.join();
	b.join();
	c.join();
}
MC_SCENARIO(bad_rwlock, { .p = 1 })
{
	int x = 0;
	std::shared_mutex m;
	std::thread a([&] { std::shared_lock l(m); x++; });
	std::thread b([&] { std::shared_lock l(m); x++; });
	a.join();
	b.join();
}
MC_SCENARIO(bad_uaf, { .p = 1 })
{
	auto *p = new std::atomic<int>(0);
	std::thread a([&] { (*p)++; });
	delete p;
	a.join();
}
MC_SCENARIO(bad_doublefree, { .p = 0 })
{
	int *p = new int;
	delete p;
	operator delete(p);
}
MC_SCENARIO(bad_lostwakeup, { .p = 1 })
{
	std::mutex m;
	std::condition_variable cv;
	std::atomic<bool> f{ false };
	std::thread a([&] { f = true; cv.notify_one(); });
	{
		std::unique_lock l(m);
		while (!f)
			cv.wait(l);
	}
	a.join();
}
MC_SCENARIO(ok_wakeup, {.p = 2, .t = 1})
{
	std::mutex m;
	std::condition_variable cv;
	bool f{ false };
	std::thread a([&] { { std::unique_lock l(m); f = true; } cv.notify_one(); });
	{
		std::unique_lock l(m);
		while (!f)
			cv.wait(l);
	}
	a.join();
}
MC_SCENARIO(bad_spurious, { .p = 0, .t = 1 })
{
	std::mutex m;
	std::condition_variable cv;
	bool f{ false };
	std::thread a([&] { { std::unique_lock l(m); f = true; } cv.notify_one(); });
	{
		std::unique_lock l(m);
		if (!f)
			cv.wait(l);
		MC_CHECK(f, "woken without f");
	}
	a.join();
}
MC_SCENARIO(bad_timeout_lost, { .p = 1 })
{
	std::mutex m;
	std::condition_variable cv;
	std::atomic<bool> f{ false };
	std::thread a([&] { f = true; cv.notify_one(); });
	{
		std::unique_lock l(m);
		while (!f)
			cv.wait_for(l, std::chrono::milliseconds(100));
	}
	MC_CHECK(mc::nowMs() == 0, "waited for the timer");
	a.join();
}
MC_SCENARIO(bad_livelock, { .p = 0 })
{
	std::atomic<bool> f{ false };
	while (!f)
		;
}
MC_SCENARIO(bad_hang, { .p = 0 })
{
	volatile int x = 0;
	while (!x)
		;
}
MC_SCENARIO(bad_poll, { .p = 0 })
{
	std::atomic<bool> f{ false };
	while (!f)
		std::this_thread::sleep_for(std::chrono::milliseconds(10));
}
MC_SCENARIO(ok_poll, {})
{
	std::atomic<bool> f{ false };
	std::thread a([&] { std::this_thread::sleep_for(std::chrono::milliseconds(55)); f = true; });
	while (!f)
		std::this_thread::sleep_for(std::chrono::milliseconds(10));
	a.join();
	mc::outcome("%ld", mc::nowMs());
	MC_CHECK(mc::nowMs() == 60 || mc::nowMs() == 50 || mc::nowMs() == 55, "%ld", mc::nowMs());
}
MC_SCENARIO(ok_spin, {})
{
	std::atomic<bool> f{ false };
	std::thread a([&] { f = true; });
	while (!f)
		std::this_thread::yield();
	a.join();
}
MC_SCENARIO(ok_jthread_barrier, {})
{
	int x = 0;
	std::barrier b(2);
	{
		std::jthread t([&](std::stop_token st) { x = 1; b.arrive_and_wait(); while (!st.stop_requested()) std::this_thread::yield(); });
		b.arrive_and_wait();
		MC_CHECK(x == 1, "x");
	}
}
MC_SCENARIO(ok_shared_ptr, {})
{
	auto p = std::make_shared<std::string>("a string that is long enough to be on the heap");
	std::thread a([q = p] { MC_CHECK(q->size() > 3, "q"); });
	std::thread b([q = p] { MC_CHECK(q->size() > 3, "q"); });
	p.reset();
	a.join();
	b.join();
}
MC_SCENARIO(ok_exceptions, {})
{
	auto f = [] { try { throw std::runtime_error("x"); } catch (std::exception &) { std::this_thread::yield(); } };
	std::thread a(f), b(f);
	a.join();
	b.join();
}
MC_SCENARIO(bad_terminate, { .p = 0 })
{
	std::thread a([] { throw 1; });
	a.join();
}
MC_SCENARIO(bad_unjoined, { .p = 0 })
{
	std::thread a([] {});
}
MC_SCENARIO(bad_crash, { .p = 0 })
{
	volatile long *p = (long *)8;
	*p = 1;
}
MC_SCENARIO(bad_choice, { .p = 0 })
{
	int a = mc::choose(5), b = mc::config(7);
	mc::outcome("%d %d", a, b);
	MC_CHECK(a * 7 + b != 30, "found");
}
MC_SCENARIO(bad_fault, { .p = 0, .f = 1 })
{
	mc::threadFaults(true);
	std::thread a([] {});
	a.join();
}
MC_SCENARIO(bad_random, { .p = 0 })
{
	mc::seeds(3);
	std::vector<int> v;
	(void)v;
	MC_CHECK(mc::choose(3) < 2, "x");
}
MC_SCENARIO(bad_detached_uaf, { .p = 0 })
{
	std::atomic<int> *x = new std::atomic<int>(0);
	std::thread([x] { std::this_thread::sleep_for(std::chrono::milliseconds(5)); x->store(1); }).detach();
	delete x;
}
MC_SCENARIO(bad_static_race, { .p = 0 })
{
	static int counter;
	std::thread a([&] { counter++; });
	counter++;
	a.join();
}
MC_SCENARIO(ok_static_init, {})
{
	auto f = [] { static std::string s("some long string, long enough for the heap"); MC_CHECK(s.size() > 5, "s"); };
	std::thread a(f), b(f);
	a.join();
	b.join();
}
MC_SCENARIO(ok_quiesce, {})
{
	std::mutex m;
	std::condition_variable cv;
	bool f = false, g = false;
	std::thread a([&] { std::unique_lock l(m); cv.wait(l, [&] { return f; }); g = true; });
	mc::quiesce();
	{ std::lock_guard l(m); f = true; }
	cv.notify_all();
	mc::quiesce();
	{ std::lock_guard l(m); MC_CHECK(g, "not woken"); }
	a.join();
}
MC_SCENARIO(ok_starving, { .p = 0 })
{
	// the lock is held at every yield and free only for a moment: fairness lets the other thread in
	std::mutex m;
	bool f = false;
	std::thread a([&] { for (;;) { std::lock_guard l(m); if (f) break; std::this_thread::yield(); } });
	{ std::lock_guard l(m); f = true; }
	a.join();
}
MC_SCENARIO(bad_endless, { .p = 0 })
{
	std::atomic<bool> f{ false };
	std::thread a([&] { while (!f) std::this_thread::yield(); });
	std::thread b([&] { while (!f) std::this_thread::yield(); });
	a.join();
	f = true;
	b.join();
}

MC_SCENARIO(ok_heap, { .p = 0 })
{
	const long blocks = mc::heapBlocks(), bytes = mc::heapBytes();
	for (int i = 0; i < 3; ++i)
	{
		std::thread a(
		[&]
		{
			auto *volatile p = new char[100];
			MC_CHECK(mc::heapBlocks() > blocks && mc::heapBytes() >= bytes + 100, "not counted");
			delete[] p;
		});
		a.join();
		MC_CHECK(mc::heapBlocks() == blocks && mc::heapBytes() == bytes, "%ld blocks, %ld bytes are left", mc::heapBlocks() - blocks, mc::heapBytes() - bytes);
	}
}
MC_SCENARIO(bad_leak, { .p = 0 })
{
	const long blocks = mc::heapBlocks();
	auto *volatile p = new int[3];
	(void)p;
	MC_CHECK(mc::heapBlocks() == blocks, "left");
}
