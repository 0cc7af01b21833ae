// Self-test: the synchronisation primitives of the standard library run under the controlled scheduler.
#include "common.h"
#include <latch>
#include <barrier>
#include <semaphore>
#include <future>
#include <condition_variable>
#include <shared_mutex>
#include <syncstream>
#include <stop_token>
#include <chrono>
#include <memory_resource>
using namespace std::chrono_literals;
MC_SCENARIO(ok_latch, { .p = 1 })
{
	std::latch l(2); int x = 0;
	std::thread a([&] { x = 1; l.count_down(); });
	l.arrive_and_wait();
	MC_CHECK(x == 1, "x");
	a.join();
}
MC_SCENARIO(ok_barrier, { .p = 1 })
{
	int n = 0;
	std::barrier b(2, [&]() noexcept { ++n; });
	std::thread a([&] { b.arrive_and_wait(); b.arrive_and_wait(); });
	b.arrive_and_wait(); b.arrive_and_wait();
	a.join();
	MC_CHECK(n == 2, "n");
}
MC_SCENARIO(ok_semaphore, { .p = 1 })
{
	std::counting_semaphore<> s(0); int x = 0;
	std::thread a([&] { x = 1; s.release(); });
	s.acquire();
	MC_CHECK(x == 1, "x");
	std::binary_semaphore q(0);
	MC_CHECK(!q.try_acquire(), "t");
	MC_CHECK(!q.try_acquire_for(10ms), "t");
	a.join();
}
MC_SCENARIO(ok_once, { .p = 1 })
{
	std::once_flag f; int n = 0;
	auto w = [&] { std::call_once(f, [&] { ++n; }); };
	std::thread a(w), b(w);
	w();
	MC_CHECK(n == 1, "n");
	a.join(); b.join();
}
MC_SCENARIO(ok_once_throw, { .p = 1 })
{
	std::once_flag f; int n = 0;
	try { std::call_once(f, [&] { throw 1; }); } catch (int) {}
	std::call_once(f, [&] { ++n; });
	MC_CHECK(n == 1, "n");
}
MC_SCENARIO(ok_atomic_wait, { .p = 1 })
{
	std::atomic<int> v = 0; int x = 0;
	std::thread a([&] { x = 1; v = 1; v.notify_one(); });
	v.wait(0);
	MC_CHECK(x == 1, "x");
	a.join();
	std::atomic_flag g;
	std::thread b([&] { g.test_and_set(); g.notify_all(); });
	g.wait(false);
	b.join();
	std::atomic<bool> h = false;
	std::thread c([&] { h = true; h.notify_all(); });
	h.wait(false);
	c.join();
}
MC_SCENARIO(ok_cv_any, { .p = 1 })
{
	std::shared_mutex m; std::condition_variable_any c; bool f = false;
	std::thread a([&] { { std::unique_lock l(m); f = true; } c.notify_one(); });
	{ std::shared_lock l(m); c.wait(l, [&] { return f; }); }
	a.join();
	std::jthread j([&](std::stop_token t) { std::unique_lock l(m); c.wait(l, t, [] { return false; }); });
	j.request_stop();
	j.join();
	std::unique_lock l(m);
	MC_CHECK(!c.wait_for(l, 5ms, [] { return false; }), "w");
}
MC_SCENARIO(ok_recursive, { .p = 1 })
{
	std::recursive_mutex m; int x = 0;
	auto w = [&] { std::lock_guard l(m); std::lock_guard k(m); ++x; };
	std::thread a(w); w(); a.join();
	MC_CHECK(x == 2, "x");
}
MC_SCENARIO(ok_timed, { .p = 1 })
{
	std::timed_mutex m; std::shared_timed_mutex s; std::recursive_timed_mutex r;
	m.lock(); s.lock();
	std::thread a([&] { MC_CHECK(!m.try_lock_for(10ms), "m"); MC_CHECK(!s.try_lock_shared_for(10ms), "s"); MC_CHECK(!s.try_lock_until(std::chrono::steady_clock::now() + 5ms), "s"); });
	a.join();
	m.unlock(); s.unlock();
	std::thread b([&] { MC_CHECK(m.try_lock_for(10ms), "m"); m.unlock(); MC_CHECK(s.try_lock_shared(), "s"); s.unlock_shared(); r.lock(); r.unlock(); });
	b.join();
}
MC_SCENARIO(ok_future, { .p = 1 })
{
	auto f = std::async(std::launch::async, [] { return 3; });
	MC_CHECK(f.get() == 3, "f");
	std::promise<int> p; auto g = p.get_future();
	std::thread a([&] { p.set_value(4); });
	MC_CHECK(g.get() == 4, "g");
	a.join();
	std::packaged_task<int()> t([] { return 5; }); auto h = t.get_future();
	std::thread b(std::move(t));
	b.join();
	MC_CHECK(h.wait_for(1s) == std::future_status::ready && h.get() == 5, "h");
	std::promise<int> q;
	MC_CHECK(q.get_future().wait_for(5ms) == std::future_status::timeout, "q");
}
MC_SCENARIO(ok_stop_callback, { .p = 1 })
{
	std::atomic<int> n = 0;
	std::stop_source s;
	std::stop_callback c(s.get_token(), [&] { ++n; });
	std::thread a([&] { s.request_stop(); });
	a.join();
	MC_CHECK(n == 1, "n");
}
MC_SCENARIO(ok_until, { .p = 1 })
{
	std::mutex m; std::condition_variable c; std::unique_lock l(m);
	const auto t = std::chrono::steady_clock::now();
	c.wait_until(l, t + 20ms, [] { return false; });
	MC_CHECK(std::chrono::steady_clock::now() >= t + 20ms, "t");
	std::this_thread::sleep_until(t + 50ms);
	MC_CHECK(std::chrono::steady_clock::now() >= t + 50ms, "t");
	const auto u = std::chrono::system_clock::now();
	c.wait_until(l, u + 20ms);
	std::this_thread::sleep_for(20ms);
	MC_CHECK(std::chrono::system_clock::now() >= u + 20ms, "t");
}
struct TL { std::atomic<int> *p = nullptr; ~TL() { if (p) ++*p; } };
static thread_local TL tl;
MC_SCENARIO(ok_thread_local, { .p = 1 })
{
	std::atomic<int> n = 0;
	std::thread a([&] { tl.p = &n; }), b([&] { tl.p = &n; });
	a.join(); b.join();
	MC_CHECK(n == 2, "%d", n.load());
}
MC_SCENARIO(ok_misc, { .p = 1 })
{
	std::ostringstream o;
	std::thread a([&] { std::osyncstream(o) << "a"; });
	std::osyncstream(o) << "b";
	a.join();
	std::mutex m1, m2;
	std::thread b([&] { std::scoped_lock l(m1, m2); });
	{ std::scoped_lock l(m2, m1); }
	std::lock(m1, m2); m1.unlock(); m2.unlock();
	b.join();
	std::atomic<std::shared_ptr<int>> p = std::make_shared<int>(1);
	std::thread c([&] { p.store(std::make_shared<int>(2)); });
	auto q = p.load();
	MC_CHECK(*q == 1 || *q == 2, "q");
	c.join();
	std::pmr::synchronized_pool_resource pool;
	std::pmr::vector<int> v(10, &pool);
	std::thread d([&] { std::pmr::vector<int> w(10, &pool); });
	d.join();
	MC_CHECK(std::thread::hardware_concurrency() >= 0, "h");
	std::this_thread::yield();
	std::atomic<int> x = 0;
	std::atomic_ref<int> r(*(int *)&x);
	r.fetch_add(1);
	std::atomic_thread_fence(std::memory_order_seq_cst);
	std::atomic<double> dd = 1.0;
	dd.fetch_add(0.5);
}
