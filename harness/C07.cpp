// JOB_QUEUE executes actions one at a time, in trigger order (C07).
// MC_MAXF: 64
#include "common.h"
#include <atomic>
#include <optional>

// An action that logs its execution; 5: start, 6: end.
static ActionFunction act(long id)
{
	return [id]
	{
		mc::event(5, id);
		mc::event(6, id);
	};
}
// The ids executed, in order; fails if executions overlap.
static vector<long> executed()
{
	vector<long> r;
	long open = -1;
	for (int i = 0; i < mc::events(); ++i)
	{
		auto &e = mc::at(i);
		if (e.kind == 5)
		{
			MC_CHECK(open == -1, "actions %ld and %ld overlap", open, e.a);
			open = e.a;
			r.push_back(e.a);
		}
		else if (e.kind == 6)
			open = -1;
	}
	return r;
}
static string text(const vector<long> &v)
{
	string s;
	for (long x : v)
		s += std::to_string(x) + " ";
	return s;
}
static void expect(const vector<long> &want, const char *what)
{
	mc::quiesce();
	auto got = executed();
	MC_CHECK(got == want, "%s: executed %sinstead of %s", what, text(got).c_str(), text(want).c_str());
}

// Injections one after the other while the worker executes, goes idle or is started.
static void injections(int n, int settleMask, bool running)
{
	Eng e(Mode::JOB_QUEUE);
	for (int i = 0; i < n; ++i)
		place(e, { "p" + std::to_string(i), 0, true, act(i) });
	transition(e, { "t", { { "p0", 5 } }, {} });
	if (running)
		e.execute();
	vector<long> want;
	for (int i = 0; i < n; ++i)
	{
		e.incrementInputPlace("p" + std::to_string(i));
		want.push_back(i);
		if (settleMask >> i & 1)
			mc::quiesce();
	}
	expect(want, "injections");
	e.stop();
}
MC_SCENARIO(inject2, { .p = 4, .pThorough = 6 }) { injections(2, 0, false); }
MC_SCENARIO(inject3, { .p = 3, .pThorough = 5, .shards = 4 }) { injections(3, mc::config(4), false); }
MC_SCENARIO(inject4, { .p = 3, .pThorough = 5, .shards = 8 }) { injections(4, mc::config(8), false); }
MC_SCENARIO(inject_running, { .p = 2, .pThorough = 3, .shards = 4 }) { injections(3, mc::config(4), true); }

// Firings trigger actions on the loop thread while the worker executes earlier ones.
static void firings(int tokens, bool inject)
{
	Eng e(Mode::JOB_QUEUE);
	place(e, { "a", (size_t)tokens, true, act(0), act(1) });
	place(e, { "b", 0, false, act(2), act(3) });
	place(e, { "c", 0, false, act(4), act(5) });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
	transition(e, { "u", { { "b", 1 } }, { { "c", 1 } }, { { "a", 1 } } });
	e.execute();
	mc::quiesce();
	vector<long> want;
	for (int i = 0; i < tokens; ++i)
		want.insert(want.end(), { 1, 2 });
	for (int i = 0; i < tokens; ++i)
		want.insert(want.end(), { 3, 4 });
	if (inject)
	{
		e.incrementInputPlace("a");
		want.insert(want.end(), { 0, 1, 2, 3, 4 });
	}
	expect(want, "firings");
}
MC_SCENARIO(firing1, { .p = 3, .pThorough = 5 }) { firings(1, false); }
MC_SCENARIO(firing1_inject, { .p = 2, .pThorough = 3 }) { firings(1, true); }
MC_SCENARIO(firing2, { .p = 2, .pThorough = 3 }) { firings(2, false); }

// Injections while the loop is evaluating the net: what a token triggers by entering comes before what it triggers by
// leaving, and the actions of one firing stay together as triggered.
static void awake(int n, bool other)
{
	Eng e(Mode::JOB_QUEUE);
	place(e, { "a", 0, true, act(0), act(1) });
	place(e, { "b", 0, false, act(2), act(3) });
	place(e, { "c", 0, false, act(4), act(5) });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
	transition(e, { "u", { { "b", 1 } }, { { "c", 1 } } });
	e.execute();
	{
		std::optional<std::jthread> second;
		if (other)
			second.emplace([&] { e.incrementInputPlace("a"); });
		for (int i = 0; i < n; ++i)
			e.incrementInputPlace("a");
	}
	mc::quiesce();
	const auto got = executed();
	long count[6] = {};
	for (size_t i = 0; i < got.size(); ++i)
	{
		++count[got[i]];
		for (int k = 1; k < 5; ++k)
			MC_CHECK(count[k] <= count[k - 1], "executed %s: action %d was triggered after action %d", text(got).c_str(), k, k - 1);
	}
	for (int k = 0; k < 5; ++k)
		MC_CHECK(count[k] == n + other, "action %d was executed %ld times: %s", k, count[k], text(got).c_str());
	e.stop();
	mc::outcome("%s", text(got).c_str());
}
MC_SCENARIO(awake1, { .p = 3, .pThorough = 5 }) { awake(1, false); }
MC_SCENARIO(awake2, { .p = 2, .pThorough = 3 }) { awake(2, false); }
MC_SCENARIO(awake_two_threads, { .p = 2, .pThorough = 4, .delayBounded = true }) { awake(1, true); }

// A transition with several arcs: its exits in one block, then its enters.
MC_SCENARIO(many_actions, { .p = 2, .pThorough = 3, .shards = 2 })
{
	int n = 2 + mc::config(2);
	Eng e(Mode::JOB_QUEUE);
	T t{ "t" };
	for (int i = 0; i < n; ++i)
	{
		place(e, { "i" + std::to_string(i), 1, false, nullptr, act(i) });
		place(e, { "o" + std::to_string(i), 0, false, act(10 + i) });
		t.in.push_back({ "i" + std::to_string(i), 1 });
		t.out.push_back({ "o" + std::to_string(i), 1 });
	}
	transition(e, t);
	e.execute();
	mc::quiesce();
	auto got = executed();
	MC_CHECK((int)got.size() == 2 * n, "executed %s", text(got).c_str());
	std::set<long> ids(got.begin(), got.end());
	MC_CHECK((int)ids.size() == 2 * n, "an action was executed twice: %s", text(got).c_str());
	for (int i = 0; i < n; ++i)
		MC_CHECK(got[i] < 10 && got[n + i] >= 10, "enter before exit: %s", text(got).c_str());
}

// A long queue builds up behind a slow action.
MC_SCENARIO(backlog, { .p = 2, .pThorough = 3, .shards = 3 })
{
	int when = mc::config(3);
	mc::Gate gate;
	Eng e(Mode::JOB_QUEUE);
	place(e, { "slow", 0, true, [&] { mc::event(5, 0); gate.wait(); mc::event(6, 0); } });
	for (int i = 1; i <= 9; ++i)
		place(e, { "p" + std::to_string(i), 0, true, act(i) });
	e.incrementInputPlace("slow");
	if (when == 0)
		mc::quiesce();
	vector<long> want{ 0 };
	for (int i = 1; i <= 9; ++i)
	{
		if (when == 1 && i == 5)
			gate.open();
		e.incrementInputPlace("p" + std::to_string(i));
		want.push_back(i);
	}
	if (when == 2)
		e.stop();
	gate.open();
	expect(want, "backlog");
	e.incrementInputPlace("p3");
	want.push_back(3);
	expect(want, "after the backlog");
}

// Two threads inject: the order of each is kept, nothing overlaps, is lost or repeated.
static void twoThreads(int a, int b, bool running)
{
	Eng e(Mode::JOB_QUEUE);
	for (int i = 0; i < a; ++i)
		place(e, { "a" + std::to_string(i), 0, true, act(i) });
	for (int i = 0; i < b; ++i)
		place(e, { "b" + std::to_string(i), 0, true, act(10 + i) });
	if (running)
	{
		place(e, { "x", 1, false, nullptr, act(20) });
		place(e, { "y", 0, false, act(21) });
		transition(e, { "t", { { "x", 1 } }, { { "y", 1 } } });
		e.execute();
	}
	std::thread t(
		[&]
		{
			for (int i = 0; i < b; ++i)
				e.incrementInputPlace("b" + std::to_string(i));
		});
	for (int i = 0; i < a; ++i)
		e.incrementInputPlace("a" + std::to_string(i));
	t.join();
	mc::quiesce();
	auto got = executed();
	vector<long> ga, gb, gx;
	for (long x : got)
		(x < 10 ? ga : x < 20 ? gb : gx).push_back(x);
	vector<long> wa, wb, wx;
	for (int i = 0; i < a; ++i)
		wa.push_back(i);
	for (int i = 0; i < b; ++i)
		wb.push_back(10 + i);
	if (running)
		wx = { 20, 21 };
	MC_CHECK(ga == wa && gb == wb && gx == wx, "two threads: executed %s", text(got).c_str());
	mc::outcome("%s", text(got).c_str());
}
MC_SCENARIO(threads11, { .p = 3, .pThorough = 5 }) { twoThreads(1, 1, false); }
MC_SCENARIO(threads22, { .p = 3, .pThorough = 5 }) { twoThreads(2, 2, false); }
MC_SCENARIO(threads_loop, { .p = 1, .pThorough = 2 }) { twoThreads(1, 1, true); }

// An action injects: the new action is executed after those triggered before.
MC_SCENARIO(from_action, { .p = 3, .pThorough = 5 })
{
	Eng e(Mode::JOB_QUEUE);
	place(e, { "a", 0, true, [&] { mc::event(5, 0); e.incrementInputPlace("c"); e.incrementInputPlace("d"); mc::event(6, 0); } });
	place(e, { "b", 0, true, act(1) });
	place(e, { "c", 0, true, act(2) });
	place(e, { "d", 0, true, act(3) });
	e.incrementInputPlace("a");
	e.incrementInputPlace("b");
	mc::quiesce();
	auto got = executed();
	vector<long> rest;
	for (long x : got)
		if (x != 1)
			rest.push_back(x);
	MC_CHECK(got.size() == 4 && got[0] == 0 && rest == (vector<long>{ 0, 2, 3 }), "executed %s", text(got).c_str());
	mc::outcome("%s", text(got).c_str());
}

// Restarts of the loop and changes of the mode in between do not disturb the queue.
MC_SCENARIO(restarts, { .p = 2, .pThorough = 3, .shards = 3 })
{
	int how = mc::config(3);
	Eng e(Mode::JOB_QUEUE);
	place(e, { "a", 0, true, act(0), act(1) });
	place(e, { "b", 0, false, act(2) });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
	e.incrementInputPlace("a");
	e.execute();
	mc::quiesce();
	e.stop();
	e.incrementInputPlace("a");
	if (how == 1)
		e.execute(), mc::quiesce(), e.stop();
	if (how == 2)
	{
		e.setActionsThreadOption(Mode::EVENT_LOOP);
		e.setActionsThreadOption(Mode::JOB_QUEUE);
	}
	e.incrementInputPlace("a");
	e.execute();
	vector<long> want = how == 1 ? vector<long>{ 0, 1, 2, 0, 1, 2, 0, 1, 2 } : vector<long>{ 0, 1, 2, 0, 0, 1, 2, 1, 2 };
	expect(want, "restarts");
}

// The mode is changed away and back while an action is still being executed and others are pending.
MC_SCENARIO(change_pending, { .p = 2, .pThorough = 3, .shards = 2 })
{
	Mode other = mc::config(2) ? Mode::SINGLE_THREAD : Mode::EVENT_LOOP;
	mc::Gate gate;
	Eng e(Mode::JOB_QUEUE);
	place(e, { "slow", 0, true, [&] { mc::event(5, 0); gate.wait(); mc::event(6, 0); } });
	for (int i = 1; i <= 3; ++i)
		place(e, { "p" + std::to_string(i), 0, true, act(i) });
	e.incrementInputPlace("slow");
	e.incrementInputPlace("p1");
	e.setActionsThreadOption(other);
	e.setActionsThreadOption(Mode::JOB_QUEUE);
	e.incrementInputPlace("p2");
	gate.open();
	e.incrementInputPlace("p3");
	expect({ 0, 1, 2, 3 }, "mode changed away and back");
}

// Two engines have queues of their own: a blocked action of one does not hold up the other.
MC_SCENARIO(two_engines, { .p = 2, .pThorough = 3 })
{
	mc::Gate gate;
	Eng e(Mode::JOB_QUEUE), f(Mode::JOB_QUEUE);
	place(e, { "slow", 0, true, [&] { gate.wait(); } });
	place(f, { "p", 0, true, act(1) });
	e.incrementInputPlace("slow");
	f.incrementInputPlace("p");
	expect({ 1 }, "two engines");
	gate.open();
}

// Long queues: behind a slow action, half of them executed before the others come, or from firings.
MC_SCENARIO(long_queue, { .p = 0, .pThorough = 0, .shards = 8, .delayBounded = true })
{
	static const int SIZES[] = { 17, 33, 65, 129, 257, 513, 1100, 2100 };
	int n = SIZES[mc::config(8)], how = mc::choose(3);
	mc::Gate gate, half;
	Eng e(Mode::JOB_QUEUE);
	place(e, { "slow", 0, true, [&] { mc::event(5, 0); gate.wait(); mc::event(6, 0); } });
	place(e, { "half", 0, true, [&] { mc::event(5, 1); half.wait(); mc::event(6, 1); } });
	for (int i = 2; i < 9; ++i)
		place(e, { "p" + std::to_string(i), 0, true, act(i) });
	vector<long> want;
	auto inject = [&](const string &p, long id)
	{
		e.incrementInputPlace(p);
		want.push_back(id);
	};
	if (how == 2)
	{
		// one transition fires n times while the first action is executed
		place(e, { "a", (size_t)n, false, nullptr, act(20) });
		place(e, { "b", 0, false, act(21) });
		transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
		inject("slow", 0);
		e.execute();
		mc::quiesce();
		for (int i = 0; i < n; ++i)
			want.insert(want.end(), { 20, 21 });
		MC_CHECK(tok(e, "b") == (size_t)n, "%d firings instead of %d", (int)tok(e, "b"), n);
	}
	else
	{
		inject("slow", 0);
		for (int i = 0; i < n; ++i)
		{
			if (how == 1 && i == n / 2)
			{
				inject("half", 1);
				gate.open();
				mc::quiesce();
			}
			inject("p" + std::to_string(2 + i * i % 7), 2 + i * i % 7);
		}
	}
	gate.open();
	half.open();
	expect(want, "a long queue");
	inject("p3", 3);
	expect(want, "after a long queue");
}

// Long runs: the worker goes idle and is started again many times.
MC_SCENARIO(long_run, { .p = 0, .pThorough = 1, .shards = 4, .delayBounded = true })
{
	int how = mc::config(4);
	int n = how == 3 ? 55 : 18;
	Eng e(Mode::JOB_QUEUE);
	place(e, { "a", 0, true, act(0), act(1) });
	place(e, { "b", 0, false, act(2), act(3) });
	place(e, { "c", 0, true, act(4) });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
	transition(e, { "u", { { "b", 2 } }, {} });
	vector<long> want;
	if (how != 3)
		e.execute();
	for (int i = 0; i < n; ++i)
	{
		e.incrementInputPlace(how == 3 ? "c" : "a");
		if (how == 3)
			want.push_back(4);
		else
		{
			want.insert(want.end(), { 0, 1, 2 });
			if (i % 2)
				want.push_back(3);
		}
		mc::quiesce();
		if (how == 1 && i % 4 == 3)
			e.stop(), e.execute();
		if (how == 2 && i % 4 == 3)
		{
			e.stop();
			e.setActionsThreadOption(Mode::DETACHED);
			e.setActionsThreadOption(Mode::JOB_QUEUE);
			e.execute();
		}
	}
	expect(want, "a long run");
}
