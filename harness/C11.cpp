// Every API call terminates: no deadlock, livelock or stuck thread (C11).
// The runtime reports a state in which some thread cannot move any more (and none but time can help) as a deadlock,
// an execution that never comes to rest as a livelock, and a thread left over at the end as stuck.
#include "ops.h"
using namespace ops;

static void finish(Eng &e)
{
	// the engine still answers
	e.isEventLoopRunning();
	e.stop();
	MC_CHECK(!e.isEventLoopRunning(), "running after stop()");
	throws([&] { e.incrementInputPlace("a"); });
	throws([&] { e.execute(); });
	mc::quiesce();
}

// One call in each of two threads, running or not; all pairs.
static void pair(Mode m, Op x, Op y, bool running)
{
	prepare(m);
	Counts c;
	{
		Eng e(m);
		build(e, c);
		if (running)
			e.execute();
		{
			std::thread th([&] { tryApply(e, x, m, 1); });
			tryApply(e, y, m, 2);
			th.join();
		}
		finish(e);
	}
	mc::quiesce();
	MC_CHECK(c.begun == c.ended, "an action has not finished");
}
MC_SCENARIO(pairs, { .p = 1, .pThorough = 2, .shards = 64, .delayBounded = true })
{
	int c = mc::config(OPS * OPS * 3);
	int x = c / 3 % OPS, y = c / 3 / OPS;
	if (x < y)
		return;
	pair(ASYNC[c % 3], (Op)x, (Op)y, mc::choose(2));
}
// Those that block, at a higher bound.
static const Op CORE[] = { EXECUTE, STOP, INJECT_A, PLACES, SET_MODE, INJECT_B, TOKENS, CLEAR };
static const int NCORE = 8;
static const int NBLOCK = 5;
MC_SCENARIO(core_pairs, { .p = 2, .pThorough = 3, .shards = 45, .delayBounded = true })
{
	int c = mc::config(NBLOCK * NBLOCK * 3);
	int x = c / 3 % NBLOCK, y = c / 3 / NBLOCK;
	if (x < y)
		return;
	pair(ASYNC[c % 3], CORE[x], CORE[y], mc::choose(2));
}

// Three threads.
static const Op CORE3[] = { EXECUTE, STOP, INJECT_A, TOKENS, SET_MODE };
MC_SCENARIO(triples, { .p = 1, .pThorough = 2, .shards = 40, .delayBounded = true })
{
	int c = mc::config(125 * 3);
	Mode m = ASYNC[c % 3];
	c /= 3;
	Op x = CORE3[c % 5], y = CORE3[c / 5 % 5], z = CORE3[c / 25];
	if (c % 5 < c / 5 % 5 || c / 5 % 5 < c / 25)
		return;
	bool running = mc::choose(2);
	Counts k;
	{
		Eng e(m);
		build(e, k);
		if (running)
			e.execute();
		{
			std::thread t1([&] { tryApply(e, x, m, 1); });
			std::thread t2([&] { tryApply(e, y, m, 2); });
			tryApply(e, z, m, 3);
			t1.join();
			t2.join();
		}
		finish(e);
	}
	mc::quiesce();
}

// Two calls in each of two threads.
static const Op CORE2[] = { EXECUTE, STOP, INJECT_A, INJECT_B };
MC_SCENARIO(two_each, { .p = 1, .pThorough = 2, .shards = 48, .delayBounded = true })
{
	int c = mc::config(256 * 3);
	Mode m = ASYNC[c % 3];
	c /= 3;
	if (c % 16 < c / 16)
		return;
	Counts k;
	{
		Eng e(m);
		build(e, k);
		std::thread t1([&] { tryApply(e, CORE2[c % 4], m, 1); tryApply(e, CORE2[c / 4 % 4], m, 1); });
		tryApply(e, CORE2[c / 16 % 4], m, 2);
		tryApply(e, CORE2[c / 64], m, 2);
		t1.join();
		finish(e);
	}
	mc::quiesce();
}

// Every operation called from an asynchronous action, while the application makes another call.
static void fromAction(Mode m, Op x, Op y)
{
	prepare(m);
	std::atomic<int> did{ 0 };
	Counts c;
	{
		Eng e(m);
		build(e, c);
		PlaceProperties p;
		p.name = "trigger";
		p.input = true;
		p.onEnterAction = [&] { if (did++ == 0) tryApply(e, x, m, 1); };
		e.createPlace(p);
		e.execute();
		e.incrementInputPlace("trigger");
		tryApply(e, y, m, 2);
		mc::quiesce();
		MC_CHECK(did == 1, "action executed %d times", (int)did);
		finish(e);
	}
	mc::quiesce();
}
MC_SCENARIO(from_actions, { .p = 1, .pThorough = 2, .shards = 44, .delayBounded = true })
{
	static const Op Y[] = { RUNNING, EXECUTE, STOP, INJECT_A, CLEAR, SET_MODE, PLACES };
	int c = mc::config(OPS * 7 * 2);
	Mode m = c & 1 ? Mode::JOB_QUEUE : Mode::DETACHED;
	c /= 2;
	fromAction(m, (Op)(c % OPS), Y[c / OPS]);
}
// ... and from two actions at once.
MC_SCENARIO(from_two_actions, { .p = 1, .pThorough = 2, .shards = 24, .delayBounded = true })
{
	int c = mc::config(NCORE * NCORE * 2);
	Mode m = c & 1 ? Mode::JOB_QUEUE : Mode::DETACHED;
	c /= 2;
	Op x = CORE[c % NCORE], y = CORE[c / NCORE];
	std::atomic<int> did{ 0 };
	Counts k;
	{
		Eng e(m);
		build(e, k);
		place(e, { "p1", 0, true, [&] { if (did++ < 2) tryApply(e, x, m, 1); } });
		place(e, { "p2", 0, true, [&] { if (did++ < 2) tryApply(e, y, m, 2); } });
		e.execute();
		e.incrementInputPlace("p1");
		throws([&] { e.incrementInputPlace("p2"); });
		mc::quiesce();
		finish(e);
	}
	mc::quiesce();
}
// An action that calls the engine triggered by a firing (the loop must not be in its way).
MC_SCENARIO(from_fired_action, { .p = 2, .pThorough = 3, .shards = 44, .delayBounded = true })
{
	int c = mc::config(OPS * 2);
	Mode m = c & 1 ? Mode::JOB_QUEUE : Mode::DETACHED;
	Op x = (Op)(c / 2);
	prepare(m);
	std::atomic<int> did{ 0 };
	Counts k;
	{
		Eng e(m);
		build(e, k);
		place(e, { "s", 1, false, nullptr, [&] { if (did++ == 0) tryApply(e, x, m, 1); } });
		place(e, { "d", 0 });
		transition(e, { "sd", { { "s", 1 } }, { { "d", 1 } }, {}, {}, true });
		e.execute();
		mc::quiesce();
		MC_CHECK(did == 1, "action executed %d times", (int)did);
		finish(e);
	}
	mc::quiesce();
}

// Destruction at any moment, no other call in progress: loop firing, idle, actions pending or running.
MC_SCENARIO(destruction, { .p = 2, .pThorough = 3, .shards = 36, .delayBounded = true })
{
	int c = mc::config(36);
	Mode m = ASYNC[c % 3];
	int what = c / 3 % 3, late = c / 9;
	Counts k;
	{
		Eng e(m);
		build(e, k);
		if (late & 1)
			e.execute();
		if (what >= 1)
			e.incrementInputPlace("a");
		if (what == 2)
			e.incrementInputPlace("a");
		if (late == 2)
			e.execute();
		if (late == 3)
			e.stop();
	}
	mc::quiesce();
}

// Guarded transitions in both directions between two places, entered by injections meanwhile.
MC_SCENARIO(guarded_cycle, { .p = 2, .pThorough = 3, .shards = 3, .delayBounded = true })
{
	Mode m = ASYNC[mc::config(3)];
	Counts k;
	auto act = [&k] { mc::Outside o; ++k.begun; ++k.ended; };
	{
		Eng e(m);
		place(e, { "a", 1, true, act, act });
		place(e, { "b", 0, true, act });
		place(e, { "budget", 2 });
		transition(e, { "t", { { "a", 1 }, { "budget", 1 } }, { { "b", 1 } }, {}, {}, true });
		transition(e, { "u", { { "b", 1 } }, { { "a", 1 } }, {}, {}, true });
		e.execute();
		std::thread th([&] { e.incrementInputPlace("b"); });
		e.incrementInputPlace("a");
		tok(e, "a");
		th.join();
		mc::quiesce();
		e.stop();
	}
	mc::quiesce();
	MC_CHECK(k.begun == k.ended, "an action has not finished");
}
// The same with two guarded transitions over the same two places in opposite arc order.
MC_SCENARIO(guarded_crossed, { .p = 2, .pThorough = 3, .shards = 3, .delayBounded = true })
{
	Mode m = ASYNC[mc::config(3)];
	Counts k;
	mc::seeds(2, 2);
	auto act = [&k] { mc::Outside o; ++k.begun; ++k.ended; };
	{
		Eng e(m);
		place(e, { "a", 1, true, act });
		place(e, { "b", 1, true, act });
		place(e, { "c", 0 });
		transition(e, { "t", { { "a", 1 }, { "b", 1 } }, { { "b", 1 }, { "c", 1 } }, { { "c", 1 } }, {}, true });
		transition(e, { "u", { { "b", 1 }, { "a", 1 } }, { { "a", 1 }, { "c", 1 } }, { { "c", 1 } }, {}, true });
		e.execute();
		std::thread th([&] { e.incrementInputPlace("a"); });
		e.incrementInputPlace("b");
		th.join();
		mc::quiesce();
		MC_CHECK(tok(e, "c") <= 1, "c %ld", tok(e, "c"));
	}
	mc::quiesce();
}

// A net that never comes to rest: whatever is called meanwhile, the call returns. The condition yields, so that the
// other threads get on; when they do is their choice.
static void endless(Mode m, Op x, Op y, int how)
{
	prepare(m);
	Counts c;
	std::atomic<long> fired{ 0 };
	{
		Eng e(m);
		build(e, c);
		auto yield = [] { std::this_thread::yield(); return true; };
		auto act = [&] { mc::Outside o; ++c.begun; ++c.ended; };
		place(e, { "ping", how == 2 ? 0u : 1u, true, how == 1 ? ActionFunction(act) : nullptr });
		place(e, { "pong", 0, false, how == 1 ? ActionFunction(act) : nullptr });
		if (how == 2) // a source
			transition(e, { "to", {}, { { "pong", 1 } }, {}, { yield } });
		else
		{
			transition(e, { "to", { { "ping", 1 } }, { { "pong", 1 } }, {}, { yield } });
			transition(e, { "fro", { { "pong", 1 } }, { { "ping", 1 } }, {}, { yield } });
		}
		e.execute();
		tryApply(e, x, m, 1);
		if (y != OPS && !(y == EXECUTE && e.getActionsThreadOption() == Mode::SINGLE_THREAD))
			tryApply(e, y, m, 2);
		if (mc::choose(2))
		{
			e.stop();
			MC_CHECK(!e.isEventLoopRunning(), "running after stop()");
			mc::quiesce();
			if (e.getActionsThreadOption() != Mode::SINGLE_THREAD) // there execute() is the endless one
				e.execute();
		}
	}
	mc::quiesce();
	MC_CHECK(c.begun == c.ended, "an action has not finished");
}
MC_SCENARIO(endless_calls, { .p = 1, .pThorough = 3, .shards = 33, .delayBounded = true })
{
	int c = mc::config(OPS * 9);
	endless(ASYNC[c % 3], (Op)(c / 9), OPS, c / 3 % 3);
}
MC_SCENARIO(endless_two_calls, { .p = 1, .pThorough = 2, .shards = 33, .delayBounded = true })
{
	int c = mc::config(OPS * OPS * 3);
	endless(ASYNC[c % 3], (Op)(c / 3 % OPS), (Op)(c / 3 / OPS), 1);
}
// Kept going by its actions, which inject the next token.
MC_SCENARIO(endless_actions, { .p = 2, .pThorough = 3, .shards = 22, .delayBounded = true })
{
	Op x = (Op)mc::config(OPS);
	prepare(Mode::JOB_QUEUE);
	std::atomic<bool> over{ false };
	Counts c;
	{
		Eng e(Mode::JOB_QUEUE);
		build(e, c);
		auto again = [&] { std::this_thread::yield(); if (!over) throws([&] { e.incrementInputPlace("ping"); }); };
		place(e, { "ping", 1, true });
		place(e, { "pong", 0, false, again });
		transition(e, { "to", { { "ping", 1 } }, { { "pong", 1 } } });
		e.execute();
		tryApply(e, x, Mode::JOB_QUEUE, 1);
		if (mc::choose(2))
		{
			e.stop();
			MC_CHECK(!e.isEventLoopRunning(), "running after stop()");
			mc::quiesce();
		}
		over = true; // no action uses the engine while it is destroyed
		mc::quiesce();
		e.stop();
	}
	mc::quiesce();
}
