// MC_MAXF: 64
// No API call waits for the idle period (C12). Virtual time only advances when nothing else can happen, so a call
// that takes any virtual time has waited for a timer.
#include "ops.h"
using namespace ops;

static const long LONG = 1000000;

struct Clock
{
	long t0 = mc::nowMs();
	void check(const char *what, Mode m, const char *when)
	{
		MC_CHECK(mc::nowMs() == t0, "%s: %s took %ld ms %s", modeName(m), what, mc::nowMs() - t0, when);
	}
};

// One call at any moment after execute().
static void during(Mode m, Op x, int when, long period)
{
	static const char *WHEN[] = { "right after execute()", "while idle", "while idle after an idle period", "after a firing", "after a restart" };
	prepare(m);
	Counts c;
	Clock destroy;
	{
		Eng e(m);
		build(e, c);
		e.setEventLoopSleepDuration(ms(period));
		e.execute();
		if (when == 1 || when == 3)
			mc::quiesce();
		if (when == 2)
		{
			mc::settle(period + 7);
			mc::quiesce();
		}
		if (when == 3)
			e.incrementInputPlace("a");
		if (when == 4)
		{
			e.stop();
			e.execute();
			e.incrementInputPlace("b");
		}
		Clock k;
		tryApply(e, x, m, 1);
		k.check(NAME[x], m, WHEN[when]);
		// and the next
		e.isEventLoopRunning();
		tok(e, "c");
		k.check("a query", m, NAME[x]);
		e.stop();
		k.check("stop()", m, WHEN[when]);
		if (when == 1)
			throws([&] { e.execute(); });
		if (when == 2)
		{
			throws([&] { e.execute(); });
			mc::quiesce();
		}
		destroy = Clock();
	}
	destroy.check("destruction", m, WHEN[when]);
	mc::quiesce();
}
MC_SCENARIO(every_call, { .p = 1, .pThorough = 2, .shards = 55, .delayBounded = true })
{
	int c = mc::config(OPS * 3 * 5);
	during(ASYNC[c % 3], (Op)(c / 3 % OPS), c / 3 / OPS, mc::choose(2) ? LONG : 100);
}
// Stop and destruction, deeper.
static void halt(Mode m, int how, bool actions)
{
	Counts c;
	Clock k;
	{
		Eng e(m);
		if (actions)
			build(e, c);
		else
		{
			place(e, { "a", 0, true });
			place(e, { "b", 0 });
			transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
		}
		e.setEventLoopSleepDuration(ms(LONG));
		e.execute();
		if (how & 1)
			e.incrementInputPlace("a");
		if (how & 2)
			e.stop();
		k.check("stop()", m, "with a long idle period");
	}
	k.check("destruction", m, "with a long idle period");
}
MC_SCENARIO(halting, { .p = 3, .pThorough = 4, .shards = 8 })
{
	int c = mc::config(4);
	if (mc::config(2))
		halt(Mode::EVENT_LOOP, c, true);
	else
		halt(mc::choose(2) ? Mode::DETACHED : Mode::JOB_QUEUE, c, false);
}

// Two calls at once.
static const Op CORE[] = { STOP, SET_SLEEP, INJECT_A, GET_SLEEP, EXECUTE, PLACES, SET_MODE };
MC_SCENARIO(two_calls, { .p = 2, .pThorough = 3, .shards = 42, .delayBounded = true })
{
	int c = mc::config(7 * 7 * 3);
	Mode m = ASYNC[c % 3];
	c /= 3;
	if (c % 7 < c / 7)
		return;
	Op x = CORE[c % 7], y = CORE[c / 7];
	bool idle = mc::choose(2);
	Counts k;
	Clock t;
	{
		Eng e(m);
		build(e, k);
		e.setEventLoopSleepDuration(ms(LONG));
		e.execute();
		if (idle)
			mc::quiesce();
		std::thread th([&] { tryApply(e, x, m, 1); });
		tryApply(e, y, m, 2);
		th.join();
		t.check(NAME[x], m, NAME[y]);
	}
	t.check("destruction", m, "after two calls");
	mc::quiesce();
}

// From asynchronous actions.
MC_SCENARIO(from_actions, { .p = 1, .pThorough = 2, .shards = 22, .delayBounded = true })
{
	int c = mc::config(OPS * 2);
	Mode m = c & 1 ? Mode::JOB_QUEUE : Mode::DETACHED;
	Op x = (Op)(c / 2);
	prepare(m);
	bool did = false;
	Counts k;
	{
		Eng e(m);
		build(e, k);
		e.setEventLoopSleepDuration(ms(LONG));
		place(e, { "s", 0, true, [&] { long t = mc::nowMs(); tryApply(e, x, m, 1); MC_CHECK(mc::nowMs() == t, "%s: %s took %ld ms in an action", modeName(m), NAME[x], mc::nowMs() - t); mc::Outside o; did = true; } });
		e.execute();
		if (mc::choose(2))
			mc::quiesce();
		e.incrementInputPlace("s");
		mc::quiesce();
		MC_CHECK(did, "%s: %s did not return without time passing", modeName(m), NAME[x]);
		e.stop(); // orders what the action did before the destruction
	}
	mc::quiesce();
}

// While the net waits for a condition or an action in execution (the loop polls), with any period.
MC_SCENARIO(polling, { .p = 1, .pThorough = 2, .shards = 33, .delayBounded = true })
{
	int c = mc::config(OPS * 3);
	Mode m = ASYNC[c % 3];
	Op x = (Op)(c / 3);
	prepare(m);
	Counts k;
	mc::Gate gate;
	{
		Eng e(m);
		build(e, k);
		place(e, { "p", 1 });
		place(e, { "q", 0, true, [&] { if (m != Mode::EVENT_LOOP) gate.wait(); } });
		transition(e, { "never", { { "p", 1 } }, {}, {}, { [] { return false; } } });
		transition(e, { "held", { { "q", 1 } }, {}, {}, {}, true });
		int which = mc::choose(3);
		e.setEventLoopSleepDuration(ms(which == 0 ? 1 : which == 1 ? 100 : LONG));
		if (mc::choose(2))
			e.incrementInputPlace("q");
		e.execute();
		if (mc::choose(2))
			mc::settle(5);
		Clock t;
		tryApply(e, x, m, 1);
		t.check(NAME[x], m, "while polling");
		e.stop();
		t.check("stop()", m, "while polling");
		gate.open();
	}
	mc::quiesce();
}

// The same call many times, while the loop is busy in a condition (nothing is processed meanwhile), busy firing, or idle.
MC_SCENARIO(bursts, { .p = 0, .pThorough = 1, .shards = 22, .delayBounded = true })
{
	int c = mc::config(OPS * 3);
	Mode m = ASYNC[c % 3];
	Op x = (Op)(c / 3);
	prepare(m);
	// DETACHED starts one thread per firing.
	const int n = mc::choose(2) || m == Mode::DETACHED ? 9 : 40, period = mc::choose(2);
	// Calls about transitions may wait for a condition in execution.
	const bool mayWait = x == IMPORT || x == EXPORT || x == CLEAR || x == STOP || x == EXECUTE || x == TRANSITIONS ||
						 x == ADD_ARC || x == REMOVE_ARC || x == CREATE_TRANSITION || x == PRINT;
	const int busy = mayWait ? 2 * mc::choose(2) : mc::choose(3);
	Counts k;
	mc::Gate gate(busy != 1);
	{
		Eng e(m);
		build(e, k);
		place(e, { "p", 1, true });
		transition(e, { "waits", { { "p", 1 } }, { { "p", 1 } }, {}, { [&] { gate.wait(); return false; } } });
		e.setEventLoopSleepDuration(ms(period ? LONG : 20));
		e.execute();
		if (busy)
			mc::quiesce();
		MC_CHECK(busy != 1 || gate.waiting() == 1, "the loop is not busy");
		Clock t;
		for (int i = 0; i < n; ++i)
		{
			tryApply(e, x, m, i);
			t.check(NAME[x], m, "in a burst");
			tryApply(e, x == INJECT_A ? INJECT_B : INJECT_A, m, i);
			t.check("incrementInputPlace", m, "in a burst");
			if (i > 6)
				throws([&] { e.incrementInputPlace("p"); });
			e.getNumberOfTokens("p");
			t.check("getNumberOfTokens", m, "in a burst");
		}
		gate.open();
		e.stop();
		t.check("stop()", m, "after a burst");
	}
	mc::quiesce();
}
