// An idle event loop re-evaluates the net once per configured idle period (C04). The clock is virtual: time passes
// only when no thread can move, so every firing happens at an exactly known moment.
#include "common.h"
#include <atomic>

// A condition becomes true by an outside event at any of several moments; the transition fires within one period.
static void outside(Mode m, long period, long at, bool inject, bool log = false)
{
	std::ostringstream out;
	auto start = [&](Eng &e) { log ? e.execute(true, out) : e.execute(); };
	mc::maxTimers(1000);
	Eng e(m);
	std::atomic<bool> open{ false };
	if (period != 100)
		e.setEventLoopSleepDuration(ms(period));
	MC_CHECK(e.getEventLoopSleepDuration().count() == period, "period reported %ld", (long)e.getEventLoopSleepDuration().count());
	place(e, { "a", 2, true });
	place(e, { "b" });
	place(e, { "c" });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { [&] { return open.load(); } } });
	transition(e, { "u", { { "b", 1 } }, { { "c", 1 } }, {}, { [&] { return open.load(); } } });
	start(e);
	mc::settle(at);
	if (inject)
		e.incrementInputPlace("a");
	mc::settle(inject ? period / 2 : 0);
	MC_CHECK(tok(e, "b") + tok(e, "c") == 0, "fired although the condition is false");
	open = true;
	long t0 = mc::nowMs();
	mc::settle(period);
	mc::quiesce();
	MC_CHECK(tok(e, "a") == 0 && tok(e, "c") == (inject ? 3 : 2), "%s: period %ld ms, condition true at %ld ms: not fired by %ld ms", modeName(m),
			 period, t0, mc::nowMs());
	e.stop();
	open = false;
	// after a restart as well
	e.incrementInputPlace("a");
	start(e);
	mc::settle(at / 2);
	open = true;
	mc::settle(period);
	mc::quiesce();
	MC_CHECK(tok(e, "a") == 0, "%s: period %ld ms: not fired after a restart", modeName(m), period);
	mc::outcome("%ld", t0);
}
MC_SCENARIO(outside_event, { .p = 2, .pThorough = 4, .shards = 8 })
{
	static const long S[] = { 1, 7, 50, 100, 101, 250, 1000, 60000 };
	long s = S[mc::config(8)];
	long at[] = { 0, s / 2, s - 1, s, s + 1, 2 * s, 3 * s + s / 3 };
	long x = at[mc::choose(7)];
	Mode m = ASYNC[mc::choose(3)];
	outside(m, s, x, mc::choose(2));
}

MC_SCENARIO(outside_logged, { .p = 0, .pThorough = 1, .shards = 4 })
{
	static const long S[] = { 1, 50, 250, 60000 };
	long s = S[mc::config(4)];
	outside(ASYNC[mc::choose(3)], s, mc::choose(2) ? s / 2 : 2 * s + 1, mc::choose(2), true);
}

// Wake-ups of the waiting loop without a cause do not delay the next evaluation.
MC_SCENARIO(spurious, { .p = 0, .pThorough = 1, .t = 2, .shards = 6, .tThorough = 3 })
{
	mc::maxTimers(1000);
	const int c = mc::config(6);
	const Mode m = ASYNC[c % 3];
	const long period = c / 3 ? 100 : 8;
	Eng e(m);
	std::atomic<bool> open{ false };
	e.setEventLoopSleepDuration(ms(period));
	place(e, { "a", 1 });
	place(e, { "b" });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { [&] { return open.load(); } } });
	e.execute();
	mc::quiesce();
	const int steps = 2 + mc::choose(3), openAt = mc::choose(steps);
	for (int i = 0; i < 2 * steps; ++i) // the loop may be woken at each of these moments
	{
		if (i == openAt)
			open = true;
		const long t0 = mc::nowMs();
		mc::settle(period / steps + 1);
		mc::mark();
		if (open && i == 2 * steps - 1)
			MC_CHECK(tok(e, "b") == 1, "%s: period %ld ms: not fired by %ld ms", modeName(m), period, t0);
	}
	e.stop();
}

// After a very long idle time (or very many injections) the period is still the same.
static void longIdle(Mode m, int periods, int variant)
{
	mc::maxTimers(100000);
	mc::maxSteps(100000000);
	Eng e(m);
	std::atomic<bool> open{ false };
	e.setEventLoopSleepDuration(ms(30));
	place(e, { "a", 1, true });
	place(e, { "b" });
	place(e, { "i", 0, true });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { [&] { return open.load(); } } });
	if (variant == 1)
		transition(e, { "sink", { { "i", 1 } }, {} });
	e.execute();
	for (int i = 0; i < periods; ++i)
	{
		if (variant)
			e.incrementInputPlace("i");
		mc::settle(variant == 2 ? 10 : 30);
	}
	open = true;
	mc::settle(30);
	mc::quiesce();
	MC_CHECK(tok(e, "b") == 1, "%s: not fired within a period after %d idle periods", modeName(m), periods);
	open = false;
	e.incrementInputPlace("a");
	mc::settle(45);
	open = true;
	mc::settle(30);
	mc::quiesce();
	MC_CHECK(tok(e, "b") == 2, "%s: not fired within a period later on", modeName(m));
}
MC_SCENARIO(long_idle, { .p = 0, .pThorough = 0, .shards = 3 })
{
	static const int N[] = { 3, 70, 300, 1100 };
	Mode m = ASYNC[mc::config(3)];
	int n = N[mc::choose(4)];
	longIdle(m, n, mc::choose(3));
}

// Moments at which the net was evaluated.
struct Evals
{
	ConditionFunction cond()
	{
		return [] { mc::note(7); return false; };
	}
	static std::set<long> times(int from = 0)
	{
		std::set<long> r;
		for (int i = from; i < mc::events(); ++i)
			if (mc::at(i).kind == 7)
				r.insert(mc::at(i).ms);
		return r;
	}
};

// Every transition is evaluated in every period, all the time, with the value in force.
static void regular(Mode m, long s1, long s2, long when, int n)
{
	mc::maxTimers(100000);
	Eng e(m);
	place(e, { "a", 1, true });
	int cnt[4] = {};
	for (int i = 0; i < n; ++i)
		transition(e, { "t" + std::to_string(i), { { "a", 1 } }, {}, {}, { [&cnt, i] { ++cnt[i]; mc::note(7, i); return false; } } });
	e.setEventLoopSleepDuration(ms(s1));
	e.execute();
	mc::settle(when);
	e.setEventLoopSleepDuration(ms(s2));
	MC_CHECK(e.getEventLoopSleepDuration().count() == s2, "period reported");
	mc::settle(s1); // every wait that began before has ended
	mc::quiesce();
	int from = mc::events();
	long t0 = mc::nowMs();
	const int periods = 5;
	mc::settle(periods * s2);
	mc::quiesce();
	for (int i = 0; i < n; ++i)
	{
		std::set<long> ts;
		for (int k = from; k < mc::events(); ++k)
			if (mc::at(k).kind == 7 && mc::at(k).a == i)
				ts.insert(mc::at(k).ms);
		long last = t0;
		ts.insert(t0 + periods * s2 + 1); // sentinel
		for (long t : ts)
		{
			MC_CHECK(t - last <= s2 + (t == *ts.rbegin() ? 1 : 0), "%s: period %ld -> %ld ms: not evaluated between %ld and %ld ms", modeName(m), s1, s2, last, t);
			last = t;
		}
		MC_CHECK((int)ts.size() - 1 <= periods + 1, "%s: period %ld -> %ld ms: evaluated at %d moments in %d periods", modeName(m), s1, s2,
				 (int)ts.size() - 1, periods);
	}
	// an injection starts a new wait of the same period
	e.incrementInputPlace("a");
	mc::quiesce();
	from = mc::events();
	mc::settle(s2);
	mc::quiesce();
	MC_CHECK(Evals::times(from).size() >= 1, "%s: not evaluated in the period after an injection", modeName(m));
	e.stop();
	from = mc::events();
	mc::settle(3 * s2 + 3 * s1);
	MC_CHECK(Evals::times(from).empty(), "evaluated after stop");
}
MC_SCENARIO(regular_evaluation, { .p = 0, .pThorough = 1, .shards = 7 })
{
	static const long S[] = { 1, 3, 20, 100, 130, 999, 86400000 };
	long s2 = S[mc::config(7)];
	long s1 = S[mc::choose(7)];
	Mode m = ASYNC[mc::choose(3)];
	long w[] = { 0, s1 / 2, s1, s1 + 1, 3 * s1 };
	if (s1 > 1000000 && s2 < 1000)
		s1 = 1000;
	long when = w[mc::choose(5)];
	regular(m, s1, s2, when > 10000000 ? 500 : when, 1 + mc::choose(2) * 2);
}

// A transition held back only by an action in execution.
static void heldBack(Mode m, long period, long at, bool self)
{
	mc::maxTimers(1000);
	Eng e(m);
	mc::Gate gate;
	e.setEventLoopSleepDuration(ms(period));
	place(e, { "a", 0, true, [&] { gate.wait(); } });
	place(e, { "b" });
	TransitionProperties tp;
	tp.name = "t";
	tp.activationArcs = { arc("a") };
	tp.destinationArcs = { arc("b") };
	tp.requireNoActionsInExecution = true;
	e.createTransition(tp);
	e.execute();
	if (self)
		mc::settle(at);
	e.incrementInputPlace("a");
	mc::settle(at);
	MC_CHECK(tok(e, "b") == 0, "%s: fired while the action is in execution", modeName(m));
	gate.open();
	mc::settle(period);
	mc::quiesce();
	MC_CHECK(tok(e, "b") == 1, "%s: period %ld ms: held back after the action has finished", modeName(m), period);
}
MC_SCENARIO(held_back, { .p = 2, .pThorough = 3, .shards = 5 })
{
	static const long S[] = { 1, 10, 100, 500, 60000 };
	long s = S[mc::config(5)];
	long at[] = { 0, s / 2, s, 2 * s + 1 };
	long x = at[mc::choose(4)];
	heldBack(mc::choose(2) ? Mode::JOB_QUEUE : Mode::DETACHED, s, x, mc::choose(2));
}

// The value reported is always the last one set, in any state of the engine; it survives everything else.
MC_SCENARIO(reported, { .p = 0, .pThorough = 0, .shards = 4 })
{
	static const long V[] = { 1, 99, 100, 2147483648l, 3600000 };
	Eng e(ALLMODES[mc::config(4)]);
	place(e, { "a", 0, true });
	long last = 100;
	std::ostringstream out;
	for (int i = 0; i < 4; ++i)
	{
		int op = mc::choose(9);
		if (op < 5)
			e.setEventLoopSleepDuration(ms(last = V[op]));
		else if (op == 5)
			throws([&] { i % 2 ? e.execute(true, out) : e.execute(); });
		else if (op == 6)
			e.stop();
		else if (op == 7)
			throws([&] { e.setActionsThreadOption(ALLMODES[i % 4]); });
		else
			throws([&] { e.clearNet(); });
		MC_CHECK(e.getEventLoopSleepDuration().count() == last, "reported %ld and not %ld", (long)e.getEventLoopSleepDuration().count(), last);
	}
}

// Set by two threads while the loop goes to sleep: one of the values wins and governs the next waits.
MC_SCENARIO(racing_sets, { .p = 3, .pThorough = 5, .shards = 3 })
{
	mc::maxTimers(1000);
	Mode m = ASYNC[mc::config(3)];
	Eng e(m);
	std::atomic<bool> open{ false };
	place(e, { "a", 1 });
	place(e, { "b" });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { [&] { return open.load(); } } });
	e.execute();
	std::thread t([&] { e.setEventLoopSleepDuration(ms(20)); });
	e.setEventLoopSleepDuration(ms(50));
	t.join();
	long v = e.getEventLoopSleepDuration().count();
	MC_CHECK(v == 20 || v == 50, "value %ld", v);
	mc::settle(100);
	open = true;
	mc::settle(v);
	mc::quiesce();
	MC_CHECK(tok(e, "b") == 1, "%s: not fired within %ld ms", modeName(m), v);
	mc::outcome("%ld", v);
}

// A firing follows another without the period in between; the idle wait is only taken when nothing fires.
MC_SCENARIO(no_wait_between, { .p = 0, .pThorough = 1, .shards = 3 })
{
	mc::maxTimers(1000);
	Mode m = ASYNC[mc::config(3)];
	Eng e(m);
	std::atomic<bool> open{ false };
	place(e, { "a", 20 });
	place(e, { "b" });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { [&] { return open.load(); } } });
	e.execute();
	mc::settle(30);
	open = true;
	mc::settle(100);
	mc::quiesce();
	MC_CHECK(tok(e, "b") == 20, "%s: only %ld of 20 firings", modeName(m), tok(e, "b"));
}

// The period is set while the net is being evaluated (from a condition, or by another thread meanwhile): it governs
// the idle wait that begins after this evaluation.
MC_SCENARIO(set_during_evaluation, { .p = 1, .pThorough = 2, .shards = 6 })
{
	static const long S[][2] = { { 100, 10 }, { 10, 100 }, { 600, 1 }, { 1, 600 }, { 100, 101 }, { 7, 5 } };
	const auto &[before, after] = S[mc::config(6)];
	Mode m = ASYNC[mc::choose(3)];
	const int at = mc::choose(3);     // in which evaluation
	const int how = mc::choose(4);    // by the condition, by another thread, by a thread that injects as well, by an action
	const int tokens = mc::choose(2); // whether transitions fire meanwhile
	mc::maxTimers(10000);
	mc::Gate in, go(how != 1 && how != 2);
	Eng e(m);
	e.setEventLoopSleepDuration(ms(before));
	place(e, { "a", 1, true });
	place(e, { "x", (size_t)tokens, true });
	place(e, { "y", 0, false, [&, a = after] { if (how == 3) e.setEventLoopSleepDuration(ms(a)); } });
	int evals = 0;
	std::atomic<bool> open{ false };
	transition(e, { "t", { { "a", 1 } }, {}, {}, { [&, a = after]
		{
			mc::note(7);
			if (evals++ == at)
			{
				if (how == 0)
					e.setEventLoopSleepDuration(ms(a));
				in.open();
				go.wait();
			}
			return open.load();
		} } });
	transition(e, { "u", { { "x", 1 } }, { { "y", 1 } } });
	e.execute();
	if (how == 1 || how == 2)
	{
		in.wait();
		e.setEventLoopSleepDuration(ms(after));
		if (how == 2)
			e.incrementInputPlace("x");
		go.open();
	}
	else if (how == 3)
	{
		mc::settle(at * before / 2);
		e.incrementInputPlace("x");
	}
	else
		mc::settle(at * before);
	mc::quiesce();
	MC_CHECK(e.getEventLoopSleepDuration().count() == after, "period reported %ld", (long)e.getEventLoopSleepDuration().count());
	// the action may have been executed when the wait had begun already (not so in EVENT_LOOP)
	if (how == 3 && m != Mode::EVENT_LOOP)
	{
		mc::settle(before);
		mc::quiesce();
	}
	for (int i = 0; i < 3; ++i)
	{
		int from = mc::events();
		long t0 = mc::nowMs();
		mc::settle(after);
		mc::quiesce();
		MC_CHECK(Evals::times(from).size() >= 1, "%s: %ld -> %ld ms, set during evaluation %d: not evaluated between %ld and %ld ms", modeName(m), before,
				 after, at, t0, mc::nowMs());
		MC_CHECK(Evals::times(from).size() <= 2, "%s: %ld -> %ld ms, set during evaluation %d: evaluated at %zu moments in one period", modeName(m), before,
				 after, at, Evals::times(from).size());
	}
	open = true;
	mc::settle(after);
	mc::quiesce();
	MC_CHECK(tok(e, "a") == 0, "not fired within a period");
}
