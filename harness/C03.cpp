// Progress of the event loop without a timer: no lost wake-up (C03).
// mc::quiesce() waits, without letting any time pass, until no other thread can move: what has not fired by then
// only fires when a timer expires (or never).
#include "common.h"
#include "neutral.h"

static void check(const Eng &e, Mode m, const char *when, const std::map<string, long> &want)
{
	mc::quiesce();
	for (auto &[p, n] : want)
		MC_CHECK(tok(e, p) == n, "%s: %s: %s has %ld tokens and not %ld once nothing moves without a timer", modeName(m), when,
				 p.c_str(), tok(e, p), n);
}
static ActionFunction nop(Mode m)
{
	return m == Mode::EVENT_LOOP ? nullptr : ActionFunction([] { mc::event(1); });
}

// One injection, at every possible moment.
static void injectOnce(Mode m, ActionFunction enter)
{
	Eng e(m);
	place(e, { "in", 0, true, enter });
	place(e, { "out" });
	transition(e, { "t", { { "in", 1 } }, { { "out", 1 } } });
	e.execute();
	e.incrementInputPlace("in");
	check(e, m, "one injection", { { "in", 0 }, { "out", 1 } });
	e.stop();
}
MC_SCENARIO(inject_el, { .p = 4, .pThorough = 6 }) { injectOnce(Mode::EVENT_LOOP, nullptr); }
MC_SCENARIO(inject_jq, { .p = 4, .pThorough = 6 }) { injectOnce(Mode::JOB_QUEUE, nop(Mode::JOB_QUEUE)); }
MC_SCENARIO(inject_det, { .p = 4, .pThorough = 6 }) { injectOnce(Mode::DETACHED, nop(Mode::DETACHED)); }
MC_SCENARIO(inject_spurious, { .p = 2, .pThorough = 3, .t = 1, .shards = 3 }) { injectOnce(ASYNC[mc::config(3)], nullptr); }

// A second and a third injection, while the first is processed or after.
static void injectAgain(Mode m, bool wait)
{
	Eng e(m);
	e.setEventLoopSleepDuration(ms(3600000));
	place(e, { "in", 0, true });
	place(e, { "out" });
	transition(e, { "t", { { "in", 1 } }, { { "out", 1 } } });
	e.execute();
	e.incrementInputPlace("in");
	if (wait)
		check(e, m, "first", { { "out", 1 } });
	e.incrementInputPlace("in");
	if (wait)
		check(e, m, "second", { { "out", 2 } });
	e.incrementInputPlace("in");
	check(e, m, "third", { { "in", 0 }, { "out", 3 } });
}
MC_SCENARIO(again, { .p = 3, .pThorough = 6, .shards = 6 })
{
	int c = mc::config(6);
	injectAgain(ASYNC[c / 2], c & 1);
}

// Two threads inject into places that enable different transitions, or one transition together.
static void twoThreads(Mode m, int net)
{
	Eng e(m);
	place(e, { "a", 0, true });
	place(e, { "b", 0, true });
	place(e, { "x" });
	place(e, { "y" });
	if (net == 0)
	{
		transition(e, { "ta", { { "a", 1 } }, { { "x", 1 } } });
		transition(e, { "tb", { { "b", 1 } }, { { "y", 1 } } });
	}
	else if (net == 1)
		transition(e, { "t", { { "a", 1 }, { "b", 1 } }, { { "x", 1 }, { "y", 1 } } });
	else
	{
		transition(e, { "ta", { { "a", 1 } }, { { "b", 1 }, { "x", 1 } } });
		transition(e, { "tb", { { "b", 2 } }, { { "y", 1 } } });
	}
	e.execute();
	std::thread t([&] { e.incrementInputPlace("b"); });
	e.incrementInputPlace("a");
	t.join();
	check(e, m, "two threads", { { "a", 0 }, { "b", 0 }, { "x", 1 }, { "y", 1 } });
}
MC_SCENARIO(two_threads, { .p = 3, .pThorough = 5, .shards = 9 })
{
	int c = mc::config(9);
	twoThreads(ASYNC[c / 3], c % 3);
}

// Chains: the injection enables a transition whose firing enables the next and so on, in every order of evaluation.
static void chain(Mode m, int len, bool before)
{
	mc::seeds(2, 3);
	Eng e(m);
	place(e, { "p0", 0, true });
	for (int i = 1; i <= len; ++i)
		place(e, { "p" + std::to_string(i), 0, false, i == 1 ? nop(m) : nullptr });
	for (int i = 0; i < len; ++i)
		transition(e, { "t" + std::to_string((i * 3) % 7), { { "p" + std::to_string(i), 1 } }, { { "p" + std::to_string(i + 1), 1 } } });
	if (before)
		e.incrementInputPlace("p0");
	e.execute();
	if (!before)
		e.incrementInputPlace("p0");
	check(e, m, before ? "chain, token before execute" : "chain", { { "p0", 0 }, { "p" + std::to_string(len), 1 } });
	// a second token in the middle of nothing
	e.incrementInputPlace("p0");
	check(e, m, "chain, second token", { { "p0", 0 }, { "p" + std::to_string(len), 2 } });
}
MC_SCENARIO(chain3, { .p = 3, .pThorough = 5, .shards = 6 })
{
	int c = mc::config(6);
	chain(ASYNC[c / 2], 3, c & 1);
}
MC_SCENARIO(chain6, { .p = 1, .pThorough = 3, .shards = 6 })
{
	int c = mc::config(6);
	chain(ASYNC[c / 2], 6, c & 1);
}

// A transition that cannot fire (its condition is false, or inhibited) is enabled all the time: passes without a
// firing must not swallow the injection of another place.
static void besideBlocked(Mode m, int how)
{
	Eng e(m);
	place(e, { "stuck", 1, true });
	place(e, { "in", 0, true });
	place(e, { "out" });
	if (how == 0)
		transition(e, { "s", { { "stuck", 1 } }, {}, {}, { [] { return false; } } });
	else
		transition(e, { "s", { { "in", 1 } }, {}, { { "stuck", 1 } } });
	transition(e, { "t", { { "in", 2 } }, { { "out", 1 } } });
	e.execute();
	e.incrementInputPlace("in");
	e.incrementInputPlace("in");
	check(e, m, "beside a blocked transition", { { "in", 0 }, { "out", 1 }, { "stuck", 1 } });
	e.incrementInputPlace("stuck");
	e.incrementInputPlace("in");
	e.incrementInputPlace("in");
	check(e, m, "beside a blocked transition, again", { { "in", 0 }, { "out", 2 }, { "stuck", 2 } });
}
MC_SCENARIO(beside_blocked, { .p = 3, .pThorough = 5, .shards = 6 })
{
	int c = mc::config(6);
	besideBlocked(ASYNC[c / 2], c & 1);
}

// The loop is stopped and started again: tokens injected before, in between and after are processed as promptly.
static void restart(Mode m, int when)
{
	Eng e(m);
	place(e, { "in", 0, true });
	place(e, { "out" });
	transition(e, { "t", { { "in", 1 } }, { { "out", 1 } } });
	e.execute();
	if (when == 0)
		e.incrementInputPlace("in");
	if (when == 3)
		mc::quiesce();
	e.stop();
	if (when == 1)
		e.incrementInputPlace("in");
	e.execute();
	if (when >= 2)
		e.incrementInputPlace("in");
	check(e, m, "restart", { { "in", 0 }, { "out", 1 } });
	e.incrementInputPlace("in");
	check(e, m, "restart, again", { { "in", 0 }, { "out", 2 } });
}
MC_SCENARIO(restarted, { .p = 3, .pThorough = 5, .shards = 12 })
{
	int c = mc::config(12);
	restart(ASYNC[c / 4], c % 4);
}

// The injection races with execute() itself.
MC_SCENARIO(race_execute, { .p = 3, .pThorough = 6, .shards = 3 })
{
	Mode m = ASYNC[mc::config(3)];
	Eng e(m);
	place(e, { "in", 0, true });
	place(e, { "out" });
	transition(e, { "t", { { "in", 1 } }, { { "out", 1 } } });
	std::thread t([&] { e.incrementInputPlace("in"); });
	e.execute();
	t.join();
	check(e, m, "injection during execute", { { "in", 0 }, { "out", 1 } });
}

// Other calls race with the injection: they must not swallow the wake-up.
static void withOther(Mode m, int op)
{
	Eng e(m);
	place(e, { "in", 0, true });
	place(e, { "out" });
	transition(e, { "t", { { "in", 1 } }, { { "out", 1 } } });
	e.execute();
	std::thread t(
		[&]
		{
			std::ostringstream o;
			switch (op)
			{
			case 0: e.setEventLoopSleepDuration(ms(5000)); break;
			case 1: e.printState(o); break;
			case 2: transition(e, { "u", { { "out", 5 } }, {} }); break;
			case 3: place(e, { "q", 1, true }); break;
			case 4: throws([&] { e.execute(); }); break;
			case 5: throws([&] { e.incrementInputPlace("out"); }); break;
			case 6: e.getTransitionsProperties(); break;
			}
		});
	e.incrementInputPlace("in");
	t.join();
	check(e, m, "with another call", { { "in", 0 }, { "out", 1 } });
}
MC_SCENARIO(with_other, { .p = 3, .pThorough = 5, .shards = 7 })
{
	int op = mc::config(7);
	withOther(ASYNC[mc::choose(3)], op);
}

// Actions running asynchronously inject tokens: each continues the chain.
static void fromAction(Mode m)
{
	Eng e(m);
	place(e, { "in", 0, true });
	place(e, { "mid", 0, false, [&] { e.incrementInputPlace("back"); } });
	place(e, { "back", 0, true });
	place(e, { "out" });
	transition(e, { "t", { { "in", 1 } }, { { "mid", 1 } } });
	transition(e, { "u", { { "mid", 1 }, { "back", 1 } }, { { "out", 1 } } });
	e.execute();
	e.incrementInputPlace("in");
	check(e, m, "injected by an action", { { "in", 0 }, { "mid", 0 }, { "back", 0 }, { "out", 1 } });
	e.stop();
}
MC_SCENARIO(from_action, { .p = 3, .pThorough = 5, .shards = 2 }) { fromAction(mc::config(2) ? Mode::JOB_QUEUE : Mode::DETACHED); }

// The mode was changed before: the loop of the new mode is woken up as well.
MC_SCENARIO(mode_changed, { .p = 3, .pThorough = 5, .shards = 3 })
{
	Mode m = ASYNC[mc::config(3)];
	Eng e(ALLMODES[mc::choose(4)]);
	place(e, { "in", 0, true, nop(m) });
	place(e, { "out", 0, false, nop(m) });
	transition(e, { "t", { { "in", 1 } }, { { "out", 1 } } });
	e.setActionsThreadOption(m);
	e.execute();
	e.incrementInputPlace("in");
	check(e, m, "mode changed", { { "in", 0 }, { "out", 1 } });
}

// Firings that leave the marking as it was: the loop goes on with what their callbacks have enabled.
MC_SCENARIO(neutral, { .p = 1, .pThorough = 2, .shards = 3, .delayBounded = true })
{
	Mode m = ASYNC[mc::config(3)];
	Neutral n(m);
	n.e.setEventLoopSleepDuration(ms(1000000));
	n.e.execute();
	mc::quiesce();
	n.check();
	n.e.stop();
}
