// MC_MAXF: 64
// The net can be extended while the event loop runs (C26): what is created takes part like everything else, from
// its creation on, entirely or not at all.
#include "refnet.h"
#include <atomic>

namespace
{
const long PERIOD = 50;

// Waits until the net has been evaluated at least once more.
void onePeriod()
{
	mc::settle(PERIOD);
	mc::quiesce();
}
}

// A transition that is enabled when it is created fires within one evaluation, whatever the loop is doing meanwhile.
MC_SCENARIO(enabled_at_once, { .p = 2, .pThorough = 3, .shards = 18, .delayBounded = true })
{
	const int c = mc::config(18);
	const Mode m = ASYNC[c % 3];
	const int shape = c / 3 % 3, busy = c / 9;
	Eng e(m);
	e.setEventLoopSleepDuration(ms(PERIOD));
	std::atomic<int> entered{ 0 }, left{ 0 };
	place(e, { "a", 3, false, nullptr, [&] { ++left; } });
	place(e, { "b", 0, false, [&] { ++entered; } });
	place(e, { "none" });
	place(e, { "go", 1, true });
	place(e, { "went" });
	transition(e, { "u", { { "go", 1 } }, { { "went", 1 } } });
	if (mc::choose(2))
		transition(e, { "v", { { "none", 1 } }, { { "a", 1 } } });
	e.execute();
	if (!busy)
		mc::quiesce();
	switch (shape)
	{
	case 0: transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } }); break;
	case 1: transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, { { "none", 1 } }, { [] { return true; } }, true }); break;
	case 2: transition(e, { "t", { { "a", 3 }, { "went", 1 } }, { { "b", 3 }, { "went", 1 } } }); break;
	}
	const long t0 = mc::nowMs();
	onePeriod();
	MC_CHECK(tok(e, "a") == 0 && tok(e, "b") == 3 && tok(e, "went") == 1, "%s: a=%ld b=%ld went=%ld one period after t was created", modeName(m),
			 tok(e, "a"), tok(e, "b"), tok(e, "went"));
	MC_CHECK(e.isEventLoopRunning(), "the loop has ended");
	const int n = shape == 2 ? 1 : 3;
	mc::quiesce();
	MC_CHECK(entered == n && left == n, "%s: actions ran %d and %d times instead of %d", modeName(m), entered.load(), left.load(), n);
	e.incrementInputPlace("go");
	mc::quiesce();
	MC_CHECK(tok(e, "went") == 2 && mc::nowMs() <= t0 + PERIOD, "the net does not work as before");
	e.stop();
	mc::outcome("%ld", mc::nowMs());
}

// A transition created while tokens come in never fires with part of its arcs or conditions only.
MC_SCENARIO(whole, { .p = 2, .pThorough = 3, .shards = 18, .delayBounded = true })
{
	const int c = mc::config(18);
	const Mode m = ASYNC[c % 3];
	const int missing = c / 3; // which of the requirements is not met
	Eng e(m);
	e.setEventLoopSleepDuration(ms(PERIOD));
	std::atomic<bool> condition{ missing != 0 };
	place(e, { "in", 0, true });
	place(e, { "need", (size_t)(missing == 1 ? 1 : 2) });
	place(e, { "more", (size_t)(missing == 2 ? 0 : 1) });
	place(e, { "veto", (size_t)(missing == 3 ? 1 : 0), true });
	place(e, { "o1" });
	place(e, { "o2" });
	e.execute();
	{
		std::jthread other([&] { e.incrementInputPlace("in"); });
		transition(e, { "t",
						{ { "in", 1 }, { "need", 2 }, { "more", 1 } },
						{ { "o1", 1 }, { "o2", 5 } },
						{ { "veto", 1 } },
						{ [] { return true; }, [&] { return condition.load(); } } });
		other.join();
	}
	onePeriod();
	const bool fires = missing >= 4;
	MC_CHECK(tok(e, "in") == !fires && tok(e, "o1") == fires && tok(e, "o2") == 5 * fires, "%s: requirement %d: in=%ld o1=%ld o2=%ld", modeName(m),
			 missing, tok(e, "in"), tok(e, "o1"), tok(e, "o2"));
	MC_CHECK(tok(e, "need") == (fires ? 0 : missing == 1 ? 1 : 2) && tok(e, "more") == (missing == 2 || fires ? 0 : 1), "wrong marking");
	if (missing == 5)
	{
		MC_CHECK(throws([&] { transition(e, { "t", { { "o1", 1 } }, {} }); }) == 1, "the name is taken");
		onePeriod();
		MC_CHECK(tok(e, "o1") == 1, "the refused transition fires");
	}
	e.stop();
}

// Places created while the loop runs: injected into, fired from, fired into, with the actions of the current mode.
MC_SCENARIO(places, { .p = 1, .pThorough = 3, .shards = 12, .delayBounded = true })
{
	const int c = mc::config(12);
	const Mode m = ASYNC[c % 3];
	const bool switched = c / 3 % 2, registered = c / 6;
	Eng e(switched ? Mode::SINGLE_THREAD : m);
	if (switched)
		e.setActionsThreadOption(m);
	e.setEventLoopSleepDuration(ms(PERIOD));
	std::atomic<int> entered{ 0 }, loopThread{ -1 }, wrongThread{ 0 }, left{ 0 }, outs{ 0 };
	auto enter = [&]
	{
		++entered;
		if ((m == Mode::EVENT_LOOP) != (mc::self() == loopThread || mc::self() == 0))
			++wrongThread;
	};
	auto exit = [&] { ++left; };
	place(e, { "old", 0, true });
	transition(e, { "probe", { { "old", 1000 } }, {}, {}, {} });
	place(e, { "tick", 1 });
	transition(e, { "whoami", { { "tick", 1 } }, { { "tick", 1 } }, {}, { [&] { loopThread = mc::self(); return false; } } });
	e.execute();
	if (mc::choose(2))
		mc::quiesce();
	PlaceProperties p;
	p.name = "in";
	p.input = true;
	p.initialNumberOfTokens = 1;
	if (registered)
	{
		e.registerAction("enter", enter);
		p.onEnterActionFunctionName = "enter";
		e.registerAction("exit", exit);
		p.onExitActionFunctionName = "exit";
		e.registerCondition("yes", [] { return true; });
	}
	else
	{
		p.onEnterAction = enter;
		p.onExitAction = exit;
	}
	e.createPlace(p);
	MC_CHECK(tok(e, "in") == 1 && tok(e, "old") == 0, "the marking of the new place is %ld", tok(e, "in"));
	place(e, { "out", 0, false,
			   [&]
			   {
				   ++outs;
				   if ((m == Mode::EVENT_LOOP) != (mc::self() == loopThread))
					   ++wrongThread;
			   } });
	TransitionProperties t;
	t.name = "t";
	t.activationArcs = arcs({ { "in", 2 } }, AT::ACTIVATION);
	t.destinationArcs = arcs({ { "out", 1 }, { "old", 1 } }, AT::DESTINATION);
	if (registered)
		t.additionalConditionsNames = { "yes" };
	e.createTransition(t);
	e.incrementInputPlace("in");
	mc::quiesce();
	MC_CHECK(tok(e, "in") == 0 && tok(e, "out") == 1 && tok(e, "old") == 1, "%s: in=%ld out=%ld old=%ld", modeName(m), tok(e, "in"), tok(e, "out"),
			 tok(e, "old"));
	MC_CHECK(entered == 1 && left == 1, "%s: actions of the new place ran %d and %d times", modeName(m), entered.load(), left.load());
	MC_CHECK(outs == 1, "%s: the action of the new inner place ran %d times", modeName(m), outs.load());
	MC_CHECK(wrongThread == 0, "%s: the action of the new place ran in thread of another mode", modeName(m));
	MC_CHECK(throws([&] { e.incrementInputPlace("out"); }) == 1, "out is not an input place");
	e.stop();
	MC_CHECK(e.getPlacesProperties().size() == 4 && e.getTransitionsProperties().size() == 3, "the net has other elements");
	// and after a restart
	e.incrementInputPlace("in");
	e.execute();
	e.incrementInputPlace("in");
	mc::quiesce();
	MC_CHECK(tok(e, "out") == 2 && entered == 3, "not part of the net after a restart");
	e.stop();
}

// Each report of the running loop shows a new place with its tokens or not at all.
MC_SCENARIO(reported, { .p = 2, .pThorough = 3, .shards = 6, .delayBounded = true })
{
	const int c = mc::config(6);
	const Mode m = ASYNC[c % 3];
	std::ostringstream o;
	Eng e(m);
	e.setEventLoopSleepDuration(ms(PERIOD));
	place(e, { "a", 3, true });
	place(e, { "b" });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
	e.execute(true, o);
	if (mc::choose(2))
		mc::quiesce();
	place(e, { "n", 5, c / 3 == 1 });
	e.incrementInputPlace("a");
	mc::quiesce();
	e.stop();
	int reports = 0;
	std::istringstream in(o.str());
	for (string line; std::getline(in, line);)
		if (line.rfind("n: ", 0) == 0)
		{
			++reports;
			MC_CHECK(line == "n: 5", "%s: the new place is reported with other tokens: '%s'", modeName(m), line.c_str());
		}
	MC_CHECK(reports > 0, "%s: the new place is never reported", modeName(m));
}

// The actions of new places are executed together with those of the old ones: in turn in JOB_QUEUE mode, at the same time
// in DETACHED mode; and a change of the mode concerns them as well.
MC_SCENARIO(one_queue, { .p = 1, .pThorough = 2, .shards = 8, .delayBounded = true })
{
	const int c = mc::config(8);
	const Mode m = c % 2 ? Mode::DETACHED : Mode::JOB_QUEUE;
	const bool oldFirst = c / 2 % 2, exits = c / 4;
	mc::Gate gate;
	std::atomic<int> began{ 0 }, ended{ 0 }, quick{ 0 }, thread{ -1 };
	auto slow = [&]
	{
		++began;
		gate.wait();
		++ended;
	};
	auto fast = [&]
	{
		thread = mc::self();
		++quick;
	};
	Eng e(m);
	e.setEventLoopSleepDuration(ms(PERIOD));
	const ActionFunction oldAction = oldFirst ? ActionFunction(slow) : ActionFunction(fast), newAction = oldFirst ? ActionFunction(fast) : ActionFunction(slow);
	place(e, { "old", 0, true, exits ? nullptr : oldAction, exits ? oldAction : nullptr });
	place(e, { "o" });
	transition(e, { "t", { { "old", 1 } }, { { "o", 1 } } });
	e.execute();
	if (mc::choose(2))
		mc::quiesce();
	place(e, { "new", 0, true, exits ? nullptr : newAction, exits ? newAction : nullptr });
	transition(e, { "u", { { "new", 1 } }, { { "o", 1 } } });
	e.incrementInputPlace(oldFirst ? "old" : "new");
	mc::quiesce();
	MC_CHECK(began == 1 && tok(e, "o") == 1, "the first action has not been started");
	e.incrementInputPlace(oldFirst ? "new" : "old");
	mc::quiesce();
	MC_CHECK(tok(e, "o") == 2, "the net waits for the action");
	MC_CHECK(quick == (m == Mode::DETACHED), "%s: the action of the %s place %s while that of the other one is in execution", modeName(m),
			 oldFirst ? "new" : "old", quick ? "is executed" : "is held up");
	gate.open();
	mc::quiesce();
	MC_CHECK(quick == 1 && ended == 1, "the actions have not been executed");
	e.stop();
	e.setActionsThreadOption(Mode::EVENT_LOOP);
	e.incrementInputPlace("new");
	e.incrementInputPlace("old");
	if (!exits)
		MC_CHECK(quick == 2 && ended == 2 && thread == 0, "after a change to EVENT_LOOP: executed %d and %d times, in thread %d", quick.load(), ended.load(),
				 thread.load());
	e.setActionsThreadOption(Mode::SINGLE_THREAD);
	e.execute();
	MC_CHECK(quick == 2 && ended == 2 && thread == 0, "after a change to SINGLE_THREAD: executed %d and %d times, in thread %d", quick.load(),
			 ended.load(), thread.load());
}

// Two threads extend a running net, in each pair of requests; equal names: exactly one is accepted.
MC_SCENARIO(two_threads, { .p = 1, .pThorough = 2, .shards = 48, .delayBounded = true })
{
	const int c = mc::config(48);
	const Mode m = ASYNC[c % 3];
	const int x = c / 3 % 4, y = c / 12;
	Eng e(m);
	e.setEventLoopSleepDuration(ms(PERIOD));
	place(e, { "a", 2, true });
	place(e, { "b" });
	place(e, { "go" });
	if (mc::choose(2))
		transition(e, { "busy", { { "a", 1 } }, { { "a", 1 }, { "go", 1 } }, {}, { [&e, n = 0]() mutable { return n++ < 2; } } });
	int accepted[2] = { 0, 0 };
	auto request = [&](int i, int k)
	{
		switch (k)
		{
		case 0: accepted[i] += !throws([&] { transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } }); }); break;
		case 1: accepted[i] += !throws([&] { transition(e, { i ? "t1" : "t0", { { "a", 1 } }, { { "b", 1 } } }); }); break;
		case 2: accepted[i] += !throws([&] { place(e, { "p", (size_t)i + 1, true }); }); break;
		case 3:
			place(e, { i ? "p1" : "p0", 1, true });
			transition(e, { i ? "q1" : "q0", { { i ? "p1" : "p0", 1 } }, { { "b", 1 } } });
			accepted[i] += 1;
			break;
		}
	};
	e.execute();
	{
		std::jthread other([&] { request(1, y); });
		request(0, x);
	}
	onePeriod();
	onePeriod();
	MC_CHECK(accepted[0] + accepted[1] == ((x == y && (x == 0 || x == 2)) ? 1 : 2), "%d and %d accepted (%d, %d)", accepted[0], accepted[1], x, y);
	const bool moves = x < 2 || y < 2;
	const long extra = (x == 3) + (y == 3);
	MC_CHECK(tok(e, "a") == (moves ? 0 : 2) && tok(e, "b") == (moves ? 2 : 0) + extra, "%s: %d and %d: a=%ld b=%ld", modeName(m), x, y, tok(e, "a"),
			 tok(e, "b"));
	if (x == 2 || y == 2)
	{
		const long want = accepted[0] && x == 2 ? 1 : 2;
		MC_CHECK(tok(e, "p") == want, "p=%ld", tok(e, "p"));
		e.incrementInputPlace("p");
		MC_CHECK(tok(e, "p") == want + 1, "p=%ld after an injection", tok(e, "p"));
	}
	e.stop();
	mc::outcome("%d%d %ld", accepted[0], accepted[1], tok(e, "go"));
}

// The net extends itself: each action creates the place and the transition that come next.
static void grows(Mode m, int n)
{
	mc::maxSteps(10000000);
	mc::maxTimers(10000);
	Eng e(m);
	e.setEventLoopSleepDuration(ms(PERIOD));
	std::atomic<int> made{ 0 };
	std::function<void()> next = [&]
	{
		const int i = ++made;
		if (i > n)
			return;
		const string from = "p" + std::to_string(i - 1), to = "p" + std::to_string(i);
		place(e, { to, 0, false, next });
		transition(e, { "t" + std::to_string(i), { { from, 1 } }, { { to, 1 } } });
	};
	place(e, { "p0", 0, true, next });
	e.execute();
	e.incrementInputPlace("p0");
	for (int i = 0; i <= n; ++i)
		onePeriod();
	MC_CHECK(made == n + 1, "%s: %d of %d elements have been created", modeName(m), made.load(), n);
	for (int i = 0; i < n; ++i)
		MC_CHECK(tok(e, "p" + std::to_string(i)) == 0, "%s: the token is left in p%d", modeName(m), i);
	MC_CHECK(tok(e, "p" + std::to_string(n)) == 1, "%s: the token has not arrived", modeName(m));
	e.stop();
	mc::outcome("%ld", mc::nowMs());
}
MC_SCENARIO(grows_itself, { .p = 2, .pThorough = 3, .shards = 2, .delayBounded = true }) { grows(mc::config(2) ? Mode::JOB_QUEUE : Mode::DETACHED, 3); }
MC_SCENARIO(grows_far, { .p = 0, .pThorough = 0, .shards = 1 }) { grows(Mode::JOB_QUEUE, 40); }

// Hundreds of elements are added to a running net, one after the other; all of them work, none is disturbed.
MC_SCENARIO(hundreds, { .p = 0, .pThorough = 1, .shards = 9, .delayBounded = true })
{
	const int c = mc::config(9);
	const Mode m = ASYNC[c % 3];
	const int n = c / 3 == 0 ? 17 : c / 3 == 1 ? 70 : 270;
	mc::maxSteps(100000000);
	mc::maxTimers(100000);
	mc::fixSeed(0);
	Eng e(m);
	e.setEventLoopSleepDuration(ms(PERIOD));
	place(e, { "in", 0, true });
	place(e, { "out" });
	transition(e, { "first", { { "in", 1 } }, { { "out", 1 } } });
	e.execute();
	const bool wait = mc::choose(2);
	for (int i = 0; i < n; ++i)
	{
		const string s = std::to_string(i);
		place(e, { "p" + s, 1, true });
		transition(e, { "t" + s, { { "p" + s, 1 } }, { { "out", 1 } } });
		if (i % 16 == 0)
			e.incrementInputPlace("in");
		if (wait && i % 64 == 0)
			mc::quiesce();
	}
	onePeriod();
	const long want = n + (n + 15) / 16;
	MC_CHECK(tok(e, "out") == want && tok(e, "in") == 0, "%s: %ld firings instead of %ld", modeName(m), tok(e, "out"), want);
	for (int i = 0; i < n; ++i)
	{
		const string p = "p" + std::to_string(i);
		MC_CHECK(tok(e, p) == 0, "%s has not been fired", p.c_str());
		if (i % 8 == 0)
			e.incrementInputPlace(p);
	}
	mc::quiesce();
	MC_CHECK(tok(e, "out") == want + (n + 7) / 8, "%s: %ld firings instead of %ld", modeName(m), tok(e, "out"), want + (n + 7) / 8);
	e.stop();
	MC_CHECK((int)e.getPlacesProperties().size() == n + 2 && (int)e.getTransitionsProperties().size() == n + 1, "the net has other elements");
}

// Refused requests disturb neither the loop nor the net; names and functions unknown before can be added at once.
MC_SCENARIO(refused, { .p = 1, .pThorough = 2, .shards = 21, .delayBounded = true })
{
	const int c = mc::config(21);
	const Mode m = ASYNC[c % 3];
	Eng e(m);
	e.setEventLoopSleepDuration(ms(PERIOD));
	place(e, { "a", 1, true });
	place(e, { "b" });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
	e.execute();
	auto bad = [&]
	{
		switch (c / 3)
		{
		case 0: transition(e, { "u", { { "b", 1 } }, { { "nowhere", 1 } } }); break;
		case 1: transition(e, { "t", { { "b", 1 } }, {} }); break;
		case 2: place(e, { "a", 7, true }); break;
		case 3: transition(e, { "u", { { "b", 1 }, { "b", 1 } }, {} }); break;
		case 4:
		{
			TransitionProperties t;
			t.name = "u";
			t.activationArcs = arcs({ { "b", 1 } }, AT::ACTIVATION);
			t.additionalConditionsNames = { "unknown" };
			e.createTransition(t);
			break;
		}
		case 5:
		{
			PlaceProperties p;
			p.name = "p";
			p.onEnterActionFunctionName = "unknown";
			e.createPlace(p);
			break;
		}
		case 6: transition(e, { "u", { { "b", 0 } }, {} }); break;
		}
	};
	MC_CHECK(throws(bad) == 1, "request %d is accepted", c / 3);
	onePeriod();
	MC_CHECK(e.isEventLoopRunning() && tok(e, "a") == 0 && tok(e, "b") == 1, "request %d: a=%ld b=%ld", c / 3, tok(e, "a"), tok(e, "b"));
	// what was missing is added
	place(e, { "nowhere" });
	e.registerCondition("unknown", [] { return true; });
	e.registerAction("unknown", [] {});
	if (c / 3 != 1 && c / 3 != 2 && c / 3 != 3 && c / 3 != 6)
	{
		MC_CHECK(throws(bad) == 0, "request %d is refused", c / 3);
		onePeriod();
		MC_CHECK(tok(e, "b") == (c / 3 == 5 ? 1 : 0), "request %d: b=%ld", c / 3, tok(e, "b"));
	}
	e.incrementInputPlace("a");
	mc::quiesce();
	MC_CHECK(tok(e, "a") == 0, "the net no longer works");
	e.stop();
}

// Extended at any moment against stop() and execute(): it is part of the net afterwards in any case.
MC_SCENARIO(against_stop, { .p = 2, .pThorough = 3, .shards = 6, .delayBounded = true })
{
	const int c = mc::config(6);
	const Mode m = ASYNC[c % 3];
	Eng e(m);
	e.setEventLoopSleepDuration(ms(PERIOD));
	place(e, { "a", 1, true });
	place(e, { "b" });
	if (c / 3)
		e.execute();
	{
		std::jthread other(
		[&]
		{
			if (c / 3)
				e.stop();
			else
				e.execute();
		});
		place(e, { "c", 1 });
		transition(e, { "t", { { "a", 1 }, { "c", 1 } }, { { "b", 1 } } });
	}
	if (c / 3)
	{
		const long b = tok(e, "b");
		onePeriod();
		MC_CHECK(tok(e, "b") == b && !e.isEventLoopRunning(), "fired after stop()");
		e.execute();
	}
	onePeriod();
	MC_CHECK(tok(e, "b") == 1 && tok(e, "a") == 0 && tok(e, "c") == 0, "%s: not part of the net", modeName(m));
	e.stop();
}
