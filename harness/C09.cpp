// requireNoActionsInExecution holds a transition back exactly while needed (C09).
#include "common.h"
#include <atomic>

static void guarded(Eng &e, const string &name, const Arcs &in, const Arcs &out, vector<ConditionFunction> conds = {}, const Arcs &inh = {})
{
	transition(e, { name, in, out, inh, conds, true });
}

// An on-enter action of a place that is injected into: until it has finished, the tokens of the place may not decrease.
struct Watch
{
	Eng *e = nullptr;
	string p;
	long least = 1;
	std::atomic<int> started{ 0 }, ended{ 0 };
	mc::Gate *gate = nullptr;
	ActionFunction action()
	{
		return [this]
		{
			++started;
			long x = tok(*e, p);
			MC_CHECK(x >= least, "a transition fired while an on-enter action was pending (%ld tokens left in %s)", x, p.c_str());
			if (gate)
				gate->wait();
			mc::mark();
			long y = tok(*e, p);
			MC_CHECK(y >= x, "a transition fired while an on-enter action was in execution (%ld, then %ld tokens in %s)", x, y, p.c_str());
			++ended;
		};
	}
};

// An injection races with the decision to fire. held: the action is not allowed to finish before it is known that
// nothing leaves the place after the injection has triggered it.
static void race(Mode m, int tokens, int arcsKind, int injections, bool held = false)
{
	Watch w;
	mc::Gate gate;
	if (held)
		w.gate = &gate;
	Eng e(m);
	w.e = &e;
	w.p = "a";
	place(e, { "a", (size_t)tokens, true, w.action() });
	place(e, { "c", 9 });
	place(e, { "b" });
	static const Arcs IN[] = { { { "a", 1 } }, { { "c", 1 }, { "a", 1 } }, { { "a", 1 }, { "c", 1 } }, { { "c", 1 }, { "d", 1 }, { "a", 1 } }, { { "a", 1 }, { "c", 1 }, { "d", 1 }, { "f", 1 } } };
	place(e, { "d", 9 });
	place(e, { "f", 9 });
	guarded(e, "t", IN[arcsKind], { { "b", 1 } });
	e.execute();
	for (int i = 0; i < injections; ++i)
	{
		e.incrementInputPlace("a");
		if (held)
		{
			long x = tok(e, "a");
			mc::quiesce();
			mc::settle(100);
			mc::quiesce();
			MC_CHECK(tok(e, "a") == x, "%s: fired although an on-enter action of the activation place had been triggered", modeName(m));
		}
	}
	if (held)
		gate.open();
	mc::quiesce();
	mc::settle(100);
	mc::quiesce();
	MC_CHECK(w.ended == injections, "%d actions executed", (int)w.ended);
	MC_CHECK(tok(e, "a") == 0 && tok(e, "b") == tokens + injections, "%s: not fired once the actions had finished: a %ld b %ld", modeName(m), tok(e, "a"), tok(e, "b"));
	e.stop();
}
MC_SCENARIO(race_jq, { .p = 2, .pThorough = 3, .shards = 6 })
{
	int c = mc::config(6);
	race(Mode::JOB_QUEUE, c / 3, c % 3, 1);
}
MC_SCENARIO(race_det, { .p = 2, .pThorough = 3, .shards = 6 })
{
	int c = mc::config(6);
	race(Mode::DETACHED, c / 3, c % 3, 1);
}
MC_SCENARIO(race_held_jq, { .p = 2, .pThorough = 4, .shards = 10 })
{
	int c = mc::config(10);
	race(Mode::JOB_QUEUE, c / 5 + 1, c % 5, 1, true);
}
MC_SCENARIO(race_held_det, { .p = 2, .pThorough = 4, .shards = 10 })
{
	int c = mc::config(10);
	race(Mode::DETACHED, c / 5 + 1, c % 5, 1, true);
}
// A reset arc: it may empty the place at any time but while an action of the place is pending or running.
static void raceReset(Mode m, int kind, int injections)
{
	mc::Gate gate;
	std::atomic<int> closed{ 0 };
	Eng e(m);
	// every action but the last is free to run; the last waits
	place(e, { "a", 0, true, [&] { if (++closed == injections) gate.wait(); } });
	place(e, { "c", 1, true });
	place(e, { "b" });
	place(e, { "budget", 2 });
	TransitionProperties tp;
	tp.name = "t";
	tp.requireNoActionsInExecution = true;
	if (kind == 1)
		tp.activationArcs = { arc("c") };
	if (kind == 2)
		tp.activationArcs = { arc("budget"), arc("c") };
	tp.destinationArcs = { arc("b") };
	e.createTransition(tp);
	e.addArc(arc("a", 0, ArcProperties::Type::ACTIVATION, "t"));
	if (kind == 0)
		e.addArc(arc("budget", 1, ArcProperties::Type::ACTIVATION, "t"));
	e.execute();
	for (int i = 0; i < injections; ++i)
		e.incrementInputPlace("a");
	long x = tok(e, "a");
	mc::quiesce();
	mc::settle(100);
	mc::quiesce();
	MC_CHECK(closed == injections, "%s: %d actions", modeName(m), (int)closed);
	MC_CHECK(tok(e, "a") == x, "%s: fired although an on-enter action of a place to be reset had been triggered", modeName(m));
	gate.open();
	e.incrementInputPlace("c");
	mc::quiesce();
	mc::settle(100);
	mc::quiesce();
	MC_CHECK(tok(e, "b") == 2, "%s: fired %ld times", modeName(m), tok(e, "b"));
	e.stop();
}
MC_SCENARIO(race_reset_jq, { .p = 2, .pThorough = 4, .shards = 3 }) { raceReset(Mode::JOB_QUEUE, mc::config(3), 1); }
MC_SCENARIO(race_reset_det, { .p = 2, .pThorough = 4, .shards = 3 }) { raceReset(Mode::DETACHED, mc::config(3), 1); }
MC_SCENARIO(race_reset2, { .p = 2, .pThorough = 4, .shards = 6 })
{
	int c = mc::config(6);
	raceReset(c & 1 ? Mode::JOB_QUEUE : Mode::DETACHED, c / 2, 2);
}
// The second of two injections, when the action of the first has finished.
static void raceSecond(Mode m)
{
	mc::Gate gate;
	std::atomic<int> begun{ 0 };
	Eng e(m);
	place(e, { "a", 0, true, [&] { if (++begun == 2) gate.wait(); } });
	place(e, { "b" });
	guarded(e, "t", { { "a", 1 } }, { { "b", 1 } });
	e.execute();
	e.incrementInputPlace("a");
	e.incrementInputPlace("a");
	long x = tok(e, "a");
	mc::quiesce();
	mc::settle(100);
	mc::quiesce();
	MC_CHECK(tok(e, "a") == x && begun == 2, "%s: fired although an on-enter action of the activation place had been triggered", modeName(m));
	gate.open();
	mc::quiesce();
	mc::settle(100);
	mc::quiesce();
	MC_CHECK(tok(e, "b") == 2, "%s: fired %ld times", modeName(m), tok(e, "b"));
	e.stop();
}
MC_SCENARIO(race_second, { .p = 3, .pThorough = 5, .shards = 2 }) { raceSecond(mc::config(2) ? Mode::JOB_QUEUE : Mode::DETACHED); }
MC_SCENARIO(race2_jq, { .p = 1, .pThorough = 2 }) { race(Mode::JOB_QUEUE, 0, 0, 2); }
MC_SCENARIO(race2_det, { .p = 1, .pThorough = 2, .delayBounded = true }) { race(Mode::DETACHED, 1, 1, 2); }

// EVENT_LOOP: the injecting thread runs the on-enter action itself.
static void raceSync(int tokens, bool cond)
{
	std::atomic<int> running{ 0 };
	int fired = 0;
	Eng e(Mode::EVENT_LOOP);
	auto check = [&] { MC_CHECK(running == 0, "EVENT_LOOP: fired while an on-enter action is in execution"); ++fired; };
	place(e, { "a", (size_t)tokens, true, [&] { ++running; mc::mark(); --running; } });
	place(e, { "c", 9, false, nullptr, check });
	place(e, { "b" });
	guarded(e, "t", { { "c", 1 }, { "a", 1 } }, { { "b", 1 } }, cond ? vector<ConditionFunction>{ [] { mc::mark(); return true; } } : vector<ConditionFunction>{});
	e.execute();
	e.incrementInputPlace("a");
	mc::quiesce();
	mc::settle(100);
	mc::quiesce();
	MC_CHECK(tok(e, "a") == 0 && tok(e, "b") == tokens + 1, "EVENT_LOOP: not fired: a %ld b %ld", tok(e, "a"), tok(e, "b"));
	e.stop();
}
MC_SCENARIO(race_el, { .p = 3, .pThorough = 4, .shards = 4 })
{
	int c = mc::config(4);
	raceSync(c & 1, c & 2);
}

// Held back by an action in execution, and by nothing else.
static void held(Mode m, int kind)
{
	mc::Gate gate;
	std::atomic<int> ended{ 0 };
	auto slow = [&] { gate.wait(); ++ended; };
	Eng e(m);
	// where the slow action is: 0 on-enter of the activation place by injection, 1 of the second activation place,
	// 2 on-enter of the activation place by a firing, 3 on-exit of the activation place, 4 on-enter of the destination place,
	// 5 on-enter of an inhibitor place (emptied again), 6 on-enter of an unrelated place
	bool must = kind <= 2;
	place(e, { "a", 0, true, kind == 0 || kind == 2 ? ActionFunction(slow) : nullptr, kind == 3 ? ActionFunction(slow) : nullptr });
	place(e, { "a2", 5, true, kind == 1 ? ActionFunction(slow) : nullptr });
	place(e, { "b", 0, false, kind == 4 ? ActionFunction(slow) : nullptr });
	place(e, { "i", 0, true, kind == 5 ? ActionFunction(slow) : nullptr });
	place(e, { "x", 0, true, kind == 6 ? ActionFunction(slow) : nullptr });
	place(e, { "y", 0 });
	place(e, { "src", 0, true });
	place(e, { "z", 0 });
	guarded(e, "t", { { "a2", 1 }, { "a", 1 } }, { { "b", 1 } }, {}, { { "i", 1 } });
	transition(e, { "emptyI", { { "i", 1 } }, {} });
	transition(e, { "other", { { "x", 1 } }, { { "y", 1 } } });                  // independent
	transition(e, { "src", { { "src", 1 } }, { { "a", 1 } } });
	transition(e, { "sameplace", { { "a2", 4 } }, { { "z", 1 } }, { { "b", 1 } } }); // same place, without the requirement
	e.execute();
	mc::quiesce();
	MC_CHECK(tok(e, "z") == 1, "%s: a transition without the requirement is held back", modeName(m));
	e.incrementInputPlace("a2");
	e.incrementInputPlace("a2");
	e.incrementInputPlace("i");
	e.incrementInputPlace("x");
	mc::quiesce();
	if (kind == 2)
		e.incrementInputPlace("src");
	else
		e.incrementInputPlace("a");
	mc::quiesce();
	mc::settle(250);
	mc::quiesce();
	MC_CHECK(tok(e, "y") == 1 && tok(e, "i") == 0, "%s: another transition is held back", modeName(m));
	if (must)
		MC_CHECK(tok(e, "b") == 0 && tok(e, "a") == 1 && tok(e, "a2") == 3, "%s: variant %d: fired although an action of an activation place is pending", modeName(m), kind);
	else
	{
		MC_CHECK(tok(e, "b") == 1, "%s: variant %d: held back although no on-enter action of its activation places is pending", modeName(m), kind);
		// again, with the actions of the first firing still pending
		e.incrementInputPlace("a");
		mc::quiesce();
		mc::settle(100);
		mc::quiesce();
		MC_CHECK(tok(e, "b") == 2, "%s: variant %d: held back by what the firing before has triggered", modeName(m), kind);
	}
	const long n = must ? 1 : 2;
	gate.open();
	mc::quiesce();
	mc::settle(100);
	mc::quiesce();
	MC_CHECK(tok(e, "b") == n && tok(e, "a") == 0 && tok(e, "a2") == 3 - n, "%s: variant %d: not fired after the action has finished", modeName(m), kind);
	// afterwards injections work and actions are triggered as usual
	int before = ended;
	e.incrementInputPlace("a");
	mc::quiesce();
	mc::settle(100);
	mc::quiesce();
	MC_CHECK(tok(e, "b") == n + 1, "%s: variant %d: not fired again", modeName(m), kind);
	MC_CHECK(ended == before + (kind == 0 || kind == 2 || kind == 3 || kind == 4), "%s: variant %d: %d actions more", modeName(m), kind, ended - before);
}
MC_SCENARIO(held_back, { .p = 0, .pThorough = 1, .shards = 7, .delayBounded = true })
{
	int kind = mc::config(7);
	held(mc::choose(2) ? Mode::JOB_QUEUE : Mode::DETACHED, kind);
}

// Several actions pending in the same place: all of them must have finished. JOB_QUEUE: also those not yet started,
// queued behind actions of other places.
static void several(Mode m, int variant)
{
	mc::Gate g1, g2, g3;
	std::atomic<int> n{ 0 };
	Eng e(m);
	place(e, { "a", 0, true, [&] { int k = n++; k == 0 ? g1.wait() : k == 1 ? g2.wait() : (void)0; } });
	place(e, { "o", 0, true, [&] { g3.wait(); } });
	place(e, { "b" });
	guarded(e, "t", { { "a", 1 } }, { { "b", 1 } });
	e.execute();
	auto idle = [&] { mc::quiesce(); mc::settle(110); mc::quiesce(); };
	if (variant == 0)
	{
		e.incrementInputPlace("a");
		e.incrementInputPlace("a");
		idle();
		MC_CHECK(tok(e, "b") == 0, "%s: fired with two actions pending", modeName(m));
		g1.open();
		idle();
		MC_CHECK(tok(e, "b") == 0, "%s: fired with one action pending", modeName(m));
		g2.open();
	}
	else
	{
		e.incrementInputPlace("o");
		e.incrementInputPlace("a");
		g1.open();
		g2.open();
		idle();
		if (m == Mode::JOB_QUEUE)
			MC_CHECK(tok(e, "b") == 0, "%s: fired with an action pending in the queue", modeName(m));
		else
			MC_CHECK(tok(e, "b") == 1, "%s: held back by an action of another place", modeName(m));
		g3.open();
	}
	idle();
	MC_CHECK(tok(e, "a") == 0 && tok(e, "b") == (variant == 0 ? 2 : 1), "%s: not fired afterwards", modeName(m));
}
MC_SCENARIO(several_actions, { .p = 1, .pThorough = 2, .shards = 4, .delayBounded = true })
{
	int c = mc::config(4);
	several(c & 1 ? Mode::JOB_QUEUE : Mode::DETACHED, c / 2);
}

// Any number of actions pending.
MC_SCENARIO(many_pending, { .p = 0, .pThorough = 0, .shards = 8 })
{
	static const size_t N[] = { 100, 128, 255, 256, 257, 512, 32768, 65536 };
	size_t n = N[mc::config(8)];
	mc::maxSteps(100000000);
	mc::maxTimers(1000);
	mc::Gate gate;
	std::atomic<size_t> ended{ 0 };
	Eng e(Mode::JOB_QUEUE);
	// the first action is being executed and the others wait; n are left after those let through
	size_t before = n < 1000 ? mc::choose(3) : 0;
	std::atomic<size_t> pass{ before };
	place(e, { "a", 0, true, [&] { if (ended >= pass) gate.wait(); ++ended; } });
	place(e, { "b" });
	place(e, { "c" });
	guarded(e, "t", { { "a", n } }, { { "b", 1 } });
	guarded(e, "u", { { "b", 1 } }, { { "c", 1 } });
	for (size_t i = 0; i < n + before; ++i)
		e.incrementInputPlace("a");
	e.execute();
	mc::quiesce();
	MC_CHECK(tok(e, "b") + tok(e, "c") == 0, "fired with %zu actions in execution", n);
	mc::settle(250);
	mc::quiesce();
	MC_CHECK(tok(e, "b") + tok(e, "c") == 0, "fired with %zu actions in execution", n);
	gate.open();
	mc::quiesce();
	mc::settle(250);
	mc::quiesce();
	MC_CHECK(tok(e, "c") == 1 && tok(e, "a") == (long)before, "not fired although all %zu actions have finished", n);
	e.stop();
}

// The transition's destination is its own activation place: it triggers the action that holds back its next firing.
static void selfLoop(Mode m, int kind)
{
	mc::maxTimers(200);
	std::atomic<int> running{ 0 }, enters{ 0 };
	Eng e(m);
	auto enter = [&]
	{
		++running;
		mc::mark();
		++enters;
		--running;
	};
	auto exit = [&]
	{
		if (m == Mode::EVENT_LOOP || m == Mode::SINGLE_THREAD)
			MC_CHECK(running == 0, "%s: fired while the action is in execution", modeName(m));
	};
	place(e, { "a", 1, true, enter, m == Mode::EVENT_LOOP || m == Mode::SINGLE_THREAD ? ActionFunction(exit) : nullptr });
	place(e, { "b", 0, false, kind == 2 ? ActionFunction(enter) : nullptr });
	place(e, { "budget", 3 });
	place(e, { "n" });
	if (kind == 0)
		guarded(e, "t", { { "a", 1 }, { "budget", 1 } }, { { "a", 1 }, { "n", 1 } });
	else
	{
		guarded(e, "t", { { "a", 1 }, { "budget", 1 } }, { { "b", 1 }, { "n", 1 } });
		guarded(e, "u", { { "b", 1 } }, { { "a", 1 } });
	}
	e.execute();
	if (m != Mode::SINGLE_THREAD)
		for (int i = 0; i < 8; ++i)
		{
			mc::quiesce();
			mc::settle(100);
		}
	mc::quiesce();
	MC_CHECK(tok(e, "n") == 3 && tok(e, "a") == 1, "%s: variant %d: fired %ld times", modeName(m), kind, tok(e, "n"));
	MC_CHECK(enters == (kind == 2 ? 6 : 3) && running == 0, "%s: %d actions", modeName(m), (int)enters);
	e.stop();
}
MC_SCENARIO(self_loop, { .p = 1, .pThorough = 2, .shards = 12, .delayBounded = true })
{
	int c = mc::config(12);
	selfLoop(ALLMODES[c % 4], c / 4);
}

// The decision not to fire (false condition, missing tokens) leaves the places usable; the condition takes its time.
static void refused(Mode m, int why)
{
	std::atomic<int> actions{ 0 };
	std::atomic<bool> open{ false };
	Eng e(m);
	place(e, { "a", 1, true, [&] { ++actions; } });
	place(e, { "c", why == 1 ? 0u : 1u, true });
	place(e, { "b" });
	guarded(e, "t", { { "a", 1 }, { "c", 1 } }, { { "b", 1 } }, { [&] { mc::mark(); return why == 1 || open; } });
	e.execute();
	std::thread th([&] { e.incrementInputPlace("a"); });
	e.incrementInputPlace("a");
	th.join();
	mc::quiesce();
	MC_CHECK(actions == 2 && tok(e, "a") == 3 && tok(e, "b") == 0, "%s: %d actions, %ld tokens", modeName(m), (int)actions, tok(e, "a"));
	open = true;
	if (why == 1)
		e.incrementInputPlace("c");
	mc::settle(100);
	mc::quiesce();
	mc::settle(100);
	mc::quiesce();
	MC_CHECK(tok(e, "b") == 1 && tok(e, "a") == 2, "%s: not fired afterwards", modeName(m));
	e.incrementInputPlace("a");
	mc::quiesce();
	MC_CHECK(actions == 3, "%s: action not triggered afterwards", modeName(m));
}
MC_SCENARIO(refused_firing, { .p = 1, .pThorough = 2, .shards = 6, .delayBounded = true })
{
	int c = mc::config(6);
	refused(ASYNC[c % 3], c / 3);
}

// An action still in execution holds the transition back after a restart and after a change of the mode.
static void later(Mode m, int how)
{
	mc::Gate gate;
	Eng e(m);
	place(e, { "a", 0, true, [&] { gate.wait(); } });
	place(e, { "b" });
	place(e, { "q", 1 });
	place(e, { "r" });
	guarded(e, "t", { { "a", 1 } }, { { "b", 1 } });
	transition(e, { "u", { { "q", 1 } }, { { "r", 1 } } });
	if (how != 3)
		e.execute();
	e.incrementInputPlace("a");
	mc::quiesce();
	e.stop();
	if (how == 1)
		e.setActionsThreadOption(Mode::EVENT_LOOP);
	if (how == 2)
		e.setActionsThreadOption(Mode::SINGLE_THREAD);
	e.execute();
	mc::quiesce();
	if (how != 2)
	{
		mc::settle(200);
		mc::quiesce();
	}
	MC_CHECK(tok(e, "b") == 0 && tok(e, "r") == 1, "%s: variant %d: fired although the action is still in execution", modeName(m), how);
	gate.open();
	mc::quiesce();
	if (how == 2)
		e.execute();
	else
	{
		mc::settle(100);
		mc::quiesce();
	}
	MC_CHECK(tok(e, "b") == 1, "%s: variant %d: not fired", modeName(m), how);
}
MC_SCENARIO(held_later, { .p = 1, .pThorough = 2, .shards = 8, .delayBounded = true })
{
	int c = mc::config(8);
	later(c & 1 ? Mode::JOB_QUEUE : Mode::DETACHED, c / 2);
}

// A firing enters the activation place of a guarded transition; both can be in the same pass, in any order.
static void fired(Mode m)
{
	mc::seeds(2, 2);
	Watch w;
	Eng e(m);
	w.e = &e;
	w.p = "a";
	place(e, { "s", 2 });
	place(e, { "a", 0, false, w.action() });
	place(e, { "b" });
	transition(e, { "u", { { "s", 1 } }, { { "a", 1 } } });
	guarded(e, "t", { { "a", 1 } }, { { "b", 1 } });
	e.execute();
	for (int i = 0; i < 4; ++i)
	{
		mc::quiesce();
		mc::settle(100);
	}
	mc::quiesce();
	MC_CHECK(tok(e, "b") == 2 && w.ended == 2, "%s: b %ld, %d actions", modeName(m), tok(e, "b"), (int)w.ended);
}
MC_SCENARIO(fired_into, { .p = 1, .pThorough = 2, .shards = 2, .delayBounded = true }) { fired(mc::config(2) ? Mode::JOB_QUEUE : Mode::DETACHED); }

// Two guarded transitions share a place: neither disturbs the protection of the other.
static void shared(Mode m)
{
	mc::seeds(2, 2);
	Watch w;
	Eng e(m);
	w.e = &e;
	w.p = "a";
	place(e, { "a", 0, true, w.action() });
	place(e, { "b" });
	place(e, { "c" });
	place(e, { "never" });
	guarded(e, "t", { { "a", 1 } }, { { "b", 1 } });
	guarded(e, "u", { { "a", 1 } }, { { "c", 1 } }, { [] { mc::mark(); return false; } });
	guarded(e, "v", { { "a", 1 }, { "never", 1 } }, { { "c", 1 } });
	e.execute();
	e.incrementInputPlace("a");
	for (int i = 0; i < 2; ++i)
	{
		mc::quiesce();
		mc::settle(100);
	}
	mc::quiesce();
	MC_CHECK(tok(e, "b") == 1 && tok(e, "c") == 0 && w.ended == 1, "%s: b %ld", modeName(m), tok(e, "b"));
}
MC_SCENARIO(shared_place, { .p = 2, .pThorough = 3, .shards = 2, .delayBounded = true }) { shared(mc::config(2) ? Mode::JOB_QUEUE : Mode::DETACHED); }

// SINGLE_THREAD: actions have always finished when a transition is evaluated; nothing is held back.
MC_SCENARIO(single_thread, { .p = 0, .pThorough = 0 })
{
	mc::seeds(3, 3);
	int n = 0;
	Eng e(Mode::SINGLE_THREAD);
	auto act = [&] { ++n; };
	place(e, { "a", 1, true, act, act });
	place(e, { "b", 0, true, act, act });
	place(e, { "c", 0, false, act, act });
	guarded(e, "t", { { "a", 1 } }, { { "b", 1 } });
	guarded(e, "u", { { "b", 1 } }, { { "c", 1 } });
	e.execute();
	MC_CHECK(tok(e, "c") == 1 && n == 4, "c %ld, %d actions", tok(e, "c"), n);
	e.incrementInputPlace("a");
	e.incrementInputPlace("b");
	e.execute();
	MC_CHECK(tok(e, "c") == 3 && n == 4 + 2 + 4 + 2, "c %ld, %d actions", tok(e, "c"), n);
}
