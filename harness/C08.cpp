// Actions and firings run on the thread the mode promises (C08).
// MC_MAXF: 64
#include "featnet.h"
#include "xml.h"
#include <atomic>

// Log: 5 action, 6 action's end, 7 condition; a: id.
static ActionFunction act(long id)
{
	return [id]
	{
		mc::note(5, id);
		mc::mark();
		mc::note(6, id);
	};
}
static ConditionFunction cond(long id)
{
	return [id]
	{
		mc::note(7, id);
		return true;
	};
}

// Builds a net in which two transitions fire one after the other, triggering exits (1, 3) and enters (2, 4, 5), and whose
// input place "in" has the on-enter action 9.
static void net(Eng &e)
{
	place(e, { "a", 1, false, nullptr, act(1) });
	place(e, { "b", 0, false, act(2), act(3) });
	place(e, { "c", 0, false, act(4) });
	place(e, { "d", 0, false, act(5) });
	place(e, { "in", 0, true, act(9) });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { cond(1), cond(2) } });
	transition(e, { "u", { { "b", 1 } }, { { "c", 1 }, { "d", 1 } }, {}, { cond(3) } });
}

// Runs the net in the mode the engine claims and checks the threads of everything that happens.
// inject: 0 no injection, 1 before execute, 2 after
static void run(Eng &e, Mode m, int inject, const char *how)
{
	MC_CHECK(e.getActionsThreadOption() == m, "%s: the engine reports mode %s and not %s", how, modeName(e.getActionsThreadOption()), modeName(m));
	int from = mc::events();
	int me = mc::self();
	int created = mc::threadsCreated();
	int injStart = -1, injEnd = -1;
	auto doInject = [&]
	{
		injStart = mc::events();
		e.incrementInputPlace("in");
		injEnd = mc::events();
	};
	if (inject == 1)
		doInject();
	e.execute();
	if (m == Mode::SINGLE_THREAD)
		MC_CHECK(tok(e, "c") == 1, "%s: SINGLE_THREAD: not run by execute()", how);
	if (inject == 2)
		doInject();
	if (m != Mode::SINGLE_THREAD)
	{
		mc::quiesce();
		MC_CHECK(tok(e, "c") == 1, "%s: %s: not fired", how, modeName(m));
	}
	int loop = -1;
	int actions = 0;
	std::map<int, int> perThread;
	int open = 0;
	for (int i = from; i < mc::events(); ++i)
	{
		auto &v = mc::at(i);
		const bool isInj = v.kind != 7 && v.a == 9;
		switch (m)
		{
		case Mode::SINGLE_THREAD:
			MC_CHECK(v.thread == me, "%s: SINGLE_THREAD: callback %ld runs on thread %d and not on the calling thread %d", how, v.a, v.thread, me);
			if (isInj)
				MC_CHECK(i >= injStart && i < injEnd, "%s: SINGLE_THREAD: the injection's action runs later", how);
			break;
		case Mode::EVENT_LOOP:
			if (isInj)
				break;
			MC_CHECK(v.thread != me && (loop < 0 || v.thread == loop), "%s: EVENT_LOOP: callback %ld runs on thread %d (loop %d, caller %d)", how, v.a,
					 v.thread, loop, me);
			loop = v.thread;
			break;
		case Mode::JOB_QUEUE:
		case Mode::DETACHED:
			if (v.kind == 7)
			{
				MC_CHECK(v.thread != me && (loop < 0 || v.thread == loop), "%s: %s: condition on thread %d (loop %d)", how, modeName(m), v.thread, loop);
				loop = v.thread;
			}
			else if (v.kind == 5)
			{
				perThread[v.thread]++;
				MC_CHECK(v.thread != me, "%s: %s: action %ld runs on the caller's thread", how, modeName(m), v.a);
			}
		}
		if (v.kind == 5)
		{
			actions++;
			open++;
			if (m == Mode::JOB_QUEUE)
				MC_CHECK(open == 1, "%s: JOB_QUEUE: two actions at once", how);
		}
		if (v.kind == 6)
			open--;
	}
	MC_CHECK(actions == 5 + (inject ? 1 : 0) && open == 0, "%s: %s: %d actions", how, modeName(m), actions);
	if (m == Mode::JOB_QUEUE || m == Mode::DETACHED)
		MC_CHECK(!perThread.count(loop), "%s: %s: an action runs on the event loop thread", how, modeName(m));
	if (m == Mode::DETACHED)
		for (auto &[t, n] : perThread)
			MC_CHECK(n == 1, "%s: DETACHED: thread %d runs %d actions", how, t, n);
	if (m == Mode::SINGLE_THREAD)
		MC_CHECK(mc::threadsCreated() == created, "%s: SINGLE_THREAD created a thread", how);
	if (m == Mode::EVENT_LOOP)
		MC_CHECK(mc::threadsCreated() == created + 1, "%s: EVENT_LOOP created %d threads", how, mc::threadsCreated() - created);
	e.stop();
}

// The mode given to the constructor (default: JOB_QUEUE).
MC_SCENARIO(constructed_sync, { .p = 3, .pThorough = 5, .shards = 2 })
{
	Mode m = mc::config(2) ? Mode::EVENT_LOOP : Mode::SINGLE_THREAD;
	Eng e(m);
	net(e);
	run(e, m, mc::choose(3), "constructor");
}
MC_SCENARIO(constructed_jq, { .p = 2, .pThorough = 3, .shards = 2 })
{
	if (mc::config(2))
	{
		Eng e;
		net(e);
		run(e, Mode::JOB_QUEUE, mc::choose(3), "default constructor");
	}
	else
	{
		Eng e(Mode::JOB_QUEUE);
		net(e);
		run(e, Mode::JOB_QUEUE, mc::choose(3), "constructor");
	}
}
MC_SCENARIO(constructed_det, { .p = 2, .pThorough = 3, .delayBounded = true })
{
	Eng e(Mode::DETACHED);
	net(e);
	run(e, Mode::DETACHED, mc::choose(3), "constructor");
}

// The mode set afterwards: before or after the net is built, several times, with runs in between, refused while running.
MC_SCENARIO(changed, { .p = 1, .pThorough = 2, .shards = 4, .delayBounded = true })
{
	Mode m1 = ALLMODES[mc::config(4)], m2 = ALLMODES[mc::choose(4)], m3 = ALLMODES[mc::choose(4)];
	int when = mc::choose(5);
	Eng e(m1);
	auto set = [&](Mode m) { e.setActionsThreadOption(m); };
	switch (when)
	{
	case 0: // before the net is built
		set(m2);
		set(m3);
		net(e);
		break;
	case 1: // after
		net(e);
		set(m2);
		set(m3);
		break;
	case 2: // half of the net each
		set(m2);
		place(e, { "x", 0, false, act(77) });
		set(m3);
		net(e);
		break;
	case 3: // after a run with the mode before
		place(e, { "x", 1, false, nullptr, act(77) });
		transition(e, { "tx", { { "x", 1 } }, {} });
		set(m2);
		e.execute();
		mc::quiesce();
		e.stop();
		net(e);
		set(m3);
		break;
	case 4: // a change that is refused
		place(e, { "x", 0 });
		set(m3);
		if (m3 != Mode::SINGLE_THREAD)
		{
			e.execute();
			MC_CHECK(throws([&] { set(m2); }) != 0, "mode changed while running");
			e.stop();
		}
		net(e);
		break;
	}
	run(e, m3, mc::choose(3), "changed");
}

// The mode set by an import.
MC_SCENARIO(imported, { .p = 1, .pThorough = 2, .shards = 4, .delayBounded = true })
{
	Mode m = ALLMODES[mc::config(4)], m0 = ALLMODES[mc::choose(4)];
	int when = mc::choose(3);
	Eng e(m0);
	if (when == 1)
		net(e);
	if (when == 2) // into an engine that runs
	{
		net(e);
		transition(e, { "block", {}, {}, {}, { [] { return false; } } });
		place(e, { "stuck", 0 });
		e.addArc(arc("stuck", 1, ArcProperties::Type::ACTIVATION, "t"));
		e.execute();
		if (m0 != Mode::SINGLE_THREAD)
			mc::quiesce();
	}
	string p = scratch("mode.xml");
	writeFile(p, string("<PTN-Engine actionsThreadOption=\"") + modeName(m) + "\"><Places/><Transitions/><Arcs/></PTN-Engine>");
	FileImporterFactory::createXMLFileImporter()->_import(p, e);
	MC_CHECK(!e.isEventLoopRunning(), "running after an import");
	if (when == 2)
		e.removeArc(arc("stuck", 1, ArcProperties::Type::ACTIVATION, "t"));
	if (when == 0)
		net(e);
	run(e, m, mc::choose(3), "import");
}

// The thread that calls: another thread than the one that created the engine.
MC_SCENARIO(other_caller, { .p = 2, .pThorough = 3, .shards = 4, .delayBounded = true })
{
	Mode m = ALLMODES[mc::config(4)];
	Eng e(m);
	net(e);
	int inject = mc::choose(3);
	std::thread t([&] { run(e, m, inject, "from another thread"); });
	t.join();
}

// Two threads inject in SINGLE_THREAD mode: each runs its own action itself, before its call returns.
MC_SCENARIO(injectors, { .p = 4, .pThorough = 6 })
{
	Eng e(Mode::SINGLE_THREAD);
	place(e, { "a", 0, true, act(1) });
	place(e, { "b", 0, true, act(2) });
	auto inj = [&](const char *p, long id)
	{
		int n = 0;
		e.incrementInputPlace(p);
		for (int i = 0; i < mc::events(); ++i)
			if (mc::at(i).a == id)
			{
				n++;
				MC_CHECK(mc::at(i).thread == mc::self(), "action of %s on another thread", p);
			}
		MC_CHECK(n == 2, "action of %s not finished when the call returns", p);
	};
	std::thread t([&] { inj("b", 2); });
	inj("a", 1);
	t.join();
	MC_CHECK(mc::threadsCreated() == 1, "threads created");
}

// Slow actions: neither the engine nor (DETACHED) other actions wait for an action.
static void slow(Mode m, int inject)
{
	mc::Gate gate;
	std::atomic<int> done{ 0 };
	Eng e(m);
	auto wait = [&] { gate.wait(); ++done; };
	auto quick = [&] { mc::note(5, 1); };
	place(e, { "a", 1, false, nullptr, wait });
	place(e, { "b", 0, false, wait, wait });
	place(e, { "c", 0, false, quick, wait });
	place(e, { "in", 0, true, inject == 2 ? ActionFunction(wait) : nullptr });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
	transition(e, { "u", { { "b", 1 } }, { { "c", 1 } } });
	transition(e, { "v", { { "in", 1 } }, {} });
	e.execute();
	mc::quiesce();
	MC_CHECK(tok(e, "c") == 1, "%s: the loop waits for an action", modeName(m));
	if (inject)
	{
		e.incrementInputPlace("in");
		mc::quiesce();
		MC_CHECK(tok(e, "in") == 0, "%s: injection and firing wait for an action", modeName(m));
	}
	int ran = 0;
	for (int i = 0; i < mc::events(); ++i)
		ran += mc::at(i).kind == 5;
	MC_CHECK(ran == (m == Mode::DETACHED ? 1 : 0), "%s: %d quick actions executed while others are in execution", modeName(m), ran);
	e.stop();
	MC_CHECK(!e.isEventLoopRunning() && done == 0, "stop");
	gate.open();
	mc::quiesce();
	MC_CHECK(done == 3 + (inject == 2), "%s: %d slow actions", modeName(m), (int)done);
}
MC_SCENARIO(slow_actions, { .p = 2, .pThorough = 3, .shards = 2, .delayBounded = true })
{
	Mode m = mc::config(2) ? Mode::JOB_QUEUE : Mode::DETACHED;
	slow(m, mc::choose(3));
}

// Synchronous modes: the firing waits for its actions (no token moves on while an action runs).
MC_SCENARIO(synchronous, { .p = 3, .pThorough = 5 })
{
	mc::Gate gate;
	Eng e(Mode::EVENT_LOOP);
	place(e, { "a", 2, false, nullptr, [&] { gate.wait(); } });
	place(e, { "b" });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
	e.execute();
	mc::quiesce();
	MC_CHECK(gate.waiting() == 1 && mc::threadsCreated() == 1, "the action does not run on the loop thread");
	gate.open();
	mc::quiesce();
	MC_CHECK(tok(e, "b") == 2, "not fired");
}

// Many slow actions at the same time: each DETACHED one has a thread of its own; in JOB_QUEUE mode they wait, but neither the
// loop nor a caller executes one of them.
static void manySlow(Mode m, int n, int kind)
{
	mc::Gate gate;
	mc::maxSteps(10000000);
	std::atomic<int> begun{ 0 }, done{ 0 };
	std::set<int> threads;
	Eng e(m);
	auto slow = [&]
	{
		{
			mc::Outside o;
			threads.insert(mc::self());
		}
		++begun;
		gate.wait();
		++done;
	};
	// kind 0: injections into one place; 1: into several; 2: exits of one place; 3: enters and exits of several
	int want = n, loops = 1;
	switch (kind)
	{
	case 0: place(e, { "in", 0, true, slow }); break;
	case 1:
		for (int i = 0; i < 4; ++i)
			place(e, { "in" + std::to_string(i), 0, true, slow });
		break;
	case 2:
		place(e, { "a", (size_t)n, false, nullptr, slow });
		transition(e, { "t", { { "a", 1 } }, {} });
		break;
	case 3:
		place(e, { "a", (size_t)n / 3, false, nullptr, slow });
		place(e, { "b", 0, false, slow });
		place(e, { "c", 0, false, slow });
		transition(e, { "t", { { "a", 1 } }, { { "b", 1 }, { "c", 2 } } });
		want = n / 3 * 3;
		break;
	}
	e.execute();
	if (kind < 2)
		for (int i = 0; i < n; ++i)
		{
			e.incrementInputPlace(kind ? "in" + std::to_string(i % 4) : "in");
			if (i % 7 == 3)
				mc::quiesce();
		}
	mc::quiesce();
	MC_CHECK(begun == (m == Mode::DETACHED ? want : 1), "%s: %d of %d actions have begun while none can end", modeName(m), (int)begun, want);
	e.stop();
	gate.open();
	mc::quiesce();
	MC_CHECK(done == want, "%s: %d of %d actions executed", modeName(m), (int)done, want);
	mc::Outside o;
	MC_CHECK(!threads.count(0) && !threads.count(1), "%s: an action ran on thread %d", modeName(m), *threads.begin());
	MC_CHECK(m != Mode::DETACHED || (int)threads.size() == want, "%d actions on %d threads", want, (int)threads.size());
	(void)loops;
}
MC_SCENARIO(many_slow, { .p = 0, .pThorough = 1, .shards = 4, .delayBounded = true })
{
	static const int N[] = { 6, 13, 20, 34, 54 };
	int kind = mc::config(4);
	Mode m = mc::choose(2) ? Mode::JOB_QUEUE : Mode::DETACHED;
	manySlow(m, N[mc::choose(5)], kind);
}
MC_SCENARIO(very_many_queued, { .p = 0, .pThorough = 0, .shards = 4 }) { manySlow(Mode::JOB_QUEUE, 40000, mc::config(4)); }

// Long sequences of mode changes, some with a run in each mode.
MC_SCENARIO(changed_often, { .p = 0, .pThorough = 0, .shards = 8, .delayBounded = true })
{
	int c = mc::config(8);
	Eng e(ALLMODES[c % 4]);
	net(e);
	place(e, { "x", 0, true, nullptr, [] {} });
	transition(e, { "tx", { { "x", 1 } }, {}, { { "a", 1 } } });
	Mode m = ALLMODES[c % 4];
	for (int i = 0; i < 4; ++i)
	{
		m = ALLMODES[mc::choose(4)];
		e.setActionsThreadOption(m);
		MC_CHECK(e.getActionsThreadOption() == m, "change %d: the mode is %s and not %s", i, modeName(e.getActionsThreadOption()), modeName(m));
		if (c >= 4 && i == 1)
		{
			e.addArc(arc("x", 1, ArcProperties::Type::ACTIVATION, "t"));
			e.execute();
			e.stop();
			e.removeArc(arc("x", 1, ArcProperties::Type::ACTIVATION, "t"));
		}
	}
	run(e, m, mc::choose(3), "changed often");
}

// Whatever the transition and its places are like: the threads of the actions are those the mode promises.
MC_SCENARIO(features, { .p = 0, .pThorough = 0, .shards = 8, .delayBounded = true })
{
	Feat f = chooseFeat();
	FeatNet n(f);
	n.run(f);
	std::set<int> threads;
	int actions = 0;
	for (int i = 0; i < mc::events(); ++i)
	{
		auto &v = mc::at(i);
		actions++;
		threads.insert(v.thread);
		int want = f.m == Mode::SINGLE_THREAD ? 0 : f.m == Mode::EVENT_LOOP ? 1 : -1;
		MC_CHECK(want >= 0 ? v.thread == want : v.thread > 1, "%s: an action on thread %d", f.text().c_str(), v.thread);
	}
	if (f.m == Mode::DETACHED)
		MC_CHECK((int)threads.size() == actions, "%s: %d actions on %d threads", f.text().c_str(), actions, (int)threads.size());
	if (f.m == Mode::SINGLE_THREAD || f.m == Mode::EVENT_LOOP)
		MC_CHECK(mc::threadsCreated() == (f.m == Mode::EVENT_LOOP), "%s: %d threads created", f.text().c_str(), mc::threadsCreated());
}
