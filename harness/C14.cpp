// Lifecycle: execute, stop and isEventLoopRunning tell the truth (C14).
#include "refnet.h"
#include <atomic>

// A net whose callbacks fail the check when they are called while they must not be.
struct Net
{
	bool forbidden = false; // only touched outside the program under test
	bool sync = false;      // actions run synchronously and are checked as well
	int conds = 0, fired = 0, entered = 0;
	const char *what = "";
	void called(const char *w)
	{
		mc::Outside o;
		MC_CHECK(!forbidden, "%s although the event loop has been stopped (%s)", w, what);
	}
	void forbid(bool f, const char *w)
	{
		mc::Outside o;
		forbidden = f;
		what = w;
	}
	void setSync(bool s)
	{
		mc::Outside o;
		sync = s;
	}
	void build(Eng &e, bool isSync, bool guarded = false)
	{
		setSync(isSync);
		auto cond = [this] { called("a condition is evaluated"); mc::Outside o; ++conds; return true; };
		auto never = [this] { called("a condition is evaluated"); return false; };
		auto act = [this] { mc::Outside o; if (sync) called("a transition fires"); ++fired; };
		place(e, { "a", 0, true });
		place(e, { "b", 0, false, act });
		place(e, { "n", 1 });
		transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { cond }, guarded });
		transition(e, { "never", { { "n", 1 } }, {}, {}, { never } });
	}
};

// ---- every sequence of calls by one thread ----
enum Call { EXECUTE, STOP, INJECT, REST, MODE, CALLS, EXECUTE_LOG = CALLS, MODE_SINGLE, ALLCALLS };
static const char *CALLNAME[] = { "execute", "stop", "inject", "rest", "setActionsThreadOption", "execute(log)", "setActionsThreadOption(single)" };
static bool synchronous(Mode m) { return m == Mode::EVENT_LOOP || m == Mode::SINGLE_THREAD; }
static void sequence(Mode m, int depth, long code, int calls = CALLS)
{
	std::ostringstream log;
	Net n;
	bool running = false;
	int injected = 0;
	string hist;
	{
		Eng e(m);
		n.build(e, synchronous(m));
		e.setEventLoopSleepDuration(ms(1000));
		n.forbid(true, "never started");
		MC_CHECK(!e.isEventLoopRunning(), "running before execute()");
		for (int i = 0; i < depth; ++i, code /= calls)
		{
			int c = code % calls;
			{
				mc::Outside o;
				hist += string(CALLNAME[c]) + " ";
			}
			long before = running ? -1 : tok(e, "b");
			switch (c)
			{
			case EXECUTE:
			case EXECUTE_LOG:
			{
				if (!running)
					n.forbid(false, "");
				int r = throws([&] { c == EXECUTE ? e.execute() : e.execute(true, log); });
				MC_CHECK(r == (running ? 1 : 0), "%s: execute() %s: %s", modeName(m), running ? "accepted while running" : "refused while stopped", hist.c_str());
				if (m == Mode::SINGLE_THREAD)
					n.forbid(true, "execute() returned");
				else
					running = true;
				before = -1;
				break;
			}
			case STOP:
				e.stop();
				running = false;
				n.forbid(true, "stop() returned");
				before = -1;
				break;
			case INJECT:
				e.incrementInputPlace("a");
				++injected;
				break;
			case REST:
				mc::quiesce();
				if (running)
					MC_CHECK(tok(e, "a") == 0 && tok(e, "b") == injected, "%s: tokens lost or not processed: a %ld b %ld of %d: %s", modeName(m), tok(e, "a"), tok(e, "b"), injected, hist.c_str());
				break;
			case MODE:
			case MODE_SINGLE:
			{
				Mode to = m == Mode::EVENT_LOOP ? Mode::JOB_QUEUE : m == Mode::JOB_QUEUE ? Mode::DETACHED : m == Mode::DETACHED ? Mode::EVENT_LOOP : m;
				if (c == MODE_SINGLE)
					to = m == Mode::SINGLE_THREAD ? Mode::EVENT_LOOP : Mode::SINGLE_THREAD;
				int r = throws([&] { e.setActionsThreadOption(to); });
				MC_CHECK(r == (running ? 1 : 0), "%s: mode change %s: %s", modeName(m), running ? "accepted while running" : "refused while stopped", hist.c_str());
				if (!running && to != m)
				{
					n.setSync(false); // actions may still be executed
					m = to;
					if (synchronous(m))
						mc::quiesce();
					n.setSync(synchronous(m));
				}
				break;
			}
			}
			MC_CHECK(e.isEventLoopRunning() == running, "%s: isEventLoopRunning() is %d: %s", modeName(m), e.isEventLoopRunning(), hist.c_str());
			if (!running)
			{
				MC_CHECK(tok(e, "a") + tok(e, "b") == injected, "%s: tokens lost: a %ld b %ld of %d: %s", modeName(m), tok(e, "a"), tok(e, "b"), injected, hist.c_str());
				MC_CHECK(before < 0 || before == tok(e, "b"), "%s: fired while stopped: %s", modeName(m), hist.c_str());
			}
		}
		if (!running)
		{
			n.forbid(false, "");
			MC_CHECK(throws([&] { e.execute(); }) == 0, "%s: execute() refused while stopped: %s", modeName(m), hist.c_str());
		}
		mc::quiesce();
		MC_CHECK(tok(e, "a") == 0 && tok(e, "b") == injected, "%s: a %ld b %ld of %d in the end: %s", modeName(m), tok(e, "a"), tok(e, "b"), injected, hist.c_str());
		mc::quiesce();
		{
			mc::Outside o;
			MC_CHECK(n.fired == injected, "%d actions for %d firings: %s", n.fired, injected, hist.c_str());
			mc::state(std::hash<string>{}(hist));
		}
	}
	n.forbid(true, "destroyed");
	mc::quiesce();
}
MC_SCENARIO(sequences, { .p = 1, .pThorough = 1, .shards = 48, .delayBounded = true })
{
	long c = mc::config(CALLS * CALLS * CALLS * CALLS * CALLS * 4);
	sequence(ALLMODES[c % 4], 5, c / 4);
}
// With logging, and with changes to SINGLE_THREAD and back.
MC_SCENARIO(more_sequences, { .p = 1, .pThorough = 1, .shards = 48, .delayBounded = true })
{
	long c = mc::config(ALLCALLS * ALLCALLS * ALLCALLS * ALLCALLS * 4);
	sequence(ALLMODES[c % 4], 4, c / 4, ALLCALLS);
}
MC_SCENARIO(short_sequences, { .p = 2, .pThorough = 3, .shards = 48, .delayBounded = true })
{
	long c = mc::config(CALLS * CALLS * CALLS * 4);
	sequence(ALLMODES[c % 4], 3, c / 4);
}

// ---- stop or destruction at any moment ----
static void halt(Mode m, int how, int inj, bool guarded)
{
	Net n;
	bool sync = m == Mode::EVENT_LOOP;
	int total = inj;
	{
		auto e = std::make_unique<Eng>(m);
		n.build(*e, sync, guarded);
		e->execute();
		MC_CHECK(e->isEventLoopRunning(), "%s: not running after execute()", modeName(m));
		for (int i = 0; i < inj; ++i)
			e->incrementInputPlace("a");
		MC_CHECK(e->isEventLoopRunning(), "%s: not running without a stop()", modeName(m));
		if (how == 0)
		{
			e.reset();
			n.forbid(true, "destroyed");
			mc::quiesce();
			return;
		}
		e->stop();
		n.forbid(true, "stop() returned");
		MC_CHECK(!e->isEventLoopRunning(), "%s: running after stop()", modeName(m));
		long a = tok(*e, "a"), b = tok(*e, "b");
		MC_CHECK(a + b == total, "%s: tokens lost by stop(): a %ld b %ld of %d", modeName(m), a, b, total);
		e->incrementInputPlace("a");
		++total;
		mc::quiesce();
		mc::settle(300);
		mc::quiesce();
		MC_CHECK(tok(*e, "a") == a + 1 && tok(*e, "b") == b, "%s: the marking changes after stop()", modeName(m));
		MC_CHECK(!e->isEventLoopRunning(), "%s: running after stop()", modeName(m));
		if (how == 2)
		{
			e->stop();
			n.forbid(false, "");
			e->execute();
			MC_CHECK(e->isEventLoopRunning(), "%s: not running after execute()", modeName(m));
			mc::quiesce();
			MC_CHECK(tok(*e, "b") == total && tok(*e, "a") == 0, "%s: a %ld b %ld of %d after a restart", modeName(m), tok(*e, "a"), tok(*e, "b"), total);
			MC_CHECK(e->isEventLoopRunning(), "%s: not running without a stop()", modeName(m));
		}
	}
	n.forbid(true, "destroyed");
	mc::quiesce();
}
MC_SCENARIO(halt_el, { .p = 3, .pThorough = 4, .shards = 18 })
{
	int c = mc::config(18);
	halt(Mode::EVENT_LOOP, c % 3, c / 3 % 3, c / 9);
}
MC_SCENARIO(halt_async, { .p = 2, .pThorough = 3, .shards = 36, .delayBounded = true })
{
	int c = mc::config(36);
	halt(c & 1 ? Mode::JOB_QUEUE : Mode::DETACHED, c / 2 % 3, c / 6 % 3, c / 18);
}

// ---- it keeps running ----
MC_SCENARIO(keeps_running, { .p = 1, .pThorough = 2, .t = 1, .shards = 3 })
{
	Mode m = ASYNC[mc::config(3)];
	Net n;
	Eng e(m);
	if (mc::choose(2))
		n.build(e, false);
	e.execute();
	for (int i = 0; i < 3; ++i)
	{
		MC_CHECK(e.isEventLoopRunning(), "%s: not running without a stop()", modeName(m));
		MC_CHECK(throws([&] { e.execute(); }) == 1, "%s: execute() accepted while running", modeName(m));
		mc::settle(150);
	}
	MC_CHECK(e.isEventLoopRunning(), "%s: not running without a stop()", modeName(m));
	MC_CHECK(mc::threadsCreated() == 1, "%d threads", mc::threadsCreated());
}

// ---- concurrent execute() and stop() ----
// Two threads: x, y in {execute, stop, execute+stop, stop+execute}; initially running or not.
static int doCalls(Eng &e, int k, int &executed)
{
	auto ex = [&] { int r = throws([&] { e.execute(); }); MC_CHECK(r <= 1, "execute() threw something else"); executed += r == 0; };
	switch (k)
	{
	case 0: ex(); break;
	case 1: e.stop(); break;
	case 2: ex(); e.stop(); break;
	case 3: e.stop(); ex(); break;
	}
	return 0;
}
static void concurrent(Mode m, int x, int y, bool running)
{
	Net n;
	int e1 = 0, e2 = 0;
	{
		Eng e(m);
		n.build(e, false);
		if (running)
			e.execute();
		{
			std::thread th([&] { doCalls(e, x, e1); });
			doCalls(e, y, e2);
			th.join();
		}
		bool r = e.isEventLoopRunning();
		if (x == 0 && y == 0)
		{
			MC_CHECK(e1 + e2 == (running ? 0 : 1), "%s: %d of two concurrent execute() succeeded", modeName(m), e1 + e2);
			MC_CHECK(r, "%s: not running", modeName(m));
		}
		if (x == 1 && y == 1)
			MC_CHECK(!r, "%s: running after two stop()", modeName(m));
		if ((x == 1 || x == 2) && (y == 1 || y == 2))
			MC_CHECK(!r, "%s: running although stop() was last in both threads", modeName(m));
		mc::outcome("%d %d %d: %d", x, y, running, r);
		if (!r)
		{
			n.forbid(true, "not running");
			if (mc::choose(2))
				mc::settle(100);
			n.forbid(false, "");
		}
		MC_CHECK(throws([&] { e.execute(); }) == (r ? 1 : 0), "%s: execute() %s", modeName(m), r ? "accepted while running" : "refused while stopped");
		MC_CHECK(e.isEventLoopRunning(), "%s: not running after execute()", modeName(m));
		e.incrementInputPlace("a");
		mc::quiesce();
		MC_CHECK(tok(e, "b") == 1, "%s: running, but the net is not executed (%d %d %d)", modeName(m), x, y, running);
		e.stop();
		MC_CHECK(!e.isEventLoopRunning(), "%s: running after stop()", modeName(m));
		n.forbid(true, "stop() returned");
		e.incrementInputPlace("a");
		mc::quiesce();
		MC_CHECK(tok(e, "b") == 1 && tok(e, "a") == 1, "%s: fired after stop()", modeName(m));
	}
	mc::quiesce();
}
MC_SCENARIO(concurrent_calls, { .p = 2, .pThorough = 3, .shards = 32 })
{
	int c = mc::config(32);
	int x = c % 4, y = c / 4 % 4;
	if (x < y)
		return;
	concurrent(Mode::EVENT_LOOP, x, y, c / 16);
}
MC_SCENARIO(concurrent_calls_async, { .p = 2, .pThorough = 3, .shards = 32, .delayBounded = true })
{
	int c = mc::config(64);
	int x = c % 4, y = c / 4 % 4;
	if (x < y)
		return;
	concurrent(c / 32 ? Mode::JOB_QUEUE : Mode::DETACHED, x, y, c / 16 % 2);
}
// Three threads: execute, stop and an observer; injections are not lost.
MC_SCENARIO(three_threads, { .p = 2, .pThorough = 3, .shards = 6 })
{
	int c = mc::config(6);
	Mode m = ASYNC[c % 3];
	Net n;
	int ex = 0;
	{
		Eng e(m);
		n.build(e, false);
		if (c / 3)
			e.execute();
		std::thread t1([&] { doCalls(e, 3, ex); });
		std::thread t2([&] { e.incrementInputPlace("a"); });
		e.stop();
		e.isEventLoopRunning();
		t1.join();
		t2.join();
		if (!e.isEventLoopRunning())
			e.execute();
		mc::quiesce();
		MC_CHECK(tok(e, "b") == 1 && tok(e, "a") == 0, "%s: a %ld b %ld", modeName(m), tok(e, "a"), tok(e, "b"));
	}
	mc::quiesce();
}
// stop() from an asynchronous action takes effect like any other.
MC_SCENARIO(stop_in_action, { .p = 2, .pThorough = 3, .shards = 4, .delayBounded = true })
{
	int c = mc::config(4);
	Mode m = c & 1 ? Mode::JOB_QUEUE : Mode::DETACHED;
	Net n;
	{
		Eng e(m);
		n.build(e, false);
		auto stop = [&]
		{
			e.stop();
			n.forbid(true, "stop() returned");
			MC_CHECK(!e.isEventLoopRunning(), "%s: running after stop()", modeName(m));
		};
		place(e, { "x", 0, true, c & 2 ? nullptr : ActionFunction(stop), c & 2 ? ActionFunction(stop) : nullptr });
		place(e, { "y", 0 });
		transition(e, { "xy", { { "x", 1 } }, { { "y", 1 } } });
		e.execute();
		e.incrementInputPlace("x");
		mc::quiesce();
		MC_CHECK(!e.isEventLoopRunning(), "%s: running after stop()", modeName(m));
		e.stop();
		e.incrementInputPlace("a");
		mc::settle(200);
		mc::quiesce();
		MC_CHECK(tok(e, "a") == 1, "%s: fired after stop()", modeName(m));
		n.forbid(false, "");
		e.execute();
		mc::quiesce();
		MC_CHECK(tok(e, "b") == 1 && tok(e, "y") == 1, "%s: b %ld y %ld after a restart", modeName(m), tok(e, "b"), tok(e, "y"));
		e.stop();
	}
	mc::quiesce();
}
// Changing the mode between runs: the loop of the previous run is gone.
MC_SCENARIO(mode_changes, { .p = 1, .pThorough = 2, .shards = 16, .delayBounded = true })
{
	int c = mc::config(64);
	Mode seq[3] = { ALLMODES[c % 4], ALLMODES[c / 4 % 4], ALLMODES[c / 16] };
	Net n;
	int injected = 0;
	{
		Eng e(seq[0]);
		n.build(e, false);
		for (Mode m : seq)
		{
			e.setActionsThreadOption(m);
			MC_CHECK(e.getActionsThreadOption() == m, "mode is not the one set");
			e.incrementInputPlace("a");
			++injected;
			n.forbid(false, "");
			e.execute();
			MC_CHECK(e.isEventLoopRunning() == (m != Mode::SINGLE_THREAD), "%s: isEventLoopRunning() is %d", modeName(m), e.isEventLoopRunning());
			if (m == Mode::SINGLE_THREAD)
				MC_CHECK(tok(e, "b") == injected, "%s: b %ld of %d", modeName(m), tok(e, "b"), injected);
			e.incrementInputPlace("a");
			++injected;
			if (mc::choose(2))
			{
				mc::quiesce();
				MC_CHECK(tok(e, "b") == injected - (m == Mode::SINGLE_THREAD), "%s: b %ld of %d", modeName(m), tok(e, "b"), injected);
			}
			e.stop();
			n.forbid(true, "stop() returned");
			MC_CHECK(!e.isEventLoopRunning(), "%s: running after stop()", modeName(m));
			MC_CHECK(tok(e, "a") + tok(e, "b") == injected, "%s: tokens lost", modeName(m));
		}
	}
	mc::quiesce();
}

// A refused execute() changes nothing, whatever its arguments: the run goes on with the logging it was started with.
MC_SCENARIO(refused_log, { .p = 1, .pThorough = 2, .shards = 6, .delayBounded = true })
{
	const int c = mc::config(6);
	Mode m = ASYNC[c % 3];
	const bool log = c / 3;        // how the run was started
	const int again = mc::choose(3); // refused: without, to another stream, to the same
	const int when = mc::choose(3);
	Net n;
	std::ostringstream o1, o2;
	{
		Eng e(m);
		n.build(e, false);
		if (when == 2)
			e.incrementInputPlace("a");
		log ? e.execute(true, o1) : e.execute();
		if (when == 1)
			mc::settle(150);
		for (int i = 0; i < 2; ++i)
		{
			int r = throws([&] { again == 0 ? e.execute(false, o2) : again == 1 ? e.execute(true, o2) : e.execute(true, o1); });
			MC_CHECK(r == 1, "%s: execute() accepted while running", modeName(m));
			e.incrementInputPlace("a");
			mc::quiesce();
		}
		mc::settle(250);
		mc::quiesce();
		MC_CHECK(e.isEventLoopRunning(), "%s: not running", modeName(m));
		MC_CHECK(tok(e, "a") == 0 && tok(e, "b") == 2 + (when == 2), "%s: %ld tokens", modeName(m), tok(e, "b"));
		e.stop();
		MC_CHECK(o2.str().empty(), "%s: the refused execute() logs: %s", modeName(m), o2.str().c_str());
		MC_CHECK(log || o1.str().empty(), "%s: logged without being asked to", modeName(m));
		string l = o1.str(), want = "b: " + std::to_string(tok(e, "b"));
		if (log)
			MC_CHECK(l.find(want) != string::npos, "%s: no report of the final marking: %s", modeName(m), l.c_str());
		// and the next run logs as it is told
		const size_t size = l.size();
		n.forbid(false, "");
		e.execute(again == 1, o2);
		mc::quiesce();
		e.stop();
		MC_CHECK(o2.str().empty() == (again != 1), "%s: the next run does not log as told", modeName(m));
		MC_CHECK(o1.str().size() == size, "%s: the next run logs to the stream of the first", modeName(m));
	}
	mc::quiesce();
}
