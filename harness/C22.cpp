// Refused thread creations are reported or recovered (C22): any thread creation of a history may fail, and the engine is
// used on; what it says, what it runs and what it still can do are compared with the history.
#include "refnet.h"
#include <cerrno>
#include <thread>

// The reason given for a refusal.
static void chooseError()
{
	static const int E[] = { EAGAIN, EPERM, ENOMEM };
	mc::refuseError(E[mc::choose(3)]);
}

struct World
{
	vector<string> log; // actions in the order they are executed; only touched outside the program under test
	int inside = 0;
	void run(const char *name)
	{
		mc::Outside o;
		log.push_back(name);
	}
	int count(const string &name) const
	{
		mc::Outside o;
		int r = 0;
		for (auto &l : log)
			r += l == name;
		return r;
	}
	// the executed actions of the given places, in order
	vector<string> only(const std::set<string> &names) const
	{
		vector<string> r;
		for (auto &l : log)
			if (names.count(l))
				r.push_back(l);
		return r;
	}
};

// a, b: input places with on enter actions; t (no actions in execution): a -> c; u: b -> c; v (no actions in execution): c -> d.
// inner: actions triggered by firings as well (not in DETACHED mode, where nobody could be told that one failed).
static void build(Eng &e, World &w, bool inner)
{
	place(e, { "a", 0, true, [&w] { w.run("a"); } });
	place(e, { "b", 0, true, [&w] { w.run("b"); } });
	place(e, { "c", 0, false, inner ? ActionFunction([&w] { w.run("c"); }) : ActionFunction() });
	place(e, { "d" });
	transition(e, { "t", { { "a", 1 } }, { { "c", 1 } }, {}, {}, true });
	transition(e, { "u", { { "b", 1 } }, { { "c", 1 } } });
	transition(e, { "v", { { "c", 1 } }, { { "d", 1 } }, {}, {}, true });
}
static long total(Eng &e) { return tok(e, "a") + tok(e, "b") + tok(e, "c") + tok(e, "d"); }
static string shape(Eng &e)
{
	string r;
	for (auto &p : e.getPlacesProperties())
		r += p.name + (p.input ? "!" : "") + std::to_string(p.initialNumberOfTokens) + " ";
	for (auto &t : e.getTransitionsProperties())
		r += t.name + std::to_string(t.activationArcs.size()) + std::to_string(t.destinationArcs.size()) + " ";
	return r;
}

// The rest of every scenario: threads can be created again; everything left over is executed after one more trigger.
static void finish(Eng &e, World &w, Mode m, bool inner, vector<string> want, long atLeast, long atMost, const string &hist, bool ordered = true)
{
	mc::threadFaults(false);
	if (!e.isEventLoopRunning())
		MC_CHECK(throws([&] { e.execute(); }) == 0, "%s: execute() refused while stopped: %s", modeName(m), hist.c_str());
	MC_CHECK(e.isEventLoopRunning(), "%s: not running after execute(): %s", modeName(m), hist.c_str());
	for (auto p : { "a", "b" })
	{
		e.incrementInputPlace(p);
		mc::Outside o;
		want.push_back(p);
	}
	mc::settle(2000);
	mc::quiesce();
	long d = tok(e, "d");
	MC_CHECK(total(e) == d && d >= atLeast + 2 && d <= atMost + 2, "%s: a %ld b %ld c %ld d %ld in the end, %ld to %ld tokens injected: %s", modeName(m),
			 tok(e, "a"), tok(e, "b"), tok(e, "c"), d, atLeast + 2, atMost + 2, hist.c_str());
	e.stop();
	MC_CHECK(!e.isEventLoopRunning(), "%s: running after stop(): %s", modeName(m), hist.c_str());
	mc::quiesce();
	mc::Outside o;
	if (inner)
		MC_CHECK(w.count("c") == d, "%s: %d actions of c for %ld tokens: %s", modeName(m), w.count("c"), d, hist.c_str());
	auto got = w.only({ "a", "b" });
	if (!ordered)
	{
		std::sort(got.begin(), got.end());
		std::sort(want.begin(), want.end());
	}
	string g, s;
	for (auto &x : got)
		g += x;
	for (auto &x : want)
		s += x;
	MC_CHECK(g == s, "%s: actions executed: %s, triggered: %s: %s", modeName(m), g.c_str(), s.c_str(), hist.c_str());
	mc::outcome("%s %s %d", modeName(m), g.c_str(), mc::faultsInjected());
}

// ---- every sequence of calls, every thread creation (or two) refused ----
enum Call { EXECUTE, STOP, INJECT_A, INJECT_B, REST, CALLS };
static const char *CALLNAME[] = { "execute", "stop", "inject a", "inject b", "rest" };
static void sequence(Mode m, int depth, long code)
{
	World w;
	string hist;
	vector<string> want;
	long least = 0, most = 0;
	bool running = false, inner = m != Mode::DETACHED;
	Eng e(m);
	build(e, w, inner);
	mc::threadFaults(true);
	for (int i = 0; i < depth; ++i, code /= CALLS)
	{
		int c = code % CALLS, faults = mc::faultsInjected();
		{
			mc::Outside o;
			hist += string(CALLNAME[c]) + " ";
		}
		switch (c)
		{
		case EXECUTE:
		{
			string before = running ? "" : shape(e);
			int r = throws([&] { e.execute(); });
			if (running)
			{
				MC_CHECK(r == 1, "%s: execute() accepted while running: %s", modeName(m), hist.c_str());
				break;
			}
			if (r)
			{
				MC_CHECK(mc::faultsInjected() > faults, "%s: execute() threw for no reason: %s", modeName(m), hist.c_str());
				string after = shape(e);
				MC_CHECK(before == after, "%s: a failing execute() changed the net: %s instead of %s: %s", modeName(m), after.c_str(), before.c_str(), hist.c_str());
				mc::Outside o;
				hist += "(refused) ";
			}
			else
				running = true;
			break;
		}
		case STOP:
			e.stop();
			running = false;
			break;
		case INJECT_A:
		case INJECT_B:
		{
			const char *p = c == INJECT_A ? "a" : "b";
			int r = throws([&] { e.incrementInputPlace(p); });
			if (r)
			{
				MC_CHECK(m == Mode::DETACHED && mc::faultsInjected() > faults, "%s: incrementInputPlace() threw for no reason: %s", modeName(m), hist.c_str());
				mc::Outside o;
				hist += "(refused) ";
			}
			else
			{
				mc::Outside o;
				want.push_back(p);
				++least;
			}
			++most;
			break;
		}
		case REST: mc::quiesce(); break;
		}
		MC_CHECK(e.isEventLoopRunning() == running, "%s: isEventLoopRunning() is %d: %s", modeName(m), e.isEventLoopRunning(), hist.c_str());
		if (m == Mode::JOB_QUEUE)
		{
			mc::Outside o;
			auto got = w.only({ "a", "b" });
			bool prefix = got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin());
			MC_CHECK(prefix, "actions executed out of order: %s", hist.c_str());
		}
	}
	{
		mc::Outside o;
		mc::state(std::hash<string>{}(modeName(m) + hist));
	}
	finish(e, w, m, inner, want, least, most, hist, m != Mode::DETACHED);
}
static long power(int d)
{
	long r = 1;
	while (d--)
		r *= CALLS;
	return r;
}
static void sequences(int depth)
{
	long c = mc::config(3 * power(depth));
	sequence(ASYNC[c / power(depth)], depth, c % power(depth));
}
MC_SCENARIO(sequences2, { .p = 1, .pThorough = 2, .f = 2, .shards = 16, .delayBounded = true }) { sequences(2); }
MC_SCENARIO(sequences3, { .p = 0, .pThorough = 1, .f = 2, .shards = 16, .delayBounded = true }) { sequences(3); }
MC_SCENARIO(sequences4, { .p = 0, .pThorough = 0, .f = 2, .shards = 16, .delayBounded = true }) { sequences(4); }
MC_SCENARIO(sequences5, { .p = 0, .pThorough = 0, .f = 3, .shards = 64, .thoroughOnly = true, .delayBounded = true }) { sequences(5); }

// ---- a refused thread creation while other threads use the engine ----
// What the other thread does meanwhile.
static void concurrent(Mode m, int kind)
{
	World w;
	bool inner = m != Mode::DETACHED;
	Eng e(m);
	build(e, w, inner);
	vector<string> want;
	long least = 0, most = 0;
	int r = 0;
	if (kind >= 4) // the loop runs already
		e.execute();
	mc::Gate begin;
	std::thread other(
	[&]
	{
		begin.wait();
		switch (kind)
		{
		case 0:
		case 4:
		case 5: r = throws([&] { e.incrementInputPlace("a"); }); break;
		case 1: e.stop(); break;
		case 2: r = throws([&] { e.execute(); }); break;
		case 3: e.isEventLoopRunning(); e.getNumberOfTokens("a"); break;
		}
	});
	int s = 0;
	mc::threadFaults(true);
	begin.open();
	switch (kind)
	{
	case 4:
		s = throws([&] { e.incrementInputPlace("b"); });
		break;
	case 5:
		e.stop();
		s = throws([&] { e.execute(); });
		break;
	default: s = throws([&] { e.execute(); });
	}
	other.join();
	bool injects = kind == 0 || kind == 4 || kind == 5;
	if (injects)
	{
		MC_CHECK(!r || (m == Mode::DETACHED && mc::faultsInjected()), "%s: incrementInputPlace() threw for no reason", modeName(m));
		mc::Outside o;
		least += !r;
		++most;
		if (!r)
			want.push_back("a");
	}
	if (kind == 4)
	{
		MC_CHECK(!s || (m == Mode::DETACHED && mc::faultsInjected()), "%s: incrementInputPlace() threw for no reason", modeName(m));
		mc::Outside o;
		least += !s;
		++most;
		if (!s)
			want.push_back("b");
	}
	else if (s && kind != 2)
		MC_CHECK(mc::faultsInjected(), "%s: execute() threw for no reason", modeName(m));
	if (kind == 2)
	{
		MC_CHECK(r && s ? mc::faultsInjected() > 0 : (bool)r != (bool)s || mc::faultsInjected() == 0, "%s: both execute() accepted", modeName(m));
		MC_CHECK(e.isEventLoopRunning() == (!r || !s), "%s: isEventLoopRunning() is %d", modeName(m), e.isEventLoopRunning());
	}
	else if (kind == 1 || kind == 4)
	{
		if (kind == 4)
			MC_CHECK(e.isEventLoopRunning(), "%s: the loop ended", modeName(m));
		if (s && kind == 1)
			MC_CHECK(!e.isEventLoopRunning(), "%s: running without a loop", modeName(m));
	}
	else
		MC_CHECK(e.isEventLoopRunning() == !s, "%s: isEventLoopRunning() is %d", modeName(m), e.isEventLoopRunning());
	if (kind == 1 && e.isEventLoopRunning())
	{
		e.stop();
		MC_CHECK(!e.isEventLoopRunning(), "%s: running after stop()", modeName(m));
	}
	finish(e, w, m, inner, want, least, most, "", false);
}
MC_SCENARIO(concurrent_calls, { .p = 1, .pThorough = 2, .f = 1, .shards = 18 })
{
	int c = mc::config(18);
	concurrent(ASYNC[c % 3], c / 3);
}

// ---- job queue: two threads trigger actions, the worker may be refused at any time ----
MC_SCENARIO(queue, { .p = 1, .pThorough = 2, .f = 2, .shards = 8 })
{
	bool running = mc::config(2), inner = mc::config(2);
	int actions = 1 + mc::config(2);
	chooseError();
	World w;
	Eng e(Mode::JOB_QUEUE);
	build(e, w, inner);
	if (running)
		e.execute();
	mc::Gate begin;
	std::thread other(
	[&]
	{
		begin.wait();
		for (int i = 0; i < actions; ++i)
			e.incrementInputPlace("a");
	});
	mc::threadFaults(true);
	begin.open();
	e.incrementInputPlace("b");
	other.join();
	vector<string> want(actions, "a");
	want.push_back("b");
	finish(e, w, Mode::JOB_QUEUE, inner, want, actions + 1, actions + 1, "", false);
}

// ---- an action that could not be started does not prevent changing the mode, clearing or destroying the net ----
MC_SCENARIO(after, { .p = 1, .pThorough = 2, .f = 2, .shards = 12, .delayBounded = true })
{
	int c = mc::config(2 * 2 * 3 * 3);
	Mode m = c % 2 ? Mode::DETACHED : Mode::JOB_QUEUE;
	bool run = c / 2 % 2;
	Mode to = ASYNC[c / 4 % 3];
	int last = c / 12;
	chooseError();
	World w;
	vector<string> want;
	struct Last // actions executed detached may end after the engine
	{
		~Last() { mc::quiesce(); }
	} settled;
	Eng e(m);
	build(e, w, false);
	mc::threadFaults(true);
	long least = 0, most = 0;
	for (int i = 0; i < 2; ++i)
	{
		++most;
		if (!throws([&] { e.incrementInputPlace("a"); }))
		{
			mc::Outside o;
			want.push_back("a");
			++least;
		}
	}
	mc::threadFaults(false);
	if (run)
	{
		e.execute();
		mc::quiesce();
		e.stop();
	}
	if (last == 2)
	{
		mc::outcome("destroyed with %d of %d", w.count("a"), (int)least);
		return;
	}
	if (last == 1)
	{
		e.clearNet();
		build(e, w, false);
		// what is still queued belongs to the cleared net: it may or may not run
		mc::quiesce();
		{
			mc::Outside o;
			MC_CHECK(w.count("a") <= least, "more actions than triggers");
			w.log.clear();
			want.clear();
		}
		e.setActionsThreadOption(to);
		e.execute();
		e.incrementInputPlace("b");
		mc::settle(2000);
		mc::quiesce();
		MC_CHECK(tok(e, "d") == 1, "%s to %s: the net cannot be used after clearNet()", modeName(m), modeName(to));
		e.stop();
		mc::quiesce();
		MC_CHECK(w.count("b") == 1, "%s to %s: %d actions instead of one", modeName(m), modeName(to), w.count("b"));
		return;
	}
	e.setActionsThreadOption(to);
	e.execute();
	e.incrementInputPlace("b");
	mc::settle(500);
	mc::quiesce();
	MC_CHECK(w.count("b") == 1, "%s to %s: %d actions instead of one", modeName(m), modeName(to), w.count("b"));
	e.stop();
	e.setActionsThreadOption(m);
	{
		mc::Outside o;
		want.push_back("b");
	}
	finish(e, w, m, false, want, least + 1, most + 1, "", false);
}

// ---- threads are refused for a long time ----
MC_SCENARIO(long_refusal, { .p = 0, .pThorough = 0, .shards = 6, .delayBounded = true })
{
	static const int SIZES[] = { 1, 2, 3, 4, 5, 9, 17, 33, 70, 300 };
	int c = mc::config(6);
	Mode m = ASYNC[c % 3];
	int n = SIZES[mc::choose(10)];
	bool running = c / 3;
	chooseError();
	World w;
	vector<string> want;
	bool inner = m != Mode::DETACHED;
	Eng e(m);
	build(e, w, inner);
	string before = shape(e);
	if (running)
		e.execute();
	long least = 0;
	mc::refuseThreads(1000000);
	for (int i = 0; i < n; ++i)
	{
		if (!running)
		{
			MC_CHECK(throws([&] { e.execute(); }) != 0 && !e.isEventLoopRunning(), "%s: executing without a thread", modeName(m));
			MC_CHECK(i || shape(e) == before, "%s: execute() changed the net", modeName(m));
		}
		const char *p = i % 3 ? "a" : "b";
		int r = throws([&] { e.incrementInputPlace(p); });
		MC_CHECK(!r || m == Mode::DETACHED, "%s: incrementInputPlace() threw", modeName(m));
		if (!r)
		{
			mc::Outside o;
			want.push_back(p);
			++least;
		}
	}
	mc::quiesce();
	MC_CHECK(m != Mode::JOB_QUEUE || w.log.empty(), "an action was executed without a thread");
	MC_CHECK(e.isEventLoopRunning() == running, "%s: isEventLoopRunning() is %d", modeName(m), !running);
	mc::refuseThreads(0);
	finish(e, w, m, inner, want, least, n, "", m != Mode::DETACHED);
}
