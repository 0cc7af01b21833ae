// MC_MAXF: 64
// Nothing is left behind (C27): what an engine has been given and has allocated is released when it is no longer
// needed, and however long it works it does not need more and more.
#include "ops.h"
#include <filesystem>
#include <optional>
using namespace ops;

namespace
{
// Something a callback captures: the number of copies in existence is known.
struct Tracked
{
	static inline long alive = 0;
	Tracked() { count(1); }
	Tracked(const Tracked &) { count(1); }
	Tracked &operator=(const Tracked &) = default;
	~Tracked() { count(-1); }
	static void count(int n)
	{
		mc::Outside o;
		alive += n;
	}
};
long alive()
{
	mc::Outside o;
	return Tracked::alive;
}
void start()
{
	mc::Outside o;
	Tracked::alive = 0;
}
ActionFunction action(mc::Gate *g = nullptr)
{
	return [t = Tracked(), g]
	{
		if (g)
			g->wait();
	};
}
ConditionFunction condition()
{
	return [t = Tracked()] { return true; };
}
size_t openFiles()
{
	mc::Outside o;
	size_t n = 0;
	for ([[maybe_unused]] auto &f : std::filesystem::directory_iterator("/proc/self/fd"))
		++n;
	return n;
}
struct Usage
{
	long blocks, bytes, tracked;
	size_t files;
	int threads;
};
Usage usage() { return { mc::heapBlocks(), mc::heapBytes(), alive(), openFiles(), mc::threadsAlive() }; }
// Compares what is in use after the second with what was in use after the first of several equal parts (the library may keep
// things of its own that are made once).
void same(const Usage &a, const Usage &b, const char *what, Mode m)
{
	MC_CHECK(b.tracked == a.tracked, "%s, %s: %ld objects captured by callbacks are left", modeName(m), what, b.tracked - a.tracked);
	MC_CHECK(b.blocks <= a.blocks, "%s, %s: %ld blocks of memory (%ld bytes) are left", modeName(m), what, b.blocks - a.blocks, b.bytes - a.bytes);
	MC_CHECK(b.bytes <= a.bytes, "%s, %s: %ld bytes of memory are left", modeName(m), what, b.bytes - a.bytes);
	MC_CHECK(b.files <= a.files, "%s, %s: %zu files are left open", modeName(m), what, b.files - a.files);
	MC_CHECK(b.threads <= a.threads, "%s, %s: %d threads are left", modeName(m), what, b.threads - a.threads);
}

// A net all of whose functions capture something, registered and anonymous ones.
void net(Eng &e, mc::Gate *g = nullptr)
{
	e.registerAction("act", action(g));
	e.registerCondition("cond", condition());
	PlaceProperties p;
	p.name = "a";
	p.input = true;
	p.initialNumberOfTokens = 1;
	p.onEnterActionFunctionName = "act";
	p.onExitAction = action();
	e.createPlace(p);
	place(e, { "b", 0, true, action(), action() });
	place(e, { "c", 0, false, action() });
	TransitionProperties t;
	t.name = "t";
	t.activationArcs = { arc("a") };
	t.destinationArcs = { arc("b"), arc("c") };
	t.additionalConditionsNames = { "cond" };
	t.requireNoActionsInExecution = true;
	e.createTransition(t);
	transition(e, { "u", { { "b", 2 } }, { { "c", 1 } }, { { "c", 1 } }, { condition(), condition() } });
}
}

// Whatever has been done with an engine: after its destruction nothing is left.
static void destroyed(Mode m, const vector<Op> &calls, bool settle)
{
	std::optional<Usage> first;
	for (int round = 0; round < 3; ++round)
	{
		{
			Eng e(m);
			net(e);
			int i = 0;
			for (Op x : calls)
			{
				tryApply(e, x, m, i++);
				if (settle)
					mc::quiesce();
			}
		}
		mc::quiesce();
		const Usage u = usage();
		MC_CHECK(u.tracked == 0, "%s, %s after %s: %ld objects captured by callbacks are left", modeName(m), calls.size() > 1 ? NAME[calls[1]] : "-",
				 calls.empty() ? "-" : NAME[calls[0]], u.tracked);
		MC_CHECK(u.threads == 0, "%s: %d threads are left", modeName(m), u.threads);
		if (round == 1)
			first = u;
		else if (round == 2)
			same(*first, u, calls.empty() ? "construction" : NAME[calls.back()], m);
	}
}
MC_SCENARIO(destruction, { .p = 0, .pThorough = 1, .shards = 12, .delayBounded = true })
{
	start();
	const int c = mc::config(4 * OPS);
	const Mode m = ALLMODES[c % 4];
	prepare(m);
	vector<Op> calls{ (Op)(c / 4) };
	const int n = mc::choose(3);
	if (n == 0 && c < 4)
		calls.clear();
	if (n == 1)
		calls.push_back((Op)mc::choose(OPS));
	if (n == 2) // on a running engine with an action triggered
		calls.insert(calls.begin(), { EXECUTE, INJECT_A });
	destroyed(m, calls, n ? mc::choose(2) : 0);
}
MC_SCENARIO(destruction3, { .p = 0, .pThorough = 0, .shards = 32, .thoroughOnly = true, .delayBounded = true })
{
	start();
	const int c = mc::config(4 * OPS);
	const Mode m = ALLMODES[c % 4];
	prepare(m);
	destroyed(m, { (Op)(c / 4), (Op)mc::choose(OPS), (Op)mc::choose(OPS) }, mc::choose(2));
}

// Destroyed (or cleared) at any moment of the loop's and the actions' execution, with actions pending or in execution.
static void midway(Mode m, int kind, bool held)
{
	start();
	mc::Gate gate(!held);
	std::optional<Usage> first;
	for (int round = 0; round < 2; ++round)
	{
		{
			Eng e(m);
			net(e, &gate);
			e.execute();
			if (mc::choose(2))
				mc::quiesce();
			e.incrementInputPlace("a");
			if (kind == 1)
			{
				e.incrementInputPlace("b");
				e.incrementInputPlace("b");
			}
			if (kind == 2)
			{
				e.stop();
				e.clearNet();
				MC_CHECK(e.getPlacesProperties().empty() && e.getTransitionsProperties().empty(), "the net is not empty");
			}
			if (kind == 3)
			{
				e.stop();
				e.setActionsThreadOption(other(m));
				gate.open();
				e.incrementInputPlace("a");
			}
			gate.open();
		}
		mc::quiesce();
		const Usage u = usage();
		MC_CHECK(u.tracked == 0, "%s: %ld objects captured by callbacks are left", modeName(m), u.tracked);
		MC_CHECK(u.threads == 0, "%s: %d threads are left", modeName(m), u.threads);
		if (round)
			same(*first, u, "destruction", m);
		first = u;
		if (held)
			gate.close();
	}
}
MC_SCENARIO(any_moment, { .p = 1, .pThorough = 2, .shards = 24, .delayBounded = true })
{
	const int c = mc::config(24);
	const Mode m = ASYNC[c % 3];
	midway(m, c / 3 % 4, c / 12 && m != Mode::EVENT_LOOP);
}

// Clearing the net releases its functions, at the latest when the actions triggered have been executed; the registered ones stay.
MC_SCENARIO(cleared, { .p = 1, .pThorough = 2, .shards = 12, .delayBounded = true })
{
	start();
	const int c = mc::config(24);
	const Mode m = ALLMODES[c % 4];
	const int before = c / 4; // what is done before clearing
	mc::Gate gate(false);
	const bool held = before == 3 && (m == Mode::JOB_QUEUE || m == Mode::DETACHED);
	if (!held)
		gate.open();
	{
		Eng e(m);
		e.registerAction("r", action());
		e.registerCondition("q", condition());
		const long registered = alive();
		for (int round = 0; round < 2; ++round)
		{
			place(e, { "a", 1, true, action(&gate), action() });
			place(e, { "b", 0, true, action(), action() });
			PlaceProperties p;
			p.name = "x";
			p.input = true;
			p.onEnterActionFunctionName = "r";
			p.onExitActionFunctionName = "r";
			e.createPlace(p);
			transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { condition() } });
			TransitionProperties t;
			t.name = "y";
			t.activationArcs = { arc("x") };
			t.additionalConditionsNames = { "q", "q" };
			e.createTransition(t);
			MC_CHECK(alive() > registered, "nothing captured");
			if (before)
				e.incrementInputPlace("a");
			if (before >= 2)
			{
				e.execute();
				if (before == 4)
					mc::quiesce();
				e.incrementInputPlace("x");
				if (before == 5)
					e.getPlacesProperties(), e.getTransitionsProperties();
				e.stop();
			}
			if (m != Mode::DETACHED && before == 1)
				e.stop();
			if (!held)
				mc::quiesce();
			e.clearNet();
			if (held)
			{
				gate.open();
				mc::quiesce();
				gate.close();
			}
			MC_CHECK(alive() == registered, "%s: %ld objects captured by functions of the cleared net are left", modeName(m), alive() - registered);
		}
		MC_CHECK(throws([&] { e.registerAction("r", [] {}); }) == 1, "the registered function is gone");
		gate.open();
	}
	mc::quiesce();
	MC_CHECK(alive() == 0, "%s: %ld objects captured by callbacks are left", modeName(m), alive());
}

// An action is released once it has been executed: only the net's own copy is left.
MC_SCENARIO(executed, { .p = 2, .pThorough = 4, .shards = 4, .delayBounded = true })
{
	start();
	const Mode m = ALLMODES[mc::config(4)];
	{
		Eng e(m);
		place(e, { "a", 0, true, action(), action() });
		place(e, { "b", 0, false, action() });
		transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { condition() } });
		const long own = alive();
		for (int i = 0; i < 3; ++i)
		{
			e.incrementInputPlace("a");
			e.execute();
			mc::quiesce();
			MC_CHECK(alive() == own, "%s: %ld more copies of the actions are left", modeName(m), alive() - own);
			e.stop();
		}
	}
	MC_CHECK(alive() == 0, "left");
}

// Refused requests keep nothing of what they were given.
MC_SCENARIO(refused, { .p = 0, .pThorough = 0, .shards = 4 })
{
	start();
	const Mode m = ALLMODES[mc::config(4)];
	const bool running = m != Mode::SINGLE_THREAD && mc::choose(2);
	Eng e(m);
	net(e);
	if (running)
		e.execute();
	mc::quiesce();
	const int k = mc::choose(9);
	auto request = [&]
	{
		TransitionProperties t;
		PlaceProperties p;
		p.onEnterAction = p.onExitAction = action();
		p.input = true;
		t.additionalConditions = { condition(), condition() };
		t.activationArcs = { arc("a") };
		switch (k)
		{
		case 0: e.registerAction("act", action()); break;
		case 1: e.registerAction("", action()); break;
		case 2: e.registerCondition("cond", condition()); break;
		case 3: p.name = "a"; e.createPlace(p); break;
		case 4: p.name = ""; e.createPlace(p); break;
		case 5: p.name = "n"; p.onExitActionFunctionName = "unknown"; e.createPlace(p); break;
		case 6: t.name = "t"; e.createTransition(t); break;
		case 7: t.name = "n"; t.destinationArcs = { arc("unknown") }; e.createTransition(t); break;
		case 8: t.name = "n"; t.inhibitorArcs = { arc("b"), arc("b") }; e.createTransition(t); break;
		}
	};
	std::optional<Usage> first;
	for (int i = 0; i < 30; ++i)
	{
		MC_CHECK(throws(request) == 1, "request %d is accepted", k);
		if (i == 9)
			first = usage();
	}
	same(*first, usage(), "refused requests", m);
}

// However often something is done, no more and more is in use.
static void repeatedly(Mode m, Op x, Op y, int warm, int times)
{
	start();
	mc::maxSteps(100000000);
	mc::maxTimers(100000);
	mc::fixSeed(0);
	prepare(m);
	Eng e(m);
	e.registerAction("act", action());
	e.registerCondition("cond", condition());
	Counts k;
	auto build = [&]
	{
		place(e, { "a", 1, true, action(), action() });
		place(e, { "b", 0, true, action(), action() });
		place(e, { "c" });
		transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { condition() }, true });
		transition(e, { "u", { { "b", 2 } }, { { "c", 1 } }, { { "c", 1 } }, { condition() } });
	};
	build();
	std::optional<Usage> first;
	for (int i = 0; i < warm + times; ++i)
	{
		tryApply(e, x, m, 0);
		tryApply(e, y, m, 0);
		if (x == SET_MODE || y == SET_MODE)
			throws([&] { e.setActionsThreadOption(m); }); // and back
		mc::quiesce();
		if (e.getPlacesProperties().empty() || throws([&] { e.getNumberOfTokens("a"); }))
		{
			throws([&] { e.clearNet(); });
			build();
		}
		if (i == warm - 1)
			first = usage();
	}
	const Usage u = usage();
	// a queue may need one block more or less
	MC_CHECK(u.blocks - first->blocks <= times / 3, "%s: %s, %s %d times: %ld more blocks of memory (%ld bytes) are in use", modeName(m), NAME[x], NAME[y],
			 times, u.blocks - first->blocks, u.bytes - first->bytes);
	MC_CHECK(u.bytes - first->bytes <= 600 + times, "%s: %s, %s %d times: %ld more bytes of memory are in use", modeName(m), NAME[x], NAME[y], times,
			 u.bytes - first->bytes);
	MC_CHECK(u.tracked <= first->tracked + 1, "%s: %s, %s %d times: %ld more objects captured by callbacks", modeName(m), NAME[x], NAME[y], times,
			 u.tracked - first->tracked);
	MC_CHECK(u.files <= first->files, "%s: %s, %s: %zu more files are open", modeName(m), NAME[x], NAME[y], u.files - first->files);
	MC_CHECK(u.threads <= first->threads + 1, "%s: %s, %s: %d more threads", modeName(m), NAME[x], NAME[y], u.threads - first->threads);
}
MC_SCENARIO(again_and_again, { .p = 0, .pThorough = 0, .shards = 16, .delayBounded = true })
{
	const int c = mc::config(4 * OPS);
	const Mode m = ALLMODES[c % 4];
	const Op x = (Op)(c / 4), y = (Op)mc::choose(OPS);
	auto quiet = [](Op o) { return o != EXECUTE && o != INJECT_A && o != INJECT_B && o != IMPORT; }; // makes no threads
	repeatedly(m, x, y, 4, quiet(x) && quiet(y) ? 60 : 9);
}
// More often, where no threads are needed.
MC_SCENARIO(very_often, { .p = 0, .pThorough = 0, .shards = 8 })
{
	const int c = mc::config(2 * OPS);
	const Mode m = ALLMODES[c % 2];
	const Op x = (Op)(c / 2), y = (Op)mc::choose(OPS);
	if (m != Mode::SINGLE_THREAD && (x == EXECUTE || y == EXECUTE))
		return;
	if (x == SET_MODE || y == SET_MODE || x == IMPORT || y == IMPORT)
		return;
	repeatedly(m, x, y, 20, 150);
}

// Exceptions thrown by callbacks leave nothing behind.
MC_SCENARIO(thrown, { .p = 0, .pThorough = 0, .shards = 4 })
{
	start();
	const int where = mc::config(4);
	Eng e(Mode::SINGLE_THREAD);
	auto f = [&](int w, bool input)
	{
		return [w, where, input, t = Tracked()]
		{
			if (w == where)
				throw std::runtime_error("thrown by a callback");
			(void)input;
		};
	};
	place(e, { "a", 0, true, f(0, true), f(1, true) });
	place(e, { "b", 0, false, f(2, false) });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { [where, t = Tracked()] { if (where == 3) throw std::runtime_error("thrown by a condition"); return true; } }, true });
	std::optional<Usage> first;
	for (int i = 0; i < 40; ++i)
	{
		throws([&] { e.incrementInputPlace("a"); });
		throws([&] { e.execute(); });
		if (i == 9)
			first = usage();
	}
	same(*first, usage(), "callbacks that throw", Mode::SINGLE_THREAD);
}

// Threads that cannot be created leave nothing behind.
MC_SCENARIO(no_threads, { .p = 1, .pThorough = 1, .f = 2, .shards = 3, .delayBounded = true })
{
	start();
	const Mode m = ASYNC[mc::config(3)];
	std::optional<Usage> first;
	for (int round = 0; round < 3; ++round)
	{
		{
			Eng e(m);
			net(e);
			mc::threadFaults(round == 1);
			for (int i = 0; i < 2; ++i)
			{
				if (m != Mode::DETACHED) // (a loop that cannot start an action: not constrained)
					throws([&] { e.execute(); });
				throws([&] { e.incrementInputPlace("b"); });
			}
			mc::threadFaults(false);
			if (mc::choose(2))
				throws([&] { e.incrementInputPlace("b"); });
		}
		mc::quiesce();
		const Usage u = usage();
		MC_CHECK(u.tracked == 0 && u.threads == 0, "%s: %ld captured objects, %d threads are left", modeName(m), u.tracked, u.threads);
		if (round == 0)
			first = u;
		else
			same(*first, u, "threads refused", m);
	}
}

// A run of the loop that goes on and on - firing, idling, or with report - needs no more and more.
MC_SCENARIO(long_run, { .p = 0, .pThorough = 0, .shards = 12, .delayBounded = true })
{
	start();
	mc::maxSteps(100000000);
	mc::maxTimers(100000);
	mc::fixSeed(0);
	const int c = mc::config(4 * 3 * 2);
	const Mode m = ALLMODES[c % 4];
	const int kind = c / 4 % 3; // firing, idling, both
	const bool log = c / 12;
	if (m == Mode::SINGLE_THREAD && kind)
		return;
	struct Null : std::streambuf
	{
		int overflow(int x) override { return x; }
	} null;
	std::ostream o(&null);
	std::atomic<long> evaluations = 0;
	std::optional<Usage> first, last;
	const long warm = 50, end = 1500;
	{
		Eng e(m);
		const bool inlineActions = m == Mode::SINGLE_THREAD || m == Mode::EVENT_LOOP;
		place(e, { "a", 1, true, inlineActions ? action() : nullptr, inlineActions ? action() : nullptr });
		place(e, { "b", 0, false, inlineActions ? action() : nullptr });
		auto measure = [&]
		{
			if (++evaluations == warm)
				first = usage();
			if (evaluations == end)
				last = usage();
			return kind == 0 ? evaluations < end : kind == 1 ? false : evaluations % 3 == 0;
		};
		transition(e, { "t", { { "a", 1 } }, { { "a", 1 }, { "b", 1 } }, {}, { measure } });
		e.execute(log, o);
		for (int i = 0; i < 2000 && evaluations < end; ++i)
			mc::settle(1000);
		MC_CHECK(evaluations >= end, "%s: only %ld evaluations", modeName(m), evaluations.load());
		e.stop();
	}
	const int n = end - warm;
	MC_CHECK(last->blocks - first->blocks <= n / 20, "%s: %d evaluations: %ld more blocks of memory are in use", modeName(m), n, last->blocks - first->blocks);
	MC_CHECK(last->bytes - first->bytes <= 2 * n, "%s: %d evaluations: %ld more bytes of memory are in use", modeName(m), n, last->bytes - first->bytes);
	MC_CHECK(last->tracked == first->tracked && last->files <= first->files && last->threads <= first->threads, "%s: more and more is in use", modeName(m));
}

// Started and stopped over and over.
MC_SCENARIO(restarts, { .p = 0, .pThorough = 0, .shards = 6, .delayBounded = true })
{
	start();
	mc::maxTimers(1000);
	mc::fixSeed(0);
	const int c = mc::config(6);
	const Mode m = ASYNC[c % 3];
	Eng e(m);
	place(e, { "a", 1, true });
	place(e, { "b" });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
	std::ostringstream o;
	std::optional<Usage> first;
	for (int i = 0; i < 55; ++i)
	{
		e.execute(c / 3, o);
		e.incrementInputPlace("a");
		mc::quiesce();
		e.stop();
		o.str("");
		if (i == 4)
			first = usage();
	}
	const Usage u = usage();
	MC_CHECK(u.blocks - first->blocks <= 5 && u.bytes - first->bytes <= 400, "%s: 50 times execute() and stop(): %ld more blocks of memory (%ld bytes) are in use",
			 modeName(m), u.blocks - first->blocks, u.bytes - first->bytes);
	MC_CHECK(u.files <= first->files && u.threads <= first->threads, "%s: files or threads are left", modeName(m));
}

// Imports and exports, of which many fail, release their files and documents.
MC_SCENARIO(files, { .p = 0, .pThorough = 0, .shards = 2 })
{
	start();
	mc::maxSteps(100000000);
	const Mode m = mc::config(2) ? Mode::EVENT_LOOP : Mode::SINGLE_THREAD;
	const int kind = mc::choose(8);
	const bool one = mc::choose(2); // one importer or exporter for all
	const string good = document(m), path = scratch("document");
	writeFile(path, kind == 1 ? good.substr(0, good.size() / 2) : kind == 2 ? good + good : kind == 3 ? "" : good);
	Eng e(m);
	net(e);
	auto im = FileImporterFactory::createXMLFileImporter();
	auto ex = FileExporterFactory::createXMLFileExporter();
	std::optional<Usage> first;
	int ok = 0;
	for (int i = 0; i < 60; ++i)
	{
		if (!one)
		{
			im = FileImporterFactory::createXMLFileImporter();
			ex = FileExporterFactory::createXMLFileExporter();
		}
		ok += !throws(
		[&]
		{
			switch (kind)
			{
			case 4: im->_import(scratch("no such file"), e); break;
			case 5: im->_import(scratch("."), e); break;
			case 6: ex->_export(e, scratch("no/such/directory")); break;
			case 7: ex->_export(e, path); break;
			default: im->_import(path, e);
			}
		});
		if (i == 9)
			first = usage();
	}
	MC_CHECK(kind == 7 ? ok == 60 : ok <= 1, "%d requests succeeded", ok);
	const Usage u = usage();
	MC_CHECK(u.files <= first->files, "%zu more files are open", u.files - first->files);
	MC_CHECK(u.blocks - first->blocks <= 5 && u.bytes - first->bytes <= 600, "50 requests of kind %d: %ld more blocks of memory (%ld bytes) are in use", kind,
			 u.blocks - first->blocks, u.bytes - first->bytes);
	MC_CHECK(u.tracked == first->tracked, "captured objects are left");
}
