// A throwing callback in SINGLE_THREAD mode leaves the engine usable (C21): the callback that throws, the call at which
// it does, and what is done with the engine afterwards are enumerated; a fresh engine is the oracle.
#include "refnet.h"
#include "xml.h"

struct Thrown
{
	int value;
};
struct ThrownStd : std::runtime_error
{
	using std::runtime_error::runtime_error;
};
// The callbacks of one engine. Each call is counted; the chosen one throws.
struct World
{
	vector<string> log;
	int countdown = -1; // calls until one throws; -1: never
	int type = 0;
	bool threw = false;
	string who;
	bool open = true; // what conditions return
	void call(const string &name)
	{
		mc::Outside o;
		log.push_back(name);
		if (countdown >= 0 && countdown-- == 0)
		{
			threw = true;
			who = name;
		}
		else
			return;
		countdown = -1;
	}
	void run(const string &name)
	{
		bool before = threw;
		call(name);
		if (threw && !before)
			switch (type)
			{
			case 0: throw Thrown{ 42 };
			case 1: throw ThrownStd("thrown");
			default: throw PTN_Exception("thrown by a callback");
			}
	}
};
static const int TYPES = 3;
// 0: nothing, 1: the exception of the callback, 2: a PTN_Exception, 3: something else
static int outcome(const std::function<void()> &f)
{
	try
	{
		f();
		return 0;
	}
	catch (const Thrown &t)
	{
		return t.value == 42 ? 1 : 3;
	}
	catch (const ThrownStd &t)
	{
		return string(t.what()) == "thrown" ? 1 : 3;
	}
	catch (const PTN_Exception &e)
	{
		return string(e.what()).find("thrown by a callback") != string::npos ? 1 : 2;
	}
	catch (...)
	{
		return 3;
	}
}

// Confluent nets: whatever the order of firings, the same final marking and the same number of calls of each action.
static const int NETS = 6;
static RefNet net(int k)
{
	RefNet n;
	n.places["a"] = { 2, true };
	n.places["b"] = { 1, true };
	n.places["c"] = { 0, false };
	n.places["d"] = { 0, true };
	auto &t = n.trans["t"];
	t.in = { { "a", 1 }, { "b", 1 } };
	t.out = { { "c", 1 }, { "d", 2 } };
	switch (k)
	{
	case 0: break;
	case 1: // noAct, chain
		t.noAct = true;
		n.trans["u"].in = { { "c", 1 }, { "d", 1 } };
		n.trans["u"].out = { { "b", 1 } };
		n.trans["u"].noAct = true;
		break;
	case 2: // conditions
		t.conds = { { "", 1 }, { "", 2 } };
		n.trans["u"].in = { { "d", 2 } };
		n.trans["u"].out = { { "c", 1 } };
		n.trans["u"].conds = { { "", 3 } };
		break;
	case 3: // places both entered and left
		t.out = { { "b", 1 }, { "c", 1 }, { "a", 0 } };
		t.out.pop_back();
		t.noAct = true;
		n.trans["u"].in = { { "c", 2 } };
		n.trans["u"].out = { { "d", 1 } };
		n.trans["u"].conds = { { "", 1 } };
		break;
	case 4: // inhibitor and reset
		n.places["i"] = { 0, true };
		t.inh = { { "i", 1 } };
		t.noAct = true;
		n.trans["u"].in = { { "i", 1 }, { "c", 1 } };
		n.trans["u"].out = { { "d", 1 } };
		n.trans["u"].noAct = true;
		break;
	case 5: // noAct with an inhibitor place and a condition
		t.in = { { "a", 1 } };
		t.out = { { "c", 1 } };
		t.noAct = true;
		t.conds = { { "", 1 } };
		n.trans["u"].in = { { "b", 1 }, { "c", 2 } };
		n.trans["u"].out = { { "d", 1 }, { "e", 1 } };
		n.places["e"] = { 0, false };
		break;
	}
	return n;
}
static void build(Eng &e, World &w, const RefNet &n)
{
	for (auto &[name, p] : n.places)
		place(e, { name, p.tokens, p.input, [&w, s = "+" + name] { w.run(s); }, [&w, s = "-" + name] { w.run(s); } });
	for (auto &[name, t] : n.trans)
	{
		vector<ConditionFunction> c;
		for (auto &x : t.conds)
			c.push_back([&w, s = "?" + name + std::to_string(x.second)] { w.run(s); return w.open; });
		buildTransition(e, name, t, Build::CREATE, c);
	}
}
static RefNet current(const Eng &e, RefNet n)
{
	for (auto &[name, p] : n.places)
		p.tokens = e.getNumberOfTokens(name);
	return n;
}
static std::map<string, int> counts(const World &w)
{
	std::map<string, int> m;
	for (auto &s : w.log)
		if (s[0] != '?')
			++m[s];
	return m;
}

static const int OPS = 9;
static const char *OPNAME[] = { "execute", "inject a", "inject b", "inject d", "close conditions", "open conditions", "addArc/removeArc", "execute with logging", "another mode" };
static int apply(Eng &e, World &w, int op)
{
	w.threw = false;
	switch (op)
	{
	case 0: return outcome([&] { e.execute(); });
	case 1: return outcome([&] { e.incrementInputPlace("a"); });
	case 2: return outcome([&] { e.incrementInputPlace("b"); });
	case 3: return outcome([&] { e.incrementInputPlace("d"); });
	case 4: w.open = false; return 0;
	case 5: w.open = true; return 0;
	case 6:
		return outcome(
		[&]
		{
			e.addArc(arc("d", 9, AT::ACTIVATION, "t"));
			e.removeArc(arc("d", 9, AT::ACTIVATION, "t"));
			e.addArc(arc("d", 7, AT::INHIBITOR, "t"));
			e.removeArc(arc("d", 7, AT::INHIBITOR, "t"));
		});
	case 7:
	{
		std::ostringstream o;
		return outcome([&] { e.execute(true, o); });
	}
	case 8:
		return outcome(
		[&]
		{
			e.setActionsThreadOption(Mode::JOB_QUEUE);
			e.setActionsThreadOption(Mode::SINGLE_THREAD);
		});
	}
	return 0;
}

// The exception reaches the caller; if a condition threw, the marking is that of the firings before it.
static void throwOnce(Eng &e, World &w, const RefNet &n, int op, int at, int type)
{
	RefNet before = current(e, n);
	w.log.clear();
	w.countdown = at;
	w.type = type;
	int r = apply(e, w, op);
	const bool threw = w.threw;
	w.countdown = -1;
	MC_CHECK(r == (threw ? 1 : 0), "%s: %s throws: %s", OPNAME[op], w.who.c_str(),
			 r == 0 ? "swallowed" : r == 1 ? "thrown again" : r == 2 ? "PTN_Exception instead" : "another exception instead");
	MC_CHECK(!e.isEventLoopRunning(), "running after an exception");
	if (threw && w.who[0] == '?')
	{
		// firings so far, from the on-exit actions of an activation place of each transition
		RefNet m = before;
		auto c = counts(w);
		for (auto &[name, t] : n.trans)
		{
			// every on-exit action of one firing is run: any activation place of this transition alone tells
			string own;
			for (auto &a : t.in)
			{
				int users = 0;
				for (auto &[_, u] : n.trans)
					for (auto &b : u.in)
						users += b.place == a.place;
				if (users == 1)
					own = a.place;
			}
			MC_CHECK(!own.empty(), "harness: no place of its own");
			for (int i = 0; i < c["-" + own]; ++i)
				m.fire(name);
		}
		MC_CHECK(current(e, n).marking() == m.marking(), "condition %s threw: marking %s instead of %s", w.who.c_str(), current(e, n).marking().c_str(), m.marking().c_str());
	}
	mc::outcome("%s %s", OPNAME[op], threw ? w.who.c_str() : "nothing thrown");
}

// From now on the engine does what a fresh one with its marking does.
static void asFresh(Eng &e, World &w, const RefNet &n, int ops)
{
	RefNet now = current(e, n);
	World v;
	v.open = w.open;
	Eng f(Mode::SINGLE_THREAD);
	build(f, v, now);
	w.log.clear();
	string did;
	for (int i = 0; i < ops; ++i)
	{
		int op = mc::choose(OPS);
		did += OPNAME[op] + string(", ");
		int r = apply(e, w, op), s = apply(f, v, op);
		MC_CHECK(r == s, "after an exception, from %s: %s%d instead of %d", now.marking().c_str(), did.c_str(), r, s);
		string x = current(e, n).marking(), y = current(f, n).marking();
		MC_CHECK(x == y, "after an exception, from %s: %smarking %s instead of %s", now.marking().c_str(), did.c_str(), x.c_str(), y.c_str());
		MC_CHECK(counts(w) == counts(v), "after an exception, from %s: %sthe actions called differ", now.marking().c_str(), did.c_str());
		MC_CHECK(!e.isEventLoopRunning(), "running");
	}
	mc::state(std::hash<string>{}(now.marking() + did));
}

static const int CALLS = 16;
// One exception, then three operations.
static void once(int after)
{
	int c = mc::config(NETS * TYPES);
	RefNet n = net(c % NETS);
	static const int first[] = { 0, 7, 1, 2, 3 };
	int op = first[mc::choose(5)];
	int at = mc::choose(op == 0 ? CALLS : op == 7 ? 3 : 1);
	World w;
	Eng e(Mode::SINGLE_THREAD);
	build(e, w, n);
	throwOnce(e, w, n, op, at, c / NETS);
	asFresh(e, w, n, after);
}
MC_SCENARIO(once_then_three, { .p = 0, .pThorough = 0, .shards = 18 }) { once(3); }
MC_SCENARIO(once_then_four, { .p = 0, .pThorough = 0, .shards = 18, .thoroughOnly = true }) { once(4); }
// Several exceptions in a row.
MC_SCENARIO(several, { .p = 0, .pThorough = 0, .shards = 18 })
{
	int c = mc::config(NETS * TYPES);
	RefNet n = net(c % NETS);
	World w;
	Eng e(Mode::SINGLE_THREAD);
	build(e, w, n);
	for (int i = 0; i < 3; ++i)
	{
		int k = mc::choose(3 + 6);
		throwOnce(e, w, n, k < 3 ? 1 + k : 0, k < 3 ? 0 : k - 3, c / NETS);
	}
	asFresh(e, w, n, 1);
}
// The order in which transitions are tried varies as well.
MC_SCENARIO(orders, { .p = 0, .pThorough = 0, .shards = 6 })
{
	int c = mc::config(NETS);
	mc::seeds(3, 3);
	RefNet n = net(c);
	World w;
	Eng e(Mode::SINGLE_THREAD);
	build(e, w, n);
	throwOnce(e, w, n, 0, mc::choose(CALLS), 0);
	mc::seeds(1);
	asFresh(e, w, n, 2);
}
// Afterwards in another mode: actions, firings and requireNoActionsInExecution work as in a fresh engine.
MC_SCENARIO(other_modes, { .p = 1, .pThorough = 2, .shards = 18, .delayBounded = true })
{
	int c = mc::config(NETS * 3);
	RefNet n = net(c % NETS);
	Mode m = ASYNC[c / NETS];
	World w;
	Eng e(Mode::SINGLE_THREAD);
	build(e, w, n);
	int k = mc::choose(CALLS + 3);
	if (k < CALLS)
		throwOnce(e, w, n, 0, k, 1);
	else
		throwOnce(e, w, n, 1 + k - CALLS, 0, 1);
	RefNet now = current(e, n);
	w.log.clear();
	e.setActionsThreadOption(m);
	e.execute();
	mc::settle(1500);
	mc::quiesce();
	e.incrementInputPlace("a");
	mc::settle(1500);
	mc::quiesce();
	e.stop();
	mc::quiesce();
	std::set<string> want;
	std::map<string, int> wantActions;
	while (!now.fireable().empty())
	{
		auto t = now.fireable()[0];
		for (auto &a : now.trans[t].in)
			++wantActions["-" + a.place];
		for (auto &a : now.trans[t].out)
			++wantActions["+" + a.place];
		now.fire(t);
	}
	++now.places["a"].tokens;
	++wantActions["+a"];
	while (!now.fireable().empty())
	{
		auto t = now.fireable()[0];
		for (auto &a : now.trans[t].in)
			++wantActions["-" + a.place];
		for (auto &a : now.trans[t].out)
			++wantActions["+" + a.place];
		now.fire(t);
	}
	MC_CHECK(current(e, n).marking() == now.marking(), "%s: marking %s instead of %s", modeName(m), current(e, n).marking().c_str(), now.marking().c_str());
	MC_CHECK(counts(w) == wantActions, "%s: the actions called differ", modeName(m));
}
// Another thread uses the engine after an exception: nothing is left locked.
MC_SCENARIO(other_thread, { .p = 0, .pThorough = 1, .shards = 6 })
{
	int c = mc::config(NETS);
	RefNet n = net(c);
	World w;
	Eng e(Mode::SINGLE_THREAD);
	build(e, w, n);
	int k = mc::choose(CALLS + 3);
	if (k < CALLS)
		throwOnce(e, w, n, 0, k, 2);
	else
		throwOnce(e, w, n, 1 + k - CALLS, 0, 2);
	int op = mc::choose(8);
	std::thread(
	[&]
	{
		switch (op)
		{
		case 0: e.execute(); break;
		case 1: for (auto &[name, p] : n.places) if (p.input) e.incrementInputPlace(name); break;
		case 2: e.getPlacesProperties(); e.getTransitionsProperties(); break;
		case 3: e.clearNet(); break;
		case 4: e.addArc(arc("d", 3, AT::INHIBITOR, "t")); e.removeArc(arc("a", 1, AT::ACTIVATION, "t")); break;
		case 5: e.setActionsThreadOption(Mode::DETACHED); break;
		case 6: { std::ostringstream o; e.printState(o); break; }
		case 7: e.createPlace(PlaceProperties{ .name = "new" }); break;
		}
	}).join();
}
// An exception in a callback of an injection while other threads wait for the engine.
MC_SCENARIO(concurrent, { .p = 2, .pThorough = 3, .shards = 6 })
{
	int c = mc::config(6);
	World w;
	Eng e(Mode::SINGLE_THREAD);
	bool first = true;
	int thrown = 0;
	place(e, { "a", 0, true, [&] { bool f; { mc::Outside o; f = first; first = false; } if (f) throw Thrown{ 42 }; } });
	place(e, { "b", 0 });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, {}, (bool)(c & 1) });
	int r = 0;
	std::thread th([&] { r = outcome([&] { e.incrementInputPlace("a"); }); });
	int s = outcome([&] { if (c / 2 == 0) e.incrementInputPlace("a"); else if (c / 2 == 1) e.execute(); else e.getPlacesProperties(); });
	th.join();
	thrown = (r == 1) + (s == 1);
	MC_CHECK(thrown == 1 && r <= 1 && s <= 1, "%d and %d", r, s);
	size_t had = e.getNumberOfTokens("a") + e.getNumberOfTokens("b");
	MC_CHECK(had <= 2, "tokens");
	e.incrementInputPlace("a");
	e.execute();
	MC_CHECK(e.getNumberOfTokens("a") == 0 && e.getNumberOfTokens("b") == had + 1, "%ld and %ld tokens", tok(e, "a"), tok(e, "b"));
}
