// SINGLE_THREAD execution runs the net to quiescence and no further (C02).
#include "neutral.h"
#include "refnet.h"

// A net under test together with its reference: every firing is logged by on-enter actions of a place per transition.
struct Net
{
	RefNet ref;
	Eng e{ Mode::SINGLE_THREAD };
	vector<string> order;
	std::map<int, bool> cv;
	std::function<void(const string &)> onFire = [](const string &) {};

	void build()
	{
		for (auto &[name, t] : ref.trans)
		{
			ref.places["fired_" + name].tokens = 0;
			t.out.push_back({ "fired_" + name, 1 });
		}
		for (auto &[name, p] : ref.places)
		{
			ActionFunction f = nullptr;
			if (name.rfind("fired_", 0) == 0)
				f = [this, t = name.substr(6)]
				{
					order.push_back(t);
					onFire(t);
				};
			place(e, { name, p.tokens, p.input, f });
		}
		for (auto &[name, t] : ref.trans)
		{
			vector<ConditionFunction> conds;
			for (auto &c : t.conds)
				conds.push_back([this, id = c.second] { return cv[id]; });
			buildTransition(e, name, t, Build::CREATE, conds);
		}
	}
	bool cond(int i) { return cv[i]; }
	// Replays what happened since the last call in the reference and compares; cvs: values at the time of each firing.
	void execute(const string &what)
	{
		order.clear();
		auto before = cv;
		auto apply = onFire;
		e.execute();
		auto after = cv;
		cv = before;
		auto c = [this](int i) { return cond(i); };
		string how;
		for (auto &t : order)
		{
			how += t + " ";
			MC_CHECK(ref.enabled(t, c), "%s: %s fired but may not in %s (%s)", what.c_str(), t.c_str(), ref.marking().c_str(), how.c_str());
			ref.fire(t);
			mc::state(ref.hash());
			apply(t);
		}
		cv = after;
		string got = engineMarking(e);
		MC_CHECK(got == ref.marking(), "%s: after %s the marking is %s and not %s", what.c_str(), how.c_str(), got.c_str(), ref.marking().c_str());
		auto f = ref.fireable(c);
		MC_CHECK(f.empty(), "%s: execute() returned although %s may fire in %s (after %s)", what.c_str(), f.empty() ? "" : f[0].c_str(), got.c_str(), how.c_str());
		MC_CHECK(!e.isEventLoopRunning(), "%s: running after execute()", what.c_str());
	}
	void inject(const string &p)
	{
		e.incrementInputPlace(p);
		ref.places[p].tokens++;
	}
};

// Transitions over three places, from a menu that cannot run forever; injections and executions in any sequence.
static void shape(RefTrans &t, int s)
{
	switch (s)
	{
	case 0: t.in = { { "a", 1 } }; t.out = { { "b", 1 } }; break;
	case 1: t.in = { { "a", 2 } }; t.out = { { "c", 1 } }; break;
	case 2: t.in = { { "b", 1 } }; t.out = { { "c", 2 } }; break;
	case 3: t.in = { { "b", 1 }, { "a", 1 } }; break;
	case 4: t.in = { { "a", 1 } }; t.inh = { { "b", 1 } }; break;
	case 5: t.in = { { "b", 2 } }; t.inh = { { "c", 1 } }; t.out = { { "c", 1 } }; break;
	case 6: t.in = { { "c", 2 } }; break;
	case 7: t.in = { { "c", 1 } }; t.inh = { { "a", 1 }, { "b", 1 } }; break;
	}
}
static const int SHAPES = 8;
static void nets(int count, int steps, int seeds, int calls, int menu)
{
	Net n;
	vector<int> sets; // subsets of the menu with count elements
	for (int s = 0; s < 1 << menu; ++s)
		if (__builtin_popcount(s) == count)
			sets.push_back(s);
	int set = sets[mc::config(sets.size())];
	for (int i = 0, c = 0; i < menu; ++i)
		if (set >> i & 1)
			shape(n.ref.trans[string(1, 't' + c++)], i);
	n.ref.places["a"] = { (size_t)mc::choose(3), true };
	n.ref.places["b"] = { (size_t)mc::choose(2), true };
	n.ref.places["c"] = { 0, false };
	n.build();
	mc::seeds(seeds, calls);
	n.execute("1");
	for (int i = 0; i < steps; ++i)
	{
		switch (mc::choose(3))
		{
		case 0: n.inject("a"); break;
		case 1: n.inject("b"); break;
		case 2: n.inject("a"); n.inject("a"); break;
		}
		n.execute(std::to_string(i + 2));
	}
	mc::outcome("%s", n.ref.marking().c_str());
}
MC_SCENARIO(nets2, { .p = 0, .pThorough = 0, .shards = 8 }) { nets(2, 2, 2, 4, SHAPES); }
MC_SCENARIO(nets3, { .p = 0, .pThorough = 0, .shards = 8 }) { nets(3, 1, 3, 3, SHAPES); }
MC_SCENARIO(nets4, { .p = 0, .pThorough = 0, .shards = 8 }) { nets(4, 0, 4, 3, SHAPES); }

// Chains: transition i is only enabled by i-1; conditions opened or closed by earlier firings.
MC_SCENARIO(chain, { .p = 0, .pThorough = 0, .shards = 6 })
{
	int len = 1 + mc::config(6);
	int perm = mc::choose(3); // names in ascending, descending or mixed order
	int tokens = 1 + mc::choose(2);
	int inj = mc::choose(2);
	mc::seeds(2, 6);
	Net n;
	auto nm = [&](int i) { return string(1, perm == 0 ? 'a' + i : perm == 1 ? 'z' - i : 'a' + (i * 5) % 7); };
	for (int i = 0; i <= len; ++i)
		n.ref.places["p" + nm(i)] = { i == 0 && !inj ? (size_t)tokens : 0, true };
	for (int i = 0; i < len; ++i)
	{
		n.ref.trans[nm(i)].in = { { "p" + nm(i), 1 } };
		n.ref.trans[nm(i)].out = { { "p" + nm(i + 1), 1 } };
	}
	n.build();
	n.execute("first");
	if (inj)
		for (int i = 0; i < tokens; ++i)
			n.inject("p" + nm(i));
	n.execute("second");
	n.inject("p" + nm(len / 2));
	n.execute("third");
}

// Firings open and close conditions of other transitions.
MC_SCENARIO(conditions, { .p = 0, .pThorough = 0, .shards = 4 })
{
	Net n;
	int eff = mc::config(4);
	mc::seeds(3, 4);
	n.ref.places["a"].tokens = 1 + mc::choose(2);
	n.ref.places["b"].tokens = mc::choose(3);
	n.ref.places["c"].tokens = mc::choose(2);
	n.ref.trans["x"].in = { { "a", 1 } };
	n.ref.trans["y"].in = { { "b", 1 } };
	n.ref.trans["y"].out = { { "c", 1 } };
	n.ref.trans["y"].conds = { { "", 1 } };
	n.ref.trans["z"].in = { { "c", 1 } };
	n.ref.trans["z"].conds = { { "", 2 } };
	n.cv[1] = mc::choose(2);
	n.cv[2] = mc::choose(2);
	n.onFire = [&n, eff](const string &t)
	{
		if (t == "x")
			n.cv[eff & 1 ? 1 : 2] = true;
		if (t == "y")
			n.cv[2] = eff >= 2 ? !n.cv[2] : true;
		if (t == "z" && eff == 3)
			n.cv[1] = false;
	};
	n.build();
	n.execute("first");
	n.cv[1] = !n.cv[1];
	n.execute("flip 1");
	n.cv[2] = !n.cv[2];
	n.execute("flip 2");
	n.cv[1] = n.cv[2] = true;
	n.execute("both");
}

// Many firings in one run, of one transition and of a cycle.
MC_SCENARIO(many_passes, { .p = 0, .pThorough = 0, .shards = 4 })
{
	static const size_t N[] = { 100, 1000, 5000, 70000 };
	size_t k = N[mc::config(4)];
	bool cycle = mc::choose(2);
	mc::maxSteps(100000000);
	size_t fired = 0, back = 0;
	Eng e(Mode::SINGLE_THREAD);
	place(e, { "budget", k });
	place(e, { "a", 1 });
	place(e, { "b", 0, false, [&] { ++fired; } });
	place(e, { "c", 0, false, [&] { ++back; } });
	transition(e, { "t", cycle ? Arcs{ { "budget", 1 }, { "a", 1 } } : Arcs{ { "budget", 1 } }, { { "b", 1 } } });
	if (cycle)
		transition(e, { "u", { { "b", 1 } }, { { "a", 1 }, { "c", 1 } } });
	e.execute();
	MC_CHECK(fired == k && tok(e, "budget") == 0, "only %zu of %zu firings", fired, k);
	MC_CHECK(!cycle || (back == k && tok(e, "c") == (long)k), "only %zu of %zu firings back", back, k);
	MC_CHECK(!e.isEventLoopRunning(), "running");
}

// Firings that leave the marking as it was.
MC_SCENARIO(neutral, { .p = 0, .pThorough = 0 })
{
	mc::seeds(3, 2);
	Neutral n(Mode::SINGLE_THREAD);
	n.e.execute();
	n.check();
	MC_CHECK(n.where == 2 || n.n == n.k, "%d polls instead of %d", n.n, n.k);
}

// Ways of having nothing to do: an empty net, places only, transitions that are disabled; and the mode set afterwards.
MC_SCENARIO(nothing, { .p = 0, .pThorough = 0 })
{
	int how = mc::choose(5);
	Eng e(mc::choose(2) ? Mode::SINGLE_THREAD : Mode::JOB_QUEUE);
	e.setActionsThreadOption(Mode::SINGLE_THREAD);
	if (how >= 1)
		place(e, { "p", 1 });
	if (how == 2)
		transition(e, { "t", { { "p", 2 } }, {} });
	if (how == 3)
		transition(e, { "t", { { "p", 1 } }, {}, {}, { [] { return false; } } });
	if (how == 4)
		transition(e, { "t", {}, {}, { { "p", 1 } } });
	for (int i = 0; i < 2; ++i)
	{
		e.execute();
		MC_CHECK(!e.isEventLoopRunning(), "running");
		MC_CHECK(how == 0 || tok(e, "p") == 1, "tokens changed");
	}
	MC_CHECK(mc::threadsCreated() == 0, "a thread was created");
}

// Another thread injects while execute() runs: afterwards one more execute() leaves nothing fireable, and no token is lost.
MC_SCENARIO(concurrent, { .p = 2, .pThorough = 3 })
{
	Eng e(Mode::SINGLE_THREAD);
	place(e, { "in", 1, true });
	place(e, { "mid" });
	place(e, { "out" });
	transition(e, { "t", { { "in", 1 } }, { { "mid", 1 } } });
	transition(e, { "u", { { "mid", 1 } }, { { "out", 1 } } });
	std::thread th(
		[&]
		{
			e.incrementInputPlace("in");
			e.incrementInputPlace("in");
		});
	e.execute();
	MC_CHECK(tok(e, "mid") == 0 && tok(e, "out") >= 1, "not quiescent");
	th.join();
	e.execute();
	MC_CHECK(tok(e, "in") == 0 && tok(e, "mid") == 0 && tok(e, "out") == 3, "in %ld mid %ld out %ld", tok(e, "in"), tok(e, "mid"), tok(e, "out"));
}

// Two threads execute the same net at the same time.
MC_SCENARIO(two_executes, { .p = 2, .pThorough = 3 })
{
	mc::seeds(2);
	Eng e(Mode::SINGLE_THREAD);
	place(e, { "a", 2 });
	place(e, { "b" });
	place(e, { "c" });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
	transition(e, { "u", { { "b", 2 } }, { { "c", 1 } } });
	std::thread th([&] { e.execute(); MC_CHECK(tok(e, "c") == 1, "other thread: not quiescent"); });
	e.execute();
	MC_CHECK(tok(e, "c") == 1 && tok(e, "a") == 0 && tok(e, "b") == 0, "not quiescent");
	th.join();
}

// Hundreds of transitions that can fire at the same time, each one several times or followed by another.
MC_SCENARIO(hundreds, { .p = 0, .pThorough = 0, .shards = 6 })
{
	static const int N[] = { 32, 64, 100, 128, 255, 256, 257, 300, 512, 1000 };
	const int n = N[mc::config(10)], len = 1 + mc::choose(3), tokens = 1 + mc::choose(2);
	mc::maxSteps(100000000);
	mc::seeds(2, 1);
	Eng e(Mode::SINGLE_THREAD);
	auto nm = [](int i, int k) { return std::to_string(i) + "_" + std::to_string(k); };
	for (int i = 0; i < n; ++i)
	{
		place(e, { nm(i, 0), (size_t)tokens });
		for (int k = 0; k < len; ++k)
		{
			place(e, { nm(i, k + 1) });
			transition(e, { "t" + nm(i, k), { { nm(i, k), 1 } }, { { nm(i, k + 1), 1 } } });
		}
	}
	e.execute();
	for (int i = 0; i < n; ++i)
		for (int k = 0; k <= len; ++k)
			MC_CHECK(tok(e, nm(i, k)) == (k == len ? tokens : 0), "%d chains of %d: %ld tokens in place %d of chain %d", n, len, tok(e, nm(i, k)), k, i);
}
