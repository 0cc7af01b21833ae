// Free choice: every resolution of a conflict can happen (C05). The outcomes of the random source are enumerated:
// N pseudo-random streams are fed to the library one after the other, and the orders that result are collected.
#include "refnet.h"
#include <algorithm>

static size_t factorial(int n) { return n <= 1 ? 1 : n * factorial(n - 1); }

static const char *const NAMES[4][12] = {
	{ "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l" },
	{ "z9", "z8", "z7", "z6", "z5", "z4", "z3", "z2", "z1", "z0", "y9", "y8" },
	{ "transition with a rather long name 1", "t", "T", "transition with a rather long name 2", "u", "0", " ", "%d", "AA", "Aa", "aA", "aa" },
	{ "t1", "t10", "t2", "t20", "t3", "t30", "t4", "t40", "t5", "t50", "t6", "t60" },
};
static void complain(const char *what, int n, int seeds, const std::set<string> &got, size_t want)
{
	string s;
	int i = 0;
	for (auto &g : got)
		if (++i < 30)
			s += g + " | ";
	mc::fail("%s: %d transitions: only %zu of %zu orders are possible with %d outcomes of the random source: %s", what, n, got.size(), want, seeds,
			 s.c_str());
}

// n independent transitions, fireable for several passes: for every pass every order occurs.
static void orders(int n, int names, int extra, int passes, int seeds)
{
	mc::maxSteps(1000000000);
	vector<std::set<string>> seen(passes), pairs(passes);
	for (int s = 0; s < seeds; ++s)
	{
		mc::fixSeed(s);
		vector<int> log;
		Eng e(Mode::SINGLE_THREAD);
		place(e, { "none" });
		place(e, { "some", 1 });
		for (int i = 0; i < n; ++i)
		{
			place(e, { "p" + std::to_string(i), (size_t)passes });
			place(e, { "f" + std::to_string(i), 0, false, [&log, i] { log.push_back(i); } });
		}
		for (int i = 0; i < n; ++i)
		{
			if (extra & 1)
				transition(e, { "x" + std::to_string(i), { { "none", 1 } }, {} });
			T t{ n > 12 ? "t" + std::to_string(i) : NAMES[names][i], { { "p" + std::to_string(i), 1 } }, { { "f" + std::to_string(i), 1 } } };
			if ((extra & 2) && i % 2)
				t.conds = { [] { return true; } };
			if ((extra & 2) && i % 3 == 0)
				t.inh = { { "none", 1 } };
			transition(e, t);
			if (extra & 4)
				transition(e, { "y" + std::to_string(i), { { "p" + std::to_string(i), 1 } }, {}, { { "some", 1 } } });
		}
		e.execute();
		MC_CHECK((int)log.size() == n * passes, "%zu firings instead of %d", log.size(), n * passes);
		for (int k = 0; k < passes; ++k)
		{
			string o;
			for (int i = 0; i < n; ++i)
				o += string(1, char(n > 12 ? 1 + log[k * n + i] : 'A' + log[k * n + i]));
			for (int i = 0; i < n; ++i)
				for (int j = i + 1; j < n; ++j)
					pairs[k].insert({ o[i], o[j] });
			pairs[k].insert(string("first ") + o[0]);
			pairs[k].insert(string("last ") + o[n - 1]);
			if (n <= 12)
				seen[k].insert(o);
			mc::state(std::hash<string>{}(o) + k);
		}
	}
	for (int k = 0; k < passes; ++k)
		if (n <= 5)
		{
			if (seen[k].size() != factorial(n))
				complain(("pass " + std::to_string(k + 1)).c_str(), n, seeds, seen[k], factorial(n));
		}
		else
		{
			size_t want = n * (n - 1) + 2 * n;
			if (pairs[k].size() != want)
				complain(("pass " + std::to_string(k + 1) + ", pairs").c_str(), n, seeds, pairs[k], want);
		}
	mc::outcome("n=%d %zu orders", n, seen[0].size());
}
MC_SCENARIO(orders234, { .p = 0, .pThorough = 0, .shards = 12 })
{
	int c = mc::config(12);
	int n = 2 + c % 3, names = c / 3;
	orders(n, names, mc::choose(8), 3, n == 2 ? 48 : n == 3 ? 160 : 600);
}
MC_SCENARIO(orders5, { .p = 0, .pThorough = 0, .shards = 4 }) { orders(5, mc::config(4), 0, 2, 2600); }
MC_SCENARIO(orders_many, { .p = 0, .pThorough = 0, .shards = 6 })
{
	int c = mc::config(6);
	orders(6 + c, c % 4, 0, 2, 400);
}

MC_SCENARIO(orders_big, { .p = 0, .pThorough = 0, .shards = 3 })
{
	int c = mc::config(3);
	orders(c == 0 ? 20 : c == 1 ? 35 : 50, 0, 0, 2, c == 0 ? 300 : c == 1 ? 450 : 600);
}

// Every order of n transitions, collected over the passes of several long runs.
static void allOrders(int n, int streams, int passes)
{
	mc::maxSteps(1000000000000);
	std::set<string> seen;
	for (int s = 0; s < streams; ++s)
	{
		mc::fixSeed(s);
		string log;
		log.reserve((size_t)n * passes);
		Eng e(Mode::SINGLE_THREAD);
		for (int i = 0; i < n; ++i)
		{
			place(e, { "p" + std::to_string(i), (size_t)passes, false, nullptr, [&log, i] { log += char('A' + i); } });
			transition(e, { "t" + std::to_string(i), { { "p" + std::to_string(i), 1 } }, {} });
		}
		e.execute();
		mc::Outside o;
		MC_CHECK(log.size() == (size_t)n * passes, "%zu firings instead of %d", log.size(), n * passes);
		for (int k = 0; k < passes; ++k)
			seen.insert(log.substr((size_t)k * n, n));
	}
	if (seen.size() != factorial(n))
		complain("long runs", n, streams * passes, seen, factorial(n));
	mc::outcome("n=%d %zu orders", n, seen.size());
}
MC_SCENARIO(orders6, { .p = 0, .pThorough = 0 }) { allOrders(6, 5, 4000); }
MC_SCENARIO(orders7, { .p = 0, .pThorough = 0 }) { allOrders(7, 24, 5000); }
MC_SCENARIO(orders8, { .p = 0, .pThorough = 0, .thoroughOnly = true }) { allOrders(8, 100, 10000); }

// Three transitions of which two differ from the others in some respect: still every order occurs.
static const int KINDS = 18;
static T kind(Eng &e, int k, const string &i, int passes, const ActionFunction &log)
{
	const string p = "p" + i, q = "q" + i, f = "f" + i;
	const size_t n = passes;
	P pp{ p, n }, qq{ q, n };
	T t{ "t" + i, { { p, 1 } }, { { f, 1 } } };
	auto yes = [] { return true; };
	switch (k)
	{
	case 0: break;
	case 1: t.noActions = true; break;
	case 2: t.in = { { p, 1 }, { q, 1 }, { "many", 1 }, { "plenty", 2 } }; break;
	case 3: t.in = { { p, 500 } }; pp.tokens = 500 * n; break;
	case 4: t.inh = { { "none", 1 }, { "none2", 1 } }; break;
	case 5: t.conds = { yes }; break;
	case 6: t.conds = { yes, yes, yes }; break;
	case 7: t.out = { { f, 1 }, { "d", 1 }, { "d2", 7 } }; break;
	case 8: t.in = { { p, 1 }, { "many", 1 } }; t.out = { { f, 1 }, { "many", 1 } }; break;
	case 9: pp.input = true; break;
	case 10: pp.enter = pp.exit = [] {}; break;
	case 11: pp.tokens = n + 100000; t.in = { { p, 1 }, { q, 1 } }; break;
	case 12: t.name = "a very long name of a transition which does not fit into any small buffer " + i; break;
	case 13: t.out = { { f, 10 } }; break;
	case 14: t.noActions = true; t.conds = { yes }; t.inh = { { "none", 1 } }; break;
	default: break;
	}
	place(e, pp);
	place(e, qq);
	place(e, { f, 0, false, log });
	if (k == 15) // a named condition
	{
		e.registerCondition("c" + i, yes);
		TransitionProperties tp;
		tp.name = t.name;
		tp.activationArcs = { arc(p) };
		tp.destinationArcs = { arc(f) };
		tp.additionalConditionsNames = { "c" + i };
		e.createTransition(tp);
	}
	else
		transition(e, t);
	if (k == 16) // a reset arc
		e.addArc(arc("none", 0, ArcProperties::Type::ACTIVATION, t.name));
	if (k == 17)
	{
		e.addArc(arc(q, 1, ArcProperties::Type::ACTIVATION, t.name));
		e.addArc(arc("many", 3, ArcProperties::Type::BIDIRECTIONAL, t.name));
	}
	return t;
}
static void mixed(int k1, int k2, int pos, bool compete, int seeds)
{
	const int passes = 2;
	vector<std::set<string>> seen(passes);
	for (int s = 0; s < seeds; ++s)
	{
		mc::fixSeed(s);
		mc::maxSteps(100000000);
		string log;
		Eng e(Mode::SINGLE_THREAD);
		for (auto *n : { "none", "none2", "d", "d2" })
			place(e, { n });
		for (auto *n : { "many", "plenty" })
			place(e, { n, 1000 });
		place(e, { "token", passes - 1, false });
		for (int i = 0; i < 3; ++i)
		{
			string id = std::to_string(i);
			T t = kind(e, i == pos ? k1 : i == (pos + 1) % 3 ? k2 : 0, id, compete ? 1 : passes, [&log, i] { log += 'A' + i; });
			if (compete)
				e.addArc(arc("token", 1, AT::ACTIVATION, t.name));
		}
		e.execute();
		MC_CHECK((int)log.size() == (compete ? passes - 1 : 3 * passes), "%zu firings", log.size());
		if (compete)
			seen[0].insert(log);
		else
			for (int k = 0; k < passes; ++k)
				seen[k].insert(log.substr(k * 3, 3));
		mc::state(std::hash<string>{}(log));
	}
	string what = "kinds " + std::to_string(k1) + " and " + std::to_string(k2) + " at " + std::to_string(pos);
	if (compete && seen[0].size() != 3)
		complain((what + " competing").c_str(), 3, seeds, seen[0], 3);
	if (!compete)
		for (int k = 0; k < passes; ++k)
			if (seen[k].size() != 6)
				complain((what + ", pass " + std::to_string(k + 1)).c_str(), 3, seeds, seen[k], 6);
}
MC_SCENARIO(mixed_kinds, { .p = 0, .pThorough = 0, .shards = 6 })
{
	int c = mc::config(6), k1 = mc::choose(KINDS), k2 = mc::choose(KINDS);
	mixed(k1, k2, c % 3, c >= 3, c >= 3 ? 40 : 110);
}

// n transitions compete for one token, again and again in the same run: every sequence of winners occurs.
static void winners(int n, int names, int rounds, int seeds, int how)
{
	std::set<string> seen;
	mc::maxSteps(1000000000);
	size_t want = 1;
	for (int i = 0; i < rounds; ++i)
		want *= n;
	for (int s = 0; s < seeds; ++s)
	{
		mc::fixSeed(s);
		string log;
		Eng e(Mode::SINGLE_THREAD);
		place(e, { "a", how == 2 ? 0u : 1u, true });
		place(e, { "b" });
		place(e, { "c" });
		place(e, { "budget", (size_t)rounds - 1 });
		for (int i = 0; i < n; ++i)
			place(e, { "f" + std::to_string(i), 0, false, [&log, i] { log += 'A' + i; } });
		for (int i = 0; i < n; ++i)
		{
			T t{ NAMES[names][i], { { "a", 1 } }, { { "b", 1 }, { "f" + std::to_string(i), 1 } } };
			if (how == 1) // excluded by an inhibitor arc rather than by the missing token
				t = { NAMES[names][i], {}, { { "c", 1 }, { "f" + std::to_string(i), 1 } }, { { "c", 1 } } };
			transition(e, t);
		}
		if (how == 1)
			transition(e, { "return", { { "c", 1 }, { "budget", 1 } }, {} });
		else if (how == 0)
			transition(e, { "return", { { "b", 1 }, { "budget", 1 } }, { { "a", 1 } } });
		if (how == 2) // one run per round
			for (int i = 0; i < rounds; ++i)
			{
				e.incrementInputPlace("a");
				e.execute();
			}
		else
			e.execute();
		MC_CHECK((int)log.size() == rounds, "%zu rounds", log.size());
		seen.insert(log);
		mc::state(std::hash<string>{}(log));
	}
	if (seen.size() != want)
		complain(how == 0 ? "competing for a token" : how == 1 ? "inhibiting each other" : "competing in separate runs", n, seeds, seen, want);
}
MC_SCENARIO(winners2, { .p = 0, .pThorough = 0, .shards = 4 }) { winners(2, mc::config(4), 5, 700, mc::choose(3)); }
MC_SCENARIO(winners3, { .p = 0, .pThorough = 0, .shards = 4 }) { winners(3, mc::config(4), 3, 700, mc::choose(3)); }
MC_SCENARIO(winners7, { .p = 0, .pThorough = 0, .shards = 4 }) { winners(7, mc::config(4), 2, 1000, mc::choose(3)); }

// The same with the event loop: n transitions compete in many passes of one run.
static void loop(Mode m, int n, int names)
{
	mc::fixSeed(11 + names);
	mc::maxSteps(10000000);
	string log;
	Eng e(m);
	const int rounds = 600;
	place(e, { "a", 1 });
	place(e, { "b" });
	place(e, { "budget", rounds - 1 });
	for (int i = 0; i < n; ++i)
		place(e, { "f" + std::to_string(i), 0, false, m == Mode::EVENT_LOOP ? ActionFunction([&log, i] { log += 'A' + i; }) : nullptr });
	for (int i = 0; i < n; ++i)
		transition(e, { NAMES[names][i], { { "a", 1 } }, { { "b", 1 }, { "f" + std::to_string(i), 1 } } });
	transition(e, { "return", { { "b", 1 }, { "budget", 1 } }, { { "a", 1 } } });
	e.execute();
	mc::quiesce();
	e.stop();
	for (int i = 0; i < n; ++i)
		MC_CHECK(tok(e, "f" + std::to_string(i)) > 0, "%s: %d of %d competing transitions never fires in %d rounds", modeName(m), i, n, rounds);
	if (m == Mode::EVENT_LOOP)
	{
		std::set<string> tri; // every two consecutive winners
		for (int i = 0; i + 1 < rounds; ++i)
			tri.insert(log.substr(i, 2));
		if ((int)tri.size() != n * n)
			complain("consecutive winners in the event loop", n, 1, tri, n * n);
	}
}
MC_SCENARIO(loop_modes, { .p = 0, .pThorough = 0, .shards = 4 })
{
	int names = mc::config(4);
	loop(ASYNC[mc::choose(3)], 2 + mc::choose(5), names);
}
