// Concurrent injections are atomic: tokens are neither lost nor invented (C10).
#include "refnet.h"
#include <atomic>

// The reference net with the injections to come as further transitions.
static RefNet withInjections(RefNet n, const std::map<string, int> &inj)
{
	for (auto &[p, k] : inj)
	{
		n.places["~" + p].tokens = k;
		RefTrans t;
		t.in = { { "~" + p, 1 } };
		t.out = { { p, 1 } };
		n.trans["~" + p] = t;
	}
	return n;
}
static std::set<string> finalMarkings(const RefNet &n, const std::map<string, int> &inj)
{
	std::set<string> r;
	for (auto &s : withInjections(n, inj).finals())
		r.insert(s.substr(0, s.find('~')));
	return r;
}
// All values one place can be seen to have, also between the token movements of one firing.
static std::set<long> values(const RefNet &n, const std::map<string, int> &inj, const string &p)
{
	std::set<long> r;
	std::set<string> seen;
	vector<RefNet> todo{ withInjections(n, inj) };
	seen.insert(todo[0].marking());
	while (!todo.empty())
	{
		RefNet x = todo.back();
		todo.pop_back();
		r.insert((long)x.places.at(p).tokens);
		for (auto &t : x.fireable())
		{
			for (auto &a : x.trans.at(t).in)
				if (a.place == p)
					r.insert(a.w == 0 ? 0 : (long)(x.places.at(p).tokens - a.w));
			RefNet m = x;
			m.fire(t);
			if (seen.insert(m.marking()).second)
				todo.push_back(m);
		}
	}
	return r;
}

static RefPlace rp(size_t tokens, bool input = false)
{
	RefPlace p;
	p.tokens = tokens;
	p.input = input;
	return p;
}
static RefTrans rt(vector<RefArc> in, vector<RefArc> out, vector<RefArc> inh = {}, bool noAct = false)
{
	RefTrans t;
	t.in = in;
	t.out = out;
	t.inh = inh;
	t.noAct = noAct;
	return t;
}
// A family of small nets with the input places a and b; c, d, e are internal.
static const int NETS = 10;
static RefNet net(int k)
{
	RefNet n;
	n.places = { { "a", rp(0, true) }, { "b", rp(0, true) }, { "c", rp(0) }, { "d", rp(0) } };
	switch (k)
	{
	case 0: n.trans = { { "t", rt({ { "a", 1 } }, { { "c", 1 } }) } }; break;
	case 1: n.trans = { { "t", rt({ { "a", 2 } }, { { "c", 1 } }) } }; break;
	case 2: n.trans = { { "t", rt({ { "a", 1 } }, { { "c", 1 } }) }, { "u", rt({ { "a", 2 } }, { { "d", 1 } }) } }; break;
	case 3: n.trans = { { "t", rt({ { "a", 1 }, { "b", 1 } }, { { "c", 1 } }) } }; break;
	case 4: n.trans = { { "t", rt({ { "a", 1 } }, { { "b", 1 } }) }, { "u", rt({ { "b", 2 } }, { { "c", 1 } }) } }; break;
	case 5: n.trans = { { "t", rt({ { "a", 1 } }, { { "c", 1 } }, { { "b", 1 } }) } }; break;
	case 6: n.places["c"].tokens = 2; n.trans = { { "t", rt({ { "a", 1 }, { "c", 1 } }, { { "a", 1 }, { "d", 1 } }) } }; break;
	case 7: n.trans = { { "t", rt({ { "a", 0 }, { "b", 1 } }, { { "c", 1 } }) } }; break;
	case 8: n.places["a"].tokens = 1; n.trans = { { "t", rt({ { "a", 1 } }, { { "b", 1 } }, {}, true) }, { "u", rt({ { "b", 1 } }, { { "c", 3 } }) } }; break;
	case 9: n.places["a"].tokens = 3; n.trans = { { "t", rt({ { "a", 3 } }, { { "a", 1 }, { "c", 1 } }) } }; break;
	}
	if (k % 2) // further input places nobody injects into
		n.places["f"] = rp(1, true), n.places["g"] = rp(0, true), n.places["h"] = rp(2);
	return n;
}
static void buildNet(Eng &e, const RefNet &n, const std::map<string, ActionFunction> &enter = {}, const std::map<string, ActionFunction> &exit = {})
{
	for (auto &[name, p] : n.places)
		place(e, { name, p.tokens, p.input, enter.count(name) ? enter.at(name) : nullptr, exit.count(name) ? exit.at(name) : nullptr });
	for (auto &[name, t] : n.trans)
		buildTransition(e, name, t, Build::MIXED, {});
}
static void checkFinal(const Eng &e, Mode m, int k, const RefNet &n, const std::map<string, int> &inj)
{
	string got = engineMarking(e);
	mc::Outside o;
	string key = std::to_string(k);
	for (auto &[p, c] : inj)
		key += p + std::to_string(c);
	auto &want = memo(0, key, [&] { return finalMarkings(n, inj); });
	for (auto &w : want)
		mc::state(std::hash<string>{}(w));
	MC_CHECK(want.count(got), "%s: net %d: final marking %s cannot be reached by any order of the injections and firings", modeName(m), k, got.c_str());
	mc::outcome("net %d %s", k, got.c_str());
}

// Threads injecting while the loop runs; kind: which places.
static void inject(Mode m, int k, int kind)
{
	mc::seeds(2, 1);
	RefNet n = net(k);
	std::map<string, int> inj = kind == 0 ? std::map<string, int>{ { "a", 2 } } : kind == 1 ? std::map<string, int>{ { "a", 1 }, { "b", 1 } } : std::map<string, int>{ { "a", 3 } };
	Eng e(m);
	buildNet(e, n);
	e.execute();
	{
		std::thread th([&] { e.incrementInputPlace(kind == 1 ? "b" : "a"); if (kind == 2) e.incrementInputPlace("a"); });
		e.incrementInputPlace("a");
		th.join();
	}
	mc::quiesce();
	if (n.trans.count("t") && n.trans.at("t").noAct)
	{
		mc::settle(100);
		mc::quiesce();
	}
	checkFinal(e, m, k, n, inj);
	e.stop();
}
MC_SCENARIO(two_injectors_el, { .p = 2, .pThorough = 3, .shards = NETS * 2 })
{
	int c = mc::config(NETS * 2);
	inject(Mode::EVENT_LOOP, c / 2, c % 2);
}
MC_SCENARIO(three_tokens, { .p = 1, .pThorough = 2, .shards = NETS })
{
	int c = mc::config(NETS);
	inject(ASYNC[mc::choose(3)], c, 2);
}

// As above, with asynchronous actions that inject as well (JOB_QUEUE, DETACHED).
static void injectActions(Mode m, int k)
{
	RefNet n = net(k);
	std::atomic<int> left{ 1 };
	Eng e(m);
	auto again = [&] { if (left-- > 0) e.incrementInputPlace("a"); };
	buildNet(e, n, { { "c", again } }, { { "b", again } });
	// the action runs only if c is entered or b left
	e.execute();
	{
		std::thread th([&] { e.incrementInputPlace("b"); });
		e.incrementInputPlace("a");
		th.join();
	}
	mc::quiesce();
	mc::settle(100);
	mc::quiesce();
	std::map<string, int> inj = { { "a", 1 + (left < 1) }, { "b", 1 } };
	checkFinal(e, m, k, n, inj);
	e.stop();
	mc::quiesce();
}
MC_SCENARIO(injecting_actions_jq, { .p = 2, .pThorough = 3, .shards = NETS, .delayBounded = true }) { injectActions(Mode::JOB_QUEUE, mc::config(NETS)); }
MC_SCENARIO(injecting_actions_det, { .p = 2, .pThorough = 3, .shards = NETS, .delayBounded = true }) { injectActions(Mode::DETACHED, mc::config(NETS)); }

// Engine not running, and SINGLE_THREAD executions meanwhile.
static void stopped(int kind)
{
	Eng e(ALLMODES[kind % 4]);
	std::atomic<int> n{ 0 };
	bool acts = kind / 4 % 2;
	place(e, { "a", 5, true, acts ? ActionFunction([&] { ++n; }) : nullptr });
	place(e, { "b", 0, true });
	std::thread t1([&] { e.incrementInputPlace("a"); e.incrementInputPlace("a"); });
	std::thread t2([&] { e.incrementInputPlace("a"); });
	e.incrementInputPlace("b");
	e.incrementInputPlace("a");
	t1.join();
	t2.join();
	MC_CHECK(tok(e, "a") == 9 && tok(e, "b") == 1, "%s: a %ld b %ld after 4 + 1 injections", modeName(ALLMODES[kind % 4]), tok(e, "a"), tok(e, "b"));
	mc::quiesce();
	MC_CHECK(n == (acts ? 4 : 0), "%d actions", (int)n);
}
MC_SCENARIO(not_running, { .p = 2, .pThorough = 3, .shards = 8 }) { stopped(mc::config(8)); }
MC_SCENARIO(single_thread, { .p = 2, .pThorough = 3, .shards = NETS * 2 })
{
	int c = mc::config(NETS * 2);
	RefNet n = net(c / 2);
	Eng e(Mode::SINGLE_THREAD);
	buildNet(e, n);
	std::thread t1([&] { e.incrementInputPlace("a"); if (c % 2) e.execute(); });
	std::thread t2([&] { e.incrementInputPlace("b"); });
	e.execute();
	e.incrementInputPlace("a");
	t1.join();
	t2.join();
	e.execute();
	checkFinal(e, Mode::SINGLE_THREAD, c / 2, n, { { "a", 2 }, { "b", 1 } });
}

// Every count seen at any time is one the place can have; a place that is only entered never shrinks.
static void observe(Mode m, int k)
{
	RefNet n = net(k);
	std::map<string, int> inj = { { "a", 1 }, { "b", 1 } };
	Eng e(m);
	buildNet(e, n);
	e.execute();
	std::thread th([&] { e.incrementInputPlace("a"); });
	std::thread ob(
	[&]
	{
		long before = 0;
		for (int i = 0; i < 2; ++i)
		{
			long c = tok(e, "c"), a = tok(e, "a");
			mc::Outside o;
			if (k != 6)
				MC_CHECK(c >= before, "%s: net %d: c seen to shrink from %ld to %ld", modeName(m), k, before, c);
			before = c;
			auto &va = memo(1, "a" + std::to_string(k), [&] { return values(n, inj, "a"); });
			auto &vc = memo(1, "c" + std::to_string(k), [&] { return values(n, inj, "c"); });
			MC_CHECK(va.count(a), "%s: net %d: %ld tokens seen in a", modeName(m), k, a);
			MC_CHECK(vc.count(c), "%s: net %d: %ld tokens seen in c", modeName(m), k, c);
		}
	});
	e.incrementInputPlace("b");
	th.join();
	ob.join();
	mc::quiesce();
	mc::settle(100);
	mc::quiesce();
	checkFinal(e, m, k, n, inj);
	e.stop();
}
MC_SCENARIO(observed_counts, { .p = 1, .pThorough = 2, .shards = NETS }) { observe(Mode::EVENT_LOOP, mc::config(NETS)); }
MC_SCENARIO(observed_properties, { .p = 2, .pThorough = 3, .shards = 4 })
{
	int k = mc::config(4);
	RefNet n = net(k == 0 ? 0 : k == 1 ? 4 : k == 2 ? 6 : 9);
	k = k == 0 ? 0 : k == 1 ? 4 : k == 2 ? 6 : 9;
	std::map<string, int> inj = { { "a", 2 } };
	Eng e(Mode::EVENT_LOOP);
	buildNet(e, n);
	e.execute();
	e.incrementInputPlace("a");
	std::thread ob(
	[&]
	{
		auto v = e.getPlacesProperties();
		mc::Outside o;
		MC_CHECK(v.size() == n.places.size(), "%zu places reported", v.size());
		for (auto &p : v)
			MC_CHECK(memo(1, p.name, [&] { return values(n, inj, p.name); }).count((long)p.initialNumberOfTokens), "net %d: %zu tokens reported for %s", k, p.initialNumberOfTokens, p.name.c_str());
	});
	e.incrementInputPlace("a");
	ob.join();
	mc::quiesce();
	checkFinal(e, Mode::EVENT_LOOP, k, n, inj);
}

// Injections while the loop is being stopped and started again.
MC_SCENARIO(while_restarting, { .p = 2, .pThorough = 3, .shards = 9 })
{
	int c = mc::config(9);
	static const int K[] = { 0, 1, 4 };
	int k = K[c / 3];
	Mode m = ASYNC[c % 3];
	RefNet n = net(k);
	Eng e(m);
	buildNet(e, n);
	e.execute();
	std::thread th([&] { e.incrementInputPlace("a"); });
	e.incrementInputPlace("a");
	e.stop();
	e.execute();
	th.join();
	mc::quiesce();
	checkFinal(e, m, k, n, { { "a", 2 } });
}

// A full place: of two concurrent injections into a place with room for one, exactly one is accepted.
MC_SCENARIO(room_for_one, { .p = 3, .pThorough = 4, .shards = 8 })
{
	int c = mc::config(8);
	Mode m = ALLMODES[c % 4];
	std::atomic<int> n{ 0 }, failed{ 0 }, over{ 0 };
	Eng e(m);
	place(e, { "a", SIZE_MAX - 1, true, c / 4 ? ActionFunction([&] { ++n; }) : nullptr });
	auto inj = [&]
	{
		try
		{
			e.incrementInputPlace("a");
		}
		catch (const OverflowException &)
		{
			++over;
		}
		catch (...)
		{
			++failed;
		}
	};
	if (m != Mode::SINGLE_THREAD)
		e.execute();
	std::thread th(inj);
	inj();
	th.join();
	MC_CHECK(over == 1 && failed == 0 && e.getNumberOfTokens("a") == SIZE_MAX, "%s: %d overflows, %zu tokens", modeName(m), (int)over, e.getNumberOfTokens("a"));
	mc::quiesce();
	MC_CHECK(n == (c / 4 ? 1 : 0), "%d actions", (int)n);
}

// A synchronous on-enter action in progress in one thread while others inject into the same and other places.
MC_SCENARIO(slow_sync_action, { .p = 2, .pThorough = 3, .shards = 2 })
{
	int c = mc::config(2);
	Mode m = c ? Mode::EVENT_LOOP : Mode::SINGLE_THREAD;
	RefNet n = net(4);
	int in = 0, acts = 0;
	Eng e(m);
	// actions of one place, entered once per injection and once per firing: never overlapping in one place
	auto slow = [&] { MC_CHECK(++in == 1, "%s: two on-enter actions of one place at once", modeName(m)); ++acts; mc::mark(); --in; };
	buildNet(e, n, { { "b", slow } });
	if (c)
		e.execute();
	std::thread t1([&] { e.incrementInputPlace("b"); });
	e.incrementInputPlace("a");
	t1.join();
	if (!c)
		e.execute();
	mc::quiesce();
	checkFinal(e, m, 4, n, { { "a", 1 }, { "b", 1 } });
	MC_CHECK(acts == 2, "%d actions", acts);
	e.stop();
}
