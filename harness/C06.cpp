// Each firing and injection triggers each action exactly once, exits before enters (C06).
#include "featnet.h"
#include "refnet.h"

// Log of executed actions: a: 1 enter / 0 exit, b: place index. In trigger order: actions run synchronously, in
// order (JOB_QUEUE) or on threads created in trigger order (DETACHED).
static vector<std::pair<long, long>> logOf(Mode m, int from = 0)
{
	vector<mc::Event> v;
	for (int i = from; i < mc::events(); ++i)
		if (mc::at(i).kind == 5)
			v.push_back(mc::at(i));
	if (m == Mode::DETACHED)
		std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.thread < y.thread; });
	vector<std::pair<long, long>> r;
	for (auto &e : v)
		r.push_back({ e.a, e.b });
	return r;
}
static string text(const vector<std::pair<long, long>> &v)
{
	string s;
	for (auto &[a, b] : v)
		s += string(a ? "enter " : "exit ") + char('a' + b) + ", ";
	return s;
}
static ActionFunction act(int enter, int idx)
{
	return [=] { mc::note(5, enter, idx); };
}

// which: bit 0 enter, bit 1 exit; named: registered with the engine
static void actionPlace(Eng &e, int idx, size_t tokens, bool input, int which, bool named)
{
	PlaceProperties p;
	p.name = string(1, 'a' + idx);
	p.initialNumberOfTokens = tokens;
	p.input = input;
	if (named)
	{
		string en = "enter" + p.name, ex = "exit" + p.name;
		e.registerAction(en, act(1, idx));
		e.registerAction(ex, act(0, idx));
		if (which & 1)
			p.onEnterActionFunctionName = en;
		if (which & 2)
			p.onExitActionFunctionName = ex;
	}
	else
	{
		if (which & 1)
			p.onEnterAction = act(1, idx);
		if (which & 2)
			p.onExitAction = act(0, idx);
	}
	e.createPlace(p);
}

using Log = vector<std::pair<long, long>>;

// Checks that log consists of one block of triggers per firing: the exits in any order, then the enters in any order.
static void checkBlocks(Mode m, const Log &log, const vector<std::pair<std::multiset<long>, std::multiset<long>>> &firings, const char *what)
{
	size_t i = 0;
	int n = 0;
	for (auto &[ex, en] : firings)
	{
		++n;
		std::multiset<long> gx, ge;
		for (size_t k = 0; k < ex.size() && i < log.size() && log[i].first == 0; ++k)
			gx.insert(log[i++].second);
		for (size_t k = 0; k < en.size() && i < log.size() && log[i].first == 1; ++k)
			ge.insert(log[i++].second);
		MC_CHECK(gx == ex && ge == en, "%s: %s: firing %d: wrong actions (%zu exits and %zu enters expected): %s", modeName(m), what, n, ex.size(), en.size(),
				 text(log).c_str());
	}
	MC_CHECK(i == log.size(), "%s: %s: more actions than %d firings trigger: %s", modeName(m), what, n, text(log).c_str());
}

// One transition with up to three activation and destination arcs of any weights.
static void firing(Mode m, int build)
{
	static const size_t W[] = { 1, 2, 5 };
	Eng e(m);
	RefTrans t;
	std::multiset<long> ex, en;
	int which[4], in[4], out[4];
	size_t tokens[4];
	bool named = mc::choose(2);
	int shape = mc::choose(12); // which of a, b, c, d are activation / destination places
	static const int IN[] = { 0, 1, 1, 3, 3, 7, 7, 15, 1, 3, 5, 0 };
	static const int OUT[] = { 2, 0, 2, 4, 3, 8, 7, 15, 3, 6, 15, 7 };
	int wsel = mc::choose(3), acts = mc::choose(5);
	int firings = 1 + mc::choose(2);
	bool reset = IN[shape] && mc::choose(2);
	for (int i = 0; i < 4; ++i)
	{
		which[i] = acts == 0 ? 3 : acts == 1 ? 1 : acts == 2 ? 2 : acts == 3 ? (i & 1 ? 3 : 0) : (i & 1 ? 2 : 1);
		in[i] = IN[shape] >> i & 1;
		out[i] = OUT[shape] >> i & 1;
		size_t wi = W[(wsel + i) % 3], wo = wsel == 2 && in[i] ? wi : W[(wsel + 2 * i + 1) % 3];
		tokens[i] = in[i] ? wi * firings : i;
		string nm(1, 'a' + i);
		if (in[i])
		{
			t.in.push_back({ nm, reset && i == 0 ? 0 : wi });
			if (which[i] & 2)
				ex.insert(i);
		}
		if (out[i])
		{
			t.out.push_back({ nm, wo });
			if (which[i] & 1)
				en.insert(i);
		}
		actionPlace(e, i, tokens[i], false, which[i], named);
	}
	place(e, { "budget", (size_t)firings });
	place(e, { "fired" });
	t.in.insert(mc::choose(2) ? t.in.begin() : t.in.end(), RefArc{ "budget", 1 });
	t.out.push_back({ "fired", 1 });
	buildTransition(e, "t", t, Build(build), {});
	// disabled transitions, which must not trigger anything
	transition(e, { "never1", { { "a", 1 } }, { { "b", 1 } }, {}, { [] { return false; } } });
	transition(e, { "never2", { { "a", 1 }, { "d", 1000 } }, { { "b", 1 } } });
	transition(e, { "never3", { { "b", 1 } }, { { "a", 1 } }, { { "budget", 1 }, { "fired", 1 } } });
	e.execute();
	if (m != Mode::SINGLE_THREAD)
	{
		mc::quiesce();
		e.stop();
	}
	long f = tok(e, "fired");
	MC_CHECK(f == firings, "%s: fired %ld times and not %d", modeName(m), f, firings);
	vector<std::pair<std::multiset<long>, std::multiset<long>>> want(f, { ex, en });
	checkBlocks(m, logOf(m), want, "firing");
	mc::state(shape * 1000 + wsel * 100 + acts * 10 + firings);
}
MC_SCENARIO(firing_st, { .p = 0, .pThorough = 0, .shards = 5 }) { firing(Mode::SINGLE_THREAD, mc::config(BUILDS)); }
MC_SCENARIO(firing_el, { .p = 0, .pThorough = 0, .shards = 5 }) { firing(Mode::EVENT_LOOP, mc::config(BUILDS)); }
MC_SCENARIO(firing_jq, { .p = 0, .pThorough = 0, .shards = 5 }) { firing(Mode::JOB_QUEUE, mc::config(BUILDS)); }
MC_SCENARIO(firing_det, { .p = 0, .pThorough = 0, .shards = 5, .delayBounded = true }) { firing(Mode::DETACHED, mc::config(BUILDS)); }

// Two transitions in sequence and in conflict: blocks do not mix, each firing has its own.
static void sequence(Mode m)
{
	mc::seeds(3, 2);
	Eng e(m);
	int tokens = 1 + mc::choose(2);
	bool conflict = mc::choose(2);
	actionPlace(e, 0, tokens, false, 3, false);
	actionPlace(e, 1, 0, false, 3, false);
	actionPlace(e, 2, 0, false, 3, false);
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 }, { "c", 2 } } });
	transition(e, { "u", { { "b", 1 }, { "c", 1 } }, { { "c", 1 } } });
	if (conflict)
		transition(e, { "v", { { "a", 1 } }, { { "a", 1 }, { "b", 1 } }, { { "c", 1 }, { "b", 1 } } });
	e.execute();
	if (m != Mode::SINGLE_THREAD)
	{
		mc::quiesce();
		e.stop();
	}
	Log log = logOf(m);
	// parse: t = exit a, enter b c; u = exit b c, enter c; v = exit a, enter a b
	long a = tokens, b = 0, c = 0;
	size_t i = 0;
	while (i < log.size())
	{
		std::multiset<long> ex, en;
		while (i < log.size() && log[i].first == 0)
			ex.insert(log[i++].second);
		size_t n = ex.size() == 2 ? 1 : 2; // number of enters of this firing
		while (i < log.size() && log[i].first == 1 && en.size() < n)
			en.insert(log[i++].second);
		if (ex == std::multiset<long>{ 0 } && en == std::multiset<long>{ 1, 2 })
			--a, ++b, c += 2;
		else if (ex == std::multiset<long>{ 1, 2 } && en == std::multiset<long>{ 2 })
			--b;
		else if (conflict && ex == std::multiset<long>{ 0 } && en == std::multiset<long>{ 0, 1 })
			++b;
		else
			mc::fail("%s: not the actions of firings: %s", modeName(m), text(log).c_str());
	}
	MC_CHECK(a == tok(e, "a") && b == tok(e, "b") && c == tok(e, "c"), "%s: the actions do not match the marking: %s", modeName(m), text(log).c_str());
}
MC_SCENARIO(sequence_sync, { .p = 0, .pThorough = 1, .shards = 2 }) { sequence(mc::config(2) ? Mode::SINGLE_THREAD : Mode::EVENT_LOOP); }
MC_SCENARIO(sequence_jq, { .p = 0, .pThorough = 1 }) { sequence(Mode::JOB_QUEUE); }
MC_SCENARIO(sequence_det, { .p = 1, .pThorough = 2, .delayBounded = true }) { sequence(Mode::DETACHED); }

// Calls that trigger nothing, and injections, which trigger the on-enter action once.
static void calls(Mode m)
{
	Eng e(m);
	actionPlace(e, 0, 2, true, 3, true);
	actionPlace(e, 1, 3, false, 3, true);
	actionPlace(e, 2, SIZE_MAX, true, 3, true);
	transition(e, { "t", { { "a", 100 } }, { { "b", 1 } } });
	size_t want = 0, len = 3;
	for (size_t i = 0; i < len; ++i)
	{
		std::ostringstream o;
		switch (mc::choose(16))
		{
		case 0: e.incrementInputPlace("a"); want++; break;
		case 1: MC_CHECK(throws([&] { e.incrementInputPlace("b"); }) == 1, "injection into b accepted"); break;
		case 2: MC_CHECK(throws([&] { e.incrementInputPlace("nothing"); }) == 1, "injection accepted"); break;
		case 3: MC_CHECK(throws([&] { e.incrementInputPlace("c"); }) == 1, "overflow accepted"); break;
		case 4: e.getPlacesProperties(); e.getTransitionsProperties(); break;
		case 5: e.printState(o); e.getNumberOfTokens("a"); break;
		case 6: for (AT t : { AT::ACTIVATION, AT::INHIBITOR, AT::DESTINATION }) { e.addArc(arc("c", 1, t, "t")); e.removeArc(arc("c", 1, t, "t")); } break;
		case 7: throws([&] { e.removeArc(arc("b", 1, AT::DESTINATION, "t")); }); break;
		case 8: e.execute(); if (m != Mode::SINGLE_THREAD) mc::quiesce(); e.stop(); break;
		case 9: e.stop(); break;
		case 10: { PlaceProperties p; p.name = "new" + std::to_string(i); p.initialNumberOfTokens = 5; p.onEnterActionFunctionName = "entera"; p.onExitAction = act(0, 7); e.createPlace(p); break; }
		case 11: throws([&] { PlaceProperties p; p.name = "a"; p.initialNumberOfTokens = 5; p.onEnterAction = act(1, 7); e.createPlace(p); }); break;
		case 12: { Mode old = e.getActionsThreadOption(); e.setActionsThreadOption(old == Mode::EVENT_LOOP ? Mode::JOB_QUEUE : Mode::EVENT_LOOP); e.setActionsThreadOption(m); break; }
		case 13: e.setEventLoopSleepDuration(ms(5)); break;
		case 14: throws([&] { e.registerAction("entera", act(1, 8)); }); e.registerAction("x" + std::to_string(i), act(1, 8)); break;
		case 15: e.execute(); if (m != Mode::SINGLE_THREAD) { e.incrementInputPlace("a"); want++; mc::quiesce(); } e.stop(); break;
		}
		mc::quiesce();
		Log log = logOf(m);
		MC_CHECK(log == Log(want, { 1, 0 }), "%s: %zu injections but the actions are: %s", modeName(m), want, text(log).c_str());
	}
	e.clearNet();
	mc::quiesce();
	MC_CHECK(logOf(m).size() == want, "%s: clearing the net triggers actions", modeName(m));
}
MC_SCENARIO(calls_trigger, { .p = 0, .pThorough = 0, .shards = 4 }) { calls(ALLMODES[mc::config(4)]); }

// Concurrency: injections by two threads while the loop fires and the net is stopped; in the end every action of every
// injection and firing has been executed exactly once.
static void concurrent(Mode m, int variant)
{
	{
		Eng e(m);
		actionPlace(e, 0, 0, true, 3, false);
		actionPlace(e, 1, 0, false, 1, false);
		transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
		e.execute();
		std::thread t([&] { e.incrementInputPlace("a"); });
		e.incrementInputPlace("a");
		if (variant == 1)
			e.stop();
		t.join();
		if (variant == 2)
			e.stop();
		if (variant == 3)
		{
			e.stop();
			e.setActionsThreadOption(m == Mode::JOB_QUEUE ? Mode::DETACHED : Mode::JOB_QUEUE);
			e.incrementInputPlace("a");
		}
		mc::quiesce();
		long fired = tok(e, "b");
		std::map<std::pair<long, long>, long> cnt;
		for (auto &x : logOf(m))
			cnt[x]++;
		long inj = variant == 3 ? 3 : 2;
		long exits = cnt[{ 0, 0 }], ea = cnt[{ 1, 0 }], eb = cnt[{ 1, 1 }];
		MC_CHECK(ea == inj && exits == fired && eb == fired, "%s: %ld injections, %ld firings, but %ld + %ld enter and %ld exit actions executed",
				 modeName(m), inj, fired, ea, eb, exits);
		MC_CHECK(variant != 0 || fired == 2, "%ld firings", fired);
		mc::outcome("%ld firings", fired);
	}
}
MC_SCENARIO(concurrent_el, { .p = 2, .pThorough = 3, .shards = 4 }) { concurrent(Mode::EVENT_LOOP, mc::config(4)); }
MC_SCENARIO(concurrent_jq, { .p = 1, .pThorough = 2, .shards = 4 }) { concurrent(Mode::JOB_QUEUE, mc::config(4)); }
MC_SCENARIO(concurrent_det, { .p = 2, .pThorough = 3, .shards = 4, .delayBounded = true }) { concurrent(Mode::DETACHED, mc::config(4)); }

// Actions still pending when the net is stopped, cleared or the mode is changed are executed all the same.
static void pending(Mode m, int then)
{
	mc::Gate gate;
	std::atomic<int> first{ 0 };
	Eng e(m);
	place(e, { "a", 3, true, nullptr, [&] { if (!first++) gate.wait(); mc::event(5, 0, 0); } });
	place(e, { "b", 0, false, [] { mc::event(5, 1, 1); } });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
	e.execute();
	mc::quiesce();
	switch (then)
	{
	case 0: break;
	case 1: e.stop(); break;
	case 2: e.stop(); e.clearNet(); break;
	case 3: e.stop(); e.setActionsThreadOption(Mode::EVENT_LOOP); break;
	case 4: e.stop(); e.setActionsThreadOption(m == Mode::JOB_QUEUE ? Mode::DETACHED : Mode::JOB_QUEUE); e.incrementInputPlace("a"); e.execute(); break;
	case 5: e.stop(); e.setActionsThreadOption(Mode::SINGLE_THREAD); e.setActionsThreadOption(m); e.incrementInputPlace("a"); e.execute(); break;
	}
	gate.open();
	mc::quiesce();
	std::map<std::pair<long, long>, long> cnt;
	for (auto &x : logOf(m))
		cnt[x]++;
	int want = then >= 4 ? 4 : 3;
	MC_CHECK((cnt[{ 0, 0 }] == want && cnt[{ 1, 1 }] == want), "%s: variant %d: %d firings but %ld exit and %ld enter actions executed", modeName(m), then,
			 want, cnt[{ 0, 0 }], cnt[{ 1, 1 }]);
}
MC_SCENARIO(pending_actions, { .p = 1, .pThorough = 2, .shards = 6, .delayBounded = true })
{
	int then = mc::config(6);
	pending(mc::choose(2) ? Mode::JOB_QUEUE : Mode::DETACHED, then);
}

// Every combination of features of a transition and its places.
MC_SCENARIO(features, { .p = 0, .pThorough = 0, .shards = 8, .delayBounded = true })
{
	Feat f = chooseFeat();
	FeatNet n(f);
	n.run(f);
	long fired = tok(n.e, "fired");
	if (f.acts == 5)
	{
		// exits cannot be told from enters
		std::map<long, long> want, got;
		for (auto x : n.exits)
			want[x] += fired;
		for (auto x : n.enters)
			want[x] += fired;
		for (auto &x : logOf(f.m))
			got[x.second]++;
		MC_CHECK(want == got, "%s: %ld firings, but the actions are: %s", f.text().c_str(), fired, text(logOf(f.m)).c_str());
	}
	else
		checkBlocks(f.m, logOf(f.m), vector<std::pair<std::multiset<long>, std::multiset<long>>>(fired, { n.exits, n.enters }), f.text().c_str());
	MC_CHECK(fired == f.firings, "%s: %ld firings", f.text().c_str(), fired);
}
