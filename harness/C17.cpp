// Introspection and state output report the engine's actual state (C17).
#include "refnet.h"
#include "xml.h"
#include <iostream>

// The reports in the text: place name -> number of tokens, in order.
using Report = std::map<string, size_t>;
static vector<Report> reports(const string &text)
{
	vector<Report> v;
	std::istringstream in(text);
	string line;
	while (std::getline(in, line))
	{
		if (line == "Place; Tokens")
		{
			v.push_back({});
			continue;
		}
		if (line.empty())
			continue;
		MC_CHECK(!v.empty(), "state output without header:\n%s", text.c_str());
		auto p = line.rfind(": ");
		MC_CHECK(p != string::npos, "state output: line \"%s\"", line.c_str());
		string name = line.substr(0, p), num = line.substr(p + 2);
		MC_CHECK(!num.empty() && num.find_first_not_of("0123456789") == string::npos, "state output: line \"%s\"", line.c_str());
		MC_CHECK(!v.back().count(name), "state output: %s twice", name.c_str());
		v.back()[name] = std::stoull(num);
	}
	return v;
}
static string text(const Report &r)
{
	string s;
	for (auto &[n, t] : r)
		s += n + "=" + std::to_string(t) + " ";
	return s;
}
static string printed(const Eng &e)
{
	std::ostringstream o;
	e.printState(o);
	auto v = reports(o.str());
	MC_CHECK(v.size() == 1, "printState wrote %d reports", (int)v.size());
	return text(v[0]);
}
static void same(const Eng &e, const RefNet &n, Probe &pr, const char *when)
{
	string want = snapshot(n, true), got = snapshot(e, &pr);
	MC_CHECK(got == want, "%s: the engine reports\n%sinstead of\n%s", when, got.c_str(), want.c_str());
	MC_CHECK(printed(e) == n.marking(), "%s: printState reports %s instead of %s", when, printed(e).c_str(), n.marking().c_str());
}

// ---- all of a net's properties -----------------------------------------------------------------------------------
// Every combination of a place's and a transition's properties.
static RefPlace makePlace(int c, int base)
{
	RefPlace p;
	p.tokens = c % 3 == 2 ? SIZE_MAX - base : c % 3;
	p.input = c / 3 % 2;
	int en = c / 6 % 3, ex = c / 18 % 3; // none, anonymous, named
	p.enterId = en ? base + 1 : -1;
	p.exitId = ex ? base + 2 : -1;
	p.enterName = en == 2 ? "act" + std::to_string(base + 1) : "";
	p.exitName = ex == 2 ? "act" + std::to_string(base + 2) : "";
	return p;
}
static const int PLACES = 54;
static void addPlace(Eng &e, Probe &pr, const string &name, const RefPlace &p)
{
	PlaceProperties q;
	q.name = name;
	q.initialNumberOfTokens = p.tokens;
	q.input = p.input;
	for (auto [n, id, f, fn] : { std::tuple<const string &, int, ActionFunction &, string &>(p.enterName, p.enterId, q.onEnterAction, q.onEnterActionFunctionName),
								  std::tuple<const string &, int, ActionFunction &, string &>(p.exitName, p.exitId, q.onExitAction, q.onExitActionFunctionName) })
	{
		if (!n.empty())
		{
			throws([&] { e.registerAction(n, pr.act(id)); });
			fn = n;
		}
		else if (id >= 0)
			f = pr.act(id);
	}
	e.createPlace(q);
}
static RefTrans makeTrans(int c)
{
	RefTrans t;
	t.noAct = c & 1;
	int conds = c / 2 % 5, arcs = c / 10;
	for (int i = 0; i < conds % 3; ++i)
		t.conds.push_back({ conds < 3 ? "" : "cond" + std::to_string(30 + i), 30 + i });
	if (conds == 4)
		t.conds.push_back({ "cond30", 30 });
	const size_t W[] = { 1, 2, SIZE_MAX };
	if (arcs & 1)
		t.in.push_back({ "a", W[c % 3] });
	if (arcs & 2)
		t.in.push_back({ "b", c % 2 ? 0 : W[1] });
	if (arcs & 4)
		t.out.push_back({ "b", W[c / 2 % 3] });
	if (arcs & 8)
		t.out.insert(t.out.begin(), { "a", W[0] });
	if (arcs & 16)
		t.inh.push_back({ "a", W[c / 3 % 3] });
	if (arcs & 32)
		t.inh.push_back({ "b", 7 });
	return t;
}
static const int TRANS = 640;
static void addTrans(Eng &e, Probe &pr, const string &name, const RefTrans &t, Build b)
{
	vector<ConditionFunction> f;
	vector<string> names;
	for (auto &[n, id] : t.conds)
		if (n.empty())
			f.push_back(pr.cond(id));
		else
		{
			throws([&] { e.registerCondition(n, pr.cond(id)); });
			names.push_back(n);
		}
	buildTransition(e, name, t, b, f, names);
}
MC_SCENARIO(properties_of_places, { .p = 0, .pThorough = 0, .shards = 8 })
{
	int c = mc::config(PLACES * 4);
	Probe pr;
	for (int d = 0; d < PLACES; ++d)
	{
		RefNet n;
		n.places["a"] = makePlace(c % PLACES, 0);
		n.places["b"] = makePlace(d, 10);
		Eng e(ALLMODES[c / PLACES]);
		addPlace(e, pr, "b", n.places["b"]);
		addPlace(e, pr, "a", n.places["a"]);
		same(e, n, pr, "places");
	}
}
MC_SCENARIO(properties_of_transitions, { .p = 0, .pThorough = 0, .shards = 8 })
{
	int c = mc::config(TRANS);
	Probe pr;
	for (int b = 0; b < BUILDS; ++b)
		for (int d : { 0, c * 7 % TRANS, c * 101 % TRANS, TRANS - 1 })
		{
			// weights of SIZE_MAX cannot be increased for the detour
			RefNet n;
			n.places["a"].tokens = 1;
			n.places["b"].tokens = 2;
			n.trans["t"] = makeTrans(c);
			n.trans["u"] = makeTrans(d);
			Eng e(ALLMODES[(c + b) % 4]);
			place(e, { "a", 1 });
			place(e, { "b", 2 });
			bool top = false;
			for (auto &[_, t] : n.trans)
				for (auto *v : { &t.in, &t.out, &t.inh })
					for (auto &a : *v)
						top |= a.w == SIZE_MAX;
			Build bb = Build(b) == Build::DETOUR && top ? Build::ADD : Build(b);
			addTrans(e, pr, "u", n.trans["u"], bb);
			addTrans(e, pr, "t", n.trans["t"], bb);
			same(e, n, pr, "transitions");
		}
}

// Many conditions and arcs of one transition; many places and transitions.
MC_SCENARIO(many_properties, { .p = 0, .pThorough = 0, .shards = 4 })
{
	Mode m = ALLMODES[mc::config(4)];
	const int size = mc::choose(14), kind = mc::choose(3); // kind: anonymous conditions, named, many transitions
	static const int BIG[] = { 60, 300 };
	Probe pr;
	RefNet n;
	Eng e(m);
	const int k = size < 12 ? size : BIG[size - 12];
	auto id = [](int i) { return std::to_string(i * 37 % 311); };
	for (int i = 0; i < std::max(k, 1); ++i)
	{
		auto &p = n.places["p" + id(i)];
		p.tokens = i;
		p.input = i % 2;
		if (i % 3 == 0)
			p.enterId = 1000 + i;
		if (i % 4 == 0)
			p.exitId = 2000 + i;
		addPlace(e, pr, "p" + id(i), p);
	}
	if (kind == 2)
		for (int i = 0; i < k; ++i)
		{
			auto &t = n.trans["t" + id(i)];
			t = makeTrans(i % 10); // no arcs
			for (int j = 0; j < i % 5; ++j)
				t.in.push_back({ "p" + id((i + j) % k), size_t(i % 2 * j) });
			t.out.push_back({ "p" + id(i), size_t(i + 1) });
			if (i % 3)
				t.inh.push_back({ "p" + id(i / 2), size_t(i + 2) });
			std::sort(t.in.begin(), t.in.end());
			t.in.erase(std::unique(t.in.begin(), t.in.end(), [](auto &x, auto &y) { return x.place == y.place; }), t.in.end());
			addTrans(e, pr, "t" + id(i), t, Build(i % 4));
		}
	else
	{
		auto &t = n.trans["t"];
		for (int i = 0; i < k; ++i)
		{
			t.conds.push_back({ kind ? "cond" + std::to_string(i) : "", i });
			t.in.push_back({ "p" + id(i), size_t(i) });
			t.out.push_back({ "p" + id(i), size_t(i + 1) });
			t.inh.push_back({ "p" + id(i), size_t(i + 2) });
		}
		addTrans(e, pr, "t", t, Build(k % BUILDS));
	}
	same(e, n, pr, "many");
	e.setActionsThreadOption(ALLMODES[(size + 1) % 4]);
	same(e, n, pr, "many, after a change of the mode");
}

// ---- what is returned is current, and is what the net calls ----------------------------------------------------
// The functions reported, called by hand, are the ones the net calls.
MC_SCENARIO(functions_called, { .p = 0, .pThorough = 0, .shards = 4 })
{
	int c = mc::config(4 * 81);
	Mode m = c / 81 == 3 ? Mode::EVENT_LOOP : Mode::SINGLE_THREAD;
	int named = c % 81; // for each of four places' functions, one of the conditions: anonymous / own name / common name
	vector<int> log;
	Eng e(m);
	auto act = [&](int id) { return [&log, id] { log.push_back(id); }; };
	auto cond = [&](int id) { return [&log, id] { log.push_back(id); return true; }; };
	e.registerAction("common", act(0));
	e.registerCondition("common", cond(1));
	std::map<string, int> want;
	auto put = [&](int k, int id, string &name, ActionFunction &f)
	{
		if (k == 0)
			f = act(id);
		else
			name = k == 1 ? "own" + std::to_string(id) : "common";
		if (k == 1)
			e.registerAction(name, act(id));
		return k == 2 ? 0 : id;
	};
	PlaceProperties a, b;
	a.name = "a";
	a.initialNumberOfTokens = 1;
	b.name = "b";
	want["a enter"] = put(named % 3, 10, a.onEnterActionFunctionName, a.onEnterAction);
	want["a exit"] = put(named / 3 % 3, 11, a.onExitActionFunctionName, a.onExitAction);
	want["b enter"] = put(named / 9 % 3, 12, b.onEnterActionFunctionName, b.onEnterAction);
	b.input = true;
	e.createPlace(a);
	e.createPlace(b);
	TransitionProperties t;
	t.name = "t";
	t.activationArcs = { arc("a") };
	t.destinationArcs = { arc("b") };
	int k = named / 27;
	if (k == 0)
		t.additionalConditions = { cond(20), cond(21) };
	else if (k == 1)
	{
		e.registerCondition("own20", cond(20));
		e.registerCondition("own21", cond(21));
		t.additionalConditionsNames = { "own20", "own21" };
	}
	else
		t.additionalConditionsNames = { "common", "common" };
	e.createTransition(t);
	if (c / 81 == 1)
		e.setActionsThreadOption(Mode::EVENT_LOOP), e.setActionsThreadOption(m);
	// the functions reported
	auto id = [&](auto f) { log.clear(); f(); MC_CHECK(log.size() == 1, "one call"); return log[0]; };
	std::map<string, PlaceProperties> ps;
	for (auto &p : e.getPlacesProperties())
		ps[p.name] = p;
	MC_CHECK(id(ps["a"].onEnterAction) == want["a enter"] && id(ps["a"].onExitAction) == want["a exit"] && id(ps["b"].onEnterAction) == want["b enter"],
			 "actions reported");
	auto ts = e.getTransitionsProperties();
	vector<int> conds;
	for (auto &f : ts.at(0).additionalConditions)
		conds.push_back(id(f));
	vector<int> wantConds = k == 2 ? vector<int>{ 1, 1 } : vector<int>{ 20, 21 };
	MC_CHECK(conds == wantConds && ts[0].additionalConditionsNames.size() == 2, "conditions reported");
	// the functions called
	log.clear();
	e.execute();
	if (m != Mode::SINGLE_THREAD)
	{
		mc::quiesce();
		e.stop();
	}
	vector<int> run{ wantConds[0], wantConds[1], want["a exit"], want["b enter"] };
	MC_CHECK(log == run, "called: %d functions, first %d", (int)log.size(), log.empty() ? -1 : log[0]);
	log.clear();
	e.incrementInputPlace("b");
	MC_CHECK(log == vector<int>{ want["b enter"] }, "called on injection");
}

// Current token counts after every step of a run.
MC_SCENARIO(current_counts, { .p = 0, .pThorough = 1, .shards = 4 })
{
	Mode m = ALLMODES[mc::config(4)];
	Probe pr;
	RefNet n;
	n.places["a"] = { 2, true };
	n.places["b"] = { 0, true };
	n.places["c"] = { 0, false };
	n.trans["t"].in = { { "a", 2 }, { "b", 1 } };
	n.trans["t"].out = { { "c", 3 } };
	n.trans["u"].in = { { "c", 2 } };
	n.trans["u"].inh = { { "b", 1 } };
	Eng e(m);
	for (auto &[name, p] : n.places)
		place(e, { name, p.tokens, p.input });
	for (auto &[name, t] : n.trans)
		buildTransition(e, name, t, Build::CREATE, {});
	same(e, n, pr, "built");
	for (int i = 0; i < 3; ++i)
	{
		int k = mc::choose(4);
		if (k < 2)
		{
			e.incrementInputPlace(k ? "a" : "b");
			++n.places[k ? "a" : "b"].tokens;
		}
		else
		{
			auto f = n.finals();
			MC_CHECK(f.size() == 1, "harness: deterministic net");
			if (m == Mode::SINGLE_THREAD || !e.isEventLoopRunning())
				e.execute();
			mc::quiesce();
			auto v = reports("Place; Tokens\n");
			while (!n.fireable().empty())
				n.fire(n.fireable()[0]);
			if (k == 3)
				e.stop();
		}
		if (m != Mode::SINGLE_THREAD && e.isEventLoopRunning())
		{
			mc::quiesce();
			while (!n.fireable().empty())
				n.fire(n.fireable()[0]);
		}
		same(e, n, pr, "after a step");
	}
}

// printState with any names.
MC_SCENARIO(print_names, { .p = 0, .pThorough = 0 })
{
	const vector<string> N{ "a", " ", "a: 5", "Place; Tokens!", "<x>", string(500, 'y'), "\xc3\xa9", "%s", "0" };
	int c = mc::config((int)N.size());
	for (auto &y : N)
	{
		RefNet n;
		n.places[N[c]].tokens = 3;
		n.places[y].tokens = SIZE_MAX;
		n.places["z"].tokens = 0;
		Eng e(Mode::SINGLE_THREAD);
		for (auto &[name, p] : n.places)
			place(e, { name, p.tokens });
		Probe pr;
		same(e, n, pr, "names");
		e.clearNet();
		MC_CHECK(printed(e).empty() && e.getPlacesProperties().empty() && e.getTransitionsProperties().empty(), "not empty after clearNet()");
	}
}

// Records what is written, piece by piece, into the log of the execution.
struct Recorder : std::streambuf
{
	string all;
	int xsync = 0;
	std::streamsize xsputn(const char *s, std::streamsize n) override
	{
		all.append(s, n);
		return n;
	}
	int overflow(int c) override
	{
		if (c != EOF)
			all.push_back((char)c);
		return 0;
	}
};

// ---- logging -------------------------------------------------------------------------------------------------
// What one pass may do: every transition fires at most once. Checks the sequence of reports of one run.
static bool reachableInOnePass(const RefNet &n, const string &to, const RefNet::Cond &cond)
{
	std::function<bool(const RefNet &, std::set<string>)> go = [&](const RefNet &m, std::set<string> used)
	{
		if (m.marking() == to)
			return true;
		for (auto &t : m.fireable(cond))
			if (!used.count(t))
			{
				RefNet x = m;
				x.fire(t);
				auto u = used;
				u.insert(t);
				if (go(x, u))
					return true;
			}
		return false;
	};
	return go(n, {});
}
static void checkLog(const string &log, const RefNet &n, const string &final, const char *what, const RefNet::Cond &cond = RefNet::allTrue)
{
	auto v = reports(log);
	MC_CHECK(!v.empty(), "%s: nothing logged", what);
	MC_CHECK(text(v[0]) == n.marking(), "%s: the first report is %s instead of %s", what, text(v[0]).c_str(), n.marking().c_str());
	RefNet m = n;
	for (size_t i = 1; i < v.size(); ++i)
	{
		if (text(v[i]) == m.marking())
			continue;
		mc::Outside o;
		MC_CHECK(reachableInOnePass(m, text(v[i]), cond), "%s: from %s one pass does not lead to %s (report %d)", what, m.marking().c_str(),
				 text(v[i]).c_str(), (int)i);
		for (auto &[name, t] : v[i])
			m.places[name].tokens = t;
	}
	MC_CHECK(m.marking() == final, "%s: the last report is %s instead of %s", what, m.marking().c_str(), final.c_str());
}
static RefNet logNet(int k)
{
	RefNet n;
	auto chain = [&](size_t tokens)
	{
		n.places["a"].tokens = tokens;
		n.places["b"].tokens = 0;
		n.places["c"].tokens = 0;
		n.trans["t"].in = { { "a", 1 } };
		n.trans["t"].out = { { "b", 1 } };
		n.trans["u"].in = { { "b", 1 } };
		n.trans["u"].out = { { "c", 2 } };
	};
	switch (k)
	{
	case 0: n.places["a"].tokens = 0; n.places["b"].tokens = 1; n.trans["t"].in = { { "a", 1 } }; break;
	case 1: n.places["a"].tokens = 3; n.places["b"].tokens = 0; n.trans["t"].in = { { "a", 1 } }; n.trans["t"].out = { { "b", 1 } }; break;
	case 2: chain(1); break;
	case 3: chain(3); break;
	case 4: chain(2); n.trans["w"].in = { { "a", 2 } }; n.trans["w"].out = { { "c", 1 } }; break;
	case 5: chain(2); n.trans["w"].in = { { "c", 3 } }; n.trans["w"].out = { { "a", 1 } }; n.trans["w"].inh = { { "b", 1 } }; break;
	case 6: break; // no places at all
	case 7: n.places["a"].tokens = 2; break;
	case 8: chain(1); n.trans["t"].conds.push_back({ "", 1 }); break;
	case 9: n.places["a"].tokens = SIZE_MAX; n.places["b"].tokens = SIZE_MAX - 1; n.trans["t"].in = { { "a", SIZE_MAX } }; n.trans["t"].out = { { "b", 1 } }; break;
	}
	for (auto &p : n.places)
		p.second.input = true;
	return n;
}
static const int LOGNETS = 10;
static void buildNet(Eng &e, const RefNet &n, const RefNet::Cond &cond = RefNet::allTrue)
{
	for (auto &[name, p] : n.places)
		place(e, { name, p.tokens, p.input });
	for (auto &[name, t] : n.trans)
	{
		vector<ConditionFunction> c;
		for (auto &x : t.conds)
			c.push_back([cond, id = x.second] { return cond(id); });
		buildTransition(e, name, t, Build::CREATE, c);
	}
}
MC_SCENARIO(log_single_thread, { .p = 0, .pThorough = 0 })
{
	int c = mc::config(LOGNETS * 2);
	mc::seeds(4, 3);
	auto cond = [&](int) { return c >= LOGNETS; };
	RefNet n = logNet(c % LOGNETS);
	Eng e(Mode::SINGLE_THREAD);
	buildNet(e, n, cond);
	std::ostringstream o, quiet, more;
	auto *old = std::cout.rdbuf(quiet.rdbuf());
	e.execute(true, o);
	string final = engineMarking(e);
	MC_CHECK(n.finals(cond).count(final), "ends in %s", final.c_str());
	checkLog(o.str(), n, final, "execute(true, o)", cond);
	mc::outcome("%d reports", (int)reports(o.str()).size());
	string first = o.str();
	e.execute(false, o);
	e.execute(false);
	e.execute();
	MC_CHECK(o.str() == first, "logged without being asked to");
	MC_CHECK(quiet.str().empty(), "wrote to std::cout without logging: %s", quiet.str().c_str());
	e.execute(true); // logs to std::cout by default
	std::cout.rdbuf(old);
	RefNet end = n;
	for (auto &[name, p] : end.places)
		p.tokens = e.getNumberOfTokens(name);
	checkLog(quiet.str(), end, final, "execute(true)", cond);
	MC_CHECK(o.str() == first, "logged to the previous stream");
	e.execute(true, more);
	checkLog(more.str(), end, final, "execute(true, o) once again", cond);
}
// Exactly one report per pass: a condition that is never true is evaluated once in each.
MC_SCENARIO(log_once_per_pass, { .p = 0, .pThorough = 1, .shards = 2 })
{
	Mode m = mc::config(2) ? Mode::EVENT_LOOP : Mode::SINGLE_THREAD;
	int k = mc::choose(LOGNETS);
	mc::seeds(3, 3);
	RefNet n = logNet(k);
	Recorder rec;
	std::ostream o(&rec);
	int evals = 0;
	string bad;
	auto count = [&]
	{
		int c = 0;
		for (size_t p = 0; (p = rec.all.find("Place; Tokens", p)) != string::npos; ++p)
			++c;
		return c;
	};
	Eng e(m);
	buildNet(e, n, [](int) { return true; });
	transition(e, { "probe", {}, {}, {}, { [&] { mc::Outside out; ++evals; if (count() != evals) bad += "x"; return false; } } });
	for (int i = 0; i < 2; ++i)
	{
		e.execute(true, o);
		if (m != Mode::SINGLE_THREAD)
		{
			mc::settle(250);
			e.stop();
		}
		MC_CHECK(bad.empty() && count() == evals, "%s: net %d: %d reports in %d passes", modeName(m), k, count(), evals);
		if (n.places.count("a") && k != 9)
			e.incrementInputPlace("a");
	}
	static const int PASSES[] = { 1, 4, 0, 0, 0, 0, 1, 1, 0, 2 };
	if (m == Mode::SINGLE_THREAD && PASSES[k])
	{
		std::ostringstream x;
		Eng f(m);
		buildNet(f, n, [](int) { return true; });
		f.execute(true, x);
		MC_CHECK((int)reports(x.str()).size() == PASSES[k], "net %d: %d reports in %d passes", k, (int)reports(x.str()).size(), PASSES[k]);
	}
}
// Every net in every asynchronous mode.
MC_SCENARIO(log_async_nets, { .p = 0, .pThorough = 1, .shards = 6, .delayBounded = true })
{
	int c = mc::config(6);
	Mode m = ASYNC[c % 3];
	bool when = c / 3;
	int k = mc::choose(LOGNETS);
	mc::seeds(2, 3);
	RefNet n = logNet(k);
	auto cond = [&](int) { return when; };
	std::ostringstream o;
	Eng e(m);
	buildNet(e, n, cond);
	e.execute(true, o);
	mc::quiesce();
	mc::settle(250);
	e.stop();
	string final = engineMarking(e);
	checkLog(o.str(), n, final, modeName(m), cond);
	MC_CHECK((int)reports(o.str()).size() >= 3, "%s: net %d: %d reports in 250 ms", modeName(m), k, (int)reports(o.str()).size());
}
// Logging and queries do not change what happens: the same random choices give the same firings.
static vector<int> firings(int k, int seed, bool log, bool queries)
{
	mc::fixSeed(seed);
	vector<int> order;
	RefNet n = logNet(k);
	Eng e(Mode::SINGLE_THREAD);
	for (auto &[name, p] : n.places)
		place(e, { name, p.tokens, true, [&order, i = name[0]] { order.push_back(i); }, [&order, i = name[0]] { order.push_back(-i); } });
	for (auto &[name, t] : n.trans)
		buildTransition(e, name, t, Build::CREATE, {});
	std::ostringstream o;
	for (int i = 0; i < 2; ++i)
	{
		if (queries)
		{
			e.getPlacesProperties();
			e.getTransitionsProperties();
			e.printState(o);
			for (auto &p : n.places)
				e.getNumberOfTokens(p.first);
			e.isEventLoopRunning();
			e.getActionsThreadOption();
			e.getEventLoopSleepDuration();
			throws([&] { e.getNumberOfTokens("nowhere"); });
			FileExporterFactory::createXMLFileExporter()->_export(e, scratch("out"));
		}
		if (log)
			e.execute(true, o);
		else
			e.execute();
		if (n.places.count("a"))
			e.incrementInputPlace("a");
	}
	for (auto &p : n.places)
		order.push_back((int)e.getNumberOfTokens(p.first));
	return order;
}
// One variant per execution, compared with the plain one explored before it: were they in one execution, a random
// generator that lives longer than an engine would have to be told apart from an influence.
MC_SCENARIO(no_influence, { .p = 0, .pThorough = 0, .history = true })
{
	static const char *what[] = { "", "logging changes", "queries change", "logging and queries change" };
	int k = mc::config(LOGNETS - 1);
	int seed = mc::choose(12);
	int variant = mc::choose(4);
	auto run = firings(k, seed, variant & 1, variant & 2);
	bool same = true;
	{
		mc::Outside out;
		auto *&plain = reinterpret_cast<std::map<std::pair<int, int>, vector<int>> *&>(mc::persist(0));
		if (!plain)
			plain = new std::map<std::pair<int, int>, vector<int>>;
		if (!variant)
			(*plain)[{ k, seed }] = run;
		else
			same = plain->at({ k, seed }) == run;
	}
	MC_CHECK(same, "%s the run", what[variant]);
}

// In the asynchronous modes, with idle passes: a report before each evaluation of the condition.
static void asyncLog(Mode m, bool log)
{
	Recorder rec;
	std::ostream o(&rec);
	vector<size_t> evals; // number of reports begun when the condition is evaluated
	std::function<size_t()> count = [&]
	{
		size_t k = 0;
		for (size_t p = 0; (p = rec.all.find("Place; Tokens", p)) != string::npos; ++p)
			++k;
		return k;
	};
	RefNet n;
	n.places["a"] = { 1, true };
	n.places["b"] = { 0, false };
	n.places["x"] = { 1, false };
	n.trans["t"].in = { { "a", 1 } };
	n.trans["t"].out = { { "b", 2 } };
	n.trans["never"].in = { { "x", 1 } };
	n.trans["never"].conds = { { "", 0 } };
	string final;
	{
		Eng e(m);
		buildNet(e, n, [&](int) { mc::Outside out; evals.push_back(count()); return false; });
		if (log)
			e.execute(true, o);
		else
			e.execute(false, o);
		mc::settle(250);
		e.incrementInputPlace("a");
		mc::settle(250);
		e.stop();
		final = engineMarking(e);
	}
	MC_CHECK(final == "a=0 b=4 x=1 ", "final marking %s", final.c_str());
	MC_CHECK(evals.size() >= 4, "only %d evaluations in 500 ms", (int)evals.size());
	if (!log)
	{
		MC_CHECK(rec.all.empty(), "%s: logged without being asked to: %s", modeName(m), rec.all.c_str());
		return;
	}
	for (size_t i = 0; i < evals.size(); ++i)
		MC_CHECK(evals[i] == i + 1, "%s: %d reports before evaluation %d of the condition", modeName(m), (int)evals[i], (int)i + 1);
	auto v = reports(rec.all);
	std::set<string> kinds;
	string order;
	for (auto &r : v)
		if (order.empty() || !(kinds.count(text(r))))
			kinds.insert(text(r)), order += text(r) + "; ";
	MC_CHECK(text(v[0]) == n.marking(), "%s: first report %s", modeName(m), text(v[0]).c_str());
	MC_CHECK(text(v.back()) == final, "%s: last report %s", modeName(m), text(v.back()).c_str());
	MC_CHECK(order == "a=1 b=0 x=1 ; a=0 b=2 x=1 ; a=1 b=2 x=1 ; a=0 b=4 x=1 ; ", "%s: reports %s", modeName(m), order.c_str());
}
MC_SCENARIO(log_async, { .p = 3, .pThorough = 4, .shards = 6, .delayBounded = true })
{
	int c = mc::config(6);
	asyncLog(ASYNC[c % 3], c / 3);
}
// Restarted with another stream, and without: each run logs to its own.
MC_SCENARIO(log_restarts, { .p = 3, .pThorough = 4, .shards = 3, .delayBounded = true })
{
	Mode m = ASYNC[mc::config(3)];
	std::ostringstream o1, o2;
	RefNet n = logNet(1);
	Eng e(m);
	buildNet(e, n);
	e.execute(true, o1);
	mc::quiesce();
	e.stop();
	string l1 = o1.str();
	checkLog(l1, n, "a=0 b=3 ", "first run");
	e.incrementInputPlace("a");
	e.execute(false, o1);
	mc::quiesce();
	e.stop();
	MC_CHECK(o1.str() == l1, "logged without being asked to");
	e.incrementInputPlace("a");
	e.execute(true, o2);
	mc::quiesce();
	e.stop();
	MC_CHECK(o1.str() == l1, "logged to the stream of an earlier run");
	n.places["a"].tokens = 1;
	n.places["b"].tokens = 4;
	checkLog(o2.str(), n, "a=0 b=5 ", "third run");
}
// While the loop runs, what is queried is the state at some moment between the start and the end of the query.
MC_SCENARIO(queries_while_running, { .p = 3, .pThorough = 4, .shards = 12, .delayBounded = true })
{
	int c = mc::config(12);
	Mode m = ASYNC[c % 3];
	int q = c / 3;
	std::ostringstream log;
	Eng e(m);
	place(e, { "a", 0, true });
	place(e, { "b", 0 });
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } } });
	e.execute(true, log);
	e.incrementInputPlace("a");
	Report r;
	auto query = [&]
	{
		if (q == 0)
		{
			std::ostringstream o;
			e.printState(o);
			r = reports(o.str()).at(0);
		}
		else if (q == 1)
			for (auto &p : e.getPlacesProperties())
				r[p.name] = p.initialNumberOfTokens;
		else if (q == 2)
		{
			r["b"] = e.getNumberOfTokens("b");
			r["a"] = e.getNumberOfTokens("a");
		}
		else
		{
			auto t = e.getTransitionsProperties();
			MC_CHECK(t.size() == 1 && arcsText(t[0].activationArcs) == "a*1," && arcsText(t[0].destinationArcs) == "b*1,", "transitions");
			r["a"] = e.getNumberOfTokens("a");
			r["b"] = e.getNumberOfTokens("b");
		}
	};
	query();
	MC_CHECK(r.size() == 2 && r["a"] <= 1 && r["b"] <= 1, "reported %s", text(r).c_str());
	mc::outcome("%s", text(r).c_str());
	mc::quiesce();
	query();
	MC_CHECK(text(r) == "a=0 b=1 ", "reported %s in the end", text(r).c_str());
	e.stop();
	for (auto &x : reports(log.str()))
		MC_CHECK(x.size() == 2 && x["a"] + x["b"] <= 1, "logged %s", text(x).c_str());
}
// Injections of one thread appear in order in one report: a report that has the second has the first.
MC_SCENARIO(consistent_report, { .p = 4, .pThorough = 6, .shards = 8 })
{
	int c = mc::config(8);
	Eng e(c & 1 ? Mode::SINGLE_THREAD : Mode::JOB_QUEUE);
	const char *names[] = { "a", "b", "z", "p1" };
	const char *first = c & 2 ? "a" : "z", *second = c & 2 ? "z" : "a";
	for (auto n : names)
		place(e, { n, 0, true });
	Report r;
	{
		std::thread th([&] { e.incrementInputPlace(first); e.incrementInputPlace(second); });
		if (c & 4)
		{
			std::ostringstream o;
			e.printState(o);
			r = reports(o.str()).at(0);
		}
		else
			for (auto &p : e.getPlacesProperties())
				r[p.name] = p.initialNumberOfTokens;
		th.join();
	}
	MC_CHECK(r[first] >= r[second], "the report has the second injection but not the first");
	mc::outcome("%s", text(r).c_str());
}
