// Firing rule: exact enabling and exact token movement (C01).
#include "featnet.h"
#include "refnet.h"

// Every transition gets an activation arc from a place of its own with K tokens (so that every run ends)
// and a destination arc to a place of its own (whose tokens count the firings).
static void bound(RefNet &n, size_t k, bool first)
{
	for (auto &[name, t] : n.trans)
	{
		n.places["budget_" + name].tokens = k;
		n.places["fired_" + name].tokens = 0;
		t.in.insert(first ? t.in.begin() : t.in.end(), RefArc{ "budget_" + name, 1 });
		t.out.insert(first ? t.out.begin() : t.out.end(), RefArc{ "fired_" + name, 1 });
	}
}

struct Run
{
	RefNet net;
	std::map<string, vector<string>> log; // unused key: firing order
	vector<string> order;
};

// Builds the net, runs it in mode m, and checks that what happened is a run of the reference model. The values of
// the conditions (by identity) are constant.
static void check(Mode m, RefNet n, Build b, const vector<bool> &cv, bool named = false)
{
	vector<string> order;
	Eng e(m);
	const bool sync = m == Mode::SINGLE_THREAD || m == Mode::EVENT_LOOP;
	for (auto &[name, p] : n.places)
	{
		ActionFunction f = nullptr;
		if (sync && name.rfind("fired_", 0) == 0)
			f = [&order, t = name.substr(6)] { order.push_back(t); };
		place(e, { name, p.tokens, p.input, f });
	}
	if (named)
		for (size_t i = 0; i < cv.size(); ++i)
			e.registerCondition("c" + std::to_string(i), [v = (bool)cv[i]] { return v; });
	for (auto &[name, t] : n.trans)
	{
		vector<ConditionFunction> conds;
		vector<string> names;
		for (auto &c : t.conds)
			if (named)
				names.push_back("c" + std::to_string(c.second));
			else
				conds.push_back([v = (bool)cv[c.second]] { return v; });
		buildTransition(e, name, t, b, conds, names);
	}
	auto cond = [&](int i) { return (bool)cv[i]; };
	e.execute();
	if (m != Mode::SINGLE_THREAD)
	{
		mc::quiesce();
		e.stop();
	}
	const string got = engineMarking(e);
	string how;
	if (sync)
	{
		RefNet r = n;
		for (auto &t : order)
		{
			how += t + " ";
			MC_CHECK(r.enabled(t, cond), "%s: %s fired when it may not: marking %s (firings %s) from %s", modeName(m), t.c_str(),
					 r.marking().c_str(), how.c_str(), n.marking().c_str());
			r.fire(t);
			mc::state(r.hash());
		}
		MC_CHECK(r.marking() == got, "%s: firings %sfrom %s give %s and not %s", modeName(m), how.c_str(), n.marking().c_str(),
				 r.marking().c_str(), got.c_str());
		auto f = r.fireable(cond);
		MC_CHECK(f.empty(), "%s: %s may fire in %s but does not", modeName(m), f[0].c_str(), got.c_str());
	}
	else
	{
		auto f = n.finals(cond);
		MC_CHECK(f.count(got), "%s: from %s got %s, which no legal run ends in", modeName(m), n.marking().c_str(), got.c_str());
		mc::state(std::hash<string>{}(got));
	}
	mc::outcome("%d firings", (int)order.size());
}

// One transition, every combination of arcs with two places and of their tokens.
static void onePlace(RefNet &n, const string &p, int ins, int outs, int toks, int nin)
{
	auto &t = n.trans["t"];
	int in = mc::choose(ins);   // none, 1, 2, 3 or (last) reset
	int out = mc::choose(outs); // none, 1, 3
	int inh = mc::choose(2);
	n.places[p].tokens = mc::choose(toks);
	(void)nin;
	static const size_t W[] = { 0, 1, 2, 3 }, O[] = { 0, 1, 3, 2 };
	if (in)
		t.in.push_back({ p, in == 4 ? 0 : W[in] });
	if (out)
		t.out.push_back({ p, O[out] });
	if (inh)
		t.inh.push_back({ p, 1 + (size_t)in });
}
static void arcs2(Mode m)
{
	int b = mc::config(BUILDS * 2);
	RefNet n;
	onePlace(n, "a", 5, 3, 5, 0);
	onePlace(n, "b", 5, 3, 4, 0);
	bound(n, 3, b & 1);
	check(m, n, Build(b / 2), {});
}
MC_SCENARIO(arcs2_st, { .p = 0, .pThorough = 0, .shards = 10 }) { arcs2(Mode::SINGLE_THREAD); }

// One transition, three places.
static void arcs3(Mode m, Build b)
{
	RefNet n;
	onePlace(n, "a", 3, 2, 3, 0);
	onePlace(n, "b", 3, 2, 3, 0);
	onePlace(n, "c", 3, 2, 3, 0);
	bound(n, 2, true);
	check(m, n, b, {});
}
MC_SCENARIO(arcs3_st, { .p = 0, .pThorough = 0, .shards = 5 }) { arcs3(Mode::SINGLE_THREAD, Build(mc::config(BUILDS))); }

// The asynchronous modes, fewer combinations.
MC_SCENARIO(arcs1_async, { .p = 0, .pThorough = 1, .shards = 3 })
{
	Mode m = ASYNC[mc::config(3)];
	RefNet n;
	onePlace(n, "a", 5, 3, 4, 0);
	int more = mc::choose(4);
	n.places["b"].tokens = 1;
	if (more & 1)
		n.trans["t"].inh.push_back({ "b", 1 });
	if (more & 2)
		n.trans["t"].in.push_back({ "b", 1 });
	n.trans["t"];
	bound(n, 2, mc::choose(2));
	check(m, n, Build(mc::choose(BUILDS)), {});
}

// Many arcs and conditions of which exactly one (or none) is not satisfied, at every position.
static void many(Mode m, int maxN)
{
	int size = 1 + mc::choose(maxN);
	int kind = mc::choose(4); // what the unsatisfied one is
	int bad = mc::choose(size + 1) - 1;
	int named = mc::choose(2);
	int more = mc::choose(3);
	RefNet n;
	auto &t = n.trans["t"];
	vector<bool> cv;
	for (int i = 0; i < size; ++i)
	{
		string s = std::to_string(i);
		size_t w = 1 + (i * 7 + more) % 4;
		n.places["in" + s].tokens = w + more - (kind == 0 && i == bad ? more + 1 : 0);
		t.in.push_back({ "in" + s, w });
		n.places["out" + s].tokens = more;
		t.out.push_back({ "out" + s, 1 + (i * 5 + more) % 4u });
		n.places["inh" + s].tokens = kind == 1 && i == bad ? 1 + more : 0;
		t.inh.push_back({ "inh" + s, 1 + (i + more) % 3u });
		n.places["other" + s].tokens = i;
		if (kind >= 2)
			t.conds.push_back({ "", i });
		cv.push_back(!(kind == 2 && i == bad));
	}
	if (kind == 3 && bad >= 0)
		t.in[bad].w = 0;
	n.trans["idle"].in.push_back({ "other0", 1 });
	bound(n, 2, mc::choose(2));
	check(m, n, Build(mc::choose(BUILDS)), cv, named);
}
MC_SCENARIO(many_arcs, { .p = 0, .pThorough = 0, .shards = 4 }) { many(ALLMODES[mc::config(4)], 5); }

// Up to four conditions with every combination of values.
MC_SCENARIO(conditions, { .p = 0, .pThorough = 0, .shards = 4 })
{
	Mode m = ALLMODES[mc::config(4)];
	int size = 1 + mc::choose(4);
	RefNet n;
	auto &t = n.trans["t"];
	auto &u = n.trans["u"];
	n.places["p"].tokens = 1;
	t.in.push_back({ "p", 1 });
	vector<bool> cv;
	for (int i = 0; i < size; ++i)
	{
		cv.push_back(mc::choose(2));
		t.conds.push_back({ "", i });
	}
	if (mc::choose(2))
		u.conds.push_back({ "", 0 });
	t.noAct = mc::choose(2);
	bound(n, 2, true);
	check(m, n, Build(mc::choose(2)), cv, mc::choose(2));
}

// Several transitions over two shared places, every order in which they are attempted.
static void shape(RefTrans &t, int s)
{
	switch (s)
	{
	case 0: t.in = { { "a", 1 } }; break;
	case 1: t.in = { { "a", 2 } }; t.out = { { "b", 1 } }; break;
	case 2: t.in = { { "b", 1 } }; t.out = { { "a", 3 } }; break;
	case 3: t.inh = { { "a", 1 } }; t.in = { { "b", 1 } }; break;
	case 4: t.in = { { "a", 0 } }; t.out = { { "b", 1 } }; break;
	case 5: t.in = { { "a", 1 }, { "b", 1 } }; break;
	case 6: t.inh = { { "b", 1 } }; t.out = { { "a", 1 } }; break;
	case 7: t.in = { { "b", 0 } }; t.inh = { { "a", 1 } }; t.out = { { "a", 2 } }; break;
	case 8: t.inh = { { "a", 1 }, { "b", 2 } }; t.out = { { "a", 1 }, { "b", 2 } }; break;
	}
}
static const int SHAPES = 9;
static void several(Mode m, int count, size_t k, int toks, int seeds)
{
	RefNet n;
	int prev = 0;
	for (int i = 0; i < count; ++i)
	{
		int s = prev + (i ? mc::choose(SHAPES - prev) : mc::config(SHAPES));
		prev = s;
		shape(n.trans[string(1, 't' + i)], s);
	}
	n.places["a"].tokens = mc::choose(toks);
	n.places["b"].tokens = mc::choose(toks);
	bound(n, k, true);
	mc::seeds(seeds);
	check(m, n, Build::CREATE, {});
}
MC_SCENARIO(conflict2_st, { .p = 0, .pThorough = 0, .shards = 9 }) { several(Mode::SINGLE_THREAD, 2, 2, 4, 3); }
MC_SCENARIO(conflict2_el, { .p = 0, .pThorough = 0, .shards = 9 }) { several(Mode::EVENT_LOOP, 2, 1, 4, 3); }
MC_SCENARIO(conflict3_st, { .p = 0, .pThorough = 0, .shards = 9 }) { several(Mode::SINGLE_THREAD, 3, 1, 3, 3); }

// A condition whose value changes while a pass is under way (an action closes it): it is evaluated for each firing.
static void toggling(Mode m)
{
	mc::seeds(4);
	int limit = mc::choose(4), inverse = mc::choose(2);
	Eng e(m);
	int fired = 0, bad = 0;
	auto open = [&] { return inverse ? fired >= limit : fired < limit; };
	place(e, { "p", 3 });
	place(e, { "q", 3 });
	place(e, { "ft", 0, false, [&] { bad += !open() && !inverse; ++fired; } });
	place(e, { "fu", 0, false, [&] { bad += !open() && !inverse; ++fired; } });
	transition(e, { "t", { { "p", 1 } }, { { "ft", 1 } }, {}, { open } });
	transition(e, { "u", { { "q", 1 } }, { { "fu", 1 } }, {}, { open, open } });
	e.execute();
	if (m != Mode::SINGLE_THREAD)
	{
		mc::quiesce();
		e.stop();
	}
	int want = inverse ? (limit == 0 ? 6 : 0) : limit;
	MC_CHECK(bad == 0 && fired == want, "%s: fired %d times, the condition allows %d", modeName(m), fired, want);
	MC_CHECK(tok(e, "ft") + tok(e, "fu") == want && tok(e, "p") + tok(e, "q") == 6 - want, "tokens");
}
MC_SCENARIO(toggling_st, { .p = 0, .pThorough = 0 }) { toggling(Mode::SINGLE_THREAD); }
MC_SCENARIO(toggling_el, { .p = 0, .pThorough = 1 }) { toggling(Mode::EVENT_LOOP); }

// Every combination of features of a transition and its places, of which most do not matter.
MC_SCENARIO(features, { .p = 0, .pThorough = 0, .shards = 8, .delayBounded = true })
{
	Feat f = chooseFeat();
	FeatNet n(f);
	n.run(f);
	const string got = engineMarking(n.e);
	MC_CHECK(got == n.ref.marking(), "%s: from %s the final marking is %s and not %s", f.text().c_str(), n.start.marking().c_str(), got.c_str(),
			 n.ref.marking().c_str());
	mc::state(std::hash<string>{}(got));
	mc::outcome("%d firings", f.firings);
}

// As many_arcs, with 40 or 130 of each kind.
MC_SCENARIO(many_more, { .p = 0, .pThorough = 0, .shards = 4 })
{
	const int kind = mc::config(4), size = mc::choose(2) ? 40 : 100, bad = mc::choose(size + 1) - 1;
	mc::maxSteps(10000000);
	RefNet n;
	auto &t = n.trans["t"];
	vector<bool> cv;
	for (int i = 0; i < size; ++i)
	{
		string s = std::to_string(i);
		size_t w = 1 + i % 3;
		n.places["in" + s].tokens = w - (kind == 0 && i == bad ? 1 : 0);
		t.in.push_back({ "in" + s, w });
		t.out.push_back({ "out" + s, w });
		n.places["out" + s].tokens = 0;
		if (kind < 3)
		{
			n.places["inh" + s].tokens = kind == 1 && i == bad ? 1 : 0;
			t.inh.push_back({ "inh" + s, 1 });
		}
		else // so many transitions, of which one cannot fire
		{
			auto &u = n.trans["u" + s];
			n.places["uin" + s].tokens = i == bad ? 0 : 1;
			u.in.push_back({ "uin" + s, 1 });
		}
		t.conds.push_back({ "", i });
		cv.push_back(!(kind == 2 && i == bad));
	}
	bound(n, 1, true);
	check(bad % 8 ? Mode::SINGLE_THREAD : Mode::EVENT_LOOP, n, Build(bad % BUILDS + (bad < 0)), cv, bad % 2);
}

// Hundreds of arcs, conditions or transitions, of which so many are satisfied (also numbers that differ by 256).
MC_SCENARIO(hundreds, { .p = 0, .pThorough = 0, .shards = 8 })
{
	static const int SIZES[] = { 255, 256, 257, 300, 512, 513, 600, 1024 };
	const int size = SIZES[mc::config(8)], kind = mc::choose(5);
	const int G[] = { size, size - 1, 0, 1, 2, 255, 256, 257, size - 256 };
	const int good = G[mc::choose(9)];
	const bool first = mc::choose(2); // the satisfied ones come first
	if (good < 0 || good > size)
		return;
	mc::maxSteps(100000000);
	int evaluated = 0;
	auto ok = [&](int i) { return first ? i < good : i >= size - good; };
	Eng e(good % 2 ? Mode::EVENT_LOOP : Mode::SINGLE_THREAD);
	auto nm = [](const char *c, int i) { return c + std::to_string(i); };
	TransitionProperties tp;
	tp.name = "t";
	for (int i = 0; i < size; ++i)
	{
		if (kind == 0)
		{
			place(e, { nm("in", i), ok(i) ? 3u : 1u });
			tp.activationArcs.push_back(arc(nm("in", i), 2));
		}
		if (kind == 1)
		{
			place(e, { nm("inh", i), ok(i) ? 0u : 1u });
			tp.inhibitorArcs.push_back(arc(nm("inh", i)));
		}
		if (kind == 2)
			tp.additionalConditions.push_back([&, i] { ++evaluated; return ok(i); });
		if (kind == 3)
		{
			e.registerCondition(nm("c", i), [&, i] { ++evaluated; return ok(i); });
			tp.additionalConditionsNames.push_back(nm("c", i));
		}
		if (kind == 4)
		{
			place(e, { nm("in", i), ok(i) ? 1u : 0u });
			place(e, { nm("out", i) });
			transition(e, { nm("t", i), { { nm("in", i), 1 } }, { { nm("out", i), 1 } } });
		}
	}
	place(e, { "once", 1 });
	for (int i = 0; i < size; ++i)
	{
		place(e, { nm("d", i), (size_t)i });
		tp.destinationArcs.push_back(arc(nm("d", i), i + 1));
	}
	tp.activationArcs.push_back(arc("once"));
	e.createTransition(tp);
	e.execute();
	mc::quiesce();
	const bool fires = good == size || kind == 4;
	MC_CHECK(tok(e, "once") == !fires, "%d of %d satisfied (kind %d): %sfired", good, size, kind, fires ? "not " : "");
	for (int i = 0; i < size; ++i)
	{
		MC_CHECK(tok(e, nm("d", i)) == (fires ? 2 * i + 1 : i), "%d of %d: %ld tokens in destination place %d", good, size, tok(e, nm("d", i)), i);
		if (kind == 0)
			MC_CHECK(tok(e, nm("in", i)) == (ok(i) ? 3 : 1) - (fires ? 2 : 0), "%d of %d: %ld tokens in activation place %d", good, size,
					 tok(e, nm("in", i)), i);
		if (kind == 1)
			MC_CHECK(tok(e, nm("inh", i)) == !ok(i), "%d of %d: %ld tokens in inhibitor place %d", good, size, tok(e, nm("inh", i)), i);
		if (kind == 4)
			MC_CHECK(tok(e, nm("in", i)) == 0 && tok(e, nm("out", i)) == ok(i), "%d of %d: transition %d", good, size, i);
	}
	if (good == size && (kind == 2 || kind == 3))
		MC_CHECK(evaluated >= size, "fired after %d evaluations of %d conditions", evaluated, size);
	mc::outcome("%s", fires ? "fires" : "not");
}

// Names that are similar to one another name different things all the same.
static const char *SIMILAR[] = { "a", "aa", "ab", "ba", "b", "A", "a ", " a", "a\n", "1", "01", "1.0", "+1", "true", "ä", "á", "a.b", "a/b", "fired", "once" };
static const int NSIMILAR = sizeof SIMILAR / sizeof *SIMILAR;
MC_SCENARIO(similar_names, { .p = 0, .pThorough = 0, .shards = 4 })
{
	const int c = mc::config(NSIMILAR * NSIMILAR);
	const string x = SIMILAR[c % NSIMILAR], y = SIMILAR[c / NSIMILAR];
	if (x == y)
		return;
	const bool okx = mc::choose(2), oky = mc::choose(2);
	const int kind = mc::choose(6);
	const bool again = mc::choose(2);
	Eng e(mc::choose(2) ? Mode::EVENT_LOOP : Mode::SINGLE_THREAD);
	place(e, { "~once", 1 });
	place(e, { "~done" });
	TransitionProperties t;
	t.name = kind == 5 ? x : "~t";
	t.activationArcs = { arc("~once") };
	t.destinationArcs = { arc("~done", 3) };
	int ranx = 0, rany = 0;
	size_t wantx = 0, wanty = 0;
	bool fires = okx && oky;
	if (kind == 0) // conditions; again: one of them named twice
	{
		e.registerCondition(x, [&] { ++ranx; return okx; });
		e.registerCondition(y, [&] { ++rany; return oky; });
		t.additionalConditionsNames = { x, y };
		if (again)
			t.additionalConditionsNames.push_back(x);
	}
	else if (kind == 4) // actions
	{
		e.registerAction(x, [&] { ++ranx; });
		e.registerAction(y, [&] { ++rany; });
		fires = true;
		for (auto &[n, f] : { std::pair{ x, okx }, std::pair{ y, oky } })
		{
			PlaceProperties p;
			p.name = n;
			(f ? p.onEnterActionFunctionName : p.onExitActionFunctionName) = again ? y : n;
			p.initialNumberOfTokens = !f;
			e.createPlace(p);
			(f ? t.destinationArcs : t.activationArcs).push_back(arc(n));
			(n == x ? wantx : wanty) = f;
		}
	}
	else
	{
		place(e, { x, kind == 2 ? !okx : 1u + okx });
		place(e, { y, kind == 2 ? !oky : 2u + oky });
		auto &v = kind == 1 || kind == 5 ? t.activationArcs : kind == 2 ? t.inhibitorArcs : t.destinationArcs;
		v.push_back(arc(x, 2));
		v.push_back(arc(y, 3));
		if (again)
			std::swap(v[v.size() - 1], v[v.size() - 2]);
		if (kind == 3)
			fires = true;
		wantx = kind == 2 ? !okx : 1u + okx;
		wanty = kind == 2 ? !oky : 2u + oky;
		if (fires && (kind == 1 || kind == 5))
			wantx -= 2, wanty -= 3;
		if (kind == 3)
			wantx += 2, wanty += 3;
	}
	e.createTransition(t);
	if (kind == 5) // a transition of the other name, of which nothing is left to be seen
	{
		t.name = y;
		t.activationArcs.push_back(arc("~done", 4));
		e.createTransition(t);
	}
	e.execute();
	mc::quiesce();
	e.stop();
	MC_CHECK(tok(e, "~once") == !fires && tok(e, "~done") == (fires ? 3 : 0), "'%s' %d and '%s' %d (kind %d): %sfired", x.c_str(), okx, y.c_str(), oky, kind, fires ? "not " : "");
	if (kind == 0)
		MC_CHECK(!fires || (ranx && rany), "fired without evaluating both '%s' and '%s'", x.c_str(), y.c_str());
	else
		MC_CHECK(tok(e, x) == (long)wantx && tok(e, y) == (long)wanty, "'%s': %ld tokens instead of %zu, '%s': %ld instead of %zu (kind %d)", x.c_str(), tok(e, x), wantx, y.c_str(), tok(e, y), wanty, kind);
	if (kind == 4)
		MC_CHECK(ranx == !again && rany == 1 + again, "action '%s' executed %d times, '%s' %d times", x.c_str(), ranx, y.c_str(), rany);
}
