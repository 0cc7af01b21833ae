// Engines are independent of one another (C25): the same names, the same callbacks, engines within callbacks of others,
// engines at work at the same time.
#include "ops.h"
#include "refnet.h"

// ---- engines within callbacks of others --------------------------------------------------------------------------

// A SINGLE_THREAD net with its reference: every transition has a place "fired_<name>", whose on-enter action logs it.
struct Small
{
	RefNet ref;
	Eng e{ Mode::SINGLE_THREAD };
	vector<string> fired;
	std::function<void()> inCondition, inEnter, inExit; // called at most `budget` times altogether
	int budget = 0;
	int refused = -1; // the transition whose condition is false
	void hook(const std::function<void()> &f)
	{
		if (f && budget > 0)
		{
			--budget;
			f();
		}
	}
	void build()
	{
		for (auto &[name, t] : ref.trans)
		{
			ref.places["fired_" + name].tokens = 0;
			t.out.push_back({ "fired_" + name, 1 });
		}
		for (auto &[name, p] : ref.places)
		{
			ActionFunction en = nullptr, ex = nullptr;
			if (name.rfind("fired_", 0) == 0)
				en = [this, t = name.substr(6)]
				{
					fired.push_back(t);
					hook(inEnter);
				};
			else
				ex = [this] { hook(inExit); };
			place(e, { name, p.tokens, p.input, en, ex });
		}
		int id = 0;
		for (auto &[name, t] : ref.trans)
		{
			buildTransition(e, name, t, Build::CREATE, { [this, id] { hook(inCondition); return id != refused; } });
			t.conds.push_back({ "", id++ });
		}
	}
	void inject(const string &p)
	{
		e.incrementInputPlace(p);
		ref.places[p].tokens++;
	}
	// After an execution: what fired is legal, the marking is what results, and nothing is left to fire.
	void check(const char *who)
	{
		string how;
		auto cond = [this](int id) { return id != refused; };
		for (auto &t : fired)
		{
			how += t + " ";
			MC_CHECK(ref.trans.count(t) && ref.enabled(t, cond), "%s: %s fired but may not in %s (%s)", who, t.c_str(), ref.marking().c_str(), how.c_str());
			ref.fire(t);
			mc::state(ref.hash());
		}
		fired.clear();
		const string got = engineMarking(e);
		MC_CHECK(got == ref.marking(), "%s: after %s the marking is %s and not %s", who, how.c_str(), got.c_str(), ref.marking().c_str());
		auto f = ref.fireable(cond);
		MC_CHECK(f.empty(), "%s: execute() returned although %s may fire in %s (after %s)", who, f.empty() ? "" : f[0].c_str(), got.c_str(), how.c_str());
	}
	void execute(const char *who)
	{
		e.execute();
		check(who);
	}
};
static void shape(RefTrans &t, int s)
{
	switch (s)
	{
	case 0: t.in = { { "a", 1 } }; t.out = { { "b", 1 } }; break;
	case 1: t.in = { { "a", 2 } }; t.out = { { "c", 1 } }; break;
	case 2: t.in = { { "b", 1 } }; t.out = { { "c", 2 } }; break;
	case 3: t.in = { { "a", 1 } }; t.inh = { { "b", 1 } }; break;
	case 4: t.in = { { "c", 1 } }; t.inh = { { "a", 1 } }; break;
	}
}
static const int SHAPES = 5;
static void fill(Small &s, int set, int a, int b, bool noActions = false)
{
	for (int i = 0, c = 0; i < SHAPES; ++i)
		if (set >> i & 1)
		{
			auto &t = s.ref.trans[string(1, 't' + c++)];
			shape(t, i);
			t.noAct = noActions;
		}
	s.ref.places["a"] = { (size_t)a, true };
	s.ref.places["b"] = { (size_t)b, true };
	s.ref.places["c"] = { 0, false };
	s.build();
}
static const int SETS[] = { 0b00011, 0b00101, 0b00111, 0b01101, 0b11110, 0b11111 };
static const int NSETS = 6;

// where: condition, on-enter action, on-exit action. what: run the other engine; inject and run it; a new engine that
// lives in the callback only; the other engine runs a third one.
static void nested(int outerSet, int innerSet, int where, int what)
{
	mc::seeds(2, 3);
	Small outer, inner, third;
	const bool noActions = mc::choose(2);
	fill(outer, outerSet, 2, 1, noActions);
	fill(inner, innerSet, 2, mc::choose(2), noActions);
	fill(third, 0b00111, 2, 1);
	auto call = [&]
	{
		switch (what)
		{
		case 0:
			inner.execute("inner");
			break;
		case 1:
			inner.inject("a");
			inner.execute("inner");
			inner.inject("a");
			inner.inject("b");
			inner.execute("inner");
			break;
		case 2:
		{
			Small local;
			fill(local, innerSet, 2, 1);
			local.execute("local");
			break;
		}
		case 3:
			inner.budget = 1;
			inner.inCondition = inner.inEnter = [&]
			{
				third.inject("a");
				third.execute("third");
			};
			inner.inject("a");
			inner.execute("inner");
			break;
		}
	};
	outer.budget = 2;
	outer.refused = where == 0 ? mc::choose(3) - 1 : -1;
	(where == 0 ? outer.inCondition : where == 1 ? outer.inEnter : outer.inExit) = call;
	outer.execute("outer");
	outer.refused = -1;
	outer.inject("a");
	outer.execute("outer");
	inner.execute("inner");
	third.execute("third");
	mc::outcome("%s / %s / %s", outer.ref.marking().c_str(), inner.ref.marking().c_str(), third.ref.marking().c_str());
}
MC_SCENARIO(nested_single, { .p = 0, .pThorough = 0, .shards = 8 })
{
	int c = mc::config(NSETS * NSETS * 3 * 4);
	nested(SETS[c % NSETS], SETS[c / NSETS % NSETS], c / NSETS / NSETS % 3, c / NSETS / NSETS / 3);
}
// The outer engine is asynchronous: the inner one runs in its event loop, or in its actions.
MC_SCENARIO(nested_async, { .p = 1, .pThorough = 2, .shards = 18, .delayBounded = true })
{
	int c = mc::config(3 * 2 * 3);
	const Mode m = ASYNC[c % 3];
	const bool own = c / 3 % 2; // an engine of its own each time
	const int where = c / 6;	// condition, on-enter, on-exit
	mc::seeds(2, 1);
	Small inner;
	fill(inner, SETS[2], 2, 1);
	mc::Gate free(true);
	std::atomic<int> calls{ 0 };
	std::atomic<bool> busy{ false };
	auto call = [&]
	{
		++calls;
		if (own)
		{
			Small local;
			fill(local, SETS[2], 2, 1);
			local.execute("local");
		}
		else if (!busy.exchange(true)) // the reference of the inner engine is not made for several threads
		{
			inner.inject("a");
			inner.execute("inner");
			busy = false;
		}
	};
	{
		Eng e(m);
		ActionFunction act = call;
		place(e, { "a", 2, true, nullptr, where == 2 ? act : nullptr });
		place(e, { "b", 0, false, where == 1 ? act : nullptr });
		place(e, { "c" });
		ConditionFunction cond = [&, where] { if (where == 0 && calls < 2) call(); return true; };
		transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { cond } });
		transition(e, { "u", { { "b", 2 } }, { { "c", 1 } } });
		e.execute();
		mc::quiesce();
		MC_CHECK(tok(e, "a") == 0 && tok(e, "b") == 0 && tok(e, "c") == 1, "%s: outer a %ld b %ld c %ld", modeName(m), tok(e, "a"), tok(e, "b"), tok(e, "c"));
		MC_CHECK(calls == 2, "%d calls", (int)calls);
		e.stop();
	}
	mc::quiesce();
	inner.execute("inner");
	mc::outcome("%s", inner.ref.marking().c_str());
}
// An exception that leaves the inner engine's callback and, unless caught, the outer one's as well.
MC_SCENARIO(nested_throw, { .p = 0, .pThorough = 0, .shards = 6 })
{
	int c = mc::config(3 * 3 * 2);
	const int where = c % 3, inWhere = c / 3 % 3;
	const bool caught = c / 9;
	mc::seeds(2, 3);
	Small outer, inner;
	fill(outer, SETS[2], 2, 1);
	fill(inner, SETS[mc::choose(NSETS)], 2, 1);
	bool thrown = false;
	inner.budget = 1;
	(inWhere == 0 ? inner.inCondition : inWhere == 1 ? inner.inEnter : inner.inExit) = [&] { thrown = true; throw std::runtime_error("inner"); };
	auto call = [&]
	{
		if (!caught)
		{
			inner.e.execute();
			return;
		}
		try
		{
			inner.e.execute();
		}
		catch (const std::exception &)
		{
		}
	};
	outer.budget = 1;
	(where == 0 ? outer.inCondition : where == 1 ? outer.inEnter : outer.inExit) = call;
	const int t = throws([&] { outer.e.execute(); });
	MC_CHECK(t == (thrown && !caught ? 2 : 0), "the outer execute threw %d, caught inside %d", t, caught);
	if (caught || !thrown)
		outer.check("outer");
	// From now on both work, each from the marking it has.
	for (auto *s : { &outer, &inner })
	{
		s->budget = 0;
		s->fired.clear();
		for (auto &p : s->e.getPlacesProperties())
			s->ref.places[p.name].tokens = p.initialNumberOfTokens;
		s->inject("a");
		s->execute(s == &outer ? "outer afterwards" : "inner afterwards");
	}
}

// ---- the same calls as alone --------------------------------------------------------------------------------------

// What an engine shows after a sequence of calls made on it (and on nothing else).
struct Alone
{
	Mode m;
	std::unique_ptr<Eng> e;
	int acts = 0, conds = 0, id;
	string trace;
	Alone(Mode mode, int i) : m(mode), id(i) { fresh(); }
	void fresh() { e = std::make_unique<Eng>(m); }
	static const int CALLS = 12;
	void apply(int op)
	{
		int r = throws([&] { run(op); });
		trace += char('a' + op);
		trace += char('0' + r);
	}
	void run(int op)
	{
		switch (op)
		{
		case 0: e->registerAction("f", [this] { ++acts; }); break;
		case 1: e->registerCondition("c", [this] { ++conds; return id == 0; }); break;
		case 2:
		{
			PlaceProperties p;
			p.name = "p";
			p.initialNumberOfTokens = 1;
			p.input = true;
			e->createPlace(p);
			p.name = "q";
			p.initialNumberOfTokens = 0;
			p.input = false;
			e->createPlace(p);
			break;
		}
		case 3:
		{
			PlaceProperties p;
			p.name = "r";
			p.input = id;
			p.onEnterActionFunctionName = "f";
			e->createPlace(p);
			break;
		}
		case 4: transition(*e, { "t", { { "p", 1 } }, { { "q", 2 } } }); break;
		case 5:
		{
			TransitionProperties t;
			t.name = "u";
			t.activationArcs = { arc("q") };
			t.additionalConditionsNames = { "c" };
			e->createTransition(t);
			break;
		}
		case 6: e->addArc(arc("q", 2, AT::INHIBITOR, "t")); break;
		case 7: e->incrementInputPlace("p"); break;
		case 8:
			e->execute();
			mc::quiesce();
			e->stop();
			mc::quiesce();
			break;
		case 9: e->clearNet(); break;
		case 10:
			m = m == Mode::SINGLE_THREAD ? Mode::JOB_QUEUE : Mode::SINGLE_THREAD;
			e->setActionsThreadOption(m);
			e->setEventLoopSleepDuration(ms(7 + id));
			break;
		case 11: fresh(); break;
		}
	}
	string shows() const
	{
		return trace + " " + snapshot(*e) + modeName(e->getActionsThreadOption()) + " " + std::to_string(e->getEventLoopSleepDuration().count()) + " " +
			   std::to_string(acts) + "/" + std::to_string(conds) + (e->isEventLoopRunning() ? " running" : "");
	}
};
// Prefixes that bring an engine to work, then every sequence of calls distributed over two engines: after every call
// the other engine is as it was, and in the end both are as after the same calls alone.
static void product(int depth)
{
	static const vector<vector<int>> PRE = { {}, { 0, 1, 2, 3, 4 }, { 0, 1, 2, 3, 4, 5, 8 } };
	int c = mc::config(9 * Alone::CALLS);
	const auto &preA = PRE[c % 3], &preB = PRE[c / 3 % 3];
	vector<int> calls[2] = { preA, preB };
	const Mode modes[2] = { Mode::SINGLE_THREAD, mc::choose(2) ? Mode::JOB_QUEUE : Mode::SINGLE_THREAD };
	Alone two[2] = { { modes[0], 0 }, { modes[1], 1 } };
	for (size_t i = 0; i < std::max(preA.size(), preB.size()); ++i)
		for (int x = 0; x < 2; ++x)
			if (i < calls[x].size())
				two[x].apply(calls[x][i]);
	string before[2] = { two[0].shows(), two[1].shows() };
	for (int i = 0; i < depth; ++i)
	{
		const int op = i == 0 ? c / 9 : mc::choose(Alone::CALLS), x = mc::choose(2);
		calls[x].push_back(op);
		two[x].apply(op);
		const string other = two[1 - x].shows();
		MC_CHECK(other == before[1 - x], "call %d on engine %d changed engine %d from\n%s to\n%s", op, x, 1 - x, before[1 - x].c_str(), other.c_str());
		before[x] = two[x].shows();
	}
	for (int x = 0; x < 2; ++x)
	{
		Alone alone(modes[x], x);
		for (int op : calls[x])
			alone.apply(op);
		MC_CHECK(alone.shows() == before[x], "engine %d shows\n%s but alone\n%s", x, before[x].c_str(), alone.shows().c_str());
	}
	const int x = mc::choose(2);
	two[1 - x].e.reset();
	MC_CHECK(two[x].shows() == before[x], "destroying engine %d changed engine %d from\n%s to\n%s", 1 - x, x, before[x].c_str(), two[x].shows().c_str());
	mc::state(std::hash<string>{}(before[0] + before[1]));
}
MC_SCENARIO(product2, { .p = 0, .pThorough = 0, .shards = 8 }) { product(2); }
MC_SCENARIO(product3, { .p = 0, .pThorough = 0, .shards = 8, .thoroughOnly = true }) { product(3); }

// ---- at work at the same time -------------------------------------------------------------------------------------

struct Line // in -> mid -> out, the actions logged as events (kind: engine, a: place)
{
	std::unique_ptr<Eng> p;
	Eng &e;
	Line(Mode m, int id, const std::function<void(int)> &extra = nullptr, bool set = false) : p(std::make_unique<Eng>(set ? Mode::SINGLE_THREAD : m)), e(*p)
	{
		if (set)
			e.setActionsThreadOption(m);
		auto act = [id, extra](int where)
		{
			return [id, extra, where]
			{
				mc::event(id, where);
				if (extra)
					extra(where);
			};
		};
		place(e, { "in", 0, true, act(0) });
		place(e, { "mid", 0, false, act(1), act(2) });
		place(e, { "out", 0, false, act(3) });
		transition(e, { "t", { { "in", 1 } }, { { "mid", 1 } }, {}, { [] { return true; } }, true });
		transition(e, { "u", { { "mid", 1 } }, { { "out", 1 } } });
	}
	void check(const char *who, int id, int n)
	{
		MC_CHECK(tok(e, "in") == 0 && tok(e, "mid") == 0 && tok(e, "out") == n, "%s: in %ld mid %ld out %ld after %d injections", who, tok(e, "in"), tok(e, "mid"),
				 tok(e, "out"), n);
		int count[4] = {};
		for (int i = 0; i < mc::events(); ++i)
			if (mc::at(i).kind == id)
				++count[mc::at(i).a];
		for (int i = 0; i < 4; ++i)
			MC_CHECK(count[i] == n, "%s: action %d executed %d times after %d injections", who, i, count[i], n);
	}
};
static void together(Mode m0, Mode m1, int n0, int n1, bool threads)
{
	const bool set = mc::choose(2);
	{
		Line x(m0, 0, nullptr, set), y(m1, 1, nullptr, set);
		x.e.execute();
		y.e.execute();
		auto feed = [](Line &l, int n) { for (int i = 0; i < n; ++i) l.e.incrementInputPlace("in"); };
		if (threads)
		{
			std::thread th([&] { feed(x, n0); });
			feed(y, n1);
			th.join();
		}
		else
			for (int i = 0; i < n0 || i < n1; ++i)
			{
				feed(x, i < n0);
				feed(y, i < n1);
			}
		mc::quiesce();
		mc::settle(250);
		mc::quiesce();
		x.check("first engine", 0, n0);
		y.check("second engine", 1, n1);
		y.e.stop();
		MC_CHECK(x.e.isEventLoopRunning() && !y.e.isEventLoopRunning(), "stop of one engine: running %d %d", x.e.isEventLoopRunning(), y.e.isEventLoopRunning());
		feed(x, 1);
		mc::quiesce();
		mc::settle(250);
		mc::quiesce();
		x.check("first engine", 0, n0 + 1);
		y.p.reset();
		feed(x, 1);
		mc::quiesce();
		mc::settle(250);
		mc::quiesce();
		x.check("first engine", 0, n0 + 2);
		x.e.stop();
	}
	mc::quiesce();
}
MC_SCENARIO(together_main, { .p = 1, .pThorough = 2, .shards = 9, .delayBounded = true })
{
	int c = mc::config(9);
	together(ASYNC[c % 3], ASYNC[c / 3], 1, 1, false);
}
MC_SCENARIO(together_threads, { .p = 1, .pThorough = 2, .shards = 9, .delayBounded = true })
{
	int c = mc::config(9);
	together(ASYNC[c % 3], ASYNC[c / 3], 1, 2, true);
}
// Two SINGLE_THREAD engines run by two threads, with conflicts to be resolved.
MC_SCENARIO(single_threads, { .p = 2, .pThorough = 3, .shards = 6 })
{
	int c = mc::config(NSETS);
	mc::seeds(2, 2);
	Small x, y;
	fill(x, SETS[c], 2, 1);
	fill(y, SETS[NSETS - 1 - c], 2, 0);
	std::thread th([&] { x.execute("first"); });
	y.execute("second");
	th.join();
	x.inject("a");
	x.execute("first again");
	mc::outcome("%s %s", x.ref.marking().c_str(), y.ref.marking().c_str());
}

// Any two calls by two threads, each on an engine of its own, which it creates and destroys as well.
MC_SCENARIO(any_calls, { .p = 1, .pThorough = 2, .shards = 22, .delayBounded = true })
{
	const int c = mc::config(ops::OPS * ops::OPS);
	const auto x = ops::Op(c % ops::OPS), y = ops::Op(c / ops::OPS);
	if (x < y)
		return;
	const int k = mc::choose(4);
	const Mode m0 = ALLMODES[k], m1 = k == 1 || k == 2 ? Mode::JOB_QUEUE : m0;
	ops::prepare(Mode::SINGLE_THREAD);
	auto run = [](Mode m, ops::Op op, int id)
	{
		ops::Counts n;
		{
			Eng e(m);
			ops::build(e, n);
			ops::tryApply(e, op, m, id);
		}
	};
	std::thread th([&] { run(m0, x, 1); });
	run(m1, y, 2);
	th.join();
	mc::quiesce();
}

// A callback of one engine that takes its time holds no other engine up.
struct Slow : std::streambuf
{
	mc::Gate *gate;
	bool waited = false;
	int overflow(int c) override
	{
		if (!waited)
		{
			waited = true;
			gate->wait();
		}
		return c;
	}
};
// where: condition, on-enter action, on-exit action, an injection's on-enter action, the stream of the log
static void notHeldUp(Mode m0, Mode m1, int where)
{
	mc::Gate gate;
	Slow buf;
	buf.gate = &gate;
	std::ostream log(&buf);
	const bool set = mc::choose(2); // the modes are set later
	{
		Eng slow(set ? Mode::EVENT_LOOP : m0);
		slow.setActionsThreadOption(m0);
		auto wait = [&](int w) { return where == w ? ActionFunction([&] { gate.wait(); }) : nullptr; };
		place(slow, { "in", where == 3 ? 0u : 1u, true, wait(3), wait(2) });
		place(slow, { "mid", 0, false, wait(1) });
		transition(slow, { "t", { { "in", 1 } }, { { "mid", 1 } }, {}, { [&] { if (where == 0) gate.wait(); return true; } }, true });
		std::thread th(
			[&]
			{
				if (where == 3)
					slow.incrementInputPlace("in");
				slow.execute(where == 4, log);
			});
		mc::quiesce();
		MC_CHECK(gate.waiting() == 1, "the slow callback is not waiting");
		{
			Line y(m1, 1, nullptr, set);
			y.e.execute();
			y.e.incrementInputPlace("in");
			if (m1 == Mode::SINGLE_THREAD)
				y.e.execute();
			mc::quiesce();
			mc::settle(250);
			mc::quiesce();
			y.check("the other engine", 1, 1);
			y.e.stop();
			y.e.setActionsThreadOption(m0);
			std::ostringstream o;
			y.e.incrementInputPlace("in");
			y.e.execute(true, o);
			mc::quiesce();
			mc::settle(250);
			mc::quiesce();
			y.check("the other engine", 1, 2);
			y.e.stop();
			y.e.printState(o);
			y.e.clearNet();
		}
		Small z;
		fill(z, SETS[2], 2, 1);
		z.execute("SINGLE_THREAD engine");
		MC_CHECK(gate.waiting() == 1, "the slow callback is not waiting any more");
		gate.open();
		mc::quiesce();
		mc::settle(250);
		mc::quiesce();
		th.join();
		MC_CHECK(tok(slow, "mid") == 1, "mid %ld", tok(slow, "mid"));
		slow.stop();
	}
	mc::quiesce();
}
MC_SCENARIO(not_held_up, { .p = 1, .pThorough = 2, .shards = 40, .delayBounded = true })
{
	int c = mc::config(4 * 4 * 5);
	notHeldUp(ALLMODES[c % 4], ALLMODES[c / 4 % 4], c / 16);
}

// Actions of one engine feed the next; in the modes with asynchronous actions also in a ring.
MC_SCENARIO(pipeline, { .p = 1, .pThorough = 2, .shards = 9, .delayBounded = true })
{
	int c = mc::config(9);
	const Mode m0 = ASYNC[c % 3], m1 = ASYNC[c / 3];
	const bool ring = m0 != Mode::EVENT_LOOP && m1 != Mode::EVENT_LOOP;
	const int n = 1 + mc::choose(2);
	std::atomic<int> back{ ring ? 1 : 0 };
	const int extra = back;
	{
		Eng first(m0), second(m1);
		place(first, { "in", 0, true });
		place(first, { "out", 0, false, [&] { second.incrementInputPlace("in"); } });
		transition(first, { "t", { { "in", 1 } }, { { "out", 1 } } });
		place(second, { "in", 0, true });
		place(second, { "out", 0, false, [&] { if (back-- > 0) first.incrementInputPlace("in"); } });
		transition(second, { "t", { { "in", 1 } }, { { "out", 1 } } });
		second.execute();
		first.execute();
		for (int i = 0; i < n; ++i)
			first.incrementInputPlace("in");
		mc::quiesce();
		const long want = n + extra;
		MC_CHECK(tok(first, "in") == 0 && tok(first, "out") == want && tok(second, "in") == 0 && tok(second, "out") == want, "%s -> %s: %ld %ld %ld %ld instead of 0 %ld 0 %ld", modeName(m0),
				 modeName(m1), tok(first, "in"), tok(first, "out"), tok(second, "in"), tok(second, "out"), want, want);
		first.stop();
		second.stop();
		mc::quiesce();
		first.stop();
		second.stop();
	}
	mc::quiesce();
}

// An action of one engine starts, stops, changes or destroys another one, busy or idle.
MC_SCENARIO(control, { .p = 1, .pThorough = 2, .shards = 12, .delayBounded = true })
{
	int c = mc::config(3 * 4 * 8);
	const Mode m0 = ASYNC[c % 3], m1 = ALLMODES[c / 3 % 4];
	const int what = c / 12;
	const bool running = m1 != Mode::SINGLE_THREAD && mc::choose(2);
	{
		auto other = std::make_unique<Line>(m1, 1);
		Eng first(m0);
		std::atomic<bool> done{ false }, thrown{ false };
		string marking;
		place(first, { "in", 0, true });
		place(first, { "out", 0, false, [&]
					   {
						   const bool t = throws(
							   [&]
							   {
								   switch (what)
								   {
								   case 0:
									   other->e.stop();
									   MC_CHECK(!other->e.isEventLoopRunning(), "running after stop() in a callback of another engine");
									   marking = engineMarking(other->e);
									   break;
								   case 1: other->e.execute(); break;
								   case 2: other.reset(); break;
								   case 3: other->e.clearNet(); break;
								   case 4: other->e.setActionsThreadOption(Mode::EVENT_LOOP); break;
								   case 5: other->e.setEventLoopSleepDuration(ms(3)); break;
								   case 6: other->e.addArc(arc("out", 1, AT::INHIBITOR, "t")); break;
								   case 7: other = std::make_unique<Line>(m0, 2); break;
								   }
							   });
						   thrown = t;
						   done = true;
					   } });
		transition(first, { "t", { { "in", 1 } }, { { "out", 1 } } });
		if (running)
			other->e.execute();
		other->e.incrementInputPlace("in");
		if (what == 2 || what == 7) // nothing pending in the engine to be destroyed
			mc::quiesce();
		first.execute();
		first.incrementInputPlace("in");
		mc::quiesce();
		first.stop();
		MC_CHECK(done, "%s: the action did not return", modeName(m0));
		MC_CHECK(tok(first, "out") == 1 && tok(first, "in") == 0 && first.getActionsThreadOption() == m0 && first.getEventLoopSleepDuration() == ms(100), "the first engine has changed");
		const bool refused = running && (what == 1 || what == 3 || what == 4 || what == 6);
		MC_CHECK(thrown == refused, "call %d on a %s engine %s", what, running ? "running" : "stopped", thrown ? "threw" : "did not throw");
		if (other)
		{
			if (what == 0)
			{
				mc::settle(250);
				mc::quiesce();
				const string later = engineMarking(other->e);
				MC_CHECK(later == marking, "the marking changed from %s to %s after stop()", marking.c_str(), later.c_str());
			}
			const bool now = what == 0 || what == 7 ? false : what == 1 ? m1 != Mode::SINGLE_THREAD : running;
			MC_CHECK(other->e.isEventLoopRunning() == now, "call %d: running %d", what, other->e.isEventLoopRunning());
			MC_CHECK(other->e.getEventLoopSleepDuration() == ms(what == 5 ? 3 : 100), "call %d: idle period", what);
			MC_CHECK(other->e.getActionsThreadOption() == (what == 7 ? m0 : what == 4 && !running ? Mode::EVENT_LOOP : m1), "call %d: mode", what);
			MC_CHECK(other->e.getPlacesProperties().size() == (what == 3 && !running ? 0u : 3u), "call %d: places", what);
			MC_CHECK(other->e.getTransitionsProperties().size() == (what == 3 && !running ? 0u : 2u), "call %d: transitions", what);
			other->e.stop();
		}
	}
	mc::quiesce();
}

// An action of one engine destroys another one in the middle of its work: the actions of its job queue are over by then.
MC_SCENARIO(destroy_busy, { .p = 1, .pThorough = 2, .shards = 9, .delayBounded = true })
{
	int c = mc::config(9);
	const Mode m0 = ASYNC[c % 3], m1 = ASYNC[c / 3];
	{
		std::atomic<bool> destroyed{ false };
		std::atomic<int> late{ 0 };
		auto other = std::make_unique<Line>(m1, 1,
											[&, m1](int)
											{
												if (destroyed && m1 != Mode::DETACHED)
													++late;
												mc::mark();
												if (destroyed && m1 != Mode::DETACHED)
													++late;
											});
		other->e.execute();
		Eng first(m0);
		place(first, { "in", 1, true });
		place(first, { "out", 0, false, [&]
					   {
						   other.reset();
						   destroyed = true;
					   } });
		transition(first, { "t", { { "in", 1 } }, { { "out", 1 } } });
		other->e.incrementInputPlace("in");
		first.execute();
		mc::quiesce();
		mc::settle(250);
		mc::quiesce();
		MC_CHECK(destroyed && !late, "destroyed %d, %d actions executed after that", (int)destroyed, (int)late);
		first.stop();
		MC_CHECK(tok(first, "out") == 1, "out %ld", tok(first, "out"));
		mc::quiesce();
	}
	mc::quiesce();
}

// ---- what is set and written --------------------------------------------------------------------------------------

// Each engine re-evaluates at its own idle period and writes to its own stream.
MC_SCENARIO(periods_and_logs, { .p = 0, .pThorough = 1, .shards = 9, .delayBounded = true })
{
	int c = mc::config(9);
	mc::maxTimers(200);
	const Mode m0 = ASYNC[c % 3], m1 = ASYNC[c / 3];
	const bool swap = mc::choose(2);
	{
		int n[2] = {};
		std::ostringstream o[2];
		Eng x(m0), y(m1);
		Eng *e[2] = { &x, &y };
		for (int i = 0; i < 2; ++i)
		{
			place(*e[i], { string(1, 'x' + i) + "place", 1 });
			transition(*e[i], { "t", { { string(1, 'x' + i) + "place", 1 } }, {}, {}, { [&n, i] { ++n[i]; return false; } } });
			e[i]->setEventLoopSleepDuration(ms(10));
		}
		const int slow = swap, fast = !swap;
		e[slow]->setEventLoopSleepDuration(ms(1000));
		MC_CHECK(e[fast]->getEventLoopSleepDuration() == ms(10) && e[slow]->getEventLoopSleepDuration() == ms(1000), "idle periods");
		x.execute(true, o[0]);
		y.execute(true, o[1]);
		mc::quiesce();
		mc::settle(200);
		e[slow]->stop();
		e[fast]->stop();
		mc::quiesce();
		MC_CHECK(n[fast] >= 19, "%d evaluations in 200 ms with an idle period of 10 ms", n[fast]);
		MC_CHECK(n[slow] >= 1, "no evaluation");
		for (int i = 0; i < 2; ++i)
		{
			const string s = o[i].str();
			size_t reports = 0;
			for (size_t k = s.find("Place; Tokens"); k != string::npos; k = s.find("Place; Tokens", k + 1))
				++reports;
			MC_CHECK(s.find(string(1, 'x' + 1 - i) + "place") == string::npos, "the log of engine %d reports the other engine's place: %s", i, s.substr(0, 200).c_str());
			MC_CHECK((int)reports == n[i], "%zu reports of engine %d in %d evaluations", reports, i, n[i]);
		}
	}
	mc::quiesce();
}

// An on-enter action pending in one engine holds back no transition of another with the same names.
MC_SCENARIO(actions_in_execution, { .p = 1, .pThorough = 2, .shards = 8, .delayBounded = true })
{
	int c = mc::config(4);
	const Mode m0 = c % 2 ? Mode::JOB_QUEUE : Mode::DETACHED, m1 = c / 2 ? Mode::JOB_QUEUE : Mode::DETACHED;
	mc::Gate gate;
	{
		auto build = [](Eng &e, const ActionFunction &f)
		{
			place(e, { "a", 0, true, f });
			place(e, { "b" });
			transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, {}, true });
		};
		auto wait = [&] { gate.wait(); };
		Eng x(m0), y(m1);
		build(x, wait);
		build(y, [] {});
		x.execute();
		y.execute();
		x.incrementInputPlace("a");
		mc::quiesce();
		y.incrementInputPlace("a");
		mc::quiesce();
		mc::settle(100);
		mc::quiesce();
		MC_CHECK(tok(x, "b") == 0 && tok(y, "b") == 1, "b %ld %ld", tok(x, "b"), tok(y, "b"));
		gate.open();
		mc::quiesce();
		mc::settle(100);
		mc::quiesce();
		MC_CHECK(tok(x, "b") == 1 && tok(y, "b") == 1, "b %ld %ld", tok(x, "b"), tok(y, "b"));
		x.stop();
		y.stop();
	}
	mc::quiesce();
}

// The same function object in several places and engines: all calls count, in every mode.
MC_SCENARIO(shared_functions, { .p = 1, .pThorough = 2, .shards = 4, .delayBounded = true })
{
	const Mode m = ALLMODES[mc::config(4)];
	std::atomic<int> acts{ 0 }, conds{ 0 };
	ActionFunction f = [&] { ++acts; };
	ConditionFunction g = [&] { ++conds; return true; };
	{
		vector<std::unique_ptr<Eng>> v;
		for (int i = 0; i < 2; ++i)
		{
			v.push_back(std::make_unique<Eng>(m));
			place(*v[i], { "a", 0, true, f, f });
			place(*v[i], { "b", 0, false, f, f });
			transition(*v[i], { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { g, g } });
			v[i]->incrementInputPlace("a");
		}
		for (auto &e : v)
			e->execute();
		mc::quiesce();
		for (auto &e : v)
		{
			MC_CHECK(tok(*e, "a") == 0 && tok(*e, "b") == 1, "%s: a %ld b %ld", modeName(m), tok(*e, "a"), tok(*e, "b"));
			e->stop();
		}
	}
	mc::quiesce();
	MC_CHECK(acts == 6 && conds == 4, "%s: %d actions, %d conditions", modeName(m), (int)acts, (int)conds);
}

// Importing into one engine or exporting another, also with one importer and exporter for both.
MC_SCENARIO(files, { .p = 0, .pThorough = 0, .shards = 4 })
{
	int c = mc::config(16);
	const bool oneImporter = c & 1, oneExporter = c >> 1 & 1;
	const int order = c >> 2;
	const string fx = scratch("C25_x" + std::to_string(c) + ".xml"), fy = scratch("C25_y" + std::to_string(c) + ".xml");
	auto make = [](Eng &e, int i)
	{
		e.registerAction("f", [] {});
		PlaceProperties p;
		p.name = "a";
		p.initialNumberOfTokens = 3 + i;
		p.input = i;
		p.onEnterActionFunctionName = i ? "f" : "";
		e.createPlace(p);
		place(e, { i ? "ypl" : "xpl", 1 });
		transition(e, { "t", { { "a", size_t(2 + i) } }, { { i ? "ypl" : "xpl", 1 } }, {}, {}, i == 0 });
	};
	Eng x(Mode::DETACHED), y(Mode::EVENT_LOOP);
	make(x, 0);
	make(y, 1);
	const string sx = snapshot(x), sy = snapshot(y);
	auto e1 = FileExporterFactory::createXMLFileExporter(), e2 = FileExporterFactory::createXMLFileExporter();
	auto i1 = FileImporterFactory::createXMLFileImporter(), i2 = FileImporterFactory::createXMLFileImporter();
	auto &ey = oneExporter ? e1 : e2;
	auto &iy = oneImporter ? i1 : i2;
	Eng x2(Mode::SINGLE_THREAD), y2(Mode::SINGLE_THREAD);
	for (auto *e : { &x2, &y2 })
		e->registerAction("f", [] {});
	if (order & 1)
	{
		e1->_export(x, fx);
		ey->_export(y, fy);
	}
	else
	{
		ey->_export(y, fy);
		e1->_export(x, fx);
	}
	if (order & 2)
	{
		i1->_import(fx, x2);
		MC_CHECK(y2.getPlacesProperties().empty(), "importing into one engine changed another");
		iy->_import(fy, y2);
	}
	else
	{
		iy->_import(fy, y2);
		MC_CHECK(x2.getPlacesProperties().empty(), "importing into one engine changed another");
		i1->_import(fx, x2);
	}
	MC_CHECK(snapshot(x) == sx && snapshot(y) == sy, "export or import changed another engine");
	MC_CHECK(snapshot(x2) == sx && x2.getActionsThreadOption() == Mode::DETACHED, "first net: imported\n%s exported\n%s", snapshot(x2).c_str(), sx.c_str());
	MC_CHECK(snapshot(y2) == sy && y2.getActionsThreadOption() == Mode::EVENT_LOOP, "second net: imported\n%s exported\n%s", snapshot(y2).c_str(), sy.c_str());
}
