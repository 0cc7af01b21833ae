// Net editing follows its reference semantics with no partial effects (C16): every sequence of edits up to a
// depth from several nets, compared with the reference after each.
#include "refnet.h"

// Reference state: the net and the registered functions (by identity, -1 for a null function).
struct Ref
{
	RefNet net;
	std::map<string, int> actions, conds;
};

struct CPlace
{
	string name;
	size_t tokens = 0;
	bool input = false;
	string enter, exit; // registered names
	int enterId = -1, exitId = -1; // functions given
};
struct CTrans
{
	string name;
	vector<RefArc> in, out, inh;
	vector<string> conds; // registered names
	vector<int> condIds; // functions given
	bool noAct = false;
};
struct CArc
{
	string place, trans;
	AT type;
	size_t w = 1;
};

struct Edit
{
	enum Kind
	{
		PLACE,
		TRANS,
		ADD,
		REMOVE,
		CLEAR,
		ACTION,
		COND,
		INJECT,
		TOKENS,
		EXECUTE
	} kind;
	CPlace p;
	CTrans t;
	CArc a;
	string name;
	int id = -1;
};

static bool repeated(const vector<RefArc> &v)
{
	std::set<string> s;
	for (auto &a : v)
		if (!s.insert(a.place).second)
			return true;
	return false;
}

// Applies the edit to the reference; false if it has to be refused (the reference is left as it is).
static bool refApply(Ref &r, const Edit &d)
{
	auto &net = r.net;
	switch (d.kind)
	{
	case Edit::PLACE:
	{
		RefPlace p;
		p.tokens = d.p.tokens;
		p.input = d.p.input;
		p.enterId = d.p.enterId;
		p.exitId = d.p.exitId;
		p.enterName = d.p.enter;
		p.exitName = d.p.exit;
		for (auto [n, id] : { std::pair<const string &, int &>(p.enterName, p.enterId), std::pair<const string &, int &>(p.exitName, p.exitId) })
			if (!n.empty())
			{
				auto it = r.actions.find(n);
				if (it == r.actions.end() || it->second == -1)
					return false;
				id = it->second;
			}
		if (d.p.name.empty() || net.places.count(d.p.name))
			return false;
		net.places[d.p.name] = p;
		return true;
	}
	case Edit::TRANS:
	{
		RefTrans t;
		t.in = d.t.in;
		t.out = d.t.out;
		t.inh = d.t.inh;
		t.noAct = d.t.noAct;
		if (d.t.name.empty() || net.trans.count(d.t.name))
			return false;
		for (auto *v : { &t.in, &t.out, &t.inh })
		{
			if (repeated(*v))
				return false;
			for (auto &a : *v)
				if (a.w == 0 || !net.places.count(a.place))
					return false;
		}
		for (auto &c : d.t.conds)
		{
			auto it = r.conds.find(c);
			if (it == r.conds.end())
				return false;
			t.conds.push_back({ c, it->second });
		}
		if (d.t.conds.empty())
			for (int id : d.t.condIds)
				t.conds.push_back({ "", id });
		net.trans[d.t.name] = t;
		return true;
	}
	case Edit::ADD:
	case Edit::REMOVE:
	{
		if (!net.places.count(d.a.place) || !net.trans.count(d.a.trans))
			return false;
		auto &t = net.trans[d.a.trans];
		vector<vector<RefArc> *> lists;
		if (d.a.type == AT::ACTIVATION || d.a.type == AT::BIDIRECTIONAL)
			lists.push_back(&t.in);
		if (d.a.type == AT::DESTINATION || d.a.type == AT::BIDIRECTIONAL)
			lists.push_back(&t.out);
		if (d.a.type == AT::INHIBITOR)
			lists.push_back(&t.inh);
		if (lists.empty())
			return false; // no such type
		if (d.kind == Edit::ADD && d.a.w == 0 && d.a.type != AT::ACTIVATION)
			return false;
		auto at = [&](vector<RefArc> *l)
		{ return std::find_if(l->begin(), l->end(), [&](const RefArc &a) { return a.place == d.a.place; }); };
		for (auto *l : lists)
			if ((at(l) != l->end()) != (d.kind == Edit::REMOVE))
				return false;
		for (auto *l : lists)
			if (d.kind == Edit::ADD)
				l->push_back({ d.a.place, d.a.w });
			else
				l->erase(at(l));
		return true;
	}
	case Edit::CLEAR:
		net.places.clear();
		net.trans.clear();
		return true;
	case Edit::ACTION:
	case Edit::COND:
	{
		auto &m = d.kind == Edit::ACTION ? r.actions : r.conds;
		if (d.name.empty() || m.count(d.name))
			return false;
		m[d.name] = d.id;
		return true;
	}
	case Edit::INJECT:
	{
		auto it = net.places.find(d.name);
		if (it == net.places.end() || !it->second.input)
			return false;
		++it->second.tokens;
		return true;
	}
	case Edit::TOKENS: return net.places.count(d.name) > 0;
	case Edit::EXECUTE: return true; // handled by the caller
	}
	return false;
}

static void engApply(Eng &e, Probe &pr, const Edit &d)
{
	switch (d.kind)
	{
	case Edit::PLACE:
	{
		PlaceProperties p;
		p.name = d.p.name;
		p.initialNumberOfTokens = d.p.tokens;
		p.input = d.p.input;
		p.onEnterActionFunctionName = d.p.enter;
		p.onExitActionFunctionName = d.p.exit;
		if (d.p.enterId >= 0)
			p.onEnterAction = pr.act(d.p.enterId);
		if (d.p.exitId >= 0)
			p.onExitAction = pr.act(d.p.exitId);
		e.createPlace(p);
		return;
	}
	case Edit::TRANS:
	{
		TransitionProperties t;
		t.name = d.t.name;
		for (auto &a : d.t.in)
			t.activationArcs.push_back(refArc(a, AT::ACTIVATION));
		for (auto &a : d.t.out)
			t.destinationArcs.push_back(refArc(a, AT::DESTINATION));
		for (auto &a : d.t.inh)
			t.inhibitorArcs.push_back(refArc(a, AT::INHIBITOR));
		t.additionalConditionsNames = d.t.conds;
		for (int id : d.t.condIds)
			t.additionalConditions.push_back(pr.cond(id));
		t.requireNoActionsInExecution = d.t.noAct;
		e.createTransition(t);
		return;
	}
	case Edit::ADD: e.addArc(arc(d.a.place, d.a.w, d.a.type, d.a.trans)); return;
	case Edit::REMOVE: e.removeArc(arc(d.a.place, d.a.w, d.a.type, d.a.trans)); return;
	case Edit::CLEAR: e.clearNet(); return;
	case Edit::ACTION: e.registerAction(d.name, d.id >= 0 ? pr.act(d.id) : ActionFunction()); return;
	case Edit::COND: e.registerCondition(d.name, d.id >= 0 ? pr.cond(d.id) : ConditionFunction()); return;
	case Edit::INJECT: e.incrementInputPlace(d.name); return;
	case Edit::TOKENS: e.getNumberOfTokens(d.name); return;
	case Edit::EXECUTE: e.execute(); return;
	}
}

static string text(const Edit &d)
{
	std::ostringstream o;
	auto list = [&](const char *w, const vector<RefArc> &v)
	{
		if (!v.empty())
			o << " " << w;
		for (auto &a : v)
			o << " " << (a.place.empty() ? "\"\"" : a.place) << "*" << a.w;
	};
	switch (d.kind)
	{
	case Edit::PLACE:
		o << "createPlace(\"" << d.p.name << "\" tokens " << d.p.tokens << (d.p.input ? " input" : "") << " enter \"" << d.p.enter << "\"/" << d.p.enterId
		  << " exit \"" << d.p.exit << "\"/" << d.p.exitId << ")";
		break;
	case Edit::TRANS:
		o << "createTransition(\"" << d.t.name << "\"";
		list("in", d.t.in);
		list("out", d.t.out);
		list("inh", d.t.inh);
		for (auto &c : d.t.conds)
			o << " cond \"" << c << "\"";
		for (auto &c : d.t.condIds)
			o << " cond/" << c;
		o << (d.t.noAct ? " noact" : "") << ")";
		break;
	case Edit::ADD:
	case Edit::REMOVE:
		o << (d.kind == Edit::ADD ? "addArc(" : "removeArc(") << d.a.place << " " << d.a.trans << " type " << (int)d.a.type << " weight " << d.a.w << ")";
		break;
	case Edit::CLEAR: o << "clearNet()"; break;
	case Edit::ACTION: o << "registerAction(\"" << d.name << "\", " << d.id << ")"; break;
	case Edit::COND: o << "registerCondition(\"" << d.name << "\", " << d.id << ")"; break;
	case Edit::INJECT: o << "incrementInputPlace(" << d.name << ")"; break;
	case Edit::TOKENS: o << "getNumberOfTokens(" << d.name << ")"; break;
	case Edit::EXECUTE: o << "execute()"; break;
	}
	return o.str();
}

static Edit P_(CPlace p)
{
	Edit d{ Edit::PLACE };
	d.p = p;
	return d;
}
static Edit T_(CTrans t)
{
	Edit d{ Edit::TRANS };
	d.t = t;
	return d;
}
static Edit A_(Edit::Kind k, const string &place, const string &trans, AT type, size_t w = 1)
{
	Edit d{ k };
	d.a = { place, trans, type, w };
	return d;
}
static Edit N_(Edit::Kind k, const string &name, int id = -1)
{
	Edit d{ k };
	d.name = name;
	d.id = id;
	return d;
}

static vector<Edit> alphabet()
{
	vector<Edit> v;
	auto p = [&](CPlace x) { v.push_back(P_(x)); };
	auto t = [&](CTrans x) { v.push_back(T_(x)); };
	p({ "a" });
	p({ "a", 2, true, "f", "g" });
	p({ "b", 3 });
	p({ "b", 1, true, "", "", 11, 12 });
	p({ "", 1 });
	p({ "c", 1, false, "f", "", 13, 14 });
	p({ "c", 1, true, "", "h" });
	p({ "c", 1, true, "n", "" });
	p({ "c", 1, true, "n2", "n2" });
	p({ "A", 4, false, "", "f" });
	t({ "t" });
	t({ "t", { { "a", 1 } }, { { "b", 1 } } });
	t({ "t", { { "a", 2 }, { "b", 1 } }, { { "b", 3 }, { "a", 1 } }, { { "c", 1 } }, { "p" }, {}, true });
	t({ "u", { { "b", 1 } }, { { "c", 2 } }, { { "a", 1 }, { "c", 4 } }, {}, { 21, 22 } });
	t({ "u", { { "a", 1 } }, { { "a", 1 } }, { { "a", 1 } } });
	t({ "", { { "a", 1 } } });
	t({ "v", { { "a", 1 }, { "z", 1 } } });
	t({ "v", {}, { { "a", 1 }, { "z", 1 } } });
	t({ "v", {}, {}, { { "a", 1 }, { "", 1 } } });
	t({ "v", { { "a", 1 }, { "b", 1 }, { "a", 2 } } });
	t({ "v", {}, { { "a", 1 }, { "b", 1 }, { "a", 1 } } });
	t({ "v", {}, {}, { { "b", 1 }, { "b", 1 } } });
	t({ "v", { { "a", 1 }, { "b", 0 } } });
	t({ "v", {}, { { "a", 0 } } });
	t({ "v", {}, {}, { { "b", 1 }, { "a", 0 } } });
	t({ "v", {}, {}, {}, { "p", "q" }, { 23 } });
	t({ "v", {}, {}, {}, { "q", "nope" } });
	t({ "v", {}, {}, {}, { "q", "" } });
	t({ "v", {}, {}, {}, { "q", "q" } });
	t({ "v", {}, {}, {}, { "f" } });
	for (auto k : { Edit::ADD, Edit::REMOVE })
	{
		for (auto type : { AT::ACTIVATION, AT::DESTINATION, AT::BIDIRECTIONAL, AT::INHIBITOR })
		{
			v.push_back(A_(k, "a", "t", type, k == Edit::ADD ? 2 : 1));
			v.push_back(A_(k, "b", "t", type, k == Edit::ADD ? 1 : 5));
			v.push_back(A_(k, "a", "u", type, k == Edit::ADD ? 3 : 0));
			if (k == Edit::ADD)
				v.push_back(A_(k, "b", "t", type, 0));
		}
		v.push_back(A_(k, "c", "u", AT::INHIBITOR, 2));
		v.push_back(A_(k, "z", "t", AT::ACTIVATION));
		v.push_back(A_(k, "a", "z", AT::DESTINATION));
		v.push_back(A_(k, "t", "a", AT::ACTIVATION));
		v.push_back(A_(k, "", "t", AT::DESTINATION));
		v.push_back(A_(k, "a", "", AT::INHIBITOR));
		v.push_back(A_(k, "a", "t", (AT)99));
	}
	v.push_back({ Edit::CLEAR });
	v.push_back(N_(Edit::ACTION, "f", 1));
	v.push_back(N_(Edit::ACTION, "f", 2));
	v.push_back(N_(Edit::ACTION, "g", 3));
	v.push_back(N_(Edit::ACTION, "", 4));
	v.push_back(N_(Edit::ACTION, "n", -1));
	v.push_back(N_(Edit::ACTION, "n", 5));
	v.push_back(N_(Edit::COND, "p", 6));
	v.push_back(N_(Edit::COND, "p", 7));
	v.push_back(N_(Edit::COND, "q", 8));
	v.push_back(N_(Edit::COND, "", 9));
	v.push_back(N_(Edit::INJECT, "a"));
	v.push_back(N_(Edit::INJECT, "b"));
	v.push_back(N_(Edit::INJECT, "t"));
	v.push_back(N_(Edit::TOKENS, "a"));
	v.push_back(N_(Edit::TOKENS, "z"));
	v.push_back({ Edit::EXECUTE });
	return v;
}

// The nets the sequences start from, as sequences themselves.
static const int STARTS = 5;
static vector<Edit> start(int k)
{
	const Edit f = N_(Edit::ACTION, "f", 1), g = N_(Edit::ACTION, "g", 3), p = N_(Edit::COND, "p", 6), q = N_(Edit::COND, "q", 8);
	switch (k)
	{
	case 0: return {};
	case 1: return { P_({ "a", 2, true }), P_({ "b", 1 }), P_({ "c" }), T_({ "t", { { "a", 1 } }, { { "b", 1 } } }) };
	case 2:
		return { f, g, p, q, P_({ "a", 2, true, "f", "g" }), P_({ "b", 1, false, "", "", 11, 12 }), P_({ "c", 0, true }),
				 T_({ "t", { { "a", 2 }, { "b", 1 } }, { { "b", 3 }, { "a", 1 } }, { { "c", 1 } }, { "p" }, {}, true }),
				 T_({ "u", { { "b", 1 } }, { { "c", 2 } }, { { "a", 1 } }, {}, { 21, 22 } }) };
	case 3:
		return { f, g, p, q, P_({ "a", 5, true, "g", "g" }), P_({ "b", 0, true, "", "g" }), P_({ "c", 0, true }), T_({ "t" }), T_({ "u" }),
				 A_(Edit::ADD, "a", "t", AT::ACTIVATION, 0), A_(Edit::ADD, "b", "t", AT::BIDIRECTIONAL, 2), A_(Edit::ADD, "c", "u", AT::BIDIRECTIONAL, 1),
				 { Edit::CLEAR }, P_({ "a", 1 }), P_({ "b", 2, true }), P_({ "c", 7 }), T_({ "t", { { "c", 7 } } }), T_({ "u" }) };
	case 4:
		return { f, p, P_({ "a", 1, true, "f" }), P_({ "b" }), T_({ "t" }), T_({ "u", { { "a", 1 } }, {}, { { "b", 1 } }, { "p" } }),
				 A_(Edit::ADD, "a", "t", AT::BIDIRECTIONAL, 1), A_(Edit::ADD, "a", "t", AT::INHIBITOR, 1), A_(Edit::ADD, "b", "t", AT::BIDIRECTIONAL, 2),
				 A_(Edit::REMOVE, "b", "t", AT::DESTINATION) };
	}
	return {};
}

// The final markings of a net all of whose runs end within a small number of states; empty otherwise.
static std::set<string> boundedFinals(const RefNet &n)
{
	std::set<string> finals, done, open;
	bool ok = true;
	std::function<void(const RefNet &)> go = [&](const RefNet &m)
	{
		string k = m.marking();
		if (open.count(k) || done.size() > 60 || open.size() > 60)
			ok = false;
		if (!ok || done.count(k))
			return;
		open.insert(k);
		auto f = m.fireable();
		if (f.empty())
			finals.insert(k);
		for (auto &t : f)
		{
			RefNet x = m;
			x.fire(t);
			go(x);
		}
		open.erase(k);
		done.insert(k);
	};
	go(n);
	if (!ok)
		finals.clear();
	return finals;
}

static string history(const vector<Edit> &s)
{
	string r;
	for (auto &d : s)
		r += "  " + text(d) + "\n";
	return r;
}

// One sequence on a new engine: prefix is known to be well-behaved, every later step is compared.
static void sequence(Mode m, const vector<Edit> &s, size_t known)
{
	Probe pr;
	Ref r;
	Eng e(m);
	for (size_t i = 0; i < s.size(); ++i)
	{
		const Edit &d = s[i];
		const bool check = i >= known;
		if (d.kind == Edit::EXECUTE)
		{
			if (m != Mode::SINGLE_THREAD)
				return;
			auto finals = boundedFinals(r.net);
			if (finals.empty())
				return; // may run for ever
			engApply(e, pr, d);
			string got = engineMarking(e);
			MC_CHECK(finals.count(got), "%sends in %s, which no legal run does", history(s).c_str(), got.c_str());
			for (auto &p : e.getPlacesProperties())
				r.net.places[p.name].tokens = p.initialNumberOfTokens;
		}
		else
		{
			Ref before;
			if (check)
				before = r;
			const bool ok = refApply(r, d);
			const int x = throws([&] { engApply(e, pr, d); });
			if (!check)
				continue;
			MC_CHECK(x <= 1, "%s%s throws something else than a PTN_Exception", history(s).c_str(), text(d).c_str());
			MC_CHECK(x == (ok ? 0 : 1), "%sthe last request is %s", history(s).c_str(), x ? "refused" : "accepted");
		}
		if (check)
		{
			string want = snapshot(r.net, true), got = snapshot(e, &pr);
			MC_CHECK(got == want, "%snet is\n%sinstead of\n%s", history(s).c_str(), got.c_str(), want.c_str());
		}
	}
	mc::state(std::hash<string>{}(snapshot(r.net, true)));
}

// Whether the reference accepts the edit after s.
static bool accepted(const vector<Edit> &s, const Edit &d)
{
	Ref r;
	for (auto &x : s)
		refApply(r, x);
	return refApply(r, d);
}
static const vector<Edit> &alphabetOnce()
{
	return memo(0, "alphabet", [] { return alphabet(); });
}
static const int SIZE = 89; // of the alphabet

MC_SCENARIO(starts, { .p = 0, .pThorough = 0, .shards = 1 })
{
	int k = mc::config(STARTS);
	MC_CHECK((int)alphabet().size() == SIZE, "harness: SIZE is %d", (int)alphabet().size());
	for (Mode m : ALLMODES)
		sequence(m, start(k), 0);
}
// Every sequence of two edits.
MC_SCENARIO(depth2, { .p = 0, .pThorough = 0, .shards = 8 })
{
	int c = mc::config(SIZE * STARTS);
	auto &A = alphabetOnce();
	vector<Edit> s = start(c / SIZE);
	s.push_back(A[c % SIZE]);
	sequence(Mode::SINGLE_THREAD, s, s.size() - 1);
	for (auto &d : A)
	{
		s.push_back(d);
		sequence(Mode::SINGLE_THREAD, s, s.size() - 1);
		s.pop_back();
	}
}
// In the other modes (no actions).
MC_SCENARIO(depth2_async, { .p = 0, .pThorough = 0, .shards = 3 })
{
	int c = mc::config(SIZE * 3);
	auto &A = alphabetOnce();
	vector<Edit> s = start(1);
	s.push_back(A[c % SIZE]);
	for (auto &d : A)
	{
		s.push_back(d);
		sequence(ASYNC[c / SIZE], s, s.size() - 2);
		s.pop_back();
	}
}
static void depth3(int c, bool firstAccepted)
{
	auto &A = alphabetOnce();
	vector<Edit> s = start(c / SIZE / SIZE);
	if (firstAccepted && !accepted(s, A[c / SIZE % SIZE]))
		return;
	s.push_back(A[c / SIZE % SIZE]);
	s.push_back(A[c % SIZE]);
	for (auto &d : A)
	{
		s.push_back(d);
		sequence(Mode::SINGLE_THREAD, s, s.size() - 1);
		s.pop_back();
	}
}
// Every sequence of three edits the first of which is accepted.
MC_SCENARIO(depth3, { .p = 0, .pThorough = 0, .shards = 32 })
{
	depth3(mc::config(SIZE * SIZE * STARTS), true);
}
// Every sequence of three edits.
MC_SCENARIO(depth3_all, { .p = 0, .pThorough = 0, .shards = 64, .thoroughOnly = true })
{
	depth3(mc::config(SIZE * SIZE * STARTS), false);
}

// Every reference state (net and registered functions) reachable by a number of edits of a small alphabet, and every
// edit in each of them.
static void graph(const vector<Edit> &A, const vector<Edit> &from, int depth, int part, int parts)
{
	std::set<string> seen;
	vector<vector<Edit>> level{ from };
	auto keyOf = [](const vector<Edit> &s)
	{
		Ref r;
		for (auto &x : s)
			refApply(r, x);
		string k = snapshot(r.net, true);
		for (auto &[n, i] : r.actions)
			k += "|" + n + std::to_string(i);
		for (auto &[n, i] : r.conds)
			k += "/" + n + std::to_string(i);
		return k;
	};
	vector<vector<Edit>> todo;
	{
		mc::Outside o;
		seen.insert(keyOf(from));
		for (int i = 0; i <= depth; ++i)
		{
			vector<vector<Edit>> next;
			for (auto &s : level)
			{
				todo.push_back(s);
				for (auto &d : A)
				{
					if (!accepted(s, d))
						continue;
					auto x = s;
					x.push_back(d);
					if (seen.insert(keyOf(x)).second)
						next.push_back(x);
				}
			}
			level = next;
		}
	}
	for (size_t i = part; i < todo.size(); i += parts)
		for (auto &d : A)
		{
			todo[i].push_back(d);
			sequence(Mode::SINGLE_THREAD, todo[i], todo[i].size() - 1);
			todo[i].pop_back();
		}
}
// Arcs of one transition and two places.
static vector<Edit> arcEdits()
{
	vector<Edit> v;
	for (auto k : { Edit::ADD, Edit::REMOVE })
		for (auto type : { AT::ACTIVATION, AT::DESTINATION, AT::BIDIRECTIONAL, AT::INHIBITOR })
			for (auto p : { "a", "b" })
				v.push_back(A_(k, p, "t", type, type == AT::ACTIVATION && *p == 'b' ? 0 : 2));
	return v;
}
MC_SCENARIO(arcs_graph, { .p = 0, .pThorough = 0, .shards = 8 })
{
	mc::maxSteps(100000000);
	int c = mc::config(32);
	graph(arcEdits(), { P_({ "a", 1 }), P_({ "b" }), T_({ "t" }) }, 6, c, 32);
}
// Places, transitions, functions and clearNet.
MC_SCENARIO(names_graph, { .p = 0, .pThorough = 0, .shards = 8 })
{
	mc::maxSteps(100000000);
	vector<Edit> v{ P_({ "a", 1, true, "f" }), P_({ "b", 0, false, "", "f" }), T_({ "t", { { "a", 1 } }, { { "b", 1 } }, {}, { "p" } }), T_({ "u", { { "b", 1 } } }),
					{ Edit::CLEAR }, N_(Edit::ACTION, "f", 1), N_(Edit::COND, "p", 2), N_(Edit::INJECT, "a"),
					A_(Edit::ADD, "b", "t", AT::INHIBITOR), A_(Edit::REMOVE, "a", "t", AT::ACTIVATION), { Edit::EXECUTE } };
	int c = mc::config(32);
	graph(v, {}, 9, c, 32);
}

// Names: any two different non-empty strings name different things.
MC_SCENARIO(names, { .p = 0, .pThorough = 0, .shards = 4 })
{
	const vector<string> N{ "", "a", "A", "a ", " a", "ab", "b", string(300, 'a'), string(300, 'a') + "b", "\xc3\xa9", "<&\">", "0", "\n", "Place; Tokens",
							string(5000, 'a'), string(4999, 'a') + "b", string("a\0", 2), string("a\0b", 3), string("\0", 1), "\xff", "a\xff" };
	const string x = N[mc::config((int)N.size())];
	const string y = N[mc::choose((int)N.size())];
	{
		vector<Edit> s;
		auto step = [&](Edit d) { s.push_back(d); };
		step(N_(Edit::ACTION, x, 1));
		step(N_(Edit::ACTION, y, 2));
		step(N_(Edit::COND, x, 3));
		step(N_(Edit::COND, y, 4));
		step(P_({ x, 1, true, x, y }));
		step(P_({ y, 2, true, y, x }));
		step(T_({ x, { { x, 1 } }, { { y, 1 } }, {}, { y.empty() ? "a" : y } }));
		step(T_({ y, { { y, 1 }, { x, 1 } }, { { x, 1 }, { y, 2 } }, {}, x.empty() ? vector<string>{} : vector<string>{ x } }));
		step(A_(Edit::ADD, x, y, AT::INHIBITOR, 1));
		step(A_(Edit::ADD, y, x, AT::ACTIVATION, 2));
		step(A_(Edit::REMOVE, y, x, AT::DESTINATION));
		step(N_(Edit::INJECT, y));
		step(N_(Edit::TOKENS, x));
		sequence(Mode::SINGLE_THREAD, s, 0);
	}
}
// Many places, transitions and arcs (the containers grow).
MC_SCENARIO(many, { .p = 0, .pThorough = 0, .shards = 7 })
{
	const int sizes[] = { 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 33, 40, 50 };
	mc::maxSteps(100000000);
	int n = sizes[mc::config(14)];
	vector<Edit> s;
	for (int i = 0; i < n; ++i)
		s.push_back(P_({ "p" + std::to_string(i), (size_t)i, i % 3 == 0 }));
	for (int i = 0; i < n; ++i)
		s.push_back(P_({ "p" + std::to_string(i), 100 }));
	s.push_back(T_({ "t" }));
	for (int i = 0; i < n; ++i)
		for (auto type : { AT::ACTIVATION, AT::DESTINATION, AT::INHIBITOR })
			s.push_back(A_(Edit::ADD, "p" + std::to_string(i), "t", type, i + 1));
	for (int i = 0; i < n; ++i)
		s.push_back(A_(Edit::ADD, "p" + std::to_string(i), "t", AT::BIDIRECTIONAL, i + 1));
	for (int i = 0; i < n; ++i)
		s.push_back(A_(Edit::REMOVE, "p" + std::to_string(i * 7 % n), "t", i % 2 ? AT::BIDIRECTIONAL : AT::INHIBITOR));
	CTrans u{ "u" };
	for (int i = 0; i < n; ++i)
	{
		u.in.push_back({ "p" + std::to_string(i), (size_t)i + 1 });
		u.out.push_back({ "p" + std::to_string(n - 1 - i), 2 });
		u.condIds.push_back(i);
	}
	s.push_back(T_(u));
	u.name = "v";
	u.in.push_back({ "p0", 5 });
	s.push_back(T_(u));
	for (int i = 0; i < n; ++i)
	{
		s.push_back(T_({ "t" + std::to_string(i), { { "p" + std::to_string(i), 1 } } }));
		s.push_back(N_(Edit::ACTION, "f" + std::to_string(i), i));
		s.push_back(N_(Edit::COND, "f" + std::to_string(i), i));
	}
	for (int i = 0; i < n; ++i)
	{
		s.push_back(T_({ "t" + std::to_string(i) }));
		s.push_back(N_(Edit::ACTION, "f" + std::to_string(i), i + 100));
		s.push_back(N_(Edit::INJECT, "p" + std::to_string(i)));
	}
	s.push_back({ Edit::CLEAR });
	for (int i = 0; i < n; ++i)
		s.push_back(P_({ "q" + std::to_string(i), 1, true, "f" + std::to_string(n - 1 - i) }));
	sequence(Mode::SINGLE_THREAD, s, 0);
}

// Every combination of names of registered functions (good, null, unknown) and functions given, for places and transitions.
MC_SCENARIO(functions, { .p = 0, .pThorough = 0, .shards = 4 })
{
	static const char *NAMES[] = { "", "f", "n", "x" };
	int c = mc::config(4 * 4 * 2 * 2 * 2);
	vector<Edit> s{ N_(Edit::ACTION, "f", 1), N_(Edit::ACTION, "g", 2), N_(Edit::ACTION, "n", -1), N_(Edit::COND, "p", 3), N_(Edit::COND, "q", 4) };
	s.push_back(P_({ "a", 1, (bool)(c / 64), NAMES[c % 4], NAMES[c / 4 % 4], c / 16 % 2 ? 11 : -1, c / 32 % 2 ? 12 : -1 }));
	s.push_back(P_({ "a", 2, true, NAMES[c / 4 % 4], "g", -1, 13 }));
	s.push_back(P_({ "b", 3 }));
	size_t known = 5;
	Mode m = ALLMODES[mc::choose(4)];
	sequence(m, s, known);
	static const vector<string> LISTS[] = { {}, { "p" }, { "q", "p" }, { "x" }, { "p", "x", "q" }, { "p", "p", "q" } };
	static const vector<int> GIVEN[] = { {}, { 21 }, { 22, 21, 23 } };
	CTrans t{ "t", { { "b", 2 } }, {}, {}, LISTS[mc::choose(6)], GIVEN[mc::choose(3)], (bool)(c / 64) };
	s.push_back(T_(t));
	t.noAct = !t.noAct;
	s.push_back(T_(t));
	t.name = "u";
	s.push_back(T_(t));
	sequence(m, s, 8);
}
