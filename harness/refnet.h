// Reference model of a net: editing, firing and introspection semantics stated independently of the library.
#pragma once
#include "common.h"
#include <algorithm>

using AT = ArcProperties::Type;

struct RefArc
{
	string place;
	size_t w;
	bool operator<(const RefArc &o) const { return place != o.place ? place < o.place : w < o.w; }
};
struct RefPlace
{
	size_t tokens = 0;
	bool input = false;
	string enterName, exitName; // registered names, "" if none
	int enterId = -1, exitId = -1; // identity of the function (-1: none)
};
struct RefTrans
{
	vector<RefArc> in, out, inh;
	vector<std::pair<string, int>> conds; // registered name ("" if anonymous) and identity
	bool noAct = false;
};

struct RefNet
{
	std::map<string, RefPlace> places;
	std::map<string, RefTrans> trans;

	using Cond = std::function<bool(int)>;
	static bool allTrue(int) { return true; }

	bool enabled(const string &t, const Cond &cond = allTrue) const
	{
		auto &r = trans.at(t);
		for (auto &a : r.in)
			if (places.at(a.place).tokens < a.w)
				return false;
		for (auto &a : r.inh)
			if (places.at(a.place).tokens > 0)
				return false;
		for (auto &c : r.conds)
			if (!cond(c.second))
				return false;
		return true;
	}
	// Whether the firing of t leaves every count representable.
	void fire(const string &t)
	{
		auto &r = trans.at(t);
		for (auto &a : r.in)
		{
			auto &p = places.at(a.place);
			p.tokens = a.w == 0 ? 0 : p.tokens - a.w;
		}
		for (auto &a : r.out)
			places.at(a.place).tokens += a.w;
	}
	vector<string> fireable(const Cond &cond = allTrue) const
	{
		vector<string> v;
		for (auto &[n, _] : trans)
			if (enabled(n, cond))
				v.push_back(n);
		return v;
	}
	string marking() const
	{
		string s;
		for (auto &[n, p] : places)
			s += n + "=" + std::to_string(p.tokens) + " ";
		return s;
	}
	uint64_t hash() const { return std::hash<string>{}(marking()); }
	// All markings reachable by legal firings in which nothing is fireable (finite nets only).
	std::set<string> finals(const Cond &cond = allTrue) const
	{
		std::set<string> seen, out;
		vector<RefNet> todo{ *this };
		seen.insert(marking());
		while (!todo.empty())
		{
			RefNet n = todo.back();
			todo.pop_back();
			auto f = n.fireable(cond);
			if (f.empty())
				out.insert(n.marking());
			for (auto &t : f)
			{
				RefNet m = n;
				m.fire(t);
				if (seen.insert(m.marking()).second)
					todo.push_back(m);
			}
		}
		return out;
	}
	std::set<string> reachable(const Cond &cond = allTrue) const
	{
		std::set<string> seen;
		vector<RefNet> todo{ *this };
		seen.insert(marking());
		while (!todo.empty())
		{
			RefNet n = todo.back();
			todo.pop_back();
			for (auto &t : n.fireable(cond))
			{
				RefNet m = n;
				m.fire(t);
				if (seen.insert(m.marking()).second)
					todo.push_back(m);
			}
		}
		return seen;
	}
};

// The value of f() for this key, computed once per process (outside the program under test). Use within mc::Outside.
template <typename F> auto memo(int slot, const string &key, F f) -> const decltype(f()) &
{
	mc::Outside o;
	using M = std::map<string, decltype(f())>;
	auto *&m = (M *&)mc::persist(slot);
	if (!m)
		m = new M;
	auto it = m->find(key);
	if (it == m->end())
		it = m->emplace(key, f()).first;
	return it->second;
}

inline string engineMarking(const Eng &e)
{
	std::map<string, size_t> m;
	for (auto &p : e.getPlacesProperties())
		m[p.name] = p.initialNumberOfTokens;
	string s;
	for (auto &[n, t] : m)
		s += n + "=" + std::to_string(t) + " ";
	return s;
}

inline string arcsText(vector<RefArc> v)
{
	std::sort(v.begin(), v.end());
	string s;
	for (auto &a : v)
		s += a.place + "*" + std::to_string(a.w) + ",";
	return s;
}
inline string arcsText(const vector<ArcProperties> &v)
{
	vector<RefArc> r;
	for (auto &a : v)
		r.push_back({ a.placeName, a.weight });
	return arcsText(r);
}

// Identity of functions: a function made by act()/cond() with an id reports that id when called.
struct Probe
{
	int last = -1;
	std::map<int, bool> values; // what a condition returns (default true)
	ActionFunction act(int id)
	{
		return [this, id] { last = id; };
	}
	ConditionFunction cond(int id)
	{
		return [this, id]
		{
			last = id;
			auto it = values.find(id);
			return it == values.end() ? true : it->second;
		};
	}
	int idOf(const ActionFunction &f)
	{
		if (!f)
			return -1;
		last = -2;
		f();
		return last;
	}
	int idOf(const ConditionFunction &f)
	{
		if (!f)
			return -1;
		last = -2;
		f();
		return last;
	}
};

// Canonical description of the net as the engine reports it / as the reference has it.
inline string snapshot(const Eng &e, Probe *pr = nullptr)
{
	std::map<string, string> ps, ts;
	for (auto &p : e.getPlacesProperties())
	{
		string s = "P " + p.name + " " + std::to_string(p.initialNumberOfTokens) + (p.input ? " in " : " - ") +
				   p.onEnterActionFunctionName + "/" + p.onExitActionFunctionName;
		if (pr)
			s += " " + std::to_string(pr->idOf(p.onEnterAction)) + " " + std::to_string(pr->idOf(p.onExitAction));
		if (e.getNumberOfTokens(p.name) != p.initialNumberOfTokens)
			s += " BUT getNumberOfTokens " + std::to_string(e.getNumberOfTokens(p.name));
		s += "\n";
		if (ps.count(p.name))
			s += " REPEATED";
		ps[p.name] += s;
	}
	for (auto &t : e.getTransitionsProperties())
	{
		vector<string> c;
		for (size_t i = 0; i < t.additionalConditionsNames.size() || i < t.additionalConditions.size(); ++i)
			c.push_back((i < t.additionalConditionsNames.size() ? t.additionalConditionsNames[i] : "?") + ":" +
						(i < t.additionalConditions.size() ? (pr ? std::to_string(pr->idOf(t.additionalConditions[i])) : "") : "?"));
		std::sort(c.begin(), c.end());
		string s = "T " + t.name + (t.requireNoActionsInExecution ? " noact" : "") + " in " + arcsText(t.activationArcs) +
				   " out " + arcsText(t.destinationArcs) + " inh " + arcsText(t.inhibitorArcs) + " c ";
		for (auto &x : c)
			s += x + ",";
		for (auto *v : { &t.activationArcs, &t.destinationArcs, &t.inhibitorArcs })
			for (auto &a : *v)
			{
				if (a.transitionName != t.name)
					s += " BAD transition name " + a.transitionName;
				AT want = v == &t.activationArcs ? AT::ACTIVATION : v == &t.destinationArcs ? AT::DESTINATION : AT::INHIBITOR;
				if (a.type != want)
					s += " BAD type of " + a.placeName;
			}
		s += "\n";
		if (ts.count(t.name))
			s += " REPEATED";
		ts[t.name] += s;
	}
	string r;
	for (auto &[_, s] : ps)
		r += s;
	for (auto &[_, s] : ts)
		r += s;
	return r;
}
inline string snapshot(const RefNet &n, bool ids)
{
	string r;
	for (auto &[name, p] : n.places)
	{
		r += "P " + name + " " + std::to_string(p.tokens) + (p.input ? " in " : " - ") + p.enterName + "/" + p.exitName;
		if (ids)
			r += " " + std::to_string(p.enterId) + " " + std::to_string(p.exitId);
		r += "\n";
	}
	for (auto &[name, t] : n.trans)
	{
		vector<string> c;
		for (auto &[cn, id] : t.conds)
			c.push_back(cn + ":" + (ids ? std::to_string(id) : ""));
		std::sort(c.begin(), c.end());
		r += "T " + name + (t.noAct ? " noact" : "") + " in " + arcsText(t.in) + " out " + arcsText(t.out) + " inh " +
			 arcsText(t.inh) + " c ";
		for (auto &x : c)
			r += x + ",";
		r += "\n";
	}
	return r;
}

inline ArcProperties refArc(const RefArc &a, AT t, const string &tr = "") { return arc(a.place, a.w, t, tr); }

enum class Build
{
	CREATE,  // arcs given to createTransition (reset arcs still have to be added)
	ADD,     // all arcs added with addArc
	MIXED,   // the first arc of each kind given at creation, the others added
	BIDI,    // as ADD, an activation and a destination arc of equal weight with one place as a bidirectional arc
	DETOUR   // as ADD, with other arcs added and removed again in between
};
inline const int BUILDS = 5;

// Builds the transitions of net (the places exist already).
inline void buildTransition(Eng &e, const string &name, const RefTrans &t, Build b, const vector<ConditionFunction> &conds,
							const vector<string> &condNames = {})
{
	TransitionProperties tp;
	tp.name = name;
	tp.additionalConditions = conds;
	tp.additionalConditionsNames = condNames;
	tp.requireNoActionsInExecution = t.noAct;
	vector<std::pair<RefArc, AT>> later;
	auto put = [&](const vector<RefArc> &v, vector<ArcProperties> &to, AT type)
	{
		for (size_t i = 0; i < v.size(); ++i)
			if (v[i].w != 0 && (b == Build::CREATE || (b == Build::MIXED && i == 0)))
				to.push_back(refArc(v[i], type));
			else
				later.push_back({ v[i], type });
	};
	put(t.in, tp.activationArcs, AT::ACTIVATION);
	put(t.out, tp.destinationArcs, AT::DESTINATION);
	put(t.inh, tp.inhibitorArcs, AT::INHIBITOR);
	e.createTransition(tp);
	if (b == Build::BIDI)
		for (size_t i = 0; i < later.size(); ++i)
			for (size_t j = i + 1; j < later.size(); ++j)
				if (later[i].second == AT::ACTIVATION && later[j].second == AT::DESTINATION &&
					later[i].first.place == later[j].first.place && later[i].first.w == later[j].first.w && later[i].first.w != 0)
				{
					later[i].second = AT::BIDIRECTIONAL;
					later.erase(later.begin() + j);
					break;
				}
	if (b == Build::DETOUR)
	{
		for (auto &[a, type] : later)
		{
			e.addArc(arc(a.place, a.w + 1, type, name));
		}
		for (auto &[a, type] : later)
		{
			e.removeArc(arc(a.place, a.w, type, name));
			e.addArc(refArc(a, type, name));
		}
	}
	else
		for (auto &[a, type] : later)
			e.addArc(refArc(a, type, name));
}
