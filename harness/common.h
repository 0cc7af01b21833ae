// Helpers shared by the harnesses: short forms for building nets and reading them back.
#pragma once
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include "mc.h"
#include <climits>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <utility>
#include <vector>

using namespace ptne;
using Eng = PTN_Engine;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using ms = std::chrono::milliseconds;
using std::string;
using std::vector;

inline const Mode ASYNC[3] = { Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };
inline const Mode ALLMODES[4] = { Mode::SINGLE_THREAD, Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };
inline const char *modeName(Mode m)
{
	switch (m)
	{
	case Mode::SINGLE_THREAD: return "SINGLE_THREAD";
	case Mode::EVENT_LOOP: return "EVENT_LOOP";
	case Mode::JOB_QUEUE: return "JOB_QUEUE";
	case Mode::DETACHED: return "DETACHED";
	}
	return "?";
}

inline ArcProperties arc(const string &place, size_t weight = 1, ArcProperties::Type t = ArcProperties::Type::ACTIVATION,
						 const string &transition = "")
{
	ArcProperties a;
	a.placeName = place;
	a.weight = weight;
	a.type = t;
	a.transitionName = transition;
	return a;
}

using Arcs = vector<std::pair<string, size_t>>;
inline vector<ArcProperties> arcs(const Arcs &v, ArcProperties::Type t)
{
	vector<ArcProperties> r;
	for (auto &[p, w] : v)
		r.push_back(arc(p, w, t));
	return r;
}

struct P
{
	string name;
	size_t tokens = 0;
	bool input = false;
	ActionFunction enter = nullptr, exit = nullptr;
};
inline void place(Eng &e, const P &p)
{
	PlaceProperties pp;
	pp.name = p.name;
	pp.initialNumberOfTokens = p.tokens;
	pp.input = p.input;
	pp.onEnterAction = p.enter;
	pp.onExitAction = p.exit;
	e.createPlace(pp);
}
struct T
{
	string name;
	Arcs in, out, inh;
	vector<ConditionFunction> conds;
	bool noActions = false;
};
inline void transition(Eng &e, const T &t)
{
	TransitionProperties tp;
	tp.name = t.name;
	tp.activationArcs = arcs(t.in, ArcProperties::Type::ACTIVATION);
	tp.destinationArcs = arcs(t.out, ArcProperties::Type::DESTINATION);
	tp.inhibitorArcs = arcs(t.inh, ArcProperties::Type::INHIBITOR);
	tp.additionalConditions = t.conds;
	tp.requireNoActionsInExecution = t.noActions;
	e.createTransition(tp);
}
inline long tok(const Eng &e, const string &p) { return (long)e.getNumberOfTokens(p); }

// Whether f throws (any exception); a thrown PTN_Exception gives 1, another std::exception 2, other 3.
template <typename F> int throws(F f)
{
	try
	{
		f();
		return 0;
	}
	catch (const PTN_Exception &)
	{
		return 1;
	}
	catch (const std::exception &)
	{
		return 2;
	}
	catch (...)
	{
		return 3;
	}
}
