// One transition and every combination of the features it and its places may have, most of which must not matter.
#pragma once
#include "refnet.h"

struct Feat
{
	Mode m;
	int noAct, conds, log, acts, input, weight, second, inh, loop, more, firings;
	string text() const
	{
		std::ostringstream o;
		o << modeName(m) << " requireNoActions=" << noAct << " conditions=" << conds << " log=" << log << " actions=" << acts << " input=" << input
		  << " weight=" << weight << " second=" << second << " inhibitor=" << inh << " loop=" << loop << " more=" << more << " firings=" << firings;
		return o.str();
	}
};
inline Feat chooseFeat()
{
	Feat f;
	const int c = mc::config(8);
	f.m = ALLMODES[c % 4];
	f.noAct = c / 4;
	f.conds = mc::choose(3);  // none, two anonymous, two named
	f.log = mc::choose(2);
	f.acts = mc::choose(6);	  // none, on-enter, on-exit, both; both registered; one registered function for both; at all places
	f.input = mc::choose(2);  // all places are input places
	f.weight = mc::choose(4); // 1, 3, 1000, 2^40
	f.second = mc::choose(3); // no further activation arc, one, a reset arc
	f.inh = mc::choose(2);
	f.loop = mc::choose(3);	  // destination arcs to other places only, also to the activation places, only to those
	f.more = mc::choose(2);	  // there are other transitions, and places without arcs
	f.firings = 1 + mc::choose(2);
	return f;
}
// The net: places a, b (activation), c (inhibitor), d (destination), budget, fired, other. Events: kind 5, a: 1 enter / 0
// exit, b: place.
struct FeatNet
{
	RefNet ref, start;
	std::multiset<long> exits, enters; // places whose actions each firing triggers
	Eng e;
	std::ostringstream out;
	static bool enterActs(const Feat &f) { return f.acts & 1 || f.acts >= 4; }
	static bool exitActs(const Feat &f) { return f.acts & 2 || f.acts >= 4; }
	FeatNet(const Feat &f) : e(f.m)
	{
		static const size_t W[] = { 1, 3, 1000, size_t(1) << 40 };
		const size_t w = W[f.weight];
		auto &t = ref.trans["t"];
		t.noAct = f.noAct;
		t.in.push_back({ "a", w });
		if (f.second)
			t.in.push_back({ "b", f.second == 2 ? 0 : w + 1 });
		if (f.inh)
			t.inh.push_back({ "c", w });
		t.in.push_back({ "budget", 1 });
		t.out.push_back({ "fired", 1 });
		if (f.loop)
		{
			t.out.push_back({ "a", w + 2 });
			if (f.second)
				t.out.push_back({ "b", w });
		}
		if (f.loop < 2)
			t.out.push_back({ "d", w });
		for (auto *n : { "a", "b", "c", "d", "budget", "fired", "other" })
			ref.places[n];
		ref.places["a"].tokens = w * f.firings + (f.weight & 1);
		ref.places["b"].tokens = (w + 1) * (f.firings + 1);
		ref.places["budget"].tokens = f.firings;
		ref.places["other"].tokens = 7;
		start = ref;
		for (auto &[n, p] : ref.places)
		{
			const long idx = n[0] - 'a';
			ActionFunction en, ex;
			if (f.acts < 4 && n.size() == 1 && enterActs(f))
				en = [idx] { mc::note(5, 1, idx); };
			if (f.acts < 4 && n.size() == 1 && exitActs(f))
				ex = [idx] { mc::note(5, 0, idx); };
			if (f.acts < 4 || n.size() != 1)
			{
				place(e, { n, p.tokens, f.input != 0, en, ex });
				continue;
			}
			PlaceProperties pp;
			pp.name = n;
			pp.initialNumberOfTokens = p.tokens;
			pp.input = f.input != 0;
			pp.onEnterActionFunctionName = "enter " + n;
			pp.onExitActionFunctionName = f.acts == 4 ? "exit " + n : "enter " + n;
			e.registerAction(pp.onEnterActionFunctionName, [idx] { mc::note(5, 1, idx); });
			if (f.acts == 4)
				e.registerAction(pp.onExitActionFunctionName, [idx] { mc::note(5, 0, idx); });
			e.createPlace(pp);
		}
		for (auto &a : t.in)
			if (a.place.size() == 1 && exitActs(f))
				exits.insert(a.place[0] - 'a');
		for (auto &a : t.out)
			if (a.place.size() == 1 && enterActs(f))
				enters.insert(a.place[0] - 'a');
		vector<ConditionFunction> cs;
		vector<string> names;
		auto yes = [] { return true; };
		if (f.conds == 1)
			cs = { yes, yes };
		if (f.conds == 2)
		{
			e.registerCondition("c1", yes);
			e.registerCondition("c2", yes);
			names = { "c1", "c2" };
		}
		buildTransition(e, "t", t, f.more ? Build::MIXED : Build::CREATE, cs, names);
		if (f.more)
		{
			auto no = [] { return false; };
			transition(e, { "n1", { { "a", 1 } }, { { "d", 1 } }, {}, { no } });
			transition(e, { "n2", { { "d", 1 } }, {}, { { "other", 1 } } });
			transition(e, { "n3", { { "fired", 100 } }, { { "other", 1 } }, {}, {}, true });
			place(e, { "unused", 5, true, [] { mc::note(5, 1, 20); }, [] { mc::note(5, 0, 20); } });
		}
		while (ref.enabled("t"))
			ref.fire("t");
		if (f.more)
			ref.places["unused"].tokens = 5;
	}
	void run(const Feat &f)
	{
		e.setEventLoopSleepDuration(ms(10));
		if (f.log)
			e.execute(true, out);
		else
			e.execute();
		if (f.m != Mode::SINGLE_THREAD)
		{
			// on-enter actions in execution may hold the transition back until the next evaluation
			mc::quiesce();
			if (f.noAct && enterActs(f))
				for (int i = 0; i < f.firings; ++i)
				{
					mc::settle(11);
					mc::quiesce();
				}
			e.stop();
			mc::quiesce();
		}
	}
};
