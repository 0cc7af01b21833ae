// Token arithmetic is exact up to the maximum and refuses to overflow (C20).
#include "refnet.h"

static const size_t V[] = { 0, 1, 2, 3, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 2147483647, 2147483648, 2147483649, 4294967295, 4294967296, 4294967297,
							6442450944, 9007199254740992, 9007199254740993, 9223372036854775807ull, 9223372036854775808ull, 9223372036854775809ull,
							18446744069414584320ull, SIZE_MAX - 256, SIZE_MAX - 2, SIZE_MAX - 1, SIZE_MAX };
static const int N = sizeof V / sizeof *V;

static void finish(Eng &e, Mode m)
{
	e.execute();
	if (m != Mode::SINGLE_THREAD)
	{
		mc::quiesce();
		e.stop();
	}
}
#define EQ(a, b, ...)                                                                                          \
	do                                                                                                         \
	{                                                                                                          \
		size_t x_ = (a), y_ = (b);                                                                             \
		MC_CHECK(x_ == y_, __VA_ARGS__, x_, y_);                                                               \
	} while (0)

// A transition with an activation arc: fires while there are tokens enough (at most k times).
MC_SCENARIO(subtract, { .p = 0, .pThorough = 0, .shards = 8 })
{
	int c = mc::config(N * 4);
	Mode m = ALLMODES[c % 4];
	size_t have = V[c / 4];
	const size_t w = V[mc::choose(N)], k = mc::choose(2) ? 3 : 1;
	{
		{
			Eng e(m);
			place(e, { "p", have });
			place(e, { "k", k });
			place(e, { "n", 0 });
			transition(e, { "t", { { "k", 1 } }, { { "n", 1 } } });
			e.addArc(arc("p", w, AT::ACTIVATION, "t"));
			finish(e, m);
			size_t n = w == 0 ? k : std::min(k, have / w);
			EQ(e.getNumberOfTokens("n"), n, "%zu tokens, weight %zu: fired %zu times instead of %zu", have, w);
			EQ(e.getNumberOfTokens("p"), w == 0 ? 0 : have - n * w, "%zu tokens, weight %zu: %zu left instead of %zu", have, w);
			mc::state(have * 31 + w);
		}
	}
}
// Two activation arcs, one short by one or exact.
MC_SCENARIO(subtract_two, { .p = 0, .pThorough = 0, .shards = 4 })
{
	int c = mc::config(N);
	for (size_t w : V)
		for (int d = 0; d < 9; ++d)
		{
			size_t v = V[c];
			if (!w || !v)
				continue;
			size_t a = v + d % 3 - 1, b = w + d / 3 - 1;
			if (d % 3 == 2 && v == SIZE_MAX)
				a = v;
			if (d / 3 == 2 && w == SIZE_MAX)
				b = w;
			Eng e(Mode::SINGLE_THREAD);
			place(e, { "a", a });
			place(e, { "b", b });
			place(e, { "k", 1 });
			transition(e, { "t", { { "a", v }, { "b", w }, { "k", 1 } } });
			e.execute();
			bool fires = a >= v && b >= w;
			EQ(e.getNumberOfTokens("a"), fires ? a - v : a, "weights %zu and %zu: %zu tokens left instead of %zu", v, w);
			EQ(e.getNumberOfTokens("b"), fires ? b - w : b, "weights %zu and %zu: %zu tokens left instead of %zu", v, w);
			EQ(e.getNumberOfTokens("k"), !fires, "weights %zu and %zu: %zu left instead of %zu", v, w);
		}
}
// A transition with a destination arc: adds exactly, or throws OverflowException.
static int overflow(const std::function<void()> &f)
{
	try
	{
		f();
		return 0;
	}
	catch (const OverflowException &)
	{
		return 1;
	}
	catch (...)
	{
		return 2;
	}
}
MC_SCENARIO(add, { .p = 0, .pThorough = 0, .shards = 8 })
{
	int c = mc::config(N * 3);
	size_t have = V[c / 3];
	int variant = c % 3; // no action, on-enter action, destination arc added with addArc
	for (size_t w : V)
		for (size_t k : { 1, 3 })
		{
			if (w == 0)
				continue;
			size_t fit = (SIZE_MAX - have) / w, n = std::min(k, fit);
			size_t acts = 0;
			Eng e(Mode::SINGLE_THREAD);
			place(e, { "p", have, true, variant == 1 ? ActionFunction([&] { ++acts; }) : nullptr });
			place(e, { "k", k });
			place(e, { "other", 5 });
			transition(e, { "t", { { "k", 1 } }, {} });
			if (variant == 2)
				e.addArc(arc("p", w, AT::DESTINATION, "t"));
			else
			{
				e.clearNet();
				place(e, { "p", have, true, variant == 1 ? ActionFunction([&] { ++acts; }) : nullptr });
				place(e, { "k", k });
				place(e, { "other", 5 });
				transition(e, { "t", { { "k", 1 } }, { { "p", w } } });
			}
			int r = overflow([&] { e.execute(); });
			MC_CHECK(r == (fit < k ? 1 : 0), "%zu + %zu * %zu: %s", have, k, w, r == 0 ? "no exception" : r == 1 ? "OverflowException" : "another exception");
			EQ(e.getNumberOfTokens("p"), have + n * w, "%zu tokens, weight %zu: then %zu instead of %zu", have, w);
			EQ(e.getNumberOfTokens("other"), 5, "weight %zu: another place has %zu instead of %zu", w);
			size_t left = e.getNumberOfTokens("k");
			MC_CHECK(left == k - n || (r && left == k - n - 1), "%zu tokens, weight %zu: fired too often", have, w);
			if (variant == 1)
				EQ(acts, n, "weight %zu: %zu on enter actions instead of %zu", w);
			MC_CHECK(!e.isEventLoopRunning(), "running");
			if (have + n * w < SIZE_MAX)
			{
				e.incrementInputPlace("p");
				EQ(e.getNumberOfTokens("p"), have + n * w + 1, "weight %zu: after an injection %zu instead of %zu", w);
			}
			else
				MC_CHECK(overflow([&] { e.incrementInputPlace("p"); }) == 1, "injection into a full place");
		}
}
// Activation and destination arc of the same place.
MC_SCENARIO(self_loop, { .p = 0, .pThorough = 0, .shards = 4 })
{
	int c = mc::config(N);
	size_t have = V[c];
	for (size_t in : V)
		for (size_t out : V)
		{
			if (!out)
				continue;
			Eng e(Mode::SINGLE_THREAD);
			place(e, { "p", have });
			place(e, { "k", 1 });
			transition(e, { "t", { { "k", 1 } }, { { "p", out } } });
			e.addArc(arc("p", in, AT::ACTIVATION, "t"));
			int r = overflow([&] { e.execute(); });
			size_t got = e.getNumberOfTokens("p"), rest = in == 0 ? 0 : have - in;
			if (have < in)
				MC_CHECK(r == 0 && got == have, "%zu tokens, arc %zu: fired", have, in);
			else if (out > SIZE_MAX - rest)
				MC_CHECK(r == 1 && (got == have || got == rest), "%zu - %zu + %zu: %d, %zu", have, in, out, r, got);
			else
				MC_CHECK(r == 0 && got == rest + out, "%zu - %zu + %zu: %d, %zu", have, in, out, r, got);
		}
}
MC_SCENARIO(bidirectional, { .p = 0, .pThorough = 0 })
{
	int c = mc::config(N);
	for (size_t w : V)
	{
		if (!w)
			continue;
		Eng e(Mode::SINGLE_THREAD);
		place(e, { "p", V[c] });
		place(e, { "k", 2 });
		transition(e, { "t", { { "k", 1 } } });
		e.addArc(arc("p", w, AT::BIDIRECTIONAL, "t"));
		e.execute();
		EQ(e.getNumberOfTokens("p"), V[c], "bidirectional arc %zu: %zu instead of %zu", w);
		EQ(e.getNumberOfTokens("k"), V[c] >= w ? 0 : 2, "bidirectional arc %zu: %zu instead of %zu", w);
	}
}
// An inhibitor arc holds back for any number of tokens, whatever its weight.
MC_SCENARIO(inhibitor, { .p = 0, .pThorough = 0 })
{
	int c = mc::config(N * 4);
	Mode m = ALLMODES[c % 4];
	for (size_t w : V)
	{
		if (!w)
			continue;
		Eng e(m);
		place(e, { "p", V[c / 4] });
		place(e, { "k", 1 });
		transition(e, { "t", { { "k", 1 } }, {}, { { "p", w } } });
		finish(e, m);
		EQ(e.getNumberOfTokens("k"), V[c / 4] > 0, "inhibitor arc %zu: %zu instead of %zu", w);
	}
}
// Injections.
MC_SCENARIO(inject, { .p = 0, .pThorough = 1, .shards = 4 })
{
	int c = mc::config(N * 8);
	Mode m = ALLMODES[c % 4];
	int running = c / 4 % 2;
	size_t have = V[c / 8];
	int acts = 0;
	ActionFunction count = [&] { mc::Outside o; ++acts; };
	int action = mc::choose(2);
	Eng e(m);
	place(e, { "p", have, true, action ? count : nullptr });
	place(e, { "q", 0, true });
	place(e, { "r", 0 });
	transition(e, { "t", { { "q", 1 } }, { { "r", 1 } } });
	if (running)
		e.execute();
	size_t want = have;
	int accepted = 0;
	for (int i = 0; i < 3; ++i)
	{
		int r = overflow([&] { e.incrementInputPlace("p"); });
		MC_CHECK(r == (want == SIZE_MAX ? 1 : 0), "injection into %zu: %s", want, r == 0 ? "no exception" : r == 1 ? "OverflowException" : "another exception");
		accepted += r == 0;
		if (want < SIZE_MAX)
			++want;
		EQ(e.getNumberOfTokens("p"), want, "%s: %zu instead of %zu", modeName(m));
	}
	// the engine goes on
	e.incrementInputPlace("q");
	if (!running || m == Mode::SINGLE_THREAD)
		e.execute();
	mc::quiesce();
	EQ(e.getNumberOfTokens("r"), 1, "%s: %zu firings instead of %zu", modeName(m));
	EQ(e.getNumberOfTokens("p"), want, "%s: %zu instead of %zu", modeName(m));
	e.stop();
	mc::quiesce();
	MC_CHECK(acts == (action ? accepted : 0), "%s: %d actions for %d injections", modeName(m), acts, accepted);
}
// Two threads inject into a place that is nearly full, while the loop takes tokens or not.
MC_SCENARIO(concurrent, { .p = 2, .pThorough = 3, .shards = 6 })
{
	int c = mc::config(12);
	Mode m = ALLMODES[c % 4];
	size_t have = SIZE_MAX - 2 + c / 4;
	Eng e(m);
	place(e, { "p", have, true });
	place(e, { "q", 0, false });
	transition(e, { "t", { { "q", 1 } } });
	e.execute();
	int r[2];
	{
		std::thread a([&] { r[0] = overflow([&] { e.incrementInputPlace("p"); }); });
		r[1] = overflow([&] { e.incrementInputPlace("p"); });
		a.join();
	}
	size_t room = SIZE_MAX - have;
	int want = room >= 2 ? 2 : (int)room;
	MC_CHECK((r[0] == 0) + (r[1] == 0) == want && r[0] <= 1 && r[1] <= 1, "%s: %d and %d", modeName(m), r[0], r[1]);
	EQ(e.getNumberOfTokens("p"), have + want, "%s: %zu instead of %zu", modeName(m));
	e.stop();
}
// Runs of several transitions over large numbers.
MC_SCENARIO(runs, { .p = 0, .pThorough = 0, .shards = 4 })
{
	int c = mc::config(N);
	for (size_t w : V)
	{
		size_t v = V[c];
		if (!v || !w)
			continue;
		// a --v--> t --w--> b --w--> u --v--> a : tokens move in full lots
		for (int d = 0; d < 3; ++d)
		{
			RefNet n;
			n.places["a"].tokens = d == 0 ? v : d == 1 ? v - 1 : v == SIZE_MAX ? v : v + 1;
			n.places["b"].tokens = d == 2 ? SIZE_MAX - w : 0;
			n.places["k"].tokens = 1;
			n.places["l"].tokens = 0;
			n.trans["t"].in = { { "a", v }, { "k", 1 } };
			n.trans["t"].out = { { "b", w }, { "l", 1 } };
			n.trans["u"].in = { { "b", w }, { "l", 1 } };
			n.trans["u"].out = { { "a", v } };
			Eng e(Mode::SINGLE_THREAD);
			for (auto &[name, p] : n.places)
				place(e, { name, p.tokens });
			for (auto &[name, t] : n.trans)
				buildTransition(e, name, t, Build::CREATE, {});
			e.execute();
			auto f = n.finals();
			MC_CHECK(f.count(engineMarking(e)), "from %s: %s", n.marking().c_str(), engineMarking(e).c_str());
		}
	}
}
// Overflow at the k-th of several destination places: that place keeps its count, none wraps; the others take part
// in the next runs as before.
MC_SCENARIO(overflow_at, { .p = 0, .pThorough = 0 })
{
	int size = 1 + mc::config(4);
	int at = mc::choose(size), action = mc::choose(2), ins = mc::choose(2);
	size_t w = mc::choose(2) ? 3 : SIZE_MAX;
	int acts = 0;
	Eng e(Mode::SINGLE_THREAD);
	place(e, { "go", 2, true });
	Arcs out;
	for (int i = 0; i < size; ++i)
	{
		string s = std::to_string(i);
		place(e, { "d" + s, i == at ? (w == 3 ? SIZE_MAX - 2 : 1) : 0, true, action ? ActionFunction([&] { ++acts; }) : nullptr });
		out.push_back({ "d" + s, i == at ? w : 1 });
	}
	place(e, { "free", ins ? 1u : 0u, true });
	place(e, { "done", 0 });
	transition(e, { "t", { { "go", 1 } }, out, { { "free", 1 } } });
	transition(e, { "u", { { "free", 1 } }, { { "done", 1 } } });
	int r = overflow([&] { e.execute(); });
	MC_CHECK(r == 1, "no OverflowException");
	EQ(e.getNumberOfTokens("d" + std::to_string(at)), w == 3 ? SIZE_MAX - 2 : 1, "%s%zu tokens instead of %zu", "");
	for (int i = 0; i < size; ++i)
		MC_CHECK(i == at || e.getNumberOfTokens("d" + std::to_string(i)) <= 1, "place %d", i);
	size_t go = e.getNumberOfTokens("go");
	MC_CHECK(go == 1 || go == 2, "%zu left", go);
	// still usable: every input place, the other transition
	for (int i = 0; i < size; ++i)
		if (i != at)
		{
			size_t b = e.getNumberOfTokens("d" + std::to_string(i));
			e.incrementInputPlace("d" + std::to_string(i));
			EQ(e.getNumberOfTokens("d" + std::to_string(i)), b + 1, "%s%zu tokens instead of %zu", "");
		}
	e.incrementInputPlace("free");
	r = overflow([&] { e.execute(); });
	MC_CHECK(r <= 1, "another exception");
	EQ(e.getNumberOfTokens("d" + std::to_string(at)), w == 3 ? SIZE_MAX - 2 : 1, "%s%zu tokens instead of %zu", "");
}
