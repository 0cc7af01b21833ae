// Transitions that put back exactly what they take (or take nothing): firing them is progress all the same, since the
// callbacks involved may have enabled them again, or something else.
#pragma once
#include "common.h"

struct Neutral
{
	int n = 0; // only touched in the thread that fires
	int k, kind, where;
	Eng e;
	Neutral(Mode m) : k(1 + mc::choose(3)), kind(mc::choose(7)), where(mc::choose(3)), e(m)
	{
		// where the polling shows: enter action, exit action (those run elsewhere in JOB_QUEUE and DETACHED mode), condition
		if (kind >= 5 || m == Mode::JOB_QUEUE || m == Mode::DETACHED)
			where = 2;
		auto more = [this] { return where == 2 ? n++ < k : n < k; };
		auto act = [this] { ++n; };
		place(e, { "a", kind == 1 ? 2u : 1u, true, where == 0 ? ActionFunction(act) : nullptr, where == 1 ? ActionFunction(act) : nullptr });
		place(e, { "b", 1 });
		place(e, { "q" });
		place(e, { "done" });
		switch (kind)
		{
		case 0: transition(e, { "poll", { { "a", 1 } }, { { "a", 1 } }, {}, { more } }); break;
		case 1: transition(e, { "poll", { { "a", 2 } }, { { "a", 2 } }, {}, { more } }); break;
		case 2: transition(e, { "poll", { { "a", 1 }, { "b", 1 } }, { { "b", 1 }, { "a", 1 } }, {}, { more } }); break;
		case 3:
			transition(e, { "poll", {}, {}, {}, { more } });
			e.addArc(arc("a", 1, ArcProperties::Type::BIDIRECTIONAL, "poll"));
			break;
		case 4: // there and back in two firings
			transition(e, { "poll", { { "a", 1 } }, { { "q", 1 } }, {}, { more } });
			transition(e, { "back", { { "q", 1 } }, { { "a", 1 } } });
			break;
		case 5: transition(e, { "poll", {}, {}, {}, { more } }); break;
		case 6: transition(e, { "poll", {}, {}, { { "q", 1 } }, { more } }); break;
		}
		transition(e, { "go", { { "b", 1 } }, { { "done", 1 } }, { { "q", 1 } }, { [this] { return n >= k; } } });
	}
	void check() const
	{
		MC_CHECK(tok(e, "done") == 1 && tok(e, "b") == 0, "kind %d, shown by %d: not all that can be fired has been fired after %d polls of %d", kind, where, n, k);
	}
};
