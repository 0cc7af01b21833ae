// No data race and no access to destroyed state under any API use (C13). The runtime checks every memory access of
// the library and of the callbacks below on every explored schedule.
#include "ops.h"
using namespace ops;

// What a callback owns: on the heap, read at the beginning and at the end of every call.
struct Owned
{
	string text = "the payload of a callback, long enough to live on the heap";
	std::shared_ptr<long> p = std::make_shared<long>(4711);
};
static void use(const Owned &o)
{
	MC_CHECK(*o.p == 4711 && o.text.size() == 58 && o.text[57] == 'p', "a callback is not intact");
}
static ActionFunction owning(mc::Gate *g = nullptr)
{
	return [o = Owned(), g]
	{
		use(o);
		if (g)
			g->wait();
		use(o);
	};
}
static ConditionFunction owningCondition(bool value = true)
{
	return [o = Owned(), value]
	{
		use(o);
		return value;
	};
}
static void net(Eng &e, mc::Gate *g = nullptr)
{
	place(e, { "a", 1, true, owning(g), owning() });
	place(e, { "b", 0, true, owning() });
	place(e, { "c", 0 });
	e.registerAction("act", owning());
	e.registerCondition("cond", owningCondition());
	transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { owningCondition() }, true });
	transition(e, { "u", { { "b", 2 } }, { { "c", 1 } }, { { "c", 1 } }, { owningCondition() } });
}

// All pairs of calls, running or not.
MC_SCENARIO(pairs, { .p = 1, .pThorough = 2, .shards = 64, .delayBounded = true })
{
	int c = mc::config(OPS * OPS * 3);
	Mode m = ASYNC[c % 3];
	int x = c / 3 % OPS, y = c / 3 / OPS;
	if (x < y)
		return;
	bool running = mc::choose(2);
	prepare(m);
	{
		Eng e(m);
		net(e);
		if (running)
			e.execute();
		std::thread th([&] { tryApply(e, (Op)x, m, 1); });
		tryApply(e, (Op)y, m, 2);
		th.join();
	}
	mc::quiesce();
}
// In SINGLE_THREAD mode as well.
MC_SCENARIO(pairs_single, { .p = 1, .pThorough = 2, .shards = 16, .delayBounded = true })
{
	int c = mc::config(OPS * OPS);
	Mode m = Mode::SINGLE_THREAD;
	int x = c % OPS, y = c / OPS;
	if (x < y)
		return;
	prepare(m);
	Eng e(m);
	net(e);
	std::thread th([&] { tryApply(e, (Op)x, m, 1); });
	tryApply(e, (Op)y, m, 2);
	th.join();
}
// One call while the loop, injections and actions are at work.
MC_SCENARIO(one_call, { .p = 2, .pThorough = 3, .shards = 66, .delayBounded = true })
{
	int c = mc::config(OPS * 3);
	Mode m = ASYNC[c % 3];
	Op x = (Op)(c / 3);
	prepare(m);
	{
		Eng e(m);
		net(e);
		e.execute();
		e.incrementInputPlace("b");
		tryApply(e, x, m, 1);
		e.incrementInputPlace("a");
		tryApply(e, x, m, 2);
	}
	mc::quiesce();
}
// With the log written by the loop thread to a stream nobody else uses.
MC_SCENARIO(logging, { .p = 1, .pThorough = 2, .shards = 22, .delayBounded = true })
{
	int c = mc::config(OPS * 3);
	Mode m = ASYNC[c % 3];
	Op x = (Op)(c / 3);
	prepare(m);
	std::ostringstream o;
	{
		Eng e(m);
		net(e);
		e.execute(true, o);
		e.incrementInputPlace("b");
		tryApply(e, x, m, 1);
	}
	mc::quiesce();
}

// Actions pending or running while the net is cleared, the mode changed, the engine restarted or destroyed.
// how: 0 destroy, 1 clearNet, 2 clearNet and build again, 3 change of the mode, 4 restart, 5 clearNet and destroy,
//      6 change of the mode and destroy, 7 change of the mode, back and clear
static void pending(Mode m, int how, int actions, bool blocked)
{
	mc::Gate gate(!blocked);
	int extra = 0;
	{
		Eng e(m);
		net(e, &gate);
		if (actions & 1)
			e.execute();
		for (int i = 0; i < 1 + actions / 2; ++i)
			e.incrementInputPlace("a");
		if (actions & 1 && how != 0)
			e.stop();
		switch (how)
		{
		case 0: break;
		case 1: e.clearNet(); break;
		case 2:
			e.clearNet();
			place(e, { "a", 1, true, owning() });
			place(e, { "b", 0, true, owning() });
			transition(e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { owningCondition() }, true });
			e.execute();
			e.incrementInputPlace("a");
			break;
		case 3:
			e.setActionsThreadOption(other(m));
			e.incrementInputPlace("b");
			break;
		case 4:
			e.execute();
			e.incrementInputPlace("a");
			break;
		case 5: e.clearNet(); break;
		case 6: e.setActionsThreadOption(other(m)); break;
		case 7:
			e.setActionsThreadOption(other(m));
			e.setActionsThreadOption(m);
			e.incrementInputPlace("b");
			e.clearNet();
			break;
		}
		if (blocked && (m == Mode::JOB_QUEUE || how < 5))
			gate.open();
	}
	gate.open();
	mc::quiesce();
	(void)extra;
}
MC_SCENARIO(pending_actions, { .p = 2, .pThorough = 3, .shards = 64, .delayBounded = true })
{
	int c = mc::config(8 * 4 * 2 * 2);
	pending(c & 1 ? Mode::JOB_QUEUE : Mode::DETACHED, c / 8 % 8, c / 2 % 4, c / 64);
}
MC_SCENARIO(pending_actions_el, { .p = 2, .pThorough = 3, .shards = 16, .delayBounded = true })
{
	int c = mc::config(8 * 4);
	pending(Mode::EVENT_LOOP, c / 4, c % 4, false);
}
// A worker that has just run out of jobs or not yet begun, with few threads: deeper.
MC_SCENARIO(destroy_deep, { .p = 5, .pThorough = 7, .shards = 12 })
{
	int c = mc::config(12);
	Mode m = c & 1 ? Mode::JOB_QUEUE : Mode::DETACHED;
	int n = 1 + c / 2 % 2, how = c / 4;
	{
		Eng e(m);
		place(e, { "a", 0, true, owning() });
		for (int i = 0; i < n; ++i)
			e.incrementInputPlace("a");
		if (how == 1)
			e.clearNet();
		if (how == 2)
			e.setActionsThreadOption(other(m));
	}
	mc::quiesce();
}
// The loop in the middle of a firing or about to sleep while the engine is stopped, restarted, destroyed.
MC_SCENARIO(loop_deep, { .p = 4, .pThorough = 6, .shards = 12 })
{
	int c = mc::config(12);
	int how = c % 4, when = c / 4;
	Eng *e = new Eng(Mode::EVENT_LOOP);
	place(*e, { "a", 1, true, nullptr, owning() });
	place(*e, { "b", 0, false, owning() });
	transition(*e, { "t", { { "a", 1 } }, { { "b", 1 } }, {}, { owningCondition() }, when == 2 });
	e->execute();
	if (when == 1)
		mc::quiesce();
	if (how >= 1)
		e->stop();
	if (how == 2)
		e->execute();
	if (how == 3)
		e->clearNet();
	delete e;
}
// An action that itself clears the net, changes the mode, ... while it runs, and goes on using what it owns.
MC_SCENARIO(self_destructive, { .p = 2, .pThorough = 3, .shards = 20, .delayBounded = true })
{
	int c = mc::config(20);
	Mode m = c & 1 ? Mode::JOB_QUEUE : Mode::DETACHED;
	static const Op X[] = { CLEAR, SET_MODE, EXECUTE, STOP, IMPORT };
	Op x = X[c / 2 % 5];
	bool running = c / 10;
	prepare(m);
	{
		Eng e(m);
		place(e, { "a", 0, true, [&e, m, x, o = Owned()] { use(o); e.stop(); tryApply(e, x, m, 1); use(o); }, owning() });
		place(e, { "b", 0, true, owning() });
		e.registerAction("act", owning());
		e.registerCondition("cond", owningCondition());
		transition(e, { "t", { { "b", 1 } }, { { "a", 1 } }, {}, { owningCondition() }, true });
		if (running)
		{
			e.execute();
			e.incrementInputPlace("b");
		}
		else
			e.incrementInputPlace("a");
		mc::quiesce();
		e.stop();
		mc::quiesce(); // the engine may fire while it is being stopped
		e.getPlacesProperties(); // what the actions did happens before the destruction
	}
	mc::quiesce();
}
// Independent engines in independent threads share nothing.
MC_SCENARIO(independent_engines, { .p = 1, .pThorough = 2, .shards = 16, .delayBounded = true })
{
	int c = mc::config(16);
	auto work = [&](int id, Mode m)
	{
		writeFile(scratch("import" + std::to_string(id)), document(Mode::EVENT_LOOP));
		{
			Eng e(m);
			net(e);
			e.execute();
			e.incrementInputPlace("b");
			e.stop();
			e.getPlacesProperties();
			std::ostringstream o;
			e.printState(o);
			FileExporterFactory::createXMLFileExporter()->_export(e, scratch("export" + std::to_string(id)));
			throws([&] { FileImporterFactory::createXMLFileImporter()->_import(scratch("import" + std::to_string(id)), e); });
		}
	};
	{
		std::thread th([&] { work(1, ALLMODES[c / 4]); });
		work(2, ALLMODES[c % 4]);
		th.join();
	}
	mc::quiesce();
}
// The same with several transitions to choose from.
MC_SCENARIO(independent_choices, { .p = 1, .pThorough = 2, .shards = 16, .delayBounded = true })
{
	int c = mc::config(16);
	auto work = [&](Mode m)
	{
		Eng e(m);
		place(e, { "a", 3, true, owning() });
		place(e, { "b", 0, false, nullptr, owning() });
		for (auto *n : { "t", "u", "v" })
			transition(e, { n, { { "a", 1 } }, { { "b", 1 } }, {}, { owningCondition() } });
		e.execute();
		e.incrementInputPlace("a");
		mc::quiesce();
		e.stop();
	};
	{
		std::thread th([&] { work(ALLMODES[c / 4]); });
		work(ALLMODES[c % 4]);
		th.join();
	}
	mc::quiesce();
}
// Three threads querying and injecting.
static const Op CORE[] = { INJECT_A, TOKENS, PLACES, TRANSITIONS, STOP, CLEAR };
MC_SCENARIO(triples, { .p = 1, .pThorough = 2, .shards = 42, .delayBounded = true })
{
	int c = mc::config(216 * 3);
	Mode m = ASYNC[c % 3];
	c /= 3;
	if (c % 6 < c / 6 % 6 || c / 6 % 6 < c / 36)
		return;
	{
		Eng e(m);
		net(e);
		e.execute();
		std::thread t1([&] { tryApply(e, CORE[c % 6], m, 1); });
		std::thread t2([&] { tryApply(e, CORE[c / 6 % 6], m, 2); });
		tryApply(e, CORE[c / 36], m, 3);
		t1.join();
		t2.join();
	}
	mc::quiesce();
}
// Other objects used from two threads: one exporter or importer each, the same engine.
MC_SCENARIO(export_while, { .p = 1, .pThorough = 2, .shards = 12, .delayBounded = true })
{
	int c = mc::config(12);
	static const Op X[] = { INJECT_A, EXPORT, EXECUTE, PLACES, CREATE_PLACE, CREATE_TRANSITION };
	Mode m = c & 1 ? Mode::JOB_QUEUE : Mode::EVENT_LOOP;
	{
		Eng e(m);
		e.registerAction("act", owning());
		PlaceProperties p;
		p.name = "a";
		p.input = true;
		p.onEnterActionFunctionName = "act";
		e.createPlace(p);
		place(e, { "c", 0 });
		std::thread th([&] { tryApply(e, X[c / 2], m, 1); });
		tryApply(e, EXPORT, m, 2);
		th.join();
	}
	mc::quiesce();
}
