// The job queue itself (C23): every sequence of calls by one thread, jobs that call the queue, two threads with every
// interleaving with the worker, and destruction at any moment.
#include "common.h"
#include "PTN_Engine/JobQueue/JobQueue.h"
#include <thread>

// A job queue in memory of its own: whatever touches it after its destruction is detected.
struct Heap
{
	JobQueue *p = nullptr;
	~Heap() { reset(); }
	void emplace() { p = new JobQueue; }
	void reset()
	{
		delete p;
		p = nullptr;
	}
	JobQueue &operator*() { return *p; }
	JobQueue *operator->() { return p; }
};
// What happened, only touched outside the program under test.
struct World
{
	JobQueue *q = nullptr;
	vector<string> started;
	vector<string> added[4]; // per thread that adds
	string inside;
	bool forbidden = false, destroyed = false;
	int activations = 0, activating = 0;
	string hist;
	int want = 0;

	enum Kind { PLAIN, DEACTIVATES, REACTIVATES, ADDS, ADDS_ON_DESTRUCTION, KINDS };
	void begin(const string &name)
	{
		mc::Outside o;
		MC_CHECK(!destroyed, "job %s is executed after the queue has been destroyed: %s", name.c_str(), hist.c_str());
		MC_CHECK(inside.empty(), "jobs %s and %s are executed at the same time: %s", inside.c_str(), name.c_str(), hist.c_str());
		MC_CHECK(!forbidden, "job %s is executed although the queue is inactive: %s", name.c_str(), hist.c_str());
		inside = name;
		started.push_back(name);
	}
	void end(const string &name)
	{
		mc::Outside o;
		MC_CHECK(inside == name, "job %s ended instead of %s", name.c_str(), inside.c_str());
		inside.clear();
	}
	string announce(int who, const char *what)
	{
		mc::Outside o;
		string n = std::to_string(who) + "." + std::to_string(added[who].size()) + what;
		added[who].push_back(n);
		++want;
		return n;
	}
	struct AddsWhenDestroyed
	{
		World *w;
		explicit AddsWhenDestroyed(World *w) : w(w) {}
		~AddsWhenDestroyed()
		{
				w->add(3, PLAIN);
		}
	};
	void add(int who, int kind)
	{
		static const char *names[] = { "", "d", "r", "a", "x" };
		string name = announce(who, names[kind]);
		switch (kind)
		{
		case PLAIN:
			q->addJob([this, name] { begin(name); mc::mark(); end(name); });
			break;
		case DEACTIVATES:
			q->addJob([this, name] { begin(name); deactivate(); end(name); });
			break;
		case REACTIVATES:
			q->addJob([this, name] { begin(name); deactivate(); activate(); end(name); });
			break;
		case ADDS:
			q->addJob([this, name] { begin(name); add(2, PLAIN); add(2, PLAIN); end(name); });
			break;
		case ADDS_ON_DESTRUCTION:
		{
			auto p = std::make_shared<AddsWhenDestroyed>(this);
			q->addJob([this, name, p] { begin(name); end(name); });
			break;
		}
		}
	}
	void activate()
	{
		{
			mc::Outside o;
			++activations;
			++activating;
			forbidden = false;
		}
		q->activate();
		mc::Outside o;
		--activating;
	}
	void deactivate()
	{
		int a, p;
		{
			mc::Outside o;
			a = activations;
			p = activating;
		}
		q->deactivate();
		mc::Outside o;
		if (a == activations && !p)
			forbidden = true;
	}
	// Everything announced has been executed, once, in order.
	void complete(const char *when)
	{
		mc::Outside o;
		MC_CHECK((int)started.size() == want && inside.empty(), "%s: %d jobs executed instead of %d: %s", when, (int)started.size(), want, hist.c_str());
		ordered();
	}
	// What has been executed so far has been executed once and in order.
	void ordered()
	{
		mc::Outside o;
		size_t n[4] = {};
		for (auto &s : started)
		{
			int who = s[0] - '0';
			MC_CHECK(n[who] < added[who].size() && added[who][n[who]] == s, "job %s is executed out of order or again: %s", s.c_str(), hist.c_str());
			++n[who];
		}
		string all;
		for (auto &s : started)
			all += s + " ";
		mc::state(std::hash<string>{}(all + hist));
	}
	void destroy(Heap &o)
	{
		o.reset();
		mc::Outside x;
		destroyed = true;
		MC_CHECK(inside.empty(), "the queue was destroyed while job %s is executed: %s", inside.c_str(), hist.c_str());
	}
};

// ---- one thread ----
enum Op { ADD, ADD_DEACTIVATES, ADD_REACTIVATES, ADD_ADDS, ADD_X, ACTIVATE, DEACTIVATE, REST, OPS };
static const char *NAME[] = { "add", "add(deactivates)", "add(reactivates)", "add(adds)", "add(adds on destruction)", "activate", "deactivate", "rest" };
static void step(World &w, int op, int who = 0)
{
	switch (op)
	{
	case ACTIVATE: w.activate(); break;
	case DEACTIVATE: w.deactivate(); break;
	case REST: mc::quiesce(); break;
	default: w.add(who, op);
	}
}
static void sequences(int depth)
{
	long all = 1;
	for (int i = 0; i < depth; ++i)
		all *= OPS;
	long c = mc::config(all);
	int ending = mc::choose(3);
	for (long k = c, i = 0; i < depth; ++i, k /= OPS)
		if (ending == 2 && k % OPS == ADD_X)
			return; // would use the queue after its destruction has begun
	World w;
	Heap q;
	q.emplace();
	w.q = &*q;
	bool known = true, active = true; // jobs that deactivate make it unknown until the next call that sets it
	MC_CHECK(q->isActive(), "a new queue is inactive");
	for (int i = 0; i < depth; ++i, c /= OPS)
	{
		int op = c % OPS;
		{
			mc::Outside o;
			w.hist += string(NAME[op]) + ", ";
		}
		step(w, op);
		if (op == ADD_DEACTIVATES || op == ADD_REACTIVATES)
			known = false;
		if (known && (op == ACTIVATE || op == DEACTIVATE))
			active = op == ACTIVATE;
		if (known)
			MC_CHECK(q->isActive() == active, "isActive() is %d: %s", q->isActive(), w.hist.c_str());
		if (op == REST && q->isActive())
			w.complete("resting while active");
		w.ordered();
	}
	if (ending == 1)
		w.deactivate();
	if (ending == 2)
	{
		w.destroy(q);
		mc::quiesce();
		w.ordered();
		mc::outcome("destroyed after %d of %d", (int)w.started.size(), w.want);
		return;
	}
	// each job that deactivates needs another activation
	for (int i = 0; i <= depth + 1; ++i)
	{
		mc::quiesce();
		if (q->isActive())
			w.complete("active");
		int before = w.started.size();
		w.activate();
		mc::quiesce();
		MC_CHECK(w.want == before || (int)w.started.size() > before, "no job is executed after the activation: %s", w.hist.c_str());
		w.ordered();
	}
	w.complete("in the end");
	w.deactivate();
	mc::quiesce();
	w.destroy(q);
	mc::quiesce();
	mc::outcome("%d executed", (int)w.started.size());
}
MC_SCENARIO(sequences2, { .p = 3, .pThorough = 4, .shards = 16 }) { sequences(2); }
MC_SCENARIO(sequences3, { .p = 2, .pThorough = 3, .shards = 16 }) { sequences(3); }
MC_SCENARIO(sequences4, { .p = 1, .pThorough = 2, .shards = 16 }) { sequences(4); }
MC_SCENARIO(sequences5, { .p = 1, .pThorough = 1, .shards = 64, .thoroughOnly = true }) { sequences(5); }

// ---- two threads ----
static void threads(int depth)
{
	static const int ops[] = { ADD, ACTIVATE, DEACTIVATE };
	long all = 1;
	for (int i = 0; i < 2 * depth; ++i)
		all *= 3;
	long c = mc::config(all);
	int first = mc::choose(4); // what is in the queue before: nothing, a job, an inactive queue, an inactive queue with a job
	World w;
	Heap q;
	q.emplace();
	w.q = &*q;
	if (first >= 2)
		w.deactivate();
	if (first % 2)
		w.add(0, World::PLAIN);
	vector<int> mine, theirs;
	for (int i = 0; i < depth; ++i, c /= 9)
	{
		mine.push_back(ops[c % 3]);
		theirs.push_back(ops[c / 3 % 3]);
		mc::Outside o;
		w.hist += string(NAME[mine.back()]) + "|" + NAME[theirs.back()] + ", ";
	}
	std::thread other(
	[&]
	{
		for (int op : theirs)
			step(w, op, 1);
	});
	for (int op : mine)
		step(w, op, 0);
	other.join();
	mc::quiesce();
	if (q->isActive())
		w.complete("active");
	w.ordered();
	w.activate();
	MC_CHECK(q->isActive(), "inactive after activate(): %s", w.hist.c_str());
	mc::quiesce();
	w.complete("after activating");
	w.deactivate();
	MC_CHECK(!q->isActive(), "active after deactivate(): %s", w.hist.c_str());
	w.add(0, World::PLAIN);
	mc::quiesce();
	w.activate();
	mc::quiesce();
	w.complete("after activating again");
	w.destroy(q);
	mc::outcome("%d", (int)w.started.size());
}
MC_SCENARIO(threads1, { .p = 3, .pThorough = 4, .shards = 9 }) { threads(1); }
MC_SCENARIO(threads2, { .p = 3, .pThorough = 4, .shards = 27 }) { threads(2); }
MC_SCENARIO(threads3, { .p = 1, .pThorough = 2, .shards = 32 }) { threads(3); }

// ---- three threads ----
MC_SCENARIO(three, { .p = 2, .pThorough = 3, .shards = 27 })
{
	static const int ops[] = { ADD, ACTIVATE, DEACTIVATE };
	int c = mc::config(27);
	bool inactive = mc::choose(2);
	World w;
	Heap q;
	q.emplace();
	w.q = &*q;
	w.add(0, World::PLAIN);
	if (inactive)
		w.deactivate();
	std::thread one([&] { step(w, ops[c % 3], 1); }), two([&] { step(w, ops[c / 3 % 3], 2); });
	step(w, ops[c / 9], 0);
	one.join();
	two.join();
	mc::quiesce();
	if (q->isActive())
		w.complete("active");
	w.activate();
	mc::quiesce();
	w.complete("after activating");
	w.destroy(q);
}

// ---- destruction and deactivation while a job is executed ----
MC_SCENARIO(busy, { .p = 3, .pThorough = 5, .shards = 8 })
{
	int what = mc::config(4), more = mc::config(3);
	World w;
	Heap q;
	q.emplace();
	w.q = &*q;
	mc::Gate gate, started;
	string name = w.announce(0, "busy");
	q->addJob(
	[&]
	{
		w.begin(name);
		started.open();
		gate.wait();
		if (what == 2)
			w.add(2, World::PLAIN);
		if (what == 3)
			w.deactivate();
		w.end(name);
	});
	for (int i = 0; i < more; ++i)
		w.add(0, World::PLAIN);
	std::thread opener(
	[&]
	{
		started.wait();
		mc::quiesce();
		gate.open();
	});
	started.wait();
	if (what == 1)
		w.deactivate();
	w.destroy(q);
	MC_CHECK(w.started.size() == 1, "%d jobs are executed although the queue is being destroyed", (int)w.started.size() - 1);
	opener.join();
	mc::quiesce();
	MC_CHECK(w.started.size() == 1, "%d jobs are executed although the queue is destroyed", (int)w.started.size() - 1);
}
// The queue is destroyed at any moment.
MC_SCENARIO(destroyed, { .p = 3, .pThorough = 4, .shards = 10 })
{
	int jobs = mc::config(5), kind = mc::config(2) ? World::PLAIN : World::ADDS;
	World w;
	Heap q;
	q.emplace();
	w.q = &*q;
	for (int i = 0; i < jobs; ++i)
		w.add(0, kind);
	w.destroy(q);
	mc::quiesce();
	w.ordered();
	mc::outcome("%d of %d", (int)w.started.size(), w.want);
}
// Many jobs: added while active or not, behind a slow one, with the queue deactivated and activated on the way.
MC_SCENARIO(many, { .p = 0, .pThorough = 0, .shards = 8, .delayBounded = true })
{
	static const int SIZES[] = { 17, 33, 65, 129, 257, 513, 1100, 2100 };
	int n = SIZES[mc::config(8)], how = mc::choose(5), kind = mc::choose(2) ? World::PLAIN : World::ADDS;
	World w;
	Heap q;
	q.emplace();
	w.q = &*q;
	mc::Gate gate, started;
	if (how == 0)
		w.deactivate();
	if (how >= 2)
	{
		string name = w.announce(1, "slow");
		q->addJob([&, name] { w.begin(name); started.open(); gate.wait(); w.end(name); });
		started.wait();
	}
	for (int i = 0; i < n; ++i)
	{
		w.add(0, kind);
		if (how == 4 && i == n / 2)
		{
			std::thread opener([&] { gate.open(); });
			w.deactivate();
			opener.join();
		}
	}
	if (how == 3)
	{
		std::thread opener([&] { gate.open(); });
		w.deactivate();
		opener.join();
		mc::quiesce();
		w.ordered();
	}
	gate.open();
	if (how != 1 && how != 2)
		w.activate();
	mc::quiesce();
	w.complete("many jobs");
	w.add(0, World::PLAIN);
	mc::quiesce();
	w.complete("after many jobs");
	w.destroy(q);
}
