// Harness-side interface of the stateless model checker (runtime in mcrt.cpp).
// All functions here are uninstrumented: they never count as accesses of the program under test.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>

namespace mc
{
// ---- nondeterminism ------------------------------------------------------------------------
// A value in [0,n): every value is explored.
int choose(int n, const char *what = "");
// As choose(), but the values are divided among the processes a scenario is sharded over.
int config(int n, const char *what = "config");
// Number of different values std::random_device delivers at each of the next calls (all are explored; default 1).
void seeds(int k, int calls = 1 << 30);
// From now on random_device delivers the index-th of a family of fixed pseudo-random streams; -1: back to choices.
void fixSeed(int index);

// ---- time and scheduling -------------------------------------------------------------------
// Waits, without letting time pass, until no other thread can move (timers due by now included).
void quiesce();
// Lets the given virtual time pass; returns once no other thread can move before that moment (and before the
// timers that are due at that very moment: follow with quiesce() to let them fire).
void settle(long ms);
long nowMs();
int self();               // id of the calling thread (0: the scenario's main thread)
int threadsCreated();     // number of threads created so far in this execution
int threadsAlive();       // number of threads created and not finished
bool threadFinished(int id);
// A scheduling point that is ordered with every other mark() and event().
void mark();

// ---- observation ---------------------------------------------------------------------------
struct Event
{
	int kind;
	long a, b;
	int thread;
	long ms;
};
// Appends to the execution's totally ordered log (a scheduling point).
void event(int kind, long a = 0, long b = 0);
// Same without a scheduling point of its own.
void note(int kind, long a = 0, long b = 0);
int events();
const Event &at(int i);
// Records the label of the outcome of this execution (only counted; evidence against vacuity).
void outcome(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_CHECK(c, ...) do { if (!(c)) ::mc::fail(__VA_ARGS__); } while (0)

// Counts distinct states of the harness's reference model (evidence only, nothing is pruned by it).
void state(uint64_t hash);

// A value kept over all executions of a scenario in this process (not reset between executions).
void *&persist(int slot);
uint64_t &counter(int slot); // counters, summed over shards into the evidence
// Allow that threads are still blocked when the scenario's main function returns.
void allowLeftover();
// Limit on how often the clock may be advanced in one execution (default 60).
void maxTimers(int n);
// Fault injection: thread creations from here on may fail (each failure costs one fault).
void threadFaults(bool on);
int faultsInjected();
// The next n thread creations fail (in every execution; no faults are used up).
void refuseThreads(long n);
// What refused creations return (EAGAIN unless set).
void refuseError(int e);
// The scenario may never pass more than this many visible steps (default 100000).
void maxSteps(long n);

// What the program under test has allocated and not released so far in this execution.
long heapBlocks();
long heapBytes();

// Blocking without any happens-before edge (does not hide data races from the detector).
class Gate
{
public:
	explicit Gate(bool open = false);
	void wait();   // blocks until open
	void open();
	void close();
	bool isOpen() const;
	int waiting() const;

private:
	int m_id;
};

// Scoped: code inside is not part of the program under test (no races, normal heap).
struct Outside
{
	Outside();
	~Outside();
	Outside(const Outside &) = delete;
	bool prev;
};

// ---- registration --------------------------------------------------------------------------
struct Options
{
	int p = 2;        // preemption bound, quick
	int pThorough = 3;// preemption bound, thorough
	int t = 0;        // budget of early timeouts and spurious wake-ups
	int f = 0;        // fault budget
	int shards = 1;
	int tThorough = -1;
	bool thoroughOnly = false; // not part of the quick check
	bool delayBounded = false; // every deviation from the round-robin schedule counts, also when a thread blocks
	bool history = false;      // compares executions with earlier ones (persist()): a replay explores them again
};
struct Registration
{
	Registration(const char *name, void (*fn)(), Options o);
};
} // namespace mc

#define MC_SCENARIO(name, ...)                                                                       \
	static void name();                                                                              \
	static ::mc::Registration reg_##name(#name, &name, ::mc::Options __VA_ARGS__);                    \
	static void name()
