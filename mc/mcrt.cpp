// Stateless model checker runtime.
//
// The program under test (the library, compiled from /repo's working tree with gcc's thread-sanitizer
// instrumentation, and a harness) is linked against this file instead of libtsan. Every thread of the
// program is a fiber of one OS thread; every lock, condition variable, atomic, futex, thread creation,
// join, sleep, clock reading, random_device value is decided here. main() enumerates all schedules within
// the bounds by re-execution (depth-first over the recorded choices), pruning states whose
// happens-before history was explored before with at least the same remaining budgets.
// While an execution runs, every instrumented memory access is checked for data races (vector clocks) and
// accesses to freed or never allocated memory.
#include "mc.h"
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>

#define NOSAN __attribute__((no_sanitize("thread")))
#define EXPORT extern "C" __attribute__((visibility("default")))

namespace
{
typedef uint64_t u64;
typedef uint32_t u32;

#ifndef MC_MAXF
#define MC_MAXF 32 // a harness may ask for up to 64 (// MC_MAXF: n)
#endif
constexpr int MAXF = MC_MAXF;         // fibers per execution
constexpr size_t STACK = 256 * 1024;  // stack of a fiber
constexpr size_t ARENA = 128u << 20;   // heap of a fiber
constexpr long FAIR = 2000;
constexpr u64 HEAP_BASE = 0x100000000000ull;
constexpr u64 HEAP_SIZE = ARENA * MAXF;
constexpr u64 STACK_BASE = HEAP_BASE + HEAP_SIZE;
constexpr u64 STACK_SIZE = STACK * MAXF;
constexpr u64 MEM_END = STACK_BASE + STACK_SIZE;
constexpr u64 GRANULES = (MEM_END - HEAP_BASE) / 8;
constexpr int MAXOBJ = 1 << 21;
constexpr int MAXCHOICES = 1 << 16;
constexpr int MAXEVENTS = 1 << 14;
constexpr int MAXTRACE = 1 << 15;
constexpr int MAXTLS = 1 << 14;
constexpr int MAXGATES = 64;
constexpr int MAXSHARED = 1 << 15;
constexpr int MAXKEYS = 64;

inline void rawCopy(void *d, const void *s, size_t n)
{
	asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
inline void rawSet(void *d, int v, size_t n)
{
	asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
}

inline u64 mix(u64 a, u64 b)
{
	u64 x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
	x ^= x >> 32;
	x *= 0xd6e8feb86659fd93ull;
	x ^= x >> 32;
	x *= 0xd6e8feb86659fd93ull;
	x ^= x >> 32;
	return x;
}

struct VC
{
	u32 c[MAXF];
	void clear() { memset(c, 0, sizeof c); }
	void join(const VC &o)
	{
		for (int i = 0; i < MAXF; ++i)
			if (o.c[i] > c[i])
				c[i] = o.c[i];
	}
};

enum Kind
{
	K_START, K_PLAIN, K_LOCK, K_RDLOCK, K_WRLOCK, K_JOIN, K_COND, K_FUTEX, K_SLEEP, K_QUIESCE, K_YIELD, K_ONCE,
	K_GATE, K_DONE
};
const char *const kindName[] = { "start", "step", "lock", "rdlock", "wrlock", "join", "cond-wait", "futex-wait",
	"sleep", "quiesce", "yield", "once-wait", "gate-wait", "done" };

struct Obj
{
	u64 addr;
	u32 gen;
	int owner;       // exclusive owner, -1 none
	u64 readers;     // bit mask of shared owners
	int rcount;      // number of shared locks
	VC rel, rdrel;
	u64 whash, racc;
	int onceState;
	bool isAtomic;
};

struct Pend
{
	Kind kind;
	u64 addr;
	const char *what;
	u64 pc;
	int tid;          // join target
	bool woken;       // cond/futex
	bool timedOut;
	bool signalled;
	int64_t deadline; // ns, -1 none
};

struct EhGlobals
{
	void *caught;
	unsigned int uncaught;
};

struct Fiber
{
	int id;
	bool used, done, detached, joined;
	void *sp;
	u64 arena, arenaEnd;
	Pend pend;
	VC vc, relFence, acqPending;
	bool hasRelFence;
	u64 hash;
	EhGlobals eh;
	void *(*fn)(void *);
	void *arg, *ret;
	int depth;
	u64 calls[64];
	u64 lastLoadAddr, lastLoadStep;
	u64 lastLoadVal;
	int lastLoadCount;
	u64 waitSeq;
	void *keys[MAXKEYS];
	int natexit;
	struct { void (*fn)(void *); void *arg; } atexitList[16];
	unsigned char tls[MAXTLS];
};

struct Entry
{
	u32 clk;
	u32 pc;
	unsigned char tid, mask, flags, pad; // flags: 1 write, 2 atomic
};
struct Cell
{
	u32 gen;
	u32 n;
	Entry e[6];
};

struct Choice
{
	int idx, n;
	unsigned char kind; // 's' schedule, 'c' choose, 'r' random, 'f' fault, 'w' wake
	u64 tag;
};

struct SharedEnt
{
	u64 addr;
	u64 rd, wr; // thread masks seen in the current process
	bool shared, learned;
};

struct TraceEnt
{
	int fiber;
	const char *what;
	u64 addr, pc, pc2;
	long ms;
	long val;
};

struct GateS
{
	bool open;
};

struct VEnt
{
	u64 key;
	unsigned char p, t, f, used;
	u32 pad;
};
struct OutEnt
{
	u64 h;
	u64 n;
	char *s;
};
constexpr int MAXOUT = 4096;

struct Scenario
{
	const char *name = nullptr;
	void (*fn)() = nullptr;
	mc::Options o;
};

struct RT
{
	// configuration of the exploration
	int P, T, F;
	int shard, shards;
	bool tracing, replaying, verifying;
	long maxSteps;
	long runLength; // scheduling points since the last switch
	// execution
	volatile bool inExec;
	bool outside;
	u32 gen;
	int cur, nf, alive;
	Fiber f[MAXF];
	Obj obj[MAXOBJ];
	int nobj;
	u32 objHash[MAXOBJ * 2];
	u32 objHashGen[MAXOBJ * 2];
	int64_t now;
	int usedP, usedT, usedF;
	bool faultsOn;
	long refuse; // thread creations refused from now on
	int refuseError;
	int timers, maxTimers, idleYields;
	long heapBlocks, heapBytes; // allocated by the program under test, not yet released
	long steps;
	u64 waitSeq;
	bool leftover;
	int seeds, fixedSeed;
	bool delayBounded;
	u64 seedCalls;
	int seedChoices;
	bool configUsed;
	GateS gates[MAXGATES];
	int ngates;
	mc::Event ev[MAXEVENTS];
	int nev;
	u64 logW; // hash of the event log
	char outcome[512];
	// choices
	Choice ch[MAXCHOICES];
	int nch, pos, prefix;
	// result of the execution
	int result; // 0 running, 1 ok, 2 pruned, 3 violation, 4 internal error
	char msg[4096];
	// controller
	void *ctlSp;
	void *snap;
	u64 dataBeg, dataEnd;
	u64 tlsBeg, tlsSize;
	const void *tlsInit;
	u64 tlsInitSize;
	void *persist[64];
	u64 counter[64];
	SharedEnt sh[MAXSHARED];
	int nsh;
	bool grew;
	// statistics
	u64 execs, pruned, points, stepsTotal, states;
	int maxDepth;
	volatile u64 ticks;
	TraceEnt tr[MAXTRACE];
	int ntr;
	EhGlobals ctlEh;
	long stepLimit;
	// visited set, outcomes, watchdog (here, and not in variables, because .data/.bss are restored)
	VEnt *vtab;
	u64 vcap, vcount;
	OutEnt outs[MAXOUT];
	int nouts;
	u64 *mtab;
	u64 mcap, mcount;
	volatile u64 lastTicks;
	volatile int sameTicks;
};

RT *const R = (RT *)0x180000000000ull;
Cell *const cells = (Cell *)0x190000000000ull;   // GRANULES cells
u32 *const astate = (u32 *)0x1f0000000000ull;    // per granule: gen<<2 | state
Cell *gcells = nullptr;                          // for .data/.bss
u64 gBeg, gEnd;

constinit Scenario scen[512] = {}; // constant initialisation: the registrations of other files come at any time
int nscen;

// ---- visited set -----------------------------------------------------------------------------
#define vtab R->vtab
#define vcap R->vcap
#define vcount R->vcount
void vclear()
{
	if (!vtab)
	{
		vcap = 1 << 16;
		vtab = (VEnt *)calloc(vcap, sizeof(VEnt));
	}
	else
	{
		if (vcap > (1u << 20))
		{
			free(vtab);
			vcap = 1 << 16;
			vtab = (VEnt *)calloc(vcap, sizeof(VEnt));
		}
		else
			memset(vtab, 0, vcap * sizeof(VEnt));
	}
	vcount = 0;
}
VEnt *vfind(u64 key)
{
	u64 i = key & (vcap - 1);
	while (vtab[i].used && vtab[i].key != key)
		i = (i + 1) & (vcap - 1);
	return &vtab[i];
}
void vgrow()
{
	VEnt *o = vtab;
	u64 oc = vcap;
	vcap *= 2;
	vtab = (VEnt *)calloc(vcap, sizeof(VEnt));
	if (!vtab)
		abort();
	for (u64 i = 0; i < oc; ++i)
		if (o[i].used)
			*vfind(o[i].key) = o[i];
	free(o);
}
// true: this state was explored before with at least these budgets left
bool vseen(u64 key)
{
	for (int round = 0; round < 2; ++round)
	{
		VEnt *e = vfind(key);
		if (!e->used)
		{
			e->used = 1;
			e->key = key;
			e->p = R->usedP;
			e->t = R->usedT;
			e->f = R->usedF;
			if (++vcount * 10 > vcap * 6)
				vgrow();
			return false;
		}
		if (e->p <= R->usedP && e->t <= R->usedT && e->f <= R->usedF)
			return true;
		if (e->p >= R->usedP && e->t >= R->usedT && e->f >= R->usedF)
		{
			e->p = R->usedP;
			e->t = R->usedT;
			e->f = R->usedF;
			return false;
		}
		key = mix(key, R->usedP * 65536 + R->usedT * 256 + R->usedF + 1);
	}
	return false;
}

// ---- context switch --------------------------------------------------------------------------
extern "C" void mc_switch(void **save, void *load);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size mc_switch,.-mc_switch
)");

inline Fiber &me() { return R->f[R->cur]; }
inline bool active() { return R->inExec && !R->outside; }

void trace(const char *what, u64 addr, u64 pc, long val = 0)
{
	if (!R->tracing || R->ntr >= MAXTRACE)
		return;
	Fiber &f = me();
	TraceEnt &t = R->tr[R->ntr++];
	t.fiber = R->cur;
	t.what = what;
	t.addr = addr;
	t.pc = pc;
	int d = f.depth < 64 ? f.depth : 64;
	t.pc2 = d > 0 ? f.calls[d - 1] : 0;
	t.ms = R->now / 1000000;
	t.val = val;
}

void tlsOut(Fiber &f)
{
	if (R->tlsSize)
		memcpy(f.tls, (void *)R->tlsBeg, R->tlsSize);
}
void tlsIn(Fiber &f)
{
	if (R->tlsSize)
		memcpy((void *)R->tlsBeg, f.tls, R->tlsSize);
}

[[noreturn]] void toController()
{
	Fiber &f = me();
	R->inExec = false;
	mc_switch(&f.sp, R->ctlSp);
	abort();
}

[[noreturn]] void violation(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(R->msg, sizeof R->msg, fmt, ap);
	va_end(ap);
	(void)n;
	R->result = 3;
	toController();
}
[[noreturn]] void internalError(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(R->msg, sizeof R->msg, fmt, ap);
	va_end(ap);
	R->result = 4;
	toController();
}

// ---- objects ---------------------------------------------------------------------------------
Obj &object(u64 addr)
{
	u32 h = (u32)(mix(addr, 7)) & (MAXOBJ * 2 - 1);
	while (R->objHashGen[h] == R->gen)
	{
		Obj &o = R->obj[R->objHash[h]];
		if (o.addr == addr)
			return o;
		h = (h + 1) & (MAXOBJ * 2 - 1);
	}
	if (R->nobj >= MAXOBJ)
		internalError("too many synchronization objects");
	R->objHashGen[h] = R->gen;
	R->objHash[h] = R->nobj;
	Obj &o = R->obj[R->nobj++];
	o.addr = addr;
	o.gen = R->gen;
	o.owner = -1;
	o.readers = 0;
	o.rcount = 0;
	o.rel.clear();
	o.rdrel.clear();
	o.whash = addr;
	o.racc = 0;
	o.onceState = 0;
	o.isAtomic = false;
	return o;
}

void hashWrite(Obj &o, int kind)
{
	Fiber &f = me();
	f.hash = mix(mix(f.hash, o.addr * 64 + kind), o.whash + o.racc);
	o.whash = f.hash;
	o.racc = 0;
}
void hashRead(Obj &o, int kind)
{
	Fiber &f = me();
	f.hash = mix(mix(f.hash, o.addr * 64 + kind), o.whash);
	o.racc += mix(f.hash, 3);
}
void hashLocal(u64 v)
{
	Fiber &f = me();
	f.hash = mix(f.hash, v);
}

// Whether operations on this address can conflict between threads. Learned while exploring with the set known so
// far, which is kept fixed; the exploration is then started over with the larger set, until nothing is added.
bool sharedPoint(u64 addr, bool write)
{
	u32 h = (u32)mix(addr, 11) & (MAXSHARED - 1);
	while (R->sh[h].addr && R->sh[h].addr != addr)
		h = (h + 1) & (MAXSHARED - 1);
	SharedEnt &e = R->sh[h];
	if (!e.addr)
	{
		if (R->nsh > MAXSHARED / 2)
			return true;
		e.addr = addr;
		R->nsh++;
	}
	if (R->alive <= 1)
		return e.shared;
	u64 m = 1ull << R->cur;
	e.rd |= m;
	if (write)
		e.wr |= m;
	if (!e.learned && e.wr && (e.rd & (e.rd - 1)))
	{
		e.learned = true; // takes effect when the exploration is started over
		R->grew = true;
	}
	return e.shared;
}

// ---- choices ---------------------------------------------------------------------------------
int choice(unsigned char kind, int n, u64 tag)
{
	if (n <= 1)
		return 0;
	if (R->pos < R->nch)
	{
		Choice &c = R->ch[R->pos++];
		if (c.kind != kind || c.n != n || (c.tag != tag && !R->replaying))
			internalError("replay diverged at choice %d: recorded %c/%d, now %c/%d", R->pos - 1, c.kind, c.n, kind,
						  n);
		return c.idx;
	}
	if (R->replaying)
		internalError("replay diverged: more choices than recorded");
	if (R->nch >= MAXCHOICES)
		internalError("too many choices in one execution");
	Choice &c = R->ch[R->nch++];
	c.idx = 0;
	c.n = n;
	c.kind = kind;
	c.tag = tag;
	R->pos = R->nch;
	R->points++;
	return 0;
}

// ---- scheduler -------------------------------------------------------------------------------
bool canRun(const Fiber &f)
{
	const Pend &p = f.pend;
	if (p.timedOut)
		return true;
	switch (p.kind)
	{
	case K_START:
	case K_PLAIN:
		return true;
	case K_LOCK:
	case K_WRLOCK:
	{
		Obj &o = object(p.addr);
		return o.owner < 0 && o.rcount == 0;
	}
	case K_RDLOCK:
		return object(p.addr).owner < 0;
	case K_JOIN:
		return R->f[p.tid].done;
	case K_COND:
	case K_FUTEX:
		return p.woken;
	case K_ONCE:
		return object(p.addr).onceState != 1;
	case K_GATE:
		return R->gates[p.tid].open;
	case K_SLEEP:
	case K_QUIESCE:
	case K_YIELD:
	case K_DONE:
		return false;
	}
	return false;
}

void describeThreads(char *buf, size_t n)
{
	size_t k = 0;
	for (int i = 0; i < R->nf && k < n; ++i)
	{
		Fiber &f = R->f[i];
		if (f.done)
			continue;
		k += snprintf(buf + k, n - k, " [thread %d: %s %s at 0x%lx stack", i, kindName[f.pend.kind],
					  f.pend.what ? f.pend.what : "", (unsigned long)f.pend.pc);
		int d = f.depth < 64 ? f.depth : 64;
		for (int j = d - 1; j >= 0 && j > d - 14 && k < n; --j)
			k += snprintf(buf + k, n - k, " 0x%lx", (unsigned long)f.calls[j]);
		if (k < n)
			k += snprintf(buf + k, n - k, "]");
	}
}

void switchTo(int next)
{
	if (next == R->cur)
		return;
	Fiber &a = me();
	Fiber &b = R->f[next];
	EhGlobals *g = (EhGlobals *)abi::__cxa_get_globals();
	a.eh = *g;
	tlsOut(a);
	R->cur = next;
	*g = b.eh;
	tlsIn(b);
	mc_switch(&a.sp, b.sp);
}

u64 stateSig(bool curEnabled)
{
	u64 s = mix(R->now, R->ngates);
	for (int i = 0; i < R->nf; ++i)
	{
		Fiber &f = R->f[i];
		u64 flags = (f.done ? 1 : 0) | (f.pend.woken ? 2 : 0) | (f.pend.timedOut ? 4 : 0) | (f.pend.kind << 4);
		s += mix(mix(f.hash, i + 1), mix(flags, (u64)f.pend.deadline));
	}
	s = mix(s, curEnabled ? R->cur + 1 : 0);
	s = mix(s, R->timers);
	return s;
}

void fireTimersUpTo(int64_t t)
{
	if (t > R->now)
		R->now = t;
	for (int i = 0; i < R->nf; ++i)
	{
		Fiber &f = R->f[i];
		if (f.used && !f.done && f.pend.kind != K_QUIESCE && f.pend.deadline >= 0 && f.pend.deadline <= R->now &&
			!f.pend.timedOut)
			f.pend.timedOut = true;
	}
}

// Called by the running fiber with its pending operation set (or done). Returns when this fiber has been
// chosen to perform its pending operation.
void schedule()
{
	if (R->result == 4)
		toController();
	for (;;)
	{
		int en[MAXF * 2 + 2], cost[MAXF * 2 + 2], act[MAXF * 2 + 2];
		int n = 0;
		Fiber &c = me();
		bool curEn = !c.done && canRun(c);
		if (curEn && R->runLength > FAIR)
		{
			// Fairness: no thread that can move waits for ever.
			for (int i = 0; i < R->nf; ++i)
				if (i != R->cur && !R->f[i].done && canRun(R->f[i]))
					curEn = false;
		}
		if (curEn)
		{
			en[n] = R->cur;
			cost[n] = 0;
			act[n++] = 0;
		}
		bool others = false;
		for (int d = 1; d < R->nf; ++d)
		{
			int i = R->delayBounded && !curEn ? (R->cur + d) % R->nf : d - 1 < R->cur ? d - 1 : d;
			Fiber &f = R->f[i];
			if (f.done || !canRun(f))
				continue;
			// a preemption; with delay bounding also any choice but the next thread when the current one blocks
			int c = curEn || (R->delayBounded && others) ? 1 : 0;
			others = true;
			if (R->usedP + c > R->P)
				continue;
			en[n] = i;
			cost[n] = c;
			act[n++] = 0;
		}
		if (!curEn && !others)
		{
			// Nothing can move: first the spinning threads, then quiescent waiters and the clock.
			int ny = 0;
			for (int i = 0; i < R->nf; ++i)
				if (!R->f[i].done && R->f[i].pend.kind == K_YIELD)
					ny++;
			int64_t tq = -1, tt = -1;
			for (int i = 0; i < R->nf; ++i)
			{
				Fiber &f = R->f[i];
				if (f.done || f.pend.deadline < 0)
					continue;
				int64_t &x = f.pend.kind == K_QUIESCE ? tq : tt;
				if (x < 0 || f.pend.deadline < x)
					x = f.pend.deadline;
			}
			if (ny && R->idleYields < 40)
			{
				R->idleYields++;
				for (int i = 0; i < R->nf; ++i)
					if (!R->f[i].done && R->f[i].pend.kind == K_YIELD)
						R->f[i].pend.kind = K_PLAIN;
				continue;
			}
			if (tq >= 0 && (tt < 0 || tq < tt || (tq == tt && tt > R->now)))
			{
				if (tq > R->now)
					R->now = tq;
				for (int i = 0; i < R->nf; ++i)
				{
					Fiber &f = R->f[i];
					if (!f.done && f.pend.kind == K_QUIESCE && f.pend.deadline <= R->now)
					{
						f.pend.kind = K_PLAIN;
						f.pend.deadline = -1;
					}
				}
				R->idleYields = 0;
				continue;
			}
			if (tt >= 0)
			{
				if (++R->timers > R->maxTimers)
				{
					char buf[3000];
					describeThreads(buf, sizeof buf);
					violation("no progress: only timers fire (%d times) while threads wait:%s", R->timers - 1, buf);
				}
				fireTimersUpTo(tt);
				R->idleYields = 0;
				continue;
			}
			if (ny)
			{
				char buf[3000];
				describeThreads(buf, sizeof buf);
				violation("livelock: threads spin while nothing else can move:%s", buf);
			}
			bool all = true;
			for (int i = 0; i < R->nf; ++i)
				if (!R->f[i].done)
					all = false;
			if (all)
			{
				R->result = 1;
				toController();
			}
			if (R->f[0].done && R->leftover)
			{
				R->result = 1;
				toController();
			}
			char buf[3000];
			describeThreads(buf, sizeof buf);
			violation("deadlock: no thread can move:%s", buf);
		}
		R->idleYields = 0;
		// early timeouts and spurious wake-ups
		if (R->usedT < R->T)
		{
			for (int i = 0; i < R->nf; ++i)
			{
				Fiber &f = R->f[i];
				if (f.done || canRun(f) || f.pend.kind == K_QUIESCE)
					continue;
				if (f.pend.deadline >= 0)
				{
					en[n] = i;
					cost[n] = 0;
					act[n++] = 1;
				}
				if (f.pend.kind == K_COND)
				{
					en[n] = i;
					cost[n] = 0;
					act[n++] = 2;
				}
			}
		}
		int k = 0;
		if (n > 1)
		{
			u64 sig = stateSig(curEn);
			if (R->pos >= R->nch && R->pos > R->prefix - 1 && !R->replaying)
			{
				if (vseen(sig))
				{
					R->result = 2;
					toController();
				}
			}
			k = choice('s', n, sig);
		}
		if (act[k])
		{
			R->usedT++;
			Fiber &f = R->f[en[k]];
			if (act[k] == 1)
			{
				trace("(timer fires early)", 0, 0, en[k]);
				fireTimersUpTo(f.pend.deadline);
			}
			else
			{
				trace("(spurious wake-up)", 0, 0, en[k]);
				f.pend.woken = true;
			}
		}
		R->usedP += cost[k];
		int next = en[k];
		// others have moved: spinning threads may look again
		if (R->steps++ > R->stepLimit)
		{
			char buf[3000];
			describeThreads(buf, sizeof buf);
			violation("no termination: more than %ld steps in one execution:%s", R->stepLimit, buf);
		}
		R->ticks++;
		R->runLength = next == R->cur ? R->runLength + 1 : 0;
		for (int i = 0; i < R->nf; ++i)
			if (i != next && R->f[i].pend.kind == K_YIELD && !R->f[i].done)
				R->f[i].pend.kind = K_PLAIN;
		switchTo(next);
		return;
	}
}

Pend mkPend(Kind k, u64 addr, const char *what, u64 pc)
{
	Pend p;
	p.kind = k;
	p.addr = addr;
	p.what = what;
	p.pc = pc;
	p.tid = -1;
	p.woken = p.timedOut = p.signalled = false;
	p.deadline = -1;
	return p;
}

// A visible operation that never blocks.
void point(u64 addr, const char *what, u64 pc, bool write)
{
	me().pend = mkPend(K_PLAIN, addr, what, pc);
	bool sh = sharedPoint(addr, write);
	if (R->alive > 1 && sh)
		schedule();
	else if (R->steps++ > R->stepLimit)
		violation("no termination: more than %ld steps in one execution", R->stepLimit);
}
// A visible operation that may block.
void block(const Pend &p, bool write)
{
	me().pend = p;
	bool sh = sharedPoint(p.addr, write);
	if (!canRun(me()) || (R->alive > 1 && sh))
		schedule();
	else if (R->steps++ > R->stepLimit)
		violation("no termination: more than %ld steps in one execution", R->stepLimit);
}

void tick() { me().vc.c[R->cur]++; }

// ---- memory ----------------------------------------------------------------------------------
enum { LIVE = 1, FREED = 2 };

[[noreturn]] void badAccess(u64 a, bool w, u64 pc, u32 st)
{
	violation("%s of %s memory at pc 0x%lx (address 0x%lx) by thread %d", w ? "write" : "read",
			  st == FREED ? "freed" : "unallocated", (unsigned long)pc, (unsigned long)a, R->cur);
}

inline void cellAccess(Cell &cell, u64 a, unsigned char mask, bool w, bool atomic, u64 pc)
{
	Fiber &f = me();
	u32 clk = f.vc.c[R->cur];
	unsigned char fl = (w ? 1 : 0) | (atomic ? 2 : 0);
	if (cell.gen != R->gen)
	{
		cell.gen = R->gen;
		cell.n = 0;
	}
	int slot = -1;
	for (u32 i = 0; i < cell.n; ++i)
	{
		Entry &e = cell.e[i];
		if (e.tid == R->cur)
		{
			if (e.flags == fl && e.mask == mask)
			{
				if (e.clk == clk)
					return;
				slot = i;
			}
			continue;
		}
		if ((e.mask & mask) && ((e.flags | fl) & 1) && !(e.flags & fl & 2) && e.clk > f.vc.c[e.tid])
			violation("data race: %s%s at pc 0x%lx by thread %d with earlier %s%s at pc 0x%lx by thread %d (address 0x%lx)",
					  atomic ? "atomic " : "", w ? "write" : "read", (unsigned long)pc, R->cur,
					  (e.flags & 2) ? "atomic " : "", (e.flags & 1) ? "write" : "read", (unsigned long)e.pc,
					  (int)e.tid, (unsigned long)a);
	}
	if (slot < 0)
	{
		if (cell.n < 6)
			slot = cell.n++;
		else
		{
			// replace an entry that is ordered before us if possible
			slot = 0;
			for (u32 i = 0; i < 6; ++i)
				if (cell.e[i].clk <= f.vc.c[cell.e[i].tid])
				{
					slot = i;
					break;
				}
		}
	}
	Entry &e = cell.e[slot];
	e.tid = R->cur;
	e.mask = mask;
	e.flags = fl;
	e.clk = clk;
	e.pc = (u32)pc;
}

inline void access(u64 a, u64 size, bool w, u64 pc, bool atomic = false)
{
	if (!R->inExec || R->outside)
		return;
	if (a >= HEAP_BASE && a < MEM_END)
	{
		u64 g0 = (a - HEAP_BASE) >> 3, g1 = (a + size - 1 - HEAP_BASE) >> 3;
		bool heap = a < STACK_BASE;
		for (u64 g = g0; g <= g1; ++g)
		{
			if (heap)
			{
				u32 st = astate[g];
				if (st != ((R->gen << 2) | LIVE))
					badAccess(a, w, pc, (st >> 2) == (R->gen & 0x3fffffff) ? (st & 3) : 0);
			}
			if (R->nf > 1)
			{
				u64 base = HEAP_BASE + (g << 3);
				u64 lo = a > base ? a - base : 0, hi = a + size < base + 8 ? a + size - base : 8;
				unsigned char mask = (unsigned char)(((1u << hi) - 1) & ~((1u << lo) - 1));
				cellAccess(cells[g], a, mask, w, atomic, pc);
			}
		}
	}
	else if (a >= gBeg && a < gEnd && R->nf > 1)
	{
		if (R->tlsSize && a >= R->tlsBeg && a < R->tlsBeg + R->tlsSize)
			return;
		u64 g0 = (a - gBeg) >> 3, g1 = (a + size - 1 - gBeg) >> 3;
		for (u64 g = g0; g <= g1; ++g)
		{
			u64 base = gBeg + (g << 3);
			u64 lo = a > base ? a - base : 0, hi = a + size < base + 8 ? a + size - base : 8;
			unsigned char mask = (unsigned char)(((1u << hi) - 1) & ~((1u << lo) - 1));
			cellAccess(gcells[g], a, mask, w, atomic, pc);
		}
	}
}

void checkLive(u64 a, const char *what, u64 pc)
{
	if (a >= HEAP_BASE && a < STACK_BASE)
	{
		u32 st = astate[(a - HEAP_BASE) >> 3];
		if (st != ((R->gen << 2) | LIVE))
			violation("%s on %s memory at pc 0x%lx by thread %d", what,
					  (st >> 2) == (R->gen & 0x3fffffff) && (st & 3) == FREED ? "freed" : "unallocated",
					  (unsigned long)pc, R->cur);
	}
}

// A lock or condition variable is used: the use has to be ordered with the release of its memory.
void useObject(u64 a, const char *what, u64 pc)
{
	checkLive(a, what, pc);
	if (a >= HEAP_BASE && a < STACK_BASE)
		access(a, 1, true, pc, true);
}

void *arenaAlloc(size_t n, size_t align)
{
	Fiber &f = me();
	if (align < 16)
		align = 16;
	u64 p = (f.arena + 16 + align - 1) & ~(u64)(align - 1);
	u64 sz = (n + 7) & ~7ull;
	if (sz == 0)
		sz = 8;
	if (p + sz + 16 > f.arenaEnd)
		internalError("arena of thread %d exhausted", R->cur);
	*(u64 *)(p - 8) = sz;
	f.arena = p + sz;
	f.arena = (f.arena + 15) & ~15ull;
	u32 v = (R->gen << 2) | LIVE;
	for (u64 g = (p - HEAP_BASE) >> 3, e = (p + sz - HEAP_BASE) >> 3; g < e; ++g)
		astate[g] = v;
	rawSet((void *)p, 0xcd, sz);
	R->heapBlocks++;
	R->heapBytes += sz;
	return (void *)p;
}
void arenaFree(u64 p)
{
	if (!active())
	{
		if (!R->inExec)
			return;
	}
	u32 st = astate[(p - HEAP_BASE) >> 3];
	if (st != ((R->gen << 2) | LIVE))
		violation("%s free at address 0x%lx by thread %d", (st & 3) == FREED ? "double" : "invalid", (unsigned long)p,
				  R->cur);
	u64 sz = *(u64 *)(p - 8);
	// a thread blocked on an object inside the block
	for (int i = 0; i < R->nf; ++i)
	{
		Fiber &f = R->f[i];
		if (i == R->cur || f.done)
			continue;
		Kind k = f.pend.kind;
		if ((k == K_LOCK || k == K_RDLOCK || k == K_WRLOCK || k == K_COND || k == K_FUTEX) && f.pend.addr >= p &&
			f.pend.addr < p + sz && !canRun(f))
			violation("synchronization object destroyed while thread %d waits on it (%s)", i, f.pend.what);
	}
	// the deallocation counts as a write (races with concurrent accesses)
	if (R->nf > 1 && !R->outside)
		access(p, sz, true, (u64)__builtin_return_address(0));
	u32 v = (R->gen << 2) | FREED;
	for (u64 g = (p - HEAP_BASE) >> 3, e = (p + sz - HEAP_BASE) >> 3; g < e; ++g)
		astate[g] = v;
	rawSet((void *)p, 0xdb, sz);
	R->heapBlocks--;
	R->heapBytes -= sz;
}

// ---- fibers ----------------------------------------------------------------------------------
void fiberExit();

void fiberBody() noexcept
{
	Fiber &f = me();
	trace("thread starts", 0, 0);
	f.ret = f.fn(f.arg);
	fiberExit();
}
extern "C" void mc_trampoline()
{
	fiberBody();
	abort();
}

void fiberExit()
{
	Fiber &f = me();
	while (f.natexit > 0)
	{
		--f.natexit;
		f.atexitList[f.natexit].fn(f.atexitList[f.natexit].arg);
	}
	if (R->cur == 0)
	{
		// the scenario's main function returned: let everything else run to its end
		f.pend = mkPend(K_QUIESCE, 0, "end", 0);
		f.pend.deadline = R->now + 10ll * 1000000000;
		R->alive = R->alive; // unchanged
		schedule();
	}
	trace("thread ends", 0, 0);
	R->alive--;
	f.done = true;
	f.pend = mkPend(K_DONE, 0, "done", 0);
	tick();
	hashLocal(0xd0d0);
	schedule();
	abort();
}

int newFiber(void *(*fn)(void *), void *arg)
{
	if (R->nf >= MAXF)
		internalError("too many threads in one execution");
	int id = R->nf++;
	Fiber &f = R->f[id];
	memset((void *)&f, 0, offsetof(Fiber, tls));
	f.id = id;
	f.used = true;
	f.fn = fn;
	f.arg = arg;
	f.arena = HEAP_BASE + ARENA * id;
	f.arenaEnd = f.arena + ARENA;
	if (R->tlsSize)
	{
		memcpy(f.tls, R->tlsInit, R->tlsInitSize);
		memset(f.tls + R->tlsInitSize, 0, R->tlsSize - R->tlsInitSize);
	}
	u64 top = STACK_BASE + STACK * (id + 1) - 64;
	top &= ~63ull;
	u64 *sp = (u64 *)top;
	*--sp = 0;                        // alignment: rsp % 16 == 8 at function entry
	*--sp = (u64)&mc_trampoline;
	for (int i = 0; i < 6; ++i)
		*--sp = 0;
	f.sp = sp;
	f.pend = mkPend(K_START, 0, "start", 0);
	R->alive++;
	return id;
}

u64 seedValue(int i)
{
	return mix(0x5eed + i, 0x1234567 * (i + 1));
}

#define lastTicks R->lastTicks
#define sameTicks R->sameTicks
void onAlarm(int, siginfo_t *, void *)
{
	if (!R->inExec)
	{
		sameTicks = 0;
		return;
	}
	u64 t = R->ticks + (u64)R->steps * 3 + R->execs;
	if (t == lastTicks)
	{
		if (++sameTicks >= 4)
		{
			sameTicks = 0;
			char buf[3000];
			describeThreads(buf, sizeof buf);
			violation("hang: thread %d runs without reaching a synchronization operation:%s", R->cur, buf);
		}
	}
	else
	{
		lastTicks = t;
		sameTicks = 0;
	}
}

void onCrash(int sig, siginfo_t *si, void *uc)
{
	if (!R->inExec)
	{
		signal(sig, SIG_DFL);
		raise(sig);
		return;
	}
	u64 pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
	char buf[3000];
	describeThreads(buf, sizeof buf);
	violation("crash: signal %d in thread %d at pc 0x%lx (address 0x%lx):%s", sig, R->cur, (unsigned long)pc,
			  (unsigned long)si->si_addr, buf);
}

char *demangledType()
{
	std::type_info *t = abi::__cxa_current_exception_type();
	if (!t)
		return nullptr;
	int st;
	return abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
}

void onTerminate()
{
	if (!R->inExec)
		abort();
	bool o = R->outside;
	R->outside = true;
	char *n = demangledType();
	char buf[3000];
	describeThreads(buf, sizeof buf);
	R->outside = o;
	violation("std::terminate called in thread %d (exception: %s):%s", R->cur, n ? n : "none", buf);
}

// ---- one execution ---------------------------------------------------------------------------
const Scenario *curScen;

void *mainBody(void *)
{
	curScen->fn();
	return nullptr;
}

void runExecution()
{
	memcpy((void *)R->dataBeg, R->snap, R->dataEnd - R->dataBeg);
	R->gen++;
	R->gen &= 0x3fffffff;
	if (R->gen == 0)
		R->gen = 1;
	R->cur = 0;
	R->nf = 0;
	R->alive = 0;
	R->nobj = 0;
	R->now = 1000000000;
	R->usedP = R->usedT = R->usedF = 0;
	R->faultsOn = false;
	R->refuse = 0;
	R->refuseError = EAGAIN;
	R->timers = 0;
	R->maxTimers = 60;
	R->idleYields = 0;
	R->steps = 0;
	R->heapBlocks = R->heapBytes = 0;
	R->stepLimit = 1000000;
	R->runLength = 0;
	R->leftover = false;
	R->seeds = 1;
	R->fixedSeed = -1;
	R->seedCalls = 0;
	R->configUsed = false;
	R->ngates = 0;
	R->nev = 0;
	R->logW = 0;
	R->outcome[0] = 0;
	R->pos = 0;
	R->prefix = R->nch;
	R->result = 0;
	R->msg[0] = 0;
	R->ntr = 0;
	R->outside = false;
	newFiber(&mainBody, nullptr);
	EhGlobals *g = (EhGlobals *)abi::__cxa_get_globals();
	R->ctlEh = *g;
	*g = R->f[0].eh;
	tlsIn(R->f[0]);
	R->inExec = true;
	mc_switch(&R->ctlSp, R->f[0].sp);
	R->inExec = false;
	*g = R->ctlEh;
	R->execs++;
	R->stepsTotal += R->steps;
	if (R->nch > R->maxDepth)
		R->maxDepth = R->nch;
}

// next choice vector in depth-first order; false: exhausted
bool backtrack()
{
	while (R->nch > 0)
	{
		Choice &c = R->ch[R->nch - 1];
		if (c.idx + 1 < c.n)
		{
			c.idx++;
			return true;
		}
		R->nch--;
	}
	return false;
}

} // namespace

// ---- harness API -----------------------------------------------------------------------------
namespace mc
{
int choose(int n, const char *)
{
	int k = choice('c', n, n);
	hashLocal(0xc0000 + k);
	trace("choose", 0, 0, k);
	return k;
}
int config(int n, const char *)
{
	int lo = R->shard, st = R->shards;
	if (R->configUsed || st <= 1)
	{
		int k = choice('c', n, n);
		hashLocal(0xc0000 + k);
		trace("config", 0, 0, k);
		return k;
	}
	R->configUsed = true;
	int m = (n - lo + st - 1) / st; // values lo, lo+st, ...
	if (m <= 0)
	{
		R->result = 2;
		toController();
	}
	int k = lo + st * choice('c', m, m);
	hashLocal(0xc0000 + k);
	trace("config", 0, 0, k);
	return k;
}
void seeds(int k, int calls)
{
	R->seeds = k;
	R->seedChoices = calls;
}
void fixSeed(int i)
{
	R->fixedSeed = i;
	R->seedCalls = 0;
}
void settle(long ms)
{
	Fiber &f = me();
	f.pend = mkPend(K_QUIESCE, 0, "settle", (u64)__builtin_return_address(0));
	f.pend.deadline = R->now + (int64_t)ms * 1000000;
	schedule();
	hashLocal(0x5e771e);
	hashLocal(R->now);
}
void quiesce() { settle(0); }
long nowMs() { return (R->now - 1000000000) / 1000000; }
int self() { return R->cur; }
int threadsCreated() { return R->nf - 1; }
long heapBlocks() { return R->heapBlocks; }
long heapBytes() { return R->heapBytes; }
int threadsAlive() { return R->alive - (R->f[0].done ? 0 : 1); }
bool threadFinished(int id) { return id < R->nf && R->f[id].done; }
static void logPoint(bool sched)
{
	Fiber &f = me();
	if (sched && R->alive > 1)
	{
		f.pend = mkPend(K_PLAIN, 1, "event", (u64)__builtin_return_address(0));
		schedule();
	}
	f.hash = mix(f.hash, R->logW);
	R->logW = f.hash;
}
void mark() { logPoint(true); }
static void append(int kind, long a, long b)
{
	if (R->nev >= MAXEVENTS)
		internalError("too many events");
	Event &e = R->ev[R->nev++];
	e.kind = kind;
	e.a = a;
	e.b = b;
	e.thread = R->cur;
	e.ms = nowMs();
	hashLocal(mix(kind, mix(a, b)));
	R->logW = me().hash;
	trace("event", kind, (u64)a, b);
}
void event(int kind, long a, long b)
{
	if (!R->inExec)
		return;
	logPoint(true);
	append(kind, a, b);
}
void note(int kind, long a, long b)
{
	if (!R->inExec)
		return;
	logPoint(false);
	append(kind, a, b);
}
int events() { return R->nev; }
const Event &at(int i) { return R->ev[i]; }
void outcome(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(R->outcome, sizeof R->outcome, fmt, ap);
	va_end(ap);
}
void fail(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(R->msg, sizeof R->msg, fmt, ap);
	va_end(ap);
	R->result = 3;
	toController();
}
void state(uint64_t h)
{
	h = mix(h, 0x57a7e);
	if (!h)
		h = 1;
	if (!R->mtab)
	{
		R->mcap = 1 << 14;
		R->mtab = (u64 *)calloc(R->mcap, 8);
	}
	if (R->mcount * 2 > R->mcap)
	{
		u64 *o = R->mtab, oc = R->mcap;
		R->mcap *= 2;
		R->mtab = (u64 *)calloc(R->mcap, 8);
		for (u64 i = 0; i < oc; ++i)
			if (o[i])
			{
				u64 k = o[i] & (R->mcap - 1);
				while (R->mtab[k])
					k = (k + 1) & (R->mcap - 1);
				R->mtab[k] = o[i];
			}
		::free(o);
	}
	u64 k = h & (R->mcap - 1);
	while (R->mtab[k])
	{
		if (R->mtab[k] == h)
			return;
		k = (k + 1) & (R->mcap - 1);
	}
	R->mtab[k] = h;
	R->mcount++;
}
void *&persist(int slot) { return R->persist[slot]; }
u64 &counter(int slot) { return R->counter[slot]; }
void allowLeftover() { R->leftover = true; }
void maxTimers(int n) { R->maxTimers = n; }
void threadFaults(bool on) { R->faultsOn = on; }
int faultsInjected() { return R->usedF; }
void refuseThreads(long n) { R->refuse = n; }
void refuseError(int e) { R->refuseError = e; }
void maxSteps(long n) { R->stepLimit = n; }

Gate::Gate(bool open)
{
	if (R->ngates >= MAXGATES)
		internalError("too many gates");
	m_id = R->ngates++;
	R->gates[m_id].open = open;
}
void Gate::wait()
{
	Pend p = mkPend(K_GATE, 2 + m_id, "gate", (u64)__builtin_return_address(0));
	p.tid = m_id;
	me().pend = p;
	if (R->alive > 1 || !canRun(me()))
		schedule();
	trace("gate passed", 0, 0, m_id);
	hashRead(object(2 + m_id), 50);
}
void Gate::open()
{
	me().pend = mkPend(K_PLAIN, 2 + m_id, "gate open", (u64)__builtin_return_address(0));
	if (R->alive > 1)
		schedule();
	R->gates[m_id].open = true;
	trace("gate opened", 0, 0, m_id);
	hashWrite(object(2 + m_id), 51);
}
void Gate::close()
{
	me().pend = mkPend(K_PLAIN, 2 + m_id, "gate close", (u64)__builtin_return_address(0));
	if (R->alive > 1)
		schedule();
	R->gates[m_id].open = false;
	hashWrite(object(2 + m_id), 52);
}
bool Gate::isOpen() const { return R->gates[m_id].open; }
int Gate::waiting() const
{
	int n = 0;
	for (int i = 0; i < R->nf; ++i)
		if (!R->f[i].done && R->f[i].pend.kind == K_GATE && R->f[i].pend.tid == m_id && !R->gates[m_id].open)
			n++;
	return n;
}

Outside::Outside()
: prev(R->outside)
{
	R->outside = true;
}
Outside::~Outside() { R->outside = prev; }

Registration::Registration(const char *name, void (*fn)(), Options o)
{
	scen[nscen].name = name;
	scen[nscen].fn = fn;
	scen[nscen++].o = o;
}
} // namespace mc

// ---- heap ------------------------------------------------------------------------------------
static void *allocate(size_t n, size_t align)
{
	if (R->inExec && !R->outside)
		return arenaAlloc(n, align);
	void *p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
	if (!p)
		abort();
	return p;
}
static void release(void *p)
{
	if (!p)
		return;
	u64 a = (u64)p;
	if (a >= HEAP_BASE && a < STACK_BASE)
	{
		if (R->inExec)
			arenaFree(a);
		return;
	}
	free(p);
}
void *operator new(size_t n) { return allocate(n, 16); }
void *operator new[](size_t n) { return allocate(n, 16); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return allocate(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return allocate(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return allocate(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return allocate(n, (size_t)a); }
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, size_t) noexcept { release(p); }
void operator delete[](void *p, size_t) noexcept { release(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { release(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { release(p); }
void operator delete(void *p, std::align_val_t) noexcept { release(p); }
void operator delete[](void *p, std::align_val_t) noexcept { release(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { release(p); }

// ---- random_device ---------------------------------------------------------------------------
static unsigned randomValue()
{
	if (!R->inExec)
		return 42;
	int i;
	if (R->fixedSeed >= 0)
	{
		// a stream of its own for every index
		u64 x = ((u64)(R->fixedSeed + 1) << 32) + R->seedCalls++;
		x += 0x9e3779b97f4a7c15ull;
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
		x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
		return (unsigned)(x ^ (x >> 31));
	}
	else
	{
		int k = R->seedChoices-- > 0 ? R->seeds : 1;
		i = choice('r', k, k);
		hashLocal(0xa0000 + i);
	}
	return (unsigned)seedValue(i);
}
namespace std
{
void random_device::_M_init(const std::string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return randomValue(); }
double random_device::_M_getentropy() const noexcept { return 32; }
} // namespace std
EXPORT int getentropy(void *b, size_t n)
{
	for (size_t i = 0; i < n; i += 4)
	{
		unsigned v = randomValue();
		memcpy((char *)b + i, &v, n - i < 4 ? n - i : 4);
	}
	return 0;
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned)
{
	getentropy(b, n);
	return (ssize_t)n;
}

// ---- pthread ---------------------------------------------------------------------------------
#define PC ((u64)__builtin_return_address(0))

EXPORT pthread_t pthread_self() { return R->inExec ? 0x1000 + R->cur : 0x999; }

EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
	if (!R->inExec)
		return EAGAIN;
	u64 pc = PC;
	if (R->refuse > 0)
	{
		R->refuse--;
		trace("pthread_create fails", 0, pc);
		return R->refuseError;
	}
	if (R->faultsOn && R->usedF < R->F)
	{
		if (choice('f', 2, 2))
		{
			R->usedF++;
			hashLocal(0xfa117);
			trace("pthread_create fails", 0, pc);
			return R->refuseError;
		}
	}
	int id = newFiber(fn, arg);
	Fiber &c = R->f[id];
	Fiber &p = me();
	c.vc = p.vc;
	c.vc.c[id] = 1;
	tick();
	p.hash = mix(p.hash, 0xc4ea7e + id);
	c.hash = mix(p.hash, id);
	*t = 0x1000 + id;
	trace("create thread", 0, pc, id);
	// the new thread may run first
	p.pend = mkPend(K_PLAIN, 3, "created thread", pc);
	schedule();
	return 0;
}
EXPORT int pthread_join(pthread_t t, void **ret)
{
	if (!R->inExec)
		return 0;
	u64 pc = PC;
	int id = (int)(t - 0x1000);
	if (id < 0 || id >= R->nf)
		return ESRCH;
	if (id == R->cur)
		return EDEADLK;
	Pend p = mkPend(K_JOIN, 4, "join", pc);
	p.tid = id;
	me().pend = p;
	if (!canRun(me()) || R->alive > 1)
		schedule();
	Fiber &c = R->f[id];
	if (c.joined || c.detached)
		violation("join of a thread that is already joined or detached");
	c.joined = true;
	me().vc.join(c.vc);
	hashLocal(c.hash);
	if (ret)
		*ret = c.ret;
	trace("joined", 0, pc, id);
	return 0;
}
EXPORT int pthread_detach(pthread_t t)
{
	int id = (int)(t - 0x1000);
	if (R->inExec && id >= 0 && id < R->nf)
		R->f[id].detached = true;
	return 0;
}
EXPORT void pthread_exit(void *)
{
	fiberExit();
	abort();
}

// mutexes
static void lockAcquired(Obj &o, bool exclusive)
{
	Fiber &f = me();
	f.vc.join(o.rel);
	if (exclusive)
		f.vc.join(o.rdrel);
}
static int lockImpl(u64 a, Kind k, const char *what, u64 pc, int64_t deadline, bool exclusive)
{
	if (!active())
		return 0;
	checkLive(a, what, pc);
	Obj &o0 = object(a);
	if (k == K_RDLOCK && o0.owner == R->cur)
		return EDEADLK;
	if (k == K_WRLOCK && o0.owner == R->cur)
		return EDEADLK;
	Pend p = mkPend(k, a, what, pc);
	p.deadline = deadline;
	block(p, exclusive);
	Obj &o = object(a);
	bool timedOut = me().pend.timedOut;
	me().pend.kind = K_PLAIN;
	bool free = o.owner < 0 && (!exclusive || o.rcount == 0);
	if (!free)
	{
		if (!timedOut)
			internalError("lock granted while taken");
		hashLocal(0x71e0);
		return ETIMEDOUT;
	}
	useObject(a, what, pc);
	if (exclusive)
	{
		o.owner = R->cur;
		hashWrite(o, 1);
	}
	else
	{
		o.readers |= 1ull << R->cur;
		o.rcount++;
		hashRead(o, 2);
	}
	lockAcquired(o, exclusive);
	trace(what, a, pc);
	return 0;
}
static int tryImpl(u64 a, const char *what, u64 pc, bool exclusive)
{
	if (!active())
		return 0;
	checkLive(a, what, pc);
	point(a, what, pc, exclusive);
	useObject(a, what, pc);
	Obj &o = object(a);
	bool free = o.owner < 0 && (!exclusive || o.rcount == 0);
	trace(what, a, pc, free);
	if (!free)
	{
		hashRead(o, 3);
		return EBUSY;
	}
	if (exclusive)
	{
		o.owner = R->cur;
		hashWrite(o, 1);
	}
	else
	{
		o.readers |= 1ull << R->cur;
		o.rcount++;
		hashRead(o, 2);
	}
	lockAcquired(o, exclusive);
	return 0;
}
static int unlockImpl(u64 a, const char *what, u64 pc)
{
	if (!active())
		return 0;
	useObject(a, what, pc);
	Obj &o = object(a);
	if (o.owner == R->cur)
	{
		o.rel = me().vc;
		o.rdrel.clear();
		o.owner = -1;
		tick();
		hashWrite(o, 4);
	}
	else if (o.rcount > 0)
	{
		o.rdrel.join(me().vc);
		o.rcount--;
		if (o.rcount == 0)
			o.readers = 0;
		tick();
		hashRead(o, 5);
	}
	else
		violation("unlock of a lock that is not held (pc 0x%lx, thread %d)", (unsigned long)pc, R->cur);
	trace(what, a, pc);
	return 0;
}
static int64_t toDeadline(const struct timespec *ts)
{
	int64_t d = (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec;
	if (ts->tv_sec > 4000000000ll)
		d = 4000000000ll * 1000000000;
	if (ts->tv_sec < 0)
		d = 0;
	return d;
}

EXPORT int pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) { return 0; }
EXPORT int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
// recursive mutexes: the type is in the static initialiser
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
EXPORT int pthread_mutex_lock(pthread_mutex_t *m)
{
	if (active() && recursive(m))
	{
		Obj &o = object((u64)m);
		if (o.owner == R->cur)
		{
			o.onceState++;
			return 0;
		}
	}
	return lockImpl((u64)m, K_LOCK, "mutex lock", PC, -1, true);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m)
{
	if (active() && recursive(m) && object((u64)m).owner == R->cur)
	{
		object((u64)m).onceState++;
		return 0;
	}
	return tryImpl((u64)m, "mutex trylock", PC, true);
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
	return lockImpl((u64)m, K_LOCK, "mutex timedlock", PC, toDeadline(ts), true);
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *ts)
{
	return lockImpl((u64)m, K_LOCK, "mutex clocklock", PC, toDeadline(ts), true);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (active() && recursive(m))
	{
		Obj &o = object((u64)m);
		if (o.owner == R->cur && o.onceState > 0)
		{
			o.onceState--;
			return 0;
		}
	}
	return unlockImpl((u64)m, "mutex unlock", PC);
}
EXPORT int pthread_rwlock_init(pthread_rwlock_t *, const pthread_rwlockattr_t *) { return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return lockImpl((u64)m, K_RDLOCK, "rwlock rdlock", PC, -1, false); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return lockImpl((u64)m, K_WRLOCK, "rwlock wrlock", PC, -1, true); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return tryImpl((u64)m, "rwlock tryrdlock", PC, false); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return tryImpl((u64)m, "rwlock trywrlock", PC, true); }
EXPORT int pthread_rwlock_timedrdlock(pthread_rwlock_t *m, const struct timespec *ts) { return lockImpl((u64)m, K_RDLOCK, "rwlock timedrdlock", PC, toDeadline(ts), false); }
EXPORT int pthread_rwlock_timedwrlock(pthread_rwlock_t *m, const struct timespec *ts) { return lockImpl((u64)m, K_WRLOCK, "rwlock timedwrlock", PC, toDeadline(ts), true); }
EXPORT int pthread_rwlock_clockrdlock(pthread_rwlock_t *m, clockid_t, const struct timespec *ts) { return lockImpl((u64)m, K_RDLOCK, "rwlock clockrdlock", PC, toDeadline(ts), false); }
EXPORT int pthread_rwlock_clockwrlock(pthread_rwlock_t *m, clockid_t, const struct timespec *ts) { return lockImpl((u64)m, K_WRLOCK, "rwlock clockwrlock", PC, toDeadline(ts), true); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *m) { return unlockImpl((u64)m, "rwlock unlock", PC); }

// condition variables
EXPORT int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t *c)
{
	if (!active())
		return 0;
	for (int i = 0; i < R->nf; ++i)
	{
		Fiber &f = R->f[i];
		if (i != R->cur && !f.done && f.pend.kind == K_COND && f.pend.addr == (u64)c && !canRun(f))
			violation("condition variable destroyed while thread %d waits on it", i);
	}
	return 0;
}
static int condWait(u64 c, pthread_mutex_t *m, int64_t deadline, u64 pc)
{
	if (!active())
		return 0;
	checkLive(c, "condition wait", pc);
	Obj &mo = object((u64)m);
	if (mo.owner != R->cur)
		violation("condition wait without holding the mutex");
	// release the mutex and start waiting: one atomic step
	me().pend = mkPend(K_PLAIN, c, "condition wait", pc);
	if (sharedPoint(c, true) && R->alive > 1)
		schedule();
	mo.rel = me().vc;
	mo.rdrel.clear();
	mo.owner = -1;
	tick();
	hashWrite(mo, 4);
	hashWrite(object(c), 6);
	trace("condition wait", c, pc);
	Pend p = mkPend(K_COND, c, "condition wait", pc);
	p.deadline = deadline;
	me().pend = p;
	me().waitSeq = ++R->waitSeq;
	if (deadline >= 0 && deadline <= R->now)
		me().pend.timedOut = true;
	schedule();
	bool to = !me().pend.woken;
	hashLocal(to ? 0x71e1 : 0x3a3e);
	hashLocal(R->now);
	trace(to ? "condition wait timed out" : "condition wait woken", c, pc);
	me().pend.kind = K_PLAIN;
	lockImpl((u64)m, K_LOCK, "mutex re-lock", pc, -1, true);
	checkLive(c, "condition wait", pc);
	return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condWait((u64)c, m, -1, PC); }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	return condWait((u64)c, m, toDeadline(ts), PC);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts)
{
	return condWait((u64)c, m, toDeadline(ts), PC);
}
static int condWake(u64 c, bool all, u64 pc)
{
	if (!active())
		return 0;
	checkLive(c, "condition notify", pc);
	point(c, "condition notify", pc, true);
	useObject(c, "condition notify", pc);
	int w[MAXF], n = 0;
	for (int i = 0; i < R->nf; ++i)
	{
		Fiber &f = R->f[i];
		if (!f.done && f.pend.kind == K_COND && f.pend.addr == c && !f.pend.woken)
			w[n++] = i;
	}
	hashWrite(object(c), 7);
	trace("condition notify", c, pc, n);
	if (n == 0)
		return 0;
	if (all)
		for (int i = 0; i < n; ++i)
			R->f[w[i]].pend.woken = true;
	else
	{
		int k = choice('w', n, n);
		hashLocal(k);
		R->f[w[k]].pend.woken = true;
	}
	return 0;
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) { return condWake((u64)c, false, PC); }
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) { return condWake((u64)c, true, PC); }

// once, static initialisation
static int onceBegin(u64 a, u64 pc) // 1: run the initialiser, 0: already done
{
	Pend p = mkPend(K_ONCE, a, "once", pc);
	block(p, true);
	Obj &o = object(a);
	me().pend.kind = K_PLAIN;
	hashWrite(o, 8);
	if (o.onceState == 2)
	{
		me().vc.join(o.rel);
		return 0;
	}
	o.onceState = 1;
	return 1;
}
static void onceEnd(u64 a, bool ok)
{
	Obj &o = object(a);
	o.onceState = ok ? 2 : 0;
	o.rel.join(me().vc);
	tick();
	hashWrite(o, 9);
}
EXPORT int pthread_once(pthread_once_t *o, void (*fn)())
{
	if (!active())
	{
		if (*o != 2)
		{
			*o = 2;
			fn();
		}
		return 0;
	}
	if (*o == 2 && object((u64)o).onceState == 0)
		return 0; // done before the execution began
	if (onceBegin((u64)o, PC))
	{
		try
		{
			fn();
		}
		catch (...)
		{
			onceEnd((u64)o, false);
			throw;
		}
		*o = 2;
		onceEnd((u64)o, true);
	}
	return 0;
}
EXPORT int __cxa_guard_acquire(u64 *g)
{
	if (*(volatile char *)g)
	{
		if (active())
			me().vc.join(object((u64)g).rel);
		return 0;
	}
	if (!active())
		return 1;
	if (R->alive > 1)
		return onceBegin((u64)g, PC);
	object((u64)g).onceState = 1;
	return 1;
}
EXPORT void __cxa_guard_release(u64 *g)
{
	*(volatile char *)g = 1;
	if (active())
		onceEnd((u64)g, true);
}
EXPORT void __cxa_guard_abort(u64 *g)
{
	if (active())
		onceEnd((u64)g, false);
}
EXPORT int __cxa_thread_atexit(void (*fn)(void *), void *arg, void *)
{
	if (R->inExec && me().natexit < 16)
	{
		me().atexitList[me().natexit].fn = fn;
		me().atexitList[me().natexit++].arg = arg;
	}
	return 0;
}

// ---- time ------------------------------------------------------------------------------------
static void sleepFor(int64_t ns, u64 pc)
{
	if (!active())
		return;
	Pend p = mkPend(K_SLEEP, 5, "sleep", pc);
	p.deadline = R->now + (ns > 0 ? ns : 0);
	me().pend = p;
	if (ns <= 0)
		me().pend.kind = K_YIELD;
	trace("sleep", 0, pc, ns / 1000000);
	schedule();
	hashLocal(0x51ee);
	hashLocal(R->now);
}
static int64_t tsNs(const struct timespec *t)
{
	if (t->tv_sec > 4000000000ll)
		return 4000000000ll * 1000000000;
	return (int64_t)t->tv_sec * 1000000000 + t->tv_nsec;
}
EXPORT int nanosleep(const struct timespec *t, struct timespec *)
{
	sleepFor(tsNs(t), PC);
	return 0;
}
EXPORT int clock_nanosleep(clockid_t, int flags, const struct timespec *t, struct timespec *)
{
	sleepFor(flags & TIMER_ABSTIME ? tsNs(t) - R->now : tsNs(t), PC);
	return 0;
}
EXPORT int usleep(useconds_t u)
{
	sleepFor((int64_t)u * 1000, PC);
	return 0;
}
EXPORT int sched_yield()
{
	if (!active())
		return 0;
	me().pend = mkPend(K_YIELD, 6, "yield", PC);
	schedule();
	me().pend.kind = K_PLAIN;
	hashLocal(0x41e1d);
	return 0;
}
EXPORT int clock_gettime(clockid_t id, struct timespec *t)
{
	if (!R->inExec)
		return (int)syscall(SYS_clock_gettime, id, t);
	t->tv_sec = R->now / 1000000000;
	t->tv_nsec = R->now % 1000000000;
	hashLocal(R->now);
	return 0;
}
EXPORT int gettimeofday(struct timeval *t, void *)
{
	struct timespec s;
	clock_gettime(CLOCK_REALTIME, &s);
	t->tv_sec = s.tv_sec;
	t->tv_usec = s.tv_nsec / 1000;
	return 0;
}
EXPORT time_t time(time_t *p)
{
	struct timespec s;
	clock_gettime(CLOCK_REALTIME, &s);
	if (p)
		*p = s.tv_sec;
	return s.tv_sec;
}

// ---- futex -----------------------------------------------------------------------------------
static long rawSyscall(long n, long a, long b, long c, long d, long e, long f)
{
	long ret;
	register long r10 asm("r10") = d;
	register long r8 asm("r8") = e;
	register long r9 asm("r9") = f;
	asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	if (ret < 0 && ret > -4096)
	{
		errno = (int)-ret;
		return -1;
	}
	return ret;
}
EXPORT long syscall(long n, ...)
{
	va_list ap;
	va_start(ap, n);
	long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
		 f = va_arg(ap, long);
	va_end(ap);
	if (n != SYS_futex || !active())
		return rawSyscall(n, a, b, c, d, e, f);
	u64 pc = PC;
	int op = (int)b & 127;
	checkLive((u64)a, "futex", pc);
	if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
	{
		point((u64)a, "futex wait", pc, true);
		hashWrite(object((u64)a), 10);
		if (*(volatile int *)a != (int)c)
		{
			errno = EAGAIN;
			return -1;
		}
		int64_t dl = -1;
		if (d)
		{
			dl = tsNs((const struct timespec *)d);
			if (op == FUTEX_WAIT)
				dl += R->now;
		}
		trace("futex wait", (u64)a, pc);
		Pend p = mkPend(K_FUTEX, (u64)a, "futex wait", pc);
		p.deadline = dl;
		me().pend = p;
		me().waitSeq = ++R->waitSeq;
		schedule();
		bool to = !me().pend.woken;
		hashLocal(to ? 0x71e2 : 0x3a3f);
		me().pend.kind = K_PLAIN;
		checkLive((u64)a, "futex", pc);
		if (to)
		{
			errno = ETIMEDOUT;
			return -1;
		}
		return 0;
	}
	if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
	{
		point((u64)a, "futex wake", pc, true);
		hashWrite(object((u64)a), 11);
		long k = 0;
		while (k < c)
		{
			int best = -1;
			for (int i = 0; i < R->nf; ++i)
			{
				Fiber &w = R->f[i];
				if (!w.done && w.pend.kind == K_FUTEX && w.pend.addr == (u64)a && !w.pend.woken &&
					(best < 0 || w.waitSeq < R->f[best].waitSeq))
					best = i;
			}
			if (best < 0)
				break;
			R->f[best].pend.woken = true;
			++k;
		}
		trace("futex wake", (u64)a, pc, k);
		return k;
	}
	internalError("unsupported futex operation %d", op);
}

// ---- instrumentation: plain accesses ----------------------------------------------------------
#define RW(n)                                                                                        \
	EXPORT void __tsan_read##n(void *a) { access((u64)a, n, false, PC); }                             \
	EXPORT void __tsan_write##n(void *a) { access((u64)a, n, true, PC); }                             \
	EXPORT void __tsan_unaligned_read##n(void *a) { access((u64)a, n, false, PC); }                   \
	EXPORT void __tsan_unaligned_write##n(void *a) { access((u64)a, n, true, PC); }                   \
	EXPORT void __tsan_volatile_read##n(void *a) { access((u64)a, n, false, PC); }                    \
	EXPORT void __tsan_volatile_write##n(void *a) { access((u64)a, n, true, PC); }                    \
	EXPORT void __tsan_read##n##_pc(void *a, void *pc) { access((u64)a, n, false, (u64)pc); }         \
	EXPORT void __tsan_write##n##_pc(void *a, void *pc) { access((u64)a, n, true, (u64)pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *a, unsigned long n) { if (n) access((u64)a, n, false, PC); }
EXPORT void __tsan_write_range(void *a, unsigned long n) { if (n) access((u64)a, n, true, PC); }
EXPORT void __tsan_vptr_update(void **a, void *v)
{
	if (*a != v)
		access((u64)a, 8, true, PC);
}
EXPORT void __tsan_vptr_read(void **a) { access((u64)a, 8, false, PC); }
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *pc)
{
	if (!R->inExec)
		return;
	Fiber &f = me();
	if (f.depth < 64)
		f.calls[f.depth] = (u64)pc;
	f.depth++;
}
EXPORT void __tsan_func_exit()
{
	if (!R->inExec)
		return;
	Fiber &f = me();
	if (f.depth > 0)
		f.depth--;
}
#define NOP(name) EXPORT void name(...) {}
EXPORT void __tsan_mutex_create(void *, unsigned) {}
EXPORT void __tsan_mutex_destroy(void *, unsigned) {}
EXPORT void __tsan_mutex_pre_lock(void *, unsigned) {}
EXPORT void __tsan_mutex_post_lock(void *m, unsigned, int)
{
	if (active())
		me().vc.join(object((u64)m + 0x7f00000000000000ull).rel);
}
EXPORT int __tsan_mutex_pre_unlock(void *m, unsigned)
{
	if (active())
	{
		object((u64)m + 0x7f00000000000000ull).rel.join(me().vc);
		tick();
	}
	return 0;
}
EXPORT void __tsan_mutex_post_unlock(void *, unsigned) {}
EXPORT void __tsan_mutex_pre_signal(void *, unsigned) {}
EXPORT void __tsan_mutex_post_signal(void *, unsigned) {}
EXPORT void __tsan_acquire(void *m)
{
	if (active())
		me().vc.join(object((u64)m + 0x7e00000000000000ull).rel);
}
EXPORT void __tsan_release(void *m)
{
	if (active())
	{
		object((u64)m + 0x7e00000000000000ull).rel.join(me().vc);
		tick();
	}
}

// memory functions called by the instrumented code and by the C++ library on its behalf
EXPORT void *memcpy(void *d, const void *s, size_t n)
{
	if (n)
	{
		access((u64)s, n, false, PC);
		access((u64)d, n, true, PC);
	}
	rawCopy(d, s, n);
	return d;
}
EXPORT void *memmove(void *d, const void *s, size_t n)
{
	if (n)
	{
		access((u64)s, n, false, PC);
		access((u64)d, n, true, PC);
	}
	if ((u64)d - (u64)s >= n)
		rawCopy(d, s, n);
	else
		for (size_t i = n; i-- > 0;)
			((volatile char *)d)[i] = ((const volatile char *)s)[i];
	return d;
}
EXPORT void *memset(void *d, int v, size_t n)
{
	if (n)
		access((u64)d, n, true, PC);
	rawSet(d, v, n);
	return d;
}
EXPORT int memcmp(const void *a, const void *b, size_t n)
{
	if (n)
	{
		access((u64)a, n, false, PC);
		access((u64)b, n, false, PC);
	}
	for (size_t i = 0; i < n; ++i)
	{
		int x = ((const volatile unsigned char *)a)[i], y = ((const volatile unsigned char *)b)[i];
		if (x != y)
			return x - y;
	}
	return 0;
}

// ---- instrumentation: atomics ------------------------------------------------------------------
namespace
{
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
inline bool isAcq(int mo) { return mo == MO_CONSUME || mo == MO_ACQUIRE || mo == MO_ACQ_REL || mo == MO_SEQ_CST; }
inline bool isRel(int mo) { return mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST; }

// A reference counter of shared_ptr: 4 bytes at offset 8 or 12 of a heap block that starts with a vptr.
bool refCounter(u64 a, int size)
{
	if (size != 4 || a < HEAP_BASE || a >= STACK_BASE)
		return false;
	u64 b = a & ~15ull; // block start: blocks are 16-aligned
	if ((a - b) != 8 && (a - b) != 12)
		return false;
	u64 g = (b - HEAP_BASE) >> 3;
	if (g < 2)
		return false;
	u32 live = (R->gen << 2) | LIVE;
	if (astate[g] != live || (astate[g - 1] & 3) != 0)
		if (astate[g] != live || (astate[g - 1] >> 2) == R->gen)
			return false;
	u64 vptr = *(u64 *)b;
	return vptr != 0xcdcdcdcdcdcdcdcdull && vptr > 0x400000 && vptr < 0x7fffffffffffull && !(vptr & 7) &&
		   !(vptr >= HEAP_BASE && vptr < MEM_END);
}

void atomicPoint(u64 a, int size, const char *what, u64 pc, bool write)
{
	access(a, size, write, pc, true);
	point(a, what, pc, write);
	access(a, size, write, pc, true); // it may have been freed meanwhile
}
void acqEffect(Obj &o, int mo)
{
	Fiber &f = me();
	if (isAcq(mo))
		f.vc.join(o.rel);
	else
		f.acqPending.join(o.rel);
}
void relEffect(Obj &o, int mo, bool rmw)
{
	Fiber &f = me();
	if (isRel(mo))
	{
		if (rmw)
			o.rel.join(f.vc);
		else
			o.rel = f.vc;
		tick();
	}
	else if (f.hasRelFence)
	{
		if (rmw)
			o.rel.join(f.relFence);
		else
			o.rel = f.relFence;
	}
	else if (!rmw)
		o.rel.clear();
}

template <typename T> T doLoad(volatile T *a, int mo, u64 pc)
{
	if (!active())
		return *a;
	u64 ad = (u64)a;
	bool rc = refCounter(ad, sizeof(T));
	if (rc)
		access(ad, sizeof(T), false, pc, true);
	else
		atomicPoint(ad, sizeof(T), "atomic load", pc, false);
	Obj &o = object(ad);
	acqEffect(o, mo);
	T v = *a;
	if (rc)
		hashLocal(0x1c0);
	else
		hashRead(o, 12);
	Fiber &f = me();
	// spinning on a value: give way
	u64 raw = 0;
	memcpy(&raw, &v, sizeof(T) < 8 ? sizeof(T) : 8);
	if (f.lastLoadAddr == ad && f.lastLoadVal == raw)
	{
		if (++f.lastLoadCount > 64)
		{
			f.lastLoadCount = 32;
			sched_yield();
		}
	}
	else
	{
		f.lastLoadAddr = ad;
		f.lastLoadVal = raw;
		f.lastLoadCount = 0;
	}
	trace("atomic load", ad, pc, (long)raw);
	return v;
}
template <typename T> void doStore(volatile T *a, T v, int mo, u64 pc)
{
	if (!active())
	{
		*a = v;
		return;
	}
	u64 ad = (u64)a;
	atomicPoint(ad, sizeof(T), "atomic store", pc, true);
	Obj &o = object(ad);
	relEffect(o, mo, false);
	*a = v;
	me().lastLoadAddr = 0;
	hashWrite(o, 13);
	trace("atomic store", ad, pc, (long)v);
}
template <typename T, typename F> T doRmw(volatile T *a, int mo, u64 pc, F fn, bool refLike)
{
	if (!active())
	{
		T old = *a;
		*a = fn(old);
		return old;
	}
	u64 ad = (u64)a;
	bool rc = refLike && refCounter(ad, sizeof(T));
	me().lastLoadAddr = 0;
	if (rc)
	{
		access(ad, sizeof(T), true, pc, true);
		T before = *a;
		T after = fn(before);
		sharedPoint(ad, true);
		if (after == 0 && R->alive > 1)
		{
			point(ad, "last reference", pc, true);
			access(ad, sizeof(T), true, pc, true);
		}
	}
	else
		atomicPoint(ad, sizeof(T), "atomic rmw", pc, true);
	Obj &o = object(ad);
	acqEffect(o, mo);
	relEffect(o, mo, true);
	T old = *a;
	T nv = fn(old);
	*a = nv;
	if (rc)
		hashLocal(mix(0x4ef, ad) + (nv == 0 ? 1 : 0));
	else
		hashWrite(o, 14);
	if (!rc)
		trace("atomic rmw", ad, pc, (long)nv);
	return old;
}
template <typename T> int doCas(volatile T *a, T *exp, T v, int mo, int fmo, u64 pc)
{
	if (!active())
	{
		if (*a == *exp)
		{
			*a = v;
			return 1;
		}
		*exp = *a;
		return 0;
	}
	u64 ad = (u64)a;
	bool rc = refCounter(ad, sizeof(T));
	me().lastLoadAddr = 0;
	if (rc)
	{
		access(ad, sizeof(T), true, pc, true);
		sharedPoint(ad, true);
	}
	else
		atomicPoint(ad, sizeof(T), "atomic cas", pc, true);
	Obj &o = object(ad);
	T old = *a;
	if (old == *exp)
	{
		acqEffect(o, mo);
		relEffect(o, mo, true);
		*a = v;
		if (rc)
			hashLocal(0x4f0);
		else
			hashWrite(o, 15);
		trace("atomic cas ok", ad, pc, (long)v);
		return 1;
	}
	acqEffect(o, fmo);
	*exp = old;
	if (rc)
		hashLocal(0x4f1);
	else
		hashRead(o, 16);
	trace("atomic cas failed", ad, pc, (long)old);
	return 0;
}
} // namespace

#define ATOMIC(bits, T)                                                                              \
	EXPORT T __tsan_atomic##bits##_load(const volatile T *a, int mo) { return doLoad<T>((volatile T *)a, mo, PC); } \
	EXPORT void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { doStore<T>(a, v, mo, PC); } \
	EXPORT T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { return doRmw<T>(a, mo, PC, [v](T) { return v; }, false); } \
	EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { return doRmw<T>(a, mo, PC, [v](T o) { return (T)(o + v); }, true); } \
	EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { return doRmw<T>(a, mo, PC, [v](T o) { return (T)(o - v); }, true); } \
	EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { return doRmw<T>(a, mo, PC, [v](T o) { return (T)(o & v); }, false); } \
	EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { return doRmw<T>(a, mo, PC, [v](T o) { return (T)(o | v); }, false); } \
	EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { return doRmw<T>(a, mo, PC, [v](T o) { return (T)(o ^ v); }, false); } \
	EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { return doRmw<T>(a, mo, PC, [v](T o) { return (T) ~(o & v); }, false); } \
	EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int f) { return doCas<T>(a, e, v, mo, f, PC); } \
	EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int f) { return doCas<T>(a, e, v, mo, f, PC); } \
	EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int f) { T x = e; doCas<T>(a, &x, v, mo, f, PC); return x; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int mo)
{
	if (!active())
		return;
	Fiber &f = me();
	if (isAcq(mo))
		f.vc.join(f.acqPending);
	if (isRel(mo))
	{
		f.relFence = f.vc;
		f.hasRelFence = true;
		tick();
	}
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---- exploration -----------------------------------------------------------------------------
namespace
{
double wall()
{
	struct timespec t;
	rawSyscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t, 0, 0, 0, 0);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

#define outs R->outs
#define nouts R->nouts
void addOutcome(const char *s)
{
	u64 h = 14695981039346656037ull;
	for (const char *p = s; *p; ++p)
		h = (h ^ (unsigned char)*p) * 1099511628211ull;
	int i = h & 4095;
	for (int k = 0; k < 4096; ++k, i = (i + 1) & 4095)
	{
		if (!outs[i].s)
		{
			if (nouts > 4000)
				return;
			nouts++;
			outs[i].s = strdup(s);
			outs[i].h = h;
			outs[i].n = 1;
			return;
		}
		if (outs[i].h == h && !strcmp(outs[i].s, s))
		{
			outs[i].n++;
			return;
		}
	}
}

void jsonStr(FILE *o, const char *s)
{
	fputc('"', o);
	for (; *s; ++s)
	{
		if (*s == '"' || *s == '\\')
			fprintf(o, "\\%c", *s);
		else if ((unsigned char)*s < 32)
			fprintf(o, "\\u%04x", *s);
		else
			fputc(*s, o);
	}
	fputc('"', o);
}

void printTrace(FILE *o)
{
	for (int i = 0; i < R->ntr; ++i)
	{
		TraceEnt &t = R->tr[i];
		if (!strcmp(t.what, "event"))
			fprintf(o, "t%d %6ldms event kind=%ld a=%ld b=%ld\n", t.fiber, t.ms, (long)t.addr, (long)t.pc, t.val);
		else
			fprintf(o, "t%d %6ldms %-22s obj=%lx val=%ld pc=0x%lx caller=0x%lx\n", t.fiber, t.ms, t.what,
					(unsigned long)t.addr, t.val, (unsigned long)t.pc, (unsigned long)t.pc2);
	}
}

int shm_phdr(struct dl_phdr_info *info, size_t, void *)
{
	if (info->dlpi_name && info->dlpi_name[0])
		return 0;
	for (int i = 0; i < info->dlpi_phnum; ++i)
	{
		const ElfW(Phdr) &p = info->dlpi_phdr[i];
		if (p.p_type == PT_TLS)
		{
			R->tlsBeg = (u64)info->dlpi_tls_data;
			R->tlsSize = p.p_memsz;
			R->tlsInit = (void *)(info->dlpi_addr + p.p_vaddr);
			R->tlsInitSize = p.p_filesz;
		}
	}
	return 1;
}
} // namespace

extern "C" char __data_start, _edata, __bss_start, _end;

static void earlyInit(int, char **, char **)
{
	auto map = [](u64 at, u64 size)
	{
		void *p = mmap((void *)at, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE,
					   -1, 0);
		if (p != (void *)at)
		{
			perror("mmap");
			_exit(3);
		}
	};
	__libc_single_threaded = 0; // shared_ptr must count atomically
	map((u64)R, (sizeof(RT) + 4095) & ~4095ull);
	map(HEAP_BASE, MEM_END - HEAP_BASE);
	map((u64)cells, GRANULES * sizeof(Cell));
	map((u64)astate, GRANULES * sizeof(u32));
}

// before the initialisation of any shared library: they already call functions of this file
__attribute__((section(".preinit_array"), used)) static void (*earlyInitEntry)(int, char **, char **) = earlyInit;

static Scenario *findScenario(const char *n)
{
	for (int i = 0; i < nscen; ++i)
		if (!strcmp(scen[i].name, n))
			return &scen[i];
	fprintf(stderr, "unknown scenario %s\n", n);
	exit(3);
}

int main(int argc, char **argv)
{
	// the same addresses in every process
	int pers = personality(0xffffffff);
	if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("MC_NO_REEXEC"))
	{
		setenv("MC_NO_REEXEC", "1", 1);
		if (personality(pers | ADDR_NO_RANDOMIZE) >= 0)
			execv("/proc/self/exe", argv);
	}
	if (argc >= 2 && !strcmp(argv[1], "list"))
	{
		for (int i = 0; i < nscen; ++i)
			printf("{\"name\":\"%s\",\"p\":%d,\"pt\":%d,\"t\":%d,\"tt\":%d,\"f\":%d,\"shards\":%d,\"deep\":%d,\"history\":%d}\n", scen[i].name,
				   scen[i].o.p, scen[i].o.pThorough, scen[i].o.t, scen[i].o.tThorough < 0 ? scen[i].o.t : scen[i].o.tThorough,
				   scen[i].o.f, scen[i].o.shards, scen[i].o.thoroughOnly, scen[i].o.history);
		return 0;
	}
	if (argc < 3)
		return 3;
	R->shards = 1;
	double limit = 1e9;
	int pmax = 2;
	const char *replayOut = nullptr, *replayIn = nullptr;
	long samples = 1;
	Scenario *s = nullptr;
	R->F = R->T = 0;
	bool noPrune = false, replayOnly = !strcmp(argv[1], "replay");
	if (replayOnly)
		replayIn = argv[2];
	else
		s = findScenario(argv[2]);
	for (int i = 3; i + 1 < argc; i += 2)
	{
		if (!strcmp(argv[i], "--p"))
			pmax = atoi(argv[i + 1]);
		else if (!strcmp(argv[i], "--t"))
			R->T = atoi(argv[i + 1]);
		else if (!strcmp(argv[i], "--f"))
			R->F = atoi(argv[i + 1]);
		else if (!strcmp(argv[i], "--time"))
			limit = atof(argv[i + 1]);
		else if (!strcmp(argv[i], "--shard"))
			sscanf(argv[i + 1], "%d/%d", &R->shard, &R->shards);
		else if (!strcmp(argv[i], "--replay-out"))
			replayOut = argv[i + 1];
		else if (!strcmp(argv[i], "--samples"))
			samples = atol(argv[i + 1]);
		else if (!strcmp(argv[i], "--noprune"))
			noPrune = atoi(argv[i + 1]);
	}
	FILE *rf = nullptr;
	char name[256];
	if (replayOnly)
	{
		rf = fopen(replayIn, "r");
		if (!rf || fscanf(rf, "scenario %255s\n", name) != 1)
			return 3;
		s = findScenario(name);
		if (fscanf(rf, "bounds %d %d %d shard %d/%d\n", &pmax, &R->T, &R->F, &R->shard, &R->shards) != 5)
			return 3;
		int n;
		unsigned long a;
		if (fscanf(rf, "shared %d", &n) != 1)
			return 3;
		for (int i = 0; i < n; ++i)
		{
			if (fscanf(rf, "%lx", &a) != 1)
				return 3;
			u32 h = (u32)mix(a, 11) & (MAXSHARED - 1);
			while (R->sh[h].addr)
				h = (h + 1) & (MAXSHARED - 1);
			R->sh[h].addr = a;
			R->sh[h].shared = true;
			R->nsh++;
		}
		if (fscanf(rf, "\nchoices %d", &n) != 1)
			return 3;
		for (int i = 0; i < n; ++i)
		{
			char k;
			if (fscanf(rf, " %c%d/%d", &k, &R->ch[i].idx, &R->ch[i].n) != 3)
				return 3;
			R->ch[i].kind = k;
		}
		R->nch = n;
		fclose(rf);
	}
	curScen = s;
	R->delayBounded = s->o.delayBounded;
	// signals, terminate handler
	stack_t ss;
	ss.ss_size = 1 << 18;
	ss.ss_sp = malloc(ss.ss_size);
	ss.ss_flags = 0;
	sigaltstack(&ss, nullptr);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = onCrash;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int g : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT })
		sigaction(g, &sa, nullptr);
	sa.sa_sigaction = onAlarm;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER | SA_RESTART;
	sigaction(SIGVTALRM, &sa, nullptr);
	struct itimerval it;
	it.it_interval.tv_sec = it.it_value.tv_sec = 1;
	it.it_interval.tv_usec = it.it_value.tv_usec = 0;
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
	std::set_terminate(onTerminate);
	dl_iterate_phdr(shm_phdr, nullptr);
	if (R->tlsSize > MAXTLS)
	{
		fprintf(stderr, "TLS too large\n");
		return 3;
	}
	R->dataBeg = (u64)&__data_start;
	R->dataEnd = (u64)&_end;
	gBeg = R->dataBeg & ~7ull;
	gEnd = R->dataEnd;
	gcells = (Cell *)mmap(nullptr, ((gEnd - gBeg) / 8 + 8) * sizeof(Cell), PROT_READ | PROT_WRITE,
						  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	// first use of things with lazily initialised state
	abi::__cxa_get_globals();
	try
	{
		throw 1;
	}
	catch (int)
	{
	}
	vclear();
	// .data and .bss are restored before each execution; what this file changes meanwhile lives in R
	R->snap = malloc(R->dataEnd - R->dataBeg);

	double t0 = wall();
	bool capped = false, violated = false, internal = false;
	int completed = -1;
	u64 execsAtBound[16] = { 0 };
	char *sampleBuf = nullptr;
	size_t sampleLen = 0;
	FILE *sf = open_memstream(&sampleBuf, &sampleLen);
	u64 nsamples = 0;

	// execution with the runtime's own globals preserved
	auto execute = [&]()
	{
		runExecution();
	};
	memcpy(R->snap, (void *)R->dataBeg, R->dataEnd - R->dataBeg);

	if (replayOnly)
	{
		R->replaying = true;
		R->tracing = true;
		R->P = pmax;
		execute();
		printTrace(stdout);
		const char *res[] = { "?", "completed without violation", "pruned", "VIOLATION", "INTERNAL ERROR" };
		printf("result: %s %s\n", res[R->result], R->msg);
		return R->result == 3 ? 1 : R->result == 4 ? 2 : 0;
	}

	for (int p = 0; p <= pmax && !capped && !violated && !internal; ++p)
	{
		R->P = p;
		for (int round = 0;; ++round)
		{
			R->grew = false;
			for (int i = 0; i < MAXSHARED; ++i)
				R->sh[i].shared |= R->sh[i].learned;
			R->nch = 0;
			vclear();
			bool done = false;
			u64 e0 = R->execs;
			do
			{
				execute();
				if (noPrune)
					vclear();
				if (R->result == 2)
					R->pruned++;
				else if (R->result == 1)
				{
					if (R->outcome[0])
						addOutcome(R->outcome);
				}
				else if (R->result == 3)
				{
					violated = true;
					break;
				}
				else
				{
					internal = true;
					break;
				}
				if ((R->execs & 15) == 0 && wall() - t0 > limit)
				{
					capped = true;
					break;
				}
				if (R->grew && (R->P > 0 || R->T > 0) && (R->execs - e0) >= 1ull << (round < 40 ? round : 40))
					break; // the set of shared objects grew: start over (ever later, to bound the work repeated)
				done = !backtrack();
			} while (!done);
			if (getenv("MC_DEBUG")) fprintf(stderr, "p %d round %d execs %lu pruned %lu shared %d t %.1f\n", p, round, (unsigned long)(R->execs - e0), (unsigned long)R->pruned, R->nsh, wall() - t0);
			if (p < 16)
				execsAtBound[p] = R->execs - e0;
			if (capped || violated || internal)
				break;
			if (!R->grew || (R->P == 0 && R->T == 0))
			{
				completed = p;
				break;
			}
			if (round > 20000)
				break;
		}
	}
	u64 states = vcount;
	if (!violated && !internal && completed >= 0)
	{
		// a sample execution, written out
		R->tracing = true;
		R->nch = 0;
		vclear();
		execute();
		R->tracing = false;
		(void)samples;
		(void)nsamples;
		int shown = 0;
		for (int i = 0; i < R->ntr && shown < 40; ++i, ++shown)
		{
			TraceEnt &t = R->tr[i];
			fprintf(sf, "%st%d:%s", i ? " " : "", t.fiber, t.what);
		}
	}
	fclose(sf);

	bool confirmed = false;
	char vmsg[4096] = "";
	if (violated)
	{
		strcpy(vmsg, R->msg);
		// replay before reporting: the same choices must give the same violation
		int n = R->pos;
		R->nch = n;
			Choice *keep = (Choice *)malloc(sizeof(Choice) * (n + 1));
		memcpy(keep, R->ch, sizeof(Choice) * n);
		confirmed = true;
		for (int k = 0; k < 2 && confirmed; ++k)
		{
			memcpy(R->ch, keep, sizeof(Choice) * n);
			R->nch = n;
			R->tracing = k == 1;
			R->replaying = true;
			execute();
			if (R->result != 3)
				confirmed = false;
		}
		R->replaying = false;
		if (!confirmed)
		{
			internal = true;
			snprintf(R->msg, sizeof R->msg, "violation did not reproduce on replay: %.3000s", vmsg);
		}
		else
		{
			strcpy(vmsg, R->msg);
			if (replayOut)
			{
				FILE *o = fopen(replayOut, "w");
				if (o)
				{
					fprintf(o, "scenario %s\nbounds %d %d %d shard %d/%d\n", s->name, R->P, R->T, R->F, R->shard, R->shards);
					int ns = 0;
					for (int i = 0; i < MAXSHARED; ++i)
						ns += R->sh[i].shared;
					fprintf(o, "shared %d", ns);
					for (int i = 0; i < MAXSHARED; ++i)
						if (R->sh[i].shared)
							fprintf(o, " %lx", (unsigned long)R->sh[i].addr);
					fprintf(o, "\nchoices %d", n);
					for (int i = 0; i < n; ++i)
						fprintf(o, " %c%d/%d", keep[i].kind, keep[i].idx, keep[i].n);
					fprintf(o, "\nviolation %s\ntrace\n", vmsg);
					printTrace(o);
					fclose(o);
				}
			}
		}
		free(keep);
	}
	printf("{\"scenario\":\"%s\",\"shard\":\"%d/%d\",\"result\":\"%s\",\"message\":", s->name, R->shard, R->shards,
		   internal ? "internal" : violated ? "violation" : "ok");
	jsonStr(stdout, internal ? R->msg : vmsg);
	printf(",\"execs\":%lu,\"pruned\":%lu,\"steps\":%lu,\"points\":%lu,\"states\":%lu,\"maxdepth\":%d,\"completed\":%d,"
		   "\"pmax\":%d,\"t\":%d,\"f\":%d,\"capped\":%s,\"wall\":%.2f,\"outcomes\":%d,\"bound\":[",
		   (unsigned long)R->execs, (unsigned long)R->pruned, (unsigned long)R->stepsTotal, (unsigned long)R->points,
		   (unsigned long)states, R->maxDepth, completed, pmax, R->T, R->F, capped ? "true" : "false", wall() - t0,
		   nouts);
	for (int i = 0; i <= pmax && i < 16; ++i)
		printf("%s%lu", i ? "," : "", (unsigned long)execsAtBound[i]);
	printf("],\"mstates\":%lu,\"counters\":[", (unsigned long)R->mcount);
	for (int i = 0; i < 16; ++i)
		printf("%s%lu", i ? "," : "", (unsigned long)R->counter[i]);
	printf("],\"outcomeSample\":[");
	int k = 0;
	for (int i = 0; i < 4096 && k < 8; ++i)
		if (outs[i].s)
		{
			if (k++)
				printf(",");
			jsonStr(stdout, outs[i].s);
		}
	printf("],\"sample\":");
	jsonStr(stdout, sampleBuf ? sampleBuf : "");
	printf("}\n");
	fflush(stdout);
	_exit(internal ? 2 : violated ? 1 : 0);
}
