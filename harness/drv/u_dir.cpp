// Driver of transfer::MPICache, the directory of the blocks in other caches.
#include "asagi.h"
#include <algorithm>
#include <cassert>
#include <mutex>
#include "numa/numa.h"
#include "numa/numacomm.h"
#include "mpi/mpicomm.h"
#include "allocator/default.h"
#include "transfer/mpicache.h"
#include "script.h"

struct Base {
	virtual ~Base() {}
	virtual int start(unsigned c, unsigned long b, const mpi::MPIComm& m, numa::NumaComm& n) = 0;
	virtual long* entry(unsigned long e) = 0;
	virtual long fetch(unsigned long e) = 0;
	virtual void reg(unsigned long e, long h) = 0;
	virtual long fetchreg(unsigned long e, long h) = 0;
	virtual void del(unsigned long e, long h) = 0;
	virtual unsigned size() = 0;
	virtual unsigned long rcs() = 0;
};
template<bool lock>
struct Dir : Base, transfer::MPICache<allocator::Default, lock> {
	typedef transfer::MPICache<allocator::Default, lock> P;
	int start(unsigned c, unsigned long b, const mpi::MPIComm& m, numa::NumaComm& n) { return P::init(c, b, m, n); }
	long* entry(unsigned long e) { return P::dictionary(e); }
	long fetch(unsigned long e) { return P::fetchBlockInfo(P::dictionary(e)); }
	void reg(unsigned long e, long h) { P::updateBlockInfo(P::dictionary(e), h); }
	long fetchreg(unsigned long e, long h) { return P::fetchAndUpdateBlockInfo(P::dictionary(e), h); }
	void del(unsigned long e, long h) { P::deleteBlockInfo(P::dictionary(e), h); }
	unsigned size() { return P::dictEntrySize(); }
	unsigned long rcs() { return P::rankCacheSize(); }
};

static numa::Numa* nu;
static numa::NumaComm* comms[32];
static mpi::MPIComm* cm;
static Base* d[32];
static bool master[32];
static int ddom[32];
static unsigned long blocks;
static int locked;
// holders are multiplied by a power of two
static int shift;
static long W(long h) { return h < 0 ? h : h << shift; }
static long N(long x) { return x < 0 ? x : x & ((1L << shift) - 1) ? -77 : x >> shift; }

static std::string list(long* e, unsigned n)
{
	std::string s = "[";
	bool end = false;
	for (unsigned i = 0; i < n; i++) {
		if (e[i] < 0) { end = true; continue; }
		if (end) return "[-2]";      // a hole
		s += (i ? "," : "") + its(N(e[i]));
	}
	return s + "]";
}
static void say(const char* what, int t, long e, long h, long v)
{
	long* p = d[t]->entry(e);
	verif_event(("{\"e\":\"" + std::string(what) + "\",\"r\":0,\"t\":" + its(t) + ",\"b\":" + its(e) + ",\"h\":" + its(h) + ",\"v\":" + its(v) + ",\"l\":" + list(p, d[t]->size()) + "}").c_str());
}

static void run(int t, const Toks& a)
{
	const std::string& op = a[0];
	long e = a.size() > 1 ? atol(a[1].c_str()) : 0, h = a.size() > 2 ? atol(a[2].c_str()) : 0;
	if (op == "shift") shift = e;
	else if (op == "numa") { nu = new numa::Numa(); nu->setThreads(team); cm = new mpi::MPIComm(); cm->init(MPI_COMM_WORLD); }
	else if (op == "dnew") {      // cache size, blocks per domain, lock
		nu->registerThread(master[t]);
		ddom[t] = nu->domainId();
		if (!master[t]) return;
		comms[t] = nu->createComm();
		locked = atoi(a[3].c_str());
		d[t] = locked ? (Base*)new Dir<true>() : new Dir<false>();
		blocks = h * nu->totalDomains();
		int c = d[t]->start(e, h, *cm, *comms[t]);
		Ev("new", t)("code", c)("size", d[t]->size())("blocks", blocks)("rcs", d[t]->rcs())("cs", e)("d", nu->totalDomains());
	}
	else if (op == "ddel") { if (!master[t]) return; long dom = ddom[t]; numa::NumaComm* c = comms[t]; delete d[t]; if (dom == 0) delete c; }
	else if (op == "del0") { delete cm; delete nu; }
	else if (!master[t]) return;
	else if (op == "fetch") { long v = N(d[t]->fetch(e % blocks)); say("fetch", t, e % blocks, -1, v); }
	else if (op == "reg") { d[t]->reg(e % blocks, W(h)); say("reg", t, e % blocks, h, -1); }
	else if (op == "fetchreg") { long v = N(d[t]->fetchreg(e % blocks, W(h))); say("fetchreg", t, e % blocks, h, v); }
	else if (op == "unreg") { d[t]->del(e % blocks, W(h)); say("unreg", t, e % blocks, h, -1); }
	else if (op == "unlist") {      // unregister the e-th holder listed
		long* p = d[t]->entry(e % blocks);
		long x = p[h % d[t]->size()];
		if (x < 0) x = W(12345);
		d[t]->del(e % blocks, x); say("unreg", t, e % blocks, N(x), -1);
	}
	else if (op == "dump") {
		for (unsigned long i = 0; i < blocks; i++) {
			say("dump", t, i, -1, -1);
			if (locked) Ev("lockword", t)("v", d[t]->entry(i)[d[t]->size()]);
		}
	}
}
