// Driver of the transfer classes of distributed caches (directory of the blocks held by other caches, through
// MPI windows or messages).
#include "asagi.h"
#include <algorithm>
#include <cassert>
#include <mutex>
#include "numa/numa.h"
#include "numa/numacomm.h"
#include "mpi/mpicomm.h"
#include "mpi/commthread.h"
#include "types/basictype.h"
#include "cache/cachemanager.h"
#include "transfer/mpithreadcache.h"
#include "transfer/mpiwincache.h"
#include "script.h"

struct Base {
	virtual ~Base() {}
	virtual int init(unsigned char* c, unsigned cs, cache::CacheManager& cm, unsigned long bc, unsigned long bs, const types::Type& ty, mpi::MPIComm& m, numa::NumaComm& n) = 0;
	virtual long start(unsigned long b, int r, unsigned long d, unsigned long o) = 0;
	virtual bool move(long e, unsigned long b, unsigned char* c) = 0;
	virtual void end(unsigned long b, int r, unsigned long d, unsigned long o) = 0;
	virtual void add(unsigned long b, int r, unsigned long d, unsigned long o) = 0;
	virtual void del(long b, int r, unsigned long d, unsigned long o) = 0;
};
template<class X> struct Of : Base {
	X x;
	int init(unsigned char* c, unsigned cs, cache::CacheManager& cm, unsigned long bc, unsigned long bs, const types::Type& ty, mpi::MPIComm& m, numa::NumaComm& n) { return x.init(c, cs, cm, bc, bs, ty, m, n); }
	long start(unsigned long b, int r, unsigned long d, unsigned long o) { return x.startTransfer(b, r, d, o); }
	bool move(long e, unsigned long b, unsigned char* c) { bool retry = false; return x.transfer(e, b, c, retry); }
	void end(unsigned long b, int r, unsigned long d, unsigned long o) { x.endTransfer(b, r, d, o); }
	void add(unsigned long b, int r, unsigned long d, unsigned long o) { x.addBlock(b, r, d, o); }
	void del(long b, int r, unsigned long d, unsigned long o) { x.deleteBlock(b, r, d, o); }
};

typedef int Elem;
static const unsigned long BS = 3;      // elements of a block
static numa::Numa* nu;
static numa::NumaComm* comms[32];
static cache::CacheManager* mgr[32];
static mpi::MPIComm* cm;
static Base* x[32];
static bool master[32];
static int dom[32];
static bool win;
static unsigned cs;
static unsigned long per;
static unsigned char* mem;
static types::BasicType<Elem> type;
static Elem* slot(unsigned long o) { return (Elem*)(mem + o * BS * sizeof(Elem)); }

static void run(int t, const Toks& a)
{
	const std::string& op = a[0];
	unsigned long b = a.size() > 1 ? atol(a[1].c_str()) : 0, o = a.size() > 2 ? atol(a[2].c_str()) : 0;
	int home = b % nRanks;
	unsigned long d = b / nRanks;
	if (op == "numa") { nu = new numa::Numa(); nu->setThreads(team); cm = new mpi::MPIComm(); cm->init(MPI_COMM_WORLD); }
	else if (op == "startcomm") mpi::CommThread::commThread.init(-1);
	else if (op == "stopcomm") mpi::CommThread::commThread.finialize();
	else if (op == "regthread") { nu->registerThread(master[t]); dom[t] = nu->domainId(); }
	else if (op == "mem") { per = b; mem = (unsigned char*)calloc(b * BS, sizeof(Elem)); }
	else if (op == "xnew") {      // window?, blocks in a cache, directory entries of a domain
		if (!master[t]) return;
		win = b; cs = o;
		unsigned long n = atol(a[3].c_str());
		int i = dom[t];
		comms[i] = nu->createComm();
		mgr[i] = new cache::CacheManager();
		mgr[i]->init(mem + i * cs * BS * sizeof(Elem), cs, BS * sizeof(Elem), -1);
		x[i] = win ? (Base*)new Of<transfer::MPIWinCache>() : new Of<transfer::MPIThreadCache>();
		int c = x[i]->init(mem + i * cs * BS * sizeof(Elem), cs, *mgr[i], n, BS, type, *cm, *comms[i]);
		Ev("new", t)("code", c);
	}
	else if (op == "xdel") { if (!master[t]) return; int i = dom[t]; numa::NumaComm* c = comms[i]; delete x[i]; delete mgr[i]; if (i == 0) delete c; }
	else if (op == "del0") { delete cm; delete nu; free(mem); mem = 0; }
	else if (op == "get") {      // look for the block, take it over, register
		Ev("startb", t)("b", b)("h", myRank * per + o);
		long v = x[dom[t]]->start(b, home, d, o);
		Ev("start", t)("b", b)("v", v);
		Elem* e = slot(o);
		if (win) {
			bool ok = x[dom[t]]->move(v, b, (unsigned char*)e);
			long val = e[0];
			for (unsigned long i = 1; i < BS; i++) if (e[i] != e[0] + (long)i * 1000) val = -5;
			if (ok) Ev("moved", t)("b", b)("v", val);
			else for (unsigned long i = 0; i < BS; i++) e[i] = b + i * 1000;
		}
		Ev("endb", t)("b", b)("h", myRank * per + o);
		x[dom[t]]->end(b, home, d, o);
		Ev("end1", t)("b", b);
	}
	else if (op == "look") {     // (messages only) look without taking it over
		Ev("startb", t)("b", b)("h", -1);
		long v = x[dom[t]]->start(b, home, d, o);
		Ev("start", t)("b", b)("v", v);
	}
	else if (op == "add") {
		Elem* e = slot(o);
		for (unsigned long i = 0; i < BS; i++) e[i] = b + i * 1000;
		Ev("addb", t)("b", b)("h", myRank * per + o);
		x[dom[t]]->add(b, home, d, o);
		Ev("add", t)("b", b);
	}
	else if (op == "del") {
		Ev("delb", t)("b", b)("h", myRank * per + o);
		x[dom[t]]->del(b, home, d, o);
		Ev("del", t)("b", b);
		for (unsigned long i = 0; i < BS; i++) slot(o)[i] = -9;
	}
	else if (op == "delnone") x[dom[t]]->del(-1, 0, 0, o);
	else if (op == "quiet") Ev("quiet", t)("b", 0);
}
