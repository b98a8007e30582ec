// Driver of numa::Numa and numa::NumaComm.
#include "asagi.h"
#include "numa/numa.h"
#include "numa/numacomm.h"
#include "allocator/default.h"
#include "script.h"

#ifdef ASAGI_NONUMA
#define NONUMA true
#else
#define NONUMA false
#endif
#include <sys/mman.h>
// only reserves the addresses
struct Reserve {
	static unsigned long n;
	template<typename T> static asagi::Grid::Error allocate(size_t size, T*& ptr)
	{
		n = size * sizeof(T);
		void* p = mmap(0, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		ptr = (T*)p;
		return p == MAP_FAILED ? asagi::Grid::NUMA_ERROR : asagi::Grid::SUCCESS;
	}
	template<typename T> static void free(T* p) { munmap((void*)p, n); }
};
unsigned long Reserve::n;
static numa::Numa* nu[4];
static numa::NumaComm* comm[32][8];      // thread, object
static bool master[32];
static unsigned dom[32], tid[32];
static unsigned char* pb[32];
static long* pl[32];
static unsigned char* base0;
static long name(void* p) { return ((unsigned long)p >> 3) & 0x3fffffff; }

static void run(int t, const Toks& a)
{
	const std::string& op = a[0];
	int k = a.size() > 1 ? atoi(a[1].c_str()) : 0;
	long n = a.size() > 2 ? atol(a[2].c_str()) : 0;
	if (op == "nnew") {          // object, threads
		nu[k] = new numa::Numa();
		int e = nu[k]->setThreads(n);
		Ev("threads", t)("n", nu[k]->totalThreads())("code", e);
	}
	else if (op == "ndel") { delete nu[k]; }
	else if (op == "reg") {      // object, detect
		bool m = t % 2;
		Ev("regb", t)("k", k)("node", n && !NONUMA ? verif_stat("node") : 0);
		int e = n == 2 ? nu[k]->registerThread(m) : nu[k]->registerThread(m, n != 0);
		if (k == 0) { master[t] = m; dom[t] = nu[k]->domainId(); tid[t] = nu[k]->threadId(); }
		Ev("reg", t)("k", k)("code", e)("m", m)("id", nu[k]->threadId())("dom", nu[k]->domainId())("n", nu[k]->totalThreads())("d", nu[k]->totalDomains());
	}
	else if (op == "nbar") {
		Ev("inb", t)("k", k * 2)("n", nu[k]->totalThreads())("root", -1)("v", 0)("x", 0)("last", 0);
		int e = nu[k]->barrier();
		Ev("out", t)("k", k * 2)("ok", e == 0)("v", 0);
	}
	else if (op == "nbc") {      // object, root, value
		long v = atol(a[3].c_str()) + tid[t], w = v;
		Ev("inb", t)("k", k * 2)("n", nu[k]->totalThreads())("root", (long)tid[t] == n)("v", v)("x", 0)("last", 0);
		int e = n == 0 && v % 2 ? nu[k]->broadcast(w) : nu[k]->broadcast(w, n);
		long got = w; w = -5;
		Ev("out", t)("k", k * 2)("ok", e == 0)("v", got);
	}
	else if (op[0] == 'M') {      // among the domain masters
		if (!master[t]) return;
		if (op == "Mcomm") {      // object, communicator, from (-1: created, else copied)
			int from = atoi(a[3].c_str());
			Ev("inb", t)("k", k * 2 + 1)("n", nu[k]->totalDomains())("root", -1)("v", 0)("x", 0)("last", 0);
			comm[t][n] = from < 0 ? nu[k]->createComm() : comm[t][from]->copy();
			Ev("out", t)("k", k * 2 + 1)("ok", comm[t][n] != 0)("v", 0);
			Ev("comm", t)("c", n)("p", name(comm[t][n]))("id", comm[t][n]->threadId())("dom", comm[t][n]->domainId())("n", comm[t][n]->totalThreads())("d", comm[t][n]->totalDomains());
		}
		else if (op == "Mdel") { if (dom[t] == 0) { Ev("cdel", t)("c", k); delete comm[t][k]; } }
		else if (op == "Mbc") {      // communicator, root domain, value
			long v = atol(a[3].c_str()) + dom[t], w = v;
			long r = n % (long)comm[t][k]->totalDomains();
			Ev("inb", t)("k", 8 + k)("n", comm[t][k]->totalDomains())("root", (long)dom[t] == r)("v", v)("x", 0)("last", 0);
			int e = r == 0 && v % 2 ? comm[t][k]->broadcast(w) : comm[t][k]->broadcast(w, r);
			long got = w; w = -5;
			Ev("out", t)("k", 8 + k)("ok", e == 0)("v", got);
		}
		else if (op == "Malloc") {      // communicator, size, long elements
			int wide = atoi(a[3].c_str());
			Ev("inb", t)("k", 8 + k)("n", comm[t][k]->totalDomains())("root", -1)("v", 0)("x", 0)("last", 0);
			int e;
			unsigned char* p = 0; long* q = 0;
			if (wide) { e = comm[t][k]->allocate<allocator::Default>(n, q); pl[t] = q; p = (unsigned char*)q; }
			else { e = comm[t][k]->allocate<allocator::Default>(n, p); pb[t] = p; }
			Ev("out", t)("k", 8 + k)("ok", e == 0)("v", 0);
			unsigned long bytes = n * (wide ? 8 : 1);
			for (unsigned long i = 0; i < bytes; i++) p[i] = dom[t] + 1;      // fill the own part
			if (dom[t] == 0) base0 = p;
			comm[t][k]->broadcast(base0);
			long good = 0;
			for (unsigned long i = 0; i < bytes; i++) good += p[i] == dom[t] + 1;
			Ev("part", t)("dom", dom[t])("size", bytes)("off", p - base0)("good", good);
			unsigned char dummy = 0;
			comm[t][k]->broadcast(dummy);
		}
		else if (op == "Mhuge") {      // communicator, MiB (multiple of 1), long elements
			int wide = atoi(a[3].c_str());
			Ev("inb", t)("k", 8 + k)("n", comm[t][k]->totalDomains())("root", -1)("v", 0)("x", 0)("last", 0);
			int e;
			unsigned char* p = 0; long* q = 0;
			unsigned long bytes = (unsigned long)n << 20;
			if (wide) { e = comm[t][k]->allocate<Reserve>(bytes / 8, q); pl[t] = q; p = (unsigned char*)q; }
			else { e = comm[t][k]->allocate<Reserve>(bytes, p); pb[t] = p; }
			Ev("out", t)("k", 8 + k)("ok", e == 0)("v", 0);
			if (dom[t] == 0) base0 = p;
			comm[t][k]->broadcast(base0);
			unsigned long off = p - base0;
			bool fits = p >= base0 && off % (1 << 20) == 0 && off + bytes <= Reserve::n && Reserve::n == bytes * comm[t][k]->totalDomains();
			Ev("part", t)("dom", dom[t])("size", n)("off", fits ? (long)(off >> 20) : -1)("good", fits ? n : 0);
			unsigned char dummy = 0;
			comm[t][k]->broadcast(dummy);
			if (dom[t] == 0) { if (wide) comm[t][k]->free<Reserve>(pl[t]); else comm[t][k]->free<Reserve>(pb[t]); }
			comm[t][k]->broadcast(dummy);
		}
		else if (op == "Mfree") {      // communicator, -, long elements
			if (dom[t] == 0) {
				if (atoi(a[3].c_str())) comm[t][k]->free<allocator::Default>(pl[t]); else comm[t][k]->free<allocator::Default>(pb[t]);
			}
		}
	}
}
