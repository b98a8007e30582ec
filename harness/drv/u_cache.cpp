// Driver of the cache classes.
#include "asagi.h"
#include "cache/cachelist.h"
#include "cache/cachemanager.h"
#include "script.h"

static cache::CacheList* lst;
static cache::CacheManager* mgr;
static unsigned char* mem;
static unsigned long nb, bs;
static volatile int done[16];
// the caches get numbers of blocks multiplied by a power of two
static int shift;
static unsigned long W(long b) { return (unsigned long)b << shift; }
static long N(long x) { return x < 0 ? x : x & ((1L << shift) - 1) ? -77 : x >> shift; }

// pattern of a block: every byte b+1, 0: never filled
static long look(const unsigned char* d, int work)
{
	long v = d[0];
	for (unsigned long i = 1; i < bs; i++) {
		if (work) verif_yield();
		if (d[i] != v) return -1;
	}
	return v;
}

static void run(int t, const Toks& a)
{
	const std::string& op = a[0];
	long b = a.size() > 1 ? atol(a[1].c_str()) : 0;
	int work = a.size() > 2 ? atoi(a[2].c_str()) : 0;
	if (op == "shift") shift = b;
	else if (op == "lnew") { lst = new cache::CacheList(); lst->init(b, atol(a[2].c_str())); }
	else if (op == "ldef") { lst = new cache::CacheList(); lst->init(b); }
	else if (op == "ldel") { delete lst; lst = 0; }
	else if (op == "lget") {      // lookup (a[2]: counts as an access)
		unsigned long i = 0;
		bool r = work == 2 ? lst->getIndex(W(b), i) : lst->getIndex(W(b), i, work != 0);
		Ev("find", t)("b", b)("a", work != 0)("hit", r)("i", r ? (long)i : -1);
	}
	else if (op == "luse") {      // lookup, insert on a miss
		unsigned long i = 0;
		if (lst->getIndex(W(b), i)) { Ev("find", t)("b", b)("a", 1)("hit", 1)("i", i); return; }
		Ev("find", t)("b", b)("a", 1)("hit", 0)("i", -1);
		long o = N(lst->getFreeIndex(W(b), i));
		Ev("ins", t)("b", b)("i", i)("old", o);
	}
	else if (op == "cnew") {      // blocks block-size spread
		nb = b; bs = atol(a[2].c_str());
		mem = new unsigned char[nb * bs];
		memset(mem, 7, nb * bs);
		mgr = new cache::CacheManager();
		if (a.size() > 3) mgr->init(mem, nb, bs, atol(a[3].c_str())); else mgr->init(mem, nb, bs);
	}
	else if (op == "cdel") { delete mgr; delete [] mem; mgr = 0; }
	else if (op == "get") {
		Ev("getb", t)("b", b);
		unsigned long off = 12345; unsigned char* d = 0;
		long o = N(mgr->get(W(b), off, d));
		if (off >= nb || d < mem || d + bs > mem + nb * bs) { Ev("outside", t)("b", b); return; }
		Ev("got", t)("b", b)("old", o)("i", off)("d", (d - mem) / (long)bs);
		Ev("mem", t)("v", look(d, work) - 1);
		if (o != b) {
			for (unsigned long i = 0; i < bs; i++) { d[i] = b + 1; if (work) verif_yield(); }
			Ev("fill", t)("v", look(d, work) - 1);
		}
		if (a.size() > 3) verif_await(&done[atoi(a[3].c_str())], atoi(a[4].c_str()));
		Ev("rel", t)("i", off);
		mgr->unlock(off);
		Ev("reld", t)("i", off);
	}
	else if (op == "try") {
		Ev("tryb", t)("b", b);
		unsigned long off = 12345; const unsigned char* d = 0;
		bool r = mgr->tryGet(W(b), off, d);
		if (!r) { Ev("tried", t)("b", b)("ok", 0)("i", -1)("d", -1); return; }
		if (off >= nb || d < mem || d + bs > mem + nb * bs) { Ev("outside", t)("b", b); return; }
		Ev("tried", t)("b", b)("ok", 1)("i", off)("d", (d - mem) / (long)bs);
		Ev("mem", t)("v", look(d, work) - 1);
		Ev("rel", t)("i", off);
		mgr->unlock(off);
		Ev("reld", t)("i", off);
	}
	else if (op == "done") done[b]++;
	else if (op == "await") verif_await(&done[b], work);
}
