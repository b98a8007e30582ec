// pthread, scheduling, C++ memory and netCDF calls of the code under test (linked
// with -Wl,--wrap=...) are routed here.
#include <sched.h>
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <netcdf.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <deque>
#include <new>
#include <set>
#include <unordered_map>
#include "sim.h"
#include "verif.h"

using namespace sim;

struct MutexState { int owner = -1; int count = 0; int type = PTHREAD_MUTEX_NORMAL; };
struct CondState { std::deque<int> waiting; std::set<int> woken; };
static std::unordered_map<void*, MutexState> mutexes;
static std::unordered_map<void*, CondState> conds;
static std::unordered_map<void*, int> onces;
struct RwState { int readers = 0; int writer = -1; };
static std::unordered_map<void*, RwState> rws;
struct BarState { unsigned n = 0, in = 0; unsigned long gen = 0; };
static std::unordered_map<void*, BarState> bars;
static std::unordered_map<void*, int> sems;
struct Key { bool live = false; void (*dtor)(void*) = nullptr; int rank = 0; };
static std::vector<Key> keys;
static int myId() { return cur ? cur->id : 1 << 20; }

extern "C" {
// ---------------------------------------------------------------- spin locks
int __wrap_pthread_spin_init(pthread_spinlock_t* l, int) { *(volatile int*)l = 0; return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t* l) { if (cur && *(volatile int*)l) flag("spin_destroy of a held lock"); *(volatile int*)l = 77; return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t* l)
{
	yield();
	if (*(volatile int*)l == 77) flag("lock of a destroyed spin lock");
	blockUntil("spin_lock", [l] { return *(volatile int*)l == 0; });
	*(volatile int*)l = 1;
	return 0;
}
int __wrap_pthread_spin_trylock(pthread_spinlock_t* l)
{
	yield();
	if (*(volatile int*)l == 0) { *(volatile int*)l = 1; return 0; }
	return EBUSY;
}
int __wrap_pthread_spin_unlock(pthread_spinlock_t* l)
{
	if (cur && *(volatile int*)l != 1) flag("unlock of a free spin lock");
	*(volatile int*)l = 0;
	yield();
	return 0;
}
// ---------------------------------------------------------------- mutexes
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
	MutexState s; if (a) { int t = 0; if (pthread_mutexattr_gettype(a, &t) == 0) s.type = t; }
	mutexes[m] = s; return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { if (cur && mutexes[m].owner >= 0) flag("mutex_destroy of a held mutex"); mutexes.erase(m); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	yield();
	MutexState& s = mutexes[m];
	if (s.owner == myId()) {
		if (s.type == PTHREAD_MUTEX_RECURSIVE) { s.count++; return 0; }
		if (s.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	}
	blockUntil("mutex_lock", [m] { return mutexes[m].owner < 0; });
	mutexes[m].owner = myId(); mutexes[m].count = 1;
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
	yield();
	MutexState& s = mutexes[m];
	if (s.owner == myId() && s.type == PTHREAD_MUTEX_RECURSIVE) { s.count++; return 0; }
	if (s.owner >= 0) return EBUSY;
	s.owner = myId(); s.count = 1; return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	MutexState& s = mutexes[m];
	if (s.owner != myId()) { if (cur) flag("mutex_unlock by a thread that does not hold it"); if (s.type != PTHREAD_MUTEX_NORMAL) return EPERM; }
	if (--s.count <= 0) s.owner = -1;
	yield();
	return 0;
}
// ---------------------------------------------------------------- condition variables
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { conds[c] = CondState(); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { if (cur && !conds[c].waiting.empty()) flag("cond_destroy with waiting threads"); conds.erase(c); return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
	if (!cur) abort();
	if (mutexes[m].owner != myId()) flag("cond_wait without holding the mutex");
	int me = myId();
	CondState& s = conds[c];
	s.waiting.push_back(me);
	mutexes[m].owner = -1; mutexes[m].count = 0;
	bool spurious = false;
	bool mayTime = timed;
	blockUntil("cond_wait", [c, me, &spurious, mayTime] {
		CondState& s = conds[c];
		if (s.woken.count(me)) return true;
		if (spurious) return true;
		if (chance(cfg.spur, 10000) || (mayTime && chance(100, 1000))) { spurious = true; return true; }
		return false;
	});
	CondState& t = conds[c];
	bool woken = t.woken.erase(me);
	if (!woken) { auto it = std::find(t.waiting.begin(), t.waiting.end(), me); if (it != t.waiting.end()) t.waiting.erase(it); }
	blockUntil("cond_wait/mutex", [m] { return mutexes[m].owner < 0; });
	mutexes[m].owner = me; mutexes[m].count = 1;
	return (!woken && timed) ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, false); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return condWait(c, m, true); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return condWait(c, m, true); }
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
	CondState& s = conds[c];
	if (!s.waiting.empty()) { size_t i = rnd(s.waiting.size()); s.woken.insert(s.waiting[i]); s.waiting.erase(s.waiting.begin() + i); }
	yield();
	return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
	CondState& s = conds[c];
	for (int w : s.waiting) s.woken.insert(w);
	s.waiting.clear();
	yield();
	return 0;
}
// libstdc++'s condition_variable functions live in the shared library
int __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* cv, void** ul) { return condWait((pthread_cond_t*)cv, (pthread_mutex_t*)ul[0], false); }
void __wrap__ZNSt18condition_variable10notify_oneEv(void* cv) { __wrap_pthread_cond_signal((pthread_cond_t*)cv); }
void __wrap__ZNSt18condition_variable10notify_allEv(void* cv) { __wrap_pthread_cond_broadcast((pthread_cond_t*)cv); }
void __wrap__ZNSt18condition_variableC1Ev(void* cv) { memset(cv, 0, sizeof(pthread_cond_t)); conds[cv] = CondState(); }
void __wrap__ZNSt18condition_variableD1Ev(void* cv) { conds.erase(cv); }
// ---------------------------------------------------------------- once, rwlock
int __wrap_pthread_once(pthread_once_t* o, void (*fn)())
{
	yield();
	int& s = onces[o];
	if (s == 0 && *(int*)o == 0) { s = 1; fn(); onces[o] = 2; *(int*)o = 2; }
	else blockUntil("once", [o] { return onces[o] == 2 || *(int*)o == 2; });
	return 0;
}
int __wrap_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { rws[l] = RwState(); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t* l) { rws.erase(l); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) { yield(); blockUntil("rdlock", [l] { return rws[l].writer < 0; }); rws[l].readers++; return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) { yield(); blockUntil("wrlock", [l] { return rws[l].writer < 0 && rws[l].readers == 0; }); rws[l].writer = myId(); return 0; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { yield(); if (rws[l].writer >= 0) return EBUSY; rws[l].readers++; return 0; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { yield(); if (rws[l].writer >= 0 || rws[l].readers) return EBUSY; rws[l].writer = myId(); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) { if (rws[l].writer == myId()) rws[l].writer = -1; else rws[l].readers--; yield(); return 0; }
// ---------------------------------------------------------------- barriers, semaphores
int __wrap_pthread_barrier_init(pthread_barrier_t* b, const void*, unsigned n) { if (!n) return EINVAL; bars[b] = BarState{n, 0, 0}; return 0; }
int __wrap_pthread_barrier_destroy(pthread_barrier_t* b) { bars.erase(b); return 0; }
int __wrap_pthread_barrier_wait(pthread_barrier_t* b)
{
	yield();
	BarState& s = bars[b];
	unsigned long gen = s.gen;
	if (++s.in == s.n) { s.in = 0; s.gen++; yield(); return PTHREAD_BARRIER_SERIAL_THREAD; }
	blockUntil("pthread_barrier", [b, gen] { return bars[b].gen != gen; });
	return 0;
}
int __wrap_sem_init(sem_t* m, int, unsigned v) { sems[m] = (int)v; return 0; }
int __wrap_sem_destroy(sem_t* m) { sems.erase(m); return 0; }
int __wrap_sem_wait(sem_t* m) { yield(); blockUntil("sem_wait", [m] { return sems[m] > 0; }); sems[m]--; return 0; }
int __wrap_sem_trywait(sem_t* m) { yield(); if (sems[m] <= 0) { errno = EAGAIN; return -1; } sems[m]--; return 0; }
int __wrap_sem_post(sem_t* m) { sems[m]++; yield(); return 0; }
int __wrap_sem_getvalue(sem_t* m, int* v) { *v = sems[m]; return 0; }
// ---------------------------------------------------------------- threads
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
	if (!cur) abort();
	Fiber* f = spawn(cur->rank, fn, arg);
	f->cpu = cur->cpu; f->node = cur->node;
	*t = (pthread_t)(f->id + 1);
	yield();
	return 0;
}
int __wrap_pthread_join(pthread_t t, void** res)
{
	size_t id = (size_t)t - 1;
	if (id >= fibers.size()) { flag("join of an invalid thread"); return ESRCH; }
	Fiber* f = fibers[id];
	blockUntil("join", [f] { return f->done; });
	if (res) *res = f->result;
	return 0;
}
int __wrap_pthread_detach(pthread_t t) { size_t id = (size_t)t - 1; if (id < fibers.size()) fibers[id]->detached = true; return 0; }
pthread_t __wrap_pthread_self(void) { return cur ? (pthread_t)(cur->id + 1) : (pthread_t)0x7fff0000; }
int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t* s)
{
	size_t id = (size_t)t - 1;
	std::string l; int cnt = 0, first = -1;
	for (int i = 0; i < (int)(n * 8) && i < CPU_SETSIZE; i++) if (CPU_ISSET(i, s)) { if (first < 0) first = i; cnt++; }
	bool valid = false;
	for (int i = 0; i < cfg.maxcpu; i++) if (CPU_ISSET(i, s)) valid = true;
	event(stringf("{\"e\":\"pin\",\"r\":%d,\"t\":%d,\"cpu\":%d,\"n\":%d}", cur ? cur->rank : -1, (int)id, first, cnt));
	return valid ? 0 : EINVAL;
}
unsigned __wrap__ZNSt6thread20hardware_concurrencyEv(void) { return (unsigned)cfg.maxcpu; }
int __wrap_sched_getcpu(void) { yield(); return cur ? cur->cpu : 0; }
int __wrap_numa_node_of_cpu(int cpu)
{
	(void)cpu; yield();
	return cur ? cur->node : 0;
}
int __wrap_getcpu(unsigned* cpu, unsigned* node) { yield(); if (cpu) *cpu = cur ? cur->cpu : 0; if (node) *node = cur ? cur->node : 0; return 0; }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { yieldTo(); return 0; }
int __wrap_sched_yield(void) { yieldTo(); return 0; }
int __wrap_pthread_yield(void) { yieldTo(); return 0; }
int __wrap_usleep(unsigned) { yieldTo(); return 0; }
unsigned __wrap_sleep(unsigned) { yieldTo(); return 0; }
int __wrap_nanosleep(const struct timespec*, struct timespec*) { yieldTo(); return 0; }
int __wrap_rand(void) { return (int)(rnd() & 0x7fffffff); }
long __wrap_random(void) { return (long)(rnd() & 0x7fffffff); }
int __wrap_rand_r(unsigned*) { return (int)(rnd() & 0x7fffffff); }
// ---------------------------------------------------------------- thread specific data
int __wrap_pthread_key_create(pthread_key_t* k, void (*d)(void*))
{
	size_t i = 0;
	while (i < keys.size() && keys[i].live) i++;
	if (i == keys.size()) keys.push_back(Key());
	keys[i].live = true; keys[i].dtor = d; keys[i].rank = cur ? cur->rank : -1;
	for (Fiber* f : fibers) f->tls.erase((int)i);
	*k = (pthread_key_t)i;
	return 0;
}
int __wrap_pthread_key_delete(pthread_key_t k) { if (k < keys.size()) { if (!keys[k].live) flag("key_delete twice"); keys[k].live = false; } return 0; }
void* __wrap_pthread_getspecific(pthread_key_t k)
{
	if (!cur) return nullptr;
	if (k >= keys.size() || !keys[k].live) { flag("getspecific with a deleted key"); return nullptr; }
	auto it = cur->tls.find((int)k);
	return it == cur->tls.end() ? nullptr : it->second;
}
int __wrap_pthread_setspecific(pthread_key_t k, const void* v)
{
	if (!cur) abort();
	if (k >= keys.size() || !keys[k].live) { flag("setspecific with a deleted key"); return EINVAL; }
	cur->tls[(int)k] = const_cast<void*>(v);
	return 0;
}
// ---------------------------------------------------------------- block memory copies
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
	if (!cur || n < 8) { return memmove(d, s, n); }
	char* dd = (char*)d; const char* ss = (const char*)s;
	for (size_t i = 0; i < n; i += 8) { memPoint(); size_t k = n - i < 8 ? n - i : 8; memmove(dd + i, ss + i, k); }
	return d;
}
void __wrap___assert_fail(const char* a, const char* file, unsigned line, const char* fn)
{
	(void)fn;
	const char* b = strrchr(file, '/');
	finish(stringf("crash assertion %s (%s:%u)", a, b ? b + 1 : file, line));
}
}

namespace sim {
void runDtors(Fiber* f)
{
	for (size_t k = 0; k < keys.size(); k++)
		if (keys[k].live && keys[k].dtor && f->tls.count((int)k)) { void* v = f->tls[(int)k]; f->tls[(int)k] = nullptr; if (v) keys[k].dtor(v); }
}

// ---------------------------------------------------------------- netCDF
static std::map<int, int> openFiles;   // ncid -> rank
static int ncInside[64];               // per rank: simulated threads inside the library
static long ncReads[64], ncCalls[64];
struct NcGuard {
	int r;
	NcGuard(const char* fn) : r(cur ? cur->rank : 0)
	{
		yield();
		ncCalls[r]++;
		if (++ncInside[r] > 1) flag(std::string("concurrent netCDF call: ") + fn);
		if (cur && cfg.pm >= 0) { yield(); yield(); }
	}
	~NcGuard() { if (cur) yield(); ncInside[r]--; }
};
static void logRead(const char* fn, int nc, int var, const size_t* start, const size_t* count)
{
	int r = cur ? cur->rank : 0;
	int nd = 0; char name[NC_MAX_NAME + 1] = "";
	nc_inq_varndims(nc, var, &nd); nc_inq_varname(nc, var, name);
	int dims[NC_MAX_VAR_DIMS]; nc_inq_vardimid(nc, var, dims);
	bool coord = false;
	if (nd == 1) { char dn[NC_MAX_NAME + 1]; nc_inq_dimname(nc, dims[0], dn); coord = strcmp(dn, name) == 0; }
	if (coord) return;
	ncReads[r]++;
	if (!cfg.lognc) return;
	std::string s = "[", c = "[";
	for (int i = 0; i < nd; i++) {
		size_t len; nc_inq_dimlen(nc, dims[i], &len);
		s += (i ? "," : "") + std::to_string(start ? start[i] : 0);
		c += (i ? "," : "") + std::to_string(count ? count[i] : (start ? 1 : len));
	}
	event(stringf("{\"e\":\"rd\",\"r\":%d,\"t\":%d,\"var\":\"%s\",\"start\":%s],\"count\":%s]}", r, cur ? cur->id : -1, name, s.c_str(), c.c_str()));
	(void)fn;
}
// A variable called huge*: nothing is stored, the cells given by the touch keys hold 1 + the number of the cell modulo 10007
static bool isHuge(int nc, int var)
{
	char name[NC_MAX_NAME + 1] = "";
	nc_inq_varname(nc, var, name);
	return strncmp(name, "huge", 4) == 0;
}
template<typename T> static int hugeRead(int nc, int var, const size_t* start, const size_t* count, const ptrdiff_t* imap, T* b)
{
	int nd; nc_inq_varndims(nc, var, &nd);
	int dims[NC_MAX_VAR_DIMS]; nc_inq_vardimid(nc, var, dims);
	size_t n[NC_MAX_VAR_DIMS];
	for (int i = 0; i < nd; i++) { nc_inq_dimlen(nc, dims[i], &n[i]); if (start[i] + count[i] > n[i]) return NC_EEDGE; }
	for (uint64_t c : cfg.touch) {
		uint64_t l = c; size_t x[NC_MAX_VAR_DIMS];
		bool in = true;
		for (int i = nd - 1; i >= 0; i--) { x[i] = l % n[i]; l /= n[i]; in = in && x[i] >= start[i] && x[i] < start[i] + count[i]; }
		if (!in || l) continue;
		ptrdiff_t o = 0, m = 1;
		for (int i = nd - 1; i >= 0; i--) { o += (ptrdiff_t)(x[i] - start[i]) * (imap ? imap[i] : m); m *= count[i]; }
		b[o] = (T)(sizeof(T) == 1 ? (1 + c % 10007) % 251 : 1 + c % 10007);
	}
	return NC_NOERR;
}
static int hugeReadAny(int nc, int var, const size_t* s, const size_t* c, void* b)
{
	nc_type t; nc_inq_vartype(nc, var, &t);
	return t == NC_UBYTE ? hugeRead(nc, var, s, c, 0, (unsigned char*)b) : t == NC_INT ? hugeRead(nc, var, s, c, 0, (int*)b) : t == NC_INT64 ? hugeRead(nc, var, s, c, 0, (long*)b)
		: t == NC_FLOAT ? hugeRead(nc, var, s, c, 0, (float*)b) : hugeRead(nc, var, s, c, 0, (double*)b);
}
static const size_t ONES[NC_MAX_VAR_DIMS] = {1, 1, 1, 1, 1, 1, 1, 1};
long ncFailN[64];
long wrapStat(const std::string& w, int rank)
{
	if (w == "live_file") { long n = 0; for (auto& p : openFiles) if (p.second == rank) n++; return n; }
	if (w == "nc_reads") return ncReads[rank];
	if (w == "nc_calls") return ncCalls[rank];
	if (w == "node") return cur ? cur->node : 0;
	if (w == "live_key") { long n = 0; for (auto& k : keys) if (k.live && k.rank == rank) n++; return n; }
	return -1;
}
void setNcFail(long v) { ncFailN[cur ? cur->rank : 0] = v; }
}
extern "C" {
int __wrap_nc_open(const char* p, int mode, int* id)
{
	NcGuard g("nc_open");
	if (cfg.ncfail) return NC_ENOTFOUND;                                 // files cannot be opened
	int r = cur ? cur->rank : 0;
	if (ncFailN[r] > 0 && --ncFailN[r] == 0) {                           // the n-th open of the process fails
		event(stringf("{\"e\":\"ncerr\",\"r\":%d}", r));
		return NC_ENOTFOUND;
	}
	int e = nc_open(p, mode, id);
	if (e == NC_NOERR) openFiles[*id] = cur ? cur->rank : 0;
	return e;
}
int __wrap_nc_close(int id)
{
	NcGuard g("nc_close");
	if (!openFiles.erase(id)) flag("nc_close of a file that is not open");
	return nc_close(id);
}
#define RD0(N, T) int __wrap_nc_get_var_##N(int a, int v, T* b) { NcGuard g("get_var"); logRead("var", a, v, 0, 0); return nc_get_var_##N(a, v, b); } \
 int __wrap_nc_get_var1_##N(int a, int v, const size_t* s, T* b) { NcGuard g("get_var1"); logRead("var1", a, v, s, 0); if (isHuge(a, v)) return hugeRead(a, v, s, ONES, 0, b); return nc_get_var1_##N(a, v, s, b); } \
 int __wrap_nc_get_vara_##N(int a, int v, const size_t* s, const size_t* c, T* b) { NcGuard g("get_vara"); logRead("vara", a, v, s, c); if (isHuge(a, v)) return hugeRead(a, v, s, c, 0, b); return nc_get_vara_##N(a, v, s, c, b); } \
 int __wrap_nc_get_vars_##N(int a, int v, const size_t* s, const size_t* c, const ptrdiff_t* st, T* b) { NcGuard g("get_vars"); logRead("vars", a, v, s, c); return nc_get_vars_##N(a, v, s, c, st, b); } \
 int __wrap_nc_get_varm_##N(int a, int v, const size_t* s, const size_t* c, const ptrdiff_t* st, const ptrdiff_t* im, T* b) { NcGuard g("get_varm"); logRead("varm", a, v, s, c); if (isHuge(a, v)) return hugeRead(a, v, s, c, im, b); return nc_get_varm_##N(a, v, s, c, st, im, b); }
RD0(uchar, unsigned char) RD0(schar, signed char) RD0(int, int) RD0(long, long) RD0(float, float) RD0(double, double)
RD0(longlong, long long) RD0(short, short)
int __wrap_nc_get_var(int a, int v, void* b) { NcGuard g("get_var"); logRead("var", a, v, 0, 0); return nc_get_var(a, v, b); }
int __wrap_nc_get_var1(int a, int v, const size_t* s, void* b) { NcGuard g("get_var1"); logRead("var1", a, v, s, 0); if (isHuge(a, v)) return hugeReadAny(a, v, s, ONES, b); return nc_get_var1(a, v, s, b); }
int __wrap_nc_get_vara(int a, int v, const size_t* s, const size_t* c, void* b) { NcGuard g("get_vara"); logRead("vara", a, v, s, c); if (isHuge(a, v)) return hugeReadAny(a, v, s, c, b); return nc_get_vara(a, v, s, c, b); }
int __wrap_nc_get_vars(int a, int v, const size_t* s, const size_t* c, const ptrdiff_t* st, void* b) { NcGuard g("get_vars"); logRead("vars", a, v, s, c); return nc_get_vars(a, v, s, c, st, b); }
int __wrap_nc_get_varm(int a, int v, const size_t* s, const size_t* c, const ptrdiff_t* st, const ptrdiff_t* im, void* b) { NcGuard g("get_varm"); logRead("varm", a, v, s, c); return nc_get_varm(a, v, s, c, st, im, b); }
#define NQ(name, params, args) int __wrap_##name params { NcGuard g(#name); return name args; }
NQ(nc_inq_varid, (int a, const char* n, int* v), (a, n, v))
NQ(nc_inq_varndims, (int a, int v, int* n), (a, v, n))
NQ(nc_inq_vardimid, (int a, int v, int* n), (a, v, n))
NQ(nc_inq_dim, (int a, int d, char* n, size_t* s), (a, d, n, s))
NQ(nc_inq_dimlen, (int a, int d, size_t* s), (a, d, s))
NQ(nc_inq_dimname, (int a, int d, char* s), (a, d, s))
NQ(nc_inq_vartype, (int a, int v, nc_type* t), (a, v, t))
NQ(nc_inq_type, (int a, nc_type t, char* n, size_t* s), (a, t, n, s))
NQ(nc_inq_var, (int a, int v, char* n, nc_type* t, int* nd, int* d, int* na), (a, v, n, t, nd, d, na))
}

