// Simulated MPI: all ranks live in this process, every handle is an integer.
#include <sched.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include "sim.h"
#include "mpi.h"

using namespace sim;

namespace {
int me() { return cur ? cur->rank : 0; }

// ------------------------------------------------------------------ datatypes
struct Type { bool live = false, committed = false, builtin = false; int owner = -1; long size = 0, extent = 0; std::vector<std::pair<long, long>> map; };
std::deque<Type> types;      // references to elements stay valid
void initTypes()
{
	if (!types.empty()) return;
	types.resize(64);
	static const int sizes[28] = {0, 1, 1, 4, 8, 4, 8, 8, 1, 4, 8, 2, 8, 8, 1, 8, 4, 4, 1, 1, 2, 2, 2, 8, 1, 1, 8, 8};
	for (int i = 1; i < 28; i++) {
		Type& t = types[i];
		t.live = t.committed = t.builtin = true; t.size = t.extent = sizes[i];
		t.map.push_back({0, sizes[i]});
	}
}
Type* type(MPI_Datatype d, bool needCommit)
{
	initTypes();
	if (d <= 0 || d >= (int)types.size() || !types[d].live) { finish("crash use of an invalid MPI datatype"); }
	if (needCommit && !types[d].committed) flag("communication with an uncommitted MPI datatype");
	if (!types[d].builtin && types[d].owner != me()) flag("MPI datatype of another process");
	return &types[d];
}
int newType(const Type& t)
{
	initTypes();
	size_t i = 64;
	while (i < types.size() && types[i].live) i++;
	if (i == types.size()) types.push_back(t); else types[i] = t;
	types[i].live = true; types[i].committed = false; types[i].builtin = false; types[i].owner = me();
	return (int)i;
}
std::string pack(const void* buf, int n, Type* t)
{
	std::string r;
	if (n > 0 && !buf && t->size) flag("null buffer in MPI call");
	for (int i = 0; i < n; i++) for (auto& m : t->map) { memPoint(); r.append((const char*)buf + i * t->extent + m.first, m.second); }
	return r;
}
void unpack(void* buf, const std::string& data, int n, Type* t)
{
	size_t p = 0;
	for (int i = 0; i < n && p < data.size(); i++) for (auto& m : t->map) {
		size_t k = std::min((size_t)m.second, data.size() - p);
		memPoint();
		memmove((char*)buf + i * t->extent + m.first, data.data() + p, k);
		p += k;
	}
}
void poison(void* buf, int n, Type* t)
{
	for (int i = 0; i < n; i++) for (auto& m : t->map) memset((char*)buf + i * t->extent + m.first, 0xAB, m.second);
}

// ------------------------------------------------------------------ communicators
struct Coll { std::string op; std::set<int> arrived; std::map<int, std::string> data; std::map<int, long> a, b; bool fin = false; int newCtx = 0; std::map<int, int> split; int left = 0; };
struct Req;
struct Msg { int src, tag; std::string data; Req* sync; const void* buf; int n; MPI_Datatype dt; uint64_t visible; };
struct Req { int id, rank; bool done = false, recv = false; int ctx = 0, src = 0, tag = 0; void* buf = nullptr; int n = 0; MPI_Datatype dt = 0; MPI_Status st{}; MPI_Win rma = 0; int target = -1; };
struct Ctx {
	std::vector<int> members;                 // world ranks
	std::vector<uint64_t> seq;                // collective sequence number per member
	std::map<uint64_t, Coll> colls;
	std::vector<std::deque<Msg>> inbox;
	std::vector<std::deque<Req*>> posted;
	std::set<int> refs;                       // world ranks that have not freed it
	bool dup = false;
	int rankOf(int world) { for (size_t i = 0; i < members.size(); i++) if (members[i] == world) return i; return -1; }
};
std::map<int, std::unique_ptr<Ctx>> ctxs;
int nextCtx = 100;
int newCtx(const std::vector<int>& mem)
{
	int id = nextCtx++;
	Ctx* c = new Ctx;
	c->members = mem; c->seq.resize(mem.size()); c->inbox.resize(mem.size()); c->posted.resize(mem.size());
	for (int m : mem) c->refs.insert(m);
	ctxs[id].reset(c);
	return id;
}
int canon(MPI_Comm c)
{
	if (c == MPI_COMM_SELF) return -1000 - me();
	return c;
}
Ctx* ctx(MPI_Comm c)
{
	int k = canon(c);
	auto it = ctxs.find(k);
	if (it == ctxs.end()) {
		if (c == MPI_COMM_WORLD || c == MPI_COMM_SELF) {
			std::vector<int> mem;
			if (c == MPI_COMM_SELF) mem.push_back(me()); else for (int i = 0; i < nranks; i++) mem.push_back(i);
			Ctx* x = new Ctx;
			x->members = mem; x->seq.resize(mem.size()); x->inbox.resize(mem.size()); x->posted.resize(mem.size());
			for (int m : mem) x->refs.insert(m);
			ctxs[k].reset(x);
			return x;
		}
		finish(stringf("crash use of an invalid MPI communicator %d", c));
	}
	if (!it->second->refs.count(me())) finish("crash use of a freed MPI communicator");
	return it->second.get();
}

// ------------------------------------------------------------------ per-call guard
int inMpi[64];
long mpiCalls[64];
int procName[64];
struct Guard {
	int r; const char* fn;
	Guard(const char* fn_, bool rma = false) : r(me()), fn(fn_)
	{
		(void)rma;
		yield();
		mpiCalls[r]++;
		if (cfg.logmpi) event(stringf("{\"e\":\"mpi\",\"r\":%d,\"t\":%d,\"fn\":\"%s\"}", r, cur ? cur->id : -1, fn));
		if (++inMpi[r] > 1 && cfg.serialmpi) flag(std::string("concurrent MPI call: ") + fn);
		if (cur) yield();
	}
	~Guard() { if (cur) yield(); inMpi[r]--; }
};

// from the n-th call that may fail on, all such calls of the process fail
long mpiFail[64];
bool failNow()
{
	int r = me();
	if (mpiFail[r] == 0) return false;
	if (mpiFail[r] > 1) { mpiFail[r]--; return false; }
	event(stringf("{\"e\":\"mpierr\",\"r\":%d}", r));
	return true;
}

// ------------------------------------------------------------------ collectives
// enter collective `op`; returns the slot; the caller fills data and then waits
Coll& collEnter(Ctx* c, const std::string& op, int root = -1)
{
	int r = c->rankOf(me());
	uint64_t s = c->seq[r]++;
	Coll& k = c->colls[s];
	std::string full = op + (root >= 0 ? stringf("/%d", root) : "");
	if (k.op.empty()) k.op = full;
	else if (k.op != full) flag("collective mismatch: " + k.op + " vs " + full);
	return k;
}
void collWait(Ctx* c, Coll& k, const char* why)
{
	size_t n = c->members.size();
	k.arrived.insert(c->rankOf(me()));      // not before its data is there
	blockUntil(why, [&k, n] { return k.arrived.size() == n; });
}

// ------------------------------------------------------------------ point to point
std::vector<Req*> reqs(1, nullptr);
Req* newReq()
{
	Req* q = new Req;
	size_t i = 1;
	while (i < reqs.size() && reqs[i]) i++;
	if (i == reqs.size()) reqs.push_back(q); else reqs[i] = q;
	q->id = (int)i; q->rank = me();
	return q;
}
void freeReq(Req* q) { reqs[q->id] = nullptr; delete q; }
uint64_t delayUntil() { return cfg.msgdelay > 0 && chance(cfg.msgdelay, 1000) ? steps + 1 + rnd(400) : 0; }

bool matches(const Msg& m, int src, int tag) { return (src == MPI_ANY_SOURCE || m.src == src) && (tag == MPI_ANY_TAG || m.tag == tag); }
// index of a message that may be received now, or -1
int findMsg(Ctx* c, int dst, int src, int tag)
{
	std::vector<int> cand; std::set<int> seen;
	auto& box = c->inbox[dst];
	for (size_t i = 0; i < box.size(); i++) {
		if (seen.count(box[i].src) || !matches(box[i], src, tag)) continue;
		seen.insert(box[i].src);
		if (box[i].visible <= steps) cand.push_back(i);
	}
	if (cand.empty()) return -1;
	return cand[rnd(cand.size())];
}
bool anyMsg(Ctx* c, int dst, int src, int tag)
{
	std::set<int> seen;
	for (auto& m : c->inbox[dst]) { if (seen.count(m.src) || !matches(m, src, tag)) continue; seen.insert(m.src); if (m.visible <= steps) return true; }
	return false;
}
void deliver(Ctx* c, int dst, int i, Req* q)
{
	Msg m = c->inbox[dst][i];
	c->inbox[dst].erase(c->inbox[dst].begin() + i);
	Type* t = &types[q->dt];
	if (m.sync) { m.data.clear(); Type* st = &types[m.dt];
		for (int k = 0; k < m.n; k++) for (auto& mm : st->map) m.data.append((const char*)m.buf + k * st->extent + mm.first, mm.second); }
	if ((long)m.data.size() > q->n * t->size) { flag("message truncated"); m.data.resize(q->n * t->size); }
	size_t p = 0;
	for (int k = 0; k < q->n && p < m.data.size(); k++) for (auto& mm : t->map) {
		size_t l = std::min((size_t)mm.second, m.data.size() - p);
		memmove((char*)q->buf + k * t->extent + mm.first, m.data.data() + p, l); p += l; }
	q->st.MPI_SOURCE = m.src; q->st.MPI_TAG = m.tag; q->st.MPI_ERROR = 0; q->st.vcount = (int)m.data.size();
	q->done = true;
	if (m.sync) m.sync->done = true;
}
void progress(Ctx* c, int dst)
{
	auto& p = c->posted[dst];
	for (size_t i = 0; i < p.size(); ) {
		int k = findMsg(c, dst, p[i]->src, p[i]->tag);
		if (k >= 0) { Req* q = p[i]; p.erase(p.begin() + i); deliver(c, dst, k, q); }
		else i++;
	}
}
bool anyHidden = false;
void sendMsg(MPI_Comm comm, const void* buf, int n, MPI_Datatype dt, int dest, int tag, Req* sync)
{
	Ctx* c = ctx(comm);
	Type* t = type(dt, true);
	if (dest < 0 || dest >= (int)c->members.size()) finish(stringf("crash MPI send to invalid rank %d", dest));
	if (tag < 0) flag("negative MPI tag");
	Msg m;
	m.src = c->rankOf(me()); m.tag = tag; m.sync = sync; m.buf = buf; m.n = n; m.dt = dt; m.visible = delayUntil();
	if (m.visible) anyHidden = true;
	if (!sync) m.data = pack(buf, n, t);
	c->inbox[dest].push_back(m);
	progress(c, dest);
}
Req* recvMsg(MPI_Comm comm, void* buf, int n, MPI_Datatype dt, int src, int tag)
{
	Ctx* c = ctx(comm);
	type(dt, true);
	if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)c->members.size())) finish(stringf("crash MPI receive from invalid rank %d", src));
	Req* q = newReq();
	q->recv = true; q->buf = buf; q->n = n; q->dt = dt; q->src = src; q->tag = tag;
	int r = c->rankOf(me());
	c->posted[r].push_back(q);
	progress(c, r);
	return q;
}
void setStatus(MPI_Status* s, const MPI_Status& v) { if (s) *s = v; }

// ------------------------------------------------------------------ one-sided
struct Op { int kind; void* result; std::string data; int n; MPI_Datatype dt; MPI_Aint disp; MPI_Op op; std::string cmp; int tn = -1; MPI_Datatype tdt = 0; };
struct Epoch { bool open = false; int type = 0; bool nocheck = false; int fiber = -1; std::deque<Op> ops; };
struct Win {
	int ctxId; std::vector<int> members;
	std::vector<char*> base; std::vector<long> size; std::vector<int> unit;
	std::vector<int> excl; std::vector<int> shared;             // per target: holder / count
	std::map<std::pair<int, int>, Epoch> ep;                    // (origin, target)
	std::set<int> refs; std::map<int, void*> owned;
};
std::map<int, std::unique_ptr<Win>> wins;
int nextWin = 500;
Win* win(MPI_Win w)
{
	auto it = wins.find(w);
	if (it == wins.end() || !it->second->refs.count(me())) finish("crash use of an invalid MPI window");
	return it->second.get();
}
int wrank(Win* w) { for (size_t i = 0; i < w->members.size(); i++) if (w->members[i] == me()) return i; return -1; }
struct Mem { long size; int rank; };
std::map<void*, Mem> allocs;
std::deque<std::pair<void*, long>> freedMem;

void execOp(Win* w, int target, Op& o)
{
	Type* t = &types[o.dt];
	char* p = w->base[target] + o.disp * w->unit[target];
	long sz = t->size;
	switch (o.kind) {
	case 0: { // get
		char* q = (char*)o.result;
		if (o.tdt) { unpack(q, pack(p, o.tn, &types[o.tdt]), o.n, t); break; }
		for (int i = 0; i < o.n; i++) for (auto& m : t->map) { memPoint(); memmove(q + i * t->extent + m.first, p + i * t->extent + m.first, m.second); }
		break; }
	case 1: unpack(p, o.data, o.n, t); break;
	case 2: { // accumulate family on one element
		for (int i = 0; i < o.n; i++) {
			char* q = p + i * t->extent;
			if (o.result) memmove((char*)o.result + i * sz, q, sz);
			const char* d = o.data.data() + i * sz;
			if (o.op == MPI_REPLACE) memmove(q, d, sz);
			else if (o.op == MPI_NO_OP) {}
			else if (sz == 8) { long a, b; memmove(&a, q, 8); memmove(&b, d, 8); a = o.op == MPI_SUM ? a + b : o.op == MPI_MAX ? std::max(a, b) : o.op == MPI_MIN ? std::min(a, b) : o.op == MPI_BOR ? (a | b) : (a & b); memmove(q, &a, 8); }
			else { int a, b; memmove(&a, q, 4); memmove(&b, d, 4); a = o.op == MPI_SUM ? a + b : o.op == MPI_MAX ? std::max(a, b) : o.op == MPI_MIN ? std::min(a, b) : o.op == MPI_BOR ? (a | b) : (a & b); memmove(q, &a, 4); }
		}
		break; }
	case 3: { // compare and swap
		memmove(o.result, p, sz);
		if (memcmp(p, o.cmp.data(), sz) == 0) memmove(p, o.data.data(), sz);
		break; }
	}
}
void drain(Win* w, int target, Epoch& e, bool localOnly)
{
	// accumulate operations keep their order, everything else completes in any order
	while (true) {
		std::vector<size_t> cand;
		bool accSeen = false;
		for (size_t i = 0; i < e.ops.size(); i++) {
			bool acc = e.ops[i].kind >= 2;
			if (localOnly && e.ops[i].kind == 1 && chance(500, 1000)) continue;   // Put may stay pending
			if (acc && accSeen) continue;
			if (acc) accSeen = true;
			cand.push_back(i);
		}
		if (cand.empty()) {
			bool need = false;
			for (auto& o : e.ops) if (o.kind != 1) need = true;
			if (!localOnly && !e.ops.empty()) continue;
			if (need) continue;
			return;
		}
		size_t k = cand[rnd(cand.size())];
		Op o = e.ops[k];
		e.ops.erase(e.ops.begin() + k);
		execOp(w, target, o);
	}
}
int rma(MPI_Win wh, int target, Op o, MPI_Aint bytes)
{
	Win* w = win(wh);
	type(o.dt, true);
	if (target < 0 || target >= (int)w->members.size()) finish(stringf("crash RMA to invalid rank %d", target));
	Epoch& e = w->ep[{wrank(w), target}];
	if (!e.open) { flag("RMA operation outside of an access epoch"); }
	else if (e.fiber != -1 && cur && e.fiber != cur->id) flag("RMA operation in another thread's access epoch");
	long from = o.disp * w->unit[target];
	if (from < 0 || from + bytes > w->size[target]) finish(stringf("crash RMA access out of bounds (%ld+%ld of %ld)", from, (long)bytes, w->size[target]));
	if (chance(cfg.rmalazy, 1000)) {
		if (o.kind == 0) poison(o.result, o.n, &types[o.dt]);
		else if (o.result) memset(o.result, 0xAB, types[o.dt].size * std::max(1, o.n));
		e.ops.push_back(o);
	} else {
		// accumulates must not overtake pending ones
		if (o.kind >= 2) { e.ops.push_back(o); std::deque<Op> rest; for (auto& q : e.ops) if (q.kind >= 2) execOp(w, target, q); else rest.push_back(q); e.ops.swap(rest); }
		else execOp(w, target, o);
	}
	return MPI_SUCCESS;
}
struct Group { bool live; std::vector<int> members; int owner; };
std::deque<Group> groups(1);
std::vector<std::pair<Ctx*, Msg>> matched;
bool reqDone(MPI_Request r)
{
	if (r < 0 || r >= (int)reqs.size() || !reqs[r]) finish("crash invalid MPI request");
	Req* q = reqs[r];
	if (q->rank != me()) flag("MPI request of another process");
	if (q->rma) { Win* w = win(q->rma); q->rma = 0; drain(w, q->target, w->ep[{wrank(w), q->target}], true); q->done = true; }
	return q->done;
}
}

extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int req, int* prov) { if (prov) *prov = req; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Abort(MPI_Comm, int) { finish("crash MPI_Abort"); }

int MPI_Comm_rank(MPI_Comm c, int* r) { *r = ctx(c)->rankOf(me()); return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = (int)ctx(c)->members.size(); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { return (MPI_Comm)f; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return (MPI_Fint)c; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out)
{
	Guard g("MPI_Comm_dup");
	if (failNow()) return MPI_ERR_OTHER;
	Ctx* x = ctx(c);
	Coll& k = collEnter(x, "dup");
	if (!k.newCtx) k.newCtx = newCtx(x->members);
	collWait(x, k, "MPI_Comm_dup");
	*out = k.newCtx;
	return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out)
{
	Guard g("MPI_Comm_split");
	if (failNow()) return MPI_ERR_OTHER;
	Ctx* x = ctx(c);
	int r = x->rankOf(me());
	Coll& k = collEnter(x, "split");
	if (color < 0 && color != MPI_UNDEFINED) flag("negative color in MPI_Comm_split");
	k.a[r] = color; k.b[r] = key;
	collWait(x, k, "MPI_Comm_split");
	if (!k.fin) {
		k.fin = true;
		std::set<long> colors;
		for (auto& p : k.a) if (p.second != MPI_UNDEFINED) colors.insert(p.second);
		for (long col : colors) {
			std::vector<std::pair<long, int>> m;
			for (auto& p : k.a) if (p.second == col) m.push_back({k.b[p.first], p.first});
			std::sort(m.begin(), m.end());
			std::vector<int> mem;
			for (auto& p : m) mem.push_back(x->members[p.second]);
			int id = newCtx(mem);
			for (auto& p : m) k.split[p.second] = id;
		}
	}
	*out = k.split.count(r) ? k.split[r] : MPI_COMM_NULL;
	return 0;
}
int MPI_Comm_free(MPI_Comm* c)
{
	Guard g("MPI_Comm_free");
	Ctx* x = ctx(*c);
	if (*c < 100) finish("crash free of a predefined communicator");
	int r = x->rankOf(me());
	if (!x->posted[r].empty()) flag("MPI_Comm_free with pending receives");
	x->refs.erase(me());
	*c = MPI_COMM_NULL;
	return 0;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group* out)
{
	Guard g("MPI_Comm_group");
	Ctx* x = ctx(c);
	groups.push_back(Group{true, x->members, me()});
	*out = (int)groups.size() - 1;
	return 0;
}
int MPI_Group_free(MPI_Group* gr) { Guard g("MPI_Group_free"); if (*gr <= 0 || *gr >= (int)groups.size() || !groups[*gr].live) finish("crash invalid MPI group"); groups[*gr].live = false; *gr = MPI_GROUP_NULL; return 0; }
int MPI_Group_size(MPI_Group gr, int* s) { *s = (int)groups[gr].members.size(); return 0; }
int MPI_Group_rank(MPI_Group gr, int* r) { *r = MPI_UNDEFINED; for (size_t i = 0; i < groups[gr].members.size(); i++) if (groups[gr].members[i] == me()) *r = i; return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* ra, MPI_Group b, int* rb)
{
	Guard g("MPI_Group_translate_ranks");
	if (a <= 0 || b <= 0 || a >= (int)groups.size() || b >= (int)groups.size() || !groups[a].live || !groups[b].live) finish("crash invalid MPI group");
	for (int i = 0; i < n; i++) {
		if (ra[i] < 0 || ra[i] >= (int)groups[a].members.size()) finish("crash MPI_Group_translate_ranks: invalid rank");
		rb[i] = MPI_UNDEFINED;
		for (size_t k = 0; k < groups[b].members.size(); k++) if (groups[b].members[k] == groups[a].members[ra[i]]) rb[i] = k;
	}
	return 0;
}
int MPI_Barrier(MPI_Comm c)
{
	Guard g("MPI_Barrier");
	Ctx* x = ctx(c);
	collWait(x, collEnter(x, "barrier"), "MPI_Barrier");
	return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype dt, int root, MPI_Comm c)
{
	Guard g("MPI_Bcast");
	Ctx* x = ctx(c); Type* t = type(dt, true);
	Coll& k = collEnter(x, "bcast", root);
	if (x->rankOf(me()) == root) { k.data[root] = pack(b, n, t); k.fin = true; }
	else { blockUntil("MPI_Bcast", [&k] { return k.fin; }); unpack(b, k.data[root], n, t); }
	return 0;
}
}
static std::string reduceData(const std::vector<const std::string*>& parts, int n, MPI_Datatype dt, MPI_Op op, long size)
{
	std::string acc; bool first = true;
	for (auto* p : parts) {
		if (first) { acc = *p; first = false; continue; }
		if (p->size() != acc.size()) { flag("allreduce size mismatch"); continue; }
		for (int i = 0; i < n; i++) {
			#define RED(T, I) { T a, b; memcpy(&a, &acc[i * sizeof(T)], sizeof(T)); memcpy(&b, &(*p)[i * sizeof(T)], sizeof(T)); \
				switch (op) { case MPI_SUM: a = (T)(a + b); break; case MPI_PROD: a = (T)(a * b); break; case MPI_MAX: a = std::max(a, b); break; case MPI_MIN: a = std::min(a, b); break; \
				case MPI_LOR: a = (T)(a || b); break; case MPI_LAND: a = (T)(a && b); break; case MPI_LXOR: a = (T)(!a != !b); break; \
				case MPI_BOR: a = (T)((I)a | (I)b); break; case MPI_BAND: a = (T)((I)a & (I)b); break; case MPI_BXOR: a = (T)((I)a ^ (I)b); break; default: finish(stringf("crash invalid MPI operation %d in a reduction", op)); } \
				memcpy(&acc[i * sizeof(T)], &a, sizeof(T)); }
			if (dt == MPI_DOUBLE) RED(double, long) else if (dt == MPI_FLOAT) RED(float, int) else if (dt == MPI_UNSIGNED || dt == MPI_UINT32_T) RED(unsigned, unsigned) else if (size == 4) RED(int, int)
			else if (dt == MPI_UNSIGNED_LONG || dt == MPI_UINT64_T || dt == MPI_UNSIGNED_LONG_LONG) RED(unsigned long, unsigned long) else if (size == 8) RED(long, long)
			else if (dt == MPI_UNSIGNED_CHAR || dt == MPI_BYTE || dt == MPI_UINT8_T || dt == MPI_CXX_BOOL || dt == MPI_C_BOOL) RED(unsigned char, unsigned char) else if (size == 1) RED(signed char, signed char)
			else if (dt == MPI_UNSIGNED_SHORT || dt == MPI_UINT16_T) RED(unsigned short, unsigned short) else RED(short, short)
		}
	}
	return acc;
}
extern "C" {
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c)
{
	Guard g("MPI_Allreduce");
	Ctx* x = ctx(c); Type* t = type(dt, true);
	Coll& k = collEnter(x, "allreduce");
	k.data[x->rankOf(me())] = pack(s == MPI_IN_PLACE ? r : s, n, t);
	collWait(x, k, "MPI_Allreduce");
	std::vector<const std::string*> parts;
	for (auto& p : k.data) parts.push_back(&p.second);
	unpack(r, reduceData(parts, n, dt, op, t->size), n, t);
	return 0;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm c)
{
	Guard g("MPI_Reduce");
	Ctx* x = ctx(c); Type* t = type(dt, true); int rk = x->rankOf(me());
	Coll& k = collEnter(x, "reduce", root);
	k.data[rk] = pack(s == MPI_IN_PLACE ? r : s, n, t);
	if (rk != root) { k.arrived.insert(rk); return 0; }
	collWait(x, k, "MPI_Reduce");
	std::vector<const std::string*> parts;
	for (auto& p : k.data) parts.push_back(&p.second);
	unpack(r, reduceData(parts, n, dt, op, t->size), n, t);
	return 0;
}
static int scanImpl(const char* name, bool excl, const void* s, void* r, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c)
{
	Guard g(name);
	Ctx* x = ctx(c); Type* t = type(dt, true); int rk = x->rankOf(me());
	Coll& k = collEnter(x, excl ? "exscan" : "scan");
	k.data[rk] = pack(s == MPI_IN_PLACE ? r : s, n, t); k.arrived.insert(rk);
	blockUntil(name, [&k, rk] { for (int i = 0; i < rk; i++) if (!k.arrived.count(i)) return false; return true; });
	std::vector<const std::string*> parts;
	for (auto& p : k.data) if (p.first < rk || (p.first == rk && !excl)) parts.push_back(&p.second);
	if (!parts.empty()) unpack(r, reduceData(parts, n, dt, op, t->size), n, t);
	return 0;
}
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c) { return scanImpl("MPI_Scan", false, s, r, n, dt, op, c); }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c) { return scanImpl("MPI_Exscan", true, s, r, n, dt, op, c); }
static int gatherImpl(const char* name, const char* key, const void* s, int ns, MPI_Datatype ds, void* r, const int* counts, const int* displs, int nr, MPI_Datatype dr, int root, MPI_Comm c)
{
	Guard g(name);
	Ctx* x = ctx(c); int rk = x->rankOf(me());
	Coll& k = collEnter(x, key, root);
	bool recv = root < 0 || root == rk;
	Type* tr = recv ? type(dr, true) : nullptr;
	auto at = [&](int i) { return (char*)r + (displs ? (long)displs[i] : (long)i * nr) * tr->extent; };
	auto cnt = [&](int i) { return counts ? counts[i] : nr; };
	k.data[rk] = s == MPI_IN_PLACE && recv ? pack(at(rk), cnt(rk), tr) : pack(s, ns, type(ds, true));
	if (!recv) { k.arrived.insert(rk); return 0; }
	collWait(x, k, name);
	for (auto& p : k.data) {
		if ((long)p.second.size() > cnt(p.first) * tr->size) { flag("gather truncation"); p.second.resize(cnt(p.first) * tr->size); }
		unpack(at(p.first), p.second, cnt(p.first), tr);
	}
	return 0;
}
int MPI_Gather(const void* s, int ns, MPI_Datatype ds, void* r, int nr, MPI_Datatype dr, int root, MPI_Comm c) { return gatherImpl("MPI_Gather", "gather", s, ns, ds, r, nullptr, nullptr, nr, dr, root, c); }
int MPI_Gatherv(const void* s, int ns, MPI_Datatype ds, void* r, const int* nr, const int* d, MPI_Datatype dr, int root, MPI_Comm c) { return gatherImpl("MPI_Gatherv", "gatherv", s, ns, ds, r, nr, d, 0, dr, root, c); }
int MPI_Allgatherv(const void* s, int ns, MPI_Datatype ds, void* r, const int* nr, const int* d, MPI_Datatype dr, MPI_Comm c) { return gatherImpl("MPI_Allgatherv", "allgatherv", s, ns, ds, r, nr, d, 0, dr, -1, c); }
int MPI_Scatter(const void* s, int ns, MPI_Datatype ds, void* r, int nr, MPI_Datatype dr, int root, MPI_Comm c)
{
	Guard g("MPI_Scatter");
	Ctx* x = ctx(c); int rk = x->rankOf(me());
	Coll& k = collEnter(x, "scatter", root);
	if (rk == root) { Type* ts = type(ds, true); for (size_t i = 0; i < x->members.size(); i++) k.data[i] = pack((const char*)s + (long)i * ns * ts->extent, ns, ts); k.fin = true; }
	blockUntil("MPI_Scatter", [&k] { return k.fin; });
	if (r != MPI_IN_PLACE) unpack(r, k.data[rk], nr, type(dr, true));
	return 0;
}
int MPI_Alltoall(const void* s, int ns, MPI_Datatype ds, void* r, int nr, MPI_Datatype dr, MPI_Comm c)
{
	Guard g("MPI_Alltoall");
	Ctx* x = ctx(c); Type* ts = type(ds, true); Type* tr = type(dr, true); int rk = x->rankOf(me()), n = (int)x->members.size();
	Coll& k = collEnter(x, "alltoall");
	for (int i = 0; i < n; i++) k.data[rk * n + i] = s == MPI_IN_PLACE ? pack((char*)r + (long)i * nr * tr->extent, nr, tr) : pack((const char*)s + (long)i * ns * ts->extent, ns, ts);
	collWait(x, k, "MPI_Alltoall");
	for (int i = 0; i < n; i++) unpack((char*)r + (long)i * nr * tr->extent, k.data[i * n + rk], nr, tr);
	return 0;
}
int MPI_Allgather(const void* s, int ns, MPI_Datatype ds, void* r, int nr, MPI_Datatype dr, MPI_Comm c)
{
	Guard g("MPI_Allgather");
	Ctx* x = ctx(c); Type* ts = type(ds, true); Type* tr = type(dr, true);
	int rk = x->rankOf(me());
	Coll& k = collEnter(x, "allgather");
	k.data[rk] = s == MPI_IN_PLACE ? pack((char*)r + rk * nr * tr->extent, nr, tr) : pack(s, ns, ts);
	collWait(x, k, "MPI_Allgather");
	for (auto& p : k.data) {
		if ((long)p.second.size() > nr * tr->size) { flag("allgather truncation"); p.second.resize(nr * tr->size); }
		unpack((char*)r + p.first * nr * tr->extent, p.second, nr, tr);
	}
	return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype dt, int d, int tag, MPI_Comm c)
{
	if (d == MPI_PROC_NULL) return 0;
	Guard g("MPI_Send");
	if (cfg.eager == 1 || (cfg.eager == 2 && chance(500, 1000))) { sendMsg(c, b, n, dt, d, tag, nullptr); return 0; }
	Req* q = newReq();
	sendMsg(c, b, n, dt, d, tag, q);
	blockUntil("MPI_Send", [q] { return q->done; });
	freeReq(q);
	return 0;
}
int MPI_Ssend(const void* b, int n, MPI_Datatype dt, int d, int tag, MPI_Comm c)
{
	if (d == MPI_PROC_NULL) return 0;
	Guard g("MPI_Ssend");
	Req* q = newReq();
	sendMsg(c, b, n, dt, d, tag, q);
	blockUntil("MPI_Ssend", [q] { return q->done; });
	freeReq(q);
	return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype dt, int d, int tag, MPI_Comm c, MPI_Request* r)
{
	if (d == MPI_PROC_NULL) { *r = MPI_REQUEST_NULL; return 0; }
	Guard g("MPI_Isend");
	Req* q = newReq();
	*r = q->id;
	if (cfg.eager == 1 || (cfg.eager == 2 && chance(500, 1000))) { q->done = true; sendMsg(c, b, n, dt, d, tag, nullptr); }
	else sendMsg(c, b, n, dt, d, tag, q);
	return 0;
}
int MPI_Issend(const void* b, int n, MPI_Datatype dt, int d, int tag, MPI_Comm c, MPI_Request* r)
{
	if (d == MPI_PROC_NULL) { *r = MPI_REQUEST_NULL; return 0; }
	Guard g("MPI_Issend");
	Req* q = newReq();
	*r = q->id;
	sendMsg(c, b, n, dt, d, tag, q);
	return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype dt, int s, int tag, MPI_Comm c, MPI_Request* r)
{
	Guard g("MPI_Irecv");
	*r = recvMsg(c, b, n, dt, s, tag)->id;
	return 0;
}
int MPI_Recv(void* b, int n, MPI_Datatype dt, int s, int tag, MPI_Comm c, MPI_Status* st)
{
	Guard g("MPI_Recv");
	Req* q = recvMsg(c, b, n, dt, s, tag);
	blockUntil("MPI_Recv", [q] { return q->done; });
	setStatus(st, q->st);
	freeReq(q);
	return 0;
}
static void probeStatus(Ctx* x, int r, int k, MPI_Status* st)
{
	Msg& m = x->inbox[r][k];
	MPI_Status s{}; s.MPI_SOURCE = m.src; s.MPI_TAG = m.tag;
	s.vcount = m.sync ? (int)(m.n * types[m.dt].size) : (int)m.data.size();
	setStatus(st, s);
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status* st)
{
	Guard g("MPI_Probe");
	Ctx* x = ctx(c); int r = x->rankOf(me());
	blockUntil("MPI_Probe", [=] { return anyMsg(x, r, s, tag); });
	probeStatus(x, r, findMsg(x, r, s, tag), st);
	return 0;
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int* f, MPI_Status* st)
{
	int k; 
	{
		Guard g("MPI_Iprobe");
		Ctx* x = ctx(c); int r = x->rankOf(me());
		progress(x, r);
		k = findMsg(x, r, s, tag);
		*f = k >= 0;
		if (k >= 0) probeStatus(x, r, k, st);
	}
	if (k < 0) yieldTo();
	return 0;
}
int MPI_Test(MPI_Request* r, int* f, MPI_Status* st)
{
	{
		Guard g("MPI_Test");
		if (*r == MPI_REQUEST_NULL) { *f = 1; return 0; }
		if (*r < 0 || *r >= (int)reqs.size() || !reqs[*r]) finish("crash invalid MPI request");
		Req* q = reqs[*r];
		reqDone(*r);
		if (q->done) { *f = 1; setStatus(st, q->st); freeReq(q); *r = MPI_REQUEST_NULL; return 0; }
		*f = 0;
	}
	yieldTo();
	return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status* st)
{
	Guard g("MPI_Wait");
	if (*r == MPI_REQUEST_NULL) return 0;
	if (*r < 0 || *r >= (int)reqs.size() || !reqs[*r]) finish("crash invalid MPI request");
	Req* q = reqs[*r];
	reqDone(*r);
	blockUntil("MPI_Wait", [q] { return q->done; });
	setStatus(st, q->st);
	freeReq(q); *r = MPI_REQUEST_NULL;
	return 0;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) { for (int i = 0; i < n; i++) MPI_Wait(&r[i], st ? &st[i] : nullptr); return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype dt, int* n) { Type* t = type(dt, false); *n = t->size ? (int)(s->vcount / t->size) : 0; return 0; }

int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* out)
{
	Guard g("MPI_Alloc_mem");
	if (failNow()) return MPI_ERR_OTHER;
	char* p = (char*)sim::hugeAlloc(n + 64);
	if (n <= HUGE_MEM) memset(p, 0xCD, n);
	memset(p + n, 0x5A, 64);
	allocs[p] = Mem{(long)n, me()};
	*(void**)out = p;
	return 0;
}
int MPI_Free_mem(void* p)
{
	Guard g("MPI_Free_mem");
	auto it = allocs.find(p);
	if (it == allocs.end()) finish("crash MPI_Free_mem of memory that is not allocated");
	for (auto& w : wins) for (size_t i = 0; i < w.second->members.size(); i++)
		if (w.second->refs.count(w.second->members[i]) && w.second->members[i] == me() && w.second->base[i] == p && w.second->size[i] > 0) flag("MPI_Free_mem of memory that is still in a window");
	for (int i = 0; i < 64; i++) if (((unsigned char*)p)[it->second.size + i] != 0x5A) { flag("write past the end of MPI memory"); break; }
	if (it->second.size > (long)HUGE_MEM) hugeFree(p, it->second.size + 64);
	else memset(p, 0xDD, it->second.size);
	allocs.erase(it);       // deliberately not returned to the heap: stays poisoned
	return 0;
}
int MPI_Get_processor_name(char* name, int* len)
{
	int k = procName[me()];
	const std::string M(MPI_MAX_PROCESSOR_NAME - 2, 'x');
	std::string s = k == 50 ? "nodeaca" : k == 51 ? "nodebab" : k == 52 ? "n" : k == 53 ? M + "x" : k == 54 ? M + "y" : k == 55 ? M : k == 56 ? "y" + M : k == 57 ? "host01"
		: k == 58 ? "Host1" : k == 59 ? "nodeaca.example.org" : k == 60 ? "nodebab.example.org" : k == 61 ? "host" : k == 62 ? "host1 " : k == 63 ? M.substr(0, 100) + "aca" : k == 64 ? M.substr(0, 100) + "bab" : k == 65 ? "nodeaBBa" : k == 66 ? "nodeAbbA" : k == 67 ? "node a" : k == 68 ? "node b"
		: k >= 1000 ? "rack" + std::to_string(k / 100) + "-" + std::to_string(k % 100) : stringf("host%d", k);
	if (k >= 2000) { s = "node-rack.cluster.example.org-0123456789"; s.replace((k - 2000) / 10, 3, k % 10 ? "bab" : "aca"); }      // pairs with the same sums
	strcpy(name, s.c_str());
	*len = (int)s.size();
	return 0;
}
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* out)
{
	Guard g("MPI_Type_contiguous");
	if (failNow()) return MPI_ERR_OTHER;
	Type b = *type(o, false); Type t;
	t.size = b.size * n; t.extent = b.extent * n;
	for (int i = 0; i < n; i++) for (auto& m : b.map) t.map.push_back({m.first + i * b.extent, m.second});
	*out = newType(t);
	return 0;
}
int MPI_Type_create_struct(int n, const int* bl, const MPI_Aint* disp, const MPI_Datatype* ty, MPI_Datatype* out)
{
	Guard g("MPI_Type_create_struct");
	if (failNow()) return MPI_ERR_OTHER;
	Type t; long ub = 0;
	for (int i = 0; i < n; i++) {
		Type b = *type(ty[i], false);
		for (int k = 0; k < bl[i]; k++) { for (auto& m : b.map) t.map.push_back({disp[i] + k * b.extent + m.first, m.second}); t.size += b.size; ub = std::max(ub, (long)disp[i] + (k + 1) * b.extent); }
	}
	long al = 1;             // the extent is rounded up to the alignment of the members
	for (auto& m : t.map) al = std::max(al, (long)m.second);
	t.extent = (ub + al - 1) / al * al;
	*out = newType(t);
	return 0;
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ext, MPI_Datatype* out)
{
	Guard g("MPI_Type_create_resized");
	if (failNow()) return MPI_ERR_OTHER;
	Type t = *type(o, false);
	(void)lb;
	t.extent = ext;
	*out = newType(t);
	return 0;
}
int MPI_Type_commit(MPI_Datatype* t) { Guard g("MPI_Type_commit"); if (failNow()) return MPI_ERR_OTHER; type(*t, false)->committed = true; return 0; }
int MPI_Type_free(MPI_Datatype* t)
{
	Guard g("MPI_Type_free");
	if (type(*t, false)->builtin) finish("crash free of a predefined MPI datatype");
	types[*t].live = false; *t = MPI_DATATYPE_NULL; return 0;
}
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)type(t, false)->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { *lb = 0; *e = type(t, false)->extent; return 0; }

int MPI_Win_create(void* base, MPI_Aint size, int unit, MPI_Info, MPI_Comm c, MPI_Win* out)
{
	Guard g("MPI_Win_create");
	if (failNow()) return MPI_ERR_OTHER;
	Ctx* x = ctx(c);
	int r = x->rankOf(me());
	Coll& k = collEnter(x, "win_create");
	if (!k.newCtx) {
		k.newCtx = nextWin++;
		Win* w = new Win;
		w->ctxId = canon(c); w->members = x->members;
		size_t n = x->members.size();
		w->base.resize(n); w->size.resize(n); w->unit.resize(n); w->excl.assign(n, -1); w->shared.assign(n, 0);
		wins[k.newCtx].reset(w);
	}
	Win* w = wins[k.newCtx].get();
	w->base[r] = (char*)base; w->size[r] = size; w->unit[r] = unit;
	w->refs.insert(me());
	collWait(x, k, "MPI_Win_create");
	*out = k.newCtx;
	return 0;
}
int MPI_Win_free(MPI_Win* h)
{
	Guard g("MPI_Win_free");
	Win* w = win(*h);
	int r = wrank(w);
	for (auto& e : w->ep) if (e.first.first == r && e.second.open) flag("MPI_Win_free with an open access epoch");
	auto it = ctxs.find(w->ctxId);
	if (it == ctxs.end() || !it->second->refs.count(me())) { /* communicator already freed: allowed by MPI */ }
	// implies a barrier
	static std::map<int, std::set<int>> arrived;
	int id = *h;
	arrived[id].insert(r);
	size_t n = w->members.size();
	blockUntil("MPI_Win_free", [id, n] { return arrived[id].size() == n; });
	w->refs.erase(me());
	if (w->owned.count(r)) { void* p = w->owned[r]; w->owned.erase(r); MPI_Free_mem(p); }
	*h = MPI_WIN_NULL;
	return 0;
}
int MPI_Win_lock(int type, int target, int as, MPI_Win h)
{
	Guard g("MPI_Win_lock");
	Win* w = win(h);
	int r = wrank(w);
	if (target < 0 || target >= (int)w->members.size()) finish(stringf("crash MPI_Win_lock of invalid rank %d", target));
	Epoch& e = w->ep[{r, target}];
	if (e.open) { flag("MPI_Win_lock: target already locked by this process"); blockUntil("MPI_Win_lock(nested)", [&e] { return !e.open; }); }
	bool nocheck = as & MPI_MODE_NOCHECK;
	e.open = true; e.type = type; e.nocheck = nocheck; e.fiber = cur ? cur->id : -1;
	if (!nocheck) {
		if (type == MPI_LOCK_EXCLUSIVE) { blockUntil("MPI_Win_lock", [w, target] { return w->excl[target] < 0 && w->shared[target] == 0; }); w->excl[target] = r; }
		else { blockUntil("MPI_Win_lock", [w, target] { return w->excl[target] < 0; }); w->shared[target]++; }
	} else if (type == MPI_LOCK_EXCLUSIVE ? (w->excl[target] >= 0 || w->shared[target]) : w->excl[target] >= 0)
		flag("MPI_MODE_NOCHECK used while a conflicting lock is held");
	return 0;
}
int MPI_Win_unlock(int target, MPI_Win h)
{
	Guard g("MPI_Win_unlock");
	Win* w = win(h);
	int r = wrank(w);
	if (target < 0 || target >= (int)w->members.size()) finish(stringf("crash MPI_Win_unlock of invalid rank %d", target));
	Epoch& e = w->ep[{r, target}];
	if (!e.open) { flag("MPI_Win_unlock of a target that is not locked"); return 0; }
	drain(w, target, e, false);
	if (!e.nocheck) { if (e.type == MPI_LOCK_EXCLUSIVE) w->excl[target] = -1; else w->shared[target]--; }
	e.open = false;
	return 0;
}
int MPI_Win_lock_all(int as, MPI_Win h) { Win* w = win(h); for (size_t i = 0; i < w->members.size(); i++) MPI_Win_lock(MPI_LOCK_SHARED, i, as, h); return 0; }
int MPI_Win_unlock_all(MPI_Win h) { Win* w = win(h); for (size_t i = 0; i < w->members.size(); i++) MPI_Win_unlock(i, h); return 0; }
static int flushImpl(int t, MPI_Win h, bool local)
{
	Win* w = win(h);
	Epoch& e = w->ep[{wrank(w), t}];
	if (!e.open) { flag("MPI_Win_flush outside of an access epoch"); return 0; }
	drain(w, t, e, local);
	return 0;
}
int MPI_Win_flush(int t, MPI_Win h) { Guard g("MPI_Win_flush"); return flushImpl(t, h, false); }
int MPI_Win_flush_local(int t, MPI_Win h) { Guard g("MPI_Win_flush_local"); return flushImpl(t, h, true); }
int MPI_Win_flush_all(MPI_Win h) { Guard g("MPI_Win_flush_all"); Win* w = win(h); for (size_t i = 0; i < w->members.size(); i++) if (w->ep[{wrank(w), (int)i}].open) flushImpl(i, h, false); return 0; }
int MPI_Win_flush_local_all(MPI_Win h) { Guard g("MPI_Win_flush_local_all"); Win* w = win(h); for (size_t i = 0; i < w->members.size(); i++) if (w->ep[{wrank(w), (int)i}].open) flushImpl(i, h, true); return 0; }
int MPI_Win_sync(MPI_Win h) { win(h); return 0; }
static long span(MPI_Datatype dt, int n) { Type* t = type(dt, true); long hi = 0; for (auto& m : t->map) hi = std::max(hi, m.first + m.second); return n <= 0 ? 0 : (n - 1) * t->extent + hi; }
int MPI_Get(void* b, int n, MPI_Datatype dt, int t, MPI_Aint disp, int tn, MPI_Datatype tdt, MPI_Win h)
{
	Guard g("MPI_Get");
	if (n * type(dt, true)->size != tn * type(tdt, true)->size) flag("MPI_Get: sizes differ");
	Op o{0, b, "", n, dt, disp, 0, ""};
	if (dt != tdt) { o.tn = tn; o.tdt = tdt; }
	return rma(h, t, o, span(tdt, tn));
}
int MPI_Put(const void* b, int n, MPI_Datatype dt, int t, MPI_Aint disp, int tn, MPI_Datatype tdt, MPI_Win h)
{
	Guard g("MPI_Put");
	if (n * type(dt, true)->size != tn * type(tdt, true)->size) flag("MPI_Put: sizes differ");
	Op o{1, nullptr, pack(b, n, type(dt, true)), tn, tdt, disp, 0, ""};
	return rma(h, t, o, span(tdt, tn));
}
int MPI_Accumulate(const void* b, int n, MPI_Datatype dt, int t, MPI_Aint disp, int, MPI_Datatype, MPI_Op op, MPI_Win h)
{
	Guard g("MPI_Accumulate");
	Op o{2, nullptr, pack(b, n, type(dt, true)), n, dt, disp, op, ""};
	return rma(h, t, o, span(dt, n));
}
int MPI_Fetch_and_op(const void* b, void* res, MPI_Datatype dt, int t, MPI_Aint disp, MPI_Op op, MPI_Win h)
{
	Guard g("MPI_Fetch_and_op");
	Op o{2, res, op == MPI_NO_OP ? std::string(type(dt, true)->size, 0) : pack(b, 1, type(dt, true)), 1, dt, disp, op, ""};
	return rma(h, t, o, span(dt, 1));
}
int MPI_Compare_and_swap(const void* b, const void* cmp, void* res, MPI_Datatype dt, int t, MPI_Aint disp, MPI_Win h)
{
	Guard g("MPI_Compare_and_swap");
	Op o{3, res, pack(b, 1, type(dt, true)), 1, dt, disp, 0, pack(cmp, 1, type(dt, true))};
	return rma(h, t, o, span(dt, 1));
}

int MPI_Get_accumulate(const void* b, int n, MPI_Datatype dt, void* res, int rn, MPI_Datatype rdt, int t, MPI_Aint disp, int, MPI_Datatype tdt, MPI_Op op, MPI_Win h)
{
	Guard g("MPI_Get_accumulate");
	if (op == MPI_NO_OP) { n = rn; dt = rdt; }
	if (dt != tdt || rdt != tdt) flag("MPI_Get_accumulate with different datatypes");
	Op o{2, res, op == MPI_NO_OP ? std::string(type(dt, true)->size * n, 0) : pack(b, n, type(dt, true)), n, dt, disp, op, ""};
	return rma(h, t, o, span(dt, n));
}
int MPI_Win_fence(int, MPI_Win h)
{
	Guard g("MPI_Win_fence");
	(void)win(h);
	finish("crash MPI_Win_fence is not supported by the simulation");
}
int MPI_Win_allocate(MPI_Aint size, int unit, MPI_Info info, MPI_Comm c, void* base, MPI_Win* out)
{
	void* p = nullptr;
	int e = MPI_Alloc_mem(size, info, &p);
	if (e) size = 0;
	int f = MPI_Win_create(p, size, unit, info, c, out);
	if (e || f) return MPI_ERR_OTHER;
	*(void**)base = p;
	wins[*out]->owned[wrank(wins[*out].get())] = p;
	return 0;
}
int MPI_Win_get_group(MPI_Win h, MPI_Group* out) { Guard g("MPI_Win_get_group"); groups.push_back(Group{true, win(h)->members, me()}); *out = (int)groups.size() - 1; return 0; }
int MPI_Win_set_errhandler(MPI_Win h, MPI_Errhandler) { win(h); return 0; }
int MPI_Win_set_name(MPI_Win h, const char*) { win(h); return 0; }
int MPI_Win_get_attr(MPI_Win h, int key, void* val, int* flagOut)
{
	Win* w = win(h); int r = wrank(w); *flagOut = 1;
	if (key == MPI_WIN_BASE) *(void**)val = w->base[r];
	else if (key == MPI_WIN_SIZE) *(void**)val = &w->size[r];
	else if (key == MPI_WIN_DISP_UNIT) *(void**)val = &w->unit[r];
	else *flagOut = 0;
	return 0;
}
// request based operations: the request completes with the operation
int MPI_Rget(void* b, int n, MPI_Datatype dt, int t, MPI_Aint disp, int tn, MPI_Datatype tdt, MPI_Win h, MPI_Request* r)
{
	int e = MPI_Get(b, n, dt, t, disp, tn, tdt, h);
	Req* q = newReq(); *r = q->id; q->rma = h; q->target = t;
	return e;
}
int MPI_Rput(const void* b, int n, MPI_Datatype dt, int t, MPI_Aint disp, int tn, MPI_Datatype tdt, MPI_Win h, MPI_Request* r)
{
	int e = MPI_Put(b, n, dt, t, disp, tn, tdt, h);
	Req* q = newReq(); *r = q->id; q->done = true;
	return e;
}
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Is_thread_main(int* f) { *f = 1; return 0; }
int MPI_Get_version(int* v, int* s) { *v = MPI_VERSION; *s = MPI_SUBVERSION; return 0; }
double MPI_Wtime(void) { return steps * 1e-6; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Error_string(int e, char* s, int* n) { strcpy(s, e ? "simulated MPI error" : "no error"); *n = (int)strlen(s); return 0; }
int MPI_Error_class(int e, int* c) { *c = e; return 0; }
int MPI_Errhandler_free(MPI_Errhandler* e) { *e = 0; return 0; }
int MPI_Info_create(MPI_Info* i) { *i = 1; return 0; }
int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; }
int MPI_Info_free(MPI_Info* i) { *i = MPI_INFO_NULL; return 0; }
int MPI_Comm_get_attr(MPI_Comm c, int key, void* val, int* f) { static int ub = 0x7fffffff; ctx(c); *f = key == MPI_TAG_UB; if (*f) *(void**)val = &ub; return 0; }
int MPI_Comm_get_errhandler(MPI_Comm c, MPI_Errhandler* e) { ctx(c); *e = MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_Comm_set_name(MPI_Comm c, const char*) { ctx(c); return 0; }
int MPI_Comm_get_name(MPI_Comm c, char* s, int* n) { ctx(c); strcpy(s, "comm"); *n = 4; return 0; }
int MPI_Comm_test_inter(MPI_Comm c, int* f) { ctx(c); *f = 0; return 0; }
static int compareRanks(const std::vector<int>& a, const std::vector<int>& b)
{
	if (a == b) return MPI_CONGRUENT;
	return std::set<int>(a.begin(), a.end()) == std::set<int>(b.begin(), b.end()) && a.size() == b.size() ? MPI_SIMILAR : MPI_UNEQUAL;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* res) { Guard g("MPI_Comm_compare"); Ctx *x = ctx(a), *y = ctx(b); *res = x == y ? MPI_IDENT : compareRanks(x->members, y->members); return 0; }
int MPI_Group_compare(MPI_Group a, MPI_Group b, int* res) { int k = compareRanks(groups[a].members, groups[b].members); *res = k == MPI_CONGRUENT ? MPI_IDENT : k; return 0; }
int MPI_Group_incl(MPI_Group a, int n, const int* r, MPI_Group* out) { Group q{true, {}, me()}; for (int i = 0; i < n; i++) q.members.push_back(groups[a].members.at(r[i])); groups.push_back(q); *out = (int)groups.size() - 1; return 0; }
int MPI_Group_excl(MPI_Group a, int n, const int* r, MPI_Group* out) { Group q{true, {}, me()}; for (size_t i = 0; i < groups[a].members.size(); i++) if (std::find(r, r + n, (int)i) == r + n) q.members.push_back(groups[a].members[i]); groups.push_back(q); *out = (int)groups.size() - 1; return 0; }
int MPI_Comm_create(MPI_Comm c, MPI_Group gr, MPI_Comm* out)
{
	auto& m = groups[gr].members;
	int pos = (int)(std::find(m.begin(), m.end(), me()) - m.begin());
	return MPI_Comm_split(c, pos < (int)m.size() ? 0 : MPI_UNDEFINED, pos, out);
}
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm* out)
{
	// processes with the same processor name share memory
	int col = procName[me()];
	return MPI_Comm_split(c, col < 0 ? 0 : col, key, out);
}
int MPI_Sendrecv(const void* b, int n, MPI_Datatype dt, int d, int tag, void* rb, int rn, MPI_Datatype rdt, int s, int rtag, MPI_Comm c, MPI_Status* st)
{
	MPI_Request r[2];
	MPI_Irecv(rb, rn, rdt, s, rtag, c, &r[0]);
	MPI_Isend(b, n, dt, d, tag, c, &r[1]);
	MPI_Wait(&r[0], st);
	return MPI_Wait(&r[1], MPI_STATUS_IGNORE);
}
int MPI_Rsend(const void* b, int n, MPI_Datatype dt, int d, int tag, MPI_Comm c) { return MPI_Send(b, n, dt, d, tag, c); }
int MPI_Irsend(const void* b, int n, MPI_Datatype dt, int d, int tag, MPI_Comm c, MPI_Request* r) { return MPI_Isend(b, n, dt, d, tag, c, r); }
int MPI_Testany(int n, MPI_Request* r, int* idx, int* f, MPI_Status* st)
{
	bool any = false;
	{
		Guard g("MPI_Testany");
		for (int i = 0; i < n; i++) {
			if (r[i] == MPI_REQUEST_NULL) continue;
			any = true;
			if (reqDone(r[i])) { Req* q = reqs[r[i]]; setStatus(st, q->st); freeReq(q); r[i] = MPI_REQUEST_NULL; *idx = i; *f = 1; return 0; }
		}
		*idx = MPI_UNDEFINED; *f = !any;
	}
	if (any) yieldTo();
	return 0;
}
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st)
{
	Guard g("MPI_Waitany");
	bool any = false;
	for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { any = true; reqDone(r[i]); }
	*idx = MPI_UNDEFINED;
	if (!any) return 0;
	blockUntil("MPI_Waitany", [=] { for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && reqs[r[i]]->done) return true; return false; });
	for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && reqDone(r[i])) { Req* q = reqs[r[i]]; setStatus(st, q->st); freeReq(q); r[i] = MPI_REQUEST_NULL; *idx = i; break; }
	return 0;
}
int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* st)
{
	{
		Guard g("MPI_Testall");
		*f = 1;
		for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !reqDone(r[i])) *f = 0;
	}
	if (*f) return MPI_Waitall(n, r, st);
	yieldTo();
	return 0;
}
int MPI_Request_free(MPI_Request* r) { Guard g("MPI_Request_free"); if (*r <= 0 || *r >= (int)reqs.size() || !reqs[*r]) finish("crash invalid MPI request"); reqs[*r]->rank = -1; *r = MPI_REQUEST_NULL; return 0; }
int MPI_Request_get_status(MPI_Request r, int* f, MPI_Status* st) { *f = r == MPI_REQUEST_NULL || reqDone(r); if (*f && r != MPI_REQUEST_NULL) setStatus(st, reqs[r]->st); if (!*f) yieldTo(); return 0; }
int MPI_Cancel(MPI_Request* r)
{
	Guard g("MPI_Cancel");
	if (*r <= 0 || *r >= (int)reqs.size() || !reqs[*r]) finish("crash invalid MPI request");
	Req* q = reqs[*r];
	if (q->recv && !q->done) for (auto& p : ctxs) for (auto& d : p.second->posted) {
		auto it = std::find(d.begin(), d.end(), q);
		if (it != d.end()) { d.erase(it); q->done = true; q->st.MPI_ERROR = -1; break; }
	}
	return 0;
}
int MPI_Test_cancelled(const MPI_Status* s, int* f) { *f = s->MPI_ERROR == -1; return 0; }
int MPI_Improbe(int s, int tag, MPI_Comm c, int* f, MPI_Message* msg, MPI_Status* st)
{
	int k;
	{
		Guard g("MPI_Improbe");
		Ctx* x = ctx(c); int r = x->rankOf(me());
		progress(x, r);
		k = findMsg(x, r, s, tag);
		*f = k >= 0;
		if (k >= 0) { probeStatus(x, r, k, st); matched.push_back({x, x->inbox[r][k]}); x->inbox[r].erase(x->inbox[r].begin() + k); *msg = (int)matched.size(); }
	}
	if (k < 0) yieldTo();
	return 0;
}
int MPI_Mprobe(int s, int tag, MPI_Comm c, MPI_Message* msg, MPI_Status* st)
{
	int f = 0;
	{
		Guard g("MPI_Mprobe");
		Ctx* x = ctx(c); int r = x->rankOf(me());
		blockUntil("MPI_Mprobe", [=] { return anyMsg(x, r, s, tag); });
	}
	while (!f) MPI_Improbe(s, tag, c, &f, msg, st);
	return 0;
}
int MPI_Mrecv(void* b, int n, MPI_Datatype dt, MPI_Message* msg, MPI_Status* st)
{
	Guard g("MPI_Mrecv");
	if (*msg <= 0 || *msg > (int)matched.size() || !matched[*msg - 1].first) finish("crash invalid MPI message");
	Ctx* x = matched[*msg - 1].first; type(dt, true);
	int r = x->rankOf(me());
	x->inbox[r].push_front(matched[*msg - 1].second);
	matched[*msg - 1].first = nullptr; *msg = MPI_MESSAGE_NULL;
	Req* q = newReq(); q->recv = true; q->buf = b; q->n = n; q->dt = dt;
	deliver(x, r, 0, q);
	setStatus(st, q->st); freeReq(q);
	return 0;
}
int MPI_Get_elements(const MPI_Status* s, MPI_Datatype dt, int* n) { return MPI_Get_count(s, dt, n); }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint)p; return 0; }
static int hindexed(const char* name, int n, const std::function<int(int)>& bl, const std::function<long(int)>& disp, MPI_Datatype o, MPI_Datatype* out)
{
	Guard g(name);
	Type b = *type(o, false); Type t; long ub = 0;
	for (int i = 0; i < n; i++) for (int k = 0; k < bl(i); k++) {
		for (auto& m : b.map) t.map.push_back({disp(i) + k * b.extent + m.first, m.second});
		t.size += b.size; ub = std::max(ub, disp(i) + (k + 1) * b.extent);
	}
	t.extent = ub;
	*out = newType(t);
	return 0;
}
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype o, MPI_Datatype* out) { long e = type(o, false)->extent; return hindexed("MPI_Type_vector", n, [=](int) { return bl; }, [=](int i) { return i * st * e; }, o, out); }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype o, MPI_Datatype* out) { return hindexed("MPI_Type_create_hvector", n, [=](int) { return bl; }, [=](int i) { return i * st; }, o, out); }
int MPI_Type_indexed(int n, const int* bl, const int* d, MPI_Datatype o, MPI_Datatype* out) { long e = type(o, false)->extent; return hindexed("MPI_Type_indexed", n, [=](int i) { return bl[i]; }, [=](int i) { return d[i] * e; }, o, out); }
int MPI_Type_create_hindexed(int n, const int* bl, const MPI_Aint* d, MPI_Datatype o, MPI_Datatype* out) { return hindexed("MPI_Type_create_hindexed", n, [=](int i) { return bl[i]; }, [=](int i) { return d[i]; }, o, out); }
int MPI_Type_create_indexed_block(int n, int bl, const int* d, MPI_Datatype o, MPI_Datatype* out) { long e = type(o, false)->extent; return hindexed("MPI_Type_create_indexed_block", n, [=](int) { return bl; }, [=](int i) { return d[i] * e; }, o, out); }
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype* out) { Guard g("MPI_Type_dup"); Type t = *type(o, false); bool c = t.committed; *out = newType(t); types[*out].committed = c; return 0; }
int MPI_Type_get_true_extent(MPI_Datatype o, MPI_Aint* lb, MPI_Aint* e) { Type* t = type(o, false); long lo = t->map.empty() ? 0 : t->map[0].first, hi = 0; for (auto& m : t->map) { lo = std::min(lo, m.first); hi = std::max(hi, m.first + m.second); } *lb = lo; *e = hi - lo; return 0; }
int MPI_Type_set_name(MPI_Datatype t, const char*) { type(t, false); return 0; }
}

namespace sim {
long mpiStat(const std::string& w, int rank)
{
	long n = 0;
	if (w == "live_comm") { for (auto& p : ctxs) if (p.first >= 100 && p.second->refs.count(rank)) n++; return n; }
	if (w == "live_win") { for (auto& p : wins) if (p.second->refs.count(rank)) n++; return n; }
	if (w == "live_type") { for (auto& t : types) if (t.live && !t.builtin && t.owner == rank) n++; return n; }
	if (w == "live_group") { for (auto& g : groups) if (g.live && g.owner == rank) n++; return n; }
	if (w == "live_request") { for (auto* q : reqs) if (q && q->rank == rank) n++; return n; }
	if (w == "live_mpimem") { for (auto& p : allocs) if (p.second.rank == rank) n++; return n; }
	if (w == "mpi_calls") return mpiCalls[rank];
	if (w == "unreceived") { for (auto& p : ctxs) { int r = p.second->rankOf(rank); if (r >= 0) n += p.second->inbox[r].size(); } return n; }
	return -1;
}
void setMpiFail(long v) { mpiFail[me()] = v; }
void setProcName(long v) { procName[me()] = (int)v; }
static void progressAll() { for (auto& p : ctxs) for (size_t i = 0; i < p.second->members.size(); i++) if (!p.second->posted[i].empty()) progress(p.second.get(), i); }
void mpiTick() { if (anyHidden) progressAll(); }
bool mpiTimeSkip()
{
	uint64_t best = 0;
	for (auto& p : ctxs) for (auto& b : p.second->inbox) for (auto& m : b) if (m.visible > steps && (!best || m.visible < best)) best = m.visible;
	if (!best) return false;
	for (auto& p : ctxs) for (auto& b : p.second->inbox) for (auto& m : b) if (m.visible == best) m.visible = 0;
	progressAll();
	return true;
}
}
