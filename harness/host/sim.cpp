#include <sched.h>
#include "sim.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>

#include "verif.h"

namespace sim {

std::vector<Fiber*> fibers;
Fiber* cur = nullptr;
int nranks = 0;
Config cfg;
uint64_t steps = 0;
long memCountdown = 1L << 60;

static uint64_t rngState;
static uint64_t rngNext(uint64_t& s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ULL >> 11; }
uint64_t rnd() { return rngNext(rngState); }
static uint64_t drvState;

// ---- shared output buffer (survives a crash of the child) ----
struct Shm { volatile size_t len; volatile int events; char data[1]; };
static Shm* shm;
static size_t shmCap;
static void append(const std::string& s)
{
	if (shm->len + s.size() + 4096 > shmCap) return;
	memcpy(shm->data + shm->len, s.data(), s.size());
	shm->len += s.size();
}
static bool truncated = false;
void event(const std::string& json)
{
	if (!shm) return;
	if (shm->len + json.size() + 8192 > shmCap) {
		if (!truncated) { truncated = true; append(std::string(shm->events ? "," : "") + "{\"e\":\"truncated\"}"); shm->events = shm->events + 1; }
		return;
	}
	append((shm->events ? "," : "") + json);
	shm->events = shm->events + 1;
}
std::string stringf(const char* fmt, ...)
{
	char buf[2048];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	return buf;
}
static std::string esc(const std::string& s)
{
	std::string r;
	for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
	return r;
}
void flag(const std::string& what)
{
	event("{\"e\":\"flag\",\"what\":\"" + esc(what) + "\"}");
}
static char* verdictBuf;
void finish(const std::string& verdict)
{
	snprintf(verdictBuf, 2000, "%s", esc(verdict).c_str());
	_exit(0);
}

// ---- context switch ----
extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");

static void* schedSp;      // host context
static std::vector<long> changePoints;
static long lowPrio = 0;

void runDtors(Fiber* f);   // wraps.cpp

static void trampoline()
{
	Fiber* f = cur;
	f->result = f->fn(f->arg);
	runDtors(f);
	f->done = true;
	f->ready = nullptr;
	yieldTo();
	abort();
}

Fiber* spawn(int rank, void* (*fn)(void*), void* arg)
{
	Fiber* f = new Fiber;
	f->id = fibers.size();
	f->rank = rank;
	f->fn = fn; f->arg = arg;
	f->stackSize = 1 << 20;
	f->stack = (char*)mmap(0, f->stackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	mprotect(f->stack, 4096, PROT_NONE);
	uintptr_t top = (uintptr_t)f->stack + f->stackSize;
	top &= ~(uintptr_t)15;
	void** sp = (void**)top;
	*--sp = nullptr;               // fake return address of trampoline (alignment)
	*--sp = (void*)trampoline;
	for (int i = 0; i < 6; i++) *--sp = nullptr;
	f->sp = sp;
	f->prio = 1000000 + (long)rnd(1000000);
	f->cpu = f->node = 0;
	fibers.push_back(f);
	return f;
}

static void resampleMem()
{
	if (cfg.pm <= 0) { memCountdown = 1L << 60; return; }
	memCountdown = 1 + (long)rnd(20000 / cfg.pm + 1);
}

static bool isReady(Fiber* f)
{
	if (f->done) return false;
	if (!f->blocked) return true;
	return f->ready();
}

static int mainsLeft;

// choose the next fiber; avoid: prefer not to choose this one
static Fiber* pick(bool preferOther)
{
	if (++steps > (uint64_t)cfg.budget) {
		std::string d;
		for (Fiber* f : fibers) if (!f->done) d += stringf(" r%d.t%d:%s", f->rank, f->id, f->blocked ? f->why : "running");
		finish("noprogress" + d);
	}
	mpiTick();
	for (int attempt = 0; ; attempt++) {
		std::vector<Fiber*> cand;
		for (Fiber* f : fibers) if (isReady(f)) cand.push_back(f);
		if (cand.empty()) {
			if (mpiTimeSkip()) continue;
			std::string d;
			for (Fiber* f : fibers) if (!f->done) d += stringf(" r%d.t%d:%s", f->rank, f->id, f->blocked ? f->why : "running");
			finish("deadlock" + d);
		}
		if (cfg.pol == 1) {
			while (!changePoints.empty() && (uint64_t)changePoints.back() <= steps) {
				changePoints.pop_back();
				if (cur) cur->prio = --lowPrio;
			}
			if (preferOther && cur) cur->prio = --lowPrio;
			Fiber* best = cand[0];
			for (Fiber* f : cand) if (f->prio > best->prio) best = f;
			return best;
		}
		if (preferOther && cand.size() > 1)
			cand.erase(std::remove(cand.begin(), cand.end(), cur), cand.end());
		return cand[rnd(cand.size())];
	}
}

static void switchTo(Fiber* f)
{
	if (f == cur) return;
	Fiber* old = cur;
	cur = f;
	sim_switch(&old->sp, f->sp);
}

void yieldTo()
{
	if (!cur) return;
	Fiber* f = pick(true);
	f->blocked = false;
	switchTo(f);
}
void yield()
{
	if (!cur) return;
	if (cfg.pol == 0) {
		if ((long)(rnd() % 1000) >= cfg.pp) { if ((++steps & 1023) == 0 && steps > (uint64_t)cfg.budget) pick(false); return; }
		Fiber* f = pick(false);
		f->blocked = false;
		switchTo(f);
	} else {
		Fiber* f = pick(false);
		f->blocked = false;
		switchTo(f);
	}
}
void memYield()
{
	if (!cur) { memCountdown = 1L << 60; return; }
	resampleMem();
	Fiber* f = pick(false);
	f->blocked = false;
	switchTo(f);
	if (memCountdown > (1L << 50)) resampleMem();
}
void blockUntil(const char* why, std::function<bool()> ready)
{
	if (!cur) {
		if (!ready()) { fprintf(stderr, "block outside simulation: %s\n", why); abort(); }
		return;
	}
	while (!ready()) {
		cur->blocked = true;
		cur->why = why;
		cur->ready = ready;
		Fiber* f = pick(false);
		f->blocked = false;
		switchTo(f);
		cur->blocked = false;
	}
}

struct MainArg { void (*fn)(int, int, const char*); int rank; std::string text; };
static void* mainThunk(void* p)
{
	MainArg* a = (MainArg*)p;
	a->fn(a->rank, nranks, a->text.c_str());
	if (--mainsLeft == 0) {
		std::string extra;
		for (Fiber* f : fibers) if (!f->done && f != cur) extra += stringf(" r%d.t%d:%s", f->rank, f->id, f->blocked ? f->why : "running");
		if (!extra.empty()) event("{\"e\":\"leftover\",\"what\":\"" + esc(extra) + "\"}");
		finish("ok");
	}
	return nullptr;
}

struct Job { std::string head, text; int ranks; int idx; };

static std::vector<void*> libs;
typedef void (*RankMain)(int, int, const char*);

static void parseHead(const std::string& h, int& ranks)
{
	std::istringstream in(h);
	std::string tok;
	while (in >> tok) {
		size_t p = tok.find('=');
		if (p == std::string::npos) continue;
		std::string k = tok.substr(0, p);
		long v = atol(tok.c_str() + p + 1);
		if (k == "R") ranks = v;
		else verif_set(k.c_str(), v);
	}
}

static void crashHandler(int sig)
{
	snprintf(verdictBuf, 2000, sig == SIGALRM ? "timeout" : "crash signal %d in r%d.t%d", sig, cur ? cur->rank : -1, cur ? cur->id : -1);
	_exit(0);
}

static void child(const Job& j)
{
	static char altstack[65536];
	stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, 0);
	struct sigaction sa{}; sa.sa_handler = crashHandler; sa.sa_flags = SA_ONSTACK;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}) sigaction(s, &sa, 0);
	alarm(200);
	int ranks = 1;
	parseHead(j.head, ranks);
	nranks = ranks;
	rngState = cfg.seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
	for (int i = 0; i < 8; i++) rnd();
	drvState = cfg.seed * 0xD1342543DE82EF95ULL + 1442695040888963407ULL;
	if (cfg.pol == 1) {
		for (int i = 0; i < cfg.depth; i++) changePoints.push_back(rnd(20000));
		std::sort(changePoints.rbegin(), changePoints.rend());
	}
	mainsLeft = ranks;
	for (int r = 0; r < ranks; r++) {
		RankMain fn = (RankMain)dlsym(libs[r], "rank_main");
		if (!fn) finish("harness: no rank_main");
		spawn(r, mainThunk, new MainArg{fn, r, j.text});
	}
	Fiber host;
	resampleMem();
	cur = fibers[rnd(fibers.size())];
	sim_switch(&host.sp, cur->sp);
	_exit(3);
}
}

using namespace sim;

extern "C" {
void verif_event(const char* json) { event(json); }
int verif_rank(void) { return cur ? cur->rank : 0; }
int verif_nranks(void) { return nranks; }
int verif_thread(void) { return cur ? cur->id : -1; }
void verif_set_cpu(int cpu, int node) { if (cur) { cur->cpu = cpu; cur->node = node; } }
void verif_yield(void) { sim::yieldTo(); }
void verif_barrier(const char* name, int n)
{
	static std::map<std::string, long> count;
	long& c = count[name];
	long mine = c++, target = (mine / n + 1) * n;
	long* p = &c;
	blockUntil("driver barrier", [p, target] { return *p >= target; });
	yield();
}
void verif_await(volatile int* p, int v) { blockUntil("driver await", [p, v] { return *p >= v; }); }
unsigned verif_rand(void) { return (unsigned)(rngNext(drvState) & 0x7fffffff); }
long verif_blocked(int t) { if (t < 0 || t >= (int)fibers.size()) return -2; Fiber* f = fibers[t]; return f->done ? -1 : (f->blocked && !f->ready()) ? 1 : 0; }
void verif_set(const char* key, long v)
{
	std::string k = key;
	if (k == "seed") cfg.seed = v;
	else if (k == "pol") cfg.pol = v;
	else if (k == "pp") cfg.pp = v;
	else if (k == "pm") { cfg.pm = v; if (cur) resampleMem(); }
	else if (k == "spur") cfg.spur = v;
	else if (k == "eager") cfg.eager = v;
	else if (k == "depth") cfg.depth = v;
	else if (k == "budget") cfg.budget = v;
	else if (k == "lognc") cfg.lognc = v;
	else if (k == "logmpi") cfg.logmpi = v;
	else if (k == "rmalazy") cfg.rmalazy = v;
	else if (k == "msgdelay") cfg.msgdelay = v;
	else if (k == "maxcpu") cfg.maxcpu = v;
	else if (k == "ncfail") cfg.ncfail = v;
	else if (k == "ncfailn") setNcFail(v);
	else if (k == "mpifail") setMpiFail(v);
	else if (k == "serialmpi") cfg.serialmpi = v;
	else if (k == "touch") cfg.touch.push_back((uint64_t)v);
	else if (k == "procname") setProcName(v);
	else { fprintf(stderr, "unknown key %s\n", key); finish(std::string("harness: unknown key ") + key); }
}
long verif_stat(const char* what)
{
	std::string w = what;
	int r = cur ? cur->rank : 0;
	if (w == "live_thread") { long n = 0; for (Fiber* f : fibers) if (!f->done && f->rank == r) n++; return n; }
	if (w == "steps") return (long)steps;
	long v = mpiStat(w, r); if (v >= 0) return v;
	v = wrapStat(w, r); if (v >= 0) return v;
	v = memStat(w, r); if (v >= 0) return v;
	return -1;
}
void verif_log(int level, const char* text)
{
	if (level >= 1) event(stringf("{\"e\":\"log\",\"lvl\":%d,\"r\":%d,\"t\":%d,\"msg\":\"", level, verif_rank(), verif_thread()) + sim::esc(text) + "\"}");
}
}

int main(int argc, char** argv)
{
	std::string so, scen, out;
	int par = 8, maxRanks = 1;
	size_t cap = 8 << 20;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string a = argv[i];
		if (a == "--so") so = argv[i + 1];
		else if (a == "--scen") scen = argv[i + 1];
		else if (a == "--out") out = argv[i + 1];
		else if (a == "--par") par = atoi(argv[i + 1]);
		else if (a == "--cap") cap = atol(argv[i + 1]);
	}
	std::vector<Job> jobs;
	std::ifstream in(scen);
	std::string line;
	while (std::getline(in, line)) {
		if (line.empty()) continue;
		size_t p = line.find('|');
		Job j; j.head = line.substr(0, p); j.text = p == std::string::npos ? "" : line.substr(p + 1); j.idx = jobs.size();
		int r = 1; size_t q = j.head.find("R="); if (q != std::string::npos) r = atoi(j.head.c_str() + q + 2);
		j.ranks = r; maxRanks = std::max(maxRanks, r);
		jobs.push_back(j);
	}
	// one private copy of the library per rank
	for (int r = 0; r < maxRanks; r++) {
		std::string f = so;
		if (r > 0) {
			f = so + ".r" + std::to_string(r);
			std::ifstream src(so, std::ios::binary);
			std::string tmp = f + ".tmp" + std::to_string(getpid());
			std::ofstream dst(tmp, std::ios::binary);
			dst << src.rdbuf();
			dst.close();
			rename(tmp.c_str(), f.c_str());
		}
		void* h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
		if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 2; }
		libs.push_back(h);
	}
	FILE* fo = fopen(out.c_str(), "w");
	if (!fo) { perror("out"); return 2; }
	shmCap = cap;
	struct Slot { pid_t pid; int job; Shm* shm; char* verdict; };
	std::vector<Slot> slots(par);
	for (auto& s : slots) {
		char* m = (char*)mmap(0, cap + 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		s.pid = 0; s.shm = (Shm*)m; s.verdict = m + cap + 32768;
	}
	std::map<int, std::string> results;
	size_t next = 0, written = 0, running = 0;
	while (written < jobs.size()) {
		while (running < (size_t)par && next < jobs.size()) {
			Slot* s = nullptr;
			for (auto& t : slots) if (!t.pid) s = &t;
			s->shm->len = 0; s->shm->events = 0; s->verdict[0] = 0;
			s->job = next;
			fflush(fo); fflush(stderr); fflush(stdout);
			pid_t p = fork();
			if (p == 0) { shm = s->shm; verdictBuf = s->verdict; fclose(fo); child(jobs[next]); }
			s->pid = p; next++; running++;
		}
		int st; pid_t p = wait(&st);
		for (auto& s : slots) if (s.pid == p) {
			std::string v = s.verdict;
			if (v.empty()) v = stringf("crash status %d", st);
			std::string res = stringf("{\"job\":%d,\"verdict\":\"", s.job) + v + "\",\"ev\":[" + std::string(s.shm->data, s.shm->len) + "]}\n";
			results[s.job] = res;
			s.pid = 0; running--;
		}
		while (!results.empty() && results.begin()->first == (int)written) {
			fputs(results.begin()->second.c_str(), fo);
			results.erase(results.begin());
			written++;
		}
	}
	fclose(fo);
	return 0;
}
