// Deterministic simulation host: cooperative scheduler for the simulated threads
// ("fibers") of all simulated MPI processes ("ranks").
#ifndef SIM_H
#define SIM_H
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

struct Fiber {
	int id = 0, rank = 0;
	bool done = false, blocked = false, started = false;
	std::function<bool()> ready;      // valid while blocked
	const char* why = "";
	void* sp = nullptr;
	char* stack = nullptr;
	size_t stackSize = 0;
	void* (*fn)(void*) = nullptr;
	void* arg = nullptr;
	void* result = nullptr;
	bool detached = false;
	std::map<int, void*> tls;
	int cpu = 0, node = 0;
	long prio = 0;
	int inMpi = 0, inNc = 0;
	cpu_set_t* affinity = nullptr;
};

extern std::vector<Fiber*> fibers;
extern Fiber* cur;                    // nullptr outside the simulation
extern int nranks;

// configuration of this run
struct Config {
	uint64_t seed = 1;
	int pol = 0;                      // 0 random, 1 PCT
	long pp = 100;                    // switch probability per sync op, of 1000
	long pm = 5;                      // switch probability per memory access, of 10000
	long spur = 0;                    // spurious wakeup probability per step, of 10000
	long eager = 1;                   // small sends do not block
	long depth = 3;                   // PCT change points
	long budget = 3000000;            // scheduling steps before "noprogress"
	long lognc = 0;
	long logmpi = 0;
	long rmalazy = 500;               // probability (of 1000) that an RMA op is delayed to its flush
	long msgdelay = 0;                // probability (of 1000) that a message is delayed
	long maxcpu = 8;                  // CPUs reported
	long ncfail = 0;                  // files cannot be opened
	std::vector<uint64_t> touch;      // cells of the huge variables that are not 0
	long serialmpi = 0;               // report concurrent MPI calls within a rank
};
extern Config cfg;

const unsigned long HUGE_MEM = 100000000;      // larger blocks are not filled
void* hugeAlloc(size_t n);
void hugeFree(void* p, size_t n);
Fiber* spawn(int rank, void* (*fn)(void*), void* arg);
void yield();                         // possible scheduling point (sync op)
void yieldTo();                       // scheduling point that prefers another fiber (failed poll)
void blockUntil(const char* why, std::function<bool()> ready);
extern long memCountdown;
void memYield();                      // slow path of memory access points
inline void memPoint() { if (--memCountdown <= 0) memYield(); }
uint64_t rnd();                       // scheduler randomness
inline uint64_t rnd(uint64_t n) { return rnd() % n; }
inline bool chance(long num, long den) { return num > 0 && (long)(rnd() % den) < num; }
void event(const std::string& json);
void flag(const std::string& what);   // misuse / violation observed by the simulator itself
[[noreturn]] void finish(const std::string& verdict);
extern uint64_t steps;

std::string stringf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
long mpiStat(const std::string& what, int rank);
long wrapStat(const std::string& what, int rank);
long memStat(const std::string& what, int rank);
void mpiTick();
void setProcName(long);
void setNcFail(long);                // the n-th next nc_open of the process fails (0: none)
void setMpiFail(long);               // the n-th next and all later MPI calls that may fail do fail (0: none)
bool mpiTimeSkip();
}
#endif
