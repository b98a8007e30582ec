// Heap of the code under test (the host itself uses plain malloc: see build.sh).
#include <sched.h>
#include <sys/mman.h>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include "sim.h"
// ---------------------------------------------------------------- C++ heap
// Every operator new/delete of the process: fills new memory, poisons and quarantines
// freed memory, detects double frees and writes after free, counts live blocks per rank.
using namespace sim;
namespace {
const size_t TAIL = 32;      // red zone behind every block
struct Hdr { uint64_t magic; size_t size; int rank; int kind; uint64_t seq; void* raw; };
const uint64_t LIVE = 0xA110CA7EDA110C8EULL, DEAD = 0xDEADBEEFDEADBEEFULL;
long liveBlocks[64], liveBytes[64];
struct Q { Hdr* h[4096]; int n = 0, pos = 0; } quarantine;
uint64_t seqNo;
void* alloc(size_t n, int kind, size_t align = 16)
{
	size_t pre = align > sizeof(Hdr) ? align : (sizeof(Hdr) + align - 1) / align * align;
	const bool huge = n > HUGE_MEM;
	char* raw = (char*)(huge ? hugeAlloc(pre + n + TAIL) : align > 16 ? aligned_alloc(align, (pre + n + TAIL + align) / align * align) : malloc(pre + n + TAIL));
	if (!raw) throw std::bad_alloc();
	Hdr* h = (Hdr*)(raw + pre - sizeof(Hdr));
	h->magic = LIVE; h->size = n; h->rank = cur ? cur->rank : -1; h->kind = kind; h->seq = ++seqNo; h->raw = raw;
	if (h->rank >= 0) { liveBlocks[h->rank]++; liveBytes[h->rank] += n; }
	if (cur && !huge) memset(raw + pre, 0xCD, n);
	memset(raw + pre + n, 0xA5, TAIL);
	return raw + pre;
}
void dealloc(void* p, int kind)
{
	if (!p) return;
	if (!cur && ((size_t*)p)[-1] & 2) { free(p); return; }
	Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
	if (h->magic == DEAD) { if (cur) sim::finish("crash double free"); return; }
	if (h->magic != LIVE) { if (cur) sim::finish("crash free of a pointer that was not allocated (or heap corruption)"); free(p); return; }
	if (cur && h->kind != kind) sim::flag("mismatched new/delete");
	if (cur) for (size_t i = 0; i < TAIL; i++) if (((unsigned char*)p)[h->size + i] != 0xA5) { sim::flag("write past the end of a memory block"); break; }
	h->magic = DEAD;
	if (h->rank >= 0) { liveBlocks[h->rank]--; liveBytes[h->rank] -= h->size; }
	if (h->size > HUGE_MEM) { hugeFree(h->raw, (char*)p - (char*)h->raw + h->size + TAIL); return; }
	if (!cur) { free(h->raw); return; }
	memset(p, 0xDD, h->size);
	Hdr*& slot = quarantine.h[quarantine.pos];
	if (slot) {
		unsigned char* q = (unsigned char*)(slot + 1);
		for (size_t i = 0; i < slot->size; i++) if (q[i] != 0xDD) { sim::finish("crash write after free"); }
		free(slot->raw);
	}
	slot = h;
	quarantine.pos = (quarantine.pos + 1) % 4096;
}
}
namespace sim {
void* hugeAlloc(size_t n)
{
	if (n <= HUGE_MEM) return malloc(n);
	void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	return p == MAP_FAILED ? 0 : p;
}
void hugeFree(void* p, size_t n) { munmap(p, n); }
long memStat(const std::string& w, int rank)
{
	if (w == "live_mem") return liveBlocks[rank];
	if (w == "live_bytes") return liveBytes[rank];
	return -1;
}
}
void* operator new(size_t n) { return alloc(n, 0); }
void* operator new[](size_t n) { return alloc(n, 1); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, 1); }
void operator delete(void* p) noexcept { dealloc(p, 0); }
void operator delete[](void* p) noexcept { dealloc(p, 1); }
void operator delete(void* p, size_t) noexcept { dealloc(p, 0); }
void operator delete[](void* p, size_t) noexcept { dealloc(p, 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dealloc(p, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { dealloc(p, 1); }
// allocations of the host itself (redefine.txt)
static void hostFree(void* p)
{
	if (!p) return;
	if (((size_t*)p)[-1] & 2) { free(p); return; }   // a malloc chunk of its own mapping: nothing readable in front of it
	Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
	if (!cur && h->magic == LIVE) { h->magic = DEAD; free(h->raw); return; }   // came from inside libstdc++
	free(p);
}
extern "C" {
void* sim_host_new(size_t n) { return malloc(n ? n : 1); }
void* sim_host_newa(size_t n) { return malloc(n ? n : 1); }
void* sim_host_newn(size_t n) { return malloc(n ? n : 1); }
void* sim_host_newan(size_t n) { return malloc(n ? n : 1); }
void sim_host_del(void* p) { hostFree(p); }
void sim_host_dela(void* p) { hostFree(p); }
void sim_host_dels(void* p) { hostFree(p); }
void sim_host_delas(void* p) { hostFree(p); }
void sim_host_deln(void* p) { hostFree(p); }
}
