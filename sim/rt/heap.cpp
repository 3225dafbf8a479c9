#include "heap.h"
#include "core.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <execinfo.h>
#include <sys/mman.h>

extern "C" void __asan_poison_memory_region (void const volatile*, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region (void const volatile*, size_t) __attribute__((weak));
extern "C" void sim_on_free (void* p, size_t n) __attribute__((weak));

namespace sim
{
static const uintptr_t BASE = 0x200000000000ull;
static const size_t LANE = 64ull << 20;
static const int MAXL = 8;
static const size_t SIZE = LANE * MAXL;

struct Hdr
{
	uint64_t magic;
	uint64_t seq;
	size_t size;
	Hdr* prev;
	Hdr* next;
	void* site[3];
};
static const uint64_t LIVE = 0x4C4956454C495645ull, DEAD = 0xDEADDEADDEADDEADull;

static bool active = false;
static bool reserved = false;
static HeapOpts opt;
static Rng rng(1);
static uintptr_t bump[MAXL];
static uint64_t seqno = 0;
static Hdr head; // list of live blocks
static long fail_new = -1, fail_malloc = -1;
static long mlive = 0;
static uint64_t nalloc = 0;
static bool shadow_on = false;
static unsigned char* shadow = nullptr; // one byte per 16 bytes
static const int NCLS = 64;
struct FreeNode { FreeNode* next; };
static Hdr* freelist[NCLS];

static inline size_t rnd16 (size_t n) { return (n + 15) & ~(size_t) 15; }

void heap_shadow_on () { shadow_on = true; }

void heap_start (const HeapOpts& o)
{
	if (!reserved)
	{
		void* p = mmap((void*) BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (p != (void*) BASE) { fprintf(stderr, "heap arena unavailable\n"); _Exit(97); }
		if (shadow_on) shadow = (unsigned char*) mmap(nullptr, SIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		reserved = true;
		head.next = head.prev = &head;
	}
	opt = o;
	if (opt.lanes < 1) opt.lanes = 1;
	if (opt.lanes > MAXL) opt.lanes = MAXL;
	rng.reseed(o.seed);
	for (int i = 0; i < MAXL; i++) bump[i] = BASE + i * LANE + 64;
	active = true;
}
bool heap_active () { return active; }
void heap_stop () { active = false; }
uint64_t heap_mark () { return seqno; }
uint64_t heap_allocs () { return nalloc; }
size_t heap_live_since (uint64_t mark)
{
	size_t n = 0;
	for (Hdr* h = head.next; h != &head; h = h->next) if (h->seq >= mark) n++;
	return n;
}
void heap_dump_since (uint64_t mark, char* buf, size_t n)
{
	size_t k = 0;
	buf[0] = 0;
	int shown = 0;
	for (Hdr* h = head.next; h != &head && shown < 4; h = h->next)
		if (h->seq >= mark)
		{
			k += snprintf(buf + k, k < n ? n - k : 0, " [seq %llu size %zu", (unsigned long long) h->seq, h->size);
			for (void* s : h->site) if (s && k < n) k += snprintf(buf + k, n - k, " %p", s);
			if (k < n) k += snprintf(buf + k, n - k, "]");
			shown++;
		}
}
bool heap_owns (const void* p) { return reserved && (uintptr_t) p >= BASE && (uintptr_t) p < BASE + SIZE; }
void heap_fail_after (long n) { fail_new = n; }
long heap_fail_left () { return fail_new; }
void malloc_fail_after (long n) { fail_malloc = n; }
static uint64_t refused_mallocs = 0;
uint64_t malloc_refused () { return refused_mallocs; }
long malloc_live () { return mlive; }

extern "C" unsigned char sim_heap_state (const void* p)
{
	if (!shadow || !heap_owns(p)) return 1;
	return shadow[((uintptr_t) p - BASE) / 16];
}

static Hdr* hdr_of (void* p) { return (Hdr*) ((char*) p - rnd16(sizeof(Hdr))); }

bool heap_is_live (const void* p)
{
	for (Hdr* h = head.next; h != &head; h = h->next)
	{
		char* b = (char*) h + rnd16(sizeof(Hdr));
		if ((char*) p >= b && (char*) p < b + (h->size ? h->size : 1)) return true;
	}
	return false;
}

__attribute__((no_sanitize("address"))) uint64_t heap_birth (const void* p, void*& block)
{
	for (Hdr* h = head.next; h != &head; h = h->next)
	{
		char* b = (char*) h + rnd16(sizeof(Hdr));
		if ((char*) p >= b && (char*) p < b + (h->size ? h->size : 1)) { block = h; return h->seq + 1; }
	}
	block = nullptr;
	return 0;
}
__attribute__((no_sanitize("address"))) bool heap_same (const void* block, uint64_t birth)
{
	const Hdr* h = (const Hdr*) block;
	return h && h->magic == LIVE && h->seq + 1 == birth;
}

// fresh memory holds whatever the run's seed says: rarely zero, sometimes plausible numbers
static uint64_t nfill = 0;
__attribute__((no_sanitize("address"))) static void fill (void* p, size_t n)
{
	uint64_t z = opt.seed * 0x9E3779B97F4A7C15ull + ++nfill;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	z ^= z >> 31;
	uint64_t w;
	double d;
	switch (opt.litter ? z & 3 : 0)
	{
		case 0: w = 0xBEBEBEBEBEBEBEBEull; break;
		case 1: d = ((int64_t) z >> 11) * (2.0 / 9007199254740992.0); memcpy(&w, &d, 8); break;
		case 2: w = (z >> 8) & 7; break;
		default: w = z;
	}
	char* c = (char*) p;
	size_t i = 0;
	for (; i + 8 <= n && i < (1u << 20); i += 8) memcpy(c + i, &w, 8);
	for (; i < n && i < (1u << 20); i++) c[i] = (char) (w >> (i % 8 * 8));
}
void heap_fill (void* p, size_t n) { fill(p, n); }

__attribute__((no_sanitize("address"))) static void* arena_new (size_t n, void* site)
{
	nalloc++;
	size_t body = rnd16(n ? n : 1);
	size_t cls = body / 16;
	Hdr* h = nullptr;
	if (opt.reuse > 0 && cls < NCLS && freelist[cls] && rng.chance(opt.reuse))
	{
		h = freelist[cls];
		if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(h, rnd16(sizeof(Hdr)) + body);
		freelist[cls] = h->next;
	}
	else
	{
		int lane = opt.lanes > 1 ? (int) rng.below(opt.lanes) : 0;
		if (opt.gap > 0) bump[lane] += 16 * rng.below(opt.gap + 1);
		size_t tot = rnd16(sizeof(Hdr)) + body + 32;
		if (bump[lane] + tot > BASE + (lane + 1) * LANE)
		{
			// the arena never takes large blocks back: a long run continues on the system heap, within reason
			static size_t spill = 0;
			if (n > (256u << 20)) throw std::bad_alloc();
			spill += n;
			if (spill > (768u << 20)) { fprintf(stderr, "sim heap exhausted\n"); _Exit(96); }
			void* q = malloc(n ? n : 1);
			if (!q) throw std::bad_alloc();
			return q;
		}
		h = (Hdr*) bump[lane];
		bump[lane] += tot;
		if (__asan_poison_memory_region) __asan_poison_memory_region((char*) h + rnd16(sizeof(Hdr)) + body, 32);
	}
	h->magic = LIVE;
	h->seq = seqno++;
	h->size = n;
	h->site[0] = site;
	h->site[1] = h->site[2] = nullptr;
	h->prev = &head;
	h->next = head.next;
	head.next->prev = h;
	head.next = h;
	void* p = (char*) h + rnd16(sizeof(Hdr));
	if (__asan_unpoison_memory_region)
	{
		__asan_poison_memory_region(h, rnd16(sizeof(Hdr)));
		__asan_unpoison_memory_region(p, n);
		if (body > n) { __asan_poison_memory_region((char*) p + n, body - n); }
	}
	if (shadow) memset(shadow + ((uintptr_t) p - BASE) / 16, 1, body / 16);
	fill(p, n);
	return p;
}

__attribute__((no_sanitize("address"))) static void arena_delete (void* p)
{
	Hdr* h = hdr_of(p);
	if (h->magic != LIVE)
	{
		violate(h->magic == DEAD ? "memory-error:double-free" : "memory-error:bad-free", "operator delete of %s block",
			h->magic == DEAD ? "an already freed" : "an invalid");
	}
	if (sim_on_free) sim_on_free(p, h->size);
	h->magic = DEAD;
	h->prev->next = h->next;
	h->next->prev = h->prev;
	size_t body = rnd16(h->size ? h->size : 1);
	size_t cls = body / 16;
	memset(p, 0xDD, h->size);
	if (shadow) memset(shadow + ((uintptr_t) p - BASE) / 16, 2, body / 16);
	if (__asan_poison_memory_region) __asan_poison_memory_region(p, body);
	if (opt.reuse > 0 && cls < NCLS)
	{
		h->next = freelist[cls];
		freelist[cls] = h;
	}
}
}

using namespace sim;

void* operator new (size_t n)
{
	if (active)
	{
		if (fail_new >= 0 && fail_new-- == 0)
		{
			sim::count("fault.operator-new-failed");
			throw std::bad_alloc();
		}
		return arena_new(n, __builtin_return_address(0));
	}
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	return p;
}
void* operator new[] (size_t n) { return operator new(n); }
void* operator new (size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void* operator new[] (size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void operator delete (void* p) noexcept
{
	if (!p) return;
	if (heap_owns(p)) arena_delete(p);
	else free(p);
}
void operator delete[] (void* p) noexcept { operator delete(p); }
void operator delete (void* p, size_t) noexcept { operator delete(p); }
void operator delete[] (void* p, size_t) noexcept { operator delete(p); }
void operator delete (void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[] (void* p, const std::nothrow_t&) noexcept { operator delete(p); }

#ifdef SIM_WRAP_MALLOC
extern "C" void* __real_malloc (size_t);
extern "C" void __real_free (void*);
extern "C" void* __wrap_malloc (size_t n)
{
	if (active)
	{
		if (fail_malloc >= 0 && fail_malloc-- == 0)
		{
			sim::count("fault.malloc-failed");
			sim::refused_mallocs++;
			return nullptr;
		}
		if (n > (size_t) 1 << 32)
		{
			sim::count("fault.malloc-too-big");
			sim::refused_mallocs++;
			return nullptr;
		}
		mlive++;
		void* p = __real_malloc(n);
		if (p) sim::heap_fill(p, n);
		return p;
	}
	return __real_malloc(n);
}
extern "C" void __wrap_free (void* p)
{
	if (active && p) mlive--;
	__real_free(p);
}
#endif
