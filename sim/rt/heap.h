// Seeded heap: placement decided by the run's layout seed, freed memory detected, failures injected.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim
{
struct HeapOpts
{
	uint64_t seed = 1;
	int lanes = 1;            // number of interleaved address ranges
	int gap = 0;              // max random gap (in 16-byte units)
	double reuse = 0;         // probability that a freed block of the size class is reused
	bool litter = true;       // new blocks hold seeded words (else one fixed pattern)
};
void heap_start (const HeapOpts& o);      // from here on operator new is simulated
bool heap_active ();
void heap_stop ();                        // new allocations go to the system again
uint64_t heap_mark ();                    // sequence number of the next allocation
size_t heap_live_since (uint64_t mark);   // live blocks allocated at or after mark
void heap_dump_since (uint64_t mark, char* buf, size_t n);
bool heap_is_live (const void* p);        // p lies in a live block
bool heap_owns (const void* p);
uint64_t heap_birth (const void* p, void*& block);   // sequence number of the live block p lies in (0: none), and its handle
bool heap_same (const void* block, uint64_t birth);  // that very block is still live
void heap_fail_after (long n);            // the n-th (0-based) next operator new throws bad_alloc; <0 off
long heap_fail_left ();
void malloc_fail_after (long n);          // same for malloc called by the code under test (wrapped)
uint64_t heap_allocs ();
uint64_t malloc_refused ();               // wrapped malloc calls that were answered with no memory
// raw accounting of wrapped malloc/free
long malloc_live ();
// 0 never allocated or redzone, 1 live, 2 freed
extern "C" unsigned char sim_heap_state (const void* p);
void heap_shadow_on ();                   // maintain byte map for sim_heap_state
}
