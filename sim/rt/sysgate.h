// System-call seam: storage calls on files of the simulated disk (a scratch directory) are trapped,
// counted, faulted and logged; a crash image is computed from the log. Also the clock seam.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim
{
enum FsCat { FC_OPEN = 0, FC_READ, FC_WRITE, FC_CLOSE, FC_SYNC, FC_RENAME, FC_OTHER, FC_ANY, FC_N };
enum FsKind { FK_NONE = 0, FK_EIO, FK_ENOSPC, FK_SHORT, FK_EINTR, FK_CRASH_BEFORE, FK_CRASH_TORN, FK_CRASH_AFTER, FK_EACCES, FK_FULL, FK_N };

void gate_install ();                  // trap storage system calls from here on (this process and its children)
void fs_open_disk ();                  // create an empty scratch directory and make it the working directory
void fs_close_disk ();                 // remove it
const char* fs_root ();
void fs_arm ();                        // reset counters and forget armed faults
void fs_fault (int cat, long n, int kind, long arg); // fires at the n-th (0-based) call of the category after fs_arm
bool fs_fault_fired ();                // any armed fault fired since fs_arm
bool fs_error_returned ();             // a failing result (other than retryable) was handed to the code since fs_arm
bool fs_write_lost ();                 // a write-side call (open for writing, write, sync, close, rename) was failed since fs_arm
long fs_calls (int cat);
void fs_quiet (bool on);               // harness file access: no faults, no counting, still logged
void fs_make_durable ();               // everything written so far survives a power loss
void fs_power_loss (uint64_t seed);    // replace the scratch directory by one possible state after power loss
void fs_disk_state (bool& full);

// clock
void clock_sim (bool on);
void clock_set (double now);
double clock_get ();
void clock_step (double per_call);     // advance at every reading
long clock_reads ();
}
