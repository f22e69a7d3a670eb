// Simulated file layer: libc file calls on the private scratch directory are
// interposed; short/interrupted transfers, errors, full disk and crash.
#pragma once
#include <cstdint>
#include <string>
#include "sim.hpp"

namespace simio {
enum Hard { NONE = 0, OPEN_FAIL, WRITE_EIO, DISK_FULL, READ_EIO, CLOSE_EIO, CRASH, NO_MEMORY, NHARD };
extern const char* const hard_name[];
struct Plan {
  int short_in8 = 0;        // probability/8 that a transfer is short
  int eintr_in8 = 0;        // probability/8 that a call is interrupted first
  Hard hard = NONE;
  uint32_t at = 0;          // index among the calls of the class hard applies to
  bool sticky = false;      // every later call of that class fails as well
  uint64_t budget = 0;      // DISK_FULL: bytes that still fit
};
void plan(const Plan&);
void clear();
bool fired();               // the hard fault was injected
uint64_t ops();             // calls on scratch files since plan()
void set_hook(void (*)(const char*));   // called at each open/write/close (yield, crash point)
// Draw transparent faults (harmless to a correct program).
Plan draw_transparent();
std::string path(const std::string& name);
// direct access for the harness, never faulted
bool exists(const std::string& name);
std::string slurp(const std::string& name);
void spit(const std::string& name, const std::string& data);
void erase(const std::string& name);
int64_t length(const std::string& name);
int open_files();
void process_gone();   // what the kernel does with the descriptors of a killed job           // scratch files opened and not closed
// machine crash: of every file written, only a prefix (at least what was fsynced) survives
void crash_files();
void sync_files();          // everything written so far has reached the disk
}  // namespace simio
