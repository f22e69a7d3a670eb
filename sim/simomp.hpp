// Simulated OpenMP runtime: threads are fibers of the simulator, every
// instrumented memory access is a possible preemption point and is checked for
// races (vector clocks) and for leaving its heap block.
#pragma once
#include <cstdint>
namespace simomp {
struct Config {
  int max_threads = 1;   // what omp_get_max_threads() says
  int deliver = 0;       // threads a region really gets (0: as many as asked for)
  int gap = 0;           // mean distance of preemption points (0: threads run one after the other)
};
void begin();                    // first thing in a run
void configure(const Config& c);
struct Stats { uint64_t regions, threads, accesses, preemptions, fewer; };
const Stats& stats();
}  // namespace simomp
