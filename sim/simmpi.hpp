// Simulated MPI: job control and checks for harnesses.
#pragma once
#include <mpi.h>
#include <functional>
#include <string>
#include <vector>
#include "sim.hpp"

namespace simmpi {
struct JobOptions {
  bool allow_crash = false;      // maybe kill the whole job at some MPI/IO call
  uint64_t max_steps = 400000;
  int comm_kind = -1;            // -1: draw; 0 world, 1 dup, 2 shuffled sub-communicator
};
struct JobResult {
  bool crashed = false;
  std::vector<std::string> errors;  // per comm rank; "" = returned normally
  bool any_error() const { for(auto& e : errors) if(!e.empty()) return true; return false; }
  bool all_error() const { for(auto& e : errors) if(e.empty()) return false; return true; }
};
// Run `body(rank, comm)` on n ranks of a fresh job.
JobResult run_job(int n, const std::function<void(int, MPI_Comm)>& body, JobOptions opt = {});
// Nothing may be left over from the last job: requests, messages, datatypes, communicators.
void check_clean();
int world_rank();                  // of the calling fiber, -1 outside
uint64_t collectives();            // in the last job, over all ranks
uint64_t messages();               // point-to-point messages sent in the last job
void crash_point();                // called by simio as well
// signature hash of the collective sequence of a rank of the last job
bool same_collectives(std::string* why);
void clock_faults(bool on);
}  // namespace simmpi
