// Common scenarios for a file writer and its reader.
#pragma once
#include <functional>
#include <iostream>
#include <string>
#include "simio.hpp"

namespace iofx {
struct Res { bool crashed = false, threw = false; std::string error; };
// Run one library call as a simulated process.
inline Res call(const std::function<void()>& f, const simio::Plan& p) {
  Res r;
  simio::plan(p);
  auto* t = sim::spawn(f, "process", nullptr);
  r.crashed = sim::run_all(2000000) == sim::RunStatus::aborted;
  if(!r.crashed) { r.error = sim::fiber_error(t); r.threw = !r.error.empty(); }
  return r;
}
struct Case {
  std::string file = "data";
  std::function<void(const std::string&)> write, write_old;
  // Reads through the library and compares; 0 = the current data, 1 = the old data, 2 = anything else (why set).
  std::function<int(const std::string&, std::string*)> read;
  // a cut that no reader can recognise (inside the digits of the last number)
  std::function<bool(const std::string& content, size_t cut)> exempt = [](const std::string&, size_t) { return false; };
  bool truncation = true;      // the format promises that a cut is recognised
  int scenarios = 6;
};
inline bool exempt_last_number(const std::string& c, size_t cut) {
  size_t e = c.find_last_not_of(" \n\t\r");
  if(e == std::string::npos) return false;
  size_t b = c.find_last_of(" \n\t\r", e);
  b = b == std::string::npos ? 0 : b + 1;
  return cut > b && cut <= e;
}
inline bool draw_no_memory(simio::Plan& p) {
  if(!sim::flip(1, 5, "nomemory")) return false;
  static const uint32_t lim[] = {4, 20, 100, 600};
  p.hard = simio::NO_MEMORY;
  p.at = sim::choose(lim[sim::choose(4, "memory.range")], "memory.at");
  p.sticky = sim::flip(1, 4, "sticky");
  return true;
}
inline simio::Plan draw_write_fault(size_t len) {
  simio::Plan p = simio::draw_transparent();
  static const simio::Hard k[] = {simio::WRITE_EIO, simio::DISK_FULL, simio::OPEN_FAIL, simio::CLOSE_EIO};
  p.hard = k[sim::choose(4, "wfault")];
  p.at = p.hard == simio::WRITE_EIO ? sim::choose(sim::flip(1, 3, "late") ? 12 : 3, "fault.at") : sim::choose(2, "fault.at");
  p.sticky = sim::flip(1, 2, "sticky");
  if(p.hard == simio::DISK_FULL) p.budget = sim::flip(1, 3, "tail") && len > 40 ? len - 1 - sim::choose(40, "budget") : sim::choose((uint32_t)len + 1, "budget");
  return p;
}
// memory: allocations of the process may fail as well
inline simio::Plan draw_read_fault(bool memory = false) {
  simio::Plan p = simio::draw_transparent();
  if(memory && draw_no_memory(p)) return p;
  p.hard = sim::flip(1, 4, "openfail") ? simio::OPEN_FAIL : simio::READ_EIO;
  p.at = sim::choose(sim::flip(1, 3, "late") ? 12 : 3, "fault.at");
  if(p.hard == simio::OPEN_FAIL) p.at = sim::choose(2, "fault.at2");
  p.sticky = sim::flip(1, 2, "sticky");
  return p;
}
inline size_t draw_cut(const std::string& s) {
  size_t L = s.size();
  if(L == 0) return 0;
  switch(sim::choose(4, "cutkind")) {
    case 0: return sim::choose((uint32_t)L, "cut");
    case 1: return L - 1 - sim::choose((uint32_t)std::min<size_t>(L, 60), "cut");
    case 2: return sim::choose((uint32_t)std::min<size_t>(L, 60), "cut");
    default: {     // at or next to the end of a line
      std::vector<size_t> nl;
      for(size_t i = 0; i < L; ++i) if(s[i] == '\n') nl.push_back(i);
      if(nl.empty()) return sim::choose((uint32_t)L, "cut");
      size_t p = nl[sim::choose((uint32_t)nl.size(), "cutline")] + sim::choose(3, "cutoff");
      p = p ? p - 1 : 0;
      return std::min(p, L - 1);
    }
  }
}
inline void judge_read(const Case& c, const char* when, const simio::Plan& plan, const std::string& content, const std::string& full, bool must_equal, bool allow_old) {
  std::string why;
  int v = -1;
  auto r = call([&] { v = c.read(simio::path(c.file), &why); }, plan);
  if(r.crashed) sim::fail("internal", "reader crashed");
  bool fired = simio::fired();
  simio::clear();
  if(r.threw) {
    sim::probe("reader-rejected");
    if(must_equal) sim::fail("rejected", "%s: the reader rejected a complete file: %s", when, r.error.c_str());
    return;
  }
  if(v == 0) return;
  if(v == 1 && allow_old) return;
  if(content != full && content.size() < full.size() && full.compare(0, content.size(), content) == 0 && c.exempt(full, content.size())) { sim::probe("cut-inside-last-number"); return; }
  if(must_equal) sim::fail("altered", "%s: read back something else: %s", when, why.c_str());
  if(fired) sim::fail("read-error-silent", "%s: the reader met an I/O error and returned other data: %s", when, why.c_str());
  sim::fail("silent-loss", "%s: the reader accepted a damaged file (%zu of %zu bytes) and returned other data: %s", when, content.size(), full.size(), why.c_str());
}
inline void run(Case& c) {
  using namespace sim;
  int sc = (int)choose(c.scenarios, "scenario");
  // reference content: one undisturbed write
  {
    auto r = call([&] { c.write(simio::path("reference")); }, simio::Plan{});
    if(r.threw) fail("spurious-error", "the writer failed without a fault: %s", r.error.c_str());
  }
  std::string full = simio::slurp("reference");
  std::string old;
  bool have_old = c.write_old && flip(1, 2, "old");
  if(have_old) {
    auto r = call([&] { c.write_old(simio::path(c.file)); }, simio::Plan{});
    if(r.threw) fail("spurious-error", "the writer failed without a fault: %s", r.error.c_str());
    old = simio::slurp(c.file);
    probe(old.size() > full.size() ? "replaces-longer-file" : "replaces-file");
  }
  simio::sync_files();
  nontrivial();
  note("scenario %d, %zu bytes, old %zu", sc, full.size(), old.size());
  switch(sc) {
    case 0: {   // transparent faults on both sides
      auto p = simio::draw_transparent();
      auto r = call([&] { c.write(simio::path(c.file)); }, p);
      if(r.threw) fail("spurious-error", "the writer failed without a lasting fault: %s", r.error.c_str());
      if(simio::open_files()) fail("fd-leak", "the writer left a file open");
      std::string got = simio::slurp(c.file);
      auto q = simio::draw_transparent();
      judge_read(c, "after a successful write", q, got, got, true, false);
      if(simio::open_files()) fail("fd-leak", "the reader left a file open");
      if(flip(1, 3, "again")) {   // once more in the same process
        auto r2 = call([&] { c.write(simio::path(c.file)); }, simio::draw_transparent());
        if(r2.threw) fail("spurious-error", "the second write failed: %s", r2.error.c_str());
        judge_read(c, "after writing twice", simio::Plan{}, got, got, true, false);
      }
      break;
    }
    case 1: {   // a fault the writer cannot hide
      auto p = draw_write_fault(full.size());
      auto r = call([&] { c.write(simio::path(c.file)); }, p);
      bool fired = simio::fired();
      simio::clear();
      std::string got = simio::slurp(c.file);
      if(r.threw && !fired) fail("spurious-error", "the writer failed without a lasting fault: %s", r.error.c_str());
      if(r.threw) { probe("writer-reported"); bool cut = full.compare(0, got.size(), got) == 0 || (have_old && got == old); if(c.truncation && cut) judge_read(c, "after a reported write failure", simio::Plan{}, got, full, false, have_old && got == old); break; }
      if(fired && got != full) {
        // another byte sequence may still hold everything: ask the reader
        std::string why; int v = -1;
        auto rr = call([&] { v = c.read(simio::path(c.file), &why); }, simio::Plan{});
        if(rr.threw || v != 0) fail("write-error-silent", "the write failed (%zu of %zu bytes on disk) and the writer reported success", got.size(), full.size());
      }
      judge_read(c, "after a successful write", simio::Plan{}, got, got, true, false);
      break;
    }
    case 2: {   // missing file, or an error while reading
      if(flip(1, 4, "missing")) {
        c.file = "no-such-file";
        probe("missing-file");
        judge_read(c, "missing file", simio::Plan{}, "", full, false, false);
        break;
      }
      simio::spit(c.file, full);
      judge_read(c, "error while reading", draw_read_fault(true), full, full, false, false);
      break;
    }
    case 3: {   // crash in the middle of the write
      if(c.truncation) {
        simio::Plan p = simio::draw_transparent();
        p.hard = simio::CRASH;
        p.at = choose(flip(1, 3, "late") ? 14 : 4, "crash.at");
        auto r = call([&] { c.write(simio::path(c.file)); }, p);
        simio::clear();
        if(r.crashed && flip(1, 2, "machine")) simio::crash_files();
        std::string got = simio::slurp(c.file);
        judge_read(c, r.crashed ? "after a crash while writing" : "after a successful write", simio::Plan{}, got, full, !r.crashed, have_old && got == old);
        break;
      }
      [[fallthrough]];
    }
    default: {  // the file is cut
      if(!c.truncation) break;
      size_t t = draw_cut(full);
      std::string got = full.substr(0, t);
      simio::spit(c.file, got);
      fault("io.truncated-file");
      judge_read(c, "cut file", flip(1, 2, "faulty") ? simio::draw_transparent() : simio::Plan{}, got, full, false, false);
    }
  }
}
inline void quiet() { std::cout.setstate(std::ios::badbit); }
}  // namespace iofx
