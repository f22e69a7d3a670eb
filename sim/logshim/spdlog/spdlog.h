// Logging seam: every simulated process has its own registry of loggers; what is logged is kept for the harness.
#pragma once
#include <fmt/format.h>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace simlog {
struct Line { std::string logger, text; };
int process();                                    // registry of the calling process
std::vector<Line>& lines(int process);            // shown on the console of that process
void reset();
}  // namespace simlog
namespace spdlog {
struct spdlog_ex : std::runtime_error { using std::runtime_error::runtime_error; };
class logger {
  std::string name_;
  bool null_;
  template <class S, class... A> void put(const S& f, A&&... a) {
    if(null_) return;
    try { simlog::lines(simlog::process()).push_back({name_, fmt::format(fmt::runtime(std::string(f)), std::forward<A>(a)...)}); }
    catch(const std::exception&) {}               // reported by the logger's error handler, never thrown
  }
 public:
  logger(std::string n, bool null) : name_(std::move(n)), null_(null) {}
  const std::string& name() const { return name_; }
  template <class S, class... A> void info(const S& f, A&&... a) { put(f, std::forward<A>(a)...); }
  template <class S, class... A> void warn(const S& f, A&&... a) { put(f, std::forward<A>(a)...); }
  template <class S, class... A> void error(const S& f, A&&... a) { put(f, std::forward<A>(a)...); }
  template <class S, class... A> void critical(const S& f, A&&... a) { put(f, std::forward<A>(a)...); }
  template <class S, class... A> void debug(const S&, A&&...) {}
  template <class S, class... A> void trace(const S&, A&&...) {}
  void flush() {}
};
std::shared_ptr<logger> get(const std::string& name);
std::shared_ptr<logger> sim_register(const std::string& name, bool null);
inline void set_pattern(const std::string&) {}
}  // namespace spdlog
