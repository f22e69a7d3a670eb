#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simio.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <vector>

namespace simio {
const char* const hard_name[] = {"none", "open-error", "write-EIO", "disk-full", "read-EIO", "close-EIO", "crash-in-io", "no-memory"};

static std::string g_dir;
static Plan g_plan;
static bool g_fired = false, g_full = false;
static uint64_t g_ops = 0, g_cnt_open = 0, g_cnt_write = 0, g_cnt_read = 0, g_cnt_close = 0, g_used = 0;
static void (*g_hook)(const char*) = nullptr;
struct File { std::string name; bool wr = false, app = false; FILE* fp = nullptr; uint64_t wrote = 0; };
static std::map<int, File>& fds() { static auto* m = new std::map<int, File>; return *m; }
static std::map<FILE*, int>& fps() { static auto* m = new std::map<FILE*, int>; return *m; }
static std::map<std::string, int64_t>& written() { static auto* m = new std::map<std::string, int64_t>; return *m; }

#define REAL(name, type) static type real_##name() { static type f = (type)dlsym(RTLD_NEXT, #name); return f; }
typedef int (*open_t)(const char*, int, ...);
typedef FILE* (*fopen_t)(const char*, const char*);
typedef ssize_t (*read_t)(int, void*, size_t);
typedef ssize_t (*write_t)(int, const void*, size_t);
typedef ssize_t (*writev_t)(int, const struct iovec*, int);
typedef int (*close_t)(int);
typedef int (*fclose_t)(FILE*);
typedef int (*fileno_t)(FILE*);
REAL(open, open_t) REAL(fopen, fopen_t) REAL(read, read_t) REAL(write, write_t) REAL(writev, writev_t) REAL(close, close_t) REAL(fclose, fclose_t) REAL(fileno, fileno_t)

void set_scratch(const std::string& d) { g_dir = d; }
std::string path(const std::string& n) { return g_dir + "/" + n; }
static bool mine(const char* p) {
  return sim::in_run() && !g_dir.empty() && p && strncmp(p, g_dir.c_str(), g_dir.size()) == 0 && p[g_dir.size()] == '/';
}
static std::string rel(const char* p) { return p + g_dir.size() + 1; }
static File* find(int fd) {
  if(fds().empty()) return nullptr;
  auto it = fds().find(fd);
  return it == fds().end() ? nullptr : &it->second;
}
void set_hook(void (*h)(const char*)) { g_hook = h; }
void plan(const Plan& p) { g_plan = p; g_fired = g_full = false; g_ops = g_cnt_open = g_cnt_write = g_cnt_read = g_cnt_close = g_used = 0;
  if(p.hard == NO_MEMORY) sim::fail_allocations(p.at, p.sticky ? 3 : 1); else sim::allocations_ok();
}
void clear() { if(g_plan.hard == NO_MEMORY && sim::allocation_failed()) g_fired = true; g_plan = Plan{}; g_full = false; sim::allocations_ok(); }
bool fired() { return g_fired || (g_plan.hard == NO_MEMORY && sim::allocation_failed()); }
uint64_t ops() { return g_ops; }
int open_files() { return (int)fds().size(); }
static uint64_t g_epoch = 1;        // FILE objects of earlier processes are stale
static void drop() {
  g_epoch++;
  for(auto& kv : fds()) real_close()(kv.first);
  fds().clear();
  fps().clear();      // FILE objects of an aborted job are abandoned
}
void process_gone() { drop(); }
void reset_run() {
  g_plan = Plan{};
  sim::allocations_ok();
  g_fired = g_full = false;
  g_hook = nullptr;
  drop();
  written().clear();
}
Plan draw_transparent() {
  Plan p;
  switch(sim::choose(4, "io.transparent")) {
    case 0: break;
    case 1: p.short_in8 = 3; break;
    case 2: p.eintr_in8 = 3; break;
    case 3: p.short_in8 = 5; p.eintr_in8 = 2; break;
  }
  return p;
}
static void hit(Hard h) {
  if(!g_fired) sim::note("io: inject %s", hard_name[h]);
  g_fired = true;
  sim::fault((std::string("io.") + hard_name[h]).c_str());
}
static void point(const char* what) {
  g_ops++;
  if(g_plan.hard == CRASH && g_ops > g_plan.at && !g_fired) { hit(CRASH); sim::abort_job("crash during file I/O"); }
  if(g_hook) g_hook(what);
}
// is this call (number n of its class) the one that fails?
static bool trip(Hard h, uint64_t n) {
  if(g_plan.hard != h) return false;
  return n == g_plan.at || (g_plan.sticky && n > g_plan.at);
}
static bool coin(int in8, const char* tag) { return in8 && sim::flip(in8, 8, tag); }

// -- operations on simulated descriptors --------------------------------------
static int do_open(const char* p, int flags, mode_t mode) {
  sim::Internal quiet;
  point("open");
  std::string n = rel(p);
  if(trip(OPEN_FAIL, g_cnt_open++)) { hit(OPEN_FAIL); sim::note("open %s -> EACCES", n.c_str()); errno = EACCES; return -1; }
  int fd = real_open()(p, flags, mode);
  sim::note("open %s flags=%d -> %s", n.c_str(), flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND), fd >= 0 ? "ok" : strerror(errno));
  if(fd < 0) return fd;
  File f;
  f.name = n;
  f.wr = (flags & O_ACCMODE) != O_RDONLY;
  f.app = flags & O_APPEND;
  fds()[fd] = f;
  if(f.wr && !written().count(n)) written()[n] = 0;
  return fd;
}
static ssize_t do_read(int fd, void* b, size_t n) {
  sim::Internal quiet;
  point("read");
  if(trip(READ_EIO, g_cnt_read++)) { hit(READ_EIO); sim::note("read -> EIO"); errno = EIO; return -1; }
  if(coin(g_plan.eintr_in8, "io.eintr")) { sim::fault("io.EINTR"); errno = EINTR; return -1; }
  if(n > 1 && coin(g_plan.short_in8, "io.short")) {
    sim::fault("io.short-read");
    size_t lim = sim::flip(1, 2, "io.tiny") ? std::min<size_t>(n, 24) : n;
    n = 1 + sim::choose((uint32_t)lim, "io.len");
    if(n > lim) n = lim;
  }
  ssize_t r = real_read()(fd, b, n);
  sim::note("read %s %zu -> %zd", find(fd)->name.c_str(), n, r);
  return r;
}
static ssize_t do_write(int fd, const void* b, size_t n, bool eintr_ok) {
  sim::Internal quiet;
  point("write");
  if(trip(WRITE_EIO, g_cnt_write++)) { hit(WRITE_EIO); sim::note("write -> EIO"); errno = EIO; return -1; }
  if(eintr_ok && coin(g_plan.eintr_in8, "io.eintr")) { sim::fault("io.EINTR"); errno = EINTR; return -1; }
  if(n > 1 && coin(g_plan.short_in8, "io.short")) {
    sim::fault("io.short-write");
    size_t lim = sim::flip(1, 2, "io.tiny") ? std::min<size_t>(n, 24) : n;
    n = 1 + sim::choose((uint32_t)lim, "io.len");
    if(n > lim) n = lim;
  }
  if(g_plan.hard == DISK_FULL && g_used + n > g_plan.budget) {
    size_t room = g_plan.budget > g_used ? g_plan.budget - g_used : 0;
    if(room == 0) { hit(DISK_FULL); sim::note("write -> ENOSPC"); errno = ENOSPC; return -1; }
    n = room;
  }
  ssize_t r = real_write()(fd, b, n);
  if(r > 0) { g_used += r; find(fd)->wrote += r; sim::mix_bytes(b, r); }
  sim::note("write %s %zu -> %zd", find(fd)->name.c_str(), n, r);
  return r;
}
static int do_close(int fd) {
  sim::Internal quiet;
  point("close");
  std::string n = find(fd)->name;
  uint64_t wrote = find(fd)->wrote;
  fds().erase(fd);
  bool bad = trip(CLOSE_EIO, g_cnt_close++);
  if(bad && wrote) {   // what a failing close means: delayed writes were lost
    struct stat st;
    if(fstat(fd, &st) == 0) (void)!ftruncate(fd, std::max<off_t>(0, st.st_size - 1 - (off_t)sim::choose((uint32_t)wrote, "io.lost")));
  }
  int r = real_close()(fd);
  sim::note("close %s%s", n.c_str(), bad ? " -> EIO" : "");
  if(bad) { hit(CLOSE_EIO); errno = EIO; return -1; }
  return r;
}
// -- stdio on a simulated descriptor ------------------------------------------
struct Cookie { int fd; uint64_t epoch; };
static bool stale(void* c) { auto* k = (Cookie*)c; return k->epoch != g_epoch || !fds().count(k->fd); }
static int fd_of(void* c) { return ((Cookie*)c)->fd; }
static ssize_t ck_read(void* c, char* b, size_t n) {
  if(stale(c)) return 0;
  ssize_t r;
  do r = do_read(fd_of(c), b, n); while(r < 0 && errno == EINTR);
  return r;
}
static ssize_t ck_write(void* c, const char* b, size_t n) {
  if(stale(c)) return (ssize_t)n;      // nobody left to write for
  size_t o = 0;
  while(o < n) {
    ssize_t r = do_write(fd_of(c), b + o, n - o, false);
    if(r < 0) return o ? (ssize_t)o : 0;
    o += r;
  }
  return (ssize_t)o;
}
static int ck_seek(void* c, off64_t* o, int w) {
  if(stale(c)) return -1;
  off_t r = lseek(fd_of(c), *o, w);
  if(r < 0) return -1;
  *o = r;
  return 0;
}
static int ck_close(void* c) {
  int r = stale(c) ? 0 : do_close(fd_of(c));
  delete (Cookie*)c;
  return r;
}
static FILE* sim_fopen(const char* p, const char* mode) {
  sim::Internal quiet;
  int fl = 0;
  bool plus = strchr(mode, '+');
  switch(mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return nullptr;
  }
  if(strchr(mode, 'x')) fl |= O_EXCL;
  int fd = do_open(p, fl, 0644);
  if(fd < 0) return nullptr;
  cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie(new Cookie{fd, g_epoch}, mode, io);
  fds()[fd].fp = f;
  fps()[f] = fd;
  return f;
}

// -- harness side -------------------------------------------------------------
bool exists(const std::string& n) { struct stat st; return stat(path(n).c_str(), &st) == 0; }
int64_t length(const std::string& n) { struct stat st; return stat(path(n).c_str(), &st) == 0 ? (int64_t)st.st_size : -1; }
std::string slurp(const std::string& n) {
  std::string s;
  int fd = real_open()(path(n).c_str(), O_RDONLY);
  if(fd < 0) return s;
  char b[65536];
  ssize_t r;
  while((r = real_read()(fd, b, sizeof b)) > 0) s.append(b, r);
  real_close()(fd);
  return s;
}
void spit(const std::string& n, const std::string& d) {
  int fd = real_open()(path(n).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if(fd < 0) sim::fail("internal", "spit %s: %s", n.c_str(), strerror(errno));
  size_t o = 0;
  while(o < d.size()) { ssize_t r = real_write()(fd, d.data() + o, d.size() - o); if(r <= 0) sim::fail("internal", "spit"); o += r; }
  real_close()(fd);
}
void erase(const std::string& n) { unlink(path(n).c_str()); }
void sync_files() { for(auto& kv : written()) kv.second = std::max<int64_t>(0, length(kv.first)); }
void crash_files() {
  for(auto& kv : written()) {
    int64_t len = length(kv.first), dur = std::min(kv.second, len);
    if(len <= dur) continue;
    int64_t keep = len;
    switch(sim::choose(3, "crash.keep")) {
      case 0: keep = len; break;
      case 1: keep = dur + sim::choose((uint32_t)(len - dur + 1), "crash.len"); break;
      case 2: keep = dur; break;
    }
    if(keep < len) { sim::fault("crash.lost-suffix"); (void)!truncate(path(kv.first).c_str(), keep); }
    sim::note("crash: %s keeps %lld of %lld bytes", kv.first.c_str(), (long long)keep, (long long)len);
  }
  drop();
  written().clear();
}
}  // namespace simio

using namespace simio;
extern "C" {
int open(const char* p, int fl, ...) {
  mode_t m = 0;
  if(fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  if(mine(p)) return do_open(p, fl, m);
  return real_open()(p, fl, m);
}
int open64(const char* p, int fl, ...) {
  mode_t m = 0;
  if(fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  if(mine(p)) return do_open(p, fl, m);
  return real_open()(p, fl, m);
}
FILE* fopen(const char* p, const char* m) { return mine(p) ? sim_fopen(p, m) : real_fopen()(p, m); }
FILE* fopen64(const char* p, const char* m) { return mine(p) ? sim_fopen(p, m) : real_fopen()(p, m); }
int fileno(FILE* f) {
  if(!fps().empty()) { auto it = fps().find(f); if(it != fps().end()) return it->second; }
  return real_fileno()(f);
}
int fclose(FILE* f) {
  sim::Internal quiet;
  if(!fps().empty()) fps().erase(f);
  return real_fclose()(f);
}
ssize_t read(int fd, void* b, size_t n) { return find(fd) ? do_read(fd, b, n) : real_read()(fd, b, n); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return find(fd) ? do_read(fd, b, n) : real_read()(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { return find(fd) ? do_write(fd, b, n, true) : real_write()(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if(!find(fd)) return real_writev()(fd, v, c);
  sim::Internal quiet;
  std::string all;
  for(int i = 0; i < c; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
  return do_write(fd, all.data(), all.size(), true);
}
int close(int fd) { return find(fd) ? do_close(fd) : real_close()(fd); }
int fsync(int fd) {
  static int (*real)(int) = (int (*)(int))dlsym(RTLD_NEXT, "fsync");
  if(auto* f = find(fd)) { struct stat st; if(fstat(fd, &st) == 0) written()[f->name] = st.st_size; sim::note("fsync %s", f->name.c_str()); return 0; }
  return real(fd);
}
int fdatasync(int fd) { return fsync(fd); }
}
