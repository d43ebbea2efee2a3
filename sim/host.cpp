// The host program around the planner: settings of the process and the thread
// that belong to it.  They can be put into unusual states before a run, and are
// looked at around every operation and inside the user's path.
#include <dirent.h>
#include <fcntl.h>
#include <locale.h>
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#include <Eigen/Core>
#include <exception>
#include <iostream>
#include <locale>
#include <new>

#include "scen.h"
#include "util.h"

using namespace rt;
extern char** environ;

namespace {
struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
char rstate[128];
bool watching = false, changed = false;
std::vector<std::pair<const char*, uint64_t>> base;
std::string diff;

uint64_t hs(const char* s, uint64_t h = 1469598103934665603ull) { return s ? fnv(s, strlen(s), h) : h; }
void no_memory() { throw std::bad_alloc(); }
void gone() { abort(); }
void on_usr(int) {}

template <class S> uint64_t stream(S& s) {
  struct { long f, p, c, e, r; const void *t, *b, *l; } v;
  memset(&v, 0, sizeof v);
  v.f = (long)s.flags(); v.p = (long)s.precision(); v.c = s.fill(); v.e = (long)s.exceptions(); v.r = (long)s.rdstate();
  v.t = s.tie(); v.b = s.rdbuf(); v.l = &std::use_facet<std::numpunct<char>>(s.getloc());
  return fnv(&v, sizeof v);
}

uint64_t listing(const char* dir) {
  DIR* d = opendir(dir);
  if (!d) return 0;
  uint64_t n = 0, sum = 0;
  int own = dirfd(d);
  while (dirent* e = readdir(d)) { if (e->d_name[0] == '.' || atoi(e->d_name) == own) continue; ++n; sum += mix(hs(e->d_name)); }
  closedir(d);
  return n ^ sum << 8;
}

void look(std::vector<std::pair<const char*, uint64_t>>& v, bool deep) {
  v.clear();
  auto add = [&](const char* n, uint64_t h) { v.emplace_back(n, h); };
  unsigned short cw = 0; __asm__ volatile("fnstcw %0" : "=m"(cw));
  add("the floating-point control of the thread", (uint64_t)(__builtin_ia32_stmxcsr() & ~0x3fu) << 16 | cw);
  add("std::cout", stream(std::cout)); add("std::cerr", stream(std::cerr)); add("std::clog", stream(std::clog)); add("std::cin", stream(std::cin));
  std::locale g;
  add("the global C++ locale", fnv(g.name().data(), g.name().size()) ^ mix((uintptr_t)&std::use_facet<std::numpunct<char>>(g)));
  add("the C locale", hs(setlocale(LC_ALL, nullptr), hs(localeconv()->decimal_point)));
  add("the new handler", (uintptr_t)std::get_new_handler());
  add("the terminate handler", (uintptr_t)std::get_terminate());
  sigset_t m; sigemptyset(&m); pthread_sigmask(SIG_SETMASK, nullptr, &m);
  uint64_t mh = 0; for (int s = 1; s < 65; ++s) if (sigismember(&m, s) == 1) mh |= 1ull << (s - 1);
  add("the signal mask", mh);
  char* use = setstate(rstate);
  uint64_t rh = fnv(rstate, sizeof rstate) ^ (use != rstate);
  if (use != rstate) setstate(use);
  unsigned short t3[3] = {1, 2, 3}, old[3]; memcpy(old, seed48(t3), 6); seed48(old);
  add("the C random generators", fnv(old, 6, rh));
  uint64_t eh = 7; for (char** e = environ; e && *e; ++e) eh = hs(*e, eh);
  add("the environment variables", eh);
  add("Eigen's settings", fnv("", 0) ^ Eigen::nbThreads() * 31 ^ Eigen::l1CacheSize() ^ Eigen::l2CacheSize() << 20);
  add("standard output", ferror(stdout) | ferror(stderr) << 1 | fileno(stdout) << 4);
  if (!deep) return;
  uint64_t sh_ = 3;
  for (int s = 1; s < 65; ++s) { struct sigaction a; memset(&a, 0, sizeof a); if (sigaction(s, nullptr, &a)) continue; sh_ = mix(sh_ ^ (uintptr_t)a.sa_handler ^ (uint64_t)a.sa_flags << 50 ^ (uint64_t)s << 40); }
  add("the signal handlers", sh_);
  char cwd[4096]; add("the working directory", hs(getcwd(cwd, sizeof cwd)));
  mode_t um = umask(0); umask(um); add("the file mode mask", um);
  uint64_t lh = 5; for (int r : {RLIMIT_NOFILE, RLIMIT_STACK, RLIMIT_AS, RLIMIT_CORE, RLIMIT_DATA, RLIMIT_FSIZE}) { struct rlimit l; if (!getrlimit((__rlimit_resource_t)r, &l)) lh = mix(lh ^ l.rlim_cur ^ l.rlim_max << 1); }
  add("the resource limits", lh ^ getpriority(PRIO_PROCESS, 0));
  cpu_set_t cs; CPU_ZERO(&cs); pthread_getaffinity_np(pthread_self(), sizeof cs, &cs);
  add("the processor affinity", fnv(&cs, sizeof cs));
  uint64_t th = 11; for (int w : {ITIMER_REAL, ITIMER_VIRTUAL}) { struct itimerval t; if (!getitimer((__itimer_which_t)w, &t)) th = mix(th ^ (t.it_value.tv_sec || t.it_value.tv_usec)); }
  add("the timers", th);
  add("the open files", listing("/proc/self/fd"));
}
}  // namespace

// 0: not watched; 1: watched as it is; others: put into an unusual state first
void host_setup(uint64_t seed) {
  if (!seed) return;
  ModeGuard g(HOST);
  watching = true;
  initstate((unsigned)seed, rstate, sizeof rstate);
  if (seed == 1) return;
  count_fault(F_HOSTSET);
  Rng r(seed);
  auto fmt_ = [&](std::ostream& s) {
    if (r.p(0.4)) s.setf(std::ios::hex, std::ios::basefield);
    if (r.p(0.4)) s.setf(std::ios::scientific, std::ios::floatfield);
    if (r.p(0.4)) s << std::showpos << std::boolalpha;
    if (r.p(0.4)) s.precision(1 + r.n(20));
    if (r.p(0.4)) s.fill('*');
    if (r.p(0.3)) s.exceptions(std::ios::badbit);
    if (r.p(0.3)) s.imbue(std::locale(std::locale::classic(), new Comma));
  };
  fmt_(std::cout); fmt_(std::cerr);
  if (r.p(0.3)) std::cin.setstate(std::ios::eofbit);
  if (r.p(0.4)) std::locale::global(std::locale(std::locale::classic(), new Comma));
  if (r.p(0.3)) setlocale(LC_ALL, "C.UTF-8");
  if (r.p(0.5)) srandom((unsigned)r.n(1000000));
  if (r.p(0.3)) srand48(r.n(1000000));
  if (r.p(0.4)) std::set_new_handler(no_memory);
  if (r.p(0.3)) std::set_terminate(gone);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  for (int s : {SIGUSR1, SIGINT, SIGTERM, SIGALRM}) if (r.p(0.3)) { sa.sa_handler = on_usr; sa.sa_flags = r.p(0.5) ? SA_RESTART : 0; sigaction(s, &sa, nullptr); }
  if (r.p(0.3)) { sa.sa_handler = SIG_IGN; sigaction(SIGPIPE, &sa, nullptr); }
  if (r.p(0.3)) { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGUSR2); sigaddset(&m, SIGTERM); pthread_sigmask(SIG_BLOCK, &m, nullptr); }
  if (r.p(0.3)) { if (chdir("/")) {} }
  if (r.p(0.3)) umask(r.p(0.5) ? 0 : 0777);
  for (const char* n : {"LC_ALL", "LANG", "OMP_NUM_THREADS", "TMPDIR", "HOME", "DEBUG", "VERBOSE"})
    if (r.p(0.3)) { if (r.p(0.7)) setenv(n, r.p(0.5) ? "1" : "/nowhere", 1); else unsetenv(n); }
  if (r.p(0.3)) { struct rlimit l; if (!getrlimit(RLIMIT_NOFILE, &l) && l.rlim_cur > 64) { l.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &l); } }
}
// settings that belong to a thread; the rounding mode legitimately shows in the results
void host_thread(uint64_t seed) {
  if (seed <= 1) return;
  Rng r(seed + 77);
  if (seed & 1) {
    unsigned m = __builtin_ia32_stmxcsr();
    if (r.p(0.6)) m = (m & ~0x6000u) | (unsigned)r.n(4) << 13;
    if (r.p(0.4)) m |= 0x8040;
    __builtin_ia32_ldmxcsr(m);
  }
}
void host_base() { if (watching) { ModeGuard g(HOST); look(base, true); } }
// call around every operation, on the thread that runs it
void host_check(bool deep) {
  if (!watching || changed) return;
  ModeGuard g(HOST);
  std::vector<std::pair<const char*, uint64_t>> now;
  look(now, deep);
  for (size_t i = 0; i < now.size(); ++i) if (now[i].second != base[i].second) { diff = now[i].first; changed = true; return; }
}
std::string host_diff() { std::string d; d.swap(diff); return d; }
