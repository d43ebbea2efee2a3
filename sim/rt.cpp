// Deterministic-simulation runtime. See rt.h and ../DESIGN.md.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <iostream>
#include <new>

extern "C" char __data_start, _end, __executable_start, etext;

namespace rt {

const char* const fault_names[F_NKINDS] = {
    "alloc_fail_once", "alloc_fail_from", "qp_iteration_limit",
    "qp_failure_status", "lp_iteration_limit", "lp_solver_error",
    "cone_query_failure", "path_throw", "path_reenter",
    "preemption_in_library", "leftover_memory_pattern", "clock_jump", "stdout_write_failure",
    "short_lived_caller", "unusual_host_settings", "disk_open_failure", "disk_short_write",
    "disk_interrupted_write", "disk_write_error", "disk_close_error"};

Shared* sh = nullptr;

// ------------------------------------------------------------------ layout
static const uintptr_t BASE = 0x100000000000ull;
static const uintptr_t SZ_H = 512ull << 20;   // harness
static const uintptr_t SZ_I = 64ull << 20;    // read-only arguments
static const uintptr_t SZ_A = 1536ull << 20;  // code under test
static const uintptr_t TOTAL = SZ_H + SZ_I + SZ_A;
static const uintptr_t SHST = 0x120000000000ull;   // 1 byte / 16
static const uintptr_t SHRC = 0x140000000000ull;   // 16 bytes / 8
static uint8_t* const st = (uint8_t*)SHST;

struct Cell { uint32_t w; uint32_t r[3]; };
static Cell* const cells = (Cell*)SHRC;
static Cell* gcells = nullptr;       // executable's writable data
static uintptr_t dlo, dlen, tlo, thi;
static uintptr_t glo = 0, ghi = 0;   // libglpk text
static uintptr_t clo = 0, chi = 0;   // libc text

static inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

// ----------------------------------------------------------------- threads
struct Site { uint64_t h; uint64_t pc; uint32_t k; uint32_t n; };
struct OpState {
  OpFault f;
  int64_t ac;           // countable allocations
  bool fired;
  DepTrace dep;
};
static_assert(sizeof(OpState) <= sizeof(OpSave), "OpSave too small");
struct Thread {
  Mode mode = HOST;
  int tid = 0;
  int op = 0;
  uint64_t ev = 0, next_ev = ~0ull, sw_ev = ~0ull, last_sw = 0, total_ev = 0;
  OpState o;
  int poison = 0; uint64_t poison_seed = 0, poison_ctr = 0;
  uint64_t clk_seed = 0, clk_n = 0; int64_t clk_off = 0, clk_mono = 0;
  bool track_sites = false;
  uint32_t nsites = 0;
  Site* sites = nullptr;
  uint64_t cs[256]; uint32_t csd = 0;
  uint32_t vc[MAXT];
  bool finished = false, active = false, at_barrier = false;
  const void* blocked = nullptr;
  sem_t sem;
  pthread_t pt;
  uintptr_t slo = 0, shi = 0;
};
static Thread th[MAXT];
static __thread Thread* cur = nullptr;
static __thread bool main_ctl = false;

static bool sim_on = false, race_on = false;
static int nthr = 0, running = 0;
static int policy = 0;
static uint64_t rng_s = 1, budget = ~0ull, mean_gap = 1000;
static double hot_p = 0;
static const SwitchRec* rp = nullptr; static int rp_n = 0, rp_i = 0;
static sem_t main_sem;
static uint64_t thash = 0;
static bool inputs_prot = false;
static Site site_store[MAXT][MAXSITE];

static inline uint64_t rnd() {
  rng_s += 0x9e3779b97f4a7c15ull;
  return mix(rng_s);
}

int current_tid() { return cur ? cur->tid : 0; }
int current_op() { return cur ? cur->op : 0; }
uint64_t exe_text_lo() { return tlo; }

// ----------------------------------------------------------- violations
static void die() {
  if (sh) {
    sh->trace_hash = thash;
  }
  _exit(3);
}

static uint64_t top_pc(Thread* t) { return t && t->csd ? t->cs[(t->csd - 1) & 255] : 0; }

static void vrecord(Thread* t, uint32_t kind, uint64_t pc, uint32_t aux, const char* txt) {
  if (!sh) return;
  for (uint32_t i = 0; i < sh->nviol && i < MAXV; ++i)
    if (sh->viol[i].kind == kind && sh->viol[i].pc == pc) return;
  if (sh->nviol >= MAXV) { return; }
  Violation& v = sh->viol[sh->nviol++];
  v.kind = kind; v.thread = t ? t->tid : -1; v.op = t ? t->op : -1;
  v.aux = aux; v.ev = t ? t->ev : 0; v.pc = pc; v.pc2 = top_pc(t);
  size_t n = 0; while (txt[n] && n < sizeof(v.text) - 1) { v.text[n] = txt[n]; ++n; }
  v.text[n] = 0;
}

void record_violation(uint32_t kind, uint64_t pc, uint32_t aux, const char* fmt, ...) {
  char b[96]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  vrecord(cur, kind, pc, aux, b);
}

void count_fault(int k) { if (sh) sh->fired[k]++; }

// ------------------------------------------------------------- allocator
struct Hdr { uint32_t size; uint32_t total16; uint16_t op; uint8_t mode; uint8_t magic; uint32_t padu; };
static_assert(sizeof(Hdr) == 16, "");
static const uint8_t MAGIC = 0xA7, DEADM = 0xDD;
struct Free { Free* next; };
static const uint32_t NCLS = 4096;
struct Region {
  uintptr_t base, end, brk;
  Free* small[NCLS];
  Free* large[64];
  // quarantine ring
  uintptr_t q[8192]; uint32_t qh = 0, qt = 0; uint64_t qbytes = 0;
};
static Region reg[3];                 // H, I, A
static bool mem_ready = false;
static volatile char memlock = 0;
static uint64_t lib_live_blocks = 0, lib_live_bytes = 0;
static uint32_t op_blocks[65536], op_bytes[65536];

static void mem_init() {
  if (mem_ready) return;
  void* p = mmap((void*)BASE, TOTAL, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)BASE) _exit(90);
  p = mmap((void*)SHST, TOTAL / 16, PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)SHST) _exit(90);
  p = mmap((void*)SHRC, TOTAL * 2, PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)SHRC) _exit(90);
  uintptr_t b = BASE;
  uintptr_t szs[3] = {SZ_H, SZ_I, SZ_A};
  for (int i = 0; i < 3; ++i) { reg[i].base = reg[i].brk = b; b += szs[i]; reg[i].end = b; }
  dlo = (uintptr_t)&__data_start; dlen = (uintptr_t)&_end - dlo;
  tlo = (uintptr_t)&__executable_start; thi = (uintptr_t)&etext;
  mem_ready = true;
}

static inline void lockm() { while (__atomic_test_and_set(&memlock, __ATOMIC_ACQUIRE)) sched_yield(); }
static inline void unlockm() { __atomic_clear(&memlock, __ATOMIC_RELEASE); }

static inline uint32_t lclass(uint32_t t16) {   // >= NCLS units
  return 64 - __builtin_clzll((uint64_t)t16 - 1);
}

static void fill(void* p, size_t n, Thread* t) {
  int kind = t ? t->poison : 0;
  if (kind == 0) { memset(p, 0, n); return; }
  if (kind == 1) { memset(p, 0xFF, n); return; }
  uint64_t w;
  switch (kind) {
    case 2: { double d = 1e300; __builtin_memcpy(&w, &d, 8); break; }
    case 3: { double d = 1.5; __builtin_memcpy(&w, &d, 8); break; }
    case 4: { double d = -2.75; __builtin_memcpy(&w, &d, 8); break; }
    case 5: { w = 0x0000000100000001ull; break; }
    default: w = 0;
  }
  uint64_t* q = (uint64_t*)p; size_t m = n / 8;
  if (kind >= 6) {
    uint64_t s = mix(t->poison_seed + (t->poison_ctr++));
    if (kind == 6) for (size_t i = 0; i < m; ++i) { s = mix(s); q[i] = s; }
    else for (size_t i = 0; i < m; ++i) {        // plausible doubles
      s = mix(s); double d = (double)(int64_t)(s >> 40) / 65536.0 - 100.0; __builtin_memcpy(&q[i], &d, 8);
    }
    w = s;
  } else for (size_t i = 0; i < m; ++i) q[i] = w;
  unsigned char* c = (unsigned char*)(q + m);
  for (size_t i = m * 8; i < n; ++i) *c++ = (unsigned char)(w >> ((i & 7) * 8));
}

static void cells_clear(uintptr_t a, size_t n) {
  if (!race_on) return;
  size_t i0 = (a - BASE) >> 3, i1 = (a + n - BASE + 7) >> 3;
  memset(&cells[i0], 0, (i1 - i0) * sizeof(Cell));
}

static void* ralloc(int ri, size_t size, size_t align, Mode mode, Thread* t) {
  Region& R = reg[ri];
  if (size > (1ull << 30)) return nullptr;
  size_t pad = align > 16 ? align : 0;
  uint32_t t16 = (uint32_t)((16 + ((size + 15) & ~15ull) + 16 + pad) / 16);
  uintptr_t blk = 0;
  lockm();
  if (t16 < NCLS) {
    if (R.small[t16]) { blk = (uintptr_t)R.small[t16]; R.small[t16] = R.small[t16]->next; }
  } else {
    uint32_t c = lclass(t16); t16 = 1u << c;
    if (R.large[c]) { blk = (uintptr_t)R.large[c]; R.large[c] = R.large[c]->next; }
  }
  if (!blk) {
    size_t tot = (size_t)t16 * 16;
    if (R.brk + tot > R.end) { unlockm(); return nullptr; }
    blk = R.brk; R.brk += tot;
  }
  uintptr_t user = blk + 16;
  if (pad) user = (user + align - 1) & ~(align - 1);
  Hdr* h = (Hdr*)(user - 16);
  h->size = (uint32_t)size; h->total16 = t16; h->op = t ? (uint16_t)t->op : 0; h->mode = mode;
  h->magic = MAGIC; h->padu = (uint32_t)(user - 16 - blk);
  if (mode == LIB) { lib_live_blocks++; lib_live_bytes += size; op_blocks[h->op]++; op_bytes[h->op] += (uint32_t)size; }
  unlockm();
  // block state
  uint8_t* s = st + ((blk - BASE) >> 4);
  memset(s, 0, t16);
  uint8_t* su = st + ((user - BASE) >> 4);
  size_t full = size / 16;
  memset(su, 16, full);
  if (size & 15) su[full] = size & 15;
  if (size == 0) su[0] = 0;
  cells_clear(user, size ? size : 1);
  if (mode == LIB) fill((void*)user, (size + 15) & ~15ull, t);
  return (void*)user;
}

static void qpush(Region& R, uintptr_t blk, uint32_t t16);
static void release(Region& R, uintptr_t blk, uint32_t t16) {
  Free* f = (Free*)blk;
  if (t16 < NCLS) { f->next = R.small[t16]; R.small[t16] = f; }
  else { uint32_t c = lclass(t16); f->next = R.large[c]; R.large[c] = f; }
}
static void qpush(Region& R, uintptr_t blk, uint32_t t16) {
  R.q[R.qt & 8191] = blk; R.qt++; R.qbytes += (uint64_t)t16 * 16;
  // total16 is kept in the first header-sized slot of the block
  ((uint32_t*)blk)[0] = t16;
  while (R.qt - R.qh > 8000 || R.qbytes > (4u << 20)) {
    uintptr_t b = R.q[R.qh & 8191]; R.qh++;
    uint32_t u = ((uint32_t*)b)[0];
    R.qbytes -= (uint64_t)u * 16;
    release(R, b, u);
  }
}

static void race_free(Thread* t, uintptr_t a, size_t n, uint64_t pc);

static void rfree(void* p, uint64_t pc) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p;
  Thread* t = cur;
  if (a - BASE >= TOTAL) {
    if (t && t->mode == LIB) vrecord(t, V_BADFREE, pc, 0, "free of a pointer that is no heap block");
    return;
  }
  Hdr* h = (Hdr*)(a - 16);
  if ((a & 15) || h->magic != MAGIC) {
    vrecord(t, V_BADFREE, pc, 0, h->magic == DEADM ? "double free" : "free of a pointer that is no heap block");
    return;
  }
  int ri = a < reg[0].end ? 0 : a < reg[1].end ? 1 : 2;
  Mode m = t ? t->mode : PRE;
  if (m == LIB && h->mode == HOSTOBJ) vrecord(t, V_HOSTFREE, pc, 0, "library freed a block owned by the host program");
  if (m == LIB && h->mode == INPUT) { vrecord(t, V_BADFREE, pc, 0, "library freed one of its arguments"); return; }
  if (ri == 1 && inputs_prot) return;
  if (race_on && t && t->tid && t->mode == LIB) race_free(t, a, h->size, pc);
  Region& R = reg[ri];
  size_t size = h->size; uint32_t t16 = h->total16; uintptr_t blk = a - 16 - h->padu;
  h->magic = DEADM;
  uint8_t om = h->mode; uint16_t oop = h->op;
  memset(st + ((a - BASE) >> 4), 0xFD, (size + 15) / 16);
  if (om == LIB) { size_t n = size < 4096 ? size : 4096; memset(p, 0xDB, n); }
  lockm();
  if (om == LIB) { lib_live_blocks--; lib_live_bytes -= size; op_blocks[oop]--; op_bytes[oop] -= (uint32_t)size; }
  if (ri == 2 && !h->padu) qpush(R, blk, t16); else if (!h->padu) release(R, blk, t16);
  unlockm();
}

static inline int region_for(Mode m) { return m == LIB ? 2 : m == INPUT ? 1 : 0; }

// allocation on behalf of code at pc: counting and fault injection
static inline bool countable(uint64_t pc) {
  return !(pc >= glo && pc < ghi) && !(pc >= clo && pc < chi);
}

static void note_site(Thread* t, uint64_t pc) {
  uint64_t h = mix(pc);
  for (uint32_t i = 0, d = t->csd; i < 3 && d; ++i, --d) h = mix(h ^ t->cs[(d - 1) & 255]);
  uint32_t i = (uint32_t)h & (MAXSITE - 1);
  for (uint32_t n = 0; n < MAXSITE; ++n, i = (i + 1) & (MAXSITE - 1)) {
    Site& s = t->sites[i];
    if (s.n == 0) { s.h = h; s.pc = pc; s.k = (uint32_t)t->o.ac; s.n = 1; t->nsites++; return; }
    if (s.h == h) { s.n++; return; }
  }
}

static void* do_alloc(size_t n, size_t align, uint64_t pc) {
  if (__builtin_expect(!mem_ready, 0)) mem_init();
  Thread* t = cur;
  Mode m = t ? t->mode : (main_ctl ? HOST : PRE);
  if (m == LIB && countable(pc)) {
    t->o.ac++;
    if (sh) sh->allocs++;
    if (t->track_sites) note_site(t, pc);
    if (t->o.f.alloc_k > 0 && (t->o.ac == t->o.f.alloc_k || (t->o.f.alloc_from && t->o.ac > t->o.f.alloc_k))) {
      if (!t->o.fired || !t->o.f.alloc_from) count_fault(t->o.f.alloc_from ? F_ALLOC_FROM : F_ALLOC_ONE);
      t->o.fired = true;
      return nullptr;
    }
  }
  return ralloc(region_for(m), n, align, m, t);
}

Mode set_mode(Mode m) {
  Thread* t = cur;
  if (!t) { static Thread boot; boot.tid = 0; boot.mode = HOST; cur = t = &boot; main_ctl = true; }
  Mode o = t->mode; t->mode = m; return o;
}

bool input_addr(const void* p) { return (uintptr_t)p - reg[1].base < SZ_I; }

void protect_inputs(bool on) {
  mprotect((void*)reg[1].base, SZ_I, on ? PROT_READ : PROT_READ | PROT_WRITE);
  inputs_prot = on;
}

// ------------------------------------------------------- happens-before
struct SyncVar { const void* a; uint32_t vc[MAXT]; };
static SyncVar syncs[8192];
static SyncVar* sync_of(const void* a, bool create) {
  uint32_t i = (uint32_t)mix((uintptr_t)a) & 8191;
  for (int n = 0; n < 8192; ++n, i = (i + 1) & 8191) {
    if (syncs[i].a == a) return &syncs[i];
    if (!syncs[i].a) { if (!create) return nullptr; syncs[i].a = a; return &syncs[i]; }
  }
  return nullptr;
}
static void hb_acquire(Thread* t, const void* a) {
  if (!race_on || !t) return;
  if (SyncVar* s = sync_of(a, false)) for (int i = 0; i < MAXT; ++i) if (s->vc[i] > t->vc[i]) t->vc[i] = s->vc[i];
}
static void hb_release(Thread* t, const void* a) {
  if (!race_on || !t) return;
  if (SyncVar* s = sync_of(a, true)) {
    for (int i = 0; i < MAXT; ++i) if (t->vc[i] > s->vc[i]) s->vc[i] = t->vc[i];
    t->vc[t->tid]++;
  }
}

static inline uint32_t pack(int tid, uint32_t clk, uint32_t mask) { return ((uint32_t)tid << 30) | ((clk & 0x3fffff) << 8) | mask; }

// switches cost real time: the more there have been, the rarer they get
static uint64_t nswitch;
static inline double thin() { uint64_t k = nswitch / 20000; return (double)(1ull << (k < 20 ? k : 20)); }

static void preempt(Thread* t);

static inline Cell* cell_of(uintptr_t a) {
  if (a - BASE < TOTAL) return &cells[(a - BASE) >> 3];
  return &gcells[(a - dlo) >> 3];
}

static void race_report(Thread* t, uint64_t pc, bool w, uint32_t other, bool ow, uintptr_t a) {
  char b[96];
  snprintf(b, sizeof b, "%s by t%d conflicts with %s by t%u on %s", w ? "write" : "read", t->tid, ow ? "write" : "read",
           other, a - BASE < TOTAL ? "heap" : "global");
  vrecord(t, V_RACE, pc, w, b);
}

static uintptr_t ios_lo[4], ios_hi[4];   // standard streams: concurrent use is allowed

static __attribute__((noinline)) void race_access(Thread* t, uintptr_t a, size_t n, bool w, uint64_t pc) {
  bool global = !(a - BASE < TOTAL);
  if (global) for (int i = 0; i < 4; ++i) if (a >= ios_lo[i] && a < ios_hi[i]) return;
  uintptr_t e = a + n;
  bool hot = global && w;
  for (uintptr_t g = a & ~7ull; g < e && !hot; g += 8) {
    Cell* c = cell_of(g);
    if (c->w && (int)(c->w >> 30) != t->tid) hot = true;
    if (w) for (int j = 1; j < MAXT; ++j) if (j != t->tid && c->r[j - 1]) hot = true;
  }
  if (hot) {
    if (sh) sh->shared_events++;
    if (hot_p > 0 && !rp && t->last_sw != t->ev && (rnd() >> 11) * (1.0 / 9007199254740992.0) < hot_p / thin()) preempt(t);
  }
  uint32_t clk = t->vc[t->tid] & 0x3fffff;
  for (uintptr_t g = a & ~7ull; g < e; g += 8) {
    Cell* c = cell_of(g);
    uint32_t lo = g < a ? a - g : 0, hi = e - g < 8 ? e - g : 8;
    uint32_t m = ((1u << hi) - 1) & ~((1u << lo) - 1);
    if ((c->w & 0xff & m) && (int)(c->w >> 30) != t->tid && ((c->w >> 8) & 0x3fffff) > t->vc[c->w >> 30])
      race_report(t, pc, w, c->w >> 30, true, a);
    if (w) {
      for (int j = 1; j < MAXT; ++j) if (j != t->tid && (c->r[j - 1] & m & 0xff) && ((c->r[j - 1] >> 8) & 0x3fffff) > t->vc[j])
        race_report(t, pc, w, j, false, a);
      uint32_t om = ((int)(c->w >> 30) == t->tid && ((c->w >> 8) & 0x3fffff) == clk) ? c->w & 0xff : 0;
      c->w = pack(t->tid, clk, m | om);
    } else {
      uint32_t o = c->r[t->tid - 1];
      uint32_t om = ((o >> 8) & 0x3fffff) == clk ? o & 0xff : 0;
      c->r[t->tid - 1] = pack(0, clk, m | om);
    }
  }
}

static void race_free(Thread* t, uintptr_t a, size_t n, uint64_t pc) {
  for (uintptr_t g = a & ~7ull; g < a + n; g += 8) {
    Cell* c = cell_of(g);
    if (c->w && (int)(c->w >> 30) != t->tid && ((c->w >> 8) & 0x3fffff) > t->vc[c->w >> 30]) { race_report(t, pc, true, c->w >> 30, true, a); break; }
    bool hit = false;
    for (int j = 1; j < MAXT; ++j) if (j != t->tid && c->r[j - 1] && ((c->r[j - 1] >> 8) & 0x3fffff) > t->vc[j]) { race_report(t, pc, true, j, false, a); hit = true; break; }
    if (hit) break;
  }
}

// --------------------------------------------------------------- scheduler
static bool runnable(int i) { return th[i].active && !th[i].finished && !th[i].blocked; }

static void plan_next(Thread* t) {
  uint64_t s = ~0ull;
  if (rp) {
    while (rp_i < rp_n && rp[rp_i].tid == t->tid && rp[rp_i].forced == 0 &&
           ((rp[rp_i].op == t->op && rp[rp_i].ev < t->ev) || !runnable(rp[rp_i].to) )) ++rp_i;
    if (rp_i < rp_n && rp[rp_i].tid == t->tid && rp[rp_i].forced == 0 && rp[rp_i].op == t->op) s = rp[rp_i].ev;
  } else if (nthr > 1 && (policy == 1 || policy == 4)) {
    // geometric gap
    double u = ((rnd() >> 11) + 1) * (1.0 / 9007199254740993.0);
    double g = -__builtin_log(u) * (double)mean_gap * thin();
    s = t->ev + 1 + (uint64_t)(g < 1e15 ? g : 1e15);
  } else if (nthr > 1 && policy == 2) {
    s = t->sw_ev > t->ev && t->sw_ev != ~0ull ? t->sw_ev : ~0ull;
  }
  t->sw_ev = s;
  t->next_ev = s < budget ? s : budget;
  uint64_t starve = t->ev + 8000000;   // fairness bound
  if (nthr > 1 && !rp && starve < t->next_ev) t->next_ev = starve;
}

static void rec_switch(Thread* t, int to, int forced) {
  ++nswitch;
  thash = mix(thash ^ ((uint64_t)(t ? t->tid : 0) << 56) ^ ((uint64_t)to << 48) ^ ((uint64_t)forced << 40) ^ mix(t ? ((uint64_t)t->op << 40) ^ (forced ? 0 : t->ev) : 0));
  if (!sh) return;
  if (sh->nsw >= MAXSW) { sh->sw_overflow++; return; }
  SwitchRec& r = sh->sw[sh->nsw++];
  r.tid = t ? t->tid : 0; r.to = to; r.forced = forced; r.op = t ? t->op : 0; r.ev = forced ? 0 : t->ev;
}

static int pick_other(Thread* t, int forced) {
  int c[MAXT], n = 0;
  for (int i = 1; i <= nthr; ++i) if (i != (t ? t->tid : 0) && runnable(i)) c[n++] = i;
  if (!n) return 0;
  if (rp) {
    if (rp_i < rp_n && rp[rp_i].tid == (t ? t->tid : 0) && rp[rp_i].forced == forced && (forced || rp[rp_i].ev == t->ev)) {
      int to = rp[rp_i].to;
      if (forced || runnable(to)) { ++rp_i; }
      for (int i = 0; i < n; ++i) if (c[i] == to) return to;
    } else if (forced) {
      // the recorded decision was minimised away: take the first; drop stale records of this thread
      return c[0];
    }
    return forced ? c[0] : 0;
  }
  return c[rnd() % n];
}

static void hand_over(Thread* t, int to) {   // block until chosen again
  running = to;
  sem_post(&th[to].sem);
  while (sem_wait(&t->sem) != 0) {}
}

static void preempt(Thread* t) {
  t->last_sw = t->ev;
  int to = pick_other(t, 0);
  if (!to) return;
  rec_switch(t, to, 0);
  if (sh) { sh->preempts++; sh->fired[F_PREEMPT]++; }
  hand_over(t, to);
}

static __attribute__((noinline)) void slow(Thread* t) {
  if (t->ev >= budget) {
    vrecord(t, V_STEPS, top_pc(t), 0, "step budget exhausted: the call does not end");
    die();
  }
  if (nthr > 1 && t->ev >= t->sw_ev) { t->sw_ev = ~0ull; preempt(t); }
  else if (nthr > 1 && !rp) preempt(t);
  plan_next(t);
}

static void wait_on(Thread* t, const void* obj) {   // obj busy: give way
  int others = 0;
  t->blocked = obj;
  for (int i = 1; i <= nthr; ++i) others += runnable(i);
  if (!others) {
    vrecord(t, V_DEADLOCK, top_pc(t), 0, "all callers blocked");
    die();
  }
  int to = pick_other(t, 2);
  rec_switch(t, to, 2);
  hand_over(t, to);
  plan_next(t);
}
static void wake(const void* obj) {
  for (int i = 1; i <= nthr; ++i) if (th[i].blocked == obj) th[i].blocked = nullptr;
}
static void give_way(Thread* t) {
  int to = pick_other(t, 3);
  if (!to) return;
  rec_switch(t, to, 3);
  hand_over(t, to);
  plan_next(t);
}
void yield_point() {
  Thread* t = cur;
  if (!sim_on || !t || !t->tid) return;
  ++t->ev;
  if (t->ev >= t->next_ev) slow(t);
}

// ------------------------------------------------------------ access hooks
static __attribute__((noinline)) void heap_check(Thread* t, uintptr_t a, size_t n, bool w, uint64_t pc) {
  uintptr_t e = a + n;
  for (uintptr_t g = a & ~15ull; g < e; g += 16) {
    uint8_t s = st[(g - BASE) >> 4];
    uintptr_t hi = e - g < 16 ? e - g : 16;
    if (s == 16) continue;
    if (s == 0xFD) { vrecord(t, V_OOB, pc, w, w ? "write to freed memory" : "read of freed memory"); return; }
    if (s > 16 || hi > s) { vrecord(t, V_OOB, pc, w, w ? "write outside a heap block" : "read outside a heap block"); return; }
  }
}

static inline __attribute__((always_inline)) void on_access(void* p, size_t n, bool w, uint64_t pc) {
  Thread* t = cur;
  if (!t || t->mode != LIB) return;
  ++t->ev;
  if (__builtin_expect(t->ev >= t->next_ev, 0)) slow(t);
  uintptr_t a = (uintptr_t)p;
  if (a - BASE < TOTAL) {
    uint8_t s = st[(a - BASE) >> 4];
    if (__builtin_expect(s != 16 || (a & 15) + n > 16, 0)) heap_check(t, a, n, w, pc);
    if (race_on && t->tid) race_access(t, a, n, w, pc);
  } else if (a - dlo < dlen) {
    if (race_on && t->tid) race_access(t, a, n, w, pc);
  }
}

static void on_range(const void* p, size_t n, bool w, uint64_t pc) {
  Thread* t = cur;
  if (!t || t->mode != LIB || !n) return;
  ++t->ev;
  if (t->ev >= t->next_ev) slow(t);
  uintptr_t a = (uintptr_t)p;
  if (a - BASE < TOTAL) {
    if (a + n - BASE > TOTAL) { vrecord(t, V_OOB, pc, w, "range leaves the heap"); return; }
    heap_check(t, a, n, w, pc);
    if (race_on && t->tid) race_access(t, a, n, w, pc);
  } else if (a - dlo < dlen && race_on && t->tid) race_access(t, a, n, w, pc);
}

// ------------------------------------------------------------------- ops
// every operation may use this much processor time
static int guard_sec = 0;
void start_guard(int sec) {
  guard_sec = sec;
  struct itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &v, nullptr);
}

void op_begin(int op, const OpFault& f, int poison_kind, uint64_t poison_seed, uint64_t clock_seed) {
  Thread* t = cur;
  if (guard_sec) start_guard(guard_sec);
  t->op = op; t->ev = 0; t->last_sw = ~0ull; t->csd = 0;
  t->o.f = f; t->o.ac = 0; t->o.fired = false; t->o.dep = DepTrace();
  t->poison = poison_kind; t->poison_seed = poison_seed; t->poison_ctr = 0;
  t->nsites = 0; t->sites = site_store[t->tid];
  t->clk_seed = clock_seed; t->clk_n = 0; t->clk_off = t->clk_mono = 0;
  if (t->track_sites) memset(t->sites, 0, sizeof(Site) * MAXSITE);
  if (poison_kind) count_fault(F_POISON);
  if (policy == 2 && !rp && nthr > 1) { t->sw_ev = 1 + rnd() % mean_gap; }
  thash = mix(thash ^ ((uint64_t)t->tid << 32) ^ op);
  if (sim_on && t->tid) { plan_next(t); yield_point(); }
  }
void op_end() {
  Thread* t = cur;
  t->total_ev += t->ev;
  if (sh) sh->events += t->ev;
  thash = mix(thash ^ t->ev);
  OpFault none; t->o.f = none;
}
int64_t op_allocs() { return cur->o.ac; }
int64_t op_live_blocks() { return op_blocks[(uint16_t)cur->op]; }
int64_t op_live_bytes() { return op_bytes[(uint16_t)cur->op]; }
bool op_alloc_fault_fired() { return cur->o.fired; }
DepTrace& op_dep() { return cur->o.dep; }
uint64_t op_events() { return cur->ev; }
uint64_t total_lib_live_blocks() { return lib_live_blocks; }
uint64_t total_lib_live_bytes() { return lib_live_bytes; }
void op_save(OpSave& s) { memcpy(s.b, &cur->o, sizeof(OpState)); }
void op_restore(const OpSave& s) { memcpy(&cur->o, s.b, sizeof(OpState)); }
int op_alloc_sites(uint32_t* k, uint64_t* pcs, int max) {
  Thread* t = cur; int n = 0;
  if (!t->sites) return 0;
  for (uint32_t i = 0; i < MAXSITE && n < max; ++i) if (t->sites[i].n) { k[n] = t->sites[i].k; if (pcs) pcs[n] = t->sites[i].h; ++n; }
  return n;
}
void live_blocks_report() {}

// fault queries for the wrapped dependencies
OpFault& op_fault() { return cur->o.f; }
bool in_lib() { return cur && cur->mode == LIB; }
void track_sites(bool on) { if (cur) cur->track_sites = on; for (auto& t : th) t.track_sites = on; }

__attribute__((noinline)) static void paint(int kind, uint64_t seed) {
  volatile unsigned char buf[700 * 1024];
  unsigned char* b = (unsigned char*)buf;
  Thread* t = cur;
  int ok = t->poison; uint64_t os = t->poison_seed, oc = t->poison_ctr;
  t->poison = kind; t->poison_seed = mix(seed ^ 77); t->poison_ctr = 0;
  fill(b, sizeof buf, t);
  t->poison = ok; t->poison_seed = os; t->poison_ctr = oc;
  __asm__ volatile("" ::"r"(b) : "memory");
}
void stack_paint() { paint(cur->poison, cur->poison_seed); }

// --------------------------------------------------------------- lifecycle
static void* tmain(void* a);
static ThreadFn user_fn;

static int phdr_cb(struct dl_phdr_info* info, size_t, void*) {
  const char* n = info->dlpi_name ? info->dlpi_name : "";
  bool g = strstr(n, "libglpk") != nullptr, c = strstr(n, "/libc.so") != nullptr;
  if (!g && !c) return 0;
  uintptr_t lo = ~0ull, hi = 0;
  for (int i = 0; i < info->dlpi_phnum; ++i) if (info->dlpi_phdr[i].p_type == PT_LOAD) {
    uintptr_t b = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
    if (b < lo) lo = b;
    if (b + info->dlpi_phdr[i].p_memsz > hi) hi = b + info->dlpi_phdr[i].p_memsz;
  }
  if (g) { glo = lo; ghi = hi; } else { clo = lo; chi = hi; }
  return 0;
}

static void on_signal(int sig, siginfo_t* si, void* uc) {
  ucontext_t* u = (ucontext_t*)uc;
  uint64_t pc = u->uc_mcontext.gregs[REG_RIP];
  Thread* t = cur;
  uintptr_t fa = (uintptr_t)si->si_addr;
  if (sig == SIGSEGV && inputs_prot && fa - reg[1].base < SZ_I && si->si_code == SEGV_ACCERR) {
    vrecord(t, V_INPUTWRITE, pc, 1, "write to a read-only argument of the call");
    mprotect((void*)(fa & ~4095ull), 4096, PROT_READ | PROT_WRITE);
    return;
  }
  if (sig == SIGPROF) { vrecord(t, V_STEPS, pc, sig, "CPU-time guard expired: the call does not end"); die(); }
  if (sig == SIGSEGV && t && t->slo && fa >= t->slo - (1 << 16) && fa < t->slo + (1 << 16)) {
    vrecord(t, V_STACK, pc, sig, "stack overflow");
    die();
  }
  char b[96];
  snprintf(b, sizeof b, sig == SIGABRT ? "process aborted (signal %d)" : "crash (signal %d)", sig);
  uint64_t ipc = (pc >= tlo && pc < thi) ? pc : top_pc(t);
  vrecord(t, sig == SIGABRT ? V_TERMINATE : V_CRASH, ipc, sig, b);
  die();
}

static void alt_stack() {
  void* p = mmap(nullptr, 128 << 10, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = p; ss.ss_size = 128 << 10;
  sigaltstack(&ss, nullptr);
}

void install_handlers() {
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGPROF};
  for (int s : sigs) sigaction(s, &sa, nullptr);
  alt_stack();
}


// simulated clocks: the code under test never reads a real one
static int64_t sim_clock(Thread* t, bool mono) {
  uint64_t n = ++t->clk_n;
  if (t->clk_seed) {
    uint64_t r = mix(t->clk_seed ^ (n * 0x9e37ull)), m = mix(r);
    const int64_t cap = 10ll * 86400 * 1000000000;
    if ((r & 3) == 0 && t->clk_mono < cap && t->clk_off < cap && t->clk_off > -cap) {   // slow or suspended process, or the clock was set
      int64_t j = (int64_t)(m % (1ull << (10 + (r >> 8) % 36)));   // up to 9 hours
      count_fault(F_CLOCK);
      if (mono || (r & 4)) { t->clk_off += j; t->clk_mono += j; } else t->clk_off -= j;
    }
  }
  return 1700000000ll * 1000000000 + (int64_t)(n * 1000 + t->ev) + (mono ? t->clk_mono : t->clk_off);
}

// glibc opens libgcc_s the first time an exception leaves a pthread_once routine, and ends the process when that fails:
// have it done before any allocation fault exists
static void throw_int() { throw 1; }
static void preload_unwinder() {
  static pthread_once_t o = PTHREAD_ONCE_INIT;
  try { pthread_once(&o, throw_int); } catch (int) {}
}
void init() {
  mem_init();
  main_ctl = true;
  set_mode(HOST);
  dl_iterate_phdr(phdr_cb, nullptr);
  size_t n = (dlen / 8 + 2) * sizeof(Cell);
  ios_lo[0] = (uintptr_t)&std::cout; ios_hi[0] = ios_lo[0] + sizeof(std::cout);
  ios_lo[1] = (uintptr_t)&std::cerr; ios_hi[1] = ios_lo[1] + sizeof(std::cerr);
  ios_lo[2] = (uintptr_t)&std::clog; ios_hi[2] = ios_lo[2] + sizeof(std::clog);
  gcells = (Cell*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  preload_unwinder();
}

void begin_run(uint64_t seed, int n, int pol, uint64_t step_budget) {
  rng_s = mix(seed); nthr = n; policy = pol & 0xff; budget = step_budget;
  static const uint64_t gaps[] = {3, 30, 300, 3000, 20000, 100000, 500000, 2000000};
  mean_gap = gaps[rnd() % 8];
  if (policy == 2) mean_gap = 20000 + rnd() % 400000;
  hot_p = (policy == 3 || policy == 4) ? 0.02 + 0.5 * ((rnd() >> 11) * (1.0 / 9007199254740992.0)) : 0.0;
  race_on = n > 1;
  sim_on = true;
  nswitch = 0;
  if (n > 1) { cpu_set_t cs; CPU_ZERO(&cs); int c = sched_getcpu(); if (c >= 0) { CPU_SET(c, &cs); sched_setaffinity(0, sizeof cs, &cs); } }   // one runs at a time anyway
  sem_init(&main_sem, 0, 0);
  for (int i = 1; i <= n; ++i) {
    th[i].tid = i; th[i].mode = HOST; th[i].active = true; th[i].finished = false; th[i].blocked = nullptr; th[i].at_barrier = false;
    sem_init(&th[i].sem, 0, 0);
    for (int j = 0; j < MAXT; ++j) th[i].vc[j] = 0;
    th[i].vc[i] = 1;
  }
}
void set_replay(const SwitchRec* r, int n) { rp = r; rp_n = n; rp_i = 0; hot_p = 0; }

static int barrier_gen;
static bool barrier_open() {
  for (int i = 1; i <= nthr; ++i) if (!th[i].finished && !th[i].at_barrier) return false;
  for (int i = 1; i <= nthr; ++i) th[i].at_barrier = false;
  ++barrier_gen; wake(&barrier_gen);
  return true;
}
void barrier() {
  Thread* t = cur;
  if (nthr < 2) return;
  int g = barrier_gen;
  hb_release(t, &barrier_gen);
  t->at_barrier = true;
  if (!barrier_open()) while (barrier_gen == g) wait_on(t, &barrier_gen);
  hb_acquire(t, &barrier_gen);
}

static void finish(Thread* t) {
  t->finished = true; t->mode = HOST;
  hb_release(t, &barrier_gen);
  barrier_open();
  int to = pick_other(t, 1);
  if (to) { rec_switch(t, to, 1); running = to; sem_post(&th[to].sem); return; }
  bool all = true;
  for (int i = 1; i <= nthr; ++i) if (!th[i].finished) all = false;
  if (!all) { vrecord(t, V_DEADLOCK, 0, 0, "callers blocked for ever"); die(); }
  sem_post(&main_sem);
}

static void* tmain(void* a) {
  Thread* t = (Thread*)a;
  cur = t; t->mode = HOST;
  alt_stack();
  pthread_attr_t at; void* sa; size_t ssz;
  if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &sa, &ssz); t->slo = (uintptr_t)sa; t->shi = t->slo + ssz; pthread_attr_destroy(&at); }
  while (sem_wait(&t->sem) != 0) {}
  user_fn(t->tid);
  return a;
}

// thread_local destructors of the code under test run after user_fn: the
// thread hands over only when it is really gone (pthread key destructor).
static pthread_key_t endkey; static bool have_key = false;
static void on_thread_end(void* a) {
  // run at the very last destructor round so that C++ thread_locals are gone
  Thread* t = (Thread*)a;
  finish(t);
  cur = nullptr;
}
static void* tmain2(void* a) {
  pthread_setspecific(endkey, a);
  tmain(a);
  ((Thread*)a)->mode = HOST;
  return nullptr;
}

// a caller that lives for one call only
struct Brief { Thread* t; void (*fn)(void*); void* a; };
static void* brief_main(void* a) {
  Brief* b = (Brief*)a;
  cur = b->t;
  static char alt[MAXT][128 << 10];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt[cur->tid]; ss.ss_size = sizeof alt[0];
  sigaltstack(&ss, nullptr);
  pthread_attr_t at; void* sa; size_t ssz;
  if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &sa, &ssz); cur->slo = (uintptr_t)sa; cur->shi = cur->slo + ssz; pthread_attr_destroy(&at); }
  b->fn(b->a);
  return nullptr;
}
void brief_thread(void (*fn)(void*), void* a) {
  Thread* t = cur;
  Brief b{t, fn, a};
  count_fault(F_BRIEF);
  uintptr_t lo = t->slo, hi = t->shi;
  pthread_t p; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
  if (pthread_create(&p, &at, brief_main, &b) != 0) _exit(92);
  pthread_join(p, nullptr);
  t->slo = lo; t->shi = hi;
}

void run_threads(ThreadFn fn) {
  user_fn = fn;
  if (!have_key) { pthread_key_create(&endkey, on_thread_end); have_key = true; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
  for (int i = 1; i <= nthr; ++i)
    if (pthread_create(&th[i].pt, &at, tmain2, &th[i]) != 0) _exit(91);
  Thread* none = nullptr;
  int first = pick_other(none, 1);
  rec_switch(none, first, 1);
  running = first;
  sem_post(&th[first].sem);
  while (sem_wait(&main_sem) != 0) {}
  for (int i = 1; i <= nthr; ++i) pthread_join(th[i].pt, nullptr);
  sim_on = false;
  if (sh) sh->trace_hash = thash;
}

}  // namespace rt

using namespace rt;
#define PC ((uint64_t)__builtin_return_address(0))

// ------------------------------------------------------------ libc overrides
extern "C" {
void* malloc(size_t n) { void* p = do_alloc(n, 16, PC); if (!p) errno = ENOMEM; return p; }
void free(void* p) { if (p) rfree(p, PC); }
void* calloc(size_t a, size_t b) {
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = do_alloc(n, 16, PC); if (!p) { errno = ENOMEM; return nullptr; }
  memset(p, 0, n); return p;
}
void* realloc(void* p, size_t n) {
  uint64_t pc = PC;
  if (!p) { void* q = do_alloc(n, 16, pc); if (!q) errno = ENOMEM; return q; }
  if (!n) { rfree(p, pc); return nullptr; }
  if ((uintptr_t)p - 0x100000000000ull >= (2112ull << 20)) return nullptr;
  size_t o = ((uint32_t*)((char*)p - 16))[0];
  void* q = do_alloc(n, 16, pc); if (!q) { errno = ENOMEM; return nullptr; }
  memcpy(q, p, o < n ? o : n);
  rfree(p, pc);
  return q;
}
void* memalign(size_t al, size_t n) { void* p = do_alloc(n, al, PC); if (!p) errno = ENOMEM; return p; }
void* aligned_alloc(size_t al, size_t n) { void* p = do_alloc(n, al, PC); if (!p) errno = ENOMEM; return p; }
int posix_memalign(void** r, size_t al, size_t n) { void* p = do_alloc(n, al, PC); if (!p) return ENOMEM; *r = p; return 0; }
void* valloc(size_t n) { return do_alloc(n, 4096, PC); }
void* pvalloc(size_t n) { return do_alloc((n + 4095) & ~4095ull, 4096, PC); }
size_t malloc_usable_size(void* p) { return p ? ((uint32_t*)((char*)p - 16))[0] : 0; }

void __tsan_init() {}
void __tsan_func_entry(void* pc) { Thread* t = cur; if (t && t->mode == LIB) { t->cs[t->csd & 255] = (uint64_t)pc; t->csd++; } }
void __tsan_func_exit() { Thread* t = cur; if (t && t->mode == LIB && t->csd) t->csd--; }
#define ACC(N) \
  void __tsan_read##N(void* a) { on_access(a, N, false, PC); } \
  void __tsan_write##N(void* a) { on_access(a, N, true, PC); } \
  void __tsan_unaligned_read##N(void* a) { on_access(a, N, false, PC); } \
  void __tsan_unaligned_write##N(void* a) { on_access(a, N, true, PC); } \
  void __tsan_volatile_read##N(void* a) { on_access(a, N, false, PC); } \
  void __tsan_volatile_write##N(void* a) { on_access(a, N, true, PC); } \
  void __tsan_unaligned_volatile_read##N(void* a) { on_access(a, N, false, PC); } \
  void __tsan_unaligned_volatile_write##N(void* a) { on_access(a, N, true, PC); } \
  void __tsan_read##N##_pc(void* a, void*) { on_access(a, N, false, PC); } \
  void __tsan_write##N##_pc(void* a, void*) { on_access(a, N, true, PC); } \
  void __tsan_read_write##N(void* a) { on_access(a, N, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, unsigned long n) { on_range(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { on_range(a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { on_access(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { on_access(a, 8, false, PC); }

// atomics: synchronisation (acquire+release) and scheduling points
static inline void at_pre(const volatile void* a, size_t n) {
  Thread* t = cur; if (!t || t->mode != LIB) return;
  ++t->ev; if (t->ev >= t->next_ev) slow(t);
  uintptr_t u = (uintptr_t)a;
  if (u - 0x100000000000ull < (2112ull << 20)) heap_check(t, u, n, false, PC);
}
#define ATOM(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int) { at_pre(a, sizeof(T)); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); hb_acquire(cur, (const void*)a); return v; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { at_pre(a, sizeof(T)); hb_release(cur, (const void*)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { at_pre(a, sizeof(T)); hb_acquire(cur, (const void*)a); hb_release(cur, (const void*)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { at_pre(a, sizeof(T)); hb_acquire(cur, (const void*)a); hb_release(cur, (const void*)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { at_pre(a, sizeof(T)); hb_acquire(cur, (const void*)a); hb_release(cur, (const void*)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { at_pre(a, sizeof(T)); hb_acquire(cur, (const void*)a); hb_release(cur, (const void*)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { at_pre(a, sizeof(T)); hb_acquire(cur, (const void*)a); hb_release(cur, (const void*)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { at_pre(a, sizeof(T)); hb_acquire(cur, (const void*)a); hb_release(cur, (const void*)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { at_pre(a, sizeof(T)); hb_acquire(cur, (const void*)a); hb_release(cur, (const void*)a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { at_pre(a, sizeof(T)); hb_acquire(cur, (const void*)a); hb_release(cur, (const void*)a); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { at_pre(a, sizeof(T)); hb_acquire(cur, (const void*)a); hb_release(cur, (const void*)a); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int, int) { at_pre(a, sizeof(T)); hb_acquire(cur, (const void*)a); hb_release(cur, (const void*)a); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
ATOM(8, a8) ATOM(16, a16) ATOM(32, a32) ATOM(64, a64)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// block operations
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { on_range(s, n, false, PC); on_range(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { on_range(s, n, false, PC); on_range(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { on_range(d, n, true, PC); return __real_memset(d, c, n); }

void* __tsan_memcpy(void* d, const void* s, size_t n) { on_range(s, n, false, PC); on_range(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { on_range(s, n, false, PC); on_range(d, n, true, PC); return __real_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { on_range(d, n, true, PC); return __real_memset(d, c, n); }

// static-local guards
int __cxa_guard_acquire(long long int* g) {
  volatile unsigned char* b = (volatile unsigned char*)g;
  Thread* t = cur;
  bool sim = sim_on && t && t->tid;
  for (;;) {
    if (sim) { ++t->ev; if (t->ev >= t->next_ev) slow(t); }
    if (b[0]) { hb_acquire(t, g); return 0; }
    if (!b[1]) { b[1] = 1; b[2] = (unsigned char)(t ? t->tid : 0); return 1; }
    if (sim) {
      if (b[2] == (unsigned char)t->tid) { vrecord(t, V_DEADLOCK, PC, 0, "recursive static initialisation"); die(); }
      wait_on(t, g);
    } else sched_yield();
  }
}
void __cxa_guard_release(long long int* g) { volatile unsigned char* b = (volatile unsigned char*)g; hb_release(cur, g); b[1] = 0; b[0] = 1; wake(g); }
void __cxa_guard_abort(long long int* g) { volatile unsigned char* b = (volatile unsigned char*)g; b[1] = 0; wake(g); }

// blocking primitives become cooperative on simulated threads
typedef int (*mfn)(pthread_mutex_t*);
static mfn r_lock, r_trylock, r_unlock;
static void resolve() {
  if (r_lock) return;
  r_trylock = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  r_unlock = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  r_lock = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
}
static inline bool simt() { Thread* t = cur; return sim_on && t && t->tid && t->mode == LIB; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  resolve();
  if (!simt()) return r_lock(m);
  Thread* t = cur;
  yield_point();
  for (;;) {
    int r = r_trylock(m);
    if (r == 0) { hb_acquire(t, m); return 0; }
    if (r != EBUSY) return r_lock(m);
    if (m->__data.__owner == gettid()) {   // it would wait for itself
      if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
      vrecord(t, V_DEADLOCK, PC, 0, "the call waits for a lock its own thread holds"); die();
    }
    wait_on(t, m);
  }
}
int pthread_mutex_trylock(pthread_mutex_t* m) { resolve(); if (simt()) yield_point(); int r = r_trylock(m); if (r == 0 && simt()) hb_acquire(cur, m); return r; }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  resolve();
  if (!simt()) return r_unlock(m);
  hb_release(cur, m);
  int r = r_unlock(m); wake(m); yield_point(); return r;
}
typedef int (*rwfn)(pthread_rwlock_t*);
#define RW(name, acq) \
  int pthread_rwlock_##name(pthread_rwlock_t* m) { \
    static rwfn f, tf; if (!f) { tf = (rwfn)dlsym(RTLD_NEXT, "pthread_rwlock_try" #name); f = (rwfn)dlsym(RTLD_NEXT, "pthread_rwlock_" #name); } \
    if (!simt()) return f(m); \
    yield_point(); \
    for (;;) { int r = tf(m); if (r == 0) { hb_acquire(cur, m); return 0; } if (r != EBUSY) return r; wait_on(cur, m); } }
RW(rdlock, 1) RW(wrlock, 1)
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  static rwfn f; if (!f) f = (rwfn)dlsym(RTLD_NEXT, "pthread_rwlock_unlock");
  if (!simt()) return f(m);
  hb_release(cur, m); int r = f(m); wake(m); yield_point(); return r;
}
// once: real state is kept in the control word (0 new, 2 done), progress in a table
static const void* volatile once_busy[64]; static volatile int once_owner[64];   // volatile: gcc drops the store made while unwinding
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  typedef int (*ofn)(pthread_once_t*, void (*)(void));
  static ofn f; if (!f) f = (ofn)dlsym(RTLD_NEXT, "pthread_once");
  if (!simt()) return f(o, fn);
  Thread* t = cur;
  for (;;) {
    yield_point();
    int slot = -1;
    for (int i = 0; i < 64; ++i) if (once_busy[i] == o) slot = i;
    if (slot < 0) break;
    if (once_owner[slot] == t->tid) { vrecord(t, V_DEADLOCK, PC, 0, "recursive once"); die(); }
    wait_on(t, o);
  }
  int s = 0; while (s < 63 && once_busy[s]) ++s;
  once_busy[s] = o; once_owner[s] = t->tid;
  hb_acquire(t, o);
  struct Done { int s; pthread_once_t* o; ~Done() { once_busy[s] = nullptr; hb_release(cur, o); wake(o); } } d{s, o};
  return f(o, fn);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  typedef int (*cfn)(pthread_cond_t*, pthread_mutex_t*);
  static cfn f; if (!f) f = (cfn)dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
  if (!simt()) return f(c, m);
  pthread_mutex_unlock(m); give_way(cur); return pthread_mutex_lock(m);   // spurious wake-up
}
int sched_yield() {
  if (simt()) { ++cur->ev; give_way(cur); return 0; }
  typedef int (*yfn)(); static yfn f; if (!f) f = (yfn)dlsym(RTLD_NEXT, "sched_yield");
  return f();
}
}  // extern "C"

// clocks and entropy
#define SIMCLK() (cur && cur->mode == LIB)
extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (!SIMCLK()) return (int)syscall(SYS_clock_gettime, id, ts);
  int64_t v = sim_clock(cur, id != CLOCK_REALTIME);
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0;
}
int gettimeofday(struct timeval* tv, void* tz) noexcept {
  if (!SIMCLK()) return (int)syscall(SYS_gettimeofday, tv, tz);
  int64_t v = sim_clock(cur, false); tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000; return 0;
}
time_t time(time_t* p) noexcept {
  int64_t v; if (SIMCLK()) v = sim_clock(cur, false) / 1000000000; else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
  if (p) *p = v; return v;
}
clock_t clock() noexcept {
  if (SIMCLK()) return (clock_t)((sim_clock(cur, true) - 1700000000ll * 1000000000) / 1000);
  struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
ssize_t getrandom(void* b, size_t n, unsigned f) {
  if (!SIMCLK()) return syscall(SYS_getrandom, b, n, f);
  for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)(mix(cur->clk_seed * 31 + ++cur->clk_n) >> 9);
  return (ssize_t)n;
}
int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
// std::random_device
unsigned _ZNSt13random_device9_M_getvalEv(void*) { Thread* t = cur; return t ? (unsigned)mix(t->clk_seed * 31 + ++t->clk_n) : 4; }
}

// C++ allocation
static inline void* onew(size_t n, size_t al, uint64_t pc) { void* p = do_alloc(n ? n : 1, al, pc); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return onew(n, 16, PC); }
void* operator new[](size_t n) { return onew(n, 16, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_alloc(n ? n : 1, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_alloc(n ? n : 1, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { return onew(n, (size_t)a, PC); }
void* operator new[](size_t n, std::align_val_t a) { return onew(n, (size_t)a, PC); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_alloc(n, (size_t)a, PC); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_alloc(n, (size_t)a, PC); }
void operator delete(void* p) noexcept { if (p) rfree(p, PC); }
void operator delete[](void* p) noexcept { if (p) rfree(p, PC); }
void operator delete(void* p, size_t) noexcept { if (p) rfree(p, PC); }
void operator delete[](void* p, size_t) noexcept { if (p) rfree(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { if (p) rfree(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { if (p) rfree(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { if (p) rfree(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { if (p) rfree(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { if (p) rfree(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { if (p) rfree(p, PC); }
