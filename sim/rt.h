// Deterministic-simulation runtime: allocator, scheduler, fault injection,
// access hooks. No Eigen in here: compiled without instrumentation.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace rt {

// ---------------------------------------------------------------- modes
// Who is running on this thread right now: decides where memory comes from
// and whether accesses are simulated.
enum Mode : uint8_t {
  HOST = 0,     // harness
  LIB = 1,      // code under test
  INPUT = 2,    // harness building read-only arguments
  HOSTOBJ = 3,  // harness acting as the host program (its own LP objects)
  PRE = 4,      // before the simulation (static initialisers)
};

enum VKind : uint32_t {
  V_NONE = 0,
  V_OOB = 1,        // access outside a live block
  V_BADFREE = 2,    // double free / foreign pointer / foreign owner
  V_RACE = 3,       // unsynchronised conflicting accesses
  V_INPUTWRITE = 4, // write to a read-only argument
  V_CRASH = 5,      // signal
  V_DEADLOCK = 6,
  V_STEPS = 7,      // step budget exhausted
  V_HOSTFREE = 8,   // library freed a block owned by the host program
  V_TERMINATE = 9,  // std::terminate / abort
  V_STACK = 10,     // ran off the end of its stack
};

struct Violation {
  uint32_t kind;
  int32_t thread;
  int32_t op;
  uint32_t aux;      // write?, signal, ...
  uint64_t ev;
  uint64_t pc;       // code address in the executable (0 if unknown)
  uint64_t pc2;
  char text[96];
};

struct SwitchRec {   // one scheduling decision that moved control
  int8_t tid;
  int8_t to;
  int16_t forced;    // 0 preemption, 1 finish, 2 block, 3 yield
  int32_t op;
  uint64_t ev;
};

static const int MAXT = 4;          // thread 0 is the controller
static const int MAXV = 16;
static const int MAXSW = 20000;
static const int MAXSITE = 4096;

enum FaultKind {
  F_ALLOC_ONE = 0,   // k-th allocation fails
  F_ALLOC_FROM,      // every allocation from the k-th on fails
  F_QP_MAXITER,      // QP stops after a iterations
  F_QP_STATUS,       // QP reports status a
  F_LP_ITLIM,        // LP stops after a iterations
  F_LP_FAIL,         // LP solver returns error code without solving
  F_CONE_FAIL,       // k-th cone query fails
  F_PATH_THROW,      // k-th path evaluation throws (kind a)
  F_PATH_REENTER,    // k-th path evaluation re-enters the planner
  F_PREEMPT,         // (statistics only) context switch inside the library
  F_POISON,          // (statistics only) leftover-memory pattern
  F_CLOCK,           // a clock read jumped (forwards, or back for the wall clock)
  F_STDOUT,          // writing to standard output failed
  F_BRIEF,           // the caller is a thread that ends with the call
  F_HOSTSET,         // the process around the planner has unusual settings
  F_DISK_OPEN,       // a file cannot be opened
  F_DISK_SHORT,      // a write takes only some of the bytes
  F_DISK_INTR,       // a write is interrupted
  F_DISK_ERROR,      // a write fails (full disk, device error)
  F_DISK_CLOSE,      // closing reports an error
  F_NKINDS
};
extern const char* const fault_names[F_NKINDS];

// per-op fault plan, armed by the executor before the call
struct OpFault {
  int64_t alloc_k = -1;
  bool alloc_from = false;
  int64_t qp_k = -1; int qp_maxiter = -1; int qp_status = -1;
  int64_t lp_k = -1; int lp_itlim = -1; int lp_fail = 0;
  int64_t cone_k = -1;
  int disk_open = 0, disk_kind = 0, disk_arg = 0, disk_close = 0; int64_t disk_k = -1;
};

// what the dependencies really did during an op
struct DepTrace {
  int qp_calls = 0, qp_bad = 0;       // QP solves / those not OPTIMAL
  int lp_calls = 0, lp_bad = 0;       // LP solves / those not GLP_OPT
  int cone_calls = 0, cone_bad = 0;   // cone queries / failed ones
  int last_lp_status = 0, last_qp_status = 0;
  bool obj_known = false;             // the last optimisation was solved, with this objective
  double obj = 0, obj_scale = 1;
  int disk_writes = 0, disk_bad = 0;  // writes to the simulated disk / refused requests
};

struct Shared {        // mmap'd MAP_SHARED: survives the child's death
  uint32_t nviol;
  Violation viol[MAXV];
  uint32_t nsw;
  uint32_t sw_overflow;
  SwitchRec sw[MAXSW];
  uint64_t events;            // instrumented accesses
  uint64_t shared_events;     // accesses to memory more than one thread touched / globals
  uint64_t allocs;
  uint64_t fired[F_NKINDS];
  uint64_t preempts;
  uint64_t trace_hash;        // order of ops/switches
  uint64_t log_hash;
  uint32_t done;              // child reached the end
  uint32_t out_len;
};

extern Shared* sh;

// ------------------------------------------------------------- life cycle
void init();                       // once, in the zygote
void begin_run(uint64_t sched_seed, int nthreads, int policy, uint64_t step_budget);
void set_replay(const SwitchRec* recs, int n);   // follow instead of choose
typedef void (*ThreadFn)(int tid);
void run_threads(ThreadFn fn);     // blocks until every simulated thread ended
void protect_inputs(bool on);
void barrier();                     // returns when every caller is here or gone
void brief_thread(void (*fn)(void*), void* arg);   // the current caller does this on a thread of its own

Mode set_mode(Mode m);             // returns old
struct ModeGuard {
  Mode old; explicit ModeGuard(Mode m) : old(set_mode(m)) {}
  ~ModeGuard() { set_mode(old); }
};

// op life cycle on the current simulated thread
void op_begin(int op_id, const OpFault& f, int poison_kind, uint64_t poison_seed, uint64_t clock_seed);
void op_end();
int64_t op_allocs();               // countable allocations so far in this op
int64_t op_live_blocks();          // LIB blocks of this op still allocated
int64_t op_live_bytes();
int op_alloc_sites(uint32_t* first_k, uint64_t* pcs, int max); // one k per site
bool op_alloc_fault_fired();
DepTrace& op_dep();
uint64_t op_events();
void stack_paint();
void start_guard(int cpu_seconds);   // ends a run that stops making events
void record_violation(uint32_t kind, uint64_t pc, uint32_t aux, const char* fmt, ...);
void count_fault(int kind);
int current_tid();
int current_op();
std::string disk_report(int op, const char* name, int* open_files);
bool disk_read(const char* name, std::string& out);
void yield_point();                // explicit scheduling point (host ops)
struct OpSave { unsigned char b[512]; };
void op_save(OpSave&);             // nested calls from callbacks
void op_restore(const OpSave&);
uint64_t total_lib_live_blocks();
uint64_t total_lib_live_bytes();
void live_blocks_report();
bool input_addr(const void* p);
uint64_t exe_text_lo();
OpFault& op_fault();
bool in_lib();
void track_sites(bool on);
void install_handlers();
}  // namespace rt
