// Deterministic simulator: public interface for scenarios.
//
// The real, unmodified library runs on real pthreads of which exactly one runs
// at any time.  All file, socket, clock, timer, signal and thread calls are
// interposed at the libc boundary (sim.cpp) and served by a simulated kernel.
// One seed decides every interleaving, delay, crash and fault.
#pragma once

#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace sim
{
 // ---------------------------------------------------------------- random --
 struct Rng
 {
  uint64_t s;
  explicit Rng(uint64_t seed = 1): s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {next(); next();}
  uint64_t next()
  {
   uint64_t z = (s += 0x9E3779B97F4A7C15ull);
   z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
   z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
   return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) {return n ? next() % n : 0;}
  int64_t range(int64_t a, int64_t b) {return a + int64_t(below(uint64_t(b - a + 1)));}
  double unit() {return double(next() >> 11) / 9007199254740992.0;}
  bool chance(double p) {return p > 0 && unit() < p;}
  template<typename T> const T &pick(const std::vector<T> &v) {return v[below(v.size())];}
 };

 // ---------------------------------------------------------------- faults --
 enum Kind: int
 {
  K_SCHED,        // context switch chosen by the scheduler
  K_DELAY,        // a thread is stalled for a while
  K_CRASH,        // process killed at this instruction
  K_POWER,        // machine loses power at this instruction
  K_EIO_READ,
  K_EIO_WRITE,
  K_ENOSPC,
  K_EIO_SYNC,
  K_SHORT_READ,
  K_SHORT_WRITE,
  K_SPLIT_READ,   // pread observes two different instants
  K_SPLIT_WRITE,  // pwrite becomes visible in two steps
  K_EINTR_LOCK,
  K_EIO_LOCK,     // ENOLCK
  K_SHORT_SEND,
  K_SHORT_RECV,
  K_CONN_RESET,   // connection lost
  K_CONN_STALL,   // connection delivers nothing for a while
  K_ACCEPT_FAIL,
  K_EMFILE,
  K_SPURIOUS,     // spurious condition-variable wake-up
  K_LATENCY,      // network latency of one segment
  K_TEAR,         // which unsynced writes survive a power failure
  K_WAKE,         // which waiter is woken
  K_CLOCK,        // wall-clock jump
  K_ALLOC,        // failing allocation
  K_COUNT
 };
 extern const char *const kind_name[K_COUNT];

 struct Rates
 {
  double p[K_COUNT] = {};
  double &operator[](Kind k) {return p[k];}
  double operator[](Kind k) const {return p[k];}
  int64_t max_delay_ns = 1000000;
  int64_t max_stall_ns = 3000000000ll;
 };

 // ----------------------------------------------------------------- nodes --
 struct Node
 {
  std::string name;
  int machine = 0;
  bool alive = true;
  bool quiet = false;       // true: no fault decision on this node
  bool keep_fds = false;
  bool terminate_kills = false; // std::terminate ends the process: not a violation
  Rates rates;
  uint64_t points = 0;      // scheduling points of this process so far
  uint64_t crash_at = 0;    // planned crash point (0: none)
  uint64_t power_at = 0;
  std::function<void()> on_crash;
  int pid = 0;
  int children = 0;
  std::map<int, void (*)(int)> handlers;
 };

 struct Thread;

 Node *new_node(const std::string &name, int machine = 0);
 Thread *spawn(Node *node, const std::string &name, std::function<void()> f);
 // wait until all these threads are finished (or dead); false on timeout
 bool join(const std::vector<Thread *> &threads, int64_t timeout_ns);
 bool finished(Thread *t);
 void crash(Node *node);          // kill -9
 void power_fail(int machine);    // plug pulled: unsynced writes may be lost
 void send_signal(Node *node, int sig);
 Node *self_node();
 void per_node(void *p, size_t n); // each simulated process has its own copy of this global variable

 int64_t now();                   // monotonic simulated ns
 void sleep_for(int64_t ns);
 bool wait_until(const std::function<bool()> &f, int64_t timeout_ns); // polls
 uint64_t step();                 // global event sequence number

 constexpr int64_t US = 1000, MS = 1000000, SEC = 1000000000;

 // ------------------------------------------------------------ per-run API --
 uint64_t seed();
 bool thorough();
 Rng &wl();                       // workload generator (a function of the seed)
 bool op_enabled(int id);         // false when minimisation has dropped op id
 void declare_op(int id, const std::string &text);

 [[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
 void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
 void probe(const char *name, uint64_t n = 1);
 void nontrivial();               // this run exercised what the property is about
 uint64_t fault_count(Kind k);    // fired so far
 extern bool verbose;

#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)

 // no scheduling and no faults while alive: for oracles
 struct Atomic
 {
  Atomic(); ~Atomic();
 };

 // the allocations of this thread may fail (K_ALLOC), or not
struct Alloc_Faults
{
 const bool before;
 explicit Alloc_Faults(bool on); ~Alloc_Faults();
};

// no faults (scheduling goes on)
 void heap_limit(size_t total, size_t block); // memory of this run; more is std::bad_alloc
 void faults_off();
 void faults_on();
 bool faults_enabled();

 // ---------------------------------------------------------------- storage --
 bool vfs_exists(const std::string &path);
 bool vfs_created_since(const std::string &path, uint64_t step); // by this thread
 std::string vfs_content(const std::string &path);          // what processes see
 std::string vfs_durable(const std::string &path);
 void vfs_put(const std::string &path, const std::string &data); // durable at once
 bool vfs_begins(const std::string &path, const std::string &s, size_t from); // has the bytes of s, apart from the first ones
 void vfs_remove(const std::string &path);
 std::vector<std::string> vfs_list(const std::string &prefix);
 void vfs_sync_all();
 size_t vfs_pending(const std::string &path);               // unsynced writes
 // One content that the file could have after a power failure right now.
 std::string vfs_power_image(const std::string &path, uint64_t seed);
 // called on every successful modification of a watched path
 // let writes of 64 bytes or fewer be short, too (never together with kills: no file system tears them)
void vfs_short_words(bool allowed);
void vfs_on_write(const std::function<void(const std::string &path)> &f);
 // true: unsynced writes of a sector survive in order, and a sector is never torn
 // (what a page cache does); false: each write is kept, lost or torn on its own
 void power_model_ordered_sectors(bool b);
 void set_disk_full(int machine, bool full);

 // ---------------------------------------------------------------- network --
 void cut_all_connections();
 void cut_connections_of(Node *n);
 int open_connections();
 void set_default_latency(int64_t min_ns, int64_t max_ns);
 void jump_wall_clock(int64_t ns);
 // called when a process sends bytes
 // changes what a process sends: sender, receiver, connection, data; false cuts the connection
 void net_mutate(const std::function<bool(Node *, Node *, uint64_t, std::string &)> &f);
 void net_on_send(const std::function<void(Node *, const char *, size_t)> &f);

 // raw byte-level client (for malformed traffic): blocking, simulated
 int raw_connect(const std::string &path); // fd or -1
 long raw_send(int fd, const void *p, size_t n);
 long raw_recv(int fd, void *p, size_t n); // blocking, 0 eof, -1 error
 void raw_close(int fd);

 // --------------------------------------------------------------- registry --
 using Scenario = void (*)();
 struct Register
 {
  Register(const char *property, const char *name, Scenario f, int weight = 10);
 };
#define SCENARIO(prop, name, weight) \
 static void scenario_##name(); \
 static ::sim::Register register_##name(#prop, #name, scenario_##name, weight); \
 static void scenario_##name()

 std::string hex(const std::string &s, size_t max = 64);
}
