// Deterministic simulator: scheduler, simulated kernel and libc interposition.
#include "kernel.h"

#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <memory>
#include <new>

#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

namespace sim
{
 const char *const kind_name[K_COUNT] =
 {
  "sched", "delay", "crash", "power_failure", "eio_read", "eio_write", "enospc",
  "eio_sync", "short_read", "short_write", "split_read", "split_write",
  "eintr_lock", "enolck_lock", "short_send", "short_recv", "conn_lost",
  "conn_stall", "accept_fail", "emfile", "spurious_wakeup", "latency", "tear",
  "wake_choice", "clock_jump", "alloc_fail"
 };

 bool verbose = getenv("SIM_VERBOSE") != nullptr;

 std::vector<Scenario_Info> &registry()
 {
  static std::vector<Scenario_Info> r;
  return r;
 }

 Register::Register(const char *property, const char *name, Scenario f, int weight)
 {
  registry().push_back({property, name, f, weight});
 }

 // ===================================================================== heap
 // Inside a run, memory is never reused: freed blocks are poisoned, so that a
 // use after free is visible and addresses are a function of the seed.
 static bool heap_on = false;
 static char *heap_begin = nullptr, *heap_cur = nullptr, *heap_end = nullptr;
 static volatile int heap_lock_word = 0;
 struct Block {uint64_t size; uint64_t magic;};
 constexpr uint64_t magic_live = 0x51A7E11FE0A110C1ull;
 constexpr uint64_t magic_dead = 0xDEADF4EEB10C0000ull;
 constexpr size_t heap_size = size_t(3) << 30;

 static size_t heap_block_limit = size_t(1) << 40;
 void heap_limit(size_t total, size_t block)
 {
  heap_block_limit = block;
  if (heap_begin + total < heap_end) heap_end = heap_begin + total;
 }

 static void *heap_alloc(size_t n)
 {
  if (n > heap_block_limit) return nullptr;
  const size_t total = (sizeof(Block) + n + 8 + 15) & ~size_t(15);
  if (heap_cur + total > heap_end)
   return nullptr;
  Block *b = (Block *)heap_cur;
  heap_cur += total;
  b->size = n;
  b->magic = magic_live;
  char *p = (char *)(b + 1);
  memset(p, 0xCD, n < 4096 ? n : 4096);
  memset(p + n, 0xFB, 8);
  return p;
 }
}

 static void heap_fault(const char *what);

namespace sim
{
 static void heap_free(void *q)
 {
  char *p = (char *)q;
  Block *b = (Block *)p - 1;
  if (b->magic == magic_dead)
   heap_fault("double free");
  if (b->magic != magic_live)
   heap_fault("free of a corrupted or foreign block");
  for (int i = 0; i < 8; i++)
   if ((unsigned char)p[b->size + i] != 0xFB)
    heap_fault("heap buffer overflow");
  b->magic = magic_dead;
  memset(p, 0xDD, b->size);
 }

 // A buffer given to a system call must lie inside one live block.
 static void check_io(const void *buf, size_t n, const char *op)
 {
  const char *p = (const char *)buf;
  if (p < heap_begin + sizeof(Block) || p >= heap_cur) return;
  const char *q = (const char *)(uintptr_t(p) & ~uintptr_t(15)) - sizeof(Block);
  for (; q >= heap_begin; q -= 16)
  {
   const Block *b = (const Block *)q;
   if (b->magic != magic_live && b->magic != magic_dead) continue;
   if (b->magic == magic_dead && n) fail("heap", "%s uses a freed buffer", op);
   const char *begin = (const char *)(b + 1);
   if (p + n > begin + b->size || p + n < p)
    fail("heap", "%s of %zu bytes at offset %zu of a block of %zu bytes", op, n, size_t(p - begin), size_t(b->size));
   return;
  }
 }

 // ================================================================== objects
 enum Obj_Type {T_FILE, T_SOCK, T_EPOLL, T_TIMER, T_EVENT, T_PIPE};

 struct Epoll;

 struct Obj
 {
  Obj_Type type;
  Node *owner = nullptr;
  int fd = -1;
  bool nonblock = false;
  std::vector<Epoll *> watchers;
  explicit Obj(Obj_Type type): type(type) {}
  virtual uint32_t ready() {return 0;}
  virtual ~Obj() = default;
 };

 struct Epoll: Obj
 {
  struct Reg {Obj *o; uint32_t events; uint64_t data; uint32_t edge;};
  std::map<int, Reg> regs;
  Epoll(): Obj(T_EPOLL) {}
 };

 struct Timer: Obj
 {
  bool armed = false, expired = false;
  uint64_t gen = 0;
  Timer(): Obj(T_TIMER) {}
  uint32_t ready() override {return expired ? EPOLLIN : 0;}
 };

 struct Event_Fd: Obj
 {
  uint64_t count = 0;
  Event_Fd(): Obj(T_EVENT) {}
  uint32_t ready() override {return (count ? EPOLLIN : 0) | EPOLLOUT;}
 };

 struct Pipe: Obj
 {
  std::string *buf = nullptr;
  Pipe *other = nullptr;
  bool writer = false;
  Pipe(): Obj(T_PIPE) {}
  uint32_t ready() override {return writer ? EPOLLOUT : (buf->empty() ? 0 : EPOLLIN);}
 };

 struct Open_File;

 struct Pending {int64_t off; std::string data; bool synced;};

 struct Inode
 {
  uint64_t id = 0;
  std::string data;      // page cache
  std::string durable;   // base image; entries of pend come on top
  std::vector<Pending> pend;
  struct Lock {int64_t a, b; bool ex; Open_File *f;};
  std::vector<Lock> locks;
  const Thread *creator = nullptr;
  uint64_t created = 0;  // step
 };

 struct Open_File: Obj
 {
  Inode *ino = nullptr;
  int flags = 0;
  int64_t pos = 0;
  std::string path;
  Open_File(): Obj(T_FILE) {}
  uint32_t ready() override {return EPOLLIN | EPOLLOUT;}
 };

 struct Sock: Obj
 {
  int64_t rcv_timeout = -1; // blocking receive of a raw client
  enum {fresh, bound, listening, connected, closed} st = fresh;
  std::string path;
  std::deque<Sock *> backlog;
  Sock *peer = nullptr;
  std::string rx;
  bool rx_eof = false, reset = false, peer_gone = false, wr_shut = false;
  bool cut = false;           // this side's outgoing data goes nowhere
  size_t inflight = 0, cap = 65536;
  int64_t last_delivery = 0, stall_until = 0;
  uint64_t id = 0;
  Sock(): Obj(T_SOCK) {}
  int64_t room() const {return peer ? int64_t(cap) - int64_t(peer->rx.size()) - int64_t(inflight) : 0;}
  uint32_t ready() override
  {
   uint32_t r = 0;
   if (st == listening)
    return backlog.empty() ? 0 : EPOLLIN;
   if (st == connected)
   {
    if (!rx.empty() || rx_eof || reset) r |= EPOLLIN;
    if (rx_eof || reset) r |= EPOLLRDHUP;
    if (reset) r |= EPOLLERR | EPOLLHUP;
    if (room() > 0 || peer_gone || reset || cut) r |= EPOLLOUT;
   }
   return r;
  }
 };

 struct Thread
 {
  std::string name;
  uint64_t key = 0;
  int id = 0;
  Node *node = nullptr;
  enum {runnable, blocked, finished} st = runnable;
  bool delayed = false;
  Node *as_node = nullptr;        // a signal handler of that process runs here
  bool dead = false;
  std::atomic<int> go{0};
  pthread_t real{};
  const void *wait_obj = nullptr;
  int64_t wall_at = -1;     // waits until the wall clock shows this
  uint64_t wait_seq = 0;
  bool timed_out = false;
  uint64_t points = 0;
  uint16_t sub[K_COUNT] = {};
  int children = 0;
  uint64_t prio = 0;
  std::function<void()> f;
  void *(*cf)(void *) = nullptr;
  void *carg = nullptr;
  void *ret = nullptr;
  bool pending_enospc = false;
  Inode *split_ino = nullptr;
  int64_t split_off = 0;
  std::string split_data;
  const char *last_op = "start";
  uint64_t last_arg = 0;
  int kernel = 0;                 // inside the simulator: no allocation failures
  bool alloc_faults = false;
 };

 struct Dir_Op {int what; std::string a, b; Inode *ino;}; // 0 link, 1 unlink, 2 rename

 struct Machine
 {
  std::map<std::string, Inode *> dir, durable_dir;
  std::vector<Dir_Op> dirops;
  bool full = false;
 };

 struct World
 {
  bool active = false;
  const Run_Spec *spec = nullptr;
  Shared *shared = nullptr;
  FILE *log = nullptr;

  Rng rng{1}, workload{1};
  int64_t now = 0;
  int64_t wall_skew = 0;
  uint64_t steps = 0, max_steps = 3000000, quiescent_step = 0;
  uint64_t seq = 0;
  std::map<std::pair<int64_t, uint64_t>, std::function<void()>> events;

  std::vector<Thread *> threads;
  std::vector<Node *> nodes;
  Thread *cur = nullptr;
  int atomic_depth = 0;
  bool faults = true;

  int policy = 0;
  double psw = 0.1;
  double pchange = 0.01;
  uint64_t low_prio = 1000000;
  uint64_t same = 0;
  std::vector<Thread *> run_buf;

  std::map<int, Obj *> fds;
  int next_fd = 1000;
  std::map<int, Machine> machines;
  std::map<std::string, Sock *> names;
  std::map<std::string, bool> sock_exists;
  uint64_t inode_id = 0, sock_id = 0;
  std::unordered_map<void *, std::pair<Thread *, int>> held;
  int64_t lat_min = 50000, lat_max = 500000;

  std::map<std::tuple<uint64_t, uint32_t, uint16_t, uint16_t>, uint64_t> overrides;
  std::function<void(const std::string &)> on_write;
  bool short_words = false;
  bool ordered_sectors = false;
  std::function<void(Node *, const char *, size_t)> on_send;
  std::function<bool(Node *, Node *, uint64_t, std::string &)> mutate;
  std::unordered_map<uint64_t, char> pair_seen;
 };

 static World *W = nullptr;
 static thread_local Thread *self = nullptr;
 static int poll_obj;

 static inline bool in_sim() {return self != nullptr && W && W->active;}

 struct Kernel
 {
  Thread *const t = self;
  Kernel() {if (t) t->kernel++;}
  ~Kernel() {if (t) t->kernel--;}
 };

 static uint64_t hash_bytes(const char *p, size_t n)
 {
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
  return h ? h : 1;
 }
 static uint64_t hash_str(const std::string &s) {return hash_bytes(s.data(), s.size());}
 static uint64_t hash_cstr(const char *s) {return hash_bytes(s, strlen(s));}

 static inline void mix(uint64_t &h, uint64_t v)
 {
  h = (h ^ v) * 0x9E3779B97F4A7C15ull;
  h ^= h >> 29;
 }

 static void finish(int status)
 {
  Shared *s = W->shared;
  s->steps = W->steps;
  s->sim_time = W->now;
  if (W->log) {fprintf(W->log, "end status=%d hash=%016lx cls=%s msg=%s\n", status, s->hash, s->cls, s->msg); fflush(W->log);}
  s->status = status;
  syscall(SYS_exit_group, 0);
 }

 void fail(const char *cls, const char *fmt, ...)
 {
  W->active = false;
  va_list ap;
  va_start(ap, fmt);
  snprintf(W->shared->cls, sizeof(W->shared->cls), "%s", cls);
  vsnprintf(W->shared->msg, sizeof(W->shared->msg), fmt, ap);
  va_end(ap);
  for (char *c = W->shared->msg; *c; c++) if (*c < 32 || *c > 126) *c = '?';
  finish(strncmp(cls, "harness", 7) == 0 ? 3 : 2);
  __builtin_unreachable();
 }

 void note(const char *fmt, ...)
 {
  if (!W) return;
  char b[1000];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof(b), fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n >= int(sizeof(b))) n = sizeof(b) - 1;
  if (W->log) fprintf(W->log, "[%9.3fms #%lu %s] NOTE %s\n", double(W->now) / 1e6, W->steps, self ? self->name.c_str() : "?", b);
  if (W->shared->n_notes + n + 1 < sizeof(W->shared->notes))
  {
   memcpy(W->shared->notes + W->shared->n_notes, b, n);
   W->shared->n_notes += n;
   W->shared->notes[W->shared->n_notes++] = '\n';
  }
 }

 void probe(const char *name, uint64_t n)
 {
  Shared *s = W->shared;
  for (int i = 0; i < s->n_probes; i++)
   if (strcmp(s->probes[i].name, name) == 0) {s->probes[i].n += n; return;}
  if (s->n_probes < max_probes)
  {
   snprintf(s->probes[s->n_probes].name, sizeof(s->probes[0].name), "%s", name);
   s->probes[s->n_probes++].n = n;
  }
 }

 void nontrivial() {W->shared->is_nontrivial = true;}
 uint64_t fault_count(Kind k) {return W->shared->fired[k];}
 uint64_t seed() {return W->spec->seed;}
 bool thorough() {return W->spec->thorough;}
 Rng &wl() {return W->workload;}
 bool op_enabled(int id) {return W->spec->dropped_ops.find(id) == W->spec->dropped_ops.end();}
 void declare_op(int id, const std::string &text)
 {
  if (id >= 0 && id < max_ops)
  {
   snprintf(W->shared->ops[id], sizeof(W->shared->ops[0]), "%s", text.c_str());
   if (id >= W->shared->n_ops) W->shared->n_ops = id + 1;
  }
 }

 int64_t now() {return W->now;}
 uint64_t step() {return W->steps;}
 Node *self_node() {return self ? self->node : nullptr;}

 static void log_op(const char *op, uint64_t a, uint64_t b, int64_t r = 0)
 {
  uint64_t &h = W->shared->hash;
  mix(h, self ? self->key : 0);
  mix(h, uint64_t(op[0]) * 131 + uint64_t(op[1]) * 17 + uint64_t(strlen(op)));
  mix(h, a); mix(h, b); mix(h, uint64_t(r));
  if (W->log)
   fprintf(W->log, "[%9.3fms #%lu %s] %s %lu %lu -> %ld\n", double(W->now) / 1e6, W->steps, self ? self->name.c_str() : "?", op, a, b, r);
 }

 // ================================================================ decisions
 template<typename F> static uint64_t decide(Kind k, F sampler)
 {
  if (W->atomic_depth || !self)
   return 0;
  uint64_t v;
  const uint16_t sub = self->sub[k]++;
  if (W->spec->replay)
  {
   auto i = W->overrides.find({self->key, uint32_t(self->points), uint16_t(k), sub});
   v = i == W->overrides.end() ? 0 : i->second;
  }
  else
   v = sampler();
  if (v)
  {
   Shared *s = W->shared;
   s->fired[k]++;
   if (s->n_trace < max_trace)
    s->trace[s->n_trace++] = {self->key, uint32_t(self->points), uint16_t(k), sub, v};
   else
    s->trace_overflow = true;
   if (k != K_SCHED)
   {
    mix(s->hash, uint64_t(k) << 40 | (v & 0xffffffff));
    if (W->log && k != K_LATENCY)
     fprintf(W->log, "[%9.3fms #%lu %s] ** %s value=%lu\n", double(W->now) / 1e6, W->steps, self->name.c_str(), kind_name[k], v);
   }
  }
  return v;
 }

 static bool faulty()
 {
  return W->faults && !W->atomic_depth && self->node && !self->node->quiet && self->node->alive;
 }

 // 0: no fault; otherwise 1 + a parameter below n
 static uint64_t fault(Kind k, uint64_t n = 1)
 {
  if (!faulty())
   return 0;
  return decide(k, [k, n]() -> uint64_t
  {
   return W->rng.chance(self->node->rates.p[k]) ? 1 + W->rng.below(n) : 0;
  });
 }

 // ================================================================ scheduler
 static long futex(std::atomic<int> *a, int op, int v)
 {
  return syscall(SYS_futex, (int *)a, op, v, nullptr, nullptr, 0);
 }

 static void park()
 {
  while (self->go.load() == 0)
   futex(&self->go, FUTEX_WAIT_PRIVATE, 0);
  self->go.store(0);
 }

 [[noreturn]] static void park_forever()
 {
  while (true)
   futex(&self->go, FUTEX_WAIT_PRIVATE, 0);
 }

 static void add_event(int64_t t, std::function<void()> f)
 {
  W->events.emplace(std::make_pair(t, W->seq++), std::move(f));
 }

 static void run_due_events()
 {
  while (!W->events.empty() && W->events.begin()->first.first <= W->now)
  {
   auto f = std::move(W->events.begin()->second);
   W->events.erase(W->events.begin());
   f();
  }
 }

 static void wake_all(const void *obj)
 {
  for (Thread *t: W->threads)
   if (t->st == Thread::blocked && t->wait_obj == obj && !t->dead)
   {
    t->st = Thread::runnable;
    t->wait_obj = nullptr;
    t->wait_seq++;
   }
 }

 static void wake_one_thread(Thread *t)
 {
  t->st = Thread::runnable;
  t->wait_obj = nullptr;
  t->wait_seq++;
 }

 static bool can_run(const Thread *t) {return t->st == Thread::runnable && !t->dead;}

 // global variables of the code under test that are one copy per simulated process
 struct Region {char *p; size_t n; std::string initial; std::map<Node *, std::string> saved;};
 static std::vector<Region> regions;
 static Node *loaded_node = nullptr;

 static void load_regions(Node *n)
 {
  if (n == loaded_node || regions.empty()) {if (regions.empty()) loaded_node = n; return;}
  for (Region &r: regions)
  {
   r.saved[loaded_node].assign(r.p, r.n);
   auto i = r.saved.find(n);
   memcpy(r.p, (i == r.saved.end() ? r.initial : i->second).data(), r.n);
  }
  loaded_node = n;
 }

 void per_node(void *p, size_t n)
 {
  for (Region &r: regions) if (r.p == p) return;
  if (regions.empty()) loaded_node = self ? self->node : nullptr;
  regions.push_back({static_cast<char *>(p), n, std::string(static_cast<char *>(p), n), {}});
 }

 static void switch_to(Thread *next)
 {
  Thread *me = self;
  if (next == me)
   return;
  load_regions(next->as_node ? next->as_node : next->node);
  W->same = 0;
  W->shared->switches++;
  {
   uint64_t h = 0;
   mix(h, hash_cstr(me->last_op)); mix(h, me->node ? hash_str(me->node->name) : 0);
   mix(h, hash_cstr(next->last_op)); mix(h, next->node ? hash_str(next->node->name) : 0);
   mix(h, me->last_arg); mix(h, next->last_arg);
   if (!W->pair_seen[h]) // distinct preemption pairs
   {
    W->pair_seen[h] = 1;
    if (W->shared->n_pairs < max_pairs)
     W->shared->pairs[W->shared->n_pairs++] = h;
   }
   mix(W->shared->schedule_hash, h);
   mix(W->shared->schedule_hash, next->key);
  }
  W->cur = next;
  next->go.store(1);
  futex(&next->go, FUTEX_WAKE_PRIVATE, 1);
  if (me->dead || me->st == Thread::finished)
   park_forever();
  park();
 }

 static std::string describe_threads()
 {
  std::string s;
  for (Thread *t: W->threads)
   if (!t->dead && t->st != Thread::finished)
    s += " " + t->name + ":" + (t->st == Thread::blocked ? "blocked" : "runnable") + "@" + t->last_op;
  return s;
 }

 // gives the processor to somebody; returns when self is scheduled again
 static void schedule()
 {
  if (W->atomic_depth)
  {
   if (self->st == Thread::blocked)
    fail("harness-atomic", "blocked inside an atomic section at %s", self->last_op);
   return;
  }

  while (true)
  {
   std::vector<Thread *> &run = W->run_buf;
   run.clear();
   bool self_ok = false;
   for (Thread *t: W->threads)
    if (can_run(t))
    {
     run.push_back(t);
     if (t == self) self_ok = true;
    }

   if (run.empty())
   {
    if (W->events.empty())
     fail("deadlock", "nothing can run:%s", describe_threads().c_str());
    bool stalled = false; // somebody is only waiting because of an injected delay
    for (Thread *t: W->threads) if (t->st == Thread::blocked && t->delayed) stalled = true;
    if (!stalled) W->quiescent_step = W->steps;
    W->now = std::max(W->now, W->events.begin()->first.first);
    run_due_events();
    continue;
   }

   Thread *def = nullptr;
   if (self_ok)
    def = self;
   else
   {
    for (Thread *t: run)
     if (t->id > self->id) {def = t; break;}
    if (!def) def = run[0];
   }

   if (run.size() == 1)
   {
    switch_to(run[0]);
    return;
   }

   const uint64_t v = decide(K_SCHED, [&]() -> uint64_t
   {
    Thread *c = def;
    if (W->policy == 0)
    {
     if (!self_ok || W->rng.chance(W->psw))
      c = run[W->rng.below(run.size())];
    }
    else
    {
     if (self_ok && (W->rng.chance(W->pchange) || W->same > 3000))
      self->prio = --W->low_prio;
     c = run[0];
     for (Thread *t: run)
      if (t->prio > c->prio) c = t;
    }
    return c == def ? 0 : c->key;
   });
   Thread *next = def;
   if (v)
    for (Thread *t: run)
     if (t->key == v) next = t;
   W->same++;
   switch_to(next);
   return;
  }
 }

 static const int64_t mono_base = 1000 * SEC;
 static const int64_t wall_base = 1750000000ll * SEC;

 static void add_deadline(Thread *t, int64_t deadline)
 {
  const uint64_t s = t->wait_seq;
  add_event(deadline, [t, s]()
  {
   if (t->st == Thread::blocked && t->wait_seq == s && !t->dead)
   {
    if (t->wall_at >= 0 && wall_base + W->now + W->wall_skew < t->wall_at) return; // the clock was moved
    wake_one_thread(t);
    t->timed_out = true;
   }
  });
 }

 // somebody sets the clock
 static void move_wall_clock(int64_t ns)
 {
  W->wall_skew += ns;
  for (Thread *t: W->threads)
   if (t->st == Thread::blocked && !t->dead && t->wall_at >= 0)
    add_deadline(t, std::max(W->now, t->wall_at - wall_base - W->wall_skew));
 }

 // wait for obj; false on timeout
 static bool block(const void *obj, int64_t deadline)
 {
  Kernel kernel_;
  self->st = Thread::blocked;
  self->wait_obj = obj;
  ++self->wait_seq;
  self->timed_out = false;
  if (deadline >= 0) add_deadline(self, deadline);
  schedule();
  return !self->timed_out;
 }

 static void kill_node(Node *n, bool power);

 // every interposed call passes here before it takes effect
 static void point(const char *op, uint64_t a = 0, uint64_t b = 0)
 {
  Kernel kernel_;
  Thread *t = self;
  t->last_op = op;
  t->last_arg = a;
  if (W->atomic_depth)
   return;
  t->points++;
  memset(t->sub, 0, sizeof(t->sub));
  W->steps++;
  W->now += 1000;
  log_op(op, a, b);
  if (W->steps > W->max_steps / 4 && W->steps - W->quiescent_step < 20000)
  {
   // a very long run where everybody regularly waits for time to pass: it is not
   // a livelock, it just does not fit in the budget
   probe("runs_cut_short");
   W->active = false;
   finish(1);
  }
  if (W->steps > W->max_steps)
   fail("no-progress", "more than %lu steps:%s", W->max_steps, describe_threads().c_str());
  run_due_events();
  if (t->node)
  {
   Node *n = t->node;
   n->points++;
   if (faulty())
   {
    const uint64_t c = decide(K_CRASH, [n]() -> uint64_t
    {
     return (n->crash_at && n->points >= n->crash_at) || W->rng.chance(n->rates.p[K_CRASH]);
    });
    if (c) crash(n);
    if (!t->dead)
    {
     const uint64_t p = decide(K_POWER, [n]() -> uint64_t
     {
      return (n->power_at && n->points >= n->power_at) || W->rng.chance(n->rates.p[K_POWER]);
     });
     if (p) power_fail(n->machine);
    }
    if (!t->dead)
    {
     const uint64_t d = decide(K_DELAY, [n]() -> uint64_t
     {
      if (!W->rng.chance(n->rates.p[K_DELAY])) return 0;
      double x = W->rng.unit(); // log-uniform in [10us, max]
      double lo = 10000, hi = double(n->rates.max_delay_ns);
      return uint64_t(lo * __builtin_exp(x * __builtin_log(hi / lo)));
     });
     if (n->rates.p[K_CLOCK] > 0)
     {
      const uint64_t j = decide(K_CLOCK, [n]() -> uint64_t
      {
       if (!W->rng.chance(n->rates.p[K_CLOCK])) return 0;
       const double x = W->rng.unit() * 18; // log-uniform, 1 ms to a day
       const uint64_t ns = uint64_t(1e6 * __builtin_exp(x));
       return 2 * ns + W->rng.below(2);
      });
      if (j) move_wall_clock((j & 1 ? 1 : -1) * int64_t(j / 2));
     }
     if (d)
     {
      t->delayed = true;
      block(&t->go, W->now + int64_t(d));
      t->delayed = false;
     }
    }
   }
  }
  schedule();
 }

 // ================================================================== threads
 static decltype(&::pthread_create) real_create;
 static decltype(&::pthread_mutex_lock) real_lock;
 static decltype(&::pthread_mutex_trylock) real_trylock;
 static decltype(&::pthread_mutex_unlock) real_unlock;
 static decltype(&::pthread_join) real_join;
 static decltype(&::pthread_detach) real_detach;
 static decltype(&::pthread_cond_wait) real_cond_wait;
 static decltype(&::pthread_cond_signal) real_cond_signal;
 static decltype(&::pthread_cond_broadcast) real_cond_broadcast;
 static int (*real_sigaction)(int, const struct sigaction *, struct sigaction *);
 static int (*real_remove)(const char *);
 static int (*real_rename)(const char *, const char *);

 static void *trampoline(void *p)
 {
  Thread *t = (Thread *)p;
  self = t;
  park();
  if (t->cf)
   t->ret = t->cf(t->carg);
  else
  {
   try
   {
    t->f();
   }
   catch (const std::exception &e)
   {
    fail("uncaught-exception", "thread %s: %s", t->name.c_str(), e.what());
   }
   catch (...)
   {
    fail("uncaught-exception", "thread %s", t->name.c_str());
   }
  }
  t->alloc_faults = false;
  t->st = Thread::finished;
  log_op("thread_end", t->key, 0);
  wake_all(t);
  schedule();
  park_forever();
 }

 static Thread *make_thread(Node *node, const std::string &name)
 {
  Thread *t = new Thread;
  t->name = name;
  t->key = hash_str(name);
  t->id = int(W->threads.size());
  t->node = node;
  t->prio = 2000000 + W->rng.below(1000000);
  W->threads.push_back(t);
  return t;
 }

 static int start_thread(Thread *t)
 {
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstacksize(&attr, 512 * 1024);
  const int r = real_create(&t->real, &attr, trampoline, t);
  pthread_attr_destroy(&attr);
  if (r) fail("harness-thread", "pthread_create: %d", r);
  return r;
 }

 Thread *spawn(Node *node, const std::string &name, std::function<void()> f)
 {
  for (Thread *o: W->threads)
   if (o->name == name)
    return spawn(node, name + "+", std::move(f));
  Thread *t = make_thread(node, name);
  t->f = std::move(f);
  start_thread(t);
  return t;
 }

 bool finished(Thread *t) {return t->dead || t->st == Thread::finished;}

 bool join(const std::vector<Thread *> &ts, int64_t timeout)
 {
  const int64_t deadline = W->now + timeout;
  for (Thread *t: ts)
   while (!finished(t))
   {
    self->last_op = "join";
    if (!block(t, deadline))
     return false;
   }
  return true;
 }

 void sleep_for(int64_t ns)
 {
  self->last_op = "sleep";
  block(&self->go, W->now + ns);
 }

 bool wait_until(const std::function<bool()> &f, int64_t timeout)
 {
  const int64_t deadline = W->now + timeout;
  while (!f())
  {
   if (W->now >= deadline)
    return false;
   sleep_for(std::min<int64_t>(10 * MS, std::max<int64_t>(timeout / 200, 20000)));
  }
  return true;
 }

 Alloc_Faults::Alloc_Faults(bool on): before(self->alloc_faults) {self->alloc_faults = on;}
 Alloc_Faults::~Alloc_Faults() {self->alloc_faults = before;}
 Atomic::Atomic() {W->atomic_depth++;}
 Atomic::~Atomic() {W->atomic_depth--;}
 void faults_off() {W->faults = false;}
 void faults_on() {W->faults = true;}
 bool faults_enabled() {return W->faults;}

 Node *new_node(const std::string &name, int machine)
 {
  Node *n = new Node;
  n->name = name;
  n->machine = machine;
  n->pid = 5000 + int(W->nodes.size());
  W->nodes.push_back(n);
  return n;
 }

 // ==================================================================== files
 static bool is_sim_path(const char *p) {return p && strncmp(p, "/sim/", 5) == 0;}
 static int machine_of(const std::string &path) // /sim/<digit>/...
 {
  return path.size() > 5 && path[5] >= '0' && path[5] <= '9' ? path[5] - '0' : 0;
 }
 static Machine &machine_for(const std::string &path) {return W->machines[machine_of(path)];}

 static Obj *get(int fd)
 {
  if (!W) return nullptr;
  auto i = W->fds.find(fd);
  return i == W->fds.end() ? nullptr : i->second;
 }

 template<typename T> static T *get_as(int fd, Obj_Type type)
 {
  Obj *o = get(fd);
  return o && o->type == type ? (T *)o : nullptr;
 }

 static int add_fd(Obj *o)
 {
  o->fd = W->next_fd++;
  o->owner = self ? self->node : nullptr;
  W->fds[o->fd] = o;
  return o->fd;
 }

 static void notify(Obj *o, uint32_t bits)
 {
  for (Epoll *e: o->watchers)
  {
   auto i = e->regs.find(o->fd);
   if (i != e->regs.end())
   {
    i->second.edge |= bits;
    wake_all(e);
   }
  }
  wake_all(o);
  wake_all(&poll_obj);
 }

 static void inode_write(Inode *ino, int64_t off, const char *p, size_t n)
 {
  if (n == 0) return;
  if (int64_t(ino->data.size()) < off + int64_t(n))
   ino->data.resize(off + n, 0);
  memcpy(&ino->data[off], p, n);
  ino->pend.push_back({off, std::string(p, n), false});
 }

 static void inode_compact(Inode *ino)
 {
  size_t k = 0;
  while (k < ino->pend.size() && ino->pend[k].synced)
  {
   Pending &e = ino->pend[k];
   if (e.off < 0) {ino->durable.resize(-1 - e.off, 0);}
   else
   {
    if (ino->durable.size() < e.off + e.data.size()) ino->durable.resize(e.off + e.data.size(), 0);
    memcpy(&ino->durable[e.off], e.data.data(), e.data.size());
   }
   k++;
  }
  ino->pend.erase(ino->pend.begin(), ino->pend.begin() + k);
 }

 static void inode_sync(Inode *ino)
 {
  for (auto &e: ino->pend)
   e.synced = true;
  inode_compact(ino);
 }

 static void dir_sync(Machine &m)
 {
  m.durable_dir = m.dir;
  m.dirops.clear();
 }

 // One possible content after a power failure.
 static std::string power_image(const Inode *ino, uint64_t seed)
 {
  Rng r(seed);
  const int mode = int(r.below(7));
  std::string d = ino->durable;
  if (W->ordered_sectors)
  {
   // Each sector of the disk is a copy of the sector in the page cache at some
   // instant since the last sync.
   const size_t sectors = (ino->data.size() + 511) / 512 + 1;
   const double keep = mode == 0 ? 1 : mode == 1 ? 0 : mode == 2 ? 0.5 : mode == 3 ? 0.9 : 0.1;
   const size_t instant = mode >= 5 ? r.below(ino->pend.size() + 1) : 0; // an ordered disk
   std::vector<size_t> until(sectors);
   for (auto &u: until) u = mode >= 5 ? instant : r.chance(keep) ? (r.chance(0.5) ? ino->pend.size() : r.below(ino->pend.size() + 1)) : 0;
   for (size_t k = 0; k < ino->pend.size(); k++)
   {
    const auto &e = ino->pend[k];
    if (e.off < 0)
    {
     if (e.synced || r.chance(keep)) d.resize(-1 - e.off, 0);
     continue;
    }
    const int64_t end = e.off + int64_t(e.data.size());
    for (int64_t a = e.off; a < end;)
    {
     const int64_t b = std::min<int64_t>(end, (a / 512 + 1) * 512);
     if (e.synced || (size_t(a / 512) < sectors && k < until[size_t(a / 512)]))
     {
      if (int64_t(d.size()) < b) d.resize(b, 0);
      memcpy(&d[a], e.data.data() + (a - e.off), b - a);
     }
     a = b;
    }
   }
   return d;
  }
  const double keep = mode == 0 ? 1 : mode == 1 ? 0 : mode == 2 ? 0.5 : mode == 3 ? 0.9 : mode == 4 ? 0.1 : 0.5;
  size_t unsynced = 0;
  for (const auto &e: ino->pend) if (!e.synced) unsynced++;
  const size_t boundary = r.below(unsynced + 1); // mode 5: ordered disk
  size_t k = 0;
  for (const auto &e: ino->pend)
  {
   if (e.off < 0) // truncation
   {
    if (e.synced || r.chance(keep)) d.resize(-1 - e.off, 0);
    continue;
   }
   const int64_t end = e.off + int64_t(e.data.size());
   int64_t a = e.off;
   const bool before = k < boundary, at = k == boundary;
   if (!e.synced) k++;
   while (a < end)
   {
    int64_t b = std::min<int64_t>(end, (a / 512 + 1) * 512);
    bool kept = e.synced;
    int64_t b2 = b;
    if (!kept)
    {
     if (mode == 5) kept = before || (at && r.chance(0.5));
     else if (mode == 6) kept = !before;
     else kept = r.chance(keep);
     if (kept && r.chance(0.1)) // torn inside a sector
      b2 = a + r.below(uint64_t(b - a) + 1);
    }
    if (kept)
    {
     if (int64_t(d.size()) < b2) d.resize(b2, 0);
     memcpy(&d[a], e.data.data() + (a - e.off), b2 - a);
    }
    a = b;
   }
  }
  if (unsynced && d.size() < ino->data.size() && r.chance(0.2)) // size survived, data did not
   d.resize(ino->data.size(), 0);
  return d;
 }

 static bool overlap(const Inode::Lock &l, int64_t a, int64_t b) {return l.a <= b && a <= l.b;}

 static bool lock_conflict(Inode *ino, Open_File *f, int64_t a, int64_t b, bool ex)
 {
  for (auto &l: ino->locks)
   if (l.f != f && overlap(l, a, b) && (ex || l.ex))
    return true;
  return false;
 }

 static void lock_remove(Inode *ino, Open_File *f, int64_t a, int64_t b)
 {
  std::vector<Inode::Lock> out;
  for (auto &l: ino->locks)
  {
   if (l.f != f || !overlap(l, a, b)) {out.push_back(l); continue;}
   if (l.a < a) out.push_back({l.a, a - 1, l.ex, f});
   if (l.b > b) out.push_back({b + 1, l.b, l.ex, f});
  }
  ino->locks = out;
  wake_all(&ino->locks);
 }

 static void wrote(const std::string &path)
 {
  if (W->on_write)
  {
   W->atomic_depth++;
   W->on_write(path);
   W->atomic_depth--;
  }
 }

 static int sim_open(const char *path, int flags)
 {
  point("open", hash_str(path) & 0xffff, uint64_t(flags));
  if (fault(K_EMFILE)) {errno = EMFILE; return -1;}
  Machine &m = machine_for(path);
  auto i = m.dir.find(path);
  Inode *ino;
  if (i != m.dir.end())
  {
   if ((flags & O_CREAT) && (flags & O_EXCL)) {errno = EEXIST; return -1;}
   ino = i->second;
   if (flags & O_TRUNC)
   {
    ino->data.clear();
    ino->pend.push_back({-1, "", false});
   }
  }
  else
  {
   if (!(flags & O_CREAT)) {errno = ENOENT; return -1;}
   if (W->names.count(path)) {errno = EEXIST; return -1;}
   ino = new Inode;
   ino->id = ++W->inode_id;
   ino->creator = self;
   ino->created = step();
   m.dir[path] = ino;
   m.dirops.push_back({0, path, "", ino});
  }
  Open_File *f = new Open_File;
  f->ino = ino;
  f->flags = flags;
  f->path = path;
  return add_fd(f);
 }

 static ssize_t sim_pread(Open_File *f, char *buf, size_t n, int64_t off, const char *op)
 {
  check_io(buf, n, op);
  point(op, f->ino->id, uint64_t(off));
  if (off < 0) {errno = EINVAL; return -1;}
  if (fault(K_EIO_READ)) {errno = EIO; return -1;}
  if (off >= int64_t(f->ino->data.size())) return 0;
  size_t avail = std::min<size_t>(n, f->ino->data.size() - size_t(off));
  // small reads are never short (documented assumption of Abstract_File::pread)
  if (n > 512 && avail > 257)
   if (uint64_t v = fault(K_SHORT_READ, 1 << 20))
    avail = 256 + (v & 1 ? (v >> 1) % (avail - 256) : (v >> 1) % std::min<size_t>(avail - 256, 70));
  const int64_t first = off / 8 + 1, last = (off + int64_t(avail) - 1) / 8;
  if (last >= first)
   if (uint64_t v = fault(K_SPLIT_READ, 1 << 20))
   {
    const int64_t cutp = (first + int64_t(v) % (last - first + 1)) * 8;
    memcpy(buf, &f->ino->data[off], cutp - off);
    point("pread2", f->ino->id, uint64_t(cutp));
    avail = std::min<size_t>(avail, f->ino->data.size() - std::min<size_t>(f->ino->data.size(), size_t(off)));
    if (off + int64_t(avail) > cutp)
     memcpy(buf + (cutp - off), &f->ino->data[cutp], off + avail - cutp);
    return ssize_t(avail);
   }
  memcpy(buf, &f->ino->data[off], avail);
  return ssize_t(avail);
 }

 static ssize_t sim_pwrite(Open_File *f, const char *buf, size_t n, int64_t off, const char *op)
 {
  check_io(buf, n, op);
  point(op, f->ino->id, uint64_t(off) * 31 + n);
  if ((f->flags & O_ACCMODE) == O_RDONLY) {errno = EBADF; return -1;}
  Inode *ino = f->ino;
  const bool extends = off + int64_t(n) > int64_t(ino->data.size());
  mix(W->shared->hash, hash_bytes(buf, n));
  if (uint64_t v = fault(K_EIO_WRITE, 1 << 20))
  {
   const int64_t page = (off / 4096 + 1) * 4096 - off;
   if ((v & 1) && int64_t(n) > page) // whole pages before the error: the next call fails
    n = size_t(page);
   else
   {
    errno = EIO;
    return -1;
   }
  }
  if (extends)
  {
   size_t fit = std::max<int64_t>(0, std::min<int64_t>(n, int64_t(ino->data.size()) - off));
   if (self->pending_enospc || machine_for(f->path).full)
   {
    self->pending_enospc = false;
    if (fit == 0) {errno = ENOSPC; return -1;}
    n = fit;
   }
   else if (uint64_t v = fault(K_ENOSPC, 1 << 20))
   {
    // blocks are allocated as a whole
    const int64_t limit = int64_t(ino->data.size() + 4095) / 4096 * 4096;
    const int64_t end = off + int64_t(n);
    fit = size_t(std::max<int64_t>(0, std::min(end, limit + int64_t(v % 5) * 4096) - off));
    if (fit == 0) {errno = ENOSPC; return -1;}
    if (fit == n) goto space_left;
    self->pending_enospc = true;
    n = fit;
   }
  }
  space_left:
  if (n > 64 || (n > 1 && W->short_words))
   if (uint64_t v = fault(K_SHORT_WRITE, 1 << 20))
    n = 1 + v % (n - 1);
  const int64_t first = off / 8 + 1, last = (off + int64_t(n) - 1) / 8;
  if (last >= first)
   if (uint64_t v = fault(K_SPLIT_WRITE, 1 << 20))
   {
    const int64_t cutp = (first + int64_t(v) % (last - first + 1)) * 8;
    inode_write(ino, off, buf, cutp - off);
    wrote(f->path);
    if (cutp % 4096) // a kill does not stop the copy inside a page
    {
     self->split_ino = ino;
     self->split_off = cutp;
     self->split_data.assign(buf + (cutp - off), off + n - cutp);
    }
    point("pwrite2", ino->id, uint64_t(cutp));
    self->split_ino = nullptr;
    inode_write(ino, cutp, buf + (cutp - off), off + n - cutp);
    wrote(f->path);
    return ssize_t(n);
   }
  inode_write(ino, off, buf, n);
  wrote(f->path);
  return ssize_t(n);
 }

 static int sim_fsync(Open_File *f)
 {
  point("fsync", f->ino->id);
  if (fault(K_EIO_SYNC)) {errno = EIO; return -1;} // nothing became durable
  inode_sync(f->ino);
  dir_sync(machine_for(f->path));
  return 0;
 }

 static int sim_lock(Open_File *f, int cmd, struct flock *l)
 {
  const bool wait = cmd == F_OFD_SETLKW || cmd == F_SETLKW;
  const bool get_lk = cmd == F_OFD_GETLK || cmd == F_GETLK;
  const int64_t a = l->l_start, b = l->l_len == 0 ? INT64_MAX : l->l_start + l->l_len - 1;
  point(l->l_type == F_UNLCK ? "unlock" : l->l_type == F_WRLCK ? (wait ? "xlockw" : "xlock") : (wait ? "slockw" : "slock"), f->ino->id, uint64_t(a));
  Inode *ino = f->ino;
  if (l->l_type == F_UNLCK && !get_lk)
  {
   lock_remove(ino, f, a, b);
   return 0;
  }
  const bool ex = l->l_type == F_WRLCK;
  if (get_lk)
  {
   l->l_type = lock_conflict(ino, f, a, b, ex) ? F_WRLCK : F_UNLCK;
   return 0;
  }
  if (ex && (f->flags & O_ACCMODE) == O_RDONLY) {errno = EBADF; return -1;}
  if (!ex && (f->flags & O_ACCMODE) == O_WRONLY) {errno = EBADF; return -1;}
  if (fault(K_EIO_LOCK)) {errno = ENOLCK; return -1;}
  while (lock_conflict(ino, f, a, b, ex))
  {
   if (!wait) {errno = EAGAIN; return -1;}
   if (fault(K_EINTR_LOCK)) {errno = EINTR; return -1;}
   block(&ino->locks, -1);
   if (get(f->fd) != f) {errno = EBADF; return -1;}
  }
  lock_remove(ino, f, a, b);
  ino->locks.push_back({a, b, ex, f});
  log_op("locked", ino->id, uint64_t(a));
  return 0;
 }

 // ================================================================== sockets
 static void sock_deliver_fin(Sock *s, Sock *p, bool rst)
 {
  int64_t t = std::max({W->now + W->lat_min, s->last_delivery, s->stall_until});
  s->last_delivery = t;
  add_event(t, [p, rst]()
  {
   if (p->st != Sock::connected) return;
   if (rst) p->reset = true;
   p->rx_eof = true;
   p->peer_gone = true;
   notify(p, p->ready());
  });
 }

 static void sock_close(Sock *s, bool silent)
 {
  if (s->st == Sock::listening)
  {
   for (Sock *c: s->backlog)
    if (c->peer) sock_deliver_fin(c, c->peer, true);
   s->backlog.clear();
   auto i = W->names.find(s->path);
   if (i != W->names.end() && i->second == s) i->second = nullptr;
  }
  else if (s->st == Sock::bound)
  {
   auto i = W->names.find(s->path);
   if (i != W->names.end() && i->second == s) i->second = nullptr;
  }
  else if (s->st == Sock::connected && s->peer)
  {
   if (!silent)
   {
    if (!s->wr_shut) sock_deliver_fin(s, s->peer, false);
   }
   else
   {
    Sock *p = s->peer;
    p->cut = true;
    add_event(W->now + 100 * MS + int64_t(W->spec->seed % 17) * 3 * SEC, [p]()
    {
     if (p->st != Sock::connected) return;
     p->reset = p->rx_eof = p->peer_gone = true;
     notify(p, p->ready());
    });
   }
  }
  s->st = Sock::closed;
 }

 static void lose_connection(Sock *s, bool drop_inflight)
 {
  Sock *ends[2] = {s, s->peer};
  for (Sock *e: ends)
  {
   if (!e || e->st != Sock::connected) continue;
   if (drop_inflight)
   {
    e->cut = true; // what is still in flight from here is lost
    e->reset = e->rx_eof = e->peer_gone = true;
    notify(e, e->ready());
   }
   else if (e->peer)
    sock_deliver_fin(e, e->peer, true);
  }
 }

 static bool net_faults(Sock *s)
 {
  if (s->st != Sock::connected) return false;
  if (uint64_t v = fault(K_CONN_RESET, 2))
  {
   lose_connection(s, v == 1);
   return true;
  }
  if (uint64_t v = fault(K_CONN_STALL, 1 << 20))
  {
   const int64_t d = 1 + int64_t(v) * self->node->rates.max_stall_ns / (1 << 20);
   if (v & 1) s->stall_until = std::max(s->stall_until, W->now + d);
   if ((v & 2) && s->peer) s->peer->stall_until = std::max(s->peer->stall_until, W->now + d);
  }
  return false;
 }

 static ssize_t sim_send(Sock *s, const char *p, size_t n, const char *op)
 {
  check_io(p, n, op);
  point(op, s->id, n);
  mix(W->shared->hash, hash_bytes(p, n));
  if (W->on_send) W->on_send(self->node, p, n);
  net_faults(s);
  while (true)
  {
   if (s->st != Sock::connected) {errno = ENOTCONN; return -1;}
   if (s->reset) {errno = ECONNRESET; return -1;}
   if (s->peer_gone || s->wr_shut) {errno = EPIPE; return -1;}
   if (n == 0) return 0;
   if (s->cut || (s->peer && s->peer->st != Sock::connected)) return ssize_t(n); // goes nowhere
   if (s->room() > 0) break;
   if (s->nonblock) {errno = EAGAIN; return -1;}
   block(s, -1);
   if (get(s->fd) != s) {errno = EBADF; return -1;}
  }
  n = std::min<size_t>(n, size_t(s->room()));
  if (n > 1)
   if (uint64_t v = fault(K_SHORT_SEND, 1 << 20))
    n = 1 + v % (n - 1);
  int64_t lat = W->lat_min;
  if (W->lat_max > W->lat_min)
   lat += int64_t(decide(K_LATENCY, []() -> uint64_t
   {
    return W->rng.chance(0.5) ? 1 + W->rng.below(uint64_t(W->lat_max - W->lat_min)) : 0;
   }));
  const int64_t t = std::max({W->now + lat, s->last_delivery, s->stall_until});
  s->last_delivery = t;
  s->inflight += n;
  Sock *q = s->peer;
  std::string sent(p, n);
  const bool lost = W->mutate && q && !W->mutate(s->owner, q->owner, std::min(s->id, q->id), sent);
  add_event(t, [s, q, n, data = std::move(sent)]()
  {
   s->inflight -= n;
   if (s->cut || q->st != Sock::connected || q->reset) return;
   if (data.empty()) return;
   q->rx += data;
   notify(q, EPOLLIN);
  });
  if (lost) lose_connection(s, false);
  return ssize_t(n);
 }

 static ssize_t sim_recv(Sock *s, char *p, size_t n, bool peek, const char *op)
 {
  check_io(p, n, op);
  point(op, s->id, n);
  net_faults(s);
  while (true)
  {
   if (s->st != Sock::connected) {errno = ENOTCONN; return -1;}
   if (!s->rx.empty() && !s->reset) break;
   if (s->reset) {errno = ECONNRESET; return -1;}
   if (s->rx_eof) return 0;
   if (n == 0) return 0;
   if (s->nonblock) {errno = EAGAIN; return -1;}
   block(s, s->rcv_timeout < 0 ? -1 : W->now + s->rcv_timeout);
   if (get(s->fd) != s) {errno = EBADF; return -1;}
   if (self->timed_out && s->rx.empty() && !s->reset && !s->rx_eof) {errno = EAGAIN; return -1;}
  }
  n = std::min(n, s->rx.size());
  if (n > 1)
   if (uint64_t v = fault(K_SHORT_RECV, 1 << 20))
    n = 1 + v % (n - 1);
  memcpy(p, s->rx.data(), n);
  if (!peek) s->rx.erase(0, n);
  if (s->peer) notify(s->peer, EPOLLOUT);
  mix(W->shared->hash, n);
  return ssize_t(n);
 }

 static int sim_connect(Sock *s, const std::string &path)
 {
  point("connect", s->id);
  auto i = W->names.find(path);
  if (i == W->names.end()) {errno = ENOENT; return -1;}
  if (!i->second || i->second->st != Sock::listening) {errno = ECONNREFUSED; return -1;}
  block(&self->go, W->now + W->lat_min * 2);
  i = W->names.find(path);
  if (i == W->names.end() || !i->second || i->second->st != Sock::listening) {errno = ECONNREFUSED; return -1;}
  Sock *l = i->second;
  Sock *c = new Sock;
  c->id = ++W->sock_id;
  c->st = Sock::connected;
  c->peer = s;
  c->cap = s->cap;
  s->peer = c;
  s->st = Sock::connected;
  l->backlog.push_back(c);
  notify(l, EPOLLIN);
  return 0;
 }

 static int sim_accept(Sock *s, int flags)
 {
  point("accept", s->id);
  while (s->backlog.empty())
  {
   if (s->st != Sock::listening) {errno = EINVAL; return -1;}
   if (s->nonblock) {errno = EAGAIN; return -1;}
   block(s, -1);
   if (get(s->fd) != s) {errno = EBADF; return -1;}
  }
  if (uint64_t v = fault(K_ACCEPT_FAIL, 4))
  {
   static const int e[4] = {EMFILE, ENFILE, ENOMEM, ENOBUFS};
   errno = e[v - 1];
   return -1;
  }
  Sock *c = s->backlog.front();
  s->backlog.pop_front();
  c->nonblock = flags & SOCK_NONBLOCK;
  return add_fd(c);
 }

 // ==================================================================== close
 static void close_obj(Obj *o, bool silent)
 {
  for (Epoll *e: o->watchers)
   e->regs.erase(o->fd);
  o->watchers.clear();
  W->fds.erase(o->fd);
  switch (o->type)
  {
   case T_FILE:
   {
    Open_File *f = (Open_File *)o;
    lock_remove(f->ino, f, 0, INT64_MAX);
   }
   break;
   case T_SOCK: sock_close((Sock *)o, silent); wake_all(o); break;
   case T_EPOLL:
    for (auto &r: ((Epoll *)o)->regs)
    {
     auto &w = r.second.o->watchers;
     w.erase(std::remove(w.begin(), w.end(), (Epoll *)o), w.end());
    }
   break;
   case T_TIMER: ((Timer *)o)->gen++; break;
   default: break;
  }
  // the object itself is kept: late events may refer to it
 }

 static void kill_node(Node *n, bool power)
 {
  if (!n->alive) return;
  n->alive = false;
  for (Thread *t: W->threads)
   if (t->node == n && !t->dead)
   {
    t->dead = true;
    if (t->split_ino && !power)
     inode_write(t->split_ino, t->split_off, t->split_data.data(), t->split_data.size());
    t->split_ino = nullptr;
   }
  for (auto &h: W->held)
   if (h.second.first && h.second.first->node == n)
   {
    real_unlock((pthread_mutex_t *)h.first);
    h.second.first = nullptr;
    wake_all(h.first);
   }
  std::vector<Obj *> mine;
  for (auto &i: W->fds)
   if (i.second->owner == n) mine.push_back(i.second);
  for (Obj *o: mine)
   close_obj(o, power);
  for (Thread *t: W->threads)
   if (t->node == n) wake_all(t);
  if (n->on_crash) n->on_crash();
 }

 static void after_kill()
 {
  if (self->dead)
  {
   schedule();
   park_forever();
  }
 }

 void crash(Node *n)
 {
  if (W->log) fprintf(W->log, "[%9.3fms #%lu %s] ** KILL %s\n", double(W->now) / 1e6, W->steps, self->name.c_str(), n->name.c_str());
  kill_node(n, false);
  after_kill();
 }

 void power_fail(int machine)
 {
  if (W->log) fprintf(W->log, "[%9.3fms #%lu %s] ** POWER FAILURE of machine %d\n", double(W->now) / 1e6, W->steps, self->name.c_str(), machine);
  for (Node *n: W->nodes)
   if (n->machine == machine && n->alive)
    kill_node(n, true);
  Machine &m = W->machines[machine];
  // deterministic function of the seed and of the point where it happens; the
  // choice of what survives is itself a recorded decision
  const uint64_t base = (W->spec->seed ^ 0xABCDEF) * 7919 + 1;
  uint64_t v = decide(K_TEAR, []() -> uint64_t {return 1 + W->rng.below(1u << 30);});
  Rng r(base + v * 104729);
  // metadata: the journal of the file system keeps a prefix of the operations
  const size_t keep = r.below(m.dirops.size() + 1);
  for (size_t i = 0; i < keep; i++)
  {
   Dir_Op &d = m.dirops[i];
   if (d.what == 0) m.durable_dir[d.a] = d.ino;
   else if (d.what == 1) m.durable_dir.erase(d.a);
   else {m.durable_dir[d.b] = d.ino; m.durable_dir.erase(d.a);}
  }
  m.dirops.clear();
  m.dir = m.durable_dir;
  for (auto &i: m.dir)
  {
   Inode *ino = i.second;
   ino->data = power_image(ino, r.next());
   ino->durable = ino->data;
   ino->pend.clear();
   ino->locks.clear();
  }
  after_kill();
 }

 void send_signal(Node *n, int sig)
 {
  auto i = n->handlers.find(sig);
  if (i == n->handlers.end() || i->second == nullptr)
  {
   crash(n); // default action
   return;
  }
  if (i->second == SIG_IGN) return;
  Node *const previous = self->as_node;
  self->as_node = n;
  load_regions(n);
  i->second(sig);
  self->as_node = previous;
  load_regions(previous ? previous : self->node);
 }

 // ------------------------------------------------------------ storage API --
 static Inode *find_inode(const std::string &p)
 {
  Machine &m = machine_for(p);
  auto i = m.dir.find(p);
  return i == m.dir.end() ? nullptr : i->second;
 }
 bool vfs_exists(const std::string &p) {return find_inode(p) || W->names.count(p);}
 bool vfs_created_since(const std::string &p, uint64_t from) {const Inode *i = find_inode(p); return i && i->creator == self && i->created >= from;}
 std::string vfs_content(const std::string &p) {Inode *i = find_inode(p); return i ? i->data : std::string();}
 std::string vfs_durable(const std::string &p) {Inode *i = find_inode(p); return i ? i->durable : std::string();}
 void vfs_put(const std::string &p, const std::string &d)
 {
  Machine &m = machine_for(p);
  Inode *ino = find_inode(p);
  if (!ino) {ino = new Inode; ino->id = ++W->inode_id; m.dir[p] = ino;}
  ino->data = ino->durable = d;
  ino->pend.clear();
  m.durable_dir[p] = ino;
 }
 bool vfs_begins(const std::string &p, const std::string &s, size_t from)
 {
  Inode *i = find_inode(p);
  return i && i->data.size() >= s.size() && (from >= s.size() || memcmp(i->data.data() + from, s.data() + from, s.size() - from) == 0);
 }
 void vfs_remove(const std::string &p)
 {
  Machine &m = machine_for(p);
  m.dir.erase(p);
  m.durable_dir.erase(p);
  if (W) W->names.erase(p);
 }
 std::vector<std::string> vfs_list(const std::string &prefix)
 {
  std::vector<std::string> v;
  for (auto &m: W->machines)
   for (auto &i: m.second.dir)
    if (i.first.compare(0, prefix.size(), prefix) == 0) v.push_back(i.first);
  return v;
 }
 void vfs_sync_all()
 {
  for (auto &m: W->machines)
  {
   for (auto &i: m.second.dir)
   {
    i.second->durable = i.second->data;
    i.second->pend.clear();
   }
   dir_sync(m.second);
  }
 }
 size_t vfs_pending(const std::string &p)
 {
  Inode *i = find_inode(p);
  size_t n = 0;
  if (i) for (auto &e: i->pend) if (!e.synced) n++;
  return n;
 }
 std::string vfs_power_image(const std::string &p, uint64_t s)
 {
  Inode *i = find_inode(p);
  return i ? power_image(i, s) : std::string();
 }
 void vfs_short_words(bool allowed) {W->short_words = allowed;}
 void vfs_on_write(const std::function<void(const std::string &)> &f) {W->on_write = f;}
 void net_on_send(const std::function<void(Node *, const char *, size_t)> &f) {W->on_send = f;}
 void net_mutate(const std::function<bool(Node *, Node *, uint64_t, std::string &)> &f) {W->mutate = f;}
 void power_model_ordered_sectors(bool b) {W->ordered_sectors = b;}
 void set_disk_full(int machine, bool full) {W->machines[machine].full = full;}

 // ------------------------------------------------------------ network API --
 void cut_all_connections()
 {
  std::vector<Sock *> v;
  for (auto &i: W->fds)
   if (i.second->type == T_SOCK && ((Sock *)i.second)->st == Sock::connected) v.push_back((Sock *)i.second);
  for (Sock *s: v)
   lose_connection(s, true);
 }
 void cut_connections_of(Node *n)
 {
  std::vector<Sock *> v;
  for (auto &i: W->fds)
   if (i.second->type == T_SOCK && i.second->owner == n && ((Sock *)i.second)->st == Sock::connected) v.push_back((Sock *)i.second);
  for (Sock *s: v)
   lose_connection(s, true);
 }
 int open_connections()
 {
  int n = 0;
  for (auto &i: W->fds)
   if (i.second->type == T_SOCK && ((Sock *)i.second)->st == Sock::connected) n++;
  return n;
 }
 void set_default_latency(int64_t a, int64_t b) {W->lat_min = a; W->lat_max = b;}
 void jump_wall_clock(int64_t ns) {move_wall_clock(ns);}

 int raw_connect(const std::string &path)
 {
  Sock *s = new Sock;
  s->id = ++W->sock_id;
  s->rcv_timeout = 3 * SEC;
  const int fd = add_fd(s);
  if (sim_connect(s, path) < 0) {close_obj(s, false); return -1;}
  return fd;
 }
 long raw_send(int fd, const void *p, size_t n)
 {
  Sock *s = get_as<Sock>(fd, T_SOCK);
  if (!s) return -1;
  size_t done = 0;
  while (done < n)
  {
   const ssize_t r = sim_send(s, (const char *)p + done, n - done, "send");
   if (r <= 0) return -1;
   done += size_t(r);
  }
  return long(done);
 }
 long raw_recv(int fd, void *p, size_t n)
 {
  Sock *s = get_as<Sock>(fd, T_SOCK);
  return s ? sim_recv(s, (char *)p, n, false, "recv") : -1;
 }
 void raw_close(int fd)
 {
  if (Obj *o = get(fd)) {point("close", uint64_t(fd)); close_obj(o, false);}
 }

 std::string hex(const std::string &s, size_t max)
 {
  static const char *d = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < s.size() && i < max; i++)
  {
   r += d[(unsigned char)s[i] >> 4];
   r += d[s[i] & 15];
  }
  return r;
 }

 // ================================================================ run start
 static void on_signal(int sig, siginfo_t *, void *)
 {
  if (W && W->shared->status == 0)
  {
   W->active = false;
   snprintf(W->shared->cls, sizeof(W->shared->cls), "signal-%d", sig);
   snprintf(W->shared->msg, sizeof(W->shared->msg), "signal %d (%s) in thread %s of process %s after %s", sig, strsignal(sig),
    self ? self->name.c_str() : "?", self && self->node ? self->node->name.c_str() : "?", self ? self->last_op : "?");
   finish(2);
  }
  syscall(SYS_exit_group, 3);
 }

 static void on_terminate()
 {
  Kernel kernel_;
  std::string what = "no exception";
  if (auto e = std::current_exception())
  {
   what = "unknown exception";
   try {std::rethrow_exception(e);}
   catch (const std::exception &x) {what = x.what();}
   catch (...) {}
  }
  if (self && self->node && self->node->terminate_kills && !self->dead && W->active)
  {
   probe("terminated_processes");
   crash(self->node);
  }
  fail("terminate", "std::terminate in thread %s of process %s after %s: %s", self ? self->name.c_str() : "?",
   self && self->node ? self->node->name.c_str() : "?", self ? self->last_op : "?", what.c_str());
 }

 static void resolve()
 {
  static bool done = false;
  if (done) return;
  done = true;
#define R(v, n) v = (decltype(v))dlsym(RTLD_NEXT, n)
  R(real_create, "pthread_create");
  R(real_lock, "pthread_mutex_lock");
  R(real_trylock, "pthread_mutex_trylock");
  R(real_unlock, "pthread_mutex_unlock");
  R(real_join, "pthread_join");
  R(real_detach, "pthread_detach");
  R(real_cond_wait, "pthread_cond_wait");
  R(real_cond_signal, "pthread_cond_signal");
  R(real_cond_broadcast, "pthread_cond_broadcast");
  R(real_sigaction, "sigaction");
  R(real_remove, "remove");
  R(real_rename, "rename");
#undef R
 }

 void child_run(const Run_Spec &spec, Shared *shared)
 {
  resolve();
  struct rlimit rl = {20, 25};
  setrlimit(RLIMIT_CPU, &rl);
  struct rlimit rc = {0, 0};
  setrlimit(RLIMIT_CORE, &rc);
  mallopt(M_ARENA_MAX, 1);

  heap_begin = (char *)mmap((void *)0x600000000000ull, heap_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (heap_begin == MAP_FAILED)
   _exit(4);
  heap_cur = heap_begin;
  heap_end = heap_begin + heap_size;
  heap_on = true;

  static char alt[65536];
  stack_t ss = {};
  ss.ss_sp = alt;
  ss.ss_size = sizeof(alt);
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s: {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGXCPU})
   real_sigaction(s, &sa, nullptr);
  signal(SIGPIPE, SIG_IGN);
  std::set_terminate(on_terminate);

  const Scenario_Info *info = nullptr;
  for (auto &s: registry())
   if (spec.scenario == s.name) info = &s;
  if (!info)
   _exit(5);

  W = new World;
  W->spec = &spec;
  W->shared = shared;
  W->rng = Rng(spec.seed * 2 + 1);
  W->workload = Rng(spec.seed * 2 + 2);
  if (spec.log_file)
   W->log = fopen(spec.log_file, "w");
  for (auto &e: spec.overrides)
   W->overrides[{e.thread, e.point, e.kind, e.sub}] = e.value;

  // scheduling policy of this run
  Rng pr(spec.seed * 31 + 7);
  static const double psw[] = {0.02, 0.1, 0.3, 0.6, 1.0};
  W->policy = pr.chance(0.3) ? 1 : 0;
  W->psw = psw[pr.below(5)];
  W->pchange = pr.chance(0.5) ? 0.002 : 0.02;

  Thread *m = make_thread(nullptr, "main");
  self = m;
  m->real = pthread_self();
  W->cur = m;
  shared->hash = 1;
  W->active = true;
  mix(shared->hash, spec.seed);

  try
  {
   info->f();
  }
  catch (const std::exception &e)
  {
   fail("harness-exception", "scenario %s: %s", spec.scenario.c_str(), e.what());
  }

  W->active = false;
  // writes after free: every freed block must still be poisoned
  for (char *p = heap_begin; p < heap_cur;)
  {
   Block *b = (Block *)p;
   const size_t total = (sizeof(Block) + b->size + 8 + 15) & ~size_t(15);
   if (b->magic == magic_dead)
   {
    char *q = (char *)(b + 1);
    for (size_t i = 0; i < b->size; i++)
     if ((unsigned char)q[i] != 0xDD)
     {
      W->active = false;
      fail("heap-write-after-free", "a freed block of %lu bytes was modified at offset %lu", b->size, i);
     }
   }
   else if (b->magic != magic_live)
    fail("heap-corruption", "block header overwritten");
   p += total;
  }
  finish(1);
  __builtin_unreachable();
 }
}

using namespace sim;

static void heap_fault(const char *what)
{
 if (W) {W->active = false; fail("heap", "%s in thread %s after %s", what, self ? self->name.c_str() : "?", self ? self->last_op : "?");}
 abort();
}

// ======================================================== operator new/delete
static bool alloc_fault()
{
 if (!heap_on || !self || !self->alloc_faults || self->kernel || !W || !W->active) return false;
 self->kernel++;
 const bool failed = fault(K_ALLOC);
 self->kernel--;
 return failed;
}
void *operator new(size_t n)
{
 if (heap_on)
 {
  if (alloc_fault()) throw std::bad_alloc();
  if (void *p = heap_alloc(n)) return p;
  throw std::bad_alloc();
 }
 if (void *p = malloc(n ? n : 1)) return p;
 throw std::bad_alloc();
}
void *operator new[](size_t n) {return operator new(n);}
void *operator new(size_t n, const std::nothrow_t &) noexcept {try {return operator new(n);} catch (...) {return nullptr;}}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {try {return operator new(n);} catch (...) {return nullptr;}}
void operator delete(void *p) noexcept
{
 if (!p) return;
 if (heap_begin && (char *)p >= heap_begin && (char *)p < heap_end) heap_free(p);
 else if (!heap_on) free(p);
}
void operator delete[](void *p) noexcept {operator delete(p);}
void operator delete(void *p, size_t) noexcept {operator delete(p);}
void operator delete[](void *p, size_t) noexcept {operator delete(p);}
void operator delete(void *p, const std::nothrow_t &) noexcept {operator delete(p);}
void operator delete[](void *p, const std::nothrow_t &) noexcept {operator delete(p);}
void *operator new(size_t n, std::align_val_t a)
{
 if (heap_on && size_t(a) <= 16) return operator new(n);
 void *p = aligned_alloc(size_t(a), (n + size_t(a) - 1) & ~(size_t(a) - 1));
 if (!p) throw std::bad_alloc();
 return p;
}
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" __attribute__((visibility("default"))) void *wrap_aligned_alloc(size_t a, size_t n) __asm__("aligned_alloc");
extern "C" void *wrap_aligned_alloc(size_t a, size_t n)
{
 if (alloc_fault()) {errno = ENOMEM; return nullptr;}
 return __libc_memalign(a, n);
}
void operator delete(void *p, std::align_val_t) noexcept
{
 if (heap_begin && (char *)p >= heap_begin && (char *)p < heap_end) heap_free(p);
 else free(p);
}
void operator delete(void *p, size_t, std::align_val_t a) noexcept {operator delete(p, a);}

// ========================================================= libc interposition
#define WRAP(ret, name, ...) \
 extern "C" __attribute__((visibility("default"))) ret wrap_##name(__VA_ARGS__) __asm__(#name); \
 extern "C" ret wrap_##name(__VA_ARGS__)

#define BAD_FD() do {errno = EBADF; return -1;} while (0)

static int do_open(const char *path, int flags, mode_t mode)
{
 Kernel kernel_;
 if (in_sim() && is_sim_path(path))
  return sim_open(path, flags);
 return int(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}

WRAP(int, open, const char *path, int flags, ...)
{
 va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
 return do_open(path, flags, m);
}
WRAP(int, open64, const char *path, int flags, ...)
{
 va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
 return do_open(path, flags, m);
}
WRAP(int, creat, const char *path, mode_t mode) {return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode);}

WRAP(int, close, int fd)
{
 Kernel kernel_;
 if (in_sim())
 {
  if (Obj *o = get(fd))
  {
   point("close", uint64_t(fd));
   if (get(fd) != o) BAD_FD();
   if (self->node && o->owner && o->owner != self->node) fail("bad-close", "process closes a descriptor of another process");
   close_obj(o, false);
   return 0;
  }
  if (fd >= 1000)
  {
   fail("double-close", "close of the closed descriptor %d in thread %s", fd, self->name.c_str());
  }
 }
 return int(syscall(SYS_close, fd));
}

WRAP(ssize_t, pread, int fd, void *b, size_t n, off_t off)
{
 Kernel kernel_;
 if (in_sim()) {if (auto *f = get_as<Open_File>(fd, T_FILE)) return sim_pread(f, (char *)b, n, off, "pread"); if (fd >= 1000) BAD_FD();}
 return syscall(SYS_pread64, fd, b, n, off);
}
WRAP(ssize_t, pread64, int fd, void *b, size_t n, off_t off) {return wrap_pread(fd, b, n, off);}
WRAP(ssize_t, pwrite, int fd, const void *b, size_t n, off_t off)
{
 Kernel kernel_;
 if (in_sim()) {if (auto *f = get_as<Open_File>(fd, T_FILE)) return sim_pwrite(f, (const char *)b, n, off, "pwrite"); if (fd >= 1000) BAD_FD();}
 return syscall(SYS_pwrite64, fd, b, n, off);
}
WRAP(ssize_t, pwrite64, int fd, const void *b, size_t n, off_t off) {return wrap_pwrite(fd, b, n, off);}

static ssize_t do_read(int fd, char *b, size_t n)
{
 Obj *o = get(fd);
 if (!o) BAD_FD();
 switch (o->type)
 {
  case T_FILE:
  {
   auto *f = (Open_File *)o;
   const ssize_t r = sim_pread(f, b, n, f->pos, "read");
   if (r > 0) f->pos += r;
   return r;
  }
  case T_SOCK: return sim_recv((Sock *)o, b, n, false, "read");
  case T_EVENT:
  {
   point("read_event", uint64_t(fd));
   auto *e = (Event_Fd *)o;
   if (e->count == 0) {errno = EAGAIN; return -1;}
   memcpy(b, &e->count, 8);
   e->count = 0;
   return 8;
  }
  case T_TIMER:
  {
   point("read_timer", uint64_t(fd));
   auto *t = (Timer *)o;
   if (!t->expired) {errno = EAGAIN; return -1;}
   t->expired = false;
   uint64_t one = 1;
   memcpy(b, &one, 8);
   return 8;
  }
  case T_PIPE:
  {
   point("read_pipe", uint64_t(fd));
   auto *p = (Pipe *)o;
   if (p->buf->empty()) {errno = EAGAIN; return -1;}
   n = std::min(n, p->buf->size());
   memcpy(b, p->buf->data(), n);
   p->buf->erase(0, n);
   return ssize_t(n);
  }
  default: BAD_FD();
 }
}

static ssize_t do_write(int fd, const char *b, size_t n)
{
 Obj *o = get(fd);
 if (!o) BAD_FD();
 switch (o->type)
 {
  case T_FILE:
  {
   auto *f = (Open_File *)o;
   const ssize_t r = sim_pwrite(f, b, n, f->flags & O_APPEND ? int64_t(f->ino->data.size()) : f->pos, "write");
   if (r > 0) f->pos += r;
   return r;
  }
  case T_SOCK: return sim_send((Sock *)o, b, n, "write");
  case T_EVENT:
  {
   point("write_event", uint64_t(fd));
   auto *e = (Event_Fd *)o;
   uint64_t v;
   memcpy(&v, b, 8);
   e->count += v;
   notify(e, EPOLLIN);
   return 8;
  }
  case T_PIPE:
  {
   point("write_pipe", uint64_t(fd));
   auto *p = (Pipe *)o;
   p->buf->append(b, n);
   notify(p->other, EPOLLIN);
   return ssize_t(n);
  }
  default: BAD_FD();
 }
}

WRAP(ssize_t, read, int fd, void *b, size_t n)
{
 Kernel kernel_;
 if (in_sim() && (fd >= 1000)) return do_read(fd, (char *)b, n);
 return syscall(SYS_read, fd, b, n);
}
WRAP(ssize_t, write, int fd, const void *b, size_t n)
{
 Kernel kernel_;
 if (in_sim() && (fd >= 1000)) return do_write(fd, (const char *)b, n);
 return syscall(SYS_write, fd, b, n);
}
WRAP(ssize_t, readv, int fd, const struct iovec *v, int c)
{
 Kernel kernel_;
 if (!in_sim() || fd < 1000) return syscall(SYS_readv, fd, v, c);
 for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, (char *)v[i].iov_base, v[i].iov_len);
 return 0;
}
WRAP(ssize_t, writev, int fd, const struct iovec *v, int c)
{
 Kernel kernel_;
 if (!in_sim() || fd < 1000) return syscall(SYS_writev, fd, v, c);
 std::string s;
 for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len);
 return do_write(fd, s.data(), s.size());
}
WRAP(ssize_t, preadv, int fd, const struct iovec *v, int c, off_t off)
{
 Kernel kernel_;
 if (!in_sim() || fd < 1000) return syscall(SYS_preadv, fd, v, c, off, 0);
 auto *f = get_as<Open_File>(fd, T_FILE);
 if (!f) BAD_FD();
 size_t n = 0;
 for (int i = 0; i < c; i++) n += v[i].iov_len;
 std::string s(n, 0);
 const ssize_t r = sim_pread(f, &s[0], n, off, "preadv");
 size_t done = 0;
 for (int i = 0; i < c && r > 0 && done < size_t(r); i++)
 {
  const size_t k = std::min(v[i].iov_len, size_t(r) - done);
  memcpy(v[i].iov_base, s.data() + done, k);
  done += k;
 }
 return r;
}
WRAP(ssize_t, pwritev, int fd, const struct iovec *v, int c, off_t off)
{
 Kernel kernel_;
 if (!in_sim() || fd < 1000) return syscall(SYS_pwritev, fd, v, c, off, 0);
 auto *f = get_as<Open_File>(fd, T_FILE);
 if (!f) BAD_FD();
 std::string s;
 for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len);
 return sim_pwrite(f, s.data(), s.size(), off, "pwritev");
}
WRAP(ssize_t, preadv64, int fd, const struct iovec *v, int c, off_t off) {return wrap_preadv(fd, v, c, off);}
WRAP(ssize_t, pwritev64, int fd, const struct iovec *v, int c, off_t off) {return wrap_pwritev(fd, v, c, off);}

WRAP(off_t, lseek, int fd, off_t off, int whence)
{
 Kernel kernel_;
 if (!in_sim() || fd < 1000) return syscall(SYS_lseek, fd, off, whence);
 auto *f = get_as<Open_File>(fd, T_FILE);
 if (!f) {errno = ESPIPE; return -1;}
 if (whence == SEEK_SET) f->pos = off;
 else if (whence == SEEK_CUR) f->pos += off;
 else f->pos = int64_t(f->ino->data.size()) + off;
 return f->pos;
}
WRAP(off_t, lseek64, int fd, off_t off, int whence) {return wrap_lseek(fd, off, whence);}

WRAP(int, fsync, int fd)
{
 Kernel kernel_;
 if (in_sim()) {if (auto *f = get_as<Open_File>(fd, T_FILE)) return sim_fsync(f); if (fd >= 1000) BAD_FD();}
 return int(syscall(SYS_fsync, fd));
}
WRAP(int, fdatasync, int fd)
{
 Kernel kernel_;
 if (in_sim()) {if (auto *f = get_as<Open_File>(fd, T_FILE)) return sim_fsync(f); if (fd >= 1000) BAD_FD();}
 return int(syscall(SYS_fdatasync, fd));
}
WRAP(int, sync_file_range, int fd, off_t a, off_t b, unsigned fl)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000) return 0; // gives no durability guarantee
 return int(syscall(SYS_sync_file_range, fd, a, b, fl));
}
WRAP(void, sync, void)
{
 Kernel kernel_;
 if (in_sim()) return;
 syscall(SYS_sync);
}

static void fill_stat(struct stat *s, Open_File *f)
{
 memset(s, 0, sizeof(*s));
 s->st_size = off_t(f->ino->data.size());
 s->st_mode = S_IFREG | 0644;
 s->st_ino = f->ino->id;
 s->st_nlink = 1;
}
WRAP(int, fstat, int fd, struct stat *s)
{
 Kernel kernel_;
 if (in_sim())
 {
  if (auto *f = get_as<Open_File>(fd, T_FILE))
  {
   point("fstat", f->ino->id);
   fill_stat(s, f);
   mix(W->shared->hash, uint64_t(s->st_size));
   return 0;
  }
  if (fd >= 1000) {memset(s, 0, sizeof(*s)); s->st_mode = S_IFSOCK; return 0;}
 }
 return int(syscall(SYS_newfstatat, fd, "", s, AT_EMPTY_PATH));
}
WRAP(int, fstat64, int fd, struct stat *s) {return wrap_fstat(fd, s);}
WRAP(int, stat, const char *p, struct stat *s)
{
 Kernel kernel_;
 if (in_sim() && is_sim_path(p))
 {
  point("stat", hash_str(p) & 0xffff);
  Machine &m = machine_for(p);
  auto i = m.dir.find(p);
  memset(s, 0, sizeof(*s));
  if (i != m.dir.end()) {s->st_size = off_t(i->second->data.size()); s->st_mode = S_IFREG | 0644; s->st_ino = i->second->id; return 0;}
  if (W->names.count(p)) {s->st_mode = S_IFSOCK | 0644; return 0;}
  errno = ENOENT;
  return -1;
 }
 return int(syscall(SYS_newfstatat, AT_FDCWD, p, s, 0));
}
WRAP(int, stat64, const char *p, struct stat *s) {return wrap_stat(p, s);}
WRAP(int, access, const char *p, int mode)
{
 Kernel kernel_;
 if (in_sim() && is_sim_path(p)) {struct stat s; return wrap_stat(p, &s);}
 return int(syscall(SYS_faccessat, AT_FDCWD, p, mode));
}
WRAP(int, ftruncate, int fd, off_t n)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000)
 {
  auto *f = get_as<Open_File>(fd, T_FILE);
  if (!f) BAD_FD();
  point("ftruncate", f->ino->id, uint64_t(n));
  f->ino->data.resize(size_t(n), 0);
  f->ino->pend.push_back({-1 - n, "", false});
  wrote(f->path);
  return 0;
 }
 return int(syscall(SYS_ftruncate, fd, n));
}
WRAP(int, ftruncate64, int fd, off_t n) {return wrap_ftruncate(fd, n);}

static int do_unlink(const char *p)
{
 point("unlink", hash_str(p) & 0xffff);
 auto s = W->names.find(p);
 if (s != W->names.end()) {W->names.erase(s); return 0;}
 Machine &m = machine_for(p);
 auto i = m.dir.find(p);
 if (i == m.dir.end()) {errno = ENOENT; return -1;}
 m.dirops.push_back({1, p, "", i->second});
 m.dir.erase(i);
 return 0;
}
WRAP(int, unlink, const char *p)
{
 Kernel kernel_;
 if (in_sim() && is_sim_path(p)) return do_unlink(p);
 return int(syscall(SYS_unlinkat, AT_FDCWD, p, 0));
}
WRAP(int, remove, const char *p)
{
 Kernel kernel_;
 if (in_sim() && is_sim_path(p)) return do_unlink(p);
 resolve();
 return real_remove(p);
}
WRAP(int, rename, const char *a, const char *b)
{
 Kernel kernel_;
 if (in_sim() && is_sim_path(a))
 {
  point("rename", hash_str(a) & 0xffff, hash_str(b) & 0xffff);
  Machine &m = machine_for(a);
  auto i = m.dir.find(a);
  if (i == m.dir.end()) {errno = ENOENT; return -1;}
  if (uint64_t v = fault(K_EIO_WRITE)) {(void)v; errno = EIO; return -1;}
  Inode *ino = i->second;
  m.dir.erase(i);
  m.dir[b] = ino;
  m.dirops.push_back({2, a, b, ino});
  return 0;
 }
 resolve();
 return real_rename(a, b);
}

static int do_fcntl(int fd, int cmd, long arg)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000)
 {
  Obj *o = get(fd);
  if (!o) BAD_FD();
  switch (cmd)
  {
   case F_OFD_SETLK: case F_OFD_SETLKW: case F_OFD_GETLK: case F_SETLK: case F_SETLKW: case F_GETLK:
    if (o->type != T_FILE) BAD_FD();
    return sim_lock((Open_File *)o, cmd, (struct flock *)arg);
   case F_GETFL: return (o->nonblock ? O_NONBLOCK : 0) | O_RDWR;
   case F_SETFL: o->nonblock = arg & O_NONBLOCK; return 0;
   case F_GETFD: case F_SETFD: return 0;
   default: errno = EINVAL; return -1;
  }
 }
 return int(syscall(SYS_fcntl, fd, cmd, arg));
}
WRAP(int, fcntl, int fd, int cmd, ...) {va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a);}
WRAP(int, fcntl64, int fd, int cmd, ...) {va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a);}
WRAP(int, flock, int fd, int op)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000)
 {
  auto *f = get_as<Open_File>(fd, T_FILE);
  if (!f) BAD_FD();
  struct flock l = {};
  l.l_type = (op & LOCK_UN) ? F_UNLCK : (op & LOCK_EX) ? F_WRLCK : F_RDLCK;
  l.l_start = INT64_MAX / 2; l.l_len = 1; // a lock space of its own
  return sim_lock(f, (op & LOCK_NB) ? F_OFD_SETLK : F_OFD_SETLKW, &l);
 }
 return int(syscall(SYS_flock, fd, op));
}

// ------------------------------------------------------------------- sockets
WRAP(int, socket, int d, int t, int p)
{
 Kernel kernel_;
 if (in_sim())
 {
  point("socket");
  if (fault(K_EMFILE)) {errno = EMFILE; return -1;}
  Sock *s = new Sock;
  s->id = ++W->sock_id;
  s->nonblock = t & SOCK_NONBLOCK;
  return add_fd(s);
 }
 return int(syscall(SYS_socket, d, t, p));
}
static std::string sun_path(const struct sockaddr *a, socklen_t n)
{
 const auto *u = (const struct sockaddr_un *)a;
 if (a->sa_family != AF_UNIX) return "";
 return std::string(u->sun_path, strnlen(u->sun_path, n - offsetof(struct sockaddr_un, sun_path)));
}
WRAP(int, bind, int fd, const struct sockaddr *a, socklen_t n)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000)
 {
  Sock *s = get_as<Sock>(fd, T_SOCK);
  if (!s) BAD_FD();
  point("bind", s->id);
  const std::string p = sun_path(a, n);
  if (W->names.count(p)) {errno = EADDRINUSE; return -1;}
  W->names[p] = s;
  s->path = p;
  s->st = Sock::bound;
  return 0;
 }
 return int(syscall(SYS_bind, fd, a, n));
}
WRAP(int, listen, int fd, int b)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000)
 {
  Sock *s = get_as<Sock>(fd, T_SOCK);
  if (!s) BAD_FD();
  point("listen", s->id);
  s->st = Sock::listening;
  return 0;
 }
 return int(syscall(SYS_listen, fd, b));
}
WRAP(int, accept, int fd, struct sockaddr *a, socklen_t *n)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000)
 {
  Sock *s = get_as<Sock>(fd, T_SOCK);
  if (!s) BAD_FD();
  if (a && n && *n >= sizeof(sa_family_t)) {a->sa_family = AF_UNIX; *n = sizeof(sa_family_t);}
  return sim_accept(s, 0);
 }
 return int(syscall(SYS_accept, fd, a, n));
}
WRAP(int, accept4, int fd, struct sockaddr *a, socklen_t *n, int fl)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000)
 {
  Sock *s = get_as<Sock>(fd, T_SOCK);
  if (!s) BAD_FD();
  if (a && n && *n >= sizeof(sa_family_t)) {a->sa_family = AF_UNIX; *n = sizeof(sa_family_t);}
  return sim_accept(s, fl);
 }
 return int(syscall(SYS_accept4, fd, a, n, fl));
}
WRAP(int, connect, int fd, const struct sockaddr *a, socklen_t n)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000)
 {
  Sock *s = get_as<Sock>(fd, T_SOCK);
  if (!s) BAD_FD();
  return sim_connect(s, sun_path(a, n));
 }
 return int(syscall(SYS_connect, fd, a, n));
}
WRAP(ssize_t, send, int fd, const void *b, size_t n, int fl)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000) {Sock *s = get_as<Sock>(fd, T_SOCK); if (!s) BAD_FD(); return sim_send(s, (const char *)b, n, "send");}
 return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0);
}
WRAP(ssize_t, recv, int fd, void *b, size_t n, int fl)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000) {Sock *s = get_as<Sock>(fd, T_SOCK); if (!s) BAD_FD(); return sim_recv(s, (char *)b, n, fl & MSG_PEEK, "recv");}
 return syscall(SYS_recvfrom, fd, b, n, fl, nullptr, nullptr);
}
WRAP(ssize_t, sendto, int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000) {Sock *s = get_as<Sock>(fd, T_SOCK); if (!s) BAD_FD(); return sim_send(s, (const char *)b, n, "send");}
 return syscall(SYS_sendto, fd, b, n, fl, a, l);
}
WRAP(ssize_t, recvfrom, int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000) {Sock *s = get_as<Sock>(fd, T_SOCK); if (!s) BAD_FD(); return sim_recv(s, (char *)b, n, fl & MSG_PEEK, "recv");}
 return syscall(SYS_recvfrom, fd, b, n, fl, a, l);
}
WRAP(ssize_t, sendmsg, int fd, const struct msghdr *m, int fl)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000)
 {
  Sock *s = get_as<Sock>(fd, T_SOCK);
  if (!s) BAD_FD();
  std::string d;
  for (size_t i = 0; i < m->msg_iovlen; i++) d.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return sim_send(s, d.data(), d.size(), "send");
 }
 return syscall(SYS_sendmsg, fd, m, fl);
}
WRAP(ssize_t, recvmsg, int fd, struct msghdr *m, int fl)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000)
 {
  Sock *s = get_as<Sock>(fd, T_SOCK);
  if (!s) BAD_FD();
  size_t n = 0;
  for (size_t i = 0; i < m->msg_iovlen; i++) n += m->msg_iov[i].iov_len;
  std::string d(n, 0);
  const ssize_t r = sim_recv(s, &d[0], n, fl & MSG_PEEK, "recv");
  size_t done = 0;
  for (size_t i = 0; i < m->msg_iovlen && r > 0 && done < size_t(r); i++)
  {
   const size_t k = std::min(m->msg_iov[i].iov_len, size_t(r) - done);
   memcpy(m->msg_iov[i].iov_base, d.data() + done, k);
   done += k;
  }
  m->msg_flags = 0;
  return r;
 }
 return syscall(SYS_recvmsg, fd, m, fl);
}
WRAP(int, shutdown, int fd, int how)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000)
 {
  Sock *s = get_as<Sock>(fd, T_SOCK);
  if (!s) BAD_FD();
  point("shutdown", s->id);
  if (s->st != Sock::connected) {errno = ENOTCONN; return -1;}
  if (how != SHUT_RD && !s->wr_shut) {s->wr_shut = true; if (s->peer) sock_deliver_fin(s, s->peer, false);}
  if (how != SHUT_WR) {s->rx_eof = true; notify(s, s->ready());}
  return 0;
 }
 return int(syscall(SYS_shutdown, fd, how));
}
WRAP(int, getsockopt, int fd, int l, int o, void *v, socklen_t *n)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000)
 {
  memset(v, 0, *n);
  if (o == SO_TYPE && *n >= 4) {int t = SOCK_STREAM; memcpy(v, &t, 4);}
  return 0;
 }
 return int(syscall(SYS_getsockopt, fd, l, o, v, n));
}
WRAP(int, setsockopt, int fd, int l, int o, const void *v, socklen_t n)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000) return 0;
 return int(syscall(SYS_setsockopt, fd, l, o, v, n));
}
WRAP(int, getsockname, int fd, struct sockaddr *a, socklen_t *n)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000) {if (*n >= sizeof(sa_family_t)) {a->sa_family = AF_UNIX; *n = sizeof(sa_family_t);} return 0;}
 return int(syscall(SYS_getsockname, fd, a, n));
}
WRAP(int, getpeername, int fd, struct sockaddr *a, socklen_t *n)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000) {if (*n >= sizeof(sa_family_t)) {a->sa_family = AF_UNIX; *n = sizeof(sa_family_t);} return 0;}
 return int(syscall(SYS_getpeername, fd, a, n));
}
WRAP(int, ioctl, int fd, unsigned long req, ...)
{
 va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
 Kernel kernel_;
 if (in_sim() && fd >= 1000)
 {
  Obj *o = get(fd);
  if (!o) BAD_FD();
  if (req == FIONBIO) {o->nonblock = *(int *)arg; return 0;}
  if (req == FIONREAD && o->type == T_SOCK) {*(int *)arg = int(((Sock *)o)->rx.size()); return 0;}
  errno = EINVAL;
  return -1;
 }
 return int(syscall(SYS_ioctl, fd, req, arg));
}
WRAP(int, pipe2, int *p, int fl)
{
 Kernel kernel_;
 if (in_sim())
 {
  point("pipe");
  Pipe *r = new Pipe, *w = new Pipe;
  r->buf = w->buf = new std::string;
  r->other = w; w->other = r;
  w->writer = true;
  p[0] = add_fd(r);
  p[1] = add_fd(w);
  r->owner = w->owner = nullptr;
  return 0;
 }
 return int(syscall(SYS_pipe2, p, fl));
}
WRAP(int, pipe, int *p) {return wrap_pipe2(p, 0);}

WRAP(int, poll, struct pollfd *p, nfds_t n, int timeout)
{
 Kernel kernel_;
 if (in_sim() && n > 0 && p[0].fd >= 1000)
 {
  point("poll", uint64_t(p[0].fd));
  const int64_t deadline = timeout < 0 ? -1 : W->now + int64_t(timeout) * MS;
  while (true)
  {
   int c = 0;
   for (nfds_t i = 0; i < n; i++)
   {
    Obj *o = get(p[i].fd);
    p[i].revents = o ? short(o->ready() & uint32_t(p[i].events | POLLERR | POLLHUP)) : short(POLLNVAL);
    if (p[i].revents) c++;
   }
   if (c) return c;
   if (timeout == 0 || !block(&poll_obj, deadline)) return 0;
  }
 }
 return int(syscall(SYS_poll, p, n, timeout));
}

// --------------------------------------------------------------------- epoll
WRAP(int, epoll_create1, int fl)
{
 Kernel kernel_;
 if (in_sim()) {point("epoll_create"); return add_fd(new Epoll);}
 return int(syscall(SYS_epoll_create1, fl));
}
WRAP(int, epoll_create, int) {return wrap_epoll_create1(0);}
WRAP(int, epoll_ctl, int ep, int op, int fd, struct epoll_event *ev)
{
 Kernel kernel_;
 if (in_sim() && ep >= 1000)
 {
  Epoll *e = get_as<Epoll>(ep, T_EPOLL);
  Obj *o = get(fd);
  if (!e || !o) BAD_FD();
  if (op == EPOLL_CTL_ADD)
  {
   if (o->type == T_FILE) {errno = EPERM; return -1;}
   if (e->regs.count(fd)) {errno = EEXIST; return -1;}
   e->regs[fd] = {o, ev->events, ev->data.u64, o->ready()};
   o->watchers.push_back(e);
  }
  else if (op == EPOLL_CTL_MOD)
  {
   auto i = e->regs.find(fd);
   if (i == e->regs.end()) {errno = ENOENT; return -1;}
   i->second.events = ev->events;
   i->second.data = ev->data.u64;
   i->second.edge = o->ready();
  }
  else
  {
   if (!e->regs.erase(fd)) {errno = ENOENT; return -1;}
   o->watchers.erase(std::remove(o->watchers.begin(), o->watchers.end(), e), o->watchers.end());
  }
  if (o->ready()) wake_all(e);
  return 0;
 }
 return int(syscall(SYS_epoll_ctl, ep, op, fd, ev));
}
WRAP(int, epoll_wait, int ep, struct epoll_event *ev, int max, int timeout)
{
 Kernel kernel_;
 if (in_sim() && ep >= 1000)
 {
  Epoll *e = get_as<Epoll>(ep, T_EPOLL);
  if (!e) BAD_FD();
  point("epoll_wait", uint64_t(ep));
  const int64_t deadline = timeout < 0 ? -1 : W->now + int64_t(timeout) * MS;
  while (true)
  {
   int c = 0;
   for (auto &r: e->regs)
   {
    if (c >= max) break;
    uint32_t bits = r.second.o->ready() & (r.second.events | EPOLLERR | EPOLLHUP);
    if (r.second.events & EPOLLET)
    {
     bits = bits && (r.second.edge & (r.second.events | EPOLLERR | EPOLLHUP)) ? bits : 0;
     if (bits) r.second.edge = 0;
    }
    if (bits)
    {
     ev[c].events = bits;
     ev[c].data.u64 = r.second.data;
     c++;
    }
   }
   if (c) return c;
   if (timeout == 0 || !block(e, deadline)) return 0;
   if (get(ep) != e) BAD_FD();
  }
 }
 return int(syscall(SYS_epoll_wait, ep, ev, max, timeout));
}
WRAP(int, epoll_pwait, int ep, struct epoll_event *ev, int max, int timeout, const sigset_t *) {return wrap_epoll_wait(ep, ev, max, timeout);}

WRAP(int, eventfd, unsigned v, int fl)
{
 Kernel kernel_;
 if (in_sim()) {auto *e = new Event_Fd; e->count = v; return add_fd(e);}
 return int(syscall(SYS_eventfd2, v, fl));
}
WRAP(int, timerfd_create, int c, int fl)
{
 Kernel kernel_;
 if (in_sim()) return add_fd(new Timer);
 return int(syscall(SYS_timerfd_create, c, fl));
}
WRAP(int, timerfd_settime, int fd, int fl, const struct itimerspec *n, struct itimerspec *o)
{
 Kernel kernel_;
 if (in_sim() && fd >= 1000)
 {
  Timer *t = get_as<Timer>(fd, T_TIMER);
  if (!t) BAD_FD();
  t->expired = false;
  t->gen++;
  int64_t v = n->it_value.tv_sec >= 9000000000ll ? INT64_MAX / 2 : n->it_value.tv_sec * SEC + n->it_value.tv_nsec;
  t->armed = v != 0;
  if (v)
  {
   int64_t at = fl & TFD_TIMER_ABSTIME ? v - mono_base : (v >= INT64_MAX / 2 ? v : W->now + v);
   const uint64_t g = t->gen;
   add_event(std::max(at, W->now), [t, g]()
   {
    if (t->gen == g) {t->expired = true; notify(t, EPOLLIN);}
   });
   if (at <= W->now) {t->expired = true; t->gen++; notify(t, EPOLLIN);}
  }
  return 0;
 }
 return int(syscall(SYS_timerfd_settime, fd, fl, n, o));
}

// --------------------------------------------------------------------- clock
static void to_ts(int64_t v, struct timespec *t) {t->tv_sec = v / SEC; t->tv_nsec = v % SEC;}
WRAP(int, clock_gettime, clockid_t c, struct timespec *t)
{
 Kernel kernel_;
 if (in_sim())
 {
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {to_ts(wall_base + W->now + W->wall_skew, t); return 0;}
  if (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME) {to_ts(mono_base + W->now, t); return 0;}
 }
 return int(syscall(SYS_clock_gettime, c, t));
}
WRAP(time_t, time, time_t *t)
{
 struct timespec s;
 wrap_clock_gettime(CLOCK_REALTIME, &s);
 if (t) *t = s.tv_sec;
 return s.tv_sec;
}
WRAP(int, gettimeofday, struct timeval *t, void *)
{
 struct timespec s;
 wrap_clock_gettime(CLOCK_REALTIME, &s);
 t->tv_sec = s.tv_sec;
 t->tv_usec = s.tv_nsec / 1000;
 return 0;
}
WRAP(int, nanosleep, const struct timespec *t, struct timespec *r)
{
 Kernel kernel_;
 if (in_sim())
 {
  point("nanosleep");
  block(&self->go, W->now + t->tv_sec * SEC + t->tv_nsec);
  return 0;
 }
 return int(syscall(SYS_nanosleep, t, r));
}
WRAP(int, clock_nanosleep, clockid_t c, int fl, const struct timespec *t, struct timespec *r)
{
 Kernel kernel_;
 if (in_sim())
 {
  point("clock_nanosleep");
  int64_t v = t->tv_sec * SEC + t->tv_nsec;
  if (fl & TIMER_ABSTIME) v -= (c == CLOCK_REALTIME ? wall_base + W->wall_skew : mono_base); else v += W->now;
  if (v > W->now) block(&self->go, v);
  return 0;
 }
 return syscall(SYS_clock_nanosleep, c, fl, t, r) ? errno : 0;
}
WRAP(int, usleep, useconds_t u) {struct timespec t = {time_t(u / 1000000), long(u % 1000000) * 1000}; return wrap_nanosleep(&t, nullptr);}
WRAP(unsigned, sleep, unsigned s) {struct timespec t = {time_t(s), 0}; wrap_nanosleep(&t, nullptr); return 0;}
WRAP(int, sched_yield, void)
{
 Kernel kernel_;
 if (in_sim()) {point("yield"); return 0;}
 return int(syscall(SYS_sched_yield));
}
WRAP(pid_t, getpid, void)
{
 Kernel kernel_;
 if (in_sim() && self->node) return self->node->pid;
 return pid_t(syscall(SYS_getpid));
}
WRAP(int, sigaction, int sig, const struct sigaction *n, struct sigaction *o)
{
 Kernel kernel_;
 if (in_sim())
 {
  Node *nd = self->node;
  if (nd)
  {
   if (o) {memset(o, 0, sizeof(*o)); auto i = nd->handlers.find(sig); if (i != nd->handlers.end()) o->sa_handler = i->second;}
   if (n) nd->handlers[sig] = n->sa_handler;
  }
  return 0;
 }
 resolve();
 return real_sigaction(sig, n, o);
}
typedef void (*sighandler)(int);
WRAP(sighandler, signal, int sig, sighandler h)
{
 struct sigaction n = {}, o = {};
 n.sa_handler = h;
 n.sa_flags = SA_RESTART;
 if (wrap_sigaction(sig, &n, &o) < 0) return SIG_ERR;
 return o.sa_handler;
}

// ------------------------------------------------------------------- threads
static void *start_c(void *p) {return trampoline(p);}

WRAP(int, pthread_create, pthread_t *th, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{
 resolve();
 Kernel kernel_;
 if (!in_sim()) return real_create(th, a, f, arg);
 (void)start_c;
 point("thread_create");
 Thread *t = make_thread(self->node, self->name + "/" + std::to_string(self->children++));
 t->cf = f;
 t->carg = arg;
 t->alloc_faults = self->alloc_faults;
 start_thread(t);
 *th = t->real;
 log_op("thread_created", t->key, 0);
 return 0;
}
static Thread *find_thread(pthread_t r)
{
 for (Thread *t: W->threads) if (pthread_equal(t->real, r)) return t;
 return nullptr;
}
WRAP(int, pthread_join, pthread_t th, void **ret)
{
 resolve();
 Kernel kernel_;
 if (!in_sim()) return real_join(th, ret);
 point("thread_join");
 Thread *t = find_thread(th);
 if (!t) return ESRCH;
 while (t->st != Thread::finished) block(t, -1);
 if (ret) *ret = t->ret;
 return 0;
}
WRAP(int, pthread_detach, pthread_t th)
{
 resolve();
 Kernel kernel_;
 if (!in_sim()) return real_detach(th);
 return 0;
}

static int lock_loop(pthread_mutex_t *m)
{
 while (true)
 {
  const int r = real_trylock(m);
  if (r == 0)
  {
   auto &h = W->held[m];
   if (h.first == self) h.second++; else h = {self, 1};
   return 0;
  }
  if (r != EBUSY) return r;
  auto i = W->held.find(m);
  if (i != W->held.end() && i->second.first == self)
   fail("self-deadlock", "thread %s locks again a mutex that it holds, after %s", self->name.c_str(), self->last_op);
  if (W->atomic_depth)
   fail("harness-atomic", "mutex contention inside an atomic section");
  block(m, -1);
 }
}
WRAP(int, pthread_mutex_lock, pthread_mutex_t *m)
{
 Kernel kernel_;
 if (!in_sim()) {resolve(); return real_lock(m);}
 point("mutex_lock");
 return lock_loop(m);
}
WRAP(int, pthread_mutex_trylock, pthread_mutex_t *m)
{
 Kernel kernel_;
 if (!in_sim()) {resolve(); return real_trylock(m);}
 point("mutex_trylock");
 const int r = real_trylock(m);
 if (r == 0) {auto &h = W->held[m]; if (h.first == self) h.second++; else h = {self, 1};}
 return r;
}
static void unlocked(pthread_mutex_t *m)
{
 auto i = W->held.find(m);
 if (i != W->held.end() && i->second.first && --i->second.second == 0) i->second.first = nullptr;
 wake_all(m);
}
WRAP(int, pthread_mutex_unlock, pthread_mutex_t *m)
{
 Kernel kernel_;
 if (!in_sim()) {resolve(); return real_unlock(m);}
 const int r = real_unlock(m);
 unlocked(m);
 point("mutex_unlock");
 return r;
}

static int cond_wait_until(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline, int64_t wall_at = -1)
{
 point("cond_wait");
 if (fault(K_SPURIOUS))
 {
  real_unlock(m);
  unlocked(m);
  block(&self->go, W->now + 1000);
  lock_loop(m);
  return 0;
 }
 real_unlock(m);
 unlocked(m);
 if (wall_at >= 0) deadline = std::max<int64_t>(0, wall_at - wall_base - W->wall_skew);
 self->wall_at = wall_at;
 const bool ok = deadline >= 0 && deadline <= W->now ? false : block(c, deadline);
 self->wall_at = -1;
 lock_loop(m);
 return ok ? 0 : ETIMEDOUT;
}
WRAP(int, pthread_cond_wait, pthread_cond_t *c, pthread_mutex_t *m)
{
 Kernel kernel_;
 if (!in_sim()) {resolve(); return real_cond_wait(c, m);}
 return cond_wait_until(c, m, -1);
}
static int timed_wait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clock, const struct timespec *t)
{
 if (t->tv_sec >= 9000000000ll) return cond_wait_until(c, m, INT64_MAX / 2);
 const int64_t v = t->tv_sec * SEC + t->tv_nsec;
 if (clock == CLOCK_REALTIME) return cond_wait_until(c, m, 0, std::max<int64_t>(0, v));
 return cond_wait_until(c, m, std::max<int64_t>(0, v - mono_base));
}
WRAP(int, pthread_cond_timedwait, pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
 Kernel kernel_;
 if (!in_sim()) abort();
 // asio chooses the monotonic clock with pthread_condattr_setclock
 return timed_wait(c, m, t->tv_sec > 1000000000 ? CLOCK_REALTIME : CLOCK_MONOTONIC, t);
}
WRAP(int, pthread_cond_clockwait, pthread_cond_t *c, pthread_mutex_t *m, clockid_t clock, const struct timespec *t)
{
 Kernel kernel_;
 if (!in_sim()) abort();
 return timed_wait(c, m, clock, t);
}
WRAP(int, pthread_cond_signal, pthread_cond_t *c)
{
 Kernel kernel_;
 if (!in_sim()) {resolve(); return real_cond_signal(c);}
 point("cond_signal");
 std::vector<Thread *> w;
 for (Thread *t: W->threads)
  if (t->st == Thread::blocked && t->wait_obj == c && !t->dead) w.push_back(t);
 if (!w.empty())
 {
  uint64_t v = w.size() == 1 ? 0 : decide(K_WAKE, [&]() -> uint64_t {return W->rng.below(w.size());});
  wake_one_thread(w[v % w.size()]);
 }
 return 0;
}
WRAP(int, pthread_cond_broadcast, pthread_cond_t *c)
{
 Kernel kernel_;
 if (!in_sim()) {resolve(); return real_cond_broadcast(c);}
 point("cond_broadcast");
 wake_all(c);
 return 0;
}
WRAP(int, pthread_cond_destroy, pthread_cond_t *) {return 0;}
