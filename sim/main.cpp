// Deterministic simulator: exploration, replay, minimisation.
#include "kernel.h"

#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>

#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

static double wall()
{
 struct timespec t;
 syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
 return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

static Shared *new_shared()
{
 void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
 if (p == MAP_FAILED) {perror("mmap"); exit(4);}
 return (Shared *)p;
}

static void clear_shared(Shared *s)
{
 const size_t keep = offsetof(Shared, trace);
 memset((void *)s, 0, keep);
}

static volatile pid_t current_child = 0;
static volatile bool timed_out = false;
static void on_alarm(int)
{
 timed_out = true;
 if (current_child > 0) kill(current_child, SIGKILL);
}

// returns status: 1 ok, 2 violation, 3 harness error
static int run_once(const Run_Spec &spec, Shared *s)
{
 clear_shared(s);
 timed_out = false;
 const pid_t pid = fork();
 if (pid == 0)
 {
  signal(SIGALRM, SIG_DFL);
  freopen("/dev/null", "w", stdout);
  if (!getenv("SIM_STDERR")) freopen("/dev/null", "w", stderr);
  child_run(spec, s);
  _exit(9);
 }
 if (pid < 0) {perror("fork"); exit(4);}
 current_child = pid;
 alarm(150);
 int st = 0;
 while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
 alarm(0);
 current_child = 0;
 if (timed_out)
 {
  s->status = 3;
  snprintf(s->cls, sizeof(s->cls), "harness-timeout");
  snprintf(s->msg, sizeof(s->msg), "run stuck in real time");
 }
 else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && s->status == 0)
 {
  s->status = 3; // memory pressure of the sandbox or cpu hard limit
  snprintf(s->cls, sizeof(s->cls), "harness-killed");
  snprintf(s->msg, sizeof(s->msg), "child was killed");
 }
 else if (WIFSIGNALED(st) && s->status == 0)
 {
  s->status = 2;
  snprintf(s->cls, sizeof(s->cls), "signal-%d", WTERMSIG(st));
  snprintf(s->msg, sizeof(s->msg), "process ended by signal %d", WTERMSIG(st));
 }
 else if (s->status == 0)
 {
  s->status = 3;
  snprintf(s->cls, sizeof(s->cls), "harness-exit");
  snprintf(s->msg, sizeof(s->msg), "child exit status %d", st);
 }
 return s->status;
}

// ------------------------------------------------------------ known findings
struct Known {std::string property, cls, scenario, match, text; uint64_t hits = 0;};
static std::vector<Known> known;

static void load_known(const char *path, const std::string &property)
{
 // lines: known: property=P01 scenario=<name> class=<class> match="<substring of the message>" <text>
 std::ifstream f(path);
 std::string line;
 while (std::getline(f, line))
 {
  if (line.compare(0, 6, "known:") != 0) continue;
  Known k;
  auto get = [&line](const std::string &key) -> std::string
  {
   const size_t i = line.find(" " + key + "=");
   if (i == std::string::npos) return "";
   const size_t b = i + key.size() + 2;
   if (line[b] == '"') return line.substr(b + 1, line.find('"', b + 1) - b - 1);
   return line.substr(b, line.find(' ', b) - b);
  };
  k.property = get("property");
  k.scenario = get("scenario");
  k.cls = get("class");
  k.match = get("match");
  const size_t t = line.find(" -- ");
  k.text = t == std::string::npos ? line : line.substr(t + 4);
  if (k.property == property) known.push_back(k);
 }
}

static Known *match_known(const std::string &scenario, const Shared *s)
{
 for (auto &k: known)
  if ((k.scenario.empty() || k.scenario == scenario) && (k.cls.empty() || k.cls == s->cls) && (k.match.empty() || strstr(s->msg, k.match.c_str())))
   return &k;
 return nullptr;
}

// -------------------------------------------------------------------- replay
static void write_replay(const char *path, const Run_Spec &spec, const Shared *s)
{
 std::ofstream f(path);
 f << "joedb-sim-replay 1\n";
 f << "property " << spec.property << "\n";
 f << "scenario " << spec.scenario << "\n";
 f << "seed " << spec.seed << "\n";
 f << "thorough " << spec.thorough << "\n";
 f << "class " << s->cls << "\n";
 std::string msg = s->msg;
 for (auto &c: msg) if (c == '\n') c = ' ';
 f << "message " << msg << "\n";
 f << "hash " << s->hash << "\n";
 for (int o: spec.dropped_ops) f << "drop " << o << "\n";
 for (auto &e: spec.overrides)
  f << "decision " << e.thread << ' ' << e.point << ' ' << e.kind << ' ' << e.sub << ' ' << e.value << " # " << kind_name[e.kind] << "\n";
 f << "# operations of this run\n";
 for (int i = 0; i < s->n_ops; i++)
  if (s->ops[i][0] && !spec.dropped_ops.count(i)) f << "# op " << i << ": " << s->ops[i] << "\n";
 f << "# notes\n";
 std::istringstream n(std::string(s->notes, s->n_notes));
 std::string l;
 while (std::getline(n, l)) f << "# " << l << "\n";
}

static bool read_replay(const char *path, Run_Spec &spec, std::string &cls, uint64_t &hash)
{
 std::ifstream f(path);
 std::string line;
 if (!std::getline(f, line) || line != "joedb-sim-replay 1") return false;
 spec.replay = true;
 while (std::getline(f, line))
 {
  std::istringstream l(line);
  std::string w;
  l >> w;
  if (w == "property") l >> spec.property;
  else if (w == "scenario") l >> spec.scenario;
  else if (w == "seed") l >> spec.seed;
  else if (w == "thorough") l >> spec.thorough;
  else if (w == "class") l >> cls;
  else if (w == "hash") l >> hash;
  else if (w == "drop") {int o; l >> o; spec.dropped_ops.insert(o);}
  else if (w == "decision")
  {
   Trace_Entry e;
   l >> e.thread >> e.point >> e.kind >> e.sub >> e.value;
   spec.overrides.push_back(e);
  }
 }
 return true;
}

static bool fails_like(const Run_Spec &spec, Shared *s, const std::string &cls)
{
 return run_once(spec, s) == 2 && cls == s->cls;
}

static void minimise(Run_Spec &spec, const std::string &cls, double budget)
{
 const double end = wall() + budget;
 Shared *s = new_shared();
 int n_ops = 0;
 if (!fails_like(spec, s, cls)) return;
 n_ops = s->n_ops;
 // operations
 for (int chunk = std::max(1, n_ops / 2); chunk >= 1 && wall() < end; chunk /= 2)
 {
  for (int a = 0; a < n_ops && wall() < end; a += chunk)
  {
   Run_Spec t = spec;
   for (int i = a; i < std::min(n_ops, a + chunk); i++) t.dropped_ops.insert(i);
   if (t.dropped_ops.size() == spec.dropped_ops.size()) continue;
   if (fails_like(t, s, cls)) spec = t;
  }
 }
 // decisions: latencies and switches go first, then everything
 for (int pass = 0; pass < 2; pass++)
 {
  size_t chunk = std::max<size_t>(1, spec.overrides.size() / 2);
  while (wall() < end)
  {
   bool progress = false;
   for (size_t a = 0; a < spec.overrides.size() && wall() < end;)
   {
    Run_Spec t = spec;
    const size_t b = std::min(spec.overrides.size(), a + chunk);
    t.overrides.erase(t.overrides.begin() + a, t.overrides.begin() + b);
    if (fails_like(t, s, cls)) {spec = t; progress = true;}
    else a = b;
   }
   if (chunk == 1 && !progress) break;
   if (chunk > 1) chunk = std::max<size_t>(1, chunk / 2);
  }
  if (pass == 0)
   for (int o = 0; o < n_ops && wall() < end; o++)
   {
    if (spec.dropped_ops.count(o)) continue;
    Run_Spec t = spec;
    t.dropped_ops.insert(o);
    if (fails_like(t, s, cls)) spec = t;
   }
 }
 munmap(s, sizeof(Shared));
}

// ---------------------------------------------------------------- exploration
struct Totals
{
 uint64_t runs = 0, steps = 0, switches = 0, nontrivial = 0, errors = 0, known_hits = 0;
 double sim_time = 0;
 uint64_t fired[K_COUNT] = {};
 std::unordered_set<uint64_t> histories, nontrivial_histories, pairs;
 std::map<std::string, uint64_t> probes, scenarios;
 std::vector<std::string> samples;
};

static std::string json_str(const std::string &s)
{
 std::string r = "\"";
 for (unsigned char c: s)
 {
  if (c == '"' || c == '\\') {r += '\\'; r += char(c);}
  else if (c == '\n') r += "\\n";
  else if (c < 32 || c > 126) {char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); r += b;}
  else r += char(c);
 }
 return r + "\"";
}

struct Worker_Head {volatile int stop; volatile int64_t next; volatile uint64_t limit;};

static void pick_run(const std::string &property, uint64_t base, int64_t index, bool thorough, const std::string &only, Run_Spec &spec)
{
 std::vector<Scenario_Info> v;
 int total = 0;
 for (auto &s: registry())
  if (property == s.property && (only.empty() || only == s.name)) {v.push_back(s); total += s.weight;}
 std::sort(v.begin(), v.end(), [](const Scenario_Info &a, const Scenario_Info &b) {return strcmp(a.name, b.name) < 0;});
 Rng r(base * 1000003ull + uint64_t(index) * 7919ull + 17);
 int x = int(r.below(uint64_t(total)));
 spec = Run_Spec();
 spec.property = property;
 for (auto &s: v)
 {
  x -= s.weight;
  if (x < 0) {spec.scenario = s.name; break;}
 }
 spec.seed = r.next() >> 16;
 spec.thorough = thorough;
}

static void save_totals(const std::string &path, const Totals &t)
{
 std::ofstream f(path);
 f << "runs " << t.runs << "\nsteps " << t.steps << "\nswitches " << t.switches << "\nnontrivial " << t.nontrivial << "\nerrors " << t.errors << "\nknown " << t.known_hits << "\nsim_time " << t.sim_time << "\n";
 for (int i = 0; i < K_COUNT; i++) f << "fired " << i << ' ' << t.fired[i] << "\n";
 for (auto h: t.histories) f << "h " << h << "\n";
 for (auto h: t.nontrivial_histories) f << "n " << h << "\n";
 for (auto h: t.pairs) f << "p " << h << "\n";
 for (auto &p: t.probes) f << "probe " << p.second << ' ' << p.first << "\n";
 for (auto &p: t.scenarios) f << "scenario " << p.second << ' ' << p.first << "\n";
 for (auto &k: known) f << "knownhit " << k.hits << ' ' << (&k - &known[0]) << "\n";
 for (auto &s: t.samples) f << "sample " << s << "\n";
}

static void load_totals(const std::string &path, Totals &t)
{
 std::ifstream f(path);
 std::string line;
 while (std::getline(f, line))
 {
  std::istringstream l(line);
  std::string w;
  l >> w;
  uint64_t v = 0;
  if (w == "runs") {l >> v; t.runs += v;}
  else if (w == "steps") {l >> v; t.steps += v;}
  else if (w == "switches") {l >> v; t.switches += v;}
  else if (w == "nontrivial") {l >> v; t.nontrivial += v;}
  else if (w == "errors") {l >> v; t.errors += v;}
  else if (w == "known") {l >> v; t.known_hits += v;}
  else if (w == "sim_time") {double d; l >> d; t.sim_time += d;}
  else if (w == "fired") {int i; l >> i >> v; t.fired[i] += v;}
  else if (w == "h") {l >> v; t.histories.insert(v);}
  else if (w == "n") {l >> v; t.nontrivial_histories.insert(v);}
  else if (w == "p") {l >> v; t.pairs.insert(v);}
  else if (w == "probe") {std::string n; l >> v >> n; t.probes[n] += v;}
  else if (w == "scenario") {std::string n; l >> v >> n; t.scenarios[n] += v;}
  else if (w == "knownhit") {size_t i; l >> v >> i; if (i < known.size()) known[i].hits += v;}
  else if (w == "sample") {if (t.samples.size() < 6) t.samples.push_back(line.substr(7));}
 }
}

int main(int argc, char **argv)
{
 if (argc < 2) return 4;
 std::map<std::string, std::string> o;
 for (int i = 2; i < argc; i++)
  if (strncmp(argv[i], "--", 2) == 0)
  {
   std::string k = argv[i] + 2;
   if (i + 1 < argc && strncmp(argv[i + 1], "--", 2) != 0) o[k] = argv[++i]; else o[k] = "1";
  }
 const std::string mode = argv[1];
 signal(SIGALRM, on_alarm);

 if (mode == "list")
 {
  for (auto &s: registry()) printf("%s %s %d\n", s.property, s.name, s.weight);
  return 0;
 }

 const std::string property = o["prop"];
 const bool th = o["tier"] == "thorough";
 if (o.count("known")) load_known(o["known"].c_str(), property);

 if (mode == "replay")
 {
  Run_Spec spec;
  std::string cls;
  uint64_t hash = 0;
  if (!read_replay(o["file"].c_str(), spec, cls, hash)) {fprintf(stderr, "bad replay file\n"); return 4;}
  if (o.count("log")) spec.log_file = o["log"].c_str();
  Shared *s = new_shared();
  const int r = run_once(spec, s);
  printf("status=%d class=%s hash=%lu expected_hash=%lu steps=%lu\n%s\n", r, s->cls, s->hash, hash, s->steps, s->msg);
  if (o.count("notes")) fwrite(s->notes, 1, s->n_notes, stdout);
  if (r == 2 && cls == s->cls && hash == s->hash) {printf("REPRODUCED\n"); return 1;}
  return r == 1 ? 0 : r == 2 ? 1 : 3;
 }

 if (mode == "one")
 {
  Run_Spec spec;
  pick_run(property, std::strtoull(o["seed"].c_str(), nullptr, 10), std::strtoll(o["index"].c_str(), nullptr, 10), th, o["scenario"], spec);
  if (o.count("runseed")) spec.seed = std::strtoull(o["runseed"].c_str(), nullptr, 10);
  if (o.count("log")) spec.log_file = o["log"].c_str();
  Shared *s = new_shared();
  const int r = run_once(spec, s);
  printf("scenario=%s seed=%lu status=%d class=%s hash=%016lx steps=%lu switches=%lu simtime=%.3f trace=%u nontrivial=%d\n%s\n", spec.scenario.c_str(), spec.seed, r, s->cls, s->hash, s->steps, s->switches, double(s->sim_time) / 1e9, s->n_trace, s->is_nontrivial, s->msg);
  if (o.count("notes")) fwrite(s->notes, 1, s->n_notes, stdout);
  for (int i = 0; i < s->n_probes; i++) printf("probe %s %lu\n", s->probes[i].name, s->probes[i].n);
  return r == 1 ? 0 : 1;
 }

 const uint64_t base = std::strtoull(o["seed"].c_str(), nullptr, 10);
 const int workers = o.count("workers") ? atoi(o["workers"].c_str()) : 8;

 if (mode == "determinism")
 {
  // every run twice, in worker processes of different number; event logs must agree
  const int64_t runs = atoll(o["runs"].c_str());
  std::vector<pid_t> p;
  for (int w = 0; w < workers; w++)
  {
   pid_t pid = fork();
   if (pid == 0)
   {
    int bad = 0;
    Shared *s = new_shared();
    for (int64_t i = w; i < runs; i += workers)
    {
     Run_Spec spec;
     pick_run(property, base, i, th, o["scenario"], spec);
     run_once(spec, s);
     const uint64_t h = s->hash; const int st = s->status; const uint64_t steps = s->steps;
     const uint32_t nt = s->n_trace;
     run_once(spec, s);
     if (h != s->hash || st != s->status) {bad++; fprintf(stderr, "NONDETERMINISM index=%ld scenario=%s seed=%lu status %d/%d steps %lu/%lu %s %s\n", i, spec.scenario.c_str(), spec.seed, st, s->status, steps, s->steps, s->cls, s->msg); continue;}
     // replay of the recorded decisions must give the same event log
     if (i % 4 == 0 && !s->trace_overflow)
     {
      Run_Spec r = spec;
      r.replay = true;
      for (uint32_t k = 0; k < nt; k++) r.overrides.push_back(s->trace[k]);
      run_once(r, s);
      if (h != s->hash || st != s->status) {bad++; fprintf(stderr, "REPLAY DIFFERS index=%ld scenario=%s seed=%lu status %d/%d steps %lu/%lu %s\n", i, spec.scenario.c_str(), spec.seed, st, s->status, steps, s->steps, s->cls);}
     }
    }
    _exit(bad ? 1 : 0);
   }
   p.push_back(pid);
  }
  int bad = 0;
  for (pid_t x: p) {int st; waitpid(x, &st, 0); if (st) bad++;}
  printf("determinism %s: %ld runs %s\n", property.c_str(), runs, bad ? "FAILED" : "ok");
  return bad ? 2 : 0;
 }

 if (mode != "explore") return 4;

 const double seconds = atof(o["seconds"].c_str());
 const int64_t max_runs = o.count("runs") ? atoll(o["runs"].c_str()) : INT64_MAX;
 const std::string dir = o["dir"];
 const double t0 = wall();

 Worker_Head *head = (Worker_Head *)mmap(nullptr, sizeof(Worker_Head), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
 std::vector<pid_t> pids;
 for (int w = 0; w < workers; w++)
 {
  const pid_t pid = fork();
  if (pid == 0)
  {
   cpu_set_t all;
   CPU_ZERO(&all);
   sched_getaffinity(0, sizeof(all), &all);
   const int nc = CPU_COUNT(&all);
   if (nc > 1)
   {
    int k = w % nc, c = 0;
    for (c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all) && k-- == 0) break;
    cpu_set_t one;
    CPU_ZERO(&one);
    CPU_SET(c, &one);
    sched_setaffinity(0, sizeof(one), &one);
   }
   Totals t;
   Shared *s = new_shared();
   const bool all_violations = o.count("all");
   for (int64_t i = w; i < max_runs && !head->stop && wall() - t0 < seconds; i += workers)
   {
    Run_Spec spec;
    pick_run(property, base, i, th, o["scenario"], spec);
    const int r = run_once(spec, s);
    t.runs++;
    t.steps += s->steps;
    t.switches += s->switches;
    t.sim_time += double(s->sim_time) / 1e9;
    for (int k = 0; k < K_COUNT; k++) t.fired[k] += s->fired[k];
    t.histories.insert(s->schedule_hash);
    for (uint32_t k = 0; k < s->n_pairs; k++) if (t.pairs.size() < 2000000) t.pairs.insert(s->pairs[k]);
    if (s->is_nontrivial) {t.nontrivial++; t.nontrivial_histories.insert(s->schedule_hash ^ s->hash);}
    for (int k = 0; k < s->n_probes; k++) t.probes[s->probes[k].name] += s->probes[k].n;
    t.scenarios[spec.scenario]++;
    if (t.samples.size() < 2 && s->is_nontrivial && s->n_ops > 0)
    {
     std::string x = "scenario=" + spec.scenario + " seed=" + std::to_string(spec.seed) + " steps=" + std::to_string(s->steps) + " switches=" + std::to_string(s->switches) + " simulated_ms=" + std::to_string(s->sim_time / 1000000) + " faults={";
     for (int k = 0; k < K_COUNT; k++) if (s->fired[k] && k != K_SCHED && k != K_LATENCY) x += std::string(kind_name[k]) + ":" + std::to_string(s->fired[k]) + " ";
     x += "} ops=[";
     for (int k = 0; k < s->n_ops && k < 12; k++) if (s->ops[k][0]) x += std::string(s->ops[k]) + "; ";
     x += "]";
     for (auto &c: x) if (c == '\n') c = ' ';
     t.samples.push_back(x);
    }
    if (r == 2)
    {
     if (Known *k = match_known(spec.scenario, s)) {k->hits++; t.known_hits++; continue;}
     if (all_violations) {printf("violation index=%ld scenario=%s seed=%lu class=%s %.300s\n", i, spec.scenario.c_str(), spec.seed, s->cls, s->msg); fflush(stdout); continue;}
     head->stop = 1;
     Run_Spec rec = spec;
     if (!s->trace_overflow)
     {
      rec.replay = true;
      for (uint32_t k = 0; k < s->n_trace; k++) rec.overrides.push_back(s->trace[k]);
     }
     write_replay((dir + "/found." + std::to_string(w)).c_str(), rec, s);
     std::ofstream(dir + "/found." + std::to_string(w) + ".live") << spec.scenario << ' ' << spec.seed << ' ' << s->hash << ' ' << s->trace_overflow << "\n";
     break;
    }
    if (r == 3)
    {
     t.errors++;
     fprintf(stderr, "harness error index=%ld scenario=%s seed=%lu class=%s %s\n", i, spec.scenario.c_str(), spec.seed, s->cls, s->msg);
    }
   }
   save_totals(dir + "/totals." + std::to_string(w), t);
   _exit(0);
  }
  pids.push_back(pid);
 }
 for (pid_t p: pids) {int st; waitpid(p, &st, 0);}
 const double explored = wall() - t0;

 Totals t;
 for (int w = 0; w < workers; w++) load_totals(dir + "/totals." + std::to_string(w), t);

 int violations = 0, error = 0;
 std::string replay_path, vmsg, vcls;
 for (int w = 0; w < workers && !violations; w++)
 {
  const std::string f = dir + "/found." + std::to_string(w);
  Run_Spec rec;
  std::string cls;
  uint64_t hash = 0;
  if (!read_replay(f.c_str(), rec, cls, hash)) continue;
  std::ifstream lv(f + ".live");
  std::string sc; uint64_t sd = 0, lh = 0; int ovf = 0;
  lv >> sc >> sd >> lh >> ovf;
  // gate: the same seed twice, live, must give the same event log and class
  Shared *s = new_shared();
  Run_Spec live;
  live.property = property; live.scenario = sc; live.seed = sd; live.thorough = th;
  bool ok = true;
  for (int k = 0; k < 2; k++)
   if (run_once(live, s) != 2 || cls != s->cls || s->hash != lh) ok = false;
  if (!ok)
  {
   fprintf(stderr, "violation did not reproduce from its seed: scenario=%s seed=%lu class=%s now=%s\n", sc.c_str(), sd, cls.c_str(), s->cls);
   error = 1;
   continue;
  }
  Run_Spec min = ovf ? live : rec;
  if (!ovf)
  {
   if (!fails_like(min, s, cls)) {fprintf(stderr, "recorded decisions do not reproduce the violation\n"); error = 1; continue;}
   minimise(min, cls, o.count("minimise") ? atof(o["minimise"].c_str()) : 40);
  }
  if (!fails_like(min, s, cls)) {error = 1; continue;}
  replay_path = o["replay"];
  write_replay(replay_path.c_str(), min, s);
  violations = 1;
  vmsg = s->msg;
  vcls = cls;
 }

 std::ofstream j(o["out"]);
 j << "{\n";
 j << " \"runs\": " << t.runs << ",\n \"nontrivial_runs\": " << t.nontrivial << ",\n";
 j << " \"distinct_schedules\": " << t.histories.size() << ",\n \"distinct_nontrivial\": " << t.nontrivial_histories.size() << ",\n";
 j << " \"distinct_preemption_pairs\": " << t.pairs.size() << ",\n";
 j << " \"steps\": " << t.steps << ",\n \"context_switches\": " << t.switches << ",\n \"simulated_seconds\": " << t.sim_time << ",\n";
 j << " \"explore_wall_s\": " << explored << ",\n \"workers\": " << workers << ",\n \"harness_errors\": " << t.errors << ",\n \"known_hits\": " << t.known_hits << ",\n";
 j << " \"violations\": " << violations << ",\n \"error\": " << error << ",\n";
 j << " \"violation_class\": " << json_str(vcls) << ",\n \"violation_message\": " << json_str(vmsg) << ",\n";
 j << " \"known\": [";
 for (size_t i = 0; i < known.size(); i++) j << (i ? ", " : "") << "{\"text\": " << json_str(known[i].text) << ", \"hits\": " << known[i].hits << "}";
 j << "],\n \"faults_fired\": {";
 bool first = true;
 for (int k = 0; k < K_COUNT; k++)
  if (k != K_SCHED) {j << (first ? "" : ", ") << json_str(kind_name[k]) << ": " << t.fired[k]; first = false;}
 j << "},\n \"probes\": {";
 first = true;
 for (auto &p: t.probes) {j << (first ? "" : ", ") << json_str(p.first) << ": " << p.second; first = false;}
 j << "},\n \"scenarios\": {";
 first = true;
 for (auto &p: t.scenarios) {j << (first ? "" : ", ") << json_str(p.first) << ": " << p.second; first = false;}
 j << "},\n \"samples\": [";
 for (size_t i = 0; i < t.samples.size(); i++) j << (i ? ", " : "") << json_str(t.samples[i]);
 j << "]\n}\n";
 j.close();
 if (violations) return 1;
 if (error || t.errors) return 2;
 return 0;
}
