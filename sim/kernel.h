// Deterministic simulator: internal structures shared by kernel and runner.
#pragma once
#include "sim.h"
#include <atomic>
#include <deque>
#include <unordered_map>
#include <pthread.h>

namespace sim
{
 constexpr uint32_t max_trace = 400000;
 constexpr uint32_t max_pairs = 8192;
 constexpr int max_ops = 512;
 constexpr int max_probes = 96;

 struct Trace_Entry
 {
  uint64_t thread;
  uint32_t point;
  uint16_t kind;
  uint16_t sub;
  uint64_t value;
 };

 struct Shared // result of one run, in memory shared by child and parent
 {
  volatile int status; // 0 running, 1 passed, 2 violation, 3 harness error
  char cls[128];
  char msg[3000];
  uint64_t hash, schedule_hash, steps, switches;
  int64_t sim_time;
  uint64_t fired[K_COUNT];
  bool is_nontrivial;
  uint32_t n_trace;
  bool trace_overflow;
  int n_probes;
  struct {char name[56]; uint64_t n;} probes[max_probes];
  int n_ops;
  char ops[max_ops][120];
  uint32_t n_notes;
  char notes[16000];
  uint32_t n_pairs;
  uint64_t pairs[max_pairs];
  Trace_Entry trace[max_trace];
 };

 struct Run_Spec
 {
  std::string property;
  std::string scenario;
  uint64_t seed = 1;
  bool thorough = false;
  bool replay = false;
  std::set<int> dropped_ops;
  std::vector<Trace_Entry> overrides;
  const char *log_file = nullptr;
 };

 struct Scenario_Info
 {
  const char *property, *name;
  Scenario f;
  int weight;
 };
 std::vector<Scenario_Info> &registry();

 void child_run(const Run_Spec &spec, Shared *shared); // never returns
}
