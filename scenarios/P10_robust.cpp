// P10: a robust connection hides connection losses and server restarts.
#include "scenarios/net.h"
using namespace h;

namespace
{
 struct Robust: Net
 {
  bool alone = false;
  void configure(sim::Rng &) override {sim::nontrivial();}
  // the only errors are the ones that reconnecting cannot repair
  bool allowed_error(const Style &y, const std::string &m, bool mismatch) override
  {
   if (!y.robust && !y.server_file) return true;
   if (mismatch) return !alone;
   return has(m, "conflict");
  }
  bool allowed_connect_error(const Style &y, const std::string &) override {return !y.robust && !y.server_file;}
  void failed(const std::string &who, const Style &, const std::string &m, size_t i) override
  {
   if (!alone || !has(m, "conflict") || i == SIZE_MAX) return;
   // nobody else writes: the conflict is with our own push, whose reply was lost
   sim::Atomic a;
   const Read_Result r = read_file(path);
   std::vector<size_t> present;
   SIM_CHECK(r.ok, "unreadable", "the server file cannot be read: %s", r.error.c_str());
   log.explain(r.e, UINT64_MAX, &present);
   SIM_CHECK(std::count(present.begin(), present.end(), i), "false-conflict", "%s: a push failed because of a conflict, but nobody has pushed anything", who.c_str());
   sim::probe("pushed_twice");
  }
  void clients_done() override
  {
   // each client has at most max_ops operations, each of them may have to wait
   // for a reconnection (5 s), for the others, and for the lock
   const int64_t bound = calm_at + client_count * (k.max_ops + 1) * 30 * SEC + 60 * SEC;
   SIM_CHECK(sim::now() < bound, "slow-recovery", "clients needed %ld s after the last fault", (sim::now() - calm_at) / SEC);
  }
 };
}

SCENARIO(P10, robust_alone, 8)
{
 Robust n;
 n.alone = true;
 n.k.max_clients = 1;
 n.k.robust = 1;
 n.k.reset = 0.02;
 n.k.stall = 0.01;
 n.k.faults_for = 100 * SEC;
 n.k.stop_server = 0.4;
 n.k.kill_server = 0.4;
 n.k.server_lives = 3;
 n.k.preads = 0.15;
 n.k.pull_push = 0.1;
 n.k.max_ops = 10;
 n.run();
}

SCENARIO(P10, robust_together, 8)
{
 Robust n;
 n.k.min_clients = 2;
 n.k.max_clients = 3;
 n.k.robust = 1;
 n.k.reset = 0.01;
 n.k.stall = 0.005;
 n.k.faults_for = 100 * SEC;
 n.k.local_writer = 0.2;
 n.k.stop_server = 0.3;
 n.k.kill_server = 0.3;
 n.k.server_lives = 2;
 n.k.wait_pull = 0.2;
 n.k.preads = 0.1;
 n.k.pull_push = 0.1;
 n.run();
}

SCENARIO(P10, robust_restarts, 6)
{
 // no connection fault, only server restarts
 Robust n;
 n.k.min_clients = 1;
 n.k.max_clients = 3;
 n.k.robust = 1;
 n.k.server_file = 0.3;
 n.k.stop_server = 0.7;
 n.k.kill_server = 0.5;
 n.k.server_lives = 4;
 n.k.long_sleep = 0.2;
 n.k.pull_push = 0.1;
 n.run();
}
