// P13: a pull that waits for data returns when data comes, or when the wait is over.
#include "scenarios/net.h"
using namespace h;

namespace
{
 struct Waiting: Net
 {
  bool local_writers = false;
  void configure(sim::Rng &) override {sim::nontrivial();}
  void pull_waited(const std::string &who, int64_t start, int64_t wait, int64_t old, int64_t n) override
  {
   sim::Atomic a;
   const int64_t t = sim::now(), slack = 3 * SEC;
   sim::probe("waiting_pulls");
   SIM_CHECK(t - start <= wait * MS + slack, "late", "%s: a pull that may wait %ld ms took %ld ms", who.c_str(), wait, (t - start) / MS);
   bool quiet = true;
   for (auto &x: activity) if (x.who != who && x.end >= start - slack && x.begin <= t) quiet = false;
   if (n == 0 && quiet && !has_local)
   {
    SIM_CHECK(t - start >= wait * MS, "early", "%s: a pull that may wait %ld ms returned nothing after %ld ms, and nobody did anything", who.c_str(), wait, (t - start) / MS);
    sim::probe("waits_without_data");
   }
   for (auto &c: commits)
   {
    if (c.who == who || c.checkpoint <= old) continue;
    if (c.before < start || c.after >= start + wait * MS) continue;
    // pushed while we were waiting
    if (c.after > t) continue;
    SIM_CHECK(t - c.after <= slack, "not-woken", "%s: data was pushed %ld ms before the end of a waiting pull", who.c_str(), (t - c.after) / MS);
    sim::probe("waits_with_data");
   }
  }
  bool has_local = false;
 };
}

SCENARIO(P13, pull_wait, 10)
{
 Waiting n;
 n.k.min_clients = 2;
 n.k.max_clients = 4;
 n.k.wait_pull = 0.9;
 n.k.pull = 0.6;
 n.k.long_sleep = 0.3;
 n.k.server_file = 0.2;
 n.k.keep_alive = 0;
 n.run();
}

SCENARIO(P13, pull_wait_hold, 6)
{
 Waiting n;
 n.k.min_clients = 2;
 n.k.max_clients = 4;
 n.k.wait_pull = 0.9;
 n.k.pull = 0.5;
 n.k.long_sleep = 0.2;
 n.k.hold = 0.3;
 n.k.local_writer = 0.3;
 n.has_local = true;
 n.run();
}

SCENARIO(P13, pull_wait_lost, 6)
{
 // no time check here: no waiter may be left behind, whatever happens to the others
 Net n;
 n.k.min_clients = 2;
 n.k.max_clients = 4;
 n.k.wait_pull = 0.9;
 n.k.pull = 0.5;
 n.k.reset = 0.01;
 n.k.stall = 0.005;
 n.k.kill_client = 0.3;
 n.k.stop_server = 0.3;
 n.k.lock_timeout = 0.3;
 n.run();
}
