// P11: a file read through the server is the file of the server.
#include "scenarios/net.h"
using namespace h;

namespace
{
 struct Remote: Net
 {
  void configure(sim::Rng &) override {sim::nontrivial();}
  // it reconnects: the only errors are the ones that reconnecting cannot repair
  bool strict = false;
  bool allowed_error(const Style &y, const std::string &m, bool mismatch) override
  {
   return !strict || !y.server_file || mismatch || has(m, "conflict");
  }
  bool allowed_connect_error(const Style &y, const std::string &) override {return !strict || !y.server_file;}
 };
}

SCENARIO(P11, server_file, 10)
{
 Remote n;
 n.k.server_file = 0.8;
 n.k.preads = 0.3;
 n.k.pull_push = 0.1;
 n.k.read_own = 0.5;
 n.k.local_writer = 0.3;
 n.k.big = 0.3;
 n.k.keep_alive = 0.2;
 n.run();
}

SCENARIO(P11, server_file_faults, 8)
{
 Remote n;
 n.strict = true;
 n.k.server_file = 0.8;
 n.k.preads = 0.3;
 n.k.pull_push = 0.1;
 n.k.read_own = 0.4;
 n.k.local_writer = 0.2;
 n.k.big = 0.2;
 n.k.reset = 0.01;
 n.k.stall = 0.005;
 n.k.stop_server = 0.2;
 n.k.kill_server = 0.2;
 n.run();
}

SCENARIO(P11, server_file_locks, 6)
{
 Remote n;
 n.k.min_clients = 2;
 n.k.max_clients = 4;
 n.k.server_file = 0.7;
 n.k.preads = 0.2;
 n.k.read_own = 0.4;
 n.k.hold = 0.4;
 n.k.lock_timeout = 0.7;
 n.run();
}
