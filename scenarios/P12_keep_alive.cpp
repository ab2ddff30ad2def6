// P12: keep-alive pings never disturb an operation, and really keep the connection alive.
#include "scenarios/net.h"
#include "joedb/rpc/Server.h"
#include "joedb/rpc/Client.h"
using namespace h;

namespace
{
 // Longest silence of each process while it is idle
 struct Silence
 {
  struct One {bool idle = false; int64_t last = 0, longest = 0;};
  std::map<std::string, One> m;
  void sent(sim::Node *n)
  {
   auto it = m.find(n->name);
   if (it == m.end() || !it->second.idle) return;
   One &o = it->second;
   o.longest = std::max(o.longest, sim::now() - o.last);
   o.last = sim::now();
  }
  void begin(const std::string &who) {sim::Atomic a; m[who] = One{true, sim::now(), 0};}
  void end(const std::string &who, int interval_ms)
  {
   sim::Atomic a;
   One &o = m[who];
   o.longest = std::max(o.longest, sim::now() - o.last);
   o.idle = false;
   if (interval_ms == 0) return;
   SIM_CHECK(o.longest <= interval_ms * MS + 2 * SEC, "no-ping", "%s was silent for %ld ms, keep-alive interval is %d ms", who.c_str(), o.longest / MS, interval_ms);
   sim::probe("idle_periods");
  }
 };

 struct Keep: Net
 {
  Silence silence;
  void configure(sim::Rng &) override
  {
   sim::net_on_send([this](sim::Node *n, const char *, size_t) {silence.sent(n);});
   sim::nontrivial();
  }
  void idle(const std::string &who, const Style &y, bool begin) override
  {
   if (begin) silence.begin(who); else silence.end(who, y.keep_alive_ms);
  }
  void session_closed(const std::string &who, const Style &, int64_t t) override
  {
   SIM_CHECK(t < 10 * SEC, "slow-close", "%s: closing an idle connection took %ld ms", who.c_str(), t / MS);
  }
 };

 struct Echo: joedb::rpc::Procedure
 {
  void execute(joedb::Abstract_File &file) const override
  {
   const int64_t size = file.get_size();
   std::string s(size_t(size), 0);
   file.pread(s.data(), s.size(), 0);
   if (s.size() % 7 == 3) throw joedb::Exception("error " + std::to_string(s.size()));
   file.pwrite(s.data() + 41, s.size() - 41, size);
  }
 };

 void rpc_keep_alive()
 {
  quiet_destructors();
  auto &w = sim::wl();
  const std::string sock = "/sim/0/rpc.sock";
  const std::vector<joedb::rpc::Signature> signatures{{"a", std::string(41, 'a')}};
  Echo echo;
  const std::vector<joedb::rpc::Procedure *> procedures{&echo};
  const int thread_count = int(w.range(1, 3));
  sim::set_default_latency(int64_t(1 + w.below(50)) * US, int64_t(1 + w.below(5)) * MS);
  Silence silence;
  sim::net_on_send([&silence](sim::Node *n, const char *, size_t) {silence.sent(n);});
  bool up = false;
  auto *server_node = sim::new_node("server", 0);
  const double shorts = w.chance(0.5) ? 0.1 : 0;
  benign(server_node, 0.003);
  server_node->rates[sim::K_SHORT_SEND] = server_node->rates[sim::K_SHORT_RECV] = shorts;
  auto *server = sim::spawn(server_node, "server", [&]()
  {
   Logger_ logger("server");
   joedb::rpc::Server s(logger, 0, thread_count, sock, signatures, procedures);
   up = true;
   s.join();
  });
  std::vector<sim::Thread *> threads;
  int op = 0;
  for (int i = int(w.range(1, 2)); i > 0; i--)
  {
   const std::string who = "client" + std::to_string(i);
   auto *node = sim::new_node(who, 1);
   benign(node, 0.003);
   node->rates[sim::K_SHORT_SEND] = node->rates[sim::K_SHORT_RECV] = shorts;
   const int interval = int(1 + w.below(w.chance(0.5) ? 20 : 400));
   struct Step {int op; size_t size; int64_t sleep;};
   std::vector<Step> plan;
   for (int k = 1 + int(w.below(8)); k > 0; k--)
   {
    plan.push_back({op, size_t(w.below(w.chance(0.2) ? 30000 : 100)), w.chance(0.3) ? int64_t(w.below(8000)) * MS : w.chance(0.5) ? int64_t(w.below(20000)) * US : 0});
    sim::declare_op(op++, who + " call of " + std::to_string(plan.back().size) + " bytes");
   }
   threads.push_back(sim::spawn(node, who, [=, &up, &signatures, &silence]()
   {
    sim::wait_until([&]() {return up;}, 60 * SEC);
    joedb::Local_Connector connector(sock);
    auto channel = connector.new_channel();
    auto client = std::make_unique<joedb::rpc::Client>(*channel, signatures, std::chrono::milliseconds(interval));
    for (auto &q: plan)
    {
     if (!sim::op_enabled(q.op)) continue;
     if (q.sleep) {silence.begin(who); sim::sleep_for(q.sleep); silence.end(who, interval);}
     joedb::Memory_File f;
     const std::string s(q.size, char('a' + q.size % 26));
     f.get_data() = signatures[0].prolog + s;
     const bool error = f.get_data().size() % 7 == 3;
     try
     {
      client->call(0, f);
      SIM_CHECK(!error && f.get_data().substr(41) == s + s, "reply-wrong", "%s got a wrong reply", who.c_str());
     }
     catch (const std::exception &e)
     {
      SIM_CHECK(error && e.what() == "error " + std::to_string(41 + q.size), "call-failed", "%s: call failed: %s", who.c_str(), e.what());
     }
     sim::probe("calls");
    }
    const int64_t t = sim::now();
    client.reset();
    SIM_CHECK(sim::now() - t < 10 * SEC, "slow-close", "%s: closing an idle connection took %ld ms", who.c_str(), (sim::now() - t) / MS);
   }));
  }
  sim::nontrivial();
  if (!sim::join(threads, 3600 * SEC)) sim::fail("liveness", "rpc clients did not finish:");
  sim::send_signal(server_node, SIGTERM);
  if (!sim::join({server}, 60 * SEC)) sim::fail("liveness", "the rpc server does not stop");
 }
}

SCENARIO(P12, pings_and_operations, 10)
{
 Keep n;
 n.k.keep_alive = 1;
 n.k.max_keep_alive = 5;
 n.k.server_file = 0.4;
 n.k.max_clients = 2;
 n.k.hold = 0.1;
 n.run();
}

SCENARIO(P12, pings_while_idle, 6)
{
 Keep n;
 n.k.keep_alive = 0.9;
 n.k.max_keep_alive = 300;
 n.k.long_sleep = 0.5;
 n.k.server_file = 0.3;
 n.k.max_clients = 2;
 n.k.max_ops = 5;
 n.k.wait_pull = 0.3;
 n.run();
}

SCENARIO(P12, pings_and_faults, 6)
{
 Keep n;
 n.k.keep_alive = 1;
 n.k.max_keep_alive = 10;
 n.k.server_file = 0.3;
 n.k.robust = 0.6;
 n.k.reset = 0.01;
 n.k.stall = 0.005;
 n.k.max_clients = 2;
 n.run();
}

SCENARIO(P12, rpc_pings, 8) {rpc_keep_alive();}
