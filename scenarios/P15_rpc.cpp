// P15: remote procedure calls: at most once, the right reply, isolated errors.
#include "scenarios/common.h"
#include "joedb/rpc/Server.h"
#include "joedb/rpc/Client.h"
#include "joedb/concurrency/Local_Connector.h"
#include <mutex>
#include <boost/asio/detail/signal_set_service.hpp>
#include <signal.h>
using namespace h;

namespace
{
 struct Call {int64_t id; int kind; size_t in, out; int64_t slow; uint64_t seed;};

 struct Rpc
 {
  std::map<int64_t, Call> calls;
  std::map<int64_t, int> executed;
  std::map<int64_t, int64_t> order;      // call -> value of the counter
  struct Done {int64_t id; uint64_t begin, end; int64_t value;};
  std::vector<Done> done;
  std::mutex mutex;
  int64_t counter = 0;
  int concurrent = 0, max_concurrent = 0;
 };
 Rpc *R;

 std::string bytes(uint64_t seed, size_t n)
 {
  sim::Rng r(seed);
  std::string s(n, 0);
  for (auto &c: s) c = char(r.next());
  return s;
 }

 std::string prolog(size_t k) {return std::string(41 + k * 13, char('p' + k));}

 std::string error_text(const Call &c) {return "error of call " + std::to_string(c.id) + " " + std::string(c.out, char('a' + c.id % 26));}

 struct Procedure: joedb::rpc::Procedure
 {
  size_t index;
  explicit Procedure(size_t i): index(i) {}

  void execute(joedb::Abstract_File &file) const override
  {
   const size_t start = prolog(index).size();
   std::string data(size_t(file.get_size()), 0);
   {
    sim::Atomic a;
    SIM_CHECK(data.size() >= start + 8, "request-wrong", "a procedure received %zu bytes", data.size());
    file.pread(data.data(), data.size(), 0);
   }
   int64_t id;
   memcpy(&id, data.data() + start, 8);
   Call c;
   {
    sim::Atomic a;
    SIM_CHECK(R->calls.count(id), "request-wrong", "a procedure received an unknown call %ld", id);
    c = R->calls[id];
    SIM_CHECK(size_t(c.kind) % 3 == index, "request-wrong", "call %ld reached procedure %zu", id, index);
    SIM_CHECK(data == prolog(index) + std::string((const char *)&id, 8) + bytes(c.seed, c.in), "request-wrong", "the message of call %ld differs from what was sent", id);
    SIM_CHECK(++R->executed[id] == 1, "executed-twice", "call %ld was executed twice", id);
    R->max_concurrent = std::max(R->max_concurrent, ++R->concurrent);
   }
   struct Leave {~Leave() {R->concurrent--;}} leave;
   if (c.slow) sim::sleep_for(c.slow);
   int64_t value;
   {
    std::lock_guard<std::mutex> l(R->mutex);
    value = ++R->counter;
    R->order[id] = value;
   }
   if (c.kind >= 3 && c.kind < 6) throw joedb::Exception(error_text(c));
   if (c.kind >= 6 && c.kind < 9) throw std::runtime_error(error_text(c));
   const std::string reply = std::string((const char *)&value, 8) + bytes(c.seed + 1, c.out);
   if (c.out != 7) // 7: no reply data at all
    file.pwrite(reply.data(), reply.size(), file.get_size());
  }
 };

 void run(double reset, double stall, double stop, double kill, bool wrong_signature)
 {
  quiet_destructors();
  auto &w = sim::wl();
  Rpc rpc;
  R = &rpc;
  const std::string sock = "/sim/0/rpc.sock";
  const std::vector<joedb::rpc::Signature> signatures{{"a", prolog(0)}, {"b", prolog(1)}, {"c", prolog(2)}};
  const std::vector<joedb::rpc::Signature> other{{"a", prolog(0)}, {"b", prolog(2)}, {"c", prolog(1)}};
  Procedure p0(0), p1(1), p2(2);
  const std::vector<joedb::rpc::Procedure *> procedures{&p0, &p1, &p2};
  const int thread_count = int(w.range(1, 4));
  sim::set_default_latency(int64_t(1 + w.below(50)) * US, int64_t(1 + w.below(5)) * MS);
  const double shorts = w.chance(0.5) ? 0.15 : 0;
  auto rates = [&](sim::Node *n)
  {
   benign(n, 0.004);
   n->rates[sim::K_SHORT_SEND] = shorts;
   n->rates[sim::K_SHORT_RECV] = shorts;
   n->rates[sim::K_CONN_RESET] = reset;
   n->rates[sim::K_CONN_STALL] = stall;
  };
  bool up = false, stopping = false, stopped = false;
  auto *server_node = sim::new_node("server", 0);
  rates(server_node);
  auto *server = sim::spawn(server_node, "server", [&]()
  {
   Logger_ logger("server");
   joedb::rpc::Server s(logger, sim::verbose ? 3 : 0, thread_count, sock, signatures, procedures);
   up = true;
   s.join();
   sim::Atomic a;
   stopped = true;
   SIM_CHECK(stopping, "server-stopped", "the rpc server stopped without being asked to");
   SIM_CHECK(!sim::vfs_exists(sock), "socket-left", "the socket file was not removed");
   SIM_CHECK(rpc.concurrent == 0, "stopped-too-early", "the server has stopped while procedures are being executed");
  });

  int op = 0;
  const bool faulty = reset > 0 || stop > 0;
  std::vector<sim::Thread *> threads;
  std::vector<sim::Node *> nodes;
  const int clients = int(w.range(1, 4));
  for (int c = 0; c < clients; c++)
  {
   auto *node = sim::new_node("c" + std::to_string(c), 1 + c % 2);
   rates(node);
   if (w.chance(kill)) node->crash_at = 20 + w.below(300);
   nodes.push_back(node);
   const int shared = w.chance(0.4) ? int(w.range(2, 3)) : 1; // threads that share one client
   const int keep_alive = w.chance(0.5) ? int(1 + w.below(40)) : 0;
   std::vector<std::vector<int>> plan{size_t(shared)};
   std::vector<Call> mine;
   for (int t = 0; t < shared; t++)
    for (int n = 1 + int(w.below(5)); n > 0; n--)
    {
     Call x;
     x.id = op;
     x.kind = w.chance(0.75) ? int(w.below(3)) : int(w.below(9));
     x.in = w.chance(0.2) ? size_t(8000 + w.below(30000)) : size_t(w.below(100));
     x.out = w.chance(0.2) ? size_t(8000 + w.below(30000)) : size_t(w.below(100));
     x.slow = w.chance(0.3) ? int64_t(w.below(50000)) * US : 0;
     x.seed = w.next() >> 8;
     rpc.calls[x.id] = x;
     sim::declare_op(op, "c" + std::to_string(c) + " thread " + std::to_string(t) + " call kind " + std::to_string(x.kind) + " in " + std::to_string(x.in) + " out " + std::to_string(x.out));
     plan[size_t(t)].push_back(op++);
    }
   const bool wrong = wrong_signature && w.chance(0.3);
   threads.push_back(sim::spawn(node, node->name, [=, &rpc, &up, &signatures, &other, &stopping]()
   {
    if (!sim::wait_until([&]() {return up;}, 60 * SEC)) return;
    std::vector<size_t> next(plan.size(), 0);
    for (int attempt = 0; attempt < 100; attempt++)
    {
     bool all = true;
     for (size_t t = 0; t < plan.size(); t++) all = all && next[t] >= plan[t].size();
     if (all || stopping) break;
     bool broken = false;
     std::unique_ptr<joedb::Channel> channel;
     std::unique_ptr<joedb::rpc::Client> client;
     joedb::Local_Connector connector(sock);
     try
     {
      channel = connector.new_channel();
      client.reset(new joedb::rpc::Client(*channel, wrong ? other : signatures, std::chrono::milliseconds(keep_alive)));
     }
     catch (const std::exception &e)
     {
      if (wrong) {sim::probe("refused_signatures"); sim::nontrivial(); return;}
      SIM_CHECK(faulty || stopping, "connect-failed", "c%d: cannot connect: %s", c, e.what());
      sim::sleep_for(10 * MS);
      continue;
     }
     SIM_CHECK(!wrong, "signature-accepted", "a client with other procedures was accepted");
     auto work = [&](size_t t)
     {
      while (next[t] < plan[t].size() && !broken)
      {
       const int i = plan[t][next[t]++];
       if (!sim::op_enabled(i)) continue;
       Call x;
       {sim::Atomic a; x = rpc.calls[i];}
       const size_t index = size_t(x.kind) % 3;
       const int64_t id = i;
       joedb::Memory_File file;
       file.get_data() = prolog(index) + std::string((const char *)&id, 8) + bytes(x.seed, x.in);
       const std::string sent = file.get_data();
       const uint64_t begin = sim::step();
       try
       {
        client->call(int64_t(index), file);
        sim::Atomic a;
        SIM_CHECK(rpc.executed[id] == 1, "not-executed", "call %ld returned, but was not executed", id);
        SIM_CHECK(x.kind < 3, "error-lost", "call %ld returned, although the procedure failed", id);
        const int64_t v = rpc.order[id];
        const std::string want = sent + (x.out == 7 ? "" : std::string((const char *)&v, 8) + bytes(x.seed + 1, x.out));
        SIM_CHECK(file.get_data().size() == want.size() && file.get_data().substr(16) == want.substr(16), "reply-wrong", "the reply of call %ld is not what the procedure wrote (%zu bytes, expected %zu)", id, file.get_data().size(), want.size());
        rpc.done.push_back({id, begin, sim::step(), v});
        sim::probe("calls");
       }
       catch (const std::exception &e)
       {
        sim::Atomic a;
        const std::string m = e.what();
        if (m.compare(0, 13, "error of call") == 0)
        {
         const std::string want = error_text(x);
         SIM_CHECK(x.kind >= 3, "error-wrong", "call %ld failed: %s", id, m.c_str());
         SIM_CHECK(m == want || (want.size() > 1000 && m.size() > 1000 && want.compare(0, m.size(), m) == 0), "error-wrong", "call %ld: error is not that of the procedure: %.100s", id, m.c_str());
         SIM_CHECK(rpc.executed[id] == 1, "not-executed", "call %ld returned an error, but was not executed", id);
         rpc.done.push_back({id, begin, sim::step(), rpc.order[id]});
         sim::probe("procedure_errors");
        }
        else
        {
         SIM_CHECK(faulty || stopping, "call-failed", "call %ld failed without any fault: %s", id, m.c_str());
         sim::probe("broken_calls");
         sim::nontrivial();
         broken = true;
        }
       }
      }
     };
     std::vector<sim::Thread *> ts;
     for (size_t t = 1; t < plan.size(); t++) ts.push_back(sim::spawn(sim::self_node(), "worker", [&work, t]() {work(t);}));
     work(0);
     if (!sim::join(ts, 3600 * SEC)) sim::fail("liveness", "calls do not finish");
     client.reset();
    }
   }));
  }
  if (w.chance(stop))
  {
   sim::wait_until([&]() {return up;}, 60 * SEC);
   sim::sleep_for(int64_t(w.below(60000)) * US);
   stopping = true;
   sim::send_signal(server_node, SIGTERM);
   if (!sim::join({server}, 60 * SEC)) sim::fail("liveness", "the rpc server does not stop");
   sim::nontrivial();
   sim::probe("stopped_while_busy");
  }
  if (!sim::join(threads, 7200 * SEC)) sim::fail("liveness", "rpc clients did not finish:");
  if (!stopping)
  {
   sim::sleep_for(10 * SEC);
   stopping = true;
   sim::send_signal(server_node, SIGTERM);
   if (!sim::join({server}, 60 * SEC)) sim::fail("liveness", "the rpc server does not stop");
  }
  sim::Atomic a;
  SIM_CHECK(stopped, "liveness", "the rpc server did not return from join");
  if (clients > 1) sim::nontrivial();
  for (auto &x: rpc.done)
   for (auto &y: rpc.done)
    if (x.end < y.begin) SIM_CHECK(x.value < y.value, "reordered", "call %ld returned before call %ld started, but was executed after it", x.id, y.id);
  if (rpc.max_concurrent > 1) sim::probe("concurrent_procedures");
  SIM_CHECK(rpc.max_concurrent <= thread_count, "harness", "more procedures than threads");
 }
}

SCENARIO(P15, rpc_calm, 6) {run(0, 0, 0, 0, true);}
SCENARIO(P15, rpc_faults, 10) {run(0.01, 0.01, 0, 0.2, false);}
SCENARIO(P15, rpc_stop, 4) {run(0.003, 0.003, 1, 0.1, false);}
