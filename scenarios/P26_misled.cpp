// P26: clients survive whatever a server sends.  A real server and real clients, and
// a network that changes what the server sends to some of the clients.
#include "scenarios/net.h"
#include "joedb/concurrency/protocol_version.h"
#include "joedb/rpc/Server.h"
#include "joedb/rpc/Client.h"
using namespace h;

namespace
{
 int64_t strange(sim::Rng &r, int64_t near)
 {
  static const int64_t v[] = {0, 1, -1, 8, 40, 41, 42, 100, -41, 4096, 8192, 1 << 20, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, int64_t(1) << 40, -(int64_t(1) << 40), int64_t(1) << 62};
  const uint64_t x = r.below(10);
  return x < 3 ? near + int64_t(r.below(200)) - 100 : x < 4 ? near * 2 : x < 5 ? -near : x < 9 ? v[r.below(19)] : int64_t(r.next());
 }

 int64_t int_at(const std::string &s, size_t i) {int64_t x; memcpy(&x, s.data() + i, 8); return x;}
 void set_int(std::string &s, size_t i, int64_t x) {memcpy(s.data() + i, &x, 8);}

 int64_t checkpoint_of(const std::string &s)
 {
  int64_t result = 41;
  if (s.size() < 41) return 0;
  for (size_t i = 0; i < 4; i++)
  {
   const int64_t x = int_at(s, 8 * i);
   if (x < 0 && x > INT64_MIN && -x <= int64_t(s.size())) result = std::max(result, -x);
   if (i % 2 == 0 && x == int_at(s, 8 * i + 8)) result = std::max(result, x);
  }
  return result;
 }

 struct Victim
 {
  std::string who, replica;
  sim::Node *node = nullptr;
  sim::Rng r{0};
  double rate = 0;
  bool pings = false, robust = false;
  uint64_t bad_hello = 0;   // connection whose hello must be refused
  uint64_t must_fail = 0;   // connection on which a request got the wrong kind of reply
  char request = 0;
  std::string safe;         // what the local file had when the session was opened
 };

 struct Stream
 {
  Victim *v = nullptr;
  bool hello = false, clean = true, awaiting = false;
  char request = 0;
 };

 struct Misled
 {
  std::map<sim::Node *, Victim *> victims;
  std::map<uint64_t, Stream> streams;
  bool calm = false;

  void corrupt_any(std::string &d, sim::Rng &r)
  {
   switch (r.below(8))
   {
    case 0: case 1: for (uint64_t n = 1 + r.below(3); n > 0; n--) d[r.below(d.size())] ^= char(1 << r.below(8)); sim::probe("corrupt_bits"); break;
    case 2: {const size_t a = r.below(d.size()), n = 1 + r.below(20); d.erase(a, n); sim::probe("corrupt_deleted"); break;}
    case 3: {std::string x(1 + r.below(60), 0); for (auto &c: x) c = char(r.next()); d.insert(r.below(d.size() + 1), x); sim::probe("corrupt_inserted"); break;}
    case 4: d += d.substr(r.below(d.size())); sim::probe("corrupt_duplicated"); break;
    case 5: for (auto &c: d) c = char(r.next()); sim::probe("corrupt_junk"); break;
    case 6: d.resize(r.below(d.size())); sim::probe("corrupt_truncated"); break;
    default: if (d.size() >= 8) {const size_t i = r.below(d.size() - 7); set_int(d, i, strange(r, int_at(d, i))); sim::probe("corrupt_integer");} else d.clear(); break;
   }
  }

  bool on_data(sim::Node *from, sim::Node *to, uint64_t id, std::string &d)
  {
   if (auto f = victims.find(from); f != victims.end())
   {
    Stream &s = streams[id];
    s.v = f->second;
    if (!s.awaiting) {s.awaiting = true; s.request = d[0];}
    return true;
   }
   auto f = victims.find(to);
   if (f == victims.end()) return true;
   Victim &v = *f->second;
   Stream &s = streams[id];
   const bool hello = !s.hello && d.size() == 30;
   const bool reply = s.awaiting && !hello;
   s.awaiting = false;
   bool keep = true;
   if (!calm && v.r.chance(v.rate))
   {
    const bool was_clean = s.clean;
    const std::string original = d;
    if (hello && v.r.chance(0.7))
    {
     switch (v.r.below(5))
     {
      case 0: d[v.r.below(5)] ^= char(1 << v.r.below(7)); break;
      case 1: set_int(d, 5, strange(v.r, joedb::protocol_version)); break;
      case 2: set_int(d, 13, strange(v.r, 1)); break;
      case 3: set_int(d, 21, strange(v.r, int_at(d, 21))); break;
      default: d[29] = v.r.chance(0.5) ? 'R' : char(v.r.next()); break;
     }
     sim::probe("corrupt_hello");
    }
    else if (reply && d.size() == 9 && v.r.chance(0.6)) {set_int(d, 1, strange(v.r, int_at(d, 1))); sim::probe("corrupt_size");}
    else if (reply && was_clean && s.hello && v.r.chance(0.6))
    {
     static const char codes[] = "DEFGRCNOMhHtP?\0r";
     const char c = codes[v.r.below(sizeof codes)];
     if (c != d[0])
     {
      d[0] = c;
      const bool transfer = s.request >= 'D' && s.request <= 'G', push = s.request == 'N' || s.request == 'O';
      if ((((transfer || push) && !(push && c == 't' && v.robust)) || ((s.request == 'H' || s.request == 'I') && c == 'h')) && !v.pings)
      {
       v.must_fail = id;
       v.request = s.request;
       sim::probe("wrong_replies");
      }
      sim::probe("corrupt_type");
     }
    }
    else if (v.r.chance(0.15)) {d.resize(v.r.below(d.size() + 1)); keep = false; sim::probe("corrupt_cut");}
    else corrupt_any(d, v.r);
    if (d != original || !keep) {s.clean = false; sim::nontrivial();}
   }
   if (hello)
   {
    s.hello = true;
    v.must_fail = 0;
    const bool good = d.size() == 30 && memcmp(d.data(), "joedb", 5) == 0 && int_at(d, 5) >= joedb::protocol_version && (d[29] == 'R' || d[29] == 'W');
    v.bad_hello = d.size() == 30 && !good ? id : 0;
    if (v.bad_hello) sim::probe("bad_hellos");
   }
   return keep;
  }

  void watch(const std::string &p)
  {
   for (auto &i: victims)
    if (p == i.second->replica && i.second->safe.size() > 41) check_local(*i.second);
  }

  void check_local(Victim &v)
  {
   sim::Atomic a;
   if (v.safe.size() <= 41 || sim::vfs_begins(v.replica, v.safe, 41)) return;
   const std::string d = sim::vfs_content(v.replica);
   SIM_CHECK(d.size() >= v.safe.size(), "local-damaged", "%s: the local file has %zu bytes, it had a checkpoint at %zu before the session", v.who.c_str(), d.size(), v.safe.size());
   if (d.compare(41, v.safe.size() - 41, v.safe, 41) != 0)
   {
    size_t i = 41;
    while (d[i] == v.safe[i]) i++;
    sim::fail("local-damaged", "%s: byte %zu of the local file was changed, below the checkpoint (%zu) that it had before the session", v.who.c_str(), i, v.safe.size());
   }
  }

  void check_op(Victim &v, const char *what)
  {
   SIM_CHECK(!v.bad_hello, "bad-server-accepted", "%s: %s succeeded with a connection that began with a bad server hello", v.who.c_str(), what);
   SIM_CHECK(!v.must_fail, "wrong-reply-accepted", "%s: %s succeeded although the server gave a wrong reply to a request of type %c", v.who.c_str(), what, v.request);
  }
 };

 void misled()
 {
  quiet_destructors();
  auto &w = sim::wl();
  Net n;
  n.k = Net_Knobs();
  Misled m;
  sim::heap_limit(size_t(768) << 20, size_t(64) << 20);
  n.shared = w.chance(0.4);
  n.db_mode = w.chance(0.6);
  sim::set_default_latency(int64_t(1 + w.below(50)) * US, int64_t(1 + w.below(5)) * MS);
  const bool may_push = w.chance(0.3); // misled clients write to the server
  sim::vfs_on_write([&](const std::string &p) {if (p == n.path) n.check_immutable(); m.watch(p);});
  sim::net_mutate([&](sim::Node *from, sim::Node *to, uint64_t id, std::string &d) {return m.on_data(from, to, id, d);});
  auto *server = n.start_server();
  int op = 0;

  // an honest client, which writes
  std::vector<sim::Thread *> threads;
  {
   auto *node = sim::new_node("writer", 5);
   benign(node, 0.003);
   struct P {int op; uint64_t seed; int n; int64_t sleep; bool big;};
   std::vector<P> plan;
   for (int k = 2 + int(w.below(6)); k > 0; k--)
   {
    plan.push_back({op, w.next() >> 8, int(w.below(6)), int64_t(w.below(40000)) * US, w.chance(0.2)});
    sim::declare_op(op++, "honest transaction seed " + std::to_string(plan.back().seed));
   }
   threads.push_back(sim::spawn(node, "writer", [&, plan]()
   {
    if (!n.await_server()) sim::fail("liveness", "no server");
    Logger_ logger("writer");
    Net::Session s;
    Net::Style y{};
    y.db = n.db_mode;
    y.socket = n.sock;
    size_t p = 0;
    while (p < plan.size())
     try
     {
      n.open(s, y, "", logger);
      for (; p < plan.size(); p++)
      {
       const P &q = plan[p];
       if (!sim::op_enabled(q.op)) continue;
       if (q.sleep) sim::sleep_for(q.sleep);
       Net::Plan x{};
       x.seed = q.seed; x.n = q.n; x.big = q.big;
       size_t i = 0;
       if (s.jc) s.jc->transaction([&](joedb::Writable_Journal &j) {i = n.write("writer", j, nullptr, x, q.seed);});
       else s.dc->transaction([&](const joedb::Readable &db, joedb::Writable &j) {i = n.write("writer", j, &db, x, q.seed);});
       n.log.ack(i);
       n.committed_to(s.c->get_connection_checkpoint());
       sim::probe("honest_transactions");
      }
     }
     catch (const std::exception &e)
     {
      // what misled clients have pushed may be unreadable
      SIM_CHECK(may_push, "honest-failed", "the transaction of an honest client failed: %s", e.what());
      s.reset();
      p++;
     }
   }));
  }

  // clients that are misled
  std::vector<std::unique_ptr<Victim>> all;
  const int victims = int(w.range(1, 2 + (sim::thorough() ? 1 : 0)));
  for (int c = 0; c < victims; c++)
  {
   all.push_back(std::make_unique<Victim>());
   Victim &v = *all.back();
   v.who = "client" + std::to_string(c);
   v.replica = "/sim/" + std::to_string(1 + c) + "/" + v.who + ".joedb";
   v.node = sim::new_node(v.who, 1 + c);
   benign(v.node, 0.003);
   v.node->rates[sim::K_SHORT_RECV] = w.chance(0.5) ? 0.1 : 0;
   m.victims[v.node] = &v;
   v.r = sim::Rng(w.next());
   struct Sess {int op; Net::Style y; uint64_t seed; double rate;};
   std::vector<Sess> plan;
   for (int k = 1 + int(w.below(5)); k > 0; k--)
   {
    Sess s{};
    s.op = op;
    s.seed = w.next() >> 8;
    static const double rates[] = {0, 0.02, 0.1, 0.3, 0.6};
    s.rate = rates[w.below(5)];
    s.y.socket = n.sock;
    s.y.robust = w.chance(0.3);
    s.y.server_file = w.chance(0.2);
    s.y.db = n.db_mode && w.chance(0.7);
    s.y.persistent = w.chance(0.7);
    s.y.shared_replica = s.y.persistent && w.chance(0.3);
    s.y.keep_alive_ms = w.chance(0.3) ? int(1 + w.below(30)) : 0;
    static const joedb::Content_Check checks[] = {joedb::Content_Check::none, joedb::Content_Check::fast, joedb::Content_Check::full};
    s.y.check = checks[w.below(3)];
    plan.push_back(s);
    sim::declare_op(op++, v.who + " session" + (s.y.server_file ? " (server file)" : s.y.robust ? " (robust)" : "") + (s.y.db ? " (database)" : " (journal)") + (s.y.persistent && !s.y.server_file ? " (file)" : "") + ", rate " + std::to_string(s.rate) + " seed " + std::to_string(s.seed));
   }
   threads.push_back(sim::spawn(v.node, v.who, [&, plan, pv = &v]()
   {
    Victim &v = *pv;
    if (!n.await_server()) sim::fail("liveness", "no server");
    Logger_ logger(v.who);
    for (auto &q: plan)
    {
     if (!sim::op_enabled(q.op)) continue;
     sim::Rng r(q.seed);
     if (r.chance(0.5)) sim::sleep_for(int64_t(r.below(60000)) * US);
     v.rate = q.rate;
     v.pings = q.y.keep_alive_ms > 0;
     v.robust = q.y.robust || q.y.server_file;
     v.safe.clear();
     if (!q.y.server_file && q.y.persistent && sim::vfs_exists(v.replica))
     {
      sim::Atomic a;
      const std::string d = sim::vfs_content(v.replica);
      const int64_t c = checkpoint_of(d);
      if (c <= int64_t(d.size())) v.safe = d.substr(0, size_t(c));
     }
     {
      Net::Session s;
      try
      {
       v.must_fail = v.bad_hello = 0;
       n.open(s, q.y, v.replica, logger);
       m.check_op(v, "opening");
       sim::probe("sessions");
       for (int k = 1 + int(r.below(6)); k > 0; k--)
       {
        if (r.chance(0.3)) sim::sleep_for(int64_t(r.below(50000)) * US);
        v.must_fail = 0;
        switch (r.below(may_push ? 7 : 5))
        {
         case 0: case 1: s.c->pull(); m.check_op(v, "pull"); break;
         case 2: s.c->pull(std::chrono::milliseconds(r.below(3000))); m.check_op(v, "waiting pull"); break;
         case 3:
         {
          std::vector<char> x(size_t(r.below(20000)) + 16, 0x5c);
          const size_t size = x.size() - 16;
          const int64_t from = 41 + int64_t(r.below(uint64_t(std::max<int64_t>(1, std::min<int64_t>(s.c->get_connection_checkpoint() - 41, 1 << 20)))));
          const size_t got = s.sf ? s.sf->pread(x.data(), size, from) : s.robust ? s.robust->pread(x.data(), size, from) : s.plain->pread(x.data(), size, from);
          SIM_CHECK(got <= size, "pread-count", "%s: reading %zu bytes returned %zu", v.who.c_str(), size, got);
          for (size_t i = got; i < x.size(); i++) SIM_CHECK(x[i] == 0x5c || i < size, "pread-overflow", "%s: reading %zu bytes wrote beyond the buffer", v.who.c_str(), size);
          sim::probe("remote_reads");
         }
         break;
         case 4: // a transaction that is given up
         {
          try
          {
           auto body = [&](joedb::Writable &x) {x.comment("given up"); if (r.chance(0.3)) sim::sleep_for(int64_t(r.below(20000)) * US); throw Abort_Me();};
           if (s.jc) s.jc->transaction([&](joedb::Writable_Journal &j) {body(j);});
           else s.dc->transaction([&](const joedb::Readable &, joedb::Writable &j) {body(j);});
          }
          catch (const Abort_Me &) {m.check_op(v, "pull with lock"); k = 0;}
         }
         break;
         default:
         {
          auto body = [&](joedb::Writable &x) {x.comment("misled " + std::to_string(r.next())); x.write_blob(std::string(size_t(r.below(9000)), 'b')); x.comment("end");};
          if (s.jc) s.jc->transaction([&](joedb::Writable_Journal &j) {body(j);});
          else s.dc->transaction([&](const joedb::Readable &, joedb::Writable &j) {body(j);});
          m.check_op(v, "transaction");
          sim::probe("misled_transactions");
         }
         break;
        }
        sim::probe("misled_operations");
       }
      }
      catch (const std::exception &e)
      {
       if (sim::verbose) sim::note("%s: exception: %s", v.who.c_str(), e.what());
       sim::probe("misled_errors");
      }
     }
     if (!q.y.server_file && q.y.persistent)
     {
      m.check_local(v);
      sim::Atomic a;
      if (v.safe.size() > 41)
      {
       const int64_t c = checkpoint_of(sim::vfs_content(v.replica));
       SIM_CHECK(c >= int64_t(v.safe.size()), "checkpoint-lowered", "%s: the checkpoint of the local file went from %zu to %ld", v.who.c_str(), v.safe.size(), c);
       sim::probe("local_checks");
      }
     }
    }
   }));
  }

  const int64_t calm_at = int64_t(20 + w.below(2000)) * MS;
  auto *node = sim::new_node("calm", 9);
  sim::spawn(node, "calm", [&]()
  {
   n.await_server();
   sim::sleep_for(calm_at);
   sim::Atomic a;
   if (m.calm) return;
   m.calm = true;
   for (auto &i: m.victims) sim::cut_connections_of(i.first);
  });
  if (!sim::join(threads, 7200 * SEC)) sim::fail("liveness", "clients did not finish after the server became honest:");
  m.calm = true;

  // what clients have now
  for (auto &pv: all)
  {
   Victim &v = *pv;
   v.safe.clear();
   v.rate = 0;
   auto *t = sim::spawn(v.node, v.who + " later", [&]()
   {
    if (!sim::vfs_exists(v.replica)) return;
    Logger_ logger(v.who);
    Net::Session s;
    Net::Style y{};
    y.persistent = true;
    y.check = joedb::Content_Check::full;
    y.socket = n.sock;
    std::string mine, theirs;
    int64_t c, b;
    {
     sim::Atomic a;
     mine = sim::vfs_content(v.replica);
     theirs = sim::vfs_content(n.path);
     c = checkpoint_of(mine);
     b = checkpoint_of(theirs);
    }
    if (c < 41 || c > int64_t(mine.size())) {sim::probe("strange_replicas"); return;}
    const int64_t common = std::min(c, b);
    const bool same = mine.compare(41, size_t(common - 41), theirs, 41, size_t(common - 41)) == 0;
    try
    {
     n.open(s, y, v.replica, logger);
     SIM_CHECK(same, "mismatch-accepted", "%s: a replica that differs from the server was accepted", v.who.c_str());
     s.c->pull();
    }
    catch (const std::exception &e)
    {
     SIM_CHECK(!same || may_push, "same-refused", "%s: a replica (checkpoint %ld) that has the bytes of the server (checkpoint %ld) cannot be used: %s", v.who.c_str(), c, b, e.what());
     sim::probe("damaged_replicas_refused");
     return;
    }
    sim::probe("good_replicas");
   });
   if (!sim::join({t}, 3600 * SEC)) sim::fail("liveness", "an honest session does not finish:");
  }
  sim::sleep_for(10 * SEC);
  n.stopping = true;
  sim::send_signal(n.server_node, SIGTERM);
  if (!sim::join({server}, 600 * SEC)) sim::fail("liveness", "the server does not stop");
  if (!may_push) n.check_server_file(true);
 }

 // ------------------------------------------------------------------- rpc --
 struct Echo: joedb::rpc::Procedure
 {
  void execute(joedb::Abstract_File &file) const override
  {
   const int64_t size = file.get_size();
   std::string s(size_t(std::min(size, int64_t(100000))), 0);
   file.pread(s.data(), s.size(), 0);
   if (s.size() > 60 && s[60] == 'x') throw joedb::Exception("asked for");
   file.pwrite(s.data(), s.size(), size);
  }
 };

 void misled_rpc()
 {
  quiet_destructors();
  Net::separate_asio();
  auto &w = sim::wl();
  sim::heap_limit(size_t(768) << 20, size_t(64) << 20);
  const std::string sock = "/sim/0/rpc.sock";
  const std::vector<joedb::rpc::Signature> signatures{{"a", std::string(41, 'a')}, {"b", std::string(60, 'b')}};
  Echo echo;
  const std::vector<joedb::rpc::Procedure *> procedures{&echo, &echo};
  sim::set_default_latency(int64_t(1 + w.below(50)) * US, int64_t(1 + w.below(5)) * MS);
  bool up = false, stopping = false;
  auto *server_node = sim::new_node("server", 0);
  benign(server_node, 0.003);
  auto *server = sim::spawn(server_node, "server", [&]()
  {
   Logger_ logger("server");
   joedb::rpc::Server s(logger, 0, 1, sock, signatures, procedures);
   up = true;
   s.join();
   SIM_CHECK(stopping, "server-stopped", "the rpc server stopped without being asked to");
  });
  struct St {bool awaiting = false, hello = false, clean = true; char request = 0;};
  struct Vic {sim::Rng r{0}; double rate = 0; bool must_fail = false, pings = false, clean = true;};
  std::map<sim::Node *, Vic> vic;
  std::map<uint64_t, St> streams;
  bool calm = false;
  Misled m;
  sim::net_mutate([&](sim::Node *from, sim::Node *to, uint64_t id, std::string &d)
  {
   if (vic.count(from)) {St &s = streams[id]; if (!s.awaiting) {s.awaiting = true; s.request = d[0];} return true;}
   auto f = vic.find(to);
   if (f == vic.end()) return true;
   Vic &v = f->second;
   St &s = streams[id];
   const bool reply = s.awaiting, hello = !s.hello;
   s.awaiting = false;
   s.hello = true;
   if (calm || !v.r.chance(v.rate)) return true;
   sim::nontrivial();
   v.clean = false;
   const bool was_clean = s.clean;
   s.clean = false;
   if (reply && d.size() >= 9 && v.r.chance(0.5)) {set_int(d, 1, strange(v.r, int_at(d, 1))); sim::probe("corrupt_size"); return true;}
   if (reply && was_clean && v.r.chance(0.5))
   {
    char c = char(v.r.next());
    if (c == d[0]) return true;
    d[0] = c;
    if (!v.pings) v.must_fail = true;
    sim::probe("corrupt_type");
    (void)hello;
    return true;
   }
   if (v.r.chance(0.15)) {d.resize(v.r.below(d.size() + 1)); sim::probe("corrupt_cut"); return false;}
   m.corrupt_any(d, v.r);
   return true;
  });
  std::vector<sim::Thread *> threads;
  std::vector<sim::Node *> nodes;
  int op = 0;
  for (int i = 1 + int(w.below(3)); i > 0; i--)
  {
   const std::string who = "client" + std::to_string(i);
   auto *node = sim::new_node(who, 1);
   benign(node, 0.003);
   nodes.push_back(node);
   vic[node].r = sim::Rng(w.next());
   struct Sess {int op; uint64_t seed; double rate; int keep_alive;};
   std::vector<Sess> plan;
   for (int k = 1 + int(w.below(5)); k > 0; k--)
   {
    static const double rates[] = {0, 0.1, 0.3, 0.6};
    plan.push_back({op, w.next() >> 8, rates[w.below(4)], w.chance(0.3) ? int(1 + w.below(30)) : 0});
    sim::declare_op(op++, who + " rpc session, rate " + std::to_string(plan.back().rate) + " seed " + std::to_string(plan.back().seed));
   }
   threads.push_back(sim::spawn(node, who, [&, plan, who, node]()
   {
    sim::wait_until([&]() {return up;}, 60 * SEC);
    Vic &v = vic[node];
    joedb::Local_Connector connector(sock);
    for (auto &q: plan)
    {
     if (!sim::op_enabled(q.op)) continue;
     sim::Rng r(q.seed);
     v.rate = q.rate;
     v.pings = q.keep_alive > 0;
     v.must_fail = false;
     v.clean = true;
     try
     {
      const auto channel = connector.new_channel();
      joedb::rpc::Client client(*channel, signatures, std::chrono::milliseconds(q.keep_alive));
      SIM_CHECK(!v.must_fail, "wrong-reply-accepted", "%s: a wrong handshake was accepted", who.c_str());
      for (int k = 1 + int(r.below(6)); k > 0; k--)
      {
       joedb::Memory_File f;
       const size_t p = r.below(2);
       const bool error = r.chance(0.3);
       f.get_data() = signatures[p].prolog + std::string(20, 'q') + std::string(r.below(9000), error ? 'x' : 'y');
       if (f.get_data().size() > 60) f.get_data()[60] = error ? 'x' : 'y';
       const std::string sent = f.get_data();
       v.must_fail = false;
       sim::probe("misled_operations");
       try
       {
        client.call(int64_t(p), f);
       }
       catch (const std::exception &e)
       {
        if (v.clean && !calm) SIM_CHECK(error && std::string(e.what()) == "asked for", "call-failed", "%s: a call failed without any fault: %s", who.c_str(), e.what());
        sim::probe("misled_errors");
        if (!v.clean) throw;
        continue;
       }
       SIM_CHECK(!v.must_fail, "wrong-reply-accepted", "%s: a call succeeded although the server gave a wrong reply", who.c_str());
       if (v.clean) SIM_CHECK(f.get_data().size() == 2 * sent.size() && f.get_data().compare(16, sent.size() - 16, sent, 16) == 0, "reply-wrong", "%s: wrong reply", who.c_str());
       if (r.chance(0.3)) sim::sleep_for(int64_t(r.below(50000)) * US);
      }
     }
     catch (const std::exception &e)
     {
      if (sim::verbose) sim::note("%s: exception: %s", who.c_str(), e.what());
      SIM_CHECK(!v.clean || calm, "call-failed", "%s failed without any fault: %s", who.c_str(), e.what());
     }
    }
   }));
  }
  auto *node = sim::new_node("calm", 9);
  const int64_t calm_at = int64_t(20 + w.below(2000)) * MS;
  sim::spawn(node, "calm", [&]()
  {
   sim::wait_until([&]() {return up;}, 60 * SEC);
   sim::sleep_for(calm_at);
   sim::Atomic a;
   calm = true;
   for (auto *x: nodes) sim::cut_connections_of(x);
  });
  if (!sim::join(threads, 3600 * SEC)) sim::fail("liveness", "rpc clients did not finish after the server became honest:");
  calm = true;
  sim::sleep_for(5 * SEC);
  stopping = true;
  sim::send_signal(server_node, SIGTERM);
  if (!sim::join({server}, 60 * SEC)) sim::fail("liveness", "the rpc server does not stop");
 }
}

SCENARIO(P26, misled, 16) {misled();}
SCENARIO(P26, misled_rpc, 6) {misled_rpc();}
