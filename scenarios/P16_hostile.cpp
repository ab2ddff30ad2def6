// P16: servers survive malformed traffic, failing accepts and idle connections,
// and go on serving the others.
#include "scenarios/net.h"
#include "joedb/rpc/Server.h"
#include "joedb/rpc/Client.h"
using namespace h;

namespace
{
 struct Raw
 {
  int fd = -1;
  bool ok = false, patient = false;
  int silent = 0;
  sim::Rng &r;
  Raw(const std::string &sock, sim::Rng &r): r(r) {fd = sim::raw_connect(sock); ok = fd >= 0;}
  ~Raw() {if (fd >= 0) sim::raw_close(fd);}
  void put(const std::string &s) {if (ok && sim::raw_send(fd, s.data(), s.size()) < 0) ok = false;}
  void i64(std::string &s, int64_t x) {s.append((const char *)&x, 8);}
  std::string get(size_t n)
  {
   std::string s(n, 0);
   size_t done = 0;
   while (ok && done < n)
   {
    const long k = sim::raw_recv(fd, s.data() + done, n - done);
    if (k < 0 && patient && ++silent < 20) continue;
    if (k <= 0) ok = false; else done += size_t(k);
   }
   s.resize(done);
   return s;
  }
  std::string junk(size_t n) {std::string s(n, 0); for (auto &c: s) c = char(r.next()); return s;}
  int64_t number()
  {
   static const int64_t v[] = {0, 1, -1, 40, 41, 42, 100, -41, 4096, 8192, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, int64_t(1) << 40, -(int64_t(1) << 40), int64_t(1) << 62};
   return r.chance(0.8) ? v[r.below(17)] : int64_t(r.next());
  }
 };

 // Well-formed requests with strange values: each one must get its answer
 void strange_db(Raw &c, sim::Rng &r)
 {
  std::string s = "joedb";
  c.i64(s, 1 << 20);
  c.put(s);
  c.patient = true;
  const std::string hello = c.get(30);
  if (hello.size() != 30) return; // victim of a failed accept
  int64_t checkpoint;
  memcpy(&checkpoint, hello.data() + 21, 8);
  auto answer = [&](size_t n)
  {
   const std::string x = c.get(n);
   SIM_CHECK(x.size() == n, "no-answer", "the server closed the connection instead of answering a valid request");
   return x;
  };
  for (int n = 1 + int(r.below(5)); n > 0; n--)
  {
   const int what = int(r.below(4));
   if (what == 0)
   {
    int64_t x = r.chance(0.3) ? checkpoint + int64_t(r.below(3)) : r.chance(0.5) ? checkpoint + 1000000 + int64_t(r.below(100000)) : c.number();
    std::string m = r.chance(0.5) ? "H" : "I";
    c.i64(m, x);
    m += c.junk(32);
    c.put(m);
    SIM_CHECK(answer(1) == "h", "bad-answer", "a wrong hash was accepted");
   }
   else if (what == 1)
   {
    c.put("M");
    SIM_CHECK(answer(1) == "M", "bad-answer", "wrong answer to an unlock request");
   }
   else if (what == 2)
   {
    const int64_t from = r.chance(0.5) ? int64_t(r.below(uint64_t(checkpoint) * 2)) : r.chance(0.5) ? INT64_MAX - int64_t(r.below(3)) : checkpoint + (int64_t(1) << 50);
    const int64_t until = r.chance(0.5) ? from + int64_t(r.below(1000)) % (INT64_MAX - from + 1) : INT64_MAX;
    std::string m = "r";
    c.i64(m, from);
    c.i64(m, until);
    c.put(m);
    const std::string h = answer(9);
    int64_t end;
    memcpy(&end, h.data() + 1, 8);
    SIM_CHECK(h[0] == 'r' && end <= until, "bad-answer", "wrong answer to a read request: %c, until %ld", h[0], end);
    if (end > from)
    {
     const std::string data = answer(size_t(end - from));
     sim::Atomic a;
     const std::string file = sim::vfs_content("/sim/0/s.joedb");
     SIM_CHECK(end <= int64_t(file.size()), "bad-answer", "more data than the file has");
     if (from >= 41) SIM_CHECK(file.compare(size_t(from), size_t(end - from), data) == 0, "bad-answer", "wrong data");
    }
   }
   else
   {
    std::string m = "D";
    c.i64(m, r.chance(0.5) ? 0 : r.chance(0.5) ? 30 : -c.number());
    c.i64(m, r.chance(0.5) ? checkpoint : c.number());
    const int64_t wait = *(int64_t *)(m.data() + 1);
    if (wait > 100000) continue;
    c.put(m);
    const std::string h = answer(9);
    int64_t end;
    memcpy(&end, h.data() + 1, 8);
    SIM_CHECK(h[0] == 'D' && end >= checkpoint, "bad-answer", "wrong answer to a checkpoint request: %c, %ld", h[0], end);
   }
   sim::probe("strange_requests");
  }
 }

 // What an attacker does to joedb_server.  It never makes a push that the protocol allows:
 // its pushes start at a position that is not that of the server.
 void attack_db(const std::string &sock, uint64_t seed)
 {
  sim::Rng r(seed);
  Raw c(sock, r);
  sim::probe("attacks");
  const int kind = int(r.below(8));
  if (kind >= 6) {strange_db(c, r); return;}
  if (kind == 0) {c.put(c.junk(1 + r.below(100))); if (r.chance(0.5)) c.get(30); return;}
  if (kind == 1) {c.put(std::string("joedb").substr(0, r.below(6))); sim::sleep_for(int64_t(r.below(5000)) * MS); return;}
  std::string s = "joedb";
  c.i64(s, kind == 2 ? c.number() : 1 << 20);
  c.put(s);
  c.get(30);
  for (int n = int(r.below(6)); n >= 0 && c.ok; n--)
  {
   static const char codes[] = "HIrDFDFrMNOMNOEGL?";
   const char code = codes[r.below(sizeof(codes) - 1)];
   std::string m(1, code);
   const bool cut = r.chance(0.15);
   switch (code)
   {
    case 'H': case 'I':
     c.i64(m, c.number());
     m += c.junk(32);
     if (cut) m.resize(r.below(m.size())), n = 0;
     c.put(m);
     if (!cut) c.get(1);
    break;
    case 'r': case 'D': case 'F':
    {
     c.i64(m, code == 'r' ? c.number() : r.chance(0.8) ? 0 : r.chance(0.5) ? c.number() : 50);
     c.i64(m, c.number());
     if (cut) m.resize(r.below(m.size())), n = 0;
     c.put(m);
     if (!cut && r.chance(0.7))
     {
      const std::string h = c.get(9);
      if (h.size() == 9 && r.chance(0.7)) c.get(size_t(r.below(200)));
     }
    }
    break;
    case 'E': case 'G':
     c.i64(m, 0);
     c.i64(m, r.chance(0.5) ? 41 : c.number());
     c.put(m);
     if (!cut) c.get(9);
     sim::sleep_for(int64_t(r.below(300)) * MS);
    break;
    case 'N': case 'O':
    {
     static const int64_t from[] = {0, 1, -1, 40, INT64_MAX, INT64_MIN, -41, int64_t(1) << 50};
     const int64_t a = from[r.below(8)];
     const int64_t size = r.chance(0.6) ? int64_t(r.below(20000)) : c.number();
     c.i64(m, a);
     c.i64(m, int64_t(uint64_t(a) + uint64_t(size)));
     c.put(m);
     c.put(c.junk(size > 0 && size < 30000 ? (cut ? r.below(uint64_t(size)) : size_t(size)) : r.below(20000)));
     if (cut || size > 30000) n = 0; else c.get(1);
    }
    break;
    default:
     c.put(m);
     if (code == 'M') c.get(1);
    break;
   }
  }
  if (r.chance(0.3)) sim::sleep_for(int64_t(r.below(2000)) * MS);
 }

 struct Hostile: Net
 {
  int attackers = 3;
  void extra(std::vector<sim::Thread *> &threads) override
  {
   auto &w = sim::wl();
   const int n = 1 + int(w.below(uint64_t(attackers)));
   for (int i = 0; i < n; i++)
   {
    auto *node = sim::new_node("attacker" + std::to_string(i), 2);
    node->rates[sim::K_SHORT_SEND] = 0.1;
    const int rounds = 1 + int(w.below(5));
    std::vector<std::pair<int, uint64_t>> plan;
    for (int k = 0; k < rounds; k++)
    {
     plan.push_back({op, w.next() >> 8});
     sim::declare_op(op++, "attacker " + std::to_string(i) + " seed " + std::to_string(plan.back().second));
    }
    const int64_t delay = int64_t(w.below(20000)) * US;
    threads.push_back(sim::spawn(node, node->name, [=, this]()
    {
     if (!await_server()) return;
     sim::sleep_for(delay);
     for (auto &p: plan) if (sim::op_enabled(p.first)) attack_db(sock, p.second);
    }));
   }
   sim::nontrivial();
  }
 };

 // ------------------------------------------------------------------- rpc --
 struct Echo: joedb::rpc::Procedure
 {
  void execute(joedb::Abstract_File &file) const override
  {
   const int64_t size = file.get_size();
   std::string s(size_t(std::min(size, int64_t(100000))), 0);
   file.pread(s.data(), s.size(), 0);
   if (s.size() > 50 && s[50] == 'x') throw joedb::Exception("asked for");
   file.pwrite("reply", 5, size);
  }
 };

 void rpc_hostile()
 {
  quiet_destructors();
  auto &w = sim::wl();
  const std::string sock = "/sim/0/rpc.sock";
  const std::vector<joedb::rpc::Signature> signatures{{"a", std::string(41, 'a')}, {"b", std::string(60, 'b')}};
  Echo echo;
  const std::vector<joedb::rpc::Procedure *> procedures{&echo, &echo};
  const int thread_count = int(w.range(1, 3));
  sim::set_default_latency(int64_t(1 + w.below(50)) * US, int64_t(1 + w.below(5)) * MS);
  bool up = false, stopping = false;
  auto *server_node = sim::new_node("server", 0);
  benign(server_node, 0.003);
  server_node->rates[sim::K_ACCEPT_FAIL] = w.chance(0.5) ? 0.1 : 0;
  auto *server = sim::spawn(server_node, "server", [&]()
  {
   Logger_ logger("server");
   joedb::rpc::Server s(logger, 0, thread_count, sock, signatures, procedures);
   up = true;
   s.join();
   SIM_CHECK(stopping, "server-stopped", "the rpc server stopped without being asked to");
  });
  std::vector<sim::Thread *> threads;
  int op = 0;
  for (int i = int(w.range(1, 3)); i > 0; i--)
  {
   auto *node = sim::new_node("attacker" + std::to_string(i), 2);
   std::vector<std::pair<int, uint64_t>> plan;
   for (int k = 1 + int(w.below(5)); k > 0; k--) {plan.push_back({op, w.next() >> 8}); sim::declare_op(op++, "attack seed " + std::to_string(plan.back().second));}
   threads.push_back(sim::spawn(node, node->name, [=, &up, &signatures]()
   {
    sim::wait_until([&]() {return up;}, 60 * SEC);
    for (auto &p: plan)
    {
     if (!sim::op_enabled(p.first)) continue;
     sim::probe("attacks");
     sim::Rng r(p.second);
     Raw c(sock, r);
     if (r.chance(0.2)) {c.put(c.junk(1 + r.below(100))); continue;}
     std::string s;
     {
      sim::Atomic a;
      const auto hash = joedb::rpc::get_hash(signatures);
      s.assign((const char *)hash.data(), sizeof hash);
     }
     if (r.chance(0.1)) s.resize(r.below(32));
     c.put(s);
     if (s.size() < 32) {sim::sleep_for(int64_t(r.below(2000)) * MS); continue;}
     c.get(9);
     for (int n = 1 + int(r.below(4)); n > 0 && c.ok; n--)
     {
      std::string m = "C";
      c.i64(m, r.chance(0.7) ? int64_t(r.below(5)) : c.number());
      const int64_t until = c.number();
      c.i64(m, until);
      if (r.chance(0.1)) {c.put("?"); break;}
      if (r.chance(0.1)) m.resize(r.below(m.size()));
      c.put(m);
      c.put(c.junk(r.below(9000)));
      if (r.chance(0.5)) break;
      c.get(1);
     }
    }
   }));
  }
  for (int i = 0; i < 2; i++)
  {
   auto *node = sim::new_node("client" + std::to_string(i), 1);
   benign(node, 0.003);
   const int keep_alive = w.chance(0.5) ? int(1 + w.below(40)) : 0;
   std::vector<int> plan;
   for (int k = 1 + int(w.below(6)); k > 0; k--) {plan.push_back(op); sim::declare_op(op++, "honest call");}
   const uint64_t s0 = w.next();
   threads.push_back(sim::spawn(node, node->name, [=, &up, &signatures]()
   {
    sim::wait_until([&]() {return up;}, 60 * SEC);
    sim::Rng r(s0);
    joedb::Local_Connector connector(sock);
    for (int k: plan)
    {
     if (!sim::op_enabled(k)) continue;
     int tries = 0;
     again:
     std::unique_ptr<joedb::Channel> channel;
     std::unique_ptr<joedb::rpc::Client> client;
     try
     {
      channel = connector.new_channel();
      client.reset(new joedb::rpc::Client(*channel, signatures, std::chrono::milliseconds(keep_alive)));
     }
     catch (const std::exception &e)
     {
      // the connection may be the victim of a failed accept
      SIM_CHECK(sim::fault_count(sim::K_ACCEPT_FAIL) > 0 && ++tries < 100, "connect-failed", "honest client cannot connect: %s", e.what());
      sim::sleep_for(200 * MS);
      goto again;
     }
     for (int n = 0; n < 3; n++)
     {
      joedb::Memory_File f;
      const size_t p = r.below(2);
      f.get_data() = signatures[p].prolog + std::string(5, 'q') + std::string(r.below(9000), 'y');
      const size_t size = f.get_data().size();
      try
      {
       client->call(int64_t(p), f);
       SIM_CHECK(f.get_data().size() == size + 5 && f.get_data().substr(size) == "reply", "reply-wrong", "honest client got a wrong reply");
      }
      catch (const std::exception &e)
      {
       sim::fail("call-failed", "call of an honest client failed: %s", e.what());
      }
      sim::probe("honest_calls");
     }
    }
   }));
  }
  sim::nontrivial();
  if (!sim::join(threads, 3600 * SEC)) sim::fail("liveness", "rpc clients did not finish:");
  sim::sleep_for(5 * SEC);
  stopping = true;
  sim::send_signal(server_node, SIGTERM);
  if (!sim::join({server}, 60 * SEC)) sim::fail("liveness", "the rpc server does not stop");
 }
}

SCENARIO(P16, hostile_db, 10)
{
 Hostile n;
 n.k.max_ops = 4;
 n.k.local_writer = 0.2;
 n.run();
}

SCENARIO(P16, hostile_accept, 6)
{
 Hostile n;
 n.k.max_ops = 5;
 n.k.robust = 0.5;
 n.accept_fail = 0.1;
 n.tolerant_connect = true;
 n.attackers = 2;
 n.run();
}

SCENARIO(P16, hostile_rpc, 8) {rpc_hostile();}
