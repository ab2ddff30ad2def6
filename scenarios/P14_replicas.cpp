// P14: a replica that differs from the server is always detected, and never
// when it does not differ.  Offline changes are pushed entirely, or refused.
#include "scenarios/net.h"
#include "joedb/concurrency/File_Connection.h"
using namespace h;

namespace
{
 struct Replicas: Net
 {
  void configure(sim::Rng &) override {}
 };

 // the journal made of these pieces
 std::string build(const std::vector<uint64_t> &seeds, const std::vector<int> &n)
 {
  joedb::Memory_File f;
  {
   joedb::Writable_Journal j(f);
   for (size_t i = 0; i < seeds.size(); i++) for (auto &o: raw_ops(seeds[i], n[i])) o(j);
   j.soft_checkpoint();
   j.hard_checkpoint();
  }
  return f.get_data();
 }

 void handshakes()
 {
  quiet_destructors();
  auto &w = sim::wl();
  std::vector<uint64_t> seeds;
  std::vector<int> counts;
  const int n = int(w.below(6));
  for (int i = 0; i < n; i++) {seeds.push_back(w.next() >> 20); counts.push_back(int(w.below(8)));}
  std::string big;
  if (w.chance(0.3)) big.assign(w.chance(0.15) && sim::thorough() ? size_t(4 << 20) + w.below(1 << 20) : size_t(w.below(300000)), 'b');
  const std::string content = [&]()
  {
   joedb::Memory_File f;
   {
    joedb::Writable_Journal j(f);
    for (int i = 0; i < n; i++)
    {
     for (auto &o: raw_ops(seeds[size_t(i)], counts[size_t(i)])) o(j);
     if (i == n / 2 && !big.empty()) {sim::Rng r(w.next()); for (auto &c: big) c = char(r.next()); j.write_blob(big);}
    }
    j.soft_checkpoint();
    j.hard_checkpoint();
   }
   return f.get_data();
  }();
  const std::string server_path = "/sim/0/s.joedb", sock = "/sim/0/s.sock";
  sim::vfs_put(server_path, content);
  const double shorts = w.chance(0.6) ? 0.2 : 0;

  auto *server_node = sim::new_node("server", 0);
  benign(server_node, 0.003);
  server_node->rates[sim::K_SHORT_READ] = shorts;
  bool up = false;
  auto *server = sim::spawn(server_node, "server", [&]()
  {
   Logger_ logger("server");
   joedb::File file(server_path, joedb::Open_Mode::write_existing);
   joedb::Writable_Journal_Client client(file);
   joedb::Server s(logger, 0, 1, sock, client, std::chrono::milliseconds(0));
   up = true;
   s.join();
  });

  std::vector<sim::Thread *> threads;
  const int clients = int(w.range(1, 3));
  int op = 0;
  for (int c = 0; c < clients; c++)
  {
   const std::string who = "c" + std::to_string(c);
   struct Case {int op; std::string replica; bool equal; int64_t min; size_t diff; bool full; int kind;};
   std::vector<Case> cases;
   for (int k = 1 + int(w.below(4)); k > 0; k--)
   {
    Case x;
    x.op = op++;
    x.full = w.chance(0.5);
    x.kind = int(w.below(3)); // plain connection, robust connection, file connection
    // same beginning, then possibly something else
    std::vector<uint64_t> s2 = seeds;
    std::vector<int> c2 = counts;
    const char *how;
    if (w.chance(0.5) || !big.empty())
    {
     // cut or extend, then perhaps change one byte
     std::string d = content;
     how = "same";
     if (w.chance(0.3) && big.empty() && n > 0)
     {
      const size_t keep = w.below(uint64_t(n));
      s2.resize(keep); c2.resize(keep);
      d = build(s2, c2);
      how = "shorter";
     }
     else if (w.chance(0.3) && big.empty())
     {
      s2.push_back(w.next() >> 20); c2.push_back(3);
      d = build(s2, c2);
      how = "longer";
     }
     if (w.chance(0.5) && d.size() > 41)
     {
      const size_t at = w.chance(0.2) ? d.size() - 1 : w.chance(0.2) ? 41 : 41 + w.below(d.size() - 41);
      d[at] = char(d[at] ^ (1 << w.below(8)));
      how = "one bit changed";
     }
     x.replica = d;
    }
    else
    {
     if (n > 0) {const size_t at = w.below(uint64_t(n)); s2[at] ^= 1; if (w.chance(0.5)) s2.resize(at + 1), c2.resize(at + 1);}
     else {s2.push_back(w.next() >> 20); c2.push_back(2);}
     x.replica = build(s2, c2);
     how = "another transaction";
    }
    x.min = int64_t(std::min(content.size(), x.replica.size()));
    x.equal = true;
    x.diff = 0;
    for (size_t i = 41; i < size_t(x.min) && x.equal; i++) if (content[i] != x.replica[i]) {x.equal = false; x.diff = i;}
    static const char *const kinds[] = {"plain", "robust", "file"};
    sim::declare_op(x.op, who + " " + kinds[x.kind] + (x.full ? " full" : " fast") + " check, replica of " + std::to_string(x.replica.size()) + " bytes, " + how + (x.equal ? "" : ", differs at " + std::to_string(x.diff)));
    cases.push_back(std::move(x));
   }
   auto *node = sim::new_node(who, 1 + c);
   benign(node, 0.003);
   node->rates[sim::K_SHORT_READ] = shorts;
   node->rates[sim::K_SHORT_SEND] = node->rates[sim::K_SHORT_RECV] = shorts;
   sim::vfs_put("/sim/" + std::to_string(1 + c) + "/copy.joedb", content);
   threads.push_back(sim::spawn(node, who, [=, &up]()
   {
    sim::wait_until([&]() {return up;}, 60 * SEC);
    Logger_ logger(who);
    const std::string dir = "/sim/" + std::to_string(1 + c) + "/";
    for (auto &x: cases)
    {
     if (!sim::op_enabled(x.op)) continue;
     const std::string path = dir + std::to_string(x.op) + ".joedb";
     sim::vfs_put(path, x.replica);
     bool mismatch = false;
     try
     {
      joedb::File file(path, joedb::Open_Mode::write_existing);
      const joedb::Content_Check check = x.full ? joedb::Content_Check::full : joedb::Content_Check::fast;
      if (x.kind == 2)
      {
       joedb::File copy(dir + "copy.joedb", joedb::Open_Mode::read_existing);
       joedb::Readonly_Journal j(copy);
       joedb::Pullonly_Journal_Connection connection(j);
       joedb::Writable_Journal_Client client(file, connection, check);
       if (x.equal) client.pull();
      }
      else
      {
       joedb::Local_Connector connector(sock);
       std::unique_ptr<joedb::Channel> channel;
       std::unique_ptr<joedb::Connection> connection;
       if (x.kind == 1) connection.reset(new joedb::Robust_Connection(connector, logger));
       else
       {
        channel = connector.new_channel();
        connection.reset(new joedb::Server_Connection(*channel, logger));
       }
       joedb::Writable_Journal_Client client(file, *connection, check);
       if (x.equal) client.pull();
      }
     }
     catch (const joedb::Content_Mismatch &) {mismatch = true;}
     sim::Atomic a;
     SIM_CHECK(!mismatch || !x.equal, "false-mismatch", "%s: a replica with the same content was refused", who.c_str());
     // the fast check of a large file only looks at samples
     const bool sampled = !x.full && x.min - 41 >= (x.kind == 2 ? 4096 - 41 : 4 << 20);
     const bool seen = x.kind == 2 && sampled ? x.diff < 2048 || int64_t(x.diff) >= x.min - 2048 : !sampled || x.diff < 41 + 4096 || int64_t(x.diff) >= x.min - 4096;
     SIM_CHECK(x.equal || !seen || mismatch, "mismatch-missed", "%s: a replica that differs at byte %zu of %ld was accepted", who.c_str(), x.diff, x.min);
     if (x.equal)
     {
      const std::string d = sim::vfs_content(path);
      const std::string &longest = content.size() > x.replica.size() ? content : x.replica;
      SIM_CHECK(d.size() >= longest.size() && memcmp(d.data() + 41, longest.data() + 41, longest.size() - 41) == 0, "pull-wrong", "%s: the replica after pulling is not what it should be", who.c_str());
     }
     else SIM_CHECK(sim::vfs_content(path).substr(41) == x.replica.substr(41), "replica-modified", "%s: a refused replica was modified", who.c_str());
     sim::nontrivial();
     sim::probe(x.equal ? "same_content" : "different_content");
     if (shorts > 0) sim::probe("handshakes_with_short_reads");
    }
   }));
  }
  if (!sim::join(threads, 3600 * SEC)) sim::fail("liveness", "clients did not finish:");
  sim::send_signal(server_node, SIGTERM);
  if (!sim::join({server}, 60 * SEC)) sim::fail("liveness", "the server does not stop");
  sim::Atomic a;
  SIM_CHECK(sim::vfs_content(server_path).substr(41) == content.substr(41), "server-modified", "the server file was modified");
 }
}

SCENARIO(P14, handshake, 10) {handshakes();}

SCENARIO(P14, offline, 10)
{
 Replicas n;
 n.k.persistent = 1;
 n.k.offline = 0.35;
 n.k.local_writer = 0.2;
 n.k.hold = 0.2;
 n.k.pull_push = 0.1;
 n.k.valid_data = 0.2;
 n.k.robust = 0.3;
 n.k.max_ops = 8;
 n.run();
}

SCENARIO(P14, offline_faults, 8)
{
 Replicas n;
 n.k.persistent = 1;
 n.k.offline = 0.35;
 n.k.reset = 0.01;
 n.k.stall = 0.005;
 n.k.kill_client = 0.2;
 n.k.stop_server = 0.2;
 n.k.kill_server = 0.2;
 n.k.lock_timeout = 0.2;
 n.k.robust = 0.3;
 n.k.max_ops = 8;
 n.run();
}

SCENARIO(P14, shared_replica, 8)
{
 Replicas n;
 n.k.min_clients = 2;
 n.k.max_clients = 4;
 n.k.shared_replica = 0.7;
 n.k.pull_push = 0.1;
 n.k.valid_data = 0.2;
 n.k.hold = 0.2;
 n.k.local_writer = 0.2;
 n.k.wait_pull = 0.2;
 n.run();
}
