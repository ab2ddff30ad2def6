// P22: servers connected to other servers: what a server acknowledges is in the
// server that it is connected to, and all replicas of the tree have one history.
#include "scenarios/net.h"
using namespace h;

namespace
{
 int64_t published(const std::string &d)
 {
  if (d.size() < 41) return 0;
  int64_t pos[4];
  memcpy(pos, d.data(), 32);
  int64_t r = 41;
  for (int i = 0; i < 2; i++)
  {
   if (pos[2 * i] == pos[2 * i + 1]) r = std::max(r, pos[2 * i]);
   for (int j = 0; j < 2; j++) r = std::max(r, -pos[2 * i + j]);
  }
  return r;
 }

 enum Kind {SHARED, EXCLUSIVE, MEMORY, SERVER_FILE};
 const char *const kind_names[] = {"shared file", "file", "memory", "server file"};

 // one server that is a client of another one
 struct Relay
 {
  Kind kind;
  std::string name, path, sock, parent;
  bool robust, up = false, stopping = false, lossy = false;
  int keep_alive;
  joedb::Content_Check check = joedb::Content_Check::fast;
  sim::Node *node = nullptr;
  sim::Thread *thread = nullptr;

  void process()
  {
   while (true)
   {
    try {serve(); return;}
    catch (const std::exception &e)
    {
     // unpushed data conflict with what others have pushed: somebody deletes the file
     const bool conflict = dynamic_cast<const joedb::Content_Mismatch *>(&e) || std::string(e.what()).find("conflict") != std::string::npos;
     // it may also fail because somebody else has the lock
     const bool closed = std::string(e.what()).find("End of file") != std::string::npos || std::string(e.what()).find("reset") != std::string::npos || std::string(e.what()).find("Broken pipe") != std::string::npos;
     if (!lossy || up || !(conflict || closed)) throw;
     sim::vfs_remove(sock);
     sim::sleep_for(10 * MS);
     sim::probe("relay_start_failures");
     if (!conflict || !has_file()) continue;
     sim::vfs_remove(path);
     forget();
     sim::probe("relay_files_discarded");
    }
   }
  }
  std::function<void()> forget;

  void serve()
  {
   Logger_ logger(name);
   joedb::Local_Connector connector(parent);
   connector.set_keep_alive_interval(std::chrono::milliseconds(keep_alive));
   std::unique_ptr<joedb::Abstract_File> file;
   std::unique_ptr<joedb::Channel> channel;
   std::unique_ptr<joedb::Connection> connection;
   joedb::Abstract_File *f;
   if (kind == SERVER_FILE)
   {
    auto *sf = new joedb::Server_File(connector, logger);
    connection.reset(sf);
    f = sf;
   }
   else
   {
    if (kind == MEMORY) file.reset(new joedb::Memory_File);
    else file.reset(new joedb::File(path, kind == SHARED ? joedb::Open_Mode::shared_write : joedb::Open_Mode::write_existing_or_create_new));
    f = file.get();
    if (robust) connection.reset(new joedb::Robust_Connection(connector, logger));
    else
    {
     channel = connector.new_channel();
     connection.reset(new joedb::Server_Connection(*channel, logger, connector.get_keep_alive_interval()));
    }
   }
   {
    joedb::Writable_Journal_Client client(*f, *connection, check, kind == SHARED || kind == EXCLUSIVE ? joedb::Recovery::overwrite : joedb::Recovery::none);
    joedb::Server server(logger, sim::verbose ? 3 : 0, 1, sock, client, std::chrono::milliseconds(0));
    up = true;
    server.join();
    up = false;
   }
   if (node == sim::self_node()) SIM_CHECK(stopping, "server-stopped", "%s stopped without being asked to", name.c_str());
  }

  void start(double short_rate, double reset)
  {
   Net::separate_asio();
   sim::vfs_remove(sock);
   stopping = false;
   node = sim::new_node(name, 10);
   benign(node, 0.003);
   node->rates[sim::K_SHORT_SEND] = node->rates[sim::K_SHORT_RECV] = short_rate;
   node->rates[sim::K_CONN_RESET] = reset;
   node->on_crash = [this]() {up = false;};
   thread = sim::spawn(node, name, [this]() {process();});
  }

  void stop()
  {
   if (sim::finished(thread)) return;
   stopping = true;
   sim::send_signal(node, SIGTERM);
   if (!sim::join({thread}, 600 * SEC)) sim::fail("liveness", "%s does not stop", name.c_str());
  }

  bool has_file() const {return kind == SHARED || kind == EXCLUSIVE;}

  // bytes that readers of the replica see
  std::string committed() const
  {
   if (!has_file() || !sim::vfs_exists(path)) return "";
   const std::string d = sim::vfs_content(path);
   const int64_t c = published(d);
   if (c <= 41) return "";
   SIM_CHECK(int64_t(d.size()) >= c, "relay-torn", "%s publishes %ld bytes but has %zu", name.c_str(), c, d.size());
   return d.substr(41, size_t(c - 41));
  }
 };

 // The tree: the origin is the server of Net; clients use any server.
 struct Tree: Net
 {
  std::deque<Relay> relays;
  bool lossy = false;           // a server that was disconnected may diverge
  bool exclusive = false;       // one relay keeps the lock of the origin: all clients are below it
  double relay_reset = 0, restart = 0, kill = 0;
  int planned = 0;
  std::vector<std::string> sockets;

  void configure(sim::Rng &w) override
  {
   // a plain connection that was lost is lost for good: robust clients would try forever
   const bool all_robust = w.chance(0.5);
   if (lossy && !all_robust) k.robust = 0;
   planned = 1 + int(w.below(2 + uint64_t(sim::thorough())));
   sockets.push_back(sock);
   for (int i = 0; i < planned; i++)
   {
    Relay r;
    // a relay that keeps the lock of its parent: all the clients are below it
    const bool keeps = exclusive && (i == 0 || (relays.back().kind != SHARED && (restart > 0 || w.chance(0.4))));
    r.kind = !keeps ? SHARED : i > 0 && restart > 0 ? EXCLUSIVE : Kind(1 + w.below(3));
    if (keeps) origin_of_clients = i;
    r.name = "relay" + std::to_string(i);
    r.path = "/sim/10/" + r.name + ".joedb";
    r.sock = "/sim/10/" + r.name + ".sock";
    r.parent = exclusive ? sockets.back() : w.pick(sockets);
    r.robust = lossy ? all_robust : w.chance(0.5);
    r.lossy = lossy;
    r.forget = [this, p = r.path]() {last.erase(p);};
    r.keep_alive = w.chance(0.3) ? int(1 + w.below(50)) : 0;
    r.check = w.chance(0.5) ? joedb::Content_Check::fast : joedb::Content_Check::full;
    sockets.push_back(r.sock);
    relays.push_back(r);
    sim::note("%s: %s, connected to %s", r.name.c_str(), kind_names[r.kind], r.parent.c_str());
   }
   if (exclusive) sockets.erase(sockets.begin(), sockets.begin() + origin_of_clients + 1);
   if (restart > 0 || kill > 0) disturbed_later = true;
  }
  bool disturbed_later = false;
  int origin_of_clients = 0;

  std::string choose_socket(sim::Rng &w) override {return w.pick(sockets);}

  bool ready() override
  {
   if (!server_up) return false;
   for (auto &r: relays) if (!r.up) return false;
   return true;
  }

  // every write to a replica: what it publishes is in its parent (or about to be,
  // for the data that its own clients are pushing)
  void watch(const std::string &p)
  {
   for (auto &r: relays)
    if (p == r.path)
    {
     const std::string c = r.committed();
     SIM_CHECK(c.size() >= last[p].size() && !memcmp(c.data(), last[p].data(), last[p].size()), "relay-regress", "%s: what it publishes (%zu bytes) is not an extension of what it has published (%zu bytes)", r.name.c_str(), c.size(), last[p].size());
     last[p] = c;
     sim::probe("relay_checks");
    }
  }
  std::map<std::string, std::string> last;

  void extra(std::vector<sim::Thread *> &threads) override
  {
   if (disturbed_later) disturbed = true;
   sim::vfs_on_write([this](const std::string &p) {if (p == path) check_immutable(); else watch(p);});
   auto *node = sim::new_node("operator", 9);
   threads.push_back(sim::spawn(node, "operator", [this]() {operate();}));
   if (exclusive && sim::wl().chance(0.6))
   {
    // somebody reads the origin
    auto *reader = sim::new_node("reader", 11);
    const int n = 1 + int(sim::wl().below(6));
    const uint64_t seed = sim::wl().next();
    threads.push_back(sim::spawn(reader, "reader", [=, this]() {read_origin(n, seed);}));
   }
  }

  void read_origin(int n, uint64_t seed)
  {
   if (!await_server()) return;
   sim::Rng r(seed);
   Logger_ logger("reader");
   joedb::Local_Connector connector(sock);
   auto channel = connector.new_channel();
   joedb::Server_Connection connection(*channel, logger, std::chrono::milliseconds(0));
   joedb::Memory_File file;
   joedb::Writable_Journal_Client c(file, connection);
   for (int i = 0; i < n; i++)
   {
    sim::sleep_for(int64_t(r.below(40000)) * US);
    const uint64_t before = sim::step();
    c.pull();
    check_replica("reader", file, c.get_journal_checkpoint(), before);
    sim::probe("origin_reads");
   }
  }

  void operate()
  {
   if (!sim::wait_until([this]() {return server_up;}, 600 * SEC)) return;
   for (auto &r: relays)
   {
    r.start(short_rate, relay_reset);
    if (!sim::wait_until([&]() {return r.up;}, 600 * SEC)) sim::fail("liveness", "%s does not start", r.name.c_str());
   }
   sim::nontrivial();
   auto &w = sim::wl();
   int n = w.chance(restart) ? 1 + int(w.below(3)) : 0;
   while (n-- > 0)
   {
    sim::sleep_for(int64_t(w.below(60000)) * US);
    const size_t i = w.below(relays.size());
    restart_relay(i);
    // the ones that keep a lock below must be restarted as well
    if (!lossy)
     for (size_t j = i + 1; j < relays.size(); j++) restart_relay(j);
   }
  }

  void restart_relay(size_t i)
  {
    auto &w = sim::wl();
    Relay &r = relays[i];
    if (w.chance(kill)) {sim::crash(r.node); sim::probe("relay_kills");}
    else {r.stop(); sim::probe("relay_stops");}
    if (w.chance(0.3)) sim::sleep_for(int64_t(w.below(3000)) * MS);
    r.start(short_rate, relay_reset);
    if (!sim::wait_until([&]() {return r.up;}, 600 * SEC)) sim::fail("liveness", "%s does not start again", r.name.c_str());
  }

  // A replica that has diverged is made of complete transactions, and nothing
  // of the history of the origin follows what the origin does not have.
  Events origin_events() const
  {
   const std::string d = sim::vfs_content(path);
   const int64_t n = published(d);
   Recorder rec;
   if (n <= 41) return rec.e;
   joedb::Memory_File m;
   m.get_data() = d.substr(0, size_t(n));
   joedb::Readonly_Journal j(joedb::Journal_Construction_Lock(m, joedb::Recovery::ignore_header));
   j.rewind();
   j.raw_play_until(rec, n);
   return rec.e;
  }

  std::string transactions(const Events &e, std::vector<size_t> &v) const
  {
   size_t pos = 0;
   while (pos < e.size())
   {
    bool found = false;
    for (size_t i = 0; !found && i < log.t.size(); i++)
    {
     const auto &x = log.t[i].e;
     found = !x.empty() && pos + x.size() <= e.size() && std::equal(x.begin(), x.end(), e.begin() + std::ptrdiff_t(pos));
     if (found) {v.push_back(i); pos += x.size();}
    }
    if (!found) return "event " + std::to_string(pos) + " belongs to no transaction, or to one that is torn: \"" + e[pos] + "\"";
   }
   return "";
  }

  std::string explain(const Events &e, uint64_t before) override
  {
   const std::string r = Net::explain(e, before);
   if (r.empty() || !lossy) return r;
   std::vector<size_t> a, b;
   std::string x = transactions(e, a);
   if (!x.empty()) return x;
   x = transactions(origin_events(), b);
   if (!x.empty()) return "origin: " + x;
   size_t i = 0;
   while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
   sim::probe(i < a.size() ? "diverged_replicas" : "late_replicas");
   for (size_t j = i; j < a.size(); j++)
    for (size_t k = i; k < b.size(); k++)
     if (a[j] == b[k]) return "transaction " + std::to_string(a[j]) + " of the origin was added to a replica that differs from the origin at transaction " + std::to_string(a[i]);
   return "";
  }

  bool database_is_known() override {return !lossy;}

  // what is acknowledged is in the origin
  void committed_to(int64_t checkpoint) override
  {
   sim::Atomic a;
   const std::string c = sim::vfs_content(path);
   SIM_CHECK(published(c) >= checkpoint, "not-in-origin", "a transaction that ends at %ld was acknowledged, the origin has %ld bytes", checkpoint, published(c));
   Net::committed_to(checkpoint);
   sim::probe("acknowledged_in_origin");
  }

  void before_stop() override
  {
   // restart what may be disconnected, so that everything is pushed
   if (disturbed) for (auto &r: relays)
   {
    r.stop();
    r.start(0, 0);
    if (!sim::wait_until([&]() {return r.up;}, 600 * SEC)) sim::fail("liveness", "%s does not start at the end", r.name.c_str());
   }
   for (auto r = relays.rbegin(); r != relays.rend(); ++r) r->stop();
   sim::Atomic a;
   const std::string d = sim::vfs_exists(path) ? sim::vfs_content(path) : "";
   const int64_t n = published(d);
   const std::string o = n > 41 ? d.substr(41, size_t(n - 41)) : "";
   for (auto &r: relays)
   {
    if (!r.has_file() || lossy) continue;
    const std::string c = r.committed();
    SIM_CHECK(c.size() <= o.size() && !memcmp(c.data(), o.data(), c.size()), "relay-diverged", "at the end, %s has %zu bytes which are not a prefix of the %zu bytes of the origin", r.name.c_str(), c.size(), o.size());
    if (exclusive && r.kind == EXCLUSIVE) SIM_CHECK(c.size() == o.size(), "relay-incomplete", "at the end, %s has %zu bytes, the origin %zu", r.name.c_str(), c.size(), o.size());
    sim::probe("final_relay_checks");
   }
  }
 };
}

SCENARIO(P22, tree_calm, 10)
{
 Tree t;
 t.k.max_clients = 4;
 t.k.local_writer = 0.3;
 t.k.wait_pull = 0.1;
 t.run();
}

SCENARIO(P22, backup_calm, 8)
{
 Tree t;
 t.exclusive = true;
 t.k.shared = 0.3;
 t.run();
}

SCENARIO(P22, backup_restart, 8)
{
 Tree t;
 t.exclusive = true;
 t.k.robust = 0.5;
 t.restart = 0.8;
 t.kill = 0.5;
 t.k.kill_client = 0.2;
 t.run();
}

SCENARIO(P22, tree_lost, 8)
{
 Tree t;
 t.lossy = true;
 t.k.max_clients = 4;
 t.k.robust = 0.5;
 t.restart = 0.8;
 t.kill = 0.5;
 t.k.kill_client = 0.2;
 t.run();
}
