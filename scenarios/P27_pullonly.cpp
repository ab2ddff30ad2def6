// P27: a server on a file that it may only read, or that is connected to such a
// server, serves what the writers of the file commit, and refuses every write.
#include "scenarios/net.h"
using namespace h;

namespace
{
 bool has(const std::string &s, const char *x) {return s.find(x) != std::string::npos;}

 struct Pullonly
 {
  const std::string path = "/sim/0/db.joedb";
  sim::Rng &w = sim::wl();

  // ---------------------------------------------------------------- oracle --
  struct Txn {uint64_t seed; int n; bool ack;};
  std::vector<Txn> log;
  std::string seen;              // what was published so far

  static int64_t published(const std::string &d)
  {
   if (d.size() < 41) return 0;
   int64_t pos[4];
   memcpy(pos, d.data(), 32);
   int64_t r = 41;
   for (int i = 0; i < 2; i++)
   {
    if (pos[2 * i] == pos[2 * i + 1]) r = std::max(r, pos[2 * i]);
    for (int j = 0; j < 2; j++) r = std::max(r, -pos[2 * i + j]);
   }
   return r;
  }

  int64_t committed() const {sim::Atomic a; return published(sim::vfs_content(path));}

  // a local copy is a prefix of what the writers have committed
  void check(const std::string &who, joedb::Abstract_File &file, int64_t checkpoint, int64_t at_least, int64_t &before)
  {
   std::string c(size_t(std::max(int64_t(41), checkpoint) - 41), 0);
   if (!c.empty()) file.pread(c.data(), c.size(), 41);
   sim::Atomic a;
   const std::string d = sim::vfs_content(path);
   const int64_t p = published(d);
   SIM_CHECK(checkpoint >= before, "went-back", "%s: checkpoint %ld, was at %ld", who.c_str(), checkpoint, before);
   SIM_CHECK(checkpoint <= p, "too-far", "%s: checkpoint %ld, the writers have committed %ld", who.c_str(), checkpoint, p);
   SIM_CHECK(checkpoint >= at_least, "stale", "%s: checkpoint %ld after a pull, %ld were committed before", who.c_str(), checkpoint, at_least);
   before = checkpoint;
   if (checkpoint <= 41) return;
   SIM_CHECK(!memcmp(c.data(), d.data() + 41, c.size()), "not-a-prefix", "%s: %zu bytes differ from the file", who.c_str(), c.size());
   sim::probe("copies_checked");
  }

  // --------------------------------------------------------------- writers --
  int op = 0;
  bool shared = true;

  void writer(const std::string &who, std::vector<std::pair<int, Txn>> plan, int64_t pause, bool hard)
  {
   sim::Rng r(plan.empty() ? 1 : plan[0].second.seed);
   joedb::File file(path, shared ? joedb::Open_Mode::shared_write : joedb::Open_Mode::write_existing);
   joedb::Writable_Journal_Client c(file, joedb::Connection::dummy, joedb::Content_Check::fast, joedb::Recovery::overwrite);
   c.set_hard_checkpoint(hard);
   for (auto &[o, t]: plan)
   {
    if (!sim::op_enabled(o)) continue;
    sim::sleep_for(int64_t(r.below(uint64_t(pause))));
    size_t i = 0;
    c.transaction([&](joedb::Writable_Journal &j)
    {
     {sim::Atomic a; i = log.size(); log.push_back(t);}
     apply(j, t.seed, t.n);
     if (r.chance(0.2)) sim::sleep_for(int64_t(r.below(20000)) * US);
    });
    log[i].ack = true;
    sim::probe("transactions_of_writers");
   }
  }

  // --------------------------------------------------------------- servers --
  struct Srv
  {
   std::string name, path, sock, parent;
   bool robust, up = false, stopping = false;
   int keep_alive;
   sim::Node *node = nullptr;
   sim::Thread *thread = nullptr;
  };
  std::deque<Srv> servers;

  void serve(Srv &s)
  {
   Logger_ logger(s.name);
   if (s.parent.empty())
   {
    joedb::File file(s.path, joedb::Open_Mode::read_existing);
    joedb::Readonly_Client client(file);
    joedb::Server server(logger, sim::verbose ? 3 : 0, 1, s.sock, client, std::chrono::milliseconds(0));
    s.up = true;
    server.join();
   }
   else
   {
    joedb::Local_Connector connector(s.parent);
    connector.set_keep_alive_interval(std::chrono::milliseconds(s.keep_alive));
    joedb::File file(s.path, joedb::Open_Mode::shared_write);
    std::unique_ptr<joedb::Channel> channel;
    std::unique_ptr<joedb::Connection> connection;
    if (s.robust) connection.reset(new joedb::Robust_Connection(connector, logger));
    else
    {
     channel = connector.new_channel();
     connection.reset(new joedb::Server_Connection(*channel, logger, connector.get_keep_alive_interval()));
    }
    joedb::Writable_Journal_Client client(file, *connection, joedb::Content_Check::full, joedb::Recovery::overwrite);
    joedb::Server server(logger, sim::verbose ? 3 : 0, 1, s.sock, client, std::chrono::milliseconds(0));
    s.up = true;
    server.join();
   }
   s.up = false;
   SIM_CHECK(s.stopping, "server-stopped", "%s stopped without being asked to", s.name.c_str());
  }

  void start(Srv &s)
  {
   Net::separate_asio();
   sim::vfs_remove(s.sock);
   s.stopping = false;
   s.node = sim::new_node(s.name, s.parent.empty() ? 0 : 10);
   benign(s.node, 0.003);
   s.node->rates[sim::K_SHORT_SEND] = s.node->rates[sim::K_SHORT_RECV] = short_rate;
   s.node->on_crash = [&s]() {s.up = false;};
   s.thread = sim::spawn(s.node, s.name, [this, &s]() {serve(s);});
   if (!sim::wait_until([&]() {return s.up;}, 600 * SEC)) sim::fail("liveness", "%s does not start", s.name.c_str());
  }
  double short_rate = 0;

  void stop(Srv &s)
  {
   s.stopping = true;
   sim::send_signal(s.node, SIGTERM);
   if (!sim::join({s.thread}, 600 * SEC)) sim::fail("liveness", "%s does not stop", s.name.c_str());
  }

  bool all_up() {for (auto &s: servers) if (!s.up) return false; return !servers.empty();}
  int restarts = 0;            // a client may see errors and delays
  bool disturbed() const {return restarts > 0;}
  int pushes = 0;              // attempts: even a refused push ends the pulls that wait

  // --------------------------------------------------------------- clients --
  enum What {PULL, WAIT, WRITE, LOCK, PULL_PUSH, AHEAD, OFFLINE, N_WHAT};
  struct Step {int op; int what; uint64_t seed; int64_t sleep;};
  enum Kind {MEMORY, REPLICA, SERVER_FILE, RAW, N_KIND};

  int64_t bound() const {return disturbed() ? 3600 * SEC : 20 * SEC;}

  void refuse(const std::string &who, joedb::Writable_Journal_Client &c, const Step &s)
  {
   const int64_t t = sim::now();
   bool refused = false;
   std::string m;
   try
   {
    switch (s.what)
    {
     case WRITE: c.transaction([&](joedb::Writable_Journal &j) {apply(j, s.seed, 3);}); break;
     case LOCK: {joedb::Writable_Journal_Client_Lock lock(c); apply(lock.get_journal(), s.seed, 3); lock.checkpoint_and_push_unlock();} break;
     default: c.pull_push(); break;
    }
   }
   catch (const std::exception &e) {refused = true; m = e.what();}
   SIM_CHECK(refused, "write-accepted", "%s: a pull-only server accepted a transaction", who.c_str());
   SIM_CHECK(has(m, "pull-only") || disturbed(), "wrong-refusal", "%s: a transaction on a pull-only server: %s", who.c_str(), m.c_str());
   SIM_CHECK(sim::now() - t <= bound(), "slow-refusal", "%s: the refusal took %.3f s", who.c_str(), double(sim::now() - t) * 1e-9);
   sim::probe("refused_writes");
   sim::nontrivial();
  }

  void client(const std::string &who, Kind kind, size_t server, std::vector<Step> plan, const std::string &replica, bool robust, int keep_alive, joedb::Content_Check check_kind)
  {
   if (!sim::wait_until([this]() {return all_up();}, 600 * SEC)) sim::fail("liveness", "no server");
   Logger_ logger(who);
   size_t p = 0;
   int failures = 0;
   bool diverged = false;
   int64_t before = 0;
   while (p < plan.size())
   {
    if (!sim::wait_until([&]() {return servers[server].up;}, 600 * SEC)) sim::fail("liveness", "no server");
    joedb::Local_Connector connector(servers[server].sock);
    connector.set_keep_alive_interval(std::chrono::milliseconds(keep_alive));
    std::unique_ptr<joedb::Abstract_File> file;
    std::unique_ptr<joedb::Channel> channel;
    std::unique_ptr<joedb::Connection> connection;
    std::unique_ptr<joedb::Writable_Journal_Client> c;
    joedb::Abstract_File *f;
    if (kind != REPLICA) before = 0;
    try
    {
     if (kind == SERVER_FILE)
     {
      auto *sf = new joedb::Server_File(connector, logger);
      connection.reset(sf);
      f = sf;
     }
     else
     {
      if (kind == MEMORY) file.reset(new joedb::Memory_File);
      else file.reset(new joedb::File(replica, joedb::Open_Mode::write_existing_or_create_new));
      f = file.get();
      if (robust) connection.reset(new joedb::Robust_Connection(connector, logger));
      else
      {
       channel = connector.new_channel();
       connection.reset(new joedb::Server_Connection(*channel, logger, connector.get_keep_alive_interval()));
      }
     }
     c.reset(new joedb::Writable_Journal_Client(*f, *connection, check_kind, joedb::Recovery::overwrite));
     SIM_CHECK(c->is_pullonly(), "not-pull-only", "%s: the server does not say that it is pull-only", who.c_str());
     if (diverged)
     {
      // a fast check may miss it, a push may not
      SIM_CHECK(check_kind == joedb::Content_Check::none || c->get_connection_checkpoint() <= before, "mismatch-accepted", "%s: a replica with local changes was accepted by a server that has more", who.c_str());
      bool refused = false;
      pushes++;
      try {c->push_if_ahead();} catch (const std::exception &e) {refused = true; SIM_CHECK(has(e.what(), "pull-only") || has(e.what(), "atch") || disturbed(), "wrong-refusal", "%s: %s", who.c_str(), e.what());}
      SIM_CHECK(refused, "write-accepted", "%s: a pull-only server accepted a push", who.c_str());
      sim::probe("refused_pushes");
     }
    }
    catch (const joedb::Content_Mismatch &e)
    {
     SIM_CHECK(diverged, "content-mismatch", "%s: %s", who.c_str(), e.what());
     sim::probe("refused_replicas");
    }
    catch (const std::exception &e)
    {
     SIM_CHECK(disturbed(), "connect-failed", "%s: cannot connect: %s", who.c_str(), e.what());
     sim::probe("connect_failures");
     c.reset(); connection.reset(); channel.reset(); file.reset();
     sim::sleep_for(10 * MS);
     if (++failures > 2000) sim::fail("liveness", "%s: cannot connect: %s", who.c_str(), e.what());
     continue;
    }
    if (diverged)
    {
     c.reset(); connection.reset(); channel.reset(); file.reset();
     sim::vfs_remove(replica);
     diverged = false;
     before = 0;
     continue;
    }
    try
    {
     while (p < plan.size() && !diverged)
     {
      const Step s = plan[p++];
      if (!sim::op_enabled(s.op)) continue;
      sim::sleep_for(s.sleep);
      const int64_t t = sim::now(), was = committed();
      switch (s.what)
      {
       case PULL:
        c->pull();
        check(who, *f, c->get_journal_checkpoint(), was, before);
        sim::probe("pulls");
       break;

       case WAIT:
       {
        const int64_t ms = int64_t(s.seed % 400);
        const int64_t mine = c->get_journal_checkpoint();
        c->pull(std::chrono::milliseconds(ms));
        const int64_t d = sim::now() - t;
        SIM_CHECK(d <= ms * MS + bound(), "slow-pull", "%s: a pull that waits for %ld ms took %.3f s", who.c_str(), ms, double(d) * 1e-9);
        check(who, *f, c->get_journal_checkpoint(), was, before);
        if (c->get_journal_checkpoint() == mine && !disturbed() && !pushes) SIM_CHECK(d >= ms * MS - MS, "hasty-pull", "%s: a pull that waits for %ld ms and got nothing took %.3f s", who.c_str(), ms, double(d) * 1e-9);
        sim::probe("waiting_pulls");
       }
       break;

       case AHEAD:
        c->push_if_ahead();
        SIM_CHECK(c->get_journal_checkpoint() >= before, "went-back", "%s: went back", who.c_str());
       break;

       case OFFLINE:
       if (kind == REPLICA)
       {
        // changes of the local file, that the server will refuse
        c.reset(); connection.reset(); channel.reset(); file.reset();
        joedb::File local(replica, joedb::Open_Mode::write_existing);
        joedb::Writable_Journal_Client x(local, joedb::Connection::dummy, joedb::Content_Check::fast, joedb::Recovery::overwrite);
        before = x.get_journal_checkpoint();
        x.transaction([&](joedb::Writable_Journal &j) {apply(j, s.seed, 3);});
        diverged = true;
        break;
       }
       [[fallthrough]];

       default:
       {
        const int64_t mine = c->get_journal_checkpoint();
        refuse(who, *c, s);
        SIM_CHECK(c->get_journal_checkpoint() == mine, "refusal-changed", "%s: a refused transaction moved the checkpoint from %ld to %ld", who.c_str(), mine, c->get_journal_checkpoint());
        check(who, *f, mine, 0, before);
       }
      }
     }
     if (p >= plan.size() && !diverged) break;
    }
    catch (const std::exception &e)
    {
     SIM_CHECK(disturbed() && !robust && kind != SERVER_FILE, "operation-failed", "%s: %s", who.c_str(), e.what());
     sim::probe("connection_errors");
     if (++failures > 2000) sim::fail("liveness", "%s: %s", who.c_str(), e.what());
    }
   }
   sim::probe("clients_done");
  }

  // a client that ignores the greeting, and keeps its connection
  void raw(const std::string &who, size_t server, std::vector<Step> plan)
  {
   if (!sim::wait_until([this]() {return all_up();}, 600 * SEC)) sim::fail("liveness", "no server");
   pushes++;
   const int fd = sim::raw_connect(servers[server].sock);
   if (fd < 0) return;
   auto get = [&](size_t n)
   {
    std::string s(n, 0);
    size_t done = 0;
    int silent = 0;
    while (done < n)
    {
     const long k = sim::raw_recv(fd, s.data() + done, n - done);
     if (k < 0 && ++silent < 20) continue;
     if (k <= 0) break;
     done += size_t(k);
    }
    s.resize(done);
    return s;
   };
   auto i64 = [](int64_t x) {return std::string((const char *)&x, 8);};
   auto put = [&](const std::string &s) {return sim::raw_send(fd, s.data(), s.size()) >= 0;};
   put("joedb" + i64(19));
   std::string g = get(30);
   if (g.size() != 30) {SIM_CHECK(disturbed(), "no-greeting", "%s: no greeting", who.c_str()); sim::raw_close(fd); return;}
   SIM_CHECK(g[29] == 'R', "not-pull-only", "%s: greeting with mode '%c'", who.c_str(), g[29]);
   int64_t checkpoint;
   memcpy(&checkpoint, g.data() + 21, 8);
   for (auto &s: plan)
   {
    if (!sim::op_enabled(s.op)) continue;
    sim::sleep_for(s.sleep);
    const bool push = s.seed & 1;
    const char type = char((push ? (s.seed & 2 ? 'N' : 'O') : s.seed & 2 ? 'E' : 'G'));
    std::string m(1, type);
    const size_t n = push ? (s.seed >> 8) % 6000 : 0;
    m += i64(push ? checkpoint : 0) + i64(checkpoint + int64_t(n)) + std::string(n, 'x');
    if (!put(m)) break;
    const std::string r = get(push ? 1 : 9);
    if (r.empty()) {SIM_CHECK(disturbed(), "no-refusal", "%s: no answer to %c", who.c_str(), type); break;}
    SIM_CHECK(r[0] == 'R', "wrong-refusal", "%s: a pull-only server replied '%c' to '%c'", who.c_str(), r[0], type);
    sim::probe("raw_refusals");
    sim::nontrivial();
    if (s.seed & 16)
    {
     put("M");
     const std::string u = get(1);
     SIM_CHECK(u.empty() ? disturbed() : u[0] == 'M' || u[0] == 'R', "wrong-refusal", "%s: reply '%c' to unlock", who.c_str(), u.empty() ? ' ' : u[0]);
     if (u.empty()) break;
    }
   }
   if (plan.empty() || plan[0].seed & 32) sim::sleep_for(5 * SEC);
   sim::raw_close(fd);
  }

  void run(bool with_relays, bool with_restarts)
  {
   quiet_destructors();
   sim::set_default_latency(int64_t(1 + w.below(50)) * US, int64_t(1 + w.below(5)) * MS);
   if (w.chance(0.3)) short_rate = 0.2;
   shared = w.chance(0.7);
   const bool all_robust = with_restarts;
   {
    sim::Atomic a;
    joedb::File file(path, joedb::Open_Mode::create_new);
    joedb::Writable_Journal j(file);
   }
   sim::vfs_on_write([this](const std::string &p)
   {
    if (p != path) return;
    const std::string d = sim::vfs_content(path);
    const int64_t n = published(d);
    const std::string c = n > 41 ? d.substr(41, size_t(n - 41)) : "";
    SIM_CHECK(c.size() >= seen.size() && !memcmp(c.data(), seen.data(), seen.size()), "file-changed", "the file lost what was committed");
    seen = c;
   });

   servers.push_back({"server", path, "/sim/0/server.sock", "", false, false, false, 0});
   if (with_relays)
    for (int i = 1 + int(w.below(2)); i > 0; i--)
     servers.push_back({"relay" + std::to_string(i), "/sim/10/relay" + std::to_string(i) + ".joedb", "/sim/10/relay" + std::to_string(i) + ".sock", servers[w.below(servers.size())].sock, all_robust || w.chance(0.5), false, false, w.chance(0.3) ? int(1 + w.below(50)) : 0});

   std::vector<sim::Thread *> threads, writers;
   struct W {std::string who; std::vector<std::pair<int, Txn>> plan; int64_t pause; bool hard, kill;};
   std::deque<W> ws;
   for (int i = shared ? 1 + int(w.below(3)) : 1; i > 0; i--)
   {
    W x{"writer" + std::to_string(i), {}, int64_t(1 + w.below(60)) * MS, w.chance(0.3), w.chance(0.4)};
    for (int k = int(w.below(12)); k > 0; k--)
    {
     x.plan.push_back({op, {w.next(), 1 + int(w.below(10)), false}});
     sim::declare_op(op++, x.who + " transaction " + std::to_string(x.plan.back().second.seed));
    }
    ws.push_back(x);
   }
   for (auto &x: ws)
    threads.push_back(sim::spawn(sim::new_node("operator of " + x.who, 9), "operator of " + x.who, [this, &x]()
    {
     sim::Rng r(uint64_t(x.pause) + x.plan.size());
     auto *node = sim::new_node(x.who, 0);
     benign(node, 0.003);
     auto *t = sim::spawn(node, x.who, [this, &x]() {writer(x.who, x.plan, x.pause, x.hard);});
     if (x.kill)
     {
      sim::sleep_for(int64_t(r.below(uint64_t(x.pause) * 6)));
      if (!sim::finished(t)) {sim::crash(node); sim::probe("writers_killed"); sim::nontrivial();}
     }
     else if (!sim::join({t}, 3600 * SEC)) sim::fail("liveness", "%s does not finish", x.who.c_str());
    }));

   threads.push_back(sim::spawn(sim::new_node("operator", 9), "operator", [this, with_restarts]()
   {
    for (auto &s: servers) start(s);
    if (!with_restarts) return;
    sim::Rng r(sim::seed());
    for (int n = 1 + int(r.below(3)); n > 0; n--)
    {
     sim::sleep_for(int64_t(r.below(80000)) * US);
     Srv &s = servers[r.below(servers.size())];
     restarts++;
     if (r.chance(0.5)) {sim::crash(s.node); sim::probe("server_kills");} else {stop(s); sim::probe("server_stops");}
     if (r.chance(0.3)) sim::sleep_for(int64_t(r.below(3000)) * MS);
     start(s);
     sim::nontrivial();
    }
   }));
   if (with_restarts) restarts++;

   for (int i = 1 + int(w.below(4)); i > 0; i--)
   {
    const Kind kind = Kind(w.below(N_KIND));
    static const char *const names[] = {"memory", "replica", "server_file", "raw"};
    const std::string who = std::string(names[kind]) + std::to_string(i), replica = "/sim/1/" + who + ".joedb";
    const size_t server = w.below(servers.size());
    std::vector<Step> plan;
    for (int k = 1 + int(w.below(10)); k > 0; k--)
    {
     Step s{op, int(w.below(N_WHAT)), w.next(), w.chance(0.6) ? int64_t(w.below(30000)) * US : 0};
     if (w.chance(0.3)) s.what = PULL;
     plan.push_back(s);
     sim::declare_op(op++, who + " at " + servers[server].name + " step " + std::to_string(s.what) + " seed " + std::to_string(s.seed));
    }
    auto *node = sim::new_node(who, 1);
    benign(node, 0.003);
    node->rates[sim::K_SHORT_SEND] = node->rates[sim::K_SHORT_RECV] = short_rate;
    const bool robust = all_robust || w.chance(0.4);
    const int keep_alive = w.chance(0.3) ? int(1 + w.below(50)) : 0;
    const auto ck = w.chance(0.5) ? joedb::Content_Check::full : joedb::Content_Check::fast;
    threads.push_back(sim::spawn(node, who, [=, this]()
    {
     if (kind == RAW) raw(who, server, plan);
     else client(who, kind, server, plan, replica, robust, keep_alive, ck);
    }));
   }
   if (!sim::join(threads, 7200 * SEC)) sim::fail("liveness", "the clients of a pull-only server do not finish:");

   // everything is still served
   for (size_t i = 0; i < servers.size(); i++)
   {
    auto *t = sim::spawn(sim::new_node("last", 2), "last", [this, i]()
    {
     Logger_ logger("last");
     joedb::Local_Connector connector(servers[i].sock);
     auto channel = connector.new_channel();
     joedb::Server_Connection connection(*channel, logger, std::chrono::milliseconds(0));
     joedb::Memory_File f;
     joedb::Writable_Journal_Client c(f, connection);
     const int64_t was = committed();
     int64_t before = 0;
     c.pull();
     check("last client of " + servers[i].name, f, c.get_journal_checkpoint(), was, before);
    });
    if (!sim::join({t}, 60 * SEC)) sim::fail("liveness", "the last client of %s does not finish", servers[i].name.c_str());
   }
   for (auto s = servers.rbegin(); s != servers.rend(); ++s) stop(*s);

   // the file is what its writers wrote
   sim::Atomic a;
   const Read_Result r = read_bytes(sim::vfs_content(path));
   SIM_CHECK(r.ok, "file-unreadable", "the file cannot be read: %s", r.error.c_str());
   size_t pos = 0;
   for (auto &t: log)
   {
    const Events e = events_of(t.seed, t.n);
    const bool found = pos + e.size() <= r.e.size() && std::equal(e.begin(), e.end(), r.e.begin() + std::ptrdiff_t(pos));
    if (found) pos += e.size();
    SIM_CHECK(found || !t.ack, "transaction-lost", "an acknowledged transaction of a writer is not in the file");
   }
   SIM_CHECK(pos == r.e.size(), "unknown-data", "the file has data that was not written by its writers: %s", r.e[pos].c_str());
  }
 };
}

SCENARIO(P27, pullonly, 10) {Pullonly p; p.run(false, false);}
SCENARIO(P27, pullonly_relay, 10) {Pullonly p; p.run(true, false);}
SCENARIO(P27, pullonly_restart, 8) {Pullonly p; const bool r = p.w.chance(0.6); p.run(r, true);}
