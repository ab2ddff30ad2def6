// P06: I/O errors and full disks never damage what was committed, and are never
// mistaken for success.
#include "scenarios/net.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Readonly_Database_Client.h"
using namespace h;

namespace
{
 struct Knobs
 {
  int max_writers = 1;
  int readers = 0;
  bool clients = true;     // clients, or a journal used directly
 };

 struct IO
 {
  Knobs k;
  std::string path = "/sim/0/io.joedb";
  Txn_Log log;
  std::vector<bool> hard;  // by transaction: acknowledged as durable
  bool db_mode = false;
  int op = 0;
  int errors = 0;

  void set_rates(sim::Node *n, double p)
  {
   auto &w = sim::wl();
   benign(n, 0.01);
   static const sim::Kind kinds[] = {sim::K_EIO_WRITE, sim::K_ENOSPC, sim::K_EIO_SYNC, sim::K_EIO_READ, sim::K_EIO_LOCK};
   for (auto x: kinds) n->rates[x] = w.chance(0.5) ? p : 0;
  }

  void error(const std::exception &e)
  {
   sim::Atomic a;
   errors++;
   sim::nontrivial();
   sim::probe("reported_errors");
   static const char *const words[] = {"writing file", "reading file", "syncing file", "write-locking file", "read-locking file", "opening ", "locking "};
   for (auto x: words) if (!strncmp(e.what(), x, strlen(x))) return;
   sim::fail("unexpected-error", "an error that is not an I/O error: %s", e.what());
  }

  // Nobody keeps a lock during the idle periods of a client that had an error.
  void check_time(int64_t since)
  {
   const int64_t d = sim::now() - since;
   SIM_CHECK(d < 20 * SEC, "blocked", "a transaction took %.3f s while the other processes that use the file were idle", double(d) / 1e9);
  }

  void mark_hard(size_t i)
  {
   sim::Atomic a;
   hard.resize(log.t.size());
   // a hard checkpoint covers everything before it
   for (size_t n = 0; n <= i; n++) if (log.t[n].state == St::acked) hard[n] = true;
   sim::probe("hard_acks");
  }

  struct Plan {int op; uint64_t seed; int n; int how; int64_t sleep; bool give_up;};

  // a journal used directly: the checkpoint is tried again until it works
  void journal_writer(const std::string &who, const std::vector<Plan> &plan, bool shared)
  {
   size_t p = 0;
   int opens = 0;
   while (p < plan.size())
   {
    size_t i = SIZE_MAX;
    bool writing = false;
    try
    {
     joedb::File file(path, shared ? joedb::Open_Mode::shared_write : joedb::Open_Mode::write_existing_or_create_new);
     joedb::Writable_Journal j(joedb::Journal_Construction_Lock(file, joedb::Recovery::overwrite));
     for (; p < plan.size();)
     {
      const Plan &q = plan[p];
      if (!sim::op_enabled(q.op)) {p++; continue;}
      if (q.sleep) sim::sleep_for(q.sleep);
      const int64_t since = sim::now();
      joedb::Tail_Exclusive_Lock lock(j);
      check_time(since);
      if (j.get_position() != j.get_checkpoint()) j.skip_directly_to(j.get_checkpoint());
      p++;
      const Ops ops = raw_ops(q.seed, q.n);
      i = log.begin(who, ops);
      writing = true;
      for (auto &o: ops) o(j);
      writing = false;
      // soft, hard, both; again when it fails
      for (int tries = 0;; tries++)
      {
       try
       {
        if (q.how != 1) j.soft_checkpoint();
        if (q.how >= 1) j.hard_checkpoint();
        break;
       }
       catch (const std::exception &e)
       {
        error(e);
        if (q.give_up || tries > 3) throw;
       }
      }
      log.ack(i);
      if (q.how >= 1) mark_hard(i);
      i = SIZE_MAX;
     }
    }
    catch (const std::exception &e)
    {
     error(e);
     if (i != SIZE_MAX) {if (writing) log.abort(i); else log.doubt(i);}
     if (++opens >= 30) sim::self_node()->quiet = true; // faults stop
     SIM_CHECK(opens < 60, "liveness", "cannot write: %s", e.what());
    }
   }
  }

  void client_writer(const std::string &who, const std::vector<Plan> &plan, bool shared, int kind, bool hard_checkpoint)
  {
   size_t p = 0;
   int opens = 0;
   while (p < plan.size())
   {
    size_t i = SIZE_MAX;
    bool writing = false;
    try
    {
     joedb::File file(path, shared ? joedb::Open_Mode::shared_write : joedb::Open_Mode::write_existing_or_create_new);
     std::unique_ptr<joedb::Writable_Journal_Client> jc;
     std::unique_ptr<joedb::Writable_Database_Client> dc;
     joedb::Writable_Client *c = nullptr;
     if (kind == 0) {jc.reset(new joedb::Writable_Journal_Client(file, joedb::Connection::dummy, joedb::Content_Check::fast, joedb::Recovery::overwrite)); c = jc.get();}
     else {dc.reset(new joedb::Writable_Database_Client(file, joedb::Connection::dummy, joedb::Content_Check::fast, joedb::Record_Id(1000000), joedb::Recovery::overwrite)); c = dc.get();}
     c->set_hard_checkpoint(hard_checkpoint);
     int failed = 0;
     for (; p < plan.size();)
     {
      const Plan &q = plan[p];
      p++;
      if (!sim::op_enabled(q.op)) continue;
      if (q.sleep) sim::sleep_for(q.sleep);
      const int64_t since = sim::now();
      try
      {
       auto body = [&](joedb::Writable &w, const joedb::Readable *db)
       {
        sim::Rng r(q.seed);
        Ops ops;
        {
         sim::Atomic a;
         ops = db ? db_ops(*db, r, q.n, std::to_string(q.seed)) : db_mode ? Ops{[q](joedb::Writable &w) {w.comment("note " + std::to_string(q.seed)); w.write_blob("blob" + std::to_string(q.seed)); w.comment("end " + std::to_string(q.seed));}} : raw_ops(q.seed, q.n);
        }
        i = log.begin(who, ops);
        writing = true;
        for (auto &o: ops) o(w);
        writing = false;
       };
       if (jc) jc->transaction([&](joedb::Writable_Journal &w) {body(w, nullptr);});
       else dc->transaction([&](const joedb::Readable &db, joedb::Writable &w) {body(w, &db);});
       check_time(since);
       log.ack(i);
       if (hard_checkpoint) mark_hard(i);
       i = SIZE_MAX;
      }
      catch (const std::exception &e)
      {
       // the transaction was not confirmed
       if (failed && !strncmp(e.what(), "writing must start at", 21)) {} // this client refuses to go on
       else if (failed && strstr(e.what(), "aborted")) {}
       else error(e);
       const bool in_body = writing;
       if (i != SIZE_MAX) {if (in_body) log.abort(i); else log.doubt(i);}
       i = SIZE_MAX;
       writing = false;
       failed++;
       check_time(since);
       if (q.seed % 8 == 0) {sim::probe("idle_after_error"); sim::sleep_for(30 * SEC);}
       // only a failed commit may be followed by another try with the same client
       if (in_body || q.give_up || failed > 2) throw;
      }
     }
    }
    catch (const std::exception &e)
    {
     sim::Atomic a;
     if (i != SIZE_MAX) {if (writing) log.abort(i); else log.doubt(i);}
     if (++opens >= 30) sim::self_node()->quiet = true; // faults stop
     SIM_CHECK(opens < 60, "liveness", "cannot write: %s", e.what());
    }
   }
  }

  void reader(const std::string &who, int pulls, uint64_t seed)
  {
   sim::Rng r(seed);
   int opens = 0;
   while (pulls > 0 && opens++ < 100)
   {
    uint64_t before = sim::step();
    try
    {
     {
      sim::Atomic a;
      if (!sim::vfs_exists(path) || sim::vfs_content(path).size() < 41 || log.acked() == 0) {pulls--; goto again;}
     }
     joedb::File file(path, joedb::Open_Mode::read_existing);
     joedb::Readonly_Journal j(file);
     Events e;
     while (true)
     {
      Recorder rec;
      j.play_until_checkpoint(rec);
      append(e, rec.e);
      {
       sim::Atomic a;
       const std::string x = log.explain(e, before);
       SIM_CHECK(x.empty(), "reader-inconsistent", "%s: %s", who.c_str(), x.c_str());
       sim::probe("reader_checks");
      }
      if (pulls-- <= 0) break;
      sim::sleep_for(int64_t(r.below(300)) * US);
      before = sim::step();
      j.pull();
     }
    }
    catch (const std::exception &e) {error(e);}
    again:
    sim::sleep_for(100 * US);
   }
  }

  void check_power(const Read_Result &r, const char *when)
  {
   size_t required = 0;
   for (size_t i = 0; i < hard.size(); i++) required += hard[i];
   if (!r.ok)
   {
    SIM_CHECK(required == 0, "hard-lost", "%s: %zu transactions were acknowledged as durable but the file cannot be read: %s", when, required, r.error.c_str());
    return;
   }
   Txn_Log l = log;
   for (size_t i = 0; i < l.t.size(); i++)
    if (l.t[i].state == St::acked && !(i < hard.size() && hard[i])) l.t[i].state = St::doubt;
   const std::string x = l.explain(r.e);
   SIM_CHECK(x.empty(), "hard-lost", "%s, hard checkpoint %ld: %s", when, r.hard, x.c_str());
   sim::probe("power_checks");
  }

  void run()
  {
   quiet_destructors();
   auto &w = sim::wl();
   sim::power_model_ordered_sectors(true);
   db_mode = k.clients && w.chance(0.5);
   const int lives = 1 + int(w.below(sim::thorough() ? 4 : 3));
   for (int life = 0; life < lives; life++)
   {
    std::vector<sim::Thread *> threads;
    const int writers = int(w.range(1, k.max_writers));
    const bool shared = writers > 1 || w.chance(0.4);
    const double p = w.chance(0.3) ? 0.15 : 0.03;
    for (int i = 0; i < writers; i++)
    {
     const std::string who = "w" + std::to_string(life) + "." + std::to_string(i);
     auto *node = sim::new_node(who, 0);
     set_rates(node, p);
     std::vector<Plan> plan;
     const int n = 1 + int(w.below(8));
     for (int t = 0; t < n; t++)
     {
      Plan q{op++, (w.next() >> 24) * 2, int(w.below(6)), int(w.below(3)), w.chance(0.2) ? int64_t(w.below(400)) * US : 0, w.chance(0.3)};
      static const char *const names[] = {"soft", "hard", "soft and hard"};
      sim::declare_op(q.op, who + " transaction seed " + std::to_string(q.seed) + " size " + std::to_string(q.n) + " " + names[q.how]);
      plan.push_back(q);
     }
     const int kind = db_mode && w.chance(0.8);
     const bool hard_checkpoint = w.chance(0.5);
     if (k.clients) threads.push_back(sim::spawn(node, who, [=, this]() {client_writer(who, plan, shared, kind, hard_checkpoint);}));
     else threads.push_back(sim::spawn(node, who, [=, this]() {journal_writer(who, plan, shared);}));
    }
    for (int i = 0; i < k.readers; i++)
    {
     const std::string who = "r" + std::to_string(life) + "." + std::to_string(i);
     auto *node = sim::new_node(who, 0);
     benign(node, 0.01);
     if (w.chance(0.5)) node->rates[sim::K_EIO_READ] = 0.02;
     const int pulls = 1 + int(w.below(8));
     const uint64_t seed = w.next();
     threads.push_back(sim::spawn(node, who, [=, this]() {reader(who, pulls, seed);}));
    }
    const int looks = int(w.below(3));
    for (int i = 0; i < looks; i++)
    {
     sim::sleep_for(int64_t(w.below(600)) * US);
     sim::Atomic a;
     if (sim::vfs_exists(path)) check_power(read_bytes(sim::vfs_power_image(path, w.next()), joedb::Recovery::none, true), "power failure now");
    }
    if (!sim::join(threads, 3600 * SEC)) sim::fail("liveness", "writers did not finish");

    sim::Atomic a;
    if (!sim::vfs_exists(path) || sim::vfs_content(path).empty())
    {
     SIM_CHECK(log.acked() == 0, "committed-lost", "the file does not exist");
     log = Txn_Log(); hard.clear();
     continue;
    }
    const std::string content = sim::vfs_content(path);
    const Read_Result r = read_file(path);
    if (!r.ok)
    {
     SIM_CHECK(log.acked() == 0, "unreadable", "the file cannot be read: %s (size %ld)", r.error.c_str(), r.size);
     sim::vfs_remove(path);
     log = Txn_Log(); hard.clear();
     continue;
    }
    const std::string x = log.explain(r.e);
    SIM_CHECK(x.empty(), "committed-wrong", "%s", x.c_str());
    for (int i = 0; i < 3; i++)
     check_power(read_bytes(sim::vfs_power_image(path, w.next()), joedb::Recovery::none, true), "power failure at the end");
    // what is not there never happened
    {
     std::vector<size_t> present;
     log.explain(r.e, UINT64_MAX, &present);
     std::deque<Txn> t;
     std::vector<bool> hd;
     for (size_t i: present) {log.t[i].state = St::acked; t.push_back(log.t[i]); hd.push_back(i < hard.size() && hard[i]);}
     log.t = std::move(t);
     hard = std::move(hd);
    }
    // once faults stop, the file can be written again
    sim::vfs_put("/sim/9/again", content);
    {
     joedb::File f("/sim/9/again", joedb::Open_Mode::write_existing);
     joedb::Writable_Journal_Client c(f, joedb::Connection::dummy, joedb::Content_Check::fast, joedb::Recovery::overwrite);
     c.transaction([](joedb::Writable_Journal &j) {j.comment("last");});
    }
    const Read_Result r2 = read_file("/sim/9/again");
    SIM_CHECK(r2.ok && r2.e.size() == r.e.size() + 1 && r2.e.back() == "comment last" && prefix_mismatch(r.e, r2.e) < 0, "not-writable", "after the last fault, a transaction cannot be added");
    sim::vfs_remove("/sim/9/again");
   }
  }
 };
}

SCENARIO(P06, io_journal, 10)
{
 IO x;
 x.k.clients = false;
 x.run();
}

SCENARIO(P06, io_client, 10)
{
 IO x;
 x.k.readers = 1;
 x.run();
}

SCENARIO(P06, io_shared, 10)
{
 IO x;
 x.k.max_writers = 3;
 x.k.readers = 1;
 x.k.clients = sim::wl().chance(0.7);
 x.run();
}

// the disk of joedb_server has errors
namespace
{
 struct Disk_Net: Net
 {
  void extra(std::vector<sim::Thread *> &threads) override
  {
   disturbed = true;
   auto &w = sim::wl();
   const double p = w.chance(0.3) ? 0.1 : 0.02;
   sim::Rates r;
   static const sim::Kind kinds[] = {sim::K_EIO_WRITE, sim::K_ENOSPC, sim::K_EIO_SYNC, sim::K_EIO_READ, sim::K_EIO_LOCK};
   for (auto x: kinds) r[x] = w.chance(0.5) ? p : 0;
   const int64_t until = int64_t(w.below(2000)) * MS;
   auto *node = sim::new_node("disk", 9);
   threads.push_back(sim::spawn(node, "disk", [=, this]()
   {
    if (!await_server()) return;
    for (auto x: kinds) server_node->rates[x] = r.p[x];
    sim::sleep_for(until);
    for (auto x: kinds) server_node->rates[x] = 0;
    uint64_t n = 0;
    for (auto x: kinds) n += sim::fault_count(x);
    if (n) sim::nontrivial();
   }));
  }

  // once the disk works again, the server works again
  void clients_done() override
  {
   int tries = 0;
   bool done = false;
   auto *node = sim::new_node("last", 8);
   sim::Thread *t = sim::spawn(node, "last", [&]()
   {
    Logger_ logger("last");
    while (!done)
    {
     size_t i = SIZE_MAX;
     try
     {
      joedb::Local_Connector connector(sock);
      auto channel = connector.new_channel();
      joedb::Server_Connection connection(*channel, logger, std::chrono::milliseconds(0));
      joedb::Memory_File file;
      joedb::Writable_Journal_Client c(file, connection);
      c.transaction([&](joedb::Writable_Journal &j)
      {
       const Ops ops{[](joedb::Writable &x) {x.comment("last");}};
       i = log.begin("last", ops);
       for (auto &o: ops) o(j);
      });
      log.ack(i);
      done = true;
     }
     catch (const std::exception &e)
     {
      if (i != SIZE_MAX && log.t[i].state == St::running) log.doubt(i);
      SIM_CHECK(++tries < 3, "server-broken", "the disk of the server works again, but a client gets: %s", e.what());
      sim::sleep_for(100 * MS);
     }
    }
   });
   if (!sim::join({t}, 600 * SEC)) sim::fail("liveness", "the disk of the server works again, but a client waits forever");
  }
 };
}

SCENARIO(P06, io_server, 12)
{
 Disk_Net n;
 n.k.max_clients = 3;
 n.k.robust = 0;
 n.k.keep_alive = 0;
 n.k.hard = 0.5;
 n.k.shared = 0.4;
 n.k.abort = 0.1;
 n.k.local_writer = 0.3;
 n.run();
}

// the disk of a client has errors: the client can go on in the same connection,
// and other clients do not wait for a lock that nobody uses
namespace
{
 struct Replica_Disk
 {
  const std::string path = "/sim/0/db.joedb", sock = "/sim/0/server.sock";
  sim::Rng &w = sim::wl();
  bool up = false, stopping = false, sick = true;
  int op = 0;
  Txn_Log log;

  struct Step {int op, what, n; uint64_t seed; int64_t sleep;};

  void client(const std::string &who, sim::Node *node, const std::vector<Step> &plan, bool healthy, bool shared, const sim::Rates &rates)
  {
   if (!sim::wait_until([this]() {return up;}, 60 * SEC)) sim::fail("liveness", "no server");
   Logger_ logger(who);
   size_t p = 0;
   int life = 0;
   while (p < plan.size())
   {
    const std::string replica = "/sim/1/" + who + std::to_string(life++) + ".joedb";
    for (int k = 0; k < sim::K_COUNT; k++) if (rates.p[k]) node->rates[sim::Kind(k)] = 0;
    joedb::Local_Connector connector(sock);
    auto channel = connector.new_channel();
    joedb::Server_Connection connection(*channel, logger, std::chrono::milliseconds(0));
    std::unique_ptr<joedb::File> file;
    std::unique_ptr<joedb::Writable_Journal_Client> client;
    try
    {
     file.reset(new joedb::File(replica, shared ? joedb::Open_Mode::shared_write : joedb::Open_Mode::write_existing_or_create_new));
     client.reset(new joedb::Writable_Journal_Client(*file, connection));
    }
    catch (const std::exception &e)
    {
     // a write that was cut short by the last error of the previous session
     SIM_CHECK(faults() > 0, "operation-failed", "%s cannot open its replica: %s", who.c_str(), e.what());
     continue;
    }
    auto &c = *client;
    bool usable = true;
    while (p < plan.size() && usable)
    {
     const Step s = plan[p++];
     if (!sim::op_enabled(s.op)) continue;
     sim::sleep_for(s.sleep);
     if (!healthy) for (int k = 0; k < sim::K_COUNT; k++) if (rates.p[k]) node->rates[sim::Kind(k)] = sick ? rates.p[k] : 0;
     const uint64_t f0 = faults();
     const int64_t t = sim::now();
     bool entered = false;
     size_t i = SIZE_MAX;
     try
     {
      if (s.what == 0) c.pull();
      else c.transaction([&](joedb::Writable_Journal &j)
      {
       entered = true;
       {
        sim::Atomic a;
        const uint64_t seed = s.seed;
        const int n = s.n;
        const Ops ops{[seed, n](joedb::Writable &x) {apply(x, seed, n);}};
        i = log.begin(who, ops);
       }
       apply(j, s.seed, s.n);
      });
      if (i != SIZE_MAX) log.ack(i);
      sim::probe("replica_operations");
     }
     catch (const std::exception &e)
     {
      if (i != SIZE_MAX) log.doubt(i);
      SIM_CHECK(faults() > f0, "operation-failed", "%s failed without any fault: %s", who.c_str(), e.what());
      // what failed during a transaction may have been pushed: a new connection is needed
      usable = !entered;
      if (usable)
      {
       sim::nontrivial();
       sim::probe("failed_pulls");
       // the application does something else
       if (s.seed & 1) sim::sleep_for(600 * SEC);
      }
     }
     if (healthy) SIM_CHECK(sim::now() - t < 60 * SEC, "lock-kept", "%s: a transaction took %.1f s because the disk of another client has errors", who.c_str(), double(sim::now() - t) * 1e-9);
    }
    for (int k = 0; k < sim::K_COUNT; k++) if (rates.p[k]) node->rates[sim::Kind(k)] = 0;
   }
  }

  static uint64_t faults()
  {
   uint64_t n = 0;
   for (auto x: kinds) n += sim::fault_count(x);
   return n;
  }
  static constexpr sim::Kind kinds[] = {sim::K_EIO_WRITE, sim::K_ENOSPC, sim::K_EIO_READ, sim::K_EIO_LOCK};

  void run()
  {
   quiet_destructors();
   Net::separate_asio();
   sim::set_default_latency(int64_t(1 + w.below(50)) * US, int64_t(1 + w.below(5)) * MS);
   auto *server_node = sim::new_node("server", 0);
   benign(server_node, 0.003);
   const bool shared_server = w.chance(0.5);
   auto *server = sim::spawn(server_node, "server", [&]()
   {
    Logger_ logger("server");
    joedb::File file(path, shared_server ? joedb::Open_Mode::shared_write : joedb::Open_Mode::write_existing_or_create_new);
    joedb::Writable_Journal_Client client(file);
    joedb::Server s(logger, sim::verbose ? 3 : 0, 1, sock, client, std::chrono::milliseconds(0));
    up = true;
    s.join();
    SIM_CHECK(stopping, "server-stopped", "the server stopped without being asked to");
   });
   std::vector<sim::Thread *> threads;
   const int n = 2 + int(w.below(3)), sick_ones = 1 + int(w.below(uint64_t(n)));
   for (int i = 0; i < n; i++)
   {
    const bool healthy = i >= sick_ones;
    const std::string who = std::string(healthy ? "healthy" : "sick") + std::to_string(i);
    auto *node = sim::new_node(who, 1);
    benign(node, 0.003);
    sim::Rates rates{};
    for (auto x: kinds) rates.p[x] = healthy || w.chance(0.4) ? 0 : w.chance(0.5) ? 0.3 : 0.05;
    std::vector<Step> plan;
    for (int k = 1 + int(w.below(12)); k > 0; k--)
    {
     plan.push_back({op, int(w.below(3)), 1 + int(w.below(10)), w.next(), w.chance(0.7) ? int64_t(w.below(40000)) * US : 0});
     sim::declare_op(op++, who + (plan.back().what ? " transaction " : " pull ") + std::to_string(plan.back().seed));
    }
    const bool shared = w.chance(0.3);
    threads.push_back(sim::spawn(node, who, [=, this]() {client(who, node, plan, healthy, shared, rates);}));
   }
   const int64_t until = int64_t(w.below(3000)) * MS;
   threads.push_back(sim::spawn(sim::new_node("disk", 9), "disk", [=, this]() {sim::sleep_for(until); sick = false;}));
   if (!sim::join(threads, 24 * 3600 * SEC)) sim::fail("liveness", "clients do not finish:");
   stopping = true;
   sim::send_signal(server_node, SIGTERM);
   if (!sim::join({server}, 600 * SEC)) sim::fail("liveness", "the server does not stop");
   sim::Atomic a;
   const Read_Result r = read_bytes(sim::vfs_content(path));
   SIM_CHECK(r.ok, "unreadable", "the file of the server cannot be read: %s", r.error.c_str());
   const std::string x = log.explain(r.e);
   SIM_CHECK(x.empty(), "committed-wrong", "%s", x.c_str());
  }
 };
}

SCENARIO(P06, io_replica, 8)
{
 Replica_Disk d;
 d.run();
}
