// P24: a process that runs out of memory reports an error: it never damages
// what was committed, and never shows wrong data.
#include "scenarios/net.h"
using namespace h;

namespace
{
 using On = sim::Alloc_Faults;

 struct Memory
 {
  std::string path = "/sim/0/m.joedb";
  Txn_Log log;
  bool db_mode = false;
  int op = 0;

  struct Plan {int op; uint64_t seed; int n; int64_t sleep;};

  static void error(const std::exception &e)
  {
   sim::Atomic a;
   sim::nontrivial();
   sim::probe(dynamic_cast<const std::bad_alloc *>(&e) ? "bad_alloc" : "other_errors");
   if (sim::verbose) sim::note("error: %s", e.what());
  }

  // What the memory of a client contains is what the file contains.
  void compare(const joedb::Readable &db, int64_t checkpoint, const char *who)
  {
   sim::Atomic a;
   std::string d = sim::vfs_content(path);
   SIM_CHECK(int64_t(d.size()) >= checkpoint, "beyond", "%s is at %ld, the file has %zu bytes", who, checkpoint, d.size());
   d.resize(size_t(checkpoint));
   const int64_t pos[4] = {checkpoint, checkpoint, 0, 0};
   memcpy(d.data(), pos, sizeof(pos));
   joedb::Memory_File f;
   f.pwrite(d.data(), d.size(), 0);
   joedb::Readonly_Journal j(f);
   joedb::Database fresh;
   j.play_until_checkpoint(fresh);
   const Events got = dump_of(db), want = dump_of(fresh);
   SIM_CHECK(got == want, "wrong-data", "%s has other data in memory than the file at %ld: %s", who, checkpoint, diff_text(got, want).c_str());
   sim::probe("memory_checks");
  }

  void writer(const std::string &who, const std::vector<Plan> &plan, bool shared, int kind)
  {
   size_t p = 0;
   int opens = 0;
   while (p < plan.size())
   {
    size_t i = SIZE_MAX;
    bool writing = false;
    try
    {
     On on(true);
     joedb::File file(path, shared ? joedb::Open_Mode::shared_write : joedb::Open_Mode::write_existing_or_create_new);
     std::optional<joedb::Writable_Journal_Client> jc;
     std::optional<joedb::Writable_Database_Client> dc;
     if (kind == 0) jc.emplace(file, joedb::Connection::dummy, joedb::Content_Check::fast, joedb::Recovery::overwrite);
     else
     {
      dc.emplace(file, joedb::Connection::dummy, joedb::Content_Check::fast, joedb::Record_Id(1000000), joedb::Recovery::overwrite);
      compare(dc->get_database(), dc->get_journal().get_checkpoint(), who.c_str());
     }
     int failed = 0;
     while (p < plan.size())
     {
      const Plan &q = plan[p];
      p++;
      if (!sim::op_enabled(q.op)) continue;
      if (q.sleep) sim::sleep_for(q.sleep);
      try
      {
       auto body = [&](joedb::Writable &w, const joedb::Readable *db)
       {
        Ops ops;
        {
         sim::Atomic a;
         sim::Rng r(q.seed);
         ops = db ? db_ops(*db, r, q.n, std::to_string(q.seed)) : db_mode ? Ops{[q](joedb::Writable &w) {w.comment("note " + std::to_string(q.seed)); w.write_blob("blob" + std::to_string(q.seed)); w.comment("end " + std::to_string(q.seed));}} : raw_ops(q.seed, q.n);
         i = log.begin(who, ops);
        }
        writing = true;
        for (auto &o: ops) o(w);
        writing = false;
       };
       if (jc) jc->transaction([&](joedb::Writable_Journal &w) {body(w, nullptr);});
       else dc->transaction([&](const joedb::Readable &db, joedb::Writable &w) {body(w, &db);});
       sim::Atomic a;
       log.ack(i);
       i = SIZE_MAX;
       if (dc) compare(dc->get_database(), dc->get_journal().get_checkpoint(), who.c_str());
      }
      catch (const std::exception &e)
      {
       error(e);
       sim::Atomic a;
       if (i != SIZE_MAX) {if (writing) log.abort(i); else log.doubt(i);}
       i = SIZE_MAX;
       writing = false;
       // memory that was being modified is not used any more
       if (dc || failed++ > 2) throw;
       sim::probe("tried_again_with_the_same_client");
      }
     }
    }
    catch (const std::exception &e)
    {
     error(e);
     sim::Atomic a;
     if (++opens >= 30) sim::self_node()->quiet = true; // faults stop
     SIM_CHECK(opens < 60, "liveness", "cannot write: %s", e.what());
    }
   }
  }

  void reader(const std::string &who, int pulls, uint64_t seed, int kind)
  {
   sim::Rng r(seed);
   for (int opens = 0; pulls > 0 && opens < 100; opens++)
   {
    {
     sim::Atomic a;
     if (!sim::vfs_exists(path) || sim::vfs_content(path).size() < 41) pulls--, kind = -1 - std::abs(kind);
     else kind = std::abs(kind) % 2;
    }
    if (kind >= 0) try
    {
     On on(true);
     joedb::File file(path, joedb::Open_Mode::read_existing);
     if (kind == 0)
     {
      joedb::Readonly_Database_Client c(file);
      while (pulls-- > 0)
      {
       compare(c.get_database(), c.get_journal_checkpoint(), who.c_str());
       sim::sleep_for(int64_t(r.below(300)) * US);
       c.pull();
      }
     }
     else
     {
      joedb::Readonly_Journal j(file);
      joedb::Database db;
      while (pulls-- > 0)
      {
       j.play_until_checkpoint(db);
       compare(db, j.get_checkpoint(), who.c_str());
       sim::sleep_for(int64_t(r.below(300)) * US);
       j.pull();
      }
     }
    }
    catch (const std::exception &e) {error(e);}
    sim::sleep_for(100 * US);
   }
  }

  void run(int max_writers, int max_readers)
  {
   quiet_destructors();
   auto &w = sim::wl();
   db_mode = max_readers > 0 || w.chance(0.5);
   const int lives = 1 + int(w.below(3));
   for (int life = 0; life < lives; life++)
   {
    std::vector<sim::Thread *> threads;
    const int writers = int(w.range(1, max_writers));
    const bool shared = writers > 1 || w.chance(0.4);
    const double p = w.chance(0.3) ? 0.05 : w.chance(0.5) ? 0.01 : 0.002;
    for (int i = 0; i < writers; i++)
    {
     const std::string who = "w" + std::to_string(life) + "." + std::to_string(i);
     auto *node = sim::new_node(who, 0);
     benign(node, 0.01);
     node->rates[sim::K_ALLOC] = p;
     std::vector<Plan> plan;
     for (int n = 1 + int(w.below(8)); n > 0; n--)
     {
      Plan q{op++, (w.next() >> 24) * 2, int(w.below(6)), w.chance(0.2) ? int64_t(w.below(400)) * US : 0};
      sim::declare_op(q.op, who + " transaction seed " + std::to_string(q.seed) + " size " + std::to_string(q.n));
      plan.push_back(q);
     }
     const int kind = db_mode && w.chance(0.8);
     threads.push_back(sim::spawn(node, who, [=, this]() {writer(who, plan, shared, kind);}));
    }
    for (int i = int(w.below(uint64_t(max_readers + 1))); i > 0; i--)
    {
     const std::string who = "r" + std::to_string(life) + "." + std::to_string(i);
     auto *node = sim::new_node(who, 0);
     benign(node, 0.01);
     node->rates[sim::K_ALLOC] = p;
     const int pulls = 1 + int(w.below(8)), kind = int(w.below(2));
     const uint64_t seed = w.next();
     threads.push_back(sim::spawn(node, who, [=, this]() {reader(who, pulls, seed, kind);}));
    }
    if (!sim::join(threads, 3600 * SEC)) sim::fail("liveness", "writers did not finish");
    sim::Atomic a;
    if (!sim::vfs_exists(path) || sim::vfs_content(path).empty())
    {
     SIM_CHECK(log.acked() == 0, "committed-lost", "the file does not exist");
     log = Txn_Log();
     continue;
    }
    const std::string content = sim::vfs_content(path);
    const Read_Result r = read_file(path);
    if (!r.ok)
    {
     SIM_CHECK(log.acked() == 0, "unreadable", "the file cannot be read: %s (size %ld)", r.error.c_str(), r.size);
     sim::vfs_remove(path);
     log = Txn_Log();
     continue;
    }
    const std::string x = log.explain(r.e);
    SIM_CHECK(x.empty(), "committed-wrong", "%s", x.c_str());
    log.settle(r.e);
   }
  }
 };
}

SCENARIO(P24, memory_exclusive, 8)
{
 Memory m;
 m.run(1, 1);
}

SCENARIO(P24, memory_shared, 10)
{
 Memory m;
 m.run(3, 2);
}

namespace
{
 struct Client_Memory: Net
 {
  void configure(sim::Rng &w) override {k.alloc = w.chance(0.3) ? 0.03 : w.chance(0.5) ? 0.01 : 0.002; only_memory = true;}
  void failed(const std::string &, const Style &, const std::string &m, size_t) override
  {
   sim::Atomic a;
   sim::nontrivial();
   sim::probe(has(m, "bad_alloc") ? "bad_alloc" : "other_errors");
  }
 };
}

SCENARIO(P24, memory_client, 8)
{
 Client_Memory n;
 n.k.min_clients = 1;
 n.k.max_clients = 3;
 n.k.robust = 0.4;
 n.k.server_file = 0.3;
 n.k.preads = 0.1;
 n.k.wait_pull = 0.1;
 n.k.pull_push = 0.1;
 n.k.offline = 0.1;
 n.k.faults_for = 100 * SEC;
 n.run();
}
