// P21: open modes exclude each other as documented, concurrent creation has one
// winner, and locks die with their owner.
#include "scenarios/world.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
using namespace h;
using joedb::Open_Mode;

namespace
{
 const char *const names[] = {"read_existing", "write_existing", "create_new", "write_existing_or_create_new", "shared_write", "write_lock"};
 enum {READ, EXISTING, NEW, EXISTING_OR_NEW, SHARED, LOCK};
 const Open_Mode modes[] = {Open_Mode::read_existing, Open_Mode::write_existing, Open_Mode::create_new, Open_Mode::write_existing_or_create_new, Open_Mode::shared_write, Open_Mode::write_lock};

 struct Modes
 {
  const std::string path = "/sim/0/m.joedb";
  Txn_Log log;
  int op = 0;

  // everything that can hold the tail lock, with the interval in which it may
  struct Hold
  {
   std::string who;
   sim::Node *node;
   uint64_t from, to = UINT64_MAX;  // possible
   bool sure = false;               // it has the lock now
  };
  std::deque<Hold> holds;
  uint64_t created_at = 0;

  bool live(const Hold &h) const {return h.to == UINT64_MAX && h.node->alive;}
  Hold &start(const std::string &who)
  {
   sim::Atomic a;
   holds.push_back({who, sim::self_node(), sim::step()});
   return holds.back();
  }
  void end(Hold &h) {sim::Atomic a; h.sure = false; h.to = sim::step();}
  void got(Hold &h)
  {
   sim::Atomic a;
   for (auto &x: holds) if (&x != &h && x.sure && live(x)) sim::fail("exclusion", "%s has the file for itself, and so has %s", h.who.c_str(), x.who.c_str());
   h.sure = true;
  }
  // could somebody else have had the lock at some time since `from`?
  bool contended(const Hold &h) const
  {
   for (auto &x: holds)
   {
    if (&x == &h) continue;
    if (x.to > h.from) return true;
   }
   return false;
  }
  // a killed process has nothing any more
  void bury(sim::Node *n)
  {
   sim::Atomic a;
   for (auto &x: holds) if (x.node == n && x.to == UINT64_MAX) {x.to = sim::step(); x.sure = false;}
  }

  struct Plan {int op, mode, txns; uint64_t seed; int64_t hold, sleep; bool abort;};

  size_t write(const std::string &who, joedb::Writable_Journal &j, uint64_t seed)
  {
   const Ops ops = raw_ops(seed, int(seed % 5));
   const size_t i = log.begin(who, ops);
   for (auto &o: ops) o(j);
   return i;
  }

  void session(const std::string &who, const Plan &p)
  {
   bool existed, exclusive = p.mode != READ && p.mode != SHARED;
   const uint64_t from = sim::step();
   {sim::Atomic a; existed = sim::vfs_exists(path);}
   Hold *h = exclusive ? &start(who) : nullptr;
   std::unique_ptr<joedb::File> file;
   try
   {
    file.reset(new joedb::File(path, modes[p.mode]));
   }
   catch (const joedb::Exception &e)
   {
    sim::Atomic a;
    const bool exists = sim::vfs_exists(path);
    switch (p.mode)
    {
     case READ:
      SIM_CHECK(!existed, "refused", "%s cannot open the file: %s", who.c_str(), e.what());
     break;
     case EXISTING:
      SIM_CHECK(!existed || contended(*h), "refused", "%s: nobody has the file, but it cannot be opened: %s", who.c_str(), e.what());
     break;
     case NEW:
      // somebody else may have locked the file that we have just created
      SIM_CHECK(exists && (existed || contended(*h) || created_at > from), "refused", "%s: the file did not exist, but it cannot be created: %s", who.c_str(), e.what());
     break;
     case EXISTING_OR_NEW:
      SIM_CHECK(contended(*h), "refused", "%s: nobody has the file, but it cannot be opened: %s", who.c_str(), e.what());
     break;
     case SHARED: case LOCK:
      sim::fail("refused", "%s: opening the file in this mode waits, but it failed: %s", who.c_str(), e.what());
    }
    if (h) end(*h);
    sim::probe("refused_opens");
    return;
   }
   {
    sim::Atomic a;
    SIM_CHECK(sim::vfs_exists(path), "not-created", "%s: opened, but the file does not exist", who.c_str());
    SIM_CHECK(p.mode != NEW || !existed, "created-twice", "%s: the file existed, and was created", who.c_str());
    const bool mine = sim::vfs_created_since(path, from);
    SIM_CHECK(p.mode != NEW || mine, "created-twice", "%s: create_new opened a file that another process created", who.c_str());
    SIM_CHECK((p.mode != READ && p.mode != EXISTING) || !mine, "created", "%s: %s created the file", who.c_str(), names[p.mode]);
    if (!created_at) created_at = sim::step();
   }
   if (h) got(*h);
   sim::probe("opens");
   if (p.mode == READ)
   {
    for (int i = 0; i <= p.txns; i++)
    {
     const uint64_t before = sim::step();
     bool header;
     {sim::Atomic a; header = sim::vfs_content(path).size() >= 41;}
     try
     {
      joedb::Readonly_Journal j(*file);
      Recorder r;
      j.play_until_checkpoint(r);
      sim::Atomic a;
      const std::string x = log.explain(r.e, before);
      SIM_CHECK(x.empty(), "reader-inconsistent", "%s: %s", who.c_str(), x.c_str());
      sim::probe("reads");
     }
     catch (const joedb::Exception &e) {SIM_CHECK(!header, "unreadable", "%s: %s", who.c_str(), e.what());}
     if (p.hold) sim::sleep_for(p.hold);
    }
   }
   else if (p.mode == LOCK && p.txns == 0)
   {
    // nothing but the lock: nothing may change meanwhile
    std::string before;
    {sim::Atomic a; before = sim::vfs_content(path);}
    sim::sleep_for(1 + p.hold * 2);
    sim::Atomic a;
    SIM_CHECK(sim::vfs_content(path) == before, "exclusion", "%s has locked the file, and it was modified", who.c_str());
    sim::probe("pure_locks");
   }
   else
   {
    // the journal of a shared file is opened under the lock
    Hold *construction = p.mode == SHARED ? &start(who) : nullptr;
    joedb::Writable_Journal_Client c(*file, joedb::Connection::dummy, joedb::Content_Check::fast, joedb::Recovery::overwrite);
    if (construction) end(*construction);
    for (int i = 0; i < p.txns; i++)
    {
     if (p.sleep) sim::sleep_for(p.sleep);
     size_t t = SIZE_MAX;
     Hold *s = nullptr;
     try
     {
      if (p.mode == SHARED) s = &start(who);
      c.transaction([&](joedb::Writable_Journal &j)
      {
       if (s) got(*s);
       t = write(who, j, p.seed + uint64_t(i));
       if (p.hold) sim::sleep_for(p.hold);
       if (s) {sim::Atomic a; s->sure = false;}
       if (p.abort && i == p.txns - 1) {log.abort(t); throw Abort_Me();}
      });
      if (s) end(*s);
      log.ack(t);
     }
     catch (const Abort_Me &) {if (s) end(*s);}
    }
   }
   if (h) {sim::Atomic a; h->sure = false;}
   file.reset();
   if (h) end(*h);
  }

  void run()
  {
   quiet_destructors();
   auto &w = sim::wl();
   const int lives = 1 + int(w.below(2 + uint64_t(sim::thorough())));
   const bool several_per_process = w.chance(0.3);
   for (int life = 0; life < lives; life++)
   {
    std::vector<sim::Thread *> threads;
    std::vector<sim::Node *> nodes;
    const int n = int(w.range(2, 5));
    const double kill = w.chance(0.5) ? 0.4 : 0;
    const int favourite = w.chance(0.4) ? int(w.below(6)) : -1;
    for (int i = 0; i < n; i++)
    {
     const std::string who = "p" + std::to_string(life) + "." + std::to_string(i);
     sim::Node *node;
     if (several_per_process && !nodes.empty() && w.chance(0.5)) node = nodes.back();
     else
     {
      node = sim::new_node(who, 0);
      benign(node, 0.02);
      if (w.chance(kill)) node->crash_at = 1 + w.below(50);
      nodes.push_back(node);
     }
     std::vector<Plan> plan;
     for (int s = int(w.range(1, 4)); s > 0; s--)
     {
      Plan p{op++, favourite >= 0 && w.chance(0.6) ? favourite : int(w.below(6)), int(w.below(3)), (w.next() >> 24) * 2, w.chance(0.5) ? int64_t(w.below(300)) * US : 0, w.chance(0.5) ? int64_t(w.below(300)) * US : 0, w.chance(0.1)};
      sim::declare_op(p.op, who + " opens with " + names[p.mode] + ", " + std::to_string(p.txns) + " transactions");
      plan.push_back(p);
     }
     threads.push_back(sim::spawn(node, who, [=, this]()
     {
      for (auto &p: plan)
      {
       if (!sim::op_enabled(p.op)) continue;
       if (p.sleep) sim::sleep_for(p.sleep);
       session(who, p);
      }
     }));
    }
    std::map<sim::Node *, bool> buried;
    const bool ended = sim::wait_until([&]()
    {
     bool all = true;
     for (auto *x: nodes) if (!x->alive && !buried[x]) {buried[x] = true; bury(x);}
     for (auto *t: threads) if (!sim::finished(t)) all = false;
     return all;
    }, 600 * SEC);
    if (!ended) sim::fail("liveness", "a process waits for a file that nobody has");
    sim::nontrivial();
    for (auto *x: nodes) if (!x->alive)
    {
     if (!buried[x]) bury(x);
     sim::probe("killed_processes");
     for (auto &t: log.t) if (t.node == x && t.state == St::running) t.state = St::doubt;
    }
    // nobody has the file any more
    sim::Atomic a;
    if (!sim::vfs_exists(path)) continue;
    try
    {
     joedb::File f(path, Open_Mode::write_existing);
     joedb::Writable_Journal j(joedb::Journal_Construction_Lock(f, joedb::Recovery::overwrite));
    }
    catch (const joedb::Exception &e) {sim::fail("refused", "every process ended, but the file cannot be opened: %s", e.what());}
    const Read_Result r = read_file(path);
    SIM_CHECK(r.ok, "unreadable", "%s", r.error.c_str());
    const std::string x = log.explain(r.e);
    SIM_CHECK(x.empty(), "committed-wrong", "%s", x.c_str());
    log.settle(r.e);
    bool refused = false;
    try {joedb::File f(path, Open_Mode::create_new);} catch (const joedb::Exception &) {refused = true;}
    SIM_CHECK(refused, "created-twice", "create_new accepts a file that exists");
   }
  }
 };
}

SCENARIO(P21, open_modes, 10)
{
 Modes m;
 m.run();
}
