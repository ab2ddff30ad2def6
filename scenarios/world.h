// Processes sharing one file: writers of several kinds, readers of several
// kinds, process kills, aborted transactions, benign I/O behaviour.
#pragma once

#include "scenarios/txn.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Readonly_Database_Client.h"

namespace h
{
 struct World_Knobs
 {
  int max_lives = 2;
  int min_writers = 1, max_writers = 3;
  int max_readers = 2, min_readers = 0;
  int max_txns = 6;
  double kill = 0;      // probability that a writer is killed
  double abort = 0;     // probability that a transaction is aborted
  double split = 0;     // non-atomic pread/pwrite
  double short_io = 0;  // short reads and writes (legal, invisible)
  double hard = 0.3;
  double db = 0.5;      // probability that the run is about databases
  bool exclusive = false; // one writer that does not share the file
  int64_t sleep_unit = US;
  double big = 0.05;      // probability that the transactions of the run may be big
  double no_recovery = 0; // probability that a writer first opens the file without recovery option
 };

 struct World
 {
  World_Knobs k;
  std::string path = "/sim/0/w.joedb";
  Txn_Log log;
  std::string committed;     // bytes acknowledged so far: never modified again
  int op = 0;
  bool db_mode = false, big = false;
  uint64_t label = 0;
  int kills = 0;
  bool left_dirty = false;   // by the previous lives

  void committed_to(int64_t checkpoint)
  {
   sim::Atomic a;
   if (checkpoint > int64_t(committed.size()))
   {
    const std::string c = sim::vfs_content(path);
    if (int64_t(c.size()) >= checkpoint) committed = c.substr(0, size_t(checkpoint));
   }
  }

  void check_immutable()
  {
   if (committed.size() <= 41 || !sim::vfs_exists(path)) return;
   const std::string c = sim::vfs_content(path);
   SIM_CHECK(c.size() >= committed.size(), "committed-modified", "the file is now shorter (%zu) than what was committed (%zu)", c.size(), committed.size());
   if (memcmp(c.data() + 41, committed.data() + 41, committed.size() - 41))
   {
    size_t i = 41;
    while (c[i] == committed[i]) i++;
    sim::fail("committed-modified", "byte %zu was changed below the acknowledged checkpoint %zu", i, committed.size());
   }
  }

  void set_rates(sim::Node *n)
  {
   benign(n, 0.01);
   n->rates[sim::K_SPLIT_READ] = k.split;
   n->rates[sim::K_SPLIT_WRITE] = k.split;
   n->rates[sim::K_SHORT_READ] = k.short_io;
   n->rates[sim::K_SHORT_WRITE] = k.short_io;
  }

  // one committed unit inside a lock
  template<typename D> size_t write(const std::string &who, D &writable, const joedb::Readable *db, uint64_t seed, int n, bool valid)
  {
   sim::Rng r(seed);
   Ops ops;
   {
    sim::Atomic a;
    ops = db ? db_ops(*db, r, n, std::to_string(seed)) : db_mode ? Ops{[seed](joedb::Writable &w) {w.comment("note " + std::to_string(seed)); w.write_blob("blob" + std::to_string(seed)); w.comment("end " + std::to_string(seed));}} : raw_ops(seed, n);
   }
   if (big && r.chance(0.3))
   {
    std::string data(size_t(r.range(20000, 200000)), char('a' + r.below(26)));
    for (size_t x = 0; x < data.size(); x += 1 + x / 4) data[x] = char(r.next());
    if (!ops.empty()) ops.insert(ops.begin() + 1, [data](joedb::Writable &w) {w.write_blob(data); w.comment("big");});
   }
   const size_t i = log.begin(who, ops, valid);
   for (auto &o: ops) o(writable);
   return i;
  }

  void check_database(const joedb::Readable &db, size_t until, const char *when)
  {
   sim::Atomic a;
   for (size_t i = 0; i < until; i++) if (log.t[i].state == St::running || log.t[i].state == St::doubt) return;
   const Events got = dump_of(db), want = log.dump(until);
   SIM_CHECK(got == want, "database-wrong", "%s: the database of the client differs from the committed history: %s", when, diff_text(got, want).c_str());
   sim::probe("database_checks");
  }

  struct Plan {int op; uint64_t seed; int n; int what; bool check; int64_t sleep;};

  // Opening a file that may have a dirty tail is refused, and does not touch it.
  bool open_without_recovery(const std::string &who, bool shared)
  {
   std::string error;
   bool may_be_dirty = false;
   try
   {
    joedb::File file(path, shared ? joedb::Open_Mode::shared_write : joedb::Open_Mode::write_existing_or_create_new);
    std::optional<joedb::Journal_Construction_Lock> lock;
    lock.emplace(file, joedb::Recovery::none);
    std::string before;
    int64_t checkpoint = 0;
    {
     // this process has the file: nobody writes
     sim::Atomic a;
     before = sim::vfs_content(path);
     if (!before.empty()) checkpoint = read_bytes(before).checkpoint;
     for (auto &x: log.t) if (x.state == St::aborted || (x.node && !x.node->alive)) may_be_dirty = true;
     if (left_dirty || kills) may_be_dirty = true;
    }
    const bool dirty = int64_t(before.size()) > checkpoint;
    try
    {
     joedb::Writable_Journal j(*lock);
     SIM_CHECK(before.empty() || !dirty, "dirty-accepted", "%s: the file has %zu bytes, the checkpoint is %ld: it was opened for writing without recovery", who.c_str(), before.size(), checkpoint);
     if (!before.empty()) SIM_CHECK(j.get_checkpoint() == checkpoint, "reopen-checkpoint", "a writer sees checkpoint %ld, a reader sees %ld", j.get_checkpoint(), checkpoint);
    }
    catch (const joedb::Exception &e)
    {
     error = e.what();
     SIM_CHECK(dirty, "clean-refused", "%s: the file is clean (%zu bytes, checkpoint %ld), but opening it for writing failed: %s", who.c_str(), before.size(), checkpoint, e.what());
     SIM_CHECK(may_be_dirty, "dirty-tail", "%s: nobody was killed or aborted, but the file is dirty (%zu bytes, checkpoint %ld)", who.c_str(), before.size(), checkpoint);
     sim::Atomic a;
     SIM_CHECK(sim::vfs_content(path) == before, "refused-modified", "opening the file for writing was refused (%s), but the file was modified", e.what());
    }
    if (error.empty() && !before.empty())
    {
     sim::Atomic a;
     SIM_CHECK(sim::vfs_content(path) == before, "refused-modified", "opening the file for writing modified it");
    }
   }
   catch (const joedb::Exception &e)
   {
    if (error.empty()) error = e.what();
   }
   sim::probe("opened_without_recovery");
   return error.empty();
  }

  // a journal used directly, by a process that has the file for itself
  void journal_writer(const std::string &who, const std::vector<Plan> &plan, bool hard)
  {
   size_t p = 0;
   while (p < plan.size())
   {
    if (k.no_recovery > 0 && sim::Rng(plan[p].seed).chance(k.no_recovery) && !open_without_recovery(who, false)) sim::probe("refused_dirty");
    joedb::File file(path, joedb::Open_Mode::write_existing_or_create_new);
    joedb::Writable_Journal j(joedb::Journal_Construction_Lock(file, joedb::Recovery::overwrite));
    j.skip_directly_to(j.get_checkpoint());
    for (bool reopen = false; p < plan.size() && !reopen; p++)
    {
     const Plan &q = plan[p];
     if (!sim::op_enabled(q.op)) continue;
     if (q.sleep) sim::sleep_for(q.sleep);
     if (q.what == 4) break;
     const size_t i = write(who, j, nullptr, q.seed, q.n, false);
     if (q.what == 1)
     {
      if (q.check) j.flush();
      log.abort(i);
      reopen = true;
      continue;
     }
     if (q.what == 5 || (hard && q.what == 0)) j.hard_checkpoint(); else j.soft_checkpoint();
     log.ack(i);
     committed_to(j.get_checkpoint());
     if (q.what == 2) {j.hard_checkpoint(); committed_to(j.get_checkpoint());}
    }
   }
  }

  void writer(const std::string &who, const std::vector<Plan> &plan, int kind, bool shared, bool hard, bool valid)
  {
   if (kind == 2) return journal_writer(who, plan, hard);
   size_t p = 0;
   while (p < plan.size())
   {
    bool unusable = false;
    joedb::Recovery recovery = joedb::Recovery::overwrite;
    if (k.no_recovery > 0 && sim::Rng(plan[p].seed).chance(k.no_recovery) && !open_without_recovery(who, shared)) sim::probe("refused_dirty");
    joedb::File file(path, shared ? joedb::Open_Mode::shared_write : joedb::Open_Mode::write_existing_or_create_new);
    std::unique_ptr<joedb::Writable_Journal_Client> jc;
    std::unique_ptr<joedb::Writable_Database_Client> dc;
    joedb::Writable_Client *c = nullptr;
    if (kind == 0) {jc.reset(new joedb::Writable_Journal_Client(file, joedb::Connection::dummy, joedb::Content_Check::fast, recovery)); c = jc.get();}
    else {dc.reset(new joedb::Writable_Database_Client(file, joedb::Connection::dummy, joedb::Content_Check::fast, joedb::Record_Id(1000000), recovery)); c = dc.get();}
    c->set_hard_checkpoint(hard);
    c->set_valid_data(valid);
    for (; p < plan.size() && !unusable; p++)
    {
     const Plan &q = plan[p];
     if (!sim::op_enabled(q.op)) continue;
     if (q.sleep) sim::sleep_for(q.sleep);
     switch (q.what)
     {
      case 0: // transaction
      {
       size_t i = SIZE_MAX;
       auto body = [&](joedb::Writable &w, const joedb::Readable *db)
       {
        if (db && q.check) check_database(*db, log.t.size(), "in transaction");
        i = write(who, w, db, q.seed, q.n, valid);
       };
       if (jc) jc->transaction([&](joedb::Writable_Journal &w) {body(w, nullptr);});
       else dc->transaction([&](const joedb::Readable &db, joedb::Writable &w) {body(w, &db);});
       log.ack(i);
       committed_to(c->get_journal_checkpoint());
       break;
      }
      case 1: // aborted transaction
      {
       bool thrown = false;
       size_t i = SIZE_MAX;
       try
       {
        auto body = [&](joedb::Writable &w, const joedb::Readable *db)
        {
         i = write(who, w, db, q.seed, q.n, valid);
         log.abort(i);
         if (q.check) sim::sleep_for(1 + int64_t(q.seed % 1000) * 1000);
         throw Abort_Me();
        };
        if (jc) jc->transaction([&](joedb::Writable_Journal &w) {body(w, nullptr);});
        else dc->transaction([&](const joedb::Readable &db, joedb::Writable &w) {body(w, &db);});
       }
       catch (const Abort_Me &) {thrown = true;}
       SIM_CHECK(thrown, "abort-swallowed", "the exception of an aborted transaction did not reach the caller");
       // from now on, using this client must not publish anything
       sim::nontrivial();
       if (q.n % 2)
       {
        sim::sleep_for(int64_t(q.seed % 5000) * 1000);
        bool refused = false;
        size_t k = SIZE_MAX;
        try
        {
         auto body = [&](joedb::Writable &w, const joedb::Readable *db) {k = write(who, w, nullptr, q.seed + 1, 1, valid);};
         if (jc) jc->transaction([&](joedb::Writable_Journal &w) {body(w, nullptr);});
         else dc->transaction([&](const joedb::Readable &db, joedb::Writable &w) {body(w, nullptr);});
        }
        catch (const joedb::Exception &) {refused = true;}
        if (refused) {if (k != SIZE_MAX) log.abort(k);}
        else log.ack(k);
       }
       unusable = true;
       break;
      }
      case 2: // several commits under one lock, possibly cancelled at the end
      if (jc)
      {
       size_t i = SIZE_MAX;
       bool cancelled = false;
       try
       {
        joedb::Writable_Journal_Client_Lock lock(*jc);
        i = write(who, lock.get_journal(), nullptr, q.seed, q.n, valid);
        lock.checkpoint_and_push();
        log.ack(i);
        committed_to(c->get_journal_checkpoint());
        i = write(who, lock.get_journal(), nullptr, q.seed + 1, q.n, valid);
        if (q.check && k.abort > 0)
        {
         log.abort(i);
         cancelled = true;
         lock.unlock();
        }
        else
        {
         lock.checkpoint_and_push_unlock();
         log.ack(i);
        }
       }
       catch (...) {throw;}
       committed_to(c->get_journal_checkpoint());
       if (cancelled) {unusable = true; sim::nontrivial();}
      }
      break;
      case 5: // a soft commit, and then a hard checkpoint of the same data
      if (jc)
      {
       c->set_hard_checkpoint(false);
       {
        joedb::Writable_Journal_Client_Lock lock(*jc);
        const bool soft = q.seed % 3 != 0;
        if (soft)
        {
         size_t i = write(who, lock.get_journal(), nullptr, q.seed, q.n, valid);
         lock.checkpoint_and_push();
         log.ack(i);
         committed_to(c->get_journal_checkpoint());
        }
        size_t i;
        if (q.check || !soft)
        {
         i = write(who, lock.get_journal(), nullptr, q.seed + 1, q.n, false);
         lock.get_journal().hard_checkpoint();
         log.ack(i);
        }
        else
         lock.get_journal().hard_checkpoint();
        lock.push_if_ahead();
        lock.unlock();
       }
       committed_to(c->get_journal_checkpoint());
       c->set_hard_checkpoint(hard);
      }
      break;
      case 3: // pull
      {
       const uint64_t s = sim::step();
       c->pull();
       if (dc && q.check)
       {
        sim::Atomic a;
        Recorder r;
        // pulled content cannot be compared exactly (others may be writing): the
        // journal position must be a valid point of the history
        Events e;
        (void)s;
       }
       break;
      }
      default: unusable = true; break; // reopen
     }
    }
    // an aborted client may live on while others write
    if (unusable && p < plan.size()) sim::sleep_for(int64_t(plan[p].seed % 3000) * 1000);
   }
  }

  void reader(const std::string &who, int kind, int pulls, uint64_t seed)
  {
   sim::Rng r(seed);
   // wait for the file
   while (true)
   {
    {
     sim::Atomic a;
     if (sim::vfs_exists(path) && sim::vfs_content(path).size() >= 41) break;
    }
    sim::sleep_for(20 * US);
    if (pulls-- <= 0) return;
   }
   joedb::File file(path, joedb::Open_Mode::read_existing);
   Events e;
   int64_t last = 0;
   auto check = [&](uint64_t before)
   {
    sim::Atomic a;
    const std::string x = log.explain(e, before);
    SIM_CHECK(x.empty(), "reader-inconsistent", "%s: %s", who.c_str(), x.c_str());
    sim::probe("reader_checks");
   };
   uint64_t before = sim::step();
   if (kind == 0)
   {
    joedb::Readonly_Journal j(file);
    for (int i = 0; i <= pulls; i++)
    {
     if (i) {sim::sleep_for(int64_t(r.below(300)) * US); before = sim::step(); j.pull();}
     SIM_CHECK(j.get_checkpoint() >= last, "reader-regress", "%s: checkpoint went back from %ld to %ld", who.c_str(), last, j.get_checkpoint());
     last = j.get_checkpoint();
     Recorder rec;
     j.play_until_checkpoint(rec);
     append(e, rec.e);
     check(before);
    }
   }
   else
   {
    joedb::Readonly_Database_Client c(file);
    for (int i = 0; i <= pulls; i++)
    {
     if (i)
     {
      sim::sleep_for(int64_t(r.below(300)) * US);
      before = sim::step();
      const int64_t old = c.get_journal_checkpoint();
      const int64_t n = c.pull();
      SIM_CHECK(n >= 0 && c.get_journal_checkpoint() == old + n, "reader-regress", "%s: pull returned %ld, checkpoint went from %ld to %ld", who.c_str(), n, old, c.get_journal_checkpoint());
     }
     // the database must be the result of some consistent prefix
     sim::Atomic a;
     const Events got = dump_of(c.get_database());
     bool found = false, certain = kills == 0;
     size_t required = 0;
     for (size_t n = 0; n < log.t.size(); n++) if (log.t[n].state == St::acked && log.t[n].ack <= before) required = n + 1;
     for (auto &x: log.t) if (x.state == St::doubt) certain = false;
     if (!certain) continue;
     joedb::Database db;
     for (size_t n = 0; n <= log.t.size() && !found; n++)
     {
      if (n >= required && dump_of(db) == got) found = true;
      if (n < log.t.size() && log.t[n].state != St::aborted)
       for (auto &o: log.t[n].ops) o(db);
     }
     SIM_CHECK(found, "reader-inconsistent", "%s: the database of a reader is not the result of any prefix of the committed history (at least %zu transactions)", who.c_str(), required);
     sim::probe("reader_checks");
    }
   }
   sim::nontrivial();
  }

  void run()
  {
   quiet_destructors();
   auto &w = sim::wl();
   const int lives = 1 + int(w.below(uint64_t(k.max_lives + (sim::thorough() ? 2 : 0))));
   setup();
   for (int life = 0; life < lives; life++)
   {
    one_life(life);
    between(life);
   }
  }

  virtual void between(int) {}
  virtual void running(const std::vector<sim::Thread *> &) {} // while the processes run
  virtual ~World() = default;

  void setup()
  {
   auto &w = sim::wl();
   db_mode = w.chance(k.db);
   big = w.chance(k.big);
   sim::vfs_on_write([this](const std::string &p) {if (p == path) check_immutable();});
  }

  void one_life(int life)
  {
   auto &w = sim::wl();
   {
    std::vector<sim::Thread *> threads;
    std::vector<sim::Node *> nodes;
    const int writers = k.exclusive ? 1 : int(w.range(k.min_writers, k.max_writers));
    const bool shared = !k.exclusive && (writers > 1 || w.chance(0.5));
    int started_kills = 0;
    for (int i = 0; i < writers; i++)
    {
     const std::string who = "w" + std::to_string(life) + "." + std::to_string(i);
     auto *node = sim::new_node(who, 0);
     set_rates(node);
     const int kind = db_mode && w.chance(0.8) ? 1 : 0;
     const int n = 1 + int(w.below(uint64_t(k.max_txns)));
     std::vector<Plan> plan;
     for (int t = 0; t < n; t++)
     {
      Plan p;
      p.op = op++;
      p.seed = (w.next() >> 24) * 2;
      p.n = int(w.below(6));
      p.what = w.chance(k.abort) ? 1 : w.chance(0.15) ? 2 : w.chance(0.12) ? 5 : w.chance(0.1) ? 3 : w.chance(0.05) ? 4 : 0;
      if ((p.what == 2 || p.what == 5) && kind == 1) p.what = 0;
      p.check = w.chance(0.4);
      p.sleep = w.chance(0.3) ? int64_t(w.below(500)) * k.sleep_unit : 0;
      static const char *const names[] = {"transaction", "aborted transaction", "two commits under one lock", "pull", "reopen", "soft commit, then hard checkpoint"};
      sim::declare_op(p.op, who + (kind == 2 ? " (journal) " : kind ? " (database client) " : " (journal client) ") + names[p.what] + " seed " + std::to_string(p.seed) + " size " + std::to_string(p.n));
      plan.push_back(p);
     }
     const bool hard = w.chance(k.hard), valid = w.chance(0.3);
     if (w.chance(k.kill))
     {
      node->crash_at = 1 + w.below(w.chance(0.6) ? 60 : 300);
      started_kills++;
     }
     kills += started_kills > 0;
     threads.push_back(sim::spawn(node, who, [=, this]() {writer(who, plan, kind, shared, hard, valid);}));
     nodes.push_back(node);
    }
    const int readers = int(w.range(k.min_readers, k.max_readers));
    for (int i = 0; i < readers; i++)
    {
     const std::string who = "r" + std::to_string(life) + "." + std::to_string(i);
     auto *node = sim::new_node(who, 0);
     set_rates(node);
     const int kind = db_mode ? int(w.below(2)) : 0;
     const int pulls = 1 + int(w.below(8));
     const uint64_t seed = w.next();
     threads.push_back(sim::spawn(node, who, [=, this]() {reader(who, kind, pulls, seed);}));
    }
    running(threads);
    if (!sim::join(threads, 3600 * SEC)) sim::fail("liveness", "processes sharing a file did not finish");
    for (auto *n: nodes)
     if (!n->alive)
     {
      sim::nontrivial();
      sim::probe("killed_writers");
      for (auto &x: log.t) if (x.node == n && x.state == St::running) x.state = St::doubt;
     }

    sim::Atomic a;
    bool dirty = false;
    check_final(dirty);
    left_dirty = dirty;
    if (writers > 1) sim::nontrivial();
   }
  }

  void check_final(bool &dirty)
  {
   if (!sim::vfs_exists(path))
   {
    SIM_CHECK(log.acked() == 0, "committed-lost", "the file does not exist");
    return;
   }
   const Read_Result r = read_file(path);
   if (!r.ok)
   {
    SIM_CHECK(log.acked() == 0 && r.size == 0, "unreadable", "the file cannot be read: %s", r.error.c_str());
    log = Txn_Log();
    return;
   }
   const std::string x = log.explain(r.e);
   SIM_CHECK(x.empty(), "committed-wrong", "%s", x.c_str());
   dirty = r.size > r.checkpoint;
   if (dirty) sim::probe("dirty_tails");
   log.settle(r.e);
   committed_to(r.checkpoint);

   // what the writers left behind must be usable
   sim::Atomic a;
   const std::string copy = "/sim/9/copy";
   sim::vfs_put(copy, sim::vfs_content(path));
   bool refused = false;
   try
   {
    joedb::File f(copy, joedb::Open_Mode::write_existing);
    joedb::Writable_Journal j(f);
    SIM_CHECK(j.get_checkpoint() == r.checkpoint, "reopen-checkpoint", "a writer sees checkpoint %ld, a reader sees %ld", j.get_checkpoint(), r.checkpoint);
   }
   catch (const std::exception &e) {refused = true;}
   SIM_CHECK(refused == dirty, "dirty-tail", "checkpoint %ld, size %ld: opening for writing was %s", r.checkpoint, r.size, refused ? "refused" : "accepted");
   sim::vfs_remove(copy);
  }
 };
}
