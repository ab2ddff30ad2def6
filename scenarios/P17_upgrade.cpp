// P17: automatic schema upgrades, while processes compiled with different
// versions of the schema share a file or a server.
// SCHEMAS: up1 up2 up3
#include "scenarios/net.h"

#include "schemas/up1/Client.h"
#include "schemas/up1/Readonly_Client.h"
#include "schemas/up1/Readable.h"
#include "schemas/up2/Client.h"
#include "schemas/up2/Readonly_Client.h"
#include "schemas/up2/Readable.h"
#include "schemas/up3/Client.h"
#include "schemas/up3/Readonly_Client.h"
#include "schemas/up3/Readable.h"

using namespace h;

namespace
{
 std::function<void(int)> custom_hook; // in the middle of a custom upgrade function
 void hook(int version) {if (custom_hook) custom_hook(version);}
}

void up2::Writable_Database::set_english(Writable_Database &db)
{
 const auto english = db.new_language("English", "en");
 hook(2);
 for (auto person: db.get_person_table()) db.set_language(person, english);
}

void up3::Writable_Database::set_english(Writable_Database &db)
{
 const auto english = db.new_language("English", "en");
 hook(2);
 for (auto person: db.get_person_table()) db.set_language(person, english);
}

void up3::Writable_Database::count_people(Writable_Database &db)
{
 int32_t n = 0;
 for (auto person: db.get_person_table()) {n++; db.set_height(person, 1.5f);}
 hook(3);
 db.new_stat(n);
}

namespace
{
 struct V1
 {
  static constexpr int version = 1;
  using Client = up1::Client; using Reader = up1::Readonly_Client; using Readable = up1::Readable; using Db = up1::Writable_Database;
  template<typename D> static auto add(D &db, const std::string &name, float) {return db.new_person(name);}
  template<typename D, typename P> static void rename(D &db, P p, const std::string &name) {db.set_name(p, name);}
  static Events added(const std::string &r, const std::string &name, float) {return {"insert t1 " + r, "update string t1 " + r + " f1 " + brief(name)};}
 };
 struct V2
 {
  static constexpr int version = 2;
  using Client = up2::Client; using Reader = up2::Readonly_Client; using Readable = up2::Readable; using Db = up2::Writable_Database;
  template<typename D> static auto add(D &db, const std::string &name, float) {return db.new_person(name, db.find_language_by_id("en"));}
  template<typename D, typename P> static void rename(D &db, P p, const std::string &name) {db.set_name(p, name);}
  static Events added(const std::string &r, const std::string &name, float) {return {"insert t1 " + r, "update string t1 " + r + " f1 " + brief(name), "update reference t1 " + r + " f2 r0"};}
 };
 struct V3
 {
  static constexpr int version = 3;
  using Client = up3::Client; using Reader = up3::Readonly_Client; using Readable = up3::Readable; using Db = up3::Writable_Database;
  template<typename D> static auto add(D &db, const std::string &name, float h) {return db.new_person(name, db.find_language_by_id("en"), h);}
  template<typename D, typename P> static void rename(D &db, P p, const std::string &name) {db.set_full_name(p, name);}
  static Events added(const std::string &r, const std::string &name, float h) {return {"insert t1 " + r, "update string t1 " + r + " f1 " + brief(name), "update reference t1 " + r + " f2 r0", "update float32 t1 " + r + " f3 " + std::to_string(h)};}
 };

 // what the schema adds in each version
 Events schema(int v)
 {
  if (v == 1) return {"create_table person", "add_field t1 name 1"};
  if (v == 2) return {"create_table language", "add_field t2 name 1", "add_field t2 id 1", "add_field t1 language " + std::to_string(int(joedb::Type::Type_Id::reference)) + " t2", "custom set_english"};
  return {"rename_field t1 f1 full_name", "add_field t1 height " + std::to_string(int(joedb::Type::Type_Id::float32)), "create_table stat", "add_field t3 people " + std::to_string(int(joedb::Type::Type_Id::int32)), "custom count_people"};
 }

 struct Upgrades: Net
 {
  struct Unit
  {
   Events e;
   St state = St::running;
   int version = 0;
   std::string who;
   sim::Node *node = nullptr;
   uint64_t ack = 0;
  };
  std::deque<Unit> units;

  double kill = 0, fail_upgrade = 0, stubborn = 0;
  bool net = false;
  int upgrade_failures = 0;

  // an upgrade as it must be, from version k to version v
  static Events upgrade(int k, int v, int people)
  {
   Events e{"comment Automatic schema upgrade"};
   for (int i = k + 1; i <= v; i++) append(e, schema(i));
   if (k < 2 && v >= 2)
   {
    append(e, {"insert t2 r0", "update string t2 r0 f1 English", "update string t2 r0 f2 en"});
    for (int i = 0; i < people; i++) e.push_back("update reference t1 r" + std::to_string(i) + " f2 r0");
   }
   if (k < 3 && v >= 3)
   {
    for (int i = 0; i < people; i++) e.push_back("update float32 t1 r" + std::to_string(i) + " f3 " + std::to_string(1.5f));
    append(e, {"insert t3 r0", "update int32 t3 r0 f1 " + std::to_string(people)});
   }
   e.push_back("valid_data");
   return e;
  }

  // Is it the result of upgrades and committed transactions?
  std::string explain(const Events &e, uint64_t before = UINT64_MAX, int *final_version = nullptr) const
  {
   size_t pos = 0, next = 0;
   int version = 0, people = 0;
   auto at = [&](const Events &x) {return pos + x.size() <= e.size() && std::equal(x.begin(), x.end(), e.begin() + int64_t(pos));};
   while (pos < e.size())
   {
    if (e[pos] == "comment Automatic schema upgrade")
    {
     int found = 0;
     for (int v = version + 1; v <= 3; v++) if (at(upgrade(version, v, people))) found = v;
     if (!found)
     {
      std::string s;
      int64_t best = -1;
      for (int v = version + 1; v <= 3; v++)
      {
       const Events got(e.begin() + int64_t(pos), e.end()), want = upgrade(version, v, people);
       Events cut(got.begin(), got.begin() + int64_t(std::min(got.size(), want.size())));
       const int64_t m = prefix_mismatch(cut, want) < 0 ? int64_t(cut.size()) : prefix_mismatch(cut, want);
       if (m > best) {best = m; s = diff_text(cut, want);}
      }
      return "wrong upgrade of version " + std::to_string(version) + " with " + std::to_string(people) + " people, at event " + std::to_string(pos) + ": " + s;
     }
     pos += upgrade(version, found, people).size();
     version = found;
     continue;
    }
    bool match = false;
    for (; next < units.size() && !match; next++)
    {
     const Unit &x = units[next];
     if (!x.e.empty() && at(x.e))
     {
      if (x.state == St::aborted) return "transaction " + std::to_string(next) + " of " + x.who + " was aborted but is visible";
      if (x.version != version) return "transaction " + std::to_string(next) + " of " + x.who + ", written with schema version " + std::to_string(x.version) + ", is in a file that has version " + std::to_string(version);
      for (auto &s: x.e)
       if (s.rfind("insert t1 ", 0) == 0)
       {
        if (s != "insert t1 r" + std::to_string(people)) return "transaction " + std::to_string(next) + " of " + x.who + ": " + s + ", but there are " + std::to_string(people) + " people";
        people++;
       }
      pos += x.e.size();
      match = true;
     }
     else if (x.state == St::acked && x.ack <= before)
      return "transaction " + std::to_string(next) + " of " + x.who + ", acknowledged, is missing; found at its place: " + e[pos];
    }
    if (!match) return "event " + std::to_string(pos) + " belongs to no committed transaction: " + e[pos];
   }
   for (; next < units.size(); next++)
    if (units[next].state == St::acked && units[next].ack <= before)
     return "transaction " + std::to_string(next) + " of " + units[next].who + ", acknowledged, is missing at the end";
   if (final_version) *final_version = version;
   return "";
  }

  int committed_version()
  {
   sim::Atomic a;
   if (!sim::vfs_exists(path)) return 0;
   const std::string c = sim::vfs_content(path);
   if (c.size() < 41) return 0;
   const Read_Result r = read_bytes(c);
   SIM_CHECK(r.ok, "unreadable", "the file cannot be read: %s", r.error.c_str());
   int v = 0;
   for (auto &s: r.e)
   {
    if (s == "create_table person") v = std::max(v, 1);
    if (s == "create_table language") v = std::max(v, 2);
    if (s == "create_table stat") v = std::max(v, 3);
   }
   return v;
  }

  // the database of a client is what the interpreter makes of the same bytes,
  // and these are a prefix of the history
  template<typename V, typename D> void check(const std::string &who, const D &db, const joedb::Abstract_File &file, int64_t checkpoint, uint64_t before)
  {
   std::string s(size_t(checkpoint), 0);
   size_t got = 0;
   while (got < s.size())
   {
    const size_t n = file.pread(s.data() + got, s.size() - got, int64_t(got));
    if (n == 0) break;
    got += n;
   }
   sim::Atomic a;
   SIM_CHECK(got == s.size(), "replica-short", "%s: checkpoint %ld, %zu bytes", who.c_str(), checkpoint, got);
   joedb::Memory_File m;
   m.get_data() = s;
   joedb::Readonly_Journal j(joedb::Journal_Construction_Lock(m, joedb::Recovery::ignore_header));
   joedb::Database reference;
   Recorder rec;
   try {j.rewind(); j.raw_play_until(rec, checkpoint); j.rewind(); j.raw_play_until(reference, checkpoint);}
   catch (const std::exception &x) {sim::fail("replica-wrong", "%s: content until %ld cannot be read: %s", who.c_str(), checkpoint, x.what());}
   const std::string x = explain(rec.e, before);
   SIM_CHECK(x.empty(), "replica-wrong", "%s: content until %ld: %s", who.c_str(), checkpoint, x.c_str());
   const Events have = dump_of(typename V::Readable(db)), want = dump_of(reference);
   SIM_CHECK(have == want, "database-wrong", "%s: compiled database differs from the interpreted one: %s", who.c_str(), diff_text(have, want).c_str());
   sim::probe("database_checks");
  }

  struct Plan {int op; uint64_t seed; int n; int what; bool check; int64_t sleep;};

  struct Proc_Style {bool server_file = false, robust = false, file_replica = false; bool hard = false;};

  // nobody may be blocked for long when there is no fault
  void in_time(const std::string &who, int64_t start, const char *what)
  {
   if (!disturbed) SIM_CHECK(sim::now() - start < 20 * SEC, "blocked", "%s: %s took %ld s", who.c_str(), what, (sim::now() - start) / SEC);
  }

  template<typename V> void writer(const std::string &who, const std::vector<Plan> &plan, const Proc_Style &y)
  {
   Logger_ logger(who);
   size_t p = 0;
   int failures = 0;
   while (p < plan.size())
   {
    if (net && !await_server()) sim::fail("liveness", "no server");
    std::unique_ptr<joedb::Local_Connector> connector;
    std::unique_ptr<joedb::Channel> channel;
    std::unique_ptr<joedb::Connection> connection;
    std::unique_ptr<joedb::Abstract_File> file;
    std::unique_ptr<typename V::Client> c;
    joedb::Abstract_File *f = nullptr;
    const int64_t start = sim::now();
    const uint64_t opening = sim::step();
    try
    {
     if (net)
     {
      connector.reset(new joedb::Local_Connector(sock));
      if (y.server_file)
      {
       auto *sf = new joedb::Server_File(*connector, logger);
       connection.reset(sf);
       f = sf;
      }
      else
      {
       if (y.robust) connection.reset(new joedb::Robust_Connection(*connector, logger));
       else
       {
        channel = connector->new_channel();
        connection.reset(new joedb::Server_Connection(*channel, logger));
       }
       if (y.file_replica) file.reset(new joedb::File("/sim/1/" + who + ".joedb", joedb::Open_Mode::write_existing_or_create_new));
       else file.reset(new joedb::Memory_File);
       f = file.get();
      }
     }
     else
     {
      file.reset(new joedb::File(path, joedb::Open_Mode::shared_write));
      f = file.get();
     }
     c.reset(new typename V::Client(*f, connection ? *connection : joedb::Connection::dummy, joedb::Content_Check::fast, y.server_file || (net && !y.file_replica) ? joedb::Recovery::none : joedb::Recovery::overwrite));
     c->set_hard_checkpoint(y.hard);
    }
    catch (const Abort_Me &)
    {
     sim::probe("failed_upgrades");
     sim::vfs_remove("/sim/1/" + who + ".joedb");
     continue;
    }
    catch (const std::exception &e)
    {
     const int v = committed_version();
     if (v > V::version) {sim::probe("old_program_refused"); sim::nontrivial(); return;}
     const bool mismatch = dynamic_cast<const joedb::Content_Mismatch *>(&e);
     SIM_CHECK(disturbed || (mismatch && failures), "open-failed", "%s: version %d cannot open the file that has version %d: %s", who.c_str(), V::version, v, e.what());
     connection.reset();
     if (mismatch) sim::vfs_remove("/sim/1/" + who + ".joedb");
     if (++failures > 2000) sim::fail("liveness", "%s: cannot open the database: %s", who.c_str(), e.what());
     sim::sleep_for(10 * MS);
     continue;
    }
    in_time(who, start, "opening");
    check<V>(who, c->get_database(), *f, c->get_journal_checkpoint(), opening);

    bool again = false;
    for (; p < plan.size() && !again; p++)
    {
     const Plan &q = plan[p];
     if (!sim::op_enabled(q.op)) continue;
     if (q.sleep) sim::sleep_for(q.sleep);
     const int64_t op_start = sim::now();
     const uint64_t before = q.what == 3 ? 0 : sim::step();
     size_t u = SIZE_MAX;
     try
     {
      if (q.what == 2) c->pull();
      else if (q.what == 3) again = true;
      else
      {
       auto body = [&](typename V::Db &db)
       {
        sim::Rng r(q.seed);
        {
         sim::Atomic a;
         u = units.size();
         units.emplace_back();
         units[u].who = who;
         units[u].version = V::version;
         units[u].node = sim::self_node();
        }
        auto did = [&](const Events &e) {append(units[u].e, e);};
        const std::string label = std::to_string(q.seed);
        did({"comment txn " + label});
        db.write_comment("txn " + label);
        for (int i = 0; i < q.n; i++)
        {
         const auto &table = db.get_person_table();
         if (table.is_empty() || r.chance(0.6))
         {
          const std::string name = "p" + label + "." + std::to_string(i) + random_string(r);
          const float height = float(r.below(300)) / 4;
          const auto person = V::add(db, name, height);
          did(V::added("r" + std::to_string(person.get_id()), name, height));
         }
         else
         {
          auto it = table.begin();
          for (size_t k = r.below(table.get_size()); k > 0; k--) ++it;
          const std::string name = "renamed " + label + random_string(r);
          did({"update string t1 r" + std::to_string((*it).get_id()) + " f1 " + brief(name)});
          V::rename(db, *it, name);
         }
        }
        did({"comment end " + label});
        db.write_comment("end " + label);
        if (q.what == 1)
        {
         sim::Atomic a;
         units[u].state = St::aborted;
         throw Abort_Me();
        }
       };
       c->transaction(body);
       sim::Atomic a;
       units[u].state = St::acked;
       units[u].ack = sim::step();
       sim::probe("acked_transactions");
       if (!net || !y.server_file) {}
       committed_to(c->get_journal_checkpoint());
      }
      in_time(who, op_start, "an operation");
      if (q.check) check<V>(who, c->get_database(), *f, c->get_journal_checkpoint(), before);
     }
     catch (const Abort_Me &)
     {
      sim::probe("aborted_transactions");
      again = true;
      failures++;
     }
     catch (const std::exception &e)
     {
      const std::string m = e.what();
      const bool conflict = has(m, "conflict") || dynamic_cast<const joedb::Content_Mismatch *>(&e);
      if (u != SIZE_MAX)
      {
       sim::Atomic a;
       units[u].state = conflict && !(y.robust || y.server_file) ? St::aborted : St::doubt;
      }
      if (committed_version() > V::version)
      {
       sim::probe("old_client_refused");
       sim::nontrivial();
       // the program shows the message, and the user is not there
       if (double(q.seed % 100) < stubborn * 100) sim::sleep_for(120 * SEC);
       // it tries again: it is refused again
       for (int i = int(q.seed / 128 % 4); i > 0; i--)
       {
        bool refused = false;
        try
        {
         if (q.seed / 512 % 3 == 0) c->pull();
         else c->transaction([&](typename V::Db &db)
         {
          sim::fail("refused-once", "%s: a program of version %d was told that the file was upgraded to version %d, tries again, and can write", who.c_str(), V::version, committed_version());
         });
        }
        catch (const std::exception &) {refused = true;}
        SIM_CHECK(refused, "refused-once", "%s: a program of version %d was told that the file was upgraded to version %d, tries again, and is not refused", who.c_str(), V::version, committed_version());
        sim::probe("refused_again");
       }
       return;
      }
      SIM_CHECK(disturbed || (lock_timeout.count() > 0 && conflict), "operation-failed", "%s: version %d, file version %d: %s", who.c_str(), V::version, committed_version(), m.c_str());
      sim::probe("connection_errors");
      failures++;
      again = true;
      c.reset();
      connection.reset();
      sim::vfs_remove("/sim/1/" + who + ".joedb");
     }
    }
   }
  }

  template<typename V> void reader(const std::string &who, const std::vector<Plan> &plan)
  {
   size_t p = 0;
   while (p < plan.size())
   {
    if (plan[p].sleep) sim::sleep_for(plan[p].sleep);
    {
     sim::Atomic a;
     if (!sim::vfs_exists(path) || sim::vfs_content(path).size() < 41) {p++; continue;}
    }
    joedb::File file(path, joedb::Open_Mode::read_existing);
    std::unique_ptr<typename V::Reader> c;
    uint64_t before = sim::step();
    try {c.reset(new typename V::Reader(file));}
    catch (const joedb::Exception &e)
    {
     const int v = committed_version();
     SIM_CHECK(v != V::version || has(e.what(), "out of date"), "open-failed", "%s: reader of version %d cannot open the file that has version %d: %s", who.c_str(), V::version, v, e.what());
     if (v > V::version) return;
     p++;
     continue;
    }
    check<V>(who, c->get_database(), file, c->get_journal_checkpoint(), before);
    for (p++; p < plan.size(); p++)
    {
     if (plan[p].sleep) sim::sleep_for(plan[p].sleep);
     before = sim::step();
     try {c->pull();}
     catch (const joedb::Exception &e)
     {
      SIM_CHECK(committed_version() > V::version, "pull-failed", "%s: reader of version %d, file version %d: %s", who.c_str(), V::version, committed_version(), e.what());
      sim::probe("old_reader_refused");
      for (int i = int(plan[p].seed % 3); i > 0; i--)
      {
       bool refused = false;
       try {refused = c->pull() == 0;} catch (const std::exception &) {refused = true;} // or nothing new
       SIM_CHECK(refused, "refused-once", "%s: a reader of version %d is told once only that the file was upgraded to version %d", who.c_str(), V::version, committed_version());
      }
      return;
     }
     check<V>(who, c->get_database(), file, c->get_journal_checkpoint(), before);
     sim::probe("reader_checks");
    }
   }
  }

  void go()
  {
   auto &w = sim::wl();
   quiet_destructors();
   shared = true;
   sim::set_default_latency(int64_t(1 + w.below(50)) * US, int64_t(1 + w.below(3)) * MS);
   short_rate = w.chance(0.3) ? 0.1 : 0;
   const int lives = kill > 0 ? 1 + int(w.below(3)) : 1;
   disturbed = net && (kill > 0 || k.reset > 0);
   sim::vfs_on_write([this](const std::string &p) {if (p == path) check_immutable();});
   int failures_left = w.chance(fail_upgrade) ? 1 + int(w.below(3)) : 0;
   const bool slow = w.chance(0.3);
   custom_hook = [this, &failures_left, slow](int)
   {
    if (slow) sim::sleep_for(2 * MS);
    if (failures_left > 0 && sim::wl().chance(0.5)) {failures_left--; throw Abort_Me();}
   };
   std::vector<sim::Thread *> servers;
   if (net) servers.push_back(start_server());
   int n_proc = 0;
   for (int life = 0; life < lives; life++)
   {
    std::vector<sim::Thread *> threads;
    std::vector<sim::Node *> nodes;
    const int procs = 2 + int(w.below(4));
    for (int i = 0; i < procs; i++)
    {
     const std::string who = "p" + std::to_string(n_proc++);
     auto *node = sim::new_node(who, net ? 1 + i % 3 : 0);
     benign(node, 0.003);
     node->rates[sim::K_SHORT_SEND] = node->rates[sim::K_SHORT_RECV] = short_rate;
     node->rates[sim::K_SHORT_READ] = node->rates[sim::K_SHORT_WRITE] = k.short_io;
     node->rates[sim::K_CONN_RESET] = k.reset;
     const int version = 1 + int(w.below(3));
     const bool read = !net && w.chance(0.25);
     Proc_Style y;
     y.server_file = net && w.chance(0.3);
     y.robust = net && w.chance(0.3);
     y.file_replica = net && w.chance(0.3);
     y.hard = w.chance(0.2);
     std::vector<Plan> plan;
     const int n = 1 + int(w.below(6));
     for (int t = 0; t < n; t++)
     {
      Plan q;
      q.op = op++;
      q.seed = w.next() >> 24;
      q.n = int(w.below(5));
      q.what = w.chance(0.1) ? 1 : w.chance(0.25) ? 2 : w.chance(0.05) ? 3 : 0;
      q.check = w.chance(0.5);
      q.sleep = w.chance(0.5) ? int64_t(w.below(net ? 20000 : 1000)) * US : 0;
      static const char *const names[] = {"transaction", "aborted transaction", "pull", "reopen"};
      sim::declare_op(q.op, who + " (version " + std::to_string(version) + (read ? ", reader" : y.server_file ? ", server file" : "") + ") " + (read ? "read" : names[q.what]) + " seed " + std::to_string(q.seed));
      plan.push_back(q);
     }
     if (!read && w.chance(kill)) node->crash_at = 1 + w.below(w.chance(0.5) ? 60 : 250);
     const int64_t delay = life == 0 ? int64_t(w.below(3000)) * US * (version - 1) : int64_t(w.below(1000)) * US;
     nodes.push_back(node);
     threads.push_back(sim::spawn(node, who, [=, this]()
     {
      sim::sleep_for(delay);
      if (read) version == 1 ? reader<V1>(who, plan) : version == 2 ? reader<V2>(who, plan) : reader<V3>(who, plan);
      else version == 1 ? writer<V1>(who, plan, y) : version == 2 ? writer<V2>(who, plan, y) : writer<V3>(who, plan, y);
     }));
    }
    if (!sim::join(threads, 3600 * SEC)) sim::fail("liveness", "programs that share a database did not finish");
    for (auto *n: nodes)
     if (!n->alive)
     {
      sim::nontrivial();
      sim::probe("killed_programs");
      for (auto &x: units) if (x.node == n && x.state == St::running) x.state = St::doubt;
     }
    if (net) sim::sleep_for(10 * SEC);
    sim::Atomic a;
    final_check();
   }
   if (net)
   {
    stopping = true;
    sim::send_signal(server_node, SIGTERM);
    if (!sim::join({servers.back()}, 600 * SEC)) sim::fail("liveness", "the server does not stop");
    sim::Atomic a;
    final_check();
   }
   custom_hook = nullptr;
  }

  void final_check()
  {
   if (!sim::vfs_exists(path) || sim::vfs_content(path).size() < 41)
   {
    for (auto &x: units) SIM_CHECK(x.state != St::acked, "committed-lost", "the file does not exist");
    return;
   }
   const Read_Result r = read_file(path);
   SIM_CHECK(r.ok, "unreadable", "the file cannot be read: %s", r.error.c_str());
   int v = 0;
   const std::string x = explain(r.e, UINT64_MAX, &v);
   SIM_CHECK(x.empty(), "history-wrong", "%s", x.c_str());
   if (v > 1) sim::probe("upgraded");
   sim::probe("final_checks");
   int upgrades = 0;
   for (auto &s: r.e) upgrades += s == "comment Automatic schema upgrade";
   if (upgrades > 1) {sim::nontrivial(); sim::probe("several_upgrades");}
  }
 };
}

SCENARIO(P17, upgrade_shared, 10)
{
 Upgrades u;
 u.fail_upgrade = 0.3;
 u.go();
}

SCENARIO(P17, upgrade_kill, 10)
{
 Upgrades u;
 u.kill = 0.5;
 u.fail_upgrade = 0.2;
 u.go();
}

SCENARIO(P17, upgrade_server, 8)
{
 Upgrades u;
 u.net = true;
 u.fail_upgrade = 0.3;
 u.stubborn = 0.5;
 u.go();
}

SCENARIO(P17, upgrade_server_faults, 8)
{
 Upgrades u;
 u.net = true;
 u.kill = 0.4;
 u.k.reset = sim::wl().chance(0.5) ? 0.01 : 0;
 u.fail_upgrade = 0.2;
 u.go();
}
