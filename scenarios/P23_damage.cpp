// P23: damaged files are reported: no process that opens one crashes, hangs or
// damages it further, and what comes before the damage can be read.
// MAINS: joedb_convert joedb_pack joedb_merge joedb_logdump joedb_to_json joedb_push joedbi
// SCHEMAS: dmg
#include "scenarios/txn.h"
#include "scenarios/tools.h"
#include "scenarios/net.h"

#include "joedb/concurrency/Readonly_Database_Client.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/ui/json.h"

#include "schemas/dmg/Client.h"
#include "schemas/dmg/Readonly_Client.h"
#include "schemas/dmg/Readonly_Database.h"

#include <iostream>
#include <sstream>
using namespace h;

int joedb_convert_main(int, char **);
int joedb_pack_main(int, char **);
int joedb_merge_main(int, char **);
int joedb_logdump_main(int, char **);
int joedb_to_json_main(int, char **);
int joedb_push_main(int, char **);
int joedbi_main(int, char **);

namespace
{
 constexpr size_t header = 41;

 int64_t published(const std::string &d)
 {
  if (d.size() < header) return 0;
  int64_t pos[4];
  memcpy(pos, d.data(), 32);
  int64_t r = header;
  for (int i = 0; i < 2; i++)
  {
   if (pos[2 * i] == pos[2 * i + 1]) r = std::max(r, pos[2 * i]);
   // a soft checkpoint beyond the end of the file is not valid
   for (int j = 0; j < 2; j++) if (pos[2 * i + j] < 0 && pos[2 * i + j] >= -int64_t(d.size())) r = std::max(r, -pos[2 * i + j]);
  }
  return r;
 }

 // operations that no application would do, but that a file may contain
 void wild(joedb::Writable &w, sim::Rng &r, int n)
 {
  using namespace joedb;
  auto number = [&]() -> int64_t
  {
   switch (r.below(10))
   {
    case 0: return INT64_MAX - 1;
    case 1: return INT64_MAX - int64_t(1 + r.below(3));
    case 2: return int64_t(1) << 60;
    case 3: return int64_t(r.below(4));
    case 4: return int64_t(1) << r.below(63);
    case 5: return (int64_t(1) << r.below(63)) - 1;
    case 6: return int64_t(r.below(100000));
    default: return int64_t(r.below(8));
   }
  };
  for (int i = 0; i < n; i++)
  {
   const Table_Id t = r.chance(0.9) ? Table_Id(r.below(5)) : Table_Id(r.next() & 0xffff);
   const Field_Id f = r.chance(0.9) ? Field_Id(r.below(10)) : Field_Id(r.next() & 0xffff);
   const Record_Id id = r.chance(0.1) ? Record_Id(-1) : Record_Id(number());
   switch (r.below(24))
   {
    case 0: w.create_table(r.chance(0.5) ? "person" : r.chance(0.2) ? "" : "table_" + std::to_string(r.below(10))); break;
    case 1: w.drop_table(t); break;
    case 2: w.drop_field(t, f); break;
    case 3: w.add_field(t, "field_" + std::to_string(r.below(10)), r.chance(0.3) ? Type::reference(Table_Id(r.below(6))) : Type::string()); break;
    case 4: w.rename_table(t, r.chance(0.5) ? "person" : "x" + std::to_string(r.below(3))); break;
    case 5: w.rename_field(t, f, r.chance(0.5) ? "name" : "x" + std::to_string(r.below(3))); break;
    case 6: case 7: w.insert_into(t, id); break;
    case 8: w.delete_from(t, id); break;
    case 9: case 10: w.insert_vector(t, id, size_t(number())); break;
    case 11: w.delete_vector(t, id, size_t(number())); break;
    case 12: w.update_string(t, id, f, random_string(r)); break;
    case 13: w.update_int64(t, id, f, number()); break;
    case 14: w.update_reference(t, id, f, Record_Id(number())); break;
    case 15: w.update_blob(t, id, f, Blob(number(), number())); break;
    case 16: w.write_blob(random_string(r)); break;
    case 17: w.update_int8(t, id, f, int8_t(r.next())); w.update_int16(t, id, f, int16_t(r.next())); w.update_int32(t, id, f, int32_t(r.next())); break;
    case 18: w.update_boolean(t, id, f, r.chance(0.5)); w.update_float32(t, id, f, float(r.next())); w.update_float64(t, id, f, double(r.next())); break;
    case 19: w.custom(random_string(r)); break;
    case 20: w.timestamp(number()); break;
    case 21:
    {
     std::vector<int64_t> v(1 + r.below(20), 1);
     w.update_vector_int64(t, id, f, v.size(), v.data());
    }
    break;
    case 22:
    {
     std::vector<std::string> v(1 + r.below(6), "v");
     w.update_vector_string(t, id, f, v.size(), v.data());
    }
    break;
    default:
    {
     std::vector<joedb::Record_Id> v(1 + r.below(6), Record_Id(number()));
     w.update_vector_reference(t, id, f, v.size(), v.data());
    }
   }
  }
 }

 void compiled_transaction(dmg::Writable_Database &db, sim::Rng &r, int n)
 {
  for (int i = 0; i < n; i++)
  {
   switch (r.below(8))
   {
    case 0: case 1:
    {
     const std::string name = "c" + std::to_string(db.get_city_table().get_size()) + random_string(r).substr(0, 50);
     if (db.find_city_by_name(name).is_null()) db.new_city(name, int32_t(r.next()));
    }
    break;
    case 2: case 3: case 4:
    {
     dmg::id_of_city home{};
     for (auto c: db.get_city_table()) if (home.is_null() || r.chance(0.3)) home = c;
     auto p = db.new_person();
     db.set_name(p, random_string(r));
     if (home.is_not_null()) db.set_home(p, home);
     db.set_i8(p, int8_t(r.next())); db.set_i16(p, int16_t(r.next())); db.set_i64(p, int64_t(r.next()));
     db.set_b(p, r.chance(0.5)); db.set_f(p, float(i)); db.set_d(p, double(i));
     db.set_photo(p, db.write_blob(random_string(r)));
    }
    break;
    case 5:
    {
     const size_t size = 1 + r.below(12);
     auto v = db.new_vector_of_point(size);
     db.update_vector_of_x(v, size, [](auto span) {for (auto &x: span) x = 0.5;});
     db.update_vector_of_name(v, size, [](auto span) {int k = 0; for (auto &x: span) x = "p" + std::to_string(k++);});
    }
    break;
    case 6:
     if (db.get_person_table().get_size() > 0 && r.chance(0.6)) {const auto p = *db.get_person_table().begin(); db.delete_person(p);}
    break;
    default: db.write_comment(random_string(r)); db.write_valid_data();
   }
  }
 }

 // read everything that an application can read
 template<typename F> uint64_t traverse(const dmg::Database &db, const F &file)
 {
  uint64_t sum = 0;
  for (auto c: db.get_city_table())
  {
   sum += db.get_name(c).size() + uint64_t(db.get_population(c));
   auto found = db.find_city_by_name(db.get_name(c));
   SIM_CHECK(found.is_null() || (db.is_valid(found) && db.get_name(found) == db.get_name(c)), "wrong-index", "the unique index finds another city");
   for (auto p: db.find_person_by_home(c, "x")) sum += uint64_t(p.get_id());
  }
  for (auto p: db.get_person_table())
  {
   sum += db.get_name(p).size() + fnv(db.get_name(p)) + uint64_t(db.get_i8(p)) + uint64_t(db.get_i16(p)) + uint64_t(db.get_i64(p)) + uint64_t(db.get_b(p)) + (db.get_f(p) > 0) + (db.get_d(p) > 0);
   if (db.is_valid(db.get_home(p))) sum += db.get_name(db.get_home(p)).size();
   try {sum += file.read_blob(db.get_photo(p), 1 << 20).size();} catch (const std::exception &) {}
  }
  for (auto p: db.get_point_table()) sum += db.get_name(p).size() + (db.get_x(p) > 0);
  size_t n = 0;
  for (auto &x: const_cast<dmg::Database &>(db).get_index_of_person_by_home()) {n++; SIM_CHECK(db.is_valid(x.second), "wrong-index", "an index has a record that does not exist");}
  SIM_CHECK(n <= size_t(db.get_person_table().get_size()), "wrong-index", "an index has %zu records, and the table %zu", n, size_t(db.get_person_table().get_size()));
  return sum;
 }

 std::string interesting(sim::Rng &r)
 {
  switch (r.below(8))
  {
   case 0: return std::string(1 + r.below(9), char(0));
   case 1: return std::string(1 + r.below(9), char(0xff));
   case 2: return std::string("\x7f") + std::string(r.below(8), char(0xff));
   case 3: {const int64_t x = int64_t(1) << r.below(63); std::string s(8, 0); memcpy(s.data(), &x, 8); return s;}
   case 4: return std::string(1, char(r.below(40)));         // an operation code
   case 5: return std::string(1, char(0xe0 | r.below(32))) + std::string(7, char(r.next())); // a long compact integer
   case 6: {std::string s(1 + r.below(16), 0); for (auto &c: s) c = char(r.next()); return s;}
   default: return "\r\n";
  }
 }

 void damage(std::string &d, sim::Rng &r, int only = -1)
 {
  if (d.empty()) return;
  // where the damage is: anywhere, near the start (the schema), near the end
  auto place = [&]() -> size_t
  {
   switch (r.below(4))
   {
    case 0: return std::min(d.size() - 1, header + r.below(200));
    case 1: return d.size() - 1 - r.below(std::min<size_t>(d.size(), 200));
    default: return d.size() > header && r.chance(0.97) ? header + r.below(d.size() - header) : r.below(d.size());
   }
  };
  const size_t sector = 512, sectors = d.size() / sector;
  switch (only >= 0 ? uint64_t(only) : r.below(14))
  {
   case 0: case 1: case 2: for (int i = 1 + int(r.below(4)); i > 0; i--) d[place()] ^= char(1 << r.below(8)); break;
   case 3: case 4: case 5:
   {
    const std::string s = interesting(r);
    const size_t p = place();
    for (size_t i = 0; i < s.size() && p + i < d.size(); i++) d[p + i] = s[i];
   }
   break;
   case 6: if (sectors) {const size_t p = r.below(sectors) * sector; const int kind = int(r.below(3)); for (size_t i = 0; i < sector; i++) d[p + i] = kind == 0 ? char(0) : kind == 1 ? char(0xff) : char(r.next());} break;
   case 7: if (sectors) {const size_t p = r.below(sectors) * sector, q = r.below(sectors) * sector; const std::string s = d.substr(p, sector); d.replace(q, sector, s);} break;
   case 8: d.resize(r.chance(0.5) ? r.below(d.size()) : r.below(sectors + 1) * sector); break;
   case 9: d += interesting(r); break;
   case 10: d.erase(place(), 1 + r.below(8)); break;
   case 11: d.insert(place(), interesting(r)); break;
   case 12: // a checkpoint
   {
    int64_t x = 0;
    switch (r.below(5)) {case 0: x = INT64_MIN; break; case 1: x = INT64_MAX; break; case 2: x = int64_t(r.below(100)); break; case 3: x = int64_t(d.size() + r.below(100)); break; default: x = int64_t(r.below(d.size() + 1));}
    if (r.chance(0.5)) x = int64_t(-uint64_t(x));
    const size_t p = 8 * r.below(4);
    if (d.size() >= p + 8) memcpy(d.data() + p, &x, 8);
    if (r.chance(0.5) && d.size() >= 32) memcpy(d.data() + (p ^ 8), &x, 8);
   }
   break;
   default: d[r.below(std::min(d.size(), header))] ^= char(1 << r.below(8));
  }
 }

 enum Kind {journal, journal_ignore, interpreted, interpreted_ro, interpreted_rw, compiled_ro, compiled_client, compiled_rw, writer, convert, pack, merge, logdump, raw_dump, load_dump, sql, blob_dump, schema_dump, json, json_base64, push, push_dump, push_recover, shell, kind_count};
 const char *const kind_name[] = {"Readonly_Journal", "Readonly_Journal (ignore_header)", "Database", "Readonly_Database_Client", "Writable_Database_Client", "compiled Readonly_Database", "compiled Readonly_Client", "compiled Client", "Writable_Journal", "joedb_convert", "joedb_pack", "joedb_merge", "joedb_logdump", "joedb_logdump --raw", "joedb_logdump --load", "joedb_logdump --sql", "joedb_logdump --blob", "joedb_logdump --schema-only", "joedb_to_json", "joedb_to_json --base64", "joedb_push file", "joedb_push --db", "joedb_push --recovery ignore_header", "joedbi"};
 bool writes(int kind) {return kind == interpreted_rw || kind == compiled_rw || kind == writer || kind == shell;}

 // no limit for record_id
 bool unlimited(int kind) {return kind == interpreted_ro || kind == pack || kind == merge || kind == load_dump || kind == sql || kind == json || kind == json_base64 || kind == push_dump;}

 struct Null_Buf: std::streambuf
 {
  uint64_t n = 0;
  int overflow(int c) override {n++; return c;}
  std::streamsize xsputn(const char *, std::streamsize k) override {n += uint64_t(k); return k;}
 };

 // what joedb_server uses when its file is read-only
 struct Listening_Client: joedb::Readonly_Client
 {
  Recorder recorder;
  Listening_Client(joedb::Abstract_File &file):
   Readonly_Client(file, joedb::Connection::dummy, joedb::Content_Check::fast, joedb::Recovery::none)
  {
   read_journal();
  }
  void read_journal() override {joedb::Readonly_Journal::play_until_checkpoint(recorder);}
 };

 struct Damage
 {
  const std::string path = "/sim/0/d.joedb", result = "/sim/0/result.joedb";
  std::string original;
  Events events;
  std::vector<int64_t> ends;
  std::map<sim::Node *, int> readers; // the processes that run, and what they do
  int process_count = 0;
  bool finished = true;

  // what the undamaged file contains, and where
  void read_original()
  {
   sim::Atomic a;
   events.clear(); ends.clear();
   sim::vfs_put("/sim/9/o", original);
   joedb::File f("/sim/9/o", joedb::Open_Mode::read_existing);
   joedb::Readonly_Journal j(f);
   Recorder rec;
   rec.sink = [&](const std::string &s) {events.push_back(s); ends.push_back(j.get_position());};
   j.rewind();
   try {j.raw_play_until(rec, j.get_checkpoint());}
   catch (const joedb::Exception &x) {sim::fail("unreadable", "%s in what was written after \"%s\": %s", x.what(), events.empty() ? "" : events.back().c_str(), sim::hex(original.substr(size_t(ends.empty() ? 41 : ends.back()))).c_str());}
  }

  void make(sim::Rng &r)
  {
   sim::Atomic a;
   if (sim::vfs_exists(path)) sim::vfs_remove(path);
   joedb::File f(path, joedb::Open_Mode::create_new);
   const uint64_t what = r.below(10);
   const int n = 1 + int(r.below(6));
   if (what < 4)
   {
    dmg::Client client(f);
    for (int i = 0; i < n; i++) client.transaction([&](dmg::Writable_Database &db) {compiled_transaction(db, r, 1 + int(r.below(15)));});
    if (r.chance(0.3)) client.transaction([&](dmg::Writable_Database &db) {wild(*(joedb::Writable *)&db, r, 0);});
   }
   else if (what < 7)
   {
    joedb::Writable_Database_Client client(f);
    for (int i = 0; i < n; i++)
    {
     const Ops ops = db_ops(client.get_database(), r, int(r.below(20)), std::to_string(i));
     client.transaction([&](const joedb::Readable &, joedb::Writable &w) {for (auto &o: ops) o(w);});
    }
   }
   else
   {
    joedb::Writable_Journal j(f);
    if (what == 7) for (int i = 0; i < n; i++) {apply(j, r.next(), int(r.below(20))); j.hard_checkpoint();}
    else
    {
     // a schema that is right, then anything
     joedb::Database db;
     for (auto &o: db_ops(db, r, 0, "0")) {o(j); o(db);}
     for (auto &o: db_ops(db, r, int(r.below(20)), "1")) o(j);
     wild(j, r, int(r.below(10)));
     j.hard_checkpoint();
    }
   }
  }

  // a well-formed file of the compiled schema that ends with wild operations
  void append_wild(sim::Rng &r)
  {
   sim::Atomic a;
   joedb::File f(path, joedb::Open_Mode::write_existing);
   joedb::Writable_Journal j(f);
   j.skip_directly_to(j.get_checkpoint());
   wild(j, r, 1 + int(r.below(6)));
   j.hard_checkpoint();
  }

  struct Result
  {
   bool done = false;
   std::string error;
   Events e;
   int64_t checkpoint = 0;
  };

  const char *const dbs[4] = {"interpreted", "dump", "dump_tail", "sql"};

  int tool(int kind)
  {
   switch (kind)
   {
    case convert: return run_tool(joedb_convert_main, {"joedb_convert", path, result});
    case pack: return run_tool(joedb_pack_main, {"joedb_pack", path, result});
    case merge: return run_tool(joedb_merge_main, {"joedb_merge", path, path, result});
    case logdump: return run_tool(joedb_logdump_main, {"joedb_logdump", path});
    case raw_dump: return run_tool(joedb_logdump_main, {"joedb_logdump", "--raw", path});
    case load_dump: return run_tool(joedb_logdump_main, {"joedb_logdump", "--load", path});
    case sql: return run_tool(joedb_logdump_main, {"joedb_logdump", "--sql", path});
    case blob_dump: return run_tool(joedb_logdump_main, {"joedb_logdump", "--blob", path});
    case schema_dump: return run_tool(joedb_logdump_main, {"joedb_logdump", "--schema-only", path});
    case json: return run_tool(joedb_to_json_main, {"joedb_to_json", path});
    case json_base64: return run_tool(joedb_to_json_main, {"joedb_to_json", "--base64", path});
    case push: return run_tool(joedb_push_main, {"joedb_push", path, "file", result});
    case push_dump: return run_tool(joedb_push_main, {"joedb_push", path, "--db", dbs[process_count % 4]});
    case push_recover: return run_tool(joedb_push_main, {"joedb_push", "--recovery", "ignore_header", path, "file", result});
    default: return run_tool(joedbi_main, {"joedbi", "-n", "100000", path});
   }
  }

  void use(int kind, Result &o, uint64_t seed, bool pulls)
  {
   sim::Rng r(seed);
   try
   {
    switch (kind)
    {
     case journal: case journal_ignore:
     {
      joedb::File f(path, joedb::Open_Mode::read_existing);
      joedb::Readonly_Journal j(joedb::Journal_Construction_Lock(f, kind == journal_ignore ? joedb::Recovery::ignore_header : joedb::Recovery::none));
      Recorder rec;
      rec.sink = [&](const std::string &s) {o.e.push_back(s);};
      o.checkpoint = j.get_checkpoint();
      j.rewind();
      j.play_until_checkpoint(rec);
      for (int i = pulls ? 5 : 0; i > 0; i--)
      {
       sim::sleep_for(int64_t(r.below(300)) * US);
       j.pull();
       o.checkpoint = j.get_checkpoint();
       j.play_until_checkpoint(rec);
      }
     }
     break;
     case interpreted:
     {
      joedb::File f(path, joedb::Open_Mode::read_existing);
      joedb::Readonly_Journal j(f);
      joedb::Database db(joedb::Record_Id(100000));
      j.rewind();
      for (int i = pulls ? 5 : 1; i >= 0; i--)
      {
       // an application that tries again after an error
       try {j.pull(); j.play_until_checkpoint(db);} catch (const joedb::Exception &x) {o.error = x.what();}
       sim::sleep_for(int64_t(r.below(300)) * US);
      }
      // what was read before the damage remains usable
      sim::Atomic a;
      Null_Buf b;
      std::ostream out(&b);
      try {joedb::write_json(out, db, r.chance(0.5));} catch (const std::exception &) {}
      try {dump_of(db);} catch (const std::exception &) {}
     }
     break;
     case interpreted_ro:
     {
      joedb::File f(path, joedb::Open_Mode::read_existing);
      joedb::Readonly_Database_Client c(f);
      for (int i = pulls ? 5 : 0; i > 0; i--)
      {
       sim::sleep_for(int64_t(r.below(300)) * US);
       try {c.pull();} catch (const joedb::Exception &x) {o.error = x.what();}
      }
      sim::Atomic a;
      dump_of(c.get_database());
     }
     break;
     case interpreted_rw:
     {
      joedb::File f(path, pulls ? joedb::Open_Mode::shared_write : joedb::Open_Mode::write_existing);
      joedb::Writable_Database_Client c(f, joedb::Connection::dummy, joedb::Content_Check::fast, joedb::Record_Id(100000), recovery(r));
      for (int i = 0; i < 3; i++)
       c.transaction([&](const joedb::Readable &db, joedb::Writable &w)
       {
        const Ops ops = db_ops(db, r, 3, "after");
        for (auto &o: ops) o(w);
       });
     }
     break;
     case compiled_ro:
     {
      joedb::File f(path, joedb::Open_Mode::read_existing);
      dmg::Readonly_Database db(f);
      sim::Atomic a;
      traverse(db, f);
     }
     break;
     case compiled_client:
     {
      joedb::File f(path, joedb::Open_Mode::read_existing);
      dmg::Readonly_Client c(f);
      for (int i = pulls ? 5 : 0; i >= 0; i--)
      {
       try {c.pull();} catch (const joedb::Exception &x) {o.error = x.what();}
       {
        sim::Atomic a;
        traverse(c.get_database(), f);
       }
       sim::sleep_for(int64_t(r.below(300)) * US);
      }
     }
     break;
     case compiled_rw:
     {
      joedb::File f(path, pulls ? joedb::Open_Mode::shared_write : joedb::Open_Mode::write_existing);
      dmg::Client c(f);
      for (int i = 0; i < 3; i++)
      {
       c.transaction([&](dmg::Writable_Database &db) {compiled_transaction(db, r, 4);});
       sim::Atomic a;
       traverse(c.get_database(), f);
      }
     }
     break;
     case writer:
     {
      joedb::File f(path, joedb::Open_Mode::write_existing);
      joedb::Writable_Journal j(joedb::Journal_Construction_Lock(f, recovery(r)));
      o.checkpoint = j.get_checkpoint();
      j.skip_directly_to(j.get_checkpoint());
      apply(j, seed, 3);
      j.hard_checkpoint();
     }
     break;
     default:
      if (tool(kind) != 0) o.error = "reported";
    }
   }
   catch (const std::exception &x) {o.error = x.what();}
   o.done = true;
  }

  static joedb::Recovery recovery(sim::Rng &r)
  {
   switch (r.below(3)) {case 0: return joedb::Recovery::overwrite; default: return joedb::Recovery::none;}
  }

  struct Process
  {
   int kind = 0;
   Result o;
   sim::Node *node = nullptr;
   sim::Thread *thread = nullptr;
   uint64_t seed = 0;
   bool pulls = false;
   std::string before; // the file when it started
  };

  void start(Process &p)
  {
   const std::string who = "p" + std::to_string(process_count++) + " " + kind_name[p.kind];
   p.node = sim::new_node(who, 0);
   benign(p.node, 0.01);
   p.before = sim::vfs_content(path);
   readers[p.node] = p.kind;
   p.thread = sim::spawn(p.node, who, [this, &p]() {use(p.kind, p.o, p.seed, p.pulls);});
  }

  void wait(Process &p)
  {
   if (!sim::join({p.thread}, 3600 * SEC)) sim::fail("liveness", "%s does not finish", kind_name[p.kind]);
   sim::Atomic a;
   readers.erase(p.node);
   sim::nontrivial();
   SIM_CHECK(p.o.done, "stopped", "%s stopped without a result", kind_name[p.kind]);
   sim::probe(p.o.error.empty() ? "processes_that_read_data" : "processes_that_reported_an_error");
   if (sim::verbose) sim::note("%s: %s", kind_name[p.kind], p.o.error.empty() ? "ok" : p.o.error.substr(0, 200).c_str());
  }

  // Without a limit for record_id, memory and time are proportional to what the file says.
  bool endless(const std::string &d)
  {
   bool r = false;
   sim::Atomic a;
   sim::vfs_put("/sim/9/o", d);
   try
   {
    joedb::File f("/sim/9/o", joedb::Open_Mode::read_existing);
    joedb::Readonly_Journal j(joedb::Journal_Construction_Lock(f, joedb::Recovery::ignore_header));
    Recorder rec;
    rec.sink = [&](const std::string &s)
    {
     if ((s.starts_with("insert_vector") || s.starts_with("delete_vector")) && strtoull(s.c_str() + s.rfind(' '), nullptr, 10) > 100000) r = true;
     if (s.starts_with("insert") && strtoll(s.c_str() + s.find(" r") + 2, nullptr, 10) > 100000) r = true;
    };
    j.rewind();
    j.raw_play_until(rec, int64_t(d.size()));
   }
   catch (const std::exception &) {}
   return r;
  }

  // what precedes the damage must be read as it was written
  void check_prefix(const Process &p, const std::string &damaged)
  {
   if (p.kind != journal) return;
   size_t n = 0;
   while (n < original.size() && n < damaged.size() && original[n] == damaged[n]) n++;
   if (n < header) return;
   if (int64_t(damaged.size()) < published(original)) return; // may be refused
   size_t k = 0;
   while (k < ends.size() && ends[k] <= int64_t(n)) k++;
   for (size_t i = 0; i < k; i++)
   {
    SIM_CHECK(i < p.o.e.size(), "lost-prefix", "the damage starts at byte %zu, after %zu events, but only %zu can be read (%s)", n, k, p.o.e.size(), p.o.error.c_str());
    SIM_CHECK(p.o.e[i] == events[i], "wrong-prefix", "the damage starts at byte %zu, but event %zu, which ends at %ld, is \"%s\" instead of \"%s\"", n, i, ends[i], p.o.e[i].c_str(), events[i].c_str());
   }
   if (k == ends.size()) SIM_CHECK(p.o.e.size() == k && p.o.error.empty(), "lost-prefix", "no committed byte is damaged, but %zu events of %zu are read (%s)", p.o.e.size(), k, p.o.error.c_str());
   sim::probe("prefixes_checked");
   if (k == ends.size()) sim::probe("damage_after_the_last_commit");
  }

  // a writer may refuse, or append, but never damages what it finds
  void check_writer(const Process &p)
  {
   if (!writes(p.kind)) return;
   const std::string after = sim::vfs_content(path);
   const int64_t c = std::min<int64_t>(published(p.before), int64_t(p.before.size()));
   if (c < int64_t(header)) return;
   SIM_CHECK(int64_t(after.size()) >= c, "damaged-further", "%s truncated the file", kind_name[p.kind]);
   for (int64_t i = header; i < c; i++)
    SIM_CHECK(after[size_t(i)] == p.before[size_t(i)], "damaged-further", "%s modified byte %ld of a file that published %ld bytes", kind_name[p.kind], i, c);
   if (p.kind == writer && p.o.error.empty())
   {
    // what was appended is a transaction that can be read
    const int64_t end = published(after);
    std::string x = after.substr(0, header);
    SIM_CHECK(end > p.o.checkpoint && end <= int64_t(after.size()), "not-appended", "a writer opened the file at %ld, and published %ld", p.o.checkpoint, end);
    x += after.substr(size_t(p.o.checkpoint), size_t(end - p.o.checkpoint));
    const int64_t pos[4] = {int64_t(x.size()), int64_t(x.size()), 0, 0};
    memcpy(x.data(), pos, 32);
    const Read_Result got = read_bytes(x);
    const Events want = events_of(p.seed, 3);
    SIM_CHECK(got.ok && got.e == want, "not-appended", "a writer appended to a damaged file: %s %s", got.error.c_str(), diff_text(got.e, want).c_str());
    sim::probe("appended_to_a_damaged_file");
   }
  }

  void begin()
  {
   quiet_destructors();
   sim::heap_limit(size_t(768) << 20, size_t(64) << 20);
   static Null_Buf none;
   std::cerr.rdbuf(&none);
   std::cout.rdbuf(&none);
   std::clog.rdbuf(&none);
   sim::vfs_on_write([this](const std::string &p)
   {
    if (p != path) return;
    auto i = readers.find(sim::self_node());
    SIM_CHECK(i == readers.end() || writes(i->second), "input-modified", "%s modified the file that it reads", kind_name[i->second]);
   });
  }

  void put(const std::string &d)
  {
   sim::Atomic a;
   sim::vfs_put(path, d);
   if (sim::vfs_exists(result)) sim::vfs_remove(result);
  }
 };
}

// the damage happened while nobody had the file open
SCENARIO(P23, damaged_before, 10)
{
 Damage w;
 auto &r = sim::wl();
 w.begin();
 const int files = 1 + int(r.below(3));
 for (int i = 0; i < files; i++)
 {
  w.make(r);
  std::string base;
  {
   sim::Atomic a;
   if (r.chance(0.15)) w.append_wild(r);
   base = sim::vfs_content(w.path);
  }
  w.original = base;
  w.read_original();
  const int variants = 1 + int(r.below(6));
  for (int k = 0; k < variants; k++)
  {
   std::string d = base;
   for (int n = 1 + int(r.below(3)); n > 0; n--) damage(d, r);
   w.put(d);
   for (int m = 1 + int(r.below(4)); m > 0; m--)
   {
    Damage::Process p;
    p.kind = int(r.below(kind_count));
    if (unlimited(p.kind) && w.endless(sim::vfs_content(w.path))) continue;
    p.seed = r.next();
    std::istringstream commands(r.chance(0.5) ? "dump\nschema\njson\nquit\n" : "table person\ninsert_into person 1000\nread_blob 41 5\ndump\njson\nquit\n");
    std::cin.clear();
    std::streambuf *old = std::cin.rdbuf(commands.rdbuf());
    w.start(p);
    w.wait(p);
    std::cin.rdbuf(old);
    sim::Atomic a;
    w.check_prefix(p, p.before);
    w.check_writer(p);
   }
  }
 }
}

// the damage happens while processes have the file open, and others write it
SCENARIO(P23, damaged_while_open, 8)
{
 Damage w;
 auto &r = sim::wl();
 w.begin();
 w.make(r);
 {
  sim::Atomic a;
  w.original = sim::vfs_content(w.path);
 }
 std::deque<Damage::Process> p(2 + r.below(4));
 for (auto &x: p)
 {
  do x.kind = int(r.below(kind_count)); while (x.kind == shell || unlimited(x.kind));
  x.seed = r.next();
  x.pulls = true;
  w.start(x);
 }
 for (int n = 1 + int(r.below(4)); n > 0; n--)
 {
  sim::sleep_for(int64_t(r.below(600)) * US);
  sim::Atomic a;
  std::string d = sim::vfs_content(w.path);
  damage(d, r);
  sim::vfs_put(w.path, d);
 }
 for (auto &x: p) w.wait(x);
}

// a server whose file is damaged, before it starts or while it serves clients
SCENARIO(P23, damaged_server, 6)
{
 Damage w;
 auto &r = sim::wl();
 w.begin();
 Net::separate_asio();
 w.make(r);
 const bool shared = r.chance(0.3), pullonly = r.chance(0.25), before = r.chance(0.5);
 const joedb::Recovery rec = Damage::recovery(r);
 const int64_t lock_timeout = r.chance(0.3) ? int64_t(1 + r.below(20)) : 0;
 std::string first;
 {
  sim::Atomic a;
  if (r.chance(0.15)) w.append_wild(r);
  first = sim::vfs_content(w.path);
 }
 if (before)
 {
  for (int n = 1 + int(r.below(2)); n > 0; n--) damage(first, r);
  w.put(first);
 }
 const std::string sock = "/sim/0/s.sock";
 auto *server_node = sim::new_node("server", 0);
 benign(server_node, 0.003);
 bool up = false, refused = false;
 auto *server = sim::spawn(server_node, "server", [&]()
 {
  try
  {
   Logger_ logger("server");
   joedb::File file(w.path, pullonly ? joedb::Open_Mode::read_existing : shared ? joedb::Open_Mode::shared_write : joedb::Open_Mode::write_existing);
   std::unique_ptr<joedb::Client> client;
   if (pullonly) client.reset(new Listening_Client(file));
   else client.reset(new joedb::Writable_Journal_Client(file, joedb::Connection::dummy, joedb::Content_Check::fast, rec));
   joedb::Server s(logger, 3, 1, sock, *client, std::chrono::milliseconds(lock_timeout));
   up = true;
   s.join();
  }
  catch (const std::exception &x)
  {
   if (sim::verbose) sim::note("server: %s", x.what());
   refused = true;
  }
 });
 sim::wait_until([&]() {return up || refused;}, 600 * SEC);
 SIM_CHECK(up || refused, "liveness", "the server neither starts nor reports an error");
 sim::nontrivial();
 if (refused)
 {
  sim::probe("servers_that_reported_an_error");
  return;
 }
 sim::probe(before ? "servers_that_serve_a_damaged_file" : "servers_whose_file_gets_damaged");
 // a server must not modify what was published
 std::string last = sim::vfs_content(w.path);
 int64_t kept = std::min<int64_t>(published(last), int64_t(last.size()));
 std::deque<Damage::Result> results;
 std::vector<sim::Thread *> threads;
 std::vector<std::pair<sim::Node *, sim::Thread *>> robusts;
 for (int i = 0, n = 1 + int(r.below(3)); i < n; i++)
 {
  const std::string who = "c" + std::to_string(i);
  auto *node = sim::new_node(who, 1 + i);
  benign(node, 0.003);
  const int kind = int(r.below(6)), rounds = 1 + int(r.below(3));
  const bool robust = r.chance(0.3);
  const uint64_t seed = r.next();
  Damage::Result &o = results.emplace_back();
  auto *thread = sim::spawn(node, who, [&, kind, rounds, robust, seed, i]()
  {
   sim::Rng r(seed);
   Logger_ logger("client");
   for (int k = 0; k < rounds; k++)
   {
    try
    {
     joedb::Local_Connector connector(sock);
     if (kind < 3)
     {
      // a local replica
      const std::string path = "/sim/" + std::to_string(1 + i) + "/r.joedb";
      joedb::File file(path, joedb::Open_Mode::write_existing_or_create_new);
      std::unique_ptr<joedb::Channel> channel;
      std::unique_ptr<joedb::Connection> connection;
      if (robust) connection.reset(new joedb::Robust_Connection(connector, logger));
      else
      {
       channel = connector.new_channel();
       connection.reset(new joedb::Server_Connection(*channel, logger));
      }
      if (kind == 0)
      {
       joedb::Writable_Journal_Client c(file, *connection);
       c.pull();
       c.transaction([&](joedb::Writable_Journal &j) {apply(j, r.next(), 3);});
      }
      else if (kind == 1)
      {
       joedb::Writable_Database_Client c(file, *connection, joedb::Content_Check::fast, joedb::Record_Id(100000));
       c.transaction([&](const joedb::Readable &db, joedb::Writable &w) {const Ops ops = db_ops(db, r, 3, "after"); for (auto &o: ops) o(w);});
       c.pull();
      }
      else
      {
       dmg::Client c(file, *connection);
       c.transaction([&](dmg::Writable_Database &db) {compiled_transaction(db, r, 4);});
       c.pull();
      }
     }
     else
     {
      joedb::Server_File file(connector, logger);
      if (kind == 3)
      {
       joedb::Writable_Database_Client c(file, file, joedb::Content_Check::fast, joedb::Record_Id(100000));
       c.transaction([&](const joedb::Readable &db, joedb::Writable &w) {const Ops ops = db_ops(db, r, 3, "after"); for (auto &o: ops) o(w);});
      }
      else if (kind == 4)
      {
       dmg::Client c(file, file);
       c.transaction([&](dmg::Writable_Database &db) {compiled_transaction(db, r, 4);});
       traverse(c.get_database(), file);
      }
      else
      {
       joedb::Writable_Journal_Client c(file, file);
       Recorder recorder;
       const_cast<joedb::Readonly_Journal &>(c.get_journal()).rewind();
       const_cast<joedb::Readonly_Journal &>(c.get_journal()).play_until_checkpoint(recorder);
      }
     }
     sim::probe("clients_that_succeeded");
    }
    catch (const std::exception &x)
    {
     if (sim::verbose) sim::note("client: %s", x.what());
     sim::probe("clients_that_reported_an_error");
    }
    sim::sleep_for(int64_t(r.below(300)) * US);
   }
   o.done = true;
  });
  // a robust connection tries again until it succeeds
  if (robust || kind >= 3) robusts.push_back({node, thread}); else threads.push_back(thread);
 }
 if (!before || r.chance(0.3))
  for (int n = 1 + int(r.below(3)); n > 0; n--)
  {
   sim::sleep_for(int64_t(r.below(2000)) * US);
   sim::Atomic a;
   std::string d = sim::vfs_content(w.path);
   damage(d, r);
   sim::vfs_put(w.path, d);
   kept = -1;
  }
 if (!sim::join(threads, 3600 * SEC)) sim::fail("liveness", "a client of a server whose file is damaged does not finish");
 for (auto &[node, thread]: robusts)
  if (!sim::join({thread}, 60 * SEC)) {sim::probe("robust_clients_that_keep_trying"); sim::crash(node);}
 // the server still answers
 auto *probe = sim::new_node("probe", 5);
 bool answered = false;
 auto *t = sim::spawn(probe, "probe", [&]()
 {
  Logger_ logger("probe");
  joedb::Local_Connector connector(sock);
  auto channel = connector.new_channel();
  joedb::Server_Connection connection(*channel, logger);
  answered = true;
  try {connection.ping();} catch (const std::exception &) {} // it may report an error
 });
 if (!sim::join({t}, 600 * SEC) || !answered) sim::fail("liveness", "a server whose file is damaged no longer answers");
 sim::send_signal(server_node, SIGTERM);
 if (!sim::join({server}, 600 * SEC)) sim::fail("liveness", "a server whose file is damaged does not stop");
 sim::Atomic a;
 if (kept >= 0)
 {
  const std::string after = sim::vfs_content(w.path);
  for (int64_t i = header; i < kept; i++)
   SIM_CHECK(int64_t(after.size()) > i && after[size_t(i)] == last[size_t(i)], "damaged-further", "the server modified byte %ld of a file that published %ld bytes", i, kept);
  sim::probe("server_files_checked");
 }
}
