// Shared by all scenarios: event recorder (reference model), generators,
// exception classification.
#pragma once

#include "sim/sim.h"

#include "joedb/Writable.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/error/Exception.h"
#include "joedb/error/Logger.h"
#include "joedb/journal/File.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Writable_Journal.h"

#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace h
{
 using sim::MS;
 using sim::SEC;
 using sim::US;
 using Events = std::vector<std::string>;

 inline uint64_t fnv(std::string_view s)
 {
  uint64_t x = 1469598103934665603ull;
  for (unsigned char c: s) x = (x ^ c) * 1099511628211ull;
  return x;
 }

 inline std::string brief(std::string_view s)
 {
  if (s.size() <= 40) return std::string(s);
  char b[80];
  snprintf(b, sizeof(b), "...(%zu:%016lx)", s.size(), fnv(s));
  return std::string(s.substr(0, 24)) + b;
 }

 template<typename T> std::string text(const T &v)
 {
  if constexpr (std::is_convertible_v<T, std::string_view>) return brief(v);
  else if constexpr (std::is_same_v<T, joedb::Blob>) return std::to_string(v.get_position()) + "+" + std::to_string(v.get_size());
  else if constexpr (std::is_same_v<T, joedb::Record_Id>) return "r" + std::to_string(joedb::to_underlying(v));
  else if constexpr (std::is_same_v<T, char>) return v ? "true" : "false";
  else if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
  else return std::to_string(v);
 }

 // Everything that a journal says, as text.
 class Recorder: public joedb::Writable
 {
  public:
   Events e;
   // when set, called with each event instead of storing it
   std::function<void(const std::string &)> sink;

   void add(std::string s) {if (sink) sink(s); else e.push_back(std::move(s));}

   using T = joedb::Table_Id;
   using R = joedb::Record_Id;
   using F = joedb::Field_Id;
   static std::string n(T t) {return "t" + std::to_string(joedb::to_underlying(t));}
   static std::string n(R t) {return "r" + std::to_string(joedb::to_underlying(t));}
   static std::string n(F t) {return "f" + std::to_string(joedb::to_underlying(t));}

   void create_table(const std::string &name) override {add("create_table " + name);}
   void drop_table(T t) override {add("drop_table " + n(t));}
   void rename_table(T t, const std::string &name) override {add("rename_table " + n(t) + " " + name);}
   void add_field(T t, const std::string &name, joedb::Type type) override
   {
    add("add_field " + n(t) + " " + name + " " + std::to_string(int(type.get_type_id())) + (type.get_type_id() == joedb::Type::Type_Id::reference ? " " + n(type.get_table_id()) : ""));
   }
   void drop_field(T t, F f) override {add("drop_field " + n(t) + " " + n(f));}
   void rename_field(T t, F f, const std::string &name) override {add("rename_field " + n(t) + " " + n(f) + " " + name);}
   void custom(const std::string &name) override {add("custom " + brief(name));}
   void comment(const std::string &c) override {add("comment " + brief(c));}
   void timestamp(int64_t x) override {add("timestamp " + std::to_string(x));}
   void valid_data() override {add("valid_data");}
   void insert_into(T t, R r) override {add("insert " + n(t) + " " + n(r));}
   void delete_from(T t, R r) override {add("delete " + n(t) + " " + n(r));}
   void insert_vector(T t, R r, size_t s) override {add("insert_vector " + n(t) + " " + n(r) + " " + std::to_string(s));}
   void delete_vector(T t, R r, size_t s) override {add("delete_vector " + n(t) + " " + n(r) + " " + std::to_string(s));}
   #define TYPE_MACRO(type, return_type, type_id, R_, W_)\
   void update_##type_id(T t, R r, F f, return_type v) override\
   {\
    add("update " #type_id " " + n(t) + " " + n(r) + " " + n(f) + " " + text<return_type>(v));\
   }\
   void update_vector_##type_id(T t, R r, F f, size_t size, const type *v) override\
   {\
    std::string s = "update_vector " #type_id " " + n(t) + " " + n(r) + " " + n(f) + " " + std::to_string(size) + ":";\
    for (size_t i = 0; i < size; i++) s += " " + text<type>(v[i]);\
    add(std::move(s));\
   }
   #include "joedb/TYPE_MACRO.h"
   bool wants_blob_data() const override {return true;}
   joedb::Blob write_blob(std::string_view data) override
   {
    add("blob " + std::to_string(data.size()) + " " + brief(data));
    return joedb::Blob(1, int64_t(data.size()));
   }
 };

 inline std::string random_string(sim::Rng &r)
 {
  static const int sizes[] = {0, 1, 5, 31, 32, 100, 1000, 4000, 4095, 4096, 4097, 4200, 8192, 9000, 20000};
  size_t n = r.chance(0.85) ? r.below(40) : size_t(sizes[r.below(15)]) + r.below(3);
  std::string s(n, 0);
  for (auto &c: s) c = char('a' + r.below(26));
  return s;
 }

 // n pseudo-random journal events, a function of the seed only
 inline void apply(joedb::Writable &w, uint64_t seed, int n)
 {
  using namespace joedb;
  sim::Rng r(seed);
  w.comment("txn " + std::to_string(seed) + " n " + std::to_string(n));
  for (int i = 0; i < n; i++)
  {
   const Table_Id t = Table_Id(1 + r.below(3));
   const Field_Id f = Field_Id(1 + r.below(4));
   const Record_Id id = Record_Id(r.below(40));
   switch (r.below(20))
   {
    case 0: w.create_table("table_" + std::to_string(r.below(1000))); break;
    case 1: w.comment(random_string(r)); break;
    case 2: w.timestamp(int64_t(r.next() >> 1)); break;
    case 3: w.valid_data(); break;
    case 4: w.custom(random_string(r)); break;
    case 5: w.insert_into(t, id); break;
    case 6: w.insert_into(t, id); w.insert_into(t, id + 1); w.insert_into(t, id + 2); break;
    case 7: w.delete_from(t, id); break;
    case 8: w.insert_vector(t, id, 1 + r.below(50)); break;
    case 9: w.delete_vector(t, id, 1 + r.below(50)); break;
    case 10: w.update_string(t, id, f, random_string(r)); break;
    case 11: w.update_int64(t, id, f, int64_t(r.next())); w.update_int64(t, id + 1, f, int64_t(r.next())); break;
    case 12: w.update_int8(t, id, f, int8_t(r.next())); w.update_int16(t, id, f, int16_t(r.next())); w.update_int32(t, id, f, int32_t(r.next())); break;
    case 13: w.update_boolean(t, id, f, r.chance(0.5)); w.update_float32(t, id, f, float(r.below(1000)) / 8); w.update_float64(t, id, f, double(r.below(100000)) / 16); break;
    case 14: w.update_reference(t, id, f, Record_Id(int64_t(r.below(100)) - 1)); break;
    case 15: w.update_blob(t, id, f, Blob(int64_t(41 + r.below(5000)), int64_t(r.below(100)))); break;
    case 16: w.write_blob(random_string(r)); break;
    case 17:
    {
     const size_t size = 1 + r.below(20);
     std::vector<int64_t> v(size);
     for (auto &x: v) x = int64_t(r.next());
     w.update_vector_int64(t, id, f, size, v.data());
    }
    break;
    case 18:
    {
     const size_t size = 1 + r.below(6);
     std::vector<std::string> v(size);
     for (auto &x: v) x = random_string(r);
     w.update_vector_string(t, id, f, size, v.data());
    }
    break;
    default: w.rename_table(t, "name_" + std::to_string(r.below(100))); w.add_field(t, "field_" + std::to_string(r.below(1000)), r.chance(0.3) ? Type::reference(t) : Type::string()); break;
   }
  }
  w.comment("end " + std::to_string(seed));
 }

 inline Events events_of(uint64_t seed, int n)
 {
  Recorder r;
  apply(r, seed, n);
  return std::move(r.e);
 }

 inline void append(Events &a, const Events &b) {a.insert(a.end(), b.begin(), b.end());}

 // index of the first difference; -1 when a is a prefix of b
 inline int64_t prefix_mismatch(const Events &a, const Events &b)
 {
  for (size_t i = 0; i < a.size(); i++)
   if (i >= b.size() || a[i] != b[i]) return int64_t(i);
  return -1;
 }

 inline std::string diff_text(const Events &got, const Events &want)
 {
  const int64_t i = prefix_mismatch(got, want);
  if (i < 0)
   return got.size() == want.size() ? "equal" : "got " + std::to_string(got.size()) + " events, expected " + std::to_string(want.size()) + ", next expected: " + want[got.size()];
  return "event " + std::to_string(i) + " of " + std::to_string(got.size()) + ": got \"" + got[size_t(i)] + "\", expected \"" + (size_t(i) < want.size() ? want[size_t(i)] : "(nothing)") + "\"";
 }

 // Reads a file with the real reader, no faults, no scheduling.
 struct Read_Result
 {
  bool ok = false;
  std::string error;
  Events e;
  int64_t checkpoint = 0, hard = 0, size = 0;
 };

 inline Read_Result read_file(const std::string &path, joedb::Recovery recovery = joedb::Recovery::none, bool until_hard = false)
 {
  Read_Result r;
  sim::Atomic a;
  try
  {
   joedb::File file(path, joedb::Open_Mode::read_existing);
   r.size = file.get_size();
   joedb::Readonly_Journal j(joedb::Journal_Construction_Lock(file, recovery));
   r.checkpoint = j.get_checkpoint();
   r.hard = j.get_hard_checkpoint();
   Recorder rec;
   j.rewind();
   if (until_hard) j.raw_play_until(rec, r.hard);
   else j.raw_play_until(rec, r.checkpoint);
   r.e = std::move(rec.e);
   r.ok = true;
  }
  catch (const std::exception &x)
  {
   r.error = x.what();
  }
  return r;
 }

 inline Read_Result read_bytes(const std::string &data, joedb::Recovery recovery = joedb::Recovery::none, bool until_hard = false)
 {
  sim::Atomic a;
  sim::vfs_put("/sim/9/oracle", data);
  return read_file("/sim/9/oracle", recovery, until_hard);
 }

 // a soft checkpoint beyond the end of the file: opening for writing needs
 // Recovery::overwrite
 inline bool beyond_the_end(const std::string &path)
 {
  const std::string d = sim::vfs_content(path);
  if (d.size() < 32) return false;
  int64_t pos[4];
  memcpy(pos, d.data(), 32);
  for (int64_t x: pos) if (-x > int64_t(d.size())) return true;
  return false;
 }

 struct Logger_: joedb::Logger
 {
  std::string name;
  Logger_(std::string name): name(std::move(name)) {}
  void log(beman::cstring_view m) noexcept override
  {
   if (sim::verbose) sim::note("%s: %.300s", name.c_str(), m.c_str());
  }
 };

 inline void quiet_destructors() {joedb::Destructor_Logger::remove_logger();}

 // faults of a sane disk and scheduler: nothing that an application can see
 inline void benign(sim::Node *n, double delay = 0.002)
 {
  n->rates[sim::K_DELAY] = delay;
  n->rates[sim::K_SPURIOUS] = 0.05;
  n->rates[sim::K_CLOCK] = 0.0005;
  n->rates.max_delay_ns = 50 * MS;
 }
}
