// Reference model of transactional histories, shared by many scenarios.
#pragma once

#include "scenarios/common.h"
#include "joedb/interpreted/Database.h"
#include "joedb/ui/dump.h"

#include <deque>

namespace h
{
 using Op = std::function<void(joedb::Writable &)>;
 using Ops = std::vector<Op>;

 inline Events events_of(const Ops &ops)
 {
  Recorder r;
  for (auto &o: ops) o(r);
  return std::move(r.e);
 }

 // Valid operations for the current state of a database.
 inline Ops db_ops(const joedb::Readable &db, sim::Rng &r, int n, const std::string &label)
 {
  using namespace joedb;
  Ops ops;
  ops.push_back([label](Writable &w) {w.comment("txn " + label);});
  if (db.get_tables().empty())
  {
   ops.push_back([](Writable &w)
   {
    w.create_table("person");
    w.add_field(Table_Id(1), "name", Type::string());
    w.add_field(Table_Id(1), "age", Type::int32());
    w.add_field(Table_Id(1), "boss", Type::reference(Table_Id(1)));
    w.add_field(Table_Id(1), "score", Type::float64());
    w.create_table("city");
    w.add_field(Table_Id(2), "name", Type::string());
    w.add_field(Table_Id(2), "count", Type::int64());
   });
   ops.push_back([label](Writable &w) {w.comment("end " + label);});
   return ops;
  }
  // new records first, then updates of records that exist
  std::map<Table_Id, std::set<Record_Id>> used;
  std::map<Table_Id, int64_t> next;
  for (auto &t: db.get_tables())
  {
   const int64_t size = to_underlying(db.get_size(t.first));
   for (int64_t i = 0; i < size; i++) if (db.is_used(t.first, Record_Id(i))) used[t.first].insert(Record_Id(i));
   next[t.first] = size;
  }
  std::vector<Table_Id> tables;
  for (auto &t: db.get_tables()) if (to_underlying(t.first) <= 2) tables.push_back(t.first);
  int schema_changes = 0;
  for (int i = 0; i < n && !tables.empty(); i++)
  {
   const Table_Id t = r.pick(tables);
   auto pick = [&]() -> Record_Id
   {
    auto it = used[t].begin();
    std::advance(it, int(r.below(used[t].size())));
    return *it;
   };
   const uint64_t what = r.below(12);
   if (used[t].empty() || what < 3)
   {
    Record_Id id{next[t]};
    // reuse a hole sometimes
    for (int64_t k = 0; k < next[t] && r.chance(0.5); k++) if (!used[t].count(Record_Id(k))) {id = Record_Id(k); break;}
    if (to_underlying(id) == next[t]) next[t]++;
    used[t].insert(id);
    ops.push_back([=](Writable &w) {w.insert_into(t, id);});
    const std::string s = random_string(r);
    ops.push_back([=](Writable &w) {w.update_string(t, id, Field_Id(1), s);});
   }
   else if (what == 3 && used[t].size() > 1)
   {
    const Record_Id id = pick();
    used[t].erase(id);
    ops.push_back([=](Writable &w) {w.delete_from(t, id);});
   }
   else if (what == 4)
   {
    const int64_t n2 = 1 + int64_t(r.below(6));
    const Record_Id id{next[t]};
    for (int64_t k = 0; k < n2; k++) used[t].insert(Record_Id(next[t]++));
    ops.push_back([=](Writable &w) {w.insert_vector(t, id, size_t(n2));});
    std::vector<std::string> v(static_cast<size_t>(n2));
    for (auto &x: v) x = random_string(r);
    ops.push_back([=](Writable &w) {w.update_vector_string(t, id, Field_Id(1), v.size(), v.data());});
   }
   else if (what == 5 && schema_changes++ == 0 && r.chance(0.3))
   {
    const std::string name = "t_" + label + "_" + std::to_string(i);
    ops.push_back([=](Writable &w) {w.create_table(name);});
   }
   else if (what == 6)
   {
    const std::string s = random_string(r);
    ops.push_back([=](Writable &w) {w.write_blob(s);});
   }
   else if (t == Table_Id(1))
   {
    const Record_Id id = pick();
    const int32_t x = int32_t(r.next());
    switch (r.below(4))
    {
     case 0: ops.push_back([=](Writable &w) {w.update_int32(t, id, Field_Id(2), x);}); break;
     case 1: {const Record_Id ref = pick(); ops.push_back([=](Writable &w) {w.update_reference(t, id, Field_Id(3), ref);});} break;
     case 2: ops.push_back([=](Writable &w) {w.update_float64(t, id, Field_Id(4), double(x) / 16);}); break;
     default: {const std::string s = random_string(r); ops.push_back([=](Writable &w) {w.update_string(t, id, Field_Id(1), s);});} break;
    }
   }
   else
   {
    const Record_Id id = pick();
    const int64_t x = int64_t(r.next());
    ops.push_back([=](Writable &w) {w.update_int64(t, id, Field_Id(2), x);});
   }
  }
  ops.push_back([label](Writable &w) {w.comment("end " + label);});
  return ops;
 }

 inline Ops raw_ops(uint64_t seed, int n)
 {
  return {[=](joedb::Writable &w) {apply(w, seed, n);}};
 }

 inline Events dump_of(const joedb::Readable &db)
 {
  Recorder r;
  joedb::dump(db, r);
  return std::move(r.e);
 }

 enum class St {running, acked, doubt, aborted};

 struct Txn
 {
  Events e;
  Ops ops;
  St state = St::running;
  uint64_t begin = 0, ack = 0;
  sim::Node *node = nullptr;
  std::string who;
 };

 // Transactions in the order in which the write lock was granted.
 struct Txn_Log
 {
  std::deque<Txn> t;

  // call while the transaction holds the lock
  size_t begin(const std::string &who, const Ops &ops, bool valid_data = false)
  {
   sim::Atomic a;
   Txn x;
   x.ops = ops;
   x.e = events_of(ops);
   if (valid_data) x.e.push_back("valid_data");
   x.begin = sim::step();
   x.node = sim::self_node();
   x.who = who;
   t.push_back(std::move(x));
   return t.size() - 1;
  }
  void ack(size_t i) {sim::Atomic a; t[i].state = St::acked; t[i].ack = sim::step(); sim::probe("acked_transactions");}
  void abort(size_t i) {sim::Atomic a; t[i].state = St::aborted; sim::probe("aborted_transactions");}
  void doubt(size_t i) {sim::Atomic a; t[i].state = St::doubt; sim::probe("in_doubt_transactions");}

  size_t acked() const {size_t n = 0; for (auto &x: t) n += x.state == St::acked; return n;}

  // Is this sequence of events what the history allows?  Every transaction that
  // was acknowledged at or before step `before` must be there.
  // Returns an explanation when it is not.  `present` gets the transactions found.
  std::string explain(const Events &e, uint64_t before = UINT64_MAX, std::vector<size_t> *present = nullptr) const
  {
   size_t pos = 0;
   for (size_t i = 0; i < t.size(); i++)
   {
    const Txn &x = t[i];
    bool match = pos + x.e.size() <= e.size() && !x.e.empty();
    for (size_t k = 0; match && k < x.e.size(); k++) match = e[pos + k] == x.e[k];
    if (x.e.empty()) continue;
    if (match)
    {
     if (x.state == St::aborted) return "transaction " + std::to_string(i) + " of " + x.who + " was aborted but is visible";
     pos += x.e.size();
     if (present) present->push_back(i);
    }
    else if (x.state == St::acked && x.ack <= before)
    {
     std::string s = "transaction " + std::to_string(i) + " of " + x.who + ", acknowledged, ";
     if (pos >= e.size()) return s + "is missing at the end (" + std::to_string(e.size()) + " events found)";
     size_t k = 0;
     while (k < x.e.size() && pos + k < e.size() && e[pos + k] == x.e[k]) k++;
     return s + "does not match at its event " + std::to_string(k) + ": found \"" + (pos + k < e.size() ? e[pos + k] : "(end)") + "\", expected \"" + x.e[k] + "\"";
    }
   }
   if (pos < e.size()) return "event " + std::to_string(pos) + " of " + std::to_string(e.size()) + " belongs to no committed transaction, or to one that is torn or out of order: \"" + e[pos] + "\"";
   return "";
  }

  // after everything stopped: an in-doubt transaction that is not there never happened
  void settle(const Events &e)
  {
   std::vector<size_t> present;
   explain(e, UINT64_MAX, &present);
   std::deque<Txn> n;
   for (size_t i: present) {t[i].state = St::acked; n.push_back(t[i]);}
   t = std::move(n);
  }

  // database after the transactions that must be there (no doubtful one)
  bool certain() const {for (auto &x: t) if (x.state == St::running || x.state == St::doubt) return false; return true;}
  Events dump(size_t until) const
  {
   joedb::Database db;
   for (size_t i = 0; i < until; i++)
    if (t[i].state == St::acked) for (auto &o: t[i].ops) o(db);
   return dump_of(db);
  }
 };

 struct Abort_Me: std::runtime_error
 {
  Abort_Me(): std::runtime_error("abort requested") {}
 };
}
