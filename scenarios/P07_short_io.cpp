// P07: short and split reads and writes never change a result.
#include "scenarios/net.h"
#include "scenarios/world.h"
#include "joedb/journal/File_Hasher.h"
#include "joedb/journal/Async_Reader.h"
#include "joedb/journal/Async_Writer.h"
#include "joedb/journal/Brotli_File.h"
#include "joedb/journal/Encoded_File.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/Identity_Codec.h"
#include "joedb/journal/Readonly_Brotli_File.h"
#include "joedb/journal/fstream.h"
#include "joedb/journal/Stream_File.h"
using namespace h;

namespace
{
 void set_short(sim::Node *n)
 {
  auto &w = sim::wl();
  benign(n, 0.01);
  const double p = w.chance(0.5) ? 0.5 : 0.1;
  n->rates[sim::K_SHORT_READ] = p;
  n->rates[sim::K_SHORT_WRITE] = w.chance(0.7) ? p : 0;
 }

 std::string random_bytes(sim::Rng &r, size_t n)
 {
  std::string s(n, 0);
  const bool text = r.chance(0.3);
  for (auto &c: s) c = text ? char('a' + r.below(4)) : char(r.next());
  return s;
 }

 std::string read_range(const joedb::Abstract_File &f, int64_t from, int64_t until)
 {
  joedb::Async_Reader reader(f, from, until);
  std::string s(size_t(until - from), 0);
  s.resize(reader.read(s.data(), s.size()));
  return s;
 }

 size_t random_size(sim::Rng &r)
 {
  switch (r.below(8))
  {
   case 0: return 1 + r.below(30);
   case 1: return 4090 + r.below(12);
   case 2: return 8185 + r.below(16);
   case 3: return 100000 + r.below(100000);
   case 4: return 1040000 + r.below(20000);
   default: return 1 + r.below(20000);
  }
 }

 void check_same(const joedb::Abstract_File &f, const std::string &want, const char *what)
 {
  SIM_CHECK(f.get_size() == int64_t(want.size()), "size", "%s: size %ld, expected %zu", what, f.get_size(), want.size());
  const std::string got = read_range(f, 0, int64_t(want.size()));
  if (got == want) return;
  size_t i = 0;
  while (i < got.size() && got[i] == want[i]) i++;
  sim::fail("content", "%s: byte %zu of %zu differs (%zu bytes read)", what, i, want.size(), got.size());
 }

 // every operation on files gives the same result as on a string in memory
 void file_operations()
 {
  auto &w = sim::wl();
  auto *node = sim::new_node("p", 0);
  set_short(node);
  const uint64_t seed = w.next();
  const int n = 1 + int(w.below(sim::thorough() ? 40 : 20));
  for (int i = 0; i < n; i++) sim::declare_op(i, "operation " + std::to_string(i));
  const bool big = w.chance(0.1); // the fast hash reads samples of files larger than 4 MB
  auto *t = sim::spawn(node, "p", [=]()
  {
   sim::Rng rr(seed);
   const std::string path = "/sim/0/a", other = "/sim/0/b";
   std::string m;
   joedb::File f(path, joedb::Open_Mode::create_new);
   if (big)
   {
    m = random_bytes(rr, 4 * 1024 * 1024 + rr.below(3 * 1024 * 1024));
    f.pwrite(m.data(), m.size(), 0);
   }
   for (int i = 0; i < n; i++)
   {
    sim::Rng r(rr.next());
    if (!sim::op_enabled(i)) continue;
    const int64_t size = int64_t(m.size());
    const int64_t a = int64_t(r.below(uint64_t(size + 1))), b = a + int64_t(r.below(uint64_t(size - a + 1)));
    switch (r.below(10))
    {
     case 0: case 1: case 2:
     {
      const std::string s = random_bytes(r, random_size(r));
      const int64_t at = r.chance(0.6) ? size : a;
      f.pwrite(s.data(), s.size(), at);
      if (m.size() < size_t(at) + s.size()) m.resize(size_t(at) + s.size());
      memcpy(m.data() + at, s.data(), s.size());
     }
     break;
     case 3:
      SIM_CHECK(read_range(f, a, b) == m.substr(size_t(a), size_t(b - a)), "content", "reading bytes %ld to %ld", a, b);
      SIM_CHECK(read_range(f, a, size + 1000) == m.substr(size_t(a)), "content", "reading from byte %ld to beyond the end", a);
     break;
     case 4:
      SIM_CHECK(f.read_blob(joedb::Blob(a, b - a)) == m.substr(size_t(a), size_t(b - a)), "blob", "reading blob %ld+%ld", a, b - a);
      {
       bool refused = false;
       try {f.read_blob(joedb::Blob(a, size - a + 1));} catch (const joedb::Exception &) {refused = true;}
       SIM_CHECK(refused, "blob", "a blob beyond the end of the file was read");
      }
     break;
     case 5:
     {
      if (sim::vfs_exists(other)) sim::vfs_remove(other);
      joedb::File g(other, joedb::Open_Mode::create_new);
      const bool all = r.chance(0.5);
      if (all) f.copy_to(g);
      else f.copy_to(g, a, b - a);
      const std::string want = all ? m : b > a ? std::string(size_t(a), 0) + m.substr(size_t(a), size_t(b - a)) : std::string();
      {
       sim::Atomic at;
       SIM_CHECK(sim::vfs_content(other) == want, "copy", "copy of %ld+%ld of %ld bytes is wrong", a, b - a, size);
      }
      SIM_CHECK(f.equal_to(g, all ? 0 : a, b), "equal", "a copy is said to differ from the original, bytes %ld to %ld", all ? 0 : a, b);
      if (b > a)
      {
       const int64_t x = a + int64_t(r.below(uint64_t(b - a)));
       const char c = char(m[size_t(x)] ^ (1 << r.below(8)));
       g.pwrite(&c, 1, x);
       SIM_CHECK(!f.equal_to(g, a, b), "equal", "files that differ at byte %ld are said to be equal, bytes %ld to %ld", x, a, b);
       SIM_CHECK(f.equal_to(g, a, x), "equal", "the beginning of the files is said to differ, bytes %ld to %ld", a, x);
      }
     }
     break;
     case 6:
     {
      const joedb::Readonly_Memory_File mem(m);
      SIM_CHECK(joedb::File_Hasher::get_hash(f, a, b - a) == joedb::File_Hasher::get_hash(mem, a, b - a), "hash", "hash of %ld+%ld", a, b - a);
      SIM_CHECK(joedb::File_Hasher::get_fast_hash(f, 0, size) == joedb::File_Hasher::get_fast_hash(mem, 0, size), "hash", "fast hash of %ld bytes", size);
     }
     break;
     case 7: // C++ streams, reading
     {
      joedb::ifstream s(path.c_str(), joedb::Open_Mode::read_existing);
      s.seekg(a);
      std::string x(size_t(b - a), 0);
      size_t got = 0;
      while (got < x.size())
      {
       const size_t k = std::min(x.size() - got, 1 + r.below(9000));
       if (r.chance(0.3))
       {
        const int c = s.get();
        if (c == EOF) break;
        x[got++] = char(c);
       }
       else
       {
        s.read(x.data() + got, std::streamsize(k));
        got += size_t(s.gcount());
        if (!s) break;
       }
       if (got && r.chance(0.2))
       {
        s.unget();
        got--;
       }
       if (r.chance(0.2)) SIM_CHECK(s.tellg() == std::streampos(a + int64_t(got)), "stream", "position %ld, expected %ld", long(s.tellg()), a + int64_t(got));
      }
      x.resize(got);
      SIM_CHECK(x == m.substr(size_t(a), size_t(b - a)), "stream", "reading bytes %ld to %ld with a stream", a, b);
     }
     break;
     case 8: // C++ streams, writing
     {
      if (sim::vfs_exists(other)) sim::vfs_remove(other);
      std::string want;
      {
       joedb::ofstream s(other.c_str(), joedb::Open_Mode::create_new);
       size_t pos = 0;
       for (int k = int(r.below(12)); k >= 0; k--)
       {
        std::string x = random_bytes(r, r.chance(0.7) ? r.below(200) : r.below(20000));
        if (r.chance(0.2)) {pos = r.below(want.size() + 1); s.seekp(std::streamoff(pos));}
        if (r.chance(0.3)) for (char c: x) s.put(c);
        else s.write(x.data(), std::streamsize(x.size()));
        if (want.size() < pos + x.size()) want.resize(pos + x.size());
        memcpy(want.data() + pos, x.data(), x.size());
        pos += x.size();
        SIM_CHECK(s.good(), "stream", "writing to a stream failed");
       }
       s.flush();
      }
      sim::Atomic at;
      SIM_CHECK(sim::vfs_content(other) == want, "stream", "what was written with a stream is wrong (%zu bytes)", want.size());
     }
     break;
     default:
      check_same(f, m, "file");
     break;
    }
   }
   check_same(f, m, "file at the end");
   sim::Atomic at;
   SIM_CHECK(sim::vfs_content(path) == m, "content", "the file is wrong at the end");
   sim::nontrivial();
  });
  if (!sim::join({t}, 3600 * SEC)) sim::fail("liveness", "a file operation does not end");
 }

 // the same operations give the same bytes in a file and in memory, and the
 // same events and database when they are read back
 void journals()
 {
  auto &w = sim::wl();
  auto *node = sim::new_node("p", 0);
  set_short(node);
  struct Step {int op, what; uint64_t seed; int n;};
  std::vector<Step> plan;
  const int n = 1 + int(w.below(sim::thorough() ? 30 : 12));
  for (int i = 0; i < n; i++)
  {
   plan.push_back({i, int(w.below(6)), w.next() >> 24, int(w.below(12))});
   static const char *const names[] = {"soft checkpoint", "hard checkpoint", "both", "no checkpoint", "big blob", "reopen"};
   sim::declare_op(i, std::string(names[plan.back().what]) + " after events seed " + std::to_string(plan.back().seed) + " n " + std::to_string(plan.back().n));
  }
  const int encoding = int(w.below(3)); // plain file, or encoded in another journal
  auto *t = sim::spawn(node, "p", [=]()
  {
   const std::string path = "/sim/0/j";
   joedb::Memory_File mem;
   std::optional<joedb::Writable_Journal> mj;
   Events want;
   std::vector<std::pair<joedb::Blob, std::string>> blobs;

   joedb::Identity_Codec identity;
   std::unique_ptr<joedb::File> plain;
   std::unique_ptr<joedb::db::encoded_file::File_Database> edb;
   std::unique_ptr<joedb::Abstract_File> file;
   std::unique_ptr<joedb::Writable_Journal> j;

   auto open = [&]()
   {
    j.reset(); file.reset(); edb.reset();
    if (encoding == 0) file.reset(new joedb::File(path, joedb::Open_Mode::write_existing_or_create_new));
    else if (encoding == 1) file.reset(new joedb::Brotli_File(path.c_str()));
    else
    {
     edb.reset(new joedb::db::encoded_file::File_Database(path));
     file.reset(new joedb::Encoded_File(identity, *edb));
    }
    j.reset(new joedb::Writable_Journal(*file));
    mj.emplace(mem);
    j->skip_directly_to(j->get_checkpoint());
    mj->skip_directly_to(mj->get_checkpoint());
    SIM_CHECK(j->get_position() == mj->get_position(), "reopen", "position after opening again");
   };

   auto check = [&]()
   {
    check_same(*file, mem.get_data(), "journal");
    for (auto &b: blobs) SIM_CHECK(file->read_blob(b.first) == b.second, "blob", "a blob is read wrong");
    // ranges, also across and after the end
    {
     const std::string &d = mem.get_data();
     sim::Rng r(d.size());
     for (int i = 0; i < 4; i++)
     {
      const size_t a = r.below(d.size() + 20), z = 1 + r.below(r.chance(0.5) ? 100 : 30000);
      const std::string got = read_range(*file, int64_t(a), int64_t(a + z));
      SIM_CHECK(got == (a < d.size() ? d.substr(a, z) : std::string()), "content", "reading %zu bytes at %zu of %zu gives %zu bytes, or wrong ones", z, a, d.size(), got.size());
     }
     bool thrown = false;
     try {file->read_blob(joedb::Blob(int64_t(d.size() - r.below(30)), 40));}
     catch (const joedb::Exception &) {thrown = true;}
     SIM_CHECK(thrown, "blob", "reading a blob after the end does not fail");
    }
    if (encoding == 1)
    {
     file->sync();
     joedb::Readonly_Brotli_File f(path.c_str());
     check_same(f, mem.get_data(), "compressed file read by another process");
    }
    if (encoding == 0)
    {
     joedb::File f(path, joedb::Open_Mode::read_existing);
     joedb::Readonly_Journal r(f);
     Recorder rec;
     r.replay_log(rec);
     Events e;
     for (auto &x: want) e.push_back(x);
     SIM_CHECK(rec.e == e, "events", "%s", diff_text(rec.e, e).c_str());
     SIM_CHECK(joedb::Journal_Hasher::get_full_hash(r, r.get_checkpoint()) == joedb::Journal_Hasher::get_full_hash(*mj, r.get_checkpoint()), "hash", "the hash of the file is wrong");
    }
    sim::probe("journals_compared");
   };

   open();
   for (auto &q: plan)
   {
    if (!sim::op_enabled(q.op)) continue;
    joedb::Writable *const both[] = {j.get(), &*mj};
    for (auto *x: both) apply(*x, q.seed, q.n);
    append(want, events_of(q.seed, q.n));
    if (q.what == 4)
    {
     sim::Rng r(q.seed);
     const std::string s = random_bytes(r, 50000 + r.below(encoding ? 150000 : 1200000));
     const joedb::Blob b = j->write_blob(s);
     SIM_CHECK(mj->write_blob(s).get_position() == b.get_position(), "blob", "position of a blob");
     blobs.push_back({b, s});
     Recorder rec; rec.write_blob(s);
     append(want, rec.e);
    }
    if (q.what != 1) {j->soft_checkpoint(); mj->soft_checkpoint();}
    if (q.what == 1 || q.what == 2) {j->hard_checkpoint(); mj->hard_checkpoint();}
    if (q.what == 5) open();
    if (q.what != 3) check();
   }
   j->soft_checkpoint(); mj->soft_checkpoint();
   check();
   if (encoding) {open(); check();}
   sim::nontrivial();
  });
  if (!sim::join({t}, 3600 * SEC)) sim::fail("liveness", "writing a journal does not end");
 }
}

SCENARIO(P07, short_files, 8) {sim::vfs_short_words(true); quiet_destructors(); file_operations();}
SCENARIO(P07, short_journal, 8) {sim::vfs_short_words(true); quiet_destructors(); journals();}

SCENARIO(P07, short_shared, 8)
{
 sim::vfs_short_words(true);
 World w;
 w.k.short_io = 0.3;
 w.k.split = sim::wl().chance(0.5) ? 0.2 : 0;
 w.k.max_readers = 2;
 w.k.abort = 0.1;
 w.k.max_lives = 2;
 w.run();
}

SCENARIO(P07, short_server, 8)
{
 sim::vfs_short_words(true);
 sim::nontrivial();
 Net n;
 n.k.short_io = 0.3;
 n.k.max_clients = 3;
 n.k.server_file = 0.3;
 n.k.big = 0.4;
 n.k.preads = 0.4;
 n.k.local_writer = 0.3;
 n.run();
}
