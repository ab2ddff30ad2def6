#pragma once
#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/File.h"
#include "joedb/Writable.h"
#include "joedb/error/Exception.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <chrono>
#include <vector>
#include <functional>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

#define CHECK(c) do {if (!(c)) {fprintf(stderr, "demo.cpp:%d: failed: %s\n", __LINE__, #c); fflush(0); _exit(1);}} while (0)

// A file that remembers every write and every sync
struct Rec_File: public joedb::Abstract_File
{
 struct Op {bool sync; int64_t offset; std::string data;};
 mutable std::vector<Op> ops;
 std::string data;
 explicit Rec_File(joedb::Open_Mode m = joedb::Open_Mode::create_new): Abstract_File(m) {}
 int64_t get_size() const override {return int64_t(data.size());}
 size_t pread(char *d, size_t n, int64_t o) const override
 {
  if (o >= int64_t(data.size())) return 0;
  n = std::min(n, data.size() - size_t(o));
  memcpy(d, data.data() + o, n);
  return n;
 }
 static void apply(std::string &s, const Op &op)
 {
  if (s.size() < size_t(op.offset) + op.data.size()) s.resize(size_t(op.offset) + op.data.size());
  memcpy(s.data() + op.offset, op.data.data(), op.data.size());
 }
 void pwrite(const char *d, size_t n, int64_t o) override
 {
  ops.push_back({false, o, std::string(d, n)});
  apply(data, ops.back());
 }
 void sync() override {ops.push_back({true, 0, ""});}
 void datasync() override {sync();}
 // content after the first n operations (what survives the death of the process)
 std::string prefix(size_t n) const
 {
  std::string s;
  for (size_t i = 0; i < n; i++) if (!ops[i].sync) apply(s, ops[i]);
  return s;
 }
 // content after a power failure: only what was followed by a sync, and the
 // later writes for which keep(i) is true
 std::string power(size_t n, const std::function<bool(size_t)> &keep) const
 {
  size_t synced = 0;
  for (size_t i = 0; i < n; i++) if (ops[i].sync) synced = i;
  std::string s;
  for (size_t i = 0; i < n; i++) if (!ops[i].sync && (i < synced || keep(i))) apply(s, ops[i]);
  return s;
 }
};

struct Comments: public joedb::Dummy_Writable
{
 std::vector<std::string> v;
 void comment(const std::string &c) override {v.push_back(c);}
};

struct String_File: public joedb::Memory_File
{
 explicit String_File(const std::string &s) {get_data() = s; make_readonly();}
};

inline std::vector<std::string> read_comments(const std::string &content)
{
 String_File f(content);
 joedb::Readonly_Journal j{joedb::Journal_Construction_Lock(f)};
 Comments c;
 j.replay_log(c);
 return c.v;
}

inline void sleep_ms(int n) {std::this_thread::sleep_for(std::chrono::milliseconds(n));}

// Raw client of a local socket
struct Raw
{
 int fd;
 explicit Raw(const char *path)
 {
  for (int i = 0; i < 200; i++)
  {
   fd = socket(AF_UNIX, SOCK_STREAM, 0);
   sockaddr_un a{};
   a.sun_family = AF_UNIX;
   strcpy(a.sun_path, path);
   if (connect(fd, (sockaddr *)&a, sizeof(a)) == 0) {timeval tv{10, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv)); return;}
   close(fd);
   sleep_ms(20);
  }
  CHECK(!"connect");
 }
 ~Raw() {close(fd);}
 void send(const std::string &s) {CHECK(::send(fd, s.data(), s.size(), MSG_NOSIGNAL) == ssize_t(s.size()));}
 std::string recv(size_t n) // shorter if the connection is closed or silent
 {
  std::string s(n, 0);
  size_t k = 0;
  while (k < n)
  {
   const ssize_t r = ::recv(fd, s.data() + k, n - k, 0);
   if (r <= 0) break;
   k += size_t(r);
  }
  s.resize(k);
  return s;
 }
 static std::string i64(int64_t x) {return std::string((const char *)&x, 8);}
 int64_t handshake() // returns the server checkpoint
 {
  send("joedb" + i64(1000));
  const std::string r = recv(30);
  CHECK(r.size() == 30);
  int64_t c;
  memcpy(&c, r.data() + 21, 8);
  return c;
 }
};
