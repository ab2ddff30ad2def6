From 82d501e0b7183542db1ecdef60854f1b9f0e56f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 01/37] fix: read file size after acquiring the construction
 lock

When opening a shared file, the size was read before locking the file. If
another process wrote to the file between the two, the constructor failed
with a bogus error (checkpoint bigger than file size, or smaller than file
size), or even took a non-empty file for an empty one and overwrote its
header, or took a checkpoint of the other process for an invalid one.
---
 .../journal/Journal_Construction_Lock.cpp     | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/joedb/journal/Journal_Construction_Lock.cpp b/src/joedb/journal/Journal_Construction_Lock.cpp
index 76cd5bf..7ed5d8c 100644
--- a/src/joedb/journal/Journal_Construction_Lock.cpp
+++ b/src/joedb/journal/Journal_Construction_Lock.cpp
@@ -3,15 +3,8 @@
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
- Journal_Construction_Lock::Journal_Construction_Lock
+ static int64_t lock_and_get_size(Abstract_File &file)
  ////////////////////////////////////////////////////////////////////////////
- (
-  Abstract_File &file,
-  Recovery recovery
- ):
-  file(file),
-  recovery(recovery),
-  size(file.get_size())
  {
   if (file.is_readonly())
    file.shared_lock_head();
@@ -21,6 +14,22 @@ namespace joedb
     file.exclusive_lock_tail();
    file.exclusive_lock_head();
   }
+
+  // the size must not be read before locking: another process may write
+  return file.get_size();
+ }
+
+ ////////////////////////////////////////////////////////////////////////////
+ Journal_Construction_Lock::Journal_Construction_Lock
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  Abstract_File &file,
+  Recovery recovery
+ ):
+  file(file),
+  recovery(recovery),
+  size(lock_and_get_size(file))
+ {
  }
 
  ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 1eefc33663abd2cd0dd00d24f612f37795c47753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 02/37] fix: overwrite all after-the-end-of-file soft
 checkpoints

After a power failure, the header may contain a soft checkpoint that is
beyond the end of the file. It was ignored when opening the file, but left
in place (or only one of its two possible locations was overwritten). So
it was taken for a valid checkpoint by the next pull, or when opening the
file again after it had grown.
---
 src/joedb/journal/Readonly_Journal.cpp |  2 ++
 src/joedb/journal/Readonly_Journal.h   |  1 +
 src/joedb/journal/Writable_Journal.cpp | 15 +++++++++++----
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/joedb/journal/Readonly_Journal.cpp b/src/joedb/journal/Readonly_Journal.cpp
index 8e01958..f82dfd2 100644
--- a/src/joedb/journal/Readonly_Journal.cpp
+++ b/src/joedb/journal/Readonly_Journal.cpp
@@ -123,6 +123,8 @@ void joedb::Readonly_Journal::read_checkpoint
     hard_index = i ^ 1;
     soft_index = j;
    }
+   else if (file_size >= 0 && -pos[2 * i + j] > file_size)
+    after_the_end_checkpoint = true;
   }
  }
 
diff --git a/src/joedb/journal/Readonly_Journal.h b/src/joedb/journal/Readonly_Journal.h
index 28cb8b9..37acff1 100644
--- a/src/joedb/journal/Readonly_Journal.h
+++ b/src/joedb/journal/Readonly_Journal.h
@@ -34,6 +34,7 @@ namespace joedb
    int soft_index;
    int64_t checkpoint_position;
    int64_t hard_checkpoint_position;
+   bool after_the_end_checkpoint = false;
 
    Table_Id table_of_last_operation;
    Record_Id record_of_last_operation;
diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 8cc269d..7d5a5ad 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -58,11 +58,18 @@ namespace joedb
    );
   }
 
-  // overwrite after-the-end-of-file soft checkpoint
-  if (lock.recovery == Recovery::overwrite && checkpoint_position == lock.size)
+  // overwrite after-the-end-of-file soft checkpoints
+  if (lock.recovery == Recovery::overwrite && after_the_end_checkpoint)
   {
-   checkpoint_position = -1;
-   soft_checkpoint_at(lock.size);
+   const int64_t position = checkpoint_position;
+
+   for (int i = 0; i < 2; i++)
+   {
+    checkpoint_position = -1;
+    soft_checkpoint_at(position);
+   }
+
+   after_the_end_checkpoint = false;
   }
  }
 
-- 
2.43.0


From ad9071c689c46c628b1050d78e995ba8a66a32ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 03/37] fix: do not write updates relative to operations of
 another writer

Writable_Journal_Client skips data written by others. An update following
data that was skipped could be encoded relative to the last operation of
this client, whereas readers decode it relative to the last operation of
the other writer: the value went to another table, record, or field.
---
 src/joedb/journal/Readonly_Journal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/journal/Readonly_Journal.h b/src/joedb/journal/Readonly_Journal.h
index 37acff1..5413949 100644
--- a/src/joedb/journal/Readonly_Journal.h
+++ b/src/joedb/journal/Readonly_Journal.h
@@ -117,6 +117,7 @@ namespace joedb
    void skip_directly_to(int64_t position)
    {
     file_buffer.set_position(position);
+    reset_context();
    }
    bool equal_to(Readonly_Journal &journal, int64_t from, int64_t until) const
    {
-- 
2.43.0


From d2dfa10071aed809bc98f571fe8cc6d38b725767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 04/37] fix: do not overwrite data of other processes after an
 aborted transaction

Data written by an aborted transaction could remain in the buffer of the
journal after unlocking the file. It was written later, when destroying the
journal, over data committed in the meantime by other processes.
---
 src/joedb/journal/Writable_Journal.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 7d5a5ad..189aa77 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -522,6 +522,10 @@ namespace joedb
  Tail_Exclusive_Lock::~Tail_Exclusive_Lock()
  /////////////////////////////////////////////////////////////////////////////
  {
+  // Data of an aborted transaction must not be written after unlocking,
+  // because it would overwrite what other processes wrote in the meantime.
+  try { journal.flush(); } catch (...) {}
+
   journal.unlock();
  }
 }
-- 
2.43.0


From 2e24ae72d1dfe24dae545b6baad81729833e0f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 05/37] fix: keep the most recent soft checkpoint until the
 hard checkpoint is valid

The first copy of a hard checkpoint could overwrite the most recent soft
checkpoint. If the process was killed before writing the second copy, then
a transaction that had been committed, and read by others, was lost.
---
 src/joedb/journal/Writable_Journal.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 189aa77..bd1668c 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -150,15 +150,18 @@ namespace joedb
   file_buffer.flush();
 
   hard_index ^= 1;
+  soft_index ^= 1;
   hard_checkpoint_position = checkpoint_position = position;
 
   Head_Exclusive_Lock lock(file);
 
+  // The first copy overwrites the oldest of the two soft checkpoints, so that
+  // the most recent one is still valid in case of a crash before the second.
   file.pwrite
   (
    reinterpret_cast<const char *>(&checkpoint_position),
    sizeof(checkpoint_position),
-   int64_t(sizeof(checkpoint_position)) * (2 * hard_index)
+   int64_t(sizeof(checkpoint_position)) * (2 * hard_index + soft_index)
   );
 
   file.sync();
@@ -167,7 +170,7 @@ namespace joedb
   (
    reinterpret_cast<const char *>(&checkpoint_position),
    sizeof(checkpoint_position),
-   int64_t(sizeof(checkpoint_position)) * (2 * hard_index + 1)
+   int64_t(sizeof(checkpoint_position)) * (2 * hard_index + (soft_index ^ 1))
   );
 
   file.datasync();
-- 
2.43.0


From 34f6534259e35f4f4cd231987f3583c9b2263b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:44 +0000
Subject: [PATCH 06/37] fix: continue writing after pushed data in joedb_server

With joedb_server --hard_checkpoint, the journal position was still before
the data received from the client, so the hard checkpoint went back to it.
---
 src/joedb/concurrency/Server.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index a04519a..536be74 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -424,10 +424,9 @@ namespace joedb
    {
     if (get_server().client_lock)
     {
-     get_server().client_lock->get_journal().soft_checkpoint_at
-     (
-      push_writer->get_position()
-     );
+     Writable_Journal &journal = get_server().client_lock->get_journal();
+     journal.soft_checkpoint_at(push_writer->get_position());
+     journal.skip_directly_to(push_writer->get_position());
 
      if (get_server().client.is_shared() && unlock_after)
      {
-- 
2.43.0


From c113f59d88a02fca75a7d32d693a9483a2a3cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 07/37] fix: start the keep-alive thread after the connection
 handshake

The thread could use the channel before its construction, or send a ping
in the middle of the handshake. It could also survive the members it uses.
---
 src/joedb/concurrency/Keep_Alive_Thread.h | 7 ++++++-
 src/joedb/concurrency/Server_Client.cpp   | 5 +++--
 src/joedb/concurrency/Server_Client.h     | 5 ++++-
 src/joedb/rpc/Client.h                    | 1 +
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/joedb/concurrency/Keep_Alive_Thread.h b/src/joedb/concurrency/Keep_Alive_Thread.h
index f7db6e2..f65c890 100644
--- a/src/joedb/concurrency/Keep_Alive_Thread.h
+++ b/src/joedb/concurrency/Keep_Alive_Thread.h
@@ -66,7 +66,12 @@ namespace joedb
     thread_must_stop(false),
     stopped(true)
    {
-    if (interval.count() > 0)
+   }
+
+   /// To be called once the client is ready to ping
+   void start()
+   {
+    if (stopped && interval.count() > 0)
     {
      stopped = false;
      thread = std::thread([this](){keep_alive();});
diff --git a/src/joedb/concurrency/Server_Client.cpp b/src/joedb/concurrency/Server_Client.cpp
index 94558e4..caeabce 100644
--- a/src/joedb/concurrency/Server_Client.cpp
+++ b/src/joedb/concurrency/Server_Client.cpp
@@ -116,13 +116,14 @@ namespace joedb
   Logger &logger,
   std::chrono::milliseconds keep_alive_interval
  ):
-  keep_alive(*this, keep_alive_interval),
   channel(channel),
   logger(logger),
   session_id(-1),
-  pullonly_server(false)
+  pullonly_server(false),
+  keep_alive(*this, keep_alive_interval)
  {
   connect();
+  keep_alive.start();
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/concurrency/Server_Client.h b/src/joedb/concurrency/Server_Client.h
index 6024cab..9de7bc4 100644
--- a/src/joedb/concurrency/Server_Client.h
+++ b/src/joedb/concurrency/Server_Client.h
@@ -19,7 +19,6 @@ namespace joedb
 
   private:
    void locked_ping(Lock<Channel&> &lock) override;
-   Keep_Alive_Thread keep_alive;
 
    void connect();
    void disconnect();
@@ -44,6 +43,10 @@ namespace joedb
 
    void log(beman::cstring_view message) noexcept override;
 
+  private:
+   // Last member: the thread must stop before others are destroyed
+   Keep_Alive_Thread keep_alive;
+
   public:
    ///
    /// @param keep_alive_interval: a background thread will send a ping
diff --git a/src/joedb/rpc/Client.h b/src/joedb/rpc/Client.h
index 8834e75..a0853bb 100644
--- a/src/joedb/rpc/Client.h
+++ b/src/joedb/rpc/Client.h
@@ -60,6 +60,7 @@ namespace joedb::rpc
     keep_alive(*this, keep_alive_interval)
    {
     handshake();
+    keep_alive.start();
    }
 
    void call(int64_t procedure_id, Memory_File &file)
-- 
2.43.0


From f0de018369b6df1629c68c16eb5dea20b0897ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 08/37] fix: hold the channel lock when using the shared buffer

A keep-alive ping could overwrite the request or the reply of pread,
handshake and unlock.
---
 src/joedb/concurrency/Server_Connection.cpp | 34 +++++++++++++--------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/joedb/concurrency/Server_Connection.cpp b/src/joedb/concurrency/Server_Connection.cpp
index 8df0ec3..7a52f60 100644
--- a/src/joedb/concurrency/Server_Connection.cpp
+++ b/src/joedb/concurrency/Server_Connection.cpp
@@ -9,12 +9,13 @@ namespace joedb
  size_t Server_Connection::pread(char *data, size_t size, int64_t offset) const
  ////////////////////////////////////////////////////////////////////////////
  {
+  Lock<Channel&> lock(channel);
+
   buffer.index = 0;
   buffer.write<char>('r');
   buffer.write<int64_t>(offset);
   buffer.write<int64_t>(offset + int64_t(size));
 
-  Lock<Channel&> lock(channel);
   lock->write(buffer.data, buffer.index);
   lock->read(buffer.data, 9);
 
@@ -51,25 +52,29 @@ namespace joedb
    client_journal.get_checkpoint()
   );
 
-  buffer.index = 0;
-  buffer.write<char>(content_check == Content_Check::fast ? 'H' : 'I');
-  buffer.write<int64_t>(checkpoint);
-  buffer.write
-  (
-   content_check == Content_Check::fast
+  const SHA_256::Hash hash = content_check == Content_Check::fast
    ? Journal_Hasher::get_fast_hash(client_journal, checkpoint)
-   : Journal_Hasher::get_full_hash(client_journal, checkpoint)
-  );
+   : Journal_Hasher::get_full_hash(client_journal, checkpoint);
+
+  char reply;
 
   {
    Lock<Channel&> lock(channel);
+
+   buffer.index = 0;
+   buffer.write<char>(content_check == Content_Check::fast ? 'H' : 'I');
+   buffer.write<int64_t>(checkpoint);
+   buffer.write(hash);
+
    lock->write(buffer.data, buffer.index);
    lock->read(buffer.data, 1);
+
+   reply = buffer.data[0];
   }
 
-  log(std::string("hash result: ") + buffer.data[0]);
+  log(std::string("hash result: ") + reply);
 
-  if (buffer.data[0] == 'h')
+  if (reply == 'h')
    content_mismatch();
 
   return server_checkpoint;
@@ -189,16 +194,19 @@ namespace joedb
  {
   log("joedb::Server_Connection::unlock");
 
+  char reply;
+
   {
    Lock<Channel&> lock(channel);
    buffer.data[0] = 'M';
    lock->write(buffer.data, 1);
    lock->read(buffer.data, 1);
+   reply = buffer.data[0];
   }
 
-  log(std::string() + buffer.data[0]);
+  log(std::string() + reply);
 
-  if (buffer.data[0] != 'M')
+  if (reply != 'M')
    throw Disconnection("unlock error: unexpected reply");
  }
 }
-- 
2.43.0


From e945093ec603c132651e9c235fc4fe67fd753e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:41 +0000
Subject: [PATCH 09/37] fix: do not reuse the writer of a previous push

A push that is refused because of a conflict was written to the file with
the writer of a previous push of the same session, over committed data.
---
 src/joedb/concurrency/Server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index 536be74..c7d0bcc 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -372,6 +372,7 @@ namespace joedb
   );
 
   push_status = buffer.data[0];
+  push_writer.reset();
 
   if (!get_server().writable_journal_client)
    push_status = 'R';
-- 
2.43.0


From c892a0798e47993f3ea47dbab6c1e35faeab1610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:41 +0000
Subject: [PATCH 10/37] fix: ignore a lock timeout that is no longer relevant

The handler could run after the session was destroyed, or after the
session released the lock or refreshed its timeout.
---
 src/joedb/concurrency/Server.cpp | 12 ++++++++++--
 src/joedb/concurrency/Server.h   |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index c7d0bcc..c38da7b 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -125,6 +125,7 @@ namespace joedb
     log("unlock");
 
    locking = false;
+   lock_timeout_token.reset();
    lock_timeout_timer.cancel();
 
    if (get_server().lock_waiters.empty())
@@ -147,12 +148,19 @@ namespace joedb
  {
   if (locking && get_server().lock_timeout.count() > 0)
   {
+   // When the timer has expired, the handler can no longer be cancelled, and
+   // may run after unlocking, refreshing, or destroying the session.
+   lock_timeout_token = std::make_shared<char>();
+
    lock_timeout_timer.expires_after(get_server().lock_timeout);
    lock_timeout_timer.async_wait
    (
-    [this](std::error_code error)
+    [this, token = std::weak_ptr<char>(lock_timeout_token)]
+    (
+     std::error_code error
+    )
     {
-     if (!error)
+     if (!error && !token.expired())
      {
       if (get_server().log_level > 2)
        log("timeout");
diff --git a/src/joedb/concurrency/Server.h b/src/joedb/concurrency/Server.h
index de9fd5a..9de6369 100644
--- a/src/joedb/concurrency/Server.h
+++ b/src/joedb/concurrency/Server.h
@@ -6,6 +6,7 @@
 
 #include <deque>
 #include <map>
+#include <memory>
 #include <optional>
 
 namespace joedb
@@ -28,6 +29,7 @@ namespace joedb
      bool locking = false;
 
      boost::asio::steady_timer lock_timeout_timer;
+     std::shared_ptr<char> lock_timeout_token;
      boost::asio::awaitable<void> lock();
      void unlock();
      void refresh_lock_timeout();
-- 
2.43.0


From f5e7b9f2268d3545d0e3097d060bf360f069a0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:48 +0000
Subject: [PATCH 11/37] fix: detect a replica that has diverged when pulling
 from joedb_server

A client whose local file has unpushed data is checked against the server
when it connects. If other clients push before it does, new data from the
server was appended after the unpushed data, and the result was pushed to
the server, corrupting it for everybody.
---
 src/joedb/concurrency/Server_Connection.cpp | 108 +++++++++++++++-----
 src/joedb/concurrency/Server_Connection.h   |   9 ++
 2 files changed, 92 insertions(+), 25 deletions(-)

diff --git a/src/joedb/concurrency/Server_Connection.cpp b/src/joedb/concurrency/Server_Connection.cpp
index 7a52f60..60a4873 100644
--- a/src/joedb/concurrency/Server_Connection.cpp
+++ b/src/joedb/concurrency/Server_Connection.cpp
@@ -3,6 +3,9 @@
 #include "joedb/error/Disconnection.h"
 #include "joedb/ui/Progress_Bar.h"
 
+#include <cstring>
+#include <vector>
+
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
@@ -80,6 +83,41 @@ namespace joedb
   return server_checkpoint;
  }
 
+ ////////////////////////////////////////////////////////////////////////////
+ void Server_Connection::check_unpushed_data
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  const Readonly_Journal &client_journal,
+  int64_t from
+ ) const
+ {
+  const int64_t until = std::min
+  (
+   server_checkpoint,
+   client_journal.get_checkpoint()
+  );
+
+  std::vector<char> client_data(buffer.size);
+  std::vector<char> server_data(buffer.size);
+
+  while (from < until)
+  {
+   const size_t client_size = client_journal.get_file().pread
+   (
+    client_data.data(),
+    size_t(std::min(until - from, int64_t(client_data.size()))),
+    from
+   );
+
+   const size_t size = pread(server_data.data(), client_size, from);
+
+   if (size == 0 || std::memcmp(client_data.data(), server_data.data(), size))
+    content_mismatch();
+
+   from += int64_t(size);
+  }
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  int64_t Server_Connection::pull
  ////////////////////////////////////////////////////////////////////////////
@@ -90,41 +128,61 @@ namespace joedb
   std::chrono::milliseconds wait
  )
  {
-  Lock<Channel&> lock(channel);
+  const int64_t checked_checkpoint = server_checkpoint;
 
-  const char pull_type = char('D' + int(lock_action) + 2*int(data_transfer));
+  Async_Writer writer = client_journal.get_async_tail_writer();
 
-  log("pulling, lock = " + std::to_string(int(lock_action)) +
-   ", data = " + std::to_string(int(data_transfer)) +
-   ", wait = " + std::to_string(double(wait.count()) * 0.001)  + 's');
+  {
+   Lock<Channel&> lock(channel);
 
-  buffer.index = 0;
-  buffer.write<char>(pull_type);
-  buffer.write<int64_t>(wait.count());
-  buffer.write<int64_t>(client_journal.get_checkpoint());
-  lock->write(buffer.data, buffer.index);
+   const char pull_type = char('D' + int(lock_action) + 2*int(data_transfer));
 
-  buffer.index = 0;
-  lock->read(buffer.data, 9);
-  {
-   const char reply = buffer.read<char>();
-   if (reply == 'R')
-    throw Disconnection("pull error: server is pull-only, cannot lock");
-   else if (reply != pull_type)
-    throw Disconnection("pull error: unexpected server reply");
+   log("pulling, lock = " + std::to_string(int(lock_action)) +
+    ", data = " + std::to_string(int(data_transfer)) +
+    ", wait = " + std::to_string(double(wait.count()) * 0.001)  + 's');
+
+   buffer.index = 0;
+   buffer.write<char>(pull_type);
+   buffer.write<int64_t>(wait.count());
+   buffer.write<int64_t>(client_journal.get_checkpoint());
+   lock->write(buffer.data, buffer.index);
+
+   buffer.index = 0;
+   lock->read(buffer.data, 9);
+   {
+    const char reply = buffer.read<char>();
+    if (reply == 'R')
+     throw Disconnection("pull error: server is pull-only, cannot lock");
+    else if (reply != pull_type)
+     throw Disconnection("pull error: unexpected server reply");
+   }
+   server_checkpoint = buffer.read<int64_t>();
+
+   if (bool(data_transfer))
+   {
+    buffer.index = 0;
+    const int64_t size = server_checkpoint - client_journal.get_checkpoint();
+    download(writer, lock, size);
+   }
+   else
+    log("!data_transfer");
   }
-  server_checkpoint = buffer.read<int64_t>();
 
   if (bool(data_transfer))
   {
-   buffer.index = 0;
-   const int64_t size = server_checkpoint - client_journal.get_checkpoint();
-   Async_Writer writer = client_journal.get_async_tail_writer();
-   download(writer, lock, size);
+   try
+   {
+    check_unpushed_data(client_journal, checked_checkpoint);
+   }
+   catch (const Content_Mismatch &)
+   {
+    if (bool(lock_action))
+     unlock();
+    throw;
+   }
+
    client_journal.soft_checkpoint_at(writer.get_position());
   }
-  else
-   log("!data_transfer");
 
   return server_checkpoint;
  }
diff --git a/src/joedb/concurrency/Server_Connection.h b/src/joedb/concurrency/Server_Connection.h
index f37769d..60c1451 100644
--- a/src/joedb/concurrency/Server_Connection.h
+++ b/src/joedb/concurrency/Server_Connection.h
@@ -9,6 +9,15 @@ namespace joedb
  /// @ingroup concurrency
  class Server_Connection: public Server_Client, public Connection
  {
+  private:
+   /// When unpushed data of the client meets new data of the server, check
+   /// that they are equal, in case the server received them from another path
+   void check_unpushed_data
+   (
+    const Readonly_Journal &client_journal,
+    int64_t from
+   ) const;
+
   public:
    Server_Connection
    (
-- 
2.43.0


From 5f943f38b835eac9cb767e52ff7c7b96fb2a1b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:08 +0000
Subject: [PATCH 12/37] fix: do not accept connections before the server is
 constructed

A client that connected during construction caused a call to a pure
virtual function.
---
 src/joedb/asio/Server.cpp        | 7 ++++++-
 src/joedb/asio/Server.h          | 4 ++++
 src/joedb/concurrency/Server.cpp | 2 ++
 src/joedb/rpc/Server.h           | 1 +
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/joedb/asio/Server.cpp b/src/joedb/asio/Server.cpp
index d36add3..3da2397 100644
--- a/src/joedb/asio/Server.cpp
+++ b/src/joedb/asio/Server.cpp
@@ -132,7 +132,7 @@ namespace joedb::asio
   log_level(log_level),
   thread_count(thread_count),
   thread_pool(thread_count),
-  joined(false),
+  joined(true),
   endpoint_path(std::move(endpoint_path)),
   endpoint(this->endpoint_path),
   acceptor(thread_pool, endpoint, false),
@@ -158,6 +158,11 @@ namespace joedb::asio
     }
    }
   );
+ }
+
+ void Server::start()
+ {
+  joined = false;
 
   boost::asio::co_spawn
   (
diff --git a/src/joedb/asio/Server.h b/src/joedb/asio/Server.h
index b0648f0..6a2712f 100644
--- a/src/joedb/asio/Server.h
+++ b/src/joedb/asio/Server.h
@@ -63,6 +63,10 @@ namespace joedb::asio
     boost::asio::local::stream_protocol::socket &&socket
    ) = 0;
 
+   /// Start accepting connections. Must be called at the end of the
+   /// constructor of the child, because new_session is virtual.
+   void start();
+
   private:
    int64_t session_id = 0;
 
diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index c38da7b..01569b5 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -539,6 +539,8 @@ namespace joedb
     client_lock.emplace(*writable_journal_client);
    writable_journal_client->push_if_ahead();
   }
+
+  start();
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/rpc/Server.h b/src/joedb/rpc/Server.h
index 4cfcf48..d6e9642 100644
--- a/src/joedb/rpc/Server.h
+++ b/src/joedb/rpc/Server.h
@@ -216,6 +216,7 @@ namespace joedb::rpc
     signatures(signatures),
     procedures(procedures)
    {
+    start();
    }
  };
 }
-- 
2.43.0


From 6b258e27a97bf4fe8aeaf47873921593d4ea784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:35 +0000
Subject: [PATCH 13/37] fix: keep listening after an accept error

The listener ended silently when accept failed (too many open files, for
instance): the server stayed alive, but never accepted a connection again.
---
 src/joedb/asio/Server.cpp | 24 ++++++++++++++++++++++--
 src/joedb/asio/Server.h   |  5 +++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/joedb/asio/Server.cpp b/src/joedb/asio/Server.cpp
index 3da2397..a1fa2f6 100644
--- a/src/joedb/asio/Server.cpp
+++ b/src/joedb/asio/Server.cpp
@@ -4,6 +4,9 @@
 #include <boost/asio/detached.hpp>
 #include <boost/asio/co_spawn.hpp>
 #include <boost/asio/read.hpp>
+#include <boost/asio/redirect_error.hpp>
+#include <boost/asio/steady_timer.hpp>
+#include <boost/asio/use_awaitable.hpp>
 #include <boost/asio/write.hpp>
 
 namespace joedb::asio
@@ -82,11 +85,28 @@ namespace joedb::asio
  {
   while (true)
   {
-   auto session = new_session
+   boost::system::error_code ec;
+
+   boost::asio::local::stream_protocol::socket socket
    (
-    co_await acceptor.async_accept(boost::asio::use_awaitable)
+    co_await acceptor.async_accept
+    (
+     boost::asio::redirect_error(boost::asio::use_awaitable, ec)
+    )
    );
 
+   if (ec)
+   {
+    if (log_level > 0)
+     log("accept error: " + ec.message());
+
+    boost::asio::steady_timer timer(thread_pool, accept_retry_delay);
+    co_await timer.async_wait(boost::asio::use_awaitable);
+    continue;
+   }
+
+   auto session = new_session(std::move(socket));
+
    auto* const session_ptr = session.get();
 
    boost::asio::co_spawn
diff --git a/src/joedb/asio/Server.h b/src/joedb/asio/Server.h
index 6a2712f..54f6f9b 100644
--- a/src/joedb/asio/Server.h
+++ b/src/joedb/asio/Server.h
@@ -10,6 +10,8 @@
 #include <boost/asio/awaitable.hpp>
 #include <boost/asio/strand.hpp>
 
+#include <chrono>
+
 namespace joedb::asio
 {
  /// Superclass for asio servers
@@ -68,6 +70,9 @@ namespace joedb::asio
    void start();
 
   private:
+   /// Pause after an accept error (too many open files, for instance)
+   static constexpr std::chrono::milliseconds accept_retry_delay{100};
+
    int64_t session_id = 0;
 
    boost::asio::awaitable<void> listener();
-- 
2.43.0


From c410ae7c235da5283ab0a3c35f34f38679e2c9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:40 +0000
Subject: [PATCH 14/37] fix: reject hash requests with an invalid checkpoint

A checkpoint smaller than the header made the server read the whole file
into a small buffer.
---
 src/joedb/concurrency/Server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index 01569b5..49008ea 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -225,6 +225,7 @@ namespace joedb
 
   if
   (
+   checkpoint < Header::ssize ||
    checkpoint > journal.get_checkpoint() ||
    hash != (buffer.data[0] == 'H' // ??? takes_time
    ? Journal_Hasher::get_fast_hash(journal, checkpoint)
-- 
2.43.0


From 93b1354a7ce585214f58f09e79d3d69db74b1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:24 +0000
Subject: [PATCH 15/37] fix: reading a Server_File never mixes newer data of
 the server with its local tail

When the lock was lost (connection lost, time-out), other clients may push
beyond tail_offset.  A read that started below tail_offset then returned these
bytes instead of the local tail, and more bytes than get_size().
---
 src/joedb/concurrency/Server_File.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/joedb/concurrency/Server_File.cpp b/src/joedb/concurrency/Server_File.cpp
index a5f56f9..78ad9e8 100644
--- a/src/joedb/concurrency/Server_File.cpp
+++ b/src/joedb/concurrency/Server_File.cpp
@@ -1,5 +1,7 @@
 #include "joedb/concurrency/Server_File.h"
 
+#include <algorithm>
+
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
@@ -108,7 +110,15 @@ namespace joedb
    return head.pread(data, size, offset);
 
   if (offset < tail_offset)
-   return Robust_Connection::pread(data, size, offset);
+  {
+   // The server may have more data than this file: don't read it, because what
+   // comes after tail_offset is in the local tail
+   const size_t body_size = size_t
+   (
+    std::min(int64_t(size), tail_offset - offset)
+   );
+   return Robust_Connection::pread(data, body_size, offset);
+  }
 
   return tail.pread(data, size, offset - tail_offset);
  }
-- 
2.43.0


From 39e1218f1c42b41004dca4f4b857949f957c0461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:57 +0000
Subject: [PATCH 16/37] fix: compare files correctly when a read is short

---
 src/joedb/journal/Abstract_File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/Abstract_File.cpp b/src/joedb/journal/Abstract_File.cpp
index e28bb21..7f601e7 100644
--- a/src/joedb/journal/Abstract_File.cpp
+++ b/src/joedb/journal/Abstract_File.cpp
@@ -71,7 +71,7 @@ namespace joedb
     (
      destination_buffer.data() + n1,
      n0 - n1,
-     current
+     current + int64_t(n1)
     );
 
     if (n == 0)
-- 
2.43.0


From 0f3aa273cd6d0f70b38bed019f89ee71f99ee53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:57 +0000
Subject: [PATCH 17/37] fix: hash files correctly when a read is short

---
 src/joedb/journal/File_Hasher.cpp | 40 +++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/File_Hasher.cpp b/src/joedb/journal/File_Hasher.cpp
index 9834517..b9f69a0 100644
--- a/src/joedb/journal/File_Hasher.cpp
+++ b/src/joedb/journal/File_Hasher.cpp
@@ -6,6 +6,36 @@
 
 namespace joedb
 {
+ ////////////////////////////////////////////////////////////////////////////
+ static size_t read_all
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  const Abstract_File &file,
+  char *data,
+  size_t size,
+  int64_t offset
+ )
+ {
+  size_t result = 0;
+
+  while (result < size)
+  {
+   const size_t n = file.pread
+   (
+    data + result,
+    size - result,
+    offset + int64_t(result)
+   );
+
+   if (n == 0)
+    break;
+
+   result += n;
+  }
+
+  return result;
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  SHA_256::Hash File_Hasher::get_hash
  ////////////////////////////////////////////////////////////////////////////
@@ -28,7 +58,13 @@ namespace joedb
    if (current_size + int64_t(block_size) > size)
     block_size = size_t(size - current_size);
 
-   const size_t read_count = file.pread(hashing_buffer.data(), block_size, start + current_size);
+   const size_t read_count = read_all
+   (
+    file,
+    hashing_buffer.data(),
+    block_size,
+    start + current_size
+   );
    current_size += int64_t(read_count);
    const uint32_t full_chunks = uint32_t(read_count / SHA_256::chunk_size);
    for (uint32_t i = 0; i < full_chunks; i++)
@@ -98,7 +134,7 @@ namespace joedb
     );
    }
 
-   file.pread(buffer.data(), buffer.size(), buffer_position);
+   read_all(file, buffer.data(), buffer.size(), buffer_position);
 
    for (size_t j = 0; j < buffer.size(); j += SHA_256::chunk_size)
     sha_256.process_chunk(buffer.data() + j);
-- 
2.43.0


From 8999741cfb62b6feab9914b0946e6b6cc2188d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:32 +0000
Subject: [PATCH 18/37] fix: a failed checkpoint must not be taken for a
 successful one

Checkpoint positions and indices in memory were updated before writing the
header. After an I/O error, trying the checkpoint again did nothing and
reported success, and the next soft checkpoint overwrote the last valid hard
checkpoint.
---
 src/joedb/journal/Writable_Journal.cpp | 36 +++++++++++++++-----------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index bd1668c..8b87f80 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -125,19 +125,21 @@ namespace joedb
 
   JOEDB_DEBUG_ASSERT(file.get_size() < 0 || position <= file.get_size());
 
-  soft_index ^= 1;
-  checkpoint_position = position;
-
   Head_Exclusive_Lock lock(file);
 
-  const int64_t neg = -checkpoint_position;
+  const int new_soft_index = soft_index ^ 1;
+  const int64_t neg = -position;
 
   file.pwrite
   (
    reinterpret_cast<const char *>(&neg),
    sizeof(neg),
-   int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + soft_index)
+   int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + new_soft_index)
   );
+
+  // must not be updated if there was an error
+  soft_index = new_soft_index;
+  checkpoint_position = position;
  }
 
  /////////////////////////////////////////////////////////////////////////////
@@ -149,31 +151,35 @@ namespace joedb
 
   file_buffer.flush();
 
-  hard_index ^= 1;
-  soft_index ^= 1;
-  hard_checkpoint_position = checkpoint_position = position;
-
   Head_Exclusive_Lock lock(file);
 
+  const int new_hard_index = hard_index ^ 1;
+  const int new_soft_index = soft_index ^ 1;
+
   // The first copy overwrites the oldest of the two soft checkpoints, so that
   // the most recent one is still valid in case of a crash before the second.
   file.pwrite
   (
-   reinterpret_cast<const char *>(&checkpoint_position),
-   sizeof(checkpoint_position),
-   int64_t(sizeof(checkpoint_position)) * (2 * hard_index + soft_index)
+   reinterpret_cast<const char *>(&position),
+   sizeof(position),
+   int64_t(sizeof(position)) * (2 * new_hard_index + new_soft_index)
   );
 
   file.sync();
 
   file.pwrite
   (
-   reinterpret_cast<const char *>(&checkpoint_position),
-   sizeof(checkpoint_position),
-   int64_t(sizeof(checkpoint_position)) * (2 * hard_index + (soft_index ^ 1))
+   reinterpret_cast<const char *>(&position),
+   sizeof(position),
+   int64_t(sizeof(position)) * (2 * new_hard_index + (new_soft_index ^ 1))
   );
 
   file.datasync();
+
+  // must not be updated if there was an error
+  hard_index = new_hard_index;
+  soft_index = new_soft_index;
+  hard_checkpoint_position = checkpoint_position = position;
  }
 
  /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 4ed804984621afe54685abd290a9f2a47617f196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:14 +0000
Subject: [PATCH 19/37] fix: restart from the beginning of an operation after a
 read error

After a read error in the middle of an operation, the next attempt to read
the journal started in the middle of this operation: it failed, or read
garbage and moved to a wrong position.
---
 src/joedb/journal/Readonly_Journal.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/joedb/journal/Readonly_Journal.cpp b/src/joedb/journal/Readonly_Journal.cpp
index f82dfd2..542d5ec 100644
--- a/src/joedb/journal/Readonly_Journal.cpp
+++ b/src/joedb/journal/Readonly_Journal.cpp
@@ -192,7 +192,27 @@ void joedb::Readonly_Journal::raw_play_until(Writable &writable, int64_t end)
 /////////////////////////////////////////////////////////////////////////////
 {
  while (get_position() < end)
-  one_step(writable);
+ {
+  const int64_t position = get_position();
+  const Table_Id table_id = table_of_last_operation;
+  const Record_Id record_id = record_of_last_operation;
+  const Field_Id field_id = field_of_last_update;
+
+  try
+  {
+   one_step(writable);
+  }
+  catch (...)
+  {
+   // If there was a read error in the middle of this operation, the next
+   // attempt must restart from the beginning of the operation.
+   file_buffer.set_position(position);
+   table_of_last_operation = table_id;
+   record_of_last_operation = record_id;
+   field_of_last_update = field_id;
+   throw;
+  }
+ }
 }
 
 /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From cc4182fb68e55993d68d9690c87dc60890a78899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:57 +0000
Subject: [PATCH 20/37] fix: never write buffered data after unlocking, even
 after a write error

When the data of an aborted transaction could not be written, it remained in
the buffer, and was written after unlocking, over data committed in the
meantime by other processes.
---
 src/joedb/journal/File_Buffer.cpp      | 9 +++++++++
 src/joedb/journal/File_Buffer.h        | 3 +++
 src/joedb/journal/Writable_Journal.cpp | 3 ++-
 src/joedb/journal/Writable_Journal.h   | 2 ++
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/joedb/journal/File_Buffer.cpp b/src/joedb/journal/File_Buffer.cpp
index ad9fd76..337eda8 100644
--- a/src/joedb/journal/File_Buffer.cpp
+++ b/src/joedb/journal/File_Buffer.cpp
@@ -26,6 +26,15 @@ namespace joedb
   buffer.index = 0;
  }
 
+ ////////////////////////////////////////////////////////////////////////////
+ void File_Buffer::discard() noexcept
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  File_Iterator::seek(get_position());
+  read_buffer_size = 0;
+  buffer.index = 0;
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  void File_Buffer::set_position(int64_t new_position)
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/journal/File_Buffer.h b/src/joedb/journal/File_Buffer.h
index 96ba928..ea466c6 100644
--- a/src/joedb/journal/File_Buffer.h
+++ b/src/joedb/journal/File_Buffer.h
@@ -69,6 +69,9 @@ namespace joedb
    File_Buffer(Abstract_File &file);
    void flush();
 
+   // forget buffered data, without changing the position
+   void discard() noexcept;
+
    // set_position must be called when switching between write and read
    void set_position(int64_t position);
 
diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 8b87f80..ba07931 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -533,7 +533,8 @@ namespace joedb
  {
   // Data of an aborted transaction must not be written after unlocking,
   // because it would overwrite what other processes wrote in the meantime.
-  try { journal.flush(); } catch (...) {}
+  // If it cannot be written now, then it must never be.
+  try { journal.flush(); } catch (...) { journal.file_buffer.discard(); }
 
   journal.unlock();
  }
diff --git a/src/joedb/journal/Writable_Journal.h b/src/joedb/journal/Writable_Journal.h
index 8959197..ef48296 100644
--- a/src/joedb/journal/Writable_Journal.h
+++ b/src/joedb/journal/Writable_Journal.h
@@ -10,6 +10,8 @@ namespace joedb
  /// @ingroup journal
  class Writable_Journal: public Readonly_Journal, public Writable
  {
+  friend class Tail_Exclusive_Lock;
+
   private:
    void generic_update
    (
-- 
2.43.0


From a45d58573ff2fcba14ed03e3719dcb7ade46bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:38 +0000
Subject: [PATCH 21/37] fix: release the file lock when there is an error right
 after taking it

---
 .../journal/Journal_Construction_Lock.cpp     | 39 +++++++++++++------
 src/joedb/journal/Writable_Journal.cpp        | 11 +++++-
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/joedb/journal/Journal_Construction_Lock.cpp b/src/joedb/journal/Journal_Construction_Lock.cpp
index 7ed5d8c..3f6d392 100644
--- a/src/joedb/journal/Journal_Construction_Lock.cpp
+++ b/src/joedb/journal/Journal_Construction_Lock.cpp
@@ -2,21 +2,38 @@
 
 namespace joedb
 {
+ ////////////////////////////////////////////////////////////////////////////
+ static void unlock(Abstract_File &file) noexcept
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  file.unlock_head();
+  if (file.is_shared())
+   file.unlock_tail();
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  static int64_t lock_and_get_size(Abstract_File &file)
  ////////////////////////////////////////////////////////////////////////////
  {
-  if (file.is_readonly())
-   file.shared_lock_head();
-  else
+  try
   {
-   if (file.is_shared())
-    file.exclusive_lock_tail();
-   file.exclusive_lock_head();
-  }
+   if (file.is_readonly())
+    file.shared_lock_head();
+   else
+   {
+    if (file.is_shared())
+     file.exclusive_lock_tail();
+    file.exclusive_lock_head();
+   }
 
-  // the size must not be read before locking: another process may write
-  return file.get_size();
+   // the size must not be read before locking: another process may write
+   return file.get_size();
+  }
+  catch (...)
+  {
+   unlock(file);
+   throw;
+  }
  }
 
  ////////////////////////////////////////////////////////////////////////////
@@ -36,8 +53,6 @@ namespace joedb
  Journal_Construction_Lock::~Journal_Construction_Lock()
  ////////////////////////////////////////////////////////////////////////////
  {
-  file.unlock_head();
-  if (file.is_shared())
-   file.unlock_tail();
+  unlock(file);
  }
 }
diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index ba07931..dc219bb 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -485,7 +485,16 @@ namespace joedb
   if (file.is_shared())
   {
    file.exclusive_lock_tail();
-   pull_without_locking();
+
+   try
+   {
+    pull_without_locking();
+   }
+   catch (...)
+   {
+    file.unlock_tail();
+    throw;
+   }
   }
  }
 
-- 
2.43.0


From 25eeb6556c1224929003d9480e122e8d3f0425d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 22/37] fix: putting back byte 255 into a file stream failed

---
 src/joedb/journal/filebuf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/filebuf.cpp b/src/joedb/journal/filebuf.cpp
index c764e69..d2b8fe9 100644
--- a/src/joedb/journal/filebuf.cpp
+++ b/src/joedb/journal/filebuf.cpp
@@ -205,7 +205,7 @@ namespace joedb
      file.pwrite(gptr(), 1, in_pos + gptr() - eback());
     }
    }
-   return *gptr();
+   return traits_type::to_int_type(*gptr());
   }
 
   return traits_type::eof();
-- 
2.43.0


From 09360fce3323c2c1177841a3f1e81ee89afe73c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 23/37] fix: reading an encoded file at its end returned a huge
 size

---
 src/joedb/journal/Readonly_Encoded_File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/Readonly_Encoded_File.cpp b/src/joedb/journal/Readonly_Encoded_File.cpp
index 1846b22..a2abe43 100644
--- a/src/joedb/journal/Readonly_Encoded_File.cpp
+++ b/src/joedb/journal/Readonly_Encoded_File.cpp
@@ -14,7 +14,7 @@ namespace joedb
   const int64_t start = offset;
   const int64_t end = offset + int64_t(size);
 
-  int64_t global_end = 0;
+  int64_t global_end = offset;
 
   for (auto b: db.get_buffer_table())
   {
-- 
2.43.0


From 367e102cfab2205b4563416ed5d5fe52f803c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:06 +0000
Subject: [PATCH 24/37] fix: unlock the connection when a transaction cannot
 start

---
 src/joedb/concurrency/Writable_Client.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/joedb/concurrency/Writable_Client.h b/src/joedb/concurrency/Writable_Client.h
index 46eb43f..59229c5 100644
--- a/src/joedb/concurrency/Writable_Client.h
+++ b/src/joedb/concurrency/Writable_Client.h
@@ -92,7 +92,16 @@ namespace joedb
      get_writable_journal()
     );
 
-    read_journal();
+    try
+    {
+     read_journal();
+    }
+    catch (...)
+    {
+     // do not keep the lock if the transaction can't start
+     connection.unlock();
+     throw;
+    }
    }
 
   public:
-- 
2.43.0


From ad1d62b360281864fade68f56c6e35c625bb5f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:15 +0000
Subject: [PATCH 25/37] fix: joedb_convert copied nothing unless --until was
 given

---
 src/joedb/ui/process_journal_pair.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/joedb/ui/process_journal_pair.cpp b/src/joedb/ui/process_journal_pair.cpp
index 376ba52..013ec9a 100644
--- a/src/joedb/ui/process_journal_pair.cpp
+++ b/src/joedb/ui/process_journal_pair.cpp
@@ -2,6 +2,7 @@
 #include "joedb/journal/File.h"
 
 #include <iostream>
+#include <limits>
 
 namespace joedb
 {
@@ -18,7 +19,7 @@ namespace joedb
   (
    "until",
    "checkpoint",
-   0
+   std::numeric_limits<int64_t>::max()
   );
   const beman::cstring_view input = arguments.get_next("input.joedb");
   const beman::cstring_view output = arguments.get_next("output.joedb");
-- 
2.43.0


From abd3e4cce840cab26d58313e381c065f7d78356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:15 +0000
Subject: [PATCH 26/37] fix: joedb_merge kept the partial schema of a file that
 it could not read

---
 src/joedb/ui/joedb_merge.cpp | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/joedb/ui/joedb_merge.cpp b/src/joedb/ui/joedb_merge.cpp
index dadc18f..e4bad70 100644
--- a/src/joedb/ui/joedb_merge.cpp
+++ b/src/joedb/ui/joedb_merge.cpp
@@ -87,28 +87,8 @@ namespace joedb
       Selective_Writable::Mode::schema
      );
 
-     std::unique_ptr<Selective_Writable> output_schema;
-     std::unique_ptr<Multiplexer> multiplexer;
-
-     if (merged_db)
-     {
-      multiplexer.reset(new Multiplexer{*db, schema_filter});
-     }
-     else
-     {
-      output_schema.reset
-      (
-       new Selective_Writable
-       (
-        output_journal,
-        Selective_Writable::Mode::schema
-       )
-      );
-
-      multiplexer.reset(new Multiplexer{*db, schema_filter, *output_schema});
-     }
-
-     input_journal.raw_play_until_checkpoint(*multiplexer);
+     Multiplexer multiplexer{*db, schema_filter};
+     input_journal.raw_play_until_checkpoint(multiplexer);
     }
 
     //
@@ -116,7 +96,12 @@ namespace joedb
     //
     schema_journal.soft_checkpoint();
     if (!merged_db)
+    {
+     // The output must not get the schema of a file that cannot be merged
      reference_schema = schema_file.get_data();
+     schema_journal.rewind();
+     schema_journal.raw_play_until_checkpoint(output_journal);
+    }
     else if (schema_file.get_data() != reference_schema)
      throw Exception
      (
-- 
2.43.0


From caee16e582342839046c3bf35b67f551c84f183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:15 +0000
Subject: [PATCH 27/37] fix: inplace_pack must sync the packed file before it
 replaces the original

---
 src/joedb/ui/inplace_pack.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/joedb/ui/inplace_pack.cpp b/src/joedb/ui/inplace_pack.cpp
index 1b6ce49..20c64ba 100644
--- a/src/joedb/ui/inplace_pack.cpp
+++ b/src/joedb/ui/inplace_pack.cpp
@@ -17,6 +17,9 @@ namespace joedb
    Readonly_Journal input_journal(input_file);
    Writable_Journal output_journal(output_file);
    pack(input_journal, output_journal);
+
+   // The original must not be replaced before its replacement is on the disk
+   output_journal.hard_checkpoint();
   }
 
   const std::string unpacked = file_name + ".unpacked";
-- 
2.43.0


From 4f8d83fba9f7a472cde1253cff012526af95d2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:26 +0000
Subject: [PATCH 28/37] fix: a joedb_server must survive an error of its own
 connection when it unlocks it

---
 src/joedb/concurrency/Server.cpp | 44 ++++++++++++++++++++++++++++----
 src/joedb/concurrency/Server.h   |  1 +
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index 49008ea..b55b14c 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -56,8 +56,7 @@ namespace joedb
  void Server::Session::cleanup()
  ////////////////////////////////////////////////////////////////////////////
  {
-  if (locking)
-   unlock();
+  unlock_or_log();
 
   remove_from_queue(get_server().lock_waiters);
   remove_from_queue(get_server().pull_waiters);
@@ -133,7 +132,15 @@ namespace joedb
     get_server().locked = false;
     if (get_server().client.is_shared() && get_server().client_lock)
     {
-     get_server().client_lock->unlock();
+     try
+     {
+      get_server().client_lock->unlock();
+     }
+     catch (...)
+     {
+      get_server().client_lock.reset();
+      throw;
+     }
      get_server().client_lock.reset();
     }
    }
@@ -142,6 +149,24 @@ namespace joedb
   }
  }
 
+ ////////////////////////////////////////////////////////////////////////////
+ void Server::Session::unlock_or_log() noexcept
+ ////////////////////////////////////////////////////////////////////////////
+ // An exception from the upstream connection must not escape from a handler
+ {
+  try
+  {
+   unlock();
+  }
+  catch (const std::exception &e)
+  {
+   log(e.what());
+  }
+  catch (...)
+  {
+  }
+ }
+
  ///////////////////////////////////////////////////////////////////////////
  void Server::Session::refresh_lock_timeout()
  ///////////////////////////////////////////////////////////////////////////
@@ -171,7 +196,7 @@ namespace joedb
        push_status = 't';
       }
 
-      unlock();
+      unlock_or_log();
      }
     }
    );
@@ -549,7 +574,16 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   if (client_lock)
-   client_lock->unlock();
+  {
+   try
+   {
+    client_lock->unlock();
+   }
+   catch (const std::exception &e)
+   {
+    log(e.what());
+   }
+  }
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/concurrency/Server.h b/src/joedb/concurrency/Server.h
index 9de6369..73fcb85 100644
--- a/src/joedb/concurrency/Server.h
+++ b/src/joedb/concurrency/Server.h
@@ -32,6 +32,7 @@ namespace joedb
      std::shared_ptr<char> lock_timeout_token;
      boost::asio::awaitable<void> lock();
      void unlock();
+     void unlock_or_log() noexcept;
      void refresh_lock_timeout();
 
      char push_status;
-- 
2.43.0


From b58bbedb75b823709c4a1aec071c0d936b4bcacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:26 +0000
Subject: [PATCH 29/37] fix: no more pull or push after a content mismatch was
 detected

---
 src/joedb/concurrency/Server_Connection.cpp | 18 ++++++++++++++++--
 src/joedb/concurrency/Server_Connection.h   |  5 +++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/joedb/concurrency/Server_Connection.cpp b/src/joedb/concurrency/Server_Connection.cpp
index 60a4873..129a1ba 100644
--- a/src/joedb/concurrency/Server_Connection.cpp
+++ b/src/joedb/concurrency/Server_Connection.cpp
@@ -36,6 +36,14 @@ namespace joedb
   return returned_size;
  }
 
+ ////////////////////////////////////////////////////////////////////////////
+ void Server_Connection::set_diverged() const
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  diverged = true;
+  content_mismatch();
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  int64_t Server_Connection::handshake
  ////////////////////////////////////////////////////////////////////////////
@@ -78,7 +86,7 @@ namespace joedb
   log(std::string("hash result: ") + reply);
 
   if (reply == 'h')
-   content_mismatch();
+   set_diverged();
 
   return server_checkpoint;
  }
@@ -112,7 +120,7 @@ namespace joedb
    const size_t size = pread(server_data.data(), client_size, from);
 
    if (size == 0 || std::memcmp(client_data.data(), server_data.data(), size))
-    content_mismatch();
+    set_diverged();
 
    from += int64_t(size);
   }
@@ -128,6 +136,9 @@ namespace joedb
   std::chrono::milliseconds wait
  )
  {
+  if (diverged)
+   content_mismatch();
+
   const int64_t checked_checkpoint = server_checkpoint;
 
   Async_Writer writer = client_journal.get_async_tail_writer();
@@ -197,6 +208,9 @@ namespace joedb
   Unlock_Action unlock_action
  )
  {
+  if (diverged)
+   content_mismatch();
+
   Lock<Channel&> lock(channel);
 
   const char push_type = char('N' + int(unlock_action));
diff --git a/src/joedb/concurrency/Server_Connection.h b/src/joedb/concurrency/Server_Connection.h
index 60c1451..d5f2176 100644
--- a/src/joedb/concurrency/Server_Connection.h
+++ b/src/joedb/concurrency/Server_Connection.h
@@ -10,6 +10,11 @@ namespace joedb
  class Server_Connection: public Server_Client, public Connection
  {
   private:
+   /// Client and server are known to be different: no more pull or push
+   mutable bool diverged = false;
+
+   void set_diverged() const;
+
    /// When unpushed data of the client meets new data of the server, check
    /// that they are equal, in case the server received them from another path
    void check_unpushed_data
-- 
2.43.0


From d4e9a55ee123cd95eef9dc663188ca2f7820004f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:00:59 +0000
Subject: [PATCH 30/37] fix: no reference to an element outside of a column of
 an interpreted table

get_own_storage is called with the record_id that was read from the file,
before it is compared to the capacity: operator[] was undefined behaviour, and
aborted with the assertions of the standard library. get_vector had the same
problem with an empty table.
---
 src/joedb/interpreted/Field.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/joedb/interpreted/Field.h b/src/joedb/interpreted/Field.h
index 16022e5..0b06f7b 100644
--- a/src/joedb/interpreted/Field.h
+++ b/src/joedb/interpreted/Field.h
@@ -68,7 +68,7 @@ namespace joedb
    }\
    const cpp_type *get_vector_##type_id() const\
    {\
-    return &std::get<std::vector<cpp_type>>(column)[0];\
+    return std::get<std::vector<cpp_type>>(column).data();\
    }\
    void set_vector_##type_id(Record_Id record_id,\
                              size_t size,\
@@ -81,7 +81,7 @@ namespace joedb
    }\
    cpp_type *get_own_##type_id##_storage(Record_Id record_id)\
    {\
-    return &std::get<std::vector<cpp_type>>(column)[index(record_id)];\
+    return std::get<std::vector<cpp_type>>(column).data() + index(record_id);\
    }
    #include "joedb/TYPE_MACRO.h"
  };
-- 
2.43.0


From 8cbf565d730f45ceb4360637e6becf52633cf36f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:00:59 +0000
Subject: [PATCH 31/37] fix: no reference past the end of a vector when an
 empty vector is inserted

The generated code took the address of the element after the last one, which
is undefined behaviour, and aborts with the assertions of the standard library.
---
 src/joedb/compiler/generator/Database_h.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/compiler/generator/Database_h.cpp b/src/joedb/compiler/generator/Database_h.cpp
index 5ab6738..4efb9a3 100644
--- a/src/joedb/compiler/generator/Database_h.cpp
+++ b/src/joedb/compiler/generator/Database_h.cpp
@@ -315,7 +315,7 @@ namespace joedb::generator
     {
      out << "    std::fill_n\n";
      out << "    (\n";
-     out << "     &storage_of_" << tname << ".iterator_over_" << index.name << "[to_underlying(record_id)],\n";
+     out << "     storage_of_" << tname << ".iterator_over_" << index.name << ".begin() + to_underlying(record_id),\n";
      out << "     size,\n";
      out << "     index_of_" << index.name << ".end()\n";
      out << "    );\n";
-- 
2.43.0


From 82f5fa26dc835f48aa0693e3027a8706c5cdaa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:26 +0000
Subject: [PATCH 32/37] fix: a failure to log an error no longer leaves a
 robust connection without connection

---
 src/joedb/concurrency/Robust_Connection.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/joedb/concurrency/Robust_Connection.cpp b/src/joedb/concurrency/Robust_Connection.cpp
index 1e45baa..696697c 100644
--- a/src/joedb/concurrency/Robust_Connection.cpp
+++ b/src/joedb/concurrency/Robust_Connection.cpp
@@ -5,7 +5,16 @@ namespace joedb
  void Robust_Connection::log_exception(const std::exception *e) const
  {
   if (e)
-   logger.log("Robust_Connection: exception: " + std::string(e->what()));
+  {
+   // must not leave reconnect() without a connection
+   try
+   {
+    logger.log("Robust_Connection: exception: " + std::string(e->what()));
+   }
+   catch (...)
+   {
+   }
+  }
  }
 
  void Robust_Connection::reconnect(const std::exception *e) const
-- 
2.43.0


From 3ec60585c9b5c1d64c3cbb2493240fe49af5e2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:26 +0000
Subject: [PATCH 33/37] fix: joedb_client returns a status that tells errors

---
 src/joedb/ui/joedb_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/ui/joedb_client.cpp b/src/joedb/ui/joedb_client.cpp
index 61d56fb..1f4af55 100644
--- a/src/joedb/ui/joedb_client.cpp
+++ b/src/joedb/ui/joedb_client.cpp
@@ -56,5 +56,5 @@ namespace joedb
 int main(int argc, char **argv)
 /////////////////////////////////////////////////////////////////////////////
 {
- joedb::main_wrapper(joedb::client, argc, argv);
+ return joedb::main_wrapper(joedb::client, argc, argv);
 }
-- 
2.43.0


From 1a3979ae3253d136643bc95e9ffc628477e941cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:02 +0000
Subject: [PATCH 34/37] fix: an rpc client checks the size of a reply before it
 reads it into its buffer

---
 src/joedb/rpc/Client.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/joedb/rpc/Client.h b/src/joedb/rpc/Client.h
index a0853bb..da6fc23 100644
--- a/src/joedb/rpc/Client.h
+++ b/src/joedb/rpc/Client.h
@@ -92,6 +92,8 @@ namespace joedb::rpc
     {
      const size_t from = file.get_data().size();
      const int64_t until = buffer.read<int64_t>();
+     if (until < int64_t(from))
+      throw Exception("bad reply size from server");
      file.get_data().resize(size_t(until));
      lock->read(file.get_data().data() + from, size_t(until) - from);
      file.pwrite((const char *)&until, 8, 0);
-- 
2.43.0


From b64fee4cf72480a2f14c7910075c706c4de349c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:02 +0000
Subject: [PATCH 35/37] fix: clients refuse a server checkpoint that cannot be
 one

---
 src/joedb/concurrency/Server_Client.cpp     | 4 ++++
 src/joedb/concurrency/Server_Connection.cpp | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/joedb/concurrency/Server_Client.cpp b/src/joedb/concurrency/Server_Client.cpp
index caeabce..0b29420 100644
--- a/src/joedb/concurrency/Server_Client.cpp
+++ b/src/joedb/concurrency/Server_Client.cpp
@@ -66,6 +66,10 @@ namespace joedb
 
   session_id = buffer.read<int64_t>();
   server_checkpoint = buffer.read<int64_t>();
+
+  if (server_checkpoint < Header::ssize)
+   throw Exception("Bad server checkpoint");
+
   const char mode = buffer.read<char>();
 
   if (mode == 'R')
diff --git a/src/joedb/concurrency/Server_Connection.cpp b/src/joedb/concurrency/Server_Connection.cpp
index 129a1ba..f9e3e3d 100644
--- a/src/joedb/concurrency/Server_Connection.cpp
+++ b/src/joedb/concurrency/Server_Connection.cpp
@@ -1,6 +1,7 @@
 #include "joedb/concurrency/Server_Connection.h"
 #include "joedb/journal/File_Hasher.h"
 #include "joedb/error/Disconnection.h"
+#include "joedb/journal/Header.h"
 #include "joedb/ui/Progress_Bar.h"
 
 #include <cstring>
@@ -167,7 +168,10 @@ namespace joedb
     else if (reply != pull_type)
      throw Disconnection("pull error: unexpected server reply");
    }
-   server_checkpoint = buffer.read<int64_t>();
+   const int64_t new_checkpoint = buffer.read<int64_t>();
+   if (new_checkpoint < Header::ssize)
+    throw Disconnection("pull error: bad server checkpoint");
+   server_checkpoint = new_checkpoint;
 
    if (bool(data_transfer))
    {
-- 
2.43.0


From c02960ffb19735cceb588b05d9ec9cf21e45e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:18 +0000
Subject: [PATCH 36/37] fix: a pull-only server refuses a lock without taking
 it

The refusal left the lock taken, so that the next one waited until the first
connection was closed, and it sent data that the client does not read. A server
connected to a pull-only server tried to lock it, which broke its connection.
---
 src/joedb/concurrency/Server.cpp | 26 ++++++++++----------------
 src/joedb/concurrency/Server.h   |  5 +++++
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index b55b14c..065aeb1 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -68,6 +68,11 @@ namespace joedb
  {
   if (locking)
    throw Exception("error: locking an already locked session");
+  else if (get_server().is_pullonly())
+  {
+   log("error: locking pull-only server");
+   buffer.data[0] = 'R';
+  }
   else
   {
    if (!get_server().locked)
@@ -102,15 +107,7 @@ namespace joedb
    refresh_lock_timeout();
 
    if (!get_server().client_lock)
-   {
-    if (!get_server().writable_journal_client)
-    {
-     log("error: locking pull-only server");
-     buffer.data[0] = 'R';
-    }
-    else
-     get_server().client_lock.emplace(*get_server().writable_journal_client);
-   }
+    get_server().client_lock.emplace(*get_server().writable_journal_client);
   }
  }
 
@@ -289,15 +286,11 @@ namespace joedb
   const int64_t version =
    client_version < protocol_version ? 0 : protocol_version;
 
-  const bool writable =
-   get_server().writable_journal_client &&
-   !get_server().client.is_pullonly();
-
   buffer.index = 5;
   buffer.write<int64_t>(version);
   buffer.write<int64_t>(id);
   buffer.write<int64_t>(get_server().client.get_journal_checkpoint());
-  buffer.write<char>(writable ? 'W' : 'R');
+  buffer.write<char>(get_server().is_pullonly() ? 'R' : 'W');
 
   co_await write_buffer();
  }
@@ -369,7 +362,8 @@ namespace joedb
   if (lock_before)
    co_await lock();
 
-  if (!send_data)
+  // no data after a refused lock: the client does not read it
+  if (!send_data || buffer.data[0] == 'R')
    pull_checkpoint = get_server().client.get_journal_checkpoint();
 
   co_await send
@@ -408,7 +402,7 @@ namespace joedb
   push_status = buffer.data[0];
   push_writer.reset();
 
-  if (!get_server().writable_journal_client)
+  if (get_server().is_pullonly())
    push_status = 'R';
   else if (conflict)
    push_status = 'C';
diff --git a/src/joedb/concurrency/Server.h b/src/joedb/concurrency/Server.h
index 73fcb85..5ec2b88 100644
--- a/src/joedb/concurrency/Server.h
+++ b/src/joedb/concurrency/Server.h
@@ -68,6 +68,11 @@ namespace joedb
 
    const std::chrono::milliseconds lock_timeout;
 
+   bool is_pullonly() const
+   {
+    return !writable_journal_client || client.is_pullonly();
+   }
+
    bool locked;
    std::deque<Session *> lock_waiters;
    std::deque<Session *> pull_waiters;
-- 
2.43.0


From 17ec05cd38cda791b5be6c7729ad61ed0e65e8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:29 +0000
Subject: [PATCH 37/37] fix: a pull that fails locally neither keeps the server
 lock nor breaks the connection

When the local file could not be written, the rest of the data stayed in the
channel, and the server remained locked.
---
 src/joedb/concurrency/Server_Client.cpp     | 18 ++++++++++++++++--
 src/joedb/concurrency/Server_Client.h       |  7 ++++++-
 src/joedb/concurrency/Server_Connection.cpp | 12 ++++++++----
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/joedb/concurrency/Server_Client.cpp b/src/joedb/concurrency/Server_Client.cpp
index 0b29420..6429077 100644
--- a/src/joedb/concurrency/Server_Client.cpp
+++ b/src/joedb/concurrency/Server_Client.cpp
@@ -87,7 +87,7 @@ namespace joedb
  }
 
  ////////////////////////////////////////////////////////////////////////////
- void Server_Client::download
+ std::exception_ptr Server_Client::download
  ////////////////////////////////////////////////////////////////////////////
  (
   Async_Writer &writer,
@@ -101,15 +101,29 @@ namespace joedb
    *const_cast<Logger *>(static_cast<const Logger *>(this))
   );
 
+  std::exception_ptr local_error;
+
   for (int64_t read = 0; read < size;)
   {
    const int64_t remaining = size - read;
    const size_t read_size = size_t(std::min(int64_t(buffer.size), remaining));
    const size_t n = lock->read_some(buffer.data, read_size);
-   writer.write(buffer.data, n);
+   if (!local_error)
+   {
+    try
+    {
+     writer.write(buffer.data, n);
+    }
+    catch (...)
+    {
+     local_error = std::current_exception();
+    }
+   }
    read += int64_t(n);
    progress_bar.print(read);
   }
+
+  return local_error;
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/concurrency/Server_Client.h b/src/joedb/concurrency/Server_Client.h
index 9de7bc4..4fc8c37 100644
--- a/src/joedb/concurrency/Server_Client.h
+++ b/src/joedb/concurrency/Server_Client.h
@@ -9,6 +9,7 @@
 #include "joedb/error/Logger.h"
 
 #include <chrono>
+#include <exception>
 
 namespace joedb
 {
@@ -34,7 +35,11 @@ namespace joedb
    bool pullonly_server;
    int64_t server_checkpoint;
 
-   void download
+   /// Read everything even if the writer fails, so that the channel remains
+   /// usable
+   ///
+   /// @return error of the writer
+   std::exception_ptr download
    (
     Async_Writer &writer,
     Lock<Channel&> &lock,
diff --git a/src/joedb/concurrency/Server_Connection.cpp b/src/joedb/concurrency/Server_Connection.cpp
index f9e3e3d..abce79c 100644
--- a/src/joedb/concurrency/Server_Connection.cpp
+++ b/src/joedb/concurrency/Server_Connection.cpp
@@ -143,6 +143,7 @@ namespace joedb
   const int64_t checked_checkpoint = server_checkpoint;
 
   Async_Writer writer = client_journal.get_async_tail_writer();
+  std::exception_ptr local_error;
 
   {
    Lock<Channel&> lock(channel);
@@ -177,7 +178,7 @@ namespace joedb
    {
     buffer.index = 0;
     const int64_t size = server_checkpoint - client_journal.get_checkpoint();
-    download(writer, lock, size);
+    local_error = download(writer, lock, size);
    }
    else
     log("!data_transfer");
@@ -187,16 +188,19 @@ namespace joedb
   {
    try
    {
+    if (local_error)
+     std::rethrow_exception(local_error);
+
     check_unpushed_data(client_journal, checked_checkpoint);
+    client_journal.soft_checkpoint_at(writer.get_position());
    }
-   catch (const Content_Mismatch &)
+   catch (...)
    {
+    // The pull failed: do not keep the server locked
     if (bool(lock_action))
      unlock();
     throw;
    }
-
-   client_journal.soft_checkpoint_at(writer.get_position());
   }
 
   return server_checkpoint;
-- 
2.43.0

