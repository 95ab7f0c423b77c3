From dd8f8262eceac3958f2d798000313b273b392ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 01/60] fix: join of an empty list terminated the process

---
 src/lib/utils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index a4c507c..0afebe8 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -389,7 +389,10 @@ std::string join(const std::vector<std::string> &str_arr, const std::string &sep
     {
         size += str_arr[i].size();
     }
-    size += sep.size() * (str_arr.size() - 1);
+    if (!str_arr.empty())
+    {
+        size += sep.size() * (str_arr.size() - 1);
+    }
     ret.reserve(size);
     for (size_t i = 0; i < str_arr.size(); ++i)
     {
-- 
2.43.0


From 00398048819468bd26c5410819cc3dd19bdbeb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 02/60] fix: rstrip removed an unequal remainder as long as the
 pattern

---
 src/lib/utils.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 0afebe8..8385a5f 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -449,9 +449,9 @@ static std::string do_strip(const std::string &str, const std::string &chars, co
         {
             bool eq = true;
             size_t j = chars.size() - 1;
-            for (size_t i = r - 1; i > r - chars.size() - 1; --i)
+            for (size_t i = r; i > r - chars.size(); --i)
             {
-                if (str[i] != chars[j--])
+                if (str[i - 1] != chars[j--])
                 {
                     eq = false;
                     break;
-- 
2.43.0


From c4a7ca2ceff2efd6c8da8c85a17d6f2b92525c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 03/60] fix: moving a stream lost its write buffer

---
 src/include/cppev/nio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/cppev/nio.h b/src/include/cppev/nio.h
index c1f4c88..24f1ea3 100644
--- a/src/include/cppev/nio.h
+++ b/src/include/cppev/nio.h
@@ -160,7 +160,7 @@ protected:
         this->fd_ = other.fd_;
         this->closed_ = other.closed_;
         this->rbuffer_ = std::move(other.rbuffer_);
-        this->wbuffer_ = std::move(other.rbuffer_);
+        this->wbuffer_ = std::move(other.wbuffer_);
         this->evlp_ = other.evlp_;
 
         other.fd_ = -1;
-- 
2.43.0


From 4ee2cbec856a573146dafb0571a41077bfe3bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 04/60] fix: move assignment leaked the descriptor it replaced

---
 src/include/cppev/nio.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/include/cppev/nio.h b/src/include/cppev/nio.h
index 24f1ea3..2b25481 100644
--- a/src/include/cppev/nio.h
+++ b/src/include/cppev/nio.h
@@ -141,10 +141,10 @@ public:
 
 protected:
     // File descriptor
-    int fd_;
+    int fd_ = -1;
 
     // Whether closed
-    bool closed_;
+    bool closed_ = true;
 
     // Read buffer
     buffer rbuffer_;
@@ -153,10 +153,14 @@ protected:
     buffer wbuffer_;
 
     // One nio belongs to one event loop
-    event_loop *evlp_;
+    event_loop *evlp_ = nullptr;
 
     void move(nio &&other) noexcept
     {
+        if (!closed_)
+        {
+            close();
+        }
         this->fd_ = other.fd_;
         this->closed_ = other.closed_;
         this->rbuffer_ = std::move(other.rbuffer_);
-- 
2.43.0


From 02f0e6537318cec8dfeb96c8aeb1ed0116c30255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 05/60] fix: closing a stream twice closed a reused descriptor

---
 src/lib/nio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index bbecc9f..f0d45c4 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -21,7 +21,7 @@ namespace cppev
 
 void nio::close() noexcept
 {
-    if (fd_ != -1)
+    if (!closed_ && fd_ != -1)
     {
         ::close(fd_);
     }
-- 
2.43.0


From 65fd1dab9fc237d347301c06d713a62fe1c982d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:10 +0000
Subject: [PATCH 06/60] fix: get_fifos leaked the read end when the write end
 could not be opened

---
 src/lib/nio.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index f0d45c4..dda0b67 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -749,7 +749,9 @@ std::vector<std::shared_ptr<nstream>> get_fifos(const std::string &path)
     int fdw = open(path.c_str(), O_WRONLY | O_NONBLOCK);
     if (fdw == -1)
     {
-        throw_system_error("open error");
+        int err = errno;
+        ::close(fdr);
+        throw_system_error("open error", err);
     }
     std::vector<std::shared_ptr<nstream>> fifos =
     {
-- 
2.43.0


From 0f7749da4a8415c6b101d2100d2b50d651cae7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:10 +0000
Subject: [PATCH 07/60] fix: one-way shutdown closed both directions

---
 src/lib/nio.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index dda0b67..241312b 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -498,14 +498,17 @@ void nsocktcp::shutdown(shut_mode howto) noexcept
     case shut_mode::shut_rd :
     {
         ::shutdown(fd_, SHUT_RD);
+        break;
     }
     case shut_mode::shut_wr :
     {
         ::shutdown(fd_, SHUT_WR);
+        break;
     }
     case shut_mode::shut_rdwr :
     {
         ::shutdown(fd_, SHUT_RDWR);
+        break;
     }
     default: ;
     }
-- 
2.43.0


From cfe8a9bf9a44d799d8823c9639a1816b4d9bc1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:10 +0000
Subject: [PATCH 08/60] fix: failed datagram transfers corrupted the buffers
 silently

---
 src/lib/nio.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 241312b..36b6a90 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -654,7 +654,7 @@ std::tuple<std::string, int, family> nsockudp::recv()
     socklen_t len = faddr_len_.at(family_);
     int ret = recvfrom(fd_, rbuffer().buffer_.get() + rbuffer().offset_,
         rbuffer().cap_ - rbuffer().offset_, 0, (sockaddr *)&addr, &len);
-    if (ret == 0)
+    if (ret < 0)
     {
         throw_system_error("recvfrom error");
     }
@@ -669,11 +669,12 @@ std::tuple<std::string, int, family> nsockudp::recv()
 void nsockudp::send(const char *ip, int port)
 {
     sockaddr_storage addr;
+    memset(&addr, 0, sizeof(addr));
     addr.ss_family = fmap_.at(family_);
     set_ip_port(addr, ip, port);
     int ret = sendto(fd_, wbuffer().buffer_.get() + wbuffer().start_, wbuffer().size(),
         0, (sockaddr *)&addr, faddr_len_.at(family_));
-    if (ret == 0)
+    if (ret < 0)
     {
         throw_system_error("sendto error");
     }
@@ -683,11 +684,12 @@ void nsockudp::send(const char *ip, int port)
 void nsockudp::send_unix(const char *path)
 {
     sockaddr_storage addr;
+    memset(&addr, 0, sizeof(addr));
     addr.ss_family = fmap_.at(family_);
     set_path(addr, path);
     int ret = sendto(fd_, wbuffer().buffer_.get() + wbuffer().start_, wbuffer().size(),
         0, (sockaddr *)&addr, SUN_LEN((sockaddr_un *)&addr));
-    if (ret == 0)
+    if (ret < 0)
     {
         throw_system_error("sendto error");
     }
-- 
2.43.0


From 4143b97149bd9d8376174333ee3d2b8c584fabf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:10 +0000
Subject: [PATCH 09/60] fix: overlong socket paths were truncated silently

---
 src/lib/nio.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 36b6a90..830f352 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -238,6 +238,10 @@ static void set_ip_port(sockaddr_storage &addr, const char *ip, int port)
 static void set_path(sockaddr_storage &addr, const char *path)
 {
     sockaddr_un *ap = (sockaddr_un *)(&addr);
+    if (strlen(path) >= sizeof(ap->sun_path))
+    {
+        throw_logic_error("socket path too long");
+    }
     strncpy(ap->sun_path, path, sizeof(ap->sun_path) - 1);
 }
 
-- 
2.43.0


From 358ee0f34d6f4f503f0a4f01a41548389ee9cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 10/60] fix: a hangup without pending data never reached the
 handler

---
 src/lib/event_loop_epoll.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 5c57d32..6129252 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -40,6 +40,11 @@ static fd_event fd_map_to_event(uint32_t ev)
     {
         flags = flags | fd_event::fd_writable;
     }
+    // Only error or hangup is reported, io operation will return the reason
+    if (static_cast<int>(flags) == 0)
+    {
+        flags = fd_event::fd_readable | fd_event::fd_writable;
+    }
     return flags;
 }
 
-- 
2.43.0


From a252c17e3d17181a55a4ed8ba5089429a7dab0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 11/60] fix: a handler removed by an earlier handler of the
 same pass still ran

---
 src/lib/event_loop_epoll.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 6129252..016dfcb 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -192,7 +192,24 @@ void event_loop::loop_once(int timeout)
     {
         auto ev = fd_cbs_.top();
         fd_cbs_.pop();
-        (*std::get<2>(ev))(std::get<1>(ev));
+        // Skip the callback if it's been removed by previous callbacks
+        bool removed = true;
+        {
+            std::unique_lock<std::mutex> lock(lock_);
+            auto range = fds_.equal_range(std::get<1>(ev)->fd());
+            for (auto iter = range.first; iter != range.second; ++iter)
+            {
+                if (std::get<2>(iter->second) == std::get<2>(ev))
+                {
+                    removed = false;
+                    break;
+                }
+            }
+        }
+        if (!removed)
+        {
+            (*std::get<2>(ev))(std::get<1>(ev));
+        }
     }
 
 }
-- 
2.43.0


From 575f6776ac2565afd31046dcf4dc23bf0201d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 12/60] fix: a refused registration left its handler behind

---
 src/lib/event_loop_epoll.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 016dfcb..d783beb 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -93,11 +93,7 @@ void event_loop::fd_register(const std::shared_ptr<nio> &iop, fd_event ev_type,
     log::info << log::endl;
 #endif  // CPPEV_DEBUG
     iop->set_evlp(*this);
-    if (handler)
-    {
-        std::unique_lock<std::mutex> lock(lock_);
-        fds_.emplace(iop->fd(), std::make_tuple(prio, iop, std::make_shared<fd_event_handler>(handler), ev_type));
-    }
+    std::unique_lock<std::mutex> lock(lock_);
     if (activate)
     {
         struct epoll_event ev;
@@ -108,6 +104,10 @@ void event_loop::fd_register(const std::shared_ptr<nio> &iop, fd_event ev_type,
             throw_system_error(std::string("epoll_ctl add error for fd ").append(std::to_string(iop->fd())));
         }
     }
+    if (handler)
+    {
+        fds_.emplace(iop->fd(), std::make_tuple(prio, iop, std::make_shared<fd_event_handler>(handler), ev_type));
+    }
 }
 
 void event_loop::fd_remove(const std::shared_ptr<nio> &iop, bool clean, bool deactivate)
-- 
2.43.0


From 0d38ddef171008680f4b02114de15f2745051347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 13/60] fix: unsynchronised stop flag of the event loop

---
 src/include/cppev/event_loop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index 0edb3ef..50beaf2 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -1,6 +1,7 @@
 #ifndef _event_loop_h_6C0224787A17_
 #define _event_loop_h_6C0224787A17_
 
+#include <atomic>
 #include <unordered_map>
 #include <memory>
 #include <unistd.h>
@@ -136,7 +137,7 @@ private:
     std::unordered_map<int, fd_event> fd_events_;
 
     // Whether loop forever shall be stopped
-    bool stop_;
+    std::atomic<bool> stop_;
 };
 
 }   // namespace cppev
-- 
2.43.0


From e13fe5c5ae19d6dfa8ee39113035219a72b27652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 14/60] fix: event loop load was read without the lock

---
 src/include/cppev/event_loop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index 50beaf2..37bbefb 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -69,6 +69,7 @@ public:
 
     int ev_loads() const noexcept
     {
+        std::unique_lock<std::mutex> lock(lock_);
         return fds_.size();
     }
 
@@ -116,7 +117,7 @@ public:
 
 private:
     // Used for registering callback for event loop
-    std::mutex lock_;
+    mutable std::mutex lock_;
 
     // Event watcher fd
     int ev_fd_;
-- 
2.43.0


From 9362ae1a9206bcb844be7f0dbee2f8d9b8d6883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 15/60] fix: closing a connection in its callbacks terminated
 the process

---
 src/lib/tcp.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 7361feb..fe3fcb8 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -74,10 +74,13 @@ void iohandler::on_readable(const std::shared_ptr<nio> &iop)
     iopt->read_all();
     dp->on_read_complete(iopt);
     iopt->rbuffer().clear();
-    if (iopt->eof() || iopt->is_reset())
+    if (!iopt->is_closed() && (iopt->eof() || iopt->is_reset()))
     {
         dp->on_closed(iopt);
-        iopt->evlp().fd_remove(iop, true);
+        if (!iopt->is_closed())
+        {
+            iopt->evlp().fd_remove(iop, true);
+        }
     }
 }
 
@@ -99,10 +102,13 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
             iopt->evlp().fd_register(iop, fd_event::fd_readable);
         }
     }
-    if (iopt->eop() || iopt->is_reset())
+    if (!iopt->is_closed() && (iopt->eop() || iopt->is_reset()))
     {
         dp->on_closed(iopt);
-        iopt->evlp().fd_remove(iop, true);
+        if (!iopt->is_closed())
+        {
+            iopt->evlp().fd_remove(iop, true);
+        }
     }
 }
 
-- 
2.43.0


From 806b5f6008ea153751146be35258ff73b21c86b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 16/60] fix: writing more than the socket takes in a callback
 terminated the process

---
 src/lib/tcp.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index fe3fcb8..6eddb2c 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -96,11 +96,9 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
     if (0 == iopt->wbuffer().size())
     {
         iopt->evlp().fd_remove(iop, false);
+        // Register first, since on_write_complete may call async_write or safely_close
+        iopt->evlp().fd_register(iop, fd_event::fd_readable);
         dp->on_write_complete(iopt);
-        if (!iopt->is_closed())
-        {
-            iopt->evlp().fd_register(iop, fd_event::fd_readable);
-        }
     }
     if (!iopt->is_closed() && (iopt->eop() || iopt->is_reset()))
     {
@@ -121,10 +119,10 @@ void iohandler::on_acpt_writable(const std::shared_ptr<nio> &iop)
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
     iopt->evlp().fd_remove(iop, true);
-    // The sequence CANNOT be changed, since on_accept may call async_write
+    // The sequence CANNOT be changed, since on_accept may call async_write or safely_close
     iopt->evlp().fd_register(iop, fd_event::fd_writable, iohandler::on_writable, false);
-    dp->on_accept(iopt);
     iopt->evlp().fd_register(iop, fd_event::fd_readable, iohandler::on_readable, true);
+    dp->on_accept(iopt);
 }
 
 void iohandler::on_cont_writable(const std::shared_ptr<nio> &iop)
@@ -147,10 +145,10 @@ void iohandler::on_cont_writable(const std::shared_ptr<nio> &iop)
         return;
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
-    // The sequence CANNOT be changed since on_connect may call aysnc_write
+    // The sequence CANNOT be changed since on_connect may call aysnc_write or safely_close
     iopt->evlp().fd_register(iop, fd_event::fd_writable, iohandler::on_writable, false);
-    dp->on_connect(iopt);
     iopt->evlp().fd_register(iop, fd_event::fd_readable, iohandler::on_readable, true);
+    dp->on_connect(iopt);
 }
 
 void iohandler::run_impl()
-- 
2.43.0


From c01064d8e152d3054b3fd666bf23ff1b4066e968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 17/60] fix: concurrent connection requests corrupted the
 wake-up pipe buffer

---
 src/lib/tcp.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 6eddb2c..a8b71e2 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -227,10 +227,9 @@ void connector::add(const std::string &ip, int port, family f, int t)
         {
             hosts_[h] = t;
         }
+        wrp_->wbuffer().put_string("0");
+        wrp_->write_all(1);
     }
-
-    wrp_->wbuffer().put_string("0");
-    wrp_->write_all(1);
 }
 
 void connector::add_unix(const std::string &path, int t)
-- 
2.43.0


From e870d25e96a455a8d5bc6655bf12ea05327ea9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:19 +0000
Subject: [PATCH 18/60] fix: opening a fence woke only one of its waiters

---
 src/lib/lock.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index b87c2d9..f8c7d96 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -236,7 +236,7 @@ void pshared_one_time_fence::notify()
     {
         std::unique_lock<pshared_lock> lock(lock_);
         ok_ = true;
-        cond_.notify_one();
+        cond_.notify_all();
     }
 }
 
-- 
2.43.0


From e760a3c83b82be8551b622cd61884bd3aa56e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:19 +0000
Subject: [PATCH 19/60] fix: a fence was tested without synchronisation

---
 src/include/cppev/lock.h | 2 +-
 src/lib/lock.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/cppev/lock.h b/src/include/cppev/lock.h
index d62bf86..8f1152e 100644
--- a/src/include/cppev/lock.h
+++ b/src/include/cppev/lock.h
@@ -111,7 +111,7 @@ public:
     bool ok() const noexcept;
 
 private:
-    bool ok_;
+    std::atomic<bool> ok_;
 
     pshared_lock lock_;
 
diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index f8c7d96..74d93b9 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -225,7 +225,7 @@ void pshared_one_time_fence::wait()
         std::unique_lock<pshared_lock> lock(lock_);
         if (!ok_)
         {
-            cond_.wait(lock, [this](){ return ok_; });
+            cond_.wait(lock, [this]() -> bool { return ok_; });
         }
     }
 }
-- 
2.43.0


From 1e0576e4f0ab754ee148aa5a765ce76aed2b18b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:19 +0000
Subject: [PATCH 20/60] fix: a caller in excess made the threads in a barrier
 wait forever

---
 src/lib/lock.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index 74d93b9..123855e 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -254,18 +254,18 @@ pshared_barrier::pshared_barrier(int count)
 void pshared_barrier::wait()
 {
     std::unique_lock<pshared_lock> lock(lock_);
+    if (count_ <= 0)
+    {
+        throw_logic_error("too many threads waited in the barrier");
+    }
     --count_;
     if (count_ == 0)
     {
         cond_.notify_all();
     }
-    else if (count_ > 0)
-    {
-        cond_.wait(lock, [this]() { return count_ == 0; });
-    }
     else
     {
-        throw_logic_error("too many threads waited in the barrier");
+        cond_.wait(lock, [this]() { return count_ == 0; });
     }
 }
 
-- 
2.43.0


From 030c1b1463bf664911c46e1b6d884c33f29d1137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:19 +0000
Subject: [PATCH 21/60] fix: lock guards released locks they did not hold and
 kept replaced ones

---
 src/include/cppev/lock.h | 10 +++++
 src/lib/lock.cc          | 87 ++++++++++++++++++++++++++--------------
 2 files changed, 67 insertions(+), 30 deletions(-)

diff --git a/src/include/cppev/lock.h b/src/include/cppev/lock.h
index 8f1152e..ee6046d 100644
--- a/src/include/cppev/lock.h
+++ b/src/include/cppev/lock.h
@@ -183,7 +183,12 @@ public:
     void unlock();
 
 private:
+    // Unlock if this guard holds the lock
+    void release() noexcept;
+
     pshared_rwlock *rwlock_;
+
+    bool locked_;
 };
 
 class wrlockguard final
@@ -203,7 +208,12 @@ public:
     void unlock();
 
 private:
+    // Unlock if this guard holds the lock
+    void release() noexcept;
+
     pshared_rwlock *rwlock_;
+
+    bool locked_;
 };
 
 }   // namespace cppev
diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index 123855e..d3c7063 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -360,92 +360,119 @@ bool pshared_rwlock::try_wrlock()
 
 
 rdlockguard::rdlockguard(pshared_rwlock &lock)
-: rwlock_(&lock)
+: rwlock_(&lock), locked_(false)
 {
-    rwlock_->rdlock();
+    this->lock();
 }
 
 rdlockguard::rdlockguard(rdlockguard &&other) noexcept
+: rwlock_(other.rwlock_), locked_(other.locked_)
 {
-    this->rwlock_ = other.rwlock_;
     other.rwlock_ = nullptr;
+    other.locked_ = false;
 }
 
 rdlockguard &rdlockguard::operator=(rdlockguard &&other) noexcept
 {
-    this->rwlock_ = other.rwlock_;
-    other.rwlock_ = nullptr;
+    if (&other != this)
+    {
+        release();
+        this->rwlock_ = other.rwlock_;
+        this->locked_ = other.locked_;
+        other.rwlock_ = nullptr;
+        other.locked_ = false;
+    }
 
     return *this;
 }
 
 rdlockguard::~rdlockguard() noexcept
 {
-    if (rwlock_ != nullptr)
-    {
-        try
-        {
-            rwlock_->unlock();
-        }
-        catch(...)
-        {
-        }
-    }
+    release();
 }
 
 void rdlockguard::lock()
 {
     rwlock_->rdlock();
+    locked_ = true;
 }
 
 void rdlockguard::unlock()
 {
     rwlock_->unlock();
+    locked_ = false;
 }
 
+void rdlockguard::release() noexcept
+{
+    if (rwlock_ != nullptr && locked_)
+    {
+        try
+        {
+            rwlock_->unlock();
+        }
+        catch(...)
+        {
+        }
+    }
+}
 
 wrlockguard::wrlockguard(pshared_rwlock &lock)
-: rwlock_(&lock)
+: rwlock_(&lock), locked_(false)
 {
-    rwlock_->wrlock();
+    this->lock();
 }
 
 wrlockguard::wrlockguard(wrlockguard &&other) noexcept
+: rwlock_(other.rwlock_), locked_(other.locked_)
 {
-    this->rwlock_ = other.rwlock_;
     other.rwlock_ = nullptr;
+    other.locked_ = false;
 }
 
 wrlockguard &wrlockguard::operator=(wrlockguard &&other) noexcept
 {
-    this->rwlock_ = other.rwlock_;
-    other.rwlock_ = nullptr;
+    if (&other != this)
+    {
+        release();
+        this->rwlock_ = other.rwlock_;
+        this->locked_ = other.locked_;
+        other.rwlock_ = nullptr;
+        other.locked_ = false;
+    }
 
     return *this;
 }
 
 wrlockguard::~wrlockguard() noexcept
 {
-    if (rwlock_ != nullptr)
-    {
-        try
-        {
-            rwlock_->unlock();
-        }
-        catch(...)
-        {
-        }
-    }
+    release();
 }
 
 void wrlockguard::lock()
 {
     rwlock_->wrlock();
+    locked_ = true;
 }
 
 void wrlockguard::unlock()
 {
     rwlock_->unlock();
+    locked_ = false;
+}
+
+void wrlockguard::release() noexcept
+{
+    if (rwlock_ != nullptr && locked_)
+    {
+        try
+        {
+            rwlock_->unlock();
+        }
+        catch(...)
+        {
+        }
+    }
 }
 
 }   // namespace cppev
\ No newline at end of file
-- 
2.43.0


From 6980a8d9dce47a933c1bba44ebbbbd9ad2258098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:34 +0000
Subject: [PATCH 22/60] fix: a connection aborted before it was accepted
 terminated the server

---
 src/lib/nio.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 830f352..46bd85d 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -635,6 +635,10 @@ std::vector<std::shared_ptr<nsocktcp>> nsocktcp::accept(int batch)
             {
                 break;
             }
+            else if (errno == EINTR || errno == ECONNABORTED)
+            {
+                continue;
+            }
             else
             {
                 throw_system_error("accept error");
-- 
2.43.0


From 07c000ac645df3fd27dc3b85af8a82b4aa13efb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:34 +0000
Subject: [PATCH 23/60] fix: a failing accept dropped the connections accepted
 before it

---
 src/lib/nio.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 46bd85d..de7c352 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -639,6 +639,11 @@ std::vector<std::shared_ptr<nsocktcp>> nsocktcp::accept(int batch)
             {
                 continue;
             }
+            else if (sockfds.size())
+            {
+                // Hand over what was accepted, next call reports the error
+                break;
+            }
             else
             {
                 throw_system_error("accept error");
-- 
2.43.0


From dd15fc57d6e69ff31cd0e94920d0dea3b74fbeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:51 +0000
Subject: [PATCH 24/60] fix: a signal made taking from a semaphore fail and
 lose what was taken

---
 src/lib/ipc.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 9224798..fbff452 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -145,8 +145,12 @@ void semaphore::acquire(int count)
 {
     for (int i = 0; i < count; ++i)
     {
-        if (sem_wait(sem_) == -1)
+        while (sem_wait(sem_) == -1)
         {
+            if (errno == EINTR)
+            {
+                continue;
+            }
             throw_system_error("sem_wait error");
         }
     }
-- 
2.43.0


From f8e6b73e37e26745f7f5c4ab4a5855819fba1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:51 +0000
Subject: [PATCH 25/60] fix: shared memory opened while being created had no
 size and was wiped

---
 src/lib/ipc.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index fbff452..5c19d15 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -3,6 +3,7 @@
 #include <fcntl.h>
 #include <unistd.h>
 #include <sys/mman.h>
+#include <sys/stat.h>
 
 namespace cppev
 {
@@ -43,7 +44,13 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
         }
     }
 
-    if (creator_)
+    // Creator may not have set the size yet, extended part is filled with zero
+    struct stat st;
+    if (fstat(fd, &st) == -1)
+    {
+        throw_system_error("fstat error");
+    }
+    if (st.st_size < size_)
     {
         int ret = ftruncate(fd, size_);
         if (ret == -1)
@@ -57,10 +64,6 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
         throw_system_error("mmap error");
     }
     close(fd);
-    if (creator_)
-    {
-        memset(ptr_, 0, size_);
-    }
 }
 
 shared_memory::~shared_memory() noexcept
-- 
2.43.0


From 40f6e9466c1083419b6aa942ae9bb182b4d98182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:51 +0000
Subject: [PATCH 26/60] fix: failing to open shared memory leaked its
 descriptor

---
 src/lib/ipc.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 5c19d15..6f50c6f 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -44,24 +44,35 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
         }
     }
 
+    auto on_error = [&](const char *what)
+    {
+        int err = errno;
+        close(fd);
+        if (creator_)
+        {
+            shm_unlink(name_.c_str());
+        }
+        throw_system_error(what, err);
+    };
+
     // Creator may not have set the size yet, extended part is filled with zero
     struct stat st;
     if (fstat(fd, &st) == -1)
     {
-        throw_system_error("fstat error");
+        on_error("fstat error");
     }
     if (st.st_size < size_)
     {
         int ret = ftruncate(fd, size_);
         if (ret == -1)
         {
-            throw_system_error("ftruncate error");
+            on_error("ftruncate error");
         }
     }
     ptr_ = mmap(nullptr, size_, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
     if (ptr_ == MAP_FAILED)
     {
-        throw_system_error("mmap error");
+        on_error("mmap error");
     }
     close(fd);
 }
-- 
2.43.0


From b5b112c3a0201e833696fe5be15ad3d7e06f00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:51 +0000
Subject: [PATCH 27/60] fix: move assignment leaked the semaphore or mapping it
 replaced

---
 src/include/cppev/ipc.h |  6 ++++++
 src/lib/ipc.cc          | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/include/cppev/ipc.h b/src/include/cppev/ipc.h
index 459b076..dffd4e2 100644
--- a/src/include/cppev/ipc.h
+++ b/src/include/cppev/ipc.h
@@ -31,6 +31,7 @@ public:
         {
             return *this;
         }
+        unmap();
         move(std::forward<shared_memory>(other));
         return *this;
     }
@@ -66,6 +67,8 @@ public:
     }
 
 private:
+    void unmap() noexcept;
+
     void move(shared_memory &&other) noexcept
     {
         this->name_ = other.name_;
@@ -111,6 +114,7 @@ public:
         {
             return *this;
         }
+        close();
         move(std::forward<semaphore>(other));
         return *this;
     }
@@ -131,6 +135,8 @@ public:
     }
 
 private:
+    void close() noexcept;
+
     void move(semaphore &&other) noexcept
     {
         this->name_ = other.name_;
diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 6f50c6f..d3e4a68 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -78,6 +78,11 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
 }
 
 shared_memory::~shared_memory() noexcept
+{
+    unmap();
+}
+
+void shared_memory::unmap() noexcept
 {
     if (ptr_ != nullptr && size_ != 0)
     {
@@ -132,6 +137,11 @@ semaphore::semaphore(const std::string &name, mode_t mode)
 }
 
 semaphore::~semaphore() noexcept
+{
+    close();
+}
+
+void semaphore::close() noexcept
 {
     if (sem_ != SEM_FAILED)
     {
-- 
2.43.0


From 12fe1163b0b46e706170ed846ea5879b570506e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:04 +0000
Subject: [PATCH 28/60] fix: both processes kept both ends of the pipes of a
 subprocess

---
 src/lib/subprocess.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 4749909..95dee2c 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -5,6 +5,7 @@
 #include <set>
 #include <sys/wait.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <signal.h>
 #include <thread>
 
@@ -27,6 +28,15 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 
 }   // namespace subprocess
 
+// Ends used by the parent shall not be inherited by any subprocess, otherwise it never gets EOF
+static void set_close_on_exec(int fd)
+{
+    if (fcntl(fd, F_SETFD, FD_CLOEXEC) == -1)
+    {
+        throw_system_error("fcntl error");
+    }
+}
+
 subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
 : cmd_(cmd), env_(env)
 {
@@ -39,6 +49,7 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
     }
     zero = fds[0];
     stdin_ = std::make_unique<nstream>(fds[1]);
+    set_close_on_exec(fds[1]);
 
     if (pipe(fds) < 0)
     {
@@ -46,6 +57,7 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
     }
     one = fds[1];
     stdout_ = std::make_unique<nstream>(fds[0]);
+    set_close_on_exec(fds[0]);
 
     if (pipe(fds) < 0)
     {
@@ -53,6 +65,7 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
     }
     two = fds[1];
     stderr_ = std::make_unique<nstream>(fds[0]);
+    set_close_on_exec(fds[0]);
 
     pid_t pid = fork();
 
@@ -67,6 +80,14 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
         dup2(one, STDOUT_FILENO);
         dup2(two, STDERR_FILENO);
 
+        for (int fd : { zero, one, two })
+        {
+            if (fd > STDERR_FILENO)
+            {
+                close(fd);
+            }
+        }
+
         std::vector<std::string> cmd_with_args = split(cmd_, " ");
         std::string cmd_with_path = cmd_with_args[0];
         cmd_with_args[0] = split(cmd_with_args[0], "/").back();
@@ -90,6 +111,11 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
         _exit(127);
     }
 
+    for (int fd : { zero, one, two })
+    {
+        close(fd);
+    }
+
     pid_ = pid;
 }
 
-- 
2.43.0


From b85eb1b2b783a7625951ff9db4db04df9d271284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:04 +0000
Subject: [PATCH 29/60] fix: polling a finished subprocess terminated the
 caller

---
 src/include/cppev/subprocess.h |  2 ++
 src/lib/subprocess.cc          | 14 +++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index 6e1a59d..7bf7e54 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -86,6 +86,8 @@ private:
     pid_t pid_;
 
     int returncode_;
+
+    bool finished_;
 };
 
 }   // namespace cppev
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 95dee2c..7f53cce 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -38,7 +38,7 @@ static void set_close_on_exec(int fd)
 }
 
 subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
-: cmd_(cmd), env_(env)
+: cmd_(cmd), env_(env), pid_(-1), returncode_(-1), finished_(false)
 {
     int fds[2];
     int zero, one, two;
@@ -121,12 +121,16 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
 bool subp_open::poll()
 {
-    int ret = waitpid(pid_, &returncode_, WNOHANG);
-    if (ret == -1)
+    if (!finished_)
     {
-        _exit(-1);
+        int ret = waitpid(pid_, &returncode_, WNOHANG);
+        if (ret == -1)
+        {
+            throw_system_error("waitpid error");
+        }
+        finished_ = (ret != 0);
     }
-    return ret != 0;
+    return finished_;
 }
 
 void subp_open::wait()
-- 
2.43.0


From bd98aa70f9935e814192277c2ccba9cfe5b5de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:04 +0000
Subject: [PATCH 30/60] fix: failing to start a subprocess terminated the
 caller or leaked descriptors

---
 src/lib/subprocess.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 7f53cce..351f8a4 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -41,11 +41,24 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 : cmd_(cmd), env_(env), pid_(-1), returncode_(-1), finished_(false)
 {
     int fds[2];
-    int zero, one, two;
+    int zero = -1, one = -1, two = -1;
+
+    auto on_error = [&](const char *what)
+    {
+        int err = errno;
+        for (int fd : { zero, one, two })
+        {
+            if (fd != -1)
+            {
+                close(fd);
+            }
+        }
+        throw_system_error(what, err);
+    };
 
     if (pipe(fds) < 0)
     {
-        throw_system_error("pipe error");
+        on_error("pipe error");
     }
     zero = fds[0];
     stdin_ = std::make_unique<nstream>(fds[1]);
@@ -53,7 +66,7 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
     if (pipe(fds) < 0)
     {
-        throw_system_error("pipe error");
+        on_error("pipe error");
     }
     one = fds[1];
     stdout_ = std::make_unique<nstream>(fds[0]);
@@ -61,7 +74,7 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
     if (pipe(fds) < 0)
     {
-        throw_system_error("pipe error");
+        on_error("pipe error");
     }
     two = fds[1];
     stderr_ = std::make_unique<nstream>(fds[0]);
@@ -71,7 +84,7 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
     if (pid == -1)
     {
-        _exit(-1);
+        on_error("fork error");
     }
 
     if (pid == 0)
-- 
2.43.0


From a4f70df20f7120a9f3395aad791f37bfb88bd967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:04 +0000
Subject: [PATCH 31/60] fix: input beyond the capacity of the pipe never
 reached the subprocess

---
 src/lib/subprocess.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 351f8a4..860570a 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -40,6 +40,9 @@ static void set_close_on_exec(int fd)
 subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
 : cmd_(cmd), env_(env), pid_(-1), returncode_(-1), finished_(false)
 {
+    // Subprocess may stop reading its stdin at any time
+    ignore_signal(SIGPIPE);
+
     int fds[2];
     int zero = -1, one = -1, two = -1;
 
@@ -101,6 +104,8 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
             }
         }
 
+        signal(SIGPIPE, SIG_DFL);
+
         std::vector<std::string> cmd_with_args = split(cmd_, " ");
         std::string cmd_with_path = cmd_with_args[0];
         cmd_with_args[0] = split(cmd_with_args[0], "/").back();
@@ -159,6 +164,10 @@ void subp_open::communicate(const char *input, int len)
     if (input != nullptr && len != 0)
     {
         stdin_->wbuffer().produce(input, len);
+    }
+    // Pipe may not have taken all of the previous input
+    if (!finished_ && stdin_->wbuffer().size() != 0)
+    {
         stdin_->write_all();
     }
 }
-- 
2.43.0


From a161bdc4c168d85e56dedc1077b3def2f77c34b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:18 +0000
Subject: [PATCH 32/60] fix: unsynchronised stop flag of the scheduler

---
 src/include/cppev/scheduler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/scheduler.h b/src/include/cppev/scheduler.h
index 3294926..01b5e77 100644
--- a/src/include/cppev/scheduler.h
+++ b/src/include/cppev/scheduler.h
@@ -12,6 +12,7 @@
 #include <map>
 #include <thread>
 #include <algorithm>
+#include <atomic>
 #include "cppev/utils.h"
 
 namespace cppev
@@ -153,7 +154,7 @@ public:
 
 private:
     // whether thread shall stop
-    bool stop_;
+    std::atomic<bool> stop_;
 
     // time interval in nanoseconds
     int64_t interval_;
-- 
2.43.0


From db9400a08e8db823c2b0c443f17d24cfb8a6f9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:18 +0000
Subject: [PATCH 33/60] fix: a scheduler never started with unrelated
 frequencies or without timed tasks

---
 src/include/cppev/scheduler.h | 71 ++++++++++++-----------------------
 1 file changed, 25 insertions(+), 46 deletions(-)

diff --git a/src/include/cppev/scheduler.h b/src/include/cppev/scheduler.h
index 01b5e77..32abf9c 100644
--- a/src/include/cppev/scheduler.h
+++ b/src/include/cppev/scheduler.h
@@ -12,6 +12,8 @@
 #include <map>
 #include <thread>
 #include <algorithm>
+#include <set>
+#include <iterator>
 #include <atomic>
 #include "cppev/utils.h"
 
@@ -58,27 +60,14 @@ public:
         {
             intervals.push_back(1'000'000'000 / std::get<0>(timer_tasks[i]));
         }
-        int64_t lcm = intervals[0];
-        int64_t gcd = intervals[0];
-        if (intervals.size() >= 2)
-        {
-            lcm = least_common_multiple(intervals);
-            gcd = greatest_common_divisor(intervals);
-        }
-        interval_ = lcm;
 
         while (!timer_tasks_heap.empty())
         {
             size_t idx = std::get<1>(timer_tasks_heap.top());
             timer_tasks_heap.pop();
             timer_handlers_.push_back(std::get<2>(timer_tasks[idx]));
-            for (int64_t stamp = 0; stamp < lcm; stamp += gcd)
-            {
-                if (stamp % intervals[idx] == 0)
-                {
-                    tasks_[stamp].push_back(timer_handlers_.size() - 1);
-                }
-            }
+            intervals_.push_back(intervals[idx]);
+            tasks_[0].insert(timer_handlers_.size() - 1);
         }
 
         thr_ = std::thread(
@@ -94,35 +83,25 @@ public:
                     tp_curr = ceil_time_point<Clock>(tp_curr);
                     std::this_thread::sleep_until(tp_curr);
                 }
-                while(!stop_)
+                while(!stop_ && !tasks_.empty())
                 {
-                    for (auto iter = tasks_.cbegin(); !stop_ && (iter != tasks_.cend()); )
+                    auto curr = tasks_.begin();
+
+                    for (auto idx : curr->second)
                     {
-                        auto curr = iter;
-                        auto next = ++iter;
-
-                        int64_t span;
-                        if (next == tasks_.cend())
-                        {
-                            span = interval_ - curr->first;
-                        }
-                        else
-                        {
-                            span = next->first - curr->first;
-                        }
-
-                        for (auto idx : curr->second)
-                        {
-                            timer_handlers_[idx](tp_curr.time_since_epoch());
-                        }
-
-                        auto tp_next = tp_curr + std::chrono::nanoseconds(span);
-
-                        std::this_thread::sleep_until(tp_next);
-
-                        tp_curr = std::chrono::time_point_cast<
-                            typename decltype(tp_curr)::duration>(tp_next);
+                        timer_handlers_[idx](tp_curr.time_since_epoch());
+                        tasks_[curr->first + intervals_[idx]].insert(idx);
                     }
+
+                    int64_t span = std::next(curr)->first - curr->first;
+                    tasks_.erase(curr);
+
+                    auto tp_next = tp_curr + std::chrono::nanoseconds(span);
+
+                    std::this_thread::sleep_until(tp_next);
+
+                    tp_curr = std::chrono::time_point_cast<
+                        typename decltype(tp_curr)::duration>(tp_next);
                 }
                 for (const auto &task : exit_tasks)
                 {
@@ -156,14 +135,14 @@ private:
     // whether thread shall stop
     std::atomic<bool> stop_;
 
-    // time interval in nanoseconds
-    int64_t interval_;
-
     // timed task handlers, discending priority order
     std::vector<timed_task_handler> timer_handlers_;
 
-    // timepoint -> timed handler index
-    std::map<int64_t, std::vector<size_t>> tasks_;
+    // time interval of the timed handlers in nanoseconds
+    std::vector<int64_t> intervals_;
+
+    // next timepoint -> timed handler index, discending priority order
+    std::map<int64_t, std::set<size_t>> tasks_;
 
     // backend thread executing tasks
     std::thread thr_;
-- 
2.43.0


From 9482c43ca0d50deb8b0dcb17c7a2fe4b2812443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:38 +0000
Subject: [PATCH 34/60] fix: destroying a logger could hang or lose pending
 messages

---
 src/lib/async_logger.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index fad5cd3..af58a7f 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -34,7 +34,10 @@ async_logger::~async_logger()
     {
         return;
     }
-    stop_ = true;
+    {
+        std::unique_lock<std::recursive_mutex> lock(lock_);
+        stop_ = true;
+    }
     cond_.notify_one();
     join();
 }
@@ -112,7 +115,7 @@ async_logger &async_logger::operator<<(const async_logger &)
 
 void async_logger::run_impl()
 {
-    while (!stop_)
+    while (true)
     {
         int prev = -1;
         {
@@ -126,6 +129,11 @@ void async_logger::run_impl()
                     }
                 );
             }
+            // Stopped and nothing is pending
+            if (0 == buffers_[curr_].size())
+            {
+                break;
+            }
             prev = curr_;
             curr_ = 1 - curr_;
         }
-- 
2.43.0


From 4fa661f25cad24628e0a2a6ccc2e810d520fb926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:46 +0000
Subject: [PATCH 35/60] fix: a partial or interrupted write lost log messages

---
 src/lib/async_logger.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index af58a7f..948a586 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -7,6 +7,7 @@
 #include <string>
 #include <unordered_set>
 #include <cassert>
+#include <cerrno>
 #include <unistd.h>
 #include "cppev/utils.h"
 #include "cppev/sysconfig.h"
@@ -140,11 +141,20 @@ void async_logger::run_impl()
 
         buffer &buf = buffers_[prev];
 
-        if (buf.size())
+        while (buf.size())
         {
-            write(level_, buf.rawbuf(), buf.size());
-            buf.clear();
+            int ret = write(level_, buf.rawbuf(), buf.size());
+            if (ret == -1)
+            {
+                if (errno == EINTR)
+                {
+                    continue;
+                }
+                break;
+            }
+            buf.consume(ret);
         }
+        buf.clear();
     }
 }
 
-- 
2.43.0


From 1e1ece58e20bf0a000c274eec1caf7d440dc9fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 36/60] fix: loading a symbol whose address is null crashed

---
 src/include/cppev/dynamic_loader.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/dynamic_loader.h b/src/include/cppev/dynamic_loader.h
index 7732e7e..517b1f0 100644
--- a/src/include/cppev/dynamic_loader.h
+++ b/src/include/cppev/dynamic_loader.h
@@ -38,7 +38,9 @@ public:
         if (ptr == nullptr)
         {
             // errno is set in macOS, but not in linux
-            throw_runtime_error(std::string("dlsym error : ").append(dlerror()));
+            // no message is set when the address of the symbol is null
+            const char *msg = dlerror();
+            throw_runtime_error(std::string("dlsym error : ").append(msg ? msg : "symbol is null"));
         }
         return reinterpret_cast<Function *>(ptr);
     }
-- 
2.43.0


From a1406818a01befde16cee02300c0db5d70abbf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 37/60] fix: timestamp of a time without representation was
 read from uninitialised memory

---
 src/lib/utils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 8385a5f..678f2eb 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -37,7 +37,10 @@ std::string timestamp(time_t t, const char *format)
         format = "%F %T %Z";
     }
     tm s_tm;
-    localtime_r(&t, &s_tm);
+    if (nullptr == localtime_r(&t, &s_tm))
+    {
+        throw_system_error("localtime_r error");
+    }
     char buf[1024];
     memset(buf, 0, 1024);
     if (0 == strftime(buf, 1024, format, &s_tm))
-- 
2.43.0


From 86c138a6864f0e2fc084226dd7fc830d25caa6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 38/60] fix: failing to wait for a signal was reported with a
 wrong error number

---
 src/lib/utils.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 678f2eb..0504b2b 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -188,9 +188,10 @@ void thread_wait_for_signal(int sig)
 
     // linux requires non-null
     int ret_sig;
-    if (sigwait(&set, &ret_sig) != 0)
+    int ret = sigwait(&set, &ret_sig);
+    if (ret != 0)
     {
-        throw_system_error("sigwait error");
+        throw_system_error("sigwait error", ret);
     }
 }
 
@@ -205,9 +206,10 @@ int thread_wait_for_signal(const std::vector<int> &sigs)
 
     // linux requires non-null
     int ret_sig;
-    if (sigwait(&set, &ret_sig) != 0)
+    int ret = sigwait(&set, &ret_sig);
+    if (ret != 0)
     {
-        throw_system_error("sigwait error");
+        throw_system_error("sigwait error", ret);
     }
     return ret_sig;
 }
-- 
2.43.0


From 4b0a3ac5c408d79ca3ff1912a9975b8f3db670ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 39/60] fix: waiting for, blocking or unblocking a signal that
 does not exist was silently ignored

---
 src/lib/utils.cc | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 0504b2b..4a58aed 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -184,7 +184,10 @@ void thread_wait_for_signal(int sig)
 {
     sigset_t set;
     sigemptyset(&set);
-    sigaddset(&set, sig);
+    if (sigaddset(&set, sig) != 0)
+    {
+        throw_system_error("sigaddset error");
+    }
 
     // linux requires non-null
     int ret_sig;
@@ -201,7 +204,10 @@ int thread_wait_for_signal(const std::vector<int> &sigs)
     sigemptyset(&set);
     for (auto sig : sigs)
     {
-        sigaddset(&set, sig);
+        if (sigaddset(&set, sig) != 0)
+        {
+            throw_system_error("sigaddset error");
+        }
     }
 
     // linux requires non-null
@@ -218,7 +224,10 @@ void thread_suspend_for_signal(int sig)
 {
     sigset_t set;
     sigfillset(&set);
-    sigdelset(&set, sig);
+    if (sigdelset(&set, sig) != 0)
+    {
+        throw_system_error("sigdelset error");
+    }
     // sigsuspend always returns -1
     sigsuspend(&set);
 }
@@ -229,7 +238,10 @@ void thread_suspend_for_signal(const std::vector<int> &sigs)
     sigfillset(&set);
     for (auto sig : sigs)
     {
-        sigdelset(&set, sig);
+        if (sigdelset(&set, sig) != 0)
+        {
+            throw_system_error("sigdelset error");
+        }
     }
     // sigsuspend always returns -1
     sigsuspend(&set);
@@ -239,7 +251,10 @@ void thread_block_signal(int sig)
 {
     sigset_t set;
     sigemptyset(&set);
-    sigaddset(&set, sig);
+    if (sigaddset(&set, sig) != 0)
+    {
+        throw_system_error("sigaddset error");
+    }
     int ret = pthread_sigmask(SIG_BLOCK, &set, nullptr);
     if (ret != 0)
     {
@@ -253,7 +268,10 @@ void thread_block_signal(const std::vector<int> &sigs)
     sigemptyset(&set);
     for (auto sig : sigs)
     {
-        sigaddset(&set, sig);
+        if (sigaddset(&set, sig) != 0)
+        {
+            throw_system_error("sigaddset error");
+        }
     }
     int ret = pthread_sigmask(SIG_BLOCK, &set, nullptr);
     if (ret != 0)
@@ -266,7 +284,10 @@ void thread_unblock_signal(int sig)
 {
     sigset_t set;
     sigemptyset(&set);
-    sigaddset(&set, sig);
+    if (sigaddset(&set, sig) != 0)
+    {
+        throw_system_error("sigaddset error");
+    }
     int ret = pthread_sigmask(SIG_UNBLOCK, &set, nullptr);
     if (ret != 0)
     {
@@ -280,7 +301,10 @@ void thread_unblock_signal(const std::vector<int> &sigs)
     sigemptyset(&set);
     for (auto sig : sigs)
     {
-        sigaddset(&set, sig);
+        if (sigaddset(&set, sig) != 0)
+        {
+            throw_system_error("sigaddset error");
+        }
     }
     int ret = pthread_sigmask(SIG_UNBLOCK, &set, nullptr);
     if (ret != 0)
-- 
2.43.0


From e1c11bf1a5d2218720eebd2acf775ad989aeca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 40/60] fix: a datagram was cut when earlier ones were not
 consumed

---
 src/lib/nio.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index de7c352..ee8d05c 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -665,6 +665,8 @@ std::tuple<std::string, int, family> nsockudp::recv()
 {
     sockaddr_storage addr;
     socklen_t len = faddr_len_.at(family_);
+    // Bytes not yet consumed shall not take the room of the datagram
+    rbuffer().resize(rbuffer().offset_ + sysconfig::udp_buffer_size);
     int ret = recvfrom(fd_, rbuffer().buffer_.get() + rbuffer().offset_,
         rbuffer().cap_ - rbuffer().offset_, 0, (sockaddr *)&addr, &len);
     if (ret < 0)
-- 
2.43.0


From 6947d9c571f7667e0652c5b0407ebe26b7608c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 41/60] fix: a logged string was cut at its first zero byte

---
 src/lib/async_logger.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index 948a586..3f7be4e 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -43,9 +43,9 @@ async_logger::~async_logger()
     join();
 }
 
-async_logger &async_logger::operator<<(const std::string &str)
+async_logger &async_logger::operator<<(const char *str)
 {
-    return (*this) << str.c_str();
+    return (*this) << std::string(str);
 }
 
 async_logger &async_logger::operator<<(long x)
@@ -90,7 +90,7 @@ void async_logger::write_header(buffer &buf)
     buf.put_string(ss.str());
 }
 
-async_logger &async_logger::operator<<(const char *str)
+async_logger &async_logger::operator<<(const std::string &str)
 {
     lock_.lock();
     if (0 == recur_level_++)
-- 
2.43.0


From b97bda1276d8d2e8bd85bb3b5e56069341d2f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 42/60] fix: messages were lost when a non-blocking output was
 full

---
 src/lib/async_logger.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index 3f7be4e..72a591c 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -8,6 +8,7 @@
 #include <unordered_set>
 #include <cassert>
 #include <cerrno>
+#include <poll.h>
 #include <unistd.h>
 #include "cppev/utils.h"
 #include "cppev/sysconfig.h"
@@ -150,6 +151,13 @@ void async_logger::run_impl()
                 {
                     continue;
                 }
+                if (errno == EAGAIN)
+                {
+                    // Output is non-blocking and takes nothing at the moment
+                    pollfd pfd = {level_, POLLOUT, 0};
+                    poll(&pfd, 1, -1);
+                    continue;
+                }
                 break;
             }
             buf.consume(ret);
-- 
2.43.0


From a53113ae5aa4b31c71aecf814546f6daefd9ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 43/60] fix: subprocesses started by several threads inherited
 each other's pipes

---
 src/lib/subprocess.cc | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 860570a..450f793 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -28,13 +28,21 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 
 }   // namespace subprocess
 
-// Ends used by the parent shall not be inherited by any subprocess, otherwise it never gets EOF
-static void set_close_on_exec(int fd)
+// Ends of the pipes shall not be inherited by any other subprocess, otherwise it never gets EOF.
+// Other threads may fork at any time, so the flag shall be set when the pipe is created.
+static int create_pipe(int *fds)
 {
-    if (fcntl(fd, F_SETFD, FD_CLOEXEC) == -1)
+#ifdef __linux__
+    return pipe2(fds, O_CLOEXEC);
+#else
+    if (pipe(fds) < 0)
     {
-        throw_system_error("fcntl error");
+        return -1;
     }
+    fcntl(fds[0], F_SETFD, FD_CLOEXEC);
+    fcntl(fds[1], F_SETFD, FD_CLOEXEC);
+    return 0;
+#endif
 }
 
 subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
@@ -59,29 +67,26 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
         throw_system_error(what, err);
     };
 
-    if (pipe(fds) < 0)
+    if (create_pipe(fds) < 0)
     {
         on_error("pipe error");
     }
     zero = fds[0];
     stdin_ = std::make_unique<nstream>(fds[1]);
-    set_close_on_exec(fds[1]);
 
-    if (pipe(fds) < 0)
+    if (create_pipe(fds) < 0)
     {
         on_error("pipe error");
     }
     one = fds[1];
     stdout_ = std::make_unique<nstream>(fds[0]);
-    set_close_on_exec(fds[0]);
 
-    if (pipe(fds) < 0)
+    if (create_pipe(fds) < 0)
     {
         on_error("pipe error");
     }
     two = fds[1];
     stderr_ = std::make_unique<nstream>(fds[0]);
-    set_close_on_exec(fds[0]);
 
     pid_t pid = fork();
 
@@ -104,6 +109,12 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
             }
         }
 
+        // dup2 keeps the flag of an end which is a standard stream already
+        for (int fd : { STDIN_FILENO, STDOUT_FILENO, STDERR_FILENO })
+        {
+            fcntl(fd, F_SETFD, 0);
+        }
+
         signal(SIGPIPE, SIG_DFL);
 
         std::vector<std::string> cmd_with_args = split(cmd_, " ");
-- 
2.43.0


From 04c89bcc66c44245bf00b7dd24006b636db9cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 44/60] fix: signalling a finished subprocess could hit an
 unrelated process

---
 src/lib/subprocess.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 450f793..b5177fb 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -195,6 +195,11 @@ void subp_open::communicate(const std::string &input)
 
 void subp_open::send_signal(int sig) const
 {
+    // Process has been reaped, its pid may belong to another process now
+    if (finished_)
+    {
+        throw_system_error("kill error", ESRCH);
+    }
     if (::kill(pid(), sig) < 0)
     {
         throw_system_error("kill error");
-- 
2.43.0


From 7844b50903fa6991165324d87ba9f4b133cd689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 45/60] fix: output of exec_cmd was cut at its first zero byte

---
 src/include/cppev/subprocess.h | 2 ++
 src/lib/subprocess.cc          | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index 7bf7e54..0959593 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -20,6 +20,8 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 
 class subp_open final
 {
+    friend std::tuple<int, std::string, std::string> subprocess::exec_cmd(const std::string &, const std::vector<std::string> &);
+
 public:
     explicit subp_open(const std::string &cmd, const std::vector<std::string> &env);
 
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index b5177fb..bdc777f 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -23,7 +23,8 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 {
     subp_open subp(cmd, env);
     subp.wait();
-    return std::make_tuple(subp.returncode(), subp.stdout(), subp.stderr());
+    return std::make_tuple(subp.returncode(), subp.stdout_->rbuffer().get_string(-1, false),
+        subp.stderr_->rbuffer().get_string(-1, false));
 }
 
 }   // namespace subprocess
-- 
2.43.0


From 4dc035e5ca47f76947ca19a4daa5de0ebedd12c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 46/60] fix: a connection that timed out ended the process of
 its server or client

---
 src/lib/tcp.cc | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index a8b71e2..c68bd8a 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -31,10 +31,28 @@ event_loop *tp_shared_data::minloads_get_evlp()
 }
 
 
+// @return  whether connection failed, e.g. timed out or host unreachable, errors that are
+//          flags of the stream (closed by peer, reset) are not reported here
+template <typename Func>
+static bool io_failed(const std::shared_ptr<nsocktcp> &iopt, const Func &func)
+{
+    try
+    {
+        func();
+    }
+    catch (const std::system_error &e)
+    {
+        log::error << "fd " << iopt->fd() << " failed : " << e.what() << log::endl;
+        return true;
+    }
+    return false;
+}
+
 void async_write(const std::shared_ptr<nsocktcp> &iopt)
 {
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
-    iopt->write_all();
+    // Failed connection is writable, so it will be handled there
+    io_failed(iopt, [&iopt]() { iopt->write_all(); });
     if (0 == iopt->wbuffer().size())
     {
         dp->on_write_complete(iopt);
@@ -71,10 +89,10 @@ void iohandler::on_readable(const std::shared_ptr<nio> &iop)
         throw_logic_error("dynamic_pointer_cast error");
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
-    iopt->read_all();
+    bool failed = io_failed(iopt, [&iopt]() { iopt->read_all(); });
     dp->on_read_complete(iopt);
     iopt->rbuffer().clear();
-    if (!iopt->is_closed() && (iopt->eof() || iopt->is_reset()))
+    if (!iopt->is_closed() && (failed || iopt->eof() || iopt->is_reset()))
     {
         dp->on_closed(iopt);
         if (!iopt->is_closed())
@@ -92,7 +110,7 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
         throw_logic_error("dynamic_pointer_cast error");
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
-    iopt->write_all();
+    bool failed = io_failed(iopt, [&iopt]() { iopt->write_all(); });
     if (0 == iopt->wbuffer().size())
     {
         iopt->evlp().fd_remove(iop, false);
@@ -100,7 +118,7 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
         iopt->evlp().fd_register(iop, fd_event::fd_readable);
         dp->on_write_complete(iopt);
     }
-    if (!iopt->is_closed() && (iopt->eop() || iopt->is_reset()))
+    if (!iopt->is_closed() && (failed || iopt->eop() || iopt->is_reset()))
     {
         dp->on_closed(iopt);
         if (!iopt->is_closed())
-- 
2.43.0


From 2461b78c0186e7b5e81b2265c9b7585c81f15666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 47/60] fix: a server ended its process when descriptors were
 used up

---
 src/lib/tcp.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index c68bd8a..495439b 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -203,7 +203,9 @@ void acceptor::on_acpt_readable(const std::shared_ptr<nio> &iop)
     {
         throw_logic_error("dynamic_pointer_cast error");
     }
-    std::vector<std::shared_ptr<nsocktcp>> conns = iopt->accept();
+    std::vector<std::shared_ptr<nsocktcp>> conns;
+    // Connections wait in the backlog when descriptors are used up
+    io_failed(iopt, [&]() { conns = iopt->accept(); });
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
 
     for (auto &conn : conns)
-- 
2.43.0


From b69ccba2659c093cb646c523179ff6c4aa477656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 48/60] fix: a connection attempt that raised an error ended
 the process of its client

---
 src/lib/tcp.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 495439b..6382b5e 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -278,15 +278,23 @@ void connector::on_pipe_readable(const std::shared_ptr<nio> &iop)
     {
         for (int i = 0; i < iter->second; ++i)
         {
-            std::shared_ptr<nsocktcp> sock = nio_factory::get_nsocktcp(std::get<2>(iter->first));
-            bool succeed;
-            if (std::get<2>(iter->first) == family::local)
+            std::shared_ptr<nsocktcp> sock;
+            bool succeed = false;
+            try
             {
-                succeed = sock->connect_unix(std::get<0>(iter->first));
+                sock = nio_factory::get_nsocktcp(std::get<2>(iter->first));
+                if (std::get<2>(iter->first) == family::local)
+                {
+                    succeed = sock->connect_unix(std::get<0>(iter->first));
+                }
+                else
+                {
+                    succeed = sock->connect(std::get<0>(iter->first), std::get<1>(iter->first));
+                }
             }
-            else
+            catch (const std::exception &e)
             {
-                succeed = sock->connect(std::get<0>(iter->first), std::get<1>(iter->first));
+                log::error << "connect " << std::get<0>(iter->first) << " failed : " << e.what() << log::endl;
             }
             if (succeed)
             {
-- 
2.43.0


From 885629dc953983e7edb2239626b5cd31aeea5a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 49/60] fix: a port that does not exist was replaced by another
 one

---
 src/lib/nio.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index ee8d05c..85fe18c 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -182,6 +182,10 @@ const std::unordered_map<family, int, enum_hash> nsock::faddr_len_ =
 
 static void set_ip_port(sockaddr_storage &addr, const char *ip, int port)
 {
+    if (port < 0 || port > 65535)
+    {
+        throw_logic_error("port out of range");
+    }
     switch (addr.ss_family)
     {
     case AF_INET :
-- 
2.43.0


From 6fc164e9f086e417ffdc49294ce4132d27f4f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 50/60] fix: after a handler raised, the handlers left over ran
 twice in the next pass

---
 src/lib/event_loop_epoll.cc  | 2 ++
 src/lib/event_loop_kqueue.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index d783beb..3b419d6 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -150,6 +150,8 @@ void event_loop::fd_remove(const std::shared_ptr<nio> &iop, bool clean, bool dea
 void event_loop::loop_once(int timeout)
 {
     // 1. Add to priority queue
+    // A previous pass ended by an exception may leave callbacks behind
+    fd_cbs_ = decltype(fd_cbs_)();
     epoll_event evs[sysconfig::event_number];
     int nums = epoll_wait(ev_fd_, evs, sysconfig::event_number, timeout);
     if (nums < 0 && errno != EINTR)
diff --git a/src/lib/event_loop_kqueue.cc b/src/lib/event_loop_kqueue.cc
index 809493e..e36828c 100644
--- a/src/lib/event_loop_kqueue.cc
+++ b/src/lib/event_loop_kqueue.cc
@@ -182,6 +182,8 @@ void event_loop::fd_remove(const std::shared_ptr<nio> &iop, bool clean, bool dea
 void event_loop::loop_once(int timeout)
 {
     // 1. Add to priority queue
+    // A previous pass ended by an exception may leave callbacks behind
+    fd_cbs_ = decltype(fd_cbs_)();
     int nums;
     struct kevent evs[sysconfig::event_number];
     if (timeout < 0)
-- 
2.43.0


From 97727e32ea293e5305bd2247055a0043de8ea897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 51/60] fix: a server whose listen failed kept the half-made
 acceptor and ran it

---
 src/lib/tcp.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 6382b5e..01a60fc 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -344,14 +344,17 @@ tcp_server::tcp_server(int thr_num, void *external_data)
 
 void tcp_server::listen(int port, family f, const char *ip)
 {
-    acpts_.push_back(std::make_unique<acceptor>(&data_));
-    acpts_.back()->listen(port, f, ip);
+    std::unique_ptr<acceptor> acpt = std::make_unique<acceptor>(&data_);
+    acpt->listen(port, f, ip);
+    // Acceptor that failed to listen shall not be kept
+    acpts_.push_back(std::move(acpt));
 }
 
 void tcp_server::listen_unix(const std::string &path, bool remove)
 {
-    acpts_.push_back(std::make_unique<acceptor>(&data_));
-    acpts_.back()->listen_unix(path, remove);
+    std::unique_ptr<acceptor> acpt = std::make_unique<acceptor>(&data_);
+    acpt->listen_unix(path, remove);
+    acpts_.push_back(std::move(acpt));
 }
 
 void tcp_server::run()
-- 
2.43.0


From 493958fae111b23f4fe3c0bbfed327ab7d17dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 52/60] fix: a peer that closed its writing direction lost the
 rest of a delayed reply

---
 src/lib/tcp.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 01a60fc..8699285 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -92,7 +92,17 @@ void iohandler::on_readable(const std::shared_ptr<nio> &iop)
     bool failed = io_failed(iopt, [&iopt]() { iopt->read_all(); });
     dp->on_read_complete(iopt);
     iopt->rbuffer().clear();
-    if (!iopt->is_closed() && (failed || iopt->eof() || iopt->is_reset()))
+    if (iopt->is_closed())
+    {
+        return;
+    }
+    if (iopt->eof() && !failed && !iopt->is_reset() && 0 != iopt->wbuffer().size())
+    {
+        // Peer may have closed only its writing direction, eof is read again when all is written
+        iopt->evlp().fd_remove(iop, false);
+        iopt->evlp().fd_register(iop, fd_event::fd_writable);
+    }
+    else if (failed || iopt->eof() || iopt->is_reset())
     {
         dp->on_closed(iopt);
         if (!iopt->is_closed())
-- 
2.43.0


From f1ea3fd228d6537a45e26605f4eccb8344e08ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 53/60] fix: writing to or closing a connection that has ended
 terminated the process or hit another one

---
 src/lib/tcp.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 8699285..2a07da0 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -50,6 +50,10 @@ static bool io_failed(const std::shared_ptr<nsocktcp> &iopt, const Func &func)
 
 void async_write(const std::shared_ptr<nsocktcp> &iopt)
 {
+    if (iopt->is_closed())
+    {
+        return;
+    }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
     // Failed connection is writable, so it will be handled there
     io_failed(iopt, [&iopt]() { iopt->write_all(); });
@@ -67,6 +71,10 @@ void async_write(const std::shared_ptr<nsocktcp> &iopt)
 
 void safely_close(const std::shared_ptr<nsocktcp> &iopt)
 {
+    if (iopt->is_closed())
+    {
+        return;
+    }
     std::shared_ptr<nio> iop = std::static_pointer_cast<nio>(iopt);
     // epoll/kqueue will remove fd when it's closed
     iopt->evlp().fd_remove(iop, true, false);
@@ -107,7 +115,9 @@ void iohandler::on_readable(const std::shared_ptr<nio> &iop)
         dp->on_closed(iopt);
         if (!iopt->is_closed())
         {
+            // Closed, so whoever still holds it cannot write to the descriptor any more
             iopt->evlp().fd_remove(iop, true);
+            iopt->close();
         }
     }
 }
@@ -133,7 +143,9 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
         dp->on_closed(iopt);
         if (!iopt->is_closed())
         {
+            // Closed, so whoever still holds it cannot write to the descriptor any more
             iopt->evlp().fd_remove(iop, true);
+            iopt->close();
         }
     }
 }
-- 
2.43.0


From 0500f4b3f296ff8d60667683dc431c2a0458e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 54/60] fix: a cancelled thread was never reported as finished

---
 src/include/cppev/runnable.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/runnable.h b/src/include/cppev/runnable.h
index d809f3f..e43646e 100644
--- a/src/include/cppev/runnable.h
+++ b/src/include/cppev/runnable.h
@@ -54,8 +54,14 @@ public:
             {
                 throw_logic_error("pthread_setcanceltype error");
             }
+            // A cancelled thread finishes by unwinding its stack
+            struct finisher
+            {
+                std::promise<bool> &prom;
+                ~finisher() { prom.set_value(true); }
+            };
+            finisher fin{pseudo_this->prom_};
             pseudo_this->run_impl();
-            pseudo_this->prom_.set_value(true);
             return nullptr;
         };
         int ret = pthread_create(&thr_, nullptr, thr_func, this);
-- 
2.43.0


From 872334447d0dd99880a43bf5c126962b4bf01a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 55/60] fix: a timestamp of an empty format was reported as an
 error

---
 src/lib/utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 4a58aed..365d397 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -43,7 +43,8 @@ std::string timestamp(time_t t, const char *format)
     }
     char buf[1024];
     memset(buf, 0, 1024);
-    if (0 == strftime(buf, 1024, format, &s_tm))
+    // An empty format gives an empty text
+    if (0 == strftime(buf, 1024, format, &s_tm) && format[0] != '\0')
     {
         throw_system_error("strftime error");
     }
-- 
2.43.0


From 735c50dfb6445b03840c88347897e87ceff40b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 56/60] fix: sleep_until could not be compiled when used

---
 src/include/cppev/utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/utils.h b/src/include/cppev/utils.h
index ca3f9ab..dd6c00d 100644
--- a/src/include/cppev/utils.h
+++ b/src/include/cppev/utils.h
@@ -62,7 +62,9 @@ std::string timestamp(time_t t = -1, const char *format = nullptr);
 template <typename Clock = std::chrono::system_clock>
 void sleep_until(const std::chrono::nanoseconds &stamp)
 {
-    std::this_thread::sleep_until(std::chrono::duration_cast<Clock::duration>(stamp));
+    // Round up, otherwise a coarser clock may return before the stamp
+    std::this_thread::sleep_until(typename Clock::time_point(
+        std::chrono::ceil<typename Clock::duration>(stamp)));
 }
 
 template <typename Clock = std::chrono::system_clock>
-- 
2.43.0


From 410150c67b883454460c5d4b0722be3e24f11828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 57/60] fix: a scheduler with a coarse clock drifted from the
 multiples of its periods

---
 src/include/cppev/scheduler.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/include/cppev/scheduler.h b/src/include/cppev/scheduler.h
index 32abf9c..b52c8cd 100644
--- a/src/include/cppev/scheduler.h
+++ b/src/include/cppev/scheduler.h
@@ -77,12 +77,14 @@ public:
                 {
                     task();
                 }
-                auto tp_curr = Clock::now();
+                auto tp_start = Clock::now();
                 if (align)
                 {
-                    tp_curr = ceil_time_point<Clock>(tp_curr);
-                    std::this_thread::sleep_until(tp_curr);
+                    tp_start = ceil_time_point<Clock>(tp_start);
+                    std::this_thread::sleep_until(tp_start);
                 }
+                // Clock may be coarser, rounding shall not accumulate
+                auto tp_curr = std::chrono::time_point_cast<std::chrono::nanoseconds>(tp_start);
                 while(!stop_ && !tasks_.empty())
                 {
                     auto curr = tasks_.begin();
-- 
2.43.0


From 15cb0e23974ebb61ffdfd1074e5701c961b45a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 58/60] fix: a worker kept what a finished task held and
 released it while holding the lock

---
 src/include/cppev/thread_pool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/cppev/thread_pool.h b/src/include/cppev/thread_pool.h
index 8581af9..507f599 100644
--- a/src/include/cppev/thread_pool.h
+++ b/src/include/cppev/thread_pool.h
@@ -172,6 +172,8 @@ public:
             }
             task_queue_->cond_.notify_all();
             handler();
+            // What the task holds may use the queue when it's destroyed
+            handler = nullptr;
         }
     }
 
-- 
2.43.0


From 0c576d185a47a97b1ab32ccfc0a81af4e9884002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 59/60] fix: only the first thread of a pool got the arguments
 held by value

---
 src/include/cppev/thread_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/thread_pool.h b/src/include/cppev/thread_pool.h
index 507f599..6abfb86 100644
--- a/src/include/cppev/thread_pool.h
+++ b/src/include/cppev/thread_pool.h
@@ -20,12 +20,15 @@ class thread_pool
 {
     static_assert(std::is_base_of<runnable, Runnable>::value, "Not runnable");
     static_assert(std::is_constructible<Runnable, Args&&...>::value, "Not constructible");
+    // An argument held by value is copied for each thread
+    template<typename T>
+    using thread_arg = std::conditional_t<std::is_copy_constructible<T>::value, T, T &&>;
 public:
     explicit thread_pool(int thr_num, Args&&... args)
     {
         for (int i = 0; i < thr_num; ++i)
         {
-            thrs_.push_back(std::make_unique<Runnable>(std::forward<Args>(args)...));
+            thrs_.push_back(std::make_unique<Runnable>(static_cast<thread_arg<Args>>(args)...));
         }
     }
 
-- 
2.43.0


From 22a99f4616feacf6d3edb148e831f73f3db20931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:21 +0000
Subject: [PATCH 60/60] fix: a forked process logged with the thread id of its
 parent

---
 src/lib/utils.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 365d397..a9ca676 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -342,15 +342,13 @@ bool thread_check_signal_pending(int sig)
 
 tid_t gettid() noexcept
 {
-    thread_local tid_t thr_id = 0;
-    if (thr_id == 0)
-    {
+    // Not kept, since the thread has another id in a forked process
+    tid_t thr_id = 0;
 #ifdef __linux__
-        thr_id = syscall(SYS_gettid);
+    thr_id = syscall(SYS_gettid);
 #elif defined(__APPLE__)
-        pthread_threadid_np(0, &thr_id);
+    pthread_threadid_np(0, &thr_id);
 #endif  // __linux__
-    }
     return thr_id;
 }
 
-- 
2.43.0

