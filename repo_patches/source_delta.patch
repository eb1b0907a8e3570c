From 2f1ae65d45a7d1b56eb0cc90b52f96de3e261c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:15 +0000
Subject: [PATCH 01/90] fix: MemArena::localize_c read past the source and
 counted the terminator in the view

---
 code/include/swoc/MemArena.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index e0b25fb..dca3f8a 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -684,9 +684,9 @@ inline MemSpan<char> MemArena::localize(char const * s) {
 
 inline MemSpan<char> MemArena::localize_c(MemSpan<char const> s) {
   auto span = this->alloc(s.size() + 1).rebind<char>();
-  memcpy(span.data(), s.data(), span.size());
+  memcpy(span.data(), s.data(), s.size());
   span[s.size()] = '\0';
-  return { span.data(), span.size() };
+  return { span.data(), s.size() };
 }
 
 inline MemSpan<char> MemArena::localize_c(char const * s) {
-- 
2.43.0


From ae3692b7f8d2640c2bdcc07058a96b3901f223c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 02/90] fix: MemArena move assignment did not transfer the
 static block

---
 code/src/MemArena.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 1d4d708..90a60b4 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -64,8 +64,10 @@ MemArena::operator=(swoc::MemArena::self_type &&that) noexcept {
   std::swap(_frozen_allocated, that._frozen_allocated);
   std::swap(_frozen_reserved, that._frozen_reserved);
   std::swap(_reserve_hint, that._reserve_hint);
-  _active = std::move(that._active);
-  _frozen = std::move(that._frozen);
+  _active            = std::move(that._active);
+  _frozen            = std::move(that._frozen);
+  _static_block      = that._static_block;
+  that._static_block = nullptr;
   return *this;
 }
 
-- 
2.43.0


From c9e809e5d8f1be3b168021be7092b91d529e50b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 03/90] fix: MemArena::thaw discarded and relisted a static
 block that was still active

---
 code/src/MemArena.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 90a60b4..1d7bb04 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -135,7 +135,9 @@ MemArena &
 MemArena::thaw() {
   this->destroy_frozen();
   _frozen_reserved = _frozen_allocated = 0;
-  if (_static_block) {
+  // If the static block was frozen it is available again. If it's still active, leave it alone.
+  if (_static_block &&
+      std::none_of(_active.begin(), _active.end(), [sb = _static_block](Block const &b) { return &b == sb; })) {
     _static_block->discard();
     _active.prepend(_static_block);
     _active_reserved += _static_block->remaining();
-- 
2.43.0


From aa7fed4397c92683abadc18f24dbcdadefc548c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 04/90] fix: MemArena constructed a block at null when memory
 was exhausted

---
 code/src/MemArena.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 1d7bb04..930f5d3 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -96,9 +96,13 @@ MemArena::make_block(size_t n) {
   // Allocate space for the Block instance and the request memory and construct a Block at the front.
   // In theory this could use ::operator new(n) but this causes a size mismatch during ::operator delete.
   // Easier to use malloc and override @c delete.
-  auto free_space   = n - sizeof(Block);
+  auto free_space = n - sizeof(Block);
+  void *mem       = ::malloc(n);
+  if (mem == nullptr) {
+    throw std::bad_alloc();
+  }
   _active_reserved += free_space;
-  return new (::malloc(n)) Block(free_space);
+  return new (mem) Block(free_space);
 }
 
 MemSpan<void>
-- 
2.43.0


From 72c28695ae2f615cb32be265349a526ce411668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 05/90] fix: MemArena::require ignored alignment past that of
 malloc for a new block

---
 code/src/MemArena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 930f5d3..9307e58 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -170,7 +170,8 @@ MemArena::require(size_t n, size_t align) {
     }
   }
   if (spot == _active.end()) {   // no block has enough free space
-    block = this->make_block(n); // assuming a new block is sufficiently aligned.
+    // A new block is aligned only as well as @c malloc, allow for padding past that.
+    block = this->make_block(align > alignof(std::max_align_t) ? n + align - 1 : n);
     _active.prepend(block);
   } else if (spot != _active.begin()) {
     // big enough space, move to the head of the list.
-- 
2.43.0


From 8b594bbfe589eececfa3747b1ee99c36eaf21911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 06/90] fix: MemArena remnants were not sized and aligned as
 documented

---
 code/include/swoc/MemArena.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index dca3f8a..2683573 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -697,7 +697,7 @@ template <typename T>
 MemSpan<T>
 MemArena::remnant_span(size_t n) {
   auto span = this->require(sizeof(T) * n, alignof(T)).remnant();
-  return span.remove_prefix(Block::align_padding(span.data(), alignof(T))).rebind<T>();
+  return span.remove_prefix(Block::align_padding(span.data(), alignof(T))).prefix(sizeof(T) * n).template rebind<T>();
 }
 
 template <>
@@ -708,7 +708,8 @@ MemArena::remnant_span<void>(size_t n) {
 
 inline MemSpan<void>
 MemArena::remnant(size_t n, size_t align) {
-  return this->require(n, align).remnant().prefix(n);
+  auto span = this->require(n, align).remnant();
+  return span.remove_prefix(Block::align_padding(span.data(), align)).prefix(n);
 }
 
 inline size_t
-- 
2.43.0


From 6226b882bb9177f31b257e5c6f05f229aaf27074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 07/90] fix: FixedArena::make lost the recycled memory if the
 constructor threw

---
 code/include/swoc/MemArena.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 2683573..760fb65 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -768,7 +768,14 @@ FixedArena<T>::make(Args... args) {
   if (_list._next) {
     void *t     = _list._next;
     _list._next = _list._next->_next;
-    return new (t) T(std::forward<Args>(args)...);
+    try {
+      return new (t) T(std::forward<Args>(args)...);
+    } catch (...) { // No instance was created, the memory is still available.
+      auto item   = static_cast<Item *>(t);
+      item->_next = _list._next;
+      _list._next = item;
+      throw;
+    }
   }
   return _arena.template make<T>(std::forward<Args>(args)...);
 }
-- 
2.43.0


From 64f2071ef2c6198406162e53f71189db0ed51af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 08/90] fix: file status returned uninitialized data if the
 query failed

---
 code/include/swoc/swoc_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/swoc_file.h b/code/include/swoc/swoc_file.h
index 7e94239..03e0adc 100644
--- a/code/include/swoc/swoc_file.h
+++ b/code/include/swoc/swoc_file.h
@@ -210,7 +210,7 @@ public:
   mode_t mode() const;
 
 protected:
-  struct ::stat _stat; ///< File information.
+  struct ::stat _stat {};           ///< File information.
   file_type _type = file_type::none;
 
   void init();
-- 
2.43.0


From 23fced3fa6bc468a6559c8621709d5b0db3a9904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 09/90] fix: file::canonical leaked memory and left the
 previous error on success

---
 code/src/swoc_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 374f4fc..8f21672 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -256,12 +256,13 @@ canonical(const path &p, std::error_code &ec) {
 
   char buf[PATH_MAX + 1];
 
+  ec.clear();
   if (auto rp = ::realpath(p.c_str(), buf); rp) {
     return path{rp};
   }
 
-  if (auto rp = ::realpath(p.c_str(), nullptr); rp) {
-    return path{rp};
+  if (swoc::unique_malloc<char> rp{::realpath(p.c_str(), nullptr)}; rp) {
+    return path{rp.get()};
   }
 
   ec = std::error_code(errno, std::system_category());
-- 
2.43.0


From 7424618499b56e8c5c560aeeadaa0a4991ab6ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 10/90] fix: file::absolute leaked memory if the path could not
 be copied

---
 code/src/swoc_file.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 8f21672..9a86821 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -130,11 +130,9 @@ absolute(path const &src, std::error_code &ec) {
   auto s = realpath(src.c_str(), buff);
   if (s == nullptr) {
     if (errno == ENAMETOOLONG) {
-      s = realpath(src.c_str(), nullptr);
-      if (s != nullptr) {
-        path zret{s};
-        free(s);
-        return zret;
+      swoc::unique_malloc<char> raw{realpath(src.c_str(), nullptr)};
+      if (raw) {
+        return path{raw.get()};
       }
     }
     ec = std::error_code(errno, std::system_category());
-- 
2.43.0


From 4849cc6c8195672f008960da791610cafda6005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 11/90] fix: file::current_path used a null string if the
 directory name was not available

---
 code/src/swoc_file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 9a86821..7146347 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -239,7 +239,9 @@ current_path() {
 #if !__FreeBSD__ && !__APPLE__ // Freakin' Apple and FreeBSD.
   } else if (ERANGE == errno) {
     swoc::unique_malloc<char> raw{::get_current_dir_name()};
-    return path{raw.get()};
+    if (raw) {
+      return path{raw.get()};
+    }
 #endif
   }
   return {};
-- 
2.43.0


From 1cc0e8f042aa6cfa8eb98e7217cceb4f835b912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 12/90] fix: file::load reported success or a spurious error
 for short and interrupted reads

---
 code/src/swoc_file.cc | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 7146347..1d81923 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -462,12 +462,28 @@ load(const path &p, std::error_code &ec) {
     if (0 != ::fstat(fd, &info)) {
       ec = std::error_code(errno, std::system_category());
     } else {
-      auto n = info.st_size;
-      zret.resize(n);
-      auto read_len = ::read(fd, zret.data(), n);
-      if (read_len < n) {
-        ec = std::error_code(errno, std::system_category());
+      // The reported size is only a hint and reads can be short, therefore read until the end of the file.
+      size_t n = 0;
+      zret.resize(info.st_size);
+      while (true) {
+        char extra[4096]; // Check for data past the expected size.
+        bool full = n == zret.size();
+        auto len  = full ? ::read(fd, extra, sizeof(extra)) : ::read(fd, zret.data() + n, zret.size() - n);
+        if (len < 0) {
+          if (EINTR == errno) {
+            continue;
+          }
+          ec = std::error_code(errno, std::system_category());
+          break;
+        } else if (len == 0) {
+          break;
+        }
+        if (full) {
+          zret.append(extra, len);
+        }
+        n += len;
       }
+      zret.resize(n);
     }
   }
   return zret;
-- 
2.43.0


From 1f822bcc94ca33b3d44b98c213120690ae3ae265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 13/90] fix: file::copy reported success for incomplete copies
 and kept excess destination content

---
 code/src/swoc_file.cc | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 1d81923..f60d8ef 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -343,10 +343,13 @@ copy(const path &from, const path &to, std::error_code &ec) {
     ec = std::error_code(errno, std::system_category());
     return false;
   }
-  auto src_fs = file::status(from, local_ec);
+  auto src_fs = file::status(from, ec);
+  if (ec) {
+    return false;
+  }
 
   path final_to;
-  if (auto fs = file::status(to, local_ec); !(local_ec && ENOENT == local_ec.value()) && is_dir(fs)) {
+  if (auto fs = file::status(to, local_ec); !local_ec && is_dir(fs)) {
     final_to = to / from.filename();
   } else {
     final_to = to;
@@ -358,15 +361,35 @@ copy(const path &from, const path &to, std::error_code &ec) {
     return false;
   }
 
+  off_t total = 0;
   while (true) {
-    if (auto n = read(src_fd, span.data(), span.size()); n > 0) {
-      if (::write(dst_fd, span.data(), n) < n) {
-        ec = std::error_code(errno, std::system_category());
-        break;
+    auto n = ::read(src_fd, span.data(), span.size());
+    if (n < 0) {
+      if (EINTR == errno) {
+        continue;
       }
-    } else {
+      ec = std::error_code(errno, std::system_category());
+      return false;
+    } else if (n == 0) {
       break;
     }
+    for (decltype(n) done = 0; done < n;) {
+      if (auto w = ::write(dst_fd, span.data() + done, n - done); w >= 0) {
+        done += w;
+      } else if (EINTR != errno) {
+        ec = std::error_code(errno, std::system_category());
+        return false;
+      }
+    }
+    total += n;
+  }
+
+  // If the destination had more content, discard what was not overwritten.
+  struct ::stat dst_stat {};
+  if (0 != ::fstat(dst_fd, &dst_stat) ||
+      (S_ISREG(dst_stat.st_mode) && dst_stat.st_size > total && 0 != ::ftruncate(dst_fd, total))) {
+    ec = std::error_code(errno, std::system_category());
+    return false;
   }
 
   return true;
-- 
2.43.0


From ff25db6b9e4abf2887959d8a7872888b6e41c2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 14/90] fix: file::remove_all followed links out of the tree
 and miscounted, lost errors and directory streams

---
 code/src/swoc_file.cc | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index f60d8ef..52f7d17 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -6,6 +6,7 @@
     Minimalist version of std::filesystem.
  */
 
+#include <memory>
 #include <variant>
 
 #include <fcntl.h>
@@ -398,19 +399,20 @@ copy(const path &from, const path &to, std::error_code &ec) {
 uintmax_t
 remove_all(const path &p, std::error_code &ec) {
   // coverity TOCTOU - issue is doing stat before doing operation. Stupid complaint, ignore.
-  DIR *dir             = nullptr;
+  std::unique_ptr<DIR, void (*)(DIR *)> dir{nullptr, [](DIR *d) { ::closedir(d); }};
   struct dirent *entry = nullptr;
   std::error_code err;
   uintmax_t zret = 0;
 
   struct ::stat s {};
+  ec.clear();
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
     return zret;
-  } else if (::stat(p.c_str(), &s) < 0) {
+  } else if (::lstat(p.c_str(), &s) < 0) { // do not follow links out of the tree.
     ec = std::error_code(errno, std::system_category());
     return zret;
-  } else if (S_ISREG(s.st_mode)) { // regular file, try to remove it!
+  } else if (!S_ISDIR(s.st_mode)) { // anything not a directory, try to remove it!
     // coverity[toctou : SUPPRESS]
     if (unlink(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
@@ -418,35 +420,38 @@ remove_all(const path &p, std::error_code &ec) {
       ++zret;
     }
     return zret;
-  } else if (!S_ISDIR(s.st_mode)) { // not a directory
-    ec = std::error_code(ENOTDIR, std::system_category());
-    return zret;
   }
   // Invariant - @a p is a directory.
 
   // recursively remove nested files and directories
   // coverity[toctou : SUPPRESS]
-  if (nullptr == (dir = opendir(p.c_str()))) {
+  if (dir.reset(opendir(p.c_str())); !dir) {
     ec = std::error_code(errno, std::system_category());
     return zret;
   }
 
   auto child = p; // Minimize string allocations / re-allocations.
-  while (nullptr != (entry = readdir(dir))) {
+  while (errno = 0, nullptr != (entry = readdir(dir.get()))) {
     if (!strcmp(entry->d_name, ".") || !strcmp(entry->d_name, "..")) {
       continue;
     }
     child  = p;
     child /= entry->d_name;
-    zret  += remove_all(child, ec);
+    zret  += remove_all(child, err);
+    if (err && !ec) {
+      ec = err;
+    }
+  }
+  if (errno != 0 && !ec) { // could not get all of the entries.
+    ec = std::error_code(errno, std::system_category());
   }
 
-  if (0 != rmdir(p.c_str())) {
+  if (0 == rmdir(p.c_str())) {
+    ++zret;
+  } else if (!ec) {
     ec = std::error_code(errno, std::system_category());
   }
-  ++zret;
 
-  closedir(dir);
   return zret;
 }
 
-- 
2.43.0


From ff9df10547ba220ab2a5dc004abf1e1ed8d63bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 15/90] fix: file::remove reported stale errors and could not
 remove links

---
 code/src/swoc_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 52f7d17..3a7e839 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -459,11 +459,12 @@ bool
 remove(path const &p, std::error_code &ec) {
   // coverity TOCTOU - issue is doing stat before doing operation. Stupid complaint, ignore.
   struct ::stat fs {};
+  ec.clear();
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
-  } else if (::stat(p.c_str(), &fs) < 0) {
+  } else if (::lstat(p.c_str(), &fs) < 0) {
     ec = std::error_code(errno, std::system_category());
-  } else if (S_ISREG(fs.st_mode)) { // regular file, try to remove it!
+  } else if (S_ISREG(fs.st_mode) || S_ISLNK(fs.st_mode)) { // regular file or link, try to remove it!
     // coverity[toctou : SUPPRESS]
     if (unlink(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
-- 
2.43.0


From e312c6f5ed7023c23b447ed517cbcee84d2d5b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 16/90] fix: DiscreteSpace::erase did nothing if the range
 started before the first node

---
 code/include/swoc/DiscreteRange.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index cfd8dba..6e3ac31 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1275,6 +1275,9 @@ template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
   Node *n = this->lower_node(range.min()); // current node.
+  if (nullptr == n) {
+    n = this->head(); // @a range starts before every node.
+  }
   while (n) {
     auto nn = next(n);            // cache in case @a n disappears.
     if (n->min() > range.max()) { // cleared the target range, done.
-- 
2.43.0


From fae3de58354b39d41cb2de47a17d27b41cc625f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 17/90] fix: DiscreteSpace::mark lost values or leaked a node
 if a payload or node could not be created

---
 code/include/swoc/DiscreteRange.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 6e3ac31..47a1295 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1333,7 +1333,8 @@ DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAY
       } else if (n->max() <= range.max()) {
         // Span will be subsumed by request span so it's available for use.
         x = n;
-        x->assign_max(range.max()).assign(payload);
+        // Payload first, nothing has changed if that fails.
+        x->assign(payload).assign_max(range.max());
       } else if (n->payload() == payload) {
         return *this; // request is covered by existing span with the same data
       } else {
@@ -1355,13 +1356,16 @@ DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAY
       // Can only have left skew overlap, otherwise disjoint.
       // Clip if overlap.
       if (n->max() >= range.min()) {
+        x = _fa.make(range, payload); // must be first in case of failure.
         n->assign_max(min_minus_1);
+        this->insert_after(n, x);
+        n = x; // this gets bumped again, which is correct.
       } else if (nullptr != (y = next(n)) && y->max() <= range.max()) {
         // because @a n was selected as the minimum it must be the case that
         // y->min >= min (or y would have been selected). Therefore in this
         // case the request covers the next node therefore it can be reused.
         x = y;
-        x->assign(range).assign(payload).ripple_structure_fixup();
+        x->assign(payload).assign(range).ripple_structure_fixup();
         n = x; // this gets bumped again, which is correct.
       }
     } else {
@@ -1370,7 +1374,12 @@ DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAY
       // max_plus_1 is valid because n->max() > max.
       Node *r;
       x = _fa.make(range, payload);
-      r = _fa.make(range_type{max_plus_1, n->max()}, n->payload());
+      try {
+        r = _fa.make(range_type{max_plus_1, n->max()}, n->payload());
+      } catch (...) {
+        _fa.destroy(x);
+        throw;
+      }
       n->assign_max(min_minus_1);
       this->insert_after(n, x);
       this->insert_after(x, r);
-- 
2.43.0


From cf2f7fae879d31099d78e87c7db4e81b82651c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 18/90] fix: DiscreteSpace::blend leaked a payload or lost
 values if a node could not be created

---
 code/include/swoc/DiscreteRange.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 47a1295..164b83b 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1604,13 +1604,17 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
           return *this; // incoming range is completely covered by @a n in the same color, done.
         }
         if (!same_color_p) {
-          auto fn    = fill.release();
-          auto n_max = n->max();                         // save this so @a n can be clipped.
+          auto n_max   = n->max(); // save this so @a n can be clipped.
+          Node *excess = nullptr;  // Part of @a n past the target range, create before changing anything.
+          if (n_max > remaining.max()) {
+            excess = _fa.make(++metric_type(remaining.max()), n_max, n->payload());
+          }
+          auto fn = fill.release();
           n->assign_max(--metric_type(remaining.min())); // clip @a n down.
           this->insert_after(n, fn);                     // add intersection node in different color.
-          if (n_max > remaining.max()) {                 // right extent too - split and done.
+          if (excess) {                                  // right extent too - split and done.
             fn->assign_max(remaining.max());             // fill node stops at end of target range.
-            this->insert_after(fn, _fa.make(++metric_type(remaining.max()), n_max, n->payload()));
+            this->insert_after(fn, excess);
             return *this;
           }
           n = fn; // skip to use new node as current node.
@@ -1619,9 +1623,9 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
       } else {                                         // clear, don't fill.
         auto n_r = n->range();                         // cache to avoid ordering requirements.
         if (n_r.max() > remaining.max()) {             // overhang on the right, must split.
-          fill.release();                              // not going to use it,
+          auto y = _fa.make(n_r.min(), --metric_type(remaining.min()), n->payload());
           n->assign_min(++metric_type(remaining.max()));
-          this->insert_before(n, _fa.make(n_r.min(), --metric_type(remaining.min()), n->payload()));
+          this->insert_before(n, y);
           return *this;
         }
         n->assign_max(--metric_type(remaining.min())); // clip @a n down.
-- 
2.43.0


From c2151359fc600402107ca3f48d258e305b26e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 19/90] fix: DiscreteSpace::blend painted outside the range,
 blended twice, and wrapped past the maximum

---
 code/include/swoc/DiscreteRange.h | 65 +++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 164b83b..7b092f0 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1003,6 +1003,12 @@ protected:
    * @param node Node to remove.
    */
   void remove(Node *node);
+
+  /** Merge the successor of @a node in to @a node if it is adjacent and has the same payload.
+   *
+   * @param node Node to extend.
+   */
+  void coalesce_right(Node *node);
 };
 
 // ---
@@ -1239,6 +1245,16 @@ DiscreteSpace<METRIC, PAYLOAD>::remove(DiscreteSpace::Node *node) {
   _fa.destroy(node);
 }
 
+template <typename METRIC, typename PAYLOAD>
+void
+DiscreteSpace<METRIC, PAYLOAD>::coalesce_right(DiscreteSpace::Node *node) {
+  if (Node *n = next(node); n && node->range().is_left_adjacent_to(n->range()) && n->payload() == node->payload()) {
+    auto n_max = n->max();
+    this->remove(n);
+    node->assign_max(n_max);
+  }
+}
+
 template <typename METRIC, typename PAYLOAD>
 void
 DiscreteSpace<METRIC, PAYLOAD>::insert_before(DiscreteSpace::Node *spot, DiscreteSpace::Node *node) {
@@ -1617,6 +1633,10 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
             this->insert_after(fn, excess);
             return *this;
           }
+          if (n_max == remaining.max()) { // nothing left to do, don't go past the maximum value.
+            this->coalesce_right(fn);
+            return *this;
+          }
           n = fn; // skip to use new node as current node.
         }
         remaining.assign_min(++metric_type(n->max())); // going to fill up n->max(), clip target.
@@ -1659,7 +1679,7 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     if (!right_overlap_p) {
       // @a pred has the same color as would be used for unmapped values
       // and is adjacent to @a remaining.
-      bool pred_plain_colored_p = pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
+      bool pred_plain_colored_p = plain_color_p && pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
 
       if (right_adj_p && n_plain_colored_p) { // can pull @a n left to cover
         n->assign_min(remaining.min());
@@ -1679,23 +1699,14 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     // Invariant: @n has right overlap with @a remaining
 
     // If there's a gap on the left, fill from @a r.min to @a n.min - 1
+    // Do not extend @a n for this even if it has the same color, because @a n is yet to be blended.
     if (plain_color_p && remaining.min() < n->min()) {
-      if (n->payload() == plain_color) {
-        if (pred && pred->payload() == n->payload()) {
-          auto pred_min{pred->min()};
-          this->remove(pred);
-          n->assign_min(pred_min);
-        } else {
-          n->assign_min(remaining.min());
-        }
+      auto n_min_minus_1{n->min()};
+      --n_min_minus_1;
+      if (pred && pred->payload() == plain_color && pred->range().is_left_adjacent_to(remaining)) {
+        pred->assign_max(n_min_minus_1);
       } else {
-        auto n_min_minus_1{n->min()};
-        --n_min_minus_1;
-        if (pred && pred->payload() == plain_color) {
-          pred->assign_max(n_min_minus_1);
-        } else {
-          this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
-        }
+        this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
       }
     }
 
@@ -1706,7 +1717,6 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     unique_node fill{_fa.make(n->min(), max, n->payload()), node_cleaner};
     bool fill_p = blender(fill->payload(), color); // fill or clear?
     auto next_n = next(n);                         // cache this in case @a n is removed.
-    remaining.assign_min(++METRIC{fill->max()});   // Update what is left to fill.
 
     // Clean up the range for @a n
     if (fill_p) {
@@ -1716,7 +1726,11 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
 
       if (right_ext_p) {
         if (n->payload() == fill->payload()) {
-          n->assign_min(fill->min());
+          if (pred_adj_p) { // @a pred and @a n are the same color and touch, collapse.
+            auto pred_min = pred->min();
+            this->remove(pred);
+            n->assign_min(pred_min);
+          }
         } else {
           n->assign_min(range_max_plus_1);
           if (pred_adj_p) {
@@ -1730,11 +1744,15 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
         // Collapse in to previous range if it's adjacent and the color matches.
         if (pred_adj_p) {
           this->remove(n);
-          pred->assign_max(fill->max());
+          pred->assign_max(max);
         } else {
-          this->insert_before(n, fill.release());
+          pred = fill.release();
+          this->insert_before(n, pred);
           this->remove(n);
         }
+        if (max == range.max()) { // done, collapse the next range if it's adjacent and the color matches.
+          this->coalesce_right(pred);
+        }
       }
     } else if (right_ext_p) {
       n->assign_min(range_max_plus_1);
@@ -1743,7 +1761,12 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
       this->remove(n);
     }
 
-    // Everything up to @a n.max is correct, time to process next node.
+    // Everything up to @a n.max is correct.
+    if (max == range.max()) { // that was all, don't go past the maximum value.
+      return *this;
+    }
+    // Update what is left to fill and process next node.
+    remaining.assign_min(++METRIC{max});
     n = next_n;
   }
 
-- 
2.43.0


From 1056e4a0270e9c137be98b2059bf73c0aeadc8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 20/90] fix: IntrusiveDList::erase of a range did not compile
 and lost track of the count

---
 code/include/swoc/IntrusiveDList.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/IntrusiveDList.h b/code/include/swoc/IntrusiveDList.h
index 2b5b0a2..9d70656 100644
--- a/code/include/swoc/IntrusiveDList.h
+++ b/code/include/swoc/IntrusiveDList.h
@@ -924,6 +924,9 @@ IntrusiveDList<L>::erase(const iterator &loc) -> iterator {
 template <typename L>
 auto
 IntrusiveDList<L>::erase(const iterator &first, const iterator &limit) -> iterator {
+  if (first == limit) {
+    return limit; // nothing to remove.
+  }
   value_type *spot = first;
   value_type *prev{L::prev_ptr(spot)};
   if (prev) {
@@ -943,9 +946,10 @@ IntrusiveDList<L>::erase(const iterator &first, const iterator &limit) -> iterat
     value_type *target{spot};
     spot                = L::next_ptr(spot);
     L::prev_ptr(target) = L::next_ptr(target) = nullptr;
+    --_count;
   };
 
-  return {limit._v, this};
+  return limit;
 }
 
 template <typename L>
-- 
2.43.0


From 12cce366fb23dc2b828eb6d9b98020be53ee129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 21/90] fix: IntrusiveHashMap lost its elements if the table
 could not be expanded

---
 code/include/swoc/IntrusiveHashMap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 4bbe3b6..fb43323 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -639,9 +639,12 @@ IntrusiveHashMap<H>::expand() {
   value_type *old                      = _list.head();      // save for repopulating.
   auto old_size                        = _table.size();
 
+  // Get the new table before changing anything, in case that fails.
+  Table fresh(*std::lower_bound(PRIME.begin(), PRIME.end(), old_size + 1));
+
   // Reset to empty state.
   this->clear();
-  _table.resize(*std::lower_bound(PRIME.begin(), PRIME.end(), old_size + 1));
+  _table.swap(fresh);
 
   _expansion_policy = MANUAL; // disable any auto expand while we're expanding.
   while (old) {
-- 
2.43.0


From a7809067274bd9d8cf3c8b2f5683213181512b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 22/90] fix: IntrusiveHashMap erase of a range did not compile,
 erase did not maintain bucket counts

---
 code/include/swoc/IntrusiveHashMap.h | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index fb43323..8c3172c 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -547,14 +547,14 @@ IntrusiveHashMap<H>::erase(iterator const &loc) -> iterator {
   Bucket *b         = this->bucket_for(H::key_of(v));
   value_type *nv    = H::next_ptr(v);
   value_type *limit = b->limit();
-  if (b->_v == v) {    // removed first element in bucket, update bucket
-    if (limit == nv) { // that was also the only element, deactivate bucket
-      _active_buckets.erase(b);
-      b->clear();
-    } else {
+  if (b->_v == v && limit == nv) { // that was the only element, deactivate bucket
+    _active_buckets.erase(b);
+    b->clear();
+  } else {
+    if (b->_v == v) { // removed first element in bucket, update bucket
       b->_v = nv;
-      --b->_count;
     }
+    --b->_count;
   }
   _list.erase(loc);
   return zret;
@@ -575,21 +575,10 @@ template <typename H>
 auto
 IntrusiveHashMap<H>::erase(iterator const &start, iterator const &limit) -> iterator {
   auto spot{start};
-  Bucket *bucket{this->bucket_for(spot)};
   while (spot != limit) {
-    auto target         = bucket;
-    bucket              = bucket->_link._next; // bump now to avoid forward iteration problems in case of bucket removal.
-    value_type *v_limit = bucket ? bucket->_v : nullptr;
-    while (spot != v_limit && spot != limit) {
-      --(target->_count);
-      ++spot;
-    }
-    if (target->_count == 0) {
-      _active_buckets.erase(target);
-    }
+    spot = this->erase(spot); // keeps the buckets up to date.
   }
-  _list.erase(start, limit);
-  return _list.iterator_for(limit); // convert from const_iterator back to iterator
+  return spot;
 };
 
 template <typename H>
-- 
2.43.0


From 2284ec16f217d115f5f920b934efd15aa6ed1c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 23/90] fix: IntrusiveHashMap divided by zero if it had no
 buckets

---
 code/include/swoc/IntrusiveHashMap.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 8c3172c..ea8dcc1 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -294,6 +294,7 @@ protected:
   /// List of non-empty buckets.
   IntrusiveDList<typename Bucket::Linkage> _active_buckets;
 
+  /// @return The bucket for @a key, or @c nullptr if there are no buckets.
   Bucket *bucket_for(key_type key);
 
   ExpansionPolicy _expansion_policy{DEFAULT_EXPANSION_POLICY}; ///< When to exand the table.
@@ -390,7 +391,7 @@ template <typename H> IntrusiveHashMap<H>::IntrusiveHashMap(size_t n) {
 template <typename H>
 auto
 IntrusiveHashMap<H>::bucket_for(key_type key) -> Bucket * {
-  return &_table[H::hash_of(key) % _table.size()];
+  return _table.empty() ? nullptr : &_table[H::hash_of(key) % _table.size()];
 }
 
 template <typename H>
@@ -432,7 +433,10 @@ IntrusiveHashMap<H>::clear() -> self_type & {
 template <typename H>
 auto
 IntrusiveHashMap<H>::find(key_type key) -> iterator {
-  Bucket *b         = this->bucket_for(key);
+  Bucket *b = this->bucket_for(key);
+  if (!b) {
+    return this->end();
+  }
   value_type *v     = b->_v;
   value_type *limit = b->limit();
   while (v != limit && !H::equal(key, H::key_of(v))) {
@@ -483,7 +487,7 @@ template <typename H>
 auto
 IntrusiveHashMap<H>::find(value_type *v) -> iterator {
   Bucket *b = this->bucket_for(H::key_of(v));
-  return b->contains(v) ? _list.iterator_for(v) : this->end();
+  return b && b->contains(v) ? _list.iterator_for(v) : this->end();
 }
 
 template <typename H>
@@ -495,6 +499,9 @@ IntrusiveHashMap<H>::find(value_type const *v) const -> const_iterator {
 template <typename H>
 void
 IntrusiveHashMap<H>::insert(value_type *v) {
+  if (_table.empty()) { // constructed without buckets, or moved from.
+    this->expand();
+  }
   auto key         = H::key_of(v);
   Bucket *bucket   = this->bucket_for(key);
   value_type *spot = bucket->_v;
-- 
2.43.0


From 9321f229e6f44b5ceced31e6122a116ef8d13e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 24/90] fix: IntrusiveHashMap::const_range conversion from
 range was not defined

---
 code/include/swoc/IntrusiveHashMap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index ea8dcc1..275b409 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -368,6 +368,9 @@ IntrusiveHashMap<H>::range::end() const -> iterator const & {
   return super_type::second;
 }
 
+template <typename H>
+IntrusiveHashMap<H>::const_range::const_range(range const &r) : super_type(r.first, r.second) {}
+
 template <typename H>
 auto
 IntrusiveHashMap<H>::const_range::begin() const -> const_iterator const & {
-- 
2.43.0


From 9bb550acc549a67744e076b4a21725b4493f665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 25/90] fix: Lexicon::define left a partial definition if it
 failed

---
 code/include/swoc/Lexicon.h | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Lexicon.h b/code/include/swoc/Lexicon.h
index c574bc7..2f494be 100644
--- a/code/include/swoc/Lexicon.h
+++ b/code/include/swoc/Lexicon.h
@@ -652,16 +652,38 @@ Lexicon<E>::define(E value, const std::initializer_list<TextView> &names) -> sel
   if (names.size() < 1) {
     throw std::invalid_argument("A defined value must have at least a primary name");
   }
-  for (auto const &name : names) {
+  auto check_unique = [this](TextView const &name) {
     if (_by_name.find(name) != _by_name.end()) {
       throw std::invalid_argument(detail::what("Duplicate name '{}' in Lexicon", name));
     }
-    auto i = _arena.make<Item>(value, this->localize(name));
-    _by_name.insert(i);
-    // Only put primary names in the value table.
-    if (_by_value.find(value) == _by_value.end()) {
-      _by_value.insert(i);
+  };
+
+  for (auto const &name : names) {
+    check_unique(name);
+  }
+  // Invariant - none of the names are in the Lexicon.
+  bool defined_p = _by_value.find(value) != _by_value.end();
+
+  try {
+    for (auto const &name : names) {
+      check_unique(name); // could be a duplicate in @a names.
+      auto i = _arena.make<Item>(value, this->localize(name));
+      _by_name.insert(i);
+      // Only put primary names in the value table.
+      if (_by_value.find(value) == _by_value.end()) {
+        _by_value.insert(i);
+      }
+    }
+  } catch (...) { // All or nothing - take out what has been put in.
+    if (auto spot = _by_value.find(value); !defined_p && spot != _by_value.end()) {
+      _by_value.erase(spot);
+    }
+    for (auto const &name : names) {
+      if (auto spot = _by_name.find(name); spot != _by_name.end()) {
+        _by_name.erase(spot);
+      }
     }
+    throw;
   }
   return *this;
 }
-- 
2.43.0


From 6f79955ef166fd90eb46086e59913e2726f67516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 26/90] fix: Lexicon did not keep a copy of the default name

---
 code/include/swoc/Lexicon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Lexicon.h b/code/include/swoc/Lexicon.h
index 2f494be..09abfed 100644
--- a/code/include/swoc/Lexicon.h
+++ b/code/include/swoc/Lexicon.h
@@ -721,7 +721,7 @@ Lexicon<E>::set_default(Default const &handler) -> self_type & {
     _value_default = std::get<3>(handler);
     break;
   case 2:
-    _name_default = std::get<2>(handler);
+    _name_default = this->localize(std::get<2>(handler));
     break;
   case 4:
     _name_default = std::get<4>(handler);
-- 
2.43.0


From 4918a1fea1490e4d57added9cf27f071587738b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 27/90] fix: Lexicon iterators could not be decremented

---
 code/include/swoc/Lexicon.h | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/code/include/swoc/Lexicon.h b/code/include/swoc/Lexicon.h
index 09abfed..c1305e5 100644
--- a/code/include/swoc/Lexicon.h
+++ b/code/include/swoc/Lexicon.h
@@ -275,9 +275,10 @@ protected:
     bool operator!=(self_type const &that) const;
 
   protected:
-    explicit base_iterator(Item const *item) : _item(item) {}
+    base_iterator(Lexicon const *lexicon, Item const *item) : _item(item), _lexicon(lexicon) {}
 
-    const Item *_item{nullptr}; ///< Current location in the container.
+    const Item *_item{nullptr};       ///< Current location in the container.
+    Lexicon const *_lexicon{nullptr}; ///< Container, needed to decrement from the end.
   };
 
 public:
@@ -318,7 +319,7 @@ public:
     self_type operator--(int);
 
   protected:
-    value_iterator(const Item *item) : super_type(item){}; ///< Internal constructor.
+    value_iterator(Lexicon const *lexicon, const Item *item) : super_type(lexicon, item){}; ///< Internal constructor.
 
     friend Lexicon;
   };
@@ -354,7 +355,7 @@ public:
     self_type operator--(int);
 
   protected:
-    name_iterator(const Item *item) : super_type(item){}; ///< Internal constructor.
+    name_iterator(Lexicon const *lexicon, const Item *item) : super_type(lexicon, item){}; ///< Internal constructor.
 
     friend Lexicon;
   };
@@ -374,12 +375,12 @@ public:
   /// Iteration over names - every value/name pair.
   name_iterator
   begin_names() const {
-    return {_by_name.begin()};
+    return {this, _by_name.begin()};
   }
   /// Iteration over names - every value/name pair.
   name_iterator
   end_names() const {
-    return {_by_name.end()};
+    return {this, _by_name.end()};
   }
 
   /// @cond INTERNAL
@@ -739,13 +740,13 @@ Lexicon<E>::count() const {
 template <typename E>
 auto
 Lexicon<E>::begin() const -> const_iterator {
-  return const_iterator{static_cast<const Item *>(_by_value.begin())};
+  return {this, _by_value.begin()};
 }
 
 template <typename E>
 auto
 Lexicon<E>::end() const -> const_iterator {
-  return {};
+  return {this, nullptr};
 }
 
 // Iterators
@@ -792,15 +793,19 @@ Lexicon<E>::value_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_value_link->_prev;
+  if (super_type::_item) {
+    super_type::_item = super_type::_item->_value_link._prev;
+  } else {
+    super_type::_item = --(super_type::_lexicon->_by_value.end());
+  }
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
@@ -822,15 +827,19 @@ Lexicon<E>::name_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_name_link->_prev;
+  if (super_type::_item) {
+    super_type::_item = super_type::_item->_name_link._prev;
+  } else {
+    super_type::_item = --(super_type::_lexicon->_by_name.end());
+  }
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
-- 
2.43.0


From 11c3815730277fbe902857b4659bea6d03131afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 28/90] fix: Vectray used and destroyed elements of the fixed
 storage that did not exist

---
 code/include/swoc/Vectray.h | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index e2e6485..2b8b42f 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -39,10 +39,10 @@ template <typename T, size_t N, class A = std::allocator<T>> class Vectray {
 
 public:                                                              // STL compliance types.
   using value_type      = T;                                         ///< Element type for container.
-  using reference       = std::remove_reference<T> &;                ///< Reference to element.
-  using const_reference = std::remove_reference<T> const &;          ///< Reference to constant element.
-  using pointer         = std::remove_reference<T> *;                ///< Pointer to element.
-  using const_pointer   = std::remove_reference<T> const *;          ///< Pointer to constant element.
+  using reference       = std::remove_reference_t<T> &;              ///< Reference to element.
+  using const_reference = std::remove_reference_t<T> const &;        ///< Reference to constant element.
+  using pointer         = std::remove_reference_t<T> *;              ///< Pointer to element.
+  using const_pointer   = std::remove_reference_t<T> const *;        ///< Pointer to constant element.
   using allocator_type  = A;                                         ///< Dynamic storage allocator.
   using size_type       = typename vector_type::size_type;           ///< Type for element count.
   using difference_type = typename vector_type::difference_type;     ///< Iterator difference.
@@ -52,9 +52,9 @@ public:                                                              // STL comp
 
   /// Internal (fixed) storage.
   struct FixedStore {
-    std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
-    size_t _count = 0;                         ///< Number of valid elements.
-    allocator_type _a;                         ///< Allocator instance - used for construction.
+    alignas(T) std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
+    size_t _count = 0;                                    ///< Number of valid elements.
+    allocator_type _a;                                    ///< Allocator instance - used for construction.
 
     FixedStore() = default; ///< Default construct - empty.
 
@@ -69,6 +69,9 @@ public:                                                              // STL comp
     /// @return A span containing the valid elements.
     MemSpan<T> span();
 
+    /// @return A span containing the valid elements.
+    MemSpan<T const> span() const;
+
     /// @return A pointer to the data.
     T *data();
 
@@ -263,7 +266,13 @@ template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedSto
 template <typename T, size_t N, class A>
 MemSpan<T>
 Vectray<T, N, A>::FixedStore::span() {
-  return MemSpan<std::byte>(_raw).template rebind<T>();
+  return {this->data(), _count};
+}
+
+template <typename T, size_t N, class A>
+MemSpan<T const>
+Vectray<T, N, A>::FixedStore::span() const {
+  return {this->data(), _count};
 }
 
 template <typename T, size_t N, class A>
@@ -275,7 +284,7 @@ Vectray<T, N, A>::FixedStore::data() {
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::FixedStore::data() const {
-  return reinterpret_cast<T *>(_raw.data());
+  return reinterpret_cast<T const *>(_raw.data());
 }
 
 template <typename T, size_t N, typename A>
@@ -341,7 +350,7 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::pop_back() -> self_type & {
-  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.span()[--fs._count]); },
+  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.data() + --fs._count); },
                               [&](DynamicStore &ds) -> void { ds.pop_back(); }},
              _store);
   return *this;
-- 
2.43.0


From 85485bfd5f82aafe3108501b82202d65787455e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 29/90] fix: Vectray constant access and data did not compile

---
 code/include/swoc/Vectray.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 2b8b42f..db72501 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -296,7 +296,7 @@ Vectray<T, N, A>::operator[](size_type idx) {
 template <typename T, size_t N, typename A>
 T const &
 Vectray<T, N, A>::operator[](size_type idx) const {
-  return this->items[idx];
+  return this->items()[idx];
 }
 
 template <typename T, size_t N, typename A>
@@ -413,7 +413,7 @@ Vectray<T, N, A>::transfer(size_type rN) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::items() const -> const_span {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.span(); },
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return fs.span(); },
                                      [](DynamicStore const &ds) { return const_span(ds.data(), ds.size()); }},
                     _store);
 }
@@ -421,15 +421,14 @@ Vectray<T, N, A>::items() const -> const_span {
 template <typename T, size_t N, class A>
 T *
 Vectray<T, N, A>::data() {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
-                    _store);
+  return std::visit(swoc::meta::vary{[](FixedStore &fs) { return fs.data(); }, [](DynamicStore &ds) { return ds.data(); }}, _store);
 }
 
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::data() const {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
-                    _store);
+  return std::visit(
+    swoc::meta::vary{[](FixedStore const &fs) { return fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }}, _store);
 }
 
 template <typename T, size_t N, class A>
-- 
2.43.0


From 9b0f13f41035723165e88ee71af7abf2652d3342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 30/90] fix: Vectray lost or corrupted elements if it could not
 grow, or if an element was appended to itself

---
 code/include/swoc/Vectray.h | 38 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index db72501..eaf8c68 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -302,33 +302,13 @@ Vectray<T, N, A>::operator[](size_type idx) const {
 template <typename T, size_t N, typename A>
 auto
 Vectray<T, N, A>::push_back(const T &t) -> self_type & {
-  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void {
-                                if (fs._count < N) {
-                                  new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(t); // A::traits ?
-                                } else {
-                                  this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(t);
-                                }
-                              },
-                              [&](DynamicStore &ds) -> void { ds.push_back(t); }},
-             _store);
-  return *this;
+  return this->emplace_back(t);
 }
 
 template <typename T, size_t N, typename A>
 auto
 Vectray<T, N, A>::push_back(T &&t) -> self_type & {
-  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void {
-                                if (fs._count < N) {
-                                  new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::move(t)); // A::traits ?
-                                } else {
-                                  this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(std::move(t));
-                                }
-                              },
-                              [&](DynamicStore &ds) -> void { ds.push_back(std::move(t)); }},
-             _store);
-  return *this;
+  return this->emplace_back(std::move(t));
 }
 
 template <typename T, size_t N, class A>
@@ -338,12 +318,16 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
   if (_store.index() == FIXED) {
     auto &fs{std::get<FIXED>(_store)};
     if (fs._count < N) {
-      new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::forward<Args>(args)...); // A::traits ?
-      return *this;
+      new (fs.data() + fs._count) T(std::forward<Args>(args)...); // A::traits ?
+      ++fs._count;                                                // only if the constructor didn't throw.
+    } else {
+      T tmp(std::forward<Args>(args)...); // The arguments could be in the fixed storage.
+      this->transfer();                   // transfer to dynamic and add item there.
+      std::get<DYNAMIC>(_store).emplace_back(std::move_if_noexcept(tmp));
     }
-    this->transfer(); // transfer to dynamic and fall through to add item.
+  } else {
+    std::get<DYNAMIC>(_store).emplace_back(std::forward<Args>(args)...);
   }
-  std::get<DYNAMIC>(_store).emplace_back(std::forward<Args>(args)...);
   return *this;
 }
 
@@ -404,7 +388,7 @@ Vectray<T, N, A>::transfer(size_type rN) {
   tmp.reserve(rN);
 
   for (auto &&item : this->items()) {
-    tmp.emplace_back(std::move(item)); // move if supported, copy if not.
+    tmp.emplace_back(std::move_if_noexcept(item)); // move if that can't lose elements, copy if not.
   }
   // Fixed elements destroyed here, by variant.
   _store = std::move(tmp);
-- 
2.43.0


From 656105f5500c40dfe681ddebdcffa770cf645941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:23 +0000
Subject: [PATCH 31/90] fix: Vectray copies and moves did not copy or move the
 elements correctly

---
 code/include/swoc/Vectray.h | 100 ++++++++++++++++++++++++++++++++----
 1 file changed, 90 insertions(+), 10 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index eaf8c68..8488dd8 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -64,8 +64,17 @@ public:                                                              // STL comp
      */
     explicit FixedStore(allocator_type const &a) : _a(a) {}
 
+    FixedStore(FixedStore const &that);            ///< Copy the elements.
+    FixedStore &operator=(FixedStore const &that); ///< Copy the elements.
+    /// Move the elements, @a that is left empty.
+    FixedStore(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>);
+    /// Move the elements, @a that is left empty.
+    FixedStore &operator=(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>);
+
     ~FixedStore();
 
+    void clear(); ///< Destroy all elements.
+
     /// @return A span containing the valid elements.
     MemSpan<T> span();
 
@@ -103,12 +112,24 @@ public:
    */
   explicit Vectray(size_type n, allocator_type const &alloc = allocator_type{});
 
+  /// Copy constructor.
+  Vectray(self_type const &that) = default;
+
+  /// Move constructor.
+  Vectray(self_type &&that) = default;
+
   /// Move constructor for difference static sized instance.
   template <size_t M> Vectray(Vectray<T, M, A> &&that);
 
   /// Move constructor.
   Vectray(self_type &&that, allocator_type const &a);
 
+  /// Copy assignment.
+  self_type &operator=(self_type const &that) = default;
+
+  /// Move assignment.
+  self_type &operator=(self_type &&that) = default;
+
   /// @return The number of elements in the container.
   size_type size() const;
 
@@ -207,6 +228,8 @@ public:
   void reserve(size_type n);
 
 protected:
+  template <typename, size_t, class> friend class Vectray; // moving between different static sizes.
+
   /// Content storage.
   /// @note This is constructed as fixed but can change to dynamic. It can never change back.
   std::variant<FixedStore, DynamicStore> _store;
@@ -235,31 +258,88 @@ protected:
 
 template <typename T, size_t N, typename A> Vectray<T, N, A>::Vectray() {}
 
-template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size_type n, allocator_type const &alloc) : Vectray() {
+template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size_type n, allocator_type const &alloc) : Vectray(alloc) {
   this->reserve(n);
   while (n-- > 0) {
     this->emplace_back();
   }
 }
 
-template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::Vectray(Vectray<T, M, A> &&that) {
+template <typename T, size_t N, class A>
+template <size_t M>
+Vectray<T, N, A>::Vectray(Vectray<T, M, A> &&that)
+  : Vectray(DYNAMIC == that._store.index() ? std::get<DYNAMIC>(that._store).get_allocator() : std::get<FIXED>(that._store)._a) {
   // If @a that is already a vector, always move that here.
   if (DYNAMIC == that._store.index()) {
     _store = std::move(std::get<DYNAMIC>(that._store));
   } else {
-    auto span = std::get<FIXED>(that._store).span();
-    if (span.size() > N) {
-    } else {
-      for (auto &&item : span) {
-        this->template emplace_back(std::move(item));
-      }
+    auto &fs  = std::get<FIXED>(that._store);
+    auto span = fs.span();
+    this->reserve(span.size());
+    for (auto &&item : span) {
+      this->emplace_back(std::move(item));
+    }
+    fs.clear();
+  }
+}
+
+template <typename T, size_t N, class A>
+Vectray<T, N, A>::Vectray(self_type &&that, allocator_type const &a) : Vectray(a) {
+  this->reserve(that.size());
+  for (auto &&item : that) {
+    this->emplace_back(std::move(item));
+  }
+}
+
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore const &that) : FixedStore(that._a) {
+  for (auto const &item : that.span()) {
+    new (this->data() + _count) T(item);
+    ++_count;
+  }
+}
+
+template <typename T, size_t N, class A>
+Vectray<T, N, A>::FixedStore::FixedStore(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>)
+  : FixedStore(that._a) {
+  for (auto &item : that.span()) {
+    new (this->data() + _count) T(std::move(item));
+    ++_count;
+  }
+  that.clear();
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore const &that) -> FixedStore & {
+  if (this != &that) {
+    *this = FixedStore(that);
+  }
+  return *this;
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    for (auto &item : that.span()) {
+      new (this->data() + _count) T(std::move(item));
+      ++_count;
     }
+    that.clear();
   }
+  return *this;
 }
 
 template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedStore() {
-  for (auto &item : this->span()) {
-    std::destroy_at(std::addressof(item));
+  this->clear();
+}
+
+template <typename T, size_t N, class A>
+void
+Vectray<T, N, A>::FixedStore::clear() {
+  while (_count > 0) {
+    std::destroy_at(this->data() + --_count);
   }
 }
 
-- 
2.43.0


From 6d67e9387f1ae042a134f316c505d2cfbbb7e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 32/90] fix: IntrusiveDList::erase of a range with ambiguous
 comparisons did not compile

---
 code/include/swoc/IntrusiveDList.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/IntrusiveDList.h b/code/include/swoc/IntrusiveDList.h
index 9d70656..ea1715a 100644
--- a/code/include/swoc/IntrusiveDList.h
+++ b/code/include/swoc/IntrusiveDList.h
@@ -928,21 +928,22 @@ IntrusiveDList<L>::erase(const iterator &first, const iterator &limit) -> iterat
     return limit; // nothing to remove.
   }
   value_type *spot = first;
+  value_type *last = limit; // first element not removed, @c nullptr if @a limit is @c end.
   value_type *prev{L::prev_ptr(spot)};
   if (prev) {
-    L::next_ptr(prev) = limit;
+    L::next_ptr(prev) = last;
   }
   if (spot == _head) {
-    _head = limit;
+    _head = last;
   }
   // tail is only updated if @a limit is @a end (e.g., @c nullptr).
-  if (nullptr == limit) {
+  if (nullptr == last) {
     _tail = prev;
   } else {
-    L::prev_ptr(limit) = prev;
+    L::prev_ptr(last) = prev;
   }
   // Clear links in removed elements.
-  while (spot != limit) {
+  while (spot != last) {
     value_type *target{spot};
     spot                = L::next_ptr(spot);
     L::prev_ptr(target) = L::next_ptr(target) = nullptr;
-- 
2.43.0


From 4c56f4481bb1b4d39e4c1d3c524fba9ce1050bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:57 +0000
Subject: [PATCH 33/90] fix: Errata lost its error code if it had no
 annotations

---
 code/include/swoc/Errata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Errata.h b/code/include/swoc/Errata.h
index 6ee0be5..09131dc 100644
--- a/code/include/swoc/Errata.h
+++ b/code/include/swoc/Errata.h
@@ -1124,7 +1124,7 @@ Errata::empty() const {
 
 inline auto
 Errata::code() const -> code_type const & {
-  return this->empty() ? DEFAULT_CODE : _data->_code;
+  return _data ? _data->_code : DEFAULT_CODE;
 }
 
 inline auto
-- 
2.43.0


From 35ff74728ebbe96da804c7f97398fac486a81d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:57 +0000
Subject: [PATCH 34/90] fix: Errata leaked if the automatic annotation could
 not be created on construction

---
 code/include/swoc/Errata.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/Errata.h b/code/include/swoc/Errata.h
index 09131dc..0ff8ffc 100644
--- a/code/include/swoc/Errata.h
+++ b/code/include/swoc/Errata.h
@@ -1054,13 +1054,11 @@ inline Errata::Errata(const code_type &ec, Severity severity) {
   d->_code     = ec;
 }
 
-inline Errata::Errata(code_type const &ec, AutoText) {
-  this->data()->_code = ec;
+inline Errata::Errata(code_type const &ec, AutoText) : Errata(ec) {
   this->note(AUTOTEXT_CODE, ec);
 }
 
-inline Errata::Errata(Severity severity, AutoText) {
-  this->data()->_severity = severity;
+inline Errata::Errata(Severity severity, AutoText) : Errata(severity) {
   this->note(AUTOTEXT_SEVERITY, severity);
 }
 
-- 
2.43.0


From 67821ca81c3f120f074c14be09dd126f8c7fc819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:57 +0000
Subject: [PATCH 35/90] fix: Errata::note of an instance on itself did not
 terminate

---
 code/src/Errata.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/Errata.cc b/code/src/Errata.cc
index 4ffd875..35a22cb 100644
--- a/code/src/Errata.cc
+++ b/code/src/Errata.cc
@@ -103,7 +103,9 @@ Errata::note(const self_type &that) {
     if (that.has_severity()) {
       this->update(that.severity());
     }
-    for (auto const &annotation : that) {
+    auto n = that.length(); // @a that could be @a this, do not note the annotations added here.
+    for (auto spot = that.begin(); n > 0; --n, ++spot) {
+      auto const &annotation = *spot;
       d->_notes.append(d->_arena.make<Annotation>(d->localize(annotation._text), annotation._severity, annotation._level + 1));
     }
   }
-- 
2.43.0


From 080265ecbf20a29cafabeb17b2e37889d99073c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:57 +0000
Subject: [PATCH 36/90] fix: Errata sinks were used after release if a sink
 registered another sink

---
 code/src/Errata.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/Errata.cc b/code/src/Errata.cc
index 35a22cb..1e4a153 100644
--- a/code/src/Errata.cc
+++ b/code/src/Errata.cc
@@ -53,7 +53,9 @@ Errata::~Errata() {
 Errata &
 Errata::sink() {
   if (_data) {
-    for (auto &f : Sink_List) {
+    // A sink can register another sink, which changes the list.
+    for (size_t idx = 0, n = Sink_List.size(); idx < n; ++idx) {
+      auto f = Sink_List[idx];
       (*f)(*this);
     }
     this->clear();
-- 
2.43.0


From 0b94b3c37b8094e95dd1022a06facf422eb2dff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 37/90] fix: FixedBufferWriter::copy read and wrote past the
 end of the buffer

---
 code/include/swoc/BufferWriter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/BufferWriter.h b/code/include/swoc/BufferWriter.h
index 154da37..e9256d6 100644
--- a/code/include/swoc/BufferWriter.h
+++ b/code/include/swoc/BufferWriter.h
@@ -626,9 +626,9 @@ FixedBufferWriter::clear() -> self_type & {
 inline auto
 FixedBufferWriter::copy(size_t dst, size_t src, size_t n) -> self_type & {
   auto limit = std::min<size_t>(_capacity, _attempted); // max offset of region possible.
-  MemSpan<char> src_span{_buffer + src, std::min(limit, src + n)};
-  MemSpan<char> dst_span{_buffer + dst, std::min(limit, dst + n)};
-  std::memmove(dst_span.data(), src_span.data(), std::min(dst_span.size(), src_span.size()));
+  if (src < limit && dst < limit) {
+    std::memmove(_buffer + dst, _buffer + src, std::min(n, limit - std::max(src, dst)));
+  }
   return *this;
 }
 
-- 
2.43.0


From f93e6f90aba0add3f865e901233a090e8fd30bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 38/90] fix: ArenaWriter overran its buffer if it grew between
 restrict and restore

---
 code/include/swoc/ArenaWriter.h |  9 ++++++++-
 code/src/ArenaWriter.cc         | 25 +++++++++++++++++++++----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/ArenaWriter.h b/code/include/swoc/ArenaWriter.h
index 6f32fc4..32dd10f 100644
--- a/code/include/swoc/ArenaWriter.h
+++ b/code/include/swoc/ArenaWriter.h
@@ -48,8 +48,15 @@ public:
    */
   bool commit(size_t n) override;
 
+  /// Reduce the capacity by @a n.
+  self_type &restrict(size_t n) override;
+
+  /// Restore @a n bytes of the capacity.
+  self_type &restore(size_t n) override;
+
 protected:
-  MemArena &_arena; ///< Arena for the buffer.
+  MemArena &_arena;       ///< Arena for the buffer.
+  size_t _restricted = 0; ///< Capacity currently removed by @c restrict.
 
   /** Reallocate the buffer to increase the capacity.
    *
diff --git a/code/src/ArenaWriter.cc b/code/src/ArenaWriter.cc
index c25265e..8c24655 100644
--- a/code/src/ArenaWriter.cc
+++ b/code/src/ArenaWriter.cc
@@ -35,13 +35,30 @@ ArenaWriter::commit(size_t n) {
   return this->super_type::commit(n);
 }
 
+ArenaWriter &
+ArenaWriter::restrict(size_t n) {
+  this->super_type::restrict(n);
+  _restricted += n;
+  return *this;
+}
+
+ArenaWriter &
+ArenaWriter::restore(size_t n) {
+  this->super_type::restore(n);
+  _restricted -= std::min(_restricted, n);
+  return *this;
+}
+
 void
 ArenaWriter::realloc(size_t n) {
-  auto text                    = this->view(); // Current data.
-  auto span                    = _arena.require(n).remnant().rebind<char>();
+  // Current data, including what is in restricted space, and the restricted space is still needed.
+  TextView text{_buffer, std::min(_attempted, _capacity + _restricted)};
+  auto span                    = _arena.require(n + _restricted).remnant().rebind<char>();
   const_cast<char *&>(_buffer) = span.data();
-  _capacity                    = span.size();
-  memcpy(_buffer, text.data(), text.size());
+  _capacity                    = span.size() - _restricted;
+  if (_buffer != text.data()) {
+    memcpy(_buffer, text.data(), text.size());
+  }
 }
 
 }} // namespace swoc::SWOC_VERSION_NS
-- 
2.43.0


From 1db0461e404e81ff07ea396ce844d53ea67a19c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 39/90] fix: bwf::Spec read outside of the property table for
 characters past 127

---
 code/include/swoc/bwf_base.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index d5c426d..35ab202 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -474,37 +474,37 @@ extern ExternalNames Global_Names;
 
 inline Spec::Align
 Spec::align_of(char c) {
-  return static_cast<Align>(_prop._data[static_cast<unsigned>(c)] & Property::ALIGN_MASK);
+  return static_cast<Align>(_prop._data[static_cast<unsigned char>(c)] & Property::ALIGN_MASK);
 }
 
 inline bool
 Spec::is_sign(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::SIGN_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::SIGN_CHAR;
 }
 
 inline bool
 Spec::is_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::TYPE_CHAR;
 }
 
 inline bool
 Spec::is_upper_case_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
 Spec::is_numeric_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
 Spec::has_numeric_type() const {
-  return _prop._data[static_cast<unsigned>(_type)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(_type)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
 Spec::has_upper_case_type() const {
-  return _prop._data[static_cast<unsigned>(_type)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(_type)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
-- 
2.43.0


From 527ec1e4d5d1bcc77375760e90af7cc328b42be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 40/90] fix: bwf::Spec read past the end of a specifier that
 ends with the 0 flag

---
 code/src/bw_format.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 60ceacc..2aa9d66 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -127,7 +127,9 @@ Spec::parse(TextView fmt) {
           _align = Align::SIGN;
         }
         _fill = '0';
-        ++sz;
+        if (!(++sz).size()) {
+          return true;
+        }
       }
       num = sz;
       n   = svto_radix<10>(num);
-- 
2.43.0


From 7ee41454be530cf62effeeebb6b3c8208a8eaa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 41/90] fix: bwf::Spec numbers out of range wrapped to other
 values

---
 code/src/bw_format.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 2aa9d66..d34dcab 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -61,6 +61,15 @@ Spec::Property::Property() {
   _data['='] = static_cast<uint8_t>(Spec::Align::SIGN);
 }
 
+namespace {
+  /// Convert @a n, limiting it to the range of @a T.
+  template <typename T>
+  T
+  clamp_to(uintmax_t n) {
+    return static_cast<T>(std::min<uintmax_t>(n, std::numeric_limits<T>::max()));
+  }
+} // namespace
+
 Spec::Spec(const TextView &fmt) {
   this->parse(fmt);
 }
@@ -75,7 +84,7 @@ Spec::parse(TextView fmt) {
   num    = _name;
   auto n = svto_radix<10>(num);
   if (num.empty()) {
-    _idx = static_cast<decltype(_idx)>(n);
+    _idx = clamp_to<decltype(_idx)>(n);
   }
 
   if (fmt.size()) {
@@ -134,7 +143,7 @@ Spec::parse(TextView fmt) {
       num = sz;
       n   = svto_radix<10>(num);
       if (num.size() < sz.size()) {
-        _min = static_cast<decltype(_min)>(n);
+        _min = clamp_to<decltype(_min)>(n);
         sz   = num;
         if (!sz.size()) {
           return true;
@@ -145,7 +154,7 @@ Spec::parse(TextView fmt) {
         num = ++sz;
         n   = svto_radix<10>(num);
         if (num.size() < sz.size()) {
-          _prec = static_cast<decltype(_prec)>(n);
+          _prec = clamp_to<decltype(_prec)>(n);
           sz    = num;
           if (!sz.size()) {
             return true;
@@ -166,7 +175,7 @@ Spec::parse(TextView fmt) {
         num = ++sz;
         n   = svto_radix<10>(num);
         if (num.size() < sz.size()) {
-          _max = static_cast<decltype(_max)>(n);
+          _max = clamp_to<decltype(_max)>(n);
           sz   = num;
           if (!sz.size()) {
             return true;
-- 
2.43.0


From 0669d9e562bcf70455de11b834422096760c5e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 42/90] fix: The smallest int was formatted incorrectly

---
 code/include/swoc/bwf_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index 35ab202..db2fcce 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -1104,7 +1104,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, I &&i) ->
   bool neg_p  = false;
   uintmax_t n = static_cast<uintmax_t>(i);
   if (i < 0) {
-    n     = static_cast<uintmax_t>(-i);
+    n     = uintmax_t{0} - n; // @a i may be too small to negate.
     neg_p = true;
   }
   return bwf::Format_Integer(w, spec, n, neg_p);
-- 
2.43.0


From 9241f02479c159c74edb062af985f0cebb6b034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:15 +0000
Subject: [PATCH 43/90] fix: Floating point formatting lost leading zeros and
 carries in the fraction, and overran its buffers

---
 code/src/bw_format.cc | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index d34dcab..9cad839 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -537,6 +537,16 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     return w;
   }
 
+  if (f >= 18446744073709551616.0) { // too large for an integer type, and therefore integral.
+    char buff[std::numeric_limits<double>::max_exponent10 + 2];
+    std::string_view digits{buff, static_cast<size_t>(snprintf(buff, sizeof(buff), "%.0f", f))};
+    char sign = negative_p ? '-' : spec._sign == Spec::SIGN_ALWAYS ? '+' : 0;
+    Write_Aligned(
+      w, [&]() { w.write(digits); }, spec._align, static_cast<int>(spec._min) - static_cast<int>(digits.size()) - (sign ? 1 : 0),
+      spec._fill, sign);
+    return w;
+  }
+
   auto whole_part = static_cast<uint64_t>(f);
   if (whole_part == f || spec._prec == 0) { // integral
     return Format_Integer(w, spec, whole_part, negative_p);
@@ -546,8 +556,8 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   double frac               = NAN;
   size_t l                  = 0;
   size_t r                  = 0;
-  char whole[std::numeric_limits<double>::digits10 + 1];
-  char fraction[std::numeric_limits<double>::digits10 + 1];
+  char whole[std::numeric_limits<uint64_t>::digits10 + 1];
+  char fraction[std::numeric_limits<uint64_t>::digits10 + 1];
   char neg               = 0;
   int width              = static_cast<int>(spec._min);                          // amount left to fill.
   unsigned int precision = (spec._prec == Spec::DEFAULT._prec) ? 2 : spec._prec; // default precision 2
@@ -560,6 +570,11 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     neg = spec._sign;
   }
 
+  // Digits past what the integer type can hold are always zero.
+  const size_t digits = std::min<size_t>(precision, std::numeric_limits<uint64_t>::digits10);
+  const size_t extra  = precision - digits;
+  precision           = digits;
+
   // Shift the floating point based on the precision. Used to convert
   //  trailing fraction into an integer value.
   uint64_t shift = 0;
@@ -573,9 +588,16 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   }
 
   auto frac_part = static_cast<uint64_t>(frac * shift + 0.5 /* rounding */);
+  if (frac_part >= shift) { // rounded up to the next whole number.
+    frac_part -= shift;
+    ++whole_part;
+  }
 
   l = bwf::To_Radix<10>(whole_part, whole, sizeof(whole), bwf::LOWER_DIGITS);
   r = bwf::To_Radix<10>(frac_part, fraction, sizeof(fraction), bwf::LOWER_DIGITS);
+  while (r < digits) { // leading zeros are significant in the fraction.
+    fraction[sizeof(fraction) - ++r] = '0';
+  }
 
   // Clip fill width
   if (neg) {
@@ -583,7 +605,7 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   }
   width -= static_cast<int>(l);
   --width; // '.'
-  width -= static_cast<int>(r);
+  width -= static_cast<int>(r + extra);
 
   std::string_view whole_digits{whole + sizeof(whole) - l, l};
   std::string_view frac_digits{fraction + sizeof(fraction) - r, r};
@@ -594,6 +616,9 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
       w.write(whole_digits);
       w.write(dec);
       w.write(frac_digits);
+      for (size_t i = 0; i < extra; ++i) {
+        w.write('0');
+      }
     },
     spec._align, width, spec._fill, neg);
 
-- 
2.43.0


From f40e24ba2e367a71e88d027adc94e7741b8cc76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:15 +0000
Subject: [PATCH 44/90] fix: A minimum width larger than the maximum width
 exposed unwritten buffer content

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 9cad839..a4214d4 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -284,7 +284,7 @@ Err_Bad_Arg_Index(BufferWriter &w, int i, size_t n) {
 void
 Adjust_Alignment(BufferWriter &aux, Spec const &spec) {
   size_t extent = aux.extent();
-  size_t min    = spec._min;
+  size_t min    = std::min(spec._min, spec._max); // never fill past the maximum.
   if (extent < min) {
     size_t delta      = min - extent;
     size_t left_delta = 0, right_delta = delta; // left justify values
-- 
2.43.0


From 6d920052ce7d2a34a586c5e803f38a96aa571307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:15 +0000
Subject: [PATCH 45/90] fix: A field without text was not filled to the minimum
 width

---
 code/include/swoc/bwf_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index db2fcce..1716554 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -903,7 +903,7 @@ BufferWriter::print_nfv(Binding &&names, Extractor &&ex, bwf::ArgPack const &arg
         } else if (spec._name.size()) {
           names(lw, spec);
         }
-        if (lw.extent()) {
+        if (lw.extent() || (spec._min && spec._type != bwf::Spec::CAPTURE_TYPE)) {
           bwf::Adjust_Alignment(lw, spec);
           if (!this->commit(lw.extent())) {
             continue;
-- 
2.43.0


From ab3a0492ebe573e12bbe78c3fdcf1eb4e8f7c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:15 +0000
Subject: [PATCH 46/90] fix: bwappend left arbitrary text in the string if
 formatting failed

---
 code/include/swoc/bwf_base.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index 1716554..8fce27d 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -1200,10 +1200,15 @@ bwappend(std::string &s, TextView fmt, Args &&...args) {
   auto printer        = [&]() { return FixedBufferWriter(s.data() + len, s.capacity() - len).print(fmt, args...).extent(); };
   // Resize first, otherwise capacity past @a len is cleared on @c resize.
   s.resize(capacity);
-  auto n = printer() + len; // Get the final length.
-  s.resize(n);              // Adjust to correct string length.
-  if (n > capacity) {       // dropped data, write it again.
-    printer();
+  try {
+    auto n = printer() + len; // Get the final length.
+    s.resize(n);              // Adjust to correct string length.
+    if (n > capacity) {       // dropped data, write it again.
+      printer();
+    }
+  } catch (...) {
+    s.resize(len); // Only the previous text is valid.
+    throw;
   }
   return s;
 }
-- 
2.43.0


From fe941a95894458848c6c83c7ffeaa91b765977b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:15 +0000
Subject: [PATCH 47/90] fix: bwf::Date read outside an empty format and dropped
 long output depending on the buffer size

---
 code/src/bw_format.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index a4214d4..c034400 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -893,6 +893,9 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Date const &date) {
     struct tm t {};
     auto r = w.remaining();
     size_t n{0};
+    if (date._fmt.empty()) {
+      return w;
+    }
     // Verify @a fmt is null terminated, even outside the bounds of the view.
     if (date._fmt.data()[date._fmt.size() - 1] != 0 && date._fmt.data()[date._fmt.size()] != 0) {
       throw(std::invalid_argument{"BWF Date String is not null terminated."});
@@ -913,9 +916,18 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Date const &date) {
       // Direct write didn't work. Unfortunately need to write to a temporary
       // buffer or the sizing isn't correct if @a w is clipped because @c
       // strftime returns 0 if the buffer isn't large enough.
-      char buff[256]; // hope for the best - no real way to resize appropriately on failure.
+      char buff[256]; // usually enough.
       n = strftime(buff, sizeof(buff), date._fmt.data(), &t);
-      w.write(buff, n);
+      if (n > 0) {
+        w.write(buff, n);
+      } else { // too long, or there is no output - need a limit because those can't be distinguished.
+        std::string text;
+        for (size_t k = 1024; n == 0 && k <= 64 * 1024; k *= 4) {
+          text.resize(k);
+          n = strftime(text.data(), text.size(), date._fmt.data(), &t);
+        }
+        w.write(text.data(), n);
+      }
     }
   }
   return w;
-- 
2.43.0


From 3cfecd116393a51b7efe0b603a891823d3a9f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:15 +0000
Subject: [PATCH 48/90] fix: The short name for E2BIG had a trailing space

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index c034400..acfc0bd 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -785,7 +785,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "SUCCESS", "EPERM",
    "ENOENT", "ESRCH",
    "EINTR", "EIO",
-   "ENXIO", "E2BIG ",
+   "ENXIO", "E2BIG",
    "ENOEXEC", "EBADF",
    "ECHILD", "EAGAIN",
    "ENOMEM", "EACCES",
-- 
2.43.0


From a179b6fdc8f852c0765f04e2066ef1c268fcd400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:15 +0000
Subject: [PATCH 49/90] fix: Fill for a hexadecimal dump was put between the
 prefix and the digits for all alignments

---
 code/src/bw_format.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index acfc0bd..4169dae 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -736,13 +736,27 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::HexDump const &hex) {
   }
 
   int width = int(spec._min) - hex._view.size() * 2; // amount left to fill.
+  auto lead = [&]() {
+    if (spec._radix_lead_p) {
+      w.write('0');
+      w.write(fmt_type);
+    }
+  };
   if (spec._radix_lead_p) {
-    w.write('0');
-    w.write(fmt_type);
     width -= 2;
   }
+  if (spec._align == bwf::Spec::Align::SIGN) { // fill is between the prefix and the digits.
+    lead();
+  }
   bwf::Write_Aligned(
-    w, [&w, &hex, digits]() { bwf::Format_As_Hex(w, hex._view, digits); }, spec._align, width, spec._fill, 0);
+    w,
+    [&]() {
+      if (spec._align != bwf::Spec::Align::SIGN) {
+        lead();
+      }
+      bwf::Format_As_Hex(w, hex._view, digits);
+    },
+    spec._align, width, spec._fill, 0);
   return w;
 }
 
-- 
2.43.0


From dee4f20a5001c0c116c17d86aa86c0b5ad64d603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:15 +0000
Subject: [PATCH 50/90] fix: A bwf::Pattern with a negative count did not
 terminate

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 4169dae..899a6d9 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -949,7 +949,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Date const &date) {
 
 BufferWriter &
 bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Pattern const &pattern) {
-  if (!pattern._text.empty()) { // If there's no text, no point in looping.
+  if (!pattern._text.empty() && pattern._n > 0) { // If there's no text, no point in looping.
     auto limit        = std::min<size_t>(spec._max, pattern._text.size() * pattern._n);
     decltype(limit) n = 0;
     while (n < limit) {
-- 
2.43.0


From 07d645e004135c4526038867e17535f365a6f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:08 +0000
Subject: [PATCH 51/90] fix: Rebinding a MemSpan of larger elements to void
 multiplied its size

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 02c170c..00da896 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -935,7 +935,7 @@ template <typename T> struct is_span_compatible<T, void> {
 template <typename T>
 size_t
 is_span_compatible<T, void>::count(size_t size) {
-  return sizeof(T) * size;
+  return size; // Already in bytes.
 }
 
 template <typename T> struct is_span_compatible<T, void const> {
@@ -946,7 +946,7 @@ template <typename T> struct is_span_compatible<T, void const> {
 template <typename T>
 size_t
 is_span_compatible<T, void const>::count(size_t size) {
-  return sizeof(T) * size;
+  return size; // Already in bytes.
 }
 /// @endcond
 
-- 
2.43.0


From fd430e09daff45015aed25d23f18a90345aad61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:49 +0000
Subject: [PATCH 52/90] fix: bwprint left the string unterminated if formatting
 failed

---
 code/include/swoc/bwf_base.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index 8fce27d..606a776 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -1150,10 +1150,15 @@ std::string &
 bwprint_v(std::string &s, TextView fmt, std::tuple<Args...> const &args) {
   auto const len = s.size(); // remember initial size
   auto printer   = [&]() { return FixedBufferWriter(s.data(), s.capacity()).print_v(fmt, args).extent(); };
-  size_t n       = printer();
-  s.resize(n);   // always need to resize - if shorter, must clip pre-existing text.
-  if (n > len) { // dropped data, try again.
-    printer();
+  try {
+    size_t n = printer();
+    s.resize(n);   // always need to resize - if shorter, must clip pre-existing text.
+    if (n > len) { // dropped data, try again.
+      printer();
+    }
+  } catch (...) {
+    s.clear(); // The terminator may have been overwritten.
+    throw;
   }
   return s;
 }
-- 
2.43.0


From f3ba1c71fb15c563a9b646024f7670e3ca8bb786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 53/90] fix: The short name for EL2HLT was misspelled

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 899a6d9..32a3afe 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -821,7 +821,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "ECHRNG", "EL2NSYNC",
    "EL3HLT", "EL3RST",
    "ELNRNG", "EUNATCH",
-   "ENOCSI", "EL2HTL",
+   "ENOCSI", "EL2HLT",
    "EBADE", "EBADR",
    "EXFULL", "ENOANO",
    "EBADRQC", "EBADSLT",
-- 
2.43.0


From 366ac8a4ed886d44414efa502cb9014d4264e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 54/90] fix: The digit T had the wrong value in radix 30 and up

---
 code/src/TextView.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index fbfb343..3bd5110 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -27,9 +27,9 @@ const int8_t svtoi_convert[256] = {
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 20
   0,  1,  2,  3,  4,  5,  6,  7,  8,  9,  -1, -1, -1, -1, -1, -1, // 30
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 40
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 60
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 80
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 90
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // A0
-- 
2.43.0


From bbf45a254f602d82f8e450559d4f64abe228ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 55/90] fix: svtod lost the sign of a negative number without a
 fraction, and wrapped past the largest integer

---
 code/src/TextView.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 3bd5110..86bba37 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -187,11 +187,11 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
     ++text;
   }
   // Parse the leading whole part as an integer.
-  intmax_t whole = svto_radix<10>(text);
+  auto whole = svto_radix<10>(text);
   parsed->assign(org_text.data(), text.data());
 
   if (text.empty()) {
-    return whole;
+    return sign * double(whole);
   }
 
   double frac = 0.0;
-- 
2.43.0


From 5a77a0fd4bc303c12ae6f60f17852ac4afe5b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 56/90] fix: A copy reported success when closing the
 destination reported a failed write

---
 code/src/swoc_file.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 3a7e839..5b1c031 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -393,6 +393,12 @@ copy(const path &from, const path &to, std::error_code &ec) {
     return false;
   }
 
+  // A delayed write that failed is reported by the close.
+  if (0 != ::close(dst_fd.release()) && EINTR != errno) {
+    ec = std::error_code(errno, std::system_category());
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From 52a20fdc113837a3cbeab65da28110ec5ae72860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 57/90] fix: IPRange::contains tested an IPv6 address as IPv4

---
 code/include/swoc/IPRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 547afdb..6cc756f 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -2007,7 +2007,7 @@ inline bool IPRange::contains(IPAddr const & addr) const {
   if (addr.family() != _family) {
     return false;
   }
-  if (this->ip4()) {
+  if (this->is_ip4()) {
     return _range._ip4.contains(addr.ip4());
   } else if (this->is_ip6()) {
     return _range._ip6.contains(addr.ip6());
-- 
2.43.0


From 2baaf645d36ecb4e911c689d32c320b5149bc5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 58/90] fix: A failed assignment to a bound name left the name
 without a generator

---
 code/include/swoc/bwf_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index 606a776..8ad3e46 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -591,7 +591,8 @@ NameMap<F>::localize(std::string_view const &name) {
 template <typename F>
 auto
 NameMap<F>::assign(std::string_view const &name, Generator const &generator) -> self_type & {
-  _map[this->localize(name)] = generator;
+  Generator g{generator}; // Copy first, if that fails the map must not be changed.
+  _map[this->localize(name)] = std::move(g);
   return *this;
 }
 
-- 
2.43.0


From d0a09be8af245c4374e9b5b7ca4b5f2a373c84aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 59/90] fix: The FNV-1a hashes were wrong for bytes above 127

---
 code/include/swoc/ext/HashFNV.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/ext/HashFNV.h b/code/include/swoc/ext/HashFNV.h
index b22d43f..79f0ad3 100644
--- a/code/include/swoc/ext/HashFNV.h
+++ b/code/include/swoc/ext/HashFNV.h
@@ -177,7 +177,7 @@ template <typename X, typename V>
 auto
 Hash32FNV1a::update(TransformView<X, V> view) -> self_type & {
   for (; view; ++view) {
-    hval ^= static_cast<value_type>(*view);
+    hval ^= static_cast<unsigned char>(*view);
     hval += (hval << 1) + (hval << 4) + (hval << 7) + (hval << 8) + (hval << 24);
   }
   return *this;
@@ -221,7 +221,7 @@ template <typename X, typename V>
 auto
 Hash64FNV1a::update(TransformView<X, V> view) -> self_type & {
   for (; view; ++view) {
-    hval ^= static_cast<value_type>(*view);
+    hval ^= static_cast<unsigned char>(*view);
     hval += (hval << 1) + (hval << 4) + (hval << 5) + (hval << 7) + (hval << 8) + (hval << 40);
   }
   return *this;
-- 
2.43.0


From 6544aba3aa5fa4bd72dfc0b148b6053eba3b9736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 60/90] fix: An IPv6 address was less than every IPv4 address
 and the other way round

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 6403922..c71109a 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -588,7 +588,7 @@ IPAddr::operator<(self_type const &that) const {
   } else if (AF_INET6 == _family) {
     switch (that._family) {
     case AF_INET:
-      return true;
+      return false;
     case AF_INET6:
       return _addr._ip6 < that._addr._ip6;
     default:
-- 
2.43.0


From d5623b607ab4c8b64ebd70883a92f578804cf258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 61/90] fix: IPv6 parsing accepted invalid text and kept parts
 of it on failure

---
 code/src/swoc_ip.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index c71109a..c0edb59 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -425,12 +425,15 @@ IP6Addr::load(std::string_view const &str) {
   if (src && '[' == *src) {
     ++src;
     if (src.empty() || src.back() != ']') {
+      this->clear();
       return false;
     }
     src.remove_suffix(1);
   }
 
-  if (src.size() < 2) {
+  // A trailing ':' is valid only as part of "::".
+  if (src.size() < 2 || (src.back() == ':' && src[src.size() - 2] != ':')) {
+    this->clear();
     return false;
   }
 
@@ -450,6 +453,7 @@ IP6Addr::load(std::string_view const &str) {
         src.remove_prefix(2);
       }
     } else {
+      this->clear();
       return false;
     }
   }
@@ -460,16 +464,19 @@ IP6Addr::load(std::string_view const &str) {
     TextView token{src.take_prefix_at(':')};
     if (token.empty()) {
       if (empty_idx >= 0) { // two instances of "::", fail.
+        this->clear();
         return false;
       }
       empty_idx = n;
     } else {
       TextView r;
       auto x = svtoi(token, &r, 16);
-      if (r.size() == token.size()) {
+      // At most 4 digits and nothing else (no sign, no whitespace).
+      if (token.size() <= 4 && isxdigit(*token) && r.size() == token.size()) {
         quad[QUAD_IDX[n++]] = x;
       } else {
-        break;
+        this->clear();
+        return false;
       }
     }
   }
@@ -484,6 +491,7 @@ IP6Addr::load(std::string_view const &str) {
       }
       n = N_QUADS; // Mark success.
     } else {
+      this->clear();
       return false; // too many quads - full set plus empty.
     }
   }
-- 
2.43.0


From 56a7128f0d453e02c9a43a4be3f72cf54a79febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 62/90] fix: IPv4 parsing accepted an empty octet

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index c0edb59..3f0e2d9 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -313,7 +313,7 @@ IP4Addr::load(std::string_view const &text) {
     TextView parsed;
     auto token = src.take_prefix_at('.');
     auto v     = svtou(token, &parsed);
-    if (parsed.size() != token.size()) {
+    if (token.empty() || parsed.size() != token.size()) {
       break;
     }
     if (src.empty()) {
-- 
2.43.0


From e4c07d6c9387f254625d2cc78267f95dd74f7e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 63/90] fix: A failed parse left the previous value in an
 endpoint or range

---
 code/src/swoc_ip.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 3f0e2d9..0ae214e 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -207,6 +207,7 @@ IPEndpoint::parse(std::string_view const &str) {
     this->assign(srv);
     return true;
   }
+  this->invalidate();
   return false;
 }
 
@@ -1127,6 +1128,7 @@ IPRange::load(std::string_view const &text) {
     return true;
   }
 
+  this->clear();
   return false;
 }
 
-- 
2.43.0


From aa0a3de270bf69ea5114dcf4d7c49e6595e2b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:37 +0000
Subject: [PATCH 64/90] fix: Network masks wider than the address were accepted

---
 code/src/swoc_ip.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 0ae214e..96bc4e7 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -671,11 +671,12 @@ bool operator == (IPAddr const& lhs, sockaddr const * sa) {
 bool
 IPMask::load(string_view const &text) {
   TextView parsed;
-  _cidr = swoc::svtou(text, &parsed);
-  if (parsed.size() != text.size()) {
+  auto width = swoc::svtou(text, &parsed);
+  if (parsed.size() != text.size() || width > IP6Addr::WIDTH) {
     _cidr = 0;
     return false;
   }
+  _cidr = raw_type(width);
   return true;
 }
 
@@ -860,7 +861,7 @@ bool
 IP4Net::load(TextView text) {
   if (auto mask_text = text.split_suffix_at('/'); !mask_text.empty()) {
     IPMask mask;
-    bool mask_p = mask.load(mask_text);
+    bool mask_p = mask.load(mask_text) && mask.width() <= IP4Addr::WIDTH;
     if (IP4Addr addr; addr.load(text)) {
       if (!mask_p) {
         if (IP4Addr m; m.load(mask_text)) {
@@ -920,6 +921,7 @@ IPNet::load(TextView text) {
         return true;
       }
     } else if (IP4Addr a4; a4.load(text)) {
+      mask_p = mask_p && mask.width() <= IP4Addr::WIDTH;
       if (!mask_p) {
         if (IP4Addr m; m.load(mask_text)) {
           mask   = IPMask::mask_for(m);
@@ -970,7 +972,7 @@ IP4Range::load(string_view text) {
         if (addr.load(text.substr(0, idx))) { // load the address
           IPMask mask;
           text.remove_prefix(idx + 1); // drop address and separator.
-          if (mask.load(text)) {
+          if (mask.load(text) && mask.width() <= IP4Addr::WIDTH) {
             this->assign(addr, mask);
             return true;
           }
-- 
2.43.0


From 23f137d05517481c0aa591876ff28e8d81795bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 65/90] fix: Range relationships named a missing function and
 compared the wrong edge

---
 code/include/swoc/DiscreteRange.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 7b092f0..48e5c86 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -454,17 +454,18 @@ DiscreteRange<T>::hull(DiscreteRange::self_type const &that) const {
 template <typename T>
 auto
 DiscreteRange<T>::left_edge_relationship(self_type const &that) const -> EdgeRelation {
-  if (_max < that._max) {
-    return ++metric_type(_max) < that._max ? EdgeRelation::GAP : EdgeRelation::ADJ;
+  if (_max < that._min) {
+    metric_type max(_max); // some built in integer types don't support increment on rvalues.
+    return ++max < that._min ? EdgeRelation::GAP : EdgeRelation::ADJ;
   }
-  return _min >= that._min ? EdgeRelation::NONE : EdgeRelation::OVLP;
+  return that._min < _min ? EdgeRelation::NONE : EdgeRelation::OVLP;
 }
 
 template <typename T>
 auto
 DiscreteRange<T>::relationship(self_type const &that) const -> Relation {
   Relation retval = Relation::NONE;
-  if (this->has_intersection(that)) {
+  if (this->has_intersection_with(that)) {
     if (*this == that)
       retval = Relation::EQUAL;
     else if (this->is_subset_of(that))
@@ -568,7 +569,7 @@ DiscreteRange<T>::max() const {
 template <typename T>
 bool
 DiscreteRange<T>::has_union(DiscreteRange::self_type const &that) const {
-  return this->has_intersection(that) || this->is_adjacent_to(that);
+  return this->has_intersection_with(that) || this->is_adjacent_to(that);
 }
 
 template <typename T>
@@ -644,7 +645,7 @@ operator!=(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
 template <typename T>
 bool
 operator^(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
-  return lhs.has_intersection(rhs);
+  return lhs.has_intersection_with(rhs);
 }
 
 /** Containment ordering.
-- 
2.43.0


From a41de765193e2a57ace89d825add5d056b36ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 66/90] fix: TextView::split_suffix(n) took a view shorter than
 n, split_suffix_if split at the wrong place

---
 code/include/swoc/TextView.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 01ddb65..14364a6 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1445,10 +1445,11 @@ TextView::remove_suffix_if(F const &pred) {
 
 inline TextView
 TextView::split_suffix(size_t n) {
-  self_type zret;
-  n    = std::min(n, this->size());
-  zret = this->suffix(n);
-  this->remove_suffix(n + 1);
+  self_type zret; // default to empty return.
+  if (n <= this->size()) {
+    zret = this->suffix(n);
+    this->remove_suffix(n + 1);
+  }
   return zret;
 }
 
@@ -1472,7 +1473,8 @@ TextView::split_suffix_at(std::string_view const &delimiters) -> self_type {
 template <typename F>
 TextView::self_type
 TextView::split_suffix_if(F const &pred) {
-  return this->split_suffix(this->rfind_if(pred));
+  auto idx = this->rfind_if(pred);
+  return npos == idx ? self_type{} : this->split_suffix(this->size() - (idx + 1));
 }
 
 inline TextView
-- 
2.43.0


From 14ffa305766e7c7d3172ba43e3c6ca175b757af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 67/90] fix: TextView::take_suffix(n) returned the text after
 offset n, take_suffix_if used the offset as a character

---
 code/include/swoc/TextView.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 14364a6..ab01bda 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1479,8 +1479,9 @@ TextView::split_suffix_if(F const &pred) {
 
 inline TextView
 TextView::take_suffix(size_t n) {
-  self_type zret{*this};
-  *this = zret.split_prefix(n);
+  n              = std::min(n, this->size());
+  self_type zret = this->suffix(n);
+  this->remove_suffix(n + 1);
   return zret;
 }
 
@@ -1491,18 +1492,21 @@ TextView::take_suffix(int n) {
 
 inline TextView
 TextView::take_suffix_at(char c) {
-  return this->take_suffix(this->rfind(c));
+  auto idx = this->rfind(c);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 inline TextView
 TextView::take_suffix_at(std::string_view const &delimiters) {
-  return this->take_suffix(this->find_last_of(delimiters));
+  auto idx = this->find_last_of(delimiters);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 template <typename F>
 TextView::self_type
 TextView::take_suffix_if(F const &pred) {
-  return this->take_suffix_at(this->rfind_if(pred));
+  auto idx = this->rfind_if(pred);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 template <typename F>
-- 
2.43.0


From cbbbb8c378bf1713acd5947be2d2c5bd7200bd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 68/90] fix: TextView::clip_suffix_of clipped the text that
 does not match the predicate

---
 code/include/swoc/TextView.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index ab01bda..c4b6cea 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1763,11 +1763,11 @@ TextView::clip_prefix_of(F const &pred) {
 template <typename F>
 TextView::self_type
 TextView::clip_suffix_of(F const &pred) {
-  size_t idx = this->size() - 1;
-  for (auto spot = this->data() + idx, limit = this->data(); spot >= limit && pred(*spot); --spot, --idx)
+  size_t n = 0;
+  for (auto spot = this->data_end(), limit = this->data(); spot > limit && pred(*(spot - 1)); --spot, ++n)
     ; // empty
-  TextView token = this->suffix(idx);
-  this->remove_suffix(idx);
+  TextView token = this->suffix(n);
+  this->remove_suffix(n);
   return token;
 }
 /// @endcond TextView_INTERNAL
-- 
2.43.0


From 47c0a46513ac4b8087570699dad996b28942745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 69/90] fix: View comparison put a prefix last, broke the
 ordering functors, and stopped at a nul

---
 code/src/string_view_util.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 3c483ca..4b1f2e1 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -5,6 +5,8 @@
     Additional handy utilities for @c string_view and hence also @c TextView.
 */
 
+#include <cctype>
+
 #include "swoc/string_view_util.h"
 
 int
@@ -14,16 +16,16 @@ memcmp(std::string_view const &lhs, std::string_view const &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1; // shorter is first
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // same memory, obviously equal.
     return 0;
   }
 
-  int r = ::memcmp(lhs.data(), rhs.data(), n);
-  return r ? r : zret;
+  int r = n ? ::memcmp(lhs.data(), rhs.data(), n) : 0;
+  return r ? (r < 0 ? -1 : 1) : zret;
 }
 
 int
@@ -31,17 +33,23 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
   int zret = 0;
   size_t n = rhs.size();
 
-  // Seems a bit ugly but size comparisons must be done anyway to get the @c strncasecmp args.
+  // The common prefix is compared first, the sizes matter only if that is the same.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1; // shorter is first
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // the same memory, obviously equal.
     return 0;
   }
 
-  int r = ::strncasecmp(lhs.data(), rhs.data(), n);
-
-  return r ? r : zret;
+  // @c strncasecmp can't be used because it stops at a nul character.
+  for (size_t i = 0; i < n; ++i) {
+    int l = tolower(static_cast<unsigned char>(lhs[i]));
+    int r = tolower(static_cast<unsigned char>(rhs[i]));
+    if (l != r) {
+      return l < r ? -1 : 1;
+    }
+  }
+  return zret;
 }
-- 
2.43.0


From 7cd065e571361362c70beb991c4e2769cac2cd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 70/90] fix: svtoi left the previous value in the parsed view
 if nothing was parsed

---
 code/src/TextView.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 86bba37..5b54100 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -47,6 +47,10 @@ svtoi(TextView src, TextView *out, int base) {
   static constexpr uintmax_t ABS_MIN = uintmax_t(std::numeric_limits<intmax_t>::min());
   intmax_t zret = 0;
 
+  if (out) {
+    out->clear();
+  }
+
   if (src.ltrim_if(&isspace)) {
     TextView parsed;
     const char *start = src.data();
-- 
2.43.0


From 459d9daa58e6963f0075711c1698b951f4482155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 71/90] fix: svtod accepted text without digits, lost precision
 and mishandled large digits and exponents

---
 code/src/TextView.cc | 90 ++++++++++++++++++++++++--------------------
 1 file changed, 50 insertions(+), 40 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 5b54100..5c827f5 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -152,13 +152,9 @@ svtou(TextView src, TextView *out, int base) {
 double
 svtod(swoc::TextView text, swoc::TextView *parsed) {
   // @return 10^e
-  auto pow10 = [](int e) -> double {
-    double zret  = 1.0;
-    double scale = 10.0;
-    if (e < 0) { // flip the scale and make @a e positive.
-      e     = -e;
-      scale = 0.1;
-    }
+  auto pow10 = [](unsigned e) -> long double {
+    long double zret  = 1.0;
+    long double scale = 10.0;
 
     // Walk the bits in the exponent @a e and multiply the scale for set bits.
     while (e) {
@@ -170,10 +166,8 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
     }
     return zret;
   };
-
-  if (text.empty()) {
-    return 0;
-  }
+  // Exponents past this, in either direction, are out of range for any non-zero value.
+  static constexpr intmax_t EXP_LIMIT = std::numeric_limits<double>::max_exponent10 + 100;
 
   auto org_text = text; // save this to update @a parsed.
   // Check just once and dump to a local copy if needed.
@@ -181,51 +175,67 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
   if (!parsed) {
     parsed = &local_parsed;
   }
+  parsed->clear();
 
   // Handle leading sign.
   int sign = 1;
-  if (*text == '-') {
+  if (text.starts_with('-')) {
     ++text;
     sign = -1;
-  } else if (*text == '+') {
+  } else if (text.starts_with('+')) {
     ++text;
   }
-  // Parse the leading whole part as an integer.
-  auto whole = svto_radix<10>(text);
-  parsed->assign(org_text.data(), text.data());
 
-  if (text.empty()) {
-    return sign * double(whole);
-  }
+  // Accumulate the digits as an integer with a decimal exponent. Digits past what fits in the
+  // integer are too small to matter, except for the exponent.
+  uintmax_t n    = 0;
+  intmax_t exp   = 0;
+  bool found_p   = false;
+  auto do_digits = [&](bool frac_p) -> void {
+    static constexpr uintmax_t LIMIT = std::numeric_limits<uintmax_t>::max() / 10;
+    for (; text && '0' <= *text && *text <= '9'; ++text) {
+      found_p = true;
+      if (n < LIMIT) {
+        n    = n * 10 + (*text - '0');
+        exp -= frac_p ? 1 : 0;
+      } else {
+        exp += frac_p ? 0 : 1;
+      }
+    }
+  };
 
-  double frac = 0.0;
-  if (*text == '.') { // fractional part.
+  do_digits(false);
+  if (text.starts_with('.')) { // fractional part.
     ++text;
-    double scale = 0.1;
-    while (text && isdigit(*text)) {
-      frac  += scale * (*text++ - '0');
-      scale /= 10.0;
-    }
+    do_digits(true);
   }
+  if (!found_p) {
+    return 0;
+  }
+  parsed->assign(org_text.data(), text.data());
 
-  double exp = 1.0;
-  if (text.starts_with_nocase("e")) {
-    int exp_sign = 1;
+  if (text.starts_with_nocase('e')) {
+    bool neg_p = false;
     ++text;
-    if (text) {
-      if (*text == '+') {
-        ++text;
-      } else if (*text == '-') {
-        ++text;
-        exp_sign = -1;
-      }
+    if (text.starts_with('-')) {
+      ++text;
+      neg_p = true;
+    } else if (text.starts_with('+')) {
+      ++text;
+    }
+    auto digits   = text.data();
+    auto exp_part = intmax_t(std::min<uintmax_t>(svto_radix<10>(text), std::numeric_limits<intmax_t>::max() / 2));
+    if (text.data() != digits) { // not an exponent unless there is at least one digit.
+      exp += neg_p ? -exp_part : exp_part;
+      parsed->assign(org_text.data(), text.data());
     }
-    auto exp_part = svto_radix<10>(text);
-    exp           = pow10(exp_part * exp_sign);
   }
 
-  parsed->assign(org_text.data(), text.data());
-  return sign * (whole + frac) * exp;
+  if (0 == n) {
+    return sign * 0.0;
+  }
+  exp = std::max(-EXP_LIMIT, std::min(exp, EXP_LIMIT));
+  return sign * double(exp < 0 ? n / pow10(-exp) : n * pow10(exp));
 }
 
 // Do the template instantiations.
-- 
2.43.0


From 917f915fd6a2a8715d1c9f27462f40bb1fc8df0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 72/90] fix: TextView::starts_with_nocase and ends_with_nocase
 stopped at a nul

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index c4b6cea..095b901 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1685,7 +1685,7 @@ TextView::starts_with_nocase(char c) const noexcept {
 
 inline bool
 TextView::starts_with_nocase(std::string_view const &prefix) const noexcept {
-  return this->size() >= prefix.size() && 0 == ::strncasecmp(this->data(), prefix.data(), prefix.size());
+  return this->size() >= prefix.size() && 0 == strcasecmp(this->prefix(prefix.size()), prefix);
 }
 
 inline bool
@@ -1695,7 +1695,7 @@ TextView::ends_with(std::string_view const &suffix) const noexcept {
 
 inline bool
 TextView::ends_with_nocase(std::string_view const &suffix) const noexcept {
-  return this->size() >= suffix.size() && 0 == ::strncasecmp(this->data_end() - suffix.size(), suffix.data(), suffix.size());
+  return this->size() >= suffix.size() && 0 == strcasecmp(this->suffix(suffix.size()), suffix);
 }
 
 inline bool
-- 
2.43.0


From d2d1002f0c65f6cdc5aedf4c7bf4b37421fbda0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 73/90] fix: TransformView::end could not be used

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 095b901..92bed60 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1873,7 +1873,7 @@ protected:
   source_iterator _limit; ///< End of source view.
 
   /// Special constructor for making an empty instance to serve as the @c end iterator.
-  TransformView(transform_type &&xf, source_iterator &&limit) : _xf(xf), _spot(limit), _limit(limit) {}
+  TransformView(transform_type const &xf, source_iterator const &limit) : _xf(xf), _spot(limit), _limit(limit) {}
 };
 
 template <typename X, typename V>
@@ -2006,7 +2006,7 @@ protected:
   source_iterator _limit; ///< End marker.
 
   /// Special constructor for making an empty instance to serve as the @c end iterator.
-  explicit TransformView(source_iterator &&limit) : _spot(limit), _limit(limit) {}
+  explicit TransformView(source_iterator const &limit) : _spot(limit), _limit(limit) {}
 };
 
 template <typename V>
-- 
2.43.0


From 208c4b4a8c5a82240cd4f318fba7a6a254c300ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 74/90] fix: MemSpan::align yielded unaligned memory

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 00da896..7fafb02 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1615,7 +1615,7 @@ MemSpan<void>::align() const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = -p & (alignment - 1); // distance to the next aligned address.
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = _size - padding;
@@ -1632,7 +1632,7 @@ MemSpan<void>::align(size_t alignment) const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment, size_t obj_size) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = -p & (alignment - 1); // distance to the next aligned address.
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = ((_size - padding) / obj_size) * obj_size;
-- 
2.43.0


From bff94239b37655c0b69db96b0746e74186cb8f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 75/90] fix: MemSpan equality compared only as many bytes as
 there are elements

---
 code/include/swoc/MemSpan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 7fafb02..f589e1e 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1118,7 +1118,7 @@ MemSpan<T>::is_same(self_type const &that) const {
 template <typename T>
 constexpr bool
 MemSpan<T>::operator==(self_type const &that) const {
-  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->size()));
+  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->data_size()));
 }
 
 template <typename T>
-- 
2.43.0


From 029229cefee3c49db3d947140be5d8362e6725ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 76/90] fix: Copying and comparing spans used element counts as
 bytes, copying a view could overflow the span

---
 code/include/swoc/MemSpan.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index f589e1e..534c6c1 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -959,18 +959,18 @@ template <typename T>
 int
 memcmp(MemSpan<T> const &lhs, MemSpan<T> const &rhs) {
   int zret = 0;
-  size_t n = lhs.size();
+  size_t n = lhs.data_size();
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.count() < rhs.count()) {
-    zret = 1;
+    zret = -1; // shorter is first
   } else if (lhs.count() > rhs.count()) {
-    zret = -1;
-    n    = rhs.size();
+    zret = 1;
+    n    = rhs.data_size();
   }
   // else the counts are equal therefore @a n and @a zret are already correct.
 
-  int r = std::memcmp(lhs.data(), rhs.data(), n);
+  int r = n ? std::memcmp(lhs.data(), rhs.data(), n) : 0;
   if (0 != r) { // If we got a not-equal, override the size based result.
     zret = r;
   }
@@ -983,29 +983,29 @@ using std::memcmp;
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, MemSpan<T> const &src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.size(), src.size())));
+  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.data_size(), src.data_size())));
 }
 
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, T *src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src, dst.size()));
+  return static_cast<T *>(std::memcpy(dst.data(), src, dst.data_size()));
 }
 
 template <typename T>
 T *
 memcpy(T *dst, MemSpan<T> &src) {
-  return static_cast<T *>(std::memcpy(dst, src.data(), src.size()));
+  return static_cast<T *>(std::memcpy(dst, src.data(), src.data_size()));
 }
 
 inline char *
 memcpy(MemSpan<char> &span, std::string_view view) {
-  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(view.size(), view.size())));
+  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(span.size(), view.size())));
 }
 
 inline void *
 memcpy(MemSpan<void> &span, std::string_view view) {
-  return std::memcpy(span.data(), view.data(), std::min(view.size(), view.size()));
+  return std::memcpy(span.data(), view.data(), std::min(span.size(), view.size()));
 }
 
 using std::memcpy;
-- 
2.43.0


From 2eac3c62c16525295716fe7b57a16db6b66fed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 77/90] fix: A span of constant elements could not be assigned
 to a constant void span

---
 code/include/swoc/MemSpan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 534c6c1..1ad795a 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1399,7 +1399,7 @@ MemSpan<void const>::empty() const {
 template <typename U>
 auto
 MemSpan<void const>::operator=(MemSpan<U> const &that) -> self_type & {
-  _ptr  = that._ptr;
+  _ptr  = const_cast<std::remove_const_t<U> *>(that._ptr);
   _size = sizeof(U) * that.size();
   return *this;
 }
-- 
2.43.0


From b4a2e624c390baac084fd77672514a76b8f12c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 78/90] fix: Negative values were rounded in the wrong
 direction

---
 code/include/swoc/Scalar.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 339daf3..bcdbe32 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -47,11 +47,11 @@ scale_conversion_round_up(C c) {
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num + (0 != c % R::num); // N is a multiple of S.
+    return c / R::num + (c % R::num > 0); // N is a multiple of S. Division truncates, which is up for negative counts.
   } else if constexpr (R::num == 1) {
     return c * R::den; // S is a multiple of N.
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (0 != (c % R::num));
+  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (c % R::num > 0);
 }
 
 // Convert a count @a c that is scale @a S to scale @c N
@@ -62,11 +62,11 @@ scale_conversion_round_down(C c) {
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num; // N = k S
+    return c / R::num - (c % R::num < 0); // N = k S. Division truncates, which is up for negative counts.
   } else if constexpr (R::num == 1) {
     return c * R::den; // S = k N
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num;
+  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num - (c % R::num < 0);
 }
 
 /* Helper classes for @c Scalar
@@ -104,7 +104,7 @@ template <typename C> struct scalar_unit_round_up_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N + (0 != (_n % N)));
+    return static_cast<I>(_n / N + (_n % N > 0));
   }
 };
 
@@ -115,7 +115,7 @@ template <typename C> struct scalar_unit_round_down_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N);
+    return static_cast<I>(_n / N - (_n % N < 0));
   }
 };
 
-- 
2.43.0


From 42ce4c87b6d53ce5bf0ea3753048cffabf84a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 79/90] fix: Rounding to a different scale truncated the count
 to the type of the source

---
 code/include/swoc/Scalar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index bcdbe32..931898c 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -41,7 +41,7 @@ namespace detail {
 
 // Convert a count @a c that is scale @a S to scale @c N
 template <intmax_t N, intmax_t S, typename C>
-C
+std::common_type_t<C, intmax_t>
 scale_conversion_round_up(C c) {
   using R = std::ratio<N, S>;
   if constexpr (N == S) {
@@ -56,7 +56,7 @@ scale_conversion_round_up(C c) {
 
 // Convert a count @a c that is scale @a S to scale @c N
 template <intmax_t N, intmax_t S, typename C>
-C
+std::common_type_t<C, intmax_t>
 scale_conversion_round_down(C c) {
   using R = std::ratio<N, S>;
   if constexpr (N == S) {
-- 
2.43.0


From a4eb9b311e06d4cea10aae02f5bd4573fac171ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 80/90] fix: Inequality of scalars compared values that had
 overflowed the counter

---
 code/include/swoc/Scalar.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 931898c..23fe1fb 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -617,6 +617,12 @@ operator==(Scalar<N, C1, T> const &lhs, Scalar<S, I, T> const &rhs) {
   return lhs.count() * R::num == rhs.count() * R::den;
 }
 
+template <intmax_t N, typename C1, intmax_t S, typename I, typename T>
+bool
+operator!=(Scalar<N, C1, T> const &lhs, Scalar<S, I, T> const &rhs) {
+  return !(lhs == rhs);
+}
+
 template <intmax_t N, typename C1, intmax_t S, typename I, typename T>
 bool
 operator<=(Scalar<N, C1, T> const &lhs, Scalar<S, I, T> const &rhs) {
-- 
2.43.0


From 16f1b78dff7f1fbce87ddc4c4653c42f61df13f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 81/90] fix: plus, minus and the sum of a rounded scalar could
 not be used

---
 code/include/swoc/Scalar.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 23fe1fb..78cf3af 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -738,25 +738,25 @@ operator+(Scalar<N, C, T> const &lhs, detail::scalar_unit_round_down_t<I> rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 /// @endcond
 
@@ -861,7 +861,7 @@ operator-(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 
 template <intmax_t N, typename C, typename T>
@@ -873,7 +873,7 @@ operator-(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs)
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 /// @endcond
 
@@ -994,13 +994,13 @@ Scalar<N, C, T>::operator()(Counter n) const -> self_type {
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::plus(Counter n) const -> self_type {
-  return {_n + n};
+  return self_type(_n + n);
 }
 
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::minus(Counter n) const -> self_type {
-  return {_n - n};
+  return self_type(_n - n);
 }
 
 /** Explicitly round @c value up to a multiple of @a N.
-- 
2.43.0


From e4edf1a69871743ede30f9cebacc579818b50149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 82/90] fix: Multiplying a tagged scalar of int was ambiguous

---
 code/include/swoc/Scalar.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 78cf3af..2dae786 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -952,16 +952,16 @@ operator*(int n, Scalar<N, C, T> const &rhs) {
   return Scalar<N, C, T>(rhs) *= n;
 }
 
-template <intmax_t N>
-Scalar<N, int>
-operator*(Scalar<N, int> const &lhs, int n) {
-  return Scalar<N, int>(lhs) *= n;
+template <intmax_t N, typename T>
+Scalar<N, int, T>
+operator*(Scalar<N, int, T> const &lhs, int n) {
+  return Scalar<N, int, T>(lhs) *= n;
 }
 
-template <intmax_t N>
-Scalar<N, int>
-operator*(int n, Scalar<N, int> const &rhs) {
-  return Scalar<N, int>(rhs) *= n;
+template <intmax_t N, typename T>
+Scalar<N, int, T>
+operator*(int n, Scalar<N, int, T> const &rhs) {
+  return Scalar<N, int, T>(rhs) *= n;
 }
 
 template <intmax_t N, typename C, typename T>
-- 
2.43.0


From 1b983419491d4f610723382cb772b1ec2c08b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 83/90] fix: let lost the original value if copying the new
 value failed

---
 code/include/swoc/swoc_meta.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/swoc_meta.h b/code/include/swoc/swoc_meta.h
index 72dffaa..28c6448 100644
--- a/code/include/swoc/swoc_meta.h
+++ b/code/include/swoc/swoc_meta.h
@@ -280,11 +280,12 @@ template <typename T> struct let {
   ~let();
 };
 
-template <typename T> let<T>::let(T &var, T const &value) : _var(var), _value(std::move(var)) {
-  _var = value;
+// The new value is constructed before @a var is touched - if that throws there is no instance to restore @a var.
+template <typename T> let<T>::let(T &var, T const &value) : _var(var), _value(value) {
+  std::swap(_var, _value);
 }
-template <typename T> let<T>::let(T &var, T &&value) : _var(var), _value(std::move(var)) {
-  _var = std::move(value);
+template <typename T> let<T>::let(T &var, T &&value) : _var(var), _value(std::move(value)) {
+  std::swap(_var, _value);
 }
 
 template <typename T> let<T>::~let() {
-- 
2.43.0


From addbf318574bfc3d45665cf713d5160b70fc6621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 84/90] fix: Formatting the family of an address printed a
 number instead of its name

---
 code/src/bw_ip_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_ip_format.cc b/code/src/bw_ip_format.cc
index 2fd66fb..25cb07c 100644
--- a/code/src/bw_ip_format.cc
+++ b/code/src/bw_ip_format.cc
@@ -289,7 +289,7 @@ bwformat(BufferWriter &w, Spec const &spec, IPAddr const &addr) {
     if (spec.has_numeric_type()) {
       bwformat(w, local_spec, static_cast<uintmax_t>(addr.family()));
     } else {
-      swoc::bwformat(w, local_spec, addr.family());
+      swoc::bwformat(w, local_spec, IPEndpoint::family_name(addr.family()));
     }
   }
   return w;
-- 
2.43.0


From e6c02c3b9ed69b8d254b51510beea7b1e3b06f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 85/90] fix: The parent of a path without a separator was the
 path itself

---
 code/src/swoc_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 5b1c031..9c97bac 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -23,6 +23,9 @@ namespace file {
 path
 path::parent_path() const {
   TextView parent{_path};
+  if (parent.find(SEPARATOR) == TextView::npos) {
+    return {}; // A single name - it is in the current directory.
+  }
   parent.split_suffix_at(SEPARATOR);
   return parent ? parent : "/"_tv;
 }
-- 
2.43.0


From 406b8f4aae866b760213afc227adfefd308e2a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 86/90] fix: The relative path of a path with several leading
 separators was absolute

---
 code/src/swoc_file.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 9c97bac..79ad304 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -32,10 +32,8 @@ path::parent_path() const {
 
 path
 path::relative_path() const {
-  if (!_path.empty() && _path.front() == SEPARATOR) {
-    return _path.substr(1);
-  }
-  return *this;
+  auto const idx = _path.find_first_not_of(SEPARATOR);
+  return idx == std::string::npos ? self_type{} : self_type{_path.substr(idx)};
 }
 
 auto
-- 
2.43.0


From bee91753841be66e505b3e9488ab3dff92de236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 87/90] fix: Appending a path to itself read released memory

---
 code/src/swoc_file.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 79ad304..7aae7c9 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -6,6 +6,7 @@
     Minimalist version of std::filesystem.
  */
 
+#include <functional>
 #include <memory>
 #include <variant>
 
@@ -44,6 +45,10 @@ path::filename() const -> self_type {
 
 path &
 path::operator/=(std::string_view that) {
+  if (std::less_equal<char const *>()(_path.data(), that.data()) && std::less<char const *>()(that.data(), _path.data() + _path.size())) {
+    std::string const copy{that}; // A view of this path, which may move when extended.
+    return *this /= std::string_view{copy};
+  }
   if (!that.empty()) { // don't waste time appending nothing.
     if (that.front() == SEPARATOR || _path.empty()) {
       _path.assign(that);
-- 
2.43.0


From d549d3dbb24f6c2561e6c146e6a3fb7e9f809779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 88/90] fix: An endpoint made from an invalid address or
 service was not initialized

---
 code/include/swoc/IPEndpoint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/IPEndpoint.h b/code/include/swoc/IPEndpoint.h
index 0cfde9c..f4f17d3 100644
--- a/code/include/swoc/IPEndpoint.h
+++ b/code/include/swoc/IPEndpoint.h
@@ -281,11 +281,11 @@ inline IPEndpoint::IPEndpoint() {
   sa.sa_family = AF_UNSPEC;
 }
 
-inline IPEndpoint::IPEndpoint(IPAddr const &addr) {
+inline IPEndpoint::IPEndpoint(IPAddr const &addr) : self_type() {
   this->assign(addr);
 }
 
-inline IPEndpoint::IPEndpoint(IPSrv const &srv) {
+inline IPEndpoint::IPEndpoint(IPSrv const &srv) : self_type() {
   this->assign(srv);
 }
 
-- 
2.43.0


From b6e0a96dd4d4df7b523520fee9203e132bdb3faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 89/90] fix: Assigning a socket address to itself was reported
 as invalid

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 96bc4e7..39cc92d 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -63,7 +63,7 @@ IPEndpoint::assign(sockaddr *dst, sockaddr const *src) {
       memcpy(dst, src, n);
     }
   }
-  return n != 0;
+  return self_type::is_valid(dst);
 }
 
 IPEndpoint &
-- 
2.43.0


From b0cf63a5efe2cb8971c64d77f3ba7788a5c9ee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 90/90] fix: Clearing an annotation left its severity and level

---
 code/include/swoc/Errata.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/Errata.h b/code/include/swoc/Errata.h
index 0ff8ffc..4e0a6ef 100644
--- a/code/include/swoc/Errata.h
+++ b/code/include/swoc/Errata.h
@@ -979,7 +979,9 @@ inline Errata::Annotation::Annotation(std::string_view text, std::optional<Sever
 
 inline Errata::Annotation &
 Errata::Annotation::clear() {
-  _text = std::string_view{};
+  _text  = std::string_view{};
+  _level = 0;
+  _severity.reset();
   return *this;
 }
 
-- 
2.43.0

