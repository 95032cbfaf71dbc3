From c12031aa52583a30275b64486e1a9559c9e5a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 01/26] fix: moved-from stream_writer no longer flushes again

The defaulted move constructor copied buf_pos_, so the moved-from writer's
destructor flushed buf_pos_ records out of an empty buffer.
---
 include/flat_file.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 72e12d6..92c5533 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -67,7 +67,9 @@ public:
   stream_writer(const stream_writer& other)            = delete;
   stream_writer& operator=(const stream_writer& other) = delete;
 
-  stream_writer(stream_writer&& other) noexcept            = default;
+  // the moved from writer must be left with nothing to flush
+  stream_writer(stream_writer&& other) noexcept
+      : db_(other.db_), buf_pos_(std::exchange(other.buf_pos_, 0)), buf_(std::move(other.buf_)) {}
   stream_writer& operator=(stream_writer&& other) noexcept = default;
 
   ~stream_writer() { flush(); }
-- 
2.43.0


From 800a460c6b874e3db548807552f6a5ae507b4d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 02/26] fix: flat_file iterators no longer return records from
 a reloaded buffer

An iterator cached a pointer into the database's buffer. After another
iterator of the same database had reloaded the buffer, it silently returned
some other record.
---
 include/flat_file.hpp | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 92c5533..db121b0 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -172,7 +172,7 @@ struct database<ValueType>::const_iterator {
 
   // clang-format off
   reference operator*() const { return current(); }
-  pointer   operator->() const { current(); return cur_; }
+  pointer   operator->() const { return &current(); }
 
   bool operator==(const const_iterator& other) const { return ffdb_ == other.ffdb_ && pos_ == other.pos_; }
   
@@ -198,22 +198,11 @@ struct database<ValueType>::const_iterator {
 private:
   database*   ffdb_ = nullptr;
   std::size_t pos_{};
-  // cur_ and cur_valid_ are mutable so that operator* can be const
-  mutable const value_type* cur_;
-  mutable bool              cur_valid_ = false;
 
-  void set_pos(std::size_t pos) {
-    pos_       = pos;
-    cur_valid_ = false;
-  }
+  void set_pos(std::size_t pos) { pos_ = pos; }
 
-  reference current() const {
-    if (!cur_valid_) {
-      cur_       = &ffdb_->get_record(pos_);
-      cur_valid_ = true;
-    }
-    return *cur_;
-  }
+  // always ask the database, its buffer may have been reloaded through another iterator
+  reference current() const { return ffdb_->get_record(pos_); }
 };
 
 template <typename ValueType, typename Comp = std::less<>, typename Proj = std::identity>
-- 
2.43.0


From 627e3818b4569aef3016a099c6a3058622abd219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 03/26] fix: a refused access past the end of a flat_file no
 longer poisons later ones

Positions beyond the end wrapped around the remaining record count, made the
stream fail, and every later buffer reload failed as well.
---
 include/flat_file.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index db121b0..f4040a2 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -121,11 +121,11 @@ public:
 
   const ValueType& get_record(std::size_t pos) {
     if (!(pos >= buf_start_ && pos < buf_end_)) { // NOLINT can be simplified
-      const std::size_t nrecs = std::min(buf_.size(), dbsize_ - pos);
-      if (nrecs == 0) {
+      if (pos >= dbsize_ || buf_.empty()) {
         throw std::runtime_error(
             "flat_file:get_record cannot return data, are you dereferencing db.end()?");
       }
+      const std::size_t nrecs = std::min(buf_.size(), dbsize_ - pos);
       db_.seekg(static_cast<std::streamoff>(pos * sizeof(ValueType)));
 
       db_.read(reinterpret_cast<char*>(buf_.data()), // NOLINT reinterpret_cast
-- 
2.43.0


From 463f4c03f1f27aac43c83f5f089c48d29930ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 04/26] fix: building a table of contents twice in one process
 no longer appends to the old one

---
 src/toc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toc.cpp b/src/toc.cpp
index d7d5b2b..734b1c6 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -63,6 +63,7 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
                            toc_entry_size);
   std::cout << fmt::format("{:30s} {:15.0f} per query\n", "Max disk reads with ToC",
                            std::ceil(std::log2(toc_entry_size)));
+  toc<PwType>.clear(); // there may be one from an earlier build
   toc<PwType>.reserve(toc_entries);
 
   toc_entry last_pos = 0;
-- 
2.43.0


From 5e629d0b562d790d830c652e1efb8d729ed3ed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 05/26] fix: an interrupted or failed save no longer leaves a
 partial table of contents

The partial file was newer than the database, so later runs loaded it and
reported present passwords as not found.
---
 src/toc.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index 734b1c6..1136070 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -17,6 +17,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <vector>
 
 namespace hibp {
@@ -90,9 +91,21 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
 template <pw_type PwType>
 void save(const std::filesystem::path& toc_filename) {
   std::cout << fmt::format("saving table of contents: {}\n", toc_filename);
-  auto toc_stream = std::ofstream(toc_filename, std::ios_base::binary);
+  // rename when complete, a later run must never load a partially written file
+  auto tmp_filename = toc_filename;
+  tmp_filename += ".tmp";
+  auto toc_stream = std::ofstream(tmp_filename, std::ios_base::binary);
   toc_stream.write(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
                    static_cast<std::streamsize>(sizeof(toc_entry) * toc<PwType>.size()));
+  toc_stream.close();
+  std::error_code ec;
+  if (toc_stream) {
+    std::filesystem::rename(tmp_filename, toc_filename, ec);
+  }
+  if (!toc_stream || ec) {
+    std::cout << "Warning: could not save table of contents.\n";
+    std::filesystem::remove(tmp_filename, ec);
+  }
 }
 
 template <pw_type PwType>
-- 
2.43.0


From 2a72a81a0deea98a274ec4bcf5a8b73d1535c0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 06/26] fix: disksort file names no longer depend on how fmt
 prints a path

With fmt 9 a path is printed in quotes, so sorting any file given with a
directory failed to open its chunk files.
---
 include/flat_file.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index f4040a2..c43068b 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -224,7 +224,7 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
   std::vector<std::string> chunk_filenames;
   chunk_filenames.reserve(number_of_chunks);
   for (std::size_t chunk = 0; chunk != number_of_chunks; ++chunk) {
-    std::string chunk_filename = fmt::format("{}.partial.{:04d}", first.filename(), chunk);
+    std::string chunk_filename = fmt::format("{}.partial.{:04d}", first.filename().string(), chunk);
     chunk_filenames.push_back(chunk_filename);
 
     std::size_t start = chunk * chunk_size;
@@ -309,7 +309,7 @@ std::string disksort_range(typename database<ValueType>::const_iterator first,
   std::vector<std::string> chunk_filenames =
       sort_into_chunks<ValueType>(first, last, comp, proj, max_memory_usage);
 
-  std::string sorted_filename = fmt::format("{}.sorted", first.filename());
+  std::string sorted_filename = fmt::format("{}.sorted", first.filename().string());
 
   if (chunk_filenames.size() == 1) {
     std::filesystem::rename(chunk_filenames[0], sorted_filename);
-- 
2.43.0


From 25f946192b439ebc1b257bf40c43a8d2ef930f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 07/26] fix: disksort no longer divides by zero for an empty
 database or a tiny memory limit

---
 include/flat_file.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index c43068b..2d85736 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -212,7 +212,9 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
                                           std::size_t max_memory_usage = 1'000'000'000) {
 
   auto        records_to_sort = static_cast<std::size_t>(last - first);
-  std::size_t chunk_size      = std::min(records_to_sort, max_memory_usage / sizeof(ValueType));
+  // at least 1, there may be no records or not enough memory for even one
+  std::size_t chunk_size = std::max<std::size_t>(
+      std::min(records_to_sort, max_memory_usage / sizeof(ValueType)), 1);
   std::size_t number_of_chunks =
       (records_to_sort / chunk_size) + static_cast<std::size_t>(records_to_sort % chunk_size != 0);
 
-- 
2.43.0


From d83222cf927d083b30da930a2be81a73c4085f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 08/26] fix: comparator of the disksort merge queue is a strict
 weak ordering

The negated comparison is true for equal records, which std::priority_queue
does not allow (rejected by _GLIBCXX_DEBUG as soon as two records are equal).
---
 include/flat_file.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 2d85736..46dcf22 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -275,9 +275,10 @@ void merge_sorted_chunks(const std::vector<std::string>& chunk_filenames,
     std::size_t idx; // index into chunks to know where I came from
   };
 
-  // Comparator for the priority queue. Negation because priority queue is "max" by default.
+  // Comparator for the priority queue. Arguments swapped because priority queue is "max" by
+  // default. Negation would not be a strict weak ordering.
   auto cmp = [&](const auto& a, const auto& b) {
-    return !comp(std::invoke(proj, a.value), std::invoke(proj, b.value));
+    return comp(std::invoke(proj, b.value), std::invoke(proj, a.value));
   };
 
   std::priority_queue<head, std::vector<head>, decltype(cmp)> heads(cmp);
-- 
2.43.0


From ff47f1937c5422eb578d3363ec5ddea757d4da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 09/26] fix: topn --stdout no longer mixes progress messages
 into the database

---
 app/hibp_topn.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index fef4656..709c14f 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -90,7 +90,10 @@ void build_topn(const cli_config_t& cli) {
   }
   std::vector<PwType> memdb(cli.topn);
 
-  std::cout << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
+  // stdout may be the output db, then progress goes to stderr
+  std::ostream& progress = cli.standard_output ? std::cerr : std::cout;
+
+  progress << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
 
   using clk   = std::chrono::high_resolution_clock;
   using fsecs = std::chrono::duration<double>;
@@ -105,9 +108,9 @@ void build_topn(const cli_config_t& cli) {
                            return a.count > b.count;
                          });
 
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 
-  std::cout << fmt::format("{:50}", "Sort by hash ascending ...");
+  progress << fmt::format("{:50}", "Sort by hash ascending ...");
   start = clk::now();
   // default sort by hash ascending
   std::sort(
@@ -115,15 +118,15 @@ void build_topn(const cli_config_t& cli) {
       std::execution::par_unseq,
 #endif
       memdb.begin(), memdb.end());
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 
   start = clk::now();
-  std::cout << fmt::format("{:50}", "Write TopN db to disk ...");
+  progress << fmt::format("{:50}", "Write TopN db to disk ...");
   auto output_db = flat_file::stream_writer<PwType>(*output_stream);
   for (const auto& pw: memdb) {
     output_db.write(pw);
   }
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 }
 
 int main(int argc, char* argv[]) {
-- 
2.43.0


From cc61a15950e05298c6520cc7a525a45d46c56fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 10/26] fix: convert --bin-to-txt --limit 0 no longer converts
 everything

---
 app/hibp_convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 0ea2dfb..0540740 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -97,9 +97,9 @@ void bin_to_txt(const std::string& input_filename, std::ostream& output_stream,
 
   std::size_t count = 0;
   for (const auto& record: db) {
+    if (count == limit) break;
     output_stream << record << '\n';
     count++;
-    if (count == limit) break;
   }
 }
 
-- 
2.43.0


From 97c07ded381a641e71f502a8628448e3c12880f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 11/26] fix: dupes no longer reports a first record whose
 leading bits are all ones

---
 app/hibp_dupes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/hibp_dupes.cpp b/app/hibp_dupes.cpp
index 950ba70..e7b63fb 100644
--- a/app/hibp_dupes.cpp
+++ b/app/hibp_dupes.cpp
@@ -8,6 +8,7 @@
 #include <fmt/chrono.h> // IWYU pragma: keep
 #include <fmt/format.h>
 #include <iostream>
+#include <optional>
 #include <string>
 // #include <unordered_set>
 
@@ -37,7 +38,7 @@ void run_search(const cli_config_t& cli) {
   flat_file::database<PwType> db(cli.db_filename, (1U << 16U) / sizeof(PwType));
 
   std::cout << fmt::format("Looking for duplicates in the first {} bits of the hash...\n", cli.bits);
-  std::uint64_t last = -1;
+  std::optional<std::uint64_t> last; // none before the first record
   for (auto& pw: db) {
     auto prefix = arrcmp::impl::bytearray_cast<std::uint64_t>(pw.hash.data()) >> (64 - cli.bits);
     if (prefix == last) {
-- 
2.43.0


From 499458cc40d9d7b6e91bc1a3cc6fe50a832ada52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 12/26] fix: diff no longer refuses adjacent inserts or an
 insert before an update

---
 src/diffutils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffutils.cpp b/src/diffutils.cpp
index 4a6c34e..dc42bde 100644
--- a/src/diffutils.cpp
+++ b/src/diffutils.cpp
@@ -60,9 +60,9 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
         deep_equals(*std::next(diff_iter_old), *diff_iter_new)) {
       throw std::runtime_error("Deletion from OLD");
     }
-    // fine to dereference std::next(new)
-    if (std::next(diff_iter_new) != db_new.end() &&
-        deep_equals(*diff_iter_old, *std::next(diff_iter_new))) {
+    // both are sorted: a smaller hash in NEW is not in OLD. Don't compare old with the next of NEW,
+    // which may be another insert or an update
+    if (*diff_iter_new < *diff_iter_old) {
       const hunk h{hunk_type::insert, static_cast<unsigned>(diff_iter_old - db_old.begin()),
              *diff_iter_new};
       diff << h << '\n';
-- 
2.43.0


From a4a194b0e75d616f3e3af308c9d15e66dbe39c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 13/26] fix: an empty CRLF line of a range response no longer
 becomes a record

---
 src/dnl/queuemgt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnl/queuemgt.cpp b/src/dnl/queuemgt.cpp
index 0a1df6a..fb1f157 100644
--- a/src/dnl/queuemgt.cpp
+++ b/src/dnl/queuemgt.cpp
@@ -107,9 +107,9 @@ std::size_t write_lines(write_fn_t& write_fn, download& dl) {
   auto recordcount = 0UL;
 
   for (std::string line, prefixed_line; std::getline(ss, line);) {
+    line.erase(line.find_last_not_of('\r') + 1);
     if (!line.empty()) {
       prefixed_line = dl.prefix + line;
-      prefixed_line.erase(prefixed_line.find_last_not_of('\r') + 1);
 
       // calls text_writer or hibp_ff_sw, the latter via implicit conversion
       write_fn(prefixed_line);
-- 
2.43.0


From 6d876a31a870bec378c2422387815b311539bfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 14/26] fix: a text record shorter than its hash is refused
 instead of read out of bounds

---
 include/hibp.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/hibp.hpp b/include/hibp.hpp
index c9b9e31..db23535 100644
--- a/include/hibp.hpp
+++ b/include/hibp.hpp
@@ -9,6 +9,7 @@
 #include <cstdint>
 #include <fmt/format.h>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 
@@ -52,7 +53,10 @@ struct pawned_pw {
   pawned_pw() = default;
 
   explicit pawned_pw(const std::string& text) {
-    assert(text.length() >= hash_str_size);
+    if (text.length() < hash_str_size) {
+      throw std::runtime_error(
+          fmt::format("'{}' is too short for a hash of {} characters", text, hash_str_size));
+    }
     std::size_t i = 0;
     for (auto& b: hash) {
       b = detail::make_byte(&text[2 * i]);
-- 
2.43.0


From 35a6ae11e27c89495e886340b57b2515db21b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 15/26] fix: --parallel-max 0 no longer reports success without
 downloading anything

---
 app/hibp_download.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/hibp_download.cpp b/app/hibp_download.cpp
index 8bbc98e..7975187 100644
--- a/app/hibp_download.cpp
+++ b/app/hibp_download.cpp
@@ -85,6 +85,10 @@ void check_options(const hibp::dnl::cli_config_t& cli) {
     throw std::runtime_error("can't use `--ntlm` and `--sha1t64` together");
   }
 
+  if (cli.parallel_max == 0) {
+    throw std::runtime_error("`--parallel-max` must be at least 1");
+  }
+
   if (!cli.resume && !cli.force && std::filesystem::exists(cli.output_db_filename)) {
     throw std::runtime_error(fmt::format("File '{}' exists. Use `--force` to overwrite, or "
                                          "`--resume` to resume a previous download.",
-- 
2.43.0


From 26afe060f9f9c690007110fe119b31376e4356de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 16/26] fix: resume of a sha1t64 download compares the start of
 the last hash

---
 src/dnl/resume.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dnl/resume.cpp b/src/dnl/resume.cpp
index d31a6be..2915411 100644
--- a/src/dnl/resume.cpp
+++ b/src/dnl/resume.cpp
@@ -42,8 +42,10 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
     throw std::runtime_error(fmt::format("Corrupt last file download with prefix '{}'.", prefix));
   }
 
-  auto last_file_hash =
-      filebody.substr(pos_colon - PwType::suffix_str_size, PwType::suffix_str_size);
+  // from the start of the last line, because a sha1t64 hash is shorter than the one in the file
+  auto pos_newline    = filebody.find_last_of('\n', pos_colon);
+  auto pos_last_line  = pos_newline == std::string::npos ? 0 : pos_newline + 1;
+  auto last_file_hash = filebody.substr(pos_last_line, PwType::suffix_str_size);
 
   if (last_file_hash == suffix) {
     std::size_t last_prefix{};
-- 
2.43.0


From bc722b0e31d88419840c584e0524ce0b0ff4c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 17/26] fix: a saved table of contents of odd size no longer
 overruns the table when loaded

---
 src/toc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toc.cpp b/src/toc.cpp
index 1136070..c954154 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -112,6 +112,9 @@ template <pw_type PwType>
 void load(const std::filesystem::path& toc_filename) {
   std::cout << fmt::format("loading table of contents: {}\n", toc_filename);
   const auto toc_file_size = std::filesystem::file_size(toc_filename);
+  if (toc_file_size % sizeof(toc_entry) != 0) {
+    throw std::runtime_error(fmt::format("{} is not a whole number of entries", toc_filename));
+  }
   auto       toc_stream    = std::ifstream(toc_filename, std::ios_base::binary);
   toc<PwType>              = std::vector<toc_entry>(toc_file_size / sizeof(toc_entry));
   toc_stream.read(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
-- 
2.43.0


From db8ff704ff2ed426985b24fec6812fe4bbb53ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 18/26] fix: the server decodes percent-encoded passwords

---
 src/srv/server.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index 41e932b..e4b1fa1 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -5,6 +5,8 @@
 #include "toc.hpp"
 #include <algorithm>
 #include <atomic>
+#include <charconv>
+#include <cstddef>
 #include <cstdlib>
 #include <exception>
 #include <fmt/format.h>
@@ -56,6 +58,23 @@ auto bad_request(const std::string& msg, auto req) {
       .done();
 }
 
+// route parameters are still percent-encoded. '+' is an ordinary character in a path
+std::string percent_decode(const std::string& encoded) {
+  std::string decoded;
+  for (std::size_t i = 0; i < encoded.size(); ++i) {
+    unsigned char chr   = 0;
+    const char*   first = encoded.data() + i + 1;
+    if (encoded[i] == '%' && encoded.size() - i > 2 &&
+        std::from_chars(first, first + 2, chr, 16).ptr == first + 2) {
+      decoded += static_cast<char>(chr);
+      i += 2;
+    } else {
+      decoded += encoded[i];
+    }
+  }
+  return decoded;
+}
+
 auto fail_missing_db_for_format(auto req, const std::string& option, const std::string& endpoint) {
   return bad_request("You need to pass " + option + " for a " + endpoint + " request.", req);
 }
@@ -117,14 +136,15 @@ auto get_router(const std::string& sha1_db_filename, const std::string& ntlm_db_
       const std::string password{params["password"]};
 
       if (params["format"] == "plain") {
+        const std::string plain_password = percent_decode(password);
         if (sha1_db) {
-          return handle_plain_search(*sha1_db, password, req);
+          return handle_plain_search(*sha1_db, plain_password, req);
         }
         if (ntlm_db) {
-          return handle_plain_search(*ntlm_db, password, req);
+          return handle_plain_search(*ntlm_db, plain_password, req);
         }
         if (sha1t64_db) {
-          return handle_plain_search(*sha1t64_db, password, req);
+          return handle_plain_search(*sha1t64_db, plain_password, req);
         }
         return fail_missing_db_for_format(req, "--sha1-db, --sha1t64-db or --ntlm-db",
                                           "/check/plain");
-- 
2.43.0


From 91487e42f997b5b428db11fd9107dff59324aede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 19/26] fix: sort no longer reports success when its output
 could not be written

---
 include/flat_file.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 46dcf22..eaee269 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -54,9 +54,10 @@ public:
 
   void flush(bool flush_stream = false) {
     if (buf_pos_ != 0) {
+      // nothing left to flush, also if this throws: the destructor must not throw again
+      const std::size_t nrecs = std::exchange(buf_pos_, 0);
       db_.write(reinterpret_cast<char*>(buf_.data()), // NOLINT reincast
-                static_cast<std::streamsize>(sizeof(ValueType) * buf_pos_));
-      buf_pos_ = 0;
+                static_cast<std::streamsize>(sizeof(ValueType) * nrecs));
       if (flush_stream) {
         db_.flush();
       }
@@ -246,6 +247,7 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
         });
     auto part = file_writer<ValueType>(chunk_filename);
     for (const auto& obj: objs) part.write(obj);
+    part.flush(true); // report errors
   }
   return chunk_filenames;
 }
@@ -300,6 +302,7 @@ void merge_sorted_chunks(const std::vector<std::string>& chunk_filenames,
       ++(chunk.current);
     }
   }
+  sorted.flush(true); // report errors before the chunks are removed
 
   for (const auto& filename: chunk_filenames) std::filesystem::remove(filename);
 }
-- 
2.43.0


From d4efd0565c2d23c66e03b6b63ab80d762d8a0fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 20/26] fix: topn no longer reports success when its output
 could not be written

---
 app/hibp_topn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index 709c14f..9e8ccca 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -126,6 +126,7 @@ void build_topn(const cli_config_t& cli) {
   for (const auto& pw: memdb) {
     output_db.write(pw);
   }
+  output_db.flush(true); // report errors
   progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 }
 
-- 
2.43.0


From da38c47c2c52fd069b95a83ad15e8756bd087fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 21/26] fix: convert no longer reports success when its output
 could not be written

---
 app/hibp_convert.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 0540740..0c6fe2d 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -88,6 +88,7 @@ void txt_to_bin(std::istream& input_stream, std::ostream& output_stream, std::si
   for (std::string line; std::getline(input_stream, line) && count != limit; count++) {
     writer.write(PwType{line});
   }
+  writer.flush(true); // report errors
 }
 
 template <hibp::pw_type PwType>
@@ -101,6 +102,9 @@ void bin_to_txt(const std::string& input_filename, std::ostream& output_stream,
     output_stream << record << '\n';
     count++;
   }
+  if (!output_stream.flush()) {
+    throw std::runtime_error("Error writing the output.");
+  }
 }
 
 void check_options(const cli_config_t& cli) {
-- 
2.43.0


From 11aafc89fe02335098ce4a94a57848bf858d6499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 22/26] fix: download no longer reports success when its output
 could not be written

---
 app/hibp_download.cpp    | 3 ++-
 include/dnl/queuemgt.hpp | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/app/hibp_download.cpp b/app/hibp_download.cpp
index 7975187..b67c534 100644
--- a/app/hibp_download.cpp
+++ b/app/hibp_download.cpp
@@ -65,6 +65,7 @@ void launch(std::ofstream& output_db_stream, const hibp::dnl::cli_config_t& cli,
   auto ffsw = flat_file::stream_writer<PwType>(output_db_stream, 10'000);
   hibp::dnl::run([&](const std::string& line) { ffsw.write(PwType{line}); }, start_index,
                  cli.testing);
+  ffsw.flush(true); // report errors
 }
 
 template <hibp::pw_type PwType>
@@ -140,7 +141,7 @@ int main(int argc, char* argv[]) {
     if (cli.txt_out) {
       auto tw = hibp::dnl::text_writer(output_db_stream);
       hibp::dnl::run([&](const std::string& line) { tw.write(line); }, start_index, cli.testing);
-
+      output_db_stream.flush();
     } else {
       if (cli.ntlm) {
         launch<hibp::pawned_pw_ntlm>(output_db_stream, cli, start_index);
diff --git a/include/dnl/queuemgt.hpp b/include/dnl/queuemgt.hpp
index 3faae13..6c3e99a 100644
--- a/include/dnl/queuemgt.hpp
+++ b/include/dnl/queuemgt.hpp
@@ -10,7 +10,9 @@ namespace hibp::dnl {
 // alternative simple text writer
 
 struct text_writer {
-  explicit text_writer(std::ostream& os) : os_(os) {}
+  explicit text_writer(std::ostream& os) : os_(os) {
+    os_.exceptions(std::ios::badbit | std::ios::failbit); // report errors
+  }
   void write(const std::string& line) {
     os_.write(line.c_str(), static_cast<std::streamsize>(line.length()));
     os_.write("\n", 1);
-- 
2.43.0


From 87755d30e8a009dfdad82e7e17805effd69fa935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 23/26] fix: a failed read of a flat_file no longer leaves
 wrong records in its buffer

---
 include/flat_file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index eaee269..90c9943 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -127,6 +127,7 @@ public:
             "flat_file:get_record cannot return data, are you dereferencing db.end()?");
       }
       const std::size_t nrecs = std::min(buf_.size(), dbsize_ - pos);
+      buf_end_ = buf_start_; // a failing read leaves nothing valid in the buffer
       db_.seekg(static_cast<std::streamoff>(pos * sizeof(ValueType)));
 
       db_.read(reinterpret_cast<char*>(buf_.data()), // NOLINT reinterpret_cast
-- 
2.43.0


From 087812c1c001fda6ebd509a1230b691d6fbd401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 24/26] fix: flush(true) of a stream_writer flushes the stream
 even when its own buffer is empty

---
 include/flat_file.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 90c9943..7c262c1 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -58,9 +58,9 @@ public:
       const std::size_t nrecs = std::exchange(buf_pos_, 0);
       db_.write(reinterpret_cast<char*>(buf_.data()), // NOLINT reincast
                 static_cast<std::streamsize>(sizeof(ValueType) * nrecs));
-      if (flush_stream) {
-        db_.flush();
-      }
+    }
+    if (flush_stream) {
+      db_.flush();
     }
   }
 
-- 
2.43.0


From ac72d7aae7561de286cbe69fbac4d189c8c35faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 25/26] fix: a saved table of contents that cannot be read is
 an error, not a table of zeros

---
 src/toc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toc.cpp b/src/toc.cpp
index c954154..8de9b4f 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -119,6 +119,9 @@ void load(const std::filesystem::path& toc_filename) {
   toc<PwType>              = std::vector<toc_entry>(toc_file_size / sizeof(toc_entry));
   toc_stream.read(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
                   static_cast<std::streamsize>(toc_file_size));
+  if (!toc_stream) {
+    throw std::runtime_error(fmt::format("could not read table of contents {}", toc_filename));
+  }
 }
 
 template <pw_type PwType>
-- 
2.43.0


From 5e2ef4ee223d87fa72a91fc764f84246b31bddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:26 +0000
Subject: [PATCH 26/26] fix: position of a difference does not wrap at 2^32
 records

---
 src/diffutils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/diffutils.cpp b/src/diffutils.cpp
index dc42bde..07c443b 100644
--- a/src/diffutils.cpp
+++ b/src/diffutils.cpp
@@ -16,9 +16,9 @@ enum class hunk_type : char { update = 'U', insert = 'I' };
 
 template <hibp::pw_type PwType>
 struct hunk {
-  hunk_type type;
-  unsigned  pos;
-  PwType    pw;
+  hunk_type   type;
+  std::size_t pos;
+  PwType      pw;
 
   friend std::ostream& operator<<(std::ostream& os, const hunk& h) {
     return os << fmt::format("{}:{:08X}:{}", static_cast<std::underlying_type_t<hunk_type>>(h.type),
@@ -43,7 +43,7 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
       // OLD was shorter..
       // copy rest of new into diff as inserts
       while (diff_iter_new != db_new.end()) {
-        const hunk h{hunk_type::insert, static_cast<unsigned>(diff_iter_old - db_old.begin()),
+        const hunk h{hunk_type::insert, static_cast<std::size_t>(diff_iter_old - db_old.begin()),
                *diff_iter_new};
         diff << h << '\n';
 
@@ -63,7 +63,7 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
     // both are sorted: a smaller hash in NEW is not in OLD. Don't compare old with the next of NEW,
     // which may be another insert or an update
     if (*diff_iter_new < *diff_iter_old) {
-      const hunk h{hunk_type::insert, static_cast<unsigned>(diff_iter_old - db_old.begin()),
+      const hunk h{hunk_type::insert, static_cast<std::size_t>(diff_iter_old - db_old.begin()),
              *diff_iter_new};
       diff << h << '\n';
       old_begin = diff_iter_old;
@@ -73,7 +73,7 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
     if (*diff_iter_old != *diff_iter_new) { // comparing hash only
       throw std::runtime_error("Replacement implies deletion");
     }
-    const hunk h{hunk_type::update, static_cast<unsigned>(diff_iter_old - db_old.begin()),
+    const hunk h{hunk_type::update, static_cast<std::size_t>(diff_iter_old - db_old.begin()),
            *diff_iter_new};
     diff << h << '\n';
     old_begin = diff_iter_old + 1;
-- 
2.43.0

