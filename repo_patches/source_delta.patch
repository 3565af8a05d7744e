From d4c175b804ee57676a7481effa48889e0e7e8311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 1/5] fix: make the hash library compile without a 128-bit
 integer type

The placeholder mbo_uint128_t = void made the discarded if constexpr branches
of Mult128 and Mul128Fold64 ill-formed, so the documented portable fallback
could not be built at all.
---
 mbo/hash/hash_internal_util.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/hash/hash_internal_util.h b/mbo/hash/hash_internal_util.h
index 7a0024c..f8a32fe 100644
--- a/mbo/hash/hash_internal_util.h
+++ b/mbo/hash/hash_internal_util.h
@@ -179,7 +179,8 @@ __extension__ typedef unsigned __int128 mbo_uint128_t;  // NOLINT(modernize-use-
 inline constexpr bool has_128_bit = true;
 #else
 // Fallback to 64-bit if compiling for a 32-bit system
-using mbo_uint128_t = void;  // Placeholder type, not usable
+// Placeholder only: the discarded `if constexpr` branches below still have to be well-formed, so it must be arithmetic.
+using mbo_uint128_t = uint64_t;
 inline constexpr bool has_128_bit = false;
 #endif
 
-- 
2.43.0


From dfdb3ad3fbbbe4081931092f7c2c60d8b8a0c0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 2/5] fix: mope reports a template it cannot read instead of
 using the failed result

---
 mbo/mope/mope_main.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 3bdca6b..619cce9 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -97,7 +97,7 @@ absl::Status ApplySetFlag(
 }
 
 absl::Status Process(const Options& opts) {
-  auto input = mbo::file::Artefact::Read(opts.template_name);
+  MBO_MOVE_TO_OR_RETURN(mbo::file::Artefact::Read(opts.template_name), auto input);
   mbo::mope::Template mope_template;
   // Add `--set` flag values.
   absl::flat_hash_map<std::string, std::string> context_data;
@@ -110,12 +110,12 @@ absl::Status Process(const Options& opts) {
     MBO_RETURN_IF_ERROR(mope::ReadIniToTemlate(ini_filename, mope_template));
   }
   // Expand the template.
-  MBO_RETURN_IF_ERROR(mope_template.Expand(input->data, mbo::container::MakeConvertingScan(context_data)));
+  MBO_RETURN_IF_ERROR(mope_template.Expand(input.data, mbo::container::MakeConvertingScan(context_data)));
   if (opts.generate_name.empty() || opts.generate_name == "-") {
-    std::cout << input->data;
+    std::cout << input.data;
     return absl::OkStatus();
   }
-  return mbo::file::SetContents(opts.generate_name, input->data);
+  return mbo::file::SetContents(opts.generate_name, input.data);
 }
 
 }  // namespace
-- 
2.43.0


From 57bc077399ac21d9207c7f5f7be03c3b26515017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 3/5] fix: digest and hash_tool report input that cannot be
 read to its end

---
 mbo/digest/digest_main.cc | 42 ++++++++++++++++++++++++++++-----------
 mbo/hash/hash_tool.cc     |  4 ++++
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/mbo/digest/digest_main.cc b/mbo/digest/digest_main.cc
index 3548ede..0c1db2d 100644
--- a/mbo/digest/digest_main.cc
+++ b/mbo/digest/digest_main.cc
@@ -114,22 +114,26 @@ namespace {
 
 namespace fs = std::filesystem;
 
-// Digests a stream in chunks (no whole-file buffering).
+// Digests a stream in chunks (no whole-file buffering). Returns nullopt if the stream
+// could not be read to its end: the digest of a part is not the digest of the file.
 template<typename Algo>
-std::string HexDigestStream(std::istream& input) {
+std::optional<std::string> HexDigestStream(std::istream& input) {
   static constexpr std::size_t kChunkSize = 1ULL << 16U;
   Streamer<Algo> stream;
   std::array<char, kChunkSize> buffer = {};
   while (input.read(buffer.data(), kChunkSize).gcount() > 0) {
     stream.Update(std::string_view(buffer.data(), static_cast<std::size_t>(input.gcount())));
   }
+  if (input.bad()) {
+    return std::nullopt;
+  }
   return ToHexString(stream.Finalize());
 }
 
 // The SHAKE XOFs have no inherent output size; the CLI prints 32 bytes.
 constexpr std::size_t kShakeOutputSize = 32;
 
-using DigestFunc = std::string (*)(std::istream&);
+using DigestFunc = std::optional<std::string> (*)(std::istream&);
 
 struct NamedAlgorithm {
   std::string_view name;
@@ -194,8 +198,9 @@ struct CheckStats {
   std::size_t malformed = 0;
 };
 
-// Verifies all lines of one checksum stream (see the --check flag).
-void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats& stats) {
+// Verifies all lines of one checksum stream (see the --check flag). Returns whether the
+// checksum stream itself could be read to its end.
+bool CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats& stats) {
   const bool quiet = absl::GetFlag(FLAGS_quiet) || absl::GetFlag(FLAGS_status);
   const bool silent = absl::GetFlag(FLAGS_status);
   const bool ignore_missing = absl::GetFlag(FLAGS_ignore_missing);
@@ -211,7 +216,8 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
     }
     const auto [hex, file_name] = *parsed;
     std::ifstream input{fs::path(file_name), std::ios::binary};
-    if (!input) {
+    const std::optional<std::string> digest = input ? algorithm.func(input) : std::nullopt;
+    if (!digest.has_value()) {
       if (!ignore_missing) {
         ++stats.unreadable;
         if (!silent) {
@@ -220,7 +226,7 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
       }
       continue;
     }
-    if (algorithm.func(input) == ToLowerHex(hex)) {
+    if (*digest == ToLowerHex(hex)) {
       ++stats.verified;
       if (!quiet) {
         std::cout << file_name << ": OK\n";
@@ -232,6 +238,7 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
       }
     }
   }
+  return !sums.bad();
 }
 
 // Verifies all checksum files ('-' = stdin); returns the process exit code.
@@ -239,15 +246,17 @@ int RunCheck(const NamedAlgorithm& algorithm, const std::vector<std::string_view
   CheckStats stats;
   for (const std::string_view file_name : files) {
     if (file_name == "-") {
-      CheckStream(algorithm, std::cin, stats);
+      if (!CheckStream(algorithm, std::cin, stats)) {
+        std::cerr << file_name << ": Cannot read checksum file.\n";
+        return 1;
+      }
       continue;
     }
     std::ifstream sums{fs::path(file_name), std::ios::binary};
-    if (!sums) {
+    if (!sums || !CheckStream(algorithm, sums, stats)) {
       std::cerr << file_name << ": Cannot read checksum file.\n";
       return 1;
     }
-    CheckStream(algorithm, sums, stats);
   }
   const bool silent = absl::GetFlag(FLAGS_status);
   auto warn = [&](std::size_t count, std::string_view what) {
@@ -272,9 +281,18 @@ int RunCheck(const NamedAlgorithm& algorithm, const std::vector<std::string_view
 // are reported per file and processing continues (like the coreutils tools).
 int Run(DigestFunc digest, const std::vector<std::string_view>& files) {
   int result = 0;
+  const auto print = [&](std::istream& input, std::string_view file_name) {
+    const std::optional<std::string> hex = digest(input);
+    if (hex.has_value()) {
+      Print(*hex, file_name);
+    } else {
+      std::cerr << file_name << ": Cannot read file.\n";
+      result = 1;
+    }
+  };
   for (const std::string_view file_name : files) {
     if (file_name == "-") {
-      Print(digest(std::cin), file_name);
+      print(std::cin, file_name);
       continue;
     }
     const fs::path path(file_name);
@@ -292,7 +310,7 @@ int Run(DigestFunc digest, const std::vector<std::string_view>& files) {
       result = 1;
       continue;
     }
-    Print(digest(input), file_name);
+    print(input, file_name);
   }
   return result;
 }
diff --git a/mbo/hash/hash_tool.cc b/mbo/hash/hash_tool.cc
index cb11e38..60e39b2 100644
--- a/mbo/hash/hash_tool.cc
+++ b/mbo/hash/hash_tool.cc
@@ -83,5 +83,9 @@ int main(int argc, char** argv) {
   while (std::getline(std::cin, line)) {
     std::cout << absl::StreamFormat("%016X\n", (*hash_fn)(line));
   }
+  if (std::cin.bad()) {
+    std::cerr << "Failed to read standard input.\n";
+    return 1;
+  }
   return 0;
 }
-- 
2.43.0


From 0432a86c368183c3230098daa6a18dfba0fc6d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 4/5] fix: report file system errors instead of throwing them
 out of Readable, Glob and FileSize

---
 mbo/file/file.cc |  6 ++++--
 mbo/file/glob.cc | 21 +++++++++++++++++----
 mbo/file/glob.h  |  4 ++--
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index cbb963a..dae0abb 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -79,10 +79,12 @@ absl::Status SetContents(const std::filesystem::path& file_name, std::string_vie
 }
 
 absl::Status Readable(const std::filesystem::path& file_name) {
-  if (!std::filesystem::exists(file_name)) {
+  std::error_code error;
+  const std::filesystem::file_status status = std::filesystem::status(file_name, error);
+  if (!std::filesystem::exists(status)) {
     return absl::NotFoundError(absl::StrFormat("File does not exist: '%s'", file_name));
   }
-  if (std::filesystem::is_directory(file_name)) {
+  if (std::filesystem::is_directory(status)) {
     return absl::FailedPreconditionError(absl::StrFormat("Cannot open directory for reading: '%s'", file_name));
   }
   // Perform same operation as `GetContents` and use the ifstream constructor
diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index a513b71..905c2e5 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -497,8 +497,12 @@ void FileIteratorDisableRecursionPending(FileIterator& file_iterator) {
 
 template<typename FileIterator>
 absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, const GlobEntryFunc& func) {
-  const fs::path normalized_root = (root.empty() || root == ".") ? fs::current_path() : root.lexically_normal();
   std::error_code error_code;
+  const fs::path normalized_root =
+      (root.empty() || root == ".") ? fs::current_path(error_code) : root.lexically_normal();
+  if (error_code) {
+    return absl::CancelledError(error_code.message());
+  }
   if (!fs::exists(normalized_root, error_code)) {
     return absl::NotFoundError(
         error_code ? error_code.message() : absl::StrFormat("Path does not exist: '%s'.", normalized_root));
@@ -507,7 +511,9 @@ absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, cons
   if (error_code) {
     return absl::CancelledError(error_code.message());
   }
-  for (const fs::directory_entry& entry : it) {
+  // Not a range-for: its `operator++` throws. On error `increment` moves to the end and sets `error_code`.
+  for (const FileIterator end; it != end; it.increment(error_code)) {
+    const fs::directory_entry& entry = *it;
     const GlobEntry glob_entry{
         .rel_path =
             options.use_rel_path ? std::optional<fs::path>{entry.path().lexically_relative(root)} : std::nullopt,
@@ -524,6 +530,9 @@ absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, cons
       }
     }
   }
+  if (error_code) {
+    return absl::CancelledError(error_code.message());
+  }
   return absl::OkStatus();
 }
 
@@ -539,10 +548,14 @@ absl::Status GlobLoop(const fs::path& root, const GlobOptions& options, const Gl
 
 absl::Status GlobRe2(fs::path root, const RE2& regex, const GlobOptions& options, const GlobEntryFunc& func) {
   if (options.use_current_dir) {
+    std::error_code error_code;
     if (root.empty() || root == ".") {
-      root = std::filesystem::current_path();
+      root = fs::current_path(error_code);
     } else if (root.is_relative()) {
-      root = std::filesystem::current_path() / root;
+      root = fs::current_path(error_code) / root;
+    }
+    if (error_code) {
+      return absl::CancelledError(error_code.message());
     }
   }
   const auto wrap_func = [&](const GlobEntry& entry) -> absl::StatusOr<GlobEntryAction> {
diff --git a/mbo/file/glob.h b/mbo/file/glob.h
index 4eccb7e..19cbc91 100644
--- a/mbo/file/glob.h
+++ b/mbo/file/glob.h
@@ -138,10 +138,10 @@ struct GlobEntry : mbo::types::Extend<GlobEntry> {
   // Returns the file's size or 0 if the entry is not a regular file.
   // If the file size cannot be retrieved, then the function also returns 0.
   std::size_t FileSize() const noexcept {
-    if (!entry.is_regular_file()) {
+    std::error_code error;
+    if (!entry.is_regular_file(error)) {
       return 0;
     }
-    std::error_code error;
     const std::size_t result = entry.file_size(error);
     return error ? 0 : result;
   }
-- 
2.43.0


From e3fe5e16a5e0667a2bb8b58d84458ba9f24b0d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 5/5] fix: expanding a mope template leaves nothing behind in
 it

---
 mbo/mope/mope.cc | 16 ++++++++++------
 mbo/mope/mope.h  | 11 +++++++----
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index e9c3407..291644a 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -252,7 +252,11 @@ absl::Status Template::ExpandRangeData(
   return result;
 }
 
-absl::Status Template::ExpandSection(const TagData<Section>& tag, Context& ctx, std::string& output) {
+absl::Status Template::ExpandSection(
+    const TagData<Section>& tag,
+    std::string_view join,
+    Context& ctx,
+    std::string& output) {
   const std::string original(std::move(output));
   output = "";
   bool first = true;
@@ -260,7 +264,7 @@ absl::Status Template::ExpandSection(const TagData<Section>& tag, Context& ctx,
     std::string result(original);
     MBO_RETURN_IF_ERROR(section.ExpandInternal(ctx, result));
     if (!first) {
-      output.append(tag.data.join);
+      output.append(join);
     }
     first = false;
     output.append(result);
@@ -349,12 +353,12 @@ absl::Status Template::ExpandSectionTag(const TagInfo& tag, Context& ctx, std::s
         .remove_quotes = true,
         .allow_unquoted = false,
     };
-    std::string_view join;
+    std::string_view option;
     if (tag.option.has_value()) {
-      join = *tag.option;
+      option = *tag.option;
     }
-    MBO_ASSIGN_OR_RETURN(section->data.join, ParseString(kOptions, join));
-    return ExpandSection(*section, ctx, output);
+    MBO_ASSIGN_OR_RETURN(const std::string join, ParseString(kOptions, option));
+    return ExpandSection(*section, join, ctx, output);
   }
   static constexpr LazyRE2 kReFor = {
       .pattern_ =
diff --git a/mbo/mope/mope.h b/mbo/mope/mope.h
index 0100016..73ee77f 100644
--- a/mbo/mope/mope.h
+++ b/mbo/mope/mope.h
@@ -84,7 +84,6 @@ class Template {
   };
 
   struct Section {
-    mutable std::string join;
     std::vector<Template> dictionary;
   };
 
@@ -93,8 +92,8 @@ class Template {
     int end = 0;
     int step = 1;
     std::string join;
-    mutable bool expanding = false;
-    mutable int curr = 0;
+    bool expanding = false;
+    int curr = 0;
   };
 
   struct RangeData : mbo::types::Extend<RangeData> {
@@ -157,7 +156,11 @@ class Template {
 
   absl::Status ExpandInternal(Context& ctx, std::string& output) const;
 
-  static absl::Status ExpandSection(const TagData<Section>& tag, Context& ctx, std::string& output);
+  static absl::Status ExpandSection(
+      const TagData<Section>& tag,
+      std::string_view join,
+      Context& ctx,
+      std::string& output);
 
   template<typename Sink>
   friend void AbslStringify(Sink& /*sink*/, TagType /*tag*/);
-- 
2.43.0

