From 79f1891d7a7fbcc0353c49e92dee3ef99d3a9d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 01/12] fix: report failure when the output can't be written

A full disk or a failing write, flush or close of the output was ignored
and the command exited 0 with a cut off document.
---
 stl-to-ps/stl-to-ps-main.cc | 4 ++++
 stl-to-ps/stl-to-ps.cc      | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/stl-to-ps/stl-to-ps-main.cc b/stl-to-ps/stl-to-ps-main.cc
index 1345ea0..f07e061 100644
--- a/stl-to-ps/stl-to-ps-main.cc
+++ b/stl-to-ps/stl-to-ps-main.cc
@@ -66,6 +66,10 @@ int main(int argc, char** argv) {
 
   in.close();
   out.close();
+  if (!out) {
+    LOG(ERROR) << "Failed to write " << absl::GetFlag(FLAGS_output);
+    ret = false;
+  }
 
   return ret ? 0 : 1;
 }
diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 0695e7c..7bbc408 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -215,6 +215,11 @@ bool ScriptToPS(const std::string& src, const Document& doc,
   if (!GeneratePages(stl_files, doc, &pages)) return false;
 
   RenderPages(src, pages, out);
+  out.flush();
+  if (!out) {
+    LOG(ERROR) << "Failed to write the document";
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 5c4661bd76abbb8adc56b5db4ffd51a1cbad3d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 02/12] fix: don't take a read error in a model for its end

A model that can't be read (an I/O error, a directory) was silently used
as far as it had been read.
---
 stl-to-ps/stl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index b8a184a..2bccd2e 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -126,6 +126,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << line_number << ": Unknown line: '" << line << "'";
     return nullptr;
   }
+  if (in.bad()) {
+    LOG(ERROR) << line_number << ": Read error";
+    return nullptr;
+  }
   LOG(INFO) << "lines:" << line_number << " solid:" << solid << " loop:" << loop
             << " facets:" << ret->facets.size();
   ret->Index();
-- 
2.43.0


From dc68480ff176fc779cdceccb2c9291f8350963e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 03/12] fix: don't search the file system root for models

An empty --load_path (the default) or an empty entry in it made "/" + file
one of the places to look for a model.
---
 stl-to-ps/stl-to-ps.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 7bbc408..eee5164 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -134,7 +134,8 @@ bool LoadFiles(const Document& doc,
     // Parse out the load path.
     static auto& load_paths = *new auto([] {
       std::vector<std::string> r =
-          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',');
+          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',',
+                         absl::SkipEmpty());
       r.insert(r.begin(), ".");
       return r;
     }());
-- 
2.43.0


From 3bc725d89f611de0b7d344983a0ca17303af10fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 04/12] fix: reject facets with less than three vertexes

They were read past the end of the vertex list.
---
 stl-to-ps/stl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 2bccd2e..cec6889 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -108,6 +108,9 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
       if (norm == geo::point::zero) {
         LOG(WARNING) << line_number << ": missing normal";
         continue;
+      } else if (points.size() < 3) {
+        LOG(ERROR) << line_number << ": facet with less than 3 vertexes";
+        return nullptr;
       } else {
         ret->facets.emplace_back(norm, points);
       }
-- 
2.43.0


From 471528b675b88dab2e2744e0fbde792046ba7642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 05/12] fix: report numbers that are out of range

std::stof throws for them (too large or too small), which ended the
process with an uncaught exception.
---
 stl-to-ps/lexer.l | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index b00215c..c11de46 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -32,6 +32,9 @@
 // lexer.yy.cc can't allow include lexer.yy.h so pretend it's already happened
 #define stl2psHEADER_H
 
+#include <cmath>
+#include <cstdlib>
+
 #include "parser/parser_support.h"
 #include "stl-to-ps/ast.h"
 #include "stl-to-ps/gen.lexer.h"
@@ -68,6 +71,15 @@ void stl2pserror(stl2psscan_t scanner) {
   parser_support::Error(loc, stl2psget_text(scanner), e);
 }
 
+namespace {
+int Number(const char* text, YYSTYPE* value, stl2psscan_t scanner) {
+  value->fp = std::strtof(text, nullptr);
+  if (std::isfinite(value->fp)) return T::NUM;
+  stl2pserror(scanner);
+  return 256;
+}
+}  // namespace
+
 %}
 
 %%
@@ -93,8 +105,8 @@ rad   return T::RAD;
 text  return T::TEXT;
 
 [a-zA-Z_][a-zA-Z0-9_]*      { yylval_param->str = new std::string(yytext);  return T::ID; }
-[-+]?[0-9]+(\.[0-9]*)?      { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
-[-+]?\.[0-9]+               { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
+[-+]?[0-9]+(\.[0-9]*)?      { return Number(yytext, yylval_param, yyscanner); }
+[-+]?\.[0-9]+               { return Number(yytext, yylval_param, yyscanner); }
 \"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(yytext); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
-- 
2.43.0


From db2ce0027d4f79659f299cca56aa6063f970c9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 06/12] fix: reject models that end inside of a solid

A model file that was cut short was drawn as far as it went.
---
 stl-to-ps/stl.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index cec6889..7a2fecd 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -74,6 +74,8 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
 
   std::string line;
   int line_number = 0, solid = 0, loop = 0;
+  bool in_solid = false;
+  std::string solid_key;
 
   Eigen::RowVector3d norm = geo::point::zero;
   std::vector<Eigen::RowVector3d> points;
@@ -83,7 +85,8 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
 
     // Ignore
     static const auto& re_solid = *new RE2(R"( *(solid|endsolid)( .*)?)");
-    if (RE2::FullMatch(line, re_solid)) {
+    if (RE2::FullMatch(line, re_solid, &solid_key)) {
+      in_solid = (solid_key == "solid");
       solid++;
       continue;
     }
@@ -133,6 +136,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << line_number << ": Read error";
     return nullptr;
   }
+  if (in_solid) {
+    LOG(ERROR) << line_number << ": Missing endsolid";
+    return nullptr;
+  }
   LOG(INFO) << "lines:" << line_number << " solid:" << solid << " loop:" << loop
             << " facets:" << ret->facets.size();
   ret->Index();
-- 
2.43.0


From 24d76157181094c0f4d8174b75fc2a35d807cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 07/12] fix: say why near() or center() failed

When no point could be found, the conversion failed without a message.
---
 stl-to-ps/ast.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 75512ef..a335b1a 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -53,7 +53,10 @@ bool PointFunc::Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) {
 }
 
 bool PointFunc::Near(const geo::point_set& ps, Eigen::RowVector3d* ret) {
-  if (ps.empty()) return false;
+  if (ps.empty()) {
+    SYM_ERROR(*this) << "No points";
+    return false;
+  }
 
   Eigen::RowVector3d target;
   if (!p_->Invoke(ps, &target)) return false;
@@ -125,7 +128,10 @@ std::vector<Eigen::RowVector2d> Between(
 
 // NOTE: this uses a rather primitive huristic
 bool PointFunc::Center(const geo::point_set& ps, Eigen::RowVector3d* ret) {
-  if (ps.size() < 3) return false;
+  if (ps.size() < 3) {
+    SYM_ERROR(*this) << "Not enough points";
+    return false;
+  }
 
   Eigen::RowVector3d target3;
   if (!p_->Invoke(ps, &target3)) return false;
@@ -141,14 +147,20 @@ bool PointFunc::Center(const geo::point_set& ps, Eigen::RowVector3d* ret) {
   // Find the center of the circle they form
   Eigen::RowVector2d center;
   double rad;
-  if (!FindCircle(near, &center, &rad)) return false;
+  if (!FindCircle(near, &center, &rad)) {
+    SYM_ERROR(*this) << "Failed to find center";
+    return false;
+  }
 
   // Find points of about the right distance from the presumed center.
   const double del = 0.1;
   near = point_impl::Between(points, rad * (1 - del), rad * (1 + del), center);
 
   // Find the center of the "circle" this (preumably) larger set of points form.
-  if (!FindCircle(near, &center, &rad)) return false;
+  if (!FindCircle(near, &center, &rad)) {
+    SYM_ERROR(*this) << "Failed to find center";
+    return false;
+  }
 
   // Convert back to 3d and return.
   *ret = {center.x(), center.y(), 0};
-- 
2.43.0


From a567d7cb37adfc562cab7cef4bd71d2d6436991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 08/12] fix: report a script that can't be read

The exception raised by a read error was not caught: it ended the command,
or left the library through code that is built without exceptions.
---
 stl-to-ps/stl-to-ps.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index eee5164..8d23ce2 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -107,7 +107,16 @@ void RenderPages(const std::string& src, const std::vector<OutputPage>& pages,
 
 bool ScriptToPS(const std::string& src, std::istream& in_orig,
                 std::ostream& out) {
-  std::string file_string(std::istreambuf_iterator<char>(in_orig), {});
+  std::string file_string;
+  char buffer[4096];
+  do {
+    in_orig.read(buffer, sizeof(buffer));
+    file_string.append(buffer, in_orig.gcount());
+  } while (in_orig);
+  if (in_orig.bad()) {
+    LOG(ERROR) << "Failed to read " << src;
+    return false;
+  }
 
   Document doc;
   if (int ret = Parse(src, file_string, &doc)) {
-- 
2.43.0


From adce111c071754ad53c68f52d5bad112fa24d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:27 +0000
Subject: [PATCH 09/12] fix: reject points nested too deep instead of
 overflowing the stack

---
 stl-to-ps/ast.h    | 13 ++++++++++++-
 stl-to-ps/parser.y | 10 +++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/ast.h b/stl-to-ps/ast.h
index 6d1a21c..4bd2d0a 100644
--- a/stl-to-ps/ast.h
+++ b/stl-to-ps/ast.h
@@ -96,6 +96,9 @@ class Point : public NodeI {
 
   virtual void Rotate(Eigen::Matrix3d rot) = 0;
   virtual bool Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) = 0;
+
+  // How many levels of points there are, this one included.
+  virtual int depth() const { return 1; }
 };
 
 class Val final : public Point {
@@ -127,10 +130,17 @@ std::vector<Eigen::RowVector2d> Between(
 class PointFunc final : public Point {
  public:
   PointFunc(std::unique_ptr<std::string> n, std::unique_ptr<Point> p, Loc loc)
-      : Point(loc), name_(std::move(*n)), p_(std::move(p)) {}
+      : Point(loc),
+        name_(std::move(*n)),
+        p_(std::move(p)),
+        depth_(p_->depth() + 1) {}
+
+  // Points are processed (and freed) recursively.
+  static constexpr int kMaxDepth = 1000;
 
   void Rotate(Eigen::Matrix3d rot) override { p_->Rotate(rot); }
   bool Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) override;
+  int depth() const override { return depth_; }
 
  private:
   bool Near(const geo::point_set& ps, Eigen::RowVector3d* ret);
@@ -138,6 +148,7 @@ class PointFunc final : public Point {
 
   std::string name_;
   std::unique_ptr<Point> p_;
+  int depth_;
 };
 
 /////////////////////////////////
diff --git a/stl-to-ps/parser.y b/stl-to-ps/parser.y
index 703454c..10213c3 100644
--- a/stl-to-ps/parser.y
+++ b/stl-to-ps/parser.y
@@ -107,7 +107,15 @@ location : '[' NUM ',' NUM ']' { $$ = new Eigen::RowVector2d{$2, $4}; }
          ;
 
 point : '[' NUM ',' NUM ',' NUM ']' { $$ = new stl2ps::Val({$2, $4, $6}, @1); }
-      | ID '(' point ')' { $$ = new PointFunc(absl::WrapUnique($1), absl::WrapUnique($3), @1); }
+      | ID '(' point ')'
+           {
+             auto func = absl::make_unique<PointFunc>(absl::WrapUnique($1), absl::WrapUnique($3), @1);
+             if (func->depth() > PointFunc::kMaxDepth) {
+               error(@1, "points are nested too deep");
+               YYABORT;
+             }
+             $$ = func.release();
+           }
       ;
 
 input : input model  { ($$ = $1)->Add(absl::WrapUnique($2)); }
-- 
2.43.0


From 02b8a44e797c9879b64cb73373018621527473a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 10/12] fix: say that the script or output flag is missing

---
 stl-to-ps/stl-to-ps-main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl-to-ps-main.cc b/stl-to-ps/stl-to-ps-main.cc
index f07e061..91e53bc 100644
--- a/stl-to-ps/stl-to-ps-main.cc
+++ b/stl-to-ps/stl-to-ps-main.cc
@@ -44,11 +44,11 @@ int main(int argc, char** argv) {
   absl::InitializeLog();
 
   if (absl::GetFlag(FLAGS_script).empty()) {
-    LOG(INFO) << "No script file";
+    LOG(ERROR) << "No script file";
     return 1;
   }
   if (absl::GetFlag(FLAGS_output).empty()) {
-    LOG(INFO) << "No output file";
+    LOG(ERROR) << "No output file";
     return 1;
   }
   LOG(INFO) << absl::GetFlag(FLAGS_script) << " -> "
-- 
2.43.0


From a9f0f5747cf6559a09a1c5ec321b2f49c69894b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:50 +0000
Subject: [PATCH 11/12] fix: read numbers the same way in every C locale

---
 stl-to-ps/lexer.l |  8 +++++---
 stl-to-ps/stl.cc  | 17 +++++++++++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index c11de46..38e7fd4 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -33,8 +33,8 @@
 #define stl2psHEADER_H
 
 #include <cmath>
-#include <cstdlib>
 
+#include "absl/strings/numbers.h"
 #include "parser/parser_support.h"
 #include "stl-to-ps/ast.h"
 #include "stl-to-ps/gen.lexer.h"
@@ -73,8 +73,10 @@ void stl2pserror(stl2psscan_t scanner) {
 
 namespace {
 int Number(const char* text, YYSTYPE* value, stl2psscan_t scanner) {
-  value->fp = std::strtof(text, nullptr);
-  if (std::isfinite(value->fp)) return T::NUM;
+  // Unlike strtof(), this doesn't depend on the C locale.
+  if (absl::SimpleAtof(text, &value->fp) && std::isfinite(value->fp)) {
+    return T::NUM;
+  }
   stl2pserror(scanner);
   return 256;
 }
diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 7a2fecd..7d561ca 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -37,6 +37,7 @@
 #include <set>
 
 #include "absl/log/log.h"
+#include "absl/strings/numbers.h"
 #include "re2/re2.h"
 #include "stl-to-ps/eigen_wrap.h"
 #include "stl-to-ps/geo.h"
@@ -69,6 +70,18 @@ Facet::Facet(const Eigen::RowVector3d& n,
 
 ////////////////////////////////
 
+namespace {
+// Like RE2::FullMatch() with three numbers, but whatever the C locale is.
+bool MatchVector(const std::string& line, const RE2& re, double* x, double* y,
+                 double* z) {
+  std::string sx, sy, sz;
+  return RE2::FullMatch(line, re, &sx, &sy, &sz) &&                //
+         absl::SimpleAtod(sx, x) && absl::SimpleAtod(sy, y) &&     //
+         absl::SimpleAtod(sz, z) && std::isfinite(*x) &&           //
+         std::isfinite(*y) && std::isfinite(*z);
+}
+}  // namespace
+
 std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
   std::unique_ptr<STLFile> ret{new STLFile};
 
@@ -100,7 +113,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     // Start of facet
     static const auto& re_facet = *new RE2(
         R"( *facet normal +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
-    if (RE2::FullMatch(line, re_facet, &x, &y, &z)) {
+    if (MatchVector(line, re_facet, &x, &y, &z)) {
       norm = {x, y, z};
       points.clear();
       continue;
@@ -124,7 +137,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
 
     static const auto& re_vertex = *new RE2(
         R"( *vertex +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
-    if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {
+    if (MatchVector(line, re_vertex, &x, &y, &z)) {
       points.push_back({x, y, z});
       continue;
     }
-- 
2.43.0


From 85885148bef6bba9586494e4a5840daa294642a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:26 +0000
Subject: [PATCH 12/12] fix: let the lists of what is drawn grow by themselves

Reserving exactly what is needed each time copies all that is there for every
dimension and drawing: 8000 dimensions took 5 s.
---
 stl-to-ps/stl-to-ps.cc | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 8d23ce2..adbe82d 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -845,9 +845,6 @@ bool DrawToPage::operator()(const Text& text) {
 
 void DrawToPage::AddLines(const std::vector<geo::Line>& lines) {
   CHECK(current_page != nullptr);
-  current_page->lines.reserve(
-      std::max(current_page->lines.capacity(),
-               current_page->lines.size() + lines.size()));
   for (auto l : lines) {
     l.o *= proj.scale;
     l.t *= proj.scale;
@@ -860,8 +857,6 @@ void DrawToPage::AddLines(const std::vector<geo::Line>& lines) {
 
 void DrawToPage::AddArcs(const std::vector<geo::Arc>& arcs) {
   CHECK(current_page != nullptr);
-  current_page->arcs.reserve(std::max(current_page->arcs.capacity(),
-                                      current_page->arcs.size() + arcs.size()));
   for (auto a : arcs) {
     a.center *= proj.scale;
     a.center += proj.d;
@@ -873,8 +868,6 @@ void DrawToPage::AddArcs(const std::vector<geo::Arc>& arcs) {
 
 void DrawToPage::AddText(const std::vector<ps::Text>& text) {
   CHECK(current_page != nullptr);
-  current_page->text.reserve(std::max(current_page->text.capacity(),
-                                      current_page->text.size() + text.size()));
   for (auto t : text) {
     t.at *= proj.scale;
     t.at += proj.d;
-- 
2.43.0

