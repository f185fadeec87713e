#!/usr/bin/env python3
"""refactor.py [ID...]: rewrites of /repo that keep its behaviour; the checks
must stay quiet on each (development aid; see tools/refactor.sh)."""
import os, subprocess, sys
M = "stl-to-ps/stl-to-ps-main.cc"; S = "stl-to-ps/stl-to-ps.cc"; T = "stl-to-ps/stl.cc"; P = "stl-to-ps/ps.cc"; A = "stl-to-ps/ast.cc"; R = "stl-to-ps/parser.cc"; Q = "stl-to-ps/parser_support.cc"
V = {}

V["main-helpers"] = [
    (M, '''int main(int argc, char** argv) {
''', '''namespace {
template <class F>
void OpenOrDie(F* f, const std::string& name, std::ios::openmode mode) {
  f->open(name, mode);
  CHECK(f->rdstate() == std::ios_base::goodbit) << name;
}

int Convert(const std::string& script, const std::string& output) {
  auto out = std::make_unique<std::ofstream>();
  OpenOrDie(out.get(), output, std::ios::out | std::ios::trunc);
  std::ifstream in;
  OpenOrDie(&in, script, std::ios::in);

  const bool converted = stl2ps::ScriptToPS(script, in, *out);

  out->close();
  const bool written = !out->fail();
  in.close();
  if (!written) LOG(ERROR) << "Failed to write " << output;
  return converted && written ? 0 : 1;
}
}  // namespace

int main(int argc, char** argv) {
'''),
    (M, '''  std::ofstream out;
  out.open(absl::GetFlag(FLAGS_output), (std::ios::out | std::ios::trunc));
  CHECK(out.rdstate() == std::ios_base::goodbit) << absl::GetFlag(FLAGS_output);

  std::ifstream in;
  in.open(absl::GetFlag(FLAGS_script), std::ios::in);
  CHECK(in.rdstate() == std::ios_base::goodbit) << absl::GetFlag(FLAGS_script);

  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), in, out);

  in.close();
  out.close();
  if (!out) {
    LOG(ERROR) << "Failed to write " << absl::GetFlag(FLAGS_output);
    ret = false;
  }

  return ret ? 0 : 1;
''', '''  return Convert(absl::GetFlag(FLAGS_script), absl::GetFlag(FLAGS_output));
'''),
    (M, '#include <iostream>\n', '#include <iostream>\n#include <memory>\n'),
]

V["read-big"] = [
    (S, '''  std::string file_string;
  char buffer[4096];
  do {
    in_orig.read(buffer, sizeof(buffer));
    file_string.append(buffer, in_orig.gcount());
  } while (in_orig);
  if (in_orig.bad()) {
''', '''  std::string file_string;
  std::vector<char> buffer(1 << 16);
  while (in_orig.read(buffer.data(), buffer.size()) || in_orig.gcount() > 0) {
    file_string.append(buffer.data(), in_orig.gcount());
  }
  const bool unreadable = in_orig.bad();
  if (unreadable) {
'''),
    (S, '''  if (int ret = Parse(src, file_string, &doc)) {
    LOG(ERROR) << "Parse failed with rc=" << ret;
    return false;
  }
  return ScriptToPS(src, doc, out);
''', '''  const int ret = Parse(src, file_string, &doc);
  if (ret == 0) return ScriptToPS(src, doc, out);
  LOG(ERROR) << "Parse failed with rc=" << ret;
  return false;
'''),
]

V["open-model"] = [
    (S, '''bool LoadFiles(const Document& doc,
''', '''namespace {
const std::vector<std::string>& LoadPaths() {
  static const auto& paths = *[] {
    auto r = std::make_unique<std::vector<std::string>>(1, ".");
    for (const auto& p : absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',')) {
      if (!p.empty()) r->emplace_back(p);
    }
    return r.release();
  }();
  return paths;
}

// Opens `file`: as it is if absolute, else in the first place that has it.
std::unique_ptr<std::ifstream> OpenModel(const std::string& file) {
  std::vector<std::string> names;
  if (!file.empty() && file[0] == '/') {
    names.push_back(file);
  } else {
    for (const auto& p : LoadPaths()) names.push_back(absl::StrCat(p, "/", file));
  }
  for (const auto& n : names) {
    auto ret = std::make_unique<std::ifstream>(n);
    if (ret->good()) return ret;
  }
  return nullptr;
}
}  // namespace

bool LoadFiles(const Document& doc,
'''),
    (S, '''    // Parse out the load path.
    static auto& load_paths = *new auto([] {
      std::vector<std::string> r =
          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',',
                         absl::SkipEmpty());
      r.insert(r.begin(), ".");
      return r;
    }());

    std::ifstream model;
    if (file.find('/') == 0) {
      model.open(file, std::ios::in);
    } else {
      for (const auto& p : load_paths) {
        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
      }
    }
    if (model.rdstate() != std::ios_base::goodbit) {
''', '''    auto model = OpenModel(file);
    if (!model) {
'''),
    (S, '''    added.first->second = STLFile::Make(model);
    model.close();
''', '''    added.first->second = STLFile::Make(*model);
    model.reset();
'''),
]

V["render-string"] = [
    (S, '''  RenderPages(src, pages, out);
  out.flush();
''', '''  std::ostringstream text;
  RenderPages(src, pages, text);
  if (!text) {
    LOG(ERROR) << "Failed to make the document";
    return false;
  }
  out << text.str() << std::flush;
'''),
    (S, '''  int page_number = 0;
  for (const auto& page : pages) {
    ps::PageHeader(++page_number, pages.size(), out);
''', '''  for (size_t i = 0; i < pages.size(); i++) {
    const auto& page = pages[i];
    ps::PageHeader(i + 1, pages.size(), out);
'''),
]

V["ps-style"] = [
    (P, '''  const static auto ret = [] {
    absl::TimeZone tz;
    absl::LoadTimeZone("localtime", &tz);

    return absl::FormatTime("%Y-%m-%d %I:%M:%S", absl::Now(), tz);
  }();
  return ret;
''', '''  static std::string* stamp = nullptr;
  static std::once_flag once;
  std::call_once(once, [] {
    const absl::Time now = absl::Now();
    absl::TimeZone tz;
    absl::LoadTimeZone("localtime", &tz);
    stamp = new std::string(absl::FormatTime("%Y-%m-%d %I:%M:%S", now, tz));
  });
  return *stamp;
'''),
    (P, '#include <vector>\n', '#include <mutex>\n#include <vector>\n'),
    (P, '#include "absl/strings/substitute.h"\n', '#include "absl/strings/str_replace.h"\n#include "absl/strings/substitute.h"\n'),
    (P, '''    std::string s;
    if (t.raw) {
      s = t.str;
    } else {
      s.reserve(t.str.size());
      for (char c : t.str) {
        switch (c) {
          default:
            s.push_back(c);
            break;

          case '(':
          case ')':
          case '\\\\':
            s.push_back('\\\\');
            s.push_back(c);
            break;
        }
      }
    }
''', '''    const std::string s =
        t.raw ? t.str
              : absl::StrReplaceAll(
                    t.str, {{"(", "\\\\("}, {")", "\\\\)"}, {"\\\\", "\\\\\\\\"}});
'''),
    (P, '''  for (const auto& l : lines) {
    out << absl::Substitute("newpath $0 $1 moveto $2 $3 lineto stroke\\n",  //
                            l.o.x(), l.o.y(), l.t.x(), l.t.y());
  }
''', '''  std::string all;
  for (const auto& l : lines) {
    absl::SubstituteAndAppend(&all, "newpath $0 $1 moveto $2 $3 lineto stroke\\n",  //
                              l.o.x(), l.o.y(), l.t.x(), l.t.y());
  }
  out << all;
'''),
]

V["stl-make"] = [
    (T, '''std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
''', '''namespace {
struct Lines {
  RE2 solid{R"( *(solid|endsolid)( .*)?)"};
  RE2 loop{R"( *(outer loop|endloop) *)"};
  RE2 facet{R"( *facet normal +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)"};
  RE2 efacet{R"( *endfacet *)"};
  RE2 vertex{R"( *vertex +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)"};
};
}  // namespace

std::unique_ptr<STLFile> STLFile::Make(std::istream& in_stream) {
  static const auto& re = *new Lines;
  // All of it first.
  std::stringstream in;
  char buf[1000];
  while (in_stream.read(buf, sizeof(buf)) || in_stream.gcount()) in.write(buf, in_stream.gcount());
'''),
    (T, '''    static const auto& re_solid = *new RE2(R"( *(solid|endsolid)( .*)?)");
    if (RE2::FullMatch(line, re_solid, &solid_key)) {
''', '''    if (MatchVector(line, re.vertex, &x, &y, &z)) {
      points.emplace_back(x, y, z);
      continue;
    }
    if (RE2::FullMatch(line, re.solid, &solid_key)) {
'''),
    (T, '''    static const auto& re_oloop = *new RE2(R"( *(outer loop|endloop) *)");
    if (RE2::FullMatch(line, re_oloop)) {
''', '''    if (RE2::FullMatch(line, re.loop)) {
'''),
    (T, '''    static const auto& re_facet = *new RE2(
        R"( *facet normal +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
    if (MatchVector(line, re_facet, &x, &y, &z)) {
''', '''    if (MatchVector(line, re.facet, &x, &y, &z)) {
'''),
    (T, '''    static const auto& re_efacet = *new RE2(R"( *endfacet *)");
    if (RE2::FullMatch(line, re_efacet)) {
''', '''    if (RE2::FullMatch(line, re.efacet)) {
'''),
    (T, '''    static const auto& re_vertex = *new RE2(
        R"( *vertex +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
    if (MatchVector(line, re_vertex, &x, &y, &z)) {
      points.push_back({x, y, z});
      continue;
    }
''', ''),
    (T, '  if (in.bad()) {', '  if (in_stream.bad() || in.bad()) {'),
    (T, '#include <set>\n', '#include <set>\n#include <sstream>\n'),
]

V["edges"] = [
    (T, '''      if (pu.z() <= pv.z()) hidden_by_list.emplace_back(u, v, pu);
      if (pv.z() <= pu.z()) hidden_by_list.emplace_back(v, u, pv);
    }
  }
  for (const auto& h : hidden_by_list) {
    if (std::get<0>(h) >= unseen) continue;
    CHECK(hidden_by_edge[std::get<0>(h)]
              .emplace(std::get<1>(h), std::get<2>(h))
              .second)
        << "Duplicate found: " << std::get<0>(h) << "," << std::get<1>(h) << ","
        << std::get<2>(h);
  }
''', '''      const auto hide = [&](int edge, int by, const Eigen::RowVector3d& at) {
        if (edge >= unseen) return;
        CHECK(hidden_by_edge[edge].emplace(by, at).second)
            << "Duplicate found: " << edge << "," << by << "," << at;
      };
      if (pu.z() <= pv.z()) hide(u, v, pu);
      if (pv.z() <= pu.z()) hide(v, u, pv);
    }
  }
'''),
    (T, '''  std::vector<std::tuple<int, int, Eigen::RowVector3d>> hidden_by_list;
  hidden_by_list.reserve(edges.size());
''', ''),
    (T, '''  int i = 0, j = facets.size();
  for (; i < j; i++) {
    if (facets[i].norm.z() <= 0) swap(facets[i--], facets[--j]);
  }
  facets.resize(j);
''', '''  size_t i = 0, end = facets.size();
  while (i < end) {
    if (facets[i].norm.z() > 0) {
      ++i;
    } else {
      --end;
      swap(facets[i], facets[end]);
    }
  }
  facets.erase(facets.begin() + end, facets.end());
'''),
    (T, '  std::feholdexcept(&env);  // Hope this deals with divide by zero issues.\n', '  std::feholdexcept(&env);\n'),
]

V["pages"] = [
    (S, '''  auto i = m->find(name);
  if (i == m->end()) return nullptr;
  Meta* k = i->second;
  m->erase(i);
  return k;
''', '''  auto node = m->extract(name);
  return node.empty() ? nullptr : node.mapped();
'''),
    (S, '''  for (const auto& doc_page : doc.pages) {
    std::map<std::string, Meta*> seen;
    ok &= Flatten("page", doc_page.meta, &seen);

    pages->push_back({});
    auto& current_page = *pages->rbegin();

    std::string page_name = "";  // TODO move into AddHeader
''', '''  pages->reserve(doc.pages.size());
  for (size_t n = 0; n < doc.pages.size(); ++n) {
    const auto& doc_page = doc.pages[n];
    OutputPage current_page;
    std::map<std::string, Meta*> seen;
    if (!Flatten("page", doc_page.meta, &seen)) ok = false;

    std::string page_name;
'''),
    (S, '''    current_page.AddHeader(page_name, pages->size(), doc.pages.size());

    if (!seen.empty()) {
      SYM_ERROR(doc_page) << "Unexepcted properties for page " << pages->size();
''', '''    current_page.AddHeader(page_name, n + 1, doc.pages.size());
    pages->push_back(std::move(current_page));

    if (!seen.empty()) {
      SYM_ERROR(doc_page) << "Unexepcted properties for page " << n + 1;
'''),
    (S, '''  for (auto l : lines) {
    l.o *= proj.scale;
    l.t *= proj.scale;
    l.o += proj.d;
    l.t += proj.d;

    current_page->lines.push_back(l);
  }
''', '''  for (size_t i = 0; i < lines.size(); ++i) {
    geo::Line& to = current_page->lines.emplace_back(lines[i]);
    to.o = to.o * proj.scale + proj.d;
    to.t = to.t * proj.scale + proj.d;
  }
'''),
    (S, '''  for (const auto& dim : dims) ok &= dim->VisitNode(this);
  return ok;
''', '''  for (auto it = dims.begin(); it != dims.end(); ++it) {
    if (!(*it)->VisitNode(this)) ok = false;
  }
  return ok;
'''),
]

V["load-two-steps"] = [
    (S, '''    auto added = stl_files->emplace(name, nullptr);
    if (!added.second) {
''', '''    const bool known = stl_files->count(name) > 0;
    std::unique_ptr<STLFile>& slot = (*stl_files)[name];
    if (known) {
'''),
    (S, '''    added.first->second = STLFile::Make(model);
    model.close();

    if (!added.first->second) {
''', '''    slot = STLFile::Make(model);
    model.close();

    if (slot == nullptr) {
'''),
    (S, '''  std::vector<OutputPage> pages;
  if (!GeneratePages(stl_files, doc, &pages)) return false;

  RenderPages(src, pages, out);
''', '''  std::vector<OutputPage> pages;
  bool ok = GeneratePages(stl_files, doc, &pages);
  stl_files.clear();
  if (!ok) return false;

  RenderPages(src, pages, out);
  pages.clear();
'''),
]

V["parser-raii"] = [
    (R, '''  stl2psscan_t scanner;
  stl2pslex_init(&scanner);
  auto buffer_state = stl2ps_scan_bytes(file.data(), file.size(), scanner);
''', '''  stl2psscan_t scanner;
  stl2pslex_init(&scanner);
  const std::string copy = file;
  auto buffer_state = stl2ps_scan_bytes(copy.data(), copy.size(), scanner);
'''),
    (Q, '''  if (bl == el) {
    fprintf(stderr, "error %s:%d:[%d,%d]: %s\\n",  //
            fn, bl, bc, ec, msg.c_str());
  } else {
    fprintf(stderr, "error %s:%d:%d to %d:%d: %s\\n",  //
            fn, bl, bc, el, ec, msg.c_str());
  }
''', '''  std::string text = std::string("error ") + fn + ":" + std::to_string(bl) + ":";
  if (bl != el) {
    text += std::to_string(bc) + " to " + std::to_string(el) + ":" + std::to_string(ec);
  } else {
    text += "[" + std::to_string(bc) + "," + std::to_string(ec) + "]";
  }
  text += ": " + std::string(msg.c_str()) + "\\n";
  fputs(text.c_str(), stderr);
'''),
    (A, '''  std::multimap<double, Eigen::RowVector2d> c;
  for (const auto& p : ps) {
    auto d = (p - to).squaredNorm();
''', '''  std::multimap<double, Eigen::RowVector2d> c;
  for (size_t i = 0; i < ps.size(); i++) {
    const auto& p = ps[i];
    const double d = (p - to).squaredNorm();
'''),
]


def apply(name, dst):
    for f, old, new in V[name]:
        p = os.path.join(dst, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %s: %d matches of %r" % (name, f, s.count(old), old[:60]))
        open(p, "w").write(s.replace(old, new))


if __name__ == "__main__":
    if len(sys.argv) == 1:
        print("\n".join(V))
    else:
        apply(sys.argv[1], sys.argv[2])
