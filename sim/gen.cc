#include "gen.h"

#include <ctype.h>
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>

#include <algorithm>
#include <array>
#include <functional>

namespace sim {
namespace {
std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string Fmt(const char* f, ...) {
  char b[512];
  va_list a;
  va_start(a, f);
  int n = vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return std::string(b, std::min<size_t>(n, sizeof b - 1));
}
V3 Sub(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
V3 Cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
double Dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
double Norm3(V3 a) { return sqrt(Dot(a, a)); }
V3 Unit(V3 a) { double n = Norm3(a); return n > 0 ? V3{a.x / n, a.y / n, a.z / n} : a; }
V3 FaceNormal(const Solid& s, const std::vector<int>& f) {
  return Unit(Cross(Sub(s.v[f[1]], s.v[f[0]]), Sub(s.v[f[2]], s.v[f[0]])));
}
double Grid(int64_t k) { return double(k) / 64; }

struct View {
  double m[3][3];  // p' = p * m
  bool axis = true;
  V3 Apply(V3 p) const {
    return {p.x * m[0][0] + p.y * m[1][0] + p.z * m[2][0],
            p.x * m[0][1] + p.y * m[1][1] + p.z * m[2][1],
            p.x * m[0][2] + p.y * m[1][2] + p.z * m[2][2]};
  }
};
View Rows(V3 a, V3 b, V3 c) {
  View v;
  V3 r[3] = {a, b, c};
  for (int i = 0; i < 3; i++) { v.m[i][0] = r[i].x; v.m[i][1] = r[i].y; v.m[i][2] = r[i].z; }
  return v;
}
// What the model's x, y, z axes become on the page (right, up, towards us).
View AxisView(int k) {
  switch (k) {
    case 0: return Rows({1, 0, 0}, {0, 1, 0}, {0, 0, 1});    // Z+
    case 1: return Rows({0, 0, 1}, {1, 0, 0}, {0, 1, 0});    // X+
    case 2: return Rows({0, 0, -1}, {-1, 0, 0}, {0, 1, 0});  // X-
    case 3: return Rows({-1, 0, 0}, {0, 0, 1}, {0, 1, 0});   // Y+
    case 4: return Rows({1, 0, 0}, {0, 0, -1}, {0, 1, 0});   // Y-
    default: return Rows({1, 0, 0}, {0, -1, 0}, {0, 0, -1}); // Z-
  }
}
const char* const kAxis[] = {"Z+", "X+", "X-", "Y+", "Y-", "Z-"};
View AngleView(double ang, double azm) {
  ang *= M_PI / 180;
  azm *= M_PI / 180;
  double s = sin(ang), c = cos(ang), sa = sin(-azm), ca = cos(-azm);
  View v = Rows({c, s * ca, s * sa}, {-s, c * ca, c * sa}, {0, -sa, ca});
  v.axis = false;
  return v;
}

struct Proj {
  bool known = true;        // the lines are certain
  bool any = false;
  double lo[2] = {0, 0}, hi[2] = {0, 0};
  std::vector<Seg> edges;
  std::vector<V3> verts;    // vertices of front faces, in model space
};

Proj Project(const Model& m, const View& v) {
  Proj p;
  std::vector<std::array<double, 4>> boxes;
  for (const auto& s : m.solids) {
    std::vector<V3> pv;
    for (auto& x : s.v) pv.push_back(v.Apply(x));
    std::map<std::pair<int, int>, std::vector<V3>> em;
    std::array<double, 4> bb = {1e300, 1e300, -1e300, -1e300};
    for (auto& f : s.f) {
      V3 n = FaceNormal(s, f);
      V3 r = v.Apply(n);
      if (!v.axis && fabs(r.z) < 1e-4) p.known = false;
      if (r.z <= (v.axis ? 1e-9 : 0)) continue;
      for (size_t i = 0; i < f.size(); i++) {
        int a = f[i], b = f[(i + 1) % f.size()];
        em[{std::min(a, b), std::max(a, b)}].push_back(n);
        const V3& q = pv[a];
        if (!p.any) { p.lo[0] = p.hi[0] = q.x; p.lo[1] = p.hi[1] = q.y; p.any = true; }
        p.lo[0] = std::min(p.lo[0], q.x); p.hi[0] = std::max(p.hi[0], q.x);
        p.lo[1] = std::min(p.lo[1], q.y); p.hi[1] = std::max(p.hi[1], q.y);
        bb[0] = std::min(bb[0], q.x); bb[1] = std::min(bb[1], q.y);
        bb[2] = std::max(bb[2], q.x); bb[3] = std::max(bb[3], q.y);
        p.verts.push_back(s.v[a]);
      }
    }
    for (auto& e : em) {
      if (e.second.size() == 2) {
        double d = Dot(e.second[0], e.second[1]);
        if (fabs(d - .98) < 1e-3) p.known = false;
        if (d >= .98) continue;
      }
      p.edges.push_back({{pv[e.first.first].x, pv[e.first.first].y}, {pv[e.first.second].x, pv[e.first.second].y}});
    }
    boxes.push_back(bb);
  }
  for (size_t i = 0; i < boxes.size(); i++)
    for (size_t j = i + 1; j < boxes.size(); j++) {
      auto &a = boxes[i], &b = boxes[j];
      if (a[2] + .01 > b[0] && b[2] + .01 > a[0] && a[3] + .01 > b[1] && b[3] + .01 > a[1]) p.known = false;
    }
  return p;
}
}  // namespace

std::string Num(double v) {
  std::string r = Fmt("%.6f", v);
  while (r.back() == '0') r.pop_back();
  if (r.back() == '.') r.pop_back();
  if (r == "-0") r = "0";
  return r;
}

Model Box(double x, double y, double z) {
  Solid s;
  for (int i = 0; i < 8; i++) s.v.push_back({i & 1 ? x : 0, i & 2 ? y : 0, i & 4 ? z : 0});
  s.f = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
  Model m;
  m.solids.push_back(s);
  return m;
}

static Solid GenSolid(Src& s, V3 o) {
  Solid r;
  switch (s.below(3)) {
    case 0: {
      r = Box(Grid(s.range(16, 300)), Grid(s.range(16, 300)), Grid(s.range(16, 300))).solids[0];
      break;
    }
    case 1: {  // corner tetrahedron
      double a = Grid(s.range(32, 300)), b = Grid(s.range(32, 300)), c = Grid(s.range(32, 300));
      r.v = {{0, 0, 0}, {a, 0, 0}, {0, b, 0}, {0, 0, c}};
      r.f = {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}};
      break;
    }
    default: {  // prism
      int n = 3 + int(s.below(10));
      double rad = Grid(s.range(128, 300)), h = Grid(s.range(16, 300));
      for (int k = 0; k < 2; k++)
        for (int i = 0; i < n; i++)
          r.v.push_back({round(64 * rad * cos(2 * M_PI * i / n)) / 64, round(64 * rad * sin(2 * M_PI * i / n)) / 64, k * h});
      std::vector<int> top, bot;
      for (int i = 0; i < n; i++) {
        top.push_back(n + i);
        bot.push_back(n - 1 - i);
        int j = (i + 1) % n;
        r.f.push_back({i, j, n + j, n + i});
      }
      r.f.push_back(top);
      r.f.push_back(bot);
      break;
    }
  }
  for (auto& v : r.v) { v.x += o.x; v.y += o.y; v.z += o.z; }
  return r;
}

Model GenModel(Src& s, int size) {
  Model m;
  int n = 1;
  if (size > 0 && s.chance(30)) n = 1 + int(s.below(size));
  for (int i = 0; i < n; i++) m.solids.push_back(GenSolid(s, {i * 12.0, i * 12.0, i * 12.0}));
  return m;
}

std::string Stl(const Model& m, Src& s, bool plain) {
  Rng f(plain ? 0 : s.below(1 << 16));
  if (f.s == Rng(0).s) plain = true;
  int indent = plain ? 2 : int(f.below(4));
  int style = plain ? 0 : int(f.below(4));
  bool trail = !plain && f.below(4) == 0;
  auto num = [&](double v) {
    switch (style) {
      case 1: return Fmt("%.6f", v);
      case 2: {
        std::string r = Fmt("%.9e", v);
        size_t p;
        while ((p = r.find('+')) != std::string::npos) r.erase(p, 1);
        return r;
      }
      case 3: return v == 0 ? std::string("-0.0") : Num(v);
      default: return Num(v);
    }
  };
  std::string r;
  auto sp = [&](int k) { return std::string(plain ? k * 2 : k * indent, ' '); };
  auto eol = [&] { return trail && f.below(3) == 0 ? std::string("  \n") : std::string("\n"); };
  auto gap = [&] { return !plain && f.below(8) == 0 ? std::string("   ") : std::string(" "); };
  if (m.solids.empty()) return plain || f.below(2) ? std::string() : std::string("solid none\nendsolid none\n");
  // "one solid per file" or "one solid per body"
  bool split = !plain && f.below(2) == 0;
  for (size_t k = 0; k < m.solids.size(); k++) {
    const Solid& so = m.solids[k];
    if (k == 0 || split) r += plain ? "solid\n" : Fmt("solid part%d", int(k)) + eol();
    for (auto& face : so.f) {
      V3 n = FaceNormal(so, face);
      size_t start = plain ? 0 : f.below(face.size());
      for (size_t i = 1; i + 1 < face.size(); i++) {
        r += sp(1) + "facet normal" + gap() + num(round(n.x * 1e6) / 1e6) + gap() + num(round(n.y * 1e6) / 1e6) + gap() + num(round(n.z * 1e6) / 1e6) + eol();
        r += sp(2) + "outer loop" + eol();
        for (size_t j : {size_t(0), i, i + 1}) {
          const V3& p = so.v[face[(start + j) % face.size()]];
          r += sp(3) + "vertex" + gap() + num(p.x) + gap() + num(p.y) + gap() + num(p.z) + eol();
        }
        r += sp(2) + "endloop" + eol() + sp(1) + "endfacet" + eol();
      }
    }
    if (k + 1 == m.solids.size() || split) r += plain ? "endsolid\n" : Fmt("endsolid part%d", int(k)) + eol();
  }
  if (!plain && f.below(6) == 0) while (!r.empty() && (r.back() == '\n' || r.back() == ' ')) r.pop_back();
  return r;
}

// ------------------------------------------------------------------ scripts
namespace {
std::string RandText(Rng& f, size_t n, bool newlines) {
  static const char* const odd[] = {"(", ")", "\\", "\"", "'", "?", "%", "$0", "$1", "{", "}", "[", "]", ";", "//", "<<", ">>", "\xc3\xa9", "\xe2\x82\xac", " "};
  std::string r;
  while (r.size() < n) {
    uint64_t k = f.below(20);
    if (k == 0) r += odd[f.below(20)];
    else if (k == 1 && newlines) r += "\n";
    else if (k == 2) r += ' ';
    else r += char(k < 12 ? 'a' + f.below(26) : k < 17 ? 'A' + f.below(26) : '0' + f.below(10));
  }
  return r;
}
std::string Quote(const std::string& t, Rng& f, bool multi) {
  std::string r = "\"";
  for (char c : t) {
    switch (c) {
      case '\n': r += "\\n"; break;
      case '"': r += "\\\""; break;
      case '\\': r += "\\\\"; break;
      case '\'': r += f.below(2) ? "\\'" : "'"; break;
      case '?': r += f.below(2) ? "\\?" : "?"; break;
      default: r += c;
    }
    bool utf8_mid = (c & 0x80) != 0;
    if (multi && !utf8_mid && f.below(60) == 0) r += f.below(2) ? "\" \"" : "\"\n   \"";
  }
  return r + "\"";
}
struct Fm {  // formatting of a script
  Rng f;
  bool plain;
  std::string ws() {  // optional white space
    if (plain) return "";
    switch (f.below(8)) {
      case 0: return " ";
      case 1: return "\n";
      case 2: return "\t ";
      case 3: return f.below(3) ? "  " : "// note { \" ;\n";
      default: return "";
    }
  }
  std::string num(double v) {
    std::string r = Num(v);
    if (plain) return r;
    switch (f.below(6)) {
      case 0: return v >= 0 ? "+" + r : r;
      case 1: return r.find('.') == std::string::npos ? r + "." : r + "0";
      case 2: return r.find('.') == std::string::npos ? r + ".0" : r;
      case 3: if (r.compare(0, 2, "0.") == 0) return r.substr(1); return r;
      default: return r;
    }
  }
  std::string p3(V3 p) { return "[" + ws() + num(p.x) + ws() + "," + ws() + num(p.y) + "," + num(p.z) + ws() + "]"; }
  std::string p2(V2 p) { return "[" + num(p.x) + ws() + "," + ws() + num(p.y) + ws() + "]"; }
  std::string kv(const std::string& k, const std::string& v) { return k + ws() + "=" + ws() + v; }
};
}  // namespace

void Assemble(Case* c, Src& s, bool plain) {
  uint64_t seed = plain ? 0 : s.below(1 << 16);
  Rng f(seed);
  plain = plain || seed == 0;
  std::string out;
  if (!plain && f.below(4) == 0) out += "// generated\n\n";
  size_t pad = 0;
  if (!plain && f.below(6) == 0) {
    static const size_t k[] = {500, 4096, 8192, 16384, 70000};
    pad = k[f.below(5)];
    if (pad == 70000 && f.below(3)) pad = 4096;
    pad += f.below(300);
  }
  // A script of very many lines, or of one very long.
  size_t rows = !plain && f.below(100) == 0 ? 1 + f.below(4) : 0;
  size_t where = pad || rows ? f.below(c->pieces.size() + 1) : 0;
  if (rows && f.below(2)) where = 0;
  size_t model = 0;
  auto line = [&] { return 1 + int(std::count(out.begin(), out.end(), '\n')); };
  for (size_t i = 0; i <= c->pieces.size(); i++) {
    if (pad && i == where) {
      size_t end = out.size() + pad;
      while (out.size() < end) out += "// " + std::string(70, '=') + "\n";
    }
    if (rows && i == where) {
      static const size_t k[] = {32700, 65400, 65530, 66000, 131000, 140000};
      size_t n = k[f.below(6)] + f.below(70);
      if (rows == 1) out += "// " + std::string(n, '-') + "\n";
      else if (rows == 2) out.append(n, ' ');
      else if (rows == 3) out.append(n, '\n');
      else for (size_t j = 0; j < n; j++) out += j % 9 == 4 ? "\r\n" : j % 31 == 7 ? "//\n" : "\n";
    }
    if (i == c->pieces.size()) break;
    const Piece& p = c->pieces[i];
    if (p.kind == 0) {
      if (!out.empty() && out.back() != '\n') out += "\n";
      if (model < c->models.size()) { c->models[model].line = line(); c->models[model].pos = out.size(); model++; }
      out += p.text + "\n";
      continue;
    }
    out += p.text;
    if (plain) out += "\n";
    else out += f.below(4) ? "\n" : f.below(2) ? " " : "  // x\n";
    if (!plain && f.below(30) == 0) out += "\r\n\n";
  }
  if (!plain && f.below(8) == 0) while (!out.empty() && (out.back() == '\n' || out.back() == '\r')) out.pop_back();
  if (!plain && f.below(12) == 0) out += "// the end";
  c->script = out;
  c->files[c->script_name] = out;
}

std::vector<std::string> Case::Argv() const {
  std::vector<std::string> a = {"stl-to-ps"};
  for (auto& f : flags) a.push_back(f);
  return a;
}

Case GenCase(Src& s, const GenOpt& o) {
  Case c;
  Fm fm{Rng(0), true};
  uint64_t style = s.below(64);
  fm.plain = style < 8;
  fm.f = Rng(style * 77 + 5);
  bool plain = fm.plain;
  const bool large = o.big && s.below(24) == 23;
  // --- names of the files
  if (o.any_flags) {
    static const std::vector<std::string> names = {"s.txt", "plan.script", "in/drawing.txt", "a b.txt", "./s.txt", "/work/abs.txt"};
    static const std::vector<std::string> outs = {"out.ps", "result", "build/out.ps", "o p.ps", "./out.ps", "/work/out.ps"};
    if (!plain) { c.script_name = s.pick(names); c.out_name = s.pick(outs); }
    if (!plain && s.below(40) == 39) {  // names as long as they may be
      auto lengthen = [&](const std::string& n) {
        static const int k[] = {100, 130, 200, 250};
        std::string l;
        for (int deep = s.below(3) == 2 ? 1 + int(s.below(5)) : 0; deep--;) l += std::string(k[s.below(4)], 'd') + "/";
        return l + std::string(k[s.below(4)], 'n') + n.substr(n.rfind('/') + 1);
      };
      uint64_t w = s.below(3);
      if (w != 1) c.script_name = lengthen(".txt");
      if (w != 0) c.out_name = lengthen(".ps");
    }
  }
  auto real = [](const std::string& n) {
    std::string r = n;
    if (r[0] == '/') r = "rootfs" + r;
    if (r.compare(0, 2, "./") == 0) r = r.substr(2);
    return r;
  };
  std::string script_file = real(c.script_name), out_file = real(c.out_name);
  // --- models
  size_t nm = std::max<size_t>(o.min_models, s.skew(large ? 24 : 8));
  std::vector<std::string> used;
  for (size_t i = 0; i < nm; i++) {
    ModelRef m;
    m.var = Fmt("m%d", int(i));
    if (!plain && fm.f.below(3) == 0) m.var = Fmt("_Model%d_%s", int(i), std::string(fm.f.below(40), 'x').c_str());
    if (!plain && fm.f.below(12) == 0) m.var = Fmt("page%d", int(i));
    uint64_t k = plain ? 0 : s.below(16);
    if (k == 15 && i > 0) {  // the same file again
      m.file = c.models[0].file;
      m.model = c.models[0].model;
    } else if (k == 14) {
      m.file = "/dev/null";
    } else {
      if (k == 13) m.file = Fmt("/work/model%d.stl", int(i));
      else if (k == 12) m.file = Fmt("sub/dir/m%d.stl", int(i));
      else if (k == 11) m.file = Fmt("m %d (copy).stl", int(i));
      else if (k == 10) m.file = Fmt("sub/../x%d.stl", int(i));
      else if (k == 9 && s.below(8) == 7) m.file = std::string(20 + s.below(230), 'm') + Fmt("%d", int(i));
      else m.file = Fmt("m%d.stl", int(i));
      if (s.below(30) != 29) m.model = GenModel(s, large ? 6 : 3);
      c.files[Norm(real(m.file))] = Stl(m.model, s, plain);
      if (k == 10) c.files["sub/"] = "";
    }
    c.models.push_back(m);
    Rng q(0);
    c.pieces.push_back({"load" + std::string(plain || fm.f.below(3) ? " " : "\t ") + m.var + fm.ws() + "=" + fm.ws() + Quote(m.file, q, false) + fm.ws() + ";", -1, 0});
  }
  // Loads may go over several lines; the drivers look for the name's quotes.
  static const std::string kNote = "// note { \" ;\n";
  for (auto& p : c.pieces) for (size_t i; (i = p.text.find(kNote)) != std::string::npos;) p.text.replace(i, kNote.size(), "// note\n");
  std::vector<Piece> loads = c.pieces;
  c.pieces.clear();
  // --- pages
  size_t np = s.skew(large ? o.max_pages : std::min(o.max_pages, 8));
  if (np == 0 && s.below(4)) np = 1;
  // Very many pages, around the numbers where counters turn over.
  const bool mass = o.big && !large && o.max_pages >= 40 && s.below(100) == 99;
  if (mass) {
    static const size_t k[] = {99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 512, 1000};
    np = k[s.below(12)];
  }
  // One text that is longer, or has more lines, than anyone would expect.
  int giant = o.big && !mass && !large && s.below(120) == 119 ? 1 + int(s.below(6)) : 0;
  size_t budget = large ? 40000 : 6000;  // bytes of text
  int draws_left = large ? 12 : 5;
  for (size_t pg = 0; pg < np; pg++) {
    ExpPage ep;
    const int P = int(pg);
    if (pg && !mass && s.below(8) == 7) {  // the same page once more
      std::vector<Piece> again;
      for (auto& x : c.pieces) if (x.page == P - 1) { again.push_back(x); again.back().page = P; }
      c.pieces.insert(c.pieces.end(), again.begin(), again.end());
      ep = c.exp.pages.back();
      c.exp.pages.push_back(ep);
      continue;
    }
    std::vector<std::vector<Piece>> parts;
    if (mass ? pg % 16 == 3 : s.below(3) != 0) {
      Rng t(s.below(1000));
      ep.title = RandText(t, s.skew(60), false);
      // \n is allowed but would be an odd title
      parts.push_back({{fm.kv("name", Quote(ep.title, t, !plain)) + fm.ws() + ";", P, 2}});
    }
    size_t items = mass ? (pg % 16 == 9 || pg + 1 == np ? 1 : 0) : s.skew(large ? 24 : 5);
    std::vector<std::pair<size_t, ExpPage>> built;
    size_t text0 = 0, edges0 = 0, lines0 = 0, arcs0 = 0;
    for (size_t it = 0; it < items; it++) {
      std::vector<Piece> q;
      if (it && s.below(10) == 9) {  // the same thing once more, in the same place
        size_t t1 = ep.text.size(), e1 = ep.edges.size();
        for (size_t i = text0; i < t1; i++) { TextItem ti = ep.text[i]; ep.text.push_back(ti); }
        for (size_t i = edges0; i < e1; i++) { Seg e = ep.edges[i]; ep.edges.push_back(e); }
        size_t dl = ep.extra_lines - lines0, da = ep.arcs - arcs0;
        text0 = t1; edges0 = e1; lines0 = ep.extra_lines; arcs0 = ep.arcs;
        ep.extra_lines += int(dl); ep.arcs += int(da);
        parts.push_back(parts.back());
        continue;
      }
      text0 = ep.text.size(); edges0 = ep.edges.size(); lines0 = ep.extra_lines; arcs0 = ep.arcs;
      bool draw = !c.models.empty() && draws_left > 0 && s.below(3) == 1;
      if (!draw) {
        Rng t(s.below(100000));
        size_t len = std::min<size_t>(budget, 1 + s.skew(large ? 3000 : 200));
        if (len < 1) len = 1;
        budget -= std::min(budget, len);
        std::string txt = RandText(t, len, true);
        if (giant) {
          static const size_t k[] = {255, 256, 1000, 1024, 4095, 4096, 8192, 16384, 32768, 65535, 65536, 70000, 140000};
          size_t m = k[s.below(13)];
          txt.clear();
          if (giant < 4) {
            txt = RandText(t, m, false);
          } else {
            if (giant == 6) m = std::min<size_t>(m, 9000);
            for (size_t i = 0; i + 1 < m; i++) txt += giant == 4 ? i % 64 == 5 ? "x\n" : "\n" : "y\n";
            txt += "last";
          }
          giant = 0;
        }
        V2 at = {0, 0};
        q.push_back({"text" + fm.ws() + "[" + fm.ws() + Quote(txt, t, !plain && txt.size() < 10000) + fm.ws() + "]" + fm.ws() + "{", P, 8});
        if (s.below(3)) {
          at = {double(s.range(-20, 20)) / 4, double(s.range(-16, 16)) / 4};
          q.push_back({"@" + fm.ws() + fm.p2(at) + fm.ws() + ";", P, 9});
        }
        q.push_back({"}", P, 10});
        double y = 306 + 72 * at.y, x = 396 + 72 * at.x;
        size_t a = 0;
        for (;;) {
          size_t b = txt.find('\n', a);
          std::string l = txt.substr(a, b == std::string::npos ? b : b - a);
          if (!l.empty()) { TextItem ti; ti.s = l; ti.at = {x, y}; ep.text.push_back(ti); }
          y -= 12;
          if (b == std::string::npos) break;
          a = b + 1;
        }
      } else {
        draws_left--;
        const ModelRef& m = c.models[s.below(c.models.size())];
        std::vector<Piece> meta;
        // a line break between draw and its name is fine
        q.push_back({"draw " + fm.ws() + m.var + fm.ws() + "{", P, 3});
        double scale = 72;
        if (s.below(2)) {
          int a = 1 + int(s.below(4)), b = 1 + int(s.below(8));
          scale = 72.0 * a / b;
          meta.push_back({fm.kv("scale", Fmt("%d", a) + fm.ws() + ":" + fm.ws() + Fmt("%d", b)) + ";", P, 4});
        }
        View v = AxisView(0);
        int axis = int(s.below(8));
        if (axis < 6) {
          v = AxisView(axis);
          if (axis) meta.push_back({fm.kv("view", std::string("\"") + kAxis[axis] + "\"") + ";", P, 4});
        } else if (axis == 6) {
          double a = double(s.range(-180, 180)), b = double(s.range(-90, 90));
          v = AngleView(a, b);
          meta.push_back({fm.kv("view", fm.p2({a, b})) + ";", P, 4});
        } else {
          v = AxisView(0);
          meta.push_back({fm.kv("view", "\"Z+\"") + ";", P, 4});
          axis = 0;
        }
        V2 loc = {0, 0};
        if (s.below(4)) {
          V2 at = {double(s.range(-20, 20)) / 4, double(s.range(-16, 16)) / 4};
          loc = {396 + 72 * at.x, 306 + 72 * at.y};
          meta.push_back({"@" + fm.ws() + fm.p2(at) + fm.ws() + ";", P, 4});
        }
        Proj pr = Project(m.model, v);
        V2 d = {loc.x - (pr.lo[0] + pr.hi[0]) / 2 * scale, loc.y - (pr.lo[1] + pr.hi[1]) / 2 * scale};
        if (!pr.known) ep.edges_known = false;
        for (auto& e : pr.edges)
          ep.edges.push_back({{e.a.x * scale + d.x, e.a.y * scale + d.y}, {e.b.x * scale + d.x, e.b.y * scale + d.y}});
        size_t nd = o.dims ? s.skew(large ? 12 : 4) : 0;
        auto rp = [&] { return V3{double(s.range(-20, 20)) / 4, double(s.range(-20, 20)) / 4, double(s.range(-20, 20)) / 4}; };
        std::vector<Piece> dims;
        for (size_t k = 0; k < nd; k++) {
          std::vector<std::string> args;
          uint64_t kind = s.below(4);
          std::string fmts;
          int dec = 3;
          auto fmt_arg = [&](const char* def, int defdec) {
            fmts = def;
            dec = defdec;
            if (s.below(3) == 2) {
              dec = int(s.below(6));
              fmts = s.below(6) == 5 ? Fmt("%%%s%d.%df", s.below(2) ? "0" : s.below(2) ? "+" : "", int(20 + s.below(s.below(2) ? 60 : 400)), dec) : Fmt("%%.%df", dec);
              if (s.below(2)) fmts += " mm";
              args.push_back(fm.kv("fmt", "\"" + fmts + "\""));
            }
          };
          auto put = [&](V3 at, std::string prefix, double val, std::string suffix) {
            TextItem t;
            t.numeric = true;
            t.prefix = prefix;
            size_t u = fmts.find('f');
            t.suffix = (u == std::string::npos ? "" : fmts.substr(u + 1)) + suffix;
            t.value = val;
            V3 q2 = v.Apply(at);
            t.at = {q2.x * scale + d.x, q2.y * scale + d.y};
            ep.text.push_back(t);
          };
          const Solid* ring = nullptr;
          if (kind >= 2 && axis == 0 && m.model.solids.size() == 1 && m.model.solids[0].v.size() >= 10 && m.model.solids[0].v.size() % 2 == 0) {
            ring = &m.model.solids[0];
          }
          if (kind >= 2 && ring) {  // dia or rad of a prism seen from above
            size_t n = ring->v.size() / 2;
            V3 ce;
            for (size_t i = 0; i < n; i++) { ce.x += ring->v[i].x / n; ce.y += ring->v[i].y / n; }
            double r = 0;
            for (size_t i = 0; i < n; i++) r += hypot(ring->v[i].x - ce.x, ring->v[i].y - ce.y) / n;
            V3 at = {ce.x + Grid(s.range(-64, 640)), ce.y + Grid(s.range(32, 640)), 0};
            V3 dir = {double(1 + s.below(4)), double(1 + s.below(4)), 0};
// Looked for from the right: the tool's search for the three closest
            // vertices gives up early when the first one it meets is the closest.
            V3 cq = {round(ce.x * 64) / 64 + 20 + Grid(s.range(0, 64)), round(ce.y * 64) / 64 + 1 + Grid(s.range(0, 64)), 0};
            args = {fm.kv("at", fm.p3(at)), fm.kv("dir", fm.p3(dir)), fm.kv("center", fm.p3(cq))};
            fmt_arg("%.3f", 3);
            if (kind == 2) { put(at, "\xe9", 2 * r, ""); ep.extra_lines += 6; }
            else { put(at, "R", r, ""); ep.extra_lines += 4; }
            ep.text.back().loose = true;
          } else if (kind == 1) {
            V3 apex = rp(), at = rp();
            at.x = apex.x + 1 + double(s.below(8)) / 4;
            V3 a = {double(s.range(-4, 4)), double(s.range(-4, 4)), double(s.range(-4, 4))};
            V3 b = {double(s.range(-4, 4)), double(s.range(-4, 4)), double(s.range(-4, 4))};
            auto flat = [&] { return fabs(v.Apply(Cross(a, b)).z) < .1; };  // seen edge-on: no angle
            if (flat()) { a = {1, 0, 0}; b = {0, 1, 0}; }
            if (flat()) { a = {0, 1, 0}; b = {0, 0, 1}; }
            if (flat()) { a = {1, 0, 0}; b = {0, 0, 1}; }
            args = {fm.kv("at", fm.p3(at)), fm.kv("apex", fm.p3(apex))};
            if (s.below(2)) args.push_back(fm.kv("from_dir", fm.p3(a)));
            else args.push_back(fm.kv("from_point", fm.p3({apex.x + a.x, apex.y + a.y, apex.z + a.z})));
            if (s.below(2)) args.push_back(fm.kv("to_dir", fm.p3(b)));
            else args.push_back(fm.kv("to_point", fm.p3({apex.x + b.x, apex.y + b.y, apex.z + b.z})));
            fmt_arg("%.1f", 1);
            double cs = std::max(-1.0, std::min(1.0, Dot(Unit(a), Unit(b))));
            put(at, "", acos(cs) * 180 / M_PI, " deg");
            ep.extra_lines += 6;
            ep.arcs += 1;
            kind = 1;
          } else {
            V3 from = rp(), to = rp(), at = rp(), dir;
            dir = {double(s.range(-2, 2)), double(s.range(-2, 2)), double(s.range(-2, 2))};
            if (Norm3(dir) < .5) dir = {1, 0, 0};
            bool near_ok = v.axis && !pr.verts.empty();
            std::string fs = fm.p3(from), ts = fm.p3(to);
            if (near_ok && s.below(2)) { from = pr.verts[s.below(pr.verts.size())]; fs = "near" + fm.ws() + "(" + fm.p3(from) + fm.ws() + ")"; }
            if (near_ok && s.below(2)) { to = pr.verts[s.below(pr.verts.size())]; ts = "near(" + fm.p3(to) + ")"; }
            // The nearest point to the nearest point is that point.
            if (ts[0] == 'n' && s.below(12) == 11) {
              static const int k[] = {1, 2, 3, 5, 9, 20, 70, 300};
              for (int d = k[s.below(8)]; d > 0; d--) ts = "near(" + ts + ")";
            }
            args = {fm.kv("from", fs), fm.kv("to", ts), fm.kv("at", fm.p3(at)), fm.kv("dir", fm.p3(dir))};
            fmt_arg("%.3f", 3);
            put(at, "", fabs(Dot(Unit(dir), Sub(to, from))), "");
            ep.extra_lines += 8;
            kind = 0;
          }
          // order of the arguments is free
          if (args.size() > 1 && !plain) std::swap(args[0], args[s.below(args.size())]);
          static const char* const kw[] = {"dim", "angle", "dia", "rad"};
          std::string t = std::string(kw[kind]) + fm.ws() + "(";
          for (size_t i = 0; i < args.size(); i++) t += (i ? "," : "") + fm.ws() + args[i];
          dims.push_back({t + fm.ws() + ")" + fm.ws() + ";", P, 5});
        }
        if (!plain && s.below(2)) { for (auto& x : dims) q.push_back(x); for (auto& x : meta) q.push_back(x); }
        else { for (auto& x : meta) q.push_back(x); for (auto& x : dims) q.push_back(x); }
        q.push_back({"}", P, 6});
      }
      parts.push_back(q);
    }
    // the page name may stand anywhere between the items
    if (!ep.title.empty() && parts.size() > 1 && parts[0][0].kind == 2) {
      size_t w = s.below(parts.size());
      std::vector<Piece> nm2 = parts[0];
      parts.erase(parts.begin());
      parts.insert(parts.begin() + w, nm2);
    }
    if (!loads.empty() && s.below(6) == 5) { c.pieces.push_back(loads.front()); loads.erase(loads.begin()); }
    c.pieces.push_back({"page" + fm.ws() + "{", P, 1});
    for (auto& q : parts) for (auto& x : q) c.pieces.push_back(x);
    c.pieces.push_back({"}", P, 7});
    c.exp.pages.push_back(ep);
  }
  // the rest of the loads goes first or last
  if (s.below(5) == 4) for (auto& l : loads) c.pieces.push_back(l);
  else c.pieces.insert(c.pieces.begin(), loads.begin(), loads.end());
  // models are listed in the order of their statements in the script
  {
    std::vector<ModelRef> order;
    for (auto& p : c.pieces) {
      if (p.kind != 0) continue;
      for (auto& m : c.models) {
        size_t at = p.text.find(m.var);
        if (at == std::string::npos) continue;
        char e = p.text[at + m.var.size()];
        if (isalnum(e) || e == '_') continue;
        if (at && (isalnum(p.text[at - 1]) || p.text[at - 1] == '_')) continue;
        if (p.text.find('=') < at) continue;
        order.push_back(m);
        break;
      }
    }
    if (order.size() == c.models.size()) c.models = order;
  }
  Case tmp = c;
  std::string sn = c.script_name;
  c.script_name = script_file;  // where Assemble stores it
  Assemble(&c, s, plain);
  c.script_name = sn;
  size_t slash = out_file.rfind('/');
  if (slash != std::string::npos) c.files[out_file.substr(0, slash + 1)] = "";
  // --- flags
  int fs = plain ? 0 : int(s.below(4));
  auto flag = [&](const std::string& k, const std::string& v) {
    if (fs == 2 && !v.empty()) { c.flags.push_back("--" + k); c.flags.push_back(v); }
    else if (fs == 3) c.flags.push_back("-" + k + "=" + v);
    else c.flags.push_back("--" + k + "=" + v);
  };
  flag("script", c.script_name);
  flag("output", c.out_name);
  if (o.any_flags) {
    if (s.below(3) == 2) { Rng t(s.below(500)); c.name_flag = "N" + RandText(t, s.skew(40), false); flag("name", c.name_flag); }
    switch (s.below(8)) {
      case 5: c.timestamp = false; c.flags.push_back("--notimestamp"); break;
      case 6: c.timestamp = false; c.flags.push_back("--timestamp=false"); break;
      case 7: c.flags.push_back("--timestamp"); break;
    }
    switch (s.below(8)) {
      case 6: c.numbers = false; c.flags.push_back("--nonumber_pages"); break;
      case 7: c.numbers = false; c.flags.push_back("--number_pages=0"); break;
    }
    if (s.below(6) == 5) { c.load_path_given = true; c.load_path = {"nowhere", "also/nowhere"}; flag("load_path", "nowhere,also/nowhere"); }
    if (!plain && c.flags.size() > 2 && fs != 2) std::swap(c.flags[0], c.flags[s.below(c.flags.size())]);
  }
  return c;
}

// ---------------------------------------------------------------- documents
Doc ParseDoc(const std::string& ps) {
  Doc d;
  size_t i = 0, n = ps.size();
  auto grab = [&](const char* key, std::string* out) {
    size_t a = ps.find(key);
    if (a == std::string::npos) return false;
    a += strlen(key);
    size_t b = ps.find('\n', a);
    if (b == std::string::npos) return false;
    *out = ps.substr(a, b - a);
    return true;
  };
  if (ps.compare(0, 2, "% ") != 0) { d.error = "does not start with the document header"; return d; }
  if (!grab("\n% Name: ", &d.h_name) || !grab("\n% Source: ", &d.h_source) || !grab("\n% Time: ", &d.h_time)) {
    d.error = "document header incomplete";
    return d;
  }
  struct Val { bool num; double v; std::string s; bool str; };
  std::vector<Val> st;
  std::vector<V2> path;
  bool in_page = false, font = false;
  DocPage cur;
  V2 pos;
  bool have_pos = false;
  bool centered = false;
  auto fail = [&](const std::string& e) { d.error = e; return d; };
  int depth = 0;
  // Everything up to the font set-up is the header's own code.
  size_t body = ps.find("scalefont setfont");
  if (body == std::string::npos) return fail("document header incomplete (no font)");
  font = true;
  i = body + strlen("scalefont setfont");
  while (i < n) {
    char ch = ps[i];
    if (ch == '%') { while (i < n && ps[i] != '\n') i++; continue; }
    if (isspace((unsigned char)ch)) { i++; continue; }
    if (ch == '(') {
      std::string s;
      int par = 1;
      i++;
      while (i < n && par) {
        char c = ps[i];
        if (c == '\\') {
          if (i + 1 >= n) return fail("string cut off");
          char e = ps[i + 1];
          if (e >= '0' && e <= '7') {
            int v = 0, k = 0;
            while (k < 3 && i + 1 < n && ps[i + 1] >= '0' && ps[i + 1] <= '7') { v = v * 8 + (ps[i + 1] - '0'); i++; k++; }
            s += char(v);
            i++;
          } else { s += e; i += 2; }
          continue;
        }
        if (c == '(') par++;
        if (c == ')' && --par == 0) { i++; break; }
        s += c;
        i++;
      }
      if (par) return fail("string not closed");
      st.push_back({false, 0, s, true});
      continue;
    }
    if (ch == '<' || ch == '>' || ch == '[' || ch == ']' || ch == '{' || ch == '}') {
      if (ch == '<') depth++;
      i++;
      continue;
    }
    size_t j = i;
    while (j < n && !isspace((unsigned char)ps[j]) && !strchr("()<>[]{}%", ps[j])) j++;
    std::string t = ps.substr(i, j - i);
    i = j;
    char* e;
    double v = strtod(t.c_str(), &e);
    if (!*e) { st.push_back({true, v, "", false}); continue; }
    if (t[0] == '/') continue;
    auto pop2 = [&](V2* o) {
      if (st.size() < 2 || !st[st.size() - 1].num || !st[st.size() - 2].num) return false;
      *o = {st[st.size() - 2].v, st[st.size() - 1].v};
      st.resize(st.size() - 2);
      return true;
    };
    if (t == "setpagedevice") { if (in_page) return fail("page starts before the previous one ended"); in_page = true; cur = DocPage(); st.clear(); }
    else if (t == "setlinewidth") st.clear();
    else if (t == "newpath") { path.clear(); have_pos = false; centered = false; st.clear(); }
    else if (t == "moveto") { if (!pop2(&pos)) return fail("moveto without a point"); have_pos = true; path.push_back(pos); }
    else if (t == "lineto") { V2 p; if (!have_pos || !pop2(&p)) return fail("lineto without a point"); path.push_back(p); }
    else if (t == "arc") { if (st.size() < 5) return fail("arc cut off"); st.clear(); cur.arcs++; path.clear(); }
    else if (t == "stroke") {
      if (!in_page) return fail("drawing outside of a page");
      if (path.size() == 2) cur.lines.push_back({path[0], path[1]});
      else if (path.size() > 2) cur.border = true;
      path.clear();
    } else if (t == "CenterText") centered = true;
    else if (t == "show") {
      if (!in_page) return fail("text outside of a page");
      if (st.empty() || !st.back().str || !have_pos) return fail("show without text");
      cur.text.push_back({st.back().s, pos, centered});
      st.clear();
    } else if (t == "showpage") {
      if (!in_page) return fail("page end without page");
      cur.done = true;
      d.pages.push_back(cur);
      in_page = false;
      st.clear();
    } else return fail("unknown operator '" + t.substr(0, 40) + "'");
  }
  (void)font;
  if (in_page) return fail("last page is not finished");
  if (!st.empty() || !path.empty()) return fail("something follows the last page");
  d.ok = true;
  return d;
}

namespace {
bool IsTime(const std::string& s, size_t i) {
  static const char pat[] = "dddd-dd-dd dd:dd:dd";
  if (i + 19 > s.size()) return false;
  for (int k = 0; k < 19; k++) {
    if (pat[k] == 'd' ? !isdigit((unsigned char)s[i + k]) : s[i + k] != pat[k]) return false;
  }
  return true;
}
double DistToSeg(V2 p, const Seg& s) {
  double dx = s.b.x - s.a.x, dy = s.b.y - s.a.y, l2 = dx * dx + dy * dy;
  double t = l2 > 0 ? ((p.x - s.a.x) * dx + (p.y - s.a.y) * dy) / l2 : 0;
  t = std::max(0.0, std::min(1.0, t));
  return hypot(p.x - s.a.x - t * dx, p.y - s.a.y - t * dy);
}
double Param(V2 p, const Seg& s) {
  double dx = s.b.x - s.a.x, dy = s.b.y - s.a.y, l2 = dx * dx + dy * dy;
  return l2 > 0 ? ((p.x - s.a.x) * dx + (p.y - s.a.y) * dy) / l2 : 0;
}
bool NearPt(V2 a, V2 b, double tol) { return fabs(a.x - b.x) <= tol && fabs(a.y - b.y) <= tol; }
}  // namespace

std::string MaskTime(const std::string& ps) {
  // Only where time stamps belong: the header's time line, and the start of a
  // string shown at the label position.  A document that ends within a time
  // stamp has the part that is there masked.
  std::string r = ps;
  static const std::string mask = "TTTT-TT-TT TT:TT:TT";
  auto cover = [&](size_t at) {
    if (IsTime(r, at)) { r.replace(at, 19, mask); return; }
    size_t n = r.size() - at;
    if (n >= 19) return;
    for (size_t i = 0; i < n; i++)
      if (mask[i] == 'T' ? !isdigit((unsigned char)r[at + i]) : mask[i] != r[at + i]) return;
    r.replace(at, n, mask.substr(0, n));
  };
  size_t a = r.find("\n% Time: ");
  if (a == std::string::npos) return r;
  cover(a + 9);
  const std::string key = "newpath 7 7 moveto (";
  for (size_t i = 0; (i = r.find(key, i)) != std::string::npos; i += key.size()) cover(i + key.size());
  return r;
}

std::vector<std::string> Times(const Doc& d) {
  std::vector<std::string> r = {d.h_time};
  for (auto& p : d.pages)
    if (!p.text.empty() && NearPt(p.text[0].at, {7, 7}, 1e-6) && IsTime(p.text[0].s, 0)) r.push_back(p.text[0].s.substr(0, 19));
  return r;
}

std::string CheckDoc(const Case& c, const std::string& ps) {
  Doc d = ParseDoc(ps);
  if (!d.ok) return "document is malformed: " + d.error;
  if (d.h_name != c.name_flag) return "header: name is '" + d.h_name + "'";
  if (d.h_source != c.script_name) return "header: source is '" + d.h_source + "'";
  if (d.pages.size() != c.exp.pages.size()) return Fmt("document has %d pages, the script %d", int(d.pages.size()), int(c.exp.pages.size()));
  const int N = int(d.pages.size());
  for (int k = 0; k < N; k++) {
    const DocPage& p = d.pages[k];
    const ExpPage& e = c.exp.pages[k];
    std::string at = Fmt("page %d of %d: ", k + 1, N);
    if (!p.border) return at + "no border";
    size_t i = 0;
    if (c.timestamp || c.numbers) {
      if (p.text.empty()) return at + "no label";
      std::string l = p.text[0].s, want = Fmt("page %d of %d", k + 1, N);
      if (c.timestamp) {
        if (!IsTime(l, 0)) return at + "label without time: '" + l.substr(0, 80) + "'";
        l = l.substr(19);
        if (c.numbers) { if (l.empty() || l[0] != ' ') return at + "label is '" + p.text[0].s.substr(0, 80) + "'"; l = l.substr(1); }
      }
      if (l != (c.numbers ? want : "")) return at + "label is '" + p.text[0].s.substr(0, 80) + "'";
      i = 1;
    }
    for (size_t j = 0; j < e.text.size(); j++, i++) {
      const TextItem& t = e.text[j];
      if (i >= p.text.size()) return at + "text missing: '" + t.s.substr(0, 60) + t.prefix + "'";
      const DocText& g = p.text[i];
      if (t.numeric) {
        const std::string& s = g.s;
        if (s.size() < t.prefix.size() + t.suffix.size() || s.compare(0, t.prefix.size(), t.prefix) != 0 ||
            s.compare(s.size() - t.suffix.size(), t.suffix.size(), t.suffix) != 0)
          return at + "expected a measure, got '" + s.substr(0, 60) + "'";
        std::string m = s.substr(t.prefix.size(), s.size() - t.prefix.size() - t.suffix.size());
        char* end;
        double v = strtod(m.c_str(), &end);
        if (*end || m.empty()) return at + "expected a measure, got '" + s.substr(0, 60) + "'";
        size_t dot = m.find('.');
        int dec = dot == std::string::npos ? 0 : int(m.size() - dot - 1);
        double tol = pow(10, -dec) * .51 + (t.loose ? fabs(t.value) * .03 : fabs(t.value) * 1e-6 + 1e-4);
        if (!(fabs(v - t.value) <= tol)) return at + Fmt("measure %s, expected %.6f", m.c_str(), t.value);
      } else if (g.s != t.s) {
        return at + "text '" + g.s.substr(0, 60) + "', expected '" + t.s.substr(0, 60) + "'";
      }
      double tol = 2e-5 * (fabs(t.at.x) + fabs(t.at.y)) + 2e-3;
      if (!t.loose && !NearPt(g.at, t.at, tol)) return at + Fmt("text at %g %g, expected %g %g", g.at.x, g.at.y, t.at.x, t.at.y);
    }
    if (i + 1 != p.text.size()) return at + Fmt("%d texts, expected %d", int(p.text.size()), int(i + 1));
    if (p.text[i].s != e.title) return at + "title is '" + p.text[i].s.substr(0, 60) + "'";
    if (!NearPt(p.text[i].at, {784 - 4.8 * e.title.size(), 8}, .02)) return at + "title misplaced";
    if (p.arcs != e.arcs) return at + Fmt("%d arcs, expected %d", p.arcs, e.arcs);
    const int extra = e.extra_lines + 2;
    if (!e.edges_known) {
      if (int(p.lines.size()) < extra) return at + Fmt("only %d lines", int(p.lines.size()));
      continue;
    }
    if (p.lines.size() < e.edges.size() + extra)
      return at + Fmt("%d lines, expected at least %d", int(p.lines.size()), int(e.edges.size() + extra));
    // Every expected edge is covered by lines along it; every other line is one of the extra ones.
    int off = 0;
    std::vector<char> on(p.lines.size(), 0);
    double big = 800;
    for (auto& s : e.edges) big = std::max({big, fabs(s.a.x), fabs(s.a.y), fabs(s.b.x), fabs(s.b.y)});
    double tol = big * 2e-5;
    for (auto& s : e.edges) {
      double len = hypot(s.b.x - s.a.x, s.b.y - s.a.y);
      std::vector<std::pair<double, double>> iv;
      for (size_t q = 0; q < p.lines.size(); q++) {
        const Seg& g = p.lines[q];
        if (DistToSeg(g.a, s) > tol || DistToSeg(g.b, s) > tol) continue;
        on[q] = 1;
        double a = Param(g.a, s), b = Param(g.b, s);
        iv.emplace_back(std::min(a, b), std::max(a, b));
      }
      if (len < 40 * tol) continue;
      std::sort(iv.begin(), iv.end());
      double got = 0, to = 0;
      for (auto& x : iv) { double a = std::max(x.first, to), b = x.second; if (b > a) { got += b - a; to = b; } }
      if (got < 1 - 4 * tol / len - 1e-3)
        return at + Fmt("edge %g %g - %g %g drawn only to %.1f%%", s.a.x, s.a.y, s.b.x, s.b.y, got * 100);
    }
    for (char x : on) if (!x) off++;
    if (off > extra) return at + Fmt("%d lines that belong to nothing (%d expected)", off, extra);
  }
  return "";
}

}  // namespace sim
