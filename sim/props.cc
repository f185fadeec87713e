#include "props.h"

#include <signal.h>
#include <ctype.h>
#include <errno.h>
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>

#include <algorithm>
#include <array>
#include <functional>
#include <set>

namespace sim {
namespace {

std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string Fmt(const char* f, ...) {
  char b[1024];
  va_list a;
  va_start(a, f);
  int n = vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return std::string(b, std::min<size_t>(n, sizeof b - 1));
}
std::string Real(const std::string& n) { return RealPath(n); }  // where the scratch directory has it
std::string Show(const std::string& s, size_t max = 3000) {
  std::string r;
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = s[i];
    if (c == '\n' || (c >= 32 && c < 127)) r += char(c);
    else r += Fmt("\\x%02x", c);
  }
  if (s.size() > max) r += Fmt("\n... (%zu bytes)", s.size());
  return r;
}

// ------------------------------------------------------------------ running
Plan BasePlan(const Case& c) {
  Plan p;
  p.argv = c.Argv();
  p.env = {{"TZ", "UTC"}};
  return p;
}

void LogPlan(Ctx& x, const Plan& p) {
  auto& o = x.log;
  o << "  run:";
  for (auto& a : p.argv) o << " '" << a << "'";
  o << "\n";
  for (auto& e : p.env) if (e.first != "TZ" || e.second != "UTC") o << "    env " << e.first << "=" << e.second << "\n";
  for (auto& f : p.faults)
    o << "    fault " << kFaultName[f.kind] << " path=" << f.path << " at=" << f.at << " errno=" << f.err << " count=" << f.count << "\n";
  for (auto& d : p.delivery)
    o << "    delivery path=" << d.path << " max_read=" << d.max_read << " max_write=" << d.max_write << " eintr/1000=" << d.eintr_per_1k
      << " noseek=" << d.noseek << " latency_ns=" << d.latency_ns << "\n";
  if (p.crash_op >= 0) o << "    crash at operation " << p.crash_op << "\n";
  if (p.crash_byte >= 0) o << "    crash at output byte " << p.crash_byte << "\n";
  if (p.crash_step >= 0) o << "    crash at basic block " << p.crash_step << "\n";
  if (p.crash_sig) o << "    the crash is signal " << p.crash_sig << "\n";
  if (p.alloc_mode) o << "    allocation failure mode=" << p.alloc_mode << " n=" << p.alloc_n << " size=" << p.alloc_size << "\n";
  for (auto& j : p.jumps) o << "    clock jump on=" << j.on << " at=" << j.at << " by_ns=" << j.delta_ns << "\n";
  if (p.per_step_ns || p.per_op_ns || p.per_read_ns)
    o << "    clock: per block " << p.per_step_ns << "ns, per operation " << p.per_op_ns << "ns, per reading " << p.per_read_ns << "ns\n";
  if (p.fill_mode || p.heap_shift || p.stack_shift || p.heap_scatter)
    o << "    memory: fill=" << p.fill_mode << " heap+" << p.heap_shift << " pages" << (p.heap_scatter ? " scattered" : "") << ", stack+" << p.stack_shift << "\n";
  for (auto& w : p.swaps) {
    o << "    before operation " << w.op << ": " << w.path << (w.gone ? " removed" : " replaced by") << "\n";
    if (!w.gone) o << Show(w.data, 3000) << "\n";
  }
  if (p.stderr_mode) o << "    standard error is full\n";
  if (p.locks) o << "    another process holds a lock on every file\n";
  if (p.fresh) o << "    every file was written just now\n";
  if (p.stdin_mode) o << "    standard input " << (p.stdin_mode == 3 ? "a silent terminal" : p.stdin_mode == 2 ? "closed" : "has " + Fmt("%d bytes", int(p.stdin_text.size()))) << "\n";
  if (p.id_seed) o << "    another host, user and terminal: " << p.id_seed << "\n";
  if (p.phantom) o << "    files nobody named exist: " << p.phantom << "\n";
  if (p.env_any) o << "    every variable is set: " << p.env_any << "\n";
  for (size_t i = 0; i < p.acts.size(); i++) {
    auto& a = p.acts[i];
    static const char* const k[] = {"convert", "write", "remove"};
    if (a.host) o << "    the caller has habits: " << a.host << " locale=" << a.c_locale << " lead=" << a.lead.size() << " head=" << a.head.size() << "\n";
    o << "    act " << i << ": " << k[a.k] << " src=" << a.src << " file=" << a.file << " out=" << a.out;
    if (a.out_limit >= 0) o << " stream_fails_after=" << a.out_limit;
    if (a.out_fail_sync) o << " sync_fails=" << a.out_fail_sync;
    if (!a.text.empty()) o << " text(" << a.text.size() << "):\n" << Show(a.text, 2000);
    o << "\n";
  }
  for (auto& s : p.preempt) o << "    switch at block " << s.first << " to +" << s.second << "\n";
  if (p.places) o << "    switches at places of the code, 1/" << p.places << ", seed " << p.quantum_seed << "\n";
  if (p.quantum_max) o << "    random quanta up to " << p.quantum_max << " blocks\n";
}
void LogFiles(Ctx& x, const Files& f) {
  if (!x.logging) return;
  for (auto& i : f) {
    x.log << "  file " << i.first << " (" << i.second.size() << " bytes)\n";
    if (i.first.back() != '/') x.log << Show(i.second, 4000) << "\n";
  }
}

Outcome Go(Ctx& x, const Plan& p) {
  if (x.logging) LogPlan(x, p);
  Outcome o = Exec(p, x.logging);
  x.runs++;
  x.steps += o.steps;
  x.ops += o.ops;
  x.bytes_in += o.bytes_in;
  x.bytes_out += o.bytes_out;
  x.switches += o.switches;
  x.clock_reads += o.clock_reads;
  x.allocs += o.allocs;
  if (o.end_reason == E_CRASH) x.crashes++;
  else if (o.sig) x.killed++;
  else if (o.exited && o.code == 0) x.exit0++;
  else x.exit_fail++;
  for (auto& s : o.clock) x.vt_s += double(s.second - s.first) * 1e-9;
  for (int i = 0; i < F_NKINDS; i++) {
    x.fired[i] += o.fired[i];
    if (o.fired[i]) x.runs_with[i]++;
  }
  x.traces.insert(o.ev_hash);
  if (o.switches) x.interleavings.insert(o.il_hash);
  x.last_trace = o.ev_hash;
  x.digest = Hash(&o.ev_hash, 8, x.digest ^ 1469598103934665603ULL);
  if (x.logging) {
    x.log << "    -> " << o.brief() << "\n";
    if (!o.err.empty()) x.log << "    stderr: " << Show(o.err, 1500) << "\n";
    x.log << "    events (task operation path errno ...):\n" << o.events;
  }
  return o;
}
Outcome Go(Ctx& x, const Files& files, const Plan& p) {
  ResetScratch(files);
  return Go(x, p);
}

struct Gold {
  Outcome o;
  bool have = false;
  std::string doc;
};
bool ReadOut(const Case& c, std::string* s) {
  s->clear();
  return ReadFileRaw(Real(c.out_name), s);
}
Gold Golden(Ctx& x, const Case& c, const Plan& p) {
  Gold g;
  g.o = Go(x, c.files, p);
  g.have = ReadOut(c, &g.doc);
  x.scripts.insert(Hash(c.script));
  return g;
}
Gold Golden(Ctx& x, const Case& c) { return Golden(x, c, BasePlan(c)); }
bool Ok(const Outcome& o) { return o.exited && !o.end_reason && o.code == 0; }
// Ended by itself, one way or the other.
bool Clean(const Outcome& o) { return o.exited && !o.end_reason; }

size_t FirstDiff(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return i;
}
std::string Differ(const std::string& got, const std::string& want) {
  size_t i = FirstDiff(got, want);
  auto cut = [&](const std::string& s) { return Show(s.substr(i > 20 ? i - 20 : 0, 60)); };
  return Fmt("%zu bytes instead of %zu, first difference at %zu: '%s' instead of '%s'", got.size(), want.size(), i, cut(got).c_str(), cut(want).c_str());
}
bool IsPrefix(const std::string& a, const std::string& of) { return of.compare(0, a.size(), a) == 0 && a.size() <= of.size(); }

GenOpt Sized(Src& s, Ctx&) {
  GenOpt o;
  o.big = s.below(3) == 2;
  return o;
}

// An offset into n bytes: ends, buffer boundaries, anywhere.
int64_t Offset(Src& s, int64_t n) {
  switch (s.below(6)) {
    case 0: return s.range(0, n);
    case 1: return std::max<int64_t>(0, n - int64_t(s.below(4)));
    case 2: return std::min<int64_t>(n, s.below(4));
    case 3: {
      static const int64_t b[] = {511, 1023, 4096, 8191, 8192, 16382, 16384};
      int64_t k = b[s.below(7)] * (1 + int64_t(s.below(3))) + int64_t(s.below(3)) - 1;
      return std::min(n, k);
    }
    case 4: return n ? s.range(n / 2, n) : 0;
    default: return s.range(0, n);
  }
}

const std::vector<int> kOpenErr = {ENOENT, EACCES, EMFILE, ENFILE, EIO, ENOMEM, ESTALE, ELOOP, ENXIO, EPERM};
const std::vector<int> kReadErr = {EIO, EISDIR, ESTALE, EBADF, ENXIO, ENOMEM, EINVAL, EAGAIN};
const std::vector<int> kWriteErr = {ENOSPC, EIO, EDQUOT, EFBIG, EPIPE, EBADF, ESTALE, EAGAIN};

Delivery RandDelivery(Src& s, const std::string& path) {
  Delivery d;
  d.path = path;
  d.seed = s.below(1 << 20);
  static const uint32_t sz[] = {0, 1, 2, 7, 64, 511, 4000, 8190};
  d.max_read = sz[s.below(8)];
  d.max_write = sz[s.below(8)];
  d.eintr_per_1k = s.below(3) == 2 ? uint32_t(1 + s.below(s.below(4) ? 400 : 930)) : 0;
  d.noseek = s.below(4) == 3;
  d.latency_ns = s.below(4) == 3 ? 1000000 * s.below(5000) : 0;
  return d;
}
void AddDelivery(Src& s, const Case& c, Plan* p) {
  if (s.below(2)) { p->delivery.push_back(RandDelivery(s, "*")); return; }
  p->delivery.push_back(RandDelivery(s, Norm(c.script_name)));
  p->delivery.push_back(RandDelivery(s, Norm(c.out_name)));
  for (auto& m : c.models) if (s.below(2)) p->delivery.push_back(RandDelivery(s, Norm(m.file)));
}

// What a previous user of the output file may have left there.
std::string Stale(Src& s, size_t around) {
  switch (s.below(4)) {
    case 0: return "x";
    case 1: {
      std::string r = "% Produced by stl-to-ps\n% Name: old\n";
      while (r.size() < around + 5000) r += "newpath 7 7 moveto (old old old) show\n";
      return r;
    }
    case 2: return std::string(s.below(2 * around + 10), '\xff');
    default: {
      Rng r(s.below(1000));
      std::string t;
      size_t n = s.below(around + 20000);
      while (t.size() < n) t += char(r.next());
      return t;
    }
  }
}

// ------------------------------------------------------------------ defects
std::vector<std::string> Lines(const std::string& t) {
  std::vector<std::string> r;
  size_t a = 0;
  while (a < t.size()) {
    size_t b = t.find('\n', a);
    if (b == std::string::npos) b = t.size(); else b++;
    r.push_back(t.substr(a, b - a));
    a = b;
  }
  return r;
}
// Makes a model malformed for certain.  "" if it cannot (an empty file).
std::string BreakModel(Src& s, std::string* text) {
  auto l = Lines(*text);
  std::vector<size_t> facets, verts;
  for (size_t i = 0; i < l.size(); i++) {
    if (l[i].find("facet normal") != std::string::npos) facets.push_back(i);
    if (l[i].find("vertex") != std::string::npos) verts.push_back(i);
  }
  auto late = [&](const std::vector<size_t>& v) { return s.below(3) == 0 ? v[v.size() - 1 - s.below(std::min<size_t>(v.size(), 3))] : v[s.below(v.size())]; };
  std::string what;
  uint64_t k = s.below(7);
  if (facets.empty() || verts.empty()) k = 0;
  auto chop = [](std::string t) { while (!t.empty() && (t.back() == '\n' || t.back() == ' ')) t.pop_back(); return t; };
  switch (k) {
    case 0: {
      static const char* const junk[] = {"garbage", "facet", "vertex 1 2", "<html>", "solidd", "endfacet x", "vertex a b c", "\x7f" "ELF"};
      size_t at = s.below(l.size() + 1);
      what = junk[s.below(8)];
      if (at > 0 && l[at - 1].back() != '\n') l[at - 1] += "\n";
      l.insert(l.begin() + at, what + "\n");
      what = "junk line '" + what + "'";
      break;
    }
    case 1: { size_t i = late(verts); l[i].replace(l[i].find("vertex"), 6, "vertx"); what = "misspelt vertex"; break; }
    case 2: { size_t i = late(verts); size_t p = l[i].find_last_not_of(" \n"); l[i].insert(p + 1, " 7"); what = "fourth coordinate"; break; }
    case 3: { size_t i = late(facets); l[i] = chop(l[i]); l[i] = l[i].substr(0, l[i].rfind(' ')) + "\n"; what = "normal with two coordinates"; break; }
    case 4: { size_t i = late(verts); l.erase(l.begin() + i); what = "facet with two vertices"; break; }
    case 5: { size_t i = late(verts); size_t p = l[i].find_last_of("0123456789"); if (p == std::string::npos) l[i].insert(l[i].find("vertex") + 6, "x"); else l[i][p] = 'x'; what = "letter in a number"; break; }
    default: { size_t i = late(verts); l[i] = std::string(l[i].size() ? l[i].size() - 1 : 0, '\0') + "\n"; what = "zeroed line"; break; }
  }
  text->clear();
  for (auto& i : l) *text += i;
  return what;
}

// Where the solids of an ASCII model begin and end: [first byte, end of the
// "endsolid" keyword) in order.
std::vector<std::pair<size_t, size_t>> SolidSpans(const std::string& t) {
  std::vector<std::pair<size_t, size_t>> r;
  bool open = false;
  size_t start = 0, pos = 0;
  for (auto& l : Lines(t)) {
    size_t i = l.find_first_not_of(' ');
    if (i != std::string::npos) {
      auto is = [&](const char* w) {
        size_t n = strlen(w);
        return l.compare(i, n, w) == 0 && (i + n == l.size() || l[i + n] == ' ' || l[i + n] == '\n');
      };
      if (is("solid")) { if (!open) start = pos + i; open = true; }
      if (is("endsolid") && open) { r.emplace_back(start, pos + i + 8); open = false; }
    }
    pos += l.size();
  }
  if (open) r.emplace_back(start, std::string::npos);
  return r;
}
// Is a model cut to n bytes one that must not be drawn?  1: it must fail,
// 0: it may pass, -1: it is still complete.
int CutVerdict(const std::string& t, size_t n) {
  auto sp = SolidSpans(t);
  for (auto& s : sp)
    if (n > s.first && n < s.second) return 1;
  if (sp.empty() || n >= sp.back().second) return n == t.size() ? -1 : 0;
  // between two solids, or before the first
  size_t i = t.find_last_not_of(" \n", n ? n - 1 : 0);
  (void)i;
  return 0;
}

struct Defect {
  std::string what;
  bool open_fault = false;
  std::vector<Fault> faults;
};
std::vector<size_t> Boundaries(const Case& c, std::initializer_list<int> after) {
  std::vector<size_t> r;
  for (size_t i = 0; i < c.pieces.size(); i++)
    for (int k : after) if (c.pieces[i].kind == k) r.push_back(i + 1);
  return r;
}
size_t PickPos(Src& s, const std::vector<size_t>& v) {  // late more often
  if (s.below(3) == 0) return v[v.size() - 1 - s.below(std::min<size_t>(v.size(), 2))];
  return v[s.below(v.size())];
}
void Put(Case* c, size_t at, const std::string& t, int kind) {
  int page = at < c->pieces.size() ? c->pieces[at].page : -1;
  c->pieces.insert(c->pieces.begin() + at, {t, page, kind});
}

// Adds something to a case that must make it fail.  Works on pieces or files;
// the caller assembles afterwards.
std::string AddDefect(Case* c, Src& s, Plan* p) {
  for (int tries = 0; tries < 20; tries++) {
    auto items = Boundaries(*c, {1, 2, 6, 10});
    auto draws = Boundaries(*c, {3, 4, 5});
    auto texts = Boundaries(*c, {8, 9});
    uint64_t k = tries < 19 ? s.below(17) : 9;
    auto pick = [&](std::initializer_list<const char*> l) { return std::string(*(l.begin() + s.below(l.size()))); };
    switch (k) {
      case 0: {
        if (items.empty()) break;
        Put(c, PickPos(s, items), "draw no_such_model {}", 6);
        return "unknown model";
      }
      case 1: {
        if (items.empty()) break;
        std::string t = pick({"colour = 3;", "Name = \"x\";", "nam = \"x\";", "@[1,1];", "scale=1:2;", "title=\"t\";"});
        Put(c, PickPos(s, items), t, 2);
        return "unknown page property " + t;
      }
      case 2: {
        if (items.empty()) break;
        size_t at = PickPos(s, items);
        Put(c, at, "name = \"twice\";", 2);
        Put(c, at, "name = \"once\";", 2);
        return "page name given twice";
      }
      case 3: {
        if (items.empty()) break;
        std::string t = pick({"name = 3;", "name = [1,2];", "name = 1:2;", "name = [1,2,3];"});
        Put(c, PickPos(s, items), t, 2);
        return "page name of the wrong type";
      }
      case 4: {
        if (draws.empty()) break;
        std::string t = pick({"bogus=1;", "fmt=\"%.1f\";", "name=\"x\";", "Scale=1:2;", "from=[1,2,3];"});
        Put(c, PickPos(s, draws), t, 4);
        return "unknown draw property " + t;
      }
      case 5: {
        if (draws.empty()) break;
        std::string t = pick({"scale=1:1;scale=1:2;", "view=\"X+\";view=\"X+\";", "@[0,0];@[1,1];"});
        Put(c, PickPos(s, draws), t, 4);
        return "draw property given twice " + t;
      }
      case 6: {
        if (draws.empty()) break;
        std::string t = pick({"scale=3;", "scale=\"1:2\";", "view=7;", "view=\"Q+\";", "view=\"\";", "view=\"-X+\";", "view=\"Z+ \";", "view=\"X+Y+\";", "view=\"Z-x\";", "view=\"-Z-\";", "view=\"y-\";", "view=\" X-\";", "view=\"Z\";", "view=\"X+ \";", "view=\"Y-\\n\";", "view=\"+Z\";", "view=[1,2,3];", "scale=[1,2];"});
        Put(c, PickPos(s, draws), t, 4);
        return "draw property with a bad value " + t;
      }
      case 7: {
        if (draws.empty()) break;
        std::string t = pick({"dim();", "angle();", "dia();", "rad();", "dim(at=[1,1,1]);", "dim(from=[0,0,0],to=[1,1,1],at=[1,1,1],dir=[0,0,0]);",
                              "dim(from=[0,0,0],to=[1,1,1],at=[1,1,1],dir=[1,0,0],fmt=\"%d\");", "dim(from=[0,0,0],to=[1,1,1],at=[1,1,1],dir=[1,0,0],fmt=\"%f %f\");",
                              "dim(from=[0,0,0],to=[1,1,1],at=[1,1,1],dir=[1,0,0],wide=1);", "dim(from=[0,0,0],from=[0,0,0],to=[1,1,1],at=[1,1,1],dir=[1,0,0]);",
                              "dim(from=[0,0,0],to=mid([1,1,1]),at=[1,1,1],dir=[1,0,0]);", "dim(from=3,to=[1,1,1],at=[1,1,1],dir=[1,0,0]);",
                              "angle(at=[1,1,1],apex=[0,0,0],from_dir=[1,0,0]);", "angle(at=[1,1,1],apex=[0,0,0],from_dir=[1,0,0],from_point=[1,0,0],to_dir=[0,1,0]);"});
        Put(c, PickPos(s, draws), t, 5);
        return "bad dimension " + t;
      }
      case 8: {
        if (texts.empty()) break;
        std::string t = pick({"@[1,1];@[2,2];", "size=3;", "font=\"x\";"});
        Put(c, PickPos(s, texts), t, 9);
        return "bad text property " + t;
      }
      case 9: {
        size_t at = s.below(c->pieces.size() + 1);
        if (s.below(3) == 0) at = c->pieces.size();
        std::string t = pick({"}", "{", ";", "$", "\"\n", "page", "page {", "load", "123 ;", "]", "draw", "= 3;", "\\", "\x01", "load x = ;", "text"});
        Put(c, at, t, 11);
        return "syntax error '" + t + "'";
      }
      case 10: {  // the script ends early
        if (c->pieces.empty()) break;
        size_t i = s.below(c->pieces.size());
        if (s.below(3) == 0) i = c->pieces.size() - 1 - s.below(std::min<size_t>(c->pieces.size(), 3));
        std::string& t = c->pieces[i].text;
        size_t keep = s.below(t.size());
        bool inside = c->pieces[i].page >= 0 && c->pieces[i].kind != 1;
        if (!inside && keep == 0) keep = 1;
        if (!inside && keep >= t.size()) break;
        t.resize(keep);
        c->pieces.resize(i + 1);
        return "script ends early";
      }
      case 11: {
        size_t n = 30 + s.below(40);
        if (texts.empty() && draws.empty()) break;
        Put(c, PickPos(s, texts.empty() ? draws : texts), "@[" + std::string(n, '9') + "," + std::string(n, '9') + "9999999999];", 9);
        return "number out of range";
      }
      case 16: {  // a block of the script was lost: zeros instead
        size_t at = s.below(c->pieces.size() + 1);
        if (s.below(2)) at = c->pieces.size();
        std::string z(1 + s.below(s.below(4) ? 8 : 600), '\0');
        if (s.below(3)) {
          Put(c, at, z, 11);
        } else {
          if (at == c->pieces.size() && at) at--;
          if (at == c->pieces.size() || c->pieces[at].kind == 0) { Put(c, at, z, 11); return "zeros in the script"; }
          Put(c, at, z, 11);
          // ... and the rest with them
          for (size_t i = at + 1; i < c->pieces.size(); i++) c->pieces[i].text.assign(c->pieces[i].text.size(), '\0');
        }
        return "zeros in the script";
      }
      case 12: {
        if (c->models.empty()) break;
        size_t at = s.below(c->pieces.size() + 1);
        while (at < c->pieces.size() && !(c->pieces[at].kind == 0 || c->pieces[at].kind == 1)) at++;
        const ModelRef& m = c->models[s.below(c->models.size())];
        Put(c, at, "load " + m.var + " = \"" + m.file + "\";", 0);
        return "model name defined twice";
      }
      default: {  // a bad model
        std::vector<const ModelRef*> l;
        for (auto& m : c->models) if (m.file != "/dev/null") l.push_back(&m);
        if (l.empty()) break;
        const ModelRef& m = *l[s.below(3) ? s.below(l.size()) : l.size() - 1];
        std::string f = Real(m.file);
        switch (s.below(6)) {
          case 0: c->files.erase(f); return "missing model " + m.file;
          case 1: c->files.erase(f); c->files[f + "/"] = ""; return "model is a directory " + m.file;
          case 2: {
            p->faults.push_back({F_OPEN_FAIL, Norm(m.file), 0, s.pick(kOpenErr), -1});
            return "model cannot be opened " + m.file;
          }
          case 3: {
            p->faults.push_back({F_READ_ERR, Norm(m.file), Offset(s, c->files[f].size()), s.pick(kReadErr), -1});
            return "model cannot be read " + m.file;
          }
          case 4: {
            if (!c->files.count(f) || c->files[f].empty()) break;
            std::string& t = c->files[f];
            size_t n = s.below(t.size());
            for (size_t i = 0; i < t.size(); i++, n = (n + 1) % t.size()) if (CutVerdict(t, n) == 1) break;
            if (CutVerdict(t, n) != 1) break;
            t.resize(n);
            return Fmt("model cut to %zu bytes ", n) + m.file;
          }
          default: {
            std::string w = BreakModel(s, &c->files[f]);
            return "malformed model (" + w + ") " + m.file;
          }
        }
      }
    }
  }
  return "";
}

void Reassemble(Case* c, Src& s) {
  std::string sn = c->script_name;
  c->script_name = Real(sn);
  Assemble(c, s, s.below(4) == 0);
  c->script_name = sn;
}

// "" if the output holds nothing of a document, else what it holds.
std::string NoDocument(const Case& c, const std::string* stale) {
  std::string out;
  if (!ReadOut(c, &out) || out.empty()) return "";
  if (stale && out == *stale) return "";
  return Fmt("%zu bytes in the output: '%s'", out.size(), Show(out, 80).c_str());
}

// ================================================================== C01
std::string C01Lib(Src& s, Ctx& x) {
  Case c = GenCase(s, Sized(s, x));
  Plan p = BasePlan(c);
  p.mode = M_LIBSEQ;
  p.argv.erase(std::remove_if(p.argv.begin(), p.argv.end(), [](const std::string&) { return false; }), p.argv.end());
  Act a;
  a.src = c.script_name;
  if (s.below(2)) a.file = c.script_name; else a.text = c.script;
  p.acts = {a};
  LogFiles(x, c.files);
  Outcome g = Go(x, c.files, p);
  if (!Clean(g)) return "golden: the library call did not return: " + g.brief();
  std::string doc = g.pay[0];
  if (g.ret[0] != 1) return Fmt("golden: the library call returned %d without any fault: ", g.ret[0]) + Show(g.err, 300);
  std::string e = CheckDoc(c, doc);
  if (!e.empty()) return "document: " + e;
  int n = 1 + int(s.below(4));
  for (int i = 0; i < n; i++) {
    Plan q = p;
    if (s.below(5) == 4) q.acts[0].out_fail_sync = 1 + int(s.below(2));
    else q.acts[0].out_limit = Offset(s, doc.size());
    Outcome o = Go(x, c.files, q);
    if (!Clean(o)) return "stream-crash: the library call did not return when its stream failed: " + o.brief();
    if (o.fired[F_STREAM_ERR]) x.Nontrivial();
    bool complete = !(o.ret[0] & 4) && o.pay[0] == doc;
    if ((o.ret[0] & 1) && !complete)
      return "stream-success: the call returned true but the stream did not take the whole document: " + Differ(o.pay[0], doc);
    if (!o.fired[F_STREAM_ERR] && (o.ret[0] != 1 || o.pay[0] != doc))
      return "stream-spurious: no write failed, but the call failed or wrote something else: " + Differ(o.pay[0], doc);
  }
  return "";
}

const std::vector<int> kSignals = {SIGTERM, SIGINT, SIGHUP, SIGPIPE, SIGUSR1, SIGALRM, SIGQUIT};
// A signal instead of a fault of the output: success still means the document.
void Interrupt(Src& s, const Outcome& g, Plan* p) {
  p->crash_sig = s.pick(kSignals);
  if (s.below(2)) p->crash_op = 1 + int64_t(s.below(g.ops + 2));
  else p->crash_step = int64_t(s.below(g.steps + 1));
}
std::string C01(Src& s, Ctx& x) {
  if (s.below(4) == 3) return C01Lib(s, x);
  Case c = GenCase(s, Sized(s, x));
  LogFiles(x, c.files);
  Gold g = Golden(x, c);
  if (!Clean(g.o)) return "golden: " + g.o.brief() + " " + Show(g.o.err, 300);
  if (g.o.code != 0) return Fmt("golden: nothing failed, but the command exits %d: ", g.o.code) + Show(g.o.err, 300);
  std::string e = g.have ? CheckDoc(c, g.doc) : "no output file";
  if (!e.empty()) return "document: " + e;
  int n = 1 + int(s.below(5));
  for (int i = 0; i < n; i++) {
    Plan p = BasePlan(c);
    const std::string out = Norm(c.out_name);
    Files files = c.files;
    bool must_fail = false;
    switch (s.below(8)) {
      case 0: p.faults.push_back({F_OPEN_FAIL, out, 0, s.pick(std::vector<int>{EACCES, ENOSPC, EROFS, EMFILE, EDQUOT, EISDIR, ENOENT, EIO}), -1}); break;
      case 1: p.faults.push_back({F_CLOSE_ERR, out, 0, s.pick(kWriteErr), 1}); break;
      case 2: {
        must_fail = true;
        if (s.below(2)) { files.erase(Real(c.out_name)); files[Real(c.out_name) + "/"] = ""; }
        else {
          Case d = c;
          // an output directory that does not exist
          p.argv.clear();
          for (auto a : c.Argv()) {
            size_t k = a.rfind(c.out_name);
            if (a.size() >= c.out_name.size() && k == a.size() - c.out_name.size() && a.find("script") == std::string::npos && a != c.script_name) a = a.substr(0, k) + "no/such/dir/o.ps";
            p.argv.push_back(a);
          }
        }
        break;
      }
      default: {
        Fault f{F_WRITE_ERR, out, Offset(s, g.doc.size()), s.pick(kWriteErr), s.below(2) ? -1 : int64_t(1 + s.below(2))};
        p.faults.push_back(f);
        if (s.below(4) == 3) p.faults.push_back({F_CLOSE_ERR, out, 0, EIO, 1});
      }
    }
    if (s.below(3) == 2) p.delivery.push_back(RandDelivery(s, out));
    if (s.below(8) == 7) p.stderr_mode = 1;
    if (s.below(12) == 11) {
      if (s.below(3)) p.faults.clear();
      Interrupt(s, g.o, &p);
    }
    Outcome o = Go(x, files, p);
    bool fired = o.fired[F_OPEN_FAIL] || o.fired[F_WRITE_ERR] || o.fired[F_CLOSE_ERR] || o.fired[F_SIGNAL];
    if (fired) x.Nontrivial();
    std::string doc;
    ReadOut(c, &doc);
    if (must_fail) {
      if (Ok(o)) return "success: exit 0 although the output could not be opened";
      continue;
    }
    if (o.hang()) return "hang: " + o.brief();
    if (Ok(o)) {
      if (doc != g.doc) return "success: exit 0, but the output is not the document: " + Differ(doc, g.doc);
      if (o.fired[F_CLOSE_ERR] || o.fired[F_OPEN_FAIL]) return "success: exit 0 although opening or closing the output failed";
      if (o.fired[F_WRITE_ERR]) x.Probe("write error survived");
    } else if (!fired) {
      return Fmt("spurious: nothing failed, but the command ended with %s: ", o.brief().c_str()) + Show(o.err, 200);
    }
  }
  return "";
}

// ================================================================== C02
std::string C02(Src& s, Ctx& x) {
  GenOpt go = Sized(s, x);
  go.min_models = s.below(5) ? 1 : 0;
  Case c = GenCase(s, go);
  LogFiles(x, c.files);
  Gold g = Golden(x, c);
  int n = 1 + int(s.below(5));
  for (int i = 0; i < n; i++) {
    Plan p = BasePlan(c);
    Files files = c.files;
    std::vector<std::string> v;
    for (auto& m : c.models) if (m.file != "/dev/null") v.push_back(m.file);
    std::string victim = v.empty() || s.below(4) == 3 ? c.script_name : v[s.below(3) ? s.below(v.size()) : v.size() - 1];
    bool sure = false;
    size_t size = files[Real(victim)].size();
    std::string what;
    std::string stale;
    bool have_stale = s.below(4) == 3;
    if (have_stale) { stale = Stale(s, 3000); files[Real(c.out_name)] = stale; }
    switch (s.below(8)) {
      case 0: p.faults.push_back({F_OPEN_FAIL, Norm(victim), 0, s.pick(kOpenErr), s.below(4) ? -1 : 1}); what = "open"; break;
      case 1: files.erase(Real(victim)); files[Real(victim) + "/"] = ""; what = "directory"; sure = true; break;
      case 2: if (victim != c.script_name || s.below(2)) { files.erase(Real(victim)); what = "missing"; sure = true; break; }
        // fall through
      default: {
        int64_t at = Offset(s, size);
        if (s.below(5) == 0) at = size;  // the read that would have seen the end
        if (s.below(3) == 0) {           // at the beginning of a line
          size_t q = files[Real(victim)].find('\n', at);
          if (q != std::string::npos) at = q + 1;
        }
        p.faults.push_back({F_READ_ERR, Norm(victim), at, s.pick(kReadErr), s.below(3) ? -1 : 1});
        what = "read";
      }
    }
    if (s.below(3) == 2) p.delivery.push_back(RandDelivery(s, Norm(victim)));
    Outcome o = Go(x, files, p);
    bool fired = sure || o.fired[F_READ_ERR] || o.fired[F_OPEN_FAIL];
    if (!fired) { x.Probe("fault not reached"); continue; }
    x.Nontrivial();
    x.Probe((victim == c.script_name ? "script " : "model ") + what);
    std::string tag = (victim == c.script_name ? "script-" : "model-") + what;
    if (o.hang()) return tag + "-hang: " + o.brief();
    if (Ok(o)) {
      std::string doc;
      ReadOut(c, &doc);
      return tag + ": " + what + " of " + victim + " failed, but the command exits 0" + (doc == g.doc ? "" : " with another document");
    }
    std::string e = NoDocument(c, have_stale ? &stale : nullptr);
    if (!e.empty()) return tag + "-output: " + what + " of " + victim + " failed, but there are " + e;
  }
  return "";
}

// ================================================================== C03
std::string C03(Src& s, Ctx& x) {
  Case c = GenCase(s, Sized(s, x));
  Plan base = BasePlan(c);
  if (s.below(4) == 3) {  // scripts that are rejected must be so in the same way
    std::string w = AddDefect(&c, s, &base);
    Reassemble(&c, s);
    if (x.logging) x.log << "  defect: " << w << "\n";
    base.argv = c.Argv();
  }
  if (s.below(12) == 11) {  // what some programs treat in a special way, be it right or wrong
    std::vector<std::string> f = {Real(c.script_name)};
    for (auto& m : c.models) if (c.files.count(Real(m.file))) f.push_back(Real(m.file));
    std::string& t = c.files[s.pick(f)];
    switch (s.below(8)) {
      case 0: t.insert(0, "\xef\xbb\xbf"); break;
      case 1: t.insert(0, "#!/usr/bin/env stl-to-ps\n"); break;
      case 2: t += "\x1a"; break;
      case 3: t.insert(0, "\x1f\x8b\x08"); break;
      case 4: t = "\xff\xfe" + t; break;
      case 5: t += "\n"; t.insert(0, "\n"); break;
      case 6: { std::string u; for (char ch : t) { if (ch == '\n') u += '\r'; u += ch; } t = u; break; }
      default: t += std::string(1 + s.below(600), '\0'); break;
    }
    x.Probe("odd bytes");
  }
  LogFiles(x, c.files);
  Gold g = Golden(x, c, base);
  if (!Clean(g.o) && g.o.sig == 0) return "hang: " + g.o.brief();
  int n = 2 + int(s.below(4));
  for (int i = 0; i < n; i++) {
    Plan p = base;
    AddDelivery(s, c, &p);
    p.max_steps = g.o.steps * 20 + 5000000;
    p.max_ops = 2000 + 40 * g.o.ops + 8 * (g.o.bytes_in + g.o.bytes_out);
    uint32_t eintr = 0;
    for (auto& d : p.delivery) eintr = std::max(eintr, d.eintr_per_1k);
    p.max_ops += p.max_ops * 2 * eintr / (1000 - eintr);
    Outcome o = Go(x, c.files, p);
    if (o.fired[F_READ_SHORT] || o.fired[F_WRITE_SHORT] || o.fired[F_READ_EINTR] || o.fired[F_WRITE_EINTR] || o.fired[F_NOSEEK] || o.fired[F_LATENCY]) x.Nontrivial();
    if (o.hang()) return "unbounded: " + o.brief() + Fmt(" (plain delivery: %llu steps, %llu operations)", (unsigned long long)g.o.steps, (unsigned long long)g.o.ops);
    if (o.code != g.o.code || o.sig != g.o.sig) return "status: " + o.brief() + " instead of " + g.o.brief() + ": " + Show(o.err, 300);
    std::string doc;
    bool have = ReadOut(c, &doc);
    if (MaskTime(doc) != MaskTime(g.doc) || have != g.have) return "document: " + Differ(MaskTime(doc), MaskTime(g.doc));
  }
  return "";
}

// ================================================================== C04
std::string C04(Src& s, Ctx& x) {
  GenOpt go = Sized(s, x);
  go.min_models = s.below(4) ? 1 : 0;
  Case c = GenCase(s, go);
  Plan p = BasePlan(c);
  std::string what;
  int n = s.below(6) == 5 ? 2 : 1;
  const Case good = c;
  const Plan plain = p;
  for (int i = 0; i < n; i++) {
    // Two defects must not make up for one another: "page {" and "}", a file
    // that is gone and one that is empty.
    auto sort = [](const std::string& w) {
      if (w.compare(0, 12, "syntax error") == 0 || w == "script ends early" || w == "zeros in the script") return 's';
      for (auto k : {"missing model", "model is a", "model can", "model cut", "malformed model"}) if (w.compare(0, strlen(k), k) == 0) return 'm';
      return 'o';
    };
    Case before = c;
    std::vector<Fault> faults = p.faults;
    std::string w = AddDefect(&c, s, &p);
    if (w.empty()) return "";
    if (i && (w == "script ends early" || (sort(w) != 'o' && sort(w) == sort(what)))) {
      c = before;
      p.faults = faults;
      break;
    }
    what += (i ? " and " : "") + w;
    if (w == "script ends early") break;
  }
  if (s.below(40) == 39 && what != "script ends early") {  // as often as a counter can count
    static const int k[] = {100, 127, 128, 255, 256, 257, 512, 1024};
    int m = k[s.below(8)] - int(s.below(2)) * n;
    if (s.below(2)) {  // and nothing else
      m = k[s.below(8)] * int(1 + s.below(2));
      c = good;
      p = plain;
      what = "no other defect";
    }
    auto at = Boundaries(c, {1, 2, 6, 10});
    if (!at.empty()) {
      uint64_t kind = s.below(4);
      size_t i = at[s.below(at.size())];
      for (int j = 0; j < m; j++) {
        if (kind == 0) Put(&c, i, "draw no_such_model {}", 6);
        else if (kind == 1) Put(&c, i, Fmt("wrong%d = 1;", j), 2);
        else if (kind == 2) Put(&c, i, j ? "name = \"again\";" : "name = \"again\"; name = \"again\";", 2);
        else Put(&c, 0, Fmt("load gone%d = \"gone%d.stl\";", j, j), 0);
      }
      what += Fmt(" and %d more", m);
      x.Probe("very many defects");
    } else if (what == "no other defect") {
      return "";
    }
  }
  Reassemble(&c, s);
  p.argv = c.Argv();
  std::string stale;
  bool have_stale = s.below(3) == 2;
  if (have_stale) { stale = Stale(s, 3000); c.files[Real(c.out_name)] = stale; }
  if (s.below(3) == 2) AddDelivery(s, c, &p);
  LogFiles(x, c.files);
  if (x.logging) x.log << "  defect: " << what << "\n";
  Outcome o = Go(x, c.files, p);
  x.scripts.insert(Hash(c.script));
  x.Nontrivial();
  x.Probe(what.substr(0, what.find_first_of("0123456789'(")));
  if (o.hang()) return "hang: " + what + ": " + o.brief();
  if (Ok(o)) return "accepted: the command exits 0 with " + what;
  std::string e = NoDocument(c, have_stale ? &stale : nullptr);
  if (!e.empty()) return "output: rejected for " + what + ", but there are " + e;
  return "";
}

// ================================================================== C05
std::string C05(Src& s, Ctx& x) {
  Case c = GenCase(s, Sized(s, x));
  Files files = c.files;
  std::string prev;
  bool have_prev = s.below(3) != 0;
  Gold g = Golden(x, c);
  if (!Ok(g.o)) { x.Probe("golden failed"); return ""; }
  if (have_prev) {
    prev = Stale(s, g.doc.size());
    // What an earlier version of the script gave, perhaps.
    if (s.below(6) == 5) { prev = g.doc; x.Probe("over the same document"); }
    if (s.below(6) == 5) { prev = g.doc + "\nshowpage %%%%%%%%%\n"; x.Probe("over a longer document"); }
    files[Real(c.out_name)] = prev;
  }
  LogFiles(x, files);
  ResetScratch(files);
  int n = 1 + int(s.below(4));
  // Later runs are other processes, at other times.
  const bool later = s.below(2);
  int64_t clock = BasePlan(c).clock_base_ns;
  auto other = [&](Plan p) {
    if (!later) return p;
    static const int64_t gap[] = {0, 1, 50000000, 1000000000LL, 61000000000LL, 86400000000000LL};
    clock += gap[s.below(6)] * int64_t(1 + s.below(9));
    p.clock_base_ns = clock;
    p.pid = 1 + int(s.below(4000000));
    p.rnd_seed = s.below(1 << 20);
    return p;
  };
  const std::string want = MaskTime(g.doc);
  for (int i = 0; i < n; i++) {
    Plan p = other(BasePlan(c));
    switch (s.below(4)) {
      case 0: p.crash_op = 1 + int64_t(s.below(g.o.ops + 2)); break;
      case 1: p.crash_byte = Offset(s, g.doc.size()); break;
      case 2: p.crash_step = int64_t(s.below(g.o.steps + 1)); break;
      default: {  // late, while the document is being made and written
        uint64_t w = g.o.steps / 3 + 1;
        p.crash_step = int64_t(g.o.steps - std::min<uint64_t>(g.o.steps, s.below(w)));
      }
    }
    if (s.below(3) == 2) p.delivery.push_back(RandDelivery(s, Norm(c.out_name)));
    if (p.crash_byte < 0 && s.below(5) == 4) p.crash_sig = s.pick(kSignals);
    Outcome o = Go(x, p);
    std::string now;
    bool have = ReadOut(c, &now);
    if (o.end_reason == E_CRASH) x.Nontrivial();
    bool untouched = have == have_prev && now == prev;
    if (!untouched && !IsPrefix(MaskTime(now), want)) return "prefix: after a crash (" + o.brief() + ") the output is neither the old content nor a prefix of the document: " + Differ(MaskTime(now), want);
    if (untouched && have) x.Probe("crashed before touching the output");
    else if (now.size() == g.doc.size()) x.Probe("crashed with the document complete");
    else if (!now.empty()) x.Probe("crashed with part of the document");
    else x.Probe("crashed with an empty output");
    have_prev = have;
    prev = now;
  }
  Outcome o = Go(x, other(BasePlan(c)));
  std::string doc;
  ReadOut(c, &doc);
  if (!Ok(o)) return "rerun: running again after crashes fails: " + o.brief() + " " + Show(o.err, 200);
  if (MaskTime(doc) != want) return "rerun: running again after crashes gives another document: " + Differ(MaskTime(doc), want);
  if (!later && doc != g.doc) return "rerun: running again after crashes gives another document: " + Differ(doc, g.doc);
  return "";
}

// ================================================================== C06
std::string C06(Src& s, Ctx& x) {
  Case c;
  Files files;
  std::vector<std::string> entries;  // as given in the flag
  int ne = int(s.below(6));
  static const std::vector<std::string> pool = {"lib1", "lib2", "lib3", "lib1/", "./lib2", "/work/libs", "/work/more/", "lib1/../lib3", "missing", "deep/er/lib", "..", "/", "", "s.txt", "lib1", " sp ace", "lib2 ", " lib3", "a:b", "lib1;lib2", "~", "~/lib", "$HOME", "${HOME}/lib", "*", "lib?", "%s%n", "file:lib1", "-x=y", "lib1\\", "C:lib2", "lib1//deep", "missing/../lib1", "lib2/../lib1", "missing/..", "lib1.stl/../lib2"};
  if (s.below(15) == 14) { ne = 6 + int(s.below(s.below(3) ? 20 : 200)); x.Probe("long load path"); }
  for (int i = 0; i < ne; i++) {
    if (ne > 5 && s.below(4)) { entries.push_back(Fmt("e%d", i)); continue; }
    if (s.below(40) == 39) {
      static const int k[] = {100, 127, 128, 200, 250, 255};
      std::string e;
      for (int deep = 1 + int(s.below(s.below(2) ? 2 : 12)); deep--;) e += (e.empty() ? "" : "/") + std::string(k[s.below(6)], char('p' + deep % 8));
      entries.push_back(e);
      x.Probe("long path");
      continue;
    }
    entries.push_back(s.pick(pool));
  }
  std::string flag;
  for (size_t i = 0; i < entries.size(); i++) flag += (i ? "," : "") + entries[i];
  bool give = ne > 0 || s.below(2);
  bool root_listed = std::find(entries.begin(), entries.end(), "/") != entries.end();
  int nm = 1 + int(s.below(4));
  std::set<std::string> allowed;  // files that may be opened as models
  std::string script;
  bool expect_fail = false;
  Plan p;
  struct M { std::string file; bool ok; double w, h; int line; };
  std::vector<M> ms;
  std::map<std::string, int> odd;  // files that are no box: 1 empty, 2 no model at all, 3 can not be read
  static const std::vector<std::string> scripts = {"s.txt", "s.txt", "s.txt", "proj/s.txt", "./s.txt", "/work/job/s.txt", "lib1/s.txt", "lib3/../proj/s.txt"};
  const std::string sname = s.pick(scripts);
  const std::string sdir = sname.substr(0, sname.rfind('/') + 1);
  static const std::vector<std::string> names = {"plain", "A.STL", "q.stl.stl", "a.stl", "b.stl", "sub/c.stl", "./d.stl", "/work/abs.stl", "a b.stl", "x,y.stl", "sub/../e.stl", "lib1.stl", "..stl", "/lib2/z.stl", "~/t.stl", "$HOME/u.stl", "c:v.stl", "m*.stl", "%n%s.stl", "file://w.stl", "~root.stl", "//work/two.stl", "gone/../f.stl", "lib1/../g.stl", "/gone/../work/three.stl", "plain/../h.stl"};
  int box = 0;
  auto place = [&](const std::string& path) {  // a distinct box at this path
    box++;
    double w = 0.5 + box * 0.125, h = 0.25 + box * 0.0625;
    std::string r = Real(path);
    if (!files.count(r)) {
      Src z(std::vector<uint64_t>{});
      files[r] = Stl(Box(w, h, 0.5), z, true);
      if (s.below(9) == 8) {
        static const char* const q[] = {"", "solid m\nendsolid m\n", "\n", "not a model\n", "solid m\n", "solid m\n facet normal 0 0 1\n"};
        int i = int(s.below(7));
        odd[r] = i < 2 ? 1 : i < 6 ? 2 : 3;
        if (i < 6) files[r] = q[i];
        else p.faults.push_back({F_READ_ERR, Norm(path), 0, EIO, -1});
      }
    }
    return r;
  };
  std::map<std::string, std::pair<double, double>> dim;
  auto remember = [&](const std::string& r) {
    if (!dim.count(r)) dim[r] = {0.5 + box * 0.125, 0.25 + box * 0.0625};
  };
  std::set<std::string> openfail;
  for (int i = 0; i < nm; i++) {
    std::string n = s.pick(names);
    if (s.below(40) == 39) { static const int k[] = {100, 127, 128, 200, 250, 255}; n = std::string(k[s.below(6)], char('A' + i)); }
    std::vector<std::string> cand;
    if (n[0] == '/') cand.push_back(n);
    else {
      cand.push_back("./" + n);
      if (give) for (auto& e : entries) if (!e.empty()) cand.push_back(e + "/" + n);
    }
    // which of them exist
    uint64_t bias = s.below(4);
    for (auto& q : cand) {
      if (q.compare(0, 6, "s.txt/") == 0) continue;
      if (q.compare(0, 8, "missing/") == 0 && Norm(q).compare(0, 8, "missing/") == 0) continue;
      bool have = bias == 0 ? s.below(4) == 3 : bias == 1 ? s.below(2) : s.below(4) != 0;
      if (have) { std::string r = place(q); remember(r); }
      if (s.below(6) == 5 && files.count(Real(q))) {
        openfail.insert(Norm(q));
        p.faults.push_back({F_OPEN_FAIL, Norm(q), 0, s.pick(std::vector<int>{EACCES, EMFILE, ENFILE, EIO, ENOMEM, ELOOP}), -1});
      }
    }
    // decoys that no rule names
    if (s.below(2)) {
      std::vector<std::string> decoys;
      if (n[0] != '/') {
        if (!root_listed) decoys.push_back("/" + n);
        if (!sdir.empty()) decoys.push_back(sdir + n);
        for (auto& q : cand) {
          if (n == "plain") { decoys.push_back(q + ".stl"); decoys.push_back(q + ".STL"); }
          if (n == "A.STL") decoys.push_back(q.substr(0, q.size() - 5) + "a.stl");
          if (n == "q.stl.stl") decoys.push_back(q.substr(0, q.size() - 4));
          if (n == "b.stl") { decoys.push_back(q.substr(0, q.size() - 5) + "B.stl"); decoys.push_back(q.substr(0, q.size() - 4)); }
        }
        for (auto& e : entries) {
          size_t a = e.find_first_not_of(' '), b = e.find_last_not_of(' ');
          if (a != std::string::npos && (a || b + 1 != e.size())) decoys.push_back(e.substr(a, b + 1 - a) + "/" + n);
        }
        for (auto& e : entries) {
          if (e[0] == '~') decoys.push_back("/home/user" + e.substr(1) + "/" + n);
          if (e.compare(0, 5, "$HOME") == 0) decoys.push_back("/home/user" + e.substr(5) + "/" + n);
          if (e.compare(0, 7, "${HOME}") == 0) decoys.push_back("/home/user" + e.substr(7) + "/" + n);
          if (e == "*" || e == "lib?") decoys.push_back("lib1/" + n);
          for (char sep : {':', ';', '='}) {
            size_t j = e.find(sep);
            if (j == std::string::npos) continue;
            decoys.push_back(e.substr(0, j) + "/" + n);
            decoys.push_back(e.substr(j + 1) + "/" + n);
          }
          if (e == "lib1\\") decoys.push_back("lib1/" + n);
          if (e.size() > 250) decoys.push_back(e.substr(0, 255) + "/" + n);
        }
        if (n == "~/t.stl") decoys.push_back("/home/user/t.stl");
        if (n == "$HOME/u.stl") decoys.push_back("/home/user/u.stl");
        if (n == "c:v.stl") decoys.push_back("v.stl");
        if (n == "m*.stl") decoys.push_back("mx.stl");
        if (n == "file://w.stl") decoys.push_back("w.stl");
        if (n.size() >= 100) for (auto& q : cand) decoys.push_back(q.substr(0, q.size() - 1));
        decoys.push_back("out/" + n);
        decoys.push_back("/tmp/" + n);
        decoys.push_back("stl-to-ps/" + n);
        for (auto& e : entries) if (!e.empty() && e != "/" && e.back() != '/' && n.compare(0, 2, "./") != 0) decoys.push_back(e + n);
        size_t sl = n.rfind('/');
        if (sl != std::string::npos) decoys.push_back(n.substr(sl + 1));
      } else {
        decoys.push_back(n.substr(1));
        size_t sl = n.rfind('/');
        decoys.push_back(n.substr(sl + 1));
        for (auto& e : entries) if (!e.empty() && e != "/") decoys.push_back(e + n);
      }
      for (auto& d : decoys) {
        bool is = Norm(d).compare(0, 6, "s.txt/") == 0;  // that is a file
        for (auto& q : cand) if (Norm(q) == Norm(d)) is = true;
        if (!is && s.below(3) == 0) { std::string r = place(d); remember(r); }
      }
    }
    ms.push_back({n, false, 0, 0, 0});
    for (auto& q : cand) allowed.insert(Norm(q));
  }
  // Directories of load path entries exist; decoy directories come with files.
  for (auto d : {"lib1/", "lib2/", "lib3/", "deep/er/lib/", "rootfs/work/libs/", "rootfs/work/more/", "sub/", "lib1/sub/", "lib2/sub/", "lib3/sub/", " sp ace/", " sp ace/sub/", "lib2 /", "lib2 /sub/", " lib3/", " lib3/sub/", "deep/er/lib/sub/", "rootfs/work/libs/sub/", "rootfs/work/more/sub/", "rootfs/sub/", "rootfs/up/sub/"}) {
    std::string k = d;
    if (k.find("..") == std::string::npos) files[k] = "";
  }
  for (auto& e : entries)
    if (!e.empty() && e != "missing" && e != "s.txt" && e != "/") files[Real(e + "/sub") + "/"] = "";
  // the script: one page per model
  int line = 1;
  for (auto& m : ms) {
    m.line = line++;
    script += Fmt("load m%d = \"%s\";\n", m.line, m.file.c_str());
  }
  for (size_t i = 0; i < ms.size(); i++) script += Fmt("page { draw m%d { @[0,0]; } }\n", ms[i].line);
  files[Real(sname)] = script;
  // Which one wins, after every file is in place.
  std::set<std::string> dirs;
  for (auto& f : files)
    for (size_t i = f.first.find('/'); i != std::string::npos; i = f.first.find('/', i + 1)) dirs.insert(f.first.substr(0, i));
  // A '..' leads somewhere only behind a directory that is there.
  auto reach = [&](const std::string& q) {
    for (size_t i = q.find("/.."); i != std::string::npos; i = q.find("/..", i + 1)) {
      if (i + 3 < q.size() && q[i + 3] != '/') continue;
      std::string pre = q.substr(0, i);
      while (!pre.empty() && pre.back() == '/') pre.pop_back();
      if (pre.empty() || pre == "." || pre == "..") continue;
      if (pre.size() > 2 && pre.compare(pre.size() - 3, 3, "/..") == 0) continue;
      std::string n = Real(pre);
      if (n.empty() || n == "." || n == "rootfs") continue;
      if (!dirs.count(n)) return false;
    }
    return true;
  };
  for (auto& m : ms) {
    std::vector<std::string> cand;
    if (m.file[0] == '/') cand.push_back(m.file);
    else {
      cand.push_back("./" + m.file);
      if (give) for (auto& e : entries) if (!e.empty()) cand.push_back(e + "/" + m.file);
    }
    for (auto& q : cand) {
      if (openfail.count(Norm(q)) || !files.count(Real(q))) continue;
      if (!reach(q)) { x.Probe("a way through a directory that is not there"); continue; }
      int o = odd.count(Real(q)) ? odd[Real(q)] : 0;
      if (o) x.Probe(o == 1 ? "an empty model comes first" : "a bad model comes first");
      m.ok = o < 2;
      m.w = o == 1 ? -1 : dim[Real(q)].first;
      m.h = dim[Real(q)].second;
      break;
    }
    if (!m.ok) expect_fail = true;
  }
  c.script_name = sname;
  c.out_name = "out.ps";
  c.flags = {"--script=" + sname, "--output=out.ps"};
  if (give) c.flags.push_back("--load_path=" + flag);
  Plan q = BasePlan(c);
  q.faults = p.faults;
  q.env.emplace_back("HOME", "/home/user");
  c.files = files;
  LogFiles(x, files);
  Outcome o = Go(x, files, q);
  x.scripts.insert(Hash(script + flag));
  x.Nontrivial();
  if (o.hang() || o.sig) return "crash: " + o.brief() + " " + Show(o.err, 200);
  // No other file was opened.
  {
    std::istringstream in(o.opens);
    std::string l;
    while (std::getline(in, l)) {
      if (l.size() < 3 || l[0] != 'r' || l[1] != '+') continue;
      std::string f = l.substr(2);
      if (f == Norm(sname) || allowed.count(f)) continue;
      return "stray: opened '" + f + "', which no rule names";
    }
  }
  if (Ok(o) && expect_fail) return "found: exit 0, although some model is nowhere to be found, or the first one found is bad";
  if (!Ok(o)) {
    if (!expect_fail) return "lost: fails although every model can be found: " + Show(o.err, 300);
    x.Probe("model not found");
    for (auto& m : ms) {
      bool rep = o.err.find(sname + Fmt(":%d:", m.line)) != std::string::npos;
      if (rep && m.ok) return Fmt("lost: model %s at line %d is reported although it can be found: ", m.file.c_str(), m.line) + Show(o.err, 300);
    }
    return "";
  }
  x.Probe("all found");
  std::string doc;
  ReadOut(c, &doc);
  Doc d = ParseDoc(doc);
  if (!d.ok) return "document: " + d.error;
  if (d.pages.size() != ms.size()) return "document: wrong number of pages";
  for (size_t i = 0; i < ms.size(); i++) {
    double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
    // the first lines of a page are the drawing's, the last two the title's
    auto& l = d.pages[i].lines;
    if (ms[i].w < 0) {
      if (l.size() != 2) return Fmt("wrong: model '%s' is drawn, but the first candidate that can be opened is empty", ms[i].file.c_str());
      continue;
    }
    if (l.size() < 6) return "document: no drawing";
    for (size_t k = 0; k + 2 < l.size(); k++)
      for (auto& v : {l[k].a, l[k].b}) { x0 = std::min(x0, v.x); x1 = std::max(x1, v.x); y0 = std::min(y0, v.y); y1 = std::max(y1, v.y); }
    double w = (x1 - x0) / 72, h = (y1 - y0) / 72;
    if (fabs(w - ms[i].w) > .01 || fabs(h - ms[i].h) > .01)
      return Fmt("wrong: model '%s' is drawn %.4f x %.4f, the first candidate that can be opened is %.4f x %.4f", ms[i].file.c_str(), w, h, ms[i].w, ms[i].h);
  }
  return "";
}

// ================================================================== C07
std::string C07(Src& s, Ctx& x) {
  GenOpt go = Sized(s, x);
  go.min_models = 2 + int(s.below(6));
  bool many = s.below(6) == 5;
  if (many) go.min_models = 10 + int(s.below(20));
  Case c = GenCase(s, go);
  bool only_extra = false;
  if (s.below(60) == 59) {  // a long list of models, most of which are not there
    static const int k[] = {64, 100, 127, 128, 200, 255, 256, 257, 300, 512};
    int m = k[s.below(10)];
    const bool exact = s.below(2);
    const ModelRef like = c.models.back();
    int off = int(s.below(8));
    for (int j = off; m-- > 0; j++) {
      ModelRef r = like;
      r.var = Fmt("extra%d", j);
      r.file = Fmt("extra%d.stl", j);
      if (!exact && s.below(8) == 7) c.files[r.file] = Stl(like.model, s, true);
      c.models.push_back(r);
      c.pieces.insert(c.pieces.begin(), {"load " + r.var + " = \"" + r.file + "\";", -1, 0});
    }
    only_extra = exact && s.below(2);
    x.Probe("very many models");
  }
  Plan p = BasePlan(c);
  if (many || s.below(3) == 2) { p.fd_limit = 6 + int(s.below(6)); x.Probe("few file handles"); }
  std::set<std::string> bad_files, vars;
  std::map<std::string, std::string> how;
  uint64_t density = 1 + s.below(5);
  for (auto& m : c.models) {
    if (m.file == "/dev/null" || bad_files.count(Norm(m.file))) continue;
    std::string f = Real(m.file);
    std::string w;
    if (m.file.compare(0, 5, "extra") == 0) {
      if (c.files.count(f)) continue;
      bad_files.insert(Norm(m.file));
      how[Norm(m.file)] = "missing";
      continue;
    }
    if (s.below(density + 1) != 1 || only_extra) continue;
    switch (s.below(6)) {
      case 0: c.files.erase(f); w = "missing"; break;
      case 1: c.files.erase(f); c.files[f + "/"] = ""; w = "directory"; break;
      case 2: p.faults.push_back({F_OPEN_FAIL, Norm(m.file), 0, s.pick(kOpenErr), -1}); w = "open fails"; break;
      case 3: p.faults.push_back({F_READ_ERR, Norm(m.file), Offset(s, c.files[f].size()), s.pick(kReadErr), -1}); w = "read fails"; break;
      case 4: {
        std::string& t = c.files[f];
        if (t.empty()) { w = "missing"; c.files.erase(f); break; }
        size_t n = s.below(t.size());
        for (size_t i = 0; i < t.size(); i++, n = (n + 1) % t.size()) if (CutVerdict(t, n) == 1) break;
        if (CutVerdict(t, n) != 1) { w = "missing"; c.files.erase(f); break; }
        t.resize(n);
        w = "cut";
        break;
      }
      default: w = "malformed: " + BreakModel(s, &c.files[f]);
    }
    bad_files.insert(Norm(m.file));
    how[Norm(m.file)] = w;
    x.Probe(w.substr(0, w.find(':')));
  }
  // names defined twice
  struct Dup { std::string var, file; };
  int dups = s.below(3) == 2 && !only_extra ? 1 + int(s.below(2)) : 0;
  std::vector<size_t> tops;
  for (int i = 0; i < dups; i++) {
    tops.clear();
    for (size_t k = 0; k < c.pieces.size(); k++) if (c.pieces[k].kind == 0 || c.pieces[k].kind == 1) tops.push_back(k);
    tops.push_back(c.pieces.size());
    const ModelRef& m = c.models[s.below(c.models.size())];
    Put(&c, tops[s.below(tops.size())], "load " + m.var + " = \"" + (s.below(2) ? m.file : "nowhere.stl") + "\";", 0);
    x.Probe("defined twice");
  }
  // Reassemble with loads tracked one by one.
  std::vector<ModelRef> all;
  for (auto& pc : c.pieces) {
    if (pc.kind != 0) continue;
    ModelRef r;
    size_t a = pc.text.find_first_of(" \t") + 1;
    while (isspace((unsigned char)pc.text[a])) a++;
    size_t b = a;
    while (isalnum((unsigned char)pc.text[b]) || pc.text[b] == '_') b++;
    r.var = pc.text.substr(a, b - a);
    size_t q = pc.text.find('"');
    r.file = pc.text.substr(q + 1, pc.text.rfind('"') - q - 1);
    all.push_back(r);
  }
  c.models = all;
  Reassemble(&c, s);
  p.argv = c.Argv();
  std::map<int, std::string> want;
  for (auto& m : c.models) {
    bool dup = !vars.insert(m.var).second;
    if (dup) want[m.line] = "defined twice";
    else if (m.file == "nowhere.stl") want[m.line] = "missing";
    else if (bad_files.count(Norm(m.file))) want[m.line] = how[Norm(m.file)];
  }
  if (s.below(4) == 3) AddDelivery(s, c, &p);
  LogFiles(x, c.files);
  Outcome o = Go(x, c.files, p);
  x.scripts.insert(Hash(c.script));
  if (!want.empty()) x.Nontrivial();
  if (o.hang() || o.sig) return "crash: " + o.brief() + " " + Show(o.err, 300);
  if (want.empty() && !Ok(o)) {
    return "spurious: every model is fine, but the command fails: " + Show(o.err, 300);
  }
  if (!want.empty() && Ok(o)) return "accepted: exit 0 with bad models";
  std::set<int> got;
  const std::string key = c.script_name + ":";
  for (size_t i = 0; (i = o.err.find(key, i)) != std::string::npos; i += key.size()) {
    size_t k = i + key.size();
    if (isdigit((unsigned char)o.err[k])) got.insert(atoi(o.err.c_str() + k));
  }
  for (auto& w : want) if (!got.count(w.first)) return Fmt("missed: the model at line %d (%s) is not reported: ", w.first, w.second.c_str()) + Show(o.err, 400);
  std::set<int> loads;
  for (auto& m : c.models) loads.insert(m.line);
  for (int l : got) if (loads.count(l) && !want.count(l)) return Fmt("blamed: the model at line %d is fine, but is reported: ", l) + Show(o.err, 400);
  return "";
}

// ================================================================== C08
std::string C08(Src& s, Ctx& x) {
  GenOpt go = Sized(s, x);
  go.min_models = 1;
  go.dims = s.below(2);
  Case c = GenCase(s, go);
  LogFiles(x, c.files);
  Gold g = Golden(x, c);
  int n = 2 + int(s.below(6));
  for (int i = 0; i < n; i++) {
    std::vector<std::string> v;
    for (auto& m : c.models) if (m.file != "/dev/null" && !c.files[Real(m.file)].empty()) v.push_back(m.file);
    if (v.empty()) return "";
    std::string victim = v[s.below(v.size())];
    const std::string& t = c.files[Real(victim)];
    size_t at;
    auto sp = SolidSpans(t);
    switch (s.below(5)) {
      case 0: at = s.below(t.size()); break;
      case 1: at = t.size() - 1 - s.below(std::min<size_t>(t.size(), 40)); break;
      case 2: at = s.below(std::min<size_t>(t.size(), 12)); break;
      case 3: {  // at the end of a line
        at = t.find('\n', s.below(t.size()));
        if (at == std::string::npos) at = t.size() - 1; else at += s.below(2);
        if (at >= t.size()) at = t.size() - 1;
        break;
      }
      default: {  // after a whole facet
        at = t.find("endfacet", s.below(t.size()));
        if (at == std::string::npos) at = s.below(t.size());
        else { at = t.find('\n', at) + s.below(3); if (at >= t.size()) at = t.size() - 1; }
      }
    }
    int verdict = CutVerdict(t, at);
    Plan p = BasePlan(c);
    Files files = c.files;
    bool eof = s.below(2);
    if (eof) p.faults.push_back({F_READ_EOF, Norm(victim), int64_t(at), 0, -1});
    else files[Real(victim)].resize(at);
    if (s.below(3) == 2) p.delivery.push_back(RandDelivery(s, Norm(victim)));
    Outcome o = Go(x, files, p);
    if (verdict == 1) x.Nontrivial();
    x.Probe(verdict == 1 ? "cut inside of a solid" : verdict == 0 ? "cut outside of a solid" : "not cut");
    if (o.hang() || o.sig) return "crash: " + o.brief() + " " + Show(o.err, 300);
    if (verdict == 1) {
      if (Ok(o)) return Fmt("drawn: %s ends at byte %zu of %zu, inside of a solid, but the command exits 0", victim.c_str(), at, t.size());
      std::string e = NoDocument(c, nullptr);
      if (!e.empty()) return "output: the model is cut short, but there are " + e;
    }
  }
  return "";
}

// ================================================================== C09
struct Tok { size_t at, n; int kind; };  // 0 number, 1 word, 2 string, 3 list or point, 4 punctuation
std::vector<Tok> Toks(const std::string& d) {
  std::vector<Tok> r;
  for (size_t i = 0; i < d.size();) {
    unsigned char c = d[i];
    size_t e = i + 1;
    if (isspace(c)) { i++; continue; }
    int k = 4;
    if (isdigit(c) || ((c == '-' || c == '.') && e < d.size() && isdigit((unsigned char)d[e]))) {
      k = 0;
      while (e < d.size() && (isdigit((unsigned char)d[e]) || strchr(".eE", d[e]) || (strchr("+-", d[e]) && strchr("eE", d[e - 1])))) e++;
    } else if (isalpha(c) || c == '_') {
      k = 1;
      while (e < d.size() && (isalnum((unsigned char)d[e]) || d[e] == '_')) e++;
    } else if (c == '"') {
      k = 2;
      while (e < d.size() && d[e] != '"' && d[e] != '\n') e++;
      if (e < d.size()) e++;
    } else if (c == '[') {
      size_t q = d.find(']', i);
      if (q != std::string::npos && q - i < 200) { k = 3; e = q + 1; r.push_back({i, e - i, k}); i++; continue; }
    }
    r.push_back({i, e - i, k});
    i = e;
  }
  return r;
}
// Damage that leaves the text well-formed: a token becomes another of its kind.
std::string DamageToken(Src& s, std::string* t, int near = 0) {
  auto v = Toks(*t);
  int want = near ? near : s.below(3) ? 0 : int(1 + s.below(4));
  std::vector<Tok> l;
  for (auto& k : v) if (k.kind == want) l.push_back(k);
  if (l.empty()) return "nothing";
  Tok a = l[s.below(l.size())];
  std::string by;
  if ((want == 2 || want == 1) && (near || s.below(4) == 3)) {  // nearly the same
    by = t->substr(a.at, a.n);
    size_t in = want == 2 && by.size() > 1 ? 1 : 0, end = by.size() - in;
    static const char* const q[] = {"x", " ", "+", "1", "_", "X", "-", ".", "%"};
    switch (s.below(6)) {
      case 0: by.insert(end, q[s.below(want == 2 ? 9 : 4) & ~(want == 2 ? 0u : 1u)]); break;
      case 1: by.insert(in, q[s.below(9)]); break;
      case 2: if (end > in) by.erase(end - 1, 1); break;
      case 3: if (end > in) by.erase(in, 1); break;
      case 4: if (end > in) by[in] = char(by[in] ^ 0x20); break;
      default: by.insert(end, by.substr(in, end - in));
    }
  } else if (s.below(2) || want == 4 || want == 1) {
    Tok b = l[s.below(l.size())];
    by = t->substr(b.at, b.n);
  } else if (want == 0) {
    static const char* const q[] = {"0", "-0", "1", "-1", "0.5", "1e-6", "1e-7", "1000000", "1e18", "-1e18", "1e30", "1e38", "1e-38", "3", "90", "180", "360", "-90", "45", "1e150", "1e-200"};
    by = q[s.below(21)];
    if (s.below(4) == 3) { by = t->substr(a.at, a.n); if (by[0] == '-') by = by.substr(1); else by = "-" + by; }
  } else if (want == 2) {
    static const char* const q[] = {"\"\"", "\"%\"", "\"%s\"", "\"%n\"", "\"%*f\"", "\"%1000000f\"", "\"%.400f\"", "\"%g%%\"", "\"%lf\"", "\"%100.1f\"", "\"%70d\"", "\"(\"", "\")\"", "\"X-\"", "\"%.2f\"", "\"%.2e\"", "\"%5$f\"", "\"\\\\\"", "\"-\""};
    by = q[s.below(19)];
  } else {
    static const char* const q[] = {"[0,0]", "[0,0,0]", "[1,1,1]", "[-1,0,0]", "[]", "[1]", "[1,2,3,4]", "[1e30,0,0]", "[0,0,1]", "near([0,0,0])", "center([0,0,0])", "mid([0,0,0],[0,0,0])", "near(near([0,0,0]))", "[1e-30,1e-30,0]"};
    by = q[s.below(14)];
  }
  std::string was = t->substr(a.at, a.n);
  t->replace(a.at, a.n, by);
  return Fmt("at %zu ", a.at) + was + " becomes " + by;
}
// A token is lost, doubled or foreign, or the last one.
std::string BreakToken(Src& s, std::string* t) {
  auto v = Toks(*t);
  if (v.empty()) return "nothing";
  Tok a = v[s.below(v.size())];
  std::string was = t->substr(a.at, a.n);
  static const char* const q[] = {"$", ";", "}", "]", ")", "[1,2]", "[1,2,3]", "\"x\"", "x", "7", "near(", "@", "draw", "=", ":", ","};
  switch (s.below(6)) {
    case 0: t->resize(a.at); break;
    case 1: t->resize(a.at + a.n); break;
    case 2: t->erase(a.at, a.n); break;
    case 3: t->insert(a.at, was + " "); break;
    case 4: t->insert(a.at + (s.below(2) ? a.n : 0), std::string(" ") + q[s.below(16)] + " "); break;
    default: t->replace(a.at, a.n, q[s.below(16)]);
  }
  return Fmt("at %zu ", a.at) + was.substr(0, 40) + " is broken";
}
// One piece of the text grows out of all proportion.
std::string Blow(Src& s, std::string* t) {
  static const size_t k[] = {60, 130, 260, 520, 1030, 2050, 4100, 8200, 17000, 70000};
  size_t n = k[s.below(s.below(4) ? 7 : 10)] + s.below(10);
  auto v = Toks(*t);
  if (v.empty()) return "nothing";
  int want = int(s.below(6));
  if (want == 5) {  // a line over and over
    auto l = Lines(*t);
    size_t i = s.below(l.size());
    n = std::min<size_t>(n, 1 + (600000 / (l[i].size() + 1)));
    l.insert(l.begin() + i, n, l[i]);
    t->clear();
    for (auto& q : l) *t += q;
    return Fmt("line %zu comes %zu times", i + 1, n);
  }
  std::vector<Tok> l;
  for (auto& q : v) if (q.kind == want) l.push_back(q);
  if (l.empty()) return "nothing";
  Tok a = l[s.below(l.size())];
  std::string by, was = t->substr(a.at, a.n);
  switch (want) {
    case 0: by = s.below(2) ? was + (was.find('.') == std::string::npos ? "." : "") + std::string(n, '3') : std::string(n, s.below(2) ? '0' : '7') + "1"; break;
    case 1: while (by.size() < n) by += was; break;
    case 2: {
      static const char* const q[] = {"a", "\\n", "\\\\", "(", "%f", " ", "\xc3\xa9", "\" \""};
      std::string u = q[s.below(8)];
      by = "\"";
      while (by.size() < n) by += u;
      by += "\"";
      break;
    }
    case 3: {
      static const char* const f[] = {"near(", "center(", "mid("};
      std::string u = f[s.below(3)];
      if (s.below(3) == 2) n *= 10;  // deeper than any stack
      for (size_t i = 0; i < n; i++) by += u;
      by += was;
      by += std::string(n, ')');
      break;
    }
    default: by = was; while (by.size() < n) by += was; 
  }
  t->replace(a.at, a.n, by);
  return Fmt("at %zu ", a.at) + was.substr(0, 40) + Fmt(" grows to %zu bytes", by.size());
}
std::string Damage(Src& s, std::string* t) {
  if (t->empty()) { *t = std::string(1 + s.below(20), char(s.below(256))); return "bytes in an empty file"; }
  std::string& d = *t;
  size_t n = d.size();
  static const size_t bs[] = {1, 2, 4, 16, 64, 512, 4096};
  size_t b = std::min(n, bs[s.below(7)]);
  size_t at = s.below(n - b + 1);
  std::vector<size_t> nums;
  switch (s.below(14)) {
    case 0: d[at] ^= char(1 << s.below(8)); return Fmt("bit flip at %zu", at);
    case 1: d[at] = char(s.below(256)); return Fmt("byte at %zu replaced", at);
    case 2: memset(&d[at], 0, b); return Fmt("%zu bytes at %zu zeroed", b, at);
    case 3: d.erase(at, b); return Fmt("%zu bytes at %zu lost", b, at);
    case 4: d.insert(s.below(n + 1), d.substr(at, b)); return Fmt("%zu bytes at %zu duplicated", b, at);
    case 5: { size_t to = s.below(n - b + 1); std::string q = d.substr(at, b); d.erase(at, b); d.insert(std::min(to, d.size()), q); return Fmt("%zu bytes at %zu moved to %zu", b, at, to); }
    case 6: d.resize(at); return Fmt("cut at %zu", at);
    case 7: { for (size_t i = 0; i < b; i++) d[at + i] = char(s.below(256)); return Fmt("%zu random bytes at %zu", b, at); }
    case 8: case 9: {  // lines lost, doubled, swapped
      auto l = Lines(d);
      size_t i = s.below(l.size());
      switch (s.below(4)) {
        case 0: l.erase(l.begin() + i); break;
        case 1: { std::string q = l[i]; size_t k = 1 + s.skew(50); l.insert(l.begin() + i, k, q); break; }
        case 2: std::swap(l[i], l[s.below(l.size())]); break;
        default: l[i] = std::string(1 + s.skew(20000), 'A' + char(s.below(60))) + "\n";
      }
      d.clear();
      for (auto& q : l) d += q;
      return Fmt("lines around %zu damaged", i);
    }
    default: {  // a number becomes another
      for (size_t i = 0; i < n; i++) if (isdigit((unsigned char)d[i]) && (i == 0 || !(isdigit((unsigned char)d[i - 1]) || d[i - 1] == '.' || d[i - 1] == 'e'))) nums.push_back(i);
      if (nums.empty()) { d[at] ^= 1; return "bit flip"; }
      size_t i = nums[s.below(nums.size())], e = i;
      while (e < n && (isdigit((unsigned char)d[e]) || d[e] == '.')) e++;
      static const char* const v[] = {"0", "1e308", "-1e308", "1e-308", "9999999999", "e", ".", "--1", "1e", "nan", "0.0000000001", "123456789012345678901234567890", "1e999", "4e38", "3e-39", "-0", "99999", "2147483648", "1e154", "1e-160"};
      std::string r = v[s.below(20)];
      d.replace(i, e - i, r);
      return Fmt("number at %zu becomes %s", i, r.c_str());
    }
  }
}
// A well-formed model that no modeller would make: any triangles on a coarse
// grid, so that edges meet, overlap and hide each other in every possible way.
std::string Soup(Src& s, Ctx& x) {
  Rng f(1 + s.below(1 << 20));
  int n = 1 + int(s.skew(s.below(6) == 5 ? 60 : 14));
  int g = 2 + int(s.below(4)), gz = 1 + int(s.below(3));
  static const double unit[] = {1, 0.5, 1.0 / 3, 0.1, 1e-3, 1e3, 1e-9, 1e9};
  double u = unit[s.below(s.below(4) ? 1 : 8)];
  bool closed = s.below(3) == 0;
  std::string r = "solid soup\n";
  std::vector<std::array<double, 3>> last;
  // below a cover: everything begins and ends at its corners or on its edges
  bool cover = s.below(2);
  if (cover) n += 5;
  std::array<double, 3> lid[3];
  for (auto& q : lid) q = {double(f.below(3)) * 4 * u, double(f.below(3)) * 4 * u, 12 * u};
  for (int i = 0; i < n; i++) {
    std::array<double, 3> v[3];
    if (cover && i == 0) { for (int k = 0; k < 3; k++) v[k] = lid[k]; }
    else if (cover) for (auto& q : v) {
      int a = int(f.below(3)), b = int(f.below(3));
      double w = f.below(2) ? 0 : f.below(2) ? .5 : double(f.below(5)) / 4;
      for (int k = 0; k < 2; k++) q[k] = lid[a][k] + (lid[b][k] - lid[a][k]) * w;
      q[2] = f.below(4) ? 0 : double(f.below(13)) * u;
    } else for (auto& q : v) {
      if (!last.empty() && f.below(3) == 0) q = last[f.below(last.size())];
      else q = {double(f.below(g)) * u, double(f.below(g)) * u, double(f.below(gz)) * u};
      last.push_back(q);
    }
    auto put = [&](int a, int b, int c, double nz) {
      r += Fmt(" facet normal %d %d %d\n  outer loop\n", int(f.below(3)) - 1, int(f.below(3)) - 1, int(nz));
      for (int k : {a, b, c}) {
        std::string l = Fmt("   vertex %.12g %.12g %.12g\n", v[k][0], v[k][1], v[k][2]);
        l.erase(std::remove(l.begin(), l.end(), '+'), l.end());
        r += l;
      }
      r += "  endloop\n endfacet\n";
    };
    put(0, 1, 2, f.below(4) ? 1 : -1);
    if (closed) put(0, 2, 1, -1);
  }
  x.Probe("triangle soup");
  return r + "endsolid soup\n";
}
// All numbers of a statement, a facet or a ratio become the same few values.
std::string Flatten(Src& s, std::string* t) {
  static const char* const v[] = {"0", "1", "-1", "0.0", "2", "1000000", "-0", "0.5"};
  if (t->empty()) return "nothing";
  auto toks = Toks(*t);
  std::vector<size_t> k;
  for (size_t i = 0; i < toks.size(); i++) if (toks[i].kind == 0) k.push_back(i);
  if (k.empty()) return "nothing";
  size_t at = s.below(k.size()), n = 1 + s.below(s.below(3) ? 3 : 12);
  if (s.below(2)) {  // a ratio, if there is one
    for (size_t i = 0; i < k.size(); i++) {
      size_t q = k[(at + i) % k.size()];
      if (q + 2 < toks.size() && t->substr(toks[q + 1].at, toks[q + 1].n) == ":") { at = (at + i) % k.size(); n = 2; break; }
    }
  }
  std::string by = v[s.below(8)];
  bool mix = s.below(3) == 2;
  size_t hi = std::min(k.size(), at + n);
  for (size_t i = hi; i-- > at;) t->replace(toks[k[i]].at, toks[k[i]].n, mix ? v[s.below(8)] : by);
  return Fmt("%zu numbers from %zu on become ", hi - at, toks[k[at]].at) + by;
}
Case DamagedCase(Src& s, Ctx& x, std::string* what) {
  GenOpt go;
  go.big = s.below(16) == 15;
  go.min_models = s.below(4) ? 1 : 0;
  Case c = GenCase(s, go);
  if (s.below(5) == 4 && !c.models.empty()) {
    const ModelRef& m = c.models[s.below(c.models.size())];
    std::string f = Real(m.file);
    if (c.files.count(f)) {
      c.files[f] = Soup(s, x);
      *what += f + ": triangle soup; ";
      if (s.below(3)) c.files[Real(c.script_name)] += "\npage { draw " + m.var + " { @[0,0]; " + (s.below(4) ? "" : "view=\"Z-\"; ") + "} }\n";
    }
  }
  if (s.below(6) == 5) {
    Plan unused;
    *what += AddDefect(&c, s, &unused) + "; ";
    Reassemble(&c, s);
  }
  int n = what->empty() ? 1 + int(s.skew(6)) : int(s.below(4)) - 1;
  bool wellformed = s.below(5) < 3;
  for (int i = 0; i < n; i++) {
    std::vector<std::string> v = {Real(c.script_name)};
    for (auto& m : c.models) if (m.file != "/dev/null") { v.push_back(Real(m.file)); v.push_back(Real(m.file)); }
    std::string f = v[s.below(v.size())];
    std::string w = wellformed ? (s.below(4) ? DamageToken(s, &c.files[f]) : s.below(2) ? BreakToken(s, &c.files[f]) : Flatten(s, &c.files[f])) : Damage(s, &c.files[f]);
    *what += f + ": " + w + "; ";
  }
  if (s.below(10) == 9) {
    std::string f = Real(c.models.empty() || s.below(2) ? c.script_name : c.models[s.below(c.models.size())].file);
    if (c.files.count(f)) *what += f + ": " + Blow(s, &c.files[f]) + "; ";
  }
  c.script = c.files[Real(c.script_name)];
  x.scripts.insert(Hash(c.script));
  return c;
}
std::string Unclean(const Outcome& o) {
  if (o.hang()) return "hang: " + o.brief();
  if (o.sig) return Fmt("signal: dies by signal %d: ", o.sig) + Show(o.err.size() > 600 ? o.err.substr(o.err.size() - 600) : o.err, 600);
  if (!o.exited || (o.code != 0 && o.code != 1)) return Fmt("status: ends with status %d: ", o.code) + Show(o.err, 900);
  if (o.code == 1 && o.err.empty()) return "silent: exit 1 without any diagnostic";
  return "";
}
std::string C09(Src& s, Ctx& x) {
  std::string what;
  Case c = DamagedCase(s, x, &what);
  LogFiles(x, c.files);
  if (x.logging) x.log << "  damage: " << what << "\n";
  Plan p = BasePlan(c);
  p.max_steps = 3000000000ULL;
  Outcome o = Go(x, c.files, p);
  x.fired[F_STORAGE]++;
  x.runs_with[F_STORAGE]++;
  x.Nontrivial();
  std::string e = Unclean(o);
  if (!e.empty()) return e + " [" + what + "]";
  if (Ok(o)) {
    x.Probe("damage went unnoticed");
    std::string doc;
    ReadOut(c, &doc);
    if (doc.compare(0, 2, "% ") != 0) return "document: exit 0 without a document";
  } else {
    x.Probe("rejected");
  }
  return "";
}
// The same damage under two fillings of the memory: nothing may change.
std::string C09Fill(Src& s, Ctx& x) {
  std::string what;
  Case c = DamagedCase(s, x, &what);
  LogFiles(x, c.files);
  if (x.logging) x.log << "  damage: " << what << "\n";
  Plan p = BasePlan(c);
  Outcome a = Go(x, c.files, p);
  x.fired[F_STORAGE]++;
  x.runs_with[F_STORAGE]++;
  x.Nontrivial();
  std::string e = Unclean(a);
  if (!e.empty()) return e + " [" + what + "]";
  std::string d1, d2;
  ReadOut(c, &d1);
  p.fill_mode = 1 + int(s.below(4));
  p.fill_seed = 1 + s.below(100);
  p.heap_shift = uint32_t(s.below(100));
  p.stack_shift = uint32_t(s.below(100));
  if (s.below(2)) p.heap_scatter = 1 + s.below(100);
  Outcome b = Go(x, c.files, p);
  x.fired[F_DIRTY_MEM]++;
  x.runs_with[F_DIRTY_MEM]++;
  e = Unclean(b);
  if (!e.empty()) return e + " [" + what + "]";
  ReadOut(c, &d2);
  if (a.code != b.code) return Fmt("uninitialised: exit %d or %d, depending on left-over memory", a.code, b.code);
  x.Probe(Ok(a) ? "damage went unnoticed" : "rejected");
  if (d1 != d2) return "uninitialised: the document depends on left-over memory: " + Differ(d2, d1);
  return "";
}

// ================================================================== C10
std::string LocalTime(int64_t t, bool have_tz, const std::string& tz) {
  if (have_tz) setenv("TZ", tz.c_str(), 1); else unsetenv("TZ");
  tzset();
  time_t tt = t;
  struct tm tm;
  localtime_r(&tt, &tm);
  char b[64];
  strftime(b, sizeof b, "%Y-%m-%d %I:%M:%S", &tm);
  return b;
}
std::string C10(Src& s, Ctx& x) {
  GenOpt go = Sized(s, x);
  go.dims = s.below(2);
  Case c = GenCase(s, go);
  Plan p = BasePlan(c);
  static const std::vector<std::string> zones = {"UTC", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "Europe/London", "America/St_Johns", "Asia/Kathmandu", "Africa/Cairo", "Pacific/Kiritimati", "Etc/GMT+12", "Europe/Moscow"};
  bool have_tz = s.below(6) != 0;
  std::string tz = s.pick(zones);
  p.env.clear();
  if (have_tz) p.env.emplace_back("TZ", (s.below(8) == 7 ? ":" : "") + tz);
  if (s.below(4) == 3) {
    p.env_any = 1 + s.below(1000);
    if (s.below(2)) p.env.emplace_back("SOURCE_DATE_EPOCH", Fmt("%d", 1000000000 + int(s.below(1000000))));
    x.fired[F_ENV_NOISE]++;
    x.runs_with[F_ENV_NOISE]++;
  }
  // the moment the process starts
  int64_t base;
  switch (s.below(4)) {
    case 0: base = 1600000000 + int64_t(s.below(100000000)); break;
    case 1: base = int64_t(s.below(2900000000ULL)) + 100000000; break;
    case 2: {  // just before a turn of the day, half day, hour, minute or year
      int64_t d = 1500000000 + int64_t(s.below(400000000));
      static const int64_t u[] = {60, 3600, 43200, 86400};
      int64_t k = u[s.below(4)];
      base = d / k * k - 1 - int64_t(s.below(3));
      break;
    }
    default: {  // around a change of the clocks
      static const int64_t sw[] = {1710054000, 1730613600, 1711846800, 1729994400, 1678604400, 1325239200, 1680307200};
      base = sw[s.below(7)] - int64_t(s.below(10));
    }
  }
  p.clock_base_ns = base * 1000000000LL + int64_t(s.below(1000000000));
  // how fast it runs, and how it misbehaves
  Gold g;
  {
    Plan q = p;
    g.o = Go(x, c.files, q);
  }
  uint64_t est = std::max<uint64_t>(1, g.o.steps);
  switch (s.below(5)) {
    case 0: break;
    case 1: p.per_step_ns = 1 + s.below(3000000000ULL / est + 1); break;             // some seconds
    case 2: p.per_step_ns = 1 + s.below(600000000000ULL / est + 1); break;           // minutes
    case 3: p.per_op_ns = 1000000 * s.below(30000); break;
    default: p.per_read_ns = 1000000 * s.below(5000); p.per_step_ns = s.below(1000000000ULL / est + 1);
  }
  int nj = int(s.below(5));
  static const int64_t amount[] = {1000000000LL, -1000000000LL, 3600000000000LL, -3600000000000LL, 43200000000000LL, 86400000000000LL, -86400000000000LL * 30, 500000000LL, 60000000000LL};
  for (int i = 0; i < nj; i++) {
    Jump j;
    j.on = int(s.below(3));
    j.at = j.on == 0 ? s.below(est) + 1 : j.on == 1 ? 1 + s.below(g.o.ops + 1) : 1 + s.below(4);
    j.delta_ns = amount[s.below(9)];
    p.jumps.push_back(j);
  }
  if (s.below(4) == 3) AddDelivery(s, c, &p);
  LogFiles(x, c.files);
  Outcome o = Go(x, c.files, p);
  if (!Ok(o)) { x.Probe("golden failed"); if (Ok(g.o)) return "status: the clock makes the conversion fail: " + o.brief() + " " + Show(o.err, 200); return ""; }
  if (p.per_step_ns || p.per_op_ns || p.per_read_ns || o.fired[F_CLOCK_JUMP]) x.Nontrivial();
  std::string doc;
  ReadOut(c, &doc);
  Doc d = ParseDoc(doc);
  if (!d.ok) { x.Probe("document malformed"); return ""; }
  auto t = Times(d);
  // every page that should carry a time does
  size_t pages_with = t.size() - 1;
  if (c.timestamp && pages_with != d.pages.size()) return Fmt("missing: %zu of %zu pages carry a time", pages_with, d.pages.size());
  if (!c.timestamp && pages_with) return "unwanted: a page carries a time although time stamps are off";
  for (auto& v : t) if (v != t[0]) return "differ: the document carries both " + t[0] + " and " + v;
  // it is the time of an instant of the run
  std::set<int64_t> tried;
  bool found = false;
  std::string want0;
  auto check = [&](int64_t a, int64_t b) {
    if (b < a) std::swap(a, b);
    int64_t n = b - a;
    // long spans: compare the digits below the hour first by stepping minutes
    if (n <= 4000) {
      for (int64_t q = a; q <= b && !found; q++) if (LocalTime(q, have_tz, tz) == t[0]) found = true;
    } else {
      int sec = atoi(t[0].substr(17, 2).c_str());
      for (int64_t q = a; q <= b && !found; q++) {
        if (((q % 60) + 60) % 60 != sec) continue;  // zones are whole minutes off
        if (LocalTime(q, have_tz, tz) == t[0]) found = true;
      }
    }
  };
  for (auto& seg : o.clock) check(seg.first / 1000000000, seg.second / 1000000000);
  if (!found) check(1600000000, 1600000000);  // the simulated clock before main()
  LocalTime(0, true, "UTC");
  if (!found) {
    std::string seg;
    for (auto& q : o.clock) seg += Fmt(" [%lld..%lld]", (long long)(q.first / 1000000000), (long long)(q.second / 1000000000));
    return "wrong: time stamp " + t[0] + " (TZ=" + (have_tz ? tz : "(unset)") + ") is no moment of the run:" + seg + " first is " + LocalTime(o.clock[0].first / 1000000000, have_tz, tz);
  }
  return "";
}

// ================================================================== C11
void Perturb(Src& s, Plan* p) {
  if (s.below(2)) { p->fill_mode = int(s.below(5)); p->fill_seed = 1 + s.below(1000); }
  if (s.below(2)) p->heap_shift = uint32_t(s.below(4000));
  if (s.below(2)) p->heap_scatter = 1 + s.below(1000);
  if (s.below(2)) p->stack_shift = uint32_t(s.below(4000));
  static const std::vector<std::pair<std::string, std::string>> noise = {
      {"LANG", "de_DE.UTF-8"}, {"LC_ALL", "tr_TR.UTF-8"}, {"LC_NUMERIC", "de_DE"}, {"HOME", "/nonexistent"}, {"TMPDIR", "/work/tmp"}, {"POSIXLY_CORRECT", "1"},
      {"COLUMNS", "7"}, {"TERM", "dumb"}, {"USER", "somebody"}, {"LD_BIND_NOW", "1"}, {"PATH", ""}, {"PWD", "/wrong"}, {"LC_ALL", "C.UTF-8"},
      {"DEBUG", "1"}, {"VERBOSE", "1"}, {"NO_COLOR", "1"}, {"STL_TO_PS", "1"}, {"SOURCE_DATE_EPOCH", "1"}, {"load_path", "/work"}, {"FLAGS_timestamp", "0"}, {"GLIBCXX_TUNABLES", "x"}};
  size_t n = s.below(5);
  for (size_t i = 0; i < n; i++) p->env.push_back(noise[s.below(noise.size())]);
  if (s.below(4) == 3) p->env.emplace_back("PAD", std::string(s.below(5000), 'x'));
  if (s.below(2)) p->pid = 1 + int(s.below(4000000));
  if (s.below(2)) p->rnd_seed = s.below(1 << 20);
  if (s.below(2)) p->clock_base_ns = int64_t(1000000000 + s.below(3000000000ULL)) * 1000000000LL + int64_t(s.below(1000000000));
  if (s.below(3) == 2) p->per_step_ns = s.below(100000);
  if (s.below(4) == 3) p->stderr_mode = 1;
  if (s.below(6) == 5) p->env[0].second = "Asia/Tokyo";
}
// Made by tools/build.py beside the executable.
std::string LocaleDir() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b);
  std::string d(b, n > 0 ? size_t(n) : 0);
  d = d.substr(0, d.rfind('/') + 1) + "locale";
  for (auto l : {"de_DE.UTF-8", "tr_TR.UTF-8", "de_DE"})
    if (access((d + "/" + l + "/LC_NUMERIC").c_str(), R_OK) != 0) return "";
  return d;
}
bool AddLocale(Src& s, Plan* p) {
  static const std::string dir = LocaleDir();
  static const char* const n[] = {"de_DE.UTF-8", "tr_TR.UTF-8", "de_DE"};
  static const char* const v[] = {"LC_ALL", "LANG", "LC_NUMERIC", "LC_CTYPE"};
  uint64_t i = s.below(3), j = s.below(6);
  if (dir.empty()) return false;
  for (auto e = p->env.begin(); e != p->env.end();) e = e->first == "LANG" || e->first.compare(0, 3, "LC_") == 0 ? p->env.erase(e) : e + 1;
  p->env.emplace_back("LOCPATH", dir);
  p->env.emplace_back(v[j > 3 ? 0 : j], n[i]);
  return true;
}
// The same flags, written differently.
void OtherSpelling(Src& s, Plan* p) {
  std::vector<std::vector<std::string>> groups;
  std::set<std::string> seen;
  bool twice = false;
  for (size_t i = 1; i < p->argv.size(); i++) {
    std::string a = p->argv[i], n = a.substr(0, a.find('='));
    if (a.compare(0, 2, "--") != 0 || n == "--") return;  // something unusual
    twice |= !seen.insert(n.compare(0, 4, "--no") == 0 ? "--" + n.substr(4) : n).second;
    size_t e = a.find('=');
    if (e == std::string::npos) {
      if (n != "--timestamp" && n != "--number_pages" && n.compare(0, 4, "--no") != 0) return;
      if (s.below(3) == 2) a = n.compare(0, 4, "--no") == 0 ? "--" + n.substr(4) + "=false" : n + "=1";
      groups.push_back({a});
    } else if (s.below(2) || e + 1 == a.size() || a[e + 1] == '-') {
      groups.push_back({a});
    } else if (n == "--timestamp" || n == "--number_pages") {
      groups.push_back({a.substr(1)});
    } else {
      groups.push_back({n, a.substr(e + 1)});
    }
  }
  if (!twice) for (size_t i = groups.size(); i > 1; i--) std::swap(groups[i - 1], groups[s.below(i)]);
  p->argv.resize(1);
  for (auto& g : groups) for (auto& a : g) p->argv.push_back(a);
}
// Files that happen to lie beside those of the conversion.
void Bystanders(Src& s, const Case& c, const std::set<std::string>& known, Files* files) {
  std::vector<std::string> bases = {"config", ".stl-to-ps", "Makefile", "README", "a.stl", "zz.stl", "core", "fonts", "load_path", "page", "stl-to-ps.conf", ".hidden", "0"};
  for (auto& f : c.files) for (auto e : {".bak", ".gz", "~", ".tmp", ".lock", ".1", ".idx"}) bases.push_back(f.first.substr(f.first.rfind('/') + 1) + e);
  for (int k = 1 + int(s.below(12)); k > 0; k--) {
    std::string dir;
    if (s.below(2) && !c.files.empty()) {
      auto it = c.files.begin();
      std::advance(it, s.below(c.files.size()));
      dir = it->first.substr(0, it->first.rfind('/') + 1);
    }
    std::string n = dir + bases[s.below(bases.size())];
    if (n.back() == '/' || n.size() > 240 || known.count(Norm(n)) || files->count(n) || files->count(n + "/")) continue;
    bool below = false;
    for (auto& f : *files) below |= f.first.compare(0, n.size() + 1, n + "/") == 0;
    if (!below) (*files)[n] = s.below(2) ? "solid a\nendsolid a\n" : "page {}\n";
  }
}
// The library inside of a program that has set its streams and locale to its taste.
std::string C11Lib(Src& s, Ctx& x) {
  Case c = GenCase(s, Sized(s, x));
  Plan p = BasePlan(c);
  if (s.below(4) == 3) {
    AddDefect(&c, s, &p);
    Reassemble(&c, s);
  }
  p.argv = c.Argv();
  p.mode = M_LIBSEQ;
  Act a;
  a.src = c.script_name;
  if (s.below(2)) a.file = c.script_name; else a.text = c.files[Real(c.script_name)];
  p.acts = {a};
  LogFiles(x, c.files);
  Outcome g = Go(x, c.files, p);
  if (!Clean(g)) return "";
  const std::string want = MaskTime(g.pay[0]);
  for (int n = 1 + int(s.below(3)); n--;) {
    Plan q = p;
    Act& b = q.acts[0];
    b.host = 1 + s.below(100000);
    if (a.file.empty() && s.below(3) == 2) b.lead = std::string(1 + s.below(5000), "x\n{\""[s.below(4)]);
    if (s.below(3) == 2) b.head = std::string(1 + s.below(5000), '#');
    if (s.below(3) == 2) {
      static const char* const l[] = {"de_DE.UTF-8", "tr_TR.UTF-8", "de_DE"};
      static const std::string dir = LocaleDir();
      if (!dir.empty()) { q.env.emplace_back("LOCPATH", dir); b.c_locale = l[s.below(3)]; x.fired[F_LOCALE]++; x.runs_with[F_LOCALE]++; }
    }
    Outcome o = Go(x, c.files, q);
    x.Nontrivial();
    x.Probe("caller with habits");
    if (o.hang() || !Clean(o)) return "caller-crash: " + o.brief() + " " + Show(o.err, 300);
    std::string doc = MaskTime(o.pay[0]);
    if (o.ret[0] != g.ret[0]) return Fmt("caller-status: the call returned %d instead of %d: ", o.ret[0], g.ret[0]) + Show(o.err, 300);
    if (doc != want) return "caller-document: " + Differ(doc, want);
  }
  return "";
}
std::string C11(Src& s, Ctx& x) {
  if (s.below(8) == 7) return C11Lib(s, x);
  GenOpt go = Sized(s, x);
  Case c = GenCase(s, go);
  Plan base = BasePlan(c);
  if (s.below(5) == 4) {
    AddDefect(&c, s, &base);
    Reassemble(&c, s);
    base.argv = c.Argv();
  }
  LogFiles(x, c.files);
  Gold g = Golden(x, c, base);
  std::string want = MaskTime(g.doc);
  int n = 2 + int(s.below(3));
  std::set<std::string> known = {Norm(c.script_name), Norm(c.out_name)};
  for (auto& f : c.files) known.insert(Norm(f.first));
  for (auto& m : c.models) {
    known.insert(Norm(m.file));
    for (auto& e : c.load_path) known.insert(Norm(e + "/" + m.file));
  }
  // A name the script speaks of is no phantom either; one that the command
  // makes up is.
  for (auto& l : Lines(g.o.opens)) {
    if (l.size() <= 3) continue;
    std::string n = l.substr(2, l.size() - 3), base = n.substr(n.rfind('/') + 1);
    if (!base.empty() && c.files[c.script_name].find(base) != std::string::npos) known.insert(n);
  }
  for (int i = 0; i < n; i++) {
    Plan p = base;
    Perturb(s, &p);
    if (s.below(2)) g_mtime_seed = 1 + s.below(1000);
    if (s.below(2)) p.env_any = 1 + s.below(100);
    if (s.below(2)) { p.id_seed = 1 + s.below(1000); x.fired[F_HOST]++; x.runs_with[F_HOST]++; }
    if (s.below(2)) { p.phantom = 1 + s.below(1000); p.known = known; }
    if (s.below(3) == 2 && AddLocale(s, &p)) { x.fired[F_LOCALE]++; x.runs_with[F_LOCALE]++; }
    if (s.below(3) == 2) p.argv[0] = s.below(2) ? "/usr/local/bin/stl-to-ps" : "./stl2ps-old";
    Files files = c.files;
    std::string stale;
    if (s.below(3) == 2) {
      p.stdin_mode = 1 + int(s.below(2));
      static const char* const t[] = {"y\n", "page {}\n", "solid a\nendsolid a\n", "--notimestamp\n", ""};
      for (int k = int(s.below(20)); k >= 0; k--) p.stdin_text += t[s.below(5)];
    }
    if (s.below(3) == 2) OtherSpelling(s, &p);
    if (s.below(2)) Bystanders(s, c, known, &files);
    if (s.below(3) == 2 && g.have) files[Real(c.out_name)] = stale = Stale(s, g.doc.size());
    Outcome o = Go(x, files, p);
    x.Nontrivial();
    x.fired[F_ENV_NOISE]++;
    if (p.fill_mode) { x.fired[F_DIRTY_MEM]++; x.runs_with[F_DIRTY_MEM]++; }
    std::string doc;
    bool have = ReadOut(c, &doc);
    if (o.code != g.o.code || o.sig != g.o.sig || o.hang() != g.o.hang()) return "status: " + o.brief() + " instead of " + g.o.brief() + ": " + Show(o.err, 300);
    doc = MaskTime(doc);
    if (have != g.have || doc != want) return "document: " + Differ(doc, want);
  }
  return "";
}

// ================================================================== C12
struct LibCase { Case c; Act a; };
// Short scripts of one form, each with one or two words other than the last.
const int kSlots = 12;
void Alike(Src& s, std::vector<int>* v, Case* c) {
  static const std::vector<std::string> k[kSlots] = {
      {"m0.stl", "m1.stl", "./m0.stl", "m0.stl ", "M0.stl", "m0", "m0.st", "m0.stl/", "nowhere"},
      {"m1.stl", "m0.stl", "./m1.stl", "m01.stl", "m.stl"},
      {"\"X+\"", "\"X-\"", "\"Y+\"", "\"Z+\"", "\"X+ \"", "\"X\"", "\" X+\"", "\"x+\"", "\"X+X+\"", "\"\"", "\"X+-\"", "[30,40]", "[30,41]", "[40,30]", "[0,0]", "\"X\" \"+\"", "7", "[-30,40]"},
      {"\"X+\"", "\"X-\"", "\"Z-\"", "\"Y-\"", "\"X+ \"", "\"Z\"", "\"Z+\"", "\"z-\"", "\"Z-Z\"", "[30,40]", "[40,30]", "[210,40]"},
      {"1:1", "2:1", "1:2", "2:2", "10:1", "1:10", "3", "\"1:1\"", "1:0", "0:1", "-1:1", "1:1.0001"},
      {"1:1", "1:2", "2:4", "4:2", "1:3"},
      {"[0,0]", "[1,1]", "[1,2]", "[2,1]", "[12,1]", "[1,12]", "[0,0,0]", "[-1,-1]", "[0,0.001]"},
      {"\"a\"", "\"A\"", "\"a \"", "\"aa\"", "\"\"", "\"b\"", "a", "\"a\" \"a\"", "\"a\\n\"", "[1,1,1]"},
      {"\"%.2f\"", "\"%.2f\" \"x\"", "\"%.3f\"", "\"%.2e\"", "\"%f\"", "\"%d\"", "\"%.2f%%\"", "\"%.2f %.2f\"", "\"%\"", "\"x\"", "\"\"", "\"%s\""},
      {"[0,0,0]", "[1,0,0]", "[0,1,0]", "[0,0,1]", "near([0,0,0])", "near([1,1,1])", "near(near([0,0,0]))", "far([0,0,0])", "near([0,0])"},
      {"\"t\"", "\"T\"", "\"t \"", "\"u\"", "\"tt\"", "\"(\"", "\"\\\\\""},
      {"a", "b", "c", "A", "aa"},
  };
  for (int n = s.below(4) == 3 ? 2 : 1; n--;) {
    int i = int(s.below(3) ? 2 + s.below(2) * s.below(7) : s.below(kSlots));
    (*v)[i] = int(s.below(k[i].size()));
  }
  auto at = [&](int i) { return k[i][size_t((*v)[i]) % k[i].size()]; };
  c->script = "load a = \"" + at(0) + "\";\nload b = \"" + at(1) + "\";\npage {\n name=" + at(7) + ";\n draw " + at(11) + " { @" + at(6) + "; view=" + at(2) + "; scale=" + at(4) +
              ";\n  dim(from=" + at(9) + ", to=[2,1,3], at=[1,-1,0], dir=[1,0,0], fmt=" + at(8) + "); }\n draw b { @[5,5]; view=" + at(3) + "; scale=" + at(5) + "; }\n text [" + at(10) +
              "] { @[1,1]; }\n}\n";
  if (s.below(4)) c->script = c->script.substr(0, c->script.find(" draw b")) + c->script.substr(c->script.find(" text"));
  for (int i = 0; i < 2; i++) {
    const std::string f = Fmt("m%d.stl", i);
    if (!c->files.count(f)) c->files[f] = Stl(Box(1 + i, 2, 3), s, true);
  }
}
std::string C12(Src& s, Ctx& x) {
  const bool endless = s.below(400) >= 398;
  const bool wearing = endless && s.below(2);  // the same thing goes wrong again and again
  const bool lengthy = endless || s.below(24) == 23;
  int n = 2 + int(s.below(3));
  const bool alike = !lengthy && s.below(8) == 7;
  std::vector<int> slots(kSlots);
  if (alike) {
    n = 3 + int(s.below(4));
    x.Probe("scripts alike");
    for (auto& v : slots) v = int(s.below(3) ? 0 : s.below(64));
  }
  std::vector<LibCase> pool;
  Files files;
  Plan p;
  p.mode = M_LIBSEQ;
  p.argv = {"stl-to-ps"};
  p.env = {{"TZ", "UTC"}};
  for (int i = 0; i < n; i++) {
    GenOpt go;
    go.big = !lengthy && s.below(10) == 9;
    go.any_flags = false;
    if (lengthy) go.min_models = int(s.below(9));
    if (lengthy && !endless && s.below(4) == 3) go.min_models = 10 + int(s.below(20));
    if (endless) { go.min_models = 0; go.max_pages = 4; }
    LibCase l;
    l.c = GenCase(s, go);
    if (i && s.below(4) == 3) l.c = pool[s.below(pool.size())].c;  // nearly the same script
    if (endless && i < 2) {  // most calls get all the way
    } else if (alike) {
      Alike(s, &slots, &l.c);
    } else if (s.below(3) == 2) {
      Plan q;
      AddDefect(&l.c, s, &q);
      Reassemble(&l.c, s);
      for (auto& f : q.faults) p.faults.push_back(f);
    } else if (i && s.below(3) == 2) {
      if (s.below(2)) DamageToken(s, &l.c.script, 1 + int(s.below(4) != 0));
      else for (int k = 1 + int(s.below(3)); k--;) DamageToken(s, &l.c.script);
      x.Probe("sibling script");
    }
    // all share the model names m0.stl, m1.stl, ... so that they collide
    for (auto& f : l.c.files) if (f.first != Real(l.c.script_name)) if (!files.count(f.first) && !(f.first.back() == '/' ? files.count(f.first.substr(0, f.first.size() - 1)) : files.count(f.first + "/"))) files[f.first] = f.second;
    if (wearing && i < 2) {
      int deep = int(s.below(s.below(2) ? 100 : 5));
      std::string in = "[0,0,0]", pt;
      if (i == 1) {
        static const char* const no[] = {"other([0,0,0])", "center([0,0,0])", "center([9,9,9])", "near(other([1,1,1]))", "near(7)", "[0,0]"};
        in = no[s.below(6)];
      }
      for (int k = 0; k < deep; k++) pt += s.below(9) == 8 ? "center(" : "near(";
      pt += in + std::string(deep, ')');
      static const char* const at[] = {
          "dim(from=%s, to=[1,2,3], at=[1,-1,0], dir=[1,0,0]);", "dim(from=[0,0,0], to=[1,2,3], at=%s, dir=[1,0,0]);",
          "angle(at=[1,1,0], apex=%s, from_dir=[1,0,0], to_dir=[0,1,0]);", "dia(at=[1,1,0], dir=[1,0,0], center=%s);"};
      const char* const f = at[s.below(i == 1 ? 4 : 3)];
      l.c.script = std::string("load w = \"") + (i == 1 && s.below(4) == 3 ? "/dev/null" : "wear.stl") + "\";\npage { draw w { @[1,1]; " + Fmt(f, pt.c_str()) + " } }\n";
      if (i == 1 && s.below(4) == 3) l.c.script.insert(0, s.below(2) ? "load gone = \"gone.stl\";\n" : "page { what = 1; }\n");
      Src z(std::vector<uint64_t>{});
      files["wear.stl"] = Stl(Box(1, 2, 3), z, true);
      x.Probe("worn out");
    }
    std::string sn = Fmt("script%d.txt", i);
    files[sn] = l.c.script;
    l.a.src = s.below(2) ? sn : "given";
    if (s.below(2)) l.a.file = sn; else l.a.text = l.c.script;
    pool.push_back(l);
  }
  if (s.below(3) == 2) p.argv.push_back("--name=same");
  if (s.below(4) == 3) p.argv.push_back("--load_path=lib,sub");
  // models that lack a line, or their end: what one leaves behind, the next
  // one must not pick up
  if (s.below(3) == 2) {
    x.Probe("incomplete models");
    for (auto& f : files) {
      if (f.first.find("script") == 0 || f.first.back() == '/' || f.second.empty()) continue;
      auto l = Lines(f.second);
      size_t top = std::min<size_t>(l.size(), 9);
      switch (s.below(4)) {
        case 0: break;
        case 1: l.resize(1 + s.below(s.below(2) ? top : l.size())); break;
        case 2: l.erase(l.begin() + s.below(top)); break;
        default: l.erase(l.begin() + s.below(l.size()));
      }
      f.second.clear();
      for (auto& q : l) f.second += q;
    }
  }
  // the sequence
  std::vector<Files> state;  // before each act
  Files cur = files;
  int steps = 3 + int(s.below(6));
  bool thin = false;
  if (alike) steps += int(s.below(6));
  if (lengthy) { steps = 20 + int(s.below(44)); x.Probe("long history"); }
  if (endless) {
    static const int k[] = {100, 128, 200, 256, 300, 512};
    steps = k[s.below(6)] + int(s.below(60));
    thin = s.below(3) != 0;
    p.max_steps = 4000000000ULL;
    x.Probe("very long history");
  }
  int before = -1;  // the last conversion
  bool again = false;
  for (int i = 0; i < steps; i++) {
    const bool quiet = thin && s.below(16) != 15;  // nothing but conversions
    Act a;
    std::vector<std::string> plain;
    for (auto& f : cur) if (f.first.back() != '/') plain.push_back(f.first);
    uint64_t k = again || quiet ? 0 : s.below(6);
    bool repeat = again;
    again = false;
    if (k == 4 && !plain.empty()) {  // a file changes
      a.k = Act::WRITE_FILE;
      a.out = plain[s.below(plain.size())];
      std::string with;
      // the new content is that of another file of the same kind
      std::vector<std::string> same;
      for (auto& q : plain) if ((q.find("script") == 0) == (a.out.find("script") == 0)) same.push_back(q);
      a.text = cur[same[s.below(same.size())]];
      if (a.out.find("script") != 0 && s.below(2)) { Src z(s.below(1000)); a.text = Stl(GenModel(z, 2), z, false); }
      switch (s.below(12)) {
        case 11: case 10: a.text = a.text.substr(0, s.below(a.text.size() + 1)); break;
        case 9: case 8: case 7: {  // the same size, and hardly another text
          a.text = cur[a.out];
          std::vector<size_t> dg;
          for (size_t q = 0; q < a.text.size(); q++) if (isdigit((unsigned char)a.text[q])) dg.push_back(q);
          for (int q = 1 + int(s.below(4)); q-- && !dg.empty();) a.text[dg[s.below(dg.size())]] = char('1' + s.below(9));
          break;
        }
        case 6: case 5: {  // lines lost, doubled or swapped
          a.text = cur[a.out];
          for (int q = 1 + int(s.below(3)); q--;) {
            auto l = Lines(a.text);
            if (l.empty()) break;
            size_t at = s.below(s.below(2) ? l.size() : std::min<size_t>(l.size(), 8));
            switch (s.below(3)) {
              case 0: l.erase(l.begin() + at); break;
              case 1: l.insert(l.begin() + at, std::string(l[at])); break;
              default: std::swap(l[at], l[s.below(l.size())]);
            }
            a.text.clear();
            for (auto& q2 : l) a.text += q2;
          }
          break;
        }
        default: break;
      }
      if (before >= 0 && s.below(2)) { again = true; }
    } else if (k == 5 && !plain.empty()) {
      a.k = Act::REMOVE_FILE;
      a.out = plain[s.below(plain.size())];
    } else {
      if (!repeat) before = int(quiet && s.below(8) ? (wearing ? s.below(12) != 11 : s.below(2)) : s.below(pool.size()));
      a = pool[before].a;
      if (!quiet && s.below(6) == 5) a.out_limit = int64_t(s.below(3000));
    }
    state.push_back(cur);
    p.acts.push_back(a);
    if (a.k == Act::WRITE_FILE) cur[a.out] = a.text;
    if (a.k == Act::REMOVE_FILE) cur.erase(a.out);
  }
  LogFiles(x, files);
  p.clock_base_ns = 1600000000LL * 1000000000LL;
  if (s.below(4) == 3) p.per_step_ns = 1 + s.below(1000000);
  Outcome o = Go(x, files, p);
  if (!Clean(o)) {
    // is it one of the calls alone?
    x.Probe("sequence did not finish");
  }
  x.Nontrivial();
  std::vector<std::pair<size_t, Outcome>> alone;  // no need to do the same thing twice
  for (size_t i = 0; i < p.acts.size(); i++) {
    if (p.acts[i].k != Act::CONVERT) continue;
    Plan q = p;
    q.acts = {p.acts[i]};
    size_t j = 0;
    for (; j < alone.size(); j++) {
      const Act &a = p.acts[i], &b = p.acts[alone[j].first];
      if (a.src == b.src && a.file == b.file && a.text == b.text && a.out_limit == b.out_limit && state[i] == state[alone[j].first]) break;
    }
    if (j == alone.size()) alone.emplace_back(i, Go(x, state[i], q));
    const Outcome& f = alone[j].second;
    int want = Clean(f) ? f.ret[0] : -2;
    int got = o.ret[i];
    if (!Clean(f)) { x.Probe("a call dies alone"); return ""; }
    if (got != want) return Fmt("result: call %zu returns %d after the others, %d in a fresh process", i, got, want);
    std::string a = MaskTime(o.pay[i]), b = MaskTime(f.pay[0]);
    if (a != b) return Fmt("document: call %zu: ", i) + Differ(a, b);
    if (want & 1) x.Probe("good call after others"); else x.Probe("failing call");
  }
  // one time stamp per process
  return "";
}

// ================================================================== C13
std::string C13(Src& s, Ctx& x) {
  int n = 2 + int(s.below(3));
  bool crowd = s.below(12) == 11;
  if (crowd) { n = 5 + int(s.below(14)); x.Probe("many threads"); }
  Files files;
  Plan p;
  p.mode = M_THREADS;
  p.argv = {"stl-to-ps"};
  p.env = {{"TZ", s.below(4) ? "UTC" : "America/New_York"}};
  if (s.below(4) == 3) {  // the caller has numbers written another way
    static const std::string dir = LocaleDir();
    static const char* const l[] = {"de_DE.UTF-8", "tr_TR.UTF-8", "de_DE"};
    if (!dir.empty()) {
      p.env.emplace_back("LOCPATH", dir);
      p.c_locale = l[s.below(3)];
      x.fired[F_LOCALE]++;
      x.runs_with[F_LOCALE]++;
    }
  }
  bool same = s.below(3) == 0;
  uint64_t seed_same = s.below(1 << 20);
  for (int i = 0; i < n; i++) {
    GenOpt go;
    go.big = false;
    go.any_flags = false;
    go.max_pages = crowd ? 1 : 3;
    Src z(same ? seed_same : s.below(1 << 20));
    Case c = GenCase(z, go);
    Plan q;
    bool bad = s.below(4) == 3;
    if (bad && !same) { AddDefect(&c, s, &q); Reassemble(&c, s); }
    std::string pre = Fmt("t%d_", i);
    // every call has files of its own, unless all make the same document
    if (!same) {
      for (auto& m : c.models) {
        if (m.file[0] == '/') continue;
      }
    }
    for (auto& f : c.files) {
      if (f.first == Real(c.script_name)) continue;
      if (!files.count(f.first)) files[f.first] = f.second;
    }
    for (auto& f : q.faults) p.faults.push_back(f);
    std::string sn = pre + "s.txt";
    files[sn] = c.script;
    Act a;
    a.src = sn;
    if (s.below(2)) a.file = sn; else a.text = c.script;
    if (s.below(8) == 7) a.out_limit = int64_t(s.below(5000));
    p.acts.push_back(a);
  }
  // models in other places, which the first calls look up all at once
  if (s.below(3) == 2) {
    static const char* const lp[] = {"lib", "lib,sub", "no1,no2,no3,lib", "no1,no2,no3,no4,no5,no6,no7,no8,no9,no10,no11,no12,lib", ",lib,,", "sub/lib,lib"};
    p.argv.push_back(std::string("--load_path=") + lp[s.below(6)]);
    Files moved;
    for (auto& f : files) {
      bool script = f.first.size() > 5 && f.first.substr(f.first.size() - 5) == "s.txt";
      moved[script || f.first[0] == '/' || f.first[0] == '.' || s.below(4) == 3 ? f.first : "lib/" + f.first] = f.second;
    }
    files = moved;
    x.Probe("load path");
  }
  // a file and a directory of the same name cannot both be there
  for (auto it = files.begin(); it != files.end();) {
    if (it->first.back() == '/' && files.count(it->first.substr(0, it->first.size() - 1))) it = files.erase(it);
    else ++it;
  }
  LogFiles(x, files);
  std::vector<Outcome> alone;
  uint64_t total = 0;
  for (int i = 0; i < n; i++) {
    Plan q = p;
    q.acts = {p.acts[i]};
    alone.push_back(Go(x, files, q));
    if (!Clean(alone.back())) { x.Probe("a call dies alone"); return ""; }
    total += alone.back().steps;
  }
  int rounds = 2 + int(s.below(4));
  for (int r = 0; r < rounds; r++) {
    Plan q = p;
    switch (s.below(6)) {
      case 5:
      case 4: {
        static const uint64_t often[] = {1, 1, 3, 10, 40};
        q.places = often[s.below(5)];
        q.quantum_seed = s.below(1 << 20);
        x.Probe("switches at places");
        break;
      }
      case 0: {
        static const uint64_t qm[] = {40, 400, 4000, 40000, 100};
        q.quantum_max = qm[s.below(5)];
        if (q.quantum_max < 400 && total > 600000) q.quantum_max = 2000;
        q.quantum_seed = s.below(1 << 20);
        break;
      }
      default: {
        int k = 1 + int(s.below(8));
        std::vector<uint64_t> at;
        for (int i = 0; i < k; i++) {
          // switches cluster at the beginning, where shared state is built
          uint64_t w = s.below(3);
          uint64_t lim = w == 0 ? std::min<uint64_t>(total, 3000) : w == 1 ? std::min<uint64_t>(total, 40000) : total;
          at.push_back(1 + s.below(lim + 1));
        }
        std::sort(at.begin(), at.end());
        for (auto v : at) q.preempt.emplace_back(v, uint32_t(s.below(n)));
      }
    }
    q.max_steps = total * 30 + 20000000;
    Outcome o = Go(x, files, q);
    if (o.switches > uint64_t(n)) x.Nontrivial();
    if (!Clean(o)) return (o.hang() ? "stuck: " : "crash: ") + o.brief() + " with concurrent calls, each of which returns when alone: " + Show(o.err, 300);
    for (int i = 0; i < n; i++) {
      if (o.ret[i] != alone[i].ret[0]) return Fmt("result: call %d returns %d together with others, %d alone", i, o.ret[i], alone[i].ret[0]);
      std::string a = MaskTime(o.pay[i]), b = MaskTime(alone[i].pay[0]);
      if (a != b) return Fmt("document: call %d: ", i) + Differ(a, b);
    }
  }
  return "";
}

// ================================================================== C14
std::string C14(Src& s, Ctx& x) {
  GenOpt go;
  go.big = s.below(12) == 11;
  Case c = GenCase(s, go);
  Plan base = BasePlan(c);
  LogFiles(x, c.files);
  Gold g = Golden(x, c, base);
  if (!Ok(g.o)) { x.Probe("golden failed"); return ""; }
  std::string want = MaskTime(g.doc);
  int n = 3 + int(s.below(8));
  for (int i = 0; i < n; i++) {
    Plan p = base;
    p.alloc_n = 1 + int64_t(s.below(g.o.allocs));
    if (s.below(4) == 0) p.alloc_n = std::max<int64_t>(1, int64_t(g.o.allocs) - int64_t(s.below(60)));
    switch (s.below(4)) {
      case 0: p.alloc_mode = A_FROM; break;
      case 1: p.alloc_mode = A_SIZE; p.alloc_size = 1LL << (5 + s.below(12)); break;
      default: p.alloc_mode = A_NTH;
    }
    Outcome o = Go(x, c.files, p);
    if (!o.allocs_failed) { x.Probe("allocation failure not reached"); continue; }
    x.Nontrivial();
    std::string doc;
    ReadOut(c, &doc);
    // A cut-off document has its time masked only as far as it goes.
    std::string m = MaskTime(doc);
    if (Ok(o)) {
      if (m != want) return Fmt("success: exit 0 after allocation %lld failed, but the document is wrong: ", (long long)p.alloc_n) + Differ(m, want);
      x.Probe("survived");
    } else {
      bool ok = IsPrefix(doc, g.doc) || IsPrefix(m, want);
      if (!ok) return Fmt("prefix: allocation %lld failed, and the output is no prefix of the document: ", (long long)p.alloc_n) + Differ(m, want);
      x.Probe(o.sig ? "terminated" : o.hang() ? "stuck" : "failed cleanly");
    }
    if (o.hang()) return "hang: " + o.brief();
  }
  return "";
}

// ================================================================== C15
// Places in a script where a piece of text or a number can be another one
// without being shorter or longer: after the digits of a number with a point
// or in brackets, and before the end of a string.
std::vector<int> Spots(Src& s, const std::string& t) {
  std::vector<int> r;
  bool quoted = false;
  const uint64_t all = s.below(4);  // 0: strings, 1: numbers, else both
  int depth = 0;
  for (size_t i = 0; i < t.size(); i++) {
    if (quoted && t[i] == '\\') { i++; continue; }
    if (t[i] == '"') {
      if (quoted && all != 1 && s.below(3)) r.push_back(int(i));
      quoted = !quoted;
      continue;
    }
    if (quoted) continue;
    depth += t[i] == '[' ? 1 : t[i] == ']' ? -1 : 0;
    if (all && depth > 0 && (t[i] == ',' || t[i] == ']') && i && isdigit((unsigned char)t[i - 1]) && s.below(3)) r.push_back(int(i));
  }
  return r;
}
std::string Varied(const std::string& t, const std::vector<int>& spots, int k) {
  std::string r;
  size_t at = 0;
  for (int q : spots) {
    r.append(t, at, size_t(q) - at);
    at = size_t(q);
    if (t[at] == '"') {
      r += Fmt("%04d", 1000 + k);
    } else {
      size_t b = t.find_last_of("[,", at - 1);
      r += (b != std::string::npos && t.find_first_of(".eE", b) < at ? "" : ".") + Fmt("%03d", 100 + k);
    }
  }
  return r + t.substr(at);
}
std::string C15(Src& s, Ctx& x) {
  GenOpt go = Sized(s, x);
  go.any_flags = false;
  go.min_models = s.below(4) ? 1 : 0;
  Case c = GenCase(s, go);
  Plan p = BasePlan(c);
  uint64_t kind = s.below(6);
  std::string what = "no fault";
  bool tokens = kind >= 4;
  if (tokens) kind = 1;
  if (kind == 1 && !tokens) { what = AddDefect(&c, s, &p); Reassemble(&c, s); }
  else if (kind == 1) {
    what = "";
    for (int n = 1 + int(s.below(3)); n--;) {
      std::string f = Real(c.script_name);
      if (s.below(4) == 3 && !c.models.empty()) f = Real(c.models[s.below(c.models.size())].file);
      if (!c.files.count(f)) continue;
      std::string* t = &c.files[f];
      switch (s.below(6)) {
        case 0: case 1: case 2: what += BreakToken(s, t) + "; "; break;
        case 3: what += DamageToken(s, t) + "; "; break;
        case 4: what += Flatten(s, t) + "; "; break;
        default: what += Damage(s, t) + "; ";
      }
    }
    c.script = c.files[Real(c.script_name)];
    x.Probe("damaged tokens");
  }
  p.mode = M_LIBSEQ;
  Act a;
  a.src = c.script_name;
  if (s.below(2)) a.file = c.script_name; else a.text = c.script;
  if (kind == 2) { a.out_limit = int64_t(s.below(4000)); what = "output stream fails"; }
  if (kind == 3 && s.below(2)) { a.out = c.out_name; p.faults.push_back({F_WRITE_ERR, Norm(c.out_name), int64_t(s.below(3000)), ENOSPC, -1}); what = "output file fails"; }
  if (kind == 3 && a.out.empty()) { a.out = c.out_name; if (s.below(2)) { p.faults.push_back({F_READ_ERR, Norm(c.script_name), int64_t(s.below(200)), EIO, -1}); what = "script cannot be read"; } }
  int reps = 4 + int(s.below(3));
  if (s.below(20) == 19) { reps = 56; x.Probe("long history"); }
  // The same conversion, or ones that differ in all that a cache might hold on
  // to but not in size: the name, the numbers in the models.
  bool vary_src = s.below(2), vary_model = s.below(3) == 2, vary_text = s.below(2);
  const std::vector<int> spots = vary_text ? Spots(s, c.script) : std::vector<int>();
  std::vector<int> at;  // the conversions among the acts
  int64_t seed = int64_t(s.below(1 << 16));
  Files cur = c.files;
  for (int i = 0; i < reps; i++) {
    if (i && vary_model) {
      Rng z(uint64_t(seed + i));
      for (auto& f : cur) {
        if (f.first.back() == '/' || f.first == Real(c.script_name) || f.second.size() > 20000) continue;
        // one more digit, always another one, to the numbers of the vertices
        std::string t;
        for (auto& l : Lines(f.second)) {
          size_t e = l.find_last_not_of(" \n");
          if (l.find("vertex") != std::string::npos && e != std::string::npos && isdigit((unsigned char)l[e]) && l.find('.') != std::string::npos && l.find_last_of('.') > l.find_last_of(' ', e) && l.find('e', l.find_last_of(' ', e)) == std::string::npos) l.insert(e + 1, Fmt("%d%04d", i, int(z.below(10000))));
          t += l;
        }
        if (t == f.second || int(p.acts.size()) + reps - i > 58) continue;
        Act w;
        w.k = Act::WRITE_FILE;
        w.out = f.first;
        w.text = t;
        p.acts.push_back(w);
      }
    }
    Act b = a;
    if (vary_text) {
      const std::string t = Varied(c.script, spots, i);
      if (b.file.empty()) {
        b.text = t;
      } else if (p.acts.size() + size_t(2 * (reps - i)) < 116) {
        Act w;
        w.k = Act::WRITE_FILE;
        w.out = b.file;
        w.text = t;
        p.acts.push_back(w);
      }
    }
    if (vary_src) b.src = Fmt("name %d which is longer than any short string would be", 1000 + i);
    at.push_back(int(p.acts.size()));
    p.acts.push_back(b);
  }
  if (vary_src) x.Probe("varying names");
  if (p.acts.size() > size_t(reps)) x.Probe("varying models");
  LogFiles(x, c.files);
  if (x.logging) x.log << "  " << what << "\n";
  p.max_steps = 2000000000ULL;
  Outcome all = Go(x, c.files, p), o = all;
  if (Clean(all)) {
    o.ret.clear(); o.fds.clear(); o.live_n.clear(); o.live_b.clear();
    for (int i : at) {
      o.ret.push_back(all.ret[i]);
      o.fds.push_back(all.fds[i]);
      o.live_n.push_back(all.live_n[i]);
      o.live_b.push_back(all.live_b[i]);
    }
  }
  x.scripts.insert(Hash(c.script));
  if (!Clean(o)) { x.Probe("did not finish"); return ""; }
  x.Nontrivial();
  x.Probe(o.ret[0] & 1 ? "successful" : "failing");
  for (int i = 2; i < reps; i++) {
    if (o.fds[i] > o.fds[1]) return Fmt("handles: %lld files open after %d conversions, %lld after %d (%s)", (long long)o.fds[1], 2, (long long)o.fds[i], i + 1, what.c_str());
  }
  if (o.fds[0] > 0) return Fmt("handles: %lld files still open after the first conversion (%s)", (long long)o.fds[0], what.c_str());
  // The number of conversions must not matter: allow one late build-up of a cache.
  if (o.live_n[reps - 1] > o.live_n[2] && o.live_n[3] > o.live_n[2]) {
    return Fmt("memory: %lld blocks (%lld bytes) more after each conversion (%s)", (long long)(o.live_n[3] - o.live_n[2]), (long long)(o.live_b[3] - o.live_b[2]), what.c_str());
  }
  if (reps > 50 && o.live_b[55] > o.live_b[27] && o.live_b[27] > o.live_b[13] && o.live_b[13] > o.live_b[6])
    return Fmt("memory: %lld bytes after 7 conversions, %lld after 14, %lld after 28, %lld after 56 (%s)", (long long)o.live_b[6], (long long)o.live_b[13], (long long)o.live_b[27], (long long)o.live_b[55], what.c_str());
  if (o.live_b[3] > o.live_b[2] && o.live_b[reps - 1] - o.live_b[3] >= (o.live_b[3] - o.live_b[2]) * (reps - 4) && reps > 4)
    return Fmt("memory: %lld bytes more after each conversion (%s)", (long long)(o.live_b[3] - o.live_b[2]), what.c_str());
  return "";
}

// ================================================================== C16
// What editors, transfers and other systems leave at either end of a file and of its lines.
void OddEnds(Src& s, std::string* t) {
  switch (s.below(7)) {
    case 0: t->insert(0, s.below(2) ? "\xef\xbb\xbf" : "\xff\xfe"); break;
    case 1: while (!t->empty() && std::isspace((unsigned char)t->back())) t->pop_back(); break;
    case 2: {
      std::string r;
      for (char ch : *t) {
        if (ch == '\n') r += s.below(2) ? "\r" : " \t";
        r += ch;
      }
      *t = r;
      break;
    }
    case 3: *t += std::string(1 + s.below(3), "\x1a\0\n \x04\f\v\r"[s.below(8)]); break;
    case 4: *t += std::string(s.below(5000), '\0'); break;
    case 5: t->insert(0, s.below(2) ? "#!/usr/bin/stl-to-ps\n" : "\n\n"); break;
    default: *t += "// vim: set et:\n\n\n";
  }
}

std::string C16(Src& s, Ctx& x) {
  GenOpt go = Sized(s, x);
  Case c = GenCase(s, go);
  Plan p = BasePlan(c);
  Files files = c.files;
  switch (s.below(4)) {
    case 0: break;
    case 1: break;
    case 2: AddDefect(&c, s, &p); Reassemble(&c, s); p.argv = c.Argv(); break;
    default:
      for (int n = 1 + int(s.below(4)); n--;) {
        std::string f = Real(s.below(2) || c.models.empty() ? c.script_name : c.models[s.below(c.models.size())].file);
        if (!c.files.count(f)) continue;
        std::string* t = &c.files[f];
        switch (s.below(6)) {
          case 5: OddEnds(s, t); break;
          case 0: BreakToken(s, t); break;
          case 1: DamageToken(s, t); break;
          case 2: Damage(s, t); break;
          case 3: {  // a statement or line gets other numbers
            auto l = Lines(*t);
            if (l.empty()) break;
            size_t i = s.below(l.size());
            Flatten(s, &l[i]);
            t->clear();
            for (auto& q : l) *t += q;
            break;
          }
          default: Flatten(s, t);
        }
      }
      c.script = c.files[Real(c.script_name)];
      x.Probe("damaged inputs");
  }
  files = c.files;
  if (s.below(2)) files[Real(c.out_name)] = Stale(s, 2000);
  // bystanders, some with names a careless program might use
  for (auto n : {"out.ps.tmp", "out.ps~", "out.ps.bak", "s.txt.bak", "core", "stl-to-ps.log", "rootfs/tmp/stl-to-ps.log", "m0.stl.tmp"})
    if (s.below(4) == 3) files[n] = "keep me";
  // what can go wrong
  switch (s.below(8)) {
    case 0: p.faults.push_back({F_WRITE_ERR, Norm(c.out_name), int64_t(s.below(5000)), s.pick(kWriteErr), -1}); break;
    case 1: p.faults.push_back({F_OPEN_FAIL, Norm(c.out_name), 0, s.pick(kOpenErr), -1}); break;
    case 2: p.crash_op = 1 + int64_t(s.below(30)); break;
    case 3: p.crash_step = int64_t(s.below(300000)); break;
    case 4: p.crash_byte = int64_t(s.below(8000)); break;
    case 5: p.faults.push_back({F_CLOSE_ERR, Norm(c.out_name), 0, EIO, 1}); break;
    case 6: p.alloc_mode = A_FROM; p.alloc_n = 1 + int64_t(s.below(3000)); break;
    default: break;
  }
  if (s.below(3) == 2) {  // the inputs can not be opened or read, once or for good; some are not even there
    for (int n = 1 + int(s.below(2)); n--;) {
      const std::string f = s.below(3) == 2 || c.models.empty() ? c.script_name : c.models[s.below(c.models.size())].file;
      if (f == "/dev/null") continue;
      const bool once = s.below(2);
      auto err = [&](std::vector<int> e) { if (once) e.push_back(EINTR); return s.pick(e); };
      if (s.below(3) == 2) p.faults.push_back({F_READ_ERR, Norm(f), Offset(s, files.count(Real(f)) ? files[Real(f)].size() : 1), err(kReadErr), once ? 1 : -1});
      else p.faults.push_back({F_OPEN_FAIL, Norm(f), 0, once && s.below(3) ? EINTR : err(kOpenErr), once ? 1 : -1});
      if (s.below(3) == 2 && f != c.script_name) { files.erase(Real(f)); x.Probe("fault at a missing model"); }
    }
  }
  if ((p.crash_op >= 0 || p.crash_step >= 0) && s.below(3) == 2) p.crash_sig = s.pick(kSignals);
  if (s.below(4) == 3) AddDelivery(s, c, &p);
  if (s.below(4) == 3) Perturb(s, &p);
  if (s.below(4) == 3) { p.env_any = 1 + s.below(1000); files["rootfs/tmp/"]; files["rootfs/home/user/"]; x.Probe("unknown variables set"); }
  LogFiles(x, files);
  ResetScratch(files);
  Files before = ReadScratch();
  Outcome o = Go(x, p);
  Files after = ReadScratch();
  x.Nontrivial();
  const std::string out = Real(c.out_name);
  for (auto& f : before) {
    if (f.first == out) continue;
    auto i = after.find(f.first);
    if (i == after.end()) return "removed: '" + f.first + "' is gone";
    if (i->second != f.second) return "changed: '" + f.first + "': " + Differ(i->second, f.second);
  }
  for (auto& f : after)
    if (f.first != out && !before.count(f.first)) return "created: '" + f.first + "' appeared";
  std::istringstream in(o.opens);
  std::string l;
  while (std::getline(in, l))
    if (l.size() > 2 && l[0] == 'w' && l[1] == '+' && l.substr(2) != Norm(c.out_name)) return "opened: '" + l.substr(2) + "' was opened for writing";
  std::istringstream notes(o.notes);
  while (std::getline(notes, l)) {
    size_t sp = l.find(' ');
    std::string op = l.substr(0, sp), path = sp == std::string::npos ? "" : l.substr(sp + 1);
    if (path == Norm(c.out_name) && (op == "ftruncate" || op == "truncate" || op == "unlink" || op == "chmod" || op == "chown" || op == "utime" || op == "setxattr")) continue;
    return "call: " + l;
  }
  if (!o.out1.empty()) return "stdout: '" + Show(o.out1, 100) + "' on standard output";
  return "";
}

// ================================================================== C17
// Is the file of that name named in the text, and not just part of another?
bool Names(const std::string& text, const std::string& name) {
  auto part = [](char ch) { return isalnum((unsigned char)ch) || ch == '_' || ch == '/' || ch == '-' || ch == '.'; };
  for (size_t i = 0; (i = text.find(name, i)) != std::string::npos; i++) {
    size_t e = i + name.size();
    bool more = e < text.size() && (text[e] == '.' ? e + 1 < text.size() && part(text[e + 1]) : part(text[e]));
    if (!(i && part(text[i - 1])) && !more) return true;
  }
  return false;
}
std::string C17(Src& s, Ctx& x) {
  GenOpt go = Sized(s, x);
  go.min_models = int(s.below(4));
  Case c = GenCase(s, go);
  if (s.below(5) == 4) {  // rejected for another reason than the files
    Plan p = BasePlan(c);
    std::string what;
    switch (s.below(6)) {
      case 0: {  // flags
        std::vector<std::string> keep;
        const std::string drop = s.below(2) ? "--script" : "--output";
        for (auto& a : p.argv) if (a.compare(0, drop.size(), drop) != 0) keep.push_back(a);
        if (keep.size() + 1 != p.argv.size()) return "";
        if (s.below(2)) keep.push_back(drop + "=");
        p.argv = keep;
        what = "no " + drop;
        break;
      }
      case 1: p.argv.push_back(s.below(2) ? "--no_such_flag=1" : "--timestamp=perhaps"); what = "bad flag"; break;
      default:
        what = AddDefect(&c, s, &p);
        if (what.empty()) return "";
        Reassemble(&c, s);
        p.argv = c.Argv();
    }
    if (s.below(3) == 2) AddDelivery(s, c, &p);
    LogFiles(x, c.files);
    if (x.logging) x.log << "  defect: " << what << "\n";
    Outcome o = Go(x, c.files, p);
    x.Nontrivial();
    x.Probe(what.compare(0, 2, "no") == 0 || what == "bad flag" ? what : "rejected script or model");
    if (o.hang()) return "hang: " + what + ": " + o.brief();
    if (Ok(o)) return o.err.empty() ? "" : "complaint: exit 0, but standard error has: " + Show(o.err, 300);
    if (o.err.find_first_not_of(" \n") == std::string::npos) return "silent: " + o.brief() + " with " + what + ", and not a word about it on standard error";
    return "";
  }
  if (s.below(20) == 19) {  // a file that is not there, and has a very long name
    Plan p = BasePlan(c);
    static const int k[] = {90, 250, 500, 1000, 2000, 3500};
    const size_t n = size_t(k[s.below(6)]) + s.below(100);
    std::string name = s.below(2) ? "gone/" : "/gone/";
    for (size_t i = 0; name.size() < n; i++) {
      if (i) name += '/';
      name += std::string(1 + s.below(200), char('a' + s.below(26)));
    }
    name += Fmt("%d.x", int(s.below(1000)));
    if (s.below(4) == 3) name.insert(name.size() - 2, s.below(2) ? "%s%n" : "%d {}");
    std::string what;
    int changed = 0;
    auto set = [&](const std::string& f) { for (auto& a : p.argv) if (a.compare(0, f.size(), f) == 0) { a = f + name; changed++; } };
    switch (s.below(4)) {
      case 0: what = "script"; set("--script="); break;
      case 1: what = "output"; set("--output="); break;
      default: {
        what = "model";
        Put(&c, 0, (s.below(2) ? "load " + std::string(1 + s.below(300), 'v') : std::string("load longone")) + " = \"" + name + "\";", 0);
        Reassemble(&c, s);
        p.argv = c.Argv();
      }
    }
    if (what != "model" && changed != 1) return "";
    LogFiles(x, c.files);
    Outcome o = Go(x, c.files, p);
    x.Nontrivial();
    x.Probe("long name: " + what);
    if (o.hang()) return "hang: " + o.brief();
    if (Ok(o)) return "accepted: the " + what + " with the long name is not there, and the command exits 0";
    if (!Names(o.err, name)) return Fmt("unnamed: the %s with a name of %zu bytes is not there, but standard error does not name it: ", what.c_str(), name.size()) + Show(o.err, 400);
    return "";
  }
  LogFiles(x, c.files);
  Gold g = Golden(x, c);
  if (Ok(g.o) && !g.o.err.empty()) return "complaint: nothing is wrong, but standard error has: " + Show(g.o.err, 300);
  if (!Ok(g.o)) return "";
  // A place before the one that has a model may fail in its own way.
  if (!c.load_path_given && s.below(4) == 3) {
    Plan p = BasePlan(c);
    Files files = c.files;
    p.argv.push_back("--load_path=nolib,lib,more");
    files["lib/"] = files["more/"] = "";
    std::set<std::string> seen;
    for (auto& m : c.models) {
      if (m.file[0] == '/' || m.file.find("..") != std::string::npos || !c.files.count(Real(m.file)) || Real(m.file) == Real(c.script_name) || !seen.insert(Norm(m.file)).second) continue;
      uint64_t w = s.below(4);
      if (w == 0) continue;
      p.faults.push_back({F_OPEN_FAIL, Norm(m.file), 0, s.pick(kOpenErr), -1});
      if (s.below(3) == 2) p.faults.push_back({F_OPEN_FAIL, Norm("nolib/" + m.file), 0, s.pick(kOpenErr), -1});
      if (w == 3) p.faults.push_back({F_OPEN_FAIL, Norm("lib/" + m.file), 0, s.pick(kOpenErr), -1});
      files[Real((w == 3 ? "more/" : "lib/") + m.file)] = c.files[Real(m.file)];
      x.Probe("another place failed");
    }
    if (s.below(3) == 2) AddDelivery(s, c, &p);
    Outcome o = Go(x, files, p);
    x.Nontrivial();
    if (!Ok(o)) return "lost: the models are on the load path: " + o.brief() + ": " + Show(o.err, 300);
    if (!o.err.empty()) return "complaint: exit 0, but standard error has: " + Show(o.err, 300);
  }
  int n = 1 + int(s.below(5));
  for (int i = 0; i < n; i++) {
    Plan p = BasePlan(c);
    Files files = c.files;
    std::vector<std::string> v;  // what fails
    std::vector<bool> sure;
    int k = s.below(5) == 4 ? 2 : 1;
    for (int j = 0; j < k; j++) {
      std::vector<std::string> models;
      for (auto& m : c.models) if (m.file != "/dev/null") models.push_back(m.file);
      uint64_t w = s.below(6);
      std::string f = w < 2 ? c.out_name : w == 2 || models.empty() ? c.script_name : s.pick(models);
      if (std::find(v.begin(), v.end(), f) != v.end()) continue;
      bool must = false;
      if (w < 2) {
        switch (s.below(4)) {
          case 0: p.faults.push_back({F_OPEN_FAIL, Norm(f), 0, s.pick(kOpenErr), -1}); break;
          case 1: p.faults.push_back({F_CLOSE_ERR, Norm(f), 0, s.pick(kWriteErr), 1}); break;
          default: p.faults.push_back({F_WRITE_ERR, Norm(f), Offset(s, g.doc.size()), s.pick(kWriteErr), s.below(3) ? -1 : 1});
        }
      } else {
        switch (s.below(5)) {
          case 0: p.faults.push_back({F_OPEN_FAIL, Norm(f), 0, s.pick(kOpenErr), s.below(4) ? -1 : 1}); break;
          case 1: files.erase(Real(f)); must = true; break;
          case 2: files.erase(Real(f)); files[Real(f) + "/"] = ""; must = true; break;
          default: p.faults.push_back({F_READ_ERR, Norm(f), Offset(s, c.files[Real(f)].size()), s.pick(kReadErr), s.below(3) ? -1 : 1});
        }
      }
      v.push_back(f);
      sure.push_back(must);
    }
    if (s.below(3) == 2) AddDelivery(s, c, &p);
    if (s.below(3) == 2) Perturb(s, &p);
    p.stderr_mode = 0;
    Outcome o = Go(x, files, p);
    if (o.hang()) return "hang: " + o.brief();
    if (Ok(o)) {
      if (!o.err.empty()) return "complaint: exit 0, but standard error has: " + Show(o.err, 300);
      x.Probe("success");
      continue;
    }
    x.Nontrivial();
    bool any = false;
    for (auto& f : v) any |= Names(o.err, f);
    const std::string who = v[0] + (v.size() > 1 ? " or " + v[1] : "");
    x.Probe(v[0] == c.out_name ? "output failed" : v[0] == c.script_name ? "script failed" : "model failed");
    if (o.err.empty()) return "silent: " + who + " failed and so did the command (" + o.brief() + "), but not a word about it on standard error";
    if (!any) return "unnamed: " + who + " failed and so did the command (" + o.brief() + "), but standard error does not name it: " + Show(o.err, 400);
    for (auto& m : c.models) {
      if (std::find(v.begin(), v.end(), m.file) != v.end()) continue;
      bool same = m.file == "/dev/null";
      for (auto& f : v) same |= Norm(f) == Norm(m.file) || Names(f, m.file);
      if (!same && Names(o.err, m.file)) return "blamed: " + who + " failed, but standard error names " + m.file + ": " + Show(o.err, 400);
    }
  }
  return "";
}

// ================================================================== C19
// A conversion that grows with n in one respect.
const int kGrows = 24;
struct Grown { Files files; std::string what; int power; std::vector<std::string> flags; };
Grown Grow(int k, int n, uint64_t seed) {
  Src s(seed);
  Grown g;
  g.power = 1;
  Src z(std::vector<uint64_t>{});
  std::string t, a = "load a = \"m.stl\";\n";
  g.files["m.stl"] = Stl(Box(1 + double(s.below(4)), 2, 3), z, true);
  auto rep = [&](const std::string& u) { std::string r; for (int i = 0; i < n; i++) r += u; return r; };
  auto draw = [&](const std::string& in) { return a + "page { draw a { @[1,1]; " + in + " } }\n"; };
  switch (k) {
    case 0: g.what = "lines of comment"; t = rep(s.below(2) ? "// nothing here\n" : "\n") + draw(""); break;
    case 1: g.what = "pages"; t = rep("page { name=\"p\"; }\n"); break;
    case 2: g.what = "drawings on a page"; t = a + "page {\n" + rep(" draw a { @[1,1]; }\n") + "}\n"; break;
    case 3: g.what = "texts on a page"; t = "page {\n" + rep(" text [\"t\"] { @[1,1]; }\n") + "}\n"; break;
    case 4: g.what = "bytes of a title"; t = "page { name=\"" + rep(s.below(2) ? "(x" : "\\n") + "\"; }\n"; break;
    case 5: g.what = "pieces of a string"; t = "page { name=" + rep("\"x\" ") + "; }\n"; break;
    case 6: g.what = "models loaded"; for (int i = 0; i < n; i++) t += Fmt("load v%d = \"m.stl\";\n", i); t += "page {}\n"; break;
    case 7: g.what = "models that are not there"; for (int i = 0; i < n; i++) t += Fmt("load v%d = \"n%d.stl\";\n", i, i); t += "page {}\n"; break;
    case 8: g.what = "dimensions"; t = draw(rep("dim(from=[0,0,0], to=near([1,2,3]), at=[1,-1,0], dir=[1,0,0]);\n")); break;
    case 9: g.what = "properties that are doubled"; t = "page { name=\"x\";\n"; { bool same = s.below(2); for (int i = 0; i < n; i++) t += same ? std::string(" name=\"x\";\n") : Fmt(" q%d=1; q%d=2;\n", i, i); } t += "}\n"; break;
    case 10: g.what = "points nested in one another"; { std::string p = rep("near(") + "[0,0,0]" + rep(")"); t = draw("dim(from=" + p + ", to=[1,2,3], at=[1,-1,0], dir=[1,0,0]);"); } break;
    case 11: g.what = "digits of a number"; t = draw("view=[30.0" + rep("3") + ",40];"); break;
    case 12: g.what = "bytes of a model's name"; g.files["m.stl"].insert(g.files["m.stl"].find('\n'), " " + rep("x")); t = draw(""); break;
    case 13:
    case 14: {
      g.what = k == 13 ? "bodies side by side" : "bodies one behind the other";
      g.power = 2;
      Model m;
      for (int i = 0; i < n; i++) {
        Model b = Box(1, 1, 1);
        for (auto& v : b.solids[0].v) { v.x += k == 13 ? 3 * i : .01 * i; v.z += k == 13 ? 0 : 3 * i; }
        m.solids.push_back(b.solids[0]);
      }
      g.files["m.stl"] = Stl(m, z, true);
      t = draw("");
      break;
    }
    case 15: {
      g.what = "places on the load path";
      std::string l = "--load_path=";
      for (int i = 0; i < n; i++) l += Fmt("e%d,", i);
      g.flags.push_back(l + "lib");
      std::string d = g.files["m.stl"];
      g.files.erase("m.stl");
      g.files["lib/m.stl"] = d;
      t = draw("");
      break;
    }
    case 16: {
      g.what = "sides of a column";
      g.power = 2;
      Model m;
      Solid b;
      int q = 3 + n;
      for (int i = 0; i < 2 * q; i++) b.v.push_back({cos(6.283185307 * (i / 2) / q), sin(6.283185307 * (i / 2) / q), double(i % 2)});
      for (int i = 0; i < q; i++) b.f.push_back({2 * i, (2 * i + 2) % (2 * q), (2 * i + 3) % (2 * q), 2 * i + 1});
      m.solids.push_back(b);
      g.files["m.stl"] = Stl(m, z, true);
      t = draw(s.below(2) ? "view=\"X+\";" : "");
      break;
    }
    case 17: g.what = "corners of a facet"; g.power = 2; {
      std::string f = "solid m\nfacet normal 0 0 1\nouter loop\n";
      for (int i = 0; i < n + 3; i++) f += Fmt("vertex %.6f %.6f 0\n", cos(6.283185307 * i / (n + 3)), sin(6.283185307 * i / (n + 3)));
      g.files["m.stl"] = f + "endloop\nendfacet\nendsolid m\n";
      t = draw("");
      break;
    }
    case 18: g.what = "circles and angles"; t = draw(rep("angle(at=[1,1,0], apex=[0,0,0], from_dir=[1,0,0], to_dir=[0,1,0]);\n")); break;
    case 19: g.what = "lines of a model that is cut short"; for (int i = 0; i < n; i++) g.files["m.stl"].insert(0, "solid a\nendsolid a\n"); g.files["m.stl"].resize(g.files["m.stl"].rfind("endsolid")); t = draw(""); break;
    case 22: g.what = "bytes of a text"; t = "page { text [\"" + rep(s.below(2) ? "()" : "x (") + "\"] { @[1,1]; } }\n"; break;
    case 23: g.what = "lines of a text"; t = "page { text [" + rep("\"(a) \", ") + "\"z\"] { @[1,1]; } }\n"; break;
    case 20: g.what = "drawings in other views"; t = a + "page {\n"; for (int i = 0; i < n; i++) t += Fmt(" draw a { @[%d,%d]; view=[%d,%d]; }\n", i % 10, i / 10, i * 7 % 360, i * 11 % 180); t += "}\n"; break;
    default: g.what = "defects in a model's draw statements"; t = a + "page {\n" + rep(" draw a { @[1,1]; scale=\"no\"; }\n") + "}\n";
  }
  g.files["s.txt"] = t;
  return g;
}
std::string C19(Src& s, Ctx& x) {
  if (s.below(6) == 5) {
    int k = int(s.below(kGrows));
    uint64_t seed = s.below(1000);
    int n = 20 + int(s.below(60));
    // By far more, of what costs next to nothing.
    static const std::set<int> cheap = {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 18, 19, 21, 22, 23};
    if (cheap.count(k) && s.below(3) == 2) { n = 300 + int(s.below(s.below(4) ? 900 : 2700)); x.Probe("growth: very many"); }
    Outcome o[3];
    Grown g;
    for (int i = 0; i < 3; i++) {
      g = Grow(k, i == 0 ? 0 : i == 1 ? n : 4 * n, seed);
      Plan p;
      p.argv = {"stl-to-ps", "--script=s.txt", "--output=out.ps"};
      for (auto& f : g.flags) p.argv.push_back(f);
      p.env = {{"TZ", "UTC"}};
      if (i < 2 && x.logging) LogFiles(x, g.files);
      o[i] = Go(x, g.files, p);
      if (o[i].hang()) return "hang: " + g.what + ": " + o[i].brief();
      if (o[i].slept_ns) return "sleeps: " + g.what;
    }
    x.Nontrivial();
    x.Probe("growth: " + g.what);
    auto over = [&](double a, double b, double c, double slack) {
      double f = g.power == 2 ? 24 : 8;
      return c - a > f * std::max(0.0, b - a) + slack;
    };
    if (o[1].code != o[2].code) return "";  // there is a limit, and it is over
    if (over(double(o[0].steps), double(o[1].steps), double(o[2].steps), 20000))
      return Fmt("work: %d %s take %llu steps, %d take %llu", n, g.what.c_str(), (unsigned long long)o[1].steps, 4 * n, (unsigned long long)o[2].steps);
    if (over(double(o[0].peak_b), double(o[1].peak_b), double(o[2].peak_b), 100000))
      return Fmt("memory: %d %s take %lld bytes, %d take %lld", n, g.what.c_str(), (long long)o[1].peak_b, 4 * n, (long long)o[2].peak_b);
    if (getenv("SIM_GROW")) fprintf(stderr, "GROW %s n=%d moved %llu %llu %llu\n", g.what.c_str(), n, (unsigned long long)o[0].moved, (unsigned long long)o[1].moved, (unsigned long long)o[2].moved);
    if (over(double(o[0].moved), double(o[1].moved), double(o[2].moved), 60000))
      return Fmt("work: for %d %s %llu bytes are moved or looked through, for %d %llu", n, g.what.c_str(), (unsigned long long)o[1].moved, 4 * n, (unsigned long long)o[2].moved);
    if (over(double(o[0].ops), double(o[1].ops), double(o[2].ops), 100))
      return Fmt("operations: %d %s take %llu, %d take %llu", n, g.what.c_str(), (unsigned long long)o[1].ops, 4 * n, (unsigned long long)o[2].ops);
    return "";
  }
  GenOpt go = Sized(s, x);
  go.min_models = int(s.below(4));
  Case c = GenCase(s, go);
  Plan base;
  if (s.below(3) == 2) {
    std::vector<std::string> models;
    for (auto& m : c.models) if (c.files.count(Real(m.file)) && Real(m.file) != Real(c.script_name)) models.push_back(Real(m.file));
    switch (s.below(5)) {
      case 0: DamageToken(s, &c.files[Real(c.script_name)]); break;
      case 1: BreakToken(s, &c.files[Real(c.script_name)]); break;
      case 2: if (!models.empty()) BreakModel(s, &c.files[s.pick(models)]); break;
      case 3: if (!models.empty()) Flatten(s, &c.files[s.pick(models)]); break;
      default: AddDefect(&c, s, &base); Reassemble(&c, s);
    }
    c.script = c.files[Real(c.script_name)];
  }
  base.argv = c.Argv();
  base.env = {{"TZ", "UTC"}};
  LogFiles(x, c.files);
  Gold g = Golden(x, c, base);
  if (g.o.hang()) return "hang: " + g.o.brief();
  if (g.o.slept_ns) return Fmt("sleeps: %.3f s", double(g.o.slept_ns) * 1e-9);
  uint64_t bytes = 0;
  for (auto& f : c.files) bytes += f.second.size();
  int n = 2 + int(s.below(5));
  for (int i = 0; i < n; i++) {
    Plan p = base;
    std::vector<std::string> names = {c.script_name, c.out_name};
    for (auto& m : c.models) if (m.file != "/dev/null") names.push_back(m.file);
    for (int j = int(s.below(4)); j-- > 0;) {
      const std::string f = s.below(2) ? names[s.below(2)] : s.pick(names);
      int many = s.below(4) ? -1 : 1 + int(s.below(5));
      // Not for ever, and only where a signal may come: an interruption.
      auto err = [&](std::vector<int> e) { e.push_back(EAGAIN); e.push_back(EBUSY); e.push_back(ENOMEM); e.push_back(ENFILE); if (many > 0) e.push_back(EINTR); return s.pick(e); };
      if (f == c.out_name) {
        switch (s.below(4)) {
          case 0: p.faults.push_back({F_OPEN_FAIL, Norm(f), 0, err(kOpenErr), many}); break;
          case 1: p.faults.push_back({F_CLOSE_ERR, Norm(f), 0, err(kWriteErr), many}); break;
          default: p.faults.push_back({F_WRITE_ERR, Norm(f), Offset(s, g.doc.size()), err(kWriteErr), many});
        }
      } else {
        if (s.below(3) == 0) p.faults.push_back({F_OPEN_FAIL, Norm(f), 0, err(kOpenErr), many});
        else p.faults.push_back({F_READ_ERR, Norm(f), Offset(s, c.files[Real(f)].size()), err(kReadErr), many});
      }
    }
    bool slow = s.below(3) == 2;
    if (slow) AddDelivery(s, c, &p);
    if (s.below(3) == 2) { p.stdin_mode = 3; x.Probe("silent terminal"); }
    if (s.below(3) == 2) { p.locks = 1; x.Probe("files locked"); }
    if (s.below(3) == 2) { p.fresh = 1; x.Probe("fresh files"); }
    if (s.below(8) == 7) p.stderr_mode = 1;
    if (s.below(8) == 7) { p.alloc_mode = A_FROM; p.alloc_n = 1 + int64_t(s.below(g.o.allocs + 1)); }
    if (s.below(8) == 7) p.fd_limit = 4 + int(s.below(4));
    // The clock stands still, runs, is set back or far ahead, again and again.
    switch (s.below(4)) {
      case 0: break;
      case 1: p.per_op_ns = 1 + s.below(2000000000); break;
      case 2: for (int j = 0; j < 8; j++) p.jumps.push_back({int(s.below(2)) ? 1 : 2, 1 + int64_t(s.below(12)), s.range(-400000, 400000) * 1000000000LL}); break;
      default: p.per_read_ns = 1 + s.below(1000000);
    }
    bool moving = s.below(5) == 4;
    if (moving) {  // a file that is never at rest
      const std::string f = s.below(2) ? c.script_name : s.pick(names);
      if (c.files.count(Real(f)) && f != c.out_name) {
        std::string t = c.files[Real(f)];
        for (int64_t at = 1, j = 0; j < 30; j++) {
          t = s.below(2) ? t + "\n" : c.files[Real(f)];
          Swap w;
          w.op = at;
          w.path = f;
          w.data = t;
          p.swaps.push_back(w);
          at += 1 + int64_t(s.below(2));
        }
        x.Probe("a file that keeps changing");
      }
    }
    Files files = c.files;
    if (s.below(3) == 2) files[Real(c.out_name)] = Stale(s, g.doc.size());
    Outcome o = Go(x, files, p);
    x.Nontrivial();
    if (o.hang()) return "hang: " + o.brief();
    if (o.slept_ns) return Fmt("sleeps: %.3f s", double(o.slept_ns) * 1e-9);
    uint64_t most = 4 * g.o.ops + 100 + (moving ? 400 : 0) + (slow ? 40 * (2 * bytes + 2 * g.doc.size() + 100) : 0);
    if (o.ops > most) return Fmt("operations: %llu, where %llu suffice when nothing fails", (unsigned long long)o.ops, (unsigned long long)g.o.ops);
    uint64_t work = 4 * g.o.steps + 50000 + 100 * g.o.ops + 2000 * p.faults.size() + (slow ? 200 * o.ops : 0);
    if (!moving && o.steps > work) return Fmt("work: %llu steps, where %llu suffice when nothing fails", (unsigned long long)o.steps, (unsigned long long)g.o.steps);
  }
  return "";
}

// ================================================================== C18
std::string C18(Src& s, Ctx& x) {
  GenOpt go;
  go.big = s.below(12) == 11;
  go.min_models = 1 + int(s.below(3));
  Case c = GenCase(s, go);
  // Files of the conversion that only one statement refers to.
  std::map<std::string, int> uses;
  for (auto& m : c.models) uses[Real(m.file)]++;
  std::vector<std::string> can = {c.script_name};
  for (auto& m : c.models) if (uses[Real(m.file)] == 1 && c.files.count(Real(m.file)) && Real(m.file) != Real(c.script_name)) can.push_back(m.file);
  struct Victim { std::string name; std::vector<std::pair<bool, std::string>> v; };  // there or not, content
  std::vector<Victim> victims;
  int k = s.below(3) == 2 ? 2 : 1;
  for (int i = 0; i < k; i++) {
    std::string f = s.below(3) && can.size() > 1 ? can[1 + s.below(can.size() - 1)] : s.pick(can);
    bool dup = false;
    for (auto& w : victims) dup |= w.name == f;
    if (dup || Real(f) == Real(c.out_name)) continue;
    Victim w{f, {}};
    const std::string first = c.files[Real(f)];
    w.v.emplace_back(true, first);
    for (int n = 1 + int(s.below(k == 1 ? 3 : 2)); n--;) {
      std::string t = w.v.back().first ? w.v.back().second : first;
      if (s.below(6) == 5) { w.v.emplace_back(false, ""); continue; }
      if (f == c.script_name) {
        switch (s.below(5)) {
          case 0: t += "\npage { name=\"one more\"; }\n"; break;
          case 1: t = "page { name=\"the first now\"; }\n" + t; break;
          case 2: Flatten(s, &t); break;
          case 3: DamageToken(s, &t); break;
          default: t = "// a comment that moves everything along\n" + t;
        }
      } else {
        switch (s.below(6)) {
          case 0: t = Stl(GenModel(s, int(s.below(3))), s, true); break;
          case 1: t = Stl(Box(1 + double(s.below(5)), 1 + double(s.below(5)), 1 + double(s.below(5))), s, true); break;
          case 2: t += Stl(Box(1 + double(s.below(9)), 2, 3), s, true); break;
          case 3: Flatten(s, &t); break;
          case 4: BreakModel(s, &t); break;
          default: t.resize(s.below(t.size() + 1));
        }
      }
      w.v.emplace_back(true, t);
    }
    if (!w.v[0].first) continue;
    victims.push_back(w);
  }
  if (victims.empty()) return "";
  if (s.below(8) == 7) victims[0].v[0] = {false, ""};  // not there at first
  Plan base = BasePlan(c);
  auto files = [&](const std::vector<size_t>& pick) {
    Files f = c.files;
    for (size_t i = 0; i < victims.size(); i++) {
      auto& v = victims[i].v[pick[i]];
      if (v.first) f[Real(victims[i].name)] = v.second;
      else f.erase(Real(victims[i].name));
    }
    return f;
  };
  // What each version of each file gives.
  struct Result { int code, sig; bool have; std::string doc; };
  std::vector<Result> ok;
  std::vector<size_t> pick(victims.size(), 0);
  uint64_t ops = 0;
  for (;;) {
    if (x.logging) {
      x.log << "  with version";
      for (size_t i : pick) x.log << " " << i;
      x.log << ":\n";
      LogFiles(x, files(pick));
    }
    Outcome o = Go(x, files(pick), base);
    if (o.hang() || o.end_reason) { x.Probe("no result"); return ""; }
    Result r{o.code, o.sig, false, ""};
    r.have = ReadOut(c, &r.doc);
    r.doc = MaskTime(r.doc);
    ok.push_back(r);
    ops = std::max(ops, o.ops);
    size_t i = 0;
    while (i < pick.size() && ++pick[i] == victims[i].v.size()) pick[i++] = 0;
    if (i == pick.size()) break;
  }
  int n = 2 + int(s.below(4));
  for (int i = 0; i < n; i++) {
    Plan p = base;
    for (auto& w : victims) {
      int64_t at = 1;
      for (size_t j = 1; j < w.v.size(); j++) {
        at += int64_t(s.below(3) ? s.below(ops + 2) : s.below(4));
        Swap sw;
        sw.op = at;
        sw.path = w.name;
        sw.gone = !w.v[j].first;
        sw.data = w.v[j].second;
        p.swaps.push_back(sw);
      }
    }
    if (s.below(3) == 2) AddDelivery(s, c, &p);
    Outcome o = Go(x, files(std::vector<size_t>(victims.size(), 0)), p);
    if (o.hang()) return "hang: " + o.brief();
    if (o.fired[F_SWAP]) x.Nontrivial();
    Result r{o.code, o.sig, false, ""};
    r.have = ReadOut(c, &r.doc);
    r.doc = MaskTime(r.doc);
    bool found = false, first = false;
    for (size_t j = 0; j < ok.size() && !found; j++) {
      found = ok[j].code == r.code && ok[j].sig == r.sig && ok[j].have == r.have && ok[j].doc == r.doc;
      first = found && j == 0;
    }
    if (!found) {
      std::string e = "mixed: " + o.brief() + " is not what any versions of the files give";
      for (auto& q : ok)
        if (q.code == r.code && q.sig == r.sig) return e + ": " + Differ(r.doc, q.doc);
      return e + ": " + Show(o.err, 300);
    }
    x.Probe(first ? "the old version counted" : "a new version counted");
  }
  return "";
}

struct Entry { const char* name; Driver plain, asan; };
const Entry kDrivers[] = {
    {"C01", C01, nullptr}, {"C02", C02, nullptr}, {"C03", C03, nullptr}, {"C04", C04, nullptr}, {"C05", C05, nullptr}, {"C06", C06, nullptr},
    {"C07", C07, nullptr}, {"C08", C08, nullptr}, {"C09", C09Fill, C09},  {"C10", C10, nullptr}, {"C11", C11, nullptr}, {"C12", C12, nullptr},
    {"C13", C13, nullptr}, {"C14", C14, nullptr}, {"C15", C15, nullptr}, {"C16", C16, nullptr}, {"C17", C17, nullptr}, {"C18", C18, nullptr}, {"C19", C19, nullptr},
};
}  // namespace

#ifdef SIM_CHECKED
const bool kChecked = true;
#else
const bool kChecked = false;
#endif
Driver FindDriver(const std::string& prop, bool asan) {
  for (auto& e : kDrivers) if (prop == e.name) return asan && (e.asan || !kChecked) ? e.asan : e.plain;
  return nullptr;
}
std::vector<std::string> DriverNames() {
  std::vector<std::string> r;
  for (auto& e : kDrivers) r.push_back(e.name);
  return r;
}
}  // namespace sim
