// Workloads: random scripts, models and flags, with an independent description
// of the document they must produce.
#ifndef SIM_GEN_H_
#define SIM_GEN_H_
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "world.h"

namespace sim {

// Every random decision of a case goes through here, so that the list of
// decisions is the case: it can be stored, shrunk and replayed.
class Src {
 public:
  explicit Src(uint64_t seed) : rng_(seed) {}
  explicit Src(std::vector<uint64_t> in) : rng_(0), replay_(true), in_(std::move(in)) {}
  uint64_t below(uint64_t n) {  // 0 is the simplest choice
    uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      pos_++;
      if (n == 0) v = 0;
      else if (v >= n) v = v % n;
    } else {
      v = n < 2 ? 0 : rng_.below(n);
    }
    rec_.push_back(v);
    return v;
  }
  bool chance(unsigned pct) { return below(100) >= 100 - pct; }
  int64_t range(int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + int64_t(below(uint64_t(hi - lo) + 1)); }
  // small numbers mostly, sometimes up to max
  uint64_t skew(uint64_t max) {
    if (max == 0) return 0;
    switch (below(8)) {
      case 0: case 1: case 2: return below(std::min<uint64_t>(max, 2) + 1);
      case 3: case 4: case 5: return below(std::min<uint64_t>(max, 6) + 1);
      case 6: return below(std::min<uint64_t>(max, 20) + 1);
      default: return below(max + 1);
    }
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  const std::vector<uint64_t>& rec() const { return rec_; }

 private:
  Rng rng_;
  bool replay_ = false;
  std::vector<uint64_t> in_, rec_;
  size_t pos_ = 0;
};

struct V3 { double x = 0, y = 0, z = 0; };
struct V2 { double x = 0, y = 0; };
struct Seg { V2 a, b; };

struct Solid {
  std::vector<V3> v;
  std::vector<std::vector<int>> f;  // faces, counter-clockwise from outside
};
struct Model {
  std::vector<Solid> solids;
  bool empty() const { return solids.empty(); }
};

struct ModelRef {     // one load statement
  std::string var, file;
  Model model;
  int line = 0;       // of the load statement in the script
  size_t pos = 0;     // offset of it in the script
};

struct TextItem {
  std::string s;
  V2 at;
  bool loose = false;  // position not checked
  bool numeric = false;  // "prefix<number>suffix" with 1% tolerance
  std::string prefix, suffix;
  double value = 0;
};

struct ExpPage {
  std::vector<TextItem> text;    // in script order
  std::vector<Seg> edges;        // model edges that must be drawn
  int extra_lines = 0;           // dimension lines etc.
  int arcs = 0;
  bool edges_known = true;       // else only counts are known
  std::string title;
};

struct Expect {
  std::vector<ExpPage> pages;
};

// Sizes of a generated case.
struct GenOpt {
  bool big = true;          // allow rare large cases
  bool dims = true;
  int max_pages = 40;
  int min_models = 0;
  bool any_flags = true;
  bool need_output_kb = false;
};

// One statement or entity of the script, to place defects into.
struct Piece {
  std::string text;
  int page;      // -1: top level
  int kind;      // 0 load, 1 page open, 2 page property, 3 draw open, 4 draw property, 5 dim,
                 // 6 draw close, 7 page close, 8 text open, 9 text property, 10 text close
};

struct Case {
  std::vector<ModelRef> models;
  std::vector<Piece> pieces;
  std::string script_name = "s.txt", out_name = "out.ps";
  std::string script;
  Files files;                 // script, models, directories
  std::vector<std::string> flags;
  std::string name_flag;
  bool timestamp = true, numbers = true;
  std::vector<std::string> load_path;  // entries as given; empty: no flag
  bool load_path_given = false;
  Expect exp;

  std::vector<std::string> Argv() const;
};

std::string Stl(const Model& m, Src& s, bool plain);
Model GenModel(Src& s, int size);
Model Box(double x, double y, double z);
Case GenCase(Src& s, const GenOpt& o);
void Assemble(Case* c, Src& s, bool plain);  // pieces -> script text, load lines
std::string Num(double v);

// ---- documents
struct DocText { std::string s; V2 at; bool centered; };
struct DocPage {
  std::vector<DocText> text;
  std::vector<Seg> lines;
  int arcs = 0;
  bool done = false;       // showpage seen
  bool border = false;
};
struct Doc {
  bool ok = false;
  std::string error;
  std::string h_name, h_source, h_time;
  std::vector<DocPage> pages;
};
Doc ParseDoc(const std::string& ps);
// "" if the document is what the case must produce, else what is wrong.
std::string CheckDoc(const Case& c, const std::string& ps);
// Replaces every time stamp by a fixed string of the same length.
std::string MaskTime(const std::string& ps);
std::vector<std::string> Times(const Doc& d);  // header first, then page labels

}  // namespace sim
#endif
