// Core of the explicit exploration engine: configuration writer, guarded model driver,
// observations, exhaustive sequence enumeration, forked job pool, result reporting.
#pragma once
#include <algorithm>
#include <atomic>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "arena.hpp"
#include "include/bmi_lgar.hxx"   // from the tree under test (-I<repo>)

namespace vp {

// ---------------------------------------------------------------- soils / configuration
struct Soil { const char *name; double tr, te, alpha, n, ks; };
extern const std::vector<Soil> SOILS;          // 1-based use: soil type k is SOILS[k-1]
enum { CLAY=1, CLAYLOAM=2, LOAM=3, LOAMYSAND=4, SAND=5, SANDYCLAY=6, SCL=7, SANDYLOAM=8, SILT=9, SILTYCLAY=10,
       SICL=11, SILTLOAM=12, P1=13, P2=14, P3=15, B1=16, B2=17, B3=18 };

struct Config {
  std::string name;
  std::vector<double> thick;           // cm
  std::vector<int> soil;               // per layer
  double psi0 = 2000;                  // cm
  double timestep_s = 300, forcing_s = 3600, endtime_h = 1e6;
  double pond_max = 0;                 // cm
  bool closed = false, adaptive = true, calib = false, sft = false;
  std::vector<double> soil_z;          // cm
  std::vector<double> giuh = {0.06, 0.51, 0.28, 0.12, 0.03};
  double wp = 15495.0, fc = 340.9;
  int max_types = 15;                  // <0: leave the key out
  std::string verbosity = "none";
  std::vector<Soil> soils;             // override of the soil table (empty: SOILS)
  std::vector<std::string> extra;      // raw lines appended

  const Soil &S(int layer) const { return (soils.empty() ? SOILS : soils)[soil[layer - 1] - 1]; }   // 1-based layer
  int nl() const { return (int)thick.size(); }
  double depth() const { double s = 0; for (double t : thick) s += t; return s; }
  double bot(int layer) const { double s = 0; for (int i = 0; i < layer; i++) s += thick[i]; return s; }
  double dt_h() const { return forcing_s / 3600.0; }
  std::vector<std::string> lines(const std::string &soilfile) const;
  std::string text(const std::string &soilfile) const;
};
std::string scratch();                              // per-process scratch directory (created by run.py, VP_SCRATCH)
std::string write_soils(const std::vector<Soil> &s, const std::string &tag = "");
std::string write_config(const Config &c, const std::string &tag = "");     // returns path (cached by content)
std::string write_text(const std::string &text, const std::string &tag);     // raw config text -> path

// ---------------------------------------------------------------- guarded execution
enum Outcome { OK = 0, ABORT, ASSERT, EXIT, EXCEPTION, HANG };
const char *outcome_name(int o);
extern std::string last_outcome_detail;
// runs f; abort/assert/exit/exception/overrunning the CPU limit are turned into an outcome
int guarded(const std::function<void()> &f, double cpu_limit_s = 10);

// ---------------------------------------------------------------- observations
struct Front { double depth, theta, psi, K, dzdt; int layer, num; bool bottom; };
struct Obs {
  double time = 0;
  double precip = 0, pet = 0, aet = 0, runoff = 0, giuh = 0, storage = 0, q = 0, infil = 0, perc = 0, gw = 0, mb = 0; // m
  int nwf = 0;
  std::vector<double> th, z;           // reported arrays (theta, depth m)
  std::vector<Front> f;                // internal list
  double volon_cm = 0;                 // ponded water (internal)
};
bool has_internals();
bool internal_fronts(BmiLGAR *b, std::vector<Front> &f);
double internal_pond(BmiLGAR *b);
bool bitwise_equal(const Obs &a, const Obs &b, std::string *why = nullptr);
std::string show(const Obs &o);

class Model {
 public:
  BmiLGAR *b = nullptr;
  std::string cfg_path;
  bool live = false;
  Model() {}
  ~Model();
  int init(const std::string &path);
  int call(const std::function<void()> &f);   // guarded, allocations belong to the model
  int step(double p, double pet, const std::vector<double> *temps = nullptr);
  Obs obs();
  Obs obs_state_only();               // before the first Update: flux outputs are not read
  void read_state(Obs &o);
  void read_fluxes(Obs &o);
  double getd(const char *name) { double v = 0; b->GetValue(name, &v); return v; }
  int finalize(std::string *summary = nullptr);   // captures the printed summary
  void drop();                        // forget (after a failure) without finalizing
};
double retention_theta(const Soil &s, double psi);
double soil_K(const Soil &s, double theta, double factor);
double storage_of(const std::vector<Front> &f, const Config &c);   // cm, integral of the theta profile
double max_storage(const Config &c);

// ---------------------------------------------------------------- jobs / explorer
struct Stats {
  std::atomic<uint64_t> updates, steps_unique, sequences, checks, nontrivial, aux[16];
};
struct Ctx {
  std::string job;
  std::vector<std::string> trail;      // human readable history of the current execution
  bool has_fail = false;
  std::string fail_msg;
};
struct FailEx {};
extern Ctx *ctx;
extern Stats *stats;
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void known(const char *id, const char *fmt, ...) __attribute__((format(printf, 2, 3)));   // a listed finding was observed
bool is_known(const std::string &id);
void trail(const std::string &s);      // append to the recorded history of the current execution
void trail_reset();
void note_state(uint64_t h);           // distinct-state counting (shared table)
uint64_t hash_obs(const Obs &o, uint64_t seed);
uint64_t hash_str(const std::string &s, uint64_t seed = 1469598103934665603ULL);
void sample(const std::string &s);     // remember one sample case for the evidence

struct Job { std::string name; std::function<void()> run; };
struct Property {
  const char *id;
  std::function<void(std::vector<Job> &, bool thorough)> enumerate;
  std::string rule;                    // how cases are made / what is non-trivial
  std::vector<std::string> aux_names;
};
extern std::vector<Property> &registry();
struct Reg { Reg(Property p) { registry().push_back(std::move(p)); } };

// symbols of forcing alphabets
struct Sym { const char *name; double p, pet; int n; double p2 = -1, pet2 = 0; };   // p2 >= 0: every second Update has p2, pet2
struct Alphabet { std::string name; std::vector<Sym> s; };

// Exhaustive enumeration of every sequence of at most `depth` symbols of an alphabet on the real model.
// Tree mode: the complete model state is saved before every choice and restored for the next alternative, so each edge of
// the tree of histories is executed once. Linear mode (VP_LINEAR, and for instrumented builds): every history is executed
// from a fresh model; used to confirm what tree mode reports.
// A (copyable) is the property's own monitor state along the history.
bool tree_mode();
void trail_pop(size_t n);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
struct StepInfo { int pos, rep; const Sym *sym; double p, pet; bool fresh; const std::vector<double> *temps; };

template <class A> struct Explorer {
  Config c;
  Alphabet a;
  int depth = 3;
  std::vector<int> fixed;                       // forced first symbols (job splitting)
  std::vector<Sym> warmup;                      // common prefix before the first choice
  std::string path_override;                    // configuration file to use instead of write_config(c)
  bool every_node = false;                      // call `end` after every prefix, not only at full depth
  std::function<void(A &, Model &, const Obs &)> start;
  std::function<void(A &, Model &, const StepInfo &, const Obs &, const Obs &)> step;
  std::function<void(A &, Model &, const Obs &)> end;                     // may finalize the model
  std::function<void(Model &, const Sym &)> before_symbol;                // e.g. extra interface calls (optional)
  std::function<int(Model &, const Sym &)> advance;                        // default: m.step(p, pet)
  std::function<bool(const std::vector<int> &)> admissible;               // restriction of the tree (optional)

  void run() {
    path = path_override.empty() ? write_config(c) : path_override;
    seed = hash_str(path);
    std::vector<int> seq;
    if (tree_mode()) {
      Snapshot pristine;                        // the process as it was before: also covers process-wide caches of the model
      pristine.save();
      Model m;
      A acc = begin(m);
      Obs o = last;
      for (auto &s : warmup) run_sym(acc, m, s, -1, true, o);
      levels.clear();
      for (int i = 0; i <= depth; i++) levels.emplace_back(new Snapshot());
      endsnap.reset(new Snapshot());
      rec(acc, m, o, seq);
      m.drop();
      pristine.restore();
    } else {
      std::vector<int> prev;
      bool first = true;
      enumerate(seq, [&](const std::vector<int> &q, bool leaf) {
        if (!leaf && !every_node) return;
        size_t shared = 0;
        while (!first && shared < q.size() && shared < prev.size() && prev[shared] == q[shared]) shared++;
        Model m;
        A acc = begin(m);
        Obs o = last;
        for (auto &s : warmup) run_sym(acc, m, s, -1, first, o);
        for (size_t i = 0; i < q.size(); i++) run_sym(acc, m, a.s[q[i]], (int)i, first || i >= shared, o);
        if (end) end(acc, m, o);
        stats->sequences++;
        if (m.live) {
          std::string sum;
          int r = m.finalize(&sum);
          if (r != OK) fail("Finalize ended with %s (%s)", outcome_name(r), last_outcome_detail.c_str());
        }
        prev = q;
        first = false;
      });
    }
  }

 private:
  std::string path;
  uint64_t seed = 0;
  Obs last;
  std::vector<std::unique_ptr<Snapshot>> levels;
  std::unique_ptr<Snapshot> endsnap;

  A begin(Model &m) {
    trail_reset();
    trail("config " + c.name + " file " + path);
    int r = m.init(path);
    if (r != OK) fail("initialisation of a valid configuration ended with %s (%s)", outcome_name(r), last_outcome_detail.c_str());
    last = m.obs_state_only();
    A acc{};
    if (start) start(acc, m, last);
    return acc;
  }
  void run_sym(A &acc, Model &m, const Sym &s, int pos, bool fresh, Obs &o) {
    trail(fmt("%s: %d x Update(P=%g mm/h, PET=%g mm/h)%s", s.name, s.n, s.p, s.pet, s.p2 >= 0 ? fmt(" alternating with Update(P=%g mm/h, PET=%g mm/h)", s.p2, s.pet2).c_str() : ""));
    if (before_symbol) before_symbol(m, s);
    Sym e = s;
    for (int j = 0; j < s.n; j++) {
      if (s.p2 >= 0) { e.p = j % 2 ? s.p2 : s.p; e.pet = j % 2 ? s.pet2 : s.pet; }
      int r = advance ? advance(m, e) : m.step(e.p, e.pet);
      if (r != OK) fail("Update %d of symbol %s ended with %s (%s)", j + 1, s.name, outcome_name(r), last_outcome_detail.c_str());
      Obs after = m.obs();
      if (fresh) { stats->steps_unique++; note_state(hash_obs(after, seed)); }
      StepInfo si{pos, j, &s, e.p, e.pet, fresh, nullptr};
      if (step) step(acc, m, si, o, after);
      o = std::move(after);
    }
  }
  bool ok(const std::vector<int> &q) { return !admissible || admissible(q); }
  template <class F> void enumerate(std::vector<int> &q, const F &f) {
    bool leaf = (int)q.size() == depth;
    if (!q.empty() && q.size() >= fixed.size()) f(q, leaf);
    if (leaf) return;
    for (int k = 0; k < (int)a.s.size(); k++) {
      if (q.size() < fixed.size() && fixed[q.size()] != k) continue;
      q.push_back(k);
      if (ok(q)) enumerate(q, f);
      q.pop_back();
    }
  }
  void finish(A acc, Model &m, const Obs &o) {
    stats->sequences++;
    if (!end) return;
    endsnap->save();
    BmiLGAR *b = m.b;
    end(acc, m, o);
    endsnap->restore();
    m.b = b;
    m.live = true;
  }
  void rec(const A &acc, Model &m, const Obs &o, std::vector<int> &q) {
    bool leaf = (int)q.size() == depth;
    if (!q.empty() && q.size() >= fixed.size() && (leaf || every_node)) finish(acc, m, o);
    if (leaf) return;
    size_t tn = ctx->trail.size(), lvl = q.size();
    levels[lvl]->save();
    bool dirty = false;
    for (int k = 0; k < (int)a.s.size(); k++) {
      if (q.size() < fixed.size() && fixed[q.size()] != k) continue;
      q.push_back(k);
      if (ok(q)) {
        if (dirty) levels[lvl]->restore();
        dirty = true;
        A ac = acc;
        Obs oo = o;
        run_sym(ac, m, a.s[k], (int)lvl, true, oo);
        rec(ac, m, oo, q);
        trail_pop(tn);
      }
      q.pop_back();
    }
  }
};
}  // namespace vp
