// Sub-steps of an Update, observed one at a time: next to the model under test runs a second instance of the same configuration
// whose forcing interval is set to the sub-step length the first one used, so that each of its Updates is one sub-step. After every
// Update both must agree; the sub-steps of the second instance are what the sub-step laws are checked on.
#pragma once
#include "family.hpp"
namespace vp {
int internal_timesteps(BmiLGAR *b);                    // number of sub-steps taken so far
bool internal_set_interval(BmiLGAR *b, double hours);  // fixed sub-step = forcing interval = hours
static const Alphabet SUB{"sub", {{"dry", 0, 0.4, 1}, {"pet", 0, 0.8, 5}, {"drz", 2, 0.3, 1}, {"rain", 9.5, 0.1, 1}, {"storm", 45, 0.2, 2}, {"flood", 200, 0, 1}}};
template <class A> struct SubEx {
  Config c;
  Alphabet a;
  int depth = 3;
  std::vector<int> fixed;
  // one sub-step of h hours: monitor state, sub-step configuration, step, before, after
  std::function<void(A &, const Config &, const StepInfo &, const Obs &, const Obs &)> sub;
  // one Update: after (main), sums over its sub-steps in `sum` (state fields: the last sub-step's)
  std::function<void(const StepInfo &, const Obs &, const Obs &)> upd;
  void run() {
    if (!has_internals()) return;
    path = write_config(c);
    Snapshot pristine;
    bool tree = tree_mode();
    if (tree) pristine.save();
    std::vector<int> q;
    if (tree) {
      begin();
      for (int i = 0; i <= depth; i++) sn.emplace_back(new Snapshot());
      rec(q);
      m.drop();
      t.drop();
      pristine.restore();
    } else all(q);
  }

 private:
  std::string path;
  Model m, t;
  A acc{};
  Obs last;
  bool drivable = true;
  std::vector<std::unique_ptr<Snapshot>> sn;
  void begin() {
    trail_reset();
    trail("config " + c.name + " file " + path);
    if (m.init(path) != OK || t.init(path) != OK) fail("initialisation of a valid configuration failed (%s)", last_outcome_detail.c_str());
    acc = A{};
    drivable = true;
    last = t.obs_state_only();
  }
  void sym(const Sym &s, int pos) {
    trail(fmt("%s: %d x Update(P=%g mm/h, PET=%g mm/h)", s.name, s.n, s.p, s.pet));
    for (int j = 0; j < s.n && drivable; j++) {
      int n0 = internal_timesteps(m.b);
      if (m.step(s.p, s.pet) != OK) fail("Update ended with %s", last_outcome_detail.c_str());
      Obs o = m.obs();
      int k = internal_timesteps(m.b) - n0;
      stats->steps_unique++;
      note_state(hash_obs(o, hash_str(path)));
      if (k < 1 || k > 100000) { drivable = false; return; }
      double h = c.dt_h() / k;
      if (k > 1) stats->aux[14]++;
      Config sc = c;
      sc.forcing_s = sc.timestep_s = h * 3600;
      sc.adaptive = false;
      StepInfo si{pos, j, &s, s.p, s.pet, true, nullptr};
      Obs sum;
      for (int i = 0; i < k; i++) {
        double t0 = t.b->GetCurrentTime();
        internal_set_interval(t.b, h);
        if (t.step(s.p, s.pet) != OK) fail("sub-step %d of %d ended with %s", i + 1, k, last_outcome_detail.c_str());
        Obs x = t.obs();
        if (fabs(x.time - t0 - h * 3600) > 1e-6) { drivable = false; return; }   // this tree cannot be driven in sub-steps
        stats->aux[15]++;
        if (sub) sub(acc, sc, si, last, x);
        double pr = sum.precip + x.precip, pe = sum.pet + x.pet, ae = sum.aet + x.aet, ru = sum.runoff + x.runoff, in = sum.infil + x.infil, pc = sum.perc + x.perc;
        sum = x;
        sum.precip = pr; sum.pet = pe; sum.aet = ae; sum.runoff = ru; sum.infil = in; sum.perc = pc;
        last = std::move(x);
      }
      upd(si, o, sum);
    }
  }
  void rec(std::vector<int> &q) {
    size_t lvl = q.size();
    if ((int)lvl == depth) { stats->sequences++; return; }
    sn[lvl]->save();
    BmiLGAR *b1 = m.b, *b2 = t.b;
    A a0 = acc;
    Obs l0 = last;
    size_t tn = ctx->trail.size();
    for (int k = 0; k < (int)a.s.size(); k++) {
      if (lvl < fixed.size() && fixed[lvl] != k) continue;
      q.push_back(k);
      sym(a.s[k], (int)lvl);
      if (drivable) rec(q);
      q.pop_back();
      sn[lvl]->restore();
      m.b = b1; t.b = b2; acc = a0; last = l0;
      trail_pop(tn);
    }
  }
  void all(std::vector<int> &q) {
    if ((int)q.size() == depth) {
      begin();
      for (size_t i = 0; i < q.size(); i++) sym(a.s[q[i]], (int)i);
      stats->sequences++;
      std::string x;
      m.finalize(&x);
      t.finalize(&x);
      return;
    }
    for (int k = 0; k < (int)a.s.size(); k++) {
      if (q.size() < fixed.size() && fixed[q.size()] != k) continue;
      q.push_back(k);
      all(q);
      q.pop_back();
    }
  }
};
// the sub-stepped configurations: every column in the options with more than one sub-step per Update
template <class A> void add_sub_jobs(std::vector<Job> &J, bool th, const std::function<void(SubEx<A> &)> &setup) {
  const double PSI[] = {2000, 0, 20000, 40};
  for (size_t i = 0; i < COLUMNS.size(); i++)
    for (size_t j = 0; j < MODES.size(); j++) {
      if (!MODES[j].adaptive && MODES[j].ts == MODES[j].fs) continue;
      for (int k = 0; k < 4; k++) {
        if (!th && k != (int)(i + j) % 4) continue;
        Config c = make(COLUMNS[i], MODES[j], PSI[k]);
        int split = th ? (int)SUB.s.size() : 1;
        for (int f = 0; f < split; f++)
          J.push_back({"sub/" + c.name + (th ? std::string("/") + SUB.s[f].name : ""), [=] {
            SubEx<A> e;
            e.c = c;
            e.a = SUB;
            e.depth = th ? 5 : 3;
            if (th) e.fixed = {f};
            setup(e);
            sample("sub-steps of " + c.name);
            e.run();
          }});
      }
    }
}
inline bool sub_near(double a, double b, double scale) { return fabs(a - b) <= 1e-9 + 1e-7 * fabs(scale); }
}  // namespace vp
