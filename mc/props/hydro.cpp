// Water balance, bounds, structure and fluxes along every explored history (C01 C02 C04 C05 C06 C19 C21).
#include "family.hpp"
#include "substep.hpp"
using namespace vp;

struct Mon { double S = 0, pond = 0; };
typedef Explorer<Mon> Ex;
static const double TOL_MASS = 2e-6;   // cm; the residual of the model's own mass iteration stays below 1e-7

static double reported_storage_cm(const Obs &o) {   // integral of the reported profile
  double s = 0, top = 0;
  for (int i = 0; i < o.nwf; i++) { s += o.th[i] * (o.z[i] - top) * 100; top = o.z[i]; }
  return s;
}
static void checked() { stats->checks++; }

// ------------------------------------------------------------------ C01
static void c01(Ex &e) {
  e.start = [](Mon &q, Model &m, const Obs &o) {
    q.S = m.getd("soil_storage") * 100;
    double r = reported_storage_cm(o);
    checked();
    if (!(fabs(q.S - r) <= 1e-9)) fail("initial soil storage %.12g cm, but the reported profile holds %.12g cm", q.S, r);
  };
  e.step = [](Mon &q, Model &, const StepInfo &si, const Obs &, const Obs &o) {
    double S = o.storage * 100, net = (o.infil - o.perc - o.aet) * 100, r = reported_storage_cm(o);
    checked();
    if (o.infil > 0 || o.perc > 0 || o.aet > 0) stats->nontrivial++;
    if (o.perc > 1e-12) stats->aux[0]++;
    if (o.infil > 0) stats->aux[1]++;
    if (o.nwf >= 6) stats->aux[2]++;
    if (!(fabs(S - q.S - net) <= TOL_MASS))
      fail("soil storage changed by %.10g cm but infiltration - percolation - AET = %.10g cm (error %.3g) after %s", S - q.S, net, S - q.S - net, show(o).c_str());
    if (!(fabs(S - r) <= 1e-9)) fail("reported soil storage %.12g cm, but the reported profile holds %.12g cm: %s", S, r, show(o).c_str());
    q.S = S;
    (void)si;
  };
}
static Reg r01({"C01", [](std::vector<Job> &J, bool th) { add_jobs<Mon>(J, family(th), c01); },
                "a check is one Update of one explored history; non-trivial: some water entered, left or evaporated in it",
                {"updates_with_percolation", "updates_with_infiltration", "updates_with_6_or_more_fronts"}});

// ------------------------------------------------------------------ C02
static void c02_step(const Config &c, Mon &q, const Obs &o) {
    double pm = c.pond_max;
    bool single = !c.adaptive && c.timestep_s == c.forcing_s;
    double pond = q.pond + (o.precip - o.infil - o.runoff) * 100;
    checked();
    if (o.precip > 0 || q.pond > 0) stats->nontrivial++;
    if (pond > 1e-6) stats->aux[0]++;
    if (o.runoff > 0) stats->aux[1]++;
    if (q.pond > 1e-6 && o.precip == 0) stats->aux[2]++;
    if (!(o.infil >= -1e-14)) fail("infiltration is %.12g m", o.infil);
    if (!(o.runoff >= -1e-14)) fail("surface runoff is %.12g m", o.runoff);
    if (!(pond >= -1e-9)) fail("more water infiltrated and ran off than was there: ponded depth %.12g cm after P %.10g, infiltration %.10g, runoff %.10g m (was %.10g cm)", pond, o.precip, o.infil, o.runoff, q.pond);
    if (!(pond <= pm + 1e-9)) fail("precipitation not accounted for: ponded depth would be %.12g cm, maximum is %g cm", pond, pm);
    if (has_internals() && !(fabs(pond - o.volon_cm) <= 1e-9)) fail("ponded depth carried over is %.12g cm, the fluxes leave %.12g cm", o.volon_cm, pond);
    if (single && o.runoff > 1e-12 && !(pond >= pm - 1e-9)) fail("runoff of %.10g m while only %.10g of %g cm are ponded", o.runoff, pond, pm);
    q.pond = fabs(pond) < 1e-10 ? 0 : pond;
}
static void c02(Ex &e) {
  Config c = e.c;
  e.step = [=](Mon &q, Model &, const StepInfo &, const Obs &, const Obs &o) { c02_step(c, q, o); };
}
static void c02s(SubEx<Mon> &e) {
  e.sub = [](Mon &q, const Config &sc, const StepInfo &, const Obs &, const Obs &o) { c02_step(sc, q, o); };
  e.upd = [](const StepInfo &, const Obs &o, const Obs &s) {
    checked();
    if (!sub_near(o.infil, s.infil, o.precip) || !sub_near(o.runoff, s.runoff, o.precip) || !sub_near(o.volon_cm, s.volon_cm, s.volon_cm))
      fail("infiltration %.10g m, runoff %.10g m, ponded %.10g cm in an Update whose sub-steps give %.10g m, %.10g m, %.10g cm", o.infil, o.runoff, o.volon_cm, s.infil, s.runoff, s.volon_cm);
  };
}
// rain that just fills the pond: after every short history, the largest rain rate without runoff is located to the last bit,
// and the rates next to it are judged as well
static double from_bits(int64_t i) { double d; memcpy(&d, &i, 8); return d; }
static int64_t to_bits(double d) { int64_t i; memcpy(&i, &d, 8); return i; }
static void c02_fill(const Config &c, const std::vector<Sym> &al, int depth) {
  std::string path = write_config(c);
  std::vector<int> q;
  std::function<void()> node = [&] {
    auto runoff = [&](double p, double pet) {
      trail_reset();
      trail("config " + c.name + " file " + path);
      Model m;
      if (m.init(path) != OK) fail("initialisation ended with %s", last_outcome_detail.c_str());
      Mon mon;
      for (int k : q)
        for (int j = 0; j < al[k].n; j++) {
          if (m.step(al[k].p, al[k].pet) != OK) fail("Update ended with %s", last_outcome_detail.c_str());
          c02_step(c, mon, m.obs());
          trail(fmt("Update(P=%g mm/h, PET=%g mm/h)", al[k].p, al[k].pet));
        }
      trail(fmt("Update(P=%.17g mm/h, PET=%g mm/h)", p, pet));
      if (m.step(p, pet) != OK) fail("Update ended with %s", last_outcome_detail.c_str());
      Obs o = m.obs();
      stats->steps_unique++;
      note_state(hash_obs(o, hash_str(path)));
      c02_step(c, mon, o);
      return o.runoff > 0;
    };
    for (double pet : {0.0, 0.4}) {
      int64_t lo = to_bits(1e-3), hi = to_bits(1000.0);
      if (runoff(from_bits(lo), pet) || !runoff(from_bits(hi), pet)) continue;
      while (hi - lo > 1) {
        int64_t mid = lo + (hi - lo) / 2;
        if (runoff(from_bits(mid), pet)) hi = mid; else lo = mid;
      }
      for (int d = -4; d <= 4; d++) runoff(from_bits(lo + d), pet);
      stats->sequences++;
      stats->aux[3]++;
    }
    if ((int)q.size() == depth) return;
    for (int k = 0; k < (int)al.size(); k++) { q.push_back(k); node(); q.pop_back(); }
  };
  node();
}
static void add_fill_jobs(std::vector<Job> &J, bool th) {
  const double PSI[] = {2000, 100, 500};
  static const std::vector<Sym> AL = {{"dry", 0, 0.2, 2}, {"rain", 9, 0.1, 1}, {"storm", 45, 0, 1}};
  for (size_t i = 0; i < COLUMNS.size(); i++)
    for (size_t j = 0; j < MODES.size(); j++) {
      if (MODES[j].pond == 0) continue;
      for (int k = 0; k < 3; k++) {
        if (!th && k != (int)(i + j) % 3) continue;
        Config c = make(COLUMNS[i], MODES[j], PSI[k]);
        J.push_back({"fill/" + c.name, [=] { c02_fill(c, AL, th ? 4 : 2); }});
      }
    }
}
static Reg r02({"C02", [](std::vector<Job> &J, bool th) { add_jobs<Mon>(J, family(th), c02); add_sub_jobs<Mon>(J, th, c02s); add_fill_jobs(J, th); },
                "a check is one Update or one sub-step of one explored history; non-trivial: rain fell or water was ponded before it",
                {"updates_ending_ponded", "updates_with_runoff", "updates_draining_a_pond_without_rain", "rain_rates_that_just_fill_the_pond"}});

// ------------------------------------------------------------------ C04
static void c04_state(const Config &c, const Obs &o) {
  double lo = 0, hi = 0, S = 0, top = 0;
  for (int l = 1; l <= c.nl(); l++) { lo += c.S(l).tr * c.thick[l - 1]; hi += c.S(l).te * c.thick[l - 1]; }
  for (auto &f : o.f) {
    if (f.layer < 1 || f.layer > c.nl()) fail("a front belongs to layer %d of %d", f.layer, c.nl());
    const Soil &s = c.S(f.layer);
    bool either = false;   // without internals the layer of a front on a boundary is not certain
    if (!has_internals())
      for (int l = 1; l <= c.nl(); l++)
        if (fabs(f.depth - c.bot(f.layer)) < 1e-9 || fabs(f.depth - c.bot(f.layer - 1)) < 1e-9)
          either |= abs(l - f.layer) <= 1 && f.theta >= c.S(l).tr - 1e-9 && f.theta <= c.S(l).te + 1e-9;
    if (!(f.theta >= s.tr - 1e-9 && f.theta <= s.te + 1e-9) && !either) fail("moisture %.12g outside [%g,%g] in layer %d: %s", f.theta, s.tr, s.te, f.layer, show(o).c_str());
    if (!std::isfinite(f.depth) || !(f.depth > 0)) fail("front depth %g", f.depth);
    if (has_internals()) {
      if (!(f.psi >= 0) || !std::isfinite(f.psi)) fail("suction %g: %s", f.psi, show(o).c_str());
      if (!std::isfinite(f.K) || !std::isfinite(f.dzdt)) fail("conductivity %g, speed %g: %s", f.K, f.dzdt, show(o).c_str());
    }
    S += f.theta * (f.depth - top);
    top = f.depth;
  }
  for (int i = 0; i < o.nwf; i++)
    if (!std::isfinite(o.th[i]) || !std::isfinite(o.z[i]) || o.th[i] < 0 || o.th[i] > 1 || o.z[i] <= 0)
      fail("reported front %d: depth %g, moisture %g", i + 1, o.z[i], o.th[i]);
  double R = o.storage * 100;
  if (!(R >= lo - 1e-6 && R <= hi + 1e-6)) fail("soil storage %.10g cm outside [%.10g,%.10g]: %s", R, lo, hi, show(o).c_str());
}
static void c04(Ex &e) {
  Config c = e.c;
  e.start = [=](Mon &, Model &m, const Obs &o) {
    Obs x = o;
    x.storage = m.getd("soil_storage");
    checked();
    c04_state(c, x);
  };
  e.step = [=](Mon &, Model &, const StepInfo &, const Obs &b, const Obs &o) {
    checked();
    stats->nontrivial++;
    const double v[] = {o.time, o.precip, o.pet, o.aet, o.runoff, o.giuh, o.storage, o.q, o.infil, o.perc, o.gw, o.mb};
    for (double x : v) if (!std::isfinite(x)) fail("a reported value is not finite: %s", show(o).c_str());
    c04_state(c, o);
    bool sat = false, dry = false;
    for (auto &f : o.f) { const Soil &s = c.S(f.layer); sat |= f.theta >= s.te - 1e-12; dry |= f.theta < s.tr + 0.1 * (s.te - s.tr); }
    if (sat) stats->aux[0]++;
    if (dry) stats->aux[1]++;
    (void)b;
  };
}
static const Alphabet EXTREME{"extreme", {{"parch", 0, 2.0, 300}, {"deluge", 300, 0, 6}, {"soak", 5, 0, 48}, {"pause", 0, 0, 24}}};
static std::vector<Case> with_extreme(bool th) {
  auto v = family(th);
  for (size_t i = 0; i < COLUMNS.size(); i++)
    for (size_t j = 0; j < MODES.size(); j++)
      for (double psi : {1.0, 50000.0})
        if (th || (i + j + (psi > 1)) % 2 == 0) v.push_back({make(COLUMNS[i], MODES[j], psi), EXTREME, th ? 4 : 3});
  return v;
}
static Reg r04({"C04", [](std::vector<Job> &J, bool th) { add_jobs<Mon>(J, with_extreme(th), c04); },
                "a check covers all fronts and outputs after one Update; every one is non-trivial (all fronts of the profile are examined)",
                {"updates_with_a_saturated_front", "updates_with_a_nearly_dry_front"}});

// ------------------------------------------------------------------ C05
static void c05_state(const Config &c, const Obs &o) {
  const auto &f = o.f;
  auto S = [&] { return show(o); };
  if (f.empty()) fail("no wetting fronts");
  if (o.nwf != (int)f.size()) fail("%d fronts reported, the profile has %d", o.nwf, (int)f.size());
  int bottoms = 0;
  const double eps = has_internals() ? 0 : 1e-9;   // depths from the interface are in metres
  for (size_t i = 0; i < f.size(); i++) {
    const Front &w = f[i];
    if (w.num != (int)i + 1) fail("front %d carries number %d: %s", (int)i + 1, w.num, S().c_str());
    if (w.layer < 1 || w.layer > c.nl()) fail("front in layer %d: %s", w.layer, S().c_str());
    double bot = c.bot(w.layer), top = c.bot(w.layer - 1);
    // a front that has just crossed a boundary with next to no water sits on it to the last digit
    bool on_top = fabs(w.depth - top) <= eps && i > 0 && f[i - 1].bottom && !w.bottom;
    if (!((w.depth > top || on_top) && w.depth <= bot * (1 + 1e-13) + eps)) fail("front %d at %.12g cm lies outside layer %d: %s", w.num, w.depth, w.layer, S().c_str());
    if (w.bottom) {
      bottoms++;
      if (!(fabs(w.depth - bot) <= 1e-9)) fail("bottom front of layer %d at %.12g cm: %s", w.layer, w.depth, S().c_str());
    } else if (!(w.depth < bot + eps) && !(i == 0 && w.layer == 1)) fail("front %d sits on the bottom of its layer without ending it: %s", w.num, S().c_str());
    bool lastl = i + 1 == f.size() || f[i + 1].layer != w.layer;
    if (w.bottom != lastl) fail("layer %d does not end with exactly one bottom front: %s", w.layer, S().c_str());
    if (i + 1 == f.size()) {
      if (w.layer != c.nl()) fail("the profile ends in layer %d: %s", w.layer, S().c_str());
    } else {
      const Front &n = f[i + 1];
      // a newly formed front may sit exactly on the bottom of the top layer, everywhere else the order is strict
      bool n_on_top = w.bottom && fabs(n.depth - w.depth) <= eps && !n.bottom;
      if (!(n.depth > w.depth) && !(eps > 0 && n.depth == w.depth) && !n_on_top && !(i == 0 && fabs(w.depth - n.depth) <= eps && n.bottom && n.layer == 1)) fail("fronts %d and %d are not ordered by depth: %s", w.num, n.num, S().c_str());
      if (n.layer != w.layer && n.layer != w.layer + 1) fail("a layer is missing: %s", S().c_str());
      if (n.layer == w.layer && n.theta > w.theta + 1e-9) fail("drier front %d above wetter front %d in one layer: %s", w.num, n.num, S().c_str());
      // close to residual content suction is not determined by moisture to all digits (and the iteration over suction ends at 1e7 cm)
      auto same = [&](int l) { return fabs(retention_theta(c.S(l), n.psi) - retention_theta(c.S(l), w.psi)) <= 1e-14; };
      if (has_internals() && n.layer != w.layer && !(fabs(n.psi - w.psi) <= (n.psi > 5e6 ? 1e-4 : 1e-7) * (1 + n.psi)) && !(n.psi > 1e5 && same(w.layer) && same(n.layer)))
        fail("suction jumps from %.12g to %.12g across the bottom of layer %d: %s", w.psi, n.psi, w.layer, S().c_str());
    }
    if (has_internals() && !(fabs(w.theta - retention_theta(c.S(w.layer), w.psi)) <= 1e-9))
      fail("front %d: moisture %.12g, the retention curve gives %.12g at suction %.12g: %s", w.num, w.theta, retention_theta(c.S(w.layer), w.psi), w.psi, S().c_str());
    if (!(fabs(o.z[i] * 100 - w.depth) <= 1e-9 && fabs(o.th[i] - w.theta) <= 1e-12))
      fail("reported front %d is (%.12g m, %.12g), the profile has (%.12g cm, %.12g)", w.num, o.z[i], o.th[i], w.depth, w.theta);
  }
  if (bottoms != c.nl()) fail("%d bottom fronts for %d layers: %s", bottoms, c.nl(), S().c_str());
}
static void c05(Ex &e) {
  Config c = e.c;
  e.start = [=](Mon &, Model &, const Obs &o) { checked(); c05_state(c, o); };
  e.step = [=](Mon &, Model &, const StepInfo &, const Obs &b, const Obs &o) {
    checked();
    if (o.nwf > c.nl()) stats->nontrivial++;
    if (o.nwf < b.nwf) stats->aux[0]++;
    if (o.nwf > b.nwf) stats->aux[1]++;
    for (size_t i = 0; i < o.f.size(); i++) if (!o.f[i].bottom && o.f[i].layer > 1) { stats->aux[2]++; break; }
    c05_state(c, o);
  };
}
static Reg r05({"C05", [](std::vector<Job> &J, bool th) { add_jobs<Mon>(J, with_extreme(th), c05); },
                "a check covers the complete profile after one Update; non-trivial: it contains at least one moving front",
                {"updates_where_fronts_disappeared", "updates_where_fronts_were_created", "updates_with_moving_fronts_below_layer_1"}});

// ------------------------------------------------------------------ C06
static double aet_factor(const Config &c, const Obs &b) {
  const Soil &s = c.S(b.f[0].layer);
  double m = 1 - 1 / s.n, t50 = 0.5 * (retention_theta(s, c.fc) + retention_theta(s, c.wp)), Se = (t50 - s.tr) / (s.te - s.tr);
  double psi50 = pow(pow(Se, -1 / m) - 1, 1 / s.n) / s.alpha;
  return 1 / (1 + pow(b.f[0].psi / psi50, 3));
}
static void c06_step(const Config &c, Mon &q, const StepInfo &si, const Obs &b, const Obs &o) {
    checked();
    double pet_cm = si.pet * 0.1 * c.dt_h(), aet = o.aet * 100;
    if (!(aet >= -1e-14)) fail("actual evapotranspiration is %.12g cm", aet);
    if (!(aet <= pet_cm * (1 + 1e-12) + 1e-15)) fail("actual evapotranspiration %.12g cm exceeds the potential %.12g cm", aet, pet_cm);
    if (si.pet == 0 && aet != 0) fail("evapotranspiration %.12g cm without demand", aet);
    if (!(fabs(o.pet * 100 - pet_cm) <= 1e-12)) fail("reported potential evapotranspiration %.12g cm, given %.12g cm", o.pet * 100, pet_cm);
    bool single = (!c.adaptive && c.timestep_s == c.forcing_s) || (c.adaptive && si.p == 0 && q.pond < 1e-9);
    if (si.pet > 0) stats->nontrivial++;
    if (si.pet > 0 && has_internals()) {
      double law = pet_cm * aet_factor(c, b);
      if (single) {
        stats->aux[0]++;
        if (!(aet <= law + 1e-9 * pet_cm + 1e-13))
          fail("evapotranspiration %.12g cm exceeds what the reduction law allows, %.12g cm (suction %.10g cm, potential %.10g cm): before %s", aet, law, b.f[0].psi, pet_cm, show(b).c_str());
        if (aet < law - 1e-9 * pet_cm - 1e-13) {
          // documented corrections: a front dried out, or the profile hit saturation or the residual content in this step
          bool lim = o.nwf < b.nwf || (si.p > 0 && b.precip == 0 && o.nwf == b.nwf);   // the latter: one dried out, one was created
          for (auto *x : {&b, &o})
            for (auto &f : x->f) { const Soil &s = c.S(f.layer); lim |= f.theta > s.te - 1e-6 || f.theta < s.tr + 1e-3; }
          stats->aux[2]++;
          if (!lim) fail("evapotranspiration %.12g cm, the reduction law gives %.12g cm (suction %.10g cm, potential %.10g cm): before %s after %s", aet, law, b.f[0].psi, pet_cm, show(b).c_str(), show(o).c_str());
        }
        if (law < 0.5 * pet_cm) stats->aux[1]++;
      }
    }
    double pond = q.pond + (o.precip - o.infil - o.runoff) * 100;
    q.pond = fabs(pond) < 1e-10 ? 0 : pond;
}
static void c06(Ex &e) {
  Config c = e.c;
  e.step = [=](Mon &q, Model &, const StepInfo &si, const Obs &b, const Obs &o) { c06_step(c, q, si, b, o); };
}
static void c06s(SubEx<Mon> &e) {
  e.sub = [](Mon &q, const Config &sc, const StepInfo &si, const Obs &b, const Obs &o) { c06_step(sc, q, si, b, o); };
  e.upd = [](const StepInfo &, const Obs &o, const Obs &s) {
    checked();
    if (!(fabs(o.aet - s.aet) <= 1e-12 + 1e-6 * o.pet)) fail("evapotranspiration is %.10g m in an Update whose sub-steps give %.10g m (potential %.10g m)", o.aet, s.aet, o.pet);
  };
}
static std::vector<Case> with_et(bool th) {
  static const Alphabet ET{"et", {{"none", 0, 0, 3}, {"low", 0, 0.05, 24}, {"high", 0, 1.5, 12}, {"wet", 6, 0.8, 2}, {"flood", 80, 2, 2}}};
  auto v = family(th);
  const double FW[][2] = {{340.9, 15495}, {103.3, 15495}, {500, 8000}, {20, 3000}};
  for (size_t i = 0; i < COLUMNS.size(); i++)
    for (size_t j = 0; j < MODES.size(); j++)
      for (size_t k = 0; k < 4; k++)
        if (th || (i + j + k) % 4 == 0) {
          Config c = make(COLUMNS[i], MODES[j], (i + k) % 2 ? 300 : 4000);
          c.fc = FW[k][0];
          c.wp = FW[k][1];
          c.name += fmt("/fc%g_wp%g", c.fc, c.wp);
          v.push_back({c, ET, th ? 5 : 3});
        }
  return v;
}
static Reg r06({"C06", [](std::vector<Job> &J, bool th) { add_jobs<Mon>(J, with_et(th), c06); add_sub_jobs<Mon>(J, th, c06s); },
                "a check is one Update or one sub-step; non-trivial: potential evapotranspiration above zero",
                {"updates_compared_with_the_reduction_law", "of_these_with_AET_below_half_PET", "of_these_limited_by_available_water"}});

// ------------------------------------------------------------------ C19
static void c19(Ex &e) {
  Config c = e.c;
  double kmin = 1e9, cap = max_storage(c);
  for (int l = 1; l <= c.nl(); l++) kmin = std::min(kmin, c.S(l).ks);
  e.start = [](Mon &q, Model &m, const Obs &) { q.S = m.getd("soil_storage") * 100; };
  e.step = [=](Mon &q, Model &, const StepInfo &si, const Obs &b, const Obs &o) {
    checked();
    double P = si.p * 0.1 * c.dt_h(), pond = q.pond + (o.precip - o.infil - o.runoff) * 100;
    double room1 = 0, top = 0;
    for (auto &f : b.f) if (f.layer == 1) { room1 += (c.S(1).te - f.theta) * (f.depth - top); top = f.depth; }
    if (si.p > 0 && si.p * 0.1 <= kmin && q.pond == 0 && room1 > P + 0.01 && cap - q.S > P + 0.01) {
      stats->nontrivial++;
      if (!(o.runoff * 100 <= 1e-9 && pond <= 1e-9))
        fail("rain of %g cm/h (least permeable layer: %g cm/h) gave %.10g cm runoff and %.10g cm ponding with room for %.6g cm: before %s after %s", si.p * 0.1, kmin, o.runoff * 100, pond, cap - q.S, show(b).c_str(), show(o).c_str());
    }
    q.pond = fabs(pond) < 1e-10 ? 0 : pond;
    q.S = o.storage * 100;
  };
}
static std::vector<Case> with_gentle(bool th) {
  static const Alphabet G{"gentle", {{"mist", 0.15, 0, 4}, {"drz", 0.6, 0.1, 6}, {"soft", 3, 0, 3}, {"pause", 0, 0.4, 12}, {"storm", 50, 0, 2}}};
  auto v = family(th, false);
  for (size_t i = 0; i < COLUMNS.size(); i++)
    for (size_t j = 0; j < MODES.size(); j++) v.push_back({make(COLUMNS[i], MODES[j], (i + j) % 2 ? 60 : 3000), G, th ? 6 : 4});
  return v;
}
static Reg r19({"C19", [](std::vector<Job> &J, bool th) { add_jobs<Mon>(J, with_gentle(th), c19); },
                "a check is one Update; non-trivial: gentle rain on soil with room and no ponded water", {}});

// ------------------------------------------------------------------ C21
static void c21(Ex &e) {
  Config c = e.c;
  double lo = 0;
  for (int l = 1; l <= c.nl(); l++) lo += c.S(l).tr * c.thick[l - 1];
  e.start = [](Mon &q, Model &m, const Obs &) { q.S = m.getd("soil_storage") * 100; };
  e.step = [=](Mon &q, Model &, const StepInfo &si, const Obs &b, const Obs &o) {
    checked();
    double pond = q.pond + (o.precip - o.infil - o.runoff) * 100, S = o.storage * 100;
    if (si.p == 0 && q.pond == 0) {
      stats->nontrivial++;
      if (fabs(o.infil) > 1e-11 || fabs(o.runoff) > 1e-11) fail("without rain and ponded water: infiltration %.10g m, runoff %.10g m: %s", o.infil, o.runoff, show(o).c_str());
      if (si.pet == 0 && o.aet != 0) fail("evapotranspiration %.10g m without demand", o.aet);
      if (!(S <= q.S + 2e-6)) fail("storage rose from %.10g to %.10g cm without rain: %s", q.S, S, show(o).c_str());
    }
    if (!(o.perc >= 0)) fail("percolation is %.12g m: %s", o.perc, show(o).c_str());
    if (!(o.perc * 100 <= q.S - lo + o.infil * 100 + 1e-6)) fail("percolation %.10g cm exceeds the mobile water %.10g cm", o.perc * 100, q.S - lo + o.infil * 100);
    if (o.perc > 0) {
      stats->aux[0]++;
      // something must have been able to reach the bottom of the domain: a moving front, infiltration
      bool moving = o.infil > 0;
      for (auto &f : b.f) moving |= !f.bottom;
      if (!moving && o.perc * 100 > 1e-6) fail("percolation %.10g cm although the profile held no moving front: before %s after %s", o.perc * 100, show(b).c_str(), show(o).c_str());
    }
    if (si.p == 0 && q.pond == 0 && si.pet == 0 && o.perc == 0) {
      stats->aux[1]++;
      if (!(fabs(S - q.S) <= 2e-6)) fail("storage drifts from %.10g to %.10g cm while nothing flows", q.S, S);
    }
    q.pond = fabs(pond) < 1e-10 ? 0 : pond;
    q.S = S;
  };
}
static Reg r21({"C21", [](std::vector<Job> &J, bool th) { add_jobs<Mon>(J, family(th), c21); },
                "a check is one Update; non-trivial: no rain fell and no water was ponded", {"updates_with_percolation", "updates_with_no_driving_force_at_all"}});
