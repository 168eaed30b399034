// Calibration (C14), cells without soil (C15), configuration files (C17).
#include <dirent.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include "family.hpp"
using namespace vp;
static void checked() { stats->checks++; }

static std::map<std::string, double> parse_summary(const std::string &s) {
  std::map<std::string, double> m;
  std::stringstream ss(s);
  std::string l;
  while (std::getline(ss, l)) {
    size_t e = l.find('=');
    if (e == std::string::npos) continue;
    std::string k = l.substr(0, e);
    while (!k.empty() && k.back() == ' ') k.pop_back();
    while (!k.empty() && k[0] == ' ') k.erase(0, 1);
    char *end = nullptr;
    double v = strtod(l.c_str() + e + 1, &end);
    if (end != l.c_str() + e + 1) m[k] = v;
  }
  return m;
}
static double need(const std::map<std::string, double> &m, const char *k, const std::string &text) {
  auto it = m.find(k);
  if (it == m.end()) fail("the summary does not report '%s': %s", k, text.c_str());
  return it->second;
}
static bool close_(const Obs &a, const Obs &b, std::string *why) {
  auto eq = [](double x, double y) { return fabs(x - y) <= 1e-9 || x == y; };
#define C(x) if (!eq(a.x, b.x)) { *why = fmt(#x ": %.15g vs %.15g", a.x, b.x); return false; }
  C(time) C(precip) C(pet) C(aet) C(runoff) C(giuh) C(storage) C(q) C(infil) C(perc) C(gw)
#undef C
  if (a.nwf != b.nwf) { *why = fmt("number of fronts %d vs %d", a.nwf, b.nwf); return false; }
  for (int i = 0; i < a.nwf; i++)
    if (!eq(a.th[i], b.th[i]) || !eq(a.z[i], b.z[i])) { *why = fmt("front %d: (%.12g,%.12g) vs (%.12g,%.12g)", i + 1, a.z[i], a.th[i], b.z[i], b.th[i]); return false; }
  return true;
}

// ------------------------------------------------------------------ C14
static const char *CAL[7] = {"smcmax", "smcmin", "van_genuchten_n", "van_genuchten_alpha", "hydraulic_conductivity", "field_capacity", "ponded_depth_max"};
struct Cal { double S = 0, pond = 0, dS = 0; bool first = true; };
static void set_param(Model &m, const char *name, std::vector<double> x, int how, const std::vector<int> &changed) {
  int r;
  if (how == 0) r = m.call([&] { m.b->SetValue(name, x.data()); });
  else if (how == 1) r = m.call([&] { double *p = (double *)m.b->GetValuePtr(name); for (size_t i = 0; i < x.size(); i++) p[i] = x[i]; });
  else r = m.call([&] { for (int i : changed) { int k = i; double v = x[i]; m.b->SetValueAtIndices(name, &k, 1, &v); } });
  if (r != OK) fail("setting %s ended with %s (%s)", name, outcome_name(r), last_outcome_detail.c_str());
}
static void c14_case(const Config &base, int pset, int lmask, const Alphabet &a, int depth, bool enabled, int shape, double small = 1, int ext = 0) {   // ext: values at the ends of their ranges
  Config c = base;
  c.calib = enabled;
  // the configuration that holds the new values: one table row per layer
  Config w = base;
  w.calib = false;
  w.soils.clear();
  w.soil.clear();
  w.max_types = 25;
  double sc[5][3] = {{0.94, 1.05, 0.9}, {0.7, 1.2, 0.5}, {1.12, 0.93, 1.2}, {1.5, 0.7, 1.2}, {2.4, 0.4, 1.6}};
  for (auto &r : sc) for (double &x : r) x = 1 + (x - 1) * small;
  for (int l = 1; l <= base.nl(); l++) {
    Soil s = base.S(l);
    if (enabled && (lmask >> (l - 1) & 1)) {
      int q = (l + shape) % 3;
      if (pset & 1) s.te *= sc[0][q];
      if (pset & 2) s.tr *= ext == 1 ? 0 : sc[1][q];
      if (pset & 4) s.n = 1 + (s.n - 1) * sc[2][q];
      if (pset & 8) s.alpha *= sc[3][q];
      if (pset & 16) s.ks *= sc[4][q];
    }
    w.soils.push_back(s);
    w.soil.push_back(l);
  }
  double fc = base.fc * (1 - 0.4 * small), pm = base.pond_max > 0 ? base.pond_max * (1 - 0.5 * small) : 1.5 * small;
  if (ext == 1) { fc = 20; pm = 0; }
  if (ext == 2) { fc = 5000; pm = 50; }
  if (ext == 3) { fc = 1; pm = 0.002; }
  if (enabled && (pset & 32)) w.fc = fc;
  if (enabled && (pset & 64)) w.pond_max = pm;
  std::string wpath = write_config(w);
  Model *twin = new Model();
  Explorer<Cal> e;
  e.c = c;
  e.a = a;
  e.depth = depth;
  e.every_node = true;
  BmiLGAR *tb = nullptr;
  e.start = [&](Cal &q, Model &m, const Obs &) {
    twin->drop();
    if (twin->init(wpath) != OK) fail("initialisation of the configured twin ended with %s", last_outcome_detail.c_str());
    tb = twin->b;
    double S0 = m.getd("soil_storage") * 100, S1 = twin->getd("soil_storage") * 100;
    q.dS = enabled ? S1 - S0 : 0;
    q.S = S0;
    // the parameters are initially the configured ones
    for (int k = 0; k < 7; k++) {
      std::vector<double> x(k < 5 ? base.nl() : 1);
      m.b->GetValue(CAL[k], x.data());
      for (size_t l = 0; l < x.size(); l++) {
        const Soil &s = base.S((int)l + 1);
        double v = k == 0 ? s.te : k == 1 ? s.tr : k == 2 ? s.n : k == 3 ? s.alpha : k == 4 ? s.ks : k == 5 ? base.fc : base.pond_max;
        checked();
        if (!(fabs(x[l] - v) <= 1e-12 * fabs(v))) fail("%s[%d] is initially %.12g, configured %.12g", CAL[k], (int)l, x[l], v);
        if (pset >> k & 1) {
          if (k < 5 && (lmask >> l & 1)) {
            Soil t = base.S((int)l + 1);
            int qq = ((int)l + 1 + shape) % 3;
            x[l] = k == 0 ? t.te * sc[0][qq] : k == 1 ? t.tr * (ext == 1 ? 0 : sc[1][qq]) : k == 2 ? 1 + (t.n - 1) * sc[2][qq] : k == 3 ? t.alpha * sc[3][qq] : t.ks * sc[4][qq];
          } else if (k == 5) x[l] = fc;
          else if (k == 6) x[l] = pm;
        }
      }
      if (pset >> k & 1) {
        std::vector<int> ch;
        for (size_t l = 0; l < x.size(); l++) if (k >= 5 || (lmask >> l & 1)) ch.push_back((int)l);
        set_param(m, CAL[k], x, (k + shape + lmask) % 3, ch);
      }
    }
  };
  e.step = [&](Cal &q, Model &, const StepInfo &si, const Obs &, const Obs &o) {
    if (twin->step(si.p, si.pet) != OK) fail("the configured twin ended with %s", last_outcome_detail.c_str());
    Obs t = twin->obs();
    std::string why;
    checked();
    if (pset && enabled) stats->nontrivial++;
    if (!close_(o, t, &why)) fail("%s, parameter set %#x in layers %#x: model (first) and configuration that holds the values (second) differ: %s", enabled ? "calibrated" : "calibration disabled", pset, lmask, why.c_str());
    // water: the change caused by the parameters is the only other term
    double S = o.storage * 100, net = (o.infil - o.perc - o.aet) * 100 + (q.first ? q.dS : 0);
    if (!(fabs(S - q.S - net) <= 2e-6)) fail("storage changed by %.10g cm, fluxes and parameter change give %.10g cm", S - q.S, net);
    q.pond += (o.precip - o.infil - o.runoff) * 100;
    q.S = S;
    q.first = false;
  };
  e.end = [&](Cal &q, Model &m, const Obs &o) {
    if (!o.time) return;
    std::string text;
    BmiLGAR *b2 = twin->b;
    int r = m.finalize(&text);
    if (r != OK) fail("Finalize ended with %s (%s)", outcome_name(r), last_outcome_detail.c_str());
    auto s = parse_summary(text);
    double dv = need(s, "Vol change (calibration)", text), gb = need(s, "Global balance", text), v0 = need(s, "Initial water in soil", text);
    checked();
    stats->aux[0]++;
    if (fabs(q.dS) > 1e-9) stats->aux[1]++;
    if (!(fabs(dv - q.dS) <= 2e-9 + 1e-9 * fabs(q.dS))) fail("reported volume change by calibration %.10g cm, the parameters change the storage by %.10g cm", dv, q.dS);
    if (!(fabs(gb) <= 1e-5)) fail("global balance %.10g cm", gb);
    (void)v0;
    twin->b = b2;
  };
  sample(c.name + fmt(" parameters %#x layers %#x", pset, lmask));
  e.run();
  twin->drop();
}
static Reg r14({"C14", [](std::vector<Job> &J, bool th) {
                  static const Alphabet A{"cal", {{"pet", 0, 0.5, 6}, {"drz", 1, 0.2, 2}, {"rain", 8, 0.1, 1}, {"storm", 50, 0, 2}}};
                  struct B { int col, mode; double psi; };
                  std::vector<B> bs = {{0, 0, 2000}, {1, 1, 500}, {2, 2, 300}, {4, 3, 2000}, {8, 5, 1000}, {6, 0, 4000}};
                  if (th) bs = {{0, 0, 2000}, {1, 1, 500}, {2, 2, 300}, {4, 3, 2000}, {8, 5, 1000}, {6, 0, 4000}, {7, 3, 700}, {11, 2, 2000}, {5, 6, 1500}, {8, 3, 200}};
                  for (auto &b : bs) {
                    Config c = make(COLUMNS[b.col], MODES[b.mode], b.psi);
                    int full = (1 << c.nl()) - 1;
                    for (int ps = 0; ps < 128; ps++) {
                      bool layered = ps & 31;
                      J.push_back({c.name + fmt("/par%02x", ps), [=] {
                        for (int lm = 1; lm <= full; lm++) {
                          if (!layered && lm != full) continue;
                          int bits = __builtin_popcount(ps);
                          bool deep = bits <= 1 || ps == 127 || ps == 31;
                          if (!th && !deep && lm != full && (lm + ps) % 3) continue;
                          c14_case(c, ps, lm, A, th ? (deep ? 4 : 3) : (deep ? 3 : 2), true, ps % 3);
                        }
                      }});
                    }
                    for (int ps : {1, 2, 4, 8, 16, 31, 32, 64, 127})        // small changes count as well
                      for (double sm : {0.1, 0.01, 0.001}) J.push_back({c.name + fmt("/small%g_%02x", sm, ps), [=] { c14_case(c, ps, full, A, th ? 4 : 3, true, ps % 3, sm); }});
                    for (int ps : {2, 32, 64, 96, 98, 127})                  // zero and extreme values
                      for (int x = 1; x <= 3; x++) J.push_back({c.name + fmt("/ext%d_%02x", x, ps), [=] { c14_case(c, ps, full, A, th ? 4 : 3, true, ps % 3, 1, x); }});
                    for (int ps : {1, 2, 4, 8, 16, 32, 64, 127}) J.push_back({c.name + fmt("/off%02x", ps), [=] { c14_case(c, ps, full, A, th ? 4 : 3, false, 1); }});
                  }
                },
                "a check compares all outputs after one Update with the model configured with those values, or the initial parameter values, or one summary; non-trivial: parameters were changed",
                {"summaries", "summaries_with_volume_change"}});

// ------------------------------------------------------------------ C15
struct Pass { double P = 0, t = 0; };
static void c15_case(const Config &c, bool valid, int rows, int depth) {
  static const Alphabet A{"rock", {{"dry", 0, 0.5, 2}, {"drz", 2, 0.1, 1}, {"storm", 55, 0, 2}}};
  Explorer<Pass> e;
  e.c = c;
  e.a = A;
  e.depth = depth;
  e.every_node = !valid;
  Model *twin = new Model();
  std::vector<double> T(c.soil_z.size(), 281.0);
  std::string wpath;
  if (valid) {
    Config w = c;
    w.soils.clear();
    for (int l = 1; l <= c.nl(); l++) { w.soils.push_back(c.S(l)); w.soil[l - 1] = l; }
    w.max_types = -1;
    wpath = write_config(w);
  }
  e.advance = [&](Model &m, const Sym &s) { return m.step(s.p, s.pet, T.empty() ? nullptr : &T); };
  e.start = [&](Pass &, Model &m, const Obs &) {
    twin->drop();
    if (valid && twin->init(wpath) != OK) fail("twin: %s", last_outcome_detail.c_str());
    if (!valid && m.getd("soil_storage") != 0) {}
  };
  e.step = [&](Pass &q, Model &, const StepInfo &si, const Obs &b, const Obs &o) {
    double P = si.p * 0.001 * c.dt_h();
    q.t += c.forcing_s;
    q.P += P;
    checked();
    if (si.p > 0) stats->nontrivial++;
    if (!(fabs(o.time - q.t) <= 1e-6)) fail("time is %.10g s after %.10g s of forcing", o.time, q.t);
    if (valid) {
      stats->aux[1]++;
      if (twin->step(si.p, si.pet, T.empty() ? nullptr : &T) != OK) fail("twin: %s", last_outcome_detail.c_str());
      Obs t = twin->obs();
      std::string why;
      if (!close_(o, t, &why)) fail("soil types that are in the table are not simulated like the same soils in a table of their own: %s", why.c_str());
      return;
    }
    stats->aux[0]++;
    auto eq = [](double x, double y) { return fabs(x - y) <= 1e-12 + 1e-12 * fabs(y); };
    if (!eq(o.precip, P)) fail("precipitation %.12g m, expected %.12g m", o.precip, P);
    if (!eq(o.runoff, P)) fail("surface runoff %.12g m, all of %.12g m should run off", o.runoff, P);
    if (!eq(o.q, P)) fail("total discharge %.12g m, expected %.12g m in the same step", o.q, P);
    if (o.infil != 0 || o.aet != 0 || o.perc != 0 || o.gw != 0) fail("without soil: infiltration %g, AET %g, percolation %g, groundwater %g", o.infil, o.aet, o.perc, o.gw);
    if (!eq(o.mb, 0)) fail("mass balance %g", o.mb);
    if (!eq(o.storage, b.time == 0 ? o.storage : b.storage)) fail("storage changed from %.12g to %.12g m", b.storage, o.storage);
  };
  if (!valid)
    e.end = [&](Pass &q, Model &m, const Obs &o) {
      if (!o.time) return;
      std::string text;
      int r = m.finalize(&text);
      if (r != OK) fail("Finalize ended with %s (%s)", outcome_name(r), last_outcome_detail.c_str());
      auto s = parse_summary(text);
      checked();
      double gb = need(s, "Global balance", text), pr = need(s, "Total precipitation", text), ru = need(s, "Surface runoff", text), td = need(s, "Total discharge (Q)", text);
      if (!(fabs(gb) <= 1e-6)) fail("global balance %.10g cm", gb);
      if (!(fabs(pr - q.P * 100) <= 1e-8) || !(fabs(ru - q.P * 100) <= 1e-8) || !(fabs(td - q.P * 100) <= 1e-8)) fail("summary: rain %.10g, runoff %.10g, discharge %.10g cm, fell %.10g cm", pr, ru, td, q.P * 100);
    };
  e.run();
  twin->drop();
  (void)rows;
}
static Reg r15({"C15", [](std::vector<Job> &J, bool th) {
                  std::vector<int> ids = {1, 3, 13, 15, 16, 18, 0, -1, -9, 19, 26, 40};
                  std::vector<int> maxs = {-1, 3, 13, 18, 25, 1};
                  const double FS[] = {3600, 900, 7200};
                  for (int mx : maxs)
                    for (int nl = 1; nl <= 3; nl++) {
                      int first = nl == 3 ? (int)ids.size() : 1;
                      for (int f = 0; f < first; f++)
                        J.push_back({fmt("max%d/layers%d/%d", mx, nl, f), [=] {
                          sample("every assignment of 12 soil types to the layers");
                          std::vector<int> k(nl, 0);
                          if (nl == 3) k[2] = f;
                          for (;;) {
                            Config c;
                            c.max_types = mx;
                            const double th3[] = {20, 30, 15};
                            int lim = std::min(mx < 0 ? 15 : mx, (int)SOILS.size());
                            bool valid = true;
                            int h = 0;
                            for (int l = 0; l < nl; l++) { int id = ids[k[l]]; c.thick.push_back(th3[l]); c.soil.push_back(id); valid &= id >= 1 && id <= lim; h = h * 7 + id + 10; }
                            c.name = fmt("max%d", mx);
                            for (int s : c.soil) c.name += fmt("-%d", s);
                            c.forcing_s = FS[(h & 0xffff) % 3];
                            c.pond_max = h % 2;
                            c.closed = h % 5 == 0;
                            if (h % 3 == 0) { c.sft = true; for (int l = 1; l <= nl; l++) c.soil_z.push_back(c.bot(l)); }
                            if (h % 4 == 0) c.calib = true;
                            c15_case(c, valid, (int)SOILS.size(), th ? 4 : nl == 3 ? 2 : 3);
                            int i = 0, n = nl == 3 ? 2 : nl;
                            while (i < n && ++k[i] == (int)ids.size()) k[i++] = 0;
                            if (i == n) break;
                          }
                        }});
                    }
                },
                "a check is one Update of a model with at least one layer without soil (all of its rain must leave in that step), one summary of it, or one Update of a model with valid soils compared with a table of its own; non-trivial: rain fell",
                {"updates_without_soil", "updates_with_valid_soils"}});

// ------------------------------------------------------------------ C17
static std::string put_tmp(const std::string &t) {
  std::string p = scratch() + fmt("/c17_%d.txt", (int)getpid());
  FILE *f = fopen(p.c_str(), "w");
  if (!f) { fprintf(stderr, "cannot write\n"); _exit(2); }
  fwrite(t.data(), 1, t.size(), f);
  fclose(f);
  return p;
}
static std::string join(const std::vector<std::string> &l, bool newline = true) {
  std::string s;
  for (size_t i = 0; i < l.size(); i++) s += l[i] + (i + 1 < l.size() || newline ? "\n" : "");
  return s;
}
struct Meaning { int rc; std::string detail; std::vector<Obs> o; double end, step; std::vector<double> par; std::string summary; };
static Meaning meaning(const std::string &text, int ncells) {
  static const Sym P[] = {{"pet", 0, 0.4, 3}, {"drz", 1, 0.1, 2}, {"storm", 45, 0, 2}, {"pet", 0, 0.6, 4}, {"rain", 7, 0.1, 2}};
  Meaning r;
  trail_reset();
  trail("configuration:\n" + text);
  Model m;
  r.rc = m.init(put_tmp(text));
  r.detail = last_outcome_detail;
  stats->steps_unique++;
  if (r.rc != OK) { m.drop(); return r; }
  int rc = guarded([&] {
    r.end = m.b->GetEndTime();
    r.step = m.b->GetTimeStep();
    for (auto *n : {"smcmax", "smcmin", "van_genuchten_n", "van_genuchten_alpha", "hydraulic_conductivity", "field_capacity", "ponded_depth_max"}) {
      std::vector<double> x(m.b->GetVarNbytes(n) / 8);
      m.b->GetValue(n, x.data());
      for (double d : x) r.par.push_back(d);
    }
    r.par.push_back(m.b->GetGridSize(4));
  });
  if (rc != OK) fail("reading the configured values ended with %s", outcome_name(rc));
  // parameters are set, so that the calibration switch shows
  double fc = 120;
  m.call([&] { m.b->SetValue("field_capacity", &fc); });
  r.o.push_back(m.obs());
  std::vector<double> T(ncells, 273.05);
  for (auto &s : P)
    for (int i = 0; i < s.n; i++) {
      rc = m.step(s.p, s.pet, ncells && m.b->GetGridSize(4) == ncells ? &T : nullptr);
      if (rc != OK) fail("Update ended with %s (%s)", outcome_name(rc), last_outcome_detail.c_str());
      r.o.push_back(m.obs());
    }
  std::string sum;
  rc = m.finalize(&sum);
  if (rc != OK) fail("Finalize ended with %s", outcome_name(rc));
  for (auto &kv : parse_summary(sum)) r.summary += kv.first + fmt("=%.8g;", kv.second + 0.0);
  note_state(hash_str(text));
  stats->sequences++;
  return r;
}
static void same_meaning(const Meaning &a, const std::string &text, int ncells, const std::string &what) {
  Meaning b = meaning(text, ncells);
  checked();
  stats->nontrivial++;
  if (b.rc != OK) fail("%s: initialisation ended with %s (%s)", what.c_str(), outcome_name(b.rc), b.detail.c_str());
  if (fabs(a.end - b.end) > 1e-6 || fabs(a.step - b.step) > 1e-9) fail("%s: end time %.10g instead of %.10g s, time step %.10g instead of %.10g s", what.c_str(), b.end, a.end, b.step, a.step);
  if (a.par != b.par) fail("%s: configured parameters differ", what.c_str());
  for (size_t i = 0; i < a.o.size(); i++) {
    std::string why;
    if (!close_(a.o[i], b.o[i], &why)) fail("%s: step %d differs: %s", what.c_str(), (int)i, why.c_str());
  }
  if (a.summary != b.summary) fail("%s: summary '%s' instead of '%s'", what.c_str(), b.summary.c_str(), a.summary.c_str());
}
static void rejected(const std::string &text, int ncells, const std::string &what) {
  trail_reset();
  trail("configuration:\n" + text);
  Model m;
  int r = m.init(put_tmp(text));
  stats->steps_unique++;
  stats->sequences++;
  note_state(hash_str(text));
  checked();
  stats->aux[0]++;
  if (r == OK) fail("%s was accepted", what.c_str());
  if (r == HANG) fail("%s: initialisation does not end", what.c_str());
  m.drop();
  (void)ncells;
}
static std::string key(const std::string &l) { return l.substr(0, l.find('=')); }
struct Base { const char *name; Config c; };
static std::vector<Base> bases() {
  std::vector<Base> v;
  Config c = make(COLUMNS[0], MODES[0], 2000);
  c.timestep_s = 360; c.forcing_s = 3600; c.endtime_h = 48; c.max_types = 15; c.soil = {13, 14, 15};
  c.pond_max = 1.25;
  v.push_back({"plain", c});
  Config d = c;
  d.sft = true; d.soil_z = {15, 44, 120, 175, 200}; d.calib = true; d.closed = true; d.adaptive = false; d.pond_max = 0.5;
  v.push_back({"all", d});
  Config e = make(COLUMNS[4], MODES[1], 400);
  e.timestep_s = 900; e.forcing_s = 1800; e.endtime_h = 72; e.giuh = {0.3, 0.5, 0.2}; e.fc = 150; e.wp = 9000;
  v.push_back({"sand", e});
  return v;
}
// ---- soil tables: row k of the file is soil type k, with the values it states, whatever the row looks like
struct Row { std::string name; double v[5]; std::string text[5]; };
static void table_means(const std::string &path, const std::vector<Row> &R, const std::string &what) {
  static const char *N[] = {"smcmin", "smcmax", "van_genuchten_alpha", "van_genuchten_n", "hydraulic_conductivity"};
  int n = (int)R.size();
  for (int t = 1; t <= n + 2; t++)
    for (int nl = 1; nl <= 2; nl++) {
      Config c = make(COLUMNS[0], MODES[0], 700);
      c.thick.clear();
      c.soil.clear();
      for (int l = 0; l < nl; l++) { c.thick.push_back(20 + 10 * l); c.soil.push_back(l ? std::min(t + 1, n) : t); }
      c.max_types = n + 3;
      std::string text = c.text(path);
      trail_reset();
      trail("configuration:\n" + text);
      Model m;
      int r = m.init(put_tmp(text));
      stats->steps_unique++;
      stats->sequences++;
      note_state(hash_str(what + text));
      if (r != OK) fail("%s: soil type %d: initialisation ended with %s (%s)", what.c_str(), t, outcome_name(r), last_outcome_detail.c_str());
      checked();
      stats->nontrivial++;
      if (t <= n) {
        for (int q = 0; q < 5; q++) {
          std::vector<double> x(nl);
          r = m.call([&] { m.b->GetValue(N[q], x.data()); });
          if (r != OK) fail("%s: reading %s ended with %s", what.c_str(), N[q], outcome_name(r));
          for (int l = 0; l < nl; l++) {
            const Row &w = R[c.soil[l] - 1];
            if (!(fabs(x[l] - w.v[q]) <= 1e-14 * fabs(w.v[q]))) fail("%s: soil type %d (%s) has %s %.15g, the table says %.15g", what.c_str(), c.soil[l], w.name.c_str(), N[q], x[l], w.v[q]);
          }
        }
        Obs o = m.obs();
        double S = 0;
        for (int l = 0; l < nl; l++) {
          const double *v = R[c.soil[l] - 1].v;
          double mm = 1 - 1 / v[3];
          S += (v[0] + (v[1] - v[0]) * pow(1 + pow(v[2] * c.psi0, v[3]), -mm)) * c.thick[l];
        }
        if (!(fabs(o.storage * 100 - S) <= 1e-9)) fail("%s: soil type %d holds %.12g cm initially, the table gives %.12g", what.c_str(), t, o.storage * 100, S);
      }
      else {
        r = m.step(6, 0.2, nullptr);
        if (r != OK) fail("%s: Update ended with %s", what.c_str(), outcome_name(r));
        Obs o = m.obs();
        stats->aux[1]++;
        if (o.infil != 0 || !(fabs(o.runoff - o.precip) <= 1e-15)) fail("%s: soil type %d is not in the table of %d soils but takes up %.10g m of water", what.c_str(), t, n, o.infil);
      }
      m.drop();
    }
}
static std::vector<Row> soil_rows() {
  std::vector<Row> R;
  for (auto &s : SOILS) {
    Row r;
    r.name = s.name;
    double v[] = {s.tr, s.te, s.alpha, s.n, s.ks};
    for (int q = 0; q < 5; q++) { r.v[q] = v[q]; r.text[q] = fmt("%.15g", v[q]); }
    R.push_back(r);
  }
  return R;
}
static void tables_job(int part) {
  const std::string head = "\"Texture\ttheta_r\ttheta_e\talpha (cm^-1)\tn\tKs (cm/h)\"";
  const char *names[] = {"\"Loam\"", "Loam", "\"Sandy clay loam\"", "\"Sandy-clay loam\"", "\"a b c d e f g\"", "\"7\"", "\"1 2\"", "L", "\"twenty characters...\"", "\"P-1\""};
  const char *seps[] = {"\t", " ", "      ", "\t\t", " \t "}, *tails[] = {"", " ", "\t"}, *ends[] = {"\n", "\r\n"};
  const char *nums[] = {"%.15g", "%.15e", "%.15E", "%018.12f"};
  int cnt = 0;
  for (auto *nm : names) for (auto *sep : seps) for (auto *tail : tails) for (auto *end : ends) for (auto *nf : nums) for (int lead = 0; lead < 2; lead++) {
    int k = cnt++;
    if (k % 32 != part) continue;
    auto R = soil_rows();
    std::string t = head + end;
    for (int i = 0; i < (int)R.size(); i++) {
      t += lead ? " " : "";
      t += i % 2 ? std::string("\"") + R[i].name + "\"" : std::string(nm);
      for (int q = 0; q < 5; q++) t += sep + fmt(nf, R[i].v[q]);
      t += tail;
      if (i + 1 < (int)R.size() || k / 32 % 2) t += end;
    }
    table_means(write_text(t, "tab"), R, fmt("a table with rows like '%s%s%s...%s'", lead ? " " : "", nm, sep, tail));
  }
  // empty lines anywhere
  auto R = soil_rows();
  for (int at = part; at <= (int)R.size(); at += 32)
    for (auto *gap : {"\n", "\n\n", "   \n", "\t\n", "\r\n"}) {
      std::string t = head + "\n";
      for (int i = 0; i <= (int)R.size(); i++) {
        if (i == at) t += gap;
        if (i == (int)R.size()) break;
        t += std::string("\"") + R[i].name + "\"";
        for (int q = 0; q < 5; q++) t += "\t" + R[i].text[q];
        t += "\n";
      }
      table_means(write_text(t, "tab"), R, fmt("a table with an empty line after row %d", at));
    }
}
static void bundled_job() {
  const char *d = getenv("VP_REPO");
  DIR *dir = d ? opendir((std::string(d) + "/data").c_str()) : nullptr;
  if (!dir) return;
  std::vector<std::string> fs;
  while (dirent *e = readdir(dir)) { std::string n = e->d_name; if (n.size() > 4 && n.substr(n.size() - 4) == ".dat") fs.push_back(n); }
  closedir(dir);
  std::sort(fs.begin(), fs.end());
  for (auto &n : fs) {
    std::string path = std::string(d) + "/data/" + n, line;
    std::ifstream in(path);
    std::getline(in, line);
    if (line.find("theta_r") == std::string::npos) continue;       // not a soil table
    std::vector<Row> R;
    while (std::getline(in, line)) {
      size_t a = line.find('"'), b = a == std::string::npos ? a : line.find('"', a + 1);
      Row r;
      std::string rest = line;
      if (b != std::string::npos) { r.name = line.substr(a, b - a + 1); rest = line.substr(b + 1); }
      std::istringstream ss(rest);
      if (b == std::string::npos) ss >> r.name;
      bool ok = true;
      for (int q = 0; q < 5; q++) if (!(ss >> r.v[q])) ok = false;
      if (ok) R.push_back(r);
    }
    if (R.size()) table_means(path, R, n);
  }
}
static Reg r17({"C17", [](std::vector<Job> &J, bool th) {
  for (int part = 0; part < 32; part++) J.push_back({fmt("tables/%d", part), [=] { tables_job(part); }});
  J.push_back({"tables/bundled", [] { bundled_job(); }});
  for (auto &b : bases()) {
    Config c = b.c;
    std::string nm = b.name;
    int nc = (int)c.soil_z.size();
    auto lines = [c] { return c.lines(write_soils(SOILS)); };
    J.push_back({nm + "/order", [=] {
      auto L = lines();
      sample(join(L));
      Meaning a = meaning(join(L), nc);
      if (a.rc != OK) fail("a valid configuration ended with %s (%s)", outcome_name(a.rc), a.detail.c_str());
      size_t n = L.size();
      for (size_t i = 0; i < n; i++)
        for (size_t j = i + 1; j < n; j++) { auto x = L; std::swap(x[i], x[j]); same_meaning(a, join(x), nc, fmt("lines %s and %s swapped", key(L[i]).c_str(), key(L[j]).c_str())); }
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++) {                       // one line moved anywhere
          auto x = L;
          std::string l = x[i];
          x.erase(x.begin() + i);
          x.insert(x.begin() + j, l);
          same_meaning(a, join(x), nc, fmt("line %s moved to position %d", key(l).c_str(), (int)j));
        }
      for (int rev = 0; rev < 2; rev++)
        for (size_t i = 0; i < n; i++) {
          auto x = L;
          if (rev) std::reverse(x.begin(), x.end());
          std::rotate(x.begin(), x.begin() + i, x.end());
          same_meaning(a, join(x), nc, fmt("%slines rotated by %d", rev ? "reversed " : "", (int)i));
          same_meaning(a, join(x, false), nc, fmt("%slines rotated by %d without final newline", rev ? "reversed " : "", (int)i));
        }
    }});
    for (int part = 0; th && part < 40; part++)
      J.push_back({nm + fmt("/triples%d", part), [=] {          // every permutation of every three lines
        auto L = lines();
        Meaning a = meaning(join(L), nc);
        int n = (int)L.size(), cnt = 0;
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = j + 1; k < n; k++) {
          if (cnt++ % 40 != part) continue;
          int p[3] = {i, j, k}, q[3] = {0, 1, 2};
          while (std::next_permutation(q, q + 3)) { auto x = L; for (int t = 0; t < 3; t++) x[p[t]] = L[p[q[t]]]; same_meaning(a, join(x), nc, "three lines permuted"); }
        }
      }});
    J.push_back({nm + "/units", [=] {
      auto L = lines();
      Meaning a = meaning(join(L), nc);
      auto with = [&](const std::string &k, const std::string &v) { auto x = L; for (auto &l : x) if (key(l) == k) l = k + "=" + v; return x; };
      auto num = [](double v) { return fmt("%.15g", v); };
      struct U { const char *u; double f; };
      for (auto *k : {"timestep", "forcing_resolution", "endtime"}) {
        std::string K = k;
        double s = K == "timestep" ? c.timestep_s : K == "endtime" ? c.endtime_h * 3600 : c.forcing_s;
        std::vector<U> us = {{"[s]", 1}, {"[sec]", 1}, {"", 1}, {"[min]", 60}, {"[minute]", 60}, {"[h]", 3600}, {"[hr]", 3600}};
        if (K == "endtime") { us.push_back({"[d]", 86400}); us.push_back({"[day]", 86400}); }
        for (auto &u : us)
          for (auto *tail : {"", " ", " # a comment", "  second [unit]", "\t"})
            for (auto *zero : {"", "e0"})
              if (*u.u || !*tail) same_meaning(a, join(with(K, num(s / u.f) + zero + u.u + tail)), nc, K + " in " + u.u + " followed by '" + tail + "'");
      }
      // pairs of units
      for (auto &u1 : std::vector<U>{{"[s]", 1}, {"[min]", 60}, {"[h]", 3600}, {"[hr]", 3600}, {"", 1}})
        for (auto &u2 : std::vector<U>{{"[sec]", 1}, {"[minute]", 60}, {"[h]", 3600}, {"", 1}})
          for (auto &u3 : std::vector<U>{{"[s]", 1}, {"[min]", 60}, {"[hr]", 3600}, {"[d]", 86400}, {"[day]", 86400}}) {
            auto x = L;
            for (auto &l : x) {
              if (key(l) == "timestep") l = "timestep=" + num(c.timestep_s / u1.f) + u1.u;
              if (key(l) == "forcing_resolution") l = "forcing_resolution=" + num(c.forcing_s / u2.f) + u2.u;
              if (key(l) == "endtime") l = "endtime=" + num(c.endtime_h * 3600 / u3.f) + u3.u;
            }
            same_meaning(a, join(x), nc, fmt("timestep %s, forcing_resolution %s, endtime %s", u1.u, u2.u, u3.u));
          }
      for (size_t i = 0; i < L.size(); i++) {
        size_t br = L[i].find('[');
        if (br == std::string::npos || key(L[i]) == "timestep" || key(L[i]) == "endtime" || key(L[i]) == "forcing_resolution") continue;
        for (auto *t : {"", "[cm]", "[cm] and more text", "[cm] # x = 5", "[]", "[ cm ]"}) { auto x = L; x[i] = L[i].substr(0, br) + t; same_meaning(a, join(x), nc, key(L[i]) + " followed by '" + t + "'"); }
      }
    }});
    J.push_back({nm + "/numbers", [=] {
      // times that are not whole numbers of their unit
      auto L = lines();
      auto with = [&](const std::string &k, const std::string &v) { auto x = L; for (auto &l : x) if (key(l) == k) l = k + "=" + v; return x; };
      struct Same { const char *k; std::vector<const char *> v; };
      for (auto &s : std::vector<Same>{{"endtime", {"1.5[d]", "1.5[day]", "36[h]", "36.0[hr]", "2160[min]", "129600[s]", "129600", "1.296e5[sec]", "0.15e1[d]"}},
                                       {"endtime", {"1.0625[d]", "25.5[h]", "1530[minute]", "91800[sec]", "9.18e4"}},
                                       {"timestep", {"450[s]", "7.5[min]", "0.125[h]", "0.125[hr]", "7.5[minute]", "4.5e2"}},
                                       {"timestep", {"90", "1.5[min]", "0.025[h]", "9e1[sec]"}},
                                       {"forcing_resolution", {"5400[s]", "90[min]", "1.5[h]", "1.5[hr]", "5.4e3"}},
                                       {"forcing_resolution", {"1350[s]", "22.5[min]", "0.375[h]", "2.25e1[minute]", "1350.0"}}}) {
        Meaning a = meaning(join(with(s.k, s.v[0])), nc);
        if (a.rc != OK) fail("%s=%s: initialisation ended with %s (%s)", s.k, s.v[0], outcome_name(a.rc), a.detail.c_str());
        for (size_t i = 1; i < s.v.size(); i++) same_meaning(a, join(with(s.k, s.v[i])), nc, fmt("%s=%s instead of %s", s.k, s.v[i], s.v[0]));
      }
      // the same number written differently, item by item
      for (auto *k : {"layer_thickness", "initial_psi", "wilting_point_psi", "field_capacity_psi", "ponded_depth_max", "giuh_ordinates", "soil_z"})
        for (auto &l : L) {
          if (key(l) != k) continue;
          std::string v = l.substr(l.find('=') + 1), u;
          size_t br = v.find('[');
          if (br != std::string::npos) { u = v.substr(br); v = v.substr(0, br); }
          std::vector<double> x;
          std::stringstream ss(v);
          std::string w;
          while (std::getline(ss, w, ',')) x.push_back(atof(w.c_str()));
          for (double d : {0.0, 0.37109375}) {                       // as it is, and with a fraction
            auto y = x;
            if (std::string(k) == "giuh_ordinates") { if (d) { y[0] += d / 64; y.back() -= d / 64; } }
            else if (std::string(k) == "soil_z") { for (double &t : y) t -= d; }
            else for (double &t : y) t += d;
            auto text = [&](const char *f) { std::string r; for (size_t i = 0; i < y.size(); i++) r += (i ? "," : "") + fmt(f, y[i]); return join(with(k, r + u)); };
            Meaning a = meaning(text("%.17g"), nc);
            if (a.rc != OK) fail("%s: initialisation ended with %s (%s)", k, outcome_name(a.rc), a.detail.c_str());
            for (auto *f : {"%.17e", "%.12f", "%.17E", "%030.17f"}) same_meaning(a, text(f), nc, fmt("%s written as %s", k, fmt(f, y[0]).c_str()));
          }
        }
    }});
    J.push_back({nm + "/values", [=] {
      // values that need all digits: what is configured is what is simulated
      for (int k = 0; k < 24; k++) {
        Config w = c;
        double f = 1 + (k + 1) * 0.0123456789012345;
        if (k % 2) for (double &t : w.thick) t *= f;
        if (k % 3 == 1) w.psi0 = c.psi0 * f;
        if (k % 4 == 2) w.pond_max = 0.7 * f;
        if (k % 5 == 3) w.fc = c.fc * f;
        if (k % 3 == 2) { w.forcing_s = c.forcing_s * f; w.timestep_s = w.forcing_s / (2 + k % 4); }
        w.endtime_h = 100 * f;
        w.soil_z.clear();
        if (w.sft) for (int l = 1; l <= w.nl(); l++) { w.soil_z.push_back(w.bot(l) - 0.4 * w.thick[l - 1]); w.soil_z.push_back(w.bot(l)); }
        trail_reset();
        Model m;
        std::string path = write_config(w);
        trail("config file " + path);
        int r = m.init(path);
        stats->steps_unique++;
        stats->sequences++;
        note_state(hash_str(path));
        if (r != OK) fail("initialisation ended with %s (%s)", outcome_name(r), last_outcome_detail.c_str());
        checked();
        stats->nontrivial++;
        auto is = [&](const char *what, double v, double x) { if (!(fabs(v - x) <= 1e-12 * fabs(x))) fail("%s is %.16g, configured %.16g", what, v, x); };
        is("time step", m.b->GetTimeStep(), w.forcing_s);
        is("end time", m.b->GetEndTime(), w.endtime_h * 3600);
        is("field capacity", m.getd("field_capacity"), w.fc);
        is("maximum ponded depth", m.getd("ponded_depth_max"), w.pond_max);
        Obs o = m.obs();
        std::vector<double> z(w.nl());
        m.b->GetValue("soil_depth_layers", z.data());
        if (o.nwf != w.nl()) fail("%d fronts initially, %d layers", o.nwf, w.nl());
        for (int l = 1; l <= w.nl(); l++) {
          const Soil &s = w.S(l);
          is("depth of a layer", z[l - 1], w.bot(l) * 0.01);
          is("depth of a front", o.z[l - 1], w.bot(l) * 0.01);
          double mm = 1 - 1 / s.n, Se = pow(1 + pow(s.alpha * w.psi0, s.n), -mm);
          if (!(fabs(o.th[l - 1] - (s.tr + Se * (s.te - s.tr))) <= 1e-11)) fail("moisture of layer %d is %.14g, the configured suction %.16g cm gives %.14g", l, o.th[l - 1], w.psi0, s.tr + Se * (s.te - s.tr));
        }
        m.drop();
      }
    }});
    J.push_back({nm + "/unknown", [=] {
      auto L = lines();
      Meaning a = meaning(join(L), nc);
      for (auto *ins : {"", "some_other_key=5", "# a comment", "timestep_extra=1[h]", "layer_thickness_2=5,6[cm]", "no equals sign here", "xtimestep=17[h]", "=", "[cm]", "soil_z_2=3", " ", "key=[cm]"})
        for (size_t i = 0; i <= L.size(); i++) { auto x = L; x.insert(x.begin() + i, ins); same_meaning(a, join(x), nc, fmt("line '%s' added at %d", ins, (int)i)); }
      for (auto *ins : {"", "other=1"}) { std::vector<std::string> x; for (auto &l : L) { x.push_back(ins); x.push_back(l); } same_meaning(a, join(x), nc, "lines in between"); }
    }});
    J.push_back({nm + "/missing", [=] {
      auto L = lines();
      std::vector<std::string> mand = {"layer_thickness", "layer_soil_type", "soil_params_file", "initial_psi", "timestep", "endtime", "wilting_point_psi", "field_capacity_psi", "forcing_resolution", "giuh_ordinates"};
      if (c.sft) mand.push_back("soil_z");
      auto without = [&](const std::set<std::string> &k) { std::vector<std::string> x; for (auto &l : L) if (!k.count(key(l))) x.push_back(l); return x; };
      int n = (int)mand.size();
      for (int m = 1; m < (1 << n); m++) {                         // every non-empty set of missing mandatory keys
        if (!th && __builtin_popcount(m) > 3) continue;
        std::set<std::string> k;
        std::string w;
        for (int i = 0; i < n; i++) if (m >> i & 1) { k.insert(mand[i]); w += mand[i] + " "; }
        rejected(join(without(k)), nc, "a configuration without " + w);
        // commented out instead of left out, and a key that only starts like it
        auto x = L;
        for (auto &l : x) if (k.count(key(l))) l = "#" + l;
        rejected(join(x), nc, "a configuration with commented out " + w);
        x = L;
        for (auto &l : x) if (k.count(key(l))) l = key(l) + "_x" + l.substr(l.find('='));
        rejected(join(x), nc, "a configuration with misspelled " + w);
      }
      // every invalid option value
      for (auto *k : {"use_closed_form_G", "adaptive_timestep", "sft_coupled", "calib_params"})
        for (auto *v : {"maybe", "yes", "2", "-1", "truefalse", "nottrue", ""})
          for (size_t i = 0; i <= L.size(); i += L.size()) {
            auto x = without({k});
            x.insert(i ? x.end() : x.begin(), std::string(k) + "=" + v);
            rejected(join(x), nc, std::string(k) + "=" + v);
          }
      // every time unit that is not known
      for (auto *k : {"timestep", "forcing_resolution", "endtime"})
        for (auto *u : {"[x]", "[ms]", "[us]", "[days]", "[hours]", "[seconds]", "[S]", "[ h]", "[m]", "[month]", "[yr]", "[cm]", "[]", "[1/h]"}) {
          auto x = L;
          for (auto &l : x) if (key(l) == k) l = std::string(k) + "=1800" + u;
          rejected(join(x), nc, std::string(k) + " in " + u);
        }
      // fewer soil types than layers
      for (int l = 1; l < c.nl(); l++) { auto x = L; std::string s; for (int i = 0; i < l; i++) s += fmt("%s%d", i ? "," : "", c.soil[i]); for (auto &y : x) if (key(y) == "layer_soil_type") y = "layer_soil_type=" + s; rejected(join(x), nc, "fewer soil types than layers"); }
    }});
    J.push_back({nm + "/defaults", [=] {
      struct D { const char *k, *v; };
      const std::vector<D> ds = {{"use_closed_form_G", "false"}, {"adaptive_timestep", "false"}, {"sft_coupled", "false"}, {"ponded_depth_max", "0[cm]"}, {"max_valid_soil_types", "15"}, {"calib_params", "false"}, {"verbosity", "none"}};
      auto L = lines();
      int n = (int)ds.size();
      for (int ref = 0; ref < (1 << n); ref += th ? 1 : 5)          // which of the optional keys are at their defaults at all
        for (int m = ref; m; m = (m - 1) & ref) {                    // and which of those are left out
          std::vector<std::string> full, part;
          for (auto &l : L) {
            int d = -1;
            for (int i = 0; i < n; i++) if (key(l) == ds[i].k) d = i;
            if (d >= 0 && (ref >> d & 1)) continue;
            full.push_back(l);
            part.push_back(l);
          }
          for (int i = 0; i < n; i++) if (ref >> i & 1) { full.push_back(std::string(ds[i].k) + "=" + ds[i].v); if (!(m >> i & 1)) part.push_back(full.back()); }
          Meaning a = meaning(join(full), nc);
          if (a.rc != OK) fail("a valid configuration ended with %s (%s)", outcome_name(a.rc), a.detail.c_str());
          same_meaning(a, join(part), nc, fmt("optional keys %#x left out", m));
        }
      // the two spellings of adaptive_timestep
      for (int on = 0; on < 2; on++) {
        auto x = L, y = L;
        for (auto &l : x) if (key(l) == "adaptive_timestep") l = on ? "adaptive_timestep=true" : "adaptive_timestep=false";
        for (auto &l : y) if (key(l) == "adaptive_timestep") l = on ? "adaptive_timestep=1" : "adaptive_timestep=0";
        Meaning a = meaning(join(x), nc);
        same_meaning(a, join(y), nc, "adaptive_timestep given as a number");
      }
    }});
  }
},
                "a check is one configuration text: either run through initialisation, 13 Updates and the summary and compared with its base configuration, or required to be rejected; non-trivial: it was run and compared",
                {"configurations_required_to_be_rejected", "soil_types_beyond_the_table"}});
