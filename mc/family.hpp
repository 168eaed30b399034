// The configurations and forcing alphabets that the hydrological properties are explored over.
#pragma once
#include "vp.hpp"
namespace vp {
struct Mode { const char *name; double pond; bool closed, adaptive; double ts, fs; };
static const std::vector<Mode> MODES = {
    {"p0_num_ad", 0, false, true, 300, 3600},   {"p2_num_fix", 2, false, false, 300, 3600},
    {"p0_cl_1sub", 0, true, false, 3600, 3600}, {"p1_cl_ad", 1, true, true, 300, 3600},
    {"p0_num_15min", 0, false, true, 300, 900}, {"p5_num_1sub", 5, false, false, 3600, 3600},
    {"p05_num_ad2h", 0.5, false, true, 600, 7200}, {"p3_cl_nondiv", 3, true, false, 1000, 3600}};
struct Column { const char *name; std::vector<double> t; std::vector<int> s; };
static const std::vector<Column> COLUMNS = {
    {"phil", {44, 131, 25}, {P1, P2, P3}},        {"bush", {30, 50, 120}, {B1, B2, B3}},
    {"silt1", {50}, {SILTLOAM}},                   {"clay1", {30}, {CLAY}},
    {"sandclay", {20, 40}, {SAND, CLAY}},          {"claysand", {20, 40}, {CLAY, SAND}},
    {"thin3", {10, 10, 10}, {LOAM, SANDYLOAM, SILT}}, {"four", {10, 15, 20, 25}, {SANDYLOAM, LOAM, SILTYCLAY, LOAMYSAND}},
    {"same2", {25, 25}, {LOAM, LOAM}},             {"sand1", {100}, {SAND}},
    {"lscl", {5, 60}, {LOAMYSAND, CLAYLOAM}},      {"five", {6, 8, 10, 12, 14}, {SILT, SCL, SANDYLOAM, SICL, SAND}}};
inline Config make(const Column &col, const Mode &m, double psi) {
  Config c;
  c.thick = col.t;
  c.soil = col.s;
  c.psi0 = psi;
  c.pond_max = m.pond;
  c.closed = m.closed;
  c.adaptive = m.adaptive;
  c.timestep_s = m.ts;
  c.forcing_s = m.fs;
  c.max_types = 25;
  c.name = fmt("%s/%s/psi%g", col.name, m.name, psi);
  return c;
}
static const Alphabet STD{"std", {{"dry", 0, 0, 1}, {"pet", 0, 0.5, 6}, {"long", 0, 0.3, 100}, {"drz", 1, 0.1, 2}, {"rain", 8, 0.1, 1}, {"storm", 60, 0, 2}}};
static const Alphabet WIDE{"wide", {{"calm", 0, 0, 12}, {"hot", 0, 1.2, 24}, {"mist", 0.2, 0, 3}, {"drz", 1.5, 0.3, 6}, {"rain", 9, 0.2, 3}, {"burst", 25, 0, 1}, {"storm", 90, 0.1, 3}}};
// histories with many fronts, from states that long histories lead to; values at and around the thresholds of the code; odd columns
static const Alphabet PULSE{"pulse", {{"puls", 3, 0, 20, 0, 0.2}, {"flick", 0.8, 0.1, 8, 0, 0}, {"dry", 0, 0.5, 48}, {"storm", 60, 0, 3}, {"ten", 10, 0, 2}}};
static const Alphabet EDGE{"edge", {{"tiny", 1e-5, 0, 3}, {"ten", 10, 0, 2}, {"ten+", 10.001, 0.1, 1}, {"epspet", 0, 1e-6, 5}, {"hugepet", 0, 30, 2}, {"deluge", 500, 5, 1}}};
static const std::vector<std::vector<Sym>> AGED = {
    {{"w1", 6, 0.1, 2}, {"w2", 0, 0.3, 20}, {"w3", 1, 0.1, 5}, {"w4", 0, 0.2, 40}, {"w5", 40, 0, 2}, {"w6", 0, 0.3, 100}, {"w7", 2, 0, 30, 0, 0.3}, {"w8", 0, 0.1, 60}},
    {{"w1", 2, 0, 40, 0, 0.05}, {"w2", 25, 0, 1}, {"w3", 1, 0, 20, 0, 0.1}},
    {{"w1", 0, 0.6, 400}, {"w2", 15, 0, 6, 0, 0.2}, {"w3", 4, 0, 12, 0, 0.2}, {"w4", 0, 0, 200}},
    {{"w1", 30, 0, 60}, {"w2", 0, 0.4, 150}, {"w3", 5, 0, 10, 0, 0.1}}};
static const std::vector<Column> ODD = {
    {"thin6", {2, 2, 3, 3, 5, 5}, {LOAM, SANDYLOAM, CLAYLOAM, SILT, LOAM, SCL}}, {"deep2", {200, 300}, {LOAM, CLAYLOAM}},
    {"film", {1, 60}, {SAND, LOAM}}, {"same5", {10, 10, 10, 10, 10}, {SILTLOAM, SILTLOAM, SILTLOAM, SILTLOAM, SILTLOAM}},
    {"contrast", {15, 3, 30}, {SAND, CLAY, SAND}}, {"eight", {5, 5, 10, 10, 10, 15, 15, 20}, {SANDYLOAM, LOAM, SILTLOAM, CLAYLOAM, P1, P3, B3, SICL}}};
struct Case { Config c; Alphabet a; int depth; std::vector<Sym> warm; int frost = 0; bool until = false; };   // until: advanced by UpdateUntil(now + interval) instead of Update()
inline void add_aged(std::vector<Case> &v, bool th) {
  const double PSI[] = {2000, 100, 8000, 500};
  for (size_t i = 0; i < COLUMNS.size() + ODD.size(); i++)
    for (size_t j = 0; j < MODES.size(); j++) {
      const Column &col = i < COLUMNS.size() ? COLUMNS[i] : ODD[i - COLUMNS.size()];
      for (int w = 0; w < 4; w++)
        if (th || w == (int)(i + j) % 4) {
          Config c = make(col, MODES[j], PSI[(i + w + j / 2) % 4]);
          c.name += fmt("/aged%d", w);
          v.push_back({c, PULSE, th ? 4 : 2, AGED[w]});
          c.name += "e";
          v.push_back({c, EDGE, th ? 3 : 1, AGED[w]});
        }
      for (double psi : PSI)
        if (th || psi == PSI[(i + j) % 4]) { v.push_back({make(col, MODES[j], psi), EDGE, th ? 5 : 3}); v.back().until = (i + j / 2) % 2; }
      if (i >= COLUMNS.size())
        for (double psi : PSI)
          if (th || psi == PSI[(i + j + 1) % 4]) v.push_back({make(col, MODES[j], psi), WIDE, th ? 4 : 2});
    }
}
// coupled to soil temperatures: every symbol brings its own temperature profile (which one depends on the configuration)
inline double frost(int kind, double z) {
  switch (kind & 3) {
    case 0: return 285 - 0.01 * z;                // warm
    case 1: return 272.95 + z * 0.004;            // frozen above
    case 2: return 262;                           // frozen
    default: return 273.20 - z * 0.004;           // frozen below
  }
}
inline void add_frozen(std::vector<Case> &v, bool th) {
  const double PSI[] = {2000, 100, 8000, 500};
  for (size_t i = 0; i < COLUMNS.size() + ODD.size(); i++)
    for (size_t j = 0; j < MODES.size(); j++) {
      const Column &col = i < COLUMNS.size() ? COLUMNS[i] : ODD[i - COLUMNS.size()];
      for (int sh = 0; sh < 4; sh++)
        if (th || sh == (int)(i + j + j / 4) % 4) {
          Config c = make(col, MODES[j], PSI[(i + 2 * j + sh) % 4]);
          c.sft = true;
          for (int l = 1; l <= c.nl(); l++) c.soil_z.push_back(0.5 * (c.bot(l) + c.bot(l - 1)));
          c.name += fmt("/frost%d", sh);
          Case cs{c, STD, th ? 4 : 3};
          cs.frost = sh;
          v.push_back(cs);
        }
    }
}

static const Alphabet WARM{"warm", {{"soak", 5, 0.3, 48}, {"wet", 20, 0.4, 6}, {"pour", 100, 1, 2}, {"drip", 0.3, 0.2, 3}, {"sun", 0, 0.6, 3}, {"rest", 0, 0, 2}}};
// soils of the catalogue in data/README.md, and corners of the parameter ranges documented there
static const std::vector<Soil> CATALOGUE = {
    {"c1", 0.045, 0.43, 0.145, 2.68, 29.7}, {"c2", 0.057, 0.41, 0.124, 2.28, 14.59166667}, {"c3", 0.065, 0.41, 0.075, 1.89, 4.420833333},
    {"c4", 0.078, 0.43, 0.036, 1.56, 1.04}, {"c5", 0.034, 0.46, 0.016, 1.37, 0.25}, {"c6", 0.067, 0.45, 0.02, 1.41, 0.45},
    {"c7", 0.1, 0.39, 0.059, 1.48, 1.31}, {"c8", 0.095, 0.41, 0.019, 1.31, 0.26}, {"c9", 0.089, 0.43, 0.01, 1.23, 0.07},
    {"c10", 0.1, 0.38, 0.027, 1.23, 0.12}, {"c11", 0.07, 0.36, 0.005, 1.09, 0.02}, {"c12", 0.068, 0.38, 0.008, 1.09, 0.2}};
static const std::vector<Soil> CORNERS = {
    {"k1", 0.15, 0.3, 0.001, 1.1, 0.001}, {"k2", 0.01, 0.8, 0.001, 1.1, 100}, {"k3", 0.15, 0.3, 0.3, 1.1, 0.001}, {"k4", 0.01, 0.8, 0.3, 1.1, 100},
    {"k5", 0.01, 0.8, 0.005, 2, 0.001}, {"k6", 0.15, 0.3, 0.005, 2, 100}, {"k7", 0.01, 0.8, 0.3, 3, 0.001}, {"k8", 0.15, 0.3, 0.3, 3, 100}};
inline void add_warm(std::vector<Case> &v, bool th) {
  const double PSI[] = {0, 100, 30000, 500};
  for (size_t i = 0; i < COLUMNS.size() + ODD.size(); i++)
    for (size_t j = 0; j < MODES.size(); j++) {
      const Column &col = i < COLUMNS.size() ? COLUMNS[i] : ODD[i - COLUMNS.size()];
      for (double psi : PSI)
        if (th || psi == PSI[(i + j) % 4]) v.push_back({make(col, MODES[j], psi), WARM, th ? 4 : 3});
    }
}
inline void add_exotic(std::vector<Case> &v, bool th) {
  const double PSI[] = {10, 0, 3000, 30000};
  for (int set = 0; set < 2; set++) {
    const auto &T = set ? CORNERS : CATALOGUE;
    for (int a = 1; a <= (int)T.size(); a++)
      for (int b = 1; b <= (int)T.size(); b++)
        for (size_t k = 0; k < MODES.size(); k++)
          if (th || k == (size_t)(a * 5 + b * 3) % 8) {
            Column col{"", {a % 2 ? 12. : 25., b % 2 ? 20. : 35.}, {a, b}};
            Config c = make(col, MODES[k], PSI[(a + b + k) % 4]);
            c.soils = T;
            c.name = fmt("%s%d-%d/%s/psi%g", set ? "corner" : "cat", a, b, MODES[k].name, c.psi0);
            v.push_back({c, WIDE, th ? 4 : 3});
          }
  }
}
inline std::vector<Case> family(bool thorough, bool frozen = true) {
  std::vector<Case> v;
  const double PSI[] = {2000, 100, 8000, 500};
  if (!thorough) {
    for (size_t i = 0; i < COLUMNS.size(); i++)
      for (size_t j = 0; j < MODES.size(); j++) v.push_back({make(COLUMNS[i], MODES[j], PSI[(i + j) % 3]), STD, 4});
    for (int a = 1; a <= 18; a++)
      for (int b = 1; b <= 18; b++) {
        Column col{"pair", {a % 2 ? 12. : 25., b % 2 ? 20. : 35.}, {a, b}};
        Config c = make(col, MODES[(a * 5 + b * 3) % 8], PSI[(a + 2 * b) % 4]);
        c.name = fmt("pair%d-%d/%s/psi%g", a, b, MODES[(a * 5 + b * 3) % 8].name, c.psi0);
        v.push_back({c, WIDE, 3});
      }
  } else {
    for (auto &col : COLUMNS)
      for (auto &m : MODES)
        for (double psi : PSI) {
          v.push_back({make(col, m, psi), STD, 5});
          v.push_back({make(col, m, psi), WIDE, 4});
        }
    for (int a = 1; a <= 18; a++)
      for (int b = 1; b <= 18; b++)
        for (size_t k = 0; k < MODES.size(); k++) {
          Column col{"pair", {a % 2 ? 12. : 25., b % 2 ? 20. : 35.}, {a, b}};
          Config c = make(col, MODES[k], PSI[(a + b + k) % 4]);
          c.name = fmt("pair%d-%d/%s/psi%g", a, b, MODES[k].name, c.psi0);
          v.push_back({c, WIDE, 4});
        }
  }
  add_aged(v, thorough);
  add_warm(v, thorough);
  add_exotic(v, thorough);
  if (frozen) add_frozen(v, thorough);
  return v;
}
// one job per configuration (and per first symbol, for the deep ones)
template <class A> void add_jobs(std::vector<Job> &J, const std::vector<Case> &cases, const std::function<void(Explorer<A> &)> &setup) {
  for (auto &cs : cases) {
    int split = cs.depth >= 4 ? (int)cs.a.s.size() : 1;
    for (int k = 0; k < split; k++) {
      std::string n = cs.c.name + "/" + cs.a.name + (split > 1 ? std::string("/") + cs.a.s[k].name : "");
      J.push_back({n, [=] {
        Explorer<A> e;
        e.c = cs.c;
        e.a = cs.a;
        e.depth = cs.depth;
        e.warmup = cs.warm;
        if (split > 1) e.fixed = {k};
        if (cs.c.sft)
          e.advance = [=](Model &m, const Sym &s) {
            int kind = cs.frost;
            for (size_t q = 0; q < cs.a.s.size(); q++) if (!strcmp(cs.a.s[q].name, s.name)) kind += (int)q;
            std::vector<double> T;
            for (double z : cs.c.soil_z) T.push_back(frost(kind, z));
            return m.step(s.p, s.pet, &T);
          };
        if (cs.until)
          e.advance = [=](Model &m, const Sym &s) {
            double p = s.p, pet = s.pet;
            return m.call([&] {
              m.b->SetValue("precipitation_rate", &p);
              m.b->SetValue("potential_evapotranspiration_rate", &pet);
              m.b->UpdateUntil(m.b->GetCurrentTime() + m.b->GetTimeStep());
            });
          };
        setup(e);
        sample(e.c.name + " alphabet " + e.a.name);
        e.run();
      }});
    }
  }
}
}  // namespace vp
