// Flow laws (C20) and frozen-soil coupling (C16): every front speed, conductivity, displacement, infiltration capacity and new
// front of every explored history is recomputed from the profile by an independent implementation of the documented laws.
#include "family.hpp"
#include "substep.hpp"
using namespace vp;
static void checked() { stats->checks++; }
typedef std::vector<double> Fac;               // conductivity factor per layer, 1-based

static double Se_of(const Soil &s, double th) { return (th - s.tr) / (s.te - s.tr); }
static double h_of(const Soil &s, double Se) { double m = 1 - 1 / s.n; return 1.0 / s.alpha * pow(pow(Se, -1.0 / m) - 1.0, 1.0 / s.n); }
static double K_of(const Soil &s, double Se, double ks) { double m = 1 - 1 / s.n; return ks * sqrt(Se) * pow(1.0 - pow(1.0 - pow(Se, 1.0 / m), m), 2.0); }
// capillary drive between the moisture below (lo) and at (hi) a front
static double G_closed(const Soil &s, double lo, double hi) {
  double m = 1 - 1 / s.n, p = 1 + 2 / m, lam = 2 / (p - 3);
  double psib = (p + 3) * (147.8 + 8.1 * p + 0.092 * p * p) / (2 * s.alpha * p * (p - 1) * (55.6 + 7.4 * p + p * p));
  double Hc = psib * (2 + 3 * lam) / (1 + 3 * lam), e = 3 + 1 / lam;
  double G = Hc * (pow(Se_of(s, hi), e) - pow(Se_of(s, lo), e)) / (1 - pow(Se_of(s, lo), e));
  return std::isfinite(G) ? G : Hc;
}
static double G_numeric(const Soil &s, double lo, double hi, double ks, double thr) {
  double m = 1 - 1 / s.n, Si = Se_of(s, lo), Sf = Se_of(s, hi), hi_ = h_of(s, Si), hf = h_of(s, Sf);
  double dh = (hi_ - hf) / 120.0 * 0.01, G = 0, K1 = K_of(s, Si, ks), h = hf + dh;
  for (int it = 0; h < hi_ && it < 1000000; it++) {
    double Se = pow(1 + pow(s.alpha * h, s.n), -m), K2 = K_of(s, Se, ks);
    dh *= (K1 - K2) / K2 > thr ? 0.5 : 10.0;
    G += (K1 + K2) * dh / 2;
    K1 = K2;
    h += dh;
  }
  return fabs(G / ks);
}
static double Gval(const Config &c, int layer, double lo, double hi, double ks, int variant) {
  static const double T[] = {0.02, 0.02 * (1 + 1e-8), 0.02 * (1 - 1e-8)};   // the step control of the integration is discontinuous
  return c.closed ? G_closed(c.S(layer), lo, hi) : G_numeric(c.S(layer), lo, hi, ks, T[variant]);
}
static bool near_(double a, double b, double rel) { return fabs(a - b) <= rel * fabs(b) + 1e-12; }

// K(Se) is steep at saturation: rounding of Se moves it noticeably for n close to 1. eps selects a bound of the rounding interval.
static double K_eps(const Soil &s, double Se, double ks, int eps) {
  if (!eps) return K_of(s, Se, ks);
  double x = Se + eps * (4e-16 + 4e-15 * Se);
  return K_of(s, std::max(0., std::min(1., x)), ks);
}
// speed of front i of the profile
static double speed(const Config &c, const Fac &F, const std::vector<Front> &f, size_t i, double hp, int variant, int eps) {
  const Front &w = f[i], &n = f[i + 1];
  if (w.bottom) return 0;
  const Soil &s = c.S(w.layer);
  double ks = s.ks * F[w.layer], dth = w.theta - n.theta, G, v;
  if (!(dth > 0)) return 1e-9;
  G = Gval(c, w.layer, n.theta, w.theta, ks, variant);
  double K = K_eps(s, Se_of(s, w.theta), ks, eps);
  if (w.layer == 1) v = (ks * (G + hp) / w.depth + K) / dth;
  else {
    double den = (w.depth - c.bot(w.layer - 1)) / K;
    for (int k = 1; k < w.layer; k++) {
      const Soil &q = c.S(k);
      double th = retention_theta(q, w.psi);
      den += c.thick[k - 1] / K_eps(q, Se_of(q, th), q.ks * F[k], eps);
    }
    v = (w.depth / den + ks * (G + hp) / w.depth) / dth;
  }
  if (v == 0) v = 1e-9;
  return std::min(v, 1e4);
}
static bool speed_ok(const Config &c, const Fac &F, const std::vector<Front> &f, size_t i, double hp, double *v0) {
  double v = f[i].dzdt, x = speed(c, F, f, i, hp, 0, 0);
  if (v0) *v0 = x;
  if (near_(v, x, 1e-6)) return true;
  for (int k = 0; k < (c.closed ? 1 : 3); k++) {
    double lo = speed(c, F, f, i, hp, k, -1), hi = speed(c, F, f, i, hp, k, 1);
    if (v >= lo * (1 - 1e-6) && v <= hi * (1 + 1e-6)) return true;
  }
  return false;
}
static int free_drainage(const std::vector<Front> &f) {
  for (size_t i = 0; i + 1 < f.size(); i++) if (f[i].layer == f[i + 1].layer) return (int)i;
  return (int)f.size() - 1;
}
static bool same_pattern(const std::vector<Front> &a, const std::vector<Front> &b, size_t shift) {   // b has `shift` more fronts at the top
  if (a.size() + shift != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (a[i].layer != b[i + shift].layer || a[i].bottom != b[i + shift].bottom) return false;
  return true;
}
struct Law { double prev_p = 0; bool first = true; };

// all laws for one Update of dt hours in a single sub-step if `single`
static void laws(const Config &c, const Fac &F, const Law &q, const StepInfo &si, const Obs &b, const Obs &o, bool single, bool speeds) {
  double dt = c.dt_h(), P = si.p * 0.1 * dt;                   // cm
  bool create = si.p > 0 && q.prev_p == 0 && b.volon_cm <= 1e-12 && b.f[0].theta + 1e-12 < c.S(1).te;
  if (speeds) {
    double hp = o.volon_cm;
    for (size_t i = 0; i + 1 < o.f.size(); i++) {
      const Front &w = o.f[i];
      checked();
      stats->aux[0]++;
      const Soil &ws = c.S(w.layer);
      double Se = Se_of(ws, w.theta), ks = ws.ks * F[w.layer], Kx = K_of(ws, Se, ks);
      if (!(w.K >= K_eps(ws, Se, ks, -1) * (1 - 1e-6) - 1e-14 && w.K <= K_eps(ws, Se, ks, 1) * (1 + 1e-6) + 1e-14)) fail("front %d has conductivity %.12g, its moisture and temperature give %.12g: %s", w.num, w.K, Kx, show(o).c_str());
      if (w.bottom) {
        if (w.dzdt != 0) fail("front %d spans its layer but has speed %.10g: %s", w.num, w.dzdt, show(o).c_str());
        continue;
      }
      stats->nontrivial++;
      double v0 = 0;
      if (w.layer > 1) stats->aux[1]++;
      if (w.layer > 2) stats->aux[2]++;
      if (hp > 0) stats->aux[3]++;
      bool ok = speed_ok(c, F, o.f, i, hp, &v0);
      // a step that creates a front and leaves less than the ponding maximum computes the speeds without the ponded head
      if (!ok && single && create && hp > 0 && hp < c.pond_max) ok = speed_ok(c, F, o.f, i, 0, nullptr);
      if (!ok) fail("front %d moves at %.12g cm/h, the flow law gives %.12g (ponded %g cm): %s", w.num, w.dzdt, v0, hp, show(o).c_str());
    }
  }
  if (!single || (!speeds && c.pond_max > 0)) return;              // (the ponded depth is not known from the interface)
  bool created = create && o.f.size() == b.f.size() + 1;
  // displacement of fronts that met nothing
  if (speeds && same_pattern(b.f, o.f, created ? 1 : 0) && !(create && !created)) {
    size_t sh = created ? 1 : 0;
    int fd = free_drainage(o.f);
    for (size_t i = 0; i + 1 < b.f.size(); i++) {
      const Front &x = b.f[i], &y = o.f[i + sh];
      if (x.bottom) continue;
      if (((int)(i + sh) == fd || (sh && i == (size_t)free_drainage(b.f))) && y.theta >= c.S(y.layer).te - 1e-9) continue;   // saturated: position follows from the water balance
      checked();
      stats->aux[4]++;
      double z = x.depth + x.dzdt * dt;
      if (!(fabs(y.depth - z) <= 1e-9 * z)) fail("front %d moved from %.12g to %.12g cm, its speed of %.10g cm/h gives %.12g: before %s after %s", x.num, x.depth, y.depth, x.dzdt, z, show(b).c_str(), show(o).c_str());
    }
  }
  // the first rain after a dry step forms a new front; it stays one unless it reaches below the front that was topmost
  bool must = false;
  if (create && !created && o.f.size() > 1 && o.f[1].layer == 1) {
    const Soil &s = c.S(1);
    if (b.f[0].bottom) must = true;
    else if (speeds && b.f.size() > 1) {
      double z = b.f[0].depth + b.f[0].dzdt * dt, far = 0, ks = s.ks * F[1];
      for (int k = 0; k <= 16; k++) {
        double t = b.f[1].theta + (b.f[0].theta - b.f[1].theta) * k / 16, dth = s.te - t, tau = dt * ks / dth, G = Gval(c, 1, t, s.te, ks, 0);
        far = std::max(far, 0.5 * (tau + sqrt(tau * tau + 4 * tau * G)));
      }
      must = z > 1.2 * far && z < c.bot(1);
    }
  }
  if (created || must) {
    // newly formed front
    checked();
    stats->aux[5]++;
    const Soil &s = c.S(1);
    double th1 = o.f[1].theta, dth = s.te - th1, ks = s.ks * F[1], tau = dt * ks / dth;
    bool ok = false;
    double d0 = 0, i0 = 0;
    for (int k = 0; k < 3 && !ok; k++) {
      double G = Gval(c, 1, th1, s.te, ks, k), d = std::min(c.bot(1), 0.5 * (tau + sqrt(tau * tau + 4 * tau * G))), in = std::min(P, d * dth);
      if (!k) { d0 = d; i0 = in; }
      // with less water than fits, the front has the dry depth and a lower moisture
      ok = near_(o.f[0].depth, d, 1e-6) && near_(o.infil * 100, in, 1e-6) && fabs((o.f[0].theta - th1) * o.f[0].depth - in) <= 1e-6 * in + 1e-9;
    }
    if (!ok) fail("new front at %.12g cm holding %.10g cm with infiltration %.10g cm, dry depth is %.12g cm and %.10g cm fit in: %s", o.f[0].depth, (o.f[0].theta - th1) * o.f[0].depth, o.infil * 100, d0, i0, show(o).c_str());
  }
  double W = P + b.volon_cm;
  if (!create && W > 0) {
    double room = max_storage(c) - storage_of(b.f, c);
    int fd = free_drainage(b.f);
    const Front &w = b.f[fd];
    bool allsat = (int)b.f.size() == c.nl() && w.layer == c.nl() && w.theta == c.S(1).te;
    if (allsat) return;                                             // nothing to infiltrate into
    double ks = c.S(w.layer).ks * F[w.layer], in0 = 0;
    bool ok = false;
    checked();
    stats->aux[6]++;
    for (int k = 0; k < 3 && !ok; k++) {
      double G = (int)b.f.size() == c.nl() ? 0 : Gval(c, w.layer, b.f[fd + 1].theta, c.S(w.layer).te, ks, k), fp;
      if (w.layer == 1) fp = ks * (1 + (G + b.volon_cm) / w.depth);
      else {
        double den = (w.depth - c.bot(w.layer - 1)) / ks;
        for (int l = 1; l < w.layer; l++) den += c.thick[l - 1] / (c.S(l).ks * F[l]);
        fp = w.depth / den + (G + b.volon_cm) * ks / w.depth;
      }
      double in = std::min(W, std::max(0., std::min(fp * dt, room)));
      if (!k) { in0 = in; if (in < W) stats->aux[7]++; }
      ok = fabs(o.infil * 100 - in) <= 1e-6 * in + 1e-7;
    }
    if (!ok) fail("infiltration %.12g cm of %.10g cm available, the capacity allows %.12g: before %s after %s", o.infil * 100, W, in0, show(b).c_str(), show(o).c_str());
  }
}

// ------------------------------------------------------------------ C20
static void c20(Explorer<Law> &e) {
  Config c = e.c;
  Fac F(c.nl() + 1, 1.0);
  bool one = !c.adaptive && c.timestep_s == c.forcing_s;
  e.step = [=](Law &q, Model &, const StepInfo &si, const Obs &b, const Obs &o) {
    bool single = one || (c.adaptive && si.p == 0 && b.volon_cm <= 1e-12);
    laws(c, F, q, si, b, o, single, has_internals());
    q.prev_p = si.p;
  };
}
static const Alphabet SHORT{"short", {{"dry", 0, 0, 2}, {"pet", 0, 0.4, 8}, {"drz", 1, 0.1, 2}, {"rain", 9, 0, 1}, {"storm", 40, 0, 2}}};
static std::vector<Case> law_family(bool th) {
  std::vector<Case> v = family(th, false);
  // single sub-step modes, so that displacement and capacity are checked in every Update
  const std::vector<Mode> S1 = {{"s_p0_num", 0, false, false, 3600, 3600}, {"s_p2_cl", 2, true, false, 3600, 3600}, {"s_p1_num_5min", 1, false, false, 300, 300},
                                {"s_p0_cl_15min", 0, true, false, 900, 900}, {"s_p4_num_30min", 4, false, false, 1800, 1800}};
  const double PSI[] = {2000, 300, 6000};
  for (size_t i = 0; i < COLUMNS.size(); i++)
    for (size_t j = 0; j < S1.size(); j++) {
      if (!th) v.push_back({make(COLUMNS[i], S1[j], PSI[(i + j) % 3]), SHORT, 4});
      else for (double p : PSI) v.push_back({make(COLUMNS[i], S1[j], p), SHORT, 6});
    }
  return v;
}
static void c20s(SubEx<Law> &e) {
  e.sub = [](Law &q, const Config &sc, const StepInfo &si, const Obs &b, const Obs &o) {
    laws(sc, Fac(sc.nl() + 1, 1.0), q, si, b, o, true, true);
    q.prev_p = si.p;
  };
  e.upd = [](const StepInfo &, const Obs &o, const Obs &s) {
    checked();
    if (!sub_near(o.infil, s.infil, o.precip)) fail("infiltration %.10g m in an Update whose sub-steps give %.10g m", o.infil, s.infil);
    bool same = o.f.size() == s.f.size();
    for (size_t i = 0; same && i < o.f.size(); i++) same = near_(o.f[i].depth, s.f[i].depth, 1e-6) && fabs(o.f[i].theta - s.f[i].theta) <= 1e-6;
    if (!same) fail("the fronts of an Update are not those of its sub-steps: %s, sub-steps: %s", show(o).c_str(), show(s).c_str());
  };
}
static Reg r20({"C20", [](std::vector<Job> &J, bool th) { add_jobs<Law>(J, law_family(th), c20); add_sub_jobs<Law>(J, th, c20s); },
                "a check is one front speed, displacement, capacity or new front recomputed from the profile; non-trivial: the speed of a front that does move",
                {"front_speeds_and_conductivities", "speeds_below_layer_1", "speeds_below_layer_2", "speeds_under_ponding", "displacements", "new_fronts", "infiltration_steps", "infiltration_limited_by_capacity"}});

// ------------------------------------------------------------------ C16
struct Temp { const char *name; std::function<double(double)> t; bool warm; };     // temperature at depth z (cm)
static const std::vector<Temp> TEMPS = {
    {"warm", [](double z) { return 290 - z * 0.01; }, true},
    {"zero", [](double) { return 273.15; }, true},
    {"chill", [](double z) { return 273.05 + z * 1e-4; }, false},
    {"grad", [](double z) { return 272.95 + z * 0.004; }, false},
    {"ice", [](double z) { return 250 + 0.1 * z; }, false},
    {"inv", [](double z) { return 273.30 - z * 0.004; }, false},
    // profiles that have their sum, range, first or last value in common (see kin)
    {"kinA", nullptr, false}, {"kinB", nullptr, false}, {"kinC", nullptr, false}, {"kinD", nullptr, false}};
static double kin(int t, int i, int n) {
  if (t == 7) i = n - 1 - i;                                       // kinA upside down
  if (t == 6 || t == 7) return i < (n + 1) / 2 ? 272.953125 : 280;
  if (t == 8) return i == 0 ? 272.953125 : 272.90625;
  return i == n - 1 && n > 1 ? 280 : 272.984375;
}
struct Fz { double prev_p = 0; double S = 0, pond = 0; bool warm = true; };
static Fac factors(const Config &c, const std::vector<double> &T) {
  Fac F(c.nl() + 1, 1.0);
  for (int l = 1; l <= c.nl(); l++) {
    double s = 0;
    int n = 0;
    for (size_t i = 0; i < c.soil_z.size(); i++)
      if (c.soil_z[i] <= c.bot(l) && c.soil_z[i] > (l > 1 ? c.bot(l - 1) : -1)) { s += T[i]; n++; }
    F[l] = n ? std::max(0.05, std::min(1.0, exp(-10 * (273.15 - s / n)))) : 1.0;
  }
  return F;
}
struct ZGrid { const char *name; std::function<std::vector<double>(const Config &)> z; };
static const std::vector<ZGrid> ZG = {
    {"mid", [](const Config &c) { std::vector<double> z; for (int l = 1; l <= c.nl(); l++) z.push_back(0.5 * (c.bot(l) + (l > 1 ? c.bot(l - 1) : 0))); return z; }},
    {"bounds", [](const Config &c) { std::vector<double> z; for (int l = 1; l <= c.nl(); l++) { double t = l > 1 ? c.bot(l - 1) : 0; z.push_back(t + 0.3 * (c.bot(l) - t)); z.push_back(c.bot(l)); } return z; }},
    {"fine", [](const Config &c) { std::vector<double> z; for (double d = 2.5; d <= c.depth() * 1.2; d += 2.5) z.push_back(d); return z; }}};
static void c16_case(const Config &c0, const std::vector<Sym> &forc, const std::vector<int> &temps, int depth, int fixed) {
  Config c = c0;
  Explorer<Fz> e;
  e.c = c;
  e.depth = depth;
  if (fixed >= 0) e.fixed = {fixed};
  e.a.name = "temp";
  std::vector<std::string> names;
  names.reserve(64);
  std::vector<std::vector<double>> prof;
  std::vector<int> tidx;
  prof.reserve(64);
  for (int t : temps)
    for (auto &s : forc) {
      names.push_back(std::string(TEMPS[t].name) + "+" + s.name);
      Sym y = s;
      y.name = names.back().c_str();
      e.a.s.push_back(y);
      std::vector<double> T;
      // exactly freezing only where the mean is exact
      for (double z : c.soil_z)
        if (t >= 6) T.push_back(kin(t, (int)T.size(), (int)c.soil_z.size()));
        else T.push_back(TEMPS[t].t(z) + (t == 1 && (int)c.soil_z.size() > 2 * c.nl() ? 1e-6 : 0));
      prof.push_back(T);
      tidx.push_back(t);
    }
  auto index = [&](const Sym *s) { for (size_t i = 0; i < e.a.s.size(); i++) if (!strcmp(e.a.s[i].name, s->name)) return (int)i; return 0; };
  Config u = c;                          // the same model without coupling
  u.sft = false;
  u.soil_z.clear();
  std::string upath = write_config(u);
  Model *twin = new Model();
  bool single1 = !c.adaptive && c.timestep_s == c.forcing_s;
  e.start = [&, twin](Fz &q, Model &m, const Obs &) {
    twin->drop();
    if (twin->init(upath) != OK) fail("initialisation without coupling ended with %s", last_outcome_detail.c_str());
    q.S = m.getd("soil_storage") * 100;
  };
  e.advance = [&](Model &m, const Sym &s) {
    int i = index(&s);
    std::vector<double> T = prof[i];
    // temperatures in a vector of the documented length
    return m.step(s.p, s.pet, &T);
  };
  e.step = [&, twin](Fz &q, Model &, const StepInfo &si, const Obs &b, const Obs &o) {
    int i = index(si.sym);
    Fac F = factors(c, prof[i]);
    bool frozen = false;
    for (int l = 1; l <= c.nl(); l++) frozen |= F[l] < 1;
    if (frozen) stats->aux[8]++;
    bool single = single1 || (c.adaptive && si.p == 0 && b.volon_cm <= 1e-12);
    Law lq;
    lq.prev_p = q.prev_p;
    // balance of soil and surface
    double S = o.storage * 100, net = (o.infil - o.perc - o.aet) * 100, pond = q.pond + (o.precip - o.infil - o.runoff) * 100;
    checked();
    if (!(fabs(S - q.S - net) <= 2e-6)) fail("soil storage changed by %.10g cm, fluxes sum to %.10g cm with factors %g..%g: %s", S - q.S, net, F[1], F[c.nl()], show(o).c_str());
    if (!(pond >= -1e-9 && pond <= c.pond_max + 1e-9)) fail("rain not accounted for: ponded depth %.10g cm of at most %g: %s", pond, c.pond_max, show(o).c_str());
    q.S = S;
    q.pond = fabs(pond) < 1e-10 ? 0 : pond;
    laws(c, F, lq, si, b, o, single, has_internals());
    q.prev_p = si.p;
    if (q.warm && TEMPS[tidx[i]].warm) {
      if (twin->step(si.p, si.pet) != OK) fail("the uncoupled model ended with %s", last_outcome_detail.c_str());
      Obs t = twin->obs();
      std::string why;
      checked();
      stats->aux[9]++;
      if (!bitwise_equal(o, t, &why)) fail("with temperatures at or above freezing the coupled model differs from the uncoupled one: %s", why.c_str());
    } else q.warm = false;
  };
  sample(c.name + " symbols temperature profile x forcing");
  e.run();
  twin->drop();
}
static Reg r16({"C16", [](std::vector<Job> &J, bool th) {
                  static const std::vector<Sym> FORC = {{"dry", 0, 0, 3}, {"pet", 0, 0.4, 12}, {"rain", 4, 0.1, 3}, {"storm", 40, 0, 2}};
                  const double PSI[] = {2000, 200, 6000};
                  const std::vector<Mode> M = {{"p0_num_ad", 0, false, true, 300, 3600}, {"p2_cl_fix", 2, true, false, 300, 3600}, {"p0_cl_1", 0, true, false, 3600, 3600}, {"p3_num_1", 3, false, false, 3600, 3600}};
                  for (size_t i = 0; i < COLUMNS.size(); i++)
                    for (size_t j = 0; j < M.size(); j++)
                      for (size_t k = 0; k < ZG.size(); k++) {
                        if (!th && (i + j + k) % 2) continue;
                        Config c = make(COLUMNS[i], M[j], PSI[(i + j + k) % 3]);
                        c.sft = true;
                        c.soil_z = ZG[k].z(c);
                        c.name += std::string("/z") + ZG[k].name;
                        std::vector<int> all = {0, 1, 2, 3, 4, 5};
                        if (!th) J.push_back({c.name + "/kin", [=] { c16_case(c, {FORC[0], FORC[2], FORC[3]}, {6, 7, 8, 9}, 3, -1); }});
                        else
                          for (int f = 0; f < 16; f++) J.push_back({c.name + fmt("/kin%d", f), [=] { c16_case(c, FORC, {6, 7, 8, 9}, 4, f); }});
                        for (int f = 0; f < 24; f++)
                          if (th) J.push_back({c.name + fmt("/%d", f), [=] { c16_case(c, FORC, all, 4, f); }});
                        if (!th) {
                          J.push_back({c.name + "/d2", [=] { c16_case(c, FORC, all, 2, -1); }});
                          J.push_back({c.name + "/d3", [=] { c16_case(c, {FORC[1], FORC[2], FORC[3]}, {(int)(i + k) % 2, 3 + (int)(j + k) % 3}, 4, -1); }});
                        }
                      }
                },
                "a check is a balance, a front speed/conductivity/displacement/capacity recomputed with the factor of the temperatures, or a comparison with the uncoupled model; non-trivial: the speed of a front that does move",
                {"front_speeds_and_conductivities", "speeds_below_layer_1", "speeds_below_layer_2", "speeds_under_ponding", "displacements", "new_fronts", "infiltration_steps", "infiltration_limited_by_capacity", "updates_with_a_frozen_layer", "comparisons_with_uncoupled_model"}});
